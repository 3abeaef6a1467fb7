// C31: hypervolumes: of the statistic (Zitzler's code) and of the expected improvement library.
#include "bo_common.hpp"
#include "ehvi_ref.hpp"
struct AnyPtr { // what C's malloc returns
    void* p;
    template <typename T>
    operator T*() const { return (T*)p; }
};
static AnyPtr alloc(size_t n) { return {std::malloc(n)}; }
#define malloc alloc
extern "C" {
#include <hv/hypervol.c>
}
#undef malloc
#include <fstream>
#include <limbo/experimental/stat/hyper_volume.hpp>
#include <sstream>
using namespace boc;
using boc::nm;
// reference: volume of the union of the boxes [r, p], by inclusion and exclusion
typedef std::vector<double> Pt;
static double least(double a, double b) { return a < b ? a : b; }
static double volume(const std::vector<Pt>& ps, const Pt& r)
{
    double sum = 0;
    for (unsigned s = 1; s < (1u << ps.size()); s++) {
        double v = 1;
        int n = 0;
        for (size_t k = 0; k < r.size(); k++) {
            double m = 0;
            n = 0;
            for (size_t i = 0; i < ps.size(); i++)
                if (s >> i & 1) {
                    m = n ? least(m, ps[i][k]) : ps[i][k];
                    n++;
                }
            v *= m - r[k];
        }
        sum += n % 2 ? v : -v;
    }
    return sum;
}
// n points in d dimensions above r, in any order on each axis, with ties if asked
static std::vector<Pt> points(int n, int d, const Pt& r, int ties, int first = 0)
{
    std::vector<Pt> p(n, Pt(d));
    for (int k = 0; k < d; k++) {
        std::vector<int> order;
        for (int i = 0; i < n; i++)
            order.insert(order.begin() + (k < first ? i : vp_choice(i + 1, "place")), i);
        double v = r[k];
        for (int j = 0; j < n; j++) {
            if (!(j && ties && k >= d - ties && vp_choice(2, "tie")))
                v += vp_sym(nm("gap", k, j).c_str(), 0.0625, 4);
            p[order[j]][k] = v;
        }
    }
    return p;
}
struct Front {
    std::vector<Pt> own;
    std::vector<double*> ptr;
    Front(const std::vector<Pt>& p) : own(p)
    {
        for (auto& x : own)
            ptr.push_back(x.data());
    }
    double** data() { return ptr.data(); }
};
static bool dominates(const Pt& a, const Pt& b)
{
    bool gt = false;
    for (size_t k = 0; k < a.size(); k++) {
        if (a[k] < b[k])
            return false;
        gt = gt || a[k] > b[k];
    }
    return gt;
}
static void dominated(int n, int d, int ties, int first = 0)
{
    auto p = points(n, d, Pt(d, 0.), ties, first);
    Front f(p);
    int m = FilterNondominatedSet(f.data(), n, d);
    std::vector<int> in;
    for (int i = 0; i < n; i++) {
        bool dom = false;
        for (int j = 0; j < n; j++)
            dom = dom || (i != j && dominates(p[j], p[i]));
        int at = -1;
        for (int j = 0; j < n; j++)
            if (f.ptr[j] == f.own[i].data()) {
                vp_check(at < 0, "no point is repeated");
                at = j;
            }
        vp_check(at >= 0, "no point is lost");
        vp_check((at < m) == !dom, "the non-dominated points come first");
    }
    for (int i = 0; i < n; i++)
        for (int k = 0; k < d; k++)
            vp_check_same(f.own[i][k], p[i][k], "the points are not changed");
    vp_check_eq(CalculateHypervolume(f.data(), m, d), volume(p, Pt(d, 0.)), "volume dominated by the points");
    for (int i = 0; i < n; i++)
        for (int k = 0; k < d; k++)
            vp_check_same(f.own[i][k], p[i][k], "the points are not changed");
    vp_reach("end");
}
VP_CASE(zitzler_2, 'R', "1..3 points in 2 dimensions, any values above the origin, ties included") { dominated(1 + vp_choice(3, "points"), 2, 2); }
VP_CASE(zitzler_3, 'R', "1..2 points in 3 dimensions, ties included") { dominated(1 + vp_choice(2, "points"), 3, 3); }
VP_CASE(zitzler_3_3, 'R', "3 points in 3 dimensions, any order on each axis, ties on the last") { dominated(3, 3, 1, 0); }
VP_CASE(zitzler_2_4, 'R', "4 points in 2 dimensions, any order on each axis, ties on the last") { dominated(4, 2, 1, 0); }
VP_CASE(t_zitzler_3_4, 'R', "4 points in 3 dimensions, any order on the last two axes") { dominated(4, 3, 0, 1); }
VP_CASE(t_zitzler_4_3, 'R', "3 points in 4 dimensions, any order on the last three axes, ties on the last") { dominated(3, 4, 1, 1); }
VP_CASE(t_zitzler_2_5, 'R', "5 points in 2 dimensions, any order on each axis") { dominated(5, 2, 0, 0); }
// the statistic
static double ref_[3] = {10, 10, 10};
struct SP {
    struct stat_hyper_volume {
        static double ref(int k) { return ref_[k]; }
    };
};
struct Default {
    struct stat_hyper_volume : public limbo::experimental::stat::defaults::stat_hyper_volume {
    };
};
struct FakeBO {
    bool on = true;
    int it = 0;
    std::vector<V> y;
    bool stats_enabled() const { return on; }
    std::string res_dir() const { return "."; }
    int current_iteration() const { return it; }
    const std::vector<V>& observations() const { return y; }
};
VP_CASE(statistic, 'R', "2 or 3 objectives, a file over 2 iterations with 1 then 2 observations above the reference, any values; statistics on or off")
{
    int d = 2 + vp_choice(2, "objectives");
    FakeBO b;
    b.on = !vp_choice(2, "off");
    Pt r(d);
    for (int k = 0; k < d; k++) {
        ref_[k] = vp_sym(nm("ref", k).c_str(), -2, 12);
        r[k] = -ref_[k];
    }
    auto p = points(2, d, r, 0);
    limbo::experimental::stat::HyperVolume<SP> st;
    st(b, limbo::FirstElem()); // nothing yet
    vp_check(!std::ifstream("hypervolume.dat").good(), "no file without data");
    std::vector<double> want;
    for (int n = 1; n <= 2; n++) {
        b.it = 2 * n + 1;
        V v(d);
        for (int k = 0; k < d; k++)
            v(k) = p[n - 1][k];
        b.y.push_back(v);
        st(b, limbo::FirstElem());
        want.push_back(volume(std::vector<Pt>(p.begin(), p.begin() + n), r));
        for (int i = 0; i < n; i++)
            for (int k = 0; k < d; k++)
                vp_check_same(b.y[i](k), p[i][k], "the observations are not changed");
    }
    std::ifstream is("hypervolume.dat");
    vp_check(is.good() == b.on, "a file when statistics are on");
    if (!b.on || !is.good())
        return;
    std::string l;
    for (int n = 1; n <= 2; n++) {
        vp_check((bool)std::getline(is, l), "one record per iteration");
        std::stringstream s(l);
        std::string it, h, more;
        s >> it >> h;
        vp_check(it == std::to_string(2 * n + 1), "the iteration");
        double g = std::strtod(h.c_str(), nullptr), w = want[n - 1], e = 5.001e-6 * std::abs(w);
        vp_check_le(g, w + e, "volume dominated by the observations");
        vp_check_le(w - e, g, "volume dominated by the observations");
        vp_check(!(s >> more), "nothing else");
    }
    vp_check(!std::getline(is, l), "one record per iteration");
    vp_reach("end");
}
VP_CASE(statistic_default, 'R', "documented reference")
{
    vp_check_eq(Default::stat_hyper_volume::ref(0), 10, "10");
    vp_check_eq(Default::stat_hyper_volume::ref(1), 10, "10");
    vp_reach("end");
}
// the expected improvement library
struct Pop {
    std::deque<individual> own;
    std::deque<individual*> p;
    Pop(const std::vector<Pt>& x, int by = -1)
    {
        for (auto& q : x) {
            individual i;
            for (int k = 0; k < 3; k++)
                i.f[k] = k < (int)q.size() ? q[k] : 0;
            own.push_back(i);
        }
        for (auto& i : own)
            p.push_back(&i);
        if (by >= 0)
            std::sort(p.begin(), p.end(), [by](individual* a, individual* b) { return a->f[by] < b->f[by]; });
    }
};
static void staircase(int n, bool ties)
{
    double r[3] = {vp_sym("r0", -2, 2), vp_sym("r1", -2, 2), 0};
    std::vector<int> order;
    for (int i = 0; i < n; i++)
        order.insert(order.begin() + vp_choice(i + 1, "place"), i);
    std::vector<Pt> p(n, Pt(2));
    double x = r[0], y = r[1];
    for (int i = 0; i < n; i++) {
        p[order[i]][0] = x += vp_sym(nm("x", i).c_str(), 0.0625, 4);
        p[order[n - 1 - i]][1] = y += vp_sym(nm("y", i).c_str(), 0.0625, 4);
    }
    if (ties && n)
        p.push_back(p[vp_choice(n, "twice")]);
    Pop q(p);
    vp_check_eq(calculateS(q.p, r), volume(p, Pt{r[0], r[1]}), "area of a front");
    vp_reach("end");
}
VP_CASE(area, 'R', "front of 0..4 points in 2 dimensions in any order, any reference; also with one of the points twice (up to 3)")
{
    bool t = vp_choice(2, "twice");
    staircase(vp_choice(t ? 4 : 5, "points"), t);
}
// what is in the slice above a height of one dimension, up to a corner, as an area of the other two
static void slice(int n, int dim, bool sides, int first)
{
    int a = dim == 0 ? 1 : 0, b = dim == 2 ? 1 : 2;
    Pt zero(3, 0.);
    auto p = points(n, 3, zero, 0, first);
    double r[3], fmax[3];
    for (int k = 0; k < 3; k++) {
        r[k] = 0;
        fmax[k] = 100;
    }
    std::vector<Pt> in;
    if (sides) { // the corner and the height are anywhere
        for (int k = 0; k < 3; k++)
            fmax[k] = vp_sym(nm("corner", k).c_str(), -1, 9);
    }
    else
        fmax[dim] = 0;
    for (auto& q : p)
        if (q[dim] > fmax[dim])
            in.push_back(Pt{least(q[a], fmax[a]), least(q[b], fmax[b])});
    double want = 0;
    if (fmax[a] > 0 && fmax[b] > 0)
        want = volume(in, Pt{0, 0});
    Pop q(p, dim);
    vp_check_eq(calculateslice(q.p, r, fmax, dim), want, "area of the slice");
    vp_reach("end");
}
VP_CASE(slices, 'R', "1..3 points in 3 dimensions in any order on each axis, each dimension, whole slice") { slice(1 + vp_choice(3, "points"), vp_choice(3, "dimension"), false, 0); }
VP_CASE(slices_corner, 'R', "2 points, each dimension, any height and corner") { slice(2, vp_choice(3, "dimension"), true, 0); }
VP_CASE(slices_4, 'R', "4 points inserted in a fixed order of the third axis, any order on the other two") 
{
    int n = 4;
    std::vector<Pt> p(n, Pt(3));
    for (int k = 0; k < 2; k++) {
        std::vector<int> order;
        for (int i = 0; i < n; i++)
            order.insert(order.begin() + vp_choice(i + 1, "place"), i);
        double v = 0;
        for (int j = 0; j < n; j++)
            p[order[j]][k] = v += vp_sym(nm("gap", k, j).c_str(), 0.0625, 4);
    }
    for (int i = 0; i < n; i++)
        p[i][2] = n - i;
    double r[3] = {0, 0, 0}, fmax[3] = {100, 100, 0};
    Pop q(p, 2);
    std::vector<Pt> in;
    for (auto& x : p)
        in.push_back(Pt{x[0], x[1]});
    vp_check_eq(calculateslice(q.p, r, fmax, 2), volume(in, Pt{0, 0}), "area of the slice");
    vp_reach("end");
}
// many non-dominated points, then one that dominates some of them: the tree is rebuilt
static void tree(int n, int extra)
{
    std::vector<int> order;
    for (int i = 0; i < n; i++)
        order.insert(order.begin() + vp_choice(i + 1, "place"), i);
    std::vector<Pt> p(n, Pt(3));
    double x = 0, y = 0;
    std::vector<double> xs, ys;
    for (int i = 0; i < n; i++) {
        xs.push_back(x += vp_sym(nm("x", i).c_str(), 0.0625, 4));
        ys.push_back(y += vp_sym(nm("y", i).c_str(), 0.0625, 4));
    }
    for (int i = 0; i < n; i++) {
        p[order[i]][0] = xs[i];
        p[order[i]][1] = ys[n - 1 - i];
    }
    for (int e = 0; e < extra; e++) {
        int i = vp_choice(n, "right"), j = vp_choice(n, "top");
        p.push_back(Pt{xs[i] + vp_sym(nm("dx", e).c_str(), 0.001, 0.03), ys[j] + vp_sym(nm("dy", e).c_str(), 0.001, 0.03), 0});
    }
    int m = p.size();
    for (int i = 0; i < m; i++)
        p[i][2] = m - i;
    double r[3] = {0, 0, 0}, fmax[3] = {100, 100, 0};
    Pop q(p, 2);
    std::vector<Pt> in;
    for (auto& x : p)
        in.push_back(Pt{x[0], x[1]});
    vp_check_eq(calculateslice(q.p, r, fmax, 2), volume(in, Pt{0, 0}), "area of the slice");
    vp_reach("end");
}
VP_CASE(tree_4, 'R', "4 non-dominated points in any order, then one anywhere") { tree(4, 1); }
VP_CASE(tree_5, 'R', "5 non-dominated points in any order, then one anywhere") { tree(5, 1); }
VP_CASE(t_tree_6, 'R', "6 non-dominated points in any order, then one anywhere") { tree(6, 1); }
VP_CASE(t_tree_5, 'R', "5 non-dominated points in any order, then two anywhere") { tree(5, 2); }
// volume between two corners; the lower one at the height of a point or of the reference
static void box(int n, bool sides, int first)
{
    Pt zero(3, 0.);
    auto p = points(n, 3, zero, 0, first);
    Pop q(p, 2);
    double cl[3] = {0, 0, 0}, fmax[3] = {100, 100, 100};
    if (sides)
        for (int k = 0; k < 2; k++) {
            cl[k] = vp_sym(nm("cl", k).c_str(), 0, 4);
            fmax[k] = vp_sym(nm("corner", k).c_str(), -1, 9);
        }
    fmax[2] = vp_sym("corner2", -1, 9);
    int at = vp_choice(n + 1, "height");
    if (at)
        cl[2] = q.p[at - 1]->f[2];
    double want = 0;
    bool empty = false;
    for (int k = 0; k < 3; k++)
        empty = empty || cl[k] >= fmax[k];
    if (!empty) {
        std::vector<Pt> in;
        for (auto& x : p) {
            bool above = true;
            for (int k = 0; k < 3; k++)
                above = above && x[k] > cl[k];
            if (above)
                in.push_back(Pt{least(x[0], fmax[0]), least(x[1], fmax[1]), least(x[2], fmax[2])});
        }
        want = volume(in, Pt{cl[0], cl[1], cl[2]});
    }
    vp_check_eq(hvol3d(q.p, cl, fmax), want, "volume in the box");
    vp_reach("end");
}
VP_CASE(boxes_whole, 'R', "1..3 points in 3 dimensions in any order on each axis (two axes for 3), box from the height of any point or the reference to any height")
{
    int n = 1 + vp_choice(3, "points");
    box(n, false, n == 3);
}
VP_CASE(boxes, 'R', "1..2 points in 3 dimensions, any box that starts at the height of a point or the reference") { box(1 + vp_choice(2, "points"), true, 0); }
VP_CASE(t_boxes_3, 'R', "3 points in 3 dimensions, any order on two axes, any box that starts at the height of a point or the reference") { box(3, true, 1); }
VP_CASE(t_boxes_4, 'R', "4 points in 3 dimensions, any order on two axes, box from the height of any point to any height") { box(4, false, 1); }
VP_CASE(no_points, 'R', "no points")
{
    double r[3] = {0, 0, 0}, f[3] = {1, 1, 1};
    std::deque<individual*> p;
    vp_check_eq(hvol3d(p, r, f), 0, "empty");
    vp_check_eq(calculateslice(p, r, f, vp_choice(3, "dimension")), 0, "empty");
    vp_check_eq(calculateS(p, r), 0, "empty");
    vp_reach("end");
}
