// C16: initial designs through the real optimiser.
#include "bo_common.hpp"
#include <map>
using namespace boc;
using namespace limbo;
static int samples_, bins_;
struct IP : boc::Params {
    struct init_randomsampling {
        static int samples() { return samples_; }
    };
    struct init_lhs {
        static int samples() { return samples_; }
    };
    struct init_gridsampling {
        static int bins() { return bins_; }
    };
    struct init_randomsamplinggrid {
        static int samples() { return samples_; }
        static int bins() { return bins_; }
    };
};
// runs the design and returns the points, after checking the bookkeeping
template <typename Design>
static std::vector<V> run()
{
    typedef bayes_opt::BOptimizer<IP, modelfun<Model>, acquifun<Acqui<Params, Model>>, acquiopt<AcquiOpt>, initfun<Design>, statsfun<boost::fusion::vector<Stat>>, stopcrit<boost::fusion::vector<stop::MaxIterations<IP>>>> B;
    C().iters = 0;
    B bo;
    bo.optimize(Fun());
    auto h = history(bo);
    vp_check(L().calls.size() == h.size(), "every point evaluated and recorded exactly once");
    same_data(h, L().evals, "each point recorded with its own result");
    same_data(bo.model().data, h, "the model is fitted on the design");
    std::vector<V> r;
    for (auto& p : h) {
        vp_check(p.x.size() == C().din, "dimension of the points");
        r.push_back(p.x);
        if (C().bounded)
            for (int i = 0; i < p.x.size(); i++) {
                vp_check_le(0., p.x(i), "point in the box", 0);
                vp_check_le(p.x(i), 1., "point in the box", 0);
            }
    }
    return r;
}
VP_CASE(random, 'R', "0 to 4 points, 1 to 3 dimensions, 1 or 2 outputs, bounded and unbounded, any draws and objective")
{
    C().din = 1 + vp_choice(3, "inputs");
    C().dout = 1 + vp_choice(2, "outputs");
    C().bounded = vp_choice(2, "bounded");
    samples_ = vp_choice(5, "samples");
    auto p = run<init::RandomSampling<IP>>();
    vp_check((int)p.size() == samples_, "number of points");
    for (auto& v : p)
        for (int i = 0; i < v.size(); i++)
            vp_check(vp_is_sym(v(i)) || vp_native(), "coordinates are random draws");
    vp_reach("end");
}
static void lhs(int n, int d)
{
    samples_ = n;
    C().din = d;
    auto p = run<init::LHS<IP>>();
    vp_check((int)p.size() == n, "number of points");
    for (int j = 0; j < d; j++) {
        std::vector<int> cnt(n + 1, 0);
        for (auto& v : p) {
            int k = 0;
            while (k < n - 1 && v(j) >= (k + 1) / (double)n)
                k++;
            cnt[k]++;
        }
        for (int k = 0; k < n; k++)
            vp_check(cnt[k] == 1, "exactly one point per slice of every dimension");
    }
    vp_reach("end");
}
VP_CASE(lhs_1d, 'R', "1, 2 or 4 points in 1-D, any draws and permutation") { lhs(1 << vp_choice(3, "log2 points"), 1); }
VP_CASE(lhs_2d, 'R', "1 or 2 points in 2-D or 3-D, any draws and permutations") { lhs(1 << vp_choice(2, "log2 points"), 2 + vp_choice(2, "dim")); }
VP_CASE(lhs_4_2d, 'R', "4 points in 2-D, any draws and permutations") { lhs(4, 2); }
static void levels(const V& v, int b, std::vector<int>& out)
{
    for (int i = 0; i < v.size(); i++) {
        double q = v(i) * b;
        int l = (int)(q + 0.5);
        vp_check(std::abs(q - l) < 1e-9 && l >= 0 && l <= b, "coordinates are grid levels");
        out.push_back(l);
    }
}
VP_CASE(grid, 'R', "1-D bins 1 to 24, 2-D bins 1 to 9, 3-D bins 1 and 2")
{
    int d = 1 + vp_choice(3, "dim");
    C().din = d;
    bins_ = 1 + vp_choice(d == 1 ? 24 : d == 2 ? 9 : 2, "bins");
    auto p = run<init::GridSampling<IP>>();
    std::map<std::vector<int>, int> seen;
    for (auto& v : p) {
        std::vector<int> l;
        levels(v, bins_, l);
        seen[l]++;
    }
    int total = 1;
    for (int i = 0; i < d; i++)
        total *= bins_ + 1;
    vp_check((int)p.size() == total, "number of grid points");
    vp_check((int)seen.size() == total, "every combination of levels exactly once");
    vp_reach("end");
}
VP_CASE(grid_4d, 'R', "4-D and 5-D, 1 bin")
{
    int d = 4 + vp_choice(2, "dim");
    C().din = d;
    bins_ = 1;
    auto p = run<init::GridSampling<IP>>();
    std::map<std::vector<int>, int> seen;
    for (auto& v : p) {
        std::vector<int> l;
        levels(v, bins_, l);
        seen[l]++;
    }
    vp_check((int)p.size() == 1 << d && (int)seen.size() == 1 << d, "every combination of levels exactly once");
    vp_reach("end");
}
VP_CASE(random_grid_all, 'R', "1 point in 1-D (bins 1 to 4), 2-D and 3-D (bins 1 and 2): every grid point can be drawn; 2 points in 1-D (bins 2): every pair")
{
    int k = vp_choice(4, "kind"), d = k < 3 ? 1 + k : 1;
    C().din = d;
    samples_ = k < 3 ? 1 : 2;
    bins_ = k == 0 ? 1 + vp_choice(4, "bins") : k < 3 ? 1 + vp_choice(2, "bins") : 2;
    auto p = run<init::RandomSamplingGrid<IP>>();
    std::vector<int> l;
    for (auto& v : p)
        levels(v, bins_, l);
    auto name = [&](const std::vector<int>& q) {
        std::string s = std::to_string(samples_) + " points, bins " + std::to_string(bins_) + ", levels";
        for (int i : q)
            s += " " + std::to_string(i);
        return s;
    };
    // all the points there are
    std::vector<int> q(d * samples_, 0);
    while (true) {
        vp_must(name(q).c_str());
        size_t i = 0;
        while (i < q.size() && ++q[i] > bins_)
            q[i++] = 0;
        if (i == q.size())
            break;
    }
    vp_reach(name(l).c_str());
    vp_reach("end");
}
// coordinates that are different draws
static void independent(const std::vector<V>& p, int n, int d, int slices)
{
    int a = vp_choice(n * d, "coordinate"), b = vp_choice(n * d, "other");
    if (a >= b)
        return;
    auto pos = [&](int k) { // position within its slice
        double x = p[k / d](k % d) * slices;
        while (x >= 1 && slices > 1)
            x -= 1;
        return x;
    };
    std::string l = std::to_string(n) + " points in " + std::to_string(d) + "-D: coordinates " + std::to_string(a) + " and " + std::to_string(b) + " drawn independently";
    vp_must(l.c_str());
    double x = pos(a), y = pos(b);
    if (x > y + 0.25)
        vp_reach(l.c_str());
}
VP_CASE(random_independent, 'R', "2 points in 3-D: any two coordinates are different draws")
{
    C().din = 3;
    samples_ = 2;
    auto p = run<init::RandomSampling<IP>>();
    independent(p, 2, 3, 1);
    vp_reach("end");
}
VP_CASE(lhs_independent, 'R', "1 point in 4-D, 2 points in 3-D: the positions of any two coordinates in their slices are different draws")
{
    samples_ = 1 + vp_choice(2, "points");
    C().din = samples_ == 1 ? 4 : 3;
    auto p = run<init::LHS<IP>>();
    independent(p, samples_, C().din, samples_);
    vp_reach("end");
}
// the slices of the dimensions are shuffled independently
VP_CASE(lhs_pairings, 'R', "2 points in 3-D: every pairing of the slices can be drawn")
{
    samples_ = 2;
    C().din = 3;
    auto p = run<init::LHS<IP>>();
    for (int k = 0; k < 8; k++)
        vp_must(("first point in slices " + std::to_string(k)).c_str());
    int k = 0;
    for (int j = 0; j < 3; j++)
        k = 2 * k + (p[0](j) >= 0.5);
    vp_reach(("first point in slices " + std::to_string(k)).c_str());
    vp_reach("end");
}
VP_CASE(random_grid, 'R', "0 to 2 points in 1-D (bins 1 to 4), 1 point in 2-D (bins 3), all draws")
{
    int d = 1 + vp_choice(2, "dim");
    C().din = d;
    bins_ = d == 1 ? 1 + vp_choice(4, "bins") : 3;
    samples_ = d == 1 ? vp_choice(3, "samples") : 1;
    auto p = run<init::RandomSamplingGrid<IP>>();
    vp_check((int)p.size() == samples_, "number of points");
    for (auto& v : p) {
        std::vector<int> l;
        levels(v, bins_, l);
    }
    vp_reach("end");
}
VP_CASE(none, 'R', "no initialisation")
{
    C().din = 2;
    auto p = run<init::NoInit<IP>>();
    vp_check(p.empty() && L().count('n') == 1, "no point and an empty model");
    vp_reach("end");
}
