// C07: which points a sparsified model keeps.
#include "gp_common.hpp"
using namespace gpc;
using namespace limbo;
template <int MP>
struct PM {
    struct model_sparse_gp {
        BO_PARAM(int, max_points, MP);
    };
    struct kernel : public defaults::kernel {
    };
    struct kernel_exp : public defaults::kernel_exp {
    };
};
// trivial model parts: what matters is which points are kept
struct Ker {
    Ker(size_t = 1) {}
    double operator()(const V&, const V&, int i = -1, int j = -2) const { return i == j ? 1. : 0.25; }
    size_t h_params_size() const { return 0; }
    V h_params() const { return V(); }
    void set_h_params(const V&) {}
    double noise() const { return 0.75; }
};
template <int MP>
using SGP = model::SparsifiedGP<PM<MP>, Ker, mean::Data<PM<MP>>>;
template <int MP>
using RGP = model::GP<PM<MP>, Ker, mean::Data<PM<MP>>>;

static double density(const std::vector<V>& x, const std::vector<int>& alive, size_t k, int D)
{
    std::vector<double> d;
    for (size_t j = 0; j < alive.size(); j++)
        if (j != k)
            d.push_back((x[alive[k]] - x[alive[j]]).norm());
    double s = 0;
    for (int c = 0; c < D && !d.empty(); c++) {
        size_t m = 0;
        for (size_t j = 1; j < d.size(); j++)
            if (d[j] < d[m])
                m = j;
        s += d[m];
        d.erase(d.begin() + m);
    }
    return s;
}
// observation i is the concrete number i: identifies the survivors
template <typename G>
static std::vector<int> survivors(const G& gp, const std::vector<V>& x, const char* l)
{
    std::vector<int> r;
    auto o = gp.observations();
    vp_check(o.size() == gp.samples().size(), l);
    for (size_t i = 0; i < o.size(); i++) {
        int id = (int)std::floor(o[i](0) + 0.5);
        r.push_back(id);
        for (int d = 0; d < x[id].size(); d++)
            vp_check_same(gp.samples()[i](d), x[id](d), "sample and observation stay together");
    }
    return r;
}
static std::vector<V> positions(int n, int dim, double lo, double hi)
{
    std::vector<V> x;
    for (int i = 0; i < n; i++) {
        V v(dim);
        for (int d = 0; d < dim; d++)
            v(d) = vp_sym(lab("x", i, d).c_str(), lo, hi);
        x.push_back(v);
    }
    return x;
}
// one excess point, ties allowed
template <int MP>
static void one(const std::vector<V>& x, bool add)
{
    int n = x.size(), dim = x[0].size();
    std::vector<V> y;
    for (int i = 0; i < n; i++)
        y.push_back(tools::make_vector(i));
    SGP<MP> gp(dim, 1);
    if (add)
        for (int i = 0; i < n; i++)
            gp.add_sample(x[i], y[i]);
    else
        gp.compute(x, y);
    auto s = survivors(gp, x, "as many observations as samples");
    vp_check((int)s.size() == MP && gp.nb_samples() == MP, "configured number of points");
    std::vector<bool> in(n, false);
    for (int k : s) {
        vp_check(!in[k], "no point twice");
        in[k] = true;
    }
    int gone = std::find(in.begin(), in.end(), false) - in.begin();
    std::vector<int> all(n);
    for (int i = 0; i < n; i++)
        all[i] = i;
    double dg = density(x, all, gone, dim);
    for (int i = 0; i < n; i++)
        if (i != gone)
            vp_check_le(dg, density(x, all, i, dim), "the removed point is a densest one", 1e-7);
    // predictions of a plain model on the survivors
    std::vector<V> xs, ys;
    for (int k : s) {
        xs.push_back(x[k]);
        ys.push_back(y[k]);
    }
    RGP<MP> r(dim, 1);
    r.compute(xs, ys);
    V q = V::Zero(dim);
    vp_check_eq(gp.mu(q)(0), r.mu(q)(0), "mean");
    vp_check_eq(gp.sigma(q), r.sigma(q), "variance");
    vp_check_eq(gp.compute_log_lik(), r.compute_log_lik(), "log-likelihood");
    vp_reach("end");
}
VP_CASE(one_excess_1d, 'R', "4 symbolic points in 1-D, 3 kept, batch and one by one") { one<3>(positions(4, 1, 0, 1), vp_choice(2, "one by one")); }
VP_CASE(one_excess_2d, 'R', "4 points in 2-D (3 corners of a fixed triangle, the fourth symbolic in its neighbourhood), 3 kept")
{
    std::vector<V> x = {V(2), V(2), V(2), V(2)};
    x[0] << 0, 0;
    x[1] << 1, 0;
    x[2] << 0, 0.75;
    x[3] << vp_sym("a", -0.5, 1.5), 0.25;
    std::rotate(x.begin(), x.begin() + vp_choice(4, "rotation"), x.end());
    one<3>(x, false);
}
VP_CASE(one_excess_line, 'R', "5 points in 2-D on a line parallel to an axis (the two nearest neighbours count), the four gaps between them symbolic, 2 orders of the points, 4 kept, batch and one by one")
{
    int axis = vp_choice(2, "axis");
    std::vector<V> x;
    double at = 0;
    for (int i = 0; i < 5; i++) {
        V v = V::Constant(2, 0.5);
        v(axis) = at;
        x.push_back(v);
        at += vp_sym(lab("gap", i).c_str(), 0.0625, 1);
    }
    if (axis)
        std::swap(x[1], x[3]);
    one<4>(x, axis);
}
VP_CASE(two_excess_1d, 'R', "4 symbolic points in 1-D, 2 kept (two successive removals), batch")
{
    auto x = positions(4, 1, 0, 1);
    std::vector<V> y;
    for (int i = 0; i < 4; i++)
        y.push_back(tools::make_vector(i));
    SGP<2> gp(1, 1);
    gp.compute(x, y);
    auto s = survivors(gp, x, "as many observations as samples");
    vp_check(s.size() == 2, "configured number of points");
    std::vector<int> gone;
    for (int k = 0; k < 4; k++)
        if (std::find(s.begin(), s.end(), k) == s.end())
            gone.push_back(k);
    if (gone.size() != 2)
        return;
    // one of the two removal orders takes a densest point each time
    bool some = false;
    for (int first = 0; first < 2 && !some; first++) {
        std::vector<int> alive = {0, 1, 2, 3};
        bool good = true;
        for (int t = 0; t < 2 && good; t++) {
            size_t k = std::find(alive.begin(), alive.end(), gone[first ^ t]) - alive.begin();
            double dk = density(x, alive, k, 1);
            for (size_t j = 0; j < alive.size(); j++)
                if (j != k && good && !(dk <= density(x, alive, j, 1) + 1e-12))
                    good = false;
            alive.erase(alive.begin() + k);
        }
        some = good;
    }
    vp_check(some, "every removal takes a densest point");
    vp_reach("end");
}
VP_CASE(no_excess, 'R', "as many points as allowed or fewer: nothing is dropped, batch and one by one")
{
    int n = 1 + vp_choice(3, "points");
    auto x = positions(n, 2, 0, 1);
    std::vector<V> y;
    for (int i = 0; i < n; i++)
        y.push_back(tools::make_vector(i));
    SGP<3> gp(2, 1);
    if (vp_choice(2, "one by one"))
        for (int i = 0; i < n; i++)
            gp.add_sample(x[i], y[i]);
    else
        gp.compute(x, y);
    auto s = survivors(gp, x, "as many observations as samples");
    vp_check((int)s.size() == n, "nothing dropped");
    for (int i = 0; i < n; i++)
        vp_check(s[i] == i, "order kept");
    vp_reach("end");
}
VP_CASE(high_dim, 'R', "more input dimensions than neighbours: 3 points in 4-D (on a line, symbolic positions), 2 kept")
{
    auto p = positions(3, 1, 0, 1);
    std::vector<V> x;
    for (auto& v : p) {
        V z = V::Zero(4);
        z(2) = v(0);
        x.push_back(z);
    }
    one<2>(x, false);
}
// several removals among many points
template <int MP>
static void many(const std::vector<V>& x, bool add)
{
    int n = x.size(), dim = x[0].size();
    std::vector<int> alive;
    SGP<MP> gp(dim, 1);
    std::vector<V> y;
    for (int i = 0; i < n; i++)
        y.push_back(tools::make_vector(i));
    auto drop = [&]() {
        while ((int)alive.size() > MP) {
            size_t m = 0;
            std::vector<double> d;
            for (size_t k = 0; k < alive.size(); k++) {
                d.push_back(density(x, alive, k, dim));
                if (d[k] < d[m])
                    m = k;
            }
            for (size_t k = 0; k < d.size(); k++) // equally dense points: any of them may go
                if (k != m)
                    vp_assume_le(d[m] + 1e-3, d[k]);
            alive.erase(alive.begin() + m);
        }
    };
    for (int i = 0; i < n; i++) {
        alive.push_back(i);
        if (add)
            drop();
    }
    drop();
    if (add)
        for (int i = 0; i < n; i++)
            gp.add_sample(x[i], y[i]);
    else
        gp.compute(x, y);
    auto s = survivors(gp, x, "as many observations as samples");
    vp_check(s == alive, "the densest point is removed until the configured number is left");
    vp_reach("end");
}
static std::vector<V> line(int n, int dim)
{
    static const double at[] = {0., 0.53125, 0.09375, 0.953125, 0.1875, 0.34375, 0.796875, 0.625, 0.2578125};
    std::vector<V> x;
    for (int i = 0; i < n; i++) {
        V v = V::Constant(dim, 0.5);
        v(dim - 1) = at[i];
        x.push_back(v);
    }
    x[n / 2](dim - 1) = vp_sym("at", -0.25, 1.25);
    return x;
}
VP_CASE(many_kept, 'R', "9 points on a line in 2-D or 3-D, one of them anywhere on it, 8 kept") { many<8>(line(9, 2 + vp_choice(2, "dim")), false); }
VP_CASE(many_removed, 'R', "8 points on a line in 2-D, one of them anywhere on it, 5 kept, batch") { many<5>(line(8, 2), false); }
VP_CASE(many_added, 'R', "7 points on a line in 2-D, one of them anywhere on it, 5 kept, one by one") { many<5>(line(7, 2), true); }
