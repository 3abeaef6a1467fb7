// C22: the parallel helpers and their users, for every schedule.
// Compiled twice: with the sequential fallback, and with USE_TBB over the model of TBB in /stubs.
#include "vp.hpp"
#include <limbo/limbo.hpp>
#include <limbo/model/multi_gp.hpp>
#include <limbo/model/multi_gp/parallel_lf_opt.hpp>
#include <limbo/model/sparsified_gp.hpp>
#include <limbo/opt/parallel_repeater.hpp>
#include <limbo/tools/parallel.hpp>
using namespace limbo;
typedef Eigen::VectorXd V;
static std::string nm(const char* p, int i, int j = -1) { return std::string(p) + std::to_string(i) + (j >= 0 ? "_" + std::to_string(j) : ""); }
// one thread, in order: the reference
template <typename F>
static void sequential(const F& f)
{
#ifdef USE_TBB
    tbb::vp_schedule() = 1;
    f();
    tbb::vp_schedule() = 0;
#else
    f();
#endif
}
VP_CASE(loop_once, 'R', "first index 0..2, 0..4 items, one of them symbolic in value; also an empty and a reversed range")
{
    int b = vp_choice(3, "first"), n = vp_choice(6, "items") - 1;
    std::vector<double> in(8), out(8, 0.);
    std::vector<int> hits(8, 0);
    for (int i = 0; i < 8; i++)
        in[i] = vp_sym(nm("v", i).c_str());
    tools::par::loop(b, n < 0 ? (b ? b - 1 : 0) : b + n, [&](size_t i) {
        vp_check(i < 8, "index of the range");
        hits[i]++;
        out[i] = 2 * in[i] + i;
    });
    for (int i = 0; i < 8; i++) {
        bool inside = i >= b && i < b + n;
        vp_check(hits[i] == (inside ? 1 : 0), "the body runs exactly once per index");
        vp_check_eq(out[i], inside ? 2 * in[i] + i : 0., "what the body computed");
    }
    vp_reach("end");
}
VP_CASE(for_each_once, 'R', "0..4 elements")
{
    int n = vp_choice(5, "items");
    std::vector<double> in(n), v(n);
    for (int i = 0; i < n; i++)
        in[i] = v[i] = vp_sym(nm("v", i).c_str());
    tools::par::for_each(v.begin(), v.end(), [](double& x) { x = 3 * x + 1; });
    for (int i = 0; i < n; i++)
        vp_check_eq(v[i], 3 * in[i] + 1, "the body runs exactly once per element");
    std::list<int> l = {5, 6, 7};
    std::vector<int> c(8, 0);
    tools::par::for_each(l.begin(), l.end(), [&](int x) { c[x]++; });
    for (int i = 0; i < 8; i++)
        vp_check(c[i] == (i >= 5), "list");
    vp_reach("end");
}
template <typename C>
static void max_of(const C& comp)
{
    int n = vp_choice(5, "items");
    std::vector<double> v(n + 1);
    for (int i = 0; i <= n; i++)
        v[i] = vp_sym(nm("v", i).c_str());
    std::vector<int> calls(n + 1, 0);
    typedef std::pair<int, double> P;
    auto r = tools::par::max(P(n, v[n]), n,
        [&](int i) {
            calls[i]++;
            return P(i, v[i]);
        },
        [&](const P& a, const P& b) { return comp(a.second, b.second); });
    vp_check(r.first >= 0 && r.first <= n, "the result is one of the values");
    vp_check_same(r.second, v[r.first], "the result is one of the values");
    for (int i = 0; i <= n; i++) {
        if (i < n)
            vp_check(calls[i] == 1, "every value is computed once");
        vp_check(!comp(v[i], v[r.first]), "no value, initial one included, is better than the result");
    }
    vp_reach("end");
}
VP_CASE(max_greater, 'R', "an initial value and 0..4 values, ties included, every grouping of the reduction") { max_of([](double a, double b) { return a > b; }); }
VP_CASE(max_smaller, 'R', "the same with the opposite order") { max_of([](double a, double b) { return a < b; }); }
VP_CASE(sort_all, 'R', "0..4 values, ties included, sub-ranges included")
{
    int n = vp_choice(5, "items"), from = vp_choice(2, "from");
    if (from > n)
        return;
    typedef std::pair<int, double> P;
    std::vector<P> v;
    std::vector<double> in;
    for (int i = 0; i < n; i++) {
        in.push_back(vp_sym(nm("v", i).c_str()));
        v.push_back(P(i, in[i]));
    }
    tools::par::sort(v.begin() + from, v.end(), [](const P& a, const P& b) { return a.second > b.second; });
    std::vector<int> seen(n, 0);
    for (int i = 0; i < n; i++) {
        seen[v[i].first]++;
        vp_check_same(v[i].second, in[v[i].first], "element kept whole");
        if (i > from)
            vp_check(!(v[i].second > v[i - 1].second), "sorted by the comparator");
        if (i < from)
            vp_check(v[i].first == i, "outside of the range");
    }
    for (int i = 0; i < n; i++)
        vp_check(seen[i] == 1, "permutation");
    vp_reach("end");
}
VP_CASE(replicate_count, 'R', "0..4 repetitions")
{
    int n = vp_choice(5, "times");
    std::mutex m;
    int c = 0;
    tools::par::replicate(n, [&]() {
        std::lock_guard<std::mutex> l(m);
        c++;
    });
    vp_check(c == n, "runs the asked number of times");
    vp_reach("end");
}
VP_CASE(convert_all, 'R', "0..3 elements")
{
    int n = vp_choice(4, "items");
#ifdef __GXX_EXPERIMENTAL_CXX0X__
    tools::par::vector<double>::type v;
#else
    tools::par::vector<double> v;
#endif
    std::vector<double> in;
    for (int i = 0; i < n; i++) {
        in.push_back(vp_sym(nm("v", i).c_str()));
        v.push_back(in[i]);
    }
    std::vector<double> w = tools::par::convert_vector(v);
    vp_check((int)w.size() == n, "size");
    for (int i = 0; i < n; i++)
        vp_check_same(w[i], in[i], "elements in order");
    tools::par::init();
    tools::par::init(2);
    vp_reach("end");
}

// ---------------- users ----------------
struct P {
    struct opt_parallelrepeater {
        BO_PARAM(int, repeats, 3);
        BO_PARAM(double, epsilon, 0.25);
    };
    struct kernel : public defaults::kernel {
        BO_PARAM(double, noise, 0.0625);
    };
    struct kernel_exp : public defaults::kernel_exp {
    };
    struct model_sparse_gp {
        BO_PARAM(int, max_points, 3);
    };
};
// the value of the restart is a function of its start; the optimizer moves the start a little
struct Opt {
    template <typename F>
    V operator()(const F& f, const V& x, bool) const
    {
        return V(x.array() + 0.5);
    }
};
VP_CASE(repeater_best, 'R', "3 parallel restarts, objective free, every grouping and every draw")
{
    // every value by its own call: no shared state in the objective
    auto g = [](const V& x) {
        double a[1] = {x(0)};
        return vp_uf("objective", a, 1);
    };
    std::mutex m;
    std::vector<V> at;
    auto f = [&](const V& x, bool) {
        std::lock_guard<std::mutex> l(m);
        at.push_back(x);
        return opt::no_grad(g(x));
    };
    V init = V::Constant(1, vp_sym("init", 0, 1));
    V r = opt::ParallelRepeater<P, Opt>()(f, init, false);
    vp_check((int)at.size() == P::opt_parallelrepeater::repeats(), "one evaluation per restart");
    double vr = g(r);
    bool one = false;
    for (auto& x : at) {
        vp_check_le(g(x), vr, "no restart is better than the returned point");
        // the restart began within epsilon of the start
        vp_check_le(x(0), init(0) + 0.5 + 0.25, "start of a restart");
        vp_check_le(init(0) + 0.5 - 0.25, x(0), "start of a restart");
    }
    for (auto& x : at)
        if (!one && x(0) == r(0))
            one = true;
    vp_check(one, "the result is the end of a restart");
    vp_reach("end");
}
struct Shift {
    template <typename GP>
    void operator()(GP& gp)
    {
        V h = gp.kernel_function().h_params();
        gp.kernel_function().set_h_params(h + V::Ones(h.size()));
        gp.recompute(false);
    }
};
typedef kernel::Exp<P> Ker;
typedef model::MultiGP<P, model::GP, Ker, mean::Data<P>, model::multi_gp::ParallelLFOpt<P, Shift>> Multi;
static void history(Multi& g, const std::vector<V>& x, const std::vector<V>& y, int k)
{
    g.compute({x[0], x[1]}, {y[0], y[1]});
    if (k > 0)
        g.add_sample(x[2], y[2]);
    if (k > 1)
        g.optimize_hyperparams();
    if (k > 2)
        g.recompute(true, true);
}
VP_CASE(multi_gp_schedule, 'R', "2 outputs, 3 points, histories compute / add / tune / recompute, observations free, all orders of the outputs")
{
    std::vector<V> x, y;
    int dout = 2;
    for (int i = 0; i < 3; i++) {
        x.push_back(V::Constant(1, 0.5 * i));
        V o(dout);
        for (int k = 0; k < dout; k++)
            o(k) = vp_sym(nm("y", i, k).c_str());
        y.push_back(o);
    }
    int k = vp_choice(4, "history");
    V q = V::Constant(1, 0.25), rm, rs;
    std::vector<double> rl;
    sequential([&]() {
        Multi g(1, dout);
        history(g, x, y, k);
        rm = g.mu(q);
        rs = g.sigma(q);
        for (auto& m : g.gp_models())
            rl.push_back(m.compute_log_lik());
    });
    Multi g(1, dout);
    history(g, x, y, k);
    V mu = g.mu(q), sg = g.sigma(q), m2, s2;
    std::tie(m2, s2) = g.query(q);
    for (int o = 0; o < dout; o++) {
        vp_check_eq(mu(o), rm(o), "mean of the sequential run");
        vp_check_eq(sg(o), rs(o), "variance of the sequential run");
        vp_check_eq(m2(o), rm(o), "mean (query) of the sequential run");
        vp_check_eq(s2(o), rs(o), "variance (query) of the sequential run");
        vp_check_eq(g.gp_models()[o].compute_log_lik(), rl[o], "likelihood of the sequential run");
    }
    vp_reach("end");
}
struct SKer {
    SKer(size_t = 1) {}
    double operator()(const V&, const V&, int i = -1, int j = -2) const { return i == j ? 1. : 0.25; }
    size_t h_params_size() const { return 0; }
    V h_params() const { return V(); }
    void set_h_params(const V&) {}
    double noise() const { return 0.75; }
};
VP_CASE(sparsified_schedule, 'R', "4 points in 1-D, one of them symbolic, 3 kept: which points are left never depends on the schedule when one point is the densest")
{
    std::vector<V> x, y;
    for (int i = 0; i < 4; i++) {
        x.push_back(V::Constant(1, i == 2 ? vp_sym("x", 0, 2) : i));
        y.push_back(tools::make_vector(i));
    }
    typedef model::SparsifiedGP<P, SKer, mean::Data<P>> SGP;
    std::vector<double> ref;
    // a unique densest point: its distance to its neighbour is strictly the smallest
    std::vector<double> d(4);
    for (int i = 0; i < 4; i++) {
        d[i] = 1e9;
        for (int j = 0; j < 4; j++)
            if (i != j)
                d[i] = std::min(d[i], std::abs(x[i](0) - x[j](0)));
    }
    int lo = 0;
    for (int i = 1; i < 4; i++)
        if (d[i] < d[lo])
            lo = i;
    SGP g(1, 1);
    g.compute(x, y);
    vp_check(g.nb_samples() == 3 && g.observations().size() == 3, "number of points");
    std::vector<int> left(4, 0);
    for (auto& o : g.observations())
        left[(int)std::floor(o(0) + 0.5)]++;
    for (int i = 0; i < 4; i++) {
        vp_check(left[i] <= 1, "no point twice");
        if (!left[i])
            vp_check_le(d[i], d[lo], "the point left out is a densest one", 1e-7);
    }
    vp_reach("end");
}
VP_CASE(draws_in_parallel, 'R', "random vectors and designs drawn by 2 concurrent bodies")
{
    std::vector<V> a(2), b(2);
    std::vector<Eigen::MatrixXd> c(2);
    tools::par::loop(0, 2, [&](size_t i) {
        a[i] = tools::random_vector(2);
        b[i] = tools::random_vector(1, false);
        c[i] = tools::random_lhs(1, 2);
    });
    for (int i = 0; i < 2; i++) {
        vp_check(a[i].size() == 2 && b[i].size() == 1 && c[i].rows() == 2 && c[i].cols() == 1, "dimensions");
        for (int k = 0; k < 2; k++) {
            vp_check_le(0, a[i](k), "unit box");
            vp_check_le(a[i](k), 1, "unit box");
        }
    }
    vp_reach("end");
}
