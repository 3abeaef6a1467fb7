// C26: constrained Bayesian optimisation.
#include "bo_common.hpp"
#include <limbo/experimental/acqui/eci.hpp>
#include <limbo/experimental/bayes_opt/cboptimizer.hpp>
#include <map>
using namespace boc;
using namespace limbo;
static int nc_ = 1;
static double jitter_;
struct CP : boc::Params {
    struct bayes_opt_cboptimizer {
        static int hp_period() { return C().hp; }
        static bool bounded() { return C().bounded; }
    };
    struct acqui_eci {
        static double jitter() { return jitter_; }
    };
};
// the model of the constraints
struct CModel {
    int din = -1, dout = -1, tunes = 0;
    std::vector<Pair> data;
    CModel() {}
    CModel(int i, int o) : din(i), dout(o) {}
    void compute(const std::vector<V>& x, const std::vector<V>& y)
    {
        vp_check(x.size() == y.size(), "samples and constraints aligned");
        data.clear();
        for (size_t i = 0; i < x.size() && i < y.size(); i++)
            data.push_back({x[i], y[i]});
    }
    void add_sample(const V& x, const V& y) { data.push_back({x, y}); }
    void optimize_hyperparams() { tunes++; }
};
struct CAcq {
    std::vector<Pair> obj, con;
    int it, tunes, ctunes;
};
static std::vector<CAcq> cacqs;
struct CAcqui {
    CAcqui(const Model& m, const CModel& c, int it) { cacqs.push_back({m.data, c.data, it, m.tunes, c.tunes}); }
    template <typename A>
    opt::eval_t operator()(const V& x, const A& afun, bool) { return opt::no_grad(vp_uf(nm("acq", cacqs.size()).c_str(), x.data(), x.size())); }
};
// objectives first, constraints after them
static bool flags_ = false; // constraints in {0,1}
static bool positive_ = false;
struct CFun {
    static size_t dim_in() { return C().din; }
    static size_t dim_out() { return C().dout; }
    static size_t nb_constraints() { return nc_; }
    V operator()(const V& x) const
    {
        int k = L().calls.size();
        L().calls.push_back(x);
        V y(C().dout + nc_);
        for (int o = 0; o < C().dout; o++)
            y(o) = vp_sym(nm("y", k, o).c_str());
        for (int o = 0; o < nc_; o++)
            y(C().dout + o) = flags_ ? vp_choice(2, "feasible") : positive_ ? vp_sym(nm("c", k, o).c_str(), 0) : vp_sym(nm("c", k, o).c_str());
        L().evals.push_back({x, y});
        return y;
    }
};
static int ask_best = 0;
struct BestStat {
    template <typename BO, typename A>
    void operator()(const BO& bo, const A& afun)
    {
        L().add('s', bo.samples().size());
        if (ask_best & 1)
            bo.best_observation(afun);
        if (ask_best & 2)
            bo.best_sample(afun);
    }
};
using CB = experimental::bayes_opt::CBOptimizer<CP, modelfun<Model>, experimental::constraint_modelfun<CModel>, acquifun<CAcqui>, acquiopt<AcquiOpt>, initfun<Init>, stopcrit<boost::fusion::vector<stop::MaxIterations<CP>>>>;
using CBs = experimental::bayes_opt::CBOptimizer<CP, modelfun<Model>, experimental::constraint_modelfun<CModel>, acquifun<CAcqui>, acquiopt<AcquiOpt>, initfun<Init>, stopcrit<boost::fusion::vector<stop::MaxIterations<CP>>>, statsfun<boost::fusion::vector<BestStat>>>;
static void check_models(const std::vector<Pair>& obj, const std::vector<Pair>& con, const std::vector<Pair>& h)
{
    vp_check(obj.size() == h.size(), "the objective model has every evaluation");
    if (nc_)
        vp_check(con.size() == h.size(), "the constraint model has every evaluation");
    for (size_t i = 0; i < h.size(); i++) {
        if (i < obj.size()) {
            same(obj[i].x, h[i].x, "samples of the objective model");
            same(obj[i].y, h[i].y.head(C().dout), "objectives of the evaluation");
        }
        if (nc_ && i < con.size()) {
            same(con[i].x, h[i].x, "samples of the constraint model");
            same(con[i].y, h[i].y.tail(nc_), "constraints of the evaluation");
        }
    }
}
struct Peek : CBs {
    const CModel& cm() const { return this->_constraint_model; }
};
VP_CASE(taught, 'R', "0..2 initial points, 0..3 iterations, 0..2 constraints, 1 or 2 objectives; a statistic that asks for the best point or not; tuning period -1..2: what both models know at every iteration and at the end")
{
    C().init = vp_choice(3, "init");
    C().iters = vp_choice(4, "iterations");
    nc_ = vp_choice(3, "constraints");
    C().dout = 1 + vp_choice(2, "objectives");
    C().hp = vp_choice(4, "hp period") - 1;
    ask_best = vp_choice(2, "ask for the best") * 3;
    flags_ = true;
    if (ask_best) // branches on the values
        vp_assume(C().init + C().iters <= 3 && nc_ <= 1 && C().dout == 1 && C().hp <= 0);
    else {
        flags_ = false;
        vp_assume(!(C().hp > 0 && C().dout > 1));
    }
    Peek bo;
    bo.optimize(CFun());
    auto& e = L().evals;
    int n = C().init + C().iters;
    vp_check((int)e.size() == n, "one evaluation per initial point and iteration");
    same_data(history(bo), e, "the history is what was evaluated");
    vp_check((int)cacqs.size() == C().iters && (int)L().chosen.size() == C().iters, "one acquisition per iteration");
    for (int k = 0; k < (int)cacqs.size(); k++) {
        std::vector<Pair> h(e.begin(), e.begin() + C().init + k);
        check_models(cacqs[k].obj, cacqs[k].con, h);
        vp_check(cacqs[k].it == k, "iteration of the acquisition");
        int t = C().hp > 0 ? k / C().hp : 0;
        vp_check(cacqs[k].tunes == t && (!nc_ || cacqs[k].ctunes == t), "tuned at the period");
        same(e[C().init + k].x, L().chosen[k], "the chosen point is evaluated");
        vp_check(L().bnd[k] == C().bounded && L().starts[k].size() == C().din, "search of the acquisition");
    }
    check_models(bo.model().data, bo.cm().data, e);
    vp_check(bo.current_iteration() == C().iters && bo.total_iterations() == C().iters, "counters");
    vp_check(L().count('s') == C().iters, "statistics updated every iteration");
    vp_reach("end");
}
VP_CASE(second_run, 'R', "a second run, continued or after a reset, 1 constraint, 0..1 initial points, 1..2 iterations each")
{
    C().init = vp_choice(2, "init");
    C().iters = 1 + vp_choice(2, "iterations");
    nc_ = 1;
    Peek bo;
    bo.optimize(CFun());
    bool reset = vp_choice(2, "reset");
    size_t n1 = L().evals.size();
    bo.optimize(CFun(), FirstElem(), reset);
    std::vector<Pair> h = L().evals;
    vp_check(h.size() == n1 + C().iters + (reset ? C().init : 0), "number of evaluations");
    if (reset)
        h.erase(h.begin(), h.begin() + n1);
    same_data(history(bo), h, "history");
    check_models(bo.model().data, bo.cm().data, h);
    vp_reach("end");
}
struct Last {
    using result_type = double;
    double operator()(const V& y) const { return 2 * y(y.size() - 1) + (y.size() > 1 ? y(0) : 0.); }
};
template <typename B, typename A>
static void check_best(B& bo, const A& afun)
{
    auto& e = L().evals;
    auto value = [&](int i) { return afun(V(e[i].y.head(C().dout))); };
    std::vector<bool> ok;
    bool any = false;
    for (auto& p : e) {
        bool f = true;
        for (int k = 0; k < nc_; k++)
            f = f && p.y(C().dout + k) > 0;
        ok.push_back(f);
        any = any || f;
    }
    for (int order = 0; order < 2; order++) {
        V o, x;
        if (order)
            x = bo.best_sample(afun);
        o = bo.best_observation(afun);
        if (!order)
            x = bo.best_sample(afun);
        vp_check(o.size() == C().dout, "the objectives of the best evaluation");
        if (o.size() != C().dout)
            return;
        // the sample is a label: it tells which evaluation it was
        int at = -1;
        for (size_t i = 0; i < e.size(); i++)
            if (x(0) == 0.25 + 0.125 * i)
                at = i;
        vp_check(at >= 0, "an evaluated sample");
        if (at < 0)
            return;
        vp_check(!any || ok[at], "the best is feasible when a feasible point exists");
        same(o, e[at].y.head(C().dout), "the observation belongs to the sample");
        for (size_t i = 0; i < e.size(); i++)
            if (!any || ok[i])
                vp_check_le(value(i), value(at), "no better feasible point", 0);
    }
}
VP_CASE(best_feasible, 'R', "1..3 evaluations, 0..2 constraints with any value >= 0, 1 objective or an aggregation of 2")
{
    C().init = 1 + vp_choice(3, "evaluations");
    nc_ = vp_choice(3, "constraints");
    C().dout = 1 + vp_choice(2, "objectives");
    vp_assume(C().init + nc_ + C().dout <= 5);
    C().iters = 0;
    positive_ = true;
    CBs bo;
    if (C().dout == 1) {
        bo.optimize(CFun());
        check_best(bo, FirstElem());
    }
    else {
        bo.optimize(CFun(), Last());
        check_best(bo, Last());
    }
    vp_reach("end");
}
// six named arguments, any of them last
template <typename B>
static void six()
{
    C().init = 1;
    C().iters = 1;
    nc_ = 1;
    B bo;
    bo.optimize(CFun());
    vp_check(L().evals.size() == 2 && L().chosen.size() == 1 && cacqs.size() == 1, "the given parts are used");
}
VP_CASE(named_arguments, 'R', "seven named arguments in seven orders: none is ignored")
{
    using namespace experimental;
    typedef modelfun<Model> m;
    typedef constraint_modelfun<CModel> c;
    typedef acquifun<CAcqui> a;
    typedef acquiopt<AcquiOpt> o;
    typedef initfun<Init> i;
    typedef stopcrit<boost::fusion::vector<stop::MaxIterations<CP>>> s;
    typedef statsfun<boost::fusion::vector<BestStat>> t;
    switch (vp_choice(7, "order")) {
    case 0: six<experimental::bayes_opt::CBOptimizer<CP, m, c, a, o, i, s, t>>(); break;
    case 1: six<experimental::bayes_opt::CBOptimizer<CP, c, a, o, i, s, t, m>>(); break;
    case 2: six<experimental::bayes_opt::CBOptimizer<CP, a, o, i, s, t, m, c>>(); break;
    case 3: six<experimental::bayes_opt::CBOptimizer<CP, o, i, s, t, m, c, a>>(); break;
    case 4: six<experimental::bayes_opt::CBOptimizer<CP, i, s, t, m, c, a, o>>(); break;
    case 5: six<experimental::bayes_opt::CBOptimizer<CP, s, t, m, c, a, o, i>>(); break;
    case 6: six<experimental::bayes_opt::CBOptimizer<CP, t, m, c, a, o, i, s>>(); break;
    }
    vp_check(L().count('s') == 1 && L().count('i') == 1, "statistics and initialisation");
    vp_reach("end");
}
// ---------------- acquisition ----------------
struct Pred {
    int din, dout, version = 0;
    std::string n;
    std::vector<V> xs;
    bool zero_var = false;
    mutable std::map<int, V> m;
    mutable std::map<int, double> s;
    int key(const V& v) const { return (int)v(0) + 1000 * version; }
    V mu(const V& v) const
    {
        int k = key(v);
        if (!m.count(k)) {
            V r(dout);
            for (int i = 0; i < dout; i++)
                r(i) = vp_sym(nm(n + "mu", k, i).c_str());
            m[k] = r;
        }
        return m[k];
    }
    double sigma(const V& v) const
    {
        int k = key(v);
        if (!s.count(k))
            s[k] = zero_var ? 0. : vp_sym(nm(n + "var", k).c_str(), 0.);
        return s[k];
    }
    std::tuple<V, double> query(const V& v) const { return std::make_tuple(mu(v), sigma(v)); }
    size_t dim_in() const { return din; }
    size_t dim_out() const { return dout; }
    const std::vector<V>& samples() const { return xs; }
    int nb_samples() const { return xs.size(); }
};
static double Phi(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.)); }
static double phi(double z) { return std::exp(-0.5 * z * z) / std::sqrt(2 * M_PI); }
VP_CASE(constrained_improvement, 'R', "0..2 samples then one more, any predictions of the objective and of one constraint, any jitter >= 0")
{
    jitter_ = vp_sym("xi", 0);
    int n = vp_choice(3, "samples");
    Pred m{2, 1}, c{2, 1};
    m.n = "o";
    c.n = "c";
    for (int i = 0; i < n; i++)
        m.xs.push_back(V::Constant(2, i));
    c.xs = m.xs;
    m.zero_var = vp_choice(2, "no deviation");
    c.zero_var = vp_choice(2, "no deviation of the constraint");
    experimental::acqui::ECI<CP, Pred, Pred> a(m, c, 3);
    vp_check(a.dim_in() == 2 && a.dim_out() == 1, "dimensions");
    for (int step = 0; step < 2; step++) {
        V x = V::Constant(2, 100 + step);
        double r = opt::fun(a(x, FirstElem(), false));
        if (m.zero_var || m.xs.empty())
            vp_check_eq(r, 0., "zero without deviation or without data");
        else {
            double s = std::sqrt(m.sigma(x)), cs = std::sqrt(c.sigma(x));
            if (s < 1e-9 || (!c.zero_var && cs < 1e-9))
                return;
            double best = m.mu(m.xs[0])(0);
            for (auto& v : m.xs) {
                double b = m.mu(v)(0);
                if (best < b)
                    best = b;
            }
            double X = m.mu(x)(0) - best - jitter_, Z = X / s;
            double pf = c.zero_var ? 1. : Phi((c.mu(x)(0) - 1) / cs);
            vp_check_eq(r, pf * (X * Phi(Z) + s * phi(Z)), "improvement times the probability of a constraint of at least 1");
        }
        m.version++;
        m.xs.push_back(V::Constant(2, 50));
        c.version++;
        c.xs = m.xs;
    }
    vp_reach("end");
}
