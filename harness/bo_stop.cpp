// C20: stopping criteria.
#include "bo_common.hpp"
using namespace boc;
using namespace limbo;
static double ratio_;
struct SP : boc::Params {
    struct stop_maxpredictedvalue {
        static double ratio() { return ratio_; }
    };
};
struct Agg {
    using result_type = double;
    double operator()(const V& y) const { return C().agg * y(y.size() - 1); }
};
// optimiser of the criterion: looks at the start and at one more point, returns the better or anything
struct StopOpt {
    static std::vector<V> result;
    static bool free_answer;
    template <typename F>
    V operator()(const F& f, const V& start, bool bounded) const
    {
        vp_check(bounded, "the search for the predicted maximum is over the box");
        vp_check(start.size() == C().din, "dimension of the start");
        for (int i = 0; i < start.size(); i++) {
            vp_check_le(0., start(i), "start in the box", 0);
            vp_check_le(start(i), 1., "start in the box", 0);
        }
        V r(start.size());
        for (int i = 0; i < r.size(); i++)
            r(i) = vp_sym(nm(nm("r", result.size()) + "_", i).c_str(), 0, 1);
        if (probe) {
            probe(opt::fun(f(start, false)), start);
            probe(opt::fun(f(r, false)), r);
        }
        result.push_back(r);
        return r;
    }
    static void (*probe)(double, const V&);
};
std::vector<V> StopOpt::result;
void (*StopOpt::probe)(double, const V&) = nullptr;
template <typename... Cs>
using SB = bayes_opt::BOptimizer<SP, modelfun<Model>, acquifun<Acqui<Params, Model>>, acquiopt<AcquiOpt>, initfun<Init>, statsfun<boost::fusion::vector<Stat>>, stopcrit<boost::fusion::vector<Cs...>>>;
static double mu_at(const V& x, int ndata, int tunes)
{
    return C().agg * vp_uf(nm("mu", ndata * 10 + tunes, C().dout - 1).c_str(), x.data(), x.size());
}
static int pn, pt;
static void probe_fn(double v, const V& x) { vp_check_same(v, mu_at(x, pn, pt), "the criterion maximises the aggregated predicted mean"); }
static double best_of(const std::vector<V>& obs)
{
    Agg a;
    double b = a(obs[0]);
    for (auto& y : obs)
        if (a(y) > b)
            b = a(y);
    return b;
}
template <typename Crit, bool OWN>
static void predicted()
{
    C().din = 1 + vp_choice(2, "inputs");
    C().dout = 1 + vp_choice(2, "outputs");
    C().agg = vp_choice(2, "sign") ? 1. : -1.;
    C().init = vp_choice(3, "initial points");
    C().iters = vp_choice(2, "iterations");
    C().hp = 1;
    ratio_ = vp_sym("ratio");
    SB<stop::MaxIterations<SP>> bo;
    bo.optimize(Fun(), Agg());
    int n = bo.observations().size();
    pn = n;
    pt = bo.model().tunes;
    if (OWN)
        StopOpt::probe = probe_fn;
    size_t c0 = L().chosen.size();
    bool r = Crit()(bo, Agg());
    if (n == 0)
        vp_check(!r, "never stops without observations");
    else {
        V x;
        if (OWN) {
            vp_check(StopOpt::result.size() == 1, "one search for the predicted maximum");
            if (StopOpt::result.size() != 1)
                return;
            x = StopOpt::result[0];
        }
        else {
            vp_check(L().chosen.size() == c0 + 1 && L().bnd.back(), "one search for the predicted maximum, over the box");
            if (L().chosen.size() != c0 + 1)
                return;
            x = L().chosen.back();
        }
        double b = best_of(bo.observations()), m = mu_at(x, pn, pt);
        vp_check(r == (b > ratio_ * m), "stops exactly when the best observation exceeds the ratio of the predicted maximum");
    }
    vp_reach("end");
}
#define PB "0 to 2 initial points, 0 or 1 iterations with tuning, any observations, predictions and ratio, 1 or 2 inputs and outputs, maximisation and minimisation"
VP_CASE(predicted_own, 'R', "predicted-value criterion with its own optimiser; " PB) { predicted<stop::MaxPredictedValue<SP, StopOpt>, true>(); }
VP_CASE(predicted_default, 'R', "predicted-value criterion with the optimiser of the acquisition; " PB) { predicted<stop::MaxPredictedValue<SP>, false>(); }
VP_CASE(iterations, 'R', "iteration criterion, 0 to 6 iterations, two runs, with and without reset")
{
    SB<stop::MaxIterations<SP>> bo;
    C().init = vp_choice(2, "initial points");
    for (int r = 0; r < 2; r++) {
        C().iters = vp_choice(7, "iterations");
        size_t n = L().chosen.size();
        bo.optimize(Fun(), Agg(), r == 0 || vp_choice(2, "reset"));
        vp_check((int)(L().chosen.size() - n) == C().iters, "exactly the configured number of iterations");
        vp_check(stop::MaxIterations<SP>()(bo, Agg()), "holds at the end of the run");
        C().iters++;
        vp_check(!stop::MaxIterations<SP>()(bo, Agg()), "does not hold before the configured number");
    }
    vp_reach("end");
}
struct FakeBO {
    int it;
    int current_iteration() const { return it; }
};
VP_CASE(iterations_direct, 'R', "iteration criterion, 0 to 12 against 0 to 12")
{
    FakeBO b;
    b.it = vp_choice(13, "iteration");
    C().iters = vp_choice(13, "limit");
    vp_check(stop::MaxIterations<SP>()(b, Agg()) == (b.it >= C().iters), "holds from the configured number on");
    vp_reach("end");
}
static std::vector<int> asked;
static bool said[4];
template <int N>
struct Says {
    template <typename B, typename A>
    bool operator()(const B&, const A&) const
    {
        asked.push_back(N);
        return said[N];
    }
};
template <typename... Cs>
static bool chain(int n)
{
    boost::fusion::vector<Cs...> v;
    FakeBO b;
    Agg a;
    stop::ChainCriteria<FakeBO, Agg> c(b, a);
    return boost::fusion::accumulate(v, false, c);
}
VP_CASE(chained, 'R', "lists of 1 to 4 criteria with any answers")
{
    int n = 1 + vp_choice(4, "criteria");
    bool any = false;
    for (int i = 0; i < n; i++)
        any = (said[i] = vp_choice(2, "answer")) || any;
    bool r = n == 1 ? chain<Says<0>>(n) : n == 2 ? chain<Says<0>, Says<1>>(n) : n == 3 ? chain<Says<0>, Says<1>, Says<2>>(n) : chain<Says<0>, Says<1>, Says<2>, Says<3>>(n);
    vp_check(r == any, "stops as soon as any criterion holds");
    vp_reach("end");
}
VP_CASE(in_loop, 'R', "run stopped by the predicted value or after 2 iterations, 0 or 1 initial points, any values")
{
    C().init = vp_choice(2, "initial points");
    C().iters = 2;
    ratio_ = vp_sym("ratio");
    SB<stop::MaxPredictedValue<SP, StopOpt>, stop::MaxIterations<SP>> bo;
    bo.optimize(Fun(), Agg());
    auto obs = bo.observations();
    int n = L().chosen.size();
    // replay of the decisions
    size_t q = 0;
    for (int k = 0; k <= n; k++) {
        bool hold = k >= 2;
        int have = C().init + k;
        if (have > 0) {
            if (q < StopOpt::result.size()) {
                std::vector<V> o(obs.begin(), obs.begin() + have);
                hold = hold || best_of(o) > ratio_ * mu_at(StopOpt::result[q++], have, 0);
            }
            else
                vp_check(hold, "criterion consulted in every iteration");
        }
        vp_check(hold == (k == n), "the run ends exactly when a criterion holds");
    }
    vp_reach("end");
}
