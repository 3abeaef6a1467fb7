// C17: the Bayesian optimisation loop with free plug-ins.
#include "bo_common.hpp"
using namespace boc;
using namespace limbo;
// stops whenever it likes, at the latest at the bound
static std::vector<bool> answers;
static int max_queries = 4;
template <int N>
struct AnyStop {
    template <typename B, typename A>
    bool operator()(const B& bo, const A&) const
    {
        L().add('?', N);
        bool r = L().count('?') >= max_queries || vp_choice(2, "stop now");
        answers.push_back(r);
        return r;
    }
};
static std::vector<Pair> expected; // history to be expected (evaluations since the last reset)
static int iterations, total;
static size_t ev0, acq0, chosen0, evals0, calls0;
static const Model* current_model;
static void on_offer(double v, const V& x, int k)
{
    // what the optimiser maximises is the acquisition of this iteration, of the current model, aggregated by the user's function
    Acq& a = L().acqs.back();
    double e = vp_uf(nm("acq", L().acqs.size() - 1).c_str(), x.data(), x.size()) + C().agg * vp_uf(nm("mu", a.ndata * 10 + a.tunes, 0).c_str(), x.data(), x.size());
    vp_check_same(v, e, "the optimiser is offered the acquisition function");
}
static void on_stat(const std::vector<V>& x, const std::vector<V>& y, int cur, int tot)
{
    int k = L().chosen.size() - chosen0; // iterations whose point has been chosen in this run
    vp_check(cur == k - 1, "iteration number during statistics");
    vp_check(tot == total + k - 1, "total iteration number during statistics");
    vp_check(x.size() == y.size() && x.size() == expected.size() + (L().evals.size() - evals0), "statistics see the new evaluation");
    if (!x.empty() && !L().evals.empty()) {
        same(x.back(), L().evals.back().x, "statistics see the new evaluation");
        same(y.back(), L().evals.back().y, "statistics see the new evaluation");
    }
}
struct Agg {
    using result_type = double;
    double operator()(const V& y) const { return C().agg * y(0); }
};
// one call of optimize and everything it must have done; iters: expected number of iterations (-1: until the stop criterion says so)
template <typename B>
static void run(B& bo, bool reset, int iters)
{
    Log& l = L();
    ev0 = l.ev.size();
    acq0 = l.acqs.size();
    chosen0 = l.chosen.size();
    evals0 = l.evals.size();
    calls0 = l.calls.size();
    int tunes0 = l.tunes;
    if (reset) {
        expected.clear();
        total = 0;
    }
    size_t before = expected.size();
    bool inits = total == 0;
    AcquiOpt::hook = on_offer;
    Stat::hook = on_stat;
    bo.optimize(Fun(), Agg(), reset);
    // initialisation exactly when there was no iteration yet
    int ni = 0, nstop = 0, nstat = 0;
    std::vector<int> tuned;
    for (size_t i = ev0; i < l.ev.size(); i++) {
        ni += l.ev[i].k == 'i';
        nstop += l.ev[i].k == '?';
        nstat += l.ev[i].k == 's';
        if (l.ev[i].k == 'h')
            tuned.push_back(l.ev[i].n);
    }
    vp_check(ni == (inits ? 1 : 0), "initialisation exactly when no iteration has been made");
    int base = inits ? C().init : 0;
    int n = (int)(l.chosen.size() - chosen0); // iterations
    if (iters >= 0)
        vp_check(n == iters, "number of iterations");
    vp_check((int)(l.evals.size() - evals0) == base + n && (int)(l.calls.size() - calls0) == base + n, "one evaluation per iteration");
    for (size_t i = evals0; i < l.evals.size(); i++)
        expected.push_back(l.evals[i]);
    if ((int)(l.calls.size() - calls0) == base + n)
        for (int k = 0; k < n; k++)
            same(l.calls[calls0 + base + k], l.chosen[chosen0 + k], "the evaluated point is the one the acquisition optimiser returned");
    for (int k = 0; k < n; k++) {
        V s = l.starts[chosen0 + k];
        vp_check(s.size() == C().din, "dimension of the start");
        vp_check(l.bnd[chosen0 + k] == C().bounded, "boundedness passed to the acquisition optimiser");
        if (C().bounded)
            for (int i = 0; i < s.size(); i++) {
                vp_check_le(0., s(i), "start in the box", 0);
                vp_check_le(s(i), 1., "start in the box", 0);
            }
    }
    // the acquisition of every iteration sees all data so far, in order, and the hyper-parameters tuned so far
    vp_check((int)(l.acqs.size() - acq0) == n, "one acquisition per iteration");
    int hp = C().hp;
    for (int k = 0; k < n && acq0 + k < l.acqs.size(); k++) {
        Acq& a = l.acqs[acq0 + k];
        vp_check(a.iteration == k, "iteration number given to the acquisition");
        std::vector<Pair> d(expected.begin(), expected.begin() + std::min(expected.size(), before + base + k));
        same_data(a.data, d, "the acquisition sees the model of all data so far");
        // tuned at the period, before the next acquisition
        vp_check(a.tunes >= (hp > 0 ? k / hp : 0), "hyper-parameters tuned before the next acquisition");
    }
    std::vector<int> want;
    for (int k = 0; k < n; k++)
        if (hp > 0 && (k + 1) % hp == 0)
            want.push_back(before + base + k + 1);
    vp_check(tuned == want, "hyper-parameters tuned exactly at the period, on all data");
    vp_check(nstat == n, "statistics once per iteration");
    total += n;
    same_data(history(bo), expected, "history is the sequence of evaluations");
    same_data(bo.model().data, expected, "the model has learned the history");
    vp_check((int)bo.model().dim_in() == C().din && (int)bo.model().dim_out() == C().dout, "dimensions of the model");
    vp_check(bo.current_iteration() == n, "iteration counter");
    vp_check(bo.total_iterations() == total, "total iteration counter");
    iterations = n;
}
typedef BO<Init, boost::fusion::vector<stop::MaxIterations<Params>>> Bmax;
typedef BO<Init, boost::fusion::vector<AnyStop<0>, AnyStop<1>>> Bany;
typedef BO<Init, AnyStop<0>> Bone; // a single criterion instead of a list
static void dims()
{
    C().din = 1 + vp_choice(2, "inputs");
    C().dout = 1 + vp_choice(2, "outputs");
    C().bounded = vp_choice(2, "bounded");
    C().agg = vp_sym("weight");
}
VP_CASE(fresh, 'R', "new optimiser: counters and histories before the first run, over memory with any content")
{
    Dirty<Bmax> bo;
    vp_check(bo->current_iteration() == 0 && bo->total_iterations() == 0, "counters start at 0");
    vp_check(bo->samples().empty() && bo->observations().empty(), "empty history");
    vp_reach("end");
}
VP_CASE(single, 'R', "one run: 0 to 2 initial points, 0 to 3 iterations, tuning period -1 to 3, 1 or 2 inputs and outputs, bounded or not, any objective, acquisition choices and aggregation")
{
    dims();
    C().init = vp_choice(3, "initial points");
    C().iters = vp_choice(4, "iterations");
    C().hp = vp_choice(5, "period") - 1;
    Dirty<Bmax> bo;
    run(*bo, vp_choice(2, "reset"), C().iters);
    vp_reach("end");
}
VP_CASE(long_period, 'R', "one run of 7 iterations, 1 initial point, tuning period 1 to 5")
{
    C().init = 1;
    C().iters = 7;
    C().hp = 1 + vp_choice(5, "period");
    Dirty<Bmax> bo;
    run(*bo, true, 7);
    vp_reach("end");
}
VP_CASE(runs, 'R', "three consecutive runs with and without reset, 0 to 2 iterations each (changing), 0 or 1 initial points, tuning period 1 or 2")
{
    C().init = vp_choice(2, "initial points");
    C().hp = 1 + vp_choice(2, "period");
    Dirty<Bmax> bo;
    for (int r = 0; r < 3; r++) {
        C().iters = vp_choice(3, "iterations");
        run(*bo, vp_choice(2, "reset"), C().iters);
    }
    vp_reach("end");
}
template <typename B>
static void any_stop()
{
    C().init = vp_choice(2, "initial points");
    C().hp = 2;
    Dirty<B> bo;
    for (int r = 0; r < 2; r++) {
        size_t a0 = answers.size();
        run(*bo, r == 1 && vp_choice(2, "reset"), -1);
        // ends exactly when a criterion holds: the last round of answers holds a yes, no earlier one does
        vp_check(answers.size() > a0 && answers.back(), "the loop ends when a criterion holds");
        int yes = 0;
        for (size_t i = a0; i < answers.size(); i++)
            yes += answers[i];
        vp_check(yes == 1, "the loop ends as soon as a criterion holds");
        max_queries = L().count('?') + 4;
    }
    vp_reach("end");
}
VP_CASE(stop_any, 'R', "two runs with two criteria answering anything, at most 4 answers per run") { any_stop<Bany>(); }
VP_CASE(stop_one, 'R', "two runs with a single criterion answering anything, at most 4 answers per run") { any_stop<Bone>(); }
// the same loop with the real Gaussian process: the model's data is the history
struct GPar : boc::Params {
    struct kernel {
        static double noise() { return 0.01; }
        static bool optimize_noise() { return false; }
    };
    struct kernel_exp {
        static double sigma_sq() { return 1; }
        static double l() { return 1; }
    };
    struct acqui_ucb {
        static double alpha() { return 0.5; }
    };
    struct init_randomsampling {
        static int samples() { return C().init; }
    };
};
VP_CASE(real_model, 'R', "real GP, UCB and random sampling, 0 or 1 initial points and 1 or 2 iterations")
{
    typedef model::GP<GPar, kernel::Exp<GPar>, mean::Data<GPar>> G;
    typedef bayes_opt::BOptimizer<GPar, modelfun<G>, acquifun<acqui::UCB<GPar, G>>, acquiopt<AcquiOpt>, initfun<init::RandomSampling<GPar>>, statsfun<boost::fusion::vector<Stat>>, stopcrit<boost::fusion::vector<stop::MaxIterations<GPar>>>> B;
    C().init = vp_choice(2, "initial points");
    C().iters = 1 + vp_choice(2, "iterations");
    B bo;
    bo.optimize(Fun());
    auto h = history(bo);
    same_data(h, L().evals, "history is the sequence of evaluations");
    vp_check((int)h.size() == C().init + C().iters, "one evaluation per iteration");
    auto ms = bo.model().samples();
    auto mo = bo.model().observations();
    vp_check(ms.size() == h.size() && mo.size() == h.size(), "the model has learned the history");
    for (size_t i = 0; i < h.size() && i < ms.size() && i < mo.size(); i++) {
        same(ms[i], h[i].x, "the model has learned the history");
        same(mo[i], h[i].y, "the model has learned the history");
    }
    vp_reach("end");
}
