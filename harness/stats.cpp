// C21: statistics files.
#include "bo_common.hpp"
#include <fstream>
#include <limbo/stat/best_aggregated_observations.hpp>
#include <limbo/stat/best_observations.hpp>
#include <limbo/stat/best_samples.hpp>
#include <limbo/stat/gp.hpp>
#include <limbo/stat/gp_acquisitions.hpp>
#include <limbo/stat/gp_kernel_hparams.hpp>
#include <limbo/stat/gp_likelihood.hpp>
#include <limbo/stat/gp_mean_hparams.hpp>
#include <limbo/stat/gp_prediction_differences.hpp>
#include <limbo/stat/observations.hpp>
#include <limbo/stat/samples.hpp>
#include <sstream>
using namespace boc;
using namespace limbo;
static int bins_ = 2;
static bool enabled_ = true;
struct TP : boc::Params {
    struct bayes_opt_bobase {
        static bool stats_enabled() { return enabled_; }
        static bool bounded() { return true; }
    };
    struct stat_gp {
        static int bins() { return bins_; }
    };
};
static bool plain = false; // constant predictions
// the model of boc with parameters and a likelihood
struct HP {
    char k;
    int n, t;
    V h_params() const
    {
        V r(2);
        for (int i = 0; i < 2; i++) {
            double a[2] = {(double)n, (double)t};
            r(i) = vp_uf((std::string(1, k) + nm("hp", i)).c_str(), a, 2);
        }
        return r;
    }
};
static double lik_of(int n, int t)
{
    double a[2] = {(double)n, (double)t};
    return vp_uf("likelihood", a, 2);
}
struct TModel : boc::Model {
    double lik = 4711; // nothing computed yet
    V mu(const V& x) const { return plain ? V(V::Constant(dout, 0.5)) : boc::Model::mu(x); }
    double sigma(const V& x) const { return plain ? 0.25 : boc::Model::sigma(x); }
    std::tuple<V, double> query(const V& x) const { return std::make_tuple(mu(x), sigma(x)); }
    TModel() {}
    TModel(int i, int o) : boc::Model(i, o) {}
    HP kernel_function() const { return {'k', (int)data.size(), tunes}; }
    HP mean_function() const { return {'m', (int)data.size(), tunes}; }
    double compute_log_lik() { return lik = lik_of(data.size(), tunes); }
    double get_log_lik() const { return lik; }
};
static double acq_of(int it, int n, int t, const V& x) { return vp_uf(nm(nm("acq", it) + "_", n, t).c_str(), x.data(), x.size()); }
template <typename P, typename Mod>
struct TAcqui {
    const Mod& m;
    int it;
    TAcqui(const Mod& mod, int i) : m(mod), it(i) {}
    template <typename A>
    opt::eval_t operator()(const V& x, const A& afun, bool) const { return opt::no_grad(plain ? 1. : acq_of(it, m.data.size(), m.tunes, x) + afun(m.mu(x))); }
};
struct Agg {
    using result_type = double;
    double operator()(const V& y) const { return y(y.size() - 1); }
};
template <typename S>
using TB = bayes_opt::BOptimizer<TP, modelfun<TModel>, acquifun<TAcqui<TP, TModel>>, acquiopt<AcquiOpt>, initfun<Init>, statsfun<S>, stopcrit<boost::fusion::vector<stop::MaxIterations<TP>>>>;
// expected file: header lines are "#", the rest an integer and values
struct Line {
    bool header;
    int it;
    std::vector<double> v;
};
static std::vector<Line> parse(const std::string& f, bool numbered = true)
{
    std::vector<Line> r;
    std::ifstream is(f.c_str());
    std::string l;
    while (std::getline(is, l)) {
        if (!l.empty() && l[0] == '#') {
            r.push_back({true, 0, {}});
            continue;
        }
        std::stringstream s(l);
        Line x{false, 0, {}};
        std::string c;
        bool first = numbered;
        while (s >> c)
            if (first) {
                x.it = std::atoi(c.c_str());
                first = false;
            }
            else
                x.v.push_back(std::strtod(c.c_str(), nullptr));
        r.push_back(x);
    }
    return r;
}
static void near(double read, double d, const char* l)
{
    // six significant digits
    double e = 5.001e-6 * std::abs(d);
    vp_check_le(read, d + e, l);
    vp_check_le(d - e, read, l);
}
static void compare(const std::vector<Line>& a, const std::vector<Line>& e)
{
    vp_check(a.size() == e.size(), "number of records");
    for (size_t i = 0; i < a.size() && i < e.size(); i++) {
        vp_check(a[i].header == e[i].header, "header where a run starts");
        vp_check(a[i].it == e[i].it, "iteration of the record");
        vp_check(a[i].v.size() == e[i].v.size(), "number of values of the record");
        for (size_t j = 0; j < a[i].v.size() && j < e[i].v.size(); j++)
            near(a[i].v[j], e[i].v[j], "recorded value");
    }
}
static std::vector<double> vec(const V& v) { return std::vector<double>(v.data(), v.data() + v.size()); }
// ground truth, collected from the objective calls and the acquisition optimiser
struct Truth {
    std::vector<Pair> h; // since the last reset
    int total, current, ndata, tunes; // at the time of the record; ndata: what the model knows, i.e. without the new sample
    bool first; // first iteration of a fresh history
};
static std::vector<Truth> truths;
static std::vector<Pair> hist;
static int total_;
static void truth_of_run(bool reset, size_t evals0, int inits, int iters, int& tunes)
{
    if (reset) {
        hist.clear();
        total_ = 0;
    }
    size_t k = evals0;
    for (int i = 0; i < inits; i++)
        hist.push_back(L().evals[k++]);
    for (int i = 0; i < iters; i++) {
        int nd = hist.size();
        hist.push_back(L().evals[k++]);
        truths.push_back({hist, total_, i, nd, tunes, total_ == 0});
        total_++;
        if (C().hp > 0 && (i + 1) % C().hp == 0)
            tunes++;
    }
}
static V mu_of(const V& x, int nd, int t)
{
    V r(C().dout);
    for (int o = 0; o < C().dout; o++)
        r(o) = vp_uf(nm("mu", nd * 10 + t, o).c_str(), x.data(), x.size());
    return r;
}
static size_t best_of(const Truth& t)
{
    size_t b = 0;
    Agg a;
    for (size_t i = 1; i < t.h.size(); i++)
        if (a(t.h[i].y) > a(t.h[b].y))
            b = i;
    return b;
}
enum Kind { SAMPLES,
    OBS,
    AGG,
    BESTAGG,
    BESTOBS,
    BESTSAMPLES,
    ACQ,
    KHP,
    MHP,
    PRED,
    LIK };
static std::vector<double> record(Kind k, const Truth& t, const Pair& p)
{
    Agg a;
    V m;
    switch (k) {
    case SAMPLES:
        return vec(p.x);
    case OBS:
        return vec(p.y);
    case AGG:
        return {a(p.y)};
    case BESTAGG:
        return {a(t.h[best_of(t)].y)};
    case BESTOBS:
        return vec(t.h[best_of(t)].y);
    case BESTSAMPLES:
        return vec(t.h[best_of(t)].x);
    case ACQ:
        m = mu_of(p.x, t.ndata, t.tunes);
        return {a(m), vp_uf(nm("s2_", t.ndata * 10 + t.tunes).c_str(), p.x.data(), p.x.size(), 0), acq_of(t.current, t.ndata, t.tunes, p.x) + a(m)};
    case KHP:
        return vec(HP{'k', t.ndata, t.tunes}.h_params());
    case MHP:
        return vec(HP{'m', t.ndata, t.tunes}.h_params());
    case PRED: {
        double pr = a(mu_of(p.x, t.ndata, t.tunes)), ob = a(p.y);
        return {pr, ob, std::abs(pr - ob)};
    }
    default:
        return {lik_of(t.ndata, t.tunes)};
    }
}
// two runs with and without reset
template <typename S>
static void runs(Kind k, const char* file, bool simple)
{
    C().din = 1 + (simple ? vp_choice(2, "inputs") : 0);
    C().dout = 2;
    C().init = vp_choice(3, "initial points");
    C().hp = 2;
    TB<boost::fusion::vector<S>> bo;
    int tunes = 0;
    for (int r = 0; r < 2; r++) {
        C().iters = r == 0 ? vp_choice(3, "iterations") : 1;
        bool reset = r == 0 || vp_choice(2, "reset");
        size_t e0 = L().evals.size();
        bool inits = reset || total_ == 0;
        size_t had = reset ? 0 : hist.size();
        bo.optimize(Fun(), Agg(), reset);
        vp_check(L().evals.size() == e0 + (inits ? C().init : 0) + C().iters, "evaluations");
        // a model without data is built anew
        if ((inits ? C().init : 0) + had == 0)
            tunes = 0;
        truth_of_run(reset, e0, inits ? C().init : 0, C().iters, tunes);
    }
    std::vector<Line> e;
    for (auto& t : truths) {
        if (t.first) {
            e.push_back({true, 0, {}});
            if (k == SAMPLES || k == OBS || k == AGG)
                for (size_t i = 0; i + 1 < t.h.size(); i++)
                    e.push_back({false, -1, record(k, t, t.h[i])});
        }
        e.push_back({false, t.total, record(k, t, t.h.back())});
    }
    compare(parse(bo.res_dir() + "/" + file), e);
    vp_reach("end");
}
#define B "two runs with and without reset: 0 to 2 initial points, 0 to 2 then 1 iterations, tuning every 2, any objective, choices, predictions and parameters"
VP_CASE(samples, 'R', B) { runs<stat::Samples<TP>>(SAMPLES, "samples.dat", true); }
VP_CASE(observations, 'R', B) { runs<stat::Observations<TP>>(OBS, "observations.dat", true); }
VP_CASE(aggregated, 'R', B) { runs<stat::AggregatedObservations<TP>>(AGG, "aggregated_observations.dat", true); }
VP_CASE(best_aggregated, 'R', B) { runs<stat::BestAggregatedObservations<TP>>(BESTAGG, "best_aggregated_observations.dat", false); }
VP_CASE(best_observations, 'R', B) { runs<stat::BestObservations<TP>>(BESTOBS, "best_observations.dat", false); }
VP_CASE(best_samples, 'R', B) { runs<stat::BestSamples<TP>>(BESTSAMPLES, "best_samples.dat", false); }
VP_CASE(acquisitions, 'R', B) { runs<stat::GPAcquisitions<TP>>(ACQ, "gp_acquisitions.dat", false); }
VP_CASE(kernel_hparams, 'R', B) { runs<stat::GPKernelHParams<TP>>(KHP, "gp_kernel_hparams.dat", false); }
VP_CASE(mean_hparams, 'R', B) { runs<stat::GPMeanHParams<TP>>(MHP, "gp_mean_hparams.dat", false); }
VP_CASE(differences, 'R', B) { runs<stat::GPPredictionDifferences<TP>>(PRED, "gp_prediction_differences.dat", false); }
VP_CASE(likelihood, 'R', B) { runs<stat::GPLikelihood<TP>>(LIK, "gp_likelihood.dat", false); }
VP_CASE(model_map, 'R', "map of the model: 1-D bins 1 to 20, 2-D bins 1 to 3; 1 initial point, 2 or 1 iterations; values for bins 1 and 2, positions for all")
{
    C().din = 1 + vp_choice(2, "inputs");
    C().dout = 2;
    bins_ = 1 + vp_choice(C().din == 1 ? 20 : 3, "bins");
    plain = bins_ > 2; // the inner points of the other grids are not binary fractions: positions only
    C().init = 1;
    C().iters = C().din == 1 ? 2 : 1;
    C().hp = 1;
    TB<boost::fusion::vector<stat::GP<TP>>> bo;
    bo.optimize(Fun(), Agg());
    int tunes = 0;
    truth_of_run(true, 0, C().init, C().iters, tunes);
    int per = C().din == 1 ? bins_ + 1 : (bins_ + 1) * (bins_ + 1);
    for (auto& t : truths) {
        auto a = parse(bo.res_dir() + "/gp_" + std::to_string(t.total) + ".dat", false);
        vp_check((int)a.size() == per + 1, "one record per grid point from 0 to 1");
        vp_check(!a.empty() && a[0].header, "header");
        std::vector<int> seen(per, 0);
        for (size_t i = 1; i < a.size(); i++) {
            vp_check((int)a[i].v.size() == C().din + C().dout + 2, "number of values of the record");
            if ((int)a[i].v.size() != C().din + C().dout + 2)
                return;
            int k = 0;
            V x(C().din);
            for (int j = 0; j < C().din; j++) {
                int l = (int)(a[i].v[j] * bins_ + 0.5);
                vp_check(std::abs(a[i].v[j] - l / (double)bins_) < 1e-5 && l >= 0 && l <= bins_, "grid point");
                x(j) = l / (double)bins_;
                k = k * (bins_ + 1) + l;
            }
            if (k >= 0 && k < per)
                seen[k]++;
            if (plain)
                continue;
            V m = mu_of(x, t.ndata, t.tunes);
            for (int o = 0; o < C().dout; o++)
                near(a[i].v[C().din + o], m(o), "predicted mean");
            near(a[i].v[C().din + C().dout], vp_uf(nm("s2_", t.ndata * 10 + t.tunes).c_str(), x.data(), x.size(), 0), "predicted variance");
            near(a[i].v[C().din + C().dout + 1], acq_of(t.current, t.ndata, t.tunes, x) + Agg()(m), "acquisition value");
        }
        for (int k : seen)
            vp_check(k == 1, "every grid point once");
    }
    vp_reach("end");
}
VP_CASE(together, 'R', "several statistics at once, 1 initial point and 1 iteration, and nothing at all when statistics are disabled")
{
    enabled_ = vp_choice(2, "enabled");
    C().init = 1;
    C().iters = 1;
    TB<boost::fusion::vector<stat::Samples<TP>, stat::BestObservations<TP>, stat::Observations<TP>, stat::GPAcquisitions<TP>, stat::GP<TP>, stat::ConsoleSummary<TP>>> bo;
    bo.optimize(Fun(), Agg());
    if (enabled_) {
        Pair p = L().evals[0], q = L().evals[1];
        compare(parse(bo.res_dir() + "/samples.dat"), {{true, 0, {}}, {false, -1, vec(p.x)}, {false, 0, vec(q.x)}});
        compare(parse(bo.res_dir() + "/observations.dat"), {{true, 0, {}}, {false, -1, vec(p.y)}, {false, 0, vec(q.y)}});
        vp_check(parse(bo.res_dir() + "/gp_0.dat", false).size() == 4, "map of the model");
    }
    else
        vp_check(bo.res_dir().empty() && !std::ifstream("samples.dat").good(), "no statistics when disabled");
    vp_reach("end");
}
