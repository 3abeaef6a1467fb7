// C19: best observation and best sample.
#include "bo_common.hpp"
using namespace boc;
using namespace limbo;
typedef BO<Init, boost::fusion::vector<stop::MaxIterations<Params>>> B;
struct Second {
    using result_type = double;
    double operator()(const V& y) const { return y(y.size() - 1); }
};
struct Minus {
    using result_type = double;
    double operator()(const V& y) const { return -y(0); }
};
struct Quantised { // many ties
    using result_type = double;
    double operator()(const V& y) const { return y(0) > 0 ? 1. : -1.; }
};
// samples carry their index in the first coordinate
template <typename Bo, typename A>
static void best(const Bo& bo, const A& afun)
{
    const auto& obs = bo.observations();
    const V& o = bo.best_observation(afun);
    const V& s = bo.best_sample(afun);
    double v = afun(o);
    for (auto& y : obs)
        vp_check_le(afun(y), v, "no observation is better than the reported best", 0);
    int at = -1;
    for (size_t i = 0; i < bo.samples().size(); i++)
        if (bo.samples()[i](0) == s(0))
            at = i;
    vp_check(at >= 0 && at < (int)obs.size(), "the best sample is a recorded sample");
    if (at >= 0 && at < (int)obs.size()) {
        same(s, bo.samples()[at], "the best sample is a recorded sample");
        same(o, obs[at], "the best observation was made at the best sample");
    }
}
template <typename A>
static void history_case(int n, int dout, bool defaulted)
{
    B bo;
    for (int i = 0; i < n; i++) {
        V y(dout), x(2);
        x << i, 0.5 * i;
        for (int o = 0; o < dout; o++)
            y(o) = vp_sym(nm("y", i, o).c_str());
        bo.add_new_sample(x, y);
    }
    if (defaulted) {
        same(bo.best_observation(), bo.best_observation(FirstElem()), "the default aggregation is the first element");
        same(bo.best_sample(), bo.best_sample(FirstElem()), "the default aggregation is the first element");
    }
    best(bo, A());
    vp_reach("end");
}
#define H "histories of 1 to 4 observations, any finite doubles"
VP_CASE(first, 'F', H ", 1 or 2 outputs, first element") { history_case<FirstElem>(1 + vp_choice(4, "size"), 1 + vp_choice(2, "outputs"), true); }
VP_CASE(last, 'F', H ", 2 outputs, last element") { history_case<Second>(1 + vp_choice(4, "size"), 2, false); }
VP_CASE(minus, 'F', H ", negated first element (minimisation)") { history_case<Minus>(1 + vp_choice(4, "size"), 1, false); }
VP_CASE(ties, 'F', H ", an aggregation with many ties, 2 outputs") { history_case<Quantised>(1 + vp_choice(3, "size"), 2, false); }
// through runs: the best is over everything recorded since the last reset
VP_CASE(runs, 'R', "two runs (1 initial point, 0 to 2 iterations) with and without reset, any objective")
{
    B bo;
    C().init = 1;
    std::vector<Pair> want;
    for (int r = 0; r < 2; r++) {
        C().iters = vp_choice(3, "iterations");
        bool reset = r && vp_choice(2, "reset");
        size_t n = L().evals.size();
        bo.optimize(Fun(), FirstElem(), reset);
        if (reset)
            want.clear();
        for (size_t i = n; i < L().evals.size(); i++)
            want.push_back(L().evals[i]);
        double v = bo.best_observation()(0);
        bool made = false;
        for (auto& p : want) {
            vp_check_le(p.y(0), v, "no observation is better than the reported best", 0);
            made = made || (p.x(0) == bo.best_sample()(0) && p.y(0) == v);
        }
        vp_check(made, "the best observation was made at the best sample");
    }
    vp_reach("end");
}
