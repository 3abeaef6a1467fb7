// C18: invalid evaluations (NaN, infinities, the documented evaluation error) never get into the history or the model.
#include "bo_common.hpp"
using namespace boc;
using namespace limbo;
static bool is_finite(double d) { return d - d == 0; }
static bool valid(const V& y)
{
    bool r = true;
    for (int i = 0; i < y.size(); i++)
        r = r && is_finite(y(i));
    return r;
}
typedef BO<Init, boost::fusion::vector<stop::MaxIterations<Params>>> B;
static bool attempt(B& bo, const V& x, const V& y, bool through_function)
{
    struct F {
        const V& y;
        V operator()(const V&) const { return y; }
    };
    try {
        if (through_function)
            bo.eval_and_add(F{y}, x);
        else
            bo.add_new_sample(x, y);
    }
    catch (const EvaluationError&) {
        return false;
    }
    catch (...) {
        vp_check(false, "rejected by the documented evaluation error");
        return false;
    }
    return true;
}
static V any_vec(const std::string& p, int n)
{
    V y(n);
    for (int i = 0; i < n; i++)
        y(i) = vp_any(nm(p, i).c_str());
    return y;
}
VP_CASE(add, 'F', "up to 2 additions of any doubles (NaN, infinities, zeros, subnormals), 1 to 3 outputs, directly or through an evaluation")
{
    B bo;
    std::vector<Pair> want;
    int d = 1 + vp_choice(3, "outputs"), n = d == 3 ? 1 : 2;
    bool f = vp_choice(2, "through the function");
    for (int k = 0; k < n; k++) {
        V x = V::Constant(1, 0.125 * (k + 1)), y = any_vec(nm("y", k) + "_", d);
        bool ok = attempt(bo, x, y, f);
        vp_check(ok == valid(y), "rejected exactly when a component is NaN or infinite");
        if (ok)
            want.push_back({x, y});
        same_data(history(bo), want, "history holds the accepted pairs only, unchanged");
    }
    vp_reach("end");
}
// whole runs: evaluation `bad` is invalid (any invalid value in one component, or the error itself)
static int bad, kind;
static void fault(int k)
{
    if (k == bad && kind == 0)
        throw EvaluationError();
}
static double value(int k, int o)
{
    if (k == bad && o == (kind - 1) % C().dout) {
        double v = vp_any("invalid");
        vp_assume(!is_finite(v));
        return v;
    }
    return vp_sym(nm("y", k, o).c_str());
}
static void runs(int dout)
{
    C().dout = dout;
    C().init = vp_choice(3, "initial points");
    C().iters = 2;
    C().hp = vp_choice(2, "tuning") ? 1 : -1;
    bad = vp_choice(C().init + 2, "invalid evaluation");
    kind = vp_choice(1 + dout, "kind");
    Fun::fault = fault;
    Fun::value = value;
    B bo;
    bool thrown = false;
    try {
        bo.optimize(Fun());
    }
    catch (const EvaluationError&) {
        thrown = true;
    }
    catch (...) {
        vp_check(false, "rejected by the documented evaluation error");
    }
    vp_check(thrown, "the invalid evaluation is rejected");
    vp_check((int)L().calls.size() == bad + 1, "no evaluation after the rejected one");
    std::vector<Pair> want(L().evals.begin(), L().evals.begin() + std::min((int)L().evals.size(), bad));
    same_data(history(bo), want, "history holds the evaluations before the invalid one");
    if (bad >= C().init) {
        same_data(bo.model().data, want, "the model is not updated");
        vp_check(bo.total_iterations() == bad - C().init, "only completed iterations are counted");
    }
    vp_check(L().count('s') == std::max(0, bad - C().init), "no statistics for the rejected evaluation");
    // continuation
    int done = bo.total_iterations();
    size_t before = L().evals.size();
    bool inv = kind != 0;
    bad = -1;
    bo.optimize(Fun(), FirstElem(), false);
    for (size_t i = before; i < L().evals.size(); i++)
        want.push_back(L().evals[i]);
    (void)inv;
    same_data(history(bo), want, "the continued run keeps the history and adds to it");
    same_data(bo.model().data, want, "the model of the continued run knows the whole history");
    vp_check((int)(L().evals.size() - before) == 2 + (done == 0 ? C().init : 0), "the continued run does its iterations");
    vp_check(bo.total_iterations() == done + 2, "total iterations");
    vp_reach("end");
}
VP_CASE(runs_1, 'F', "1 output: 0 to 2 initial points, 2 iterations, the evaluation error, NaN or an infinity at any evaluation, then a continued run") { runs(1); }
VP_CASE(runs_2, 'F', "2 outputs: the same, in either component") { runs(2); }
// predicate over all doubles
VP_CASE(predicate, 'F', "is_nan_or_inf over all doubles and vectors of 1 to 3 doubles")
{
    int d = 1 + vp_choice(3, "size");
    V y = any_vec("v", d);
    vp_check(tools::is_nan_or_inf(y) == !valid(y), "vector predicate");
    vp_check(tools::is_nan_or_inf(y(0)) == !is_finite(y(0)), "scalar predicate");
    vp_reach("end");
}
