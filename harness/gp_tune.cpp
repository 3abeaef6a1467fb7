// C05: hyper-parameter tuning classes, with a user optimiser that explores freely and returns anything.
#include "gp_versions.hpp"
using namespace gpv;
using namespace limbo;
struct Params {
};
typedef VKernel<2> Ker;
typedef VMean<true> Mean;

// what the optimiser sees and does
static std::function<void(const opt::eval_t&, const V&, bool)> on_eval;
static std::function<void()> on_start;
static V init_seen, returned;
static bool bounded_seen = true;
static int calls = 0;
struct Plug {
    template <typename F>
    V operator()(const F& f, const V& init, bool bounded) const
    {
        init_seen = init;
        bounded_seen = bounded;
        calls++;
        int n = init.size();
        for (int k = 0; k < 2; k++) { // evaluations in any order, with or without gradient
            V p = V::Zero(n);
            p(vp_choice(n, "eval at")) = k + 1;
            bool g = vp_choice(2, "with gradient");
            on_eval(f(p, g), p, g);
        }
        returned = V::Zero(n);
        returned(n - 1) = 1 + vp_choice(2, "returned");
        returned(0) += 1;
        return returned;
    }
};
template <typename GP>
static GP build(const V& kp, const V& mp, const std::vector<V>& x, const std::vector<V>& y)
{
    GP f(x[0].size(), y[0].size());
    f.kernel_function().set_h_params(kp);
    f.mean_function().set_h_params(mp);
    f.compute(x, y);
    return f;
}
struct None {
    template <typename GP>
    void operator()(GP&) {}
};
// kind: 0 kernel likelihood, 1 kernel leave-one-out, 2 kernel and mean, 3 mean
template <template <typename, typename> class Opt, int kind>
static void run(int n, int D)
{
    typedef model::GP<Params, Ker, Mean, Opt<Params, Plug>> GP;
    typedef model::GP<Params, Ker, Mean, None> Ref;
    S().prepare(n, 1, true);
    auto y = sym_obs("y", n, D);
    std::vector<V> x;
    for (int i = 0; i < n; i++)
        x.push_back(pt(i, 1));
    GP gp(1, D);
    V kp = V::Zero(2), mp = V::Zero(1);
    if (vp_choice(2, "initial parameters")) {
        kp(0) = 1;
        mp(0) = 1;
    }
    gp.kernel_function().set_h_params(kp);
    gp.mean_function().set_h_params(mp);
    if (vp_choice(2, "data by")) {
        gp.compute(x, y);
        gp.compute_kernel_grad_log_lik(); // caches filled before tuning
    }
    else
        for (int i = 0; i < n; i++)
            gp.add_sample(x[i], y[i]);
    auto split = [&](const V& p, V& k, V& m) {
        k = kind == 3 ? kp : V(p.head(2));
        m = kind == 0 || kind == 1 ? mp : kind == 2 ? V(p.tail(1)) : p;
    };
    on_eval = [&](const opt::eval_t& e, const V& p, bool g) {
        V k, m;
        split(p, k, m);
        Ref f = build<Ref>(k, m, x, y);
        vp_check_eq(opt::fun(e), kind == 1 ? f.compute_log_loo_cv() : f.compute_log_lik(), "objective = score of a model with the candidate parameters");
        vp_check(std::get<1>(e).is_initialized() == g, "gradient given when asked for");
        if (g) {
            V gr = opt::grad(e);
            V r;
            if (kind == 0)
                r = f.compute_kernel_grad_log_lik();
            else if (kind == 1)
                r = f.compute_kernel_grad_log_loo_cv();
            else if (kind == 3)
                r = f.compute_mean_grad_log_lik();
            else {
                r = V(3);
                r << f.compute_kernel_grad_log_lik(), f.compute_mean_grad_log_lik();
            }
            same<M>(gr, r, "objective gradient");
        }
        // the model being tuned is not disturbed by the exploration
        same<M>(gp.kernel_function().h_params(), kp, "kernel parameters during tuning");
        same<M>(gp.mean_function().h_params(), mp, "mean parameters during tuning");
    };
    calls = 0;
    gp.optimize_hyperparams();
    vp_check(calls == 1 && !bounded_seen, "one unbounded optimisation");
    V i0(kind == 2 ? 3 : kind == 3 ? 1 : 2);
    if (kind == 2)
        i0 << kp, mp;
    else
        i0 = kind == 3 ? mp : kp;
    same<M>(init_seen, i0, "search starts at the current parameters");
    V k, m;
    split(returned, k, m);
    same<M>(gp.kernel_function().h_params(), k, "kernel parameters adopted");
    same<M>(gp.mean_function().h_params(), m, "mean parameters adopted");
    Ref f = build<Ref>(k, m, x, y);
    if (kind == 1)
        vp_check_eq(gp.get_log_loo_cv(), f.compute_log_loo_cv(), "stored score after tuning");
    else
        vp_check_eq(gp.get_log_lik(), f.compute_log_lik(), "stored likelihood after tuning");
    same_model(gp, f, n, 1, 6, false);
    vp_reach("end");
}
VP_CASE(tune_kernel_lf, 'R', "2 samples, 2 kernel parameters, any data / covariance per parameter value, two evaluations and any returned parameters; mean depending on the data") { run<model::gp::KernelLFOpt, 0>(2, 1); }
VP_CASE(tune_kernel_loo, 'R', "as above, leave-one-out score") { run<model::gp::KernelLooOpt, 1>(2, 1); }
VP_CASE(tune_kernel_mean_lf, 'R', "as above, kernel and mean together, 2 outputs") { run<model::gp::KernelMeanLFOpt, 2>(2, 2); }
VP_CASE(tune_mean_lf, 'R', "as above, mean only, 2 outputs") { run<model::gp::MeanLFOpt, 3>(2, 2); }
VP_CASE(t_tune_three, 'R', "3 samples, kernel likelihood") { run<model::gp::KernelLFOpt, 0>(3, 1); }
