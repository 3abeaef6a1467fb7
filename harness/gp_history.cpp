// C02: whatever the history of fits, additions, refits and parameter changes, the model equals a
// model freshly fitted on the same data with the same parameters.
#include "gp_versions.hpp"
using namespace gpv;
using namespace limbo;
struct Params {
};
typedef VKernel<1> Ker;
typedef VMean<true> Mean;
// hyper-parameter "tuning" that sets the next version, as the library's own classes do
struct Tune {
    template <typename GP>
    void operator()(GP& gp)
    {
        gp.kernel_function().set_h_params(gp.kernel_function().h_params() + V::Ones(1));
        gp.recompute(false);
    }
};
typedef model::GP<Params, Ker, Mean, Tune> GP;

static GP fresh(const GP& gp, const std::vector<V>& s, const std::vector<V>& o)
{
    GP f(s[0].size(), o[0].size());
    f.kernel_function().set_h_params(gp.kernel_function().h_params());
    f.mean_function().set_h_params(gp.mean_function().h_params());
    f.compute(s, o);
    return f;
}
static void warm(GP& gp)
{
    gp.compute_log_lik();
    gp.compute_log_loo_cv();
    gp.compute_kernel_grad_log_lik();
    vp_check(gp.inv_kernel_computed(), "inverse available after use");
}
static void run(int nmax, int D, int dim, int steps, bool variance)
{
    S().prepare(nmax, 1, true);
    std::vector<V> allx, ally = sym_obs("y", nmax, D), x, y;
    for (int i = 0; i < nmax; i++)
        allx.push_back(pt(i, dim));
    GP gp(dim, D);
    int c = vp_choice(3, "start");
    if (c) { // batch fit on one or two samples, or empty
        for (int i = 0; i < c; i++) {
            x.push_back(allx[i]);
            y.push_back(ally[i]);
        }
        gp.compute(x, y);
    }
    else {
        x.push_back(allx[0]);
        y.push_back(ally[0]);
        gp.add_sample(x[0], y[0]);
    }
    int next = x.size();
    for (int s = 0; s < steps; s++) {
        int op = vp_choice(7, "operation");
        if (op == 0)
            break;
        if (op == 1) {
            if (next == nmax)
                vp_assume(false);
            x.push_back(allx[next]);
            y.push_back(ally[next++]);
            gp.add_sample(x.back(), y.back());
        }
        else if (op == 2)
            gp.optimize_hyperparams();
        else if (op == 3) {
            gp.mean_function().set_h_params(gp.mean_function().h_params() + V::Ones(1));
            gp.recompute(true, false);
        }
        else if (op == 4)
            warm(gp);
        else if (op == 5) { // refit on other data: the newest sample goes, every observation changes
            if (x.size() > 1) {
                x.pop_back();
                y.pop_back();
                next--;
            }
            for (auto& v : y)
                v *= 2;
            gp.compute(x, y);
        }
        else {
            gp.mean_function().set_h_params(gp.mean_function().h_params() + V::Ones(1));
            gp.kernel_function().set_h_params(gp.kernel_function().h_params() + V::Ones(1));
            gp.recompute();
        }
    }
    GP f = fresh(gp, x, y);
    same_model(gp, f, x.size(), dim, 6, variance);
    vp_reach("end");
}
VP_CASE(history, 'R', "start empty / batch of 1 / batch of 2, then up to `steps` (default 3) operations among add, kernel retune, mean retune, cache warm-up, refit on other data, full recompute; at most 3 samples, 1 output, mean depending on the data") { run(3, 1, 1, vp_param("steps", 3), false); }
VP_CASE(history_multi, 'R', "as history with 2 outputs, 2 inputs, up to 2 operations") { run(3, 2, 2, vp_param("steps", 2), true); }
VP_CASE(incremental_big, 'R', "n samples (default 9) added one by one, after a batch of 1..3, against one batch fit (covariance factor free in its diagonal and first column)")
{
    int n = vp_param("n", 9);
    S().prepare(n, 1, false);
    auto y = sym_obs("y", n, 1);
    std::vector<V> x;
    for (int i = 0; i < n; i++)
        x.push_back(pt(i, 1));
    int b = vp_choice(3, "batch") + 1;
    GP gp(1, 1);
    gp.compute(std::vector<V>(x.begin(), x.begin() + b), std::vector<V>(y.begin(), y.begin() + b));
    for (int i = b; i < n; i++)
        gp.add_sample(x[i], y[i]);
    GP f = fresh(gp, x, y);
    same_model(gp, f, n, 1, 4);
    vp_reach("end");
}
// dimensions given wrongly (or not at all) at construction are corrected by the first data
VP_CASE(dimensions, 'R', "default construction / wrong dimensions, first data by batch or by single addition, then one more sample")
{
    S().prepare(2, 1, true);
    auto y = sym_obs("y", 2, 2);
    std::vector<V> x = {pt(0, 3), pt(1, 3)};
    GP gp = vp_choice(2, "construction") ? GP() : GP(1, 1);
    if (vp_choice(2, "first data"))
        gp.compute({x[0]}, {y[0]});
    else
        gp.add_sample(x[0], y[0]);
    gp.add_sample(x[1], y[1]);
    vp_check(gp.dim_in() == 3 && gp.dim_out() == 2, "dimensions follow the data");
    vp_check(gp.kernel_function().dim == 3 && gp.mean_function().d == 2, "kernel and mean built for the dimensions");
    GP f = fresh(gp, x, y);
    same_model(gp, f, 2, 3);
    vp_reach("end");
}
// copies are independent
VP_CASE(copies, 'R', "a copy keeps predicting from its own data after the original moves on, and conversely")
{
    S().prepare(3, 1, true);
    auto y = sym_obs("y", 3, 1);
    std::vector<V> x = {pt(0, 1), pt(1, 1), pt(2, 1)};
    GP gp(1, 1);
    gp.compute({x[0], x[1]}, {y[0], y[1]});
    if (vp_choice(2, "warm"))
        warm(gp);
    GP c(gp), d;
    d = gp;
    gp.add_sample(x[2], y[2]);
    c.kernel_function().set_h_params(V::Ones(1));
    c.recompute(false);
    GP* m[3] = {&gp, &c, &d};
    int w = vp_choice(3, "which");
    std::vector<V> xs(x.begin(), x.begin() + (w == 0 ? 3 : 2)), ys(y.begin(), y.begin() + (w == 0 ? 3 : 2));
    GP f = fresh(*m[w], xs, ys);
    same_model(*m[w], f, xs.size(), 1);
    vp_reach("end");
}
// the same place observed twice: two samples
VP_CASE(duplicates, 'R', "one or two samples, then a repeated location by single addition, then another addition, a retune or a refit; any observations, concrete covariances")
{
    S().n = 2;
    for (int v = 0; v < 3; v++) {
        M g(2, 2);
        g << 1.5 + v, 0, 0.25 * (v + 1), 2;
        S().G[v] = g;
        S().K[v] = g * g.transpose();
    }
    S().noise = 0.25;
    auto y = sym_obs("y", 4, 1);
    std::vector<V> all = {pt(0, 1), pt(1, 1)}, x, o;
    GP gp(1, 1);
    int c = 1 + vp_choice(2, "start"), k = 0;
    for (; k < c; k++) {
        x.push_back(all[k]);
        o.push_back(y[k]);
    }
    gp.compute(x, o);
    int again = vp_choice(c, "which again");
    x.push_back(all[again]);
    o.push_back(y[k++]);
    gp.add_sample(x.back(), o.back());
    int op = vp_choice(5, "then");
    if (op == 1 || op == 2) {
        x.push_back(all[op == 1 ? again : 1]);
        o.push_back(y[k++]);
        gp.add_sample(x.back(), o.back());
    }
    else if (op == 3)
        gp.optimize_hyperparams();
    else if (op == 4)
        gp.compute(x, o);
    GP f = fresh(gp, x, o);
    same_model(gp, f, x.size(), 1, 5);
    vp_reach("end");
}
