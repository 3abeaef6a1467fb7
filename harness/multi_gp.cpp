// C06: a multi-output model equals independent single-output models on the same data.
#include "gp_versions.hpp"
#include <limbo/model/multi_gp.hpp>
#include <limbo/model/multi_gp/parallel_lf_opt.hpp>
using namespace gpv;
using namespace limbo;
struct Params {
};
typedef VKernel<1> Ker;
typedef VMean<true> DataMean;
typedef VMean<false> FreeMean;

// output `o` of the common prior mean, for the single-output reference
template <bool D>
struct OutMean {
    int o = 0;
    V p = V::Zero(1);
    OutMean(size_t = 1) {}
    template <typename GP>
    V operator()(const V& x, const GP& gp) const
    {
        V r(1);
        r(0) = S().sym(nm("m", ver(p(0)), label(x), o)) + (D ? 3 * gp.mean_observation()(0) : 0);
        return r;
    }
    size_t h_params_size() const { return 1; }
    V h_params() const { return p; }
    void set_h_params(const V& x) { p = x; }
};
struct Tune {
    template <typename GP>
    void operator()(GP& gp)
    {
        gp.kernel_function().set_h_params(gp.kernel_function().h_params() + V::Ones(1));
        gp.recompute(false);
    }
};
template <bool D, typename Multi>
static void compare(Multi& mg, const std::vector<V>& x, const std::vector<V>& y, int dim)
{
    typedef model::GP<Params, Ker, OutMean<D>, Tune> Ref;
    int n = x.size(), DO = y[0].size();
    V q = pt(100, dim);
    vp_check(mg.nb_samples() == n && (int)mg.samples().size() == n && (int)mg.observations().size() == n, "number of samples");
    vp_check(mg.dim_in() == dim && mg.dim_out() == DO, "dimensions");
    for (int i = 0; i < n; i++) {
        same<M>(mg.samples()[i], x[i], "samples");
        same<M>(mg.observations()[i], y[i], "observations");
    }
    V mo = V::Zero(DO);
    for (auto& v : y)
        mo += v;
    same<M>(mg.mean_observation(), mo / n, "mean observation");
    V mu = mg.mu(q), sg = mg.sigma(q), mu2, sg2;
    std::tie(mu2, sg2) = mg.query(q);
    vp_check(mu.size() == DO && sg.size() == DO && mu2.size() == DO && sg2.size() == DO, "one value per output");
    for (int o = 0; o < DO; o++) {
        Ref r(dim, 1);
        r.mean_function().o = o;
        r.mean_function().set_h_params(mg.mean_function().h_params());
        r.kernel_function().set_h_params(mg.gp_models()[o].kernel_function().h_params());
        std::vector<V> yo;
        for (auto& v : y)
            yo.push_back(tools::make_vector(v(o)));
        r.compute(x, yo);
        vp_check_eq(mu(o), r.mu(q)(0), "mean");
        vp_check_eq(mu2(o), mu(o), "query mean");
        vp_check_eq(sg(o), r.sigma(q), "variance");
        vp_check_eq(sg2(o), sg(o), "query variance");
        same<M>(mg.gp_models()[o].matrixL(), r.matrixL(), "Cholesky factor");
        same<M>(mg.gp_models()[o].alpha(), r.alpha(), "weights");
        same<M>(mg.gp_models()[o].obs_mean(), r.obs_mean(), "centred observations");
        vp_check_eq(mg.gp_models()[o].compute_log_lik(), r.compute_log_lik(), "log-likelihood");
    }
}
template <bool D>
static void run(int nmax, int DO, int steps)
{
    typedef model::MultiGP<Params, model::GP, Ker, VMean<D>, model::multi_gp::ParallelLFOpt<Params, Tune>> Multi;
    int dim = 2;
    S().prepare(nmax, 1, true);
    std::vector<V> allx, ally = sym_obs("y", nmax, DO), x, y;
    for (int i = 0; i < nmax; i++)
        allx.push_back(pt(i, dim));
    Multi mg;
    int c = vp_choice(4, "start");
    if (c != 0)
        mg = Multi(c == 1 ? dim : 1, c == 1 ? DO : 1); // dimensions known / wrong (batch fit corrects them)
    if (c == 3 || c == 2) {
        x = {allx[0], allx[1]};
        y = {ally[0], ally[1]};
        if (c == 3) { // second batch replaces the first
            mg.compute({allx[2]}, {ally[2]});
        }
        mg.compute(x, y);
    }
    else {
        x = {allx[0]};
        y = {ally[0]};
        mg.add_sample(x[0], y[0]);
    }
    for (int s = 0; s < steps; s++) {
        int op = vp_choice(7, "operation");
        if (op == 0)
            break;
        if (op == 1) {
            if ((int)x.size() == nmax)
                vp_assume(false);
            x.push_back(allx[x.size()]);
            y.push_back(ally[y.size()]);
            mg.add_sample(x.back(), y.back());
        }
        else if (op == 2)
            mg.optimize_hyperparams();
        else if (op == 3) { // one output gets its own kernel parameters
            mg.gp_models()[DO - 1].kernel_function().set_h_params(V::Ones(1) * 2);
            mg.recompute(false, true);
        }
        else if (op == 4) {
            mg.mean_function().set_h_params(mg.mean_function().h_params() + V::Ones(1));
            mg.recompute(true, false);
        }
        else if (op == 5) {
            mg.mean_function().set_h_params(mg.mean_function().h_params() + V::Ones(1));
            mg.gp_models()[0].kernel_function().set_h_params(V::Ones(1) * 3);
            mg.recompute();
        }
        else
            mg.recompute(false, false);
    }
    compare<D>(mg, x, y, dim);
    vp_reach("end");
}
VP_CASE(multi_free_mean, 'R', "2 outputs, up to 3 samples, start by addition / batch / replaced batch / wrong dimensions, then up to 2 operations (add, tune, own kernel parameters, mean retune, refit); mean independent of the data") { run<false>(3, 2, vp_param("steps", 2)); }
VP_CASE(multi_data_mean, 'R', "as above with a prior mean that depends on the data") { run<true>(3, 2, vp_param("steps", 2)); }
VP_CASE(multi_three, 'R', "3 outputs, data mean, batch then one addition")
{
    typedef model::MultiGP<Params, model::GP, Ker, VMean<true>> Multi;
    S().prepare(3, 1, true);
    auto y = sym_obs("y", 3, 3);
    std::vector<V> x = {pt(0, 1), pt(1, 1), pt(2, 1)};
    Multi mg(1, 3);
    V q = pt(100, 1), mu = mg.mu(q), sg = mg.sigma(q);
    Ker k;
    for (int o = 0; o < 3; o++) {
        vp_check_eq(mu(o), S().sym(nm("m", 0, 100, o)), "prior mean without data");
        vp_check_eq(sg(o), k(q, q) + S().noise, "prior variance without data");
    }
    mg.compute({x[0], x[1]}, {y[0], y[1]});
    mg.add_sample(x[2], y[2]);
    compare<true>(mg, x, y, 1);
    vp_reach("end");
}
