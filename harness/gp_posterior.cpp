// C01: the model's prediction is the exact Gaussian-process posterior, for every positive
// definite covariance, every prior mean, every observation.
#include "gp_common.hpp"
using namespace gpc;
using namespace limbo;
struct Params {
    struct kernel : public defaults::kernel {
    };
};
typedef model::GP<Params, SymKernel, SymMean> GP;

struct Ref {
    std::vector<double> mu;
    double r;
};
// closed form at query label q with samples 0..n-1
static Ref ref(int n, int D, const std::vector<V>& obs, int q)
{
    Ref R;
    V k(n);
    for (int i = 0; i < n; i++)
        k(i) = W().get(i, q);
    V kk = W().solve(n, k);
    R.r = W().get(q, q);
    for (int i = 0; i < n; i++)
        R.r -= k(i) * kk(i);
    for (int d = 0; d < D; d++) {
        double m = mean_sym(q, d);
        for (int i = 0; i < n; i++)
            m += kk(i) * (obs[i](d) - mean_sym(i, d));
        R.mu.push_back(m);
    }
    return R;
}
static void run(int n, int D, int dim, bool full = true)
{
    W().init(n, true, full);
    auto obs = sym_obs("y", n, D);
    std::vector<V> s;
    for (int i = 0; i < n; i++)
        s.push_back(pt(i, dim));
    GP gp(dim, D);
    gp.compute(s, obs);
    int what = vp_choice(3, "mu/sigma/query");
    V q = pt(100, dim);
    Ref R = ref(n, D, obs, 100);
    if (what == 0) {
        V mu = gp.mu(q);
        vp_check(mu.size() == D, "mu has one entry per output");
        for (int d = 0; d < D; d++)
            vp_check_eq(mu(d), R.mu[d], "mu");
    }
    else if (what == 1)
        check_var(gp.sigma(q), R.r, W().noise, "sigma");
    else {
        V mu;
        double s2;
        std::tie(mu, s2) = gp.query(q);
        for (int d = 0; d < D; d++)
            vp_check_eq(mu(d), R.mu[d], "query mean");
        check_var(s2, R.r, W().noise, "query variance");
        vp_check(gp.nb_samples() == n && gp.dim_in() == dim && gp.dim_out() == D, "dimensions");
    }
    vp_reach("end");
}
VP_CASE(posterior_1d, 'R', "n samples (default 3) in 1 dimension, 1 output, arbitrary PD covariance / mean / observations") { run(vp_param("n", 3), 1, 1); }
VP_CASE(posterior_multi, 'R', "n samples (default 3) in 3 dimensions, 3 outputs") { run(vp_param("n", 3), 3, 3); }
VP_CASE(posterior_single, 'R', "1 sample, 2 outputs") { run(1, 2, 2); }
VP_CASE(posterior_big, 'R', "n samples (default 9: beyond Eigen's fixed-size and blocking thresholds of 8), covariance = G G^T with G free in the diagonal and first column, 1 output") { run(vp_param("n", 9), 1, 1, false); }

// many samples: the covariance is concrete (well conditioned, dense), everything else is free
static void large(int n, int D, int dim)
{
    auto& w = W();
    w.init(0, true);
    w.n = n;
    w.G = w.K = M::Zero(n, n);
    for (int i = 0; i < n; i++)
        for (int j = 0; j <= i; j++)
            // (every double operation on these is exact)
            w.G(i, j) = i == j ? (i % 3 ? 2. : 1.) : j < 2 || (i % 2 && j == i - 1) ? ((i * 7 + j * 5) % 9 - 4) / 4. : 0.;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            for (int k = 0; k <= std::min(i, j); k++)
                w.K(i, j) += w.G(i, k) * w.G(j, k);
    w.noise = 0.25;
    auto obs = sym_obs("y", n, D);
    std::vector<V> s;
    for (int i = 0; i < n; i++)
        s.push_back(pt(i, dim));
    GP gp(dim, D);
    gp.compute(s, obs);
    V q = pt(100, dim);
    for (int at = 0; at < 2; at++) {
        int l = at ? n - 2 : 100;
        q = pt(l, dim);
        V k(n);
        for (int i = 0; i < n; i++)
            k(i) = at ? w.K(i, l) - (i == l ? w.noise : 0.) : w.get(i, 100);
        V kk = w.solve(n, k);
        double r = at ? w.K(l, l) - w.noise : w.get(100, 100);
        for (int i = 0; i < n; i++)
            r -= k(i) * kk(i);
        V mu, m2 = gp.mu(q);
        double s2, s1 = gp.sigma(q);
        std::tie(mu, s2) = gp.query(q);
        for (int d = 0; d < D; d++) {
            double m = mean_sym(l, d);
            for (int i = 0; i < n; i++)
                m += kk(i) * (obs[i](d) - mean_sym(i, d));
            vp_check_eq(mu(d), m, "mean");
            vp_check_eq(m2(d), m, "mean by mu");
        }
        if (r <= 1e-9) // the clipped variance is covered by the small cases
            continue;
        vp_check_eq(s1, w.noise + r, "variance by sigma");
        vp_check_eq(s2, w.noise + r, "variance");
    }
    vp_reach("end");
}
VP_CASE(posterior_large, 'R', "20 samples, 2 outputs, 4 inputs, a concrete dense covariance; any observations, prior mean and covariances of the query; also at a training sample") { large(vp_param("n", 20), 2, 4); }
VP_CASE(duplicates, 'R', "two samples at the same place (any covariance), then one elsewhere (uncorrelated), 1 output, by batch or one by one")
{
    auto& w = W();
    w.init(0);
    auto y = sym_obs("y", 3, 1);
    std::vector<V> s = {pt(0, 2), pt(0, 2), pt(1, 2)};
    w.cross[{0, 1}] = 0;
    GP gp(2, 1);
    int n = 2 + vp_choice(2, "third");
    if (vp_choice(2, "one by one"))
        for (int i = 0; i < n; i++)
            gp.add_sample(s[i], y[i]);
    else
        gp.compute(std::vector<V>(s.begin(), s.begin() + n), std::vector<V>(y.begin(), y.begin() + n));
    V q = pt(100, 2);
    double a = w.get(0, 0), c = w.get(0, 100), d = w.get(1, 1) + w.noise, e = w.get(1, 100);
    // inverse of [[a+s, a], [a, a+s]]: the two copies count as one sample of their mean with noise s / 2
    double u = c / (2 * a + w.noise);
    double m = mean_sym(100, 0) + u * (y[0](0) + y[1](0) - 2 * mean_sym(0, 0)), r = w.get(100, 100) - 2 * u * c;
    if (n == 3) {
        m += e / d * (y[2](0) - mean_sym(1, 0));
        r -= e * e / d;
    }
    vp_check_eq(gp.mu(q)(0), m, "mean");
    if (r > 1e-9)
        vp_check_eq(gp.sigma(q), w.noise + r, "variance");
    vp_check(gp.nb_samples() == n, "both copies are kept");
    vp_reach("end");
}
// at a training point: prediction uses the sample's own covariance row, variance still counts the noise once
VP_CASE(at_sample, 'R', "query at a training sample, n = 3")
{
    int n = 3;
    W().init(n);
    auto obs = sym_obs("y", n, 1);
    std::vector<V> s;
    for (int i = 0; i < n; i++)
        s.push_back(pt(i, 2));
    GP gp(2, 1);
    gp.compute(s, obs);
    int a = vp_choice(3, "which sample");
    V k(n);
    for (int i = 0; i < n; i++)
        k(i) = i == a ? W().K(a, a) - W().noise : W().K(i, a);
    V kk = W().solve(n, k);
    double m = mean_sym(a, 0), r = W().K(a, a) - W().noise;
    for (int i = 0; i < n; i++) {
        m += kk(i) * (obs[i](0) - mean_sym(i, 0));
        r -= k(i) * kk(i);
    }
    vp_check_eq(gp.mu(s[a])(0), m, "mu at a sample");
    check_var(gp.sigma(s[a]), r, W().noise, "sigma at a sample");
    vp_reach("end");
}
VP_CASE(prior, 'R', "no sample: prior mean and prior variance, 2 inputs, 2 outputs")
{
    W().init(0);
    GP gp(2, 2);
    V q = pt(100, 2);
    V mu = gp.mu(q);
    double s = gp.sigma(q);
    for (int d = 0; d < 2; d++)
        vp_check_eq(mu(d), mean_sym(100, d), "prior mean");
    vp_check_eq(s, W().get(100, 100) + W().noise, "prior variance");
    V m2;
    double s2;
    std::tie(m2, s2) = gp.query(q);
    for (int d = 0; d < 2; d++)
        vp_check_eq(m2(d), mean_sym(100, d), "prior mean by query");
    vp_check_eq(s2, W().get(100, 100) + W().noise, "prior variance by query");
    vp_check(gp.nb_samples() == 0, "no samples");
    vp_reach("end");
}
// the real kernels and the data mean plugged in, symbolic locations
struct P2 {
    struct kernel : public defaults::kernel {
        BO_PARAM(double, noise, 0.25);
    };
    struct kernel_exp : public defaults::kernel_exp {
    };
};
VP_CASE(real_kernel, 'R', "2 samples at symbolic positions in 2-D, exponential kernel, data mean, noise 0.25")
{
    typedef model::GP<P2, kernel::Exp<P2>, mean::Data<P2>> G2;
    V a = sym_vec("a", 2), b = sym_vec("b", 2), q = sym_vec("q", 2);
    double y0 = vp_sym("y0"), y1 = vp_sym("y1");
    G2 gp(2, 1);
    gp.compute({a, b}, {tools::make_vector(y0), tools::make_vector(y1)});
    auto k = [](const V& x, const V& y) { double s = 0; for (int i = 0; i < 2; i++) s += (x(i) - y(i)) * (x(i) - y(i)); return std::exp(-0.5 * s); };
    double d = 1.25 + 1e-8, o = k(a, b), det = d * d - o * o, m = (y0 + y1) / 2;
    double ka = k(a, q), kb = k(b, q);
    double wa = (d * ka - o * kb) / det, wb = (d * kb - o * ka) / det;
    vp_check_eq(gp.mu(q)(0), m + wa * (y0 - m) + wb * (y1 - m), "posterior mean with the exponential kernel");
    double r = 1 - wa * ka - wb * kb;
    double s = gp.sigma(q);
    if (s > 0.25 + 1e-9)
        vp_check_eq(s, 0.25 + r, "posterior variance with the exponential kernel");
    vp_reach("end");
}
