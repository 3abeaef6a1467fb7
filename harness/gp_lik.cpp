// C03: log marginal likelihood (value) and its gradients; C04: leave-one-out score and gradient.
#include "gp_common.hpp"
using namespace gpc;
using namespace limbo;

// K(theta)_ij = sum_k G_ik G_jk, G_ij(theta) = g_ij + sum_p theta_p h_ijp ; theta = 0 is an arbitrary point
struct Fam {
    int n = 0, np = 0;
    M g;
    std::vector<M> h;
    void init(int N, int NP, bool full)
    {
        n = N;
        np = NP;
        g = M::Zero(n, n);
        h.assign(np, M::Zero(n, n));
        for (int i = 0; i < n; i++)
            for (int j = 0; j <= i; j++)
                if (full || i == j || j == 0) {
                    g(i, j) = i == j ? vp_pos(lab("g", i, j).c_str()) : vp_sym(lab("g", i, j).c_str());
                    for (int p = 0; p < np; p++)
                        h[p](i, j) = vp_sym((lab("h", i, j) + "_" + std::to_string(p)).c_str(), -1, 1);
                }
    }
    // concrete covariance (the arithmetic on it is exact), free derivatives in a few entries
    void fixed(int N, int NP, double scale = 1)
    {
        n = N;
        np = NP;
        g = M::Zero(n, n);
        h.assign(np, M::Zero(n, n));
        for (int i = 0; i < n; i++)
            for (int j = 0; j <= i; j++) {
                g(i, j) = scale * (i == j ? (i % 3 ? 2. : 1.) : j < 2 || (i % 2 && j == i - 1) ? ((i * 7 + j * 5) % 9 - 4) / 4. : 0.);
                for (int p = 0; p < np; p++)
                    if (i >= n - 2 && (i == j || j == 0))
                        h[p](i, j) = vp_sym((lab("h", i, j) + "_" + std::to_string(p)).c_str(), -1, 1);
            }
    }
    double G(const V& t, int i, int j) const
    {
        double r = g(i, j);
        for (int p = 0; p < np; p++)
            r += t(p) * h[p](i, j);
        return r;
    }
    double K(const V& t, int i, int j) const
    {
        double s = 0;
        for (int k = 0; k <= std::min(i, j); k++)
            s += G(t, i, k) * G(t, j, k);
        return s;
    }
    double dK(const V& t, int i, int j, int p) const
    {
        double s = 0;
        for (int k = 0; k <= std::min(i, j); k++)
            s += h[p](i, k) * G(t, j, k) + G(t, i, k) * h[p](j, k);
        return s;
    }
    V solve(int m, const V& y) const
    {
        V z(m), x(m);
        for (int i = 0; i < m; i++) {
            double s = y(i);
            for (int k = 0; k < i; k++)
                s -= g(i, k) * z(k);
            z(i) = s / g(i, i);
        }
        for (int i = m - 1; i >= 0; i--) {
            double s = z(i);
            for (int k = i + 1; k < m; k++)
                s -= g(k, i) * x(k);
            x(i) = s / g(i, i);
        }
        return x;
    }
};
static Fam F;
struct FKernel {
    V p;
    FKernel(size_t = 1) : p(V::Zero(F.np)) {}
    double operator()(const V& x, const V& y, int i = -1, int j = -2) const
    {
        int a = label(x), b = label(y);
        return F.K(p, a, b) - (a == b && i != j ? 0.01 : 0);
    }
    V grad(const V& x, const V& y, int = -1, int = -2) const
    {
        V r(F.np);
        for (int k = 0; k < F.np; k++)
            r(k) = F.dK(p, label(x), label(y), k);
        return r;
    }
    size_t h_params_size() const { return F.np; }
    V h_params() const { return p; }
    void set_h_params(const V& x) { p = x; }
    double noise() const { return 0.01; }
};
// m_o(x; phi) = a_xo + sum_p phi_p b_xop + phi_p^2
template <int NP>
struct FMean {
    V p = V::Zero(NP);
    size_t d;
    FMean(size_t dd = 1) : d(dd) {}
    static double s(const char* n, int l, int o, int k = -1)
    {
        static std::map<std::string, double> t;
        std::string key = lab(n, l, o) + (k >= 0 ? "_" + std::to_string(k) : "");
        auto it = t.find(key);
        return it != t.end() ? it->second : t[key] = vp_sym(key.c_str());
    }
    template <typename GP>
    V operator()(const V& x, const GP&) const
    {
        V r(d);
        for (size_t o = 0; o < d; o++) {
            r(o) = s("a", label(x), o);
            for (int k = 0; k < NP; k++)
                r(o) += p(k) * s("b", label(x), o, k) + p(k) * p(k);
        }
        return r;
    }
    template <typename GP>
    M grad(const V& x, const GP&) const
    {
        M g(d, NP);
        for (size_t o = 0; o < d; o++)
            for (int k = 0; k < NP; k++)
                g(o, k) = s("b", label(x), o, k) + 2 * p(k);
        return g;
    }
    size_t h_params_size() const { return NP; }
    V h_params() const { return p; }
    void set_h_params(const V& x) { p = x; }
};
struct Params {
};
typedef model::GP<Params, FKernel, FMean<2>> GP;

static GP make(int n, int D, std::vector<V>& obs)
{
    std::vector<V> s;
    for (int i = 0; i < n; i++)
        s.push_back(pt(i, 1));
    obs = sym_obs("y", n, D);
    GP gp(1, D);
    gp.compute(s, obs);
    return gp;
}
static V e(int n, int k, double v)
{
    V r = V::Zero(n);
    r(k) = v;
    return r;
}
static void value(int n, int D, bool full, double scale = 0)
{
    if (scale)
        F.fixed(n, 1, scale);
    else
        F.init(n, 1, full);
    std::vector<V> obs;
    GP gp = make(n, D, obs);
    if (vp_choice(2, "warm inverse"))
        gp.compute_inv_kernel();
    double r = 0;
    for (int d = 0; d < D; d++) {
        V c(n);
        for (int i = 0; i < n; i++)
            c(i) = obs[i](d) - FMean<2>::s("a", i, d);
        V w = F.solve(n, c);
        for (int i = 0; i < n; i++)
            r -= 0.5 * c(i) * w(i);
    }
    for (int i = 0; i < n; i++)
        r -= std::log(F.g(i, i));
    r -= 0.5 * n * std::log(2 * M_PI);
    vp_check_eq(gp.compute_log_lik(), r, "log-likelihood");
    vp_check_eq(gp.get_log_lik(), r, "stored log-likelihood");
    vp_reach("end");
}
static void kgrad(int n, int np, int D, bool full, bool fixed = false)
{
    if (fixed)
        F.fixed(n, np);
    else
        F.init(n, np, full);
    std::vector<V> obs;
    GP gp = make(n, D, obs);
    V g = gp.compute_kernel_grad_log_lik();
    vp_check(g.size() == np, "one entry per kernel parameter");
    int k = vp_choice(np, "parameter");
    double d = vp_derivative([&](double t) { GP c(gp); c.kernel_function().set_h_params(e(np, k, t)); c.recompute(false); return c.compute_log_lik(); });
    vp_check_eq(g(k), d, "kernel gradient", 1e-4);
    vp_reach("end");
}
static void mgrad(int n, int D)
{
    F.init(n, 1, true);
    std::vector<V> obs;
    GP gp = make(n, D, obs);
    V g = gp.compute_mean_grad_log_lik();
    vp_check(g.size() == 2, "one entry per mean parameter");
    for (int k = 0; k < 2; k++) {
        double d = vp_derivative([&](double t) { GP c(gp); c.mean_function().set_h_params(e(2, k, t)); c.recompute(true, k == 0); return c.compute_log_lik(); });
        vp_check_eq(g(k), d, "mean gradient", 1e-4);
    }
    vp_reach("end");
}
VP_CASE(lik_value, 'R', "n samples (default 4), 1 output, any PD covariance, mean, data") { value(vp_param("n", 4), 1, true); }
VP_CASE(lik_value_multi, 'R', "3 samples, 2 outputs") { value(3, 2, true); }
VP_CASE(lik_value_big, 'R', "9 samples, 1 output, covariance factor free in diagonal and first column") { value(vp_param("n", 9), 1, false); }
VP_CASE(lik_value_one, 'R', "1 sample") { value(1, 1, true); }
VP_CASE(lik_value_large, 'R', "20 samples, 2 outputs, concrete dense covariance, any data and mean") { value(20, 2, true, 1); }
VP_CASE(lik_value_scale, 'R', "24 samples, concrete covariances of the scale 2^-100, 2^100 (the determinant is out of the range of doubles)") { value(24, 1, true, vp_choice(2, "scale") ? std::pow(2., 50) : std::pow(2., -50)); }
VP_CASE(lik_kgrad_one, 'R', "1 sample, 2 kernel parameters, 2 outputs") { kgrad(1, 2, 2, true); }
VP_CASE(lik_kgrad_large, 'R', "10 samples, 2 parameters, 2 outputs, concrete dense covariance, derivatives free in the last rows") { kgrad(10, 2, 2, true, true); }
VP_CASE(lik_kgrad, 'R', "n samples (default 3), 2 kernel parameters, 1 output, any PD covariance and covariance derivative") { kgrad(vp_param("n", 3), 2, 1, true); }
VP_CASE(lik_kgrad_multi, 'R', "2 samples, 2 kernel parameters, 3 outputs") { kgrad(2, 2, 3, true); }
VP_CASE(lik_kgrad_big, 'R', "5 samples, covariance factor free in diagonal and first column") { kgrad(vp_param("n", 5), 1, 1, false); }
VP_CASE(lik_mgrad, 'R', "3 samples, 2 mean parameters, 1 output") { mgrad(3, 1); }
VP_CASE(lik_mgrad_multi, 'R', "2 samples, 2 mean parameters, 3 outputs") { mgrad(2, 3); }

// the real kernel with its noise optimised, and the real mean wrapper
struct P1 {
    struct kernel {
        BO_PARAM(double, noise, 0.25);
        BO_PARAM(bool, optimize_noise, true);
    };
    struct kernel_exp : public defaults::kernel_exp {
    };
    struct kernel_squared_exp_ard : public defaults::kernel_squared_exp_ard {
    };
};
template <typename K>
static void real_noise(int np)
{
    typedef model::GP<P1, K, mean::FunctionARD<P1, mean::NullFunction<P1>>> G;
    V a = sym_vec("x", 1), b = sym_vec("z", 1);
    double y0 = vp_sym("y0"), y1 = vp_sym("y1");
    G gp(1, 1);
    V p(np);
    for (int i = 0; i < np; i++)
        p(i) = vp_sym(lab("p", i).c_str(), -2, 2);
    vp_check((int)gp.kernel_function().h_params_size() == np, "parameter count");
    gp.kernel_function().set_h_params(p);
    gp.compute({a, b}, {tools::make_vector(y0), tools::make_vector(y1)});
    int k = vp_choice(np, "parameter");
    V g = gp.compute_kernel_grad_log_lik();
    double d = vp_derivative([&](double t) { G c(gp); c.kernel_function().set_h_params(p + e(np, k, t)); c.recompute(false); return c.compute_log_lik(); });
    vp_check_eq(g(k), d, "gradient with the noise optimised", 1e-3);
    vp_reach("end");
}
VP_CASE(lik_noise_exp, 'R', "2 samples, exponential kernel, noise optimised, symbolic locations / data / parameters in [-2,2]") { real_noise<kernel::Exp<P1>>(3); }
VP_CASE(lik_noise_ard, 'R', "2 samples, ARD squared exponential, noise optimised") { real_noise<kernel::SquaredExpARD<P1>>(3); }

// ---------------- leave-one-out
static double loo_ref(int n, int D, const std::vector<V>& obs)
{
    // K^{-1} restricted: explicit posterior of each sample given the others (n <= 3)
    double r = 0;
    V t0 = V::Zero(F.np);
    for (int i = 0; i < n; i++) {
        std::vector<int> o;
        for (int j = 0; j < n; j++)
            if (j != i)
                o.push_back(j);
        double s2 = F.K(t0, i, i);
        std::vector<double> w(o.size());
        if (o.size() == 1) {
            w[0] = F.K(t0, i, o[0]) / F.K(t0, o[0], o[0]);
            s2 -= w[0] * F.K(t0, i, o[0]);
        }
        else if (o.size() == 2) {
            double A = F.K(t0, o[0], o[0]), B = F.K(t0, o[0], o[1]), C = F.K(t0, o[1], o[1]), det = A * C - B * B;
            double k0 = F.K(t0, i, o[0]), k1 = F.K(t0, i, o[1]);
            w[0] = (C * k0 - B * k1) / det;
            w[1] = (A * k1 - B * k0) / det;
            s2 -= w[0] * k0 + w[1] * k1;
        }
        for (int d = 0; d < D; d++) {
            double m = FMean<2>::s("a", i, d);
            for (size_t j = 0; j < o.size(); j++)
                m += w[j] * (obs[o[j]](d) - FMean<2>::s("a", o[j], d));
            r += -0.5 * (obs[i](d) - m) * (obs[i](d) - m) / s2 - 0.5 * std::log(s2) - 0.5 * std::log(2 * M_PI);
        }
    }
    return r;
}
static void loo_value(int n, int D)
{
    F.init(n, 1, true);
    std::vector<V> obs;
    GP gp = make(n, D, obs);
    double r = loo_ref(n, D, obs);
    vp_check_eq(gp.compute_log_loo_cv(), r, "leave-one-out score");
    vp_check_eq(gp.get_log_loo_cv(), r, "stored leave-one-out score");
    vp_reach("end");
}
static void loo_grad(int n, int np, int D, bool full, bool fixed = false)
{
    if (fixed)
        F.fixed(n, np);
    else
        F.init(n, np, full);
    std::vector<V> obs;
    GP gp = make(n, D, obs);
    V g = gp.compute_kernel_grad_log_loo_cv();
    vp_check(g.size() == np, "one entry per kernel parameter");
    int k = vp_choice(np, "parameter");
    double d = vp_derivative([&](double t) { GP c(gp); c.kernel_function().set_h_params(e(np, k, t)); c.recompute(false); return c.compute_log_loo_cv(); });
    vp_check_eq(g(k), d, "gradient of the leave-one-out score", 1e-4);
    vp_reach("end");
}
VP_CASE(loo_value_1, 'R', "3 samples, 1 output, any PD covariance") { loo_value(3, 1); }
VP_CASE(loo_value_multi, 'R', "2 samples, 3 outputs") { loo_value(2, 3); }
VP_CASE(loo_grad_1, 'R', "2 samples, 2 kernel parameters, 1 output") { loo_grad(2, 2, 1, true); }
VP_CASE(loo_grad_multi, 'R', "2 samples, 2 parameters, 3 outputs") { loo_grad(2, 2, 3, true); }
VP_CASE(loo_value_one, 'R', "1 sample, 2 outputs: no other sample, the score of the prior") { loo_value(1, 2); }
VP_CASE(loo_grad_one, 'R', "1 sample, 2 parameters, 2 outputs") { loo_grad(1, 2, 2, true); }
VP_CASE(loo_grad_large, 'R', "6 samples, 2 parameters, 2 outputs, concrete dense covariance, derivatives free in the last rows") { loo_grad(6, 2, 2, true, true); }
VP_CASE(loo_grad_3, 'R', "3 samples, 1 parameter, 1 output, covariance factor free in diagonal and first column") { loo_grad(3, 1, 1, false); }
