// Plug-ins whose hyper-parameters select one of several unrelated free covariances / means:
// parameter value v (a small integer) -> its own positive definite matrix G_v G_v^T, its own
// cross covariances, its own derivative matrices.
#ifndef GP_VERSIONS_HPP
#define GP_VERSIONS_HPP
#include "gp_common.hpp"
namespace gpv {
    using namespace gpc;
    struct Store {
        int n = 0;
        bool full = true;
        std::map<int, M> G, K;
        std::map<std::string, double> s;
        double noise = 0.01;
        double sym(const std::string& k, bool pos = false)
        {
            auto it = s.find(k);
            if (it != s.end())
                return it->second;
            return s[k] = pos ? vp_pos(k.c_str()) : vp_sym(k.c_str());
        }
        const M& k(int v)
        {
            auto it = K.find(v);
            if (it != K.end())
                return it->second;
            M g = M::Zero(n, n), kk = M::Zero(n, n);
            std::string p = "g" + std::to_string(v) + "_";
            for (int i = 0; i < n; i++)
                for (int j = 0; j <= i; j++)
                    if (full || i == j || j == 0)
                        g(i, j) = sym(lab(p.c_str(), i, j), i == j);
            for (int i = 0; i < n; i++)
                for (int j = 0; j < n; j++) {
                    double t = 0;
                    for (int l = 0; l <= std::min(i, j); l++)
                        t += g(i, l) * g(j, l);
                    kk(i, j) = t;
                }
            G[v] = g;
            return K[v] = kk;
        }
        // create the symbols in a fixed order (never lazily inside the code under test)
        void prepare(int N, int versions, bool f, int q = 0)
        {
            n = N;
            full = f;
            for (int v = 0; v < versions; v++)
                k(v);
        }
    };
    inline Store& S()
    {
        static Store s;
        return s;
    }
    inline int ver(double p) { return (int)std::floor(p + 0.5); }
    inline std::string nm(const char* b, int v, int i, int j = -1, int k = -1)
    {
        std::string r = std::string(b) + std::to_string(v) + "_" + std::to_string(i);
        if (j >= 0)
            r += "_" + std::to_string(j);
        if (k >= 0)
            r += "_" + std::to_string(k);
        return r;
    }
    // NP parameters; the version is the sum of the parameters
    template <int NP>
    struct VKernel {
        V p = V::Zero(NP);
        size_t dim;
        VKernel(size_t d = 1) : dim(d) {}
        int v() const { return ver(p.sum()); }
        double operator()(const V& x, const V& y, int i = -1, int j = -2) const
        {
            int a = label(x), b = label(y);
            if (a > b)
                std::swap(a, b);
            double r;
            if (a < S().n && b < S().n)
                r = a == b ? S().k(v())(a, b) - S().noise : S().k(v())(a, b);
            else
                r = S().sym(nm("kq", v(), a, b), a == b);
            return i == j ? r + S().noise : r;
        }
        V grad(const V& x, const V& y, int i = -1, int j = -2) const
        {
            V g(NP);
            int a = label(x), b = label(y);
            if (a > b)
                std::swap(a, b);
            for (int k = 0; k < NP; k++) {
                g(k) = S().sym(nm("dk", v(), a, b, k));
                if (i == j && k == NP - 1)
                    g(k) += 0.5;
            }
            return g;
        }
        size_t h_params_size() const { return NP; }
        V h_params() const { return p; }
        void set_h_params(const V& x) { p = x; }
        double noise() const { return S().noise; }
    };
    // mean = free symbol of (version, location, output) + depends on the mean observation when D = true
    template <bool D>
    struct VMean {
        V p = V::Zero(1);
        size_t d;
        VMean(size_t dim_out = 1) : d(dim_out) {}
        template <typename GP>
        V operator()(const V& x, const GP& gp) const
        {
            V r(d);
            V mo = D ? gp.mean_observation() : V::Zero(d);
            for (size_t o = 0; o < d; o++)
                r(o) = S().sym(nm("m", ver(p(0)), label(x), o)) + (D ? 3 * mo(o) : 0);
            return r;
        }
        template <typename GP>
        M grad(const V& x, const GP&) const
        {
            M g(d, 1);
            for (size_t o = 0; o < d; o++)
                g(o, 0) = S().sym(nm("dm", ver(p(0)), label(x), o));
            return g;
        }
        size_t h_params_size() const { return 1; }
        V h_params() const { return p; }
        void set_h_params(const V& x) { p = x; }
    };
    template <typename A>
    inline void same(const A& a, const A& b, const char* l)
    {
        vp_check(a.rows() == b.rows() && a.cols() == b.cols(), (std::string(l) + " size").c_str());
        for (int i = 0; i < a.rows(); i++)
            for (int j = 0; j < a.cols(); j++)
                vp_check_eq(a(i, j), b(i, j), l);
    }
    // a model in use against a freshly fitted one: which aspect is picked nondeterministically
    template <typename GP, typename GP2>
    inline void same_model(GP& gp, GP2& f, int n, int dim, int aspects = 6, bool variance = true)
    {
        V q = pt(100, dim);
        vp_check(gp.nb_samples() == n && (int)gp.samples().size() == n && (int)gp.observations().size() == n, "number of samples");
        for (int i = 0; i < n; i++)
            same<M>(gp.samples()[i], f.samples()[i], "samples");
        same<M>(gp.observations_matrix(), f.observations_matrix(), "observations");
        for (int asp = 0; asp < aspects; asp++)
        switch (asp) {
        case 0:
            same<M>(gp.mu(q), f.mu(q), "mean prediction");
            same<M>(gp.mean_observation(), f.mean_observation(), "mean observation");
            same<M>(gp.mean_vector(), f.mean_vector(), "mean vector");
            same<M>(gp.obs_mean(), f.obs_mean(), "centred observations");
            break;
        case 1: { // forks on the clipping at 0; implied by the Cholesky factor otherwise
            if (!variance)
                break;
            double a = gp.sigma(q), b = f.sigma(q);
            vp_check_eq(a, b, "variance prediction");
            break;
        }
        case 2:
            same<M>(gp.alpha(), f.alpha(), "weights");
            same<M>(gp.matrixL(), f.matrixL(), "Cholesky factor");
            break;
        case 3:
            vp_check_eq(gp.compute_log_lik(), f.compute_log_lik(), "log-likelihood");
            vp_check_eq(gp.get_log_lik(), f.get_log_lik(), "stored log-likelihood");
            break;
        case 4:
            vp_check_eq(gp.compute_log_loo_cv(), f.compute_log_loo_cv(), "leave-one-out score");
            vp_check_eq(gp.get_log_loo_cv(), f.get_log_loo_cv(), "stored leave-one-out score");
            break;
        default:
            same<M>(gp.compute_kernel_grad_log_lik(), f.compute_kernel_grad_log_lik(), "kernel gradient of the log-likelihood");
            same<M>(gp.compute_mean_grad_log_lik(), f.compute_mean_grad_log_lik(), "mean gradient of the log-likelihood");
            same<M>(gp.compute_kernel_grad_log_loo_cv(), f.compute_kernel_grad_log_loo_cv(), "gradient of the leave-one-out score");
        }
    }
}
#endif
