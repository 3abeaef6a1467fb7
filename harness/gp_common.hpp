// User plug-ins for the GP harnesses: a kernel and a mean whose values are free symbols.
#ifndef GP_COMMON_HPP
#define GP_COMMON_HPP
#include "vp.hpp"
#include <Eigen/Core>
#include <Eigen/LU>
#include <limbo/limbo.hpp>
#include <map>

namespace gpc {
    typedef Eigen::VectorXd V;
    typedef Eigen::MatrixXd M;
    // point: first coordinate is a concrete label, the others are its image (so that dimensions matter)
    inline V pt(int label, int dim)
    {
        V v(dim);
        for (int i = 0; i < dim; i++)
            v(i) = label + 0.125 * i;
        return v;
    }
    inline int label(const V& v) { return (int)std::floor(v(0) + 0.5); }
    inline std::string lab(const char* p, int i, int j = -1) { return std::string(p) + std::to_string(i) + (j >= 0 ? "_" + std::to_string(j) : ""); }

    // total covariance of the labels 0..n-1: K = G G^T, G lower triangular with positive diagonal
    // (every symmetric positive definite matrix has exactly one such G)
    struct World {
        int n = 0;
        M G, K;
        double noise = 0;
        std::map<std::pair<int, int>, double> cross; // query points are labels >= 100
        // full = false: only the diagonal and the first column of G are free (the rest is 0)
        void init(int N, bool sym_noise = true, bool full = true)
        {
            n = N;
            G = M::Zero(N, N);
            for (int i = 0; i < N; i++)
                for (int j = 0; j <= i; j++)
                    if (full || i == j || j == 0)
                        G(i, j) = i == j ? vp_pos(lab("g", i, j).c_str()) : vp_sym(lab("g", i, j).c_str());
            K = M::Zero(N, N);
            for (int i = 0; i < N; i++)
                for (int j = 0; j < N; j++) {
                    double s = 0;
                    for (int k = 0; k <= std::min(i, j); k++)
                        s += G(i, k) * G(j, k);
                    K(i, j) = s;
                }
            noise = sym_noise ? vp_pos("noise") : 0.01;
        }
        double get(int a, int b)
        {
            if (a > b)
                std::swap(a, b);
            auto k = std::make_pair(a, b);
            auto it = cross.find(k);
            if (it != cross.end())
                return it->second;
            double s = a == b ? vp_pos(lab("kq", a, b).c_str()) : vp_sym(lab("kq", a, b).c_str());
            cross[k] = s;
            return s;
        }
        // kernel value including the noise when the same sample index is given twice
        double k(const V& x, const V& y, int i, int j)
        {
            int a = label(x), b = label(y);
            double r;
            if (a < n && b < n)
                r = a == b ? K(a, b) - noise : K(a, b);
            else
                r = get(a, b);
            return i == j ? r + noise : r;
        }
        // reference: K_n^{-1} y by forward / backward substitution on G
        V solve(int m, const V& y)
        {
            V z(m), x(m);
            for (int i = 0; i < m; i++) {
                double s = y(i);
                for (int k = 0; k < i; k++)
                    s -= G(i, k) * z(k);
                z(i) = s / G(i, i);
            }
            for (int i = m - 1; i >= 0; i--) {
                double s = z(i);
                for (int k = i + 1; k < m; k++)
                    s -= G(k, i) * x(k);
                x(i) = s / G(i, i);
            }
            return x;
        }
    };
    inline World& W()
    {
        static World w;
        return w;
    }

    struct SymKernel {
        SymKernel(size_t = 1) {}
        double operator()(const V& x, const V& y, int i = -1, int j = -2) const { return W().k(x, y, i, j); }
        V grad(const V&, const V&, int = -1, int = -2) const { return V(); }
        size_t h_params_size() const { return 0; }
        V h_params() const { return V(); }
        void set_h_params(const V&) {}
        double noise() const { return W().noise; }
    };
    inline std::map<std::pair<int, int>, double>& mean_tab()
    {
        static std::map<std::pair<int, int>, double> t;
        return t;
    }
    inline double mean_sym(int l, int o)
    {
        auto k = std::make_pair(l, o);
        auto it = mean_tab().find(k);
        if (it != mean_tab().end())
            return it->second;
        return mean_tab()[k] = vp_sym(lab("m", l, o).c_str());
    }
    struct SymMean {
        size_t d;
        SymMean(size_t dim_out = 1) : d(dim_out) {}
        template <typename GP>
        V operator()(const V& v, const GP&) const
        {
            V r(d);
            for (size_t o = 0; o < d; o++)
                r(o) = mean_sym(label(v), o);
            return r;
        }
        template <typename GP>
        M grad(const V&, const GP&) const { return M(d, 0); }
        size_t h_params_size() const { return 0; }
        V h_params() const { return V(); }
        void set_h_params(const V&) {}
    };
    inline V sym_vec(const char* n, int d)
    {
        V r(d);
        for (int i = 0; i < d; i++)
            r(i) = vp_sym(lab(n, i).c_str());
        return r;
    }
    inline std::vector<V> sym_obs(const char* n, int cnt, int d)
    {
        std::vector<V> r;
        for (int i = 0; i < cnt; i++) {
            V o(d);
            for (int k = 0; k < d; k++)
                o(k) = vp_sym(lab(n, i, k).c_str());
            r.push_back(o);
        }
        return r;
    }
    // sigma^2 against its closed form: noise + max(0, r)
    inline void check_var(double s, double r, double noise, const char* l)
    {
        if (r > 1e-9)
            vp_check_eq(s, noise + r, l);
        else {
            vp_check_le(noise, s, l);
            vp_check_le(s, noise + 1e-9, l);
        }
    }
} // namespace gpc
#endif
