// C12: acquisition functions against their published formulas.
#include "vp.hpp"
#include <Eigen/Core>
#include <limbo/acqui/ei.hpp>
#include <limbo/acqui/gp_ucb.hpp>
#include <limbo/acqui/ucb.hpp>
#include <map>
#include <tuple>
using namespace limbo;
typedef Eigen::VectorXd V;
static double alpha, jitter;
template <int D10>
struct Params {
    struct acqui_ucb {
        static double alpha() { return ::alpha; }
    };
    struct acqui_ei {
        static double jitter() { return ::jitter; }
    };
    struct acqui_gpucb {
        static constexpr double delta() { return D10 / 10.; }
    };
};
static std::string nm(const std::string& p, int i, int j = 0) { return p + std::to_string(i) + "_" + std::to_string(j); }
// a model that predicts anything: per label and model version
struct Model {
    int din, dout, version = 0;
    bool zero_var = false;
    std::vector<V> xs;
    mutable std::map<int, V> m;
    mutable std::map<int, double> s;
    Model(int di, int d) : din(di), dout(d) {}
    int key(const V& v) const { return (int)v(0) + 1000 * version; }
    V pt(int l) const { return V::Constant(din, l); }
    V mu(const V& v) const
    {
        int k = key(v);
        if (!m.count(k)) {
            V r(dout);
            for (int i = 0; i < dout; i++)
                r(i) = vp_sym(nm("mu", k, i).c_str());
            m[k] = r;
        }
        return m[k];
    }
    double sigma(const V& v) const
    {
        int k = key(v);
        if (!s.count(k))
            s[k] = zero_var ? 0. : vp_sym(nm("var", k).c_str(), 0.);
        return s[k];
    }
    std::tuple<V, double> query(const V& v) const { return std::make_tuple(mu(v), sigma(v)); }
    size_t dim_in() const { return din; }
    size_t dim_out() const { return dout; }
    const std::vector<V>& samples() const { return xs; }
    int nb_samples() const { return xs.size(); }
};
// aggregations: first component, sum, or any function of the prediction
static int agg;
static double afun(const V& v)
{
    if (agg == 0)
        return v(0);
    if (agg == 1)
        return v.sum();
    return vp_uf("agg", v.data(), v.size());
}
static std::function<double(const V&)> A() { return afun; }
VP_CASE(ucb, 'R', "1 or 2 outputs, three aggregations (one uninterpreted), any prediction and alpha")
{
    int D = 1 + vp_choice(2, "outputs");
    agg = vp_choice(3, "aggregation");
    alpha = vp_sym("alpha");
    Model m(2, D);
    acqui::UCB<Params<1>, Model> a(m, vp_choice(3, "iteration"));
    vp_check(a.dim_in() == 2 && (int)a.dim_out() == D, "dimensions");
    for (int q = 0; q < 2; q++) {
        V x = m.pt(q);
        auto r = a(x, A(), false);
        vp_check(!std::get<1>(r).is_initialized(), "no gradient");
        vp_check_eq(std::get<0>(r), afun(m.mu(x)) + alpha * std::sqrt(m.sigma(x)), "mu + alpha sigma");
    }
    m.version++; // the model learns: the same object must follow
    V x = m.pt(0);
    vp_check_eq(std::get<0>(a(x, A(), false)), afun(m.mu(x)) + alpha * std::sqrt(m.sigma(x)), "follows the model");
    vp_reach("end");
}
template <int D10>
static void gpucb()
{
    static const int its[] = {0, 1, 2, 3, 10, 1000};
    int D = 1 + vp_choice(2, "outputs"), di = 1 + vp_choice(3, "inputs");
    agg = vp_choice(3, "aggregation");
    int it = its[vp_choice(6, "iteration")];
    Model m(di, D);
    acqui::GP_UCB<Params<D10>, Model> a(m, it);
    int n = it < 1 ? 1 : it;
    double beta = std::sqrt(2 * std::log(std::pow((double)n, di / 2. + 2.) * M_PI * M_PI / (3. * D10 / 10.)));
    vp_check((int)a.dim_in() == di && (int)a.dim_out() == D, "dimensions");
    for (int q = 0; q < 2; q++) {
        V x = m.pt(q);
        double s = m.sigma(x), r = std::get<0>(a(x, A(), false));
        if (it == 0) { // the documented n is at least 1; any defined, nonnegative exploration weight up to that of iteration 1 or 2
            double b2 = std::sqrt(2 * std::log(std::pow(2., di / 2. + 2.) * M_PI * M_PI / (3. * D10 / 10.)));
            vp_check_le(afun(m.mu(x)), r, "defined at iteration 0");
            vp_check_le(r, afun(m.mu(x)) + b2 * std::sqrt(s), "weight at iteration 0");
        }
        else
            vp_check_eq(r, afun(m.mu(x)) + beta * std::sqrt(s), "mu + kappa_n sigma");
    }
    vp_reach("end");
}
VP_CASE(gp_ucb_01, 'R', "delta 0.1, iterations 0, 1, 2, 3, 10, 1000, 1 to 3 inputs, 1 or 2 outputs, three aggregations, any prediction") { gpucb<1>(); }
VP_CASE(gp_ucb_05, 'R', "delta 0.5") { gpucb<5>(); }
VP_CASE(gp_ucb_10, 'R', "delta 1") { gpucb<10>(); }
static double Phi(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.)); }
static double phi(double z) { return std::exp(-0.5 * z * z) / std::sqrt(2 * M_PI); }
static void ei(int nmax)
{
    agg = vp_choice(3, "aggregation");
    int D = agg ? 2 : 1;
    jitter = vp_sym("xi", 0);
    Model m(1, D);
    int n = vp_choice(nmax + 1, "samples");
    for (int i = 0; i < n; i++)
        m.xs.push_back(m.pt(i));
    m.zero_var = vp_choice(2, "no predicted deviation");
    acqui::EI<Params<1>, Model> a(m, 3);
    for (int step = 0; step < 2; step++) {
        auto one = [&]() -> bool {
            V x = m.pt(100 + step);
            double r = std::get<0>(a(x, A(), false));
            if (m.zero_var || m.xs.empty()) {
                vp_check_eq(r, 0., "zero without deviation or without data");
                return true;
            }
            double s = std::sqrt(m.sigma(x));
            if (s < 1e-9) // threshold of the "no deviation" case
                return false;
            double best = afun(m.mu(m.xs[0]));
            for (auto& v : m.xs) {
                double b = afun(m.mu(v));
                if (best < b)
                    best = b;
            }
            double X = afun(m.mu(x)) - best - jitter, Z = X / s;
            vp_check_eq(r, X * Phi(Z) + s * phi(Z), "(mu - f+ - xi) Phi(Z) + sigma phi(Z)");
            // Phi' = phi and Phi' ' = -Z phi give Z Phi(Z) + phi(Z) >= 0 (lemma on erfc, not on the code)
            vp_assume(Z * Phi(Z) + phi(Z) >= 0);
            vp_check_le(0., r / s, "never negative");
            return true;
        };
        if (!one())
            return;
        // the model learns one more sample; the same acquisition object follows
        m.version++;
        m.xs.push_back(m.pt(50));
    }
    vp_reach("end");
}
VP_CASE(expected_improvement, 'R', "0 to 2 samples then one more, 1 or 2 outputs, three aggregations, any prediction, any jitter >= 0") { ei(2); }
VP_CASE(t_expected_improvement_4, 'R', "0 to 4 samples then one more") { ei(4); }
