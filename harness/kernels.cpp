// C09: kernels equal their documented formulas; C10: their gradients are the derivatives.
#include "vp.hpp"
#include <Eigen/Core>
#include <limbo/kernel/exp.hpp>
#include <limbo/kernel/kernel.hpp>
#include <limbo/kernel/matern_five_halves.hpp>
#include <limbo/kernel/matern_three_halves.hpp>
#include <limbo/kernel/squared_exp_ard.hpp>
using namespace limbo;
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;
static double n0, s0, l0; // configured initial values
template <bool Opt, int Kc>
struct Params {
    struct kernel {
        static double noise() { return n0; }
        static bool optimize_noise() { return Opt; }
    };
    struct kernel_exp {
        static double sigma_sq() { return s0; }
        static double l() { return l0; }
    };
    struct kernel_maternfivehalves : kernel_exp {
    };
    struct kernel_maternthreehalves : kernel_exp {
    };
    struct kernel_squared_exp_ard {
        static int k() { return Kc; }
        static double sigma_sq() { return s0; }
    };
};
static std::string nm(const char* p, int i) { return p + std::to_string(i); }
static V vec(const char* p, int d)
{
    V v(d);
    for (int i = 0; i < d; i++)
        v(i) = vp_sym(nm(p, i).c_str());
    return v;
}
enum Kind { EXP,
    M32,
    M52,
    ARD };
// documented covariance without noise; l, s are the length scales and sigma^2
static double formula(Kind kd, const V& x, const V& y, const V& p, int Kc)
{
    int d = x.size();
    double r2 = 0;
    for (int i = 0; i < d; i++)
        r2 += (x(i) - y(i)) * (x(i) - y(i));
    if (kd == ARD) {
        double z = 0;
        for (int i = 0; i < d; i++)
            z += (x(i) - y(i)) * (x(i) - y(i)) * std::exp(-2 * p(i));
        for (int k = 0; k < Kc; k++) {
            double s = 0;
            for (int i = 0; i < d; i++)
                s += p((k + 1) * d + i) * (x(i) - y(i));
            z += s * s;
        }
        return std::exp(2 * p(d + d * Kc)) * std::exp(-0.5 * z);
    }
    double s = std::exp(2 * p(1)), r = std::sqrt(r2) * std::exp(-p(0));
    if (kd == EXP)
        return s * std::exp(-0.5 * r * r);
    if (kd == M32)
        return s * (1 + std::sqrt(3.) * r) * std::exp(-std::sqrt(3.) * r);
    return s * (1 + std::sqrt(5.) * r + 5. / 3. * r * r) * std::exp(-std::sqrt(5.) * r);
}
static int idx[5][2] = {{-1, -2}, {0, 0}, {3, 3}, {0, 1}, {2, 0}};
template <typename K, bool Opt, int Kc>
static void values(Kind kd, int dmax, bool dflt)
{
    n0 = vp_pos("noise0");
    s0 = vp_pos("sigma0");
    l0 = kd == ARD ? 1 : vp_pos("l0");
    int d = 1 + vp_choice(dmax, "dim"), np = kd == ARD ? d + d * Kc + 1 : 2;
    K k(d);
    vp_check((int)k.h_params_size() == np + Opt, "number of parameters");
    V p(np + Opt);
    double noise = n0;
    if (dflt) { // configured values
        V h = k.h_params();
        p.setZero();
        if (kd != ARD)
            p(0) = std::log(l0);
        p(np - 1) = 0.5 * std::log(s0);
        if (Opt)
            p(np) = 0.5 * std::log(n0);
        vp_check(h.size() == p.size(), "parameter vector size");
        for (int i = 0; i < p.size(); i++)
            vp_check_eq(h(i), p(i), "initial parameters");
    }
    else {
        p = vec("p", np + Opt);
        if (vp_choice(2, "set twice")) // earlier settings leave no trace
            k.set_h_params(vec("old", np + Opt));
        k.set_h_params(p);
        V h = k.h_params();
        vp_check(h.size() == p.size(), "parameter vector size");
        for (int i = 0; i < p.size(); i++)
            vp_check_eq(h(i), p(i), "parameters read back");
        if (Opt)
            noise = std::exp(2 * p(np));
    }
    vp_check_eq(k.noise(), noise, "noise");
    V x = vec("x", d), y = vp_choice(2, "second point is the first") ? x : vec("y", d);
    double f = formula(kd, x, y, p, Kc);
    int c = vp_choice(5, "sample indices");
    double v = c ? k(x, y, idx[c][0], idx[c][1]) : k(x, y);
    if (c == 1 || c == 2) {
        // the noise plus a jitter of at most 1e-7
        vp_check_le(f + noise, v, "noise added to a sample's covariance with itself");
        vp_check_le(v, f + noise + 1e-7, "noise added once");
    }
    else
        vp_check_eq(v, f, "documented covariance");
    double w = c ? k(y, x, idx[c][1], idx[c][0]) : k(y, x);
    vp_check_eq(v, w, "symmetry");
    vp_reach("end");
}
template <typename K, bool Opt, int Kc>
static void gradient(Kind kd, int dmax)
{
    n0 = 0.01;
    s0 = l0 = 1;
    int d = 1 + vp_choice(dmax, "dim"), np = kd == ARD ? d + d * Kc + 1 : 2;
    V p = vec("p", np + Opt), x = vec("x", d), y = vp_choice(2, "second point is the first") ? x : vec("y", d);
    K k(d);
    k.set_h_params(p);
    int c = vp_choice(5, "sample indices"), i = idx[c][0], j = idx[c][1];
    V g = c ? k.grad(x, y, i, j) : k.grad(x, y);
    vp_check(g.size() == np + Opt, "gradient size");
    for (int q = 0; q < np + Opt; q++) {
        double r = vp_derivative([&](double e) {
            K k2(d);
            V p2 = p;
            p2(q) = p2(q) + e;
            k2.set_h_params(p2);
            return k2(x, y, i, j);
        });
        vp_check_eq(g(q), r, "gradient entry = derivative", 1e-4);
    }
    V g2 = k.grad(y, x, j, i);
    for (int q = 0; q < np + Opt; q++)
        vp_check_eq(g(q), g2(q), "gradient is symmetric in the points");
    vp_reach("end");
}
#define B "points of 1 to 3 dimensions, all real coordinates and (log-space) parameters, equal points included, 5 index patterns"
#define BK "points of 1 or 2 dimensions (ARD low-rank), all real coordinates and parameters, 5 index patterns"
#define TWO(N, KD, KT, KC, D, BB)                                                                                            \
    VP_CASE(val_##N, 'R', BB " ; noise not optimised") { values<kernel::KT<Params<false, KC>>, false, KC>(KD, D, false); }  \
    VP_CASE(val_##N##_noise, 'R', BB "; noise optimised") { values<kernel::KT<Params<true, KC>>, true, KC>(KD, D, false); } \
    VP_CASE(val_##N##_init, 'R', BB "; configured initial parameters, all positive values") { values<kernel::KT<Params<true, KC>>, true, KC>(KD, D, true); } \
    VP_CASE(grad_##N, 'R', BB "; noise not optimised") { gradient<kernel::KT<Params<false, KC>>, false, KC>(KD, D); }       \
    VP_CASE(grad_##N##_noise, 'R', BB "; noise optimised") { gradient<kernel::KT<Params<true, KC>>, true, KC>(KD, D); }
TWO(exp, EXP, Exp, 0, 3, B)
TWO(matern32, M32, MaternThreeHalves, 0, 3, B)
TWO(matern52, M52, MaternFiveHalves, 0, 3, B)
TWO(ard, ARD, SquaredExpARD, 0, 3, B)
TWO(ard1, ARD, SquaredExpARD, 1, 2, BK)
TWO(ard2, ARD, SquaredExpARD, 2, 2, BK)
VP_CASE(t_val_ard2_3d, 'R', "3 dimensions, 2 low-rank columns") { values<kernel::SquaredExpARD<Params<true, 2>>, true, 2>(ARD, 3, false); }
VP_CASE(t_grad_ard2_3d, 'R', "3 dimensions, 2 low-rank columns") { gradient<kernel::SquaredExpARD<Params<true, 2>>, true, 2>(ARD, 3); }
