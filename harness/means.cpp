// C11: prior means.
#include "gp_common.hpp"
#include <limbo/model/multi_gp.hpp>
using namespace gpc;
using namespace limbo;
static double c0;
struct Params {
    struct mean_constant {
        static double constant() { return c0; }
    };
};
struct Model { // what a mean may ask its model
    V mo;
    V mean_observation() const { return mo; }
};
// a user mean with two parameters: value u_o(x) * p0 + p1^2 * w_o
struct User {
    size_t d;
    V p;
    static V& p0() // the same initial parameters in every instance
    {
        static V v = sym_vec("up", 2);
        return v;
    }
    User(size_t dim_out = 1) : d(dim_out), p(p0()) {}
    template <typename GP>
    V operator()(const V& x, const GP&) const
    {
        V r(d);
        for (size_t o = 0; o < d; o++)
            r(o) = x(0) * (o + 1.) * p(0) + p(1) * p(1) * (o + 2.);
        return r;
    }
    template <typename GP>
    M grad(const V& x, const GP&) const
    {
        M g(d, 2);
        for (size_t o = 0; o < d; o++) {
            g(o, 0) = x(0) * (o + 1.);
            g(o, 1) = 2 * p(1) * (o + 2.);
        }
        return g;
    }
    size_t h_params_size() const { return 2; }
    V h_params() const { return p; }
    void set_h_params(const V& q) { p = q; }
};
static void eq(const V& a, const V& b, const char* l)
{
    vp_check(a.size() == b.size(), "vector size");
    for (int i = 0; i < a.size(); i++)
        vp_check_eq(a(i), b(i), l);
}
template <typename Mean>
static void check_grad(const Mean& m, const V& x, const Model& gp, int D)
{
    M g = m.grad(x, gp);
    int n = m.h_params_size();
    vp_check(g.rows() == D && g.cols() == n, "gradient shape");
    for (int q = 0; q < n; q++)
        for (int o = 0; o < D; o++) {
            double r = vp_derivative([&](double e) {
                Mean m2(m);
                V p = m.h_params();
                p(q) = p(q) + e;
                m2.set_h_params(p);
                return m2(x, gp)(o);
            });
            vp_check_eq(g(o, q), r, "gradient entry = derivative", 1e-4);
        }
}
VP_CASE(constant, 'R', "1 to 3 outputs, any configured constant and any parameter")
{
    int D = 1 + vp_choice(3, "outputs");
    c0 = vp_sym("c0");
    Model gp{sym_vec("mo", D)};
    mean::Constant<Params> m(D);
    V x = sym_vec("x", 2);
    vp_check(m.h_params_size() == 1, "one parameter");
    eq(m.h_params(), V::Constant(1, c0), "configured constant");
    eq(m(x, gp), V::Constant(D, c0), "configured value in every output");
    V p = sym_vec("p", 1);
    m.set_h_params(p);
    eq(m.h_params(), p, "parameters read back");
    eq(m(x, gp), V::Constant(D, p(0)), "value in every output");
    check_grad(m, x, gp, D);
    vp_reach("end");
}
VP_CASE(null_and_data, 'R', "1 to 3 outputs, any mean observation")
{
    int D = 1 + vp_choice(3, "outputs");
    Model gp{sym_vec("mo", D)};
    V x = sym_vec("x", 2);
    mean::NullFunction<Params> z(D);
    eq(z(x, gp), V::Zero(D), "zero in every output");
    vp_check(z.h_params_size() == 0 && z.h_params().size() == 0, "no parameter");
    mean::Data<Params> d(D);
    eq(d(x, gp), gp.mo, "mean observation");
    vp_check(d.h_params_size() == 0 && d.h_params().size() == 0, "no parameter");
    gp.mo = sym_vec("mo2", D);
    eq(d(x, gp), gp.mo, "current mean observation");
    vp_reach("end");
}
// affine transform [A b] of the inner mean
template <typename Inner>
static void ard(int Dmax)
{
    int D = 1 + vp_choice(Dmax, "outputs");
    c0 = vp_sym("c0");
    Model gp{sym_vec("mo", D)};
    V x = sym_vec("x", 2);
    Inner in(D);
    mean::FunctionARD<Params, Inner> m(D);
    int nt = D * (D + 1), ni = in.h_params_size();
    vp_check((int)m.h_params_size() == nt + ni, "number of parameters");
    eq(m(x, gp), in(x, gp), "initially the inner mean itself");
    V p = sym_vec("p", nt + ni);
    if (vp_choice(2, "set twice"))
        m.set_h_params(sym_vec("old", nt + ni));
    m.set_h_params(p);
    eq(m.h_params(), p, "parameters read back");
    if (ni)
        in.set_h_params(p.tail(ni));
    V iv = in(x, gp), r(D);
    for (int o = 0; o < D; o++) {
        double s = p(o * (D + 1) + D);
        for (int k = 0; k < D; k++)
            s += p(o * (D + 1) + k) * iv(k);
        r(o) = s;
    }
    eq(m(x, gp), r, "affine transform of the inner mean");
    check_grad(m, x, gp, D);
    vp_reach("end");
}
struct DataG : mean::Data<Params> {
    DataG(size_t d = 1) : mean::Data<Params>(d) {}
};
VP_CASE(ard_user, 'R', "affine transform of a user mean with 2 parameters, 1 to 3 outputs, all parameters") { ard<User>(3); }
VP_CASE(ard_constant, 'R', "affine transform of the constant mean, 1 to 3 outputs") { ard<mean::Constant<Params>>(3); }
VP_CASE(ard_null, 'R', "affine transform of the zero mean, 1 to 3 outputs") { ard<mean::NullFunction<Params>>(3); }
VP_CASE(ard_data, 'R', "affine transform of the data mean, 1 to 3 outputs") { ard<mean::Data<Params>>(3); }

// the data mean of a real model after every kind of change of its data
template <typename GP>
static void data_mean(int D, int n)
{
    W().init(n, false, false);
    auto y = sym_obs("y", n, D);
    std::vector<V> xs, ys;
    GP gp(1, D);
    V q = pt(100, 1);
    mean::Data<Params> m(D);
    eq(m(q, gp), V::Zero(D), "zero without data");
    int used = 0;
    auto take = [&]() {
        xs.push_back(pt(used, 1));
        ys.push_back(y[used]);
        used++;
    };
    for (int s = 0; s < 3; s++) {
        int op = vp_choice(3, "operation");
        if (op == 2) {
            if (!used)
                return vp_cut("nothing to do");
            gp.recompute(vp_choice(2, "update mean"));
        }
        else if (op == 1) {
            if (used == n)
                break;
            take();
            gp.add_sample(xs.back(), ys.back());
        }
        else {
            if (used == n)
                break;
            take();
            if (vp_choice(2, "replace all data") && xs.size() > 1) {
                xs.erase(xs.begin());
                ys.erase(ys.begin());
            }
            gp.compute(xs, ys);
        }
        V a(D);
        for (int o = 0; o < D; o++) {
            a(o) = 0;
            for (auto& v : ys)
                a(o) += v(o) / (double)ys.size();
        }
        eq(gp.mean_observation(), a, "mean observation");
        eq(m(q, gp), a, "data mean = average of the current observations");
    }
    vp_reach("end");
}
VP_CASE(data_of_gp, 'R', "GP, 2 outputs, up to 3 operations (batch fit, addition, refit), any observations") { data_mean<model::GP<Params, SymKernel, SymMean>>(2, 3); }
VP_CASE(data_of_multi_gp, 'R', "MultiGP, 2 outputs, up to 3 operations") { data_mean<model::MultiGP<Params, model::GP, SymKernel, SymMean>>(2, 3); }
