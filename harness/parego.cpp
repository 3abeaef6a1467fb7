// C25: ParEGO: one model of the scalarised observations.
#include "bo_common.hpp"
#include <limbo/experimental/bayes_opt/parego.hpp>
#include <limbo/experimental/model/gp_parego.hpp>
using namespace boc;
using namespace limbo;
static double rho_ = 0.05;
static double noise_ = 0.0625;
struct PP : boc::Params {
    struct model_gp_parego {
        static double rho() { return rho_; }
    };
    struct kernel : public defaults::kernel {
        static double noise() { return noise_; }
    };
    struct kernel_exp : public defaults::kernel_exp {
    };
};
struct Default {
    struct model_gp_parego : public experimental::defaults::model_gp_parego {
    };
};
// observation k < m is the k-th unit vector: its scalar is (1+rho) times the weight of objective k
static std::vector<V> observations(int n, int m)
{
    std::vector<V> y;
    for (int i = 0; i < n; i++) {
        V v(m);
        for (int k = 0; k < m; k++)
            v(k) = i < m ? (i == k ? 1. : 0.) : vp_sym(nm("y", i, k).c_str());
        y.push_back(v);
    }
    return y;
}
static void check_scalars(const std::vector<V>& s, const std::vector<V>& y, int m)
{
    vp_check(s.size() == y.size(), "one scalar per observation");
    if (s.size() != y.size())
        return;
    V w(m);
    double sum = 0;
    for (int k = 0; k < m; k++) {
        vp_check(s[k].size() == 1, "scalar");
        w(k) = s[k](0) / (1 + rho_);
        vp_check_le(0, w(k), "weights are not negative");
        sum += w(k);
    }
    vp_check_eq(sum, 1, "the weights sum to one");
    for (size_t i = m; i < y.size(); i++) {
        double lin = 0, mx = w(0) * y[i](0);
        for (int k = 0; k < m; k++) {
            lin += w(k) * y[i](k);
            if (w(k) * y[i](k) > mx)
                mx = w(k) * y[i](k);
        }
        vp_check(s[i].size() == 1, "scalar");
        vp_check_eq(s[i](0), mx + rho_ * lin, "augmented weighted Tchebycheff value");
    }
}
struct Base {
    int di = -1, dn = -1, fits = 0;
    std::vector<V> _samples, o;
    Base() {}
    Base(int a, int b) : di(a), dn(b) {}
    void compute(const std::vector<V>& x, const std::vector<V>& y)
    {
        std::vector<V> a = x, b = y;
        _samples = a;
        o = b;
        fits++;
    }
};
typedef experimental::model::GPParego<PP, Base> GPP;
VP_CASE(scalars, 'R', "2 or 3 objectives, one observation with any values besides the ones that reveal the weights; compute at once")
{
    rho_ = vp_sym("rho", 0, 1);
    int m = 2 + vp_choice(2, "objectives"), n = m + 1;
    auto y = observations(n, m);
    std::vector<V> x;
    for (int i = 0; i < n; i++)
        x.push_back(V::Constant(2, i));
    GPP g(2, m);
    vp_check(g.di == 2 && g.dn == 1, "one-dimensional model");
    g.compute(x, y);
    vp_check(g._samples.size() == x.size(), "all samples");
    for (int i = 0; i < n; i++)
        same(g._samples[i], x[i], "samples");
    check_scalars(g.o, y, m);
    vp_reach("end");
}
VP_CASE(histories, 'R', "2 objectives, compute of k samples then one by one up to 4, or all one by one from an empty model: all observations scalarised with the same weights each time")
{
    rho_ = 0.05;
    int m = 2, n = 4, k = vp_choice(5, "at once");
    auto y = observations(n, m);
    std::vector<V> x;
    for (int i = 0; i < n; i++)
        x.push_back(V::Constant(1, i));
    GPP g;
    if (vp_choice(2, "dimensions given"))
        g = GPP(1, m);
    if (k)
        g.compute(std::vector<V>(x.begin(), x.begin() + k), std::vector<V>(y.begin(), y.begin() + k));
    for (int i = k; i < n; i++) {
        g.add_sample(x[i], y[i]);
        vp_check((int)g._samples.size() == i + 1 && (int)g.o.size() == i + 1, "every sample is in the model");
    }
    for (int i = 0; i < n && i < (int)g._samples.size(); i++)
        same(g._samples[i], x[i], "samples");
    check_scalars(g.o, y, m);
    vp_reach("end");
}
VP_CASE(default_rho, 'R', "documented default")
{
    vp_check_eq(Default::model_gp_parego::rho(), 0.05, "0.05");
    vp_reach("end");
}
VP_CASE(real_model, 'R', "2 objectives, 3 observations, with limbo's GP: predictions of a plain GP of the scalars, batch or incremental")
{
    rho_ = 0.05;
    typedef model::GP<PP, kernel::Exp<PP>, mean::Data<PP>> G;
    experimental::model::GPParego<PP, G> g(1, 2);
    auto y = observations(3, 2);
    std::vector<V> x;
    for (int i = 0; i < 3; i++)
        x.push_back(V::Constant(1, 0.25 * i));
    if (vp_choice(2, "incremental")) {
        g.compute({x[0], x[1]}, {y[0], y[1]});
        g.add_sample(x[2], y[2]);
    }
    else
        g.compute(x, y);
    std::vector<V> s = g.observations();
    check_scalars(s, y, 2);
    G r(1, 1);
    r.compute(x, s);
    V q = V::Constant(1, 0.3);
    vp_check(g.dim_out() == 1 && g.nb_samples() == 3, "one output");
    vp_check_eq(g.mu(q)(0), r.mu(q)(0), "mean");
    vp_check_eq(g.sigma(q), r.sigma(q), "variance");
    vp_reach("end");
}
// the optimiser around it
struct Rec : Model {
    std::vector<V> _samples;
    Rec() {}
    Rec(int a, int b) : Model(a, b) {}
    void compute(const std::vector<V>& x, const std::vector<V>& y)
    {
        std::vector<V> a = x;
        Model::compute(a, y);
        _samples = a;
        last = y;
        dims = din;
    }
    static std::vector<V> last;
    static int dims;
};
std::vector<V> Rec::last;
int Rec::dims = 0;
typedef experimental::model::GPParego<PP, Rec> M1;
template <typename B>
static void run_parego()
{
    B bo;
    bo.optimize(Fun(), [](const V& y) { return y(0); });
    int n = 2 + C().iters;
    vp_check((int)bo.observations().size() == n && (int)L().evals.size() == n, "number of evaluations");
    std::vector<V> y;
    for (auto& e : L().evals)
        y.push_back(e.y);
    for (int i = 0; i < n && i < (int)bo.observations().size(); i++)
        same(bo.observations()[i], y[i], "the optimiser records the raw observations");
    check_scalars(Rec::last, y, 2);
    vp_check(Rec::dims == 1, "input dimension");
}
VP_CASE(optimiser, 'R', "Parego with 2 initial points and 0..2 iterations, 2 objectives, named arguments in several orders: what the model is taught")
{
    rho_ = 0.05;
    C().dout = 2;
    C().init = 2;
    C().iters = vp_choice(3, "iterations");
    Fun::value = [](int k, int o) { return k < 2 ? (k == o ? 1. : 0.) : vp_sym(nm("y", k, o).c_str()); };
    typedef boost::fusion::vector<stop::MaxIterations<PP>> Stop;
    namespace eb = experimental::bayes_opt;
    int k = vp_choice(3, "order");
    if (k == 0)
        run_parego<eb::Parego<PP, eb::parego_modelfun<Rec>, acquifun<Acqui<PP, M1>>, initfun<Init>, acquiopt<AcquiOpt>, stopcrit<Stop>>>();
    if (k == 1)
        run_parego<eb::Parego<PP, acquifun<Acqui<PP, M1>>, initfun<Init>, acquiopt<AcquiOpt>, stopcrit<Stop>, eb::parego_modelfun<Rec>>>();
    if (k == 2)
        run_parego<eb::Parego<PP, stopcrit<Stop>, acquiopt<AcquiOpt>, eb::parego_modelfun<Rec>, initfun<Init>, acquifun<Acqui<PP, M1>>>>();
    vp_reach("end");
}
