// C28: the sparse pseudo-input Gaussian process.
#define USE_NLOPT
#include "vp.hpp"
#include <Eigen/Core>
#include <limbo/limbo.hpp>
#include <limbo/experimental/model/spgp.hpp>
using namespace limbo;
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;
static std::string nm(const std::string& p, int i, int j = -1) { return p + std::to_string(i) + (j >= 0 ? "_" + std::to_string(j) : ""); }
struct Cfg {
    double percent = 10;
    int min_m = 1;
    V w; // what the optimiser returns
    V init; // what it was given
    int calls = 0;
    bool bounded = true;
    std::vector<std::pair<V, double>> asked; // value it was offered at these
    std::vector<V> grads;
    V at; // where it evaluates
    bool eval = false;
};
static Cfg& C()
{
    static Cfg c;
    return c;
}
// the draws of the shuffle of the samples
static int& draws()
{
    static int d = 1;
    return d;
}
extern "C" int rand(void) noexcept { return draws() > 1 ? vp_choice(draws(), "draw") : 0; }
extern "C" void srand(unsigned) noexcept {}
struct P {
    struct model_spgp : public defaults::model_spgp {
        static double samples_percent() { return C().percent; }
        static int min_m() { return C().min_m; }
        static double jitter() { return 0.25; }
        static double sig() { return 0.125; }
    };
    struct mean_constant {
        static double constant() { return 0.75; }
    };
    struct kernel : public defaults::kernel {
    };
    struct kernel_exp : public defaults::kernel_exp {
    };
};
struct Opt {
    template <typename F>
    V operator()(const F& f, const V& init, bool bounded) const
    {
        C().calls++;
        C().init = init;
        C().bounded = bounded;
        if (C().eval) {
            auto r = f(C().at, true);
            C().asked.push_back({C().at, opt::fun(r)});
            C().grads.push_back(opt::grad(r));
        }
        return C().w;
    }
};
// a mean that depends on the place and on the data
struct Mean {
    double p = 0.5;
    static bool& none()
    {
        static bool b = false;
        return b;
    }
    Mean(size_t = 1) {}
    template <typename X, typename GP>
    V operator()(const X& x, const GP& gp) const
    {
        if (none())
            return V::Zero(1);
        return p * gp.mean_observation() + V::Constant(1, x(0));
    }
};
typedef model::SPGP<P, kernel::Exp<P>, Mean, Opt> GP;
struct Peek : GP {
    using GP::GP;
    size_t m() const { return _m; }
    void data(const std::vector<V>& x, const std::vector<V>& y) { _init(x, y); }
    double value(const V& w) const { return opt::fun(_likelihood(w, false)); }
    opt::eval_t both(const V& w) const { return _likelihood(w, true); }
};
// symbolic parameters: pseudo-inputs (column by column), log b, log c, log sig
// free: 1 pseudo-inputs, 2 the first pseudo-input, 4 b, 8 c, 16 sig
enum { XB = 1, X0 = 2, B = 4, CC = 8, SIG = 16, ALL = 31 };
static V weights(int m, int d, int free, const std::string& p = "w")
{
    V w((m + 1) * d + 2);
    for (int i = 0; i < w.size(); i++) {
        bool f = i < m * d ? (free & XB) || (i == 0 && (free & X0)) : i < (m + 1) * d ? free & B : i == (m + 1) * d ? free & CC : free & SIG;
        w(i) = f ? vp_sym(nm(p, i).c_str(), -2, 2) : 0.25 + 0.5 * i - 0.125 * i * i;
    }
    return w;
}
struct Ref {
    int n, m, d;
    M x, xb;
    V y, b;
    double c, sig, del = 0.25;
    Ref(const std::vector<V>& xs, const V& y, const V& w, int m) : n(xs.size()), m(m), d(xs[0].size()), y(y)
    {
        x.resize(n, d);
        for (int i = 0; i < n; i++)
            x.row(i) = xs[i].transpose();
        xb.resize(m, d);
        b.resize(d);
        for (int j = 0; j < d; j++) {
            for (int i = 0; i < m; i++)
                xb(i, j) = w(j * m + i);
            b(j) = std::exp(w(m * d + j));
        }
        c = std::exp(w((m + 1) * d));
        sig = std::exp(w((m + 1) * d + 1));
    }
    template <typename A, typename B>
    double k(const A& u, const B& v) const
    {
        double s = 0;
        for (int j = 0; j < d; j++)
            s += b(j) * (u(j) - v(j)) * (u(j) - v(j));
        return c * std::exp(-0.5 * s);
    }
    static double det(const M& a)
    {
        int n = a.rows();
        if (n == 1)
            return a(0, 0);
        double r = 0;
        for (int k = 0; k < n; k++)
            r += (k % 2 ? -1 : 1) * a(0, k) * det(minor(a, 0, k));
        return r;
    }
    static M minor(const M& a, int r, int c)
    {
        int n = a.rows();
        M s(n - 1, n - 1);
        for (int u = 0, p = 0; u < n; u++)
            if (u != r) {
                for (int v = 0, q = 0; v < n; v++)
                    if (v != c)
                        s(p, q++) = a(u, v);
                p++;
            }
        return s;
    }
    static M inv(const M& a)
    {
        int n = a.rows();
        M r(n, n);
        double D = det(a);
        if (n == 1)
            r(0, 0) = 1 / D;
        else
            for (int i = 0; i < n; i++)
                for (int j = 0; j < n; j++)
                    r(i, j) = ((i + j) % 2 ? -1 : 1) * det(minor(a, j, i)) / D;
        return r;
    }
    M kmm() const
    {
        M r(m, m);
        for (int i = 0; i < m; i++)
            for (int j = 0; j < m; j++)
                r(i, j) = k(xb.row(i), xb.row(j)) + (i == j ? del : 0);
        return r;
    }
    M kmn() const
    {
        M r(m, n);
        for (int i = 0; i < m; i++)
            for (int j = 0; j < n; j++)
                r(i, j) = k(xb.row(i), x.row(j));
        return r;
    }
    M cov() const // of the observations
    {
        M K = kmn(), I = inv(kmm()), r(n, n);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++) {
                r(i, j) = 0;
                for (int u = 0; u < m; u++)
                    for (int v = 0; v < m; v++)
                        r(i, j) += K(u, i) * I(u, v) * K(v, j);
                if (i == j)
                    r(i, j) = c + sig;
            }
        return r;
    }
    double lik() const
    {
        M S = cov(), I = inv(S);
        double s = -0.5 * std::log(det(S)) - 0.5 * n * std::log(2 * M_PI);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++)
                s -= 0.5 * y(i) * I(i, j) * y(j);
        return s;
    }
    // published predictor
    void predict(const V& v, double& mu, double& s2) const
    {
        M K = kmn(), Km = kmm(), I = inv(Km);
        V lam(n), ks(m);
        for (int i = 0; i < n; i++) {
            lam(i) = c + sig;
            for (int u = 0; u < m; u++)
                for (int w = 0; w < m; w++)
                    lam(i) -= K(u, i) * I(u, w) * K(w, i);
        }
        M Q(m, m);
        V r(m);
        for (int u = 0; u < m; u++) {
            ks(u) = k(xb.row(u), v);
            r(u) = 0;
            for (int i = 0; i < n; i++)
                r(u) += K(u, i) * y(i) / lam(i);
            for (int w = 0; w < m; w++) {
                Q(u, w) = Km(u, w);
                for (int i = 0; i < n; i++)
                    Q(u, w) += K(u, i) * K(w, i) / lam(i);
            }
        }
        M Qi = inv(Q);
        mu = 0;
        s2 = c + sig;
        for (int u = 0; u < m; u++)
            for (int w = 0; w < m; w++) {
                mu += ks(u) * Qi(u, w) * r(w);
                s2 -= ks(u) * (I(u, w) - Qi(u, w)) * ks(w);
            }
    }
};
static std::vector<V> points(int n, int d, bool sym)
{
    std::vector<V> r;
    for (int i = 0; i < n; i++) {
        V x(d);
        for (int j = 0; j < d; j++)
            x(j) = sym ? vp_sym(nm("x", i, j).c_str(), -2, 2) : 0.5 * i * i - 0.25 * j * (i + 1) + 0.125 * i * j;
        r.push_back(x);
    }
    return r;
}
static std::vector<V> values(int n)
{
    std::vector<V> r;
    for (int i = 0; i < n; i++)
        r.push_back(V::Constant(1, vp_sym(nm("y", i).c_str(), -4, 4)));
    return r;
}
static V centred(const std::vector<V>& x, const std::vector<V>& y, double p = 0.5)
{
    V r(x.size());
    if (Mean::none()) {
        for (size_t i = 0; i < x.size(); i++)
            r(i) = y[i](0);
        return r;
    }
    double s = 0;
    for (auto& v : y)
        s += v(0);
    for (size_t i = 0; i < x.size(); i++)
        r(i) = y[i](0) - (p * s / y.size() + x[i](0));
    return r;
}
static double prior(const V& v, const std::vector<V>& y, double p = 0.5)
{
    double s = 0;
    for (auto& o : y)
        s += o(0);
    return p * s / y.size() + v(0);
}
static void setup(int m, double percent = 0)
{
    C().percent = percent;
    C().min_m = m;
}
static void likelihood(int n, int m, int d, bool sym, int free)
{
    Mean::none() = true;
    setup(m);
    auto x = points(n, d, sym);
    auto y = values(n);
    C().w = weights(m, d, free);
    Peek gp;
    gp.data(x, y);
    vp_check(gp.m() == (size_t)m, "number of pseudo-inputs");
    Ref r(x, centred(x, y), C().w, m);
    vp_check_eq(gp.value(C().w), r.lik(), "likelihood");
    vp_reach("end");
}
VP_CASE(lik_1, 'R', "1 sample, 1 pseudo-input, 1-D; places, observation and parameters free") { likelihood(1, 1, 1, true, ALL); }
VP_CASE(lik_2, 'R', "2 samples, 1 pseudo-input, 1-D; observations, signal and noise variance free") { likelihood(2, 1, 1, false, CC | SIG); }
VP_CASE(lik_n, 'R', "2 to 5 samples, 1 to 3 pseudo-inputs, 1-D and 2-D; observations free")
{
    int n = 2 + vp_choice(4, "samples"), m = 1 + vp_choice(std::min(n, 3), "pseudo-inputs"), d = 1 + vp_choice(2, "dimensions");
    likelihood(n, m, d, false, 0);
}
static void gradient(int n, int m, int d, bool sym, int free)
{
    Mean::none() = true;
    setup(m);
    auto x = points(n, d, sym);
    auto y = values(n);
    C().w = weights(m, d, free);
    Peek gp;
    gp.data(x, y);
    auto e = gp.both(C().w);
    V g = opt::grad(e);
    vp_check(g.size() == C().w.size(), "one entry per parameter");
    vp_check_eq(opt::fun(e), gp.value(C().w), "the same value with and without gradient");
    int k = vp_choice(g.size(), "parameter");
    double df = vp_derivative([&](double t) { V w = C().w; w(k) += t; return gp.value(w); });
    vp_check_eq(g(k), df, "likelihood gradient", 1e-4);
    vp_reach("end");
}
VP_CASE(grad_2, 'R', "2 samples, 1 pseudo-input, 1-D; observations, signal and noise variance free; all entries") { gradient(2, 1, 1, false, CC | SIG); }
VP_CASE(grad_n, 'R', "2 to 5 samples, 1 to 3 pseudo-inputs, 1-D and 2-D; observations free; all entries")
{
    int n = 2 + vp_choice(4, "samples"), m = 1 + vp_choice(std::min(n, 3), "pseudo-inputs"), d = 1 + vp_choice(2, "dimensions");
    gradient(n, m, d, false, 0);
}
static V place(int d, const std::string& p = "v")
{
    V v(d);
    for (int j = 0; j < d; j++)
        v(j) = vp_sym(nm(p, j).c_str(), -2, 2);
    return v;
}
// what the model answers, against the published predictor for the parameters last returned by the optimiser
static void answers(const GP& gp, const std::vector<V>& x, const std::vector<V>& y, int m, const V& v, double p = 0.5)
{
    Ref r(x, centred(x, y, p), C().w, m);
    double mu, s2;
    r.predict(v, mu, s2);
    auto q = gp.query(v);
    vp_check(std::get<0>(q).size() == 1, "one output");
    vp_check_eq(std::get<0>(q)(0), mu + prior(v, y, p), "predicted mean");
    vp_check_eq(std::get<1>(q), s2, "predicted variance");
    vp_check_eq(gp.sigma(v), s2, "predicted variance alone");
    vp_check_eq(gp.mu(v.transpose())(0, 0), mu + prior(v, y, p), "predicted mean alone");
}
static void prediction(int n, int m, int d, bool sym, int free)
{
    setup(m);
    auto x = points(n, d, sym);
    auto y = values(n);
    C().w = weights(m, d, free);
    Peek gp;
    gp.compute(x, y);
    answers(gp, x, y, m, place(d));
    vp_reach("end");
}
VP_CASE(pred_1, 'R', "1 sample, 1 pseudo-input, 1-D; everything free") { prediction(1, 1, 1, true, ALL); }
VP_CASE(pred_2, 'R', "2 samples, 1 pseudo-input, 1-D; everything free") { prediction(2, 1, 1, true, ALL); }
VP_CASE(pred_n, 'R', "2 to 5 samples, 1 to 3 pseudo-inputs, 1-D and 2-D; observations and place free")
{
    int n = 2 + vp_choice(4, "samples"), m = 1 + vp_choice(std::min(n, 3), "pseudo-inputs"), d = 1 + vp_choice(2, "dimensions");
    prediction(n, m, d, false, 0);
}
VP_CASE(pred_many, 'R', "4 samples, 2 pseudo-inputs, 2-D; three places at once, observations and places free")
{
    setup(2);
    auto x = points(4, 2, false);
    auto y = values(4);
    C().w = weights(2, 2, 0);
    Peek gp;
    gp.compute(x, y);
    M xs(3, 2);
    for (int i = 0; i < 3; i++)
        xs.row(i) = place(2, nm("v", i)).transpose();
    auto all = gp.predict(xs);
    M mu = gp.mu(xs);
    auto mus = gp.mu_mult(xs);
    V s2 = gp.sigma_mult(xs);
    vp_check(all.first.rows() == 3 && all.second.rows() == 3 && mu.rows() == 3 && mus.size() == 3 && s2.size() == 3, "one answer per place");
    int i = vp_choice(3, "place");
    auto q = gp.query(xs.row(i).transpose());
    vp_check_eq(all.first(i, 0), std::get<0>(q)(0), "mean of each");
    vp_check_eq(all.second(i, 0), std::get<1>(q), "variance of each");
    vp_check_eq(mu(i, 0), std::get<0>(q)(0), "mean of each alone");
    vp_check_eq(mus[i](0), std::get<0>(q)(0), "mean of each in a list");
    vp_check_eq(s2(i), std::get<1>(q), "variance of each alone");
    vp_reach("end");
}
// the parameters the optimiser starts from and the function it is given
static void start(const Peek& gp, const std::vector<V>& x, const std::vector<V>& y, int m)
{
    int n = x.size(), d = x[0].size();
    vp_check(gp.m() == (size_t)m, "number of pseudo-inputs");
    vp_check(!C().bounded, "unbounded");
    vp_check(C().init.size() == (m + 1) * d + 2, "one value per parameter");
    if (C().init.size() != (m + 1) * d + 2)
        return;
    std::vector<bool> used(n, false);
    for (int i = 0; i < m; i++) {
        bool found = false;
        for (int k = 0; k < n && !found; k++) {
            bool same = !used[k];
            for (int j = 0; j < d; j++)
                same = same && C().init(j * m + i) == x[k](j);
            if (same)
                found = used[k] = true;
        }
        vp_check(found, "pseudo-inputs start from different samples");
    }
    V z = centred(x, y);
    double sq = 0;
    for (int i = 0; i < n; i++)
        sq += z(i) * z(i) / n;
    for (int j = 0; j < d; j++) {
        double lo = x[0](j), hi = x[0](j);
        for (auto& v : x)
            lo = std::min(lo, v(j)), hi = std::max(hi, v(j));
        if (hi > lo)
            vp_check_eq(C().init(m * d + j), -2 * std::log((hi - lo) / 2), "initial length scales");
    }
    vp_check_eq(C().init((m + 1) * d), std::log(sq), "initial signal variance");
    vp_check_eq(C().init((m + 1) * d + 1), std::log(sq / 4), "initial noise variance");
}
VP_CASE(start, 'R', "1 to 3 samples, 1-D and 2-D, shares of 0, 34, 67 and 100 percent, minimum of 1 or 2 pseudo-inputs, all orders; by compute or by adding; observations free")
{
    int n = 1 + vp_choice(3, "samples"), d = 1 + vp_choice(2, "dimensions"), mn = 1 + vp_choice(2, "minimum");
    double pc[] = {0, 34, 67, 100};
    double p = pc[vp_choice(4, "percent")];
    setup(mn, p);
    int m = std::min(n, std::max(mn, (int)(p * n / 100)));
    auto x = points(n, d, false);
    auto y = values(n);
    for (int i = 0; i < n; i++)
        vp_assume_lt(0.0, centred(x, y)(i));
    C().w = weights(m, d, 0);
    Peek gp;
    bool add = n > 1 && vp_choice(2, "add");
    draws() = 6;
    if (add) {
        draws() = 1;
        int was = std::min(n - 1, std::max(mn, (int)(p * (n - 1) / 100)));
        C().w = weights(was, d, 0);
        gp.compute(std::vector<V>(x.begin(), x.end() - 1), std::vector<V>(y.begin(), y.end() - 1));
        draws() = 6;
        C().w = weights(m, d, 0);
        gp.add_sample(x[n - 1], y[n - 1]);
    }
    else
        gp.compute(x, y);
    vp_check(C().calls == (add ? 2 : 1), "the optimiser is called");
    start(gp, x, y, m);
    vp_reach("end");
}
VP_CASE(start_all, 'R', "3 samples, 1-D, 1 pseudo-input: every sample can be the start")
{
    setup(1);
    auto x = points(3, 1, false);
    auto y = values(3);
    C().w = weights(1, 1, 0);
    Peek gp;
    draws() = 6;
    vp_must("first");
    vp_must("second");
    vp_must("third");
    gp.compute(x, y);
    for (int i = 0; i < 3; i++)
        if (C().init(0) == x[i](0))
            vp_reach(i == 0 ? "first" : i == 1 ? "second" : "third");
    vp_reach("end");
}
VP_CASE(objective, 'R', "3 samples, 2 pseudo-inputs, 1-D: the optimiser is offered the likelihood and its gradient; observations free")
{
    Mean::none() = false;
    setup(2);
    auto x = points(3, 1, false);
    auto y = values(3);
    C().w = weights(2, 1, 0);
    C().eval = true;
    C().at = C().w;
    C().at(1) += 0.5;
    C().at(2) -= 0.25;
    Peek gp;
    int how = vp_choice(3, "how");
    gp.compute(x, y);
    if (how == 1)
        gp.optimize_hyperparams();
    if (how == 2)
        gp.recompute();
    vp_check(C().calls == (how ? 2 : 1) && C().grads.size() == C().asked.size() && !C().asked.empty(), "offered");
    Ref r(x, centred(x, y), C().at, 2);
    vp_check_eq(C().asked.back().second, r.lik(), "the likelihood is offered");
    V g = opt::grad(gp.both(C().at));
    for (int i = 0; i < g.size(); i++)
        vp_check_eq(C().grads.back()(i), g(i), "and its gradient");
    vp_reach("end");
}
VP_CASE(history, 'R', "3 samples, 2 pseudo-inputs, 1-D and 2-D, built in 8 ways with other parameters before; observations and place free")
{
    setup(2);
    int d = 1 + vp_choice(2, "dimensions"), how = vp_choice(8, "how");
    auto x = points(3, d, false);
    auto y = values(3);
    V last = weights(2, d, 0), other = last;
    for (int i = 0; i < other.size(); i++)
        other(i) += 0.25 - 0.125 * (i % 3);
    double p = 0.5;
    Peek a, b(d, 1), c(x, y);
    Peek* gp = how == 1 ? &b : how == 7 ? &c : &a;
    std::vector<V> x2(x.begin(), x.end() - 1), y2(y.begin(), y.end() - 1);
    if (how == 0 || how == 1) { // one by one
        for (int i = 0; i < 3; i++) {
            C().w = weights(std::min(i + 1, 2), d, 0);
            if (i == 2)
                C().w = last;
            gp->add_sample(x[i], y[i]);
        }
    }
    else if (how == 2) {
        C().w = other;
        gp->compute(x2, y2);
        C().w = last;
        gp->add_sample(x[2], y[2]);
    }
    else if (how == 3) {
        C().w = other;
        std::vector<V> z = {y[1], y[2], y[0]};
        gp->compute(x, z);
        C().w = last;
        gp->compute(x, y);
    }
    else if (how == 4) {
        C().w = other;
        gp->compute(x, y);
        C().w = last;
        gp->optimize_hyperparams();
    }
    else if (how == 5) {
        C().w = other;
        gp->compute(x, y);
        C().w = last;
        gp->recompute();
    }
    else if (how == 6) {
        C().w = other;
        gp->compute(x, y);
        gp->mean_function().p = p = 0.75;
        C().w = last;
        gp->recompute(true);
    }
    else if (how == 7) { // built without optimising
        C().w = last;
        gp->optimize_hyperparams();
    }
    vp_check(gp->nb_samples() == 3 && gp->nb_pseudo_samples() == 2, "sizes");
    vp_check(gp->dim_in() == d && gp->dim_out() == 1, "dimensions");
    auto xs = gp->samples();
    auto xb = gp->pseudo_samples();
    bool ok = xs.size() == 3 && xb.size() == 2;
    vp_check(ok, "number of samples");
    if (!ok)
        return;
    for (int j = 0; j < d; j++) {
        for (int i = 0; i < 3; i++)
            ok = ok && xs[i](j) == x[i](j);
        for (int i = 0; i < 2; i++)
            vp_check_eq(xb[i](j), last(j * 2 + i), "pseudo-inputs are what the optimiser returned");
    }
    vp_check(ok, "samples in order");
    vp_check_eq(gp->mean_observation()(0), (y[0](0) + y[1](0) + y[2](0)) / 3, "mean observation");
    answers(*gp, x, y, 2, place(d), p);
    vp_reach("end");
}
VP_CASE(most, 'R', "3 samples: the greatest observation")
{
    setup(1);
    auto x = points(3, 1, false);
    auto y = values(3);
    C().w = weights(1, 1, 0);
    Peek gp;
    gp.compute(x, y);
    double m = gp.max_observation()(0);
    bool one = false;
    for (int i = 0; i < 3; i++) {
        vp_check_le(y[i](0), m, "none is greater");
        one = one || m == y[i](0);
    }
    vp_check(one, "it is one of them");
    vp_reach("end");
}
VP_CASE(prior, 'R', "no sample, 1-D to 3-D, any place: prior mean and variance")
{
    int d = 1 + vp_choice(3, "dimensions");
    setup(1);
    Peek gp(d, 1);
    V v = place(d);
    auto q = gp.query(v);
    vp_check_eq(std::get<0>(q)(0), v(0), "prior mean");
    vp_check_eq(std::get<1>(q), 1, "prior variance");
    vp_check_eq(gp.sigma(v), 1, "prior variance alone");
    vp_check_eq(gp.mu(v.transpose())(0, 0), v(0), "prior mean alone");
    vp_check(gp.nb_samples() == 0 && gp.mean_observation()(0) == 0, "no sample");
    vp_reach("end");
}
