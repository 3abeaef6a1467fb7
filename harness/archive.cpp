// C08: archives give back what was saved; a loaded model is the saved one.
#include "gp_versions.hpp"
#include <limbo/model/multi_gp.hpp>
#include <limbo/serialize/binary_archive.hpp>
#include <limbo/serialize/text_archive.hpp>
using namespace gpv;
using namespace limbo;
struct Params {
};
typedef VKernel<1> Ker;
typedef VMean<true> Mean;
struct Tune {
    template <typename GP>
    void operator()(GP& gp)
    {
        gp.kernel_function().set_h_params(gp.kernel_function().h_params() + V::Ones(1));
        gp.recompute(false);
    }
};
template <typename A>
static void values()
{
    static const int R[] = {1, 1, 3, 2}, C[] = {1, 3, 1, 2};
    int sh = vp_choice(4, "shape"), r = R[sh], c = C[sh];
    M m(r, c);
    for (int i = 0; i < r; i++)
        for (int j = 0; j < c; j++)
            m(i, j) = vp_sym(lab("v", i, j).c_str(), -std::numeric_limits<double>::max(), std::numeric_limits<double>::max());
    A a("arch_values/sub");
    int kind = vp_choice(3, "kind");
    if (kind == 0) {
        a.save(m, "m");
        M b = M::Constant(5, 5, 7.);
        A("arch_values/sub").load(b, "m");
        vp_check(b.rows() == r && b.cols() == c, "matrix shape");
        for (int i = 0; i < r; i++)
            for (int j = 0; j < c; j++)
                vp_check_same(b(i, j), m(i, j), "matrix entries");
    }
    else if (kind == 1) {
        V v = m.col(0), w;
        a.save(v, "v");
        a.load(w, "v");
        vp_check(w.size() == r, "vector size");
        for (int i = 0; i < r; i++)
            vp_check_same(w(i), v(i), "vector entries");
    }
    else {
        std::vector<V> l, k(3, V::Zero(2));
        for (int i = 0; i < r; i++)
            l.push_back(m.row(i));
        a.save(l, "l");
        a.load(k, "l");
        vp_check((int)k.size() == r, "list length");
        for (int i = 0; i < r; i++) {
            vp_check(k[i].size() == c, "list vector size");
            for (int j = 0; j < c; j++)
                vp_check_same(k[i](j), l[i](j), "list entries");
        }
    }
    // saving again under the same name replaces the content
    M z = M::Zero(1, 2);
    a.save(z, "m");
    M y;
    a.load(y, "m");
    vp_check(y.rows() == 1 && y.cols() == 2, "overwritten object");
    vp_reach("end");
}
VP_CASE(text_values, 'F', "matrices, vectors and lists of 1x1, 1x3, 3x1, 2x2 finite doubles (all IEEE values) through the text archive") { values<serialize::TextArchive>(); }
VP_CASE(binary_values, 'F', "the same through the binary archive") { values<serialize::BinaryArchive>(); }

template <typename A>
static void gp_trip(int n, int D, int steps)
{
    typedef model::GP<Params, Ker, Mean, Tune> GP;
    S().prepare(n + 1, 1, true);
    auto y = sym_obs("y", n + 1, D);
    std::vector<V> x;
    for (int i = 0; i <= n; i++)
        x.push_back(pt(i, 2));
    GP gp(2, D);
    if (vp_choice(2, "parameters moved before saving")) {
        gp.kernel_function().set_h_params(V::Ones(1));
        gp.mean_function().set_h_params(V::Ones(1));
    }
    std::vector<V> xs(x.begin(), x.begin() + n), ys(y.begin(), y.begin() + n);
    gp.compute({xs[0]}, {ys[0]});
    for (int i = 1; i < n; i++)
        gp.add_sample(xs[i], ys[i]);
    gp.template save<A>("arch_gp");
    GP ld;
    if (vp_choice(2, "loaded into a used model")) {
        ld.compute({pt(0, 1), pt(1, 1)}, {y[0].head(1), y[1].head(1)}); // other dimensions, warm caches
        ld.compute_kernel_grad_log_lik();
    }
    bool rec = vp_choice(2, "recompute");
    ld.template load<A>("arch_gp", rec);
    same<M>(ld.kernel_function().h_params(), gp.kernel_function().h_params(), "kernel parameters");
    same<M>(ld.mean_function().h_params(), gp.mean_function().h_params(), "mean parameters");
    vp_check(ld.dim_in() == 2 && ld.dim_out() == D, "dimensions");
    int op = vp_choice(4, "use after loading");
    if (op == 1 || op == 3) {
        xs.push_back(x[n]);
        ys.push_back(y[n]);
        ld.add_sample(x[n], y[n]);
        gp.add_sample(x[n], y[n]);
    }
    if (op == 2 || op == 3) {
        ld.optimize_hyperparams();
        gp.optimize_hyperparams();
    }
    same_model(ld, gp, xs.size(), 2, 6, false);
    vp_reach("end");
}
VP_CASE(gp_text, 'R', "2 samples in 2-D, 1 output, text archive, with / without recomputation, into a fresh or a used model, then extension and / or tuning") { gp_trip<serialize::TextArchive>(2, 1, 1); }
VP_CASE(gp_single, 'R', "1 sample, text or binary archive")
{
    if (vp_choice(2, "binary"))
        gp_trip<serialize::BinaryArchive>(1, 1, 1);
    else
        gp_trip<serialize::TextArchive>(1, 1, 1);
}
VP_CASE(gp_binary, 'R', "the same with 2 outputs through the binary archive") { gp_trip<serialize::BinaryArchive>(2, 2, 1); }

template <typename A>
static void multi_trip()
{
    typedef model::MultiGP<Params, model::GP, Ker, Mean> MG;
    S().prepare(3, 1, true);
    auto y = sym_obs("y", 3, 2);
    std::vector<V> x;
    for (int i = 0; i < 3; i++)
        x.push_back(pt(i, 2));
    MG gp(2, 2), ld;
    gp.compute({x[0], x[1]}, {y[0], y[1]});
    gp.gp_models()[1].kernel_function().set_h_params(V::Ones(1));
    gp.mean_function().set_h_params(V::Ones(1));
    gp.recompute();
    gp.template save<A>("arch_multi");
    ld.template load<A>("arch_multi", vp_choice(2, "recompute"));
    int n = 2;
    if (vp_choice(2, "extended after loading")) {
        n = 3;
        gp.add_sample(x[2], y[2]);
        ld.add_sample(x[2], y[2]);
    }
    V q = pt(100, 2);
    vp_check(ld.dim_in() == 2 && ld.dim_out() == 2 && ld.nb_samples() == n, "dimensions and size");
    same<M>(ld.mean_function().h_params(), gp.mean_function().h_params(), "mean parameters");
    same<M>(ld.mean_observation(), gp.mean_observation(), "mean observation");
    for (int i = 0; i < n; i++) {
        same<M>(ld.samples()[i], gp.samples()[i], "samples");
        same<M>(ld.observations()[i], gp.observations()[i], "observations");
    }
    same<M>(ld.mu(q), gp.mu(q), "mean");
    for (int o = 0; o < 2; o++) {
        same<M>(ld.gp_models()[o].kernel_function().h_params(), gp.gp_models()[o].kernel_function().h_params(), "kernel parameters");
        same_model(ld.gp_models()[o], gp.gp_models()[o], n, 2, 5, false);
    }
    vp_reach("end");
}
VP_CASE(multi_text, 'R', "2 outputs with their own kernel parameters, 2 samples, text archive, then extension") { multi_trip<serialize::TextArchive>(); }
VP_CASE(multi_binary, 'R', "the same through the binary archive") { multi_trip<serialize::BinaryArchive>(); }
