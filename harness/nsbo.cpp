// C30: non-dominated sorting: the front of the models, and the optimiser that samples it. The evolutionary algorithm
// (sferes) is replaced by any front it could return.
#include "vp.hpp"
#include <Eigen/Core>
#include <boost/fusion/include/vector.hpp>
#include <iostream>
#include <limbo/acqui.hpp>
#include <limbo/bayes_opt/boptimizer.hpp>
#include <limbo/experimental/tools/pareto.hpp>
#include <memory>
// the fitness values are single-precision numbers in sferes; here they are reals like the rest
#define float double
#include <limbo/experimental/bayes_opt/nsbo.hpp>
#undef float
#include "ehvi_common.hpp"
extern "C" int rand() noexcept { return 3 * vp_choice(2, "rand"); }
static std::vector<V> genes(int n, int d, const char* l)
{
    std::vector<V> r;
    sferes_stub::genes().clear();
    for (int i = 0; i < n; i++) {
        V v(d);
        for (int k = 0; k < d; k++)
            v(k) = k ? vp_sym(nm(l, i, k).c_str(), 0, 1) : vp_sym(nm(l, i, k).c_str(), i * 0.25, i * 0.25 + 0.2); // all different
        r.push_back(v);
        sferes_stub::genes().push_back(std::vector<double>(v.data(), v.data() + d));
    }
    return r;
}
// the front of the models has each returned point, its capped means and its variances
template <typename T>
static void check_front(const T& front, const std::vector<V>& pts, int n)
{
    vp_check(front.size() == pts.size(), "every point of the front");
    std::vector<int> seen(pts.size(), 0);
    for (auto& t : front)
        for (size_t i = 0; i < pts.size(); i++) {
            if (__builtin_memcmp(std::get<0>(t).data(), pts[i].data(), sizeof(double)))
                continue;
            seen[i]++;
            same(std::get<0>(t), pts[i], "the point");
            vp_check(std::get<1>(t).size() == 2 && std::get<2>(t).size() == 2, "two objectives");
            for (int k = 0; k < 2; k++) {
                int best = 0;
                for (int e = 1; e < n; e++)
                    if (rank_[k][e] > rank_[k][best])
                        best = e;
                double top = value(best, k);
                double m = Obj::mean(k, n, pts[i]);
                vp_check_eq(std::get<1>(t)(k), m < top ? m : top, "predicted objective, at most the best observed");
                vp_check_eq(std::get<2>(t)(k), Obj::variance(k, n, pts[i]), "predicted variance");
            }
        }
    for (int s : seen)
        vp_check(s == 1, "each point once");
}
struct MP : EP {
};
struct Multi : public experimental::bayes_opt::BoMulti<MP, modelfun<Obj>, initfun<Init>, statsfun<boost::fusion::vector<Stat>>, stopcrit<stop::MaxIterations<EP>>> {
    void put(const V& x, const V& y) { this->add_new_sample(x, y); }
    template <int D>
    void model()
    {
        this->template update_pareto_model<D>();
    }
};
VP_CASE(model_front, 'R', "1 or 2 evaluations, front of 1..2 points in 2 dimensions, all values and predictions")
{
    int n = 1 + vp_choice(2, "evaluations"), p = 1 + vp_choice(2, "points");
    prepare(n);
    Multi b;
    for (int i = 0; i < n; i++) {
        V y(2);
        y << value(i, 0), value(i, 1);
        b.put(V::Constant(2, 0.25 * i), y);
    }
    auto g = genes(p, 2, "g");
    b.model<2>();
    vp_check(sferes_stub::runs() == 1, "one run");
    check_front(b.pareto_model(), g, n);
    if (p == 1) { // another front, with one more or one less
        g = genes(vp_choice(3, "next"), 2, "h");
        low_means = true;
        b.model<2>();
        check_front(b.pareto_model(), g, n);
    }
    vp_reach("end");
}
static std::vector<V> current; // the front of this iteration
static int p_ = 1;
static void check_pick(const V& x, int n)
{
    int i = -1;
    for (size_t j = 0; j < current.size(); j++)
        if (__builtin_memcmp(x.data(), current[j].data(), sizeof(double)) == 0)
            i = j;
    vp_check(i >= 0, "the evaluated point belongs to the front of the models");
    if (i < 0)
        return;
    for (size_t j = 0; j < current.size(); j++)
        if ((int)j != i) {
            double a0 = Obj::variance(0, n, current[i]), a1 = Obj::variance(1, n, current[i]), b0 = Obj::variance(0, n, current[j]), b1 = Obj::variance(1, n, current[j]);
            vp_check(!(b0 >= a0 && b1 >= a1 && (b0 > a0 || b1 > a1)), "no other point of the front is more uncertain in all objectives");
        }
}
static void loop(int init, int iters, int p)
{
    C().dout = 2;
    C().init = init;
    C().iters = iters;
    p_ = p;
    fixed_order = low_means = true;
    prepare(init + iters);
    Fun::value = [](int k, int o) {
        if (o == 0 && k >= C().init) { // an iteration evaluates its choice, with the models of the k values before
            check_pick(L().calls[k], k);
            current = genes(p_, 1, nm("g", k).c_str());
        }
        return value(k, o);
    };
    current = genes(iters > 1 ? 1 : p, 1, "g");
    typedef experimental::bayes_opt::Nsbo<EP, modelfun<Obj>, initfun<Init>, statsfun<boost::fusion::vector<Stat>>, stopcrit<stop::MaxIterations<EP>>> B;
    Open<B> bo;
    std::cout.setstate(std::ios::failbit); // it reports its progress
    bo.optimize(FunM());
    auto h = history(bo);
    same_data(h, L().evals, "the history is what was evaluated");
    vp_check((int)h.size() == init + iters && (int)L().calls.size() == init + iters, "one evaluation per iteration");
    vp_check(bo.current_iteration() == iters && bo.total() == iters && L().count('s') == iters && sferes_stub::runs() == iters, "iterations");
    vp_reach("end");
}
VP_CASE(nsbo_front, 'R', "1 initial point, 1 iteration, front of 1..2 points: all values, predictions and draws") { loop(1, 1, 1 + vp_choice(2, "points")); }
VP_CASE(nsbo_loop, 'R', "1 initial point, 2 iterations, a front of 1 then of 2 points") { loop(1, 2, 2); }
