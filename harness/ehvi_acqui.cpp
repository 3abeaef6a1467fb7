// C30: the acquisition function, with the real library
#include "ehvi_common.hpp"
#include "ehvi_ref.hpp"
// the improvement expected at v after n evaluations
static ehr::Problem problem_at(int n, const V& v)
{
    ehr::Problem p;
    p.d = 2;
    std::vector<int> f;
    for (int i = 0; i < n; i++)
        if (in_front(i, n))
            f.push_back(i);
    p.rank.resize(f.size());
    for (size_t i = 0; i < f.size(); i++)
        p.pop.push_back(nullptr);
    for (int k = 0; k < 2; k++) {
        p.ax[k].mu = Obj::mean(k, n, v);
        p.ax[k].s = std::sqrt(Obj::variance(k, n, v));
        std::vector<int> s = f;
        std::sort(s.begin(), s.end(), [&](int a, int b) { return rank_[k][a] < rank_[k][b]; });
        p.ax[k].b = {axis_[k][0]};
        for (int e : s)
            p.ax[k].b.push_back(value(e, k));
        for (size_t i = 0; i < f.size(); i++)
            p.rank[i].push_back(std::find(s.begin(), s.end(), f[i]) - s.begin());
    }
    return p;
}
// the acquisition function itself
static void acquisition_of(int n, bool agg)
{
    prepare(n);
    for (int i = 0; i < n; i++)
        if (!in_front(i, n))
            return;
    std::deque<individual> ind(n);
    std::deque<individual*> pop;
    for (int i = 0; i < n; i++) {
        ind[i].f[0] = value(i, 0);
        ind[i].f[1] = value(i, 1);
        ind[i].f[2] = 0;
        pop.push_back(&ind[i]);
    }
    std::vector<Obj> m(2, Obj(2, 1));
    std::vector<V> x = {V::Zero(2)};
    for (int k = 0; k < 2; k++)
        m[k].compute(x, {V::Constant(1, k ? 1.75 : 0.25)});
    V v(2);
    v << vp_sym("v0", 0, 1), vp_sym("v1", 0, 1);
    auto p = problem_at(n, v);
    for (int k = 0; k < 2; k++) {
        p.ax[k].mu = Obj::mean(k, 1, v);
        if (agg)
            p.ax[k].mu = 2 * p.ax[k].mu - 1;
        p.ax[k].s = std::sqrt(Obj::variance(k, 1, v));
    }
    ehr::lemma(p);
    Eigen::VectorXd ref(3);
    ref << axis_[0][0], axis_[1][0], 0;
    limbo::acqui::Ehvi<EP, Obj> a(m, pop, ref);
    double got = agg ? a(v, [](const V& y) { return 2 * y(0) - 1; }) : a(v);
    vp_check_eq(got, ehr::expected(p), "expected hypervolume improvement of the models' predictions");
    vp_check(a.dim() == 2, "dimension");
    vp_reach("end");
}
VP_CASE(acquisition, 'R', "front of 0..3 points in any order; front, reference, means and variances free; with or without aggregation") { acquisition_of(vp_choice(4, "front"), vp_choice(2, "aggregation")); }
