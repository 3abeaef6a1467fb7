// C27: IMGPO, the tree-based optimistic optimiser.
#include "bo_common.hpp"
#include <limbo/experimental/acqui/ucb_imgpo.hpp>
#include <limbo/experimental/bayes_opt/imgpo.hpp>
#include <map>
using namespace boc;
using namespace limbo;
namespace lx = limbo::bayes_opt::experimental;
struct IP : boc::Params {
    struct bayes_opt_imgpo {
        static bool hp_opt() { return false; }
    };
    struct acqui_ucb_imgpo : public limbo::defaults::acqui_ucb_imgpo {
    };
};
struct Agg {
    double operator()(const V& v) const { return C().agg * v(0); }
};
static double s2_ = 0;
static bool (*known_)(const V&, double&) = nullptr; // predictions that are not free
struct Query {
    V x;
    double v;
    int n;
};
static std::vector<Query> qs;
// a model that answers anything, the same at the same point with the same data
struct GModel {
    std::vector<Pair> data;
    GModel() {}
    GModel(int, int) {}
    void compute(const std::vector<V>& x, const std::vector<V>& y)
    {
        vp_check(x.size() == y.size() && x.size() == L().evals.size(), "the model is fitted to all the evaluations");
        data.clear();
        for (size_t i = 0; i < x.size() && i < y.size(); i++)
            data.push_back({x[i], y[i]});
    }
    void optimize_hyperparams() {}
    size_t dim_in() const { return C().din; }
    size_t dim_out() const { return 1; }
    V mu(const V& x) const
    {
        V r(1);
        if (known_ && known_(x, r(0)))
            return r;
        V key(x.size());
        for (int i = 0; i < x.size(); i++)
            key(i) = std::round(x(i) * 1e8); // the same point however it is computed
        r(0) = vp_uf(nm("mu", data.size()).c_str(), key.data(), key.size());
        return r;
    }
    double sigma(const V&) const { return s2_; }
    std::tuple<V, double> query(const V& x) const { return std::make_tuple(mu(x), sigma(x)); }
};
static double best_of(size_t n);
// limbo's acquisition function, with a record of its answers
template <typename P, typename Mod>
struct Bound : acqui::experimental::UCB_IMGPO<P, Mod> {
    int n;
    Bound(const Mod& m, size_t M) : acqui::experimental::UCB_IMGPO<P, Mod>(m, M), n(m.data.size())
    {
        vp_check(m.data.size() == L().evals.size(), "the bound is computed with all the evaluations");
    }
    template <typename A>
    double operator()(const V& x, const A& afun) const
    {
        double v = acqui::experimental::UCB_IMGPO<P, Mod>::operator()(x, afun);
        bool in = true;
        for (int i = 0; i < x.size(); i++)
            in = in && x(i) >= 0 && x(i) <= 1;
        vp_check(in, "unit box");
        qs.push_back({x, v, n});
        double b = best_of(n); // the code's tolerance, 1e-6, is not part of the property
        if (v > b)
            vp_assume_le(b + 1e-3, v);
        return v;
    }
};
struct StopHook {
    static bool (*hook)(const void*);
    template <typename BO, typename A>
    bool operator()(const BO& bo, const A&) { return hook(&bo); }
};
bool (*StopHook::hook)(const void*);
typedef lx::IMGPO<IP, modelfun<GModel>, acquifun<Bound<IP, GModel>>, initfun<Init>, statsfun<boost::fusion::vector<Stat>>, stopcrit<StopHook>> BOpt;
struct Peek : BOpt {
    std::vector<lx::TreeNode>& tree() { return _tree; }
};
// ---- the specification: the published algorithm on its own tree
struct Cell {
    V lo, hi, x;
    double f; // aggregated value or optimistic bound
    bool leaf, samp;
};
static bool near(double a, double b) { return std::abs(a - b) < 1e-9; }
static bool near(const V& a, const V& b)
{
    for (int i = 0; i < a.size(); i++)
        if (!near(a(i), b(i)))
            return false;
    return a.size() == b.size();
}
static std::vector<std::vector<Cell>> snap(const std::vector<lx::TreeNode>& t)
{
    std::vector<std::vector<Cell>> r;
    for (auto& l : t) {
        size_t n = l.x.size();
        vp_check(l.x_max.size() == n && l.x_min.size() == n && l.f.size() == n && l.leaf.size() == n && l.samp.size() == n, "every cell has its box, point, value and marks");
        r.push_back({});
        if (!n)
            continue;
        for (size_t i = 0; i < n; i++)
            r.back().push_back({l.x_min[i], l.x_max[i], l.x[i], Agg()(l.f[i]), l.leaf[i], l.samp[i]});
    }
    while (!r.empty() && r.back().empty())
        r.pop_back();
    return r;
}
static int offset_; // evaluations made by the initial design
// index of the evaluation at a point, -1 if none
static int evaluated(const V& x)
{
    int r = -1;
    for (size_t k = offset_; k < L().evals.size(); k++)
        if (near(L().evals[k].x, x)) {
            vp_check(r == -1, "no point is evaluated twice");
            r = k;
        }
    return r;
}
static void check_tree(const std::vector<std::vector<Cell>>& t)
{
    std::map<std::string, bool> m;
    auto all = [&](bool c, const char* l) {
        bool& b = m.insert({l, true}).first->second;
        b = b && c;
    };
    std::vector<Cell> leaves;
    double vol = 0;
    all(!t.empty() && t[0].size() == 1, "one root");
    if (!t.empty())
        for (auto& c : t[0])
            for (int d = 0; d < C().din; d++)
                all(c.lo(d) == 0 && c.hi(d) == 1, "the root is the unit box");
    for (size_t h = 0; h < t.size(); h++)
        for (auto& c : t[h]) {
            double v = 1, mn = 1, mx = 0;
            for (int d = 0; d < C().din; d++) {
                all(c.lo(d) >= 0 && c.hi(d) <= 1 && c.lo(d) < c.hi(d), "cells lie in the unit box");
                all(near(2 * c.x(d), c.lo(d) + c.hi(d)), "the sample is the middle of its cell");
                v *= c.hi(d) - c.lo(d);
                mn = std::min(mn, c.hi(d) - c.lo(d));
                mx = std::max(mx, c.hi(d) - c.lo(d));
            }
            all(near(v * std::pow(3, h), 1), "a split divides the cell in three");
            all(mx < 3.0001 * mn, "a split is along the longest side");
            if (c.leaf) {
                vol += v;
                leaves.push_back(c);
            }
            int k = evaluated(c.x);
            all(c.samp == (k >= 0), "cells are marked evaluated when they are");
            if (k >= 0)
                vp_check_same(c.f, Agg()(L().evals[k].y), "an evaluated cell carries the value of the objective");
            else {
                int f = -1;
                for (size_t i = 0; i < qs.size(); i++)
                    if (near(qs[i].x, c.x))
                        f = i;
                all(f >= 0, "a cell that is not evaluated carries its bound");
            }
        }
    all(near(vol, 1), "the leaves cover the unit box");
    for (size_t i = 0; i < leaves.size(); i++)
        for (size_t j = 0; j < i; j++) {
            bool dis = false;
            for (int d = 0; d < C().din; d++)
                dis |= leaves[i].lo(d) >= leaves[j].hi(d) - 1e-9 || leaves[j].lo(d) >= leaves[i].hi(d) - 1e-9;
            all(dis, "cells do not overlap");
        }
    for (auto& e : m)
        vp_check(e.second, e.first.c_str());
}
static std::vector<std::vector<Cell>> prev;
static int rounds_, max_rounds_, run_, done_before_;
static double best_prev_, xi_;
static size_t evals_prev_, lb_evals_; // lb: evaluations at the last split
static double best_of(size_t n)
{
    double b = Agg()(L().evals[0].y);
    for (size_t i = 1; i < n && i < L().evals.size(); i++) {
        double v = Agg()(L().evals[i].y);
        if (v > b)
            b = v;
    }
    return b;
}
static bool find(const std::vector<std::vector<Cell>>& t, size_t h, const V& x, Cell& r)
{
    if (h < t.size())
        for (auto& c : t[h])
            if (near(c.x, x)) {
                r = c;
                return true;
            }
    return false;
}
// the centres of the cells of the simulated expansion of c, without its own
static std::vector<V> simulated(const Cell& c, int levels)
{
    std::vector<V> r;
    std::vector<std::pair<V, V>> cur(1, {c.lo, c.hi});
    for (int l = 0; l < levels; l++) {
        std::vector<std::pair<V, V>> nx;
        for (auto& b : cur) {
            int d = 0;
            for (int k = 1; k < C().din; k++)
                if (b.second(k) - b.first(k) > b.second(d) - b.first(d))
                    d = k;
            double w = (b.second(d) - b.first(d)) / 3;
            for (int p = 0; p < 3; p++) {
                V lo = b.first, hi = b.second;
                lo(d) = b.first(d) + p * w;
                hi(d) = b.first(d) + (p + 1) * w;
                nx.push_back({lo, hi});
                if (p != 1)
                    r.push_back(0.5 * (lo + hi));
            }
        }
        cur = nx;
    }
    return r;
}
// one iteration: prev -> now
static void check_step(const std::vector<std::vector<Cell>>& now)
{
    // (i)-(ii) per level: the best leaf, evaluated, if it is better than those of the levels above
    size_t D = prev.size();
    std::vector<int> im(D, -1);
    double nu = 0;
    bool any = false;
    std::vector<std::vector<Cell>> t = prev;
    size_t ne = evals_prev_;
    for (size_t h = 0; h < D; h++)
        while (true) {
            int b = -1;
            for (size_t i = 0; i < t[h].size(); i++)
                if (t[h][i].leaf && (b < 0 ? !any || t[h][i].f > nu : t[h][i].f > t[h][b].f))
                    b = i;
            im[h] = b;
            if (b < 0)
                break;
            if (t[h][b].samp) {
                nu = t[h][b].f;
                any = true;
                break;
            }
            vp_check(ne < L().evals.size() && near(L().evals[ne].x, t[h][b].x), "the most promising cell of its level is evaluated");
            if (ne >= L().evals.size())
                return;
            t[h][b].samp = true;
            t[h][b].f = Agg()(L().evals[ne].y);
            ne++;
        }
    // (iii) a cell whose simulated expansion cannot beat a deeper one is not split
    size_t nx = std::min(std::ceil(xi_), 4.);
    for (size_t h = 0; h < D; h++) {
        if (im[h] < 0)
            continue;
        int xi = 0;
        for (size_t k = 1; k <= nx && h + k < D; k++)
            if (im[h + k] >= 0) {
                xi = k;
                break;
            }
        if (!xi)
            continue;
        double g = t[h + xi][im[h + xi]].f;
        GModel m;
        m.data.resize(ne);
        bool beats = false;
        for (auto& x : simulated(t[h][im[h]], xi))
            if (Agg()(m.mu(x)) >= g)
                beats = true;
        if (!beats)
            im[h] = -1;
    }
    // (iv)-(v)
    bool anyu = false, split = false;
    double u = 0;
    for (size_t h = 0; h < D; h++) {
        if (im[h] < 0)
            continue;
        Cell& c = t[h][im[h]];
        Cell n;
        bool ok = find(now, h, c.x, n);
        vp_check(ok, "cells stay in the tree");
        if (!ok)
            return;
        if (anyu && !(c.f > u)) {
            vp_check(n.leaf, "a cell that does not beat the new evaluations is not split");
            continue;
        }
        split = true;
        vp_check(!n.leaf, "a selected cell is split");
        vp_check(h + 1 < now.size(), "children exist");
        if (n.leaf || h + 1 >= now.size())
            return;
        c.leaf = false;
        double before = best_of(lb_evals_);
        for (auto& x : simulated(c, 1)) {
            Cell k;
            bool found = find(now, h + 1, x, k);
            vp_check(found, "the children are the thirds of the cell");
            if (!found)
                return;
            double ub = 0;
            bool has = false;
            for (auto& q : qs)
                if (near(q.x, x) && q.n == (int)ne) {
                    ub = q.v;
                    has = true;
                }
            vp_check(has, "the bound of a new cell is computed with all the evaluations");
            double best = best_of(ne);
            if (ne < L().evals.size() && near(L().evals[ne].x, x)) {
                vp_check_le(before, ub, "only promising cells are evaluated");
                double v = Agg()(L().evals[ne].y);
                if (!anyu || v > u)
                    u = v;
                anyu = true;
                ne++;
            }
            else {
                vp_check_le(ub, best + 1e-4, "promising cells are evaluated");
                if (!k.samp)
                    vp_check_same(k.f, ub, "a cell that is not evaluated carries its bound");
            }
        }
        lb_evals_ = ne;
        Cell k;
        vp_check(find(now, h + 1, c.x, k), "the children are the thirds of the cell");
    }
    vp_check(split, "an iteration splits a cell");
    vp_check(ne == L().evals.size(), "nothing else is evaluated");
    for (size_t h = 0; h < D; h++)
        for (size_t i = 0; i < t[h].size(); i++) {
            Cell n;
            vp_check(find(now, h, t[h][i].x, n) && n.leaf == t[h][i].leaf, "the other cells stay as they are");
        }
}
static bool at_stop(const void* p)
{
    Peek& bo = *(Peek*)(const BOpt*)p;
    vp_check(bo.samples().size() == L().evals.size(), "every evaluation is recorded");
    same_data(history(bo), L().evals, "the history holds the objective's values at its samples");
    vp_check(bo.total_iterations() == (int)L().evals.size() - offset_ && bo.current_iteration() == (int)L().evals.size() - done_before_, "iterations count evaluations");
    auto now = snap(bo.tree());
    check_tree(now);
    double b = best_of(L().evals.size());
    if (rounds_ > 0) {
        check_step(now);
        // simulation depth: 4 more after an improvement, half a level less otherwise
        if (std::abs(best_prev_ - b) < 1e-6)
            xi_ = std::max(xi_ - 0.5, 1.);
        else
            xi_ += 4;
    }
    else
        lb_evals_ = L().evals.size();
    if (rounds_ == 0 && run_ > 0) {
        vp_check(now.size() == prev.size(), "the tree is kept");
        for (size_t h = 0; h < prev.size() && h < now.size(); h++)
            vp_check(now[h].size() == prev[h].size(), "the tree is kept");
        vp_check(L().evals.size() == evals_prev_, "nothing is evaluated again");
    }
    if (rounds_ > 0 && b > best_prev_) // same for the improvements
        vp_assume_le(best_prev_ + 1e-3, b);
    best_prev_ = b;
    prev = now;
    evals_prev_ = L().evals.size();
    if (rounds_ >= max_rounds_)
        return true;
    rounds_++;
    return false;
}
static void best_is_best(Peek& bo)
{
    double b = best_of(L().evals.size());
    vp_check_eq(Agg()(bo.best_observation(Agg())), b, "best observation");
    bool f = false;
    for (auto& e : L().evals)
        if (near(e.x, bo.best_sample(Agg())) && Agg()(e.y) == b)
            f = true;
    vp_check(f, "best sample");
}
static void run(Peek& bo, int rounds, bool reset)
{
    max_rounds_ = rounds;
    rounds_ = 0;
    xi_ = 1;
    StopHook::hook = at_stop;
    bo.optimize(Fun(), Agg(), reset);
    best_is_best(bo);
}
VP_CASE(line, 'R', "1 dimension, any objective values and any model answers, 2 iterations of the tree search")
{
    Peek bo;
    run(bo, 2, true);
    vp_reach("end");
}
VP_CASE(plane, 'R', "2 dimensions, aggregator -v, any objective values and any model answers, 2 iterations of the tree search")
{
    C().din = 2;
    C().agg = -1;
    Peek bo;
    run(bo, 2, true);
    vp_reach("end");
}
// the objective is 0 in the middle, 3 on the left, 2 on the right; predictions are free on the right only
static bool right_free(const V& x, double& r)
{
    if (x(0) > 0.7 && L().evals.size() >= 3)
        return false;
    r = L().evals.size() < 3 ? 10 : -1;
    return true;
}
VP_CASE(simulation, 'R', "2-level simulated expansions: 1 dimension, 4 iterations, the predictions in one third of the box and the fourth value are free")
{
    known_ = right_free;
    Fun::value = [](int k, int) { return k == 0 ? 0. : k == 1 ? 3. : k == 2 ? 2. : k == 3 ? vp_sym(nm("y", k).c_str()) : 2.5; };
    Peek bo;
    run(bo, 4, true);
    vp_reach("end");
}
static bool all_low(const V& x, double& r)
{
    r = x(0) > 0.5 ? 1 : -1;
    return true;
}
VP_CASE(deep, 'R', "3 dimensions, 3 objective values are free, the others 0, 6 iterations")
{
    C().din = 3;
    known_ = all_low;
    Fun::value = [](int k, int) { return k < 3 ? vp_sym(nm("y", k).c_str()) : 0.; };
    Peek bo;
    run(bo, 6, true);
    vp_reach("end");
}
VP_CASE(continued, 'R', "an iteration, then another run of one that continues: 1 dimension without, or 2 dimensions with an initial sample and aggregator -v")
{
    C().init = vp_choice(2, "initial samples");
    C().din = 1 + C().init;
    C().agg = C().init ? -1 : 1;
    if (C().init)
        Fun::value = [](int k, int) { return k == 0 || k == 2 || k == 4 ? vp_sym(nm("y", k).c_str()) : 0.5 - k; };
    offset_ = C().init;
    done_before_ = offset_;
    Peek bo;
    run(bo, 1, true);
    run_ = 1;
    done_before_ = L().evals.size();
    run(bo, 1, false);
    vp_reach("end");
}
VP_CASE(restarted, 'R', "1 dimension, an iteration, then a new run that starts afresh")
{
    Peek bo;
    run(bo, 1, true);
    L().evals.clear();
    L().calls.clear();
    qs.clear();
    Fun::value = [](int k, int) { return vp_sym(nm("z", k).c_str()); };
    run(bo, 1, true);
    vp_reach("end");
}
VP_CASE(bounds, 'R', "1 dimension, prediction with variance 1/4: cells that are not evaluated carry the published bound, 2 iterations")
{
    s2_ = 0.25;
    Fun::value = [](int k, int) { return k == 0 ? 1. : vp_sym(nm("y", k).c_str(), 0, 2); };
    known_ = [](const V& x, double& r) { r = x(0) < 0.5 ? -1 : -3; return x(0) < 0.1; };
    Peek bo;
    run(bo, 2, true);
    vp_reach("end");
}
