// C30: a multi-objective problem whose values come in any order, and models of it
#ifndef EHVI_COMMON_HPP
#define EHVI_COMMON_HPP
#include "bo_common.hpp"
#include <iostream>
#include <limbo/experimental/bayes_opt/ehvi.hpp>
#include <limbo/model/gp.hpp>
using namespace boc;
using namespace limbo;
// evaluations: on each objective the values are b[1] < b[2] < ..., b[0] is the reference
static bool low_means = false; // predictions below every value
static bool fixed_order = false; // each evaluation better than the one before
static int nev = 0; // number of evaluations prepared
static std::vector<double> axis_[2];
static std::vector<int> rank_[2]; // of each evaluation
static double value(int e, int k) { return axis_[k][rank_[k][e] + 1]; }
static void prepare(int n)
{
    nev = n;
    for (int k = 0; k < 2; k++) {
        rank_[k].clear();
        std::vector<int> order;
        for (int i = 0; i < n; i++)
            order.insert(order.begin() + (k && !fixed_order ? vp_choice(i + 1, "place") : i), i); // evaluations come in any order of the second objective...
        rank_[k] = order;
    }
    if (n > 1 && !fixed_order) { // ... and any of the first
        std::vector<int> order;
        for (int i = 0; i < n; i++)
            order.insert(order.begin() + vp_choice(i + 1, "place1"), i);
        rank_[0] = order;
    }
    for (int k = 0; k < 2; k++) {
        axis_[k] = {0};
        // evaluation 0 has a known value: the models are told apart by it
        std::vector<double> g;
        for (int j = 0; j <= n; j++)
            g.push_back(vp_sym(nm("gap", k, j).c_str(), 0.125, 2));
        int r0 = rank_[k].empty() ? 0 : rank_[k][0] + 1;
        axis_[k].resize(n + 1);
        axis_[k][r0] = k ? 1.75 : 0.25;
        for (int j = r0 + 1; j <= n; j++)
            axis_[k][j] = axis_[k][j - 1] + g[j];
        for (int j = r0 - 1; j >= 0; j--)
            axis_[k][j] = axis_[k][j + 1] - g[j];
    }
}
struct EP {
    struct bayes_opt_bobase {
        static bool stats_enabled() { return false; }
        static bool bounded() { return true; }
    };
    struct bayes_opt_ehvi {
        static double x_ref() { return axis_[0][0]; }
        static double y_ref() { return axis_[1][0]; }
    };
    struct stop_maxiterations : public boc::Params::stop_maxiterations {
    };
};
// a model of one objective
struct Obj {
    int din = -1, dout = -1;
    std::vector<V> x, y;
    Obj() {}
    Obj(int i, int o) : din(i), dout(o) {}
    void compute(const std::vector<V>& a, const std::vector<V>& b)
    {
        x = a;
        y = b;
        L().add('c', a.size());
    }
    int objective() const
    {
        vp_check(!y.empty() && y[0].size() == 1, "trained on one value per sample");
        return y[0](0) == 0.25 ? 0 : 1;
    }
    size_t dim() const { return din; }
    size_t dim_in() const { return din; }
    size_t dim_out() const { return dout; }
    V mu(const V& v) const { return V::Constant(1, mean(objective(), y.size(), v)); }
    double sigma(const V& v) const { return variance(objective(), y.size(), v); }
    V max_observation() const
    {
        int k = objective(), m = 0;
        for (int e = 1; e < (int)y.size(); e++)
            if (rank_[k][e] > rank_[k][m])
                m = e;
        return y[m];
    }
    static double mean(int k, int n, const V& v) 
    {
        if (low_means)
            return vp_uf(nm("low", k, n).c_str(), v.data(), v.size(), -40, -20);
        return vp_uf(nm("mu", k, n).c_str(), v.data(), v.size());
    }
    static double variance(int k, int n, const V& v) { return vp_uf(nm("var", k, n).c_str(), v.data(), v.size(), 0.0625, 4); }
};
static bool in_front(int e, int n) // among the first n evaluations
{
    for (int j = 0; j < n; j++)
        if (j != e && rank_[0][j] > rank_[0][e] && rank_[1][j] > rank_[1][e])
            return false;
    return true;
}
template <typename B>
struct Open : public B {
    int total() const { return this->_total_iterations; }
};
static void check_models(const std::vector<Obj>& ms, int n, const std::vector<V>& xs)
{
    vp_check(ms.size() == 2, "one model per objective");
    for (int k = 0; k < 2 && k < (int)ms.size(); k++) {
        vp_check((int)ms[k].x.size() == n && (int)ms[k].y.size() == n && ms[k].din == C().din && ms[k].dout == 1, "all the data so far");
        for (int i = 0; i < n && i < (int)ms[k].x.size(); i++) {
            same(ms[k].x[i], xs[i], "sample");
            vp_check_same(ms[k].y[i](0), value(i, k), "value of the objective");
        }
    }
}
struct FunM : boc::Fun {
    static constexpr int dim_in() { return 1; }
    static constexpr int dim_out() { return 2; }
};
#endif
