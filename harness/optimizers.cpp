// C13: bounded optimisers stay in the unit box; C14: they follow their rules and keep the best.
#include "vp.hpp"
#include <Eigen/Core>
#include <iostream>
#include <limbo/opt/adam.hpp>
#include <limbo/opt/chained.hpp>
#include <limbo/opt/gradient_ascent.hpp>
#include <limbo/opt/grid_search.hpp>
#include <limbo/opt/optimizer.hpp>
#include <limbo/opt/parallel_repeater.hpp>
#include <limbo/opt/random_point.hpp>
#include <limbo/opt/rprop.hpp>
using namespace limbo;
typedef Eigen::VectorXd V;
// configuration, set by each case (any value of the documented ranges)
static int iters, reps, bins;
static double alpha_, gamma_, b1_, b2_, stop_, eps_;
static bool nesterov_;
struct Params {
    struct opt_rprop {
        static int iterations() { return iters; }
        static double eps_stop() { return stop_; }
    };
    struct opt_adam {
        static int iterations() { return iters; }
        static double alpha() { return alpha_; }
        static double b1() { return b1_; }
        static double b2() { return b2_; }
        static double eps_stop() { return stop_; }
    };
    struct opt_gradient_ascent {
        static int iterations() { return iters; }
        static double alpha() { return alpha_; }
        static double gamma() { return gamma_; }
        static bool nesterov() { return nesterov_; }
        static double eps_stop() { return stop_; }
    };
    struct opt_gridsearch {
        static int bins() { return ::bins; }
    };
    struct opt_parallelrepeater {
        static int repeats() { return reps; }
        static double epsilon() { return eps_; }
    };
};
static std::string nm(const std::string& p, int i) { return p + std::to_string(i); }
struct Call {
    V x, g;
    double v;
};
// any (functional) objective with any gradient; records every evaluation
struct Objective {
    mutable std::vector<Call> log;
    bool check_box = false;
    int (*sign)(int) = nullptr;
    opt::eval_t operator()(const V& x, bool grad) const
    {
        if (check_box)
            box(x, "evaluated point in the box");
        Call c;
        c.x = x;
        c.v = sign ? 1. - (double)log.size() : vp_uf("f", x.data(), x.size());
        c.g = V(x.size());
        if (grad)
            for (int i = 0; i < x.size(); i++)
                c.g(i) = sign ? sign(log.size()) * vp_pos(nm("g", log.size()).c_str()) : vp_uf(nm("g", i).c_str(), x.data(), x.size());
        log.push_back(c);
        if (!grad)
            return opt::no_grad(c.v);
        return opt::eval_t{c.v, c.g};
    }
    static void box(const V& x, const char* l)
    {
        for (int i = 0; i < x.size(); i++) {
            vp_check_le(0., x(i), l, 0);
            vp_check_le(x(i), 1., l, 0);
        }
    }
};
static V start(int d, bool box)
{
    V x(d);
    for (int i = 0; i < d; i++)
        x(i) = box ? vp_sym(nm("x", i).c_str(), 0, 1) : vp_sym(nm("x", i).c_str());
    return x;
}
static void steps(bool sym_stop)
{
    alpha_ = vp_sym("alpha", 0);
    stop_ = sym_stop ? vp_sym("stop", 0) : 0.;
}
static void in_box(const V& r, int d)
{
    vp_check(r.size() == d, "dimension of the result");
    Objective::box(r, "returned point in the box");
}
// ------------------------------------------------------------------ C13
template <typename Opt>
static void boxed_run(int d)
{
    Objective f;
    f.check_box = true;
    V x = start(d, false);
    in_box(Opt()(f, x, true), d);
    vp_check(!f.log.empty() || iters == 0, "objective evaluated");
    vp_reach("end");
}
VP_CASE(box_rprop_1d, 'R', "1 dimension, 0 to 3 iterations, any objective, gradient, start and gradient threshold")
{
    iters = vp_choice(4, "iterations");
    steps(true);
    boxed_run<opt::Rprop<Params>>(1);
}
VP_CASE(box_rprop_2d, 'R', "2 dimensions, 2 iterations")
{
    iters = 2;
    steps(false);
    boxed_run<opt::Rprop<Params>>(2);
}
VP_CASE(box_adam, 'R', "1 dimension 0 to 2 iterations, 2 dimensions 1 iteration, any objective, gradient, learning rate, decay rates 0.9 / 0.999, no stop threshold")
{
    int d = 1 + vp_choice(2, "dim");
    iters = d == 2 ? 1 : vp_choice(3, "iterations");
    steps(false);
    b1_ = 0.9;
    b2_ = 0.999;
    boxed_run<opt::Adam<Params>>(d);
}
VP_CASE(box_adam_stop, 'R', "1 dimension, 1 iteration, any objective, gradient, learning rate and stop threshold, decay rates 0.9 / 0.999")
{
    iters = 1;
    steps(true);
    b1_ = 0.9;
    b2_ = 0.999;
    boxed_run<opt::Adam<Params>>(1);
}
static void ga(bool sym_stop = false)
{
    steps(sym_stop);
    gamma_ = vp_sym("gamma", 0, 1, VP_OPEN_HI);
    nesterov_ = vp_choice(2, "nesterov");
}
VP_CASE(box_gradient_ascent, 'R', "1 or 2 dimensions, 0 to 3 (1-D) or 2 (2-D) iterations, with and without momentum / Nesterov, any learning rate and momentum")
{
    ga();
    int d = 1 + vp_choice(2, "dim");
    iters = vp_choice(d == 1 ? 4 : 3, "iterations");
    boxed_run<opt::GradientAscent<Params>>(d);
}
VP_CASE(box_gradient_ascent_stop, 'R', "1 or 2 dimensions, 2 (1-D) or 1 (2-D) iterations, any learning rate, momentum and stop threshold")
{
    ga(true);
    int d = 1 + vp_choice(2, "dim");
    iters = d == 1 ? 2 : 1;
    boxed_run<opt::GradientAscent<Params>>(d);
}
VP_CASE(box_random, 'R', "1 to 3 dimensions, any draws")
{
    Objective f;
    int d = 1 + vp_choice(3, "dim");
    in_box(opt::RandomPoint<Params>()(f, start(d, true), true), d);
    vp_reach("end");
}
VP_CASE(t_box_repeater_deep, 'R', "2 restarts of Rprop (2 iterations, 1-D), any draws, any epsilon > 0")
{
    reps = iters = 2;
    steps(false);
    eps_ = vp_pos("epsilon");
    boxed_run<opt::ParallelRepeater<Params, opt::Rprop<Params>>>(1);
}
VP_CASE(box_repeater, 'R', "2 restarts of Rprop (1 iteration, 1-D), any draws, any epsilon > 0, starts pushed out of the box included")
{
    reps = 2;
    iters = 1;
    steps(false);
    eps_ = vp_pos("epsilon");
    boxed_run<opt::ParallelRepeater<Params, opt::Rprop<Params>>>(1);
}
VP_CASE(box_repeater_random, 'R', "3 restarts of RandomPoint, 1-D, any draws")
{
    reps = 3;
    eps_ = vp_pos("epsilon");
    boxed_run<opt::ParallelRepeater<Params, opt::RandomPoint<Params>>>(1);
}
VP_CASE(box_chained, 'R', "Rprop then gradient ascent then Adam, 1-D, 1 iteration each")
{
    iters = 1;
    b1_ = 0.9;
    b2_ = 0.999;
    ga();
    boxed_run<opt::Chained<Params, opt::Rprop<Params>, opt::GradientAscent<Params>, opt::Adam<Params>>>(1);
}
// grid objectives: linear with symbolic weights (large grids) or anything (small grids)
struct GridObjective {
    mutable std::vector<Call> log;
    int kind = 0; // 0 linear, 1 any function, 2 a spike of symbolic height at one evaluation index
    V w;
    int spike = 0;
    double h = 0;
    bool check_box = false;
    opt::eval_t operator()(const V& x, bool) const
    {
        if (check_box)
            Objective::box(x, "evaluated point in the box");
        Call c;
        c.x = x;
        if (kind == 1)
            c.v = vp_uf("f", x.data(), x.size());
        else if (kind == 0) {
            c.v = 0;
            for (int i = 0; i < x.size(); i++)
                c.v += w(i) * x(i);
        }
        else {
            int k = 0;
            for (int i = x.size() - 1; i >= 0; i--)
                k = k * (bins + 1) + (int)(x(i) * bins + 0.5);
            c.v = k == spike ? h : 0.;
        }
        log.push_back(c);
        return opt::no_grad(c.v);
    }
};
static GridObjective linear(int d)
{
    GridObjective f;
    f.w = V(d);
    for (int i = 0; i < d; i++)
        f.w(i) = vp_sym(nm("w", i).c_str());
    return f;
}
// 1-D: linear objective, any weight; more dimensions: any value at one corner or inner point, 0 elsewhere
static GridObjective grid_family(int& d)
{
    d = 1 + vp_choice(3, "dim");
    bins = 1 + vp_choice(d == 1 ? 20 : d == 2 ? 12 : 3, "bins");
    if (d == 1)
        return linear(1);
    GridObjective f;
    f.kind = 2;
    int total = d == 2 ? (bins + 1) * (bins + 1) : (bins + 1) * (bins + 1) * (bins + 1);
    int at[] = {total - 1, 0, bins, bins * (bins + 1), total / 2};
    f.spike = at[vp_choice(5, "spike")];
    f.h = vp_sym("height");
    return f;
}
#define GRID_B "1-D: bins 1 to 20, linear objectives with any weight; 2-D: bins 1 to 12, 3-D: bins 1 to 3, any value at one of five grid points, 0 elsewhere"
VP_CASE(box_grid, 'R', GRID_B)
{
    int d;
    GridObjective f = grid_family(d);
    f.check_box = true;
    in_box(opt::GridSearch<Params>()(f, V::Constant(d, 0.5), true), d);
    vp_reach("end");
}
// ------------------------------------------------------------------ C14
static bool has(const std::vector<Call>& log, const V& x)
{
    for (auto& c : log) {
        bool eq = true;
        for (int i = 0; i < x.size(); i++)
            eq = eq && c.x(i) == x(i);
        if (eq)
            return true;
    }
    return false;
}
template <typename F>
static void grid_rules(const V& r, const F& f, int d, int b)
{
    auto log = f.log;
    int total = 1;
    for (int i = 0; i < d; i++)
        total *= b + 1;
    std::vector<int> seen(total, 0);
    for (auto& c : log) {
        int k = 0;
        for (int i = d - 1; i >= 0; i--) {
            double q = c.x(i) * b;
            int l = (int)(q + 0.5);
            vp_check(std::abs(q - l) < 1e-9 && l >= 0 && l <= b, "evaluated points are grid points");
            if (l < 0 || l > b)
                return;
            k = k * (b + 1) + l;
        }
        seen[k]++;
    }
    for (int k = 0; k < total; k++)
        vp_check(seen[k] > 0, "every grid point from 0 to 1 is evaluated");
    vp_check(r.size() == d, "dimension of the result");
    vp_check(has(log, r), "result is an evaluated point");
    double v = opt::fun(f(r, false));
    for (auto& c : log)
        vp_check_le(c.v, v, "result maximises over the grid");
}
VP_CASE(rule_grid, 'R', GRID_B)
{
    int d;
    GridObjective f = grid_family(d);
    V r = opt::GridSearch<Params>()(f, V::Constant(d, 0.5), true);
    grid_rules(r, f, d, bins);
    vp_reach("end");
}
static void grid_any(int d, int b)
{
    bins = b;
    GridObjective f;
    f.kind = 1;
    V r = opt::GridSearch<Params>()(f, V::Constant(d, 0.5), true);
    grid_rules(r, f, d, bins);
    vp_reach("end");
}
VP_CASE(rule_grid_any, 'R', "any objective on 1-D grids with 1 to 4 bins") { grid_any(1, 1 + vp_choice(4, "bins")); }
VP_CASE(rule_grid_any_2d, 'R', "any objective on the 2-D grid with 1 bin") { grid_any(2, 1); }
VP_CASE(t_rule_grid_any_2d, 'R', "any objective on the 2-D grid with 2 bins") { grid_any(2, 2); }
VP_CASE(t_rule_grid_spike, 'R', "3 dimensions, bins 2: any value at any one grid point, 0 elsewhere")
{
    bins = 2;
    GridObjective f;
    f.kind = 2;
    f.spike = vp_choice(27, "spike at");
    f.h = vp_sym("height");
    V r = opt::GridSearch<Params>()(f, V::Constant(3, 0.5), true);
    grid_rules(r, f, 3, bins);
    vp_reach("end");
}
VP_CASE(rule_grid_extreme, 'F', "1-D, bins 2: any IEEE values but NaN, infinities and the most negative double included")
{
    bins = 2;
    std::vector<Call> log;
    double v[3];
    for (int i = 0; i < 3; i++) {
        v[i] = vp_any(nm("v", i).c_str());
        vp_assume(v[i] == v[i]);
    }
    auto f = [&](const V& x, bool) { return opt::no_grad(v[(int)(x(0) * 2 + 0.5)]); };
    V r = opt::GridSearch<Params>()(f, V::Constant(1, 0.5), true);
    vp_check(r.size() == 1 && r(0) >= 0 && r(0) <= 1, "result in the box");
    if (v[0] > -std::numeric_limits<double>::infinity() || v[1] > -std::numeric_limits<double>::infinity() || v[2] > -std::numeric_limits<double>::infinity()) {
        double q = r(0) * 2;
        vp_check(q == 0 || q == 1 || q == 2, "result is a grid point");
        if (q == 0 || q == 1 || q == 2)
            for (int i = 0; i < 3; i++)
                vp_check(v[(int)q] >= v[i], "result maximises over the grid");
    }
    vp_reach("end");
}
static void clamp(V& p)
{
    for (int j = 0; j < p.size(); j++)
        p(j) = p(j) < 0 ? 0. : p(j) > 1 ? 1. : p(j);
}
static void same(const V& a, const V& b, const char* l)
{
    vp_check(a.size() == b.size(), "size");
    for (int i = 0; i < a.size(); i++)
        vp_check_eq(a(i), b(i), l);
}
static double sq(const V& a)
{
    double s = 0;
    for (int i = 0; i < a.size(); i++)
        s += a(i) * a(i);
    return s;
}
// published Rprop (iRprop-): sign steps, 0.1 initially, times 1.2 / 0.5 within [1e-6, 50]
// sign: prescribed sign of each gradient (0: any)
static void rprop_rule(int d, bool bounded, int (*sign)(int) = nullptr)
{
    Objective f;
    f.sign = sign;
    V x = start(d, false);
    V r = opt::Rprop<Params>()(f, x, bounded);
    V p = x, del = V::Constant(d, 0.1), old = V::Zero(d);
    if (bounded)
        clamp(p);
    size_t k = 0;
    for (int i = 0; i < iters; i++) {
        if (k >= f.log.size()) {
            vp_check(false, "number of evaluations");
            return;
        }
        Call c = f.log[k++];
        same(c.x, p, "evaluated point");
        V g = c.g;
        for (int j = 0; j < d; j++) {
            double s = old(j) * g(j);
            if (s > 0)
                del(j) = std::min(del(j) * 1.2, 50.);
            else if (s < 0) {
                del(j) = std::max(del(j) * 0.5, 1e-6);
                g(j) = 0;
            }
            if (g(j) > 0)
                p(j) += del(j);
            else if (g(j) < 0)
                p(j) -= del(j);
        }
        if (bounded)
            clamp(p);
        old = g;
        if (sq(g) < stop_ * stop_)
            break;
    }
    vp_check(k == f.log.size(), "stops at the iteration limit or the gradient threshold");
    if (f.log.empty())
        same(r, p, "returns the start");
    else {
        vp_check(has(f.log, r), "returned point was evaluated");
        if (sign) { // the values fall along the run
            same(r, x, "no evaluated point is better");
            vp_reach("end");
            return;
        }
        auto l = f.log;
        double v = vp_uf("f", r.data(), d);
        for (auto& c : l)
            vp_check_le(c.v, v, "no evaluated point is better");
    }
    vp_reach("end");
}
static int up(int) { return 1; }
static int zigzag(int k) { return k % 2 ? -1 : 1; }
VP_CASE(rule_rprop_limits, 'R', "1-D, unbounded, 45 iterations with ascending gradients (step limit 50) or alternating ones (step limit 1e-6), any magnitudes, objective falling along the run")
{
    steps(false);
    iters = 45;
    rprop_rule(1, false, vp_choice(2, "pattern") ? zigzag : up);
}
VP_CASE(rule_rprop, 'R', "1-D, 0 to 3 iterations, bounded and unbounded, any start, objective, gradient, threshold")
{
    iters = vp_choice(4, "iterations");
    steps(true);
    rprop_rule(1, vp_choice(2, "bounded"));
}
VP_CASE(rule_rprop_2d, 'R', "2-D, 2 iterations, unbounded")
{
    iters = 2;
    steps(false);
    rprop_rule(2, false);
}
VP_CASE(t_rule_rprop_deep, 'R', "1-D, 5 iterations, unbounded, threshold 0")
{
    iters = 5;
    steps(false);
    rprop_rule(1, false);
}
static void adam_rule(int d, bool bounded)
{
    Objective f;
    V x = start(d, false);
    V r = opt::Adam<Params>()(f, x, bounded);
    V p = x, m = V::Zero(d), v = V::Zero(d);
    if (bounded)
        clamp(p);
    size_t k = 0;
    double t1 = 1, t2 = 1;
    for (int i = 0; i < iters; i++) {
        if (k >= f.log.size()) {
            vp_check(false, "number of evaluations");
            return;
        }
        Call c = f.log[k++];
        same(c.x, p, "evaluated point");
        V o = p;
        t1 *= b1_;
        t2 *= b2_;
        for (int j = 0; j < d; j++) {
            m(j) = b1_ * m(j) + (1 - b1_) * c.g(j);
            v(j) = b2_ * v(j) + (1 - b2_) * c.g(j) * c.g(j);
            p(j) += alpha_ * (m(j) / (1 - t1)) / (std::sqrt(v(j) / (1 - t2)) + 1e-8);
        }
        if (bounded)
            clamp(p);
        if (std::sqrt(sq(o - p)) < stop_)
            break;
    }
    vp_check(k == f.log.size(), "stops at the iteration limit or the step threshold");
    same(r, p, "returned point");
    vp_reach("end");
}
VP_CASE(rule_adam, 'R', "1-D, 0 to 2 iterations, bounded and unbounded, any start, gradient, learning rate, decay rates in [0,1)")
{
    iters = vp_choice(3, "iterations");
    steps(false);
    b1_ = vp_sym("b1", 0, 1, VP_OPEN_HI);
    b2_ = vp_sym("b2", 0, 1, VP_OPEN_HI);
    adam_rule(1, vp_choice(2, "bounded"));
}
VP_CASE(rule_adam_stop, 'R', "1-D, 2 iterations, unbounded, any threshold, decay rates 0.9 / 0.999")
{
    iters = 2;
    steps(true);
    b1_ = 0.9;
    b2_ = 0.999;
    adam_rule(1, false);
}
VP_CASE(rule_adam_2d, 'R', "2-D, 2 iterations, unbounded, decay rates 0.9 / 0.999")
{
    iters = 2;
    steps(false);
    b1_ = 0.9;
    b2_ = 0.999;
    adam_rule(2, false);
}
static void ga_rule(int d, bool bounded)
{
    Objective f;
    V x = start(d, false);
    V r = opt::GradientAscent<Params>()(f, x, bounded);
    V p = x, v = V::Zero(d);
    if (bounded)
        clamp(p);
    size_t k = 0;
    for (int i = 0; i < iters; i++) {
        if (k >= f.log.size()) {
            vp_check(false, "number of evaluations");
            return;
        }
        Call c = f.log[k++];
        V q = p, o = p;
        if (nesterov_) {
            q = p + gamma_ * v;
            if (bounded)
                clamp(q);
        }
        same(c.x, q, "evaluated point");
        for (int j = 0; j < d; j++) {
            v(j) = gamma_ * v(j) + alpha_ * c.g(j);
            p(j) += v(j);
        }
        if (bounded)
            clamp(p);
        if (std::sqrt(sq(o - p)) < stop_)
            break;
    }
    vp_check(k == f.log.size(), "stops at the iteration limit or the step threshold");
    same(r, p, "returned point");
    vp_reach("end");
}
VP_CASE(rule_gradient_ascent, 'R', "1-D 0 to 3 iterations (2 when bounded), plain / momentum / Nesterov, any start, gradient, learning rate and momentum")
{
    ga();
    bool b = vp_choice(2, "bounded");
    iters = vp_choice(b ? 3 : 4, "iterations");
    ga_rule(1, b);
}
VP_CASE(rule_gradient_ascent_stop, 'R', "1-D and 2-D, 2 iterations, any step threshold, unbounded")
{
    ga();
    stop_ = vp_sym("stop", 0);
    iters = 2;
    ga_rule(1 + vp_choice(2, "dim"), false);
}
VP_CASE(rule_gradient_ascent_stop_bounded, 'R', "1-D, 3 iterations, bounded, any start and gradient, learning rate 1/2, momentum 3/4, step threshold 1/64")
{
    alpha_ = 0.5;
    gamma_ = 0.75;
    stop_ = 0.015625;
    nesterov_ = vp_choice(2, "nesterov");
    iters = 3;
    ga_rule(1, true);
}
// user optimisers that return anything
static std::vector<V> inits, outs;
static std::vector<bool> bnds;
template <int N>
struct Stage {
    template <typename F>
    V operator()(const F& f, const V& init, bool bounded) const
    {
        inits.push_back(init);
        bnds.push_back(bounded);
        V r(init.size());
        for (int i = 0; i < r.size(); i++)
            r(i) = vp_sym((nm("out", outs.size()) + nm("_", i)).c_str());
        vp_observe(N, "stage");
        order.push_back(N);
        outs.push_back(r);
        return r;
    }
    static std::vector<int> order;
};
template <int N>
std::vector<int> Stage<N>::order;
VP_CASE(rule_chained, 'R', "chains of 1 to 3 user optimisers that return anything, 2-D")
{
    Objective f;
    V x = start(2, false), r;
    bool b = vp_choice(2, "bounded");
    int n = 1 + vp_choice(3, "stages");
    if (n == 1)
        r = opt::Chained<Params, Stage<0>>()(f, x, b);
    else if (n == 2)
        r = opt::Chained<Params, Stage<0>, Stage<1>>()(f, x, b);
    else
        r = opt::Chained<Params, Stage<0>, Stage<1>, Stage<2>>()(f, x, b);
    vp_check((int)outs.size() == n, "every stage runs once");
    for (int i = 0; i < (int)outs.size() && i < n; i++) {
        same(inits[i], i ? outs[i - 1] : x, "stage starts from the result of the previous one");
        vp_check(bnds[i] == b, "boundedness passed on");
    }
    if (!outs.empty())
        same(r, outs.back(), "result of the last stage");
    vp_check((int)Stage<0>::order.size() == 1 && (int)Stage<1>::order.size() == (n > 1) && (int)Stage<2>::order.size() == (n > 2), "stages in the given order");
    vp_reach("end");
}
static void repeater(int rep, int d)
{
    reps = rep;
    eps_ = vp_pos("epsilon");
    Objective f;
    V x = start(d, false);
    bool b = vp_choice(2, "bounded");
    V r = opt::ParallelRepeater<Params, Stage<0>>()(f, x, b);
    vp_check((int)outs.size() == rep, "one run per restart");
    for (size_t i = 0; i < outs.size(); i++) {
        vp_check(bnds[i] == b, "boundedness passed on");
        for (int j = 0; j < d; j++) {
            vp_check_le(inits[i](j), x(j) + eps_, "restart within epsilon of the start");
            vp_check_le(x(j) - eps_, inits[i](j), "restart within epsilon of the start");
        }
    }
    double fr = vp_uf("f", r.data(), d);
    bool is = false;
    for (auto& o : outs) {
        bool eq = true;
        for (int j = 0; j < d; j++)
            eq = eq && o(j) == r(j);
        is = is || eq;
        vp_check_le(vp_uf("f", o.data(), d), fr, "best of the restarts");
    }
    vp_check(is, "result of one of the restarts");
    vp_reach("end");
}
VP_CASE(rule_repeater, 'R', "1 to 3 restarts of a user optimiser that returns anything, 1-D, any epsilon, draws and objective") { repeater(1 + vp_choice(3, "restarts"), 1); }
VP_CASE(rule_repeater_2d, 'R', "2 restarts, 2-D") { repeater(2, 2); }
VP_CASE(rule_repeater_extreme, 'F', "2 restarts with any values but NaN (infinities and the most negative values included) of which one is above minus infinity")
{
    reps = 2;
    eps_ = 0.01;
    static double val[2];
    static int k;
    k = 0;
    for (int i = 0; i < 2; i++) {
        val[i] = vp_any(nm("v", i).c_str());
        vp_assume(val[i] == val[i]);
    }
    struct Inner {
        V operator()(const std::function<opt::eval_t(const V&, bool)>&, const V& init, bool) const { return V::Constant(1, 10. + k++); }
    };
    std::function<opt::eval_t(const V&, bool)> f = [&](const V& x, bool) { return opt::no_grad(val[(int)x(0) - 10]); };
    V r = opt::ParallelRepeater<Params, Inner>()(f, V::Constant(1, 0.5), false);
    const double inf = std::numeric_limits<double>::infinity();
    if (val[0] > -inf || val[1] > -inf) {
        vp_check(r(0) == 10 || r(0) == 11, "result of one of the restarts");
        if (r(0) == 10)
            vp_check(val[0] >= val[1], "best of the restarts");
        if (r(0) == 11)
            vp_check(val[1] >= val[0], "best of the restarts");
    }
    vp_reach("end");
}
