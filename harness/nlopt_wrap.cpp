// C15: the NLopt wrappers against a nondeterministic implementation of the library's C interface.
// The library is free to evaluate at any points allowed by the bounds, with or without gradients
// (never for a derivative-free algorithm), to return any allowed point and any result code.
#define USE_NLOPT
#include "vp.hpp"
#include <Eigen/Core>
#include <iostream>
#include <limbo/opt/nlopt_grad.hpp>
#include <limbo/opt/nlopt_no_grad.hpp>
using namespace limbo;
typedef Eigen::VectorXd V;
static std::string nm(const std::string& p, int i, int j = -1) { return p + std::to_string(i) + (j >= 0 ? "_" + std::to_string(j) : ""); }
struct Con {
    nlopt_func f;
    void* d;
    double tol;
    bool eq;
};
struct nlopt_opt_s {
    nlopt_algorithm a;
    unsigned n;
    nlopt_func f = 0;
    void* d = 0;
    bool maximize = false, stop = false;
    std::vector<double> lb, ub;
    double ftol = 0, xtol = 0;
    int maxeval = 0;
    nlopt_munge md = 0, mc = 0;
    std::vector<Con> cons;
};
struct Ev { // one evaluation the library made
    std::vector<double> x, g;
    double v;
    bool grad;
};
struct Run { // one call of nlopt_optimize
    nlopt_opt_s s;
    std::vector<double> x0, x;
    std::vector<Ev> ev;
    std::vector<std::vector<Ev>> con;
    int code;
};
static std::vector<Run> runs;
static int created, max_evals = 2;
static bool allow_fail = true;
static bool derivative(nlopt_algorithm a)
{
    std::string s;
    return a == NLOPT_GD_STOGO || a == NLOPT_GD_STOGO_RAND || a == NLOPT_LD_LBFGS || a == NLOPT_LD_MMA || a == NLOPT_LD_SLSQP || a == NLOPT_LD_VAR1 || a == NLOPT_LD_CCSAQ || a == NLOPT_LD_AUGLAG || a == NLOPT_LD_TNEWTON;
}
extern "C" {
nlopt_opt nlopt_create(nlopt_algorithm a, unsigned n)
{
    auto* o = new nlopt_opt_s;
    o->a = a;
    o->n = n;
    o->lb.assign(n, -HUGE_VAL);
    o->ub.assign(n, HUGE_VAL);
    created++;
    return o;
}
void nlopt_destroy(nlopt_opt o)
{
    if (!o)
        return;
    if (o->md) {
        o->md(o->d);
        for (auto& c : o->cons)
            o->md(c.d);
    }
    delete o;
}
nlopt_opt nlopt_copy(const nlopt_opt o)
{
    if (!o)
        return 0;
    auto* c = new nlopt_opt_s(*o);
    if (o->mc) {
        c->d = o->mc(o->d);
        for (auto& k : c->cons)
            k.d = o->mc(k.d);
    }
    return c;
}
void nlopt_set_munge(nlopt_opt o, nlopt_munge d, nlopt_munge c)
{
    o->md = d;
    o->mc = c;
}
static nlopt_result obj(nlopt_opt o, nlopt_func f, void* d, bool mx)
{
    if (!o)
        return NLOPT_INVALID_ARGS;
    if (o->md)
        o->md(o->d);
    o->f = f;
    o->d = d;
    o->maximize = mx;
    return NLOPT_SUCCESS;
}
nlopt_result nlopt_set_max_objective(nlopt_opt o, nlopt_func f, void* d) { return obj(o, f, d, true); }
nlopt_result nlopt_set_min_objective(nlopt_opt o, nlopt_func f, void* d) { return obj(o, f, d, false); }
unsigned nlopt_get_dimension(const nlopt_opt o) { return o->n; }
nlopt_algorithm nlopt_get_algorithm(const nlopt_opt o) { return o->a; }
const char* nlopt_get_errmsg(const nlopt_opt) { return "stand-in"; }
nlopt_result nlopt_set_lower_bounds(nlopt_opt o, const double* v)
{
    o->lb.assign(v, v + o->n);
    return NLOPT_SUCCESS;
}
nlopt_result nlopt_set_upper_bounds(nlopt_opt o, const double* v)
{
    o->ub.assign(v, v + o->n);
    return NLOPT_SUCCESS;
}
nlopt_result nlopt_set_lower_bounds1(nlopt_opt o, double v)
{
    o->lb.assign(o->n, v);
    return NLOPT_SUCCESS;
}
nlopt_result nlopt_set_upper_bounds1(nlopt_opt o, double v)
{
    o->ub.assign(o->n, v);
    return NLOPT_SUCCESS;
}
nlopt_result nlopt_get_lower_bounds(const nlopt_opt o, double* v)
{
    std::copy(o->lb.begin(), o->lb.end(), v);
    return NLOPT_SUCCESS;
}
nlopt_result nlopt_get_upper_bounds(const nlopt_opt o, double* v)
{
    std::copy(o->ub.begin(), o->ub.end(), v);
    return NLOPT_SUCCESS;
}
#define GS(T, N, M)                                \
    nlopt_result nlopt_set_##N(nlopt_opt o, T v)   \
    {                                              \
        o->M = v;                                  \
        return NLOPT_SUCCESS;                      \
    }                                              \
    T nlopt_get_##N(const nlopt_opt o) { return o->M; }
GS(double, ftol_rel, ftol)
GS(double, xtol_rel, xtol)
GS(int, maxeval, maxeval)
nlopt_result nlopt_set_force_stop(nlopt_opt o, int v)
{
    o->stop = v;
    return NLOPT_SUCCESS;
}
static nlopt_result con(nlopt_opt o, nlopt_func f, void* d, double t, bool eq)
{
    o->cons.push_back({f, d, t, eq});
    return NLOPT_SUCCESS;
}
nlopt_result nlopt_add_inequality_constraint(nlopt_opt o, nlopt_func f, void* d, double t) { return con(o, f, d, t, false); }
nlopt_result nlopt_add_equality_constraint(nlopt_opt o, nlopt_func f, void* d, double t) { return con(o, f, d, t, true); }
nlopt_result nlopt_remove_inequality_constraints(nlopt_opt o)
{
    o->cons.clear();
    return NLOPT_SUCCESS;
}
nlopt_result nlopt_remove_equality_constraints(nlopt_opt o) { return nlopt_remove_inequality_constraints(o); }
static double allowed(nlopt_opt o, int j, const std::string& name) { return vp_sym(name.c_str(), o->lb[j], o->ub[j]); }
static Ev ask(nlopt_opt o, nlopt_func f, void* d, const std::vector<double>& x)
{
    Ev e;
    e.x = x;
    e.grad = derivative(o->a) && vp_choice(2, "gradient wanted");
    e.g.assign(o->n, 12345.);
    e.v = f(o->n, e.x.data(), e.grad ? e.g.data() : 0, d);
    return e;
}
nlopt_result nlopt_optimize(nlopt_opt o, double* x, double* f)
{
    Run r;
    r.s = *o;
    r.x0.assign(x, x + o->n);
    int id = runs.size();
    if (o->n && !o->f)
        return NLOPT_INVALID_ARGS;
    bool inside = true;
    for (unsigned j = 0; j < o->n; j++)
        if (x[j] < o->lb[j] || x[j] > o->ub[j])
            inside = false;
    r.code = NLOPT_INVALID_ARGS;
    if (inside) {
        int ne = vp_choice(max_evals + 1, "evaluations");
        for (int k = 0; k < ne && !o->stop; k++) {
            std::vector<double> p(o->n);
            for (unsigned j = 0; j < o->n; j++)
                p[j] = k == 0 ? x[j] : allowed(o, j, nm("ev", 10 * id + k, j));
            r.ev.push_back(ask(o, o->f, o->d, p));
            r.con.emplace_back();
            for (auto& c : o->cons)
                r.con.back().push_back(ask(o, c.f, c.d, p));
        }
        for (unsigned j = 0; j < o->n; j++)
            x[j] = allowed(o, j, nm("res", id, j));
        static const int codes[] = {NLOPT_SUCCESS, NLOPT_MAXEVAL_REACHED, NLOPT_FAILURE, NLOPT_INVALID_ARGS, NLOPT_ROUNDOFF_LIMITED, NLOPT_FORCED_STOP};
        r.code = o->stop ? (int)NLOPT_FORCED_STOP : codes[vp_choice(allow_fail ? 6 : 2, "result code")];
        *f = vp_sym(nm("optf", id).c_str());
    }
    r.x.assign(x, x + o->n);
    runs.push_back(r);
    return (nlopt_result)r.code;
}
}
static int iters;
static double ftol, xtol;
struct Params {
    struct opt_nloptgrad {
        static int iterations() { return iters; }
        static double fun_tolerance() { return ftol; }
        static double xrel_tolerance() { return xtol; }
    };
    struct opt_nloptnograd {
        static int iterations() { return iters; }
        static double fun_tolerance() { return ftol; }
        static double xrel_tolerance() { return xtol; }
    };
};
struct Fun {
    const char* name;
    mutable std::vector<bool> grads;
    int throw_at = -1; // call at which the objective throws
    double val(const V& x) const { return vp_uf(name, x.data(), x.size()); }
    double der(const V& x, int j) const { return vp_uf(nm(std::string("d") + name, j).c_str(), x.data(), x.size()); }
    opt::eval_t operator()(const V& x, bool grad) const
    {
        grads.push_back(grad);
        if ((int)grads.size() - 1 == throw_at)
            throw std::runtime_error("objective failed");
        if (!grad)
            return opt::no_grad(val(x));
        V g(x.size());
        for (int j = 0; j < x.size(); j++)
            g(j) = der(x, j);
        return opt::eval_t{val(x), g};
    }
};
static void setup()
{
    iters = 7;
    ftol = vp_sym("ftol");
    xtol = vp_sym("xtol");
}
// bounded: in the box, or (1-D) anywhere
static V start(int d, bool bounded, const char* n = "x", bool out = true)
{
    V x(d);
    for (int i = 0; i < d; i++)
        x(i) = bounded && (d > 1 || !out || vp_choice(2, "start in the box")) ? vp_sym(nm(n, i).c_str(), 0, 1) : vp_sym(nm(n, i).c_str());
    return x;
}
static void check_events(const std::vector<Ev>& es, const Fun& f, size_t from = 0)
{
    size_t k = from;
    for (auto& e : es) {
        V x = V::Map(e.x.data(), e.x.size());
        vp_check_eq(e.v, f.val(x), "the library sees the objective's value");
        if (e.grad)
            for (size_t j = 0; j < e.x.size(); j++)
                vp_check_eq(e.g[j], f.der(x, j), "the library sees the objective's gradient");
        vp_check(k < f.grads.size() && f.grads[k] == e.grad, "gradient computed exactly when the library wants it");
        k++;
    }
}
// calls o on f; checks the problem handed over and the result
template <typename O>
static void call(O& o, nlopt_algorithm alg, const Fun& f, const V& x, bool bounded)
{
    size_t n0 = runs.size(), g0 = f.grads.size();
    V r;
    try {
        r = o(f, x, bounded);
    }
    catch (...) {
        vp_check(false, "no failure escapes");
        return;
    }
    vp_check(runs.size() == n0 + 1, "one optimisation");
    if (runs.size() != n0 + 1)
        return;
    Run& u = runs.back();
    int d = x.size();
    vp_check(u.s.a == alg && (int)u.s.n == d, "algorithm and dimension");
    vp_check(u.s.maximize, "maximisation");
    vp_check(u.s.maxeval == iters, "iteration limit");
    vp_check_eq(u.s.ftol, ftol, "function tolerance");
    vp_check_eq(u.s.xtol, xtol, "parameter tolerance");
    vp_check(r.size() == d, "dimension of the result");
    for (int j = 0; j < d; j++) {
        if (bounded) {
            vp_check(u.s.lb[j] == 0 && u.s.ub[j] == 1, "bounds [0,1]");
            vp_check_le(0., r(j), "result in the box");
            vp_check_le(r(j), 1., "result in the box");
            if (x(j) >= 0 && x(j) <= 1)
                vp_check_eq(u.x0[j], x(j), "optimisation from the given start");
        }
        else {
            vp_check(u.s.lb[j] == -HUGE_VAL && u.s.ub[j] == HUGE_VAL, "no bounds");
            vp_check_eq(u.x0[j], x(j), "optimisation from the given start");
        }
        vp_check_eq(r(j), u.x[j], "the library's answer");
    }
    if (u.s.cons.empty())
        check_events(u.ev, f, g0);
}
template <typename O, nlopt::algorithm A>
static void fresh()
{
    setup();
    int d = 1 + vp_choice(2, "dim");
    O o;
    Fun f{"f"};
    bool b = vp_choice(2, "bounded");
    call(o, (nlopt_algorithm)A, f, start(d, b), b);
    vp_reach("end");
}
#define B "any objective and gradient, any start (1-D bounded: in or out of the box), 1 or 2 dimensions, up to 2 library evaluations at any allowed points, any allowed answer, all result codes but out-of-memory"
VP_CASE(fresh_lbfgs, 'R', "NLOptGrad LD_LBFGS; " B) { fresh<opt::NLOptGrad<Params, nlopt::LD_LBFGS>, nlopt::LD_LBFGS>(); }
VP_CASE(fresh_slsqp, 'R', "NLOptGrad LD_SLSQP; " B) { fresh<opt::NLOptGrad<Params, nlopt::LD_SLSQP>, nlopt::LD_SLSQP>(); }
VP_CASE(fresh_direct, 'R', "NLOptNoGrad GN_DIRECT_L_RAND (default); " B) { fresh<opt::NLOptNoGrad<Params>, nlopt::GN_DIRECT_L_RAND>(); }
VP_CASE(fresh_cobyla, 'R', "NLOptNoGrad LN_COBYLA; " B) { fresh<opt::NLOptNoGrad<Params, nlopt::LN_COBYLA>, nlopt::LN_COBYLA>(); }
VP_CASE(reuse, 'R', "the same object used twice, any combination of bounded / unbounded and of dimensions 1 and 2, different objectives")
{
    setup();
    max_evals = 1;
    allow_fail = false;
    opt::NLOptNoGrad<Params, nlopt::LN_SBPLX> o;
    Fun f{"f"}, g{"h"};
    int d1 = 1 + vp_choice(2, "dim"), d2 = 1 + vp_choice(2, "dim");
    bool b1 = vp_choice(2, "bounded"), b2 = vp_choice(2, "bounded");
    call(o, NLOPT_LN_SBPLX, f, start(d1, b1, "x", false), b1);
    call(o, NLOPT_LN_SBPLX, g, start(d2, b2, "y", false), b2);
    vp_reach("end");
}
template <typename O>
static void constraints(nlopt_algorithm a)
{
    setup();
    max_evals = 1;
    int d = 2;
    O o;
    Fun f{"f"}, c1{"c"}, c2{"e"};
    double t1 = vp_sym("tol1", 0), t2 = 1e-8;
    o.add_inequality_constraint(c1, t1); // not initialised: documented to do nothing
    o.initialize(d);
    int which = vp_choice(3, "constraints");
    if (which != 1)
        o.add_inequality_constraint(c1, t1);
    if (which != 0)
        o.add_equality_constraint(c2);
    int n = which == 2 ? 2 : 1;
    bool b = vp_choice(2, "bounded");
    call(o, a, f, start(d, b), b);
    if (runs.size() != 1)
        return;
    Run& u = runs[0];
    vp_check((int)u.s.cons.size() == n, "every constraint installed once");
    if ((int)u.s.cons.size() != n)
        return;
    for (int i = 0; i < n; i++) {
        bool eq = which == 1 || i == 1;
        vp_check(u.s.cons[i].eq == eq, "kind of constraint");
        vp_check_eq(u.s.cons[i].tol, eq ? t2 : t1, "constraint tolerance", 1e-12);
        std::vector<Ev> es;
        for (auto& c : u.con)
            es.push_back(c[i]);
        check_events(es, eq ? c2 : c1);
    }
    check_events(u.ev, f);
    vp_reach("end");
}
VP_CASE(constraints_cobyla, 'R', "one inequality and / or equality constraint, any functions and tolerance, 2 dimensions, derivative-free") { constraints<opt::NLOptNoGrad<Params, nlopt::LN_COBYLA>>(NLOPT_LN_COBYLA); }
VP_CASE(constraints_slsqp, 'R', "one inequality and / or equality constraint, gradient based") { constraints<opt::NLOptGrad<Params, nlopt::LD_SLSQP>>(NLOPT_LD_SLSQP); }
VP_CASE(objective_throws, 'R', "the objective throws at the first or second evaluation")
{
    setup();
    opt::NLOptGrad<Params, nlopt::LD_LBFGS> o;
    Fun f{"f"};
    f.throw_at = vp_choice(2, "throws at");
    bool bounded = vp_choice(2, "bounded");
    V x = start(1, bounded), r;
    try {
        r = o(f, x, bounded);
    }
    catch (...) {
        vp_check(false, "no failure escapes");
        return;
    }
    vp_check(r.size() == 1, "a point is returned");
    if (bounded) {
        vp_check_le(0., r(0), "result in the box");
        vp_check_le(r(0), 1., "result in the box");
    }
    vp_reach("end");
}
