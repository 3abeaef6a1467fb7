// C29: the CMA-ES wrapper, around a library that answers freely.
#include "vp.hpp"
#include <Eigen/Core>
#include <limbo/opt/cmaes.hpp>
#include <limbo/tools/macros.hpp>
using namespace limbo;
typedef Eigen::VectorXd V;
static std::string nm(const std::string& p, int i, int j = -1) { return p + std::to_string(i) + (j >= 0 ? "_" + std::to_string(j) : ""); }
struct Conf {
    double lb = 0, ub = 1, ftol = -1, xtol = -1, target = -1;
    int variant = aIPOP_CMAES, elitism = 0, restarts = 1, evals = -1, iters = -1, lambda = -1;
    bool autoit = true, equal = true, stag = true, initial = false, uh = false, verbose = false, stoch = false;
};
static Conf cf;
struct P {
    struct opt_cmaes {
        static double lbound() { return cf.lb; }
        static double ubound() { return cf.ub; }
        static double fun_tolerance() { return cf.ftol; }
        static double xrel_tolerance() { return cf.xtol; }
        static double fun_target() { return cf.target; }
        static int variant() { return cf.variant; }
        static int elitism() { return cf.elitism; }
        static int restarts() { return cf.restarts; }
        static int max_fun_evals() { return cf.evals; }
        static int max_iters() { return cf.iters; }
        static int lambda() { return cf.lambda; }
        static bool auto_max_iters() { return cf.autoit; }
        static bool equal_fun_evals() { return cf.equal; }
        static bool stagnation() { return cf.stag; }
        static bool fun_compute_initial() { return cf.initial; }
        static bool handle_uncertainty() { return cf.uh; }
        static bool verbose() { return cf.verbose; }
        static bool stochastic() { return cf.stoch; }
    };
};
struct Defaults {
    struct opt_cmaes : public defaults::opt_cmaes {
    };
};
static int progressed = -1;
static V best, mean_, probe;
namespace libcmaes {
    namespace stub {
        std::vector<Given> runs;
        dVec map(int dir, const std::vector<double>& lb, const std::vector<double>& ub, const dVec& v)
        {
            dVec r(v.size());
            for (int i = 0; i < v.size(); i++) {
                double a[3] = {v(i), lb[i], ub[i]};
                r(i) = vp_uf(dir > 0 ? "geno" : "pheno", a, 3);
            }
            return r;
        }
        std::pair<dVec, dVec> run(const Given& g, const FitFunc& f)
        {
            int n = g.dim;
            best.resize(n);
            mean_.resize(n);
            probe.resize(n);
            for (int i = 0; i < n; i++) {
                best(i) = vp_sym(nm("best", runs.size(), i).c_str());
                mean_(i) = vp_sym(nm("mean", runs.size(), i).c_str());
                probe(i) = vp_sym(nm("probe", runs.size(), i).c_str());
            }
            // the library minimises what it is given
            double v = f(probe.data(), n);
            vp_check_eq(v, -vp_uf("objective", probe.data(), n), "minimising the library's function maximises the objective");
            return std::make_pair(best, mean_);
        }
        void progress(int r) { progressed = r; }
    }
}
static int asked = 0;
static bool grad = false;
struct F {
    opt::eval_t operator()(const V& x, bool g) const
    {
        asked++;
        grad = grad || g;
        return opt::no_grad(vp_uf("objective", x.data(), x.size()));
    }
};
static void same(const V& a, const V& b, const char* l)
{
    vp_check(a.size() == b.size(), "dimension");
    for (int i = 0; i < a.size() && i < b.size(); i++)
        vp_check_same(a(i), b(i), l);
}
static V point(int n)
{
    V v(n);
    for (int i = 0; i < n; i++)
        v(i) = vp_sym(nm("init", i).c_str(), 0, 1);
    return v;
}
static V conv(int dir, const V& v)
{
    return libcmaes::stub::map(dir, std::vector<double>(v.size(), cf.lb), std::vector<double>(v.size(), cf.ub), v);
}
VP_CASE(bounded, 'R', "1..3 dimensions, any bounds, start and answer of the library, deterministic or stochastic or noisy objective")
{
    int n = 1 + vp_choice(3, "dimensions");
    cf.lb = vp_sym("lb", -2, 0);
    cf.ub = cf.lb + vp_sym("width", 0.125, 4);
    cf.stoch = vp_choice(2, "stochastic");
    cf.uh = vp_choice(2, "uncertainty");
    V s = point(n);
    V r = opt::Cmaes<P>()(F(), s, true);
    vp_check(libcmaes::stub::runs.size() == 1, "one run");
    auto& g = libcmaes::stub::runs[0];
    vp_check(g.bounded && (int)g.lb.size() == n && (int)g.ub.size() == n && g.dim == n, "bounded search of the same dimension");
    for (int i = 0; i < n && i < (int)g.lb.size(); i++) {
        vp_check_same(g.lb[i], cf.lb, "lower bound");
        vp_check_same(g.ub[i], cf.ub, "upper bound");
    }
    V st = conv(1, s);
    for (int i = 0; i < n; i++)
        vp_check_same(g.x0[i], st(i), "starts from the given point, in the search space");
    vp_check_lt(0, g.sigma, "positive initial step");
    vp_check_le(g.sigma, cf.ub - cf.lb, "initial step within the bounds");
    same(r, conv(-1, cf.stoch || cf.uh ? mean_ : best), cf.stoch || cf.uh ? "the mean of the last distribution, as parameters" : "the best point seen, as parameters");
    vp_check(!grad, "no gradient asked");
    vp_reach("end");
}
VP_CASE(unbounded, 'R', "1..3 dimensions, any start and answer of the library, deterministic or stochastic or noisy objective")
{
    int n = 1 + vp_choice(3, "dimensions");
    cf.stoch = vp_choice(2, "stochastic");
    cf.uh = vp_choice(2, "uncertainty");
    V s = point(n);
    V r = opt::Cmaes<P>()(F(), s, false);
    vp_check(libcmaes::stub::runs.size() == 1, "one run");
    auto& g = libcmaes::stub::runs[0];
    vp_check(!g.bounded && g.dim == n, "unbounded search of the same dimension");
    for (int i = 0; i < n; i++)
        vp_check_same(g.x0[i], s(i), "starts from the given point");
    vp_check_lt(0, g.sigma, "positive initial step");
    same(r, cf.stoch || cf.uh ? mean_ : best, cf.stoch || cf.uh ? "the mean of the last distribution" : "the best point seen");
    vp_reach("end");
}
static int at(const libcmaes::stub::Given& g, int c)
{
    auto i = g.crit.find(c);
    return i == g.crit.end() ? -1 : i->second;
}
VP_CASE(parameters, 'R', "every parameter, any value, both kinds of search: what the library is told")
{
    int n = 1 + vp_choice(2, "dimensions");
    bool bounded = vp_choice(2, "bounded");
    int which = vp_choice(6, "group");
    if (which == 0) {
        cf.variant = vp_choice(3, "variant") * 3;
        cf.elitism = vp_choice(4, "elitism");
        cf.restarts = vp_choice(3, "restarts");
        cf.lambda = vp_choice(3, "lambda") * 7 - 1;
    }
    if (which == 1) {
        cf.evals = vp_choice(3, "evaluations") * 10 - 1;
        cf.iters = vp_choice(3, "iterations") * 10 - 1;
    }
    if (which == 2)
        cf.ftol = vp_choice(2, "tolerance on the value") ? vp_pos("ftol") : -vp_pos("ftol");
    if (which == 3)
        cf.xtol = (vp_choice(3, "tolerance on the point") - 1) * vp_pos("xtol");
    if (which == 4)
        cf.target = (vp_choice(3, "target") - 1) * vp_pos("target value");
    if (which == 5) {
        cf.autoit = vp_choice(2, "automatic iterations");
        cf.equal = vp_choice(2, "equal values");
        cf.stag = vp_choice(2, "stagnation");
        cf.initial = vp_choice(2, "initial value");
        cf.uh = vp_choice(2, "uncertainty");
        cf.verbose = vp_choice(2, "verbose");
    }
    opt::Cmaes<P>()(F(), point(n), bounded);
    auto& g = libcmaes::stub::runs[0];
    using namespace libcmaes;
    vp_check(g.algo == cf.variant && g.elitism == cf.elitism && g.restarts == cf.restarts && g.lambda == cf.lambda, "variant, elitism, restarts, population");
    vp_check(at(g, MAXFEVALS) == 1 && at(g, MAXITER) == 1, "evaluations and iterations are limited");
    if (cf.evals >= 0)
        vp_check(g.max_fevals == cf.evals, "number of evaluations");
    else
        vp_check(g.max_fevals > 0, "a positive number of evaluations");
    if (cf.iters >= 0)
        vp_check(g.max_iter == cf.iters, "number of iterations");
    else
        vp_check(g.max_iter > 0, "a positive number of iterations");
    vp_check(at(g, TOLHISTFUN) == (cf.ftol > 0), "tolerance on the value");
    if (cf.ftol > 0)
        vp_check_same(g.ftol, cf.ftol, "tolerance on the value");
    vp_check(at(g, TOLX) == (cf.xtol > 0), "tolerance on the point");
    if (cf.xtol > 0)
        vp_check_same(g.xtol, cf.xtol, "tolerance on the point");
    vp_check(at(g, FTARGET) == (cf.target > 0), "target");
    if (cf.target > 0)
        vp_check_eq(g.ftarget, -cf.target, "target of the minimised function");
    vp_check(at(g, AUTOMAXITER) == cf.autoit && at(g, EQUALFUNVALS) == cf.equal && at(g, STAGNATION) == cf.stag, "optional stopping criteria");
    vp_check(g.initial_fvalue == cf.initial && g.uh == cf.uh && g.quiet == !cf.verbose, "initial value, uncertainty, verbosity");
    vp_reach("end");
}
VP_CASE(progress, 'R', "progress functions: none, general, specific to the kind of search, both")
{
    bool bounded = vp_choice(2, "bounded");
    int k = vp_choice(8, "set");
    int general = 0, specific = 0, other = 0;
    opt::Cmaes<P> c;
    if (k & 1)
        c.set_progress_function([&](const libcmaes::CMASolutions& s) { general++; same(s.get_best_seen_candidate().get_x_dvec(), best, "the library's solution"); });
    if (k & 2)
        c.set_bounded_progress_function([&](const libcmaes::CMAParameters<libcmaes::GenoPheno<libcmaes::pwqBoundStrategy>>&, const libcmaes::CMASolutions&) { (bounded ? specific : other)++; return 7; });
    if (k & 4)
        c.set_unbounded_progress_function([&](const libcmaes::CMAParameters<libcmaes::GenoPheno<libcmaes::NoBoundStrategy>>&, const libcmaes::CMASolutions&) { (bounded ? other : specific)++; return 7; });
    c(F(), point(2), bounded);
    bool mine = bounded ? (k & 2) : (k & 4);
    vp_check(other == 0, "not the other kind's");
    vp_check(specific == (mine ? 1 : 0), "the specific function");
    vp_check(general == (!mine && (k & 1) ? 1 : 0), "the general function otherwise");
    vp_check(progressed == (mine ? 7 : (k & 1) ? 0 : 100), "the library's own otherwise");
    vp_reach("end");
}
VP_CASE(repeated, 'R', "the same object used twice, bounded then not or the reverse: nothing is kept")
{
    opt::Cmaes<P> c;
    int first = vp_choice(2, "first bounded");
    for (int k = 0; k < 2; k++) {
        bool b = (k + first) % 2;
        V s = V::Constant(2, 0.25 + 0.5 * k);
        V r = c(F(), s, b);
        auto& g = libcmaes::stub::runs[k];
        vp_check(g.bounded == b, "kind of search");
        V st = b ? conv(1, s) : s;
        for (int i = 0; i < 2; i++)
            vp_check_same(g.x0[i], st(i), "start");
        same(r, b ? conv(-1, best) : best, "best point of this run");
    }
    vp_reach("end");
}
VP_CASE(documented_defaults, 'R', "documented default parameters")
{
    typedef Defaults::opt_cmaes D;
    vp_check(D::restarts() == 1 && D::max_fun_evals() == -1 && D::max_iters() == -1 && D::auto_max_iters() && D::equal_fun_evals() && D::stagnation(), "limits");
    vp_check(D::lbound() == 0 && D::ubound() == 1, "unit box");
    vp_check(!D::stochastic() && !D::handle_uncertainty() && D::lambda() == -1 && D::variant() == aIPOP_CMAES && D::elitism() == 0, "search");
    opt::Cmaes<Defaults>()(F(), V::Constant(1, 0.5), true);
    auto& g = libcmaes::stub::runs[0];
    vp_check(at(g, libcmaes::FTARGET) == 0 && at(g, libcmaes::TOLX) == 0 && at(g, libcmaes::TOLHISTFUN) == 0, "no tolerance or target by default");
    vp_check_eq(g.sigma, 0.5, "half of the box");
    vp_reach("end");
}
