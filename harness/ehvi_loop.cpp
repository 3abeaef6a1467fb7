// C30: the optimiser around the acquisition function; the library's improvement is an unknown function of the front,
// the reference, the means and the deviations (C32 is about the library)
#include "ehvi_common.hpp"
static double improvement_of(std::vector<std::pair<double, double>> f, const double r[], const double mu[], const double s[])
{
    std::sort(f.begin(), f.end(), [](const std::pair<double, double>& a, const std::pair<double, double>& b) { return a.first < b.first; });
    std::vector<double> a;
    for (auto& p : f) {
        a.push_back(p.first);
        a.push_back(p.second);
    }
    for (int k = 0; k < 2; k++) {
        a.push_back(r[k]);
        a.push_back(mu[k]);
        a.push_back(s[k]);
    }
    return vp_uf(nm("ehvi", f.size()).c_str(), a.data(), a.size(), 0);
}
double ehvi2d(std::deque<individual*> p, double r[], double mu[], double s[])
{
    std::vector<std::pair<double, double>> f;
    for (auto i : p)
        f.push_back({i->f[0], i->f[1]});
    return improvement_of(f, r, mu, s);
}
static int base_ = 0; // evaluations before the last reset
// the improvement expected at v after n evaluations
static double improvement(int n, const V& v)
{
    std::vector<std::pair<double, double>> f;
    for (int i = 0; i < n; i++)
        if (in_front(i, n))
            f.push_back({value(i, 0), value(i, 1)});
    double r[2], mu[2], s[2];
    for (int k = 0; k < 2; k++) {
        r[k] = axis_[k][0];
        mu[k] = Obj::mean(k, n, v);
        s[k] = std::sqrt(Obj::variance(k, n, v));
    }
    return improvement_of(f, r, mu, s);
}
// the optimiser: inner optimisations may return anything
struct Inner {
    struct Rec {
        V start, chosen;
        double v;
    };
    static std::vector<Rec>& recs()
    {
        static std::vector<Rec> r;
        return r;
    }
    template <typename F>
    V operator()(const F& f, const V& start, bool bounded) const
    {
        int n = L().evals.size() - base_, k = recs().size();
        vp_check(bounded, "within the box");
        double want = improvement(n, start);
        vp_check_eq(limbo::opt::fun(f(start, false)), want, "maximises the expected hypervolume improvement of the current models over the current front");
        V r(start.size());
        for (int i = 0; i < r.size(); i++)
            r(i) = vp_sym(nm("pick", k, i).c_str(), k / 16. + 0.005, k / 16. + 0.055); // all different
        recs().push_back({start, r, improvement(n, r)});
        return r;
    }
};
typedef boost::fusion::vector<Stat> Stats;
typedef stop::MaxIterations<EP> Stop;
typedef experimental::bayes_opt::Ehvi<EP, modelfun<Obj>, initfun<Init>, acquiopt<Inner>, statsfun<Stats>, stopcrit<Stop>> Opti;
// what a run must have done: iterations `from` .. `to` (evaluations since the reset), the searches from number r on
static size_t check_run(const std::vector<Pair>& h, int from, int to, size_t r)
{
    for (int n = from; n < to; n++) {
        std::vector<int> f;
        for (int i = 0; i < n; i++)
            if (in_front(i, n))
                f.push_back(i);
        vp_check(r + f.size() <= Inner::recs().size(), "one search per point of the front");
        std::vector<int> seen(f.size(), 0);
        double chosen = 0;
        bool found = false;
        for (size_t i = 0; i < f.size() && r + i < Inner::recs().size(); i++) {
            auto& s = Inner::recs()[r + i];
            for (size_t j = 0; j < f.size(); j++)
                if (__builtin_memcmp(s.start.data(), h[f[j]].x.data(), sizeof(double)) == 0)
                    seen[j]++;
            if (__builtin_memcmp(s.chosen.data(), h[n].x.data(), sizeof(double)) == 0) {
                found = true;
                chosen = s.v;
            }
        }
        for (size_t j = 0; j < f.size(); j++)
            vp_check(seen[j] == 1, "a search from each point of the front");
        vp_check(found, "the evaluated point is one the searches returned");
        for (size_t i = 0; i < f.size() && r + i < Inner::recs().size(); i++)
            vp_check_le(Inner::recs()[r + i].v, chosen, "the evaluated point has the greatest expected improvement");
        r += f.size();
    }
    return r;
}
static void loop(int init, int iters, int again)
{
    C().dout = 2;
    C().init = init;
    C().iters = iters;
    bool reset = again && vp_choice(2, "reset");
    prepare(init + (reset ? std::max(iters, again) : iters + again));
    Fun::value = [](int k, int o) { return value(k - base_, o); };
    Open<Opti> bo;
    bo.optimize(FunM());
    auto h = history(bo);
    same_data(h, L().evals, "the history is what was evaluated");
    vp_check((int)h.size() == init + iters && (int)L().calls.size() == init + iters, "one evaluation per iteration");
    vp_check(bo.current_iteration() == iters && bo.total() == iters && L().count('s') == iters, "iterations");
    size_t r = check_run(h, init, init + iters, 0);
    if (again) {
        int from = reset ? init : init + iters;
        base_ = reset ? init + iters : 0;
        C().iters = again;
        bo.optimize(FunM(), reset);
        h = history(bo);
        same_data(h, std::vector<Pair>(L().evals.begin() + base_, L().evals.end()), "the history is what was evaluated since the reset");
        vp_check((int)h.size() == from + again, "one evaluation per iteration");
        vp_check(bo.current_iteration() == again && bo.total() == (reset ? again : iters + again) && L().count('s') == iters + again, "iterations");
        r = check_run(h, from, from + again, r);
    }
    vp_check(r == Inner::recs().size(), "no other search");
    check_models(bo.models(), (int)h.size() - 1, bo.samples());
    vp_check(L().count('i') == (reset ? 2 : 1), "initialised once per fresh start");
    vp_reach("end");
}
VP_CASE(loop_short, 'R', "1 or 2 initial points, 1 iteration, 2 objectives: all values and predictions, any order of the values, any answers of the searches") { loop(1 + vp_choice(2, "initial"), 1, 0); }
VP_CASE(loop_2, 'R', "1 initial point, 2 iterations, 2 objectives: all values and predictions, any order of the values, any answers of the searches") { loop(1, 2, 0); }
VP_CASE(loop_again, 'R', "1 initial point, 1 iteration, then another with or without reset") { loop(1, 1, 1); }
VP_CASE(loop_3, 'R', "1 initial point, 3 iterations") { loop(1, 3, 0); }
VP_CASE(loop_wide, 'R', "3 initial points, 1 iteration") { loop(3, 1, 0); }
VP_CASE(no_iteration, 'R', "0 iterations: only the initial points are evaluated")
{
    C().dout = 2;
    C().init = 1 + vp_choice(2, "initial");
    C().iters = 0;
    prepare(C().init);
    Fun::value = value;
    Open<Opti> bo;
    bo.optimize(FunM());
    same_data(history(bo), L().evals, "the history is what was evaluated");
    vp_check((int)L().calls.size() == C().init && Inner::recs().empty() && L().count('s') == 0 && bo.current_iteration() == 0, "no iteration");
    vp_reach("end");
}
// whatever the order of the named arguments, and through the namespace of the multi-objective optimisers
namespace eb = experimental::bayes_opt;
template <typename B>
static void named()
{
    Open<B> bo;
    bo.optimize(FunM());
    vp_check(Inner::recs().size() == 1, "the given inner optimiser");
    vp_check(L().count('i') == 1 && L().count('s') == 1, "the given initialiser and statistics");
    vp_check(bo.models().size() == 2 && bo.samples().size() == 2, "the given model, the given stopping criterion");
}
VP_CASE(named_arguments, 'R', "no named argument is ignored: several orders, keywords of either namespace")
{
    C().dout = 2;
    C().init = 1;
    C().iters = 1;
    prepare(2);
    Fun::value = value;
    int k = vp_choice(4, "order");
    if (k == 0)
        named<eb::Ehvi<EP, acquiopt<Inner>, modelfun<Obj>, initfun<Init>, statsfun<Stats>, stopcrit<Stop>>>();
    if (k == 1)
        named<eb::Ehvi<EP, stopcrit<Stop>, statsfun<Stats>, initfun<Init>, modelfun<Obj>, acquiopt<Inner>>>();
    if (k == 2)
        named<eb::Ehvi<EP, eb::modelfun<Obj>, eb::initfun<Init>, eb::statsfun<Stats>, eb::acquiopt<Inner>, eb::stopcrit<Stop>>>();
    if (k == 3)
        named<eb::Ehvi<EP, acquifun<Acqui<EP, Obj>>, initfun<Init>, modelfun<Obj>, stopcrit<Stop>, statsfun<Stats>, acquiopt<Inner>>>();
    vp_reach("end");
}
