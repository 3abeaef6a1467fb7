// plug-ins for the Bayesian optimiser: every user-replaceable part records what happens and answers freely
#ifndef BO_COMMON_HPP
#define BO_COMMON_HPP
#include "vp.hpp"
#include <Eigen/Core>
#include <boost/fusion/include/vector.hpp>
#include <limbo/limbo.hpp>
#include <new>

namespace boc {
    typedef Eigen::VectorXd V;
    typedef Eigen::MatrixXd M;
    inline std::string nm(const std::string& p, int i, int j = -1) { return p + std::to_string(i) + (j >= 0 ? "_" + std::to_string(j) : ""); }
    struct Pair {
        V x, y;
    };
    struct Conf {
        int din = 1, dout = 1, iters = 1, hp = -1, init = 0;
        double agg = 1;
        bool bounded = true;
    };
    inline Conf& C()
    {
        static Conf c;
        return c;
    }
    struct Params {
        struct bayes_opt_bobase {
            static bool stats_enabled() { return false; }
            static bool bounded() { return C().bounded; }
        };
        struct bayes_opt_boptimizer {
            static int hp_period() { return C().hp; }
        };
        struct stop_maxiterations {
            static int iterations() { return C().iters; }
        };
    };
    struct Acq { // one acquisition object
        int iteration, ndata;
        std::vector<Pair> data;
        int tunes;
    };
    struct Event {
        char k; // i init point, e evaluation, c model fit, n new model, a acquisition, o optimiser, s stat, m model update, h tuning, ? stop query
        int n;
    };
    struct Log {
        std::vector<Event> ev;
        std::vector<Pair> evals; // successful objective evaluations
        std::vector<V> calls; // points the objective was called at
        std::vector<Acq> acqs;
        std::vector<V> starts, chosen;
        std::vector<bool> bnd;
        int tunes = 0, tunes_total = 0, fits = 0;
        void add(char k, int n = 0) { ev.push_back({k, n}); }
        int count(char k) const
        {
            int c = 0;
            for (auto& e : ev)
                c += e.k == k;
            return c;
        }
    };
    inline Log& L()
    {
        static Log l;
        return l;
    }
    struct Model {
        int din = -1, dout = -1, tunes = 0;
        std::vector<Pair> data;
        Model() {}
        Model(int i, int o) : din(i), dout(o) { L().add('n'); }
        void compute(const std::vector<V>& x, const std::vector<V>& y)
        {
            L().add('c', x.size());
            vp_check(x.size() == y.size(), "samples and observations aligned");
            data.clear();
            for (size_t i = 0; i < x.size() && i < y.size(); i++)
                data.push_back({x[i], y[i]});
            if (!x.empty()) {
                din = x[0].size();
                dout = y[0].size();
            }
        }
        void add_sample(const V& x, const V& y)
        {
            L().add('m', data.size());
            data.push_back({x, y});
        }
        void optimize_hyperparams()
        {
            L().add('h', data.size());
            L().tunes++;
            tunes++;
        }
        size_t dim_in() const { return din; }
        size_t dim_out() const { return dout; }
        int nb_samples() const { return data.size(); }
        V mu(const V& x) const
        {
            V r(dout);
            for (int o = 0; o < dout; o++)
                r(o) = vp_uf(nm("mu", data.size() * 10 + tunes, o).c_str(), x.data(), x.size());
            return r;
        }
        double sigma(const V& x) const { return vp_uf(nm("s2_", data.size() * 10 + tunes).c_str(), x.data(), x.size(), 0); }
        std::tuple<V, double> query(const V& x) const { return std::make_tuple(mu(x), sigma(x)); }
    };
    template <typename P, typename Mod>
    struct Acqui {
        const Mod& m;
        int id;
        Acqui(const Mod& mod, int it) : m(mod), id(L().acqs.size())
        {
            L().add('a', it);
            L().acqs.push_back({it, (int)mod.data.size(), mod.data, mod.tunes});
        }
        size_t dim_in() const { return m.dim_in(); }
        size_t dim_out() const { return m.dim_out(); }
        template <typename A>
        limbo::opt::eval_t operator()(const V& x, const A& afun, bool) const { return limbo::opt::no_grad(vp_uf(nm("acq", id).c_str(), x.data(), x.size()) + afun(m.mu(x))); }
    };
    // returns any point (of the box when bounded)
    struct AcquiOpt {
        template <typename F>
        V operator()(const F& f, const V& start, bool bounded) const
        {
            int k = L().chosen.size();
            L().add('o', k);
            L().starts.push_back(start);
            L().bnd.push_back(bounded);
            offered(f(start, false), start, k);
            V r(start.size());
            for (int i = 0; i < r.size(); i++)
                r(i) = bounded ? vp_sym(nm("pick", k, i).c_str(), 0, 1) : vp_sym(nm("pick", k, i).c_str());
            L().chosen.push_back(r);
            return r;
        }
        static void (*hook)(double, const V&, int);
        static void offered(const limbo::opt::eval_t& e, const V& x, int k)
        {
            if (hook)
                hook(limbo::opt::fun(e), x, k);
        }
    };
    void (*AcquiOpt::hook)(double, const V&, int) = nullptr;
    struct Stat {
        std::string* p = nullptr;
        template <typename BO, typename A>
        void operator()(const BO& bo, const A&)
        {
            L().add('s', bo.samples().size());
            if (hook)
                hook(bo.samples(), bo.observations(), bo.current_iteration(), bo.total_iterations());
        }
        static void (*hook)(const std::vector<V>&, const std::vector<V>&, int, int);
    };
    void (*Stat::hook)(const std::vector<V>&, const std::vector<V>&, int, int) = nullptr;
    // init with C().init labelled points
    struct Init {
        template <typename S, typename A, typename O>
        void operator()(const S& seval, const A&, O& opt) const
        {
            L().add('i', C().init);
            for (int i = 0; i < C().init; i++)
                opt.eval_and_add(seval, V::Constant(C().din, 0.25 + 0.125 * i));
        }
    };
    // the objective: any value; evaluation number k may fail
    struct Fun {
        static size_t dim_in() { return C().din; }
        static size_t dim_out() { return C().dout; }
        V operator()(const V& x) const
        {
            int k = L().calls.size();
            L().add('e', k);
            L().calls.push_back(x);
            if (fault)
                fault(k);
            V y(C().dout);
            for (int o = 0; o < C().dout; o++)
                y(o) = value ? value(k, o) : vp_sym(nm("y", k, o).c_str());
            L().evals.push_back({x, y});
            return y;
        }
        static void (*fault)(int);
        static double (*value)(int, int);
    };
    void (*Fun::fault)(int) = nullptr;
    double (*Fun::value)(int, int) = nullptr;
    inline void same(const V& a, const V& b, const char* l)
    {
        vp_check(a.size() == b.size(), "vector size");
        for (int i = 0; i < a.size() && i < b.size(); i++)
            vp_check_same(a(i), b(i), l);
    }
    inline void same_data(const std::vector<Pair>& d, const std::vector<Pair>& e, const char* l)
    {
        vp_check(d.size() == e.size(), l);
        for (size_t i = 0; i < d.size() && i < e.size(); i++) {
            same(d[i].x, e[i].x, l);
            same(d[i].y, e[i].y, l);
        }
    }
    template <typename BO>
    std::vector<Pair> history(const BO& bo)
    {
        vp_check(bo.samples().size() == bo.observations().size(), "samples and observations aligned");
        std::vector<Pair> r;
        for (size_t i = 0; i < bo.samples().size() && i < bo.observations().size(); i++)
            r.push_back({bo.samples()[i], bo.observations()[i]});
        return r;
    }
    template <typename I, typename S>
    using BO = limbo::bayes_opt::BOptimizer<Params, limbo::modelfun<Model>, limbo::acquifun<Acqui<Params, Model>>, limbo::acquiopt<AcquiOpt>, limbo::initfun<I>, limbo::statsfun<boost::fusion::vector<Stat>>, limbo::stopcrit<S>>;
    // constructed over memory filled with garbage: nothing may depend on what was there
    template <typename T>
    struct Dirty {
        alignas(T) unsigned char m[sizeof(T)];
        T* p;
        Dirty()
        {
            for (auto& c : m)
                c = 0x5b;
            asm volatile("" ::"r"(m) : "memory");
            p = new (m) T; // default initialisation, as in a declaration
        }
        ~Dirty() { p->~T(); }
        T& operator*() { return *p; }
        T* operator->() { return p; }
    };
} // namespace boc
#endif
