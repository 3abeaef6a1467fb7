// Stand-in for the part of libcmaes limbo uses: it records what it is given and answers freely.
// The search space (genotype) and the parameter space (phenotype) are linked by unknown functions.
#ifndef CMAES_STUB_H
#define CMAES_STUB_H
#include <Eigen/Core>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>
#define CMAES_DEFAULT 0
#define IPOP_CMAES 1
#define BIPOP_CMAES 2
#define aCMAES 3
#define aIPOP_CMAES 4
#define aBIPOP_CMAES 5
#define sepCMAES 6
#define VD_CMAES 12
typedef Eigen::VectorXd dVec;
namespace libcmaes {
    typedef std::function<double(const double*, const int& n)> FitFunc;
    template <class P, class S>
    using ProgressFunc = std::function<int(const P&, const S&)>;
    enum CMAStopCritType { CONT = 0,
        AUTOMAXITER = 1,
        TOLHISTFUN = 2,
        EQUALFUNVALS = 3,
        TOLX = 4,
        TOLUPSIGMA = 5,
        STAGNATION = 6,
        CONDITIONCOV = 7,
        NOEFFECTAXIS = 8,
        NOEFFECTCOOR = 9,
        MAXFEVALS = 10,
        MAXITER = 11,
        FTARGET = 12 };
    struct NoBoundStrategy {
    };
    struct pwqBoundStrategy {
    };
    namespace stub {
        struct Given { // what the optimiser was run with
            bool bounded = false;
            std::vector<double> lb, ub, x0;
            double sigma = 0, ftol = 0, xtol = 0, ftarget = 0;
            int dim = 0, lambda = 0, algo = -1, restarts = -1, elitism = -1;
            long max_fevals = -2, max_iter = -2;
            uint64_t seed = 0;
            std::map<int, int> crit;
            int initial_fvalue = -1, uh = -1, quiet = -1, mt = -1;
        };
        extern std::vector<Given> runs;
        // geno(+)/pheno(-) of a vector
        dVec map(int dir, const std::vector<double>& lb, const std::vector<double>& ub, const dVec& v);
        // the run itself: may call f; returns {best, mean} in the search space
        std::pair<dVec, dVec> run(const Given& g, const FitFunc& f);
        // called as the progress function may be: which = 0 default, 1 user's
        void progress(int ret);
    }
    template <class B>
    struct GenoPheno {
        std::vector<double> lb, ub;
        GenoPheno() {}
        GenoPheno(const double* l, const double* u, const int& dim) : lb(l, l + dim), ub(u, u + dim) {}
        dVec geno(const dVec& v) const { return stub::map(1, lb, ub, v); }
        dVec pheno(const dVec& v) const { return stub::map(-1, lb, ub, v); }
    };
    template <class G>
    struct Bounded {
        enum { value = 0 };
    };
    template <>
    struct Bounded<GenoPheno<pwqBoundStrategy>> {
        enum { value = 1 };
    };
    template <class G = GenoPheno<NoBoundStrategy>>
    struct CMAParameters {
        stub::Given g;
        CMAParameters(const int& dim, const double* x0, const double& sigma, const int& lambda = -1, const uint64_t& seed = 0, const G& gp = G())
        {
            init(std::vector<double>(x0, x0 + dim), sigma, lambda, seed, gp);
        }
        CMAParameters(const std::vector<double>& x0, const double& sigma, const int& lambda = -1, const uint64_t& seed = 0, const G& gp = G())
        {
            init(x0, sigma, lambda, seed, gp);
        }
        void init(const std::vector<double>& x0, double sigma, int lambda, uint64_t seed, const G& gp)
        {
            g.bounded = Bounded<G>::value;
            g.x0 = x0;
            g.dim = x0.size();
            g.sigma = sigma;
            g.lambda = lambda;
            g.seed = seed;
            g.lb = gp.lb;
            g.ub = gp.ub;
        }
        void set_mt_feval(const bool& v) { g.mt = v; }
        void set_algo(const int& v) { g.algo = v; }
        void set_restarts(const int& v) { g.restarts = v; }
        void set_elitism(const int& v) { g.elitism = v; }
        void set_max_fevals(const int& v) { g.max_fevals = v; }
        void set_max_iter(const int& v) { g.max_iter = v; }
        template <class C>
        void set_stopping_criteria(const C& c, const bool& on) { g.crit[(int)c] = on; }
        void set_ftolerance(const double& v) { g.ftol = v; }
        void set_xtolerance(const double& v) { g.xtol = v; }
        void set_ftarget(const double& v) { g.ftarget = v; }
        void set_initial_fvalue(const bool& v) { g.initial_fvalue = v; }
        void set_uh(const bool& v) { g.uh = v; }
        void set_quiet(const bool& v) { g.quiet = v; }
    };
    struct Candidate {
        dVec x;
        double f = 0;
        dVec get_x_dvec() const { return x; }
        const double* get_x_ptr() const { return x.data(); }
        double get_fvalue() const { return f; }
    };
    struct CMASolutions {
        dVec mean;
        Candidate best, last; // best ever seen; best of the last iteration
        dVec xmean() const { return mean; }
        Candidate get_best_seen_candidate() const { return best; }
        Candidate best_candidate() const { return last; }
    };
    struct CovarianceUpdate {
    };
    template <class C, class G>
    struct CMAStrategy {
        static ProgressFunc<CMAParameters<G>, CMASolutions> _defaultPFunc;
    };
    template <class C, class G>
    ProgressFunc<CMAParameters<G>, CMASolutions> CMAStrategy<C, G>::_defaultPFunc = [](const CMAParameters<G>&, const CMASolutions&) { return 100; };
    template <class G = GenoPheno<NoBoundStrategy>>
    CMASolutions cmaes(FitFunc& f, CMAParameters<G>& p, ProgressFunc<CMAParameters<G>, CMASolutions>& pf = CMAStrategy<CovarianceUpdate, G>::_defaultPFunc)
    {
        stub::runs.push_back(p.g);
        CMASolutions s;
        auto r = stub::run(p.g, f);
        s.best.x = r.first;
        s.mean = r.second;
        s.last.x = r.second * 2; // some other place
        stub::progress(pf(p, s));
        return s;
    }
}
#endif
