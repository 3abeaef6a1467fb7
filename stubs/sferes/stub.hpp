// Stand-in for the part of the sferes library limbo uses. The evolutionary algorithm is replaced by any answer it
// could give: individuals whose genes the harness chooses, evaluated by the real fitness.
#ifndef SFERES_STUB_HPP
#define SFERES_STUB_HPP
#include <boost/fusion/include/vector.hpp>
#include <memory>
#include <vector>
#define SFERES_CONST static constexpr
#define SFERES_FITNESS(Class, Parent) \
    template <typename Exact = void>  \
    class Class : public Parent<Exact>
namespace sferes_stub {
    typedef std::vector<std::vector<double>> genes_t;
    inline genes_t& genes() // of the next front
    {
        static genes_t g;
        return g;
    }
    inline int& runs()
    {
        static int n = 0;
        return n;
    }
}
namespace sferes {
    namespace fit {
        template <typename Exact = void>
        class Fitness {
        public:
            const std::vector<float>& objs() const { return _objs; }
            float obj(size_t i) const { return _objs[i]; }

        protected:
            std::vector<float> _objs;
        };
        struct compare_objs_lex {
            template <typename I>
            bool operator()(const I& a, const I& b) const
            {
                for (size_t i = 0; i < a->fit().objs().size(); ++i)
                    if (a->fit().obj(i) > b->fit().obj(i))
                        return true;
                    else if (a->fit().obj(i) < b->fit().obj(i))
                        return false;
                return false;
            }
        };
    }
    namespace gen {
        namespace evo_float {
            enum mutation_t { polynomial = 0,
                gaussian,
                uniform };
            enum cross_over_t { recombination = 0,
                sbx,
                no_cross_over };
        }
        template <int N, typename P>
        struct EvoFloat {
            enum { size = N };
        };
    }
    namespace phen {
        template <typename Gen, typename Fit, typename P>
        struct Parameters {
            typedef Fit fit_t;
            Fit f;
            std::vector<double> g; // not rounded to float here
            const Fit& fit() const { return f; }
            Fit& fit() { return f; }
            size_t size() const { return g.size(); }
            double data(size_t i) const { return g[i]; }
        };
    }
    namespace eval {
        template <typename P>
        struct Parallel {
        };
    }
    namespace modif {
        template <typename T = void>
        struct Dummy {
        };
    }
    namespace ea {
        template <typename Phen, typename Eval, typename Stat, typename Modif, typename P>
        struct Nsga2 {
            typedef std::shared_ptr<Phen> indiv_t;
            typename Phen::fit_t proto;
            std::vector<indiv_t> front;
            void set_fit_proto(const typename Phen::fit_t& f) { proto = f; }
            void run()
            {
                sferes_stub::runs()++;
                front.clear();
                for (auto& g : sferes_stub::genes()) {
                    indiv_t i(new Phen);
                    i->f = proto;
                    i->g = g;
                    i->f.eval(*i);
                    front.push_back(i);
                }
            }
            const std::vector<indiv_t>& pareto_front() const { return front; }
        };
    }
}
#endif
