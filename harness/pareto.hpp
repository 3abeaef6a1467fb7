// C24: Pareto set.
#include "bo_common.hpp"
#include <fstream>
#include <limbo/experimental/bayes_opt/bo_multi.hpp>
#include <limbo/experimental/stat/pareto_benchmark.hpp>
#include <limbo/experimental/stat/pareto_front.hpp>
#include <limbo/experimental/tools/pareto.hpp>
#include <sstream>
using namespace boc;
using namespace limbo;
typedef std::tuple<V, V, V> Pt;
static bool dom(const V& a, const V& b)
{
    bool ge = true, gt = false;
    for (int i = 0; i < a.size(); i++) {
        ge = ge && a(i) >= b(i);
        gt = gt || a(i) > b(i);
    }
    return ge && gt;
}
static std::vector<bool> front(const std::vector<V>& o)
{
    std::vector<bool> r(o.size(), true);
    for (size_t i = 0; i < o.size(); i++)
        for (size_t j = 0; j < o.size(); j++)
            if (i != j && r[i] && dom(o[j], o[i]))
                r[i] = false;
    return r;
}
static std::vector<V> objectives(int n, int m)
{
    std::vector<V> o;
    for (int i = 0; i < n; i++) {
        V v(m);
        for (int k = 0; k < m; k++)
            v(k) = vp_sym(nm("f", i, k).c_str());
        o.push_back(v);
    }
    return o;
}
// point i is identified by its first component
static void check_front(const std::vector<Pt>& r, const std::vector<V>& o, int objs, int other)
{
    auto in = front(o);
    std::vector<int> c(o.size(), 0);
    for (auto& t : r) {
        int id = (int)std::floor(std::get<0>(t)(0) + 0.5);
        vp_check(id >= 0 && id < (int)o.size(), "a given point");
        c[id]++;
        same(objs == 1 ? std::get<1>(t) : std::get<2>(t), o[id], "the objectives of the point");
        if (other >= 0)
            vp_check((objs == 1 ? std::get<2>(t) : std::get<1>(t))(0) == other + id, "the rest of the point");
    }
    for (size_t i = 0; i < o.size(); i++)
        vp_check(c[i] == (in[i] ? 1 : 0), in[i] ? "every non-dominated point, once" : "no dominated point");
}
template <int K>
static void set_of(int n, int m)
{
    auto o = objectives(n, m);
    std::vector<Pt> p;
    for (int i = 0; i < n; i++) {
        V id = V::Constant(1, i), x = V::Constant(1, 10 + i);
        p.push_back(K == 1 ? Pt(id, o[i], x) : Pt(id, x, o[i]));
    }
    auto r = pareto::pareto_set<K>(p);
    check_front(r, o, K, 10);
    vp_reach("end");
}
#ifndef USE_TBB
VP_CASE(set_2_objectives, 'R', "1..3 points, 2 objectives, any values, ties and duplicates included") { set_of<1>(1 + vp_choice(3, "points"), 2); }
VP_CASE(set_3_objectives, 'R', "1..2 points, 3 objectives; the objectives are the third member of the tuple") { set_of<2>(1 + vp_choice(2, "points"), 3); }
VP_CASE(set_4_points, 'R', "4 points, 2 objectives, the first objective one of 2 concrete assignments (distinct, with a tie), the second any value")
{
    int k = vp_choice(2, "first objective");
    double f[2][4] = {{2, 0, 3, 1}, {1, 0, 1, 0}};
    std::vector<V> o;
    std::vector<Pt> p;
    for (int i = 0; i < 4; i++) {
        V v(2);
        v << f[k][i], vp_sym(nm("f", i).c_str());
        o.push_back(v);
        p.push_back(Pt(V::Constant(1, i), v, V::Constant(1, 10 + i)));
    }
    check_front(pareto::pareto_set<1>(p), o, 1, 10);
    vp_reach("end");
}
VP_CASE(t_set_3_of_3, 'R', "3 points, 3 objectives") { set_of<2>(3, 3); }
VP_CASE(t_set_4_of_2, 'R', "4 points, 2 objectives") { set_of<1>(4, 2); }
#else
VP_CASE(set_any_schedule, 'R', "1..3 points, 2 objectives, every order of the parallel loop") { set_of<1>(1 + vp_choice(3, "points"), 2); }
#endif
// the multi-objective optimiser
struct MP {
    struct bayes_opt_bobase {
        static bool stats_enabled() { return true; }
        static bool bounded() { return true; }
    };
};
struct Multi : public experimental::bayes_opt::BoMulti<MP, modelfun<Model>, initfun<Init>, acquifun<Acqui<MP, Model>>, statsfun<boost::fusion::vector<Stat>>, stopcrit<boost::fusion::vector<stop::MaxIterations<boc::Params>>>> {
    void put(const V& x, const V& y) { this->add_new_sample(x, y); }
    template <int D>
    void model()
    {
        this->template update_pareto_model<D>();
    }
    const std::vector<V>& s() const { return this->_samples; }
};
VP_CASE(front_of_the_data, 'R', "the optimiser's front of 1..3 evaluations with 2 objectives; updated again after one more evaluation")
{
#ifdef USE_TBB
    int n = 1;
#else
    int n = 1 + vp_choice(2, "points");
#endif
    auto o = objectives(n + 1, 2);
    Multi b;
    for (int i = 0; i < n; i++)
        b.put(V::Constant(2, i), o[i]);
    vp_check(b.nb_objs() == 2, "number of objectives");
    b.update_pareto_data();
    check_front(b.pareto_data(), std::vector<V>(o.begin(), o.begin() + n), 1, -1);
    b.put(V::Constant(2, n), o[n]);
    b.update_pareto_data();
    check_front(b.pareto_data(), o, 1, -1);
    for (auto& t : b.pareto_data())
        vp_check(std::get<2>(t).size() == 2 && std::get<2>(t)(0) == 0 && std::get<2>(t)(1) == 0, "measured values have no uncertainty");
    vp_reach("end");
}
VP_CASE(models_of_the_objectives, 'R', "2 or 3 objectives, 1..3 evaluations: one model per objective with all the data; again after one more")
{
    int n = 1 + vp_choice(2, "points"), m = 2 + vp_choice(2, "objectives");
    auto o = objectives(n + 1, m);
    Multi b;
    for (int k = 0; k < 2; k++) {
        if (!k)
            for (int i = 0; i < n; i++)
                b.put(V::Constant(2, i), o[i]);
        else
            b.put(V::Constant(2, n), o[n]);
        b.model<2>();
        vp_check((int)b.models().size() == m, "one model per objective");
        for (int j = 0; j < m && j < (int)b.models().size(); j++) {
            auto& d = b.models()[j];
            vp_check((int)d.data.size() == n + k && d.din == 2 && d.dout == 1, "every evaluation, dimensions");
            for (int i = 0; i < n + k && i < (int)d.data.size(); i++) {
                same(d.data[i].x, b.s()[i], "sample");
                vp_check(d.data[i].y.size() == 1, "one value");
                vp_check_same(d.data[i].y(0), o[i](j), "value of the objective");
            }
        }
    }
    vp_reach("end");
}
// files
static std::vector<std::vector<double>> read_file(const std::string& f)
{
    std::vector<std::vector<double>> r;
    std::ifstream is(f.c_str());
    vp_check(is.good(), "the file exists");
    std::string l;
    while (std::getline(is, l)) {
        std::vector<double> v;
        std::stringstream s(l);
        std::string c;
        while (s >> c)
            v.push_back(std::strtod(c.c_str(), nullptr));
        r.push_back(v);
    }
    return r;
}
static void near(double a, double b, const char* l)
{
    double e = 5.001e-6 * std::abs(b);
    vp_check_le(a, b + e, l);
    vp_check_le(b - e, a, l);
}
struct FakeBO {
    bool on = true;
    int it = 0;
    std::vector<V> x, y;
    std::vector<Pt> pm, pd;
    int updated = 0, modelled = 0;
    bool stats_enabled() const { return on; }
    std::string res_dir() const { return "."; }
    int current_iteration() const { return it; }
    const std::vector<V>& samples() const { return x; }
    const std::vector<V>& observations() const { return y; }
    void update_pareto_data() { updated++; }
    template <int D>
    void update_pareto_model() { modelled += D; }
    const std::vector<Pt>& pareto_model() const { return pm; }
    const std::vector<Pt>& pareto_data() const { return pd; }
};
VP_CASE(front_file, 'R', "file of the front: 0..2 evaluations, two iterations, statistics on or off")
{
    int n = vp_choice(3, "points");
    FakeBO b;
    b.on = vp_choice(2, "off") == 0;
    auto o = objectives(n, 2);
    for (int i = 0; i < n; i++) {
        b.x.push_back(V::Constant(1, i));
        b.y.push_back(o[i]);
    }
    experimental::stat::ParetoFront<MP> st;
    for (b.it = 3; b.it < 5; b.it++) {
        st(b, FirstElem());
        std::string f = "pareto_front_" + std::to_string(b.it) + ".dat";
        if (!b.on || !n) {
            vp_check(!std::ifstream(f.c_str()).good(), "no file without data or statistics");
            continue;
        }
        auto r = read_file(f);
        auto in = front(o);
        std::vector<int> c(n, 0);
        for (auto& l : r) {
            vp_check(l.size() == 3, "point and objectives");
            if (l.size() != 3)
                return;
            int id = (int)std::floor(l[0] + 0.5);
            c[id]++;
            near(l[1], o[id](0), "objectives of the point");
            near(l[2], o[id](1), "objectives of the point");
        }
        for (int i = 0; i < n; i++)
            vp_check(c[i] == (in[i] ? 1 : 0), "exactly the non-dominated points");
    }
    vp_reach("end");
}
struct Real {
    static constexpr int dim_in() { return 2; }
    V operator()(const V& x) const
    {
        V r(2);
        for (int k = 0; k < 2; k++)
            r(k) = vp_uf(nm("real", k).c_str(), x.data(), x.size());
        return r;
    }
};
VP_CASE(benchmark_files, 'R', "files of the benchmark statistic: 2 points of the model front, 1 of the data front, 2 evaluations")
{
    FakeBO b;
    b.it = 7;
    V s(2), d(2), y(2);
    for (int i = 0; i < 2; i++) {
        V m(2), sg(2), x = V::Constant(2, 0.5 * i), yy(2);
        for (int k = 0; k < 2; k++) {
            m(k) = vp_sym(nm("m", i, k).c_str());
            sg(k) = vp_sym(nm("s", i, k).c_str(), 0);
            yy(k) = vp_sym(nm("y", i, k).c_str());
        }
        b.pm.push_back(Pt(x, m, sg));
        b.x.push_back(x);
        b.y.push_back(yy);
    }
    b.pd.push_back(Pt(b.x[1], b.y[1], V::Zero(2)));
    experimental::stat::ParetoBenchmark<Real> st;
    st(b, FirstElem());
    vp_check(b.updated == 1 && b.modelled == 2, "fronts brought up to date");
    auto m = read_file("pareto_model_7.dat"), r = read_file("pareto_model_real_7.dat"), d2 = read_file("pareto_data_7.dat"), ob = read_file("obs_7.dat");
    vp_check(m.size() == 2 && r.size() == 2 && d2.size() == 1 && ob.size() == 2, "number of records");
    if (m.size() != 2 || r.size() != 2 || d2.size() != 1 || ob.size() != 2)
        return;
    for (int i = 0; i < 2; i++) {
        V t = Real()(b.x[i]);
        vp_check(m[i].size() == 4 && r[i].size() == 2 && ob[i].size() == 4, "values per record");
        if (m[i].size() != 4 || r[i].size() != 2 || ob[i].size() != 4)
            return;
        for (int k = 0; k < 2; k++) {
            near(m[i][k], std::get<1>(b.pm[i])(k), "predicted objective");
            near(m[i][2 + k], std::get<2>(b.pm[i])(k), "uncertainty");
            near(r[i][k], t(k), "objective at the predicted point");
            near(ob[i][k], b.y[i](k), "observation");
            near(ob[i][2 + k], b.x[i](k), "sample");
            if (!i)
                near(d2[0][k], b.y[1](k), "front of the data");
        }
    }
    vp_reach("end");
}
