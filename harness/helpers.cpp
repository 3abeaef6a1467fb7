// C23: numeric and random helpers.
#include "vp.hpp"
#include <limbo/limbo.hpp>
#include <limbo/tools/math.hpp>
#include <limbo/tools/random_generator.hpp>
using namespace limbo;
typedef Eigen::VectorXd V;
static std::string nm(const char* p, int i) { return std::string(p) + std::to_string(i); }
VP_CASE(vector_of_one, 'F', "any double")
{
    double x = vp_any("x");
    V v = tools::make_vector(x);
    vp_check(v.size() == 1, "one element");
    vp_check_same(v(0), x, "the given value");
    vp_reach("end");
}
VP_CASE(sign_double, 'F', "any double, signed zeros, infinities and NaN included")
{
    double x = vp_any("x");
    int s = tools::signum(x);
    if (x > 0)
        vp_check(s == 1, "positive");
    else if (x < 0)
        vp_check(s == -1, "negative");
    else
        vp_check(s == 0, "zero");
    vp_reach("end");
}
VP_CASE(sign_integers, 'F', "integers of every width at their borders")
{
    vp_check(tools::signum(0) == 0 && tools::signum(5) == 1 && tools::signum(-5) == -1, "int");
    vp_check(tools::signum(std::numeric_limits<int>::min()) == -1 && tools::signum(std::numeric_limits<int>::max()) == 1, "int limits");
    vp_check(tools::signum(std::numeric_limits<long>::min()) == -1 && tools::signum(std::numeric_limits<long>::max()) == 1, "long limits");
    vp_check(tools::signum(0u) == 0 && tools::signum(7u) == 1 && tools::signum(std::numeric_limits<unsigned>::max()) == 1, "unsigned");
    vp_check(tools::signum((signed char)-128) == -1 && tools::signum((unsigned char)200) == 1, "char");
    vp_reach("end");
}
VP_CASE(invalid_scalar, 'F', "any double")
{
    double x = vp_any("x");
    bool fin = x - x == 0; // false for NaN and infinities only
    vp_check(tools::is_nan_or_inf(x) == !fin, "NaN or infinite");
    vp_check(!tools::is_nan_or_inf(3) && !tools::is_nan_or_inf(-1L), "an integer is neither");
    vp_reach("end");
}
VP_CASE(invalid_vector, 'F', "vectors of 0..3 doubles, any values; rows and fixed-size vectors")
{
    int n = vp_choice(4, "n");
    V v(n);
    bool bad = false;
    for (int i = 0; i < n; i++) {
        v(i) = vp_any(nm("x", i).c_str());
        bad = bad || !(v(i) - v(i) == 0);
    }
    vp_check(tools::is_nan_or_inf(v) == bad, "an element is NaN or infinite");
    Eigen::RowVectorXd r = v.transpose();
    vp_check(tools::is_nan_or_inf(r) == bad, "row");
    if (n == 3) {
        Eigen::Vector3d w = v;
        vp_check(tools::is_nan_or_inf(w) == bad, "fixed size");
    }
    vp_reach("end");
}
VP_CASE(bounded_vectors, 'R', "sizes 0..4, all draws")
{
    int n = vp_choice(5, "n");
    bool dflt = vp_choice(2, "default");
    V v = dflt ? tools::random_vector(n) : tools::random_vector_bounded(n);
    V w = tools::random_vector(n, false), u = tools::random_vector_unbounded(n);
    vp_check(v.size() == n && w.size() == n && u.size() == n, "requested dimension");
    for (int i = 0; i < n; i++) {
        vp_check_le(0, v(i), "not below 0", 0);
        vp_check_le(v(i), 1, "not above 1", 0);
    }
    vp_reach("end");
}
VP_CASE(bounded_numbers, 'R', "any range [a,b], all draws, the range also changed afterwards")
{
    double a = vp_sym("a", -100, 100), b = vp_sym("b", -100, 100);
    vp_assume(a < b);
    tools::rgen_double_t g(a, b);
    if (vp_choice(2, "seeded"))
        g.seed(3);
    for (int i = 0; i < 3; i++) {
        double x = g.rand();
        vp_check_le(a, x, "not below the range", 0);
        vp_check_le(x, b, "not above the range", 0);
    }
    tools::rgen_double_t h(0., 1.);
    h.param(tools::rdist_double_t::param_type(a, b));
    h.reset();
    double y = h.rand();
    vp_check_le(a, y, "not below the new range", 0);
    vp_check_le(y, b, "not above the new range", 0);
    V v = tools::random_vec(2, h);
    vp_check(v.size() == 2, "requested dimension");
    for (int i = 0; i < 2; i++) {
        vp_check_le(a, v(i), "vector not below the range", 0);
        vp_check_le(v(i), b, "vector not above the range", 0);
    }
    vp_reach("end");
}
VP_CASE(bounded_integers, 'R', "ranges of integers, all draws")
{
    int r[4][2] = {{0, 0}, {0, 1}, {-2, 1}, {3, 5}};
    int k = vp_choice(4, "range");
    tools::rgen_int_t g(r[k][0], r[k][1]);
    std::vector<int> seen;
    for (int i = 0; i < 2; i++) {
        int x = g.rand();
        vp_check(x >= r[k][0] && x <= r[k][1], "in the range, both ends included");
    }
    vp_reach("end");
}
VP_CASE(every_integer, 'R', "every integer of the range can be drawn")
{
    int want = vp_choice(4, "wanted") - 1;
    tools::rgen_int_t g(-1, 2);
    if (g.rand() == want)
        vp_reach("end");
}
// a distribution that hands out the state of the generator
struct Raw {
    typedef double result_type;
    struct param_type {
    };
    Raw(double, double) {}
    template <typename G>
    double operator()(G& g) { return (double)g(); }
    void reset() {}
};
VP_CASE(seeds, 'R', "seeds 0, 1, 2^31-1: equal seeds, at construction or later, give equal sequences; different seeds different ones")
{
    int seeds[3] = {0, 1, 2147483647};
    int a = vp_choice(3, "a"), b = vp_choice(3, "b"), how = vp_choice(3, "how");
    typedef tools::RandomGenerator<Raw> G;
    G g(0, 1, seeds[a]), h(0, 1, how == 0 ? seeds[b] : 7);
    if (how == 2)
        h.rand();
    if (how > 0)
        h.seed(seeds[b]);
    bool eq = true;
    for (int i = 0; i < 8; i++)
        eq = (g.rand() == h.rand()) && eq;
    vp_check(eq == (a == b), "the seed decides the sequence");
    vp_reach("end");
}
