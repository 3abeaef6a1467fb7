// C32: the expected hypervolume improvement library.
#include "ehvi_ref.hpp"
using namespace ehr;
static void plane(int n, bool shift)
{
    std::vector<std::vector<int>> rank(n);
    std::vector<int> order; // any order in the population
    for (int i = 0; i < n; i++)
        order.insert(order.begin() + vp_choice(i + 1, "place"), i);
    for (int i = 0; i < n; i++)
        rank[i] = {order[i], n - 1 - order[i]};
    Problem p = problem(2, rank, shift);
    lemma(p);
    vp_check_eq(ehvi2d(p.pop, p.r, p.mu, p.s), expected(p), "expected hypervolume improvement");
    vp_reach("end");
}
VP_CASE(plane_0, 'R', "2 objectives, empty front; reference, mean and deviation free") { plane(0, true); }
VP_CASE(plane_1, 'R', "2 objectives, front of 1; reference, front, mean and deviation free") { plane(1, true); }
VP_CASE(plane_2, 'R', "2 objectives, front of 2; reference, front, mean and deviation free") { plane(2, true); }
VP_CASE(plane_3, 'R', "2 objectives, front of 3; front, mean and deviation free") { plane(3, false); }
VP_CASE(plane_4, 'R', "2 objectives, front of 4; front, mean and deviation free") { plane(4, false); }
// two points with the same values
VP_CASE(plane_twice, 'R', "2 objectives, front of 2 or 3 with one of its points twice; front, mean and deviation free")
{
    int n = 2 + vp_choice(2, "points"), k = vp_choice(n, "which");
    std::vector<std::vector<int>> rank(n);
    for (int i = 0; i < n; i++)
        rank[i] = {i, n - 1 - i};
    Problem p = problem(2, rank, false);
    p.pop.insert(p.pop.begin() + vp_choice(n + 1, "place"), new individual(*p.pop[k]));
    Problem q = p;
    q.pop.pop_back(); // the cells are those of n values
    lemma(q);
    vp_check_eq(ehvi2d(p.pop, p.r, p.mu, p.s), expected(q), "expected hypervolume improvement");
    vp_reach("end");
}
enum Scheme { TWO = 1, FIVE = 2, EIGHT = 4, SLICE = 8, MFIVE = 16, MSLICE = 32 };
static void space(int n, bool shift, int schemes)
{
    std::vector<std::vector<int>> rank(n);
    std::vector<int> order[3];
    for (int k = 0; k < 3; k++)
        for (int i = 0; i < n; i++)
            order[k].insert(order[k].begin() + vp_choice(i + 1, "place"), i);
    for (int i = 0; i < n; i++)
        rank[i] = {order[0][i], order[1][i], order[2][i]};
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            if (i != j && rank[i][0] < rank[j][0] && rank[i][1] < rank[j][1] && rank[i][2] < rank[j][2])
                return; // not a front
    Problem p = problem(3, rank, shift);
    lemma(p);
    double want = expected(p);
    std::vector<int> some;
    for (int b = 1; b < 64; b *= 2)
        if (schemes & b)
            some.push_back(b);
    int which = some[vp_choice(some.size(), "scheme")];
    if (which == TWO) { // the same theorem, and that the mean position of the outcomes in a cell is inside it
        for (int k = 0; k < 3; k++)
            for (int j = 0; j < p.ax[k].cells(); j++) {
                vp_assume_lt(0, p.ax[k].prob(j));
                for (int i = 0; i < p.ax[k].cells(); i++)
                    if (i <= j)
                        vp_assume_lt(p.ax[k].b[i], p.ax[k].place(j));
                    else
                        vp_assume_lt(p.ax[k].place(j), p.ax[k].b[i]);
            }
        std::vector<int> c(3, 0), top(3, n);
        do
            if (!dominated(p, c))
                vp_assume_lt(0, share_at_mean(p, c));
        while (next(c, top));
        vp_check_eq(ehvi3d_2term(p.pop, p.r, p.mu, p.s), want, "2-term scheme");
    }
    if (which == FIVE)
        vp_check_eq(ehvi3d_5term(p.pop, p.r, p.mu, p.s), want, "5-term scheme");
    if (which == EIGHT)
        vp_check_eq(ehvi3d_8term(p.pop, p.r, p.mu, p.s), want, "8-term scheme");
    if (which == SLICE)
        vp_check_eq(ehvi3d_sliceupdate(p.pop, p.r, p.mu, p.s), want, "slice-update scheme");
    if (which == MFIVE || which == MSLICE) {
        Problem q = p; // another outcome
        for (int k = 0; k < 3; k++) {
            q.mu[k] = q.ax[k].mu = 0.5 * k - 0.25;
            q.s[k] = q.ax[k].s = 1 - 0.25 * k;
        }
        lemma(q);
        mus m[2];
        for (int k = 0; k < 3; k++) {
            m[0].mu[k] = p.mu[k];
            m[0].s[k] = p.s[k];
            m[1].mu[k] = q.mu[k];
            m[1].s[k] = q.s[k];
        }
        std::vector<mus*> a = {&m[0], &m[1]};
        auto v = which == MFIVE ? ehvi3d_5term(p.pop, p.r, a) : ehvi3d_sliceupdate(p.pop, p.r, a);
        vp_check(v.size() == 2, "one answer per outcome");
        vp_check_eq(v[0], want, which == MFIVE ? "5-term scheme, several outcomes" : "slice-update scheme, several outcomes");
        vp_check_eq(v[1], expected(q), which == MFIVE ? "5-term scheme, second outcome" : "slice-update scheme, second outcome");
    }
    vp_reach("end");
}
VP_CASE(space_0, 'R', "3 objectives, empty front, all schemes; reference, mean and deviation free") { space(0, true, 63); }
VP_CASE(space_1, 'R', "3 objectives, front of 1, all schemes; reference, front, mean and deviation free") { space(1, true, 63 - TWO); }
VP_CASE(space_2, 'R', "3 objectives, fronts of 2, all schemes but the 2-term one; front, mean and deviation free") { space(2, false, 63 - TWO); }
VP_CASE(space_3, 'R', "3 objectives, fronts of 3, all schemes but the 2-term one; front, mean and deviation free") { space(3, false, 63 - TWO); }
VP_CASE(space_two_1, 'R', "3 objectives, front of 1, 2-term scheme; front, mean and deviation free") { space(1, false, TWO); }
