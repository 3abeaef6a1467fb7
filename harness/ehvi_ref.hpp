// expected hypervolume improvement, cell by cell (reference for C30 and C32)
#ifndef EHVI_REF_HPP
#define EHVI_REF_HPP
#include "vp.hpp"
#include <algorithm>
#include <string>
#include <vector>
#include <ehvi/ehvi_calculations.cc>
#include <ehvi/ehvi_calculations.h>
#include <ehvi/ehvi_hvol.cc>
#include <ehvi/ehvi_multi.cc>
#include <ehvi/helper.cc>
#include <ehvi/ehvi_sliceupdate.cc>
namespace ehr {
static std::string nm(const std::string& p, int i, int j = -1) { return p + std::to_string(i) + (j >= 0 ? "_" + std::to_string(j) : ""); }
// standard normal density and distribution function, with the library's decimals for the constants
static double pdf(double x) { return 0.3989422804 * std::exp(-x * x / 2); }
static double cdf(double x) { return 0.5 + 0.5 * std::erf(x / 1.41421356237); }
struct Axis { // one objective: the values of the front in increasing order, the prediction
    std::vector<double> b; // reference, then values
    double mu, s;
    int cells() const { return b.size(); }
    bool last(int j) const { return j + 1 == (int)b.size(); }
    double width(int j) const { return b[j + 1] - b[j]; }
    // probability of cell j
    double prob(int j) const { return (last(j) ? 1 : cdf((b[j + 1] - mu) / s)) - cdf((b[j] - mu) / s); }
    // expectation of the part of (z - b_j) in cell j
    double part(int j) const
    {
        double lo = (b[j] - mu) / s;
        double v = s * pdf(lo) + (mu - b[j]) * prob(j);
        return last(j) ? v : v - s * pdf((b[j + 1] - mu) / s);
    }
    // mean place of the outcomes in cell j
    double place(int j) const { return (part(j) + (b[j] - b[0]) * prob(j)) / prob(j) + b[0]; }
    // expectation of min(z, b_{j+1}) - b_j, when positive
    double length(int j) const
    {
        double v = part(j);
        if (!last(j))
            v += width(j) * (1 - cdf((b[j + 1] - mu) / s));
        return v;
    }
};
struct Problem {
    int d;
    std::deque<individual*> pop;
    double r[3] = {0, 0, 0}, mu[3] = {0, 0, 0}, s[3] = {0, 0, 0};
    Axis ax[3];
    std::vector<std::vector<int>> rank; // of each point on each axis
};
// n points that do not dominate each other, given by their ranks, all above the reference
static Problem problem(int d, const std::vector<std::vector<int>>& rank, bool shift)
{
    Problem p;
    p.d = d;
    p.rank = rank;
    int n = rank.size();
    for (int i = 0; i < n; i++)
        p.pop.push_back(new individual());
    for (int k = 0; k < d; k++) {
        p.r[k] = shift ? vp_sym(nm("r", k).c_str(), -2, 2) : 0.75 * k - 0.5;
        p.mu[k] = p.ax[k].mu = vp_sym(nm("mu", k).c_str(), -2, 4);
        p.s[k] = p.ax[k].s = vp_sym(nm("s", k).c_str(), 0.25, 2);
        p.ax[k].b = {p.r[k]};
        for (int j = 0; j < n; j++)
            p.ax[k].b.push_back(p.ax[k].b.back() + vp_sym(nm("gap", k, j).c_str(), 0.125, 2));
        for (int i = 0; i < n; i++)
            p.pop[i]->f[k] = p.ax[k].b[rank[i][k] + 1];
    }
    for (int i = 0; i < n; i++)
        for (int k = d; k < 3; k++)
            p.pop[i]->f[k] = 0;
    return p;
}
// is cell c (index of its lower corner on each axis) dominated by a point?
static bool dominated(const Problem& p, const std::vector<int>& c)
{
    for (auto& q : p.rank) {
        bool all = true;
        for (int k = 0; k < p.d; k++)
            all = all && q[k] + 1 > c[k];
        if (all)
            return true;
    }
    return false;
}
static bool next(std::vector<int>& c, const std::vector<int>& top)
{
    for (size_t k = 0; k < c.size(); k++) {
        if (++c[k] <= top[k])
            return true;
        c[k] = 0;
    }
    return false;
}
// expected improvement brought by outcomes in cell c: what they dominate of every free cell below
static double share(const Problem& p, const std::vector<int>& c)
{
    double sum = 0;
    std::vector<int> q(p.d, 0);
    do {
        if (dominated(p, q))
            continue;
        double t = 1;
        for (int k = 0; k < p.d; k++)
            t *= q[k] == c[k] ? p.ax[k].part(c[k]) : p.ax[k].width(q[k]) * p.ax[k].prob(c[k]);
        sum += t;
    } while (next(q, c));
    return sum;
}
// the same from the mean outcome of the cell: its box less what the front dominates of it
static double share_at_mean(const Problem& p, const std::vector<int>& c)
{
    double box = 1, sum = 0, pr = 1;
    for (int k = 0; k < p.d; k++) {
        box *= p.ax[k].part(c[k]) + (p.ax[k].b[c[k]] - p.ax[k].b[0]) * p.ax[k].prob(c[k]);
        pr *= p.ax[k].prob(c[k]);
    }
    std::vector<int> q(p.d, 0);
    do {
        if (!dominated(p, q))
            continue;
        double t = 1;
        for (int k = 0; k < p.d; k++)
            t *= q[k] == c[k] ? p.ax[k].place(c[k]) - p.ax[k].b[c[k]] : p.ax[k].width(q[k]);
        sum += t;
    } while (next(q, c));
    return box - sum * pr;
}
// theorem used as an assumption: outcomes in a free cell improve the front, those in any other do not
static void lemma(const Problem& p)
{
    std::vector<int> c(p.d, 0), top(p.d, (int)p.pop.size());
    do
        if (!dominated(p, c))
            vp_assume_lt(0, share(p, c));
    while (next(c, top));
}
static double expected(const Problem& p)
{
    double sum = 0;
    std::vector<int> c(p.d, 0), top(p.d, (int)p.pop.size());
    do
        if (!dominated(p, c)) {
            double t = 1;
            for (int k = 0; k < p.d; k++)
                t *= p.ax[k].length(c[k]);
            sum += t;
        }
    while (next(c, top));
    return sum;
}
} // namespace ehr
#endif
