// Symbolic runtime: hash-consed expression DAG behind NaN-boxed doubles, path exploration by
// fork(), generalised-polynomial normal forms, z3 as the deciding solver.
#include "vp.hpp"
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <execinfo.h>
#include <fcntl.h>
#include <filesystem>
#include <iostream>
#include <map>
#include <memory>
#include <poll.h>
#include <semaphore.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <z3++.h>

using LD = long double;
using std::pair;
using std::string;
using std::vector;
typedef uint64_t u64;
static const double INF = std::numeric_limits<double>::infinity();
static const double QNAN = std::numeric_limits<double>::quiet_NaN();

VpCase*& VpCase::head()
{
    static VpCase* h = nullptr;
    return h;
}

// ------------------------------------------------------------------ shared state
struct Shared {
    sem_t slots;
    std::atomic<long> paths, killed, infeasible, cutpaths, forks, queries, qsat, qunsat, qunk, oblig, disch, concrete, undec, viols, nodes, lost, choices, qms, batch, hang, divcut;
    std::atomic<int> stop;
};
static Shared* G;
static int out_fd = -1;
static char MODE = 'R';
static double deadline;
static string base_dir;
static std::map<string, string> params;
static u64 SEED = 1;
static int q_timeout = 5000;
static bool holds_slot = false;
static long path_checks = 0;
static std::map<string, int> viol_per_label;
static std::map<string, int> cuts;
static std::set<string> reached, musts;
static int depth_forks = 0;

static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ DAG
enum Op : uint8_t { CONST,
    SYM,
    UF,
    ADD,
    SUB,
    MUL,
    DIV,
    NEG,
    SQRT,
    EXP,
    LOG,
    POW,
    ABS,
    ERFC,
    SIN,
    COS,
    TAN,
    TANH,
    ATAN,
    ASIN,
    ACOS,
    LGAMMA,
    FLOORF,
    EPS };
struct Node {
    Op op;
    int a, b;
    double c;
};
struct SymInfo {
    int node;
    string name;
    double lo, hi;
    int flags;
    int uf = -1; // index in ufs
};
struct UfInfo {
    string name;
    vector<int> args;
    int node;
    double lo, hi;
};
static vector<Node> N;
static vector<SymInfo> syms; // creation order
static std::unordered_map<int, int> sym_of; // node -> index in syms
static vector<UfInfo> ufs;
static std::unordered_map<int, int> uf_of;
static vector<pair<string, int>> choices;
struct KeyHash {
    size_t operator()(const std::array<u64, 3>& k) const { return k[0] * 0x9E3779B97F4A7C15ull ^ (k[1] * 0xC2B2AE3D27D4EB4Full) ^ (k[2] + (k[1] << 7)); }
};
static std::unordered_map<std::array<u64, 3>, int, KeyHash> cons;

static inline u64 bits(double d)
{
    u64 u;
    memcpy(&u, &d, 8);
    return u;
}
static inline double fbits(u64 u)
{
    double d;
    memcpy(&d, &u, 8);
    return d;
}
static inline bool boxed(double d) { return (bits(d) >> 48) == 0x7FFC; }
static inline int nid(double d) { return (int)(bits(d) & 0xffffffffffffull); }
static inline double box(int n)
{
    return N[n].op == CONST ? N[n].c : fbits((0x7FFCull << 48) | (u64)n);
}

// ------------------------------------------------------------------ witnesses
struct Wit {
    u64 seed;
    std::unordered_map<int, double> given;
    vector<double> v;
    bool approx = false;
};
static vector<Wit> W;
static u64 mix(u64 x)
{
    x ^= x >> 33;
    x *= 0xff51afd7ed558ccdULL;
    x ^= x >> 33;
    x *= 0xc4ceb9fe1a85ec53ULL;
    x ^= x >> 33;
    return x;
}
static double urand(u64 h) { return ((mix(h) >> 11) + 0.5) / 9007199254740992.0; }
static double draw(u64 h, double lo, double hi, int flags)
{
    double u = urand(h), u2 = urand(h + 77);
    if (flags & VP_ANY) {
        if (u2 < 0.1)
            return QNAN;
        if (u2 < 0.17)
            return INF;
        if (u2 < 0.24)
            return -INF;
        if (u2 < 0.3)
            return 0.;
    }
    if (std::isfinite(lo) && std::isfinite(hi))
        return lo + (hi - lo) * u;
    if (std::isfinite(lo))
        return lo + 0.2 - std::log(u) * 0.8;
    if (std::isfinite(hi))
        return hi - 0.2 + std::log(u) * 0.8;
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * u2) * 1.3;
}
static double eval1(const Wit& w, int n)
{
    const Node& x = N[n];
    auto A = [&]() { return w.v[x.a]; };
    auto B = [&]() { return w.v[x.b]; };
    switch (x.op) {
    case CONST: return x.c;
    case SYM: {
        auto it = w.given.find(n);
        if (it != w.given.end())
            return it->second;
        auto& s = syms[sym_of[n]];
        return draw(mix(w.seed * 1000003 + n), s.lo, s.hi, s.flags);
    }
    case UF: {
        auto it = w.given.find(n);
        if (it != w.given.end())
            return it->second;
        auto& u = ufs[uf_of[n]];
        // consistent with an earlier application on equal arguments
        for (auto& o : ufs) {
            if (o.node >= n)
                break;
            if (o.name != u.name || o.args.size() != u.args.size())
                continue;
            bool eq = true;
            for (size_t i = 0; i < o.args.size(); i++)
                if (!(w.v[o.args[i]] == w.v[u.args[i]]))
                    eq = false;
            if (eq)
                return w.v[o.node];
        }
        return draw(mix(w.seed * 1000003 + n), u.lo, u.hi, 0);
    }
    case EPS: return 0.;
    case ADD: return A() + B();
    case SUB: return A() - B();
    case MUL: return A() * B();
    case DIV: return A() / B();
    case NEG: return -A();
    case SQRT: return std::sqrt(A());
    case EXP: return std::exp(A());
    case LOG: return std::log(A());
    case POW: return std::pow(A(), B());
    case ABS: return std::fabs(A());
    case ERFC: return std::erfc(A());
    case SIN: return std::sin(A());
    case COS: return std::cos(A());
    case TAN: return std::tan(A());
    case TANH: return std::tanh(A());
    case ATAN: return std::atan(A());
    case ASIN: return std::asin(A());
    case ACOS: return std::acos(A());
    case LGAMMA: return std::lgamma(A());
    case FLOORF: return std::floor(A());
    }
    return QNAN;
}
static void rebuild(Wit& w)
{
    w.v.clear();
    w.v.reserve(N.size());
    for (size_t i = 0; i < N.size(); i++)
        w.v.push_back(eval1(w, (int)i));
}

static int mk_raw(Op op, int a, int b, double c)
{
    N.push_back({op, a, b, c});
    int id = (int)N.size() - 1;
    if (op != SYM && op != UF)
        for (auto& w : W)
            w.v.push_back(eval1(w, id));
    return id;
}
static int mk(Op op, int a, int b = -1, double c = 0)
{
    std::array<u64, 3> k{(u64)op, ((u64)(uint32_t)a << 32) | (uint32_t)b, bits(c)};
    auto it = cons.find(k);
    if (it != cons.end())
        return it->second;
    int id = mk_raw(op, a, b, c);
    cons[k] = id;
    return id;
}
static int kst(double c) { return mk(CONST, -1, -1, c); }
static int node_of(double d) { return boxed(d) ? nid(d) : kst(d); }

// ------------------------------------------------------------------ normal forms (mode R)
enum AK : uint8_t { A_SYM,
    A_UF,
    A_EXP,
    A_ROOT,
    A_INV,
    A_LOG,
    A_LOGA,
    A_ABS,
    A_FN,
    A_RAW };
struct Poly;
typedef std::shared_ptr<const Poly> PP;
struct Atom {
    AK k;
    int node; // SYM / UF / RAW node, or Op for FN
    int mono; // EXP: monomial; LOGA: atom id
    PP p; // ROOT INV LOG ABS FN argument
    bool pos; // known strictly positive
    bool nonneg;
    double lo, hi;
};
struct Poly {
    vector<pair<int, LD>> t; // sorted by monomial id
};
typedef vector<pair<int, double>> MonoV; // sorted by atom id
static vector<Atom> atoms;
static vector<MonoV> monos{MonoV{}};
static std::map<MonoV, int> mono_ix{{MonoV{}, 0}};
static std::set<double> expo_canon;
static const size_t MAXT = 40000;

static double canon_e(double e)
{
    auto it = expo_canon.lower_bound(e);
    double tol = 1e-10 * (1 + std::fabs(e));
    if (it != expo_canon.end() && std::fabs(*it - e) <= tol)
        return *it;
    if (it != expo_canon.begin()) {
        --it;
        if (std::fabs(*it - e) <= tol)
            return *it;
    }
    double r = std::round(e * 4) / 4;
    if (std::fabs(r - e) <= tol)
        e = r;
    expo_canon.insert(e);
    return e;
}
static int mono_id(const MonoV& m)
{
    auto it = mono_ix.find(m);
    if (it != mono_ix.end())
        return it->second;
    int id = (int)monos.size();
    monos.push_back(m);
    mono_ix[m] = id;
    return id;
}
static bool peq(const Poly& a, const Poly& b)
{
    if (a.t.size() != b.t.size())
        return false;
    for (size_t i = 0; i < a.t.size(); i++) {
        if (a.t[i].first != b.t[i].first)
            return false;
        LD x = a.t[i].second, y = b.t[i].second;
        if (fabsl(x - y) > 1e-10L * (fabsl(x) + fabsl(y)))
            return false;
    }
    return true;
}
static std::map<vector<int>, vector<int>> atom_ix; // (kind, extra, monos...) -> candidates
static int atom_poly(AK k, int extra, const Poly& p, double lo, double hi, bool pos, bool nonneg)
{
    vector<int> key{(int)k, extra};
    for (auto& t : p.t)
        key.push_back(t.first);
    for (int c : atom_ix[key])
        if (peq(*atoms[c].p, p))
            return c;
    atoms.push_back({k, extra, 0, std::make_shared<Poly>(p), pos, nonneg, lo, hi});
    atom_ix[key].push_back((int)atoms.size() - 1);
    return (int)atoms.size() - 1;
}
static int atom_simple(AK k, int node, int mono, double lo, double hi, bool pos, bool nonneg)
{
    vector<int> key{(int)k, node, mono};
    auto& v = atom_ix[key];
    if (!v.empty())
        return v[0];
    atoms.push_back({k, node, mono, nullptr, pos, nonneg, lo, hi});
    v.push_back((int)atoms.size() - 1);
    return v[0];
}
static Poly pconst(LD c)
{
    Poly p;
    if (c != 0)
        p.t.push_back({0, c});
    return p;
}
static Poly patom(int a, double e = 1)
{
    Poly p;
    p.t.push_back({mono_id({{a, canon_e(e)}}), 1});
    return p;
}
static Poly padd(const Poly& a, const Poly& b, LD s = 1)
{
    Poly r;
    r.t.reserve(a.t.size() + b.t.size());
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
        if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first))
            r.t.push_back(a.t[i++]);
        else if (i >= a.t.size() || b.t[j].first < a.t[i].first) {
            r.t.push_back({b.t[j].first, s * b.t[j].second});
            j++;
        }
        else {
            LD x = a.t[i].second, y = s * b.t[j].second, z = x + y;
            if (fabsl(z) > 1e-12L * (fabsl(x) + fabsl(y)))
                r.t.push_back({a.t[i].first, z});
            i++, j++;
        }
    }
    return r;
}
static Poly pscale(const Poly& a, LD s)
{
    Poly r = a;
    if (s == 0)
        r.t.clear();
    for (auto& t : r.t)
        t.second *= s;
    return r;
}
static PP pmul(const Poly& a, const Poly& b);
static PP ppow(const Poly& a, int k)
{
    Poly r = pconst(1);
    for (int i = 0; i < k; i++) {
        auto q = pmul(r, a);
        if (!q)
            return nullptr;
        r = *q;
    }
    return std::make_shared<Poly>(r);
}
// product of two monomials; may reduce (ROOT^2, ABS^2) to a polynomial
static std::unordered_map<u64, PP> mm_memo;
static PP mono_mul(int x, int y)
{
    if (x > y)
        std::swap(x, y);
    u64 key = ((u64)x << 32) | (uint32_t)y;
    auto it = mm_memo.find(key);
    if (it != mm_memo.end())
        return it->second;
    MonoV r;
    const MonoV a = monos[x], b = monos[y];
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j >= b.size() || (i < a.size() && a[i].first < b[j].first))
            r.push_back(a[i++]);
        else if (i >= a.size() || b[j].first < a[i].first)
            r.push_back(b[j++]);
        else {
            double e = canon_e(a[i].second + b[j].second);
            if (e != 0)
                r.push_back({a[i].first, e});
            i++, j++;
        }
    }
    MonoV keep;
    vector<pair<PP, int>> ex;
    for (auto& f : r) {
        auto& at = atoms[f.first];
        if (at.k == A_ROOT || at.k == A_ABS) {
            int e = (int)std::lround(f.second);
            int q = e >= 0 ? e / 2 : -((-e + 1) / 2);
            int rem = e - 2 * q;
            if (q != 0) {
                if (at.k == A_ROOT)
                    ex.push_back({at.p, q});
                else
                    ex.push_back({at.p, 2 * q});
            }
            if (rem)
                keep.push_back({f.first, (double)rem});
        }
        else if (at.k == A_FN && at.node == SIN && f.second == 2) {
            // left as is
            keep.push_back(f);
        }
        else
            keep.push_back(f);
    }
    PP res;
    if (ex.empty()) {
        Poly p;
        p.t.push_back({mono_id(keep), 1});
        res = std::make_shared<Poly>(p);
    }
    else {
        Poly p;
        p.t.push_back({mono_id(keep), 1});
        res = std::make_shared<Poly>(p);
        for (auto& e : ex) {
            PP f;
            if (e.second > 0)
                f = ppow(*e.first, e.second);
            else {
                if (e.first->t.size() == 1) {
                    // inverse of a monomial
                    MonoV m = monos[e.first->t[0].first];
                    for (auto& q : m)
                        q.second = -q.second;
                    Poly ip;
                    ip.t.push_back({mono_id(m), 1 / e.first->t[0].second});
                    f = ppow(ip, -e.second);
                }
                else
                    f = std::make_shared<Poly>(patom(atom_poly(A_INV, 0, *e.first, -INF, INF, false, false), -e.second));
            }
            if (!f || !res) {
                res = nullptr;
                break;
            }
            res = pmul(*res, *f);
            if (!res)
                break;
        }
    }
    mm_memo[key] = res;
    return res;
}
static PP pmul(const Poly& a, const Poly& b)
{
    if (a.t.empty() || b.t.empty())
        return std::make_shared<Poly>();
    if (a.t.size() == 1 && a.t[0].first == 0)
        return std::make_shared<Poly>(pscale(b, a.t[0].second));
    if (b.t.size() == 1 && b.t[0].first == 0)
        return std::make_shared<Poly>(pscale(a, b.t[0].second));
    if (a.t.size() * b.t.size() > 4000000)
        return nullptr;
    std::unordered_map<int, pair<LD, LD>> acc;
    for (auto& x : a.t)
        for (auto& y : b.t) {
            auto m = mono_mul(x.first, y.first);
            if (!m)
                return nullptr;
            LD c = x.second * y.second;
            for (auto& t : m->t) {
                auto& s = acc[t.first];
                s.first += c * t.second;
                s.second += fabsl(c * t.second);
            }
            if (acc.size() > MAXT)
                return nullptr;
        }
    Poly r;
    for (auto& k : acc)
        if (fabsl(k.second.first) > 1e-12L * k.second.second)
            r.t.push_back({k.first, k.second.first});
    std::sort(r.t.begin(), r.t.end(), [](auto& p, auto& q) { return p.first < q.first; });
    return std::make_shared<Poly>(r);
}

// ---- sign reasoning: bit mask of the possible signs (1 neg, 2 zero, 4 pos)
// known signs, by the monomials of the polynomial (leading coefficient 1); equal up to the rounding of the normal form
static std::map<vector<int>, vector<std::pair<Poly, int>>> facts;
static int* fact_of(const Poly& q, bool add)
{
    vector<int> k;
    for (auto& t : q.t)
        k.push_back(t.first);
    auto it = facts.find(k);
    if (it == facts.end()) {
        if (!add)
            return nullptr;
        it = facts.insert({k, {}}).first;
    }
    for (auto& f : it->second) {
        bool eq = true;
        for (size_t i = 0; i < q.t.size() && eq; i++) {
            LD x = q.t[i].second, y = f.first.t[i].second;
            eq = fabsl(x - y) <= 1e-13L * (fabsl(x) + fabsl(y));
        }
        if (eq)
            return &f.second;
    }
    if (!add)
        return nullptr;
    it->second.push_back({q, 7});
    return &it->second.back().second;
}
static void atom_range(int a, double& lo, double& hi);
static int sign_mask(const Poly& p, bool use_facts = true);
static void norm_sign(const Poly& p, Poly& q, int& s)
{
    s = 1;
    q = p;
    if (p.t.empty())
        return;
    // leading term: largest monomial id
    LD lc = p.t.back().second;
    s = lc < 0 ? -1 : 1;
    for (auto& t : q.t)
        t.second /= lc;
}
static int flip(int m) { return ((m & 1) << 2) | (m & 2) | ((m >> 2) & 1); }
static void mul_iv(double& lo, double& hi, double l2, double h2)
{
    auto m = [](double x, double y) { return (x == 0 || y == 0) ? 0. : x * y; };
    double c[4] = {m(lo, l2), m(lo, h2), m(hi, l2), m(hi, h2)};
    lo = *std::min_element(c, c + 4);
    hi = *std::max_element(c, c + 4);
}
// factor sign mask and interval
static int factor_mask(int a, double e, double& lo, double& hi)
{
    auto& A = atoms[a];
    atom_range(a, lo, hi);
    int m = A.pos ? 4 : A.nonneg ? 6 : 7;
    if (lo > 0)
        m &= 4;
    if (lo == 0)
        m &= 6;
    if (hi < 0)
        m &= 1;
    if (hi == 0)
        m &= 3;
    if (A.k == A_SYM || A.k == A_UF || A.k == A_FN || A.k == A_LOG) {
        Poly p = patom(a);
        if (int* f = fact_of(p, false))
            m &= *f;
    }
    if (A.k == A_INV || A.k == A_ROOT || A.k == A_ABS) {
        int s = sign_mask(*A.p);
        if (A.k == A_INV)
            m &= (s & 5);
        else if (!(s & 2))
            m &= 4;
    }
    bool even = std::floor(e / 2) * 2 == e;
    bool integer = std::floor(e) == e;
    if (e < 0)
        m &= 5; // nonzero by division
    if (even)
        m = (m & 2) | ((m & 5) ? 4 : 0);
    if (!integer)
        m &= 6;
    // interval
    double l = lo, h = hi;
    if (integer && e > 0 && e < 20) {
        double L = l, H = h;
        if (even) {
            double al = std::fabs(l), ah = std::fabs(h);
            double mx = std::max(al, ah), mn = (l <= 0 && h >= 0) ? 0 : std::min(al, ah);
            L = std::pow(mn, e);
            H = std::pow(mx, e);
        }
        else {
            L = std::isinf(l) ? l : std::pow(l, e);
            H = std::isinf(h) ? h : std::pow(h, e);
        }
        lo = L, hi = H;
    }
    else if (l >= 0 && e > 0) {
        lo = std::pow(l, e);
        hi = std::isinf(h) ? h : std::pow(h, e);
    }
    else if (l >= 0 && e < 0) {
        lo = std::isinf(h) ? 0 : std::pow(h, e);
        hi = l == 0 ? INF : std::pow(l, e);
    }
    else {
        lo = even ? 0 : -INF;
        hi = INF;
    }
    return m;
}
static int term_mask(int mono, LD c, double& lo, double& hi)
{
    int m = c > 0 ? 4 : 1;
    lo = hi = (double)c;
    for (auto& f : monos[mono]) {
        double l, h;
        int fm = factor_mask(f.first, f.second, l, h);
        mul_iv(lo, hi, l, h);
        int r = 0;
        if ((m & 2) || (fm & 2))
            r |= 2;
        if (((m & 4) && (fm & 4)) || ((m & 1) && (fm & 1)))
            r |= 4;
        if (((m & 4) && (fm & 1)) || ((m & 1) && (fm & 4)))
            r |= 1;
        m = r;
    }
    return m;
}
static int sign_mask(const Poly& p, bool use_facts)
{
    if (p.t.empty())
        return 2;
    int m = 7;
    if (use_facts) {
        Poly q;
        int s;
        norm_sign(p, q, s);
        if (int* f = fact_of(q, false))
            m &= s > 0 ? *f : flip(*f);
    }
    bool anyneg = false, anypos = false, allposs = true, strictpos = false, strictneg = false;
    (void)allposs;
    double lo = 0, hi = 0;
    for (auto& t : p.t) {
        double l, h;
        int k = term_mask(t.first, t.second, l, h);
        lo += l;
        hi += h;
        if (std::isnan(lo))
            lo = -INF;
        if (std::isnan(hi))
            hi = INF;
        if (k & 1)
            anyneg = true;
        if (k & 4)
            anypos = true;
        if (k == 4)
            strictpos = true;
        if (k == 1)
            strictneg = true;
    }
    if (!anyneg)
        m &= strictpos ? 4 : 6;
    if (!anypos)
        m &= strictneg ? 1 : 3;
    if (lo > 1e-12)
        m &= 4;
    if (hi < -1e-12)
        m &= 1;
    if (lo >= 0)
        m &= 6;
    if (hi <= 0)
        m &= 3;
    return m;
}
static void atom_range(int a, double& lo, double& hi)
{
    lo = atoms[a].lo;
    hi = atoms[a].hi;
}

static std::unordered_map<int, PP> nf_memo;
static PP nf(int n);
static PP single_inv(const Poly& b)
{
    MonoV m = monos[b.t[0].first];
    for (auto& q : m)
        q.second = canon_e(-q.second);
    Poly ip;
    ip.t.push_back({mono_id(m), 1 / b.t[0].second});
    // re-normalise ROOT^-1 etc.
    return pmul(ip, pconst(1)) ? ({
        PP one = std::make_shared<Poly>(pconst(1));
        Poly r = pconst(1 / b.t[0].second);
        PP acc = std::make_shared<Poly>(r);
        for (auto& q : m) {
            auto& A = atoms[q.first];
            PP f;
            if ((A.k == A_ROOT || A.k == A_ABS) && q.second < 0) {
                // 1/root = root * 1/p
                int e = (int)std::lround(-q.second);
                Poly base = patom(q.first);
                PP num = (e % 2) ? std::make_shared<Poly>(base) : one;
                int k = A.k == A_ROOT ? (e + 1) / 2 : (e % 2 ? e + 1 : e);
                PP inv;
                if (A.p->t.size() == 1)
                    inv = ppow(*single_inv(*A.p), k);
                else
                    inv = std::make_shared<Poly>(patom(atom_poly(A_INV, 0, *A.p, -INF, INF, false, false), k));
                f = inv ? pmul(*num, *inv) : nullptr;
            }
            else if (A.k == A_INV && q.second < 0)
                f = ppow(*A.p, (int)std::lround(-q.second));
            else
                f = std::make_shared<Poly>(patom(q.first, q.second));
            acc = f && acc ? pmul(*acc, *f) : nullptr;
        }
        acc;
    })
                               : nullptr;
}
// common monomial content: minimal exponent of every atom present in all terms
static MonoV content(const Poly& p, bool only_pos)
{
    MonoV c;
    if (p.t.empty())
        return c;
    std::map<int, double> mn;
    std::set<int> all;
    for (auto& t : p.t)
        for (auto& f : monos[t.first])
            all.insert(f.first);
    for (int a : all) {
        auto k = atoms[a].k;
        if (k == A_ROOT || k == A_ABS || k == A_INV)
            continue;
        if (only_pos && !atoms[a].pos)
            continue;
        double m = INF;
        for (auto& t : p.t) {
            double e = 0;
            for (auto& f : monos[t.first])
                if (f.first == a)
                    e = f.second;
            m = std::min(m, e);
        }
        if (m != 0)
            c.push_back({a, m});
    }
    return c;
}
static PP mono_inv_poly(const MonoV& c)
{
    MonoV m = c;
    for (auto& q : m)
        q.second = canon_e(-q.second);
    Poly p;
    p.t.push_back({mono_id(m), 1});
    return std::make_shared<Poly>(p);
}
static PP pinv(const Poly& b)
{
    if (b.t.empty())
        return nullptr;
    if (b.t.size() == 1)
        return single_inv(b);
    MonoV c = content(b, false);
    auto ci = mono_inv_poly(c);
    auto r = pmul(b, *ci);
    if (!r)
        return nullptr;
    LD lc = r->t.back().second;
    Poly f = pscale(*r, 1 / lc);
    Poly inv = patom(atom_poly(A_INV, 0, f, -INF, INF, false, false), 1);
    auto q = pmul(inv, *ci);
    if (!q)
        return nullptr;
    return std::make_shared<Poly>(pscale(*q, 1 / lc));
}
// exact square root of a polynomial (lexicographic long division), or null
static PP poly_root(const Poly& f)
{
    size_t n = f.t.size();
    if (n < 3 || n > 120)
        return nullptr;
    auto less = [](const MonoV& a, const MonoV& b) { // lex order, higher exponent of the lowest atom id first
        size_t i = 0, j = 0;
        while (i < a.size() || j < b.size()) {
            int x = i < a.size() ? a[i].first : 1 << 30, y = j < b.size() ? b[j].first : 1 << 30;
            double ea = x <= y ? a[i].second : 0, eb = y <= x ? b[j].second : 0;
            if (ea != eb)
                return ea < eb;
            if (x <= y)
                i++;
            if (y <= x)
                j++;
        }
        return false;
    };
    auto lead = [&](const Poly& p) {
        size_t m = 0;
        for (size_t i = 1; i < p.t.size(); i++) {
            MonoV a = monos[p.t[m].first], b = monos[p.t[i].first];
            if (less(a, b))
                m = i;
        }
        return m;
    };
    for (auto& t : f.t)
        for (auto& x : monos[t.first])
            if (x.second < 0 || x.second != std::floor(x.second))
                return nullptr;
    LD scale = 0;
    for (auto& t : f.t)
        scale = std::max(scale, fabsl(t.second));
    size_t l = lead(f);
    if (f.t[l].second <= 0)
        return nullptr;
    MonoV m = monos[f.t[l].first];
    for (auto& x : m) {
        if (std::fmod(x.second, 2) != 0)
            return nullptr;
        x.second /= 2;
    }
    LD c0 = sqrtl(f.t[l].second);
    Poly q;
    q.t.push_back({mono_id(m), c0});
    Poly inv;
    {
        MonoV im = m;
        for (auto& x : im)
            x.second = -x.second;
        inv.t.push_back({mono_id(im), 1 / (2 * c0)});
    }
    for (size_t it = 0; it < n; it++) {
        auto sq = pmul(q, q);
        if (!sq)
            return nullptr;
        Poly r = padd(f, *sq, -1);
        Poly rr;
        for (auto& t : r.t)
            if (fabsl(t.second) > 1e-12L * scale)
                rr.t.push_back(t);
        if (rr.t.empty())
            return std::make_shared<Poly>(q);
        size_t k = lead(rr);
        Poly t1;
        t1.t.push_back(rr.t[k]);
        auto d = pmul(t1, inv);
        if (!d || d->t.size() != 1)
            return nullptr;
        for (auto& x : monos[d->t[0].first])
            if (x.second < 0 || x.second != std::floor(x.second))
                return nullptr;
        for (auto& t : q.t)
            if (t.first == d->t[0].first)
                return nullptr;
        q = padd(q, *d);
    }
    return nullptr;
}
static PP psqrt(const Poly& p)
{
    if (p.t.empty())
        return std::make_shared<Poly>();
    MonoV c = content(p, true);
    // only even/real powers of positive atoms leave the root
    MonoV half = c;
    for (auto& q : half)
        q.second = canon_e(q.second / 2);
    auto r = pmul(p, *mono_inv_poly(c));
    if (!r)
        return nullptr;
    Poly hp;
    hp.t.push_back({mono_id(half), 1});
    if (r->t.size() == 1 && r->t[0].first == 0) {
        if (r->t[0].second < 0)
            return nullptr;
        return std::make_shared<Poly>(pscale(hp, sqrtl(r->t[0].second)));
    }
    LD lc = fabsl(r->t.back().second);
    Poly f = pscale(*r, 1 / lc);
    // single square of an atom of unknown sign: absolute value
    if (f.t.size() == 1 && f.t[0].second > 0) {
        MonoV m = monos[f.t[0].first];
        bool allev = true;
        for (auto& q : m)
            if (std::fmod(q.second, 2) != 0)
                allev = false;
        if (allev) {
            for (auto& q : m)
                q.second = canon_e(q.second / 2);
            Poly g;
            g.t.push_back({mono_id(m), 1});
            int s = sign_mask(g);
            PP gg;
            if (!(s & 1))
                gg = std::make_shared<Poly>(g);
            else if (!(s & 4))
                gg = std::make_shared<Poly>(pscale(g, -1));
            else
                gg = std::make_shared<Poly>(patom(atom_poly(A_ABS, 0, g, 0, INF, false, true)));
            auto q = pmul(*gg, hp);
            return q ? std::make_shared<Poly>(pscale(*q, sqrtl(lc))) : nullptr;
        }
    }
    if (auto g0 = poly_root(f)) {
        Poly g;
        int sg;
        LD glc = fabsl(g0->t.back().second);
        norm_sign(*g0, g, sg);
        int s = sign_mask(g);
        PP gg;
        if (!(s & 1))
            gg = std::make_shared<Poly>(g);
        else if (!(s & 4))
            gg = std::make_shared<Poly>(pscale(g, -1));
        else
            gg = std::make_shared<Poly>(patom(atom_poly(A_ABS, 0, g, 0, INF, !(s & 2), true)));
        auto q = pmul(*gg, hp);
        return q ? std::make_shared<Poly>(pscale(*q, glc * sqrtl(lc))) : nullptr;
    }
    int s = sign_mask(f);
    Poly root = patom(atom_poly(A_ROOT, 0, f, 0, INF, !(s & 2), true));
    auto q = pmul(root, hp);
    if (!q)
        return nullptr;
    return std::make_shared<Poly>(pscale(*q, sqrtl(lc)));
}
static PP pexp(const Poly& p)
{
    LD k = 0;
    MonoV m;
    PP extra = std::make_shared<Poly>(pconst(1));
    for (auto& t : p.t) {
        if (t.first == 0) {
            k += t.second;
            continue;
        }
        // exp(c*log(a)) = a^c
        auto& mm = monos[t.first];
        if (mm.size() == 1 && mm[0].second == 1 && atoms[mm[0].first].k == A_LOGA && atoms[atoms[mm[0].first].mono].pos) {
            extra = pmul(*extra, patom(atoms[mm[0].first].mono, (double)t.second));
            if (!extra)
                return nullptr;
            continue;
        }
        int a = atom_simple(A_EXP, 0, t.first, 0, INF, true, true);
        m.push_back({a, canon_e((double)t.second)});
    }
    if (fabsl(k) > 700)
        return nullptr;
    std::sort(m.begin(), m.end());
    Poly r;
    r.t.push_back({mono_id(m), expl(k)});
    return pmul(r, *extra);
}
static PP clear_den(Poly p, vector<pair<int, int>>* den = nullptr);
static PP plog(const Poly& p)
{
    if (p.t.empty())
        return nullptr;
    MonoV c = content(p, true);
    auto r = pmul(p, *mono_inv_poly(c));
    if (!r)
        return nullptr;
    Poly res;
    for (auto& f : c) {
        Atom A = atoms[f.first];
        if (A.k == A_EXP) {
            Poly q;
            q.t.push_back({A.mono, 1});
            res = padd(res, pscale(q, f.second));
        }
        else {
            double lo = -INF, hi = INF;
            if (A.lo > 0)
                lo = std::log(A.lo);
            if (A.hi < INF && A.hi > 0)
                hi = std::log(A.hi);
            res = padd(res, patom(atom_simple(A_LOGA, 0, f.first, lo, hi, false, false)), f.second);
        }
    }
    if (r->t.size() == 1 && r->t[0].first == 0) {
        if (r->t[0].second <= 0)
            return nullptr;
        return std::make_shared<Poly>(padd(res, pconst(logl(r->t[0].second))));
    }
    if (r->t.size() == 1) {
        // ROOT / INV of known sign
        const MonoV& m = monos[r->t[0].first];
        if (m.size() == 1 && atoms[m[0].first].k == A_ROOT && r->t[0].second > 0) {
            auto l = plog(*atoms[m[0].first].p);
            if (l) {
                res = padd(res, *l, 0.5L);
                return std::make_shared<Poly>(padd(res, pconst(logl(r->t[0].second))));
            }
        }
        if (m.size() == 1 && atoms[m[0].first].k == A_INV && r->t[0].second > 0) {
            auto l = plog(*atoms[m[0].first].p);
            if (l) {
                res = padd(res, *l, -m[0].second);
                return std::make_shared<Poly>(padd(res, pconst(logl(r->t[0].second))));
            }
        }
    }
    // log(num / den) with den > 0
    bool inv = false;
    for (auto& t : r->t)
        for (auto& f : monos[t.first])
            inv |= atoms[f.first].k == A_INV;
    if (inv) {
        vector<pair<int, int>> den;
        auto num = clear_den(*r, &den);
        bool ok = num && num->t.size() < 2000;
        if (ok) {
            auto l = plog(*num);
            for (auto& d : den) {
                auto q = l ? plog(*atoms[d.first].p) : nullptr;
                l = q ? std::make_shared<Poly>(padd(*l, *q, -(LD)d.second)) : nullptr;
            }
            if (l)
                return std::make_shared<Poly>(padd(res, *l));
        }
    }
    // log|f|, leading coefficient 1
    LD lc = r->t.back().second;
    Poly f = pscale(*r, 1 / lc);
    lc = fabsl(lc);
    res = padd(res, patom(atom_poly(A_LOG, 0, f, -INF, INF, false, false)));
    return std::make_shared<Poly>(padd(res, pconst(logl(lc))));
}
static PP pfn(Op op, const Poly& p, double lo, double hi, bool pos)
{
    if (p.t.empty() || (p.t.size() == 1 && p.t[0].first == 0)) {
        double x = p.t.empty() ? 0 : (double)p.t[0].second, r = 0;
        switch (op) {
        case ERFC: r = std::erfc(x); break;
        case SIN: r = std::sin(x); break;
        case COS: r = std::cos(x); break;
        case TAN: r = std::tan(x); break;
        case TANH: r = std::tanh(x); break;
        case ATAN: r = std::atan(x); break;
        case ASIN: r = std::asin(x); break;
        case ACOS: r = std::acos(x); break;
        case LGAMMA: r = std::lgamma(x); break;
        default: return nullptr;
        }
        return std::make_shared<Poly>(pconst(r));
    }
    bool odd = op == SIN || op == TAN || op == TANH || op == ATAN || op == ASIN, even = op == COS, erf = op == ERFC;
    Poly q = p;
    int s = 1;
    if ((odd || even || erf) && p.t.back().second < 0) {
        q = pscale(p, -1);
        s = -1;
    }
    Poly a = patom(atom_poly(A_FN, op, q, lo, hi, pos, pos));
    if (s < 0 && odd)
        a = pscale(a, -1);
    if (s < 0 && erf)
        a = padd(pconst(2), a, -1);
    return std::make_shared<Poly>(a);
}
static PP nf_compute(int n)
{
    const Node x = N[n];
    auto SP = [](Poly p) { return std::make_shared<Poly>(std::move(p)); };
    switch (x.op) {
    case CONST:
        if (!std::isfinite(x.c))
            return nullptr;
        return SP(pconst(x.c));
    case SYM: {
        auto& s = syms[sym_of[n]];
        bool pos = s.lo > 0 || (s.lo == 0 && (s.flags & VP_OPEN_LO));
        return SP(patom(atom_simple(A_SYM, n, 0, s.lo, s.hi, pos, s.lo >= 0)));
    }
    case UF: {
        auto& u = ufs[uf_of[n]];
        return SP(patom(atom_simple(A_UF, n, 0, u.lo, u.hi, u.lo > 0, u.lo >= 0)));
    }
    case EPS: return SP(Poly());
    default: break;
    }
    PP a = nf(x.a);
    if (!a)
        return nullptr;
    PP b;
    if (x.op == ADD || x.op == SUB || x.op == MUL || x.op == DIV || x.op == POW) {
        b = nf(x.b);
        if (!b)
            return nullptr;
    }
    switch (x.op) {
    case ADD: {
        auto r = SP(padd(*a, *b));
        return r->t.size() > MAXT ? nullptr : r;
    }
    case SUB: {
        auto r = SP(padd(*a, *b, -1));
        return r->t.size() > MAXT ? nullptr : r;
    }
    case MUL: return pmul(*a, *b);
    case DIV: {
        if (b->t.empty())
            return nullptr;
        if (a->t.size() == b->t.size() && a->t.size() > 1 && a->t.back().first == b->t.back().first) {
            LD k = a->t.back().second / b->t.back().second;
            if (peq(*a, pscale(*b, k)))
                return SP(pconst(k));
        }
        auto i = pinv(*b);
        return i ? pmul(*a, *i) : nullptr;
    }
    case NEG: return SP(pscale(*a, -1));
    case SQRT: return psqrt(*a);
    case EXP: return pexp(*a);
    case LOG: return plog(*a);
    case ABS: {
        int s = sign_mask(*a);
        if (!(s & 1))
            return a;
        if (!(s & 4))
            return SP(pscale(*a, -1));
        Poly q;
        int sg;
        norm_sign(*a, q, sg);
        LD lc = fabsl(a->t.back().second);
        return SP(pscale(patom(atom_poly(A_ABS, 0, q, 0, INF, false, true)), lc));
    }
    case POW: {
        if (b->t.empty())
            return SP(pconst(1));
        if (b->t.size() == 1 && b->t[0].first == 0) {
            double e = (double)b->t[0].second;
            if (e == std::floor(e) && e > 0 && e < 16)
                return ppow(*a, (int)e);
            if (e == std::floor(e) && e < 0 && e > -16) {
                auto i = pinv(*a);
                return i ? ppow(*i, (int)-e) : nullptr;
            }
            if (e == 0.5)
                return psqrt(*a);
            if (e == 1.5) {
                auto s = psqrt(*a);
                return s ? pmul(*s, *a) : nullptr;
            }
            if (e == -0.5) {
                auto s = psqrt(*a);
                return s ? pinv(*s) : nullptr;
            }
        }
        auto l = plog(*a);
        if (!l)
            return nullptr;
        auto m = pmul(*l, *b);
        return m ? pexp(*m) : nullptr;
    }
    case ERFC: return pfn(ERFC, *a, 0, 2, true);
    case SIN: return pfn(SIN, *a, -1, 1, false);
    case COS: return pfn(COS, *a, -1, 1, false);
    case TAN: return pfn(TAN, *a, -INF, INF, false);
    case TANH: return pfn(TANH, *a, -1, 1, false);
    case ATAN: return pfn(ATAN, *a, -1.6, 1.6, false);
    case ASIN: return pfn(ASIN, *a, -1.6, 1.6, false);
    case ACOS: return pfn(ACOS, *a, 0, 3.2, false);
    case LGAMMA: return pfn(LGAMMA, *a, -INF, INF, false);
    default: return nullptr;
    }
}
// numeric value of a normal form under a witness (self test of the algebra)
static double poly_eval(const Poly& p, const Wit& w);
static double atom_eval(int a, const Wit& w)
{
    Atom A = atoms[a];
    switch (A.k) {
    case A_SYM:
    case A_UF: return w.v[A.node];
    case A_EXP: {
        Poly q;
        q.t.push_back({A.mono, 1});
        return std::exp(poly_eval(q, w));
    }
    case A_ROOT: return std::sqrt(poly_eval(*A.p, w));
    case A_INV: return 1 / poly_eval(*A.p, w);
    case A_LOG: return std::log(std::fabs(poly_eval(*A.p, w)));
    case A_LOGA: return std::log(atom_eval(A.mono, w));
    case A_ABS: return std::fabs(poly_eval(*A.p, w));
    case A_FN: {
        double x = poly_eval(*A.p, w);
        switch (A.node) {
        case ERFC: return std::erfc(x);
        case SIN: return std::sin(x);
        case COS: return std::cos(x);
        case TAN: return std::tan(x);
        case TANH: return std::tanh(x);
        case ATAN: return std::atan(x);
        case ASIN: return std::asin(x);
        case ACOS: return std::acos(x);
        case LGAMMA: return std::lgamma(x);
        }
        return QNAN;
    }
    default: return QNAN;
    }
}
static double poly_eval(const Poly& p, const Wit& w)
{
    double s = 0;
    for (auto& t : p.t) {
        double m = (double)t.second;
        for (auto& f : monos[t.first])
            m *= std::pow(atom_eval(f.first, w), f.second);
        s += m;
    }
    return s;
}
static string nfs(const PP& p);
static bool selftest = getenv("VP_SELFTEST") != nullptr;
static void nf_check(int n, const PP& p)
{
    if (!p || W.empty())
        return;
    double x = W[0].v[n], y = poly_eval(*p, W[0]);
    if (std::isfinite(x) && std::isfinite(y) && std::fabs(x - y) > 1e-6 * (1 + std::fabs(x)))
        fprintf(stderr, "NF MISMATCH node %d op %d (%d,%d): dag %.12g nf %.12g  %s\n", n, N[n].op, N[n].a, N[n].b, x, y, nfs(p).c_str());
}
static PP nf(int n)
{
    if (MODE != 'R')
        return nullptr;
    auto it = nf_memo.find(n);
    if (it != nf_memo.end())
        return it->second;
    // iterative warm-up to bound the recursion depth
    vector<int> st{n};
    while (!st.empty()) {
        int k = st.back();
        if (nf_memo.count(k)) {
            st.pop_back();
            continue;
        }
        bool ready = true;
        if (N[k].op != SYM && N[k].op != UF && N[k].op != CONST && N[k].op != EPS) {
            if (N[k].a >= 0 && !nf_memo.count(N[k].a))
                st.push_back(N[k].a), ready = false;
            if (N[k].b >= 0 && !nf_memo.count(N[k].b))
                st.push_back(N[k].b), ready = false;
        }
        if (ready) {
            auto p = nf_compute(k);
            nf_memo[k] = p;
            if (selftest)
                nf_check(k, p);
            st.pop_back();
        }
    }
    return nf_memo[n];
}
// multiply out all INV atoms
static PP clear_den(Poly p, vector<pair<int, int>>* den)
{
    for (int iter = 0; iter < 60; iter++) {
        int best = -1;
        double me = 0;
        for (auto& t : p.t)
            for (auto& f : monos[t.first])
                if (atoms[f.first].k == A_INV && f.first > best)
                    best = f.first;
        if (best < 0)
            return std::make_shared<Poly>(p);
        for (auto& t : p.t)
            for (auto& f : monos[t.first])
                if (f.first == best)
                    me = std::max(me, f.second);
        if (den)
            den->push_back({best, (int)std::lround(me)});
        std::map<int, Poly> parts; // exponent -> poly without the atom
        for (auto& t : p.t) {
            MonoV m = monos[t.first], r;
            int e = 0;
            for (auto& f : m)
                if (f.first == best)
                    e = (int)std::lround(f.second);
                else
                    r.push_back(f);
            parts[e].t.push_back({mono_id(r), t.second});
        }
        Poly acc;
        for (auto& kv : parts) {
            std::sort(kv.second.t.begin(), kv.second.t.end(), [](auto& a, auto& b) { return a.first < b.first; });
            auto pw = ppow(*atoms[best].p, (int)std::lround(me) - kv.first);
            if (!pw)
                return nullptr;
            auto q = pmul(kv.second, *pw);
            if (!q)
                return nullptr;
            acc = padd(acc, *q);
        }
        p = acc;
        if (p.t.size() > MAXT)
            return nullptr;
    }
    return nullptr;
}
static Poly pabs(Poly p)
{
    for (auto& t : p.t)
        t.second = fabsl(t.second);
    return p;
}
// magnitude of what was added up in each monomial of clear_den(a - b)
static PP clear_den_scale(const Poly& a, const Poly& b)
{
    Poly p = padd(pabs(a), pabs(b));
    for (int iter = 0; iter < 60; iter++) {
        int best = -1;
        double me = 0;
        for (auto& t : p.t)
            for (auto& f : monos[t.first])
                if (atoms[f.first].k == A_INV && f.first > best)
                    best = f.first;
        if (best < 0)
            return std::make_shared<Poly>(p);
        for (auto& t : p.t)
            for (auto& f : monos[t.first])
                if (f.first == best)
                    me = std::max(me, f.second);
        Poly den = pabs(*atoms[best].p), acc;
        std::map<int, Poly> parts;
        for (auto& t : p.t) {
            MonoV r;
            int e = 0;
            for (auto& f : monos[t.first])
                if (f.first == best)
                    e = (int)std::lround(f.second);
                else
                    r.push_back(f);
            parts[e].t.push_back({mono_id(r), t.second});
        }
        for (auto& kv : parts) {
            std::sort(kv.second.t.begin(), kv.second.t.end(), [](auto& a, auto& b) { return a.first < b.first; });
            auto pw = ppow(den, (int)std::lround(me) - kv.first);
            auto q = pw ? pmul(kv.second, *pw) : nullptr;
            if (!q)
                return nullptr;
            acc = padd(acc, pabs(*q));
        }
        p = acc;
        if (p.t.size() > MAXT)
            return nullptr;
    }
    return nullptr;
}
// is every coefficient within the rounding of what was added up in it?
static bool only_rounding(const Poly& r, const Poly& a, const Poly& b)
{
    auto s = clear_den_scale(a, b);
    if (!s)
        return false;
    std::unordered_map<int, LD> m;
    for (auto& t : s->t)
        m[t.first] = t.second;
    for (auto& t : r.t) {
        auto it = m.find(t.first);
        if (it == m.end() || !(fabsl(t.second) <= 1e-9L * it->second))
            return false;
    }
    return true;
}
static LD maxc(const Poly& p)
{
    LD m = 0;
    for (auto& t : p.t)
        m = std::max(m, fabsl(t.second));
    return m;
}

// a = b because the logarithms on both sides have equal products: sum c_i log|p_i| + rest = 0 with rest a constant
static bool log_identity(const Poly& a, const Poly& b, const Wit& w)
{
    Poly d = padd(a, b, -1), rest, lin;
    vector<pair<Poly, int>> fs;
    double sum = 0;
    for (auto& t : d.t) {
        const MonoV& m = monos[t.first];
        bool lg = false;
        for (auto& f : m)
            lg |= atoms[f.first].k == A_LOG || atoms[f.first].k == A_LOGA;
        if (!lg) {
            rest.t.push_back(t);
            continue;
        }
        LD c = 2 * t.second;
        if (m.size() != 1 || m[0].second != 1 || fabsl(c - roundl(c)) > 1e-9L || fabsl(c) > 12)
            return false;
        const Atom& A = atoms[m[0].first];
        if (A.k == A_LOG)
            fs.push_back({*A.p, (int)roundl(c)});
        else if (atoms[A.mono].pos)
            fs.push_back({patom(A.mono), (int)roundl(c)});
        else
            return false;
        lin.t.push_back(t);
        sum += (double)t.second * atom_eval(m[0].first, w);
    }
    if (fs.empty() || !std::isfinite(sum))
        return false;
    // the rest is the constant -sum
    Poly k = pconst(-sum);
    Poly ra = padd(rest, k, -1);
    PP r = clear_den(ra);
    LD sc = maxc(ra);
    auto s = clear_den_scale(rest, k);
    if (!r || !s)
        return false;
    std::unordered_map<int, LD> mag;
    for (auto& t : s->t)
        mag[t.first] = t.second;
    for (auto& t : r->t)
        if (!(fabsl(t.second) <= 1e-9L * std::max(mag[t.first], sc > 0 && t.first == 0 ? sc : 0)))
            return false;
    // product of p_i^(2 c_i) = +-exp(2 sum)
    Poly up = pconst(1), dn = pconst(expl(2 * (LD)sum));
    for (auto& x : fs)
        for (int i = 0; i < std::abs(x.second); i++) {
            Poly& t = x.second > 0 ? up : dn;
            PP q = pmul(t, x.first);
            if (!q)
                return false;
            t = *q;
        }
    for (int sgn = -1; sgn <= 1; sgn += 2) {
        PP q = clear_den(padd(up, dn, sgn));
        if (q && (q->t.empty() || only_rounding(*q, up, dn)))
            return true;
    }
    return false;
}

// ------------------------------------------------------------------ path condition
enum Rel { LT,
    LE,
    EQ,
    NE,
    UNO,
    SAME };
struct Lit {
    Rel r;
    int a, b;
    bool neg;
};
static vector<Lit> PC;

static bool rel_eval(Rel r, double x, double y)
{
    switch (r) {
    case LT: return x < y;
    case LE: return x <= y;
    case EQ: return x == y;
    case NE: return x != y;
    case UNO: return std::isnan(x) || std::isnan(y);
    case SAME: return bits(x) == bits(y) || (std::isnan(x) && std::isnan(y));
    }
    return false;
}
static bool lit_eval(const Lit& l, const Wit& w) { return rel_eval(l.r, w.v[l.a], w.v[l.b]) != l.neg; }

// base symbols of a node (for slicing)
static std::unordered_map<int, std::shared_ptr<vector<int>>> base_memo;
static const vector<int>& base_syms(int n)
{
    vector<int> st{n};
    while (!st.empty()) {
        int k = st.back();
        if (base_memo.count(k)) {
            st.pop_back();
            continue;
        }
        vector<int> deps;
        if (N[k].op == UF)
            deps = ufs[uf_of[k]].args;
        else if (N[k].op != SYM && N[k].op != CONST && N[k].op != EPS) {
            deps.push_back(N[k].a);
            if (N[k].b >= 0)
                deps.push_back(N[k].b);
        }
        bool ready = true;
        for (int d : deps)
            if (!base_memo.count(d)) {
                st.push_back(d);
                ready = false;
            }
        if (!ready)
            continue;
        std::set<int> s;
        if (N[k].op == SYM || N[k].op == UF)
            s.insert(k);
        if (N[k].op == UF)
            s.insert(-2 - (int)(std::hash<string>()(ufs[uf_of[k]].name) % 1000003)); // applications of one UF are related
        for (int d : deps)
            for (int q : *base_memo[d])
                s.insert(q);
        base_memo[k] = std::make_shared<vector<int>>(s.begin(), s.end());
        st.pop_back();
    }
    return *base_memo[n];
}
static vector<Lit> slice(const vector<Lit>& goal)
{
    std::set<int> vs;
    for (auto& g : goal)
        for (int x : {g.a, g.b})
            if (x >= 0)
                for (int s : base_syms(x))
                    vs.insert(s);
    vector<Lit> r;
    vector<char> used(PC.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < PC.size(); i++) {
            if (used[i])
                continue;
            bool hit = false;
            for (int x : {PC[i].a, PC[i].b})
                for (int s : base_syms(x))
                    if (vs.count(s))
                        hit = true;
            if (hit) {
                used[i] = 1;
                ch = true;
                for (int x : {PC[i].a, PC[i].b})
                    for (int s : base_syms(x))
                        vs.insert(s);
            }
        }
    }
    for (size_t i = 0; i < PC.size(); i++)
        if (used[i])
            r.push_back(PC[i]);
    return r;
}

// ------------------------------------------------------------------ z3 encoding
static string rat(LD c)
{
    // snap to a small rational when the double rounding hides one, else exact binary
    if (c == 0)
        return "0";
    for (long q = 1; q <= 5040; q = q < 20 ? q + 1 : q * 2) {
        LD p = roundl(c * q);
        if (fabsl(p) < 1e15L && fabsl(p / q - c) <= 1e-13L * fabsl(c))
            return std::to_string((long long)p) + "/" + std::to_string(q);
    }
    int e;
    LD m = frexpl(c, &e);
    long long mm = (long long)roundl(ldexpl(m, 60));
    e -= 60;
    if (e >= 0) {
        // 2^e as decimal string
        string s = "1";
        for (int i = 0; i < e; i++) {
            int carry = 0;
            for (int k = (int)s.size() - 1; k >= 0; k--) {
                int d = (s[k] - '0') * 2 + carry;
                s[k] = '0' + d % 10;
                carry = d / 10;
            }
            if (carry)
                s.insert(s.begin(), '0' + carry);
        }
        return std::to_string(mm) + "*" + s; // handled by caller
    }
    while (e < 0 && (mm & 1) == 0)
        mm >>= 1, e++;
    string s = "1";
    for (int i = 0; i < -e; i++) {
        int carry = 0;
        for (int k = (int)s.size() - 1; k >= 0; k--) {
            int d = (s[k] - '0') * 2 + carry;
            s[k] = '0' + d % 10;
            carry = d / 10;
        }
        if (carry)
            s.insert(s.begin(), '0' + carry);
    }
    return std::to_string(mm) + "/" + s;
}
static vector<int> exp_nodes;
struct EncR {
    z3::context& c;
    vector<z3::expr> side;
    std::map<int, z3::expr> av, nodev;
    std::map<pair<int, double>, z3::expr> pw;
    bool axioms;
    int cnt = 0;
    vector<int> uf_used;
    EncR(z3::context& c, bool ax) : c(c), axioms(ax) {}
    z3::expr num(LD x)
    {
        string s = rat(x);
        size_t k = s.find('*');
        if (k != string::npos)
            return c.real_val(s.substr(0, k).c_str()) * c.real_val(s.substr(k + 1).c_str());
        return c.real_val(s.c_str());
    }
    z3::expr fresh(const char* p) { return c.real_const((string(p) + std::to_string(cnt++)).c_str()); }
    void bounds(z3::expr v, double lo, double hi, int fl)
    {
        if (std::isfinite(lo))
            side.push_back((fl & VP_OPEN_LO) ? v > num(lo) : v >= num(lo));
        if (std::isfinite(hi))
            side.push_back((fl & VP_OPEN_HI) ? v < num(hi) : v <= num(hi));
    }
    z3::expr base(int n)
    {
        auto it = nodev.find(n);
        if (it != nodev.end())
            return it->second;
        z3::expr v = c.real_const(("n" + std::to_string(n)).c_str());
        nodev.emplace(n, v);
        if (N[n].op == SYM) {
            auto& s = syms[sym_of[n]];
            bounds(v, s.lo, s.hi, s.flags);
        }
        else if (N[n].op == UF) {
            auto& u = ufs[uf_of[n]];
            bounds(v, u.lo, u.hi, 0);
            for (int o : uf_used)
                if (ufs[uf_of[o]].name == u.name && ufs[uf_of[o]].args.size() == u.args.size() && axioms) {
                    z3::expr e = c.bool_val(true);
                    for (size_t i = 0; i < u.args.size(); i++)
                        e = e && (node(ufs[uf_of[o]].args[i]) == node(u.args[i]));
                    side.push_back(z3::implies(e, v == nodev.at(o)));
                }
            uf_used.push_back(n);
        }
        return v;
    }
    z3::expr atom(int a)
    {
        auto it = av.find(a);
        if (it != av.end())
            return it->second;
        Atom A = atoms[a];
        if (A.k == A_SYM || A.k == A_UF) {
            z3::expr v = base(A.node);
            av.emplace(a, v);
            return v;
        }
        z3::expr v = c.real_const(("a" + std::to_string(a)).c_str());
        av.emplace(a, v);
        if (!axioms)
            return v;
        auto one = c.real_val(1), zero = c.real_val(0);
        switch (A.k) {
        case A_EXP: {
            side.push_back(v > zero);
            z3::expr m = mono(A.mono);
            side.push_back((m <= zero) == (v <= one));
            side.push_back(v >= one + m);
            break;
        }
        case A_ROOT: {
            side.push_back(v >= zero);
            side.push_back(v * v == poly(*A.p));
            break;
        }
        case A_ABS: {
            z3::expr p = poly(*A.p);
            side.push_back(v == z3::ite(p >= zero, p, -p));
            break;
        }
        case A_INV: side.push_back(v * poly(*A.p) == one); break;
        case A_LOG: { // log|p|
            z3::expr p = poly(*A.p);
            side.push_back(p != zero);
            side.push_back((p <= one && p >= -one) == (v <= zero));
            side.push_back(z3::implies(p > zero, v <= p - one));
            break;
        }
        case A_LOGA: {
            z3::expr p = atom(A.mono);
            side.push_back((p <= one) == (v <= zero));
            side.push_back(v <= p - one);
            break;
        }
        case A_FN: {
            bounds(v, A.lo, A.hi, 0);
            if (A.node == ERFC) {
                side.push_back(v > zero && v < c.real_val(2));
                z3::expr p = poly(*A.p);
                side.push_back((p <= zero) == (v >= one));
            }
            if (A.node == TANH || A.node == ATAN) {
                z3::expr p = poly(*A.p);
                side.push_back((p <= zero) == (v <= zero));
            }
            break;
        }
        default: break;
        }
        return v;
    }
    z3::expr power(int a, double e)
    {
        z3::expr v = atom(a);
        if (e == 1)
            return v;
        if (e == std::floor(e) && e > 1 && e < 40) {
            z3::expr r = v;
            for (int i = 1; i < (int)e; i++)
                r = r * v;
            return r;
        }
        auto it = pw.find({a, e});
        if (it != pw.end())
            return it->second;
        z3::expr w = fresh("w");
        pw.emplace(pair<int, double>{a, e}, w);
        if (!axioms)
            return w;
        if (atoms[a].pos)
            side.push_back(w > c.real_val(0));
        if (e < 0)
            side.push_back(w * power(a, -e) == c.real_val(1));
        else if (e * 2 == std::floor(e * 2)) {
            z3::expr q = power(a, e * 2);
            side.push_back(w >= c.real_val(0));
            side.push_back(w * w == q);
        }
        else if (atoms[a].k == A_EXP) {
            z3::expr m = mono(atoms[a].mono);
            side.push_back((m <= c.real_val(0)) == (w <= c.real_val(1)));
            side.push_back(w >= c.real_val(1) + num(e) * m);
        }
        return w;
    }
    z3::expr mono(int m)
    {
        const MonoV v = monos[m];
        if (v.empty())
            return c.real_val(1);
        z3::expr r = power(v[0].first, v[0].second);
        for (size_t i = 1; i < v.size(); i++)
            r = r * power(v[i].first, v[i].second);
        return r;
    }
    z3::expr poly(const Poly& p)
    {
        if (p.t.empty())
            return c.real_val(0);
        z3::expr_vector ev(c);
        for (auto& t : p.t)
            ev.push_back(t.first == 0 ? num(t.second) : (t.second == 1 ? mono(t.first) : num(t.second) * mono(t.first)));
        return ev.size() == 1 ? ev[0] : z3::sum(ev);
    }
    z3::expr node(int n)
    {
        if (auto p = nf(n))
            return poly(*p);
        auto it = nodev.find(n);
        if (it != nodev.end())
            return it->second;
        const Node x = N[n];
        z3::expr r = c.real_val(0);
        switch (x.op) {
        case CONST: r = std::isfinite(x.c) ? num(x.c) : fresh("inf"); break;
        case SYM:
        case UF: return base(n);
        case EPS: r = c.real_val(0); break;
        case ADD: r = node(x.a) + node(x.b); break;
        case SUB: r = node(x.a) - node(x.b); break;
        case MUL: r = node(x.a) * node(x.b); break;
        case NEG: r = -node(x.a); break;
        case DIV: {
            z3::expr q = fresh("q");
            side.push_back(q * node(x.b) == node(x.a));
            r = q;
            break;
        }
        case SQRT: {
            z3::expr q = fresh("s");
            side.push_back(q >= c.real_val(0));
            side.push_back(q * q == node(x.a));
            r = q;
            break;
        }
        case ABS: {
            z3::expr p = node(x.a);
            r = z3::ite(p >= c.real_val(0), p, -p);
            break;
        }
        case EXP: {
            z3::expr q = fresh("e");
            z3::expr p = node(x.a);
            side.push_back(q > c.real_val(0));
            side.push_back((p <= c.real_val(0)) == (q <= c.real_val(1)));
            r = q;
            break;
        }
        default: r = fresh("u"); break;
        }
        nodev.emplace(n, r);
        return r;
    }
    // relations between whole exponentials and their arguments (the normal form splits exp(a+b))
    void exp_relations()
    {
        std::set<int> vs;
        for (auto& kv : nodev)
            if (N[kv.first].op == SYM || N[kv.first].op == UF)
                vs.insert(kv.first);
        int k = 0;
        for (int n : exp_nodes) {
            bool in = true;
            for (int s : base_syms(n))
                if (s >= 0 && !vs.count(s))
                    in = false;
            auto p = nf(n), a = nf(N[n].a);
            if (!in || !p || !a || p->t.size() != 1 || a->t.size() < 2)
                continue;
            if (k++ > 16)
                break;
            z3::expr e = poly(*p), x = poly(*a);
            side.push_back(e > c.real_val(0));
            side.push_back((x <= c.real_val(0)) == (e <= c.real_val(1)));
        }
    }
    z3::expr lit(const Lit& l)
    {
        z3::expr e = c.bool_val(true);
        auto pa = nf(l.a), pb = nf(l.b);
        z3::expr d = c.real_val(0), z = c.real_val(0);
        if (l.r == UNO)
            return c.bool_val(l.neg);
        if (pa && pb)
            d = poly(padd(*pa, *pb, -1));
        else
            d = node(l.a) - node(l.b);
        switch (l.r) {
        case LT: e = d < z; break;
        case LE: e = d <= z; break;
        case EQ:
        case SAME: e = d == z; break;
        case NE: e = d != z; break;
        default: break;
        }
        return l.neg ? !e : e;
    }
};
struct EncF {
    z3::context& c;
    vector<z3::expr> side;
    std::map<int, z3::expr> nodev;
    vector<int> fn_used;
    z3::sort S;
    int cnt = 0;
    EncF(z3::context& c) : c(c), S(c.fpa_sort(11, 53)) {}
    z3::expr num(double d)
    {
        return z3::expr(c, Z3_mk_fpa_to_fp_bv(c, c.bv_val((uint64_t)bits(d), 64), S));
    }
    void exp_relations() {}
    z3::expr rne() { return c.fpa_rounding_mode(); }
    z3::expr var(const string& n) { return c.constant(n.c_str(), S); }
    void rng(z3::expr v, double lo, double hi, int flags)
    {
        if (flags & VP_ANY)
            return;
        side.push_back(!z3::expr(c, Z3_mk_fpa_is_nan(c, v)) && !z3::expr(c, Z3_mk_fpa_is_infinite(c, v)));
        if (std::isfinite(lo))
            side.push_back((flags & VP_OPEN_LO) ? z3::expr(c, Z3_mk_fpa_gt(c, v, num(lo))) : z3::expr(c, Z3_mk_fpa_geq(c, v, num(lo))));
        if (std::isfinite(hi))
            side.push_back((flags & VP_OPEN_HI) ? z3::expr(c, Z3_mk_fpa_lt(c, v, num(hi))) : z3::expr(c, Z3_mk_fpa_leq(c, v, num(hi))));
    }
    z3::expr node(int n)
    {
        auto it = nodev.find(n);
        if (it != nodev.end())
            return it->second;
        const Node x = N[n];
        z3::expr r = var("f" + std::to_string(n));
        switch (x.op) {
        case CONST: r = num(x.c); break;
        case SYM: {
            auto& s = syms[sym_of[n]];
            rng(r, s.lo, s.hi, s.flags);
            break;
        }
        case UF: {
            auto& u = ufs[uf_of[n]];
            rng(r, u.lo, u.hi, 0);
            for (int o : fn_used)
                if (N[o].op == UF && ufs[uf_of[o]].name == u.name && ufs[uf_of[o]].args.size() == u.args.size()) {
                    z3::expr e = c.bool_val(true);
                    for (size_t i = 0; i < u.args.size(); i++)
                        e = e && z3::expr(c, Z3_mk_fpa_eq(c, node(ufs[uf_of[o]].args[i]), node(u.args[i])));
                    side.push_back(z3::implies(e, r == node(o)));
                }
            fn_used.push_back(n);
            break;
        }
        case ADD: r = z3::expr(c, Z3_mk_fpa_add(c, rne(), node(x.a), node(x.b))); break;
        case SUB: r = z3::expr(c, Z3_mk_fpa_sub(c, rne(), node(x.a), node(x.b))); break;
        case MUL: r = z3::expr(c, Z3_mk_fpa_mul(c, rne(), node(x.a), node(x.b))); break;
        case DIV: r = z3::expr(c, Z3_mk_fpa_div(c, rne(), node(x.a), node(x.b))); break;
        case NEG: r = z3::expr(c, Z3_mk_fpa_neg(c, node(x.a))); break;
        case ABS: r = z3::expr(c, Z3_mk_fpa_abs(c, node(x.a))); break;
        case SQRT: r = z3::expr(c, Z3_mk_fpa_sqrt(c, rne(), node(x.a))); break;
        default: {
            // libm: uninterpreted, functional, NaN in -> NaN out
            z3::expr a = node(x.a);
            side.push_back(z3::implies(z3::expr(c, Z3_mk_fpa_is_nan(c, a)), z3::expr(c, Z3_mk_fpa_is_nan(c, r))));
            if (x.op == EXP)
                side.push_back(z3::expr(c, Z3_mk_fpa_is_nan(c, a)) || z3::expr(c, Z3_mk_fpa_geq(c, r, num(0.))));
            for (int o : fn_used)
                if (N[o].op == x.op) {
                    z3::expr e = node(N[o].a) == a;
                    if (x.b >= 0)
                        e = e && node(N[o].b) == node(x.b);
                    side.push_back(z3::implies(e, node(o) == r));
                }
            fn_used.push_back(n);
            break;
        }
        }
        nodev.emplace(n, r);
        return r;
    }
    z3::expr lit(const Lit& l)
    {
        z3::expr a = node(l.a), b = node(l.b), e = c.bool_val(true);
        switch (l.r) {
        case LT: e = z3::expr(c, Z3_mk_fpa_lt(c, a, b)); break;
        case LE: e = z3::expr(c, Z3_mk_fpa_leq(c, a, b)); break;
        case EQ: e = z3::expr(c, Z3_mk_fpa_eq(c, a, b)); break;
        case NE: e = !z3::expr(c, Z3_mk_fpa_eq(c, a, b)); break;
        case UNO: e = z3::expr(c, Z3_mk_fpa_is_nan(c, a)) || z3::expr(c, Z3_mk_fpa_is_nan(c, b)); break;
        case SAME: e = a == b; break;
        }
        return l.neg ? !e : e;
    }
};

enum { UNSAT = 0,
    SAT = 1,
    UNKNOWN = 2 };

static void wr(int fd, const void* p, size_t n)
{
    const char* c = (const char*)p;
    while (n) {
        ssize_t k = write(fd, c, n);
        if (k <= 0)
            return;
        c += k;
        n -= k;
    }
}
// runs `body` in a forked child with a hard limit; returns its answer bytes
static bool guarded(int ms, const std::function<void(int)>& body, string& out)
{
    int p[2];
    if (pipe(p))
        return false;
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        signal(SIGALRM, SIG_DFL);
        signal(SIGSEGV, SIG_DFL);
        signal(SIGABRT, SIG_DFL);
        alarm(ms / 1000 + 3);
        struct rlimit rl = {3ull << 30, 3ull << 30};
        setrlimit(RLIMIT_AS, &rl);
        try {
            body(p[1]);
        }
        catch (...) {
        }
        _exit(0);
    }
    close(p[1]);
    out.clear();
    char buf[65536];
    double t1 = now() + ms / 1000. + 2;
    for (;;) {
        struct pollfd pf = {p[0], POLLIN, 0};
        int k = poll(&pf, 1, std::max(1, (int)((t1 - now()) * 1000)));
        if (k < 0 && errno == EINTR)
            continue;
        if (k <= 0) {
            kill(pid, SIGKILL);
            break;
        }
        ssize_t r = read(p[0], buf, sizeof buf);
        if (r <= 0)
            break;
        out.append(buf, r);
    }
    close(p[0]);
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
        ;
    return !out.empty();
}
// is (slice of) PC /\ goal satisfiable?
static int solve(const vector<Lit>& goal, std::unordered_map<int, double>* model, int ms = 0, bool full = false)
{
    if (!ms)
        ms = q_timeout;
    // many queries beyond the solver: spend less on each, so that every path is at least followed once
    if (G->qunk > 24)
        ms = std::max(std::min(ms, 250), (int)(ms * 24 / G->qunk));
    if (now() + ms / 1000. > deadline)
        ms = std::max(200, (int)((deadline - now()) * 1000));
    bool have_w = !W.empty();
    vector<Lit> pcs = (full || !have_w) ? PC : slice(goal);
    G->queries++;
    double t0 = now();
    // warm up the normal forms here so that the memo survives the fork
    if (MODE == 'R')
        for (const vector<Lit>* v : {(const vector<Lit>*)&pcs, &goal})
            for (auto& l : *v)
                nf(l.a), nf(l.b);
    string out;
    bool ok = guarded(
        ms, [&](int fd) {
            z3::context c;
            string txt;
            auto run = [&](auto& E, z3::solver s) {
                z3::expr_vector as(c);
                for (auto& l : pcs)
                    as.push_back(E.lit(l));
                for (auto& l : goal)
                    as.push_back(E.lit(l));
                E.exp_relations();
                for (unsigned i = 0; i < as.size(); i++)
                    s.add(as[i]);
                for (size_t i = 0; i < E.side.size(); i++)
                    s.add(E.side[i]);
                z3::params pr(c);
                pr.set("timeout", (unsigned)ms);
                s.set(pr);
                auto r = s.check();
                if (r == z3::unsat)
                    txt = "U";
                else if (r == z3::sat) {
                    txt = "S";
                    z3::model m = s.get_model();
                    for (auto& kv : E.nodev) {
                        if (N[kv.first].op != SYM && N[kv.first].op != UF)
                            continue;
                        z3::expr v = m.eval(kv.second, true);
                        double d = 0;
                        if (MODE == 'R') {
                            string q = v.get_decimal_string(18);
                            d = strtod(q.c_str(), nullptr);
                            if (q[0] == '(' || q.empty())
                                d = 0;
                        }
                        else {
                            z3::expr bv = z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, v)).simplify();
                            uint64_t u = 0;
                            if (bv.is_numeral())
                                u = bv.get_numeral_uint64();
                            d = fbits(u);
                            if (std::isnan(d))
                                d = QNAN;
                        }
                        char b[80];
                        snprintf(b, sizeof b, " %d:%llx", kv.first, (unsigned long long)bits(d));
                        txt += b;
                    }
                }
                else
                    txt = "K";
            };
            if (MODE == 'R') {
                EncR E(c, true);
                run(E, z3::solver(c, "QF_NRA"));
            }
            else {
                EncF E(c);
                run(E, z3::solver(c, "QF_FP"));
            }
            wr(fd, txt.data(), txt.size());
        },
        out);
    G->qms += (long)((now() - t0) * 1000);
    int r = UNKNOWN;
    if (ok && out[0] == 'U')
        r = UNSAT;
    if (ok && out[0] == 'S') {
        r = SAT;
        if (model) {
            model->clear();
            std::istringstream is(out.substr(1));
            string tok;
            while (is >> tok) {
                size_t k = tok.find(':');
                (*model)[atoi(tok.c_str())] = fbits(strtoull(tok.c_str() + k + 1, nullptr, 16));
            }
            // symbols outside the slice keep the values of a witness of the path
            if (have_w && !full)
                for (auto& s : syms)
                    if (!model->count(s.node))
                        (*model)[s.node] = W[0].v[s.node];
            if (have_w && !full)
                for (auto& u : ufs)
                    if (!model->count(u.node))
                        (*model)[u.node] = W[0].v[u.node];
        }
    }
    (r == SAT ? G->qsat : r == UNSAT ? G->qunsat
                                     : G->qunk)++;
    return r;
}
static Wit wit_from(const std::unordered_map<int, double>& m)
{
    Wit w;
    w.seed = mix(SEED * 31 + N.size());
    w.given = m;
    rebuild(w);
    return w;
}

// further witnesses of the path that satisfy `want`: other values for some symbols of a known one. Only finds what the
// solver is slow to find; nothing is concluded when it finds none.
template <typename F>
static void sample(vector<Wit>& out, const vector<Wit>& base, const F& want, size_t enough = 2)
{
    static u64 count = 0;
    size_t cost = N.size() + ufs.size() * ufs.size() + 1;
    int tries = (int)std::min<size_t>(96, 3000000 / cost);
    for (int t = 0; t < tries && out.size() < enough; t++) {
        Wit w;
        w.seed = mix(SEED * 77 + N.size() * 131 + PC.size() * 7 + ++count);
        if (!base.empty() && t % 4) {
            const Wit& b = base[t % base.size()];
            double keep = t % 4 == 1 ? 0.5 : t % 4 == 2 ? 0.85 : 1 - 1.5 / (1 + syms.size() + ufs.size());
            for (auto& s : syms)
                if (urand(w.seed + 31 * s.node) < keep)
                    w.given[s.node] = b.v[s.node];
            for (auto& u : ufs)
                if (urand(w.seed + 31 * u.node) < keep)
                    w.given[u.node] = b.v[u.node];
        }
        rebuild(w);
        bool ok = want(w);
        for (size_t i = 0; ok && i < PC.size(); i++)
            ok = lit_eval(PC[i], w);
        if (ok)
            out.push_back(std::move(w));
    }
}

// ------------------------------------------------------------------ records
static string jesc(const string& s)
{
    string r;
    for (char c : s) {
        if (c == '"' || c == '\\')
            r += '\\', r += c;
        else if (c == '\n')
            r += "\\n";
        else if ((unsigned char)c < 32)
            r += ' ';
        else
            r += c;
    }
    return r;
}
static string model_text(const Wit& w)
{
    std::ostringstream o;
    char b[64];
    for (auto& s : syms) {
        snprintf(b, sizeof b, "%016llx", (unsigned long long)bits(w.v[s.node]));
        o << "S " << b << " " << s.name << "=" << w.v[s.node] << "\n";
    }
    for (auto& c : choices)
        o << "C " << c.second << " " << c.first << "\n";
    for (auto& u : ufs) {
        o << "U " << u.name << " " << u.args.size();
        for (int a : u.args) {
            snprintf(b, sizeof b, " %016llx", (unsigned long long)bits(w.v[a]));
            o << b;
        }
        snprintf(b, sizeof b, " %016llx", (unsigned long long)bits(w.v[u.node]));
        o << b << "\n";
    }
    return o.str();
}
static void emit(const string& s)
{
    string l = s + "\n";
    wr(out_fd, l.data(), l.size());
}
static vector<pair<string, int>> observed; // label, node
static vector<pair<string, double>> observed_c;

static void record_viol(const string& label, const string& kind, const string& status, const vector<Wit>& ws, const string& info)
{
    G->viols++;
    if (++viol_per_label[label] > 2)
        return;
    std::ostringstream o;
    o << "{\"t\":\"viol\",\"label\":\"" << jesc(label) << "\",\"kind\":\"" << kind << "\",\"status\":\"" << status << "\",\"info\":\"" << jesc(info) << "\",\"models\":[";
    size_t k = 0;
    for (auto& w : ws) {
        if (k >= 6)
            break;
        o << (k++ ? "," : "") << "\"" << jesc(model_text(w)) << "\"";
    }
    o << "]}";
    emit(o.str());
}
static void record_undec(const string& label, const string& why)
{
    G->undec++;
    vector<Wit> ws(W.begin(), W.begin() + std::min<size_t>(W.size(), 4));
    std::ostringstream o;
    o << "{\"t\":\"undec\",\"label\":\"" << jesc(label) << "\",\"why\":\"" << jesc(why) << "\",\"models\":[";
    size_t k = 0;
    for (auto& w : ws)
        o << (k++ ? "," : "") << "\"" << jesc(model_text(w)) << "\"";
    o << "]}";
    emit(o.str());
}

struct BatchItem {
    PP a, b;
    string label;
};
static vector<BatchItem> batch;
static void flush_batch()
{
    if (batch.empty())
        return;
    // (OR a_i != b_i) must be unsatisfiable over the atoms
    size_t i0 = 0;
    while (i0 < batch.size()) {
        size_t i1 = i0, terms = 0;
        while (i1 < batch.size() && (i1 == i0 || terms < 6000)) {
            terms += batch[i1].a->t.size() + batch[i1].b->t.size();
            i1++;
        }
        string out;
        G->queries++;
        G->batch++;
        double t0 = now();
        bool ok = guarded(
            20000, [&](int fd) {
                z3::context c;
                EncR E(c, false);
                z3::solver s(c, "QF_NRA");
                z3::params pr(c);
                pr.set("timeout", 15000u);
                s.set(pr);
                z3::expr_vector ors(c);
                for (size_t i = i0; i < i1; i++) {
                    Poly a = *batch[i].a, b = *batch[i].b;
                    // one rounding of equal coefficients
                    for (auto& t : b.t)
                        for (auto& u : a.t)
                            if (u.first == t.first && fabsl(u.second - t.second) <= 1e-9L * (fabsl(u.second) + fabsl(t.second)))
                                t.second = u.second;
                    ors.push_back(E.poly(a) != E.poly(b));
                }
                s.add(z3::mk_or(ors));
                auto r = s.check();
                string t = r == z3::unsat ? "U" : r == z3::sat ? "S"
                                                               : "K";
                wr(fd, t.data(), 1);
            },
            out);
        G->qms += (long)((now() - t0) * 1000);
        if (ok && out[0] == 'U') {
            G->qunsat++;
            G->disch += (long)(i1 - i0);
        }
        else {
            if (ok && out[0] == 'S')
                G->qsat++;
            else
                G->qunk++;
            for (size_t i = i0; i < i1; i++)
                record_undec(batch[i].label, "identity not confirmed by the solver");
        }
        i0 = i1;
    }
    batch.clear();
}

static void exit_path(const char* status)
{
    alarm(0);
    flush_batch();
    if (strcmp(status, "done") == 0) {
        G->paths++;
        std::ostringstream o;
        o << "{\"t\":\"path\",\"checks\":" << path_checks << ",\"pc\":" << PC.size() << ",\"syms\":" << syms.size() << ",\"nodes\":" << N.size();
        o << ",\"reach\":[";
        size_t k = 0;
        for (auto& r : reached)
            o << (k++ ? "," : "") << "\"" << jesc(r) << "\"";
        o << "],\"must\":[";
        k = 0;
        for (auto& r : musts)
            o << (k++ ? "," : "") << "\"" << jesc(r) << "\"";
        o << "],\"cuts\":{";
        k = 0;
        for (auto& c : cuts)
            o << (k++ ? "," : "") << "\"" << jesc(c.first) << "\":" << c.second;
        o << "}";
        const Wit* w = nullptr;
        for (auto& x : W)
            if (!x.approx) {
                w = &x;
                break;
            }
        if (w) {
            o << ",\"model\":\"" << jesc(model_text(*w)) << "\",\"obs\":[";
            k = 0;
            for (auto& ob : observed) {
                if (k > 300)
                    break;
                char b[40];
                snprintf(b, sizeof b, "%.17g", w->v[ob.second]);
                o << (k++ ? "," : "") << "[\"" << jesc(ob.first) << "\",\"" << b << "\"]";
            }
            o << "]";
        }
        o << "}";
        emit(o.str());
    }
    else if (strcmp(status, "killed") == 0)
        G->killed++;
    else if (strcmp(status, "infeasible") == 0)
        G->infeasible++;
    else {
        G->cutpaths++;
        std::ostringstream o;
        o << "{\"t\":\"cut\",\"why\":\"" << jesc(status) << "\",\"cuts\":{";
        size_t k = 0;
        for (auto& c : cuts)
            o << (k++ ? "," : "") << "\"" << jesc(c.first) << "\":" << c.second;
        o << "}}";
        emit(o.str());
    }
    G->nodes += (long)N.size();
    if (holds_slot)
        sem_post(&G->slots);
    fflush(stdout);
    _exit(0);
}

static double armed_at = 0;
static void on_crash(int sig)
{
    signal(sig, SIG_DFL);
    alarm(20);
    if (sig == SIGALRM && now() - armed_at < 10) { // resumed after the end of the exploration
        G->cutpaths++;
        emit("{\"t\":\"cut\",\"why\":\"deadline\",\"cuts\":{}}");
    }
    else if (sig == SIGALRM) {
        G->hang++;
        record_viol("termination", "hang", "candidate", W, "path did not terminate within its time budget");
    }
    else {
        // is the path feasible at all?
        vector<Wit> ws = W;
        if (ws.empty()) {
            std::unordered_map<int, double> m;
            int r = solve({}, &m, 0, true);
            if (r == UNSAT) {
                G->infeasible++;
                if (holds_slot)
                    sem_post(&G->slots);
                _exit(0);
            }
            if (r == SAT)
                ws.push_back(wit_from(m));
        }
        record_viol("no crash", "crash", "candidate", ws, string("signal ") + strsignal(sig));
    }
    if (holds_slot)
        sem_post(&G->slots);
    _exit(0);
}

// ------------------------------------------------------------------ forking
static int dir_serial = 0;
// before a fork: a private copy of the scratch directory for the child (the parent goes on writing to the original)
static string iso_dir, iso_old;
static vector<std::tuple<int, string, off_t>> iso_fds;
static void prepare_files()
{
    char cwd[4096];
    iso_dir.clear();
    iso_fds.clear();
    if (base_dir.empty() || !getcwd(cwd, sizeof cwd))
        return;
    iso_old = cwd;
    bool any = false;
    if (DIR* d = opendir(".")) {
        while (auto* e = readdir(d))
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
                any = true;
        closedir(d);
    }
    iso_dir = base_dir + "/p" + std::to_string(getpid()) + "_" + std::to_string(dir_serial++);
    mkdir(iso_dir.c_str(), 0755);
    if (!any)
        return;
    std::error_code ec;
    std::filesystem::copy(iso_old, iso_dir, std::filesystem::copy_options::recursive, ec);
    for (int fd = 3; fd < 256; fd++) {
        char l[64], t[4096];
        snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
        ssize_t k = readlink(l, t, sizeof t - 1);
        if (k <= 0)
            continue;
        t[k] = 0;
        if (string(t).compare(0, iso_old.size() + 1, iso_old + "/") == 0)
            iso_fds.push_back(std::make_tuple(fd, iso_dir + string(t).substr(iso_old.size()), lseek(fd, 0, SEEK_CUR)));
    }
}
// in the child: continue on the copy
static void isolate_files()
{
    if (iso_dir.empty())
        return;
    for (auto& f : iso_fds) {
        int fd = std::get<0>(f);
        int nf_ = open(std::get<1>(f).c_str(), fcntl(fd, F_GETFL) & ~(O_TRUNC | O_CREAT | O_EXCL));
        if (nf_ >= 0) {
            lseek(nf_, std::get<2>(f), SEEK_SET);
            dup2(nf_, fd);
            close(nf_);
        }
    }
    if (chdir(iso_dir.c_str())) {
    }
}
static double path_budget = 1e9;
static void arm()
{
    double left = deadline - now() + 15;
    left = std::min(left, path_budget);
    armed_at = now();
    alarm((unsigned)std::max(1., left));
}
// returns true in the child
static bool do_fork()
{
    G->forks++;
    bool async = sem_trywait(&G->slots) == 0;
    fflush(stdout);
    prepare_files();
    pid_t pid = fork();
    if (pid < 0) {
        if (async)
            sem_post(&G->slots);
        cuts["fork failed"]++;
        exit_path("fork failed");
    }
    if (pid == 0) {
        holds_slot = async;
        viol_per_label.clear();
        depth_forks++;
        batch.clear(); // the parent confirms its own prefix
        path_checks = 0;
        isolate_files();
        arm();
        return true;
    }
    if (!async) {
        int st;
        alarm(0);
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
            ;
        if (WIFSIGNALED(st))
            G->lost++;
        arm();
    }
    return false;
}

static void check_deadline()
{
    if (now() > deadline || G->stop)
        exit_path("deadline");
}

static Lit lneg(Lit l)
{
    l.neg = !l.neg;
    return l;
}
static void set_fact(const Lit& l)
{
    if (MODE != 'R')
        return;
    auto a = nf(l.a), b = nf(l.b);
    if (!a || !b)
        return;
    Poly d = padd(*a, *b, -1), q;
    if (d.t.empty())
        return;
    int s;
    norm_sign(d, q, s);
    int m = 7;
    switch (l.r) {
    case LT: m = 1; break;
    case LE: m = 3; break;
    case EQ:
    case SAME: m = 2; break;
    case NE: m = 5; break;
    default: return;
    }
    if (l.neg)
        m = 7 & ~m;
    if (s < 0)
        m = flip(m);
    *fact_of(q, true) &= m;
}
static void push(const Lit& l, bool fact_only = false)
{
    if (!fact_only)
        PC.push_back(l);
    set_fact(l);
}
static int lit_known(const Lit& l)
{ // 1 true 0 false -1 unknown
    if (MODE == 'R') {
        if (l.r == UNO)
            return l.neg ? 1 : 0;
        auto a = nf(l.a), b = nf(l.b);
        if (a && b) {
            Poly d = padd(*a, *b, -1);
            int m = sign_mask(d);
            int t = 7;
            switch (l.r) {
            case LT: t = 1; break;
            case LE: t = 3; break;
            case EQ:
            case SAME: t = 2; break;
            case NE: t = 5; break;
            default: break;
            }
            if (l.neg)
                t = 7 & ~t;
            if ((m & t) == m)
                return 1;
            if ((m & t) == 0)
                return 0;
        }
    }
    else {
        if (l.a == l.b && l.r == UNO) {
            // NaN test of a value: finite symbols are not NaN
            auto o = N[l.a].op;
            if (o == UF || (o == SYM && !(syms[sym_of[l.a]].flags & VP_ANY)))
                return l.neg ? 1 : 0;
        }
        for (auto& p : PC)
            if (p.r == l.r && p.a == l.a && p.b == l.b)
                return p.neg == l.neg ? 1 : 0;
    }
    return -1;
}
static string nfs(const PP& p)
{
    if (!p)
        return "?";
    std::ostringstream o;
    size_t k = 0;
    for (auto& t : p->t) {
        if (k++ > 6) {
            o << " ...(" << p->t.size() << " terms)";
            break;
        }
        o << (k > 1 ? " + " : "") << (double)t.second;
        for (auto& f : monos[t.first]) {
            auto& A = atoms[f.first];
            static const char* nm[] = {"", "uf", "exp", "root", "inv", "log", "log", "abs", "fn", "raw"};
            o << "*" << (A.k == A_SYM ? syms[sym_of[A.node]].name : string(nm[A.k]) + "#" + std::to_string(f.first));
            if (f.second != 1)
                o << "^" << f.second;
        }
    }
    if (p->t.empty())
        o << "0";
    return o.str();
}
static void vp_bt()
{
    void* bt[24];
    int k = backtrace(bt, 24);
    backtrace_symbols_fd(bt, k, 2);
}
static bool branch(Lit l)
{
    int k = lit_known(l);
    if (k >= 0)
        return k;
    check_deadline();
    vector<Wit> T, F;
    for (auto& w : W)
        (lit_eval(l, w) ? T : F).push_back(w);
    bool hadW = !W.empty();
    bool canT = !T.empty(), canF = !F.empty();
    int rT = SAT, rF = SAT;
    std::unordered_map<int, double> m;
    auto add = [&](vector<Wit>& V, const Lit& g) {
        Wit w = wit_from(m);
        bool good = lit_eval(g, w);
        for (auto& p : PC)
            if (!lit_eval(p, w))
                good = false;
        w.approx = !good;
        V.push_back(std::move(w));
    };
    // the side without a witness: a short attempt; then, when it is hard, the other side goes on first
    auto settle = [&](vector<Wit>& V, const Lit& g, int& res) -> bool {
        int quick = std::min(q_timeout, 1000);
        res = solve({g}, &m, hadW ? quick : 0);
        if (res == UNKNOWN) {
            sample(V, W, [&](const Wit& w) { return lit_eval(g, w); });
            if (!V.empty())
                res = SAT;
            else if (hadW && quick < q_timeout)
                return false;
        }
        else if (res == SAT) {
            auto save = std::move(W);
            W.clear();
            add(V, g);
            W = std::move(save);
        }
        return true;
    };
    for (int side = 0; side < 2; side++) {
        vector<Wit>&V = side ? F : T, &O = side ? T : F;
        if (!V.empty() || (side && rT == UNSAT && hadW))
            continue;
        Lit g = side ? lneg(l) : l;
        if (settle(V, g, side ? rF : rT))
            continue;
        if (do_fork()) {
            W = std::move(O);
            push(lneg(g));
            return side;
        }
        check_deadline();
        int r = solve({g}, &m);
        if (r == UNSAT)
            exit_path("infeasible");
        vector<Wit> V2;
        W.clear();
        if (r == SAT)
            add(V2, g);
        W = std::move(V2);
        push(g);
        return !side;
    }
    if (rT == UNSAT && hadW) {
        push(lneg(l), true);
        return false;
    }
    if (rF == UNSAT && rT != UNSAT) {
        push(l, true);
        return true;
    }
    if (rT == UNSAT && rF == UNSAT)
        exit_path("infeasible");
    if (rT == UNSAT) {
        push(lneg(l), true);
        return false;
    }
    if (getenv("VP_DEBUG")) {
        auto pa = nf(l.a), pb = nf(l.b);
        fprintf(stderr, "[%d] fork rel=%d neg=%d: %s  vs  %s\n", (int)getpid(), l.r, l.neg, nfs(pa).c_str(), nfs(pb).c_str());
        if (getenv("VP_DEBUG_BT"))
            vp_bt();
    }
    bool child = do_fork();
    // parent takes the side with witnesses first
    bool val = child ? (T.size() < F.size()) : !(T.size() < F.size());
    W = std::move(val ? T : F);
    push(val ? l : lneg(l));
    return val;
}
static bool brel(Rel r, double a, double b, bool neg = false)
{
    if (!boxed(a) && !boxed(b))
        return rel_eval(r, a, b) != neg;
    // infinities and NaN against reals
    if (MODE == 'R') {
        for (int i = 0; i < 2; i++) {
            double k = i ? b : a;
            if (!boxed(k) && !std::isfinite(k)) {
                double x = i ? 0. : a, y = i ? b : 0.;
                return rel_eval(r, x, y) != neg;
            }
        }
        if (r == LE) // a<=b  ==  !(b<a)
            return !(brel(LT, b, a)) != neg;
        if (r == UNO)
            return neg;
    }
    Lit l{r, node_of(a), node_of(b), neg};
    return branch(l);
}

// ------------------------------------------------------------------ arithmetic entry points
static double un(Op op, double a)
{
    return box(mk(op, nid(a)));
}
static bool rconst_special(double d) { return !boxed(d) && !std::isfinite(d); }
static int sgn_branch(double x)
{ // sign of a symbolic real
    if (brel(LT, x, 0.))
        return -1;
    if (brel(EQ, x, 0.))
        return 0;
    return 1;
}
static bool expect_div = false;
extern "C" {
double __vp_fadd(double a, double b)
{
    if (!boxed(a) && !boxed(b))
        return a + b;
    if (MODE == 'R') {
        if (rconst_special(a))
            return a;
        if (rconst_special(b))
            return b;
        if (!boxed(a) && a == 0)
            return b;
        if (!boxed(b) && b == 0)
            return a;
    }
    int x = node_of(a), y = node_of(b);
    if (x > y)
        std::swap(x, y);
    return box(mk(ADD, x, y));
}
double __vp_fneg(double a);
double __vp_fsub(double a, double b)
{
    if (!boxed(a) && !boxed(b))
        return a - b;
    if (MODE == 'R') {
        if (rconst_special(a))
            return a;
        if (rconst_special(b))
            return -b;
        if (!boxed(a) && a == 0)
            return __vp_fneg(b);
        if (boxed(a) && boxed(b) && nid(a) == nid(b) && N[nid(a)].op != EPS)
            return 0.;
    }
    if (!boxed(b) && b == 0 && bits(b) == 0)
        return a;
    return box(mk(SUB, node_of(a), node_of(b)));
}
double __vp_fneg(double a)
{
    if (!boxed(a))
        return -a;
    if (N[nid(a)].op == NEG)
        return box(N[nid(a)].a);
    return box(mk(NEG, nid(a)));
}
double __vp_fmul(double a, double b)
{
    if (!boxed(a) && !boxed(b))
        return a * b;
    if (!boxed(a))
        std::swap(a, b);
    if (MODE == 'R' && !boxed(b)) {
        if (std::isnan(b))
            return b;
        if (std::isinf(b)) {
            int s = sgn_branch(a);
            return s == 0 ? QNAN : s * b;
        }
        if (b == 0)
            return 0.;
        if (b == -1)
            return __vp_fneg(a);
    }
    if (!boxed(b) && b == 1)
        return a;
    int x = node_of(a), y = node_of(b);
    if (x > y)
        std::swap(x, y);
    return box(mk(MUL, x, y));
}
double __vp_fdiv(double a, double b)
{
    if (!boxed(a) && !boxed(b))
        return a / b;
    if (!boxed(b) && b == 1)
        return a;
    if (MODE == 'R') {
        if (!boxed(b)) {
            if (std::isnan(b))
                return b;
            if (std::isinf(b))
                return 0.;
            if (b == 0) {
                int s = sgn_branch(a);
                return s == 0 ? QNAN : s * (std::signbit(b) ? -INF : INF);
            }
        }
        else {
            if (!boxed(a) && std::isnan(a))
                return a;
            if (!boxed(a) && std::isinf(a)) {
                int s = sgn_branch(b);
                return s < 0 ? -a : a;
            }
            Lit z{EQ, nid(b), kst(0.), false};
            int k = lit_known(z);
            if (k < 0 || k == 1) {
                bool zero = k == 1;
                if (k < 0 && expect_div)
                    zero = branch(z);
                else if (k < 0) {
                    G->divcut++;
                    cuts["divisor assumed nonzero"]++;
                    push(lneg(z));
                    W.erase(std::remove_if(W.begin(), W.end(), [&](const Wit& w) { return w.v[nid(b)] == 0; }), W.end());
                }
                if (zero) {
                    if (!boxed(a))
                        return a / 0.;
                    int s = sgn_branch(a);
                    return s == 0 ? QNAN : s * INF;
                }
            }
            if (!boxed(a) && a == 0)
                return 0.;
        }
    }
    return box(mk(DIV, node_of(a), node_of(b)));
}
double __vp_sqrt(double a)
{
    if (!boxed(a))
        return std::sqrt(a);
    if (MODE == 'R') {
        Lit z{LT, nid(a), kst(0.), false};
        int k = lit_known(z);
        if (k == 1)
            return QNAN;
        if (k < 0 && branch(z))
            return QNAN;
    }
    return un(SQRT, a);
}
double __vp_exp(double a)
{
    if (!boxed(a))
        return std::exp(a);
    size_t k = N.size();
    double r = un(EXP, a);
    if (boxed(r) && (size_t)nid(r) >= k) {
        exp_nodes.push_back(nid(r));
        if (MODE == 'R')
            nf(nid(r));
    }
    return r;
}
double __vp_log(double a)
{
    if (!boxed(a))
        return std::log(a);
    if (MODE == 'R') {
        Lit z{LE, nid(a), kst(0.), false};
        int k = lit_known(z);
        if (k != 0) {
            if (brel(LT, a, 0.))
                return QNAN;
            if (brel(EQ, a, 0.))
                return -INF;
        }
    }
    return un(LOG, a);
}
double __vp_fabs(double a)
{
    if (!boxed(a))
        return std::fabs(a);
    return un(ABS, a);
}
double __vp_pow(double a, double b)
{
    if (!boxed(a) && !boxed(b))
        return std::pow(a, b);
    if (!boxed(b)) {
        if (b == 0)
            return 1.;
        if (b == 1)
            return a;
        if (b == 2)
            return __vp_fmul(a, a);
        if (MODE == 'R') {
            if (b == 0.5)
                return __vp_sqrt(a);
            if (b == -1)
                return __vp_fdiv(1., a);
            if (b == std::floor(b) && std::fabs(b) < 12) {
                double r = a;
                for (int i = 1; i < std::fabs(b); i++)
                    r = __vp_fmul(r, a);
                return b < 0 ? __vp_fdiv(1., r) : r;
            }
        }
    }
    return box(mk(POW, node_of(a), node_of(b)));
}
double __vp_erfc(double a) { return boxed(a) ? un(ERFC, a) : std::erfc(a); }
double __vp_erf(double a) { return boxed(a) ? __vp_fsub(1., un(ERFC, a)) : std::erf(a); }
double __vp_sin(double a) { return boxed(a) ? un(SIN, a) : std::sin(a); }
double __vp_cos(double a) { return boxed(a) ? un(COS, a) : std::cos(a); }
double __vp_tan(double a) { return boxed(a) ? un(TAN, a) : std::tan(a); }
double __vp_tanh(double a) { return boxed(a) ? un(TANH, a) : std::tanh(a); }
double __vp_atan(double a) { return boxed(a) ? un(ATAN, a) : std::atan(a); }
double __vp_asin(double a) { return boxed(a) ? un(ASIN, a) : std::asin(a); }
double __vp_acos(double a) { return boxed(a) ? un(ACOS, a) : std::acos(a); }
double __vp_lgamma(double a) { return boxed(a) ? un(LGAMMA, a) : std::lgamma(a); }
double __vp_sinh(double a) { return boxed(a) ? __vp_fmul(.5, __vp_fsub(un(EXP, a), __vp_exp(__vp_fneg(a)))) : std::sinh(a); }
double __vp_cosh(double a) { return boxed(a) ? __vp_fmul(.5, __vp_fadd(un(EXP, a), __vp_exp(__vp_fneg(a)))) : std::cosh(a); }
double __vp_log10(double a) { return boxed(a) ? __vp_fdiv(__vp_log(a), std::log(10.)) : std::log10(a); }
double __vp_log2(double a) { return boxed(a) ? __vp_fdiv(__vp_log(a), std::log(2.)) : std::log2(a); }
double __vp_log1p(double a) { return boxed(a) ? __vp_log(__vp_fadd(1., a)) : std::log1p(a); }
double __vp_exp2(double a) { return boxed(a) ? __vp_exp(__vp_fmul(a, std::log(2.))) : std::exp2(a); }
double __vp_expm1(double a) { return boxed(a) ? __vp_fsub(__vp_exp(a), 1.) : std::expm1(a); }
double __vp_hypot(double a, double b) { return (boxed(a) || boxed(b)) ? __vp_sqrt(__vp_fadd(__vp_fmul(a, a), __vp_fmul(b, b))) : std::hypot(a, b); }
static void unsupported(const char* w)
{
    cuts[string("unsupported: ") + w]++;
    exit_path((string("unsupported: ") + w).c_str());
}
double __vp_tgamma(double a)
{
    if (boxed(a))
        unsupported("tgamma");
    return std::tgamma(a);
}
double __vp_atan2(double a, double b)
{
    if (boxed(a) || boxed(b))
        unsupported("atan2");
    return std::atan2(a, b);
}
double __vp_cbrt(double a)
{
    if (boxed(a))
        unsupported("cbrt");
    return std::cbrt(a);
}
double __vp_fmax(double a, double b)
{
    if (!boxed(a) && !boxed(b))
        return std::fmax(a, b);
    if (MODE == 'F') {
        if (brel(UNO, a, a))
            return b;
        if (brel(UNO, b, b))
            return a;
    }
    return brel(LT, a, b) ? b : a;
}
double __vp_fmin(double a, double b)
{
    if (!boxed(a) && !boxed(b))
        return std::fmin(a, b);
    if (MODE == 'F') {
        if (brel(UNO, a, a))
            return b;
        if (brel(UNO, b, b))
            return a;
    }
    return brel(LT, b, a) ? b : a;
}
double __vp_fdim(double a, double b)
{
    if (!boxed(a) && !boxed(b))
        return std::fdim(a, b);
    return brel(LT, b, a) ? __vp_fsub(a, b) : 0.;
}
double __vp_copysign(double a, double b)
{
    if (!boxed(a) && !boxed(b))
        return std::copysign(a, b);
    if (!boxed(b))
        return std::signbit(b) ? __vp_fneg(__vp_fabs(a)) : __vp_fabs(a);
    return brel(LT, b, 0.) ? __vp_fneg(__vp_fabs(a)) : __vp_fabs(a);
}
// integer part by solver-guided enumeration
static double enum_floor(double a)
{
    for (int it = 0; it < 400; it++) {
        double v;
        if (!W.empty())
            v = W[0].v[nid(a)];
        else {
            std::unordered_map<int, double> m;
            int r = solve({}, &m, 0, true);
            if (r == UNSAT)
                exit_path("infeasible");
            if (r != SAT)
                unsupported("integer conversion: solver gave up");
            W.push_back(wit_from(m));
            W.back().approx = true;
            v = W[0].v[nid(a)];
        }
        if (!std::isfinite(v)) {
            cuts["non-finite to integer"]++;
            return v;
        }
        double k = std::floor(v);
        if (brel(LT, a, k))
            continue;
        if (brel(LT, a, k + 1))
            return k;
    }
    unsupported("integer conversion: too many values");
    return 0;
}
double __vp_floor(double a) { return boxed(a) ? enum_floor(a) : std::floor(a); }
double __vp_ceil(double a) { return boxed(a) ? -enum_floor(__vp_fneg(a)) : std::ceil(a); }
double __vp_trunc(double a)
{
    if (!boxed(a))
        return std::trunc(a);
    return brel(LT, a, 0.) ? -enum_floor(__vp_fneg(a)) : enum_floor(a);
}
double __vp_round(double a)
{
    if (!boxed(a))
        return std::round(a);
    return brel(LT, a, 0.) ? -enum_floor(__vp_fadd(__vp_fneg(a), .5)) : enum_floor(__vp_fadd(a, .5));
}
double __vp_rint(double a)
{
    if (!boxed(a))
        return std::rint(a);
    return __vp_round(a);
}
double __vp_fmod(double a, double b)
{
    if (!boxed(a) && !boxed(b))
        return std::fmod(a, b);
    double q = __vp_trunc(__vp_fdiv(a, b));
    return __vp_fsub(a, __vp_fmul(q, b));
}
int64_t __vp_fptosi(double a)
{
    double t = __vp_trunc(a);
    return std::isnan(t) || std::fabs(t) > 9.2e18 ? INT64_MIN : (int64_t)t;
}
int64_t __vp_fptoui(double a)
{
    double t = __vp_trunc(a);
    return (int64_t)(uint64_t)t;
}
double __vp_concrete(double a, int what)
{
    if (boxed(a))
        unsupported(what == 1 ? "float/long double conversion" : "bit cast");
    return a;
}
int __vp_fpclass(double a, int mask)
{
    if (!boxed(a)) {
        int c;
        if (std::isnan(a))
            c = 3;
        else if (std::isinf(a))
            c = a < 0 ? 4 : 0x200;
        else if (a == 0)
            c = std::signbit(a) ? 0x20 : 0x40;
        else if (std::fpclassify(a) == FP_SUBNORMAL)
            c = a < 0 ? 0x10 : 0x80;
        else
            c = a < 0 ? 8 : 0x100;
        return (c & mask) != 0;
    }
    if (MODE == 'R') {
        mask &= ~0x207; // no NaN / inf
        int negm = mask & 0x18, zm = mask & 0x60, pm = mask & 0x180;
        if (negm && zm && pm)
            return 1;
        if (!negm && !zm && !pm)
            return 0;
        if (brel(LT, a, 0.))
            return negm != 0;
        if (brel(EQ, a, 0.))
            return zm != 0;
        return pm != 0;
    }
    // F: NaN, infinities, zero, sign
    if (brel(UNO, a, a))
        return (mask & 3) != 0;
    if ((mask & 0x3fc) == 0)
        return 0;
    if ((mask & 0x3fc) == 0x3fc)
        return 1;
    if (((mask & 4) != 0) != ((mask & 0x1f8) != 0) || ((mask & 0x200) != 0) != ((mask & 0x1f8) != 0)) {
        if (brel(EQ, a, INF))
            return (mask & 0x200) != 0;
        if (brel(EQ, a, -INF))
            return (mask & 4) != 0;
        if ((mask & 0x1f8) == 0x1f8)
            return 1;
        if ((mask & 0x1f8) == 0)
            return 0;
    }
    if (brel(LT, a, 0.))
        return (mask & 0x18) != 0;
    if (brel(EQ, a, 0.))
        return (mask & 0x60) != 0;
    return (mask & 0x180) != 0;
}
int __vp_fcmp(int pred, double a, double b, int flags)
{
    // llvm: 0 F,1 OEQ,2 OGT,3 OGE,4 OLT,5 OLE,6 ONE,7 ORD,8 UNO,9 UEQ,10 UGT,11 UGE,12 ULT,13 ULE,14 UNE,15 T
    if (!boxed(a) && !boxed(b)) {
        bool u = std::isnan(a) || std::isnan(b);
        switch (pred) {
        case 1: return a == b;
        case 2: return a > b;
        case 3: return a >= b;
        case 4: return a < b;
        case 5: return a <= b;
        case 6: return !u && a != b;
        case 7: return !u;
        case 8: return u;
        case 9: return u || a == b;
        case 10: return u || a > b;
        case 11: return u || a >= b;
        case 12: return u || a < b;
        case 13: return u || a <= b;
        case 14: return a != b;
        case 15: return 1;
        }
        return 0;
    }
    if (MODE == 'R' && (flags & 2) && pred != 7 && pred != 8) {
        cuts["LLT l1-norm comparison (feeds rcond only) not explored"]++;
        return 0;
    }
    if (MODE == 'R' && (flags & 1) && (pred == 1 || pred == 14 || pred == 6 || pred == 9) && ((!boxed(a) && a == 0) || (!boxed(b) && b == 0))) {
        int x = boxed(a) ? nid(a) : nid(b);
        Lit z{EQ, x, kst(0.), false};
        int k = lit_known(z);
        bool eq = k == 1;
        if (k < 0)
            cuts["exact-zero shortcut inside Eigen kernels not taken"]++;
        return (pred == 1 || pred == 9) ? eq : !eq;
    }
    switch (pred) {
    case 1: return brel(EQ, a, b);
    case 2: return brel(LT, b, a);
    case 3: return brel(LE, b, a);
    case 4: return brel(LT, a, b);
    case 5: return brel(LE, a, b);
    case 6: return !brel(EQ, a, b) && !brel(UNO, a, b);
    case 7: return !brel(UNO, a, b);
    case 8: return brel(UNO, a, b);
    case 9: return brel(EQ, a, b) || brel(UNO, a, b);
    case 10: return !brel(LE, a, b);
    case 11: return !brel(LT, a, b);
    case 12: return !brel(LE, b, a);
    case 13: return !brel(LT, b, a);
    case 14: return !brel(EQ, a, b);
    case 15: return 1;
    }
    return 0;
}

// ------------------------------------------------------------------ symbols, choices, environment
double __vp_new_sym(const char* name, double lo, double hi, int flags)
{
    int id = mk_raw(SYM, -1, -1, 0);
    sym_of[id] = (int)syms.size();
    syms.push_back({id, name, lo, hi, flags});
    for (auto& w : W)
        w.v.push_back(eval1(w, id));
    return box(id);
}
double __vp_uf(const char* name, const double* a, int n, double lo, double hi)
{
    vector<int> args;
    for (int i = 0; i < n; i++)
        args.push_back(node_of(a[i]));
    for (auto& u : ufs) {
        if (u.name != name || u.args.size() != args.size())
            continue;
        bool same = true;
        for (size_t i = 0; i < args.size() && same; i++) {
            if (u.args[i] == args[i])
                continue;
            if (MODE == 'R') {
                auto p = nf(u.args[i]), q = nf(args[i]);
                if (p && q && padd(*p, *q, -1).t.empty())
                    continue;
            }
            same = false;
        }
        if (same)
            return box(u.node);
    }
    int id = mk_raw(UF, -1, -1, 0);
    uf_of[id] = (int)ufs.size();
    ufs.push_back({name, args, id, lo, hi});
    for (auto& w : W)
        w.v.push_back(eval1(w, id));
    return box(id);
}
int __vp_choice(int n, const char* name)
{
    check_deadline();
    G->choices++;
    for (int i = n - 1; i > 0; i--)
        if (do_fork()) {
            choices.push_back({name, i});
            return i;
        }
    choices.push_back({name, 0});
    return 0;
}
double __vp_rand_uniform(double a, double b)
{
    if (!boxed(a) && !boxed(b))
        return __vp_new_sym("uniform", a, b, VP_OPEN_HI);
    double u = __vp_new_sym("uniform", -INF, INF, 0);
    __vp_assume_rel(1, a, u);
    __vp_assume_rel(1, u, b);
    return u;
}
double __vp_rand_normal(double a, double b)
{
    double u = __vp_new_sym("normal", -INF, INF, 0);
    if (!boxed(a) && !boxed(b) && a == 0 && b == 1)
        return u;
    return __vp_fadd(a, __vp_fmul(b, u));
}
int64_t __vp_rand_int(int64_t a, int64_t b)
{
    if (b <= a)
        return a;
    if (b - a > 64) {
        cuts["large integer range: three representative values"]++;
        int k = __vp_choice(3, "rand_int");
        return k == 0 ? a : k == 1 ? b
                                   : a + (b - a) / 2;
    }
    return a + __vp_choice((int)(b - a + 1), "rand_int");
}
double __vp_strtod(const char* s, char** e)
{
    const char* p = s;
    while (*p == ' ' || *p == '\t' || *p == '\n')
        p++;
    if (p[0] == 'V' && p[1] == 'P' && p[2] == '#') {
        char* q;
        long id = strtol(p + 3, &q, 10);
        if (*q == ';')
            q++;
        if (e)
            *e = q;
        // strtod reports subnormal results as out of range
        if (MODE == 'F' && brel(LT, __vp_fabs(box((int)id)), 2.2250738585072014e-308) && brel(LT, 0., __vp_fabs(box((int)id))))
            errno = ERANGE;
        return box((int)id);
    }
    return strtod(s, e);
}
} // extern C
std::ostream& vp_ostream(std::ostream& o, double d)
{
    if (!boxed(d))
        return o << d;
    auto prec = o.precision();
    int id = nid(d);
    if ((o.flags() & std::ios::floatfield) == std::ios::fixed || prec < 17) {
        // decimal rounding: some value near d
        double r = __vp_uf(("round" + std::to_string(prec)).c_str(), &d, 1, -INF, INF);
        if (MODE == 'R' && prec >= 1 && (o.flags() & std::ios::floatfield) != std::ios::fixed)
            __vp_assume_rel(1, __vp_fabs(__vp_fsub(r, d)), __vp_fmul(0.5000001 * std::pow(10., 1. - (double)prec), __vp_fabs(d)));
        id = nid(r);
    }
    std::ostringstream t;
    t << "VP#" << id << ";";
    return o << t.str();
}
extern "C" {
std::ostream* __vp_ostream_d(std::ostream* o, double d)
{
    vp_ostream(*o, d);
    return o;
}
std::istream* __vp_istream_d(std::istream* i, double* d)
{
    std::ws(*i);
    if (i->peek() == 'V') {
        string s;
        int c;
        while ((c = i->get()) != EOF) {
            s += (char)c;
            if (c == ';')
                break;
        }
        *d = __vp_strtod(s.c_str(), nullptr);
    }
    else
        *i >> *d;
    return i;
}

int __vp_is_sym(double d) { return boxed(d); }
int __vp_mode() { return MODE; }
void __vp_bound(const char*, const char*) {}
void __vp_cut(const char* w) { cuts[w]++; }
void __vp_expect_div(int on) { expect_div = on; }
int __vp_param(const char* k, int d)
{
    auto it = params.find(k);
    return it == params.end() ? d : atoi(it->second.c_str());
}
void __vp_reach(const char* l) { reached.insert(l); }
void __vp_must(const char* l) { musts.insert(l); }
void __vp_observe(double v, const char* l)
{
    if (observed.size() < 400)
        observed.push_back({l, node_of(v)});
}
void __vp_assume_bool(int c)
{
    if (!c)
        exit_path("killed");
}
void __vp_assume_rel(int op, double a, double b)
{
    Rel r = op == 0 ? LT : op == 1 ? LE
        : op == 2                  ? EQ
                                   : NE;
    if (!boxed(a) && !boxed(b)) {
        if (!rel_eval(r, a, b))
            exit_path("killed");
        return;
    }
    Lit l{r, node_of(a), node_of(b), false};
    int k = lit_known(l);
    if (k == 1)
        return;
    if (k == 0)
        exit_path("killed");
    auto before = W;
    W.erase(std::remove_if(W.begin(), W.end(), [&](const Wit& w) { return !lit_eval(l, w); }), W.end());
    push(l);
    if (W.empty() && !before.empty())
        sample(W, before, [&](const Wit&) { return true; });
    if (W.empty()) {
        std::unordered_map<int, double> m;
        int q = solve({}, &m, 0, true);
        if (q == UNSAT)
            exit_path("killed");
        if (q == SAT)
            W.push_back(wit_from(m));
        if (q == SAT)
            for (auto& p : PC)
                if (!lit_eval(p, W[0]))
                    W[0].approx = true;
    }
}
void __vp_check_bool(int c, const char* label)
{
    path_checks++;
    G->oblig++;
    if (c) {
        G->disch++;
        return;
    }
    vector<Wit> ws;
    string st = "sat";
    for (auto& w : W)
        ws.push_back(w);
    bool exact = false;
    for (auto& w : ws)
        exact |= !w.approx;
    if (!exact) {
        std::unordered_map<int, double> m;
        int r = solve({}, &m, 0, true);
        if (r == UNSAT) {
            G->disch++; // the failing path does not exist
            exit_path("infeasible");
        }
        if (r == SAT)
            ws.insert(ws.begin(), wit_from(m));
        else
            st = "unknown";
    }
    if (ws.empty())
        record_undec(label, "path condition not decided");
    else
        record_viol(label, "check", st, ws, "");
}
void __vp_check_rel(int op, double a, double b, const char* label, double tol)
{
    path_checks++;
    __vp_observe(a, label);
    G->oblig++;
    if (!boxed(a) && !boxed(b)) {
        bool ok;
        double sc = std::max(std::fabs(a), std::fabs(b));
        switch (op) {
        case 0: ok = a < b; break;
        case 1: ok = a <= b || a - b <= tol * (1 + sc); break;
        case 2: ok = a == b || std::fabs(a - b) <= tol * (1e-3 + sc) || (std::isnan(a) && std::isnan(b)); break;
        default: ok = rel_eval(SAME, a, b); break;
        }
        if (ok) {
            G->disch++;
            G->concrete++;
            return;
        }
        G->oblig--;
        path_checks--;
        __vp_check_bool(0, label);
        return;
    }
    check_deadline();
    if (MODE == 'R') {
        auto pa = nf(node_of(a)), pb = nf(node_of(b));
        if (op == 4)
            op = 2;
        if (rconst_special(a) || rconst_special(b)) {
            bool ok = false;
            if (op <= 1)
                ok = rel_eval(op ? LE : LT, boxed(a) ? 0. : a, boxed(b) ? 0. : b);
            if (ok)
                G->disch++;
            else {
                G->oblig--;
                path_checks--;
                __vp_check_bool(0, label);
            }
            return;
        }
        if (pa && pb) {
            Poly d = padd(*pa, *pb, -1);
            if (op == 2) {
                PP r = clear_den(d);
                LD sc = std::max(maxc(*pa), maxc(*pb));
                if (r && !r->t.empty() && only_rounding(*r, *pa, *pb))
                    r = std::make_shared<Poly>();
                if (r && (r->t.empty() || (r->t.size() <= d.t.size() && maxc(*r) <= 1e-9L * sc))) {
                    if (d.t.size() > 0 && r->t.empty()) {
                        // identity after clearing denominators: hand the two sides to the solver over the common denominator
                        batch.push_back({std::make_shared<Poly>(*r), std::make_shared<Poly>(), label});
                    }
                    else
                        batch.push_back({pa, pb, label});
                    return;
                }
            }
        }
        if (op == 2 && pa && pb && !W.empty() && log_identity(*pa, *pb, W[0])) {
            batch.push_back({std::make_shared<Poly>(), std::make_shared<Poly>(), label});
            return;
        }
        Rel r = op == 0 ? LT : op == 1 ? LE
                                       : EQ;
        Lit goal{r, node_of(a), node_of(b), true};
        Lit pos = goal;
        pos.neg = false;
        vector<Wit> ws;
        auto fails = [&](const Wit& w) {
            double x = w.v[goal.a], y = w.v[goal.b], sc = std::max(std::fabs(x), std::fabs(y));
            bool bad = op == 2 ? std::fabs(x - y) > std::max(tol, 1e-7) * (1e-3 + sc) : op == 1 ? x - y > tol * (1 + sc)
                                                                                                : !(x < y);
            return bad && std::isfinite(x) && std::isfinite(y);
        };
        for (auto& w : W)
            if (fails(w))
                ws.push_back(w);
        if (ws.empty() && lit_known(pos) == 1) {
            G->disch++;
            return;
        }
        std::unordered_map<int, double> m;
        int q = solve({goal}, &m, ws.empty() ? 0 : 2000);
        if (q == UNSAT && ws.empty()) {
            G->disch++;
            return;
        }
        if (q == UNKNOWN && ws.empty())
            sample(ws, W, fails);
        string info;
        if (pa && pb) {
            auto rr = clear_den(padd(*pa, *pb, -1));
            info = "residual " + nfs(rr ? rr : std::make_shared<Poly>(padd(*pa, *pb, -1)));
        }
        if (q == SAT)
            ws.insert(ws.begin(), wit_from(m));
        if (!ws.empty())
            record_viol(label, "rel", q == SAT ? "sat" : "sat(pinned)", ws, info);
        else
            record_undec(label, "solver: unknown; " + info);
        return;
    }
    Rel r = op == 0 ? LT : op == 1 ? LE
        : op == 2                  ? EQ
                                   : SAME;
    if (r == SAME && node_of(a) == node_of(b)) {
        G->disch++;
        return;
    }
    Lit goal{r, node_of(a), node_of(b), true};
    std::unordered_map<int, double> m;
    vector<Wit> ws;
    for (auto& w : W)
        if (!w.approx && lit_eval(goal, w))
            ws.push_back(w);
    int q = solve({goal}, &m, ws.empty() ? 0 : 2000);
    if (q == UNSAT) {
        G->disch++;
        return;
    }
    if (q == SAT)
        ws.insert(ws.begin(), wit_from(m));
    if (ws.empty())
        sample(ws, W, [&](const Wit& w) { return lit_eval(goal, w); });
    if (ws.empty())
        record_undec(label, "solver: unknown");
    else
        record_viol(label, "rel", q == SAT ? "sat" : "sat(pinned)", ws, "");
}
} // extern C

// ------------------------------------------------------------------ derivative
static double dnode(int n, std::unordered_map<int, double>& memo)
{
    vector<int> st{n};
    while (!st.empty()) {
        int k = st.back();
        if (memo.count(k)) {
            st.pop_back();
            continue;
        }
        const Node x = N[k];
        if (x.op == CONST || x.op == SYM) {
            memo[k] = 0.;
            st.pop_back();
            continue;
        }
        if (x.op == EPS) {
            memo[k] = 1.;
            st.pop_back();
            continue;
        }
        if (x.op == UF) {
            for (int a : ufs[uf_of[k]].args) {
                std::unordered_map<int, double> mm = memo;
                if (boxed(dnode(a, mm)) || dnode(a, mm) != 0)
                    unsupported("derivative of an uninterpreted function");
            }
            memo[k] = 0.;
            st.pop_back();
            continue;
        }
        bool ready = true;
        if (!memo.count(x.a))
            st.push_back(x.a), ready = false;
        if (x.b >= 0 && !memo.count(x.b))
            st.push_back(x.b), ready = false;
        if (!ready)
            continue;
        st.pop_back();
        double da = memo[x.a], db = x.b >= 0 ? memo[x.b] : 0., A = box(x.a), B = x.b >= 0 ? box(x.b) : 0., me = box(k);
        bool za = !boxed(da) && da == 0, zb = !boxed(db) && db == 0;
        double r = 0;
        switch (x.op) {
        case ADD: r = __vp_fadd(da, db); break;
        case SUB: r = __vp_fsub(da, db); break;
        case MUL: r = __vp_fadd(__vp_fmul(da, B), __vp_fmul(A, db)); break;
        case DIV: r = (za && zb) ? 0. : __vp_fdiv(__vp_fsub(da, __vp_fmul(me, db)), B); break;
        case NEG: r = __vp_fneg(da); break;
        case SQRT: r = za ? 0. : __vp_fdiv(da, __vp_fmul(2., me)); break;
        case EXP: r = __vp_fmul(me, da); break;
        case LOG: r = za ? 0. : __vp_fdiv(da, A); break;
        case POW:
            if (za && zb)
                r = 0.;
            else if (zb)
                r = __vp_fmul(__vp_fmul(B, __vp_pow(A, __vp_fsub(B, 1.))), da);
            else
                r = __vp_fmul(me, __vp_fadd(__vp_fmul(db, __vp_log(A)), za ? 0. : __vp_fdiv(__vp_fmul(B, da), A)));
            break;
        case ABS: r = za ? 0. : (brel(LT, A, 0.) ? __vp_fneg(da) : da); break;
        case ERFC: r = __vp_fmul(__vp_fmul(-2. / std::sqrt(M_PI), __vp_exp(__vp_fneg(__vp_fmul(A, A)))), da); break;
        case SIN: r = __vp_fmul(__vp_cos(A), da); break;
        case COS: r = __vp_fneg(__vp_fmul(__vp_sin(A), da)); break;
        case TANH: r = __vp_fmul(__vp_fsub(1., __vp_fmul(me, me)), da); break;
        case ATAN: r = za ? 0. : __vp_fdiv(da, __vp_fadd(1., __vp_fmul(A, A))); break;
        default:
            if (!za || !zb)
                unsupported("derivative of this function");
        }
        memo[k] = r;
    }
    return memo[n];
}
double __vp_derivative(const std::function<double(double)>& f, double)
{
    static int eps = -1;
    if (eps < 0)
        eps = mk(EPS, -1, -1, 0.);
    double v = f(fbits((0x7FFCull << 48) | (u64)eps));
    if (!boxed(v))
        return 0.;
    std::unordered_map<int, double> memo;
    return dnode(nid(v), memo);
}

// ------------------------------------------------------------------ driver
int main(int argc, char** argv)
{
    string cs, out, dir;
    double timeout = 60;
    int jobs = 8;
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        if (a == "--list") {
            vector<VpCase*> v;
            for (auto* c = VpCase::head(); c; c = c->next)
                v.push_back(c);
            std::reverse(v.begin(), v.end());
            for (auto* c : v)
                printf("%s\t%c\t%s\n", c->name, c->mode, c->bounds);
            return 0;
        }
        auto next = [&]() { return string(argv[++i]); };
        if (a == "--case")
            cs = next();
        else if (a == "--out")
            out = next();
        else if (a == "--dir")
            dir = next();
        else if (a == "--timeout")
            timeout = atof(next().c_str());
        else if (a == "--jobs")
            jobs = atoi(next().c_str());
        else if (a == "--qtimeout")
            q_timeout = atoi(next().c_str());
        else if (a == "--seed")
            SEED = atoll(next().c_str());
        else if (a == "--param") {
            string p = next();
            size_t k = p.find('=');
            params[p.substr(0, k)] = p.substr(k + 1);
        }
    }
    VpCase* c = VpCase::head();
    while (c && cs != c->name)
        c = c->next;
    if (!c) {
        fprintf(stderr, "no case %s\n", cs.c_str());
        return 2;
    }
    MODE = c->mode;
    G = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (G) Shared();
    sem_init(&G->slots, 1, jobs - 1);
    out_fd = open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_TRUNC, 0644);
    int hi = fcntl(out_fd, F_DUPFD, 300);
    close(out_fd);
    out_fd = hi;
    base_dir = dir;
    mkdir(dir.c_str(), 0755);
    deadline = now() + timeout;
    double t0 = now();
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    pid_t pid = fork();
    if (pid == 0) {
        stack_t ss;
        ss.ss_size = 1 << 20;
        ss.ss_sp = malloc(ss.ss_size);
        ss.ss_flags = 0;
        sigaltstack(&ss, nullptr);
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) {
            struct sigaction sa;
            memset(&sa, 0, sizeof sa);
            sa.sa_handler = on_crash;
            sa.sa_flags = SA_ONSTACK | SA_NODEFER;
            sigaction(s, &sa, nullptr);
        }
        holds_slot = true;
        string d0 = dir + "/p0";
        mkdir(d0.c_str(), 0755);
        if (chdir(d0.c_str())) {
        }
        for (int i = 0; i < 5; i++) {
            Wit w;
            w.seed = mix(SEED * 7919 + i);
            W.push_back(w);
        }
        arm();
        c->fn();
        exit_path("done");
    }
    int st;
    for (;;) {
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0 && errno == ECHILD)
            break;
        if (p > 0 && WIFSIGNALED(st))
            G->lost++;
    }
    std::ostringstream o;
    o << "{\"t\":\"sum\",\"case\":\"" << cs << "\",\"mode\":\"" << MODE << "\",\"bounds\":\"" << jesc(c->bounds) << "\",\"paths\":" << G->paths << ",\"killed\":" << G->killed << ",\"infeasible\":" << G->infeasible
      << ",\"cut\":" << G->cutpaths << ",\"forks\":" << G->forks << ",\"queries\":" << G->queries << ",\"sat\":" << G->qsat << ",\"unsat\":" << G->qunsat << ",\"unknown\":" << G->qunk
      << ",\"obligations\":" << G->oblig << ",\"discharged\":" << G->disch << ",\"concrete\":" << G->concrete << ",\"undecided\":" << G->undec << ",\"viols\":" << G->viols << ",\"lost\":" << G->lost
      << ",\"hang\":" << G->hang << ",\"choices\":" << G->choices << ",\"divcut\":" << G->divcut << ",\"solver_s\":" << G->qms / 1000. << ",\"nodes\":" << G->nodes << ",\"wall\":" << now() - t0 << "}";
    emit(o.str());
    return 0;
}

#include "race.hpp"
