#include <set>
// Replay runtime: the harness is an ordinary native program; symbols, choices and
// uninterpreted functions take the values of a solver model read from a file.
#include "vp.hpp"
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using std::string;
using std::vector;
VpCase*& VpCase::head()
{
    static VpCase* h = nullptr;
    return h;
}
static double fbits(uint64_t u)
{
    double d;
    memcpy(&d, &u, 8);
    return d;
}
static uint64_t bits(double d)
{
    uint64_t u;
    memcpy(&u, &d, 8);
    return u;
}
struct UfE {
    string name;
    vector<double> a;
    double v;
};
static vector<double> S;
static vector<long> C;
static vector<UfE> U;
static size_t si = 0, ci = 0;
static int diverged = 0;
static std::set<std::string> reachlog;
static std::ostringstream obs;
static int nobs = 0;
static int fails = 0;
static std::ostringstream faillog;
static int out_fd = 1;
static char cmode = 'R';
static std::vector<std::pair<string, string>> params;

static void load(const string& txt)
{
    std::istringstream is(txt);
    string line;
    while (std::getline(is, line)) {
        std::istringstream l(line);
        string t, x;
        l >> t;
        if (t == "S") {
            l >> x;
            S.push_back(fbits(strtoull(x.c_str(), nullptr, 16)));
        }
        else if (t == "C") {
            long v;
            l >> v;
            C.push_back(v);
        }
        else if (t == "U") {
            UfE u;
            size_t n;
            l >> u.name >> n;
            for (size_t i = 0; i < n; i++) {
                l >> x;
                u.a.push_back(fbits(strtoull(x.c_str(), nullptr, 16)));
            }
            l >> x;
            u.v = fbits(strtoull(x.c_str(), nullptr, 16));
            U.push_back(u);
        }
    }
}
static string jd(double d)
{
    char b[40];
    snprintf(b, sizeof b, "%.17g", d);
    return b;
}
static string jesc(const string& s)
{
    string r;
    for (char c : s)
        if (c == '"' || c == '\\')
            r += '\\', r += c;
        else if ((unsigned char)c >= 32)
            r += c;
    return r;
}
[[noreturn]] static void finish(const char* status)
{
    std::ostringstream o;
    std::string rl;
    for (auto& l : reachlog)
        rl += (rl.empty() ? "\"" : ",\"") + l + "\"";
    o << "{\"reach\":[" << rl << "],\"status\":\"" << status << "\",\"fails\":[" << faillog.str() << "],\"diverged\":" << diverged << ",\"obs\":[" << obs.str() << "]}\n";
    string s = o.str();
    const char* p = s.data();
    size_t n = s.size();
    while (n) {
        ssize_t k = write(out_fd, p, n);
        if (k <= 0)
            break;
        p += k;
        n -= k;
    }
    _exit(0);
}
static void fail(const char* label, double a, double b)
{
    if (fails++ < 20)
        faillog << (fails > 1 ? "," : "") << "{\"label\":\"" << jesc(label) << "\",\"a\":\"" << jd(a) << "\",\"b\":\"" << jd(b) << "\"}";
}
extern "C" {
double __vp_new_sym(const char*, double lo, double hi, int)
{
    if (si < S.size())
        return S[si++];
    diverged = 1;
    si++;
    if (std::isfinite(lo) && std::isfinite(hi))
        return lo + (hi - lo) * 0.37;
    if (std::isfinite(lo))
        return lo + 0.7;
    if (std::isfinite(hi))
        return hi - 0.7;
    return 0.3;
}
int __vp_choice(int n, const char*)
{
    if (ci < C.size()) {
        long v = C[ci++];
        if (v < n)
            return (int)v;
    }
    diverged = 1;
    return 0;
}
double __vp_rand_uniform(double a, double b)
{
    // the engine draws u in [a,b) when the limits are concrete
    return __vp_new_sym("uniform", a, b, 0);
}
double __vp_rand_normal(double a, double b)
{
    double u = __vp_new_sym("normal", -INFINITY, INFINITY, 0);
    if (a == 0 && b == 1)
        return u;
    return a + b * u;
}
int64_t __vp_rand_int(int64_t a, int64_t b)
{
    if (b <= a)
        return a;
    if (b - a > 64) {
        int k = __vp_choice(3, "");
        return k == 0 ? a : k == 1 ? b
                                   : a + (b - a) / 2;
    }
    return a + __vp_choice((int)(b - a + 1), "");
}
double __vp_uf(const char* name, const double* a, int n, double lo, double hi)
{
    const UfE* best = nullptr;
    double bd = 1e300;
    for (auto& u : U) {
        if (u.name != name || (int)u.a.size() != n)
            continue;
        double d = 0;
        for (int i = 0; i < n; i++)
            d = std::max(d, bits(u.a[i]) == bits(a[i]) ? 0. : std::fabs(u.a[i] - a[i]) / (1 + std::fabs(a[i])));
        if (!(d >= bd)) {
            bd = d;
            best = &u;
        }
    }
    if (best && bd < 1e-9)
        return best->v;
    diverged = 1;
    // any function of the arguments will do: the property quantifies over all of them
    uint64_t h = 1469598103934665603ull;
    for (int i = 0; i < n; i++)
        h = (h ^ (uint64_t)llround(a[i] * 1e9)) * 1099511628211ull;
    h ^= h >> 33;
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 33;
    double u = ((h >> 11) + .5) / 9007199254740992.0;
    UfE e{name, vector<double>(a, a + n), 0};
    e.v = std::isfinite(lo) && std::isfinite(hi) ? lo + (hi - lo) * u : std::isfinite(lo) ? lo + 2 * u
        : std::isfinite(hi)                                                               ? hi - 2 * u
                                                                                          : 4 * u - 2;
    U.push_back(e);
    return e.v;
}
int __vp_is_sym(double) { return 0; }
int __vp_mode() { return 'N'; }
void __vp_bound(const char*, const char*) {}
void __vp_cut(const char*) {}
void __vp_expect_div(int) {}
void __vp_reach(const char* l) { reachlog.insert(l); }
void __vp_must(const char*) {}
int __vp_param(const char* k, int d)
{
    for (auto& p : params)
        if (p.first == k)
            return atoi(p.second.c_str());
    return d;
}
void __vp_observe(double v, const char* l)
{
    if (nobs++ < 400)
        obs << (nobs > 1 ? "," : "") << "[\"" << jesc(l) << "\",\"" << jd(v) << "\"]";
}
void __vp_assume_bool(int c)
{
    if (!c)
        finish(fails ? "fail" : "assume");
}
void __vp_assume_rel(int op, double a, double b)
{
    double t = cmode == 'R' ? 1e-12 * (1 + std::fabs(a) + std::fabs(b)) : 0;
    bool ok = op == 0 ? a < b : op == 1 ? a <= b + t
        : op == 2                       ? std::fabs(a - b) <= t
                                        : a != b;
    if (!ok)
        finish(fails ? "fail" : "assume");
}
void __vp_check_bool(int c, const char* l)
{
    if (!c)
        fail(l, 0, 1);
}
void __vp_check_rel(int op, double a, double b, const char* l, double tol)
{
    __vp_observe(a, l);
    double sc = std::max(std::fabs(a), std::fabs(b));
    bool ok = true;
    if (cmode == 'F') {
        ok = op == 0 ? a < b : op == 1 ? a <= b
            : op == 2                  ? a == b
                                       : (bits(a) == bits(b) || (std::isnan(a) && std::isnan(b)));
    }
    else
        switch (op) {
        case 0: ok = a < b + 1e-9 * (1 + sc); break;
        case 1: ok = a <= b || a - b <= std::max(tol, 1e-9) * (1 + sc); break;
        case 2:
        case 4: ok = a == b || std::fabs(a - b) <= std::max(tol, 1e-7) * (1e-3 + sc) || (std::isnan(a) && std::isnan(b)); break;
        }
    if (!ok)
        fail(l, a, b);
}
} // extern C
double __vp_derivative(const std::function<double(double)>& f, double h)
{
    double d1 = (f(h) - f(-h)) / (2 * h), d2 = (f(h / 2) - f(-h / 2)) / h;
    f(0.);
    return (4 * d2 - d1) / 3;
}
static void on_sig(int s)
{
    signal(s, SIG_DFL);
    std::ostringstream o;
    faillog << (fails++ ? "," : "") << "{\"label\":\"" << (s == SIGALRM ? "termination" : "no crash") << "\",\"a\":\"" << s << "\",\"b\":\"0\"}";
    finish(s == SIGALRM ? "hang" : "crash");
}
static string slurp(const string& f)
{
    std::ifstream i(f);
    std::ostringstream o;
    o << i.rdbuf();
    return o.str();
}
// usage: --case C [--dir D] [--param k=v] [--limit s] --batch LIST   (LIST: one model file per line; one JSON line each)
//        --case C --model FILE
int main(int argc, char** argv)
{
    string cs, dir, batch, model;
    int limit = 20;
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        auto next = [&]() { return string(argv[++i]); };
        if (a == "--case")
            cs = next();
        else if (a == "--dir")
            dir = next();
        else if (a == "--batch")
            batch = next();
        else if (a == "--model")
            model = next();
        else if (a == "--limit")
            limit = atoi(next().c_str());
        else if (a == "--param") {
            string p = next();
            size_t k = p.find('=');
            params.push_back({p.substr(0, k), p.substr(k + 1)});
        }
    }
    VpCase* c = VpCase::head();
    while (c && cs != c->name)
        c = c->next;
    if (!c)
        return 2;
    cmode = c->mode;
    vector<string> files;
    if (!model.empty())
        files.push_back(model);
    if (!batch.empty()) {
        std::ifstream i(batch);
        string l;
        while (std::getline(i, l))
            if (!l.empty())
                files.push_back(l);
    }
    int n = 0;
    for (auto& f : files) {
        fflush(stdout);
        int p[2];
        if (pipe(p))
            return 3;
        pid_t pid = fork();
        if (pid == 0) {
            close(p[0]);
            out_fd = fcntl(p[1], F_DUPFD, 300);
            load(slurp(f));
            string d = dir + "/n" + std::to_string(getpid()) + "_" + std::to_string(n);
            if (!dir.empty()) {
                mkdir(d.c_str(), 0755);
                if (chdir(d.c_str()))
                    _exit(4);
            }
            int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 1);
            dup2(nul, 2);
            stack_t ss;
            ss.ss_size = 1 << 20;
            ss.ss_sp = malloc(ss.ss_size);
            ss.ss_flags = 0;
            sigaltstack(&ss, nullptr);
            for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) {
                struct sigaction sa;
                memset(&sa, 0, sizeof sa);
                sa.sa_handler = on_sig;
                sa.sa_flags = SA_ONSTACK | SA_NODEFER;
                sigaction(s, &sa, nullptr);
            }
            alarm(limit);
            c->fn();
            finish(fails ? "fail" : "ok");
        }
        close(p[1]);
        string o;
        char b[65536];
        ssize_t k;
        while ((k = read(p[0], b, sizeof b)) > 0)
            o.append(b, k);
        close(p[0]);
        int st;
        waitpid(pid, &st, 0);
        if (o.empty())
            o = "{\"status\":\"lost\",\"fails\":[],\"diverged\":1,\"obs\":[]}\n";
        fputs(o.c_str(), stdout);
        n++;
    }
    return 0;
}

#include "race.hpp"
