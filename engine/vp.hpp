// Harness API. The same harness source is compiled twice:
//  - with -DVP_SYM and the pass in mode "sym": doubles may be symbolic, branches fork,
//    checks are decided by the solver;
//  - natively (replay): symbols take the values of a solver model, checks are evaluated.
#ifndef VP_HPP
#define VP_HPP
#include <cmath>
#include <functional>
#include <limits>
#include <string>
#include <vector>

extern "C" {
double __vp_new_sym(const char* name, double lo, double hi, int flags);
int __vp_choice(int n, const char* name);
void __vp_assume_rel(int op, double a, double b); // op 0 '<' 1 '<=' 2 '==' 3 '!='
void __vp_check_rel(int op, double a, double b, const char* label, double tol); // + 4 'identical bits'
void __vp_check_bool(int c, const char* label);
void __vp_assume_bool(int c);
void __vp_reach(const char* label);
void __vp_must(const char* label);
void __vp_observe(double v, const char* label);
double __vp_uf(const char* name, const double* a, int n, double lo, double hi);
int __vp_is_sym(double d);
int __vp_mode(); // 'R' reals, 'F' IEEE, 'N' native replay
void __vp_bound(const char* key, const char* val);
void __vp_cut(const char* what);
int __vp_param(const char* key, int dflt);
void __vp_expect_div(int on);
}
double __vp_derivative(const std::function<double(double)>& f, double h);

enum { VP_OPEN_LO = 1, VP_OPEN_HI = 2, VP_ANY = 4 };

// real / finite double in [lo,hi]
inline double vp_sym(const char* n, double lo = -std::numeric_limits<double>::infinity(), double hi = std::numeric_limits<double>::infinity(), int flags = 0) { return __vp_new_sym(n, lo, hi, flags); }
// strictly positive
inline double vp_pos(const char* n) { return __vp_new_sym(n, 0., std::numeric_limits<double>::infinity(), VP_OPEN_LO); }
// any IEEE double, NaN and infinities included (mode F)
inline double vp_any(const char* n) { return __vp_new_sym(n, -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::infinity(), VP_ANY); }
inline int vp_choice(int n, const char* name = "choice") { return __vp_choice(n, name); }
inline void vp_assume(bool c) { __vp_assume_bool(c); }
inline void vp_assume_lt(double a, double b) { __vp_assume_rel(0, a, b); }
inline void vp_assume_le(double a, double b) { __vp_assume_rel(1, a, b); }
inline void vp_assume_ne(double a, double b) { __vp_assume_rel(3, a, b); }
inline void vp_check(bool c, const char* l) { __vp_check_bool(c, l); }
inline void vp_check_eq(double a, double b, const char* l, double tol = 1e-6) { __vp_check_rel(2, a, b, l, tol); }
inline void vp_check_le(double a, double b, const char* l, double tol = 1e-9) { __vp_check_rel(1, a, b, l, tol); }
inline void vp_check_lt(double a, double b, const char* l) { __vp_check_rel(0, a, b, l, 0); }
inline void vp_check_same(double a, double b, const char* l) { __vp_check_rel(4, a, b, l, 0); }
// some path of the case must reach this label
inline void vp_must(const char* l) { __vp_must(l); }
inline void vp_reach(const char* l) { __vp_reach(l); }
inline void vp_observe(double v, const char* l) { __vp_observe(v, l); }
inline double vp_uf(const char* n, const double* a, int k, double lo = -std::numeric_limits<double>::infinity(), double hi = std::numeric_limits<double>::infinity()) { return __vp_uf(n, a, k, lo, hi); }
inline bool vp_is_sym(double d) { return __vp_is_sym(d); }
inline bool vp_native() { return __vp_mode() == 'N'; }
inline int vp_param(const char* k, int d) { return __vp_param(k, d); }
inline void vp_cut(const char* w) { __vp_cut(w); }
// d/de f(e) at e = 0: differentiation of the encoded expression; finite differences in the replay
inline double vp_derivative(const std::function<double(double)>& f, double h = 1e-4) { return __vp_derivative(f, h); }

struct VpCase {
    const char* name;
    char mode;
    const char* bounds;
    void (*fn)();
    VpCase* next;
    static VpCase*& head();
    VpCase(const char* n, char m, const char* b, void (*f)()) : name(n), mode(m), bounds(b), fn(f), next(head()) { head() = this; }
};
#define VP_CASE(NAME, MODE, BOUNDS)                              \
    static void vp_case_##NAME();                                \
    static VpCase vp_reg_##NAME(#NAME, MODE, BOUNDS, vp_case_##NAME); \
    static void vp_case_##NAME()
#endif
