// Conflicting accesses of the bodies of one parallel region: two bodies touch the same byte, at least one
// writes, and no lock is held by both. The bodies run one after the other in an order chosen by the solver's
// path; the recorded accesses of a path are those of every input of its path condition.
#include <cstdint>
#include <cstring>
#include <malloc.h>
#include <set>
#include <unordered_map>
#include <vector>
#ifdef VPRACE_DEBUG
#include <execinfo.h>
#endif
namespace vprace {
    typedef std::set<const void*> Locks;
    struct Cell {
        int w = -1, r[2] = {-1, -1};
        Locks wl, rl[2];
    };
    struct Region {
        int iter = -1;
        uintptr_t frame = 0;
        bool bad = false;
        std::unordered_map<uintptr_t, Cell> cells;
    };
    static std::vector<Region*> regs;
    static Locks locks;
    static int guard = 0, quiet = 0;
    static bool disjoint(const Locks& a, const Locks& b)
    {
        for (auto x : a)
            if (b.count(x))
                return false;
        return true;
    }
    static void access(uintptr_t p, uint64_t n, bool w)
    {
        uintptr_t tp = (uintptr_t)__builtin_thread_pointer();
        if (p + n > tp - 65536 && p < tp + 64)
            return;
        uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
        if (n > 4096)
            n = 4096;
        for (auto* g : regs) {
            if (g->iter < 0 || g->bad || (p >= sp && p < g->frame))
                continue;
            for (uint64_t i = 0; i < n; i++) {
                Cell& c = g->cells[p + i];
                if (c.w >= 0 && c.w != g->iter && disjoint(c.wl, locks))
                    g->bad = true;
                if (w) {
                    for (int k = 0; k < 2; k++)
                        if (c.r[k] >= 0 && c.r[k] != g->iter && disjoint(c.rl[k], locks))
                            g->bad = true;
                    c.w = g->iter;
                    c.wl = locks;
                }
                else {
                    int k = c.r[0] == g->iter ? 0 : c.r[1] == g->iter ? 1 : c.r[0] < 0 ? 0 : 1;
                    if (c.r[k] == g->iter) {
                        // the weakest protection of this body's reads
                        Locks x;
                        for (auto l : c.rl[k])
                            if (locks.count(l))
                                x.insert(l);
                        c.rl[k] = x;
                    }
                    else {
                        c.r[k] = g->iter;
                        c.rl[k] = locks;
                    }
                }
                if (g->bad) {
#ifdef VPRACE_DEBUG
                    void* b[12];
                    fprintf(stderr, "race %p +%d n %d w %d iter %d writer %d readers %d %d sp %p frame %p tp %p\n", (void*)p, (int)i, (int)n, w, g->iter, c.w, c.r[0], c.r[1], (void*)sp, (void*)g->frame, (void*)tp);
                    backtrace_symbols_fd(b, backtrace(b, 12), 2);
#endif
                    break;
                }
            }
        }
    }
} // namespace vprace
extern "C" {
void __vp_check_bool(int c, const char* label);
void __vp_access(void* p, uint64_t n, int w)
{
    if (vprace::regs.empty() || vprace::guard || vprace::quiet)
        return;
    vprace::access((uintptr_t)p, n, w);
}
void __vp_freed(void* p)
{
    if (vprace::regs.empty() || !p)
        return;
    size_t n = malloc_usable_size(p);
    for (auto* g : vprace::regs)
        for (size_t i = 0; i < n && !g->cells.empty(); i++)
            g->cells.erase((uintptr_t)p + i);
}
void __vp_locked(void* p) { vprace::locks.insert(p); }
void __vp_unlocked(void* p) { vprace::locks.erase(p); }
void __vp_guarded(int d) { vprace::guard += d; }
void __vp_par_begin()
{
    auto* g = new vprace::Region;
    g->frame = (uintptr_t)__builtin_frame_address(0);
    vprace::regs.push_back(g);
}
void __vp_par_iter(int k) { vprace::regs.back()->iter = k; }
void __vp_par_end()
{
    auto* g = vprace::regs.back();
    vprace::regs.pop_back();
    bool bad = g->bad;
    delete g;
    if (bad)
        __vp_check_bool(0, "two bodies of a parallel loop touch the same memory without a common lock");
}
}
