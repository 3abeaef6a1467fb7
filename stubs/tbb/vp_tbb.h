// Model of the part of TBB that limbo uses: the schedule is a path of the solver.
#ifndef VP_TBB_H
#define VP_TBB_H
#include "vp.hpp"
#include <algorithm>
#include <deque>
#include <iterator>
#include <mutex>
#include <vector>
extern "C" {
void __vp_par_begin();
void __vp_par_iter(int);
void __vp_par_end();
}
namespace tbb {
    // 0: any schedule; 1: in order, one thread
    inline int& vp_schedule()
    {
        static int s = 0;
        return s;
    }
    // the items in any order: every permutation up to 4 of them, beyond that in order, reversed or rotated
    inline std::vector<size_t> vp_order(size_t n)
    {
        std::vector<size_t> o(n), r;
        for (size_t i = 0; i < n; i++)
            o[i] = i;
        if (vp_schedule() == 1 || n < 2)
            return o;
        if (n > 4) {
            int c = vp_choice(3, "schedule");
            if (c == 1)
                std::reverse(o.begin(), o.end());
            if (c == 2)
                std::rotate(o.begin(), o.begin() + n / 2, o.end());
            return o;
        }
        while (o.size() > 1) {
            int c = vp_choice(o.size(), "next item");
            r.push_back(o[c]);
            o.erase(o.begin() + c);
        }
        r.push_back(o[0]);
        return r;
    }
    // own frame: the locals of a body are its own
    template <typename F>
    __attribute__((noinline)) void vp_body(const F& f, size_t k) { f(k); }
    template <typename V, typename R, typename F>
    __attribute__((noinline)) V vp_leaf(const F& f, const R& r, const V& a) { return f(r, a); }
    template <typename F>
    inline void vp_run(size_t n, const F& f)
    {
        auto o = vp_order(n);
        __vp_par_begin();
        for (size_t k = 0; k < n; k++) {
            __vp_par_iter(o[k]);
            vp_body(f, o[k]);
        }
        __vp_par_end();
    }
    template <typename I, typename F>
    inline void parallel_for(I first, I last, I step, const F& f)
    {
        size_t n = first < last ? (size_t)((last - first + step - 1) / step) : 0;
        vp_run(n, [&](size_t k) { f(I(first + (I)k * step)); });
    }
    template <typename I, typename F>
    inline void parallel_for(I first, I last, const F& f) { parallel_for(first, last, I(1), f); }
    template <typename It, typename F>
    inline void parallel_for_each(It b, It e, const F& f)
    {
        std::vector<It> its;
        for (It i = b; i != e; ++i)
            its.push_back(i);
        vp_run(its.size(), [&](size_t k) { f(*its[k]); });
    }
    template <typename C, typename F>
    inline void parallel_for_each(C& c, const F& f) { parallel_for_each(c.begin(), c.end(), f); }
    template <typename T>
    class blocked_range {
        T _b, _e;
        size_t _g;

    public:
        typedef T const_iterator;
        blocked_range(T b, T e, size_t g = 1) : _b(b), _e(e), _g(g) {}
        T begin() const { return _b; }
        T end() const { return _e; }
        size_t size() const { return _e - _b; }
        size_t grainsize() const { return _g; }
        bool empty() const { return !(_b < _e); }
        bool is_divisible() const { return _g < size(); }
    };
    template <typename T, typename F>
    inline void parallel_for(const blocked_range<T>& r, const F& f)
    {
        // any partition into consecutive pieces, in any order
        std::vector<blocked_range<T>> ps;
        T b = r.begin();
        for (T i = r.begin(); i < r.end(); ++i)
            if (i + 1 == r.end() || (r.is_divisible() && vp_schedule() != 1 && vp_choice(2, "split"))) {
                ps.push_back(blocked_range<T>(b, i + 1));
                b = i + 1;
            }
        vp_run(ps.size(), [&](size_t k) { f(ps[k]); });
    }
    // functional form: a piece starts from the identity, or goes on with the value of the piece before it
    // when the same thread does both; the values of stolen pieces are joined in order. The right piece may
    // run before the left one.
    struct vp_red {
        static int& next()
        {
            static int n = 0;
            return n;
        }
        template <typename T, typename V, typename F, typename J>
        static V run(const blocked_range<T>& r, const V& acc, const V& id, const F& f, const J& j)
        {
            if (r.is_divisible() && vp_schedule() != 1 && vp_choice(2, "split")) {
                T m = r.begin() + r.size() / 2;
                blocked_range<T> a(r.begin(), m, r.grainsize()), b(m, r.end(), r.grainsize());
                switch (vp_choice(3, "steal")) {
                case 0: return run(b, run(a, acc, id, f, j), id, f, j); // same thread
                case 1: {
                    V x = run(a, acc, id, f, j);
                    V y = run(b, id, id, f, j);
                    return j(x, y);
                }
                default: {
                    V y = run(b, id, id, f, j);
                    V x = run(a, acc, id, f, j);
                    return j(x, y);
                }
                }
            }
            V a = acc;
            __vp_par_iter(next()++);
            V v = vp_leaf(f, r, a);
            __vp_par_iter(-1);
            return v;
        }
    };
    template <typename T, typename V, typename F, typename J>
    inline V parallel_reduce(const blocked_range<T>& r, const V& id, const F& f, const J& j)
    {
        if (r.empty())
            return id;
        __vp_par_begin();
        V v = vp_red::run(r, id, id, f, j);
        __vp_par_end();
        return v;
    }
    // not stable: equivalent elements in any order
    template <typename It, typename C>
    inline void parallel_sort(It b, It e, const C& c)
    {
        if (vp_schedule() != 1 && vp_choice(2, "ties"))
            std::reverse(b, e);
        std::sort(b, e, c);
    }
    template <typename It>
    inline void parallel_sort(It b, It e) { parallel_sort(b, e, [](const typename std::iterator_traits<It>::value_type& x, const typename std::iterator_traits<It>::value_type& y) { return x < y; }); }
    template <typename T>
    class concurrent_vector {
        std::deque<T> _v;
        mutable std::mutex _m;

    public:
        typedef T value_type;
        typedef typename std::deque<T>::iterator iterator;
        typedef typename std::deque<T>::const_iterator const_iterator;
        typedef size_t size_type;
        concurrent_vector() {}
        explicit concurrent_vector(size_t n) : _v(n) {}
        concurrent_vector(size_t n, const T& t) : _v(n, t) {}
        concurrent_vector(const concurrent_vector& o) : _v(o._v) {}
        template <typename It>
        concurrent_vector(It b, It e) : _v(b, e)
        {
        }
        concurrent_vector& operator=(const concurrent_vector& o)
        {
            _v = o._v;
            return *this;
        }
        iterator push_back(const T& t)
        {
            std::lock_guard<std::mutex> l(_m);
            _v.push_back(t);
            return _v.end() - 1;
        }
        template <typename... A>
        iterator emplace_back(A&&... a)
        {
            std::lock_guard<std::mutex> l(_m);
            _v.emplace_back(std::forward<A>(a)...);
            return _v.end() - 1;
        }
        size_t size() const
        {
            std::lock_guard<std::mutex> l(_m);
            return _v.size();
        }
        bool empty() const { return size() == 0; }
        void clear() { _v.clear(); }
        void reserve(size_t) {}
        void resize(size_t n) { _v.resize(n); }
        T& operator[](size_t i) { return _v[i]; }
        const T& operator[](size_t i) const { return _v[i]; }
        T& at(size_t i) { return _v.at(i); }
        const T& at(size_t i) const { return _v.at(i); }
        T& back() { return _v.back(); }
        const T& back() const { return _v.back(); }
        T& front() { return _v.front(); }
        const T& front() const { return _v.front(); }
        iterator begin() { return _v.begin(); }
        iterator end() { return _v.end(); }
        const_iterator begin() const { return _v.begin(); }
        const_iterator end() const { return _v.end(); }
        const_iterator cbegin() const { return _v.begin(); }
        const_iterator cend() const { return _v.end(); }
    };
    struct task_scheduler_init {
        static const int automatic = -1;
        task_scheduler_init(int = -1) {}
    };
    struct global_control {
        enum parameter { max_allowed_parallelism };
        global_control(parameter, size_t n) { vp_check(n > 0, "at least one thread"); }
    };
    namespace info {
        inline int default_concurrency() { return 4; }
    }
    namespace this_task_arena {
        inline int max_concurrency() { return 4; }
    }
} // namespace tbb
namespace oneapi {
    namespace tbb = ::tbb;
}
#endif
