// The part of oneTBB's interface that limbo (and plausible edits of it) uses,
// executed by the simulator's scheduler: the seed decides the chunking, which
// thread runs which chunk, and every preemption.
#pragma once
#include <algorithm>
#include <atomic>
#include <cstddef>
#include <exception>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <mutex>
#include <sim.h>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <vector>

#define SIMTBB_NOI __attribute__((no_sanitize("thread")))

namespace tbb {
    struct split {
    };
    struct auto_partitioner {
    };
    struct simple_partitioner {
    };
    struct static_partitioner {
    };
    struct affinity_partitioner {
    };

    template <typename V>
    class blocked_range {
    public:
        using const_iterator = V;
        using size_type = std::size_t;
        blocked_range(V b, V e, size_type g = 1) : _b(b), _e(e), _g(g) {}
        blocked_range(blocked_range& r, split) : _b(r._b), _e(r._e), _g(r._g)
        {
            V m = r._b + (r._e - r._b) / 2;
            r._e = m;
            _b = m;
        }
        V begin() const { return _b; }
        V end() const { return _e; }
        size_type size() const { return size_type(_e - _b); }
        size_type grainsize() const { return _g; }
        bool empty() const { return !(_b < _e); }
        bool is_divisible() const { return _g < size(); }

    private:
        V _b, _e;
        size_type _g;
    };

    namespace simdetail {
        // cut [0,n) at points chosen by the scheduler: from one chunk to n chunks
        inline std::vector<std::size_t> cuts(std::size_t n, std::size_t grain = 1)
        {
            sim::Quiet q;
            std::vector<std::size_t> c;
            c.push_back(0);
            std::size_t i = 0;
            uint32_t style = simrt_sched_choice(4); // 0: single elements
            while (i < n) {
                std::size_t left = n - i, k;
                if (style == 0)
                    k = grain ? grain : 1;
                else if (style == 1)
                    k = left;
                else
                    k = 1 + simrt_sched_choice((uint32_t)std::min<std::size_t>(left, style == 2 ? 4 : left));
                if (k > left)
                    k = left;
                i += k;
                c.push_back(i);
            }
            return c;
        }
        template <typename F>
        void call(void* ctx, std::size_t i)
        {
            (*(F*)ctx)(i);
        }
        template <typename F>
        void run(std::size_t n, F& f)
        {
            simrt_par_run(n, &call<F>, (void*)&f);
        }
    }

    template <typename Index, typename F>
    void parallel_for(Index first, Index last, Index step, const F& f)
    {
        if (!(step > 0))
            throw std::invalid_argument("Step must be positive");
        if (!(first < last))
            return;
        std::size_t n = (std::size_t)((last - first - Index(1)) / step + Index(1));
        std::vector<std::size_t> c = simdetail::cuts(n);
        auto body = [&](std::size_t k) {
            for (std::size_t i = c[k]; i < c[k + 1]; ++i)
                f(static_cast<Index>(first + static_cast<Index>(i) * step));
        };
        simdetail::run(c.size() - 1, body);
    }
    template <typename Index, typename F>
    typename std::enable_if<std::is_integral<Index>::value>::type parallel_for(Index first, Index last, const F& f)
    {
        parallel_for(first, last, Index(1), f);
    }
    template <typename V, typename B>
    void parallel_for(const blocked_range<V>& r, const B& body)
    {
        if (r.empty())
            return;
        std::vector<std::size_t> c = simdetail::cuts(r.size());
        auto b = [&](std::size_t k) {
            body(blocked_range<V>(r.begin() + (typename std::common_type<V, std::ptrdiff_t>::type)c[k], r.begin() + c[k + 1], r.grainsize()));
        };
        simdetail::run(c.size() - 1, b);
    }
    template <typename V, typename B, typename P>
    void parallel_for(const blocked_range<V>& r, const B& body, const P&)
    {
        parallel_for(r, body);
    }

    template <typename It, typename F>
    void parallel_for_each(It b, It e, const F& f)
    {
        std::vector<It> its;
        {
            sim::Quiet q;
            for (It i = b; i != e; ++i)
                its.push_back(i);
        }
        auto body = [&](std::size_t k) { f(*its[k]); };
        simdetail::run(its.size(), body);
    }
    template <typename C, typename F>
    void parallel_for_each(C& c, const F& f)
    {
        parallel_for_each(std::begin(c), std::end(c), f);
    }
    template <typename F1, typename F2, typename... Fs>
    void parallel_invoke(const F1& f1, const F2& f2, const Fs&... fs)
    {
        std::vector<std::function<void()>> v{f1, f2, fs...};
        auto body = [&](std::size_t k) { v[k](); };
        simdetail::run(v.size(), body);
    }

    // functional form
    template <typename V, typename T, typename Body, typename Join>
    T parallel_reduce(const blocked_range<V>& r, const T& identity, const Body& body, const Join& join)
    {
        if (r.empty())
            return identity;
        std::vector<std::size_t> c = simdetail::cuts(r.size());
        // consecutive chunks may be folded by one body (as when no thief comes by)
        std::vector<std::size_t> g;
        {
            sim::Quiet q;
            for (std::size_t k = 0; k + 1 < c.size(); k++)
                if (k == 0 || simrt_sched_choice(2) == 0)
                    g.push_back(k);
            g.push_back(c.size() - 1);
        }
        std::size_t n = g.size() - 1;
        std::vector<std::unique_ptr<T>> part(n);
        auto b = [&](std::size_t j) {
            std::unique_ptr<T> acc(new T(identity));
            for (std::size_t k = g[j]; k < g[j + 1]; k++)
                *acc = body(blocked_range<V>(r.begin() + c[k], r.begin() + c[k + 1], r.grainsize()), *acc);
            part[j] = std::move(acc);
        };
        simdetail::run(n, b);
        // any association of adjacent partial results, in order
        while (n > 1) {
            std::size_t j = simrt_sched_choice((uint32_t)(n - 1));
            *part[j] = join(*part[j], *part[j + 1]);
            part.erase(part.begin() + j + 1);
            n--;
        }
        return *part[0];
    }
    template <typename V, typename T, typename Body, typename Join, typename P>
    T parallel_reduce(const blocked_range<V>& r, const T& identity, const Body& body, const Join& join, const P&)
    {
        return parallel_reduce(r, identity, body, join);
    }
    template <typename V, typename T, typename Body, typename Join>
    T parallel_deterministic_reduce(const blocked_range<V>& r, const T& identity, const Body& body, const Join& join)
    {
        return parallel_reduce(r, identity, body, join);
    }
    // imperative form
    template <typename V, typename Body>
    void parallel_reduce(const blocked_range<V>& r, Body& body)
    {
        if (r.empty())
            return;
        std::vector<std::size_t> c = simdetail::cuts(r.size());
        std::size_t n = c.size() - 1;
        std::vector<std::unique_ptr<Body>> part(n);
        for (std::size_t j = 1; j < n; j++)
            part[j].reset(new Body(body, split()));
        auto b = [&](std::size_t j) {
            (j ? *part[j] : body)(blocked_range<V>(r.begin() + c[j], r.begin() + c[j + 1], r.grainsize()));
        };
        simdetail::run(n, b);
        for (std::size_t j = 1; j < n; j++)
            body.join(*part[j]);
    }

    template <typename It, typename Cmp>
    void parallel_sort(It b, It e, const Cmp& cmp)
    {
        std::size_t n = (std::size_t)(e - b);
        if (n < 2)
            return;
        // an unstable sort: equal elements come out in any order
        for (std::size_t i = n - 1; i > 0; i--) {
            std::size_t j = i - simrt_sched_choice((uint32_t)(i + 1));
            if (j != i)
                std::iter_swap(b + i, b + j);
        }
        std::vector<std::size_t> c = simdetail::cuts(n);
        auto f = [&](std::size_t k) { std::sort(b + c[k], b + c[k + 1], cmp); };
        simdetail::run(c.size() - 1, f);
        for (std::size_t k = 1; k + 1 < c.size(); k++)
            std::inplace_merge(b, b + c[k], b + c[k + 1], cmp);
    }
    template <typename It>
    void parallel_sort(It b, It e)
    {
        parallel_sort(b, e, std::less<typename std::iterator_traits<It>::value_type>());
    }
    template <typename C>
    void parallel_sort(C& c)
    {
        parallel_sort(c.begin(), c.end());
    }

    // growable, element addresses are stable, concurrent push_back is safe
    template <typename T, typename A = std::allocator<T>>
    class concurrent_vector {
    public:
        using value_type = T;
        using size_type = std::size_t;
        using difference_type = std::ptrdiff_t;
        using reference = T&;
        using const_reference = const T&;
        using pointer = T*;
        using const_pointer = const T*;
        using allocator_type = A;

        template <typename V, typename U>
        class iter {
        public:
            using iterator_category = std::random_access_iterator_tag;
            using value_type = typename std::remove_const<U>::type;
            using difference_type = std::ptrdiff_t;
            using pointer = U*;
            using reference = U&;
            SIMTBB_NOI iter() : _v(nullptr), _i(0) {}
            SIMTBB_NOI iter(V* v, std::size_t i) : _v(v), _i(i) {}
            template <typename V2, typename U2>
            SIMTBB_NOI iter(const iter<V2, U2>& o) : _v(o._v), _i(o._i) {}
            U& operator*() const { return (*_v)[_i]; }
            U* operator->() const { return &(*_v)[_i]; }
            U& operator[](std::ptrdiff_t k) const { return (*_v)[_i + k]; }
            iter& operator++() { ++_i; return *this; }
            iter operator++(int) { iter t = *this; ++_i; return t; }
            iter& operator--() { --_i; return *this; }
            iter operator--(int) { iter t = *this; --_i; return t; }
            iter& operator+=(std::ptrdiff_t k) { _i += k; return *this; }
            iter& operator-=(std::ptrdiff_t k) { _i -= k; return *this; }
            friend iter operator+(iter a, std::ptrdiff_t k) { a += k; return a; }
            friend iter operator+(std::ptrdiff_t k, iter a) { a += k; return a; }
            friend iter operator-(iter a, std::ptrdiff_t k) { a -= k; return a; }
            friend std::ptrdiff_t operator-(const iter& a, const iter& b) { return (std::ptrdiff_t)a._i - (std::ptrdiff_t)b._i; }
            friend bool operator==(const iter& a, const iter& b) { return a._i == b._i; }
            friend bool operator!=(const iter& a, const iter& b) { return a._i != b._i; }
            friend bool operator<(const iter& a, const iter& b) { return a._i < b._i; }
            friend bool operator>(const iter& a, const iter& b) { return a._i > b._i; }
            friend bool operator<=(const iter& a, const iter& b) { return a._i <= b._i; }
            friend bool operator>=(const iter& a, const iter& b) { return a._i >= b._i; }
            V* _v;
            std::size_t _i;
        };
        using iterator = iter<concurrent_vector, T>;
        using const_iterator = iter<const concurrent_vector, const T>;

        concurrent_vector() {}
        explicit concurrent_vector(size_type n) { grow_by(n); }
        concurrent_vector(size_type n, const T& v)
        {
            for (size_type i = 0; i < n; i++)
                push_back(v);
        }
        template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
        concurrent_vector(It b, It e)
        {
            for (; b != e; ++b)
                push_back(*b);
        }
        concurrent_vector(std::initializer_list<T> l)
        {
            for (auto& x : l)
                push_back(x);
        }
        concurrent_vector(const concurrent_vector& o)
        {
            for (size_type i = 0; i < o.size(); i++)
                push_back(o[i]);
        }
        concurrent_vector(concurrent_vector&& o) { _p.swap(o._p); }
        concurrent_vector& operator=(const concurrent_vector& o)
        {
            if (this != &o) {
                clear();
                for (size_type i = 0; i < o.size(); i++)
                    push_back(o[i]);
            }
            return *this;
        }
        concurrent_vector& operator=(concurrent_vector&& o)
        {
            if (this != &o) {
                clear();
                _p.swap(o._p);
            }
            return *this;
        }
        ~concurrent_vector() { clear(); }

        iterator push_back(const T& v) { return emplace_back(v); }
        iterator push_back(T&& v) { return emplace_back(std::move(v)); }
        template <typename... Args>
        iterator emplace_back(Args&&... args)
        {
            std::size_t i = slot();
            T* p = new T(std::forward<Args>(args)...);
            publish(i, p);
            return iterator(this, i);
        }
        iterator grow_by(size_type n)
        {
            std::size_t f = size();
            for (size_type i = 0; i < n; i++)
                emplace_back();
            return iterator(this, f);
        }
        iterator grow_to_at_least(size_type n)
        {
            std::size_t f = size();
            while (size() < n)
                emplace_back();
            return iterator(this, f);
        }
        void resize(size_type n)
        {
            while (size() > n)
                drop();
            while (size() < n)
                emplace_back();
        }
        void resize(size_type n, const T& v)
        {
            while (size() > n)
                drop();
            while (size() < n)
                emplace_back(v);
        }
        void reserve(size_type) {}
        void shrink_to_fit() {}
        void clear()
        {
            while (size())
                drop();
        }
        void swap(concurrent_vector& o) { _p.swap(o._p); }
        template <typename It>
        void assign(It b, It e)
        {
            clear();
            for (; b != e; ++b)
                push_back(*b);
        }
        SIMTBB_NOI size_type size() const
        {
            return raw_size();
        }
        bool empty() const { return size() == 0; }
        size_type capacity() const { return size(); }
        T& operator[](size_type i) { return *get(i); }
        const T& operator[](size_type i) const { return *get(i); }
        T& at(size_type i)
        {
            if (i >= size())
                throw std::out_of_range("index");
            return *get(i);
        }
        const T& at(size_type i) const
        {
            if (i >= size())
                throw std::out_of_range("index");
            return *get(i);
        }
        T& front() { return *get(0); }
        const T& front() const { return *get(0); }
        T& back() { return *get(size() - 1); }
        const T& back() const { return *get(size() - 1); }
        iterator begin() { return iterator(this, 0); }
        iterator end() { return iterator(this, size()); }
        const_iterator begin() const { return const_iterator(this, 0); }
        const_iterator end() const { return const_iterator(this, size()); }
        const_iterator cbegin() const { return begin(); }
        const_iterator cend() const { return end(); }

    private:
        // the bookkeeping is lock free in the real container; here it is atomic
        // with respect to the simulated scheduler
        std::size_t raw_size() const
        {
            Ignore g;
            return _p.size();
        }
        struct Ignore {
            sim::Quiet q;
        };
        std::size_t slot()
        {
            simrt_sync_point();
            Ignore g;
            _p.push_back(nullptr);
            return _p.size() - 1;
        }
        void publish(std::size_t i, T* p)
        {
            {
                Ignore g;
                _p[i] = p;
            }
            simrt_sync_point();
        }
        T* get(std::size_t i) const
        {
            Ignore g;
            T* p = _p[i];
            if (!p)
                sim::fail("concurrent-vector", "element %zu is read while it is still under construction", i);
            return p;
        }
        void drop()
        {
            T* p;
            {
                Ignore g;
                p = _p.back();
                _p.pop_back();
            }
            delete p;
        }
        std::vector<T*> _p;
    };
    template <typename T, typename A>
    bool operator==(const concurrent_vector<T, A>& a, const concurrent_vector<T, A>& b)
    {
        return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
    }

    class global_control {
    public:
        enum parameter { max_allowed_parallelism,
            thread_stack_size,
            terminate_on_exception };
        global_control(parameter p, std::size_t v)
        {
            if (p == max_allowed_parallelism) {
                if (v == 0)
                    sim::fail("tbb-misuse", "max_allowed_parallelism must be positive");
                simrt_set_parallelism((int)v);
            }
        }
        static std::size_t active_value(parameter) { return (std::size_t)simrt_max_parallelism(); }
    };
    namespace info {
        inline int default_concurrency() { return simrt_max_parallelism(); }
    }
    namespace this_task_arena {
        inline int max_concurrency() { return simrt_max_parallelism(); }
        template <typename F>
        auto isolate(const F& f) -> decltype(f())
        {
            return f();
        }
    }
    class task_arena {
    public:
        static const int automatic = -1;
        explicit task_arena(int = -1, unsigned = 1) {}
        template <typename F>
        auto execute(const F& f) -> decltype(f())
        {
            return f();
        }
        void initialize() {}
        int max_concurrency() const { return simrt_max_parallelism(); }
    };
    class task_group {
    public:
        template <typename F>
        void run(const F& f)
        {
            _f.push_back(f);
        }
        void wait()
        {
            std::vector<std::function<void()>> v;
            v.swap(_f);
            auto body = [&](std::size_t k) { v[k](); };
            simdetail::run(v.size(), body);
        }
        template <typename F>
        void run_and_wait(const F& f)
        {
            run(f);
            wait();
        }

    private:
        std::vector<std::function<void()>> _f;
    };

    using mutex_base = std::mutex;
    class mutex {
    public:
        class scoped_lock {
        public:
            scoped_lock() : _m(nullptr) {}
            explicit scoped_lock(mutex& m) : _m(&m) { m.lock(); }
            ~scoped_lock()
            {
                if (_m)
                    _m->unlock();
            }
            void acquire(mutex& m)
            {
                _m = &m;
                m.lock();
            }
            bool try_acquire(mutex& m)
            {
                if (!m.try_lock())
                    return false;
                _m = &m;
                return true;
            }
            void release()
            {
                _m->unlock();
                _m = nullptr;
            }

        private:
            mutex* _m;
        };
        void lock() { _x.lock(); }
        bool try_lock() { return _x.try_lock(); }
        void unlock() { _x.unlock(); }

    private:
        std::mutex _x;
    };
    using spin_mutex = mutex;
    using queuing_mutex = mutex;
    using speculative_spin_mutex = mutex;

    template <typename T>
    class enumerable_thread_specific {
    public:
        enumerable_thread_specific() {}
        explicit enumerable_thread_specific(const T& v) : _init(new T(v)) {}
        T& local()
        {
            sim::Quiet q;
            std::size_t id = (std::size_t)sim::self();
            if (_v.size() <= id)
                _v.resize(id + 1);
            if (!_v[id])
                _v[id].reset(_init ? new T(*_init) : new T());
            return *_v[id];
        }
        template <typename F>
        void combine_each(const F& f)
        {
            for (auto& x : _v)
                if (x)
                    f(*x);
        }
        template <typename F>
        T combine(const F& f)
        {
            std::unique_ptr<T> a;
            for (auto& x : _v)
                if (x) {
                    if (!a)
                        a.reset(new T(*x));
                    else
                        *a = f(*a, *x);
                }
            return a ? *a : (_init ? *_init : T());
        }

    private:
        std::unique_ptr<T> _init;
        std::vector<std::unique_ptr<T>> _v;
    };
    template <typename T>
    using combinable = enumerable_thread_specific<T>;
    template <typename T>
    using cache_aligned_allocator = std::allocator<T>;
    template <typename T>
    using scalable_allocator = std::allocator<T>;
}
namespace oneapi {
    namespace tbb = ::tbb;
}
