// C01: the parallel primitives behave like their sequential meaning under
// every schedule.
#include <limbo/tools/parallel.hpp>
#include <list>
#include <numeric>
#include <sim.h>
#include <stdexcept>
#include <string>

using namespace limbo::tools;

namespace {
    struct Boom : std::runtime_error {
        int i;
        explicit Boom(int i) : std::runtime_error("boom"), i(i) {}
    };
    // one counter per element: written only by the task that owns the element
    struct Counts {
        std::vector<int> started, finished;
        explicit Counts(size_t n) : started(n, 0), finished(n, 0) {}
    };
    void work()
    {
        int k = 0;
        for (volatile int i = 0; i < 3; i = i + 1)
            k += i;
        sim::yield();
        (void)k;
    }
    // mostly small ranges (more interleavings of the same work), some that no block size divides
    int extent(int small, int large = 140)
    {
        if (sim::flip(0.15))
            return sim::flip(0.1) ? sim::irange(0, 1300) : sim::irange(0, large);
        return sim::irange(0, small);
    }
    // throws in some of the elements
    bool boom() { return sim::fault(sim::F_EVAL_THROW); }
    // what is thrown: not always the same type
    int g_kind = 0;
    [[noreturn]] void explode(int i)
    {
        if (g_kind == 1)
            throw std::bad_alloc();
        if (g_kind == 2)
            throw i;
        throw Boom(i);
    }

    void check_counts(const char* what, const Counts& c, size_t b, size_t e, bool threw, bool any)
    {
        for (size_t i = 0; i < c.started.size(); i++) {
            bool in = i >= b && i < e;
            SIM_CHECK(c.started[i] <= (in ? 1 : 0), "extra-execution", "%s: element %zu of [%zu,%zu) executed %d times", what, i, b, e, c.started[i]);
            if (in && !threw)
                SIM_CHECK(c.finished[i] == 1, "lost-execution", "%s: element %zu of [%zu,%zu) executed %d times", what, i, b, e, c.finished[i]);
        }
        SIM_CHECK(threw == any, "exception-lost", "%s: an element threw: %d, the caller saw an exception: %d", what, any, threw);
    }

    void do_loop(int depth);
    void do_max(int depth);

    void nested(int depth)
    {
        if (depth <= 0)
            return;
        do_loop(depth - 1);
    }

    void do_loop(int depth)
    {
        size_t b = depth == 2 ? extent(5, 70) : 0, n = depth == 2 ? extent(14) : 3;
        size_t e = b + n;
        Counts c(e + 3);
        std::vector<int> threw_in(e + 3, 0);
        bool nest = depth == 2 && n < 20 && sim::flip(0.3);
        bool threw = false;
        try {
            par::loop(b, e, [&](size_t i) {
                SIM_CHECK(i < c.started.size(), "out-of-range", "loop: index %zu is not in [%zu,%zu)", i, b, e);
                c.started[i]++;
                work();
                if (nest)
                    nested(1);
                if (boom()) {
                    threw_in[i] = 1;
                    explode((int)i);
                }
                c.finished[i]++;
            });
        }
        catch (Boom& x) {
            threw = true;
            if (depth == 2 && !nest)
                SIM_CHECK(threw_in.at(x.i), "exception-invented", "loop: exception of an element that did not throw");
        }
        catch (std::bad_alloc&) {
            threw = g_kind == 1;
        }
        catch (int) {
            threw = g_kind == 2;
        }
        // an exception of a nested loop travels through the outer one
        bool any = false;
        for (int t : threw_in)
            any |= t;
        if (nest)
            any |= threw;
        check_counts("loop", c, b, e, threw, any);
        if (depth < 2 && threw)
            explode(-1);
        if (depth == 2)
            sim::ev("loop [%zu,%zu) nest=%d threw=%d", b, e, nest, threw);
        if (n > 1)
            sim::nontrivial();
        // a body that receives the loop bounds with begin > end does nothing
    }

    template <typename Cont>
    void do_for_each()
    {
        size_t n = extent(12);
        Cont data;
        for (size_t i = 0; i < n; i++)
            data.push_back((int)i);
        Counts c(n);
        std::vector<int> threw_in(n, 0);
        bool threw = false;
        try {
            par::for_each(data.begin(), data.end(), [&](int& x) {
                int i = x;
                SIM_CHECK(i >= 0 && i < (int)n, "out-of-range", "for_each: bad element %d", i);
                c.started[i]++;
                work();
                if (boom()) {
                    threw_in[i] = 1;
                    explode(i);
                }
                x = i + 1000;
                c.finished[i]++;
            });
        }
        catch (Boom& x) {
            threw = true;
            SIM_CHECK(threw_in.at(x.i), "exception-invented", "for_each: exception of an element that did not throw");
        }
        catch (std::bad_alloc&) {
            threw = g_kind == 1;
        }
        catch (int) {
            threw = g_kind == 2;
        }
        bool any = false;
        for (int t : threw_in)
            any |= t;
        check_counts("for_each", c, 0, n, threw, any);
        int i = 0;
        for (int x : data) {
            SIM_CHECK(x == (c.finished[i] ? i + 1000 : i), "lost-update", "for_each: element %d holds %d", i, x);
            i++;
        }
        sim::ev("for_each n=%zu threw=%d", n, threw);
        if (n > 1)
            sim::nontrivial();
    }

    struct Val {
        double score;
        int id;
        std::string pay;
    };
    void do_max(int)
    {
        int n = extent(14);
        int levels = sim::irange(1, 6); // few levels: many ties
        bool have_init = sim::flip(0.5);
        std::vector<Val> v(n);
        for (int i = 0; i < n; i++) {
            v[i].score = sim::irange(0, levels) - levels / 2.0;
            v[i].id = i;
            v[i].pay = "payload-of-element-" + std::to_string(i);
        }
        Val init{have_init ? 0.25 : -1e30, -1, "payload-of-the-initial-value"};
        Counts c(n);
        std::vector<int> threw_in(n + 1, 0);
        bool threw = false;
        Val m{0, -2, ""};
        bool lower = sim::flip(0.3); // "best" may mean smallest
        if (lower)
            init.score = have_init ? 0.25 : 1e30;
        auto comp = [lower](const Val& a, const Val& b) { return lower ? a.score < b.score : a.score > b.score; };
        try {
            m = par::max(
                init, n, [&](int i) {
                    SIM_CHECK(i >= 0 && i < n, "out-of-range", "max: bad step %d of %d", i, n);
                    c.started[i]++;
                    work();
                    if (boom()) {
                        threw_in[i] = 1;
                        explode(i);
                    }
                    c.finished[i]++;
                    return v[i];
                },
                comp);
        }
        catch (Boom& x) {
            threw = true;
            SIM_CHECK(threw_in.at(x.i), "exception-invented", "max: exception of an element that did not throw");
        }
        catch (std::bad_alloc&) {
            threw = g_kind == 1;
        }
        catch (int) {
            threw = g_kind == 2;
        }
        bool any = false;
        for (int t : threw_in)
            any |= t;
        check_counts("max", c, 0, n, threw, any);
        if (!threw) {
            SIM_CHECK(!comp(init, m), "wrong-max", "max returns something worse than the initial value");
            for (int i = 0; i < n; i++)
                SIM_CHECK(!comp(v[i], m), "wrong-max", "max returns %g although step %d gives %g", m.score, i, v[i].score);
            const Val& ref = m.id < 0 ? init : v.at(m.id);
            SIM_CHECK(ref.pay == m.pay && ref.score == m.score, "torn-max", "the value returned by max is none of the values produced");
        }
        sim::ev("max n=%d init=%d threw=%d best=%g", n, have_init, threw, threw ? 0. : m.score);
        if (n > 1)
            sim::nontrivial();
    }

    void do_sort()
    {
        int n = extent(16, 700), levels = sim::irange(1, 20);
        std::vector<Val> v(n);
        for (int i = 0; i < n; i++)
            v[i] = Val{(double)sim::irange(0, levels), i, "payload-of-element-" + std::to_string(i)};
        std::vector<Val> o = v;
        bool desc = sim::flip(0.5);
        size_t b = sim::irange(0, n), e = n - sim::irange(0, n - (int)b);
        par::sort(v.begin() + b, v.begin() + e, [desc](const Val& x, const Val& y) { return desc ? x.score > y.score : x.score < y.score; });
        std::vector<int> seen(n, 0);
        for (int i = 0; i < n; i++) {
            SIM_CHECK(v[i].id >= 0 && v[i].id < n && !seen[v[i].id]++, "sort-lost", "sort loses or duplicates an element");
            SIM_CHECK(v[i].pay == o[v[i].id].pay && v[i].score == o[v[i].id].score, "sort-torn", "sort mixes two elements");
            if (i < (int)b || i >= (int)e)
                SIM_CHECK(v[i].id == i, "sort-outside", "sort touches an element outside the range");
            else if (i > (int)b)
                SIM_CHECK(desc ? v[i - 1].score >= v[i].score : v[i - 1].score <= v[i].score, "not-sorted", "positions %d and %d are out of order", i - 1, i);
        }
        sim::ev("sort n=%d [%zu,%zu)", n, b, e);
        if (e - b > 1)
            sim::nontrivial();
    }

    void do_replicate()
    {
        // the body has no argument: effects go through the thread-safe vector
        size_t n = extent(12);
#ifdef USE_TBB
        par::vector<std::string>::type started, finished;
#else
        par::vector<std::string>::type started, finished;
#endif
        par::vector<int>::type thrown;
        bool threw = false;
        try {
            par::replicate(n, [&]() {
                started.push_back("started " + std::string(20, 'x'));
                work();
                if (boom()) {
                    thrown.push_back(1);
                    explode(0);
                }
                finished.push_back("finished " + std::string(20, 'y'));
            });
        }
        catch (Boom&) {
            threw = g_kind == 0;
        }
        catch (std::bad_alloc&) {
            threw = g_kind == 1;
        }
        catch (int) {
            threw = g_kind == 2;
        }
        SIM_CHECK(started.size() <= n, "extra-execution", "replicate(%zu) ran the body %zu times", n, started.size());
        SIM_CHECK(threw == (thrown.size() > 0), "exception-lost", "replicate: %zu throws, exception seen: %d", thrown.size(), threw);
        if (!threw)
            SIM_CHECK(finished.size() == n && started.size() == n, "lost-execution", "replicate(%zu) ran the body %zu times", n, finished.size());
        std::vector<std::string> cv = par::convert_vector(finished);
        SIM_CHECK(cv.size() == finished.size(), "convert", "convert_vector changes the size");
        for (size_t i = 0; i < cv.size(); i++)
            SIM_CHECK(cv[i] == finished[i] && cv[i] == "finished " + std::string(20, 'y'), "convert", "convert_vector changes element %zu", i);
        sim::ev("replicate n=%zu threw=%d", n, threw);
        if (n > 1)
            sim::nontrivial();
    }

    void do_vector()
    {
        // every element pushed concurrently is retained exactly once
        size_t n = extent(12);
#ifdef USE_TBB
        par::vector<Val>::type v;
        par::loop(0, n, [&](size_t i) {
            work();
            v.push_back(Val{i * 0.5, (int)i, "payload-of-element-" + std::to_string(i)});
        });
#else
        par::vector<Val>::type v;
        for (size_t i = 0; i < n; i++)
            v.push_back(Val{i * 0.5, (int)i, "payload-of-element-" + std::to_string(i)});
#endif
        auto s = par::convert_vector(v);
        SIM_CHECK(s.size() == n, "vector-lost", "%zu elements pushed, %zu retained", n, s.size());
        std::vector<int> seen(n, 0);
        for (auto& x : s)
            SIM_CHECK(x.id >= 0 && x.id < (int)n && !seen[x.id]++ && x.pay == "payload-of-element-" + std::to_string(x.id), "vector-lost", "an element is lost, duplicated or damaged");
        // order is the container's order
        size_t k = 0;
        for (auto it = v.begin(); it != v.end(); ++it, ++k)
            SIM_CHECK(it->id == s[k].id, "convert", "convert_vector reorders the elements");
        sim::ev("vector n=%zu", n);
        if (n > 1)
            sim::nontrivial();
    }

    void one_op()
    {
        switch (sim::draw(7)) {
        case 0: do_loop(2); break;
        case 1: do_for_each<std::vector<int>>(); break;
        case 2: do_max(0); break;
        case 3: do_sort(); break;
        case 4: do_replicate(); break;
        case 5: do_vector(); break;
        case 6: do_for_each<std::list<int>>(); break;
        }
    }
}

SIM_SCENARIO(C01, primitives, 3)
{
    sim::Arm a({sim::F_EVAL_THROW});
    par::init();
    g_kind = sim::flip(0.3) ? sim::irange(1, 2) : 0;
    int ops = sim::irange(1, 4);
    for (int i = 0; i < ops; i++)
        one_op();
}

// several client threads use the primitives at the same time
SIM_SCENARIO(C01, primitives_many_clients, 1)
{
    int nc = sim::irange(2, 3);
    std::vector<int> th;
    struct Res {
        double sum, max;
        std::vector<int> sorted;
    };
    struct Job {
        int n;
        std::vector<double> v;
        Res r;
        bool init_par;
    };
    std::vector<Job> jobs(nc);
    for (auto& j : jobs) {
        j.n = sim::flip(0.03) ? sim::irange(250, 600) : sim::irange(0, 9);
        j.init_par = sim::flip(0.5);
        for (int i = 0; i < j.n; i++)
            j.v.push_back(sim::irange(0, 9));
    }
    for (int k = 0; k < nc; k++) {
        Job* j = &jobs[k];
        th.push_back(sim::spawn(("client" + std::to_string(k)).c_str(), [j] {
            if (j->init_par)
                par::init();
            std::vector<double> sq(j->n, -1);
            par::loop(0, j->n, [&](size_t i) { work(); sq[i] = j->v[i] * j->v[i]; });
            j->r.sum = std::accumulate(sq.begin(), sq.end(), 0.);
            j->r.max = par::max(
                -1., j->n, [&](int i) { work(); return j->v[i]; }, [](double a, double b) { return a > b; });
            std::vector<int> s(j->v.begin(), j->v.end());
            par::sort(s.begin(), s.end(), [](int a, int b) { return a < b; });
            j->r.sorted = s;
        }));
    }
    sim::join_all(th);
    for (auto& j : jobs) {
        double sum = 0, mx = -1;
        for (double x : j.v) {
            sum += x * x;
            mx = std::max(mx, x);
        }
        std::vector<int> s(j.v.begin(), j.v.end());
        std::sort(s.begin(), s.end());
        SIM_CHECK(sum == j.r.sum, "lost-execution", "loop of one client gives %g instead of %g", j.r.sum, sum);
        SIM_CHECK(mx == j.r.max, "wrong-max", "max of one client gives %g instead of %g", j.r.max, mx);
        SIM_CHECK(s == j.r.sorted, "not-sorted", "sort of one client is wrong");
    }
    sim::nontrivial();
}
