// C06: random streams, with the real entropy code, under every schedule and
// with bad entropy.
#include "common.h"
#include <algorithm>
#include <limbo/tools/parallel.hpp>
#include <limbo/tools/random_generator.hpp>
#include <map>

using namespace limbo;

namespace {
    struct Bag {
        std::mutex m;
        std::map<double, int> seen; // value -> who
        void put(double v, int who)
        {
            std::lock_guard<std::mutex> l(m);
            auto r = seen.insert({v, who});
            SIM_CHECK(r.second, "repeated-number", "user %d draws %.17g, which user %d has drawn already: the streams are not independent", who, v, r.first->second);
        }
    };
    void in01(const VectorXd& v, int d, const char* what)
    {
        SIM_CHECK(v.size() == d, "size", "%s: %d numbers instead of %d", what, (int)v.size(), d);
        for (int i = 0; i < d; i++)
            SIM_CHECK(v[i] >= 0 && v[i] < 1, "range", "%s: %.17g", what, v[i]);
    }
    void check_lhs(const MatrixXd& h, int n, int d)
    {
        SIM_CHECK(h.rows() == n && h.cols() == d, "size", "latin hypercube: %dx%d instead of %dx%d", (int)h.rows(), (int)h.cols(), n, d);
        for (int j = 0; j < d; j++) {
            std::vector<int> hit(n, 0);
            for (int i = 0; i < n; i++) {
                double v = h(i, j);
                SIM_CHECK(v >= 0 && v <= 1, "range", "latin hypercube: %.17g", v);
                // rounding may push a point onto the next boundary
                int k = std::min(n - 1, (int)std::floor(v * n + 1e-12));
                hit[k]++;
            }
            for (int k = 0; k < n; k++)
                SIM_CHECK(hit[k] == 1, "not-latin", "latin hypercube: %d points in the interval %d of %d, column %d", hit[k], k, n, j);
        }
    }
    void user(int who, int style, Bag& bag)
    {
        int k = 2 + style % 3;
        for (int r = 0; r < k; r++)
            switch (style / 3 % 5) {
            case 0: {
                VectorXd v = tools::random_vector(2);
                in01(v, 2, "bounded vector");
                bag.put(v[0], who), bag.put(v[1], who);
                break;
            }
            case 1: {
                VectorXd v = tools::random_vector(3, false);
                for (int i = 0; i < 3; i++) {
                    SIM_CHECK(std::isfinite(v[i]) && std::fabs(v[i]) < 120, "range", "unbounded vector: %.17g", v[i]);
                    bag.put(v[i] + 1000, who);
                }
                break;
            }
            case 2: {
                int n = 1 + style % 5, d = 1 + style % 2;
                MatrixXd h = tools::random_lhs(d, n);
                check_lhs(h, n, d);
                for (int i = 0; i < n; i++)
                    bag.put(5000 + h(i, 0), who);
                break;
            }
            case 3: {
                tools::rgen_double_t g(-2.0, 3.0);
                for (int i = 0; i < 2; i++) {
                    double v = g.rand();
                    SIM_CHECK(v >= -2 && v < 3, "range", "generator on [-2,3): %.17g", v);
                    bag.put(v + 9000, who);
                }
                break;
            }
            case 4: {
                tools::rgen_gauss_t g(1.0, 2.0);
                double v = g.rand();
                SIM_CHECK(std::isfinite(v) && std::fabs(v - 1) < 2 * 12, "range", "normal generator: %.17g", v);
                bag.put(v + 20000, who);
                g.seed();
                g.reset();
                bag.put(g.rand() + 20000, who);
                break;
            }
            }
    }
    // what an explicitly seeded generator gives
    std::vector<double> seeded(int kind, int seed, int n)
    {
        std::vector<double> o;
        switch (kind) {
        case 0: {
            tools::rgen_double_t g(0.0, 1.0, seed);
            for (int i = 0; i < n; i++)
                o.push_back(g.rand());
            g.seed(seed);
            g.reset();
            for (int i = 0; i < n; i++) {
                double v = g.rand();
                SIM_CHECK(v == o[i], "reseed", "reseeding with %d gives %.17g instead of %.17g", seed, v, o[i]);
            }
            break;
        }
        case 1: {
            tools::rgen_gauss_t g(0.0, 10.0, seed);
            for (int i = 0; i < n; i++)
                o.push_back(g.rand());
            g.seed(seed);
            g.reset();
            for (int i = 0; i < n; i++) {
                double v = g.rand();
                SIM_CHECK(v == o[i], "reseed", "reseeding with %d gives %.17g instead of %.17g", seed, v, o[i]);
            }
            break;
        }
        case 2: {
            int lo = -(seed % 7), hi = seed % 5;
            tools::rgen_int_t g(lo, hi, seed);
            for (int i = 0; i < n; i++) {
                int v = g.rand();
                SIM_CHECK(v >= lo && v <= hi, "range", "integer generator on [%d,%d]: %d", lo, hi, v);
                o.push_back(v);
            }
            g.seed(seed);
            g.reset();
            for (int i = 0; i < n; i++)
                SIM_CHECK(g.rand() == o[i], "reseed", "reseeding the integer generator with %d changes the sequence", seed);
            break;
        }
        case 3: {
            tools::rgen_double_t g(-1.0, 1.0, seed);
            VectorXd v = tools::random_vec(n, g);
            for (int i = 0; i < n; i++)
                o.push_back(v[i]);
            g.param(tools::rdist_double_t::param_type(5, 6));
            double x = g.rand();
            SIM_CHECK(x >= 5 && x < 6, "range", "after param(5,6): %.17g", x);
            o.push_back(x);
            break;
        }
        }
        return o;
    }
}

SIM_SCENARIO(C06, streams, 3)
{
    // clock: frozen, normal or jumping; entropy: good or constant
    int nc = sim::irange(2, 4);
    std::vector<int> style(nc);
    bool same = sim::flip(0.6);
    int common = sim::draw(15);
    for (auto& s : style)
        s = same ? common : (int)sim::draw(15);
    if (sim::flip(0.5))
        sim::clock_ticks(false);
    bool pool = sim::flip(0.3);
    Bag bag;
    {
        sim::Arm arm({sim::F_ENTROPY, sim::F_CLOCK});
        if (pool)
            tools::par::loop(0, nc, [&](size_t i) { user(i, style[i], bag); });
        else {
            std::vector<int> th;
            for (int i = 0; i < nc; i++)
                th.push_back(sim::spawn(("user" + std::to_string(i)).c_str(), [&, i] { user(i, style[i], bag); }));
            sim::join_all(th);
        }
        user(99, common, bag);
    }
    for (auto& p : bag.seen)
        sim::evd(p.first);
    sim::ev("%d users, %zu numbers, style %d", nc, bag.seen.size(), common);
    sim::nontrivial();
}
SIM_SCENARIO(C06, seeded, 1)
{
    int nc = sim::irange(2, 4);
    std::vector<std::vector<double>> alone(nc), got(nc);
    std::vector<int> kind(nc), seed(nc), n(nc);
    for (int i = 0; i < nc; i++) {
        kind[i] = sim::draw(4);
        seed[i] = sim::draw(3) ? sim::draw(100000) : 0;
        n[i] = sim::irange(1, 9);
        sim::Quiet q;
        alone[i] = seeded(kind[i], seed[i], n[i]);
    }
    std::vector<int> th;
    for (int i = 0; i < nc; i++)
        th.push_back(sim::spawn(("user" + std::to_string(i)).c_str(), [&, i] { got[i] = seeded(kind[i], seed[i], n[i]); }));
    sim::join_all(th);
    for (int i = 0; i < nc; i++) {
        SIM_CHECK(got[i] == alone[i], "interference", "a generator seeded with %d gives another sequence when others run", seed[i]);
        for (int j = 0; j < i; j++)
            if (kind[i] == kind[j] && kind[i] != 2 && seed[i] != seed[j])
                SIM_CHECK(got[i][0] != got[j][0], "seed-ignored", "seeds %d and %d give the same sequence", seed[i], seed[j]);
            else if (kind[i] == kind[j] && seed[i] == seed[j])
                SIM_CHECK(got[i][0] == got[j][0], "seed-ignored", "two generators seeded with %d differ", seed[i]);
        for (double v : got[i])
            sim::evd(v);
    }
    sim::nontrivial();
}

namespace {
    // which interval of the hypercube each point of a column is in
    std::vector<int> permutation(const MatrixXd& h, int col)
    {
        std::vector<int> p;
        int n = h.rows();
        for (int i = 0; i < n; i++)
            p.push_back(std::min(n - 1, (int)std::floor(h(i, col) * n + 1e-12)));
        return p;
    }
    // far (8 standard deviations) from what n independent numbers give
    void moments(const std::vector<double>& v, double mean, double sd, double kurt, const char* what)
    {
        double m = 0, q = 0, n = v.size();
        for (double x : v)
            m += x / n;
        for (double x : v)
            q += (x - mean) * (x - mean) / n;
        SIM_CHECK(std::fabs(m - mean) < 8 * sd / std::sqrt(n), "distribution", "%s: the mean of %d numbers is %g instead of %g", what, (int)n, m, mean);
        SIM_CHECK(std::fabs(q - sd * sd) < 8 * sd * sd * std::sqrt((kurt - 1) / n), "distribution", "%s: the standard deviation of %d numbers is %g instead of %g", what, (int)n, std::sqrt(q), sd);
    }
    struct Draws {
        std::vector<std::vector<int>> perms;
        std::vector<double> unit, gauss, cell, lo;
    };
    void sampler(Draws& d, int calls)
    {
        for (int c = 0; c < calls; c++) {
            int n = 14 + c % 3, dims = 3 + 2 * c;
            MatrixXd h = tools::random_lhs(dims, n);
            sim::Quiet q;
            check_lhs(h, n, dims);
            for (int j = 0; j < dims; j++) {
                d.perms.push_back(permutation(h, j));
                for (int i = 0; i < n; i++)
                    d.cell.push_back(h(i, j) * n - d.perms.back()[i]);
            }
        }
        for (int i = 0; i < 12; i++) {
            VectorXd u = tools::random_vector(10), g = tools::random_vector(10, false);
            sim::Quiet q;
            in01(u, 10, "bounded vector");
            for (int j = 0; j < 10; j++)
                d.unit.push_back(u[j]), d.gauss.push_back(g[j]);
        }
    }
}
SIM_SCENARIO(C06, distributions, 1)
{
    // several threads: designs shuffled independently in every dimension,
    // numbers of the documented distributions
    int nc = sim::irange(2, 3);
    std::vector<Draws> d(nc);
    if (sim::flip(0.5))
        sim::clock_ticks(false);
    std::vector<int> th;
    {
        sim::Arm arm({sim::F_ENTROPY, sim::F_CLOCK});
        for (int i = 0; i < nc; i++)
            th.push_back(sim::spawn(("user" + std::to_string(i)).c_str(), [&, i] { sampler(d[i], 3); }));
        sim::join_all(th);
    }
    sim::Quiet q;
    std::map<std::vector<int>, int> seen;
    Draws all;
    for (int i = 0; i < nc; i++) {
        for (auto& p : d[i].perms) {
            auto r = seen.insert({p, i});
            SIM_CHECK(r.second, "repeated-number", "user %d shuffles a column of a latin hypercube exactly like user %d: the streams are not independent", i, r.first->second);
        }
        all.unit.insert(all.unit.end(), d[i].unit.begin(), d[i].unit.end());
        all.gauss.insert(all.gauss.end(), d[i].gauss.begin(), d[i].gauss.end());
        all.cell.insert(all.cell.end(), d[i].cell.begin(), d[i].cell.end());
    }
    moments(all.unit, 0.5, std::sqrt(1 / 12.), 1.8, "random_vector");
    moments(all.gauss, 0, 10, 3, "unbounded random_vector");
    moments(all.cell, 0.5, std::sqrt(1 / 12.), 1.8, "position in the interval of a latin hypercube");
    // an integer generator reaches both ends
    int lo = -(int)sim::draw(3), hi = sim::draw(3);
    tools::rgen_int_t g(lo, hi);
    std::vector<int> hit(hi - lo + 1, 0);
    for (int i = 0; i < 300; i++)
        hit.at(g.rand() - lo)++;
    for (int k = lo; k <= hi; k++)
        SIM_CHECK(hit[k - lo] > 0, "distribution", "300 numbers of [%d,%d] and no %d", lo, hi, k);
    tools::rgen_gauss_t gg(1.0, 2.0);
    tools::rgen_double_t gd(-2.0, 3.0);
    std::vector<double> a, b;
    for (int i = 0; i < 300; i++)
        a.push_back(gg.rand()), b.push_back(gd.rand());
    moments(a, 1, 2, 3, "normal generator");
    moments(b, 0.5, 5 / std::sqrt(12.), 1.8, "generator on [-2,3)");
    sim::ev("%d users, %zu columns", nc, seen.size());
    sim::evd(all.unit[0]);
    sim::evd(all.gauss[0]);
    sim::nontrivial();
}
