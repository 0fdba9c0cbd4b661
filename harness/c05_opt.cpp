// C05: the parallel repeater.  C20: the optimizers, with failing objectives,
// from several threads, reused.
#include "common.h"
#include <iostream>
#include <limbo/opt/adam.hpp>
#include <limbo/opt/chained.hpp>
#include <limbo/opt/gradient_ascent.hpp>
#include <limbo/opt/grid_search.hpp>
#include <limbo/opt/nlopt_grad.hpp>
#include <limbo/opt/nlopt_no_grad.hpp>
#include <limbo/opt/parallel_repeater.hpp>
#include <limbo/opt/random_point.hpp>
#include <limbo/opt/rprop.hpp>
#include <memory>
#include <stdexcept>

using namespace limbo;

namespace {
    struct Params {
        struct opt_parallelrepeater {
            BO_DYN_PARAM(int, repeats);
            BO_DYN_PARAM(double, epsilon);
        };
        struct opt_rprop {
            BO_DYN_PARAM(int, iterations);
            BO_DYN_PARAM(double, eps_stop);
        };
        struct opt_gradient_ascent {
            BO_DYN_PARAM(int, iterations);
            BO_DYN_PARAM(double, alpha);
            BO_DYN_PARAM(double, gamma);
            BO_DYN_PARAM(bool, nesterov);
            BO_DYN_PARAM(double, eps_stop);
        };
        struct opt_adam {
            BO_DYN_PARAM(int, iterations);
            BO_DYN_PARAM(double, alpha);
            BO_DYN_PARAM(double, b1);
            BO_DYN_PARAM(double, b2);
            BO_DYN_PARAM(double, eps_stop);
        };
        struct opt_gridsearch {
            BO_DYN_PARAM(int, bins);
        };
        struct opt_nloptgrad {
            BO_DYN_PARAM(int, iterations);
            BO_DYN_PARAM(double, fun_tolerance);
            BO_DYN_PARAM(double, xrel_tolerance);
        };
        struct opt_nloptnograd : public opt_nloptgrad {
        };
    };
    BO_DECLARE_DYN_PARAM(int, Params::opt_parallelrepeater, repeats);
    BO_DECLARE_DYN_PARAM(double, Params::opt_parallelrepeater, epsilon);
    BO_DECLARE_DYN_PARAM(int, Params::opt_rprop, iterations);
    BO_DECLARE_DYN_PARAM(double, Params::opt_rprop, eps_stop);
    BO_DECLARE_DYN_PARAM(int, Params::opt_gradient_ascent, iterations);
    BO_DECLARE_DYN_PARAM(double, Params::opt_gradient_ascent, alpha);
    BO_DECLARE_DYN_PARAM(double, Params::opt_gradient_ascent, gamma);
    BO_DECLARE_DYN_PARAM(bool, Params::opt_gradient_ascent, nesterov);
    BO_DECLARE_DYN_PARAM(double, Params::opt_gradient_ascent, eps_stop);
    BO_DECLARE_DYN_PARAM(int, Params::opt_adam, iterations);
    BO_DECLARE_DYN_PARAM(double, Params::opt_adam, alpha);
    BO_DECLARE_DYN_PARAM(double, Params::opt_adam, b1);
    BO_DECLARE_DYN_PARAM(double, Params::opt_adam, b2);
    BO_DECLARE_DYN_PARAM(double, Params::opt_adam, eps_stop);
    BO_DECLARE_DYN_PARAM(int, Params::opt_gridsearch, bins);
    BO_DECLARE_DYN_PARAM(int, Params::opt_nloptgrad, iterations);
    BO_DECLARE_DYN_PARAM(double, Params::opt_nloptgrad, fun_tolerance);
    BO_DECLARE_DYN_PARAM(double, Params::opt_nloptgrad, xrel_tolerance);

    struct Boom : std::exception {
        const char* what() const noexcept override { return "boom"; }
    };

    // ------------------------------------------------------------------ pure objectives
    struct Landscape {
        int kind, d;
        VectorXd c, s;
        double scale, shift;
        double value(const VectorXd& x) const
        {
            double v = 0;
            for (int i = 0; i < d; i++) {
                double t = x[i] - c[i];
                switch (kind) {
                case 0: v -= s[i] * t * t; break; // concave
                case 1: v += s[i] * t; break; // linear: the optimum is on the border
                case 2: v += std::sin(6 * s[i] * t) - 0.5 * t * t; break; // several optima
                case 3: v -= std::fabs(t) * s[i]; break; // not smooth
                default: break; // constant
                }
            }
            return scale * v + shift;
        }
        VectorXd grad(const VectorXd& x) const
        {
            VectorXd g = VectorXd::Zero(d);
            for (int i = 0; i < d; i++) {
                double t = x[i] - c[i];
                switch (kind) {
                case 0: g[i] = -2 * s[i] * t; break;
                case 1: g[i] = s[i]; break;
                case 2: g[i] = 6 * s[i] * std::cos(6 * s[i] * t) - t; break;
                case 3: g[i] = t > 0 ? -s[i] : s[i]; break;
                default: break;
                }
            }
            return scale * g;
        }
    };
    Landscape draw_landscape(int d)
    {
        Landscape l;
        l.kind = sim::draw(5);
        l.d = d;
        l.c.resize(d);
        l.s.resize(d);
        for (int i = 0; i < d; i++) {
            l.c[i] = sim::flip(0.2) ? hz::value() : hz::coord();
            l.s[i] = 0.25 + sim::draw(8) / 4.0;
        }
        static const double scales[] = {1, 1e-6, 1e6, 3, 1e100};
        l.scale = sim::flip(0.2) ? scales[sim::draw(4)] : 1;
        l.shift = sim::flip(0.3) ? hz::value() * 10 : 0;
        return l;
    }

    // ------------------------------------------------------------------ C05
    // a probe in the place of the inner optimizer
    struct Replica {
        VectorXd start, out;
        bool bounded;
        int done;
    };
    struct Call { // one call of the repeater
        std::vector<Replica> rep;
        std::mutex m;
        bool threw_inner = false, finished = false;
        int style = 0;
    };
    struct Obj {
        Call* c;
        const Landscape* l;
        int badmode; // 0: none, 1: NaN at some points, 2: +-inf at some points, 3: very low
        opt::eval_t operator()(const VectorXd& x, bool g) const
        {
            sim::yield();
            {
                std::lock_guard<std::mutex> lk(c->m);
                if (c->finished)
                    sim::fail("late-evaluation", "the objective is called after the repeater has returned");
                if (sim::fault(sim::F_EVAL_THROW)) {
                    c->threw_inner = true;
                    throw Boom();
                }
            }
            return g ? opt::eval_t(value(x), l->grad(x)) : opt::no_grad(value(x));
        }
        double value(const VectorXd& x) const
        {
            double v = l->value(x);
            // pure: depends on the point only
            long k = (long)std::floor(std::fabs(x.sum()) * 4096);
            if (badmode == 1 && k % 3)
                return std::nan("");
            if (badmode == 2 && k % 3 == 1)
                return -INFINITY;
            if (badmode == 3)
                return -1e300 + v * 1e290;
            if (badmode == 4)
                return k % 2 ? -INFINITY : std::nan("");
            return v;
        }
    };
    template <typename P>
    struct Probe {
        template <typename F>
        VectorXd operator()(const F& f, const VectorXd& init, bool bounded) const
        {
            Call* c = f.c;
            size_t me;
            {
                std::lock_guard<std::mutex> lk(c->m);
                if (c->finished)
                    sim::fail("late-evaluation", "a replicate starts after the repeater has returned");
                me = c->rep.size();
                c->rep.push_back({init, VectorXd(), bounded, 0});
            }
            sim::yield();
            VectorXd out = init;
            int n = c->style & 3;
            double best = -INFINITY;
            for (int i = 0; i < n; i++) {
                VectorXd p = init;
                p.array() += (i + 1) * 0.125 * ((c->style >> 2) & 1 ? -1 : 1);
                double v = opt::eval(f, p);
                if (!(v <= best)) {
                    best = v;
                    out = p;
                }
            }
            sim::yield();
            std::lock_guard<std::mutex> lk(c->m);
            c->rep[me].out = out;
            c->rep[me].done = 1;
            return out;
        }
    };
    void one_repeater(const VectorXd& init, const Landscape& l, int badmode, bool bounded, int repeats, double eps, const char* who)
    {
        Call c;
        c.rep.reserve(64);
        c.style = sim::draw(8);
        Obj f{&c, &l, badmode};
        opt::ParallelRepeater<Params, Probe<Params>> r;
        VectorXd res;
        bool threw = false;
        try {
            res = r(f, init, bounded);
        }
        catch (Boom&) {
            threw = true;
        }
        {
            std::lock_guard<std::mutex> lk(c.m);
            c.finished = true;
        }
        SIM_CHECK(threw == c.threw_inner, "exception-lost", "%s: the objective threw: %d, the caller saw it: %d", who, (int)c.threw_inner, (int)threw);
        SIM_CHECK((int)c.rep.size() <= repeats, "replicates", "%s: %zu replicates instead of %d", who, c.rep.size(), repeats);
        for (size_t i = 0; i < c.rep.size(); i++) {
            auto& p = c.rep[i];
            SIM_CHECK(p.bounded == bounded, "bounded-lost", "%s: bounded=%d became %d", who, bounded, p.bounded);
            SIM_CHECK(p.start.size() == init.size(), "start", "%s: dimension of a start", who);
            double dev = (p.start - init).cwiseAbs().maxCoeff();
            SIM_CHECK(dev <= eps * (1 + 1e-9) + 1e-12, "start", "%s: a replicate starts at %g of the initial point, epsilon is %g", who, dev, eps);
            for (size_t j = 0; j < i; j++)
                SIM_CHECK(!hz::same_bits(p.start, c.rep[j].start), "same-start", "%s: two replicates start from the same point", who);
        }
        if (threw)
            return;
        SIM_CHECK((int)c.rep.size() == repeats, "replicates", "%s: %zu replicates instead of %d", who, c.rep.size(), repeats);
        double best = -INFINITY;
        for (auto& p : c.rep) {
            SIM_CHECK(p.done, "replicates", "%s: the repeater returned before one of its replicates", who);
            double v = f.value(p.out);
            if (v > best)
                best = v;
        }
        bool found = false;
        for (auto& p : c.rep)
            found = found || (hz::same_bits(p.out, res) && (f.value(p.out) == best));
        if (best == -INFINITY)
            found = found || hz::same_bits(res, init);
        SIM_CHECK(found, "not-the-best", "%s: returned %s (value %.17g), the best replicate has %.17g", who, hz::str(res).c_str(), f.value(res), best);
        sim::evd(best);
    }
    void setup_repeater(int& repeats, double& eps)
    {
        repeats = sim::irange(1, 9);
        static const double E[] = {0.01, 1e-6, 0.3, 1.0};
        eps = E[sim::draw(4)];
        Params::opt_parallelrepeater::set_repeats(repeats);
        Params::opt_parallelrepeater::set_epsilon(eps);
    }
}

SIM_SCENARIO(C05, repeater, 3)
{
    int repeats;
    double eps;
    setup_repeater(repeats, eps);
    int d = sim::irange(1, 3);
    Landscape l = draw_landscape(d);
    int bad = sim::flip(0.3) ? sim::irange(1, 4) : 0;
    int nc = sim::flip(0.3) ? sim::irange(2, 3) : 1;
    std::vector<VectorXd> init;
    std::vector<int> b;
    for (int i = 0; i < nc; i++) {
        init.push_back(hz::point(d));
        b.push_back(sim::flip(0.5));
    }
    sim::Arm arm({sim::F_EVAL_THROW});
    if (nc == 1)
        one_repeater(init[0], l, bad, b[0], repeats, eps, "repeater");
    else {
        std::vector<int> th;
        for (int i = 0; i < nc; i++)
            th.push_back(sim::spawn(("client" + std::to_string(i)).c_str(), [&, i] { one_repeater(init[i], l, bad, b[i], repeats, eps, "concurrent repeater"); }));
        sim::join_all(th);
    }
    sim::ev("repeats %d clients %d bad %d", repeats, nc, bad);
    sim::nontrivial();
}

namespace {
    // a real optimizer inside: the result is at least as good as the best
    // value that any of the replicates ended on
    struct Logged {
        const Landscape* l;
        std::mutex* m;
        std::vector<std::pair<VectorXd, double>>* log;
        opt::eval_t operator()(const VectorXd& x, bool g) const
        {
            sim::yield();
            double v = l->value(x);
            {
                std::lock_guard<std::mutex> lk(*m);
                log->push_back({x, v});
            }
            return g ? opt::eval_t(v, l->grad(x)) : opt::no_grad(v);
        }
    };
    template <typename Inner>
    void repeat_real(bool best_of_all)
    {
        int repeats;
        double eps;
        setup_repeater(repeats, eps);
        int d = sim::irange(1, 2);
        Landscape l = draw_landscape(d);
        std::mutex m;
        std::vector<std::pair<VectorXd, double>> log;
        Logged f{&l, &m, &log};
        opt::ParallelRepeater<Params, Inner> r;
        VectorXd init = hz::point(d);
        VectorXd res = r(f, init, true);
        SIM_CHECK(res.size() == d && (res.array() >= 0).all() && (res.array() <= 1).all(), "out-of-bounds", "the bounded repeater returns %s", hz::str(res).c_str());
        double best = -INFINITY;
        bool known = false;
        for (auto& p : log) {
            best = std::max(best, p.second);
            known = known || hz::same_bits(p.first, res);
        }
        SIM_CHECK(known, "not-the-best", "the repeater returns %s, which was never evaluated", hz::str(res).c_str());
        if (best_of_all)
            SIM_CHECK(l.value(res) == best, "not-the-best", "the repeater returns %.17g, its replicates evaluated %.17g", l.value(res), best);
        sim::evd(best);
        sim::nontrivial();
    }
}
SIM_SCENARIO(C05, repeater_of_real_optimizers, 1)
{
    Params::opt_rprop::set_iterations(sim::irange(1, 12));
    Params::opt_rprop::set_eps_stop(0);
    Params::opt_nloptgrad::set_iterations(sim::irange(2, 25));
    Params::opt_nloptgrad::set_fun_tolerance(-1);
    Params::opt_nloptgrad::set_xrel_tolerance(-1);
    Params::opt_gridsearch::set_bins(sim::irange(1, 5));
    switch (sim::draw(4)) {
    case 0: repeat_real<opt::Rprop<Params>>(true); break;
    case 1: repeat_real<opt::GridSearch<Params>>(true); break;
    case 2: repeat_real<opt::NLOptNoGrad<Params, nlopt::GN_DIRECT_L_RAND>>(true); break;
    case 3: repeat_real<opt::NLOptGrad<Params, nlopt::LD_LBFGS>>(false); break;
    }
}

// ------------------------------------------------------------------ C20
namespace {
    enum Algo { RANDOM, GRID, RPROP, GA, ADAM, N_DIRECT, N_DIRECTL, N_COBYLA, N_BOBYQA, N_NM, N_SBPLX, N_CRS, N_ISRES, G_LBFGS, G_SLSQP, CHAIN, NALGO };
    const char* algo_name[] = {"RandomPoint", "GridSearch", "Rprop", "GradientAscent", "Adam", "DIRECT_L_RAND", "DIRECT", "COBYLA", "BOBYQA", "NELDERMEAD", "SBPLX", "CRS2", "ISRES", "LBFGS", "SLSQP", "Chained"};

    struct Run {
        std::vector<VectorXd> x;
        std::vector<double> v;
        std::vector<int> g;
        VectorXd res;
        bool threw = false, faulted = false, returned = false;
        int throw_at = -1;
    };
    struct Tracked {
        const Landscape* l;
        Run* r;
        int nan_mode; // 1: NaN, 2: -inf, 3: +inf at every third point
        opt::eval_t operator()(const VectorXd& x, bool g) const
        {
            SIM_CHECK(!r->returned, "late-evaluation", "the objective is called after the optimizer has returned");
            if ((int)r->x.size() == r->throw_at) {
                r->faulted = true;
                throw Boom();
            }
            SIM_CHECK(r->x.size() < 3000, "budget", "%zu evaluations and no end", r->x.size());
            double v = l->value(x);
            int k = r->x.size() % 3;
            if (nan_mode && k == 1) {
                v = nan_mode == 1 ? std::nan("") : nan_mode == 2 ? -INFINITY : INFINITY;
                r->faulted = true;
            }
            r->x.push_back(x);
            r->v.push_back(v);
            r->g.push_back(g);
            return g ? opt::eval_t(v, l->grad(x)) : opt::no_grad(v);
        }
    };
    template <typename Opt>
    void go(Opt& o, const Tracked& f, const VectorXd& init, bool bounded)
    {
        try {
            f.r->res = o(f, init, bounded);
        }
        catch (Boom&) {
            f.r->threw = true;
        }
        f.r->returned = true;
    }
    struct Any {
        virtual ~Any() {}
        virtual void run(const Tracked& f, const VectorXd& init, bool bounded) = 0;
    };
    template <typename O>
    struct Of : Any {
        O o;
        void run(const Tracked& f, const VectorXd& init, bool bounded) override { go(o, f, init, bounded); }
    };
    std::unique_ptr<Any> make(int a)
    {
#define MK(...) return std::unique_ptr<Any>(new Of<__VA_ARGS__>())
        switch (a) {
        case RANDOM: MK(opt::RandomPoint<Params>);
        case GRID: MK(opt::GridSearch<Params>);
        case RPROP: MK(opt::Rprop<Params>);
        case GA: MK(opt::GradientAscent<Params>);
        case ADAM: MK(opt::Adam<Params>);
        case N_DIRECT: MK(opt::NLOptNoGrad<Params, nlopt::GN_DIRECT_L_RAND>);
        case N_DIRECTL: MK(opt::NLOptNoGrad<Params, nlopt::GN_DIRECT>);
        case N_COBYLA: MK(opt::NLOptNoGrad<Params, nlopt::LN_COBYLA>);
        case N_BOBYQA: MK(opt::NLOptNoGrad<Params, nlopt::LN_BOBYQA>);
        case N_NM: MK(opt::NLOptNoGrad<Params, nlopt::LN_NELDERMEAD>);
        case N_SBPLX: MK(opt::NLOptNoGrad<Params, nlopt::LN_SBPLX>);
        case N_CRS: MK(opt::NLOptNoGrad<Params, nlopt::GN_CRS2_LM>);
        case N_ISRES: MK(opt::NLOptNoGrad<Params, nlopt::GN_ISRES>);
        case G_LBFGS: MK(opt::NLOptGrad<Params, nlopt::LD_LBFGS>);
        case G_SLSQP: MK(opt::NLOptGrad<Params, nlopt::LD_SLSQP>);
        default: MK(opt::Chained<Params, opt::GridSearch<Params>, opt::Rprop<Params>, opt::GradientAscent<Params>>);
        }
    }
    bool needs_bounds(int a) { return a == RANDOM || a == GRID || a == N_DIRECT || a == N_DIRECTL || a == N_CRS || a == N_ISRES || a == CHAIN; }
    bool is_nlopt(int a) { return a >= N_DIRECT && a < CHAIN; }
    bool is_random(int a) { return a == RANDOM || a == N_DIRECT || a == N_CRS || a == N_ISRES; }
    bool wants_grad(int a) { return a == RPROP || a == GA || a == ADAM || (a >= G_LBFGS && a < CHAIN); }

    struct Conf {
        int iters, bins;
        double eps_stop, alpha, gamma, b1, b2;
        bool nesterov;
    };
    Conf configure()
    {
        Conf c;
        c.iters = sim::flip(0.15) ? sim::irange(31, 80) : sim::irange(1, 30);
        c.bins = sim::irange(1, 12);
        c.eps_stop = sim::flip(0.3) ? 0.02 : 0;
        static const double A[] = {0.001, 0.01, 0.1, 0.5};
        c.alpha = A[sim::draw(4)];
        c.gamma = sim::flip(0.5) ? 0 : 0.5;
        c.nesterov = sim::flip(0.4);
        c.b1 = sim::flip(0.5) ? 0.9 : 0.5;
        c.b2 = sim::flip(0.5) ? 0.999 : 0.8;
        Params::opt_rprop::set_iterations(c.iters);
        Params::opt_rprop::set_eps_stop(c.eps_stop);
        Params::opt_gradient_ascent::set_iterations(c.iters);
        Params::opt_gradient_ascent::set_alpha(c.alpha);
        Params::opt_gradient_ascent::set_gamma(c.gamma);
        Params::opt_gradient_ascent::set_nesterov(c.nesterov);
        Params::opt_gradient_ascent::set_eps_stop(c.eps_stop);
        Params::opt_adam::set_iterations(c.iters);
        Params::opt_adam::set_alpha(c.alpha);
        Params::opt_adam::set_b1(c.b1);
        Params::opt_adam::set_b2(c.b2);
        Params::opt_adam::set_eps_stop(c.eps_stop);
        Params::opt_gridsearch::set_bins(c.bins);
        Params::opt_nloptgrad::set_iterations(c.iters * 3);
        Params::opt_nloptgrad::set_fun_tolerance(sim::flip(0.2) ? 1e-3 : -1);
        Params::opt_nloptgrad::set_xrel_tolerance(sim::flip(0.2) ? 1e-3 : -1);
        return c;
    }
    void clamp(VectorXd& v, bool bounded)
    {
        if (bounded)
            for (int i = 0; i < v.size(); i++)
                v[i] = std::min(1.0, std::max(0.0, v[i]));
    }
    int sgn(double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
    // the published update rules, on the landscape, written independently
    void reference(int a, const Conf& c, const Landscape& l, VectorXd p, bool bounded, std::vector<VectorXd>& asked, VectorXd& last, bool& close_call)
    {
        close_call = false; // a stopping test that rounding may decide
        clamp(p, bounded);
        VectorXd v = VectorXd::Zero(p.size()), m = v, old = v, delta = VectorXd::Constant(p.size(), 0.1);
        for (int t = 1; t <= c.iters; t++) {
            VectorXd q = p;
            if (a == GA && c.nesterov) {
                q = p + c.gamma * v;
                clamp(q, bounded);
            }
            asked.push_back(q);
            VectorXd g = l.grad(q), before = p;
            if (a == GA) {
                v = c.gamma * v + c.alpha * g;
                p += v;
            }
            else if (a == ADAM) {
                for (int i = 0; i < p.size(); i++) {
                    m[i] = c.b1 * m[i] + (1 - c.b1) * g[i];
                    v[i] = c.b2 * v[i] + (1 - c.b2) * g[i] * g[i];
                    p[i] += c.alpha * (m[i] / (1 - std::pow(c.b1, t))) / (std::sqrt(v[i] / (1 - std::pow(c.b2, t))) + 1e-8);
                }
            }
            else {
                for (int i = 0; i < p.size(); i++) {
                    double s = old[i] * g[i];
                    if (s > 0)
                        delta[i] = std::min(delta[i] * 1.2, 50.0);
                    else if (s < 0) {
                        delta[i] = std::max(delta[i] * 0.5, 1e-6);
                        g[i] = 0;
                    }
                    p[i] += sgn(g[i]) * delta[i];
                }
                old = g;
            }
            clamp(p, bounded);
            double size = a == RPROP ? g.norm() : (before - p).norm();
            close_call = close_call || (c.eps_stop > 0 && std::fabs(size - c.eps_stop) < 1e-6);
            if (size < c.eps_stop)
                break;
        }
        last = p;
    }

    void judge(int a, const Conf& c, const Landscape& l, const VectorXd& init, bool bounded, const Run& r, int nan_mode, const char* who)
    {
        const char* nm = algo_name[a];
        int d = init.size();
        bool thrown = r.throw_at >= 0 && (int)r.x.size() >= r.throw_at && r.faulted && !nan_mode;
        size_t n = r.x.size();
        // some algorithms of NLopt lose their way on their own: then only the comparison with NLopt itself counts
        if (is_nlopt(a))
            for (auto& x : r.x)
                if (x.hasNaN())
                    return;
        for (size_t i = 0; i < n; i++) {
            SIM_CHECK(r.x[i].size() == d, "out-of-bounds", "%s %s: evaluation %zu has dimension %d", who, nm, i, (int)r.x[i].size());
            if (bounded)
                for (int j = 0; j < d; j++)
                    SIM_CHECK(r.x[i][j] >= 0 && r.x[i][j] <= 1, "out-of-bounds", "%s %s: evaluation %zu is at %s", who, nm, i, hz::str(r.x[i]).c_str());
            if (a < G_LBFGS)
                SIM_CHECK((bool)r.g[i] == wants_grad(a), "gradient-request", "%s %s: asked for the gradient: %d", who, nm, r.g[i]);
        }
        // exceptions: those of the objective end the search; limbo's own
        // optimizers hand them to the caller
        if (thrown && !is_nlopt(a)) {
            SIM_CHECK(r.threw, "exception-lost", "%s %s: the exception of the objective was swallowed", who, nm);
            return;
        }
        if (r.threw)
            return;
        SIM_CHECK(r.res.size() == d, "out-of-bounds", "%s %s: the result has dimension %d", who, nm, (int)r.res.size());
        bool diverges = false; // steps that grow for ever overflow
        for (auto& x : r.x)
            for (int j = 0; j < d; j++)
                diverges = diverges || !(std::fabs(x[j]) < 1e60);
        if (diverges && !bounded)
            return;
        for (int j = 0; j < d; j++)
            SIM_CHECK(!std::isnan(r.res[j]), "out-of-bounds", "%s %s: the result is %s", who, nm, hz::str(r.res).c_str());
        if (bounded)
            for (int j = 0; j < d; j++)
                SIM_CHECK(r.res[j] >= 0 && r.res[j] <= 1, "out-of-bounds", "%s %s: the result is %s", who, nm, hz::str(r.res).c_str());
        // budget
        size_t budget = 0, exact = 0;
        switch (a) {
        case RANDOM: budget = 0; break;
        case GRID: {
            // every level may evaluate again the best of the level below
            size_t w = 1, sum = 0;
            for (int i = 0; i < d; i++) {
                w *= c.bins + 1;
                sum += w;
            }
            budget = sum;
            break;
        }
        case RPROP:
        case GA:
        case ADAM:
            budget = c.iters;
            if (c.eps_stop == 0)
                exact = budget;
            break;
        case CHAIN: budget = 0; break;
        case N_CRS: // they test their budget between rounds; compared with NLopt itself below
        case N_ISRES: budget = 3000; break;
        default: budget = c.iters * 3 + (a < G_LBFGS ? 4 : 2 * c.iters + 20); break; // a line search may overrun
        }
        if (a != CHAIN)
            SIM_CHECK(n <= budget, "budget", "%s %s: %zu evaluations, the budget is %zu", who, nm, n, budget);
        if (exact)
            SIM_CHECK(n == exact, "budget", "%s %s: %zu evaluations instead of %zu", who, nm, n, exact);
        // best
        double best = -INFINITY;
        for (double v : r.v)
            if (v > best)
                best = v;
        if (a == GRID || a == RPROP || ((a == N_DIRECT || a == N_DIRECTL || a == N_NM || a == N_SBPLX || a == N_CRS) && !r.faulted)) {
            if (best > -INFINITY && n) {
                bool ok = false;
                for (size_t i = 0; i < n; i++)
                    ok = ok || (r.v[i] == best && hz::same_bits(r.x[i], r.res));
                if (a == GRID && nan_mode) // the value depends on the call, not on the point
                    ok = true;
                SIM_CHECK(ok, "not-the-best", "%s %s: returns %s (%.17g) after having seen %.17g", who, nm, hz::str(r.res).c_str(), l.value(r.res), best);
            }
        }
        if ((a == N_NM || a == N_SBPLX || a == G_LBFGS) && !r.faulted) {
            VectorXd x0 = init;
            clamp(x0, bounded);
            if (n)
                SIM_CHECK(l.value(r.res) >= l.value(x0) - 1e-9 * std::fabs(l.value(x0)) , "worse-than-start", "%s %s: returns %.17g, started with %.17g", who, nm, l.value(r.res), l.value(x0));
        }
        if (a == GRID) {
            for (int j = 0; j < d; j++) {
                double k = r.res[j] * c.bins;
                if (!nan_mode)
                    SIM_CHECK(std::fabs(k - std::round(k)) < 1e-9, "off-grid", "%s %s: %s is not on the grid of %d bins", who, nm, hz::str(r.res).c_str(), c.bins);
            }
            if (!nan_mode && !r.faulted) {
                // every point of the grid has been seen
                size_t want = 1;
                for (int j = 0; j < d; j++)
                    want *= c.bins + 1;
                std::vector<char> seen(want, 0);
                for (auto& x : r.x) {
                    size_t k = 0;
                    for (int j = 0; j < d; j++)
                        k = k * (c.bins + 1) + (size_t)std::lround(x[j] * c.bins);
                    seen[k] = 1;
                }
                for (size_t k = 0; k < want; k++)
                    SIM_CHECK(seen[k], "grid-incomplete", "%s %s: point %zu of the grid was not evaluated", who, nm, k);
            }
        }
        if ((a == RPROP || a == GA || a == ADAM) && l.scale <= 10 && (l.kind == 0 || l.kind == 1 || l.kind == 4)) {
            std::vector<VectorXd> asked;
            VectorXd last;
            bool close_call;
            reference(a, c, l, init, bounded, asked, last, close_call);
            // equality up to rounding; a step whose direction depends on the sign of a rounding error is not compared
            for (size_t i = 0; i < std::min(n, asked.size()); i++) {
                if (a != RPROP && i >= 30) // (rounding errors grow)
                    return;
                bool degenerate = false;
                if (a != GA)
                    for (int j = 0; j < d; j++)
                        degenerate = degenerate || (l.kind == 0 && std::fabs(l.grad(asked[i])[j]) < 1e-6 * l.scale);
                if (degenerate)
                    return;
                SIM_CHECK(hz::close(asked[i], r.x[i], 1e-7, 1), "update-rule", "%s %s: step %zu evaluates %s, the published rule %s", who, nm, i, hz::str(r.x[i]).c_str(), hz::str(asked[i]).c_str());
            }
            if (!close_call || n == asked.size()) {
                SIM_CHECK(n == asked.size(), "update-rule", "%s %s: %zu steps, the published rule takes %zu", who, nm, n, asked.size());
                if (a != RPROP)
                    SIM_CHECK(hz::close(last, r.res, 1e-7, 1), "update-rule", "%s %s: ends at %s, the published rule at %s", who, nm, hz::str(r.res).c_str(), hz::str(last).c_str());
            }
        }
    }
    // what NLopt itself answers, asked directly
    nlopt::algorithm nlopt_algo(int a)
    {
        switch (a) {
        case N_DIRECT: return nlopt::GN_DIRECT_L_RAND;
        case N_DIRECTL: return nlopt::GN_DIRECT;
        case N_COBYLA: return nlopt::LN_COBYLA;
        case N_BOBYQA: return nlopt::LN_BOBYQA;
        case N_NM: return nlopt::LN_NELDERMEAD;
        case N_SBPLX: return nlopt::LN_SBPLX;
        case N_CRS: return nlopt::GN_CRS2_LM;
        case N_ISRES: return nlopt::GN_ISRES;
        case G_LBFGS: return nlopt::LD_LBFGS;
        case G_SLSQP: return nlopt::LD_SLSQP;
        }
        return nlopt::NUM_ALGORITHMS;
    }
    void raw_nlopt(nlopt::algorithm al, const Tracked& f, const VectorXd& init, bool bounded)
    {
        int d = init.size();
        nlopt::opt o(al, d);
        o.set_maxeval(Params::opt_nloptgrad::iterations());
        o.set_ftol_rel(Params::opt_nloptgrad::fun_tolerance());
        o.set_xtol_rel(Params::opt_nloptgrad::xrel_tolerance());
        std::vector<double> x(init.data(), init.data() + d);
        if (bounded) {
            for (auto& e : x)
                e = std::min(1., std::max(0., e));
            o.set_lower_bounds(0.);
            o.set_upper_bounds(1.);
        }
        o.set_max_objective(
            [](const std::vector<double>& x, std::vector<double>& g, void* d) {
                VectorXd p = VectorXd::Map(x.data(), x.size());
                auto r = (*(const Tracked*)d)(p, !g.empty());
                if (!g.empty())
                    for (size_t i = 0; i < g.size(); i++)
                        g[i] = opt::grad(r)[i];
                return opt::fun(r);
            },
            (void*)&f);
        try {
            double m;
            o.optimize(x, m);
        }
        catch (Boom&) {
            f.r->threw = true;
        }
        catch (std::exception&) {
        }
        f.r->res = VectorXd::Map(x.data(), d);
        f.r->returned = true;
    }
    VectorXd draw_init(int d)
    {
        VectorXd v = hz::point(d);
        if (sim::flip(0.25))
            for (int i = 0; i < d; i++)
                v[i] = sim::flip(0.5) ? hz::value() : v[i];
        return v;
    }
    int draw_algo(bool all)
    {
        if (sim::flip(0.5))
            return sim::draw(5);
        return all ? sim::draw(NALGO) : (int)N_DIRECT + sim::draw(NALGO - N_DIRECT);
    }
}

SIM_SCENARIO(C20, failing_objective, 3)
{
    // one optimizer object, used several times in a row: every use is judged
    // alone and must equal what a new optimizer does
    Conf c = configure();
    int a = draw_algo(true);
    auto o = make(a);
    int uses = sim::irange(1, 3);
    std::cerr.setstate(std::ios::failbit);
    for (int u = 0; u < uses; u++) {
        int d = sim::irange(a == N_BOBYQA ? 2 : 1, a != GRID && a != CHAIN && sim::flip(0.15) ? 8 : 3);
        if (a == GRID || a == CHAIN)
            d = std::min(d, 2);
        Landscape l = draw_landscape(d);
        static const double shifts[] = {-1e12, -1e100, 1e12};
        if (!is_nlopt(a) && sim::flip(0.06)) // (some algorithms of NLopt lose their way)
            l.shift = shifts[sim::draw(3)];
        VectorXd init = draw_init(d);
        bool bounded = needs_bounds(a) || sim::flip(0.6);
        Run r;
        int nan_mode = 0;
        if (sim::flip(0.35)) {
            uint32_t p = 0;
            sim::Arm arm({sim::F_EVAL_NAN, sim::F_EVAL_INF, sim::F_EVAL_THROW});
            if (sim::fault(sim::F_EVAL_THROW, &p))
                r.throw_at = p % 12;
            else if (sim::fault(sim::F_EVAL_NAN))
                nan_mode = 1;
            else if (sim::fault(sim::F_EVAL_INF, &p))
                nan_mode = 2 + p % 2;
        }
        // NLopt does not promise anything for an objective that is not a number
        if (is_nlopt(a) && nan_mode && a != N_DIRECT && a != N_DIRECTL)
            nan_mode = 0;
        unsigned long seed = sim::draw(1000);
        nlopt::srand(seed);
        o->run(Tracked{&l, &r, nan_mode}, init, bounded);
        judge(a, c, l, init, bounded, r, nan_mode, u ? "reused" : "new");
        if (is_nlopt(a) && a != CHAIN) {
            // the bindings: the evaluations and the result of NLopt with the same settings
            Run n;
            n.throw_at = r.throw_at;
            nlopt::srand(seed);
            raw_nlopt(nlopt_algo(a), Tracked{&l, &n, nan_mode}, init, bounded);
            bool same = n.x.size() == r.x.size() && n.threw == r.threw && (r.threw || hz::same_bits(n.res, r.res));
            for (size_t i = 0; same && i < n.x.size(); i++)
                same = hz::same_bits(n.x[i], r.x[i]);
            SIM_CHECK(same, "binding", "%s: %zu evaluations and %s, NLopt with these settings %zu and %s", algo_name[a], r.x.size(), hz::str(r.res).c_str(), n.x.size(), hz::str(n.res).c_str());
        }
        if (u && !is_random(a)) {
            Run f;
            f.throw_at = r.throw_at;
            make(a)->run(Tracked{&l, &f, nan_mode}, init, bounded);
            SIM_CHECK(f.x.size() == r.x.size() && f.threw == r.threw && (r.threw || hz::same_bits(f.res, r.res)), "reuse", "%s used %d times returns %s after %zu evaluations, a new one %s after %zu", algo_name[a], u + 1, r.threw ? "nothing" : hz::str(r.res).c_str(), r.x.size(), f.threw ? "nothing" : hz::str(f.res).c_str(), f.x.size());
        }
        sim::ev("%s d=%d bounded=%d evaluations=%zu bad=%d threw=%d", algo_name[a], d, bounded, r.x.size(), nan_mode, r.threw);
    }
    std::cerr.clear();
    sim::nontrivial();
}

SIM_SCENARIO(C20, concurrent_optimizers, 1)
{
    // several threads optimize at the same time, each what it likes: each gets
    // what it gets alone
    Conf c = configure();
    int n = sim::irange(2, 3);
    struct Job {
        int a, d;
        Landscape l;
        VectorXd init;
        bool bounded;
        Run alone, r;
    };
    std::vector<Job> job(n);
    std::cerr.setstate(std::ios::failbit);
    int common = draw_algo(true);
    for (auto& j : job) {
        j.a = sim::flip(0.6) ? common : draw_algo(true);
        if (is_random(j.a))
            j.a = GRID;
        j.d = sim::irange(1, 2);
        if (j.a == N_BOBYQA)
            j.d = 2;
        j.l = draw_landscape(j.d);
        j.init = draw_init(j.d);
        j.bounded = needs_bounds(j.a) || sim::flip(0.5);
    }
    {
        sim::Quiet q;
        for (auto& j : job)
            make(j.a)->run(Tracked{&j.l, &j.alone, 0}, j.init, j.bounded);
    }
    std::vector<int> th;
    for (auto& j : job) {
        Job* p = &j;
        th.push_back(sim::spawn(("client" + std::to_string(p - &job[0])).c_str(), [p] { make(p->a)->run(Tracked{&p->l, &p->r, 0}, p->init, p->bounded); }));
    }
    sim::join_all(th);
    std::cerr.clear();
    for (auto& j : job) {
        judge(j.a, c, j.l, j.init, j.bounded, j.r, 0, "concurrent");
        SIM_CHECK(hz::same_bits(j.r.res, j.alone.res) && j.r.x.size() == j.alone.x.size(), "interference", "%s among others returns %s after %zu evaluations, alone %s after %zu", algo_name[j.a], hz::str(j.r.res).c_str(), j.r.x.size(), hz::str(j.alone.res).c_str(), j.alone.x.size());
        sim::ev("%s %zu", algo_name[j.a], j.r.x.size());
    }
    sim::nontrivial();
}

// ------------------------------------------------------------------ C20, constraints
namespace {
    struct TightParams {
        struct opt_nloptgrad {
            BO_PARAM(int, iterations, 500);
            BO_PARAM(double, fun_tolerance, 1e-12);
            BO_PARAM(double, xrel_tolerance, 1e-10);
        };
        struct opt_nloptnograd : opt_nloptgrad {
        };
    };
    // a half space or a plane; counts its evaluations
    struct Plane {
        VectorXd a;
        double b;
        int calls = 0, wrong = 0, throw_at = -1;
    };
    struct PlaneFun {
        Plane* p;
        opt::eval_t operator()(const VectorXd& x, bool g) const
        {
            if (p->calls++ == p->throw_at)
                throw Boom();
            p->wrong += x.size() != p->a.size();
            double v = p->a.dot(x) - p->b;
            return g ? opt::eval_t(v, p->a) : opt::no_grad(v);
        }
    };
    struct Bowl {
        VectorXd c;
        double scale;
        int* calls;
        opt::eval_t operator()(const VectorXd& x, bool g) const
        {
            ++*calls;
            double v = -scale * (x - c).squaredNorm();
            return g ? opt::eval_t(v, VectorXd(-2 * scale * (x - c))) : opt::no_grad(v);
        }
    };
    template <typename Opt>
    void constrained(bool may_be_equal, bool exact, const char* nm)
    {
        Opt o;
        int uses = sim::irange(1, 2);
        for (int u = 0; u < uses; u++) {
            bool eq = may_be_equal && sim::flip(0.5), bounded = sim::flip(0.4);
            int d = sim::irange(eq ? 2 : 1, 3), calls = 0;
            Plane pl;
            pl.a = VectorXd(d);
            VectorXd inside(d), c(d);
            for (int i = 0; i < d; i++) {
                pl.a[i] = (0.2 + 0.8 * hz::coord()) * (sim::flip(0.5) ? 1 : -1);
                inside[i] = 0.1 + 0.8 * hz::coord();
                c[i] = hz::coord();
            }
            pl.b = pl.a.dot(inside);
            static const double S[] = {1, 0.5, 4};
            Bowl f{c, S[sim::draw(3)], &calls};
            PlaneFun h{&pl};
            static const double TOL[] = {1e-8, 1e-4};
            double tol = TOL[sim::draw(2)];
            uint32_t p = 0;
            {
                sim::Arm arm({sim::F_EVAL_THROW});
                if (sim::fault(sim::F_EVAL_THROW, &p))
                    pl.throw_at = p % 6;
            }
            VectorXd init = hz::point(d);
            bool asked = true;
            if (u == 0 && sim::flip(0.15)) {
                // not initialized: the constraint is refused
                if (eq)
                    o.add_equality_constraint(h, tol);
                else
                    o.add_inequality_constraint(h, tol);
                asked = false;
            }
            else {
                o.initialize(d);
                if (eq)
                    o.add_equality_constraint(h, tol);
                else
                    o.add_inequality_constraint(h, tol);
            }
            VectorXd r;
            bool threw = false;
            try {
                r = o(f, init, bounded);
            }
            catch (Boom&) {
                threw = true;
            }
            int seen = calls;
            sim::ev("%s d=%d eq=%d bounded=%d evaluations=%d constraint=%d", nm, d, eq, bounded, seen, pl.calls);
            SIM_CHECK(pl.wrong == 0, "constraint", "%s: the constraint is evaluated in another dimension", nm);
            if (!asked) {
                SIM_CHECK(pl.calls == 0 && !threw, "constraint", "%s: a constraint refused before initialize() is evaluated", nm);
                continue;
            }
            SIM_CHECK(pl.calls > 0, "constraint", "%s: the constraint is never evaluated", nm);
            if (pl.throw_at >= 0 && pl.calls > pl.throw_at) {
                SIM_CHECK(threw || pl.calls == pl.throw_at + 1, "constraint", "%s: the search goes on after the constraint has thrown", nm);
                continue;
            }
            if (!exact)
                continue;
            SIM_CHECK(!threw && r.size() == d, "constraint", "%s: no result", nm);
            double v = pl.a.dot(r) - pl.b;
            SIM_CHECK((eq ? std::fabs(v) : v) <= tol + 1e-6, "constraint", "%s: the %s constraint is violated by %g (tolerance %g)", nm, eq ? "equality" : "inequality", v, tol);
            VectorXd w = c;
            if (eq || pl.a.dot(c) > pl.b)
                w = c - pl.a * ((pl.a.dot(c) - pl.b) / pl.a.squaredNorm());
            if (!bounded || ((w.array() >= 0).all() && (w.array() <= 1).all()))
                SIM_CHECK((w - r).norm() < 1e-3 + 20 * tol, "constraint", "%s: returns %s, the optimum under the constraint is %s", nm, hz::str(r).c_str(), hz::str(w).c_str());
            if (bounded)
                SIM_CHECK((r.array() >= 0).all() && (r.array() <= 1).all(), "out-of-bounds", "%s with a constraint: the result is %s", nm, hz::str(r).c_str());
        }
        sim::nontrivial();
    }
}
SIM_SCENARIO(C20, constrained_search, 1)
{
    std::cerr.setstate(std::ios::failbit);
    switch (sim::draw(4)) {
    case 0: constrained<opt::NLOptGrad<TightParams, nlopt::LD_SLSQP>>(true, true, "SLSQP"); break;
    case 1: constrained<opt::NLOptNoGrad<TightParams, nlopt::LN_COBYLA>>(true, false, "COBYLA"); break;
    case 2: constrained<opt::NLOptGrad<TightParams, nlopt::LD_MMA>>(false, false, "MMA"); break;
    case 3: constrained<opt::NLOptGrad<TightParams, nlopt::LD_CCSAQ>>(false, false, "CCSAQ"); break;
    }
    std::cerr.clear();
}
