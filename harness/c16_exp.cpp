// C16: constrained Bayesian optimization (experimental CBOptimizer and ECI).
// C17: Pareto sets under every schedule.
// C18: the sparsified Gaussian process under every schedule.
#include "common.h"
#include <algorithm>
#include <limbo/limbo.hpp>
#include <memory>
#include <stdexcept>
#ifdef PART_C16
#include <limbo/experimental/acqui/eci.hpp>
#include <limbo/experimental/bayes_opt/cboptimizer.hpp>
#endif
#ifdef PART_C17
#include <limbo/experimental/tools/pareto.hpp>
#include <limbo/experimental/bayes_opt/bo_multi.hpp>
#include <limbo/experimental/stat/pareto_front.hpp>
#endif
#ifdef PART_C18
#include <limbo/model/sparsified_gp.hpp>
#endif

using namespace limbo;

namespace {
    struct Params {
        struct bayes_opt_bobase {
            static bool stats_enabled();
            BO_PARAM(bool, bounded, true);
        };
        struct bayes_opt_cboptimizer {
            BO_DYN_PARAM(int, hp_period);
            BO_PARAM(bool, bounded, true);
        };
        struct init_randomsampling {
            BO_DYN_PARAM(int, samples);
        };
        struct stop_maxiterations {
            BO_DYN_PARAM(int, iterations);
        };
        struct kernel : public defaults::kernel {
            BO_PARAM(double, noise, 0.01);
        };
        struct kernel_exp : public defaults::kernel_exp {
        };
        struct kernel_squared_exp_ard : public defaults::kernel_squared_exp_ard {
        };
        struct kernel_maternfivehalves : public defaults::kernel_maternfivehalves {
            BO_PARAM(double, l, 0.4);
        };
        struct mean_constant {
            BO_PARAM(double, constant, 0.25);
        };
        struct acqui_eci : public limbo::defaults::acqui_ei {
        };
        struct acqui_ucb : public limbo::defaults::acqui_ucb {
        };
        struct opt_gridsearch {
            BO_PARAM(int, bins, 4);
        };
        struct opt_rprop : public defaults::opt_rprop {
            BO_PARAM(int, iterations, 2);
        };
        struct opt_nloptnograd : public defaults::opt_nloptnograd {
            BO_PARAM(int, iterations, 12);
        };
        struct opt_parallelrepeater : public defaults::opt_parallelrepeater {
        };
        struct model_sparse_gp {
            static int max_points();
        };
    };
    BO_DECLARE_DYN_PARAM(int, Params::bayes_opt_cboptimizer, hp_period);
    BO_DECLARE_DYN_PARAM(int, Params::init_randomsampling, samples);
    BO_DECLARE_DYN_PARAM(int, Params::stop_maxiterations, iterations);
    bool g_stats = false;
    bool Params::bayes_opt_bobase::stats_enabled() { return g_stats; }
    int g_max_points = 4;
    int Params::model_sparse_gp::max_points() { return g_max_points; }

    // the posterior of the data, with the given prior mean
    template <typename Model>
    void posterior_check(const Model& m, const VVec& xs, const VVec& ys, const VectorXd& prior, const char* what, const char* when)
    {
        SIM_CHECK((size_t)m.nb_samples() == xs.size(), "model-data", "%s: the %s model has %d samples, %zu are known", when, what, m.nb_samples(), xs.size());
        if (xs.empty())
            return;
        SIM_CHECK(hz::same_bits(m.samples(), xs), "model-data", "%s: the samples of the %s model are not those of the database", when, what);
        MatrixXd Y = hz::rows(ys);
        SIM_CHECK(hz::same_bits(MatrixXd(m.observations_matrix()), Y), "model-data", "%s: the observations of the %s model are not those of the database", when, what);
        hz::Posterior ref(m.kernel_function(), xs, MatrixXd(Y.rowwise() - prior.transpose()));
        for (int i = 0; i < 2; i++) {
            VectorXd v = VectorXd::Constant(xs[0].size(), 0.13 + 0.6 * i);
            VectorXd mu = ref.mu(m.kernel_function(), xs, v, prior);
            SIM_CHECK(hz::close(mu, m.mu(v), 1e-5, 1), "model-prediction", "%s: the %s model predicts %s, its data say %s", when, what, hz::str(m.mu(v)).c_str(), hz::str(mu).c_str());
            double var = ref.var(m.kernel_function(), xs, v);
            SIM_CHECK(hz::close(var, m.sigma(v), 1e-4, 1), "model-prediction", "%s: the %s model has variance %.10g, its data say %.10g", when, what, m.sigma(v), var);
        }
    }
}

#ifdef PART_C16
// ------------------------------------------------------------------ C16
namespace {
    struct Boom : std::exception {
    };
    struct Log {
        VVec x, y;
        std::vector<int> bad;
        size_t base = 0; // evaluations before the last reset
        bool boom = false;
        int nobj = 1, ncon = 0;
        VVec proposed;
        struct Acq {
            int iteration;
            size_t n;
        };
        std::vector<Acq> acq;
        std::vector<int> hpo[2]; // number of acquisitions at each training of the objective, of the constraints
        std::vector<int> stat_it;
    };
    thread_local Log* tl = nullptr;

    VVec part(const VVec& y, int from, int n)
    {
        VVec r;
        for (auto& v : y)
            r.push_back(v.segment(from, n));
        return r;
    }
    VectorXd mean_of(const VVec& y)
    {
        return hz::rows(y).colwise().mean();
    }

    template <int DI, int DO, int NC>
    struct Fun {
        BO_PARAM(size_t, dim_in, DI);
        BO_PARAM(size_t, dim_out, DO);
        BO_PARAM(size_t, nb_constraints, NC);
        double a, b, c;
        VectorXd pure(const VectorXd& x) const
        {
            VectorXd r(DO + NC);
            for (int i = 0; i < DO; i++)
                r[i] = std::sin(5 * a * x.sum() + i) - (i + 1) * b * (x.array() - 0.4).square().sum();
            for (int i = 0; i < NC; i++)
                r[DO + i] = std::sin(9 * (i + 1) * x.sum() + 6 * c) > 0.3 ? 1 : 0;
            return r;
        }
        VectorXd operator()(const VectorXd& x) const
        {
            sim::yield();
            SIM_CHECK(x.size() == DI && (x.array() >= 0).all() && (x.array() <= 1).all(), "bad-point", "the function is evaluated at %s", hz::str(x).c_str());
            if (!tl)
                return pure(x);
            if (sim::fault(sim::F_EVAL_THROW)) {
                tl->boom = true;
                throw Boom();
            }
            VectorXd r = pure(x);
            bool bad = false;
            uint32_t p = 0;
            if (sim::fault(sim::F_EVAL_NAN, &p))
                r[p % (DO + NC)] = std::nan(""), bad = true;
            else if (sim::fault(sim::F_EVAL_INF, &p))
                r[p % (DO + NC)] = p & 64 ? INFINITY : -INFINITY, bad = true;
            sim::Quiet q;
            tl->x.push_back(x), tl->y.push_back(r), tl->bad.push_back(bad);
            return r;
        }
    };
    struct Last {
        using result_type = double;
        double operator()(const VectorXd& v) const { return v[v.size() - 1]; }
    };

    template <int WHO>
    struct SpyHPO {
        template <typename G>
        void operator()(G& gp)
        {
            if (tl) {
                sim::Quiet q;
                tl->hpo[WHO].push_back((int)tl->acq.size());
            }
            inner(gp);
        }
        model::gp::KernelLFOpt<Params, opt::Rprop<Params>> inner;
    };
    using Obj = model::GP<Params, kernel::SquaredExpARD<Params>, mean::Data<Params>, SpyHPO<0>>;
    using Con = model::GP<Params, kernel::Exp<Params>, mean::Constant<Params>, SpyHPO<1>>;

    // sees both models at each iteration
    struct SpyECI {
        experimental::acqui::ECI<Params, Obj, Con> in;
        const Obj& m;
        bool plain;
        SpyECI(const Obj& o, const Con& c, int it) : in(o, c, it), m(o), plain(false)
        {
            if (!tl)
                return;
            sim::Quiet q;
            plain = tl->ncon == 0;
            VVec xs, ys;
            for (size_t i = tl->base; i < tl->x.size(); i++)
                if (!tl->bad[i])
                    xs.push_back(tl->x[i]), ys.push_back(tl->y[i]);
            tl->acq.push_back({it, (size_t)o.nb_samples()});
            if (xs.empty())
                return;
            VVec obj = part(ys, 0, tl->nobj);
            posterior_check(o, xs, obj, mean_of(obj), "objective", "at an iteration");
            if (tl->ncon)
                posterior_check(c, xs, part(ys, tl->nobj, tl->ncon), VectorXd::Constant(tl->ncon, 0.25), "constraint", "at an iteration");
        }
        template <typename A>
        opt::eval_t operator()(const VectorXd& v, const A& a, bool g)
        {
            if (plain) // (there is no constraint model to ask)
                return opt::no_grad(a(m.mu(v)) + std::sqrt(m.sigma(v)));
            return in(v, FirstElem(), g);
        }
    };
    struct SpyOpt {
        template <typename F>
        VectorXd operator()(const F& f, const VectorXd& start, bool bounded)
        {
            VectorXd r = opt::GridSearch<Params>()(f, start, bounded);
            SIM_CHECK(bounded, "loop", "the acquisition is optimized without bounds");
            if (tl) {
                sim::Quiet q;
                tl->proposed.push_back(r);
            }
            return r;
        }
    };
    struct SpyStat {
        template <typename BO, typename A>
        void operator()(const BO& bo, const A&)
        {
            if (!tl)
                return;
            sim::Quiet q;
            tl->stat_it.push_back(bo.current_iteration());
        }
    };
    using CBO = experimental::bayes_opt::CBOptimizer<Params, modelfun<Obj>, acquifun<SpyECI>, acquiopt<SpyOpt>, statsfun<SpyStat>, initfun<init::RandomSampling<Params>>, experimental::constraint_modelfun<Con>>;
    using CBO6 = experimental::bayes_opt::CBOptimizer<Params, initfun<init::RandomSampling<Params>>, modelfun<Obj>, acquifun<SpyECI>, statsfun<SpyStat>, acquiopt<SpyOpt>, stopcrit<boost::fusion::vector<stop::MaxIterations<Params>>>, experimental::constraint_modelfun<Con>>;

    template <typename BO, typename A>
    void best_is(const BO& bo, const VVec& xs, const VVec& ys, int nobj, int ncon, const A& afun, const char* when)
    {
        bool any = false;
        double best = -INFINITY;
        for (int pass = 0; pass < 2 && !any; pass++) // if nothing is feasible, the best of all
            for (auto& y : ys) {
                bool ok = true;
                for (int i = 0; i < ncon; i++)
                    ok = ok && y[nobj + i] > 0;
                if (ok || pass)
                    any = true, best = std::max(best, (double)afun(VectorXd(y.head(nobj))));
            }
        VectorXd o = bo.best_observation(afun), s = bo.best_sample(afun);
        SIM_CHECK(o.size() == nobj && afun(o) == best, "best", "%s: best_observation is %s, the best feasible value is %.17g", when, hz::str(o).c_str(), best);
        bool ok = false, feasible = false, some = false;
        for (size_t i = 0; i < xs.size(); i++) {
            bool f = true;
            for (int k = 0; k < ncon; k++)
                f = f && ys[i][nobj + k] > 0;
            some = some || f;
            if (hz::same_bits(xs[i], s) && hz::same_bits(VectorXd(ys[i].head(nobj)), o))
                ok = true, feasible = feasible || f;
        }
        SIM_CHECK(ok, "best", "%s: best_sample %s is not where best_observation %s was measured", when, hz::str(s).c_str(), hz::str(o).c_str());
        SIM_CHECK(feasible || !some, "best", "%s: the best sample %s violates a constraint although others do not", when, hz::str(s).c_str());
    }

    template <typename BO, typename F, typename A>
    void cbo_history(const F& f, const A& afun)
    {
        const int DO = F::dim_out(), NC = F::nb_constraints();
        int init_n = sim::irange(0, 4), iters = sim::irange(0, 4);
        static const int H[] = {-1, 1, 2, 3, 0};
        int hp = H[sim::draw(5)];
        Params::init_randomsampling::set_samples(init_n);
        Params::stop_maxiterations::set_iterations(iters);
        Params::bayes_opt_cboptimizer::set_hp_period(hp);
        Log log;
        log.nobj = DO, log.ncon = NC;
        tl = &log;
        std::unique_ptr<BO> bo(new BO());
        VVec dbx, dby;
        int calls = sim::irange(1, 3), failures = 0;
        for (int k = 0; k <= calls; k++) {
            bool last = k == calls; // the recovery: without reset and without faults
            bool reset = !last && sim::flip(k ? 0.3 : 0.7);
            if (!last && sim::flip(0.3)) {
                VectorXd x = hz::point(F::dim_in()), y = f.pure(x);
                bo->add_new_sample(x, y);
                log.x.push_back(x), log.y.push_back(y), log.bad.push_back(0);
                dbx.push_back(x), dby.push_back(y);
            }
            if (reset) {
                dbx.clear(), dby.clear();
                log.base = log.x.size();
            }
            size_t e0 = log.x.size(), a0 = log.acq.size(), p0 = log.proposed.size(), s0 = log.stat_it.size();
            size_t h0[2] = {log.hpo[0].size(), log.hpo[1].size()};
            bool designed = reset || bo->total_iterations() == 0;
            log.boom = false;
            int what = 0;
            try {
                if (last)
                    bo->optimize(f, afun, false);
                else {
                    sim::Arm arm({sim::F_EVAL_THROW, sim::F_EVAL_NAN, sim::F_EVAL_INF});
                    bo->optimize(f, afun, reset);
                }
            }
            catch (Boom&) {
                what = 1;
            }
            catch (EvaluationError&) {
                what = 2;
            }
            sim::Quiet q;
            bool bad = false;
            for (size_t i = e0; i < log.x.size(); i++)
                if (log.bad[i])
                    bad = true;
                else
                    dbx.push_back(log.x[i]), dby.push_back(log.y[i]);
            failures += what != 0;
            SIM_CHECK(log.boom ? what == 1 : bad ? what == 2 : what == 0, "exception", "call %d: outcome %d, the function threw: %d, bad observation: %d", k, what, (int)log.boom, (int)bad);
            SIM_CHECK(hz::same_bits(bo->samples(), dbx) && hz::same_bits(bo->observations(), dby), "database", "call %d (reset=%d): the database has %zu samples and %zu observations, not the %zu successful evaluations", k, reset, bo->samples().size(), bo->observations().size(), dbx.size());
            for (size_t i = 0; i < log.acq.size() - a0; i++)
                SIM_CHECK(log.acq[a0 + i].iteration == (int)i, "loop", "the acquisition of iteration %zu is built for iteration %d", i, log.acq[a0 + i].iteration);
            if (!what) {
                SIM_CHECK(log.x.size() - e0 == (size_t)(designed ? init_n : 0) + iters, "budget", "call %d: %zu evaluations instead of %d + %d", k, log.x.size() - e0, designed ? init_n : 0, iters);
                SIM_CHECK(bo->current_iteration() == iters, "counters", "call %d: iteration %d after %d iterations", k, bo->current_iteration(), iters);
                SIM_CHECK(log.acq.size() - a0 == (size_t)iters && log.proposed.size() - p0 == (size_t)iters && log.stat_it.size() - s0 == (size_t)iters, "loop", "call %d: %zu acquisitions, %zu searches and %zu statistics in %d iterations", k, log.acq.size() - a0, log.proposed.size() - p0, log.stat_it.size() - s0, iters);
                for (int i = 0; i < iters; i++) {
                    SIM_CHECK(hz::same_bits(log.proposed[p0 + i], dbx[dbx.size() - iters + i]), "loop", "call %d: the acquisition search returned another point than the one evaluated", k);
                    SIM_CHECK(log.stat_it[s0 + i] == i, "statistics", "call %d: the statistics of iteration %d see iteration %d", k, i, log.stat_it[s0 + i]);
                }
                std::vector<int> want;
                for (int i = 0; i < iters; i++)
                    if (hp > 0 && (i + 1) % hp == 0)
                        want.push_back((int)a0 + i + 1);
                for (int w = 0; w < (NC ? 2 : 1); w++) {
                    std::vector<int> got(log.hpo[w].begin() + h0[w], log.hpo[w].end());
                    SIM_CHECK(got == want, "hp-period", "call %d: the %s model is trained %zu times in %d iterations with a period of %d", k, w ? "constraint" : "objective", got.size(), iters, hp);
                }
                VVec obj = part(dby, 0, DO);
                if (!dbx.empty())
                    posterior_check(bo->model(), dbx, obj, mean_of(obj), "objective", "after optimize");
                if (!dbx.empty())
                    best_is(*bo, dbx, dby, DO, NC, afun, "after optimize");
            }
            sim::ev("call %d reset=%d outcome=%d database=%zu", k, reset, what, dbx.size());
            for (auto& y : dby)
                sim::evd(y[0]);
        }
        tl = nullptr;
        if (failures)
            sim::probe("optimized after a failure");
        sim::nontrivial();
    }
    template <typename F>
    F fun()
    {
        F f;
        f.a = hz::coord(), f.b = hz::coord(), f.c = hz::coord();
        return f;
    }
    struct Result {
        VVec x, y;
        VectorXd best, mu;
    };
    template <typename F>
    void one(const F& f, Result* r)
    {
        CBO bo;
        bo.optimize(f);
        bo.optimize(f, FirstElem(), false);
        r->x = bo.samples(), r->y = bo.observations();
        r->best = bo.best_sample();
        r->mu = bo.model().mu(VectorXd::Constant(F::dim_in(), 0.31));
    }
    void dispatch(int kind, double a, double b, double c, Result* r)
    {
        Fun<1, 1, 1> f1{a, b, c};
        Fun<2, 1, 2> f2{a, b, c};
        if (kind == 0)
            one(f1, r);
        else
            one(f2, r);
    }
}
SIM_SCENARIO(C16, constrained, 5)
{
    switch (sim::draw(6)) {
    case 5: cbo_history<CBO>(fun<Fun<1, 1, 3>>(), FirstElem()); break;
    case 0: cbo_history<CBO>(fun<Fun<1, 1, 1>>(), FirstElem()); break;
    case 1: cbo_history<CBO6>(fun<Fun<2, 1, 2>>(), FirstElem()); break;
    case 2: cbo_history<CBO>(fun<Fun<1, 2, 1>>(), Last()); break;
    case 3: cbo_history<CBO6>(fun<Fun<1, 1, 0>>(), FirstElem()); break;
    case 4: cbo_history<CBO>(fun<Fun<2, 2, 2>>(), Last()); break;
    }
}
SIM_SCENARIO(C16, constrained_concurrent, 1)
{
    Params::init_randomsampling::set_samples(sim::irange(1, 3));
    Params::stop_maxiterations::set_iterations(sim::irange(1, 3));
    Params::bayes_opt_cboptimizer::set_hp_period(sim::irange(-1, 2));
    int n = 2;
    std::vector<int> kind(n);
    std::vector<double> a(n), b(n), c(n);
    std::vector<Result> alone(n), got(n);
    for (int i = 0; i < n; i++)
        kind[i] = sim::draw(2), a[i] = hz::coord(), b[i] = hz::coord(), c[i] = hz::coord();
    auto label = [](int i) { return "optimization" + std::to_string(i); };
    for (int i = 0; i < n; i++)
        sim::join(sim::spawn(label(i).c_str(), [&, i] { sim::Quiet q; dispatch(kind[i], a[i], b[i], c[i], &alone[i]); }));
    std::vector<int> th;
    for (int i = 0; i < n; i++)
        th.push_back(sim::spawn(label(i).c_str(), [&, i] { dispatch(kind[i], a[i], b[i], c[i], &got[i]); }));
    sim::join_all(th);
    for (int i = 0; i < n; i++) {
        SIM_CHECK(hz::same_bits(alone[i].x, got[i].x) && hz::same_bits(alone[i].y, got[i].y), "interference", "optimization %d evaluates other points when another runs", i);
        SIM_CHECK(hz::same_bits(alone[i].best, got[i].best) && hz::same_bits(alone[i].mu, got[i].mu), "interference", "optimization %d ends with another result when another runs", i);
    }
    sim::nontrivial();
}
#endif

#ifdef PART_C17
// ------------------------------------------------------------------ C17
namespace {
    using Point = std::tuple<VectorXd, VectorXd, VectorXd>;
    using Set = std::vector<Point>;
    Set draw_set(int nobj, int n)
    {
        Set s;
        int style = sim::draw(3); // few different values, many, all of them on a line
        for (int i = 0; i < n; i++) {
            VectorXd o(nobj);
            for (int k = 0; k < nobj; k++)
                o[k] = style == 0 ? (double)sim::irange(0, 2) : style == 1 ? hz::value() : 0;
            if (style == 2) {
                double t = sim::irange(0, 4);
                for (int k = 0; k < nobj; k++)
                    o[k] = k % 2 ? -t : t;
            }
            if (sim::flip(0.05))
                o[sim::draw(nobj)] = sim::flip(0.5) ? INFINITY : -INFINITY;
            if (sim::flip(0.05))
                o[sim::draw(nobj)] = -0.0;
            if (i && sim::flip(0.15)) { // nearly another one
                o = std::get<1>(s[sim::draw(i)]);
                int k = sim::draw(nobj);
                o[k] = std::nextafter(o[k], sim::flip(0.5) ? 1e9 : -1e9);
            }
            s.push_back(std::make_tuple(hz::vec(i), o, hz::vec(i + 0.5)));
        }
        return s;
    }
    bool dominates(const VectorXd& a, const VectorXd& b)
    {
        bool better = false;
        for (int i = 0; i < a.size(); i++) {
            if (a[i] < b[i])
                return false;
            better = better || a[i] > b[i];
        }
        return better;
    }
    int lex(const VectorXd& a, const VectorXd& b)
    {
        for (int i = 0; i < a.size(); i++)
            if (a[i] != b[i])
                return a[i] > b[i] ? -1 : 1;
        return 0;
    }
    // which elements of s are in the front (indices, by the payload)
    void front_check(const Set& s, const Set& f, const char* who)
    {
        std::vector<int> seen(s.size(), 0);
        for (size_t i = 0; i < f.size(); i++) {
            int k = (int)std::get<0>(f[i])[0];
            SIM_CHECK(std::get<0>(f[i]).size() == 1 && k >= 0 && k < (int)s.size(), "pareto", "%s: the front has an element that is not in the data", who);
            SIM_CHECK(hz::same_bits(std::get<0>(s[k]), std::get<0>(f[i])) && hz::same_bits(std::get<1>(s[k]), std::get<1>(f[i])) && hz::same_bits(std::get<2>(s[k]), std::get<2>(f[i])), "pareto", "%s: an element of the front is not the one of the data", who);
            SIM_CHECK(!seen[k]++, "pareto", "%s: an element is twice in the front", who);
            SIM_CHECK(i == 0 || lex(std::get<1>(f[i - 1]), std::get<1>(f[i])) <= 0, "pareto", "%s: the front is not in lexicographic order", who);
        }
        for (size_t i = 0; i < s.size(); i++) {
            bool dom = false;
            for (auto& p : s)
                dom = dom || dominates(std::get<1>(p), std::get<1>(s[i]));
            SIM_CHECK(!dom == (seen[i] == 1), "pareto", "%s: element %zu %s is %sdominated and %sin the front", who, i, hz::str(std::get<1>(s[i])).c_str(), dom ? "" : "not ", seen[i] ? "" : "not ");
        }
    }
    template <int DO>
    struct Fun2 {
        BO_PARAM(size_t, dim_in, 1);
        BO_PARAM(size_t, dim_out, DO);
        Set s;
        mutable int k = 0;
        VectorXd operator()(const VectorXd&) const { return std::get<1>(s[k++ % s.size()]); }
    };
    struct Never {
        template <typename BO, typename A>
        bool operator()(const BO&, const A&) { return true; }
    };
    using Model = model::GP<Params, kernel::SquaredExpARD<Params>, mean::Data<Params>, model::gp::NoLFOpt<Params>>;
    struct Multi : experimental::bayes_opt::BoMulti<Params, modelfun<Model>, statsfun<boost::fusion::vector<experimental::stat::ParetoFront<Params>>>, initfun<init::NoInit<Params>>, stopcrit<boost::fusion::vector<Never>>> {
        void stats() { this->_update_stats(*this, FirstElem()); }
        void at(int i) { this->_current_iteration = i; }
        void models_now() { this->_update_models(); }
    };
    void one_front(const Set& s, const char* who)
    {
        Set copy = s;
        Set f = pareto::pareto_set<1>(s);
        sim::Quiet q;
        front_check(s, f, who);
        for (size_t i = 0; i < s.size(); i++)
            SIM_CHECK(hz::same_bits(std::get<1>(copy[i]), std::get<1>(s[i])), "pareto", "the data changed");
        sim::evu(f.size());
    }
    // the database of an optimization, its front and the statistics
    void database_front(int nobj, const std::string& who)
    {
        Multi bo;
        int n = sim::irange(1, 7);
        Set s, all = draw_set(nobj, n);
        std::vector<int> checks;
        for (int i = 0; i < n; i++)
            checks.push_back(sim::flip(0.4) || i == n - 1);
        for (int i = 0; i < n; i++) {
            for (int k = 0; k < nobj; k++)
                if (std::isinf(std::get<1>(all[i])[k]))
                    std::get<1>(all[i])[k] = 9;
            std::get<2>(all[i]) = VectorXd::Zero(nobj);
            bo.add_new_sample(std::get<0>(all[i]), std::get<1>(all[i]));
            s.push_back(all[i]);
            if (!checks[i])
                continue;
            bo.update_pareto_data();
            bo.at(i);
            bo.stats();
            sim::Quiet q;
            front_check(s, bo.pareto_data(), who.c_str());
            std::string text, name = bo.res_dir() + "/pareto_front_" + std::to_string(i) + ".dat";
            SIM_CHECK(sim::disk_read(name, text), "statistics", "%s does not exist", name.c_str());
            // one line per element: the point and its objectives
            std::stringstream in(text);
            std::string line;
            size_t rows = 0;
            for (auto& p : bo.pareto_data()) {
                SIM_CHECK((bool)std::getline(in, line), "statistics", "%s has %zu lines instead of %zu", name.c_str(), rows, bo.pareto_data().size());
                std::stringstream ls(line);
                std::vector<double> v;
                double d;
                while (ls >> d)
                    v.push_back(d);
                SIM_CHECK((int)v.size() == 1 + nobj, "statistics", "%s: %zu numbers on a line", name.c_str(), v.size());
                for (int k = 0; k < nobj; k++)
                    SIM_CHECK(std::fabs(v[1 + k] - std::get<1>(p)[k]) <= 1e-4 * (1 + std::fabs(v[1 + k])), "statistics", "%s: line %zu is not element %zu of the front", name.c_str(), rows, rows);
                rows++;
            }
            SIM_CHECK(!std::getline(in, line), "statistics", "%s has more lines than the front", name.c_str());
        }
    }
}
SIM_SCENARIO(C17, fronts, 3)
{
    int nobj = sim::irange(2, 4), n = sim::irange(1, 9);
    one_front(draw_set(nobj, n), "a lone front");
    if (sim::flip(0.4)) {
        std::vector<int> th;
        std::vector<Set> sets;
        int k = sim::irange(1, 2);
        for (int i = 0; i <= k; i++)
            sets.push_back(draw_set(sim::irange(2, 3), sim::irange(1, 6)));
        for (int i = 0; i < k; i++)
            th.push_back(sim::spawn(("client" + std::to_string(i)).c_str(), [&, i] { one_front(sets[i], "a concurrent front"); }));
        one_front(sets[k], "a concurrent front");
        sim::join_all(th);
    }
    sim::nontrivial();
}
SIM_SCENARIO(C17, database, 2)
{
    g_stats = true;
    database_front(sim::irange(2, 3), "the database");
    sim::nontrivial();
}
#endif

#ifdef PART_C18
// ------------------------------------------------------------------ C18
namespace {
    template <typename K, typename M>
    using SGP = model::SparsifiedGP<Params, K, M, model::gp::NoLFOpt<Params>>;
    template <typename K, typename M>
    using FGP = model::GP<Params, K, M, model::gp::NoLFOpt<Params>>;

    // the sets of kept indices the rule allows (several when densities are equal)
    void allowed(const VVec& x, const std::vector<int>& keep, size_t max, std::vector<std::vector<int>>& out)
    {
        if (keep.size() <= max) {
            if (std::find(out.begin(), out.end(), keep) == out.end())
                out.push_back(keep);
            return;
        }
        if (out.size() > 64)
            return;
        int D = (int)x[0].size(), n = (int)keep.size();
        std::vector<double> dens(n);
        for (int i = 0; i < n; i++) {
            std::vector<double> d;
            for (int j = 0; j < n; j++)
                if (j != i)
                    d.push_back((x[keep[i]] - x[keep[j]]).norm());
            std::sort(d.begin(), d.end());
            for (int j = 0; j < std::min(D, n - 1); j++)
                dens[i] += d[j];
        }
        double m = *std::min_element(dens.begin(), dens.end());
        for (int i = 0; i < n; i++)
            if (dens[i] <= m + 1e-12 * (1 + m)) {
                std::vector<int> k = keep;
                k.erase(k.begin() + i);
                allowed(x, k, max, out);
            }
    }
    template <typename K, typename M>
    struct Sparse {
        struct Op {
            int kind; // 0: batch, 1: one more
            VVec x, y;
        };
        static void apply(SGP<K, M>& g, const Op& o)
        {
            if (o.kind == 0)
                g.compute(o.x, o.y);
            else
                g.add_sample(o.x[0], o.y[0]);
        }
        static std::vector<Op> history(int din, int dout, bool grid)
        {
            std::vector<Op> h;
            int n = sim::irange(1, 3);
            for (int i = 0; i < n; i++) {
                Op o;
                o.kind = sim::flip(0.5) ? 1 : 0;
                int m = o.kind == 0 ? sim::irange(1, g_max_points + 4) : 1;
                for (int k = 0; k < m; k++) {
                    VectorXd p = hz::point(din);
                    if (grid)
                        for (int c = 0; c < din; c++)
                            p[c] = sim::irange(0, 8) / 8.0;
                    o.x.push_back(p), o.y.push_back(hz::obs(dout));
                }
                h.push_back(o);
            }
            return h;
        }
        static void check(const SGP<K, M>& g, const SGP<K, M>& alone, const VVec& px, const VVec& py, const char* who)
        {
            sim::Quiet q;
            SIM_CHECK(g.nb_samples() <= g_max_points || (int)px.size() <= g_max_points, "size", "%s: the model keeps %d points, the maximum is %d", who, g.nb_samples(), g_max_points);
            SIM_CHECK(hz::same_bits(g.samples(), alone.samples()) && hz::same_bits(MatrixXd(g.observations_matrix()), MatrixXd(alone.observations_matrix())), "schedule", "%s: the points kept depend on the scheduling", who);
            // the kept pairs are pairs of the data, those that the rule says
            std::vector<int> idx(px.size());
            for (size_t i = 0; i < idx.size(); i++)
                idx[i] = (int)i;
            std::vector<std::vector<int>> sets;
            allowed(px, idx, g_max_points, sets);
            bool ok = sets.size() > 64;
            for (auto& s : sets) {
                bool same = (int)s.size() == g.nb_samples();
                for (size_t i = 0; same && i < s.size(); i++)
                    same = hz::same_bits(g.samples()[i], px[s[i]]) && hz::same_bits(VectorXd(g.observations_matrix().row(i)), py[s[i]]);
                ok = ok || same;
            }
            SIM_CHECK(ok, "density", "%s: of %zu points, the model does not keep those that remain when the densest ones are removed", who, px.size());
            FGP<K, M> full(g.dim_in(), g.dim_out());
            full.kernel_function().set_h_params(g.kernel_function().h_params());
            VVec x = g.samples(), y;
            for (int i = 0; i < g.nb_samples(); i++)
                y.push_back(g.observations_matrix().row(i));
            full.compute(x, y);
            for (int i = 0; i < 2; i++) {
                VectorXd v = VectorXd::Constant(g.dim_in(), 0.2 + 0.5 * i);
                SIM_CHECK(hz::close(full.mu(v), g.mu(v), 1e-6) && hz::close(full.sigma(v), g.sigma(v), 1e-6), "prediction", "%s: the sparsified model predicts %s, a model of the points it keeps %s", who, hz::str(g.mu(v)).c_str(), hz::str(full.mu(v)).c_str());
            }
            sim::evu(g.nb_samples());
            sim::evd(g.mu(VectorXd::Constant(g.dim_in(), 0.2))[0]);
        }
        static void client(const std::vector<Op>& h, int din, int dout, const char* who)
        {
            SGP<K, M> g(din, dout), alone(din, dout);
            VVec px, py; // what the model was given, after what it kept
            for (auto& o : h) {
                if (o.kind == 0)
                    px = o.x, py = o.y;
                else {
                    px = g.nb_samples() ? g.samples() : VVec(), py.clear();
                    for (int i = 0; i < g.nb_samples(); i++)
                        py.push_back(g.observations_matrix().row(i));
                    px.push_back(o.x[0]), py.push_back(o.y[0]);
                }
                {
                    sim::Quiet q;
                    apply(alone, o);
                }
                apply(g, o);
                check(g, alone, px, py, who);
            }
        }
        static void run()
        {
            g_max_points = sim::irange(1, 6);
            int din = sim::irange(1, 3), dout = sim::irange(1, 2);
            bool grid = sim::flip(0.3);
            auto h = history(din, dout, grid);
            if (sim::flip(0.6))
                client(h, din, dout, "alone");
            else {
                auto h2 = history(din, dout, grid);
                int t = sim::spawn("client", [&] { client(h2, din, dout, "a client"); });
                client(h, din, dout, "the other client");
                sim::join(t);
            }
            sim::nontrivial();
        }
    };
}
SIM_SCENARIO(C18, sparsified, 1)
{
    switch (sim::draw(3)) {
    case 0: Sparse<kernel::SquaredExpARD<Params>, mean::Data<Params>>::run(); break;
    case 1: Sparse<kernel::MaternFiveHalves<Params>, mean::Constant<Params>>::run(); break;
    case 2: Sparse<kernel::Exp<Params>, mean::Data<Params>>::run(); break;
    }
}
#endif
