// C07: optimizations that run at the same time do not influence each other.
// C08: the database of an optimization survives failing evaluations and
//      failing allocations.
// C09: the optimization loop does what its parameters say.
#include "common.h"
#include <limbo/limbo.hpp>
#include <limbo/model/multi_gp.hpp>
#include <limbo/model/multi_gp/parallel_lf_opt.hpp>
#include <memory>
#include <stdexcept>

using namespace limbo;

namespace {
    struct Params {
        struct bayes_opt_bobase {
            BO_PARAM(bool, stats_enabled, false);
            static bool bounded();
        };
        struct bayes_opt_boptimizer {
            BO_DYN_PARAM(int, hp_period);
        };
        struct init_randomsampling {
            BO_DYN_PARAM(int, samples);
        };
        struct init_lhs {
            BO_DYN_PARAM(int, samples);
        };
        struct init_randomsamplinggrid {
            BO_DYN_PARAM(int, samples);
            BO_DYN_PARAM(int, bins);
        };
        struct init_gridsampling {
            BO_DYN_PARAM(int, bins);
        };
        struct stop_maxiterations {
            BO_DYN_PARAM(int, iterations);
        };
        struct stop_maxpredictedvalue {
            static double ratio();
        };
        struct kernel : public defaults::kernel {
            BO_PARAM(double, noise, 0.01);
        };
        struct kernel_exp : public defaults::kernel_exp {
        };
        struct kernel_squared_exp_ard : public defaults::kernel_squared_exp_ard {
        };
        struct kernel_maternfivehalves : public defaults::kernel_maternfivehalves {
            BO_PARAM(double, l, 0.4);
        };
        struct mean_constant : public defaults::mean_constant {
        };
        struct kernel_maternthreehalves : public defaults::kernel_maternthreehalves {
            BO_PARAM(double, l, 0.3);
        };
        struct model_sparse_gp {
            BO_PARAM(int, max_points, 4);
        };
        struct opt_adam : public defaults::opt_adam {
            BO_PARAM(int, iterations, 3);
            BO_PARAM(double, alpha, 0.1);
        };
        struct opt_gradient_ascent : public defaults::opt_gradient_ascent {
            BO_PARAM(int, iterations, 3);
            BO_PARAM(double, alpha, 0.05);
        };
        struct opt_nloptgrad : public defaults::opt_nloptgrad {
            BO_PARAM(int, iterations, 5);
        };
        struct acqui_ucb {
            BO_PARAM(double, alpha, 0.5);
        };
        struct acqui_ei {
            BO_PARAM(double, jitter, 0.01);
        };
        struct acqui_gpucb {
            BO_PARAM(double, delta, 0.1);
        };
        struct opt_gridsearch {
            BO_PARAM(int, bins, 4);
        };
        struct opt_rprop : public defaults::opt_rprop {
            BO_PARAM(int, iterations, 2);
        };
        struct opt_nloptnograd : public defaults::opt_nloptnograd {
            BO_PARAM(int, iterations, 12);
        };
        struct opt_parallelrepeater : public defaults::opt_parallelrepeater {
        };
    };
    BO_DECLARE_DYN_PARAM(int, Params::bayes_opt_boptimizer, hp_period);
    BO_DECLARE_DYN_PARAM(int, Params::init_randomsampling, samples);
    BO_DECLARE_DYN_PARAM(int, Params::init_lhs, samples);
    BO_DECLARE_DYN_PARAM(int, Params::init_randomsamplinggrid, samples);
    BO_DECLARE_DYN_PARAM(int, Params::init_randomsamplinggrid, bins);
    BO_DECLARE_DYN_PARAM(int, Params::init_gridsampling, bins);
    BO_DECLARE_DYN_PARAM(int, Params::stop_maxiterations, iterations);

    double g_ratio = 0.9;
    double Params::stop_maxpredictedvalue::ratio() { return g_ratio; }
    bool g_bounded = true;
    bool Params::bayes_opt_bobase::bounded() { return g_bounded; }

    struct Boom : std::exception {
        const char* what() const noexcept override { return "boom"; }
    };

    // ------------------------------------------------------------------ what is recorded
    struct Log {
        // evaluations, in order
        VVec x, y;
        std::vector<int> bad; // did not give a finite observation
        // the loop
        struct Acq {
            int iteration;
            size_t n;
            bool same_data;
        };
        std::vector<Acq> acq;
        VVec proposed, starts;
        std::vector<int> hpo; // value of acq.size() when the hyper-parameters are optimized
        std::vector<size_t> hpo_n;
        struct St {
            int cur, total;
            size_t ns, no, model_n;
            VectorXd s, o;
        };
        std::vector<St> stats;
        std::vector<int> stop_calls; // number of evaluations at each call of the criterion
        int stop_at = -1; // the second criterion says stop at this call
        int unbounded = 0;
        int seed = 0;
        bool boom_thrown = false;
        // the searches of the highest predicted value
        bool in_stop = false;
        struct Search {
            int who;
            bool bounded;
            VectorXd start, found;
            double value;
        };
        std::vector<Search> searches;
        std::vector<int> decisions;
    };
    thread_local Log* tl = nullptr;

    template <int DI, int DO>
    struct Fun {
        BO_PARAM(size_t, dim_in, DI);
        BO_PARAM(size_t, dim_out, DO);
        double a, b;
        VectorXd pure(const VectorXd& x) const
        {
            VectorXd r(DO);
            for (int i = 0; i < DO; i++)
                r[i] = std::sin(5 * a * x.sum() + i) - (i + 1) * b * (x.array() - 0.4).square().sum();
            return r;
        }
        VectorXd operator()(const VectorXd& x) const
        {
            sim::yield();
            if (!tl)
                return pure(x);
            SIM_CHECK(x.size() == DI, "bad-point", "the function is evaluated in dimension %d", (int)x.size());
            for (int i = 0; i < DI; i++)
                SIM_CHECK(!g_bounded || (x[i] >= 0 && x[i] <= 1), "bad-point", "the function is evaluated at %s", hz::str(x).c_str());
            VectorXd r;
            uint32_t p = 0;
            if (sim::fault(sim::F_EVAL_THROW)) {
                tl->boom_thrown = true;
                throw Boom();
            }
            r = pure(x);
            bool bad = false;
            if (sim::fault(sim::F_EVAL_NAN, &p))
                r[p % DO] = std::nan(""), bad = true;
            else if (sim::fault(sim::F_EVAL_INF, &p))
                r[p % DO] = p & 64 ? INFINITY : -INFINITY, bad = true;
            {
                sim::Quiet q;
                tl->x.push_back(x);
                tl->y.push_back(r);
                tl->bad.push_back(bad);
            }
            return r;
        }
    };
    struct Last {
        using result_type = double;
        double operator()(const VectorXd& v) const { return v[v.size() - 1]; }
    };
    struct NegDist { // stateful
        using result_type = double;
        double target = 0.3;
        double operator()(const VectorXd& v) const { return -std::fabs(v.sum() - target); }
    };

    // ------------------------------------------------------------------ spies
    template <typename P>
    struct SpyHPO {
        template <typename G>
        void operator()(G& gp)
        {
            if (tl) {
                sim::Quiet q;
                tl->hpo.push_back((int)tl->acq.size());
                tl->hpo_n.push_back(gp.nb_samples());
            }
            inner(gp);
        }
        model::gp::KernelLFOpt<P, opt::Rprop<P>> inner;
        template <typename A>
        void save(const A&) const {}
        template <typename A>
        void load(const A&) {}
    };
    template <typename Inner, typename Model>
    struct SpyAcqui {
        Inner in;
        SpyAcqui(const Model& m, int it) : in(m, it)
        {
            if (!tl)
                return;
            sim::Quiet q;
            bool same = true;
            size_t n = m.nb_samples(), k = 0;
            // the good evaluations since the last reset, in order
            if (n) {
                VVec xs = m.samples();
                size_t good = 0;
                for (int b : tl->bad)
                    good += !b;
                same = xs.size() <= good;
                std::vector<size_t> idx;
                for (size_t i = 0; i < tl->x.size(); i++)
                    if (!tl->bad[i])
                        idx.push_back(i);
                for (k = 0; same && k < xs.size(); k++)
                    same = hz::same_bits(xs[xs.size() - 1 - k], tl->x[idx[idx.size() - 1 - k]]);
            }
            tl->acq.push_back({it, n, same});
        }
        template <typename A>
        opt::eval_t operator()(const VectorXd& v, const A& a, bool g) { return in(v, a, g); }
        size_t dim_in() const { return in.dim_in(); }
        size_t dim_out() const { return in.dim_out(); }
    };
    template <typename Inner, int WHO = 0>
    struct SpyOpt {
        Inner in;
        template <typename F>
        VectorXd operator()(const F& f, const VectorXd& start, bool bounded)
        {
            // (the inner optimizers only know the unit cube)
            VectorXd r = in(f, bounded ? start : VectorXd(start.cwiseMax(0.).cwiseMin(1.)), true);
            if (tl && tl->in_stop) {
                sim::Quiet q;
                tl->searches.push_back({WHO, bounded, start, r, opt::eval(f, r)});
            }
            else if (tl) {
                sim::Quiet q;
                tl->starts.push_back(start);
                tl->proposed.push_back(r);
                if (!bounded)
                    tl->unbounded++;
            }
            return r;
        }
    };
    struct SpyStat {
        template <typename BO, typename A>
        void operator()(const BO& bo, const A&)
        {
            if (!tl)
                return;
            sim::Quiet q;
            tl->stats.push_back({bo.current_iteration(), bo.total_iterations(), bo.samples().size(), bo.observations().size(), (size_t)bo.model().nb_samples(), bo.samples().back(), bo.observations().back()});
        }
    };
    struct SpyStop {
        template <typename BO, typename A>
        bool operator()(const BO& bo, const A&)
        {
            if (!tl)
                return false;
            sim::Quiet q;
            tl->stop_calls.push_back((int)bo.samples().size());
            return tl->stop_at >= 0 && (int)tl->stop_calls.size() > tl->stop_at;
        }
    };
    using stops = boost::fusion::vector<stop::MaxIterations<Params>, SpyStop>;
    using stops2 = boost::fusion::vector<SpyStop, stop::MaxIterations<Params>>;

    template <typename P>
    using GpSe = model::GP<P, kernel::SquaredExpARD<P>, mean::Data<P>, SpyHPO<P>>;
    template <typename P>
    using GpM5 = model::GP<P, kernel::MaternFiveHalves<P>, mean::Data<P>, SpyHPO<P>>;
    template <typename P>
    struct SpyMultiHPO {
        template <typename G>
        void operator()(G& gp)
        {
            if (tl) {
                sim::Quiet q;
                tl->hpo.push_back((int)tl->acq.size());
                tl->hpo_n.push_back(gp.nb_samples());
            }
            inner(gp);
        }
        model::multi_gp::ParallelLFOpt<P, model::gp::KernelLFOpt<P, opt::Rprop<P>>> inner;
    };
    using Multi = model::MultiGP<Params, model::GP, kernel::SquaredExpARD<Params>, mean::Data<Params>, SpyMultiHPO<Params>>;

    // does the model know exactly this data, and predict like a reference?
    template <typename Model>
    void model_is(const Model& m, const VVec& xs, const VVec& ys, const char* when, double)
    {
        SIM_CHECK((size_t)m.nb_samples() == xs.size(), "model-data", "%s: the model has %d samples, the database %zu", when, m.nb_samples(), xs.size());
        if (xs.empty())
            return;
        SIM_CHECK(hz::same_bits(m.samples(), xs), "model-data", "%s: the samples of the model are not those of the database", when);
        MatrixXd Y = hz::rows(ys);
        SIM_CHECK(hz::same_bits(MatrixXd(m.observations_matrix()), Y), "model-data", "%s: the observations of the model are not those of the database", when);
        VectorXd mean = Y.colwise().mean();
        hz::Posterior ref(m.kernel_function(), xs, MatrixXd(Y.rowwise() - mean.transpose()));
        for (int i = 0; i < 2; i++) {
            VectorXd v = VectorXd::Constant(xs[0].size(), 0.13 + 0.6 * i);
            VectorXd mu = ref.mu(m.kernel_function(), xs, v, mean);
            SIM_CHECK(hz::close(mu, m.mu(v), 1e-5, 1), "model-prediction", "%s: the model predicts %s, its data say %s", when, hz::str(m.mu(v)).c_str(), hz::str(mu).c_str());
            double var = ref.var(m.kernel_function(), xs, v);
            SIM_CHECK(hz::close(var, m.sigma(v), 1e-4, 1), "model-prediction", "%s: the model has variance %.10g, its data say %.10g", when, m.sigma(v), var);
        }
    }
    template <typename Model>
    void model_is(const Model& m, const VVec& xs, const VVec& ys, const char* when, const VectorXd&)
    {
        SIM_CHECK((size_t)m.nb_samples() == xs.size(), "model-data", "%s: the model has %d samples, the database %zu", when, m.nb_samples(), xs.size());
        if (xs.empty())
            return;
        SIM_CHECK(hz::same_bits(m.samples(), xs), "model-data", "%s: the samples of the model are not those of the database", when);
        auto parts = m.gp_models();
        for (size_t k = 0; k < parts.size(); k++) {
            VVec yk;
            for (auto& y : ys)
                yk.push_back(hz::vec(y[k]));
            MatrixXd Y = hz::rows(yk);
            VectorXd mean = Y.colwise().mean();
            hz::Posterior ref(parts[k].kernel_function(), xs, MatrixXd(Y.rowwise() - mean.transpose()));
            VectorXd v = VectorXd::Constant(xs[0].size(), 0.13);
            double mu = ref.mu(parts[k].kernel_function(), xs, v, mean)[0];
            SIM_CHECK(hz::close(mu, m.mu(v)[k], 1e-5, 1), "model-prediction", "%s: the model predicts %.10g for output %zu, its data say %.10g", when, m.mu(v)[k], k, mu);
        }
    }
    template <typename BO>
    void model_check(const BO& bo, const VVec& xs, const VVec& ys, const char* when)
    {
        VectorXd z = VectorXd::Zero(bo.model().dim_in());
        model_is(bo.model(), xs, ys, when, decltype(bo.model().sigma(z))());
    }

    // the acquisition functions of limbo do not accept the variances of a MultiGP
    template <typename Model>
    struct MultiAcq {
        const Model& m;
        MultiAcq(const Model& m, int) : m(m) {}
        size_t dim_in() const { return m.dim_in(); }
        size_t dim_out() const { return m.dim_out(); }
        template <typename A>
        opt::eval_t operator()(const VectorXd& v, const A& a, bool)
        {
            VectorXd mu, s;
            std::tie(mu, s) = m.query(v);
            return opt::no_grad(a(mu) + std::sqrt(s.sum()));
        }
    };

    template <typename BO, typename Afun>
    void best_check(const BO& bo, const Afun& afun)
    {
        double best = -INFINITY;
        for (auto& o : bo.observations())
            best = std::max(best, afun(o));
        const VectorXd& bo_o = bo.best_observation(afun);
        const VectorXd& bo_s = bo.best_sample(afun);
        SIM_CHECK(afun(bo_o) == best, "best", "best_observation has %.17g, the database has %.17g", afun(bo_o), best);
        bool ok = false;
        for (size_t i = 0; i < bo.samples().size(); i++)
            ok = ok || (hz::same_bits(bo.samples()[i], bo_s) && hz::same_bits(bo.observations()[i], bo_o));
        SIM_CHECK(ok, "best", "best_sample %s is not where best_observation %s was measured", hz::str(bo_s).c_str(), hz::str(bo_o).c_str());
    }

    // ------------------------------------------------------------------ initial designs
    enum Design { D_RANDOM, D_LHS, D_GRID, D_RGRID, D_NONE };
    struct Conf {
        int init_n, bins, iters, hp;
    };
    Conf configure(bool small)
    {
        Conf c;
        c.init_n = sim::irange(0, small ? 3 : 6);
        c.bins = sim::irange(1, 3);
        if (sim::flip(0.15))
            c.bins = 10; // the accumulated steps of a tenth do not sum up to one
        c.iters = sim::irange(0, small ? 3 : 6);
        static const int H[] = {-1, 1, 2, 3, 0};
        c.hp = H[sim::draw(5)];
        Params::init_randomsampling::set_samples(c.init_n);
        Params::init_lhs::set_samples(std::max(1, c.init_n));
        Params::init_randomsamplinggrid::set_samples(c.init_n);
        Params::init_randomsamplinggrid::set_bins(c.bins);
        Params::init_gridsampling::set_bins(c.bins);
        Params::stop_maxiterations::set_iterations(c.iters);
        Params::bayes_opt_boptimizer::set_hp_period(c.hp);
        return c;
    }
    size_t design_size(Design d, const Conf& c, int dim)
    {
        switch (d) {
        case D_RANDOM:
        case D_RGRID: return c.init_n;
        case D_LHS: return std::max(1, c.init_n);
        case D_GRID: {
            size_t n = 1;
            for (int i = 0; i < dim; i++)
                n *= c.bins + 1;
            return n;
        }
        default: return 0;
        }
    }
    void design_check(Design d, const Conf& c, const VVec& pts, int dim)
    {
        if (d == D_LHS)
            for (int j = 0; j < dim; j++) {
                std::vector<int> hit(pts.size(), 0);
                for (auto& p : pts)
                    hit[std::min((int)pts.size() - 1, (int)std::floor(p[j] * pts.size() + 1e-12))]++;
                for (int h : hit)
                    SIM_CHECK(h == 1, "design", "the initial design is not a latin hypercube");
            }
        if (d == D_GRID || d == D_RGRID) {
            std::vector<int> hit(4096, 0);
            for (auto& p : pts) {
                int k = 0;
                for (int j = 0; j < dim; j++) {
                    double g = p[j] * c.bins;
                    SIM_CHECK(std::fabs(g - std::round(g)) < 1e-9, "design", "the initial point %s is not on the grid of %d bins", hz::str(p).c_str(), c.bins);
                    k = k * (c.bins + 1) + (int)std::lround(g);
                }
                hit[k]++;
            }
            if (d == D_GRID)
                for (size_t k = 0; k < pts.size(); k++)
                    SIM_CHECK(hit[k] == 1, "design", "point %zu of the grid is evaluated %d times", k, hit[k]);
        }
        if (d == D_RANDOM)
            for (size_t i = 0; i < pts.size(); i++)
                for (size_t j = 0; j < i; j++)
                    SIM_CHECK(!hz::same_bits(pts[i], pts[j]), "design", "the random design repeats a point");
    }

    // ------------------------------------------------------------------ C09
    template <typename BO, typename F, typename Afun>
    void loop_history(Design des, const Conf& c, const F& f, const Afun& afun)
    {
        Log log;
        tl = &log;
        BO bo;
        SIM_CHECK(bo.current_iteration() == 0 && bo.total_iterations() == 0 && bo.samples().empty() && bo.observations().empty(), "counters", "a new optimizer is not empty (iteration %d)", bo.current_iteration());
        VVec dbx, dby;
        int total = 0;
        int calls = sim::irange(1, 3);
        const int din = F::dim_in();
        for (int k = 0; k < calls; k++) {
            bool reset = k == 0 ? sim::flip(0.7) : sim::flip(0.3);
            int extra = sim::flip(0.3) ? sim::irange(1, 3) : 0; // samples added by the user
            if (reset)
                extra = 0;
            for (int i = 0; i < extra; i++) {
                VectorXd x = hz::point(din);
                if (sim::flip(0.5)) {
                    VectorXd y = f.pure(x);
                    bo.add_new_sample(x, y);
                    dbx.push_back(x), dby.push_back(y);
                    log.x.push_back(x), log.y.push_back(y), log.bad.push_back(0);
                }
                else {
                    bo.eval_and_add(f, x);
                    dbx.push_back(x), dby.push_back(log.y.back());
                }
            }
            if (reset)
                dbx.clear(), dby.clear(), total = 0;
            size_t e0 = log.x.size(), a0 = log.acq.size(), s0 = log.stats.size(), h0 = log.hpo.size(), p0 = log.proposed.size();
            size_t init_n = total == 0 ? design_size(des, c, din) : 0;
            log.stop_calls.clear();
            log.stop_at = sim::flip(0.3) ? sim::irange(0, 4) : -1;
            bo.optimize(f, afun, reset);
            int want = c.iters;
            if (log.stop_at >= 0)
                want = std::min(want, log.stop_at);
            SIM_CHECK(log.x.size() - e0 == init_n + want, "budget", "call %d (reset=%d): %zu evaluations instead of %zu + %d", k, reset, log.x.size() - e0, init_n, want);
            SIM_CHECK(bo.current_iteration() == want && bo.total_iterations() == total + want, "counters", "call %d: iteration %d of %d in total instead of %d of %d", k, bo.current_iteration(), bo.total_iterations(), want, total + want);
            VVec design(log.x.begin() + e0, log.x.begin() + e0 + init_n);
            if (g_bounded)
                design_check(des, c, design, din);
            for (size_t i = e0; i < log.x.size(); i++)
                dbx.push_back(log.x[i]), dby.push_back(log.y[i]);
            SIM_CHECK(hz::same_bits(bo.samples(), dbx) && hz::same_bits(bo.observations(), dby), "database", "call %d (reset=%d): the database (%zu samples, %zu observations) is not the history of the %zu evaluations", k, reset, bo.samples().size(), bo.observations().size(), dbx.size());
            size_t base = dbx.size() - want;
            SIM_CHECK(log.acq.size() - a0 == (size_t)want && log.stats.size() - s0 == (size_t)want && log.proposed.size() - p0 == (size_t)want, "loop", "call %d: %zu acquisitions, %zu searches and %zu statistics in %d iterations", k, log.acq.size() - a0, log.proposed.size() - p0, log.stats.size() - s0, want);
            for (int i = 0; i < want; i++) {
                auto& a = log.acq[a0 + i];
                SIM_CHECK(a.iteration == i, "loop", "call %d: the acquisition of iteration %d is built for iteration %d", k, i, a.iteration);
                SIM_CHECK(a.n == base + i && a.same_data, "loop", "call %d: the acquisition of iteration %d uses a model of %zu samples, %zu are known (same data: %d)", k, i, a.n, base + i, (int)a.same_data);
                SIM_CHECK(hz::same_bits(log.proposed[p0 + i], dbx[base + i]), "loop", "call %d: the acquisition search returned %s, %s is evaluated", k, hz::str(log.proposed[p0 + i]).c_str(), hz::str(dbx[base + i]).c_str());
                auto& st = log.starts[p0 + i];
                SIM_CHECK(st.size() == din && (!g_bounded || ((st.array() >= 0).all() && (st.array() <= 1).all())), "loop", "call %d: the acquisition search starts at %s", k, hz::str(st).c_str());
                auto& s = log.stats[s0 + i];
                SIM_CHECK(s.cur == i && s.total == total + i && s.ns == base + i + 1 && s.no == base + i + 1, "statistics", "call %d, iteration %d: the statistics see iteration %d (%d in total), %zu samples and %zu observations", k, i, s.cur, s.total, s.ns, s.no);
                SIM_CHECK(hz::same_bits(s.s, dbx[base + i]) && hz::same_bits(s.o, dby[base + i]), "statistics", "call %d, iteration %d: the statistics do not see the new point", k, i);
            }
            SIM_CHECK((log.unbounded == 0 || !g_bounded) && (log.unbounded == (int)log.proposed.size() || g_bounded), "loop", "%d of %zu searches of the acquisition have no bounds, bounded=%d", log.unbounded, log.proposed.size(), (int)g_bounded);
            std::vector<int> hp_want;
            for (int i = 0; i < want; i++)
                if (c.hp > 0 && (i + 1) % c.hp == 0)
                    hp_want.push_back((int)a0 + i + 1);
            std::vector<int> hp_got(log.hpo.begin() + h0, log.hpo.end());
            SIM_CHECK(hp_want == hp_got, "hp-period", "call %d: the hyper-parameters are optimized %zu times in %d iterations with a period of %d", k, hp_got.size(), want, c.hp);
            for (size_t i = h0; i < log.hpo.size(); i++)
                SIM_CHECK(log.hpo_n[i] == base + (log.hpo[i] - (int)a0), "hp-period", "call %d: the hyper-parameters are optimized before the new sample is in the model", k);
            // one decision before each iteration and one after the last
            if (log.stop_at >= 0 || !log.stop_calls.empty())
                SIM_CHECK((int)log.stop_calls.size() <= want + 1, "stop", "call %d: the stopping criterion is asked %zu times in %d iterations", k, log.stop_calls.size(), want);
            total += want;
            model_check(bo, dbx, dby, "after optimize");
            if (!dbx.empty())
                best_check(bo, afun);
            sim::ev("call %d reset=%d init=%zu iterations=%d", k, reset, init_n, want);
            for (auto& y : dby)
                sim::evd(y[0]);
        }
        tl = nullptr;
        sim::nontrivial();
    }
    template <typename Model, typename Afun, int DI, int DO, typename Acq>
    void loop_with(const Afun& afun)
    {
        Conf c = configure(false);
        Fun<DI, DO> f{hz::coord(), hz::coord()};
        using A = SpyAcqui<Acq, Model>;
        using O = SpyOpt<opt::GridSearch<Params>>;
        int which = sim::draw(5);
        if (which == 0 || which == 4)
            g_bounded = !sim::flip(0.2);
        switch (which) {
        case 0: loop_history<bayes_opt::BOptimizer<Params, modelfun<Model>, acquifun<A>, acquiopt<O>, statsfun<SpyStat>, stopcrit<stops>, initfun<init::RandomSampling<Params>>>>(D_RANDOM, c, f, afun); break;
        case 1: loop_history<bayes_opt::BOptimizer<Params, modelfun<Model>, acquifun<A>, acquiopt<SpyOpt<opt::RandomPoint<Params>>>, statsfun<SpyStat>, stopcrit<stops2>, initfun<init::LHS<Params>>>>(D_LHS, c, f, afun); break;
        case 2: loop_history<bayes_opt::BOptimizer<Params, modelfun<Model>, acquifun<A>, acquiopt<O>, initfun<init::GridSampling<Params>>, statsfun<SpyStat>, stopcrit<stops>>>(D_GRID, c, f, afun); break;
        case 3: loop_history<bayes_opt::BOptimizer<Params, modelfun<Model>, acquifun<A>, acquiopt<SpyOpt<opt::NLOptNoGrad<Params, nlopt::GN_DIRECT_L_RAND>>>, statsfun<SpyStat>, stopcrit<stops2>, initfun<init::RandomSamplingGrid<Params>>>>(D_RGRID, c, f, afun); break;
        case 4: loop_history<bayes_opt::BOptimizer<Params, initfun<init::NoInit<Params>>, acquifun<A>, statsfun<SpyStat>, acquiopt<O>, modelfun<Model>, stopcrit<stops>>>(D_NONE, c, f, afun); break;
        }
    }
}
#ifdef PART_C09
namespace {
    // the criterion of limbo, its decision recomputed from the search it made
    template <int WHO, typename Crit>
    struct SpyMPV {
        Crit in;
        template <typename BO, typename A>
        bool operator()(const BO& bo, const A& afun)
        {
            tl->in_stop = true;
            size_t n0 = tl->searches.size();
            bool r = in(bo, afun);
            tl->in_stop = false;
            sim::Quiet q;
            if (bo.observations().empty())
                SIM_CHECK(!r, "max-predicted", "the optimisation is stopped before the first observation");
            else {
                SIM_CHECK(tl->searches.size() == n0 + 1, "max-predicted", "%zu searches of the highest predicted value", tl->searches.size() - n0);
                auto& s = tl->searches.back();
                SIM_CHECK(s.who == WHO, "max-predicted", "the highest predicted value is searched by the optimiser %d instead of %d", s.who, WHO);
                SIM_CHECK(s.bounded && s.start.size() == (int)bo.model().dim_in() && (s.start.array() >= 0).all() && (s.start.array() <= 1).all(), "max-predicted", "the highest predicted value is searched from %s (bounded: %d)", hz::str(s.start).c_str(), (int)s.bounded);
                double val = afun(bo.model().mu(s.found)), best = -INFINITY;
                SIM_CHECK(hz::close(val, s.value, 1e-9), "max-predicted", "the value searched at %s is %.12g, the model predicts %.12g", hz::str(s.found).c_str(), s.value, val);
                for (auto& o : bo.observations())
                    best = std::max(best, (double)afun(o));
                SIM_CHECK(hz::close(best, g_ratio * val, 1e-9) || r == (best > g_ratio * val), "max-predicted", "the best observation is %.12g, the highest prediction %.12g (ratio %g): decision %d", best, val, g_ratio, (int)r);
                if (r)
                    sim::probe("stopped by the predicted value");
            }
            tl->decisions.push_back(r);
            return r;
        }
    };
    template <typename BO, typename F, typename Afun>
    void predicted_history(const Conf& c, size_t design, const F& f, const Afun& afun)
    {
        Log log;
        tl = &log;
        BO bo;
        int calls = sim::irange(1, 3), total = 0;
        for (int k = 0; k < calls; k++) {
            bool reset = sim::flip(0.4);
            if (reset)
                total = 0;
            size_t e0 = log.x.size(), init_n = total == 0 ? design : 0;
            log.decisions.clear();
            bo.optimize(f, afun, reset);
            sim::Quiet q;
            int done = (int)(log.x.size() - e0 - init_n), n = (int)log.decisions.size();
            for (int i = 0; i + 1 < n; i++)
                SIM_CHECK(!log.decisions[i] || i >= done, "max-predicted", "call %d: the optimisation goes on although the criterion says stop at decision %d of %d", k, i, n);
            bool stopped = n > done && log.decisions[done];
            SIM_CHECK(done == bo.current_iteration() && done <= c.iters && (done == c.iters || stopped), "max-predicted", "call %d: %d iterations of %d, %d decisions", k, done, c.iters, n);
            SIM_CHECK(n >= done, "max-predicted", "call %d: the criterion is asked %d times in %d iterations", k, n, done);
            total += done;
            model_check(bo, bo.samples(), bo.observations(), "after optimize");
            sim::ev("call %d reset=%d iterations=%d", k, reset, done);
        }
        tl = nullptr;
        sim::nontrivial();
    }
    template <typename Model, typename Afun, int DI, int DO, typename Acq>
    void predicted_with(const Afun& afun)
    {
        static const double RATIO[] = {0.9, 0.5, 0.99, 1.1, 0.05};
        g_ratio = RATIO[sim::draw(5)];
        Conf c = configure(true);
        Fun<DI, DO> f{hz::coord(), hz::coord()};
        using O = SpyOpt<opt::GridSearch<Params>, 0>;
        using O2 = SpyOpt<opt::RandomPoint<Params>, 1>;
        using P0 = SpyMPV<0, stop::MaxPredictedValue<Params>>;
        using P1 = SpyMPV<1, stop::MaxPredictedValue<Params, O2>>;
        switch (sim::draw(3)) {
        case 0: predicted_history<bayes_opt::BOptimizer<Params, modelfun<Model>, acquifun<Acq>, acquiopt<O>, statsfun<SpyStat>, stopcrit<boost::fusion::vector<stop::MaxIterations<Params>, P0>>, initfun<init::RandomSampling<Params>>>>(c, c.init_n, f, afun); break;
        case 1: predicted_history<bayes_opt::BOptimizer<Params, modelfun<Model>, acquifun<Acq>, acquiopt<O>, statsfun<SpyStat>, stopcrit<boost::fusion::vector<P1, stop::MaxIterations<Params>>>, initfun<init::RandomSampling<Params>>>>(c, c.init_n, f, afun); break;
        case 2: predicted_history<bayes_opt::BOptimizer<Params, modelfun<Model>, acquifun<Acq>, acquiopt<O>, statsfun<SpyStat>, stopcrit<boost::fusion::vector<P1, stop::MaxIterations<Params>>>, initfun<init::NoInit<Params>>>>(c, 0, f, afun); break;
        }
    }
}
// large initial designs: complete, valid, and spread as announced
namespace {
    template <typename Init, int DI>
    void design_of(Design des)
    {
        Conf c = configure(false);
        c.init_n = sim::irange(1, 120);
        Params::init_randomsampling::set_samples(c.init_n);
        Params::init_lhs::set_samples(c.init_n);
        Params::init_randomsamplinggrid::set_samples(c.init_n);
        Params::stop_maxiterations::set_iterations(0);
        g_bounded = !(des == D_RANDOM && sim::flip(0.3));
        Log log;
        tl = &log;
        Fun<DI, 1> f{hz::coord(), hz::coord()};
        bayes_opt::BOptimizer<Params, modelfun<GpSe<Params>>, acquifun<acqui::UCB<Params, GpSe<Params>>>, acquiopt<opt::GridSearch<Params>>, initfun<Init>, statsfun<SpyStat>> bo;
        bo.optimize(f);
        sim::Quiet q;
        SIM_CHECK(log.x.size() == design_size(des, c, DI) && hz::same_bits(bo.samples(), log.x) && hz::same_bits(bo.observations(), log.y), "design", "%zu points evaluated, %zu recorded, the design has %zu", log.x.size(), bo.samples().size(), design_size(des, c, DI));
        design_check(des, c, log.x, DI);
        size_t n = log.x.size(), outside = 0;
        for (auto& x : log.x)
            outside += !((x.array() >= 0).all() && (x.array() <= 1).all());
        SIM_CHECK(!g_bounded || outside == 0, "design", "%zu of %zu initial points are out of the unit cube", outside, n);
        SIM_CHECK(g_bounded || n < 40 || outside > 0, "design", "%zu unbounded initial points, all in the unit cube", n);
        for (int j = 0; j < DI; j++) {
            double m = 0;
            std::vector<int> hit(c.bins + 1, 0);
            for (auto& x : log.x) {
                m += x[j] / n;
                if (des == D_RGRID)
                    hit.at(std::lround(x[j] * c.bins))++;
            }
            if (des == D_RANDOM && g_bounded)
                SIM_CHECK(std::fabs(m - 0.5) < 8 * std::sqrt(1 / 12. / n), "design", "coordinate %d of %zu random points is %g on average", j, n, m);
            if (des == D_RGRID && c.bins <= 3 && n >= 100)
                for (int k = 0; k <= c.bins; k++)
                    SIM_CHECK(hit[k] > 0, "design", "%zu random points of the grid of %d bins, none at line %d", n, c.bins, k);
        }
        g_bounded = true;
        sim::ev("design %d of %zu points", (int)des, n);
        if (n)
            sim::evd(log.x[0][0]);
        tl = nullptr;
        sim::nontrivial();
    }
}
SIM_SCENARIO(C09, large_designs, 1)
{
    switch (sim::draw(5)) {
    case 0: design_of<init::RandomSampling<Params>, 2>(D_RANDOM); break;
    case 1: design_of<init::LHS<Params>, 3>(D_LHS); break;
    case 2: design_of<init::GridSampling<Params>, 2>(D_GRID); break;
    case 3: design_of<init::RandomSamplingGrid<Params>, 2>(D_RGRID); break;
    case 4: design_of<init::RandomSampling<Params>, 1>(D_RANDOM); break;
    }
}
SIM_SCENARIO(C09, predicted_value, 1)
{
    using G1 = GpSe<Params>;
    using G2 = GpM5<Params>;
    switch (sim::draw(2)) {
    case 0: predicted_with<G1, FirstElem, 1, 1, acqui::UCB<Params, G1>>(FirstElem()); break;
    case 1: predicted_with<G2, Last, 2, 2, acqui::UCB<Params, G2>>(Last()); break;
    }
}
SIM_SCENARIO(C09, loop, 5)
{
    using G1 = GpSe<Params>;
    using G2 = GpM5<Params>;
    switch (sim::draw(3)) {
    case 0: loop_with<G1, FirstElem, 1, 1, acqui::UCB<Params, G1>>(FirstElem()); break;
    case 1: loop_with<G2, NegDist, 2, 2, acqui::EI<Params, G2>>(NegDist()); break;
    case 2: loop_with<Multi, Last, 1, 2, MultiAcq<Multi>>(Last()); break;
    }
}
#endif

#ifdef PART_C08
// ------------------------------------------------------------------ C08
namespace {
    template <typename BO, typename F>
    void fault_history(const F& f, int least = 0, bool designed = true)
    {
        Conf c = configure(true);
        int total = 0; // complete iterations since the last reset
        Log log;
        tl = &log;
        std::unique_ptr<BO> bo;
        {
            sim::Disarm d;
            bo.reset(new BO());
        }
        VVec dbx, dby; // what has to be in the database
        int ops = sim::irange(1, 4), failures = 0;
        bool broken = false; // the last optimization failed
        for (int k = 0; k < ops; k++) {
            size_t e0 = log.x.size();
            int op = sim::draw(4); // 0,1: optimize; 2: evaluate one point; 3: add one
            bool reset = op == 0 && sim::flip(0.4);
            if (op <= 1)
                op = 0;
            VectorXd x = hz::point(F::dim_in());
            VectorXd y = f.pure(x);
            bool user_bad = op == 3 && sim::flip(0.3);
            if (user_bad)
                y[0] = sim::flip(0.5) ? std::nan("") : -INFINITY;
            int what = 0; // 1 Boom, 2 EvaluationError, 3 bad_alloc
            bool was_full = bo->samples().size() == bo->observations().size();
            SIM_CHECK(was_full, "database", "%zu samples, %zu observations", bo->samples().size(), bo->observations().size());
            log.boom_thrown = false;
            uint32_t a0 = sim::injected(sim::F_ALLOC);
            try {
                sim::Arm arm({sim::F_EVAL_THROW, sim::F_EVAL_NAN, sim::F_EVAL_INF});
                if (op == 0)
                    // (no failing allocation here: a vector of Eigen that cannot be resized keeps a dangling pointer)
                    bo->optimize(f, FirstElem(), reset);
                else {
                    sim::Arm arm2({sim::F_EVAL_THROW, sim::F_EVAL_NAN, sim::F_EVAL_INF, sim::F_ALLOC});
                    if (op == 2)
                        bo->eval_and_add(f, x);
                    else
                        bo->add_new_sample(x, y);
                }
            }
            catch (Boom&) {
                what = 1;
            }
            catch (EvaluationError&) {
                what = 2;
            }
            catch (std::bad_alloc&) {
                what = 3;
            }
            failures += what != 0;
            if (reset)
                dbx.clear(), dby.clear();
            bool was_bad = false;
            if (op == 3) {
                if (!user_bad)
                    dbx.push_back(x), dby.push_back(y);
            }
            else
                for (size_t i = e0; i < log.x.size(); i++)
                    if (!log.bad[i])
                        dbx.push_back(log.x[i]), dby.push_back(log.y[i]);
                    else
                        was_bad = true;
            bool alloc = sim::injected(sim::F_ALLOC) != a0;
            SIM_CHECK(what != 1 || log.boom_thrown, "exception", "an exception that nobody threw");
            SIM_CHECK(!log.boom_thrown || what == 1, "exception", "the exception of the function became %d", what);
            SIM_CHECK(!((was_bad || user_bad) && what == 0), "exception", "an observation that is not a number was accepted");
            SIM_CHECK(what != 2 || was_bad || user_bad, "exception", "evaluation error without a bad observation");
            SIM_CHECK(what != 3 || alloc, "exception", "bad_alloc without a failing allocation");
            SIM_CHECK(bo->samples().size() == bo->observations().size(), "database", "after a failure: %zu samples, %zu observations", bo->samples().size(), bo->observations().size());
            // an evaluation whose recording failed for lack of memory may be missing: the last one
            if (what == 3 && bo->samples().size() + 1 == dbx.size())
                dbx.pop_back(), dby.pop_back();
            // a reset that failed for lack of memory before it did anything
            SIM_CHECK(hz::same_bits(bo->samples(), dbx) && hz::same_bits(bo->observations(), dby), "database", "operation %d (outcome %d): the database has %zu pairs, %zu evaluations succeeded", op, what, bo->samples().size(), dbx.size());
            sim::ev("op %d reset=%d outcome=%d database=%zu", op, reset, what, dbx.size());
            if (op == 0) {
                // an iteration counts once its evaluation has succeeded
                int good = 0, design = designed && (reset || total == 0) ? std::max(least, c.init_n) : 0;
                for (size_t i = e0; i < log.x.size(); i++)
                    good += !log.bad[i];
                int done = std::max(0, good - design);
                total = (reset ? 0 : total) + done;
                SIM_CHECK(bo->current_iteration() == done && bo->total_iterations() == total, "counters", "operation %d (outcome %d): iteration %d of %d in total, %d of %d were completed", k, what, bo->current_iteration(), bo->total_iterations(), done, total);
                broken = what != 0;
                if (!broken) {
                    sim::Disarm d;
                    model_check(*bo, dbx, dby, "after optimize");
                    if (failures)
                        sim::probe("optimized after a failure");
                }
            }
            if (!dbx.empty()) {
                sim::Disarm d;
                best_check(*bo, FirstElem());
            }
        }
        // recovery: once the faults stop, the optimization goes on with everything that is known
        {
            size_t e0 = log.x.size();
            sim::Disarm d;
            bo->optimize(f, FirstElem(), false);
            for (size_t i = e0; i < log.x.size(); i++)
                dbx.push_back(log.x[i]), dby.push_back(log.y[i]);
            for (size_t i = 0; i < dbx.size() && i < bo->samples().size(); i++)
                sim::ev("pair %zu: %s -> %s, evaluated %s -> %s", i, hz::str(bo->samples()[i]).c_str(), hz::str(bo->observations()[i]).c_str(), hz::str(dbx[i]).c_str(), hz::str(dby[i]).c_str());
            SIM_CHECK(hz::same_bits(bo->samples(), dbx) && hz::same_bits(bo->observations(), dby), "database", "after the recovery the database has %zu pairs instead of %zu", bo->samples().size(), dbx.size());
            model_check(*bo, dbx, dby, "after the recovery");
            SIM_CHECK(bo->current_iteration() == Params::stop_maxiterations::iterations(), "no-progress", "the optimization stops after %d iterations instead of %d", bo->current_iteration(), Params::stop_maxiterations::iterations());
        }
        tl = nullptr;
        if (failures)
            sim::nontrivial();
    }
}
// whatever the values, the database takes exactly those that are finite
SIM_SCENARIO(C08, extreme_observations, 1)
{
    using G = GpSe<Params>;
    bayes_opt::BOptimizer<Params, modelfun<G>, acquifun<acqui::UCB<Params, G>>, acquiopt<opt::GridSearch<Params>>, initfun<init::NoInit<Params>>, statsfun<SpyStat>> bo;
    static const double V[] = {0, -0., 1, -1e308, 1e308, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324, 1e200, INFINITY, -INFINITY, NAN};
    int n = sim::irange(1, 12), dim = sim::irange(1, 4);
    VVec xs, ys;
    for (int i = 0; i < n; i++) {
        VectorXd x = hz::point(2), y(dim);
        bool bad = sim::flip(0.4), has = false, some = false;
        for (int k = 0; k < dim; k++) {
            y[k] = V[sim::draw(bad ? 12 : 9)];
            has = has || !std::isfinite(y[k]), some = some || std::isfinite(y[k]);
        }
        bool direct = sim::flip(0.5), thrown = false;
        try {
            if (direct)
                bo.add_new_sample(x, y);
            else
                bo.eval_and_add([&](const VectorXd&) { return y; }, x);
        }
        catch (EvaluationError&) {
            thrown = true;
        }
        SIM_CHECK(thrown == has, "exception", "the observation %s is %s", hz::str(y).c_str(), thrown ? "refused" : "accepted");
        if (!thrown)
            xs.push_back(x), ys.push_back(y);
        SIM_CHECK(hz::same_bits(bo.samples(), xs) && hz::same_bits(bo.observations(), ys), "database", "%zu pairs instead of %zu", bo.samples().size(), xs.size());
        if (some && has)
            sim::nontrivial();
    }
    if (!xs.empty())
        best_check(bo, FirstElem());
}
SIM_SCENARIO(C08, failing_evaluations, 6)
{
    using O = opt::GridSearch<Params>;
    using G = GpSe<Params>;
    using GM = GpM5<Params>;
    switch (sim::draw(4)) {
    case 0: fault_history<bayes_opt::BOptimizer<Params, modelfun<G>, acquifun<acqui::UCB<Params, G>>, acquiopt<O>, initfun<init::RandomSampling<Params>>, statsfun<SpyStat>>>(Fun<1, 1>{hz::coord(), hz::coord()}); break;
    case 1: fault_history<bayes_opt::BOptimizer<Params, modelfun<GM>, acquifun<acqui::EI<Params, GM>>, acquiopt<O>, initfun<init::LHS<Params>>, statsfun<SpyStat>>>(Fun<2, 1>{hz::coord(), hz::coord()}, 1); break;
    case 2: fault_history<bayes_opt::BOptimizer<Params, modelfun<Multi>, acquifun<MultiAcq<Multi>>, acquiopt<O>, initfun<init::RandomSampling<Params>>, statsfun<SpyStat>>>(Fun<1, 2>{hz::coord(), hz::coord()}); break;
    case 3: fault_history<bayes_opt::BOptimizer<Params, modelfun<G>, acquifun<acqui::GP_UCB<Params, G>>, acquiopt<O>, initfun<init::NoInit<Params>>, statsfun<SpyStat>>>(Fun<2, 3>{hz::coord(), hz::coord()}, 0, false); break;
    }
}
#endif

#ifdef PART_C07
// ------------------------------------------------------------------ C07
namespace {
    struct Result {
        VVec x, y;
        VectorXd best, mu;
        int iters = -1;
    };
    template <typename BO, typename F>
    void one_optimization(const F& f, Result* r)
    {
        BO bo;
        bo.optimize(f);
        bo.optimize(f, FirstElem(), false);
        r->x = bo.samples();
        r->y = bo.observations();
        r->best = bo.best_sample();
        r->mu = bo.model().mu(VectorXd::Constant(F::dim_in(), 0.31));
        r->iters = bo.total_iterations();
    }
    void dispatch(int kind, double a, double b, Result* r)
    {
        using G = GpSe<Params>;
        using GM = GpM5<Params>;
        nlopt::srand(42 + (unsigned)(1000 * a)); // otherwise seeded with the clock
        using SG = model::GP<Params, kernel::Exp<Params>, mean::Constant<Params>, SpyHPO<Params>>;
        using Sparse = model::SparsifiedGP<Params, kernel::MaternThreeHalves<Params>, mean::NullFunction<Params>, model::gp::KernelLFOpt<Params, opt::Adam<Params>>>;
        using Ard = model::GP<Params, kernel::SquaredExpARD<Params>, mean::FunctionARD<Params, mean::Data<Params>>, model::gp::KernelMeanLFOpt<Params, opt::Rprop<Params>>>;
        using Loo = model::GP<Params, kernel::Exp<Params>, mean::Constant<Params>, model::gp::KernelLooOpt<Params, opt::GradientAscent<Params>>>;
        using Mlf = model::GP<Params, kernel::MaternFiveHalves<Params>, mean::FunctionARD<Params, mean::Constant<Params>>, model::gp::MeanLFOpt<Params, opt::NLOptGrad<Params>>>;
        using Chain = opt::Chained<Params, opt::NLOptNoGrad<Params, nlopt::GN_CRS2_LM>, opt::NLOptNoGrad<Params, nlopt::LN_COBYLA>>;
        using MPV = boost::fusion::vector<stop::MaxIterations<Params>, stop::MaxPredictedValue<Params>>;
        switch (kind) {
        case 4: one_optimization<bayes_opt::BOptimizer<Params, modelfun<Sparse>, acquifun<acqui::UCB<Params, Sparse>>, acquiopt<opt::NLOptNoGrad<Params, nlopt::LN_SBPLX>>, initfun<init::GridSampling<Params>>, statsfun<SpyStat>>>(Fun<2, 1>{a, b}, r); break;
        case 5: one_optimization<bayes_opt::BOptimizer<Params, modelfun<Ard>, acquifun<acqui::EI<Params, Ard>>, acquiopt<Chain>, initfun<init::RandomSampling<Params>>, statsfun<SpyStat>>>(Fun<2, 2>{a, b}, r); break;
        case 6: one_optimization<bayes_opt::BOptimizer<Params, modelfun<Loo>, acquifun<acqui::GP_UCB<Params, Loo>>, acquiopt<opt::GridSearch<Params>>, initfun<init::LHS<Params>>, stopcrit<MPV>, statsfun<SpyStat>>>(Fun<2, 1>{a, b}, r); break;
        case 7: one_optimization<bayes_opt::BOptimizer<Params, modelfun<Mlf>, acquifun<acqui::UCB<Params, Mlf>>, acquiopt<opt::NLOptNoGrad<Params, nlopt::GN_DIRECT_L>>, initfun<init::NoInit<Params>>, stopcrit<MPV>, statsfun<SpyStat>>>(Fun<1, 1>{a, b}, r); break;
        case 0: one_optimization<bayes_opt::BOptimizer<Params, modelfun<G>, acquifun<acqui::UCB<Params, G>>, acquiopt<opt::GridSearch<Params>>, initfun<init::RandomSampling<Params>>, statsfun<SpyStat>>>(Fun<1, 1>{a, b}, r); break;
        case 1: one_optimization<bayes_opt::BOptimizer<Params, modelfun<GM>, acquifun<acqui::EI<Params, GM>>, acquiopt<opt::NLOptNoGrad<Params, nlopt::GN_DIRECT_L_RAND>>, initfun<init::LHS<Params>>, statsfun<SpyStat>>>(Fun<2, 1>{a, b}, r); break;
        case 2: one_optimization<bayes_opt::BOptimizer<Params, modelfun<Multi>, acquifun<MultiAcq<Multi>>, acquiopt<opt::GridSearch<Params>>, initfun<init::RandomSamplingGrid<Params>>, statsfun<SpyStat>>>(Fun<1, 2>{a, b}, r); break;
        case 3: one_optimization<bayes_opt::BOptimizer<Params, modelfun<SG>, acquifun<acqui::GP_UCB<Params, SG>>, acquiopt<opt::RandomPoint<Params>>, initfun<init::NoInit<Params>>, statsfun<SpyStat>>>(Fun<2, 2>{a, b}, r); break;
        }
    }
}
SIM_SCENARIO(C07, concurrent_optimizations, 1)
{
    Conf c = configure(true);
    if (c.iters == 0) // there has to be a best sample
        Params::stop_maxiterations::set_iterations(1);
    int n = sim::irange(2, 3);
    bool same = sim::flip(0.5);
    int k0 = sim::draw(8);
    std::vector<int> kind(n);
    std::vector<double> a(n), b(n);
    std::vector<Result> alone(n), got(n);
    for (int i = 0; i < n; i++) {
        kind[i] = same ? k0 : (int)sim::draw(8);
        a[i] = hz::coord(), b[i] = hz::coord();
    }
    auto label = [](int i) { return "optimization" + std::to_string(i); };
    for (int i = 0; i < n; i++) {
        // alone: nothing else runs
        sim::join(sim::spawn(label(i).c_str(), [&, i] { sim::Quiet q; dispatch(kind[i], a[i], b[i], &alone[i]); }));
    }
    std::vector<int> th;
    for (int i = 0; i < n; i++)
        th.push_back(sim::spawn(label(i).c_str(), [&, i] { dispatch(kind[i], a[i], b[i], &got[i]); }));
    sim::join_all(th);
    for (int i = 0; i < n; i++) {
        auto &w = alone[i], &g = got[i];
        SIM_CHECK(w.iters == g.iters && w.x.size() == g.x.size(), "interference", "optimization %d: %zu evaluations among others, %zu alone", i, g.x.size(), w.x.size());
        SIM_CHECK(hz::same_bits(w.x, g.x) && hz::same_bits(w.y, g.y), "interference", "optimization %d evaluates other points when others run", i);
        SIM_CHECK(hz::same_bits(w.best, g.best) && hz::same_bits(w.mu, g.mu), "interference", "optimization %d ends with another result when others run", i);
        sim::ev("optimization %d kind %d: %zu evaluations", i, kind[i], g.x.size());
        for (auto& y : g.y)
            sim::evd(y[0]);
        for (int j = 0; j < i; j++)
            if (kind[i] == kind[j] && (kind[i] == 1 || kind[i] == 5 || kind[i] == 6) && !g.x.empty() && !got[j].x.empty())
                SIM_CHECK(!hz::same_bits(g.x[0], got[j].x[0]), "interference", "two optimizations draw the same random design");
    }
    sim::nontrivial();
}
#endif
