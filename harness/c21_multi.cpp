// C21: multi-objective Bayesian optimization (experimental ParEGO, and EHVI
// with a stand-in for the external library of the expected improvement).
#include "common.h"
#include <algorithm>
#include <limbo/limbo.hpp>
#include <memory>
#include <stdexcept>

#include <limbo/experimental/bayes_opt/ehvi.hpp>
#include <limbo/experimental/bayes_opt/parego.hpp>

using namespace limbo;

namespace {
    struct Params {
        struct bayes_opt_bobase {
            BO_PARAM(bool, stats_enabled, false);
            BO_PARAM(bool, bounded, true);
        };
        struct bayes_opt_boptimizer {
            BO_DYN_PARAM(int, hp_period);
        };
        struct bayes_opt_ehvi {
            static double x_ref();
            static double y_ref();
        };
        struct init_randomsampling {
            BO_DYN_PARAM(int, samples);
        };
        struct stop_maxiterations {
            BO_DYN_PARAM(int, iterations);
        };
        struct kernel : public defaults::kernel {
            BO_PARAM(double, noise, 0.01);
        };
        struct kernel_exp : public defaults::kernel_exp {
        };
        struct kernel_squared_exp_ard : public defaults::kernel_squared_exp_ard {
        };
        struct kernel_maternfivehalves : public defaults::kernel_maternfivehalves {
            BO_PARAM(double, l, 0.4);
        };
        struct mean_constant {
            BO_PARAM(double, constant, 0.25);
        };
        struct acqui_ucb : public limbo::defaults::acqui_ucb {
        };
        struct opt_gridsearch {
            BO_PARAM(int, bins, 4);
        };
        struct opt_rprop : public defaults::opt_rprop {
            BO_PARAM(int, iterations, 2);
        };
        struct opt_nloptnograd : public defaults::opt_nloptnograd {
            BO_PARAM(int, iterations, 12);
        };
        struct opt_parallelrepeater : public defaults::opt_parallelrepeater {
        };
        struct model_gp_parego {
            static double rho();
        };
    };
    BO_DECLARE_DYN_PARAM(int, Params::bayes_opt_boptimizer, hp_period);
    BO_DECLARE_DYN_PARAM(int, Params::init_randomsampling, samples);
    BO_DECLARE_DYN_PARAM(int, Params::stop_maxiterations, iterations);
    double g_rho = 0.05, g_ref[2] = {-11, -11};
    double Params::model_gp_parego::rho() { return g_rho; }
    double Params::bayes_opt_ehvi::x_ref() { return g_ref[0]; }
    double Params::bayes_opt_ehvi::y_ref() { return g_ref[1]; }

    struct Boom : std::exception {
    };
    struct Search { // one search of the acquisition optimiser
        VectorXd start, found;
        double value;
    };
    struct Log {
        VVec x, y;
        std::vector<int> bad;
        bool boom = false;
        std::vector<Search> searches;
        std::vector<VVec> weights; // of the last updates of the model (empty: not known)
        int hpo = 0, acq = 0;
        size_t base = 0;
        VVec dbx() const
        {
            VVec r;
            for (size_t i = base; i < x.size(); i++)
                if (!bad[i])
                    r.push_back(x[i]);
            return r;
        }
        VVec dby() const
        {
            VVec r;
            for (size_t i = base; i < y.size(); i++)
                if (!bad[i])
                    r.push_back(y[i]);
            return r;
        }
        const VVec* now_w = nullptr;
    };
    thread_local Log* tl = nullptr;
    thread_local Log* client_log = nullptr;

    template <int DI, int DO>
    struct Fun {
        BO_PARAM(size_t, dim_in, DI);
        BO_PARAM(size_t, dim_out, DO);
        double a, b, c;
        VectorXd pure(const VectorXd& x) const
        {
            VectorXd r(DO);
            for (int i = 0; i < DO; i++)
                r[i] = (i == 0 ? 1 + a : 1.5) * std::sin(3 * x.sum() * (i + 1) + 2 * i + c) - (i + 1) * b * (x.array() - 0.3 * i).square().sum() - (i == 1 ? a : 0);
            return r;
        }
        VectorXd operator()(const VectorXd& x) const
        {
            sim::yield();
            SIM_CHECK(x.size() == DI && (x.array() >= 0).all() && (x.array() <= 1).all(), "bad-point", "the function is evaluated at %s", hz::str(x).c_str());
            if (!tl)
                return pure(x);
            if (sim::fault(sim::F_EVAL_THROW)) {
                tl->boom = true;
                throw Boom();
            }
            VectorXd r = pure(x);
            bool bad = false;
            uint32_t p = 0;
            if (sim::fault(sim::F_EVAL_NAN, &p))
                r[p % DO] = std::nan(""), bad = true;
            else if (sim::fault(sim::F_EVAL_INF, &p))
                r[p % DO] = p & 64 ? INFINITY : -INFINITY, bad = true;
            sim::Quiet q;
            tl->x.push_back(x), tl->y.push_back(r), tl->bad.push_back(bad);
            return r;
        }
    };

    double scalar(const VectorXd& w, const VectorXd& o)
    {
        VectorXd p = w.array() * o.array();
        return p.maxCoeff() + g_rho * p.sum();
    }
    bool explains(const VectorXd& w, const VVec& ys, const VectorXd& s, double tol)
    {
        for (size_t i = 0; i < ys.size(); i++)
            if (!hz::close(scalar(w, ys[i]), s[i], tol))
                return false;
        return (w.array() > -1e-9).all() && std::fabs(w.sum() - 1) < 1e-6;
    }
    // the weights that give the scalarised values s; ok is false if there are none, w has those found
    // (all, if the equations determine them)
    void solve(const VVec& ys, const VectorXd& s, VVec& w, bool& decided)
    {
        int m = ys[0].size(), n = ys.size();
        decided = false;
        w.clear();
        int k = m - 1; // equations
        std::vector<int> rows(k);
        auto attempt = [&]() {
            // each row i with maximum at objective b: w.(rho o + o_b e_b) = s_i ; and sum w = 1
            int combos = 1;
            for (int i = 0; i < k; i++)
                combos *= m;
            bool regular = true;
            for (int c = 0; c < combos; c++) {
                MatrixXd A(m, m);
                VectorXd r(m);
                int z = c;
                for (int i = 0; i < k; i++, z /= m) {
                    A.row(i) = g_rho * ys[rows[i]].transpose();
                    A(i, z % m) += ys[rows[i]][z % m];
                    r[i] = s[rows[i]];
                }
                A.row(k).setOnes();
                r[k] = 1;
                Eigen::FullPivLU<MatrixXd> lu(A);
                lu.setThreshold(1e-4);
                if (!lu.isInvertible()) {
                    regular = false;
                    continue;
                }
                VectorXd v = lu.solve(r);
                if (explains(v, ys, s, 1e-9)) {
                    bool is_new = true;
                    for (auto& o : w)
                        is_new = is_new && (o - v).norm() > 1e-7;
                    if (is_new)
                        w.push_back(v);
                }
            }
            if (regular)
                decided = true;
        };
        for (int i = 0; i < n; i++) {
            rows[0] = i;
            if (k == 1)
                attempt();
            else
                for (int j = 0; j < i && !(decided && !w.empty()); j++) {
                    rows[1] = j;
                    attempt();
                }
            if (!w.empty())
                break;
        }
    }
    // the model of ParEGO is the posterior of the scalarised observations
    template <typename M>
    VVec parego_check(const M& m, const VVec& xs, const VVec& ys, const char* when)
    {
        SIM_CHECK((size_t)m.nb_samples() == xs.size(), "model-data", "%s: the model has %d samples, %zu are known", when, m.nb_samples(), xs.size());
        VVec w;
        if (xs.empty())
            return w;
        SIM_CHECK(hz::same_bits(m.samples(), xs), "model-data", "%s: the samples of the model are not those of the database", when);
        MatrixXd S = m.observations_matrix();
        SIM_CHECK(S.rows() == (int)xs.size() && S.cols() == 1, "model-data", "%s: the model has %dx%d observations for %zu points", when, (int)S.rows(), (int)S.cols(), xs.size());
        bool decided;
        solve(ys, S.col(0), w, decided);
        if (w.empty())
            SIM_CHECK(!decided, "scalarization", "%s: no weights (not negative, of sum 1) give the values the model has for the %zu known observations", when, xs.size());
        else
            sim::probe("weights recovered");
        VectorXd prior = m.mean_function()(VectorXd::Zero(xs[0].size()), m);
        hz::Posterior ref(m.kernel_function(), xs, MatrixXd(S.rowwise() - prior.transpose()));
        for (int i = 0; i < 2; i++) {
            VectorXd v = VectorXd::Constant(xs[0].size(), 0.13 + 0.6 * i);
            VectorXd mu = ref.mu(m.kernel_function(), xs, v, prior);
            SIM_CHECK(hz::close(mu, m.mu(v), 1e-5, 1), "model-prediction", "%s: the model predicts %s, its data say %s", when, hz::str(m.mu(v)).c_str(), hz::str(mu).c_str());
        }
        return w;
    }
    void fresh_weights(Log& log, const VVec& w, const char* when)
    {
        if (w.size() != 1)
            return;
        for (auto& o : log.weights)
            SIM_CHECK((o[0] - w[0]).norm() > 1e-7, "weights", "%s: the weights %s are those of an earlier update of the model", when, hz::str(w[0]).c_str());
        log.weights.push_back(w);
    }

    struct SpyHPO {
        template <typename G>
        void operator()(G& gp)
        {
            if (tl) {
                sim::Quiet q;
                tl->hpo++;
            }
            inner(gp);
        }
        model::gp::KernelLFOpt<Params, opt::Rprop<Params>> inner;
    };
    using Obj1 = model::GP<Params, kernel::SquaredExpARD<Params>, mean::Data<Params>, SpyHPO>;
    using Obj2 = model::GP<Params, kernel::Exp<Params>, mean::Constant<Params>, SpyHPO>;

    template <typename Base>
    struct SpyAcq {
        using M = experimental::model::GPParego<Params, Base>;
        acqui::UCB<Params, M> in;
        SpyAcq(const M& m, int it) : in(m, it)
        {
            if (!tl)
                return;
            sim::Quiet q;
            SIM_CHECK(it == tl->acq, "loop", "the acquisition of iteration %d is built for iteration %d", tl->acq, it);
            tl->acq++;
            VVec w = parego_check(m, tl->dbx(), tl->dby(), "at an iteration");
            fresh_weights(*tl, w, "at an iteration");
        }
        template <typename A>
        opt::eval_t operator()(const VectorXd& v, const A&, bool g) { return in(v, FirstElem(), g); }
    };
    struct SpyOpt {
        template <typename F>
        VectorXd operator()(const F& f, const VectorXd& start, bool bounded) const
        {
            SIM_CHECK(bounded, "loop", "the acquisition is optimized without bounds");
            return opt::GridSearch<Params>()(f, start, bounded);
        }
    };
    template <typename Base>
    using PBO = experimental::bayes_opt::Parego<Params, acquifun<SpyAcq<Base>>, initfun<init::RandomSampling<Params>>, acquiopt<SpyOpt>, stopcrit<boost::fusion::vector<stop::MaxIterations<Params>>>, experimental::bayes_opt::parego_modelfun<Base>>;

    // ------------------------------------------------------------- EHVI
    // searches from a start: returns the best of a few points around it
    struct Probe {
        template <typename F>
        VectorXd operator()(const F& f, const VectorXd& start, bool bounded) const
        {
            VectorXd best = start;
            double bv = opt::eval(f, start);
            for (int k = 1; k <= 3; k++) {
                sim::yield();
                VectorXd v = start;
                for (int i = 0; i < v.size(); i++)
                    v[i] = std::fmod(v[i] + 0.21 * k + 0.13 * i, 1.0);
                double r = opt::eval(f, v);
                if (r > bv)
                    bv = r, best = v;
            }
            sim::Quiet q;
            std::lock_guard<std::mutex> l(mtx());
            SIM_CHECK(bounded, "loop", "the acquisition is optimized without bounds");
            log().push_back({start, best, bv});
            return best;
        }
        static std::mutex& mtx()
        {
            static std::mutex m;
            return m;
        }
        static std::vector<Search>& log()
        {
            static std::vector<Search> l;
            return l;
        }
    };
    template <typename Base, typename Opt, typename Stat>
    struct EBO : experimental::bayes_opt::Ehvi<Params, modelfun<Base>, experimental::bayes_opt::acquiopt<Opt>, statsfun<Stat>, initfun<init::RandomSampling<Params>>, stopcrit<boost::fusion::vector<stop::MaxIterations<Params>>>> {
    };
    struct NoStat {
        template <typename BO, typename A>
        void operator()(const BO&, const A&) {}
    };
    double front_value(const VVec& ys, const double* mu, const double* s)
    {
        std::vector<std::pair<double, double>> p;
        for (size_t i = 0; i < ys.size(); i++) {
            bool dom = false;
            for (size_t k = 0; k < ys.size(); k++)
                dom = dom || (ys[k][0] >= ys[i][0] && ys[k][1] >= ys[i][1] && (ys[k][0] > ys[i][0] || ys[k][1] > ys[i][1]));
            if (!dom)
                p.push_back({ys[i][0], ys[i][1]});
        }
        return ehvi_stub::ehvi(p, g_ref, mu, s);
    }
    // seen by the statistics at the end of each iteration: the models are still those of its beginning
    struct SpyStat {
        template <typename BO, typename A>
        void operator()(const BO& bo, const A&)
        {
            if (!tl)
                return;
            sim::Quiet q;
            SIM_CHECK(bo.current_iteration() == tl->acq, "loop", "the statistics of iteration %d see iteration %d", tl->acq, bo.current_iteration());
            tl->acq++;
            auto& log = Probe::log();
            VVec xs = bo.samples(), ys = bo.observations();
            VectorXd chosen = xs.back();
            xs.pop_back(), ys.pop_back();
            SIM_CHECK(bo.models().size() == 2, "models", "there are %zu models of 2 objectives", bo.models().size());
            std::vector<double> best;
            for (int m = 0; m < 2; m++) {
                auto& g = bo.models()[m];
                VVec o;
                for (auto& y : ys)
                    o.push_back(hz::vec(y[m]));
                SIM_CHECK(hz::same_bits(g.samples(), xs) && hz::same_bits(MatrixXd(g.observations_matrix()), hz::rows(o)), "models", "model %d has not the objective of the %zu points known before the iteration", m, xs.size());
                VectorXd prior = g.mean_function()(VectorXd::Zero(xs[0].size()), g);
                hz::Posterior ref(g.kernel_function(), xs, MatrixXd(hz::rows(o).rowwise() - prior.transpose()));
                VectorXd v = VectorXd::Constant(xs[0].size(), 0.27);
                VectorXd mu = ref.mu(g.kernel_function(), xs, v, prior);
                SIM_CHECK(hz::close(mu, g.mu(v), 1e-5, 1), "model-prediction", "model %d predicts %s, its data say %s", m, hz::str(g.mu(v)).c_str(), hz::str(mu).c_str());
            }
            // one search from each point of the front
            std::vector<int> used(log.size(), 0);
            size_t front = 0;
            double top = -INFINITY, got = -INFINITY;
            for (size_t i = 0; i < xs.size(); i++) {
                bool dom = false;
                for (size_t k = 0; k < xs.size(); k++)
                    dom = dom || (ys[k][0] >= ys[i][0] && ys[k][1] >= ys[i][1] && (ys[k][0] > ys[i][0] || ys[k][1] > ys[i][1]));
                if (dom)
                    continue;
                front++;
                bool found = false;
                for (size_t s = 0; s < log.size() && !found; s++)
                    if (!used[s] && hz::same_bits(log[s].start, xs[i]))
                        used[s] = 1, found = true;
                SIM_CHECK(found, "searches", "no search starts from the point %s of the front", hz::str(xs[i]).c_str());
            }
            SIM_CHECK(log.size() == front, "searches", "%zu searches for a front of %zu points", log.size(), front);
            for (auto& s : log) {
                double mu[2], sd[2];
                for (int m = 0; m < 2; m++)
                    mu[m] = bo.models()[m].mu(s.found)[0], sd[m] = bo.models()[m].sigma(s.found);
                double v = front_value(ys, mu, sd);
                SIM_CHECK(hz::close(v, s.value, 1e-9), "acquisition", "the improvement at %s is %.12g, the models and the front say %.12g", hz::str(s.found).c_str(), s.value, v);
                top = std::max(top, s.value);
                if (hz::same_bits(s.found, chosen))
                    got = std::max(got, s.value);
            }
            SIM_CHECK(got == top, "choice", "the point evaluated, %s, is not the best of the searches", hz::str(chosen).c_str());
            log.clear();
        }
    };

    // ------------------------------------------------------------- histories
    struct After {
        template <typename Base>
        static void run(const PBO<Base>& bo, const VVec& xs, const VVec& ys)
        {
            sim::Quiet q;
            // (an optimisation without iterations has drawn weights nothing has seen yet)
            VVec w = parego_check(bo.model(), xs, ys, "after optimize");
            fresh_weights(*tl, w, "after optimize");
        }
        template <typename B, typename O, typename S>
        static void run(const EBO<B, O, S>& bo, const VVec& xs, const VVec&)
        {
            (void)bo, (void)xs;
        }
    };
    template <typename Base, typename F>
    void call(PBO<Base>& bo, const F& f, bool reset) { bo.optimize(f, FirstElem(), reset); }
    template <typename B, typename O, typename S, typename F>
    void call(EBO<B, O, S>& bo, const F& f, bool reset) { bo.optimize(f, reset); }
    template <typename Base>
    bool trains(const PBO<Base>&) { return true; }
    template <typename B, typename O, typename S>
    bool trains(const EBO<B, O, S>&) { return false; }

    template <typename BO, typename F>
    void history(const F& f, int min_init)
    {
        int init_n = sim::irange(min_init, 4), iters = sim::irange(0, 4);
        static const int H[] = {-1, 1, 2, 3};
        int hp = H[sim::draw(4)];
        Params::init_randomsampling::set_samples(init_n);
        Params::stop_maxiterations::set_iterations(iters);
        Params::bayes_opt_boptimizer::set_hp_period(hp);
        g_rho = sim::flip(0.5) ? 0.05 : sim::draw(4) * 0.25;
        Log log;
        tl = &log;
        std::unique_ptr<BO> bo(new BO());
        VVec dbx, dby;
        int calls = sim::irange(1, 3), failures = 0;
        for (int k = 0; k <= calls; k++) {
            bool last = k == calls; // the recovery: without reset and without faults
            bool reset = !last && sim::flip(k ? 0.3 : 0.7);
            if (!last && sim::flip(0.3)) {
                VectorXd x = hz::point(F::dim_in()), y = f.pure(x);
                bo->add_new_sample(x, y);
                log.x.push_back(x), log.y.push_back(y), log.bad.push_back(0);
                dbx.push_back(x), dby.push_back(y);
            }
            if (reset) {
                dbx.clear(), dby.clear();
                log.base = log.x.size();
            }
            size_t e0 = log.x.size();
            bool designed = reset || bo->total_iterations() == 0;
            log.boom = false, log.hpo = 0, log.acq = 0;
            Probe::log().clear();
            int what = 0;
            try {
                if (last)
                    call(*bo, f, false);
                else {
                    sim::Arm arm({sim::F_EVAL_THROW, sim::F_EVAL_NAN, sim::F_EVAL_INF});
                    call(*bo, f, reset);
                }
            }
            catch (Boom&) {
                what = 1;
            }
            catch (EvaluationError&) {
                what = 2;
            }
            sim::Quiet q;
            bool bad = false;
            for (size_t i = e0; i < log.x.size(); i++)
                if (log.bad[i])
                    bad = true;
                else
                    dbx.push_back(log.x[i]), dby.push_back(log.y[i]);
            failures += what != 0;
            SIM_CHECK(log.boom ? what == 1 : bad ? what == 2 : what == 0, "exception", "call %d: outcome %d, the function threw: %d, bad observation: %d", k, what, (int)log.boom, (int)bad);
            SIM_CHECK(hz::same_bits(bo->samples(), dbx) && hz::same_bits(bo->observations(), dby), "database", "call %d (reset=%d): the database has %zu samples and %zu observations, not the %zu successful evaluations", k, reset, bo->samples().size(), bo->observations().size(), dbx.size());
            if (!what) {
                // (EHVI needs at least one point, and always evaluates one if there is none)
                SIM_CHECK(log.x.size() - e0 == (size_t)(designed ? init_n : 0) + iters, "budget", "call %d: %zu evaluations instead of %d + %d", k, log.x.size() - e0, designed ? init_n : 0, iters);
                SIM_CHECK(bo->current_iteration() == iters && log.acq == iters, "counters", "call %d: iteration %d, %d acquisitions after %d iterations", k, bo->current_iteration(), log.acq, iters);
                if (trains(*bo))
                    SIM_CHECK(log.hpo == (hp > 0 ? iters / hp : 0), "hp-period", "call %d: the model is trained %d times in %d iterations with a period of %d", k, log.hpo, iters, hp);
                After::run(*bo, dbx, dby);
            }
            sim::ev("call %d reset=%d outcome=%d database=%zu", k, reset, what, dbx.size());
            for (auto& y : dby)
                sim::evd(y[0]);
        }
        tl = nullptr;
        if (failures)
            sim::probe("optimized after a failure");
        sim::nontrivial();
    }
    template <typename F>
    F fun()
    {
        F f;
        f.a = hz::coord(), f.b = hz::coord(), f.c = hz::coord();
        return f;
    }

    struct Result {
        VVec x, y;
        MatrixXd scalarized;
        VectorXd mu;
    };
    template <typename Base, typename F>
    void parego_one(const F& f, Result* r)
    {
        PBO<Base> bo;
        bo.optimize(f);
        bo.optimize(f, FirstElem(), false);
        sim::Quiet q;
        parego_check(bo.model(), bo.samples(), bo.observations(), "at the end");
        r->x = bo.samples(), r->y = bo.observations();
        r->scalarized = bo.model().observations_matrix();
        r->mu = bo.model().mu(VectorXd::Constant(F::dim_in(), 0.31));
    }
    struct Plain {
        template <typename F>
        VectorXd operator()(const F& f, const VectorXd& start, bool) const
        {
            VectorXd best = start, v = start;
            double bv = opt::eval(f, start);
            for (int i = 0; i < v.size(); i++)
                v[i] = std::fmod(v[i] + 0.37 + 0.13 * i, 1.0);
            return opt::eval(f, v) > bv ? v : best;
        }
    };
    template <typename Base, typename F>
    void ehvi_one(const F& f, Result* r)
    {
        EBO<Base, Plain, NoStat> bo;
        bo.optimize(f);
        bo.optimize(f, false);
        r->x = bo.samples(), r->y = bo.observations();
        r->scalarized = hz::rows(bo.observations());
        r->mu = bo.models().empty() ? VectorXd() : bo.models().back().mu(VectorXd::Constant(F::dim_in(), 0.31));
    }
    void dispatch(int kind, double a, double b, double c, Result* r)
    {
        switch (kind) {
        case 0: parego_one<Obj1>(Fun<1, 2>{a, b, c}, r); break;
        case 1: parego_one<Obj2>(Fun<2, 3>{a, b, c}, r); break;
        case 2: ehvi_one<Obj1>(Fun<2, 2>{a, b, c}, r); break;
        case 3: ehvi_one<Obj2>(Fun<1, 2>{a, b, c}, r); break;
        }
    }
}

SIM_SCENARIO(C21, parego, 3)
{
    switch (sim::draw(4)) {
    case 0: history<PBO<Obj1>>(fun<Fun<1, 2>>(), 0); break;
    case 1: history<PBO<Obj2>>(fun<Fun<2, 2>>(), 0); break;
    case 2: history<PBO<Obj1>>(fun<Fun<2, 3>>(), 0); break;
    case 3: history<PBO<Obj2>>(fun<Fun<1, 3>>(), 0); break;
    }
}
SIM_SCENARIO(C21, ehvi, 3)
{
    g_ref[0] = -sim::irange(1, 11), g_ref[1] = -sim::irange(1, 11);
    switch (sim::draw(2)) {
    case 0: history<EBO<Obj1, Probe, SpyStat>>(fun<Fun<1, 2>>(), 1); break;
    case 1: history<EBO<Obj2, Probe, SpyStat>>(fun<Fun<2, 2>>(), 1); break;
    }
}
SIM_SCENARIO(C21, multi_concurrent, 1)
{
    Params::init_randomsampling::set_samples(sim::irange(1, 3));
    Params::stop_maxiterations::set_iterations(sim::irange(1, 3));
    Params::bayes_opt_boptimizer::set_hp_period(sim::irange(-1, 2));
    int n = 2;
    std::vector<int> kind(n);
    std::vector<double> a(n), b(n), c(n);
    std::vector<Result> alone(n), got(n);
    for (int i = 0; i < n; i++)
        kind[i] = sim::draw(4), a[i] = hz::coord(), b[i] = hz::coord(), c[i] = hz::coord();
    auto label = [](int i) { return "optimization" + std::to_string(i); };
    for (int i = 0; i < n; i++)
        sim::join(sim::spawn(label(i).c_str(), [&, i] { sim::Quiet q; dispatch(kind[i], a[i], b[i], c[i], &alone[i]); }));
    std::vector<int> th;
    for (int i = 0; i < n; i++)
        th.push_back(sim::spawn(label(i).c_str(), [&, i] { dispatch(kind[i], a[i], b[i], c[i], &got[i]); }));
    sim::join_all(th);
    for (int i = 0; i < n; i++) {
        SIM_CHECK(hz::same_bits(alone[i].x, got[i].x) && hz::same_bits(alone[i].y, got[i].y), "interference", "optimization %d evaluates other points when another runs", i);
        SIM_CHECK(hz::same_bits(alone[i].scalarized, got[i].scalarized) && hz::same_bits(alone[i].mu, got[i].mu), "interference", "optimization %d ends with another model when another runs", i);
    }
    sim::nontrivial();
}
