// C22: the sparse model with pseudo-inputs (experimental SPGP) is the published
// one for every history, training and set of readers.
#include "common.h"
#include <limbo/experimental/model/spgp.hpp>
#include <limbo/kernel/squared_exp_ard.hpp>
#include <limbo/mean/constant.hpp>
#include <limbo/mean/data.hpp>
#include <limbo/mean/null_function.hpp>
#include <limbo/opt/nlopt_grad.hpp>
#include <memory>
#include <stdexcept>

using namespace limbo;

namespace {
    double g_percent = 30;
    int g_min = 1;
    struct Params {
        struct kernel : public defaults::kernel {
            BO_PARAM(double, noise, 0.01);
        };
        struct kernel_squared_exp_ard : public defaults::kernel_squared_exp_ard {
            BO_PARAM(double, sigma_sq, 1.7);
        };
        struct mean_constant {
            BO_PARAM(double, constant, 0.7);
        };
        struct model_spgp : public defaults::model_spgp {
            static double samples_percent() { return g_percent; }
            static int min_m() { return g_min; }
        };
        struct opt_nloptgrad : public defaults::opt_nloptgrad {
            BO_PARAM(int, iterations, 6);
        };
    };
    struct Boom : std::exception {
    };
    using LD = long double;
    using ML = Eigen::Matrix<LD, Eigen::Dynamic, Eigen::Dynamic>;
    using VL = Eigen::Matrix<LD, Eigen::Dynamic, 1>;

    // the published model (Snelson and Ghahramani, 2005), written with dense matrices
    struct Fitc {
        ML X, Z, Ki, Q, S, Si; // samples, pseudo-inputs, inverse covariance of these, ...
        VL b, y;
        LD c, s, jitter, cond;
        LD k(const VL& p, const VL& q) const { return c * std::exp(-0.5L * ((p - q).array().square() * b.array()).sum()); }
        Fitc(const MatrixXd& x, const VectorXd& yy, const VectorXd& w, int m)
        {
            int d = (int)x.cols(), n = (int)x.rows();
            X = x.cast<LD>();
            y = yy.cast<LD>();
            Z.resize(m, d);
            for (int j = 0; j < d; j++)
                for (int i = 0; i < m; i++)
                    Z(i, j) = w[j * m + i];
            b.resize(d);
            for (int j = 0; j < d; j++)
                b[j] = std::exp((LD)w[m * d + j]);
            c = std::exp((LD)w[(m + 1) * d]);
            s = std::exp((LD)w[(m + 1) * d + 1]);
            jitter = Params::model_spgp::jitter();
            ML K(m, m), M(n, m);
            for (int i = 0; i < m; i++) {
                for (int j = 0; j < m; j++)
                    K(i, j) = k(Z.row(i).transpose(), Z.row(j).transpose()) + (i == j ? jitter : 0);
                for (int j = 0; j < n; j++)
                    M(j, i) = k(Z.row(i).transpose(), X.row(j).transpose());
            }
            Ki = Eigen::PartialPivLU<ML>(K).inverse();
            Q = M * Ki;
            S = Q * M.transpose();
            for (int i = 0; i < n; i++)
                S(i, i) = c + s;
            Si = Eigen::PartialPivLU<ML>(S).inverse();
            cond = K.norm() * Ki.norm() * (1 + c / s) * (1 + y.norm());
        }
        void at(const VectorXd& v, double& mu, double& var) const
        {
            VL z(Z.rows()), vv = v.cast<LD>();
            for (int i = 0; i < z.size(); i++)
                z[i] = k(Z.row(i).transpose(), vv);
            VL q(X.rows());
            for (int j = 0; j < q.size(); j++) {
                q[j] = 0;
                for (int i = 0; i < z.size(); i++)
                    q[j] += Q(j, i) * z[i];
            }
            VL a = Si * q;
            mu = (double)a.dot(y);
            var = (double)(c - q.dot(a) + s);
        }
        LD log_lik() const
        {
            Eigen::LLT<ML> llt(S);
            ML L = llt.matrixL();
            LD r = -0.5L * y.dot(Si * y) - 0.5L * y.size() * std::log(2 * (LD)M_PI);
            for (int i = 0; i < y.size(); i++)
                r -= std::log(L(i, i));
            return r;
        }
    };

    // a mean that is not the same everywhere
    template <typename P>
    struct Slope : public mean::BaseMean<P> {
        double base = 0.7;
        Slope(size_t = 1) {}
        template <typename GP>
        VectorXd operator()(const VectorXd& v, const GP&) const { return hz::vec(base + 2 * v.sum()); }
        size_t h_params_size() const { return 1; }
        VectorXd h_params() const { return hz::vec(base); }
        void set_h_params(const VectorXd& p) { base = p[0]; }
    };

    // what the trainings of the thread have done
    struct Train {
        VectorXd init, w;
        int calls = 0;
        int mode = 0; // 0: a point near the initial one, 1: the objective is evaluated by several threads, 2: the real optimiser, 3: throws
        std::vector<double> tape;
        int threads = 1;
        struct Eval {
            VectorXd w, g;
            double f;
            bool grad;
        };
        std::vector<Eval> evals;
        bool fail = false;
    };
    thread_local Train* tr = nullptr;

    struct Recorder {
        opt::NLOptGrad<Params, nlopt::LD_LBFGS> real;
        template <typename F>
        VectorXd operator()(const F& f, const VectorXd& init, bool bounded)
        {
            if (!tr)
                return init;
            Train* t = tr;
            VectorXd w = init;
            {
                sim::Quiet q;
                t->calls++;
                t->init = init;
                SIM_CHECK(!bounded, "training", "the parameters are searched between 0 and 1");
                SIM_CHECK(init.allFinite(), "initial", "the training starts from %s", hz::str(init).c_str());
                t->evals.clear();
            }
            if (t->fail || sim::fault(sim::F_USER1)) {
                t->fail = true;
                throw Boom();
            }
            if (t->mode == 2 && init.size() <= 20) {
                w = real(f, init, bounded);
                sim::Quiet q;
                t->w = w;
                return w;
            }
            auto moved = [&](int k) {
                VectorXd r = init;
                for (int i = 0; i < r.size(); i++)
                    r[i] += 0.4 * t->tape[(size_t)(i * 3 + k * 7) % t->tape.size()];
                return r;
            };
            int n = t->threads;
            std::vector<Train::Eval> e(n);
            std::vector<int> th;
            for (int k = 0; k < n; k++) {
                e[k].w = moved(k);
                e[k].grad = k % 2 == 0;
            }
            auto one = [&](int k) {
                auto r = f(e[k].w, e[k].grad);
                e[k].f = opt::fun(r);
                if (e[k].grad)
                    e[k].g = opt::grad(r);
            };
            if (t->mode == 1)
                for (int k = 0; k < n; k++)
                    th.push_back(sim::spawn(("evaluator" + std::to_string(k)).c_str(), [&, k] { one(k); }));
            else
                for (int k = 0; k < n; k++)
                    one(k);
            sim::join_all(th);
            sim::Quiet q;
            t->evals = e;
            t->w = w = moved(n - 1);
            return w;
        }
    };
    using SE = kernel::SquaredExpARD<Params>;
    template <typename Mean>
    using Model = model::SPGP<Params, SE, Mean, Recorder>;

    double prior_of(const mean::NullFunction<Params>*, const VectorXd&, double, double) { return 0; }
    double prior_of(const mean::Data<Params>*, const VectorXd&, double avg, double) { return avg; }
    double prior_of(const mean::Constant<Params>*, const VectorXd&, double, double cst) { return cst; }
    double prior_of(const Slope<Params>*, const VectorXd& v, double, double cst) { return cst + 2 * v.sum(); }

    template <typename Mean>
    struct Machine {
        using M = Model<Mean>;
        M m;
        Train t;
        int din = 0;
        VVec x;
        std::vector<double> y;
        double cst = 0.7;
        bool bad = false; // a training has failed: not to be used before the next one
        bool varied = false;
        int sized = 0;
        double prior(const VectorXd& v) const
        {
            double a = 0;
            for (double i : y)
                a += i;
            return prior_of((Mean*)nullptr, v, y.empty() ? 0 : a / y.size(), cst);
        }
        int pseudo() const
        {
            int n = (int)x.size();
            return std::min(n, std::max(g_min, (int)(g_percent * n / 100)));
        }
        Fitc reference(const VectorXd& w, int m) const
        {
            VectorXd r(y.size());
            for (size_t i = 0; i < y.size(); i++)
                r[i] = y[i] - prior(x[i]);
            Fitc f(hz::rows(x), r, w, m);
            double big = 0;
            for (double v : y)
                big = std::max(big, std::abs(v));
            if (!(f.s > 1e-12 * big * big)) // nothing but the rounding of the mean is left
                f.cond = INFINITY;
            return f;
        }
        void check_training(const char* when)
        {
            int k = pseudo(), n = (int)x.size();
            SIM_CHECK(t.init.size() == (k + 1) * din + 2 && t.w.size() == t.init.size(), "initial", "%s: %d parameters are trained for %d pseudo-inputs of dimension %d", when, (int)t.init.size(), k, din);
            // it starts from some of the samples
            std::vector<bool> used(n, false);
            for (int i = 0; i < k; i++) {
                VectorXd z(din);
                for (int j = 0; j < din; j++)
                    z[j] = t.init[j * k + i];
                int at = -1;
                for (int j = 0; j < n; j++)
                    if (!used[j] && hz::same_bits(x[j], z))
                        at = j;
                SIM_CHECK(at >= 0, "initial", "%s: the training starts from the pseudo-input %s, which is not one of the samples, or twice", when, hz::str(z).c_str());
                used[at] = true;
            }
            // ... and from the extent of the samples and of the observations
            Fitc ini = reference(t.init, k);
            for (int j = 0; j <= din + 1; j++) {
                double e = 0, big = 0;
                if (j < din) {
                    double lo = INFINITY, hi = -INFINITY;
                    for (auto& v : x)
                        lo = std::min(lo, v[j]), hi = std::max(hi, v[j]);
                    e = (hi - lo) / 2 > 0 ? -2 * std::log((hi - lo) / 2) : std::log(Params::model_spgp::pred_kernel_l());
                }
                else {
                    double sq = (double)ini.y.squaredNorm() / n;
                    for (double v : y)
                        big = std::max(big, std::abs(v));
                    if (sq < 1e-12 * big * big)
                        continue;
                    e = j == din ? std::log(sq > 0 ? sq : Params::model_spgp::pred_kernel_sigma_sq()) : std::log(sq > 0 ? sq / 4 : Params::model_spgp::sig());
                }
                SIM_CHECK(hz::close(t.init[k * din + j], e, 1e-6), "initial", "%s: the training starts from %.10g for the parameter %d of the kernel, the data gives %.10g", when, t.init[k * din + j], j, e);
            }
            for (auto& e : t.evals) {
                Fitc ref = reference(e.w, k);
                if (!(ref.cond < 1e9))
                    continue;
                double f = (double)ref.log_lik(), scale = 1 + (double)ref.y.squaredNorm();
                SIM_CHECK(hz::close(e.f, f, 1e-8 + 1e-14 * (double)ref.cond, scale), "objective", "%s: the objective of the training is %.12g for %s (%d samples, %d pseudo-inputs), the log-likelihood of the model %.12g", when, e.f, hz::str(e.w).c_str(), n, k, f);
                if (!e.grad || !(ref.cond < 1e6))
                    continue;
                SIM_CHECK(e.g.size() == e.w.size(), "gradient", "%s: the gradient has %d components instead of %d", when, (int)e.g.size(), (int)e.w.size());
                for (int i = 0; i < e.w.size(); i++) {
                    const double h = 1. / (1 << 18);
                    auto at = [&](double d) {
                        VectorXd a = e.w;
                        a[i] += d;
                        return std::make_pair((LD)a[i] - (LD)e.w[i], reference(a, k).log_lik());
                    };
                    auto slope = [&](double d) {
                        auto p = at(d), q = at(-d);
                        return (p.second - q.second) / (p.first - q.first);
                    };
                    double g = (double)((4 * slope(h) - slope(2 * h)) / 3);
                    SIM_CHECK(hz::close(e.g[i], g, 2e-5 + 1e-12 * (double)ref.cond, scale), "gradient", "%s: component %d of the gradient of the training is %.10g, finite differences give %.10g", when, i, e.g[i], g);
                }
                sim::probe("objective compared");
            }
        }
        VectorXd any_point() const
        {
            return hz::point(din);
        }
        void check(const char* when)
        {
            VectorXd v = any_point(), u = any_point();
            MatrixXd both(2, din);
            both.row(0) = v.transpose(), both.row(1) = u.transpose();
            const M& cm = m;
            SIM_CHECK(cm.nb_samples() == (int)x.size() && cm.dim_in() == din && cm.dim_out() == 1, "data", "%s: the model has %d samples of dimension %d -> %d, %zu of dimension %d -> 1 were given", when, cm.nb_samples(), cm.dim_in(), cm.dim_out(), x.size(), din);
            SIM_CHECK(hz::same_bits(cm.samples(), x), "data", "%s: the samples of the model are not those given", when);
            VectorXd q0, q1, m0 = cm.mu(v);
            double s0, s1, p0 = cm.sigma(v);
            std::tie(q0, s0) = cm.query(v);
            std::tie(q1, s1) = cm.query(u);
            auto pr = cm.predict(both);
            VVec mm = cm.mu_mult(both);
            VectorXd sm = cm.sigma_mult(both);
            sim::Quiet quiet;
            SIM_CHECK(q0.size() == 1 && m0.size() == 1 && pr.first.rows() == 2 && pr.first.cols() == 1 && pr.second.size() == 2 && mm.size() == 2 && sm.size() == 2, "dimensions", "%s: wrong number of answers", when);
            double mu[2], var[2], tol = 1e-9, scale = 1;
            VectorXd at[2] = {v, u};
            if (x.empty())
                for (int i = 0; i < 2; i++)
                    mu[i] = prior(at[i]), var[i] = 1.7;
            else {
                double avg = 0, big = -INFINITY;
                for (double i : y)
                    avg += i / y.size(), big = std::max(big, i);
                SIM_CHECK(hz::close(cm.mean_observation(), hz::vec(avg), 1e-12), "data", "%s: the mean of the observations is %s instead of %.12g", when, hz::str(cm.mean_observation()).c_str(), avg);
                SIM_CHECK(hz::same_bits(VectorXd(cm.max_observation()), hz::vec(big)), "data", "%s: the largest observation is %s instead of %.12g", when, hz::str(cm.max_observation()).c_str(), big);
                int k = pseudo();
                SIM_CHECK(cm.nb_pseudo_samples() == k && cm.pseudo_samples().size() == (size_t)k, "pseudo-inputs", "%s: the model of %zu samples has %d pseudo-inputs instead of %d", when, x.size(), cm.nb_pseudo_samples(), k);
                if (!t.w.allFinite())
                    return;
                Fitc ref = reference(t.w, k);
                VVec ps = cm.pseudo_samples();
                for (int i = 0; i < k; i++)
                    SIM_CHECK(hz::same_bits(ps[i], VectorXd(ref.Z.row(i).transpose().cast<double>())), "pseudo-inputs", "%s: the pseudo-input %s of the model is not the one of the training", when, hz::str(ps[i]).c_str());
                if (!(ref.cond < 1e9))
                    return;
                tol += 1e-14 * (double)ref.cond;
                scale += (double)ref.y.norm();
                for (int i = 0; i < 2; i++) {
                    ref.at(at[i], mu[i], var[i]);
                    mu[i] += prior(at[i]);
                }
                sim::probe("prediction compared");
            }
            for (int i = 0; i < 2; i++) {
                double g[3] = {i ? q1[0] : q0[0], pr.first(i, 0), mm[i][0]}, h[3] = {i ? s1 : s0, pr.second(i, 0), sm[i]};
                for (int j = 0; j < 3; j++) {
                    SIM_CHECK(hz::close(g[j], mu[i], tol, scale), "wrong-mean", "%s (%zu samples): at %s the model predicts %.12g (way %d), the published one %.12g", when, x.size(), hz::str(at[i]).c_str(), g[j], j, mu[i]);
                    SIM_CHECK(hz::close(h[j], var[i], tol, scale), "wrong-variance", "%s (%zu samples): at %s the model has a variance of %.12g (way %d), the published one %.12g", when, x.size(), hz::str(at[i]).c_str(), h[j], j, var[i]);
                }
                sim::evd(g[0]), sim::evd(h[0]);
            }
            SIM_CHECK(hz::close(m0[0], mu[0], tol, scale) && hz::close(p0, var[0], tol, scale), "wrong-mean", "%s: mu() and sigma() at %s are %.12g and %.12g instead of %.12g and %.12g", when, hz::str(v).c_str(), m0[0], p0, mu[0], var[0]);
        }
        double fresh_value() { return hz::value(); }
        void step(const char* who)
        {
            const char* name = "";
            uint32_t op = x.empty() ? sim::draw(2) : sim::draw(8);
            t.mode = (int)sim::draw(3);
            t.threads = sim::irange(1, 3);
            t.tape.clear();
            for (int i = 0; i < 11; i++)
                t.tape.push_back(sim::real(-1, 1));
            t.calls = 0, t.fail = false;
            bool train = true;
            try {
                switch (op) {
                case 0: { // batch
                    name = "compute";
                    din = sim::irange(1, 3);
                    x.clear(), y.clear();
                    int n = sim::flip(0.1) ? sim::irange(13, 20) : sim::irange(1, 12);
                    bool flat = sim::flip(0.05);
                    for (int i = 0; i < n; i++) {
                        x.push_back(hz::fresh_point(din, x));
                        y.push_back(flat && i ? y[0] : fresh_value());
                    }
                    if (sim::flip(0.05)) // one coordinate does not vary
                        for (auto& v : x)
                            if (din > 1)
                                v[0] = x[0][0];
                    for (size_t i = 0; i < x.size(); i++)
                        for (size_t j = 0; j < i; j++)
                            if ((x[i] - x[j]).norm() < 0.01)
                                sim::discard();
                    cst = 0.7;
                    VVec o;
                    for (double v : y)
                        o.push_back(hz::vec(v));
                    int way = (int)sim::draw(4);
                    if (way == 0)
                        m.compute(x, o);
                    else if (way == 1)
                        m.compute(x, hz::rows(o));
                    else if (way == 2)
                        m.compute(hz::rows(x), hz::rows(o));
                    else { // built without training, then trained
                        m = M(x, o);
                        if (sim::flip(0.5))
                            m.optimize_hyperparams();
                        else
                            m.recompute();
                    }
                    break;
                }
                case 1: case 2: { // one more
                    name = "add_sample";
                    if (x.empty() && !sized)
                        din = sim::irange(1, 3);
                    if (x.empty())
                        cst = 0.7;
                    x.push_back(hz::fresh_point(din, x));
                    y.push_back(fresh_value());
                    m.add_sample(x.back(), hz::vec(y.back()));
                    break;
                }
                case 3:
                    name = "optimize_hyperparams";
                    m.optimize_hyperparams();
                    break;
                case 4:
                    name = "recompute";
                    m.recompute();
                    break;
                case 5: { // other parameters of the mean
                    name = "recompute with another mean";
                    VectorXd h = m.mean_function().h_params();
                    if (h.size()) {
                        cst = hz::value();
                        m.mean_function().set_h_params(hz::vec(cst));
                    }
                    m.recompute(true);
                    break;
                }
                case 6: { // copies
                    name = "copy";
                    train = false;
                    if (bad)
                        break;
                    M c(m);
                    M d;
                    d = c;
                    Train other = t, *mine = tr;
                    other.fail = false;
                    tr = &other;
                    {
                        sim::Disarm dis;
                        c.add_sample(hz::fresh_point(din, x), hz::vec(0.5));
                    }
                    tr = mine;
                    m = std::move(d);
                    break;
                }
                case 7:
                    name = "nothing";
                    train = false;
                    break;
                }
            }
            catch (Boom&) {
                SIM_CHECK(t.fail, "exception", "an exception nobody has thrown");
                bad = true;
                sim::ev("%s %s: training fails", who, name);
                return;
            }
            sim::ev("%s %s: %zu samples, %d trainings", who, name, x.size(), t.calls);
            if (train) {
                SIM_CHECK(!t.fail, "exception", "%s: the failure of the training is not reported", name);
                SIM_CHECK(t.calls == 1, "training", "%s: %d trainings", name, t.calls);
                bad = false;
                sim::Quiet q;
                check_training(name);
            }
            if (!bad)
                check(name);
        }
        void history(const char* who, int ops, bool faults)
        {
            Train* old = tr;
            tr = &t;
            sized = sim::flip(0.4);
            if (sized) {
                din = sim::irange(1, 3);
                m = M(din, 1);
                check("before any data");
            }
            for (int i = 0; i < ops; i++) {
                if (faults) {
                    sim::Arm arm({sim::F_USER1});
                    step(who);
                }
                else
                    step(who);
            }
            if (bad) { // when nothing fails any more
                step(who);
            }
            tr = old;
        }
    };
    void knobs()
    {
        static const double P[] = {10, 30, 50, 100};
        g_percent = P[sim::draw(4)];
        g_min = sim::irange(1, 4);
    }
    template <typename Mean>
    void alone_or_not()
    {
        Machine<Mean> a;
        a.history("owner", sim::irange(1, 5), sim::flip(0.4));
        sim::nontrivial();
    }
    template <typename Mean>
    void shared()
    {
        Machine<Mean> a;
        tr = &a.t;
        a.din = sim::irange(1, 3);
        int n = sim::irange(1, 10), nc = sim::irange(2, 3);
        VVec o;
        for (int i = 0; i < n; i++) {
            a.x.push_back(hz::fresh_point(a.din, a.x));
            o.push_back(hz::obs(1));
        }
        for (int i = 0; i < 11; i++)
            a.t.tape.push_back(sim::real(-1, 1));
        {
            sim::Quiet q;
            a.m.compute(a.x, o);
        }
        const Model<Mean>& m = a.m;
        struct Ask {
            int kind;
            VectorXd v;
            std::vector<double> want, got;
        };
        auto ask = [&m](const Ask& q) {
            std::vector<double> r;
            auto put = [&r](const MatrixXd& x) { r.insert(r.end(), x.data(), x.data() + x.size()); };
            MatrixXd two(2, q.v.size());
            two.row(0) = q.v.transpose(), two.row(1) = 0.5 * q.v.transpose();
            switch (q.kind) {
            case 0: {
                auto t = m.query(q.v);
                put(std::get<0>(t)), r.push_back(std::get<1>(t));
                break;
            }
            case 1: put(m.mu(q.v)); break;
            case 2: r.push_back(m.sigma(q.v)); break;
            case 3: {
                auto t = m.predict(two);
                put(t.first), put(t.second);
                break;
            }
            case 4:
                for (auto& s : m.samples())
                    put(s);
                for (auto& s : m.pseudo_samples())
                    put(s);
                put(m.mean_observation());
                break;
            case 5:
                for (auto& s : m.mu_mult(two))
                    put(s);
                put(m.sigma_mult(two));
                break;
            }
            return r;
        };
        std::vector<std::vector<Ask>> cl(nc);
        for (auto& c : cl)
            for (int i = sim::irange(1, 3); i > 0; i--)
                c.push_back(Ask{(int)sim::draw(6), hz::point(a.din), {}, {}});
        {
            sim::Quiet q;
            for (auto& c : cl)
                for (auto& k : c)
                    k.want = ask(k);
        }
        std::vector<int> th;
        for (int i = 0; i < nc; i++)
            th.push_back(sim::spawn(("reader" + std::to_string(i)).c_str(), [&, i] {
                for (auto& k : cl[i])
                    k.got = ask(k);
            }));
        sim::join_all(th);
        for (auto& c : cl)
            for (auto& k : c) {
                bool same = k.want.size() == k.got.size();
                for (size_t i = 0; same && i < k.want.size(); i++)
                    same = hz::same_bits(k.want[i], k.got[i]);
                SIM_CHECK(same, "wrong-answer", "a reader gets another answer (kind %d) than it gets alone", k.kind);
            }
        tr = nullptr;
        sim::nontrivial();
    }
    // several models trained at the same time
    struct Job {
        int din, mode, more;
        VVec x, o;
        std::vector<double> tape;
        std::vector<double> got;
        void run()
        {
            Train t;
            tr = &t;
            t.mode = mode, t.tape = tape, t.threads = 1;
            Model<mean::Data<Params>> m;
            m.compute(x, o);
            for (int i = 0; i < more; i++)
                m.add_sample(x[0] + VectorXd::Constant(din, 1.5 + i), o[0] + VectorXd::Constant(1, 1. + i));
            VectorXd v = VectorXd::Constant(din, 0.4);
            auto q = m.query(v);
            got = {std::get<0>(q)[0], std::get<1>(q)};
            for (int i = 0; i < t.init.size(); i++)
                got.push_back(t.init[i]);
            for (int i = 0; i < t.w.size(); i++)
                got.push_back(t.w[i]);
            tr = nullptr;
        }
    };
}

SIM_SCENARIO(C22, pseudo_history, 4)
{
    knobs();
    switch (sim::draw(4)) {
    case 0: alone_or_not<mean::Data<Params>>(); break;
    case 1: alone_or_not<mean::NullFunction<Params>>(); break;
    case 2: alone_or_not<mean::Constant<Params>>(); break;
    case 3: alone_or_not<Slope<Params>>(); break;
    }
}
SIM_SCENARIO(C22, pseudo_readers, 1)
{
    knobs();
    if (sim::flip(0.5))
        shared<mean::Data<Params>>();
    else
        shared<Slope<Params>>();
}
SIM_SCENARIO(C22, pseudo_together, 1)
{
    knobs();
    int n = sim::irange(2, 3);
    std::vector<Job> alone(n);
    for (auto& j : alone) {
        j.din = sim::irange(1, 2), j.mode = sim::flip(0.2) ? 2 : 0, j.more = sim::irange(0, 2);
        int k = sim::irange(2, 8);
        for (int i = 0; i < k; i++) {
            j.x.push_back(hz::fresh_point(j.din, j.x));
            j.o.push_back(hz::obs(1));
        }
        for (int i = 0; i < 11; i++)
            j.tape.push_back(sim::real(-1, 1));
    }
    std::vector<Job> got = alone;
    auto label = [](int i) { return "trainer" + std::to_string(i); };
    for (int i = 0; i < n; i++)
        sim::join(sim::spawn(label(i).c_str(), [&, i] { sim::Quiet q; alone[i].run(); }));
    std::vector<int> th;
    for (int i = 0; i < n; i++)
        th.push_back(sim::spawn(label(i).c_str(), [&, i] { got[i].run(); }));
    sim::join_all(th);
    for (int i = 0; i < n; i++) {
        bool same = alone[i].got.size() == got[i].got.size();
        for (size_t k = 0; same && k < got[i].got.size(); k++)
            same = hz::same_bits(alone[i].got[k], got[i].got[k]);
        SIM_CHECK(same, "influence", "the model %d is another one when %d are trained at the same time", i, n);
    }
    sim::nontrivial();
}
