// C12: what is saved is what is loaded.
// C13: failures of the archives are reported.
// C14: a model is the posterior of its data after any history, with checkpoints and crashes.
// C15: what the training of the hyper-parameters sees and does.
#include "common.h"
#include <limbo/kernel/exp.hpp>
#include <limbo/kernel/matern_five_halves.hpp>
#include <limbo/kernel/matern_three_halves.hpp>
#include <limbo/kernel/squared_exp_ard.hpp>
#include <limbo/mean/constant.hpp>
#include <limbo/mean/data.hpp>
#include <limbo/mean/function_ard.hpp>
#include <limbo/mean/null_function.hpp>
#include <limbo/model/gp.hpp>
#include <limbo/model/gp/kernel_lf_opt.hpp>
#include <limbo/model/gp/kernel_loo_opt.hpp>
#include <limbo/model/gp/kernel_mean_lf_opt.hpp>
#include <limbo/model/gp/mean_lf_opt.hpp>
#include <limbo/model/gp/no_lf_opt.hpp>
#include <limbo/model/multi_gp.hpp>
#include <limbo/model/sparsified_gp.hpp>
#include <limbo/opt/parallel_repeater.hpp>
#include <limbo/opt/rprop.hpp>
#include <limbo/serialize/binary_archive.hpp>
#include <limbo/serialize/text_archive.hpp>
#include <limits>
#include <memory>
#include <type_traits>

using namespace limbo;
using serialize::BinaryArchive;
using serialize::TextArchive;

namespace {
    int g_k = 0, g_rprop = 2;
    bool g_noise = false;
    struct Params {
        struct kernel : public defaults::kernel {
            BO_PARAM(double, noise, 0.02);
            static bool optimize_noise() { return g_noise; }
        };
        struct kernel_squared_exp_ard : public defaults::kernel_squared_exp_ard {
            BO_PARAM(double, sigma_sq, 1.3);
            static int k() { return g_k; }
        };
        struct kernel_exp : public defaults::kernel_exp {
            BO_PARAM(double, sigma_sq, 0.8);
            BO_PARAM(double, l, 0.4);
        };
        struct kernel_maternfivehalves : public defaults::kernel_maternfivehalves {
            BO_PARAM(double, sigma_sq, 1.1);
            BO_PARAM(double, l, 0.4);
        };
        struct kernel_maternthreehalves : public defaults::kernel_maternthreehalves {
            BO_PARAM(double, l, 0.6);
        };
        struct mean_constant {
            BO_PARAM(double, constant, 0.7);
        };
        struct opt_rprop : public defaults::opt_rprop {
            static int iterations() { return g_rprop; }
        };
        struct opt_parallelrepeater : public defaults::opt_parallelrepeater {
            BO_PARAM(int, repeats, 3);
        };
        struct model_sparse_gp {
            BO_PARAM(int, max_points, 6);
        };
    };
    using SE = kernel::SquaredExpARD<Params>;
    using M5 = kernel::MaternFiveHalves<Params>;
    using M3 = kernel::MaternThreeHalves<Params>;
    using EX = kernel::Exp<Params>;
    using Data = mean::Data<Params>;
    using Const = mean::Constant<Params>;
    using Null = mean::NullFunction<Params>;
    using Ard = mean::FunctionARD<Params, Const>;
    using ArdD = mean::FunctionARD<Params, Data>;

    // ------------------------------------------------------------------ reference formulas, from the hyper-parameters
    double noise_of(const VectorXd& hp) { return g_noise ? std::exp(2 * hp[hp.size() - 1]) : Params::kernel::noise(); }
    template <typename K>
    struct KRef;
    template <>
    struct KRef<SE> {
        static double k(const VectorXd& hp, const VectorXd& a, const VectorXd& b)
        {
            int d = (int)a.size();
            double z = 0;
            for (int i = 0; i < d; i++)
                z += (a[i] - b[i]) * (a[i] - b[i]) * std::exp(-2 * hp[i]);
            for (int j = 0; j < g_k; j++) {
                double t = 0;
                for (int i = 0; i < d; i++)
                    t += (a[i] - b[i]) * hp[d + j * d + i];
                z += t * t;
            }
            return std::exp(2 * hp[d + g_k * d]) * std::exp(-0.5 * z);
        }
        static int size(int d) { return d + g_k * d + 1; }
        static VectorXd init(int d)
        {
            VectorXd v = VectorXd::Zero(size(d));
            v[v.size() - 1] = 0.5 * std::log(1.3);
            return v;
        }
    };
    template <>
    struct KRef<M5> {
        static double k(const VectorXd& hp, const VectorXd& a, const VectorXd& b)
        {
            double r = (a - b).norm() / std::exp(hp[0]), s = std::sqrt(5.) * r;
            return std::exp(2 * hp[1]) * (1 + s + s * s / 3) * std::exp(-s);
        }
        static int size(int) { return 2; }
        static VectorXd init(int)
        {
            VectorXd v(2);
            v << std::log(0.4), 0.5 * std::log(1.1);
            return v;
        }
    };
    template <>
    struct KRef<M3> {
        static double k(const VectorXd& hp, const VectorXd& a, const VectorXd& b)
        {
            double s = std::sqrt(3.) * (a - b).norm() / std::exp(hp[0]);
            return std::exp(2 * hp[1]) * (1 + s) * std::exp(-s);
        }
        static int size(int) { return 2; }
        static VectorXd init(int)
        {
            VectorXd v(2);
            v << std::log(0.6), 0;
            return v;
        }
    };
    template <>
    struct KRef<EX> {
        static double k(const VectorXd& hp, const VectorXd& a, const VectorXd& b) { return std::exp(2 * hp[1] - 0.5 * (a - b).squaredNorm() * std::exp(-2 * hp[0])); }
        static int size(int) { return 2; }
        static VectorXd init(int)
        {
            VectorXd v(2);
            v << std::log(0.4), 0.5 * std::log(0.8);
            return v;
        }
    };
    template <typename M>
    struct MRef;
    template <>
    struct MRef<Data> {
        static VectorXd m(const VectorXd&, const VectorXd& avg, int) { return avg; }
        static VectorXd init(int) { return VectorXd(); }
    };
    template <>
    struct MRef<Null> {
        static VectorXd m(const VectorXd&, const VectorXd&, int dout) { return VectorXd::Zero(dout); }
        static VectorXd init(int) { return VectorXd(); }
    };
    template <>
    struct MRef<Const> {
        static VectorXd m(const VectorXd& hp, const VectorXd&, int dout) { return VectorXd::Constant(dout, hp[0]); }
        static VectorXd init(int) { return VectorXd::Constant(1, 0.7); }
    };
    template <typename Inner>
    struct ArdRef {
        static VectorXd m(const VectorXd& hp, const VectorXd& avg, int dout)
        {
            VectorXd in = MRef<Inner>::m(hp.tail(hp.size() - dout * (dout + 1)), avg, dout), r(dout);
            for (int i = 0; i < dout; i++) {
                r[i] = hp[i * (dout + 1) + dout];
                for (int j = 0; j < dout; j++)
                    r[i] += hp[i * (dout + 1) + j] * in[j];
            }
            return r;
        }
        static VectorXd init(int dout)
        {
            VectorXd t = MRef<Inner>::init(dout), h = VectorXd::Zero(dout * (dout + 1) + t.size());
            for (int i = 0; i < dout; i++)
                h[i * (dout + 1) + i] = 1;
            h.tail(t.size()) = t;
            return h;
        }
    };
    template <>
    struct MRef<Ard> : ArdRef<Const> {
    };
    template <>
    struct MRef<ArdD> : ArdRef<Data> {
    };

    // what the model has to be
    template <typename K, typename M>
    struct Shadow {
        int din = 0, dout = 0;
        VVec x, y;
        VectorXd kp, mp;
        void dims(int i, int o)
        {
            if (i != din) {
                din = i;
                kp = KRef<K>::init(i);
                if (g_noise) {
                    kp.conservativeResize(kp.size() + 1);
                    kp[kp.size() - 1] = 0.5 * std::log(0.02);
                }
            }
            if (o != dout) {
                dout = o;
                mp = MRef<M>::init(o);
            }
        }
        VectorXd avg() const
        {
            VectorXd a = VectorXd::Zero(dout);
            for (auto& v : y)
                a += v;
            return y.empty() ? a : VectorXd(a / (double)y.size());
        }
        // likelihood and leave-one-out score at some hyper-parameters
        struct Ref {
            MatrixXd Km, Ki, R, A;
            double lik, loo, cond;
        };
        Ref ref(const VectorXd& k, const VectorXd& m) const
        {
            Ref r;
            int n = (int)x.size();
            r.Km.resize(n, n);
            r.R.resize(n, dout);
            VectorXd a = avg();
            for (int i = 0; i < n; i++) {
                for (int j = 0; j < n; j++)
                    r.Km(i, j) = KRef<K>::k(k, x[i], x[j]) + (i == j ? noise_of(k) + 1e-8 : 0);
                r.R.row(i) = (y[i] - MRef<M>::m(m, a, dout)).transpose();
            }
            r.Ki = Eigen::PartialPivLU<MatrixXd>(r.Km).inverse();
            r.cond = r.Km.norm() * r.Ki.norm();
            r.A = r.Ki * r.R;
            Eigen::LLT<MatrixXd> llt(r.Km);
            MatrixXd L = llt.matrixL();
            r.lik = -0.5 * (r.R.transpose() * r.A).trace() - L.diagonal().array().log().sum() - 0.5 * n * std::log(2 * M_PI);
            r.loo = 0;
            for (int c = 0; c < dout; c++)
                for (int i = 0; i < n; i++) {
                    double s2 = 1 / r.Ki(i, i);
                    r.loo += -0.5 * std::log(s2) - 0.5 * r.A(i, c) * r.A(i, c) * s2 - 0.5 * std::log(2 * M_PI);
                }
            return r;
        }
        VectorXd fd(bool kernel, bool loo) const
        {
            VectorXd p = kernel ? kp : mp, g(p.size());
            for (int i = 0; i < p.size(); i++) {
                const double h = 1e-5;
                VectorXd a = p, b = p;
                a[i] += h, b[i] -= h;
                Ref ra = ref(kernel ? a : kp, kernel ? mp : a), rb = ref(kernel ? b : kp, kernel ? mp : b);
                g[i] = ((loo ? ra.loo : ra.lik) - (loo ? rb.loo : rb.lik)) / (2 * h);
            }
            return g;
        }
    };
    bool near(const VectorXd& a, const VectorXd& b, double tol)
    {
        return a.size() == b.size() && (a.size() == 0 || hz::close(a, b, tol));
    }
    template <typename Model, typename S>
    void verify(const Model& cm, const S& s, const char* when, bool grads, double dtol = 1e-12)
    {
        SIM_CHECK(cm.dim_in() == s.din && cm.dim_out() == s.dout, "dimensions", "%s: the model is in dimension %d -> %d instead of %d -> %d", when, cm.dim_in(), cm.dim_out(), s.din, s.dout);
        SIM_CHECK(cm.nb_samples() == (int)s.x.size() && cm.samples().size() == s.x.size() && cm.observations().size() == s.y.size(), "data", "%s: the model has %d samples instead of %zu", when, cm.nb_samples(), s.x.size());
        auto o = cm.observations();
        for (size_t i = 0; i < s.x.size(); i++)
            SIM_CHECK(near(cm.samples()[i], s.x[i], dtol) && near(o[i], s.y[i], dtol), "data", "%s: sample %zu of the model is not the one it was given", when, i);
        SIM_CHECK(near(cm.kernel_function().h_params(), s.kp, dtol), "parameters", "%s: kernel parameters %s instead of %s", when, hz::str(cm.kernel_function().h_params()).c_str(), hz::str(s.kp).c_str());
        SIM_CHECK(near(cm.mean_function().h_params(), s.mp, dtol), "parameters", "%s: mean parameters %s instead of %s", when, hz::str(cm.mean_function().h_params()).c_str(), hz::str(s.mp).c_str());
        SIM_CHECK(cm.mean_function().h_params_size() == (size_t)s.mp.size() && cm.kernel_function().h_params_size() == (size_t)s.kp.size(), "parameters", "%s: wrong number of parameters", when);
        SIM_CHECK(near(cm.mean_observation(), s.avg(), 1e-12), "data", "%s: the mean observation is %s instead of %s", when, hz::str(cm.mean_observation()).c_str(), hz::str(s.avg()).c_str());
        VectorXd z(s.din);
        static int calls = 0; // (every second time in the other order: the first point is also the last one asked before)
        calls++;
        for (int q0 = 0; q0 < 4; q0++) {
            int q = calls % 2 ? q0 : 3 - q0;
            for (int i = 0; i < s.din; i++)
                z[i] = 0.5 + 0.37 * std::cos(q * 2.1 + i * 1.3);
            if (q == 3 && !s.x.empty())
                z = s.x[s.x.size() / 2]; // at a sample
            double kzz = KRef<typename S::kernel_t>::k(s.kp, z, z);
            VectorXd mean = MRef<typename S::mean_t>::m(s.mp, s.avg(), s.dout), mu = mean;
            double var = kzz, tol = 1e-9;
            if (!s.x.empty()) {
                auto r = s.ref(s.kp, s.mp);
                VectorXd k(s.x.size());
                for (int i = 0; i < k.size(); i++)
                    k[i] = KRef<typename S::kernel_t>::k(s.kp, z, s.x[i]);
                mu += (k.transpose() * r.A).transpose();
                var -= k.dot(r.Ki * k);
                tol += 1e-13 * r.cond * (1 + r.A.norm());
            }
            var = std::max(var, 0.) + noise_of(s.kp);
            VectorXd m2;
            double v2;
            std::tie(m2, v2) = cm.query(z);
            SIM_CHECK(hz::close(m2, mu, tol) && hz::close(cm.mu(z), mu, tol), "wrong-mean", "%s: at %s the model predicts %s (query: %s), the posterior is %s", when, hz::str(z).c_str(), hz::str(cm.mu(z)).c_str(), hz::str(m2).c_str(), hz::str(mu).c_str());
            SIM_CHECK(hz::close(v2, var, tol) && hz::close(cm.sigma(z), var, tol), "wrong-variance", "%s: at %s the model has a variance of %.12g (query: %.12g), the posterior has %.12g", when, hz::str(z).c_str(), cm.sigma(z), v2, var);
            sim::evd(m2[0]);
        }
        if (s.x.empty())
            return;
        auto r = s.ref(s.kp, s.mp);
        double tol = 1e-8 + 1e-12 * r.cond;
        Model c(cm);
        double lik = c.compute_log_lik(), loo = c.compute_log_loo_cv();
        SIM_CHECK(hz::close(lik, r.lik, tol, 1 + std::fabs(r.R.squaredNorm())) && c.get_log_lik() == lik, "wrong-likelihood", "%s: the log-likelihood is %.12g, the model says %.12g", when, r.lik, lik);
        SIM_CHECK(hz::close(loo, r.loo, tol, 1 + std::fabs(r.R.squaredNorm())) && c.get_log_loo_cv() == loo, "wrong-loo", "%s: the leave-one-out score is %.12g, the model says %.12g", when, r.loo, loo);
        if (grads && r.cond < 1e5) {
            VectorXd a = c.compute_kernel_grad_log_lik(), b = s.fd(true, false);
            double gt = 1e-4 + 1e-9 * r.cond;
            SIM_CHECK(near(a, b, gt), "wrong-gradient", "%s: gradient of the log-likelihood %s, finite differences give %s", when, hz::str(a).c_str(), hz::str(b).c_str());
            a = c.compute_kernel_grad_log_loo_cv(), b = s.fd(true, true);
            SIM_CHECK(near(a, b, gt), "wrong-gradient", "%s: gradient of the leave-one-out score %s, finite differences give %s", when, hz::str(a).c_str(), hz::str(b).c_str());
            if (s.mp.size()) {
                a = c.compute_mean_grad_log_lik(), b = s.fd(false, false);
                SIM_CHECK(near(a, b, gt), "wrong-gradient", "%s: gradient of the log-likelihood in the mean %s, finite differences give %s", when, hz::str(a).c_str(), hz::str(b).c_str());
            }
        }
    }
    template <typename K, typename M>
    struct Sh : Shadow<K, M> {
        using kernel_t = K;
        using mean_t = M;
    };
    VectorXd params_like(int n, double scale = 1)
    {
        VectorXd v(n);
        for (int i = 0; i < n; i++)
            v[i] = scale * sim::real(-1, 1);
        return v;
    }
    void knobs()
    {
        g_k = sim::flip(0.3) ? sim::irange(1, 2) : 0;
        g_noise = sim::flip(0.5);
        g_rprop = sim::irange(1, 3);
    }
}

#if defined(PART_C12) || defined(PART_C13)
// ------------------------------------------------------------------ C12, C13
namespace {
    double special()
    {
        static const double v[] = {0., -0., 1., -1.5, 1e-300, 4.9406564584124654e-324, -2.2e-310, 1.7976931348623157e308, -1e22, 0.1, 1. / 3, 12345.678901234567};
        int i = sim::draw(16);
        return i < 12 ? v[i] : hz::value() * std::exp(sim::real(-40, 40));
    }
    MatrixXd matrix(int r, int c)
    {
        MatrixXd m(r, c);
        for (int i = 0; i < r; i++)
            for (int j = 0; j < c; j++)
                m(i, j) = special();
        return m;
    }
    // many rows of a few values
    MatrixXd tall(int r, int c)
    {
        MatrixXd b = matrix(5, c), m(r, c);
        for (int i = 0; i < r; i++)
            m.row(i) = b.row((i + i / 5) % 5);
        return m;
    }
    bool same(const MatrixXd& a, const MatrixXd& b, bool exact)
    {
        if (a.rows() != b.rows() || a.cols() != b.cols())
            return false;
        for (int i = 0; i < a.rows(); i++)
            for (int j = 0; j < a.cols(); j++) {
                double x = a(i, j), y = b(i, j);
                if (exact ? !hz::same_bits(x, y) : !(x == y || std::fabs(x - y) <= 6e-15 * std::fabs(x) + 5e-324)) {
                    sim::ev("%.17g became %.17g", x, y);
                    return false;
                }
            }
        return true;
    }
    const char* name_of(TextArchive*) { return "text"; }
    const char* name_of(BinaryArchive*) { return "binary"; }
    template <typename A>
    constexpr bool exact() { return true; } // both archives are
    template <typename A>
    constexpr bool binary() { return std::is_same<A, BinaryArchive>::value; }

    // all that can be seen of a model, and what becomes of it
    void put(std::vector<double>& o, double d) { o.push_back(d); }
    void put(std::vector<double>& o, const VectorXd& v)
    {
        o.push_back(v.size());
        for (int i = 0; i < v.size(); i++)
            o.push_back(v[i]);
    }
    template <typename Model>
    void more(const Model& m, std::vector<double>& o, double)
    {
        put(o, m.kernel_function().h_params());
        put(o, m.mean_function().h_params());
        Model c(m);
        put(o, c.compute_log_lik());
        put(o, c.compute_log_loo_cv());
        put(o, c.compute_kernel_grad_log_lik());
    }
    template <typename Model>
    void more(const Model& m, std::vector<double>& o, const VectorXd&)
    {
        put(o, m.mean_function().h_params());
        for (auto& g : m.gp_models())
            more(g, o, 0.);
    }
    // the data, to be compared exactly
    template <typename Model>
    std::vector<double> data_of(const Model& m)
    {
        std::vector<double> o;
        put(o, (double)m.nb_samples());
        put(o, (double)m.dim_in());
        put(o, (double)m.dim_out());
        for (auto& v : m.samples())
            put(o, v);
        for (auto& v : m.observations())
            put(o, v);
        return o;
    }
    template <typename Model>
    std::vector<double> portrait(const Model& cm, const VVec& q, const VVec& qy)
    {
        std::vector<double> o;
        Model m(cm);
        put(o, m.mean_observation());
        for (size_t i = 0; i < q.size(); i++) {
            auto r = m.query(q[i]);
            put(o, std::get<0>(r));
            put(o, std::get<1>(r));
            put(o, m.mu(q[i]));
            put(o, m.sigma(q[i]));
        }
        more(m, o, decltype(m.sigma(q[0]))());
        for (size_t i = 0; i < qy.size(); i++)
            m.add_sample(q[i], qy[i]);
        put(o, m.mu(q.back()));
        put(o, m.sigma(q.back()));
        more(m, o, decltype(m.sigma(q[0]))());
        return o;
    }
    bool agree(const std::vector<double>& a, const std::vector<double>& b, double tol, std::string& why)
    {
        if (a.size() != b.size()) {
            why = std::to_string(b.size()) + " numbers instead of " + std::to_string(a.size());
            return false;
        }
        for (size_t i = 0; i < a.size(); i++)
            if (!hz::close(a[i], b[i], tol)) {
                char s[100];
                snprintf(s, sizeof s, "number %zu is %.17g instead of %.17g", i, b[i], a[i]);
                why = s;
                return false;
            }
        return true;
    }
    template <typename Model>
    auto randomize(Model& m, const VectorXd& p, const VectorXd& mp, int) -> decltype(m.kernel_function(), void())
    {
        VectorXd h = m.kernel_function().h_params();
        for (int i = 0; i < h.size(); i++)
            h[i] = 0.5 * p[i % p.size()];
        m.kernel_function().set_h_params(h);
        VectorXd g = m.mean_function().h_params();
        for (int i = 0; i < g.size(); i++)
            g[i] = mp[i % mp.size()];
        m.mean_function().set_h_params(g);
    }
    template <typename Model>
    void randomize(Model& m, const VectorXd& p, const VectorXd& mp, long)
    {
        VectorXd g = m.mean_function().h_params();
        for (int i = 0; i < g.size(); i++)
            g[i] = mp[i % mp.size()];
        m.mean_function().set_h_params(g);
        auto& v = m.gp_models();
        for (size_t k = 0; k < v.size(); k++)
            randomize(v[k], p.head(1 + k % p.size()), mp, 0);
    }
    struct Recipe {
        int din, dout;
        VVec x, y;
        bool incremental, randomized;
        VectorXd p, mp;
        VVec q, qy;
        uint32_t late;
    };
    Recipe recipe(int max_out)
    {
        Recipe r;
        r.din = sim::irange(1, 3), r.dout = sim::irange(1, max_out);
        int n = sim::flip(0.06) ? sim::irange(8, 24) : sim::irange(1, 7);
        for (int i = 0; i < n; i++) {
            r.x.push_back(hz::fresh_point(r.din, r.x));
            r.y.push_back(hz::obs(r.dout));
        }
        r.incremental = sim::flip(0.5);
        r.randomized = sim::flip(0.6);
        r.p = params_like(5), r.mp = params_like(5);
        for (int i = 0; i < 2; i++) {
            r.q.push_back(hz::fresh_point(r.din, r.x));
            r.qy.push_back(hz::obs(r.dout));
        }
        r.late = sim::draw(3);
        if (sim::flip(0.06))
            r.p.setZero();
        if (sim::flip(0.06))
            r.mp.setZero();
        return r;
    }
    template <typename Model>
    Model make(const Recipe& r)
    {
        sim::Disarm d;
        Model m(r.din, r.dout);
        if (r.randomized)
            randomize(m, r.p, r.mp, 0);
        if (r.incremental)
            for (size_t i = 0; i < r.x.size(); i++)
                m.add_sample(r.x[i], r.y[i]);
        else
            m.compute(r.x, r.y);
        return m;
    }
    void dirty(Recipe& r)
    {
        // another model, of other dimensions
        r.din = r.din % 3 + 1;
        r.dout = 1;
        for (auto& v : r.x)
            v = VectorXd::Constant(r.din, v[0]);
        for (auto& v : r.y)
            v = VectorXd::Constant(1, v[0]);
        r.x.resize(1), r.y.resize(1);
    }
    // a model that has all it can compute in advance
    template <typename Model>
    auto all_computed(Model& m, int) -> decltype(m.compute_log_lik(), void())
    {
        m.compute_log_lik();
        m.compute_log_loo_cv();
        m.compute_inv_kernel();
    }
    template <typename Model>
    void all_computed(Model& m, long)
    {
        for (auto& g : m.gp_models())
            all_computed(g, 0);
    }
    template <typename Model, typename A>
    void load_check(const std::string& dir, const Recipe& rc, const std::vector<double>& data, const std::vector<double>& want, bool rec, int how, const char* who)
    {
        Model m;
        if (how == 1)
            m = Model(rc.din, rc.dout);
        else if (how == 2) {
            Recipe o = rc;
            if (sim::flip(0.5))
                dirty(o);
            else
                o.p *= 0.5, o.mp *= -0.5, o.y[0] *= 2; // other contents, the same size
            m = make<Model>(o);
            if (sim::flip(0.5))
                all_computed(m, 0);
        }
        if (how % 2)
            m.template load<A>(dir, rec);
        else {
            A a(dir);
            m.load(a, rec);
        }
        sim::Quiet q;
        std::string why;
        A* n = nullptr;
        SIM_CHECK(agree(data, data_of(m), exact<A>() ? 0 : 6e-15, why), "round-trip", "%s: the model loaded from a %s archive (recompute=%d) has other data: %s", who, name_of(n), rec, why.c_str());
        SIM_CHECK(agree(want, portrait(m, rc.q, rc.qy), 1e-7, why), "round-trip", "%s: the model loaded from a %s archive (recompute=%d) is another one: %s", who, name_of(n), rec, why.c_str());
    }
    struct Kept { // survives the crashes
        uint32_t nd, nw;
        double v[40000];
    };
    void keep(Kept* k, const std::vector<double>& d, const std::vector<double>& w)
    {
        if (d.size() + w.size() > 40000)
            sim::fail("internal", "portrait too large");
        k->nd = (uint32_t)d.size(), k->nw = (uint32_t)w.size();
        std::copy(d.begin(), d.end(), k->v);
        std::copy(w.begin(), w.end(), k->v + d.size());
    }
    const std::initializer_list<sim::Fault> SOFT{sim::F_WRITE_SHORT, sim::F_WRITE_EINTR, sim::F_READ_SHORT, sim::F_READ_EINTR};

    template <template <typename> class Fn>
    void pick_model(int which)
    {
        using model::GP;
        using model::MultiGP;
        using model::SparsifiedGP;
        using N = model::gp::NoLFOpt<Params>;
        switch (which) {
        case 0: Fn<GP<Params, SE, Data, N>>::run(3); break;
        case 1: Fn<GP<Params, M5, Const, N>>::run(2); break;
        case 2: Fn<GP<Params, M3, Ard, N>>::run(2); break;
        case 3: Fn<GP<Params, EX, Null, N>>::run(2); break;
        case 4: Fn<MultiGP<Params, GP, SE, Data>>::run(sim::flip(0.15) ? 7 : 3); break;
        case 5: Fn<MultiGP<Params, GP, M5, Const>>::run(2); break;
        case 6: Fn<SparsifiedGP<Params, SE, Data, N>>::run(2); break;
        }
    }
}
#endif

#ifdef PART_C12
namespace {
    template <typename A>
    void raw_trip(const std::string& dir, int seed, std::vector<MatrixXd> ms, std::vector<VVec> vs, const std::vector<int>& order)
    {
        A a(dir);
        auto mname = [](size_t i) { return "m" + std::to_string(i % 2); };
        auto vname = [](size_t i) { return "v" + std::to_string(i % 2); };
        std::vector<int> lastm(2, -1), lastv(2, -1);
        for (int k : order) {
            if (k < (int)ms.size()) {
                a.save(ms[k], mname(k));
                lastm[k % 2] = k;
            }
            else {
                size_t j = k - ms.size();
                a.save(vs[j], vname(j));
                lastv[j % 2] = (int)j;
            }
        }
        for (int i = 0; i < 2; i++) {
            A* n = nullptr;
            if (lastm[i] >= 0) {
                MatrixXd m = MatrixXd::Constant(2, 2, 5.);
                a.load(m, mname(lastm[i]));
                SIM_CHECK(same(ms[lastm[i]], m, exact<A>()), "round-trip", "a %dx%d matrix is not what was saved in a %s archive (%dx%d)", (int)m.rows(), (int)m.cols(), name_of(n), (int)ms[lastm[i]].rows(), (int)ms[lastm[i]].cols());
                if (ms[lastm[i]].cols() == 1) {
                    VectorXd v;
                    a.load(v, mname(lastm[i]));
                    SIM_CHECK(same(ms[lastm[i]], v, exact<A>()), "round-trip", "a vector is not what was saved in a %s archive", name_of(n));
                }
            }
            if (lastv[i] >= 0) {
                VVec v{VectorXd::Zero(3)};
                a.load(v, vname(lastv[i]));
                const VVec& w = vs[lastv[i]];
                SIM_CHECK(v.size() == w.size(), "round-trip", "%zu vectors are loaded from a %s archive instead of %zu", v.size(), name_of(n), w.size());
                for (size_t j = 0; j < v.size(); j++)
                    SIM_CHECK(same(w[j], v[j], exact<A>()), "round-trip", "vector %zu is not what was saved in a %s archive", j, name_of(n));
            }
        }
        (void)seed;
    }
    template <typename Model>
    struct Trip {
        static void run(int max_out)
        {
            if (sim::flip(0.5))
                go<TextArchive>(max_out);
            else
                go<BinaryArchive>(max_out);
        }
        template <typename A>
        static void go(int max_out)
        {
            static const char* D[] = {"arch", "results/run/arch", "./arch2", "arch/"};
            std::string dir = D[sim::draw(4)];
            Recipe rc = recipe(max_out);
            int attempts = sim::irange(0, 2); // saves of other models that may be killed
            bool over = sim::flip(0.5);
            Kept* kept = (Kept*)sim::persistent(sizeof(Kept));
            for (int i = 0; i < attempts; i++) {
                Recipe o = rc;
                if (over)
                    dirty(o);
                else
                    o.x.push_back(hz::fresh_point(o.din, o.x)), o.y.push_back(hz::obs(o.dout));
                sim::Exit e = sim::incarnation([&] {
                    sim::Arm arm({sim::F_CRASH, sim::F_WRITE_SHORT, sim::F_WRITE_EINTR});
                    Model m = make<Model>(o);
                    A a(dir);
                    m.save(a);
                });
                if (e == sim::EXIT_CRASH)
                    sim::probe("killed while saving");
            }
            bool by_name = sim::flip(0.5);
            sim::incarnation([&] {
                sim::Arm arm(SOFT);
                Model m = make<Model>(rc);
                {
                    sim::Quiet q;
                    keep(kept, data_of(m), portrait(m, rc.q, rc.qy));
                }
                if (by_name)
                    m.template save<A>(dir);
                else {
                    A a(dir);
                    m.save(a);
                }
                sim::Quiet q;
                std::string why;
                SIM_CHECK(agree({kept->v + kept->nd, kept->v + kept->nd + kept->nw}, portrait(m, rc.q, rc.qy), 0, why), "save-changes", "saving changes the model: %s", why.c_str());
            });
            std::vector<double> data(kept->v, kept->v + kept->nd), want(kept->v + kept->nd, kept->v + kept->nd + kept->nw);
            int loads = sim::irange(1, 2);
            for (int i = 0; i < loads; i++) {
                bool rec = sim::flip(0.5);
                int how = sim::draw(3);
                sim::incarnation([&] {
                    sim::Arm arm(SOFT);
                    load_check<Model, A>(dir, rc, data, want, rec, how, "another process");
                });
            }
            sim::nontrivial();
        }
    };
    // several threads, each with its archive, some with the one of the others
    template <typename Model>
    struct Threads {
        static void run(int max_out)
        {
            int n = sim::irange(2, 3);
            std::vector<Recipe> rc;
            std::vector<int> text(n), rec(n), how(n), th;
            std::vector<std::vector<double>> data(n), want(n);
            for (int i = 0; i < n; i++) {
                rc.push_back(recipe(max_out));
                text[i] = sim::flip(0.5), rec[i] = sim::flip(0.5), how[i] = sim::draw(3);
            }
            auto dir = [](int i) { return "all/" + std::to_string(i); };
            {
                sim::Arm arm(SOFT);
                for (int i = 0; i < n; i++)
                    th.push_back(sim::spawn(("archivist" + std::to_string(i)).c_str(), [&, i] {
                        Model m = make<Model>(rc[i]);
                        {
                            sim::Quiet q;
                            data[i] = data_of(m);
                            want[i] = portrait(m, rc[i].q, rc[i].qy);
                        }
                        if (text[i]) {
                            m.template save<TextArchive>(dir(i));
                            load_check<Model, TextArchive>(dir(i), rc[i], data[i], want[i], rec[i], how[i], "the same thread");
                        }
                        else {
                            m.template save<BinaryArchive>(dir(i));
                            load_check<Model, BinaryArchive>(dir(i), rc[i], data[i], want[i], rec[i], how[i], "the same thread");
                        }
                    }));
                sim::join_all(th);
                th.clear();
                for (int i = 0; i < n; i++)
                    th.push_back(sim::spawn(("reader" + std::to_string(i)).c_str(), [&, i] {
                        int j = (i + 1) % n;
                        if (i == 2)
                            j = 1; // two readers of one archive
                        if (text[j])
                            load_check<Model, TextArchive>(dir(j), rc[j], data[j], want[j], rec[i], how[i], "another thread");
                        else
                            load_check<Model, BinaryArchive>(dir(j), rc[j], data[j], want[j], rec[i], how[i], "another thread");
                    }));
                sim::join_all(th);
            }
            sim::nontrivial();
        }
    };
}
SIM_SCENARIO(C12, raw, 1)
{
    int n = sim::irange(1, 3), l = sim::irange(0, 3);
    std::vector<MatrixXd> ms;
    std::vector<VVec> vs;
    for (int i = 0; i < n; i++)
        if (sim::flip(0.04)) // (more rows than 16 bits can count, sometimes)
            ms.push_back(tall(sim::flip(0.2) ? 33000 + sim::irange(0, 33000) : sim::irange(6, 1500), sim::irange(1, 2)));
        else
            ms.push_back(matrix(sim::irange(1, 5), sim::irange(1, sim::flip(0.1) ? 700 : 4)));
    for (int i = 0; i < l; i++) {
        VVec v;
        int c = sim::irange(1, sim::flip(0.08) ? sim::flip(0.3) ? 600 : 80 : 5), d = sim::irange(1, 4);
        for (int k = 0; k < c; k++)
            v.push_back(matrix(sim::flip(0.2) ? sim::irange(1, 3) : d, 1));
        vs.push_back(v);
    }
    std::vector<int> order;
    int ops = sim::irange(1, 6);
    for (int i = 0; i < ops; i++)
        order.push_back(sim::draw(n + l));
    bool text = sim::flip(0.5);
    sim::incarnation([&] {
        sim::Arm arm(SOFT);
        if (text)
            raw_trip<TextArchive>("store", 0, ms, vs, order);
        else
            raw_trip<BinaryArchive>("store", 0, ms, vs, order);
    });
    sim::nontrivial();
}
SIM_SCENARIO(C12, models, 3)
{
    knobs();
    pick_model<Trip>(sim::draw(7));
}
SIM_SCENARIO(C12, threads, 1)
{
    knobs();
    pick_model<Threads>(sim::draw(6));
}
#endif

#ifdef PART_C13
namespace {
    template <typename Model>
    struct Faulty {
        static void run(int max_out)
        {
            if (sim::flip(0.5))
                go<TextArchive>(max_out);
            else
                go<BinaryArchive>(max_out);
        }
        static uint32_t hard()
        {
            return sim::injected(sim::F_WRITE_ENOSPC) + sim::injected(sim::F_WRITE_EIO) + sim::injected(sim::F_CLOSE_EIO) + sim::injected(sim::F_OPEN) + sim::injected(sim::F_MKDIR) + sim::injected(sim::F_READ_EIO);
        }
        template <typename A>
        static void go(int max_out)
        {
            A* nm = nullptr;
            Recipe rc = recipe(max_out);
            Model m = make<Model>(rc);
            std::vector<double> data = data_of(m), want = portrait(m, rc.q, rc.qy);
            std::string dir = "arch";
            bool there = sim::flip(0.5); // a previous archive
            if (there) {
                Recipe o = rc;
                dirty(o);
                make<Model>(o).template save<A>(dir);
            }
            bool failed = false;
            int tries = 0;
            for (; tries < 4; tries++) {
                uint32_t h = hard();
                try {
                    sim::Arm arm({sim::F_WRITE_SHORT, sim::F_WRITE_EINTR, sim::F_WRITE_ENOSPC, sim::F_WRITE_EIO, sim::F_CLOSE_EIO, sim::F_OPEN, sim::F_MKDIR});
                    A a(dir);
                    m.save(a);
                    failed = false;
                }
                catch (std::exception& e) {
                    sim::ev("save: %s", e.what());
                    failed = true;
                }
                SIM_CHECK(failed || hard() == h, "silent-save", "a %s archive is saved without a word although %u operations on its files have failed", name_of(nm), hard() - h);
                SIM_CHECK(!failed || hard() != h, "false-failure", "saving a %s archive fails although no operation on its files does", name_of(nm));
                sim::disk_capacity(-1);
                if (!failed)
                    break;
                sim::probe("failed save");
            }
            if (failed) { // the disk works again
                sim::Disarm d;
                m.template save<A>(dir);
            }
            {
                sim::Disarm d;
                load_check<Model, A>(dir, rc, data, want, sim::flip(0.5), 0, "after failures");
            }
            // reading
            Model l;
            bool rec = sim::flip(0.5);
            for (tries = 0; tries < 4; tries++) {
                uint32_t h = hard();
                try {
                    sim::Arm arm({sim::F_READ_SHORT, sim::F_READ_EINTR, sim::F_READ_EIO, sim::F_OPEN});
                    l.template load<A>(dir, rec);
                    failed = false;
                }
                catch (std::exception& e) {
                    sim::ev("load: %s", e.what());
                    failed = true;
                }
                SIM_CHECK(failed || hard() == h, "silent-load", "a %s archive is loaded without a word although %u operations on its files have failed", name_of(nm), hard() - h);
                SIM_CHECK(!failed || hard() != h, "false-failure", "loading a %s archive fails although no operation on its files does", name_of(nm));
                if (!failed)
                    break;
                sim::probe("failed load");
            }
            sim::Disarm d;
            if (failed)
                l.template load<A>(dir, rec);
            std::string why;
            SIM_CHECK(agree(data, data_of(l), exact<A>() ? 0 : 6e-15, why) && agree(want, portrait(l, rc.q, rc.qy), 1e-7, why), "round-trip", "after failed loads the model is another one: %s", why.c_str());
            // missing and damaged files
            std::string all = sim::disk_copy_all();
            std::vector<std::string> fs;
            for (auto& f : sim::disk_list())
                if (f.back() != '/')
                    fs.push_back(f);
            int damages = sim::irange(1, 3);
            for (int i = 0; i < damages; i++) {
                std::string f = fs[sim::draw(fs.size())], s;
                sim::disk_read(f, s);
                int what = binary<A>() ? sim::draw(3) : sim::draw(2);
                if (what == 0)
                    sim::disk_remove(f);
                else if (what == 1)
                    sim::disk_write(f, "");
                else
                    sim::disk_write(f, s.substr(0, sim::draw(s.size())));
                Model x;
                failed = false;
                try {
                    x.template load<A>(dir, false);
                }
                catch (std::exception& e) {
                    sim::ev("damaged %s: %s", f.c_str(), e.what());
                    failed = true;
                }
                if (!failed) {
                    // (files of a previous model, not needed by this one)
                    bool ok = agree(data, data_of(x), exact<A>() ? 0 : 6e-15, why) && agree(want, portrait(x, rc.q, rc.qy), 1e-7, why);
                    SIM_CHECK(ok, "silent-load", "a %s archive with %s %s is loaded without a word as another model", name_of(nm), what == 0 ? "no" : what == 1 ? "an empty" : "an incomplete", f.c_str());
                    SIM_CHECK(there, "silent-load", "a %s archive without %s is loaded", name_of(nm), f.c_str());
                }
                sim::disk_restore_all(all);
            }
            sim::nontrivial();
        }
    };
    template <typename A>
    void raw_damage()
    {
        A a("store");
        A* nm = nullptr;
        MatrixXd m = matrix(sim::irange(2, 5), sim::irange(2, 4));
        a.save(m, "m");
        std::string f = a.fname("m"), s;
        sim::disk_read(f, s);
        if (binary<A>())
            s = s.substr(0, sim::draw(s.size()));
        else {
            // cut between two cells of a row that is not the first
            std::vector<size_t> cuts;
            for (size_t i = s.find('\n'); i < s.size(); i++)
                if (s[i] == ' ')
                    cuts.push_back(i);
            s = s.substr(0, cuts[sim::draw(cuts.size())]);
        }
        sim::disk_write(f, s);
        bool failed = false;
        try {
            MatrixXd x;
            a.load(x, "m");
        }
        catch (std::exception&) {
            failed = true;
        }
        SIM_CHECK(failed, "silent-load", "an incomplete matrix is loaded from a %s archive", name_of(nm));
        failed = false;
        try {
            VVec x;
            a.load(x, "none");
        }
        catch (std::exception&) {
            failed = true;
        }
        SIM_CHECK(failed, "silent-load", "vectors that do not exist are loaded from a %s archive", name_of(nm));
        failed = false;
        try {
            VectorXd x;
            a.load(x, "none");
        }
        catch (std::exception&) {
            failed = true;
        }
        SIM_CHECK(failed, "silent-load", "a vector that does not exist is loaded from a %s archive", name_of(nm));
        sim::nontrivial();
    }
}
SIM_SCENARIO(C13, faults, 4)
{
    knobs();
    pick_model<Faulty>(sim::draw(7));
}
SIM_SCENARIO(C13, raw_damage_, 1)
{
    sim::Disarm d;
    if (sim::flip(0.5))
        raw_damage<TextArchive>();
    else
        raw_damage<BinaryArchive>();
}
#endif

#ifdef PART_C14
// ------------------------------------------------------------------ C14
namespace {
    struct Op {
        int kind, arch, rec;
        VVec x, y;
        std::vector<double> r;
    };
    struct Saved {
        int op; // the history up to here is in the checkpoint
        int slot, arch;
        int nk, nm;
        double kp[64], mp[64];
    };
    struct Hist {
        Saved s;
        int done; // operations that have been executed at least once
    };
    template <typename S>
    void keep(Saved& d, const S& s)
    {
        d.nk = (int)s.kp.size(), d.nm = (int)s.mp.size();
        for (int i = 0; i < d.nk; i++)
            d.kp[i] = s.kp[i];
        for (int i = 0; i < d.nm; i++)
            d.mp[i] = s.mp[i];
    }
    VectorXd some(const std::vector<double>& r, int n, int from = 0)
    {
        VectorXd v(n);
        for (int i = 0; i < n; i++)
            v[i] = r[(from + i) % r.size()];
        return v;
    }
    template <typename M, typename K, typename Mean>
    struct Machine {
        using S = Sh<K, Mean>;
        M m;
        S s;
        void data_only(const Op& o)
        {
            switch (o.kind) {
            case 0:
                s.dims((int)o.x[0].size(), (int)o.y[0].size());
                s.x = o.x, s.y = o.y;
                break;
            case 1:
                if (s.x.empty())
                    s.dims((int)o.x[0].size(), (int)o.y[0].size());
                else if (o.x[0].size() != s.din || o.y[0].size() != s.dout)
                    return;
                s.x.push_back(o.x[0]), s.y.push_back(o.y[0]);
                break;
            case 9:
                for (size_t i = 0; i < s.y.size(); i++)
                    s.y[i] = some(o.r, s.dout, (int)i);
                break;
            }
        }
        void apply(const Op& o)
        {
            bool fits = s.x.empty() || (o.x[0].size() == s.din && o.y[0].size() == s.dout);
            switch (o.kind) {
            case 0: m.compute(o.x, o.y); break;
            case 1:
                if (fits)
                    m.add_sample(o.x[0], o.y[0]);
                break;
            case 2: // kernel parameters
                if (s.x.empty())
                    break;
                s.kp = some(o.r, (int)s.kp.size());
                if (o.r[1] > 0.7) // (far lengths)
                    s.kp[0] *= 5;
                if (g_noise && o.rec && o.r[1] < 0) // (little noise)
                    s.kp[s.kp.size() - 1] -= 3;
                m.kernel_function().set_h_params(s.kp);
                m.recompute(o.rec, true);
                break;
            case 3: // mean parameters
                if (s.x.empty())
                    break;
                s.mp = some(o.r, (int)s.mp.size(), 3);
                m.mean_function().set_h_params(s.mp);
                m.recompute(true, o.rec);
                break;
            case 4: // training
                if (s.x.empty())
                    break;
                m.optimize_hyperparams();
                s.kp = m.kernel_function().h_params();
                s.mp = m.mean_function().h_params();
                SIM_CHECK(s.kp.allFinite() && s.mp.allFinite(), "parameters", "training gives %s", hz::str(s.kp).c_str());
                break;
            case 5: { // copies
                M c(m);
                M d;
                d = c;
                if (fits)
                    c.add_sample(o.x[0], o.y[0]);
                m = std::move(d);
                break;
            }
            case 6: // both again
                if (!s.x.empty())
                    m.recompute(true, true);
                break;
            case 7: // through an archive and back
                if (s.x.empty())
                    break;
                if (o.arch)
                    m.template save<TextArchive>("spare");
                else
                    m.template save<BinaryArchive>("spare");
                if (o.r[2] > 0.3) { // (the model has changed since)
                    if (!fits || o.r[3] > 0.5)
                        m.compute(o.x, o.y);
                    else if (o.r[3] > 0)
                        m.add_sample(o.x[0], o.y[0]);
                    else { // as many samples
                        VVec y = s.y;
                        for (auto& v : y)
                            v *= 0.5;
                        m.compute(s.x, y);
                    }
                }
                else if (o.r[2] > -0.3)
                    m = M();
                if (o.arch)
                    m.template load<TextArchive>("spare", o.rec);
                else
                    m.template load<BinaryArchive>("spare", o.rec);
                break;
            case 8: { // used, which fills the caches
                if (s.x.empty())
                    break;
                m.compute_inv_kernel();
                m.compute_log_lik();
                m.compute_kernel_grad_log_lik();
                break;
            }
            case 9: // the same samples are observed again: the kernel matrix stays
                if (s.x.empty())
                    break;
                data_only(o);
                m.compute(s.x, s.y, false);
                m.recompute(o.rec, false);
                break;
            }
            data_only(o);
        }
        static void life(const std::vector<Op>& ops, Hist* h, int din, int dout, bool grads)
        {
            Machine a;
            int from = 0;
            if (h->s.op > 0) {
                for (int i = 0; i < h->s.op; i++)
                    a.data_only(ops[i]);
                std::string dir = "ckpt" + std::to_string(h->s.slot);
                a.s.kp = Eigen::Map<VectorXd>(h->s.kp, h->s.nk);
                a.s.mp = Eigen::Map<VectorXd>(h->s.mp, h->s.nm);
                bool rec = ops[h->s.op - 1].rec;
                if (h->s.arch)
                    a.m.template load<TextArchive>(dir, rec);
                else
                    a.m.template load<BinaryArchive>(dir, rec);
                from = h->s.op;
                sim::probe("restarted from a checkpoint");
                sim::Quiet q;
                verify(a.m, a.s, "after a restart", grads);
            }
            else {
                a.m = M(din, dout);
                a.s.dims(din, dout);
            }
            for (int i = from; i < (int)ops.size(); i++) {
                const Op& o = ops[i];
                a.apply(o);
                {
                    sim::Quiet q;
                    char w[40];
                    snprintf(w, sizeof w, "after operation %d (%d)", i, o.kind);
                    verify(a.m, a.s, w, grads && i + 1 == (int)ops.size());
                }
                h->done = std::max(h->done, i + 1);
                sim::crash_point();
                if (!a.s.x.empty() && o.r[0] > 0.2) { // checkpoint, in the slot that is not in use
                    Saved t;
                    t.op = i + 1;
                    t.slot = 1 - h->s.slot;
                    t.arch = o.arch;
                    {
                        sim::Quiet q;
                        keep(t, a.s);
                    }
                    std::string dir = "ckpt" + std::to_string(t.slot);
                    if (t.arch)
                        a.m.template save<TextArchive>(dir);
                    else
                        a.m.template save<BinaryArchive>(dir);
                    h->s = t; // (the user's own commit record)
                    sim::crash_point();
                }
            }
        }
    };
    template <typename M, typename K, typename Mean>
    void checkpointed()
    {
        knobs();
        int din = sim::irange(1, 3), dout = sim::irange(1, 2);
        int n = sim::irange(1, sim::flip(0.1) ? 20 : 8);
        std::vector<Op> ops;
        VVec have;
        for (int i = 0; i < n; i++) {
            Op o;
            static const int kinds[] = {1, 0, 2, 3, 4, 5, 6, 7, 8, 1, 1, 2, 9};
            o.kind = kinds[sim::draw(13)];
            o.arch = sim::draw(2), o.rec = sim::draw(2);
            int d = din, e = dout;
            if (o.kind == 0 && sim::flip(0.2)) // the data changes dimension
                d = din = sim::irange(1, 3), e = dout = sim::irange(1, 2);
            int c = o.kind == 0 ? sim::irange(1, sim::flip(0.1) ? 18 : 5) : 1;
            if (o.kind == 0)
                have.clear();
            for (int k = 0; k < c; k++) {
                if (!have.empty() && have[0].size() != d)
                    have.clear();
                o.x.push_back(hz::fresh_point(d, have));
                have.push_back(o.x.back());
                o.y.push_back(hz::obs(e));
            }
            for (int k = 0; k < 6; k++)
                o.r.push_back(sim::real(-1, 1));
            ops.push_back(o);
        }
        bool grads = sim::flip(0.3);
        Hist* h = (Hist*)sim::persistent(sizeof(Hist));
        int i0 = (int)ops[0].x[0].size(), o0 = (int)ops[0].y[0].size();
        int lives = 0;
        for (;; lives++) {
            int before = h->s.op;
            sim::Exit e = sim::incarnation([&] {
                sim::Arm arm(lives < 4 ? std::initializer_list<sim::Fault>{sim::F_CRASH, sim::F_WRITE_SHORT, sim::F_WRITE_EINTR, sim::F_READ_SHORT, sim::F_READ_EINTR}
                                       : std::initializer_list<sim::Fault>{sim::F_WRITE_SHORT, sim::F_READ_SHORT});
                Machine<M, K, Mean>::life(ops, h, i0, o0, grads);
            });
            sim::ev("life %d: checkpoint of %d operations (before: %d), crashed=%d", lives, h->s.op, before, e == sim::EXIT_CRASH);
            if (e == sim::EXIT_OK)
                break;
            SIM_CHECK(lives < 5, "progress", "the history does not end");
        }
        SIM_CHECK(h->done == n, "progress", "%d operations of %d are done", h->done, n);
        sim::nontrivial();
    }
    template <typename K, typename Mean, template <typename, typename> class H, typename O = opt::Rprop<Params>>
    void ckpt() { checkpointed<model::GP<Params, K, Mean, H<Params, O>>, K, Mean>(); }
}
SIM_SCENARIO(C14, checkpointed_history, 1)
{
    using Rep = opt::ParallelRepeater<Params, opt::Rprop<Params>>;
    switch (sim::draw(7)) {
    case 0: ckpt<SE, Data, model::gp::KernelLFOpt>(); break;
    case 1: ckpt<M5, Const, model::gp::KernelMeanLFOpt>(); break;
    case 2: ckpt<EX, Null, model::gp::KernelLooOpt>(); break;
    case 3: ckpt<M3, Ard, model::gp::MeanLFOpt>(); break;
    case 4: ckpt<SE, ArdD, model::gp::KernelMeanLFOpt>(); break;
    case 5: ckpt<SE, Const, model::gp::KernelLooOpt>(); break;
    case 6: ckpt<M5, Data, model::gp::KernelLFOpt, Rep>(); break;
    }
}
#endif

#ifdef PART_C15
// ------------------------------------------------------------------ C15
namespace {
    struct Plan15 {
        std::vector<double> r;
        int threads = 1, evals = 1;
        bool fail = false; // the optimiser throws
        bool real = false; // run the real optimiser instead of returning a chosen point
        // observed
        int calls = 0;
        bool bounded = true;
        VectorXd init, result;
        struct E {
            VectorXd p, g;
            double v;
            bool grad;
        };
        std::vector<std::vector<E>> e;
    };
    Plan15* g_plan = nullptr;
    template <typename Inner>
    struct SpyOptimizer {
        template <typename F>
        VectorXd operator()(const F& f, const VectorXd& init, bool bounded) const
        {
            Plan15& p = *g_plan;
            p.calls++;
            p.bounded = bounded;
            p.init = init;
            p.e.assign(p.threads, {});
            std::vector<int> th;
            for (int t = 0; t < p.threads; t++) {
                auto body = [&, t] {
                    for (int i = 0; i < p.evals; i++) {
                        Plan15::E e;
                        e.p = init;
                        for (int k = 0; k < init.size(); k++)
                            e.p[k] += (i || t ? 1 : 0) * p.r[(k + 3 * i + 5 * t) % p.r.size()];
                        e.grad = (i + t) % 3 != 2;
                        auto r = f(e.p, e.grad);
                        e.v = opt::fun(r);
                        if (e.grad)
                            e.g = opt::grad(r);
                        p.e[t].push_back(e);
                    }
                };
                if (p.threads == 1)
                    body();
                else
                    th.push_back(sim::spawn(("evaluator" + std::to_string(t)).c_str(), body));
            }
            sim::join_all(th);
            if (p.fail)
                throw std::runtime_error("the optimiser fails");
            if (p.real)
                p.result = Inner()(f, init, bounded);
            else {
                p.result = init;
                for (int k = 0; k < init.size(); k++)
                    p.result[k] += 0.5 * p.r[(k + 1) % p.r.size()];
            }
            return p.result;
        }
    };
    enum { TK = 1, TM = 2 };
    template <typename M, typename K, typename Mean, bool REP>
    void training(int what, bool loo)
    {
        using S = Sh<K, Mean>;
        knobs();
        S s;
        M m;
        int din = sim::irange(1, 3), dout = sim::irange(1, 2), n = sim::irange(1, 6);
        for (int i = 0; i < n; i++)
            s.x.push_back(hz::fresh_point(din, s.x)), s.y.push_back(hz::obs(dout));
        s.dims(din, dout);
        bool rnd = sim::flip(0.5), inc = sim::flip(0.5);
        m = M(din, dout);
        if (rnd) {
            s.kp = params_like((int)s.kp.size(), 0.7);
            s.mp = params_like((int)s.mp.size());
            m.kernel_function().set_h_params(s.kp);
            m.mean_function().set_h_params(s.mp);
        }
        Plan15 p;
        for (int i = 0; i < 7; i++)
            p.r.push_back(sim::real(-0.6, 0.6));
        p.threads = sim::irange(1, 3);
        p.evals = sim::irange(1, 2);
        p.real = sim::flip(0.4);
        g_plan = &p;
        if (inc)
            for (int i = 0; i < n; i++)
                m.add_sample(s.x[i], s.y[i]);
        else
            m.compute(s.x, s.y);
        if (sim::flip(0.3))
            m.compute_inv_kernel();
        int trainings = sim::irange(1, 2);
        for (int k = 0; k < trainings; k++) {
            VectorXd want(0);
            if (what & TK)
                want = s.kp;
            if (what & TM) {
                int a = (int)want.size();
                want.conservativeResize(a + s.mp.size());
                want.tail(s.mp.size()) = s.mp;
            }
            if (sim::flip(0.2)) {
                p.fail = true;
                bool thrown = false;
                double lik = m.get_log_lik(), cv = m.get_log_loo_cv();
                try {
                    m.optimize_hyperparams();
                }
                catch (std::runtime_error&) {
                    thrown = true;
                }
                p.fail = false;
                sim::Quiet q;
                SIM_CHECK(thrown, "training", "the failure of the optimiser is lost");
                verify(m, s, "after a failed training", false);
                if (k) // (meaningless before the first training)
                    SIM_CHECK(hz::same_bits(hz::vec(loo ? cv : lik), hz::vec(loo ? m.get_log_loo_cv() : m.get_log_lik())), "stale-likelihood", "a failed training leaves the scores %.12g, %.12g instead of %.12g, %.12g", m.get_log_lik(), m.get_log_loo_cv(), lik, cv);
                sim::probe("failed training");
            }
            p.calls = 0;
            if (sim::flip(0.2)) {
                M copy(m); // trained in the place of the original
                copy.optimize_hyperparams();
                {
                    sim::Quiet q;
                    verify(m, s, "after the training of a copy", false);
                }
                m = copy;
            }
            else
                m.optimize_hyperparams();
            sim::Quiet q;
            SIM_CHECK(p.calls == 1 && !p.bounded, "training", "the optimiser is called %d times, bounded=%d", p.calls, (int)p.bounded);
            SIM_CHECK(near(p.init, want, 1e-12), "training", "training starts at %s, the parameters are %s", hz::str(p.init).c_str(), hz::str(want).c_str());
            // the objective is the likelihood (or leave-one-out score) at the asked parameters
            for (auto& t : p.e)
                for (auto& e : t) {
                    S c = s;
                    if (what & TK)
                        c.kp = e.p.head(s.kp.size());
                    if (what & TM)
                        c.mp = e.p.tail(s.mp.size());
                    auto r = c.ref(c.kp, c.mp);
                    double v = loo ? r.loo : r.lik, tol = 1e-8 + 1e-12 * r.cond;
                    SIM_CHECK(hz::close(e.v, v, tol, 1 + r.R.squaredNorm()), "wrong-objective", "the objective of the training is %.12g at %s instead of %.12g", e.v, hz::str(e.p).c_str(), v);
                    if (e.grad && r.cond < 1e5) {
                        VectorXd g(0);
                        if (what & TK)
                            g = c.fd(true, loo);
                        if (what & TM) {
                            VectorXd h = c.fd(false, loo);
                            int a = (int)g.size();
                            g.conservativeResize(a + h.size());
                            g.tail(h.size()) = h;
                        }
                        SIM_CHECK(near(e.g, g, 1e-4 + 1e-9 * r.cond), "wrong-gradient", "the gradient of the training objective is %s at %s, finite differences give %s", hz::str(e.g).c_str(), hz::str(e.p).c_str(), hz::str(g).c_str());
                    }
                    sim::evd(e.v);
                }
            auto before = s.ref(s.kp, s.mp);
            if (what & TK)
                s.kp = p.result.head(s.kp.size());
            if (what & TM)
                s.mp = p.result.tail(s.mp.size());
            verify(m, s, "after training", false);
            auto r = s.ref(s.kp, s.mp);
            double got = loo ? m.get_log_loo_cv() : m.get_log_lik(), ref = loo ? r.loo : r.lik;
            SIM_CHECK(hz::close(got, ref, 1e-8 + 1e-12 * r.cond, 1 + r.R.squaredNorm()), "stale-likelihood", "after training the model reports %.12g, its score is %.12g", got, ref);
            double old = loo ? before.loo : before.lik;
            if (p.real && !REP)
                SIM_CHECK(ref >= old - 1e-7 * (1 + std::fabs(old)), "worse", "training makes the score worse: %.12g after %.12g", ref, old);
            sim::ev("training %d: %.10g -> %.10g", k, old, ref);
            // more data
            if (k + 1 < trainings) {
                VectorXd x = hz::fresh_point(din, s.x), y = hz::obs(dout);
                m.add_sample(x, y);
                s.x.push_back(x), s.y.push_back(y);
                verify(m, s, "after more data", false);
            }
        }
        g_plan = nullptr;
        sim::nontrivial();
    }
    using RP = SpyOptimizer<opt::Rprop<Params>>;
    using RR = SpyOptimizer<opt::ParallelRepeater<Params, opt::Rprop<Params>>>;
    template <typename K, typename Mean, template <typename, typename> class H>
    void train(int what, bool loo)
    {
        if (sim::flip(0.3))
            training<model::GP<Params, K, Mean, H<Params, RR>>, K, Mean, true>(what, loo);
        else
            training<model::GP<Params, K, Mean, H<Params, RP>>, K, Mean, false>(what, loo);
    }
}
SIM_SCENARIO(C15, training_, 1)
{
    switch (sim::draw(8)) {
    case 7: train<M3, Const, model::gp::KernelLFOpt>(TK, false); break;
    case 0: train<SE, Data, model::gp::KernelLFOpt>(TK, false); break;
    case 1: train<M5, Const, model::gp::KernelMeanLFOpt>(TK | TM, false); break;
    case 2: train<EX, Null, model::gp::KernelLooOpt>(TK, true); break;
    case 3: train<M3, Ard, model::gp::MeanLFOpt>(TM, false); break;
    case 4: train<SE, ArdD, model::gp::KernelMeanLFOpt>(TK | TM, false); break;
    case 5: train<SE, Const, model::gp::KernelLooOpt>(TK, true); break;
    case 6: train<M5, Const, model::gp::MeanLFOpt>(TM, false); break;
    }
}
#endif
