// C03: read-only use of a model from many threads gives every thread what it
// gets alone.  C04: the same for acquisition functions.
#include "common.h"
#include <limbo/acqui/ei.hpp>
#include <limbo/acqui/gp_ucb.hpp>
#include <limbo/acqui/ucb.hpp>
#include <limbo/experimental/acqui/eci.hpp>
#include <limbo/kernel/exp.hpp>
#include <limbo/kernel/matern_five_halves.hpp>
#include <limbo/kernel/matern_three_halves.hpp>
#include <limbo/kernel/squared_exp_ard.hpp>
#include <limbo/mean/constant.hpp>
#include <limbo/mean/data.hpp>
#include <limbo/mean/function_ard.hpp>
#include <limbo/mean/null_function.hpp>
#include <limbo/model/gp.hpp>
#include <limbo/model/multi_gp.hpp>
#include <limbo/model/sparsified_gp.hpp>
#include <limbo/serialize/binary_archive.hpp>
#include <limbo/serialize/text_archive.hpp>
#include <memory>

using namespace limbo;

namespace {
    double g_jitter = 0.01, g_alpha = 0.4, g_level = 0.02;
    struct Params {
        struct kernel : public defaults::kernel {
            static double noise() { return g_level; }
            static bool optimize_noise();
        };
        struct kernel_squared_exp_ard : public defaults::kernel_squared_exp_ard {
            static int k();
        };
        struct kernel_exp : public defaults::kernel_exp {
            BO_PARAM(double, l, 0.4);
        };
        struct kernel_maternfivehalves : public defaults::kernel_maternfivehalves {
            BO_PARAM(double, l, 0.4);
        };
        struct kernel_maternthreehalves : public defaults::kernel_maternthreehalves {
            BO_PARAM(double, l, 0.4);
        };
        struct mean_constant {
            BO_PARAM(double, constant, 0.7);
        };
        struct opt_rprop : public defaults::opt_rprop {
            BO_PARAM(int, iterations, 2);
        };
        struct model_sparse_gp {
            BO_PARAM(int, max_points, 5);
        };
        struct acqui_ei {
            static double jitter() { return g_jitter; }
        };
        struct acqui_eci {
            static double jitter() { return g_jitter; }
        };
        struct acqui_ucb {
            static double alpha() { return g_alpha; }
        };
        struct acqui_gpucb {
            BO_PARAM(double, delta, 0.1);
        };
    };
    int g_k = 1;
    bool g_noise = true;
    bool Params::kernel::optimize_noise() { return g_noise; }
    int Params::kernel_squared_exp_ard::k() { return g_k; }
    using SE = kernel::SquaredExpARD<Params>;
    using M5 = kernel::MaternFiveHalves<Params>;
    using M3 = kernel::MaternThreeHalves<Params>;
    using EX = kernel::Exp<Params>;
    using DataM = mean::Data<Params>;
    using Ard = mean::FunctionARD<Params, mean::Constant<Params>>;

    // everything a reader can see, as numbers
    void put(std::vector<double>& o, double d) { o.push_back(d); }
    void put(std::vector<double>& o, const VectorXd& v)
    {
        o.push_back(v.size());
        for (int i = 0; i < v.size(); i++)
            o.push_back(v[i]);
    }
    void put(std::vector<double>& o, const MatrixXd& m)
    {
        o.push_back(m.rows());
        for (int j = 0; j < m.cols(); j++)
            for (int i = 0; i < m.rows(); i++)
                o.push_back(m(i, j));
    }
    void put(std::vector<double>& o, const VVec& v)
    {
        o.push_back(v.size());
        for (auto& x : v)
            put(o, x);
    }
    struct Query {
        uint32_t kind;
        VectorXd v, w;
    };
    template <typename Model>
    void extra(const Model& m, std::vector<double>& o, const Query& q, double)
    {
        // a single model
        put(o, m.matrixL());
        put(o, m.alpha());
        put(o, m.obs_mean());
        put(o, m.mean_vector());
        put(o, m.kernel_function()(q.v, q.w));
        put(o, m.kernel_function().grad(q.v, q.w));
        put(o, m.kernel_function().h_params());
        put(o, m.mean_function()(q.v, m));
        Model c(m); // a private copy may be trained and extended
        c.add_sample(q.w, VectorXd::Constant(m.dim_out(), 0.5));
        put(o, c.compute_log_lik());
        put(o, c.compute_log_loo_cv());
        put(o, c.compute_kernel_grad_log_lik());
        put(o, c.mu(q.v));
    }
    template <typename Model>
    void extra(const Model& m, std::vector<double>& o, const Query& q, const VectorXd&)
    {
        auto parts = m.gp_models();
        for (auto& g : parts) {
            put(o, g.alpha());
            put(o, g.mu(q.v));
        }
        Model c(m);
        c.add_sample(q.w, VectorXd::Constant(m.dim_out(), 0.5));
        put(o, c.mu(q.v));
    }
    template <typename Model>
    std::vector<double> ask(const Model& m, const Query& q)
    {
        std::vector<double> o;
        switch (q.kind) {
        case 0: put(o, m.mu(q.v)); break;
        case 1: put(o, m.sigma(q.v)); break;
        case 2: {
            auto r = m.query(q.v);
            put(o, std::get<0>(r));
            put(o, std::get<1>(r));
            break;
        }
        case 3:
            put(o, (double)m.nb_samples());
            put(o, (double)m.dim_in());
            put(o, (double)m.dim_out());
            put(o, m.mean_observation());
            break;
        case 4:
            put(o, m.samples());
            put(o, m.observations());
            put(o, MatrixXd(m.observations_matrix()));
            break;
        case 5: extra(m, o, q, decltype(m.sigma(q.v))()); break;
        }
        return o;
    }

    template <typename Model>
    auto set_params(Model& m, const std::vector<double>& hp, int) -> decltype(m.kernel_function(), void())
    {
        VectorXd p = m.kernel_function().h_params();
        for (int i = 0; i < p.size(); i++)
            p[i] = hp[i % hp.size()];
        m.kernel_function().set_h_params(p);
    }
    template <typename Model>
    void set_params(Model&, const std::vector<double>&, long)
    {
    }
    template <typename Model>
    void build(Model& m, int din, int dout)
    {
        VVec xs, ys;
        int n = sim::flip(0.04) ? sim::irange(20, 40) : sim::irange(1, 8);
        if (sim::flip(0.1))
            n = 0;
        for (int i = 0; i < n; i++) {
            xs.push_back(hz::fresh_point(din, xs));
            ys.push_back(hz::obs(dout));
        }
        std::vector<double> hp;
        if (sim::flip(0.7))
            for (int i = 0; i < 24; i++)
                hp.push_back(sim::real(-1, 1));
        sim::Quiet quiet;
        m = Model(din, dout);
        if (!hp.empty())
            set_params(m, hp, 0);
        if (n) {
            if (sim::flip(0.5))
                m.compute(xs, ys);
            else
                for (int i = 0; i < n; i++)
                    m.add_sample(xs[i], ys[i]);
        }
    }

    template <typename Model>
    void readers(int max_out)
    {
        int din = sim::irange(1, 3), dout = sim::irange(1, max_out);
        Model m;
        build(m, din, dout);
        int nc = sim::irange(2, 4);
        struct Client {
            std::vector<Query> q;
            std::vector<std::vector<double>> want, got;
        };
        std::vector<Client> cl(nc);
        int hot = sim::draw(3); // swarm: concentrate on one kind of question
        for (auto& c : cl) {
            int nq = sim::irange(1, 3);
            for (int i = 0; i < nq; i++) {
                Query q;
                q.kind = sim::flip(0.5) ? sim::draw(6) : hot;
                if (m.nb_samples() == 0 && q.kind >= 4)
                    q.kind = 3;
                q.v = hz::point(din);
                q.w = hz::point(din);
                c.q.push_back(q);
            }
        }
        {
            // alone, before (and on a copy, so that nothing is warmed up)
            sim::Quiet quiet;
            Model alone(m);
            for (auto& c : cl)
                for (auto& q : c.q)
                    c.want.push_back(ask(alone, q));
        }
        const Model& shared = m;
        std::vector<int> th;
        for (int i = 0; i < nc; i++) {
            Client* c = &cl[i];
            const Model* pm = &shared;
            th.push_back(sim::spawn(("reader" + std::to_string(i)).c_str(), [c, pm] {
                for (auto& q : c->q)
                    c->got.push_back(ask(*pm, q));
            }));
        }
        sim::join_all(th);
        for (int i = 0; i < nc; i++)
            for (size_t k = 0; k < cl[i].q.size(); k++) {
                auto &a = cl[i].want[k], &b = cl[i].got[k];
                SIM_CHECK(a.size() == b.size(), "wrong-answer", "reader %d, question %zu (kind %u): %zu numbers instead of %zu", i, k, cl[i].q[k].kind, b.size(), a.size());
                for (size_t j = 0; j < a.size(); j++)
                    SIM_CHECK(hz::same_bits(a[j], b[j]), "wrong-answer", "reader %d, question %zu (kind %u): %.17g, alone it gets %.17g", i, k, cl[i].q[k].kind, b[j], a[j]);
                sim::ev("reader %d question %zu kind %u answered", i, k, cl[i].q[k].kind);
            }
        // and the model itself has not moved
        {
            sim::Quiet quiet;
            for (auto& c : cl)
                for (size_t k = 0; k < c.q.size(); k++) {
                    auto b = ask(shared, c.q[k]);
                    SIM_CHECK(b.size() == c.want[k].size() && std::equal(b.begin(), b.end(), c.want[k].begin(), [](double x, double y) { return hz::same_bits(x, y); }), "model-changed", "reading changes the model (kind %u)", c.q[k].kind);
                }
        }
        sim::nontrivial();
    }
    template <template <typename, typename, typename, typename> class G>
    void readers_of()
    {
        g_k = sim::draw(3);
        g_noise = sim::flip(0.5);
        switch (sim::draw(5)) {
        case 0: readers<G<Params, SE, DataM, model::gp::NoLFOpt<Params>>>(2); break;
        case 1: readers<G<Params, M5, mean::Constant<Params>, model::gp::NoLFOpt<Params>>>(2); break;
        case 2: readers<G<Params, EX, mean::NullFunction<Params>, model::gp::NoLFOpt<Params>>>(2); break;
        case 3: readers<G<Params, M3, Ard, model::gp::NoLFOpt<Params>>>(2); break;
        case 4: readers<model::MultiGP<Params, G, SE, DataM>>(3); break;
        }
    }

    // ------------------------------------------------------------------ acquisition functions
    struct First {
        using result_type = double;
        double operator()(const VectorXd& x) const { return x[0]; }
    };
    struct Sum {
        using result_type = double;
        double operator()(const VectorXd& x) const { return x.sum(); }
    };
    struct Cost { // depends on something outside: distance to a target
        using result_type = double;
        double target;
        double operator()(const VectorXd& x) const { return -std::fabs(x[0] - target); }
    };
    // the documented formulas, from the prediction of the model
    template <typename Model, typename Agg>
    double expected_improvement(const Model& m, const Agg& agg, const VectorXd& v)
    {
        auto p = m.query(v);
        double s = std::sqrt(std::get<1>(p)), best = -INFINITY;
        if (m.nb_samples() == 0 || s < 1e-10)
            return 0;
        for (auto& x : m.samples())
            best = std::max(best, (double)agg(m.mu(x)));
        double X = agg(std::get<0>(p)) - best - g_jitter, Z = X / s;
        return X * 0.5 * std::erfc(-Z / std::sqrt(2.)) + s * std::exp(-0.5 * Z * Z) / std::sqrt(2 * M_PI);
    }
    template <typename Model, typename Agg>
    double probability_feasible(const Model& con, const Agg& agg, const VectorXd& v)
    {
        auto p = con.query(v);
        double s = std::sqrt(std::get<1>(p));
        if (con.nb_samples() == 0 || s < 1e-10)
            return 1;
        return 0.5 * std::erfc(-(agg(std::get<0>(p)) - 1) / s / std::sqrt(2.));
    }
    template <typename Model, typename Agg>
    double upper_bound(const Model& m, const Agg& agg, const VectorXd& v, double k)
    {
        auto p = m.query(v);
        return agg(std::get<0>(p)) + k * std::sqrt(std::get<1>(p));
    }
    template <typename Acqui, typename Agg, typename Make, typename Formula>
    void acqui_clients(int din, Make make, const Agg& agg, const Formula& formula)
    {
        int n = sim::flip(0.04) ? sim::irange(20, 45) : sim::irange(2, 8);
        VVec q;
        for (int i = 0; i < n; i++)
            q.push_back(hz::point(din));
        std::vector<double> want(n), got(n, -1), got2(n, -1);
        {
            sim::Quiet quiet;
            for (int i = 0; i < n; i++) {
                Acqui alone = make();
                want[i] = opt::eval([&](const VectorXd& v, bool g) { return alone(v, agg, g); }, q[i]);
                double f = formula(q[i]);
                SIM_CHECK(std::fabs(want[i] - f) <= 1e-9 * (1 + std::fabs(f)), "formula", "the acquisition at %s is %.17g, its definition gives %.17g", hz::str(q[i]).c_str(), want[i], f);
            }
        }
        Acqui shared = make();
        bool pool = sim::flip(0.6);
        if (pool)
            tools::par::loop(0, n, [&](size_t i) {
                got[i] = opt::eval([&](const VectorXd& v, bool g) { return shared(v, agg, g); }, q[i]);
            });
        else {
            std::vector<int> th;
            int nc = sim::irange(2, 3);
            for (int c = 0; c < nc; c++)
                th.push_back(sim::spawn(("client" + std::to_string(c)).c_str(), [&, c, nc] {
                    for (int i = c; i < n; i += nc)
                        got[i] = opt::eval([&](const VectorXd& v, bool g) { return shared(v, agg, g); }, q[i]);
                }));
            sim::join_all(th);
        }
        for (int i = 0; i < n; i++) {
            SIM_CHECK(hz::same_bits(want[i], got[i]), "wrong-acquisition", "the acquisition at %s is %.17g, alone %.17g", hz::str(q[i]).c_str(), got[i], want[i]);
            sim::evd(got[i]);
        }
        // a copy made afterwards agrees as well
        Acqui copy(shared);
        for (int i = 0; i < n; i++) {
            double v = opt::eval([&](const VectorXd& x, bool g) { return copy(x, agg, g); }, q[i]);
            SIM_CHECK(hz::same_bits(want[i], v), "wrong-acquisition", "a copy of the acquisition gives %.17g at %s instead of %.17g", v, hz::str(q[i]).c_str(), want[i]);
        }
        sim::ev("acquisition n=%d pool=%d", n, pool);
        sim::nontrivial();
    }
    template <typename Model, typename Agg>
    void acquis_at(const Agg& agg, int it)
    {
        int din = sim::irange(1, 3), dout = sim::irange(1, 2);
        Model m, con;
        build(m, din, dout);
        build(con, din, 1);
        g_jitter = sim::flip(0.3) ? 0 : 0.05 * hz::coord();
        g_alpha = sim::flip(0.2) ? 0 : 2 * hz::coord();
        int rounds = sim::irange(1, 2);
        // the same object may also live through an update of the model
        using EI = acqui::EI<Params, Model>;
        using ECI = experimental::acqui::ECI<Params, Model, Model>;
        EI ei(m, it);
        ECI eci(m, con, it);
        int before = -1;
        for (int r = 0; r < rounds; r++) {
            switch (sim::draw(4)) {
            case 0: acqui_clients<EI>(din, [&] { return EI(m, it); }, agg, [&](const VectorXd& v) { return expected_improvement(m, agg, v); }); break;
            case 1: acqui_clients<acqui::UCB<Params, Model>>(din, [&] { return acqui::UCB<Params, Model>(m, it); }, agg, [&](const VectorXd& v) { return upper_bound(m, agg, v, g_alpha); }); break;
            case 2: {
                double n = std::max(it, 1); // (number of past evaluations, there is no weight for zero)
                double k = std::sqrt(2 * std::log(std::pow(n, din / 2. + 2) * M_PI * M_PI / (3 * 0.1)));
                acqui_clients<acqui::GP_UCB<Params, Model>>(din, [&] { return acqui::GP_UCB<Params, Model>(m, it); }, agg, [&](const VectorXd& v) { return upper_bound(m, agg, v, k); });
                break;
            }
            case 3: acqui_clients<ECI>(din, [&] { return ECI(m, con, it); }, agg, [&](const VectorXd& v) { return expected_improvement(m, agg, v) * probability_feasible(con, agg, v); }); break;
            }
            VectorXd v = hz::point(din);
            EI fresh(m, it);
            double a = opt::fun(ei(v, agg, false)), b = opt::fun(fresh(v, agg, false));
            if (sim::flip(0.3)) {
                ECI fresh2(m, con, it);
                a = opt::fun(eci(v, agg, false)), b = opt::fun(fresh2(v, agg, false));
            }
            // (the known case: a sparsified model that is full keeps its number of samples)
            bool full = r > 0 && m.nb_samples() == before;
            SIM_CHECK(hz::same_bits(a, b), full ? "stale-acquisition-full-sparsified" : "stale-acquisition", "after %d updates of the model the acquisition at %s is %.17g, a new one gives %.17g", r, hz::str(v).c_str(), a, b);
            before = m.nb_samples();
            if (r + 1 < rounds && sim::flip(0.5))
                con.add_sample(hz::fresh_point(din, con.nb_samples() ? VVec(con.samples()) : VVec()), hz::obs(1));
            if (r + 1 < rounds)
                m.add_sample(hz::fresh_point(din, m.nb_samples() ? VVec(m.samples()) : VVec()), hz::obs(dout));
        }
    }
}

SIM_SCENARIO(C03, gp_readers, 3) { readers_of<model::GP>(); }
SIM_SCENARIO(C03, sparsified_readers, 1) { readers_of<model::SparsifiedGP>(); }

namespace {
    template <typename Model, typename Agg>
    void acquis(const Agg& agg)
    {
        int it = sim::irange(0, 20);
        acquis_at<Model>(agg, it);
        if (sim::flip(0.3)) // another model, at the same iteration
            acquis_at<Model>(agg, it);
    }
}
SIM_SCENARIO(C04, acquisitions, 3)
{
    g_k = sim::draw(2);
    static const double level[] = {0.02, 0.02, 1e-3, 1e-6};
    g_level = level[sim::draw(4)];
    switch (sim::draw(4)) {
    case 0: acquis<model::GP<Params, M5, DataM>>(First()); break;
    case 1: acquis<model::GP<Params, SE, mean::Constant<Params>>>(Cost{hz::value()}); break;
    case 2: acquis<model::GP<Params, M5, DataM>>(Sum()); break;
    case 3: acquis<model::SparsifiedGP<Params, M5, DataM>>(First()); break;
    }
}
