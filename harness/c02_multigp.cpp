// C02: a multi-output model is the product of independent single-output
// models, for every history of operations and every schedule of its workers.
#include "common.h"
#include <limbo/kernel/exp.hpp>
#include <limbo/kernel/matern_five_halves.hpp>
#include <limbo/kernel/squared_exp_ard.hpp>
#include <limbo/mean/constant.hpp>
#include <limbo/mean/data.hpp>
#include <limbo/mean/function_ard.hpp>
#include <limbo/mean/null_function.hpp>
#include <limbo/model/gp.hpp>
#include <limbo/model/gp/kernel_lf_opt.hpp>
#include <limbo/model/multi_gp.hpp>
#include <limbo/model/multi_gp/parallel_lf_opt.hpp>
#include <limbo/serialize/binary_archive.hpp>

using namespace limbo;

namespace {
    struct Params {
        struct kernel : public defaults::kernel {
            BO_PARAM(double, noise, 0.02);
            BO_PARAM(bool, optimize_noise, true);
        };
        struct kernel_squared_exp_ard : public defaults::kernel_squared_exp_ard {
            BO_PARAM(double, sigma_sq, 1.5);
        };
        struct kernel_maternfivehalves : public defaults::kernel_maternfivehalves {
            BO_PARAM(double, l, 0.4);
        };
        struct mean_constant {
            BO_PARAM(double, constant, 0.7);
        };
        struct opt_rprop : public defaults::opt_rprop {
            BO_DYN_PARAM(int, iterations);
        };
    };
    BO_DECLARE_DYN_PARAM(int, Params::opt_rprop, iterations);

    // a mean that depends on the input
    struct MeanFn {
        MeanFn(size_t d = 1) : _d(d) {}
        template <typename G>
        VectorXd operator()(const VectorXd& x, const G&) const
        {
            VectorXd m(_d);
            for (size_t i = 0; i < _d; i++)
                m[i] = 0.3 * (i + 1.0) * x.sum() - 0.2;
            return m;
        }
        size_t h_params_size() const { return 0; }
        VectorXd h_params() const { return VectorXd(); }
        void set_h_params(const VectorXd&) {}
        size_t _d;
    };

    using SE = kernel::SquaredExpARD<Params>;
    using M5 = kernel::MaternFiveHalves<Params>;
    using HP = model::multi_gp::ParallelLFOpt<Params, model::gp::KernelLFOpt<Params>>;
    template <typename K, typename M>
    using MGP = model::MultiGP<Params, model::GP, K, M, HP>;

    template <typename Model, typename K>
    void check_model(Model& m, const VVec& xs, const VVec& ys, std::vector<VectorXd> hp, int din, int dout, const char* after, double tol = 1e-6)
    {
        SIM_CHECK(m.nb_samples() == (int)xs.size() && m.dim_in() == din && m.dim_out() == dout, "wrong-size", "after %s: %d samples, dimensions %d -> %d; expected %zu, %d -> %d", after, m.nb_samples(), m.dim_in(), m.dim_out(), xs.size(), din, dout);
        SIM_CHECK(hz::same_bits(m.samples(), xs) && hz::same_bits(m.observations(), ys), "wrong-data", "after %s: the data held by the model are not the data given", after);
        SIM_CHECK(hz::same_bits(m.observations_matrix(), hz::rows(ys)), "wrong-data", "after %s: the observation matrix is not the data given", after);
        SIM_CHECK(hz::close(m.mean_observation(), hz::rows(ys).colwise().mean().transpose(), 1e-9), "wrong-mean", "after %s: mean observation %s", after, hz::str(m.mean_observation()).c_str());
        int nq = 2;
        VVec q;
        for (int k = 0; k < nq; k++)
            q.push_back(hz::point(din));
        q.push_back(xs[sim::draw((uint32_t)xs.size())]);
        for (auto& v : q) {
            VectorXd mu = m.mu(v), s2 = m.sigma(v), mu2, s22;
            std::tie(mu2, s22) = m.query(v);
            sim::Quiet quiet;
            VectorXd rm(dout), rs(dout);
            for (int i = 0; i < dout; i++) {
                K k(din);
                k.set_h_params(hp[i]);
                MatrixXd resid(xs.size(), 1);
                for (size_t j = 0; j < xs.size(); j++)
                    resid(j, 0) = ys[j][i] - m.mean_function()(xs[j], m)[i];
                hz::Posterior p(k, xs, resid);
                rm[i] = p.mu(k, xs, v, hz::vec(m.mean_function()(v, m)[i]))[0];
                rs[i] = p.var(k, xs, v);
                SIM_CHECK(hz::close(mu[i], rm[i], tol) && hz::close(mu2[i], rm[i], tol), "wrong-mu", "after %s (%zu samples): output %d at %s predicts %.10g (query: %.10g), the independent model %.10g", after, xs.size(), i, hz::str(v).c_str(), mu[i], mu2[i], rm[i]);
                SIM_CHECK(hz::close(s2[i], rs[i], tol) && hz::close(s22[i], rs[i], tol), "wrong-sigma", "after %s (%zu samples): output %d at %s has variance %.10g (query: %.10g), the independent model %.10g", after, xs.size(), i, hz::str(v).c_str(), s2[i], s22[i], rs[i]);
            }
        }
        // likelihoods of the parts
        for (int i = 0; i < dout; i++) {
            double lik = m.gp_models()[i].compute_log_lik(), loo = m.gp_models()[i].compute_log_loo_cv();
            sim::Quiet quiet;
            K k(din);
            k.set_h_params(hp[i]);
            MatrixXd resid(xs.size(), 1);
            for (size_t j = 0; j < xs.size(); j++)
                resid(j, 0) = ys[j][i] - m.mean_function()(xs[j], m)[i];
            hz::Posterior p(k, xs, resid);
            SIM_CHECK(hz::close(lik, p.log_lik(), tol * 10), "wrong-likelihood", "after %s: output %d has likelihood %.10g, the independent model %.10g", after, i, lik, p.log_lik());
            SIM_CHECK(hz::close(loo, p.loo(), tol * 10), "wrong-loo", "after %s: output %d has LOO score %.10g, the independent model %.10g", after, i, loo, p.loo());
        }
    }

    template <typename K, typename M>
    void history(const char* who)
    {
        using Model = MGP<K, M>;
        int din = sim::irange(1, 3), dout = sim::irange(1, 4);
        Model m;
        bool sized = sim::flip(0.5);
        if (sized)
            m = Model(din, dout);
        VVec xs, ys;
        std::vector<VectorXd> hp(dout, K(din).h_params());
        if (sized && sim::flip(0.5)) { // before any data: the prior, of every output
            if (sim::flip(0.5)) {
                int i = sim::irange(0, dout - 1);
                hp[i][0] += 0.3;
                hp[i][hp[i].size() - 1] -= 0.4;
                m.gp_models()[i].kernel_function().set_h_params(hp[i]);
            }
            VectorXd v = hz::point(din), mu = m.mu(v), s2 = m.sigma(v), mu2, s22, prior = m.mean_function()(v, m);
            std::tie(mu2, s22) = m.query(v);
            SIM_CHECK(m.nb_samples() == 0 && hz::close(mu, prior, 1e-12) && hz::close(mu2, prior, 1e-12), "wrong-mu", "without data the model predicts %s (query: %s), the prior is %s", hz::str(mu).c_str(), hz::str(mu2).c_str(), hz::str(prior).c_str());
            for (int i = 0; i < dout; i++) {
                // a single model of this output says the same
                model::GP<Params, K, mean::NullFunction<Params>> g(din, 1);
                g.kernel_function().set_h_params(hp[i]);
                double w = g.sigma(v);
                SIM_CHECK(hz::close(s2[i], w, 1e-12) && hz::close(s22[i], w, 1e-12), "wrong-sigma", "without data output %d has variance %.12g (query: %.12g), a model of this output alone %.12g", i, s2[i], s22[i], w);
            }
        }
        int ops = sim::irange(1, 6);
        bool lim = false;
        for (int o = 0; o < ops; o++) {
            char name[64];
            uint32_t op = xs.empty() ? sim::draw(2) : sim::draw(9);
            switch (op) {
            case 0: { // one sample more
                int k = sim::irange(1, 3);
                for (int i = 0; i < k; i++) {
                    VectorXd x = hz::fresh_point(din, xs), y = hz::obs(dout);
                    m.add_sample(x, y);
                    xs.push_back(x);
                    ys.push_back(y);
                }
                snprintf(name, sizeof name, "adding %d samples", k);
                break;
            }
            case 1: { // batch
                bool redim = xs.size() && sim::flip(0.2);
                xs.clear();
                ys.clear();
                if (redim) { // another number of outputs: a new set of models
                    int nd = sim::irange(1, 4);
                    if (nd != dout)
                        hp.assign(nd, K(din).h_params());
                    dout = nd;
                }
                if (redim && sim::flip(0.5)) { // and inputs of another dimension
                    int nd = sim::irange(1, 3);
                    if (nd != din)
                        hp.assign(dout, K(nd).h_params());
                    din = nd;
                }
                int n = sim::flip(0.12) ? sim::irange(15, 24) : sim::irange(1, 8);
                for (int i = 0; i < n; i++) {
                    xs.push_back(hz::fresh_point(din, xs));
                    ys.push_back(hz::obs(dout));
                }
                m.compute(xs, ys);
                snprintf(name, sizeof name, "compute on %d samples", n);
                break;
            }
            case 2: { // other hyper-parameters for one output
                int i = sim::irange(0, dout - 1);
                VectorXd h = hp[i];
                for (int j = 0; j < h.size(); j++)
                    h[j] += ((int)sim::draw(9) - 4) * 0.15;
                hp[i] = h;
                m.gp_models()[i].kernel_function().set_h_params(h);
                bool mean = sim::flip(0.5);
                m.recompute(mean, true);
                snprintf(name, sizeof name, "recompute(%d,1) with new parameters", mean);
                break;
            }
            case 3: {
                bool a = sim::flip(0.5), b = sim::flip(0.5);
                m.recompute(a, b);
                snprintf(name, sizeof name, "recompute(%d,%d)", a, b);
                break;
            }
            case 4: {
                Model c(m);
                if (sim::flip(0.5)) { // the copy lives its own life
                    Model d(c);
                    d.add_sample(hz::fresh_point(din, xs), hz::obs(dout));
                }
                m = c;
                snprintf(name, sizeof name, "copy");
                break;
            }
            case 5: { // train every output in parallel
                if (lim) { // once per run is enough
                    snprintf(name, sizeof name, "nothing");
                    break;
                }
                lim = true;
                std::vector<VectorXd> want(dout);
                {
                    sim::Quiet quiet;
                    for (int i = 0; i < dout; i++) { // alone, one after the other
                        model::GP<Params, K, mean::NullFunction<Params>, model::gp::KernelLFOpt<Params>> g(din, 1);
                        g.kernel_function().set_h_params(hp[i]);
                        VVec r;
                        for (size_t j = 0; j < xs.size(); j++)
                            r.push_back(hz::vec(ys[j][i] - m.mean_function()(xs[j], m)[i]));
                        g.compute(xs, r);
                        g.optimize_hyperparams();
                        want[i] = g.kernel_function().h_params();
                    }
                }
                m.optimize_hyperparams();
                for (int i = 0; i < dout; i++) {
                    hp[i] = m.gp_models()[i].kernel_function().h_params();
                    SIM_CHECK(hz::close(hp[i], want[i], 1e-6), "wrong-training", "output %d trained in parallel has parameters %s, alone %s", i, hz::str(hp[i]).c_str(), hz::str(want[i]).c_str());
                }
                snprintf(name, sizeof name, "training");
                break;
            }
            case 6: {
                m.template save<serialize::BinaryArchive>(std::string("/sim/") + who);
                Model f;
                bool rec = sim::flip(0.5);
                f.template load<serialize::BinaryArchive>(std::string("/sim/") + who, rec);
                m = f;
                snprintf(name, sizeof name, "save and load(recompute=%d)", rec);
                break;
            }
            case 8: { // other parameters of the prior mean
                size_t n = m.mean_function().h_params_size();
                bool full = sim::flip(0.5);
                if (n) {
                    VectorXd h = m.mean_function().h_params();
                    for (int j = 0; j < h.size(); j++)
                        h[j] += ((int)sim::draw(9) - 4) * 0.25;
                    m.mean_function().set_h_params(h);
                    SIM_CHECK(hz::same_bits(m.mean_function().h_params(), h), "wrong-data", "the parameters of the mean are not those that were set");
                }
                m.recompute(true, full);
                snprintf(name, sizeof name, "recompute(1,%d) with %zu new mean parameters", full, n);
                break;
            }
            case 7: { // batch update of the observations, then the factorisation
                m.compute(xs, ys, false);
                m.recompute(sim::flip(0.5), true);
                snprintf(name, sizeof name, "compute without kernel, then recompute");
                break;
            }
            }
            sim::ev("%s %s: %zu samples", who, name, xs.size());
            check_model<Model, K>(m, xs, ys, hp, din, dout, name);
        }
        if (dout > 1)
            sim::nontrivial();
    }
    void one(const char* who)
    {
        switch (sim::draw(7)) {
        case 5: history<SE, mean::FunctionARD<Params, mean::Data<Params>>>(who); break;
        case 6: history<M5, mean::FunctionARD<Params, mean::Constant<Params>>>(who); break;
        case 0: history<SE, mean::Data<Params>>(who); break;
        case 1: history<SE, mean::Constant<Params>>(who); break;
        case 2: history<M5, mean::Data<Params>>(who); break;
        case 3: history<M5, mean::NullFunction<Params>>(who); break;
        case 4: history<SE, MeanFn>(who); break;
        }
    }
}

SIM_SCENARIO(C02, multi_output_history, 3)
{
    Params::opt_rprop::set_iterations(sim::irange(1, 4));
    one("a");
}

// two owners, each with a model of its own
SIM_SCENARIO(C02, two_owners, 1)
{
    Params::opt_rprop::set_iterations(sim::irange(1, 4));
    int a = sim::spawn("owner0", [] { history<SE, mean::Data<Params>>("a"); });
    int b = sim::spawn("owner1", [] { history<SE, mean::NullFunction<Params>>("b"); });
    sim::join(a);
    sim::join(b);
}
