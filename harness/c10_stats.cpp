// C10: the statistics files survive a crash of the process at any point.
// C11: a failing disk does not change the optimization.
// C19: every optimizer has its own directory, whoever creates it and when.
#include "common.h"
#include <limbo/limbo.hpp>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <sstream>

using namespace limbo;

namespace {
    template <bool STATS>
    struct P {
        struct bayes_opt_bobase {
            BO_PARAM(bool, stats_enabled, STATS);
            BO_PARAM(bool, bounded, true);
        };
        struct bayes_opt_boptimizer {
            static int hp_period();
        };
        struct init_randomsampling {
            static int samples();
        };
        struct stop_maxiterations {
            static int iterations();
        };
        struct kernel : public defaults::kernel {
            BO_PARAM(double, noise, 0.01);
        };
        struct kernel_squared_exp_ard : public defaults::kernel_squared_exp_ard {
        };
        struct mean_constant : public defaults::mean_constant {
        };
        struct acqui_ucb {
            BO_PARAM(double, alpha, 0.5);
        };
        struct acqui_gpucb {
            BO_PARAM(double, delta, 0.1);
        };
        struct opt_gridsearch {
            BO_PARAM(int, bins, 3);
        };
        struct opt_rprop : public defaults::opt_rprop {
            BO_PARAM(int, iterations, 2);
        };
        struct opt_parallelrepeater : public defaults::opt_parallelrepeater {
        };
        struct stat_gp {
            static int bins();
        };
    };
    int g_hp = -1, g_init = 2, g_iter = 2, g_bins = 2;
    template <bool S>
    int P<S>::bayes_opt_boptimizer::hp_period() { return g_hp; }
    template <bool S>
    int P<S>::init_randomsampling::samples() { return g_init; }
    template <bool S>
    int P<S>::stop_maxiterations::iterations() { return g_iter; }
    template <bool S>
    int P<S>::stat_gp::bins() { return g_bins; }

    template <int DI, int DO>
    struct Fun {
        BO_PARAM(size_t, dim_in, DI);
        BO_PARAM(size_t, dim_out, DO);
        double a, b;
        VectorXd operator()(const VectorXd& x) const
        {
            sim::yield();
            VectorXd r(DO);
            for (int i = 0; i < DO; i++)
                r[i] = std::sin(5 * a * x.sum() + i) - (i + 1) * b * (x.array() - 0.4).square().sum();
            return r;
        }
    };
    struct Second {
        using result_type = double;
        double operator()(const VectorXd& v) const { return 2 * v[v.size() - 1] - 0.1; }
    };

    // ------------------------------------------------------------------ the history that survives the crashes
    // file name -> the numbers of each line that has been given to the statistics
    struct Area {
        uint32_t len, cap, committed; // committed: what the statistics have returned from
        char dir[300];
        uint32_t finished;
        char buf[1 << 17];
    };
    thread_local Area* area = nullptr;
    struct Out {
        std::string s;
        void line(const char* file, const char* head, const std::vector<double>& v)
        {
            s += file;
            s += "\t";
            s += head;
            for (double x : v) {
                char b[40];
                snprintf(b, sizeof b, " %.17g", x);
                s += b;
            }
            s += "\n";
        }
    };
    std::vector<double> cat(double a, const VectorXd& v)
    {
        std::vector<double> r{a};
        for (int i = 0; i < v.size(); i++)
            r.push_back(v[i]);
        return r;
    }
    VectorXd first_max(const VVec& v, const VVec& key, const std::function<double(const VectorXd&)>& f)
    {
        size_t b = 0;
        for (size_t i = 1; i < key.size(); i++)
            if (f(key[i]) > f(key[b]))
                b = i;
        return v[b];
    }
    bool hard_failure() { return sim::injected(sim::F_WRITE_ENOSPC) || sim::injected(sim::F_WRITE_EIO) || sim::injected(sim::F_OPEN) || sim::injected(sim::F_CLOSE_EIO); }
    // before the statistics: what they have to write
    template <bool BEGIN>
    struct Spy {
        template <typename BO, typename A>
        void operator()(const BO& bo, const A& afun)
        {
            if (!area)
                return;
            sim::Quiet q;
            if (!BEGIN) {
                if (!hard_failure()) // what follows a failed write may be lost
                    area->committed = area->len;
                return;
            }
            int t = bo.total_iterations();
            const VVec &x = bo.samples(), &y = bo.observations();
            Out o;
            if (t == 0)
                for (const char* f : {"samples.dat", "observations.dat", "aggregated_observations.dat", "best_samples.dat", "best_observations.dat", "best_aggregated_observations.dat", "gp_acquisitions.dat", "gp_kernel_hparams.dat", "gp_mean_hparams.dat", "gp_likelihood.dat", "gp_prediction_differences.dat"})
                    o.line(f, "#", {});
            for (size_t i = 0; i < x.size(); i++)
                if (t == 0 || i + 1 == x.size()) {
                    int k = i + 1 == x.size() ? t : -1;
                    o.line("samples.dat", "", cat(k, x[i]));
                    o.line("observations.dat", "", cat(k, y[i]));
                    o.line("aggregated_observations.dat", "", {(double)k, afun(y[i])});
                }
            std::function<double(const VectorXd&)> f = [&](const VectorXd& v) { return afun(v); };
            o.line("best_samples.dat", "", cat(t, first_max(x, y, f)));
            VectorXd best = first_max(y, y, f);
            o.line("best_observations.dat", "", cat(t, best));
            o.line("best_aggregated_observations.dat", "", {(double)t, afun(best)});
            VectorXd mu;
            double s;
            std::tie(mu, s) = bo.model().query(x.back());
            typename BO::acquisition_function_t acq(bo.model(), bo.current_iteration());
            o.line("gp_acquisitions.dat", "", {(double)t, afun(mu), s, opt::fun(acq(x.back(), afun, false))});
            o.line("gp_kernel_hparams.dat", "", cat(t, bo.model().kernel_function().h_params()));
            o.line("gp_mean_hparams.dat", "", cat(t, bo.model().mean_function().h_params()));
            auto model = bo.model();
            o.line("gp_likelihood.dat", "", {(double)t, model.compute_log_lik()});
            o.line("gp_prediction_differences.dat", "", {(double)t, afun(bo.model().mu(x.back())), afun(y.back()), std::fabs(afun(bo.model().mu(x.back())) - afun(y.back()))});
            std::string g = "gp_" + std::to_string(t) + ".dat";
            o.line(g.c_str(), "!", {}); // starts again
            o.line(g.c_str(), "#", {});
            int d = (int)x.back().size(), n = 1;
            for (int i = 0; i < d; i++)
                n *= g_bins + 1;
            for (int k = 0; k < n; k++) {
                VectorXd p(d);
                for (int i = d - 1, r = k; i >= 0; i--, r /= g_bins + 1)
                    p[i] = (r % (g_bins + 1)) / (double)g_bins;
                std::tie(mu, s) = bo.model().query(p);
                std::vector<double> v;
                for (int i = 0; i < d; i++)
                    v.push_back(p[i]);
                for (int i = 0; i < mu.size(); i++)
                    v.push_back(mu[i]);
                v.push_back(s);
                v.push_back(opt::fun(acq(p, afun, false)));
                o.line(g.c_str(), "", v);
            }
            if (area->len + o.s.size() > sizeof area->buf)
                sim::discard();
            memcpy(area->buf + area->len, o.s.data(), o.s.size());
            area->len += (uint32_t)o.s.size();
        }
    };
    template <typename Prm>
    using all_stats = boost::fusion::vector<Spy<true>, stat::Samples<Prm>, stat::Observations<Prm>, stat::AggregatedObservations<Prm>, stat::BestSamples<Prm>, stat::BestObservations<Prm>,
        stat::BestAggregatedObservations<Prm>, stat::GPAcquisitions<Prm>>;
    // (boost::fusion::vector stops at ten elements)
    template <typename S>
    struct Both {
        S a;
        template <typename BO, typename A>
        void operator()(const BO& bo, const A& afun)
        {
            boost::fusion::for_each(a, RefreshStat_f<const BO, A>(bo, afun));
        }
    };
    template <typename Prm>
    using more_stats = boost::fusion::vector<stat::GPKernelHParams<Prm>, stat::GPMeanHParams<Prm>, stat::GPLikelihood<Prm>, stat::GPPredictionDifferences<Prm>, stat::GP<Prm>, Spy<false>>;
    template <typename Prm>
    using stats_t = boost::fusion::vector<Both<all_stats<Prm>>, Both<more_stats<Prm>>>;

    using Lines = std::vector<std::pair<bool, std::vector<double>>>; // header?, numbers
    struct File {
        Lines sure, maybe; // before the last complete record; of the record in progress
        bool restarted = false;
    };
    std::map<std::string, File> expected(const Area* a)
    {
        std::map<std::string, File> r;
        size_t p = 0;
        while (p < a->len) {
            size_t e = p;
            while (a->buf[e] != '\n')
                e++;
            std::string l(a->buf + p, e - p);
            bool sure = e < a->committed;
            size_t t = l.find('\t');
            std::string f = l.substr(0, t);
            std::string rest = l.substr(t + 1);
            File& fl = r[f];
            if (rest[0] == '!') {
                if (sure)
                    fl.sure.clear();
                else
                    fl.restarted = true;
            }
            else if (rest[0] == '#')
                (sure ? fl.sure : fl.maybe).push_back({true, {}});
            else {
                std::istringstream s(rest);
                std::string w;
                std::vector<double> v;
                while (s >> w)
                    v.push_back(strtod(w.c_str(), nullptr));
                (sure ? fl.sure : fl.maybe).push_back({false, v});
            }
            p = e + 1;
        }
        return r;
    }
    bool numbers_match(const std::string& l, const std::vector<double>& want)
    {
        std::istringstream s(l);
        std::string w;
        std::vector<double> v;
        while (s >> w) {
            char* e;
            v.push_back(strtod(w.c_str(), &e));
            if (*e)
                return false;
        }
        if (v.size() != want.size())
            return false;
        for (size_t i = 0; i < v.size(); i++)
            if (!hz::close(v[i], want[i], 1e-5, 1e-12))
                return false;
        return true;
    }
    bool line_match(const std::string& l, const std::pair<bool, std::vector<double>>& w) { return w.first ? !l.empty() && l[0] == '#' : numbers_match(l, w.second); }
    std::vector<std::string> split(const std::string& s, bool& torn)
    {
        std::vector<std::string> r;
        size_t p = 0;
        while (p < s.size()) {
            size_t e = s.find('\n', p);
            if (e == std::string::npos) {
                torn = true;
                r.push_back(s.substr(p));
                return r;
            }
            r.push_back(s.substr(p, e - p));
            p = e + 1;
        }
        torn = false;
        return r;
    }
    // crashed: the record in progress may be there in part
    void files_check(const Area* a, const std::string& dir, bool crashed)
    {
        for (auto& kv : expected(a)) {
            const std::string path = dir + "/" + kv.first;
            const File& f = kv.second;
            std::string data;
            bool there = sim::disk_read(path, data);
            if (!there) {
                SIM_CHECK(f.sure.empty(), "lost-file", "%s does not exist, %zu lines were recorded", path.c_str(), f.sure.size());
                continue;
            }
            bool torn;
            auto l = split(data, torn);
            auto fits = [&](const Lines& base) {
                size_t whole = l.size() - (torn ? 1 : 0);
                if (whole < base.size())
                    return false;
                if (whole > base.size() + f.maybe.size())
                    return false;
                if (torn && whole == base.size() + f.maybe.size())
                    return false;
                for (size_t i = 0; i < whole; i++)
                    if (!line_match(l[i], i < base.size() ? base[i] : f.maybe[i - base.size()]))
                        return false;
                return true;
            };
            bool ok = fits(f.sure);
            if (!ok && f.restarted)
                ok = fits({}); // the file of this record was being written again
            if (torn)
                sim::probe("torn last line");
            SIM_CHECK(crashed || !torn, "damaged-file", "%s ends with an incomplete line", path.c_str());
            if (!ok) {
                for (auto& s : l)
                    sim::ev("%s: %s", kv.first.c_str(), s.c_str());
                for (auto& s : f.sure)
                    sim::ev("sure: %d %s", s.first, s.second.empty() ? "" : hz::str(Eigen::Map<const VectorXd>(s.second.data(), s.second.size())).c_str());
                for (auto& s : f.maybe)
                    sim::ev("maybe: %d %s", s.first, s.second.empty() ? "" : hz::str(Eigen::Map<const VectorXd>(s.second.data(), s.second.size())).c_str());
            }
            SIM_CHECK(ok, "damaged-file", "%s has %zu lines, %zu were recorded and %zu were being recorded", path.c_str(), l.size(), f.sure.size(), f.maybe.size());
        }
    }

    // a write has failed for good: what was complete before is still there
    [[maybe_unused]] void prefix_check(const Area* a, const std::string& dir)
    {
        for (auto& kv : expected(a)) {
            const File& f = kv.second;
            std::string data;
            if (f.restarted || f.sure.empty())
                continue;
            bool torn, ok = sim::disk_read(dir + "/" + kv.first, data);
            auto l = split(data, torn);
            ok = ok && l.size() - torn >= f.sure.size();
            for (size_t i = 0; ok && i < f.sure.size(); i++)
                ok = line_match(l[i], f.sure[i]);
            SIM_CHECK(ok, "damaged-file", "%s/%s has %zu lines and not the %zu that were complete before a write failed", dir.c_str(), kv.first.c_str(), l.size(), f.sure.size());
        }
    }

    template <bool S, int DI, int DO>
    using Model = model::GP<P<S>, kernel::SquaredExpARD<P<S>>, mean::Constant<P<S>>, model::gp::KernelLFOpt<P<S>, opt::Rprop<P<S>>>>;
    template <bool S, int DI, int DO>
    using Acqui = typename std::conditional<DI == 2, acqui::GP_UCB<P<S>, Model<S, DI, DO>>, acqui::UCB<P<S>, Model<S, DI, DO>>>::type; // (one of them depends on the iteration)
    template <bool S, int DI, int DO>
    using Bo = bayes_opt::BOptimizer<P<S>, modelfun<Model<S, DI, DO>>, acquifun<Acqui<S, DI, DO>>, acquiopt<opt::GridSearch<P<S>>>, statsfun<stats_t<P<S>>>, initfun<init::RandomSampling<P<S>>>>;
    void configure()
    {
        g_init = sim::irange(0, 3);
        g_iter = sim::irange(1, 3);
        g_bins = sim::irange(1, 2);
        if (sim::flip(0.1))
            g_bins = 10;
        else if (sim::flip(0.15)) // a longer history
            (sim::flip(0.5) ? g_init : g_iter) = sim::irange(9, 14);
        static const int H[] = {-1, 1, 2};
        g_hp = H[sim::draw(3)];
    }
    template <int DI, int DO, typename A>
    void life(Area* ar, double a, double b, int calls, uint32_t resets, const A& afun)
    {
        area = ar;
        {
            sim::Arm arm({sim::F_CRASH, sim::F_WRITE_SHORT, sim::F_WRITE_EINTR});
            Bo<true, DI, DO> bo;
            {
                sim::Quiet q;
                snprintf(ar->dir, sizeof ar->dir, "%s", bo.res_dir().c_str());
            }
            Fun<DI, DO> f{a, b};
            for (int k = 0; k < calls; k++)
                bo.optimize(f, afun, k == 0 || (resets >> k & 1));
            ar->finished = 1;
        }
        area = nullptr;
    }
}
#ifdef PART_C10
SIM_SCENARIO(C10, crash_and_restart, 1)
{
    configure();
    int lives = sim::irange(1, 3);
    sim::set_hostname("node-a");
    sim::clock_ticks(sim::flip(0.5));
    struct Past {
        Area* a;
        std::string dir;
        std::map<std::string, std::string> files;
    };
    std::vector<Past> past;
    bool any = false;
    for (int i = 0; i < lives; i++) {
        Area* ar = (Area*)sim::persistent(sizeof(Area));
        int calls = sim::irange(1, 2);
        uint32_t resets = sim::draw(4);
        double a = hz::coord(), b = hz::coord();
        int kind = sim::draw(3);
        if (i && sim::flip(0.5))
            sim::advance_clock(1000000000ll * sim::irange(-2, 2));
        if (i && sim::flip(0.5))
            sim::set_pid(1000 + i);
        sim::Exit e = sim::incarnation([&] {
            switch (kind) {
            case 0: life<1, 1>(ar, a, b, calls, resets, FirstElem()); break;
            case 1: life<2, 2>(ar, a, b, calls, resets, Second()); break;
            case 2: life<1, 3>(ar, a, b, calls, resets, Second()); break;
            }
        });
        sim::Disarm d;
        std::string dir = ar->dir;
        sim::ev("life %d: directory %s, crashed %d, %u bytes of history (%u complete)", i, dir.c_str(), e == sim::EXIT_CRASH, ar->len, ar->committed);
        if (dir.empty())
            continue;
        any = true;
        files_check(ar, dir, e == sim::EXIT_CRASH);
        for (auto& p : past) {
            SIM_CHECK(p.dir != dir, "shared-directory", "a new process writes in %s, the directory of a previous one", dir.c_str());
            for (auto& f : p.files) {
                std::string now;
                SIM_CHECK(sim::disk_read(f.first, now) && now == f.second, "damaged-history", "a new process changes %s of a previous one", f.first.c_str());
            }
        }
        Past p{ar, dir, {}};
        for (auto& f : sim::disk_list()) {
            std::string data;
            if (f.find(dir + "/") != std::string::npos && sim::disk_read(f, data))
                p.files[f] = data;
        }
        past.push_back(p);
    }
    if (any)
        sim::nontrivial();
}
#endif

#ifdef PART_C11
namespace {
    struct Result {
        VVec x, y;
        VectorXd best, mu;
        int iters = -1;
        bool thrown = false;
    };
    template <bool S, int DI, int DO, typename A>
    void optimization(double a, double b, int calls, uint32_t resets, const A& afun, Result* r, std::string* dir)
    {
        using B = Bo<S, DI, DO>;
        std::unique_ptr<B> bo;
        try {
            bo.reset(new B());
        }
        catch (boost::filesystem::filesystem_error& e) {
            SIM_CHECK(sim::injected(sim::F_MKDIR), "exception", "the directory cannot be created: %s", e.what());
            r->thrown = true;
            return;
        }
        *dir = bo->res_dir();
        if (S) {
            sim::Quiet q;
            SIM_CHECK(sim::disk_exists(*dir), "silent", "the optimizer is created, its directory %s is not", dir->c_str());
        }
        Fun<DI, DO> f{a, b};
        for (int k = 0; k < calls; k++)
            bo->optimize(f, afun, k == 0 || (resets >> k & 1));
        r->x = bo->samples();
        r->y = bo->observations();
        r->best = bo->best_sample(afun);
        r->mu = bo->model().mu(VectorXd::Constant(DI, 0.31));
        r->iters = bo->total_iterations();
    }
    template <bool S>
    void dispatch(int kind, double a, double b, int calls, uint32_t resets, Result* r, std::string* dir)
    {
        switch (kind) {
        case 0: optimization<S, 1, 1>(a, b, calls, resets, FirstElem(), r, dir); break;
        case 1: optimization<S, 2, 2>(a, b, calls, resets, Second(), r, dir); break;
        case 2: optimization<S, 1, 3>(a, b, calls, resets, Second(), r, dir); break;
        }
    }
}
SIM_SCENARIO(C11, failing_disk, 1)
{
    configure();
    sim::clock_ticks(sim::flip(0.5));
    int n = sim::flip(0.3) ? 2 : 1;
    bool hard = sim::flip(0.6); // failing writes, not only incomplete ones
    std::vector<Result> alone(n), got(n);
    std::vector<std::string> dir(n);
    std::vector<double> a(n), b(n);
    std::vector<int> kind(n), calls(n);
    std::vector<uint32_t> resets(n);
    std::vector<std::unique_ptr<Area>> ar(n);
    for (int i = 0; i < n; i++) {
        a[i] = hz::coord(), b[i] = hz::coord();
        kind[i] = sim::draw(3);
        calls[i] = sim::irange(1, 2);
        resets[i] = sim::draw(4);
        ar[i].reset(new Area());
    }
    auto label = [](int i) { return "optimization" + std::to_string(i); };
    for (int i = 0; i < n; i++)
        sim::join(sim::spawn(label(i).c_str(), [&, i] { sim::Quiet q; sim::Disarm d; std::string s; dispatch<false>(kind[i], a[i], b[i], calls[i], resets[i], &alone[i], &s); }));
    {
        sim::Arm arm(hard ? std::initializer_list<sim::Fault>{sim::F_WRITE_SHORT, sim::F_WRITE_EINTR, sim::F_WRITE_ENOSPC, sim::F_WRITE_EIO, sim::F_CLOSE_EIO, sim::F_MKDIR
#ifdef NDEBUG
                          ,
                          sim::F_OPEN
#endif
                      }
                          : std::initializer_list<sim::Fault>{sim::F_WRITE_SHORT, sim::F_WRITE_EINTR});
        std::vector<int> th;
        for (int i = 0; i < n; i++)
            th.push_back(sim::spawn(label(i).c_str(), [&, i] { area = ar[i].get(); dispatch<true>(kind[i], a[i], b[i], calls[i], resets[i], &got[i], &dir[i]); area = nullptr; }));
        sim::join_all(th);
    }
    for (int i = 0; i < n; i++) {
        auto &w = alone[i], &g = got[i];
        if (g.thrown) {
            sim::ev("optimization %d: no directory", i);
            continue;
        }
        SIM_CHECK(w.iters == g.iters && w.x.size() == g.x.size(), "perturbed", "optimization %d: %zu evaluations with a failing disk, %zu without statistics", i, g.x.size(), w.x.size());
        SIM_CHECK(hz::same_bits(w.x, g.x) && hz::same_bits(w.y, g.y) && hz::same_bits(w.best, g.best) && hz::same_bits(w.mu, g.mu), "perturbed", "optimization %d evaluates other points with a failing disk than without statistics", i);
        bool failed = hard_failure();
        if (!failed)
            files_check(ar[i].get(), dir[i], false);
        else {
            sim::probe("hard failure");
            prefix_check(ar[i].get(), dir[i]);
        }
        sim::ev("optimization %d: %zu evaluations, failed=%d", i, g.x.size(), failed);
    }
    if (sim::any_injected())
        sim::nontrivial();
}
#endif

#ifdef PART_C19
namespace {
    std::string date_of(int64_t ns)
    {
        time_t t = (time_t)(ns / 1000000000ll);
        struct tm tm;
        gmtime_r(&t, &tm);
        char b[64];
        snprintf(b, sizeof b, "%04d-%02d-%02d_%02d_%02d_%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
        return b;
    }
    struct Made {
        std::string dir;
        int64_t t0, t1;
        std::unique_ptr<Area> ar{new Area()};
    };
}
SIM_SCENARIO(C19, directories, 1)
{
    configure();
    g_iter = sim::irange(0, 1);
    g_hp = -1;
    static const int len[] = {1, 6, 48, 49, 50, 63, 64};
    std::string host(len[sim::draw(7)], 'h');
    for (size_t i = 0; i < host.size(); i++)
        host[i] = 'a' + (i * 7) % 26;
    sim::set_hostname(host);
    int pid = 77 + sim::draw(3);
    sim::set_pid(pid);
    int64_t start = 1000000000ll * (sim::draw(4) == 0 ? 1709251199ll : 1500000000ll + (int64_t)sim::draw(1 << 30));
    sim::set_clock(start);
    bool ticks = sim::flip(0.4);
    sim::clock_ticks(ticks);
    // what previous processes have left
    int before = sim::draw(3);
    std::string base = host + "_" + date_of(start) + "_" + std::to_string(pid);
    for (int i = 0; i < before; i++)
        sim::disk_write(base + (i ? "_" + std::to_string(i) : "") + "/samples.dat", "old data\n");
    int n = sim::irange(1, 3);
    std::vector<std::pair<int64_t, int64_t>> jumps; // clock before and after each of them
    std::vector<std::vector<Made>> made(n);
    std::vector<int> count(n), th;
    std::vector<int64_t> jump(n);
    for (int i = 0; i < n; i++) {
        count[i] = sim::flip(0.08) ? sim::irange(8, 14) : sim::irange(1, 3); // (many in one second)
        made[i].resize(count[i]);
        jump[i] = sim::flip(0.3) && count[i] < 4 ? 1000000000ll * sim::irange(-3, 3) : 0;
    }
    for (int i = 0; i < n; i++)
        th.push_back(sim::spawn(("creator" + std::to_string(i)).c_str(), [&, i] {
            for (int k = 0; k < count[i]; k++) {
                if (jump[i]) {
                    sim::Quiet q;
                    int64_t c0 = sim::clock_ns();
                    sim::advance_clock(jump[i]);
                    jumps.push_back({c0, sim::clock_ns()});
                }
                Made& m = made[i][k];
                size_t j0;
                {
                    sim::Quiet q;
                    m.t0 = sim::clock_ns();
                    j0 = jumps.size();
                }
                Bo<true, 1, 1> bo;
                {
                    sim::Quiet q;
                    m.t1 = sim::clock_ns();
                    m.dir = bo.res_dir();
                    // one of the seconds the clock has shown meanwhile
                    std::string d = m.dir.size() > host.size() + 20 ? m.dir.substr(host.size() + 1, 19) : "";
                    bool ok = false;
                    int64_t from = m.t0, sec = 1000000000ll;
                    for (size_t j = j0; j <= jumps.size(); j++) {
                        int64_t to = j < jumps.size() ? jumps[j].first : m.t1;
                        for (int64_t x = from / sec; x <= to / sec; x++)
                            ok = ok || d == date_of(x * sec);
                        if (j < jumps.size())
                            from = jumps[j].second;
                    }
                    SIM_CHECK(ok, "name", "the directory %s is created when the clock says %s", m.dir.c_str(), date_of(m.t1).c_str());
                }
                area = m.ar.get();
                bo.optimize(Fun<1, 1>{0.1 * i, 0.2 * k});
                area = nullptr;
                // the tools alone
                std::string h = tools::hostname(), p = tools::getpid();
                SIM_CHECK(h == host, "hostname", "the host name is %s, not %s", h.c_str(), host.c_str());
                SIM_CHECK(p == std::to_string(pid), "pid", "the pid is %s", p.c_str());
                int64_t t0, t1;
                {
                    sim::Quiet q;
                    t0 = sim::clock_ns();
                }
                std::string d = tools::date();
                {
                    sim::Quiet q;
                    t1 = sim::clock_ns();
                    bool ok = false;
                    // the clock is moved by the other creators as well
                    for (int64_t s = -12; s <= 12 && !ok; s++)
                        ok = d == date_of(t0 + s * 1000000000ll) || d == date_of(t1 + s * 1000000000ll);
                    SIM_CHECK(ok, "date", "the date is %s, the clock says %s", d.c_str(), date_of(t1).c_str());
                    if (!jump[0] && !jump[n > 1] && !jump[n - 1] && !ticks)
                        SIM_CHECK(d == date_of(t0), "date", "the date is %s, the clock says %s", d.c_str(), date_of(t0).c_str());
                }
            }
        }));
    sim::join_all(th);
    std::set<std::string> names;
    for (auto& v : made)
        for (auto& m : v) {
            SIM_CHECK(m.dir.compare(0, host.size() + 1, host + "_") == 0, "name", "the directory %s does not start with the host name", m.dir.c_str());
            SIM_CHECK(m.dir.size() >= base.size() && m.dir.find("_" + std::to_string(pid), host.size() + 1 + 19) == host.size() + 1 + 19, "name", "the directory %s has no process id after the date", m.dir.c_str());
            SIM_CHECK(names.insert(m.dir).second, "shared-directory", "two optimizers write in %s", m.dir.c_str());
            SIM_CHECK(sim::disk_exists(m.dir), "no-directory", "%s does not exist", m.dir.c_str());
            for (int i = 0; i < before; i++)
                SIM_CHECK(m.dir != base + (i ? "_" + std::to_string(i) : ""), "shared-directory", "the directory %s of a previous process is used", m.dir.c_str());
            files_check(m.ar.get(), m.dir, false);
            sim::ev("%s", m.dir.c_str());
        }
    // the process is forked: another process id, the same memory
    if (sim::flip(0.3)) {
        int child = pid + 1000 + sim::draw(5);
        sim::set_pid(child);
        Bo<true, 1, 1> bo;
        std::string d = bo.res_dir(), want = "_" + std::to_string(child);
        SIM_CHECK(d.compare(0, host.size() + 1, host + "_") == 0 && d.size() >= host.size() + 20 && d.compare(host.size() + 20, std::string::npos, want) == 0, "name", "the directory of an optimizer of the child process %d is %s", child, d.c_str());
        SIM_CHECK(!names.count(d), "shared-directory", "parent and child write in %s", d.c_str());
        sim::probe("child process");
    }
    for (int i = 0; i < before; i++) {
        std::string s;
        SIM_CHECK(sim::disk_read(base + (i ? "_" + std::to_string(i) : "") + "/samples.dat", s) && s == "old data\n", "damaged-history", "the files of a previous process are changed");
    }
    if (names.size() > 1 || before)
        sim::nontrivial();
}
#endif
