From c25f269ebac0fabae63b95231b3afae52a649440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:08 +0000
Subject: [PATCH 01/39] fix: MultiGP::add_sample() did not update the mean of
 the previous samples (mean::Data)

---
 src/limbo/model/multi_gp.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/limbo/model/multi_gp.hpp b/src/limbo/model/multi_gp.hpp
index 22bf26e..317daf7 100644
--- a/src/limbo/model/multi_gp.hpp
+++ b/src/limbo/model/multi_gp.hpp
@@ -172,6 +172,26 @@ namespace limbo {
                 limbo::tools::par::loop(0, _dim_out, [&](size_t i) {
                     _gp_models[i].add_sample(sample, limbo::tools::make_vector(observation[i] - mean_vector[i]));
                 });
+
+                // the mean function might depend on all the observations (e.g., mean::Data):
+                // the observations of the GPs for the previous samples have to be updated as well
+                // (not possible if the GPs do not keep all the samples)
+                const std::vector<Eigen::VectorXd>& samples = _gp_models[0].samples();
+                if (samples.size() != _observations.size())
+                    return;
+
+                std::vector<Eigen::VectorXd> mean_vectors;
+                for (size_t j = 0; j < samples.size(); j++)
+                    mean_vectors.push_back(_mean_function(samples[j], *this));
+
+                limbo::tools::par::loop(0, _dim_out, [&](size_t i) {
+                    std::vector<Eigen::VectorXd> obs;
+                    for (size_t j = 0; j < _observations.size(); j++)
+                        obs.push_back(limbo::tools::make_vector(_observations[j][i] - mean_vectors[j][i]));
+                    // the kernel matrix is up-to-date
+                    _gp_models[i].compute(_gp_models[i].samples(), obs, false);
+                    _gp_models[i].recompute(false, false);
+                });
             }
 
             /**
-- 
2.43.0


From 6d26b7f5dbd905094edc9818b9994d946b70568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:59 +0000
Subject: [PATCH 02/39] fix: MultiGP::recompute(true, false) left the
 predictions of the GPs unchanged

---
 src/limbo/model/multi_gp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/limbo/model/multi_gp.hpp b/src/limbo/model/multi_gp.hpp
index 317daf7..dbe1df6 100644
--- a/src/limbo/model/multi_gp.hpp
+++ b/src/limbo/model/multi_gp.hpp
@@ -278,8 +278,10 @@ namespace limbo {
                     return;
 
                 if (update_obs_mean) // if the mean is updated, we need to fully re-compute
-                    return compute(_gp_models[0].samples(), _observations, update_full_kernel);
-                else
+                    compute(_gp_models[0].samples(), _observations, update_full_kernel);
+
+                // compute() without the kernel does not update the alpha vectors of the GPs
+                if (!update_obs_mean || !update_full_kernel)
                     limbo::tools::par::loop(0, _dim_out, [&](size_t i) {
                         _gp_models[i].recompute(false, update_full_kernel);
                     });
-- 
2.43.0


From 081044a3c85e414f48d34b562a19f23f93ab7aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:59 +0000
Subject: [PATCH 03/39] fix: GP::load() without recomputation left the model
 without the mean of its samples and with the inverse of the previous kernel

---
 src/limbo/model/gp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/limbo/model/gp.hpp b/src/limbo/model/gp.hpp
index 3bfa4db..9c062de 100644
--- a/src/limbo/model/gp.hpp
+++ b/src/limbo/model/gp.hpp
@@ -507,6 +507,10 @@ namespace limbo {
                 else {
                     archive.load(_matrixL, "matrixL");
                     archive.load(_alpha, "alpha");
+
+                    // what is not in the archive (needed by the likelihoods)
+                    this->_compute_obs_mean();
+                    _inv_kernel_updated = false;
                 }
             }
 
-- 
2.43.0


From 85d078a4770cb7409d326492645f9aea2e79f7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:00 +0000
Subject: [PATCH 04/39] fix: the points kept by SparsifiedGP depended on the
 scheduling of the threads when several points were equally dense

---
 src/limbo/model/sparsified_gp.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/limbo/model/sparsified_gp.hpp b/src/limbo/model/sparsified_gp.hpp
index 7538fcc..73eedec 100644
--- a/src/limbo/model/sparsified_gp.hpp
+++ b/src/limbo/model/sparsified_gp.hpp
@@ -143,7 +143,9 @@ namespace limbo {
                     }
 
                     update_mutex.lock();
-                    if (dist < min_dist) {
+                    /// ties are frequent (two mutual nearest neighbors in 1-D always tie):
+                    /// the first point wins, whatever the order in which the threads get here
+                    if (dist < min_dist || (dist == min_dist && static_cast<int>(i) < denser)) {
                         min_dist = dist;
                         denser = i;
                     }
-- 
2.43.0


From 375b41c95fd299a9a1b1282c977a41affa772b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:00 +0000
Subject: [PATCH 05/39] fix: SparsifiedGP read past the end of the neighbors
 when it keeps fewer points than there are dimensions

---
 src/limbo/model/sparsified_gp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/limbo/model/sparsified_gp.hpp b/src/limbo/model/sparsified_gp.hpp
index 73eedec..a5661fb 100644
--- a/src/limbo/model/sparsified_gp.hpp
+++ b/src/limbo/model/sparsified_gp.hpp
@@ -136,9 +136,11 @@ namespace limbo {
                     /// remove self distance
                     neighbors.erase(neighbors.begin() + i);
 
-                    std::partial_sort(neighbors.begin(), neighbors.begin() + D, neighbors.end());
+                    /// there can be fewer neighbors than dimensions
+                    int nb_neighbors = std::min(D, N - 1);
+                    std::partial_sort(neighbors.begin(), neighbors.begin() + nb_neighbors, neighbors.end());
 
-                    for (int j = 0; j < D; j++) {
+                    for (int j = 0; j < nb_neighbors; j++) {
                         dist += neighbors[j];
                     }
 
-- 
2.43.0


From 10af01e8ccfa185a6dce52f7ea69eb7aca575891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:47 +0000
Subject: [PATCH 06/39] fix: concurrent evaluations of the EI and ECI
 acquisition functions raced on the cached best observation

---
 src/limbo/acqui/ei.hpp               | 41 ++++++++++++++++++++--------
 src/limbo/experimental/acqui/eci.hpp | 41 ++++++++++++++++++++--------
 2 files changed, 60 insertions(+), 22 deletions(-)

diff --git a/src/limbo/acqui/ei.hpp b/src/limbo/acqui/ei.hpp
index c868d6d..2952e59 100644
--- a/src/limbo/acqui/ei.hpp
+++ b/src/limbo/acqui/ei.hpp
@@ -47,7 +47,10 @@
 #define LIMBO_ACQUI_EI_HPP
 
 #include <Eigen/Core>
+#include <algorithm>
 #include <cmath>
+#include <memory>
+#include <mutex>
 #include <vector>
 
 #include <limbo/opt/optimizer.hpp>
@@ -75,7 +78,7 @@ namespace limbo {
         template <typename Params, typename Model>
         class EI {
         public:
-            EI(const Model& model, int iteration = 0) : _model(model), _nb_samples(-1) {}
+            EI(const Model& model, int iteration = 0) : _model(model), _nb_samples(-1), _mutex(std::make_shared<std::mutex>()) {}
 
             size_t dim_in() const { return _model.dim_in(); }
 
@@ -97,17 +100,9 @@ namespace limbo {
 
                 // Compute EI(x)
                 // First find the best so far (predicted) observation -- if needed
-                if (_nb_samples != _model.nb_samples()) {
-                    std::vector<double> rewards;
-                    for (auto s : _model.samples()) {
-                        rewards.push_back(afun(_model.mu(s)));
-                    }
-
-                    _nb_samples = _model.nb_samples();
-                    _f_max = *std::max_element(rewards.begin(), rewards.end());
-                }
+                double f_max = _best(afun);
                 // Calculate Z and \Phi(Z) and \phi(Z)
-                double X = afun(mu) - _f_max - Params::acqui_ei::jitter();
+                double X = afun(mu) - f_max - Params::acqui_ei::jitter();
                 double Z = X / sigma;
                 double phi = std::exp(-0.5 * std::pow(Z, 2.0)) / std::sqrt(2.0 * M_PI);
                 double Phi = 0.5 * std::erfc(-Z / std::sqrt(2)); //0.5 * (1.0 + std::erf(Z / std::sqrt(2)));
@@ -119,6 +114,30 @@ namespace limbo {
             const Model& _model;
             int _nb_samples;
             double _f_max;
+            std::shared_ptr<std::mutex> _mutex;
+
+            // the operator can be called from several threads at the same time (e.g. by opt::ParallelRepeater);
+            // the computation is done without the lock because querying a model can itself run in parallel
+            template <typename AggregatorFunction>
+            double _best(const AggregatorFunction& afun)
+            {
+                int nb_samples = _model.nb_samples();
+                {
+                    std::lock_guard<std::mutex> lock(*_mutex);
+                    if (_nb_samples == nb_samples)
+                        return _f_max;
+                }
+                std::vector<double> rewards;
+                for (auto s : _model.samples()) {
+                    rewards.push_back(afun(_model.mu(s)));
+                }
+                double f_max = *std::max_element(rewards.begin(), rewards.end());
+
+                std::lock_guard<std::mutex> lock(*_mutex);
+                _nb_samples = nb_samples;
+                _f_max = f_max;
+                return f_max;
+            }
         };
     }
 }
diff --git a/src/limbo/experimental/acqui/eci.hpp b/src/limbo/experimental/acqui/eci.hpp
index 14cb123..724d145 100644
--- a/src/limbo/experimental/acqui/eci.hpp
+++ b/src/limbo/experimental/acqui/eci.hpp
@@ -47,7 +47,10 @@
 #define LIMBO_ACQUI_ECI_HPP
 
 #include <Eigen/Core>
+#include <algorithm>
 #include <cmath>
+#include <memory>
+#include <mutex>
 #include <vector>
 
 #include <limbo/tools/macros.hpp>
@@ -66,7 +69,7 @@ namespace limbo {
             class ECI {
             public:
                 ECI(const Model& model, const ConstraintModel& constraint_model, int iteration = 0)
-                    : _model(model), _constraint_model(constraint_model), _nb_samples(-1) {}
+                    : _model(model), _constraint_model(constraint_model), _nb_samples(-1), _mutex(std::make_shared<std::mutex>()) {}
 
                 size_t dim_in() const { return _model.dim_in(); }
 
@@ -88,17 +91,9 @@ namespace limbo {
 
                     // Compute expected constrained improvement
                     // First find the best (predicted) observation so far -- if needed
-                    if (_nb_samples != _model.nb_samples()) {
-                        std::vector<double> rewards;
-                        for (auto s : _model.samples()) {
-                            rewards.push_back(afun(_model.mu(s)));
-                        }
-
-                        _nb_samples = _model.nb_samples();
-                        _f_max = *std::max_element(rewards.begin(), rewards.end());
-                    }
+                    double f_max = _best(afun);
                     // Calculate Z and \Phi(Z) and \phi(Z)
-                    double X = afun(mu) - _f_max - Params::acqui_eci::jitter();
+                    double X = afun(mu) - f_max - Params::acqui_eci::jitter();
                     double Z = X / sigma;
                     double phi = std::exp(-0.5 * std::pow(Z, 2.0)) / std::sqrt(2.0 * M_PI);
                     double Phi = 0.5 * std::erfc(-Z / std::sqrt(2));
@@ -111,6 +106,30 @@ namespace limbo {
                 const ConstraintModel& _constraint_model;
                 int _nb_samples;
                 double _f_max;
+                std::shared_ptr<std::mutex> _mutex;
+
+                // the operator can be called from several threads at the same time (e.g. by opt::ParallelRepeater);
+                // the computation is done without the lock because querying a model can itself run in parallel
+                template <typename AggregatorFunction>
+                double _best(const AggregatorFunction& afun)
+                {
+                    int nb_samples = _model.nb_samples();
+                    {
+                        std::lock_guard<std::mutex> lock(*_mutex);
+                        if (_nb_samples == nb_samples)
+                            return _f_max;
+                    }
+                    std::vector<double> rewards;
+                    for (auto s : _model.samples()) {
+                        rewards.push_back(afun(_model.mu(s)));
+                    }
+                    double f_max = *std::max_element(rewards.begin(), rewards.end());
+
+                    std::lock_guard<std::mutex> lock(*_mutex);
+                    _nb_samples = nb_samples;
+                    _f_max = f_max;
+                    return f_max;
+                }
 
                 template <typename AggregatorFunction>
                 double _pf(const Eigen::VectorXd& v, const AggregatorFunction& afun) const
-- 
2.43.0


From aa31fbf2d326c691bddcc4719de909c1391f40a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:00 +0000
Subject: [PATCH 07/39] fix: GridSearch evaluated and returned points outside
 of [0, 1] for some numbers of bins

---
 src/limbo/opt/grid_search.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/limbo/opt/grid_search.hpp b/src/limbo/opt/grid_search.hpp
index 346568b..925cba0 100644
--- a/src/limbo/opt/grid_search.hpp
+++ b/src/limbo/opt/grid_search.hpp
@@ -84,13 +84,13 @@ namespace limbo {
             Eigen::VectorXd _inner_search(const F& f, size_t depth, const Eigen::VectorXd& current) const
             {
                 size_t dim = current.size();
-                double step_size = 1.0 / (double)Params::opt_gridsearch::bins();
-                double upper_lim = 1.0 + step_size;
+                // the points are 0, 1 / bins, ..., 1 (accumulating a step would miss 1 or go beyond it)
+                int bins = Params::opt_gridsearch::bins();
                 double best_fit = -std::numeric_limits<double>::max();
                 Eigen::VectorXd current_result(dim);
-                for (double x = 0; x < upper_lim; x += step_size) {
+                for (int i = 0; i <= bins; ++i) {
                     Eigen::VectorXd new_point = current;
-                    new_point[depth] = x;
+                    new_point[depth] = i / (double)bins;
                     double val;
                     if (depth == dim - 1) {
                         val = eval(f, new_point);
-- 
2.43.0


From dae5ab052517acf5ac64aa9583f83d8a50dd90c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:00 +0000
Subject: [PATCH 08/39] fix: GridSearch returned an uninitialized point when no
 value of the function is a finite number

---
 src/limbo/opt/grid_search.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/opt/grid_search.hpp b/src/limbo/opt/grid_search.hpp
index 925cba0..49aeda8 100644
--- a/src/limbo/opt/grid_search.hpp
+++ b/src/limbo/opt/grid_search.hpp
@@ -87,7 +87,8 @@ namespace limbo {
                 // the points are 0, 1 / bins, ..., 1 (accumulating a step would miss 1 or go beyond it)
                 int bins = Params::opt_gridsearch::bins();
                 double best_fit = -std::numeric_limits<double>::max();
-                Eigen::VectorXd current_result(dim);
+                // returned as it is if no value is better than best_fit (e.g. NaN everywhere)
+                Eigen::VectorXd current_result = current;
                 for (int i = 0; i <= bins; ++i) {
                     Eigen::VectorXd new_point = current;
                     new_point[depth] = i / (double)bins;
-- 
2.43.0


From ae04251e842c33da9f0657cfa92cda1101be35db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:00 +0000
Subject: [PATCH 09/39] fix: ParallelRepeater ignored the replicates whose
 value is below the lowest float

---
 src/limbo/opt/parallel_repeater.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/limbo/opt/parallel_repeater.hpp b/src/limbo/opt/parallel_repeater.hpp
index a3eebf8..a6a307b 100644
--- a/src/limbo/opt/parallel_repeater.hpp
+++ b/src/limbo/opt/parallel_repeater.hpp
@@ -48,6 +48,8 @@
 
 #include <algorithm>
 
+#include <limits>
+
 #include <Eigen/Core>
 
 #include <limbo/opt/optimizer.hpp>
@@ -99,7 +101,7 @@ namespace limbo {
                     // clang-format on
                 };
 
-                pair_t init_v = std::make_pair(init, -std::numeric_limits<float>::max());
+                pair_t init_v = std::make_pair(init, -std::numeric_limits<double>::infinity());
                 auto m = tools::par::max(init_v, Params::opt_parallelrepeater::repeats(), body, comp);
 
                 return m.first;
-- 
2.43.0


From e123396b96efc7e8bd872ec6c1c148e11ac44ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:00 +0000
Subject: [PATCH 10/39] fix: an NLOpt optimizer reused in another dimension
 returned the initial point without optimizing

---
 src/limbo/opt/nlopt_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/opt/nlopt_base.hpp b/src/limbo/opt/nlopt_base.hpp
index 7dc89cf..bba2759 100644
--- a/src/limbo/opt/nlopt_base.hpp
+++ b/src/limbo/opt/nlopt_base.hpp
@@ -77,7 +77,7 @@ namespace limbo {
             Eigen::VectorXd operator()(const F& f, const Eigen::VectorXd& init, bool bounded)
             {
                 int dim = init.size();
-                if (!_initialized)
+                if (!_initialized || static_cast<int>(_opt.get_dimension()) != dim)
                     initialize(dim);
 
                 _opt.set_max_objective(nlopt_func<F>, (void*)&f);
-- 
2.43.0


From 42b2c4aca33ff0da792a4154618eda6907ba7eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:00 +0000
Subject: [PATCH 11/39] fix: an NLOpt optimizer stayed bounded in [0, 1] once
 it had been called with bounds

---
 src/limbo/opt/nlopt_base.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/limbo/opt/nlopt_base.hpp b/src/limbo/opt/nlopt_base.hpp
index bba2759..5e01cc8 100644
--- a/src/limbo/opt/nlopt_base.hpp
+++ b/src/limbo/opt/nlopt_base.hpp
@@ -51,6 +51,7 @@
 #else
 #include <Eigen/Core>
 
+#include <cmath>
 #include <vector>
 
 #include <nlopt.hpp>
@@ -89,6 +90,10 @@ namespace limbo {
                     _opt.set_lower_bounds(std::vector<double>(dim, 0));
                     _opt.set_upper_bounds(std::vector<double>(dim, 1));
                 }
+                else { // the previous call may have been bounded
+                    _opt.set_lower_bounds(-HUGE_VAL);
+                    _opt.set_upper_bounds(HUGE_VAL);
+                }
 
                 double max;
 
-- 
2.43.0


From 9d150fbeeee0b986fbbc694f221eebe08a4eff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:07 +0000
Subject: [PATCH 12/39] fix: a bounded NLOpt optimization that starts out of
 [0, 1] returned its initial point, out of the bounds

---
 src/limbo/opt/nlopt_base.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/limbo/opt/nlopt_base.hpp b/src/limbo/opt/nlopt_base.hpp
index 5e01cc8..26e5e56 100644
--- a/src/limbo/opt/nlopt_base.hpp
+++ b/src/limbo/opt/nlopt_base.hpp
@@ -51,6 +51,7 @@
 #else
 #include <Eigen/Core>
 
+#include <algorithm>
 #include <cmath>
 #include <vector>
 
@@ -87,6 +88,9 @@ namespace limbo {
                 Eigen::VectorXd::Map(&x[0], dim) = init;
 
                 if (bounded) {
+                    // NLOpt refuses to start out of the bounds
+                    for (double& xi : x)
+                        xi = std::min(std::max(xi, 0.), 1.);
                     _opt.set_lower_bounds(std::vector<double>(dim, 0));
                     _opt.set_upper_bounds(std::vector<double>(dim, 1));
                 }
-- 
2.43.0


From 32192eb7bd2db0b86c690730c20f8eaf5c4ac8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:47 +0000
Subject: [PATCH 13/39] fix: generators seeded at the same time by two threads
 could get the same entropy counter

---
 src/external/rand_utils.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/external/rand_utils.hpp b/src/external/rand_utils.hpp
index 77fc779..2d69955 100644
--- a/src/external/rand_utils.hpp
+++ b/src/external/rand_utils.hpp
@@ -88,6 +88,7 @@
  *       http://www.pcg-random.org/posts/ease-of-use-without-loss-of-power.html
  */
 
+#include <atomic>
 #include <cstddef>
 #include <cstdint>
 #include <cstdlib>
@@ -453,7 +454,7 @@ namespace randutils {
             // Some people think you shouldn't use the random device much because
             // on some platforms it could be expensive to call or "use up" vital
             // system-wide entropy, so we just call it once.
-            static uint32_t random_int = std::random_device{}();
+            static std::atomic<uint32_t> random_base{std::random_device{}()};
 
             // The heap can vary from run to run as well.
             void* malloc_addr = malloc(sizeof(int));
@@ -461,9 +462,9 @@ namespace randutils {
             auto heap = hash(malloc_addr);
             auto stack = hash(&malloc_addr);
 
-            // Every call, we increment our random int.  We don't care about race
-            // conditons.  The more, the merrier.
-            random_int += 0xedf19156;
+            // Every call, we increment our random int.  It is atomic, so that two
+            // threads never get the same value.
+            uint32_t random_int = random_base += 0xedf19156;
 
             // Classic seed, the time.  It ought to change, especially since
             // this is (hopefully) nanosecond resolution time.
-- 
2.43.0


From c08fa309a813dbb8da6f3c4e5f43cc3b02c233c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:47 +0000
Subject: [PATCH 14/39] fix: CBOptimizer updated its models with a previous
 observation instead of the new one

---
 src/limbo/experimental/bayes_opt/cboptimizer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/limbo/experimental/bayes_opt/cboptimizer.hpp b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
index 3a9d620..1d6b62c 100644
--- a/src/limbo/experimental/bayes_opt/cboptimizer.hpp
+++ b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
@@ -178,6 +178,7 @@ namespace limbo {
 
                         this->_update_stats(*this, afun);
 
+                        _split_observations();
                         _model.add_sample(this->_samples.back(), _obs[0].back());
                         if (_nb_constraints > 0)
                             _constraint_model.add_sample(this->_samples.back(), _obs[1].back());
-- 
2.43.0


From 7c0292ec51a8d173773a752c5f7b835b6b39588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:07 +0000
Subject: [PATCH 15/39] fix: CBOptimizer::best_sample() mixed the indices of
 the feasible observations and of the samples, and read constraints that do
 not exist

---
 .../experimental/bayes_opt/cboptimizer.hpp    | 44 ++++++++++---------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/cboptimizer.hpp b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
index 1d6b62c..cc5e734 100644
--- a/src/limbo/experimental/bayes_opt/cboptimizer.hpp
+++ b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
@@ -49,6 +49,7 @@
 #include <algorithm>
 #include <iostream>
 #include <iterator>
+#include <numeric>
 
 #include <boost/parameter/aux_/void.hpp>
 
@@ -202,14 +203,7 @@ namespace limbo {
                     _dim_out = _model.dim_out();
                     _split_observations();
 
-                    std::vector<Eigen::VectorXd> obs = _feasible_observations();
-                    if (obs.size() > 0)
-                        _obs[0] = obs;
-
-                    auto rewards = std::vector<double>(_obs[0].size());
-                    std::transform(_obs[0].begin(), _obs[0].end(), rewards.begin(), afun);
-                    auto max_e = std::max_element(rewards.begin(), rewards.end());
-                    return _obs[0][std::distance(rewards.begin(), max_e)];
+                    return _obs[0][_best_index(afun)];
                 }
 
                 /// return the best sample so far (i.e. the argmax(f(x)))
@@ -219,14 +213,7 @@ namespace limbo {
                     _dim_out = _model.dim_out();
                     _split_observations();
 
-                    std::vector<Eigen::VectorXd> obs = _feasible_observations();
-                    if (obs.size() > 0)
-                        _obs[0] = obs;
-
-                    auto rewards = std::vector<double>(_obs[0].size());
-                    std::transform(_obs[0].begin(), _obs[0].end(), rewards.begin(), afun);
-                    auto max_e = std::max_element(rewards.begin(), rewards.end());
-                    return this->_samples[std::distance(rewards.begin(), max_e)];
+                    return this->_samples[_best_index(afun)];
                 }
 
                 const model_t& model() const { return _model; } // returns model for the objective function
@@ -238,12 +225,29 @@ namespace limbo {
                 mutable size_t _dim_out;
                 mutable std::vector<std::vector<Eigen::VectorXd>> _obs;
 
-                std::vector<Eigen::VectorXd> _feasible_observations() const
+                /// index of the best feasible observation (of the best one if none is feasible)
+                template <typename AggregatorFunction>
+                size_t _best_index(const AggregatorFunction& afun) const
+                {
+                    std::vector<size_t> candidates = _feasible_observations();
+                    if (candidates.empty()) {
+                        candidates.resize(_obs[0].size());
+                        std::iota(candidates.begin(), candidates.end(), 0);
+                    }
+
+                    std::vector<double> rewards(candidates.size());
+                    std::transform(candidates.begin(), candidates.end(), rewards.begin(), [&](size_t i) { return afun(_obs[0][i]); });
+                    auto max_e = std::max_element(rewards.begin(), rewards.end());
+                    return candidates[std::distance(rewards.begin(), max_e)];
+                }
+
+                /// indices of the feasible observations (all of them if there is no constraint)
+                std::vector<size_t> _feasible_observations() const
                 {
-                    std::vector<Eigen::VectorXd> feasible_obs;
+                    std::vector<size_t> feasible_obs;
                     for (size_t i = 0; i < _obs[0].size(); ++i) {
-                        if (_obs[1][i].prod() > 0)
-                            feasible_obs.push_back(_obs[0][i]);
+                        if (_nb_constraints == 0 || _obs[1][i].prod() > 0)
+                            feasible_obs.push_back(i);
                     }
 
                     return feasible_obs;
-- 
2.43.0


From 442a4c3833724d59796b1bc24de602e686b6c2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:07 +0000
Subject: [PATCH 16/39] fix: an allocation failure in BoBase::add_new_sample()
 left a sample without its observation

---
 src/limbo/bayes_opt/bo_base.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/limbo/bayes_opt/bo_base.hpp b/src/limbo/bayes_opt/bo_base.hpp
index f87bece..87b266a 100644
--- a/src/limbo/bayes_opt/bo_base.hpp
+++ b/src/limbo/bayes_opt/bo_base.hpp
@@ -234,7 +234,13 @@ namespace limbo {
                 if (tools::is_nan_or_inf(v))
                     throw EvaluationError();
                 _samples.push_back(s);
-                _observations.push_back(v);
+                try {
+                    _observations.push_back(v);
+                }
+                catch (...) { // never a sample without its observation
+                    _samples.pop_back();
+                    throw;
+                }
             }
 
             /// Evaluate a sample and add the result to the 'database' (sample / observations vectors) -- it does not update the model
-- 
2.43.0


From 1e25be4b4cca7055c60c2d8bdf2cc15500b88ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:07 +0000
Subject: [PATCH 17/39] fix: current_iteration() was uninitialized before the
 first optimization

---
 src/limbo/bayes_opt/bo_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/bayes_opt/bo_base.hpp b/src/limbo/bayes_opt/bo_base.hpp
index 87b266a..9e0683f 100644
--- a/src/limbo/bayes_opt/bo_base.hpp
+++ b/src/limbo/bayes_opt/bo_base.hpp
@@ -202,7 +202,7 @@ namespace limbo {
             using stat_t = typename boost::mpl::if_<boost::fusion::traits::is_sequence<Stat>, Stat, boost::fusion::vector<Stat>>::type;
 
             /// default constructor
-            BoBase() : _total_iterations(0) { _make_res_dir(); }
+            BoBase() : _current_iteration(0), _total_iterations(0) { _make_res_dir(); }
 
             /// copy is disabled (dangerous and useless)
             BoBase(const BoBase& other) = delete;
-- 
2.43.0


From 42b6d27eb09e422caa9dda6351359e11b00f5ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:07 +0000
Subject: [PATCH 18/39] fix: the optimizers created by a process in the same
 second wrote their statistics in the same files

---
 src/limbo/bayes_opt/bo_base.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/limbo/bayes_opt/bo_base.hpp b/src/limbo/bayes_opt/bo_base.hpp
index 9e0683f..5ab40c0 100644
--- a/src/limbo/bayes_opt/bo_base.hpp
+++ b/src/limbo/bayes_opt/bo_base.hpp
@@ -284,8 +284,10 @@ namespace limbo {
                 if (!Params::bayes_opt_bobase::stats_enabled())
                     return;
                 _res_dir = tools::hostname() + "_" + tools::date() + "_" + tools::getpid();
-                boost::filesystem::path my_path(_res_dir);
-                boost::filesystem::create_directory(my_path);
+                // the name is already taken if another optimizer has been created by this process in the same second
+                std::string name = _res_dir;
+                for (int i = 1; !boost::filesystem::create_directory(boost::filesystem::path(_res_dir)); ++i)
+                    _res_dir = name + "_" + std::to_string(i);
             }
 
             std::string _res_dir;
-- 
2.43.0


From 85cacb79eb3d864bf652563d2ff73f46f57c9f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:07 +0000
Subject: [PATCH 19/39] fix: tools::date() was not thread-safe

---
 src/limbo/tools/sys.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/tools/sys.hpp b/src/limbo/tools/sys.hpp
index af56361..46992b6 100644
--- a/src/limbo/tools/sys.hpp
+++ b/src/limbo/tools/sys.hpp
@@ -65,7 +65,8 @@ namespace limbo {
             char date[30];
             time_t date_time;
             time(&date_time);
-            strftime(date, 30, "%Y-%m-%d_%H_%M_%S", localtime(&date_time));
+            struct tm local_time; // localtime() is not thread-safe
+            strftime(date, 30, "%Y-%m-%d_%H_%M_%S", localtime_r(&date_time, &local_time));
             return std::string(date);
         }
 
-- 
2.43.0


From b4145d84cbb91fe3ae7255d4928fd1c64955b776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:07 +0000
Subject: [PATCH 20/39] fix: tools::hostname() failed with the host names of 50
 characters and more

---
 src/limbo/tools/sys.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/limbo/tools/sys.hpp b/src/limbo/tools/sys.hpp
index 46992b6..2838bf4 100644
--- a/src/limbo/tools/sys.hpp
+++ b/src/limbo/tools/sys.hpp
@@ -74,8 +74,8 @@ namespace limbo {
         /// easy way to get the hostame
         inline std::string hostname()
         {
-            char hostname[50];
-            int res = gethostname(hostname, 50);
+            char hostname[256]; // larger than HOST_NAME_MAX
+            int res = gethostname(hostname, sizeof(hostname));
             assert(res == 0);
             res = 0; // avoid a warning in opt mode
             return std::string(hostname);
-- 
2.43.0


From fc4c2bbc9d9e38aedacfe0749919601429776cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:07 +0000
Subject: [PATCH 21/39] fix: GridSampling missed the points on the upper border
 for some numbers of bins

---
 src/limbo/init/grid_sampling.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/limbo/init/grid_sampling.hpp b/src/limbo/init/grid_sampling.hpp
index 6e184f9..94fa291 100644
--- a/src/limbo/init/grid_sampling.hpp
+++ b/src/limbo/init/grid_sampling.hpp
@@ -80,9 +80,11 @@ namespace limbo {
             void _explore(int dim_in, const StateFunction& seval, const Eigen::VectorXd& current,
                 Opt& opt) const
             {
-                for (double x = 0; x <= 1.0f; x += 1.0f / (double)Params::init_gridsampling::bins()) {
+                // accumulating a step would miss the last point for some numbers of bins
+                int bins = Params::init_gridsampling::bins();
+                for (int i = 0; i <= bins; ++i) {
                     Eigen::VectorXd point = current;
-                    point[dim_in] = x;
+                    point[dim_in] = i / (double)bins;
                     if (dim_in == current.size() - 1) {
                         opt.eval_and_add(seval, point);
                     }
-- 
2.43.0


From 885a2da84c1504528099990d9ee51dad2351fbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:07 +0000
Subject: [PATCH 22/39] fix: the GP statistics missed the points on the upper
 border for some numbers of bins

---
 src/limbo/stat/gp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/limbo/stat/gp.hpp b/src/limbo/stat/gp.hpp
index b952dab..f763198 100644
--- a/src/limbo/stat/gp.hpp
+++ b/src/limbo/stat/gp.hpp
@@ -76,9 +76,11 @@ namespace limbo {
                 const BO& bo, const AggregatorFunction& afun,
                 const Eigen::VectorXd& current) const
             {
-                for (double x = 0; x <= 1.0f; x += 1.0f / (double)Params::stat_gp::bins()) {
+                // accumulating a step would miss the last point for some numbers of bins
+                int bins = Params::stat_gp::bins();
+                for (int i = 0; i <= bins; ++i) {
                     Eigen::VectorXd point = current;
-                    point[dim_in] = x;
+                    point[dim_in] = i / (double)bins;
                     if (dim_in == current.size() - 1) {
                         auto q = bo.model().query(point);
                         double acqui = opt::fun(typename BO::acquisition_function_t(bo.model(), bo.current_iteration())(point, afun, false));
-- 
2.43.0


From 247e0730cc43a6ad34e9cb9376c7ce78f57fc872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:07 +0000
Subject: [PATCH 23/39] fix: the GPLikelihood statistics called a method that
 does not exist

---
 src/limbo/stat/gp_likelihood.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/stat/gp_likelihood.hpp b/src/limbo/stat/gp_likelihood.hpp
index c60dcd2..d9d1e69 100644
--- a/src/limbo/stat/gp_likelihood.hpp
+++ b/src/limbo/stat/gp_likelihood.hpp
@@ -67,7 +67,7 @@ namespace limbo {
                 if (bo.total_iterations() == 0)
                     (*this->_log_file) << "#iteration gp_likelihood" << std::endl;
 
-                (*this->_log_file) << bo.total_iterations() << " " << bo.model().get_lik() << std::endl;
+                (*this->_log_file) << bo.total_iterations() << " " << bo.model().get_log_lik() << std::endl;
             }
         };
     }
-- 
2.43.0


From c0fd7eeacb772c35727c26643251e469e7ae0b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:40 +0000
Subject: [PATCH 24/39] fix: the sixth template argument of the optimizers was
 ignored

---
 src/limbo/bayes_opt/bo_base.hpp    | 4 +++-
 src/limbo/bayes_opt/boptimizer.hpp | 2 --
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/limbo/bayes_opt/bo_base.hpp b/src/limbo/bayes_opt/bo_base.hpp
index 5ab40c0..880edb4 100644
--- a/src/limbo/bayes_opt/bo_base.hpp
+++ b/src/limbo/bayes_opt/bo_base.hpp
@@ -115,6 +115,7 @@ namespace limbo {
     BOOST_PARAMETER_TEMPLATE_KEYWORD(modelfun)
     BOOST_PARAMETER_TEMPLATE_KEYWORD(statsfun)
     BOOST_PARAMETER_TEMPLATE_KEYWORD(stopcrit)
+    BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
 
     namespace bayes_opt {
 
@@ -122,7 +123,8 @@ namespace limbo {
             boost::parameter::optional<tag::initfun>,
             boost::parameter::optional<tag::acquifun>,
             boost::parameter::optional<tag::stopcrit>,
-            boost::parameter::optional<tag::modelfun>>;
+            boost::parameter::optional<tag::modelfun>,
+            boost::parameter::optional<tag::acquiopt>>; // not used by BoBase, but the number of arguments that are taken into account is the size of this list
 
         // clang-format off
         template <class Params,
diff --git a/src/limbo/bayes_opt/boptimizer.hpp b/src/limbo/bayes_opt/boptimizer.hpp
index 4860d02..3733fd1 100644
--- a/src/limbo/bayes_opt/boptimizer.hpp
+++ b/src/limbo/bayes_opt/boptimizer.hpp
@@ -72,8 +72,6 @@ namespace limbo {
         };
     }
 
-    BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
-
     namespace bayes_opt {
 
         using boptimizer_signature = boost::parameter::parameters<boost::parameter::optional<tag::acquiopt>,
-- 
2.43.0


From bac67977b22d427d6597c9ff393ebb6bb6a13c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:55 +0000
Subject: [PATCH 25/39] fix: the GPLikelihood statistics wrote a likelihood
 that was never computed

---
 src/limbo/stat/gp_likelihood.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/limbo/stat/gp_likelihood.hpp b/src/limbo/stat/gp_likelihood.hpp
index d9d1e69..2ff40e1 100644
--- a/src/limbo/stat/gp_likelihood.hpp
+++ b/src/limbo/stat/gp_likelihood.hpp
@@ -67,7 +67,9 @@ namespace limbo {
                 if (bo.total_iterations() == 0)
                     (*this->_log_file) << "#iteration gp_likelihood" << std::endl;
 
-                (*this->_log_file) << bo.total_iterations() << " " << bo.model().get_log_lik() << std::endl;
+                // get_log_lik() is only up to date after an optimization of the hyper-parameters
+                auto model = bo.model();
+                (*this->_log_file) << bo.total_iterations() << " " << model.compute_log_lik() << std::endl;
             }
         };
     }
-- 
2.43.0


From bc88df949cca24026be8e88dc60c5719ece07029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:36 +0000
Subject: [PATCH 26/39] fix: the text archive could not load the denormalized
 numbers it had saved

---
 src/limbo/serialize/text_archive.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/serialize/text_archive.hpp b/src/limbo/serialize/text_archive.hpp
index 19d01f2..1ac0643 100644
--- a/src/limbo/serialize/text_archive.hpp
+++ b/src/limbo/serialize/text_archive.hpp
@@ -47,6 +47,7 @@
 #define LIMBO_SERIALIZE_TEXT_ARCHIVE_HPP
 
 #include <cassert>
+#include <cstdlib>
 #include <iostream>
 #include <sstream>
 #include <string>
@@ -142,7 +143,7 @@ namespace limbo {
                     std::string cell;
                     std::vector<double> line;
                     while (std::getline(line_stream, cell, ' '))
-                        line.push_back(std::stod(cell));
+                        line.push_back(std::strtod(cell.c_str(), nullptr)); // std::stod throws on the denormalized numbers
                     v.push_back(line);
                 }
                 assert(!v.empty() && "empty file");
-- 
2.43.0


From f814f7dc6684fbcdb3ecfa0d5888a3b70024c4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:36 +0000
Subject: [PATCH 27/39] fix: the archives ignored the failures of their files

---
 src/limbo/serialize/binary_archive.hpp | 31 ++++++++++++++++++++------
 src/limbo/serialize/text_archive.hpp   | 23 +++++++++++++++++--
 2 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/limbo/serialize/binary_archive.hpp b/src/limbo/serialize/binary_archive.hpp
index b87b41a..9707f19 100644
--- a/src/limbo/serialize/binary_archive.hpp
+++ b/src/limbo/serialize/binary_archive.hpp
@@ -47,9 +47,12 @@
 #define LIMBO_SERIALIZE_BINARY_ARCHIVE_HPP
 
 #include <cassert>
+#include <fstream>
 #include <iostream>
 #include <sstream>
+#include <stdexcept>
 #include <string>
+#include <vector>
 
 // Quick hack for definition of 'I' in <complex.h>
 #undef I
@@ -71,7 +74,7 @@ namespace limbo {
 
                 std::ofstream out(fname(object_name).c_str(), std::ios::out | std::ios::binary | std::ios::trunc);
                 _write_binary(out, v);
-                out.close();
+                _close(out, object_name);
             }
 
             /// write a vector of Eigen::Vector*
@@ -90,7 +93,7 @@ namespace limbo {
 
                 std::ofstream out(fname(object_name).c_str(), std::ios::out | std::ios::binary | std::ios::trunc);
                 out << s.rdbuf();
-                out.close();
+                _close(out, object_name);
             }
 
             /// load an Eigen matrix (or vector)
@@ -110,8 +113,8 @@ namespace limbo {
 
                 std::ifstream in(fname(object_name).c_str(), std::ios::in | std::ios::binary);
 
-                int size;
-                in.read((char*)(&size), sizeof(int));
+                int size = 0;
+                _read(in, (char*)(&size), sizeof(int));
 
                 for (int i = 0; i < size; i++) {
                     V v;
@@ -141,6 +144,20 @@ namespace limbo {
                 boost::filesystem::create_directories(my_path);
             }
 
+            void _close(std::ofstream& out, const std::string& object_name) const
+            {
+                out.close();
+                if (!out)
+                    throw std::runtime_error("cannot write " + fname(object_name));
+            }
+
+            template <class Stream>
+            void _read(Stream& in, char* data, std::streamsize size) const
+            {
+                if (!in.read(data, size))
+                    throw std::runtime_error("missing, unreadable or incomplete file in " + _dir_name);
+            }
+
             template <class Matrix, class Stream>
             void _write_binary(Stream& out, const Matrix& matrix) const
             {
@@ -154,10 +171,10 @@ namespace limbo {
             void _read_binary(Stream& in, Matrix& matrix) const
             {
                 typename Matrix::Index rows = 0, cols = 0;
-                in.read((char*)(&rows), sizeof(typename Matrix::Index));
-                in.read((char*)(&cols), sizeof(typename Matrix::Index));
+                _read(in, (char*)(&rows), sizeof(typename Matrix::Index));
+                _read(in, (char*)(&cols), sizeof(typename Matrix::Index));
                 matrix.resize(rows, cols);
-                in.read((char*)matrix.data(), rows * cols * sizeof(typename Matrix::Scalar));
+                _read(in, (char*)matrix.data(), rows * cols * sizeof(typename Matrix::Scalar));
             }
         };
     } // namespace serialize
diff --git a/src/limbo/serialize/text_archive.hpp b/src/limbo/serialize/text_archive.hpp
index 1ac0643..863cc4d 100644
--- a/src/limbo/serialize/text_archive.hpp
+++ b/src/limbo/serialize/text_archive.hpp
@@ -48,9 +48,12 @@
 
 #include <cassert>
 #include <cstdlib>
+#include <fstream>
 #include <iostream>
 #include <sstream>
+#include <stdexcept>
 #include <string>
+#include <vector>
 
 // Quick hack for definition of 'I' in <complex.h>
 #undef I
@@ -72,6 +75,7 @@ namespace limbo {
                 _create_directory();
                 std::ofstream ofs(fname(object_name).c_str());
                 ofs << v.format(_fmt) << std::endl;
+                _close(ofs, object_name);
             }
 
             /// write a vector of Eigen::Vector*
@@ -83,6 +87,7 @@ namespace limbo {
                 for (auto& x : v) {
                     ofs << x.transpose().format(_fmt) << std::endl;
                 }
+                _close(ofs, object_name);
             }
 
             /// load an Eigen matrix (or vector)
@@ -90,6 +95,9 @@ namespace limbo {
             void load(M& m, const std::string& object_name) const
             {
                 auto values = _load(object_name);
+                for (auto& row : values)
+                    if (row.size() != values[0].size())
+                        throw std::runtime_error("incomplete matrix in " + fname(object_name));
                 m.resize(values.size(), values[0].size());
                 for (size_t i = 0; i < values.size(); ++i)
                     for (size_t j = 0; j < values[i].size(); ++j)
@@ -132,10 +140,18 @@ namespace limbo {
                 boost::filesystem::create_directories(my_path);
             }
 
+            void _close(std::ofstream& ofs, const std::string& object_name) const
+            {
+                ofs.close();
+                if (!ofs)
+                    throw std::runtime_error("cannot write " + fname(object_name));
+            }
+
             std::vector<std::vector<double>> _load(const std::string& object_name) const
             {
                 std::ifstream ifs(fname(object_name).c_str());
-                assert(ifs.good() && "file not found");
+                if (!ifs)
+                    throw std::runtime_error("cannot open " + fname(object_name));
                 std::string line;
                 std::vector<std::vector<double>> v;
                 while (std::getline(ifs, line)) {
@@ -146,7 +162,10 @@ namespace limbo {
                         line.push_back(std::strtod(cell.c_str(), nullptr)); // std::stod throws on the denormalized numbers
                     v.push_back(line);
                 }
-                assert(!v.empty() && "empty file");
+                if (ifs.bad())
+                    throw std::runtime_error("cannot read " + fname(object_name));
+                if (v.empty())
+                    throw std::runtime_error("empty file: " + fname(object_name));
                 return v;
             }
         };
-- 
2.43.0


From 997d79d375e05e73a19d8ab0ef33bfb67ce39c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:09 +0000
Subject: [PATCH 28/39] fix: the text archive lost the last digits of the
 numbers (and the largest ones)

FullPrecision is 15 digits in Eigen: a model loaded from a text archive was
not the one saved, and 1.7976931348623157e+308 was loaded as infinity.
---
 src/limbo/serialize/text_archive.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/serialize/text_archive.hpp b/src/limbo/serialize/text_archive.hpp
index 863cc4d..77fc10f 100644
--- a/src/limbo/serialize/text_archive.hpp
+++ b/src/limbo/serialize/text_archive.hpp
@@ -50,6 +50,7 @@
 #include <cstdlib>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -67,7 +68,7 @@ namespace limbo {
         class TextArchive {
         public:
             TextArchive(const std::string& dir_name) : _dir_name(dir_name),
-                                                       _fmt(Eigen::FullPrecision, Eigen::DontAlignCols, " ", "\n", "", "") {}
+                                                       _fmt(std::numeric_limits<double>::max_digits10, Eigen::DontAlignCols, " ", "\n", "", "") {}
 
             /// write an Eigen::Matrix*
             void save(const Eigen::MatrixXd& v, const std::string& object_name) const
-- 
2.43.0


From 06daf806f4f590ad8b7ca1cb04986f59c77c27df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 29/39] fix: GP_UCB is not a number at the first iteration

---
 src/limbo/acqui/gp_ucb.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/limbo/acqui/gp_ucb.hpp b/src/limbo/acqui/gp_ucb.hpp
index 2c10f50..ec77780 100644
--- a/src/limbo/acqui/gp_ucb.hpp
+++ b/src/limbo/acqui/gp_ucb.hpp
@@ -46,6 +46,9 @@
 #ifndef LIMBO_ACQUI_GP_UCB_HPP
 #define LIMBO_ACQUI_GP_UCB_HPP
 
+#include <algorithm>
+#include <cmath>
+
 #include <Eigen/Core>
 
 #include <limbo/opt/optimizer.hpp>
@@ -82,7 +85,8 @@ namespace limbo {
         public:
             GP_UCB(const Model& model, int iteration) : _model(model)
             {
-                double nt = std::pow(iteration, dim_in() / 2.0 + 2.0);
+                // the first iteration is 0, but n starts at 1 (log(0) would make all the values NaN)
+                double nt = std::pow(std::max(iteration, 1), dim_in() / 2.0 + 2.0);
                 static constexpr double delta3 = Params::acqui_gpucb::delta() * 3;
                 static constexpr double pi2 = M_PI * M_PI;
                 _beta = std::sqrt(2.0 * std::log(nt * pi2 / delta3));
-- 
2.43.0


From 33840d6185b44e0cecbae50fc33cca5467748132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:10 +0000
Subject: [PATCH 30/39] fix: the template arguments of the multi-objective
 optimisers were ignored

---
 src/limbo/experimental/bayes_opt/bo_multi.hpp | 24 +++++++++----------
 src/limbo/experimental/bayes_opt/ehvi.hpp     | 12 +++++++---
 src/limbo/experimental/bayes_opt/parego.hpp   |  8 ++++++-
 3 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/bo_multi.hpp b/src/limbo/experimental/bayes_opt/bo_multi.hpp
index 446fbde..1db1913 100644
--- a/src/limbo/experimental/bayes_opt/bo_multi.hpp
+++ b/src/limbo/experimental/bayes_opt/bo_multi.hpp
@@ -130,18 +130,18 @@ namespace limbo {
 #endif
             }
 
-            // to be removed once moved out of experimental?
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(initfun)
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(acquifun)
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(modelfun)
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(statsfun)
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(stopcrit)
-
-            using bo_multi_signature = boost::parameter::parameters<boost::parameter::optional<tag::statsfun>,
-                boost::parameter::optional<tag::initfun>,
-                boost::parameter::optional<tag::acquifun>,
-                boost::parameter::optional<tag::stopcrit>,
-                boost::parameter::optional<tag::modelfun>>;
+            // these are the keywords of BoBase (other ones with the same names would be ignored by it)
+            using limbo::initfun;
+            using limbo::acquifun;
+            using limbo::modelfun;
+            using limbo::statsfun;
+            using limbo::stopcrit;
+
+            using bo_multi_signature = boost::parameter::parameters<boost::parameter::optional<limbo::tag::statsfun>,
+                boost::parameter::optional<limbo::tag::initfun>,
+                boost::parameter::optional<limbo::tag::acquifun>,
+                boost::parameter::optional<limbo::tag::stopcrit>,
+                boost::parameter::optional<limbo::tag::modelfun>>;
 
             template <class Params,
                 class A1 = boost::parameter::void_,
diff --git a/src/limbo/experimental/bayes_opt/ehvi.hpp b/src/limbo/experimental/bayes_opt/ehvi.hpp
index d9e4edb..d4b0b6d 100644
--- a/src/limbo/experimental/bayes_opt/ehvi.hpp
+++ b/src/limbo/experimental/bayes_opt/ehvi.hpp
@@ -67,9 +67,15 @@ namespace limbo {
     namespace experimental {
         namespace bayes_opt {
 
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
+            using limbo::acquiopt;
 
-            using ehvi_signature = boost::parameter::parameters<boost::parameter::optional<tag::acquiopt>>;
+            // the number of arguments that are taken into account is the size of this list
+            using ehvi_signature = boost::parameter::parameters<boost::parameter::optional<limbo::tag::acquiopt>,
+                boost::parameter::optional<limbo::tag::statsfun>,
+                boost::parameter::optional<limbo::tag::initfun>,
+                boost::parameter::optional<limbo::tag::acquifun>,
+                boost::parameter::optional<limbo::tag::stopcrit>,
+                boost::parameter::optional<limbo::tag::modelfun>>;
 
             template <class Params,
                 class A1 = boost::parameter::void_,
@@ -93,7 +99,7 @@ namespace limbo {
                 };
 
                 using args = typename ehvi_signature::bind<A1, A2, A3, A4, A5, A6>::type;
-                using acqui_optimizer_t = typename boost::parameter::binding<args, tag::acquiopt, typename defaults::acquiopt_t>::type;
+                using acqui_optimizer_t = typename boost::parameter::binding<args, limbo::tag::acquiopt, typename defaults::acquiopt_t>::type;
 
                 using pareto_point_t = std::tuple<Eigen::VectorXd, Eigen::VectorXd, Eigen::VectorXd>;
                 using base_t = limbo::experimental::bayes_opt::BoMulti<Params, A1, A2, A3, A4, A5, A6>;
diff --git a/src/limbo/experimental/bayes_opt/parego.hpp b/src/limbo/experimental/bayes_opt/parego.hpp
index 7b0ec27..3920c68 100644
--- a/src/limbo/experimental/bayes_opt/parego.hpp
+++ b/src/limbo/experimental/bayes_opt/parego.hpp
@@ -59,7 +59,13 @@ namespace limbo {
 
             BOOST_PARAMETER_TEMPLATE_KEYWORD(parego_modelfun)
 
-            using parego_signature = boost::parameter::parameters<boost::parameter::optional<tag::parego_modelfun>>;
+            // the number of arguments that are taken into account is the size of this list
+            using parego_signature = boost::parameter::parameters<boost::parameter::optional<tag::parego_modelfun>,
+                boost::parameter::optional<limbo::tag::acquiopt>,
+                boost::parameter::optional<limbo::tag::statsfun>,
+                boost::parameter::optional<limbo::tag::initfun>,
+                boost::parameter::optional<limbo::tag::acquifun>,
+                boost::parameter::optional<limbo::tag::stopcrit>>;
 
             // clang-format off
             template <class Params,
-- 
2.43.0


From 4527ba60911ac56ef2efa5bea38208be196e19ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:25 +0000
Subject: [PATCH 31/39] fix: SPGP read out of the samples when min_m is larger
 than their number

---
 src/limbo/experimental/model/spgp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 7c30585..84bdf69 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -384,6 +384,9 @@ namespace limbo {
                 _m = Params::model_spgp::samples_percent() * _samples.rows() / 100;
                 if (_m < Params::model_spgp::min_m())
                     _m = Params::model_spgp::min_m();
+                // the pseudo-inputs start from distinct samples
+                if (_m > (size_t)_samples.rows())
+                    _m = _samples.rows();
             }
 
             void _compute(bool optimize = true)
-- 
2.43.0


From eda8f96730d841df121615f0146f2dfd947ecee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:39 +0000
Subject: [PATCH 32/39] fix: the training of SPGP started from infinite
 parameters when the data does not vary (one sample)

---
 src/limbo/experimental/model/spgp.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 84bdf69..7d7d999 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -424,9 +424,13 @@ namespace limbo {
                         _w_init.segment(i * _dim_in, _dim_in) = _samples.row(positions[i]);
 
                     // Initialize hyperparameters sensibly in log space
-                    _w_init.segment(_m * _dim_in, _dim_in) = -2 * ((_samples.colwise().maxCoeff() - _samples.colwise().minCoeff()).array() / 2).log(); // -2*log((max(x)-min(x))'/2)
-                    _w_init[(_m + 1) * _dim_in] = std::log(_observations_zm.array().pow(2).mean());
-                    _w_init[(_m + 1) * _dim_in + 1] = std::log((_observations_zm.array().pow(2) / 4).mean());
+                    // (with the default values when the samples or the observations do not vary)
+                    Eigen::VectorXd half_range = (_samples.colwise().maxCoeff() - _samples.colwise().minCoeff()).transpose() / 2;
+                    for (size_t i = 0; i < _dim_in; ++i)
+                        _w_init[_m * _dim_in + i] = half_range[i] > 0 ? -2 * std::log(half_range[i]) : std::log(Params::model_spgp::pred_kernel_l()); // -2*log((max(x)-min(x))'/2)
+                    double mean_sq = _observations_zm.array().pow(2).mean();
+                    _w_init[(_m + 1) * _dim_in] = std::log(mean_sq > 0 ? mean_sq : Params::model_spgp::pred_kernel_sigma_sq());
+                    _w_init[(_m + 1) * _dim_in + 1] = std::log(mean_sq > 0 ? mean_sq / 4 : Params::model_spgp::sig());
 
                     _optimize_init = false;
                 }
-- 
2.43.0


From 225954271b03eb6c8df80d4cab2973e03f3ffdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:58 +0000
Subject: [PATCH 33/39] fix: mu() and sigma() of SPGP took a point for a list
 of points

---
 src/limbo/experimental/model/spgp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 7d7d999..b44c123 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -213,6 +213,9 @@ namespace limbo {
 	  		*/
             Eigen::MatrixXd mu(const Eigen::MatrixXd& v) const
             {
+                // a point (column vector), as for the other models, or one point per row
+                if (v.cols() == 1 && _dim_in != 1)
+                    return _predict(v.transpose(), true, false).first.transpose();
                 return _predict(v, true, false).first;
             }
             std::vector<Eigen::VectorXd> mu_mult(const Eigen::MatrixXd& v) const
@@ -227,7 +230,7 @@ namespace limbo {
 	  		*/
             double sigma(const Eigen::VectorXd& v) const
             {
-                return (_predict(v, false, true).second)(0, 0);
+                return (_predict(v.transpose(), false, true).second)(0, 0);
             }
             // TODO: Deberia machear la interfaz de la GP
             Eigen::VectorXd sigma_mult(const Eigen::MatrixXd& v) const
-- 
2.43.0


From c47a6e8e86c4491be4d89ac806062d762a07dc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:29 +0000
Subject: [PATCH 34/39] fix: the likelihood of SPGP lost half of log(sig) when
 n - m is odd

---
 src/limbo/experimental/model/spgp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index b44c123..e2f336b 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -498,7 +498,7 @@ namespace limbo {
                 Eigen::MatrixXd bet = invLmV * y;
 
                 // Calculate likelihood
-                Eigen::MatrixXd fw = Lm.diagonal().array().log().colwise().sum() + (n - _m) / 2 * std::log(sig) + (y.transpose() * y - bet.transpose() * bet).array() / (2 * sig) + ep.array().log().sum() / 2 + 0.5 * n * std::log(2 * M_PI);
+                Eigen::MatrixXd fw = Lm.diagonal().array().log().colwise().sum() + (n - _m) / 2.0 * std::log(sig) + (y.transpose() * y - bet.transpose() * bet).array() / (2 * sig) + ep.array().log().sum() / 2 + 0.5 * n * std::log(2 * M_PI);
 
                 if (!eval_grad) {
                     if (inverse)
-- 
2.43.0


From f761fbd25a61e08b0099e07cd65cf9fc7ff770bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:39 +0000
Subject: [PATCH 35/39] fix: the initial pseudo-inputs of SPGP mixed the
 coordinates of the samples

---
 src/limbo/experimental/model/spgp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index e2f336b..22b55b8 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -424,7 +424,8 @@ namespace limbo {
                     Eigen::VectorXd positions = Eigen::VectorXd::LinSpaced(_samples.rows(), 0, _samples.rows() - 1);
                     std::random_shuffle(positions.data(), positions.data() + positions.size());
                     for (size_t i = 0; i < _m; ++i)
-                        _w_init.segment(i * _dim_in, _dim_in) = _samples.row(positions[i]);
+                        for (size_t j = 0; j < _dim_in; ++j)
+                            _w_init[j * _m + i] = _samples.row(positions[i])(j); // by columns, see HyperParams
 
                     // Initialize hyperparameters sensibly in log space
                     // (with the default values when the samples or the observations do not vary)
-- 
2.43.0


From a816456d6c18b15dc311909f8c256e84493a5c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:54 +0000
Subject: [PATCH 36/39] fix: optimize_hyperparams() of SPGP kept the
 factorisation of the previous parameters

---
 src/limbo/experimental/model/spgp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 22b55b8..041a776 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -125,7 +125,7 @@ namespace limbo {
             void optimize_hyperparams()
             {
                 _optimize_init = true;
-                _optimize_hyperparams();
+                _compute();
             }
 
             /// Compute the SPGP from samples and observations. This call needs to be explicit!
-- 
2.43.0


From 930c7aba2c68e3dff46e5246766c9e7688365346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:11 +0000
Subject: [PATCH 37/39] fix: SPGP seeded and used the generator of the whole
 process

---
 src/limbo/experimental/model/spgp.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 041a776..cd71f6a 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -47,9 +47,11 @@
 #ifndef LIMBO_MODEL_SPGP_HPP
 #define LIMBO_MODEL_SPGP_HPP
 
+#include <algorithm>
 #include <cassert>
 #include <iostream>
 #include <limits>
+#include <random>
 #include <vector>
 
 #include <Eigen/Cholesky>
@@ -369,7 +371,6 @@ namespace limbo {
                 _del = Params::model_spgp::jitter();
 
                 _optimize_init = true;
-                srand(time(NULL));
             }
 
             void _compute_observations_zm()
@@ -422,7 +423,9 @@ namespace limbo {
 
                     // Initialize pseudo-inputs to a random subset of training inputs
                     Eigen::VectorXd positions = Eigen::VectorXd::LinSpaced(_samples.rows(), 0, _samples.rows() - 1);
-                    std::random_shuffle(positions.data(), positions.data() + positions.size());
+                    // one generator per thread: the models trained at the same time do not influence each other
+                    static thread_local std::mt19937 rgen(randutils::auto_seed_128{}.base());
+                    std::shuffle(positions.data(), positions.data() + positions.size(), rgen);
                     for (size_t i = 0; i < _m; ++i)
                         for (size_t j = 0; j < _dim_in; ++j)
                             _w_init[j * _m + i] = _samples.row(positions[i])(j); // by columns, see HyperParams
-- 
2.43.0


From b390e270c2059b0bde8fe96e1c553f15d5a1359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:03 +0000
Subject: [PATCH 38/39] fix: SPGP used an uninitialised jitter when its samples
 are only added one by one

---
 src/limbo/experimental/model/spgp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index cd71f6a..b67bb1a 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -325,7 +325,7 @@ namespace limbo {
             size_t _m;
             size_t _dim_in = -1;
             size_t _dim_out = -1;
-            double _del;
+            double _del = Params::model_spgp::jitter();
             Eigen::MatrixXd _samples;
             Eigen::MatrixXd _observations;
             Eigen::MatrixXd _observations_zm;
-- 
2.43.0


From bd1898d5ffea0093992d1431dc5188d98f9e879d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:13 +0000
Subject: [PATCH 39/39] fix: recompute() of SPGP ignored update_obs_mean

---
 src/limbo/experimental/model/spgp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index b67bb1a..222f221 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -287,6 +287,8 @@ namespace limbo {
             ///  recomputes the SPGP
             void recompute(bool update_obs_mean = true)
             {
+                if (update_obs_mean) // the mean function can have been changed
+                    _compute_observations_zm();
                 _optimize_init = true;
                 _compute();
             }
-- 
2.43.0

