From 770ecde4c2906d6b6b7013d1753b36e22a04cc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:58 +0000
Subject: [PATCH 01/34] fix: SparsifiedGP reads past the neighbors when there
 are fewer of them than dimensions

---
 src/limbo/model/sparsified_gp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/limbo/model/sparsified_gp.hpp b/src/limbo/model/sparsified_gp.hpp
index 7538fcc..35ab150 100644
--- a/src/limbo/model/sparsified_gp.hpp
+++ b/src/limbo/model/sparsified_gp.hpp
@@ -136,9 +136,11 @@ namespace limbo {
                     /// remove self distance
                     neighbors.erase(neighbors.begin() + i);
 
-                    std::partial_sort(neighbors.begin(), neighbors.begin() + D, neighbors.end());
+                    /// there might be less neighbors than dimensions
+                    int nn = std::min(D, N - 1);
+                    std::partial_sort(neighbors.begin(), neighbors.begin() + nn, neighbors.end());
 
-                    for (int j = 0; j < D; j++) {
+                    for (int j = 0; j < nn; j++) {
                         dist += neighbors[j];
                     }
 
-- 
2.43.0


From 70475f2507bf79f9b3026d8fedfaea01e4f51794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:58 +0000
Subject: [PATCH 02/34] fix: MultiGP::recompute(true, false) left the weights
 of the previous mean

---
 src/limbo/model/multi_gp.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/limbo/model/multi_gp.hpp b/src/limbo/model/multi_gp.hpp
index 22bf26e..5eb25e0 100644
--- a/src/limbo/model/multi_gp.hpp
+++ b/src/limbo/model/multi_gp.hpp
@@ -257,8 +257,14 @@ namespace limbo {
                 if (_gp_models.size() == 0)
                     return;
 
-                if (update_obs_mean) // if the mean is updated, we need to fully re-compute
-                    return compute(_gp_models[0].samples(), _observations, update_full_kernel);
+                if (update_obs_mean) { // if the mean is updated, we need to fully re-compute
+                    compute(_gp_models[0].samples(), _observations, update_full_kernel);
+                    // if the kernel is not updated, the weights still need to follow the new observations
+                    if (!update_full_kernel)
+                        limbo::tools::par::loop(0, _dim_out, [&](size_t i) {
+                            _gp_models[i].recompute(false, false);
+                        });
+                }
                 else
                     limbo::tools::par::loop(0, _dim_out, [&](size_t i) {
                         _gp_models[i].recompute(false, update_full_kernel);
-- 
2.43.0


From 862ef5ed73d4604354982d5e884ec61c390619ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:12 +0000
Subject: [PATCH 03/34] fix: MultiGP::add_sample kept earlier observations
 centred on the previous data-dependent mean

---
 src/limbo/model/multi_gp.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/limbo/model/multi_gp.hpp b/src/limbo/model/multi_gp.hpp
index 5eb25e0..8f7d566 100644
--- a/src/limbo/model/multi_gp.hpp
+++ b/src/limbo/model/multi_gp.hpp
@@ -172,6 +172,12 @@ namespace limbo {
                 limbo::tools::par::loop(0, _dim_out, [&](size_t i) {
                     _gp_models[i].add_sample(sample, limbo::tools::make_vector(observation[i] - mean_vector[i]));
                 });
+
+                // the mean function might depend on the observations (e.g., mean::Data):
+                // in this case, the previous observations need to be centered with the new mean
+                // (this is not possible if the GPs dropped some samples)
+                if (_observations.size() > 1 && _gp_models[0].samples().size() == _observations.size())
+                    recompute(true, false);
             }
 
             /**
-- 
2.43.0


From 2f4617548877a6b0a7cf78ad70fe57637a9a554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:30 +0000
Subject: [PATCH 04/34] fix: the text archive lost the last digits of the
 values (Eigen::FullPrecision is 15 digits)

---
 src/limbo/serialize/text_archive.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/serialize/text_archive.hpp b/src/limbo/serialize/text_archive.hpp
index 19d01f2..d814289 100644
--- a/src/limbo/serialize/text_archive.hpp
+++ b/src/limbo/serialize/text_archive.hpp
@@ -48,6 +48,7 @@
 
 #include <cassert>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <string>
 
@@ -63,7 +64,7 @@ namespace limbo {
         class TextArchive {
         public:
             TextArchive(const std::string& dir_name) : _dir_name(dir_name),
-                                                       _fmt(Eigen::FullPrecision, Eigen::DontAlignCols, " ", "\n", "", "") {}
+                                                       _fmt(std::numeric_limits<double>::max_digits10, Eigen::DontAlignCols, " ", "\n", "", "") {}
 
             /// write an Eigen::Matrix*
             void save(const Eigen::MatrixXd& v, const std::string& object_name) const
-- 
2.43.0


From 5c22222af0356aec682beadee9679680c264247c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:31 +0000
Subject: [PATCH 05/34] fix: loading a subnormal value from a text archive
 threw std::out_of_range

---
 src/limbo/serialize/text_archive.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/serialize/text_archive.hpp b/src/limbo/serialize/text_archive.hpp
index d814289..13092cf 100644
--- a/src/limbo/serialize/text_archive.hpp
+++ b/src/limbo/serialize/text_archive.hpp
@@ -47,6 +47,7 @@
 #define LIMBO_SERIALIZE_TEXT_ARCHIVE_HPP
 
 #include <cassert>
+#include <cstdlib>
 #include <iostream>
 #include <limits>
 #include <sstream>
@@ -143,7 +144,7 @@ namespace limbo {
                     std::string cell;
                     std::vector<double> line;
                     while (std::getline(line_stream, cell, ' '))
-                        line.push_back(std::stod(cell));
+                        line.push_back(std::strtod(cell.c_str(), nullptr)); // std::stod throws on subnormal values
                     v.push_back(line);
                 }
                 assert(!v.empty() && "empty file");
-- 
2.43.0


From 73831b5339dd50fedbc06de65021a53befee8879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:31 +0000
Subject: [PATCH 06/34] fix: a GP loaded without recomputation missed its
 centered observations and kernel matrix

---
 src/limbo/model/gp.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/limbo/model/gp.hpp b/src/limbo/model/gp.hpp
index 3bfa4db..3039c31 100644
--- a/src/limbo/model/gp.hpp
+++ b/src/limbo/model/gp.hpp
@@ -507,6 +507,11 @@ namespace limbo {
                 else {
                     archive.load(_matrixL, "matrixL");
                     archive.load(_alpha, "alpha");
+
+                    // what is not in the archive
+                    this->_compute_obs_mean();
+                    _kernel = _matrixL * _matrixL.transpose();
+                    _inv_kernel_updated = false;
                 }
             }
 
-- 
2.43.0


From ad108d22136cf65e397eeec5576ca96107b3055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:03 +0000
Subject: [PATCH 07/34] fix: GP_UCB is NaN at iteration 0 (log of 0)

---
 src/limbo/acqui/gp_ucb.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/limbo/acqui/gp_ucb.hpp b/src/limbo/acqui/gp_ucb.hpp
index 2c10f50..876a161 100644
--- a/src/limbo/acqui/gp_ucb.hpp
+++ b/src/limbo/acqui/gp_ucb.hpp
@@ -46,6 +46,9 @@
 #ifndef LIMBO_ACQUI_GP_UCB_HPP
 #define LIMBO_ACQUI_GP_UCB_HPP
 
+#include <algorithm>
+#include <cmath>
+
 #include <Eigen/Core>
 
 #include <limbo/opt/optimizer.hpp>
@@ -82,7 +85,8 @@ namespace limbo {
         public:
             GP_UCB(const Model& model, int iteration) : _model(model)
             {
-                double nt = std::pow(iteration, dim_in() / 2.0 + 2.0);
+                // iterations are counted from 0 by the optimizer
+                double nt = std::pow(std::max(1, iteration), dim_in() / 2.0 + 2.0);
                 static constexpr double delta3 = Params::acqui_gpucb::delta() * 3;
                 static constexpr double pi2 = M_PI * M_PI;
                 _beta = std::sqrt(2.0 * std::log(nt * pi2 / delta3));
-- 
2.43.0


From f9ceb4ff094c8bcf2786529b1b58874b49d8441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:36 +0000
Subject: [PATCH 08/34] fix: grid search leaves [0,1] by accumulated rounding
 and loses its result for the lowest values

---
 src/limbo/opt/grid_search.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/limbo/opt/grid_search.hpp b/src/limbo/opt/grid_search.hpp
index 346568b..0688f4a 100644
--- a/src/limbo/opt/grid_search.hpp
+++ b/src/limbo/opt/grid_search.hpp
@@ -84,13 +84,12 @@ namespace limbo {
             Eigen::VectorXd _inner_search(const F& f, size_t depth, const Eigen::VectorXd& current) const
             {
                 size_t dim = current.size();
-                double step_size = 1.0 / (double)Params::opt_gridsearch::bins();
-                double upper_lim = 1.0 + step_size;
-                double best_fit = -std::numeric_limits<double>::max();
-                Eigen::VectorXd current_result(dim);
-                for (double x = 0; x < upper_lim; x += step_size) {
+                int bins = Params::opt_gridsearch::bins();
+                double best_fit = -std::numeric_limits<double>::infinity();
+                Eigen::VectorXd current_result = current;
+                for (int i = 0; i <= bins; ++i) {
                     Eigen::VectorXd new_point = current;
-                    new_point[depth] = x;
+                    new_point[depth] = (double)i / (double)bins;
                     double val;
                     if (depth == dim - 1) {
                         val = eval(f, new_point);
-- 
2.43.0


From 910efbafe18043d10f9556bd530da31d5dbf8d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:36 +0000
Subject: [PATCH 09/34] fix: repeated optimizer ignores restarts whose value is
 below the lowest float

---
 src/limbo/opt/parallel_repeater.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/opt/parallel_repeater.hpp b/src/limbo/opt/parallel_repeater.hpp
index a3eebf8..508113b 100644
--- a/src/limbo/opt/parallel_repeater.hpp
+++ b/src/limbo/opt/parallel_repeater.hpp
@@ -99,7 +99,7 @@ namespace limbo {
                     // clang-format on
                 };
 
-                pair_t init_v = std::make_pair(init, -std::numeric_limits<float>::max());
+                pair_t init_v = std::make_pair(init, -std::numeric_limits<double>::infinity());
                 auto m = tools::par::max(init_v, Params::opt_parallelrepeater::repeats(), body, comp);
 
                 return m.first;
-- 
2.43.0


From e0b6fcd59abeefc93a7e12874bc70dd6b7ed0ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:10 +0000
Subject: [PATCH 10/34] fix: bounded NLOpt wrappers return a start that lies
 outside of the bounds

---
 src/limbo/opt/nlopt_base.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/limbo/opt/nlopt_base.hpp b/src/limbo/opt/nlopt_base.hpp
index 7dc89cf..1a44fab 100644
--- a/src/limbo/opt/nlopt_base.hpp
+++ b/src/limbo/opt/nlopt_base.hpp
@@ -86,6 +86,9 @@ namespace limbo {
                 Eigen::VectorXd::Map(&x[0], dim) = init;
 
                 if (bounded) {
+                    // NLOpt rejects a start outside of the bounds
+                    for (double& xi : x)
+                        xi = std::min(1., std::max(0., xi));
                     _opt.set_lower_bounds(std::vector<double>(dim, 0));
                     _opt.set_upper_bounds(std::vector<double>(dim, 1));
                 }
-- 
2.43.0


From c644dbebf4553906a91308c8e24a06cbce68eca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:11 +0000
Subject: [PATCH 11/34] fix: an NLOpt wrapper used again with another dimension
 throws or does nothing

---
 src/limbo/opt/nlopt_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/opt/nlopt_base.hpp b/src/limbo/opt/nlopt_base.hpp
index 1a44fab..e18c4e4 100644
--- a/src/limbo/opt/nlopt_base.hpp
+++ b/src/limbo/opt/nlopt_base.hpp
@@ -77,7 +77,7 @@ namespace limbo {
             Eigen::VectorXd operator()(const F& f, const Eigen::VectorXd& init, bool bounded)
             {
                 int dim = init.size();
-                if (!_initialized)
+                if (!_initialized || (int)_opt.get_dimension() != dim)
                     initialize(dim);
 
                 _opt.set_max_objective(nlopt_func<F>, (void*)&f);
-- 
2.43.0


From d90bc9ddf6e1efefc99fd20c2fae345619620824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:11 +0000
Subject: [PATCH 12/34] fix: NLOpt wrappers keep the [0,1] bounds for later
 unbounded searches

---
 src/limbo/opt/nlopt_base.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/limbo/opt/nlopt_base.hpp b/src/limbo/opt/nlopt_base.hpp
index e18c4e4..60ff743 100644
--- a/src/limbo/opt/nlopt_base.hpp
+++ b/src/limbo/opt/nlopt_base.hpp
@@ -51,6 +51,8 @@
 #else
 #include <Eigen/Core>
 
+#include <algorithm>
+#include <iostream>
 #include <vector>
 
 #include <nlopt.hpp>
@@ -85,6 +87,10 @@ namespace limbo {
                 std::vector<double> x(dim);
                 Eigen::VectorXd::Map(&x[0], dim) = init;
 
+                // the bounds of a bounded search must not outlive it
+                std::vector<double> lower_bounds = _opt.get_lower_bounds();
+                std::vector<double> upper_bounds = _opt.get_upper_bounds();
+
                 if (bounded) {
                     // NLOpt rejects a start outside of the bounds
                     for (double& xi : x)
@@ -111,6 +117,9 @@ namespace limbo {
                     std::cerr << "[NLOptGrad]: " << e.what() << std::endl;
                 }
 
+                _opt.set_lower_bounds(lower_bounds);
+                _opt.set_upper_bounds(upper_bounds);
+
                 return Eigen::VectorXd::Map(x.data(), x.size());
             }
 
-- 
2.43.0


From c2022099bc21a1486d166ab1129fbb30f0c120b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:40 +0000
Subject: [PATCH 13/34] fix: grid sampling misses its last level for some
 numbers of bins

---
 src/limbo/init/grid_sampling.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/limbo/init/grid_sampling.hpp b/src/limbo/init/grid_sampling.hpp
index 6e184f9..8b8c41c 100644
--- a/src/limbo/init/grid_sampling.hpp
+++ b/src/limbo/init/grid_sampling.hpp
@@ -80,9 +80,10 @@ namespace limbo {
             void _explore(int dim_in, const StateFunction& seval, const Eigen::VectorXd& current,
                 Opt& opt) const
             {
-                for (double x = 0; x <= 1.0f; x += 1.0f / (double)Params::init_gridsampling::bins()) {
+                int bins = Params::init_gridsampling::bins();
+                for (int i = 0; i <= bins; i++) {
                     Eigen::VectorXd point = current;
-                    point[dim_in] = x;
+                    point[dim_in] = (double)i / (double)bins;
                     if (dim_in == current.size() - 1) {
                         opt.eval_and_add(seval, point);
                     }
-- 
2.43.0


From 4598db2546314c0ee6c6b573a8fcdf9d91c2e2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:15 +0000
Subject: [PATCH 14/34] fix: the sixth named argument of BOptimizer was
 silently ignored

---
 src/limbo/bayes_opt/bo_base.hpp    | 4 +++-
 src/limbo/bayes_opt/boptimizer.hpp | 2 --
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/limbo/bayes_opt/bo_base.hpp b/src/limbo/bayes_opt/bo_base.hpp
index f87bece..b970185 100644
--- a/src/limbo/bayes_opt/bo_base.hpp
+++ b/src/limbo/bayes_opt/bo_base.hpp
@@ -115,6 +115,7 @@ namespace limbo {
     BOOST_PARAMETER_TEMPLATE_KEYWORD(modelfun)
     BOOST_PARAMETER_TEMPLATE_KEYWORD(statsfun)
     BOOST_PARAMETER_TEMPLATE_KEYWORD(stopcrit)
+    BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
 
     namespace bayes_opt {
 
@@ -122,7 +123,8 @@ namespace limbo {
             boost::parameter::optional<tag::initfun>,
             boost::parameter::optional<tag::acquifun>,
             boost::parameter::optional<tag::stopcrit>,
-            boost::parameter::optional<tag::modelfun>>;
+            boost::parameter::optional<tag::modelfun>,
+            boost::parameter::optional<tag::acquiopt>>; // only used by the derived classes, but it takes the place of an argument
 
         // clang-format off
         template <class Params,
diff --git a/src/limbo/bayes_opt/boptimizer.hpp b/src/limbo/bayes_opt/boptimizer.hpp
index 4860d02..3733fd1 100644
--- a/src/limbo/bayes_opt/boptimizer.hpp
+++ b/src/limbo/bayes_opt/boptimizer.hpp
@@ -72,8 +72,6 @@ namespace limbo {
         };
     }
 
-    BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
-
     namespace bayes_opt {
 
         using boptimizer_signature = boost::parameter::parameters<boost::parameter::optional<tag::acquiopt>,
-- 
2.43.0


From 501eec272d99f44a2881c08ef7bc55321d35efee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:15 +0000
Subject: [PATCH 15/34] fix: the iteration counter of a new optimizer was not
 initialized

---
 src/limbo/bayes_opt/bo_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/bayes_opt/bo_base.hpp b/src/limbo/bayes_opt/bo_base.hpp
index b970185..9ac7ca8 100644
--- a/src/limbo/bayes_opt/bo_base.hpp
+++ b/src/limbo/bayes_opt/bo_base.hpp
@@ -204,7 +204,7 @@ namespace limbo {
             using stat_t = typename boost::mpl::if_<boost::fusion::traits::is_sequence<Stat>, Stat, boost::fusion::vector<Stat>>::type;
 
             /// default constructor
-            BoBase() : _total_iterations(0) { _make_res_dir(); }
+            BoBase() : _current_iteration(0), _total_iterations(0) { _make_res_dir(); }
 
             /// copy is disabled (dangerous and useless)
             BoBase(const BoBase& other) = delete;
-- 
2.43.0


From 2836f2bf40cf3f73e7bed885bbf63c3b83097fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:12 +0000
Subject: [PATCH 16/34] fix: the likelihood statistics called a function of the
 model that does not exist

---
 src/limbo/stat/gp_likelihood.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/limbo/stat/gp_likelihood.hpp b/src/limbo/stat/gp_likelihood.hpp
index c60dcd2..a47cecc 100644
--- a/src/limbo/stat/gp_likelihood.hpp
+++ b/src/limbo/stat/gp_likelihood.hpp
@@ -67,7 +67,9 @@ namespace limbo {
                 if (bo.total_iterations() == 0)
                     (*this->_log_file) << "#iteration gp_likelihood" << std::endl;
 
-                (*this->_log_file) << bo.total_iterations() << " " << bo.model().get_lik() << std::endl;
+                // the model might not have computed its likelihood yet
+                auto model = bo.model();
+                (*this->_log_file) << bo.total_iterations() << " " << model.compute_log_lik() << std::endl;
             }
         };
     }
-- 
2.43.0


From bfb46ef062ef9613e7c716d75d9f45afb4a96754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 17/34] fix: the map of the model misses its last level for
 some numbers of bins

---
 src/limbo/stat/gp.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/limbo/stat/gp.hpp b/src/limbo/stat/gp.hpp
index b952dab..1b3ce14 100644
--- a/src/limbo/stat/gp.hpp
+++ b/src/limbo/stat/gp.hpp
@@ -76,9 +76,10 @@ namespace limbo {
                 const BO& bo, const AggregatorFunction& afun,
                 const Eigen::VectorXd& current) const
             {
-                for (double x = 0; x <= 1.0f; x += 1.0f / (double)Params::stat_gp::bins()) {
+                int bins = Params::stat_gp::bins();
+                for (int i = 0; i <= bins; i++) {
                     Eigen::VectorXd point = current;
-                    point[dim_in] = x;
+                    point[dim_in] = (double)i / (double)bins;
                     if (dim_in == current.size() - 1) {
                         auto q = bo.model().query(point);
                         double acqui = opt::fun(typename BO::acquisition_function_t(bo.model(), bo.current_iteration())(point, afun, false));
-- 
2.43.0


From 954b8bbb731d6337eda840948a5ac172beec7074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 18/34] fix: teach the models of CBOptimizer the observations
 of this run, and match the best sample with the best observation

---
 .../experimental/bayes_opt/cboptimizer.hpp    | 57 ++++++++++---------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/cboptimizer.hpp b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
index 3a9d620..e7007b5 100644
--- a/src/limbo/experimental/bayes_opt/cboptimizer.hpp
+++ b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
@@ -49,6 +49,7 @@
 #include <algorithm>
 #include <iostream>
 #include <iterator>
+#include <numeric>
 
 #include <boost/parameter/aux_/void.hpp>
 
@@ -178,6 +179,8 @@ namespace limbo {
 
                         this->_update_stats(*this, afun);
 
+                        // the new evaluation
+                        _split_observations();
                         _model.add_sample(this->_samples.back(), _obs[0].back());
                         if (_nb_constraints > 0)
                             _constraint_model.add_sample(this->_samples.back(), _obs[1].back());
@@ -198,34 +201,15 @@ namespace limbo {
                 template <typename AggregatorFunction = FirstElem>
                 const Eigen::VectorXd& best_observation(const AggregatorFunction& afun = AggregatorFunction()) const
                 {
-                    _dim_out = _model.dim_out();
-                    _split_observations();
-
-                    std::vector<Eigen::VectorXd> obs = _feasible_observations();
-                    if (obs.size() > 0)
-                        _obs[0] = obs;
-
-                    auto rewards = std::vector<double>(_obs[0].size());
-                    std::transform(_obs[0].begin(), _obs[0].end(), rewards.begin(), afun);
-                    auto max_e = std::max_element(rewards.begin(), rewards.end());
-                    return _obs[0][std::distance(rewards.begin(), max_e)];
+                    size_t best = _best_index(afun);
+                    return _obs[0][best];
                 }
 
                 /// return the best sample so far (i.e. the argmax(f(x)))
                 template <typename AggregatorFunction = FirstElem>
                 const Eigen::VectorXd& best_sample(const AggregatorFunction& afun = AggregatorFunction()) const
                 {
-                    _dim_out = _model.dim_out();
-                    _split_observations();
-
-                    std::vector<Eigen::VectorXd> obs = _feasible_observations();
-                    if (obs.size() > 0)
-                        _obs[0] = obs;
-
-                    auto rewards = std::vector<double>(_obs[0].size());
-                    std::transform(_obs[0].begin(), _obs[0].end(), rewards.begin(), afun);
-                    auto max_e = std::max_element(rewards.begin(), rewards.end());
-                    return this->_samples[std::distance(rewards.begin(), max_e)];
+                    return this->_samples[_best_index(afun)];
                 }
 
                 const model_t& model() const { return _model; } // returns model for the objective function
@@ -237,15 +221,34 @@ namespace limbo {
                 mutable size_t _dim_out;
                 mutable std::vector<std::vector<Eigen::VectorXd>> _obs;
 
-                std::vector<Eigen::VectorXd> _feasible_observations() const
+                // index of the best feasible observation (of the best one when none is feasible)
+                template <typename AggregatorFunction>
+                size_t _best_index(const AggregatorFunction& afun) const
+                {
+                    _dim_out = _model.dim_out();
+                    _split_observations();
+
+                    std::vector<size_t> indices = _feasible_indices();
+                    if (indices.empty()) {
+                        indices.resize(_obs[0].size());
+                        std::iota(indices.begin(), indices.end(), 0);
+                    }
+
+                    auto rewards = std::vector<double>(indices.size());
+                    std::transform(indices.begin(), indices.end(), rewards.begin(), [&](size_t i) { return afun(_obs[0][i]); });
+                    auto max_e = std::max_element(rewards.begin(), rewards.end());
+                    return indices[std::distance(rewards.begin(), max_e)];
+                }
+
+                std::vector<size_t> _feasible_indices() const
                 {
-                    std::vector<Eigen::VectorXd> feasible_obs;
+                    std::vector<size_t> feasible;
                     for (size_t i = 0; i < _obs[0].size(); ++i) {
-                        if (_obs[1][i].prod() > 0)
-                            feasible_obs.push_back(_obs[0][i]);
+                        if (_nb_constraints == 0 || _obs[1][i].prod() > 0)
+                            feasible.push_back(i);
                     }
 
-                    return feasible_obs;
+                    return feasible;
                 }
 
                 void _split_observations() const
-- 
2.43.0


From e2bb623e69989d8da7072732e2f77b50f06e040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 19/34] fix: CBOptimizer does not ignore its seventh named
 argument

---
 src/limbo/bayes_opt/bo_base.hpp                  | 12 +++++++++---
 src/limbo/experimental/bayes_opt/cboptimizer.hpp |  6 ++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/limbo/bayes_opt/bo_base.hpp b/src/limbo/bayes_opt/bo_base.hpp
index 9ac7ca8..a8b70fd 100644
--- a/src/limbo/bayes_opt/bo_base.hpp
+++ b/src/limbo/bayes_opt/bo_base.hpp
@@ -117,6 +117,10 @@ namespace limbo {
     BOOST_PARAMETER_TEMPLATE_KEYWORD(stopcrit)
     BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
 
+    namespace experimental {
+        BOOST_PARAMETER_TEMPLATE_KEYWORD(constraint_modelfun)
+    }
+
     namespace bayes_opt {
 
         using bobase_signature = boost::parameter::parameters<boost::parameter::optional<tag::statsfun>,
@@ -124,7 +128,8 @@ namespace limbo {
             boost::parameter::optional<tag::acquifun>,
             boost::parameter::optional<tag::stopcrit>,
             boost::parameter::optional<tag::modelfun>,
-            boost::parameter::optional<tag::acquiopt>>; // only used by the derived classes, but it takes the place of an argument
+            boost::parameter::optional<tag::acquiopt>, // only used by the derived classes, but it takes the place of an argument
+            boost::parameter::optional<experimental::tag::constraint_modelfun>>; // same, for CBOptimizer
 
         // clang-format off
         template <class Params,
@@ -133,7 +138,8 @@ namespace limbo {
           class A3 = boost::parameter::void_,
           class A4 = boost::parameter::void_,
           class A5 = boost::parameter::void_,
-          class A6 = boost::parameter::void_>
+          class A6 = boost::parameter::void_,
+          class A7 = boost::parameter::void_>
         // clang-format on
         /**
         \rst
@@ -193,7 +199,7 @@ namespace limbo {
             };
 
             // extract the types
-            using args = typename bobase_signature::bind<A1, A2, A3, A4, A5, A6>::type;
+            using args = typename bobase_signature::bind<A1, A2, A3, A4, A5, A6, A7>::type;
             using init_function_t = typename boost::parameter::binding<args, tag::initfun, typename defaults::init_t>::type;
             using acquisition_function_t = typename boost::parameter::binding<args, tag::acquifun, typename defaults::acqui_t>::type;
             using model_t = typename boost::parameter::binding<args, tag::modelfun, typename defaults::model_t>::type;
diff --git a/src/limbo/experimental/bayes_opt/cboptimizer.hpp b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
index e7007b5..0b0139d 100644
--- a/src/limbo/experimental/bayes_opt/cboptimizer.hpp
+++ b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
@@ -75,8 +75,6 @@ namespace limbo {
     }
 
     namespace experimental {
-        BOOST_PARAMETER_TEMPLATE_KEYWORD(constraint_modelfun)
-
         namespace bayes_opt {
 
             using cboptimizer_signature = boost::parameter::parameters<boost::parameter::optional<limbo::tag::acquiopt>,
@@ -118,7 +116,7 @@ namespace limbo {
           class A6 = boost::parameter::void_,
           class A7 = boost::parameter::void_>
             // clang-format on
-            class CBOptimizer : public limbo::bayes_opt::BoBase<Params, A1, A2, A3, A4, A5, A6> {
+            class CBOptimizer : public limbo::bayes_opt::BoBase<Params, A1, A2, A3, A4, A5, A6, A7> {
             public:
                 // defaults
                 struct defaults {
@@ -135,7 +133,7 @@ namespace limbo {
                     using constraint_model_t = limbo::model::GP<Params, kf_t, mean_t>;
                 };
                 /// link to the corresponding BoBase (useful for typedefs)
-                using base_t = limbo::bayes_opt::BoBase<Params, A1, A2, A3, A4, A5, A6>;
+                using base_t = limbo::bayes_opt::BoBase<Params, A1, A2, A3, A4, A5, A6, A7>;
                 using model_t = typename base_t::model_t;
 
                 using acquisition_function_t = typename base_t::acquisition_function_t;
-- 
2.43.0


From eb57d2189bd049b215affc42f93285280ec3d7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 20/34] fix: IMGPO compares the values of the aggregator of the
 run, and knows the best of the initial samples

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index 048257b..174848f 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -110,7 +110,7 @@ namespace limbo {
                     _tree[0].samp.push_back(true);
 
                     this->add_new_sample(_tree[0].x[0], _tree[0].f[0]);
-                    double LB = afun(_tree[0].f[0]);
+                    double LB = afun(this->best_observation(afun));
                     double inf = std::numeric_limits<double>::infinity();
 
                     size_t depth_T = 0, M = 1;
@@ -291,7 +291,7 @@ namespace limbo {
 
                                     this->add_new_sample(x_g, fsample_g);
 
-                                    b_hi_max_2 = std::max(b_hi_max_2, fsample_g(0));
+                                    b_hi_max_2 = std::max(b_hi_max_2, afun(fsample_g));
 
                                     // N = N+1
                                     this->_current_iteration++;
@@ -330,7 +330,7 @@ namespace limbo {
 
                                     this->add_new_sample(x_d, fsample_d);
 
-                                    b_hi_max_2 = std::max(b_hi_max_2, fsample_d(0));
+                                    b_hi_max_2 = std::max(b_hi_max_2, afun(fsample_d));
 
                                     // N = N+1
                                     this->_current_iteration++;
@@ -359,7 +359,7 @@ namespace limbo {
                                 _tree[h + 1].leaf.push_back(true);
 
                                 // update LB
-                                LB = afun(this->best_observation());
+                                LB = afun(this->best_observation(afun));
 
                                 // std::cout << t << " N= " << this->_current_iteration << " n= " << split_n << " fmax_hat= " << LB << " rho= " << rho_bar << " xi= " << xi_max << " h= " << depth_T << std::endl;
                             }
-- 
2.43.0


From 27811ea3f7f54124b7016dbb2b753cf7307d1b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 21/34] fix: IMGPO expands every cell of a simulated level,
 around its own centre

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index 174848f..bdeaee7 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -190,9 +190,9 @@ namespace limbo {
                                     M2 = M;
                                     for (size_t h2 = h; h2 <= h + xi - 1; h2++) {
                                         for (size_t ii = 0; ii < std::pow(3, h2 - h); ii++) {
-                                            if (ii >= tmp_tree[h].x.size())
+                                            if (ii >= tmp_tree[h2].x.size())
                                                 break;
-                                            Eigen::VectorXd xx = tmp_tree[h].x[ii];
+                                            Eigen::VectorXd xx = tmp_tree[h2].x[ii];
                                             Eigen::VectorXd to_split = tmp_tree[h2].x_max[ii].array() - tmp_tree[h2].x_min[ii].array();
                                             size_t tmp, splitd;
                                             to_split.maxCoeff(&splitd, &tmp);
-- 
2.43.0


From 91c37a752bf4ba7c4204b3145f7383a79a5fc9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 22/34] fix: IMGPO replaces the bound of a cell by the value of
 the objective when it evaluates it

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index bdeaee7..0861a4f 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -136,11 +136,12 @@ namespace limbo {
                                 break;
 
                             while (true) {
+                                i_max[h] = -1;
+                                b_max[h] = b_hi_max;
                                 for (size_t i = 0; i < _tree[h].x.size(); i++) {
                                     if (_tree[h].leaf[i] == true) {
                                         double b_hi = afun(_tree[h].f[i]);
-                                        if (b_hi > b_hi_max) {
-                                            b_hi_max = b_hi;
+                                        if (b_hi > b_max[h]) {
                                             i_max[h] = i;
                                             b_max[h] = b_hi;
                                         }
@@ -150,6 +151,7 @@ namespace limbo {
                                     break;
 
                                 if (_tree[h].samp[i_max[h]] == true) {
+                                    b_hi_max = b_max[h];
                                     break;
                                 }
                                 else {
@@ -157,6 +159,7 @@ namespace limbo {
 
                                     auto tmp_sample = sfun(xxx);
                                     _tree[h].samp[i_max[h]] = true;
+                                    _tree[h].f[i_max[h]] = tmp_sample;
                                     this->add_new_sample(xxx, tmp_sample);
 
                                     // N = N+1
-- 
2.43.0


From bcdaac36d7e9b6378c690d3c16496404d23ea1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 23/34] fix: IMGPO continues its tree when a run is not reset

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 35 ++++++++++++----------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index 0861a4f..f2b5610 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -94,34 +94,39 @@ namespace limbo {
                 {
                     this->_init(sfun, afun, reset);
                     size_t h_upper = 1000;
-                    // Init tree
-                    if (this->_total_iterations == 0)
-                        _init_tree(h_upper);
-
                     // Init model
                     _model = model_t(StateFunction::dim_in(), StateFunction::dim_out());
 
-                    // Init root
-                    _tree[0].x_max.push_back(Eigen::VectorXd::Ones(StateFunction::dim_in()));
-                    _tree[0].x_min.push_back(Eigen::VectorXd::Zero(StateFunction::dim_in()));
-                    _tree[0].x.push_back(Eigen::VectorXd::Ones(StateFunction::dim_in()) * 0.5);
-                    _tree[0].f.push_back(sfun(_tree[0].x[0]));
-                    _tree[0].leaf.push_back(true);
-                    _tree[0].samp.push_back(true);
+                    if (this->_total_iterations == 0) {
+                        // Init tree
+                        _init_tree(h_upper);
+
+                        // Init root
+                        _tree[0].x_max.push_back(Eigen::VectorXd::Ones(StateFunction::dim_in()));
+                        _tree[0].x_min.push_back(Eigen::VectorXd::Zero(StateFunction::dim_in()));
+                        _tree[0].x.push_back(Eigen::VectorXd::Ones(StateFunction::dim_in()) * 0.5);
+                        _tree[0].f.push_back(sfun(_tree[0].x[0]));
+                        _tree[0].leaf.push_back(true);
+                        _tree[0].samp.push_back(true);
+
+                        this->add_new_sample(_tree[0].x[0], _tree[0].f[0]);
+                        // N = N+1
+                        this->_current_iteration++;
+                        this->_total_iterations++;
+                    }
 
-                    this->add_new_sample(_tree[0].x[0], _tree[0].f[0]);
                     double LB = afun(this->best_observation(afun));
                     double inf = std::numeric_limits<double>::infinity();
 
                     size_t depth_T = 0, M = 1;
+                    // when the run continues a previous one, so does the tree
+                    while (depth_T + 1 < _tree.size() && !_tree[depth_T + 1].x.empty())
+                        depth_T++;
                     double rho_avg = 0, rho_bar = 0;
                     size_t t = 0, XI_max = 4, split_n = 1;
                     int xi_max = 0;
                     double XI = 1;
                     double LB_old = LB;
-                    // N = N+1
-                    this->_current_iteration++;
-                    this->_total_iterations++;
 
                     while (this->_samples.size() == 0 || !this->_stop(*this, afun)) {
                         std::vector<int> i_max(depth_T + 1, -1);
-- 
2.43.0


From 691fb21da488995879e664ad4793c0c4ae18ea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:27 +0000
Subject: [PATCH 24/34] fix: SPGP likelihood with an odd number of samples
 minus pseudo-inputs

(n - _m) / 2 was an unsigned integer division
---
 src/limbo/experimental/model/spgp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 7c30585..6971736 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -488,7 +488,7 @@ namespace limbo {
                 Eigen::MatrixXd bet = invLmV * y;
 
                 // Calculate likelihood
-                Eigen::MatrixXd fw = Lm.diagonal().array().log().colwise().sum() + (n - _m) / 2 * std::log(sig) + (y.transpose() * y - bet.transpose() * bet).array() / (2 * sig) + ep.array().log().sum() / 2 + 0.5 * n * std::log(2 * M_PI);
+                Eigen::MatrixXd fw = Lm.diagonal().array().log().colwise().sum() + (n - (int)_m) / 2.0 * std::log(sig) + (y.transpose() * y - bet.transpose() * bet).array() / (2 * sig) + ep.array().log().sum() / 2 + 0.5 * n * std::log(2 * M_PI);
 
                 if (!eval_grad) {
                     if (inverse)
-- 
2.43.0


From aae6138ce09e1e3dd05dc9352ce952d1f132d062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:27 +0000
Subject: [PATCH 25/34] fix: SPGP::sigma takes its point as a row, as the other
 predictions do

---
 src/limbo/experimental/model/spgp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 6971736..53476c9 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -227,7 +227,7 @@ namespace limbo {
 	  		*/
             double sigma(const Eigen::VectorXd& v) const
             {
-                return (_predict(v, false, true).second)(0, 0);
+                return (_predict(v.transpose(), false, true).second)(0, 0);
             }
             // TODO: Deberia machear la interfaz de la GP
             Eigen::VectorXd sigma_mult(const Eigen::MatrixXd& v) const
-- 
2.43.0


From a779a06a9defa7ad75876da1f9686974c9089682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:27 +0000
Subject: [PATCH 26/34] fix: SPGP built by adding samples used an uninitialised
 jitter

---
 src/limbo/experimental/model/spgp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 53476c9..66bfe7c 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -320,7 +320,7 @@ namespace limbo {
             size_t _m;
             size_t _dim_in = -1;
             size_t _dim_out = -1;
-            double _del;
+            double _del = Params::model_spgp::jitter();
             Eigen::MatrixXd _samples;
             Eigen::MatrixXd _observations;
             Eigen::MatrixXd _observations_zm;
-- 
2.43.0


From 6da1f478c8a700c7e25060c460c0e3b77ee16493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:27 +0000
Subject: [PATCH 27/34] fix: SPGP::optimize_hyperparams left predictions
 computed with the previous parameters

---
 src/limbo/experimental/model/spgp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 66bfe7c..5af1757 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -125,7 +125,7 @@ namespace limbo {
             void optimize_hyperparams()
             {
                 _optimize_init = true;
-                _optimize_hyperparams();
+                _compute();
             }
 
             /// Compute the SPGP from samples and observations. This call needs to be explicit!
-- 
2.43.0


From 01d494014d3aeb8900a006afbad29162920013e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:27 +0000
Subject: [PATCH 28/34] fix: SPGP stores its initial pseudo-inputs in the order
 HyperParams reads them

---
 src/limbo/experimental/model/spgp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 5af1757..271001c 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -418,7 +418,8 @@ namespace limbo {
                     Eigen::VectorXd positions = Eigen::VectorXd::LinSpaced(_samples.rows(), 0, _samples.rows() - 1);
                     std::random_shuffle(positions.data(), positions.data() + positions.size());
                     for (size_t i = 0; i < _m; ++i)
-                        _w_init.segment(i * _dim_in, _dim_in) = _samples.row(positions[i]);
+                        for (size_t j = 0; j < _dim_in; ++j)
+                            _w_init[j * _m + i] = _samples((int)positions[i], j); // column by column, as in HyperParams
 
                     // Initialize hyperparameters sensibly in log space
                     _w_init.segment(_m * _dim_in, _dim_in) = -2 * ((_samples.colwise().maxCoeff() - _samples.colwise().minCoeff()).array() / 2).log(); // -2*log((max(x)-min(x))'/2)
-- 
2.43.0


From a4205ca15ad2694c199ff8de120e748345af4bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:27 +0000
Subject: [PATCH 29/34] fix: SPGP never uses more pseudo-inputs than samples

With a minimum above the number of samples it read past the list of samples
---
 src/limbo/experimental/model/spgp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 271001c..14cf347 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -384,6 +384,8 @@ namespace limbo {
                 _m = Params::model_spgp::samples_percent() * _samples.rows() / 100;
                 if (_m < Params::model_spgp::min_m())
                     _m = Params::model_spgp::min_m();
+                if (_m > (size_t)_samples.rows()) // a pseudo-input starts from a sample
+                    _m = _samples.rows();
             }
 
             void _compute(bool optimize = true)
-- 
2.43.0


From 374c50675fee6fddc38cf4148451fbaef0739e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:27 +0000
Subject: [PATCH 30/34] fix: SPGP::recompute centres the observations again
 when asked to

---
 src/limbo/experimental/model/spgp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 14cf347..31bffe5 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -282,6 +282,9 @@ namespace limbo {
             ///  recomputes the SPGP
             void recompute(bool update_obs_mean = true)
             {
+                if (update_obs_mean)
+                    _compute_observations_zm();
+
                 _optimize_init = true;
                 _compute();
             }
-- 
2.43.0


From 6a2b6ef1c6d614c3c3af5c44d7dbf19b3a56fc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:41 +0000
Subject: [PATCH 31/34] fix: the hypervolume acquisition passed variances where
 ehvi2d expects standard deviations

---
 src/limbo/experimental/acqui/ehvi.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/limbo/experimental/acqui/ehvi.hpp b/src/limbo/experimental/acqui/ehvi.hpp
index fe73f82..e1a303b 100644
--- a/src/limbo/experimental/acqui/ehvi.hpp
+++ b/src/limbo/experimental/acqui/ehvi.hpp
@@ -46,6 +46,7 @@
 #ifndef LIMBO_EXPERIMENTAL_ACQUI_EHVI_HPP
 #define LIMBO_EXPERIMENTAL_ACQUI_EHVI_HPP
 
+#include <cmath>
 #include <vector>
 
 #include <Eigen/Core>
@@ -73,7 +74,8 @@ namespace limbo {
                 assert(_models.size() == 2);
                 double r[3] = {_ref_point(0), _ref_point(1), _ref_point(2)};
                 double mu[3] = {afun(_models[0].mu(v)), afun(_models[1].mu(v)), 0};
-                double s[3] = {_models[0].sigma(v), _models[1].sigma(v), 0};
+                // sigma() is a variance, ehvi2d needs standard deviations
+                double s[3] = {std::sqrt(_models[0].sigma(v)), std::sqrt(_models[1].sigma(v)), 0};
                 double ehvi = ehvi2d(_pop, r, mu, s);
                 return ehvi;
             }
-- 
2.43.0


From c762f2698db8ed6f499e3c666a7cc8a8af36dd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:42 +0000
Subject: [PATCH 32/34] fix: the Ehvi optimiser ignored the acquiopt argument
 unless it came first

and never recognised limbo::acquiopt, because it defined a second keyword
---
 src/limbo/experimental/bayes_opt/ehvi.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/ehvi.hpp b/src/limbo/experimental/bayes_opt/ehvi.hpp
index d9e4edb..34e6721 100644
--- a/src/limbo/experimental/bayes_opt/ehvi.hpp
+++ b/src/limbo/experimental/bayes_opt/ehvi.hpp
@@ -67,9 +67,14 @@ namespace limbo {
     namespace experimental {
         namespace bayes_opt {
 
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(acquiopt)
+            using limbo::acquiopt;
 
-            using ehvi_signature = boost::parameter::parameters<boost::parameter::optional<tag::acquiopt>>;
+            using ehvi_signature = boost::parameter::parameters<boost::parameter::optional<limbo::tag::acquiopt>,
+                boost::parameter::optional<limbo::tag::statsfun>,
+                boost::parameter::optional<limbo::tag::initfun>,
+                boost::parameter::optional<limbo::tag::acquifun>,
+                boost::parameter::optional<limbo::tag::stopcrit>,
+                boost::parameter::optional<limbo::tag::modelfun>>;
 
             template <class Params,
                 class A1 = boost::parameter::void_,
@@ -93,7 +98,7 @@ namespace limbo {
                 };
 
                 using args = typename ehvi_signature::bind<A1, A2, A3, A4, A5, A6>::type;
-                using acqui_optimizer_t = typename boost::parameter::binding<args, tag::acquiopt, typename defaults::acquiopt_t>::type;
+                using acqui_optimizer_t = typename boost::parameter::binding<args, limbo::tag::acquiopt, typename defaults::acquiopt_t>::type;
 
                 using pareto_point_t = std::tuple<Eigen::VectorXd, Eigen::VectorXd, Eigen::VectorXd>;
                 using base_t = limbo::experimental::bayes_opt::BoMulti<Params, A1, A2, A3, A4, A5, A6>;
-- 
2.43.0


From 0cac6918745d63ac6ea53ca4a7a4b17877a06157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:42 +0000
Subject: [PATCH 33/34] fix: the keywords of the experimental namespace were
 other types than those read by BoBase

so named arguments written with them were silently ignored
---
 src/limbo/experimental/bayes_opt/bo_multi.hpp | 20 ++++++-------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/bo_multi.hpp b/src/limbo/experimental/bayes_opt/bo_multi.hpp
index 446fbde..5c16171 100644
--- a/src/limbo/experimental/bayes_opt/bo_multi.hpp
+++ b/src/limbo/experimental/bayes_opt/bo_multi.hpp
@@ -130,18 +130,12 @@ namespace limbo {
 #endif
             }
 
-            // to be removed once moved out of experimental?
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(initfun)
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(acquifun)
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(modelfun)
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(statsfun)
-            BOOST_PARAMETER_TEMPLATE_KEYWORD(stopcrit)
-
-            using bo_multi_signature = boost::parameter::parameters<boost::parameter::optional<tag::statsfun>,
-                boost::parameter::optional<tag::initfun>,
-                boost::parameter::optional<tag::acquifun>,
-                boost::parameter::optional<tag::stopcrit>,
-                boost::parameter::optional<tag::modelfun>>;
+            // the keywords are those of the base class
+            using limbo::initfun;
+            using limbo::acquifun;
+            using limbo::modelfun;
+            using limbo::statsfun;
+            using limbo::stopcrit;
 
             template <class Params,
                 class A1 = boost::parameter::void_,
@@ -152,8 +146,6 @@ namespace limbo {
                 class A6 = boost::parameter::void_>
             class BoMulti : public limbo::bayes_opt::BoBase<Params, A1, A2, A3, A4, A5, A6> {
             public:
-                using args = typename bo_multi_signature::bind<A1, A2, A3, A4, A5, A6>::type;
-
                 using base_t = limbo::bayes_opt::BoBase<Params, A1, A2, A3, A4, A5, A6>;
                 using model_t = typename base_t::model_t;
                 using acquisition_function_t = typename base_t::acquisition_function_t;
-- 
2.43.0


From 9a19792fd05441233db393faba872a3aad22ef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:42 +0000
Subject: [PATCH 34/34] fix: Parego ignored the parego_modelfun argument unless
 it came first

---
 src/limbo/experimental/bayes_opt/parego.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/limbo/experimental/bayes_opt/parego.hpp b/src/limbo/experimental/bayes_opt/parego.hpp
index 7b0ec27..8ee179b 100644
--- a/src/limbo/experimental/bayes_opt/parego.hpp
+++ b/src/limbo/experimental/bayes_opt/parego.hpp
@@ -59,7 +59,12 @@ namespace limbo {
 
             BOOST_PARAMETER_TEMPLATE_KEYWORD(parego_modelfun)
 
-            using parego_signature = boost::parameter::parameters<boost::parameter::optional<tag::parego_modelfun>>;
+            using parego_signature = boost::parameter::parameters<boost::parameter::optional<tag::parego_modelfun>,
+                boost::parameter::optional<limbo::tag::acquiopt>,
+                boost::parameter::optional<limbo::tag::statsfun>,
+                boost::parameter::optional<limbo::tag::initfun>,
+                boost::parameter::optional<limbo::tag::acquifun>,
+                boost::parameter::optional<limbo::tag::stopcrit>>;
 
             // clang-format off
             template <class Params,
-- 
2.43.0

