From fc556d281c08961c46c43880ee01b5e01badf368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:30 +0000
Subject: [PATCH 01/19] fix: StepLR/ExponentialDecayLR with a zero interval
 divide by zero

StepLR(step_size = 0) crashed with SIGFPE (integer division by zero) and
ExponentialDecayLR(decay_steps = 0) returned NaN/inf. Treat a zero interval as
'no decay', as CosineAnnealingLR and WarmupLR already do for their lengths.
---
 include/qlpeps/optimizer/lr_schedulers.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qlpeps/optimizer/lr_schedulers.h b/include/qlpeps/optimizer/lr_schedulers.h
index 4cce0ec..ed56e16 100644
--- a/include/qlpeps/optimizer/lr_schedulers.h
+++ b/include/qlpeps/optimizer/lr_schedulers.h
@@ -64,6 +64,7 @@ public:
   ExponentialDecayLR(double initial_lr, double decay_rate, size_t decay_steps)
     : initial_lr_(initial_lr), decay_rate_(decay_rate), decay_steps_(decay_steps) {}
   double GetLearningRate(size_t iteration, double) const override {
+    if (decay_steps_ == 0) { return initial_lr_; }  // no decay interval: no decay
     return initial_lr_ * std::pow(decay_rate_, iteration / static_cast<double>(decay_steps_));
   }
   std::unique_ptr<LearningRateScheduler> Clone() const override {
@@ -89,6 +90,7 @@ public:
   StepLR(double initial_lr, size_t step_size, double gamma = 0.1)
     : initial_lr_(initial_lr), gamma_(gamma), step_size_(step_size) {}
   double GetLearningRate(size_t iteration, double) const override {
+    if (step_size_ == 0) { return initial_lr_; }  // no step interval: no decay
     return initial_lr_ * std::pow(gamma_, iteration / step_size_);
   }
   std::unique_ptr<LearningRateScheduler> Clone() const override {
-- 
2.43.0


From 5b5497b4051f3d07a5d825d87e91a91d3fac8898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:35 +0000
Subject: [PATCH 02/19] fix: SetPlateauPatience seeds a different gradient
 tolerance than the other builder setters

The first setter called on OptimizerParamsBuilder creates BaseParams with default
values; all setters but SetPlateauPatience use 1e-30 for the gradient tolerance, so
the result of a chain depended on the order of the calls.
---
 include/qlpeps/optimizer/optimizer_params.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/optimizer/optimizer_params.h b/include/qlpeps/optimizer/optimizer_params.h
index 6ab0161..58e212e 100644
--- a/include/qlpeps/optimizer/optimizer_params.h
+++ b/include/qlpeps/optimizer/optimizer_params.h
@@ -732,7 +732,7 @@ public:
    */
   OptimizerParamsBuilder& SetPlateauPatience(size_t patience) {
     if (!base_params_) {
-      base_params_ = OptimizerParams::BaseParams(1000, 1e-10, 1e-15, patience, 0.01);
+      base_params_ = OptimizerParams::BaseParams(1000, 1e-10, 1e-30, patience, 0.01);
     } else {
       base_params_->plateau_patience = patience;
     }
-- 
2.43.0


From 2323c882cc68769fbca04db45d06e80ad6240059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:04 +0000
Subject: [PATCH 03/19] fix: DuoMatrix self-assignment destroys its elements

Copy assignment only asserted against self-assignment (a no-op with NDEBUG, and
<cassert> was not included) and then deleted every element before copying from
itself; move assignment deleted its own elements and kept the dangling pointers
out of reach.  Both now return early.
---
 include/qlpeps/two_dim_tn/framework/duomatrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/two_dim_tn/framework/duomatrix.h b/include/qlpeps/two_dim_tn/framework/duomatrix.h
index 8b8735c..cc10d71 100644
--- a/include/qlpeps/two_dim_tn/framework/duomatrix.h
+++ b/include/qlpeps/two_dim_tn/framework/duomatrix.h
@@ -65,7 +65,7 @@ class DuoMatrix {
    * @param rhs A DuoMatrix instance.
    */
   DuoMatrix<ElemT> &operator=(const DuoMatrix<ElemT> &rhs) {
-    assert(this != &rhs);
+    if (this == &rhs) { return *this; }
     for (auto &row : raw_data_) {
       for (auto &elem : row) {
         if (elem != nullptr) {
@@ -122,6 +122,7 @@ class DuoMatrix {
    * @param rhs A DuoMatrix instance.
    */
   DuoMatrix<ElemT> &operator=(DuoMatrix<ElemT> &&rhs) noexcept {
+    if (this == &rhs) { return *this; }
     for (auto &row : raw_data_) {
       for (auto &elem : row) {
         if (elem != nullptr) {
-- 
2.43.0


From 584fdc66dd7368d05a0610c80fac4f0afc5fe326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:04 +0000
Subject: [PATCH 04/19] fix: DuoMatrix::has_alloc is declared void but returns
 a bool

Any instantiation failed to compile.
---
 include/qlpeps/two_dim_tn/framework/duomatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/two_dim_tn/framework/duomatrix.h b/include/qlpeps/two_dim_tn/framework/duomatrix.h
index cc10d71..abe4f5b 100644
--- a/include/qlpeps/two_dim_tn/framework/duomatrix.h
+++ b/include/qlpeps/two_dim_tn/framework/duomatrix.h
@@ -239,7 +239,7 @@ class DuoMatrix {
     }
   }
 
-  void has_alloc(const size_t row, const size_t col) {
+  bool has_alloc(const size_t row, const size_t col) {
     return raw_data_[row][col] != nullptr;
   }
 
-- 
2.43.0


From e54c8c6675d52657362fc7b4def7682109492bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:04 +0000
Subject: [PATCH 05/19] fix: iterating a DuoMatrix with rows but no columns
 never terminates

begin() was (0, 0) while end() is (rows, cols), so a matrix without elements but
with rows > 0 was entered and walked forever out of bounds.
---
 include/qlpeps/two_dim_tn/framework/duomatrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qlpeps/two_dim_tn/framework/duomatrix.h b/include/qlpeps/two_dim_tn/framework/duomatrix.h
index abe4f5b..1ac3e5a 100644
--- a/include/qlpeps/two_dim_tn/framework/duomatrix.h
+++ b/include/qlpeps/two_dim_tn/framework/duomatrix.h
@@ -379,6 +379,7 @@ class DuoMatrix {
 
   // Begin iterator for DuoMatrix
   Iterator begin() {
+    if (size() == 0) { return end(); }
     return Iterator(*this);
   }
 
@@ -448,6 +449,7 @@ class DuoMatrix {
 
   // Begin const iterator for DuoMatrix
   ConstIterator cbegin() const {
+    if (size() == 0) { return cend(); }
     return ConstIterator(*this);
   }
 
-- 
2.43.0


From 1b4887a940b9f19f36ba5d998f94f5e956061d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:23 +0000
Subject: [PATCH 06/19] fix: TenMatrix::DumpTen reports success (and releases
 the tensor) when flushing the file fails

---
 include/qlpeps/two_dim_tn/framework/ten_matrix.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/qlpeps/two_dim_tn/framework/ten_matrix.h b/include/qlpeps/two_dim_tn/framework/ten_matrix.h
index 60543d4..08fec3e 100644
--- a/include/qlpeps/two_dim_tn/framework/ten_matrix.h
+++ b/include/qlpeps/two_dim_tn/framework/ten_matrix.h
@@ -104,6 +104,9 @@ class TenMatrix : public DuoMatrix<TenT> {
       return false; // Failed to write the tensor to the file
     }
     ofs.close();
+    if (!ofs) {
+      return false; // Failed to flush the tensor to the file
+    }
     return true; // Successfully dumped the tensor
   }
 
@@ -125,6 +128,9 @@ class TenMatrix : public DuoMatrix<TenT> {
       return false; // Failed to write the tensor to the file
     }
     ofs.close();
+    if (!ofs) {
+      return false; // Failed to flush the tensor to the file
+    }
     if (release_mem) {
       this->dealloc(row, col);
     }
-- 
2.43.0


From 390f806e33693c5f844e6c3e62d2647d96528a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:51 +0000
Subject: [PATCH 07/19] fix: CreatePath/EnsureDirectoryExists report a
 directory where a file stands, and fail when it is created concurrently

---
 include/qlpeps/utility/filesystem_utils.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/qlpeps/utility/filesystem_utils.h b/include/qlpeps/utility/filesystem_utils.h
index 77fff32..27cdcce 100644
--- a/include/qlpeps/utility/filesystem_utils.h
+++ b/include/qlpeps/utility/filesystem_utils.h
@@ -40,10 +40,12 @@ inline bool CreatePath(const std::string& path) {
   if (path.empty()) return false;
   
   try {
-    if (std::filesystem::exists(path)) return true;
+    if (std::filesystem::is_directory(path)) return true;
     
     std::cout << "Creating directory: " << path << std::endl;
-    return std::filesystem::create_directories(path);
+    // The return value of create_directories is false if another process created the directory meanwhile
+    std::filesystem::create_directories(path);
+    return std::filesystem::is_directory(path);
   } catch (const std::exception& e) {
     std::cerr << "Error creating directory " << path << ": " << e.what() << std::endl;
     return false;
@@ -59,7 +61,7 @@ inline bool CreatePath(const std::string& path) {
  * eliminating the common pattern: if(!IsPathExist(path)) CreatePath(path);
  */
 inline bool EnsureDirectoryExists(const std::string& path) {
-  return IsPathExist(path) || CreatePath(path);
+  return CreatePath(path);
 }
 
 } // namespace qlpeps
-- 
2.43.0


From 00e807917c95b48809e6c287a38098817c46f481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:55 +0000
Subject: [PATCH 08/19] fix: FormatPsiListTruncated prints a leading separator
 when no element is shown

---
 include/qlpeps/algorithm/vmc_update/psi_consistency.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/algorithm/vmc_update/psi_consistency.h b/include/qlpeps/algorithm/vmc_update/psi_consistency.h
index 769ccd7..b498ac2 100644
--- a/include/qlpeps/algorithm/vmc_update/psi_consistency.h
+++ b/include/qlpeps/algorithm/vmc_update/psi_consistency.h
@@ -184,7 +184,8 @@ inline std::string FormatPsiListTruncated(const std::vector<TenElemT> &psi_list,
     oss << psi_list[i];
   }
   if (n > m) {
-    oss << ", ... (n=" << n << ")";
+    if (m) { oss << ", "; }
+    oss << "... (n=" << n << ")";
   }
   oss << "]";
   return oss.str();
-- 
2.43.0


From 2e36436c245077edb1c8382ca863bec77758ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:05 +0000
Subject: [PATCH 09/19] fix: standard error over ranks is NaN when the ranks
 agree

GatherStatisticSingleData formed the variance as E[|x|^2] - |E[x]|^2, which
cancels to a slightly negative number when all ranks hold (nearly) the same
value (e.g. 0.1 on three ranks) and the square root then is NaN. Sum the
squared deviations instead.
---
 include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h b/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
index 6b6946d..43325f2 100644
--- a/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
+++ b/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
@@ -262,11 +262,12 @@ std::pair<ElemT, typename qlten::RealTypeTrait<ElemT>::type> GatherStatisticSing
     mean = sum / static_cast<RealT>(comm_size);
     
     if (comm_size > 1) {
+      // Sum of squared deviations: E[|x|^2] - |E[x]|^2 cancels and can turn slightly negative.
       RealT sum_square = 0.0;
       for (size_t i = 0; i < comm_size; i++) {
-        sum_square += static_cast<RealT>(std::norm(gather_data[i]));
+        sum_square += static_cast<RealT>(std::norm(gather_data[i] - mean));
       }
-      RealT variance = sum_square / static_cast<RealT>(comm_size) - static_cast<RealT>(std::norm(mean));
+      RealT variance = sum_square / static_cast<RealT>(comm_size);
       standard_err = std::sqrt(variance / (static_cast<RealT>(comm_size) - 1));
 
       // Check if standard error is infinite and output warning with data
-- 
2.43.0


From 9dc232dd0a47c89f3af2f24c5b632ce5c4fa7f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:05 +0000
Subject: [PATCH 10/19] fix: statistics.h does not include the standard headers
 it uses

---
 include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h b/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
index 43325f2..bf2a080 100644
--- a/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
+++ b/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
@@ -9,11 +9,17 @@
 #define QLPEPS_MONTE_CARLO_TOOLS_STATISTICS_H
 
 #include <vector>
+#include <string>
 #include <fstream>
+#include <iostream>
 #include <algorithm>
+#include <complex>
+#include <functional>
+#include <limits>
 #include <memory>
 #include <numeric>
 #include <optional>
+#include <utility>
 #include <cmath>
 #include "qlten/framework/hp_numeric/mpi_fun.h"
 
-- 
2.43.0


From 0cd8d5d2a7283590215dc570a492569705f4da1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:29 +0000
Subject: [PATCH 11/19] fix: Configuration member functions defined in the
 header are not inline

Including configuration.h in two translation units of one program failed to
link with multiple definitions of StreamRead, StreamWrite and Show.
---
 include/qlpeps/vmc_basic/configuration.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/qlpeps/vmc_basic/configuration.h b/include/qlpeps/vmc_basic/configuration.h
index ada76dd..d595f52 100644
--- a/include/qlpeps/vmc_basic/configuration.h
+++ b/include/qlpeps/vmc_basic/configuration.h
@@ -443,7 +443,7 @@ class Configuration : public DuoMatrix<size_t>, public Showable, public Streamab
 
 };
 
-void Configuration::StreamRead(std::istream &is) {
+inline void Configuration::StreamRead(std::istream &is) {
   for (size_t row = 0; row < this->rows(); row++) {
     for (size_t col = 0; col < this->cols(); col++) {
       if (!(is >> (*this)({row, col}))) {
@@ -454,7 +454,7 @@ void Configuration::StreamRead(std::istream &is) {
   }
 }
 
-void Configuration::StreamWrite(std::ostream &os) const {
+inline void Configuration::StreamWrite(std::ostream &os) const {
   for (size_t row = 0; row < this->rows(); row++) {
     for (size_t col = 0; col < this->cols() - 1; col++) {
       os << (*this)({row, col}) << " ";
@@ -463,7 +463,7 @@ void Configuration::StreamWrite(std::ostream &os) const {
   }
 }
 
-void Configuration::Show(const size_t indent_level) const {
+inline void Configuration::Show(const size_t indent_level) const {
   using qlten::IndentPrinter;
   std::cout << IndentPrinter(indent_level) << "Configurations:" << std::endl;
   for (size_t row = 0; row < this->rows(); row++) {
-- 
2.43.0


From 9173425e6ec245e0b3c1c145533c1a86eb9928c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:29 +0000
Subject: [PATCH 12/19] fix: empty configurations read out of range

Constructing a Configuration from an empty list indexed its first row, and
writing a Configuration without columns looped up to cols() - 1 = SIZE_MAX.
---
 include/qlpeps/vmc_basic/configuration.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/qlpeps/vmc_basic/configuration.h b/include/qlpeps/vmc_basic/configuration.h
index d595f52..f487b5c 100644
--- a/include/qlpeps/vmc_basic/configuration.h
+++ b/include/qlpeps/vmc_basic/configuration.h
@@ -64,7 +64,7 @@ class Configuration : public DuoMatrix<size_t>, public Showable, public Streamab
   /// @brief Constructor from a 2D vector of size_t
   /// @param config_data 2D vector representing the configuration data
   Configuration(std::vector<std::vector<size_t>> config_data) : DuoMatrix<size_t>(config_data.size(),
-                                                                                  config_data[0].size()) {
+                                                                                  config_data.empty() ? 0 : config_data[0].size()) {
     for (size_t row = 0; row < this->rows(); row++) {
       for (size_t col = 0; col < this->cols(); col++) {
         (*this)({row, col}) = config_data.at(row).at(col);
@@ -456,10 +456,11 @@ inline void Configuration::StreamRead(std::istream &is) {
 
 inline void Configuration::StreamWrite(std::ostream &os) const {
   for (size_t row = 0; row < this->rows(); row++) {
-    for (size_t col = 0; col < this->cols() - 1; col++) {
-      os << (*this)({row, col}) << " ";
+    for (size_t col = 0; col < this->cols(); col++) {
+      if (col > 0) { os << " "; }
+      os << (*this)({row, col});
     }
-    os << (*this)({row, this->cols() - 1}) << std::endl;
+    os << std::endl;
   }
 }
 
-- 
2.43.0


From a08a7f33560c7f5c6cb0a89934b661b8337fed46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:17 +0000
Subject: [PATCH 13/19] fix: jastrow_factor.h does not include what it uses

---
 include/qlpeps/vmc_basic/jastrow_factor.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/vmc_basic/jastrow_factor.h b/include/qlpeps/vmc_basic/jastrow_factor.h
index 91c8e20..6309648 100644
--- a/include/qlpeps/vmc_basic/jastrow_factor.h
+++ b/include/qlpeps/vmc_basic/jastrow_factor.h
@@ -13,7 +13,8 @@
 #include <cstddef>
 #include <cassert>
 #include <cmath>
-#include "qlpeps/basic.h" // for SiteIdx
+#include "qlpeps/two_dim_tn/framework/site_idx.h" // SiteIdx
+#include "qlpeps/vmc_basic/configuration.h" // Configuration
 
 namespace qlpeps {
 
-- 
2.43.0


From 8e84651129b2f52a1bb2e0a11d0e7aff9cbf7c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:30 +0000
Subject: [PATCH 14/19] fix: energy-spike rollback without a previous state
 re-evaluates the same state forever

---
 include/qlpeps/optimizer/optimizer_impl.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/optimizer/optimizer_impl.h b/include/qlpeps/optimizer/optimizer_impl.h
index e165aee..898b14f 100644
--- a/include/qlpeps/optimizer/optimizer_impl.h
+++ b/include/qlpeps/optimizer/optimizer_impl.h
@@ -736,7 +736,9 @@ Optimizer<TenElemT, QNT>::IterativeOptimize(
         if (rank_ == qlten::hp_numeric::kMPIMasterRank) {
           signal = DetectS4_(std::real(current_energy));
           if (signal != SpikeSignal::kNone) {
-            action = SpikeAction::kRollback;
+            // Without a previous state a rollback would re-evaluate the same state,
+            // forever if the evaluator is deterministic.
+            action = has_prev_state_ ? SpikeAction::kRollback : SpikeAction::kAcceptWithWarning;
           }
         }
         action = BroadcastAction_(action);
@@ -760,6 +762,11 @@ Optimizer<TenElemT, QNT>::IterativeOptimize(
           attempts = 0;
           continue;
         }
+        if (action == SpikeAction::kAcceptWithWarning && rank_ == qlten::hp_numeric::kMPIMasterRank) {
+          LogSpikeEvent_(iter, attempts, signal, action,
+                         std::real(current_energy),
+                         ema_energy_.Mean() + spike_cfg.sigma_k * ema_energy_.Std());
+        }
       }
 
       // === E: ACCEPT — update EMA trackers (only on accepted steps) ===
-- 
2.43.0


From 8373d339f5c4906a451170ece66b37a710c2c7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:30 +0000
Subject: [PATCH 15/19] fix: L-BFGS with history_size 0 throws on the master
 rank only and hangs the others

---
 include/qlpeps/optimizer/optimizer_impl.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/qlpeps/optimizer/optimizer_impl.h b/include/qlpeps/optimizer/optimizer_impl.h
index 898b14f..aa78cb1 100644
--- a/include/qlpeps/optimizer/optimizer_impl.h
+++ b/include/qlpeps/optimizer/optimizer_impl.h
@@ -1496,13 +1496,14 @@ template<typename TenElemT, typename QNT>
 typename Optimizer<TenElemT, QNT>::WaveFunctionT
 Optimizer<TenElemT, QNT>::ComputeLBFGSSearchDirection_(const WaveFunctionT& gradient,
                                                        const LBFGSParams& params) {
+  // Checked on every rank: a throw on the master alone leaves the others in a collective.
+  if (params.history_size == 0) {
+    throw std::invalid_argument("LBFGS history_size must be > 0");
+  }
   WaveFunctionT search_direction = (-1.0) * gradient;
   if (rank_ != qlten::hp_numeric::kMPIMasterRank) {
     return search_direction;
   }
-  if (params.history_size == 0) {
-    throw std::invalid_argument("LBFGS history_size must be > 0");
-  }
 
   if (!lbfgs_history_.empty()) {
     WaveFunctionT q = gradient;
-- 
2.43.0


From fb51a9678fb83f36ed5b0ecbdf74e8afb1684b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:23 +0000
Subject: [PATCH 16/19] fix: GetSpikeStats is documented to describe the last
 run but is always empty after it

---
 include/qlpeps/optimizer/optimizer_impl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/optimizer/optimizer_impl.h b/include/qlpeps/optimizer/optimizer_impl.h
index aa78cb1..9660d16 100644
--- a/include/qlpeps/optimizer/optimizer_impl.h
+++ b/include/qlpeps/optimizer/optimizer_impl.h
@@ -109,6 +109,8 @@ Optimizer<TenElemT, QNT>::IterativeOptimize(
     const std::vector<TenElemT> *energy_samples,
     std::function<std::pair<double, double>(const WaveFunctionT &)> energy_only_evaluator) {
 
+  spike_stats_ = SpikeStatistics{};
+
   OptimizationResult result;
   result.optimized_state = initial_state;
   result.lowest_state = initial_state;
@@ -1863,8 +1865,7 @@ void Optimizer<TenElemT, QNT>::ClearUp() {
     }
   }
 
-  // Clear spike statistics (after CSV has been written above)
-  spike_stats_ = SpikeStatistics{};
+  // Spike statistics stay readable (GetSpikeStats) until the next run clears them
   current_accept_rates_.clear();
 
   // Clear rollback state
-- 
2.43.0


From f89ff34b4f964fd84c6090a69230e2a776bba248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:18 +0000
Subject: [PATCH 17/19] fix: MonteCarloEngine and MCEnergyGradEvaluator keep
 their communicator by value

---
 include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h | 2 +-
 include/qlpeps/algorithm/vmc_update/monte_carlo_engine.h       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h b/include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h
index d8ee007..cca332d 100644
--- a/include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h
+++ b/include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h
@@ -421,7 +421,7 @@ class MCEnergyGradEvaluator {
 
   MonteCarloEngine<TenElemT, QNT, MonteCarloSweepUpdater, ContractorT> &engine_;
   EnergySolver &solver_;
-  const MPI_Comm &comm_;
+  const MPI_Comm comm_;
   bool collect_sr_buffers_;
   size_t reserved_samples_ = 0;
   PsiConsistencyWarningParams psi_warning_params_{};
diff --git a/include/qlpeps/algorithm/vmc_update/monte_carlo_engine.h b/include/qlpeps/algorithm/vmc_update/monte_carlo_engine.h
index 91ada8c..bdf22b0 100644
--- a/include/qlpeps/algorithm/vmc_update/monte_carlo_engine.h
+++ b/include/qlpeps/algorithm/vmc_update/monte_carlo_engine.h
@@ -561,7 +561,7 @@ class MonteCarloEngine {
   size_t lx_;
   size_t ly_;
   WaveFunctionComponentT tps_sample_;
-  const MPI_Comm &comm_;
+  const MPI_Comm comm_;
   int rank_;
   int mpi_size_;
   MonteCarloSweepUpdater mc_sweep_updater_;
-- 
2.43.0


From 0251724de01e45848f331e2fbf88288519f30a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:14 +0000
Subject: [PATCH 18/19] fix: functions and a variable defined in headers are
 inline, so that two translation units can include them

---
 .../qlpeps/algorithm/simple_update/simple_update_impl.h   | 2 +-
 .../vmc_update/exact_summation_energy_evaluator.h         | 8 ++++----
 .../vmc_update/model_solvers/square_hubbard_model.h       | 4 ++--
 .../algorithm/vmc_update/monte_carlo_peps_measurer.h      | 2 +-
 include/qlpeps/consts.h                                   | 2 +-
 include/qlpeps/one_dim_tn/boundary_mps/bmps.h             | 2 +-
 include/qlpeps/utility/helpers.h                          | 4 ++--
 7 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/qlpeps/algorithm/simple_update/simple_update_impl.h b/include/qlpeps/algorithm/simple_update/simple_update_impl.h
index 4e65f34..66bf0d7 100644
--- a/include/qlpeps/algorithm/simple_update/simple_update_impl.h
+++ b/include/qlpeps/algorithm/simple_update/simple_update_impl.h
@@ -122,7 +122,7 @@ LambdaDiagonalsT<TenElemT, QNT> CaptureLambdaDiagonals_(const SquareLatticePEPS<
 }
 
 //helper
-std::vector<size_t> DuplicateElements(const std::vector<size_t> &input) {
+inline std::vector<size_t> DuplicateElements(const std::vector<size_t> &input) {
   std::vector<size_t> output;
   output.reserve(input.size() * 2); // Reserve space for efficiency
 
diff --git a/include/qlpeps/algorithm/vmc_update/exact_summation_energy_evaluator.h b/include/qlpeps/algorithm/vmc_update/exact_summation_energy_evaluator.h
index 72858d9..76e4323 100644
--- a/include/qlpeps/algorithm/vmc_update/exact_summation_energy_evaluator.h
+++ b/include/qlpeps/algorithm/vmc_update/exact_summation_energy_evaluator.h
@@ -45,9 +45,9 @@ QLTensor<TenElemT, QNT> EvaluateLocalPsiPartialPsiDag(
  * @param Ly Number of rows in the lattice
  * @return Configuration object
  */
-Configuration Vec2Config(const std::vector<size_t> &config_vec,
-                         size_t Lx,
-                         size_t Ly) {
+inline Configuration Vec2Config(const std::vector<size_t> &config_vec,
+                                size_t Lx,
+                                size_t Ly) {
   Configuration config(Ly, Lx);
   for (size_t i = 0; i < config_vec.size(); i++) {
     const size_t row = i / Lx;
@@ -71,7 +71,7 @@ Configuration Vec2Config(const std::vector<size_t> &config_vec,
  * @param Ly Number of rows in the lattice
  * @return Vector of all possible configurations
  */
-std::vector<Configuration> GenerateAllPermutationConfigs(
+inline std::vector<Configuration> GenerateAllPermutationConfigs(
   const std::vector<size_t> &particle_counts,
   size_t Lx,
   size_t Ly
diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/square_hubbard_model.h b/include/qlpeps/algorithm/vmc_update/model_solvers/square_hubbard_model.h
index 5cab4c8..d66f57d 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/square_hubbard_model.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/square_hubbard_model.h
@@ -22,7 +22,7 @@ enum class HubbardSingleSiteState {
   Empty             // 3
 };
 
-double HubbardConfig2Density(const size_t config) {
+inline double HubbardConfig2Density(const size_t config) {
   switch (HubbardSingleSiteState(config)) {
     case HubbardSingleSiteState::DoubleOccupancy:return 2;
     case HubbardSingleSiteState::SpinUp:return 1;
@@ -33,7 +33,7 @@ double HubbardConfig2Density(const size_t config) {
   }
 }
 
-double HubbardConfig2Spinz(const size_t config) {
+inline double HubbardConfig2Spinz(const size_t config) {
   switch (HubbardSingleSiteState(config)) {
     case HubbardSingleSiteState::DoubleOccupancy:return 0;
     case HubbardSingleSiteState::SpinUp:return 0.5;
diff --git a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer.h b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer.h
index 31840c5..1f1c752 100644
--- a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer.h
+++ b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer.h
@@ -165,7 +165,7 @@ ParticleNumberDistributionSample<ElemT> MakeParticleNumberDistributionSample(
 
 }  // namespace detail
 
-void PrintProgressBar(size_t progress, size_t total) {
+inline void PrintProgressBar(size_t progress, size_t total) {
   size_t bar_width = 70; // width of the progress bar
 
   std::cout << "[";
diff --git a/include/qlpeps/consts.h b/include/qlpeps/consts.h
index e9695a4..48770c4 100644
--- a/include/qlpeps/consts.h
+++ b/include/qlpeps/consts.h
@@ -34,7 +34,7 @@ const std::string pm_sign = "\u00b1";         // for output standard error
 const size_t kMaxTaylorExpansionOrder = 1000;
 const int kEnergyOutputPrecision = 8;
 
-std::uniform_real_distribution<double> unit_even_distribution(0, 1);
+inline std::uniform_real_distribution<double> unit_even_distribution(0, 1);
 } /* qlpeps */
 
 
diff --git a/include/qlpeps/one_dim_tn/boundary_mps/bmps.h b/include/qlpeps/one_dim_tn/boundary_mps/bmps.h
index aae8307..979a785 100644
--- a/include/qlpeps/one_dim_tn/boundary_mps/bmps.h
+++ b/include/qlpeps/one_dim_tn/boundary_mps/bmps.h
@@ -35,7 +35,7 @@ enum class CompressMPSScheme {
 };
 
 // Convert enum class to descriptive string
-std::string CompressMPSSchemeString(CompressMPSScheme scheme) {
+inline std::string CompressMPSSchemeString(CompressMPSScheme scheme) {
   switch (scheme) {
     case CompressMPSScheme::SVD_COMPRESS:return "SVD Compression";
     case CompressMPSScheme::VARIATION2Site:return "Two-Site Variational Compression";
diff --git a/include/qlpeps/utility/helpers.h b/include/qlpeps/utility/helpers.h
index 19e0226..ddf2469 100644
--- a/include/qlpeps/utility/helpers.h
+++ b/include/qlpeps/utility/helpers.h
@@ -15,8 +15,8 @@ namespace qlpeps {
 
 // Real functions removed - use std::real directly
 
-double ComplexConjugate(const double &x) { return x; }
-std::complex<double> ComplexConjugate(const std::complex<double> &z) { return std::conj(z); }
+inline double ComplexConjugate(const double &x) { return x; }
+inline std::complex<double> ComplexConjugate(const std::complex<double> &z) { return std::conj(z); }
 
 /**
  * @brief Build the per-sample fermionic pre-parity ratio tensor \f$R^*(S)\f$ for one site.
-- 
2.43.0


From 8d8a121fd09557df3ed497546dd166bd8cc26c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:56 +0000
Subject: [PATCH 19/19] fix: MPISignalGuard's signal handler writes with
 write(2), not std::cerr

---
 include/qlpeps/base/mpi_signal_guard.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/base/mpi_signal_guard.h b/include/qlpeps/base/mpi_signal_guard.h
index 0e94672..24ba43d 100644
--- a/include/qlpeps/base/mpi_signal_guard.h
+++ b/include/qlpeps/base/mpi_signal_guard.h
@@ -13,6 +13,7 @@
 #include <atomic>
 #include <mpi.h>
 #include <iostream>
+#include <unistd.h>
 
 namespace qlpeps {
 
@@ -48,7 +49,10 @@ class MPISignalGuard {
     // Optionally print a message (only on first signal)
     static std::atomic_flag printed = ATOMIC_FLAG_INIT;
     if (!printed.test_and_set()) {
-      std::cerr << "\n[MPISignalGuard] Emergency stop signal received. Will stop at next check.\n";
+      // write(2) is async-signal-safe, std::cerr is not
+      static constexpr char message[] =
+          "\n[MPISignalGuard] Emergency stop signal received. Will stop at next check.\n";
+      [[maybe_unused]] const auto written = ::write(STDERR_FILENO, message, sizeof(message) - 1);
     }
   }
 
-- 
2.43.0

