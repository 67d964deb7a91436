From d2d3c4cbbc09f60b73b919608000ba3ef3bcc6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:40 +0000
Subject: [PATCH 01/27] fix: DuoMatrix::has_alloc returns whether the element
 is allocated

It was declared void while returning a bool expression, so any use of it failed to compile.
---
 include/qlpeps/two_dim_tn/framework/duomatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/two_dim_tn/framework/duomatrix.h b/include/qlpeps/two_dim_tn/framework/duomatrix.h
index 8b8735c..13006bc 100644
--- a/include/qlpeps/two_dim_tn/framework/duomatrix.h
+++ b/include/qlpeps/two_dim_tn/framework/duomatrix.h
@@ -238,7 +238,7 @@ class DuoMatrix {
     }
   }
 
-  void has_alloc(const size_t row, const size_t col) {
+  bool has_alloc(const size_t row, const size_t col) const {
     return raw_data_[row][col] != nullptr;
   }
 
-- 
2.43.0


From f7870f1a68cf07640afda7ade656f9a9851d458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:29 +0000
Subject: [PATCH 02/27] fix: directory helpers report failure when the path is
 not a directory

CreatePath and EnsureDirectoryExists returned true for an existing regular file, although they
promise that a directory exists on success; dumps into that path then failed later.
---
 include/qlpeps/utility/filesystem_utils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/utility/filesystem_utils.h b/include/qlpeps/utility/filesystem_utils.h
index 77fff32..c223cd7 100644
--- a/include/qlpeps/utility/filesystem_utils.h
+++ b/include/qlpeps/utility/filesystem_utils.h
@@ -40,7 +40,7 @@ inline bool CreatePath(const std::string& path) {
   if (path.empty()) return false;
   
   try {
-    if (std::filesystem::exists(path)) return true;
+    if (std::filesystem::exists(path)) return std::filesystem::is_directory(path);
     
     std::cout << "Creating directory: " << path << std::endl;
     return std::filesystem::create_directories(path);
@@ -59,7 +59,7 @@ inline bool CreatePath(const std::string& path) {
  * eliminating the common pattern: if(!IsPathExist(path)) CreatePath(path);
  */
 inline bool EnsureDirectoryExists(const std::string& path) {
-  return IsPathExist(path) || CreatePath(path);
+  return CreatePath(path);
 }
 
 } // namespace qlpeps
-- 
2.43.0


From ef2579441ab9d61a7dc9f9518e80fde6462dd619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:32 +0000
Subject: [PATCH 03/27] fix: builder gives the same defaults whichever setter
 is called first

SetPlateauPatience as the first call left gradient_tolerance at 1e-15 while every other first call
leaves it at 1e-30, so the built parameters depended on call order.
---
 include/qlpeps/optimizer/optimizer_params.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/optimizer/optimizer_params.h b/include/qlpeps/optimizer/optimizer_params.h
index 6ab0161..58e212e 100644
--- a/include/qlpeps/optimizer/optimizer_params.h
+++ b/include/qlpeps/optimizer/optimizer_params.h
@@ -732,7 +732,7 @@ public:
    */
   OptimizerParamsBuilder& SetPlateauPatience(size_t patience) {
     if (!base_params_) {
-      base_params_ = OptimizerParams::BaseParams(1000, 1e-10, 1e-15, patience, 0.01);
+      base_params_ = OptimizerParams::BaseParams(1000, 1e-10, 1e-30, patience, 0.01);
     } else {
       base_params_->plateau_patience = patience;
     }
-- 
2.43.0


From 15542a274006eefb68f05f8ae9c8e35b75992ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:58 +0000
Subject: [PATCH 04/27] fix: DumpTen reports a write that fails when the file
 is flushed

---
 include/qlpeps/two_dim_tn/framework/ten_matrix.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/qlpeps/two_dim_tn/framework/ten_matrix.h b/include/qlpeps/two_dim_tn/framework/ten_matrix.h
index 60543d4..08fec3e 100644
--- a/include/qlpeps/two_dim_tn/framework/ten_matrix.h
+++ b/include/qlpeps/two_dim_tn/framework/ten_matrix.h
@@ -104,6 +104,9 @@ class TenMatrix : public DuoMatrix<TenT> {
       return false; // Failed to write the tensor to the file
     }
     ofs.close();
+    if (!ofs) {
+      return false; // Failed to flush the tensor to the file
+    }
     return true; // Successfully dumped the tensor
   }
 
@@ -125,6 +128,9 @@ class TenMatrix : public DuoMatrix<TenT> {
       return false; // Failed to write the tensor to the file
     }
     ofs.close();
+    if (!ofs) {
+      return false; // Failed to flush the tensor to the file
+    }
     if (release_mem) {
       this->dealloc(row, col);
     }
-- 
2.43.0


From 60b340eddbe39d2d3f89832f32b0059317d5ad76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:43 +0000
Subject: [PATCH 05/27] fix: gather rank statistics about the mean so the error
 is never NaN

E|x|^2-|mean|^2 cancels: for nearly equal rank values the variance came out
negative and the reported standard error was NaN (or pure round-off).
---
 include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h b/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
index 6b6946d..bc1fb0b 100644
--- a/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
+++ b/include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h
@@ -264,9 +264,9 @@ std::pair<ElemT, typename qlten::RealTypeTrait<ElemT>::type> GatherStatisticSing
     if (comm_size > 1) {
       RealT sum_square = 0.0;
       for (size_t i = 0; i < comm_size; i++) {
-        sum_square += static_cast<RealT>(std::norm(gather_data[i]));
+        sum_square += static_cast<RealT>(std::norm(gather_data[i] - mean));
       }
-      RealT variance = sum_square / static_cast<RealT>(comm_size) - static_cast<RealT>(std::norm(mean));
+      RealT variance = sum_square / static_cast<RealT>(comm_size);
       standard_err = std::sqrt(variance / (static_cast<RealT>(comm_size) - 1));
 
       // Check if standard error is infinite and output warning with data
-- 
2.43.0


From 81aaae816a02c8cda0545dc7f24e7c20968ba9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:09 +0000
Subject: [PATCH 06/27] fix: scale the CG Hermiticity tolerance with the system

An absolute 1e-10 bound on Im(p^dagger A p) rejected large-scale Hermitian
positive-definite systems as indefinite because of ordinary round-off.
---
 include/qlpeps/utility/conjugate_gradient_solver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/utility/conjugate_gradient_solver.h b/include/qlpeps/utility/conjugate_gradient_solver.h
index 857e9d3..f7bf0a7 100644
--- a/include/qlpeps/utility/conjugate_gradient_solver.h
+++ b/include/qlpeps/utility/conjugate_gradient_solver.h
@@ -144,7 +144,8 @@ inline bool pap_is_valid(double pap) {
 }
 
 inline bool pap_is_valid(std::complex<double> pap) {
-  return pap.real() > 0.0 && std::abs(pap.imag()) < 1e-10;
+  // The round-off in the imaginary part grows with the scale of the system.
+  return pap.real() > 0.0 && std::abs(pap.imag()) < 1e-10 * std::max(1.0, pap.real());
 }
 
 inline double real_part(double x) { return x; }
-- 
2.43.0


From 0e8d57bf34c10cb82c89f5fa8e592a695e54d504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:28 +0000
Subject: [PATCH 07/27] fix: keep the boundary condition in SplitIndexTPS
 arithmetic results

---
 include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
index 441f560..a9c3565 100644
--- a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
@@ -50,7 +50,7 @@ void SplitIndexTPS<TenElemT, QNT>::ForEachValidTensor_(Func&& func) {
 template<typename TenElemT, typename QNT>
 template<typename Func>
 SplitIndexTPS<TenElemT, QNT> SplitIndexTPS<TenElemT, QNT>::ApplyBinaryOp_(const SplitIndexTPS &right, Func&& func) const {
-  SplitIndexTPS res(this->rows(), this->cols());
+  SplitIndexTPS res(this->rows(), this->cols(), boundary_condition_);
   const size_t phy_dim = PhysicalDim();
   for (size_t row = 0; row < this->rows(); ++row) {
     for (size_t col = 0; col < this->cols(); ++col) {
@@ -65,7 +65,7 @@ SplitIndexTPS<TenElemT, QNT> SplitIndexTPS<TenElemT, QNT>::ApplyBinaryOp_(const
 
 template<typename TenElemT, typename QNT>
 SplitIndexTPS<TenElemT, QNT> SplitIndexTPS<TenElemT, QNT>::CreateInitializedResult_() const {
-  SplitIndexTPS res(this->rows(), this->cols());
+  SplitIndexTPS res(this->rows(), this->cols(), boundary_condition_);
   const size_t phy_dim = PhysicalDim();
   for (size_t row = 0; row < this->rows(); ++row) {
     for (size_t col = 0; col < this->cols(); ++col) {
-- 
2.43.0


From 13d7c325e7daec92205998bcc1e14460af018a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:41 +0000
Subject: [PATCH 08/27] fix: bond dimension queries on single-row and
 single-column states

---
 .../two_dim_tn/tps/split_index_tps_impl.h     | 21 +++++--------------
 include/qlpeps/two_dim_tn/tps/tps_impl.h      |  4 +++-
 2 files changed, 8 insertions(+), 17 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
index a9c3565..3a689d4 100644
--- a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
@@ -8,6 +8,7 @@
 #ifndef QLPEPS_VMC_PEPS_SPLIT_INDEX_TPS_IMPL_H
 #define QLPEPS_VMC_PEPS_SPLIT_INDEX_TPS_IMPL_H
 
+#include <algorithm>  // min_element, max_element, all_of
 #include <complex>    // real
 #include <cstring>    // memcpy
 #include <cstdint>    // uint64_t
@@ -104,7 +105,7 @@ std::pair<size_t, size_t> SplitIndexTPS<TenElemT, QNT>::GetMinMaxBondDimension()
 template<typename TenElemT, typename QNT>
 std::vector<size_t> SplitIndexTPS<TenElemT, QNT>::GetAllInnerBondDimensions() const {
   std::vector<size_t> bond_dims;
-  bond_dims.reserve(this->rows() * this->cols() - this->rows() - this->cols());
+  bond_dims.reserve(2 * this->rows() * this->cols());
   for (size_t row = 0; row < this->rows(); ++row) {
     for (size_t col = 0; col < this->cols(); ++col) {
       const Tensor &tensor = (*this)({row, col})[0];
@@ -123,21 +124,9 @@ std::vector<size_t> SplitIndexTPS<TenElemT, QNT>::GetAllInnerBondDimensions() co
 
 template<typename TenElemT, typename QNT>
 bool SplitIndexTPS<TenElemT, QNT>::IsBondDimensionEven(void) const {
-  size_t d = (*this)({0, 0})[0].GetShape()[1];
-  for (size_t row = 0; row < this->rows(); ++row) {
-    for (size_t col = 0; col < this->cols(); ++col) {
-      const Tensor &tensor = (*this)({row, col})[0];
-      bool has_south = (row < this->rows() - 1) || (boundary_condition_ == BoundaryCondition::Periodic);
-      if (has_south && d != tensor.GetShape()[1]) {
-        return false;
-      }
-      bool has_east = (col < this->cols() - 1) || (boundary_condition_ == BoundaryCondition::Periodic);
-      if (has_east && d != tensor.GetShape()[2]) {
-        return false;
-      }
-    }
-  }
-  return true;
+  const auto bond_dims = GetAllInnerBondDimensions();
+  return std::all_of(bond_dims.cbegin(), bond_dims.cend(),
+                     [&bond_dims](const size_t d) { return d == bond_dims.front(); });
 }
 
 /**
diff --git a/include/qlpeps/two_dim_tn/tps/tps_impl.h b/include/qlpeps/two_dim_tn/tps/tps_impl.h
index 758a94c..c9b400b 100644
--- a/include/qlpeps/two_dim_tn/tps/tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/tps_impl.h
@@ -82,7 +82,9 @@ size_t TPS<TenElemT, QNT>::GetMaxBondDimension(void) const {
 ///< OBC
 template<typename TenElemT, typename QNT>
 bool TPS<TenElemT, QNT>::IsBondDimensionUniform(void) const {
-  size_t d = (*this)(0, 0)->GetShape()[1];
+  // Reference inner bond: with a single open row only the horizontal bonds are inner bonds.
+  const bool has_vertical_bond = this->rows() > 1 || boundary_condition_ == BoundaryCondition::Periodic;
+  size_t d = (*this)(0, 0)->GetShape()[has_vertical_bond ? 1 : 2];
   for (size_t row = 0; row < this->rows(); ++row) {
     for (size_t col = 0; col < this->cols(); ++col) {
       const TenT *tensor = (*this)(row, col);
-- 
2.43.0


From 3d052c3324b9c2728117385458b3ffd73b67fcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:21 +0000
Subject: [PATCH 09/27] fix: report tensor files that could not be written when
 dumping a TPS or SplitIndexTPS

---
 include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h | 7 ++++++-
 include/qlpeps/two_dim_tn/tps/tps_impl.h             | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
index 3a689d4..de27805 100644
--- a/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/split_index_tps_impl.h
@@ -266,6 +266,9 @@ bool SplitIndexTPS<TenElemT, QNT>::DumpTen(const size_t row,
     return false; // Failed to write the tensor to the file
   }
   ofs.close();
+  if (!ofs) {
+    return false; // Failed to flush the tensor to the file
+  }
   return true; // Successfully dumped the tensor
 }
 
@@ -295,7 +298,9 @@ void SplitIndexTPS<TenElemT, QNT>::Dump(const std::string &tps_path, const bool
     for (size_t col = 0; col < this->cols(); ++col) {
       for (size_t compt = 0; compt < phy_dim; compt++) {
         file = GenSplitIndexTPSTenName(tps_path, row, col, compt);
-        this->DumpTen(row, col, compt, file);
+        if (!this->DumpTen(row, col, compt, file)) {
+          throw std::ios_base::failure("Failed to dump tensor to file: " + file);
+        }
       }
       if (release_mem) {
         this->dealloc(row, col);
diff --git a/include/qlpeps/two_dim_tn/tps/tps_impl.h b/include/qlpeps/two_dim_tn/tps/tps_impl.h
index c9b400b..e03219a 100644
--- a/include/qlpeps/two_dim_tn/tps/tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/tps_impl.h
@@ -116,7 +116,9 @@ void TPS<TenElemT, QNT>::Dump(const std::string &tps_path, const bool release_me
   for (size_t row = 0; row < this->rows(); ++row) {
     for (size_t col = 0; col < this->cols(); ++col) {
       file = GenTPSTenName(tps_path, row, col);
-      this->DumpTen(row, col, file, release_mem);
+      if (!this->DumpTen(row, col, file, release_mem)) {
+        throw std::ios_base::failure("Failed to dump tensor to file: " + file);
+      }
     }
   }
 }
-- 
2.43.0


From fcaa3cc158440e1380771a500ac533803ad6170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:38 +0000
Subject: [PATCH 10/27] fix: WaveFunctionSum keeps the sign and phase of
 superposition coefficients

---
 include/qlpeps/two_dim_tn/tps/tps_impl.h | 31 ++++++++++++++----------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/tps/tps_impl.h b/include/qlpeps/two_dim_tn/tps/tps_impl.h
index e03219a..4fece24 100644
--- a/include/qlpeps/two_dim_tn/tps/tps_impl.h
+++ b/include/qlpeps/two_dim_tn/tps/tps_impl.h
@@ -201,6 +201,13 @@ inline std::vector<size_t> GetExpandIndices_(
   }
   return expand_idx_nums;
 }
+
+/// Sign (real) or phase (complex) of a superposition coefficient; 1 for a zero coefficient.
+template<typename TenElemT>
+inline TenElemT CoefficientPhase_(const TenElemT coefficient) {
+  const auto magnitude = std::abs(coefficient);
+  return magnitude > 0 ? TenElemT(coefficient / magnitude) : TenElemT(1.0);
+}
 } // namespace detail
 
 template<typename TenElemT, typename QNT>
@@ -266,19 +273,12 @@ TPS<TenElemT, QNT> WaveFunctionSum(
   const size_t N = rows * cols;
   const BoundaryCondition bc = tps1.GetBoundaryCondition();
   
-  // Compute per-site scaling factors: alpha^(1/N), beta^(1/N)
-  // For complex numbers, use principal root
-  double alpha_scale, beta_scale;
-  if constexpr (std::is_same_v<TenElemT, double>) {
-    alpha_scale = std::pow(std::abs(alpha), 1.0 / N);
-    beta_scale = std::pow(std::abs(beta), 1.0 / N);
-    if (alpha < 0 && N % 2 == 1) alpha_scale = -alpha_scale;
-    if (beta < 0 && N % 2 == 1) beta_scale = -beta_scale;
-  } else {
-    // Complex case: use magnitude
-    alpha_scale = std::pow(std::abs(alpha), 1.0 / N);
-    beta_scale = std::pow(std::abs(beta), 1.0 / N);
-  }
+  // Per-site scaling factors |alpha|^(1/N), |beta|^(1/N); the sign (phase) of the
+  // coefficient is carried by site (0, 0) only, so that the product over sites is exact.
+  const double alpha_scale = std::pow(std::abs(alpha), 1.0 / N);
+  const double beta_scale = std::pow(std::abs(beta), 1.0 / N);
+  const TenElemT alpha_phase = detail::CoefficientPhase_(alpha);
+  const TenElemT beta_phase = detail::CoefficientPhase_(beta);
   
   TPS<TenElemT, QNT> result(rows, cols, bc);
   
@@ -286,6 +286,10 @@ TPS<TenElemT, QNT> WaveFunctionSum(
     for (size_t col = 0; col < cols; ++col) {
       TenT ten1_scaled = *tps1(row, col) * TenElemT(alpha_scale);
       TenT ten2_scaled = *tps2(row, col) * TenElemT(beta_scale);
+      if (row == 0 && col == 0) {
+        ten1_scaled *= alpha_phase;
+        ten2_scaled *= beta_phase;
+      }
       
       std::vector<size_t> expand_idx_nums = 
           detail::GetExpandIndices_(row, col, rows, cols, bc);
@@ -325,6 +329,7 @@ TPS<TenElemT, QNT> WaveFunctionSum(
           result({row, col}) *= TenElemT(scale);
         }
       }
+      result({0, 0}) *= detail::CoefficientPhase_(coefficients[0]);
       return result;
     }
   }
-- 
2.43.0


From 2ee2644f6346a1fa78e280b6bc380d952aae98a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:35 +0000
Subject: [PATCH 11/27] fix: TRGContractor::ClearCache keeps the topology the
 next Trace needs

---
 .../tensor_network_2d/trg/trg_contractor_impl.h      | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h b/include/qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h
index c2b1b34..b083cc0 100644
--- a/include/qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h
+++ b/include/qlpeps/two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h
@@ -134,7 +134,16 @@ void TRGContractor<TenElemT, QNT>::ResetGeometry_(size_t rows, size_t cols) {
 
 template <typename TenElemT, typename QNT>
 void TRGContractor<TenElemT, QNT>::ClearCache() {
-  scales_.clear();
+  // Drop tensors and split data only: the multi-scale topology is still needed by the next Trace(tn).
+  for (auto& layer : scales_) {
+    layer.tens.assign(layer.tens.size(), Tensor());
+    layer.split_type.clear();
+    layer.split_P.clear();
+    layer.split_Q.clear();
+    layer.split_U.clear();
+    layer.split_Vt.clear();
+    layer.split_S_inv_sqrt.clear();
+  }
   tensors_initialized_ = false;
 }
 
@@ -160,6 +169,7 @@ void TRGContractor<TenElemT, QNT>::Init(const TensorNetwork2D<TenElemT, QNT>& tn
   }
 
   ClearCache();
+  scales_.clear();
   BuildScale0GraphPBCSquare_();
   BuildTopology_(); // Build skeleton for all scales
   ValidateTopologyConsistency_();
-- 
2.43.0


From 1bf72fa92f23a26a5d6860412b949f9f57c4934a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:32 +0000
Subject: [PATCH 12/27] fix: triangular J1-J2 solver covers every J2 bond in
 measurements and two-row lattices

EvaluateObservables evaluated the left-up/right-down J2 bonds after the
BTen2 window had been shifted to the right end, left out the horizontal
sqrt(5) bonds, and traced the amplitude with boundary tensors that the
middle-row correlator had just replaced, so the measured energy differed
from CalEnergyAndHoles. Both energy paths also grew boundary tensors for
non-existing vertical sqrt(5) bonds on two-row lattices (crash).
---
 ..._onehalf_triangle_heisenbergJ1J2_sqrpeps.h | 43 +++++++++++--------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
index 79da7cf..b2cd998 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
@@ -169,8 +169,6 @@ class SpinOneHalfTriJ1J2HeisenbergSqrPEPS : public ModelEnergySolver<SpinOneHalf
         // Triangular J1 diagonal (↘)
         contractor.InitBTen2(tn, LEFT, row);
         contractor.GrowFullBTen2(tn, RIGHT, row, 2, true);
-        auto psi2 = contractor.Trace(tn, {row, 0}, HORIZONTAL);
-        auto inv_psi2 = TenElemT(1.0) / psi2;
         for (size_t col = 0; col + 1 < lx; ++col) {
           const SiteIdx ld{row + 1, col};
           const SiteIdx ru{row, col + 1};
@@ -181,26 +179,35 @@ class SpinOneHalfTriJ1J2HeisenbergSqrPEPS : public ModelEnergySolver<SpinOneHalf
             TenElemT psi_ex = contractor.ReplaceNNNSiteTrace(tn, {row, col}, LEFTDOWN_TO_RIGHTUP, HORIZONTAL,
                                                      (*split_index_tps)(ld)[config(ru)],
                                                      (*split_index_tps)(ru)[config(ld)]);
-            eb = (-0.25 + ComplexConjugate(psi_ex * inv_psi2) * 0.5);
+            eb = (-0.25 + ComplexConjugate(psi_ex * inv_psi) * 0.5);
           }
           if (e_ur.size() != 0) {
             e_ur(row, col) = eb;
           }
           energy_total += eb;
-          if (col + 2 < lx) contractor.ShiftBTen2Window(tn, RIGHT, row);
-        }
 
-        // J2 contribution on the same row window (left-up to right-down)
-        for (size_t col = 0; col + 1 < lx; ++col) {
-          SiteIdx s1{row, col};
-          SiteIdx s2{row + 1, col + 1};
-          if (config(s1) == config(s2)) {
+          // J2 contributions in the same window: left-up to right-down, then sqrt(5) separation
+          const SiteIdx lu{row, col};
+          const SiteIdx rd{row + 1, col + 1};
+          if (config(lu) == config(rd)) {
             energy_j2_total += TenElemT(0.25);
           } else {
             TenElemT psi_ex = contractor.ReplaceNNNSiteTrace(tn, {row, col}, LEFTUP_TO_RIGHTDOWN, HORIZONTAL,
-                                                     (*split_index_tps)(s1)[config(s2)],
-                                                     (*split_index_tps)(s2)[config(s1)]);
-            energy_j2_total += (-0.25 + ComplexConjugate(psi_ex * inv_psi2) * 0.5);
+                                                     (*split_index_tps)(lu)[config(rd)],
+                                                     (*split_index_tps)(rd)[config(lu)]);
+            energy_j2_total += (-0.25 + ComplexConjugate(psi_ex * inv_psi) * 0.5);
+          }
+          if (col + 2 < lx) {
+            const SiteIdx far_ru{row, col + 2};
+            if (config(ld) == config(far_ru)) {
+              energy_j2_total += TenElemT(0.25);
+            } else {
+              TenElemT psi_ex = contractor.ReplaceSqrt5DistTwoSiteTrace(tn, {row, col}, LEFTDOWN_TO_RIGHTUP, HORIZONTAL,
+                                                                (*split_index_tps)(ld)[config(far_ru)],
+                                                                (*split_index_tps)(far_ru)[config(ld)]);
+              energy_j2_total += (-0.25 + ComplexConjugate(psi_ex * inv_psi) * 0.5);
+            }
+            contractor.ShiftBTen2Window(tn, RIGHT, row);
           }
         }
         contractor.ShiftBMPSWindow(tn, DOWN);
@@ -235,7 +242,7 @@ class SpinOneHalfTriJ1J2HeisenbergSqrPEPS : public ModelEnergySolver<SpinOneHalf
       }
 
       // J2 vertical window (sqrt(5) separation)
-      if (col + 1 < lx) {
+      if (col + 1 < lx && ly > 2) {
         contractor.InitBTen2(tn, UP, col);
         contractor.GrowFullBTen2(tn, DOWN, col, 3, true);
         for (size_t row = 0; row + 2 < ly; ++row) {
@@ -421,10 +428,12 @@ CalEnergyAndHolesImpl(const SplitIndexTPS<TenElemT, QNT> *split_index_tps,
       }
     }
     if (col < tn.cols() - 1) {
-      contractor.InitBTen2(tn, UP, col);
-      contractor.GrowFullBTen2(tn, DOWN, col, 3, true);
+      if (tn.rows() > 2) { // no vertical sqrt(5) bond on shorter lattices
+        contractor.InitBTen2(tn, UP, col);
+        contractor.GrowFullBTen2(tn, DOWN, col, 3, true);
+      }
       //Calculate J2 energy contribution
-      for (size_t row = 0; row < tn.rows() - 2; row++) {
+      for (size_t row = 0; row + 2 < tn.rows(); row++) {
         const SiteIdx site1 = {row + 2, col};
         const SiteIdx site2 = {row, col + 1};
         if (config(site1) == config(site2)) {
-- 
2.43.0


From d2444a451286f6dac284e98bd4978c672f2311ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:41 +0000
Subject: [PATCH 13/27] fix: measured amplitude summary of the Ising and
 triangular J1-J2 OBC solvers

EvaluateObservables collected the amplitudes but dropped them, so the
measurer recorded psi_mean = 0 and psi_rel_err = 0 for every sample.
---
 .../spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h            | 4 +++-
 .../model_solvers/transverse_field_ising_square_obc.h         | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
index b2cd998..19ca0b0 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/spin_onehalf_triangle_heisenbergJ1J2_sqrpeps.h
@@ -266,7 +266,9 @@ class SpinOneHalfTriJ1J2HeisenbergSqrPEPS : public ModelEnergySolver<SpinOneHalf
     if (e_h.size() != 0) out["bond_energy_h"] = e_h.Extract();
     if (e_v.size() != 0) out["bond_energy_v"] = e_v.Extract();
     if (e_ur.size() != 0) out["bond_energy_ur"] = e_ur.Extract();
-    // psi_list is not emitted via registry; Measurer computes PsiSummary separately
+    // psi_list is not emitted via registry; cache its summary for the Measurer
+    auto psi_summary = this->template ComputePsiSummary<TenElemT>(psi_list);
+    this->template SetLastPsiSummary<TenElemT>(psi_summary.psi_mean, psi_summary.psi_rel_err);
 
     // All-to-all SzSz packed
     {
diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_obc.h b/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_obc.h
index 62e1ef3..265675e 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_obc.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/transverse_field_ising_square_obc.h
@@ -131,7 +131,9 @@ class TransverseFieldIsingSquareOBC : public ModelEnergySolver<TransverseFieldIs
 
     out["sigma_x"] = sigma_x_mat.Extract();
     if (!two_point.empty()) out["SzSz_row"] = std::move(two_point);
-    // psi_list is not emitted via registry; Measurer computes PsiSummary separately
+    // psi_list is not emitted via registry; cache its summary for the Measurer
+    auto psi_summary = this->template ComputePsiSummary<TenElemT>(psi_list);
+    this->template SetLastPsiSummary<TenElemT>(psi_summary.psi_mean, psi_summary.psi_rel_err);
 
     // Diagonal bond energies omitted by default; can be enabled if needed later
     return out;
-- 
2.43.0


From 901a8d4a49efc424e8bf90b89d2df74c3cf734f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:54 +0000
Subject: [PATCH 14/27] fix: accept an S4 energy spike when no state is left to
 roll back to instead of re-evaluating forever

---
 include/qlpeps/optimizer/optimizer_impl.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/qlpeps/optimizer/optimizer_impl.h b/include/qlpeps/optimizer/optimizer_impl.h
index e165aee..01f74e0 100644
--- a/include/qlpeps/optimizer/optimizer_impl.h
+++ b/include/qlpeps/optimizer/optimizer_impl.h
@@ -736,7 +736,9 @@ Optimizer<TenElemT, QNT>::IterativeOptimize(
         if (rank_ == qlten::hp_numeric::kMPIMasterRank) {
           signal = DetectS4_(std::real(current_energy));
           if (signal != SpikeSignal::kNone) {
-            action = SpikeAction::kRollback;
+            // Without a stored state there is nothing to roll back to; re-evaluating the
+            // same state would repeat the spike forever.
+            action = has_prev_state_ ? SpikeAction::kRollback : SpikeAction::kAcceptWithWarning;
           }
         }
         action = BroadcastAction_(action);
@@ -760,6 +762,11 @@ Optimizer<TenElemT, QNT>::IterativeOptimize(
           attempts = 0;
           continue;
         }
+        if (action == SpikeAction::kAcceptWithWarning && rank_ == qlten::hp_numeric::kMPIMasterRank) {
+          LogSpikeEvent_(iter, attempts, signal, action,
+                         std::real(current_energy),
+                         ema_energy_.Mean() + spike_cfg.sigma_k * ema_energy_.Std());
+        }
       }
 
       // === E: ACCEPT — update EMA trackers (only on accepted steps) ===
-- 
2.43.0


From 1e077cd0ac87d7cb70f016c87a49f66d32abe4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:54 +0000
Subject: [PATCH 15/27] fix: feed the learning-rate scheduler each iteration's
 own energy (the first one was reported twice)

---
 include/qlpeps/optimizer/optimizer_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/optimizer/optimizer_impl.h b/include/qlpeps/optimizer/optimizer_impl.h
index 01f74e0..806d3db 100644
--- a/include/qlpeps/optimizer/optimizer_impl.h
+++ b/include/qlpeps/optimizer/optimizer_impl.h
@@ -299,7 +299,7 @@ Optimizer<TenElemT, QNT>::IterativeOptimize(
       // === C: Compute learning rate and optimization update ===
       double learning_rate = any_selector_enabled
           ? selector_base_lr
-          : GetCurrentLearningRate(iter, (iter == 0) ? std::real(current_energy) : previous_energy);
+          : GetCurrentLearningRate(iter, std::real(current_energy));
       double effective_learning_rate = learning_rate;
 
       Timer update_timer("optimization_update");
-- 
2.43.0


From d6bf1c5974a4bb79c7d7c8db100d9b36bd4fad3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:51 +0000
Subject: [PATCH 16/27] fix: MCEnergyGradEvaluator::Result::gradient_norm is
 the norm, not its square

---
 include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h b/include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h
index d8ee007..0b696ad 100644
--- a/include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h
+++ b/include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h
@@ -310,7 +310,7 @@ class MCEnergyGradEvaluator {
     }
     double grad_norm = 0.0;
     if (engine_.Rank() == qlten::hp_numeric::kMPIMasterRank) {
-      grad_norm = grad.NormSquare();
+      grad_norm = std::sqrt(grad.NormSquare());
     }
 
     Result res;
-- 
2.43.0


From 13393325a467a44e2648d77bfb5aa88c38d637b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:11 +0000
Subject: [PATCH 17/27] fix: replica test divided by zero with fewer than ten
 samples per rank

---
 .../algorithm/vmc_update/monte_carlo_peps_measurer_impl.h   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
index 97fb9db..ca5200e 100644
--- a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
+++ b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
@@ -114,6 +114,9 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
   overlaps.reserve(engine_.SamplesPerRank());
   //  std::cout << "Random number from worker " << rank_ << " : " << u_double_(random_engine) << std::endl;
   std::vector<double> accept_rates_accum;
+  const size_t print_bar_length = (engine_.SamplesPerRank() / 10) > 0
+                                    ? (engine_.SamplesPerRank() / 10)
+                                    : 1;
   for (size_t sweep = 0; sweep < engine_.SamplesPerRank(); sweep++) {
     std::vector<double> accept_rates = engine_.StepSweep();
     if (sweep == 0) {
@@ -139,8 +142,7 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
 
     // calculate overlap
     overlaps.push_back(overlap_func(engine_.WavefuncComp().config, config2));
-    if (engine_.Rank() == qlten::hp_numeric::kMPIMasterRank && (sweep + 1) % (engine_.SamplesPerRank() /
-      10) == 0) {
+    if (engine_.Rank() == qlten::hp_numeric::kMPIMasterRank && (sweep + 1) % print_bar_length == 0) {
       PrintProgressBar((sweep + 1), engine_.SamplesPerRank());
 
       auto accept_rates_avg = accept_rates_accum;
-- 
2.43.0


From 4b0d5d237c37860200d4d8268ff31054b093135f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:03 +0000
Subject: [PATCH 18/27] fix: call the hooks set with SetOptimizationCallback
 (Execute overwrote them)

---
 .../vmc_update/vmc_peps_optimizer_impl.h       | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/vmc_peps_optimizer_impl.h b/include/qlpeps/algorithm/vmc_update/vmc_peps_optimizer_impl.h
index 5ad6c44..7f9d8a3 100644
--- a/include/qlpeps/algorithm/vmc_update/vmc_peps_optimizer_impl.h
+++ b/include/qlpeps/algorithm/vmc_update/vmc_peps_optimizer_impl.h
@@ -107,8 +107,10 @@ void VMCPEPSOptimizer<TenElemT, QNT, MonteCarloSweepUpdater, EnergySolver, Contr
   this->SetStatus(ExecutorStatus::EXEING);
   monte_carlo_engine_.WarmUp();
 
-  // Set up optimization callback to track progress
-  optimization_callback_.on_iteration =
+  // Set up optimization callback to track progress; the hooks registered through
+  // SetOptimizationCallback() are called after the executor's own bookkeeping.
+  typename OptimizerT::OptimizationCallback callback = optimization_callback_;
+  callback.on_iteration =
       [this](size_t iteration, double energy, double energy_error, double gradient_norm) {
         if (monte_carlo_engine_.Rank() == qlten::hp_numeric::kMPIMasterRank) {
           energy_trajectory_.push_back(energy);
@@ -125,13 +127,19 @@ void VMCPEPSOptimizer<TenElemT, QNT, MonteCarloSweepUpdater, EnergySolver, Contr
             WriteEnergyTrajectoryCsv_("./energy/energy_trajectory.csv");
           }
         }
+        if (optimization_callback_.on_iteration) {
+          optimization_callback_.on_iteration(iteration, energy, energy_error, gradient_norm);
+        }
       };
 
-  optimization_callback_.on_lowest_state_found = [this](const SITPST &state, double energy) {
+  callback.on_lowest_state_found = [this](const SITPST &state, double energy) {
     if (monte_carlo_engine_.Rank() == qlten::hp_numeric::kMPIMasterRank) {
       tps_lowest_ = state;
       en_min_ = energy;
     }
+    if (optimization_callback_.on_lowest_state_found) {
+      optimization_callback_.on_lowest_state_found(state, energy);
+    }
   };
 
   // Create energy evaluator function that provides gradient samples for stochastic reconfiguration
@@ -175,11 +183,11 @@ void VMCPEPSOptimizer<TenElemT, QNT, MonteCarloSweepUpdater, EnergySolver, Contr
   // Use iterative optimization for all algorithms in the current implementation
   // Line search support can be added as enhancement later
   if (needs_sr_buffers_) {
-    result = optimizer_.IterativeOptimize(monte_carlo_engine_.State(), energy_evaluator, optimization_callback_,
+    result = optimizer_.IterativeOptimize(monte_carlo_engine_.State(), energy_evaluator, callback,
                                           &Ostar_samples_, &Ostar_mean_, &energy_samples_,
                                           energy_only_evaluator);
   } else {
-    result = optimizer_.IterativeOptimize(monte_carlo_engine_.State(), energy_evaluator, optimization_callback_,
+    result = optimizer_.IterativeOptimize(monte_carlo_engine_.State(), energy_evaluator, callback,
                                           nullptr, nullptr, nullptr,
                                           energy_only_evaluator);
   }
-- 
2.43.0


From 6dd7124991bf3531257b65e970dc3058069fa0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:02 +0000
Subject: [PATCH 19/27] fix: EvaluateObservables of models without NNN terms
 needed EvaluateNNNEnergy (Hubbard model did not compile)

---
 .../square_nnn_model_measurement_solver.h     | 51 ++++++++++---------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/base/square_nnn_model_measurement_solver.h b/include/qlpeps/algorithm/vmc_update/model_solvers/base/square_nnn_model_measurement_solver.h
index 39d9303..3362c1c 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/base/square_nnn_model_measurement_solver.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/base/square_nnn_model_measurement_solver.h
@@ -138,34 +138,35 @@ class SquareNNNModelMeasurementSolver
       // NNN link measurement functor (accumulate LEFTUP_TO_RIGHTDOWN to preserve legacy semantics)
     auto nnn_link_measure_func = [&](const SiteIdx site1, const SiteIdx site2, const DIAGONAL_DIR dir,
                                      const TenElemT inv_psi_row, std::optional<TenElemT> &fermion_psi) {
-      if constexpr (!has_nnn_interaction) { return; }
-      auto& contractor = tps_sample->contractor;
-      // Do NOT pre-set fermion_psi here: EvaluateNNNEnergy must compute the correct
-      // psi via ReplaceNNNSiteTrace on the first call (LEFTUP_TO_RIGHTDOWN), then
-      // reuse it on the second call (LEFTDOWN_TO_RIGHTUP). Pre-setting fermion_psi
-      // to the 1-row trace psi bypasses this and produces incorrect NNN bond energies.
-      TenElemT eb;
-      if constexpr (Index<QNT>::IsFermionic()) {
-        eb = derived->EvaluateNNNEnergy(site1, site2, config(site1), config(site2), dir, tn, contractor,
-                                        (*split_index_tps)(site1), (*split_index_tps)(site2), fermion_psi);
-      } else {
-        eb = derived->EvaluateNNNEnergy(site1, site2, config(site1), config(site2), dir, tn, contractor,
-                                        (*split_index_tps)(site1), (*split_index_tps)(site2), inv_psi_row);
-      }
-      // Sum energy from both diagonals for general square NNN models (e.g. J1-J2).
-      // For models with only one diagonal interaction (like triangular mapped to square),
-      // the derived class must ensure EvaluateNNNEnergy returns 0 for the non-interacting direction.
-      if (dir == LEFTUP_TO_RIGHTDOWN) {
-        if (e_dr.size() != 0) {
-          e_dr(site1.row(), site1.col()) = eb;
+      if constexpr (has_nnn_interaction) { // models without NNN terms need not provide EvaluateNNNEnergy
+        auto& contractor = tps_sample->contractor;
+        // Do NOT pre-set fermion_psi here: EvaluateNNNEnergy must compute the correct
+        // psi via ReplaceNNNSiteTrace on the first call (LEFTUP_TO_RIGHTDOWN), then
+        // reuse it on the second call (LEFTDOWN_TO_RIGHTUP). Pre-setting fermion_psi
+        // to the 1-row trace psi bypasses this and produces incorrect NNN bond energies.
+        TenElemT eb;
+        if constexpr (Index<QNT>::IsFermionic()) {
+          eb = derived->EvaluateNNNEnergy(site1, site2, config(site1), config(site2), dir, tn, contractor,
+                                          (*split_index_tps)(site1), (*split_index_tps)(site2), fermion_psi);
+        } else {
+          eb = derived->EvaluateNNNEnergy(site1, site2, config(site1), config(site2), dir, tn, contractor,
+                                          (*split_index_tps)(site1), (*split_index_tps)(site2), inv_psi_row);
         }
-      } else if (dir == LEFTDOWN_TO_RIGHTUP) {
-        if (e_ur.size() != 0) {
-          size_t mapped_row = site1.row() - 1;  // LEFTDOWN anchor -> shift to top cell
-          e_ur(mapped_row, site1.col()) = eb;
+        // Sum energy from both diagonals for general square NNN models (e.g. J1-J2).
+        // For models with only one diagonal interaction (like triangular mapped to square),
+        // the derived class must ensure EvaluateNNNEnergy returns 0 for the non-interacting direction.
+        if (dir == LEFTUP_TO_RIGHTDOWN) {
+          if (e_dr.size() != 0) {
+            e_dr(site1.row(), site1.col()) = eb;
+          }
+        } else if (dir == LEFTDOWN_TO_RIGHTUP) {
+          if (e_ur.size() != 0) {
+            size_t mapped_row = site1.row() - 1;  // LEFTDOWN anchor -> shift to top cell
+            e_ur(mapped_row, site1.col()) = eb;
+          }
         }
+        energy_bond_total += eb;
       }
-      energy_bond_total += eb;
     };
 
     // Optional row hook for *off-diagonal* observables that require contractor environment
-- 
2.43.0


From 7e979f76a0f1af5f30f30fc7e468c3eb710f20f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:53 +0000
Subject: [PATCH 20/27] fix: Jastrow ratio of a hop counted the moving
 electron's coupling to itself

---
 .../vmc_update/model_solvers/square_tJ_model.h       | 12 ++++++++----
 .../square_nn_updater.h                              |  6 ++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/model_solvers/square_tJ_model.h b/include/qlpeps/algorithm/vmc_update/model_solvers/square_tJ_model.h
index 89a0dee..695a5d8 100644
--- a/include/qlpeps/algorithm/vmc_update/model_solvers/square_tJ_model.h
+++ b/include/qlpeps/algorithm/vmc_update/model_solvers/square_tJ_model.h
@@ -397,11 +397,13 @@ TenElemT SquaretJModelMixIn::EvaluateBondEnergy(
 
       double field_site1 = jastrow.JastrowFieldAtSite(density_config, site1);
       double field_site2 = jastrow.JastrowFieldAtSite(density_config, site2);
+      // The field at the empty site counts the hopping electron itself; v_{12} n_1 n_2 vanishes before and after.
+      const double v12 = jastrow(site1, site2);
       double jastrow_ratio;
       if (tJSingleSiteState(config1) == tJSingleSiteState::Empty) {
-        jastrow_ratio = std::exp(field_site1 - field_site2);
+        jastrow_ratio = std::exp(field_site1 - v12 - field_site2);
       } else {
-        jastrow_ratio = std::exp(field_site2 - field_site1);
+        jastrow_ratio = std::exp(field_site2 - v12 - field_site1);
       }
       return (-t_) * ratio * jastrow_ratio;
     } else {
@@ -508,11 +510,13 @@ TenElemT SquaretJModelMixIn::EvaluateNNNEnergy(
   auto &density_config = jastrow_dress.density_config;
   double field_site1 = jastrow.JastrowFieldAtSite(density_config, site1);
   double field_site2 = jastrow.JastrowFieldAtSite(density_config, site2);
+  // The field at the empty site counts the hopping electron itself; v_{12} n_1 n_2 vanishes before and after.
+  const double v12 = jastrow(site1, site2);
   double jastrow_ratio;
   if (tJSingleSiteState(config1) == tJSingleSiteState::Empty) {
-    jastrow_ratio = std::exp(field_site1 - field_site2);
+    jastrow_ratio = std::exp(field_site1 - v12 - field_site2);
   } else {
-    jastrow_ratio = std::exp(field_site2 - field_site1);
+    jastrow_ratio = std::exp(field_site2 - v12 - field_site1);
   }
 
   return -t2_ * ratio * jastrow_ratio;
diff --git a/include/qlpeps/vmc_basic/configuration_update_strategies/square_nn_updater.h b/include/qlpeps/vmc_basic/configuration_update_strategies/square_nn_updater.h
index 57622ea..0132f8e 100644
--- a/include/qlpeps/vmc_basic/configuration_update_strategies/square_nn_updater.h
+++ b/include/qlpeps/vmc_basic/configuration_update_strategies/square_nn_updater.h
@@ -408,10 +408,12 @@ class MCUpdateSquareNNExchangeJastrowDressedTJ : public MCUpdateSquareNNUpdateBa
       // For t-J model, we know here one empty, one filled.
       double field_site1 = jastrow.JastrowFieldAtSite(density_config, site1);
       double field_site2 = jastrow.JastrowFieldAtSite(density_config, site2);
+      // The field at the empty site counts the hopping electron itself; v_{12} n_1 n_2 vanishes before and after.
+      const double v12 = jastrow(site1, site2);
       if (density_config(site1) == 0 && density_config(site2) == 1) {
-        jastrow_ratio = std::exp(field_site1 - field_site2);
+        jastrow_ratio = std::exp(field_site1 - v12 - field_site2);
       } else if (density_config(site1) == 1 && density_config(site2) == 0) {
-        jastrow_ratio = std::exp(field_site2 - field_site1);
+        jastrow_ratio = std::exp(field_site2 - v12 - field_site1);
       } else {
         std::cerr << "Error: Invalid density configuration for t-J model." << std::endl;
         exit(EXIT_FAILURE);
-- 
2.43.0


From 6f0aeba5cd08d9be595e70e850f7e3d3c99a50ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:57 +0000
Subject: [PATCH 21/27] fix: const SquareLatticePEPS::Dump writes inside the
 given directory

---
 .../qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h b/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h
index debc724..538c85c 100644
--- a/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h
+++ b/include/qlpeps/two_dim_tn/peps/square_lattice_peps_basic_impl.h
@@ -400,7 +400,7 @@ bool SquareLatticePEPS<TenElemT, QNT>::Dump(const std::string path) const {
   EnsureDirectoryExists(path);
   for (size_t row = 0; row < rows_; ++row) {
     for (size_t col = 0; col < cols_; ++col) {
-      std::string filename = path + "gamma_ten_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
+      std::string filename = path + "/gamma_ten_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
       if (!Gamma.DumpTen(row, col, filename)) {
         std::cout << "Failed to dump tensor from file: " << filename << std::endl;
         return false; // Failed to dump Gamma tensor
@@ -410,7 +410,7 @@ bool SquareLatticePEPS<TenElemT, QNT>::Dump(const std::string path) const {
 
   for (size_t row = 0; row < lambda_vert.rows(); ++row) {
     for (size_t col = 0; col < lambda_vert.cols(); ++col) {
-      std::string filename = path + "lam_v_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
+      std::string filename = path + "/lam_v_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
       if (!lambda_vert.DumpTen(row, col, filename)) {
         std::cout << "Failed to dump tensor from file: " << filename << std::endl;
         return false; // Failed to dump lambda_vert tensor
@@ -420,7 +420,7 @@ bool SquareLatticePEPS<TenElemT, QNT>::Dump(const std::string path) const {
 
   for (size_t row = 0; row < lambda_horiz.rows(); ++row) {
     for (size_t col = 0; col < lambda_horiz.cols(); ++col) {
-      std::string filename = path + "lam_h_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
+      std::string filename = path + "/lam_h_" + std::to_string(row) + "-" + std::to_string(col) + ".qlten";
       if (!lambda_horiz.DumpTen(row, col, filename)) {
         std::cout << "Failed to dump tensor from file: " << filename << std::endl;
         return false; // Failed to dump lambda_horiz tensor
-- 
2.43.0


From 268391c5bc520dfad0b54e9ee23b293530c7baf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:46 +0000
Subject: [PATCH 22/27] fix: lower-left triangle of the NNN simple update uses
 the on-site term of its third site

---
 .../algorithm/simple_update/square_lattice_nnn_simple_update.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h b/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h
index 39278ec..1c43194 100644
--- a/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h
+++ b/include/qlpeps/algorithm/simple_update/square_lattice_nnn_simple_update.h
@@ -150,8 +150,7 @@ class SquareLatticeNNNSimpleUpdateExecutor : public SimpleUpdateExecutor<TenElem
       }
       case LowerLeft: {
         tri_site[0] = {(site_b[0] - 1 + this->peps_.lambda_vert.rows()) % this->peps_.lambda_vert.rows(), site_b[1]};
-        tri_site[2] = {(site_b[0] - 1 + this->peps_.lambda_vert.rows()) % this->peps_.lambda_vert.rows(), 
-                       (site_b[1] + 1) % this->peps_.lambda_horiz.cols()};
+        tri_site[2] = {site_b[0], (site_b[1] + 1) % this->peps_.lambda_horiz.cols()};
         break;
       }
       case LowerRight: {
-- 
2.43.0


From c044c65696a0e15082ae7c22d2b1155b32b3ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:44 +0000
Subject: [PATCH 23/27] fix: SU_METRIC prints the step length at full precision

---
 include/qlpeps/algorithm/simple_update/simple_update_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/algorithm/simple_update/simple_update_impl.h b/include/qlpeps/algorithm/simple_update/simple_update_impl.h
index 4e65f34..21ae0bb 100644
--- a/include/qlpeps/algorithm/simple_update/simple_update_impl.h
+++ b/include/qlpeps/algorithm/simple_update/simple_update_impl.h
@@ -327,7 +327,7 @@ void SimpleUpdateExecutor<TenElemT, QNT>::Execute(void) {
     if (update_para.emit_machine_readable_metrics) {
       std::cout << "SU_METRIC"
                 << " step=" << step
-                << " tau=" << update_para.tau
+                << " tau=" << std::setprecision(15) << update_para.tau
                 << " e0=" << std::setprecision(15) << sweep_result.estimated_e0
                 << " en=" << std::setprecision(15) << sweep_result.estimated_en;
       if (sweep_result.trunc_err.has_value()) {
-- 
2.43.0


From 541ee138279d99760ed466d0f4b00f2d50988ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:35 +0000
Subject: [PATCH 24/27] fix: LU_METRIC prints the step length at full precision

---
 include/qlpeps/algorithm/loop_update/loop_update_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlpeps/algorithm/loop_update/loop_update_impl.h b/include/qlpeps/algorithm/loop_update/loop_update_impl.h
index 1f0bd72..e8b7d11 100644
--- a/include/qlpeps/algorithm/loop_update/loop_update_impl.h
+++ b/include/qlpeps/algorithm/loop_update/loop_update_impl.h
@@ -267,7 +267,7 @@ void LoopUpdateExecutor<TenElemT, QNT>::Execute(void) {
     if (para_.emit_machine_readable_metrics) {
       std::cout << "LU_METRIC"
                 << " step=" << step
-                << " tau=" << para_.tau
+                << " tau=" << std::setprecision(15) << para_.tau
                 << " e0=" << std::setprecision(15) << sweep_result.estimated_e0
                 << " en=" << std::setprecision(15) << sweep_result.estimated_en;
       if (sweep_result.trunc_err.has_value()) {
-- 
2.43.0


From d13cef0210e0c1d8596f5537d399c5a5b6f788c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:48 +0000
Subject: [PATCH 25/27] fix: MonteCarloParams can load its start configuration
 from disk

Configuration::Load() compares the stored shape with the object's own, so loading into a
default-constructed (0x0) configuration always failed. Take the shape from the sidecar first.
---
 .../qlpeps/algorithm/vmc_update/monte_carlo_peps_params.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_params.h b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_params.h
index b9581ca..0805ce9 100644
--- a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_params.h
+++ b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_params.h
@@ -10,6 +10,7 @@
 #ifndef QLPEPS_ALGORITHM_VMC_UPDATE_VMC_OPTIMIZE_PARA_H
 #define QLPEPS_ALGORITHM_VMC_UPDATE_VMC_OPTIMIZE_PARA_H
 
+#include <fstream>                                  // std::ifstream
 #include <string>                                    // std::string
 #include <stdexcept>                                // std::runtime_error
 #include <variant>                                  // std::variant
@@ -78,6 +79,13 @@ struct MonteCarloParams {
     : total_samples(total_samples), num_warmup_sweeps(warmup_sweeps),
       sweeps_between_samples(sweeps_between), is_warmed_up(warmed_up),
       config_dump_path(config_dump_path) {
+    // Configuration::Load() needs the lattice size in advance; take it from the shape sidecar.
+    size_t rows = 0, cols = 0;
+    std::ifstream shape_ifs(config_file_path + "/configuration0.shape");
+    if (!(shape_ifs >> rows >> cols)) {
+      throw std::runtime_error("Failed to read configuration shape from: " + config_file_path);
+    }
+    initial_config = Configuration(rows, cols);
     bool success = initial_config.Load(config_file_path, 0);
     if (!success) {
       throw std::runtime_error("Failed to load configuration from: " + config_file_path);
-- 
2.43.0


From 049e283175406945cf929b43e3d174f1b258de76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:43 +0000
Subject: [PATCH 26/27] fix: amplitude-consistency warning budget is per
 measurer, not per process

---
 .../algorithm/vmc_update/monte_carlo_peps_measurer.h       | 1 +
 .../algorithm/vmc_update/monte_carlo_peps_measurer_impl.h  | 7 +++----
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer.h b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer.h
index 31840c5..d470730 100644
--- a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer.h
+++ b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer.h
@@ -398,6 +398,7 @@ class MCPEPSMeasurer : public qlten::Executor {
 
   // Psi sample tuple: (psi_mean, psi_rel_err)
   std::vector<std::pair<TenElemT, double>> psi_samples_;
+  size_t psi_warn_count_ = 0;  // warnings printed so far by this measurer
   std::vector<size_t> particle_number_samples_;
 
   std::optional<EnergyEstimate> QueryEnergyEstimate_() const;
diff --git a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
index ca5200e..e171d5e 100644
--- a/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
+++ b/include/qlpeps/algorithm/vmc_update/monte_carlo_peps_measurer_impl.h
@@ -210,7 +210,6 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
   sample_data_.PushBackRegistry(engine_.WavefuncComp().amplitude, registry_map);
   // Psi summary via dedicated API (no registry involvement)
   {
-    static size_t warn_count = 0;
     auto psi_summary = measurement_solver_.template EvaluatePsiSummary<TenElemT, QNT>(
       &engine_.State(),
       &engine_.WavefuncComp());
@@ -219,14 +218,14 @@ void MCPEPSMeasurer<TenElemT, QNT, MonteCarloSweepUpdater, MeasurementSolver, Co
 
     const bool should_print_rank =
         (!p.master_only) || (engine_.Rank() == qlten::hp_numeric::kMPIMasterRank);
-    if (p.enabled && should_print_rank && psi_summary.psi_rel_err > p.threshold && warn_count < p.max_warnings) {
-      ++warn_count;
+    if (p.enabled && should_print_rank && psi_summary.psi_rel_err > p.threshold && psi_warn_count_ < p.max_warnings) {
+      ++psi_warn_count_;
       std::cerr << "[psi_consistency] rel_err=" << std::scientific << psi_summary.psi_rel_err
           << " > threshold=" << p.threshold
           << ". Consider relaxing truncation parameters."
           << " psi_mean=" << psi_summary.psi_mean
           << "\n";
-      if (warn_count == p.max_warnings) {
+      if (psi_warn_count_ == p.max_warnings) {
         std::cerr << "[psi_consistency] reached max warnings (" << p.max_warnings <<
             ") on this rank, suppressing further messages.\n";
       }
-- 
2.43.0


From b86a405fb1dec30f59f87018f857ca048aa56d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:43 +0000
Subject: [PATCH 27/27] fix: keep the L-BFGS rollback snapshot when a rejected
 evaluation resets the history

---
 include/qlpeps/optimizer/optimizer_impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/qlpeps/optimizer/optimizer_impl.h b/include/qlpeps/optimizer/optimizer_impl.h
index 806d3db..c17a1ed 100644
--- a/include/qlpeps/optimizer/optimizer_impl.h
+++ b/include/qlpeps/optimizer/optimizer_impl.h
@@ -630,7 +630,11 @@ Optimizer<TenElemT, QNT>::IterativeOptimize(
           if (dphi0 >= 0.0) {
             if (rank_ == qlten::hp_numeric::kMPIMasterRank) {
               ++lbfgs_descent_reset_count_;
+              // The rollback snapshot belongs to the previous accepted step; it must
+              // survive in case this evaluation is rolled back below.
+              LBFGSSnapshot prev_snapshot = std::move(lbfgs_prev_snapshot_);
               ResetLBFGSState_();
+              lbfgs_prev_snapshot_ = std::move(prev_snapshot);
               search_direction = (-1.0) * current_gradient;
               dphi0 = RealInnerProduct_(current_gradient, search_direction);
             }
-- 
2.43.0

