From 1284d9e45117fcab3d890bd0839a81b9530ea254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:31 +0000
Subject: [PATCH 1/8] fix: FSMNode::Site() returned the state index instead of
 the site index

---
 include/qlmps/one_dim_tn/mpo/mpogen/fsm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
index dec4279..42c33f2 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
@@ -69,7 +69,7 @@ struct FSMNode {
   }
 
   [[nodiscard]] size_t Site(void) const {
-    return fsm_stat_idx;
+    return fsm_site_idx;
   }
 
   void SetSite(size_t site) {
-- 
2.43.0


From 7d99b54f4ad8267e0abe1ed21fd732555a138b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:31 +0000
Subject: [PATCH 2/8] fix: CoefRepr::ToString() printed the second label for
 every summand

---
 include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
index 486a437..e017a1c 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
@@ -134,7 +134,7 @@ class CoefRepr {
     } else {
       std::string symbol_string = "(";
       for (size_t i = 0; i < coef_label_list_.size(); i++) {
-        const CNumberLabel coef_label = coef_label_list_[1];
+        const CNumberLabel coef_label = coef_label_list_[i];
         if (coef_label == kIdCoefLabel) {
           symbol_string += "1";
         } else {
-- 
2.43.0


From d1546abce2c109ef84720e16ebd2ce7daa6f34b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:31 +0000
Subject: [PATCH 3/8] fix: DuoVector self-assignment deleted its elements and
 then read them

---
 include/qlmps/one_dim_tn/framework/duovector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qlmps/one_dim_tn/framework/duovector.h b/include/qlmps/one_dim_tn/framework/duovector.h
index c009fe0..9b4a25c 100644
--- a/include/qlmps/one_dim_tn/framework/duovector.h
+++ b/include/qlmps/one_dim_tn/framework/duovector.h
@@ -64,6 +64,7 @@ public:
   @param rhs A DuoVector instance.
   */
   DuoVector<ElemT> &operator=(const DuoVector<ElemT> &rhs) {
+    if (this == &rhs) { return *this; }
 //    this->DuoVector::~DuoVector();
 //    I'm no sure why above line do not work if used in the derived FiniteMPS class
     for (auto &rpelem : raw_data_) {
@@ -98,6 +99,7 @@ public:
   @param rhs A DuoVector instance.
   */
   DuoVector<ElemT> &operator=(DuoVector<ElemT> &&rhs) noexcept {
+    if (this == &rhs) { return *this; }
 //    this->DuoVector::~DuoVector();
 //    I have no idea why above line do not work if used in the derived FiniteMPS class
     for (auto &rpelem : raw_data_) {
-- 
2.43.0


From a56c5f55ba7338b33f4d15fc0e81b034c7754287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:34 +0000
Subject: [PATCH 4/8] fix: FSM::GenMatRepr dropped a repeated single-site term
 instead of summing it

---
 include/qlmps/one_dim_tn/mpo/mpogen/fsm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
index 42c33f2..2edd56f 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
@@ -275,11 +275,11 @@ inline void FSM::CastFSMPathToMatRepr_(
 
     if (fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) == kNullOpRepr) {
       fsm_mat_repr[i].SetElem(tgt_row_idx, tgt_col_idx, tgt_op);
-    } else if (fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) != tgt_op) {
+    } else if (tgt_row_fsm_node.fsm_stat_idx != tgt_col_fsm_node.fsm_stat_idx) {
       auto new_op = fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) + tgt_op;
       fsm_mat_repr[i].SetElem(tgt_row_idx, tgt_col_idx, new_op);
     } else {
-      // Do nothing
+      // Do nothing. The ready->ready and final->final identity links are shared by all the paths.
     }
   }
 }
-- 
2.43.0


From dda5289e94000cbccec097dc8c53fdbf7dca02b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:34 +0000
Subject: [PATCH 5/8] fix: MPOGenerator::AddTerm tail string started on the
 last physical operator's own site

---
 include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h b/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
index 4d1d976..232bb4c 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
@@ -221,7 +221,7 @@ void MPOGenerator<TenElemT, QNT>::AddTerm(
   local_ops_idxs.push_back(phys_ops_idxs.back());
   if (inst_ops.size() == phys_ops.size()) {
     if (inst_ops_idxs_set == kNullUintVecVec) {
-      for (size_t j = phys_ops_idxs.back(); j < N_; ++j) {
+      for (size_t j = phys_ops_idxs.back() + 1; j < N_; ++j) {
         local_ops.push_back(inst_ops.back());
         local_ops_idxs.push_back(j);
       }
-- 
2.43.0


From f3f2db046d92cbcdcba66f4fc16ab65e3d281699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:39 +0000
Subject: [PATCH 6/8] fix: CaseParamsParser accepted values of the wrong JSON
 type (floats, booleans and out-of-range numbers as integers)

---
 include/qlmps/case_params_parser.h | 45 +++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/case_params_parser.h b/include/qlmps/case_params_parser.h
index 0961f6e..9e0deff 100644
--- a/include/qlmps/case_params_parser.h
+++ b/include/qlmps/case_params_parser.h
@@ -18,6 +18,10 @@
 
 #include <iostream>
 #include <fstream>                                  // ifstream
+#include <limits>                                   // numeric_limits
+#include <string>                                   // string
+#include <type_traits>                              // is_same, is_integral
+#include <vector>                                   // vector
 
 #include "qlmps/third_party/nlohmann/json.hpp"     // json
 
@@ -250,13 +254,51 @@ class CaseParamsParserBasic {
     return TryParseStrict<std::vector<double>>(item, out_value);
   }
  private:
+  // Whether a JSON value can be read as T without any conversion. `json::get` alone would
+  // truncate floats, turn booleans into 0/1 and wrap integers which do not fit T.
+  template <typename T>
+  static bool HoldsType(const json &value, const T *) {
+    if constexpr (std::is_same<T, bool>::value) {
+      return value.is_boolean();
+    } else if constexpr (std::is_integral<T>::value) {
+      if (value.is_number_unsigned()) {
+        return value.get<unsigned long long>() <=
+            static_cast<unsigned long long>(std::numeric_limits<T>::max());
+      }
+      if (!value.is_number_integer()) return false;
+      const long long v = value.get<long long>();
+      if (v < 0) {
+        return std::is_signed<T>::value &&
+            v >= static_cast<long long>(std::numeric_limits<T>::min());
+      }
+      return static_cast<unsigned long long>(v) <=
+          static_cast<unsigned long long>(std::numeric_limits<T>::max());
+    } else if constexpr (std::is_floating_point<T>::value) {
+      return value.is_number();
+    } else {
+      return value.is_string();
+    }
+  }
+
+  template <typename T>
+  static bool HoldsType(const json &value, const std::vector<T> *) {
+    if (!value.is_array()) return false;
+    for (const auto &el : value) {
+      if (!HoldsType(el, static_cast<const T *>(nullptr))) return false;
+    }
+    return true;
+  }
+
   template <typename T>
   T StrictParse(const std::string &item, const char *expected_type_name) const {
     if (case_params_.find(item) == case_params_.end()) {
       ReportAndExitMissing(item, expected_type_name);
     }
     try {
-      return case_params_.at(item).get<T>();
+      if (HoldsType(case_params_.at(item), static_cast<T *>(nullptr))) {
+        return case_params_.at(item).get<T>();
+      }
+      ReportAndExitMissingOrInvalid(item, expected_type_name, case_params_.at(item).type_name());
     } catch (const std::exception &e) {
       const char *actual = case_params_.at(item).type_name();
       ReportAndExitMissingOrInvalid(item, expected_type_name, actual);
@@ -268,6 +310,7 @@ class CaseParamsParserBasic {
   bool TryParseStrict(const std::string &item, T &out_value) const {
     if (case_params_.find(item) == case_params_.end()) return false;
     try {
+      if (!HoldsType(case_params_.at(item), static_cast<T *>(nullptr))) return false;
       out_value = case_params_.at(item).get<T>();
       return true;
     } catch (...) {
-- 
2.43.0


From ddf4f0a945a2387c30516a20d8f577ad580760ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:08 +0000
Subject: [PATCH 7/8] fix: compressing the matrices of an FSM without any path
 dereferenced null

---
 include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
index e017a1c..8e66948 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
@@ -882,7 +882,7 @@ inline void SparOpReprMatRowCompresser(
     SparOpReprMat &target, SparOpReprMat &follower) {
   assert(target.rows == follower.cols);
   auto row_num = target.rows;
-  if (row_num == 1) { return; }
+  if (row_num <= 1) { return; }
   // Sort rows of target and transpose cols of follower.
   auto sorted_row_idxs = target.SortRows();
   follower.TransposeCols(sorted_row_idxs);
@@ -921,7 +921,7 @@ inline void SparOpReprMatColCompresser(
     SparOpReprMat &target, SparOpReprMat &follower) {
   assert(target.cols == follower.rows);
   auto col_num = target.cols;
-  if (col_num == 1) { return; }
+  if (col_num <= 1) { return; }
   // Sort cols of target and transpose rows of follower.
   auto sorted_col_idxs = target.SortCols();
   follower.TransposeRows(sorted_col_idxs);
-- 
2.43.0


From 79894acc50bea67490ea567dce03c25692c185dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:31 +0000
Subject: [PATCH 8/8] fix: TenVec::DumpTen reports a failed write instead of
 silently losing the tensor

---
 include/qlmps/one_dim_tn/framework/ten_vec.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/qlmps/one_dim_tn/framework/ten_vec.h b/include/qlmps/one_dim_tn/framework/ten_vec.h
index bf54d12..2da674a 100644
--- a/include/qlmps/one_dim_tn/framework/ten_vec.h
+++ b/include/qlmps/one_dim_tn/framework/ten_vec.h
@@ -82,8 +82,14 @@ class TenVec : public DuoVector<TenT> {
   */
   void DumpTen(const size_t idx, const std::string &file) const {
     std::ofstream ofs(file, std::ofstream::binary);
+    if (!ofs.is_open()) {
+      throw std::runtime_error("Error opening file: " + file);
+    }
     ofs << (*this)[idx];
     ofs.close();
+    if (ofs.fail()) {
+      throw std::runtime_error("Error writing file: " + file);
+    }
   }
 
   /**
@@ -99,8 +105,14 @@ class TenVec : public DuoVector<TenT> {
       const bool release_mem = false
   ) {
     std::ofstream ofs(file, std::ofstream::binary);
+    if (!ofs.is_open()) {
+      throw std::runtime_error("Error opening file: " + file);
+    }
     ofs << (*this)[idx];
     ofs.close();
+    if (ofs.fail()) {
+      throw std::runtime_error("Error writing file: " + file);
+    }
     if (release_mem) { this->dealloc(idx); }
   }
 };
-- 
2.43.0

