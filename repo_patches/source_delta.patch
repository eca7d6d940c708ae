From 287bcb509753097ec6ba64fa853a604fb05aef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:49 +0000
Subject: [PATCH 001/116] fix: swap bra and ket of bra-ket-symmetric tensors
 without column symmetry in topological canonicalization

---
 SeQuant/core/tensor_network/v3.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/tensor_network/v3.cpp b/SeQuant/core/tensor_network/v3.cpp
index b33fa16..1460c83 100644
--- a/SeQuant/core/tensor_network/v3.cpp
+++ b/SeQuant/core/tensor_network/v3.cpp
@@ -370,10 +370,11 @@ ExprPtr TensorNetworkV3::canonicalize_graph(const NamedIndexSet &named_indices,
   for (std::size_t i = 0; i < tensors_.size(); ++i) {
     AbstractTensor &tensor = *tensors_[i];
 
-    if (column_symmetry(tensor) != ColumnSymmetry::Symm) continue;
     const auto asymm = symmetry(tensor) == Symmetry::Nonsymm;
 
-    if (asymm) {  // asymmetric tensor? order column slots only
+    if (column_symmetry(tensor) != ColumnSymmetry::Symm) {
+      // columns are not interchangeable, only bra and ket bundles may be
+    } else if (asymm) {  // asymmetric tensor? order column slots only
 
       auto it = canonical_column_bundle_order.find(i);
       if (it == canonical_column_bundle_order.end()) continue;
-- 
2.43.0


From ffabd5b2619f9af61f3a46b58bbae6ffcf9f0df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:49 +0000
Subject: [PATCH 002/116] fix: keep columns with empty slots last when
 canonicalizing a nonsymmetric tensor

---
 SeQuant/core/tensor_canonicalizer.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/tensor_canonicalizer.hpp b/SeQuant/core/tensor_canonicalizer.hpp
index 7c88d34..c2bf338 100644
--- a/SeQuant/core/tensor_canonicalizer.hpp
+++ b/SeQuant/core/tensor_canonicalizer.hpp
@@ -219,7 +219,18 @@ class DefaultTensorCanonicalizer : public TensorCanonicalizer {
         auto _bra = mutable_bra_range(t);
         auto _ket = mutable_ket_range(t);
         auto _zip_braket = zip(take(_bra, _rank), take(_ket, _rank));
-        bubble_sort(begin(_zip_braket), end(_zip_braket), paircmp);
+        // columns with empty slots follow the full ones, bra-only before
+        // ket-only: this is the order of slots that Tensor maintains
+        auto column_type = [](const auto& column) {
+          const Index& b = std::get<0>(column);
+          const Index& k = std::get<1>(column);
+          return b.nonnull() ? (k.nonnull() ? 0 : 1) : 2;
+        };
+        bubble_sort(begin(_zip_braket), end(_zip_braket),
+                    [&](const auto& c1, const auto& c2) {
+                      const auto t1 = column_type(c1), t2 = column_type(c2);
+                      return t1 != t2 ? t1 < t2 : paircmp(c1, c2);
+                    });
         if (_bra_rank > _rank) {
           auto size_of_rest = _bra_rank - _rank;
           auto rest_of = counted(begin(_bra) + _rank, size_of_rest);
-- 
2.43.0


From ba89c32cc175ef8f5ab5461aadc4b386beb7e9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 003/116] fix: reset the memoized hash when a Variable is
 conjugated

---
 SeQuant/core/expressions/expr.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/expressions/expr.cpp b/SeQuant/core/expressions/expr.cpp
index a8ce238..17ee51a 100644
--- a/SeQuant/core/expressions/expr.cpp
+++ b/SeQuant/core/expressions/expr.cpp
@@ -201,7 +201,10 @@ void Variable::set_label(std::wstring label) {
   reset_hash_value();
 }
 
-void Variable::conjugate() { conjugated_ = !conjugated_; }
+void Variable::conjugate() {
+  conjugated_ = !conjugated_;
+  reset_hash_value();
+}
 
 bool Variable::conjugated() const { return conjugated_; }
 
-- 
2.43.0


From 85f08a66bcbbb350f9c090883d9cc9f263711325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:39 +0000
Subject: [PATCH 004/116] fix: fold Power summands and lone Powers when
 simplifying

---
 SeQuant/core/expressions/expr_algorithms.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SeQuant/core/expressions/expr_algorithms.cpp b/SeQuant/core/expressions/expr_algorithms.cpp
index 982f2f0..bce37f8 100644
--- a/SeQuant/core/expressions/expr_algorithms.cpp
+++ b/SeQuant/core/expressions/expr_algorithms.cpp
@@ -428,6 +428,9 @@ struct RapidSimplifyVisitor {
       return simplify_product(expr, opts);
     } else if (expr->is<Sum>()) {
       return simplify_sum(expr, opts);
+    } else if (expr->is<Power>()) {
+      Power::flatten(expr);
+      return !expr->is<Power>();
     } else
       return false;
   }
-- 
2.43.0


From 38650b526388779b881b5fa1c0106fb48f92f54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:39 +0000
Subject: [PATCH 005/116] fix: add up Constants in HashingAccumulator

---
 SeQuant/core/expressions/expr.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/SeQuant/core/expressions/expr.cpp b/SeQuant/core/expressions/expr.cpp
index 17ee51a..97521c5 100644
--- a/SeQuant/core/expressions/expr.cpp
+++ b/SeQuant/core/expressions/expr.cpp
@@ -519,6 +519,12 @@ HashingAccumulator &HashingAccumulator::append(ExprPtr summand, bool flatten) {
     } else {
       if (existing_summand.is<Product>()) {
         existing_summand.as<Product>().add_identical(summand);
+      } else if (summand.template is<Constant>()) {
+        // constants add up to a constant that may match another term
+        auto sum = ex<Constant>(existing_summand.as<Constant>().value() +
+                                summand.template as<Constant>().value());
+        summands_.erase(it);
+        this->append(std::move(sum), flatten);
       } else {
         // neither is a product - create new product
         auto product_form = std::make_shared<Product>();
-- 
2.43.0


From a10c01260ca770111bd84ac42bafd6ff8b3d63c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 006/116] fix: do not skip or overrun summands when erasing
 zeros and constants in Sum's moving ctor

---
 SeQuant/core/expressions/sum.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/SeQuant/core/expressions/sum.hpp b/SeQuant/core/expressions/sum.hpp
index 4cfcda2..9216701 100644
--- a/SeQuant/core/expressions/sum.hpp
+++ b/SeQuant/core/expressions/sum.hpp
@@ -96,7 +96,7 @@ class Sum : public Expr {
   explicit Sum(summands_type &&summands, move_only_tag)
       : summands_(std::move(summands)) {
     std::size_t pos = 0;
-    for (auto it = summands_.begin(); it != summands_.end(); ++it) {
+    for (auto it = summands_.begin(); it != summands_.end();) {
       auto &summand = *it;
       bool do_erase = false;
       if (summand->is_zero()) {
@@ -114,11 +114,11 @@ class Sum : public Expr {
 
       // erase if needed
       if (do_erase) {
-        summands_.erase(it);
-        it = summands_.begin();
-        std::advance(it, pos);
-      } else
+        it = summands_.erase(it);
+      } else {
+        ++it;
         ++pos;
+      }
     }
   }
 
-- 
2.43.0


From 72f491e501e3fa28eaee13605692a40fcee80760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 007/116] fix: reset the memoized hash in Constant's in-place
 arithmetic

---
 SeQuant/core/expressions/constant.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SeQuant/core/expressions/constant.hpp b/SeQuant/core/expressions/constant.hpp
index 9ae67a9..3b16f56 100644
--- a/SeQuant/core/expressions/constant.hpp
+++ b/SeQuant/core/expressions/constant.hpp
@@ -83,6 +83,7 @@ class Constant : public Expr {
   virtual Expr &operator*=(const Expr &that) override {
     if (that.is<Constant>()) {
       value_ *= that.as<Constant>().value();
+      reset_hash_value();
     } else {
       throw Exception("Constant::operator*=(that): not valid for that");
     }
@@ -92,6 +93,7 @@ class Constant : public Expr {
   virtual Expr &operator+=(const Expr &that) override {
     if (that.is<Constant>()) {
       value_ += that.as<Constant>().value();
+      reset_hash_value();
     } else {
       throw Exception("Constant::operator+=(that): not valid for that");
     }
@@ -101,6 +103,7 @@ class Constant : public Expr {
   virtual Expr &operator-=(const Expr &that) override {
     if (that.is<Constant>()) {
       value_ -= that.as<Constant>().value();
+      reset_hash_value();
     } else {
       throw Exception("Constant::operator-=(that): not valid for that");
     }
-- 
2.43.0


From a515f18baaf0422f8c194c0acf7ee0947871ba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 008/116] fix: allow to add a Sum to itself and to multiply a
 Product by itself

---
 SeQuant/core/expressions/product.hpp | 2 ++
 SeQuant/core/expressions/sum.hpp     | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/SeQuant/core/expressions/product.hpp b/SeQuant/core/expressions/product.hpp
index 8d9e1a6..dfe6e7c 100644
--- a/SeQuant/core/expressions/product.hpp
+++ b/SeQuant/core/expressions/product.hpp
@@ -164,6 +164,8 @@ class Product : public Expr {
       }
     } else {                             // factor is a product also ..
       if (flatten_tag != Flatten::No) {  // flatten, once or recursively
+        // N.B. multiplying this by itself: iterate over a copy
+        if (factor.get() == this) factor = this->clone();
         const auto &factor_product = factor->as<Product>();
         scalar_ *= factor_product.scalar_;
         for (auto &&subfactor : factor_product)
diff --git a/SeQuant/core/expressions/sum.hpp b/SeQuant/core/expressions/sum.hpp
index 9216701..2a1a80a 100644
--- a/SeQuant/core/expressions/sum.hpp
+++ b/SeQuant/core/expressions/sum.hpp
@@ -145,6 +145,8 @@ class Sum : public Expr {
         reset_hash_value();
       }
     } else {  // this recursively flattens Sum summands
+      // N.B. adding this to itself: iterate over a copy
+      if (summand.get() == this) summand = this->clone();
       for (auto &subsummand : *summand) this->append(subsummand);
     }
     return *this;
@@ -176,6 +178,8 @@ class Sum : public Expr {
         reset_hash_value();
       }
     } else {  // this recursively flattens Sum summands
+      // N.B. adding this to itself: iterate over a copy
+      if (summand.get() == this) summand = this->clone();
       for (auto &subsummand : *summand) this->prepend(subsummand);
     }
     return *this;
-- 
2.43.0


From 1988b20ac74c04ea09e36ac7e5d9dcab832fbe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 009/116] fix: preserve the order and scalar of a Product
 prepended to a Product

---
 SeQuant/core/expressions/product.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/expressions/product.hpp b/SeQuant/core/expressions/product.hpp
index dfe6e7c..e85b2df 100644
--- a/SeQuant/core/expressions/product.hpp
+++ b/SeQuant/core/expressions/product.hpp
@@ -14,6 +14,7 @@
 #include <range/v3/algorithm/equal.hpp>
 #include <range/v3/algorithm/for_each.hpp>
 #include <range/v3/view/filter.hpp>
+#include <range/v3/view/reverse.hpp>
 #include <range/v3/view/transform.hpp>
 
 #include <string>
@@ -238,10 +239,13 @@ class Product : public Expr {
         reset_hash_value();
       }
     } else {  // factor is a product also  ... flatten recursively
-      const auto &factor_product = factor->as<Product>();
-      scalar_ *= factor_product.scalar_;
       if (flatten_tag != Flatten::No) {  // flatten, once or recursively
-        for (auto &&subfactor : factor_product)
+        // N.B. multiplying this by itself: iterate over a copy
+        if (factor.get() == this) factor = this->clone();
+        const auto &factor_product = factor->as<Product>();
+        scalar_ *= factor_product.scalar_;
+        // prepend the last subfactor first to preserve the order of subfactors
+        for (auto &&subfactor : factor_product.factors_ | ranges::views::reverse)
           this->prepend(1, subfactor,
                         flatten_tag == Flatten::Once ? Flatten::No
                                                      : Flatten::Recursively);
-- 
2.43.0


From f10205b11133751468de1f750e6a38c4de026167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 010/116] fix: do not rely on the position of Sum's constant
 summand after it was replaced

---
 SeQuant/core/expressions/sum.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/SeQuant/core/expressions/sum.hpp b/SeQuant/core/expressions/sum.hpp
index 2a1a80a..106e365 100644
--- a/SeQuant/core/expressions/sum.hpp
+++ b/SeQuant/core/expressions/sum.hpp
@@ -131,9 +131,7 @@ class Sum : public Expr {
         if (summand->is<Constant>()) {  // add up constants
           // immediately, if possible
           auto summand_constant = summand.as_shared_ptr<Constant>();
-          if (constant_summand_idx_) {
-            SEQUANT_ASSERT(
-                summands_.at(*constant_summand_idx_)->is<Constant>());
+          if (has_constant_summand()) {
             *(summands_[*constant_summand_idx_]) += *summand;
           } else {
             summands_.push_back(summand->clone());
@@ -161,9 +159,7 @@ class Sum : public Expr {
         // exclude zeros
         if (summand->is<Constant>()) {
           auto summand_constant = summand.as_shared_ptr<Constant>();
-          if (constant_summand_idx_) {  // add up to the existing constant ...
-            SEQUANT_ASSERT(
-                summands_.at(*constant_summand_idx_)->is<Constant>());
+          if (has_constant_summand()) {  // add up to the existing constant ...
             *summands_[*constant_summand_idx_] += *summand_constant;
           } else {  // or include the nonzero constant and update
             // constant_summand_idx_
@@ -305,6 +301,14 @@ class Sum : public Expr {
       constant_summand_idx_{};  // points to the constant summand, if any; used
                                 // to sum up constants in append/prepend
 
+  /// @return true if `constant_summand_idx_` points to a constant summand
+  /// @note summands can be replaced by mutable iteration and visitors, in such
+  /// case `constant_summand_idx_` may be stale
+  bool has_constant_summand() const {
+    return constant_summand_idx_ && *constant_summand_idx_ < summands_.size() &&
+           summands_[*constant_summand_idx_]->is<Constant>();
+  }
+
   /// @return the hash of this object
   /// @note this ensures that hash of a Sum of a single summand is
   /// identical to the hash of the summand itself.
-- 
2.43.0


From 0fcc3ac0a0df0a341b1ba21a5651425f3a1bf93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:16 +0000
Subject: [PATCH 011/116] fix: find the intersection of spaces with different
 quantum numbers by the common quantum numbers

---
 SeQuant/core/index_space_registry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index a55593e..1065c70 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -620,7 +620,7 @@ class IndexSpaceRegistry {
       // check the registry
       auto intersection_type = space1.type().intersection(space2.type());
       const IndexSpace& intersection_space =
-          find_by_attr({intersection_type, space1.qns()});
+          find_by_attr({intersection_type, target_qns});
       // the nullspace is a reasonable return value for intersection
       if (intersection_space == IndexSpace::null && intersection_type) {
         throw Exception(
-- 
2.43.0


From 79bcd46772bc2b901984b94677509c36b2e6c6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 012/116] fix: give distinct names to dummies when some named
 indices are absent from the tensor network

---
 SeQuant/core/tensor_network/v1.cpp | 10 +++++++---
 SeQuant/core/tensor_network/v2.cpp |  7 ++++---
 SeQuant/core/tensor_network/v3.cpp |  7 ++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/SeQuant/core/tensor_network/v1.cpp b/SeQuant/core/tensor_network/v1.cpp
index cee3abc..3e6d1dd 100644
--- a/SeQuant/core/tensor_network/v1.cpp
+++ b/SeQuant/core/tensor_network/v1.cpp
@@ -400,10 +400,14 @@ ExprPtr TensorNetworkV1::canonicalize(
           });
 
       // make index replacement list for anonymous indices only
-      const auto num_named_indices = named_indices.size();
+      // N.B. not every named index is necessarily an edge
+      const auto first_anonymous =
+          std::find_if(begin(idx_terminals_sorted), end(idx_terminals_sorted),
+                       [&is_anonymous_index](const Edge &edge) {
+                         return is_anonymous_index(edge.idx());
+                       });
       std::for_each(
-          begin(idx_terminals_sorted) + num_named_indices,
-          end(idx_terminals_sorted),
+          first_anonymous, end(idx_terminals_sorted),
           [&idxrepl, &idxfac, &is_anonymous_index](const auto &terminals) {
             const auto &idx = terminals.idx();
             (void)is_anonymous_index;
diff --git a/SeQuant/core/tensor_network/v2.cpp b/SeQuant/core/tensor_network/v2.cpp
index a4fefd8..398c75e 100644
--- a/SeQuant/core/tensor_network/v2.cpp
+++ b/SeQuant/core/tensor_network/v2.cpp
@@ -461,9 +461,10 @@ ExprPtr TensorNetworkV2::canonicalize(
 
   // Use the new order of edges as the canonical order of indices and relabel
   // accordingly (but only anonymous indices, of course)
-  for (std::size_t i = named_indices.size(); i < edges_.size(); ++i) {
-    const Index &index = edges_[i].idx();
-    SEQUANT_ASSERT(is_anonymous_index(index));
+  // N.B. not every named index is necessarily an edge
+  for (const auto &edge : edges_) {
+    const Index &index = edge.idx();
+    if (is_named_index(index)) continue;
     Index replacement = idxfac.make(index);
     if (index != replacement) idxrepl.emplace(index, std::move(replacement));
   }
diff --git a/SeQuant/core/tensor_network/v3.cpp b/SeQuant/core/tensor_network/v3.cpp
index 1460c83..5de0a92 100644
--- a/SeQuant/core/tensor_network/v3.cpp
+++ b/SeQuant/core/tensor_network/v3.cpp
@@ -603,9 +603,10 @@ ExprPtr TensorNetworkV3::canonicalize(
 
     // Use the new order of edges as the canonical order of indices and relabel
     // accordingly (but only anonymous indices, of course)
-    for (std::size_t i = named_indices.size(); i < edges_.size(); ++i) {
-      const Index &index = edges_[i].idx();
-      SEQUANT_ASSERT(is_anonymous_index(index));
+    // N.B. not every named index is necessarily an edge
+    for (const auto &edge : edges_) {
+      const Index &index = edge.idx();
+      if (is_named_index(index)) continue;
       Index replacement = idxfac.make(index);
       if (index != replacement) idxrepl.emplace(index, std::move(replacement));
     }
-- 
2.43.0


From 523a45a7cea032fee52df0c553834d05a52de78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:21 +0000
Subject: [PATCH 013/116] fix: WickTheorem: only record partial contractions
 that make all required connections

---
 SeQuant/core/wick.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/wick.hpp b/SeQuant/core/wick.hpp
index cb4ab42..b5e05e0 100644
--- a/SeQuant/core/wick.hpp
+++ b/SeQuant/core/wick.hpp
@@ -256,7 +256,7 @@ class WickTheorem {
           nop_connections_[opidx_pair.second].reset(opidx_pair.first);
         }
       }
-      nop_nconnections_total_ = nop_connections_input_.size();
+      nop_nconnections_total_ = op_index_pairs.size();
       nop_connections_input_.clear();
     } else {
       ranges::for_each(op_index_pairs, [this](const auto &idxpair) {
@@ -953,6 +953,18 @@ class WickTheorem {
       }
     }
 
+    /// @return true if every target connection is made by the contractions
+    /// encountered so far
+    bool has_target_nop_connections(
+        const container::svector<std::bitset<max_input_size>>
+            &target_nop_connections) const {
+      for (std::size_t i = 0; i != target_nop_connections.size(); ++i) {
+        if (!(nop_connections[i] | target_nop_connections[i]).all())
+          return false;
+      }
+      return true;
+    }
+
     /// @brief Updates connectivity if contraction satisfies target connectivity
 
     /// If the target connectivity will be violated by this contraction, keep
@@ -1523,8 +1535,9 @@ class WickTheorem {
                 // if have a nonzero result ...
                 if (state.sp.size() != state.sp_initial_size) {
                   // update the result if nothing left to contract and
-                  if (!full_contractions_ ||
-                      (full_contractions_ && state.nopseq_size == 0)) {
+                  // all target connections have been made
+                  if ((!full_contractions_ || state.nopseq_size == 0) &&
+                      state.has_target_nop_connections(nop_connections_)) {
                     if (!state.count_only) {
                       // clang-format off
                       // this will include:
-- 
2.43.0


From 5eed235416520f745111403c012696b87dfdc8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 014/116] fix: WickTheorem: only permute equivalent
 interchangeable indices when using topology

---
 SeQuant/core/wick.impl.hpp | 42 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/wick.impl.hpp b/SeQuant/core/wick.impl.hpp
index 89042c6..6e84f9e 100644
--- a/SeQuant/core/wick.impl.hpp
+++ b/SeQuant/core/wick.impl.hpp
@@ -847,7 +847,13 @@ ExprPtr WickTheorem<S>::compute(const bool count_only,
           // construct graph representation of the tensor product
           using TN = TensorNetwork;
           TN tn(expr_input_->as<Product>().factors());
-          auto g = tn.create_graph({.distinct_named_indices = true});
+          // N.B. an external index may appear more than once
+          TN::NamedIndexSet named_indices = tn.ext_indices();
+          if (external_indices_)
+            named_indices.insert(external_indices_->begin(),
+                                 external_indices_->end());
+          auto g = tn.create_graph({.named_indices = &named_indices,
+                                    .distinct_named_indices = true});
           const auto &graph = g.bliss_graph;
           const auto &vlabels = g.vertex_labels;
           [[maybe_unused]] const auto &vcolors = g.vertex_colors;
@@ -1189,8 +1195,40 @@ ExprPtr WickTheorem<S>::compute(const bool count_only,
               }
               return false;
             };
+            // partitions of indices are permuted independently of each other,
+            // hence it must be possible to swap these 2 indices without
+            // permuting any other index and without a change of sign: they
+            // must be attached to the same bras/kets of the same
+            // (anti)symmetric tensors
+            auto interchangeable = [&tn_tensors](const auto &edge1,
+                                                 const auto &edge2) -> bool {
+              const auto nt = edge1.vertex_count();
+              if (nt != edge2.vertex_count() ||
+                  edge1.idx().proto_indices() != edge2.idx().proto_indices())
+                return false;
+              bool changes_sign = false;
+              for (auto i1 = 0; i1 != nt; ++i1) {
+                const auto &v1 = edge1.vertex(i1);
+                const auto symm =
+                    tn_tensors.at(v1.getTerminalIndex())->_symmetry();
+                if (v1.getOrigin() == SlotType::Aux ||
+                    symm == Symmetry::Nonsymm)
+                  return false;
+                changes_sign ^= symm == Symmetry::Antisymm;
+                bool found = false;
+                for (auto i2 = 0; i2 != nt; ++i2) {
+                  const auto &v2 = edge2.vertex(i2);
+                  found = found ||
+                          (v1.getTerminalIndex() == v2.getTerminalIndex() &&
+                           v1.getOrigin() == v2.getOrigin());
+                }
+                if (!found) return false;
+              }
+              return !changes_sign;
+            };
             const bool exclude =
-                !connected_to_bra_or_ket_of_same_symmetric_nop(edge1, edge2);
+                !connected_to_bra_or_ket_of_same_symmetric_nop(edge1, edge2) ||
+                !interchangeable(edge1, edge2);
             return exclude;
           };
 
-- 
2.43.0


From 64bf46df731abcbdefaf30dab70a0da4e8ca202d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 015/116] fix: WickTheorem: keep external indices and handle
 input sums that cancel

---
 SeQuant/core/wick.hpp      | 14 +++++++++++---
 SeQuant/core/wick.impl.hpp | 30 +++++++++++++++++++++++++++---
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/SeQuant/core/wick.hpp b/SeQuant/core/wick.hpp
index b5e05e0..4d17d06 100644
--- a/SeQuant/core/wick.hpp
+++ b/SeQuant/core/wick.hpp
@@ -637,6 +637,12 @@ class WickTheorem {
   /// @throw Exception if any of @p expr subexpressions is a Sum
   void extract_indices(const Expr &expr, bool force_external = false) const;
 
+  /// @return options for canonicalizing the input or the result (or a summand
+  /// thereof); these make sure that the external indices that appear more than
+  /// once in it (hence look like dummies) are not renamed
+  /// @param expr an expanded expression
+  CanonicalizeOptions canonicalize_options(const Expr &expr) const;
+
   /// upsizes `{nop,index}_topological_partition_`, filling new entries with
   /// zeroes noop if current size > new_size
   /// @param new_size the number of items in
@@ -1227,7 +1233,7 @@ class WickTheorem {
         if (phase != 1) summand *= ex<Constant>(phase);
         if (prefactor_) {
           summand *= prefactor_;
-          auto bp = summand->canonicalize();
+          auto bp = summand->canonicalize(canonicalize_options(*summand));
           summand *= bp;
         }
         if (!summand.template is<Product>()) {
@@ -1564,7 +1570,8 @@ class WickTheorem {
                         prefactor.template as<Product>().scale(
                             std::move(scalar_prefactor));
                         this->reduce(prefactor);
-                        auto bp = prefactor->canonicalize();
+                        auto bp = prefactor->canonicalize(
+                            canonicalize_options(*prefactor));
                         prefactor *= bp;
 
                         result.second->lock();
@@ -1602,7 +1609,8 @@ class WickTheorem {
                         if (!op->empty()) summand *= std::move(op);
                         if (state.sp_initial_size > 0) {
                           this->reduce(summand);
-                          auto bp = summand->canonicalize();
+                          auto bp = summand->canonicalize(
+                              canonicalize_options(*summand));
                           summand *= bp;
                         }
                         if (!summand.template is<Product>()) {
diff --git a/SeQuant/core/wick.impl.hpp b/SeQuant/core/wick.impl.hpp
index 6e84f9e..0047313 100644
--- a/SeQuant/core/wick.impl.hpp
+++ b/SeQuant/core/wick.impl.hpp
@@ -699,6 +699,27 @@ void WickTheorem<S>::extract_indices(const Expr &expr,
       ranges::to<container::set<Index>>;
 }
 
+template <Statistics S>
+CanonicalizeOptions WickTheorem<S>::canonicalize_options(
+    const Expr &expr) const {
+  auto result = CanonicalizeOptions::default_options();
+  if (external_indices_) {
+    auto named_indices = *external_indices_;
+    auto append_open_indices = [&named_indices](const Expr &term) {
+      for (const auto &[idx, counts] : get_used_indices_with_counts(term)) {
+        if (counts.nonproto() <= 1) named_indices.emplace(idx);
+      }
+    };
+    if (expr.is<Sum>()) {
+      for (const auto &summand : expr.as<Sum>().summands())
+        append_open_indices(*summand);
+    } else
+      append_open_indices(expr);
+    result = result.copy_and_set(std::optional(std::move(named_indices)));
+  }
+  return result;
+}
+
 template <Statistics S>
 ExprPtr WickTheorem<S>::compute(const bool count_only,
                                 const bool skip_input_canonicalization) {
@@ -740,8 +761,9 @@ ExprPtr WickTheorem<S>::compute(const bool count_only,
     if (expr_input_->is<Sum>()) {
       if (!skip_input_canonicalization) {
         // initial full canonicalization
-        canonicalize(expr_input_);
-        SEQUANT_ASSERT(!expr_input_->as<Sum>().empty());
+        canonicalize(expr_input_, canonicalize_options(*expr_input_));
+        // all summands may have cancelled
+        if (expr_input_->as<Sum>().empty()) return ex<Constant>(0);
       }
 
       // NOW disable canonicalization of normal operators
@@ -802,7 +824,9 @@ ExprPtr WickTheorem<S>::compute(const bool count_only,
     // ...
     else if (expr_input_->is<Product>()) {
       if (!skip_input_canonicalization) {  // canonicalize, unless told to skip
-        auto canon_byproduct = expr_input_->rapid_canonicalize();
+        auto canon_byproduct = expr_input_->rapid_canonicalize(
+            canonicalize_options(*expr_input_)
+                .copy_and_set(CanonicalizationMethod::Rapid));
         SEQUANT_ASSERT(
             canon_byproduct ==
             nullptr);  // canonicalization of Product always returns nullptr
-- 
2.43.0


From 8da5f601f129a7f1a438dd784822bea331ed7d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 016/116] fix: do not parse names that start with inf or nan as
 numbers

---
 SeQuant/core/io/serialization/v1/deserialize.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/io/serialization/v1/deserialize.cpp b/SeQuant/core/io/serialization/v1/deserialize.cpp
index f8e8ff7..314548c 100644
--- a/SeQuant/core/io/serialization/v1/deserialize.cpp
+++ b/SeQuant/core/io/serialization/v1/deserialize.cpp
@@ -89,7 +89,20 @@ auto name_def         = x3::lexeme[
                             x3::unicode::alpha >> -( *(word_components >> &word_components) >> (word_components - '_') )
                         ];
 
-auto number_def       = x3::double_ >> -('/' >> x3::double_);
+// "inf" and "nan" are (the beginning of) names rather than numbers
+struct finite_real_policies : x3::real_policies<double> {
+  template <typename Iterator, typename Attribute>
+  static bool parse_nan(Iterator &, const Iterator &, Attribute &) {
+    return false;
+  }
+  template <typename Iterator, typename Attribute>
+  static bool parse_inf(Iterator &, const Iterator &, Attribute &) {
+    return false;
+  }
+};
+const x3::real_parser<double, finite_real_policies> real_number{};
+
+auto number_def       = real_number >> -('/' >> real_number);
 
 auto variable_def     = x3::lexeme[name >> -(x3::lit('^') >> '*' >> x3::attr(true))];
 
-- 
2.43.0


From 4c05ce072b982c709570b6ff6a708c9b89068966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 017/116] fix: allow an apostrophe in the label of an index
 space when parsing
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The label of the complementary auxiliary space (α') could not be read back
---
 SeQuant/core/io/serialization/v1/deserialize.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SeQuant/core/io/serialization/v1/deserialize.cpp b/SeQuant/core/io/serialization/v1/deserialize.cpp
index 314548c..02325be 100644
--- a/SeQuant/core/io/serialization/v1/deserialize.cpp
+++ b/SeQuant/core/io/serialization/v1/deserialize.cpp
@@ -108,6 +108,7 @@ auto variable_def     = x3::lexeme[name >> -(x3::lit('^') >> '*' >> x3::attr(tru
 
 auto index_name       = +(  x3::unicode::alpha | x3::unicode::char_(L'⁺') | x3::unicode::char_(L'⁻') | x3::unicode::char_(L'̃')
                           | x3::unicode::char_(L'↑') | x3::unicode::char_(L'↓')
+                          | x3::unicode::char_(L'\'')
                          );
 
 auto index_label_def  = x3::lexeme[
-- 
2.43.0


From 661f1bc140ef8e0b7a3538444d1878aa00ab59d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 018/116] fix: parse a -3 as a difference rather than as a
 product

---
 SeQuant/core/io/serialization/v1/deserialize.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/io/serialization/v1/deserialize.cpp b/SeQuant/core/io/serialization/v1/deserialize.cpp
index 02325be..f98e81c 100644
--- a/SeQuant/core/io/serialization/v1/deserialize.cpp
+++ b/SeQuant/core/io/serialization/v1/deserialize.cpp
@@ -143,7 +143,9 @@ auto nullary          = number | tensor | variable;
 
 auto grouped          = power | '(' > sum > ')' | nullary;
 
-auto product_def      = grouped % -x3::lit('*');
+// The sign of a factor requires an explicit multiplication, as a -3 is a
+// difference
+auto product_def      = grouped % (x3::lit('*') | !(x3::lit('+') | x3::lit('-')));
 
 auto first_addend     = (('-' >> x3::attr(-1) | -x3::lit('+') >> x3::attr(1)) >> product)[actions::process_addend{}];
 
-- 
2.43.0


From 178ae5c484cc880ff960aa3091b807f7f1172cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 019/116] fix: serialize a Product without factors as its
 scalar

---
 SeQuant/core/io/serialization/v1/serialize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/io/serialization/v1/serialize.cpp b/SeQuant/core/io/serialization/v1/serialize.cpp
index 3b4f56c..1b5f415 100644
--- a/SeQuant/core/io/serialization/v1/serialize.cpp
+++ b/SeQuant/core/io/serialization/v1/serialize.cpp
@@ -166,7 +166,7 @@ std::wstring to_string(Product const& prod,
   std::wstring serialized;
 
   const auto& scal = prod.scalar();
-  if (scal != Product::scalar_type{1}) {
+  if (scal != Product::scalar_type{1} || prod.empty()) {
     serialized += details::serialize_scalar(scal, options) + L" ";
   }
 
-- 
2.43.0


From 0540b25c02b0ea209ee9844624d69014c88c0992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 020/116] fix: serialize an empty Sum as 0

---
 SeQuant/core/io/serialization/v1/serialize.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SeQuant/core/io/serialization/v1/serialize.cpp b/SeQuant/core/io/serialization/v1/serialize.cpp
index 1b5f415..fdf3d54 100644
--- a/SeQuant/core/io/serialization/v1/serialize.cpp
+++ b/SeQuant/core/io/serialization/v1/serialize.cpp
@@ -193,6 +193,9 @@ std::wstring to_string(Product const& prod,
 }
 
 std::wstring to_string(Sum const& sum, const SerializationOptions& options) {
+  // zero terms are not stored, hence a sum can be empty
+  if (sum.empty()) return L"0";
+
   std::wstring serialized;
 
   for (std::size_t i = 0; i < sum.size(); ++i) {
-- 
2.43.0


From 21dd6cd1c4bae3c995a75f2cd5664a7eaee788ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 021/116] fix: do not serialize a nested Sum twice

---
 SeQuant/core/io/serialization/v1/serialize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/io/serialization/v1/serialize.cpp b/SeQuant/core/io/serialization/v1/serialize.cpp
index fdf3d54..f919faf 100644
--- a/SeQuant/core/io/serialization/v1/serialize.cpp
+++ b/SeQuant/core/io/serialization/v1/serialize.cpp
@@ -207,7 +207,7 @@ std::wstring to_string(Sum const& sum, const SerializationOptions& options) {
 
     bool is_negative = false;
     if (parenthesize) {
-      current_serialized += L"(" + current_serialized + L")";
+      current_serialized = L"(" + current_serialized + L")";
     } else {
       is_negative = current_serialized.front() == L'-';
     }
-- 
2.43.0


From b0895bdfa6675dba49f728c755f823c9374d2e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 022/116] fix: parse integers and their ratios exactly

they lost digits by going through double; division by zero is reported as a SerializationError
---
 .../io/serialization/v1/ast_conversions.hpp   | 55 +++++++++++++++++--
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/SeQuant/core/io/serialization/v1/ast_conversions.hpp b/SeQuant/core/io/serialization/v1/ast_conversions.hpp
index 22e761c..367c617 100644
--- a/SeQuant/core/io/serialization/v1/ast_conversions.hpp
+++ b/SeQuant/core/io/serialization/v1/ast_conversions.hpp
@@ -20,6 +20,7 @@
 #include <range/v3/algorithm/find.hpp>
 
 #include <algorithm>
+#include <optional>
 #include <string>
 #include <tuple>
 #include <variant>
@@ -212,9 +213,53 @@ ColumnSymmetry to_column_symmetry(char c, std::size_t offset, const Iterator &,
       std::string("Invalid particle symmetry specifier '") + c + "'");
 }
 
+/// @return the value of a number given as an integer or as a ratio of integers,
+/// read from the input to not lose the digits that do not fit into a double;
+/// nothing, if it was given in another way
+template <typename PositionCache, typename Iterator>
+std::optional<::sequant::rational> to_exact_rational(
+    const io::serialization::v1::ast::Number &number,
+    const PositionCache &position_cache, const Iterator &begin) {
+  // numbers introduced by the parser (signs) are not part of the input
+  if (number.id_first < 0) return std::nullopt;
+
+  std::string parts[2];
+  std::size_t npart = 0;
+  for (auto c : position_cache.position_of(number)) {
+    if (c == '/' && npart == 0) {
+      ++npart;
+    } else if ((c >= '0' && c <= '9') || c == '-') {
+      parts[npart].push_back(static_cast<char>(c));
+    } else if (c != '+' && c != ' ' && !(c >= '\t' && c <= '\r')) {
+      return std::nullopt;
+    }
+  }
+
+  using integer = decltype(numerator(std::declval<::sequant::rational>()));
+  auto to_integer = [](const std::string &digits) {
+    // N.B. leading zeros would request base 8
+    const bool negative = digits.starts_with('-');
+    const auto first = digits.find_first_not_of("-0");
+    integer value(first == std::string::npos ? "0" : digits.substr(first));
+    return negative ? integer(-value) : value;
+  };
+
+  const integer num = to_integer(parts[0]);
+  const integer denom = npart == 0 ? integer(1) : to_integer(parts[1]);
+  if (denom == 0) {
+    auto [offset, length] = get_pos(number, position_cache, begin);
+    throw SerializationError(offset, length, "Division by zero");
+  }
+  return ::sequant::rational(num, denom);
+}
+
 template <typename PositionCache, typename Iterator>
 Constant to_constant(const io::serialization::v1::ast::Number &number,
-                     const PositionCache &, const Iterator &) {
+                     const PositionCache &position_cache,
+                     const Iterator &begin) {
+  if (auto exact = to_exact_rational(number, position_cache, begin)) {
+    return Constant(std::move(*exact));
+  }
   if (static_cast<std::int64_t>(number.numerator) == number.numerator &&
       static_cast<std::int64_t>(number.denominator) == number.denominator) {
     // Integer fraction
@@ -373,9 +418,11 @@ struct Transformer {
           "Power exponent must be a rational number (integer numerator and "
           "denominator)");
     }
-    sequant::rational exponent(
-        static_cast<std::int64_t>(power.exponent.numerator),
-        static_cast<std::int64_t>(power.exponent.denominator));
+    sequant::rational exponent =
+        to_exact_rational(power.exponent, position_cache.get(), begin.get())
+            .value_or(sequant::rational(
+                static_cast<std::int64_t>(power.exponent.numerator),
+                static_cast<std::int64_t>(power.exponent.denominator)));
 
     auto pw = ex<Power>(std::move(base), std::move(exponent));
     if (power.conjugated) {
-- 
2.43.0


From 9a20e9b352cb7143c26b4a2e045814fbe90568bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 023/116] fix: parse names of more than one character followed
 by _{

---
 SeQuant/core/io/serialization/v1/deserialize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/io/serialization/v1/deserialize.cpp b/SeQuant/core/io/serialization/v1/deserialize.cpp
index f98e81c..d99d045 100644
--- a/SeQuant/core/io/serialization/v1/deserialize.cpp
+++ b/SeQuant/core/io/serialization/v1/deserialize.cpp
@@ -86,7 +86,7 @@ auto word_components = x3::unicode::alnum
 // underscores, but can not end with an underscore (to not confuse the parser
 // with tensors á la t_{…}^{…}.
 auto name_def         = x3::lexeme[
-                            x3::unicode::alpha >> -( *(word_components >> &word_components) >> (word_components - '_') )
+                            x3::unicode::alpha >> *( (word_components - '_') | (x3::char_('_') >> &(*x3::lit('_') >> (word_components - '_'))) )
                         ];
 
 // "inf" and "nan" are (the beginning of) names rather than numbers
-- 
2.43.0


From 3118660f6490c06b85f719f5384034315f3b7845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:36 +0000
Subject: [PATCH 024/116] fix: update net ranks of Tensor in set_bra and
 set_ket

---
 SeQuant/core/expressions/tensor.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SeQuant/core/expressions/tensor.hpp b/SeQuant/core/expressions/tensor.hpp
index 07b3b7d..0a96cc9 100644
--- a/SeQuant/core/expressions/tensor.hpp
+++ b/SeQuant/core/expressions/tensor.hpp
@@ -552,12 +552,16 @@ class Tensor : public Expr, public AbstractTensor, public MutatableLabeled {
   const auto &bra() const { return bra_; }
   void set_bra(index_container_type indices) {
     bra_ = sequant::bra(std::move(indices));
+    bra_net_rank_ = ranges::count_if(
+        bra_, [](const Index &idx) { return static_cast<bool>(idx); });
     reset_hash_value();
   }
   /// @return the ket slot range (empty slots are occupied by null indices)
   const auto &ket() const { return ket_; }
   void set_ket(index_container_type indices) {
     ket_ = sequant::ket(std::move(indices));
+    ket_net_rank_ = ranges::count_if(
+        ket_, [](const Index &idx) { return static_cast<bool>(idx); });
     reset_hash_value();
   }
   /// @return the aux slot range (empty slots are occupied by null indices)
-- 
2.43.0


From a333c493eaa557ac5c556fe7a46eb373620f14ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:36 +0000
Subject: [PATCH 025/116] fix: reset the memoized hash of NormalOperator in
 erase and insert

---
 SeQuant/core/op.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeQuant/core/op.hpp b/SeQuant/core/op.hpp
index 5225429..db71f49 100644
--- a/SeQuant/core/op.hpp
+++ b/SeQuant/core/op.hpp
@@ -695,6 +695,7 @@ class NormalOperator : public Operator<S>,
   iterator erase(const_iterator it) {
     if (it->action() == Action::Create) --ncreators_;
     if (hug_) hug_->erase(it - begin(), *it);
+    this->reset_hash_value();
     return Operator<S>::erase(it);
   }
 
@@ -703,6 +704,7 @@ class NormalOperator : public Operator<S>,
   iterator insert(const_iterator it, T &&value) {
     if (value.action() == Action::Create) ++ncreators_;
     auto result = Operator<S>::insert(it, std::forward<T>(value));
+    this->reset_hash_value();
     if (hug_) hug_->insert(result - begin(), *result);
     return result;
   }
-- 
2.43.0


From b5226efe81ac6b8209815dfcc2e59dc4bf8b962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:02 +0000
Subject: [PATCH 026/116] fix: reset the Hugenholtz vertex of NormalOperator
 when its indices are replaced

---
 SeQuant/core/op.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/op.hpp b/SeQuant/core/op.hpp
index db71f49..0466b55 100644
--- a/SeQuant/core/op.hpp
+++ b/SeQuant/core/op.hpp
@@ -737,7 +737,10 @@ class NormalOperator : public Operator<S>,
     ranges::for_each(*this, [&](auto &&op) {
       if (op.index().transform(index_map)) mutated = true;
     });
-    if (mutated) this->reset_hash_value();
+    if (mutated) {
+      this->reset_hash_value();
+      hug_.reset();  // replacements can change the types of ops
+    }
     return mutated;
   }
 
@@ -937,12 +940,14 @@ class NormalOperator : public Operator<S>,
 
   AbstractTensor::any_view_randsz _bra_mutable() override final {
     this->reset_hash_value();
+    hug_.reset();
     return ranges::views::counted(this->rbegin(), nannihilators()) |
            ranges::views::transform(
                [](auto &&op) -> Index & { return op.index(); });
   }
   AbstractTensor::any_view_randsz _ket_mutable() override final {
     this->reset_hash_value();
+    hug_.reset();
     return ranges::views::counted(this->begin(), ncreators()) |
            ranges::views::transform(
                [](auto &&op) -> Index & { return op.index(); });
-- 
2.43.0


From ebbe3719c4914a544da46ef4497f4d5039ca164c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 027/116] fix: do not assume that slots are contiguous when
 typesetting unpaired slots

---
 SeQuant/core/expressions/abstract_tensor.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/SeQuant/core/expressions/abstract_tensor.hpp b/SeQuant/core/expressions/abstract_tensor.hpp
index c70256a..d3d809c 100644
--- a/SeQuant/core/expressions/abstract_tensor.hpp
+++ b/SeQuant/core/expressions/abstract_tensor.hpp
@@ -444,9 +444,8 @@ inline std::wstring to_latex_tensor(
 
   // loop over left-aligned unpaired slots, if left_align==false
   if (!left_align && num_unpaired) {
-    auto* unpaired_indices = unpaired_type == SlotType::Bra
-                                 ? &bra[0]
-                                 : &ket[0];  // bra/ket are contiguous
+    // N.B. bra/ket are not contiguous in general
+    auto& unpaired_indices = unpaired_type == SlotType::Bra ? bra : ket;
     for (; col != num_unpaired; ++col) {
       result += L"*^";
       if ((bkt == BraKetTypesetting::BraSuper &&
@@ -486,9 +485,8 @@ inline std::wstring to_latex_tensor(
 
   // loop over right-aligned unpaired slots, if left_align==true
   if (left_align && num_unpaired) {
-    auto* unpaired_indices = unpaired_type == SlotType::Bra
-                                 ? &bra[0]
-                                 : &ket[0];  // bra/ket are contiguous
+    // N.B. bra/ket are not contiguous in general
+    auto& unpaired_indices = unpaired_type == SlotType::Bra ? bra : ket;
     for (; col != braket_rank_max; ++col) {
       result += L"*^";
       if ((bkt == BraKetTypesetting::BraSuper &&
-- 
2.43.0


From 4af71934a370e90b1a8b4baed85c4bee6892364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 028/116] fix: NormalOperators commute only if contractions are
 impossible in either order and they do not anticommute

---
 SeQuant/core/op.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/op.hpp b/SeQuant/core/op.hpp
index 0466b55..e8ae545 100644
--- a/SeQuant/core/op.hpp
+++ b/SeQuant/core/op.hpp
@@ -829,11 +829,15 @@ class NormalOperator : public Operator<S>,
           op_that.vacuum()) {  // can only check commutativity for same vacua
         for (auto &&op_l : *this) {
           for (auto &&op_r : op_that) {
-            if (can_contract(op_l, op_r)) {
+            if (can_contract(op_l, op_r) || can_contract(op_r, op_l)) {
               return false;
             }
           }
         }
+        // 2 strings with odd number of fermionic ops each anticommute
+        if (S == Statistics::FermiDirac && this->size() % 2 == 1 &&
+            op_that.size() % 2 == 1)
+          result = false;
       } else {  // NormalOperators for different vacua do not commute
         result = false;
       }
-- 
2.43.0


From 0fff74f01f43d9f352c489da94b4aa151dbbfc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 029/116] fix: single_term_opt of products of scalars with
 fewer than 2 tensors

optimize() read past the end of an empty evaluation stack (no tensors) or took
a Tensor for a Product (1 tensor) if there were 3 or more factors.
---
 SeQuant/core/optimize/single_term.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/optimize/single_term.hpp b/SeQuant/core/optimize/single_term.hpp
index a793f41..ea15606 100644
--- a/SeQuant/core/optimize/single_term.hpp
+++ b/SeQuant/core/optimize/single_term.hpp
@@ -198,11 +198,13 @@ ExprPtr single_term_opt(
   using ranges::views::filter;
   using ranges::views::reverse;
 
-  if (prod.factors().size() < 3)
-    return ex<Product>(Product{prod.scalar(), prod.factors().begin(),
-                               prod.factors().end(), Product::Flatten::No});
   auto const tensors =
       prod | filter(&ExprPtr::template is<Tensor>) | ranges::to_vector;
+  // with fewer than 2 tensors there is nothing to parenthesize, no matter how
+  // many scalar factors there are
+  if (prod.factors().size() < 3 || tensors.size() < 2)
+    return ex<Product>(Product{prod.scalar(), prod.factors().begin(),
+                               prod.factors().end(), Product::Flatten::No});
   auto seq = detail::single_term_opt<Metric>(
       TensorNetwork{tensors}, std::forward<IdxToSz>(idxsz), subnet_cse, cost,
       is_batchable_index, batch_target_size, inner_pow, batch_persistent_only);
-- 
2.43.0


From dbc1e45b47d9bb8c91c48b7ed0c0dd96da84636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 030/116] fix: get_unique_indices counted empty slots of a
 tensor as indices

optimize() of a product with a nested factor that holds a tensor with an empty
slot failed.
---
 SeQuant/core/utility/indices.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeQuant/core/utility/indices.hpp b/SeQuant/core/utility/indices.hpp
index f25b1ec..03112cc 100644
--- a/SeQuant/core/utility/indices.hpp
+++ b/SeQuant/core/utility/indices.hpp
@@ -146,6 +146,7 @@ IndexGroups<Container> get_unique_indices(const Tensor& tensor) {
   std::set<Index> encounteredIndices;
 
   for (const Index& current : tensor.bra()) {
+    if (!current.nonnull()) continue;  // empty slots hold no index
     if (encounteredIndices.find(current) == encounteredIndices.end()) {
       groups.bra.push_back(current);
       encounteredIndices.insert(current);
@@ -157,6 +158,7 @@ IndexGroups<Container> get_unique_indices(const Tensor& tensor) {
   }
 
   for (const Index& current : tensor.ket()) {
+    if (!current.nonnull()) continue;  // empty slots hold no index
     if (encounteredIndices.find(current) == encounteredIndices.end()) {
       groups.ket.push_back(current);
       encounteredIndices.insert(current);
-- 
2.43.0


From b4a8125384e68ba9107adf269aab0f9164e2e8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 031/116] fix: binarize of sums of braket-symmetric tensors

Leaves of such tensors may have their bra and ket exchanged; the result of a sum
took over that orientation and could then not be contracted with other factors.
---
 SeQuant/core/eval/eval_expr.cpp | 37 ++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/eval/eval_expr.cpp b/SeQuant/core/eval/eval_expr.cpp
index bf77ec1..de760c2 100644
--- a/SeQuant/core/eval/eval_expr.cpp
+++ b/SeQuant/core/eval/eval_expr.cpp
@@ -356,6 +356,22 @@ IndexSet all_indices(ExprPtr const& expr) {
   return result;
 }
 
+///
+/// \brief Collect the indices found in the bra and ket slots of \p expr.
+///
+void braket_indices(IndexSet& bra, IndexSet& ket, ExprPtr const& expr) {
+  if (!expr) return;
+  if (expr->is<Tensor>()) {
+    for (auto&& ix : expr->as<Tensor>().bra())
+      if (ix.nonnull()) bra.emplace(ix);
+    for (auto&& ix : expr->as<Tensor>().ket())
+      if (ix.nonnull()) ket.emplace(ix);
+  } else if (expr->is<Sum>() && !expr->empty())
+    braket_indices(bra, ket, expr->front());
+  else if (expr->is<Product>())
+    for (auto&& fac : *expr) braket_indices(bra, ket, fac);
+}
+
 ///
 /// \brief Collect tensors appearing as a factor at the leaf node of a product
 ///        sub-tree, or, at the root node of a sum sub-tree.
@@ -449,17 +465,32 @@ EvalExprNode binarize(Sum const& sum, IndexSet const& uncontract,
 
   auto hvals = summands | transform([](auto&& n) { return n->hash_value(); });
 
+  // The bra and ket of a summand may have been exchanged if they contain a
+  // braket-symmetric tensor (leaves are block-canonicalized). The result of the
+  // sum is a plain tensor that enters other products as a factor, so restore
+  // the orientation of its indices in the input.
+  IndexSet in_bra, in_ket;
+  if (all_tensors && !sum.empty())
+    braket_indices(in_bra, in_ket, sum.summand(0));
+
   auto make_sum = [i = 0,                    //
                    hs = imed_hashes(hvals),  //
-                   all_tensors, &opts](EvalExpr const& left,
-                                       EvalExpr const&) mutable -> EvalExpr {
+                   all_tensors, &in_bra, &in_ket,
+                   &opts](EvalExpr const& left,
+                          EvalExpr const&) mutable -> EvalExpr {
     auto h = ranges::at(hs, ++i);
     if (all_tensors) {
       auto const& t = left.as_tensor();
+      IndexVec b, k;
+      for (auto&& ix : t.bra())
+        (in_ket.contains(ix) && !in_bra.contains(ix) ? k : b).emplace_back(ix);
+      for (auto&& ix : t.ket())
+        (in_bra.contains(ix) && !in_ket.contains(ix) ? b : k).emplace_back(ix);
       return {
           EvalOp::Sum,         //
           ResultType::Tensor,  //
-          detail::make_tensor_wo_symmetries(opts, bra(t.bra()), ket(t.ket()),
+          detail::make_tensor_wo_symmetries(opts, bra(std::move(b)),
+                                            ket(std::move(k)),
                                             aux(t.aux())),  //
           left.canon_indices(),                             //
           1,                                                //
-- 
2.43.0


From 537731fbbeb79c6ca5b3cb7a0fdc4b79a077cde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 032/116] fix: the optimizer counted the empty slots of tensors
 as an index

---
 SeQuant/core/optimize/single_term_detail.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/SeQuant/core/optimize/single_term_detail.hpp b/SeQuant/core/optimize/single_term_detail.hpp
index 5e4c5f6..e26b844 100644
--- a/SeQuant/core/optimize/single_term_detail.hpp
+++ b/SeQuant/core/optimize/single_term_detail.hpp
@@ -262,7 +262,7 @@ inline container::vector<Index> batchable_index_list(
   for (auto&& t : network.tensors()) {
     auto tp = std::dynamic_pointer_cast<Tensor>(t);
     for (auto&& ix : ranges::views::concat(tp->bra(), tp->ket(), tp->aux()))
-      if (is_batchable(ix) && ranges::find(aux, ix) == ranges::end(aux))
+      if (ix.nonnull() && is_batchable(ix) && ranges::find(aux, ix) == ranges::end(aux))
         aux.push_back(ix);
   }
   return aux;
@@ -372,9 +372,13 @@ void init_results(TensorNetwork const& network, TIdxs const& tidxs,
                   container::vector<OptRes>& results,
                   container::vector<char> const* connected = nullptr) {
   using IndexContainer = decltype(OptRes::indices);
-  auto tensor_indices = network.tensors()          //
-                        | ranges::views::indirect  //
-                        | ranges::views::transform(slots);
+  // empty slots of tensors have no extent: skip the null indices in them
+  container::vector<container::svector<Index>> tensor_indices;
+  tensor_indices.reserve(network.tensors().size());
+  for (auto&& t : network.tensors())
+    tensor_indices.emplace_back(slots(*t) |
+                                ranges::views::filter(&Index::nonnull) |
+                                ranges::to<container::svector<Index>>);
   auto imed_indices = subset_target_indices(tensor_indices, tidxs, connected);
   SEQUANT_ASSERT(ranges::distance(imed_indices) == ranges::distance(results));
   for (size_t i = 0; i < results.size(); ++i) {
-- 
2.43.0


From 519c55a428698ec56eeff5e95b099b7dd912e203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 033/116] fix: evaluating a sum of trees added up into the data
 of the cache or of the leaves

---
 SeQuant/core/eval/eval.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SeQuant/core/eval/eval.hpp b/SeQuant/core/eval/eval.hpp
index 96e3ffb..fab1d41 100644
--- a/SeQuant/core/eval/eval.hpp
+++ b/SeQuant/core/eval/eval.hpp
@@ -862,6 +862,9 @@ ResultPtr evaluate(Nodes const& nodes,  //
   for (auto&& n : nodes) {
     if (!result) {
       result = evaluate<EvalTrace>(n, layout, le, cache);
+      // the accumulator must not share its data with the cache or with the
+      // leaf evaluator
+      if (result.use_count() > 1) result = result->mult_by_phase(1);
       continue;
     }
 
-- 
2.43.0


From 254351a826a460c91536ecfdfb29e1bf004fcdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 034/116] fix: sums as factors of a contraction were told apart
 by neither slots nor identity, so different contractions shared a cache entry

---
 SeQuant/core/eval/eval_expr.cpp         | 30 +++++++++++++++++++--
 SeQuant/core/eval/eval_node_compare.hpp | 35 +++++++++++++++++++++++++
 2 files changed, 63 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/eval/eval_expr.cpp b/SeQuant/core/eval/eval_expr.cpp
index de760c2..5642e7c 100644
--- a/SeQuant/core/eval/eval_expr.cpp
+++ b/SeQuant/core/eval/eval_expr.cpp
@@ -16,6 +16,7 @@
 
 #include <range/v3/algorithm/all_of.hpp>
 #include <range/v3/algorithm/any_of.hpp>
+#include <range/v3/algorithm/contains.hpp>
 #include <range/v3/functional/not_fn.hpp>
 #include <range/v3/range/operations.hpp>
 #include <range/v3/view/filter.hpp>
@@ -372,6 +373,30 @@ void braket_indices(IndexSet& bra, IndexSet& ket, ExprPtr const& expr) {
     for (auto&& fac : *expr) braket_indices(bra, ket, fac);
 }
 
+///
+/// \brief Represents the result of a sum as a factor of a tensor network.
+///
+/// The value of a sum, as a function of its slots, must not depend on the names
+/// of indices, hence the slots are ordered like its canonical indices. Different
+/// sums must be told apart, hence the label.
+///
+ExprPtr sum_as_factor(EvalExprNode const& node) {
+  auto const& t = node->as_tensor();
+  IndexVec b, k, a;
+  for (auto&& ix : node->canon_indices()) {
+    if (ranges::contains(t.bra(), ix))
+      b.emplace_back(ix);
+    else if (ranges::contains(t.ket(), ix))
+      k.emplace_back(ix);
+    else
+      a.emplace_back(ix);
+  }
+  return ex<Tensor>(std::wstring(t.label()) + std::to_wstring(node->hash_value()),
+                    bra(std::move(b)), ket(std::move(k)), aux(std::move(a)),
+                    Symmetry::Nonsymm, BraKetSymmetry::Nonsymm,
+                    ColumnSymmetry::Nonsymm);
+}
+
 ///
 /// \brief Collect tensors appearing as a factor at the leaf node of a product
 ///        sub-tree, or, at the root node of a sum sub-tree.
@@ -388,8 +413,9 @@ void collect_tensor_factors(EvalExprNode const& node,  //
     // enters a parent Product as a single factor — the parent shouldn't
     // try to recurse past the Adjoint boundary, just collect the adjointed
     // tensor (held in node->expr()) and move on.
-    collect.emplace_back(
-        ExprWithHash{.expr = node->expr(), .hash = node->hash_value()});
+    collect.emplace_back(ExprWithHash{
+        .expr = op == EvalOp::Sum ? sum_as_factor(node) : node->expr(),
+        .hash = node->hash_value()});
   else if (node->op_type() == EvalOp::Product && !node.leaf()) {
     collect_tensor_factors(node.left(), collect);
     collect_tensor_factors(node.right(), collect);
diff --git a/SeQuant/core/eval/eval_node_compare.hpp b/SeQuant/core/eval/eval_node_compare.hpp
index 5ac2ae8..ef23cdf 100644
--- a/SeQuant/core/eval/eval_node_compare.hpp
+++ b/SeQuant/core/eval/eval_node_compare.hpp
@@ -6,8 +6,10 @@
 #include <SeQuant/core/utility/tensor.hpp>
 #include <SeQuant/external/bliss/graph.hh>
 
+#include <algorithm>
 #include <cstddef>
 #include <unordered_map>
+#include <utility>
 
 namespace sequant {
 
@@ -110,6 +112,19 @@ struct TreeNodeEqualityComparator {
     }
 
     if (!lhs.leaf()) {
+      // The canonical indices of a node with connectivity graph are fixed by
+      // that graph. Otherwise (sums, scaled tensors) how the indices and the
+      // phase of this node relate to those of its operands is part of its
+      // identity: A_ij + B_ij is not A_ij + B_ji.
+      if (!lhs->has_connectivity_graph() &&
+          (operand_phases(lhs) != operand_phases(rhs) ||
+           operand_positions(lhs, lhs.left()) !=
+               operand_positions(rhs, rhs.left()) ||
+           operand_positions(lhs, lhs.right()) !=
+               operand_positions(rhs, rhs.right()))) {
+        return false;
+      }
+
       // Note: We're assuming that the assignment of a subtree into left and
       // right is made consistently (canonical) and hence we don't compare
       // left with right
@@ -125,6 +140,26 @@ struct TreeNodeEqualityComparator {
   }
 
  private:
+  /// @return phases that turn the canonical values of the operands of @p node
+  /// into its canonical value; for products only the overall phase matters
+  static std::pair<int, int> operand_phases(const TreeNode &node) {
+    const int left = node->canon_phase() * node.left()->canon_phase();
+    const int right = node.right()->canon_phase();
+    if (node->is_sum()) return {left, node->canon_phase() * right};
+    return {left * right, 1};
+  }
+
+  /// @return positions of the canonical indices of @p node among those of its
+  /// operand @p operand
+  static std::vector<std::ptrdiff_t> operand_positions(
+      const TreeNode &node, const TreeNode &operand) {
+    std::vector<std::ptrdiff_t> result;
+    const auto &indices = operand->canon_indices();
+    for (const Index &idx : node->canon_indices())
+      result.push_back(std::ranges::find(indices, idx) - indices.begin());
+    return result;
+  }
+
   IndexSpecificTensorBlockEqualComparator block_comparator_;
 };
 
-- 
2.43.0


From 6d1ba7e39c3225c7dc7d8b1770396d92b2576b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 035/116] fix: block canonicalization of antisymmetric leaves
 changed the sign of evaluation trees

---
 SeQuant/core/eval/eval_expr.cpp | 46 ++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/eval/eval_expr.cpp b/SeQuant/core/eval/eval_expr.cpp
index 5642e7c..fca587e 100644
--- a/SeQuant/core/eval/eval_expr.cpp
+++ b/SeQuant/core/eval/eval_expr.cpp
@@ -428,6 +428,41 @@ EvalExprNode binarize(Variable const& v) { return EvalExprNode{EvalExpr{v}}; }
 
 EvalExprNode binarize(Power const& p) { return EvalExprNode{EvalExpr{p}}; }
 
+namespace {
+
+///
+/// \brief Makes a node for a tensor that is the negative of \p node
+/// \param t The tensor, as it appears in the input
+///
+EvalExprNode negate(EvalExprNode node, Tensor const& t) {
+  EvalExprNode minus_one{EvalExpr{Constant{-1}}};
+  auto h = node->hash_value();
+  hash::combine(h, minus_one->hash_value());
+  EvalExpr result{EvalOp::Product,        //
+                  ResultType::Tensor,     //
+                  t.clone(),              //
+                  node->canon_indices(),  //
+                  1,                      //
+                  h,                      //
+                  nullptr};
+  return EvalExprNode{std::move(result), std::move(node), std::move(minus_one)};
+}
+
+///
+/// \brief Makes a leaf for \p t
+/// \return the leaf, which represents the block-canonical form of \p t, and
+///         whether \p t is its negative
+///
+std::pair<EvalExprNode, bool> make_leaf(Tensor const& t) {
+  EvalExpr leaf{t};
+  // a proto-indexed leaf represents the given tensor, whatever its phase
+  if (leaf.has_connectivity_graph() || leaf.canon_phase() == 1)
+    return {EvalExprNode{std::move(leaf)}, false};
+  return {EvalExprNode{EvalExpr{leaf.as_tensor()}}, true};
+}
+
+}  // namespace
+
 EvalExprNode binarize(Tensor const& t) {
   // Detect adjoint-marked tensor leaves (label ending in U+207A '⁺'). These
   // arise when the user wrote an adjoint of a BraKetSymmetry::Nonsymm tensor,
@@ -449,7 +484,7 @@ EvalExprNode binarize(Tensor const& t) {
     bare.adjoint();
     SEQUANT_ASSERT(bare.label().empty() ||
                    bare.label().back() != adjoint_label);
-    EvalExprNode bare_leaf{EvalExpr{bare}};
+    auto [bare_leaf, negative] = make_leaf(bare);
 
     // Sentinel right child.
     EvalExprNode sentinel{EvalExpr{Constant{1}}};
@@ -465,10 +500,15 @@ EvalExprNode binarize(Tensor const& t) {
                  1,                                                 //
                  h,                                                 //
                  nullptr};
-    return EvalExprNode{std::move(adj), std::move(bare_leaf),
+    EvalExprNode result{std::move(adj), std::move(bare_leaf),
                         std::move(sentinel)};
+    return negative ? negate(std::move(result), t) : result;
   }
-  return EvalExprNode{EvalExpr{t}};
+
+  // Block-canonicalization of the leaf may have changed the sign of an
+  // antisymmetric tensor: make the sign a part of the tree.
+  auto [leaf, negative] = make_leaf(t);
+  return negative ? negate(std::move(leaf), t) : leaf;
 }
 
 EvalExprNode binarize(Sum const& sum, IndexSet const& uncontract,
-- 
2.43.0


From 35307cc34312a215cced6f6c7026e76892f8433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 036/116] fix: products with scalar factors lost the phases of
 their operands

---
 SeQuant/core/eval/eval_expr.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/eval/eval_expr.cpp b/SeQuant/core/eval/eval_expr.cpp
index fca587e..e61a1d1 100644
--- a/SeQuant/core/eval/eval_expr.cpp
+++ b/SeQuant/core/eval/eval_expr.cpp
@@ -609,13 +609,15 @@ EvalExprNode binarize(Product const& prod, IndexSet const& uncontract,
                        EvalExprNode const& right) mutable -> EvalExpr {
     auto h = ranges::at(hs, ++i);
     auto const& uncontracted_idxs = ltr_uncontr_idxs.imed[i];
+    // phase of a node that is not a contraction of tensors
+    std::int8_t const phase = left->canon_phase() * right->canon_phase();
     if (left->is_scalar() && right->is_scalar()) {
       // scalar * scalar
       return {EvalOp::Product,
               ResultType::Scalar,
               detail::make_variable(),
               {},
-              1,
+              phase,
               h,
               nullptr};
     } else if (left->is_scalar() || right->is_scalar()) {
@@ -628,7 +630,7 @@ EvalExprNode binarize(Product const& prod, IndexSet const& uncontract,
           detail::make_tensor_wo_symmetries(opts, bra(t.bra()), ket(t.ket()),
                                             aux(t.aux())),  //
           tl->canon_indices(),                              //
-          tl->canon_phase(),                                //
+          phase,                                            //
           h,
           nullptr};
     } else {
-- 
2.43.0


From 0db4394fa6d195bd39850f092f1a56927232cb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 037/116] fix: results that are a scalar product of constants
 could not be binarized, and the phase of a terminal was lost

---
 SeQuant/core/eval/eval_expr.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/SeQuant/core/eval/eval_expr.hpp b/SeQuant/core/eval/eval_expr.hpp
index 779bb0b..4bf9dae 100644
--- a/SeQuant/core/eval/eval_expr.hpp
+++ b/SeQuant/core/eval/eval_expr.hpp
@@ -458,18 +458,21 @@ FullBinaryNode<ExprT> binarize(ResultExpr const& res,
   const bool is_scalar =
       res.bra().empty() && res.ket().empty() && res.aux().empty();
 
-  if (tree.size() < 2) {
+  if (tree.size() < 2 || (is_scalar && !tree->expr().template is<Variable>())) {
     // We want to have a result node with the result from the ResultExpr.
     // In order for that to work, we need a dedicated result node in the first
-    // place. Hence, we adapt the represented expression for terminals to be
-    // that terminal multiplied by 1.
-    ExprT result = [&]() {
+    // place. Hence, we adapt the represented expression for terminals (and
+    // products of constants) to be that terminal multiplied by 1.
+    EvalExpr const head = [&]() {
       if (is_scalar) {
-        return *binarize<ExprT>(ex<Variable>(res.result_as_variable()));
+        return *binarize<EvalExpr>(ex<Variable>(res.result_as_variable()));
       }
-      return *binarize<ExprT>(ex<Tensor>(res.result_as_tensor()));
+      return *binarize<EvalExpr>(ex<Tensor>(res.result_as_tensor()));
     }();
-    EvalOpSetter{}.set(result, EvalOp::Product);
+    // the value (and hence its phase) is that of the terminal
+    ExprT result{EvalExpr{EvalOp::Product, head.result_type(), head.expr(),
+                          head.canon_indices(), tree->canon_phase(),
+                          head.hash_value(), nullptr}};
 
     tree = FullBinaryNode<ExprT>(std::move(result), std::move(tree),
                                  binarize<ExprT>(ex<Constant>(1)));
-- 
2.43.0


From eda40360a5f9edfab09fe3de3754255ae58132c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 038/116] fix: products with a single factor that is not a
 tensor were turned into a wrong expression

---
 SeQuant/core/eval/eval_expr.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/SeQuant/core/eval/eval_expr.hpp b/SeQuant/core/eval/eval_expr.hpp
index 4bf9dae..06c416c 100644
--- a/SeQuant/core/eval/eval_expr.hpp
+++ b/SeQuant/core/eval/eval_expr.hpp
@@ -516,11 +516,13 @@ ExprPtr to_expr(meta::eval_node auto const& node) {
     prod.append(1, lexpr, Product::Flatten::No);
     prod.append(1, rexpr, Product::Flatten::No);
 
-    SEQUANT_ASSERT(!prod.empty());
+    // constants are absorbed by the scalar
+    if (prod.empty()) return ex<Constant>(prod.scalar());
 
-    if (prod.size() == 1 && !prod.factor(0)->is<Tensor>()) {
-      return ex<Product>(Product{prod.scalar(), prod.factor(0)->begin(),
-                                 prod.factor(0)->end(), Product::Flatten::No});
+    if (prod.size() == 1 && prod.factor(0)->is<Product>()) {
+      auto const& inner = prod.factor(0)->as<Product>();
+      return ex<Product>(Product{prod.scalar() * inner.scalar(), inner.begin(),
+                                 inner.end(), Product::Flatten::No});
     } else {
       return ex<Product>(std::move(prod));
     }
-- 
2.43.0


From 30451fdadf55beef3cdb5e3de1f089b3d2c57de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 039/116] fix: definitions of common subexpressions ignored the
 phase of the first use

---
 .../optimize/common_subexpression_elimination.hpp     | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/optimize/common_subexpression_elimination.hpp b/SeQuant/core/optimize/common_subexpression_elimination.hpp
index ef009a2..2785a12 100644
--- a/SeQuant/core/optimize/common_subexpression_elimination.hpp
+++ b/SeQuant/core/optimize/common_subexpression_elimination.hpp
@@ -162,12 +162,19 @@ class SubexpressionReplacer {
       // Since tree node objects are immutable, we have to disassemble
       // and reassemble the tree in order to get the desired outcome.
 
+      // Uses are multiplied by their own phase, i.e. the intermediate stands
+      // for the canonical value.
+      ExprPtr definition = to_expr(tree);
+      if (tree->canon_phase() != 1) {
+        definition = ex<Constant>(tree->canon_phase()) * definition;
+      }
+
       ResultExpr intermediate = [&]() {
         if (expr->is<Tensor>()) {
-          return ResultExpr(expr->as<Tensor>(), to_expr(tree));
+          return ResultExpr(expr->as<Tensor>(), std::move(definition));
         }
 
-        return ResultExpr(expr->as<Variable>(), to_expr(tree));
+        return ResultExpr(expr->as<Variable>(), std::move(definition));
       }();
 
       intermediate_definition = expr_to_tree(intermediate);
-- 
2.43.0


From 6ffb644a8452a0eae4aadaf728ca4f53c00c826b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 040/116] fix: valid_intersection reported spaces with disjoint
 quantum numbers, of which the intersection is null

---
 SeQuant/core/index_space_registry.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index 1065c70..5e40ee6 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -572,6 +572,8 @@ class IndexSpaceRegistry {
   bool valid_intersection(const IndexSpace& space1,
                           const IndexSpace& space2) const {
     auto result_attr = space1.attr().intersection(space2.attr());
+    // spaces with different quantum numbers do not intersect, see intersection()
+    if (!result_attr.qns() && space1.qns() != space2.qns()) return false;
     return result_attr != IndexSpace::Type::null && retrieve_ptr(result_attr);
   }
 
-- 
2.43.0


From 6b762ebfa560b373c04efab2f72087dc2bd31585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 041/116] fix: base spaces of a registry were stale after
 assignment, clear, or changes of a registry or mask that shares them

---
 SeQuant/core/index_space_registry.cpp |  1 +
 SeQuant/core/index_space_registry.hpp | 55 ++++++++++++++++-----------
 2 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/SeQuant/core/index_space_registry.cpp b/SeQuant/core/index_space_registry.cpp
index 8cac06b..e43945b 100644
--- a/SeQuant/core/index_space_registry.cpp
+++ b/SeQuant/core/index_space_registry.cpp
@@ -29,6 +29,7 @@ IndexSpaceRegistry IndexSpaceRegistry::clone() const {
   result.spaces_ =
       std::make_shared<container::set<IndexSpace, IndexSpace::KeyCompare>>(
           *spaces_);
+  result.memoized_ = std::make_shared<Memoized>();
   return result;
 }
 
diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index 5e40ee6..7646b10 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -21,6 +21,8 @@
 #include <boost/hana.hpp>
 #include <boost/hana/ext/std/integral_constant.hpp>
 
+#include <algorithm>
+#include <memory>
 #include <mutex>
 #include <ranges>
 
@@ -107,6 +109,7 @@ class IndexSpaceRegistry {
   /// copy constructor
   IndexSpaceRegistry(const IndexSpaceRegistry& other)
       : spaces_(other.spaces_),
+        memoized_(other.memoized_),
         physical_particle_attribute_mask_(
             other.physical_particle_attribute_mask_),
         vacocc_(other.vacocc_),
@@ -118,6 +121,7 @@ class IndexSpaceRegistry {
   /// move constructor
   IndexSpaceRegistry(IndexSpaceRegistry&& other)
       : spaces_(std::move(other.spaces_)),
+        memoized_(std::move(other.memoized_)),
         physical_particle_attribute_mask_(
             std::move(other.physical_particle_attribute_mask_)),
         vacocc_(std::move(other.vacocc_)),
@@ -129,6 +133,7 @@ class IndexSpaceRegistry {
   /// copy assignment operator
   IndexSpaceRegistry& operator=(const IndexSpaceRegistry& other) {
     spaces_ = other.spaces_;
+    memoized_ = other.memoized_;
     physical_particle_attribute_mask_ = other.physical_particle_attribute_mask_;
     vacocc_ = other.vacocc_;
     refocc_ = other.refocc_;
@@ -141,6 +146,7 @@ class IndexSpaceRegistry {
   /// move assignment operator
   IndexSpaceRegistry& operator=(IndexSpaceRegistry&& other) {
     spaces_ = std::move(other.spaces_);
+    memoized_ = std::move(other.memoized_);
     physical_particle_attribute_mask_ =
         std::move(other.physical_particle_attribute_mask_);
     vacocc_ = std::move(other.vacocc_);
@@ -828,19 +834,19 @@ class IndexSpaceRegistry {
   /// @return (memoized) set of base IndexSpace::Type objects, sorted in
   /// increasing order
   const std::vector<IndexSpace::Type>& base_space_types() const {
-    if (!base_space_types_) {
+    std::scoped_lock guard{memoized_->mtx};
+    auto& result = memoized_->base_space_types;
+    if (!result) {
       auto types = *spaces_ | ranges::views::transform([](const auto& s) {
         return s.type();
       }) | ranges::views::filter([](const auto& t) { return is_base(t); }) |
-                   ranges::views::unique | ranges::to_vector;
+                   ranges::to_vector;
       ranges::sort(types, [](auto t1, auto t2) { return t1 < t2; });
-      std::scoped_lock guard{mtx_memoized_};
-      if (!base_space_types_) {
-        base_space_types_ =
-            std::make_shared<std::vector<IndexSpace::Type>>(std::move(types));
-      }
+      types.erase(std::unique(types.begin(), types.end()), types.end());
+      result =
+          std::make_shared<std::vector<IndexSpace::Type>>(std::move(types));
     }
-    return *base_space_types_;
+    return *result;
   }
 
   /// @brief returns the list of _basis_ IndexSpace objects
@@ -850,20 +856,18 @@ class IndexSpaceRegistry {
   /// @return (memoized) set of base IndexSpace objects, sorted in the order of
   /// increasing type()
   const std::vector<IndexSpace>& base_spaces() const {
-    if (!base_spaces_) {
+    std::scoped_lock guard{memoized_->mtx};
+    auto& result = memoized_->base_spaces[physical_particle_attribute_mask_];
+    if (!result) {
       auto spaces = *spaces_ | ranges::views::filter([this](const auto& s) {
         return this->is_base(s);
       }) | ranges::views::unique |
                     ranges::to_vector;
       ranges::sort(spaces,
                    [](auto s1, auto s2) { return s1.type() < s2.type(); });
-      std::scoped_lock guard{mtx_memoized_};
-      if (!base_spaces_) {
-        base_spaces_ =
-            std::make_shared<std::vector<IndexSpace>>(std::move(spaces));
-      }
+      result = std::make_shared<std::vector<IndexSpace>>(std::move(spaces));
     }
-    return *base_spaces_;
+    return *result;
   }
 
   /// @brief checks if an IndexSpace is in the basis
@@ -1368,17 +1372,22 @@ class IndexSpaceRegistry {
   // N.B. need transparent comparator, see https://stackoverflow.com/a/35525806
   std::shared_ptr<container::set<IndexSpace, IndexSpace::KeyCompare>> spaces_;
 
+  // memoized data; describes the spaces, thus shared by registries that share
+  // these
+  struct Memoized {
+    std::recursive_mutex mtx;  // used to update the memoized data
+    std::shared_ptr<std::vector<IndexSpace::Type>> base_space_types;
+    // for each physical particle attribute mask
+    container::map<bitset_t, std::shared_ptr<std::vector<IndexSpace>>>
+        base_spaces;
+  };
+  std::shared_ptr<Memoized> memoized_ = std::make_shared<Memoized>();
   bitset_t physical_particle_attribute_mask_ = bitset::null;
 
-  // memoized data
-  mutable std::shared_ptr<std::vector<IndexSpace::Type>> base_space_types_;
-  mutable std::shared_ptr<std::vector<IndexSpace>> base_spaces_;
-  mutable std::recursive_mutex
-      mtx_memoized_;  // used to update the memoized data
   IndexSpaceRegistry& clear_memoized_data_and_return_this() {
-    std::scoped_lock guard{mtx_memoized_};
-    base_space_types_.reset();
-    base_spaces_.reset();
+    std::scoped_lock guard{memoized_->mtx};
+    memoized_->base_space_types.reset();
+    memoized_->base_spaces.clear();
     return *this;
   }
 
-- 
2.43.0


From c51dba56f2ba977ca282021424c8f3747264a963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 042/116] fix: spaces could not be chosen per quantum numbers,
 a found space was taken for a duplicate

---
 SeQuant/core/index_space_registry.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index 7646b10..1b71688 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -1439,8 +1439,9 @@ class IndexSpaceRegistry {
     for (auto&& space : *spaces_) {
       for (auto&& [qn, t] : qn2type) {
         if (space.type() == t && space.qns() == qn) {
-          [[maybe_unused]] auto [it, found] = qn2type_found.try_emplace(qn, t);
-          SEQUANT_ASSERT(!found);
+          [[maybe_unused]] auto [it, inserted] =
+              qn2type_found.try_emplace(qn, t);
+          SEQUANT_ASSERT(inserted);
           // found all? return
           if (qn2type_found.size() == qn2type.size()) {
             return;
-- 
2.43.0


From 7d883e0ad5504e96556f4acc2d922c1304da7568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:09 +0000
Subject: [PATCH 043/116] fix: is_pure_occupied took every space with a smaller
 bit pattern than the occupied space for a subset of it

---
 SeQuant/core/index_space_registry.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index 1b71688..22df21e 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -910,13 +910,7 @@ class IndexSpaceRegistry {
     if (!IS) {
       return false;
     }
-    // this introduces icky dependence on bit footprint of vacuum_occupied_space
-    if (IS.type().to_int32() <=
-        vacuum_occupied_space(IS.qns()).type().to_int32()) {
-      return true;
-    } else {
-      return false;
-    }
+    return vacuum_occupied_space(IS.qns()).type().includes(IS.type());
   }
 
   /// @brief equivalent to `is_pure_occupied(retrieve(space_key))`
-- 
2.43.0


From 536711653de414dd11a1541fc6e235ce1afd7b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:09 +0000
Subject: [PATCH 044/116] fix: intersections of real spaces were registered as
 complex

---
 SeQuant/core/index_space_registry.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index 22df21e..11bd0a5 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -514,9 +514,10 @@ class IndexSpaceRegistry {
       ++count;
     }
     const auto approximate_size = compute_approximate_size(space_attr);
+    const Field field = compute_field(space_attr);
 
     IndexSpace space(std::forward<S>(type_label), space_attr.type(),
-                     space_attr.qns(), approximate_size);
+                     space_attr.qns(), approximate_size, field);
     this->add(space);
     auto type = space.type();
 
-- 
2.43.0


From e6dd8cbe14846fc537c8bbaa119ae54cd4c7a3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 045/116] fix: indices made by a factory lost the asymmetry of
 their proto-indices

---
 SeQuant/core/index.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/index.hpp b/SeQuant/core/index.hpp
index 7b88856..c33c06e 100644
--- a/SeQuant/core/index.hpp
+++ b/SeQuant/core/index.hpp
@@ -1170,7 +1170,7 @@ class IndexFactory {
       }
       result =
           Index(Index(space, ++(counter_it->second), Index::IndexFactoryTag{}),
-                idx.proto_indices());
+                idx.proto_indices(), idx.symmetric_proto_indices());
       valid = validator_ ? validator_(result) : true;
     } while (!valid);
     return result;
-- 
2.43.0


From 3bdfe207222ae547c5e85c8b6cec914ecb0b5c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 046/116] fix: malformed or negative ordinals of index labels
 terminated the program instead of throwing

---
 SeQuant/core/index.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/index.hpp b/SeQuant/core/index.hpp
index c33c06e..75abdfb 100644
--- a/SeQuant/core/index.hpp
+++ b/SeQuant/core/index.hpp
@@ -104,7 +104,7 @@ class Index : public Taggable {
     return index;
   }
 
-  std::optional<ordinal_type> to_ordinal(meta::integral auto i) noexcept {
+  std::optional<ordinal_type> to_ordinal(meta::integral auto i) {
     if constexpr (std::is_signed_v<decltype(i)>) {
       SEQUANT_ASSERT(i >= 0);
     }
@@ -967,7 +967,7 @@ class Index : public Taggable {
            std::same_as<std::remove_cvref_t<std::ranges::range_value_t<View>>,
                         wchar_t>)
   static std::optional<ordinal_type> to_ordinal(
-      View && label) noexcept {
+      View && label) {
 	  auto end = base_label_end(label);
 
 	  if (end == std::ranges::end(label)) {
@@ -986,7 +986,7 @@ class Index : public Taggable {
   }
 
   template<typename CharT>
-  static std::optional<ordinal_type> to_ordinal(const CharT *label) noexcept {
+  static std::optional<ordinal_type> to_ordinal(const CharT *label) {
 	  return to_ordinal(std::basic_string_view<CharT>{label});
   }
 
-- 
2.43.0


From 48c1944124b1c1532168b89e505ee064b37e8c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 047/116] fix: ordinals of temporary indices could be smaller
 than the first dummy ordinal after a change of the default context

---
 SeQuant/core/index.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/index.hpp b/SeQuant/core/index.hpp
index 75abdfb..c86a010 100644
--- a/SeQuant/core/index.hpp
+++ b/SeQuant/core/index.hpp
@@ -792,7 +792,15 @@ class Index : public Taggable {
   /// @return a unique temporary index, its value is equal to or greater than
   /// that returned by min_tmp_index()
   static std::size_t next_tmp_index() noexcept {
-    return ++tmp_index_accessor();
+    auto &counter = tmp_index_accessor();
+    // N.B. default context, hence min_tmp_index(), may have changed
+    const auto min = min_tmp_index();
+    auto current = counter.load();
+    std::size_t next;
+    do {
+      next = std::max(current + 1, min);
+    } while (!counter.compare_exchange_weak(current, next));
+    return next;
   }
 
   /// resets the temporary index counter so that the next call to
-- 
2.43.0


From 8da1d7ddaa875ab59b3e25949fea8ea58c45d8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 048/116] fix: proto-indices of temporary indices could not be
 dropped

---
 SeQuant/core/index.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/index.hpp b/SeQuant/core/index.hpp
index c86a010..fd7bc8b 100644
--- a/SeQuant/core/index.hpp
+++ b/SeQuant/core/index.hpp
@@ -748,7 +748,10 @@ class Index : public Taggable {
   /// drops the proto indices from this Index
   /// @return a copy of this Index without proto indices
   Index drop_proto_indices() const noexcept {
-    return Index(this->label(), this->space());
+    Index result;
+    result.space_ = space_;
+    result.ordinal_ = ordinal_;
+    return result;
   }
 
   std::wstring to_latex() const noexcept;
-- 
2.43.0


From d65604786c5388b4b41f7acc8ae540a06793f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 049/116] fix: removing a null-terminated substring from an
 index label did not compile

---
 SeQuant/core/index.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/index.hpp b/SeQuant/core/index.hpp
index fd7bc8b..e3eff07 100644
--- a/SeQuant/core/index.hpp
+++ b/SeQuant/core/index.hpp
@@ -715,7 +715,7 @@ class Index : public Taggable {
                              std::is_same_v<std::decay_t<WS2>,
                                             const wchar_t *> ||
                              std::is_same_v<std::decay_t<WS2>, wchar_t *>) {
-          result.erase(pos, std::strlen(substr));
+          result.erase(pos, std::char_traits<wchar_t>::length(substr));
         } else {
           result.erase(pos, 1);
         }
-- 
2.43.0


From a87495664c3e593e26a8012de6ab96d243e2bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 050/116] fix: replacing the space of an index given by rvalue
 kept its old label

---
 SeQuant/core/index.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SeQuant/core/index.hpp b/SeQuant/core/index.hpp
index e3eff07..45486f8 100644
--- a/SeQuant/core/index.hpp
+++ b/SeQuant/core/index.hpp
@@ -436,6 +436,9 @@ class Index : public Taggable {
     if constexpr (std::is_same_v<std::decay_t<IndexOrIndexLabel>, Index>) {
       *this = std::forward<IndexOrIndexLabel>(index_or_index_label);
       space_ = std::move(space);
+      // memoized labels (if moved) refer to the old space
+      label_.reset();
+      full_label_.reset();
     } else {
       space_ = std::move(space);
       ordinal_ = to_ordinal(index_or_index_label);
-- 
2.43.0


From 9bfadda856109ca874ffe4e66f3f9f26f0499cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 051/116] fix: indices made from rvalue strings kept labels
 that are not canonical

---
 SeQuant/core/index.hpp | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/SeQuant/core/index.hpp b/SeQuant/core/index.hpp
index 45486f8..2057eca 100644
--- a/SeQuant/core/index.hpp
+++ b/SeQuant/core/index.hpp
@@ -328,8 +328,7 @@ class Index : public Taggable {
   }
 
   /// @param label the index label, does not need to be unique, but must be
-  /// convertible into an IndexSpace (@sa IndexSpace::instance ); if @p label
-  /// is an rvalue reference will scavenge it for the label of the new index
+  /// convertible into an IndexSpace (@sa IndexSpace::instance )
   /// @warning nonexplicit to make Index creation as ergonomic as possible, at
   /// the cost of slightly increased danger
   template <basic_string_convertible String>
@@ -340,9 +339,6 @@ class Index : public Taggable {
                                IndexSpace::QuantumNumbers::reserved},
               to_ordinal(label), {}) {
     check_nonreserved();
-    if constexpr (std::is_same_v<String, std::wstring>) {
-      label_ = std::move(label);
-    }
   }
 
   /// @brief constructs an Index using an existing Index's label and space and a
@@ -353,8 +349,7 @@ class Index : public Taggable {
   /// `meta::is_basic_string_convertible_v<std::decay_t<IndexOrIndexLabel>>==true`)
   /// @tparam I either Index or a type that can be converted to Index
   /// @param index_or_index_label an Index or a label, does not need to be
-  /// unique; if @p index_or_index_label is a label
-  /// and an rvalue reference will scavenge it for the label of the new index
+  /// unique
   /// @param proto_indices list of proto indices, or their labels (all must be
   /// unique, i.e. duplicates are not allowed)
   /// @param symmetric_proto_indices if true, proto_indices can be permuted at
@@ -365,12 +360,9 @@ class Index : public Taggable {
         bool symmetric_proto_indices = true)
       : symmetric_proto_indices_(symmetric_proto_indices) {
     if constexpr (!std::is_same_v<std::decay_t<IndexOrIndexLabel>, Index>) {
-      auto index = Index(index_or_index_label);  // give index_or_index_label by
-                                                 // ref to avoid scavenging it
+      auto index = Index(index_or_index_label);
       space_ = index.space();
       ordinal_ = index.ordinal_;
-      if constexpr (!std::is_reference_v<IndexOrIndexLabel>)
-        label_ = std::move(index_or_index_label);
     } else {
       space_ = index_or_index_label.space();
       ordinal_ = index_or_index_label.ordinal_;
@@ -394,8 +386,7 @@ class Index : public Taggable {
   /// viewed/converted to a string (i.e.,
   /// `meta::is_basic_string_convertible_v<std::decay_t<IndexOrIndexLabel>>==true`)
   /// @param index_or_index_label an Index or a label, does not need to be
-  /// unique; if @p index_or_index_label is a label
-  /// and an rvalue reference will scavenge it for the label of the new index
+  /// unique
   /// @param proto_indices list of proto indices (all must be unique,
   /// i.e. duplicates are not allowed)
   /// @param symmetric_proto_indices if true, proto_indices can be permuted at
@@ -408,12 +399,9 @@ class Index : public Taggable {
       : proto_indices_(std::forward<IndexContainer>(proto_indices)),
         symmetric_proto_indices_(symmetric_proto_indices) {
     if constexpr (!std::is_same_v<std::decay_t<IndexOrIndexLabel>, Index>) {
-      auto index = Index(index_or_index_label);  // give index_or_index_label by
-                                                 // ref to avoid scavenging it
+      auto index = Index(index_or_index_label);
       space_ = index.space();
       ordinal_ = index.ordinal_;
-      if constexpr (!std::is_reference_v<IndexOrIndexLabel>)
-        label_ = std::move(index_or_index_label);
     } else {
       space_ = index_or_index_label.space();
       ordinal_ = index_or_index_label.ordinal_;
-- 
2.43.0


From 3cbbef6e15a90d448e6d370225462bc9dde323b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 052/116] fix: ordinals were read past the end of the label

---
 SeQuant/core/index.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/index.hpp b/SeQuant/core/index.hpp
index 2057eca..cb817fb 100644
--- a/SeQuant/core/index.hpp
+++ b/SeQuant/core/index.hpp
@@ -131,9 +131,10 @@ class Index : public Taggable {
       SEQUANT_ASSERT(underscore_position + 1 <
                      label.size());  // check that there is at least one char
                                      // past the underscore
+      // N.B. label does not need to be null-terminated
       return std::wcstol(
-          label.substr(underscore_position + 1, std::wstring::npos).data(),
-          NULL, 10);
+          std::wstring(label.substr(underscore_position + 1)).c_str(), NULL,
+          10);
     } else
       return {};
   }
-- 
2.43.0


From fc3bdd5c7f0f6cbf0d3660e07866f12518acdc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 053/116] fix: mutable_index_space_registry() of a context
 without a registry returned null instead of throwing

---
 SeQuant/core/context.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeQuant/core/context.cpp b/SeQuant/core/context.cpp
index c7f63c6..837dc3c 100644
--- a/SeQuant/core/context.cpp
+++ b/SeQuant/core/context.cpp
@@ -1,6 +1,7 @@
 #include <SeQuant/core/attr.hpp>
 #include <SeQuant/core/context.hpp>
 #include <SeQuant/core/utility/context.hpp>
+#include <SeQuant/core/utility/exception.hpp>
 
 #ifdef SEQUANT_CONTEXT_MANIPULATION_THREADSAFE
 #include <mutex>
@@ -150,6 +151,7 @@ std::shared_ptr<const IndexSpaceRegistry> Context::index_space_registry()
 
 std::shared_ptr<IndexSpaceRegistry> Context::mutable_index_space_registry()
     const {
+  if (!idx_space_reg_) throw Exception("Context has null IndexSpaceRegistry");
   return idx_space_reg_;
 }
 
-- 
2.43.0


From 3d7121f8cb87a053b93dbd24453630dbbc3892b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 054/116] fix: comparing and cloning contexts without a
 registry crashed

---
 SeQuant/core/context.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/SeQuant/core/context.cpp b/SeQuant/core/context.cpp
index 837dc3c..d29c4c1 100644
--- a/SeQuant/core/context.cpp
+++ b/SeQuant/core/context.cpp
@@ -18,8 +18,11 @@ bool default_context_manipulation_threadsafe() {
 }
 
 bool operator==(const Context& ctx1, const Context& ctx2) {
-  if (&ctx1 == &ctx2)
-    return true;
+  if (&ctx1 == &ctx2) return true;
+  const auto isr1 = ctx1.index_space_registry();
+  const auto isr2 = ctx2.index_space_registry();
+  if (!isr1 != !isr2)
+    return false;
   else
     return ctx1.vacuum() == ctx2.vacuum() && ctx1.metric() == ctx2.metric() &&
            ctx1.assert_strict_braket_symmetry() ==
@@ -27,12 +30,11 @@ bool operator==(const Context& ctx1, const Context& ctx2) {
            ctx1.spbasis() == ctx2.spbasis() &&
            ctx1.first_dummy_index_ordinal() ==
                ctx2.first_dummy_index_ordinal() &&
-           ctx1.index_space_registry()->spaces() ==
-               ctx2.index_space_registry()->spaces() &&
+           (isr1 == isr2 || isr1->spaces() == isr2->spaces()) &&
            ctx1.canonicalization_options() == ctx2.canonicalization_options() &&
            ctx1.braket_typesetting() == ctx2.braket_typesetting() &&
            ctx1.braket_slot_typesetting() == ctx2.braket_slot_typesetting() &&
-           *ctx1.index_space_registry() == *ctx2.index_space_registry();
+           (isr1 == isr2 || *isr1 == *isr2);
 }
 
 bool operator!=(const Context& ctx1, const Context& ctx2) {
@@ -137,8 +139,9 @@ Context::Context(Options options)
 
 Context Context::clone() const {
   Context ctx(*this);
-  ctx.idx_space_reg_ =
-      std::make_shared<IndexSpaceRegistry>(idx_space_reg_->clone());
+  if (idx_space_reg_)
+    ctx.idx_space_reg_ =
+        std::make_shared<IndexSpaceRegistry>(idx_space_reg_->clone());
   return ctx;
 }
 
-- 
2.43.0


From 714c7eecaaba2da211ae32db9425afa81b44be30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 055/116] fix: canonicalization options that differ in named
 indices were equal

---
 SeQuant/core/options.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/SeQuant/core/options.hpp b/SeQuant/core/options.hpp
index c0e2d44..1d39d79 100644
--- a/SeQuant/core/options.hpp
+++ b/SeQuant/core/options.hpp
@@ -72,9 +72,10 @@ struct CanonicalizeOptions {
   CanonicalizeOptions copy_and_set(std::optional<container::set<Index>>) const;
   CanonicalizeOptions copy_and_set(IgnoreNamedIndexLabel) const;
 
-  friend constexpr bool operator==(const CanonicalizeOptions& a,
-                                   const CanonicalizeOptions& b) {
-    return a.method == b.method;
+  friend bool operator==(const CanonicalizeOptions& a,
+                         const CanonicalizeOptions& b) {
+    return a.method == b.method && a.named_indices == b.named_indices &&
+           a.ignore_named_index_labels == b.ignore_named_index_labels;
   }
 };
 
@@ -84,8 +85,7 @@ struct SimplifyOptions : public CanonicalizeOptions {
   static SimplifyOptions default_options();
   SimplifyOptions(CanonicalizeOptions opts);
 
-  friend constexpr bool operator==(const SimplifyOptions& a,
-                                   const SimplifyOptions& b) {
+  friend bool operator==(const SimplifyOptions& a, const SimplifyOptions& b) {
     return static_cast<const CanonicalizeOptions&>(a) ==
            static_cast<const CanonicalizeOptions&>(b);
   }
-- 
2.43.0


From d1831865a1c651ce148b53cee7a30a9481886826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 056/116] fix: a scope with a context equal to the current one
 was ignored, changes of the context within it outlived it

---
 SeQuant/core/utility/context.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/SeQuant/core/utility/context.hpp b/SeQuant/core/utility/context.hpp
index 23f2ea4..c852b53 100644
--- a/SeQuant/core/utility/context.hpp
+++ b/SeQuant/core/utility/context.hpp
@@ -50,12 +50,11 @@ struct ImplicitContextResetter {
 
 template <typename Ctx>
 ImplicitContextResetter<Ctx> set_scoped_implicit_context(const Ctx& ctx) {
-  if (get_implicit_context<Ctx>() != ctx) {
-    auto previous_ctx = get_implicit_context<Ctx>();
-    set_implicit_context(ctx);
-    return previous_ctx;
-  } else
-    return {};
+  // N.B. do this even if the contexts are equal: they can have different
+  // registries, and the context may be changed before leaving the scope
+  auto previous_ctx = get_implicit_context<Ctx>();
+  set_implicit_context(ctx);
+  return previous_ctx;
 }
 
 }  // namespace sequant::detail
-- 
2.43.0


From 1372baa78774bec3c95d06214f7b7c7cca66367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:45 +0000
Subject: [PATCH 057/116] fix: an empty group at the end could not be exported

---
 SeQuant/core/export/export.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/export/export.hpp b/SeQuant/core/export/export.hpp
index 4b36272..92b65c0 100644
--- a/SeQuant/core/export/export.hpp
+++ b/SeQuant/core/export/export.hpp
@@ -1035,7 +1035,8 @@ void export_groups(Range groups, Generator<Context> &generator, Context ctx) {
     // Handle section-level declarations
     SEQUANT_ASSERT(pp_results.size() >= pp_idx + size(current_group));
     detail::handle_declarations<DeclarationScope::Section>(
-        std::span(&pp_results.at(pp_idx), size(current_group)), generator, ctx);
+        std::span(pp_results).subspan(pp_idx, size(current_group)), generator,
+        ctx);
 
     for (ExportNode<T> &current_tree : current_group) {
       // Handle expression-level declarations
-- 
2.43.0


From 661d42dff2547af3b078bf572790c149bdbf452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:45 +0000
Subject: [PATCH 058/116] fix: scalar factors of sums were lost in exported
 code when they are pruned

---
 SeQuant/core/export/export.hpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/export/export.hpp b/SeQuant/core/export/export.hpp
index 92b65c0..2a47520 100644
--- a/SeQuant/core/export/export.hpp
+++ b/SeQuant/core/export/export.hpp
@@ -334,6 +334,25 @@ class GenerationVisitor {
   std::optional<NodeID> m_rootID;
 };
 
+/// Makes the given scalar a factor of what is computed for the given (non-leaf)
+/// node. Sums don't perform computations for summands that are computed
+/// themselves, hence the factor has to be added to the latter as well.
+template <typename T>
+void add_scalar_factor(ExportNode<T> &node, const ExprPtr &factor,
+                       PreprocessResult &result) {
+  ExprPtr &current = result.scalarFactors[node->id()];
+  current = current ? current * factor : factor->clone();
+
+  if (node->op_type() == EvalOp::Sum) {
+    if (!node.left().leaf()) {
+      add_scalar_factor(node.left(), factor, result);
+    }
+    if (!node.right().leaf()) {
+      add_scalar_factor(node.right(), factor, result);
+    }
+  }
+}
+
 /// Removes explicitly represented scalar factors from the provided tree and
 /// instead stores them separately. This yields a much more compact tree and
 /// makes subsequent visiting easier as scalar factors should simply be
@@ -409,7 +428,12 @@ bool prune_scalar_factor(ExportNode<T> &node, PreprocessResult &result,
 
   fill_in->set_id(node.parent()->id());
 
-  result.scalarFactors[fill_in->id()] = std::move(factor);
+  result.scalarFactors.erase(fill_in->id());
+  if (fill_in.leaf()) {
+    result.scalarFactors[fill_in->id()] = std::move(factor);
+  } else {
+    add_scalar_factor(fill_in, factor, result);
+  }
 
   // We can only do the moving after finishing access to node as
   // node might become unreferenced and thus deleted once its parent
-- 
2.43.0


From ae0ea039284360e658391694a02a88e075298ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:45 +0000
Subject: [PATCH 059/116] fix: results of nested sums were never unloaded in
 exported code

---
 SeQuant/core/export/export.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/export/export.hpp b/SeQuant/core/export/export.hpp
index 2a47520..4aecc57 100644
--- a/SeQuant/core/export/export.hpp
+++ b/SeQuant/core/export/export.hpp
@@ -244,7 +244,10 @@ class GenerationVisitor {
         switch (node->compute_selection()) {
           case ComputeSelection::None:
             // This node only exists for tree connectivity purposes. No explicit
-            // computation that should be exported.
+            // computation that should be exported. The summands are part of the
+            // result of this node and no longer used on their own.
+            drop(*node.right()->expr());
+            drop(*node.left()->expr());
             return;
           case ComputeSelection::Left:
             expressions.push_back(node.left()->expr());
-- 
2.43.0


From 5709729b41c830a7073502f3826450b710c4b6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:45 +0000
Subject: [PATCH 060/116] fix: exported code zeroed a reused intermediate
 between adding up the terms of a sum

---
 SeQuant/core/export/export.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/SeQuant/core/export/export.hpp b/SeQuant/core/export/export.hpp
index 4aecc57..bd4b861 100644
--- a/SeQuant/core/export/export.hpp
+++ b/SeQuant/core/export/export.hpp
@@ -105,8 +105,13 @@ class GenerationVisitor {
     }
   }
 
+  /// @param expr The tensor or variable to load or create
+  /// @param isLeaf Whether expr belongs to a leaf node
+  /// @param accumulates Whether the computation of this node adds to what its
+  /// parent node has in expr already
   template <typename ExprType>
-  void load_or_create(const ExprType &expr, const bool isLeaf) {
+  void load_or_create(const ExprType &expr, const bool isLeaf,
+                      const bool accumulates = false) {
     static_assert(
         std::is_same_v<ExprType, Tensor> || std::is_same_v<ExprType, Variable>,
         "This function currently only works for tensors and variables");
@@ -149,7 +154,7 @@ class GenerationVisitor {
       m_generator.create(expr, zeroCreate, m_ctx);
     } else if (load) {
       m_generator.load(expr, zeroLoad, m_ctx);
-    } else if (zeroReuse) {
+    } else if (zeroReuse && !accumulates) {
       SEQUANT_ASSERT(alreadyLoaded);
       m_generator.set_to_zero(expr, m_ctx);
     }
@@ -174,10 +179,14 @@ class GenerationVisitor {
           "GenerationVisitor::load_or_create");
     }
 
+    // the summands of a sum are added up in the result of the sum
+    const bool accumulates = !node.leaf() && !node.root() &&
+                             node.parent()->op_type() == EvalOp::Sum;
+
     if (node->is_tensor()) {
-      load_or_create<Tensor>(node->as_tensor(), node.leaf());
+      load_or_create<Tensor>(node->as_tensor(), node.leaf(), accumulates);
     } else {
-      load_or_create<Variable>(node->as_variable(), node.leaf());
+      load_or_create<Variable>(node->as_variable(), node.leaf(), accumulates);
     }
   }
 
-- 
2.43.0


From 9d2a6602e6948dcb91e884881d3d8b0110f2ea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:45 +0000
Subject: [PATCH 061/116] fix: intermediate for the negative of a tensor block
 had the name of the tensor

---
 SeQuant/core/eval/eval_expr.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/SeQuant/core/eval/eval_expr.cpp b/SeQuant/core/eval/eval_expr.cpp
index e61a1d1..dbe9109 100644
--- a/SeQuant/core/eval/eval_expr.cpp
+++ b/SeQuant/core/eval/eval_expr.cpp
@@ -438,10 +438,12 @@ EvalExprNode negate(EvalExprNode node, Tensor const& t) {
   EvalExprNode minus_one{EvalExpr{Constant{-1}}};
   auto h = node->hash_value();
   hash::combine(h, minus_one->hash_value());
-  EvalExpr result{EvalOp::Product,        //
-                  ResultType::Tensor,     //
-                  t.clone(),              //
-                  node->canon_indices(),  //
+  EvalExpr result{EvalOp::Product,     //
+                  ResultType::Tensor,  //
+                  detail::make_tensor_wo_symmetries(
+                      BinarizationOptions{.merge_indices = false},
+                      bra(t.bra()), ket(t.ket()), aux(t.aux())),  //
+                  node->canon_indices(),                          //
                   1,                      //
                   h,                      //
                   nullptr};
-- 
2.43.0


From 52eb70988cecc00ab963365edb278423f352c87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:08 +0000
Subject: [PATCH 062/116] fix: generated Python function without a body

---
 SeQuant/core/export/python_einsum.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/SeQuant/core/export/python_einsum.hpp b/SeQuant/core/export/python_einsum.hpp
index ca1a6e8..62b1a7e 100644
--- a/SeQuant/core/export/python_einsum.hpp
+++ b/SeQuant/core/export/python_einsum.hpp
@@ -286,10 +286,15 @@ class PythonEinsumGeneratorBase : public Generator<Context> {
   void begin_named_section(std::string_view name, const Context &) override {
     m_generated += m_indent + "def " + std::string(name) + "():\n";
     m_indent += "    ";
+    m_section_begin = m_generated.size();
   }
 
   void end_named_section(std::string_view /*name*/, const Context &) override {
     SEQUANT_ASSERT(m_indent.size() >= 4);
+    if (m_generated.size() == m_section_begin) {
+      // Python does not allow for empty function bodies
+      m_generated += m_indent + "pass\n";
+    }
     m_indent = m_indent.substr(0, m_indent.size() - 4);
     m_generated += "\n";
   }
@@ -313,6 +318,7 @@ class PythonEinsumGeneratorBase : public Generator<Context> {
  protected:
   std::string m_generated;
   std::string m_indent;
+  std::size_t m_section_begin = 0;
 
   /// Get the tensor name (without indices)
   std::string tensor_name(const Tensor &tensor, const Context &ctx) const {
-- 
2.43.0


From ef8d8a76aa4361e89009a06e5ea3bc9b29d24b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:08 +0000
Subject: [PATCH 063/116] fix: labels that are not ASCII gave invalid einsum
 subscripts and names

---
 SeQuant/core/export/python_einsum.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/SeQuant/core/export/python_einsum.hpp b/SeQuant/core/export/python_einsum.hpp
index 62b1a7e..3042804 100644
--- a/SeQuant/core/export/python_einsum.hpp
+++ b/SeQuant/core/export/python_einsum.hpp
@@ -81,7 +81,7 @@ class PythonEinsumGeneratorContext : public ReorderingContext {
       return it->second;
     }
     // Default: use first character of base key
-    return toUtf8(space.base_key()).substr(0, 1);
+    return toUtf8(space.base_key().substr(0, 1));
   }
 
   /// Set the tag for a given index space
@@ -151,7 +151,7 @@ class PythonEinsumGeneratorBase : public Generator<Context> {
 
     // Convert index label to a single character for einsum notation
     // For einsum, we need single characters
-    std::string label = toUtf8(idx.full_label());
+    const auto label = idx.full_label();
 
     // Try to extract a single character representation
     // If the label is longer, use its first character (this may need
@@ -162,9 +162,7 @@ class PythonEinsumGeneratorBase : public Generator<Context> {
 
     // Return first character preserving case to avoid conflicts
     // between index spaces that differ only in case (e.g., 'I' vs 'i')
-    char c = label[0];
-
-    return std::string(1, c);
+    return toUtf8(std::wstring(label.substr(0, 1)));
   }
 
   std::string represent(const Tensor &tensor,
@@ -414,13 +412,16 @@ class PythonEinsumGeneratorBase : public Generator<Context> {
     char base_char = full_label.empty() ? 'i' : full_label[0];
     std::string candidate(1, base_char);
 
-    // Check if this character is already used (O(1) lookup)
-    bool found = used_chars.find(candidate) != used_chars.end();
+    // Use backend-specific character set
+    const std::string &chars = available_index_chars();
+
+    // Check if this character is not an admissible one (e.g. the first byte of
+    // a Greek letter) or already used (O(1) lookup)
+    bool found = chars.find(base_char) == std::string::npos ||
+                 used_chars.find(candidate) != used_chars.end();
 
-    // If already used, find next available character
+    // If so, find next available character
     if (found) {
-      // Use backend-specific character set
-      const std::string chars = available_index_chars();
       const auto num_chars = chars.size();
 
       for (std::size_t i = 0; i < num_chars; ++i) {
-- 
2.43.0


From 4412718d4eb6cb8b1fd3ca006a917858c7da2cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:09 +0000
Subject: [PATCH 064/116] fix: loading and zeroing a variable deleted the Julia
 code generated so far

---
 SeQuant/core/export/julia_tensor_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/export/julia_tensor_operations.hpp b/SeQuant/core/export/julia_tensor_operations.hpp
index 70342fa..746b8c2 100644
--- a/SeQuant/core/export/julia_tensor_operations.hpp
+++ b/SeQuant/core/export/julia_tensor_operations.hpp
@@ -200,7 +200,7 @@ class JuliaTensorOperationsGenerator : public Generator<Context> {
     m_generated += represent(variable, ctx) + " = ";
 
     if (set_to_zero)
-      m_generated = "0";
+      m_generated += "0.0";
     else {
       m_generated += "deserialize(\"" + represent(variable, ctx) + ".jlbin\")";
     }
-- 
2.43.0


From 157277c4b7e479ff118e5ef989ea8ef0b01c6bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:09 +0000
Subject: [PATCH 065/116] fix: complex fractions had the wrong imaginary part
 in Julia and Python code

---
 SeQuant/core/export/julia_tensor_operations.hpp | 9 +++++++--
 SeQuant/core/export/python_einsum.hpp           | 8 ++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/SeQuant/core/export/julia_tensor_operations.hpp b/SeQuant/core/export/julia_tensor_operations.hpp
index 746b8c2..46d9d12 100644
--- a/SeQuant/core/export/julia_tensor_operations.hpp
+++ b/SeQuant/core/export/julia_tensor_operations.hpp
@@ -118,10 +118,15 @@ class JuliaTensorOperationsGenerator : public Generator<Context> {
     if (constant.value().imag() != 0) {
       sstream << "(" << constant.value().real();
       if (constant.value().imag() < 0) {
-        sstream << "-" << (-1 * constant.value().imag()) << "im)";
+        sstream << "-";
       } else {
-        sstream << "+" << constant.value().imag() << "im)";
+        sstream << "+";
       }
+      // note that an im after the denominator would belong to the latter
+      const auto imag = abs(constant.value().imag());
+      sstream << numerator(imag) << "im";
+      if (denominator(imag) != 1) sstream << "/" << denominator(imag);
+      sstream << ")";
     } else {
       sstream << constant.value().real();
     }
diff --git a/SeQuant/core/export/python_einsum.hpp b/SeQuant/core/export/python_einsum.hpp
index 3042804..329b035 100644
--- a/SeQuant/core/export/python_einsum.hpp
+++ b/SeQuant/core/export/python_einsum.hpp
@@ -183,10 +183,14 @@ class PythonEinsumGeneratorBase : public Generator<Context> {
       sstream << "(";
       sstream << constant.value().real();
       if (constant.value().imag() < 0) {
-        sstream << constant.value().imag() << "j";
+        sstream << "-";
       } else {
-        sstream << "+" << constant.value().imag() << "j";
+        sstream << "+";
       }
+      // note that a j after the denominator would belong to the latter
+      const auto imag = abs(constant.value().imag());
+      sstream << numerator(imag) << "j";
+      if (denominator(imag) != 1) sstream << "/" << denominator(imag);
       sstream << ")";
     } else {
       sstream << constant.value().real();
-- 
2.43.0


From befeb55180d62bdd1ac56a6866e1c3d5a4c39476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:09 +0000
Subject: [PATCH 066/116] fix: exported code did not conjugate variables, and
 loaded them twice

---
 SeQuant/core/export/export.hpp                | 33 +++++++++++++------
 .../core/export/julia_tensor_operations.hpp   |  6 ++--
 SeQuant/core/export/python_einsum.hpp         |  6 ++--
 SeQuant/core/export/text_generator.hpp        |  6 ++--
 4 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/SeQuant/core/export/export.hpp b/SeQuant/core/export/export.hpp
index bd4b861..836d3f3 100644
--- a/SeQuant/core/export/export.hpp
+++ b/SeQuant/core/export/export.hpp
@@ -41,6 +41,15 @@ struct PreprocessResult {
   std::map<Variable, std::size_t> variableReferences;
 };
 
+/// @returns the object that is kept in storage: conjugation of variables is
+/// applied where their value is used
+inline Variable stored(Variable variable) {
+  if (variable.conjugated()) variable.conjugate();
+  return variable;
+}
+
+inline const Tensor &stored(const Tensor &tensor) { return tensor; }
+
 /// Visitor objects that will steer code generation while visiting a given
 /// expression/evaluation tree by triggering the corresponding callbacks in the
 /// provided Generator objects.
@@ -169,7 +178,7 @@ class GenerationVisitor {
       // load the base Variable (if any)
       const Power &pw = node->as_power();
       if (pw.base()->is<Variable>()) {
-        load_or_create<Variable>(pw.base()->as<Variable>(), node.leaf());
+        load_or_create<Variable>(stored(pw.base()->as<Variable>()), node.leaf());
       }
       return;
     }
@@ -186,7 +195,8 @@ class GenerationVisitor {
     if (node->is_tensor()) {
       load_or_create<Tensor>(node->as_tensor(), node.leaf(), accumulates);
     } else {
-      load_or_create<Variable>(node->as_variable(), node.leaf(), accumulates);
+      load_or_create<Variable>(stored(node->as_variable()), node.leaf(),
+                               accumulates);
     }
   }
 
@@ -201,7 +211,7 @@ class GenerationVisitor {
         m_generator.unload(tensor, m_ctx);
       }
     } else if (expr.is<Variable>()) {
-      const Variable &variable = expr.as<Variable>();
+      const Variable variable = stored(expr.as<Variable>());
 
       SEQUANT_ASSERT(m_variableUses[variable] > 0);
       m_variableUses[variable]--;
@@ -295,7 +305,7 @@ class GenerationVisitor {
         const Variable &var = current->is<Variable>()
                                   ? current->as<Variable>()
                                   : current->as<Power>().base()->as<Variable>();
-        variables.push_back(var);
+        variables.push_back(stored(var));
         if (m_variableUses[variables.back()] == 0) {
           m_generator.load(variables.back(), false, m_ctx);
         }
@@ -394,7 +404,7 @@ bool prune_scalar_factor(ExportNode<T> &node, PreprocessResult &result,
     if ((prunable & PrunableScalars::Variables) == PrunableScalars::None) {
       return false;
     }
-    result.variables[factor->as<Variable>()] |=
+    result.variables[stored(factor->as<Variable>())] |=
         node.leaf() ? Usage::Terminal : Usage::Intermediate;
   } else if (factor->is<Power>()) {
     // treat power based on the base type
@@ -403,7 +413,7 @@ bool prune_scalar_factor(ExportNode<T> &node, PreprocessResult &result,
       if ((prunable & PrunableScalars::Variables) == PrunableScalars::None) {
         return false;
       }
-      result.variables[pw.base()->as<Variable>()] |=
+      result.variables[stored(pw.base()->as<Variable>())] |=
           node.leaf() ? Usage::Terminal : Usage::Intermediate;
     } else if ((prunable & PrunableScalars::Constants) ==
                PrunableScalars::None) {
@@ -480,8 +490,9 @@ void preprocess(ExprType expr, ExportContext &ctx, Node &node,
 
   if (node.leaf()) {
     // Anything but loading doesn't make sense for leaf nodes
-    ctx.setLoadStrategy(expr, LoadStrategy::Load);
-    ctx.setZeroStrategy(expr, ZeroStrategy::NeverZero);
+    const ExprType leaf = stored(expr);
+    ctx.setLoadStrategy(leaf, LoadStrategy::Load);
+    ctx.setZeroStrategy(leaf, ZeroStrategy::NeverZero);
   } else {
     const auto [usedBefore, currentlyLoaded] = [&]() -> std::tuple<bool, bool> {
       if constexpr (std::is_same_v<ExprType, Tensor>) {
@@ -563,7 +574,8 @@ void track_usage(const EvalNode<T> &node, PreprocessResult &result) {
 
     result.tensorReferences[tensor]++;
   };
-  auto handle_variable = [&](const Variable &variable) {
+  auto handle_variable = [&](const Variable &var) {
+    const Variable variable = stored(var);
     result.variables[variable] |= usage;
 
     result.variableReferences[variable]++;
@@ -786,7 +798,8 @@ class PreprocessVisitor {
       SEQUANT_ASSERT(m_result.tensorReferences[tensor] > 0);
       m_result.tensorReferences[tensor]--;
     };
-    auto handle_variable = [&](const Variable &variable) {
+    auto handle_variable = [&](const Variable &var) {
+      const Variable variable = stored(var);
       SEQUANT_ASSERT(m_result.variableReferences[variable] > 0);
       m_result.variableReferences[variable]--;
     };
diff --git a/SeQuant/core/export/julia_tensor_operations.hpp b/SeQuant/core/export/julia_tensor_operations.hpp
index 46d9d12..bbea6b5 100644
--- a/SeQuant/core/export/julia_tensor_operations.hpp
+++ b/SeQuant/core/export/julia_tensor_operations.hpp
@@ -137,9 +137,6 @@ class JuliaTensorOperationsGenerator : public Generator<Context> {
   std::string represent(const Power &power, const Context &ctx) const override {
     const ExprPtr &base = power.base();
     std::string base_str = to_julia_expr(*base, ctx);
-    if (base->is<Variable>() && base->as<Variable>().conjugated()) {
-      base_str = wrap_conj(std::move(base_str));
-    }
     auto s = detail::format_power_base(base, std::move(base_str)) + "^" +
              detail::format_power_exponent(power.exponent(),
                                            /*double_slash*/ true);
@@ -291,7 +288,8 @@ class JuliaTensorOperationsGenerator : public Generator<Context> {
     if (expr.is<Tensor>()) {
       return represent(expr.as<Tensor>(), ctx);
     } else if (expr.is<Variable>()) {
-      return represent(expr.as<Variable>(), ctx);
+      auto s = represent(expr.as<Variable>(), ctx);
+      return expr.as<Variable>().conjugated() ? wrap_conj(std::move(s)) : s;
     } else if (expr.is<Constant>()) {
       return represent(expr.as<Constant>(), ctx);
     } else if (expr.is<Power>()) {
diff --git a/SeQuant/core/export/python_einsum.hpp b/SeQuant/core/export/python_einsum.hpp
index 329b035..908b9a1 100644
--- a/SeQuant/core/export/python_einsum.hpp
+++ b/SeQuant/core/export/python_einsum.hpp
@@ -202,9 +202,6 @@ class PythonEinsumGeneratorBase : public Generator<Context> {
   std::string represent(const Power &power, const Context &ctx) const override {
     const ExprPtr &base = power.base();
     std::string base_str = stringify_scalar(*base, ctx);
-    if (base->is<Variable>() && base->as<Variable>().conjugated()) {
-      base_str = wrap_conj(std::move(base_str));
-    }
     auto s = detail::format_power_base(base, std::move(base_str)) + "**" +
              detail::format_power_exponent(power.exponent(),
                                            /*double_slash*/ false);
@@ -512,7 +509,8 @@ class PythonEinsumGeneratorBase : public Generator<Context> {
   /// as its Python source representation.
   std::string stringify_scalar(const Expr &expr, const Context &ctx) const {
     if (expr.is<Variable>()) {
-      return represent(expr.as<Variable>(), ctx);
+      auto s = represent(expr.as<Variable>(), ctx);
+      return expr.as<Variable>().conjugated() ? wrap_conj(std::move(s)) : s;
     } else if (expr.is<Constant>()) {
       return represent(expr.as<Constant>(), ctx);
     } else if (expr.is<Power>()) {
diff --git a/SeQuant/core/export/text_generator.hpp b/SeQuant/core/export/text_generator.hpp
index 0a478fc..48cd8e0 100644
--- a/SeQuant/core/export/text_generator.hpp
+++ b/SeQuant/core/export/text_generator.hpp
@@ -123,9 +123,6 @@ class TextGenerator : public Generator<Context> {
   std::string represent(const Power &power, const Context &ctx) const override {
     const ExprPtr &base = power.base();
     std::string base_str = stringify(*base, ctx);
-    if (base->is<Variable>() && base->as<Variable>().conjugated()) {
-      base_str = wrap_conj(std::move(base_str));
-    }
     auto s = detail::format_power_base(base, std::move(base_str)) + "^" +
              detail::format_power_exponent(power.exponent(),
                                            /*double_slash*/ false);
@@ -331,7 +328,8 @@ class TextGenerator : public Generator<Context> {
     if (expr.is<Tensor>()) {
       return represent(expr.as<Tensor>(), ctx);
     } else if (expr.is<Variable>()) {
-      return represent(expr.as<Variable>(), ctx);
+      auto s = represent(expr.as<Variable>(), ctx);
+      return expr.as<Variable>().conjugated() ? wrap_conj(std::move(s)) : s;
     } else if (expr.is<Constant>()) {
       return represent(expr.as<Constant>(), ctx);
     } else if (expr.is<Power>()) {
-- 
2.43.0


From d89db345ebab6e933c10b54a1072b736a15aceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:21 +0000
Subject: [PATCH 067/116] fix: products of operators with different
 normalization did not compare different

---
 SeQuant/domain/mbpt/op.ipp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/SeQuant/domain/mbpt/op.ipp b/SeQuant/domain/mbpt/op.ipp
index 8f28062..d4fecd2 100644
--- a/SeQuant/domain/mbpt/op.ipp
+++ b/SeQuant/domain/mbpt/op.ipp
@@ -236,6 +236,19 @@ Expr::hash_type Operator<QuantumNumbers, S>::memoizing_hash() const {
   return *(this->hash_value_);
 }
 
+template <typename QuantumNumbers, Statistics S>
+ExprPtr Operator<QuantumNumbers, S>::prefactor() const {
+  const auto form = this->tensor_form();
+  auto result = std::make_shared<Product>();
+  if (form.template is<Product>()) {
+    const auto& product = form.template as<Product>();
+    result->scale(product.scalar());
+    for (const auto& factor : product.factors())
+      if (factor->is_scalar()) result->append(1, factor);
+  }
+  return result;
+}
+
 template <typename QuantumNumbers, Statistics S>
 bool Operator<QuantumNumbers, S>::static_equal(const Expr& other_expr) const {
   const auto& other =
@@ -243,7 +256,9 @@ bool Operator<QuantumNumbers, S>::static_equal(const Expr& other_expr) const {
   return this->label() == other.label() &&
          (*this)(QuantumNumbers{}) == other(QuantumNumbers{}) &&
          this->batch_ordinals() == other.batch_ordinals() &&
-         this->order() == other.order();
+         this->order() == other.order() &&
+         // label and QNs do not reflect the normalization
+         *this->prefactor() == *other.prefactor();
 }
 
 }  // namespace mbpt
-- 
2.43.0


From 23006e021139045652cfb9d9567ecb7a4c126791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:21 +0000
Subject: [PATCH 068/116] fix: operator adjoint taken twice kept the adjoint
 flag

---
 SeQuant/domain/mbpt/op.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SeQuant/domain/mbpt/op.ipp b/SeQuant/domain/mbpt/op.ipp
index d4fecd2..a0082a4 100644
--- a/SeQuant/domain/mbpt/op.ipp
+++ b/SeQuant/domain/mbpt/op.ipp
@@ -156,8 +156,9 @@ void Operator<QuantumNumbers, S>::adjoint() {
     lbl.push_back(sequant::adjoint_label);
   }
 
-  // get order and batch_ordinals to restore later
+  // get order, batch_ordinals and adjoint flag to restore later
   const auto saved_order = this->order_;
+  const auto saved_is_adjoint = this->is_adjoint_;
   const auto saved_batch_ordinals = this->batch_ordinals_;
 
   // capture the current tensor-form generator so that each call regenerates
@@ -173,7 +174,7 @@ void Operator<QuantumNumbers, S>::adjoint() {
         qn += sequant::adjoint(dN);
         return qn;  // qn_action
       }};
-  this->is_adjoint_ = !this->is_adjoint_;  // toggle adjoint flag
+  this->is_adjoint_ = !saved_is_adjoint;  // toggle adjoint flag
 
   // restore original order and batch_ordinals
   this->order_ = saved_order;
-- 
2.43.0


From d1ea205443d15fa7f2dbfad482086933d6472d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:21 +0000
Subject: [PATCH 069/116] fix: operators that do not commute (equal ranks, odd
 number of fermions, overlapping spaces) were reordered

---
 SeQuant/domain/mbpt/op.cpp | 11 +++++++++++
 SeQuant/domain/mbpt/op.hpp | 11 +++++++++++
 SeQuant/domain/mbpt/op.ipp | 29 +++++++++++++++++++++++++----
 3 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/SeQuant/domain/mbpt/op.cpp b/SeQuant/domain/mbpt/op.cpp
index 50f7b29..ae7de73 100644
--- a/SeQuant/domain/mbpt/op.cpp
+++ b/SeQuant/domain/mbpt/op.cpp
@@ -284,6 +284,17 @@ qns_t combine(qns_t a, qns_t b) {
   }
 }
 
+bool can_contract(const qns_t& a, const qns_t& b) {
+  SEQUANT_ASSERT(a.size() == b.size());
+  for (std::size_t i = 0; i + 1 < a.size(); i += 2) {
+    // creators of a with annihilators of b, or vice versa, in the same space
+    if ((a[i].upper() > 0 && b[i + 1].upper() > 0) ||
+        (a[i + 1].upper() > 0 && b[i].upper() > 0))
+      return true;
+  }
+  return false;
+}
+
 // must be defined including op.ipp since it's used there
 template <>
 bool is_vacuum<qns_t>(qns_t qns) {
diff --git a/SeQuant/domain/mbpt/op.hpp b/SeQuant/domain/mbpt/op.hpp
index 658e1ba..ece2df5 100644
--- a/SeQuant/domain/mbpt/op.hpp
+++ b/SeQuant/domain/mbpt/op.hpp
@@ -463,6 +463,10 @@ using op_t = mbpt::Operator<qnc_t>;
 /// combines 2 sets of quantum numbers using Wick's theorem
 qns_t combine(qns_t, qns_t);
 
+/// @return true if products (in either order) of two operators that change the
+/// quantum numbers by @p a and @p b can include contractions between them
+bool can_contract(const qns_t& a, const qns_t& b);
+
 /// @brief Constructs quantum numbers for an excitation operator based on the
 /// defined context
 /// @param k the rank of the operator
@@ -959,6 +963,13 @@ class Operator : public Operator<void, S> {
 
   size_t order_ = 0;
 
+  /// @return the numerical prefactor of the tensor form
+  ExprPtr prefactor() const;
+
+  /// @return true if this is a product of an odd number of fermionic
+  /// creators/annihilators
+  bool is_fermi_odd() const;
+
   bool less_than_rank_of(const this_type& that) const;
 
   Expr::type_id_type type_id() const override;
diff --git a/SeQuant/domain/mbpt/op.ipp b/SeQuant/domain/mbpt/op.ipp
index a0082a4..a5bdd75 100644
--- a/SeQuant/domain/mbpt/op.ipp
+++ b/SeQuant/domain/mbpt/op.ipp
@@ -129,14 +129,35 @@ bool Operator<QuantumNumbers, S>::commutes_with_atom(const Expr& that) const {
 
     // if this has annihilators/creators in same space as that has
     // creator/annihilators return false
-
-    auto delta_this = (*this)();
-    auto delta_that = (that_op)();
+    if (can_contract((*this)(), that_op())) return false;
 
     SEQUANT_ASSERT(this->size() % 2 == 0 && that.size() == this->size());
 
-    return combine(delta_this, delta_that) == combine(delta_that, delta_this);
+    // odd products of fermionic operators anticommute
+    return !(this->is_fermi_odd() && that_op.is_fermi_odd());
+  }
+}
+
+template <typename QuantumNumbers, Statistics S>
+bool Operator<QuantumNumbers, S>::is_fermi_odd() const {
+  if constexpr (S != Statistics::FermiDirac) return false;
+  std::size_t n = 0;
+  const auto qns = (*this)();
+  for (const auto& qn : qns) {
+    if (qn.lower() != qn.upper()) {
+      // QNs do not determine the rank, need to look inside
+      n = 0;
+      this->tensor_form()->visit(
+          [&n](const ExprPtr& e) {
+            if (e.is<NormalOperator<S>>())
+              n += e.as<NormalOperator<S>>().size();
+          },
+          /* atoms_only = */ true);
+      return n % 2 == 1;
+    }
+    n += qn.lower();
   }
+  return n % 2 == 1;
 }
 
 template <typename QuantumNumbers, Statistics S>
-- 
2.43.0


From 17734f7c884cee215664124008d77237355061cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:28 +0000
Subject: [PATCH 070/116] fix: reference expectation value of
 partially-occupied orbitals was screened out, or zero for a single operator

---
 SeQuant/domain/mbpt/vac_av.cpp | 36 +++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/SeQuant/domain/mbpt/vac_av.cpp b/SeQuant/domain/mbpt/vac_av.cpp
index 834da84..9990a01 100644
--- a/SeQuant/domain/mbpt/vac_av.cpp
+++ b/SeQuant/domain/mbpt/vac_av.cpp
@@ -49,6 +49,31 @@ std::vector<std::pair<int, int>> lower_label_pairs(
   }
   return result;
 }
+
+/// @return QNs of the products of operators that can have nonzero expectation
+/// value with respect to a reference different from the vacuum, i.e. of those
+/// that create and annihilate particles in the partially-occupied orbitals
+qns_t reference_qns() {
+  constexpr qns_t::QNC max = 1 << 20;
+  qns_t result;
+  if (get_default_context().vacuum() == Vacuum::Physical) {
+    result[0] = {0, max};
+    result[1] = {0, max};
+  } else {
+    auto isr = get_default_context().index_space_registry();
+    const auto reference = isr->reference_occupied_space(Spin::any).type();
+    const auto vacuum = isr->vacuum_occupied_space(Spin::any).type();
+    const auto& base_spaces = isr->base_spaces();
+    for (std::size_t i = 0; i != base_spaces.size(); ++i) {
+      const auto type = base_spaces[i].type();
+      if (includes(reference, type) && !includes(vacuum, type)) {
+        result[2 * i] = {0, max};
+        result[2 * i + 1] = {0, max};
+      }
+    }
+  }
+  return result;
+}
 }  // namespace
 
 // fwd declare the tensor level impl function
@@ -103,7 +128,8 @@ ExprPtr expectation_value_impl(ExprPtr expr,
 
       // if composed of ops only, screen out products with zero VEV
       if (ops_only && screen) {
-        if (!can_change_qns(expr, qns_t{})) {
+        if (!can_change_qns(expr, full_contractions ? qns_t{}
+                                                    : reference_qns())) {
           return ex<Constant>(0);
         }
       }
@@ -147,8 +173,12 @@ ExprPtr expectation_value_impl(ExprPtr expr,
     simplify(result);  // combine possible equivalent summands
     return result;
   } else if (expr.is<op_t>()) {
-    return ex<Constant>(
-        0);  // expectation value of a normal-ordered operator is 0
+    if (full_contractions)
+      return ex<Constant>(
+          0);  // vacuum expectation value of a normal-ordered operator is 0
+    else
+      return vac_av_product(
+          ex<Product>(ExprPtrList{expr}, Product::Flatten::No));
   } else if (expr->is_scalar()) {
     return expr;  // vacuum is normalized
   }
-- 
2.43.0


From 4c48d3a365bcea34df1b578b5eeba4fe42ede336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:28 +0000
Subject: [PATCH 071/116] fix: reference expectation value with a single factor
 asserted

---
 SeQuant/domain/mbpt/op.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SeQuant/domain/mbpt/op.cpp b/SeQuant/domain/mbpt/op.cpp
index ae7de73..667f989 100644
--- a/SeQuant/domain/mbpt/op.cpp
+++ b/SeQuant/domain/mbpt/op.cpp
@@ -1527,8 +1527,13 @@ ExprPtr expectation_value_impl(ExprPtr expr, OpConnections<int> connect,
         auto product_ptr = exptr.template as_shared_ptr<Product>();
         impl_for_single_tn(product_ptr);
         exptr = product_ptr;
+      } else if (!exptr.template is<Sum>()) {
+        // a lone factor (e.g. f^I_I or a Constant)
+        auto product_ptr =
+            std::make_shared<Product>(ExprPtrList{exptr->clone()});
+        impl_for_single_tn(product_ptr);
+        exptr = product_ptr;
       } else {
-        SEQUANT_ASSERT(exptr.template is<Sum>());
         auto result = std::make_shared<Sum>();
         for (auto& summand : exptr.template as<Sum>().summands()) {
           // a summand may collapse to a single factor rather than a Product
-- 
2.43.0


From 94c2b67bec5d4a227de2a8534b4be5c8a1e502f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:29 +0000
Subject: [PATCH 072/116] fix: expectation value of a sum with non-numeric
 scalar factors threw

---
 SeQuant/domain/mbpt/op.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/SeQuant/domain/mbpt/op.cpp b/SeQuant/domain/mbpt/op.cpp
index 667f989..a3fcaa3 100644
--- a/SeQuant/domain/mbpt/op.cpp
+++ b/SeQuant/domain/mbpt/op.cpp
@@ -8,6 +8,7 @@
 #include <SeQuant/domain/mbpt/op.hpp>
 #include <SeQuant/domain/mbpt/op_registry.hpp>
 
+#include <range/v3/algorithm/any_of.hpp>
 #include <range/v3/algorithm/contains.hpp>
 #include <range/v3/algorithm/for_each.hpp>
 #include <range/v3/algorithm/is_sorted.hpp>
@@ -1344,19 +1345,29 @@ namespace tensor {
 ExprPtr expectation_value_impl(ExprPtr expr, OpConnections<int> connect,
                                OpConnections<int> avoid, bool use_top,
                                bool full_contractions) {
+  simplify(expr);
+
   // Pull scalar factors  out of a Product before WickTheorem sees it.
   // Extracted factors are reattached to the result after Wick evaluation.
+  auto has_scalar_factors = [](const ExprPtr& e) {
+    return e.is<Product>() && !ranges::empty(e.as<Product>().scalar_factors());
+  };
   container::svector<ExprPtr> scalar_factors;
-  if (expr.is<Product>()) {
+  if (has_scalar_factors(expr)) {
     const auto& prod = expr.as<Product>();
     scalar_factors =
         prod.scalar_factors() | ranges::to<container::svector<ExprPtr>>;
-    if (!scalar_factors.empty()) {
-      expr = ex<Product>(prod.scalar(), prod.nonscalar_factors());
-    }
+    expr = ex<Product>(prod.scalar(), prod.nonscalar_factors());
+  } else if (expr.is<Sum>() &&
+             ranges::any_of(expr.as<Sum>().summands(), has_scalar_factors)) {
+    // each summand has its own scalar factors
+    auto result = sequant::transform_sum_expr(*expr, [&](const auto& term) {
+      return expectation_value_impl(term, connect, avoid, use_top,
+                                    full_contractions);
+    });
+    return simplify(result);
   }
 
-  simplify(expr);
   auto isr = get_default_context().index_space_registry();
   const auto spinor = get_default_context().spbasis() == SPBasis::Spinor;
   // convention is to use different label for spin-orbital and spin-free RDM
-- 
2.43.0


From a0f14567a53ff99c6638b618b315181dd532bd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:29 +0000
Subject: [PATCH 073/116] fix: quantum numbers of operators between explicitly
 given spaces

---
 SeQuant/domain/mbpt/op.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/SeQuant/domain/mbpt/op.cpp b/SeQuant/domain/mbpt/op.cpp
index a3fcaa3..88e59ab 100644
--- a/SeQuant/domain/mbpt/op.cpp
+++ b/SeQuant/domain/mbpt/op.cpp
@@ -193,8 +193,8 @@ qns_t generic_excitation_qns(std::size_t particle_rank, std::size_t hole_rank,
   } else {
     auto isr = get_default_context().index_space_registry();
     const auto& base_spaces = isr->base_spaces();
-    bool aps_base = isr->is_base(isr->particle_space(SQN));
-    bool ahs_base = isr->is_base(isr->hole_space(SQN));
+    bool aps_base = isr->is_base(particle_space);
+    bool ahs_base = isr->is_base(hole_space);
     for (int i = 0; i < base_spaces.size(); i++) {
       const auto& base_space = base_spaces[i];
       result[i * 2] = {0ul, 0ul};
@@ -221,13 +221,13 @@ qns_t generic_deexcitation_qns(std::size_t particle_rank, std::size_t hole_rank,
                                const IndexSpace::QuantumNumbers SQN) {
   qnc_t result;
   if (get_default_context().vacuum() == Vacuum::Physical) {
-    result[0] = {0ul, particle_rank};
-    result[1] = {0ul, hole_rank};
+    result[0] = {0ul, hole_rank};
+    result[1] = {0ul, particle_rank};
   } else {
     auto isr = get_default_context().index_space_registry();
     const auto& base_spaces = isr->base_spaces();
-    bool aps_base = isr->is_base(isr->particle_space(SQN));
-    bool ahs_base = isr->is_base(isr->hole_space(SQN));
+    bool aps_base = isr->is_base(particle_space);
+    bool ahs_base = isr->is_base(hole_space);
     for (int i = 0; i < base_spaces.size(); i++) {
       const auto& base_space = base_spaces[i];
       result[i * 2] = {0ul, 0ul};
-- 
2.43.0


From 88adc4545ee7cb9a9073b30dd48b5965547534df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:29 +0000
Subject: [PATCH 074/116] fix: canonicalization asserted with a custom index
 comparer

---
 SeQuant/core/tensor_network/v3.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SeQuant/core/tensor_network/v3.cpp b/SeQuant/core/tensor_network/v3.cpp
index 5de0a92..e93fbe9 100644
--- a/SeQuant/core/tensor_network/v3.cpp
+++ b/SeQuant/core/tensor_network/v3.cpp
@@ -629,10 +629,10 @@ ExprPtr TensorNetworkV3::canonicalize(
 
     byproduct *= canonicalize_individual_tensors(named_indices);
 
-    // We assume that re-indexing did not change the canonical order of tensors
-    SEQUANT_ASSERT(
-        std::is_sorted(tensors_.begin(), tensors_.end(), tensor_sorter));
-    // However, in order to produce the most aesthetically pleasing result, we
+    // Re-indexing does not change the canonical order of tensors, but if
+    // TensorCanonicalizer::index_comparer() is customized canonicalization of
+    // individual tensors can, by reordering indices of different spaces.
+    // Hence, and in order to produce the most aesthetically pleasing result, we
     // now reorder tensors based on the regular AbstractTensor::operator<, which
     // takes the explicit index labelling of tensors into account.
     tensor_sorter.set_blocks_only(false);
-- 
2.43.0


From 0a4094c2d7cb5c11dd723d694e3b1eb0e0d7859a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:46 +0000
Subject: [PATCH 075/116] fix: quantum numbers of operators that do not
 conserve particles in the physical vacuum

---
 SeQuant/domain/mbpt/op.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeQuant/domain/mbpt/op.cpp b/SeQuant/domain/mbpt/op.cpp
index 88e59ab..43e2d11 100644
--- a/SeQuant/domain/mbpt/op.cpp
+++ b/SeQuant/domain/mbpt/op.cpp
@@ -188,8 +188,8 @@ qns_t generic_excitation_qns(std::size_t particle_rank, std::size_t hole_rank,
                              const IndexSpace::QuantumNumbers SQN) {
   qnc_t result;
   if (get_default_context().vacuum() == Vacuum::Physical) {
-    result[0] = {0ul, hole_rank};
-    result[1] = {0ul, particle_rank};
+    result[0] = {0ul, particle_rank};
+    result[1] = {0ul, hole_rank};
   } else {
     auto isr = get_default_context().index_space_registry();
     const auto& base_spaces = isr->base_spaces();
-- 
2.43.0


From f5653d39e216f8eec3e0f5a2e00e3df30be08717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 076/116] fix: coupled-cluster equations with no terms left by
 screening dereferenced a null pointer

---
 SeQuant/domain/mbpt/models/cc.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/SeQuant/domain/mbpt/models/cc.cpp b/SeQuant/domain/mbpt/models/cc.cpp
index 59ab75d..9b6c75d 100644
--- a/SeQuant/domain/mbpt/models/cc.cpp
+++ b/SeQuant/domain/mbpt/models/cc.cpp
@@ -107,6 +107,10 @@ std::vector<ExprPtr> CC::t(size_t pmax, size_t pmin) const {
         hbar_le_p;  // keeps products that can produce excitations rank <=p
 
     if (screen_) {  // if operator level screening is on
+      if (!hbar) {  // no products can produce excitations of this rank
+        result.at(p) = ex<Constant>(0);
+        continue;
+      }
       for (auto& term : *hbar) {
         SEQUANT_ASSERT(term->is<Product>() || term->is<op_t>());
         if (raises_vacuum_up_to_rank(term, p)) {
@@ -123,6 +127,10 @@ std::vector<ExprPtr> CC::t(size_t pmax, size_t pmin) const {
         }
       }
       hbar = hbar_le_p;
+      if (!hbar_for_vev) {
+        result.at(p) = ex<Constant>(0);
+        continue;
+      }
     } else {  // no screening, use full hbar
       hbar_for_vev = hbar.is<Sum>() ? hbar.as_shared_ptr<Sum>()
                                     : std::make_shared<Sum>(hbar);
@@ -175,6 +183,10 @@ std::vector<ExprPtr> CC::λ() const {
     std::shared_ptr<Sum>
         lhbar_le_p;  // keeps products that can produce excitations rank <=p
     if (screen_) {   // if operator level screening is enabled
+      if (!lhbar) {  // no products can lower this rank to vacuum
+        result.at(p) = ex<Constant>(0);
+        continue;
+      }
       for (auto& term : *lhbar) {  // pick terms from lhbar
         SEQUANT_ASSERT(term->is<Product>() || term->is<op_t>());
 
@@ -192,6 +204,10 @@ std::vector<ExprPtr> CC::λ() const {
         }
       }
       lhbar = lhbar_le_p;
+      if (!lhbar_for_vev) {
+        result.at(p) = ex<Constant>(0);
+        continue;
+      }
     } else {  // no screening
       lhbar_for_vev = lhbar.is<Sum>() ? lhbar.as_shared_ptr<Sum>()
                                       : std::make_shared<Sum>(lhbar);
-- 
2.43.0


From 5d0ed30c227ec8a1b49f0bf3a736a0cbfc791b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:30 +0000
Subject: [PATCH 077/116] fix: spintrace of sums left the tags of indices set

---
 SeQuant/domain/mbpt/spin.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index a182e40..2c8cbd1 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -1849,7 +1849,6 @@ ExprPtr spintrace_impl(const ExprPtr& expression, IdxGroups&& ext_index_groups,
         result_sum->append(term);
       result = result_sum;
     }
-    return result;
   } else {
     throw Exception("Invalid Expr type in spintrace: " + expr->type_name());
   }
-- 
2.43.0


From 7505d3502f47ba21088f6c3eba4a9c8f72766fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:30 +0000
Subject: [PATCH 078/116] fix: spintrace of nonsymmetric tensors did not
 conserve the spin of each particle

---
 SeQuant/domain/mbpt/spin.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index 2c8cbd1..7ed48b4 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -1675,22 +1675,27 @@ ExprPtr spintrace_impl(const ExprPtr& expression, IdxGroups&& ext_index_groups,
   // This function must be used for tensors with spin-specific indices only. If
   // the spin-symmetry is conserved: the tensor is expanded; else: zero is
   // returned.
-  auto spintrace_tensor = [](const Tensor& tensor) {
-    return can_expand(tensor) ? expand_antisymm(tensor) : ex<Constant>(0);
+  // N.B. particles of nonsymmetric tensors conserve spin individually
+  auto conserves_spin = [](const Tensor& tensor) {
+    return can_expand(tensor) && (tensor.symmetry() != Symmetry::Nonsymm ||
+                                  ms_conserving_columns(tensor));
+  };
+  auto spintrace_tensor = [&conserves_spin](const Tensor& tensor) {
+    return conserves_spin(tensor) ? expand_antisymm(tensor) : ex<Constant>(0);
   };
 
   // This function is used to spin-trace a product terms with spin-specific
   // indices. It checks if all tensors can be expanded and spintraces individual
   // tensors by call to the spin_trace_tensor lambda.
-  auto spintrace_product =
-      [&spintrace_tensor](const ProductPtr& product) -> ExprPtr {
+  auto spintrace_product = [&spintrace_tensor, &conserves_spin](
+                               const ProductPtr& product) -> ExprPtr {
     ProductPtr spin_product = std::make_shared<Product>();
 
     // Check if all tensors in this product can be expanded
     // If NOT all tensors can be expanded, return zero
     for (const ExprPtr& expr : product->factors()) {
       if (expr.is<Tensor>()) {
-        if (!can_expand(expr.as<Tensor>())) {
+        if (!conserves_spin(expr.as<Tensor>())) {
           return ex<Constant>(0);
         }
       } else if (expr.is<Sum>() || expr.is<Product>()) {
-- 
2.43.0


From f79218b6cc1d7f4cc4c928c63a01864bf2c4c16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:30 +0000
Subject: [PATCH 079/116] fix: closed-shell spin tracing treated auxiliary
 indices as particles

---
 SeQuant/domain/mbpt/spin.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index 7ed48b4..034ce5d 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -95,6 +95,26 @@ void reset_idx_tags(const ExprPtr& expr) {
       true);
 }
 
+// auxiliary indices do not refer to particles, hence have no spin
+container::set<Index> aux_indices(const ExprPtr& expr) {
+  container::set<Index> result;
+  auto collect = [&result](const ExprPtr& current) {
+    if (current.is<AbstractTensor>()) {
+      for (const Index& idx : current.as<AbstractTensor>()._aux()) {
+        if (!idx.nonnull()) continue;
+        Index copy = idx;
+        copy.reset_tag();
+        result.insert(std::move(copy));
+      }
+    }
+  };
+  if (expr->is_atom())
+    collect(expr);
+  else
+    expr->visit([&](const ExprPtr& current) { collect(current); }, true);
+  return result;
+}
+
 template <typename Container, typename TraceFunction, typename... Args>
 [[nodiscard]] Container wrap_trace(const ResultExpr& expr,
                                    TraceFunction&& tracer, Args&&... args) {
@@ -1746,9 +1766,11 @@ ExprPtr spintrace_impl(const ExprPtr& expression, IdxGroups&& ext_index_groups,
     }
 
     // List of internal indices, i.e. indices that are contracted over
+    const auto aux_idxlist = detail::aux_indices(expr);
     container::set<Index> int_idxlist;
     for (auto&& gidx : grand_idxlist) {
-      if (ext_idxlist.find(gidx) == ext_idxlist.end()) {
+      if (ext_idxlist.find(gidx) == ext_idxlist.end() &&
+          aux_idxlist.find(gidx) == aux_idxlist.end()) {
         int_idxlist.insert(gidx);
       }
     }
-- 
2.43.0


From 52afa0482cadd2a6063d79eec8a03680d6d5e1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:30 +0000
Subject: [PATCH 080/116] fix: open_shell_spintrace summed over spins of other
 terms' indices and of auxiliary indices, and changed its argument

---
 SeQuant/domain/mbpt/spin.cpp | 57 +++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index 034ce5d..309a9c5 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -1394,10 +1394,6 @@ std::vector<ExprPtr> open_shell_spintrace_impl(
     return std::vector<ExprPtr>{expr};
   }
 
-  // Grand index list contains both internal and external indices
-  container::set<Index, Index::LabelCompare> grand_idxlist =
-      get_used_indices<decltype(grand_idxlist)>(expr);
-
   container::set<Index> ext_idxlist;
   for (const auto& idxgrp : ext_index_groups) {
     for (const Index& current : idxgrp) {
@@ -1407,21 +1403,23 @@ std::vector<ExprPtr> open_shell_spintrace_impl(
     }
   }
 
-  container::set<Index> int_idxlist;
-  for (auto&& gidx : grand_idxlist) {
-    if (ext_idxlist.find(gidx) == ext_idxlist.end()) {
-      int_idxlist.insert(gidx);
-    }
-  }
-
   using IndexGroup = container::svector<Index>;
-  container::svector<IndexGroup> int_index_groups;
-  for (auto&& i : int_idxlist) {
-    int_index_groups.emplace_back(IndexGroup(1, i));
-  }
 
-  SEQUANT_ASSERT(grand_idxlist.size() ==
-                 int_idxlist.size() + ext_idxlist.size());
+  // Internal indices of a term whose spin is to be summed over
+  auto make_int_index_groups = [&ext_idxlist](const ExprPtr& term) {
+    container::set<Index, Index::LabelCompare> grand_idxlist =
+        get_used_indices<decltype(grand_idxlist)>(term);
+    const auto aux_idxlist = detail::aux_indices(term);
+
+    container::svector<IndexGroup> int_index_groups;
+    for (auto&& gidx : grand_idxlist) {
+      if (ext_idxlist.find(gidx) == ext_idxlist.end() &&
+          aux_idxlist.find(gidx) == aux_idxlist.end()) {
+        int_index_groups.emplace_back(IndexGroup(1, gidx));
+      }
+    }
+    return int_index_groups;
+  };
 
   // make a spin-specific index, orientation is given by spin_bit: 0 =
   // spin-down/beta, 1 = spin-up/alpha
@@ -1472,7 +1470,6 @@ std::vector<ExprPtr> open_shell_spintrace_impl(
   };
 
   // Internal and external index replacements are independent
-  auto i_rep = spin_cases(int_index_groups);
   auto e_rep = ext_spin_cases(ext_index_groups);
 
   // For a single spin case, keep only the relevant spin case
@@ -1484,7 +1481,7 @@ std::vector<ExprPtr> open_shell_spintrace_impl(
   }
 
   // Expand 'A' operator and 'antisymm' tensors
-  auto expanded_expr = expand_A_op(expr);
+  auto expanded_expr = expand_A_op(expr.clone());
   detail::reset_idx_tags(expanded_expr);
   expand(expanded_expr);
   simplify(expanded_expr);
@@ -1518,15 +1515,21 @@ std::vector<ExprPtr> open_shell_spintrace_impl(
   // SPIN-TRACING algorithm begins here
   //
 
-  // Loop over external index replacement maps
-  for (auto& e : e_rep) {
+  // N.B. each term has its own internal indices; they must be those of the
+  // expanded expression since its simplification may have renamed them
+  const auto terms = expanded_expr->is<Sum>()
+                         ? expanded_expr->as<Sum>().summands()
+                         : Sum::summands_type{expanded_expr};
+
+  auto spintrace_term = [&](const ExprPtr& term,
+                            const container::map<Index, Index>& e,
+                            Sum& e_result) {
     // Add spin labels to external indices
-    auto spin_expr = append_spin(expanded_expr, e);
+    auto spin_expr = append_spin(term, e);
     detail::reset_idx_tags(spin_expr);
-    Sum e_result{};
 
     // Loop over internal index replacement maps
-    for (auto& i : i_rep) {
+    for (auto& i : spin_cases(make_int_index_groups(term))) {
       // Add spin labels to internal indices, expand antisymmetric tensors
       ExprPtr spin_expr_i = append_spin(spin_expr, i);
       spin_expr_i = expand_antisymm(spin_expr_i, true);
@@ -1555,6 +1558,12 @@ std::vector<ExprPtr> open_shell_spintrace_impl(
       }
 
     }  // loop over internal indices
+  };
+
+  // Loop over external index replacement maps
+  for (auto& e : e_rep) {
+    Sum e_result{};
+    for (auto& term : terms) spintrace_term(term, e, e_result);
     result.push_back(std::make_shared<Sum>(e_result));
   }  // loop over external indices
 
-- 
2.43.0


From a2fa216f60e8aeda7ac4c04a63d2bddbc78d9113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:31 +0000
Subject: [PATCH 081/116] fix: S_maps dropped the Variables of sums

---
 SeQuant/domain/mbpt/spin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index 309a9c5..b6d1823 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -936,7 +936,7 @@ ExprPtr S_maps(const ExprPtr& expr) {
       if (term->is<Product>()) {
         result->append(expand_S_product(term.as_shared_ptr<Product>()));
       } else if (term->is<Tensor>() || term->is<Constant>() ||
-                 expr->is<Variable>()) {
+                 term->is<Variable>()) {
         result->append(term);
       }
     }
-- 
2.43.0


From a76b4b3b20a109a720d7d9db32cd91c9a08f5bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:31 +0000
Subject: [PATCH 082/116] fix: expand_P_op of several P gave a sum instead of
 their composition

---
 SeQuant/domain/mbpt/spin.cpp | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index b6d1823..013bc8f 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -813,25 +813,26 @@ ExprPtr expand_P_op(const ProductPtr& product) {
   if (!has_P_operator) return product;
 
   auto result = std::make_shared<Sum>();
-  for (auto&& map : map_list) {
-    ProductPtr new_product = std::make_shared<Product>();
-    new_product->scale(product->scalar());
-    auto temp_product = remove_tensor(product, reserved::transposition_label());
-    for (auto&& term : *temp_product) {
-      if (term->is<Tensor>()) {
-        auto new_tensor = term->as<Tensor>();
-        new_tensor.transform_indices(map);
+  ProductPtr new_product = std::make_shared<Product>();
+  new_product->scale(product->scalar());
+  auto temp_product = remove_tensor(product, reserved::transposition_label());
+  for (auto&& term : *temp_product) {
+    if (term->is<Tensor>()) {
+      auto new_tensor = term->as<Tensor>();
+      // product of P operators: the rightmost one acts first
+      for (auto it = map_list.rbegin(); it != map_list.rend(); ++it) {
+        new_tensor.transform_indices(*it);
         new_tensor.reset_tags();
-        new_product->append(1, ex<Tensor>(new_tensor));
-      } else if (term->is<Constant>() || term->is<Variable>()) {
-        new_product->append(1, term);
-      } else {
-        throw Exception("Invalid Expr type in expand_P_op: " +
-                        term->type_name());
       }
+      new_product->append(1, ex<Tensor>(new_tensor));
+    } else if (term->is<Constant>() || term->is<Variable>()) {
+      new_product->append(1, term);
+    } else {
+      throw Exception("Invalid Expr type in expand_P_op: " +
+                      term->type_name());
     }
-    result->append(new_product);
-  }  // map_list
+  }
+  result->append(new_product);
 
   return result;
 }
-- 
2.43.0


From 7ed1e62f0035ad896fb8c233cdf05970542b6ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:31 +0000
Subject: [PATCH 083/116] fix: symmetrize_expr of particle-nonconserving
 antisymmetrizers threw or was normalized wrongly

---
 SeQuant/domain/mbpt/spin.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index 013bc8f..32cbbad 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -648,7 +648,7 @@ ExprPtr symmetrize_expr(const ProductPtr& product) {
   if (A_is_nconserving && A_tensor.bra_rank() == 1)
     return remove_tensor(product, reserved::antisymm_label());
 
-  SEQUANT_ASSERT(A_tensor.rank() > 1);
+  SEQUANT_ASSERT(A_tensor.bra_rank() > 0 && A_tensor.ket_rank() > 0);
 
   auto S = Tensor{};
   if (A_is_nconserving) {
@@ -663,7 +663,8 @@ ExprPtr symmetrize_expr(const ProductPtr& product) {
     S = Tensor(reserved::symm_label(), bra(std::move(bra_list)),
                ket(std::move(ket_list)), A_tensor.aux(), Symmetry::Nonsymm);
   }
-  const auto nf = rational{1, factorial(S.ket_rank())};
+  const auto nf = rational{
+      1, factorial(std::max(A_tensor.bra_rank(), A_tensor.ket_rank()))};
 
   // Generate replacement maps from a list of Index type (could be a bra or a
   // ket)
-- 
2.43.0


From 491fb9bc8de96bb189e535899f3d94ae480bdd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:31 +0000
Subject: [PATCH 084/116] fix: remove_spin dropped column symmetry

---
 SeQuant/domain/mbpt/spin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index 32cbbad..2998dc4 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -345,7 +345,7 @@ ExprPtr remove_spin(const ExprPtr& expr) {
     }
     return ex<Tensor>(tensor.label(), bra(std::move(b)), ket(std::move(k)),
                       tensor.aux(), tensor.symmetry(),
-                      tensor.braket_symmetry());
+                      tensor.braket_symmetry(), tensor.column_symmetry());
   };
 
   auto remove_spin_from_product =
-- 
2.43.0


From 4f0a8f8816d80c316f55602c437432785b9c8866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:31 +0000
Subject: [PATCH 085/116] fix: swap_bra_ket dropped auxiliary indices

---
 SeQuant/domain/mbpt/spin.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index 2998dc4..ef24d55 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -255,8 +255,9 @@ ExprPtr swap_bra_ket(const ExprPtr& expr) {
   // Lambda for tensor
   auto tensor_swap = [](const Tensor& tensor) {
     return ex<Tensor>(tensor.label(), bra(tensor.ket().value()),
-                      ket(tensor.bra().value()), tensor.symmetry(),
-                      tensor.braket_symmetry(), tensor.column_symmetry());
+                      ket(tensor.bra().value()), tensor.aux(),
+                      tensor.symmetry(), tensor.braket_symmetry(),
+                      tensor.column_symmetry());
   };
 
   // Lambda for product
-- 
2.43.0


From 987f319b18619be5ca6042b04b23a9956b7781ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:31 +0000
Subject: [PATCH 086/116] fix: spin tracing of tensor-valued results had wrong
 phases and repeated equivalent pairings

---
 SeQuant/domain/mbpt/spin.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index ef24d55..abf3f93 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -150,7 +150,7 @@ template <typename Container, typename TraceFunction, typename... Args>
   const std::size_t unchangedSize =
       permuteBra ? expr.ket().size() : expr.bra().size();
 
-  [[maybe_unused]] auto get_phase = [](auto container) {
+  auto get_phase = [](auto container) {
     reset_ts_swap_counter<Index>();
     bubble_sort(container.begin(), container.end(), std::less<Index>{});
     return ts_swap_counter_is_even<Index>() ? 1 : -1;
@@ -169,14 +169,11 @@ template <typename Container, typename TraceFunction, typename... Args>
   // For next_permutation to work in this context, permIndices must be sorted
   SEQUANT_ASSERT(std::is_sorted(permIndices.begin(), permIndices.end()));
 
-  int sign = initialSign;
   do {
-    const int currentSign = sign;
-    // std::next_permutation creates one lexicographical permutation after the
-    // other, which should imply that the phase should alternate between
-    // iterations.
-    sign *= -1;
-    SEQUANT_ASSERT(currentSign == get_phase(permIndices) * initialSign);
+    // N.B. consecutive lexicographical permutations need not differ in phase
+    const int currentSign = expr.symmetry() == Symmetry::Antisymm
+                                ? get_phase(permIndices) * initialSign
+                                : 1;
 
     container::set<std::pair<IndexSpace, IndexSpace>> currentPairing;
 
@@ -201,6 +198,7 @@ template <typename Container, typename TraceFunction, typename... Args>
     }
 
     // Found a new index pairing
+    idxPairings.push_back(currentPairing);
 
     ExprPtr expression = expr.expression().clone();
 
-- 
2.43.0


From 4bc2e159dbf85702ea1adb8102042f15440fec1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:53 +0000
Subject: [PATCH 087/116] fix: tensor_hypercontract reused indices of the
 expression, skipped nested factors and rejected other tensors of the label

---
 SeQuant/domain/mbpt/rules/thc.cpp | 71 ++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 19 deletions(-)

diff --git a/SeQuant/domain/mbpt/rules/thc.cpp b/SeQuant/domain/mbpt/rules/thc.cpp
index 7fcfbf5..867f399 100644
--- a/SeQuant/domain/mbpt/rules/thc.cpp
+++ b/SeQuant/domain/mbpt/rules/thc.cpp
@@ -6,11 +6,13 @@
 
 #include <SeQuant/core/expr.hpp>
 #include <SeQuant/core/space.hpp>
+#include <SeQuant/core/utility/indices.hpp>
 #include <SeQuant/core/utility/macros.hpp>
 
 #include <range/v3/range/operations.hpp>
 #include <range/v3/view/transform.hpp>
 
+#include <algorithm>
 #include <string_view>
 
 namespace sequant::mbpt {
@@ -45,45 +47,57 @@ ExprPtr tensor_hypercontract_impl(Tensor const& tnsr, Index const& aux_idx_1,
   return t1 * t2 * z * t3 * t4;
 }
 
-ExprPtr tensor_hypercontract(ExprPtr const& expr, IndexSpace aux_space,
+namespace {
+
+/// @return the largest ordinal of the indices of @p space in @p expr (0 if none)
+std::size_t max_thc_ordinal(ExprPtr const& expr, IndexSpace const& space) {
+  std::size_t result = 0;
+  for (auto&& idx : get_used_indices(expr)) {
+    if (idx.space() == space && idx.ordinal())
+      result = std::max<std::size_t>(result, *idx.ordinal());
+  }
+  return result;
+}
+
+/// @param[in,out] aux_ix ordinal of the last auxiliary index in use
+ExprPtr tensor_hypercontract(ExprPtr const& expr, IndexSpace const& aux_space,
                              std::wstring_view tensor_label,
                              std::wstring_view outer_factor_label,
-                             std::wstring_view core_tensor_label) {
+                             std::wstring_view core_tensor_label,
+                             std::size_t& aux_ix) {
   using ranges::views::transform;
 
   if (expr->is<Sum>())
     return ex<Sum>(*expr | transform([&](auto&& x) {
       return tensor_hypercontract(x, aux_space, tensor_label,
-                                  outer_factor_label, core_tensor_label);
+                                  outer_factor_label, core_tensor_label,
+                                  aux_ix);
     }));
 
   else if (expr->is<Tensor>()) {
     auto const& tensor = expr->as<Tensor>();
     if (tensor.label() == tensor_label  //
         && tensor.bra_rank() == 2       //
-        && tensor.ket_rank() == 2)
-      return tensor_hypercontract_impl(tensor, Index(aux_space, 1),
-                                       Index(aux_space, 2), outer_factor_label,
-                                       core_tensor_label);
-    else
+        && tensor.ket_rank() == 2       //
+        && tensor.aux_rank() == 0) {
+      auto index1 = Index(aux_space, ++aux_ix);
+      auto index2 = Index(aux_space, ++aux_ix);
+      return tensor_hypercontract_impl(tensor, index1, index2,
+                                       outer_factor_label, core_tensor_label);
+    } else
       return expr;
   } else if (expr->is<Product>()) {
     auto const& prod = expr->as<Product>();
 
     Product result;
     result.scale(prod.scalar());
-    size_t aux_ix = 0;
     for (auto&& f : prod.factors()) {
-      if (f->is<Tensor>() && f->as<Tensor>().label() == tensor_label) {
-        auto const& g = f->as<Tensor>();
-        auto index1 = Index(aux_space, ++aux_ix);
-        auto index2 = Index(aux_space, ++aux_ix);
-        auto g_thc = tensor_hypercontract_impl(
-            g, index1, index2, outer_factor_label, core_tensor_label);
-        result.append(1, std::move(g_thc), Product::Flatten::Yes);
-      } else {
-        result.append(1, f, Product::Flatten::No);
-      }
+      result.append(1,
+                    tensor_hypercontract(f, aux_space, tensor_label,
+                                         outer_factor_label, core_tensor_label,
+                                         aux_ix),
+                    f->is<Tensor>() ? Product::Flatten::Yes
+                                    : Product::Flatten::No);
     }
     return ex<Product>(std::move(result));
   } else {
@@ -91,4 +105,23 @@ ExprPtr tensor_hypercontract(ExprPtr const& expr, IndexSpace aux_space,
   }
 }
 
+}  // namespace
+
+ExprPtr tensor_hypercontract(ExprPtr const& expr, IndexSpace aux_space,
+                             std::wstring_view tensor_label,
+                             std::wstring_view outer_factor_label,
+                             std::wstring_view core_tensor_label) {
+  using ranges::views::transform;
+
+  if (expr->is<Sum>()) {
+    return ex<Sum>(*expr | transform([&](auto&& x) {
+      return tensor_hypercontract(x, aux_space, tensor_label,
+                                  outer_factor_label, core_tensor_label);
+    }));
+  }
+  std::size_t aux_ix = max_thc_ordinal(expr, aux_space);
+  return tensor_hypercontract(expr, aux_space, tensor_label, outer_factor_label,
+                              core_tensor_label, aux_ix);
+}
+
 }  // namespace sequant::mbpt
-- 
2.43.0


From 3968168f71ba1398b03442500a10a6dc240cc94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:53 +0000
Subject: [PATCH 088/116] fix: density_fit reused indices of the expression and
 skipped nested factors

---
 SeQuant/domain/mbpt/rules/df.cpp | 45 +++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/SeQuant/domain/mbpt/rules/df.cpp b/SeQuant/domain/mbpt/rules/df.cpp
index e32f99d..b4d115b 100644
--- a/SeQuant/domain/mbpt/rules/df.cpp
+++ b/SeQuant/domain/mbpt/rules/df.cpp
@@ -6,11 +6,13 @@
 
 #include <SeQuant/core/expr.hpp>
 #include <SeQuant/core/space.hpp>
+#include <SeQuant/core/utility/indices.hpp>
 #include <SeQuant/core/utility/macros.hpp>
 
 #include <range/v3/range/operations.hpp>
 #include <range/v3/view/transform.hpp>
 
+#include <algorithm>
 #include <string_view>
 
 namespace sequant::mbpt {
@@ -51,9 +53,22 @@ ExprPtr density_fit_impl(Tensor const& tnsr, Index const& aux_idx,
   return t1 * t2;
 }
 
-ExprPtr density_fit(ExprPtr const& expr, IndexSpace aux_space,
+namespace {
+
+/// @return the largest ordinal of the indices of @p space in @p expr (0 if none)
+std::size_t max_df_ordinal(ExprPtr const& expr, IndexSpace const& space) {
+  std::size_t result = 0;
+  for (auto&& idx : get_used_indices(expr)) {
+    if (idx.space() == space && idx.ordinal())
+      result = std::max<std::size_t>(result, *idx.ordinal());
+  }
+  return result;
+}
+
+/// @param[in,out] aux_ix ordinal of the last auxiliary index in use
+ExprPtr density_fit(ExprPtr const& expr, IndexSpace const& aux_space,
                     std::wstring_view tensor_label,
-                    std::wstring_view factor_label) {
+                    std::wstring_view factor_label, std::size_t& aux_ix) {
   using ranges::views::transform;
 
   auto process_tensor = [&](const Tensor& tensor,
@@ -69,10 +84,11 @@ ExprPtr density_fit(ExprPtr const& expr, IndexSpace aux_space,
 
   if (expr->is<Sum>()) {
     return ex<Sum>(*expr | transform([&](auto&& x) {
-      return density_fit(x, aux_space, tensor_label, factor_label);
+      return density_fit(x, aux_space, tensor_label, factor_label, aux_ix);
     }));
   } else if (expr->is<Tensor>()) {
-    if (auto factorized = process_tensor(expr->as<Tensor>(), 1); factorized) {
+    if (auto factorized = process_tensor(expr->as<Tensor>(), ++aux_ix);
+        factorized) {
       return factorized;
     }
     return expr;
@@ -81,7 +97,6 @@ ExprPtr density_fit(ExprPtr const& expr, IndexSpace aux_space,
 
     Product result;
     result.scale(prod.scalar());
-    size_t aux_ix = 0;
     for (auto&& f : prod.factors())
       if (f.is<Tensor>()) {
         if (auto factorized = process_tensor(f->as<Tensor>(), ++aux_ix);
@@ -91,11 +106,29 @@ ExprPtr density_fit(ExprPtr const& expr, IndexSpace aux_space,
           result.append(1, f, Product::Flatten::No);
         }
       } else {
-        result.append(1, f, Product::Flatten::No);
+        result.append(
+            1, density_fit(f, aux_space, tensor_label, factor_label, aux_ix),
+            Product::Flatten::No);
       }
     return ex<Product>(std::move(result));
   } else
     return expr;
 }
 
+}  // namespace
+
+ExprPtr density_fit(ExprPtr const& expr, IndexSpace aux_space,
+                    std::wstring_view tensor_label,
+                    std::wstring_view factor_label) {
+  using ranges::views::transform;
+
+  if (expr->is<Sum>()) {
+    return ex<Sum>(*expr | transform([&](auto&& x) {
+      return density_fit(x, aux_space, tensor_label, factor_label);
+    }));
+  }
+  std::size_t aux_ix = max_df_ordinal(expr, aux_space);
+  return density_fit(expr, aux_space, tensor_label, factor_label, aux_ix);
+}
+
 }  // namespace sequant::mbpt
-- 
2.43.0


From b789a7229b084898fb5a20578a32763f6dc8178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:53 +0000
Subject: [PATCH 089/116] fix: csv_transform returned null for tensors with
 dependent auxiliary indices only

---
 SeQuant/domain/mbpt/rules/csv.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeQuant/domain/mbpt/rules/csv.cpp b/SeQuant/domain/mbpt/rules/csv.cpp
index 29f8918..0e2835b 100644
--- a/SeQuant/domain/mbpt/rules/csv.cpp
+++ b/SeQuant/domain/mbpt/rules/csv.cpp
@@ -119,7 +119,8 @@ ExprPtr csv_transform(ExprPtr const& expr, const IndexSpace& csv_basis,
   else if (expr->is<Tensor>()) {
     auto const& tnsr = expr->as<Tensor>();
     if (!ranges::contains(tensor_labels, tnsr.label())) return expr;
-    if (ranges::none_of(tnsr.indices(), &Index::has_proto_indices)) return expr;
+    if (ranges::none_of(tnsr.const_braket_indices(), &Index::has_proto_indices))
+      return expr;
     return csv_transform_impl(tnsr, csv_basis, coeff_tensor_label);
   } else if (expr->is<Product>()) {
     auto const& prod = expr->as<Product>();
-- 
2.43.0


From f3600360f7c1145230902e02f4d0c3664ca54afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:53 +0000
Subject: [PATCH 090/116] fix: csv_transform of overlaps introduced indices in
 use elsewhere

---
 SeQuant/domain/mbpt/rules/csv.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/SeQuant/domain/mbpt/rules/csv.cpp b/SeQuant/domain/mbpt/rules/csv.cpp
index 0e2835b..db1060e 100644
--- a/SeQuant/domain/mbpt/rules/csv.cpp
+++ b/SeQuant/domain/mbpt/rules/csv.cpp
@@ -54,9 +54,7 @@ ExprPtr csv_transform_impl(Tensor const& tnsr, const IndexSpace& csv_basis,
     SEQUANT_ASSERT(bra_has_proto_indices || ket_has_proto_indices);
 
     if (bra_has_proto_indices && ket_has_proto_indices) {
-      auto dummy_idx = ordinal_compare(bra_idx, ket_idx)   //
-                           ? bra_idx.drop_proto_indices()  //
-                           : ket_idx.drop_proto_indices();
+      const auto dummy_idx = Index::make_tmp_index(csv_basis);
 
       return ex<Product>(
           1,
-- 
2.43.0


From b6ab7bb6cdb7c2b07ae22e95e19f71a2515f8765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:52 +0000
Subject: [PATCH 091/116] fix: peak_cache never released intermediates and
 counted operands of what is stored

---
 SeQuant/core/eval/cache_manager.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/eval/cache_manager.cpp b/SeQuant/core/eval/cache_manager.cpp
index ceeb41f..6c0d253 100644
--- a/SeQuant/core/eval/cache_manager.cpp
+++ b/SeQuant/core/eval/cache_manager.cpp
@@ -18,9 +18,14 @@ void max_cache(Node const& node,        //
                CacheManager<N, F>& cm,  //
                AsyCost& curr,           //
                AsyCost& max) {
+  // only the result of a node is stored, not the operands
+  auto storage = [&node]() {
+    return node->is_tensor() ? AsyCost{detail::space_counts(node->as_tensor())}
+                             : AsyCost::zero();
+  };
   if (auto ptr = cm.access(node); ptr) {
     if (cm.life(node) == 0) {
-      curr -= Memory{}(node);
+      curr -= storage();
     }
     return;
   }
@@ -28,10 +33,13 @@ void max_cache(Node const& node,        //
     max_cache(node.left(), cm, curr, max);
     max_cache(node.right(), cm, curr, max);
     if (cm.exists(node)) {
-      curr += Memory{}(node);
+      curr += storage();
       max = std::max(curr, max);
       // simulate cache store
-      auto s = cm.store(node, nullptr);
+      auto s = cm.store(node, eval_result<ResultScalar<double>>(0.));
+      if (cm.life(node) == 0) {
+        curr -= storage();
+      }
     }
   }
 }
-- 
2.43.0


From c5522124ac5aa488201a8e237854c6f8e136249e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:52 +0000
Subject: [PATCH 092/116] fix: costs multiplied by zero kept terms and did not
 equal zero

---
 SeQuant/core/asy_cost.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SeQuant/core/asy_cost.cpp b/SeQuant/core/asy_cost.cpp
index 8fa8fbb..1c2e4c8 100644
--- a/SeQuant/core/asy_cost.cpp
+++ b/SeQuant/core/asy_cost.cpp
@@ -237,6 +237,7 @@ AsyCost operator-(AsyCost const &lhs, AsyCost const &rhs) {
 }
 
 AsyCost operator*(AsyCost const &cost, rational scale) {
+  if (scale == 0) return AsyCost::zero();
   auto ac = cost;
   for (auto &c : ac.cost_) c.set_prefactor(c.prefactor() * scale);
   return ac;
-- 
2.43.0


From 940f202443f8b1dbe0092ad1f048703ac47349ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:52 +0000
Subject: [PATCH 093/116] fix: sign of negative integer coefficients of costs
 was printed twice

---
 SeQuant/core/asy_cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/asy_cost.cpp b/SeQuant/core/asy_cost.cpp
index 1c2e4c8..bed19cf 100644
--- a/SeQuant/core/asy_cost.cpp
+++ b/SeQuant/core/asy_cost.cpp
@@ -108,7 +108,7 @@ std::string AsyCost::AsyCostEntry::to_latex() const {
     auto abs_c = abs(prefactor_);
     oss << (prefactor_ < abs_c ? "- " : "");
     bool frac_mode = abs(denominator(prefactor_)) != 1;
-    if (!frac_mode && (abs_c != 1)) oss << numerator(prefactor_);
+    if (!frac_mode && (abs_c != 1)) oss << numerator(abs_c);
     if (frac_mode) {
       oss << "\\frac{"                   //
           << abs(numerator(prefactor_))  //
-- 
2.43.0


From 0cf986b04d3bf608c4664cd6df07b8ffff6d0547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:09 +0000
Subject: [PATCH 094/116] fix: three_body_substitution left operators alone
 that are terms of a sum by themselves

---
 SeQuant/domain/mbpt/rdm.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/SeQuant/domain/mbpt/rdm.cpp b/SeQuant/domain/mbpt/rdm.cpp
index 1e49256..cc27219 100644
--- a/SeQuant/domain/mbpt/rdm.cpp
+++ b/SeQuant/domain/mbpt/rdm.cpp
@@ -337,6 +337,16 @@ ExprPtr three_body_substitution(ExprPtr& input, int rank, bool fast) {
   if (input == ex<Constant>(0)) {
     return input;
   }
+  if (input->is<Sum>()) {
+    // operators that are not parts of products are substituted, too
+    auto sum = std::make_shared<Sum>();
+    for (auto&& summand : input->as<Sum>().summands()) {
+      sum->append(summand->is<FNOperator>()
+                      ? ex<Product>(ExprPtrList{summand})
+                      : summand);
+    }
+    input = sum;
+  }
   if (fast) {
     SEQUANT_ASSERT(rank == 2);
     if (input->is<Sum>()) {
-- 
2.43.0


From 397bae611f627c3cc0d0326a356b8a6c48fc444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:09 +0000
Subject: [PATCH 095/116] fix: cumu3_to_density multiplied where it had to add
 and threw

---
 SeQuant/domain/mbpt/rdm.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SeQuant/domain/mbpt/rdm.cpp b/SeQuant/domain/mbpt/rdm.cpp
index cc27219..6337f6f 100644
--- a/SeQuant/domain/mbpt/rdm.cpp
+++ b/SeQuant/domain/mbpt/rdm.cpp
@@ -67,9 +67,11 @@ ExprPtr cumu3_to_density(ExprPtr ex_) {
 
   auto d1_d2 =
       antisymmetrize(density_1 * density_2 * density_3 + density_1 * cumulant2);
-  auto temp_result = density3 * ex<Constant>(-1) * d1_d2.result;
+  auto temp_result = density3 + ex<Constant>(-1) * d1_d2.result;
+  expand(temp_result);
 
   for (auto&& product : temp_result->as<Sum>().summands()) {
+    if (!product->is<Product>()) continue;
     for (auto&& factor : product->as<Product>().factors()) {
       if (factor->is<Tensor>() &&
           (factor->as<Tensor>().label() == rdm_cumulant_label()) &&
@@ -79,6 +81,7 @@ ExprPtr cumu3_to_density(ExprPtr ex_) {
     }
   }
   for (auto&& product : temp_result->as<Sum>().summands()) {
+    if (!product->is<Product>()) continue;
     for (auto&& factor : product->as<Product>().factors()) {
       if (factor->is<Tensor>() &&
           factor->as<Tensor>().label() == rdm_cumulant_label() &&
-- 
2.43.0


From 49335bc2ac3c30567fda6f15478adea1658cbc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:09 +0000
Subject: [PATCH 096/116] fix: num_closed_loops listed indices of open chains
 twice and threw

---
 SeQuant/domain/mbpt/antisymmetrizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SeQuant/domain/mbpt/antisymmetrizer.cpp b/SeQuant/domain/mbpt/antisymmetrizer.cpp
index 130df98..6ac0187 100644
--- a/SeQuant/domain/mbpt/antisymmetrizer.cpp
+++ b/SeQuant/domain/mbpt/antisymmetrizer.cpp
@@ -284,8 +284,9 @@ int num_closed_loops(std::vector<Index> init_upper,
         } else {
           lower_index = new_lower[where_exist.first];  // the lower index below
           // the found upper index
-          in_loop.push_back(
-              lower_index);  // this lower index is part of one loop so it
+          if (!where_same_ele(lower_index, in_loop).second)
+            in_loop.push_back(
+                lower_index);  // this lower index is part of one loop so it
           // cannot be part of another.
           closed = equal_indices(chain_end,
                                  lower_index);  // is the lower index the same
-- 
2.43.0


From 2b06f6ca34c6257d19f5563add421f52b7775bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:09 +0000
Subject: [PATCH 097/116] fix: antisymmetrize dropped the coefficient of the
 product

---
 SeQuant/domain/mbpt/antisymmetrizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/domain/mbpt/antisymmetrizer.cpp b/SeQuant/domain/mbpt/antisymmetrizer.cpp
index 6ac0187..52341d1 100644
--- a/SeQuant/domain/mbpt/antisymmetrizer.cpp
+++ b/SeQuant/domain/mbpt/antisymmetrizer.cpp
@@ -10,7 +10,7 @@ namespace sequant::mbpt {
 antisymm_element::antisymm_element(ExprPtr ex_) {
   current_product = ex_;
   SEQUANT_ASSERT(ex_->is<Product>());
-  Constant::scalar_type starting_constant = 1;
+  Constant::scalar_type starting_constant = ex_->as<Product>().scalar();
   unsigned long begining_index = 0;
   for (auto it = begin(*ex_); it != end(*ex_); it++) {
     if (it->get()->is<Tensor>()) {
-- 
2.43.0


From a3f99532e9c851adf0c7095e43ba99264afe38c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:07 +0000
Subject: [PATCH 098/116] fix: subset_target_indices lost target indices found
 in several tensors

---
 SeQuant/core/utility/indices.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/SeQuant/core/utility/indices.hpp b/SeQuant/core/utility/indices.hpp
index 03112cc..2aa9126 100644
--- a/SeQuant/core/utility/indices.hpp
+++ b/SeQuant/core/utility/indices.hpp
@@ -838,13 +838,11 @@ auto subset_target_indices(meta::range_of<Index, 2> auto const& rng,
 
   auto counts = subset_index_counts(rng, needed);
 
-  for (auto&& [k, v] : *counts.rbegin())
-    if (v == 1 || ranges::contains(tixs, k)) result.rbegin()->emplace(k);
-
   for (size_t i = 0; i < result.size(); ++i) {
     if (connected && !(*connected)[i]) continue;  // pruned: result[i] unused
     for (auto&& [k, v] : counts[i])
-      if (v == 1 || (v > 0 && counts.at(counts.size() - i - 1).contains(k)))
+      if (v == 1 || counts.at(counts.size() - i - 1).contains(k) ||
+          ranges::contains(tixs, k))
         result[i].emplace(k);
   }
 
-- 
2.43.0


From 6ece3d4341641b1ea84e54e86c0a98bfb10559cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:07 +0000
Subject: [PATCH 099/116] fix: get_uncontracted_indices and external_indices
 counted empty slots as indices

---
 SeQuant/core/utility/indices.hpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/SeQuant/core/utility/indices.hpp b/SeQuant/core/utility/indices.hpp
index 2aa9126..039b347 100644
--- a/SeQuant/core/utility/indices.hpp
+++ b/SeQuant/core/utility/indices.hpp
@@ -118,23 +118,26 @@ IndexGroups<Container> get_uncontracted_indices(const Tensor& t1,
 
   IndexGroups<Container> groups;
 
+  auto copy_not_in = [](const auto& from, const auto& other, Container& to) {
+    const detail::not_in not_in_other{other};
+    // empty slots hold no index
+    std::copy_if(from.begin(), from.end(), std::back_inserter(to),
+                 [&](const Index& idx) {
+                   return idx.nonnull() && not_in_other(idx);
+                 });
+  };
+
   // Bra indices
-  std::copy_if(t1.bra().begin(), t1.bra().end(), std::back_inserter(groups.bra),
-               detail::not_in{t2.ket()});
-  std::copy_if(t2.bra().begin(), t2.bra().end(), std::back_inserter(groups.bra),
-               detail::not_in{t1.ket()});
+  copy_not_in(t1.bra(), t2.ket(), groups.bra);
+  copy_not_in(t2.bra(), t1.ket(), groups.bra);
 
   // Ket indices
-  std::copy_if(t1.ket().begin(), t1.ket().end(), std::back_inserter(groups.ket),
-               detail::not_in{t2.bra()});
-  std::copy_if(t2.ket().begin(), t2.ket().end(), std::back_inserter(groups.ket),
-               detail::not_in{t1.bra()});
+  copy_not_in(t1.ket(), t2.bra(), groups.ket);
+  copy_not_in(t2.ket(), t1.bra(), groups.ket);
 
   // Auxiliary indices
-  std::copy_if(t1.aux().begin(), t1.aux().end(), std::back_inserter(groups.aux),
-               detail::not_in{t2.aux()});
-  std::copy_if(t2.aux().begin(), t2.aux().end(), std::back_inserter(groups.aux),
-               detail::not_in{t1.aux()});
+  copy_not_in(t1.aux(), t2.aux(), groups.aux);
+  copy_not_in(t2.aux(), t1.aux(), groups.aux);
 
   return groups;
 }
@@ -485,10 +488,13 @@ Container<Group<SlottedIndex>> external_indices(const Expr& expr) {
     HolderType cont;
     cont.resize(num_braket + tensor.aux_rank());
 
+    // empty slots hold no index
     for (std::size_t i = 0; i < tensor.bra_rank(); ++i) {
+      if (!tensor.bra()[i].nonnull()) continue;
       cont.at(i).emplace_back(tensor.bra()[i], SlotType::Bra);
     }
     for (std::size_t i = 0; i < tensor.ket_rank(); ++i) {
+      if (!tensor.ket()[i].nonnull()) continue;
       cont.at(i).emplace_back(tensor.ket()[i], SlotType::Ket);
     }
     for (std::size_t i = 0; i < tensor.aux_rank(); ++i) {
-- 
2.43.0


From b029c1ec202437f80a817493f909194bd741c933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:08 +0000
Subject: [PATCH 100/116] fix: replace left the indices of the replacement
 alone when the whole expression matches, and lost or reordered those of a
 result

---
 SeQuant/core/utility/expr.hpp | 96 ++++++++++++++++++-----------------
 1 file changed, 50 insertions(+), 46 deletions(-)

diff --git a/SeQuant/core/utility/expr.hpp b/SeQuant/core/utility/expr.hpp
index 95e6061..47fade9 100644
--- a/SeQuant/core/utility/expr.hpp
+++ b/SeQuant/core/utility/expr.hpp
@@ -4,6 +4,7 @@
 #include <SeQuant/core/container.hpp>
 #include <SeQuant/core/expr.hpp>
 #include <SeQuant/core/index.hpp>
+#include <SeQuant/core/reserved.hpp>
 #include <SeQuant/core/utility/indices.hpp>
 #include <SeQuant/core/utility/macros.hpp>
 
@@ -119,47 +120,46 @@ ExprPtr &replace(ExprPtr &expr, const ExprPtr &target,
     }
   }
 
-  if (cmp(*expr, *target)) {
-    expr = replacement->clone();
-  } else {
-    expr->visit(
-        [&](ExprPtr &current) {
-          if (cmp(*current, *target)) {
-            ExprPtr repl;
-
-            if (index_mapping.empty()) {
-              repl = replacement->clone();
-            } else {
-              // Ensure that all indices shared between target and replacement
-              // will also be shared with current and the actual replacement we
-              // want to use for it (this becomes relevant if cmp compares only
-              // equivalence instead of equality)
-              SEQUANT_ASSERT(current->is<AbstractTensor>());
-              SEQUANT_ASSERT(target->is<AbstractTensor>());
-
-              const auto &current_tensor = current->as<AbstractTensor>();
-              const auto &target_tensor = target->as<AbstractTensor>();
-
-              SEQUANT_ASSERT(num_slots(current_tensor) ==
-                             num_slots(target_tensor));
-
-              auto current_slots = slots(current_tensor);
-              auto target_slots = slots(target_tensor);
-
-              container::map<Index, Index> replacements;
-              for (std::size_t i : index_mapping) {
-                if (target_slots[i] != current_slots[i]) {
-                  replacements[target_slots[i]] = current_slots[i];
-                }
-              }
-
-              repl = transform_expr(replacement, replacements);
-            }
-
-            current = std::move(repl);
-          }
-        },
-        /*only_atoms*/ true);
+  auto replace_if_match = [&](ExprPtr &current) {
+    if (!cmp(*current, *target)) return false;
+
+    ExprPtr repl;
+
+    if (index_mapping.empty()) {
+      repl = replacement->clone();
+    } else {
+      // Ensure that all indices shared between target and replacement
+      // will also be shared with current and the actual replacement we
+      // want to use for it (this becomes relevant if cmp compares only
+      // equivalence instead of equality)
+      SEQUANT_ASSERT(current->is<AbstractTensor>());
+      SEQUANT_ASSERT(target->is<AbstractTensor>());
+
+      const auto &current_tensor = current->as<AbstractTensor>();
+      const auto &target_tensor = target->as<AbstractTensor>();
+
+      SEQUANT_ASSERT(num_slots(current_tensor) == num_slots(target_tensor));
+
+      auto current_slots = slots(current_tensor);
+      auto target_slots = slots(target_tensor);
+
+      container::map<Index, Index> replacements;
+      for (std::size_t i : index_mapping) {
+        if (target_slots[i] != current_slots[i]) {
+          replacements[target_slots[i]] = current_slots[i];
+        }
+      }
+
+      repl = transform_expr(replacement, replacements);
+    }
+
+    current = std::move(repl);
+    return true;
+  };
+
+  if (!replace_if_match(expr)) {
+    expr->visit([&](ExprPtr &current) { replace_if_match(current); },
+                /*only_atoms*/ true);
   }
 
   return expr;
@@ -191,11 +191,15 @@ ResultExpr &replace(ResultExpr &expr, const ExprPtr &target,
 
   // We have to check whether the external indices have been modified by the
   // replacement and if they did, adapt the indices in the result
-  IndexGroups<> externals = get_unique_indices(expr.expression());
-
-  if (!std::ranges::equal(externals.bra, expr.bra()) ||
-      !std::ranges::equal(externals.ket, expr.ket()) ||
-      !std::ranges::equal(externals.aux, expr.aux())) {
+  // N.B. symmetrizers repeat the external indices of what they act on
+  ExprPtr rhs = expr.expression().clone();
+  pop_tensor(rhs, reserved::antisymm_label());
+  pop_tensor(rhs, reserved::symm_label());
+  IndexGroups<> externals = get_unique_indices(rhs);
+
+  if (!std::ranges::is_permutation(externals.bra, expr.bra()) ||
+      !std::ranges::is_permutation(externals.ket, expr.ket()) ||
+      !std::ranges::is_permutation(externals.aux, expr.aux())) {
     // Externals have changed -> update result
     // TODO: Is retaining result symmetry a reasonable thing to do? Generally
     // speaking, replacements could also change the result symmetry so in
-- 
2.43.0


From 7fe529df9ae6c54f53cf25e4490ec19b13e80d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:08 +0000
Subject: [PATCH 101/116] fix: pop_tensor turned scalars into zero and dropped
 zeros it had not made

---
 SeQuant/core/utility/expr.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/utility/expr.cpp b/SeQuant/core/utility/expr.cpp
index 00566a9..33d798e 100644
--- a/SeQuant/core/utility/expr.cpp
+++ b/SeQuant/core/utility/expr.cpp
@@ -504,7 +504,9 @@ std::optional<ExprPtr> pop_tensor(ExprPtr &expression,
       }
       SEQUANT_ASSERT(!popped.has_value() || tensor == popped);
 
-      if (!factor.is<Constant>() || !factor.as<Constant>().is_zero()) {
+      // N.B. zero is what is left of a tensor that was removed
+      if (!popped.has_value() || !factor.is<Constant>() ||
+          !factor.as<Constant>().is_zero()) {
         result.append(1, std::move(factor), Product::Flatten::No);
       }
     }
@@ -513,6 +515,8 @@ std::optional<ExprPtr> pop_tensor(ExprPtr &expression,
       expression.as<Product>() = std::move(result);
     } else if (result.size() == 1) {
       expression = std::move(result.factor(0));
+    } else if (!tensor.has_value()) {
+      expression = ex<Constant>(result.scalar());
     } else {
       expression = ex<Constant>(0);
     }
-- 
2.43.0


From 01d17e4715e178d33f0489489deb0e05826d74f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:08 +0000
Subject: [PATCH 102/116] fix: is_valid did not support Power

---
 SeQuant/core/utility/expr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/utility/expr.cpp b/SeQuant/core/utility/expr.cpp
index 33d798e..f56b86a 100644
--- a/SeQuant/core/utility/expr.cpp
+++ b/SeQuant/core/utility/expr.cpp
@@ -311,7 +311,7 @@ bool is_valid(const Expr &expr, std::string *msg) {
     }
   }
 
-  if (expr.is<Variable>()) {
+  if (expr.is<Variable>() || expr.is<Power>()) {
     // Nothing to validate
   } else if (expr.is<Constant>()) {
     const Constant &c = expr.as<Constant>();
-- 
2.43.0


From 47907e1a67f3a5744819adbf061780c8a50e694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:08 +0000
Subject: [PATCH 103/116] fix: diff read past the end of a shorter expression,
 compared ket with bra, and did not support Power

---
 SeQuant/core/utility/expr.cpp | 36 +++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/SeQuant/core/utility/expr.cpp b/SeQuant/core/utility/expr.cpp
index f56b86a..1d4fdc4 100644
--- a/SeQuant/core/utility/expr.cpp
+++ b/SeQuant/core/utility/expr.cpp
@@ -55,9 +55,8 @@ std::string toplevel_diff(const Variable &lhs, const Variable &rhs) {
     return toUtf8(lhs.label()) + " vs. " + toUtf8(rhs.label());
   }
 
-  return (lhs.conjugated() ? "conjugated"
-                           : "non-conjugated" + std::string(" vs. ")) +
-         (rhs.conjugated() ? "conjugated" : "non-conjugated");
+  return std::string(lhs.conjugated() ? "conjugated" : "non-conjugated") +
+         " vs. " + (rhs.conjugated() ? "conjugated" : "non-conjugated");
 }
 
 std::string toplevel_diff(const Index &lhs, const Index &rhs);
@@ -196,10 +195,10 @@ std::string toplevel_diff(const Tensor &lhs, const Tensor &rhs) {
     return "Bra indices differ: " + diff_indices(lhs.bra(), rhs.bra());
   }
   if (lhs.ket() != rhs.ket()) {
-    return "Ket indices differ: " + diff_indices(lhs.bra(), rhs.bra());
+    return "Ket indices differ: " + diff_indices(lhs.ket(), rhs.ket());
   }
   if (lhs.aux() != rhs.aux()) {
-    return "Aux indices differ: " + diff_indices(lhs.ket(), rhs.ket());
+    return "Aux indices differ: " + diff_indices(lhs.aux(), rhs.aux());
   }
 
   // Really, this shouldn't produce an empty diff as the objects compare as
@@ -221,6 +220,24 @@ std::string toplevel_diff(const Product &lhs, const Product &rhs) {
   return {};
 }
 
+std::string toplevel_diff(const Power &lhs, const Power &rhs) {
+  if (lhs == rhs) {
+    return {};
+  }
+
+  if (*lhs.base() != *rhs.base()) {
+    return "Base differs: " + diff(*lhs.base(), *rhs.base());
+  }
+
+  if (lhs.exponent() != rhs.exponent()) {
+    return "Exponent differs: " + to_string(lhs.exponent()) + " vs. " +
+           to_string(rhs.exponent());
+  }
+
+  return std::string(lhs.conjugated() ? "conjugated" : "non-conjugated") +
+         " vs. " + (rhs.conjugated() ? "conjugated" : "non-conjugated");
+}
+
 std::string diff(const Expr &lhs, const Expr &rhs) {
   if (lhs == rhs) {
     return {};
@@ -235,10 +252,10 @@ std::string diff(const Expr &lhs, const Expr &rhs) {
   auto lhs_begin = std::begin(lhs);
   auto lhs_end = std::end(lhs);
   auto rhs_begin = std::begin(rhs);
-  [[maybe_unused]] auto rhs_end = std::end(rhs);
+  auto rhs_end = std::end(rhs);
 
   auto lhs_size = std::distance(lhs_begin, lhs_end);
-  auto rhs_size = std::distance(lhs_begin, lhs_end);
+  auto rhs_size = std::distance(rhs_begin, rhs_end);
 
   if (lhs_size != rhs_size) {
     return "Sizes differ: " + std::to_string(lhs_size) + " vs. " +
@@ -280,8 +297,11 @@ std::string diff(const Expr &lhs, const Expr &rhs) {
     diff_str = toplevel_diff(lhs.as<Constant>(), rhs.as<Constant>());
   } else if (lhs.is<Variable>()) {
     diff_str = toplevel_diff(lhs.as<Variable>(), rhs.as<Variable>());
+  } else if (lhs.is<Power>()) {
+    diff_str = toplevel_diff(lhs.as<Power>(), rhs.as<Power>());
   } else {
-    SEQUANT_ABORT("Unhandled expression type");
+    // nothing is known about the constituents of other types
+    diff_str = "Expressions differ";
   }
 
   return diff_str;
-- 
2.43.0


From b85cd62d9fcd23adc82b239bc590e9d1903562fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:08 +0000
Subject: [PATCH 104/116] fix: products that contain a Power could not be
 typeset

---
 SeQuant/core/expressions/power.hpp | 2 ++
 SeQuant/core/io/latex/latex.cpp    | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/SeQuant/core/expressions/power.hpp b/SeQuant/core/expressions/power.hpp
index f5731da..cb9a2b3 100644
--- a/SeQuant/core/expressions/power.hpp
+++ b/SeQuant/core/expressions/power.hpp
@@ -172,6 +172,8 @@ class Power : public Expr {
     expr = ex<Constant>(std::move(value));
   }
 
+  std::wstring to_latex() const override;
+
   type_id_type type_id() const override { return get_type_id<Power>(); }
 
   bool is_scalar() const override { return true; }
diff --git a/SeQuant/core/io/latex/latex.cpp b/SeQuant/core/io/latex/latex.cpp
index 74e37f6..ba54dff 100644
--- a/SeQuant/core/io/latex/latex.cpp
+++ b/SeQuant/core/io/latex/latex.cpp
@@ -308,3 +308,9 @@ SQ_IMPL2(char32_t);
 
 }  // namespace detail
 }  // namespace sequant::io::latex
+
+namespace sequant {
+
+std::wstring Power::to_latex() const { return io::latex::to_string(*this); }
+
+}  // namespace sequant
-- 
2.43.0


From 6e4fd8e8ced2511b18425cd9261fcfa05a679308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 105/116] fix: permutation_parity was wrong for most
 permutations, and overwrote input that it was to keep

---
 SeQuant/core/utility/permutation.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/utility/permutation.hpp b/SeQuant/core/utility/permutation.hpp
index 695a7c2..41be59e 100644
--- a/SeQuant/core/utility/permutation.hpp
+++ b/SeQuant/core/utility/permutation.hpp
@@ -129,16 +129,17 @@ int permutation_parity(std::span<T> p, bool overwrite = false) {
   for (std::size_t k = 0; k != N; ++k) {
     if (p[k] >= N) continue;
     std::size_t i = k;
-    std::size_t cycle_length = 1;
+    std::size_t cycle_length = 0;
     do {
-      i = p[i];
+      const std::size_t next = p[i];
       p[i] += N;
+      i = next;
       ++cycle_length;
     } while (p[i] < N);
     if (cycle_length % 2 == 0) parity *= -1;
   }
 
-  if (overwrite) {
+  if (!overwrite) {
     std::ranges::for_each(p, [N](auto& e) { e -= N; });
   }
 
-- 
2.43.0


From 40a897fbc02c21789af4366711d72e0c156e2c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 106/116] fix: memoize waited forever after a failed
 computation, and references to its values did not stay valid

---
 SeQuant/core/utility/memoize.hpp            | 37 ++++++++++++---------
 SeQuant/domain/mbpt/biorthogonalization.cpp |  6 ++--
 SeQuant/domain/mbpt/biorthogonalization.hpp |  3 +-
 3 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/SeQuant/core/utility/memoize.hpp b/SeQuant/core/utility/memoize.hpp
index 38a80d0..e6d9d55 100644
--- a/SeQuant/core/utility/memoize.hpp
+++ b/SeQuant/core/utility/memoize.hpp
@@ -1,9 +1,8 @@
 #ifndef SEQUANT_CORE_UTILITY_MEMOIZE_HPP
 #define SEQUANT_CORE_UTILITY_MEMOIZE_HPP
 
-#include <SeQuant/core/container.hpp>
-
 #include <condition_variable>
+#include <map>
 #include <mutex>
 #include <optional>
 #include <utility>
@@ -22,31 +21,37 @@ namespace sequant::detail {
 /// @param key The key to look up/store
 /// @param compute_fn A callable that computes the value if not cached
 /// @return Reference to the cached value
+/// @throw whatever @p compute_fn throws; the value is not cached then, and will
+/// be computed by the next (or a waiting) caller
+/// @note std::map keeps references to values valid when other values are added
 template <typename Key, typename Value, typename ComputeFn>
-const Value& memoize(container::map<Key, std::optional<Value>>& cache,
+const Value& memoize(std::map<Key, std::optional<Value>>& cache,
                      std::mutex& mutex, std::condition_variable& cv,
                      const Key& key, ComputeFn&& compute_fn) {
   {
     std::unique_lock<std::mutex> lock(mutex);
-    using cache_t = container::map<Key, std::optional<Value>>;
-    typename cache_t::iterator it;
-    bool inserted;
-    // N.B. Use std::tie instead of structured binding to allow lambda capture
-    // (C++17 does not support capturing structured bindings in lambdas)
-    std::tie(it, inserted) = cache.try_emplace(key, std::nullopt);
-    if (!inserted) {
-      cv.wait(lock, [&it] { return it->second.has_value(); });
-      return it->second.value();
+    while (true) {
+      auto [it, inserted] = cache.try_emplace(key, std::nullopt);
+      if (inserted) break;
+      if (it->second.has_value()) return it->second.value();
+      // N.B. if the computation fails the placeholder is gone upon waking up
+      cv.wait(lock);
     }
   }
 
-  Value result = compute_fn();
+  try {
+    Value result = compute_fn();
 
-  {
     std::lock_guard<std::mutex> lock(mutex);
-    cache[key] = std::move(result);
+    auto& entry = cache[key];
+    entry = std::move(result);
+    cv.notify_all();
+    return entry.value();
+  } catch (...) {
+    std::lock_guard<std::mutex> lock(mutex);
+    cache.erase(key);
     cv.notify_all();
-    return cache[key].value();
+    throw;
   }
 }
 
diff --git a/SeQuant/domain/mbpt/biorthogonalization.cpp b/SeQuant/domain/mbpt/biorthogonalization.cpp
index e68850e..84d800c 100644
--- a/SeQuant/domain/mbpt/biorthogonalization.cpp
+++ b/SeQuant/domain/mbpt/biorthogonalization.cpp
@@ -25,6 +25,7 @@
 #include <range/v3/view/transform.hpp>
 
 #include <algorithm>
+#include <map>
 
 namespace sequant::mbpt {
 
@@ -488,9 +489,8 @@ void biorthogonal_transform(container::svector<ResultExpr>& result_exprs,
 
   static std::mutex cache_mutex;
   static std::condition_variable cache_cv;
-  static container::map<CacheKey, std::optional<HardcodedMatrix>>
-      hardcoded_cache;
-  static container::map<CacheKey, std::optional<ComputedMatrix>> computed_cache;
+  static std::map<CacheKey, std::optional<HardcodedMatrix>> hardcoded_cache;
+  static std::map<CacheKey, std::optional<ComputedMatrix>> computed_cache;
 
   constexpr std::size_t max_rank_hardcoded_biorthogonalizer_matrix = 5;
   CacheKey key{n_particles, threshold};
diff --git a/SeQuant/domain/mbpt/biorthogonalization.hpp b/SeQuant/domain/mbpt/biorthogonalization.hpp
index c5d0c5f..57cd192 100644
--- a/SeQuant/domain/mbpt/biorthogonalization.hpp
+++ b/SeQuant/domain/mbpt/biorthogonalization.hpp
@@ -26,6 +26,7 @@
 #include <concepts>
 #include <condition_variable>
 #include <cstddef>
+#include <map>
 #include <mutex>
 #include <optional>
 #include <vector>
@@ -231,7 +232,7 @@ template <typename T>
 
   static std::mutex cache_mutex;
   static std::condition_variable cache_cv;
-  static container::map<CacheKey, std::optional<std::vector<T>>> cache;
+  static std::map<CacheKey, std::optional<std::vector<T>>> cache;
 
   CacheKey key{n_particles, pseudoinverse_threshold};
 
-- 
2.43.0


From 1aa8cf7ad9bb1bb657c08913b1568c5082473ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 107/116] fix: comparison of a leaf with an internal node of
 the same data threw

---
 SeQuant/core/binary_node.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/binary_node.hpp b/SeQuant/core/binary_node.hpp
index 5d0acb5..eef8473 100644
--- a/SeQuant/core/binary_node.hpp
+++ b/SeQuant/core/binary_node.hpp
@@ -688,8 +688,8 @@ class FullBinaryNode {
 
 template <typename T, typename U>
 bool operator==(FullBinaryNode<T> const& lhs, FullBinaryNode<U> const& rhs) {
-  return ((*lhs == *rhs) &&
-          ((lhs.leaf() && rhs.leaf()) ||
+  return ((*lhs == *rhs) && (lhs.leaf() == rhs.leaf()) &&
+          (lhs.leaf() ||
            (lhs.left() == rhs.left() && lhs.right() == rhs.right())));
 }
 
-- 
2.43.0


From 172ad2edd37a8f505db44268d50b25899b94819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:57 +0000
Subject: [PATCH 108/116] fix: visits that start below the root of a tree did
 not end there

---
 SeQuant/core/binary_node.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/SeQuant/core/binary_node.hpp b/SeQuant/core/binary_node.hpp
index eef8473..f88c61f 100644
--- a/SeQuant/core/binary_node.hpp
+++ b/SeQuant/core/binary_node.hpp
@@ -153,6 +153,11 @@ void visit(Node&& node, Visitor&& f, NodeType) {
                     std::is_same_v<NodeType, VisitAll>,
                 "Not sure which nodes to visit");
 
+  // visits end where they started, which need not be the root of the tree
+  auto parent_ptr = [start = &node](auto& n) -> std::remove_reference_t<Node>* {
+    return &n == start ? nullptr : get_parent_ptr(n);
+  };
+
   std::remove_reference_t<Node>* current_ptr = &node;
   const std::remove_cvref_t<Node>* previous_ptr = &node;
 
@@ -175,7 +180,7 @@ void visit(Node&& node, Visitor&& f, NodeType) {
       }
 
       // Move back up to parent
-      current_ptr = get_parent_ptr(current);
+      current_ptr = parent_ptr(current);
     } else if (previous_ptr == &current.left()) {
       if constexpr ((order & TreeTraversal::InOrder) ==
                         TreeTraversal::InOrder &&
@@ -185,7 +190,7 @@ void visit(Node&& node, Visitor&& f, NodeType) {
       }
 
       // Finished visiting left, now visit right
-      current_ptr = current.leaf() ? get_parent_ptr(current) : &current.right();
+      current_ptr = current.leaf() ? parent_ptr(current) : &current.right();
     } else if (previous_ptr == &current.right()) {
       if constexpr ((order & TreeTraversal::PostOrder) ==
                         TreeTraversal::PostOrder &&
@@ -195,9 +200,9 @@ void visit(Node&& node, Visitor&& f, NodeType) {
       }
 
       // Finished visiting right, now move back up to parent (if any)
-      current_ptr = get_parent_ptr(current);
+      current_ptr = parent_ptr(current);
     } else {
-      SEQUANT_ASSERT(current.root() || previous_ptr == &current.parent());
+      SEQUANT_ASSERT(&current == &node || previous_ptr == &current.parent());
       if constexpr ((order & TreeTraversal::PreOrder) ==
                         TreeTraversal::PreOrder &&
                     !std::is_same_v<NodeType, VisitLeaf>) {
@@ -206,14 +211,14 @@ void visit(Node&& node, Visitor&& f, NodeType) {
       }
 
       // Coming from parent (or started at root), start by visiting left
-      current_ptr = current.leaf() ? get_parent_ptr(current) : &current.left();
+      current_ptr = current.leaf() ? parent_ptr(current) : &current.left();
     }
 
     previous_ptr = &current;
 
     if (!continue_with_subtree) {
       // Overwrite to make next target the parent (if any)
-      current_ptr = get_parent_ptr(current);
+      current_ptr = parent_ptr(current);
     }
   }
 }
-- 
2.43.0


From 28ac21e22e71714e32f0bd05f92bebee9146b64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:36 +0000
Subject: [PATCH 109/116] fix: typesetting dropped what follows an accented
 character of a label

---
 SeQuant/core/io/latex/latex.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/io/latex/latex.cpp b/SeQuant/core/io/latex/latex.cpp
index ba54dff..68a7b48 100644
--- a/SeQuant/core/io/latex/latex.cpp
+++ b/SeQuant/core/io/latex/latex.cpp
@@ -177,7 +177,7 @@ std::basic_string<Char, Traits, Alloc> diactrics_to_string_impl(
     auto is_ascii = [](Char c) { return static_cast<unsigned int>(c) <= 0x7F; };
 
     const Char ch = *it;
-    if (it + 1 != end) next_ch = *(it + 1);
+    next_ch = it + 1 != end ? std::optional<Char>(*(it + 1)) : std::nullopt;
     if (sizeof(Char) == 1 &&
         ((it == begin && !is_ascii(ch)) || (next_ch && !is_ascii(*next_ch)))) {
       throw Exception(
@@ -223,6 +223,7 @@ std::basic_string<Char, Traits, Alloc> diactrics_to_string_impl(
       }
     }
 
+    bool appended = false;
     if (!is_ascii(ch)) {  // check for combined characters
       {                   // tilde
                           // lower-case characters with tilde
@@ -236,6 +237,7 @@ std::basic_string<Char, Traits, Alloc> diactrics_to_string_impl(
         auto lc_it = lc.find(str_t{ch});
         if (lc_it != lc.end()) {
           append(lc_it->second);
+          appended = true;
         } else {
           // upper-case characters with tilde
           const container::map<str_t, str_t> uc = {
@@ -248,6 +250,7 @@ std::basic_string<Char, Traits, Alloc> diactrics_to_string_impl(
           auto uc_it = uc.find(str_t{ch});
           if (uc_it != uc.end()) {
             append(uc_it->second);
+            appended = true;
           }
         }
       }  // tilde
@@ -261,6 +264,7 @@ std::basic_string<Char, Traits, Alloc> diactrics_to_string_impl(
         auto lc_it = lc.find(str_t{ch});
         if (lc_it != lc.end()) {
           append(lc_it->second);
+          appended = true;
         } else {
           // upper-case characters with circumflex
           const container::map<str_t, str_t> uc = {
@@ -272,10 +276,13 @@ std::basic_string<Char, Traits, Alloc> diactrics_to_string_impl(
           auto uc_it = uc.find(str_t{ch});
           if (uc_it != uc.end()) {
             append(uc_it->second);
+            appended = true;
           }
         }
       }  // circumflex/hat
     }
+    // pass through everything else
+    if (!appended && !result.empty()) result.push_back(ch);
   }
 
   if (!result.empty())
-- 
2.43.0


From e73bd648f32ff6b5038e0f189b87ba31144f6e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:19 +0000
Subject: [PATCH 110/116] fix: optimizing generators mixed up operations when
 cancelled pairs overlap

---
 SeQuant/core/export/generation_optimizer.hpp | 30 ++++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/SeQuant/core/export/generation_optimizer.hpp b/SeQuant/core/export/generation_optimizer.hpp
index d92764a..39a77a4 100644
--- a/SeQuant/core/export/generation_optimizer.hpp
+++ b/SeQuant/core/export/generation_optimizer.hpp
@@ -591,7 +591,8 @@ class GenerationOptimizer final : public Generator<MainContext> {
   }
 
   void optimize_operation_cache(const MainContext &) {
-    std::size_t erased = 0;
+    // Original positions of the operations that have been erased already
+    container::svector<std::size_t> erased;
 
     // Process paired operations that **might** be removed, provided we can (and
     // want to) reorder other operations to retain a consistent stack.
@@ -602,13 +603,23 @@ class GenerationOptimizer final : public Generator<MainContext> {
     // In particular, this would almost certainly require explicit tracking of
     // the memory stack during the individual operations.
     for (auto [first_idx, second_idx] : m_paired) {
-      // Account for previously erased pairs (this simple method only works in
-      // combination with the assumptions under which we are currently doing
-      // erasures - see below)
-      SEQUANT_ASSERT(first_idx >= erased);
-      SEQUANT_ASSERT(second_idx >= erased);
-      first_idx -= erased;
-      second_idx -= erased;
+      if (std::ranges::find(erased, first_idx) != erased.end() ||
+          std::ranges::find(erased, second_idx) != erased.end()) {
+        continue;
+      }
+
+      const auto original_first_idx = first_idx;
+      const auto original_second_idx = second_idx;
+
+      // Account for previously erased operations. Note that pairs can overlap,
+      // i.e. a single element of this pair may be located in between the
+      // elements of a pair that has been erased.
+      auto erased_before = [&erased](std::size_t idx) {
+        return static_cast<std::size_t>(std::ranges::count_if(
+            erased, [idx](std::size_t pos) { return pos < idx; }));
+      };
+      first_idx -= erased_before(original_first_idx);
+      second_idx -= erased_before(original_second_idx);
 
       SEQUANT_ASSERT(first_idx < m_cache.size());
       SEQUANT_ASSERT(second_idx < m_cache.size());
@@ -664,7 +675,8 @@ class GenerationOptimizer final : public Generator<MainContext> {
                   m_cache.at(first_alloc_idx));
         m_cache.erase(m_cache.begin() + second_idx);
         m_cache.erase(m_cache.begin() + first_idx);
-        erased += 2;
+        erased.push_back(original_first_idx);
+        erased.push_back(original_second_idx);
         continue;
       }
 
-- 
2.43.0


From 8206079143f642f09386648ab66c06edcb7ee7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:24 +0000
Subject: [PATCH 111/116] fix: TensorNetworkV2 renamed indices when permuting
 columns

---
 SeQuant/core/tensor_network/v2.cpp | 36 +++++++++++++-----------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/SeQuant/core/tensor_network/v2.cpp b/SeQuant/core/tensor_network/v2.cpp
index 398c75e..d7999ff 100644
--- a/SeQuant/core/tensor_network/v2.cpp
+++ b/SeQuant/core/tensor_network/v2.cpp
@@ -29,6 +29,7 @@
 #include <limits>
 #include <numeric>
 #include <ranges>
+#include <span>
 #include <sstream>
 #include <string>
 #include <type_traits>
@@ -305,33 +306,26 @@ void TensorNetworkV2::canonicalize_graph(const NamedIndexSet &named_indices) {
     }
 
     const auto &particle_order = it->second;
-    auto bra_indices = tensor._bra();
-    auto ket_indices = tensor._ket();
 
     SEQUANT_ASSERT(num_particles == particle_order.size());
 
-    // Swap indices column-wise
-    idxrepl.clear();
-    for (std::size_t col = 0; col < num_particles; ++col) {
-      if (particle_order[col] == col) {
-        continue;
-      }
-
-      idxrepl_emplace(bra_indices[col], bra_indices[particle_order[col]]);
-      idxrepl_emplace(ket_indices[col], ket_indices[particle_order[col]]);
+    // Permute column-wise. N.B. this moves indices between slots rather than
+    // renaming them, since the latter would also rename any other occurrence of
+    // these indices in this tensor (e.g. as proto indices)
+    container::svector<std::size_t> order(particle_order.begin(),
+                                          particle_order.end());
+    if (std::is_sorted(order.begin(), order.end())) continue;
+    for (std::size_t col = num_particles;
+         col < std::max(bra_rank(tensor), ket_rank(tensor)); ++col) {
+      order.push_back(col);
     }
 
-    if (!idxrepl.empty()) {
-      if (Logger::instance().canonicalize) {
-        for (const auto &idxpair : idxrepl) {
-          std::wcout
-              << "TensorNetworkV2::canonicalize_graph: permuting particles in "
-              << to_latex(tensor) << " by replacing " << to_latex(idxpair.first)
-              << " with " << to_latex(idxpair.second) << std::endl;
-        }
-      }
-      apply_index_replacements(tensor, idxrepl, false);
+    if (Logger::instance().canonicalize) {
+      std::wcout << "TensorNetworkV2::canonicalize_graph: permuting particles "
+                    "in "
+                 << to_latex(tensor) << std::endl;
     }
+    tensor._permute_columns(std::span(order.data(), order.size()));
   }
 
   // Bring tensors into canonical order (analogously to how we reordered
-- 
2.43.0


From bea229379b363c7cf4b8d12213b93c8ce264b4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:51 +0000
Subject: [PATCH 112/116] fix: biorthogonalizer matrix of three and more
 particles had wrong rows

---
 SeQuant/domain/mbpt/biorthogonalization.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/SeQuant/domain/mbpt/biorthogonalization.cpp b/SeQuant/domain/mbpt/biorthogonalization.cpp
index 84d800c..1dd934c 100644
--- a/SeQuant/domain/mbpt/biorthogonalization.cpp
+++ b/SeQuant/domain/mbpt/biorthogonalization.cpp
@@ -146,10 +146,16 @@ make_hardcoded_biorthogonalizer_matrix(
 
   for (std::size_t row = 0; row < n; ++row) {
     for (std::size_t col = 0; col < n; ++col) {
-      perm::Permutation row_perm = perm::unrank(n - 1 - row, n_particles);
+      // The coefficients only depend on the permutation that relates the two
+      // permutations; those in the first row are relative to the first
+      // permutation (which is not the identity).
+      perm::Permutation row_perm = perm::unrank(row, n_particles);
+      row_perm->invert();
+      perm::Permutation first_perm = perm::unrank(0, n_particles);
       perm::Permutation col_perm = perm::unrank(col, n_particles);
 
       col_perm->preMultiply(row_perm);
+      col_perm->preMultiply(first_perm);
 
       std::size_t source_idx = perm::rank(col_perm, n_particles);
       M(row, col) = first_row[source_idx];
-- 
2.43.0


From daa995ae31284f9b3c8328c158a7dc6e4db74d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:51 +0000
Subject: [PATCH 113/116] fix: biorthogonal transform of pairs of mixed spaces
 lost indices

---
 SeQuant/domain/mbpt/biorthogonalization.cpp | 97 +++++++++++----------
 1 file changed, 52 insertions(+), 45 deletions(-)

diff --git a/SeQuant/domain/mbpt/biorthogonalization.cpp b/SeQuant/domain/mbpt/biorthogonalization.cpp
index 1dd934c..4f44ac1 100644
--- a/SeQuant/domain/mbpt/biorthogonalization.cpp
+++ b/SeQuant/domain/mbpt/biorthogonalization.cpp
@@ -308,28 +308,31 @@ ExprPtr create_expr_for(const ParticlePairings& ref_pairing,
   SEQUANT_ASSERT(std::is_sorted(ref_pairing.begin(), ref_pairing.end(),
                                 compare_first_less<IndexPair>{}));
 
-  container::set<std::pair<IndexSpace, IndexSpace>> ref_space_pairing;
-  ref_space_pairing.reserve(ref_pairing.size());
+  // the index pairs of the expression to be created
+  ParticlePairings target;
+  target.reserve(ref_pairing.size());
   for (std::size_t i = 0; i < ref_pairing.size(); ++i) {
-    ref_space_pairing.emplace(ref_pairing[i].first.space(),
-                              ref_pairing[perm->image(i)].second.space());
+    target.emplace_back(ref_pairing[i].first,
+                        ref_pairing[perm->image(i)].second);
   }
 
-  // Look for a ParticlePairings object that pairs indices belonging to index
-  // spaces compatible with ref_space_pairing
+  auto space_pairing = [](const ParticlePairings& pairing) {
+    container::svector<std::pair<IndexSpace, IndexSpace>> spaces;
+    spaces.reserve(pairing.size());
+    for (const IndexPair& pair : pairing) {
+      spaces.emplace_back(pair.first.space(), pair.second.space());
+    }
+    std::sort(spaces.begin(), spaces.end());
+    return spaces;
+  };
+  const auto target_spaces = space_pairing(target);
+
+  // Look for a ParticlePairings object that pairs indices belonging to the same
+  // index spaces (each as many times)
   auto it = std::find_if(
       pairings.begin(), pairings.end(), [&](const ParticlePairings& p) {
         SEQUANT_ASSERT(p.size() == ref_pairing.size());
-
-        for (const IndexPair& pair : p) {
-          if (ref_space_pairing.find(
-                  std::make_pair(pair.first.space(), pair.second.space())) ==
-              ref_space_pairing.end()) {
-            return false;
-          }
-        }
-
-        return true;
+        return space_pairing(p) == target_spaces;
       });
 
   if (it == pairings.end()) {
@@ -343,38 +346,42 @@ ExprPtr create_expr_for(const ParticlePairings& ref_pairing,
 
   SEQUANT_ASSERT(base.size() == ref_pairing.size());
 
-  container::map<Index, Index> replacements;
-  for (std::size_t i = 0; i < base.size(); ++i) {
-    std::size_t ref_idx = perm->image(i);
-
-    // Remember that all index pairings are sorted w.r.t. first and hence we are
-    // only looking for permutations in second
+  // Since the tensors are assumed to be particle-symmetric, every pair of base
+  // can become any pair of target of the same spaces (we may only permute
+  // indices belonging to the same space, otherwise, we would produce
+  // non-sensical expressions). Pairs that stay in place are preferred.
+  auto same_spaces = [](const IndexPair& lhs, const IndexPair& rhs) {
+    return lhs.first.space() == rhs.first.space() &&
+           lhs.second.space() == rhs.second.space();
+  };
+  const std::size_t n_pairs = base.size();
+  container::svector<std::size_t> match(n_pairs, n_pairs);
+  container::svector<bool> taken(n_pairs, false);
+  for (std::size_t i = 0; i < n_pairs; ++i) {
     SEQUANT_ASSERT(base[i].first == ref_pairing[i].first);
-    const bool differs_in_second =
-        base[i].second != ref_pairing[ref_idx].second;
-
-    if (!differs_in_second) {
-      // This particle pairing is identical
-      continue;
+    if (same_spaces(base[i], target[i])) {
+      match[i] = i;
+      taken[i] = true;
     }
+  }
+  for (std::size_t i = 0; i < n_pairs; ++i) {
+    for (std::size_t k = 0; match[i] == n_pairs && k < n_pairs; ++k) {
+      if (!taken[k] && same_spaces(base[i], target[k])) {
+        match[i] = k;
+        taken[k] = true;
+      }
+    }
+    SEQUANT_ASSERT(match[i] < n_pairs);
+  }
 
-    SEQUANT_ASSERT(differs_in_second);
-
-    // Note: we may only permute indices belonging to the same space
-    // (otherwise, we would produce non-sensical expressions)
-    if (base[i].second.space() == ref_pairing[ref_idx].second.space()) {
-      // base and ref_pairing differ in the second index of the current
-      // pairing and their index space matches -> can just permute them
-      replacements.emplace(base[i].second, ref_pairing[ref_idx].second);
-    } else {
-      // Index spaces of the differing index (second) in the pairings are
-      // different as well. Since the tensors are assumed to be
-      // particle-symmetric, we can instead permute the first indices in the
-      // pairings, which are of the same space (that's guaranteed by the way we
-      // chose base).
-      SEQUANT_ASSERT(base[i].first.space() ==
-                     ref_pairing[ref_idx].first.space());
-      replacements.emplace(base[i].first, ref_pairing[ref_idx].first);
+  container::map<Index, Index> replacements;
+  for (std::size_t i = 0; i < n_pairs; ++i) {
+    const IndexPair& pair = target[match[i]];
+    if (base[i].first != pair.first) {
+      replacements.emplace(base[i].first, pair.first);
+    }
+    if (base[i].second != pair.second) {
+      replacements.emplace(base[i].second, pair.second);
     }
   }
 
-- 
2.43.0


From 2e8c51afd2761e3598a65841c9cd345bb174ab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:51 +0000
Subject: [PATCH 114/116] fix: biorthogonalization filter did not accept
 variables

---
 SeQuant/domain/mbpt/biorthogonalization.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/SeQuant/domain/mbpt/biorthogonalization.cpp b/SeQuant/domain/mbpt/biorthogonalization.cpp
index 4f44ac1..445881f 100644
--- a/SeQuant/domain/mbpt/biorthogonalization.cpp
+++ b/SeQuant/domain/mbpt/biorthogonalization.cpp
@@ -600,10 +600,20 @@ ExprPtr WK_biorthogonalization_filter_impl(ExprPtr expr, IdxGroups&& ext_idxs) {
     auto product = term.as_shared_ptr<Product>();
     auto scalar = product->scalar();
 
-    sequant::TensorNetwork tn(*product);
+    // factors that are not tensors (e.g. variables) are not part of the network
+    container::svector<ExprPtr> tensors;
+    container::svector<ExprPtr> others;
+    for (const auto& factor : *product) {
+      (factor->is<AbstractTensor>() ? tensors : others).push_back(factor);
+    }
+
+    sequant::TensorNetwork tn(tensors);
     auto hash =
         tn.canonicalize_slots(TensorCanonicalizer::cardinal_tensor_labels())
             .hash_value();
+    for (const auto& factor : others) {
+      hash::combine(hash, factor->hash_value());
+    }
 
     auto it = largest_coeff_terms.find(hash);
     if (it == largest_coeff_terms.end()) {
-- 
2.43.0


From de3bee0498555c2264a1380eb5f9a8699b2180eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:55 +0000
Subject: [PATCH 115/116] fix: summands with equal hashes were put in the order
 of their addresses

---
 SeQuant/core/expressions/expr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/expressions/expr.cpp b/SeQuant/core/expressions/expr.cpp
index 97521c5..6d01f02 100644
--- a/SeQuant/core/expressions/expr.cpp
+++ b/SeQuant/core/expressions/expr.cpp
@@ -550,7 +550,7 @@ SumPtr HashingAccumulator::make_sum_impl(bool canonicalize) {
   if (canonicalize) {
     ranges::sort(summands, [](const auto &e1, const auto &e2) {
       if (e1->hash_value() == e2->hash_value()) {
-        return e1 < e2;
+        return *e1 < *e2;
       } else {
         return e1->hash_value() < e2->hash_value();
       }
-- 
2.43.0


From 37827ce23c1a6a7524959de73eb804ffc0377064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:55 +0000
Subject: [PATCH 116/116] fix: Product::canonicalize left the memoized hash of
 products without tensors

---
 SeQuant/core/expressions/expr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeQuant/core/expressions/expr.cpp b/SeQuant/core/expressions/expr.cpp
index 6d01f02..0060336 100644
--- a/SeQuant/core/expressions/expr.cpp
+++ b/SeQuant/core/expressions/expr.cpp
@@ -242,6 +242,8 @@ ExprPtr Product::canonicalize_impl(CanonicalizeOptions opts) {
       this->scalar_ *= std::static_pointer_cast<Constant>(bp)->value();
     }
   });
+  // factors have changed, and are about to be reordered
+  this->reset_hash_value();
 
   if (Logger::instance().canonicalize) {
     std::wcout << "Product canonicalization(" << to_wstring(opts.method)
-- 
2.43.0

