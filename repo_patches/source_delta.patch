From 91086491bde5675eb1772af5d38c4c434fb9c6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 01/26] fix: do not simplify products of a spin-1/2 and a
 higher-spin generator

generator_spin::simplify_prod() compared only the indices of its
operands, so S+_{1/2}(i) * S+_{1}(i) vanished although generators of
different multiplicities act on different degrees of freedom and commute.
---
 include/libcommute/expression/generator_spin.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/expression/generator_spin.hpp b/include/libcommute/expression/generator_spin.hpp
index 849c210..94a3197 100644
--- a/include/libcommute/expression/generator_spin.hpp
+++ b/include/libcommute/expression/generator_spin.hpp
@@ -96,7 +96,8 @@ public:
     // cppcheck-suppress-begin knownConditionTrueFalse
     auto const& g2_ = dynamic_cast<generator_spin const&>(g2);
     // cppcheck-suppress knownConditionTrueFalse
-    if(!base::equal(g2) || this->multiplicity_ != 2) return false;
+    if(!base::equal(g2) || this->multiplicity_ != 2 || g2_.multiplicity_ != 2)
+      return false;
 
     if(this->c_ == g2_.c_) {
       f.set(this->c_ == spin_component::z ? var_number(1, 4) : var_number(0));
-- 
2.43.0


From 9c9aec00b7f6ac4ffa9228107a276c6a0d58c989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 02/26] fix: make expr -= expr safe when both operands are the
 same object

operator-=() erased monomials from the map it was iterating over, so that
subtracting an expression from itself used an invalidated iterator.
---
 include/libcommute/expression/expression.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index c56ad7f..de44912 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -261,7 +261,10 @@ public:
   // Compound assignment/subtraction
   template <typename S> expression& operator-=(expression_t<S> const& expr) {
     auto const z = scalar_traits<ScalarType>::make_const(0);
-    for(auto const& p : expr.get_monomials()) {
+    auto const& expr_mons = expr.get_monomials();
+    for(auto p_it = expr_mons.begin(); p_it != expr_mons.end();) {
+      // 'expr' can be '*this', so move on before a monomial gets erased
+      auto const& p = *p_it++;
       auto it = monomials_.find(p.first);
       if(it == monomials_.end())
         monomials_.emplace(p.first, z - p.second);
-- 
2.43.0


From 4b7d5b1cb94f031b57742293f9b0cd8516b022dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 03/26] fix: try to simplify pairs of generators put in order
 by the last swap

---
 include/libcommute/expression/expression.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index de44912..173b30e 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -628,7 +628,8 @@ private:
     // Normalization is done by means of a simple bubble sort algorithm.
     // Apart from sorting elements, this function keeps track of the coefficient
     // and recursively calls itself if a permutation of two operators produces a
-    // new monomial.
+    // new monomial. Every pass inspects all pairs of neighbors, because a pair
+    // that has just been put into the canonical order can be simplifiable.
 
     using generator_t = generator<IndexTypes...>;
 
@@ -657,7 +658,7 @@ private:
         }
       };
 
-      std::size_t n_max = m.size() - 1;
+      std::size_t const n_max = m.size() - 1;
       bool is_swapped = false;
       do {
         is_swapped = false;
@@ -688,7 +689,6 @@ private:
             }
           }
         }
-        --n_max;
       } while(is_swapped);
 
       // Check that coefficient in front of this monomial is not zero
-- 
2.43.0


From df54b8ee6bb87b4fdf5f25f59b71a76bb747a949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 04/26] fix: simplify the rest of a monomial when a power
 reduces to a constant

---
 include/libcommute/expression/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 173b30e..4761ae0 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -724,7 +724,7 @@ private:
             auto v = scalar_traits<ScalarType>::make_const(f.const_term);
             // cppcheck-suppress knownConditionTrueFalse
             if(!scalar_traits<ScalarType>::is_zero(v))
-              reduce_powers_and_store(
+              normalize_and_store(
                   concatenate(std::make_pair(m.begin(), it - power + 2),
                               std::make_pair(next_it + 1, end_it)),
                   coeff * v,
-- 
2.43.0


From bd14fcb338900fbeed162a6a8fffddeb30950883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 05/26] fix: copy the algebra bit ranges when copying a Hilbert
 space

---
 include/libcommute/loperator/hilbert_space.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index bb4d1cd..2098b66 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -233,7 +233,8 @@ public:
 
   // Value semantics
   hilbert_space(hilbert_space const& hs)
-    : bit_range_end_(hs.bit_range_end_),
+    : algebra_bit_ranges_(hs.algebra_bit_ranges_),
+      bit_range_end_(hs.bit_range_end_),
       dim_(hs.dim_),
       foreach_alg_(hs.foreach_alg_ ?
                        make_unique<detail::sparse_foreach_basis_state>(
@@ -247,6 +248,8 @@ public:
   }
   hilbert_space(hilbert_space&&) noexcept = default;
   hilbert_space& operator=(hilbert_space const& hs) {
+    if(this == &hs) return *this;
+    algebra_bit_ranges_ = hs.algebra_bit_ranges_;
     bit_range_end_ = hs.bit_range_end_;
     elementary_spaces_.clear();
     for(auto const& es : hs.elementary_spaces_) {
-- 
2.43.0


From 33503d2c4365984c3a3557f88027348853618ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:23 +0000
Subject: [PATCH 06/26] fix: count basis states in sv_index_type instead of int

---
 include/libcommute/loperator/hilbert_space.hpp         | 2 +-
 include/libcommute/loperator/n_fermion_sector_view.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index 2098b66..f7b8459 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -76,7 +76,7 @@ public:
                     0 :
                     std::accumulate(sizes_.begin(),
                                     sizes_.end(),
-                                    1,
+                                    sv_index_type(1),
                                     std::multiplies<sv_index_type>())),
       jumps_(init_jumps(sizes_)),
       indices_(sizes_.size()) {}
diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 640d380..5cf1129 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -739,7 +739,7 @@ public:
       sector_gens(params.begin(), params.end()),
       total(std::accumulate(sector_gens.begin(),
                             sector_gens.end(),
-                            1,
+                            sv_index_type(1),
                             [](sv_index_type n, unranking_generator const& g) {
                               return n * g.size();
                             })),
-- 
2.43.0


From e3f7bfed4d9839194c07d61c40557e99f9765c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:59 +0000
Subject: [PATCH 07/26] fix: avoid overflow of intermediate products in
 binomial coefficients

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 5cf1129..736cd8b 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -54,8 +54,12 @@ inline sv_index_type binomial(unsigned int n, unsigned int k) {
   if(k > n) return 0;
   if(k > n / 2) k = n - k;
   sv_index_type C = 1;
-  for(unsigned int i = 0; i < k; ++i)
-    C = (C * (n - i)) / (i + 1);
+  for(unsigned int i = 0; i < k; ++i) {
+    // C * (n - i) / (i + 1) without an overflow of the intermediate product
+    sv_index_type const q = C / (i + 1);
+    sv_index_type const r = C % (i + 1);
+    C = q * (n - i) + r * (n - i) / (i + 1);
+  }
   return C;
 }
 
-- 
2.43.0


From 588d0ca0436ead6ebd3bb95ff4df74a98bbb0309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:59 +0000
Subject: [PATCH 08/26] fix: do not truncate bit masks of fermionic sectors to
 32 bits

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 736cd8b..8119ed2 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -101,7 +101,7 @@ private:
   }
 
   template <typename... IndexTypes>
-  static unsigned int
+  static sv_index_type
   init_mask(hilbert_space<IndexTypes...> const& hs,
             sector_descriptor<hilbert_space<IndexTypes...>> const& sector) {
     sv_index_type m = 0;
-- 
2.43.0


From 22f3a182b95fc78e497c14a0094cafc6880063cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:59 +0000
Subject: [PATCH 09/26] fix: keep sector parameters of a multisector view valid
 in its copies

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 8119ed2..ab12d4b 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -718,7 +718,7 @@ unsigned int make_nonmultisector_mask(HSType const& hs,
 class multisector_unranking_generator {
 
   // Parameters of sectors
-  detail::sector_params_vec_t const& sector_params;
+  detail::sector_params_vec_t sector_params;
 
   // State unranking generators for each sector
   std::vector<unranking_generator> sector_gens;
-- 
2.43.0


From e9e3b16e4a7d087156fca1ef0b6b3f1868bfcce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:28 +0000
Subject: [PATCH 10/26] fix: enumerate the only state of one-dimensional spaces
 in compressed_state_view

---
 include/libcommute/loperator/compressed_state_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/compressed_state_view.hpp b/include/libcommute/loperator/compressed_state_view.hpp
index 8a8032e..f2484de 100644
--- a/include/libcommute/loperator/compressed_state_view.hpp
+++ b/include/libcommute/loperator/compressed_state_view.hpp
@@ -95,7 +95,7 @@ private:
             mask = 0;
           }
         });
-    if(dim != 1) {
+    if(dim != 1 || (sizes.empty() && hs.size() != 0)) {
       sizes.push_back(dim);
       masks.push_back(mask);
     }
-- 
2.43.0


From ac8f29226339afdb6cd8d02ed3da7de9d6454982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:13 +0000
Subject: [PATCH 11/26] fix: apply operators of a basis_mapper in the
 documented order

---
 include/libcommute/loperator/mapped_basis_view.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/mapped_basis_view.hpp b/include/libcommute/loperator/mapped_basis_view.hpp
index 0e2a4ad..9136065 100644
--- a/include/libcommute/loperator/mapped_basis_view.hpp
+++ b/include/libcommute/loperator/mapped_basis_view.hpp
@@ -156,7 +156,8 @@ class basis_mapper {
     auto from_st = st;
     auto to_st = zeros_like(st);
     for(; sum_n < N; ++sum_n) {
-      O_list[m](from_st, to_st);
+      // The last operator in the list acts first
+      O_list[O_list.size() - 1 - m](from_st, to_st);
       if(to_st.n_nonzeros() == 0) return;
       compositions_constructor_impl(O_list, to_st, m + 1, sum_n + 1, N);
       from_st = to_st;
-- 
2.43.0


From af0d624f775c9fba5a01b3ad693176b00857980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:06 +0000
Subject: [PATCH 12/26] fix: compress every element in
 disjoint_sets::compress_sets()

---
 include/libcommute/loperator/disjoint_sets.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/disjoint_sets.hpp b/include/libcommute/loperator/disjoint_sets.hpp
index 3287b38..cde20ed 100644
--- a/include/libcommute/loperator/disjoint_sets.hpp
+++ b/include/libcommute/loperator/disjoint_sets.hpp
@@ -108,7 +108,7 @@ public:
 
   // Compress all sets (make every element represented by its parent)
   void compress_sets() {
-    for(std::size_t x : parents_)
+    for(std::size_t x = 0; x < size(); ++x)
       find_root(x);
   }
 
-- 
2.43.0


From 1dbcbc4b68d9552acc1d93e7f1d2d227a063f60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:50 +0000
Subject: [PATCH 13/26] fix: group all connections of a merged subspace in
 merge_subspaces()

---
 .../libcommute/loperator/space_partition.hpp  | 28 ++++++++-----------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/include/libcommute/loperator/space_partition.hpp b/include/libcommute/loperator/space_partition.hpp
index 429c8e1..64864a2 100644
--- a/include/libcommute/loperator/space_partition.hpp
+++ b/include/libcommute/loperator/space_partition.hpp
@@ -173,25 +173,19 @@ public:
     // Merge all 'out' subspaces corresponding to the same 'in' subspace
     // in 'conn'.
     auto merge_conn_targets = [this](conn_t const& conn) -> bool {
-      if(conn.empty()) return false;
-
       bool subspaces_linked = false;
 
-      auto conn_it = conn.cbegin();
-      sv_index_type in_subspace = ds.find_root(conn_it->first);
-      sv_index_type out_subspace = ds.find_root(conn_it->second);
-      ++conn_it;
-      for(; conn_it != conn.cend(); ++conn_it) {
-        if(ds.find_root(conn_it->first) == ds.find_root(in_subspace)) {
-          sv_index_type out_subspace1 = ds.find_root(out_subspace);
-          sv_index_type out_subspace2 = ds.find_root(conn_it->second);
-          if(out_subspace1 != out_subspace2) {
-            ds.root_union(out_subspace1, out_subspace2);
-            subspaces_linked = true;
-          }
-        } else {
-          in_subspace = ds.find_root(conn_it->first);
-          out_subspace = ds.find_root(conn_it->second);
+      // One of the 'out' subspaces for each (merged) 'in' subspace
+      std::map<sv_index_type, sv_index_type> targets;
+      for(auto const& c : conn) {
+        auto target = targets.emplace(ds.find_root(c.first), c.second);
+        if(target.second) continue;
+
+        sv_index_type out_subspace1 = ds.find_root(target.first->second);
+        sv_index_type out_subspace2 = ds.find_root(c.second);
+        if(out_subspace1 != out_subspace2) {
+          ds.root_union(out_subspace1, out_subspace2);
+          subspaces_linked = true;
         }
       }
 
-- 
2.43.0


From ac71365d3e67193e0c97c75bda998081c2ae9122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:57 +0000
Subject: [PATCH 14/26] fix: do not move arguments of parametric_loperator into
 its first coefficient

---
 include/libcommute/loperator/loperator.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/libcommute/loperator/loperator.hpp b/include/libcommute/loperator/loperator.hpp
index 9843151..de4f55f 100644
--- a/include/libcommute/loperator/loperator.hpp
+++ b/include/libcommute/loperator/loperator.hpp
@@ -223,11 +223,12 @@ public:
   // the output coefficient values.
   template <typename... CoeffArgs>
   inline loperator<evaluated_coeff_t<CoeffArgs...>, AlgebraIDs...>
+  // NOLINTNEXTLINE(cppcoreguidelines-missing-std-forward)
   at(CoeffArgs&&... args) const {
     loperator<evaluated_coeff_t<CoeffArgs...>, AlgebraIDs...> lop;
     for(auto const& m : base::m_actions()) {
-      lop.add_monomial_action(m.first,
-                              m.second(std::forward<CoeffArgs>(args)...));
+      // `args` are used for every monomial and must not be moved from
+      lop.add_monomial_action(m.first, m.second(args...));
     }
     return lop;
   }
@@ -239,15 +240,17 @@ private:
   act_impl(StateVector const& src,
            StateVector& dst,
            std::vector<evaluated_coeff_t<CoeffArgs...>>& evaluated_coeffs,
+           // NOLINTNEXTLINE(cppcoreguidelines-missing-std-forward)
            CoeffArgs&&... args) const {
 
     auto const& m_act = base::m_actions();
 
     // Evaluate coefficients
+    // `args` are used for every monomial and must not be moved from
     evaluated_coeffs.reserve(m_act.size());
     for(auto const& a : m_act)
       // cppcheck-suppress useStlAlgorithm
-      evaluated_coeffs.emplace_back(a.second(std::forward<CoeffArgs>(args)...));
+      evaluated_coeffs.emplace_back(a.second(args...));
 
     // Apply monomials
     foreach(
-- 
2.43.0


From 737b706c4dc15a84dae90250eacf4c576cdfeb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:11 +0000
Subject: [PATCH 15/26] fix: compute the number of bits of a boson space with
 integers

---
 .../libcommute/loperator/elementary_space_boson.hpp   | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/loperator/elementary_space_boson.hpp b/include/libcommute/loperator/elementary_space_boson.hpp
index 3ffd78c..1a2788e 100644
--- a/include/libcommute/loperator/elementary_space_boson.hpp
+++ b/include/libcommute/loperator/elementary_space_boson.hpp
@@ -20,7 +20,6 @@
 #include "elementary_space.hpp"
 
 #include <cassert>
-#include <cmath>
 
 namespace libcommute {
 
@@ -39,7 +38,7 @@ public:
   elementary_space_boson(sv_index_type dim, Args&&... indices)
     : base(std::forward<Args>(indices)...),
       dim_(dim),
-      n_bits_(std::ceil(std::log2(dim))) {
+      n_bits_(n_bits_for_dim(dim)) {
     assert(dim > 0);
   }
   elementary_space_boson(elementary_space_boson const&) = default;
@@ -71,6 +70,14 @@ private:
 
   // ceil(log_2(dim))
   int const n_bits_;
+
+  // Compute ceil(log_2(dim)) without rounding errors of floating point types
+  static int n_bits_for_dim(sv_index_type dim) {
+    int n_bits = 0;
+    for(sv_index_type n = dim - 1; n != 0; n >>= 1)
+      ++n_bits;
+    return n_bits;
+  }
 };
 
 namespace static_indices {
-- 
2.43.0


From d6c884ee047891f30b5827cd77d35204188691b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:32 +0000
Subject: [PATCH 16/26] fix: look for unknown bosonic generators in vanishing
 monomials, too

---
 include/libcommute/loperator/monomial_action_boson.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/monomial_action_boson.hpp b/include/libcommute/loperator/monomial_action_boson.hpp
index d117e42..b2aec92 100644
--- a/include/libcommute/loperator/monomial_action_boson.hpp
+++ b/include/libcommute/loperator/monomial_action_boson.hpp
@@ -100,7 +100,8 @@ public:
         // Application of this monomial would inevitably give 0. Skipping.
         if(power > n_max) {
           vanishing_ = true;
-          return;
+          power = 1;
+          continue;
         }
 
         bool dagger =
-- 
2.43.0


From a65ed02512de8f53f689a02ffdd16b42a4bf809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:32 +0000
Subject: [PATCH 17/26] fix: leave Hilbert space unchanged when an added
 elementary space is too big

---
 include/libcommute/loperator/hilbert_space.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index f7b8459..d58a326 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -289,6 +289,12 @@ public:
   void add(elementary_space_t const& es) {
     auto r = elementary_spaces_.emplace(es.clone(), bit_range_t(0, 0));
     if(!r.second) throw elementary_space_exists(es);
+    int n_bits = total_n_bits() + es.n_bits();
+    if(n_bits > max_n_bits) {
+      // Leave this Hilbert space in the state it was in before the call
+      elementary_spaces_.erase(r.first);
+      throw hilbert_space_too_big(n_bits);
+    }
     recompute_bit_ranges();
     dim_ *= es.dim();
     init_foreach_alg();
-- 
2.43.0


From fb7843fccf919d02114e23c65275dec2b25b6eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:45 +0000
Subject: [PATCH 18/26] fix: reject generators of other algebras in
 es_constructor with a single algebra ID

---
 include/libcommute/loperator/es_constructor.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/libcommute/loperator/es_constructor.hpp b/include/libcommute/loperator/es_constructor.hpp
index 7b38ece..27e9b31 100644
--- a/include/libcommute/loperator/es_constructor.hpp
+++ b/include/libcommute/loperator/es_constructor.hpp
@@ -143,6 +143,7 @@ public:
   template <typename... IndexTypes>
   inline std::unique_ptr<elementary_space<IndexTypes...>>
   operator()(generator<IndexTypes...> const& g) const {
+    if(!is_fermion(g)) throw es_construction_failure<IndexTypes...>(g);
     return make_unique<elementary_space_fermion<IndexTypes...>>(g.indices());
   }
 };
@@ -158,6 +159,7 @@ public:
   template <typename... IndexTypes>
   inline std::unique_ptr<elementary_space<IndexTypes...>>
   operator()(generator<IndexTypes...> const& g) const {
+    if(!is_boson(g)) throw es_construction_failure<IndexTypes...>(g);
     return make_unique<elementary_space_boson<IndexTypes...>>(dim_boson_,
                                                               g.indices());
   }
@@ -170,6 +172,7 @@ public:
   template <typename... IndexTypes>
   inline std::unique_ptr<elementary_space<IndexTypes...>>
   operator()(generator<IndexTypes...> const& g) const {
+    if(!is_spin(g)) throw es_construction_failure<IndexTypes...>(g);
     double s = dynamic_cast<generator_spin<IndexTypes...> const&>(g).spin();
     return make_unique<elementary_space_spin<IndexTypes...>>(s, g.indices());
   }
-- 
2.43.0


From a9422d5012c3ea32eb8ce2631a1c361d0e658b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:43 +0000
Subject: [PATCH 19/26] fix: allow nested iterations over basis states of a
 sparse Hilbert space

---
 include/libcommute/loperator/hilbert_space.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index d58a326..6ed65be 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -52,8 +52,6 @@ class sparse_foreach_basis_state {
   // jumps_[d] is the additional jump in the basis state index introduced when
   // indices_[d] reaches sizes_[d] and indices_[d + 1] is incremented.
   std::vector<sv_index_type> jumps_;
-  // Current set of integers
-  std::vector<sv_index_type> mutable indices_;
 
   static std::vector<sv_index_type>
   init_jumps(std::vector<sv_index_type> const& sizes) {
@@ -78,8 +76,7 @@ public:
                                     sizes_.end(),
                                     sv_index_type(1),
                                     std::multiplies<sv_index_type>())),
-      jumps_(init_jumps(sizes_)),
-      indices_(sizes_.size()) {}
+      jumps_(init_jumps(sizes_)) {}
 
   // Value semantics
   sparse_foreach_basis_state(sparse_foreach_basis_state const&) = default;
@@ -91,18 +88,20 @@ public:
   ~sparse_foreach_basis_state() = default;
 
   template <typename Function> inline void operator()(Function&& f) const {
-    std::fill(indices_.begin(), indices_.end(), 0);
+    // Current set of integers. It is local to this call, because 'f' can start
+    // another iteration over the same basis.
+    std::vector<sv_index_type> indices(sizes_.size(), 0);
     sv_index_type state = 0;
     for(sv_index_type i = 0; i < n_states_; ++i) {
       std::forward<Function>(f)(state);
-      ++indices_[0];
+      ++indices[0];
       ++state;
 
       for(std::size_t d = 0;
-          d < indices_.size() - 1 && indices_[d] == sizes_[d];
+          d < indices.size() - 1 && indices[d] == sizes_[d];
           ++d) {
-        indices_[d] = 0;
-        ++indices_[d + 1];
+        indices[d] = 0;
+        ++indices[d + 1];
         state += jumps_[d];
       }
     }
-- 
2.43.0


From fff0adf7258062296dd62c327e66ba10e8296027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:43 +0000
Subject: [PATCH 20/26] fix: allow nested iterations over N-fermion
 (multi)sector views

---
 .../loperator/n_fermion_sector_view.hpp        | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index ab12d4b..e9100e4 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -572,9 +572,12 @@ foreach(n_fermion_sector_view<StateVector, Ref, RankingAlgorithm> const& view,
   sv_index_type const dim_nonfermion = detail::pow2(view.M_nonfermion);
   sv_index_type sector_index = 0;
 
-  view.unranking.init();
-  while(!view.unranking.done()) {
-    sv_index_type const unranked = view.unranking.next();
+  // Use a copy of the generator, because 'f' can start another iteration
+  // over the same view
+  auto const unranking = view.unranking;
+  unranking.init();
+  while(!unranking.done()) {
+    sv_index_type const unranked = unranking.next();
     for(sv_index_type index_nf = 0; index_nf < dim_nonfermion; ++index_nf) {
 
       // Emulate decltype(auto)
@@ -959,9 +962,12 @@ inline void foreach(
   sv_index_type const dim_nonmultisector = detail::pow2(view.M_nonmultisector);
   sv_index_type multisector_index = 0;
 
-  view.unranking.init();
-  while(!view.unranking.done()) {
-    sv_index_type unranked = view.unranking.next();
+  // Use a copy of the generator, because 'f' can start another iteration
+  // over the same view
+  auto const unranking = view.unranking;
+  unranking.init();
+  while(!unranking.done()) {
+    sv_index_type unranked = unranking.next();
     for(sv_index_type index_nms = 0; index_nms < dim_nonmultisector;
         ++index_nms) {
 
-- 
2.43.0


From f75170d809aca8a00b737889e0cbf924ee8c60b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:43 +0000
Subject: [PATCH 21/26] fix: do not add a stale term for vanishing coefficients
 in conj()

---
 include/libcommute/expression/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 4761ae0..2302a37 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -206,8 +206,8 @@ public:
           (*m_it).conj(f);
           m_contrib *= expression(f);
         }
+        res += m_contrib;
       }
-      res += m_contrib;
     }
     return res;
   }
-- 
2.43.0


From 4634ae1fd1e1308c446d9153152e64f931d918b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:43 +0000
Subject: [PATCH 22/26] fix: tell apart Hilbert spaces with bosonic spaces of
 different dimensions

---
 include/libcommute/loperator/hilbert_space.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index 6ed65be..f96d504 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -276,7 +276,11 @@ public:
                       hs1.elementary_spaces_.end(),
                       hs2.elementary_spaces_.begin(),
                       [](value_type const& v1, value_type const& v2) {
-                        return *v1.first == *v2.first && v1.second == v2.second;
+                        // Bosonic elementary spaces of different dimensions
+                        // compare equal and can span the same number of bits
+                        return *v1.first == *v2.first &&
+                               v1.first->dim() == v2.first->dim() &&
+                               v1.second == v2.second;
                       });
   }
   inline friend bool operator!=(hilbert_space const& hs1,
-- 
2.43.0


From 7d53050d8b13a31542d3083558bca46bf45140ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:57 +0000
Subject: [PATCH 23/26] fix: count set bits in popcount() for compilers without
 intrinsics

---
 include/libcommute/loperator/bit_ops.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/libcommute/loperator/bit_ops.hpp b/include/libcommute/loperator/bit_ops.hpp
index b3e7c69..015b814 100644
--- a/include/libcommute/loperator/bit_ops.hpp
+++ b/include/libcommute/loperator/bit_ops.hpp
@@ -57,13 +57,15 @@ inline unsigned int popcount(std::uint64_t i) {
 #if defined(__GNUC__) || defined(__clang__)
   return __builtin_popcountll(i);
 #else
-  i ^= i >> 32;
-  i ^= i >> 16;
-  i ^= i >> 8;
-  i ^= i >> 4;
-  i ^= i >> 2;
-  i ^= i >> 1;
-  return i;
+  // https://graphics.stanford.edu/%7Eseander/bithacks.html
+  //   #CountBitsSetParallel
+  i = i - ((i >> 1) & 0x5555555555555555);
+  i = (i & 0x3333333333333333) + ((i >> 2) & 0x3333333333333333);
+  i = (i + (i >> 4)) & 0x0f0f0f0f0f0f0f0f;
+  i += i >> 8;
+  i += i >> 16;
+  i += i >> 32;
+  return i & 0x7f;
 #endif
 }
 
-- 
2.43.0


From bc938fbc75fb440eb5c6727ac9d0214e9fb4f398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:47 +0000
Subject: [PATCH 24/26] fix: make expr += expr safe when its coefficients
 double to zero

---
 include/libcommute/expression/expression.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 2302a37..7743c8f 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -246,7 +246,10 @@ public:
 
   // Compound assignment/addition
   template <typename S> expression& operator+=(expression_t<S> const& expr) {
-    for(auto const& p : expr.get_monomials()) {
+    auto const& expr_mons = expr.get_monomials();
+    for(auto p_it = expr_mons.begin(); p_it != expr_mons.end();) {
+      // 'expr' can be '*this', so move on before a monomial gets erased
+      auto const& p = *p_it++;
       auto it = monomials_.find(p.first);
       if(it == monomials_.end())
         monomials_.emplace(p);
-- 
2.43.0


From aa3cb65b29a9962c3f62a27b9d2608eaa30fa65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:17 +0000
Subject: [PATCH 25/26] fix: reject constants beyond the range of an integral
 scalar type

---
 include/libcommute/scalar_traits.hpp          | 3 ++-
 include/libcommute/scalars/boost_rational.hpp | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/scalar_traits.hpp b/include/libcommute/scalar_traits.hpp
index 443644b..93c10a5 100644
--- a/include/libcommute/scalar_traits.hpp
+++ b/include/libcommute/scalar_traits.hpp
@@ -54,7 +54,8 @@ template <typename S> struct scalar_traits<S, with_trait<std::is_integral, S>> {
   static bool is_zero(S const& x) { return x == 0; }
   // Make a constant from a double value
   static S make_const(double x) {
-    if(std::nearbyint(x) != x) {
+    double const bound = std::ldexp(1.0, std::numeric_limits<S>::digits);
+    if(std::nearbyint(x) != x || x < -bound || x >= bound) {
       throw std::runtime_error("Cannot convert " + std::to_string(x) +
                                " to an integral ScalarType");
     }
diff --git a/include/libcommute/scalars/boost_rational.hpp b/include/libcommute/scalars/boost_rational.hpp
index aa53d42..7691d9d 100644
--- a/include/libcommute/scalars/boost_rational.hpp
+++ b/include/libcommute/scalars/boost_rational.hpp
@@ -33,7 +33,10 @@ template <typename IntType> struct scalar_traits<boost::rational<IntType>> {
   static bool is_zero(rational_t const& x) { return x == 0; }
   // Make a constant from a double value
   static rational_t make_const(double x) {
-    if(std::nearbyint(x) != x) {
+    using limits = std::numeric_limits<IntType>;
+    double const bound = std::ldexp(1.0, limits::digits);
+    if(std::nearbyint(x) != x ||
+       (limits::is_bounded && (x < -bound || x >= bound))) {
       throw std::runtime_error("Cannot convert " + std::to_string(x) +
                                " to boost::rational");
     }
-- 
2.43.0


From 1f3a4795a4229d60d18a2439105a96caa7f7aa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:51 +0000
Subject: [PATCH 26/26] fix: drop terms with a zero structure constant from
 products of two generators

---
 include/libcommute/expression/expression.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 7743c8f..a7a1cba 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -693,11 +693,11 @@ private:
           }
         }
       } while(is_swapped);
-
-      // Check that coefficient in front of this monomial is not zero
-      if(scalar_traits<ScalarType>::is_zero(coeff)) return;
     }
 
+    // Check that coefficient in front of this monomial is not zero
+    if(scalar_traits<ScalarType>::is_zero(coeff)) return;
+
     // Store the result
     reduce_powers_and_store(std::move(m), coeff, target);
   }
-- 
2.43.0

