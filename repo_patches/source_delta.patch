From ec731d1fcce685a5d045b498e657f418b2f1da44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:22 +0000
Subject: [PATCH 01/52] fix: DynamicBitset of size zero no longer accesses a
 non-existent final page

---
 cpp/lib_moment/utilities/dynamic_bitset.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/utilities/dynamic_bitset.h b/cpp/lib_moment/utilities/dynamic_bitset.h
index 6143edc..172a594 100644
--- a/cpp/lib_moment/utilities/dynamic_bitset.h
+++ b/cpp/lib_moment/utilities/dynamic_bitset.h
@@ -101,7 +101,7 @@ namespace Moment {
         /** Construct an empty dynamic bitset with all values set to default_value */
         constexpr DynamicBitset(const index_t bit_size, const bool default_value)
             : DynamicBitset<page_t, index_t, storage_t>{bit_size} {
-            if (default_value) {
+            if (default_value && (page_count > 0)) {
                 for (index_t i = 0, iMax = page_count - 1; i < iMax; ++i) {
                     this->data[i] = ~static_cast<page_t>(0);
                 }
@@ -268,6 +268,12 @@ namespace Moment {
          */
         constexpr DynamicBitset<page_t, index_t, storage_t> operator~() const {
             DynamicBitset<page_t, index_t, storage_t> output{this->bit_size};
+
+            // Do nothing if no data
+            if (this->page_count <= 0) {
+                return output;
+            }
+
             for (index_t page = 0; page < (this->page_count-1); ++page) {
                 output.data[page] = ~this->data[page];
             }
-- 
2.43.0


From d9ebc9ba2a5c4cfddc1c1441460a77a9dfb44bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 02/52] fix: longest hashable string length accounts for all
 shorter strings, so its hash cannot overflow

---
 cpp/lib_moment/shortlex_hasher.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/shortlex_hasher.h b/cpp/lib_moment/shortlex_hasher.h
index e650b0d..e5288a9 100644
--- a/cpp/lib_moment/shortlex_hasher.h
+++ b/cpp/lib_moment/shortlex_hasher.h
@@ -68,9 +68,24 @@ namespace Moment {
                 // Hash is basically just string length for radix 1.
                 return std::numeric_limits<size_t>::max() - this->offset;
             }
-            return static_cast<size_t>(
-                    static_cast<double>(std::numeric_limits<size_t>::digits) / std::log2(this->radix)
-            );
+            if (this->radix == 0) {
+                return 0;
+            }
+
+            // Largest hash of a length N string is offset + sum_{k=1}^{N} radix^k; find largest N without overflow.
+            const hash_t limit = std::numeric_limits<hash_t>::max() - this->offset;
+            hash_t multiplier = 1;
+            hash_t total = 0;
+            size_t length = 0;
+            while (multiplier <= limit / this->radix) {
+                multiplier *= this->radix;
+                if (multiplier > limit - total) {
+                    break;
+                }
+                total += multiplier;
+                ++length;
+            }
+            return length;
         }
     };
 }
\ No newline at end of file
-- 
2.43.0


From 5f4529ad05f27b23946b7de773028da9c9afc3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:15 +0000
Subject: [PATCH 03/52] fix: presorted operator sequence is hashed from its
 stored operators, not from the moved-from argument

---
 cpp/lib_moment/dictionary/operator_sequence.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/dictionary/operator_sequence.cpp b/cpp/lib_moment/dictionary/operator_sequence.cpp
index c51557b..68f27d5 100644
--- a/cpp/lib_moment/dictionary/operator_sequence.cpp
+++ b/cpp/lib_moment/dictionary/operator_sequence.cpp
@@ -41,7 +41,7 @@ namespace Moment {
                                        sequence_storage_t operators,
                                        const Context &context,
                                        const SequenceSignType sign_type) noexcept
-        : HashedSequence{std::move(operators), context.hash(operators), sign_type}, context{&context} {
+        : HashedSequence{std::move(operators), context.the_hasher(), sign_type}, context{&context} {
 
     }
 
-- 
2.43.0


From 6864ee249349be2693a59ee14bfa3663c9819c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 04/52] fix: Polynomial::is_conjugate compares terms of symbols
 that are neither Hermitian nor anti-Hermitian

---
 cpp/lib_moment/symbolic/polynomial.cpp | 42 +++-----------------------
 1 file changed, 4 insertions(+), 38 deletions(-)

diff --git a/cpp/lib_moment/symbolic/polynomial.cpp b/cpp/lib_moment/symbolic/polynomial.cpp
index a4191f2..2b83e17 100644
--- a/cpp/lib_moment/symbolic/polynomial.cpp
+++ b/cpp/lib_moment/symbolic/polynomial.cpp
@@ -368,45 +368,11 @@ namespace Moment {
         if (this->data.size() != other.data.size()) {
             return false;
         }
-        for (size_t index = 0, iMax = this->data.size(); index < iMax; ++index) {
-            const auto& lhs_elem = this->data[index];
-            const auto& rhs_elem = other.data[index];
 
-            if (lhs_elem.id != rhs_elem.id) {
-                return false;
-            }
-            assert(lhs_elem.id < symbols.size());
-            const auto& symbolInfo = symbols[lhs_elem.id];
-
-            // Zero is zero.
-            if (lhs_elem.id == 0) {
-                continue;
-            }
-            // Nothing else is zero.
-            assert(!(symbolInfo.is_antihermitian() && symbolInfo.is_hermitian()));
-
-            if (symbolInfo.is_hermitian()) {
-                if (!approximately_equal(lhs_elem.factor, std::conj(rhs_elem.factor))) {
-                    return false;
-                }
-                // no need to compare conjugation, symbol is real.
-            } else if (symbolInfo.is_antihermitian()) {
-                // Symbol is purely imaginary; so either A = -A, or A = A*.
-                if (lhs_elem.factor == std::conj(rhs_elem.factor)) {
-                    if (lhs_elem.conjugated == rhs_elem.conjugated) {
-                        return false;
-                    }
-                } else if (lhs_elem.factor == -std::conj(rhs_elem.factor)) {
-                    if (lhs_elem.conjugated != rhs_elem.conjugated) {
-                        return false;
-                    }
-                } else {
-                    return false;
-                }
-            }
-        }
-
-        return true;
+        // Compare in form where no Hermitian or anti-Hermitian symbol is flagged as conjugated
+        Polynomial conjugated = this->conjugate(symbols);
+        conjugated.fix_cc_in_place(symbols);
+        return conjugated.approximately_equals(other.fix_cc(symbols));
     }
 
     Polynomial Polynomial::Real(const PolynomialFactory &factory) const {
-- 
2.43.0


From ab1e2d3a80d1230a91d55451dbc98c65e0feccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 05/52] fix: ByHashPolynomialFactory::maximum_degree advances
 past symbols without operator sequence

---
 cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp b/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
index de4df98..0b3a76d 100644
--- a/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
+++ b/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
@@ -48,6 +48,7 @@ namespace Moment {
             if (symbol.has_sequence()) {
                 return symbol.sequence().size();
             }
+            ++rev_iter;
         }
 
         // Nothing found; 0 degree
-- 
2.43.0


From 784d514cb3408a940fc20fcec85bd6489e2c9577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 06/52] fix: sums of polynomials and monomials do not keep zero
 terms

---
 cpp/lib_moment/symbolic/polynomial_factory.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cpp/lib_moment/symbolic/polynomial_factory.cpp b/cpp/lib_moment/symbolic/polynomial_factory.cpp
index 1dd0772..ca8aedc 100644
--- a/cpp/lib_moment/symbolic/polynomial_factory.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_factory.cpp
@@ -104,6 +104,16 @@ namespace Moment {
             }
         }
 
+        // Terms equal to zero do not contribute
+        const bool lhs_zero = (lhs.id == 0) || approximately_zero(lhs.factor, this->zero_tolerance);
+        const bool rhs_zero = (rhs.id == 0) || approximately_zero(rhs.factor, this->zero_tolerance);
+        if (lhs_zero || rhs_zero) {
+            if (lhs_zero && rhs_zero) {
+                return Polynomial::Zero();
+            }
+            return Polynomial{lhs_zero ? rhs : lhs};
+        }
+
         // Otherwise, construct as two element sum:
         if (this->less(lhs, rhs)) {
             return Polynomial{Polynomial::init_raw_tag{}, Polynomial::storage_t{lhs, rhs}};
@@ -113,6 +123,11 @@ namespace Moment {
     }
 
     Polynomial PolynomialFactory::sum(const Polynomial& lhs, const Monomial& rhs) const {
+        // Zero does not contribute
+        if ((rhs.id == 0) || approximately_zero(rhs.factor, this->zero_tolerance)) {
+            return lhs;
+        }
+
         Polynomial output;
         output.data.reserve(lhs.size()+1);
 
-- 
2.43.0


From 018b14f8ab226fd92afb48d21f0c2b17b2d64a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 07/52] fix: dictionary words equal to minus their conjugate
 are registered as anti-Hermitian

---
 cpp/lib_moment/symbolic/symbol_table.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/symbol_table.cpp b/cpp/lib_moment/symbolic/symbol_table.cpp
index 7e87051..b507620 100644
--- a/cpp/lib_moment/symbolic/symbol_table.cpp
+++ b/cpp/lib_moment/symbolic/symbol_table.cpp
@@ -325,8 +325,9 @@ namespace Moment {
             const size_t conj_hash = conj_seq.hash();
 
             if (seq_hash == conj_hash) {
+                // Word equals its conjugate up to a sign, so could be Hermitian or anti-Hermitian
                 build_unique.emplace_hint(build_unique.end(),
-                                          std::make_pair(seq_hash, Symbol{op_seq}));
+                                          std::make_pair(seq_hash, Symbol{op_seq, std::move(conj_seq)}));
             } else if (seq_hash < conj_hash) {
                 build_unique.emplace_hint(build_unique.end(),
                                           std::make_pair(seq_hash, Symbol{op_seq, std::move(conj_seq)}));
-- 
2.43.0


From f3ba51dde58355f1342e82566de5e9e7d8a60704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 08/52] fix: refuse the observable just past the last one when
 splitting outcome numbers

---
 cpp/lib_moment/scenarios/inflation/inflation_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index 72a0bf8..f697b47 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -474,7 +474,7 @@ namespace Moment::Inflation {
         output.reserve(input.size());
         size_t index = 0;
         for (const auto& ov : input) {
-            if (ov.observable > this->inflated_observables.size()) {
+            if (ov.observable >= this->inflated_observables.size()) {
                 std::stringstream errSS;
                 errSS << "Observable \"" << ov.observable << "\" at index " << index << " out of range.";
                 throw errors::bad_observable{index, errSS.str()};
-- 
2.43.0


From ef586811a30892b471f6ae98e3f3f22518eccbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:11 +0000
Subject: [PATCH 09/52] fix: dictionary index marks words as conjugated only
 when they are

---
 cpp/lib_moment/dictionary/dictionary_map.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp/lib_moment/dictionary/dictionary_map.cpp b/cpp/lib_moment/dictionary/dictionary_map.cpp
index ed282a7..7d6f06a 100644
--- a/cpp/lib_moment/dictionary/dictionary_map.cpp
+++ b/cpp/lib_moment/dictionary/dictionary_map.cpp
@@ -44,8 +44,7 @@ namespace Moment {
             const auto& seq = *iter;
             const auto datum = symbols.where(seq);
             assert(datum.found());
-            const bool isConjugated = (seq != datum->sequence());
-            this->symbol_map.emplace_back((isConjugated ? -1 : 1) * datum->Id());
+            this->symbol_map.emplace_back((datum.is_conjugated ? -1 : 1) * datum->Id());
         }
 
         assert(this->symbol_map.size() == promised_osg.size());
-- 
2.43.0


From 02f304d9f7a5b767def522ab62e696e6e5127771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:23 +0000
Subject: [PATCH 10/52] fix: multiplying a matrix by a monomial uses the
 monomial's own operator sequence, not its conjugate

---
 cpp/lib_moment/matrix/symbolic_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/matrix/symbolic_matrix.cpp b/cpp/lib_moment/matrix/symbolic_matrix.cpp
index 320de12..ca75e00 100644
--- a/cpp/lib_moment/matrix/symbolic_matrix.cpp
+++ b/cpp/lib_moment/matrix/symbolic_matrix.cpp
@@ -156,8 +156,8 @@ namespace Moment {
             // Resolve monomial into operator sequence using symbol table
             assert(mono.id >= 0 && mono.id < symbol_registry.size());
             assert(symbol_registry[mono.id].has_sequence());
-            const auto &op_sequence = mono.conjugated ? symbol_registry[mono.id].sequence()
-                                                      : symbol_registry[mono.id].sequence_conj();
+            const auto &op_sequence = mono.conjugated ? symbol_registry[mono.id].sequence_conj()
+                                                      : symbol_registry[mono.id].sequence();
 
             // Invoke operator sequence multiplication
             if constexpr (premultiply) {
-- 
2.43.0


From cc8d381a8be89674b8d60fba351971e1749d02fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:23 +0000
Subject: [PATCH 11/52] fix: matrix scaled by a complex factor is not marked as
 Hermitian

---
 cpp/lib_moment/matrix/monomial_matrix.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp/lib_moment/matrix/monomial_matrix.cpp b/cpp/lib_moment/matrix/monomial_matrix.cpp
index 9bd2d78..4364152 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix.cpp
@@ -18,6 +18,7 @@
 
 #include "utilities/float_utils.h"
 
+#include <algorithm>
 #include <stdexcept>
 
 
@@ -67,6 +68,12 @@ namespace Moment {
         } else if (this->unaliased_op_mat) { // Otherwise, properties from unaliased matrix
             this->unaliased_op_mat->set_properties(*this);
         }
+
+        // A Hermitian operator matrix scaled by a complex factor is not a Hermitian matrix (unless it is zero)
+        if (this->hermitian && !approximately_real(prefactor)) {
+            this->hermitian = std::all_of(this->sym_exp_matrix->begin(), this->sym_exp_matrix->end(),
+                                          [](const Monomial& elem) { return elem.id == 0; });
+        }
     }
 
     MonomialMatrix::~MonomialMatrix() noexcept = default;
-- 
2.43.0


From 7bf165d17745836dbb246a990d351e0bfd446b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:23 +0000
Subject: [PATCH 12/52] fix: conjugation in contexts with non-Hermitian
 operators keeps the sign of the operator sequence

---
 cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
index 522f266..742c8b3 100644
--- a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
@@ -159,7 +159,7 @@ namespace Moment::Algebraic {
             return OperatorSequence::Zero(*this);
         }
 
-        return OperatorSequence{this->precontext.conjugate(seq.raw()), *this};
+        return OperatorSequence{this->precontext.conjugate(seq.raw()), *this, Moment::conjugate(seq.get_sign())};
     }
 
 
-- 
2.43.0


From da57a03064a97673acf8182686a1f708963988d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:07 +0000
Subject: [PATCH 13/52] fix: matrices without operator matrix can be cloned

---
 cpp/lib_moment/matrix/monomial_matrix.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix.cpp b/cpp/lib_moment/matrix/monomial_matrix.cpp
index 4364152..fd2efcd 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix.cpp
@@ -174,12 +174,19 @@ namespace Moment {
         auto cloned_symbol_matrix =  std::make_unique<SquareMatrix<Monomial>>(this->dimension,
                                                                               std::move(cloned_symbol_data));
 
+        // Without operator matrix, only symbols can be copied
+        if (!this->has_unaliased_operator_matrix()) {
+            auto symbols_only = std::make_unique<MonomialMatrix>(this->context, this->symbol_table, 1.0,
+                                                                 std::move(cloned_symbol_matrix),
+                                                                 this->hermitian, this->global_prefactor);
+            this->copy_properties_onto_clone(*symbols_only);
+            return symbols_only;
+        }
+
         // Make copy of the matrix
         std::unique_ptr<MonomialMatrix> copied_matrix =
                 std::make_unique<MonomialMatrix>(symbol_table,
-                                                this->has_unaliased_operator_matrix()
-                                                    ? this->unaliased_operator_matrix().clone(policy)
-                                                    : nullptr,
+                                                this->unaliased_operator_matrix().clone(policy),
                                                 context.can_have_aliases() && this->has_aliased_operator_matrix()
                                                      ? this->aliased_operator_matrix().clone(policy)
                                                      : nullptr,
-- 
2.43.0


From a4dd22eb265249fec5e271da2e6aa6a476caffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:41 +0000
Subject: [PATCH 14/52] fix: a word list generated meanwhile by another thread
 is found by the renewed lookup

---
 cpp/lib_moment/dictionary/dictionary.cpp            | 4 ++--
 cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/dictionary/dictionary.cpp b/cpp/lib_moment/dictionary/dictionary.cpp
index fae13fe..f56c76b 100644
--- a/cpp/lib_moment/dictionary/dictionary.cpp
+++ b/cpp/lib_moment/dictionary/dictionary.cpp
@@ -51,8 +51,8 @@ namespace Moment {
         std::atomic_thread_fence(std::memory_order_acquire);
         auto reattempt_offset_iter = this->npa_level_to_offset.find(npa_level);
         if (reattempt_offset_iter != this->npa_level_to_offset.cend()) {
-            const ptrdiff_t offset = offset_iter->second;
-            assert(offset >= this->osgs.size());
+            const ptrdiff_t offset = reattempt_offset_iter->second;
+            assert(offset < this->osgs.size());
             return this->osgs[offset]; // Discard pointless creation...!
         }
 
diff --git a/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp b/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp
index d1d4872..dbe0f6b 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp
@@ -41,7 +41,7 @@ namespace Moment::Pauli {
         auto recheck_key = this->nn_indices.find(index);
         if (recheck_key != this->nn_indices.cend()) {
             // We were beaten in a race to create OSG, so discard work and return existing OSG.
-            const auto osg_offset = find_key->second;
+            const auto osg_offset = recheck_key->second;
             assert(osg_offset < this->osgs.size());
             return this->osgs[osg_offset]; // ~write_lock, ~new_osg
         }
-- 
2.43.0


From 6f7af1aa8a2c884dc0704d0a4b6c74da238ca91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:41 +0000
Subject: [PATCH 15/52] fix: word lists already handed out stay valid when
 further lists are generated

---
 cpp/lib_moment/dictionary/dictionary.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/dictionary/dictionary.h b/cpp/lib_moment/dictionary/dictionary.h
index 5af507d..d5fdd0f 100644
--- a/cpp/lib_moment/dictionary/dictionary.h
+++ b/cpp/lib_moment/dictionary/dictionary.h
@@ -14,6 +14,7 @@
 #include "multithreading/maintains_mutex.h"
 
 #include <atomic>
+#include <deque>
 #include <map>
 #include <vector>
 
@@ -28,8 +29,8 @@ namespace Moment {
      */
     class Dictionary : protected MaintainsMutex {
     protected:
-        /** List of operator sequences */
-        mutable std::vector<OSGPair> osgs;
+        /** List of operator sequences (references to elements remain valid when further lists are generated). */
+        mutable std::deque<OSGPair> osgs;
 
         /** Key, linking NPA hierarchy level (e.g. moment matrix level) to generator offset */
         mutable std::map<size_t, size_t> npa_level_to_offset;
-- 
2.43.0


From 6303731f797746ee24d0f2cac711fbf6fd9b9254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:48 +0000
Subject: [PATCH 16/52] fix: an operator sequence equal to itself up to a
 factor is zero, and zero has no sign in rules

---
 .../scenarios/algebraic/operator_rule.cpp      | 14 +++++++++++---
 .../scenarios/algebraic/operator_rulebook.cpp  | 18 ++----------------
 2 files changed, 13 insertions(+), 19 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
index cd31409..6a4630c 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
@@ -73,12 +73,20 @@ namespace Moment::Algebraic {
               map_to_zero(rhs.zero()),
               delta{static_cast<ptrdiff_t>(rawRHS.size()) - static_cast<ptrdiff_t>(rawLHS.size())} {
 
-        // Move negation to RHS
-        this->rawRHS.set_sign(difference(this->rawLHS.get_sign(), this->rawRHS.get_sign()));
+        // Move negation to RHS (zero has no sign)
+        this->rawRHS.set_sign(this->map_to_zero ? SequenceSignType::Positive
+                                                : difference(this->rawLHS.get_sign(), this->rawRHS.get_sign()));
         this->rawLHS.set_sign(SequenceSignType::Positive);
 
+        // If a sequence equals itself up to a non-trivial factor, then the sequence is zero
+        if ((this->rawLHS.hash() == this->rawRHS.hash()) && (this->rawRHS.get_sign() != SequenceSignType::Positive)) {
+            this->rawRHS = HashedSequence{true};
+            this->map_to_zero = true;
+            this->delta = -static_cast<ptrdiff_t>(this->rawLHS.size());
+        }
+
         // Determine if rule is trivial
-        this->is_trivial = (this->rawLHS.hash() == this->rawRHS.hash()) && !this->rawRHS.negated();
+        this->is_trivial = (this->rawLHS.hash() == this->rawRHS.hash());
 
         // Check rule is a reduction
         if (rawLHS.hash() < rawRHS.hash()) {
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 52f50f8..76f7140 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -374,24 +374,10 @@ namespace Moment::Algebraic {
         auto lhs = this->reduce(input.rawLHS);
         auto rhs = this->reduce(input.rawRHS);
 
-        const SequenceSignType relative_sign = difference(lhs.get_sign(), rhs.get_sign());
-
-        // Special reduction if rule implies something is zero:
-        if ((lhs.hash() == rhs.hash()) && (relative_sign == SequenceSignType::Negative)) {
-            lhs.set_sign(SequenceSignType::Positive);
-            return OperatorRule{std::move(lhs), HashedSequence(true)};
-        }
-
-        // Otherwise, orient and return
-        const auto lhs_hash = lhs.hash();
-        const auto rhs_hash = rhs.hash();
-        if (lhs_hash > rhs_hash) {
-            lhs.set_sign(SequenceSignType::Positive);
-            rhs.set_sign(relative_sign);
+        // Orient and return (rule constructor takes care of signs, including if rule implies something is zero)
+        if (lhs.hash() > rhs.hash()) {
             return OperatorRule{std::move(lhs), std::move(rhs)};
         } else {
-            rhs.set_sign(SequenceSignType::Positive);
-            lhs.set_sign(conjugate(relative_sign));
             return OperatorRule{std::move(rhs), std::move(lhs)};
         }
     }
-- 
2.43.0


From 500e1b6b7a289b272462b933ae19bcc1cb891bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:48 +0000
Subject: [PATCH 17/52] fix: reducing keeps the sign of the identity, and zero
 has no sign

---
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 76f7140..f137d8d 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -192,7 +192,7 @@ namespace Moment::Algebraic {
     HashedSequence OperatorRulebook::reduce(const HashedSequence& input) const {
         // Empty string, or empty rulebook, should just be forwarded
         if (input.empty()) {
-            return HashedSequence{input.zero()};
+            return input;
         } else if (this->monomialRules.empty()) {
             return input;
         }
@@ -243,6 +243,7 @@ namespace Moment::Algebraic {
             case RawReductionResult::SetToZero:
                 input.raw().clear();
                 input.rehash(0);
+                input.set_sign(SequenceSignType::Positive);
                 break;
         }
         return result;
@@ -296,6 +297,7 @@ namespace Moment::Algebraic {
                 if (auto found_rule = this->monomialRules.find(*iter); found_rule != this->monomialRules.end()) {
                     // Reduced to zero?
                     if (found_rule->second.rawRHS.zero()) {
+                        sign_type = SequenceSignType::Positive;
                         return RawReductionResult::SetToZero;
                     }
 
-- 
2.43.0


From 89f5fa586ef533e998126717f420925539c35961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:48 +0000
Subject: [PATCH 18/52] fix: the first rule is not skipped when conjugating a
 rule set again

---
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index f137d8d..71ff95b 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -568,6 +568,7 @@ namespace Moment::Algebraic {
                 // A new rule was added, iter is de facto invalidated, so restart at beginning of set...
                 rule_iter = this->rules().begin();
                 ++added;
+                continue;
             }
             // No new rule, try next rule in set...
             ++rule_iter;
-- 
2.43.0


From 063cddf9445160f242a883d71be008ba57f13c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:17 +0000
Subject: [PATCH 19/52] fix: completeness considers every overlap of rules,
 including self-overlap and containment

---
 .../scenarios/algebraic/operator_rule.cpp     | 29 +++++--
 .../scenarios/algebraic/operator_rule.h       |  8 ++
 .../scenarios/algebraic/operator_rulebook.cpp | 82 +++++++++----------
 3 files changed, 68 insertions(+), 51 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
index 6a4630c..99a0442 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
@@ -171,13 +171,27 @@ namespace Moment::Algebraic {
             return std::nullopt;
         }
 
-        // Next, make merged string from both rules' LHS
+        // Then, combine at this overlap
+        return this->combine_at(other, this->rawLHS.size() - static_cast<size_t>(overlap_size), pc);
+    }
+
+    std::optional<OperatorRule>
+    OperatorRule::combine_at(const OperatorRule &other, const size_t offset, const AlgebraicPrecontext& pc) const {
+        // Do sequences agree, where they overlap?
+        if (other.rawLHS.empty() || (offset >= this->rawLHS.size())) {
+            return std::nullopt;
+        }
+        const size_t overlap_size = std::min(this->rawLHS.size() - offset, other.rawLHS.size());
+        if (!std::equal(other.rawLHS.begin(), other.rawLHS.begin() + static_cast<ptrdiff_t>(overlap_size),
+                        this->rawLHS.begin() + static_cast<ptrdiff_t>(offset))) {
+            return std::nullopt;
+        }
+
+        // Make merged string from both rules' LHS
         sequence_storage_t joined_string;
-        joined_string.reserve(static_cast<ptrdiff_t>(this->rawLHS.size() + other.rawLHS.size())
-                              - overlap_size);
-        std::copy(this->rawLHS.begin(), this->rawLHS.end() - static_cast<ptrdiff_t>(overlap_size),
-                  std::back_inserter(joined_string));
-        std::copy(other.rawLHS.begin(), other.rawLHS.end(),
+        joined_string.reserve(this->rawLHS.size() + other.rawLHS.size() - overlap_size);
+        std::copy(this->rawLHS.begin(), this->rawLHS.end(), std::back_inserter(joined_string));
+        std::copy(other.rawLHS.begin() + static_cast<ptrdiff_t>(overlap_size), other.rawLHS.end(),
                   std::back_inserter(joined_string));
 
         // Apply this rule to joint string
@@ -186,8 +200,7 @@ namespace Moment::Algebraic {
 
         // Apply other rule to joint string
         auto rawViaOther = other.apply_match_with_hint(joined_string,
-                                                       joined_string.cend()
-                                                        - static_cast<ptrdiff_t>(other.rawLHS.size()));
+                                                       joined_string.cbegin() + static_cast<ptrdiff_t>(offset));
         auto rawHashOther = other.implies_zero() ? 0 : pc.hash(rawViaOther);
 
         // Negative if only one rule involves negation (and we are not setting to zero).
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.h b/cpp/lib_moment/scenarios/algebraic/operator_rule.h
index 740b8b2..891e151 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.h
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.h
@@ -78,6 +78,14 @@ namespace Moment::Algebraic {
         [[nodiscard]] std::optional<OperatorRule> combine(const OperatorRule& other,
                                                           const AlgebraicPrecontext& precontext) const;
 
+        /**
+         * Attempt to combine rule with another, whose left-hand side begins at a given offset within (or inside) the
+         * left-hand side of this rule.
+         * @return Rule implied by the two ways of reducing the joint sequence, or nullopt if the rules do not overlap there.
+         */
+        [[nodiscard]] std::optional<OperatorRule> combine_at(const OperatorRule& other, size_t offset,
+                                                             const AlgebraicPrecontext& precontext) const;
+
         /**
          * True, if this rule directly implies the supplied other rule.
          */
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 71ff95b..1354dde 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -465,26 +465,24 @@ namespace Moment::Algebraic {
             auto &ruleA = iterA->second;
             for (auto iterB = this->monomialRules.begin(); iterB != this->monomialRules.end(); ++iterB) {
                 auto &ruleB = iterB->second;
-                // Don't compare to self
-                if (iterB == iterA) {
-                    continue;
-                }
-
-                // Can we form a rule by combining?
-                auto maybe_combined_rule = ruleA.combine(ruleB, this->precontext);
-                if (!maybe_combined_rule.has_value()) {
-                    continue;
-                }
+                // Consider every overlap (skipping only the complete overlap of a rule with itself)
+                for (size_t offset = (iterB == iterA) ? 1 : 0; offset < ruleA.LHS().size(); ++offset) {
+                    // Can we form a rule by combining?
+                    auto maybe_combined_rule = ruleA.combine_at(ruleB, offset, this->precontext);
+                    if (!maybe_combined_rule.has_value()) {
+                        continue;
+                    }
 
-                // Reduce new rule
-                auto combined_reduced_rule = this->reduce(maybe_combined_rule.value());
+                    // Reduce new rule
+                    auto combined_reduced_rule = this->reduce(maybe_combined_rule.value());
 
-                // Is the new rule trivial?
-                if (combined_reduced_rule.trivial()) {
-                    continue;
+                    // Is the new rule trivial?
+                    if (combined_reduced_rule.trivial()) {
+                        continue;
+                    }
+                    // Not complete: a non-trivial rule was found
+                    return false;
                 }
-                // Not complete: a non-trivial rule was found
-                return false;
             }
         }
         // Complete: no non-trivial rules were found.
@@ -501,37 +499,35 @@ namespace Moment::Algebraic {
             auto& ruleA = iterA->second;
             for (auto iterB = this->monomialRules.begin(); iterB != this->monomialRules.end(); ++iterB) {
                 auto& ruleB = iterB->second;
-                // Don't compare to self
-                if (iterB == iterA) {
-                    continue;
-                }
-
-                // Can we form a rule by combining?
-                auto maybe_combined_rule = ruleA.combine(ruleB, this->precontext);
-                if (!maybe_combined_rule.has_value()) {
-                    continue;
-                }
+                // Consider every overlap (skipping only the complete overlap of a rule with itself)
+                for (size_t offset = (iterB == iterA) ? 1 : 0; offset < ruleA.LHS().size(); ++offset) {
+                    // Can we form a rule by combining?
+                    auto maybe_combined_rule = ruleA.combine_at(ruleB, offset, this->precontext);
+                    if (!maybe_combined_rule.has_value()) {
+                        continue;
+                    }
 
-                // Reduce new rule
-                auto combined_reduced_rule = this->reduce(maybe_combined_rule.value());
+                    // Reduce new rule
+                    auto combined_reduced_rule = this->reduce(maybe_combined_rule.value());
 
-                // Is the new rule trivial?
-                if (combined_reduced_rule.trivial()) {
-                    continue;
-                }
+                    // Is the new rule trivial?
+                    if (combined_reduced_rule.trivial()) {
+                        continue;
+                    }
 
-                // Non-trivial, add it to rule set
-                if (logger) {
-                    logger->rule_introduced(ruleA, ruleB, combined_reduced_rule);
-                }
-                size_t rule_hash = combined_reduced_rule.LHS().hash();
-                this->monomialRules.insert(std::make_pair(rule_hash, std::move(combined_reduced_rule)));
+                    // Non-trivial, add it to rule set
+                    if (logger) {
+                        logger->rule_introduced(ruleA, ruleB, combined_reduced_rule);
+                    }
+                    size_t rule_hash = combined_reduced_rule.LHS().hash();
+                    this->monomialRules.insert(std::make_pair(rule_hash, std::move(combined_reduced_rule)));
 
-                // Reduce ruleset
-                this->reduce_ruleset(logger);
+                    // Reduce ruleset
+                    this->reduce_ruleset(logger);
 
-                // Signal a rule was added
-                return true;
+                    // Signal a rule was added
+                    return true;
+                }
             }
         }
 
-- 
2.43.0


From 4ab635129a211d16e68a75ff8812eb83d18623ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:33 +0000
Subject: [PATCH 20/52] fix: rotate short qubit chains modulo their own length

SiteHasherSized<1>::cyclic_shift reduced the offset modulo 32 rather than
modulo the number of qubits, so offsets at or past the length of the chain
shifted by negative bit counts.
---
 cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
index 5231d2f..f4ba2e2 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
@@ -398,7 +398,7 @@ namespace Moment::Pauli {
          * Bit rotation for chain
          */
         [[nodiscard]] Datum cyclic_shift(const Datum input, size_t offset) const noexcept {
-            offset = 2 * (offset % qubits_per_slide);
+            offset = 2 * (offset % this->qubits);
             if (0 == offset) {
                 return input;
             }
-- 
2.43.0


From 84d4fb574f73a30e725a01c31b20db8a194b151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:33 +0000
Subject: [PATCH 21/52] fix: rotate columns of large lattices modulo the column
 height

The general SiteHasherSized::row_cyclic_shift reduced the row offset modulo
the number of columns, so most vertical translations of lattices with more
than 64 qubits were wrong.
---
 cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
index f4ba2e2..2c1b6ae 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
@@ -240,7 +240,7 @@ namespace Moment::Pauli {
         [[nodiscard]] Datum row_cyclic_shift(const Datum& input, size_t offset) const noexcept {
 
             // Normalize rotation, and get within-column offsets
-            offset = offset % this->row_width;
+            offset = offset % this->column_height;
             const storage_t bit_offset = 2ULL * offset;
             const storage_t bit_anti_offset = (this->column_height * 2ULL) - bit_offset;
 
-- 
2.43.0


From 82c3c3622c146f8f66beb25e517af981429cd35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:33 +0000
Subject: [PATCH 22/52] fix: handle wrapped lattices with columns of more than
 32 qubits

The site hasher rotates columns that fit in one 64-bit slide. Rotate a
single column as a chain, and refuse taller columns in wider lattices,
rather than translating operators to wrong sites.
---
 .../scenarios/pauli/symmetry/moment_simplifier.cpp         | 7 +++++++
 cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h      | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier.cpp b/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier.cpp
index 46164fe..73df0c2 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier.cpp
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier.cpp
@@ -36,6 +36,13 @@ namespace Moment::Pauli {
                 "Wrapping translational symmetry currently only supported for up to 256 qubits."};
         }
 
+        // Columns are rotated one at a time, so (except for a single column) each must fit in one slide
+        if (context.is_lattice() && (context.row_width > 1)
+            && (context.col_height > SiteHasherImplBase::qubits_per_slide)) {
+            throw errors::bad_pauli_context{
+                "Wrapping translational symmetry currently only supported for columns of up to 32 qubits."};
+        }
+
         // Calculate how many data slides are needed for the wrapping simplifier
         size_t slides = context.qubit_size / SiteHasherImplBase::qubits_per_slide;
         size_t remainder = context.qubit_size % SiteHasherImplBase::qubits_per_slide;
diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
index 2c1b6ae..7f90b7c 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
@@ -732,6 +732,10 @@ namespace Moment::Pauli {
          */
         [[nodiscard]] inline Datum
         lattice_shift(const Datum& input, const size_t row_offset, const size_t col_offset) const noexcept {
+            // A single column may exceed one slide, but can be rotated as a chain.
+            if (this->row_width == 1) {
+                return SiteHasherSized<num_slides>::cyclic_shift(input, row_offset);
+            }
             return SiteHasherSized<num_slides>::row_cyclic_shift(col_shift(input, col_offset), row_offset);
         }
 
-- 
2.43.0


From af30d8dfaee86a59edd79257b0232edd2aea2ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:33 +0000
Subject: [PATCH 23/52] fix: wrap negative translations around the lattice

A negative offset was taken modulo an unsigned size, and subtracted rather
than added, so the operator moved to the wrong sites.
---
 .../pauli/symmetry/moment_simplifier_wrapping.h   | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h b/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h
index 764e85d..c9f0a25 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h
@@ -68,9 +68,10 @@ namespace Moment::Pauli {
         [[nodiscard]] sequence_storage_t chain_offset(const std::span<const oper_name_t> input,
                                                       ptrdiff_t offset) const final {
             // Translate offsets to positive range:
-            offset = offset % this->context.qubit_size;
+            const auto qubits = static_cast<ptrdiff_t>(this->site_hasher.qubits);
+            offset = offset % qubits;
             if (offset < 0) {
-                offset = this->site_hasher.qubits - offset;
+                offset += qubits;
             }
 
             // Via hash, shift:
@@ -84,14 +85,16 @@ namespace Moment::Pauli {
                                           ptrdiff_t row_offset,
                                           ptrdiff_t col_offset) const final {
             // Translate offsets to positive range:
-            row_offset = row_offset % this->context.qubit_size;
+            const auto rows = static_cast<ptrdiff_t>(this->site_hasher.column_height);
+            row_offset = row_offset % rows;
             if (row_offset < 0) {
-                row_offset = this->site_hasher.qubits - row_offset;
+                row_offset += rows;
             }
 
-            col_offset = col_offset % this->context.qubit_size;
+            const auto columns = static_cast<ptrdiff_t>(this->site_hasher.row_width);
+            col_offset = col_offset % columns;
             if (col_offset < 0) {
-                col_offset = this->site_hasher.qubits - col_offset;
+                col_offset += columns;
             }
 
             // Via hash, shift:
-- 
2.43.0


From 8bf18e1b03de8cf3b4874fba9fdcdcbdedf7be79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:33 +0000
Subject: [PATCH 24/52] fix: duplicate patterns over every row of a wrapped
 lattice

The rows were counted by the width of the lattice, and the alias tests
compared rows with the width and columns with the height.
---
 .../scenarios/pauli/symmetry/lattice_duplicator.cpp         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
index 5affa3e..391cf9d 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
@@ -97,7 +97,7 @@ namespace Moment::Pauli {
 
             // Lattice
             for (size_t col = 0; col < hasher.row_width; ++col) {
-                for (size_t row = (col != 0) ? 0 : 1; row < hasher.row_width; ++row) {
+                for (size_t row = (col != 0) ? 0 : 1; row < hasher.column_height; ++row) {
                     for (const auto& base_hash : base_hashes) {
                         output.emplace_back(OperatorSequence::ConstructPresortedFlag{},
                                             hasher.unhash(hasher.lattice_shift(base_hash, row, col)),
@@ -145,8 +145,8 @@ namespace Moment::Pauli {
             // Reason from indices if aliasing is completely impossible
             MomentSimplifierNoWrappingLattice nowrap{duplicator.context};
             auto [max_row, max_col] = nowrap.lattice_supremum(lattice_indices);
-            const bool no_horz_alias = (max_row <= hasher.row_width/2);
-            const bool no_vert_alias = (max_col <= hasher.column_height/2);
+            const bool no_horz_alias = (max_col <= hasher.row_width/2);
+            const bool no_vert_alias = (max_row <= hasher.column_height/2);
             if (no_horz_alias && no_vert_alias) {
                 return do_unaliased_lattice_symmetric_fill(duplicator, output, hasher, lattice_indices);
             }
-- 
2.43.0


From ba82c40b6880a031609ce489c0cefe1f089e372d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:33 +0000
Subject: [PATCH 25/52] fix: list every corner among the nearest neighbours of
 a lattice

Two of the four corners of a square block were the same triplet, so it was
listed twice, and the remaining one was missing.
---
 cpp/lib_moment/scenarios/pauli/pauli_osg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
index d207cfd..f3b87aa 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
@@ -205,7 +205,7 @@ namespace Moment::Pauli {
                 // Bottom left corner
                 ld.symmetrical_fill(std::array<size_t, 3>{0, 1, context.col_height+1}, false);
                 // Bottom right corner
-                ld.symmetrical_fill(std::array<size_t, 3>{0, context.col_height, context.col_height+1}, false);
+                ld.symmetrical_fill(std::array<size_t, 3>{1, context.col_height, context.col_height+1}, false);
             }
 
             return sequences.size() - initial_count;
-- 
2.43.0


From bd9562e11e20a374af6d3699574e0e84bc66fd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 26/52] fix: list each sequence of wrapped nearest neighbours
 once

On small or far-reaching wrapped lattices several starting sites produce the
same operator sequences, which were all listed, giving generators (and
moment matrices) with repeated entries.
---
 cpp/lib_moment/scenarios/pauli/pauli_osg.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
index f3b87aa..13e8016 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
@@ -12,6 +12,8 @@
 #include "utilities/combinations.h"
 #include "dictionary/multi_operator_iterator.h"
 
+#include <set>
+
 namespace Moment::Pauli {
     namespace {
         /**
@@ -386,6 +388,14 @@ namespace Moment::Pauli {
                                                word_length, this->nearest_neighbour_index.neighbours);
             }
         }
+
+        // Small wrapped lattices can reach the same sites in several ways; keep each sequence once.
+        if (wrap) {
+            std::set<hash_t> known;
+            std::erase_if(this->unique_sequences, [&known](const OperatorSequence& seq) {
+                return !known.emplace(seq.hash()).second;
+            });
+        }
     }
 
 
-- 
2.43.0


From 6d2f0d852727d5f5cc9aad77643c87b23b7ff019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:50 +0000
Subject: [PATCH 27/52] fix: refuse a measurement number one past the last

The bounds checks of the Collins-Gisin and probability tensors admitted an
index equal to the number of measurements, and read past the end.
---
 cpp/lib_moment/probability/collins_gisin.cpp              | 4 ++--
 .../scenarios/inflation/inflation_collins_gisin.cpp       | 6 +++---
 .../scenarios/inflation/inflation_probability_tensor.cpp  | 8 ++++----
 .../scenarios/locality/locality_collins_gisin.cpp         | 6 +++---
 .../scenarios/locality/locality_probability_tensor.cpp    | 8 ++++----
 5 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/cpp/lib_moment/probability/collins_gisin.cpp b/cpp/lib_moment/probability/collins_gisin.cpp
index ea3e06d..835031e 100644
--- a/cpp/lib_moment/probability/collins_gisin.cpp
+++ b/cpp/lib_moment/probability/collins_gisin.cpp
@@ -169,7 +169,7 @@ namespace Moment {
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
 
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex > this->gmIndex.size()) {
+            if (mmtIndex >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex];
@@ -191,7 +191,7 @@ namespace Moment {
 
         for (size_t n = 0; n < mmtIndices.size(); ++n) {
 
-            if (mmtIndices[n] > this->gmIndex.size()) {
+            if (mmtIndices[n] >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndices[n]];
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
index af0f746..83e64c7 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
@@ -92,7 +92,7 @@ namespace Moment::Inflation {
 
         for (auto mmtIndex: mmtIndices) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
@@ -112,7 +112,7 @@ namespace Moment::Inflation {
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex: mmtIndices) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
@@ -125,7 +125,7 @@ namespace Moment::Inflation {
 
         for (auto mmtIndex: fixedOutcomes) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex.observable_variant);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp b/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
index 729fa5a..e5a3baf 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
@@ -48,7 +48,7 @@ namespace Moment::Inflation {
         for (const auto& mmtIndex : mmtIndices) {
 
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
 
@@ -69,7 +69,7 @@ namespace Moment::Inflation {
         ProbabilityTensorIndex upper_bounds(this->Dimensions.size(), 1);
         for (const auto& mmtIndex : freeMeasurements) {
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
             if (lower_bounds[global_index] != 0) {
@@ -81,7 +81,7 @@ namespace Moment::Inflation {
 
         for (const auto& mmtIndex : fixedOutcomes) {
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex.observable_variant);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
             if (lower_bounds[global_index] != 0) {
@@ -100,7 +100,7 @@ namespace Moment::Inflation {
         ProbabilityTensorIndex index(this->Dimensions.size(), 0);
         for (const auto& mmtIndex : fixedOutcomes) {
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex.observable_variant);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
             if (index[global_index] != 0) {
diff --git a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
index 79a1f20..6b361f2 100644
--- a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
@@ -69,7 +69,7 @@ namespace Moment::Locality {
         CollinsGisinIndex lower_bounds(this->Dimensions.size(), 0);
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
@@ -88,7 +88,7 @@ namespace Moment::Locality {
         CollinsGisinIndex lower_bounds(this->Dimensions.size(), 0);
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
@@ -100,7 +100,7 @@ namespace Moment::Locality {
         }
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
diff --git a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
index d43db38..e75aa85 100644
--- a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
@@ -52,7 +52,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex lower_bounds(this->Dimensions.size(), 0);
         ProbabilityTensorIndex  upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -73,7 +73,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex lower_bounds(this->Dimensions.size(), 0);
         ProbabilityTensorIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : freeMeasurements) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -85,7 +85,7 @@ namespace Moment::Locality {
         }
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -104,7 +104,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex index(this->Dimensions.size(), 0);
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
-- 
2.43.0


From 152dc12e46c496dd3a92336940c74e64127df1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:50 +0000
Subject: [PATCH 28/52] fix: refuse outcomes that a measurement does not have

Fixing an outcome beyond those of its measurement selected an operator of
the next measurement, or read past the end of the tensor.
---
 cpp/lib_moment/probability/collins_gisin.cpp                | 3 +++
 .../scenarios/inflation/inflation_collins_gisin.cpp         | 3 +++
 .../scenarios/inflation/inflation_probability_tensor.cpp    | 6 ++++++
 .../scenarios/locality/locality_collins_gisin.cpp           | 3 +++
 .../scenarios/locality/locality_probability_tensor.cpp      | 6 ++++++
 5 files changed, 21 insertions(+)

diff --git a/cpp/lib_moment/probability/collins_gisin.cpp b/cpp/lib_moment/probability/collins_gisin.cpp
index 835031e..8b63637 100644
--- a/cpp/lib_moment/probability/collins_gisin.cpp
+++ b/cpp/lib_moment/probability/collins_gisin.cpp
@@ -199,6 +199,9 @@ namespace Moment {
                 throw errors::BadCGError("Two measurements from same party cannot be specified.");
             }
             if (fixedOutcomes[n] >= 0) {
+                if (static_cast<size_t>(fixedOutcomes[n]) >= gmInfo.length) {
+                    throw errors::BadCGError("Measurement outcome index out of bounds.");
+                }
                 lower_bounds[gmInfo.party] = gmInfo.offset + fixedOutcomes[n];
                 upper_bounds[gmInfo.party] = gmInfo.offset + fixedOutcomes[n] + 1;
             } else {
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
index 83e64c7..8e21475 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
@@ -133,6 +133,9 @@ namespace Moment::Inflation {
                 throw Moment::errors::BadCGError("Two measurements from same party cannot be specified.");
             }
 
+            if ((mmtIndex.outcome < 0) || (static_cast<size_t>(mmtIndex.outcome) >= gmInfo.length)) {
+                throw Moment::errors::BadCGError("Measurement outcome index out of bounds.");
+            }
             lower_bounds[gmInfo.party] = gmInfo.offset + mmtIndex.outcome;
             upper_bounds[gmInfo.party] = gmInfo.offset + mmtIndex.outcome + 1;
         }
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp b/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
index e5a3baf..1439740 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
@@ -88,6 +88,9 @@ namespace Moment::Inflation {
                 throw Moment::errors::BadPTError("Two measurements of the same observable cannot be specified.");
             }
 
+            if ((mmtIndex.outcome < 0) || (1 + static_cast<size_t>(mmtIndex.outcome) >= this->Dimensions[global_index])) {
+                throw Moment::errors::BadPTError("Measurement outcome index out of bounds.");
+            }
             lower_bounds[global_index] = 1 + mmtIndex.outcome;
             upper_bounds[global_index] = 2 + mmtIndex.outcome;
         }
@@ -107,6 +110,9 @@ namespace Moment::Inflation {
                 throw Moment::errors::BadPTError("Two measurements of the same observable cannot be specified.");
             }
 
+            if ((mmtIndex.outcome < 0) || (1 + static_cast<size_t>(mmtIndex.outcome) >= this->Dimensions[global_index])) {
+                throw Moment::errors::BadPTError("Measurement outcome index out of bounds.");
+            }
             index[global_index] = 1 + mmtIndex.outcome;
         }
         return this->elem_no_checks(index);
diff --git a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
index 6b361f2..f8e0631 100644
--- a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
@@ -108,6 +108,9 @@ namespace Moment::Locality {
                 throw errors::BadCGError("Two measurements from same party cannot be specified.");
             }
 
+            if (mmtIndex.outcome >= gmInfo.length) {
+                throw errors::BadCGError("Measurement outcome index out of bounds.");
+            }
             lower_bounds[gmInfo.party] = gmInfo.offset + mmtIndex.outcome;
             upper_bounds[gmInfo.party] = gmInfo.offset + mmtIndex.outcome + 1;
         }
diff --git a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
index e75aa85..54697f5 100644
--- a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
@@ -93,6 +93,9 @@ namespace Moment::Locality {
                 throw errors::BadPTError("Two measurements from same party cannot be specified.");
             }
 
+            if (mmtIndex.outcome >= gmEntry.length) {
+                throw errors::BadPTError("Measurement outcome index out of bounds.");
+            }
             lower_bounds[gmEntry.party] = gmEntry.offset + mmtIndex.outcome;
             upper_bounds[gmEntry.party] = gmEntry.offset + mmtIndex.outcome + 1;
         }
@@ -111,6 +114,9 @@ namespace Moment::Locality {
             if (index[gmEntry.party] != 0) {
                 throw errors::BadPTError("Two outcomes from same party cannot be specified.");
             }
+            if (mmtIndex.outcome >= gmEntry.length) {
+                throw errors::BadPTError("Measurement outcome index out of bounds.");
+            }
             index[gmEntry.party] = gmEntry.offset + mmtIndex.outcome;
         }
 
-- 
2.43.0


From f7120419bc9a48bae1ad57c795e02e239cd8974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:23 +0000
Subject: [PATCH 29/52] fix: recursive storage returns a reference into a
 destroyed copy

---
 cpp/lib_moment/utilities/recursive_index.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/utilities/recursive_index.h b/cpp/lib_moment/utilities/recursive_index.h
index 49f3002..260fee4 100644
--- a/cpp/lib_moment/utilities/recursive_index.h
+++ b/cpp/lib_moment/utilities/recursive_index.h
@@ -112,7 +112,7 @@ namespace Moment {
          * @return Reference to the stored value.
          */
         [[nodiscard]] constexpr const type_t& access(std::span<const size_t> indices) const noexcept {
-            auto place = subtree(indices);
+            const auto& place = subtree(indices);
             return place.access();
         }
 
-- 
2.43.0


From 122956c5a0dcd2e9ba454e409c04d57ec09ff183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:23 +0000
Subject: [PATCH 30/52] fix: number of combinations overflows although the
 result fits

---
 cpp/lib_moment/utilities/combinations.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/cpp/lib_moment/utilities/combinations.h b/cpp/lib_moment/utilities/combinations.h
index 32c4c0a..3922038 100644
--- a/cpp/lib_moment/utilities/combinations.h
+++ b/cpp/lib_moment/utilities/combinations.h
@@ -23,15 +23,13 @@ namespace Moment {
      */
     template<std::integral int_t>
     [[nodiscard]] constexpr int_t combinations(int_t N, int_t K) {
-        int_t numerator = 1;
-        for (int_t iN = N-K+1; iN <= N; ++iN) {
-            numerator *= iN;
+        // Build up one factor at a time, so that intermediate values remain close to the (integer) result.
+        int_t result = 1;
+        int_t multiplier = N-K+1;
+        for (int_t divisor = 1; divisor <= K; ++divisor, ++multiplier) {
+            result = (result / divisor) * multiplier + ((result % divisor) * multiplier) / divisor;
         }
-        int_t denominator = 1;
-        for (int_t iD = 1; iD <= K; ++iD) {
-            denominator *= iD;
-        }
-        return numerator/denominator;
+        return result;
     }
 
     template<bool inclusive = false>
-- 
2.43.0


From 4869a282bdea35c119f36fd4b85bded125236da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:23 +0000
Subject: [PATCH 31/52] fix: count of combinations with repeats

---
 cpp/lib_moment/utilities/combinations.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/utilities/combinations.h b/cpp/lib_moment/utilities/combinations.h
index 3922038..f2b0a45 100644
--- a/cpp/lib_moment/utilities/combinations.h
+++ b/cpp/lib_moment/utilities/combinations.h
@@ -137,7 +137,11 @@ namespace Moment {
         }
 
         [[nodiscard]] constexpr size_t combination_count() const noexcept {
-            return combinations(this->N, this->K);
+            if constexpr (inclusive) {
+                return combinations(this->N + this->K - 1, this->K);
+            } else {
+                return combinations(this->N, this->K);
+            }
         }
 
     private:
-- 
2.43.0


From 4cf3ba795ea0f2663ed2325de2c461c46a5edff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:03 +0000
Subject: [PATCH 32/52] fix: combining factors with zero yields zero alone

---
 cpp/lib_moment/scenarios/inflation/factor_table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/inflation/factor_table.cpp b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
index 6212088..efea45d 100644
--- a/cpp/lib_moment/scenarios/inflation/factor_table.cpp
+++ b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
@@ -368,7 +368,7 @@ namespace Moment::Inflation {
         // If "0" is somehow a factor of either left or right, the product is zero
         assert(!output.empty());
         if (output[0] == 0) [[unlikely]] {
-            output.emplace_back(0);
+            output.assign(1, 0);
             return;
         }
 
-- 
2.43.0


From ec8a694212df0e3c890423a22532d8141852fc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:03 +0000
Subject: [PATCH 33/52] fix: extended matrix reads factors from re-allocated
 table

---
 cpp/lib_moment/scenarios/inflation/extended_matrix.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
index a4055a5..6f9664d 100644
--- a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
+++ b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
@@ -112,7 +112,8 @@ namespace Moment::Inflation {
 
             // Make bottom-right block
             for (size_t i = 0, iMax = extension_scalars.size(); i < iMax; ++i) {
-                const auto& row_factors = factors[extension_scalars[i]].canonical.symbols;
+                // Copy, because of possible re-allocation within factor table!
+                const auto row_factors = factors[extension_scalars[i]].canonical.symbols;
                 auto diag_fac_id = combine_and_register_factors(symbols, factors, row_factors, row_factors);
                 const std::array<size_t,2> diag_index{old_dimension+i, old_dimension+i};
                 extended_matrix(diag_index) = Monomial{diag_fac_id};
-- 
2.43.0


From 8d3336b0bb5aa4a494b19b297b67c3ee3c3eab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:48 +0000
Subject: [PATCH 34/52] fix: deletion of matrix one past the end

---
 cpp/lib_moment/matrix_system/matrix_system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix_system/matrix_system.cpp b/cpp/lib_moment/matrix_system/matrix_system.cpp
index 98b0ee9..37aa9cb 100644
--- a/cpp/lib_moment/matrix_system/matrix_system.cpp
+++ b/cpp/lib_moment/matrix_system/matrix_system.cpp
@@ -93,7 +93,7 @@ namespace Moment {
     bool MatrixSystem::delete_matrix(const MaintainsMutex::WriteLock& lock, ptrdiff_t index) noexcept {
         assert(this->is_locked_write_lock(lock));
         // No deletion for bad index
-        if ((index < 0) || (index > this->matrices.size())) {
+        if ((index < 0) || (index >= this->matrices.size())) {
             return false;
         }
         // No deletion for missing matrix
-- 
2.43.0


From f918e0f73b95a34551669f9e363029c620e5e509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:48 +0000
Subject: [PATCH 35/52] fix: localizing matrices of words differing by sign
 share an index

---
 .../matrix_system/indices/localizing_matrix_index.h        | 7 ++++++-
 cpp/lib_moment/scenarios/pauli/indices/monomial_index.h    | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h b/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
index 5404846..7d70690 100644
--- a/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
+++ b/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
@@ -41,7 +41,12 @@ namespace Moment {
             }
 
             // Then by sequence hash...
-            return (this->WordHash < rhs.WordHash);
+            if (this->WordHash != rhs.WordHash) {
+                return (this->WordHash < rhs.WordHash);
+            }
+
+            // Finally, by sign, since hash does not include it
+            return this->Word.get_sign() < rhs.Word.get_sign();
         }
 
         /**
diff --git a/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h b/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
index f38185c..ec7b647 100644
--- a/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
+++ b/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
@@ -62,7 +62,12 @@ namespace Moment::Pauli {
             }
 
             // Tie-break on word hash
-            return this->WordHash < pmmi.WordHash;
+            if (this->WordHash != pmmi.WordHash) {
+                return this->WordHash < pmmi.WordHash;
+            }
+
+            // Finally, tie-break on sign, since hash does not include it
+            return this->Word.get_sign() < pmmi.Word.get_sign();
         }
 
         [[nodiscard]] operator ::Moment::LocalizingMatrixIndex() const {
-- 
2.43.0


From dcf96e85d1ccb18eb5bb1fdbbcee37a005a13155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:40 +0000
Subject: [PATCH 36/52] fix: sparse matrices with entries in one triangle only
 taken as Hermitian

---
 cpp/lib_moment/utilities/eigen_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/utilities/eigen_utils.cpp b/cpp/lib_moment/utilities/eigen_utils.cpp
index 69e994b..6c01ebf 100644
--- a/cpp/lib_moment/utilities/eigen_utils.cpp
+++ b/cpp/lib_moment/utilities/eigen_utils.cpp
@@ -78,7 +78,7 @@ namespace Moment {
 
         for (Eigen::Index outer = 0; outer < data.outerSize(); ++outer) {
             for  (inner_iter_t inner_iter{data, outer}; inner_iter; ++inner_iter) {
-                if (inner_iter.row() > outer) {
+                if (inner_iter.row() != outer) {
                     if (!approximately_equal(data.coeff(inner_iter.col(), inner_iter.row()),
                                              inner_iter.value(), zero_tolerance)) {
                         return false;
@@ -103,7 +103,7 @@ namespace Moment {
                     if (!approximately_real(inner_iter.value(), zero_tolerance)) {
                         return false;
                     }
-                } else if (inner_iter.row() > outer) {
+                } else {
                     if (!approximately_equal(std::conj(data.coeff(inner_iter.col(), inner_iter.row())),
                                              inner_iter.value(), zero_tolerance)) {
                         return false;
@@ -145,7 +145,7 @@ namespace Moment {
                     if (!approximately_imaginary(inner_iter.value(), zero_tolerance)) {
                         return false;
                     }
-                } else if (inner_iter.row() > outer) {
+                } else {
                     if (!approximately_equal(-std::conj(data.coeff(inner_iter.col(), inner_iter.row())),
                                              inner_iter.value(), zero_tolerance)) {
                         return false;
-- 
2.43.0


From b32bb551798bb9c09193cc3c32a6457f44727c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:40 +0000
Subject: [PATCH 37/52] fix: Hermiticity of scaled value matrix ignores phase
 of weight

---
 cpp/lib_moment/matrix/value_matrix.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/cpp/lib_moment/matrix/value_matrix.cpp b/cpp/lib_moment/matrix/value_matrix.cpp
index 783fef0..af8bf13 100644
--- a/cpp/lib_moment/matrix/value_matrix.cpp
+++ b/cpp/lib_moment/matrix/value_matrix.cpp
@@ -206,15 +206,16 @@ namespace Moment {
 
             // Deduce if Hermitian
             const bool new_matrix_hermitian = [&]() {
-                if (this->hermitian) {
-                    auto lhs_ht = lhs.hermitian_type();
-                    return (lhs_ht == HermitianType::Hermitian);
-                } else if (this->antihermitian) {
-                    auto lhs_ht = lhs.hermitian_type();
-                    return (lhs_ht == HermitianType::AntiHermitian);
-                } else {
-                    return false;
-                }
+                const auto lhs_ht = lhs.hermitian_type();
+                const bool real_weight = approximately_real(weight, poly_factory.zero_tolerance);
+                const bool imaginary_weight = approximately_imaginary(weight, poly_factory.zero_tolerance);
+
+                const bool lhs_hermitian = (real_weight && (lhs_ht == HermitianType::Hermitian))
+                                            || (imaginary_weight && (lhs_ht == HermitianType::AntiHermitian));
+                const bool lhs_antihermitian = (real_weight && (lhs_ht == HermitianType::AntiHermitian))
+                                            || (imaginary_weight && (lhs_ht == HermitianType::Hermitian));
+
+                return (this->hermitian && lhs_hermitian) || (this->antihermitian && lhs_antihermitian);
             }();
 
             // Create new matrix
-- 
2.43.0


From 3f70e4b23978c1bd60db5ceb6e3e86d7b6a29918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:38 +0000
Subject: [PATCH 38/52] fix: rejected constraints on symbols partly applied

---
 cpp/lib_moment/symbolic/symbol_table.cpp | 28 +++++++++++++++---------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/cpp/lib_moment/symbolic/symbol_table.cpp b/cpp/lib_moment/symbolic/symbol_table.cpp
index b507620..b510768 100644
--- a/cpp/lib_moment/symbolic/symbol_table.cpp
+++ b/cpp/lib_moment/symbolic/symbol_table.cpp
@@ -201,9 +201,24 @@ namespace Moment {
         assert(can_be_real.bit_size == can_be_imaginary.bit_size);
         bool changes = false;
 
-        // Ensure enough elements exist
+        // Check no symbol (existing, or to be created) becomes zero, before making any changes
         const size_t initial_elems = this->unique_sequences.size();
         const size_t elems = can_be_real.bit_size;
+        for (size_t id = 1; id < elems; ++id) {
+            if (can_be_real.test(id) && can_be_imaginary.test(id)) {
+                continue; // No new constraint
+            }
+            const bool exists = (id < initial_elems);
+            const bool has_real = can_be_real.test(id)
+                                    && !(exists && this->unique_sequences[id].is_antihermitian());
+            const bool has_imaginary = can_be_imaginary.test(id)
+                                    && !(exists && this->unique_sequences[id].is_hermitian());
+            if (!has_real && !has_imaginary) {
+                throw errors::zero_symbol{static_cast<symbol_name_t>(id)};
+            }
+        }
+
+        // Ensure enough elements exist
         if (elems > initial_elems) {
             this->create(elems - initial_elems);
         }
@@ -224,20 +239,13 @@ namespace Moment {
                         changes = true;
                     }
                     symbol.hermitian = true;
-                    if (symbol.antihermitian) {
-                        throw errors::zero_symbol{symbol.id};
-                    }
                 }
-            } else if (sym_has_imaginary) {
+            } else {
+                assert(sym_has_imaginary); // <- otherwise, zero_symbol thrown above
                 if (!symbol.antihermitian) {
                     changes = true;
                 }
                 symbol.antihermitian = true;
-                if (symbol.hermitian) {
-                    throw errors::zero_symbol{symbol.id};
-                }
-            } else {
-                throw errors::zero_symbol{symbol.id};
             }
         }
 
-- 
2.43.0


From 5e0de16c7716efe43d635a33d573c86c5b91a0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:38 +0000
Subject: [PATCH 39/52] fix: cached bases keep old numbering after symbols
 become real

---
 cpp/lib_moment/matrix/matrix_basis.cpp                | 11 +++++++++++
 cpp/lib_moment/matrix/matrix_basis.h                  | 11 +++++++++++
 .../scenarios/imported/imported_matrix_system.cpp     |  1 +
 3 files changed, 23 insertions(+)

diff --git a/cpp/lib_moment/matrix/matrix_basis.cpp b/cpp/lib_moment/matrix/matrix_basis.cpp
index 16d7911..41921c7 100644
--- a/cpp/lib_moment/matrix/matrix_basis.cpp
+++ b/cpp/lib_moment/matrix/matrix_basis.cpp
@@ -165,6 +165,17 @@ namespace Moment {
             SparseMonolithicComplex{*this, std::move(rhs.SparseMonolithicComplex)} {
     }
 
+    void MatrixBasis::reset() {
+        this->Dense.reset();
+        this->DenseComplex.reset();
+        this->Sparse.reset();
+        this->SparseComplex.reset();
+        this->DenseMonolithic.reset();
+        this->DenseMonolithicComplex.reset();
+        this->SparseMonolithic.reset();
+        this->SparseMonolithicComplex.reset();
+    }
+
     DenseBasisInfo::MakeStorageType MatrixBasis::create_dense() {
         if (this->matrix.HasComplexCoefficients()) {
             throw errors::bad_basis_error{"Matrix has complex coefficients, and so a basis of type [R,C] cannot be created."};
diff --git a/cpp/lib_moment/matrix/matrix_basis.h b/cpp/lib_moment/matrix/matrix_basis.h
index f3c8a6b..f0fb4ea 100644
--- a/cpp/lib_moment/matrix/matrix_basis.h
+++ b/cpp/lib_moment/matrix/matrix_basis.h
@@ -54,6 +54,14 @@ namespace Moment {
                 return this->done.load(std::memory_order_acquire);
             }
 
+            /** Forgets the cached basis (if any), so that it is created afresh when next requested. */
+            void reset() {
+                std::unique_lock write_lock{this->basis.mutex};
+                this->done.store(false, std::memory_order_release);
+                this->re = typename MBTInfo::RealStorageType{};
+                this->im = typename MBTInfo::ImStorageType{};
+            }
+
             /** Gets the basis, from cache if possible, otherwise, create it. */
             [[nodiscard]] typename MBTInfo::GetBasisType operator()() const {
                 if (this->done.load(std::memory_order_acquire)) {
@@ -135,6 +143,9 @@ namespace Moment {
 
         MatrixBasis(const SymbolicMatrix& matrix, MatrixBasis&& rhs) noexcept;
 
+        /** Forgets all cached bases (e.g. because the real and imaginary parts of symbols have been renumbered). */
+        void reset();
+
     private:
         DenseBasisInfo::MakeStorageType create_dense();
         SparseBasisInfo::MakeStorageType create_sparse();
diff --git a/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp b/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp
index 240b35f..b58e546 100644
--- a/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp
@@ -187,6 +187,7 @@ namespace Moment::Imported {
             for (size_t index = 0; index < this->size(); ++index) {
                 auto &old_mat = this->get(index);
                 old_mat.renumerate_bases(this->Symbols(), this->polynomial_factory().zero_tolerance);
+                old_mat.Basis.reset(); // <- cached bases refer to old numbering
             }
         }
 
-- 
2.43.0


From c2fac35f916c7fd26a34ff6b32938da1e96e76bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:23 +0000
Subject: [PATCH 40/52] fix: Dimino accepts subgroup one element larger than
 limit

---
 cpp/lib_moment/scenarios/symmetrized/group.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/symmetrized/group.cpp b/cpp/lib_moment/scenarios/symmetrized/group.cpp
index 00f1d3d..f0ad25d 100644
--- a/cpp/lib_moment/scenarios/symmetrized/group.cpp
+++ b/cpp/lib_moment/scenarios/symmetrized/group.cpp
@@ -139,9 +139,9 @@ namespace Moment::Symmetrized {
         const auto id = sparse_id_matrix(rep_dim);
         elements.emplace_back(id);
 
-        // Generate orbit for first generator
+        // Generate orbit for first generator (identity already counts towards subgroup size)
         repmat_t elem(*gen_iter);
-        size_t sg_index = 0;
+        size_t sg_index = 1;
         while ((sg_index < max_subgroup_size) && (!elem.isApprox(id))) {
             elements.emplace_back(elem);
             elem = (elem * (*gen_iter)).pruned();
-- 
2.43.0


From 6bab9bc7dfb534cfce69b2194b59aa7fdcd3a6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:41 +0000
Subject: [PATCH 41/52] fix: induced representations ignore signs of products
 of words

---
 .../scenarios/symmetrized/group.cpp           |  6 ++-
 .../symmetrized/representation_mapper.cpp     | 49 ++++++++++++++-----
 .../symmetrized/representation_mapper.h       |  4 ++
 3 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/cpp/lib_moment/scenarios/symmetrized/group.cpp b/cpp/lib_moment/scenarios/symmetrized/group.cpp
index f0ad25d..0323522 100644
--- a/cpp/lib_moment/scenarios/symmetrized/group.cpp
+++ b/cpp/lib_moment/scenarios/symmetrized/group.cpp
@@ -12,6 +12,7 @@
 
 #include "scenarios/context.h"
 
+#include <algorithm>
 #include <atomic>
 #include <iostream>
 #include <set>
@@ -329,7 +330,10 @@ namespace Moment::Symmetrized {
             = Multithreading::should_multithread_group_rep_generation(mt_policy,
                                                                       this->mappers.back()->raw_dimension(),
                                                                       this->size);
-        if (should_multithread) {
+        // (Workers cannot report the complex representations that imaginary products might lead to)
+        const bool might_throw = std::any_of(pruned_list.begin(), pruned_list.end(),
+                                             [this](const size_t wl) { return this->mappers[wl-1]->has_imaginary(); });
+        if (should_multithread && !might_throw) {
             build_representations_multi_thread(this->representations, this->mappers, this->size, pruned_list);
         } else {
             build_representations_single_thread(this->representations, this->mappers, this->size, pruned_list);
diff --git a/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp b/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp
index 763e65d..c5dabfb 100644
--- a/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp
+++ b/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp
@@ -6,6 +6,8 @@
  */
 #include "representation_mapper.h"
 
+#include "group.h"
+
 #include "integer_types.h"
 
 #include "dictionary/operator_sequence_generator.h"
@@ -14,6 +16,7 @@
 #include "dictionary/operator_sequence.h"
 
 #include "utilities/dynamic_bitset.h"
+#include "utilities/float_utils.h"
 #include "utilities/kronecker_power.h"
 #include "tensor/multi_dimensional_index_iterator.h"
 
@@ -30,7 +33,8 @@ namespace Moment::Symmetrized {
             return osg.size();
         }
 
-        std::vector<size_t> vector_remap(const Context& context,
+        std::vector<size_t> vector_remap(std::vector<SequenceSignType>& signs,
+                                         const Context& context,
                                          const size_t lhs_word_length,
                                          const size_t rhs_word_length,
                                          const size_t target_word_length) {
@@ -62,6 +66,7 @@ namespace Moment::Symmetrized {
                     const auto remap_iter = hash_to_index.find(combined.hash());
                     assert(remap_iter != hash_to_index.cend());
                     output.emplace_back(remap_iter->second);
+                    signs.emplace_back(combined.get_sign());
                 }
             }
 
@@ -70,19 +75,22 @@ namespace Moment::Symmetrized {
 
 
         /**
-         * Matrix to sum rows
+         * Matrix to sum rows, either for the products with real sign, or for those with imaginary sign.
          */
-        RepresentationMapper::lhs_mat_t make_lhs(const std::vector<size_t>& remap, size_t raw_dim, size_t remapped_dim) {
+        RepresentationMapper::lhs_mat_t make_lhs(const std::vector<size_t>& remap,
+                                                 const std::vector<SequenceSignType>& signs, const bool imaginary,
+                                                 size_t raw_dim, size_t remapped_dim) {
             assert(raw_dim == remap.size());
+            assert(raw_dim == signs.size());
             RepresentationMapper::lhs_mat_t output(static_cast<int>(remapped_dim), static_cast<int>(raw_dim)); // rows, cols
             std::vector<Eigen::Triplet<double>> triplets;
 
             size_t raw_index = 0;
             for (const auto mapped_index : remap) {
-                if (mapped_index > 0) {
+                if ((mapped_index > 0) && (is_imaginary(signs[raw_index]) == imaginary)) {
                     triplets.emplace_back(static_cast<int>(mapped_index - 1),   // row
                                           static_cast<int>(raw_index), // col
-                                          1.0);
+                                          is_negative(signs[raw_index]) ? -1.0 : 1.0);
                 }
                 ++raw_index;
             }
@@ -96,7 +104,9 @@ namespace Moment::Symmetrized {
         /**
          * Matrix to skip columns
          */
-        RepresentationMapper::rhs_mat_t make_rhs(const std::vector<size_t>& remap, size_t raw_dim, size_t remapped_dim) {
+        RepresentationMapper::rhs_mat_t make_rhs(const std::vector<size_t>& remap,
+                                                 const std::vector<SequenceSignType>& signs,
+                                                 size_t raw_dim, size_t remapped_dim) {
             assert(raw_dim == remap.size());
             RepresentationMapper::rhs_mat_t output(static_cast<int>(raw_dim), static_cast<int>(remapped_dim)); // rows, cols
             std::vector<Eigen::Triplet<double>> triplets;
@@ -106,7 +116,7 @@ namespace Moment::Symmetrized {
             size_t true_index = 0;
 
             for (const auto mapped_index : remap) {
-                if (mapped_index > 0) {
+                if ((mapped_index > 0) && (signs[true_index] == SequenceSignType::Positive)) {
                     if (!done_map.test(mapped_index-1)) {
                         triplets.emplace_back(static_cast<int>(true_index),   // row
                                               static_cast<int>(mapped_index-1), // col
@@ -158,13 +168,16 @@ namespace Moment::Symmetrized {
         this->remapped_dim = osg.size();
 
         // Make vector remap
-        this->remap = vector_remap(context,
+        std::vector<SequenceSignType> signs;
+        this->remap = vector_remap(signs,
+                                   context,
                                    parent_A.target_word_length,
                                    parent_B.target_word_length,
                                    this->target_word_length);
 
-        this->lhs = make_lhs(this->remap, this->raw_dim, this->remapped_dim);
-        this->rhs = make_rhs(this->remap, this->raw_dim, this->remapped_dim);
+        this->lhs = make_lhs(this->remap, signs, false, this->raw_dim, this->remapped_dim);
+        this->lhs_imaginary = make_lhs(this->remap, signs, true, this->raw_dim, this->remapped_dim);
+        this->rhs = make_rhs(this->remap, signs, this->raw_dim, this->remapped_dim);
     }
 
     repmat_t RepresentationMapper::operator()(const repmat_t &matrix) const {
@@ -180,7 +193,21 @@ namespace Moment::Symmetrized {
         assert(elem_r2.cols() == this->right_input_dim);
         assert(elem_r2.rows() == this->right_input_dim);
 
-        return this->lhs * Eigen::kroneckerProduct(elem_r1, elem_r2) * this->rhs;
+        const repmat_t product = Eigen::kroneckerProduct(elem_r1, elem_r2);
+
+        // Imaginary terms should cancel out, as representation is real
+        if (this->lhs_imaginary.nonZeros() > 0) {
+            const repmat_t imaginary = this->lhs_imaginary * product * this->rhs;
+            for (int col = 0; col < imaginary.outerSize(); ++col) {
+                for (repmat_t::InnerIterator iter{imaginary, col}; iter; ++iter) {
+                    if (!approximately_zero(iter.value(), 1024.0)) {
+                        throw errors::bad_symmetry{"Representation on operator sequences would be complex."};
+                    }
+                }
+            }
+        }
+
+        return this->lhs * product * this->rhs;
     }
 
 
diff --git a/cpp/lib_moment/scenarios/symmetrized/representation_mapper.h b/cpp/lib_moment/scenarios/symmetrized/representation_mapper.h
index e891703..0e3005e 100644
--- a/cpp/lib_moment/scenarios/symmetrized/representation_mapper.h
+++ b/cpp/lib_moment/scenarios/symmetrized/representation_mapper.h
@@ -41,6 +41,7 @@ namespace Moment::Symmetrized {
         std::vector<size_t> remap;
 
         lhs_mat_t lhs;
+        lhs_mat_t lhs_imaginary;
         rhs_mat_t rhs;
 
     public:
@@ -80,6 +81,9 @@ namespace Moment::Symmetrized {
         /** The matrix that acts on the left of the Kronecker product (encoding redundant dims) */
         [[nodiscard]] inline auto LHS() const noexcept { return this->lhs; }
 
+        /** True if some products of words carry an imaginary sign */
+        [[nodiscard]] inline bool has_imaginary() const noexcept { return this->lhs_imaginary.nonZeros() > 0; }
+
         /** The matrix that acts on the right of the Kronecker product (encoding remapped dims) */
         [[nodiscard]] inline auto RHS() const noexcept { return this->rhs; }
 
-- 
2.43.0


From 39a1ee3e8a49763a67bac5316886c34a8f4f15fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:09 +0000
Subject: [PATCH 42/52] fix: mapping a conjugated symbol conjugates its factor

---
 cpp/lib_moment/scenarios/derived/symbol_table_map.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
index 5a4371c..2c0dc93 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
@@ -213,11 +213,11 @@ namespace Moment::Derived {
         // Get raw combo, or throw range error
         Polynomial output = (*this)(symbol.id);
 
-        // Apply transformations (using target symbol table)
-        output *= symbol.factor;
+        // Apply transformations (using target symbol table); factor itself is not affected by conjugation of symbol
         if (symbol.conjugated) {
             output.conjugate_in_place(this->target_symbols);
         }
+        output *= symbol.factor;
 
         return output;
     }
@@ -283,11 +283,11 @@ namespace Moment::Derived {
         // Get raw combo, or throw range error
         Polynomial output = this->inverse(symbol.id);
 
-        // Apply transformations (using origin symbol table)
-        output *= symbol.factor;
+        // Apply transformations (using origin symbol table); factor itself is not affected by conjugation of symbol
         if (symbol.conjugated) {
             output.conjugate_in_place(this->origin_symbols);
         }
+        output *= symbol.factor;
 
         return output;
     }
-- 
2.43.0


From 3fb1d8e6f02f9dd5782acb5ffb826d3c3758e331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:09 +0000
Subject: [PATCH 43/52] fix: symbols mapped to anti-Hermitian combinations
 declared with real parts

---
 cpp/lib_moment/scenarios/derived/symbol_table_map.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
index 2c0dc93..2605ab3 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
@@ -186,7 +186,8 @@ namespace Moment::Derived {
 
         for (const auto& polynomial : this->inverse_map | std::views::drop(2)) {
             const bool is_hermitian = polynomial.is_hermitian(this->origin_symbols, 1.0);
-            this->target_symbols.create(true, !is_hermitian);
+            const bool is_antihermitian = !is_hermitian && polynomial.is_antihermitian(this->origin_symbols, 1.0);
+            this->target_symbols.create(!is_antihermitian, !is_hermitian);
         }
 
         assert(this->target_symbols.size() == this->inverse_map.size());
-- 
2.43.0


From 58d43f241311d2df9863c5df8c6bce24ff481d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:09 +0000
Subject: [PATCH 44/52] fix: map sends symbols beyond its reach to zero

---
 cpp/lib_moment/scenarios/derived/symbol_table_map.cpp | 7 ++++++-
 cpp/lib_moment/scenarios/derived/symbol_table_map.h   | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
index 2605ab3..2e13ae7 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
@@ -102,6 +102,9 @@ namespace Moment::Derived {
 
         // First, build fixed constants.
         this->map.assign(origin_symbols.size(), Polynomial{}); // 0 -> 0 always
+        this->defined.assign(origin_symbols.size(), false);
+        this->defined[0] = true;
+        this->defined[1] = true;
         this->map[0] = Polynomial{};      // 0 -> 0 always.
         this->map[1] = Polynomial::Scalar(1.0); // 1 -> 1 always.
 
@@ -110,6 +113,7 @@ namespace Moment::Derived {
             auto [symbol_id, conjugated] = origin_symbols.OSGIndex(row_id);
             assert(!conjugated);
             this->map[symbol_id] = Polynomial::Scalar(scalar);
+            this->defined[symbol_id] = true;
         }
 
         const auto& raw_map = this->core_solution->dense_map;
@@ -141,6 +145,7 @@ namespace Moment::Derived {
 
             // Create mapping
             this->map[source_symbol] = Polynomial{std::move(from_x_to_y)};
+            this->defined[source_symbol] = true;
             ++core_col_id;
         }
 
@@ -200,7 +205,7 @@ namespace Moment::Derived {
 
     const Polynomial& SymbolTableMap::operator()(symbol_name_t symbol_id) const {
         // Bounds check
-        if ((symbol_id < 0) || (symbol_id >= this->map.size())) {
+        if ((symbol_id < 0) || (symbol_id >= this->map.size()) || !this->defined[symbol_id]) {
             std::stringstream ss;
             ss << "Symbol " << symbol_id << " not defined in implied map.";
             throw errors::bad_map{ss.str()};
diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.h b/cpp/lib_moment/scenarios/derived/symbol_table_map.h
index 6a8fdd0..21c23b4 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.h
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.h
@@ -44,6 +44,10 @@ namespace Moment {
 
             std::vector<Polynomial> map;
             std::vector<Polynomial> inverse_map;
+
+            /** True, for each source symbol that the map acts on */
+            std::vector<bool> defined;
+
             bool _is_monomial_map = false;
 
         private:
-- 
2.43.0


From d5b45590542b764ec5caca7dd071fce01a079364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:36 +0000
Subject: [PATCH 45/52] fix: DEL character counted as two bytes of UTF-8

---
 cpp/lib_moment/utilities/utf_conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/utilities/utf_conversion.cpp b/cpp/lib_moment/utilities/utf_conversion.cpp
index 7c85d3e..00becb6 100644
--- a/cpp/lib_moment/utilities/utf_conversion.cpp
+++ b/cpp/lib_moment/utilities/utf_conversion.cpp
@@ -15,7 +15,7 @@ namespace Moment {
     size_t UTF16toUTF8Convertor::size_in_utf8(const std::basic_string<char16_t> &wstring) {
         size_t output = 0;
         for (char16_t elem : wstring) {
-            if (elem < 0x007f) {
+            if (elem <= 0x007f) {
                 output += 1;
             } else if (elem <= 0x07FF) {
                 output += 2;
-- 
2.43.0


From 597168c4f5deddabe997acb159a65c6eabc7a86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:36 +0000
Subject: [PATCH 46/52] fix: UTF conversion loses top bit of plane 16
 characters

---
 cpp/lib_moment/utilities/utf_conversion.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/utilities/utf_conversion.cpp b/cpp/lib_moment/utilities/utf_conversion.cpp
index 00becb6..5ee1b8e 100644
--- a/cpp/lib_moment/utilities/utf_conversion.cpp
+++ b/cpp/lib_moment/utilities/utf_conversion.cpp
@@ -105,11 +105,11 @@ namespace Moment {
                     //W2 = 1101 11cc cc dd dddd      // 0xDC00 + xx xxxx xxxx
                     //
                     // As UTF8: 2+6+6+6 -> 20 bit
-                    //  1111 0[0]aa, 10bb bbbb, 10cc cccc, 10dd dddd
+                    //  1111 0aaa, 10bb bbbb, 10cc cccc, 10dd dddd
 
                     const char16_t surrogate_high = (src & 0x03FF) + 0x0040; // Correct for 0x10000 offset of code point
 
-                    const auto b0 = static_cast<char>( 0xf0 | ((surrogate_high & 0x0300) >> 8)); // 2 bits to first char
+                    const auto b0 = static_cast<char>( 0xf0 | ((surrogate_high & 0x0700) >> 8)); // 3 bits to first char
                     const auto b1 = static_cast<char>( 0x80 | ((surrogate_high & 0x00fc) >> 2)); // 6 bits to next char
                     const auto b2 = static_cast<char>( 0x80 | ((surrogate_high & 0x0003) << 4) // 2 from high
                                                             | ((surrogate_low & 0x03c0) >> 6));  // 4 from low
@@ -243,12 +243,12 @@ namespace Moment {
             }
             if ((src & 0xf8) == 0xf0) {
                 // Four bytes expected
-                // 	111100ww, 10xxxxxx, 10yyyyyy, 10zzzzzz ->
+                // 	11110www, 10xxxxxx, 10yyyyyy, 10zzzzzz ->
                 if (src_ptr+3 >= src_end) {
                     return output;
                 }
 
-                const auto b1 = src & 0x03; // 2
+                const auto b1 = src & 0x07; // 3
                 const auto b2 = *(src_ptr+1) & 0x3f; // 6
                 const auto b3 = *(src_ptr+2) & 0x3f; // 6
                 const auto b4 = *(src_ptr+3) & 0x3f; // 6
-- 
2.43.0


From 52311e622b7e5f1c3d8bb4c494843fd254b6313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:36 +0000
Subject: [PATCH 47/52] fix: first operator loses its name when conjugates are
 interleaved

---
 cpp/lib_moment/scenarios/algebraic/name_table.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/name_table.cpp b/cpp/lib_moment/scenarios/algebraic/name_table.cpp
index 65cfbd8..0a85327 100644
--- a/cpp/lib_moment/scenarios/algebraic/name_table.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/name_table.cpp
@@ -83,7 +83,10 @@ namespace Moment::Algebraic {
                     std::string conj_str = this->names[idx];
                     conj_str.append("*");
 
-                    this->names[2*idx] = std::move(this->names[idx]);
+                    // First name is already in place (and moving a string onto itself could clear it)
+                    if (idx > 0) {
+                        this->names[2*idx] = std::move(this->names[idx]);
+                    }
 
                     this->index.emplace(std::make_pair(conj_str, (2*idx+1)));
                     this->names[2*idx+1] = std::move(conj_str);
-- 
2.43.0


From bf939203fa55ea2c69327ec8df6720b76d832bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:48 +0000
Subject: [PATCH 48/52] fix: sign missing from text of scalars and imaginary
 words

---
 .../scenarios/algebraic/algebraic_context.cpp    |  2 +-
 .../scenarios/inflation/inflation_context.cpp    | 16 +++++++++++++---
 .../scenarios/locality/locality_context.cpp      | 16 +++++++++++++---
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
index 742c8b3..939fbb2 100644
--- a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
@@ -170,7 +170,7 @@ namespace Moment::Algebraic {
         }
 
         if (seq.empty()) {
-            os.os << "1";
+            Context::format_sequence(os, seq); // Scalar, so just shows sign
             return;
         }
 
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index f697b47..efa710f 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -572,12 +572,22 @@ namespace Moment::Inflation {
             return;
         }
         if (seq.empty()) {
-            os.os << "1";
+            Context::format_sequence(os, seq); // Scalar, so just shows sign
             return;
         }
 
-        if (seq.negated()) {
-            os.os << "-";
+        switch (seq.get_sign()) {
+            case SequenceSignType::Positive:
+                break;
+            case SequenceSignType::Imaginary:
+                os.os << "i";
+                break;
+            case SequenceSignType::Negative:
+                os.os << "-";
+                break;
+            case SequenceSignType::NegativeImaginary:
+                os.os << "-i";
+                break;
         }
 
         if (os.format_info.show_braces) {
diff --git a/cpp/lib_moment/scenarios/locality/locality_context.cpp b/cpp/lib_moment/scenarios/locality/locality_context.cpp
index c9628d4..8738dfb 100644
--- a/cpp/lib_moment/scenarios/locality/locality_context.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_context.cpp
@@ -224,12 +224,22 @@ namespace Moment::Locality {
                 return;
             }
             if (seq.empty()) {
-                os << "1";
+                context.Context::format_sequence(os, seq); // Scalar, so just shows sign
                 return;
             }
 
-            if (seq.negated()) {
-                os << "-";
+            switch (seq.get_sign()) {
+                case SequenceSignType::Positive:
+                    break;
+                case SequenceSignType::Imaginary:
+                    os << "i";
+                    break;
+                case SequenceSignType::Negative:
+                    os << "-";
+                    break;
+                case SequenceSignType::NegativeImaginary:
+                    os << "-i";
+                    break;
             }
 
             if (os.format_info.show_braces) {
-- 
2.43.0


From 7d6759a146e39c365ee56e2817cca83b17b622d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:51 +0000
Subject: [PATCH 49/52] fix: imaginary part of exported polynomial used the
 real part's coefficient

---
 cpp/lib_moment/symbolic/polynomial_to_basis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_to_basis.cpp b/cpp/lib_moment/symbolic/polynomial_to_basis.cpp
index fdd2ab2..feb8450 100644
--- a/cpp/lib_moment/symbolic/polynomial_to_basis.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_to_basis.cpp
@@ -230,7 +230,7 @@ namespace Moment {
                     // Im(Z) can be non-zero
                     if constexpr(export_imaginary) {
                         if (!approximately_zero(bz_factor_ax, zero_tolerance)) {
-                            imaginary_output.real.insert(basis_X_real) = az_factor_ax;
+                            imaginary_output.real.insert(basis_X_real) = bz_factor_ax;
                         }
                     }
 
-- 
2.43.0


From 64282bf0b40a823c6dc70dfd0c354ca4192d41e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:51 +0000
Subject: [PATCH 50/52] fix: complex basis vector multiplied the real part by i

---
 cpp/lib_moment/symbolic/polynomial_to_basis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_to_basis.h b/cpp/lib_moment/symbolic/polynomial_to_basis.h
index 58877b6..f268fd8 100644
--- a/cpp/lib_moment/symbolic/polynomial_to_basis.h
+++ b/cpp/lib_moment/symbolic/polynomial_to_basis.h
@@ -54,7 +54,7 @@ namespace Moment {
 
         ComplexBasisVector() = default;
         explicit ComplexBasisVector(const RealAndImaginaryBasisVector& expr) {
-            this->real = (std::complex<double>{0.0, 1.0} * expr.real_part.real)
+            this->real = (std::complex<double>{1.0, 0.0} * expr.real_part.real)
                             + std::complex<double>{0.0, 1.0} * expr.imaginary_part.real;
             this->imaginary = (std::complex<double>{1.0, 0.0} * expr.real_part.imaginary)
                             + std::complex<double>{0.0, 1.0} * expr.imaginary_part.imaginary;
-- 
2.43.0


From d8949ebe099690c4dd1e6dee55cbd82da8ce41aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:12 +0000
Subject: [PATCH 51/52] fix: exported rewrite matrix left symbols inconsistent
 with oblique partial rules

---
 .../symbolic/rules/moment_rulebook_to_basis.cpp     | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cpp/lib_moment/symbolic/rules/moment_rulebook_to_basis.cpp b/cpp/lib_moment/symbolic/rules/moment_rulebook_to_basis.cpp
index a82aa51..5ad6815 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rulebook_to_basis.cpp
+++ b/cpp/lib_moment/symbolic/rules/moment_rulebook_to_basis.cpp
@@ -15,6 +15,8 @@
 
 #include "../symbol_table.h"
 
+#include <limits>
+
 namespace Moment {
 
     MomentRulebookToBasis::MomentRulebookToBasis(const PolynomialFactory& factory,
@@ -41,6 +43,7 @@ namespace Moment {
 
         PolynomialToBasisVec to_basis{this->symbols, this->zero_tolerance};
         std::vector<Eigen::Triplet<double>> triplets;
+        size_t oblique_rules = 0; // Count of rules that mix the real and imaginary parts of their symbol.
 
         for (const auto& [symbol_id, rule] : rulebook) {
             assert(symbol_id < this->symbols.size());
@@ -59,6 +62,7 @@ namespace Moment {
                 } else {
                     assert(lhs_has_real);
                     assert(lhs_has_im);
+                    ++oblique_rules;
 
                     // Real and imaginary bits!?
                     const double cos_delta = rule.partial_direction().real();
@@ -126,6 +130,15 @@ namespace Moment {
         // Construct matrix
         output_t output{num_elems, num_elems};
         output.setFromTriplets(triplets.begin(), triplets.end());
+
+        // RHS of other rules may refer to the part an oblique rule constrains: substitute until all rows are consistent.
+        if (export_mode == ExportMode::Rewrite) {
+            for (size_t depth = 1; depth <= oblique_rules; depth *= 2) {
+                output_t substituted = output * output;
+                substituted.prune(1.0, this->zero_tolerance * std::numeric_limits<double>::epsilon());
+                output.swap(substituted);
+            }
+        }
         return output;
     }
 
-- 
2.43.0


From 136d4b4e31c58d544ee21822dc4fe300b1872daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:02 +0000
Subject: [PATCH 52/52] fix: refused injection of a rule changed the rulebook's
 flags

---
 .../symbolic/rules/moment_rulebook.cpp         | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp b/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
index 9f6999e..6c15240 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
+++ b/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
@@ -96,26 +96,30 @@ namespace Moment {
         const auto id = msr.LHS();
         assert (id < this->symbols.size());
 
+        // Do add; an existing rule for this symbol takes precedence.
+        auto [iter, added] = this->rules.insert(std::make_pair(id, std::move(msr)));
+        if (!added) {
+            return false;
+        }
+
         // If non-monomial rule is directly injected, rulebook becomes non-monomial.
-        if (!msr.RHS().is_monomial()) {
+        const auto& new_rule = iter->second;
+        if (!new_rule.RHS().is_monomial()) {
             this->monomial_rules = false;
         }
 
         // If rule maps Hermitian symbol to non-Hermitian combo, rulebook becomes non-Hermitian.
-        if (this->symbols[msr.LHS()].is_hermitian()) {
-            if (!msr.RHS().is_hermitian(this->symbols, this->factory.zero_tolerance)) {
+        if (this->symbols[new_rule.LHS()].is_hermitian()) {
+            if (!new_rule.RHS().is_hermitian(this->symbols, this->factory.zero_tolerance)) {
                 this->hermitian_rules = false;
             }
         }
 
-        // Do add
-        auto [iter, added] = this->rules.insert(std::make_pair(id, std::move(msr)));
-
         // Add key
         this->rules_in_order.insert(std::make_pair(this->factory.key(Monomial{iter->second.lhs}),
                                                    iter));
 
-        return added;
+        return true;
     }
 
     size_t MomentRulebook::complete() {
-- 
2.43.0

