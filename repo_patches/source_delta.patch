From 813534fee7b3d93fef499800421a30d424821021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:19 +0000
Subject: [PATCH 01/72] fix: appending operators to the zero sequence must
 leave it zero

---
 cpp/lib_moment/dictionary/operator_sequence.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/lib_moment/dictionary/operator_sequence.h b/cpp/lib_moment/dictionary/operator_sequence.h
index 4edd911..b3ea2ee 100644
--- a/cpp/lib_moment/dictionary/operator_sequence.h
+++ b/cpp/lib_moment/dictionary/operator_sequence.h
@@ -130,6 +130,10 @@ namespace Moment {
          */
         template<std::input_iterator iter_t>
         inline OperatorSequence& append(iter_t begin, iter_t end) {
+            // Zero multiplied by anything remains zero
+            if (this->zero()) {
+                return *this;
+            }
             this->operators.insert(this->operators.end(), begin, end);
             this->to_canonical_form();
             return *this;
-- 
2.43.0


From b7df0ad3d99016eb3330f2b64f5dd062ae9c33dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 02/72] fix: return the word list another thread just created,
 not a stale iterator

---
 cpp/lib_moment/dictionary/dictionary.cpp            | 4 ++--
 cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/dictionary/dictionary.cpp b/cpp/lib_moment/dictionary/dictionary.cpp
index fae13fe..f56c76b 100644
--- a/cpp/lib_moment/dictionary/dictionary.cpp
+++ b/cpp/lib_moment/dictionary/dictionary.cpp
@@ -51,8 +51,8 @@ namespace Moment {
         std::atomic_thread_fence(std::memory_order_acquire);
         auto reattempt_offset_iter = this->npa_level_to_offset.find(npa_level);
         if (reattempt_offset_iter != this->npa_level_to_offset.cend()) {
-            const ptrdiff_t offset = offset_iter->second;
-            assert(offset >= this->osgs.size());
+            const ptrdiff_t offset = reattempt_offset_iter->second;
+            assert(offset < this->osgs.size());
             return this->osgs[offset]; // Discard pointless creation...!
         }
 
diff --git a/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp b/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp
index d1d4872..dbe0f6b 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp
@@ -41,7 +41,7 @@ namespace Moment::Pauli {
         auto recheck_key = this->nn_indices.find(index);
         if (recheck_key != this->nn_indices.cend()) {
             // We were beaten in a race to create OSG, so discard work and return existing OSG.
-            const auto osg_offset = find_key->second;
+            const auto osg_offset = recheck_key->second;
             assert(osg_offset < this->osgs.size());
             return this->osgs[osg_offset]; // ~write_lock, ~new_osg
         }
-- 
2.43.0


From 7004981990fb101a17441544f51118e0044a9646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 03/72] fix: keep references to word lists valid when the
 dictionary grows

---
 cpp/lib_moment/dictionary/dictionary.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/dictionary/dictionary.h b/cpp/lib_moment/dictionary/dictionary.h
index 5af507d..e626a53 100644
--- a/cpp/lib_moment/dictionary/dictionary.h
+++ b/cpp/lib_moment/dictionary/dictionary.h
@@ -14,8 +14,8 @@
 #include "multithreading/maintains_mutex.h"
 
 #include <atomic>
+#include <deque>
 #include <map>
-#include <vector>
 
 namespace Moment {
     class Context;
@@ -28,8 +28,8 @@ namespace Moment {
      */
     class Dictionary : protected MaintainsMutex {
     protected:
-        /** List of operator sequences */
-        mutable std::vector<OSGPair> osgs;
+        /** List of operator sequences (references to entries remain valid as the list grows). */
+        mutable std::deque<OSGPair> osgs;
 
         /** Key, linking NPA hierarchy level (e.g. moment matrix level) to generator offset */
         mutable std::map<size_t, size_t> npa_level_to_offset;
-- 
2.43.0


From ad58287663fc72f11a91e81cdf0bb7867463badf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 04/72] fix: rotate Pauli lattice rows modulo the column height
 above 64 qubits

---
 cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
index 5231d2f..8a81122 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
@@ -240,7 +240,7 @@ namespace Moment::Pauli {
         [[nodiscard]] Datum row_cyclic_shift(const Datum& input, size_t offset) const noexcept {
 
             // Normalize rotation, and get within-column offsets
-            offset = offset % this->row_width;
+            offset = offset % this->column_height;
             const storage_t bit_offset = 2ULL * offset;
             const storage_t bit_anti_offset = (this->column_height * 2ULL) - bit_offset;
 
-- 
2.43.0


From ac56488eacf00466c8d0bf66b8f5ca64ded87c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 05/72] fix: negative offsets of Pauli words on wrapped chains
 and lattices

---
 .../pauli/symmetry/moment_simplifier_wrapping.h   | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h b/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h
index 764e85d..8087004 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h
@@ -68,9 +68,10 @@ namespace Moment::Pauli {
         [[nodiscard]] sequence_storage_t chain_offset(const std::span<const oper_name_t> input,
                                                       ptrdiff_t offset) const final {
             // Translate offsets to positive range:
-            offset = offset % this->context.qubit_size;
+            const auto chain_length = static_cast<ptrdiff_t>(this->site_hasher.qubits);
+            offset = offset % chain_length;
             if (offset < 0) {
-                offset = this->site_hasher.qubits - offset;
+                offset += chain_length;
             }
 
             // Via hash, shift:
@@ -84,14 +85,16 @@ namespace Moment::Pauli {
                                           ptrdiff_t row_offset,
                                           ptrdiff_t col_offset) const final {
             // Translate offsets to positive range:
-            row_offset = row_offset % this->context.qubit_size;
+            const auto num_rows = static_cast<ptrdiff_t>(this->site_hasher.column_height);
+            row_offset = row_offset % num_rows;
             if (row_offset < 0) {
-                row_offset = this->site_hasher.qubits - row_offset;
+                row_offset += num_rows;
             }
 
-            col_offset = col_offset % this->context.qubit_size;
+            const auto num_cols = static_cast<ptrdiff_t>(this->site_hasher.row_width);
+            col_offset = col_offset % num_cols;
             if (col_offset < 0) {
-                col_offset = this->site_hasher.qubits - col_offset;
+                col_offset += num_cols;
             }
 
             // Via hash, shift:
-- 
2.43.0


From c9bf4499b0462eee6e7c5985737522bbd9b8ea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 06/72] fix: duplicate Pauli words over every row of a
 non-square wrapped lattice

---
 .../scenarios/pauli/symmetry/lattice_duplicator.cpp         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
index 5affa3e..391cf9d 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
@@ -97,7 +97,7 @@ namespace Moment::Pauli {
 
             // Lattice
             for (size_t col = 0; col < hasher.row_width; ++col) {
-                for (size_t row = (col != 0) ? 0 : 1; row < hasher.row_width; ++row) {
+                for (size_t row = (col != 0) ? 0 : 1; row < hasher.column_height; ++row) {
                     for (const auto& base_hash : base_hashes) {
                         output.emplace_back(OperatorSequence::ConstructPresortedFlag{},
                                             hasher.unhash(hasher.lattice_shift(base_hash, row, col)),
@@ -145,8 +145,8 @@ namespace Moment::Pauli {
             // Reason from indices if aliasing is completely impossible
             MomentSimplifierNoWrappingLattice nowrap{duplicator.context};
             auto [max_row, max_col] = nowrap.lattice_supremum(lattice_indices);
-            const bool no_horz_alias = (max_row <= hasher.row_width/2);
-            const bool no_vert_alias = (max_col <= hasher.column_height/2);
+            const bool no_horz_alias = (max_col <= hasher.row_width/2);
+            const bool no_vert_alias = (max_row <= hasher.column_height/2);
             if (no_horz_alias && no_vert_alias) {
                 return do_unaliased_lattice_symmetric_fill(duplicator, output, hasher, lattice_indices);
             }
-- 
2.43.0


From 6f1bd72764174890e9d5dc2b3e6edcfdb315c465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 07/72] fix: include the bottom-right corner triplets of Pauli
 lattice neighbours

---
 cpp/lib_moment/scenarios/pauli/pauli_osg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
index d207cfd..f3b87aa 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
@@ -205,7 +205,7 @@ namespace Moment::Pauli {
                 // Bottom left corner
                 ld.symmetrical_fill(std::array<size_t, 3>{0, 1, context.col_height+1}, false);
                 // Bottom right corner
-                ld.symmetrical_fill(std::array<size_t, 3>{0, context.col_height, context.col_height+1}, false);
+                ld.symmetrical_fill(std::array<size_t, 3>{1, context.col_height, context.col_height+1}, false);
             }
 
             return sequences.size() - initial_count;
-- 
2.43.0


From ca2a2c505eca68c53316c2764081f1bce3a239a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 08/72] fix: list each wrapped nearest-neighbour Pauli word
 once

---
 cpp/lib_moment/scenarios/pauli/pauli_osg.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
index f3b87aa..29918a9 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
@@ -12,6 +12,9 @@
 #include "utilities/combinations.h"
 #include "dictionary/multi_operator_iterator.h"
 
+#include <algorithm>
+#include <set>
+
 namespace Moment::Pauli {
     namespace {
         /**
@@ -252,6 +255,14 @@ namespace Moment::Pauli {
 
             return sequences.size() - init_size;
         }
+
+        /** Neighbouring sets of sites can coincide when wrapped around small lattices; keep the first copy of each. */
+        void remove_repeated_sequences(std::vector<OperatorSequence>& sequences) {
+            std::set<uint64_t> known_hashes;
+            std::erase_if(sequences, [&known_hashes](const OperatorSequence& seq) {
+                return !known_hashes.insert(seq.hash()).second;
+            });
+        }
     }
 
     PauliSequenceGenerator::PauliSequenceGenerator(const PauliContext& pauli_context, const size_t word_length)
@@ -386,6 +397,10 @@ namespace Moment::Pauli {
                                                word_length, this->nearest_neighbour_index.neighbours);
             }
         }
+
+        if (wrap) {
+            remove_repeated_sequences(this->unique_sequences);
+        }
     }
 
 
-- 
2.43.0


From 22aca48d9d2d71bd3554107343a26eb83b1bffd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 09/72] fix: neighbour triplets and squares of wrapped Pauli
 lattices without symmetry

---
 .../pauli/symmetry/lattice_duplicator.cpp     | 32 ++++++++++++-------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
index 391cf9d..9bbfcdf 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
@@ -22,6 +22,7 @@
 
 #include <algorithm>
 #include <map>
+#include <memory>
 
 namespace Moment::Pauli {
     namespace {
@@ -207,16 +208,17 @@ namespace Moment::Pauli {
          * @tparam num_slides Number of slides in the hasher
          * @param duplicator LatticeDuplicator object
          * @param output MUST match duplicator.output. Exposed only due to privacy.
+         * @param simplifier The moment simplifier that supplies the hasher.
          * @param lattice_sites
          */
         template<size_t num_slides>
         std::pair<size_t, size_t> do_symmetric_fill(LatticeDuplicator& duplicator,
                                                     std::vector<OperatorSequence>& output,
+                                                    const MomentSimplifier& simplifier,
                                                     const std::span<const size_t> lattice_indices,
                                                     const bool check_for_aliases) {
             // Convert hasher to implementation:~
-            const auto& moment_simplifier =
-                    dynamic_cast<const MomentSimplifierWrapping<num_slides>&>(duplicator.context.moment_simplifier());
+            const auto& moment_simplifier = dynamic_cast<const MomentSimplifierWrapping<num_slides>&>(simplifier);
             const auto& hasher = moment_simplifier.site_hasher;
 
             // Invoke appropriate duplicator
@@ -320,24 +322,30 @@ namespace Moment::Pauli {
             return this->wrapless_symmetrical_fill(lattice_sites);
         }
 
-        // Otherwise, we use cyclic hasher to facilitate our duplications
-        switch(this->context.moment_simplifier().impl_label) {
+        // Otherwise, we use cyclic hasher to facilitate our duplications (context only has one if it is symmetrized)
+        std::unique_ptr<MomentSimplifier> temporary_simplifier;
+        if (this->context.translational_symmetry == SymmetryType::None) {
+            temporary_simplifier = MomentSimplifier::make(this->context);
+        }
+        const MomentSimplifier& simplifier = temporary_simplifier ? *temporary_simplifier
+                                                                  : this->context.moment_simplifier();
+        switch(simplifier.impl_label) {
             case 1:
-                return do_symmetric_fill<1>(*this, this->output, lattice_sites, check_for_aliases);
+                return do_symmetric_fill<1>(*this, this->output, simplifier, lattice_sites, check_for_aliases);
             case 2:
-                return do_symmetric_fill<2>(*this, this->output, lattice_sites, check_for_aliases);
+                return do_symmetric_fill<2>(*this, this->output, simplifier, lattice_sites, check_for_aliases);
             case 3:
-                return do_symmetric_fill<3>(*this, this->output, lattice_sites, check_for_aliases);
+                return do_symmetric_fill<3>(*this, this->output, simplifier, lattice_sites, check_for_aliases);
             case 4:
-                return do_symmetric_fill<4>(*this, this->output, lattice_sites, check_for_aliases);
+                return do_symmetric_fill<4>(*this, this->output, simplifier, lattice_sites, check_for_aliases);
             case 5:
-                return do_symmetric_fill<5>(*this, this->output, lattice_sites, check_for_aliases);
+                return do_symmetric_fill<5>(*this, this->output, simplifier, lattice_sites, check_for_aliases);
             case 6:
-                return do_symmetric_fill<6>(*this, this->output, lattice_sites, check_for_aliases);
+                return do_symmetric_fill<6>(*this, this->output, simplifier, lattice_sites, check_for_aliases);
             case 7:
-                return do_symmetric_fill<7>(*this, this->output, lattice_sites, check_for_aliases);
+                return do_symmetric_fill<7>(*this, this->output, simplifier, lattice_sites, check_for_aliases);
             case 8:
-                return do_symmetric_fill<8>(*this, this->output, lattice_sites, check_for_aliases);
+                return do_symmetric_fill<8>(*this, this->output, simplifier, lattice_sites, check_for_aliases);
             default:
                 throw std::runtime_error{"Cannot invoke symmetrical duplication for this specialization."};
         }
-- 
2.43.0


From ae2acccf575131b88dbf2ec405a969aa9d5bed07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:42 +0000
Subject: [PATCH 10/72] fix: sign of conjugate words when finding symbols for
 matrices and polynomials

The operator sequence of a symbol's conjugate can carry a sign (e.g. -[2,0,1]),
which was ignored when a matrix element or polynomial term matched the conjugate.
---
 .../matrix/monomial_matrix_factory.cpp         | 18 +++++++++++++++---
 cpp/lib_moment/matrix/value_matrix.cpp         |  3 +++
 cpp/lib_moment/symbolic/polynomial_factory.cpp | 13 ++++++++++---
 cpp/lib_moment/symbolic/symbol.h               |  9 +++++++++
 4 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index 2c8e1c4..8a5f366 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -202,7 +202,7 @@ namespace Moment {
 
                     const size_t hash = elem.hash();
 
-                    const auto monomial_sign = to_scalar(elem.get_sign());
+                    auto monomial_sign = to_scalar(elem.get_sign());
 
                     auto [symbol_id, conjugated] = symbol_table.hash_to_index(hash);
                     if (symbol_id == std::numeric_limits<ptrdiff_t>::max()) {
@@ -212,6 +212,9 @@ namespace Moment {
                         throw std::logic_error{ss.str()};
                     }
                     const auto& unique_elem = symbol_table[symbol_id];
+                    if (conjugated) {
+                        monomial_sign *= unique_elem.conj_factor();
+                    }
 
                     if constexpr (has_prefactor) {
                         symbolic_representation[iter.Offset()] = Monomial{unique_elem.Id(), prefactor * monomial_sign,
@@ -272,6 +275,9 @@ namespace Moment {
                         throw std::logic_error{ss.str()};
                     }
                     const auto& unique_elem = symbol_table[symbol_id];
+                    if (conjugated) {
+                        elem_factor *= unique_elem.conj_factor();
+                    }
 
                     symbolic_representation[offset] = Monomial{unique_elem.Id(), elem_factor, conjugated};
                 }
@@ -554,7 +560,7 @@ namespace Moment {
                 const size_t offset = (col_idx * row_length) + row_idx;
                 const auto& elem = this->bundle.os_data_ptr[offset];
 
-                const auto mono_factor = prefactor * to_scalar(elem.get_sign());
+                auto mono_factor = prefactor * to_scalar(elem.get_sign());
                 const size_t hash = elem.hash();
                 auto [symbol_id, conjugated] = symbol_table.hash_to_index(hash);
 
@@ -565,6 +571,9 @@ namespace Moment {
                     throw std::logic_error{ss.str()};
                 }
                 const auto& unique_elem = symbol_table[symbol_id];
+                if (conjugated) {
+                    mono_factor *= unique_elem.conj_factor();
+                }
 
                 this->bundle.sm_data_ptr[offset] = Monomial{unique_elem.Id(),
                                                             mono_factor,
@@ -590,7 +599,7 @@ namespace Moment {
                 const auto& elem = this->bundle.os_data_ptr[offset];
 
                 const size_t hash = elem.hash();
-                const auto monomial_sign = to_scalar(elem.get_sign());
+                auto monomial_sign = to_scalar(elem.get_sign());
 
                 auto [symbol_id, conjugated] = symbol_table.hash_to_index(hash);
 
@@ -601,6 +610,9 @@ namespace Moment {
                     throw std::logic_error{ss.str()};
                 }
                 const auto& unique_elem = symbol_table[symbol_id];
+                if (conjugated) {
+                    monomial_sign *= unique_elem.conj_factor();
+                }
 
                 // Write entry
                 write_ptr[offset] = Monomial{unique_elem.Id(), prefactor * monomial_sign, conjugated};
diff --git a/cpp/lib_moment/matrix/value_matrix.cpp b/cpp/lib_moment/matrix/value_matrix.cpp
index 783fef0..bdd9b6a 100644
--- a/cpp/lib_moment/matrix/value_matrix.cpp
+++ b/cpp/lib_moment/matrix/value_matrix.cpp
@@ -169,6 +169,9 @@ namespace Moment {
             // Find existing symbol
             auto existing = symbol_table.where(lhs);
             if (existing.found()) {
+                if (existing.is_conjugated) {
+                    weight *= existing->conj_factor();
+                }
                 return Monomial{existing.symbol->Id(), weight, existing.is_conjugated};
             }
 
diff --git a/cpp/lib_moment/symbolic/polynomial_factory.cpp b/cpp/lib_moment/symbolic/polynomial_factory.cpp
index 1dd0772..63ece96 100644
--- a/cpp/lib_moment/symbolic/polynomial_factory.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_factory.cpp
@@ -47,6 +47,13 @@ namespace Moment {
     }
 
     namespace {
+        [[nodiscard]] inline Monomial make_monomial(const SymbolLookupResult& search, std::complex<double> weight) {
+            if (search.is_conjugated) {
+                weight *= search->conj_factor();
+            }
+            return Monomial{search->Id(), weight, search.is_conjugated};
+        }
+
         [[nodiscard]] inline Polynomial::storage_t
         make_storage_data_from_raw(const SymbolTable& symbols, const RawPolynomial& raw) {
             Polynomial::storage_t output_storage;
@@ -57,7 +64,7 @@ namespace Moment {
                     throw errors::unregistered_operator_sequence{elem.sequence.formatted_string(), elem.sequence.hash()};
                 }
                 assert(search.symbol != nullptr); // ^- above should throw if this is true.
-                output_storage.emplace_back(search->Id(), elem.weight, search.is_conjugated);
+                output_storage.emplace_back(make_monomial(search, elem.weight));
             }
             return output_storage;
         }
@@ -73,10 +80,10 @@ namespace Moment {
                     const symbol_name_t inserted_id = symbols.merge_in(OperatorSequence{elem.sequence});
                     auto search_again = symbols.where(elem.sequence); // Search again, could be alised, or conjugated.
                     assert(search_again.found());
-                    output_storage.emplace_back(search_again->Id(), elem.weight, search_again.is_conjugated);
+                    output_storage.emplace_back(make_monomial(search_again, elem.weight));
                 } else {
                     assert(search.symbol != nullptr);
-                    output_storage.emplace_back(search->Id(), elem.weight, search.is_conjugated);
+                    output_storage.emplace_back(make_monomial(search, elem.weight));
                 }
             }
             return output_storage;
diff --git a/cpp/lib_moment/symbolic/symbol.h b/cpp/lib_moment/symbolic/symbol.h
index eed34eb..6cd3bfd 100644
--- a/cpp/lib_moment/symbolic/symbol.h
+++ b/cpp/lib_moment/symbolic/symbol.h
@@ -91,6 +91,15 @@ namespace Moment {
             return this->hermitian ? opSeq.value() : this->conjSeq.value();
         }
 
+        /**
+         * The scalar c, such that the (positive) operator sequence of the complex conjugate is c times the complex
+         * conjugate of this symbol.
+         * Undefined behaviour if no operator sequence associated with this entry.
+         */
+        [[nodiscard]] std::complex<double> conj_factor() const {
+            return std::conj(to_scalar(this->sequence_conj().get_sign()));
+        }
+
         /**
          * Does the operator sequence represent its Hermitian conjugate?
          * If true, the element will correspond to a real symbol (cf. complex if not) in the NPA matrix.
-- 
2.43.0


From ea057a3481e44f6e96ba363c7377e11f48d495a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 11/72] fix: flag symbols as Hermitian only when their word,
 not merely its hash, is self-conjugate

Words equal to minus their conjugate were registered by fill_to_word_length as
Hermitian, and Hermitian matrix elements with a sign kept it in the symbol.
---
 cpp/lib_moment/matrix/monomial_matrix_factory.cpp | 8 ++++----
 cpp/lib_moment/symbolic/symbol_table.cpp          | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index 8a5f366..d4b3780 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -107,7 +107,7 @@ namespace Moment {
                         }
 
                         if (elem_hermitian) {
-                            build_unique.emplace_back(elem);
+                            build_unique.emplace_back(elem, elem.conjugate());
                             known_hashes.emplace(hash);
                         } else {
                             if (hash < conj_hash) {
@@ -167,7 +167,7 @@ namespace Moment {
                         }
 
                         if (elem_hermitian) {
-                            build_unique.emplace_back(elem);
+                            build_unique.emplace_back(elem, elem.conjugate());
                             known_hashes.emplace(hash);
                         } else {
                             if (hash < conj_hash) {
@@ -425,7 +425,7 @@ namespace Moment {
                 }
 
                 if (elem_hermitian) {
-                    unique_elements.emplace(hash, elem);
+                    unique_elements.emplace(hash, Symbol{elem, elem.conjugate()});
                     known_hashes.emplace(hash);
                 } else {
                     if (hash < conj_hash) {
@@ -476,7 +476,7 @@ namespace Moment {
                 }
 
                 if (elem_hermitian) {
-                    unique_elements.emplace(hash, elem);
+                    unique_elements.emplace(hash, Symbol{elem, elem.conjugate()});
                     known_hashes.emplace(hash);
                 } else {
                     if (hash < conj_hash) {
diff --git a/cpp/lib_moment/symbolic/symbol_table.cpp b/cpp/lib_moment/symbolic/symbol_table.cpp
index 7e87051..ce0b850 100644
--- a/cpp/lib_moment/symbolic/symbol_table.cpp
+++ b/cpp/lib_moment/symbolic/symbol_table.cpp
@@ -326,7 +326,7 @@ namespace Moment {
 
             if (seq_hash == conj_hash) {
                 build_unique.emplace_hint(build_unique.end(),
-                                          std::make_pair(seq_hash, Symbol{op_seq}));
+                                          std::make_pair(seq_hash, Symbol{op_seq, std::move(conj_seq)}));
             } else if (seq_hash < conj_hash) {
                 build_unique.emplace_hint(build_unique.end(),
                                           std::make_pair(seq_hash, Symbol{op_seq, std::move(conj_seq)}));
-- 
2.43.0


From 6b48a06b6e01012b051d9c26fb6528fa0bbbe138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:11 +0000
Subject: [PATCH 12/72] fix: a rejected restriction of symbols leaves the
 symbol table unchanged

---
 cpp/lib_moment/symbolic/symbol_table.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/symbol_table.cpp b/cpp/lib_moment/symbolic/symbol_table.cpp
index ce0b850..96d4519 100644
--- a/cpp/lib_moment/symbolic/symbol_table.cpp
+++ b/cpp/lib_moment/symbolic/symbol_table.cpp
@@ -201,9 +201,24 @@ namespace Moment {
         assert(can_be_real.bit_size == can_be_imaginary.bit_size);
         bool changes = false;
 
-        // Ensure enough elements exist
+        // Check no symbol would become zero, before making any changes
         const size_t initial_elems = this->unique_sequences.size();
         const size_t elems = can_be_real.bit_size;
+        for (size_t index = 1, end = std::min(initial_elems, elems); index < end; ++index) {
+            const auto& symbol = this->unique_sequences[index];
+            const bool real_part = can_be_real.test(index) && !symbol.antihermitian;
+            const bool imaginary_part = can_be_imaginary.test(index) && !symbol.hermitian;
+            if (!real_part && !imaginary_part) {
+                throw errors::zero_symbol{symbol.id};
+            }
+        }
+        for (size_t index = std::max<size_t>(initial_elems, 1); index < elems; ++index) {
+            if (!can_be_real.test(index) && !can_be_imaginary.test(index)) {
+                throw errors::zero_symbol{static_cast<symbol_name_t>(index)};
+            }
+        }
+
+        // Ensure enough elements exist
         if (elems > initial_elems) {
             this->create(elems - initial_elems);
         }
-- 
2.43.0


From 3e16d278da2ab645c2451cac96485dcd15c88753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:56 +0000
Subject: [PATCH 13/72] fix: register the words of a polynomial before
 describing its (anti)commutator matrix

In systems with aliases, a constituent (anti)commutator matrix does not register its own word.
---
 cpp/lib_moment/matrix/composite_matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix/composite_matrix.h b/cpp/lib_moment/matrix/composite_matrix.h
index 6993ff2..a3d8009 100644
--- a/cpp/lib_moment/matrix/composite_matrix.h
+++ b/cpp/lib_moment/matrix/composite_matrix.h
@@ -259,7 +259,7 @@ namespace Moment {
             }
 
             // Make approximate and true index
-            auto aliased_polynomial = poly_factory.construct(raw_polynomial);
+            auto aliased_polynomial = poly_factory.register_and_construct(symbols, raw_polynomial);
             return std::make_unique<ImplType>(context, symbols, system.polynomial_factory(),
                                               polynomial_index_t{std::move(osg_index), std::move(aliased_polynomial)},
                                               std::move(constituents),
-- 
2.43.0


From de57e4a1c7bce591d5550240f83a6f4b8555efd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:56 +0000
Subject: [PATCH 14/72] fix: conjugating an algebraic word with non-Hermitian
 operators keeps its sign

---
 cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
index 522f266..742c8b3 100644
--- a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
@@ -159,7 +159,7 @@ namespace Moment::Algebraic {
             return OperatorSequence::Zero(*this);
         }
 
-        return OperatorSequence{this->precontext.conjugate(seq.raw()), *this};
+        return OperatorSequence{this->precontext.conjugate(seq.raw()), *this, Moment::conjugate(seq.get_sign())};
     }
 
 
-- 
2.43.0


From ed1e9399c138a6611ea5df1d910fd84339a14c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:56 +0000
Subject: [PATCH 15/72] fix: relabelling the sources of an inflated word keeps
 its sign

---
 cpp/lib_moment/scenarios/inflation/inflation_context.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index 72a0bf8..e142aa3 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -417,10 +417,10 @@ namespace Moment::Inflation {
 
         // If source-relabelling causes change in operator order, there could be further simplifications:
         if (!std::is_sorted(permuted_operators.cbegin(), permuted_operators.cend())) {
-            return this->simplify_as_moment(OperatorSequence{std::move(permuted_operators), *this}); // recurse..!
+            return this->simplify_as_moment(OperatorSequence{std::move(permuted_operators), *this, input.get_sign()}); // recurse..!
         }
 
-        return OperatorSequence{std::move(permuted_operators), *this};
+        return OperatorSequence{std::move(permuted_operators), *this, input.get_sign()};
     }
 
 
-- 
2.43.0


From 8dbaa05a869e0d941482a95445fb99a939aab212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:56 +0000
Subject: [PATCH 16/72] fix: matrices for words that differ only by sign are no
 longer confused

---
 .../matrix_system/indices/localizing_matrix_index.h        | 7 ++++++-
 cpp/lib_moment/scenarios/pauli/indices/monomial_index.h    | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h b/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
index 5404846..273bfab 100644
--- a/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
+++ b/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
@@ -41,7 +41,12 @@ namespace Moment {
             }
 
             // Then by sequence hash...
-            return (this->WordHash < rhs.WordHash);
+            if (this->WordHash != rhs.WordHash) {
+                return (this->WordHash < rhs.WordHash);
+            }
+
+            // Finally, by sign...
+            return this->Word.get_sign() < rhs.Word.get_sign();
         }
 
         /**
diff --git a/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h b/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
index f38185c..66c8eff 100644
--- a/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
+++ b/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
@@ -62,7 +62,12 @@ namespace Moment::Pauli {
             }
 
             // Tie-break on word hash
-            return this->WordHash < pmmi.WordHash;
+            if (this->WordHash != pmmi.WordHash) {
+                return this->WordHash < pmmi.WordHash;
+            }
+
+            // Finally, tie-break on sign
+            return this->Word.get_sign() < pmmi.Word.get_sign();
         }
 
         [[nodiscard]] operator ::Moment::LocalizingMatrixIndex() const {
-- 
2.43.0


From e1afbbdebebdaf0a7b4a321d334c6bd7e01febe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 17/72] fix: degree of a hash-ordered polynomial considers
 every term

---
 .../symbolic/monomial_comparator_by_hash.cpp  | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp b/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
index de4df98..2006adf 100644
--- a/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
+++ b/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
@@ -35,22 +35,7 @@ namespace Moment {
     }
 
     size_t ByHashPolynomialFactory::maximum_degree(const Polynomial& poly) const {
-        // Iterate backwards, and return degree of first defined symbol
-        auto rev_iter = poly.rbegin();
-        const auto rev_iter_end = poly.rend();
-        while (rev_iter != rev_iter_end) {
-            auto id = rev_iter->id;
-            if (id <= 1) {
-                return 0;
-            }
-            assert(id < this->symbols.size());
-            const auto& symbol = this->symbols[id];
-            if (symbol.has_sequence()) {
-                return symbol.sequence().size();
-            }
-        }
-
-        // Nothing found; 0 degree
-        return 0;
+        // NB: Hash order need not be length order in every context, so every term must be inspected.
+        return PolynomialFactory::maximum_degree(poly);
     }
 }
\ No newline at end of file
-- 
2.43.0


From bc0c71a7c0a04a76a9b9c8ae747fe03bc4ef3b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 18/72] fix: is_conjugate compares terms that are neither
 Hermitian nor anti-Hermitian

---
 cpp/lib_moment/symbolic/polynomial.cpp | 54 +++++++++-----------------
 1 file changed, 19 insertions(+), 35 deletions(-)

diff --git a/cpp/lib_moment/symbolic/polynomial.cpp b/cpp/lib_moment/symbolic/polynomial.cpp
index a4191f2..f724c10 100644
--- a/cpp/lib_moment/symbolic/polynomial.cpp
+++ b/cpp/lib_moment/symbolic/polynomial.cpp
@@ -13,6 +13,7 @@
 #include "utilities/float_utils.h"
 #include "utilities/format_factor.h"
 
+#include <algorithm>
 #include <iostream>
 #include <sstream>
 
@@ -368,45 +369,28 @@ namespace Moment {
         if (this->data.size() != other.data.size()) {
             return false;
         }
-        for (size_t index = 0, iMax = this->data.size(); index < iMax; ++index) {
-            const auto& lhs_elem = this->data[index];
-            const auto& rhs_elem = other.data[index];
-
-            if (lhs_elem.id != rhs_elem.id) {
-                return false;
-            }
-            assert(lhs_elem.id < symbols.size());
-            const auto& symbolInfo = symbols[lhs_elem.id];
-
+        // Every term must be matched by its conjugate. (X and X* are distinct terms, and can swap places in the order).
+        return std::all_of(this->data.cbegin(), this->data.cend(), [&](const Monomial& lhs_elem) {
             // Zero is zero.
             if (lhs_elem.id == 0) {
-                continue;
+                return true;
             }
-            // Nothing else is zero.
-            assert(!(symbolInfo.is_antihermitian() && symbolInfo.is_hermitian()));
-
-            if (symbolInfo.is_hermitian()) {
-                if (!approximately_equal(lhs_elem.factor, std::conj(rhs_elem.factor))) {
-                    return false;
-                }
-                // no need to compare conjugation, symbol is real.
-            } else if (symbolInfo.is_antihermitian()) {
-                // Symbol is purely imaginary; so either A = -A, or A = A*.
-                if (lhs_elem.factor == std::conj(rhs_elem.factor)) {
-                    if (lhs_elem.conjugated == rhs_elem.conjugated) {
-                        return false;
-                    }
-                } else if (lhs_elem.factor == -std::conj(rhs_elem.factor)) {
-                    if (lhs_elem.conjugated != rhs_elem.conjugated) {
-                        return false;
-                    }
-                } else {
-                    return false;
-                }
+            assert(static_cast<size_t>(lhs_elem.id) < symbols.size());
+            const auto& symbol_info = symbols[lhs_elem.id];
+            // Nothing except zero is zero.
+            assert(!(symbol_info.is_antihermitian() && symbol_info.is_hermitian()));
+
+            Monomial expected{lhs_elem.id, std::conj(lhs_elem.factor), lhs_elem.conjugated};
+            if (symbol_info.is_antihermitian()) {
+                expected.factor = -expected.factor;
+            } else if (!symbol_info.is_hermitian()) {
+                expected.conjugated = !expected.conjugated;
             }
-        }
-
-        return true;
+            return std::any_of(other.data.cbegin(), other.data.cend(), [&](const Monomial& rhs_elem) {
+                return (rhs_elem.id == expected.id) && (rhs_elem.conjugated == expected.conjugated)
+                       && approximately_equal(rhs_elem.factor, expected.factor);
+            });
+        });
     }
 
     Polynomial Polynomial::Real(const PolynomialFactory &factory) const {
-- 
2.43.0


From 0ba041e3b58d101d539fcb8e1e5216715d21872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 19/72] fix: sums of monomials leave out zero terms

---
 cpp/lib_moment/symbolic/polynomial_factory.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cpp/lib_moment/symbolic/polynomial_factory.cpp b/cpp/lib_moment/symbolic/polynomial_factory.cpp
index 63ece96..5de78cb 100644
--- a/cpp/lib_moment/symbolic/polynomial_factory.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_factory.cpp
@@ -111,6 +111,14 @@ namespace Moment {
             }
         }
 
+        // Zeros do not appear as terms
+        if ((lhs.id == 0) || approximately_zero(lhs.factor, this->zero_tolerance)) {
+            return (*this)(Polynomial::storage_t{rhs});
+        }
+        if ((rhs.id == 0) || approximately_zero(rhs.factor, this->zero_tolerance)) {
+            return (*this)(Polynomial::storage_t{lhs});
+        }
+
         // Otherwise, construct as two element sum:
         if (this->less(lhs, rhs)) {
             return Polynomial{Polynomial::init_raw_tag{}, Polynomial::storage_t{lhs, rhs}};
@@ -120,6 +128,11 @@ namespace Moment {
     }
 
     Polynomial PolynomialFactory::sum(const Polynomial& lhs, const Monomial& rhs) const {
+        // Zeros do not appear as terms
+        if ((rhs.id == 0) || approximately_zero(rhs.factor, this->zero_tolerance)) {
+            return lhs;
+        }
+
         Polynomial output;
         output.data.reserve(lhs.size()+1);
 
-- 
2.43.0


From 20997905ed573515bcc735ff052784a97e7d18c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 20/72] fix: rule already projected by a partial rule is never
 treated as reorientable

Completing a moment rulebook with two rules on the same complex symbol, e.g. <X> + i<X*> = 0
and <X> + 1 = 0, reduced the second by the (partial) first. Rounding in the square root of the
partial rule's direction could then make the remaining factors of <X> and <X*> look different in
norm, and the rule was 'reoriented' by dividing by their (zero) difference, after which
merge_partial removed two terms from a polynomial that did not hold them.
---
 cpp/lib_moment/symbolic/rules/moment_rule.cpp     | 2 +-
 cpp/lib_moment/symbolic/rules/moment_rulebook.cpp | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/symbolic/rules/moment_rule.cpp b/cpp/lib_moment/symbolic/rules/moment_rule.cpp
index dc0d698..3b7af60 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rule.cpp
+++ b/cpp/lib_moment/symbolic/rules/moment_rule.cpp
@@ -230,7 +230,7 @@ namespace Moment {
 
         // Finally, rotate rule back by e^id and insert non-constrained part of X [i e^id Jd(X)]
         this->rhs *= this->lhs_direction;
-        const auto factor_x_star = -this->lhs_direction * this->lhs_direction * 0.5;
+        const auto factor_x_star = -exp_i_b_minus_a * 0.5; // e^2id, without rounding errors from the square root.
         factory.append(this->rhs, Polynomial{{Monomial{this->lhs, 0.5, false},
                                               Monomial{this->lhs, factor_x_star, true}}});
 
diff --git a/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp b/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
index 9f6999e..d44cd91 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
+++ b/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
@@ -141,7 +141,14 @@ namespace Moment {
             Polynomial reduced_rule{this->reduce(std::move(this->raw_rules[raw_rule_index]))};
 
             // Second, attempt to orient into rule
-            MomentRule msr{this->factory, std::move(reduced_rule)};
+            auto difficulty = MomentRule::get_difficulty(reduced_rule, this->factory.zero_tolerance);
+            if ((MomentRule::PolynomialDifficulty::NeedsReorienting == difficulty)
+                && this->rules.contains(reduced_rule.last_id())) {
+                // Rule has been projected by an existing partial rule, and so can only constrain the other direction:
+                // that its leading factors appear to differ in norm is floating-point error.
+                difficulty = MomentRule::PolynomialDifficulty::NonorientableRule;
+            }
+            MomentRule msr{this->factory, std::move(reduced_rule), difficulty};
 
             // If rule has been reduced to a trivial expression, do not add.
             if (msr.is_trivial()) {
-- 
2.43.0


From ebc772dc4de008be016a03f8e73395f0c0947cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 21/72] fix: imaginary part of a polynomial is written with its
 own weights of the real coordinates

---
 cpp/lib_moment/symbolic/polynomial_to_basis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_to_basis.cpp b/cpp/lib_moment/symbolic/polynomial_to_basis.cpp
index fdd2ab2..feb8450 100644
--- a/cpp/lib_moment/symbolic/polynomial_to_basis.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_to_basis.cpp
@@ -230,7 +230,7 @@ namespace Moment {
                     // Im(Z) can be non-zero
                     if constexpr(export_imaginary) {
                         if (!approximately_zero(bz_factor_ax, zero_tolerance)) {
-                            imaginary_output.real.insert(basis_X_real) = az_factor_ax;
+                            imaginary_output.real.insert(basis_X_real) = bz_factor_ax;
                         }
                     }
 
-- 
2.43.0


From 3c154f443214a50d5d76f47716f1c45f98600ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 22/72] fix: real coordinates of a complex basis vector are not
 multiplied by i

---
 cpp/lib_moment/symbolic/polynomial_to_basis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_to_basis.h b/cpp/lib_moment/symbolic/polynomial_to_basis.h
index 58877b6..f268fd8 100644
--- a/cpp/lib_moment/symbolic/polynomial_to_basis.h
+++ b/cpp/lib_moment/symbolic/polynomial_to_basis.h
@@ -54,7 +54,7 @@ namespace Moment {
 
         ComplexBasisVector() = default;
         explicit ComplexBasisVector(const RealAndImaginaryBasisVector& expr) {
-            this->real = (std::complex<double>{0.0, 1.0} * expr.real_part.real)
+            this->real = (std::complex<double>{1.0, 0.0} * expr.real_part.real)
                             + std::complex<double>{0.0, 1.0} * expr.imaginary_part.real;
             this->imaginary = (std::complex<double>{1.0, 0.0} * expr.real_part.imaginary)
                             + std::complex<double>{0.0, 1.0} * expr.imaginary_part.imaginary;
-- 
2.43.0


From f6ed14b2d07e99567087b5584025491326d72d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 23/72] fix: mask of a monomial includes the first real and
 imaginary coordinate

---
 cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp b/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp
index cc0a373..2f19e21 100644
--- a/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp
@@ -99,10 +99,10 @@ namespace Moment {
         }
         auto& symbol_info = this->symbols[monomial.id];
         auto [re_basis_index, im_basis_index] = symbol_info.basis_key();
-        if (re_basis_index > 0) {
+        if (re_basis_index >= 0) {
             real_mask.set(re_basis_index);
         }
-        if (im_basis_index > 0) {
+        if (im_basis_index >= 0) {
             imaginary_mask.set(im_basis_index);
         }
     }
-- 
2.43.0


From 59be7fd6d61a6c1aabd155b511a6323caa1eb27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 24/72] fix: rewrite matrix of rules with oblique partial rules
 maps onto solutions of the rules

---
 .../symbolic/rules/moment_rulebook_to_basis.cpp        | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cpp/lib_moment/symbolic/rules/moment_rulebook_to_basis.cpp b/cpp/lib_moment/symbolic/rules/moment_rulebook_to_basis.cpp
index a82aa51..1cfe82c 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rulebook_to_basis.cpp
+++ b/cpp/lib_moment/symbolic/rules/moment_rulebook_to_basis.cpp
@@ -41,6 +41,7 @@ namespace Moment {
 
         PolynomialToBasisVec to_basis{this->symbols, this->zero_tolerance};
         std::vector<Eigen::Triplet<double>> triplets;
+        size_t oblique_rules = 0;
 
         for (const auto& [symbol_id, rule] : rulebook) {
             assert(symbol_id < this->symbols.size());
@@ -61,6 +62,7 @@ namespace Moment {
                     assert(lhs_has_im);
 
                     // Real and imaginary bits!?
+                    ++oblique_rules;
                     const double cos_delta = rule.partial_direction().real();
                     const double sin_delta = rule.partial_direction().imag();
 
@@ -126,6 +128,14 @@ namespace Moment {
         // Construct matrix
         output_t output{num_elems, num_elems};
         output.setFromTriplets(triplets.begin(), triplets.end());
+
+        // The right hand sides of rules can contain both parts of a symbol that is only constrained in an oblique
+        // direction, one of which is itself rewritten: repeat rewrite until only unconstrained elements are referred to.
+        if (export_mode == ExportMode::Rewrite) {
+            for (size_t depth = 1; depth <= oblique_rules; depth *= 2) {
+                output = output_t{output * output}.pruned();
+            }
+        }
         return output;
     }
 
-- 
2.43.0


From b8a49a711325f958fa015d5b08205d7047127364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 25/72] fix: multiplying matrix by unconjugated monomial uses
 its sequence, not the conjugate

---
 cpp/lib_moment/matrix/symbolic_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/matrix/symbolic_matrix.cpp b/cpp/lib_moment/matrix/symbolic_matrix.cpp
index 320de12..ca75e00 100644
--- a/cpp/lib_moment/matrix/symbolic_matrix.cpp
+++ b/cpp/lib_moment/matrix/symbolic_matrix.cpp
@@ -156,8 +156,8 @@ namespace Moment {
             // Resolve monomial into operator sequence using symbol table
             assert(mono.id >= 0 && mono.id < symbol_registry.size());
             assert(symbol_registry[mono.id].has_sequence());
-            const auto &op_sequence = mono.conjugated ? symbol_registry[mono.id].sequence()
-                                                      : symbol_registry[mono.id].sequence_conj();
+            const auto &op_sequence = mono.conjugated ? symbol_registry[mono.id].sequence_conj()
+                                                      : symbol_registry[mono.id].sequence();
 
             // Invoke operator sequence multiplication
             if constexpr (premultiply) {
-- 
2.43.0


From ad1d41834695b33e70a3cab4b76eb3038940333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 26/72] fix: value matrices can be multiplied by symbols
 without an operator matrix

---
 cpp/lib_moment/matrix/value_matrix.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/lib_moment/matrix/value_matrix.h b/cpp/lib_moment/matrix/value_matrix.h
index dae4acd..a2f5000 100644
--- a/cpp/lib_moment/matrix/value_matrix.h
+++ b/cpp/lib_moment/matrix/value_matrix.h
@@ -41,6 +41,10 @@ namespace Moment {
                     Eigen::SparseMatrix<std::complex<double>>& data,
                     std::optional<std::string> description = std::nullopt);
 
+        /**
+         * Value matrices are multiplied element-wise, and so do not require an operator matrix.
+         */
+        void throw_error_if_cannot_multiply() const override { }
 
         std::unique_ptr<SymbolicMatrix>
         pre_multiply(const OperatorSequence& lhs, std::complex<double> weight, const PolynomialFactory& poly_factory,
-- 
2.43.0


From e94e0c90cef2c280eacfd621776de73acb9d22e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 27/72] fix: product of a Hermitian matrix with a complex
 weight is not Hermitian

---
 cpp/lib_moment/matrix/monomial_matrix.cpp |  5 +++++
 cpp/lib_moment/matrix/value_matrix.cpp    | 19 ++++++++++---------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix.cpp b/cpp/lib_moment/matrix/monomial_matrix.cpp
index 9bd2d78..058647a 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix.cpp
@@ -67,6 +67,11 @@ namespace Moment {
         } else if (this->unaliased_op_mat) { // Otherwise, properties from unaliased matrix
             this->unaliased_op_mat->set_properties(*this);
         }
+
+        // A Hermitian operator matrix multiplied by a complex factor is not Hermitian
+        if (!approximately_real(prefactor)) {
+            this->hermitian = false;
+        }
     }
 
     MonomialMatrix::~MonomialMatrix() noexcept = default;
diff --git a/cpp/lib_moment/matrix/value_matrix.cpp b/cpp/lib_moment/matrix/value_matrix.cpp
index bdd9b6a..7a5a08e 100644
--- a/cpp/lib_moment/matrix/value_matrix.cpp
+++ b/cpp/lib_moment/matrix/value_matrix.cpp
@@ -209,15 +209,16 @@ namespace Moment {
 
             // Deduce if Hermitian
             const bool new_matrix_hermitian = [&]() {
-                if (this->hermitian) {
-                    auto lhs_ht = lhs.hermitian_type();
-                    return (lhs_ht == HermitianType::Hermitian);
-                } else if (this->antihermitian) {
-                    auto lhs_ht = lhs.hermitian_type();
-                    return (lhs_ht == HermitianType::AntiHermitian);
-                } else {
-                    return false;
-                }
+                // Is this matrix, when multiplied by weight, (anti-)Hermitian?
+                const bool real_weight = approximately_real(weight, poly_factory.zero_tolerance);
+                const bool imaginary_weight = approximately_imaginary(weight, poly_factory.zero_tolerance);
+                const bool weighted_hermitian = (this->hermitian && real_weight)
+                                                || (this->antihermitian && imaginary_weight);
+                const bool weighted_antihermitian = (this->hermitian && imaginary_weight)
+                                                || (this->antihermitian && real_weight);
+                const auto lhs_ht = lhs.hermitian_type();
+                return (weighted_hermitian && (lhs_ht == HermitianType::Hermitian))
+                        || (weighted_antihermitian && (lhs_ht == HermitianType::AntiHermitian));
             }();
 
             // Create new matrix
-- 
2.43.0


From d732e716bf7e1313bb8896143c4e66a692c3b9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 28/72] fix: matrices without operator matrix, and polynomial
 matrices, can be cloned

---
 cpp/lib_moment/matrix/monomial_matrix.cpp   | 14 +++++++++-----
 cpp/lib_moment/matrix/polynomial_matrix.cpp | 12 +++++++++---
 cpp/lib_moment/matrix/polynomial_matrix.h   |  2 ++
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix.cpp b/cpp/lib_moment/matrix/monomial_matrix.cpp
index 058647a..eabd57b 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix.cpp
@@ -173,15 +173,19 @@ namespace Moment {
                                                                               std::move(cloned_symbol_data));
 
         // Make copy of the matrix
-        std::unique_ptr<MonomialMatrix> copied_matrix =
-                std::make_unique<MonomialMatrix>(symbol_table,
-                                                this->has_unaliased_operator_matrix()
-                                                    ? this->unaliased_operator_matrix().clone(policy)
-                                                    : nullptr,
+        std::unique_ptr<MonomialMatrix> copied_matrix;
+        if (this->has_unaliased_operator_matrix()) {
+            copied_matrix = std::make_unique<MonomialMatrix>(symbol_table,
+                                                this->unaliased_operator_matrix().clone(policy),
                                                 context.can_have_aliases() && this->has_aliased_operator_matrix()
                                                      ? this->aliased_operator_matrix().clone(policy)
                                                      : nullptr,
                                                  std::move(cloned_symbol_matrix));
+        } else {
+            // No operator matrix to clone (e.g. matrices imported, substituted, or of values).
+            copied_matrix = std::make_unique<MonomialMatrix>(this->context, symbol_table, 1.0,
+                                                             std::move(cloned_symbol_matrix), this->hermitian);
+        }
 
         // Copy other matrix properties:
         this->copy_properties_onto_clone(*copied_matrix);
diff --git a/cpp/lib_moment/matrix/polynomial_matrix.cpp b/cpp/lib_moment/matrix/polynomial_matrix.cpp
index 364ad3b..51e63df 100644
--- a/cpp/lib_moment/matrix/polynomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/polynomial_matrix.cpp
@@ -192,7 +192,13 @@ namespace Moment {
         this->complex_basis = !this->imaginary_basis_elements.empty();
     }
 
+    std::unique_ptr<SymbolicMatrix> PolynomialMatrix::clone(const Multithreading::MultiThreadPolicy /**/) const {
+        std::vector<Polynomial> cloned_symbol_data{this->sym_exp_matrix->begin(), this->sym_exp_matrix->end()};
+        auto cloned_symbol_matrix = std::make_unique<MatrixData>(this->dimension, std::move(cloned_symbol_data));
+        auto copied_matrix = std::make_unique<PolynomialMatrix>(this->context, this->symbol_table, 1.0,
+                                                                std::move(cloned_symbol_matrix));
+        this->copy_properties_onto_clone(*copied_matrix);
+        return copied_matrix;
+    }
 
-
-
-}
\ No newline at end of file
+}
diff --git a/cpp/lib_moment/matrix/polynomial_matrix.h b/cpp/lib_moment/matrix/polynomial_matrix.h
index d8ab5ff..8f09ff3 100644
--- a/cpp/lib_moment/matrix/polynomial_matrix.h
+++ b/cpp/lib_moment/matrix/polynomial_matrix.h
@@ -122,6 +122,8 @@ namespace Moment {
         std::unique_ptr<PolynomialMatrix> add(const Polynomial& rhs, const PolynomialFactory& poly_factory,
                                               Multithreading::MultiThreadPolicy policy) const override;
 
+        std::unique_ptr<SymbolicMatrix> clone(Multithreading::MultiThreadPolicy policy) const override;
+
     protected:
         /**
          * Create dense basis.
-- 
2.43.0


From 024e6a11d5e17ab61bf5bd9cfd368547db65b2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 29/72] fix: small vector can append a copy of its own element

---
 cpp/lib_moment/utilities/small_vector.h | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/cpp/lib_moment/utilities/small_vector.h b/cpp/lib_moment/utilities/small_vector.h
index b87cb1d..6d1aaff 100644
--- a/cpp/lib_moment/utilities/small_vector.h
+++ b/cpp/lib_moment/utilities/small_vector.h
@@ -324,15 +324,8 @@ namespace Moment {
          */
         template<class... Args>
         void emplace_back(Args&&... args) {
-            // Check if we need to expand capacity
-            if (this->_size >= this->_capacity) {
-                this->reallocate(this->_size+1);
-            }
-
-            // Construct element in situ:
-            value_t * location = this->data_start + this->_size;
-            new(location) value_t(std::forward<Args>(args)...);
-            this->_size += 1;
+            // Construct first, because arguments might refer to elements within this vector
+            this->push_back(value_t(std::forward<Args>(args)...));
         }
 
         /**
-- 
2.43.0


From c4e77b7f830db28af6f891c90c6b0ddcd3354de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 30/72] fix: empty bit set can be filled and inverted

---
 cpp/lib_moment/utilities/dynamic_bitset.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/utilities/dynamic_bitset.h b/cpp/lib_moment/utilities/dynamic_bitset.h
index 6143edc..835e20d 100644
--- a/cpp/lib_moment/utilities/dynamic_bitset.h
+++ b/cpp/lib_moment/utilities/dynamic_bitset.h
@@ -101,7 +101,7 @@ namespace Moment {
         /** Construct an empty dynamic bitset with all values set to default_value */
         constexpr DynamicBitset(const index_t bit_size, const bool default_value)
             : DynamicBitset<page_t, index_t, storage_t>{bit_size} {
-            if (default_value) {
+            if (default_value && (page_count > 0)) {
                 for (index_t i = 0, iMax = page_count - 1; i < iMax; ++i) {
                     this->data[i] = ~static_cast<page_t>(0);
                 }
@@ -268,6 +268,12 @@ namespace Moment {
          */
         constexpr DynamicBitset<page_t, index_t, storage_t> operator~() const {
             DynamicBitset<page_t, index_t, storage_t> output{this->bit_size};
+
+            // Nothing to invert, if no data
+            if (this->page_count <= 0) {
+                return output;
+            }
+
             for (index_t page = 0; page < (this->page_count-1); ++page) {
                 output.data[page] = ~this->data[page];
             }
-- 
2.43.0


From ba432073d36c513ecc1094ce5c7d5aee5f4c870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 31/72] fix: access to entries of a recursive table returned a
 reference into a temporary copy

---
 cpp/lib_moment/utilities/recursive_index.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/utilities/recursive_index.h b/cpp/lib_moment/utilities/recursive_index.h
index 49f3002..260fee4 100644
--- a/cpp/lib_moment/utilities/recursive_index.h
+++ b/cpp/lib_moment/utilities/recursive_index.h
@@ -112,7 +112,7 @@ namespace Moment {
          * @return Reference to the stored value.
          */
         [[nodiscard]] constexpr const type_t& access(std::span<const size_t> indices) const noexcept {
-            auto place = subtree(indices);
+            const auto& place = subtree(indices);
             return place.access();
         }
 
-- 
2.43.0


From 72fa0cb3e283768f226b28f6aa16126a30b86ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 32/72] fix: number of combinations with repetition counted
 those without

---
 cpp/lib_moment/utilities/combinations.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/utilities/combinations.h b/cpp/lib_moment/utilities/combinations.h
index 32c4c0a..b8a0a58 100644
--- a/cpp/lib_moment/utilities/combinations.h
+++ b/cpp/lib_moment/utilities/combinations.h
@@ -139,7 +139,12 @@ namespace Moment {
         }
 
         [[nodiscard]] constexpr size_t combination_count() const noexcept {
-            return combinations(this->N, this->K);
+            if constexpr (inclusive) {
+                // Combinations with repetition; if K = 0, there is only the empty combination
+                return (this->K > 0) ? combinations(this->N + this->K - 1, this->K) : 1;
+            } else {
+                return combinations(this->N, this->K);
+            }
         }
 
     private:
-- 
2.43.0


From 8790ff2282a89a120b938300921d44ff84a21e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 33/72] fix: longest hashable string was overestimated for some
 radices

---
 cpp/lib_moment/shortlex_hasher.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/shortlex_hasher.h b/cpp/lib_moment/shortlex_hasher.h
index e650b0d..69e00ca 100644
--- a/cpp/lib_moment/shortlex_hasher.h
+++ b/cpp/lib_moment/shortlex_hasher.h
@@ -68,9 +68,16 @@ namespace Moment {
                 // Hash is basically just string length for radix 1.
                 return std::numeric_limits<size_t>::max() - this->offset;
             }
-            return static_cast<size_t>(
-                    static_cast<double>(std::numeric_limits<size_t>::digits) / std::log2(this->radix)
-            );
+            // Largest hash of a length n string is: offset + radix + radix^2 + ... + radix^n
+            hash_t remaining = std::numeric_limits<hash_t>::max() - this->offset;
+            hash_t block_size = 1;
+            size_t length = 0;
+            while ((this->radix != 0) && (block_size <= remaining / this->radix)) {
+                block_size *= this->radix;
+                remaining -= block_size;
+                ++length;
+            }
+            return length;
         }
     };
 }
\ No newline at end of file
-- 
2.43.0


From 9ae7565c2d290aea7db565a07b47a7196221c7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 34/72] fix: UTF-8 conversion of U+007F and of plane 16

---
 cpp/lib_moment/utilities/utf_conversion.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/utilities/utf_conversion.cpp b/cpp/lib_moment/utilities/utf_conversion.cpp
index 7c85d3e..d9195ee 100644
--- a/cpp/lib_moment/utilities/utf_conversion.cpp
+++ b/cpp/lib_moment/utilities/utf_conversion.cpp
@@ -15,7 +15,7 @@ namespace Moment {
     size_t UTF16toUTF8Convertor::size_in_utf8(const std::basic_string<char16_t> &wstring) {
         size_t output = 0;
         for (char16_t elem : wstring) {
-            if (elem < 0x007f) {
+            if (elem <= 0x007f) {
                 output += 1;
             } else if (elem <= 0x07FF) {
                 output += 2;
@@ -105,11 +105,11 @@ namespace Moment {
                     //W2 = 1101 11cc cc dd dddd      // 0xDC00 + xx xxxx xxxx
                     //
                     // As UTF8: 2+6+6+6 -> 20 bit
-                    //  1111 0[0]aa, 10bb bbbb, 10cc cccc, 10dd dddd
+                    //  1111 0aaa, 10bb bbbb, 10cc cccc, 10dd dddd
 
                     const char16_t surrogate_high = (src & 0x03FF) + 0x0040; // Correct for 0x10000 offset of code point
 
-                    const auto b0 = static_cast<char>( 0xf0 | ((surrogate_high & 0x0300) >> 8)); // 2 bits to first char
+                    const auto b0 = static_cast<char>( 0xf0 | ((surrogate_high & 0x0700) >> 8)); // 3 bits to first char
                     const auto b1 = static_cast<char>( 0x80 | ((surrogate_high & 0x00fc) >> 2)); // 6 bits to next char
                     const auto b2 = static_cast<char>( 0x80 | ((surrogate_high & 0x0003) << 4) // 2 from high
                                                             | ((surrogate_low & 0x03c0) >> 6));  // 4 from low
@@ -248,7 +248,7 @@ namespace Moment {
                     return output;
                 }
 
-                const auto b1 = src & 0x03; // 2
+                const auto b1 = src & 0x07; // 3
                 const auto b2 = *(src_ptr+1) & 0x3f; // 6
                 const auto b3 = *(src_ptr+2) & 0x3f; // 6
                 const auto b4 = *(src_ptr+3) & 0x3f; // 6
-- 
2.43.0


From 1ebcbc1e9bc74f0aed8953244d373a4b139d15d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 35/72] fix: rules equating a word with a phase times itself
 set the word to zero

---
 .../scenarios/algebraic/operator_rule.cpp      | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
index cd31409..c9c35b3 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
@@ -70,15 +70,29 @@ namespace Moment::Algebraic {
     OperatorRule::OperatorRule(HashedSequence lhs,
                                HashedSequence rhs)
             : rawLHS{std::move(lhs)}, rawRHS{std::move(rhs)},
-              map_to_zero(rhs.zero()),
+              map_to_zero{rawRHS.zero()},
               delta{static_cast<ptrdiff_t>(rawRHS.size()) - static_cast<ptrdiff_t>(rawLHS.size())} {
 
         // Move negation to RHS
         this->rawRHS.set_sign(difference(this->rawLHS.get_sign(), this->rawRHS.get_sign()));
         this->rawLHS.set_sign(SequenceSignType::Positive);
 
+        // There is only one zero
+        if (this->map_to_zero) {
+            this->rawRHS.set_sign(SequenceSignType::Positive);
+        }
+
         // Determine if rule is trivial
-        this->is_trivial = (this->rawLHS.hash() == this->rawRHS.hash()) && !this->rawRHS.negated();
+        if (this->rawLHS.hash() == this->rawRHS.hash()) {
+            if (this->rawRHS.get_sign() == SequenceSignType::Positive) {
+                this->is_trivial = true;
+            } else {
+                // X -> -X, or X -> +/-iX, can only be true if X is zero.
+                this->rawRHS = HashedSequence{true};
+                this->map_to_zero = true;
+                this->delta = -static_cast<ptrdiff_t>(this->rawLHS.size());
+            }
+        }
 
         // Check rule is a reduction
         if (rawLHS.hash() < rawRHS.hash()) {
-- 
2.43.0


From 1318efa713e2c23097fe34bfdd2d869e1bf77f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 36/72] fix: reduction of a signed identity kept no sign

---
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 52f50f8..acb7591 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -191,9 +191,7 @@ namespace Moment::Algebraic {
 
     HashedSequence OperatorRulebook::reduce(const HashedSequence& input) const {
         // Empty string, or empty rulebook, should just be forwarded
-        if (input.empty()) {
-            return HashedSequence{input.zero()};
-        } else if (this->monomialRules.empty()) {
+        if (input.empty() || this->monomialRules.empty()) {
             return input;
         }
 
-- 
2.43.0


From bfb57baa6a474518e9baeb918db8991112bdca93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 37/72] fix: completion considers every overlap, and
 self-overlaps, of rules; conjugation restarts at the first rule

---
 cpp/lib_moment/hashed_sequence.cpp            |  7 +-
 cpp/lib_moment/hashed_sequence.h              |  5 +-
 .../scenarios/algebraic/operator_rule.cpp     |  7 +-
 .../scenarios/algebraic/operator_rule.h       | 11 +++
 .../scenarios/algebraic/operator_rulebook.cpp | 86 ++++++++++++-------
 .../scenarios/algebraic/operator_rulebook.h   | 16 ++++
 6 files changed, 96 insertions(+), 36 deletions(-)

diff --git a/cpp/lib_moment/hashed_sequence.cpp b/cpp/lib_moment/hashed_sequence.cpp
index 18dd207..4643911 100644
--- a/cpp/lib_moment/hashed_sequence.cpp
+++ b/cpp/lib_moment/hashed_sequence.cpp
@@ -35,12 +35,13 @@ namespace Moment {
         return iter_end;
     }
 
-    [[nodiscard]] ptrdiff_t HashedSequence::suffix_prefix_overlap(const HashedSequence& rhs) const noexcept {
+    [[nodiscard]] ptrdiff_t HashedSequence::suffix_prefix_overlap(const HashedSequence& rhs,
+                                                                          const ptrdiff_t max_overlap) const noexcept {
         const auto& lhs = *this;
 
-        ptrdiff_t match_count = static_cast<ptrdiff_t>(std::min(lhs.size(), rhs.size()));
+        ptrdiff_t match_count = std::min(static_cast<ptrdiff_t>(std::min(lhs.size(), rhs.size())), max_overlap);
         // Early exit, if one string is null.
-        if (0 == match_count) {
+        if (match_count <= 0) {
             return 0;
         }
 
diff --git a/cpp/lib_moment/hashed_sequence.h b/cpp/lib_moment/hashed_sequence.h
index 53e832a..d5f4f50 100644
--- a/cpp/lib_moment/hashed_sequence.h
+++ b/cpp/lib_moment/hashed_sequence.h
@@ -16,6 +16,7 @@
 
 #include <concepts>
 #include <iosfwd>
+#include <limits>
 #include <span>
 #include <vector>
 
@@ -152,9 +153,11 @@ namespace Moment {
         /**
          * Returns the longest suffix of this sequence that is also a prefix of rhs
          * @param rhs The sequence, whose prefixes we consider
+         * @param max_overlap The longest overlap to consider.
          * @return The number of characters overlapping (if any).
          */
-        [[nodiscard]] ptrdiff_t suffix_prefix_overlap(const HashedSequence& rhs) const noexcept;
+        [[nodiscard]] ptrdiff_t suffix_prefix_overlap(
+            const HashedSequence& rhs, ptrdiff_t max_overlap = std::numeric_limits<ptrdiff_t>::max()) const noexcept;
 
         /** Begin iterator over operators */
         [[nodiscard]] constexpr auto begin() const noexcept  { return this->operators.cbegin(); }
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
index c9c35b3..3d4a85e 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
@@ -171,8 +171,13 @@ namespace Moment::Algebraic {
 
     std::optional<OperatorRule>
     OperatorRule::combine(const OperatorRule &other, const AlgebraicPrecontext& pc) const {
+        return this->combine(other, pc, this->LHS().suffix_prefix_overlap(other.rawLHS));
+    }
+
+    std::optional<OperatorRule>
+    OperatorRule::combine(const OperatorRule &other, const AlgebraicPrecontext& pc,
+                          const ptrdiff_t overlap_size) const {
         // First, do we have any overlap? If not, early exit.
-        ptrdiff_t overlap_size = this->LHS().suffix_prefix_overlap(other.rawLHS);
         if (overlap_size <= 0) {
             return std::nullopt;
         }
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.h b/cpp/lib_moment/scenarios/algebraic/operator_rule.h
index 740b8b2..722a1a5 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.h
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.h
@@ -78,6 +78,17 @@ namespace Moment::Algebraic {
         [[nodiscard]] std::optional<OperatorRule> combine(const OperatorRule& other,
                                                           const AlgebraicPrecontext& precontext) const;
 
+        /**
+         * Forms a new rule by combining left-hand-sides of rules, that overlap by a specific number of characters.
+         * @param other The rule to combine this with.
+         * @param hasher The hash function, for generating new rule.
+         * @param overlap_size The size of the overlap.
+         * @return The new rule, if overlap is nonzero, empty otherwise.
+         */
+        [[nodiscard]] std::optional<OperatorRule> combine(const OperatorRule& other,
+                                                          const AlgebraicPrecontext& precontext,
+                                                          ptrdiff_t overlap_size) const;
+
         /**
          * True, if this rule directly implies the supplied other rule.
          */
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index acb7591..3fa26be 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -464,6 +464,45 @@ namespace Moment::Algebraic {
         return number_reduced;
     }
 
+    std::optional<OperatorRule>
+    OperatorRulebook::try_combine(const OperatorRule& ruleA, const OperatorRule& ruleB) const {
+        // Start from the largest overlap - but a rule overlaps trivially with the whole of itself.
+        auto overlap_size = (&ruleA != &ruleB) ? ruleA.LHS().suffix_prefix_overlap(ruleB.LHS())
+                                               : ruleA.LHS().suffix_prefix_overlap(ruleB.LHS(),
+                                                        static_cast<ptrdiff_t>(ruleA.LHS().size()) - 1);
+
+        while (overlap_size > 0) {
+            // Combine, and reduce new rule
+            auto combined_reduced_rule = this->reduce(ruleA.combine(ruleB, this->precontext, overlap_size).value());
+            if (!combined_reduced_rule.trivial()) {
+                return combined_reduced_rule;
+            }
+
+            // Otherwise, try next largest overlap
+            overlap_size = ruleA.LHS().suffix_prefix_overlap(ruleB.LHS(), overlap_size - 1);
+        }
+        return std::nullopt;
+    }
+
+    bool OperatorRulebook::agrees_when_contained(const OperatorRule& outer, const OperatorRule& inner) const {
+        const auto& outer_string = outer.LHS().raw();
+        const auto via_outer = this->reduce(outer.RHS());
+
+        auto match_iter = inner.matches_anywhere(outer_string.begin(), outer_string.end());
+        while (match_iter != outer_string.end()) {
+            const auto via_inner = inner.implies_zero()
+                    ? HashedSequence{true}
+                    : this->reduce(HashedSequence{inner.apply_match_with_hint(outer_string, match_iter),
+                                                  this->precontext.hasher, inner.rule_sign()});
+            if ((via_inner.hash() != via_outer.hash())
+                || (!via_inner.zero() && (via_inner.get_sign() != via_outer.get_sign()))) {
+                return false;
+            }
+            match_iter = inner.matches_anywhere(match_iter + 1, outer_string.end());
+        }
+        return true;
+    }
+
     bool OperatorRulebook::is_complete(const bool test_cc) const {
         // Look for CC rules
         if (test_cc && this->mock_conjugate()) {
@@ -475,24 +514,15 @@ namespace Moment::Algebraic {
             auto &ruleA = iterA->second;
             for (auto iterB = this->monomialRules.begin(); iterB != this->monomialRules.end(); ++iterB) {
                 auto &ruleB = iterB->second;
-                // Don't compare to self
-                if (iterB == iterA) {
-                    continue;
-                }
 
-                // Can we form a rule by combining?
-                auto maybe_combined_rule = ruleA.combine(ruleB, this->precontext);
-                if (!maybe_combined_rule.has_value()) {
-                    continue;
+                // Can we form a non-trivial rule by combining?
+                if (!this->try_combine(ruleA, ruleB).has_value()) {
+                    // Does applying rule B within the LHS of rule A (if possible) give the same result as rule A?
+                    if ((iterA == iterB) || this->agrees_when_contained(ruleA, ruleB)) {
+                        continue;
+                    }
                 }
 
-                // Reduce new rule
-                auto combined_reduced_rule = this->reduce(maybe_combined_rule.value());
-
-                // Is the new rule trivial?
-                if (combined_reduced_rule.trivial()) {
-                    continue;
-                }
                 // Not complete: a non-trivial rule was found
                 return false;
             }
@@ -511,24 +541,13 @@ namespace Moment::Algebraic {
             auto& ruleA = iterA->second;
             for (auto iterB = this->monomialRules.begin(); iterB != this->monomialRules.end(); ++iterB) {
                 auto& ruleB = iterB->second;
-                // Don't compare to self
-                if (iterB == iterA) {
-                    continue;
-                }
 
-                // Can we form a rule by combining?
-                auto maybe_combined_rule = ruleA.combine(ruleB, this->precontext);
+                // Can we form a non-trivial rule by combining?
+                auto maybe_combined_rule = this->try_combine(ruleA, ruleB);
                 if (!maybe_combined_rule.has_value()) {
                     continue;
                 }
-
-                // Reduce new rule
-                auto combined_reduced_rule = this->reduce(maybe_combined_rule.value());
-
-                // Is the new rule trivial?
-                if (combined_reduced_rule.trivial()) {
-                    continue;
-                }
+                auto& combined_reduced_rule = maybe_combined_rule.value();
 
                 // Non-trivial, add it to rule set
                 if (logger) {
@@ -578,6 +597,7 @@ namespace Moment::Algebraic {
                 // A new rule was added, iter is de facto invalidated, so restart at beginning of set...
                 rule_iter = this->rules().begin();
                 ++added;
+                continue;
             }
             // No new rule, try next rule in set...
             ++rule_iter;
@@ -596,12 +616,16 @@ namespace Moment::Algebraic {
             return false;
         }
 
+        // Reject rule if already known (i.e. the contradiction I -> 0, since the identity itself is never reduced).
+        size_t rule_hash = conj_reduced_rule.LHS().hash();
+        if (this->monomialRules.contains(rule_hash)) {
+            return false;
+        }
+
         // Otherwise, add reduced rule to set
         if (logger) {
             logger->rule_introduced_conjugate(rule, conj_reduced_rule);
         }
-
-        size_t rule_hash = conj_reduced_rule.LHS().hash();
         this->monomialRules.insert(std::make_pair(rule_hash, std::move(conj_reduced_rule)));
 
         // Reduce ruleset
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h
index 95c709c..7f2733a 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.h
@@ -13,6 +13,7 @@
 
 #include <iosfwd>
 #include <map>
+#include <optional>
 #include <span>
 #include <vector>
 
@@ -131,6 +132,21 @@ namespace Moment::Algebraic {
          */
         [[nodiscard]] bool is_complete(bool test_cc = true) const;
 
+    private:
+        /**
+         * Look for a non-trivial rule, formed by combining two rules (or a rule with itself), at any overlap.
+         * @return The reduced new rule, or nullopt if no non-trivial rule can be made.
+         */
+        [[nodiscard]] std::optional<OperatorRule> try_combine(const OperatorRule& ruleA,
+                                                              const OperatorRule& ruleB) const;
+
+        /**
+         * True, unless the LHS of the outer rule can be reduced by the inner rule to a different result.
+         */
+        [[nodiscard]] bool agrees_when_contained(const OperatorRule& outer, const OperatorRule& inner) const;
+
+    public:
+
         /**
          * Identify, for a string of given length, how best to reduce it.
          * @param string_length
-- 
2.43.0


From dd06404f2e7ce76d026f19e970920ac6d27e3f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:11 +0000
Subject: [PATCH 38/72] fix: representations of symmetries ignored the signs of
 products of words

---
 .../symmetrized/representation_mapper.cpp     | 62 ++++++++++++++-----
 1 file changed, 45 insertions(+), 17 deletions(-)

diff --git a/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp b/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp
index 763e65d..255254c 100644
--- a/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp
+++ b/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp
@@ -20,6 +20,8 @@
 #include <unsupported/Eigen/KroneckerProduct>
 
 #include <stdexcept>
+#include <tuple>
+#include <utility>
 
 namespace Moment::Symmetrized {
 
@@ -30,10 +32,29 @@ namespace Moment::Symmetrized {
             return osg.size();
         }
 
-        std::vector<size_t> vector_remap(const Context& context,
-                                         const size_t lhs_word_length,
-                                         const size_t rhs_word_length,
-                                         const size_t target_word_length) {
+        /**
+         * Real part of sign. (Representations are real, so imaginary contributions must cancel each other.)
+         */
+        [[nodiscard]] constexpr double real_sign(const SequenceSignType sign) noexcept {
+            switch (sign) {
+                case SequenceSignType::Positive:
+                    return 1.0;
+                case SequenceSignType::Negative:
+                    return -1.0;
+                default:
+                    return 0.0;
+            }
+        }
+
+        /**
+         * @return Pair: first, for each product, index+1 of the resulting word, or 0 if product is zero;
+         *               second, for each product, real part of the sign it picks up.
+         */
+        std::pair<std::vector<size_t>, std::vector<double>>
+        vector_remap(const Context& context,
+                     const size_t lhs_word_length,
+                     const size_t rhs_word_length,
+                     const size_t target_word_length) {
             assert(lhs_word_length + rhs_word_length == target_word_length);
             assert(lhs_word_length >= rhs_word_length);
 
@@ -51,6 +72,7 @@ namespace Moment::Symmetrized {
             }
 
             std::vector<size_t> output;
+            std::vector<double> signs;
 
             // Now, get parents OSGs.
             const auto& lhs_osg = context.operator_sequence_generator(lhs_word_length);
@@ -62,27 +84,30 @@ namespace Moment::Symmetrized {
                     const auto remap_iter = hash_to_index.find(combined.hash());
                     assert(remap_iter != hash_to_index.cend());
                     output.emplace_back(remap_iter->second);
+                    signs.emplace_back(real_sign(combined.get_sign()));
                 }
             }
 
-            return output;
+            return {std::move(output), std::move(signs)};
         }
 
 
         /**
          * Matrix to sum rows
          */
-        RepresentationMapper::lhs_mat_t make_lhs(const std::vector<size_t>& remap, size_t raw_dim, size_t remapped_dim) {
+        RepresentationMapper::lhs_mat_t make_lhs(const std::vector<size_t>& remap, const std::vector<double>& signs,
+                                                 size_t raw_dim, size_t remapped_dim) {
             assert(raw_dim == remap.size());
+            assert(raw_dim == signs.size());
             RepresentationMapper::lhs_mat_t output(static_cast<int>(remapped_dim), static_cast<int>(raw_dim)); // rows, cols
             std::vector<Eigen::Triplet<double>> triplets;
 
             size_t raw_index = 0;
             for (const auto mapped_index : remap) {
-                if (mapped_index > 0) {
+                if ((mapped_index > 0) && (signs[raw_index] != 0.0)) {
                     triplets.emplace_back(static_cast<int>(mapped_index - 1),   // row
                                           static_cast<int>(raw_index), // col
-                                          1.0);
+                                          signs[raw_index]);
                 }
                 ++raw_index;
             }
@@ -96,8 +121,10 @@ namespace Moment::Symmetrized {
         /**
          * Matrix to skip columns
          */
-        RepresentationMapper::rhs_mat_t make_rhs(const std::vector<size_t>& remap, size_t raw_dim, size_t remapped_dim) {
+        RepresentationMapper::rhs_mat_t make_rhs(const std::vector<size_t>& remap, const std::vector<double>& signs,
+                                                 size_t raw_dim, size_t remapped_dim) {
             assert(raw_dim == remap.size());
+            assert(raw_dim == signs.size());
             RepresentationMapper::rhs_mat_t output(static_cast<int>(raw_dim), static_cast<int>(remapped_dim)); // rows, cols
             std::vector<Eigen::Triplet<double>> triplets;
 
@@ -106,7 +133,7 @@ namespace Moment::Symmetrized {
             size_t true_index = 0;
 
             for (const auto mapped_index : remap) {
-                if (mapped_index > 0) {
+                if ((mapped_index > 0) && (signs[true_index] > 0.0)) {
                     if (!done_map.test(mapped_index-1)) {
                         triplets.emplace_back(static_cast<int>(true_index),   // row
                                               static_cast<int>(mapped_index-1), // col
@@ -158,13 +185,14 @@ namespace Moment::Symmetrized {
         this->remapped_dim = osg.size();
 
         // Make vector remap
-        this->remap = vector_remap(context,
-                                   parent_A.target_word_length,
-                                   parent_B.target_word_length,
-                                   this->target_word_length);
-
-        this->lhs = make_lhs(this->remap, this->raw_dim, this->remapped_dim);
-        this->rhs = make_rhs(this->remap, this->raw_dim, this->remapped_dim);
+        std::vector<double> signs;
+        std::tie(this->remap, signs) = vector_remap(context,
+                                                    parent_A.target_word_length,
+                                                    parent_B.target_word_length,
+                                                    this->target_word_length);
+
+        this->lhs = make_lhs(this->remap, signs, this->raw_dim, this->remapped_dim);
+        this->rhs = make_rhs(this->remap, signs, this->raw_dim, this->remapped_dim);
     }
 
     repmat_t RepresentationMapper::operator()(const repmat_t &matrix) const {
-- 
2.43.0


From bade771229257a71b85f07393cca60db9d7ff71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:11 +0000
Subject: [PATCH 39/72] fix: group enumeration did not stop at its bound after
 the first generator

---
 cpp/lib_moment/scenarios/symmetrized/group.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cpp/lib_moment/scenarios/symmetrized/group.cpp b/cpp/lib_moment/scenarios/symmetrized/group.cpp
index 00f1d3d..9b0e7d8 100644
--- a/cpp/lib_moment/scenarios/symmetrized/group.cpp
+++ b/cpp/lib_moment/scenarios/symmetrized/group.cpp
@@ -166,6 +166,9 @@ namespace Moment::Symmetrized {
 
             // Apply generator to every element in set so far
             const size_t previous_order = elements.size();
+            if (2 * previous_order > max_subgroup_size) {
+                throw std::runtime_error{"Maximum subgroup size reached, but group was not completed."};
+            }
             elements.reserve(previous_order*2);
             for (size_t prev_index = 0; prev_index < previous_order; ++prev_index) {
                 const auto& prev_elem = elements[prev_index];
@@ -185,6 +188,11 @@ namespace Moment::Symmetrized {
                         continue;
                     }
 
+                    // Check we are within bounds
+                    if (elements.size() + previous_order > max_subgroup_size) {
+                        throw std::runtime_error{"Maximum subgroup size reached, but group was not completed."};
+                    }
+
                     // Add new coset
                     elements.reserve(elements.size() + previous_order);
                     for (size_t idx = 0; idx < previous_order; ++idx) {
-- 
2.43.0


From ee40bb577727c4bb9b341df7600d6272f4b98a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:11 +0000
Subject: [PATCH 40/72] fix: dictionary took words with an aliased moment for
 conjugates

---
 cpp/lib_moment/dictionary/dictionary_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/dictionary/dictionary_map.cpp b/cpp/lib_moment/dictionary/dictionary_map.cpp
index ed282a7..ba14fad 100644
--- a/cpp/lib_moment/dictionary/dictionary_map.cpp
+++ b/cpp/lib_moment/dictionary/dictionary_map.cpp
@@ -44,7 +44,7 @@ namespace Moment {
             const auto& seq = *iter;
             const auto datum = symbols.where(seq);
             assert(datum.found());
-            const bool isConjugated = (seq != datum->sequence());
+            const bool isConjugated = datum.is_conjugated;
             this->symbol_map.emplace_back((isConjugated ? -1 : 1) * datum->Id());
         }
 
-- 
2.43.0


From 0719956700abb3d66cc0264996f3a4a9ff564d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:11 +0000
Subject: [PATCH 41/72] fix: mapping a conjugated monomial conjugated its
 factor too

---
 cpp/lib_moment/scenarios/derived/symbol_table_map.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
index 5a4371c..a226ad2 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
@@ -214,10 +214,10 @@ namespace Moment::Derived {
         Polynomial output = (*this)(symbol.id);
 
         // Apply transformations (using target symbol table)
-        output *= symbol.factor;
         if (symbol.conjugated) {
             output.conjugate_in_place(this->target_symbols);
         }
+        output *= symbol.factor;
 
         return output;
     }
@@ -284,10 +284,10 @@ namespace Moment::Derived {
         Polynomial output = this->inverse(symbol.id);
 
         // Apply transformations (using origin symbol table)
-        output *= symbol.factor;
         if (symbol.conjugated) {
             output.conjugate_in_place(this->origin_symbols);
         }
+        output *= symbol.factor;
 
         return output;
     }
-- 
2.43.0


From 30c42757684e3f819133fc36335c1449af711d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:11 +0000
Subject: [PATCH 42/72] fix: moments of words too long for a symbol map were
 mapped to zero

---
 cpp/lib_moment/scenarios/derived/symbol_table_map.cpp | 10 +++++++++-
 cpp/lib_moment/scenarios/derived/symbol_table_map.h   |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
index a226ad2..8cbc7ae 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
@@ -100,6 +100,14 @@ namespace Moment::Derived {
         // Check core and solution match.
         this->core->check_solution(*this->core_solution);
 
+        // Only those symbols that appear in the core can be mapped:
+        this->mapped.assign(origin_symbols.size(), false);
+        this->mapped[0] = true;
+        this->mapped[1] = true;
+        for (const auto symbol_id : osg_to_symbols) {
+            this->mapped[symbol_id] = true;
+        }
+
         // First, build fixed constants.
         this->map.assign(origin_symbols.size(), Polynomial{}); // 0 -> 0 always
         this->map[0] = Polynomial{};      // 0 -> 0 always.
@@ -199,7 +207,7 @@ namespace Moment::Derived {
 
     const Polynomial& SymbolTableMap::operator()(symbol_name_t symbol_id) const {
         // Bounds check
-        if ((symbol_id < 0) || (symbol_id >= this->map.size())) {
+        if ((symbol_id < 0) || (symbol_id >= this->map.size()) || !this->mapped[symbol_id]) {
             std::stringstream ss;
             ss << "Symbol " << symbol_id << " not defined in implied map.";
             throw errors::bad_map{ss.str()};
diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.h b/cpp/lib_moment/scenarios/derived/symbol_table_map.h
index 6a8fdd0..366c7d1 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.h
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.h
@@ -43,6 +43,7 @@ namespace Moment {
             SymbolTable& target_symbols;
 
             std::vector<Polynomial> map;
+            std::vector<bool> mapped;
             std::vector<Polynomial> inverse_map;
             bool _is_monomial_map = false;
 
-- 
2.43.0


From 403d1eefdee1c184bc6671e9e1cbc50cc2d92a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:11 +0000
Subject: [PATCH 43/72] fix: symbol maps mixed up moments with signs, aliases
 and conjugates

Words whose moments are equal (up to sign) are now combined before the map is solved. If the resulting
symbols are not independent of each other's conjugates, then real and imaginary parts are mapped separately,
so that the forward map undoes the inverse map.
---
 cpp/lib_moment/dictionary/dictionary_map.cpp  |  16 +-
 cpp/lib_moment/dictionary/dictionary_map.h    |  10 +
 .../scenarios/derived/symbol_table_map.cpp    | 213 +++++++++++++++---
 .../scenarios/derived/symbol_table_map.h      |  16 +-
 4 files changed, 224 insertions(+), 31 deletions(-)

diff --git a/cpp/lib_moment/dictionary/dictionary_map.cpp b/cpp/lib_moment/dictionary/dictionary_map.cpp
index ba14fad..bde04c1 100644
--- a/cpp/lib_moment/dictionary/dictionary_map.cpp
+++ b/cpp/lib_moment/dictionary/dictionary_map.cpp
@@ -20,6 +20,7 @@ namespace Moment {
         : context{context}, symbols{symbols}, symbol_map_max_length{0} {
         // Initially, all we know is that index 0 of generator maps to symbol 1 (e).
         this->symbol_map.emplace_back(1);
+        this->symbol_signs.emplace_back(SequenceSignType::Positive);
     }
 
     bool DictionaryMap::update_if_necessary(size_t desired_length) {
@@ -46,6 +47,9 @@ namespace Moment {
             assert(datum.found());
             const bool isConjugated = datum.is_conjugated;
             this->symbol_map.emplace_back((isConjugated ? -1 : 1) * datum->Id());
+            this->symbol_signs.emplace_back(difference((isConjugated ? datum->sequence_conj()
+                                                                     : datum->sequence()).get_sign(),
+                                                       seq.get_sign()));
         }
 
         assert(this->symbol_map.size() == promised_osg.size());
@@ -73,4 +77,14 @@ namespace Moment {
         }
         return {val, false};
     }
-}
\ No newline at end of file
+
+    SequenceSignType DictionaryMap::sign(size_t index) const {
+        std::shared_lock read_lock = this->get_read_lock();
+        if (index >= this->symbol_signs.size()) {
+            std::stringstream errSS;
+            errSS << "Symbol at index " << index << " not yet defined.";
+            throw std::range_error{errSS.str()};
+        }
+        return this->symbol_signs[index];
+    }
+}
diff --git a/cpp/lib_moment/dictionary/dictionary_map.h b/cpp/lib_moment/dictionary/dictionary_map.h
index 7be4e51..224df24 100644
--- a/cpp/lib_moment/dictionary/dictionary_map.h
+++ b/cpp/lib_moment/dictionary/dictionary_map.h
@@ -11,6 +11,8 @@
 
 #include "integer_types.h"
 
+#include "sequence_sign_type.h"
+
 #include "multithreading/maintains_mutex.h"
 
 #include <atomic>
@@ -32,6 +34,7 @@ namespace Moment {
         const SymbolTable& symbols;
         std::atomic<size_t> symbol_map_max_length;
         std::vector<symbol_name_t> symbol_map;
+        std::vector<SequenceSignType> symbol_signs;
 
     public:
         explicit DictionaryMap(const Context& context, const SymbolTable& symbols);
@@ -61,6 +64,13 @@ namespace Moment {
          * @return Pair, first: symbol id, second: true if symbol is conjugated.
          */
         std::pair<symbol_name_t, bool> operator()(size_t index) const;
+
+        /**
+         * Get the factor relating an operator sequence to the (possibly conjugated) symbol that represents it.
+         * @param index The index an operator sequence generator
+         * @return The factor, such that the moment of the sequence is the symbol's value multiplied by this factor.
+         */
+        SequenceSignType sign(size_t index) const;
     };
 
 }
\ No newline at end of file
diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
index 8cbc7ae..6c91aef 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
@@ -19,6 +19,9 @@
 #include "utilities/dynamic_bitset.h"
 #include "utilities/float_utils.h"
 
+#include <Eigen/LU>
+
+#include <algorithm>
 #include <limits>
 #include <ranges>
 #include <sstream>
@@ -41,6 +44,106 @@ namespace Moment::Derived {
             }
             return output;
         }
+
+        /**
+         * Express map of words as a map of moments.
+         * Words with the same moment are combined to the index of the first such word.
+         * @return Pair: first, the folded map; second, the indices that are no longer in use.
+         */
+        std::pair<Eigen::MatrixXd, DynamicBitset<size_t>>
+        fold_by_moment(const SymbolTable& origin_symbols, const Eigen::MatrixXd& src,
+                       const std::vector<symbol_name_t>& symbols, const DynamicBitset<size_t>& conjugates) {
+            const auto dimension = src.cols();
+            if (src.rows() > dimension) {
+                throw errors::bad_map{"Map cannot have more outputs than inputs."};
+            }
+
+            auto output = std::make_pair(Eigen::MatrixXd{Eigen::MatrixXd::Zero(dimension, dimension)},
+                                         DynamicBitset<size_t>{static_cast<size_t>(dimension), false});
+            auto& [folded, unused] = output;
+            std::map<std::pair<symbol_name_t, bool>, Eigen::Index> first_index;
+            std::vector<double> signs;
+            signs.reserve(dimension);
+            for (Eigen::Index index = 0; index < dimension; ++index) {
+                const bool conjugate = conjugates.test(index);
+                const auto [iter, is_new] = first_index.emplace(std::make_pair(symbols[index], conjugate), index);
+                if (!is_new) {
+                    unused.set(index);
+                }
+                const auto sign = origin_symbols.OSGIndex.sign(index);
+                if (is_imaginary(sign)) {
+                    throw errors::bad_map{"Moments related by an imaginary factor cannot be mapped."};
+                }
+                signs.emplace_back(is_negative(sign) ? -1.0 : 1.0);
+                if (index < src.rows()) {
+                    folded.row(iter->second) += signs.back() * src.row(index);
+                }
+            }
+            for (Eigen::Index index = 0; index < dimension; ++index) {
+                folded.col(index) *= signs[index];
+            }
+            return output;
+        }
+
+        /**
+         * Express map of moments as a map of the Hermitian and anti-Hermitian parts of the moments.
+         * If <X> and <X>* have distinct indices, the former index becomes the Hermitian part of <X>, and the latter
+         * becomes the anti-Hermitian part.
+         */
+        void split_by_hermiticity(Eigen::MatrixXd& folded, const std::vector<symbol_name_t>& symbols,
+                                  const DynamicBitset<size_t>& conjugates, const DynamicBitset<size_t>& unused) {
+            std::map<symbol_name_t, Eigen::Index> direct_index;
+            for (Eigen::Index index = 0; index < folded.cols(); ++index) {
+                if (!conjugates.test(index) && !unused.test(index)) {
+                    direct_index.emplace(symbols[index], index);
+                }
+            }
+
+            for (Eigen::Index index = 0; index < folded.cols(); ++index) {
+                if (!conjugates.test(index) || unused.test(index)) {
+                    continue;
+                }
+                const auto direct = direct_index.find(symbols[index]);
+                if (direct == direct_index.end()) {
+                    throw errors::bad_map{"Map must be defined on every moment whose conjugate is mapped."};
+                }
+                const Eigen::RowVectorXd direct_row = folded.row(direct->second);
+                const Eigen::RowVectorXd conj_row = folded.row(index);
+                folded.row(direct->second) = direct_row + conj_row;
+                folded.row(index) = direct_row - conj_row;
+                const Eigen::VectorXd direct_col = folded.col(direct->second);
+                const Eigen::VectorXd conj_col = folded.col(index);
+                folded.col(direct->second) = 0.5 * (direct_col + conj_col);
+                folded.col(index) = 0.5 * (direct_col - conj_col);
+            }
+        }
+
+        /** Number target symbols in the order they are first required by the source. */
+        void order_by_first_use(SolvedMapCore& solution) {
+            const auto& map = solution.dense_map;
+            std::vector<std::pair<Eigen::Index, Eigen::Index>> first_use;
+            first_use.reserve(map.cols());
+            for (Eigen::Index col = 0; col < map.cols(); ++col) {
+                Eigen::Index row = 0;
+                while ((row < map.rows()) && approximately_zero(map(row, col))) {
+                    ++row;
+                }
+                first_use.emplace_back(row, col);
+            }
+            std::sort(first_use.begin(), first_use.end());
+
+            Eigen::MatrixXd ordered_map(map.rows(), map.cols());
+            Eigen::MatrixXd ordered_inv_map(solution.dense_inv_map.rows(), solution.dense_inv_map.cols());
+            for (Eigen::Index index = 0; index < map.cols(); ++index) {
+                ordered_map.col(index) = map.col(first_use[index].second);
+                ordered_inv_map.row(index) = solution.dense_inv_map.row(first_use[index].second);
+            }
+            solution.dense_map = std::move(ordered_map);
+            solution.dense_inv_map = std::move(ordered_inv_map);
+        }
+
+        /** Multiple of machine epsilon, below which elements of map are taken to be zero. */
+        constexpr double map_zero_tolerance = 100.0;
     }
 
 
@@ -63,7 +166,7 @@ namespace Moment::Derived {
         }
 
         auto [osg_to_sym, conjugates] = unzip_indices(this->origin_symbols, this->core->initial_size);
-        this->construct_map(osg_to_sym, conjugates);
+        this->construct_map(osg_to_sym, conjugates, false);
         this->populate_target_symbols();
     }
 
@@ -72,28 +175,40 @@ namespace Moment::Derived {
         : origin_symbols{origin}, target_symbols{target} {
 
         auto [osg_to_sym, conjugates] = unzip_indices(this->origin_symbols, src.cols());
+        auto [folded, unused] = fold_by_moment(this->origin_symbols, src, osg_to_sym, conjugates);
 
-        this->core = std::make_unique<DenseMapCore>(conjugates, src);
+        // Try to map moments directly
+        auto skipped = unused;
+        for (const auto index : conjugates) {
+            skipped.set(index);
+        }
+        this->core = std::make_unique<DenseMapCore>(skipped, folded, map_zero_tolerance);
         this->core_solution = core->accept(processor);
-        this->construct_map(osg_to_sym, conjugates);
+        this->construct_map(osg_to_sym, conjugates, false);
+
+        // If symbols are not independent of each others' conjugates, map real and imaginary parts separately instead
+        if (!conjugates.empty()) {
+            const DenseMapCore full_core{unused, folded, map_zero_tolerance};
+            if (this->count_real_parameters() > Eigen::FullPivLU<Eigen::MatrixXd>{full_core.core}.rank()) {
+                split_by_hermiticity(folded, osg_to_sym, conjugates, unused);
+                this->core = std::make_unique<DenseMapCore>(unused, folded, map_zero_tolerance);
+                this->core_solution = core->accept(processor);
+                order_by_first_use(*this->core_solution);
+                this->construct_map(osg_to_sym, conjugates, true);
+            }
+        }
+
         this->populate_target_symbols();
     }
 
     SymbolTableMap::SymbolTableMap(const SymbolTable& origin, SymbolTable& target,
                                    const MapCoreProcessor& processor, const Eigen::SparseMatrix<double>& src)
-        : origin_symbols{origin}, target_symbols{target} {
-
-        auto [osg_to_sym, conjugates] = unzip_indices(this->origin_symbols, src.cols());
-
-        this->core = std::make_unique<DenseMapCore>(conjugates, src);
-        this->core_solution = core->accept(processor);
-        this->construct_map(osg_to_sym, conjugates);
-        this->populate_target_symbols();
-    }
+        : SymbolTableMap{origin, target, processor, Eigen::MatrixXd{src}} { }
 
 
     void SymbolTableMap::construct_map(const std::vector<symbol_name_t>& osg_to_symbols,
-                                       const DynamicBitset<size_t>& osg_conjugate) {
+                                       const DynamicBitset<size_t>& osg_conjugate,
+                                       const bool split) {
         assert(this->core);
         assert(this->core_solution);
 
@@ -108,16 +223,16 @@ namespace Moment::Derived {
             this->mapped[symbol_id] = true;
         }
 
-        // First, build fixed constants.
-        this->map.assign(origin_symbols.size(), Polynomial{}); // 0 -> 0 always
-        this->map[0] = Polynomial{};      // 0 -> 0 always.
-        this->map[1] = Polynomial::Scalar(1.0); // 1 -> 1 always.
+        // Zero and identity are always mapped to zero and identity
+        std::vector<Polynomial::storage_t> map_data(origin_symbols.size());
+        map_data[1].emplace_back(static_cast<symbol_name_t>(1), 1.0);
 
         // Create scalars remap:
         for (auto [row_id, scalar] : this->core->constants) {
-            auto [symbol_id, conjugated] = origin_symbols.OSGIndex(row_id);
-            assert(!conjugated);
-            this->map[symbol_id] = Polynomial::Scalar(scalar);
+            assert(split || !osg_conjugate.test(row_id));
+            if (!approximately_zero(scalar)) {
+                map_data[osg_to_symbols[row_id]].emplace_back(static_cast<symbol_name_t>(1), scalar);
+            }
         }
 
         const auto& raw_map = this->core_solution->dense_map;
@@ -127,9 +242,7 @@ namespace Moment::Derived {
         Eigen::Index core_col_id = 0;
         for (auto non_trivial_idx : this->core->nontrivial_cols) {
 
-            const symbol_name_t source_symbol = osg_to_symbols[non_trivial_idx];
-
-            Polynomial::storage_t from_x_to_y;
+            auto& from_x_to_y = map_data[osg_to_symbols[non_trivial_idx]];
 
             // Constant offset, if any:
             const double offset = this->core->core_offset[core_col_id];
@@ -146,17 +259,30 @@ namespace Moment::Derived {
                     from_x_to_y.emplace_back(as_symbol, value);
                 }
             }
-
-            // Create mapping
-            this->map[source_symbol] = Polynomial{std::move(from_x_to_y)};
             ++core_col_id;
         }
 
+        // Create mapping
+        this->map.clear();
+        this->map.reserve(map_data.size());
+        for (auto& from_x_to_y : map_data) {
+            this->map.emplace_back(std::move(from_x_to_y));
+        }
+
         // Check if map is monomial
         this->_is_monomial_map = std::all_of(this->map.cbegin(), this->map.cend(),
                                             [](const auto& combo) { return combo.is_monomial(); });
 
+        // If Hermitian and anti-Hermitian parts are mapped separately, find which moments have both
+        std::set<symbol_name_t> split_symbols;
+        if (split) {
+            for (const auto index : osg_conjugate) {
+                split_symbols.emplace(osg_to_symbols[index]);
+            }
+        }
+
         // Create reverse map:
+        this->inverse_map.clear();
         this->inverse_map.reserve(2 + this->core_solution->output_symbols);
         this->inverse_map.emplace_back(Polynomial{});      // 0 -> 0 always.
         this->inverse_map.emplace_back(Polynomial::Scalar(1.0)); // 1 -> 1 always.
@@ -170,7 +296,15 @@ namespace Moment::Derived {
                 const double value = raw_inv_map(im_row_id, im_col_id);
                 if (abs(value) != 0.0) {
                     // Map: Core index -> osg index -> symbol table ID
-                    from_y_to_x.emplace_back(osg_to_symbols[non_trivial_idx], value, osg_conjugate[non_trivial_idx]);
+                    const auto symbol_id = osg_to_symbols[non_trivial_idx];
+                    if (!split_symbols.contains(symbol_id)) {
+                        from_y_to_x.emplace_back(symbol_id, value, osg_conjugate.test(non_trivial_idx));
+                    } else {
+                        // Hermitian part is (X + X*)/2; anti-Hermitian part is (X - X*)/2.
+                        from_y_to_x.emplace_back(symbol_id, 0.5 * value, false);
+                        from_y_to_x.emplace_back(symbol_id, osg_conjugate.test(non_trivial_idx) ? -0.5 * value
+                                                                                                : 0.5 * value, true);
+                    }
                 }
                 ++ im_col_id;
             }
@@ -193,8 +327,8 @@ namespace Moment::Derived {
         }
 
         for (const auto& polynomial : this->inverse_map | std::views::drop(2)) {
-            const bool is_hermitian = polynomial.is_hermitian(this->origin_symbols, 1.0);
-            this->target_symbols.create(true, !is_hermitian);
+            const auto [has_real, has_imaginary] = this->real_or_imaginary(polynomial);
+            this->target_symbols.create(has_real, has_imaginary);
         }
 
         assert(this->target_symbols.size() == this->inverse_map.size());
@@ -202,6 +336,27 @@ namespace Moment::Derived {
 
 
 
+    std::pair<bool, bool> SymbolTableMap::real_or_imaginary(const Polynomial& polynomial) const {
+        const bool is_hermitian = polynomial.is_hermitian(this->origin_symbols, map_zero_tolerance);
+
+        // P is anti-Hermitian exactly when iP is Hermitian
+        auto rotated = polynomial;
+        rotated *= std::complex<double>{0.0, 1.0};
+        const bool is_antihermitian = !is_hermitian
+                                      && rotated.is_hermitian(this->origin_symbols, map_zero_tolerance);
+
+        return {!is_antihermitian, !is_hermitian};
+    }
+
+    Eigen::Index SymbolTableMap::count_real_parameters() const {
+        Eigen::Index count = 0;
+        for (const auto& polynomial : this->inverse_map | std::views::drop(2)) {
+            const auto [has_real, has_imaginary] = this->real_or_imaginary(polynomial);
+            count += (has_real ? 1 : 0) + (has_imaginary ? 1 : 0);
+        }
+        return count;
+    }
+
     SymbolTableMap::~SymbolTableMap() noexcept = default;
 
 
diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.h b/cpp/lib_moment/scenarios/derived/symbol_table_map.h
index 366c7d1..98e78a4 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.h
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.h
@@ -73,14 +73,28 @@ namespace Moment {
              * Use core and solution to build map.
              * @param osg_to_symbols The symbol IDs in the origin table corresponding to the OSG indices.
              * @param cc A bitmap, true if the corresponding OSG index is a complex conjugate of the symbol.
+             * @param split True, if (when a symbol and its conjugate both have an index) the former index is for the
+             *              Hermitian part of the symbol, and the latter is for its anti-Hermitian part.
              */
-             void construct_map(const std::vector<symbol_name_t>& osg_to_symbols, const DynamicBitset<size_t>& cc);
+             void construct_map(const std::vector<symbol_name_t>& osg_to_symbols, const DynamicBitset<size_t>& cc,
+                                bool split);
 
              /**
               * Write symbols from map to target symbol table.
               */
              void populate_target_symbols();
 
+        private:
+             /**
+              * Determine if polynomial of origin symbols can have a real part, and can have an imaginary part.
+              */
+             [[nodiscard]] std::pair<bool, bool> real_or_imaginary(const Polynomial& polynomial) const;
+
+             /**
+              * Number of real parameters required to specify every target symbol.
+              */
+             [[nodiscard]] Eigen::Index count_real_parameters() const;
+
         public:
             virtual ~SymbolTableMap() noexcept;
 
-- 
2.43.0


From 37147e34747000dfefc7283c6b73fd3df584fd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:02 +0000
Subject: [PATCH 44/72] fix: translations of wrapping lattices with columns of
 more than 32 sites

---
 .../scenarios/pauli/symmetry/site_hasher.h    | 30 ++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
index 8a81122..64ddb9e 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
@@ -716,6 +716,19 @@ namespace Moment::Pauli {
             return SiteHasherSized<num_slides>::cyclic_shift(input, (offset % this->row_width) * this->column_height);
         }
 
+        /**
+         * Rotate within columns (i.e. minor-axis shift).
+         */
+        [[nodiscard]] Datum row_cyclic_shift(const Datum& input, const size_t offset) const noexcept {
+            if constexpr (num_slides > 1) {
+                // A column that does not fit on one slide has to be rotated site by site.
+                if (this->column_height > SiteHasherImplBase::qubits_per_slide) {
+                    return this->tall_row_cyclic_shift(input, offset % this->column_height);
+                }
+            }
+            return SiteHasherSized<num_slides>::row_cyclic_shift(input, offset);
+        }
+
         /**
          * Alias for hash function.
          */
@@ -732,7 +745,7 @@ namespace Moment::Pauli {
          */
         [[nodiscard]] inline Datum
         lattice_shift(const Datum& input, const size_t row_offset, const size_t col_offset) const noexcept {
-            return SiteHasherSized<num_slides>::row_cyclic_shift(col_shift(input, col_offset), row_offset);
+            return this->row_cyclic_shift(col_shift(input, col_offset), row_offset);
         }
 
         /**
@@ -763,6 +776,21 @@ namespace Moment::Pauli {
 
 
     private:
+        /**
+         * Rotate within columns, site by site.
+         */
+        [[nodiscard]] Datum tall_row_cyclic_shift(const Datum& input, const size_t offset) const noexcept {
+            constexpr size_t qubits_per_slide = SiteHasherImplBase::qubits_per_slide;
+            Datum output = SiteHasherSized<num_slides>::empty_hash();
+            for (size_t source = 0; source < this->qubits; ++source) {
+                const size_t row = source % this->column_height;
+                const size_t target = (source - row) + ((row + offset) % this->column_height);
+                const auto site = (input[source / qubits_per_slide] >> (2 * (source % qubits_per_slide))) & 0x3;
+                output[target / qubits_per_slide] |= site << (2 * (target % qubits_per_slide));
+            }
+            return output;
+        }
+
         template<bool is_lattice_mode>
         [[nodiscard]] std::pair <Datum, Datum>
         do_canonical_hash(const std::span<const oper_name_t> sequence) const noexcept {
-- 
2.43.0


From 6e5c7ba1b064dee3201b6827c5b634ee12e7d426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:02 +0000
Subject: [PATCH 45/72] fix: translates towards the corner of unwrapped
 lattices were left out; sites may be in any order

---
 .../pauli/symmetry/lattice_duplicator.cpp     | 84 +++++++++++++------
 .../moment_simplifier_no_wrapping.cpp         |  4 +-
 2 files changed, 61 insertions(+), 27 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
index 9bbfcdf..d516658 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
@@ -361,8 +361,19 @@ namespace Moment::Pauli {
         // (Doesn't matter if actual context has wrapping: we use this as a utility class):
         MomentSimplifierNoWrappingLattice simplifier{this->context};
 
-        // Determine minimum and maximum offsets
-        const auto [number_rows, number_cols] = simplifier.lattice_supremum(lattice_indices);
+        // Find the corner of the box that the supplied sites span
+        size_t min_row = simplifier.column_height, min_col = simplifier.row_width, number_rows = 0, number_cols = 0;
+        for (const size_t site : lattice_indices) {
+            const size_t row = site % simplifier.column_height;
+            const size_t col = site / simplifier.column_height;
+            min_row = std::min(min_row, row);
+            min_col = std::min(min_col, col);
+            number_rows = std::max(number_rows, row + 1);
+            number_cols = std::max(number_cols, col + 1);
+        }
+        number_rows -= min_row;
+        number_cols -= min_col;
+        const size_t corner_index = (min_col * simplifier.column_height) + min_row;
 
         const size_t initial_index = this->output.size();
 
@@ -375,8 +386,8 @@ namespace Moment::Pauli {
                 const size_t the_offset = (col * simplifier.column_height) + row;
                 std::transform(lattice_indices.begin(), lattice_indices.end(),
                                actual_indices.begin(),
-                               [the_offset](const size_t index) {
-                    return index + the_offset;
+                               [the_offset, corner_index](const size_t index) {
+                    return (index - corner_index) + the_offset;
                 });
 
                 // Fill sites
@@ -390,55 +401,78 @@ namespace Moment::Pauli {
 
     namespace {
 
-        [[nodiscard]] inline size_t get_max_chain_offset(const PauliContext& context, const RawPolynomial& input) {
+        /**
+         * The range of offsets [first, last) that keep every term of the polynomial on the chain.
+         */
+        [[nodiscard]] inline std::pair<ptrdiff_t, ptrdiff_t>
+        get_chain_offsets(const PauliContext& context, const RawPolynomial& input) {
+            const auto chain_length = static_cast<ptrdiff_t>(context.qubit_size);
             if (context.wrap == WrapType::Wrap) {
-                return context.qubit_size;
-            } else {
-                return 1 + context.qubit_size - MomentSimplifierNoWrappingChain::chain_supremum(input);
+                return {0, chain_length};
+            }
+            ptrdiff_t minimum = chain_length;
+            for (const auto& [seq, weight] : input) {
+                if (!seq.empty()) {
+                    minimum = std::min(minimum,
+                                       static_cast<ptrdiff_t>(MomentSimplifierNoWrappingChain::chain_minimum(seq.raw())));
+                }
             }
+            return {-minimum,
+                    1 + chain_length - static_cast<ptrdiff_t>(MomentSimplifierNoWrappingChain::chain_supremum(input))};
         }
 
         [[nodiscard]] RawPolynomial
         do_apply_symmetry_chain(const PauliContext& context, const RawPolynomial& input) {
             const auto& simplifier = context.moment_simplifier();
-            const size_t max_offset = get_max_chain_offset(context, input);
-            const double prefactor = 1.0 / static_cast<double>(max_offset);
+            const auto [first_offset, last_offset] = get_chain_offsets(context, input);
+            const double prefactor = 1.0 / static_cast<double>(last_offset - first_offset);
 
             RawPolynomial output;
             for (const auto& [sequence, weight] : input) {
                 const std::complex<double> new_weight = weight * prefactor;
-                output.emplace_back(sequence, new_weight);
-                for (size_t chain_offset = 1; chain_offset < max_offset; ++chain_offset) {
+                for (ptrdiff_t chain_offset = first_offset; chain_offset < last_offset; ++chain_offset) {
                     output.emplace_back(simplifier.chain_offset(sequence, chain_offset), new_weight);
                 }
             }
             return output;
         }
 
-        [[nodiscard]] inline std::pair<size_t, size_t>
-        get_max_lattice_offset(const PauliContext& context, const RawPolynomial& input) {
+        /**
+         * The ranges of row and column offsets [first, last) that keep every term of the polynomial on the lattice.
+         */
+        [[nodiscard]] inline std::pair<std::pair<ptrdiff_t, ptrdiff_t>, std::pair<ptrdiff_t, ptrdiff_t>>
+        get_lattice_offsets(const PauliContext& context, const RawPolynomial& input) {
+            const auto number_rows = static_cast<ptrdiff_t>(context.col_height);
+            const auto number_cols = static_cast<ptrdiff_t>(context.row_width);
             if (context.wrap == WrapType::Wrap) {
-                return {context.col_height, context.row_width}; // AKA {number of rows, number of columns}
-            } else {
-                MomentSimplifierNoWrappingLattice simplifier{context};
-                const auto [eff_h, eff_w] = simplifier.lattice_supremum(input);
-                return std::make_pair(1 + context.col_height - eff_h,
-                                      1 + context.row_width - eff_w);
+                return {{0, number_rows}, {0, number_cols}};
+            }
+            MomentSimplifierNoWrappingLattice simplifier{context};
+            ptrdiff_t min_row = number_rows, min_col = number_cols;
+            for (const auto& [seq, weight] : input) {
+                if (!seq.empty()) {
+                    const auto [row, col] = simplifier.lattice_minimum(seq.raw());
+                    min_row = std::min(min_row, static_cast<ptrdiff_t>(row));
+                    min_col = std::min(min_col, static_cast<ptrdiff_t>(col));
+                }
             }
+            const auto [eff_h, eff_w] = simplifier.lattice_supremum(input);
+            return {{-min_row, 1 + number_rows - static_cast<ptrdiff_t>(eff_h)},
+                    {-min_col, 1 + number_cols - static_cast<ptrdiff_t>(eff_w)}};
         }
 
         [[nodiscard]] RawPolynomial
         do_apply_symmetry_lattice(const PauliContext& context, const RawPolynomial& input) {
             RawPolynomial output;
             const auto& simplifier = context.moment_simplifier();
-            const auto [effective_height, effective_width] = get_max_lattice_offset(context, input);
-            const double prefactor = 1.0 / static_cast<double>(effective_height * effective_width);
+            const auto [row_offsets, col_offsets] = get_lattice_offsets(context, input);
+            const double prefactor = 1.0 / static_cast<double>((row_offsets.second - row_offsets.first)
+                                                               * (col_offsets.second - col_offsets.first));
 
             for (const auto& [sequence, weight] : input) {
                 const std::complex<double> new_weight = weight * prefactor;
-                output.emplace_back(sequence, new_weight);
-                for (size_t col_offset = 0; col_offset < effective_width; ++col_offset) {
-                    for (size_t row_offset = ((col_offset==0)? 1 : 0); row_offset < effective_height; ++row_offset) {
+                for (ptrdiff_t col_offset = col_offsets.first; col_offset < col_offsets.second; ++col_offset) {
+                    for (ptrdiff_t row_offset = row_offsets.first; row_offset < row_offsets.second; ++row_offset) {
                         output.emplace_back(simplifier.lattice_offset(sequence, row_offset, col_offset), new_weight);
                     }
                 }
diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_no_wrapping.cpp b/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_no_wrapping.cpp
index 3bd5011..0ad5c27 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_no_wrapping.cpp
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_no_wrapping.cpp
@@ -171,8 +171,8 @@ namespace Moment::Pauli {
             return {0, 0};
         }
 
-        // Max column will be column of last qubit:
-        const size_t max_column = 1 + (input.back() / this->column_height);
+        // Max column will be column of highest qubit (sites are not necessarily in order):
+        const size_t max_column = 1 + (*std::max_element(input.begin(), input.end()) / this->column_height);
 
         // Scan for maximum row
         size_t max_row = (input[0] % this->column_height) + 1;
-- 
2.43.0


From d20036ed49421b3f3dfd23004439c20971cc3b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:54 +0000
Subject: [PATCH 46/72] fix: the measurement one past the last was not refused
 by Collins-Gisin and probability tensors

---
 cpp/lib_moment/probability/collins_gisin.cpp              | 4 ++--
 .../scenarios/inflation/inflation_collins_gisin.cpp       | 6 +++---
 .../scenarios/inflation/inflation_probability_tensor.cpp  | 8 ++++----
 .../scenarios/locality/locality_collins_gisin.cpp         | 6 +++---
 .../scenarios/locality/locality_probability_tensor.cpp    | 8 ++++----
 5 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/cpp/lib_moment/probability/collins_gisin.cpp b/cpp/lib_moment/probability/collins_gisin.cpp
index ea3e06d..835031e 100644
--- a/cpp/lib_moment/probability/collins_gisin.cpp
+++ b/cpp/lib_moment/probability/collins_gisin.cpp
@@ -169,7 +169,7 @@ namespace Moment {
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
 
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex > this->gmIndex.size()) {
+            if (mmtIndex >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex];
@@ -191,7 +191,7 @@ namespace Moment {
 
         for (size_t n = 0; n < mmtIndices.size(); ++n) {
 
-            if (mmtIndices[n] > this->gmIndex.size()) {
+            if (mmtIndices[n] >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndices[n]];
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
index af0f746..83e64c7 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
@@ -92,7 +92,7 @@ namespace Moment::Inflation {
 
         for (auto mmtIndex: mmtIndices) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
@@ -112,7 +112,7 @@ namespace Moment::Inflation {
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex: mmtIndices) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
@@ -125,7 +125,7 @@ namespace Moment::Inflation {
 
         for (auto mmtIndex: fixedOutcomes) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex.observable_variant);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp b/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
index 729fa5a..e5a3baf 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
@@ -48,7 +48,7 @@ namespace Moment::Inflation {
         for (const auto& mmtIndex : mmtIndices) {
 
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
 
@@ -69,7 +69,7 @@ namespace Moment::Inflation {
         ProbabilityTensorIndex upper_bounds(this->Dimensions.size(), 1);
         for (const auto& mmtIndex : freeMeasurements) {
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
             if (lower_bounds[global_index] != 0) {
@@ -81,7 +81,7 @@ namespace Moment::Inflation {
 
         for (const auto& mmtIndex : fixedOutcomes) {
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex.observable_variant);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
             if (lower_bounds[global_index] != 0) {
@@ -100,7 +100,7 @@ namespace Moment::Inflation {
         ProbabilityTensorIndex index(this->Dimensions.size(), 0);
         for (const auto& mmtIndex : fixedOutcomes) {
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex.observable_variant);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
             if (index[global_index] != 0) {
diff --git a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
index 79a1f20..6b361f2 100644
--- a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
@@ -69,7 +69,7 @@ namespace Moment::Locality {
         CollinsGisinIndex lower_bounds(this->Dimensions.size(), 0);
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
@@ -88,7 +88,7 @@ namespace Moment::Locality {
         CollinsGisinIndex lower_bounds(this->Dimensions.size(), 0);
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
@@ -100,7 +100,7 @@ namespace Moment::Locality {
         }
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
diff --git a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
index d43db38..e75aa85 100644
--- a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
@@ -52,7 +52,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex lower_bounds(this->Dimensions.size(), 0);
         ProbabilityTensorIndex  upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -73,7 +73,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex lower_bounds(this->Dimensions.size(), 0);
         ProbabilityTensorIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : freeMeasurements) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -85,7 +85,7 @@ namespace Moment::Locality {
         }
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -104,7 +104,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex index(this->Dimensions.size(), 0);
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
-- 
2.43.0


From 505e82f4724b0c537bae1e740d8eed61d73a4889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:54 +0000
Subject: [PATCH 47/72] fix: outcomes that a measurement does not have were
 read from its neighbours

---
 cpp/lib_moment/probability/collins_gisin.cpp                | 3 +++
 .../scenarios/inflation/inflation_collins_gisin.cpp         | 3 +++
 .../scenarios/inflation/inflation_probability_tensor.cpp    | 6 ++++++
 .../scenarios/locality/locality_collins_gisin.cpp           | 3 +++
 .../scenarios/locality/locality_probability_tensor.cpp      | 6 ++++++
 5 files changed, 21 insertions(+)

diff --git a/cpp/lib_moment/probability/collins_gisin.cpp b/cpp/lib_moment/probability/collins_gisin.cpp
index 835031e..d909289 100644
--- a/cpp/lib_moment/probability/collins_gisin.cpp
+++ b/cpp/lib_moment/probability/collins_gisin.cpp
@@ -199,6 +199,9 @@ namespace Moment {
                 throw errors::BadCGError("Two measurements from same party cannot be specified.");
             }
             if (fixedOutcomes[n] >= 0) {
+                if (static_cast<size_t>(fixedOutcomes[n]) >= gmInfo.length) {
+                    throw errors::BadCGError("Measurement outcome is not explicit, or is out of bounds.");
+                }
                 lower_bounds[gmInfo.party] = gmInfo.offset + fixedOutcomes[n];
                 upper_bounds[gmInfo.party] = gmInfo.offset + fixedOutcomes[n] + 1;
             } else {
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
index 83e64c7..00b40b9 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
@@ -133,6 +133,9 @@ namespace Moment::Inflation {
                 throw Moment::errors::BadCGError("Two measurements from same party cannot be specified.");
             }
 
+            if ((mmtIndex.outcome < 0) || (static_cast<size_t>(mmtIndex.outcome) >= gmInfo.length)) {
+                throw Moment::errors::BadCGError("Measurement outcome is not explicit, or is out of bounds.");
+            }
             lower_bounds[gmInfo.party] = gmInfo.offset + mmtIndex.outcome;
             upper_bounds[gmInfo.party] = gmInfo.offset + mmtIndex.outcome + 1;
         }
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp b/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
index e5a3baf..c83ec16 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
@@ -88,6 +88,9 @@ namespace Moment::Inflation {
                 throw Moment::errors::BadPTError("Two measurements of the same observable cannot be specified.");
             }
 
+            if ((mmtIndex.outcome < 0) || (static_cast<size_t>(mmtIndex.outcome) + 1 >= this->Dimensions[global_index])) {
+                throw Moment::errors::BadPTError("Measurement outcome out of bounds.");
+            }
             lower_bounds[global_index] = 1 + mmtIndex.outcome;
             upper_bounds[global_index] = 2 + mmtIndex.outcome;
         }
@@ -107,6 +110,9 @@ namespace Moment::Inflation {
                 throw Moment::errors::BadPTError("Two measurements of the same observable cannot be specified.");
             }
 
+            if ((mmtIndex.outcome < 0) || (static_cast<size_t>(mmtIndex.outcome) + 1 >= this->Dimensions[global_index])) {
+                throw Moment::errors::BadPTError("Measurement outcome out of bounds.");
+            }
             index[global_index] = 1 + mmtIndex.outcome;
         }
         return this->elem_no_checks(index);
diff --git a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
index 6b361f2..dbd95ba 100644
--- a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
@@ -108,6 +108,9 @@ namespace Moment::Locality {
                 throw errors::BadCGError("Two measurements from same party cannot be specified.");
             }
 
+            if (mmtIndex.outcome >= gmInfo.length) {
+                throw errors::BadCGError("Measurement outcome is not explicit, or is out of bounds.");
+            }
             lower_bounds[gmInfo.party] = gmInfo.offset + mmtIndex.outcome;
             upper_bounds[gmInfo.party] = gmInfo.offset + mmtIndex.outcome + 1;
         }
diff --git a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
index e75aa85..6e15ed5 100644
--- a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
@@ -93,6 +93,9 @@ namespace Moment::Locality {
                 throw errors::BadPTError("Two measurements from same party cannot be specified.");
             }
 
+            if (mmtIndex.outcome >= gmEntry.length) {
+                throw errors::BadPTError("Measurement outcome out of bounds.");
+            }
             lower_bounds[gmEntry.party] = gmEntry.offset + mmtIndex.outcome;
             upper_bounds[gmEntry.party] = gmEntry.offset + mmtIndex.outcome + 1;
         }
@@ -111,6 +114,9 @@ namespace Moment::Locality {
             if (index[gmEntry.party] != 0) {
                 throw errors::BadPTError("Two outcomes from same party cannot be specified.");
             }
+            if (mmtIndex.outcome >= gmEntry.length) {
+                throw errors::BadPTError("Measurement outcome out of bounds.");
+            }
             index[gmEntry.party] = gmEntry.offset + mmtIndex.outcome;
         }
 
-- 
2.43.0


From 9008caf4aa91fd58a6baf789a1238baf95d072e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:34 +0000
Subject: [PATCH 48/72] fix: workers making a Hermitian symbol matrix wrote
 each other's entries without synchronisation

---
 cpp/lib_moment/matrix/monomial_matrix_factory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index d4b3780..2b40f4e 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -592,7 +592,8 @@ namespace Moment {
         const auto prefactor = this->bundle.prefactor;
 
         for (size_t col_idx = worker_id; col_idx < row_length; col_idx += max_workers) {
-            for (size_t row_idx = 0; row_idx < row_length; ++row_idx) {
+            // Upper triangle (and diagonal) only; each entry also determines its transpose
+            for (size_t row_idx = 0; row_idx <= col_idx; ++row_idx) {
 
                 const size_t offset = (col_idx * row_length) + row_idx;
                 const size_t trans_offset = (row_idx * row_length) + col_idx;
-- 
2.43.0


From c3f5405fbc51fea77974589467e2533a63c25b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 49/72] fix: a failure while operator matrices were made by
 several threads could hang, crash or use freed memory

---
 .../operator_matrix_factory_multithreaded.h   | 49 +++++++++++++++----
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/cpp/lib_moment/matrix/operator_matrix/operator_matrix_factory_multithreaded.h b/cpp/lib_moment/matrix/operator_matrix/operator_matrix_factory_multithreaded.h
index 1deab54..8b310e5 100644
--- a/cpp/lib_moment/matrix/operator_matrix/operator_matrix_factory_multithreaded.h
+++ b/cpp/lib_moment/matrix/operator_matrix/operator_matrix_factory_multithreaded.h
@@ -87,6 +87,9 @@ namespace Moment {
         void execute() {
             // OSM generation
             this->bundle.ready_to_begin_osm_generation.wait(false, std::memory_order_acquire);
+            if (this->bundle.abandoned.load(std::memory_order_acquire)) {
+                return; // exit thread; nothing will be made.
+            }
             try {
                 this->generate_operator_sequence_matrix();
                 this->done_os_generation.set_value(true);
@@ -98,6 +101,9 @@ namespace Moment {
             // Alias generation (if applicable)
             if (this->bundle.factory.context.can_have_aliases()) {
                 this->bundle.ready_to_begin_alias_generation.wait(false, std::memory_order_acquire);
+                if (this->bundle.abandoned.load(std::memory_order_acquire)) {
+                    return; // exit thread; no aliases will be made.
+                }
                 try {
                     this->generate_aliased_operator_sequence_matrix();
                     this->done_alias_generation.set_value(true);
@@ -289,8 +295,9 @@ namespace Moment {
         }
 
         void join() {
-            assert(this->the_thread.joinable());
-            this->the_thread.join();
+            if (this->the_thread.joinable()) {
+                this->the_thread.join();
+            }
         }
     };
 
@@ -311,6 +318,9 @@ namespace Moment {
         std::atomic_flag ready_to_begin_osm_generation;
         std::atomic_flag ready_to_begin_alias_generation;
 
+        /** True, if workers that have not yet begun a phase must not do so. */
+        std::atomic<bool> abandoned = false;
+
         /** Pointer to allocated memory for operator sequence matrix. */
         OperatorSequence * os_data_ptr = nullptr;
 
@@ -353,8 +363,13 @@ namespace Moment {
             }
 
             // Launch threads
-            for (auto& worker : workers) {
-                worker->launch_thread();
+            try {
+                for (auto& worker : workers) {
+                    worker->launch_thread();
+                }
+            } catch (...) {
+                this->release_and_join();
+                throw;
             }
         }
 
@@ -365,9 +380,7 @@ namespace Moment {
          * Destructor: gather finished threads.
          */
         ~OperatorMatrixFactoryMultithreaded() noexcept {
-            for (auto& worker : workers) {
-                worker->join();
-            }
+            this->release_and_join();
         }
 
         /**
@@ -436,13 +449,28 @@ namespace Moment {
         }
 
     private:
+        /** Wait until every worker has finished (those still waiting for a phase to begin, will skip it). */
+        void release_and_join() noexcept {
+            this->abandoned.store(true, std::memory_order_release);
+            this->ready_to_begin_osm_generation.test_and_set(std::memory_order_release);
+            this->ready_to_begin_osm_generation.notify_all();
+            this->ready_to_begin_alias_generation.test_and_set(std::memory_order_release);
+            this->ready_to_begin_alias_generation.notify_all();
+            for (auto& worker : workers) {
+                worker->join();
+            }
+        }
+
         void generate_operator_sequence_matrix() {
 
             // Signal all workers to begin
             this->ready_to_begin_osm_generation.test_and_set(std::memory_order_release);
             this->ready_to_begin_osm_generation.notify_all();
 
-            // Block until all workers are done:
+            // Block until all workers are done (even if one has failed, the others still write to the matrix):
+            for (auto& signal : this->done_os_generation) {
+                signal.wait();
+            }
             for (auto& signal : this->done_os_generation) {
                 bool done = false;
                 while (!done) {
@@ -460,7 +488,10 @@ namespace Moment {
             this->ready_to_begin_alias_generation.test_and_set(std::memory_order_release);
             this->ready_to_begin_alias_generation.notify_all();
 
-            // Block until all workers are done:
+            // Block until all workers are done (even if one has failed, the others still write to the matrix):
+            for (auto& signal : this->done_alias_generation) {
+                signal.wait();
+            }
             for (auto& signal : this->done_alias_generation) {
                 bool done = false;
                 while (!done) {
-- 
2.43.0


From b53799736f5ce5b09717393cd96f6d5c8321483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 50/72] fix: a failure while symbol matrices were made by
 several threads could hang or end the process

---
 .../matrix/monomial_matrix_factory.cpp        | 41 +++++++++++++++----
 .../matrix/monomial_matrix_factory.h          | 10 ++++-
 2 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index 2b40f4e..a78bf6a 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -325,23 +325,28 @@ namespace Moment {
 
         // Symbol identification
         this->bundle.ready_to_begin_symbol_identification.wait(false, std::memory_order_acquire);
+        if (this->bundle.abandoned.load(std::memory_order_acquire)) {
+            return; // exit thread; nothing will be made.
+        }
         try {
             this->identify_unique_symbols();
             this->merge_unique_symbols();
 
             this->done_symbol_identification.set_value(true);
         } catch(...) {
+            // Divide & conquer may be waiting on this...
+            this->merge_level.store(0, std::memory_order_release);
+            this->merge_level.notify_all();
             this->done_symbol_identification.set_exception(std::current_exception());
-            if (0 != this->worker_id) {
-                // Divide & conquer may be waiting on this...
-                this->bundle.workers[0]->done_symbol_identification.set_exception(std::current_exception());
-            }
             return; // exit thread
         }
 
 
         // Symbol matrix generation
         this->bundle.ready_to_begin_sm_generation.wait(false, std::memory_order_acquire);
+        if (this->bundle.abandoned.load(std::memory_order_acquire)) {
+            return; // exit thread; no matrix will be made.
+        }
         try {
             this->generate_symbol_matrix();
             this->done_sm_generation.set_value(true);
@@ -664,12 +669,26 @@ namespace Moment {
         }
 
         // Launch threads
-        for (auto& worker : workers) {
-            worker->launch_thread();
+        try {
+            for (auto& worker : workers) {
+                worker->launch_thread();
+            }
+        } catch (...) {
+            this->release_and_join();
+            throw;
         }
     }
 
     MonomialMatrixFactoryMultithreaded::~MonomialMatrixFactoryMultithreaded() noexcept {
+        this->release_and_join();
+    }
+
+    void MonomialMatrixFactoryMultithreaded::release_and_join() noexcept {
+        this->abandoned.store(true, std::memory_order_release);
+        this->ready_to_begin_symbol_identification.test_and_set(std::memory_order_release);
+        this->ready_to_begin_symbol_identification.notify_all();
+        this->ready_to_begin_sm_generation.test_and_set(std::memory_order_release);
+        this->ready_to_begin_sm_generation.notify_all();
         for (auto& worker : workers) {
             worker->join();
         }
@@ -701,7 +720,10 @@ namespace Moment {
         this->ready_to_begin_symbol_identification.test_and_set(std::memory_order_release);
         this->ready_to_begin_symbol_identification.notify_all();
 
-        // Block until all workers are done:
+        // Block until all workers are done (even if one has failed, the others still use shared data):
+        for (auto& signal : this->done_symbol_identification) {
+            signal.wait();
+        }
         for (auto& signal : this->done_symbol_identification) {
             bool done = false;
             while (!done) {
@@ -722,7 +744,10 @@ namespace Moment {
         this->ready_to_begin_sm_generation.test_and_set(std::memory_order_release);
         this->ready_to_begin_sm_generation.notify_all();
 
-        // Block until all workers are done:
+        // Block until all workers are done (even if one has failed, the others still use shared data):
+        for (auto& signal : this->done_sm_generation) {
+            signal.wait();
+        }
         for (auto& signal : this->done_sm_generation) {
             bool done = false;
             while (!done) {
diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.h b/cpp/lib_moment/matrix/monomial_matrix_factory.h
index 113b8cc..f22b7ca 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.h
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.h
@@ -91,8 +91,9 @@ namespace Moment {
 
     public:
         void join() {
-            assert(this->the_thread.joinable());
-            this->the_thread.join();
+            if (this->the_thread.joinable()) {
+                this->the_thread.join();
+            }
         }
     };
 
@@ -126,6 +127,8 @@ namespace Moment {
         std::atomic_flag ready_to_begin_symbol_identification;
         std::atomic_flag ready_to_begin_sm_generation;
 
+        /** True, if workers that have not yet begun a phase must not do so. */
+        std::atomic<bool> abandoned = false;
 
         /** (Transient!) pointer to allocated memory for monomial matrix */
         Monomial * sm_data_ptr = nullptr;
@@ -152,6 +155,9 @@ namespace Moment {
         std::unique_ptr<SquareMatrix<Monomial>> execute();
 
     private:
+        /** Wait until every worker has finished (those still waiting for a phase to begin, will skip it). */
+        void release_and_join() noexcept;
+
         void identify_unique_symbols();
 
         void register_unique_symbols();
-- 
2.43.0


From 9db9cd00f2c426367917c1bacb90e1952e17a46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 51/72] fix: exceptions of matrix transformation workers were
 lost

---
 .../matrix_transformation_worker.h            | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/cpp/lib_moment/multithreading/matrix_transformation_worker.h b/cpp/lib_moment/multithreading/matrix_transformation_worker.h
index 67c4ea7..f1bec31 100644
--- a/cpp/lib_moment/multithreading/matrix_transformation_worker.h
+++ b/cpp/lib_moment/multithreading/matrix_transformation_worker.h
@@ -91,19 +91,28 @@ namespace Moment::Multithreading {
         // Create and start workers
         std::vector<worker_t> workers;
         workers.reserve(num_threads);
-        for (size_t index = 0; index < num_threads; ++index) {
-            // Once created, worker will immediately begin computing (perhaps before other workers are even initiated).
-            workers.emplace_back(dimension, input_data, output_data, index, num_threads, the_functor);
+        try {
+            for (size_t index = 0; index < num_threads; ++index) {
+                // Once created, worker will immediately begin computing (perhaps before other workers are even initiated).
+                workers.emplace_back(dimension, input_data, output_data, index, num_threads, the_functor);
+            }
+        } catch (...) {
+            // Could not start a worker; those that have been started must finish first.
+            for (auto &worker: workers) {
+                worker.join();
+            }
+            throw;
         }
 
         // Wait for all threads to finish...
         for (auto &worker: workers) {
             worker.join();
-            // If worker had an exception, propagate it to main thread:
-            if constexpr(!noexcept(the_functor)) {
-                if (worker.exception) {
-                    std::rethrow_exception(worker.exception);
-                }
+        }
+
+        // If a worker had an exception, propagate it to main thread:
+        for (auto &worker: workers) {
+            if (worker.exception) {
+                std::rethrow_exception(worker.exception);
             }
         }
     }
-- 
2.43.0


From 34cfe7d86f2107843af024b22e1e7012427d9ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 52/72] fix: exceptions of extended matrix workers ended the
 process

---
 .../multithreading/extended_matrix_worker.cpp   | 17 ++++++++++++++++-
 .../multithreading/extended_matrix_worker.h     |  8 +++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.cpp b/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.cpp
index d38d3ba..e0e0caa 100644
--- a/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.cpp
+++ b/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.cpp
@@ -38,7 +38,15 @@ namespace Moment::Multithreading {
         this->the_thread = std::thread{&ExtendedMatrixWorker::execute, this};
     }
 
-    void ExtendedMatrixWorker::execute() {
+    void ExtendedMatrixWorker::execute() noexcept {
+        try {
+            this->generate();
+        } catch (...) {
+            this->exception = std::current_exception(); // main thread rethrows, after join
+        }
+    }
+
+    void ExtendedMatrixWorker::generate() {
         const auto * const src_data = this->bundle.source_symbols.raw_data();
         const size_t src_dimension = this->bundle.source_symbols.Dimension();
         const size_t full_dimension = this->bundle.output_dimension;
@@ -149,6 +157,13 @@ namespace Moment::Multithreading {
 
         this->join_all();
 
+        // If a worker failed, propagate its exception
+        for (auto& worker_ptr : this->workers) {
+            if (worker_ptr->exception) {
+                std::rethrow_exception(worker_ptr->exception);
+            }
+        }
+
         this->symbols_and_factors.register_new_symbols_and_factors();
 
         // Move output data
diff --git a/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.h b/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.h
index 81f164e..43fb68d 100644
--- a/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.h
+++ b/cpp/lib_moment/scenarios/inflation/multithreading/extended_matrix_worker.h
@@ -19,6 +19,7 @@
 #include <mutex>
 #include <shared_mutex>
 #include <span>
+#include <exception>
 #include <thread>
 #include <vector>
 
@@ -50,6 +51,9 @@ namespace Moment {
             /** Thread-local scratch data for combined factors */
             std::vector<symbol_name_t> scratch_combined;
 
+            /** Exception encountered by thread, if any. */
+            std::exception_ptr exception;
+
         public:
             ExtendedMatrixWorker(ExtendedMatrixBundle &bundle, size_t worker_id, size_t max_workers);
 
@@ -58,11 +62,13 @@ namespace Moment {
 
             void launch();
 
-            void execute();
+            void execute() noexcept;
 
             friend class ExtendedMatrixBundle;
 
         private:
+            void generate();
+
             symbol_name_t combine_and_register_factors(const std::vector<symbol_name_t>& source_factors,
                                                        const std::vector<symbol_name_t>& extended_factors);
 
-- 
2.43.0


From 737c32e8f503f43b3db7f22f56b2d798baed8088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 53/72] fix: a failure while group representations were made by
 several threads could hang or end the process

---
 .../group_rep_generation_worker.cpp           | 30 +++++++++++++++++--
 .../symmetrized/group_rep_generation_worker.h | 15 +++++++++-
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.cpp b/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.cpp
index f715aba..6beb68c 100644
--- a/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.cpp
+++ b/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.cpp
@@ -13,6 +13,7 @@
 #include <cassert>
 
 #include <algorithm>
+#include <limits>
 
 namespace Moment::Multithreading {
     using namespace Moment::Symmetrized;
@@ -28,7 +29,18 @@ namespace Moment::Multithreading {
         this->the_thread = std::thread{&GroupRepGenerationWorker::execute, this};
     }
 
-    void GroupRepGenerationWorker::execute() {
+    void GroupRepGenerationWorker::execute() noexcept {
+        try {
+            this->generate();
+        } catch (...) {
+            // Signal that no more work will be done; main thread rethrows.
+            this->exception = std::current_exception();
+            this->last_generated_index.store(std::numeric_limits<size_t>::max(), std::memory_order_release);
+            this->last_generated_index.notify_all();
+        }
+    }
+
+    void GroupRepGenerationWorker::generate() {
 
         // Wait until it is time to work:
         size_t global_index = 0;
@@ -43,6 +55,9 @@ namespace Moment::Multithreading {
                 this->bundle.global_index.wait(global_index, std::memory_order_relaxed);
                 global_index = this->bundle.global_index.load(std::memory_order_acquire);
             }
+            if (this->bundle.abandoned.load(std::memory_order_relaxed)) {
+                return;
+            }
 
             // Get parents, which are guaranteed after wait, to exist
             assert(local_index < this->bundle.build_list.size());
@@ -120,6 +135,10 @@ namespace Moment::Multithreading {
                     worker_ptr->last_generated_index.wait(l_idx, std::memory_order_relaxed);
                     l_idx = worker_ptr->last_generated_index.load(std::memory_order_acquire);
                 }
+                if (l_idx == std::numeric_limits<size_t>::max()) {
+                    this->release_and_join();
+                    std::rethrow_exception(worker_ptr->exception);
+                }
             }
 
             // Make representation from raw data
@@ -137,7 +156,7 @@ namespace Moment::Multithreading {
 
 
     GroupRepGenerationBundle::~GroupRepGenerationBundle() noexcept {
-        this->join_all();
+        this->release_and_join();
     }
 
     void GroupRepGenerationBundle::prepare_blank_data() {
@@ -147,6 +166,13 @@ namespace Moment::Multithreading {
         }
     }
 
+    void GroupRepGenerationBundle::release_and_join() noexcept {
+        this->abandoned.store(true, std::memory_order_relaxed);
+        this->global_index.store(std::numeric_limits<size_t>::max(), std::memory_order_release);
+        this->global_index.notify_all();
+        this->join_all();
+    }
+
     void GroupRepGenerationBundle::join_all() noexcept {
         for (auto& worker_ptr : this->workers) {
             if (worker_ptr) {
diff --git a/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.h b/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.h
index 970befb..e6690d1 100644
--- a/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.h
+++ b/cpp/lib_moment/scenarios/symmetrized/group_rep_generation_worker.h
@@ -11,6 +11,7 @@
 #include "group.h"
 
 #include <atomic>
+#include <exception>
 #include <thread>
 
 namespace Moment::Multithreading {
@@ -26,6 +27,9 @@ namespace Moment::Multithreading {
         std::atomic<size_t> last_generated_index;
         std::thread the_thread;
 
+        /** Exception encountered by thread, if any. */
+        std::exception_ptr exception;
+
     public:
         GroupRepGenerationWorker(GroupRepGenerationBundle& bundle,
                                  size_t worker_id, size_t max_workers);
@@ -35,9 +39,12 @@ namespace Moment::Multithreading {
 
         void launch();
 
-        void execute();
+        void execute() noexcept;
 
         friend class GroupRepGenerationBundle;
+
+    private:
+        void generate();
     };
 
     class GroupRepGenerationBundle {
@@ -58,6 +65,9 @@ namespace Moment::Multithreading {
 
         std::atomic<size_t> global_index;
 
+        /** True, if workers must not begin any further representation. */
+        std::atomic<bool> abandoned = false;
+
     public:
         GroupRepGenerationBundle(std::vector<std::unique_ptr<Symmetrized::Representation>>& representations,
                                  std::vector<std::unique_ptr<Symmetrized::RepresentationMapper>>& mappers,
@@ -75,6 +85,9 @@ namespace Moment::Multithreading {
 
         void join_all() noexcept;
 
+        /** Tell workers not to begin any further representation, and wait for them to finish. */
+        void release_and_join() noexcept;
+
     };
 
 }
\ No newline at end of file
-- 
2.43.0


From 658befbed12857e21f0c020371e81d5640f0ff4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:02 +0000
Subject: [PATCH 54/72] fix: threads waiting for the queue could miss the
 notification of an item or of its closing

---
 cpp/lib_moment/multithreading/queue.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/multithreading/queue.h b/cpp/lib_moment/multithreading/queue.h
index 061bc4f..0a4dc38 100644
--- a/cpp/lib_moment/multithreading/queue.h
+++ b/cpp/lib_moment/multithreading/queue.h
@@ -98,8 +98,10 @@ namespace Moment::Multithreading {
                 this->tail->next = std::move(next_node);
                 this->tail = this->tail->next.get();
             }
-            this->data_cv.notify_one();
             // ~tail_lock
+
+            this->finish_waiter_checks();
+            this->data_cv.notify_one();
         }
 
         void push_back(elem_t object) {
@@ -113,12 +115,15 @@ namespace Moment::Multithreading {
                 this->tail->next = std::move(next_node);
                 this->tail = this->tail->next.get();
             }
-            this->data_cv.notify_one();
             // ~tail_lock
+
+            this->finish_waiter_checks();
+            this->data_cv.notify_one();
         }
 
         void abort() noexcept {
             this->abort_flag.test_and_set(std::memory_order_release);
+            this->finish_waiter_checks();
             this->data_cv.notify_all();
         }
 
@@ -159,6 +164,15 @@ namespace Moment::Multithreading {
         }
 
     private:
+        /**
+         * A waiting thread that has already checked for data (or abortion), but is not yet asleep, would miss a notification.
+         * Such a thread holds the head mutex, so once we have had it, every waiter either is asleep or is yet to check.
+         * A lock on tail_mutex should not be held by caller.
+         */
+        void finish_waiter_checks() const noexcept {
+            std::lock_guard head_lock{this->head_mutex};
+        }
+
         /**
          * Locks the head of queue, and waits until a consistent data entry is ready.
          */
-- 
2.43.0


From 720d78e3020f798e7e3fd6e59e90e3cc86913da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:44 +0000
Subject: [PATCH 55/72] fix: handles to objects cleared from the persistent
 storage could be reissued to other objects

---
 cpp/lib_moment/utilities/persistent_storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/utilities/persistent_storage.h b/cpp/lib_moment/utilities/persistent_storage.h
index a47743d..245d676 100644
--- a/cpp/lib_moment/utilities/persistent_storage.h
+++ b/cpp/lib_moment/utilities/persistent_storage.h
@@ -282,7 +282,7 @@ namespace Moment {
         inline void clear() noexcept {
             std::unique_lock lock(theMutex);
             this->objects.clear();
-            nextID = 0;
+            // nextID is not reset: a handle to an object now cleared must never refer to an object stored later.
         }
 
 
-- 
2.43.0


From 24b903f8c54bb7b9e88498690bfbb20836d7af0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:56 +0000
Subject: [PATCH 56/72] fix: a Collins-Gisin tensor in use could be replaced by
 one made by another thread

---
 cpp/lib_moment/probability/maintains_tensors.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/probability/maintains_tensors.cpp b/cpp/lib_moment/probability/maintains_tensors.cpp
index 4bc2c32..4f0f4c8 100644
--- a/cpp/lib_moment/probability/maintains_tensors.cpp
+++ b/cpp/lib_moment/probability/maintains_tensors.cpp
@@ -42,7 +42,10 @@ namespace Moment  {
             read_lock.unlock();
 
             auto write_lock = this->get_write_lock();
-            this->collinsGisin = this->makeCollinsGisin();
+
+            if (!this->collinsGisin) {  // Double-check, in case scooped.
+                this->collinsGisin = this->makeCollinsGisin();
+            }
             const bool has_all_symbols = this->collinsGisin->HasAllSymbols();
             write_lock.unlock();
 
-- 
2.43.0


From 6a005d6fba6c33322097da6faf758a1ef84d72c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:00 +0000
Subject: [PATCH 57/72] fix: MatrixSystem::delete_matrix refuses the number one
 past the last matrix

---
 cpp/lib_moment/matrix_system/matrix_system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix_system/matrix_system.cpp b/cpp/lib_moment/matrix_system/matrix_system.cpp
index 98b0ee9..37aa9cb 100644
--- a/cpp/lib_moment/matrix_system/matrix_system.cpp
+++ b/cpp/lib_moment/matrix_system/matrix_system.cpp
@@ -93,7 +93,7 @@ namespace Moment {
     bool MatrixSystem::delete_matrix(const MaintainsMutex::WriteLock& lock, ptrdiff_t index) noexcept {
         assert(this->is_locked_write_lock(lock));
         // No deletion for bad index
-        if ((index < 0) || (index > this->matrices.size())) {
+        if ((index < 0) || (index >= this->matrices.size())) {
             return false;
         }
         // No deletion for missing matrix
-- 
2.43.0


From 66e60cef1811ed070ed980173da178e4d21710b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:49 +0000
Subject: [PATCH 58/72] fix: merging lists of factors with a zero gives the
 single factor zero

---
 cpp/lib_moment/scenarios/inflation/factor_table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/inflation/factor_table.cpp b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
index 6212088..efea45d 100644
--- a/cpp/lib_moment/scenarios/inflation/factor_table.cpp
+++ b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
@@ -368,7 +368,7 @@ namespace Moment::Inflation {
         // If "0" is somehow a factor of either left or right, the product is zero
         assert(!output.empty());
         if (output[0] == 0) [[unlikely]] {
-            output.emplace_back(0);
+            output.assign(1, 0);
             return;
         }
 
-- 
2.43.0


From 73f0f7658cc049943724856dbf83b5fb767ee536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:49 +0000
Subject: [PATCH 59/72] fix: relabellings of source copies within one connected
 inflated moment get the same canonical word

---
 .../scenarios/inflation/inflation_context.cpp | 212 ++++++------------
 .../scenarios/inflation/inflation_context.h   |   6 -
 2 files changed, 71 insertions(+), 147 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index e142aa3..e1b4b44 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -16,22 +16,13 @@
 
 #include <algorithm>
 #include <bit>
+#include <set>
 #include <sstream>
 
 namespace Moment::Inflation {
 
     namespace {
         using OpStringBitset = DynamicBitset<uint64_t, size_t, SmallVector<uint64_t, 1>>;
-
-
-        /** 'Scratch' permutation paper, per thread. */
-        inline std::vector<oper_name_t>& get_permutation_scratch(size_t size) {
-            thread_local std::vector<oper_name_t> permutation_scratch;
-            if (permutation_scratch.size() != size) {
-                permutation_scratch.resize(size);
-            }
-            return permutation_scratch;
-        }
     }
 
     std::vector<InflationContext::ICObservable::Variant>
@@ -314,133 +305,11 @@ namespace Moment::Inflation {
         if (input.empty() || !this->can_have_aliases()) {
             return false;
         }
-
-        SmallVector<oper_name_t, 4> next_free_source_variant(this->base_network.explicit_source_count(), 0);
-
-        DynamicBitset<uint64_t, size_t, SmallVector<uint64_t, 1>> done_permutation{this->total_inflated_sources};
-
-        // Go through operators looking for permutations
-        for (const auto op : input) {
-            const auto &opData = this->operator_info[op];
-            const auto &observableInfo = this->inflated_observables[opData.observable];
-            // Singleton operators are always canonical
-            if (observableInfo.singleton) {
-                continue;
-            }
-
-            // Is this the lowest variant possible at this point?
-            const auto &variantInfo = observableInfo.variants[opData.variant];
-            for (int s_index = observableInfo.sources.size()-1; s_index >= 0; --s_index) { // last-index-major
-
-                const auto src_id = observableInfo.sources[s_index];
-                assert(src_id < base_network.explicit_source_count());
-                const auto src_variant = variantInfo.indices[s_index];
-                const auto src_global = (this->inflation * src_id) + src_variant;
-
-                if (!done_permutation.test(src_global)) {
-                    const auto target_global = (this->inflation * src_id) + next_free_source_variant[src_id];
-                    if (src_global != target_global) {
-                        return true;
-                    }
-
-                    done_permutation.set(src_global);
-                    ++next_free_source_variant[src_id];
-                }
-            }
-        }
-
-        return false;
-    }
-
-    std::pair<bool, const std::vector<oper_name_t>&>
-    InflationContext::find_permutation(const OperatorSequence& input) const {
-
-        SmallVector<oper_name_t, 4> next_free_source_variant(this->base_network.explicit_source_count(), 0);
-
-        std::vector<oper_name_t>& permutation = get_permutation_scratch(this->total_inflated_sources);
-        std::pair<bool, const std::vector<oper_name_t>&> output{false, permutation};
-
-        DynamicBitset<uint64_t, size_t, SmallVector<uint64_t, 1>> done_permutation{this->total_inflated_sources};
-        bool& non_trivial = output.first;
-
-        // Go through operators looking for permutations
-        for (const auto op : input) {
-            const auto &opData = this->operator_info[op];
-            const auto &observableInfo = this->inflated_observables[opData.observable];
-            // Singleton operators are always canonical
-            if (observableInfo.singleton) {
-                continue;
-            }
-
-            // Is this the lowest variant possible at this point?
-            const auto &variantInfo = observableInfo.variants[opData.variant];
-            for (int s_index = observableInfo.sources.size()-1; s_index >= 0; --s_index) { // last-index-major
-                const auto src_id = observableInfo.sources[s_index];
-                assert(src_id < base_network.explicit_source_count());
-                const auto src_variant = variantInfo.indices[s_index];
-                const auto src_global = (this->inflation * src_id) + src_variant;
-
-                if (!done_permutation.test(src_global)) {
-                    const auto target_global = (this->inflation * src_id) + next_free_source_variant[src_id];
-                    permutation[src_global] = target_global;
-                    ++next_free_source_variant[src_id];
-                    done_permutation.set(src_global);
-
-                    non_trivial |= (src_global != target_global);
-                }
-            }
-        }
-        return output;
+        return this->simplify_as_moment(input) != input;
     }
 
-    OperatorSequence InflationContext::apply_permutation(const OperatorSequence& input,
-                                                         const std::vector<oper_name_t>& permutation) const {
-        // Permute operators
-        sequence_storage_t permuted_operators;
-        for (const oper_name_t op : input) {
-            assert((op >= 0) && (op < this->operator_count));
-            const auto& op_info = this->operator_info[op];
-            const auto& obs_info = this->inflated_observables[op_info.observable];
-            // Singleton operators are not permuted
-            if (obs_info.singleton) {
-                permuted_operators.emplace_back(op);
-                continue;
-            }
-
-            const auto& variant_info = obs_info.variants[op_info.variant];
-            const auto permuted_indices = this->base_network.permute_variant(this->inflation, obs_info.sources,
-                                                                             permutation, variant_info.indices);
-            const auto& permuted_variant = obs_info.variant(permuted_indices);
-
-            permuted_operators.push_back(permuted_variant.operator_offset + op_info.outcome);
-        }
-
-        // If source-relabelling causes change in operator order, there could be further simplifications:
-        if (!std::is_sorted(permuted_operators.cbegin(), permuted_operators.cend())) {
-            return this->simplify_as_moment(OperatorSequence{std::move(permuted_operators), *this, input.get_sign()}); // recurse..!
-        }
-
-        return OperatorSequence{std::move(permuted_operators), *this, input.get_sign()};
-    }
-
-
     OperatorSequence InflationContext::simplify_as_moment(OperatorSequence&& input) const {
-        assert(this->can_have_aliases());
-        // If 0, or I, or no inflation, then just pass through
-        if (input.empty()) {
-            return std::move(input);
-        }
-
-        // Can we simplify through permutation?
-        auto [non_trivial, permutations] = this->find_permutation(input);
-
-        // Early exit if no permutations made
-        if (!non_trivial) {
-            return std::move(input);
-        }
-
-        // Otherwise, apply this permutation.
-        return this->apply_permutation(input, permutations);
+        return this->simplify_as_moment(static_cast<const OperatorSequence&>(input));
     }
 
     OperatorSequence InflationContext::simplify_as_moment(const OperatorSequence& input) const {
@@ -450,16 +319,77 @@ namespace Moment::Inflation {
             return OperatorSequence{input};
         }
 
-        // Can we simplify through permutation?
-        auto [non_trivial, permutations] = this->find_permutation(input);
+        // Relabelling of (some) source variants, and the operators that are still to be relabelled.
+        struct PartialRelabelling {
+            std::vector<oper_name_t> permutation; // New source variant by global source, or -1 if not yet relabelled
+            std::vector<oper_name_t> remaining;
 
-        // Early exit if no permutations made
-        if (!non_trivial) {
-            return OperatorSequence{input};
+            auto operator<=>(const PartialRelabelling& rhs) const = default;
+        };
+
+        const auto num_sources = this->base_network.explicit_source_count();
+        const auto level = this->inflation;
+
+        // Relabel operator, giving the source variants not yet relabelled the lowest free variant number of their source.
+        auto relabel = [&](const oper_name_t op, std::vector<oper_name_t>& perm) -> oper_name_t {
+            const auto& op_info = this->operator_info[op];
+            const auto& observable_info = this->inflated_observables[op_info.observable];
+            // Singleton operators are not permuted
+            if (observable_info.singleton) {
+                return op;
+            }
+            const auto& variant_info = observable_info.variants[op_info.variant];
+            SourceIndex new_indices;
+            new_indices.reserve(observable_info.sources.size());
+            for (size_t s_index = 0; s_index < observable_info.sources.size(); ++s_index) {
+                const auto src_id = static_cast<size_t>(observable_info.sources[s_index]);
+                assert(src_id < num_sources);
+                auto src_begin = perm.begin() + static_cast<ptrdiff_t>(level * src_id);
+                auto& new_variant = *(src_begin + variant_info.indices[s_index]);
+                if (new_variant < 0) {
+                    new_variant = static_cast<oper_name_t>(std::count_if(src_begin, src_begin + level,
+                                                                         [](const auto x) { return x >= 0; }));
+                }
+                new_indices.emplace_back(new_variant);
+            }
+            return static_cast<oper_name_t>(observable_info.variant(new_indices).operator_offset + op_info.outcome);
+        };
+
+        std::vector<oper_name_t> permutation(num_sources * level, -1);
+        sequence_storage_t output;
+
+        // Factors share no sources, so relabel them one after another, in order of appearance
+        for (const auto& factor : this->factorize(input)) {
+            // Build smallest equivalent of factor operator by operator, following every relabelling that attains it.
+            std::set<PartialRelabelling> candidates;
+            candidates.insert(PartialRelabelling{permutation,
+                                                 std::vector<oper_name_t>(factor.begin(), factor.end())});
+            for (size_t position = 0; position < factor.size(); ++position) {
+                std::set<PartialRelabelling> next_candidates;
+                oper_name_t smallest = -1;
+                for (const auto& candidate : candidates) {
+                    for (size_t index = 0; index < candidate.remaining.size(); ++index) {
+                        auto next_permutation = candidate.permutation;
+                        const auto new_op = relabel(candidate.remaining[index], next_permutation);
+                        if ((smallest >= 0) && (new_op > smallest)) {
+                            continue;
+                        }
+                        if (new_op != smallest) {
+                            smallest = new_op;
+                            next_candidates.clear();
+                        }
+                        auto remaining = candidate.remaining;
+                        remaining.erase(remaining.begin() + static_cast<ptrdiff_t>(index));
+                        next_candidates.insert(PartialRelabelling{std::move(next_permutation), std::move(remaining)});
+                    }
+                }
+                output.emplace_back(smallest);
+                candidates = std::move(next_candidates);
+            }
+            permutation = candidates.begin()->permutation;
         }
 
-        // Otherwise, apply this permutation.
-        return this->apply_permutation(input, permutations);
+        return OperatorSequence{std::move(output), *this, input.get_sign()};
     }
 
     std::vector<OVOIndex>
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.h b/cpp/lib_moment/scenarios/inflation/inflation_context.h
index 7bb9827..6e7fe4b 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.h
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.h
@@ -221,12 +221,6 @@ namespace Moment::Inflation {
         [[nodiscard]] OperatorSequence simplify_as_moment(const OperatorSequence& seq) const final;
 
 
-    private:
-        std::pair<bool, const std::vector<oper_name_t>&> find_permutation(const OperatorSequence& seq) const;
-
-        OperatorSequence apply_permutation(const OperatorSequence& input,
-                                           const std::vector<oper_name_t>& permutation) const;
-    public:
         /**
          * Bitstring of sources associated with an operator sequence.
          */
-- 
2.43.0


From 823e7e60fd22be16b03a14100ae202163db5079c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:49 +0000
Subject: [PATCH 60/72] fix: unflatten_outcome_index refuses the first unknown
 observable

---
 cpp/lib_moment/scenarios/inflation/inflation_context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index e1b4b44..01da3c8 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -404,7 +404,7 @@ namespace Moment::Inflation {
         output.reserve(input.size());
         size_t index = 0;
         for (const auto& ov : input) {
-            if (ov.observable > this->inflated_observables.size()) {
+            if (ov.observable >= this->inflated_observables.size()) {
                 std::stringstream errSS;
                 errSS << "Observable \"" << ov.observable << "\" at index " << index << " out of range.";
                 throw errors::bad_observable{index, errSS.str()};
-- 
2.43.0


From d803895f73759b8a94ec2efb413d2d70e5dc30ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:36 +0000
Subject: [PATCH 61/72] fix: bases of a matrix made before its symbols were
 renumbered were handed out afterwards

---
 cpp/lib_moment/matrix/matrix_basis.cpp      | 12 ++++++++++++
 cpp/lib_moment/matrix/matrix_basis.h        |  8 ++++++++
 cpp/lib_moment/matrix/monomial_matrix.cpp   |  2 ++
 cpp/lib_moment/matrix/polynomial_matrix.cpp |  2 ++
 4 files changed, 24 insertions(+)

diff --git a/cpp/lib_moment/matrix/matrix_basis.cpp b/cpp/lib_moment/matrix/matrix_basis.cpp
index 16d7911..a767396 100644
--- a/cpp/lib_moment/matrix/matrix_basis.cpp
+++ b/cpp/lib_moment/matrix/matrix_basis.cpp
@@ -165,6 +165,18 @@ namespace Moment {
             SparseMonolithicComplex{*this, std::move(rhs.SparseMonolithicComplex)} {
     }
 
+    void MatrixBasis::reset() noexcept {
+        std::unique_lock write_lock{this->mutex};
+        this->Dense.reset();
+        this->DenseComplex.reset();
+        this->Sparse.reset();
+        this->SparseComplex.reset();
+        this->DenseMonolithic.reset();
+        this->DenseMonolithicComplex.reset();
+        this->SparseMonolithic.reset();
+        this->SparseMonolithicComplex.reset();
+    }
+
     DenseBasisInfo::MakeStorageType MatrixBasis::create_dense() {
         if (this->matrix.HasComplexCoefficients()) {
             throw errors::bad_basis_error{"Matrix has complex coefficients, and so a basis of type [R,C] cannot be created."};
diff --git a/cpp/lib_moment/matrix/matrix_basis.h b/cpp/lib_moment/matrix/matrix_basis.h
index f3c8a6b..10f9649 100644
--- a/cpp/lib_moment/matrix/matrix_basis.h
+++ b/cpp/lib_moment/matrix/matrix_basis.h
@@ -76,6 +76,11 @@ namespace Moment {
                 return MBTInfo::GetBasis(this->re, this->im); // unlock~
             }
 
+            /** Forget the cached basis, if any. */
+            void reset() noexcept {
+                this->done.store(false, std::memory_order_release);
+            }
+
             /** Constructs the basis from scratch */
             [[nodiscard]] typename MBTInfo::MakeStorageType create_basis() const;
         };
@@ -135,6 +140,9 @@ namespace Moment {
 
         MatrixBasis(const SymbolicMatrix& matrix, MatrixBasis&& rhs) noexcept;
 
+        /** Forget all cached bases, e.g. because the basis elements have been renumbered. */
+        void reset() noexcept;
+
     private:
         DenseBasisInfo::MakeStorageType create_dense();
         SparseBasisInfo::MakeStorageType create_sparse();
diff --git a/cpp/lib_moment/matrix/monomial_matrix.cpp b/cpp/lib_moment/matrix/monomial_matrix.cpp
index eabd57b..f44a530 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix.cpp
@@ -77,6 +77,8 @@ namespace Moment {
     MonomialMatrix::~MonomialMatrix() noexcept = default;
 
     void MonomialMatrix::renumerate_bases(const SymbolTable &symbols, double zero_tolerance) {
+        this->Basis.reset();
+
         for (auto& symbol : *this->sym_exp_matrix) {
             // Make conjugation status canonical:~
             if (symbol.conjugated) {
diff --git a/cpp/lib_moment/matrix/polynomial_matrix.cpp b/cpp/lib_moment/matrix/polynomial_matrix.cpp
index 51e63df..01be3e5 100644
--- a/cpp/lib_moment/matrix/polynomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/polynomial_matrix.cpp
@@ -148,6 +148,8 @@ namespace Moment {
      * Force renumbering of matrix bases keys
      */
     void PolynomialMatrix::renumerate_bases(const SymbolTable& symbols, double zero_tolerance) {
+        this->Basis.reset();
+
         for (auto& polynomial : *this->sym_exp_matrix) {
             polynomial.fix_cc_in_place(symbols, true, zero_tolerance);
         }
-- 
2.43.0


From fc4955ddc570b7da7c60bd1f631fbede3e9e3ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:52 +0000
Subject: [PATCH 62/72] fix: importing a self-adjoint matrix with complex
 factors misjudged which symbols are real or imaginary

---
 .../imported/imported_matrix_system.cpp       | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp b/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp
index 240b35f..fa67367 100644
--- a/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp
@@ -58,11 +58,7 @@ namespace Moment::Imported {
                               DynamicBitset<uint64_t>& can_be_real, DynamicBitset<uint64_t>& can_be_imaginary) {
 
             for (size_t i = 0; i < input.dimension; ++i) {
-                const auto& diagonal = input(std::array<size_t,2>{i, i});
-                // Diagonal elements are always real;
-                can_be_imaginary.unset(diagonal.id);
-
-                for (size_t j = i + 1; j < input.dimension; ++j) {
+                for (size_t j = i; j < input.dimension; ++j) {
                     auto& upper = input(std::array<size_t,2>{i, j});
                     auto& lower = input(std::array<size_t,2>{j, i});
 
@@ -73,16 +69,19 @@ namespace Moment::Imported {
 
                         throw errors::bad_import_matrix{errSS.str()};
                     }
-                    const bool conj_eq = upper.conjugated != lower.conjugated; // <- account for Hermiticity
-                    const bool neg_eq = upper.factor == lower.factor;
+                    if (upper.id == 0) {
+                        continue; // zero is always equal to its own conjugate
+                    }
 
-                    if (!conj_eq) {
-                        if (neg_eq) { // a* = a -> a = -a* -> a is real
-                            can_be_imaginary.unset(upper.id);
-                        } else { // else a* = -a -> a = -a* -> a is imaginary
+                    const auto upper_conj = std::conj(upper.factor); // <- account for Hermiticity
+                    if (upper.conjugated == lower.conjugated) { // f a = g* a*
+                        if (lower.factor != upper_conj) { // not a = a* -> a has no real part
                             can_be_real.unset(upper.id);
                         }
-                    } else if (!neg_eq) { // a = -a -> a is zero
+                        if (lower.factor != -upper_conj) { // not a = -a* -> a has no imaginary part
+                            can_be_imaginary.unset(upper.id);
+                        }
+                    } else if (lower.factor != upper_conj) { // f a = g* a, f != g* -> a is zero
                         can_be_real.unset(upper.id);
                         can_be_imaginary.unset(upper.id);
                     } // else, a* = a*, no constraints
-- 
2.43.0


From 101650e66d1bcdafab68f5ed7eb5b323b9780e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:09 +0000
Subject: [PATCH 63/72] fix: extending a matrix by several scalars read factors
 from memory the factor table had released

---
 cpp/lib_moment/scenarios/inflation/extended_matrix.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
index a4055a5..6f9664d 100644
--- a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
+++ b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
@@ -112,7 +112,8 @@ namespace Moment::Inflation {
 
             // Make bottom-right block
             for (size_t i = 0, iMax = extension_scalars.size(); i < iMax; ++i) {
-                const auto& row_factors = factors[extension_scalars[i]].canonical.symbols;
+                // Copy, because of possible re-allocation within factor table!
+                const auto row_factors = factors[extension_scalars[i]].canonical.symbols;
                 auto diag_fac_id = combine_and_register_factors(symbols, factors, row_factors, row_factors);
                 const std::array<size_t,2> diag_index{old_dimension+i, old_dimension+i};
                 extended_matrix(diag_index) = Monomial{diag_fac_id};
-- 
2.43.0


From 448c9e2438522a70bd7ac86d806ec1d1753991fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:35 +0000
Subject: [PATCH 64/72] fix: extending a matrix with several threads failed on
 a product of factors that begins another new product

---
 .../multithreading/temporary_symbols_and_factors.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp b/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
index 7be6692..7091a43 100644
--- a/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
+++ b/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
@@ -40,11 +40,9 @@ namespace Moment::Multithreading {
         // If fails, we have to look in new factors with mutex
         auto read_lock = this->get_read_lock();
 
-        // Can we directly find node?
-        auto [hint_tree, hint_factors] = this->index_tree.find_node_or_return_hint(joint_factors);
-        if (hint_factors.empty()) {
-            assert (hint_tree->value().has_value());
-            return hint_tree->value().value();
+        // Can we directly find node (with a value: it might be just the beginning of a longer string of factors)?
+        if (auto maybe_symbol_index = this->index_tree.find(joint_factors); maybe_symbol_index.has_value()) {
+            return maybe_symbol_index.value();
         }
 
         // Did not find, so we have to upgrade our lock
@@ -68,8 +66,8 @@ namespace Moment::Multithreading {
         // Now, upgrade lock to report results
         auto write_lock = this->get_write_lock();
 
-        // Check again on subtree with hint [make sure racing thread hasn't already created!]
-        if (auto maybe_symbol_index = hint_tree->find(hint_factors); maybe_symbol_index.has_value()) {
+        // Check again [make sure racing thread hasn't already created!]
+        if (auto maybe_symbol_index = this->index_tree.find(joint_factors); maybe_symbol_index.has_value()) {
             return maybe_symbol_index.value();
         }
 
-- 
2.43.0


From 2f67501facfd4fc77fcd42fdd0f2a009e82f7daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:35 +0000
Subject: [PATCH 65/72] fix: extending a matrix with several threads by an
 unknown symbol read out of bounds instead of refusing

---
 .../scenarios/inflation/extended_matrix.cpp    | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
index 6f9664d..bc8e56f 100644
--- a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
+++ b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
@@ -61,15 +61,6 @@ namespace Moment::Inflation {
                                            const MomentMatrix& moment_matrix,
                                            const std::span<const symbol_name_t> extension_scalars) {
 
-            // Check scalars are in range
-            for (const auto scalar : extension_scalars) {
-                if ((scalar >= symbols.size()) || (scalar < 0)) {
-                    std::stringstream errSS;
-                    errSS << "Cannot extend matrix with unknown symbol \"" << scalar << "\".";
-                    throw std::logic_error{errSS.str()};
-                }
-            }
-
             // Create matrix, with source matrix as upper block
             const size_t padding = extension_scalars.size();
             auto extended_matrix = source.SymbolMatrix().pad(padding, Monomial{0});
@@ -164,6 +155,15 @@ namespace Moment::Inflation {
                 throw std::invalid_argument{"Scalar extension of non-Hermitian matrices is not supported."};
             }
 
+            // Check scalars are in range
+            for (const auto scalar : extension_scalars) {
+                if ((scalar >= symbols.size()) || (scalar < 0)) {
+                    std::stringstream errSS;
+                    errSS << "Cannot extend matrix with unknown symbol \"" << scalar << "\".";
+                    throw std::logic_error{errSS.str()};
+                }
+            }
+
             // Get target dimension
             const size_t target_dimension = source.Dimension() + extension_scalars.size();
             const bool should_multithread
-- 
2.43.0


From 8528dac35436d73eed8442a179d72bfbd9d86f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:45 +0000
Subject: [PATCH 66/72] fix: first operator keeps its name when conjugates are
 interleaved

---
 cpp/lib_moment/scenarios/algebraic/name_table.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/name_table.cpp b/cpp/lib_moment/scenarios/algebraic/name_table.cpp
index 65cfbd8..3ed79bf 100644
--- a/cpp/lib_moment/scenarios/algebraic/name_table.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/name_table.cpp
@@ -83,7 +83,9 @@ namespace Moment::Algebraic {
                     std::string conj_str = this->names[idx];
                     conj_str.append("*");
 
-                    this->names[2*idx] = std::move(this->names[idx]);
+                    if (idx > 0) { // (Self-move would leave the first name empty.)
+                        this->names[2*idx] = std::move(this->names[idx]);
+                    }
 
                     this->index.emplace(std::make_pair(conj_str, (2*idx+1)));
                     this->names[2*idx+1] = std::move(conj_str);
-- 
2.43.0


From 62e5f850c44efe33d293d22abec616c2058b6d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:45 +0000
Subject: [PATCH 67/72] fix: traditional formatter writes outcome once

---
 .../scenarios/locality/locality_operator_formatter.cpp         | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/locality/locality_operator_formatter.cpp b/cpp/lib_moment/scenarios/locality/locality_operator_formatter.cpp
index 3d829c9..8968cab 100644
--- a/cpp/lib_moment/scenarios/locality/locality_operator_formatter.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_operator_formatter.cpp
@@ -50,8 +50,7 @@ namespace Moment::Locality {
 
     std::ostream&
     TraditionalLOFormatter::format(std::ostream &os, const Measurement &mmt, oper_name_t outcome_num) const {
-        os << mmt.name << outcome_num;
-        os << outcome_num << "|" << mmt.Index().mmt;
+        os << mmt.name << outcome_num << "|" << mmt.Index().mmt;
         return os;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 681cbe4516e5b53946980ac0378e0f018eb02386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:01 +0000
Subject: [PATCH 68/72] fix: sums of operator sequences show scalars, signs and
 zero readably

---
 cpp/lib_moment/dictionary/raw_polynomial.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/dictionary/raw_polynomial.cpp b/cpp/lib_moment/dictionary/raw_polynomial.cpp
index 319cfbb..8ee4366 100644
--- a/cpp/lib_moment/dictionary/raw_polynomial.cpp
+++ b/cpp/lib_moment/dictionary/raw_polynomial.cpp
@@ -44,10 +44,26 @@ namespace Moment {
         ContextualOS cSS{ss, context};
         cSS.format_info.show_braces = true;
 
+        // No elements: zero.
+        if (this->data.empty()) {
+            return "0";
+        }
+
         bool done_once = false;
         for (const auto& elem : this->data) {
-            format_factor(cSS, elem.weight, false, done_once);
-            cSS << elem.sequence;
+            if (elem.sequence.zero()) {
+                cSS << (done_once ? " + 0" : "0");
+            } else {
+                // Sign of sequence is shown as part of factor
+                auto unsigned_sequence = elem.sequence;
+                unsigned_sequence.set_sign(SequenceSignType::Positive);
+
+                const bool is_scalar = unsigned_sequence.empty();
+                format_factor(cSS, elem.weight * to_scalar(elem.sequence.get_sign()), is_scalar, done_once);
+                if (!is_scalar) {
+                    cSS << unsigned_sequence;
+                }
+            }
             done_once = true;
         }
 
-- 
2.43.0


From 9d0e88c71502321135267ba406d3b0d59d085cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:11 +0000
Subject: [PATCH 69/72] fix: sign of a symbol's operator sequence is shown as
 part of the factor

---
 cpp/lib_moment/symbolic/monomial.cpp | 31 ++++++++++++++++------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/cpp/lib_moment/symbolic/monomial.cpp b/cpp/lib_moment/symbolic/monomial.cpp
index 10ae9e7..bc4c738 100644
--- a/cpp/lib_moment/symbolic/monomial.cpp
+++ b/cpp/lib_moment/symbolic/monomial.cpp
@@ -9,6 +9,7 @@
 #include <cassert>
 
 #include <iostream>
+#include <optional>
 
 #include "scenarios/context.h"
 #include "scenarios/contextual_os_helper.h"
@@ -112,8 +113,21 @@ namespace Moment {
         // Is element a scalar?
         const bool is_scalar = (this->id == 1);
 
-        // Write factor
-        const bool need_space = format_factor(os.os, this->factor, is_scalar, !os.format_info.first_in_polynomial);
+        // Find operator sequence associated with symbol (if any)
+        const auto& symbols = *os.symbols;
+        const bool valid_symbol = ((this->id >= 0) && (this->id < symbols.size()));
+        std::optional<OperatorSequence> sequence;
+        if (!is_scalar && valid_symbol && symbols[this->id].has_sequence()) {
+            sequence.emplace(this->conjugated ? symbols[this->id].sequence_conj() : symbols[this->id].sequence());
+        }
+
+        // Write factor, including any sign associated with the operator sequence
+        std::complex<double> total_factor = this->factor;
+        if (sequence.has_value()) {
+            total_factor *= to_scalar(sequence->get_sign());
+            sequence->set_sign(SequenceSignType::Positive);
+        }
+        const bool need_space = format_factor(os.os, total_factor, is_scalar, !os.format_info.first_in_polynomial);
 
         // Scalar, factor alone is enough
         if (is_scalar) {
@@ -134,23 +148,14 @@ namespace Moment {
         }
 
         // Skip if symbol not in table.
-        const auto& symbols = *os.symbols;
-        const bool valid_symbol = ((this->id >= 0) && (this->id < symbols.size()));
         if (!valid_symbol) {
             os.os << "UNK#" << this->id;
             return;
         }
 
-        // Get symbol information
-        const auto &symbol_info = symbols[this->id];
-
         // Is symbol associated with operator sequence?
-        if (symbol_info.has_sequence()) {
-            if (this->conjugated) {
-                os.context.format_sequence(os, symbol_info.sequence_conj());
-            } else {
-                os.context.format_sequence(os, symbol_info.sequence());
-            }
+        if (sequence.has_value()) {
+            os.context.format_sequence(os, sequence.value());
         } else { // Otherwise, fall back to other OS information
             os.context.format_sequence_from_symbol_id(os, this->id, this->conjugated);
         }
-- 
2.43.0


From a02bcc0ccfb12c91f563647b5b081b7e81905bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:11 +0000
Subject: [PATCH 70/72] fix: derived symbols are bracketed when shown as
 polynomials

---
 .../scenarios/derived/derived_context.cpp     | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/cpp/lib_moment/scenarios/derived/derived_context.cpp b/cpp/lib_moment/scenarios/derived/derived_context.cpp
index 4b05261..cb9ae2d 100644
--- a/cpp/lib_moment/scenarios/derived/derived_context.cpp
+++ b/cpp/lib_moment/scenarios/derived/derived_context.cpp
@@ -34,12 +34,19 @@ namespace Moment::Derived {
         baseCOS.format_info.locality_formatter = os.format_info.locality_formatter;
 
         // Use polynomials from STM to infer inverse
-        if (conjugated) {
-            auto poly = this->map_ptr->inverse(Monomial{symbol_id, 1.0, true});
-            baseCOS << poly;
-        } else {
-            const auto& poly = this->map_ptr->inverse(symbol_id);
-            baseCOS << poly;
+        const Polynomial poly = conjugated ? this->map_ptr->inverse(Monomial{symbol_id, 1.0, true})
+                                           : this->map_ptr->inverse(symbol_id);
+
+        // A prefactor may precede this text, so anything beyond a bare monomial needs brackets
+        const bool bare_monomial = (poly.size() == 1) && (poly.begin()->factor == 1.0)
+                                    && (poly.begin()->id > 1) && !poly.begin()->conjugated;
+        const bool needs_brackets = !bare_monomial;
+        if (needs_brackets) {
+            os.os << "(";
+        }
+        baseCOS << poly;
+        if (needs_brackets) {
+            os.os << ")";
         }
     }
 
-- 
2.43.0


From 7c79e5d3b1c81e0ae3cc6b48037fe84d4861f1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:37 +0000
Subject: [PATCH 71/72] fix: signs of operator sequences are shown in every
 scenario

---
 .../scenarios/algebraic/algebraic_context.cpp   |  3 ++-
 .../scenarios/inflation/inflation_context.cpp   | 17 ++++++++++++++---
 .../scenarios/locality/locality_context.cpp     | 17 ++++++++++++++---
 3 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
index 742c8b3..53e407f 100644
--- a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
@@ -169,8 +169,9 @@ namespace Moment::Algebraic {
             return;
         }
 
+        // Identity, including its sign
         if (seq.empty()) {
-            os.os << "1";
+            Context::format_sequence(os, seq);
             return;
         }
 
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index 01da3c8..5361d81 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -501,13 +501,24 @@ namespace Moment::Inflation {
             os.os << "0";
             return;
         }
+        // Identity, including its sign
         if (seq.empty()) {
-            os.os << "1";
+            Context::format_sequence(os, seq);
             return;
         }
 
-        if (seq.negated()) {
-            os.os << "-";
+        switch (seq.get_sign()) {
+            case SequenceSignType::Positive:
+                break;
+            case SequenceSignType::Imaginary:
+                os.os << "i";
+                break;
+            case SequenceSignType::Negative:
+                os.os << "-";
+                break;
+            case SequenceSignType::NegativeImaginary:
+                os.os << "-i";
+                break;
         }
 
         if (os.format_info.show_braces) {
diff --git a/cpp/lib_moment/scenarios/locality/locality_context.cpp b/cpp/lib_moment/scenarios/locality/locality_context.cpp
index c9628d4..16841b9 100644
--- a/cpp/lib_moment/scenarios/locality/locality_context.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_context.cpp
@@ -223,13 +223,24 @@ namespace Moment::Locality {
                 os << "0";
                 return;
             }
+            // Identity, including its sign
             if (seq.empty()) {
-                os << "1";
+                context.Context::format_sequence(os, seq);
                 return;
             }
 
-            if (seq.negated()) {
-                os << "-";
+            switch (seq.get_sign()) {
+                case SequenceSignType::Positive:
+                    break;
+                case SequenceSignType::Imaginary:
+                    os.os << "i";
+                    break;
+                case SequenceSignType::Negative:
+                    os.os << "-";
+                    break;
+                case SequenceSignType::NegativeImaginary:
+                    os.os << "-i";
+                    break;
             }
 
             if (os.format_info.show_braces) {
-- 
2.43.0


From 828056bf09a0445c4872a1f58d62eca0c280a6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:52 +0000
Subject: [PATCH 72/72] fix: OperatorRule::implies tells rules apart that
 differ by a sign or map to zero

---
 cpp/lib_moment/scenarios/algebraic/operator_rule.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
index 3d4a85e..f4666b8 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
@@ -139,6 +139,11 @@ namespace Moment::Algebraic {
     }
 
     bool OperatorRule::implies(const OperatorRule &other) const noexcept {
+        // Rules that map to zero, or that introduce different signs, are different claims
+        if ((this->map_to_zero != other.map_to_zero) || (this->rule_sign() != other.rule_sign())) {
+            return false;
+        }
+
         // First, do we find LHS in other rule LHS?
         auto embeddedLHS_begin = this->rawLHS.matches_anywhere(other.rawLHS.begin(), other.rawLHS.end());
         if (embeddedLHS_begin== other.rawLHS.end()) {
-- 
2.43.0

