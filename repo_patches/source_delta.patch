From b760a0a9bd7a8bf410eaf405a1e117467f6d0373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 01/91] fix: hash pre-sorted operator sequence before its
 storage is moved from

---
 cpp/lib_moment/dictionary/operator_sequence.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/dictionary/operator_sequence.cpp b/cpp/lib_moment/dictionary/operator_sequence.cpp
index c51557b..68f27d5 100644
--- a/cpp/lib_moment/dictionary/operator_sequence.cpp
+++ b/cpp/lib_moment/dictionary/operator_sequence.cpp
@@ -41,7 +41,7 @@ namespace Moment {
                                        sequence_storage_t operators,
                                        const Context &context,
                                        const SequenceSignType sign_type) noexcept
-        : HashedSequence{std::move(operators), context.hash(operators), sign_type}, context{&context} {
+        : HashedSequence{std::move(operators), context.the_hasher(), sign_type}, context{&context} {
 
     }
 
-- 
2.43.0


From 1046448a06a5d12cf23bdf5e5a70bc622d84e66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 02/91] fix: Pauli product of zero with signed identity is
 zero, without sign

---
 cpp/lib_moment/scenarios/pauli/pauli_context.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/lib_moment/scenarios/pauli/pauli_context.cpp b/cpp/lib_moment/scenarios/pauli/pauli_context.cpp
index c20ff0e..b01b158 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_context.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_context.cpp
@@ -189,6 +189,11 @@ namespace Moment::Pauli {
 
     OperatorSequence PauliContext::multiply(const OperatorSequence &lhs, const OperatorSequence &rhs) const {
 
+        // Zero times anything is (unsigned) zero
+        if (lhs.zero() || rhs.zero()) [[unlikely]] {
+            return OperatorSequence::Zero(*this);
+        }
+
         // Get initial sign of product
         SequenceSignType sign = lhs.get_sign() * rhs.get_sign();
 
-- 
2.43.0


From e422c37b1e312da1ff19bf735303e365caf0f48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 03/91] fix: longest hashable string must not include lengths
 whose shortlex hash overflows

---
 cpp/lib_moment/shortlex_hasher.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/shortlex_hasher.h b/cpp/lib_moment/shortlex_hasher.h
index e650b0d..ba724b2 100644
--- a/cpp/lib_moment/shortlex_hasher.h
+++ b/cpp/lib_moment/shortlex_hasher.h
@@ -68,9 +68,20 @@ namespace Moment {
                 // Hash is basically just string length for radix 1.
                 return std::numeric_limits<size_t>::max() - this->offset;
             }
-            return static_cast<size_t>(
-                    static_cast<double>(std::numeric_limits<size_t>::digits) / std::log2(this->radix)
-            );
+            if (this->radix == 0) {
+                // No operators, so only the empty string can be hashed.
+                return 0;
+            }
+            // Highest hash of a string of length N is offset + radix + radix^2 + ... + radix^N: this must not overflow.
+            size_t length = 0;
+            hash_t stride = 1;
+            hash_t headroom = std::numeric_limits<hash_t>::max() - this->offset;
+            while (stride <= headroom / this->radix) {
+                stride *= this->radix;
+                headroom -= stride;
+                ++length;
+            }
+            return length;
         }
     };
 }
\ No newline at end of file
-- 
2.43.0


From 0f404ed57ea0c26c5015372c0f328bdae3269e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 04/91] fix: algebraic rule equating a word with a multiple of
 itself maps it to zero

---
 cpp/lib_moment/scenarios/algebraic/operator_rule.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
index cd31409..7cbab83 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
@@ -77,8 +77,16 @@ namespace Moment::Algebraic {
         this->rawRHS.set_sign(difference(this->rawLHS.get_sign(), this->rawRHS.get_sign()));
         this->rawLHS.set_sign(SequenceSignType::Positive);
 
+        // 0 has no sign, and A = kA for k =/= 1 can only be satisfied by A = 0
+        if (this->map_to_zero || ((this->rawLHS.hash() == this->rawRHS.hash())
+                                  && (this->rawRHS.get_sign() != SequenceSignType::Positive))) {
+            this->rawRHS.set_to_zero();
+            this->map_to_zero = true;
+            this->delta = -static_cast<ptrdiff_t>(this->rawLHS.size());
+        }
+
         // Determine if rule is trivial
-        this->is_trivial = (this->rawLHS.hash() == this->rawRHS.hash()) && !this->rawRHS.negated();
+        this->is_trivial = (this->rawLHS.hash() == this->rawRHS.hash());
 
         // Check rule is a reduction
         if (rawLHS.hash() < rawRHS.hash()) {
-- 
2.43.0


From a7abc5ce4687c6a938462473327ec13cfef85993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 05/91] fix: algebraic reduction and conjugation keep the sign
 of identity and of non-Hermitian words

---
 cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp | 2 +-
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
index 522f266..742c8b3 100644
--- a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
@@ -159,7 +159,7 @@ namespace Moment::Algebraic {
             return OperatorSequence::Zero(*this);
         }
 
-        return OperatorSequence{this->precontext.conjugate(seq.raw()), *this};
+        return OperatorSequence{this->precontext.conjugate(seq.raw()), *this, Moment::conjugate(seq.get_sign())};
     }
 
 
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 52f50f8..1a10c74 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -192,7 +192,7 @@ namespace Moment::Algebraic {
     HashedSequence OperatorRulebook::reduce(const HashedSequence& input) const {
         // Empty string, or empty rulebook, should just be forwarded
         if (input.empty()) {
-            return HashedSequence{input.zero()};
+            return input;
         } else if (this->monomialRules.empty()) {
             return input;
         }
@@ -241,8 +241,7 @@ namespace Moment::Algebraic {
                 input.set_sign(sign_type);
                 break;
             case RawReductionResult::SetToZero:
-                input.raw().clear();
-                input.rehash(0);
+                input.set_to_zero();
                 break;
         }
         return result;
@@ -296,6 +295,7 @@ namespace Moment::Algebraic {
                 if (auto found_rule = this->monomialRules.find(*iter); found_rule != this->monomialRules.end()) {
                     // Reduced to zero?
                     if (found_rule->second.rawRHS.zero()) {
+                        sign_type = SequenceSignType::Positive;
                         return RawReductionResult::SetToZero;
                     }
 
-- 
2.43.0


From a44bf32ac4102e7cd88a68212f703f843c0a265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 06/91] fix: algebraic completion resolves every overlap of
 rules, including with themselves

---
 .../scenarios/algebraic/operator_rule.cpp     | 52 ++++++++--
 .../scenarios/algebraic/operator_rule.h       | 21 ++++
 .../scenarios/algebraic/operator_rulebook.cpp | 99 +++++++++----------
 3 files changed, 114 insertions(+), 58 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
index 7cbab83..828efc5 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.cpp
@@ -21,6 +21,11 @@ namespace Moment::Algebraic {
 
         invalid_rule::invalid_rule(const std::string &why)
             : std::logic_error("Invalid rule: " + why) {
+
+        }
+
+        overlong_string::overlong_string()
+            : std::length_error("Combination of rules involves a string too long to be hashed.") {
         }
     }
 
@@ -171,14 +176,48 @@ namespace Moment::Algebraic {
             return std::nullopt;
         }
 
-        // Next, make merged string from both rules' LHS
+        return this->combine_at(other, static_cast<ptrdiff_t>(this->rawLHS.size()) - overlap_size, pc);
+    }
+
+    std::vector<OperatorRule>
+    OperatorRule::combine_all(const OperatorRule &other, const AlgebraicPrecontext& pc) const {
+        std::vector<OperatorRule> output;
+        const auto this_size = static_cast<ptrdiff_t>(this->rawLHS.size());
+        const auto other_size = static_cast<ptrdiff_t>(other.rawLHS.size());
+        if (other_size == 0) {
+            return output;
+        }
+
+        for (ptrdiff_t offset = 0; offset < this_size; ++offset) {
+            // Same string matched by rules with same LHS: no new information
+            if ((offset == 0) && (this->rawLHS.hash() == other.rawLHS.hash())) {
+                continue;
+            }
+            const auto overlap_size = std::min(this_size - offset, other_size);
+            if (std::equal(this->rawLHS.begin() + offset, this->rawLHS.begin() + offset + overlap_size,
+                           other.rawLHS.begin())) {
+                output.emplace_back(this->combine_at(other, offset, pc));
+            }
+        }
+        return output;
+    }
+
+    OperatorRule OperatorRule::combine_at(const OperatorRule &other, const ptrdiff_t offset,
+                                          const AlgebraicPrecontext& pc) const {
+        const auto overlap_size = std::min(static_cast<ptrdiff_t>(this->rawLHS.size()) - offset,
+                                           static_cast<ptrdiff_t>(other.rawLHS.size()));
+
+        // Make merged string from both rules' LHS
         sequence_storage_t joined_string;
         joined_string.reserve(static_cast<ptrdiff_t>(this->rawLHS.size() + other.rawLHS.size())
                               - overlap_size);
-        std::copy(this->rawLHS.begin(), this->rawLHS.end() - static_cast<ptrdiff_t>(overlap_size),
-                  std::back_inserter(joined_string));
-        std::copy(other.rawLHS.begin(), other.rawLHS.end(),
-                  std::back_inserter(joined_string));
+        std::copy(this->rawLHS.begin(), this->rawLHS.end(), std::back_inserter(joined_string));
+        std::copy(other.rawLHS.begin() + overlap_size, other.rawLHS.end(), std::back_inserter(joined_string));
+
+        // The order of rules is only known for strings that can be hashed
+        if (joined_string.size() > pc.hasher.longest_hashable_string()) {
+            throw errors::overlong_string{};
+        }
 
         // Apply this rule to joint string
         auto rawViaThis = this->apply_match_with_hint(joined_string, joined_string.begin());
@@ -186,8 +225,7 @@ namespace Moment::Algebraic {
 
         // Apply other rule to joint string
         auto rawViaOther = other.apply_match_with_hint(joined_string,
-                                                       joined_string.cend()
-                                                        - static_cast<ptrdiff_t>(other.rawLHS.size()));
+                                                       joined_string.cbegin() + offset);
         auto rawHashOther = other.implies_zero() ? 0 : pc.hash(rawViaOther);
 
         // Negative if only one rule involves negation (and we are not setting to zero).
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rule.h b/cpp/lib_moment/scenarios/algebraic/operator_rule.h
index 740b8b2..b85aa82 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rule.h
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rule.h
@@ -30,6 +30,11 @@ namespace Moment::Algebraic {
             explicit invalid_rule(const std::string& why);
         };
 
+        /** Overlapping rules make a string too long to be hashed. */
+        class overlong_string : public std::length_error {
+        public:
+            overlong_string();
+        };
     }
 
     class AlgebraicPrecontext;
@@ -78,6 +83,17 @@ namespace Moment::Algebraic {
         [[nodiscard]] std::optional<OperatorRule> combine(const OperatorRule& other,
                                                           const AlgebraicPrecontext& precontext) const;
 
+        /**
+         * Forms every new rule that follows from this rule and another matching overlapping parts of one string: i.e.
+         * every suffix of this LHS that is a prefix of the other LHS, and every appearance of other LHS in this LHS.
+         * @param other The rule to combine this with (may be this rule itself).
+         * @param precontext The operator context, for generating new rules.
+         * @throws overlong_string if a joint string is too long to be hashed.
+         */
+        [[nodiscard]] std::vector<OperatorRule> combine_all(const OperatorRule& other,
+                                                            const AlgebraicPrecontext& precontext) const;
+
+
         /**
          * True, if this rule directly implies the supplied other rule.
          */
@@ -105,5 +121,10 @@ namespace Moment::Algebraic {
         friend std::ostream& operator<<(std::ostream& os, const OperatorRule& msr);
 
         friend class OperatorRulebook;
+
+    private:
+        /** Form rule from joint string, beginning with this rule's LHS, and with the other rule's LHS at an offset. */
+        [[nodiscard]] OperatorRule combine_at(const OperatorRule& other, ptrdiff_t offset,
+                                              const AlgebraicPrecontext& precontext) const;
     };
 }
\ No newline at end of file
diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 1a10c74..46e354b 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -166,7 +166,14 @@ namespace Moment::Algebraic {
 
         // Now, standard Knuth-Bendix loop
         while(iteration < max_iterations) {
-            if (!this->try_new_combination(logger)) {
+            bool found_new_rule = false;
+            try {
+                found_new_rule = this->try_new_combination(logger);
+            } catch (const errors::overlong_string&) {
+                // Rule set cannot be completed with strings that can be hashed.
+                break;
+            }
+            if (!found_new_rule) {
                 if (logger) {
                     logger->success(*this, iteration);
                 }
@@ -473,31 +480,29 @@ namespace Moment::Algebraic {
         }
 
         // Look for non-trivially overlapping rules
-        for (auto iterA = this->monomialRules.begin(); iterA != this->monomialRules.end(); ++iterA) {
-            auto &ruleA = iterA->second;
-            for (auto iterB = this->monomialRules.begin(); iterB != this->monomialRules.end(); ++iterB) {
-                auto &ruleB = iterB->second;
-                // Don't compare to self
-                if (iterB == iterA) {
-                    continue;
-                }
-
-                // Can we form a rule by combining?
-                auto maybe_combined_rule = ruleA.combine(ruleB, this->precontext);
-                if (!maybe_combined_rule.has_value()) {
-                    continue;
-                }
-
-                // Reduce new rule
-                auto combined_reduced_rule = this->reduce(maybe_combined_rule.value());
-
-                // Is the new rule trivial?
-                if (combined_reduced_rule.trivial()) {
-                    continue;
+        try {
+            for (auto iterA = this->monomialRules.begin(); iterA != this->monomialRules.end(); ++iterA) {
+                auto &ruleA = iterA->second;
+                for (auto iterB = this->monomialRules.begin(); iterB != this->monomialRules.end(); ++iterB) {
+                    auto &ruleB = iterB->second;
+
+                    // Look through rules formed by combining
+                    for (const auto& combined_rule : ruleA.combine_all(ruleB, this->precontext)) {
+                        // Reduce new rule
+                        auto combined_reduced_rule = this->reduce(combined_rule);
+
+                        // Is the new rule trivial?
+                        if (combined_reduced_rule.trivial()) {
+                            continue;
+                        }
+                        // Not complete: a non-trivial rule was found
+                        return false;
+                    }
                 }
-                // Not complete: a non-trivial rule was found
-                return false;
             }
+        } catch (const errors::overlong_string&) {
+            // Overlap cannot be resolved with strings that can be hashed.
+            return false;
         }
         // Complete: no non-trivial rules were found.
         return true;
@@ -513,40 +518,32 @@ namespace Moment::Algebraic {
             auto& ruleA = iterA->second;
             for (auto iterB = this->monomialRules.begin(); iterB != this->monomialRules.end(); ++iterB) {
                 auto& ruleB = iterB->second;
-                // Don't compare to self
-                if (iterB == iterA) {
-                    continue;
-                }
-
-                // Can we form a rule by combining?
-                auto maybe_combined_rule = ruleA.combine(ruleB, this->precontext);
-                if (!maybe_combined_rule.has_value()) {
-                    continue;
-                }
 
-                // Reduce new rule
-                auto combined_reduced_rule = this->reduce(maybe_combined_rule.value());
+                // Look through rules formed by combining
+                for (const auto& combined_rule : ruleA.combine_all(ruleB, this->precontext)) {
+                    // Reduce new rule
+                    auto combined_reduced_rule = this->reduce(combined_rule);
 
-                // Is the new rule trivial?
-                if (combined_reduced_rule.trivial()) {
-                    continue;
-                }
+                    // Is the new rule trivial?
+                    if (combined_reduced_rule.trivial()) {
+                        continue;
+                    }
 
-                // Non-trivial, add it to rule set
-                if (logger) {
-                    logger->rule_introduced(ruleA, ruleB, combined_reduced_rule);
-                }
-                size_t rule_hash = combined_reduced_rule.LHS().hash();
-                this->monomialRules.insert(std::make_pair(rule_hash, std::move(combined_reduced_rule)));
+                    // Non-trivial, add it to rule set
+                    if (logger) {
+                        logger->rule_introduced(ruleA, ruleB, combined_reduced_rule);
+                    }
+                    size_t rule_hash = combined_reduced_rule.LHS().hash();
+                    this->monomialRules.insert(std::make_pair(rule_hash, std::move(combined_reduced_rule)));
 
-                // Reduce ruleset
-                this->reduce_ruleset(logger);
+                    // Reduce ruleset
+                    this->reduce_ruleset(logger);
 
-                // Signal a rule was added
-                return true;
+                    // Signal a rule was added
+                    return true;
+                }
             }
         }
-
         return false;
     }
 
-- 
2.43.0


From ead9be5e982fb98bfff097c2d36f96ee25a13a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 07/91] fix: algebraic completion considers adjoints of every
 rule

---
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 46e354b..1d6e056 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -577,6 +577,7 @@ namespace Moment::Algebraic {
                 // A new rule was added, iter is de facto invalidated, so restart at beginning of set...
                 rule_iter = this->rules().begin();
                 ++added;
+                continue;
             }
             // No new rule, try next rule in set...
             ++rule_iter;
-- 
2.43.0


From 13275b3207809faca1455c5762ce1cfa5d5637f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:10 +0000
Subject: [PATCH 08/91] fix: algebraic reduction of the identity, once the
 rules make it zero

---
 cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
index 1d6e056..4b41864 100644
--- a/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/operator_rulebook.cpp
@@ -199,6 +199,10 @@ namespace Moment::Algebraic {
     HashedSequence OperatorRulebook::reduce(const HashedSequence& input) const {
         // Empty string, or empty rulebook, should just be forwarded
         if (input.empty()) {
+            // ...unless the identity itself has been found to be zero.
+            if (this->monomialRules.contains(input.hash())) {
+                return HashedSequence{true};
+            }
             return input;
         } else if (this->monomialRules.empty()) {
             return input;
-- 
2.43.0


From 575cef93f9dfc12501a117089703da0aa3c61f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:31 +0000
Subject: [PATCH 09/91] fix: lattice nearest-neighbour triplets include the
 bottom-right corner

---
 cpp/lib_moment/scenarios/pauli/pauli_osg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
index d207cfd..f3b87aa 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
@@ -205,7 +205,7 @@ namespace Moment::Pauli {
                 // Bottom left corner
                 ld.symmetrical_fill(std::array<size_t, 3>{0, 1, context.col_height+1}, false);
                 // Bottom right corner
-                ld.symmetrical_fill(std::array<size_t, 3>{0, context.col_height, context.col_height+1}, false);
+                ld.symmetrical_fill(std::array<size_t, 3>{1, context.col_height, context.col_height+1}, false);
             }
 
             return sequences.size() - initial_count;
-- 
2.43.0


From 682224ca0e72b5b632d488431df89b1546e0090a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:30 +0000
Subject: [PATCH 10/91] fix: wrapped Pauli generators list each sequence once

---
 cpp/lib_moment/scenarios/pauli/pauli_osg.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
index f3b87aa..fb6dd93 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_osg.cpp
@@ -12,8 +12,21 @@
 #include "utilities/combinations.h"
 #include "dictionary/multi_operator_iterator.h"
 
+#include <set>
+
 namespace Moment::Pauli {
     namespace {
+        /**
+         * Remove repeated sequences, keeping the first instance of each.
+         * Required when wrapping, since distinct offsets can yield the same set of qubits.
+         */
+        void remove_aliases(std::vector<OperatorSequence>& sequences) {
+            std::set<uint64_t> known_hashes;
+            std::erase_if(sequences, [&known_hashes](const OperatorSequence& seq) {
+                return !known_hashes.insert(seq.hash()).second;
+            });
+        }
+
         /**
          * Calculates nearest neighbour sequences in a chain, with and without wrapping.
          * @tparam wrapped True, to wrap around qubits.
@@ -386,6 +399,11 @@ namespace Moment::Pauli {
                                                word_length, this->nearest_neighbour_index.neighbours);
             }
         }
+
+        // Small wrapped systems can produce the same sequence more than once
+        if (wrap) {
+            remove_aliases(this->unique_sequences);
+        }
     }
 
 
-- 
2.43.0


From d8691d80f18a07905d5fc6e7e0ce26cf1f840700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:30 +0000
Subject: [PATCH 11/91] fix: site mask for chains longer than one slide

---
 cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
index 5231d2f..499d34c 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
@@ -76,7 +76,7 @@ namespace Moment::Pauli {
         */
         [[nodiscard]] constexpr static storage_t
         calculate_mask_from_bits(const size_t num_bits) noexcept {
-            if ((2 * qubits_per_slide == num_bits) || (0 == num_bits)) {
+            if ((num_bits >= 2 * qubits_per_slide) || (0 == num_bits)) {
                 return ~static_cast<storage_t>(0); // 0xff...ff
             }
 
-- 
2.43.0


From 94b9776506eb782da499e1229f7c012dfe36af1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:30 +0000
Subject: [PATCH 12/91] fix: translated copies on rectangular wrapped lattices
 cover every row

---
 .../scenarios/pauli/symmetry/lattice_duplicator.cpp         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
index 5affa3e..391cf9d 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/lattice_duplicator.cpp
@@ -97,7 +97,7 @@ namespace Moment::Pauli {
 
             // Lattice
             for (size_t col = 0; col < hasher.row_width; ++col) {
-                for (size_t row = (col != 0) ? 0 : 1; row < hasher.row_width; ++row) {
+                for (size_t row = (col != 0) ? 0 : 1; row < hasher.column_height; ++row) {
                     for (const auto& base_hash : base_hashes) {
                         output.emplace_back(OperatorSequence::ConstructPresortedFlag{},
                                             hasher.unhash(hasher.lattice_shift(base_hash, row, col)),
@@ -145,8 +145,8 @@ namespace Moment::Pauli {
             // Reason from indices if aliasing is completely impossible
             MomentSimplifierNoWrappingLattice nowrap{duplicator.context};
             auto [max_row, max_col] = nowrap.lattice_supremum(lattice_indices);
-            const bool no_horz_alias = (max_row <= hasher.row_width/2);
-            const bool no_vert_alias = (max_col <= hasher.column_height/2);
+            const bool no_horz_alias = (max_col <= hasher.row_width/2);
+            const bool no_vert_alias = (max_row <= hasher.column_height/2);
             if (no_horz_alias && no_vert_alias) {
                 return do_unaliased_lattice_symmetric_fill(duplicator, output, hasher, lattice_indices);
             }
-- 
2.43.0


From bfc33756327ecdcec37f13e7d235d40ae8a9303d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 13/91] fix: source-relabelling of a moment keeps the sign of
 the word

---
 cpp/lib_moment/scenarios/inflation/inflation_context.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index 72a0bf8..c132f7a 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -417,10 +417,11 @@ namespace Moment::Inflation {
 
         // If source-relabelling causes change in operator order, there could be further simplifications:
         if (!std::is_sorted(permuted_operators.cbegin(), permuted_operators.cend())) {
-            return this->simplify_as_moment(OperatorSequence{std::move(permuted_operators), *this}); // recurse..!
+            return this->simplify_as_moment(OperatorSequence{std::move(permuted_operators), *this,
+                                                             input.get_sign()}); // recurse..!
         }
 
-        return OperatorSequence{std::move(permuted_operators), *this};
+        return OperatorSequence{std::move(permuted_operators), *this, input.get_sign()};
     }
 
 
-- 
2.43.0


From f48db4800b447ce34d1c1d792387d55c7351947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 14/91] fix: dictionary words whose adjoint is their negative
 are registered as anti-Hermitian

---
 cpp/lib_moment/symbolic/symbol_table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/symbol_table.cpp b/cpp/lib_moment/symbolic/symbol_table.cpp
index 7e87051..ce0b850 100644
--- a/cpp/lib_moment/symbolic/symbol_table.cpp
+++ b/cpp/lib_moment/symbolic/symbol_table.cpp
@@ -326,7 +326,7 @@ namespace Moment {
 
             if (seq_hash == conj_hash) {
                 build_unique.emplace_hint(build_unique.end(),
-                                          std::make_pair(seq_hash, Symbol{op_seq}));
+                                          std::make_pair(seq_hash, Symbol{op_seq, std::move(conj_seq)}));
             } else if (seq_hash < conj_hash) {
                 build_unique.emplace_hint(build_unique.end(),
                                           std::make_pair(seq_hash, Symbol{op_seq, std::move(conj_seq)}));
-- 
2.43.0


From 522b2aaf9872507f52e02c7b4ae652cf3df94d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:30 +0000
Subject: [PATCH 15/91] fix: symbols first met in a negated word stand for the
 word without sign

---
 cpp/lib_moment/matrix/monomial_matrix_factory.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index 2c8e1c4..92c86c7 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -107,7 +107,7 @@ namespace Moment {
                         }
 
                         if (elem_hermitian) {
-                            build_unique.emplace_back(elem);
+                            build_unique.emplace_back(Symbol::construct_positive_tag{}, elem);
                             known_hashes.emplace(hash);
                         } else {
                             if (hash < conj_hash) {
@@ -167,7 +167,7 @@ namespace Moment {
                         }
 
                         if (elem_hermitian) {
-                            build_unique.emplace_back(elem);
+                            build_unique.emplace_back(Symbol::construct_positive_tag{}, elem);
                             known_hashes.emplace(hash);
                         } else {
                             if (hash < conj_hash) {
@@ -419,7 +419,7 @@ namespace Moment {
                 }
 
                 if (elem_hermitian) {
-                    unique_elements.emplace(hash, elem);
+                    unique_elements.emplace(hash, Symbol{Symbol::construct_positive_tag{}, elem});
                     known_hashes.emplace(hash);
                 } else {
                     if (hash < conj_hash) {
@@ -470,7 +470,7 @@ namespace Moment {
                 }
 
                 if (elem_hermitian) {
-                    unique_elements.emplace(hash, elem);
+                    unique_elements.emplace(hash, Symbol{Symbol::construct_positive_tag{}, elem});
                     known_hashes.emplace(hash);
                 } else {
                     if (hash < conj_hash) {
-- 
2.43.0


From ec777eb22287ecfd73ac00fbfdf0e3e2f1f20c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:30 +0000
Subject: [PATCH 16/91] fix: moments of words whose adjoint is registered with
 a sign have the right factor

---
 cpp/lib_moment/matrix/monomial_matrix_factory.cpp | 10 +++++++---
 cpp/lib_moment/matrix/value_matrix.cpp            |  2 +-
 cpp/lib_moment/symbolic/polynomial_factory.cpp    |  6 +++---
 cpp/lib_moment/symbolic/symbol.h                  | 13 +++++++++++++
 cpp/lib_moment/symbolic/symbol_lookup_result.h    |  7 +++++++
 5 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index 92c86c7..e96b14a 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -202,7 +202,7 @@ namespace Moment {
 
                     const size_t hash = elem.hash();
 
-                    const auto monomial_sign = to_scalar(elem.get_sign());
+                    auto monomial_sign = to_scalar(elem.get_sign());
 
                     auto [symbol_id, conjugated] = symbol_table.hash_to_index(hash);
                     if (symbol_id == std::numeric_limits<ptrdiff_t>::max()) {
@@ -212,6 +212,7 @@ namespace Moment {
                         throw std::logic_error{ss.str()};
                     }
                     const auto& unique_elem = symbol_table[symbol_id];
+                    monomial_sign *= unique_elem.match_factor(conjugated);
 
                     if constexpr (has_prefactor) {
                         symbolic_representation[iter.Offset()] = Monomial{unique_elem.Id(), prefactor * monomial_sign,
@@ -273,6 +274,7 @@ namespace Moment {
                     }
                     const auto& unique_elem = symbol_table[symbol_id];
 
+                    elem_factor *= unique_elem.match_factor(conjugated);
                     symbolic_representation[offset] = Monomial{unique_elem.Id(), elem_factor, conjugated};
                 }
 
@@ -554,7 +556,7 @@ namespace Moment {
                 const size_t offset = (col_idx * row_length) + row_idx;
                 const auto& elem = this->bundle.os_data_ptr[offset];
 
-                const auto mono_factor = prefactor * to_scalar(elem.get_sign());
+                auto mono_factor = prefactor * to_scalar(elem.get_sign());
                 const size_t hash = elem.hash();
                 auto [symbol_id, conjugated] = symbol_table.hash_to_index(hash);
 
@@ -565,6 +567,7 @@ namespace Moment {
                     throw std::logic_error{ss.str()};
                 }
                 const auto& unique_elem = symbol_table[symbol_id];
+                mono_factor *= unique_elem.match_factor(conjugated);
 
                 this->bundle.sm_data_ptr[offset] = Monomial{unique_elem.Id(),
                                                             mono_factor,
@@ -590,7 +593,7 @@ namespace Moment {
                 const auto& elem = this->bundle.os_data_ptr[offset];
 
                 const size_t hash = elem.hash();
-                const auto monomial_sign = to_scalar(elem.get_sign());
+                auto monomial_sign = to_scalar(elem.get_sign());
 
                 auto [symbol_id, conjugated] = symbol_table.hash_to_index(hash);
 
@@ -601,6 +604,7 @@ namespace Moment {
                     throw std::logic_error{ss.str()};
                 }
                 const auto& unique_elem = symbol_table[symbol_id];
+                monomial_sign *= unique_elem.match_factor(conjugated);
 
                 // Write entry
                 write_ptr[offset] = Monomial{unique_elem.Id(), prefactor * monomial_sign, conjugated};
diff --git a/cpp/lib_moment/matrix/value_matrix.cpp b/cpp/lib_moment/matrix/value_matrix.cpp
index 783fef0..08f5e83 100644
--- a/cpp/lib_moment/matrix/value_matrix.cpp
+++ b/cpp/lib_moment/matrix/value_matrix.cpp
@@ -169,7 +169,7 @@ namespace Moment {
             // Find existing symbol
             auto existing = symbol_table.where(lhs);
             if (existing.found()) {
-                return Monomial{existing.symbol->Id(), weight, existing.is_conjugated};
+                return Monomial{existing.symbol->Id(), weight * existing.factor(), existing.is_conjugated};
             }
 
             // Register new symbol
diff --git a/cpp/lib_moment/symbolic/polynomial_factory.cpp b/cpp/lib_moment/symbolic/polynomial_factory.cpp
index 1dd0772..0a484d3 100644
--- a/cpp/lib_moment/symbolic/polynomial_factory.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_factory.cpp
@@ -57,7 +57,7 @@ namespace Moment {
                     throw errors::unregistered_operator_sequence{elem.sequence.formatted_string(), elem.sequence.hash()};
                 }
                 assert(search.symbol != nullptr); // ^- above should throw if this is true.
-                output_storage.emplace_back(search->Id(), elem.weight, search.is_conjugated);
+                output_storage.emplace_back(search->Id(), elem.weight * search.factor(), search.is_conjugated);
             }
             return output_storage;
         }
@@ -73,10 +73,10 @@ namespace Moment {
                     const symbol_name_t inserted_id = symbols.merge_in(OperatorSequence{elem.sequence});
                     auto search_again = symbols.where(elem.sequence); // Search again, could be alised, or conjugated.
                     assert(search_again.found());
-                    output_storage.emplace_back(search_again->Id(), elem.weight, search_again.is_conjugated);
+                    output_storage.emplace_back(search_again->Id(), elem.weight * search_again.factor(), search_again.is_conjugated);
                 } else {
                     assert(search.symbol != nullptr);
-                    output_storage.emplace_back(search->Id(), elem.weight, search.is_conjugated);
+                    output_storage.emplace_back(search->Id(), elem.weight * search.factor(), search.is_conjugated);
                 }
             }
             return output_storage;
diff --git a/cpp/lib_moment/symbolic/symbol.h b/cpp/lib_moment/symbolic/symbol.h
index eed34eb..f63c5db 100644
--- a/cpp/lib_moment/symbolic/symbol.h
+++ b/cpp/lib_moment/symbolic/symbol.h
@@ -12,6 +12,7 @@
 
 #include "scenarios/contextual_os.h"
 
+#include <complex>
 #include <optional>
 #include <string>
 
@@ -91,6 +92,18 @@ namespace Moment {
             return this->hermitian ? opSeq.value() : this->conjSeq.value();
         }
 
+        /**
+         * Factor that relates the moment of a word found (up to sign) via this symbol, to the symbol or its conjugate.
+         * This is not unity if the adjoint of the symbol's sequence is registered with a sign (e.g., anti-commutation).
+         * @param conjugated True, if the word was matched with the conjugate of this symbol.
+         */
+        [[nodiscard]] constexpr std::complex<double> match_factor(const bool conjugated) const noexcept {
+            if (!conjugated || !this->conjSeq.has_value()) {
+                return {1.0, 0.0};
+            }
+            return std::conj(to_scalar(this->conjSeq->get_sign()));
+        }
+
         /**
          * Does the operator sequence represent its Hermitian conjugate?
          * If true, the element will correspond to a real symbol (cf. complex if not) in the NPA matrix.
diff --git a/cpp/lib_moment/symbolic/symbol_lookup_result.h b/cpp/lib_moment/symbolic/symbol_lookup_result.h
index 28c3536..b3681b9 100644
--- a/cpp/lib_moment/symbolic/symbol_lookup_result.h
+++ b/cpp/lib_moment/symbolic/symbol_lookup_result.h
@@ -30,6 +30,13 @@ namespace Moment {
          */
         bool is_conjugated = false;
 
+        /** Factor by which the symbol (or its conjugate) must be multiplied, to get the moment of the sequence supplied,
+         * (without the sequence's own sign). */
+        [[nodiscard]] constexpr std::complex<double> factor() const noexcept {
+            assert(this->symbol != nullptr);
+            return this->symbol->match_factor(this->is_conjugated);
+        }
+
         /**
          * True if sequence supplied was not found directly, but instead via a moment simplification alias.
          * Also true if sequence was not found, but could be determined to not correspond to a canonical moment.
-- 
2.43.0


From cbeaa4e54cad4d438f3b2735880abad7b07874fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 17/91] fix: localizing matrices for w, -w, iw and -iw are
 distinct

---
 .../matrix_system/indices/localizing_matrix_index.h        | 7 ++++++-
 cpp/lib_moment/scenarios/pauli/indices/monomial_index.h    | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h b/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
index 5404846..66d4860 100644
--- a/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
+++ b/cpp/lib_moment/matrix_system/indices/localizing_matrix_index.h
@@ -41,7 +41,12 @@ namespace Moment {
             }
 
             // Then by sequence hash...
-            return (this->WordHash < rhs.WordHash);
+            if (this->WordHash != rhs.WordHash) {
+                return this->WordHash < rhs.WordHash;
+            }
+
+            // ...and finally by sign, which is not part of the hash.
+            return this->Word.get_sign() < rhs.Word.get_sign();
         }
 
         /**
diff --git a/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h b/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
index f38185c..0268be4 100644
--- a/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
+++ b/cpp/lib_moment/scenarios/pauli/indices/monomial_index.h
@@ -62,7 +62,12 @@ namespace Moment::Pauli {
             }
 
             // Tie-break on word hash
-            return this->WordHash < pmmi.WordHash;
+            if (this->WordHash != pmmi.WordHash) {
+                return this->WordHash < pmmi.WordHash;
+            }
+
+            // Finally tie-break on sign, which is not part of the hash
+            return this->Word.get_sign() < pmmi.Word.get_sign();
         }
 
         [[nodiscard]] operator ::Moment::LocalizingMatrixIndex() const {
-- 
2.43.0


From 833c7d391f75b02e4ff163ee68265fab5bf4cd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:29 +0000
Subject: [PATCH 18/91] fix: symbols first met in a word multiplied by i have
 the right Hermiticity

---
 cpp/lib_moment/matrix/monomial_matrix_factory.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index e96b14a..cac4754 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -107,7 +107,7 @@ namespace Moment {
                         }
 
                         if (elem_hermitian) {
-                            build_unique.emplace_back(Symbol::construct_positive_tag{}, elem);
+                            build_unique.emplace_back(elem, conj_elem);
                             known_hashes.emplace(hash);
                         } else {
                             if (hash < conj_hash) {
@@ -167,7 +167,7 @@ namespace Moment {
                         }
 
                         if (elem_hermitian) {
-                            build_unique.emplace_back(Symbol::construct_positive_tag{}, elem);
+                            build_unique.emplace_back(elem, conj_elem);
                             known_hashes.emplace(hash);
                         } else {
                             if (hash < conj_hash) {
@@ -421,7 +421,7 @@ namespace Moment {
                 }
 
                 if (elem_hermitian) {
-                    unique_elements.emplace(hash, Symbol{Symbol::construct_positive_tag{}, elem});
+                    unique_elements.emplace(hash, Symbol{elem, conj_elem});
                     known_hashes.emplace(hash);
                 } else {
                     if (hash < conj_hash) {
@@ -472,7 +472,7 @@ namespace Moment {
                 }
 
                 if (elem_hermitian) {
-                    unique_elements.emplace(hash, Symbol{Symbol::construct_positive_tag{}, elem});
+                    unique_elements.emplace(hash, Symbol{elem, conj_elem});
                     known_hashes.emplace(hash);
                 } else {
                     if (hash < conj_hash) {
-- 
2.43.0


From b6b31e64839390ea5f296613146ab02cf3204a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 19/91] fix: workers no longer race to write each pair of
 entries of Hermitian matrices

---
 cpp/lib_moment/matrix/monomial_matrix_factory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
index cac4754..9d81daa 100644
--- a/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix_factory.cpp
@@ -586,7 +586,8 @@ namespace Moment {
         const auto prefactor = this->bundle.prefactor;
 
         for (size_t col_idx = worker_id; col_idx < row_length; col_idx += max_workers) {
-            for (size_t row_idx = 0; row_idx < row_length; ++row_idx) {
+            // Only the upper triangle: each element also determines its transpose, so no entry is written by two workers.
+            for (size_t row_idx = 0; row_idx <= col_idx; ++row_idx) {
 
                 const size_t offset = (col_idx * row_length) + row_idx;
                 const size_t trans_offset = (row_idx * row_length) + col_idx;
-- 
2.43.0


From 92454750bd6e87aad2ea48c25045acc2af0c7d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 20/91] fix: commutators with words that are not yet symbols,
 in symmetrized Pauli contexts

---
 cpp/lib_moment/matrix/composite_matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix/composite_matrix.h b/cpp/lib_moment/matrix/composite_matrix.h
index 6993ff2..a3d8009 100644
--- a/cpp/lib_moment/matrix/composite_matrix.h
+++ b/cpp/lib_moment/matrix/composite_matrix.h
@@ -259,7 +259,7 @@ namespace Moment {
             }
 
             // Make approximate and true index
-            auto aliased_polynomial = poly_factory.construct(raw_polynomial);
+            auto aliased_polynomial = poly_factory.register_and_construct(symbols, raw_polynomial);
             return std::make_unique<ImplType>(context, symbols, system.polynomial_factory(),
                                               polynomial_index_t{std::move(osg_index), std::move(aliased_polynomial)},
                                               std::move(constituents),
-- 
2.43.0


From 8e95d177b62f98b1ac11e2123e46f6b3da3e78ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:50 +0000
Subject: [PATCH 21/91] fix: multithreaded localizing matrices of
 anti-Hermitian words

---
 cpp/lib_moment/matrix/operator_matrix/localizing_matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix/operator_matrix/localizing_matrix.h b/cpp/lib_moment/matrix/operator_matrix/localizing_matrix.h
index 568d655..ef81a9d 100644
--- a/cpp/lib_moment/matrix/operator_matrix/localizing_matrix.h
+++ b/cpp/lib_moment/matrix/operator_matrix/localizing_matrix.h
@@ -35,7 +35,7 @@ namespace Moment {
 
         /** Localizing matrices are Hermitian if their word is Hermitian. */
         [[nodiscard]] static inline bool should_be_hermitian(const LocalizingMatrixIndex& lmi) {
-            return !is_imaginary(lmi.Word.get_sign()) && (lmi.Word.hash() == lmi.Word.conjugate().hash());
+            return lmi.Word == lmi.Word.conjugate(); // n.b. also compares sign.
         }
 
         /** Localizing matrices always have a prefactor of +1. */
-- 
2.43.0


From ce7de46396f7e33e6dc4adfedc2030e6bc3e2766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 22/91] fix: rotate columns of large Pauli lattices by an
 offset modulo the column height

---
 cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
index 499d34c..889a339 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
@@ -240,7 +240,7 @@ namespace Moment::Pauli {
         [[nodiscard]] Datum row_cyclic_shift(const Datum& input, size_t offset) const noexcept {
 
             // Normalize rotation, and get within-column offsets
-            offset = offset % this->row_width;
+            offset = offset % this->column_height;
             const storage_t bit_offset = 2ULL * offset;
             const storage_t bit_anti_offset = (this->column_height * 2ULL) - bit_offset;
 
-- 
2.43.0


From 0958077954b45f95c553ce03d21737a7e455287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 23/91] fix: no full-width shift when a Pauli lattice column
 begins exactly at the second storage word

---
 cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
index 889a339..04e3f6e 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
@@ -500,11 +500,17 @@ namespace Moment::Pauli {
             }
 
             [[nodiscard]] constexpr inline storage_t evaluate(const Datum& input) const noexcept {
-                return ((input[0] & this->lhs_mask) >> lhs_anti_offset) | ((input[1] & this->rhs_mask) << rhs_offset);
+                const storage_t rhs = (input[1] & this->rhs_mask) << rhs_offset;
+                if (0 == this->lhs_mask) { // Aligned: nothing on the left (and offset would be full width of word).
+                    return rhs;
+                }
+                return ((input[0] & this->lhs_mask) >> lhs_anti_offset) | rhs;
             }
 
             constexpr inline void splice_in(Datum& output, storage_t value) const noexcept {
-                output[0] |= (value << lhs_anti_offset) & this->lhs_mask;
+                if (0 != this->lhs_mask) {
+                    output[0] |= (value << lhs_anti_offset) & this->lhs_mask;
+                }
                 output[1] |= (value >> rhs_offset) & this->rhs_mask;
             }
         } boundary_info;
-- 
2.43.0


From ada19b56c6cf8ad1f3adb428486fd85eaeefb00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 24/91] fix: translate Pauli lattices with columns taller than
 32 qubits, or with one column, correctly

---
 .../scenarios/pauli/symmetry/site_hasher.h        | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
index 04e3f6e..f16fda2 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/site_hasher.h
@@ -252,6 +252,17 @@ namespace Moment::Pauli {
             Datum output;
             output.fill(0);
 
+            // Columns taller than a slide cannot be rotated as one word, so move qubits individually
+            if (this->column_height > qubits_per_slide) {
+                for (size_t qubit = 0; qubit < this->qubits; ++qubit) {
+                    const size_t row = qubit % this->column_height;
+                    const size_t target = (qubit - row) + ((row + offset) % this->column_height);
+                    const storage_t pauli_op = (input[qubit / qubits_per_slide] >> (2 * (qubit % qubits_per_slide))) & 0x3;
+                    output[target / qubits_per_slide] |= (pauli_op << (2 * (target % qubits_per_slide)));
+                }
+                return output;
+            }
+
             for (size_t column = 0; column < this->row_width; ++column) {
                 const size_t first_slide = (column * this->column_height) / qubits_per_slide;
                 const ptrdiff_t offset_slide_one = static_cast<ptrdiff_t>(2)
@@ -738,6 +749,10 @@ namespace Moment::Pauli {
          */
         [[nodiscard]] inline Datum
         lattice_shift(const Datum& input, const size_t row_offset, const size_t col_offset) const noexcept {
+            // A lattice with one column is just a chain
+            if (this->row_width == 1) {
+                return SiteHasherSized<num_slides>::cyclic_shift(input, row_offset);
+            }
             return SiteHasherSized<num_slides>::row_cyclic_shift(col_shift(input, col_offset), row_offset);
         }
 
-- 
2.43.0


From 5d7c63ade1516f3ccb0b01e56761bfd06f0f18db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 25/91] fix: negative offsets on wrapped Pauli chains and
 lattices

---
 .../pauli/symmetry/moment_simplifier_wrapping.h   | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h b/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h
index 764e85d..7e78099 100644
--- a/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h
+++ b/cpp/lib_moment/scenarios/pauli/symmetry/moment_simplifier_wrapping.h
@@ -68,9 +68,10 @@ namespace Moment::Pauli {
         [[nodiscard]] sequence_storage_t chain_offset(const std::span<const oper_name_t> input,
                                                       ptrdiff_t offset) const final {
             // Translate offsets to positive range:
-            offset = offset % this->context.qubit_size;
+            const auto qubits = static_cast<ptrdiff_t>(this->site_hasher.qubits);
+            offset = offset % qubits;
             if (offset < 0) {
-                offset = this->site_hasher.qubits - offset;
+                offset += qubits;
             }
 
             // Via hash, shift:
@@ -84,14 +85,16 @@ namespace Moment::Pauli {
                                           ptrdiff_t row_offset,
                                           ptrdiff_t col_offset) const final {
             // Translate offsets to positive range:
-            row_offset = row_offset % this->context.qubit_size;
+            const auto column_height = static_cast<ptrdiff_t>(this->site_hasher.column_height);
+            row_offset = row_offset % column_height;
             if (row_offset < 0) {
-                row_offset = this->site_hasher.qubits - row_offset;
+                row_offset += column_height;
             }
 
-            col_offset = col_offset % this->context.qubit_size;
+            const auto row_width = static_cast<ptrdiff_t>(this->site_hasher.row_width);
+            col_offset = col_offset % row_width;
             if (col_offset < 0) {
-                col_offset = this->site_hasher.qubits - col_offset;
+                col_offset += row_width;
             }
 
             // Via hash, shift:
-- 
2.43.0


From 0136a3f52eec45737d136254dd687b2216fb7a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 26/91] fix: sparse matrices with entries in one triangle only
 are not Hermitian

---
 cpp/lib_moment/utilities/eigen_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/utilities/eigen_utils.cpp b/cpp/lib_moment/utilities/eigen_utils.cpp
index 69e994b..6c9d9c5 100644
--- a/cpp/lib_moment/utilities/eigen_utils.cpp
+++ b/cpp/lib_moment/utilities/eigen_utils.cpp
@@ -78,7 +78,7 @@ namespace Moment {
 
         for (Eigen::Index outer = 0; outer < data.outerSize(); ++outer) {
             for  (inner_iter_t inner_iter{data, outer}; inner_iter; ++inner_iter) {
-                if (inner_iter.row() > outer) {
+                if (inner_iter.row() != outer) {
                     if (!approximately_equal(data.coeff(inner_iter.col(), inner_iter.row()),
                                              inner_iter.value(), zero_tolerance)) {
                         return false;
@@ -103,7 +103,7 @@ namespace Moment {
                     if (!approximately_real(inner_iter.value(), zero_tolerance)) {
                         return false;
                     }
-                } else if (inner_iter.row() > outer) {
+                } else if (inner_iter.row() != outer) {
                     if (!approximately_equal(std::conj(data.coeff(inner_iter.col(), inner_iter.row())),
                                              inner_iter.value(), zero_tolerance)) {
                         return false;
@@ -145,7 +145,7 @@ namespace Moment {
                     if (!approximately_imaginary(inner_iter.value(), zero_tolerance)) {
                         return false;
                     }
-                } else if (inner_iter.row() > outer) {
+                } else if (inner_iter.row() != outer) {
                     if (!approximately_equal(-std::conj(data.coeff(inner_iter.col(), inner_iter.row())),
                                              inner_iter.value(), zero_tolerance)) {
                         return false;
-- 
2.43.0


From 4f35deeb4db9a81709e0c09a2a54bda792b6e027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 27/91] fix: imaginary part of polynomial's basis vector over
 real basis elements

---
 cpp/lib_moment/symbolic/polynomial_to_basis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_to_basis.cpp b/cpp/lib_moment/symbolic/polynomial_to_basis.cpp
index fdd2ab2..feb8450 100644
--- a/cpp/lib_moment/symbolic/polynomial_to_basis.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_to_basis.cpp
@@ -230,7 +230,7 @@ namespace Moment {
                     // Im(Z) can be non-zero
                     if constexpr(export_imaginary) {
                         if (!approximately_zero(bz_factor_ax, zero_tolerance)) {
-                            imaginary_output.real.insert(basis_X_real) = az_factor_ax;
+                            imaginary_output.real.insert(basis_X_real) = bz_factor_ax;
                         }
                     }
 
-- 
2.43.0


From 7837b18726b6aba2d567c9ef643bd0193fd0d2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 28/91] fix: complex basis vector's real basis elements are not
 multiplied by i

---
 cpp/lib_moment/symbolic/polynomial_to_basis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_to_basis.h b/cpp/lib_moment/symbolic/polynomial_to_basis.h
index 58877b6..f268fd8 100644
--- a/cpp/lib_moment/symbolic/polynomial_to_basis.h
+++ b/cpp/lib_moment/symbolic/polynomial_to_basis.h
@@ -54,7 +54,7 @@ namespace Moment {
 
         ComplexBasisVector() = default;
         explicit ComplexBasisVector(const RealAndImaginaryBasisVector& expr) {
-            this->real = (std::complex<double>{0.0, 1.0} * expr.real_part.real)
+            this->real = (std::complex<double>{1.0, 0.0} * expr.real_part.real)
                             + std::complex<double>{0.0, 1.0} * expr.imaginary_part.real;
             this->imaginary = (std::complex<double>{1.0, 0.0} * expr.real_part.imaginary)
                             + std::complex<double>{0.0, 1.0} * expr.imaginary_part.imaginary;
-- 
2.43.0


From bb47237af690113fd00024a74e01aca0c3768e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 29/91] fix: monomial basis mask includes the first basis
 element

---
 cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp b/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp
index cc0a373..2f19e21 100644
--- a/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_to_basis_mask.cpp
@@ -99,10 +99,10 @@ namespace Moment {
         }
         auto& symbol_info = this->symbols[monomial.id];
         auto [re_basis_index, im_basis_index] = symbol_info.basis_key();
-        if (re_basis_index > 0) {
+        if (re_basis_index >= 0) {
             real_mask.set(re_basis_index);
         }
-        if (im_basis_index > 0) {
+        if (im_basis_index >= 0) {
             imaginary_mask.set(im_basis_index);
         }
     }
-- 
2.43.0


From e81e833d68c37986b6f2d1d342d24fe8bae0196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 30/91] fix: sums of polynomials and monomials no longer keep
 zero terms

---
 cpp/lib_moment/symbolic/polynomial_factory.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/polynomial_factory.cpp b/cpp/lib_moment/symbolic/polynomial_factory.cpp
index 0a484d3..f6f9f5d 100644
--- a/cpp/lib_moment/symbolic/polynomial_factory.cpp
+++ b/cpp/lib_moment/symbolic/polynomial_factory.cpp
@@ -94,13 +94,21 @@ namespace Moment {
     }
 
     Polynomial PolynomialFactory::sum(const Monomial& lhs, const Monomial& rhs) const {
+        // Zero terms do not appear in polynomials
+        const bool lhs_zero = (lhs.id == 0) || approximately_zero(lhs.factor, this->zero_tolerance);
+        const bool rhs_zero = (rhs.id == 0) || approximately_zero(rhs.factor, this->zero_tolerance);
+        if (lhs_zero || rhs_zero) {
+            return lhs_zero ? (rhs_zero ? Polynomial::Zero() : Polynomial{rhs, this->zero_tolerance})
+                            : Polynomial{lhs, this->zero_tolerance};
+        }
+
         // "Monomial"-like sum
         if ((lhs.id == rhs.id) && (lhs.conjugated == rhs.conjugated)) {
             std::complex<double> factor = lhs.factor + rhs.factor;
             if (approximately_zero(factor, this->zero_tolerance)) {
                 return Polynomial::Zero();
             } else {
-                return Polynomial{Monomial{lhs.id, factor, lhs.conjugated}};
+                return Polynomial{Monomial{lhs.id, factor, lhs.conjugated}, this->zero_tolerance};
             }
         }
 
@@ -113,6 +121,11 @@ namespace Moment {
     }
 
     Polynomial PolynomialFactory::sum(const Polynomial& lhs, const Monomial& rhs) const {
+        // Zero terms do not appear in polynomials
+        if ((rhs.id == 0) || approximately_zero(rhs.factor, this->zero_tolerance)) {
+            return lhs;
+        }
+
         Polynomial output;
         output.data.reserve(lhs.size()+1);
 
-- 
2.43.0


From 7cb641165deb45a10d366095693f09ed3701e987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 31/91] fix: maximum degree of a hash-ordered polynomial ending
 in a symbol without a word looped forever

---
 cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp b/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
index de4df98..0b3a76d 100644
--- a/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
+++ b/cpp/lib_moment/symbolic/monomial_comparator_by_hash.cpp
@@ -48,6 +48,7 @@ namespace Moment {
             if (symbol.has_sequence()) {
                 return symbol.sequence().size();
             }
+            ++rev_iter;
         }
 
         // Nothing found; 0 degree
-- 
2.43.0


From d5ec78ccda8f1e39cb82de391eb35bdbd1a663f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 32/91] fix: rounding of polynomial coefficients ignored the
 requested tolerance

---
 cpp/lib_moment/symbolic/polynomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/symbolic/polynomial.cpp b/cpp/lib_moment/symbolic/polynomial.cpp
index a4191f2..3206cb3 100644
--- a/cpp/lib_moment/symbolic/polynomial.cpp
+++ b/cpp/lib_moment/symbolic/polynomial.cpp
@@ -101,7 +101,7 @@ namespace Moment {
 
     void Polynomial::real_or_imaginary_if_close(double zero_tolerance) noexcept {
         for (auto& elem : this->data) {
-            Moment::real_or_imaginary_if_close(elem.factor);
+            Moment::real_or_imaginary_if_close(elem.factor, zero_tolerance);
         }
     }
 
-- 
2.43.0


From 8adda01440b627177b9864b8801c90a5748c5df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 33/91] fix: is_conjugate ignored coefficients and conjugation
 of complex symbols (matrices wrongly Hermitian)

---
 cpp/lib_moment/symbolic/polynomial.cpp | 30 ++++++++++++--------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/cpp/lib_moment/symbolic/polynomial.cpp b/cpp/lib_moment/symbolic/polynomial.cpp
index 3206cb3..d11cba2 100644
--- a/cpp/lib_moment/symbolic/polynomial.cpp
+++ b/cpp/lib_moment/symbolic/polynomial.cpp
@@ -368,8 +368,10 @@ namespace Moment {
         if (this->data.size() != other.data.size()) {
             return false;
         }
-        for (size_t index = 0, iMax = this->data.size(); index < iMax; ++index) {
-            const auto& lhs_elem = this->data[index];
+        // Conjugation might re-order X and X*, so must be done before comparison.
+        const Polynomial conjugate = this->conjugate(symbols);
+        for (size_t index = 0, iMax = conjugate.data.size(); index < iMax; ++index) {
+            const auto& lhs_elem = conjugate.data[index];
             const auto& rhs_elem = other.data[index];
 
             if (lhs_elem.id != rhs_elem.id) {
@@ -385,22 +387,18 @@ namespace Moment {
             // Nothing else is zero.
             assert(!(symbolInfo.is_antihermitian() && symbolInfo.is_hermitian()));
 
-            if (symbolInfo.is_hermitian()) {
-                if (!approximately_equal(lhs_elem.factor, std::conj(rhs_elem.factor))) {
+            const bool same_conjugation = (lhs_elem.conjugated == rhs_elem.conjugated);
+            if (symbolInfo.is_antihermitian() && !same_conjugation) {
+                // Symbol is purely imaginary; so A* = -A.
+                if (!approximately_equal(lhs_elem.factor, -rhs_elem.factor)) {
                     return false;
                 }
-                // no need to compare conjugation, symbol is real.
-            } else if (symbolInfo.is_antihermitian()) {
-                // Symbol is purely imaginary; so either A = -A, or A = A*.
-                if (lhs_elem.factor == std::conj(rhs_elem.factor)) {
-                    if (lhs_elem.conjugated == rhs_elem.conjugated) {
-                        return false;
-                    }
-                } else if (lhs_elem.factor == -std::conj(rhs_elem.factor)) {
-                    if (lhs_elem.conjugated != rhs_elem.conjugated) {
-                        return false;
-                    }
-                } else {
+            } else {
+                // No need to compare conjugation if symbol is real.
+                if (!same_conjugation && !symbolInfo.is_hermitian()) {
+                    return false;
+                }
+                if (!approximately_equal(lhs_elem.factor, rhs_elem.factor)) {
                     return false;
                 }
             }
-- 
2.43.0


From 8f6401daa52d792724f63296445bd2fcc1c55883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 34/91] fix: multiplying a matrix by a symbol used the
 conjugate word

---
 cpp/lib_moment/matrix/symbolic_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/matrix/symbolic_matrix.cpp b/cpp/lib_moment/matrix/symbolic_matrix.cpp
index 320de12..ca75e00 100644
--- a/cpp/lib_moment/matrix/symbolic_matrix.cpp
+++ b/cpp/lib_moment/matrix/symbolic_matrix.cpp
@@ -156,8 +156,8 @@ namespace Moment {
             // Resolve monomial into operator sequence using symbol table
             assert(mono.id >= 0 && mono.id < symbol_registry.size());
             assert(symbol_registry[mono.id].has_sequence());
-            const auto &op_sequence = mono.conjugated ? symbol_registry[mono.id].sequence()
-                                                      : symbol_registry[mono.id].sequence_conj();
+            const auto &op_sequence = mono.conjugated ? symbol_registry[mono.id].sequence_conj()
+                                                      : symbol_registry[mono.id].sequence();
 
             // Invoke operator sequence multiplication
             if constexpr (premultiply) {
-- 
2.43.0


From 4c03653beeab417821b261ba317e71877708f3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 35/91] fix: cloning a monomial matrix without operators
 dereferenced null

---
 cpp/lib_moment/matrix/monomial_matrix.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix.cpp b/cpp/lib_moment/matrix/monomial_matrix.cpp
index 9bd2d78..3efd27d 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix.cpp
@@ -167,12 +167,19 @@ namespace Moment {
         auto cloned_symbol_matrix =  std::make_unique<SquareMatrix<Monomial>>(this->dimension,
                                                                               std::move(cloned_symbol_data));
 
+        // Matrices without operator sequences are copied from their symbols alone
+        if (!this->has_unaliased_operator_matrix()) {
+            auto copied_matrix = std::make_unique<MonomialMatrix>(context, symbol_table, 1.0,
+                                                                  std::move(cloned_symbol_matrix),
+                                                                  this->hermitian, this->global_prefactor);
+            this->copy_properties_onto_clone(*copied_matrix);
+            return copied_matrix;
+        }
+
         // Make copy of the matrix
         std::unique_ptr<MonomialMatrix> copied_matrix =
                 std::make_unique<MonomialMatrix>(symbol_table,
-                                                this->has_unaliased_operator_matrix()
-                                                    ? this->unaliased_operator_matrix().clone(policy)
-                                                    : nullptr,
+                                                this->unaliased_operator_matrix().clone(policy),
                                                 context.can_have_aliases() && this->has_aliased_operator_matrix()
                                                      ? this->aliased_operator_matrix().clone(policy)
                                                      : nullptr,
-- 
2.43.0


From 19015712311c861d23a0070cb90fa42297c5e096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 36/91] fix: zero entries with complex factors flagged a matrix
 as complex

---
 cpp/lib_moment/matrix/monomial_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix/monomial_matrix.cpp b/cpp/lib_moment/matrix/monomial_matrix.cpp
index 3efd27d..246c5e7 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix.cpp
@@ -84,7 +84,7 @@ namespace Moment {
                 }
             }
             // If zero, replace with canonical zero.
-            if (approximately_zero(symbol.factor, zero_tolerance)) {
+            if ((0 == symbol.id) || approximately_zero(symbol.factor, zero_tolerance)) {
                 symbol.id = 0;
                 symbol.conjugated = false;
                 symbol.factor = 0;
-- 
2.43.0


From 084e6e5631d007ad63ab6fde3b170339e5b3a036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 37/91] fix: matrix scaled by a complex number stayed flagged
 Hermitian

---
 cpp/lib_moment/matrix/monomial_matrix.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/cpp/lib_moment/matrix/monomial_matrix.cpp b/cpp/lib_moment/matrix/monomial_matrix.cpp
index 246c5e7..1a35a56 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix.cpp
@@ -22,6 +22,20 @@
 
 
 namespace Moment {
+    namespace {
+        /** True if symbols of matrix (in canonical form) are equal to those of its conjugate transpose. */
+        [[nodiscard]] bool test_hermicity(const SymbolTable& symbols, const SquareMatrix<Monomial>& matrix) {
+            for (size_t row = 0; row < matrix.dimension; ++row) {
+                for (size_t col = row; col < matrix.dimension; ++col) {
+                    if (!Polynomial{matrix(row, col)}.is_conjugate(symbols, Polynomial{matrix(col, row)})) {
+                        return false;
+                    }
+                }
+            }
+            return true;
+        }
+    }
+
     MonomialMatrix::MonomialMatrix(const Context& context, SymbolTable& symbols, const double zero_tolerance,
                                    std::unique_ptr<SquareMatrix<Monomial>> symbolMatrix,
                                    const bool constructed_as_hermitian, std::complex<double> factor)
@@ -67,6 +81,11 @@ namespace Moment {
         } else if (this->unaliased_op_mat) { // Otherwise, properties from unaliased matrix
             this->unaliased_op_mat->set_properties(*this);
         }
+
+        // Operators do not include the prefactor, which affects Hermiticity if it is not real.
+        if (!approximately_real(prefactor)) {
+            this->hermitian = test_hermicity(symbols, *this->sym_exp_matrix);
+        }
     }
 
     MonomialMatrix::~MonomialMatrix() noexcept = default;
-- 
2.43.0


From ae557c6d8ed602a73342a82790673e356a612cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 38/91] fix: adding zero to a polynomial matrix threw, as it
 could not be cloned

---
 cpp/lib_moment/matrix/polynomial_matrix.cpp | 16 ++++++++++++++++
 cpp/lib_moment/matrix/polynomial_matrix.h   |  5 +++++
 2 files changed, 21 insertions(+)

diff --git a/cpp/lib_moment/matrix/polynomial_matrix.cpp b/cpp/lib_moment/matrix/polynomial_matrix.cpp
index 364ad3b..d2d189d 100644
--- a/cpp/lib_moment/matrix/polynomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/polynomial_matrix.cpp
@@ -155,6 +155,22 @@ namespace Moment {
         this->identify_symbols_and_basis_indices(zero_tolerance);
     }
 
+    std::unique_ptr<SymbolicMatrix> PolynomialMatrix::clone(Multithreading::MultiThreadPolicy policy) const {
+        // Copy symbol data
+        MatrixData::StorageType cloned_symbol_data;
+        cloned_symbol_data.reserve(this->dimension * this->dimension);
+        std::copy(this->sym_exp_matrix->begin(), this->sym_exp_matrix->end(), std::back_inserter(cloned_symbol_data));
+
+        // Make copy of the matrix
+        auto copied_matrix = std::make_unique<PolynomialMatrix>(
+                this->context, this->symbol_table, 1.0,
+                std::make_unique<MatrixData>(this->dimension, std::move(cloned_symbol_data)));
+
+        // Copy other matrix properties:
+        this->copy_properties_onto_clone(*copied_matrix);
+        return copied_matrix;
+    }
+
     void PolynomialMatrix::identify_symbols_and_basis_indices(double zero_tolerance) {
         // Find and canonicalize included symbols
         const size_t max_symbol_id = symbols.size();
diff --git a/cpp/lib_moment/matrix/polynomial_matrix.h b/cpp/lib_moment/matrix/polynomial_matrix.h
index d8ab5ff..1955dd4 100644
--- a/cpp/lib_moment/matrix/polynomial_matrix.h
+++ b/cpp/lib_moment/matrix/polynomial_matrix.h
@@ -122,6 +122,11 @@ namespace Moment {
         std::unique_ptr<PolynomialMatrix> add(const Polynomial& rhs, const PolynomialFactory& poly_factory,
                                               Multithreading::MultiThreadPolicy policy) const override;
 
+        /**
+         * Force copy of polynomial matrix.
+         */
+        std::unique_ptr<SymbolicMatrix> clone(Multithreading::MultiThreadPolicy policy) const override;
+
     protected:
         /**
          * Create dense basis.
-- 
2.43.0


From e6f5f2b041ad8e219024781933182dbbcac8afc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 39/91] fix: real anti-symmetric matrices were not recognized
 as anti-Hermitian; Hermiticity of value matrix products; zero words in scalar
 products

---
 cpp/lib_moment/matrix/value_matrix.cpp   | 31 +++++++++++------------
 cpp/lib_moment/utilities/eigen_utils.cpp | 32 ++++++++++++++++++++++++
 cpp/lib_moment/utilities/eigen_utils.h   | 16 +++++-------
 3 files changed, 52 insertions(+), 27 deletions(-)

diff --git a/cpp/lib_moment/matrix/value_matrix.cpp b/cpp/lib_moment/matrix/value_matrix.cpp
index 08f5e83..8e3e685 100644
--- a/cpp/lib_moment/matrix/value_matrix.cpp
+++ b/cpp/lib_moment/matrix/value_matrix.cpp
@@ -86,10 +86,7 @@ namespace Moment {
             this->description = "Real Value Matrix";
         }
 
-        // Since matrix is real, it can only be anti-Hermitian if it is zero.
-        if (is_zero(data)) {
-            this->antihermitian = true;
-        }
+        this->antihermitian = is_antihermitian(data);
 
     }
 
@@ -127,10 +124,7 @@ namespace Moment {
             this->description = "Real Value Matrix";
         }
 
-        // Since matrix is real, it can only be anti-Hermitian if it is zero.
-        if (is_zero(data)) {
-            this->antihermitian = true;
-        }
+        this->antihermitian = is_antihermitian(data);
 
     }
 
@@ -206,15 +200,16 @@ namespace Moment {
 
             // Deduce if Hermitian
             const bool new_matrix_hermitian = [&]() {
-                if (this->hermitian) {
-                    auto lhs_ht = lhs.hermitian_type();
-                    return (lhs_ht == HermitianType::Hermitian);
-                } else if (this->antihermitian) {
-                    auto lhs_ht = lhs.hermitian_type();
-                    return (lhs_ht == HermitianType::AntiHermitian);
-                } else {
-                    return false;
+                for (size_t row = 0; row < this->dimension; ++row) {
+                    for (size_t col = row; col < this->dimension; ++col) {
+                        const Polynomial upper{(*mat_data_ptr)(row, col), poly_factory.zero_tolerance};
+                        const Polynomial lower{(*mat_data_ptr)(col, row), poly_factory.zero_tolerance};
+                        if (!upper.is_conjugate(symbol_table, lower)) {
+                            return false;
+                        }
+                    }
                 }
+                return true;
             }();
 
             // Create new matrix
@@ -246,7 +241,9 @@ namespace Moment {
             if (lhs.is_scalar()) {
                 std::complex<double> cumulative_weight = 0;
                 for (const auto& elem : lhs) {
-                    cumulative_weight += elem.weight;
+                    if (!elem.sequence.zero()) {
+                        cumulative_weight += elem.weight;
+                    }
                 }
                 return ValueMatrix::pre_multiply(OperatorSequence::Identity(this->context), cumulative_weight,
                                                  poly_factory, symbol_table, policy);
diff --git a/cpp/lib_moment/utilities/eigen_utils.cpp b/cpp/lib_moment/utilities/eigen_utils.cpp
index 6c9d9c5..309712f 100644
--- a/cpp/lib_moment/utilities/eigen_utils.cpp
+++ b/cpp/lib_moment/utilities/eigen_utils.cpp
@@ -114,6 +114,38 @@ namespace Moment {
         return true;
     }
 
+    bool is_antihermitian(const Eigen::MatrixXd& data, double zero_tolerance) noexcept {
+        if (data.rows() != data.cols()) {
+            return false;
+        }
+
+        for (Eigen::Index col = 0; col < data.cols(); ++col) {
+            for (Eigen::Index row = col; row < data.rows(); ++row) {
+                if (!approximately_zero(data.coeff(row, col) + data.coeff(col, row), zero_tolerance)) {
+                    return false;
+                }
+            }
+        }
+        return true;
+    }
+
+    bool is_antihermitian(const Eigen::SparseMatrix<double>& data, double zero_tolerance) noexcept {
+        using inner_iter_t = Eigen::SparseMatrix<double>::InnerIterator;
+        if (data.rows() != data.cols()) {
+            return false;
+        }
+
+        for (Eigen::Index outer = 0; outer < data.outerSize(); ++outer) {
+            for (inner_iter_t inner_iter{data, outer}; inner_iter; ++inner_iter) {
+                if (!approximately_zero(data.coeff(inner_iter.col(), inner_iter.row()) + inner_iter.value(),
+                                        zero_tolerance)) {
+                    return false;
+                }
+            }
+        }
+        return true;
+    }
+
     bool is_antihermitian(const Eigen::MatrixXcd& data, double zero_tolerance) noexcept {
         if (data.rows() != data.cols()) {
             return false;
diff --git a/cpp/lib_moment/utilities/eigen_utils.h b/cpp/lib_moment/utilities/eigen_utils.h
index 739802f..4ac3b56 100644
--- a/cpp/lib_moment/utilities/eigen_utils.h
+++ b/cpp/lib_moment/utilities/eigen_utils.h
@@ -67,12 +67,10 @@ namespace Moment {
 
      /**
      * True, if data is anti-hermitian (equal to negated conjugate transpose).
-     * For real-valued matrices, equivalent to testing if matrix is zero.
+     * For real-valued matrices, equivalent to testing if matrix is anti-symmetric.
      */
-    [[nodiscard]] inline bool is_antihermitian(const Eigen::MatrixXd& data,
-                                    double zero_tolerance = 1.0) noexcept {
-        return is_zero(data, zero_tolerance);
-    }
+    [[nodiscard]] bool is_antihermitian(const Eigen::MatrixXd& data,
+                                        double zero_tolerance = 1.0) noexcept;
 
     /**
      * True, if data is anti-hermitian (equal to negated conjugate transpose).
@@ -82,12 +80,10 @@ namespace Moment {
 
     /**
      * True, if data is anti-hermitian (equal to negated conjugate transpose).
-     * For real-valued matrices, equivalent to testing if matrix is zero.
+     * For real-valued matrices, equivalent to testing if matrix is anti-symmetric.
      */
-    [[nodiscard]] inline bool is_antihermitian(const Eigen::SparseMatrix<double>& data,
-                                        double zero_tolerance = 1.0) noexcept {
-        return is_zero(data, zero_tolerance);
-    }
+    [[nodiscard]] bool is_antihermitian(const Eigen::SparseMatrix<double>& data,
+                                        double zero_tolerance = 1.0) noexcept;
 
     /**
      * True, if data is anti-hermitian (equal to negated conjugate transpose).
-- 
2.43.0


From e7525d3d4ad2d3d6c7fc389645d843932e2ae796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 40/91] fix: contradictory moment rule was forgotten when
 completion was retried

---
 cpp/lib_moment/symbolic/rules/moment_rulebook.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp b/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
index 9f6999e..7647095 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
+++ b/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
@@ -137,8 +137,8 @@ namespace Moment {
 
         // Now, attempt to add in each rule in order
         while (raw_rule_index < this->raw_rules.size()) {
-            // First, reduce polynomial according to known rules
-            Polynomial reduced_rule{this->reduce(std::move(this->raw_rules[raw_rule_index]))};
+            // First, reduce polynomial according to known rules (keeping it pending, in case it is contradictory).
+            Polynomial reduced_rule{this->reduce(Polynomial{this->raw_rules[raw_rule_index]})};
 
             // Second, attempt to orient into rule
             MomentRule msr{this->factory, std::move(reduced_rule)};
-- 
2.43.0


From 482e213ab9b0eeef59ad1605b957654a6bee92fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 41/91] fix: factor-aware rulebooks: in-use books stayed open
 to expansion, and products without symbol made valid requests fail

---
 .../inflation/inflation_matrix_system.cpp     | 45 ++++++++++++++-----
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
index 814272c..43847ca 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
@@ -113,7 +113,7 @@ namespace Moment::Inflation {
         assert(&rulebook.factory == &this->polynomial_factory());
 
         // Do not expand rulebook if it does not permit it, or if it is empty
-        if (!rulebook.enable_expansion() || rulebook.empty()) {
+        if (rulebook.empty() || !rulebook.enable_expansion()) {
             return 0;
         }
 
@@ -158,25 +158,46 @@ namespace Moment::Inflation {
                     return Polynomial{Monomial{symbol.canonical.symbols[index], 1.0, false}};
                 }
             };
-            Polynomial product = get_as_poly(0);
-            for (size_t idx=1; idx < symbol_length; ++idx) {
-                if (product.empty()) {
-                    break;
+            // Each term of the product must be looked up as a whole, because its partial products might not have symbols
+            std::vector<std::pair<std::vector<symbol_name_t>, std::complex<double>>> terms{{{}, 1.0}};
+            for (size_t idx=0; idx < symbol_length; ++idx) {
+                const auto factor = get_as_poly(idx);
+                decltype(terms) next_terms;
+                next_terms.reserve(terms.size() * factor.size());
+                for (const auto& [ids, coefficient] : terms) {
+                    for (const auto& monomial : factor) {
+                        assert(!monomial.conjugated); // All moments in inflation scenarios are real.
+                        next_terms.emplace_back(ids, coefficient * monomial.factor);
+                        next_terms.back().first.emplace_back(monomial.id);
+                    }
                 }
-                product = this->factors->try_multiply(poly_factory, product, get_as_poly(idx));
+                terms.swap(next_terms);
             }
 
-            poly_factory.append(product, {Monomial{symbol.id, -1.0, false}});
+            Polynomial::storage_t product_data;
+            try {
+                for (const auto& [ids, coefficient] : terms) {
+                    product_data.emplace_back(this->factors->try_multiply(ids), coefficient);
+                }
+            } catch (const errors::unknown_symbol&) {
+                // Product cannot be written in terms of known symbols, so nothing can be inferred.
+                continue;
+            }
+            product_data.emplace_back(symbol.id, -1.0);
 
             // Check if this infers anything new?
-            new_rules.emplace_back(std::move(product));
-
+            new_rules.emplace_back(poly_factory(std::move(product_data)));
         }
 
-        rulebook.add_raw_rules(std::move(new_rules));
-
         // Compile rules
-        ptrdiff_t final_rule_count = rulebook.complete();
+        ptrdiff_t final_rule_count = 0;
+        try {
+            rulebook.add_raw_rules(std::move(new_rules));
+            final_rule_count = rulebook.complete();
+        } catch (...) {
+            rulebook.disable_expansion();
+            throw;
+        }
 
         // Turn off rulebook's expansion mode
         rulebook.disable_expansion();
-- 
2.43.0


From c312e6562f7f3f3da112369964c36e735f9d193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 42/91] fix: rejected merge left rulebook half-changed

---
 .../matrix_system/rulebook_storage.cpp        | 10 ++++++++--
 .../symbolic/rules/moment_rulebook.cpp        | 13 ++++++++++++
 .../symbolic/rules/moment_rulebook.h          | 20 +++++++++++++++++++
 3 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/matrix_system/rulebook_storage.cpp b/cpp/lib_moment/matrix_system/rulebook_storage.cpp
index 21c75d0..34da376 100644
--- a/cpp/lib_moment/matrix_system/rulebook_storage.cpp
+++ b/cpp/lib_moment/matrix_system/rulebook_storage.cpp
@@ -67,13 +67,19 @@ namespace Moment {
                               const size_t existing_rulebook_id, MomentRulebook&& input_rulebook) {
         assert(write_lock.owns_lock());
         auto& existing_rulebook = this->find(existing_rulebook_id);
+        auto before_merge = existing_rulebook.checkpoint();
 
         existing_rulebook.combine_and_complete(std::move(input_rulebook));
 
         // NB: Name should be handled already, either from existing name, or newly-merged-in name.
 
-        // Dispatch notification of merge-in to derived classes
-        this->system.on_rulebook_added(write_lock, existing_rulebook_id, existing_rulebook, false);
+        // Dispatch notification of merge-in to derived classes; undoing merge if they reject it.
+        try {
+            this->system.on_rulebook_added(write_lock, existing_rulebook_id, existing_rulebook, false);
+        } catch (...) {
+            existing_rulebook.restore(std::move(before_merge));
+            throw;
+        }
 
         // Return merged book
         return {existing_rulebook_id, existing_rulebook};
diff --git a/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp b/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
index 7647095..04ce533 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
+++ b/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
@@ -453,6 +453,19 @@ namespace Moment {
         }
     }
 
+    MomentRulebook::Checkpoint MomentRulebook::checkpoint() const {
+        return Checkpoint{this->human_readable_name, this->rules, this->monomial_rules, this->hermitian_rules};
+    }
+
+    void MomentRulebook::restore(Checkpoint&& checkpoint) {
+        this->human_readable_name = std::move(checkpoint.human_readable_name);
+        this->rules = std::move(checkpoint.rules);
+        this->monomial_rules = checkpoint.monomial_rules;
+        this->hermitian_rules = checkpoint.hermitian_rules;
+        this->remake_keys();
+        this->raw_rules.clear();
+    }
+
     void MomentRulebook::remake_keys() {
         this->rules_in_order.clear();
         for (auto iter = rules.begin(); iter != rules.end(); ++iter) {
diff --git a/cpp/lib_moment/symbolic/rules/moment_rulebook.h b/cpp/lib_moment/symbolic/rules/moment_rulebook.h
index b87133a..eb84271 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rulebook.h
+++ b/cpp/lib_moment/symbolic/rules/moment_rulebook.h
@@ -341,6 +341,26 @@ namespace Moment {
            std::tuple<RulebookComparisonResult, const MomentRule *, const MomentRule *>
            compare_rulebooks(const MomentRulebook& rhs) const;
 
+          /**
+           * State of a completed rulebook, to which it can later be restored.
+           */
+          struct Checkpoint {
+              std::string human_readable_name;
+              rule_map_t rules;
+              bool monomial_rules;
+              bool hermitian_rules;
+          };
+
+          /**
+           * Record the state of this (completed) rulebook.
+           */
+          [[nodiscard]] Checkpoint checkpoint() const;
+
+          /**
+           * Return this rulebook to a previously recorded state, discarding any pending rules.
+           */
+          void restore(Checkpoint&& checkpoint);
+
     private:
             /**
              * Regenerate ordered rule keys.
-- 
2.43.0


From b674fdc7485dead875db89d3c32d69f252e4c080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:44 +0000
Subject: [PATCH 43/91] fix: scalar extension read factor lists that had been
 reallocated

---
 cpp/lib_moment/scenarios/inflation/extended_matrix.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
index a4055a5..6f9664d 100644
--- a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
+++ b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
@@ -112,7 +112,8 @@ namespace Moment::Inflation {
 
             // Make bottom-right block
             for (size_t i = 0, iMax = extension_scalars.size(); i < iMax; ++i) {
-                const auto& row_factors = factors[extension_scalars[i]].canonical.symbols;
+                // Copy, because of possible re-allocation within factor table!
+                const auto row_factors = factors[extension_scalars[i]].canonical.symbols;
                 auto diag_fac_id = combine_and_register_factors(symbols, factors, row_factors, row_factors);
                 const std::array<size_t,2> diag_index{old_dimension+i, old_dimension+i};
                 extended_matrix(diag_index) = Monomial{diag_fac_id};
-- 
2.43.0


From 14e1830a4a069b532cfa4b06c433213409c9746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:44 +0000
Subject: [PATCH 44/91] fix: product with zero factor was not recognised as
 zero

---
 cpp/lib_moment/scenarios/inflation/factor_table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/inflation/factor_table.cpp b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
index 6212088..efea45d 100644
--- a/cpp/lib_moment/scenarios/inflation/factor_table.cpp
+++ b/cpp/lib_moment/scenarios/inflation/factor_table.cpp
@@ -368,7 +368,7 @@ namespace Moment::Inflation {
         // If "0" is somehow a factor of either left or right, the product is zero
         assert(!output.empty());
         if (output[0] == 0) [[unlikely]] {
-            output.emplace_back(0);
+            output.assign(1, 0);
             return;
         }
 
-- 
2.43.0


From c12c257bd5a33e70ac091e3543bf84d59273d36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 45/91] fix: multithreaded scalar extension accepted unknown
 symbols and read out of bounds

---
 .../scenarios/inflation/extended_matrix.cpp    | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
index 6f9664d..bc8e56f 100644
--- a/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
+++ b/cpp/lib_moment/scenarios/inflation/extended_matrix.cpp
@@ -61,15 +61,6 @@ namespace Moment::Inflation {
                                            const MomentMatrix& moment_matrix,
                                            const std::span<const symbol_name_t> extension_scalars) {
 
-            // Check scalars are in range
-            for (const auto scalar : extension_scalars) {
-                if ((scalar >= symbols.size()) || (scalar < 0)) {
-                    std::stringstream errSS;
-                    errSS << "Cannot extend matrix with unknown symbol \"" << scalar << "\".";
-                    throw std::logic_error{errSS.str()};
-                }
-            }
-
             // Create matrix, with source matrix as upper block
             const size_t padding = extension_scalars.size();
             auto extended_matrix = source.SymbolMatrix().pad(padding, Monomial{0});
@@ -164,6 +155,15 @@ namespace Moment::Inflation {
                 throw std::invalid_argument{"Scalar extension of non-Hermitian matrices is not supported."};
             }
 
+            // Check scalars are in range
+            for (const auto scalar : extension_scalars) {
+                if ((scalar >= symbols.size()) || (scalar < 0)) {
+                    std::stringstream errSS;
+                    errSS << "Cannot extend matrix with unknown symbol \"" << scalar << "\".";
+                    throw std::logic_error{errSS.str()};
+                }
+            }
+
             // Get target dimension
             const size_t target_dimension = source.Dimension() + extension_scalars.size();
             const bool should_multithread
-- 
2.43.0


From 8e634183966749377b3cfe9cc3d9f5d7bf2041d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:12 +0000
Subject: [PATCH 46/91] fix: multithreaded scalar extension terminated when a
 product was a prefix of another

---
 .../multithreading/temporary_symbols_and_factors.cpp          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp b/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
index 7be6692..5c03ae9 100644
--- a/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
+++ b/cpp/lib_moment/scenarios/inflation/multithreading/temporary_symbols_and_factors.cpp
@@ -42,8 +42,8 @@ namespace Moment::Multithreading {
 
         // Can we directly find node?
         auto [hint_tree, hint_factors] = this->index_tree.find_node_or_return_hint(joint_factors);
-        if (hint_factors.empty()) {
-            assert (hint_tree->value().has_value());
+        // (Node might exist, but without a value, if it is only a prefix of some other factors.)
+        if (hint_factors.empty() && hint_tree->value().has_value()) {
             return hint_tree->value().value();
         }
 
-- 
2.43.0


From f94fd4de16a4b6174f5578c29b6573c226b7ca69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 47/91] fix: signs of operator products were ignored in
 representations of symmetry groups

---
 .../symmetrized/representation_mapper.cpp     | 43 +++++++++++--------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp b/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp
index 763e65d..e7e4144 100644
--- a/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp
+++ b/cpp/lib_moment/scenarios/symmetrized/representation_mapper.cpp
@@ -30,10 +30,12 @@ namespace Moment::Symmetrized {
             return osg.size();
         }
 
-        std::vector<size_t> vector_remap(const Context& context,
-                                         const size_t lhs_word_length,
-                                         const size_t rhs_word_length,
-                                         const size_t target_word_length) {
+        /** Index (+1, or 0 if zero) of each product of words, and the (real part of the) sign of this product. */
+        std::pair<std::vector<size_t>, std::vector<double>>
+        vector_remap(const Context& context,
+                     const size_t lhs_word_length,
+                     const size_t rhs_word_length,
+                     const size_t target_word_length) {
             assert(lhs_word_length + rhs_word_length == target_word_length);
             assert(lhs_word_length >= rhs_word_length);
 
@@ -51,6 +53,7 @@ namespace Moment::Symmetrized {
             }
 
             std::vector<size_t> output;
+            std::vector<double> signs;
 
             // Now, get parents OSGs.
             const auto& lhs_osg = context.operator_sequence_generator(lhs_word_length);
@@ -62,27 +65,29 @@ namespace Moment::Symmetrized {
                     const auto remap_iter = hash_to_index.find(combined.hash());
                     assert(remap_iter != hash_to_index.cend());
                     output.emplace_back(remap_iter->second);
+                    signs.emplace_back(to_scalar(combined.get_sign()).real());
                 }
             }
 
-            return output;
+            return {std::move(output), std::move(signs)};
         }
 
 
         /**
          * Matrix to sum rows
          */
-        RepresentationMapper::lhs_mat_t make_lhs(const std::vector<size_t>& remap, size_t raw_dim, size_t remapped_dim) {
+        RepresentationMapper::lhs_mat_t make_lhs(const std::vector<size_t>& remap, const std::vector<double>& signs,
+                                                 size_t raw_dim, size_t remapped_dim) {
             assert(raw_dim == remap.size());
             RepresentationMapper::lhs_mat_t output(static_cast<int>(remapped_dim), static_cast<int>(raw_dim)); // rows, cols
             std::vector<Eigen::Triplet<double>> triplets;
 
             size_t raw_index = 0;
             for (const auto mapped_index : remap) {
-                if (mapped_index > 0) {
+                if ((mapped_index > 0) && (signs[raw_index] != 0.0)) {
                     triplets.emplace_back(static_cast<int>(mapped_index - 1),   // row
                                           static_cast<int>(raw_index), // col
-                                          1.0);
+                                          signs[raw_index]);
                 }
                 ++raw_index;
             }
@@ -96,7 +101,8 @@ namespace Moment::Symmetrized {
         /**
          * Matrix to skip columns
          */
-        RepresentationMapper::rhs_mat_t make_rhs(const std::vector<size_t>& remap, size_t raw_dim, size_t remapped_dim) {
+        RepresentationMapper::rhs_mat_t make_rhs(const std::vector<size_t>& remap, const std::vector<double>& signs,
+                                                 size_t raw_dim, size_t remapped_dim) {
             assert(raw_dim == remap.size());
             RepresentationMapper::rhs_mat_t output(static_cast<int>(raw_dim), static_cast<int>(remapped_dim)); // rows, cols
             std::vector<Eigen::Triplet<double>> triplets;
@@ -106,11 +112,11 @@ namespace Moment::Symmetrized {
             size_t true_index = 0;
 
             for (const auto mapped_index : remap) {
-                if (mapped_index > 0) {
+                if ((mapped_index > 0) && (signs[true_index] != 0.0)) {
                     if (!done_map.test(mapped_index-1)) {
                         triplets.emplace_back(static_cast<int>(true_index),   // row
                                               static_cast<int>(mapped_index-1), // col
-                                              1.0);
+                                              signs[true_index]);
 
                         done_map.set(mapped_index-1);
                     }
@@ -158,13 +164,14 @@ namespace Moment::Symmetrized {
         this->remapped_dim = osg.size();
 
         // Make vector remap
-        this->remap = vector_remap(context,
-                                   parent_A.target_word_length,
-                                   parent_B.target_word_length,
-                                   this->target_word_length);
-
-        this->lhs = make_lhs(this->remap, this->raw_dim, this->remapped_dim);
-        this->rhs = make_rhs(this->remap, this->raw_dim, this->remapped_dim);
+        auto [vec_remap, signs] = vector_remap(context,
+                                               parent_A.target_word_length,
+                                               parent_B.target_word_length,
+                                               this->target_word_length);
+        this->remap = std::move(vec_remap);
+
+        this->lhs = make_lhs(this->remap, signs, this->raw_dim, this->remapped_dim);
+        this->rhs = make_rhs(this->remap, signs, this->raw_dim, this->remapped_dim);
     }
 
     repmat_t RepresentationMapper::operator()(const repmat_t &matrix) const {
-- 
2.43.0


From 869440c004af20c94d46ba9db4f67636f5c79363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 48/91] fix: group averages that vanish or coincide up to
 rounding gave independent symbols

---
 cpp/lib_moment/scenarios/derived/lu_map_core_processor.cpp    | 4 +++-
 .../scenarios/symmetrized/symmetrized_matrix_system.cpp       | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/scenarios/derived/lu_map_core_processor.cpp b/cpp/lib_moment/scenarios/derived/lu_map_core_processor.cpp
index 811cbc9..e200c8c 100644
--- a/cpp/lib_moment/scenarios/derived/lu_map_core_processor.cpp
+++ b/cpp/lib_moment/scenarios/derived/lu_map_core_processor.cpp
@@ -30,7 +30,9 @@ namespace Moment::Derived {
         }
 
         // Decompose matrix
-        Eigen::FullPivLU<Eigen::MatrixXd> lu{core.core};
+        Eigen::FullPivLU<Eigen::MatrixXd> lu{core.core.rows(), core.core.cols()};
+        lu.setThreshold(1e-10); // Entries can be inexact (e.g. group averages).
+        lu.compute(core.core);
         const Eigen::Index rank = lu.rank();
         solution.output_symbols = static_cast<size_t>(rank);
         solution.trivial_solution = false;
diff --git a/cpp/lib_moment/scenarios/symmetrized/symmetrized_matrix_system.cpp b/cpp/lib_moment/scenarios/symmetrized/symmetrized_matrix_system.cpp
index 50cbe8c..432ac3c 100644
--- a/cpp/lib_moment/scenarios/symmetrized/symmetrized_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/symmetrized/symmetrized_matrix_system.cpp
@@ -34,8 +34,8 @@ namespace Moment::Symmetrized {
         // Next, ensure group has representation for requested length.
         const auto& group_rep = this->group.create_representation(max_word_length, mt_policy);
 
-        // Next, get average of group action in this representation
-        const repmat_t average = group_rep.sum_of() / static_cast<double>(group.size);
+        // Next, get average of group action in this representation (removing terms that cancel, up to rounding errors)
+        const repmat_t average = (group_rep.sum_of() / static_cast<double>(group.size)).pruned(1.0, 1e-10);
 
         // Do processing
         return std::make_unique<Derived::SymbolTableMap>(origin_symbols, target_symbols, *this->processor, average);
-- 
2.43.0


From 9ee8174f29441688260faa1c25bbd489524b0b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 49/91] fix: generation of infinite groups did not stop at the
 size limit

---
 cpp/lib_moment/scenarios/symmetrized/group.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/lib_moment/scenarios/symmetrized/group.cpp b/cpp/lib_moment/scenarios/symmetrized/group.cpp
index 00f1d3d..30ba8f2 100644
--- a/cpp/lib_moment/scenarios/symmetrized/group.cpp
+++ b/cpp/lib_moment/scenarios/symmetrized/group.cpp
@@ -185,6 +185,11 @@ namespace Moment::Symmetrized {
                         continue;
                     }
 
+                    // Give up, if group is too large
+                    if ((elements.size() + previous_order) > max_subgroup_size) {
+                        throw std::runtime_error{"Maximum group size reached, but group was not completed."};
+                    }
+
                     // Add new coset
                     elements.reserve(elements.size() + previous_order);
                     for (size_t idx = 0; idx < previous_order; ++idx) {
-- 
2.43.0


From 4a4646e968a0eb3cb5eed6cb35f3b12b24f08818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 50/91] fix: words without a symbol were read through a null
 pointer when mapping operator sequences to symbols

---
 cpp/lib_moment/dictionary/dictionary_map.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/dictionary/dictionary_map.cpp b/cpp/lib_moment/dictionary/dictionary_map.cpp
index ed282a7..875f763 100644
--- a/cpp/lib_moment/dictionary/dictionary_map.cpp
+++ b/cpp/lib_moment/dictionary/dictionary_map.cpp
@@ -43,7 +43,11 @@ namespace Moment {
         for (auto iter = promised_osg.begin() + static_cast<ptrdiff_t>(start_index); iter != promised_osg.end(); ++iter) {
             const auto& seq = *iter;
             const auto datum = symbols.where(seq);
-            assert(datum.found());
+            if (!datum.found()) {
+                std::stringstream errSS;
+                errSS << "Symbol for operator sequence \"" << seq << "\" not yet defined.";
+                throw std::range_error{errSS.str()};
+            }
             const bool isConjugated = (seq != datum->sequence());
             this->symbol_map.emplace_back((isConjugated ? -1 : 1) * datum->Id());
         }
-- 
2.43.0


From 99653a647f3c7004b03404998f07b97b78bb2fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 51/91] fix: symbol table maps conjugated factors, lost the
 sign of adjoint words, and sent symbols of too long words to zero

---
 .../scenarios/derived/symbol_table_map.cpp     | 18 ++++++++++++++----
 .../scenarios/derived/symbol_table_map.h       |  1 +
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
index 5a4371c..e938a12 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
@@ -104,12 +104,16 @@ namespace Moment::Derived {
         this->map.assign(origin_symbols.size(), Polynomial{}); // 0 -> 0 always
         this->map[0] = Polynomial{};      // 0 -> 0 always.
         this->map[1] = Polynomial::Scalar(1.0); // 1 -> 1 always.
+        this->undefined.assign(origin_symbols.size(), true);
+        this->undefined[0] = false;
+        this->undefined[1] = false;
 
         // Create scalars remap:
         for (auto [row_id, scalar] : this->core->constants) {
             auto [symbol_id, conjugated] = origin_symbols.OSGIndex(row_id);
             assert(!conjugated);
             this->map[symbol_id] = Polynomial::Scalar(scalar);
+            this->undefined[symbol_id] = false;
         }
 
         const auto& raw_map = this->core_solution->dense_map;
@@ -141,6 +145,7 @@ namespace Moment::Derived {
 
             // Create mapping
             this->map[source_symbol] = Polynomial{std::move(from_x_to_y)};
+            this->undefined[source_symbol] = false;
             ++core_col_id;
         }
 
@@ -162,7 +167,11 @@ namespace Moment::Derived {
                 const double value = raw_inv_map(im_row_id, im_col_id);
                 if (abs(value) != 0.0) {
                     // Map: Core index -> osg index -> symbol table ID
-                    from_y_to_x.emplace_back(osg_to_symbols[non_trivial_idx], value, osg_conjugate[non_trivial_idx]);
+                    const symbol_name_t symbol_id = osg_to_symbols[non_trivial_idx];
+                    const bool conjugated = osg_conjugate[non_trivial_idx];
+                    from_y_to_x.emplace_back(symbol_id,
+                                             value * this->origin_symbols[symbol_id].match_factor(conjugated),
+                                             conjugated);
                 }
                 ++ im_col_id;
             }
@@ -199,7 +208,8 @@ namespace Moment::Derived {
 
     const Polynomial& SymbolTableMap::operator()(symbol_name_t symbol_id) const {
         // Bounds check
-        if ((symbol_id < 0) || (symbol_id >= this->map.size())) {
+        if ((symbol_id < 0) || (symbol_id >= this->map.size())
+            || ((symbol_id < this->undefined.size()) && this->undefined[symbol_id])) {
             std::stringstream ss;
             ss << "Symbol " << symbol_id << " not defined in implied map.";
             throw errors::bad_map{ss.str()};
@@ -214,10 +224,10 @@ namespace Moment::Derived {
         Polynomial output = (*this)(symbol.id);
 
         // Apply transformations (using target symbol table)
-        output *= symbol.factor;
         if (symbol.conjugated) {
             output.conjugate_in_place(this->target_symbols);
         }
+        output *= symbol.factor;
 
         return output;
     }
@@ -284,10 +294,10 @@ namespace Moment::Derived {
         Polynomial output = this->inverse(symbol.id);
 
         // Apply transformations (using origin symbol table)
-        output *= symbol.factor;
         if (symbol.conjugated) {
             output.conjugate_in_place(this->origin_symbols);
         }
+        output *= symbol.factor;
 
         return output;
     }
diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.h b/cpp/lib_moment/scenarios/derived/symbol_table_map.h
index 6a8fdd0..cb6d92a 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.h
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.h
@@ -44,6 +44,7 @@ namespace Moment {
 
             std::vector<Polynomial> map;
             std::vector<Polynomial> inverse_map;
+            std::vector<bool> undefined; // Origin symbols not in domain of map.
             bool _is_monomial_map = false;
 
         private:
-- 
2.43.0


From 357fd6ea12029198376245209a856b9e03843346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:30 +0000
Subject: [PATCH 52/91] fix: reality of new symbols was decided without
 allowing for rounding in the LU decomposition

---
 cpp/lib_moment/scenarios/derived/symbol_table_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
index e938a12..5265c96 100644
--- a/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
+++ b/cpp/lib_moment/scenarios/derived/symbol_table_map.cpp
@@ -194,7 +194,7 @@ namespace Moment::Derived {
         }
 
         for (const auto& polynomial : this->inverse_map | std::views::drop(2)) {
-            const bool is_hermitian = polynomial.is_hermitian(this->origin_symbols, 1.0);
+            const bool is_hermitian = polynomial.is_hermitian(this->origin_symbols, 1e6 /* inexact LU */);
             this->target_symbols.create(true, !is_hermitian);
         }
 
-- 
2.43.0


From e32f8e28f7416de7ed338c53f740f6a66656d3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:41 +0000
Subject: [PATCH 53/91] fix: items queued or aborts signalled while a consumer
 was about to wait were missed, and long queues overflowed the stack on
 destruction

---
 cpp/lib_moment/multithreading/queue.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/multithreading/queue.h b/cpp/lib_moment/multithreading/queue.h
index 061bc4f..8ec37d4 100644
--- a/cpp/lib_moment/multithreading/queue.h
+++ b/cpp/lib_moment/multithreading/queue.h
@@ -85,6 +85,13 @@ namespace Moment::Multithreading {
             this->abort_flag.clear();
         }
 
+        // Nodes are released one by one, since destroying the whole chain at once recurses once per node.
+        ~Queue() {
+            while (this->head) {
+                this->head = std::move(this->head->next);
+            }
+        }
+
 
         template<typename... Args>
         void emplace_back(Args&&...args) {
@@ -98,8 +105,8 @@ namespace Moment::Multithreading {
                 this->tail->next = std::move(next_node);
                 this->tail = this->tail->next.get();
             }
+            this->synchronize_with_waiters();
             this->data_cv.notify_one();
-            // ~tail_lock
         }
 
         void push_back(elem_t object) {
@@ -113,12 +120,13 @@ namespace Moment::Multithreading {
                 this->tail->next = std::move(next_node);
                 this->tail = this->tail->next.get();
             }
+            this->synchronize_with_waiters();
             this->data_cv.notify_one();
-            // ~tail_lock
         }
 
         void abort() noexcept {
             this->abort_flag.test_and_set(std::memory_order_release);
+            this->synchronize_with_waiters();
             this->data_cv.notify_all();
         }
 
@@ -159,6 +167,13 @@ namespace Moment::Multithreading {
         }
 
     private:
+        /**
+         * After this, every consumer has either seen what was written before, or is waiting to be notified.
+         */
+        inline void synchronize_with_waiters() const noexcept {
+            std::lock_guard head_lock{this->head_mutex};
+        }
+
         /**
          * Locks the head of queue, and waits until a consistent data entry is ready.
          */
-- 
2.43.0


From 71d3c168de41b7041b0c80d1cd9cf97b2c2ab157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:41 +0000
Subject: [PATCH 54/91] fix: empty dynamic bitsets wrote out of bounds

---
 cpp/lib_moment/utilities/dynamic_bitset.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/utilities/dynamic_bitset.h b/cpp/lib_moment/utilities/dynamic_bitset.h
index 6143edc..5d99cb0 100644
--- a/cpp/lib_moment/utilities/dynamic_bitset.h
+++ b/cpp/lib_moment/utilities/dynamic_bitset.h
@@ -101,7 +101,7 @@ namespace Moment {
         /** Construct an empty dynamic bitset with all values set to default_value */
         constexpr DynamicBitset(const index_t bit_size, const bool default_value)
             : DynamicBitset<page_t, index_t, storage_t>{bit_size} {
-            if (default_value) {
+            if (default_value && (page_count > 0)) {
                 for (index_t i = 0, iMax = page_count - 1; i < iMax; ++i) {
                     this->data[i] = ~static_cast<page_t>(0);
                 }
@@ -268,6 +268,10 @@ namespace Moment {
          */
         constexpr DynamicBitset<page_t, index_t, storage_t> operator~() const {
             DynamicBitset<page_t, index_t, storage_t> output{this->bit_size};
+            // Do nothing if no data
+            if (this->page_count <= 0) {
+                return output;
+            }
             for (index_t page = 0; page < (this->page_count-1); ++page) {
                 output.data[page] = ~this->data[page];
             }
-- 
2.43.0


From bfe78349ccc30979b8f5c0649c6a6d7ddba007bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:41 +0000
Subject: [PATCH 55/91] fix: number of combinations overflowed for results that
 fit

---
 cpp/lib_moment/utilities/combinations.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cpp/lib_moment/utilities/combinations.h b/cpp/lib_moment/utilities/combinations.h
index 32c4c0a..78e7371 100644
--- a/cpp/lib_moment/utilities/combinations.h
+++ b/cpp/lib_moment/utilities/combinations.h
@@ -10,6 +10,7 @@
 
 #include <algorithm>
 #include <concepts>
+#include <numeric>
 #include <vector>
 
 namespace Moment {
@@ -23,15 +24,14 @@ namespace Moment {
      */
     template<std::integral int_t>
     [[nodiscard]] constexpr int_t combinations(int_t N, int_t K) {
-        int_t numerator = 1;
-        for (int_t iN = N-K+1; iN <= N; ++iN) {
-            numerator *= iN;
+        // Dividing at every step keeps the running value no larger than necessary
+        int_t output = 1;
+        for (int_t i = 1; i <= K; ++i) {
+            // (output * (N - K + i)) / i is an integer; cancel first, to avoid overflow
+            const int_t divisor = std::gcd(output, i);
+            output = (output / divisor) * ((N - K + i) / (i / divisor));
         }
-        int_t denominator = 1;
-        for (int_t iD = 1; iD <= K; ++iD) {
-            denominator *= iD;
-        }
-        return numerator/denominator;
+        return output;
     }
 
     template<bool inclusive = false>
-- 
2.43.0


From 9079a25b6547d07f61751e59337fe25f9a4b1032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:41 +0000
Subject: [PATCH 56/91] fix: access by index to recursive storage returned a
 reference to a destroyed copy

---
 cpp/lib_moment/utilities/recursive_index.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/utilities/recursive_index.h b/cpp/lib_moment/utilities/recursive_index.h
index 49f3002..260fee4 100644
--- a/cpp/lib_moment/utilities/recursive_index.h
+++ b/cpp/lib_moment/utilities/recursive_index.h
@@ -112,7 +112,7 @@ namespace Moment {
          * @return Reference to the stored value.
          */
         [[nodiscard]] constexpr const type_t& access(std::span<const size_t> indices) const noexcept {
-            auto place = subtree(indices);
+            const auto& place = subtree(indices);
             return place.access();
         }
 
-- 
2.43.0


From 916f4b73c7a83f0359b26e81e935fdad5d557aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:51 +0000
Subject: [PATCH 57/91] fix: dictionaries handed out references that moved when
 further levels were added, and read past the end when two threads made the
 same level

---
 cpp/lib_moment/dictionary/dictionary.cpp            | 4 ++--
 cpp/lib_moment/dictionary/dictionary.h              | 4 +++-
 cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/dictionary/dictionary.cpp b/cpp/lib_moment/dictionary/dictionary.cpp
index fae13fe..f56c76b 100644
--- a/cpp/lib_moment/dictionary/dictionary.cpp
+++ b/cpp/lib_moment/dictionary/dictionary.cpp
@@ -51,8 +51,8 @@ namespace Moment {
         std::atomic_thread_fence(std::memory_order_acquire);
         auto reattempt_offset_iter = this->npa_level_to_offset.find(npa_level);
         if (reattempt_offset_iter != this->npa_level_to_offset.cend()) {
-            const ptrdiff_t offset = offset_iter->second;
-            assert(offset >= this->osgs.size());
+            const ptrdiff_t offset = reattempt_offset_iter->second;
+            assert(offset < this->osgs.size());
             return this->osgs[offset]; // Discard pointless creation...!
         }
 
diff --git a/cpp/lib_moment/dictionary/dictionary.h b/cpp/lib_moment/dictionary/dictionary.h
index 5af507d..4265512 100644
--- a/cpp/lib_moment/dictionary/dictionary.h
+++ b/cpp/lib_moment/dictionary/dictionary.h
@@ -14,6 +14,7 @@
 #include "multithreading/maintains_mutex.h"
 
 #include <atomic>
+#include <deque>
 #include <map>
 #include <vector>
 
@@ -29,7 +30,8 @@ namespace Moment {
     class Dictionary : protected MaintainsMutex {
     protected:
         /** List of operator sequences */
-        mutable std::vector<OSGPair> osgs;
+        /** Deque, so that references handed out survive later insertions. */
+        mutable std::deque<OSGPair> osgs;
 
         /** Key, linking NPA hierarchy level (e.g. moment matrix level) to generator offset */
         mutable std::map<size_t, size_t> npa_level_to_offset;
diff --git a/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp b/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp
index d1d4872..dbe0f6b 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_dictionary.cpp
@@ -41,7 +41,7 @@ namespace Moment::Pauli {
         auto recheck_key = this->nn_indices.find(index);
         if (recheck_key != this->nn_indices.cend()) {
             // We were beaten in a race to create OSG, so discard work and return existing OSG.
-            const auto osg_offset = find_key->second;
+            const auto osg_offset = recheck_key->second;
             assert(osg_offset < this->osgs.size());
             return this->osgs[osg_offset]; // ~write_lock, ~new_osg
         }
-- 
2.43.0


From 6cf991774184831e519d0c0aa16b5d02068e2bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:51 +0000
Subject: [PATCH 58/91] fix: Collins-Gisin tensor was replaced while in use
 when two threads refreshed it for the first time

---
 cpp/lib_moment/probability/maintains_tensors.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/probability/maintains_tensors.cpp b/cpp/lib_moment/probability/maintains_tensors.cpp
index 4bc2c32..7b6873f 100644
--- a/cpp/lib_moment/probability/maintains_tensors.cpp
+++ b/cpp/lib_moment/probability/maintains_tensors.cpp
@@ -42,7 +42,9 @@ namespace Moment  {
             read_lock.unlock();
 
             auto write_lock = this->get_write_lock();
-            this->collinsGisin = this->makeCollinsGisin();
+            if (!this->collinsGisin) { // Double-check, in case scooped.
+                this->collinsGisin = this->makeCollinsGisin();
+            }
             const bool has_all_symbols = this->collinsGisin->HasAllSymbols();
             write_lock.unlock();
 
-- 
2.43.0


From f66e0cc893a6509a0a5d8d013bf729731b771b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:51 +0000
Subject: [PATCH 59/91] fix: derived systems read the base system's indices and
 symbols without its lock

---
 .../scenarios/derived/derived_matrix_system.cpp           | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/derived/derived_matrix_system.cpp b/cpp/lib_moment/scenarios/derived/derived_matrix_system.cpp
index 2a6f7b2..78fdf4c 100644
--- a/cpp/lib_moment/scenarios/derived/derived_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/derived/derived_matrix_system.cpp
@@ -184,7 +184,10 @@ namespace Moment::Derived {
                                                              Multithreading::MultiThreadPolicy mt_policy) {
         // Check if we can convert this matrix
         const auto lsw = this->longest_supported_word();
-        const auto max_degree = this->base_system().polynomial_factory().maximum_degree(lmi.Polynomial);
+        const auto max_degree = [&]() {
+            auto read_source_lock = this->base_system().get_read_lock();
+            return this->base_system().polynomial_factory().maximum_degree(lmi.Polynomial);
+        }();
         const size_t size_req = 2 * lmi.Level + max_degree;
         if (size_req > lsw) {
             std::stringstream badNameSS;
@@ -243,6 +246,7 @@ namespace Moment::Derived {
     void DerivedMatrixSystem::on_new_moment_matrix(const WriteLock& write_lock, size_t level,
                                                    ptrdiff_t sym_offset, const SymbolicMatrix& mm) {
 
+        auto read_source_lock = this->base_system().get_read_lock();
         auto base_offset = this->base_system().MomentMatrix.find_index(level);
         assert(base_offset >= 0);
         auto actual_offset = this->DerivedMatrices.insert_alias(write_lock, base_offset, sym_offset);
@@ -253,6 +257,7 @@ namespace Moment::Derived {
     void DerivedMatrixSystem::on_new_localizing_matrix(const WriteLock& write_lock,
                                                        const LocalizingMatrixIndex& lmi, ptrdiff_t sym_offset,
                                                        const SymbolicMatrix& lm) {
+        auto read_source_lock = this->base_system().get_read_lock();
         auto base_offset = this->base_system().LocalizingMatrix.find_index(lmi);
         assert(base_offset >= 0);
         auto actual_offset = this->DerivedMatrices.insert_alias(write_lock, base_offset, sym_offset);
@@ -262,6 +267,7 @@ namespace Moment::Derived {
     void DerivedMatrixSystem::on_new_polynomial_localizing_matrix(const WriteLock& write_lock,
                                                                   const PolynomialLocalizingMatrixIndex& lmi, ptrdiff_t sym_offset,
                                                                   const PolynomialMatrix& plm) {
+        auto read_source_lock = this->base_system().get_read_lock();
         auto base_offset = this->base_system().PolynomialLocalizingMatrix.find_index(lmi);
         assert(base_offset >= 0);
         auto actual_offset = this->DerivedMatrices.insert_alias(write_lock, base_offset, sym_offset);
-- 
2.43.0


From ef8efca90631763a1f67e9300cadfef8736d87aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 60/91] fix: deleting the matrix one past the end read beyond
 the list of matrices

---
 cpp/lib_moment/matrix_system/matrix_system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/matrix_system/matrix_system.cpp b/cpp/lib_moment/matrix_system/matrix_system.cpp
index 98b0ee9..37aa9cb 100644
--- a/cpp/lib_moment/matrix_system/matrix_system.cpp
+++ b/cpp/lib_moment/matrix_system/matrix_system.cpp
@@ -93,7 +93,7 @@ namespace Moment {
     bool MatrixSystem::delete_matrix(const MaintainsMutex::WriteLock& lock, ptrdiff_t index) noexcept {
         assert(this->is_locked_write_lock(lock));
         // No deletion for bad index
-        if ((index < 0) || (index > this->matrices.size())) {
+        if ((index < 0) || (index >= this->matrices.size())) {
             return false;
         }
         // No deletion for missing matrix
-- 
2.43.0


From 433675f5a05aeb4507aceac82ad1973083926df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 61/91] fix: copying a description of an extended matrix left
 it looking at the original's freed list of symbols

---
 .../inflation/extended_matrix_indices.h        | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/cpp/lib_moment/scenarios/inflation/extended_matrix_indices.h b/cpp/lib_moment/scenarios/inflation/extended_matrix_indices.h
index cb60511..4ca8aa6 100644
--- a/cpp/lib_moment/scenarios/inflation/extended_matrix_indices.h
+++ b/cpp/lib_moment/scenarios/inflation/extended_matrix_indices.h
@@ -46,6 +46,24 @@ namespace Moment::Inflation {
         ExtendedMatrixIndex(size_t mm_level, const std::set<symbol_name_t>& list_as_set)
             : ExtendedMatrixIndex{mm_level, set_to_vector(list_as_set)} { }
 
+        /** Copy, such that if the list is stored, the copy's view is over its own list. */
+        ExtendedMatrixIndex(const ExtendedMatrixIndex& rhs)
+            : moment_matrix_level{rhs.moment_matrix_level}, internal_extension_list{rhs.internal_extension_list},
+              extension_list{rhs.extension_list} {
+            if (this->internal_extension_list.has_value()) {
+                this->extension_list = this->internal_extension_list.value();
+            }
+        }
+
+        ExtendedMatrixIndex(ExtendedMatrixIndex&& rhs) noexcept = default;
+
+        ExtendedMatrixIndex& operator=(ExtendedMatrixIndex rhs) noexcept {
+            this->moment_matrix_level = rhs.moment_matrix_level;
+            this->internal_extension_list.swap(rhs.internal_extension_list);
+            this->extension_list = rhs.extension_list;
+            return *this;
+        }
+
         [[nodiscard]] constexpr bool stores_list() const noexcept {
             return internal_extension_list.has_value();
         }
-- 
2.43.0


From 0e5df4d7f6ec31d0fa74c7fe5dcce4f14beb0925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:01 +0000
Subject: [PATCH 62/91] fix: extending an inflation matrix by a symbol
 registered outside matrix generation read past the factor table

---
 .../scenarios/inflation/inflation_matrix_system.cpp          | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
index 43847ca..663caac 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_matrix_system.cpp
@@ -59,6 +59,11 @@ namespace Moment::Inflation {
         }
         auto& monomial_source = dynamic_cast<MonomialMatrix&>(source);
 
+        // Symbols might have been registered outside of matrix generation (e.g. by multiplication): update their factors.
+        if (this->factors->size() < this->Symbols().size()) {
+            this->on_new_symbols_registered(lock, this->factors->size(), this->Symbols().size());
+        }
+
         return std::make_unique<ExtendedMatrix>(this->Symbols(), this->Factors(),
                                                 this->polynomial_factory().zero_tolerance,
                                                 monomial_source, index.extension_list,
-- 
2.43.0


From 563a45278a609ba03a3b83d5f1a09a23973316a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:18 +0000
Subject: [PATCH 63/91] fix: an operation that failed in one of several threads
 freed the matrix under the other threads, or waited for ever

---
 .../operator_matrix_factory_multithreaded.h   | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/matrix/operator_matrix/operator_matrix_factory_multithreaded.h b/cpp/lib_moment/matrix/operator_matrix/operator_matrix_factory_multithreaded.h
index 1deab54..e454e7c 100644
--- a/cpp/lib_moment/matrix/operator_matrix/operator_matrix_factory_multithreaded.h
+++ b/cpp/lib_moment/matrix/operator_matrix/operator_matrix_factory_multithreaded.h
@@ -87,6 +87,9 @@ namespace Moment {
         void execute() {
             // OSM generation
             this->bundle.ready_to_begin_osm_generation.wait(false, std::memory_order_acquire);
+            if (this->bundle.abandoned.test(std::memory_order_acquire)) {
+                return; // exit thread, stage will not begin.
+            }
             try {
                 this->generate_operator_sequence_matrix();
                 this->done_os_generation.set_value(true);
@@ -98,6 +101,9 @@ namespace Moment {
             // Alias generation (if applicable)
             if (this->bundle.factory.context.can_have_aliases()) {
                 this->bundle.ready_to_begin_alias_generation.wait(false, std::memory_order_acquire);
+                if (this->bundle.abandoned.test(std::memory_order_acquire)) {
+                    return; // exit thread, stage will not begin.
+                }
                 try {
                     this->generate_aliased_operator_sequence_matrix();
                     this->done_alias_generation.set_value(true);
@@ -311,6 +317,9 @@ namespace Moment {
         std::atomic_flag ready_to_begin_osm_generation;
         std::atomic_flag ready_to_begin_alias_generation;
 
+        /** Set if workers should exit, rather than begin their next stage. */
+        std::atomic_flag abandoned;
+
         /** Pointer to allocated memory for operator sequence matrix. */
         OperatorSequence * os_data_ptr = nullptr;
 
@@ -336,6 +345,7 @@ namespace Moment {
             // Clear progress flags
             this->ready_to_begin_osm_generation.clear(std::memory_order_relaxed);
             this->ready_to_begin_alias_generation.clear(std::memory_order_relaxed);
+            this->abandoned.clear(std::memory_order_relaxed);
 
             // Query for pool size
             const size_t num_threads = std::min(Multithreading::get_max_worker_threads(), factory.dimension);
@@ -365,6 +375,13 @@ namespace Moment {
          * Destructor: gather finished threads.
          */
         ~OperatorMatrixFactoryMultithreaded() noexcept {
+            // Release any workers waiting for a stage that will not begin (e.g. because the previous one failed)
+            this->abandoned.test_and_set(std::memory_order_release);
+            this->ready_to_begin_osm_generation.test_and_set(std::memory_order_release);
+            this->ready_to_begin_osm_generation.notify_all();
+            this->ready_to_begin_alias_generation.test_and_set(std::memory_order_release);
+            this->ready_to_begin_alias_generation.notify_all();
+
             for (auto& worker : workers) {
                 worker->join();
             }
@@ -442,7 +459,10 @@ namespace Moment {
             this->ready_to_begin_osm_generation.test_and_set(std::memory_order_release);
             this->ready_to_begin_osm_generation.notify_all();
 
-            // Block until all workers are done:
+            // Block until all workers are done, even if one of them failed (as the others still use the data):
+            for (auto& signal : this->done_os_generation) {
+                signal.wait();
+            }
             for (auto& signal : this->done_os_generation) {
                 bool done = false;
                 while (!done) {
@@ -460,7 +480,10 @@ namespace Moment {
             this->ready_to_begin_alias_generation.test_and_set(std::memory_order_release);
             this->ready_to_begin_alias_generation.notify_all();
 
-            // Block until all workers are done:
+            // Block until all workers are done, even if one of them failed (as the others still use the data):
+            for (auto& signal : this->done_alias_generation) {
+                signal.wait();
+            }
             for (auto& signal : this->done_alias_generation) {
                 bool done = false;
                 while (!done) {
-- 
2.43.0


From c2404b0cdd5011da04bcab9c63ffc78f967e7b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:18 +0000
Subject: [PATCH 64/91] fix: an operation that failed while transforming a
 matrix in several threads was not reported

---
 .../multithreading/matrix_transformation_worker.h     | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cpp/lib_moment/multithreading/matrix_transformation_worker.h b/cpp/lib_moment/multithreading/matrix_transformation_worker.h
index 67c4ea7..31de716 100644
--- a/cpp/lib_moment/multithreading/matrix_transformation_worker.h
+++ b/cpp/lib_moment/multithreading/matrix_transformation_worker.h
@@ -99,11 +99,12 @@ namespace Moment::Multithreading {
         // Wait for all threads to finish...
         for (auto &worker: workers) {
             worker.join();
-            // If worker had an exception, propagate it to main thread:
-            if constexpr(!noexcept(the_functor)) {
-                if (worker.exception) {
-                    std::rethrow_exception(worker.exception);
-                }
+        }
+
+        // If a worker had an exception, propagate it to main thread:
+        for (auto &worker: workers) {
+            if (worker.exception) {
+                std::rethrow_exception(worker.exception);
             }
         }
     }
-- 
2.43.0


From 860163b2fe941a2bc43a4b6fc55a2cc050a62001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:26 +0000
Subject: [PATCH 65/91] fix: importing a matrix that would make a symbol zero
 left symbols marked as both real and imaginary

---
 cpp/lib_moment/symbolic/symbol_table.cpp | 41 +++++++++++-------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/cpp/lib_moment/symbolic/symbol_table.cpp b/cpp/lib_moment/symbolic/symbol_table.cpp
index ce0b850..d054a28 100644
--- a/cpp/lib_moment/symbolic/symbol_table.cpp
+++ b/cpp/lib_moment/symbolic/symbol_table.cpp
@@ -201,9 +201,18 @@ namespace Moment {
         assert(can_be_real.bit_size == can_be_imaginary.bit_size);
         bool changes = false;
 
-        // Ensure enough elements exist
+        // Before anything changes, check no (existing or new) symbol would become zero
         const size_t initial_elems = this->unique_sequences.size();
         const size_t elems = can_be_real.bit_size;
+        for (size_t id = 1; id < elems; ++id) {
+            const bool is_hermitian = (id < initial_elems) && this->unique_sequences[id].hermitian;
+            const bool is_antihermitian = (id < initial_elems) && this->unique_sequences[id].antihermitian;
+            if ((is_antihermitian || !can_be_real.test(id)) && (is_hermitian || !can_be_imaginary.test(id))) {
+                throw errors::zero_symbol{static_cast<symbol_name_t>(id)};
+            }
+        }
+
+        // Ensure enough elements exist
         if (elems > initial_elems) {
             this->create(elems - initial_elems);
         }
@@ -215,29 +224,17 @@ namespace Moment {
                 symbol.antihermitian = true;
                 continue;
             }
+            if (static_cast<size_t>(symbol.id) >= elems) {
+                break; // no information about this, or later, symbols
+            }
 
-            const bool sym_has_real = can_be_real.test(symbol.id);
-            const bool sym_has_imaginary = can_be_imaginary.test(symbol.id);
-            if (sym_has_real) {
-                if (!sym_has_imaginary) {
-                    if (!symbol.hermitian) {
-                        changes = true;
-                    }
-                    symbol.hermitian = true;
-                    if (symbol.antihermitian) {
-                        throw errors::zero_symbol{symbol.id};
-                    }
-                }
-            } else if (sym_has_imaginary) {
-                if (!symbol.antihermitian) {
-                    changes = true;
-                }
+            if (!can_be_imaginary.test(symbol.id) && !symbol.hermitian) {
+                symbol.hermitian = true;
+                changes = true;
+            }
+            if (!can_be_real.test(symbol.id) && !symbol.antihermitian) {
                 symbol.antihermitian = true;
-                if (symbol.hermitian) {
-                    throw errors::zero_symbol{symbol.id};
-                }
-            } else {
-                throw errors::zero_symbol{symbol.id};
+                changes = true;
             }
         }
 
-- 
2.43.0


From eb237e5c7895a7d0e4683608bf2fc1b102464605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:26 +0000
Subject: [PATCH 66/91] fix: numeric bases of matrices made before an import
 changed the reality of their symbols were out of date

---
 cpp/lib_moment/matrix/matrix_basis.cpp      | 12 ++++++++++++
 cpp/lib_moment/matrix/matrix_basis.h        |  8 ++++++++
 cpp/lib_moment/matrix/monomial_matrix.cpp   |  3 +++
 cpp/lib_moment/matrix/polynomial_matrix.cpp |  3 +++
 4 files changed, 26 insertions(+)

diff --git a/cpp/lib_moment/matrix/matrix_basis.cpp b/cpp/lib_moment/matrix/matrix_basis.cpp
index 16d7911..524509c 100644
--- a/cpp/lib_moment/matrix/matrix_basis.cpp
+++ b/cpp/lib_moment/matrix/matrix_basis.cpp
@@ -165,6 +165,18 @@ namespace Moment {
             SparseMonolithicComplex{*this, std::move(rhs.SparseMonolithicComplex)} {
     }
 
+    void MatrixBasis::reset() {
+        std::unique_lock write_lock{this->mutex};
+        this->Dense.reset();
+        this->DenseComplex.reset();
+        this->Sparse.reset();
+        this->SparseComplex.reset();
+        this->DenseMonolithic.reset();
+        this->DenseMonolithicComplex.reset();
+        this->SparseMonolithic.reset();
+        this->SparseMonolithicComplex.reset();
+    }
+
     DenseBasisInfo::MakeStorageType MatrixBasis::create_dense() {
         if (this->matrix.HasComplexCoefficients()) {
             throw errors::bad_basis_error{"Matrix has complex coefficients, and so a basis of type [R,C] cannot be created."};
diff --git a/cpp/lib_moment/matrix/matrix_basis.h b/cpp/lib_moment/matrix/matrix_basis.h
index f3c8a6b..9adcb9b 100644
--- a/cpp/lib_moment/matrix/matrix_basis.h
+++ b/cpp/lib_moment/matrix/matrix_basis.h
@@ -76,6 +76,11 @@ namespace Moment {
                 return MBTInfo::GetBasis(this->re, this->im); // unlock~
             }
 
+            /** Forget basis, such that it will be created again when next needed. */
+            void reset() noexcept {
+                this->done.store(false, std::memory_order_release);
+            }
+
             /** Constructs the basis from scratch */
             [[nodiscard]] typename MBTInfo::MakeStorageType create_basis() const;
         };
@@ -135,6 +140,9 @@ namespace Moment {
 
         MatrixBasis(const SymbolicMatrix& matrix, MatrixBasis&& rhs) noexcept;
 
+        /** Forget every basis (e.g. because the indices of the symbols' real and imaginary parts have changed). */
+        void reset();
+
     private:
         DenseBasisInfo::MakeStorageType create_dense();
         SparseBasisInfo::MakeStorageType create_sparse();
diff --git a/cpp/lib_moment/matrix/monomial_matrix.cpp b/cpp/lib_moment/matrix/monomial_matrix.cpp
index 1a35a56..ccff469 100644
--- a/cpp/lib_moment/matrix/monomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/monomial_matrix.cpp
@@ -111,6 +111,9 @@ namespace Moment {
         }
 
         this->identify_symbols_and_basis_indices();
+
+        // Any bases already made are in terms of the previous indices.
+        this->Basis.reset();
     }
 
     void MonomialMatrix::identify_symbols_and_basis_indices() {
diff --git a/cpp/lib_moment/matrix/polynomial_matrix.cpp b/cpp/lib_moment/matrix/polynomial_matrix.cpp
index d2d189d..b6d9a60 100644
--- a/cpp/lib_moment/matrix/polynomial_matrix.cpp
+++ b/cpp/lib_moment/matrix/polynomial_matrix.cpp
@@ -153,6 +153,9 @@ namespace Moment {
         }
 
         this->identify_symbols_and_basis_indices(zero_tolerance);
+
+        // Any bases already made are in terms of the previous indices.
+        this->Basis.reset();
     }
 
     std::unique_ptr<SymbolicMatrix> PolynomialMatrix::clone(Multithreading::MultiThreadPolicy policy) const {
-- 
2.43.0


From 3cfc236d3410fee214c15b0cf26251e837f3d6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:36 +0000
Subject: [PATCH 67/91] fix: importing a matrix with a negative symbol ID wrote
 out of bounds

---
 cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp b/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp
index 240b35f..6f3ccfc 100644
--- a/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp
@@ -143,6 +143,11 @@ namespace Moment::Imported {
         const size_t initial_symbol_size = this->Symbols().size();
         size_t new_max_symbol_id = (initial_symbol_size > 0) ? (initial_symbol_size - 1) : 0;
         for (const auto &symbol_expression: *input) {
+            if (symbol_expression.id < 0) {
+                std::stringstream errSS;
+                errSS << "Symbol ID " << symbol_expression.id << " is invalid: symbol IDs cannot be negative.";
+                throw errors::bad_import_matrix{errSS.str()};
+            }
             if (symbol_expression.id > new_max_symbol_id) {
                 new_max_symbol_id = symbol_expression.id;
             }
-- 
2.43.0


From 56f15b26d15070e007425f168ca37ad5644f3088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:36 +0000
Subject: [PATCH 68/91] fix: nothing could be imported any more after a matrix
 had been deleted

---
 cpp/lib_moment/matrix_system/matrix_system.h               | 7 +++++++
 .../scenarios/imported/imported_matrix_system.cpp          | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/cpp/lib_moment/matrix_system/matrix_system.h b/cpp/lib_moment/matrix_system/matrix_system.h
index 291ec73..cd2d021 100644
--- a/cpp/lib_moment/matrix_system/matrix_system.h
+++ b/cpp/lib_moment/matrix_system/matrix_system.h
@@ -137,6 +137,13 @@ namespace Moment {
             return this->matrices.size();
         }
 
+        /**
+         * True if there is a matrix with this index (i.e. index is within range, and matrix has not been deleted).
+         */
+        [[nodiscard]] bool has_matrix(ptrdiff_t index) const noexcept {
+            return (index >= 0) && (static_cast<size_t>(index) < this->matrices.size()) && this->matrices[index];
+        }
+
         /**
          * Tests if there are any matrices in the system.
          * For thread safety, call for a read lock first.
diff --git a/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp b/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp
index 6f3ccfc..bdc8fd8 100644
--- a/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp
@@ -190,6 +190,9 @@ namespace Moment::Imported {
         // Reconstruct bases for all existing matrices, if any symbol changed from real to complex or vice versa.
         if (changed_symbols) {
             for (size_t index = 0; index < this->size(); ++index) {
+                if (!this->has_matrix(static_cast<ptrdiff_t>(index))) {
+                    continue; // matrix has been deleted
+                }
                 auto &old_mat = this->get(index);
                 old_mat.renumerate_bases(this->Symbols(), this->polynomial_factory().zero_tolerance);
             }
-- 
2.43.0


From a11e05efcf1511c23a225e3095a01d1d35f6fa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:36 +0000
Subject: [PATCH 69/91] fix: Hermitian imports ignored the phases of complex
 factors

---
 .../imported/imported_matrix_system.cpp       | 61 ++++++++-----------
 1 file changed, 26 insertions(+), 35 deletions(-)

diff --git a/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp b/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp
index bdc8fd8..ab213b2 100644
--- a/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/imported/imported_matrix_system.cpp
@@ -21,35 +21,41 @@
 namespace Moment::Imported {
 
     namespace {
+        /**
+         * Restrict symbol 'a', such that two monomials of 'a' (or its complex conjugate) are equal.
+         */
+        void equateMonomials(const Monomial& lhs, const Monomial& rhs,
+                             DynamicBitset<uint64_t>& can_be_real,
+                             DynamicBitset<uint64_t>& can_be_imaginary) {
+            assert(lhs.id == rhs.id);
+            const bool conj_eq = lhs.conjugated == rhs.conjugated;
+            if (lhs.factor == rhs.factor) {
+                if (!conj_eq) { // a = a* -> a is real
+                    can_be_imaginary.unset(lhs.id);
+                } // else a = a, no constraints
+            } else if (!conj_eq && (lhs.factor == -rhs.factor)) { // a = -a* -> a is imaginary
+                can_be_real.unset(lhs.id);
+            } else { // a = ka, or a = ka*, for k other than +/- 1 -> a is zero, or neither real nor imaginary
+                can_be_real.unset(lhs.id);
+                can_be_imaginary.unset(lhs.id);
+            }
+        }
+
         void checkIMSymmetric(const SquareMatrix<Monomial>& input,
                             DynamicBitset<uint64_t>& can_be_real,
                             DynamicBitset<uint64_t>& can_be_imaginary) {
             for (size_t i = 0; i < input.dimension; ++i) {
-                const auto& diagonal = input(std::array<size_t,2>{i, i});
-
                 for (size_t j = i+1; j < input.dimension; ++j) {
                     auto& upper = input(std::array<size_t,2>{i, j});
                     auto& lower = input(std::array<size_t,2>{j, i});
-                    if ((upper.id != lower.id) || (abs(upper.factor) != abs(lower.factor))) {
+                    if ((upper.id != lower.id) || ((upper.id != 0) && (abs(upper.factor) != abs(lower.factor)))) {
                         std::stringstream errSS;
                         errSS << "In symmetric matrix import, element [" << i << ", " << j << "] = " << upper
                               << " does not match element [" << j << ", " << i << "] = " << lower;
 
                         throw errors::bad_import_matrix{errSS.str()};
                     }
-                    const bool conj_eq = upper.conjugated == lower.conjugated;
-                    const bool neg_eq = upper.factor == lower.factor;
-
-                    if (conj_eq) {
-                        if (!neg_eq) { // a = -a -> a is zero
-                            can_be_real.unset(upper.id);
-                            can_be_imaginary.unset(upper.id);
-                        } // else a = a, no constraints
-                    } else if (neg_eq) { // a = a* -> a is real
-                        can_be_imaginary.unset(upper.id);
-                    } else { // a = -a* -> a is imaginary
-                        can_be_real.unset(upper.id);
-                    }
+                    equateMonomials(upper, lower, can_be_real, can_be_imaginary);
                 }
             }
         }
@@ -58,34 +64,19 @@ namespace Moment::Imported {
                               DynamicBitset<uint64_t>& can_be_real, DynamicBitset<uint64_t>& can_be_imaginary) {
 
             for (size_t i = 0; i < input.dimension; ++i) {
-                const auto& diagonal = input(std::array<size_t,2>{i, i});
-                // Diagonal elements are always real;
-                can_be_imaginary.unset(diagonal.id);
-
-                for (size_t j = i + 1; j < input.dimension; ++j) {
+                for (size_t j = i; j < input.dimension; ++j) { // Diagonal elements are their own conjugates
                     auto& upper = input(std::array<size_t,2>{i, j});
                     auto& lower = input(std::array<size_t,2>{j, i});
 
-                    if ((upper.id != lower.id) || (abs(upper.factor) != abs(lower.factor))) {
+                    if ((upper.id != lower.id) || ((upper.id != 0) && (abs(upper.factor) != abs(lower.factor)))) {
                         std::stringstream errSS;
                         errSS << "In hermitian matrix import, element [" << i << ", " << j << "] = " << upper
                               << " does not match element [" << j << ", " << i << "] = " << lower;
 
                         throw errors::bad_import_matrix{errSS.str()};
                     }
-                    const bool conj_eq = upper.conjugated != lower.conjugated; // <- account for Hermiticity
-                    const bool neg_eq = upper.factor == lower.factor;
-
-                    if (!conj_eq) {
-                        if (neg_eq) { // a* = a -> a = -a* -> a is real
-                            can_be_imaginary.unset(upper.id);
-                        } else { // else a* = -a -> a = -a* -> a is imaginary
-                            can_be_real.unset(upper.id);
-                        }
-                    } else if (!neg_eq) { // a = -a -> a is zero
-                        can_be_real.unset(upper.id);
-                        can_be_imaginary.unset(upper.id);
-                    } // else, a* = a*, no constraints
+                    equateMonomials(upper, Monomial{lower.id, std::conj(lower.factor), !lower.conjugated},
+                                    can_be_real, can_be_imaginary);
 
                     // In real-only context, no symbol mentioned can be imaginary
                     if (!can_be_complex) {
-- 
2.43.0


From aff2cc5ec519951dba85ccc80ab46f8bfb9e5ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 70/91] fix: signs of identities and imaginary signs were left
 out of printed words

---
 .../scenarios/algebraic/algebraic_context.cpp   | 15 ++++++++++++++-
 .../scenarios/inflation/inflation_context.cpp   | 15 ++++++++++-----
 .../scenarios/locality/locality_context.cpp     | 17 +++++++++++------
 3 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
index 742c8b3..de8ca82 100644
--- a/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/algebraic_context.cpp
@@ -170,7 +170,20 @@ namespace Moment::Algebraic {
         }
 
         if (seq.empty()) {
-            os.os << "1";
+            switch (seq.get_sign()) {
+                case SequenceSignType::Positive:
+                    os.os << "1";
+                    break;
+                case SequenceSignType::Imaginary:
+                    os.os << "i";
+                    break;
+                case SequenceSignType::Negative:
+                    os.os << "-1";
+                    break;
+                case SequenceSignType::NegativeImaginary:
+                    os.os << "-i";
+                    break;
+            }
             return;
         }
 
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index c132f7a..064bfc4 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -572,14 +572,19 @@ namespace Moment::Inflation {
             os.os << "0";
             return;
         }
-        if (seq.empty()) {
-            os.os << "1";
-            return;
-        }
-
         if (seq.negated()) {
             os.os << "-";
         }
+        if (seq.imaginary()) {
+            os.os << "i";
+        }
+
+        if (seq.empty()) {
+            if (!seq.imaginary()) {
+                os.os << "1";
+            }
+            return;
+        }
 
         if (os.format_info.show_braces) {
             os.os << "<";
diff --git a/cpp/lib_moment/scenarios/locality/locality_context.cpp b/cpp/lib_moment/scenarios/locality/locality_context.cpp
index c9628d4..44c98ef 100644
--- a/cpp/lib_moment/scenarios/locality/locality_context.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_context.cpp
@@ -223,14 +223,19 @@ namespace Moment::Locality {
                 os << "0";
                 return;
             }
-            if (seq.empty()) {
-                os << "1";
-                return;
-            }
-
             if (seq.negated()) {
                 os << "-";
             }
+            if (seq.imaginary()) {
+                os << "i";
+            }
+
+            if (seq.empty()) {
+                if (!seq.imaginary()) {
+                    os << "1";
+                }
+                return;
+            }
 
             if (os.format_info.show_braces) {
                 os << "<";
@@ -244,7 +249,7 @@ namespace Moment::Locality {
                     done_once = true;
                 }
 
-                if (oper > context.size()) {
+                if (oper >= context.size()) {
                     os << "[UNK:" << oper << "]";
                 } else {
                     const auto &party = context.associated_party(oper);
-- 
2.43.0


From 8bf372997f8f66371d6820e2ba4012c0cc9c60a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 71/91] fix: traditional names without a party showed the
 outcome twice

---
 .../scenarios/locality/locality_operator_formatter.cpp           | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/locality/locality_operator_formatter.cpp b/cpp/lib_moment/scenarios/locality/locality_operator_formatter.cpp
index 3d829c9..bcd2567 100644
--- a/cpp/lib_moment/scenarios/locality/locality_operator_formatter.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_operator_formatter.cpp
@@ -50,7 +50,6 @@ namespace Moment::Locality {
 
     std::ostream&
     TraditionalLOFormatter::format(std::ostream &os, const Measurement &mmt, oper_name_t outcome_num) const {
-        os << mmt.name << outcome_num;
         os << outcome_num << "|" << mmt.Index().mmt;
         return os;
     }
-- 
2.43.0


From a48e0746dc9889ca81632c52567fe2bdd11cad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:40 +0000
Subject: [PATCH 72/91] fix: first operator lost its name when conjugates are
 interleaved

---
 cpp/lib_moment/scenarios/algebraic/name_table.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/name_table.cpp b/cpp/lib_moment/scenarios/algebraic/name_table.cpp
index 65cfbd8..702eb6a 100644
--- a/cpp/lib_moment/scenarios/algebraic/name_table.cpp
+++ b/cpp/lib_moment/scenarios/algebraic/name_table.cpp
@@ -83,7 +83,9 @@ namespace Moment::Algebraic {
                     std::string conj_str = this->names[idx];
                     conj_str.append("*");
 
-                    this->names[2*idx] = std::move(this->names[idx]);
+                    if (idx > 0) { // First name is already in place.
+                        this->names[2*idx] = std::move(this->names[idx]);
+                    }
 
                     this->index.emplace(std::make_pair(conj_str, (2*idx+1)));
                     this->names[2*idx+1] = std::move(conj_str);
-- 
2.43.0


From 1e69f906467c69c6ec3524c449386b55c3df3ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:40 +0000
Subject: [PATCH 73/91] fix: converting U+007F to UTF-8 appended a null
 character

---
 cpp/lib_moment/utilities/utf_conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/lib_moment/utilities/utf_conversion.cpp b/cpp/lib_moment/utilities/utf_conversion.cpp
index 7c85d3e..00becb6 100644
--- a/cpp/lib_moment/utilities/utf_conversion.cpp
+++ b/cpp/lib_moment/utilities/utf_conversion.cpp
@@ -15,7 +15,7 @@ namespace Moment {
     size_t UTF16toUTF8Convertor::size_in_utf8(const std::basic_string<char16_t> &wstring) {
         size_t output = 0;
         for (char16_t elem : wstring) {
-            if (elem < 0x007f) {
+            if (elem <= 0x007f) {
                 output += 1;
             } else if (elem <= 0x07FF) {
                 output += 2;
-- 
2.43.0


From 2d20a5a82b8e593455f82c28a7a73f05487c29ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:40 +0000
Subject: [PATCH 74/91] fix: reading the most negative symbol ID overflowed

---
 cpp/lib_moment/symbolic/monomial.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/lib_moment/symbolic/monomial.cpp b/cpp/lib_moment/symbolic/monomial.cpp
index 10ae9e7..c9fa345 100644
--- a/cpp/lib_moment/symbolic/monomial.cpp
+++ b/cpp/lib_moment/symbolic/monomial.cpp
@@ -7,6 +7,7 @@
 #include "monomial.h"
 
 #include <cassert>
+#include <limits>
 
 #include <iostream>
 
@@ -260,6 +261,10 @@ namespace Moment {
                 throw SymbolParseException{strExpr};
             }
 
+            if (read_symbol_id < -std::numeric_limits<symbol_name_t>::max()) {
+                // Magnitude is too big for a symbol ID
+                throw SymbolParseException{strExpr};
+            }
             if (read_symbol_id < 0) {
                 if (!has_prefactor) {
                     this->factor = -1.0;
-- 
2.43.0


From b687c900c6f4f48d4e9f7bec9a4df5394c9b47c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:41 +0000
Subject: [PATCH 75/91] fix: scalar terms of raw polynomials were printed with
 a spurious digit

---
 cpp/lib_moment/dictionary/raw_polynomial.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/dictionary/raw_polynomial.cpp b/cpp/lib_moment/dictionary/raw_polynomial.cpp
index 319cfbb..38753b0 100644
--- a/cpp/lib_moment/dictionary/raw_polynomial.cpp
+++ b/cpp/lib_moment/dictionary/raw_polynomial.cpp
@@ -44,10 +44,17 @@ namespace Moment {
         ContextualOS cSS{ss, context};
         cSS.format_info.show_braces = true;
 
+        if (this->data.empty()) {
+            return "0";
+        }
+
         bool done_once = false;
         for (const auto& elem : this->data) {
-            format_factor(cSS, elem.weight, false, done_once);
-            cSS << elem.sequence;
+            const bool is_scalar = elem.sequence.empty() && !elem.sequence.zero();
+            format_factor(cSS, elem.weight, is_scalar, done_once);
+            if (!is_scalar) {
+                cSS << elem.sequence;
+            }
             done_once = true;
         }
 
-- 
2.43.0


From 378b0d3bcc809c754d9a8591af40d4cbffc43601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 76/91] fix: code points of plane 16 were mangled in UTF
 conversion

---
 cpp/lib_moment/utilities/utf_conversion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/utilities/utf_conversion.cpp b/cpp/lib_moment/utilities/utf_conversion.cpp
index 00becb6..4ac18f8 100644
--- a/cpp/lib_moment/utilities/utf_conversion.cpp
+++ b/cpp/lib_moment/utilities/utf_conversion.cpp
@@ -109,7 +109,7 @@ namespace Moment {
 
                     const char16_t surrogate_high = (src & 0x03FF) + 0x0040; // Correct for 0x10000 offset of code point
 
-                    const auto b0 = static_cast<char>( 0xf0 | ((surrogate_high & 0x0300) >> 8)); // 2 bits to first char
+                    const auto b0 = static_cast<char>( 0xf0 | ((surrogate_high & 0x0700) >> 8)); // 3 bits to first char
                     const auto b1 = static_cast<char>( 0x80 | ((surrogate_high & 0x00fc) >> 2)); // 6 bits to next char
                     const auto b2 = static_cast<char>( 0x80 | ((surrogate_high & 0x0003) << 4) // 2 from high
                                                             | ((surrogate_low & 0x03c0) >> 6));  // 4 from low
@@ -248,7 +248,7 @@ namespace Moment {
                     return output;
                 }
 
-                const auto b1 = src & 0x03; // 2
+                const auto b1 = src & 0x07; // 3
                 const auto b2 = *(src_ptr+1) & 0x3f; // 6
                 const auto b3 = *(src_ptr+2) & 0x3f; // 6
                 const auto b4 = *(src_ptr+3) & 0x3f; // 6
-- 
2.43.0


From b861217f9dd876407fe308c05503f33335829a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 77/91] fix: factors and signs of derived symbols were shown on
 the first original term only

---
 .../scenarios/derived/derived_context.cpp       | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cpp/lib_moment/scenarios/derived/derived_context.cpp b/cpp/lib_moment/scenarios/derived/derived_context.cpp
index 4b05261..f792c3c 100644
--- a/cpp/lib_moment/scenarios/derived/derived_context.cpp
+++ b/cpp/lib_moment/scenarios/derived/derived_context.cpp
@@ -34,12 +34,17 @@ namespace Moment::Derived {
         baseCOS.format_info.locality_formatter = os.format_info.locality_formatter;
 
         // Use polynomials from STM to infer inverse
-        if (conjugated) {
-            auto poly = this->map_ptr->inverse(Monomial{symbol_id, 1.0, true});
-            baseCOS << poly;
-        } else {
-            const auto& poly = this->map_ptr->inverse(symbol_id);
-            baseCOS << poly;
+        const Polynomial poly = conjugated ? this->map_ptr->inverse(Monomial{symbol_id, 1.0, true})
+                                           : Polynomial{this->map_ptr->inverse(symbol_id)};
+
+        // Symbol might be multiplied by a factor, or subtracted, so keep its terms together
+        const bool needs_brackets = poly.size() > 1;
+        if (needs_brackets) {
+            os.os << "(";
+        }
+        baseCOS << poly;
+        if (needs_brackets) {
+            os.os << ")";
         }
     }
 
-- 
2.43.0


From f40c13a4e8fa37be61d9e02296e580afe3181f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:11 +0000
Subject: [PATCH 78/91] fix: global measurement index equal to the number of
 measurements was not refused

---
 cpp/lib_moment/probability/collins_gisin.cpp              | 4 ++--
 .../scenarios/inflation/inflation_collins_gisin.cpp       | 6 +++---
 .../scenarios/inflation/inflation_probability_tensor.cpp  | 8 ++++----
 .../scenarios/locality/locality_collins_gisin.cpp         | 6 +++---
 .../scenarios/locality/locality_probability_tensor.cpp    | 8 ++++----
 5 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/cpp/lib_moment/probability/collins_gisin.cpp b/cpp/lib_moment/probability/collins_gisin.cpp
index ea3e06d..835031e 100644
--- a/cpp/lib_moment/probability/collins_gisin.cpp
+++ b/cpp/lib_moment/probability/collins_gisin.cpp
@@ -169,7 +169,7 @@ namespace Moment {
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
 
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex > this->gmIndex.size()) {
+            if (mmtIndex >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex];
@@ -191,7 +191,7 @@ namespace Moment {
 
         for (size_t n = 0; n < mmtIndices.size(); ++n) {
 
-            if (mmtIndices[n] > this->gmIndex.size()) {
+            if (mmtIndices[n] >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndices[n]];
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
index af0f746..83e64c7 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
@@ -92,7 +92,7 @@ namespace Moment::Inflation {
 
         for (auto mmtIndex: mmtIndices) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
@@ -112,7 +112,7 @@ namespace Moment::Inflation {
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex: mmtIndices) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
@@ -125,7 +125,7 @@ namespace Moment::Inflation {
 
         for (auto mmtIndex: fixedOutcomes) {
             const size_t global_mmt = this->inflationContext.obs_variant_to_index(mmtIndex.observable_variant);
-            if (global_mmt > this->gmIndex.size()) {
+            if (global_mmt >= this->gmIndex.size()) {
                 throw Moment::errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto &gmInfo = this->gmIndex[global_mmt];
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp b/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
index 729fa5a..e5a3baf 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
@@ -48,7 +48,7 @@ namespace Moment::Inflation {
         for (const auto& mmtIndex : mmtIndices) {
 
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
 
@@ -69,7 +69,7 @@ namespace Moment::Inflation {
         ProbabilityTensorIndex upper_bounds(this->Dimensions.size(), 1);
         for (const auto& mmtIndex : freeMeasurements) {
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
             if (lower_bounds[global_index] != 0) {
@@ -81,7 +81,7 @@ namespace Moment::Inflation {
 
         for (const auto& mmtIndex : fixedOutcomes) {
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex.observable_variant);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
             if (lower_bounds[global_index] != 0) {
@@ -100,7 +100,7 @@ namespace Moment::Inflation {
         ProbabilityTensorIndex index(this->Dimensions.size(), 0);
         for (const auto& mmtIndex : fixedOutcomes) {
             const size_t global_index = this->context.obs_variant_to_index(mmtIndex.observable_variant);
-            if (global_index > this->DimensionCount) {
+            if (global_index >= this->DimensionCount) {
                 throw Moment::errors::BadPTError("Global measurement index out of bounds.");
             }
             if (index[global_index] != 0) {
diff --git a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
index 79a1f20..6b361f2 100644
--- a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
@@ -69,7 +69,7 @@ namespace Moment::Locality {
         CollinsGisinIndex lower_bounds(this->Dimensions.size(), 0);
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
@@ -88,7 +88,7 @@ namespace Moment::Locality {
         CollinsGisinIndex lower_bounds(this->Dimensions.size(), 0);
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
@@ -100,7 +100,7 @@ namespace Moment::Locality {
         }
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmIndex.size()) {
+            if (mmtIndex.global_mmt >= this->gmIndex.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmInfo = this->gmIndex[mmtIndex.global_mmt];
diff --git a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
index d43db38..e75aa85 100644
--- a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
@@ -52,7 +52,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex lower_bounds(this->Dimensions.size(), 0);
         ProbabilityTensorIndex  upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : mmtIndices) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadCGError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -73,7 +73,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex lower_bounds(this->Dimensions.size(), 0);
         ProbabilityTensorIndex upper_bounds(this->Dimensions.size(), 1);
         for (auto mmtIndex : freeMeasurements) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -85,7 +85,7 @@ namespace Moment::Locality {
         }
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
@@ -104,7 +104,7 @@ namespace Moment::Locality {
         ProbabilityTensorIndex index(this->Dimensions.size(), 0);
 
         for (auto mmtIndex : fixedOutcomes) {
-            if (mmtIndex.global_mmt > this->gmInfo.size()) {
+            if (mmtIndex.global_mmt >= this->gmInfo.size()) {
                 throw errors::BadPTError("Global measurement index out of bounds.");
             }
             const auto& gmEntry = this->gmInfo[mmtIndex.global_mmt];
-- 
2.43.0


From 8481bc402f412c619e0d27281ea1546035c4c7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:57 +0000
Subject: [PATCH 79/91] fix: unknown observables and variants of inflation
 scenarios were read out of bounds

---
 .../scenarios/inflation/inflation_context.cpp | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index 064bfc4..87f903e 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -475,11 +475,16 @@ namespace Moment::Inflation {
         output.reserve(input.size());
         size_t index = 0;
         for (const auto& ov : input) {
-            if (ov.observable > this->inflated_observables.size()) {
+            if ((ov.observable < 0) || (ov.observable >= this->inflated_observables.size())) {
                 std::stringstream errSS;
                 errSS << "Observable \"" << ov.observable << "\" at index " << index << " out of range.";
                 throw errors::bad_observable{index, errSS.str()};
             }
+            if (this->inflated_observables[ov.observable].outcomes == 0) {
+                std::stringstream errSS;
+                errSS << "Observable \"" << ov.observable << "\" at index " << index << " has no outcomes.";
+                throw errors::bad_observable{index, errSS.str()};
+            }
             output.emplace_back(ov, 0);
             ++index;
         }
@@ -553,15 +558,27 @@ namespace Moment::Inflation {
    }
 
     oper_name_t InflationContext::obs_variant_to_index(const oper_name_t observable, const oper_name_t variant) const {
-        assert((observable >= 0) && (observable < this->inflated_observables.size()));
+        if ((observable < 0) || (observable >= this->inflated_observables.size())) {
+            std::stringstream errSS;
+            errSS << "Observable \"" << observable << "\" is out of range.";
+            throw errors::bad_observable{static_cast<size_t>(observable), errSS.str()};
+        }
         const auto& observable_info = this->inflated_observables[observable];
-        assert((variant >= 0) && (variant < observable_info.variant_count));
+        if ((variant < 0) || (variant >= observable_info.variant_count)) {
+            std::stringstream errSS;
+            errSS << "Variant \"" << variant << "\" for observable \"" << observable << "\" is out of range.";
+            throw errors::bad_observable{static_cast<size_t>(observable), errSS.str()};
+        }
         return static_cast<oper_name_t>(observable_info.variant_offset + variant);
     }
 
     OVIndex
     InflationContext::index_to_obs_variant(const oper_name_t global_variant_index) const {
-        assert((global_variant_index >= 0) && (global_variant_index < this->global_variant_indices.size()));
+        if ((global_variant_index < 0) || (global_variant_index >= this->global_variant_indices.size())) {
+            std::stringstream errSS;
+            errSS << "Global variant index \"" << global_variant_index << "\" is out of range.";
+            throw errors::bad_observable{static_cast<size_t>(global_variant_index), errSS.str()};
+        }
         return this->global_variant_indices[global_variant_index];
     }
 
-- 
2.43.0


From d3c1573af3ba7fd19f6433792d43a32c21e636f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:57 +0000
Subject: [PATCH 80/91] fix: outcomes out of range selected entries of another
 measurement, or outside of the tensor

---
 cpp/lib_moment/probability/collins_gisin.cpp               | 7 ++++++-
 .../scenarios/inflation/inflation_collins_gisin.cpp        | 3 +++
 .../scenarios/inflation/inflation_probability_tensor.cpp   | 6 ++++++
 .../scenarios/locality/locality_collins_gisin.cpp          | 3 +++
 .../scenarios/locality/locality_probability_tensor.cpp     | 6 ++++++
 5 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/cpp/lib_moment/probability/collins_gisin.cpp b/cpp/lib_moment/probability/collins_gisin.cpp
index 835031e..d80fd77 100644
--- a/cpp/lib_moment/probability/collins_gisin.cpp
+++ b/cpp/lib_moment/probability/collins_gisin.cpp
@@ -184,7 +184,9 @@ namespace Moment {
 
     CollinsGisinRange CollinsGisin::measurement_to_range(std::span<const size_t> mmtIndices,
                                                             std::span<const oper_name_t> fixedOutcomes) const {
-        assert(mmtIndices.size() == fixedOutcomes.size());
+        if (mmtIndices.size() != fixedOutcomes.size()) {
+            throw errors::BadCGError("Number of outcomes must match number of measurements.");
+        }
 
         CollinsGisinIndex lower_bounds(this->Dimensions.size(), 0);
         CollinsGisinIndex upper_bounds(this->Dimensions.size(), 1);
@@ -199,6 +201,9 @@ namespace Moment {
                 throw errors::BadCGError("Two measurements from same party cannot be specified.");
             }
             if (fixedOutcomes[n] >= 0) {
+                if (fixedOutcomes[n] >= gmInfo.length) {
+                    throw errors::BadCGError("Outcome index out of bounds.");
+                }
                 lower_bounds[gmInfo.party] = gmInfo.offset + fixedOutcomes[n];
                 upper_bounds[gmInfo.party] = gmInfo.offset + fixedOutcomes[n] + 1;
             } else {
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
index 83e64c7..e20a873 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_collins_gisin.cpp
@@ -133,6 +133,9 @@ namespace Moment::Inflation {
                 throw Moment::errors::BadCGError("Two measurements from same party cannot be specified.");
             }
 
+            if ((mmtIndex.outcome < 0) || (mmtIndex.outcome >= gmInfo.length)) {
+                throw Moment::errors::BadCGError("Outcome index out of bounds.");
+            }
             lower_bounds[gmInfo.party] = gmInfo.offset + mmtIndex.outcome;
             upper_bounds[gmInfo.party] = gmInfo.offset + mmtIndex.outcome + 1;
         }
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp b/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
index e5a3baf..1b3ef4f 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_probability_tensor.cpp
@@ -87,6 +87,9 @@ namespace Moment::Inflation {
             if (lower_bounds[global_index] != 0) {
                 throw Moment::errors::BadPTError("Two measurements of the same observable cannot be specified.");
             }
+            if ((mmtIndex.outcome < 0) || (1 + mmtIndex.outcome >= this->Dimensions[global_index])) {
+                throw Moment::errors::BadPTError("Outcome index out of bounds.");
+            }
 
             lower_bounds[global_index] = 1 + mmtIndex.outcome;
             upper_bounds[global_index] = 2 + mmtIndex.outcome;
@@ -106,6 +109,9 @@ namespace Moment::Inflation {
             if (index[global_index] != 0) {
                 throw Moment::errors::BadPTError("Two measurements of the same observable cannot be specified.");
             }
+            if ((mmtIndex.outcome < 0) || (1 + mmtIndex.outcome >= this->Dimensions[global_index])) {
+                throw Moment::errors::BadPTError("Outcome index out of bounds.");
+            }
 
             index[global_index] = 1 + mmtIndex.outcome;
         }
diff --git a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
index 6b361f2..2530ecf 100644
--- a/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_collins_gisin.cpp
@@ -108,6 +108,9 @@ namespace Moment::Locality {
                 throw errors::BadCGError("Two measurements from same party cannot be specified.");
             }
 
+            if (mmtIndex.outcome >= gmInfo.length) {
+                throw errors::BadCGError("Outcome index out of bounds.");
+            }
             lower_bounds[gmInfo.party] = gmInfo.offset + mmtIndex.outcome;
             upper_bounds[gmInfo.party] = gmInfo.offset + mmtIndex.outcome + 1;
         }
diff --git a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
index e75aa85..0787653 100644
--- a/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_probability_tensor.cpp
@@ -93,6 +93,9 @@ namespace Moment::Locality {
                 throw errors::BadPTError("Two measurements from same party cannot be specified.");
             }
 
+            if (mmtIndex.outcome >= gmEntry.length) {
+                throw errors::BadPTError("Outcome index out of bounds.");
+            }
             lower_bounds[gmEntry.party] = gmEntry.offset + mmtIndex.outcome;
             upper_bounds[gmEntry.party] = gmEntry.offset + mmtIndex.outcome + 1;
         }
@@ -111,6 +114,9 @@ namespace Moment::Locality {
             if (index[gmEntry.party] != 0) {
                 throw errors::BadPTError("Two outcomes from same party cannot be specified.");
             }
+            if (mmtIndex.outcome >= gmEntry.length) {
+                throw errors::BadPTError("Outcome index out of bounds.");
+            }
             index[gmEntry.party] = gmEntry.offset + mmtIndex.outcome;
         }
 
-- 
2.43.0


From 01cdbe6e1922eeae284008530dd335c1ed2579be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:09 +0000
Subject: [PATCH 81/91] fix: explicit probability values were read beyond the
 end of the supplied list

---
 cpp/lib_moment/probability/probability_tensor.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cpp/lib_moment/probability/probability_tensor.cpp b/cpp/lib_moment/probability/probability_tensor.cpp
index b5a8d60..5021098 100644
--- a/cpp/lib_moment/probability/probability_tensor.cpp
+++ b/cpp/lib_moment/probability/probability_tensor.cpp
@@ -114,6 +114,11 @@ namespace Moment {
 
     std::vector<Polynomial> ProbabilityTensor::explicit_value_rules(const ProbabilityTensorRange &measurement,
                                                                     const std::span<const double> values) const {
+        if (values.size() != measurement.size()) {
+            std::stringstream errSS;
+            errSS << "Expected " << measurement.size() << " values, but " << values.size() << " were supplied.";
+            throw Moment::errors::BadPTError{errSS.str()};
+        }
         std::vector<Polynomial> output{};
         auto value_iter = values.begin();
         for (const ProbabilityTensorElement& elem : measurement) {
@@ -138,6 +143,11 @@ namespace Moment {
     std::vector<Polynomial> ProbabilityTensor::explicit_value_rules(const ProbabilityTensorRange &measurement,
                                                                     const ProbabilityTensorElement &condition,
                                                                     const std::span<const double> values) const {
+        if (values.size() != measurement.size()) {
+            std::stringstream errSS;
+            errSS << "Expected " << measurement.size() << " values, but " << values.size() << " were supplied.";
+            throw Moment::errors::BadPTError{errSS.str()};
+        }
         // Check conditional element has symbols explicitly defined.
         if (!condition.hasSymbolPoly) {
             std::stringstream errSS;
-- 
2.43.0


From f7a9a36bb8f234713fe4ff344f560ecb663d1d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:12 +0000
Subject: [PATCH 82/91] fix: words with unknown operators were read out of
 bounds (Pauli, inflation) or terminated the process (locality)

---
 cpp/lib_moment/dictionary/operator_sequence.cpp          | 4 ++--
 cpp/lib_moment/dictionary/operator_sequence.h            | 4 ++--
 cpp/lib_moment/scenarios/inflation/inflation_context.cpp | 8 ++++++++
 cpp/lib_moment/scenarios/pauli/pauli_context.cpp         | 8 ++++++++
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/dictionary/operator_sequence.cpp b/cpp/lib_moment/dictionary/operator_sequence.cpp
index 68f27d5..4c58c4b 100644
--- a/cpp/lib_moment/dictionary/operator_sequence.cpp
+++ b/cpp/lib_moment/dictionary/operator_sequence.cpp
@@ -32,7 +32,7 @@ namespace Moment {
 
     OperatorSequence::OperatorSequence(sequence_storage_t operators,
                                        const Context &context,
-                                       const SequenceSignType sign_type) noexcept
+                                       const SequenceSignType sign_type)
         : HashedSequence{std::move(operators), context.hash(operators), sign_type}, context{&context} {
         this->to_canonical_form();
     }
@@ -46,7 +46,7 @@ namespace Moment {
     }
 
 
-    void OperatorSequence::to_canonical_form() noexcept {
+    void OperatorSequence::to_canonical_form() {
         // Contextual simplifications
         bool simplify_to_zero = this->context->additional_simplification(this->operators, this->sign);
         if (simplify_to_zero) {
diff --git a/cpp/lib_moment/dictionary/operator_sequence.h b/cpp/lib_moment/dictionary/operator_sequence.h
index 4edd911..f1b70e7 100644
--- a/cpp/lib_moment/dictionary/operator_sequence.h
+++ b/cpp/lib_moment/dictionary/operator_sequence.h
@@ -56,7 +56,7 @@ namespace Moment {
          * @param sign_type Whether to interpret the sequence with +1, +i, -1, -i in front of it.
          */
         OperatorSequence(sequence_storage_t operators, const Context& context,
-                         SequenceSignType sign_type = SequenceSignType::Positive) noexcept;
+                         SequenceSignType sign_type = SequenceSignType::Positive);
 
         /**
          * Constructs a sequence of operators, with no further simplifications or rehashing.
@@ -230,7 +230,7 @@ namespace Moment {
         /**
          * Perform simplifications on the raw operator sequence, calling context if supplied.
          */
-        void to_canonical_form() noexcept;
+        void to_canonical_form();
 
 
 
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index 87f903e..bd2ea18 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -17,6 +17,7 @@
 #include <algorithm>
 #include <bit>
 #include <sstream>
+#include <stdexcept>
 
 namespace Moment::Inflation {
 
@@ -240,6 +241,13 @@ namespace Moment::Inflation {
 
     bool InflationContext::additional_simplification(sequence_storage_t &op_sequence, SequenceSignType& sign_type) const {
 
+        // Verify operator sequence is valid
+        for (const auto& op : op_sequence) {
+            if ((op < 0) || (op >= this->operator_count)) {
+                throw std::range_error{"Operator ID higher than number of known operators."};
+            }
+        }
+
         // Completely commuting set, so sort (no need for stability)
         std::sort(op_sequence.begin(), op_sequence.end());
 
diff --git a/cpp/lib_moment/scenarios/pauli/pauli_context.cpp b/cpp/lib_moment/scenarios/pauli/pauli_context.cpp
index b01b158..dadf38b 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_context.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_context.cpp
@@ -21,6 +21,7 @@
 #include <algorithm>
 #include <iostream>
 #include <sstream>
+#include <stdexcept>
 
 namespace Moment::Pauli {
 
@@ -116,6 +117,13 @@ namespace Moment::Pauli {
             return false;
         }
 
+        // Verify operator sequence is valid
+        for (const auto& op : op_sequence) {
+            if ((op < 0) || (op >= this->operator_count)) {
+                throw std::range_error{"Operator ID higher than number of known operators."};
+            }
+        }
+
         // First, order operators by party
         std::stable_sort(op_sequence.begin(), op_sequence.end(), [](const oper_name_t lhs, const oper_name_t rhs) {
             return (lhs / 3) < (rhs / 3);
-- 
2.43.0


From 5178acbbfe70d2ded7e5c61bc74544562e872918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:25 +0000
Subject: [PATCH 83/91] fix: scenarios with more operators than can be numbered
 were created with wrapped-around operator counts

---
 .../algebraic/algebraic_precontext.h          |  7 ++++-
 cpp/lib_moment/scenarios/context.cpp          | 13 +++++++-
 .../scenarios/inflation/inflation_context.cpp | 30 ++++++++++++++++++-
 .../scenarios/locality/locality_context.cpp   |  9 +++++-
 .../scenarios/locality/locality_context.h     |  2 +-
 cpp/lib_moment/scenarios/locality/party.cpp   | 13 ++++++++
 .../scenarios/pauli/pauli_context.cpp         | 26 ++++++++--------
 7 files changed, 83 insertions(+), 17 deletions(-)

diff --git a/cpp/lib_moment/scenarios/algebraic/algebraic_precontext.h b/cpp/lib_moment/scenarios/algebraic/algebraic_precontext.h
index 113920b..69eeced 100644
--- a/cpp/lib_moment/scenarios/algebraic/algebraic_precontext.h
+++ b/cpp/lib_moment/scenarios/algebraic/algebraic_precontext.h
@@ -11,6 +11,8 @@
 #include "shortlex_hasher.h"
 
 #include <cassert>
+#include <limits>
+#include <stdexcept>
 
 namespace Moment::Algebraic {
     class AlgebraicPrecontext {
@@ -40,7 +42,10 @@ namespace Moment::Algebraic {
               raw_operators{op_count}, // not the 2 * value!
               conj_mode{mode},
               hasher{static_cast<size_t>(num_operators)} {
-
+            if ((op_count < 0)
+                || ((mode != ConjugateMode::SelfAdjoint) && (op_count > std::numeric_limits<oper_name_t>::max() / 2))) {
+                throw std::invalid_argument{"Number of operators cannot be represented in Moment."};
+            }
         }
 
         AlgebraicPrecontext(const AlgebraicPrecontext& rhs) = default;
diff --git a/cpp/lib_moment/scenarios/context.cpp b/cpp/lib_moment/scenarios/context.cpp
index 266d351..d8637fa 100644
--- a/cpp/lib_moment/scenarios/context.cpp
+++ b/cpp/lib_moment/scenarios/context.cpp
@@ -13,13 +13,24 @@
 
 #include <algorithm>
 #include <iostream>
+#include <limits>
 #include <sstream>
+#include <stdexcept>
 #include <utility>
 
 namespace Moment {
 
+    namespace {
+        oper_name_t checked_operator_count(const size_t count) {
+            if (count > static_cast<size_t>(std::numeric_limits<oper_name_t>::max())) {
+                throw std::invalid_argument{"Too many operators to be represented in Moment."};
+            }
+            return static_cast<oper_name_t>(count);
+        }
+    }
+
     Context::Context(const size_t count)
-        : operator_count{static_cast<oper_name_t>(count)}, hasher{count} {
+        : operator_count{checked_operator_count(count)}, hasher{count} {
         this->word_list = std::make_unique<Dictionary>(*this);
     }
 
diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index bd2ea18..45f1380 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -16,6 +16,7 @@
 
 #include <algorithm>
 #include <bit>
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 
@@ -106,8 +107,35 @@ namespace Moment::Inflation {
 
 
 
+    namespace {
+        size_t checked_operator_count(const CausalNetwork& network, const size_t inflation_level) {
+            // Operators, variants, and copies of sources are all numbered by oper_name_t.
+            constexpr const size_t limit = std::numeric_limits<oper_name_t>::max();
+            bool too_big = (inflation_level > limit)
+                            || (network.Sources().size() > limit / std::max<size_t>(inflation_level, 1));
+            size_t total_variants = 0;
+            size_t total_operators = 0;
+            for (const auto& observable : network.Observables()) {
+                size_t copies = 1;
+                for (size_t n = 0; !observable.singleton && (n < observable.source_count) && (copies <= limit); ++n) {
+                    copies *= inflation_level;
+                }
+                if (too_big || (copies > limit) || (observable.operators() > limit)) {
+                    too_big = true;
+                    break;
+                }
+                total_variants += copies;
+                total_operators += copies * observable.operators();
+            }
+            if (too_big || (total_variants > limit) || (total_operators > limit)) {
+                throw std::invalid_argument{"Inflated network is too large to be represented in Moment."};
+            }
+            return total_operators;
+        }
+    }
+
     InflationContext::InflationContext(CausalNetwork network, size_t inflation_level)
-        : Context{network.total_operator_count(inflation_level)},
+        : Context{checked_operator_count(network, inflation_level)},
           base_network{std::move(network)},
           inflation{inflation_level} {
 
diff --git a/cpp/lib_moment/scenarios/locality/locality_context.cpp b/cpp/lib_moment/scenarios/locality/locality_context.cpp
index 44c98ef..cf46ebd 100644
--- a/cpp/lib_moment/scenarios/locality/locality_context.cpp
+++ b/cpp/lib_moment/scenarios/locality/locality_context.cpp
@@ -15,6 +15,7 @@
 
 #include <algorithm>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 #include <utility>
@@ -23,8 +24,14 @@ namespace Moment::Locality {
     namespace {
           size_t count_operators(const std::vector<Party>& parties) {
             size_t val = 0;
+            size_t mmts = 0;
             for (const auto& party : parties) {
                 val += party.size();
+                mmts += party.Measurements.size();
+            }
+            if ((parties.size() > static_cast<size_t>(std::numeric_limits<party_name_t>::max()))
+                || (mmts > static_cast<size_t>(std::numeric_limits<mmt_name_t>::max()))) {
+                throw std::invalid_argument{"Too many measurements to be represented in Moment."};
             }
             return val;
         }
@@ -33,7 +40,7 @@ namespace Moment::Locality {
     LocalityContext::LocalityContext() : Context{0}, Parties{*this} {
     }
 
-    LocalityContext::LocalityContext(std::vector<Party> &&in_party) noexcept
+    LocalityContext::LocalityContext(std::vector<Party> &&in_party)
         : Context{count_operators(in_party)}, Parties{*this},
           parties{std::move(in_party)}, total_measurement_count{0} {
         this->total_measurement_count = 0;
diff --git a/cpp/lib_moment/scenarios/locality/locality_context.h b/cpp/lib_moment/scenarios/locality/locality_context.h
index f721c78..3c5e6a9 100644
--- a/cpp/lib_moment/scenarios/locality/locality_context.h
+++ b/cpp/lib_moment/scenarios/locality/locality_context.h
@@ -57,7 +57,7 @@ namespace Moment::Locality {
     public:
         LocalityContext();
 
-        explicit LocalityContext(std::vector<Party>&& parties) noexcept;
+        explicit LocalityContext(std::vector<Party>&& parties);
 
         /**
          * Use additional context to simplify an operator string.
diff --git a/cpp/lib_moment/scenarios/locality/party.cpp b/cpp/lib_moment/scenarios/locality/party.cpp
index 1d909f2..a78c37a 100644
--- a/cpp/lib_moment/scenarios/locality/party.cpp
+++ b/cpp/lib_moment/scenarios/locality/party.cpp
@@ -18,6 +18,19 @@ namespace Moment::Locality {
    Party::Party(party_name_t id, std::string the_name, std::vector<Measurement> &&mmt_in)
         : party_id{id}, Measurements{*this}, name{std::move(the_name)}, measurements{std::move(mmt_in)} {
 
+        // Check measurements can be represented
+        size_t total_operators = 0;
+        for (const auto& mmt : this->measurements) {
+            if (mmt.num_outcomes < 1) {
+                throw std::invalid_argument{"Every measurement must have at least one outcome."};
+            }
+            total_operators += mmt.num_operators();
+        }
+        if ((total_operators > static_cast<size_t>(std::numeric_limits<oper_name_t>::max()))
+            || (this->measurements.size() > static_cast<size_t>(std::numeric_limits<mmt_name_t>::max()))) {
+            throw std::invalid_argument{"Too many measurements to be represented in Moment."};
+        }
+
         // Set up measurements
         this->party_operator_count = 0;
         mmt_name_t mmt_id = 0;
diff --git a/cpp/lib_moment/scenarios/pauli/pauli_context.cpp b/cpp/lib_moment/scenarios/pauli/pauli_context.cpp
index dadf38b..5c12d13 100644
--- a/cpp/lib_moment/scenarios/pauli/pauli_context.cpp
+++ b/cpp/lib_moment/scenarios/pauli/pauli_context.cpp
@@ -20,6 +20,7 @@
 
 #include <algorithm>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 
@@ -61,14 +62,20 @@ namespace Moment::Pauli {
         }
     }
 
-    PauliContext::PauliContext(const size_t chain_length, const WrapType is_wrapped, const SymmetryType tx_sym)
-    :Context{chain_length*3}, qubit_size{chain_length}, col_height{0}, row_width{0},
-        wrap{is_wrapped}, translational_symmetry{tx_sym} {
-        // Check we can support qubit size
-        if (this->size() >= std::numeric_limits<oper_name_t>::max()) {
-            throw errors::bad_pauli_context{"Cannot represent a lattice of this size in Moment."};
+    namespace {
+        size_t checked_operator_count(const size_t col_height, const size_t row_width) {
+            // Check we can support qubit size
+            constexpr const size_t max_qubits = std::numeric_limits<oper_name_t>::max() / 3;
+            if ((row_width != 0) && (col_height > max_qubits / row_width)) {
+                throw errors::bad_pauli_context{"Cannot represent a lattice of this size in Moment."};
+            }
+            return col_height * row_width * 3;
         }
+    }
 
+    PauliContext::PauliContext(const size_t chain_length, const WrapType is_wrapped, const SymmetryType tx_sym)
+    :Context{checked_operator_count(chain_length, 1)}, qubit_size{chain_length}, col_height{0}, row_width{0},
+        wrap{is_wrapped}, translational_symmetry{tx_sym} {
         // In symmetric mode, make hasher object
         if (translational_symmetry != SymmetryType::None) {
             this->tx_hasher = MomentSimplifier::make(*this);
@@ -82,14 +89,9 @@ namespace Moment::Pauli {
 
     PauliContext::PauliContext(const size_t col_height_in, const size_t row_width_in,
                                const WrapType is_wrapped, const SymmetryType tx_sym)
-        : Context{static_cast<size_t>(col_height_in * row_width_in*3)}, qubit_size{col_height_in * row_width_in},
+        : Context{checked_operator_count(col_height_in, row_width_in)}, qubit_size{col_height_in * row_width_in},
             wrap{is_wrapped}, translational_symmetry{tx_sym},
             col_height{col_height_in}, row_width{col_height_in != 0 ? row_width_in : 0} {
-        // Check we can support qubit size
-        if (this->size() >= std::numeric_limits<oper_name_t>::max()) {
-            throw errors::bad_pauli_context{"Cannot represent a lattice of this size in Moment."};
-        }
-
         // Check validity of col_height
         if (col_height != 0) {
             if (col_height < 0) {
-- 
2.43.0


From 85cc89414c93ec14d20854d4b26c16b4a5103a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:25 +0000
Subject: [PATCH 84/91] fix: a moved party lost its operator list, which was
 then read out of bounds

---
 cpp/lib_moment/scenarios/locality/party.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/lib_moment/scenarios/locality/party.h b/cpp/lib_moment/scenarios/locality/party.h
index 59fdfbc..307211c 100644
--- a/cpp/lib_moment/scenarios/locality/party.h
+++ b/cpp/lib_moment/scenarios/locality/party.h
@@ -69,6 +69,7 @@ namespace Moment::Locality {
                 global_measurement_offset(rhs.global_measurement_offset),
                 global_operator_offset(rhs.global_operator_offset),
                 party_operator_count(rhs.party_operator_count),
+                included_operators(std::move(rhs.included_operators)),
                 context{rhs.context} { }
 
         Party(party_name_t id, std::string the_name, std::vector<Measurement>&& measurements);
-- 
2.43.0


From 0d17a893bd70d96e4d8b98bdbe88c95ea882987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:37 +0000
Subject: [PATCH 85/91] fix: party lists with too few outcomes were read out of
 bounds

---
 cpp/lib_moment/scenarios/locality/party.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/cpp/lib_moment/scenarios/locality/party.cpp b/cpp/lib_moment/scenarios/locality/party.cpp
index a78c37a..5df9f0c 100644
--- a/cpp/lib_moment/scenarios/locality/party.cpp
+++ b/cpp/lib_moment/scenarios/locality/party.cpp
@@ -247,6 +247,24 @@ namespace Moment::Locality {
     std::vector<Party>
     Party::MakeList(const std::vector<size_t>& mmts_per_party,
                     const std::vector<size_t>& outcomes_per_mmt) {
+        // Check each measurement has its (representable) number of outcomes
+        size_t remaining_outcomes = outcomes_per_mmt.size();
+        for (const auto num_mmts : mmts_per_party) {
+            if (num_mmts > remaining_outcomes) {
+                throw std::invalid_argument{"Number of outcomes must be given for every measurement."};
+            }
+            remaining_outcomes -= num_mmts;
+        }
+        for (const auto num_outcomes : outcomes_per_mmt) {
+            if (num_outcomes > static_cast<size_t>(std::numeric_limits<oper_name_t>::max())) {
+                throw std::invalid_argument{"Too many outcomes to be represented in Moment."};
+            }
+        }
+        if ((mmts_per_party.size() > static_cast<size_t>(std::numeric_limits<party_name_t>::max()))
+            || (outcomes_per_mmt.size() > static_cast<size_t>(std::numeric_limits<mmt_name_t>::max()))) {
+            throw std::invalid_argument{"Too many measurements to be represented in Moment."};
+        }
+
         const auto num_parties = static_cast<party_name_t>(mmts_per_party.size());
         std::vector<Party> output;
         output.reserve(num_parties);
-- 
2.43.0


From 4774a9fc28b7e0c5fa080f42b5ec654aa2c3ff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:52 +0000
Subject: [PATCH 86/91] fix: words with unknown operators were read out of
 bounds when tested for being canonical (inflation)

---
 cpp/lib_moment/scenarios/inflation/inflation_context.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index 45f1380..6f77994 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -302,6 +302,13 @@ namespace Moment::Inflation {
 
 
     std::optional<OperatorSequence> InflationContext::get_if_canonical(const sequence_storage_t &sequence) const {
+        // Verify operator sequence is valid
+        for (const auto& op : sequence) {
+            if ((op < 0) || (op >= this->operator_count)) {
+                throw std::range_error{"Operator ID higher than number of known operators."};
+            }
+        }
+
         // Sequences commute, so canonical variations are sorted.
         if (!std::is_sorted(sequence.cbegin(), sequence.cend())) {
             return std::nullopt;
-- 
2.43.0


From 7c8bbb42e5e501e7f5ab7d3620c608d18f8fe11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:49 +0000
Subject: [PATCH 87/91] fix: refuse moment rules with NaN or infinite factors
 instead of corrupting memory

---
 cpp/lib_moment/symbolic/rules/moment_rule.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cpp/lib_moment/symbolic/rules/moment_rule.cpp b/cpp/lib_moment/symbolic/rules/moment_rule.cpp
index dc0d698..9b339ad 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rule.cpp
+++ b/cpp/lib_moment/symbolic/rules/moment_rule.cpp
@@ -14,6 +14,7 @@
 #include "utilities/float_utils.h"
 
 #include <algorithm>
+#include <cmath>
 #include <sstream>
 
 
@@ -100,6 +101,15 @@ namespace Moment {
     }
 
     void MomentRule::set_up_rule(const PolynomialFactory& factory, PolynomialDifficulty difficulty) {
+        // Rules with NaN or infinite factors cannot be meaningfully oriented
+        for (const auto& term : this->rhs) {
+            if (!std::isfinite(term.factor.real()) || !std::isfinite(term.factor.imag())) {
+                std::stringstream errSS;
+                errSS << "Polynomial rule \"" << this->rhs << " == 0\" is ill-formed: it has a non-finite factor.";
+                throw errors::invalid_moment_rule{this->lhs, errSS.str()};
+            }
+        }
+
         switch(difficulty) {
             case PolynomialDifficulty::Trivial:
                 rhs.clear();
-- 
2.43.0


From a95a047d7943e319739f1c5b5fa7fa6d6699387f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:57 +0000
Subject: [PATCH 88/91] fix: large levels wrapped around the word-length check
 of derived systems, and ran forever

---
 cpp/lib_moment/scenarios/derived/derived_matrix_system.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/lib_moment/scenarios/derived/derived_matrix_system.cpp b/cpp/lib_moment/scenarios/derived/derived_matrix_system.cpp
index 78fdf4c..00440ba 100644
--- a/cpp/lib_moment/scenarios/derived/derived_matrix_system.cpp
+++ b/cpp/lib_moment/scenarios/derived/derived_matrix_system.cpp
@@ -108,7 +108,7 @@ namespace Moment::Derived {
                                               size_t level, Multithreading::MultiThreadPolicy mt_policy) {
         // First check if map is capable of defining this MM.
         const auto lsw = this->longest_supported_word();
-        if ((level*2) > lsw) {
+        if (level > (lsw / 2)) { // level*2 could overflow
             std::string bad_object_name{"a moment matrix of level "};
             bad_object_name.append(std::to_string(level));
             throw errors::too_large_to_transform_error{lsw, level*2, bad_object_name};
@@ -146,7 +146,7 @@ namespace Moment::Derived {
         // First check if map is capable of defining this LM.
         const auto lsw = this->longest_supported_word();
         const auto size_req = lmi.Level*2 + lmi.Word.size();
-        if (size_req > lsw) {
+        if ((lmi.Level > (lsw / 2)) || (size_req > lsw)) { // calculating size_req could overflow
             std::stringstream badNameSS;
             badNameSS << "a localizing matrix of level " << lmi.Level
                   << " for a word of length " << lmi.Word.size();
@@ -189,7 +189,7 @@ namespace Moment::Derived {
             return this->base_system().polynomial_factory().maximum_degree(lmi.Polynomial);
         }();
         const size_t size_req = 2 * lmi.Level + max_degree;
-        if (size_req > lsw) {
+        if ((lmi.Level > (lsw / 2)) || (size_req > lsw)) { // calculating size_req could overflow
             std::stringstream badNameSS;
             badNameSS << "a localizing matrix of level " << lmi.Level
                       << " for a polynomial of degree " << max_degree;
-- 
2.43.0


From a6aceada6d8a7d1a3fbdcd8e647712f0b5b2652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:57 +0000
Subject: [PATCH 89/91] fix: refuse moment rules whose factors have no finite
 norm

---
 cpp/lib_moment/symbolic/rules/moment_rule.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/symbolic/rules/moment_rule.cpp b/cpp/lib_moment/symbolic/rules/moment_rule.cpp
index 9b339ad..81bf282 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rule.cpp
+++ b/cpp/lib_moment/symbolic/rules/moment_rule.cpp
@@ -101,9 +101,9 @@ namespace Moment {
     }
 
     void MomentRule::set_up_rule(const PolynomialFactory& factory, PolynomialDifficulty difficulty) {
-        // Rules with NaN or infinite factors cannot be meaningfully oriented
+        // Rules with NaN, infinite, or excessively large factors cannot be meaningfully oriented
         for (const auto& term : this->rhs) {
-            if (!std::isfinite(term.factor.real()) || !std::isfinite(term.factor.imag())) {
+            if (!std::isfinite(std::norm(term.factor))) {
                 std::stringstream errSS;
                 errSS << "Polynomial rule \"" << this->rhs << " == 0\" is ill-formed: it has a non-finite factor.";
                 throw errors::invalid_moment_rule{this->lhs, errSS.str()};
-- 
2.43.0


From 2ba308c79c17c29dc248c0726d62235fe1fbc073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:14 +0000
Subject: [PATCH 90/91] fix: a rulebook giving an anti-Hermitian symbol a value
 that is not anti-Hermitian is not Hermitian

---
 .../symbolic/rules/moment_rulebook.cpp          | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp b/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
index 04ce533..2625ec3 100644
--- a/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
+++ b/cpp/lib_moment/symbolic/rules/moment_rulebook.cpp
@@ -101,12 +101,17 @@ namespace Moment {
             this->monomial_rules = false;
         }
 
-        // If rule maps Hermitian symbol to non-Hermitian combo, rulebook becomes non-Hermitian.
+        // If rule maps Hermitian symbol to non-Hermitian combo, rulebook becomes non-Hermitian (likewise anti-Hermitian).
         if (this->symbols[msr.LHS()].is_hermitian()) {
             if (!msr.RHS().is_hermitian(this->symbols, this->factory.zero_tolerance)) {
                 this->hermitian_rules = false;
             }
         }
+        if (this->symbols[msr.LHS()].is_antihermitian()) {
+            if (!msr.RHS().is_antihermitian(this->symbols, this->factory.zero_tolerance)) {
+                this->hermitian_rules = false;
+            }
+        }
 
         // Do add
         auto [iter, added] = this->rules.insert(std::make_pair(id, std::move(msr)));
@@ -230,9 +235,13 @@ namespace Moment {
 
         // Check if completed rule-set is strictly Hermitian
         this->hermitian_rules = std::all_of(this->rules.cbegin(), this->rules.cend(), [&](const auto& pair) {
-            if (this->symbols[pair.first].is_hermitian()) {
-
-                return pair.second.RHS().is_hermitian(this->symbols, this->factory.zero_tolerance);
+            if (this->symbols[pair.first].is_hermitian()
+                && !pair.second.RHS().is_hermitian(this->symbols, this->factory.zero_tolerance)) {
+                return false;
+            }
+            if (this->symbols[pair.first].is_antihermitian()
+                && !pair.second.RHS().is_antihermitian(this->symbols, this->factory.zero_tolerance)) {
+                return false;
             }
             // MonomialRules on non-Hermitian variables can do as they please.
             return true;
-- 
2.43.0


From 7815a971aa9928697b50dbd8682505c0dec39917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:28 +0000
Subject: [PATCH 91/91] fix: a negative number of an inflated observable's copy
 was not refused, and was read out of bounds when printed

---
 cpp/lib_moment/scenarios/inflation/inflation_context.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
index 6f77994..667dd25 100644
--- a/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
+++ b/cpp/lib_moment/scenarios/inflation/inflation_context.cpp
@@ -563,7 +563,7 @@ namespace Moment::Inflation {
             const auto& observable = this->inflated_observables[ov.observable];
 
             // Check variant
-            if (index.observable_variant.variant >= observable.variant_count) {
+            if ((index.observable_variant.variant < 0) || (index.observable_variant.variant >= observable.variant_count)) {
                 std::stringstream errSS;
                 errSS << "Variant \"" << ov.variant << "\" for observable \"" << ov.observable << "\" at index "
                       << input_index << " is out of range.";
@@ -733,7 +733,7 @@ namespace Moment::Inflation {
                 // Give indices, if inflated
                 if (this->inflation > 1) {
                     // Check variant index
-                    if (ovo.observable_variant.variant >= obsInfo.variant_count) {
+                    if ((ovo.observable_variant.variant < 0) || (ovo.observable_variant.variant >= obsInfo.variant_count)) {
                         ss << "[UNK-VAR: " << ovo.observable_variant.variant << "]";
 
                     } else {
-- 
2.43.0

