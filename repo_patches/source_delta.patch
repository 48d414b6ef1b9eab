From 933dbc45b0725c3efe96adccd6496a16d3fecdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 01/10] fix: make Zone::applyResets and Zone::revertResets
 exact for simultaneous updates

Applying or reverting updates one after another gave wrong zones, e.g., for x0 := x1, x1 := x0.
---
 include/zone.hh | 75 ++++++++++++++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 32 deletions(-)

diff --git a/include/zone.hh b/include/zone.hh
index 63239db..c1e5f03 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -129,51 +129,62 @@ namespace learnta {
       }
     }
 
+    /*!
+     * @brief Make it the strongest postcondition of the simultaneous update of the clock variables
+     *
+     * @pre The zone is satisfiable and each clock variable is updated at most once
+     */
     void applyResets(const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) {
-      // We apply renaming first
-      for (const auto &[resetVariable, updatedVariable]: resets) {
-        if (updatedVariable.index() == 1 && resetVariable != std::get<ClockVariables>(updatedVariable)) {
-          this->unconstrain(resetVariable);
-          this->value(resetVariable + 1, std::get<ClockVariables>(updatedVariable) + 1) = Bounds{0.0, true};
-          this->value(std::get<ClockVariables>(updatedVariable) + 1, resetVariable + 1) = Bounds{0.0, true};
-          canonize();
-        }
-      }
-      // Then, assign a value
-      for (const auto &[resetVariable, updatedVariable]: resets) {
-        if (updatedVariable.index() == 0) {
-          this->unconstrain(resetVariable);
-          this->value(0, resetVariable + 1) = Bounds(-std::get<double>(updatedVariable), true);
-          this->value(resetVariable + 1, 0) = Bounds(std::get<double>(updatedVariable), true);
-          canonize();
+      canonize();
+      const auto original = this->value;
+      const auto sources = this->updateSources(resets);
+      for (std::size_t i = 0; i < sources.size(); ++i) {
+        for (std::size_t j = 0; j < sources.size(); ++j) {
+          const Bounds offset = Bounds(sources.at(i).second - sources.at(j).second, true);
+          this->value(i, j) = original(sources.at(i).first, sources.at(j).first) + offset;
+          if (i != j && sources.at(i).first == sources.at(j).first) {
+            this->value(i, j) = offset;
+          }
         }
       }
     }
 
     /*!
-     * @brief Make it the weakest precondition of the reset
+     * @brief Make it the weakest precondition of the simultaneous update of the clock variables
      *
-     * In addition to unconstrain the updated variables, we use the renaming information
+     * @pre Each clock variable is updated at most once
      */
     void revertResets(const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) {
-      std::vector<ClockVariables> resetVariables;
-      resetVariables.reserve(resets.size());
-      std::unordered_map<ClockVariables, ClockVariables> reverseAssignments;
-      for (const auto &[resetVariable, updatedVariable]: resets) {
-        resetVariables.push_back(resetVariable);
-        if (updatedVariable.index() == 1 && resetVariable != std::get<ClockVariables>(updatedVariable)) {
-          reverseAssignments[std::get<ClockVariables>(updatedVariable)] = resetVariable;
+      const auto original = this->value;
+      const auto sources = this->updateSources(resets);
+      this->value.fill(Bounds(std::numeric_limits<double>::max(), false));
+      for (std::size_t i = 0; i < sources.size(); ++i) {
+        for (std::size_t j = 0; j < sources.size(); ++j) {
+          auto &bound = this->value(sources.at(i).first, sources.at(j).first);
+          bound = std::min(bound, original(i, j) + Bounds(sources.at(j).second - sources.at(i).second, true));
         }
       }
-      for (const auto &resetVariable: boost::adaptors::reverse(resetVariables)) {
-        this->unconstrain(resetVariable);
-        auto it = reverseAssignments.find(resetVariable);
-        if (it != reverseAssignments.end()) {
-          this->value(it->first + 1, it->second + 1) = Bounds{0.0, true};
-          this->value(it->second + 1, it->first + 1) = Bounds{0.0, true};
+      canonize();
+    }
+
+    /*!
+     * @brief For each row of the matrix, the row and the constant such that the updated value is their sum
+     */
+    [[nodiscard]] std::vector<std::pair<std::size_t, double>>
+    updateSources(const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) const {
+      std::vector<std::pair<std::size_t, double>> sources(this->value.rows());
+      for (std::size_t i = 0; i < sources.size(); ++i) {
+        sources.at(i) = {i, 0.0};
+      }
+      for (const auto &[resetVariable, updatedVariable]: resets) {
+        if (updatedVariable.index() == 1) {
+          sources.at(resetVariable + 1) = {std::get<ClockVariables>(updatedVariable) + 1, 0.0};
+        } else {
+          sources.at(resetVariable + 1) = {0, std::get<double>(updatedVariable)};
         }
-        canonize();
       }
+
+      return sources;
     }
 
     /*!
-- 
2.43.0


From fcad7cb099f6452c64ee44f5b986deb1493a1f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 02/10] fix: respect strict difference bounds in Zone::sample

The strictness of the lower bound was only taken from the bound against zero, so that the sampled
valuation could violate a strict lower bound of a difference.
---
 include/zone.hh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/zone.hh b/include/zone.hh
index c1e5f03..18e4318 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -247,15 +247,23 @@ namespace learnta {
           valuation[i] = upperBound.first;
         } else {
           double lower = std::max(0.0, -lowerBound.first);
+          // If the lower bound is negative, zero is the lower bound.
+          bool lowerClosed = lowerBound.second || lowerBound.first > 0;
           double upper = upperBound.first;
           for (std::size_t j = 0; j < i; j++) {
             Bounds tmpLowerBound = this->value(j + 1, i + 1);
             Bounds tmpUpperBound = this->value(i + 1, j + 1);
-            lower = std::max(lower, -tmpLowerBound.first + valuation[j]);
+            const double tmpLower = -tmpLowerBound.first + valuation[j];
+            if (tmpLower > lower) {
+              lowerClosed = tmpLowerBound.second;
+            } else if (tmpLower == lower) {
+              lowerClosed = lowerClosed && tmpLowerBound.second;
+            }
+            lower = std::max(lower, tmpLower);
             upper = std::min(upper, tmpUpperBound.first + valuation[j]);
           }
           assert(lower <= upper);
-          if (lowerBound.second) {
+          if (lowerClosed) {
             valuation[i] = lower;
           } else if (upper - lower > 0.5) {
             valuation[i] = lower + 0.5;
-- 
2.43.0


From 132399947551a50b8738aa699458fa3ba02db181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 03/10] fix: compare with the original lower bounds in
 Zone::extrapolate

The lower bounds were overwritten before they were compared with the maximal constants, so that the
bounds on the differences with clocks beyond their maximal constants were not always removed.
---
 include/zone.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/zone.hh b/include/zone.hh
index 18e4318..dab5c75 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -382,6 +382,8 @@ namespace learnta {
     */
     void extrapolate() {
       static constexpr Bounds infinity = Bounds(std::numeric_limits<double>::max(), false);
+      // The lower bounds are relaxed below, but they must be compared with the original ones
+      const auto original = this->value;
       for (std::size_t i = 0; i < this->maxConstraints.size(); ++i) {
         if (value(i + 1, 0).first > this->maxConstraints.at(i)) {
           value(i + 1, 0) = infinity;
@@ -392,9 +394,9 @@ namespace learnta {
         for (std::size_t j = 0; j < this->maxConstraints.size(); ++j) {
           if (value(i + 1, j + 1).first > this->maxConstraints.at(i)) {
             value(i + 1, j + 1) = infinity;
-          } else if (-value(0, i + 1).first > this->maxConstraints.at(i)) {
+          } else if (-original(0, i + 1).first > this->maxConstraints.at(i)) {
             value(i + 1, j + 1) = infinity;
-          } else if (-value(0, j + 1).first > this->maxConstraints.at(j)) {
+          } else if (-original(0, j + 1).first > this->maxConstraints.at(j)) {
             value(i + 1, j + 1) = infinity;
           }
         }
-- 
2.43.0


From a9f3e6922a6b8084ec77fd1a259db666efac74df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 04/10] fix: treat a guard without conjuncts as true in negate

---
 include/constraint.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/constraint.hh b/include/constraint.hh
index 77f850a..3587fbc 100644
--- a/include/constraint.hh
+++ b/include/constraint.hh
@@ -395,8 +395,9 @@ namespace learnta {
     // Transform CNF to DNF
     bool initial = true;
     for (const auto &disjunct: cnfNegated) {
+      // The disjunct is trivially true, and hence, the negation is unsatisfiable
       if (disjunct.empty()) {
-        continue;
+        return {};
       }
       if (initial) {
         dnfNegated.reserve(disjunct.size());
-- 
2.43.0


From c423abbd946670c856de66324979535a5a4ed042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:18 +0000
Subject: [PATCH 05/10] fix: the sum of two unbounded bounds must stay the
 unbounded bound

Adding two unbounded constraints gave an infinite constant, which is neither equal to nor
comparable with the unbounded constraint used everywhere else, e.g., in the concatenation of
two unbounded timed conditions and the guards derived from it.
---
 include/bounds.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/bounds.hh b/include/bounds.hh
index f3bbcf5..8941d0e 100644
--- a/include/bounds.hh
+++ b/include/bounds.hh
@@ -5,7 +5,9 @@
 
 #pragma once
 
+#include <algorithm>
 #include <iostream>
+#include <limits>
 #include <utility>
 
 namespace learnta {
@@ -34,7 +36,8 @@ namespace learnta {
 }
 
 static inline learnta::Bounds operator+(const learnta::Bounds &a, const learnta::Bounds &b) {
-  return {a.first + b.first, a.second && b.second};
+  // The sum of two unbounded constraints is unbounded, i.e. it must not overflow to the infinity
+  return {std::min(a.first + b.first, std::numeric_limits<double>::max()), a.second && b.second};
 }
 
 static inline learnta::Bounds operator-(const learnta::Bounds &a, const learnta::Bounds &b) {
@@ -46,7 +49,7 @@ static inline learnta::Bounds operator-(const learnta::Bounds &a) {
 }
 
 static inline void operator+=(learnta::Bounds &a, const learnta::Bounds b) {
-  a.first += b.first;
+  a.first = std::min(a.first + b.first, std::numeric_limits<double>::max());
   a.second = a.second && b.second;
 }
 
-- 
2.43.0


From 802ab6ecf2507dd8c56425fc59d5a57b90ca19d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:18 +0000
Subject: [PATCH 06/10] fix: the inclusion of zones must not depend on the
 diagonal

Equality already ignores the diagonal elements. The inclusion compared them, and was not
reported, e.g., for two equal zones whose diagonal elements differ.
---
 include/zone.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/zone.hh b/include/zone.hh
index dab5c75..9a94be0 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -416,7 +416,8 @@ namespace learnta {
      * @pre both this and the given zones are canonized
      */
     [[nodiscard]] bool includes(const Zone &zone) const {
-      return this->value.cwiseMax(zone.value) == this->value;
+      // As in strictEqual, the diagonal elements do not matter
+      return this->strictEqual(Zone{this->value.cwiseMax(zone.value)});
     };
 
     /*!
-- 
2.43.0


From 22d605ada2d6f60abb62f0026daba6b5a5999bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:06 +0000
Subject: [PATCH 07/10] fix: build the order of a backward regional language
 the way its predecessor reads it

---
 include/backward_regional_elementary_language.hh | 9 +++++----
 include/forward_regional_elementary_language.hh  | 4 ++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/backward_regional_elementary_language.hh b/include/backward_regional_elementary_language.hh
index b69e48a..798161b 100644
--- a/include/backward_regional_elementary_language.hh
+++ b/include/backward_regional_elementary_language.hh
@@ -15,7 +15,7 @@ namespace learnta {
   /*!
    * @brief A back regional elementary language
    *
-   * A back regional elementary language is an elementary language \f$(u, \Lambda)\f$ with an order over the fractional parts of \f$\mathbb{T}_{0,0},\mathbb{T}_{0,1},\dots,\mathbb{T}_{0,N}\f$, where \f$\mathbb{T}_{0,i} = \tau_{0} + \tau_{1} \dots \tau_{i}\f$.
+   * A back regional elementary language is an elementary language \f$(u, \Lambda)\f$ with an order over the fractional parts of \f$-\mathbb{T}_{0,0},-\mathbb{T}_{0,1},\dots,-\mathbb{T}_{0,N}\f$, where \f$\mathbb{T}_{0,i} = \tau_{0} + \tau_{1} \dots \tau_{i}\f$.
    *
    * @invariant elementary.wordSize() + 1 == fractionalOrder.size()
    */
@@ -37,11 +37,12 @@ namespace learnta {
       fractionalPart.resize(timedWord.wordSize() + 1);
       accumulatedDurationFromFront.resize(timedWord.wordSize() + 1);
       accumulatedDurationFromFront.front() = timedWord.getDurations().front();
-      fractionalPart.front() = timedWord.getDurations().front() - std::floor(timedWord.getDurations().front());
+      // The order is over the fractional parts of \f$-\mathbb{T}_{0,i}\f$
+      fractionalPart.front() = std::ceil(timedWord.getDurations().front()) - timedWord.getDurations().front();
       for (std::size_t i = 1; i < fractionalPart.size(); ++i) {
         accumulatedDurationFromFront.at(i) = accumulatedDurationFromFront.at(i - 1) + timedWord.getDurations().at(i);
-        fractionalPart.at(i) = accumulatedDurationFromFront.at(i);
-        fractionalPart.at(i) -= std::floor(fractionalPart.at(i));
+        fractionalPart.at(i) = std::ceil(accumulatedDurationFromFront.at(i));
+        fractionalPart.at(i) -= accumulatedDurationFromFront.at(i);
       }
       accumulatedDurationFromBack.resize(timedWord.wordSize() + 1);
       accumulatedDurationFromBack.back() = timedWord.getDurations().back();
diff --git a/include/forward_regional_elementary_language.hh b/include/forward_regional_elementary_language.hh
index 1d41277..efe7e5d 100644
--- a/include/forward_regional_elementary_language.hh
+++ b/include/forward_regional_elementary_language.hh
@@ -171,6 +171,10 @@ namespace learnta {
                          [](const double fractional) {
                            return 0 <= fractional && fractional < 1;
                          }));
+      // The order of a backward regional elementary language is over the fractional parts of \f$-\mathbb{T}_{0,i}\f$
+      for (double &fractional: suffixDurationsFractional) {
+        fractional = std::ceil(fractional) - fractional;
+      }
 
       return BackwardRegionalElementaryLanguage{ElementaryLanguage{forward.getWord(), forward.getTimedCondition()},
                                                 FractionalOrder(suffixDurationsFractional)};
-- 
2.43.0


From 51e6de8e82895949a431b7cc70868dc79afec237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:06 +0000
Subject: [PATCH 08/10] fix:
 BackwardRegionalElementaryLanguage::immediateSuffix must undo the predecessor

---
 .../backward_regional_elementary_language.hh  |  8 ++++----
 include/fractional_order.hh                   | 19 +++++++++++++++++++
 include/timed_condition.hh                    | 14 ++++++++------
 3 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/include/backward_regional_elementary_language.hh b/include/backward_regional_elementary_language.hh
index 798161b..85cf246 100644
--- a/include/backward_regional_elementary_language.hh
+++ b/include/backward_regional_elementary_language.hh
@@ -79,14 +79,14 @@ namespace learnta {
       } else if (this->getTimedCondition().hasSuffix()) {
         // return the continuous prefix
         return std::make_optional(BackwardRegionalElementaryLanguage{
-                {this->getWord(), this->getTimedCondition().suffix(this->fractionalOrder.predecessorVariables())},
-                this->fractionalOrder.predecessor()});
+                {this->getWord(), this->getTimedCondition().suffix(this->fractionalOrder.successorVariables())},
+                this->fractionalOrder.successor()});
       } else {
-        // TODO: return the discrete suffix
+        // return the discrete suffix
         auto word = this->getWord();
         word.erase(word.begin());
         return std::make_optional(BackwardRegionalElementaryLanguage{
-                {word, this->timedCondition.removeN()}, this->fractionalOrder.removeN()});
+                {word, this->timedCondition.removeZero()}, this->fractionalOrder.removeZero()});
       }
     }
 
diff --git a/include/fractional_order.hh b/include/fractional_order.hh
index ffc2021..46fa9b8 100644
--- a/include/fractional_order.hh
+++ b/include/fractional_order.hh
@@ -175,6 +175,25 @@ namespace learnta {
       return result;
     }
 
+    /*!
+     * @brief Remove \f$x_0\f$ and rename each variable \f$x_{i+1}\f$ to \f$x_i\f$
+     *
+     * @pre \f$fractional(x_0) = 0\f$
+     */
+    [[nodiscard]] FractionalOrder removeZero() const {
+      FractionalOrder result = *this;
+      assert(result.order.front().front() == 0);
+      assert(result.size > 0);
+      result.order.front().pop_front();
+      for (auto &variables: result.order) {
+        std::transform(variables.begin(), variables.end(), variables.begin(), [](auto variable) {
+          return variable - 1;
+        });
+      }
+      result.size--;
+      return result;
+    }
+
     //! @brief Returns the number of the variables
     [[nodiscard]] size_t getSize() const {
       return size;
diff --git a/include/timed_condition.hh b/include/timed_condition.hh
index 85d7450..0642b2f 100644
--- a/include/timed_condition.hh
+++ b/include/timed_condition.hh
@@ -529,15 +529,17 @@ namespace learnta {
     }
 
     /*!
-     * @brief Remove \f$x_{0}\f$
-     * TODO: Implement it
+     * @brief Remove \f$x_{0}\f$ and rename each variable \f$x_{i+1}\f$ to \f$x_i\f$
      */
     [[nodiscard]] TimedCondition removeZero() const {
-      TimedCondition result = *this;
-      const auto N = result.zone.value.cols();
-      result.zone.value.conservativeResize(N - 1, N - 1);
+      const auto N = this->zone.value.cols();
+      auto result = Zone::top(N - 1);
+      // Fill the constraints with shift
+      result.value.block(1, 1, N - 2, N - 2) = this->zone.value.block(2, 2, N - 2, N - 2);
+      result.value.block(0, 1, 1, N - 2) = this->zone.value.block(0, 2, 1, N - 2);
+      result.value.block(1, 0, N - 2, 1) = this->zone.value.block(2, 0, N - 2, 1);
 
-      return result;
+      return TimedCondition(std::move(result));
     }
 
     /*!
-- 
2.43.0


From c01979c653d6e895b2baaf4d33b75661344e04a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:59 +0000
Subject: [PATCH 09/10] fix: merge adjacent transitions only when the hull of
 the guards is their union

The convex hull of two guards was taken whenever one of them is weaker or the
hull is as wide as the guards overlap; the merged transition could be enabled
in clock valuations that satisfy neither guard, which changes the language of
the automaton.
---
 include/timed_automaton.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/timed_automaton.hh b/include/timed_automaton.hh
index ea0011a..9551de3 100644
--- a/include/timed_automaton.hh
+++ b/include/timed_automaton.hh
@@ -329,7 +329,12 @@ namespace learnta {
         for (auto &[action, transitions]: state->next) {
           for (auto it = transitions.begin(); it != transitions.end(); ++it) {
             for (auto it2 = std::next(it); it2 != transitions.end();) {
-              if (it->mergeable(*it2)) {
+              // We merge the transitions only if the merged guard does not admit anything else
+              const auto mergedGuard = unionHull(it->guard, it2->guard);
+              const auto outside = negate({it->guard, it2->guard});
+              if (it->mergeable(*it2) && std::none_of(outside.begin(), outside.end(), [&](const auto &guard) {
+                return satisfiable(conjunction(mergedGuard, guard));
+              })) {
                 *it = it->merge(*it2);
                 it2 = transitions.erase(it2);
               } else {
-- 
2.43.0


From 3e1652a67a1d59392789e62f945ead0442146a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:59 +0000
Subject: [PATCH 10/10] fix: do not drop symbolic runs that reach a zone
 automaton state with other clock values

Sampling visited every zone automaton state once. The run kept for a state may
have a tight zone which cannot be continued to the accepting location while a
run found later could; the witness, or the counterexample of the equivalence
check, was then missed.
---
 include/symbolic_run.hh   |  5 +++++
 include/zone_automaton.hh | 30 +++++++++++++++++++++++++-----
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/include/symbolic_run.hh b/include/symbolic_run.hh
index e20c47f..562a9c3 100644
--- a/include/symbolic_run.hh
+++ b/include/symbolic_run.hh
@@ -78,6 +78,11 @@ namespace learnta {
       return this->tightZones.at(i);
     }
 
+    //! @brief Returns the last zone of the symbolic run without abstraction
+    [[nodiscard]] const learnta::Zone &lastTightZone() const {
+      return this->tightZones.back();
+    }
+
     //! @brief Returns the last state in the symbolic run
     [[nodiscard]] std::shared_ptr<ZAState> back() const {
       return this->states.back();
diff --git a/include/zone_automaton.hh b/include/zone_automaton.hh
index 9b89c2e..2f6a2a1 100644
--- a/include/zone_automaton.hh
+++ b/include/zone_automaton.hh
@@ -27,7 +27,26 @@ namespace learnta {
                      [](const auto &initialState) {
                        return SymbolicRun{initialState};
                      });
-      std::unordered_set<std::shared_ptr<ZAState>> visited = {initialStates.begin(), initialStates.end()};
+      // The zones with which each state has been visited. Due to the state merging, the zone of a state can be larger than
+      // the zone of the run, and we have to visit the state again if the run has other valuations.
+      std::unordered_map<std::shared_ptr<ZAState>, std::vector<Zone>> visited;
+      const auto visit = [&visited](const std::shared_ptr<ZAState> &state, Zone zone) {
+        if (!zone.isSatisfiableNoCanonize()) {
+          return false;
+        }
+        zone.abstractize();
+        auto &zones = visited[state];
+        if (std::any_of(zones.begin(), zones.end(), [&zone](const Zone &visitedZone) {
+          return visitedZone.includes(zone);
+        })) {
+          return false;
+        }
+        zones.push_back(std::move(zone));
+        return true;
+      };
+      for (const auto &initialState: initialStates) {
+        visit(initialState, initialState->zone);
+      }
 
       while (!currentStates.empty()) {
         std::vector<SymbolicRun> nextStates;
@@ -44,12 +63,13 @@ namespace learnta {
             for (const auto &edge: edges) {
               auto transition = edge.first;
               auto target = edge.second.lock();
-              if (target && visited.find(target) == visited.end()) {
-                // We have not visited the state
+              if (target) {
                 auto newRun = run;
                 newRun.push_back(transition, static_cast<char>(action), target);
-                nextStates.push_back(newRun);
-                visited.insert(target);
+                if (visit(target, newRun.lastTightZone())) {
+                  // We have not visited the state with this zone
+                  nextStates.push_back(newRun);
+                }
               }
             }
           }
-- 
2.43.0

