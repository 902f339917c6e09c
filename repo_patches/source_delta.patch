From c499e91e4e578c179dc4397e91a3f5bb4d612aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 01/22] fix: turn prime implicants off before picking an
 approximation

Switching from BDD with prime implicants to ZBDD or MOCUS requested
an approximation while the prime implicants flag was still set,
so that the SettingsError escaped the noexcept setter (std::terminate).
---
 src/settings.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/settings.cc b/src/settings.cc
index afd50ac..0f0c7d2 100644
--- a/src/settings.cc
+++ b/src/settings.cc
@@ -35,10 +35,10 @@ Settings& Settings::algorithm(Algorithm value) noexcept {
       approximation(Approximation::kNone);
       break;
     default:
-      if (approximation_ == Approximation::kNone)
-        approximation(Approximation::kRareEvent);
       if (prime_implicants_)
         prime_implicants(false);
+      if (approximation_ == Approximation::kNone)
+        approximation(Approximation::kRareEvent);
   }
   return *this;
 }
-- 
2.43.0


From a3e089f567a06e2d0aea057f15d64ab56ee7d952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 02/22] fix: reject NaN for the cut-off, mission time, and time
 step settings

The range checks compared with < and >, so that NaN passed them.
---
 src/settings.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/settings.cc b/src/settings.cc
index 0f0c7d2..3635d60 100644
--- a/src/settings.cc
+++ b/src/settings.cc
@@ -95,7 +95,7 @@ Settings& Settings::limit_order(int order) {
 }
 
 Settings& Settings::cut_off(double prob) {
-  if (prob < 0 || prob > 1)
+  if (!(prob >= 0 && prob <= 1))  // Rejects NaN as well.
     SCRAM_THROW(SettingsError(
         "The cut-off probability cannot be negative or more than 1."))
         << errinfo_value(std::to_string(prob));
@@ -141,7 +141,7 @@ Settings& Settings::seed(int s) {
 }
 
 Settings& Settings::mission_time(double time) {
-  if (time < 0)
+  if (!(time >= 0))  // Rejects NaN as well.
     SCRAM_THROW(SettingsError("The mission time cannot be negative."))
         << errinfo_value(std::to_string(time));
 
@@ -150,7 +150,7 @@ Settings& Settings::mission_time(double time) {
 }
 
 Settings& Settings::time_step(double time) {
-  if (time < 0)
+  if (!(time >= 0))  // Rejects NaN as well.
     SCRAM_THROW(SettingsError("The time step cannot be negative."))
         << errinfo_value(std::to_string(time));
   if (!time && safety_integrity_levels_)
-- 
2.43.0


From 5a1172f6f2a1b6e7c0452f1a5389b3d488b155db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 03/22] fix: keep the duplicate argument of a two-argument K/N
 gate

@(2, [x, x, z]) is x, but the gate erased x and passed z through.
---
 src/pdag.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdag.cc b/src/pdag.cc
index 7c9e6a9..c2a742f 100644
--- a/src/pdag.cc
+++ b/src/pdag.cc
@@ -366,7 +366,7 @@ void Gate::ProcessAtleastGateDuplicateArg(int index) noexcept {
   assert(args_.size() >= min_number_);
   if (args_.size() == 2) {  // @(2, [x, x, z]) = x
     assert(min_number_ == 2);
-    this->EraseArg(index);
+    this->EraseArg(*args_.begin() == index ? *args_.rbegin() : *args_.begin());
     this->type(kNull);
     return;
   }
-- 
2.43.0


From 3c4168baf77d284a4242ddf9635e9b7608f91a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 04/22] fix: make cardinality gates with a single argument
 pass-through

A one-argument OR gate violates the graph invariants and aborts the
preprocessor.
---
 src/pdag.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdag.cc b/src/pdag.cc
index c2a742f..a079dea 100644
--- a/src/pdag.cc
+++ b/src/pdag.cc
@@ -680,6 +680,8 @@ GatePtr Pdag::ConstructComplexGate(const mef::Formula& formula, bool ccf,
       auto well_form = [](Gate* atleast) {
         if (atleast->min_number() == 0) {
           atleast->MakeConstant(true);
+        } else if (atleast->args().size() == 1) {
+          atleast->type(kNull);
         } else if (atleast->min_number() == 1) {
           atleast->type(kOr);
         } else if (atleast->min_number() == atleast->args().size()) {
-- 
2.43.0


From 55aefaea19dfa1972c42194af8f69bbc6fda00db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 05/22] fix: remove pass-through gates after merge candidate
 filtering

The early exit left pass-through gates in the graph, and the references
to the candidates kept removed constant gates alive; both abort the
analysis.
---
 src/preprocessor.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 9a03e14..13d8fd1 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -1132,8 +1132,12 @@ bool Preprocessor::MergeCommonArgs(Connective op) noexcept {
     if (candidates.size() < 2)
       continue;
     FilterMergeCandidates(&candidates);
-    if (candidates.size() < 2)
+    if (candidates.size() < 2) {
+      candidates.clear();  // No references to the gates to be removed.
+      root.reset();
+      graph_->RemoveNullGates();
       continue;
+    }
     std::vector<MergeTable::Candidates> groups;
     GroupCandidatesByArgs(&candidates, &groups);
     for (const auto& group : groups) {
@@ -1152,6 +1156,9 @@ bool Preprocessor::MergeCommonArgs(Connective op) noexcept {
         TransformCommonArgs(&member_group);
       }
     }
+    groups.clear();  // No references to the gates to be removed.
+    candidates.clear();
+    root.reset();
     graph_->RemoveNullGates();
   }
   return changed;
-- 
2.43.0


From 692d82120d9ee0b7f6c307f9c187c14fdc53adb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 06/22] fix: clean up the replaced root gate in Boolean
 optimization

The local reference kept a constant gate alive upon the removal, and a
former pass-through root stayed unregistered inside of the graph; both
abort the analysis.
---
 src/preprocessor.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 13d8fd1..972548e 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -1879,6 +1879,7 @@ void Preprocessor::ProcessCommonNode(
   }
   ClearStateMarks(root);
   node->opti_value(0);
+  root.reset();  // The replaced root must not outlive the removal.
   graph_->RemoveNullGates();
 }
 
@@ -2086,6 +2087,8 @@ void Preprocessor::ProcessStateDestinations(
       ReplaceGate(target, new_gate);
     }
     new_gate->AddArg(target);  // Only after replacing target!
+    if (target->type() == kNull)  // The former pass-through root gate.
+      target->type(kNull);  // Register for removal.
     new_gate->descendant(node->index());  // Preserve continuity.
   }
 }
-- 
2.43.0


From 53f7e7ac99827c1026b3f7f7f49a87ab0ec68cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 07/22] fix: mark the pulled-up root gate as a module upon
 gathering modules

---
 src/preprocessor.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 972548e..ca728e2 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -1069,7 +1069,8 @@ std::vector<GateWeakPtr> Preprocessor::GatherModules() noexcept {
   graph_->Clear<Pdag::kGateMark>();
   const GatePtr& root = graph_->root();
   assert(!root->mark());
-  assert(root->module());
+  if (!root->module())  // The root may have been replaced by its argument.
+    root->module(true);
   root->mark(true);
   std::vector<GateWeakPtr> modules;
   modules.push_back(root);
-- 
2.43.0


From e34ffbf2c8171aeea1da4cc18c4144543d02c75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 08/22] fix: skip decomposition destinations without timing

The removal of pass-through gates may create new K/N gates, which aborts
the decomposition of the following nodes.
---
 src/preprocessor.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index ca728e2..76a6bd3 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -2227,6 +2227,10 @@ bool Preprocessor::DecompositionProcessor::ProcessDestinations(
     if (!node_->parents().count(parent->index()))
       continue;
 
+    // New gates (from the K/N duplicate argument processing) have no timing.
+    if (!parent->EnterTime())
+      continue;
+
     bool state = false;  // State for the constant propagation.
     switch (parent->type()) {
       case kAnd:
-- 
2.43.0


From 2f4775beaa37fc0b827b308a40cb2f474ddd4c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:11 +0000
Subject: [PATCH 09/22] fix: eliminate constant modules upon BDD construction

A module with a constant function became a proxy vertex with a terminal
module, which is not a reduced BDD and aborts its verification. The
argument comparator is also a strict weak order with several terminals.
---
 src/bdd.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bdd.cc b/src/bdd.cc
index acb4448..fdb7e61 100644
--- a/src/bdd.cc
+++ b/src/bdd.cc
@@ -155,7 +155,7 @@ Bdd::Function Bdd::ConvertGraph(
   }
   for (const Gate::ConstArg<Gate>& arg : gate.args<Gate>()) {
     Function res = ConvertGraph(arg.second, gates);
-    if (arg.second.module()) {
+    if (arg.second.module() && !res.vertex->terminal()) {
       args.push_back(
           {arg.first < 0, FindOrAddVertex(arg.second, kOne_, kOne_, true)});
     } else {
@@ -164,10 +164,10 @@ Bdd::Function Bdd::ConvertGraph(
     }
   }
   boost::sort(args, [](const Function& lhs, const Function& rhs) {
-    if (lhs.vertex->terminal())
-      return true;
     if (rhs.vertex->terminal())
       return false;
+    if (lhs.vertex->terminal())
+      return true;
     return Ite::Ref(lhs.vertex).order() > Ite::Ref(rhs.vertex).order();
   });
   auto it = args.cbegin();
-- 
2.43.0


From a24cfa24889bc6c09f78368e99d806ac9f35177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:33 +0000
Subject: [PATCH 10/22] fix: account for the complement of the BDD root in the
 MIF

The marginal importance factor (and CIF, DIF, RAW, RRW with it) had the
opposite sign whenever the root function was complemented.
---
 src/importance_analysis.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/importance_analysis.cc b/src/importance_analysis.cc
index 8e7bff9..17abb4a 100644
--- a/src/importance_analysis.cc
+++ b/src/importance_analysis.cc
@@ -80,7 +80,7 @@ double ImportanceAnalyzer<Bdd>::CalculateMif(int index) noexcept {
   int order = bdd_graph_->index_to_order().find(index)->second;
   double mif = CalculateMif(root, order, !original_mark);
   bdd_graph_->ClearMarks(original_mark);
-  return mif;
+  return bdd_graph_->root().complement ? -mif : mif;
 }
 
 double ImportanceAnalyzer<Bdd>::CalculateMif(const Bdd::VertexPtr& vertex,
-- 
2.43.0


From 5f421ad247fad5ccfa962a4056bdf341ca4f3751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 11/22] fix: mark the pulled-up root gate as a module in the
 graph itself

The ZBDD constructor expects the root to be a module as well; this
subsumes the marking upon gathering modules.
---
 src/pdag.cc         | 2 ++
 src/preprocessor.cc | 3 +--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pdag.cc b/src/pdag.cc
index a079dea..e964a97 100644
--- a/src/pdag.cc
+++ b/src/pdag.cc
@@ -775,6 +775,8 @@ bool Pdag::IsTrivial() noexcept {
     root_ = root_->args<Gate>().begin()->second;  // Destroy the previous root.
     assert(root_->parents().empty() && !root_->constant() &&
            root_->type() != kNull);
+    if (!root_->module())  // The root is always a module.
+      root_->module(true);
     complement() ^= signed_index < 0;
     return false;
   }
diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 76a6bd3..b15e020 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -1069,8 +1069,7 @@ std::vector<GateWeakPtr> Preprocessor::GatherModules() noexcept {
   graph_->Clear<Pdag::kGateMark>();
   const GatePtr& root = graph_->root();
   assert(!root->mark());
-  if (!root->module())  // The root may have been replaced by its argument.
-    root->module(true);
+  assert(root->module());
   root->mark(true);
   std::vector<GateWeakPtr> modules;
   modules.push_back(root);
-- 
2.43.0


From 26b9ddcd9693cf5938f49741fd40c3363af1e1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:12 +0000
Subject: [PATCH 12/22] fix: reject too large numbers of a formula instead of
 aborting

---
 src/event.cc | 12 +++++++-----
 src/event.h  |  1 +
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/event.cc b/src/event.cc
index 9658648..44aadcd 100644
--- a/src/event.cc
+++ b/src/event.cc
@@ -127,11 +127,6 @@ void Formula::Swap(ArgEvent current, ArgEvent other) {
 
 void Formula::ValidateMinMaxNumber(std::optional<int> min_number,
                                    std::optional<int> max_number) {
-  assert(!min_number ||
-         std::numeric_limits<decltype(min_number_)>::max() >= *min_number);
-  assert(!max_number ||
-         std::numeric_limits<decltype(max_number_)>::max() >= *max_number);
-
   if (min_number) {
     if (*min_number < 0)
       SCRAM_THROW(LogicError("The min number cannot be negative."))
@@ -162,6 +157,13 @@ void Formula::ValidateMinMaxNumber(std::optional<int> min_number,
           << errinfo_value(std::to_string(*min_number) + " > " +
                            std::to_string(*max_number));
   }
+
+  const int kMaxNumber = std::numeric_limits<decltype(min_number_)>::max();
+  for (const std::optional<int>& number : {min_number, max_number}) {
+    if (number && *number > kMaxNumber)
+      SCRAM_THROW(ValidityError("The connective number is too large."))
+          << errinfo_value(std::to_string(*number));
+  }
 }
 
 void Formula::ValidateConnective(std::optional<int> min_number,
diff --git a/src/event.h b/src/event.h
index 6abb861..92296f5 100644
--- a/src/event.h
+++ b/src/event.h
@@ -340,6 +340,7 @@ class Formula {
   /// @param[in] max_number  The number to be used for connective max number.
   ///
   /// @throws LogicError  The min or max number is invalid or not applicable.
+  /// @throws ValidityError  The numbers are out of order or too large.
   void ValidateMinMaxNumber(std::optional<int> min_number,
                             std::optional<int> max_number);
 
-- 
2.43.0


From c7eeff0907435f185833c801473a301616215895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:32 +0000
Subject: [PATCH 13/22] fix: periodic test formulas for negligible rates and
 many periods

---
 src/expression/exponential.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/expression/exponential.cc b/src/expression/exponential.cc
index bbe1d0a..24a550f 100644
--- a/src/expression/exponential.cc
+++ b/src/expression/exponential.cc
@@ -165,7 +165,7 @@ double PeriodicTest::InstantRepair::Compute(double lambda, double tau,
   if (time <= theta)  // No test has been performed.
     return p_exp(lambda, time);
   double delta = time - theta;
-  double time_after_test = delta - static_cast<int>(delta / tau) * tau;
+  double time_after_test = delta - std::floor(delta / tau) * tau;
   return p_exp(lambda, time_after_test ? time_after_test : tau);
 }
 
@@ -196,10 +196,11 @@ double PeriodicTest::InstantTest::Compute(double lambda, double mu, double tau,
   };
 
   double delta = time - theta;
-  int num_periods = delta / tau;
+  double num_periods = std::floor(delta / tau);
   double fraction = carry(p_exp(lambda, tau), p_exp(mu, tau), tau);
   double compound = std::pow(fraction, num_periods);  // Geometric progression.
-  prob = prob * compound + p_exp(lambda, tau) * (compound - 1) / (fraction - 1);
+  double sum = fraction == 1 ? num_periods : (compound - 1) / (fraction - 1);
+  prob = prob * compound + p_exp(lambda, tau) * sum;
 
   double time_after_test = delta - num_periods * tau;
   return p_period(p_exp(lambda, time_after_test), p_exp(mu, time_after_test),
@@ -259,7 +260,7 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
   };
 
   double delta = time - theta;
-  int num_periods = delta / tau;
+  double num_periods = std::floor(delta / tau);
   double delta_period = tau - test_duration;
 
   double p_lambda_test = p_exp(lambda_test, test_duration);
@@ -269,7 +270,7 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
   double p_lambda = p_exp(lambda, delta_period);
   double p_mu = p_exp(mu, delta_period);
 
-  for (int i = 0; i < num_periods; ++i) {
+  for (double i = 0; i < num_periods; ++i) {
     p_test(p_lambda_test, p_mu_at_test, p_lambda_at_test, test_duration);
     p_period(p_lambda, p_mu, delta_period);
   }
-- 
2.43.0


From cdb42948677cc996b18837b9a1e657c252d11dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:46 +0000
Subject: [PATCH 14/22] fix: clamp rounding errors in the complete periodic
 test model

---
 src/expression/exponential.cc | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/expression/exponential.cc b/src/expression/exponential.cc
index 24a550f..96079e4 100644
--- a/src/expression/exponential.cc
+++ b/src/expression/exponential.cc
@@ -22,6 +22,8 @@
 
 #include <cmath>
 
+#include <algorithm>
+
 #include "src/error.h"
 
 namespace scram::mef {
@@ -229,6 +231,9 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
   double p_repair = 0;
   double p_available = 1 - p_fail;
 
+  // Rounding errors may push the probabilities of the states out of [0, 1].
+  auto clamp = [](double p) { return std::min(std::max(p, 0.0), 1.0); };
+
   // Failure after repair.
   auto p_mu_lambda = [&](double p_mu, double p_lambda, double t) {
     return p_mu * omega + (1 - omega) * p_exp(p_mu, p_lambda, mu, lambda, t);
@@ -238,25 +243,19 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
                     double t, bool available = true) {
     double p_fail_transient =
         p_fail + p_available * (gamma + (1 - gamma) * p_lambda_test);
-    p_fail = p_repair * p_mu_lambda(p_mu, p_lambda, t) +
-             (1 - sigma) * p_fail_transient;
-    p_repair = (1 - p_mu) * p_repair + sigma * p_fail_transient;
-    p_available =
+    p_fail = clamp(p_repair * p_mu_lambda(p_mu, p_lambda, t) +
+                   (1 - sigma) * p_fail_transient);
+    p_repair = clamp((1 - p_mu) * p_repair + sigma * p_fail_transient);
+    p_available = clamp(
         1 - p_fail - p_repair -
-        (available ? 0 : p_available * (1 - gamma) * (1 - p_lambda_test));
-    assert(p_repair >= 0 && p_repair <= 1);
-    assert(p_fail >= 0 && p_fail <= 1);
-    assert(p_available >= 0);
+        (available ? 0 : p_available * (1 - gamma) * (1 - p_lambda_test)));
   };
   // Time after test.
   auto p_period = [&](double p_lambda, double p_mu, double t) {
-    p_fail = p_available * p_lambda + p_fail +
-             p_repair * p_mu_lambda(p_mu, p_lambda, t);
+    p_fail = clamp(p_available * p_lambda + p_fail +
+                   p_repair * p_mu_lambda(p_mu, p_lambda, t));
     p_repair = p_repair * (1 - p_mu);
-    p_available = 1 - p_fail - p_repair;
-    assert(p_repair >= 0 && p_repair <= 1);
-    assert(p_fail >= 0 && p_fail <= 1);
-    assert(p_available >= 0);
+    p_available = clamp(1 - p_fail - p_repair);
   };
 
   double delta = time - theta;
-- 
2.43.0


From e20fb260564000e7a8bda8be1e5e1f4a4862b1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:55 +0000
Subject: [PATCH 15/22] fix: sound intervals of non-monotone and logical
 expressions

---
 src/expression/boolean.h    | 75 +++++++++++++++++++++++++++++++
 src/expression/numerical.cc | 88 +++++++++++++++++++++++++++++++++++++
 src/expression/numerical.h  | 18 ++++++++
 3 files changed, 181 insertions(+)

diff --git a/src/expression/boolean.h b/src/expression/boolean.h
index fb3e81f..4a2beab 100644
--- a/src/expression/boolean.h
+++ b/src/expression/boolean.h
@@ -20,6 +20,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <functional>
 
 #include "src/expression.h"
@@ -36,4 +37,78 @@ using Gt = NaryExpression<std::greater<>, 2>;  ///< (>) test.
 using Leq = NaryExpression<std::less_equal<>, 2>;  ///< (<=) test.
 using Geq = NaryExpression<std::greater_equal<>, 2>;  ///< (>=) test.
 
+namespace detail {
+
+/// Finds truth values that a number can take.
+///
+/// @param[in] interval  The possible values of the number.
+///
+/// @returns The interval of the Boolean values (0 and 1) of the number.
+inline Interval GetTruthInterval(const Interval& interval) {
+  bool can_be_false = Contains(interval, 0);
+  bool can_be_true = interval.lower() != 0 || interval.upper() != 0;
+  return Interval::closed(!can_be_false, can_be_true);
+}
+
+/// Determines the outcomes of an equality test.
+///
+/// @param[in] lhs  The possible values of the first argument.
+/// @param[in] rhs  The possible values of the second argument.
+///
+/// @returns The interval of the Boolean values (0 and 1) of the test.
+inline Interval GetEqualityInterval(const Interval& lhs, const Interval& rhs) {
+  bool can_be_equal = lhs.lower() <= rhs.upper() && rhs.lower() <= lhs.upper();
+  bool can_differ =
+      lhs.lower() != rhs.upper() || rhs.lower() != lhs.upper();
+  return Interval::closed(!can_differ, can_be_equal);
+}
+
+}  // namespace detail
+
+/// The bounds of an argument do not determine the truth value in between.
+/// @{
+template <>
+inline Interval Not::interval() noexcept {
+  Interval truth = detail::GetTruthInterval(args().front()->interval());
+  return Interval::closed(1 - truth.upper(), 1 - truth.lower());
+}
+
+template <>
+inline Interval And::interval() noexcept {
+  double min_value = 1;
+  double max_value = 1;
+  for (Expression* arg : args()) {
+    Interval truth = detail::GetTruthInterval(arg->interval());
+    min_value = std::min(min_value, truth.lower());
+    max_value = std::min(max_value, truth.upper());
+  }
+  return Interval::closed(min_value, max_value);
+}
+
+template <>
+inline Interval Or::interval() noexcept {
+  double min_value = 0;
+  double max_value = 0;
+  for (Expression* arg : args()) {
+    Interval truth = detail::GetTruthInterval(arg->interval());
+    min_value = std::max(min_value, truth.lower());
+    max_value = std::max(max_value, truth.upper());
+  }
+  return Interval::closed(min_value, max_value);
+}
+
+template <>
+inline Interval Eq::interval() noexcept {
+  return detail::GetEqualityInterval(args().front()->interval(),
+                                     args().back()->interval());
+}
+
+template <>
+inline Interval Df::interval() noexcept {
+  Interval equality = detail::GetEqualityInterval(args().front()->interval(),
+                                                  args().back()->interval());
+  return Interval::closed(1 - equality.upper(), 1 - equality.lower());
+}
+/// @}
+
 }  // namespace scram::mef
diff --git a/src/expression/numerical.cc b/src/expression/numerical.cc
index 7bd94f4..641e41a 100644
--- a/src/expression/numerical.cc
+++ b/src/expression/numerical.cc
@@ -20,6 +20,9 @@
 
 #include "numerical.h"
 
+#include <algorithm>
+#include <limits>
+
 #include "src/error.h"
 
 namespace scram::mef {
@@ -65,6 +68,91 @@ void Pow::Validate() const {
                     " positive exponent is required."));
   }
 }
+
+template <>
+Interval Abs::interval() noexcept {
+  Interval arg_interval = args().front()->interval();
+  double max_value =
+      std::max(std::abs(arg_interval.lower()), std::abs(arg_interval.upper()));
+  if (arg_interval.lower() < 0 && arg_interval.upper() > 0)
+    return Interval::closed(0, max_value);
+  double min_value =
+      std::min(std::abs(arg_interval.lower()), std::abs(arg_interval.upper()));
+  return Interval::closed(min_value, max_value);
+}
+
+template <>
+Interval Cosh::interval() noexcept {
+  Interval arg_interval = args().front()->interval();
+  double lower = std::cosh(arg_interval.lower());
+  double upper = std::cosh(arg_interval.upper());
+  if (arg_interval.lower() < 0 && arg_interval.upper() > 0)
+    return Interval::closed(1, std::max(lower, upper));
+  return Interval::closed(std::min(lower, upper), std::max(lower, upper));
+}
+
+template <>
+Interval Tan::interval() noexcept {
+  Interval arg_interval = args().front()->interval();
+  double lower = arg_interval.lower();
+  double upper = arg_interval.upper();
+  double pi = ConstantExpression::kPi.value();
+  if (std::floor(lower / pi + 0.5) != std::floor(upper / pi + 0.5)) {
+    double max_value = std::numeric_limits<double>::max();
+    return Interval::closed(-max_value, max_value);
+  }
+  return Interval::closed(std::tan(lower), std::tan(upper));
+}
+
+template <>
+Interval Mod::interval() noexcept {
+  Interval interval_one = args().front()->interval();
+  Interval interval_two = args().back()->interval();
+  int min_dividend = interval_one.lower();
+  int max_dividend = interval_one.upper();
+  int min_divisor = interval_two.lower();
+  int max_divisor = interval_two.upper();
+  if (min_dividend == max_dividend && min_divisor == max_divisor) {
+    int value = min_dividend % min_divisor;
+    return Interval::closed(value, value);
+  }
+  // The remainder has the sign of the dividend,
+  // and it is less than the divisor by magnitude.
+  double max_remainder =
+      std::max(std::abs(interval_two.lower()), std::abs(interval_two.upper()));
+  double min_value = std::max<double>(min_dividend, -max_remainder);
+  double max_value = std::min<double>(max_dividend, max_remainder);
+  return Interval::closed(std::min(min_value, 0.0), std::max(max_value, 0.0));
+}
+
+template <>
+Interval Pow::interval() noexcept {
+  Interval base = args().front()->interval();
+  Interval exponent = args().back()->interval();
+  auto corners = std::minmax({std::pow(base.lower(), exponent.lower()),
+                              std::pow(base.lower(), exponent.upper()),
+                              std::pow(base.upper(), exponent.lower()),
+                              std::pow(base.upper(), exponent.upper())});
+  if (base.lower() >= 0)
+    return Interval::closed(corners.first, corners.second);
+
+  if (exponent.lower() == exponent.upper() &&
+      exponent.lower() == std::floor(exponent.lower())) {
+    if (base.upper() <= 0)
+      return Interval::closed(corners.first, corners.second);
+    return Interval::closed(std::min(corners.first, 0.0),
+                            std::max(corners.second, 0.0));
+  }
+  // The sign changes with the parity of the exponent
+  // (undefined for exponents that are not integers).
+  double near = std::abs(base.upper());
+  double far = std::abs(base.lower());
+  double max_value = std::max({std::pow(near, exponent.lower()),
+                               std::pow(near, exponent.upper()),
+                               std::pow(far, exponent.lower()),
+                               std::pow(far, exponent.upper())});
+  return Interval::closed(-max_value, max_value);
+}
 /// @endcond
 
 Mean::Mean(std::vector<Expression*> args) : ExpressionFormula(std::move(args)) {
diff --git a/src/expression/numerical.h b/src/expression/numerical.h
index 786cba7..f2d43a6 100644
--- a/src/expression/numerical.h
+++ b/src/expression/numerical.h
@@ -188,4 +188,22 @@ inline Interval Sin::interval() noexcept {
 /// @}
 /// @endcond
 
+/// The extrema over the arguments are not always at their bounds.
+/// @{
+template <>
+Interval Abs::interval() noexcept;
+
+template <>
+Interval Cosh::interval() noexcept;
+
+template <>
+Interval Tan::interval() noexcept;
+
+template <>
+Interval Mod::interval() noexcept;
+
+template <>
+Interval Pow::interval() noexcept;
+/// @}
+
 }  // namespace scram::mef
-- 
2.43.0


From 0d35faf24c274323078e751943b4dd11a7d12809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:20 +0000
Subject: [PATCH 16/22] fix: modulo of numbers beyond the range of int

---
 src/expression/numerical.cc | 21 +++++++++------------
 src/expression/numerical.h  | 12 +++++++++++-
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/expression/numerical.cc b/src/expression/numerical.cc
index 641e41a..cc31d26 100644
--- a/src/expression/numerical.cc
+++ b/src/expression/numerical.cc
@@ -43,13 +43,10 @@ template <>
 void Mod::Validate() const {
   assert(args().size() == 2);
   auto* arg_two = args().back();
-  int arg_value = arg_two->value();
-  if (arg_value == 0)
+  if (std::abs(arg_two->value()) < 1)
     SCRAM_THROW(DomainError("Modulo second operand must not be 0."));
   Interval interval = arg_two->interval();
-  int high = interval.upper();
-  int low = interval.lower();
-  if (high == 0 || low == 0 || (low < 0 && 0 < high)) {
+  if (interval.lower() < 1 && interval.upper() > -1) {
     SCRAM_THROW(
         DomainError("Modulo second operand sample must not contain 0."));
   }
@@ -108,20 +105,20 @@ template <>
 Interval Mod::interval() noexcept {
   Interval interval_one = args().front()->interval();
   Interval interval_two = args().back()->interval();
-  int min_dividend = interval_one.lower();
-  int max_dividend = interval_one.upper();
-  int min_divisor = interval_two.lower();
-  int max_divisor = interval_two.upper();
+  double min_dividend = std::trunc(interval_one.lower());
+  double max_dividend = std::trunc(interval_one.upper());
+  double min_divisor = std::trunc(interval_two.lower());
+  double max_divisor = std::trunc(interval_two.upper());
   if (min_dividend == max_dividend && min_divisor == max_divisor) {
-    int value = min_dividend % min_divisor;
+    double value = detail::Modulo(min_dividend, min_divisor);
     return Interval::closed(value, value);
   }
   // The remainder has the sign of the dividend,
   // and it is less than the divisor by magnitude.
   double max_remainder =
       std::max(std::abs(interval_two.lower()), std::abs(interval_two.upper()));
-  double min_value = std::max<double>(min_dividend, -max_remainder);
-  double max_value = std::min<double>(max_dividend, max_remainder);
+  double min_value = std::max(min_dividend, -max_remainder);
+  double max_value = std::min(max_dividend, max_remainder);
   return Interval::closed(std::min(min_value, 0.0), std::max(max_value, 0.0));
 }
 
diff --git a/src/expression/numerical.h b/src/expression/numerical.h
index f2d43a6..d3029bf 100644
--- a/src/expression/numerical.h
+++ b/src/expression/numerical.h
@@ -55,6 +55,16 @@ struct Bifunctor {  // Nasty abuse of terminology :(. Haskellers will hate this.
 template <double (*F)(double, double)>
 using BifunctorExpression = NaryExpression<Bifunctor<F>, 2>;
 
+namespace detail {
+
+/// The remainder of integers,
+/// which are not necessarily representable by integral types.
+inline double Modulo(double dividend, double divisor) {
+  return std::fmod(std::trunc(dividend), std::trunc(divisor));
+}
+
+}  // namespace detail
+
 using Neg = NaryExpression<std::negate<>, 1>;  ///< Negation.
 using Add = NaryExpression<std::plus<>, -1>;  ///< Sum operation.
 using Sub = NaryExpression<std::minus<>, -1>;  ///< Subtraction from the first.
@@ -73,7 +83,7 @@ using Tanh = FunctorExpression<&std::tanh>;  ///< Hyperbolic tangent.
 using Exp = FunctorExpression<&std::exp>;  ///< Exponential.
 using Log = FunctorExpression<&std::log>;  ///< Natural logarithm.
 using Log10 = FunctorExpression<&std::log10>;  ///< Decimal logarithm.
-using Mod = NaryExpression<std::modulus<int>, 2>;  ///< Modulo (%) operation.
+using Mod = BifunctorExpression<&detail::Modulo>;  ///< Modulo (%) operation.
 using Pow = BifunctorExpression<&std::pow>;  ///< Base raised to a power.
 using Sqrt = FunctorExpression<&std::sqrt>;  ///< Square root.
 using Ceil = FunctorExpression<&std::ceil>;  ///< Nearest (>=) integer.
-- 
2.43.0


From 02cfca5037efa7d5be343ae2ca05fd0f6843f2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:11 +0000
Subject: [PATCH 17/22] fix: count a constant probability in one integrity
 level only

A constant segment of the curve exactly at the border of two levels was
added to both of them, so that the fractions added up to more than 1.
---
 src/probability_analysis.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/probability_analysis.cc b/src/probability_analysis.cc
index ecd3708..652643b 100644
--- a/src/probability_analysis.cc
+++ b/src/probability_analysis.cc
@@ -102,6 +102,8 @@ void PartitionY(const Points& points, T* y_fractions) {
       std::swap(p_1, p_0);
     }
     auto fraction = [&k, &p_1, &p_0, &t_1, &t_0](double b_0, double b_1) {
+      if (p_0 == p_1)  // The constant can be on the border of two buckets.
+        return (b_0 < p_0 || b_0 == 0) && p_0 <= b_1 ? t_1 - t_0 : 0.0;
       if (p_0 <= b_0 && b_1 <= p_1)  // Sub-range.
         return (b_1 - b_0) / k;
       if (b_0 <= p_0 && p_1 <= b_1)  // Super-range.
-- 
2.43.0


From f9cc3d34864f1802d2770a3aadaa96c7852cd981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:00 +0000
Subject: [PATCH 18/22] fix: apply declarative substitutions in the exact
 probability of any algorithm

The diagram for the exact probability was built from the fault tree only,
so that with ZBDD or MOCUS and no approximation the declarative
substitutions of the model were dropped.
---
 src/fault_tree_analysis.h   | 3 +++
 src/probability_analysis.cc | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fault_tree_analysis.h b/src/fault_tree_analysis.h
index a561ef5..44b8373 100644
--- a/src/fault_tree_analysis.h
+++ b/src/fault_tree_analysis.h
@@ -215,6 +215,9 @@ class FaultTreeAnalysis : public Analysis {
   /// @returns The top gate that is passed to the analysis.
   const mef::Gate& top_event() const { return top_event_; }
 
+  /// @returns The optional Model with substitutions (nullptr if none).
+  const mef::Model* model() const { return model_; }
+
   /// Analyzes the fault tree and performs computations.
   /// This function must be called
   /// only after initializing the fault tree
diff --git a/src/probability_analysis.cc b/src/probability_analysis.cc
index 652643b..ae095d9 100644
--- a/src/probability_analysis.cc
+++ b/src/probability_analysis.cc
@@ -250,7 +250,7 @@ void ProbabilityAnalyzer<Bdd>::CreateBdd(
   CLOCK(total_time);
 
   CLOCK(ft_creation);
-  Pdag graph(fta.top_event(), Analysis::settings().ccf_analysis());
+  Pdag graph(fta.top_event(), Analysis::settings().ccf_analysis(), fta.model());
   LOG(DEBUG2) << "PDAG is created in " << DUR(ft_creation);
 
   CLOCK(prep_time);  // Overall preprocessing time.
-- 
2.43.0


From 932870f91f9b424973fe144049ee7e0472b2114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:11 +0000
Subject: [PATCH 19/22] fix: restore house events in reverse order of a phase's
 instructions

---
 src/risk_analysis.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/risk_analysis.cc b/src/risk_analysis.cc
index 114f29c..475d415 100644
--- a/src/risk_analysis.cc
+++ b/src/risk_analysis.cc
@@ -58,8 +58,9 @@ void RiskAnalysis::RunAnalysis(std::optional<Context> context) noexcept {
         model_->mission_time().value(init_time);
         Analysis::settings().mission_time(init_time);
 
-        for (const std::pair<mef::HouseEvent*, bool>& entry : house_events)
-          entry.first->state(entry.second);
+        // The same house event may be set several times in a phase.
+        for (auto it = house_events.rbegin(); it != house_events.rend(); ++it)
+          it->first->state(it->second);
       });
 
   if (context) {
-- 
2.43.0


From 05b7b39a25ce4b6af2587c8c25bb959802888951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:14 +0000
Subject: [PATCH 20/22] fix: a strict order of the arguments of ZBDD gates with
 cut off functions

---
 src/zbdd.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zbdd.cc b/src/zbdd.cc
index ee63ff6..0740d21 100644
--- a/src/zbdd.cc
+++ b/src/zbdd.cc
@@ -350,10 +350,10 @@ Zbdd::VertexPtr Zbdd::ConvertGraph(
     }
   }
   boost::sort(args, [](const VertexPtr& lhs, const VertexPtr& rhs) {
-    if (lhs->terminal())
-      return true;
     if (rhs->terminal())
       return false;
+    if (lhs->terminal())
+      return true;
     return SetNode::Ref(lhs).order() > SetNode::Ref(rhs).order();
   });
   auto it = args.cbegin();
-- 
2.43.0


From ffc5b069e1a7723d4be1ab443d8c208fba830d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:27 +0000
Subject: [PATCH 21/22] fix: the XML stream writes the minimum int

---
 src/xml_stream.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/xml_stream.h b/src/xml_stream.h
index f41ed6b..dd96c12 100644
--- a/src/xml_stream.h
+++ b/src/xml_stream.h
@@ -118,11 +118,12 @@ class FileStream {
   void write(const char* value) { std::fputs(value, file_); }
   void write(const char value) { std::fputc(value, file_); }
   void write(int value) {
+    auto magnitude = static_cast<std::size_t>(value);
     if (value < 0) {
       std::fputc('-', file_);
-      value = -value;
+      magnitude = 0 - magnitude;  // The negation of the minimum int overflows.
     }
-    write(static_cast<std::size_t>(value));
+    write(magnitude);
   }
   void write(std::size_t value) {
     char temp[20];
-- 
2.43.0


From cc06f0b7864c5826413258679ed915140decaabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:27 +0000
Subject: [PATCH 22/22] fix: the XML stream escapes the end of a CDATA section
 in text

---
 src/xml_stream.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xml_stream.h b/src/xml_stream.h
index dd96c12..1c190b4 100644
--- a/src/xml_stream.h
+++ b/src/xml_stream.h
@@ -360,6 +360,7 @@ class StreamElement {
             return false;
           case '&':
           case '<':
+          case '>':
           case '"':
             return true;
         }
@@ -369,7 +370,7 @@ class StreamElement {
     if (!has_special_chars) {  // The most common case.
       out_ << value;
     } else {
-      for (;; ++value) {
+      for (char prev = ']';; prev = *value++) {
         switch (*value) {
           case '\0':
             return;
@@ -379,6 +380,9 @@ class StreamElement {
           case '<':
             out_ << "&lt;";
             break;
+          case '>':  // The text must not contain "]]>" even across calls.
+            out_ << (prev == ']' ? "&gt;" : ">");
+            break;
           case '"':
             out_ << "&quot;";
             break;
-- 
2.43.0

