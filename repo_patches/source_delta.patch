From 7bcc8e937596353b00821705b1375a1cd9db316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:52 +0000
Subject: [PATCH 01/19] fix: TseitinCnfizer keeps a clause of a quantified
 formula without quantified variables a literal

VisitForall returned such a clause as it is, so that a disjunction could end
up under a negation in the list of clauses.
---
 dreal/util/tseitin_cnfizer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dreal/util/tseitin_cnfizer.cc b/dreal/util/tseitin_cnfizer.cc
index 0bb8263..055629f 100644
--- a/dreal/util/tseitin_cnfizer.cc
+++ b/dreal/util/tseitin_cnfizer.cc
@@ -133,12 +133,14 @@ Formula TseitinCnfizer::VisitForall(const Formula& f) {
   const set<Formula> clauses{
       get_clauses(naive_cnfizer_.Convert(quantified_formula))};
   const set<Formula> new_clauses{
-      ::dreal::map(clauses, [&quantified_variables](const Formula& clause) {
+      ::dreal::map(clauses, [this, &quantified_variables](
+                                const Formula& clause) -> Formula {
         DREAL_ASSERT(is_clause(clause));
         if (HaveIntersection(clause.GetFreeVariables(), quantified_variables)) {
           return forall(quantified_variables, clause);
         } else {
-          return clause;
+          // The clause can be a disjunction. Visit it to get a literal.
+          return this->Visit(clause);
         }
       })};
 
-- 
2.43.0


From cc6bd2b4394b30e0364fd26e933faa909a13ded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:38 +0000
Subject: [PATCH 02/19] fix: e += e and e *= e keep the terms of a uniquely
 owned sum or product

The map of the left operand was moved away before the right operand, the
same object, was read: x + y added to itself gave x + y.
---
 .../dreal/symbolic/symbolic_expression.cc                  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
index 94ccd8f..7240277 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
@@ -345,7 +345,8 @@ Expression& operator+=(Expression& lhs, const Expression& rhs) {
   // ExpressionAddFactory which holds intermediate terms and does
   // simplifications internally.
   if (is_addition(lhs)) {
-    if (lhs.ptr_->use_count() == 1) {
+    // Note that the map of lhs cannot be moved when rhs is lhs itself.
+    if (lhs.ptr_->use_count() == 1 && &lhs != &rhs) {
       return lhs =
                  ExpressionAddFactory{
                      get_constant_in_addition(lhs),
@@ -578,7 +579,9 @@ Expression& operator*=(Expression& lhs, const Expression& rhs) {
   ExpressionMulFactory mul_factory{};
   if (is_multiplication(lhs)) {
     // (e_1 * ... * e_n) * rhs
-    if (lhs.ptr_->use_count() == 1) {
+    //
+    // Note that the map of lhs cannot be moved when rhs is lhs itself.
+    if (lhs.ptr_->use_count() == 1 && &lhs != &rhs) {
       return lhs =
                  ExpressionMulFactory{
                      get_constant_in_multiplication(lhs),
-- 
2.43.0


From 6fcb3fedeeb8ffc04dc5aa949e2f2e0767484777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:38 +0000
Subject: [PATCH 03/19] fix: pow(pow(x, y), c) with a non-constant inner
 exponent

The inner exponent was read as a constant without a check.
---
 .../dreal/symbolic/symbolic_expression.cc            | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
index 7240277..b9682de 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression.cc
@@ -732,11 +732,13 @@ Expression pow(const Expression& e1, const Expression& e2) {
     //
     // only if both of exponent and e2 are integers.
     const Expression& exponent{get_second_argument(e1)};
-    const double v1{get_constant_value(exponent)};
-    const double v2{get_constant_value(e2)};
-    if (is_integer(v1) && is_integer(v2)) {
-      const Expression& base{get_first_argument(e1)};
-      return Expression{new ExpressionPow(base, v1 * v2)};
+    if (is_constant(exponent)) {
+      const double v1{get_constant_value(exponent)};
+      const double v2{get_constant_value(e2)};
+      if (is_integer(v1) && is_integer(v2)) {
+        const Expression& base{get_first_argument(e1)};
+        return Expression{new ExpressionPow(base, v1 * v2)};
+      }
     }
   }
   return Expression{new ExpressionPow(e1, e2)};
-- 
2.43.0


From 192b1d06cd726d3532b5ff711b9c4d508194c0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:38 +0000
Subject: [PATCH 04/19] fix: y * pow(pow(x, 2), 0.5) is not y * x

The exponents of nested powers are multiplied only if both are integers, as
the comment says; the outer one was not checked.
---
 .../dreal/symbolic/symbolic_expression_cell.cc                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 3b4dfd3..782c9d8 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -1039,7 +1039,7 @@ ExpressionMulFactory& ExpressionMulFactory::AddTerm(
     const Expression& e2{get_second_argument(base)};
     if (is_constant(e2)) {
       const double e2_value{get_constant_value(e2)};
-      if (is_integer(e2_value)) {
+      if (is_integer(e2_value) && is_integer(get_constant_value(exponent))) {
         // If base = pow(e1, e2) and both of e2 and exponent are
         // integers, then add (e1, e2 * exponent).
         //
-- 
2.43.0


From 4ef03d1df12670d67d96a947d9501c6374266b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:37 +0000
Subject: [PATCH 05/19] fix: keep unsubstituted variables of an uninterpreted
 function

---
 .../dreal/symbolic/symbolic_expression_cell.cc              | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 782c9d8..14f7f9e 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -2130,6 +2130,8 @@ Expression ExpressionUninterpretedFunction::Substitute(
   //     uf(name, {v₁, ..., vₙ}).Substitute(expr_subst, formula_subst)
   //   = uf(name, ⋃ᵢ (expr_subst[vᵢ].GetVariables() ∪ formula_subst[vᵢ])
   //
+  // where a variable without an entry is kept as it is.
+  //
   // For example, we have:
   //     uf("uf1", {x, y, b}).Substitute({x ↦ 1, y ↦ y + z}, {b ↦ x > 0})
   //   = uf("uf1", ∅ ∪ {y, z} ∪ {x})
@@ -2139,10 +2141,14 @@ Expression ExpressionUninterpretedFunction::Substitute(
     if (var.get_type() == Variable::Type::BOOLEAN) {
       if (formula_subst.count(var) > 0) {
         new_vars += formula_subst.at(var).GetFreeVariables();
+      } else {
+        new_vars.insert(var);
       }
     } else {
       if (expr_subst.count(var) > 0) {
         new_vars += expr_subst.at(var).GetVariables();
+      } else {
+        new_vars.insert(var);
       }
     }
   }
-- 
2.43.0


From 725cf624b0e2e84f01b2c68f2eccb927253be9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:31 +0000
Subject: [PATCH 06/19] fix: order real constants with the same representative

[v-, v] and [v, v+] are different terms, but neither preceded the other when
both were represented by v.
---
 .../dreal/symbolic/symbolic_expression_cell.cc            | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index 14f7f9e..c3d1adb 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -447,8 +447,12 @@ bool ExpressionRealConstant::EqualTo(const ExpressionCell& e) const {
 bool ExpressionRealConstant::Less(const ExpressionCell& e) const {
   // Expression::Less guarantees the following assertion.
   assert(get_kind() == e.get_kind());
-  return get_value() <
-         static_cast<const ExpressionRealConstant&>(e).get_value();
+  const auto& r = static_cast<const ExpressionRealConstant&>(e);
+  if (get_value() != r.get_value()) {
+    return get_value() < r.get_value();
+  }
+  // [v, v⁺] and [v⁻, v] may both have v as their representative.
+  return lb_ < r.lb_;
 }
 
 double ExpressionRealConstant::Evaluate(const Environment&) const {
-- 
2.43.0


From 77c8de3f5e7b413219f5d1412958b2239126285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 07/19] fix: classify negated quantified formulas as literals
 in is_clause and is_cnf

---
 dreal/symbolic/symbolic.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dreal/symbolic/symbolic.cc b/dreal/symbolic/symbolic.cc
index e1339eb..13a47cb 100644
--- a/dreal/symbolic/symbolic.cc
+++ b/dreal/symbolic/symbolic.cc
@@ -91,12 +91,19 @@ bool is_atomic(const Formula& f) {
   DREAL_UNREACHABLE();
 }
 
+namespace {
+// A literal is an atomic formula or the negation of one.
+bool is_literal(const Formula& f) {
+  return is_atomic(f) || (is_negation(f) && is_atomic(get_operand(f)));
+}
+}  // namespace
+
 bool is_clause(const Formula& f) {
-  if (is_atomic(f)) {
+  if (is_literal(f)) {
     return true;
   }
   if (is_negation(f)) {
-    return is_atomic(get_operand(f));
+    return false;
   }
   if (is_conjunction(f)) {
     return false;
@@ -105,7 +112,7 @@ bool is_clause(const Formula& f) {
     const auto& operands = get_operands(f);
     const bool result{
         all_of(operands.cbegin(), operands.cend(),
-               [](const Formula& formula) { return is_atomic(formula); })};
+               [](const Formula& formula) { return is_literal(formula); })};
     return result;
   }
   DREAL_UNREACHABLE();
@@ -129,7 +136,7 @@ bool is_cnf(const Formula& f) {
   if (is_atomic(f)) {
     return true;
   }
-  if (is_disjunction(f)) {
+  if (is_disjunction(f) || is_negation(f)) {
     return is_clause(f);
   }
   if (is_conjunction(f)) {
-- 
2.43.0


From bdc3711170012a6735f10181f8a98b73dea7e63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 08/19] fix: keep the condition of an if-then-else when
 strengthening by delta

---
 dreal/symbolic/symbolic.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dreal/symbolic/symbolic.cc b/dreal/symbolic/symbolic.cc
index 13a47cb..c8acc5c 100644
--- a/dreal/symbolic/symbolic.cc
+++ b/dreal/symbolic/symbolic.cc
@@ -271,10 +271,12 @@ class DeltaStrengthenVisitor {
     return max(Visit(get_first_argument(e), delta),
                Visit(get_second_argument(e), delta));
   }
-  Expression VisitIfThenElse(const Expression& e, const double delta) const {
-    return if_then_else(Visit(get_conditional_formula(e), delta),
-                        Visit(get_then_expression(e), delta),
-                        Visit(get_else_expression(e), delta));
+  Expression VisitIfThenElse(const Expression& e, const double) const {
+    // Note that we do not perturb the condition. Doing so changes the branch
+    // taken, and the result is neither stronger nor weaker than the input. For
+    // example, the solutions of `if x > delta then -1 else 1 > 0` are not
+    // solutions of `if x > 0 then -1 else 1 > 0`.
+    return e;
   }
   Expression VisitUninterpretedFunction(const Expression& e,
                                         const double) const {
-- 
2.43.0


From afdc24a9de4f1fd5077f701299246b35fe5f4c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 09/19] fix: print coefficients exactly and leave the caller's
 stream precision unchanged

---
 .../symbolic/symbolic_expression_cell.cc      | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
index c3d1adb..52a7ed7 100644
--- a/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
+++ b/third_party/com_github_robotlocomotion_drake/dreal/symbolic/symbolic_expression_cell.cc
@@ -232,6 +232,15 @@ Expression ExpandPow(const Expression& base, const Expression& exponent) {
   const int n{static_cast<int>(e)};
   return ExpandPow(base, n);
 }
+
+// Prints @p v with enough digits to read it back, without changing the
+// formatting state of @p os.
+ostream& DisplayDouble(ostream& os, const double v) {
+  ostringstream oss;
+  oss << setprecision(numeric_limits<double>::max_digits10) << v;
+  return os << oss.str();
+}
+
 }  // anonymous namespace
 
 ExpressionCell::ExpressionCell(const ExpressionKind k, const size_t hash,
@@ -418,9 +427,7 @@ Expression ExpressionConstant::Differentiate(const Variable&) const {
 }
 
 ostream& ExpressionConstant::Display(ostream& os) const {
-  ostringstream oss;
-  oss << setprecision(numeric_limits<double>::max_digits10) << v_;
-  return os << oss.str();
+  return DisplayDouble(os, v_);
 }
 
 ExpressionRealConstant::ExpressionRealConstant(const double lb, const double ub,
@@ -633,7 +640,7 @@ ostream& ExpressionAdd::Display(ostream& os) const {
   bool print_plus{false};
   os << "(";
   if (constant_ != 0.0) {
-    os << setprecision(numeric_limits<double>::max_digits10) << constant_;
+    DisplayDouble(os, constant_);
     print_plus = true;
   }
   for (const auto& p : expr_to_coeff_map_) {
@@ -654,13 +661,13 @@ ostream& ExpressionAdd::DisplayTerm(ostream& os, const bool print_plus,
     }
     // Do not print "1 * t"
     if (coeff != 1.0) {
-      os << coeff << " * ";
+      DisplayDouble(os, coeff) << " * ";
     }
   } else {
     // Instead of printing "+ (- E)", just print "- E".
     os << " - ";
     if (coeff != -1.0) {
-      os << (-coeff) << " * ";
+      DisplayDouble(os, -coeff) << " * ";
     }
   }
   os << term;
@@ -926,7 +933,7 @@ ostream& ExpressionMul::Display(ostream& os) const {
   bool print_mul{false};
   os << "(";
   if (constant_ != 1.0) {
-    os << setprecision(numeric_limits<double>::max_digits10) << constant_;
+    DisplayDouble(os, constant_);
     print_mul = true;
   }
   for (const auto& p : base_to_exponent_map_) {
-- 
2.43.0


From 7d76637adc1b897ecc8ccaed82262cb58e8e1ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 10/19] fix: count SAT checks atomically, several contexts may
 check at once

---
 dreal/solver/sat_solver.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dreal/solver/sat_solver.cc b/dreal/solver/sat_solver.cc
index f0ec9ee..402b948 100644
--- a/dreal/solver/sat_solver.cc
+++ b/dreal/solver/sat_solver.cc
@@ -15,6 +15,7 @@
 */
 #include "dreal/solver/sat_solver.h"
 
+#include <atomic>
 #include <ostream>
 #include <utility>
 
@@ -97,8 +98,8 @@ namespace {
 class SatSolverStat : public Stat {
  public:
   explicit SatSolverStat(const bool enabled) : Stat{enabled} {};
-  SatSolverStat(const SatSolverStat&) = default;
-  SatSolverStat(SatSolverStat&&) = default;
+  SatSolverStat(const SatSolverStat&) = delete;
+  SatSolverStat(SatSolverStat&&) = delete;
   SatSolverStat& operator=(const SatSolverStat&) = delete;
   SatSolverStat& operator=(SatSolverStat&&) = delete;
   ~SatSolverStat() override {
@@ -112,7 +113,7 @@ class SatSolverStat : public Stat {
     }
   }
 
-  int num_check_sat_{0};
+  std::atomic<int> num_check_sat_{0};
   Timer timer_check_sat_;
 };
 }  // namespace
-- 
2.43.0


From b6ac17cbf56d88ed27060362a5eb7c7a397d4101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 11/19] fix: reject a replacement of the wrong type in
 Term::Substitute

---
 dreal/smt2/term.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dreal/smt2/term.cc b/dreal/smt2/term.cc
index 6d27af2..d9c2b74 100644
--- a/dreal/smt2/term.cc
+++ b/dreal/smt2/term.cc
@@ -65,9 +65,9 @@ Term Term::Substitute(const Variable& v, const Term& t) {
         case Variable::Type::CONTINUOUS:
         case Variable::Type::INTEGER:
         case Variable::Type::BINARY:
-          return Term{f_.Substitute(v, t.e_)};
+          return Term{f_.Substitute(v, t.expression())};
         case Variable::Type::BOOLEAN:
-          return Term{f_.Substitute(v, t.f_)};
+          return Term{f_.Substitute(v, t.formula())};
       }
       DREAL_UNREACHABLE();
     }
@@ -76,9 +76,9 @@ Term Term::Substitute(const Variable& v, const Term& t) {
         case Variable::Type::CONTINUOUS:
         case Variable::Type::INTEGER:
         case Variable::Type::BINARY:
-          return Term{e_.Substitute(v, t.e_)};
+          return Term{e_.Substitute(v, t.expression())};
         case Variable::Type::BOOLEAN:
-          return Term{e_.Substitute({}, {{v, t.f_}})};
+          return Term{e_.Substitute({}, {{v, t.formula()}})};
       }
       DREAL_UNREACHABLE();
     }
-- 
2.43.0


From 9ead0731f35a524253d2d5faf2eb59d4cb8aa718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 12/19] fix: quantify the bounded variables which occur only in
 their domain

---
 dreal/smt2/parser.yy | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dreal/smt2/parser.yy b/dreal/smt2/parser.yy
index b3f8d5a..2a2b443 100644
--- a/dreal/smt2/parser.yy
+++ b/dreal/smt2/parser.yy
@@ -365,11 +365,14 @@ term:           TK_TRUE { $$ = Formula::True(); }
 	    const Variables& vars = $5.first;
             const Formula& domain = $5.second;
 	    const Formula body = Smt2Driver::EliminateBooleanVariables(vars, $7.formula());
-	    const Variables quantified_variables = intersect(vars, body.GetFreeVariables());
+            // The domain mentions the bounded variables, even those which do
+            // not occur in the body.
+            const Formula matrix = imply(domain, body);
+            const Variables quantified_variables = intersect(vars, matrix.GetFreeVariables());
 	    if (quantified_variables.empty()) {
-	        $$ = body;
+	        $$ = matrix;
 	    } else {
-                $$ = forall(quantified_variables, imply(domain, body));
+                $$ = forall(quantified_variables, matrix);
 	    }
         }
         |       '(' TK_LET enter_scope let_binding_list term exit_scope ')' {
-- 
2.43.0


From 058066275b56a2d6635997aa6c4642e1e3a39962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 13/19] fix: read numerals with an explicit plus sign

---
 dreal/util/string_to_interval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreal/util/string_to_interval.cc b/dreal/util/string_to_interval.cc
index 12a9845..20d677d 100644
--- a/dreal/util/string_to_interval.cc
+++ b/dreal/util/string_to_interval.cc
@@ -29,7 +29,7 @@ Box::Interval StringToInterval(const string& s) {
   if (s[0] == '-') {
     lb = -stod(s.substr(1));
   } else {
-    lb = -stod("-" + s);
+    lb = -stod("-" + (s[0] == '+' ? s.substr(1) : s));
   }
   return Box::Interval{lb, ub};
 }
-- 
2.43.0


From 70476bde7f3f0bb907bd00473fb876261aa01fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 14/19] fix: check the sort of a definition without parameters

---
 dreal/smt2/parser.yy | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dreal/smt2/parser.yy b/dreal/smt2/parser.yy
index 2a2b443..e1ad544 100644
--- a/dreal/smt2/parser.yy
+++ b/dreal/smt2/parser.yy
@@ -176,6 +176,7 @@ command_define_fun:
                 '(' TK_DEFINE_FUN SYMBOL enter_scope '(' name_sort_list ')' sort term exit_scope ')' {
                     if ($6.empty()) {
                         // No parameters - treat as variable, just like declare-fun.
+                        $9.Check($8);
                         const Variable v{driver.DeclareVariable($3, $8)};
                         if ($9.type() == Term::Type::FORMULA) {
                             driver.mutable_context().Assert(v == $9.formula());
-- 
2.43.0


From 6bb6a304f22130bf629d1260bf38713b5320dcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:10 +0000
Subject: [PATCH 15/19] fix: strict upper bounds round toward the smallest
 double

nextafter(v, numeric_limits<double>::min()) moves up for v <= 0, so x < -1
set the upper bound to a value above -1 and was reported as absorbed.
---
 dreal/solver/filter_assertion.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/filter_assertion.cc b/dreal/solver/filter_assertion.cc
index ef38999..48930c0 100644
--- a/dreal/solver/filter_assertion.cc
+++ b/dreal/solver/filter_assertion.cc
@@ -132,8 +132,8 @@ FilterAssertionResult UpdateStrictUpperBound(const Variable& var,
                                              const double v, Box* const box) {
   switch (var.get_type()) {
     case Variable::Type::CONTINUOUS:
-      return UpdateUpperBound(var, nextafter(v, numeric_limits<double>::min()),
-                              box);
+      return UpdateUpperBound(
+          var, nextafter(v, numeric_limits<double>::lowest()), box);
     case Variable::Type::INTEGER:
     case Variable::Type::BINARY:
       UpdateUpperBound(var, v, box);
-- 
2.43.0


From faf29fd66ccebad7d87fddbd70fb287c2fcf3607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:11 +0000
Subject: [PATCH 16/19] fix: keep the negation of a constraint given to the
 local optimizer

---
 dreal/optimization/nlopt_optimizer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dreal/optimization/nlopt_optimizer.cc b/dreal/optimization/nlopt_optimizer.cc
index 89f328a..2e0f063 100644
--- a/dreal/optimization/nlopt_optimizer.cc
+++ b/dreal/optimization/nlopt_optimizer.cc
@@ -121,7 +121,8 @@ void NloptOptimizer::AddConstraint(const Formula& formula) {
   if (is_negation(formula)) {
     const Formula& negated_formula{get_operand(formula)};
     if (is_relational(negated_formula)) {
-      return AddRelationalConstraint(nnfizer_.Convert(negated_formula));
+      return AddRelationalConstraint(
+          nnfizer_.Convert(formula, true /* push_negation_into_relationals */));
     }
   }
   throw DREAL_RUNTIME_ERROR(
-- 
2.43.0


From e23639cf4551dd1364aea1dc1964f996e4f3af7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:57 +0000
Subject: [PATCH 17/19] fix: a sequence of contractors that all do nothing is
 the identity

---
 dreal/contractor/contractor.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dreal/contractor/contractor.cc b/dreal/contractor/contractor.cc
index e46bcc6..752f4ff 100644
--- a/dreal/contractor/contractor.cc
+++ b/dreal/contractor/contractor.cc
@@ -133,7 +133,12 @@ Contractor make_contractor_integer(const Box& box, const Config& config) {
 
 Contractor make_contractor_seq(const vector<Contractor>& contractors,
                                const Config& config) {
-  return Contractor{make_shared<ContractorSeq>(Flatten(contractors), config)};
+  vector<Contractor> ctcs{Flatten(contractors)};
+  if (ctcs.empty()) {
+    return make_contractor_id(config);
+  } else {
+    return Contractor{make_shared<ContractorSeq>(std::move(ctcs), config)};
+  }
 }
 
 Contractor make_contractor_ibex_fwdbwd(Formula f, const Box& box,
-- 
2.43.0


From 4c625b27044d69308abf4091aceaa32659eb1546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:18 +0000
Subject: [PATCH 18/19] fix: ForallFormulaEvaluator touches variables its
 context does not have

---
 dreal/solver/forall_formula_evaluator.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/forall_formula_evaluator.cc b/dreal/solver/forall_formula_evaluator.cc
index e9a8877..599ab3d 100644
--- a/dreal/solver/forall_formula_evaluator.cc
+++ b/dreal/solver/forall_formula_evaluator.cc
@@ -100,7 +100,9 @@ ForallFormulaEvaluator::ForallFormulaEvaluator(Formula f, const double epsilon,
 FormulaEvaluationResult ForallFormulaEvaluator::operator()(
     const Box& box) const {
   Context& context{GetContext()};
-  for (const Variable& v : box.variables()) {
+  // The context (and so the counterexample) only has the variables of this
+  // formula, while `box` may have more.
+  for (const Variable& v : variables()) {
     context.SetInterval(v, box[v].lb(), box[v].ub());
   }
   optional<Box> counterexample = context.CheckSat();
@@ -108,7 +110,7 @@ FormulaEvaluationResult ForallFormulaEvaluator::operator()(
   if (counterexample) {
     DREAL_LOG_DEBUG("ForallFormulaEvaluator::operator()  --  CE found: ",
                     *counterexample);
-    for (const Variable& exist_var : box.variables()) {
+    for (const Variable& exist_var : variables()) {
       (*counterexample)[exist_var] = box[exist_var];
     }
     double max_diam = 0.0;
-- 
2.43.0


From f68243a9536dfcb4a9d1e1da7ba129370824626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:38 +0000
Subject: [PATCH 19/19] fix: the underscore spelling of two options lacks its
 colon

---
 dreal/solver/context_impl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dreal/solver/context_impl.cc b/dreal/solver/context_impl.cc
index 2a780f6..497226e 100644
--- a/dreal/solver/context_impl.cc
+++ b/dreal/solver/context_impl.cc
@@ -396,11 +396,11 @@ void Context::Impl::SetOption(const string& key, const string& val) {
     return config_.mutable_use_polytope().set_from_file(
         ParseBooleanOption(key, val));
   }
-  if (key == ":forall-polytope" || key == "forall_polytope") {
+  if (key == ":forall-polytope" || key == ":forall_polytope") {
     return config_.mutable_use_polytope_in_forall().set_from_file(
         ParseBooleanOption(key, val));
   }
-  if (key == ":local-optimization" || key == "local_optimization") {
+  if (key == ":local-optimization" || key == ":local_optimization") {
     return config_.mutable_use_local_optimization().set_from_file(
         ParseBooleanOption(key, val));
   }
-- 
2.43.0

