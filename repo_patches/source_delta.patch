From 59c6a86ebe1559b530977792444c26918dc5e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:38 +0000
Subject: [PATCH 01/34] fix: generate unambiguous Python source for every
 expression

Or, Not, Neg, Abs, two-term Sum/Prod and negative constants or parameters
were rendered without parentheses or with str(), so that the compiled
function could differ from evaluate().
---
 src/satisfy/expression.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 0a99ed8..ce8bafd 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -222,7 +222,7 @@ class Const(Expression):
         return str(self._value)
 
     def py_expr(self):
-        return str(self)
+        return "({})".format(self._value)
 
     def __add__(self, other):
         if self._value == 0:
@@ -438,7 +438,7 @@ class Neg(UnOp):
         return "-({})".format(self.operand)
 
     def py_expr(self):
-        return str(self)
+        return "(-{})".format(self.operand.py_expr())
 
 
 class Abs(UnOp):
@@ -449,7 +449,7 @@ class Abs(UnOp):
         return "abs({})".format(self.operand)
 
     def py_expr(self):
-        return str(self)
+        return "abs({})".format(self.operand.py_expr())
 
 
 class BinOp(Collection):
@@ -600,9 +600,6 @@ class Or(BinOp):
     def _op(self, left_value, right_value):
         return left_value or right_value
 
-    def py_expr(self):
-        return "{} or {}".format(self._expressions[0].py_expr(), self._expressions[1].py_expr())
-
 
 class Not(UnOp):
     __symbol__ = '^'
@@ -615,7 +612,7 @@ class Not(UnOp):
         return "^{}".format(self._expressions[0])
 
     def py_expr(self):
-        return "not {}".format(self._expressions[0].py_expr())
+        return "(not {})".format(self._expressions[0].py_expr())
 
 
 class Accumulation(Collection):
@@ -676,14 +673,14 @@ class Accumulation(Collection):
     def _as_str(self, op, fun, convert=str):
         values = []
         if self._const != self.__neutral_element__:
-            values.append(str(self._const))
+            values.append(convert(self.coerce(self._const)))
         values.extend(convert(e) for e in self)
         if len(values) == 0:
             return str(self.__neutral_element__)
         elif len(values) == 1:
             return str(values[0])
         elif len(values) == 2:
-            return "{} {} {}".format(values[0], op, values[1])
+            return "({} {} {})".format(values[0], op, values[1])
         else:
             return "{}([{}])".format(fun, ", ".join(values))
 
@@ -789,4 +786,4 @@ class Parameter(Variable):
         return self._value
 
     def py_expr(self):
-        return str(self._value)
+        return "({})".format(self._value)
-- 
2.43.0


From ab11f5c480d00ab9e76ca52842b15efa8847432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:38 +0000
Subject: [PATCH 02/34] fix: compile expressions whatever the names of their
 variables

Variable names were pasted in the generated source, so keywords, sum, prod,
abs and names that Python normalizes broke or changed the compiled function.
---
 src/satisfy/expression.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index ce8bafd..727d554 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -52,9 +52,7 @@ class Expression(abc.ABC):
             return Const(val)
 
     def py_source(self):
-        alist = list(self.vars())
-        alist.append("**__dummy_kwargs")
-        return "lambda {}: ({})".format(", ".join(alist), self.py_expr())
+        return "lambda **__vars: ({})".format(self.py_expr())
 
     def compile_py_function(self):
         py_source = self.py_source()
@@ -760,7 +758,7 @@ class Variable(Expression):
             self._name)
 
     def py_expr(self):
-        return self._name
+        return "__vars[{!r}]".format(self._name)
 
 
 class Parameter(Variable):
-- 
2.43.0


From 16e34bf91911a139e9d235978d3151e57bac4c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:38 +0000
Subject: [PATCH 03/34] fix: let the as_function fallback take keyword
 arguments like the compiled function

---
 src/satisfy/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 727d554..44a9a7c 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -67,7 +67,7 @@ class Expression(abc.ABC):
             return self.compile_py_function()
         except:
             LOG.exception("compilation of py function failed:")
-        return self.evaluate
+        return lambda **substitution: self.evaluate(substitution)
 
     @abc.abstractmethod
     def py_expr(self):
-- 
2.43.0


From 35873b4b39138a7d6d4709e91dcd46d7cfc74857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:38 +0000
Subject: [PATCH 04/34] fix: divide an integer by an expression (no // operator
 is defined)

---
 src/satisfy/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 44a9a7c..86bb0cf 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -160,10 +160,10 @@ class Expression(abc.ABC):
         return self.coerce(other) * self
 
     def __rdiv__(self, other):
-        return self.coerce(other) // self
+        return self.coerce(other) / self
 
     def __rtruediv__(self, other):
-        return self.coerce(other) // self
+        return self.coerce(other) / self
 
     def __rmod__(self, other):
         return self.coerce(other) % self
-- 
2.43.0


From a3420d8a0b31c4e6059e85a6fa3667a1e7000fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:38 +0000
Subject: [PATCH 05/34] fix: short-circuit & and | in direct evaluation, as the
 compiled form does

---
 src/satisfy/expression.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 86bb0cf..4b0a453 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -590,6 +590,9 @@ class And(BinOp):
     def _op(self, left_value, right_value):
         return left_value and right_value
 
+    def evaluate(self, substitution):
+        return self._expressions[0].evaluate(substitution) and self._expressions[1].evaluate(substitution)
+
 
 class Or(BinOp):
     __symbol__ = '|'
@@ -598,6 +601,9 @@ class Or(BinOp):
     def _op(self, left_value, right_value):
         return left_value or right_value
 
+    def evaluate(self, substitution):
+        return self._expressions[0].evaluate(substitution) or self._expressions[1].evaluate(substitution)
+
 
 class Not(UnOp):
     __symbol__ = '^'
-- 
2.43.0


From 2beba08131555e25cb1848cc3a31f9b47bc4b9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:38 +0000
Subject: [PATCH 06/34] fix: Parameter.free_vars takes a substitution like
 every other expression

---
 src/satisfy/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 4b0a453..09cdbd6 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -780,7 +780,7 @@ class Parameter(Variable):
     def value(self, v):
         self._value = v
 
-    def free_vars(self):
+    def free_vars(self, substitution):
         yield from ()
 
     def vars(self):
-- 
2.43.0


From 7c3fe049992585e6ab4715814590faecd40d5c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:50 +0000
Subject: [PATCH 07/34] fix: compare operands structurally in equals, and the
 constant of sums and products

---
 src/satisfy/expression.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 09cdbd6..63e23e4 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -328,7 +328,7 @@ class Collection(Expression):
         return False
 
     def equals(self, other):
-        return type(self) == type(other) and len(self) == len(other) and all(l_e == r_e for l_e, r_e in zip(self, other))
+        return type(self) == type(other) and len(self) == len(other) and all(l_e.equals(r_e) for l_e, r_e in zip(self, other))
 
     def __iter__(self):
         yield from self._expressions
@@ -660,6 +660,9 @@ class Accumulation(Collection):
     def const(self):
         return self._const
 
+    def equals(self, other):
+        return super().equals(other) and self._const == other.const
+
     @classmethod
     @abc.abstractmethod
     def op(cls, start, values):
-- 
2.43.0


From 07ee6d081c0cb5b2f622144f63b346f75a4d7749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:32 +0000
Subject: [PATCH 08/34] fix: make Model.set_solvable set the flag that
 solvable() reads

---
 src/satisfy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index dc1f2dd..743890a 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -93,7 +93,7 @@ class Model(object):
         return self._variables[name].variable
 
     def set_solvable(self, solvable):
-        self.__unsolvable = True
+        self.__solvable = bool(solvable)
 
     def add_constraint(self, constraint):
         if isinstance(constraint, bool):
-- 
2.43.0


From 3a21163a9c76f80cd98b75a2f2c63c6b392d300e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:32 +0000
Subject: [PATCH 09/34] fix: store a variable's domain as a tuple of its own

A one-shot iterator was left exhausted, and the caller's container was shared.
---
 src/satisfy/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index 743890a..04c655d 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -75,6 +75,7 @@ class Model(object):
         return parameter
 
     def add_int_variable(self, domain, *, name=None):
+        domain = tuple(domain)
         values = set()
         for value in domain:
             if value in values:
-- 
2.43.0


From 0e9641b5818188e8fe29cb66986b99bcf2a8b5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:32 +0000
Subject: [PATCH 10/34] fix: refuse variable names ending with a newline

---
 src/satisfy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index 04c655d..6cc2b8e 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -27,7 +27,7 @@ VariableInfo = collections.namedtuple("VariableInfo", "variable domain")
 
 
 class Model(object):
-    __re_name__ = re.compile(r'^[a-zA-Z]\w*$')
+    __re_name__ = re.compile(r'^[a-zA-Z]\w*\Z')
 
     def __init__(self):
         self._variables = collections.OrderedDict()
-- 
2.43.0


From 0063fb2d5eba8e376f868adb4748823a66d63304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:32 +0000
Subject: [PATCH 11/34] fix: do not reuse constraints compiled by an earlier
 solve

A solver with compile_constraints=False used the function compiled by another
solver, with the parameter values of that time.
---
 src/satisfy/constraint.py | 6 ++++++
 src/satisfy/solver.py     | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/satisfy/constraint.py b/src/satisfy/constraint.py
index 74d7931..474b671 100644
--- a/src/satisfy/constraint.py
+++ b/src/satisfy/constraint.py
@@ -35,6 +35,9 @@ class Constraint(abc.ABC):
     def compile(self):
         pass
 
+    def uncompile(self):
+        pass
+
     def is_compiled(self):
         return False
 
@@ -68,6 +71,9 @@ class ExpressionConstraint(Constraint):
     def compile(self):
         self._evaluate_function = self._expression.as_function()
 
+    def uncompile(self):
+        self._evaluate_function = None
+
     def evaluate_function(self):
         if self._evaluate_function is None:
             self._evaluate_function = self._expression.as_function()
diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 82e525d..9632ceb 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -104,6 +104,9 @@ class Solver(object):
         for constraint in itertools.chain(model.constraints(), additional_constraints):
             if compile_constraints:
                 constraint.compile()
+            else:
+                # a form compiled earlier has old parameter values
+                constraint.uncompile()
             c_vars = constraint.vars()
             for var_name in c_vars:
                 if var_name in pure_variables:
-- 
2.43.0


From 42daafc72f9478aa2b4e257cdf568a3eb25f77c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:32 +0000
Subject: [PATCH 12/34] fix: apply the bound of an objective to values accepted
 before it was tightened

Candidate values were filtered once, with the bound of that time; objectives
over one variable or none were never checked. Optimizations could yield
solutions worse than the previous one and report a wrong optimum.
---
 src/satisfy/constraint.py |  4 ++++
 src/satisfy/objective.py  |  3 +++
 src/satisfy/solver.py     | 12 ++++++++++--
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/constraint.py b/src/satisfy/constraint.py
index 474b671..c526b0e 100644
--- a/src/satisfy/constraint.py
+++ b/src/satisfy/constraint.py
@@ -32,6 +32,10 @@ class Constraint(abc.ABC):
     def vars(self):
         return self._var_names
 
+    def is_dynamic(self):
+        """Tell if the relation can change in the course of a solve"""
+        return False
+
     def compile(self):
         pass
 
diff --git a/src/satisfy/objective.py b/src/satisfy/objective.py
index 1abbebd..c769a17 100644
--- a/src/satisfy/objective.py
+++ b/src/satisfy/objective.py
@@ -34,6 +34,9 @@ class MinMaxConstraint(ExpressionConstraint):
         self._bound = model.add_parameter(0)
         super().__init__(self._not_set | op(expression, self._bound))
 
+    def is_dynamic(self):
+        return True
+
     def set_bound(self, value):
         self._not_set.value = 0
         self._bound.value = value
diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 9632ceb..b383faa 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -18,7 +18,7 @@ __all__ = [
 
 ModelInfo = collections.namedtuple(
     "ModelInfo",
-    "variables var_constraints var_ad_constraints var_bounds var_sizes var_groups groups group_bounds group_sizes")
+    "variables var_constraints var_ad_constraints dynamic_constraints var_bounds var_sizes var_groups groups group_bounds group_sizes")
 
 
 OptSolution = collections.namedtuple(
@@ -98,6 +98,7 @@ class Solver(object):
         var_ad_constraints = collections.defaultdict(set)
         var_bounds = {var_name: 0 for var_name in pure_variables}
         var_sizes = {var_name: len(var_info.domain) for var_name, var_info in pure_variables.items()}
+        dynamic_constraints = []
         groups = {}
         var_groups = collections.defaultdict(list)
         compile_constraints = self._compile_constraints
@@ -120,7 +121,9 @@ class Solver(object):
                     for var_name in c_vars:
                         var_ad_constraints[var_name].update(v for v in c_vars if v != var_name)
             else:
-                if len(c_vars) == 1:
+                if constraint.is_dynamic():
+                    dynamic_constraints.append(constraint)
+                elif len(c_vars) == 1:
                     # single value constraint
                     var_name = next(iter(c_vars))
                     if var_name in pure_variables:
@@ -142,6 +145,7 @@ class Solver(object):
             variables=pure_variables,
             var_constraints=var_constraints,
             var_ad_constraints=var_ad_constraints,
+            dynamic_constraints=dynamic_constraints,
             var_bounds=var_bounds,
             var_sizes=var_sizes,
             var_groups=var_groups,
@@ -171,6 +175,7 @@ class Solver(object):
         variables = model_info.variables
         var_constraints = model_info.var_constraints
         var_ad_constraints = model_info.var_ad_constraints
+        dynamic_constraints = model_info.dynamic_constraints
         var_names = tuple(variables)
         if var_selection_policy is VarSelectionPolicy.GROUPS:
             var_bounds = model_info.var_bounds
@@ -270,6 +275,9 @@ class Solver(object):
                 continue
             value = domain.pop(0)
             substitution[var_name] = value
+            if any(constraint.unsatisfied(substitution) for constraint in dynamic_constraints):
+                # var_name == value was acceptable, but it is no more
+                continue
             if unbound_vars:
                 stack.append((unbound_vars, substitution))
             else:
-- 
2.43.0


From 49155e1125aa59a8f79aba049a3b9e6480887794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:32 +0000
Subject: [PATCH 13/34] fix: stop the timer when a solve ends without a
 solution

The time spent after the last solution was missing from the statistics when
the search was exhausted or timed out.
---
 src/satisfy/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index b383faa..17fcbb5 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -236,6 +236,7 @@ class Solver(object):
             if timeout is not None:
                 cur_elapsed = timer.elapsed()
                 if cur_elapsed > timeout:
+                    timer.abort()
                     self._interrupt = "timeout"
                     return
 
@@ -292,6 +293,7 @@ class Solver(object):
                     return
                 timer.start()
                 continue
+        timer.abort()
 
     def _solve_forbidden(self, model, **args):
         timeout = args.get('timeout', self._timeout)
-- 
2.43.0


From 218175cb0e119cd27fb87ae6815f2a1b5b9d1a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:32 +0000
Subject: [PATCH 14/34] fix: accept INFINITY as the timeout or limit of a
 single solve

---
 src/satisfy/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 17fcbb5..5d577dd 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -161,7 +161,11 @@ class Solver(object):
     def solve(self, model, **args):
         self._reset()
         timeout = args.get('timeout', self._timeout)
+        if timeout is INFINITY:
+            timeout = None
         limit = args.get('limit', self._limit)
+        if limit is INFINITY:
+            limit = None
         var_selection_policy = args.get('var_selection_policy', self._var_selection_policy)
         additional_constraints = args.get('additional_constraints', ())
         # print("::: timeout=", timeout)
-- 
2.43.0


From 47d64de209de74e7eea77f69edd3ad04aee7e195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:32 +0000
Subject: [PATCH 15/34] fix: yield no solution when the limit is 0

---
 src/satisfy/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 5d577dd..9b9e4e1 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -174,6 +174,9 @@ class Solver(object):
         # print("::: additional_constraints=", additional_constraints)
         if not model.solvable():
             return
+        if limit is not None and limit <= 0:
+            self._interrupt = "limit"
+            return
 
         model_info = self._setup(model, additional_constraints=additional_constraints)
         variables = model_info.variables
-- 
2.43.0


From fc65894acd94efffa1808b143413c6ba043b3054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:32 +0000
Subject: [PATCH 16/34] fix: check additional constraints that have no
 variables

---
 src/satisfy/solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 9b9e4e1..03595e1 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -167,7 +167,7 @@ class Solver(object):
         if limit is INFINITY:
             limit = None
         var_selection_policy = args.get('var_selection_policy', self._var_selection_policy)
-        additional_constraints = args.get('additional_constraints', ())
+        additional_constraints = tuple(args.get('additional_constraints', ()))
         # print("::: timeout=", timeout)
         # print("::: limit=", limit)
         # print("::: var_selection_policy=", var_selection_policy)
@@ -179,6 +179,8 @@ class Solver(object):
             return
 
         model_info = self._setup(model, additional_constraints=additional_constraints)
+        if any(not constraint.vars() and constraint.unsatisfied({}) for constraint in additional_constraints):
+            return
         variables = model_info.variables
         var_constraints = model_info.var_constraints
         var_ad_constraints = model_info.var_ad_constraints
-- 
2.43.0


From 359c2950e1f38b3fc446343aa3138a4ee262d5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:32 +0000
Subject: [PATCH 17/34] fix: yield the empty assignment for a solvable model
 without variables

---
 src/satisfy/solver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 03595e1..38bb5a3 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -224,6 +224,12 @@ class Solver(object):
             var_names = tuple(sorted(var_names, key=lambda x: len(var_constraints[x]), reverse=True))
 
         if not var_names:
+            # nothing to choose: the empty assignment is the only solution
+            self._timer.start()
+            self._timer.stop()
+            yield {}
+            if limit == 1:
+                self._interrupt = "limit"
             return
 
         # print("::: var_names=", var_names)
-- 
2.43.0


From 7c37328d44e016b1d878ee31d3281a2c03472452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:29 +0000
Subject: [PATCH 18/34] fix: make str() of INFINITY and UNDEFINED work

---
 src/satisfy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/utils.py b/src/satisfy/utils.py
index 647a457..54baa25 100644
--- a/src/satisfy/utils.py
+++ b/src/satisfy/utils.py
@@ -27,7 +27,7 @@ class _Singleton(object):
         return "{}()".format(self.name())
 
     def __str__(self):
-        return self.name
+        return self.name()
 
 
 class Infinity(_Singleton):
-- 
2.43.0


From 559c9a58c6feea0f8ec9132ddec8c5aff127f1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:29 +0000
Subject: [PATCH 19/34] fix: export Infinity under its real name

---
 src/satisfy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/utils.py b/src/satisfy/utils.py
index 54baa25..21bdeb9 100644
--- a/src/satisfy/utils.py
+++ b/src/satisfy/utils.py
@@ -3,7 +3,7 @@ import time
 
 __all__ = [
     'INFINITY',
-    'InfiniTY',
+    'Infinity',
     'UNDEFINED',
     'Undefined',
     'Timer',
-- 
2.43.0


From 659563412e80f2d0f088db4766ef34cede7de846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:29 +0000
Subject: [PATCH 20/34] fix: honour avoid_leading_zeros=False in
 CryptarithmSolver

---
 src/satisfy/cryptarithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/cryptarithm.py b/src/satisfy/cryptarithm.py
index da5a22d..1595bdf 100644
--- a/src/satisfy/cryptarithm.py
+++ b/src/satisfy/cryptarithm.py
@@ -30,7 +30,7 @@ class CryptarithmSolver(ModelSolver):
         variables = {}
         for m in word.finditer(source):
             number = m.group()
-            if not number[0].isdigit():
+            if avoid_leading_zeros and not number[0].isdigit():
                 non_zero_letters.add(number[0])
             begin, end = m.span()
             parts = []
-- 
2.43.0


From e1f091006e7a9de3421cb4a09a74503df7be0cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:29 +0000
Subject: [PATCH 21/34] fix: count repeated labels once in GraphLabelingSolver

Two neighbours could get two copies of the same label.
---
 src/satisfy/graph_labeling.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/satisfy/graph_labeling.py b/src/satisfy/graph_labeling.py
index d6e462c..d1318cd 100644
--- a/src/satisfy/graph_labeling.py
+++ b/src/satisfy/graph_labeling.py
@@ -12,7 +12,11 @@ class GraphLabelingSolver(ModelSolver):
             args['var_selection_policy'] = VarSelectionPolicy.ORDERED
         super().__init__(**args)
         self._graph = graph
-        self._labels = {label_id: label for label_id, label in enumerate(labels)}
+        unique_labels = []
+        for label in labels:
+            if label not in unique_labels:
+                unique_labels.append(label)
+        self._labels = {label_id: label for label_id, label in enumerate(unique_labels)}
         label_ids = tuple(self._labels)
         model = self._model
         variables = {}
-- 
2.43.0


From 6d5851dc318d5c282455d557b3795828204f96b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:29 +0000
Subject: [PATCH 22/34] fix: accept pictures with rows of different lengths in
 pixmap_to_nonogram

---
 src/satisfy/nonogram.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/satisfy/nonogram.py b/src/satisfy/nonogram.py
index a0d2420..9fdd3cb 100644
--- a/src/satisfy/nonogram.py
+++ b/src/satisfy/nonogram.py
@@ -159,8 +159,7 @@ def pixmap_to_nonogram(pixmap):
         col = []
         count = 0
         for r in range(num_rows):
-            cell = pixmap[r][c]
-            if cell:
+            if c < len(pixmap[r]) and pixmap[r][c]:
                 count += 1
             else:
                 if count:
-- 
2.43.0


From c49af9c4a0d2fdbe8bd56bf20c85d89d7c08dccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:29 +0000
Subject: [PATCH 23/34] fix: refuse sudoku schemas with rows of the wrong
 length

---
 src/satisfy/sudoku.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/satisfy/sudoku.py b/src/satisfy/sudoku.py
index 6235b60..2f9ded6 100644
--- a/src/satisfy/sudoku.py
+++ b/src/satisfy/sudoku.py
@@ -29,6 +29,9 @@ class SudokuSolver(ModelSolver):
         schema = tuple(tuple(row) for row in schema)
         if len(schema) != size:
             raise ValueError("wrong row number {}".format(len(schema)))
+        for row in schema:
+            if len(row) != size:
+                raise ValueError("wrong row length {}".format(len(row)))
         matrix = [[None for _ in range(size)] for _ in range(size)]
         row_neighbors = [[] for _ in range(size)]
         col_neighbors = [[] for _ in range(size)]
-- 
2.43.0


From 9fef1fea3c75d2e9ba412e4fcb7edafa8bb98f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:29 +0000
Subject: [PATCH 24/34] fix: find no solution for a sudoku schema with
 conflicting givens

The givens were never compared with one another: the grids produced repeated them.
---
 src/satisfy/sudoku.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/satisfy/sudoku.py b/src/satisfy/sudoku.py
index 2f9ded6..0c0fb7a 100644
--- a/src/satisfy/sudoku.py
+++ b/src/satisfy/sudoku.py
@@ -58,6 +58,12 @@ class SudokuSolver(ModelSolver):
                                               block_neighbors[cell.block_index]):
                         c1.domain.discard(value)
 
+        for neighbors in itertools.chain(row_neighbors, col_neighbors, block_neighbors):
+            givens = [schema[cell.row_index][cell.col_index] for cell in neighbors]
+            givens = [value for value in givens if value not in null_values]
+            if len(set(givens)) < len(givens):
+                model.set_solvable(False)
+
         row_variables = [[] for _ in range(size)]
         col_variables = [[] for _ in range(size)]
         block_variables = [[] for _ in range(size)]
-- 
2.43.0


From 2e600eb1dacbb081b7ac5d6a1d89db86fc4ad775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:29 +0000
Subject: [PATCH 25/34] fix: read the knapsack weights only once

With an iterator the capacity constraints were silently empty.
---
 src/satisfy/knapsack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/knapsack.py b/src/satisfy/knapsack.py
index a8df7b9..7c55bcc 100644
--- a/src/satisfy/knapsack.py
+++ b/src/satisfy/knapsack.py
@@ -44,10 +44,10 @@ class KnapsackOptimizer(ModelOptimizer):
         variables = [model.add_bool_variable(name="i_{}".format(i)) for i in range(len(values))]
         constraints = []
         for idx, capacity in enumerate(capacities):
-            constraint = model.add_constraint(sum(var * weight[idx] for var, weight in zip(variables, weights)) <= capacity)
+            constraint = model.add_constraint(sum(var * weight[idx] for var, weight in zip(variables, ws)) <= capacity)
         self._values = values
         self._capacities = capacities
-        self._weights = weights
+        self._weights = ws
         self._variables = variables
         self._model = model
 
-- 
2.43.0


From 0855ff35234822ae2a42f2bf2ed9e295bcf96ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:29 +0000
Subject: [PATCH 26/34] fix: solve the knapsack problem without items

The optimizer was left half-initialized.
---
 src/satisfy/knapsack.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/satisfy/knapsack.py b/src/satisfy/knapsack.py
index 7c55bcc..6628317 100644
--- a/src/satisfy/knapsack.py
+++ b/src/satisfy/knapsack.py
@@ -1,5 +1,6 @@
 import collections
 
+from .expression import Expression
 from .model import Model
 from .objective import Maximize
 from .solver import ModelOptimizer
@@ -19,8 +20,6 @@ class KnapsackOptimizer(ModelOptimizer):
         super().__init__(**args)
         model = self._model
         values = tuple(values)
-        if not values:
-            return
         for value in values:
             if not isinstance(value, int):
                 raise TypeError("{} is not a valid value".format(value))
@@ -58,7 +57,7 @@ class KnapsackOptimizer(ModelOptimizer):
         variables = self._variables
         model = self._model
         solver = self._solver
-        objective = Maximize(sum(var * value for var, value in zip(variables, values)))
+        objective = Maximize(Expression.coerce(sum(var * value for var, value in zip(variables, values))))
         opt_result = solver.optimal_solution(model, objective)
         opt_solution = opt_result.solution
         if opt_solution is not None:
-- 
2.43.0


From ab54b14b30423fbb4f6722357b8a06ff0cd0f051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:29 +0000
Subject: [PATCH 27/34] fix: read the input file of ascii_map_coloring, already
 opened by argparse

---
 src/satisfy/tool/demo_ascii_map_coloring.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/satisfy/tool/demo_ascii_map_coloring.py b/src/satisfy/tool/demo_ascii_map_coloring.py
index 84102b4..d45153f 100644
--- a/src/satisfy/tool/demo_ascii_map_coloring.py
+++ b/src/satisfy/tool/demo_ascii_map_coloring.py
@@ -59,8 +59,7 @@ No input file - using default data:
 """.format(example=source))
         data = source
     else:
-        with open(input_file, "r") as fh:
-            data = fh.read()
+        data = input_file.read()
 
     ascii_map_coloring_solver = AsciiMapColoringSolver(data, colors, timeout=timeout, limit=limit)
     if show_model:
-- 
2.43.0


From 7d25c5d501ecbd43ca3c30b85bc8352e6ec69ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:29 +0000
Subject: [PATCH 28/34] fix: substitute the digits in lower case cryptarithms
 too when printing a solution

---
 src/satisfy/tool/demo_cryptarithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/tool/demo_cryptarithm.py b/src/satisfy/tool/demo_cryptarithm.py
index 6c564ff..101f2df 100644
--- a/src/satisfy/tool/demo_cryptarithm.py
+++ b/src/satisfy/tool/demo_cryptarithm.py
@@ -44,5 +44,5 @@ No input source - using default cryptarithm example:
     for solution in cryptarithm_solver:
         num_solutions += 1
         print("\n=== solution {} ===".format(num_solutions))
-        print_cryptarithm_solution(solution, source)
+        print_cryptarithm_solution(solution, cryptarithm_solver.source)
     print_solve_stats(cryptarithm_solver.get_stats())
-- 
2.43.0


From 4984d5d5d5831645a19802964cee7f4e7abbd573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:00 +0000
Subject: [PATCH 29/34] fix: restore INFINITY and UNDEFINED from every pickle
 protocol

---
 src/satisfy/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/satisfy/utils.py b/src/satisfy/utils.py
index 21bdeb9..0b39f70 100644
--- a/src/satisfy/utils.py
+++ b/src/satisfy/utils.py
@@ -20,6 +20,10 @@ class _Singleton(object):
             cls.__instance__ = instance
         return cls.__instance__
 
+    def __reduce__(self):
+        # the default of pickle protocols 0 and 1 does not call __new__
+        return type(self), ()
+
     def name(self):
         return type(self).__name__
 
-- 
2.43.0


From 16c8f992406f0bfb3bbdd1a912fd540a5066c1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:29 +0000
Subject: [PATCH 30/34] fix: try the letters of a cryptarithm in a fixed order

The order followed the iteration of a set of strings, so which solutions came
first (and how long the search took) changed from one process to the next.
---
 src/satisfy/cryptarithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/cryptarithm.py b/src/satisfy/cryptarithm.py
index 1595bdf..8abd581 100644
--- a/src/satisfy/cryptarithm.py
+++ b/src/satisfy/cryptarithm.py
@@ -63,7 +63,7 @@ class CryptarithmSolver(ModelSolver):
         non_zero_digits = digits[1:]
         variables = {}
         model = self._model
-        for letter in letters:
+        for letter in sorted(letters):
             if letter in non_zero_letters:
                 domain = non_zero_digits
             else:
-- 
2.43.0


From 88e9efd99c694bc687a8180528602eb0aa4f440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:01 +0000
Subject: [PATCH 31/34] fix: keep the bounds of an objective out of the model

---
 src/satisfy/objective.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/satisfy/objective.py b/src/satisfy/objective.py
index c769a17..a6eb8cf 100644
--- a/src/satisfy/objective.py
+++ b/src/satisfy/objective.py
@@ -2,7 +2,7 @@ import abc
 import operator
 
 from .constraint import ExpressionConstraint
-from .expression import Expression
+from .expression import Expression, Parameter
 
 __all__ = [
     'Objective',
@@ -30,8 +30,9 @@ class Objective(abc.ABC):
 class MinMaxConstraint(ExpressionConstraint):
     def __init__(self, model, expression, op):
         self._model = model
-        self._not_set = model.add_parameter(1)
-        self._bound = model.add_parameter(0)
+        # not declared in the model, which would keep them forever
+        self._not_set = Parameter("_not_set", 1)
+        self._bound = Parameter("_bound", 0)
         super().__init__(self._not_set | op(expression, self._bound))
 
     def is_dynamic(self):
-- 
2.43.0


From a148ea622b362995f6b98023e3d8b1da1646bc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:18 +0000
Subject: [PATCH 32/34] fix: compare constants to a bool, which is a valid
 constraint

---
 src/satisfy/expression.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 63e23e4..455b3cb 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -269,32 +269,32 @@ class Const(Expression):
 
     def __eq__(self, other):
         if isinstance(other, Const):
-            return int(self._value == other.value)
+            return self._value == other.value
         return Eq(self, other)
 
     def __ne__(self, other):
         if isinstance(other, Const):
-            return int(self._value != other.value)
+            return self._value != other.value
         return Ne(self, other)
 
     def __lt__(self, other):
         if isinstance(other, Const):
-            return int(self._value < other.value)
+            return self._value < other.value
         return Lt(self, other)
 
     def __le__(self, other):
         if isinstance(other, Const):
-            return int(self._value <= other.value)
+            return self._value <= other.value
         return Le(self, other)
 
     def __gt__(self, other):
         if isinstance(other, Const):
-            return int(self._value > other.value)
+            return self._value > other.value
         return Gt(self, other)
 
     def __ge__(self, other):
         if isinstance(other, Const):
-            return int(self._value >= other.value)
+            return self._value >= other.value
         return Ge(self, other)
 
     def __and__(self, other):
-- 
2.43.0


From 2cd950b2503b70672b763c7df7f2eaaf4555fae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:16 +0000
Subject: [PATCH 33/34] fix: constants and parameters without a literal form
 keep their value when compiled

---
 src/satisfy/expression.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 455b3cb..baf1ef4 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -1,4 +1,5 @@
 import abc
+import ast
 import functools
 import itertools
 import logging
@@ -25,6 +26,14 @@ class EvaluationError(Exception):
     pass
 
 
+def _py_literal(value):
+    source = repr(value)
+    if type(value) is not int:
+        # fails if the value cannot be written as a literal
+        ast.literal_eval(source)
+    return "({})".format(source)
+
+
 class Expression(abc.ABC):
     @abc.abstractmethod
     def free_vars(self, substitution):
@@ -220,7 +229,7 @@ class Const(Expression):
         return str(self._value)
 
     def py_expr(self):
-        return "({})".format(self._value)
+        return _py_literal(self._value)
 
     def __add__(self, other):
         if self._value == 0:
@@ -793,4 +802,4 @@ class Parameter(Variable):
         return self._value
 
     def py_expr(self):
-        return "({})".format(self._value)
+        return _py_literal(self._value)
-- 
2.43.0


From ccc81283efece8de0a6a6d77d03cd92a2ca7431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:43 +0000
Subject: [PATCH 34/34] fix: an all-different constraint does not refuse the
 value None while another variable has none

---
 src/satisfy/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 38bb5a3..88a6bab 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -267,7 +267,7 @@ class Solver(object):
                 for value in variables[var_name].domain:
                     substitution[var_name] = value
                     for c_var in v_ad_constraints:
-                        if substitution.get(c_var, None) == value:
+                        if c_var in substitution and substitution[c_var] == value:
                             # var_name == value is *not* acceptable
                             # because it breaks some AllDifferentConstraint
                             break
-- 
2.43.0

