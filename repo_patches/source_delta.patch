From 9fa7323eb45f78304fd22f7beeddf424ee95db51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:26 +0000
Subject: [PATCH 01/37] fix: subtracting an expression from a number subtracts
 instead of adding

---
 src/andromede/expression/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/expression/expression.py b/src/andromede/expression/expression.py
index ec91591..9043c77 100644
--- a/src/andromede/expression/expression.py
+++ b/src/andromede/expression/expression.py
@@ -62,7 +62,7 @@ class ExpressionNode:
 
     def __rsub__(self, lhs: Any) -> "ExpressionNode":
         lhs = _wrap_in_node(lhs)
-        return lhs + self
+        return lhs - self
 
     def __mul__(self, rhs: Any) -> "ExpressionNode":
         return _apply_if_node(rhs, lambda x: MultiplicationNode(self, x))
-- 
2.43.0


From c3e3bf99eb819525e84acf30371ff1d7f8eecba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:26 +0000
Subject: [PATCH 02/37] fix: instantiate a constraint for every index its
 bounds depend on

---
 src/andromede/simulation/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 0a4eba0..2c9a5c7 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -423,8 +423,8 @@ def _compute_indexing(
 ) -> IndexingStructure:
     return (
         context.compute_indexing(constraint.expression)
-        or context.compute_indexing(constraint.lower_bound)
-        or context.compute_indexing(constraint.upper_bound)
+        | context.compute_indexing(constraint.lower_bound)
+        | context.compute_indexing(constraint.upper_bound)
     )
 
 
-- 
2.43.0


From 89256388e76b21405d351b00667208683dcb047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:26 +0000
Subject: [PATCH 03/37] fix: multiplying linear expressions leaves the right
 operand unchanged

---
 src/andromede/simulation/linear_expression.py | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/andromede/simulation/linear_expression.py b/src/andromede/simulation/linear_expression.py
index 4421761..cd515a2 100644
--- a/src/andromede/simulation/linear_expression.py
+++ b/src/andromede/simulation/linear_expression.py
@@ -373,21 +373,21 @@ class LinearExpression:
                 # It is possible that both expr are constant
                 left_expr = rhs
                 const_expr = self
-            if is_close_abs(const_expr.constant, 0, EPS):
+            # Read before updating self, which may be either operand
+            multiplier = const_expr.constant
+            if is_close_abs(multiplier, 0, EPS):
                 return LinearExpression()
-            elif is_close_abs(const_expr.constant, 1, EPS):
-                _copy_expression(left_expr, self)
-            else:
-                left_expr.constant *= const_expr.constant
-                for term_key, term in left_expr.terms.items():
-                    left_expr.terms[term_key] = Term(
-                        term.coefficient * const_expr.constant,
+            _copy_expression(left_expr, self)
+            if not is_close_abs(multiplier, 1, EPS):
+                self.constant *= multiplier
+                for term_key, term in self.terms.items():
+                    self.terms[term_key] = Term(
+                        term.coefficient * multiplier,
                         term.component_id,
                         term.variable_name,
                         term.time_index,
                         term.scenario_index,
                     )
-                _copy_expression(left_expr, self)
         return self
 
     def __mul__(self, rhs: "LinearExpression") -> "LinearExpression":
@@ -434,5 +434,5 @@ class LinearExpression:
 
 
 def _copy_expression(src: LinearExpression, dst: LinearExpression) -> None:
-    dst.terms = src.terms
+    dst.terms = dict(src.terms)
     dst.constant = src.constant
-- 
2.43.0


From bd0fe707a040006a18fc9202a02cbf5306451665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:05 +0000
Subject: [PATCH 04/37] fix: parse time operators applied to a parenthesised
 expression

---
 .../expression/parsing/parse_expression.py    | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/andromede/expression/parsing/parse_expression.py b/src/andromede/expression/parsing/parse_expression.py
index 1dc3c3e..b720034 100644
--- a/src/andromede/expression/parsing/parse_expression.py
+++ b/src/andromede/expression/parsing/parse_expression.py
@@ -147,6 +147,25 @@ class ExpressionNodeBuilderVisitor(ExprVisitor):
             return shifted_expr
         return shifted_expr.shift(time_shift)
 
+    # Visit a parse tree produced by ExprParser#timeIndexExpr.
+    def visitTimeIndexExpr(
+        self, ctx: ExprParser.TimeIndexExprContext
+    ) -> ExpressionNode:
+        expr = ctx.expr(0).accept(self)  # type: ignore
+        eval_time = ctx.expr(1).accept(self)  # type: ignore
+        return expr.eval(eval_time)
+
+    # Visit a parse tree produced by ExprParser#timeShiftExpr.
+    def visitTimeShiftExpr(
+        self, ctx: ExprParser.TimeShiftExprContext
+    ) -> ExpressionNode:
+        shifted_expr = ctx.expr().accept(self)  # type: ignore
+        time_shift = ctx.shift().accept(self)  # type: ignore
+        # specifics for (x + y)[t] ...
+        if expressions_equal(time_shift, literal(0)):
+            return shifted_expr
+        return shifted_expr.shift(time_shift)
+
     def visitTimeSum(self, ctx: ExprParser.TimeSumContext) -> ExpressionNode:
         shifted_expr = ctx.expr().accept(self)  # type: ignore
         from_shift = ctx.from_.accept(self)  # type: ignore
-- 
2.43.0


From ffd7103fcc2e753a2af0e783570f266ea856d316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:05 +0000
Subject: [PATCH 05/37] fix: reject expressions containing unrecognised
 characters instead of skipping them

---
 src/andromede/expression/parsing/parse_expression.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/andromede/expression/parsing/parse_expression.py b/src/andromede/expression/parsing/parse_expression.py
index b720034..5afb8f6 100644
--- a/src/andromede/expression/parsing/parse_expression.py
+++ b/src/andromede/expression/parsing/parse_expression.py
@@ -13,6 +13,7 @@ from dataclasses import dataclass
 from typing import Set
 
 from antlr4 import CommonTokenStream, InputStream
+from antlr4.error.ErrorListener import ErrorListener
 from antlr4.error.ErrorStrategy import BailErrorStrategy
 
 from andromede.expression import ExpressionNode, literal, param, var
@@ -261,6 +262,15 @@ class AntaresParseException(Exception):
     pass
 
 
+class _InvalidTokenListener(ErrorListener):
+    """
+    By default, the lexer only logs the characters it does not recognize and skips them.
+    """
+
+    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):  # type: ignore
+        raise ValueError(f"line {line}:{column} {msg}")
+
+
 def parse_expression(expression: str, identifiers: ModelIdentifiers) -> ExpressionNode:
     """
     Parses a string expression to create the corresponding AST representation.
@@ -268,6 +278,8 @@ def parse_expression(expression: str, identifiers: ModelIdentifiers) -> Expressi
     try:
         input = InputStream(expression)
         lexer = ExprLexer(input)
+        lexer.removeErrorListeners()
+        lexer.addErrorListener(_InvalidTokenListener())
         stream = CommonTokenStream(lexer)
         parser = ExprParser(stream)
         parser._errHandler = BailErrorStrategy()
-- 
2.43.0


From a6ae05e9b9cfc4532c7057f1c3994fa8e9ff3014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:05 +0000
Subject: [PATCH 06/37] fix: check that the parameters of nodes have consistent
 data, as for components

---
 src/andromede/study/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/study/data.py b/src/andromede/study/data.py
index f89537c..b1eb983 100644
--- a/src/andromede/study/data.py
+++ b/src/andromede/study/data.py
@@ -257,7 +257,7 @@ class DataBase:
             raise KeyError(f"Index {index} not found.")
 
     def requirements_consistency(self, network: Network) -> None:
-        for component in network.components:
+        for component in network.all_components:
             for param in component.model.parameters.values():
                 data_structure = self.get_data(component.id, param.name)
 
-- 
2.43.0


From ad3bedae3276e9f73ea6ea4ac5e146878dadff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:05 +0000
Subject: [PATCH 07/37] fix: scenarized data base: keep parameter scenario
 groups separate and include nodes

---
 src/andromede/study/resolve_components.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/andromede/study/resolve_components.py b/src/andromede/study/resolve_components.py
index e9f5291..7e0a3cf 100644
--- a/src/andromede/study/resolve_components.py
+++ b/src/andromede/study/resolve_components.py
@@ -215,15 +215,11 @@ def build_scenarized_data_base(
     database = DataBase()
     scenarizations = _resolve_scenarization(scenario_builder_data)
 
-    for comp in input_comp.components:
-        scenarization = None
-        if comp.scenario_group:
-            scenarization = scenarizations[comp.scenario_group]
-
+    for comp in input_comp.components + input_comp.nodes:
         # This idiom allows mypy to 'ignore' the fact that comp.parameter can be None
         for param in comp.parameters or []:
-            if param.scenario_group:
-                scenarization = scenarizations[param.scenario_group]
+            scenario_group = param.scenario_group or comp.scenario_group
+            scenarization = scenarizations[scenario_group] if scenario_group else None
             param_value = _build_data(
                 param.time_dependent,
                 param.scenario_dependent,
-- 
2.43.0


From 1f82a7c23fe019d2a6238f2a744e041215df5330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:05 +0000
Subject: [PATCH 08/37] fix: assigning an output variable value discards the
 previous values

---
 src/andromede/simulation/output_values.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/andromede/simulation/output_values.py b/src/andromede/simulation/output_values.py
index c832148..af4fe65 100644
--- a/src/andromede/simulation/output_values.py
+++ b/src/andromede/simulation/output_values.py
@@ -101,6 +101,7 @@ class OutputValues:
         @value.setter
         def value(self, values: Union[float, List[float], List[List[float]]]) -> None:
             size_s, size_t = 1, 1
+            self._value = {}
 
             if isinstance(values, list):
                 size_s = len(values)
-- 
2.43.0


From 52a5604f7bcbe153ee5afe40960b0049c02fc834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:05 +0000
Subject: [PATCH 09/37] fix: an expectation does not override the scenarios of
 a nested expectation

---
 src/andromede/expression/operators_expansion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/andromede/expression/operators_expansion.py b/src/andromede/expression/operators_expansion.py
index 13e2d40..51f29b1 100644
--- a/src/andromede/expression/operators_expansion.py
+++ b/src/andromede/expression/operators_expansion.py
@@ -226,12 +226,12 @@ class ApplyScenario(CopyVisitor):
     scenario: int
 
     def pb_parameter(self, node: ProblemParameterNode) -> ExpressionNode:
-        if isinstance(node.scenario_index, NoScenarioIndex):
+        if not isinstance(node.scenario_index, CurrentScenarioIndex):
             return node
         return dataclasses.replace(node, scenario_index=OneScenarioIndex(self.scenario))
 
     def pb_variable(self, node: ProblemVariableNode) -> ExpressionNode:
-        if isinstance(node.scenario_index, NoScenarioIndex):
+        if not isinstance(node.scenario_index, CurrentScenarioIndex):
             return node
         return dataclasses.replace(node, scenario_index=OneScenarioIndex(self.scenario))
 
-- 
2.43.0


From 5b2b6b3c4f907d7ceaa3b602a3fb7a51cd2aaa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:35 +0000
Subject: [PATCH 10/37] fix: accept a dependency on a preloaded library

---
 src/andromede/model/resolve_library.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/andromede/model/resolve_library.py b/src/andromede/model/resolve_library.py
index 10f3285..152319a 100644
--- a/src/andromede/model/resolve_library.py
+++ b/src/andromede/model/resolve_library.py
@@ -86,7 +86,10 @@ def resolve_library(
                 output_lib_dict, treated_lib_ids, cur_yaml_lib, current_lib
             )
 
-            remaining_dependencies = set(cur_yaml_lib.dependencies) - treated_lib_ids
+            preloaded_lib_ids = output_lib_dict.keys() - yaml_lib_dict.keys()
+            remaining_dependencies = (
+                set(cur_yaml_lib.dependencies) - treated_lib_ids - preloaded_lib_ids
+            )
 
             if remaining_dependencies:
                 _add_dependencies_to_stack(import_stack, remaining_dependencies)
-- 
2.43.0


From 83b05f187516736ce45c567561a60bd70d57b648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:57 +0000
Subject: [PATCH 11/37] fix: bound the dispatch of PyPSA storage units by their
 installed power

---
 src/andromede/libs/pypsa_models/pypsa_models.yml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/libs/pypsa_models/pypsa_models.yml b/src/andromede/libs/pypsa_models/pypsa_models.yml
index 1909a1a..aa09f12 100644
--- a/src/andromede/libs/pypsa_models/pypsa_models.yml
+++ b/src/andromede/libs/pypsa_models/pypsa_models.yml
@@ -376,7 +376,7 @@ library:
         - id: p_store_upper
           expression: p_store <= p_max_pu * p_nom
         - id: p_dispatch_upper
-          expression: p_store <= p_max_pu * p_nom
+          expression: p_dispatch <= p_max_pu * p_nom
         - id: state_of_charge_upper
           expression: state_of_charge <= max_hours * p_nom
         - id: state_of_charge_balance
-- 
2.43.0


From 486427ddf4116a07d16edc606b2eb9a457f62629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:57 +0000
Subject: [PATCH 12/37] fix: reject libraries whose dependencies define the
 same port type differently

---
 src/andromede/model/resolve_library.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/andromede/model/resolve_library.py b/src/andromede/model/resolve_library.py
index 152319a..54aced4 100644
--- a/src/andromede/model/resolve_library.py
+++ b/src/andromede/model/resolve_library.py
@@ -115,7 +115,12 @@ def _add_resolved_dependent_port_types_to_current_lib(
 ) -> None:
     done_dependencies = set(cur_yaml_lib.dependencies) & treated_lib_ids
     for done_lib in done_dependencies:
-        current_lib.port_types.update(output_lib_dict[done_lib].port_types)
+        for port_id, port_type in output_lib_dict[done_lib].port_types.items():
+            if current_lib.port_types.get(port_id, port_type) != port_type:
+                raise Exception(
+                    f"Port {port_id} is defined differently by several dependencies of {cur_yaml_lib.id}."
+                )
+            current_lib.port_types[port_id] = port_type
 
 
 def _update_treated_libs_and_import_stack(
-- 
2.43.0


From ecbbb6838422cda4d101a8639cefff66f1722562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:57 +0000
Subject: [PATCH 13/37] fix: decision trees do not share their coupling
 constraints

---
 src/andromede/simulation/decision_tree.py | 31 ++++++++++-------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/andromede/simulation/decision_tree.py b/src/andromede/simulation/decision_tree.py
index 9c1ffb1..9c1ac3c 100644
--- a/src/andromede/simulation/decision_tree.py
+++ b/src/andromede/simulation/decision_tree.py
@@ -55,14 +55,14 @@ class DecisionTreeNode(NodeMixin):
         parent: Optional["DecisionTreeNode"] = None,
         children: Optional[Iterable["DecisionTreeNode"]] = None,
         prob: float = 1.0,
-        coupling_network: Network = Network("_Coupler"),
-        coupling_info: CouplingInfo = CouplingInfo(),
+        coupling_network: Optional[Network] = None,
+        coupling_info: Optional[CouplingInfo] = None,
     ) -> None:
         self.id = id
         self.config = config
         self.network = network
-        self.coupling_network = coupling_network
-        self.coupling_info = coupling_info
+        self.coupling_network = coupling_network or Network("_Coupler")
+        self.coupling_info = coupling_info or CouplingInfo()
         self.parent = parent
 
         if prob < 0 or 1 < prob:
@@ -155,19 +155,14 @@ class DecisionTreeNode(NodeMixin):
         variables: List[Variable] = []
         constraints: List[Constraint] = []
 
-        """
-        Here and below, we use (and mostly abuse!) of the fact that
-        both coupling_network and coupling_info attributes are initialized,
-        or bounded, at the function definition since they are default arguments!
-        It allows us to not iterate over the tree, since all nodes share the same
-        coupling_network and coupling_info objects.
-
-        However, IT IS BAD DESIGN!
-        But for now it will suffice since the inner workings will change once
-        Thomas has changed the AST instantiation
-        TODO Update this once the new AST is merged
-        """
-        for var_name in self.coupling_info.variables:
+        # Each node only holds its own coupling information
+        coupling_variables: Set[str] = set()
+        coupling_constraints: Dict[str, ExpressionNode] = {}
+        for node in self.traverse():
+            coupling_variables.update(node.coupling_info.variables)
+            coupling_constraints.update(node.coupling_info.constraints)
+
+        for var_name in sorted(coupling_variables):
             variables.append(
                 # TODO For now, unbounded positive float variable
                 float_variable(
@@ -178,7 +173,7 @@ class DecisionTreeNode(NodeMixin):
                 ),
             )
 
-        for cst_name, expr in self.coupling_info.constraints.items():
+        for cst_name, expr in coupling_constraints.items():
             constraints.append(
                 Constraint(
                     name=cst_name,
-- 
2.43.0


From 8b40f1360a1fb91dcddeab703784751622a50b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:25 +0000
Subject: [PATCH 14/37] fix: keep the coupling constraints of a decision tree
 with a single node

---
 src/andromede/simulation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 2c9a5c7..b1ad37a 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -791,7 +791,7 @@ def build_problem(
 def fusion_problems(
     masters: List[OptimizationProblem], coupler: OptimizationProblem
 ) -> OptimizationProblem:
-    if len(masters) == 1:
+    if len(masters) == 1 and not coupler.solver.constraints():
         # Nothing to fusion. Just past down the master
         return masters[0]
 
-- 
2.43.0


From 47f8c503866debebc15230aba29fb35887e69dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:25 +0000
Subject: [PATCH 15/37] fix: merging masters keeps integer variables, cost
 offsets and constraints without variables

---
 src/andromede/simulation/optimization.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index b1ad37a..8392f5d 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -810,12 +810,21 @@ def fusion_problems(
     for master in masters:
         context = master.context
         objective = master.solver.Objective()
+        root_objective.SetOffset(root_objective.offset() + objective.offset())
+
+        for cstr in master.solver.constraints():
+            key = f"{master.name}_{cstr.name()}"
+            root_constraints[key] = root_master.solver.Constraint(
+                cstr.Lb(), cstr.Ub(), key
+            )
 
         for var in master.solver.variables():
             # If variable not already in coupler, we add it
             # Otherwise we update its upper and lower bounds
             if var.name() not in root_vars:
-                root_var = root_master.solver.NumVar(var.lb(), var.ub(), var.name())
+                root_var = root_master.solver.Var(
+                    var.lb(), var.ub(), var.integer(), var.name()
+                )
                 root_master.context._solver_variables[var.name()] = SolverVariableInfo(
                     var.name(),
                     len(root_master.context._solver_variables),
@@ -825,6 +834,7 @@ def fusion_problems(
                 root_var = root_vars[var.name()]
                 root_var.SetLb(var.lb())
                 root_var.SetUb(var.ub())
+                root_var.SetInteger(var.integer())
                 root_master.context._solver_variables[
                     var.name()
                 ].is_in_objective = context._solver_variables[
@@ -833,13 +843,8 @@ def fusion_problems(
 
             for cstr in master.solver.constraints():
                 coeff = cstr.GetCoefficient(var)
-                # If variable present in constraint, we add the constraint to root
                 if coeff != 0:
                     key = f"{master.name}_{cstr.name()}"
-                    if key not in root_constraints:
-                        root_constraints[key] = root_master.solver.Constraint(
-                            cstr.Lb(), cstr.Ub(), key
-                        )
                     root_cstr = root_constraints[key]
                     root_cstr.SetCoefficient(root_var, coeff)
 
-- 
2.43.0


From 3fdee6edcb86d5e6e9e1f84a8e6978e99935a580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:19 +0000
Subject: [PATCH 16/37] fix: PyPSA converter rejects inactive storage units and
 stores

---
 src/andromede/pypsa_converter/pypsa_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/andromede/pypsa_converter/pypsa_converter.py b/src/andromede/pypsa_converter/pypsa_converter.py
index 4e97462..5bfa718 100644
--- a/src/andromede/pypsa_converter/pypsa_converter.py
+++ b/src/andromede/pypsa_converter/pypsa_converter.py
@@ -112,7 +112,7 @@ class PyPSAStudyConverter:
         if not (all((self.pypsa_network.links["active"] == 1))):
             raise ValueError(f"Converter supports only Links with active = 1")
         ### PyPSA components : Storage Units
-        if not (all((self.pypsa_network.links["active"] == 1))):
+        if not (all((self.pypsa_network.storage_units["active"] == 1))):
             raise ValueError(f"Converter supports only Storage Units with active = 1")
         if not (all((self.pypsa_network.storage_units["sign"] == 1))):
             raise ValueError(f"Converter supports only Storage Units with sign = 1")
@@ -125,7 +125,7 @@ class PyPSAStudyConverter:
         ):
             raise ValueError(f"Converter supports only Storage Units with linear cost")
         ### PyPSA components : Stores
-        if not (all((self.pypsa_network.links["active"] == 1))):
+        if not (all((self.pypsa_network.stores["active"] == 1))):
             raise ValueError(f"Converter supports only Stores with active = 1")
         if not (all((self.pypsa_network.stores["sign"] == 1))):
             raise ValueError(f"Converter supports only Stores with sign = 1")
-- 
2.43.0


From 06fb3b7b3385e1d394a8f7e2b89a84d77ab711fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:20 +0000
Subject: [PATCH 17/37] fix: an area without batteries does not discard the
 batteries of the other areas

---
 .../input_converter/src/converter.py          | 63 ++++++++++---------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/src/andromede/input_converter/src/converter.py b/src/andromede/input_converter/src/converter.py
index 5a9ca67..dad5fd7 100644
--- a/src/andromede/input_converter/src/converter.py
+++ b/src/andromede/input_converter/src/converter.py
@@ -615,40 +615,41 @@ class AntaresStudyConverter:
         self.logger.info("Converting binding constraints to component list...")
 
         bc_data = read_yaml_file(BC_CONFIG_PATH).get("template")
-        try:
-            for area in valid_areas.values():
-                data_with_area: dict = self._match_area_pattern(bc_data, area.id)
-                bcp = BindingConstraintsPreprocessing(self.study)
-
-                components.append(
-                    InputComponent(
-                        id=data_with_area["component"]["id"],
-                        model=data_with_area["model"],
-                        parameters=[
-                            InputComponentParameter(
-                                id=str(param.get("id")),
-                                time_dependent=bool(param.get("time-dependent")),
-                                scenario_dependent=bool(
-                                    param.get("scenario-dependent")
-                                ),
-                                value=bcp.convert_param_value(
-                                    param.get("id"), param.get("value")
-                                ),
-                            )
-                            for param in data_with_area["component"]["parameters"]
-                        ],
+        for area in valid_areas.values():
+            data_with_area: dict = self._match_area_pattern(bc_data, area.id)
+            bcp = BindingConstraintsPreprocessing(self.study)
+
+            try:
+                parameters = [
+                    InputComponentParameter(
+                        id=str(param.get("id")),
+                        time_dependent=bool(param.get("time-dependent")),
+                        scenario_dependent=bool(param.get("scenario-dependent")),
+                        value=bcp.convert_param_value(
+                            param.get("id"), param.get("value")
+                        ),
                     )
+                    for param in data_with_area["component"]["parameters"]
+                ]
+            except (KeyError, FileNotFoundError):
+                # The objects required by the model are not defined for this area
+                continue
+
+            components.append(
+                InputComponent(
+                    id=data_with_area["component"]["id"],
+                    model=data_with_area["model"],
+                    parameters=parameters,
                 )
-                connections.append(
-                    InputPortConnections(
-                        component1=data_with_area["component"]["id"],
-                        port1="injection_port",
-                        component2=area.id,
-                        port2="balance_port",
-                    )
+            )
+            connections.append(
+                InputPortConnections(
+                    component1=data_with_area["component"]["id"],
+                    port1="injection_port",
+                    component2=area.id,
+                    port2="balance_port",
                 )
-        except (KeyError, FileNotFoundError) as e:
-            return components, connections
+            )
 
         return components, connections
 
-- 
2.43.0


From cd8c18e59c3d7f9280d29edde4c6811e4035b1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:47 +0000
Subject: [PATCH 18/37] fix: products and quotients in a time shift associate
 to the left

---
 .../expression/parsing/parse_expression.py        | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/andromede/expression/parsing/parse_expression.py b/src/andromede/expression/parsing/parse_expression.py
index 5afb8f6..e5f5ab2 100644
--- a/src/andromede/expression/parsing/parse_expression.py
+++ b/src/andromede/expression/parsing/parse_expression.py
@@ -207,8 +207,19 @@ class ExpressionNodeBuilderVisitor(ExprVisitor):
     # Visit a parse tree produced by ExprParser#shiftMuldiv.
     def visitShiftMuldiv(self, ctx: ExprParser.ShiftMuldivContext) -> ExpressionNode:
         left = ctx.shift_expr().accept(self)  # type: ignore
-        right = ctx.right_expr().accept(self)  # type: ignore
-        op = ctx.op.text  # type: ignore
+        return self._muldiv(left, ctx.op.text, ctx.right_expr())  # type: ignore
+
+    def _muldiv(
+        self, left: ExpressionNode, op: str, right_ctx: ExprParser.Right_exprContext
+    ) -> ExpressionNode:
+        """
+        Multiplications and divisions associate to the left,
+        whereas the grammar groups all the operands on the right of a shift.
+        """
+        if isinstance(right_ctx, ExprParser.RightMuldivContext):
+            left = self._muldiv(left, op, right_ctx.right_expr(0))  # type: ignore
+            return self._muldiv(left, right_ctx.op.text, right_ctx.right_expr(1))  # type: ignore
+        right = right_ctx.accept(self)  # type: ignore
         if op == "*":
             return left * right
         elif op == "/":
-- 
2.43.0


From 02fb0a7cdb9489f0ddb6e0a15688bba1c9b9fe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:48 +0000
Subject: [PATCH 19/37] fix: a decision tree node refused for its probability
 is not attached to its parent

---
 src/andromede/simulation/decision_tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/andromede/simulation/decision_tree.py b/src/andromede/simulation/decision_tree.py
index 9c1ac3c..0f9f858 100644
--- a/src/andromede/simulation/decision_tree.py
+++ b/src/andromede/simulation/decision_tree.py
@@ -58,6 +58,9 @@ class DecisionTreeNode(NodeMixin):
         coupling_network: Optional[Network] = None,
         coupling_info: Optional[CouplingInfo] = None,
     ) -> None:
+        if prob < 0 or 1 < prob:
+            raise ValueError("Probability must be a value in the range [0, 1]")
+
         self.id = id
         self.config = config
         self.network = network
@@ -65,9 +68,6 @@ class DecisionTreeNode(NodeMixin):
         self.coupling_info = coupling_info or CouplingInfo()
         self.parent = parent
 
-        if prob < 0 or 1 < prob:
-            raise ValueError("Probability must be a value in the range [0, 1]")
-
         self.prob = prob * (parent.prob if parent is not None else 1)
         if children:
             self.children = children
-- 
2.43.0


From d3ab3d887b8fe7e0e1dc329376e189ca330d26cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:23 +0000
Subject: [PATCH 20/37] fix: a Benders run after a merged run reads a
 decomposed solution

---
 src/andromede/simulation/benders_decomposed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/simulation/benders_decomposed.py b/src/andromede/simulation/benders_decomposed.py
index 69af497..bf9277f 100644
--- a/src/andromede/simulation/benders_decomposed.py
+++ b/src/andromede/simulation/benders_decomposed.py
@@ -202,10 +202,10 @@ class BendersDecomposedProblem:
             solver_name=solver_name, log_level=log_level, is_debug=show_debug
         )
 
+        self.is_merged = should_merge
         if not should_merge:
             return_code = BendersRunner(self.emplacement).run()
         else:
-            self.is_merged = True
             return_code = MergeMPSRunner(self.emplacement).run()
 
         if return_code == 0:
-- 
2.43.0


From 6d73aca141e017a326e5d66f85d8c6f3b4d0ee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:37 +0000
Subject: [PATCH 21/37] fix: the minimum generation of a thermal cluster is
 computed for each scenario

---
 .../input_converter/src/data_preprocessing/thermal.py        | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/andromede/input_converter/src/data_preprocessing/thermal.py b/src/andromede/input_converter/src/data_preprocessing/thermal.py
index d2be8aa..524a21f 100644
--- a/src/andromede/input_converter/src/data_preprocessing/thermal.py
+++ b/src/andromede/input_converter/src/data_preprocessing/thermal.py
@@ -49,10 +49,7 @@ class ThermalDataPreprocessing:
         nominal_capacity: float = self.thermal.properties.nominal_capacity
         scaled_modulation: pd.Series = modulation_data * nominal_capacity * unit_count
         #  min(min_gen_modulation * unit_count * nominal_capacity, p_max_cluster)
-        min_values: pd.Series = pd.concat([scaled_modulation, series_data], axis=1).min(
-            axis=1
-        )
-        return min_values.to_frame(name="p_min_cluster")
+        return series_data.astype(float).clip(upper=scaled_modulation, axis=0)
 
     def _compute_nb_units_min(self) -> pd.DataFrame:
         p_min_cluster: pd.DataFrame = self._compute_p_min_cluster()
-- 
2.43.0


From 10a4f8cbf1eb35a6018caceb07ee2d0d559d0b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:01 +0000
Subject: [PATCH 22/37] fix: bound the charging of PyPSA storage units by
 p_min_pu

---
 src/andromede/libs/pypsa_models/pypsa_models.yml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/andromede/libs/pypsa_models/pypsa_models.yml b/src/andromede/libs/pypsa_models/pypsa_models.yml
index aa09f12..b0a7f5d 100644
--- a/src/andromede/libs/pypsa_models/pypsa_models.yml
+++ b/src/andromede/libs/pypsa_models/pypsa_models.yml
@@ -351,7 +351,7 @@ library:
           upper-bound: p_nom_max
         - id: p_store
           lower-bound: 0
-          upper-bound: p_max_pu * p_nom_max
+          upper-bound: -p_min_pu * p_nom_max
         - id: p_dispatch
           lower-bound: 0
           upper-bound: p_max_pu * p_nom_max
@@ -374,7 +374,7 @@ library:
           definition: emission_factor * 0 #Since we assume here cyclity of StorageUnits. In the future, for non-cyclic Store: (e[-1] - e[T-1])*emission_factor
       constraints:
         - id: p_store_upper
-          expression: p_store <= p_max_pu * p_nom
+          expression: p_store <= -p_min_pu * p_nom
         - id: p_dispatch_upper
           expression: p_dispatch <= p_max_pu * p_nom
         - id: state_of_charge_upper
-- 
2.43.0


From d05de1f40eb011ead703300460671e1619521289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:01 +0000
Subject: [PATCH 23/37] fix: a PyPSA storage unit spills at most its inflow

---
 src/andromede/libs/pypsa_models/pypsa_models.yml | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/andromede/libs/pypsa_models/pypsa_models.yml b/src/andromede/libs/pypsa_models/pypsa_models.yml
index b0a7f5d..4711cfe 100644
--- a/src/andromede/libs/pypsa_models/pypsa_models.yml
+++ b/src/andromede/libs/pypsa_models/pypsa_models.yml
@@ -360,6 +360,7 @@ library:
           upper-bound: max_hours * p_nom_max
         - id: spill
           lower-bound: 0
+          upper-bound: inflow
       ports:
         - id: p_balance_port
           type: flow
-- 
2.43.0


From 8431384f7978aa6fa786abe966079d6a10272687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:14 +0000
Subject: [PATCH 24/37] fix: the PyPSA converter refuses links with quadratic
 cost or unit commitment

---
 src/andromede/pypsa_converter/pypsa_converter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/andromede/pypsa_converter/pypsa_converter.py b/src/andromede/pypsa_converter/pypsa_converter.py
index 5bfa718..70a9a24 100644
--- a/src/andromede/pypsa_converter/pypsa_converter.py
+++ b/src/andromede/pypsa_converter/pypsa_converter.py
@@ -111,6 +111,10 @@ class PyPSAStudyConverter:
         ### PyPSA components : Links
         if not (all((self.pypsa_network.links["active"] == 1))):
             raise ValueError(f"Converter supports only Links with active = 1")
+        if not (all((self.pypsa_network.links["marginal_cost_quadratic"] == 0))):
+            raise ValueError(f"Converter supports only Links with linear cost")
+        if not (all((self.pypsa_network.links["committable"] == False))):
+            raise ValueError(f"Converter supports only Links with commitable = False")
         ### PyPSA components : Storage Units
         if not (all((self.pypsa_network.storage_units["active"] == 1))):
             raise ValueError(f"Converter supports only Storage Units with active = 1")
-- 
2.43.0


From ae00fae390b01f11031380506afdafa8a1dc1dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:14 +0000
Subject: [PATCH 25/37] fix: the PyPSA converter refuses networks with lines or
 transformers

---
 src/andromede/pypsa_converter/pypsa_converter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/andromede/pypsa_converter/pypsa_converter.py b/src/andromede/pypsa_converter/pypsa_converter.py
index 70a9a24..619225b 100644
--- a/src/andromede/pypsa_converter/pypsa_converter.py
+++ b/src/andromede/pypsa_converter/pypsa_converter.py
@@ -115,6 +115,9 @@ class PyPSAStudyConverter:
             raise ValueError(f"Converter supports only Links with linear cost")
         if not (all((self.pypsa_network.links["committable"] == False))):
             raise ValueError(f"Converter supports only Links with commitable = False")
+        ### PyPSA components : Lines and Transformers
+        if len(self.pypsa_network.lines) > 0 or len(self.pypsa_network.transformers) > 0:
+            raise ValueError(f"Converter does not support Lines and Transformers")
         ### PyPSA components : Storage Units
         if not (all((self.pypsa_network.storage_units["active"] == 1))):
             raise ValueError(f"Converter supports only Storage Units with active = 1")
-- 
2.43.0


From ca5f238f3b7d2ee3960a599e9c4b023ec4b214ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:14 +0000
Subject: [PATCH 26/37] fix: a PyPSA component whose carrier is not described
 has no emissions

---
 src/andromede/pypsa_converter/pypsa_converter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/andromede/pypsa_converter/pypsa_converter.py b/src/andromede/pypsa_converter/pypsa_converter.py
index 619225b..649491d 100644
--- a/src/andromede/pypsa_converter/pypsa_converter.py
+++ b/src/andromede/pypsa_converter/pypsa_converter.py
@@ -206,6 +206,8 @@ class PyPSAStudyConverter:
             ),
         )
         df = getattr(self.pypsa_network, component_type)
+        ### A carrier which is not described has no emissions
+        df["co2_emissions"] = df["co2_emissions"].fillna(0.0)
         ### Adding min and max capacities to non-extendable objects
         for field in [capa_str + "_min", capa_str + "_max"]:
             df.loc[df[capa_str + "_extendable"] == False, field] = df[capa_str]
-- 
2.43.0


From ad73982f9739e40e442102361af86f73392bad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:16 +0000
Subject: [PATCH 27/37] fix: keep the columns of the Benders structure file
 separated for long names

---
 src/andromede/simulation/benders_decomposed.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/andromede/simulation/benders_decomposed.py b/src/andromede/simulation/benders_decomposed.py
index bf9277f..e48c107 100644
--- a/src/andromede/simulation/benders_decomposed.py
+++ b/src/andromede/simulation/benders_decomposed.py
@@ -107,7 +107,10 @@ class BendersDecomposedProblem:
         structure_str = ""
         for problem_name, candidate_to_index in problem_to_candidates.items():
             for candidate, index in candidate_to_index.items():
-                structure_str += f"{problem_name:>50}{candidate:>50}{index:>10}\n"
+                # Columns stay separated even if a name is longer than its column
+                structure_str += (
+                    f"{problem_name:>50}{' ' + candidate:>50}{' ' + str(index):>10}\n"
+                )
 
         return structure_str
 
-- 
2.43.0


From 517c988f21c56777861d03b429c88c5d57204190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:16 +0000
Subject: [PATCH 28/37] fix: come back to the current directory when the solver
 cannot be started

---
 src/andromede/simulation/runner.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/andromede/simulation/runner.py b/src/andromede/simulation/runner.py
index ac52a04..252c954 100644
--- a/src/andromede/simulation/runner.py
+++ b/src/andromede/simulation/runner.py
@@ -45,13 +45,15 @@ class CommandRunner:
             return 0
 
         os.chdir(self.emplacement)
-        res = subprocess.run(
-            [self.current_dir / self.command, *self.arguments],
-            stdout=sys.stdout,
-            stderr=subprocess.DEVNULL,  # TODO For now, to avoid the "Invalid MIT-MAGIC-COOKIE-1 key" error
-            shell=False,
-        )
-        os.chdir(self.current_dir)
+        try:
+            res = subprocess.run(
+                [self.current_dir / self.command, *self.arguments],
+                stdout=sys.stdout,
+                stderr=subprocess.DEVNULL,  # TODO For now, to avoid the "Invalid MIT-MAGIC-COOKIE-1 key" error
+                shell=False,
+            )
+        finally:
+            os.chdir(self.current_dir)
 
         return res.returncode
 
-- 
2.43.0


From 6f5b28005bbc622babe31c369b10402379e79649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:16 +0000
Subject: [PATCH 29/37] fix: Benders decomposition uses the requested border
 management

---
 src/andromede/simulation/benders_decomposed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/andromede/simulation/benders_decomposed.py b/src/andromede/simulation/benders_decomposed.py
index e48c107..07ccddd 100644
--- a/src/andromede/simulation/benders_decomposed.py
+++ b/src/andromede/simulation/benders_decomposed.py
@@ -253,6 +253,7 @@ def build_benders_decomposed_problem(
         null_scenario,
         problem_name="coupler",
         solver_id=solver_id,
+        border_management=border_management,
         build_strategy=InvestmentProblemStrategy(),
         risk_strategy=ExpectedValue(0.0),
         use_full_var_name=False,
@@ -272,6 +273,7 @@ def build_benders_decomposed_problem(
                 null_scenario,
                 problem_name=f"master{suffix_tree}",
                 solver_id=solver_id,
+                border_management=border_management,
                 build_strategy=InvestmentProblemStrategy(),
                 decision_tree_node=tree_node.id,
                 risk_strategy=ExpectedValue(tree_node.prob),
@@ -289,6 +291,7 @@ def build_benders_decomposed_problem(
                     tree_node.config.scenarios,
                     problem_name=f"subproblem{suffix_tree}{suffix_block}",
                     solver_id=solver_id,
+                    border_management=border_management,
                     build_strategy=OperationalProblemStrategy(),
                     decision_tree_node=tree_node.id,
                     risk_strategy=ExpectedValue(tree_node.prob),
-- 
2.43.0


From e4dfadf6ac2ca68caa300dc1f2f1083547e987c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:25 +0000
Subject: [PATCH 30/37] fix: probability of tree nodes that get their parent
 after they are built

---
 src/andromede/simulation/decision_tree.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/andromede/simulation/decision_tree.py b/src/andromede/simulation/decision_tree.py
index 0f9f858..7e8db90 100644
--- a/src/andromede/simulation/decision_tree.py
+++ b/src/andromede/simulation/decision_tree.py
@@ -42,7 +42,6 @@ class DecisionTreeNode(NodeMixin):
     id: str
     config: InterDecisionTimeScenarioConfig
     network: Network
-    prob: float
 
     coupling_network: Network
     coupling_info: CouplingInfo
@@ -68,10 +67,17 @@ class DecisionTreeNode(NodeMixin):
         self.coupling_info = coupling_info or CouplingInfo()
         self.parent = parent
 
-        self.prob = prob * (parent.prob if parent is not None else 1)
+        self._conditional_prob = prob
         if children:
             self.children = children
 
+    @property
+    def prob(self) -> float:
+        # Nodes may get their parent after they are built
+        return self._conditional_prob * (
+            self.parent.prob if self.parent is not None else 1
+        )
+
     def traverse(
         self, depth: Optional[int] = None
     ) -> Generator["DecisionTreeNode", None, None]:
@@ -81,9 +87,9 @@ class DecisionTreeNode(NodeMixin):
         if not self.children:
             return True
 
-        # Since we multiply the child's prob by the parent's prob
-        # in the constructor, the sum of the children prob should
-        # equal 1 * parent.prob if the values were set correctly
+        # Since the child's prob is multiplied by the parent's prob,
+        # the sum of the children prob should equal 1 * parent.prob
+        # if the values were set correctly
         if not math.isclose(self.prob, sum(child.prob for child in self.children)):
             return False
 
-- 
2.43.0


From 4e62a332a6a70e01039b0add26cec3972480c683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:30 +0000
Subject: [PATCH 31/37] fix: the converter's command line writes where asked

---
 src/andromede/input_converter/src/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/andromede/input_converter/src/main.py b/src/andromede/input_converter/src/main.py
index 684c748..c8c9e5d 100644
--- a/src/andromede/input_converter/src/main.py
+++ b/src/andromede/input_converter/src/main.py
@@ -153,7 +153,10 @@ if __name__ == "__main__":
     if args.output_path:
         config_parser.set("study", "output_path", str(args.output_path))
 
+    output_path = config_parser["study"].get("output_path")
     converter = AntaresStudyConverter(
-        study_input=Path(config_parser["study"].get("study_path")), logger=logger
+        study_input=Path(config_parser["study"].get("study_path")),
+        logger=logger,
+        output_path=Path(output_path) / "output.yaml" if output_path else None,
     )
     converter.process_all()
-- 
2.43.0


From 4792617f79b23631ba36ff3ec6a7ece99d44191b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:32 +0000
Subject: [PATCH 32/37] fix: reading table data at a negative time or scenario
 is an error, not a count from the end

---
 src/andromede/study/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/andromede/study/data.py b/src/andromede/study/data.py
index b1eb983..c180ab4 100644
--- a/src/andromede/study/data.py
+++ b/src/andromede/study/data.py
@@ -195,6 +195,9 @@ class TimeScenarioSeriesData(AbstractDataStructure):
             raise KeyError("Time scenario data requires a scenario index.")
         if self.scenarization:
             scenario = self.scenarization.get_scenario_for_year(scenario)
+        if timestep < 0 or scenario < 0:
+            # iloc would count from the end
+            raise IndexError(f"No data at time {timestep} and scenario {scenario}.")
         value = str(self.time_scenario_series.iloc[timestep, scenario])
         return float(value)
 
-- 
2.43.0


From 38ab06d13fcd9f35bb180fb013ebd904662338dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:52 +0000
Subject: [PATCH 33/37] fix: a model that declares a variable, parameter,
 constraint or port field twice is refused

---
 src/andromede/model/model.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/andromede/model/model.py b/src/andromede/model/model.py
index 741a4fb..bd894e6 100644
--- a/src/andromede/model/model.py
+++ b/src/andromede/model/model.py
@@ -17,7 +17,7 @@ defining parameters, variables, and equations.
 """
 import itertools
 from dataclasses import dataclass, field, replace
-from typing import Any, Dict, Iterable, Optional
+from typing import Any, Callable, Dict, Iterable, Optional, TypeVar
 
 from andromede.expression import ExpressionNode
 from andromede.expression.degree import is_linear
@@ -143,6 +143,23 @@ class Model:
         return replace(self, **changes)
 
 
+Key = TypeVar("Key")
+Element = TypeVar("Element")
+
+
+def _by_key(
+    elements: Optional[Iterable[Element]], key: Callable[[Element], Key]
+) -> Dict[Key, Element]:
+    res: Dict[Key, Element] = {}
+    for element in elements or []:
+        if key(element) in res:
+            raise ValueError(
+                f"2 elements have the same name inside the model, it's not authorized : {key(element)}"
+            )
+        res[key(element)] = element
+    return res
+
+
 def model(
     id: str,
     constraints: Optional[Iterable[Constraint]] = None,
@@ -170,17 +187,15 @@ def model(
                 )
     return Model(
         id=id,
-        constraints={c.name: c for c in constraints} if constraints else {},
-        binding_constraints={c.name: c for c in binding_constraints}
-        if binding_constraints
-        else {},
-        parameters={p.name: p for p in parameters} if parameters else {},
-        variables={v.name: v for v in variables} if variables else {},
+        constraints=_by_key(constraints, lambda c: c.name),
+        binding_constraints=_by_key(binding_constraints, lambda c: c.name),
+        parameters=_by_key(parameters, lambda p: p.name),
+        variables=_by_key(variables, lambda v: v.name),
         objective_operational_contribution=objective_operational_contribution,
         objective_investment_contribution=objective_investment_contribution,
         inter_block_dyn=inter_block_dyn,
         ports=existing_port_names,
-        port_fields_definitions={d.port_field: d for d in port_fields_definitions}
-        if port_fields_definitions
-        else {},
+        port_fields_definitions=_by_key(
+            port_fields_definitions, lambda d: d.port_field
+        ),
     )
-- 
2.43.0


From a1fd47c5c17ce15ef7d25578cb0564009ff4d25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:52 +0000
Subject: [PATCH 34/37] fix: a system with an identifier given twice is refused
 instead of losing a component

---
 src/andromede/study/resolve_components.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/andromede/study/resolve_components.py b/src/andromede/study/resolve_components.py
index 7e0a3cf..4acca07 100644
--- a/src/andromede/study/resolve_components.py
+++ b/src/andromede/study/resolve_components.py
@@ -68,6 +68,9 @@ def resolve_system(input_system: InputSystem, libraries: dict[str, Library]) ->
     ]
     nodes = [_resolve_component(libraries, n) for n in input_system.nodes]
     all_components: List[Component] = components_list + nodes
+    ids = [component.id for component in all_components]
+    if len(set(ids)) < len(ids):
+        raise ValueError(f"Several components have the same identifier: {ids}")
     connections = []
     for cnx in input_system.connections:
         resolved_cnx = _resolve_connections(cnx, all_components)
-- 
2.43.0


From 4806785ed11a774a0924945248de1d2026e6fdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:52 +0000
Subject: [PATCH 35/37] fix: subproblems of the same name are refused instead
 of overwriting each other

---
 src/andromede/simulation/benders_decomposed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/andromede/simulation/benders_decomposed.py b/src/andromede/simulation/benders_decomposed.py
index 07ccddd..4e83bb0 100644
--- a/src/andromede/simulation/benders_decomposed.py
+++ b/src/andromede/simulation/benders_decomposed.py
@@ -298,6 +298,10 @@ def build_benders_decomposed_problem(
                 )
             )
 
+    names = [subproblem.name for subproblem in subproblems]
+    if len(set(names)) < len(names):
+        raise ValueError(f"Several subproblems have the same name: {names}")
+
     master = fusion_problems(masters, coupler)
 
     return BendersDecomposedProblem(
-- 
2.43.0


From c9553af25f1933063328e04550cf3397f56de457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:52 +0000
Subject: [PATCH 36/37] fix: rows of the same name keep their own coefficients
 when masters are put together

---
 src/andromede/simulation/optimization.py | 27 ++++++++++++++++--------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 8392f5d..d7b8310 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -19,7 +19,7 @@ import itertools
 import math
 from dataclasses import dataclass
 from enum import Enum
-from typing import Dict, Iterable, List, Optional
+from typing import Dict, Iterable, List, Optional, Set
 
 import ortools.linear_solver.pywraplp as lp
 
@@ -799,8 +799,8 @@ def fusion_problems(
     root_master.name = "master"
 
     root_vars: Dict[str, lp.Variable] = dict()
-    root_constraints: Dict[str, lp.Constraint] = dict()
     root_objective = root_master.solver.Objective()
+    names: Set[str] = set()
 
     # We stock the coupler's variables to check for
     # same name variables in the masters
@@ -812,13 +812,24 @@ def fusion_problems(
         objective = master.solver.Objective()
         root_objective.SetOffset(root_objective.offset() + objective.offset())
 
-        for cstr in master.solver.constraints():
-            key = f"{master.name}_{cstr.name()}"
-            root_constraints[key] = root_master.solver.Constraint(
-                cstr.Lb(), cstr.Ub(), key
+        # Names of constraints are not unique, so we pair them by position
+        constraints = [
+            (
+                cstr,
+                root_master.solver.Constraint(
+                    cstr.Lb(), cstr.Ub(), f"{master.name}_{cstr.name()}"
+                ),
             )
+            for cstr in master.solver.constraints()
+        ]
 
         for var in master.solver.variables():
+            if var.name() in names:
+                raise ValueError(
+                    f"Several variables of the master have the same name {var.name()}"
+                )
+            names.add(var.name())
+
             # If variable not already in coupler, we add it
             # Otherwise we update its upper and lower bounds
             if var.name() not in root_vars:
@@ -841,11 +852,9 @@ def fusion_problems(
                     var.name()
                 ].is_in_objective
 
-            for cstr in master.solver.constraints():
+            for cstr, root_cstr in constraints:
                 coeff = cstr.GetCoefficient(var)
                 if coeff != 0:
-                    key = f"{master.name}_{cstr.name()}"
-                    root_cstr = root_constraints[key]
                     root_cstr.SetCoefficient(root_var, coeff)
 
             obj_coeff = objective.GetCoefficient(var)
-- 
2.43.0


From bdf57b7df16853f387d24d76e5e0e5822a30d64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:52 +0000
Subject: [PATCH 37/37] fix: variables whose full names are equal are refused

---
 src/andromede/simulation/optimization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index d7b8310..071c20c 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -685,6 +685,11 @@ class OptimizationProblem:
                             f"Upper bound ({upper_bound}) must be strictly greater than lower bound ({lower_bound}) for variable {solver_var_name}"
                         )
 
+                    if solver_var_name in self.context._solver_variables:
+                        raise ValueError(
+                            f"Several variables of the problem have the same name {solver_var_name}"
+                        )
+
                     if model_var.data_type == ValueType.BOOLEAN:
                         solver_var = self.solver.BoolVar(
                             solver_var_name,
-- 
2.43.0

