From 1a337067a27f9721e5dd8a4542eb1c21edf82532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 01/42] fix: keep the else/elif branches of if statements in
 equations

---
 numerous/engine/model/ast_parser/ast_visitor.py        |  8 +++++++-
 .../engine/model/ast_parser/equation_from_graph.py     | 10 +++++++---
 numerous/engine/model/graph_representation/graph.py    |  3 ++-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index 4a63abe..b8f3ab8 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -266,10 +266,16 @@ class AstVisitor(ast.NodeVisitor):
     def visit_If(self, node: ast.If) -> Any:
         subgraph_body = ast_to_graph(node.body, self.eq_key, self.eq_file, self.eq_lineno, self.scope_variables)
         subgraph_test = ast_to_graph(node.test, self.eq_key, self.eq_file, self.eq_lineno, self.scope_variables)
+        subgraph_orelse = None
+        if node.orelse:
+            subgraph_orelse = ast_to_graph(node.orelse, self.eq_key, self.eq_file, self.eq_lineno,
+                                           self.scope_variables)
         node = Node(ao=node, file=self.eq_file, name=self.eq_key,
                     ln=self.eq_lineno, label="IF", ast_type=ast.If, node_type=NodeTypes.IF, subgraph_body=subgraph_body,
-                    subgraph_test=subgraph_test)
+                    subgraph_test=subgraph_test, subgraph_orelse=subgraph_orelse)
         subgraph_node_idx = connect_equation_node(subgraph_body, self.graph, node, is_set=False, include_local=True)
+        if subgraph_orelse is not None:
+            connect_equation_node(subgraph_orelse, self.graph, node, is_set=False, include_local=True)
         connect_equation_node(subgraph_test, self.graph, node, is_set=False, include_local=True)
         self.mapped_stack.append([None])
         self.node_number_stack.append(subgraph_node_idx)
diff --git a/numerous/engine/model/ast_parser/equation_from_graph.py b/numerous/engine/model/ast_parser/equation_from_graph.py
index f2dabee..68c63e9 100644
--- a/numerous/engine/model/ast_parser/equation_from_graph.py
+++ b/numerous/engine/model/ast_parser/equation_from_graph.py
@@ -112,8 +112,8 @@ def node_to_ast(n: int, g: MappingsGraph, var_def, ctxread=False, read=True):
         raise
 
 
-def process_if_node(func_body, func_test):
-    return ast.If(body=func_body, test=func_test, orelse=[], lineno=0, col_offset=0)
+def process_if_node(func_body, func_test, func_orelse):
+    return ast.If(body=func_body, test=func_test, orelse=func_orelse, lineno=0, col_offset=0)
 
 
 def process_assign_node(target_nodes, g, var_def, value_ast, na, targets):
@@ -201,7 +201,11 @@ def function_body_from_graph(g, var_def_, lineno_count=1, level=0):
                                                  lineno_count=lineno_count, level=level + 1)
             func_test = compare_expresion_from_graph(g.nodes[n].subgraph_test, var_def_,
                                                      lineno_count=lineno_count)
-            body.append(process_if_node(func_body, func_test))
+            func_orelse = []
+            if g.nodes[n].subgraph_orelse is not None:
+                func_orelse = function_body_from_graph(g.nodes[n].subgraph_orelse, var_def_,
+                                                       lineno_count=lineno_count, level=level + 1)
+            body.append(process_if_node(func_body, func_test, func_orelse))
     return body
 
 
diff --git a/numerous/engine/model/graph_representation/graph.py b/numerous/engine/model/graph_representation/graph.py
index 4572eb5..dee3bd0 100644
--- a/numerous/engine/model/graph_representation/graph.py
+++ b/numerous/engine/model/graph_representation/graph.py
@@ -15,7 +15,7 @@ class Node:
                  label=None, ast_type=None, vectorized=None, item_id=None, node_type=None, ops=None, func=None,
                  id=None, local_id=None, scope_var=None,
                  ast_op=None, value=None, is_set_var=None, set_var_ix=None, subgraph_test=None,
-                 subgraph_body=None, ctx=None):
+                 subgraph_body=None, subgraph_orelse=None, ctx=None):
         self.key = key
         self.ao = ao
         self.file = file
@@ -38,6 +38,7 @@ class Node:
         self.deleted = False
         self.subgraph_test = subgraph_test
         self.subgraph_body = subgraph_body
+        self.subgraph_orelse = subgraph_orelse
         self.node_n = -1
         self.ctx = ctx
 
-- 
2.43.0


From 4cb131fa14b97df030a7cf35619fc72dd5197603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 02/42] fix: connect an equation to a variable once when it is
 also used inside an if

---
 .../engine/model/ast_parser/ast_visitor.py    | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index b8f3ab8..178e275 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -283,6 +283,13 @@ class AstVisitor(ast.NodeVisitor):
 
 def connect_equation_node(equation_graph, mappings_graph, node, is_set, include_local=False):
     eq_node_idx = mappings_graph.add_node(node)
+    # a scope variable used inside an if statement has several nodes in the equation graph
+    targeted_ids = set()
+    connected = set()
+    for n in range(equation_graph.node_counter):
+        if equation_graph.nodes[n].node_type == NodeTypes.VAR and equation_graph.nodes[n].scope_var:
+            if next(equation_graph.get_edges_for_node(end_node=n), None) is not None:
+                targeted_ids.add(equation_graph.nodes[n].scope_var.id)
     for n in range(equation_graph.node_counter):
         if equation_graph.nodes[n].node_type == NodeTypes.VAR:
             if equation_graph.nodes[n].scope_var:
@@ -291,24 +298,19 @@ def connect_equation_node(equation_graph, mappings_graph, node, is_set, include_
                                                    is_set_var=is_set, label=sv.get_path_dot()),
                                               ignore_existing=True)
 
-                targeted = False
-                read = False
-
-                end_edges = equation_graph.get_edges_for_node(end_node=n)
+                if sv.id in connected:
+                    continue
 
-                try:
-                    next(end_edges)
+                if sv.id in targeted_ids:
                     mappings_graph.add_edge(
                         Edge(start=eq_node_idx, end=neq, e_type=EdgeType.TARGET, arg_local=sv.id))
-                    targeted = True
-                except StopIteration:
-                    pass
-
-                if not targeted and not read:
+                    connected.add(sv.id)
+                else:
                     start_edges = equation_graph.get_edges_for_node(start_node=n)
                     try:
                         next(start_edges)
                         mappings_graph.add_edge(Edge(neq, eq_node_idx, e_type=EdgeType.ARGUMENT, arg_local=sv.id))
+                        connected.add(sv.id)
                     except StopIteration:
                         pass
 
-- 
2.43.0


From d45b5652fd5864bb5565b16fabcd01aa62c098ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 03/42] fix: translate the whole condition of an if statement,
 with and, or and not

---
 .../engine/model/ast_parser/ast_visitor.py    | 13 ++++++++++++
 .../model/ast_parser/equation_from_graph.py   | 21 +++++++++----------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index 178e275..5e2a4c7 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -7,6 +7,7 @@ from numerous.engine.model.graph_representation.utils import str_to_edgetype, Ed
 from numerous.engine.model.utils import NodeTypes, recurse_Attribute
 
 op_sym_map = {ast.Add: '+', ast.Sub: '-', ast.Div: '/', ast.Mult: '*', ast.Pow: '**', ast.USub: '*-1',
+              ast.UAdd: '*1', ast.Not: 'not', ast.And: 'and', ast.Or: 'or',
               ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}
 
 
@@ -234,6 +235,18 @@ class AstVisitor(ast.NodeVisitor):
         self.graph.add_edge(Edge(start=start[0], e_type=EdgeType.OPERAND, end=en, branches=self.branches.copy()))
         self.node_number_stack.append([en])
 
+    def visit_BoolOp(self, node: ast.BoolOp) -> Any:
+        en = self.graph.add_node(Node(ao=node, file=self.eq_file, name=self.eq_key, ln=self.eq_lineno,
+                                      label=get_op_sym(node.op), ast_type=ast.BoolOp, node_type=NodeTypes.OP,
+                                      ast_op=node.op))
+        for value in node.values:
+            self.traverse(value)
+            start = self.node_number_stack.pop()
+            self.mapped_stack.pop()
+            self.graph.add_edge(Edge(start=start[0], end=en, e_type=EdgeType.ELEMENT, branches=self.branches.copy()))
+        self.mapped_stack.append([None])
+        self.node_number_stack.append([en])
+
     def visit_Compare(self, node: ast.Compare) -> Any:
         ops_sym = [get_op_sym(o) for o in node.ops]
         en = self.graph.add_node(Node(ao=node, file=self.eq_file, name=self.eq_key, ln=self.eq_lineno,
diff --git a/numerous/engine/model/ast_parser/equation_from_graph.py b/numerous/engine/model/ast_parser/equation_from_graph.py
index 68c63e9..9469ff1 100644
--- a/numerous/engine/model/ast_parser/equation_from_graph.py
+++ b/numerous/engine/model/ast_parser/equation_from_graph.py
@@ -85,6 +85,11 @@ def node_to_ast(n: int, g: MappingsGraph, var_def, ctxread=False, read=True):
             ast_Comp = ast.Compare(left=left_ast, comparators=comp_ast, ops=g.nodes[n].ops, lineno=0, col_offset=0)
 
             return ast_Comp
+        elif na == ast.BoolOp:
+            values = [ii[0] for ii in g.get_edges_type_for_node_filter(end_node=n, val=EdgeType.ELEMENT)[1]]
+            values_ast = [node_to_ast(v, g, var_def, ctxread=ctxread) for v in values]
+            return ast.BoolOp(values=values_ast, op=g.nodes[n].ast_op, lineno=0, col_offset=0)
+
         elif na == ast.Subscript:
             val_node = g.get_edges_type_for_node_filter(end_node=n, val=EdgeType.SUBSCRIPT_VALUE)[1][0][0]
 
@@ -170,15 +175,10 @@ def function_from_graph_generic(g: MappingsGraph, var_def_, arg_metadata, replac
     return func_result, var_def_.get_order_args(), target_ids
 
 
-def compare_expresion_from_graph(g, var_def_, lineno_count=1):
-    top_nodes = g.topological_nodes()
-    var_def = var_def_.var_def
-    body = []
-    for n in top_nodes:
-        lineno_count += 1
-        if g.nodes[n].ast_type == ast.Compare:
-            body.append(node_to_ast(n, g, var_def, ctxread=True))
-    return body
+def if_test_from_graph(g, var_def_):
+    # the test of an if statement is the only node which is not used by another node
+    root, = [n for n in range(len(g.nodes)) if next(g.get_edges_for_node(start_node=n), None) is None]
+    return node_to_ast(root, g, var_def_.var_def, ctxread=True)
 
 
 def function_body_from_graph(g, var_def_, lineno_count=1, level=0):
@@ -199,8 +199,7 @@ def function_body_from_graph(g, var_def_, lineno_count=1, level=0):
         if g.nodes[n].ast_type == ast.If:
             func_body = function_body_from_graph(g.nodes[n].subgraph_body, var_def_,
                                                  lineno_count=lineno_count, level=level + 1)
-            func_test = compare_expresion_from_graph(g.nodes[n].subgraph_test, var_def_,
-                                                     lineno_count=lineno_count)
+            func_test = if_test_from_graph(g.nodes[n].subgraph_test, var_def_)
             func_orelse = []
             if g.nodes[n].subgraph_orelse is not None:
                 func_orelse = function_body_from_graph(g.nodes[n].subgraph_orelse, var_def_,
-- 
2.43.0


From ca0dbae6ab01f13af8aaa7acb9704d0dca416e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 04/42] fix: pass keyword arguments of function calls in
 equations

---
 numerous/engine/model/ast_parser/ast_visitor.py  |  8 ++++++++
 .../model/ast_parser/equation_from_graph.py      | 16 ++++++++++------
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index 5e2a4c7..4c547c3 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -63,6 +63,14 @@ class AstVisitor(ast.NodeVisitor):
             self.mapped_stack.pop()
             self.graph.add_edge(Edge(start=start[0], end=en[0],
                                      e_type=EdgeType.ARGUMENT, branches=self.branches.copy()))
+        for kw in node.keywords:
+            if kw.arg is None:
+                raise NotImplementedError('** arguments are not supported in equations')
+            self.traverse(kw.value)
+            start = self.node_number_stack.pop()
+            self.mapped_stack.pop()
+            self.graph.add_edge(Edge(start=start[0], end=en[0], label=kw.arg,
+                                     e_type=EdgeType.ARGUMENT, branches=self.branches.copy()))
         self.mapped_stack.append([None])
         self.node_number_stack.append(en)
 
diff --git a/numerous/engine/model/ast_parser/equation_from_graph.py b/numerous/engine/model/ast_parser/equation_from_graph.py
index 9469ff1..79934c1 100644
--- a/numerous/engine/model/ast_parser/equation_from_graph.py
+++ b/numerous/engine/model/ast_parser/equation_from_graph.py
@@ -46,13 +46,17 @@ def node_to_ast(n: int, g: MappingsGraph, var_def, ctxread=False, read=True):
 
         elif na == ast.Call:
 
-            args = [ii[0] for ii in g.get_edges_type_for_node_filter(end_node=n, val=EdgeType.ARGUMENT)[1]]
             args_ast = []
-            for a in args:
-                a_ast = node_to_ast(a, g, var_def, ctxread=ctxread)
-                args_ast.append(a_ast)
-
-            ast_Call = ast.Call(args=args_ast, func=g.nodes[n].func, keywords=[], lineno=0, col_offset=0)
+            keywords_ast = []
+            for edge_ix, edge in zip(*g.get_edges_type_for_node_filter(end_node=n, val=EdgeType.ARGUMENT)):
+                a_ast = node_to_ast(edge[0], g, var_def, ctxread=ctxread)
+                keyword = g.edges_c[edge_ix].label
+                if keyword is None:
+                    args_ast.append(a_ast)
+                else:
+                    keywords_ast.append(ast.keyword(arg=keyword, value=a_ast))
+
+            ast_Call = ast.Call(args=args_ast, func=g.nodes[n].func, keywords=keywords_ast, lineno=0, col_offset=0)
 
             return ast_Call
 
-- 
2.43.0


From 639044d54ca802b31eac7f2f1ce10dafe3a12594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 05/42] fix: internal graph keys cannot collide with names of
 local variables in equations

---
 numerous/engine/model/graph_representation/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/model/graph_representation/utils.py b/numerous/engine/model/graph_representation/utils.py
index 9cda352..5e28ed9 100644
--- a/numerous/engine/model/graph_representation/utils.py
+++ b/numerous/engine/model/graph_representation/utils.py
@@ -8,7 +8,7 @@ class TemporaryKeyGenerator:
 
     def generate(self):
         self.tmp_ += 1
-        return f'tmp{self.tmp_}'
+        return f'#tmp{self.tmp_}'  # not a valid name of a variable
 
 
 class Vardef:
-- 
2.43.0


From 2eca20951436618d27fa86eea7a9ddb7e67ccedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 06/42] fix: refuse statements in equations which were silently
 dropped or executed once

---
 numerous/engine/model/ast_parser/ast_visitor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index 4c547c3..c374f45 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -47,6 +47,12 @@ class AstVisitor(ast.NodeVisitor):
     def visit(self, node: ast.AST):
         self.traverse(node)
 
+    def generic_visit(self, node: ast.AST):
+        if isinstance(node, (ast.For, ast.While, ast.AnnAssign, ast.Return, ast.With, ast.Try,
+                             ast.comprehension)):
+            raise NotImplementedError(f'{type(node).__name__} is not supported in equations')
+        super().generic_visit(node)
+
     def visit_Module(self, node: ast.Module):
         self.traverse(node.body)
 
-- 
2.43.0


From 597002d3ffeab7a3b177877501ed338d7ca89dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 07/42] fix: a second assignment to a mapped variable in an
 equation replaces the first

---
 .../engine/model/ast_parser/equation_from_graph.py  | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/numerous/engine/model/ast_parser/equation_from_graph.py b/numerous/engine/model/ast_parser/equation_from_graph.py
index 79934c1..64b4800 100644
--- a/numerous/engine/model/ast_parser/equation_from_graph.py
+++ b/numerous/engine/model/ast_parser/equation_from_graph.py
@@ -125,12 +125,11 @@ def process_if_node(func_body, func_test, func_orelse):
     return ast.If(body=func_body, test=func_test, orelse=func_orelse, lineno=0, col_offset=0)
 
 
-def process_assign_node(target_nodes, g, var_def, value_ast, na, targets):
+def process_assign_node(target_nodes, g, var_def, value_ast):
     if len(target_nodes) > 1:
         target_ast = []
         for target_node in target_nodes:
             target_ast.append(node_to_ast(target_node[1], g, var_def, read=False))
-            targets.append(target_node[1])
         ast_assign = ast.Assign(targets=[ast.Tuple(elts=target_ast, lineno=0, col_offset=0, ctx=ast.Store())],
                                 value=value_ast, lineno=0, col_offset=0)
         return ast_assign
@@ -138,12 +137,7 @@ def process_assign_node(target_nodes, g, var_def, value_ast, na, targets):
         target_node = target_nodes[0][1]
         target_ast = node_to_ast(target_node, g, var_def, read=False)
         if value_ast and target_ast:
-            if na == ast.Assign or target_node not in targets:
-                targets.append(target_node)
-                ast_assign = ast.Assign(targets=[target_ast], value=value_ast, lineno=0, col_offset=0)
-            else:
-                ast_assign = ast.AugAssign(target=target_ast, value=value_ast, lineno=0, col_offset=0, op=ast.Add())
-            return ast_assign
+            return ast.Assign(targets=[target_ast], value=value_ast, lineno=0, col_offset=0)
 
 
 def generate_return_statement(var_def_, g):
@@ -190,7 +184,6 @@ def function_body_from_graph(g, var_def_, lineno_count=1, level=0):
     top_nodes = range(0, len(g.nodes))
     var_def = var_def_.var_def
     body = []
-    targets = []
     for n in top_nodes:
         lineno_count += 1
         if (at := g.nodes[n].ast_type) == ast.Assign or at == ast.AugAssign:
@@ -199,7 +192,7 @@ def function_body_from_graph(g, var_def_, lineno_count=1, level=0):
             value_ast = node_to_ast(value_node, g, var_def, ctxread=True)
             body.append(process_assign_node(g.get_edges_type_for_node_filter(start_node=n,
                                                                              val=EdgeType.TARGET)[1],
-                                            g, var_def, value_ast, at, targets))
+                                            g, var_def, value_ast))
         if g.nodes[n].ast_type == ast.If:
             func_body = function_body_from_graph(g.nodes[n].subgraph_body, var_def_,
                                                  lineno_count=lineno_count, level=level + 1)
-- 
2.43.0


From 6df4171d533a299178b28fa626b62c2c945e992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 08/42] fix: chained and tuple assignments in equations,
 conditions that are a single variable

---
 .../engine/model/ast_parser/ast_visitor.py    | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index c374f45..d1917a9 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -142,7 +142,27 @@ class AstVisitor(ast.NodeVisitor):
 
         self.visit_Assign(new_assign)
 
+    def _assign(self, target, value):
+        self.visit_Assign(ast.Assign(targets=[target], value=value))
+
     def visit_Assign(self, node: ast.Assign):
+        if len(node.targets) > 1:
+            # a = b = value: the first target gets the value, the others a copy of it
+            self._assign(node.targets[0], node.value)
+            for target in node.targets[1:]:
+                self._assign(target, node.targets[0])
+            return
+        if isinstance(node.targets[0], ast.Tuple) and isinstance(node.value, ast.Tuple):
+            # all values are evaluated before the first target is assigned
+            target_ids = {ast.unparse(el) for el in node.targets[0].elts}
+            if any(ast.unparse(n) in target_ids for el in node.value.elts for n in ast.walk(el)
+                   if isinstance(n, (ast.Name, ast.Attribute))):
+                values = [ast.Name(id=f'_tuple_value_{i}') for i in range(len(node.value.elts))]
+                for value, el in zip(values, node.value.elts):
+                    self._assign(value, el)
+                for target, value in zip(node.targets[0].elts, values):
+                    self._assign(target, value)
+                return
         for target in node.targets:
             if self._is_assign_target_supported(target):
                 self.traverse(target)
@@ -333,13 +353,8 @@ def connect_equation_node(equation_graph, mappings_graph, node, is_set, include_
                         Edge(start=eq_node_idx, end=neq, e_type=EdgeType.TARGET, arg_local=sv.id))
                     connected.add(sv.id)
                 else:
-                    start_edges = equation_graph.get_edges_for_node(start_node=n)
-                    try:
-                        next(start_edges)
-                        mappings_graph.add_edge(Edge(neq, eq_node_idx, e_type=EdgeType.ARGUMENT, arg_local=sv.id))
-                        connected.add(sv.id)
-                    except StopIteration:
-                        pass
+                    mappings_graph.add_edge(Edge(neq, eq_node_idx, e_type=EdgeType.ARGUMENT, arg_local=sv.id))
+                    connected.add(sv.id)
 
             elif include_local and equation_graph.nodes[n].key and \
                     not equation_graph.nodes[n].ast_type == ast.Constant:
-- 
2.43.0


From 515ed5ed27117554f4a622cd5ce2a38c159603cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 09/42] fix: edge queries for the first node of the mappings
 graph

---
 .../engine/model/graph_representation/graph.py   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/numerous/engine/model/graph_representation/graph.py b/numerous/engine/model/graph_representation/graph.py
index dee3bd0..0a2b377 100644
--- a/numerous/engine/model/graph_representation/graph.py
+++ b/numerous/engine/model/graph_representation/graph.py
@@ -131,9 +131,9 @@ class Graph:
         return edge_n
 
     def set_edge(self, edge, start=None, end=None):
-        if start:
+        if start is not None:
             self.edges[edge, 0] = start
-        if end:
+        if end is not None:
             self.edges[edge, 1] = end
 
     def remove_node(self, node_n):
@@ -177,7 +177,7 @@ class Graph:
         return zip(np.argwhere(end_ix), end_)
 
     def get_edges_type_for_node_filter(self, start_node: int = None, end_node: int = None, val=None):
-        if start_node and end_node:
+        if start_node is not None and end_node is not None:
             raise ValueError('arg cant have both start and end!')
         ix = []
         if not self.node_edges:
@@ -207,15 +207,15 @@ class Graph:
 
     def has_edge_for_nodes(self, start_node=None, end_node=None):
 
-        if start_node and end_node:
+        if start_node is not None and end_node is not None:
             return np.where(
                 (self.edges[:self.edge_counter, 0] == start_node) & (self.edges[:self.edge_counter, 1] == end_node))[0]
 
-        if start_node:
-            return start_node in self.edges[:, 0]
+        if start_node is not None:
+            return start_node in self.edges[:self.edge_counter, 0]
 
-        if end_node:
-            return end_node in self.edges[:, 1]
+        if end_node is not None:
+            return end_node in self.edges[:self.edge_counter, 1]
 
     def clone(self):
         from copy import deepcopy
-- 
2.43.0


From 7f8b54cde32f9471aa00b19c4545f851c204aabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 10/42] fix: a second set of items of the same class uses its
 own variables

---
 numerous/engine/model/ast_parser/parser_ast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numerous/engine/model/ast_parser/parser_ast.py b/numerous/engine/model/ast_parser/parser_ast.py
index 267076c..02ec460 100644
--- a/numerous/engine/model/ast_parser/parser_ast.py
+++ b/numerous/engine/model/ast_parser/parser_ast.py
@@ -1,7 +1,7 @@
 import ast
 from textwrap import dedent
 
-from numerous.engine.variables import Variable
+from numerous.engine.variables import Variable, SetOfVariables
 from numerous.engine.model.ast_parser.ast_visitor import ast_to_graph, connect_equation_node
 from numerous.engine.model.graph_representation import Graph, EdgeType, Node, Edge
 from numerous.engine.model.utils import NodeTypes
@@ -76,7 +76,7 @@ def qualify_equation(prefix, g, tag_vars, eq_class, eq_current):
     g_qual.node_map = {q(k): v for k, v in g_qual.node_map.items()}
     g_qual.key_map = {k: q(v) for k, v in g_qual.key_map.items()}
 
-    scope_vars_qual = [tag_vars[sv.tag] if isinstance(sv := g.nodes[n].scope_var, Variable) else sv
+    scope_vars_qual = [tag_vars[sv.tag] if isinstance(sv := g.nodes[n].scope_var, (Variable, SetOfVariables)) else sv
                        for n in g.node_map.values()]
 
     for i in range(g_qual.node_counter):
-- 
2.43.0


From 839a32cbfff28a2f77c9c977e88d0e0b143fcae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 11/42] fix: call set equations per item when the variables are
 not stored contiguously

---
 numerous/engine/model/lowering/ast_builder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/numerous/engine/model/lowering/ast_builder.py b/numerous/engine/model/lowering/ast_builder.py
index 0dd2d38..3557f49 100644
--- a/numerous/engine/model/lowering/ast_builder.py
+++ b/numerous/engine/model/lowering/ast_builder.py
@@ -295,6 +295,12 @@ class ASTBuilder:
             return ast.Constant(value=0, kind=None)
 
     def add_set_call(self, external_function_name, variable_name_arg_and_trg, targets_ids):
+        indices = [self.variable_names[name] for names in variable_name_arg_and_trg for name in names]
+        if indices != list(range(indices[0], indices[0] + len(indices))):
+            # the variables of the items are not stored one after the other, so they cannot be looped over
+            for names in variable_name_arg_and_trg:
+                self.add_call(external_function_name, [VariableArgument(name, False) for name in names], targets_ids)
+            return
         temp = (ast.For(target=ast.Name(id='i', ctx=ast.Store()),
                         iter=ast.Call(func=ast.Name(id='range', ctx=ast.Load()),
                                       args=[ast.Constant(value=len(variable_name_arg_and_trg))], keywords=[]),
-- 
2.43.0


From 6bc2b707d8a6b786c796fcbbf195c5522329cedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 12/42] fix: unused and global variables in the equations of
 sets

---
 .../model/lowering/equations_generator.py     | 40 ++++++++++++++-----
 numerous/engine/variables.py                  |  1 +
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/numerous/engine/model/lowering/equations_generator.py b/numerous/engine/model/lowering/equations_generator.py
index 1aec9da..3ed5463 100644
--- a/numerous/engine/model/lowering/equations_generator.py
+++ b/numerous/engine/model/lowering/equations_generator.py
@@ -134,7 +134,7 @@ class EquationGenerator:
         log.info('Making equations for compilation')
 
         for eq_key, eq in equations.items():
-            vardef = Vardef(eq_key, llvm=self.llvm, exclude_global_var=eq.is_set)
+            vardef = Vardef(eq_key, llvm=self.llvm)
 
             eq.graph.lower_graph = None
             if self.llvm:
@@ -174,6 +174,14 @@ class EquationGenerator:
                 return var_id
         raise ValueError("No variable found for id {}", var_id)
 
+    def search_in_set_scope(self, set_var_id, known_set_var):
+        tag = self.set_variables[set_var_id].tag
+        namespaces = [v.namespace for v in known_set_var.variables.values()]
+        for set_var in self.set_variables.values():
+            if set_var.tag == tag and [v.namespace for v in set_var.variables.values()] == namespaces:
+                return set_var
+        raise ValueError("No set variable found for id {}", set_var_id)
+
     def _process_equation_node(self, n):
         eq_name = self.equation_graph.nodes[n].name
 
@@ -207,7 +215,8 @@ class EquationGenerator:
         if self.equation_graph.nodes[n].vectorized:
 
             # Map of scope.?? vars and set variable names
-            scope_vars = {'scope.' + self.set_variables[k].tag: v for k, v in
+            scope_vars = {'scope.' + (self.set_variables[k] if k in self.set_variables
+                                      else self.scope_variables[k]).tag: v for k, v in
                           zip(args_scope_var + targets_scope_var, args_local + targets_local)}
 
             # Put the information of args and targets in the scope_var attr of the graph node for those equation
@@ -226,18 +235,27 @@ class EquationGenerator:
         # Generate ast for this equation callcompiled_function_from_graph_generic_llvm
         if self.equation_graph.nodes[n].vectorized:
 
+            # a set variable used by this equation: all others belong to the same items and namespace
+            known_set_var = next(self.set_variables[v] for v in scope_vars.values() if v in self.set_variables)
             llvm_args = []
-            for t in vardef.args_order:
-                if not t.is_global_var:
-                    llvm_args_ = []
-                    set_var = self.set_variables[scope_vars[t[0]]]
-                    for i in range(set_var.get_size()):
-                        llvm_args_.append(set_var.get_var_by_idx(i).id)
-                    llvm_args.append(llvm_args_)
+            for a in vardef.args_order:
+                if a.is_global_var:
+                    llvm_args.append([VariableArgument(d_u(scope_vars.get(a.name, a.name)), True)
+                                      ] * known_set_var.get_size())
+                    continue
+                set_var = self.set_variables[scope_vars[a.name]] if a.name in scope_vars else \
+                    self.search_in_set_scope(a.name, known_set_var)
+                llvm_args.append([VariableArgument(d_u(set_var.get_var_by_idx(i).id), False)
+                                  for i in range(set_var.get_size())])
             # reshape to correct format
             llvm_args = [list(x) for x in zip(*llvm_args)]
-            self.generated_program.add_set_call(self.get_external_function_name(ext_func), llvm_args,
-                                                vardef.llvm_target_ids)
+            func_name = self.get_external_function_name(ext_func)
+            if any(a.is_global_var for a in vardef.args_order):
+                for args in llvm_args:
+                    self.generated_program.add_call(func_name, args, vardef.llvm_target_ids)
+            else:
+                self.generated_program.add_set_call(func_name, [[a.name for a in args] for args in llvm_args],
+                                                    vardef.llvm_target_ids)
         else:
             # Generate llvm arguments
             args = []
diff --git a/numerous/engine/variables.py b/numerous/engine/variables.py
index 8e3d885..9105165 100644
--- a/numerous/engine/variables.py
+++ b/numerous/engine/variables.py
@@ -144,6 +144,7 @@ class SetOfVariables:
         self.global_var = False
         self.global_var_idx = False
         self.eq_used = []
+        self.used_in_equation_graph = False
 
     def get_size(self):
         return self.size
-- 
2.43.0


From b73dfc75f9c1229b316cd063af3d9abae4472b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 13/42] fix: sums and mappings onto variables of items in sets

---
 .../engine/model/graph_representation/mappings_graph.py   | 3 ++-
 numerous/engine/model/lowering/equations_generator.py     | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/numerous/engine/model/graph_representation/mappings_graph.py b/numerous/engine/model/graph_representation/mappings_graph.py
index 43d3eed..caff17d 100644
--- a/numerous/engine/model/graph_representation/mappings_graph.py
+++ b/numerous/engine/model/graph_representation/mappings_graph.py
@@ -29,6 +29,7 @@ class TemporarySetVar:
 
     def __init__(self, id, set_var):
         self.id = id
+        self.tag = set_var.tag
         self.tmp_vars = []
         self.type = VariableType.TMP_PARAMETER_SET
         self.set_var = set_var
@@ -116,7 +117,7 @@ class MappingsGraph(Graph):
                         tsv = TemporarySetVar(tmp_key, sv)
                         for svi in sv.variables.values():
                             tmp_var_counter += 1
-                            svf = TemporaryVar('tmp_var_' + str(tmp_var_counter), svi,
+                            svf = TemporaryVar('tmp_var_' + str(tmp_var_counter) + '_' + str(sv.id), svi,
                                                svi.tag + '_' + str(sv.id), svi.set_var, svi.set_var_ix)
                             tsv.tmp_vars.append(svf)
                         fake_sv[tsv.id] = tsv
diff --git a/numerous/engine/model/lowering/equations_generator.py b/numerous/engine/model/lowering/equations_generator.py
index 3ed5463..9604dec 100644
--- a/numerous/engine/model/lowering/equations_generator.py
+++ b/numerous/engine/model/lowering/equations_generator.py
@@ -331,7 +331,8 @@ class EquationGenerator:
                 for set_variable in mappings[':']:
                     for k in range(self.set_variables[set_variable].size):
                         target_var_name = self.set_variables[t_sv.id].get_var_by_idx(k).id
-                        mappings_llvm[target_var_name] = [self.set_variables[set_variable].get_var_by_idx(k).id]
+                        mappings_llvm.setdefault(target_var_name, []).append(
+                            self.set_variables[set_variable].get_var_by_idx(k).id)
             for m_ix in mappings['ix']:
                 for k, v in m_ix[1].items():
                     target_var_name = self.set_variables[t_sv.id].get_var_by_idx(k).id
@@ -346,7 +347,8 @@ class EquationGenerator:
                             else:
                                 raise ValueError(f'Variable  {m_ix[0]} mapping not found')
             for k, v in mappings_llvm.items():
-                self.generated_program.add_mapping(v, [k])
+                self.generated_program.add_mapping([VariableArgument(d_u(arg), False) for arg in v],
+                                                   [VariableArgument(d_u(k), False)])
         else:
             # Register targeted variables
             is_set_var = self.equation_graph.nodes[t].is_set_var
@@ -383,7 +385,7 @@ class EquationGenerator:
                             mapping_dict[target_var] = [VariableArgument(var_name, False)]
                     else:
                         if var_name in self.set_variables:
-                            if var_name in mapping_dict:
+                            if target_var in mapping_dict:
                                 mapping_dict[target_var].append(
                                     VariableArgument(self.set_variables[var_name].get_var_by_idx(v[1]).id, False))
                             else:
-- 
2.43.0


From 9fcaf310b4c2973abf48e11bf0756fd6e99b30f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:23 +0000
Subject: [PATCH 14/42] fix: order the derivatives as the states they belong to

---
 numerous/engine/model/lowering/equations_generator.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/numerous/engine/model/lowering/equations_generator.py b/numerous/engine/model/lowering/equations_generator.py
index 9604dec..779746b 100644
--- a/numerous/engine/model/lowering/equations_generator.py
+++ b/numerous/engine/model/lowering/equations_generator.py
@@ -35,6 +35,13 @@ class EquationGenerator:
             elif sv.type == VariableType.DERIVATIVE:
                 self.deriv.append(full_tag)
 
+        # the derivatives follow the order of the states they belong to
+        states = [v for v in self.scope_variables.values() if v.type == VariableType.STATE]
+        state_order = {(v.namespace, v.tag + '_dot'): i for i, v in enumerate(states)}
+        deriv_order = {d_u(v.id): state_order.get((v.namespace, v.tag), len(state_order))
+                       for v in self.scope_variables.values() if v.type == VariableType.DERIVATIVE}
+        self.deriv.sort(key=deriv_order.get)
+
         for k, var in temporary_variables.items():
             if var.type == VariableType.TMP_PARAMETER_SET:
                 self.set_variables.update({k: var})
@@ -415,9 +422,9 @@ class EquationGenerator:
         deriv_idx = []
         state_idx = []
         save_to_file = export_model or clonable
+        for k in self.deriv:
+            deriv_idx.append(self.values_order[k])
         for k, v in self.values_order.items():
-            if k in self.deriv:
-                deriv_idx.append(v)
             if k in self.states:
                 state_idx.append(v)
         if self.llvm:
-- 
2.43.0


From 2f7a5336c7ff8c80cf5b013d4f0892f852a7dc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 15/42] fix: read variables by name in models with temporary
 variables

---
 numerous/engine/model/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 6b97b0b..17f933e 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -442,7 +442,8 @@ class Model:
             self.var_write(v, self.vars_ordered_values[var_id])
 
     def get_variables_initial_values(self):
-        return {self.inverse_aliases[k]: v for k, v in self._initial_variables_dict.items()}
+        return {self.inverse_aliases[k]: v for k, v in self._initial_variables_dict.items()
+                if k in self.inverse_aliases}
 
     def lower_model_codegen(self, tmp_vars):
 
@@ -494,7 +495,8 @@ class Model:
 
         def c5():
             vals = var_func()
-            return {self.inverse_aliases[k]: v for k, v in zip(self.vars_ordered_values.keys(), vals)}
+            return {self.inverse_aliases[k]: v for k, v in zip(self.vars_ordered_values.keys(), vals)
+                    if k in self.inverse_aliases}
 
         setattr(self, "update_variables", c4)
         setattr(self, "get_variables", c5)
@@ -841,7 +843,8 @@ class Model:
 
         def c5():
             vals = var_func()
-            return {self.inverse_aliases[k]: v for k, v in zip(self.vars_ordered_values.keys(), vals)}
+            return {self.inverse_aliases[k]: v for k, v in zip(self.vars_ordered_values.keys(), vals)
+                    if k in self.inverse_aliases}
 
         setattr(self, "update_variables", c4)
         setattr(self, "get_variables", c5)
-- 
2.43.0


From ac89cbbd51bada28e0a0c6ac8d86c29bdcde56f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 16/42] fix: names in event functions refer to the item of the
 event first

---
 numerous/engine/model/events.py | 37 +++++++++++++++------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/numerous/engine/model/events.py b/numerous/engine/model/events.py
index 50612b8..6121189 100644
--- a/numerous/engine/model/events.py
+++ b/numerous/engine/model/events.py
@@ -63,42 +63,39 @@ class VariablesVisitor(ast.NodeVisitor):
             self.variables_name = node.args.args[1].arg
 
         if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Constant):
-            if node.value.id != self.variables_name:
+            if not self._is_variables(node.value):
                 return ast.NodeVisitor.generic_visit(self, node)
 
             if isinstance(node.slice.value, str):
-                for (var_path, var) in self.model.path_to_variable.items():
-                    if var_path.startswith(self.path_to_root_str):
-                        var_path = var_path[len(self.path_to_root_str):]
-                    if var_path == node.slice.value:
-                        node.slice.value = self.model._get_var_idx(var, self.idx_type)[0]
-                        break
-            if isinstance(node.slice.value, str):
-                raise KeyError(f'No such variable: {node.slice.value}')
+                node.slice.value = self._get_idx(node.slice.value)
 
         elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Name):
-            if node.value.id != self.variables_name:
+            if not self._is_variables(node.value):
                 return ast.NodeVisitor.generic_visit(self, node)
 
-            found = False
             if node.slice.id not in self.assigned_variables:
                 raise KeyError(f"Variable {node.slice.id} is not assigned a value")
 
-            for (var_path, var) in self.model.path_to_variable.items():
-                if var_path.startswith(self.path_to_root_str):
-                    var_path = var_path[len(self.path_to_root_str):]
-                if var_path == self.assigned_variables[node.slice.id]:
-                    node.slice = ast.Constant(value=self.model._get_var_idx(var, self.idx_type)[0])
-                    found = True
-                    break
-            if not found:
-                raise KeyError(f"No such variable: {self.assigned_variables[node.slice.id]}")
+            node.slice = ast.Constant(value=self._get_idx(self.assigned_variables[node.slice.id]))
         elif isinstance(node, ast.Name):
             if node.id in self.closurevariables:
                 node = ast.Constant(value=self.closurevariables[node.id])
 
         ast.NodeVisitor.generic_visit(self, node)
 
+    def _is_variables(self, node):
+        return isinstance(node, ast.Name) and node.id == self.variables_name
+
+    def _get_idx(self, name):
+        # a name is relative to the item of the event, or the full path of a variable outside of this item
+        variables = self.model.path_to_variable
+        var = variables.get(self.path_to_root_str + str(name))
+        if var is None and not str(name).startswith(self.path_to_root_str):
+            var = variables.get(name)
+        if var is not None:
+            return self.model._get_var_idx(var, self.idx_type)[0]
+        raise KeyError(f'No such variable: {name}')
+
     def visit_Assign(self, node: ast.Assign):
         evaluated = None
         if isinstance(node.value, ast.BinOp):
-- 
2.43.0


From 2293cdf7afdde8b9266d5ca8121f7b4d130dc109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:18 +0000
Subject: [PATCH 17/42] fix: event actions that assign constants, and names
 assigned in branches of event functions

---
 numerous/engine/model/events.py | 55 +++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/numerous/engine/model/events.py b/numerous/engine/model/events.py
index 6121189..2f98549 100644
--- a/numerous/engine/model/events.py
+++ b/numerous/engine/model/events.py
@@ -78,6 +78,8 @@ class VariablesVisitor(ast.NodeVisitor):
 
             node.slice = ast.Constant(value=self._get_idx(self.assigned_variables[node.slice.id]))
         elif isinstance(node, ast.Name):
+            if isinstance(node.ctx, ast.Store):
+                self.assigned_variables.pop(node.id, None)
             if node.id in self.closurevariables:
                 node = ast.Constant(value=self.closurevariables[node.id])
 
@@ -97,27 +99,42 @@ class VariablesVisitor(ast.NodeVisitor):
         raise KeyError(f'No such variable: {name}')
 
     def visit_Assign(self, node: ast.Assign):
-        evaluated = None
+        self.visit(node.value)
+        for target in node.targets:
+            self.visit(target)
+        evaluated, has_value = None, False
         if isinstance(node.value, ast.BinOp):
-            operator = node.value.op
-            left = node.value.left
-
-            right = node.value.right
-            left_val, left_has_val = self._get_value(left)
-            right_val, right_has_val = self._get_value(right)
-            if not left_has_val or not right_has_val:
-                self.generic_visit(node)
-                return
-
-            if isinstance(operator, ast.Add):
-                evaluated = left_val + right_val
-            else:
-                raise NotImplementedError(f"{type(operator)} not yet implemented")
-            self.assigned_variables.update({node.targets[0].id: evaluated})
+            left_val, left_has_val = self._get_value(node.value.left)
+            right_val, right_has_val = self._get_value(node.value.right)
+            if isinstance(node.value.op, ast.Add) and left_has_val and right_has_val:
+                evaluated, has_value = left_val + right_val, True
         elif isinstance(node.value, ast.Constant):
-            self.assigned_variables.update({node.targets[0].id: node.value.value})
-        else:
-            self.generic_visit(node)
+            evaluated, has_value = node.value.value, True
+        if has_value:
+            for target in node.targets:
+                if isinstance(target, ast.Name):
+                    self.assigned_variables[target.id] = evaluated
+
+    def visit_If(self, node: ast.If):
+        # a name has a known value after the branches only if it has this value after each of them
+        self.visit(node.test)
+        before, after = self.assigned_variables, []
+        for body in (node.body, node.orelse):
+            self.assigned_variables = dict(before)
+            for statement in body:
+                self.visit(statement)
+            after.append(self.assigned_variables)
+        self.assigned_variables = {k: v for k, v in after[0].items() if k in after[1] and after[1][k] == v}
+
+    def _visit_loop(self, node):
+        assigned = [n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]
+        for name in assigned:
+            self.assigned_variables.pop(name, None)
+        self.generic_visit(node)
+        for name in assigned:
+            self.assigned_variables.pop(name, None)
+
+    visit_For = visit_While = _visit_loop
 
     def _get_value(self, val):
         if isinstance(val, ast.Name):
-- 
2.43.0


From 3a87211253f5d174fbf244f3f9f2b9c8dabf0a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:18 +0000
Subject: [PATCH 18/42] fix: closure variables of events with the same names

---
 numerous/engine/model/events.py | 42 ++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/numerous/engine/model/events.py b/numerous/engine/model/events.py
index 2f98549..456c672 100644
--- a/numerous/engine/model/events.py
+++ b/numerous/engine/model/events.py
@@ -7,7 +7,15 @@ from numba.core.registry import CPUDispatcher
 from typing import Union, Tuple
 
 from numerous.engine.model.utils import njit_and_compile_function
-from numerous.engine.numerous_event import NumerousEvent, StateEvent, TimestampEvent
+from numerous.engine.numerous_event import NumerousEvent, ParsedEventFunction, StateEvent, TimestampEvent
+
+
+def compile_event_function(function: ParsedEventFunction, event: NumerousEvent,
+                           from_imports: list[tuple[str, str]]) -> CPUDispatcher:
+    # every function has its own closure variables, which may have the same names as those of other events
+    return njit_and_compile_function(function.ast_func, from_imports,
+                                     compiled_functions=dict(event.compiled_functions or {}),
+                                     closurevariables=function.closure_variables)
 
 
 def generate_event_condition_ast(event_functions: list[Union[StateEvent, TimestampEvent]],
@@ -16,19 +24,15 @@ def generate_event_condition_ast(event_functions: list[Union[StateEvent, Timesta
     directions_array = []
     body = [ast.Assign(targets=[ast.Name(id=array_label)], lineno=0,
                        value=ast.List(elts=[], ctx=ast.Load()))]
-    compiled_functions = {}
-    closurevariables = None
-    for event in event_functions:
-        if event.compiled_functions:
-            compiled_functions.update(event.compiled_functions)
-        condition = event.condition.ast_func
-        closurevariables = event.condition.closure_variables
+    functions = {}
+    for idx, event in enumerate(event_functions):
+        name = f'event_function_{idx}'
+        functions[name] = compile_event_function(event.condition, event, from_imports)
 
         directions_array.append(event.direction)
-        body.append(condition)
         body.append(ast.Expr(value=ast.Call(
             func=ast.Attribute(value=ast.Name(id=array_label, ctx=ast.Load()), attr='append', ctx=ast.Load()),
-            args=[ast.Call(func=ast.Name(id=condition.name, ctx=ast.Load()),
+            args=[ast.Call(func=ast.Name(id=name, ctx=ast.Load()),
                            args=[ast.Name(id='t', ctx=ast.Load()), ast.Name(id='states', ctx=ast.Load())],
                            keywords=[])], keywords=[])))
 
@@ -44,8 +48,7 @@ def generate_event_condition_ast(event_functions: list[Union[StateEvent, Timesta
                                                 kwonlyargs=[], kw_defaults=[], defaults=[]),
                              body=body, decorator_list=[], lineno=0)
 
-    return njit_and_compile_function(body_r, from_imports, compiled_functions=compiled_functions,
-                                     closurevariables=closurevariables), np.array(
+    return njit_and_compile_function(body_r, from_imports, compiled_functions=functions), np.array(
         directions_array, dtype=np.float)
 
 
@@ -162,21 +165,17 @@ def replace_path_strings(model, function, idx_type, path_to_root=[]) -> Tuple:
 def generate_event_action_ast(event_functions: list[NumerousEvent],
                               from_imports: list[tuple[str, str]]) -> CPUDispatcher:
     body = []
-    compiled_functions = {}
-    closurevariables = None
+    functions = {}
 
     for idx, event in enumerate(event_functions):
-        if event.compiled_functions:
-            compiled_functions.update(event.compiled_functions)
         if event.is_external:
             continue
-        action = event.action.ast_func
-        closurevariables = event.action.closure_variables
+        name = f'event_function_{idx}'
+        functions[name] = compile_event_function(event.action, event, from_imports)
 
-        body.append(action)
         body.append(ast.If(test=ast.Compare(left=ast.Name(id='a_idx', ctx=ast.Load()), ops=[ast.Eq()],
                                             comparators=[ast.Constant(value=idx)]),
-                           body=[ast.Expr(value=ast.Call(func=ast.Name(id=action.name, ctx=ast.Load()),
+                           body=[ast.Expr(value=ast.Call(func=ast.Name(id=name, ctx=ast.Load()),
                                                          args=[ast.Name(id='t', ctx=ast.Load()),
                                                                ast.Name(id='states', ctx=ast.Load())],
                                                          keywords=[]))], orelse=[]))
@@ -189,6 +188,5 @@ def generate_event_action_ast(event_functions: list[NumerousEvent],
                                                 kwonlyargs=[], kw_defaults=[], defaults=[]),
                              body=body, decorator_list=[], lineno=0)
 
-    internal_functions = njit_and_compile_function(body_r, from_imports, compiled_functions=compiled_functions,
-                                                   closurevariables=closurevariables)
+    internal_functions = njit_and_compile_function(body_r, from_imports, compiled_functions=functions)
     return internal_functions
-- 
2.43.0


From 7540f9981e5d9d9a29310b03e18f40d064916b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:19 +0000
Subject: [PATCH 19/42] fix: event actions write the variables they modified
 also when states come before parameters

---
 numerous/engine/simulation/solver_interface.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 638899a..fddb8ff 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -217,9 +217,9 @@ class EventFactory:
                 else:
                     modified_variables = interface.model.time_event_actions(t, vars, ix)
                 states = modified_variables[interface.model.numba_model.state_idx]
-                variables = np.delete(modified_variables, interface.model.numba_model.state_idx)
-                original_variables = np.delete(interface._get_variables(), interface.model.numba_model.state_idx)
-                modified_mask = (variables != original_variables)
+                original_variables = interface._get_variables()
+                modified_mask = (modified_variables != original_variables)
+                modified_mask[interface.model.numba_model.state_idx] = False
                 for idx in np.argwhere(modified_mask):
                     interface._write_variables(modified_variables[idx[0]], idx[0])
                 return states
-- 
2.43.0


From d4b4c1f5363949e0a9593f973f46c7edc52ad528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:32 +0000
Subject: [PATCH 20/42] fix: external event actions of items in subsystems see
 and change the variables they name

---
 numerous/engine/model/model.py                 |  2 ++
 numerous/engine/simulation/solver_interface.py | 18 +++++++++++-------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 17f933e..55f961d 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -416,12 +416,14 @@ class Model:
                                                                                        item.path)
                             event.action = Action(event.action.func, action_ast, action_closurevariables)
 
+                    event.parent_path = item.path
                     self.events.append(event)
             if item.timestamp_events:
                 for event in item.timestamp_events:
                     if not event.is_external:
                         action_ast, action_closurevariables = replace_path_strings(self, event.action.func, "var", item.path)
                         event.action = Action(event.action.func, action_ast, action_closurevariables)
+                    event.parent_path = item.path
                     self.timestamp_events.append(event)
 
         self.info.update({"Number of items": len(self.model_items)})
diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index fddb8ff..a634bff 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -230,14 +230,18 @@ class EventFactory:
         class BaseExternalEvent(SolverEvent):
             def run_event_action(self, interface: NumerousEngineModelInterface, t: float, y: np.array) -> np.array:
                 model.update_local_variables()
-                variables = {tag: var.value for tag, var in model.path_to_variable.items()}
-                path_ = ""
-                if parent_path:
-                    path_ = ".".join(parent_path) + "."
-                    variables = {tag.replace(path_, ""): value for tag, value in variables.items()}
+                path_ = ".".join(parent_path) + "." if parent_path else ""
+                # names are relative to the item of the event, or the full path of a variable outside of this item
+                paths = {tag: tag for tag in model.path_to_variable if not path_ or not tag.startswith(path_)}
+                paths.update({tag[len(path_):]: tag for tag in model.path_to_variable if path_ and tag.startswith(path_)})
+                variables = {name: model.path_to_variable[tag].value for name, tag in paths.items()}
+                original_variables = dict(variables)
                 external_action_function(t, variables)
-                for tag, value in variables.items():
-                    model.path_to_variable[path_ + tag].value = value
+                for name, value in variables.items():
+                    if name not in paths:
+                        raise KeyError(f'No such variable: {name}')
+                    if value is not original_variables[name]:
+                        model.path_to_variable[paths[name]].value = value
                 model.update_all_variables()
                 states = interface.get_states()
                 return states
-- 
2.43.0


From 4b6549c82974c1d9ce65e957724da3275594e992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 21/42] fix: external events with the same key run their own
 action

---
 numerous/engine/simulation/solver_interface.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index a634bff..03f339b 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -280,19 +280,22 @@ class EventFactory:
         :return:
 
         """
+        # the solver finds external events by their id: events of different items may have the same key
         if type(event_) == TimestampEvent:
             event_type = 'time'
+            id_ = f"{event_.key}_{event_type}_{ix}"
             if event_.periodicity:
                 baseclass = SolverPeriodicTimeEvent
-                kwargs = dict(id=event_.key, period=event_.periodicity, is_external=event_.is_external)
+                kwargs = dict(id=id_, period=event_.periodicity, is_external=event_.is_external)
             else:
                 baseclass = SolverTimestampedEvent
-                kwargs = dict(id=event_.key, timestamps=event_.timestamps, is_external=event_.is_external)
+                kwargs = dict(id=id_, timestamps=event_.timestamps, is_external=event_.is_external)
 
         else:
             event_type = 'state'
+            id_ = f"{event_.key}_{event_type}_{ix}"
             baseclass = self._wrap_state_event(ix)
-            kwargs = dict(id=event_.key, is_external=event_.is_external)
+            kwargs = dict(id=id_, is_external=event_.is_external)
 
         new_event: type = self._new_event(ix, model, baseclass,
                                           is_external=event_.is_external,
-- 
2.43.0


From cba9598eaea8edb0596b707263f7fec8b22f80d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 22/42] fix: an event action sees the states changed by other
 events at the same time

---
 numerous/engine/simulation/solver_interface.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 03f339b..edbfc07 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -219,7 +219,6 @@ class EventFactory:
                 states = modified_variables[interface.model.numba_model.state_idx]
                 original_variables = interface._get_variables()
                 modified_mask = (modified_variables != original_variables)
-                modified_mask[interface.model.numba_model.state_idx] = False
                 for idx in np.argwhere(modified_mask):
                     interface._write_variables(modified_variables[idx[0]], idx[0])
                 return states
-- 
2.43.0


From 64a3ea77d4ed7d9dd4cce0088d3edc87d71f1b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 23/42] fix: events of items that are registered as a set

---
 numerous/engine/model/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 55f961d..b6dcb70 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -404,7 +404,12 @@ class Model:
         self.generate_path_to_varaible()
 
         # check for item level events
+        event_items = []
         for item in self.model_items.values():
+            event_items.append(item)
+            if isinstance(item, ItemSet):
+                event_items.extend(item.items)
+        for item in event_items:
             if item.events:
                 for event in item.events:
                     if not event.compiled:
-- 
2.43.0


From 8607932a34d1c0b9cd5a4fe2208dcc97aeef8d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 24/42] fix: keep history rows in which a variable is nan, and
 do not repeat rows that were collected before

---
 numerous/engine/model/model.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index b6dcb70..5a738d7 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -867,20 +867,21 @@ class Model:
         return data
 
     def generate_not_nan_history_array(self):
-        return self.numba_model.historian_data[:, ~np.isnan(self.numba_model.historian_data).any(axis=0)]
+        # the part of the buffer that has been written: the variables themselves may be nan
+        return self.numba_model.historian_data[:, :self.numba_model.historian_ix]
 
     def create_historian_df(self):
+        history_array = self.generate_not_nan_history_array()
+        history_df = self._generate_history_df(history_array)
         if self.historian_df is not None:
-            import pandas as pd
-            self.historian_df = AliasedDataFrame(pd.concat([self.historian_df.df,
-                                                            self._generate_history_df(
-                                                                self.generate_not_nan_history_array()).df],
+            self.historian_df = AliasedDataFrame(pd.concat([self.historian_df.df, history_df.df],
                                                            axis=0, sort=False, ignore_index=True),
                                                  aliases=self.aliases, rename_columns=True)
 
         else:
-            self.historian_df = self._generate_history_df(self.generate_not_nan_history_array())
+            self.historian_df = history_df
         self.historian.store(self.historian_df)
+        self.numba_model.historian_reinit()
 
     def _generate_history_df(self, historian_data):
         data = self.create_historian_dict(historian_data)
-- 
2.43.0


From 483831ce9b1888413dc3c9ceb222e08bdf177133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 25/42] fix: store the history in a local file

---
 numerous/engine/model/model.py | 2 +-
 numerous/utils/historian.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 5a738d7..9d03173 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -880,7 +880,7 @@ class Model:
 
         else:
             self.historian_df = history_df
-        self.historian.store(self.historian_df)
+        self.historian.store(pd.DataFrame(self.create_historian_dict(history_array)))
         self.numba_model.historian_reinit()
 
     def _generate_history_df(self, historian_data):
diff --git a/numerous/utils/historian.py b/numerous/utils/historian.py
index 31faca1..cffbde4 100644
--- a/numerous/utils/historian.py
+++ b/numerous/utils/historian.py
@@ -70,6 +70,6 @@ class LocalHistorian(Historian):
 
         """
         if os.path.isfile(self.filename):
-            df.dropna().to_csv(self.filename, mode='a', header=False)
+            df.to_csv(self.filename, mode='a', header=False)
         else:
-            df.dropna().to_csv(self.filename)
\ No newline at end of file
+            df.to_csv(self.filename)
\ No newline at end of file
-- 
2.43.0


From bda7b438a8130502240772738cb55b8a7473cce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:29 +0000
Subject: [PATCH 26/42] fix: use the column and the interpolation type that
 belong to the variable of an external mapping

---
 .../engine/system/external_mappings/external_mappings.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/system/external_mappings/external_mappings.py b/numerous/engine/system/external_mappings/external_mappings.py
index 193e801..82ab635 100644
--- a/numerous/engine/system/external_mappings/external_mappings.py
+++ b/numerous/engine/system/external_mappings/external_mappings.py
@@ -32,7 +32,6 @@ class ExternalMapping:
 
         self.external_mappings_numpy = np.array(self.external_mappings_numpy, dtype=np.float64)
         self.external_mappings_time = np.array(self.external_mappings_time, dtype=np.float64)
-        self.interpolation_type = [item for sublist in self.interpolation_type for item in sublist]
         self.external_df_idx = []
         self.interpolation_info = []
 
@@ -73,10 +72,11 @@ class ExternalMapping:
         for i, external_column in enumerate(self.external_columns):
             for path in variables[var_id].path.path[system_id]:
                 for index, column in enumerate(external_column):
-                    if column in path:
+                    if column == path:
                         self.external_df_idx.append((i, index))
                         self.interpolation_info.append(
-                            self.interpolation_type[index].value == InterpolationType.LINEAR.value)
+                            self.interpolation_type[i][index].value == InterpolationType.LINEAR.value)
+                        return
 
     def is_mapped_var(self, variables, var_id, system_id):
         if not variables[var_id].global_var:
-- 
2.43.0


From 31bf0e9fdacecc89444f0f657f20e9340847caea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:29 +0000
Subject: [PATCH 27/42] fix: write external data to variables which have other
 values than the data

---
 numerous/engine/model/compiled_model.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/numerous/engine/model/compiled_model.py b/numerous/engine/model/compiled_model.py
index 0818809..3c09847 100644
--- a/numerous/engine/model/compiled_model.py
+++ b/numerous/engine/model/compiled_model.py
@@ -33,7 +33,6 @@ numba_model_spec = [
     ('max_external_t', float64),
     ('min_external_t', float64),
     ('external_idx', int64[:]),
-    ('previous_external_mappings', float64[:]),
     ('post_step', types.ListType(types.FunctionType(types.void())))
 ]
 
@@ -76,7 +75,6 @@ class CompiledModel:
         self.historian_data = np.empty(
             (len(init_vars) + 1, self.historian_max_size), dtype=np.float64)
         self.historian_data.fill(np.nan)
-        self.previous_external_mappings = np.zeros(self.number_of_external_mappings)
 
     def vectorized_full_jacobian(self, t, y, dt):
         h = 1e-8
@@ -110,11 +108,10 @@ class CompiledModel:
                                    self.external_mappings_numpy[df_indx, :, var_idx])
             next_values[i] = value
 
-        if np.array_equal(next_values, self.previous_external_mappings):  # No need to update if no values were changed
+        # No need to update if no values were changed
+        if np.array_equal(next_values, self.read_variables()[self.external_idx]):
             return
 
-        self.previous_external_mappings = next_values
-
         for i, value in enumerate(next_values):
             self.write_variables(value, self.external_idx[i])
 
-- 
2.43.0


From 09a30621655e53619ff521724dab471ecef23a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:15 +0000
Subject: [PATCH 28/42] fix: external data of several data frames of different
 sizes and time ranges

---
 .../external_mappings/external_mappings.py    | 49 ++++++++-----------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/numerous/engine/system/external_mappings/external_mappings.py b/numerous/engine/system/external_mappings/external_mappings.py
index 82ab635..7cad924 100644
--- a/numerous/engine/system/external_mappings/external_mappings.py
+++ b/numerous/engine/system/external_mappings/external_mappings.py
@@ -6,39 +6,19 @@ from numerous.engine.system.external_mappings.interpolation_type import Interpol
 class ExternalMapping:
     def __init__(self, external_mappings):
         self.external_mappings = external_mappings
-        self.external_mappings_numpy = []
-        self.external_mappings_time = []
-        self.external_mappings_time = []
         self.external_columns = []
         self.interpolation_type = []
-        self.t_max = 0
         for external_mapping in self.external_mappings:
             for element in external_mapping.external_mappings:
                 df = external_mapping.data_loader.load(element.data_frame_id, element.index_to_timestep_mapping_start)
                 element.add_df(df)
-        for external_mapping in self.external_mappings:
-            for element in external_mapping.external_mappings:
                 self.external_columns.append(list(element.dataframe_aliases.keys()))
                 self.interpolation_type.append([a_tuple[1] for a_tuple in list(element.dataframe_aliases.values())])
-                self.external_mappings_numpy.append(
-                    element.df[[a_tuple[0] for a_tuple in list(element.dataframe_aliases.values())]]
-                    .to_numpy(dtype=np.float64)[element.index_to_timestep_mapping_start:])
-                self.external_mappings_time.append(
-                    element.time_multiplier * element.df[element.index_to_timestep_mapping]
-                    .to_numpy(dtype=np.float64)[element.index_to_timestep_mapping_start:])
-                # TODO extend for multiple dataframes
-                self.t_max = np.max(self.external_mappings_time[0])
-                self.t_min = np.min(self.external_mappings_time[0])
-
-        self.external_mappings_numpy = np.array(self.external_mappings_numpy, dtype=np.float64)
-        self.external_mappings_time = np.array(self.external_mappings_time, dtype=np.float64)
+        self._update_data()
         self.external_df_idx = []
         self.interpolation_info = []
 
     def load_new_external_data_batch(self, t):
-        self.external_mappings_numpy = []
-        self.external_mappings_time = []
-
         for external_mapping in self.external_mappings:
             for element in external_mapping.external_mappings:
                 # TODO division round bugs? we can skip a row here
@@ -48,21 +28,32 @@ class ExternalMapping:
                     return False
 
                 element.add_df(df)
+        self._update_data()
+        return True
+
+    def _update_data(self):
+        data, times = [], []
         for external_mapping in self.external_mappings:
             for element in external_mapping.external_mappings:
-                self.external_mappings_numpy.append(
+                data.append(
                     element.df[[a_tuple[0] for a_tuple in list(element.dataframe_aliases.values())]]
                     .to_numpy(dtype=np.float64)[element.index_to_timestep_mapping_start:])
-                self.external_mappings_time.append(
+                times.append(
                     element.time_multiplier * element.df[element.index_to_timestep_mapping]
                     .to_numpy(dtype=np.float64)[element.index_to_timestep_mapping_start:])
 
-        self.external_mappings_numpy = np.array(self.external_mappings_numpy, dtype=np.float64)
-        self.external_mappings_time = np.array(self.external_mappings_time, dtype=np.float64)
-        # TODO extend for multiple dataframes
-        self.t_max = np.max(self.external_mappings_time[0])
-        self.t_min = np.min(self.external_mappings_time[0])
-        return True
+        # the times which are covered by all data frames
+        self.t_max = min(np.max(time) for time in times)
+        self.t_min = max(np.min(time) for time in times)
+
+        # data frames of different sizes are filled up with their last row
+        n_rows = max(len(time) for time in times)
+        n_columns = max(columns.shape[1] for columns in data)
+        self.external_mappings_numpy = np.array(
+            [np.pad(columns, ((0, n_rows - columns.shape[0]), (0, n_columns - columns.shape[1])), mode='edge')
+             for columns in data], dtype=np.float64)
+        self.external_mappings_time = np.array(
+            [np.pad(time, (0, n_rows - len(time)), mode='edge') for time in times], dtype=np.float64)
 
     def store_mappings(self):
         self.external_df_idx = np.array(self.external_df_idx, dtype=np.int64)
-- 
2.43.0


From 1e0f81c34cc1a1d0a3a940301e2dfd15995e6859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:50 +0000
Subject: [PATCH 29/42] fix: load external data for the start time before it is
 used

---
 numerous/engine/model/compiled_model.py  |  2 +-
 numerous/engine/model/model.py           | 11 +++++++----
 numerous/engine/simulation/simulation.py |  6 +++---
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/numerous/engine/model/compiled_model.py b/numerous/engine/model/compiled_model.py
index 3c09847..ec13a0d 100644
--- a/numerous/engine/model/compiled_model.py
+++ b/numerous/engine/model/compiled_model.py
@@ -14,7 +14,7 @@ except AttributeError:
 kv_ty = (types.unicode_type, float64)
 
 numba_model_spec = [
-    ('start_time', int32),
+    ('start_time', float64),
     ('number_of_timesteps', int32),
     ('deriv_idx', int64[:]),
     ('state_idx', int64[:]),
diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 9d03173..d8b8e3f 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -747,6 +747,10 @@ class Model:
             for item in spec_dict.items():
                 numba_model_spec.append(item)
 
+        # external data for the start of the simulation, which may be outside of what was loaded first
+        if self.is_external_data and not (self.external_mappings.t_min <= start_time <= self.external_mappings.t_max):
+            self.external_mappings.load_new_external_data_batch(start_time)
+
         # Creating a copy of CompiledModel class so it is possible
         # to creat instance detached from muttable type of CompiledModel
         tmp = type(f'{CompiledModel.__name__}' + self.system.id, CompiledModel.__bases__, dict(CompiledModel.__dict__))
@@ -918,14 +922,13 @@ class Model:
         self.numba_model.max_external_t = self.external_mappings.t_max
         self.numba_model.min_external_t = self.external_mappings.t_min
 
-        self.numba_model.map_external_data(0)
-
-        # if self.numba_model.is_external_data_update_needed(0):
-        self.numba_model.is_external_data = self.external_mappings.load_new_external_data_batch(0)
+        start_time = self.numba_model.start_time
+        self.numba_model.is_external_data = self.external_mappings.load_new_external_data_batch(start_time)
         if self.numba_model.is_external_data:
             self.numba_model.update_external_data(self.external_mappings.external_mappings_numpy,
                                                   self.external_mappings.external_mappings_time,
                                                   self.external_mappings.t_max, self.external_mappings.t_min)
+        self.numba_model.map_external_data(start_time)
 
     @classmethod
     def from_file(cls, filename: str):
diff --git a/numerous/engine/simulation/simulation.py b/numerous/engine/simulation/simulation.py
index 6ba5cfc..fbea7af 100644
--- a/numerous/engine/simulation/simulation.py
+++ b/numerous/engine/simulation/simulation.py
@@ -92,9 +92,6 @@ class Simulation:
         self.model.historian_df = None
         self.model.numba_model.historian_reinit()
 
-        self.model.numba_model.map_external_data(t_start)
-        self.model.numba_model.func(t_start, self.model.numba_model.get_states())
-
         if self.model.numba_model.is_external_data_update_needed(t_start):
             self.model.numba_model.is_external_data = self.model.external_mappings.load_new_external_data_batch(t_start)
         if self.model.numba_model.is_external_data:
@@ -103,6 +100,9 @@ class Simulation:
                                                         self.model.external_mappings.t_max,
                                                         self.model.external_mappings.t_min)
 
+        self.model.numba_model.map_external_data(t_start)
+        self.model.numba_model.func(t_start, self.model.numba_model.get_states())
+
     def _complete(self):
 
         list(map(lambda x: x.restore_variables_from_numba(self.model.numba_model,
-- 
2.43.0


From d4ae0718f21a888e49db10c04e89eac13c4a4d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:36 +0000
Subject: [PATCH 30/42] fix: load external data in chunks by the mapped time
 column, per file and start row

The loader read the times from a column named 'time' (not the mapped one), compared them
without the time multiplier, shared the position in the file between all files of a loader
and dropped the start rows from every chunk.
---
 .../external_mappings/external_mappings.py    | 12 ++--
 numerous/utils/data_loader.py                 | 59 ++++++++++---------
 2 files changed, 38 insertions(+), 33 deletions(-)

diff --git a/numerous/engine/system/external_mappings/external_mappings.py b/numerous/engine/system/external_mappings/external_mappings.py
index 7cad924..cff0c55 100644
--- a/numerous/engine/system/external_mappings/external_mappings.py
+++ b/numerous/engine/system/external_mappings/external_mappings.py
@@ -10,7 +10,7 @@ class ExternalMapping:
         self.interpolation_type = []
         for external_mapping in self.external_mappings:
             for element in external_mapping.external_mappings:
-                df = external_mapping.data_loader.load(element.data_frame_id, element.index_to_timestep_mapping_start)
+                df = element.load(external_mapping.data_loader, 0)
                 element.add_df(df)
                 self.external_columns.append(list(element.dataframe_aliases.keys()))
                 self.interpolation_type.append([a_tuple[1] for a_tuple in list(element.dataframe_aliases.values())])
@@ -22,7 +22,7 @@ class ExternalMapping:
         for external_mapping in self.external_mappings:
             for element in external_mapping.external_mappings:
                 # TODO division round bugs? we can skip a row here
-                df = external_mapping.data_loader.load(element.data_frame_id, t)
+                df = element.load(external_mapping.data_loader, t)
 
                 if df.empty:
                     return False
@@ -37,10 +37,10 @@ class ExternalMapping:
             for element in external_mapping.external_mappings:
                 data.append(
                     element.df[[a_tuple[0] for a_tuple in list(element.dataframe_aliases.values())]]
-                    .to_numpy(dtype=np.float64)[element.index_to_timestep_mapping_start:])
+                    .to_numpy(dtype=np.float64))
                 times.append(
                     element.time_multiplier * element.df[element.index_to_timestep_mapping]
-                    .to_numpy(dtype=np.float64)[element.index_to_timestep_mapping_start:])
+                    .to_numpy(dtype=np.float64))
 
         # the times which are covered by all data frames
         self.t_max = min(np.max(time) for time in times)
@@ -89,6 +89,10 @@ class ExternalMappingElement:
         self.dataframe_aliases = dataframe_aliases
         self.df = None
 
+    def load(self, data_loader, t):
+        return data_loader.load_mapped(self.data_frame_id, t / self.time_multiplier, self.index_to_timestep_mapping,
+                                       self.index_to_timestep_mapping_start)
+
     # TODO check that e_m is correct format (have all the mappings) after loading
     def add_df(self, df):
         if self.df is not None:
diff --git a/numerous/utils/data_loader.py b/numerous/utils/data_loader.py
index bbee08c..8b37da9 100644
--- a/numerous/utils/data_loader.py
+++ b/numerous/utils/data_loader.py
@@ -1,10 +1,7 @@
 from abc import ABC
-from typing import Tuple
 
 import pandas as pd
-import numpy as np
 from pandas import DataFrame
-from pandas.errors import EmptyDataError
 
 
 class DataLoader(ABC):
@@ -15,6 +12,12 @@ class DataLoader(ABC):
     def load(self, df_id: str, t: float):
         pass
 
+    def load_mapped(self, df_id: str, t: float, time_column: str, start_row: int) -> DataFrame:
+        """
+        Loads data from start_row on, where t is a time in the time column.
+        """
+        return self.load(df_id, t).iloc[start_row:]
+
 
 class CSVDataLoader(DataLoader):
 
@@ -22,40 +25,38 @@ class CSVDataLoader(DataLoader):
         super(CSVDataLoader, self).__init__()
         self.chunksize = chunksize
         self.is_chunks = False
-        self._skiprows = 0
-        self.df = pd.DataFrame()
-        self.t_ix = None
+        # the first row and time of what was loaded last, for every file and start row
+        self._windows = {}
         if self.chunksize:
             self.is_chunks = True
 
-    def _valid(self, chunks, t):
-        for i, chunk in enumerate(chunks):
-            if not self.t_ix:
-                self.t_ix = np.where(chunk.columns == 'time')[0][0]
-            mask = chunk.iloc[:, self.t_ix] <= t
-
-            if mask.all():
-                yield chunk
-            else:
-                self._skiprows += i * self.chunksize
-                yield chunk
-                break
-
     def load(self, df_id: str, t: float) -> DataFrame:
-        if not self.df.empty and t < min(self.df.iloc[:, self.t_ix]):
-            self._skiprows = 0
-
-        if self.is_chunks:
-            chunks = pd.read_csv(df_id, header=0, skiprows=self._skiprows, chunksize=self.chunksize)
-            df = pd.concat(self._valid(chunks, t))
-        else:
-            df = pd.read_csv(df_id, header=0)
+        return self.load_mapped(df_id, t, 'time', 0)
+
+    def load_mapped(self, df_id: str, t: float, time_column: str, start_row: int) -> DataFrame:
+        if not self.is_chunks:
+            return pd.read_csv(df_id, header=0).iloc[start_row:]
+
+        first_row, first_t = self._windows.get((df_id, start_row), (start_row, t))
+        if t < first_t:
+            first_row = start_row
+
+        # from the last chunk that begins no later than t to the first chunk that goes beyond t
+        window = []
+        for chunk in pd.read_csv(df_id, header=0, skiprows=range(1, first_row + 1), chunksize=self.chunksize):
+            if window and chunk[time_column].iloc[0] <= t:
+                first_row += sum(len(c) for c in window)
+                window = []
+            window.append(chunk)
+            if chunk.empty or chunk[time_column].iloc[-1] > t:
+                break
 
-        self.df = df
+        df = pd.concat(window)
+        if not df.empty:
+            self._windows[(df_id, start_row)] = (first_row, df[time_column].iloc[0])
         return df
 
 
-
 class InMemoryDataLoader(DataLoader):
 
     def __init__(self, df):
-- 
2.43.0


From e793a14692085d851fe87bc032e278e38488aaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:27 +0000
Subject: [PATCH 31/42] fix: evaluate the model at the start time of the
 simulation and begin with time events and steps again after a reset

The solver evaluates the model at time zero when it is set up, so a run from another time
stored values of time zero in its first row.  A reset left the solver where it was: time
events had no timestamps left, and step_solve continued the previous integration.
---
 numerous/engine/simulation/simulation.py      |  6 ++++++
 .../engine/simulation/solver_interface.py     | 19 ++++++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/simulation/simulation.py b/numerous/engine/simulation/simulation.py
index fbea7af..0d1ebf1 100644
--- a/numerous/engine/simulation/simulation.py
+++ b/numerous/engine/simulation/simulation.py
@@ -44,6 +44,7 @@ class Simulation:
         time_, delta_t = np.linspace(t_start, t_stop, num + 1, retstep=True)
         self.time = time_
         self.model = model
+        self.solver = None
 
         if model.numba_model:
             self.reset(t_start)
@@ -64,6 +65,9 @@ class Simulation:
                                      use_jit=model.use_llvm, event_handler=numerous_engine_event_handler,
                                      **kwargs)
 
+        # the solver has evaluated the model at time zero
+        model.numba_model.func(t_start, model.numba_model.get_states())
+
         self.start_datetime = start_datetime
         self.info = model.info["Solver"]
         self.info["Number of Equation Calls"] = 0
@@ -91,6 +95,8 @@ class Simulation:
 
         self.model.historian_df = None
         self.model.numba_model.historian_reinit()
+        if self.solver:
+            self.solver.reset()
 
         if self.model.numba_model.is_external_data_update_needed(t_start):
             self.model.numba_model.is_external_data = self.model.external_mappings.load_new_external_data_batch(t_start)
diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index edbfc07..d6332ca 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -27,6 +27,10 @@ class NumerousEngineModel(SolverModel):
         self.state_event_actions = state_event_actions
         self.time_event_actions = time_event_actions
 
+    def reset(self):
+        # the states are reset by the simulation
+        pass
+
 
 class NumerousEngineEventHandler(EventHandler):
     def __init__(self, model: Model, nm: CompiledModel):
@@ -34,6 +38,10 @@ class NumerousEngineEventHandler(EventHandler):
         self._model = model
         self._nm = nm
 
+    def reset_solution(self):
+        self._model.historian_df = None
+        self._nm.historian_reinit()
+
     def handle_solve_event(self, interface, event_id: SolveEvent, t: float):
         if event_id == SolveEvent.Historian:
             self._model.create_historian_df()
@@ -200,6 +208,15 @@ def generate_numerous_engine_solver_model(model: Model) -> (NumerousEngineModel,
     return numerous_engine_model, numerous_event_handler
 
 
+class TimestampedEvent(SolverTimestampedEvent):
+    """
+    A timestamped event which begins with its first timestamp again when the solver is reset
+    """
+    def reset(self):
+        self._last_ix = 0
+        self.clear()
+
+
 class EventFactory:
     """
     Factory class for creating Numerous Solver events from :class:`~engine.numerous_events.NumerousEvent`
@@ -287,7 +304,7 @@ class EventFactory:
                 baseclass = SolverPeriodicTimeEvent
                 kwargs = dict(id=id_, period=event_.periodicity, is_external=event_.is_external)
             else:
-                baseclass = SolverTimestampedEvent
+                baseclass = TimestampedEvent
                 kwargs = dict(id=id_, timestamps=event_.timestamps, is_external=event_.is_external)
 
         else:
-- 
2.43.0


From 7a7d5fb34b0f968be078346b0c218018659e2c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:20 +0000
Subject: [PATCH 32/42] fix: a compiled model has the functions of its own
 model

The generated functions were set on the CompiledModel class, so a model which was simulated
after another one had been built used the functions and the memory of the other one.
---
 numerous/engine/model/model.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index d8b8e3f..18f04cc 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -482,9 +482,7 @@ class Model:
         def c3(self, value, idx):
             return var_write(value, idx)
 
-        setattr(CompiledModel, "compiled_compute", c1)
-        setattr(CompiledModel, "read_variables", c2)
-        setattr(CompiledModel, "write_variables", c3)
+        self.compiled_model_methods = {"compiled_compute": c1, "read_variables": c2, "write_variables": c3}
 
         self.compiled_compute, self.var_func, self.var_write = compiled_compute, var_func, var_write
         self.init_values = np.ascontiguousarray(
@@ -753,7 +751,9 @@ class Model:
 
         # Creating a copy of CompiledModel class so it is possible
         # to creat instance detached from muttable type of CompiledModel
-        tmp = type(f'{CompiledModel.__name__}' + self.system.id, CompiledModel.__bases__, dict(CompiledModel.__dict__))
+        # and has the functions of this model
+        tmp = type(f'{CompiledModel.__name__}' + self.system.id, CompiledModel.__bases__,
+                   dict(CompiledModel.__dict__, **self.compiled_model_methods))
         if self.use_llvm:
             @jitclass(numba_model_spec)
             class CompiledModel_instance(tmp):
@@ -836,9 +836,7 @@ class Model:
         def c3(self, value, idx):
             return var_write(value, idx)
 
-        setattr(CompiledModel, "compiled_compute", c1)
-        setattr(CompiledModel, "read_variables", c2)
-        setattr(CompiledModel, "write_variables", c3)
+        self.compiled_model_methods = {"compiled_compute": c1, "read_variables": c2, "write_variables": c3}
 
         for varname, ix in self.vars_ordered_values.items():
             var = self.variables[varname]
-- 
2.43.0


From 03004ac98aaae88e4e7d37516ccd5646ca7f27b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:21 +0000
Subject: [PATCH 33/42] fix: bilinear lookup at a node whose position is
 rounded down

---
 numerous/utils/interpolation/bilinear_interpolation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/numerous/utils/interpolation/bilinear_interpolation.py b/numerous/utils/interpolation/bilinear_interpolation.py
index dcabae8..6b4f054 100644
--- a/numerous/utils/interpolation/bilinear_interpolation.py
+++ b/numerous/utils/interpolation/bilinear_interpolation.py
@@ -64,6 +64,11 @@ def bilinear_interpolation(ix, x, y, data_def, data):
 
     x2 = data[x2_ix + x_start_ix]
 
+    # the computed position of a node may be rounded down into the cell below it
+    if x == x2:
+        x1_ix = x2_ix
+        x1 = x2
+
     y_frac_ix = y_norm * (y_len - 1)
 
     y1_ix = np.int64(np.floor(y_frac_ix))
@@ -84,6 +89,10 @@ def bilinear_interpolation(ix, x, y, data_def, data):
 
     y2 = data[y2_ix + y_start_ix]
 
+    if y == y2:
+        y1_ix = y2_ix
+        y1 = y2
+
     q_start_ix = y_start_ix + np.int64(y_len)
 
     q11 = data[q_start_ix + x1_ix + np.int64(x_len) * y1_ix]
-- 
2.43.0


From e980b774b8c005b7fb7efd5be2be44892cc91a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:10 +0000
Subject: [PATCH 34/42] fix: qualified names for any order of registration and
 depth, several equations with variables in one namespace

---
 numerous/engine/model/model.py      |  6 ++----
 numerous/engine/system/item.py      |  2 +-
 numerous/engine/system/namespace.py | 14 +++++++++-----
 numerous/engine/system/subsystem.py | 24 +++++++++++++-----------
 4 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 18f04cc..54bc6f6 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -77,13 +77,11 @@ class ModelNamespace:
 
         variables__ = [list(x) for x in zip(*variables__)]
         variables__ = list(itertools.chain(*variables__))
-        variables_ordered = [None] * len(variables__)
         if self.is_set:
             for i, v in enumerate(variables__):
                 v.detailed_description.variable_idx = i
-        for variable in variables__:
-            variables_ordered[variable.detailed_description.variable_idx] = variable
-        return variables_ordered
+        # the index counts the variables of one equation, a namespace may have several
+        return sorted(variables__, key=lambda variable: variable.detailed_description.variable_idx)
 
 
 class ModelAssembler:
diff --git a/numerous/engine/system/item.py b/numerous/engine/system/item.py
index 9061bf7..87ab4fb 100644
--- a/numerous/engine/system/item.py
+++ b/numerous/engine/system/item.py
@@ -28,7 +28,7 @@ class Item(Node):
         self.events = []
         self.timestamp_events = []
         self.level = 1
-        self.parent_item = None
+        self.parent_items = []
         self.registered = False
         self.parent_set = None
         self.part_of_set = False
diff --git a/numerous/engine/system/namespace.py b/numerous/engine/system/namespace.py
index 65d46e1..ddfe041 100644
--- a/numerous/engine/system/namespace.py
+++ b/numerous/engine/system/namespace.py
@@ -118,17 +118,21 @@ class VariableNamespaceBase:
         if (variable.tag + tag_count) not in self.variables.keys():
             self.variables[variable.tag + tag_count] = variable
 
-            variable.path.extend_path(variable.id, self.id, self.tag)
-            variable.path.extend_path(self.id, self.item.id, self.item.tag)
+            self._extend_variable_path(variable)
 
         else:
             logging.warning("Variable {0} is already in namespace {1} of item {2}".format(variable.tag,
                                                                                           self.tag, self.item.tag))
             # we overwrite constant < parameters < state
-            if self.variables[variable.tag].value < variable.value:
+            if self.variables[variable.tag].type.value < variable.type.value:
                 self.variables[variable.tag] = variable
-                variable.extend_path(self.tag)
-                variable.extend_path(self.item.tag)
+                self._extend_variable_path(variable)
+
+    def _extend_variable_path(self, variable):
+        variable.path.extend_path(variable.id, self.id, self.tag)
+        variable.path.extend_path(self.id, self.item.id, self.item.tag)
+        for parent in self.item.parent_items:
+            parent._extend_variable_path(variable, self.item.id)
 
     def update_set_var(self):
         pass
diff --git a/numerous/engine/system/subsystem.py b/numerous/engine/system/subsystem.py
index 2e08ce9..d5d8518 100644
--- a/numerous/engine/system/subsystem.py
+++ b/numerous/engine/system/subsystem.py
@@ -116,7 +116,16 @@ class Subsystem(ConnectorItem):
                 DG.add_edge(self.tag, item.tag)
         return DG
 
-    def update_variables_path(self, item, tail=[]):
+    def _extend_variable_path(self, variable, current_id):
+        """
+        Extend the path of a variable by this subsystem and all the subsystems it is registered in.
+
+        """
+        variable.path.extend_path(current_id, self.id, self.tag)
+        for parent in self.parent_items:
+            parent._extend_variable_path(variable, self.id)
+
+    def update_variables_path(self, item):
         """
         Create variable path hierarchy.
 
@@ -124,23 +133,15 @@ class Subsystem(ConnectorItem):
         ----------
         item : :class:`numerous.engine.system.Item`
             Item to update variable path.
-        tail:  list of :class:`numerous.engine.system.Item`
-            In case of nested subsystems we store them to correctly update the path.
 
         """
         item.path = self.path + [item.tag]
         for ns in item.registered_namespaces.values():
             for var in ns.variables.values():
-                var.path.extend_path(item.id, self.id, self.tag)
-                if len(tail) == 1:
-                    var.path.extend_path(self.id, tail[0].id, tail[0].tag)
-                if len(tail) > 1:
-                    t1 = tail[0::2][0]
-                    t2 = tail[1::2][0]
-                    var.path.extend_path(t2.id, t1.id, t1.tag)
+                self._extend_variable_path(var, item.id)
         if isinstance(item, Subsystem):
             for item_ in item.registered_items.values():
-                item.update_variables_path(item_, tail + [self])
+                item.update_variables_path(item_)
 
     def register_item(self, item):
         """
@@ -153,6 +154,7 @@ class Subsystem(ConnectorItem):
         if item.tag in [x.tag for x in self.registered_items.values()]:
             raise ValueError('Item with tag {} is already registered in system {}'.format(item.tag, self.tag))
         item._increase_level()
+        item.parent_items.append(self)
         self.update_variables_path(item)
         self.registered_items.update({item.id: item})
 
-- 
2.43.0


From e1d438acba5dbf9a04418c2cb9fb282cdee997aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:12 +0000
Subject: [PATCH 35/42] fix: two equation objects with the same tag in one
 namespace

---
 numerous/engine/model/model.py      | 4 ++--
 numerous/engine/system/namespace.py | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 54bc6f6..f192311 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -716,7 +716,7 @@ class Model:
 
             equation_dict = {}
             eq_variables_ids = []
-            for eq in namespace.associated_equations.values():
+            for eq_tag, eq in namespace.associated_equations.items():
                 equations = []
                 ids = []
 
@@ -730,7 +730,7 @@ class Model:
                     else:
                         variable = namespace.get_variable(vardesc.tag)
                         ids.append(variable.id)
-                equation_dict.update({eq.tag: equations})
+                equation_dict.update({eq_tag: equations})
                 eq_variables_ids.append(ids)
             model_namespace.equation_dict = equation_dict
             model_namespace.variables = {v.id: v for vs in model_namespace.variable_scope for v in vs}
diff --git a/numerous/engine/system/namespace.py b/numerous/engine/system/namespace.py
index ddfe041..064749e 100644
--- a/numerous/engine/system/namespace.py
+++ b/numerous/engine/system/namespace.py
@@ -184,7 +184,10 @@ class VariableNamespaceBase:
             any(self.create_variable_from_desc(variable_description)
                 for variable_description in equation.variables_descriptions)
         equation.set_equation = set_equation
-        self.associated_equations.update({equation.tag: equation})
+        key = equation.tag
+        while self.associated_equations.get(key, equation) is not equation:
+            key += '_'  # another equation of this namespace has the same tag
+        self.associated_equations[key] = equation
 
 
 class VariableNamespace(VariableNamespaceBase):
-- 
2.43.0


From 7f67cf7f2905de184d96ffac7f348b8e449c1760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:16 +0000
Subject: [PATCH 36/42] fix: declaration of time events with arrays of
 timestamps, and with both or neither of timestamps and period

---
 numerous/engine/numerous_event.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/numerous/engine/numerous_event.py b/numerous/engine/numerous_event.py
index 2cbf3b0..6e7d6d2 100644
--- a/numerous/engine/numerous_event.py
+++ b/numerous/engine/numerous_event.py
@@ -83,14 +83,16 @@ class TimestampEvent(NumerousEvent):
         self.action = action
         self.compiled_functions = compiled_functions
 
-        assert not (periodicity and timestamps), "you cannot specify both timestamps and periodicity for a " \
-                                                 "time-stamp event"
+        assert timestamps is None or isinstance(timestamps, (list, np.ndarray)), "timestamps must be list or np array"
 
-        assert not (not timestamps and not periodicity), "you must specify at least timestamps or periodicity"
-        assert isinstance(timestamps, list) or isinstance(timestamps, np.ndarray) or not timestamps, \
-            "timestamps must be list or np array"
+        has_timestamps = timestamps is not None and len(timestamps) > 0
 
-        self.timestamps = np.array(timestamps) if isinstance(timestamps, list) else timestamps
+        assert not (periodicity and has_timestamps), "you cannot specify both timestamps and periodicity for a " \
+                                                     "time-stamp event"
+
+        assert periodicity or has_timestamps, "you must specify at least timestamps or periodicity"
+
+        self.timestamps = np.array(timestamps) if has_timestamps else None
         self.periodicity = periodicity
         self.is_external = is_external
         self.parent_path = parent_path
-- 
2.43.0


From a5ae94b6dbf700d7b86b79ec9a5821bceb7be0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:16 +0000
Subject: [PATCH 37/42] fix: time events whose time is reached with a rounding
 error, or that begin before the start of the simulation

---
 .../engine/simulation/solver_interface.py     | 40 ++++++++++++++++++-
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index d6332ca..1756d2a 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -210,13 +210,49 @@ def generate_numerous_engine_solver_model(model: Model) -> (NumerousEngineModel,
 
 class TimestampedEvent(SolverTimestampedEvent):
     """
-    A timestamped event which begins with its first timestamp again when the solver is reset
+    A timestamped event which begins with its first timestamp again when the solver is reset. The solver adds its steps
+    up, and may reach a time which is larger than the timestamp by a rounding error: the event still takes place.
     """
+    def get_next_index(self, t: float) -> int:
+        t_passed = t - 1e-9 * max(1.0, abs(t))
+        ix = self._last_ix
+        while ix < len(self.timestamps) and self.timestamps[ix] < t_passed:
+            ix += 1
+        return ix
+
+    def get_next_event_time(self, interface: NumerousEngineModelInterface, t: float) -> float:
+        ix = self.get_next_index(t)
+        if ix >= len(self.timestamps):
+            return -1.0
+        return max(self.timestamps[ix], t)
+
+    def post_event(self, direction: int, interface: NumerousEngineModelInterface, t: float, y: np.array):
+        self._last_ix = self.get_next_index(t) + 1
+
     def reset(self):
         self._last_ix = 0
         self.clear()
 
 
+class PeriodicTimeEvent(SolverPeriodicTimeEvent):
+    """
+    A periodic event which takes place at each multiple of its period, from the start of the simulation. The solver adds
+    its steps up, and may reach a time which is larger than the time of the event by a rounding error: the event still
+    takes place.
+    """
+    def get_next_multiple(self, t: float) -> float:
+        t_passed = t - 1e-9 * max(1.0, abs(t))
+        if self.t_next_event < t_passed:
+            return np.ceil(t_passed / self.period) * self.period
+        return self.t_next_event
+
+    def get_next_event_time(self, interface: NumerousEngineModelInterface, t: float) -> float:
+        return max(self.get_next_multiple(t), t)
+
+    def post_event(self, direction: int, interface: NumerousEngineModelInterface, t: float, y: np.array):
+        self.t_next_event = self.get_next_multiple(t) + self.period
+
+
 class EventFactory:
     """
     Factory class for creating Numerous Solver events from :class:`~engine.numerous_events.NumerousEvent`
@@ -301,7 +337,7 @@ class EventFactory:
             event_type = 'time'
             id_ = f"{event_.key}_{event_type}_{ix}"
             if event_.periodicity:
-                baseclass = SolverPeriodicTimeEvent
+                baseclass = PeriodicTimeEvent
                 kwargs = dict(id=id_, period=event_.periodicity, is_external=event_.is_external)
             else:
                 baseclass = TimestampedEvent
-- 
2.43.0


From 3c5dd952c31a6f0d093f85fa37755f5adfe07f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:40 +0000
Subject: [PATCH 38/42] fix: connectors that add up variables of their sides,
 are bound by attribute, or read a variable the bound item lacks

---
 numerous/engine/system/connector.py      |  5 ++++-
 numerous/engine/system/connector_item.py | 27 ++++++++++++++++--------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/numerous/engine/system/connector.py b/numerous/engine/system/connector.py
index a06153a..e18884f 100644
--- a/numerous/engine/system/connector.py
+++ b/numerous/engine/system/connector.py
@@ -95,9 +95,12 @@ class Connector(Node):
         """
         return Binding(binding_name)
 
+    def _bind(self, binding, binded_item):
+        binding.add_binding(binded_item)
+
     def __setattr__(self, key, value):
         if key in self.__dict__:
             if isinstance(self.__dict__[key], Binding):
                 if isinstance(value, Node):
-                    self.__dict__[key].add_binding(value)
+                    self._bind(self.__dict__[key], value)
         object.__setattr__(self, key, value)
diff --git a/numerous/engine/system/connector_item.py b/numerous/engine/system/connector_item.py
index da3fd85..6f15af5 100644
--- a/numerous/engine/system/connector_item.py
+++ b/numerous/engine/system/connector_item.py
@@ -29,16 +29,27 @@ class ConnectorItem(Item, Connector):
         super()._create_shadow_namespace(namespace_name)
         return new_namespace
 
+    def _bind(self, binding, binded_item):
+        super()._bind(binding, binded_item)
+        self.__bind_mappings(binding, binded_item)
+
+    def __binded_variable(self, variable, binding, binded_item):
+        if not isinstance(variable, _BindingVariable) or variable.namespace.binding is not binding:
+            return variable
+        tag = variable.detailed_description.tag
+        binded_variable = binded_item.registered_namespaces[variable.namespace.tag].get_variable(tag)
+        if binded_variable is None:
+            raise ValueError("Variable {0} does not exist in item {1} that is bound to {2} of {3}"
+                             .format(tag, binded_item.tag, binding.name, self.tag))
+        return binded_variable
+
     def __bind_mappings(self, binding, binded_item):
         for ns in self.registered_namespaces:
             for f_var in ns.variables:
                 if f_var.mapping:
-                    b_fvar=f_var.mapping
-                    if isinstance(b_fvar, _BindingVariable):
-                        if b_fvar.namespace.binding.name == binding.name:
-                            bv = binded_item.registered_namespaces[ns.tag].get_variable(
-                                b_fvar.detailed_description.tag)
-                            f_var.mapping = bv
+                    f_var.mapping = self.__binded_variable(f_var.mapping, binding, binded_item)
+                f_var.sum_mapping[:] = [self.__binded_variable(variable, binding, binded_item)
+                                        for variable in f_var.sum_mapping]
 
     def bind(self, **kwargs):
         """
@@ -53,9 +64,7 @@ class ConnectorItem(Item, Connector):
         """
         for key, value in kwargs.items():
             if key in self.bindings.keys():
-
-                self.bindings[key].add_binding(value)
-                self.__bind_mappings(self.bindings[key], value)
+                self._bind(self.bindings[key], value)
             else:
                 ValueError("Binding {} is not exist in item {}".format(key, self.tag))
 
-- 
2.43.0


From f42554a9e8af8b6186c9c22d4a3c4a9978ac87cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:40 +0000
Subject: [PATCH 39/42] fix: binding a side that a connector does not have is
 refused

---
 numerous/engine/system/connector_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/system/connector_item.py b/numerous/engine/system/connector_item.py
index 6f15af5..332defc 100644
--- a/numerous/engine/system/connector_item.py
+++ b/numerous/engine/system/connector_item.py
@@ -66,7 +66,7 @@ class ConnectorItem(Item, Connector):
             if key in self.bindings.keys():
                 self._bind(self.bindings[key], value)
             else:
-                ValueError("Binding {} is not exist in item {}".format(key, self.tag))
+                raise ValueError("Binding {} is not exist in item {}".format(key, self.tag))
 
 
 class ConnectorTwoWay(ConnectorItem):
-- 
2.43.0


From 54cc804f305e96756ed48a0e2a1678a37d64161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:40 +0000
Subject: [PATCH 40/42] fix: the numerical Jacobian leaves the model at the
 states it was called with

---
 numerous/engine/model/compiled_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numerous/engine/model/compiled_model.py b/numerous/engine/model/compiled_model.py
index ec13a0d..b647a39 100644
--- a/numerous/engine/model/compiled_model.py
+++ b/numerous/engine/model/compiled_model.py
@@ -85,6 +85,8 @@ class CompiledModel:
         for i in range(y_perm.shape[0]):
             y_i = y_perm[i, :]
             f_h[i, :] = self.func(t, y_i)
+        # back to the unperturbed states
+        self.func(t, y)
 
         diff = f_h - f
         diff /= h
-- 
2.43.0


From 01dd61d12f941ef1db7951f9a1b96895531c4137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:37 +0000
Subject: [PATCH 41/42] fix: native equations that read a variable before they
 assign it

The equation function of the native backend used the pointer of such a variable as its value, so that
the model could not be compiled.
---
 numerous/engine/model/ast_parser/equation_from_graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numerous/engine/model/ast_parser/equation_from_graph.py b/numerous/engine/model/ast_parser/equation_from_graph.py
index 64b4800..a2043f8 100644
--- a/numerous/engine/model/ast_parser/equation_from_graph.py
+++ b/numerous/engine/model/ast_parser/equation_from_graph.py
@@ -272,6 +272,8 @@ def function_from_graph_generic_llvm(g: Graph, var_def_, replace_name=None):
     else:
         fname = replace_name + '_llvm'
 
+    # all targets have to be known before the body is formatted: they may be read before they are assigned
+    function_body_from_graph(g, var_def_)
     body = function_body_from_graph(g, var_def_)
     var_def_.order_variables(g.arg_metadata)
     args = ast.arguments(posonlyargs=[], args=var_def_.get_formatted_order_args(), vararg=None, defaults=[],
-- 
2.43.0


From fb725dcb3b2ed8df1b552ff32aa802381decb554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:37 +0000
Subject: [PATCH 42/42] fix: clones and re-loaded models keep events, global
 variables and initial values

They had no events of the items, could not be reset, did not have the additional global variables of
the model, and a clone took over the variable objects of the original: assigning to a variable of the
original changed the memory of the clone.
---
 numerous/engine/model/model.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index f192311..2b88b83 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -10,6 +10,7 @@ from ctypes import CFUNCTYPE, c_int64, POINTER, c_double, c_void_p
 import numpy as np
 import time
 import uuid
+from copy import copy
 
 from numba import njit, carray
 import numpy.typing as npt
@@ -515,7 +516,8 @@ class Model:
                              self.imports, self.use_llvm, self.vars_ordered_values, self.variables,
                              self.state_idx, self.derivatives_idx, self.init_values, self.aliases,
                              eq_gen.generated_program.equations_llvm_opt, eq_gen.generated_program.max_var,
-                             eq_gen.generated_program.n_deriv), handle, protocol=pickle.HIGHEST_PROTOCOL)
+                             eq_gen.generated_program.n_deriv, self.global_variables, self.global_tag_vars,
+                             self.model_items), handle, protocol=pickle.HIGHEST_PROTOCOL)
             log.info('Model successfully exported to ' + filename)
 
         if self.clonable:
@@ -930,8 +932,8 @@ class Model:
     def from_file(cls, filename: str):
 
         system_, logger_level, imports, use_llvm, vars_ordered_values, variables, state_idx, \
-            derivatives_idx, init_values, aliases, equations_llvm_opt, max_var, n_deriv = pickle.load(
-            open(filename, "rb"))
+            derivatives_idx, init_values, aliases, equations_llvm_opt, max_var, n_deriv, global_variables, \
+            global_tag_vars, model_items = pickle.load(open(filename, "rb"))
         model = Model(system=system_, assemble=False, logger_level=logger_level,
                       use_llvm=use_llvm)
         model.variables = variables
@@ -941,6 +943,10 @@ class Model:
         model.derivatives_idx = derivatives_idx
         model.init_values = init_values
         model.aliases = aliases
+        model.global_variables = global_variables
+        model.global_tag_vars = global_tag_vars
+        model.model_items = model_items
+        model._initial_variables_dict = {k: v.value for k, v in variables.items() if not v.global_var}
 
         model._set_functions(equations_llvm_opt, n_deriv, max_var)
         return model
@@ -954,7 +960,13 @@ class Model:
         use_llvm = self.use_llvm
         model = Model(system=system_, assemble=False, logger_level=logger_level,
                       use_llvm=use_llvm)
-        model.variables = self.variables
+        # the variables of the clone have their initial values and are written to the memory of the clone
+        model.variables = {k: copy(v) for k, v in self.variables.items()}
+        for k, v in self._initial_variables_dict.items():
+            model.variables[k].update_value(v)
+        model._initial_variables_dict = self._initial_variables_dict
+        model.global_variables = {k: model.variables[v.id] for k, v in self.global_variables.items()}
+        model.global_tag_vars = {k: model.variables[v.id] for k, v in self.global_tag_vars.items()}
         model.imports = self.imports
         model.vars_ordered_values = self.vars_ordered_values
         model.state_idx = self.state_idx
@@ -963,6 +975,9 @@ class Model:
         model.aliases = self.aliases
 
         model._set_functions(self.equations_llvm_opt, self.n_deriv, self.max_var)
+        model.model_items = self.model_items
+        model.events = list(self.events)
+        model.timestamp_events = list(self.timestamp_events)
 
         if clonable:
             model.clonable = True
-- 
2.43.0

