From f5f6a1f2ab63e939533d0272baeee39e536ba13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:01 +0000
Subject: [PATCH 01/24] fix: get_vals_probs(cdf_cut) always removed the value
 0, whatever its probability

---
 src/randvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/randvar.py b/src/randvar.py
index a926bc0..7775c67 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -152,7 +152,7 @@ class RV(MetaRV):
         vals_probs[i] = (f'"{v}"', p) if v.is_number() else (f'{v}', p)
     if cdf_cut > 0:  # cut the bottom vals/probs and when stop total cut probs is less than cdf_cut
       sorted_vals_probs = sorted(vals_probs, key=lambda x: x[1])
-      accumelated_probs = tuple(accumulate(sorted_vals_probs, lambda x, y: (y[0], x[1] + y[1]), initial=(0, 0)))
+      accumelated_probs = tuple(accumulate(sorted_vals_probs, lambda x, y: (y[0], x[1] + y[1])))
       vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut)
       vals_probs = list((v, p) for v, p in vals_probs if v not in vals_to_cut)
     return tuple(vals_probs)
-- 
2.43.0


From 1898a5098286719adcfc48fc840331a8d5625990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:01 +0000
Subject: [PATCH 02/24] fix: rolling a die-valued number of dice returned a die
 whose positions and rolls were those of one base die

---
 src/roller.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/roller.py b/src/roller.py
index 5c13e7a..b34b1b2 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -72,9 +72,7 @@ def _roll(n: Union[int, MetaSeq, RV], d: Union[int, MetaSeq, RV]) -> MetaRV:
   if isinstance(n, RV):
     assert all(isinstance(v, int) for v in n.vals), 'RV must have int values to roll other dice'
     dies = tuple(roll(int(v), d) for v in n.vals)
-    result = RV.from_rvs(rvs=dies, weights=n.probs)
-    result.set_source(1, d)
-    return result
+    return RV.from_rvs(rvs=dies, weights=n.probs)  # a single die: its own source
   return _roll_int_rv(n, d)
 
 
-- 
2.43.0


From 9c39e68b24abb68e532f34bbb75cd92c511075fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:01 +0000
Subject: [PATCH 03/24] fix: roll() relabelled the die it was given and
 memoized rolls

---
 src/roller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/roller.py b/src/roller.py
index b34b1b2..fd28947 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -1,4 +1,5 @@
 from typing import Union, Iterable
+import copy
 import random
 import math
 
@@ -49,7 +50,7 @@ def roll(n: Union[T_ifsr, str], d: Union[T_ifsr, str, None] = None) -> MetaRV:
   if isinstance(n, MetaRV):
     assert isinstance(n, RV), 'n must be a RV if its MetaRV'
   # both arguments are now exactly int|Seq|RV
-  result = _roll(n, d)  # ROLL!
+  result = copy.copy(_roll(n, d))  # ROLL!  (copy: the result may be the given die itself or a memoized roll; do not relabel it)
   result._str_LHS_RHS = _setup_str_LHS_RHS(n, d)  # only used for the __str__ method
   return result
 
-- 
2.43.0


From 8c674e6cef644c9af64cc8af9c931535193a1256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:01 +0000
Subject: [PATCH 04/24] fix: "lowest first" position order was ignored when
 several positions were selected or rolls were expanded

---
 src/randvar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/randvar.py b/src/randvar.py
index 7775c67..1c17160 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -178,7 +178,8 @@ class RV(MetaRV):
     pdf_dict = {v: p for v, p in zip(D.vals, D.probs)}
     vals, probs = [], []
     FACTORIAL_N = utils.factorial(N)
-    for roll in combinations_with_replacement(D.vals[::-1], N):
+    ordered_vals = D.vals[::-1] if SETTINGS["position order"] == "highest first" else D.vals
+    for roll in combinations_with_replacement(ordered_vals, N):
       vals.append(factory.get_seq(_INTERNAL_SEQ_VALUE=roll))
       counts = defaultdict(int)  # fast counts
       cur_roll_probs = 1  # this is p(x_1)*...*p(x_n) where [x_1,...,x_n] is the current roll, if D is a uniform then this = 1 and is not needed.
-- 
2.43.0


From 1cc48fc3b7fbe8a3169c5d74937eddffc985dcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:01 +0000
Subject: [PATCH 05/24] fix: sum and positions of a StringSeq raised
 AttributeError

---
 src/string_rvs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/string_rvs.py b/src/string_rvs.py
index 26c2995..6d893c3 100644
--- a/src/string_rvs.py
+++ b/src/string_rvs.py
@@ -105,6 +105,8 @@ class StringVal(MetaStr):
 class StringSeq(seq.Seq):
   def __init__(self, source: tuple[T_ift, ...]):
     # do not call super().__init__ here
+    self._sum = None
+    self._one_indexed = 1
     source_lst: list[T_ift] = list(source)
     for i, x in enumerate(source_lst):
       if isinstance(x, str):
-- 
2.43.0


From 58a107bee5a94160035d875442bccf35f4474bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:01 +0000
Subject: [PATCH 06/24] fix: equal text values could hash differently depending
 on the order they were added

---
 src/string_rvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string_rvs.py b/src/string_rvs.py
index 6d893c3..7662ec2 100644
--- a/src/string_rvs.py
+++ b/src/string_rvs.py
@@ -99,7 +99,7 @@ class StringVal(MetaStr):
       return operator(float('inf'), other)
 
   def __hash__(self):
-    return hash((self.keys, tuple(self.data)))
+    return hash((self.keys, tuple(self.data[k] for k in self.keys)))
 
 
 class StringSeq(seq.Seq):
-- 
2.43.0


From 9f1cec6527219a590e898cc302cb3fc6bf94842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:01 +0000
Subject: [PATCH 07/24] fix: an exception inside a function permanently used up
 function depth

---
 src/decorators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decorators.py b/src/decorators.py
index e0cd5f8..5d93c83 100644
--- a/src/decorators.py
+++ b/src/decorators.py
@@ -151,8 +151,10 @@ def max_func_depth():
           SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = True
         return blackrv.BlankRV()
       SETTINGS['INTERNAL_CURR_DEPTH'] += 1
-      res = func(*args, **kwargs)
-      SETTINGS['INTERNAL_CURR_DEPTH'] -= 1
+      try:
+        res = func(*args, **kwargs)
+      finally:
+        SETTINGS['INTERNAL_CURR_DEPTH'] -= 1
       return res if res is not None else blackrv.BlankRV()
     return wrapper
   return decorator
-- 
2.43.0


From 86ce89f6be484621168b0837967d31ef9462ad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:01 +0000
Subject: [PATCH 08/24] fix: a function call whose first part is itself a call
 crashed the parser

---
 src/parser/myparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/myparser.py b/src/parser/myparser.py
index c11f818..7f19b0b 100644
--- a/src/parser/myparser.py
+++ b/src/parser/myparser.py
@@ -606,7 +606,7 @@ def p_call_elements_expr(p):
     call_elements : expression
                 | call_elements expression
     '''
-    if p[1].type == NodeType.CALL:  # recursive case
+    if len(p) == 3:  # recursive case
         wrapped = Node(NodeType.CALL_EXPR, p[2])
         p[0] = p[1].with_child(wrapped)
     else:
-- 
2.43.0


From 430c728c98e8a063bc9a9515ef69bc68a0094c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:30 +0000
Subject: [PATCH 09/24] fix: functions whose name is empty, a Python keyword, a
 variable or a helper of the generated code broke the program (or its library
 calls)

---
 src/parser/myparser.py        |  4 +++-
 src/parser/python_resolver.py | 29 ++++++++++++++---------------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/parser/myparser.py b/src/parser/myparser.py
index 7f19b0b..6a7af21 100644
--- a/src/parser/myparser.py
+++ b/src/parser/myparser.py
@@ -377,7 +377,9 @@ def p_funcname_def_impossibletocall(p):
     # If a function has this in the name then it's impossible to call because a d is evaluated into an expression
     # however, if a function with this name IS included BUT never called then the code should execute fine. Thus this rule is added
     # SAME AS ABOVE
-    if isinstance(p[1], Node):  # recursive case
+    if len(p) == 1:  # function without a name
+        p[0] = Node(NodeType.FUNCNAME_DEF)
+    elif isinstance(p[1], Node):  # recursive case
         p[0] = p[1].with_child(p[2])
     else:  # base case
         p[0] = Node(NodeType.FUNCNAME_DEF, p[1])
diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 5186b6c..5152efd 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -1,4 +1,6 @@
+import keyword
 import logging
+import re
 from typing import Union
 
 from .myparser import Node, NodeType
@@ -17,7 +19,7 @@ CONST = {
   'function library': ('absolute_X', 'X_contains_X', 'count_X_in_X', 'explode_X', 'highest_X_of_X', 'lowest_X_of_X', 'middle_X_of_X', 'highest_of_X_and_X', 'lowest_of_X_and_X', 'maximum_of_X', 'reverse_X', 'sort_X', 'true_div_X_X'),
   'oplib': {'@': 'myMatmul', 'len': 'myLen', '~': 'myInvert', '&': 'myAnd', '|': 'myOr'},
 }
-_FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['roll'], CONST['range'], 'max_func_depth', 'anydice_casting', 'settings_set'))
+_FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['seq'], CONST['roll'], CONST['range'], 'len', 'vars', 'max_func_depth', 'anydice_casting', 'settings_set', *keyword.kwlist))
 
 
 class PythonResolver:
@@ -34,7 +36,7 @@ class PythonResolver:
         self._COMPILER_FLAG_NON_LOCAL_SCOPE = flags.pop('COMPILER_FLAG_NON_LOCAL_SCOPE', False)
         # this flag is to support operators on ints: @, len, and ~.  These operators (on ints) are rarely used in actual code.
         self._COMPILER_FLAG_OPERATOR_ON_INT = flags.pop('COMPILER_FLAG_OPERATOR_ON_INT', False)
-        # prepends all func defs and func calls with a string to prevent collisions with user-defined functions checked against _FUNCS_MAY_COLLIDE (resolving turns it on when _funclib_conflicted is True and resets resolving)
+        # prepends all user-defined func defs and func calls with a string to prevent collisions (names that are known to collide are always prepended, see _get_func_name)
         self._COMPILER_FLAG_FUNC_LIB_CONFLICT = flags.pop('COMPILER_FLAG_FUNC_LIB_CONFLICT', False)
         # this flag is to check if functions are defined. otherwise [func] might crash at run time or [list] might call python's internal "list()" function
         self._COMPILER_FLAG_FUNC_EXIST_CHECK = flags.pop('COMPILER_FLAG_FUNC_EXIST_CHECK', True)
@@ -72,13 +74,6 @@ class PythonResolver:
                 assert f_name in self._defined_functions, f'Unknown function {f_name} not defined. Currently callable functions: {self._user__defined_functions}'
         assert self._output_counter > 0, 'No outputs made. Did you forget to call "output expr"?'
 
-        if any(f in self._defined_functions for f in _FUNCS_MAY_COLLIDE):  # collision -> reset with flag (if another collision then crash)
-            assert not self._COMPILER_FLAG_FUNC_LIB_CONFLICT, 'Function library conflict despite flag; this should not happen'
-            self._COMPILER_FLAG_FUNC_LIB_CONFLICT = True
-            self.reset_state()
-            self.resolve()
-            return
-
         # remove multiple nearby newlines
         result = list(result.split('\n'))
         result = [x for i, x in enumerate(result) if i == 0 or x.strip() != '' or result[i - 1].strip() != '']
@@ -88,6 +83,14 @@ class PythonResolver:
         assert self.result_text is not None, 'No text generated. Call resolve() first'
         return self.result_text
 
+    def _get_func_name(self, parts: list) -> str:
+        """Python name of the function [parts]. Names that are Python keywords, that the generated code itself uses or that may be variables (e.g. "X") get a prefix no user-defined name can have"""
+        name = '_'.join(parts)
+        collides = name in _FUNCS_MAY_COLLIDE or re.fullmatch('[X_]*', name)
+        if collides or (self._COMPILER_FLAG_FUNC_LIB_CONFLICT and name not in CONST['function library']):
+            return 'f0_' + name
+        return name
+
     def _indent_resolve(self, node: Union['Node', 'str']) -> str:
         """Given a node, resolve it and indent it. node to indent: if/elif/else, loop, function"""
         return self._indent_str(self.resolve_node(node))
@@ -152,8 +155,6 @@ class PythonResolver:
             nameargs, code = node
             assert isinstance(nameargs, Node) and nameargs.type == NodeType.FUNCNAME_DEF, f'Error in parsing fuction node: {node}'
             func_name, func_args, func_arg_names = [], [], []
-            if self._COMPILER_FLAG_FUNC_LIB_CONFLICT:
-                func_name.append('f')
             for x in nameargs:  # nameargs is a list of strings and expressions e.g. [attack 3d6 if crit 6d6 and double crit 12d6]
                 assert isinstance(x, str) or (isinstance(x, Node) and x.type in (NodeType.PARAM, NodeType.PARAM_WITH_DTYPE)), f'Error in parsing function node: {node}'
                 if isinstance(x, str):
@@ -174,7 +175,7 @@ class PythonResolver:
                 fix_dups_in_args(func_args, func_arg_names)
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 func_args.append('vars')
-            func_name = '_'.join(func_name)
+            func_name = self._get_func_name(func_name)
             self._defined_functions.add(func_name)
             self._user__defined_functions.append(func_name)
             func_decorator = CONST['func_decorator']
@@ -262,8 +263,6 @@ class PythonResolver:
             return f'{CONST["range"]}({l}, {r})'
         elif node.type == NodeType.CALL:
             name, args = [], []
-            if self._COMPILER_FLAG_FUNC_LIB_CONFLICT:
-                name.append('f')
             for x in node:
                 if isinstance(x, Node) and x.type == NodeType.CALL_EXPR:  # expression
                     args.append(self.resolve_node(x.val))
@@ -274,7 +273,7 @@ class PythonResolver:
                     assert False, f'Unknown node in call: {x}, parent: {node}'
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 args.append('vars')
-            name = '_'.join(name)
+            name = self._get_func_name(name)
             self._called_functions.add(name)
             return f'{name}({", ".join(args)})' if args else f'{name}()'
 
-- 
2.43.0


From 76e48d2696c2d0720bce581d78d8d560be27b90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:30 +0000
Subject: [PATCH 10/24] fix: duplicate parameters without a type crashed the
 compiler

---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 5152efd..90e6538 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -290,5 +290,5 @@ def fix_dups_in_args(func_args, func_arg_names):
     N = len(func_args)
     for i in range(N - 1, -1, -1):  # only first is kept
         if func_arg_names.count(func_arg_names[i]) > 1:  # IS DUP
-            func_args[i] = f'dummy{i}: ' + func_args[i].split(': ')[1]  # TODO remove colon so anydice_casting doesn't waste time looping over non-used args
+            func_args[i] = f'dummy{i}' + func_args[i][len(func_arg_names[i]):]  # TODO remove colon so anydice_casting doesn't waste time looping over non-used args
             func_arg_names[i] = f'dummy{i}'
-- 
2.43.0


From d5a28dc79d12cf9d20598574aa93acb9263026c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:30 +0000
Subject: [PATCH 11/24] fix: backslashes and control characters in a string
 were executed as Python escapes

---
 src/parser/python_resolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 90e6538..07e3f61 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -110,6 +110,7 @@ class PythonResolver:
             str_list = []
             for x in node:
                 if isinstance(x, str):
+                    x = x.replace('\\', '\\\\').replace('\r', '\\r').replace('\0', '\\x00')  # escape what is special in a python string
                     str_list.append(x.replace('{', '{{').replace('}', '}}'))  # escape curly braces
                 else:
                     str_list.append(self.resolve_node(x))
-- 
2.43.0


From 82219337311e6a92700f3f5c8a5757996e2aee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:30 +0000
Subject: [PATCH 12/24] fix: numbers with leading zeros made the generated code
 invalid

---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 07e3f61..68bcffd 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -122,7 +122,7 @@ class PythonResolver:
             return '{' + node.val + '}'
         elif node.type == NodeType.NUMBER:  # number in an expression
             assert isinstance(node.val, str), f'Expected str of a number, got {node.val}  type: {type(node.val)}'
-            return str(node.val)
+            return str(int(node.val))
         elif node.type == NodeType.NUMBER_DECIMAL:  # number in an expression
             val1, val2 = node
             assert isinstance(val1, str) and isinstance(val2, str), f'Expected str of a number, got {val1} and {val2}'
-- 
2.43.0


From ce75a827838c4ecfe7704b8d430bdfd6aa041b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:30 +0000
Subject: [PATCH 13/24] fix: generated Python regrouped expressions (-2^2,
 2^3^2, 3>2>1, A=1 & B=2)

---
 src/parser/python_resolver.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 68bcffd..51a92b6 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -99,6 +99,17 @@ class PythonResolver:
         """Indent a string by self.indent_level spaces for each new line"""
         return '\n'.join(' ' * self.INDENT_LEVEL + x for x in s.split('\n'))
 
+    def _resolve_operand(self, node: Union['Node', 'str'], parent_op: str) -> str:
+        """Resolve an operand of a binary operator, in parentheses unless python groups it the same way (python's comparisons chain, | and & bind tighter than comparisons, ** is right-associative and binds tighter than unary operators)"""
+        text = self.resolve_node(node)
+        arithmetic = ('+', '-', '*', '/', '//')
+        if isinstance(node, Node) and node.type == NodeType.EXPR_OP and node.vals[0] not in ('dm', 'ndm', '@'):
+            if parent_op not in arithmetic or node.vals[0] not in arithmetic:
+                return f'({text})'
+        if isinstance(node, Node) and node.type == NodeType.UNARY and parent_op == '**':
+            return f'({text})'
+        return text
+
     def resolve_node(self, node: Union['Node', 'str']) -> str:  # noqa: C901
         assert node is not None, 'Got None'
         assert not isinstance(node, str), f'resolver error, not sure what to do with a string [{node}]. All strings should be a Node ("string", str|strvar...)'
@@ -240,9 +251,9 @@ class PythonResolver:
             elif op == '&' or op == '|':
                 if self._COMPILER_FLAG_OPERATOR_ON_INT:
                     return f'{CONST["oplib"][op]}({self.resolve_node(left)}, {self.resolve_node(right)})'
-                return f'{self.resolve_node(left)} {op} {self.resolve_node(right)}'
+                return f'{self._resolve_operand(left, op)} {op} {self._resolve_operand(right, op)}'
             else:  # all other operators
-                return f'{self.resolve_node(left)} {op} {self.resolve_node(right)}'
+                return f'{self._resolve_operand(left, op)} {op} {self._resolve_operand(right, op)}'
         elif node.type == NodeType.UNARY:
             op, expr = node
             if op == '!':
-- 
2.43.0


From a3c956298b3423013878c50a5bf7cbb51b20c04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:30 +0000
Subject: [PATCH 14/24] fix: positions of dice were wrong when the cumulative
 weights regroup or simplify (reduced weights, settings changed later)

---
 src/randvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/randvar.py b/src/randvar.py
index 1c17160..6aa9cd4 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -242,7 +242,7 @@ class RV(MetaRV):
   def _get_kth_order_statistic(self, draws: int, k: int):
     '''Get the k-th smallest value of n draws: k@RV where RV is n rolls of a die'''
     # k-th largest value of n draws: γ@RV where RV is n rolls of a die | FOR DISCRETE (what we need): https://en.wikipedia.org/wiki/Order_statistic#Dealing_with_discrete_variables
-    cdf = self.get_cdf().probs  # P(X <= x)
+    cdf = tuple(accumulate(self.probs))  # P(X <= x)
     sum_probs = self._get_sum_probs()
     p1 = tuple(cdf_x - p_x for p_x, cdf_x in zip(self.probs, cdf))  # P(X < x)
     p2 = self.probs  # P(X = x)
-- 
2.43.0


From 590ae913cc420c25182de6b103db0548873149bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:30 +0000
Subject: [PATCH 15/24] fix: a memoized roll was reused under other settings
 and for faces of another number type

---
 src/roller.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/roller.py b/src/roller.py
index fd28947..d1d40dd 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -6,6 +6,7 @@ import math
 from .typings import T_ifsr, MetaRV, MetaSeq
 from . import factory
 from .randvar import RV
+from .settings import SETTINGS
 from . import blackrv
 
 
@@ -87,14 +88,15 @@ def _roll_int_rv(n: int, d: RV) -> RV:
     return RV.from_const(0)
   if n == 1:
     return d
-  if (n, d.vals, d.probs) in _MEMOIZED_ROLLS:
-    return _MEMOIZED_ROLLS[(n, d.vals, d.probs)]
+  key = (n, d.vals, d.probs, tuple(type(v) for v in d.vals), SETTINGS['RV_TRUNC'], SETTINGS['RV_IGNORE_ZERO_PROBS'])
+  if key in _MEMOIZED_ROLLS:
+    return _MEMOIZED_ROLLS[key]
   half = _roll_int_rv(n // 2, d)
   full = half + half
   if n % 2 == 1:
     full = full + d
   full.set_source(n, d)
-  _MEMOIZED_ROLLS[(n, d.vals, d.probs)] = full
+  _MEMOIZED_ROLLS[key] = full
   return full
 
 
-- 
2.43.0


From 3dffeeebf615e50b5888e5bb5e0532b41b13bf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:30 +0000
Subject: [PATCH 16/24] fix: a float given for a sequence parameter was not
 cast to a sequence

---
 src/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decorators.py b/src/decorators.py
index 5d93c83..30cd81f 100644
--- a/src/decorators.py
+++ b/src/decorators.py
@@ -73,7 +73,7 @@ def anydice_type_casting(verbose=False):  # noqa: C901
         elif expected_type == T_N and isinstance(arg_val, MetaRV):
           hard_params[k] = (arg_val, expected_type)
           continue
-        elif expected_type == T_S and isinstance(arg_val, int):
+        elif expected_type == T_S and isinstance(arg_val, (int, float)):
           new_val = get_seq([arg_val])
         elif expected_type == T_S and isinstance(arg_val, MetaRV):
           hard_params[k] = (arg_val, expected_type)
-- 
2.43.0


From 32793ec989597f67fd90883a28a0bc8237db67f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:28 +0000
Subject: [PATCH 17/24] fix: compiling removed the caller's compiler flags from
 their dictionary

---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 51a92b6..9f65355 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -28,7 +28,7 @@ class PythonResolver:
         self.root = root
         self.reset_state()
 
-        flags = flags or {}
+        flags = dict(flags or {})  # a copy: the caller's flags must not change
         # this flag is for a very nasty behaviour in anydice where a functions variables are a temporary copy of the callers variables; see https://anydice.com/program/394f0 and https://anydice.com/program/394f1 for the ugly behaviour
         # handling this is very ugly, we pass around a dictionary of all the code's variables and copy it for each function call
         # this makes the output code look unpleasant as every variable is accessed as dict['VAR'] instead of just VAR.
-- 
2.43.0


From 91a120fceb2d6ebca64bef52081c5608df004178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:28 +0000
Subject: [PATCH 18/24] fix: [true div A B] failed in programs compiled with
 the non-local-scope flag

---
 src/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.py b/src/utils.py
index 963b533..883ff20 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -60,5 +60,5 @@ def myor(a, b):
     return a | b
 
 
-def true_div(a, b):
+def true_div(a, b, *args, **kwargs):
     return a / b
-- 
2.43.0


From 60a0738cf05154b4049feb96232911716c9c2ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:31 +0000
Subject: [PATCH 19/24] fix: variables named T_N, T_S or T_D replaced the
 parameter types of the generated code

---
 src/parser/python_resolver.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 9f65355..51307a0 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -14,6 +14,7 @@ CONST = {
   'seq': 'get_seq',
   'roll': 'roll',
   'range': 'myrange',
+  'types': {'s': 'T_S', 'n': 'T_N', 'd': 'T_D'},
   'func_decorator': '@anydice_casting()',  # with func depth limit
   'setter': lambda name, value: f'settings_set({name}, {value})',
   'function library': ('absolute_X', 'X_contains_X', 'count_X_in_X', 'explode_X', 'highest_X_of_X', 'lowest_X_of_X', 'middle_X_of_X', 'highest_of_X_and_X', 'lowest_of_X_and_X', 'maximum_of_X', 'reverse_X', 'sort_X', 'true_div_X_X'),
@@ -91,6 +92,11 @@ class PythonResolver:
             return 'f0_' + name
         return name
 
+    @staticmethod
+    def _get_var_name(name: str) -> str:
+        """Python name of the variable [name]. The names the generated code uses for parameter types get a prefix no variable can have"""
+        return 'v0_' + name if name in CONST['types'].values() else name
+
     def _indent_resolve(self, node: Union['Node', 'str']) -> str:
         """Given a node, resolve it and indent it. node to indent: if/elif/else, loop, function"""
         return self._indent_str(self.resolve_node(node))
@@ -130,7 +136,7 @@ class PythonResolver:
             assert isinstance(node.val, str), f'Expected string for strvar, got {node.val}'
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 return "{vars['" + node.val + "']}"
-            return '{' + node.val + '}'
+            return '{' + self._get_var_name(node.val) + '}'
         elif node.type == NodeType.NUMBER:  # number in an expression
             assert isinstance(node.val, str), f'Expected str of a number, got {node.val}  type: {type(node.val)}'
             return str(int(node.val))
@@ -142,7 +148,7 @@ class PythonResolver:
             assert isinstance(node.val, str), f'Expected str of a variable, got {node.val}'
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 return f"vars['{node.val}']"
-            return node.val
+            return self._get_var_name(node.val)
         elif node.type == NodeType.GROUP:  # group inside an expression, node.val is an expression
             return f'({self.resolve_node(node.val)})'
 
@@ -173,14 +179,14 @@ class PythonResolver:
                     func_name.append(x)
                 elif x.type == NodeType.PARAM:
                     arg_name = x.val
-                    func_args.append(arg_name)
+                    func_args.append(self._get_var_name(arg_name))
                     func_arg_names.append(arg_name)
                     func_name.append('X')
                 else:
                     arg_name, arg_dtype = x
                     assert isinstance(arg_dtype, str), f'Expected string for arg_dtype, got {arg_dtype}'
-                    arg_dtype = {'s': 'T_S', 'n': 'T_N', 'd': 'T_D'}.get(arg_dtype, arg_dtype)
-                    func_args.append(f'{arg_name}: {arg_dtype}')
+                    arg_dtype = CONST['types'].get(arg_dtype, arg_dtype)
+                    func_args.append(f'{self._get_var_name(arg_name)}: {arg_dtype}')
                     func_arg_names.append(arg_name)
                     func_name.append('X')
             if has_dups(func_arg_names):
@@ -194,7 +200,7 @@ class PythonResolver:
             func_def = f'def {func_name}({", ".join(func_args)}):'
             func_code = ''
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
-                func_code += self._indent_str('vars = vars.copy(); ' + '; '.join([f'vars["{n}"] = {n}' for n in func_arg_names])) + '\n'
+                func_code += self._indent_str('vars = vars.copy(); ' + '; '.join([f'vars["{n}"] = {self._get_var_name(n)}' for n in func_arg_names])) + '\n'
             func_code += self._indent_resolve(code)
             return f'{func_decorator}\n{func_def}\n{func_code}' + '\n' * self.NEWLINES_AFTER_FUNCTION
         elif node.type == NodeType.RESULT:
@@ -221,10 +227,10 @@ class PythonResolver:
         # LOOP
         elif node.type == NodeType.LOOP:
             var, over, code = node
-            res_header = f'for {var} in {self.resolve_node(over)}:'
+            res_header = f'for {self._get_var_name(var)} in {self.resolve_node(over)}:'
             res_code = ''
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
-                res_code += self._indent_str(f"vars['{var}'] = {var}") + '\n'  # I hate this but it must happen
+                res_code += self._indent_str(f"vars['{var}'] = {self._get_var_name(var)}") + '\n'  # I hate this but it must happen
             res_code += self._indent_resolve(code)
             return res_header + '\n' + res_code + '\n' * self.NEWLINES_AFTER_LOOP
 
@@ -233,7 +239,7 @@ class PythonResolver:
             var, val = node
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 return f"vars['{var}'] = {self.resolve_node(val)}"
-            return f'{var} = {self.resolve_node(val)}'
+            return f'{self._get_var_name(var)} = {self.resolve_node(val)}'
 
         # EXPRESSIONS
         elif node.type == NodeType.EXPR_OP:
@@ -302,5 +308,5 @@ def fix_dups_in_args(func_args, func_arg_names):
     N = len(func_args)
     for i in range(N - 1, -1, -1):  # only first is kept
         if func_arg_names.count(func_arg_names[i]) > 1:  # IS DUP
-            func_args[i] = f'dummy{i}' + func_args[i][len(func_arg_names[i]):]  # TODO remove colon so anydice_casting doesn't waste time looping over non-used args
+            func_args[i] = f'dummy{i}' + func_args[i][len(PythonResolver._get_var_name(func_arg_names[i])):]  # TODO remove colon so anydice_casting doesn't waste time looping over non-used args
             func_arg_names[i] = f'dummy{i}'
-- 
2.43.0


From 92a72d18c06f3dcb034a8e0e83381e194d36c314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:55 +0000
Subject: [PATCH 20/24] fix: "position order" could be set to a blank die

---
 src/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/settings.py b/src/settings.py
index 43562be..8429734 100644
--- a/src/settings.py
+++ b/src/settings.py
@@ -18,7 +18,7 @@ SETTINGS = DEFAULT_SETTINGS.copy()
 
 def settings_set(name, value):
   if name == "position order":
-    assert value in ("highest first", "lowest first"), 'position order must be "highest first" or "lowest first"'
+    assert isinstance(value, str) and value in ("highest first", "lowest first"), 'position order must be "highest first" or "lowest first"'
   elif name == "explode depth":
     assert isinstance(value, int) and value > 0, '"explode depth" can only be set to a positive integer (the default is 2) got ' + str(value)
   elif name == "maximum function depth":
-- 
2.43.0


From bf3cb877382cb2666b86e6c9d70ee8bb0724ea2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:33 +0000
Subject: [PATCH 21/24] fix: a text value compared with or added to a die or
 sequence ignored the die's faces or the sequence's elements

---
 src/string_rvs.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/string_rvs.py b/src/string_rvs.py
index 7662ec2..3143521 100644
--- a/src/string_rvs.py
+++ b/src/string_rvs.py
@@ -2,7 +2,7 @@
 from typing import Union
 import operator as op
 
-from .typings import MetaStr, T_if
+from .typings import MetaRV, MetaSeq, MetaStr, T_if
 from . import seq
 
 T_ift = Union[T_if, str, 'StringVal']
@@ -33,6 +33,8 @@ class StringVal(MetaStr):
     return len(self.keys) == 1 and re.match(r'^-?\d+(\.\d+)?$', self.keys[0])
 
   def __add__(self, other):
+    if isinstance(other, (MetaRV, MetaSeq)):  # the die or sequence decides
+      return NotImplemented
     if not isinstance(other, StringVal):
       other = StringVal.from_const(other)
     newdict = self.data.copy()
@@ -73,18 +75,24 @@ class StringVal(MetaStr):
     return self._compare_to(other, op.gt)
 
   def __eq__(self, other):
+    if isinstance(other, (MetaRV, MetaSeq)):
+      return NotImplemented
     if isinstance(other, StringVal):
       return self.keys == other.keys and self.data == other.data
     else:
       return False
 
   def __ne__(self, other):
+    if isinstance(other, (MetaRV, MetaSeq)):
+      return NotImplemented
     if isinstance(other, StringVal):
       return self.keys != other.keys or self.data != other.data
     else:
       return True
 
   def _compare_to(self, other, operator):
+    if isinstance(other, (MetaRV, MetaSeq)):
+      return NotImplemented
     if isinstance(other, StringVal):
       i = 0
       while True:
-- 
2.43.0


From a672ece79745439dafa8e4aa74ca940424307c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:59 +0000
Subject: [PATCH 22/24] fix: [sort], [reverse] and [maximum of] failed on
 sequences and dice with text

---
 src/funclib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/funclib.py b/src/funclib.py
index 8970060..0fd58bd 100644
--- a/src/funclib.py
+++ b/src/funclib.py
@@ -1,6 +1,7 @@
 # recreations of functions in https://anydice.com/docs/function-library/
 from .typings import T_N, T_S, T_D
 from .seq import Seq
+from .factory import get_seq
 from .settings import SETTINGS
 from .roller import roll
 from .decorators import anydice_type_casting
@@ -38,7 +39,7 @@ def reverse_VANILLA_SLOW(SEQUENCE: T_S, *args, **kwargs):
 
 @anydice_type_casting()
 def reverse(SEQUENCE: T_S, *args, **kwargs):
-    return Seq(SEQUENCE._seq[::-1])
+    return get_seq(SEQUENCE._seq[::-1])
 
 
 @anydice_type_casting()
@@ -129,7 +130,7 @@ def _sort_helper_add_N_to_S(N: T_N, S: T_S, *args, **kwargs):
 
 @anydice_type_casting()
 def sort(SEQUENCE: T_S, *args, **kwargs):
-    return Seq(sorted(SEQUENCE, reverse=True))
+    return get_seq(sorted(SEQUENCE, reverse=True))
 
 # MORE FUNCTIONS
 
-- 
2.43.0


From c354f57b27c3a787a1dcf41e2187740a15762e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:27 +0000
Subject: [PATCH 23/24] fix: results whose total weight exceeds the float range
 failed with OverflowError (highest of 400d6)

---
 src/randvar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/randvar.py b/src/randvar.py
index 6aa9cd4..6d1e83f 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -449,8 +449,8 @@ def _INTERNAL_PROB_LIMIT_VALS(rv: RV, sum_limit: float = 10e30):
   sum_ = rv._get_sum_probs()
   if sum_ <= sum_limit:
     return rv
-  normalizing_const = int(10e10 * (sum_ // sum_limit))
-  logger.warning(f'WARNING reducing probabilities | sum limit {sum_limit}, sum{sum_:.1g}, NORMALIZING BY {normalizing_const:.1g} | from my calc, abs err <= {1 / (sum_ / normalizing_const - 1)}')
+  normalizing_const = 10**11 * (sum_ // int(sum_limit))  # integers only: sum_ may be too large for a float
+  logger.warning(f'WARNING reducing probabilities | sum limit {sum_limit}, sum 10^{math.log10(sum_):.1f}, NORMALIZING BY 10^{math.log10(normalizing_const):.1f} | from my calc, abs err <= {1 / (sum_ / normalizing_const - 1)}')
   # napkin math for the error. int(x) = x - x_ϵ where x_ϵ∈[0,1) is for the rounding error. Don't quote me on this math, not 100% sure.
   # P(x_i )=p_i/(∑p_i )  before normalization (p_i is an integer probability unbounded)
   # P(x_i )=p_i/(∑▒Nint(p_i/N) )  after normalization
-- 
2.43.0


From 6b3503daf72d38a30f8def7312846cfc98f59b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:35 +0000
Subject: [PATCH 24/24] fix: errors in programs of several lines named a wrong
 line (counted twice; newlines in comments and strings not counted)

---
 src/parser/myparser.py       | 3 ++-
 src/parser/parse_and_exec.py | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/myparser.py b/src/parser/myparser.py
index 6a7af21..cba1d60 100644
--- a/src/parser/myparser.py
+++ b/src/parser/myparser.py
@@ -74,7 +74,7 @@ t_UPPERNAME = r'[A-Z_][A-Z_]*'
 def t_ignore_COMMENT(t):
     r'\\(.|\n)*?\\'
     # comment is any number of chars (including new lines) begining with \ and ending with \
-    pass
+    t.lexer.lineno += t.value.count('\n')
 
 
 def t_NUMBER(t):
@@ -118,6 +118,7 @@ def t_INITIAL_ignore_newline(t):
 def t_ANY_error(t):
     col_pos = find_column(t.lexer.lexdata, t.lexpos)
     t.lexer.LEX_ILLEGAL_CHARS.append((t.value[0], t.lexpos, t.lexer.lineno, col_pos))
+    t.lexer.lineno += t.value[0].count('\n')
     t.lexer.skip(1)
 
 
diff --git a/src/parser/parse_and_exec.py b/src/parser/parse_and_exec.py
index a60651b..1ef6698 100644
--- a/src/parser/parse_and_exec.py
+++ b/src/parser/parse_and_exec.py
@@ -24,6 +24,7 @@ def do_lex(to_parse, lexer, verbose_lex=False):
 
 
 def do_yacc(to_parse, lexer, yaccer, verbose_yacc=False):
+  lexer.lineno = 1  # the text is read again from its first line
   yacc_ret: Node = yaccer.parse(to_parse, lexer=lexer)  # generate the AST
   if verbose_yacc and yacc_ret:
     for x in yacc_ret:
-- 
2.43.0

