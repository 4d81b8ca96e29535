From 3a1449043848d3eb9e7be06fc9443b35db1b6fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:14 +0000
Subject: [PATCH 01/59] fix: keep the product of constant terms when
 distributing multiplication over addition

---
 histbook/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 8b864ea..aca5deb 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -789,7 +789,7 @@ class RingAlgebraAddLike(RingAlgebra):
         pos += [op.subop.combine(x, y) for x, y in itertools.product(left.neg, right.neg)]
         neg += [op.subop.combine(x, y) for x, y in itertools.product(left.neg, right.pos)]
 
-        return op.collect(op(op.identity, tuple(pos), tuple(neg)))
+        return op.collect(op(op.subop.calcval(left.const, right.const), tuple(pos), tuple(neg)))
 
     def simplify(self):
         out = self.__class__(self.const, self.pos, self.neg)
-- 
2.43.0


From 1dbaae4b90ac24b7f5ab77faa5edfbd2024da37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:14 +0000
Subject: [PATCH 02/59] fix: cancel common factors against the remaining
 numerator, not the original one

---
 histbook/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index aca5deb..7197b7c 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -723,7 +723,7 @@ class RingAlgebraAddLike(RingAlgebra):
             pos, neg = list(x.pos), []
             for y in x.neg:
                 try:
-                    i = x.pos.index(y)
+                    i = pos.index(y)
                 except ValueError:
                     neg.append(y)
                 else:
-- 
2.43.0


From 3ce9a4a3baa428a8473fec76fc173de8c4a50d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:14 +0000
Subject: [PATCH 03/59] fix: fold constants of '//', '%', '**' and '^' by
 operator symbol

---
 histbook/expr.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 7197b7c..383898c 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -229,15 +229,15 @@ class Expr(object):
                 raise ExpressionError("only unary operators supported: 'not', '-', '+', and '~': {0}".format(histbook.util.astunparse.tostring(node).strip()))
 
             elif isinstance(node, ast.BinOp):
-                if   isinstance(node.op, ast.Add):      fcn = "+"
-                elif isinstance(node.op, ast.Sub):      fcn = "-"
-                elif isinstance(node.op, ast.Mult):     fcn = "*"
-                elif isinstance(node.op, ast.Div):      fcn = "/"
+                if   isinstance(node.op, ast.Add):      op = fcn = "+"
+                elif isinstance(node.op, ast.Sub):      op = fcn = "-"
+                elif isinstance(node.op, ast.Mult):     op = fcn = "*"
+                elif isinstance(node.op, ast.Div):      op = fcn = "/"
                 elif isinstance(node.op, ast.FloorDiv): op, fcn = "//", "numpy.floor_divide"
                 elif isinstance(node.op, ast.Mod):      op, fcn = "%",  "fmod"
                 elif isinstance(node.op, ast.Pow):      op, fcn = "**", "pow"
-                elif isinstance(node.op, ast.BitOr):    fcn = "|"
-                elif isinstance(node.op, ast.BitAnd):   fcn = "&"
+                elif isinstance(node.op, ast.BitOr):    op = fcn = "|"
+                elif isinstance(node.op, ast.BitAnd):   op = fcn = "&"
                 elif isinstance(node.op, ast.BitXor):   op, fcn = "^",  "xor"
                 else:
                     raise ExpressionError("only binary operators supported: '+', '-', '*', '/', '//', '%', '**', '|', '&', and '^': {0}".format(histbook.util.astunparse.tostring(node).strip()))
@@ -246,7 +246,7 @@ class Expr(object):
                 right = recurse(node.right)
 
                 if isinstance(left, Const) and isinstance(right, Const):
-                    return Const(calculate[fcn](left.value, right.value))
+                    return Const(calculate[op](left.value, right.value))
 
                 if fcn == "+":
                     return PlusMinus.combine(left, right).simplify()
-- 
2.43.0


From 2e8ddaa1df18fba3d8e7a57bfa4f4c81750e830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:14 +0000
Subject: [PATCH 04/59] fix: raise the error for unhandled syntax in an
 expression

---
 histbook/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 383898c..22f6d96 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -321,7 +321,7 @@ class Expr(object):
                 return Call(fcn, *(recurse(x, relations=(i == 0 and fcn == "where")) for i, x in enumerate(node.args)))
 
             else:
-                ExpressionError("unhandled syntax in expression: {0}".format(histbook.util.astunparse.tostring(node).strip()))
+                raise ExpressionError("unhandled syntax in expression: {0}".format(histbook.util.astunparse.tostring(node).strip()))
 
         return recurse(pyast, relations=True)
         
-- 
2.43.0


From 5c6820ba8cfbe2fd306c190d42285c31adb30c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:14 +0000
Subject: [PATCH 05/59] fix: return the comparison of differently named
 broadcast constants

---
 histbook/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 22f6d96..05e8768 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -579,7 +579,7 @@ class BroadcastConst(Name):
                     else:
                         return type(self.value).__name__ < type(other.value).__name__
                 else:
-                    self.name < other.name
+                    return self.name < other.name
             else:
                 return type(self.name).__name__ < type(other.name).__name__
         else:
-- 
2.43.0


From 059dc412c03481203b9682a748cb87a2658ef3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:14 +0000
Subject: [PATCH 06/59] fix: apply the negation of negated predicates when
 filling

---
 histbook/instr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/histbook/instr.py b/histbook/instr.py
index 15ab458..0e4b4c5 100644
--- a/histbook/instr.py
+++ b/histbook/instr.py
@@ -159,7 +159,10 @@ def totree(expr):
 
         return histbook.expr.Call(fcn, left, right)
 
-    if isinstance(expr, (histbook.expr.Const, histbook.expr.Name, histbook.expr.Predicate)):
+    if isinstance(expr, histbook.expr.Predicate) and not expr.positive:
+        return histbook.expr.Call("numpy.logical_not", expr.negate())
+
+    elif isinstance(expr, (histbook.expr.Const, histbook.expr.Name, histbook.expr.Predicate)):
         return expr
 
     elif isinstance(expr, histbook.expr.Call):
-- 
2.43.0


From f5e57833230dfe285df55dc9c21c8b8c0b71c2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:51 +0000
Subject: [PATCH 07/59] fix: pass set elements to numpy.isin as a list so that
 'in' can be true

---
 histbook/calc/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 12fb2eb..16f6783 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -44,9 +44,10 @@ library["numpy.not_equal"] = numpy.not_equal
 library["numpy.less"] = numpy.less
 library["numpy.less_equal"] = numpy.less_equal
 try:
-    library["numpy.isin"] = numpy.isin
+    _isin = numpy.isin
 except AttributeError:
-    library["numpy.isin"] = numpy.in1d
+    _isin = numpy.in1d
+library["numpy.isin"] = lambda values, elements: _isin(values, list(elements) if isinstance(elements, set) else elements)
 library["numpy.logical_or"] = numpy.logical_or
 library["numpy.logical_and"] = numpy.logical_and
 library["numpy.logical_not"] = numpy.logical_not
-- 
2.43.0


From a823a6a9b67e6b83e2add7cd6c8e426951c62ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:51 +0000
Subject: [PATCH 08/59] fix: compute max/min/log with extra arguments instead
 of overwriting the caller's arrays

---
 histbook/calc/__init__.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 16f6783..6fa66c9 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -28,6 +28,8 @@
 # OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
 # OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+import functools
+
 import histbook.expr
 
 import numpy
@@ -88,9 +90,9 @@ library["log1p"] = numpy.log1p
 library["log2"] = numpy.log2
 library["logaddexp2"] = numpy.logaddexp2
 library["logaddexp"] = numpy.logaddexp
-library["log"] = numpy.log
-library["max"] = numpy.maximum;           library["fmax"] = numpy.maximum
-library["min"] = numpy.minimum;           library["fmin"] = numpy.minimum
+library["log"] = lambda values, *base: numpy.log(values) if len(base) == 0 else numpy.log(values) / numpy.log(*base)
+library["max"] = lambda *args: functools.reduce(numpy.maximum, args);           library["fmax"] = library["max"]
+library["min"] = lambda *args: functools.reduce(numpy.minimum, args);           library["fmin"] = library["min"]
 library["pow"] = numpy.power
 library["rad2deg"] = numpy.rad2deg
 library["mod"] = numpy.remainder;         library["fmod"] = numpy.remainder
@@ -352,7 +354,11 @@ def calculate(expr, symbols):
         return expr.value
 
     elif isinstance(expr, histbook.expr.Call) and expr.fcn in library:
-        return library[expr.fcn](*(calculate(arg, symbols) for arg in expr.args))
+        fcn = library[expr.fcn]
+        if isinstance(fcn, numpy.ufunc) and len(expr.args) != fcn.nin:
+            # a surplus argument would be taken as the array to overwrite
+            raise TypeError("{0} takes {1} argument{2}, not {3}".format(expr.fcn, fcn.nin, "" if fcn.nin == 1 else "s", len(expr.args)))
+        return fcn(*(calculate(arg, symbols) for arg in expr.args))
             
     else:
         raise AssertionError(repr(expr))
-- 
2.43.0


From 9e124c3c5bc21267229ed07213cf9df0d3a621ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:51 +0000
Subject: [PATCH 09/59] fix: provide the parsed functions '//', '^' and round
 to the calculator

---
 histbook/calc/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 6fa66c9..659eeae 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -41,6 +41,7 @@ library["numpy.add"] = numpy.add
 library["numpy.subtract"] = numpy.subtract
 library["numpy.multiply"] = numpy.multiply
 library["numpy.true_divide"] = numpy.true_divide
+library["numpy.floor_divide"] = numpy.floor_divide
 library["numpy.equal"] = numpy.equal
 library["numpy.not_equal"] = numpy.not_equal
 library["numpy.less"] = numpy.less
@@ -97,6 +98,7 @@ library["pow"] = numpy.power
 library["rad2deg"] = numpy.rad2deg
 library["mod"] = numpy.remainder;         library["fmod"] = numpy.remainder
 library["rint"] = numpy.rint
+library["round"] = numpy.round
 library["sign"] = numpy.sign
 library["sinh"] = numpy.sinh
 library["sin"] = numpy.sin
@@ -104,6 +106,7 @@ library["sqrt"] = numpy.sqrt
 library["tanh"] = numpy.tanh
 library["tan"] = numpy.tan
 library["trunc"] = numpy.trunc
+library["xor"] = numpy.bitwise_xor
 
 def vectorized_erf(complement):
     a1 =  0.254829592
-- 
2.43.0


From 97c2c9f1e0861e8359f135262adaa46f8c0f8fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:51 +0000
Subject: [PATCH 10/59] fix: compare string fields with operators (numpy's
 ufuncs have no string loops)

---
 histbook/calc/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 659eeae..ed4fbfe 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -29,6 +29,7 @@
 # OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 import functools
+import operator
 
 import histbook.expr
 
@@ -42,10 +43,10 @@ library["numpy.subtract"] = numpy.subtract
 library["numpy.multiply"] = numpy.multiply
 library["numpy.true_divide"] = numpy.true_divide
 library["numpy.floor_divide"] = numpy.floor_divide
-library["numpy.equal"] = numpy.equal
-library["numpy.not_equal"] = numpy.not_equal
-library["numpy.less"] = numpy.less
-library["numpy.less_equal"] = numpy.less_equal
+library["numpy.equal"] = operator.eq
+library["numpy.not_equal"] = operator.ne
+library["numpy.less"] = operator.lt
+library["numpy.less_equal"] = operator.le
 try:
     _isin = numpy.isin
 except AttributeError:
-- 
2.43.0


From 4e22330ea450307eed74f70960d9fa26e329d210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:09 +0000
Subject: [PATCH 11/59] fix: start the instruction walk from the graph's own
 node when a field is itself a goal

---
 histbook/instr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/instr.py b/histbook/instr.py
index 0e4b4c5..6c151b9 100644
--- a/histbook/instr.py
+++ b/histbook/instr.py
@@ -97,7 +97,7 @@ class CallGraphNode(object):
             return set()
 
         elif isinstance(self.goal, (histbook.expr.Name, histbook.expr.Predicate)):
-            return set([self])
+            return set([table[self]])    # the instance that other nodes are linked to
 
         elif isinstance(self.goal, histbook.expr.Call):
             out = set()
-- 
2.43.0


From 4377ab33c1f50905b1b692361c2a0b63f1a31d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:37 +0000
Subject: [PATCH 12/59] fix: give constant function calls a source and list
 each field once, constants excluded

---
 histbook/fill.py  |  2 +-
 histbook/instr.py | 34 ++++++++++++++++++++--------------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/histbook/fill.py b/histbook/fill.py
index 2b67ecd..853abec 100644
--- a/histbook/fill.py
+++ b/histbook/fill.py
@@ -54,7 +54,7 @@ class Fillable(object):
             fields = histbook.instr.sources(goals, table)
 
             self._instructions = self._streamline(0, list(histbook.instr.instructions(fields, goals)))
-            self._fields = sorted(x.goal.value for x in fields)
+            self._fields = sorted(set(x.goal.value for x in fields if not isinstance(x.goal, histbook.expr.BroadcastConst)))
 
         return self._fields
 
diff --git a/histbook/instr.py b/histbook/instr.py
index 6c151b9..ab87924 100644
--- a/histbook/instr.py
+++ b/histbook/instr.py
@@ -117,10 +117,16 @@ class CallGraphNode(object):
 def totree(expr):
     """Simplifies ``expr`` (:py:class:`Expr <histbook.expr.Expr>`) to contain only constants (:py:class:`Const <histbook.expr.Const>`), names (:py:class:`Name <histbook.expr.Name>` and :py:class:`Predicate <histbook.expr.Predicate>`), and function calls (:py:class:`Call <histbook.expr.Call>`)."""
 
+    def call(fcn, *args):
+        if len(args) > 0 and all(isinstance(x, histbook.expr.Const) for x in args):
+            # no field to depend on: broadcast a constant so that the call has a source
+            args = (histbook.expr.BroadcastConst(None, args[0].value),) + args[1:]
+        return histbook.expr.Call(fcn, *args)
+
     def linear(fcn, args):
         if len(args) == 1:
             return args[0]
-        return histbook.expr.Call(fcn, args[0], linear(fcn, args[1:]))
+        return call(fcn, args[0], linear(fcn, args[1:]))
 
     def duplicates(fcn, args):
         if len(args) == 1:
@@ -157,35 +163,35 @@ def totree(expr):
         else:
             right = reduce(fcn, right)
 
-        return histbook.expr.Call(fcn, left, right)
+        return call(fcn, left, right)
 
     if isinstance(expr, histbook.expr.Predicate) and not expr.positive:
-        return histbook.expr.Call("numpy.logical_not", expr.negate())
+        return call("numpy.logical_not", expr.negate())
 
     elif isinstance(expr, (histbook.expr.Const, histbook.expr.Name, histbook.expr.Predicate)):
         return expr
 
     elif isinstance(expr, histbook.expr.Call):
-        return histbook.expr.Call(expr.fcn, *(totree(x) for x in expr.args))
+        return call(expr.fcn, *(totree(x) for x in expr.args))
 
     elif isinstance(expr, histbook.expr.Relation):
         if expr.cmp == "==":
-            return histbook.expr.Call("numpy.equal", totree(expr.left), totree(expr.right))
+            return call("numpy.equal", totree(expr.left), totree(expr.right))
 
         elif expr.cmp == "!=":
-            return histbook.expr.Call("numpy.not_equal", totree(expr.left), totree(expr.right))
+            return call("numpy.not_equal", totree(expr.left), totree(expr.right))
 
         elif expr.cmp == "<":
-            return histbook.expr.Call("numpy.less", totree(expr.left), totree(expr.right))
+            return call("numpy.less", totree(expr.left), totree(expr.right))
 
         elif expr.cmp == "<=":
-            return histbook.expr.Call("numpy.less_equal", totree(expr.left), totree(expr.right))
+            return call("numpy.less_equal", totree(expr.left), totree(expr.right))
 
         elif expr.cmp == "in":
-            return histbook.expr.Call("numpy.isin", totree(expr.left), totree(expr.right))
+            return call("numpy.isin", totree(expr.left), totree(expr.right))
 
         elif expr.cmp == "not in":
-            return histbook.expr.Call("numpy.logical_not", histbook.expr.Call("numpy.isin", totree(expr.left), totree(expr.right)))
+            return call("numpy.logical_not", call("numpy.isin", totree(expr.left), totree(expr.right)))
 
         else:
             raise AssertionError(repr(expr.cmp))
@@ -199,10 +205,10 @@ def totree(expr):
             if out is None:
                 out = histbook.expr.Const(expr.const)
             else:
-                out = histbook.expr.Call("numpy.add", out, histbook.expr.Const(expr.const))
+                out = call("numpy.add", out, histbook.expr.Const(expr.const))
 
         if len(expr.neg) > 0:
-            out = histbook.expr.Call("numpy.subtract", out, reduce("numpy.add", tuple(totree(x) for x in expr.neg)))
+            out = call("numpy.subtract", out, reduce("numpy.add", tuple(totree(x) for x in expr.neg)))
 
         return out
 
@@ -215,10 +221,10 @@ def totree(expr):
             if out is None:
                 out = histbook.expr.Const(expr.const)
             else:
-                out = histbook.expr.Call("numpy.multiply", out, histbook.expr.Const(expr.const))
+                out = call("numpy.multiply", out, histbook.expr.Const(expr.const))
 
         if len(expr.neg) > 0:
-            out = histbook.expr.Call("numpy.true_divide", out, duplicates("numpy.multiply", tuple(totree(x) for x in expr.neg)))
+            out = call("numpy.true_divide", out, duplicates("numpy.multiply", tuple(totree(x) for x in expr.neg)))
 
         return out
 
-- 
2.43.0


From 44548613a26ef50cc6cde6b3caebdf2ab02696eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:59 +0000
Subject: [PATCH 13/59] fix: order constants consistently with equality and
 hash sets of mixed types

---
 histbook/expr.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 05e8768..adc03cc 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -32,6 +32,7 @@ import ast
 import functools
 import itertools
 import math
+import numbers
 import sys
 import types
 try:
@@ -482,6 +483,19 @@ _recognize(numpy, "where", "where")
 # "uint8"
 # "unsafe_cast"
 
+def _constless(one, two):
+    # a total order of constant values that agrees with ==
+    def key(x):
+        if isinstance(x, set):
+            return ("set", sorted(key(y) for y in x))
+        elif isinstance(x, numbers.Real):
+            return ("number", x)
+        elif x is None:
+            return ("None", 0)
+        else:
+            return (type(x).__name__, x)
+    return key(one) < key(two)
+
 class Const(Expr):
     """Represents a literal constant in the expression tree, such as a number, boolean, or ``None``."""
 
@@ -496,7 +510,7 @@ class Const(Expr):
 
     def __hash__(self):
         if isinstance(self.value, set):
-            value = (set, tuple(sorted(self.value)))
+            value = (set, frozenset(self.value))
         else:
             value = self.value
         return hash((Const, value))
@@ -506,10 +520,7 @@ class Const(Expr):
 
     def __lt__(self, other):
         if self.__class__.__name__ == other.__class__.__name__:
-            if type(self.value).__name__ == type(other.value).__name__:
-                return self.value < other.value
-            else:
-                return type(self.value).__name__ < type(other.value).__name__
+            return _constless(self.value, other.value)
         else:
             return self.__class__.__name__ < other.__class__.__name__
 
@@ -562,7 +573,7 @@ class BroadcastConst(Name):
 
     def __hash__(self):
         if isinstance(self.value, set):
-            value = (set, tuple(sorted(self.value)))
+            value = (set, frozenset(self.value))
         else:
             value = self.value
         return hash((Const, self.name, value))
@@ -574,10 +585,7 @@ class BroadcastConst(Name):
         if self.__class__.__name__ == other.__class__.__name__:
             if type(self.name).__name__ == type(other.name).__name__:
                 if self.name == other.name:
-                    if type(self.value).__name__ == type(other.value).__name__:
-                        return self.value < other.value
-                    else:
-                        return type(self.value).__name__ < type(other.value).__name__
+                    return _constless(self.value, other.value)
                 else:
                     return self.name < other.name
             else:
-- 
2.43.0


From 6309cfde02c315d26d6d73690f281c58afac9400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:01 +0000
Subject: [PATCH 14/59] fix: unparse Python 3.8+ literals so that expression
 errors are reported as such

---
 histbook/util/astunparse.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/histbook/util/astunparse.py b/histbook/util/astunparse.py
index 63c6b2d..104a5c2 100644
--- a/histbook/util/astunparse.py
+++ b/histbook/util/astunparse.py
@@ -562,6 +562,15 @@ class Unparser(object):
     def _NameConstant(self, t):
         self.write(repr(t.value))
 
+    def _Constant(self, t):
+        # Python 3.8+ literals (formerly Num, Str, Bytes, NameConstant, Ellipsis)
+        if t.value is Ellipsis:
+            self.write("...")
+        elif isinstance(t.value, (int, float, complex)) and not isinstance(t.value, bool):
+            self.write(repr(t.value).replace("inf", INFSTR))
+        else:
+            self.write(repr(t.value))
+
     def _Repr(self, t):
         self.write("`")
         self.dispatch(t.value)
-- 
2.43.0


From 2858518e1e0cf856c501168b583337a0285f1b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:41 +0000
Subject: [PATCH 15/59] fix: put infinite, very large and narrow-typed values
 in the right bin or intbin

---
 histbook/calc/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index ed4fbfe..5c1e170 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -220,7 +220,7 @@ def histbook_bin(underflow, overflow, nanflow, closedlow):
 
     def bin(values, numbins, low, high):
         indexes = values - float(low)
-        numpy.multiply(indexes, float(numbins) / float(high - low), indexes)
+        numpy.multiply(indexes, float(numbins) / float(high - low) if numbins > 0 else 1.0, indexes)
 
         if closedlow:
             numpy.floor(indexes, indexes)
@@ -230,6 +230,9 @@ def histbook_bin(underflow, overflow, nanflow, closedlow):
             numpy.ceil(indexes, indexes)
             numpy.add(indexes, shift - 1, indexes)
 
+        # keep infinite and very large values within the range of INDEXTYPE
+        numpy.clip(indexes, -1, shift + numbins, indexes)
+
         out = numpy.ma.array(indexes, dtype=INDEXTYPE)
         with numpy.errstate(invalid="ignore"):
             if underflow:
@@ -269,6 +272,10 @@ def histbook_intbin(underflow, overflow):
         shift = 0
 
     def intbin(values, min, max):
+        # keep values within range before converting to INDEXTYPE
+        values = numpy.clip(numpy.asarray(values), min - 1, max + 1)
+        if values.dtype.kind in "iu":
+            values = values.astype(numpy.int64)
         indexes = numpy.ma.array((values + (shift - min)), dtype=INDEXTYPE)
 
         if underflow:
-- 
2.43.0


From 35d3011839084777ae8861079a3cec873e3d9c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:29 +0000
Subject: [PATCH 16/59] fix: give each histogram its own axis objects

---
 histbook/hist.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 3178c92..29a8326 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -155,12 +155,17 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
         newaxis = []
         for old in axis:
-            if isinstance(old, histbook.axis._nullaxis) or hasattr(old, "_parsed"):
+            if isinstance(old, histbook.axis._nullaxis):
                 newaxis.append(old)
             else:
-                expr = histbook.expr.Expr.parse(old._expr, defs=defs)
+                # always a new object because its position in this histogram is about to be set on it
                 new = old.copy()
-                new._parsed = expr
+                if hasattr(old, "_parsed"):
+                    new._parsed = old._parsed
+                else:
+                    new._parsed = histbook.expr.Expr.parse(old._expr, defs=defs)
+                if hasattr(old, "_original"):
+                    new._original = old._original
                 newaxis.append(new)
 
         self._goals = set()
-- 
2.43.0


From bf26bc6c13bcde2cbb45fedf7f69c7574c83ad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:31 +0000
Subject: [PATCH 17/59] fix: do not share the caller's defs and attachment
 dicts with the histogram

---
 histbook/hist.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 29a8326..dd7c4ac 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -139,16 +139,16 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             elif "systematic" in attachment:
                 raise ValueError("systematic provided as a keyword option and also found in attachment")
             else:
-                attachment["systematic"] = systematic
+                attachment = dict(attachment, systematic=systematic)
 
         if defs is None:
             self._defs = {}
         else:
-            self._defs = defs
+            self._defs = dict(defs)
         if attachment is None:
             self._attachment = {}
         else:
-            self._attachment = attachment
+            self._attachment = dict(attachment)
         self._group = []
         self._fixed = []
         self._profile = []
-- 
2.43.0


From 63c8f4f96fb02f2a12fec2ab7c283c0c486737d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:34 +0000
Subject: [PATCH 18/59] fix: a single fill array is for the only field, as
 documented, rather than for the only axis

---
 histbook/hist.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index dd7c4ac..65d9a98 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -263,10 +263,10 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
         if fill is not None:
             if not histbook.calc.spark.isspark(fill, {}) and not isinstance(fill, dict):
-                if len(self._group + self._fixed + self._profile) == 1:
-                    fill = {str((self._group + self._fixed + self._profile)[0]._parsed): fill}
+                if len(self.fields) == 1:
+                    fill = {self.fields[0]: fill}
                 else:
-                    raise TypeError("fill must be a dict for histograms of more than one axis")
+                    raise TypeError("fill must be a dict for histograms of more than one field")
             self.fill(fill)
 
     @property
-- 
2.43.0


From 709781558f2a41aa22957c0a33d267d9dd7ea33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:12 +0000
Subject: [PATCH 19/59] fix: leave entries without a bin out of profile and
 weight sums alike

---
 histbook/hist.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 65d9a98..445430a 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -426,15 +426,22 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 weight2[selection] = 0.0
 
         def fillblock(content, indexes, axissumx, axissumx2, weight, weight2):
-            for sumx, sumx2, axis in zip(axissumx, axissumx2, self._profile):
-                if indexes is None:
-                    indexes = numpy.ma.zeros(len(sumx), dtype=histbook.calc.INDEXTYPE)
+            if indexes is None and len(axissumx) > 0:
+                indexes = numpy.ma.zeros(len(axissumx[0]), dtype=histbook.calc.INDEXTYPE)
+            elif indexes is None and weight2 is not None:
+                indexes = numpy.ma.zeros(len(weight), dtype=histbook.calc.INDEXTYPE)
+
+            selection = numpy.ma.nomask if indexes is None else numpy.ma.getmask(indexes)
+            if selection is not numpy.ma.nomask:
+                # drop the entries that have no bin from everything that is to be summed
+                selection = numpy.bitwise_not(selection)
+                axissumx = [x[selection] for x in axissumx]
+                axissumx2 = [x[selection] for x in axissumx2]
                 if weight2 is not None:
-                    selection = numpy.ma.getmask(indexes)
-                    if selection is not numpy.ma.nomask:
-                        selection = numpy.bitwise_not(selection)
-                        weight = weight[selection]
-                        weight2 = weight2[selection]
+                    weight = weight[selection]
+                    weight2 = weight2[selection]
+
+            for sumx, sumx2, axis in zip(axissumx, axissumx2, self._profile):
                 numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwxindex], indexes.compressed(), sumx * weight)
                 numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwx2index], indexes.compressed(), sumx2 * weight)
 
@@ -444,13 +451,6 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 else:
                     numpy.add.at(content.reshape((-1, self._shape[-1]))[:, self._sumwindex], indexes.compressed(), weight)
             else:
-                if indexes is None:
-                    indexes = numpy.ma.zeros(len(weight), dtype=histbook.calc.INDEXTYPE)
-                selection = numpy.ma.getmask(indexes)
-                if selection is not numpy.ma.nomask:
-                    selection = numpy.bitwise_not(selection)
-                    weight = weight[selection]
-                    weight2 = weight2[selection]
                 numpy.add.at(content.reshape((-1, self._shape[-1]))[:, self._sumwindex], indexes.compressed(), weight)
                 numpy.add.at(content.reshape((-1, self._shape[-1]))[:, self._sumw2index], indexes.compressed(), weight2)
 
-- 
2.43.0


From 79c1a04d63b5cc3390ae2bbab2f11d2d3c08e622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:59 +0000
Subject: [PATCH 20/59] fix: square and weight narrow integers in double
 precision so that sums do not wrap around

---
 histbook/axis.py          |  2 +-
 histbook/calc/__init__.py |  1 +
 histbook/hist.py          | 10 +++++-----
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index edb672f..c53f03f 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -1464,7 +1464,7 @@ class profile(ProfileAxis):
         if isinstance(parsed, histbook.expr.Const):
             parsed = histbook.expr.BroadcastConst(None, parsed.value)
         return [histbook.instr.CallGraphGoal(parsed),
-                histbook.instr.CallGraphGoal(histbook.expr.Call("numpy.multiply", parsed, parsed))]
+                histbook.instr.CallGraphGoal(histbook.expr.Call("histbook.square", parsed))]
 
     def __eq__(self, other):
         return self.__class__ is other.__class__ and self._expr == other._expr
diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 5c1e170..cabb432 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -41,6 +41,7 @@ library = {}
 library["numpy.add"] = numpy.add
 library["numpy.subtract"] = numpy.subtract
 library["numpy.multiply"] = numpy.multiply
+library["histbook.square"] = lambda values: numpy.multiply(values, values, dtype=numpy.float64)   # integers narrower than their squares must not wrap around
 library["numpy.true_divide"] = numpy.true_divide
 library["numpy.floor_divide"] = numpy.floor_divide
 library["numpy.equal"] = operator.eq
diff --git a/histbook/hist.py b/histbook/hist.py
index 445430a..9f9b6bc 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -227,7 +227,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             self._sumw2index = self._shape[-1] + 1
             self._shape[-1] += 2
             dest([histbook.instr.CallGraphGoal(self._weightparsed),
-                  histbook.instr.CallGraphGoal(histbook.expr.Call("numpy.multiply", self._weightparsed, self._weightparsed))])
+                  histbook.instr.CallGraphGoal(histbook.expr.Call("histbook.square", self._weightparsed))])
 
         elif self._filteroriginal is None:
             self._weightoriginal = weight
@@ -239,7 +239,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             self._sumw2index = self._shape[-1] + 1
             self._shape[-1] += 2
             dest([histbook.instr.CallGraphGoal(self._weightparsed),
-                  histbook.instr.CallGraphGoal(histbook.expr.Call("numpy.multiply", self._weightparsed, self._weightparsed))])
+                  histbook.instr.CallGraphGoal(histbook.expr.Call("histbook.square", self._weightparsed))])
 
         else:
             self._weightoriginal = weight
@@ -250,7 +250,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             self._sumw2index = self._shape[-1] + 1
             self._shape[-1] += 2
             dest([histbook.instr.CallGraphGoal(self._weightparsed),
-                  histbook.instr.CallGraphGoal(histbook.expr.Call("numpy.multiply", self._weightparsed, self._weightparsed))])
+                  histbook.instr.CallGraphGoal(histbook.expr.Call("histbook.square", self._weightparsed))])
 
         self._group = tuple(self._group)
         self._fixed = tuple(self._fixed)
@@ -442,8 +442,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                     weight2 = weight2[selection]
 
             for sumx, sumx2, axis in zip(axissumx, axissumx2, self._profile):
-                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwxindex], indexes.compressed(), sumx * weight)
-                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwx2index], indexes.compressed(), sumx2 * weight)
+                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwxindex], indexes.compressed(), numpy.multiply(sumx, weight, dtype=self.COUNTTYPE))
+                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwx2index], indexes.compressed(), numpy.multiply(sumx2, weight, dtype=self.COUNTTYPE))
 
             if weight2 is None:
                 if indexes is None:
-- 
2.43.0


From b25788ba56c68a66c150a82bfe16c493daec664f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:14 +0000
Subject: [PATCH 21/59] fix: sums, products and fill-time copies of histograms
 never share content; weighted plus unweighted is rejected; unfilled times
 number is unfilled

---
 histbook/book.py |  2 ++
 histbook/hist.py | 36 +++++++++++++++++++++++++-----------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 830e0bc..3ff1e17 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -557,6 +557,7 @@ class Book(GenericBook, histbook.fill.Fillable):
             # pyspark.DataFrame
             threads = [threading.Thread(target=histbook.calc.spark.fillspark(x, arrays)) for x in self.itervalues(recursive=True, onlyhist=True)]
             for x in self.itervalues(recursive=True, onlyhist=True):
+                x._copyiflinked()
                 x._prefill()
             for x in threads:
                 x.start()
@@ -579,6 +580,7 @@ class Book(GenericBook, histbook.fill.Fillable):
                 arrays = histbook.util.ChainedDict(arrays, more)
 
             for x in self.itervalues(recursive=True, onlyhist=True):
+                x._copyiflinked()
                 x._prefill()
             length = self._fill(arrays)
             for x in self.itervalues(recursive=True, onlyhist=True):
diff --git a/histbook/hist.py b/histbook/hist.py
index 9f9b6bc..67c9918 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -86,6 +86,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         """Return a copy of the histogram whose content is copied if filled."""
         out = Hist(*(self._group + self._fixed + self._profile), weight=self._weightoriginal, filter=self._filteroriginal, defs=dict(self._defs), attachment=dict(self._attachment))
         out._copyonfill = True
+        self._copyonfill = True    # the content is shared: whichever is filled first must not change the other
         out._content = self._content
         return out
 
@@ -352,9 +353,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         **more : Numpy arrays or numbers
             more field values
         """
-        if self._copyonfill:
-            self._content = Hist._copycontent(self._content)
-            self._copyonfill = False
+        self._copyiflinked()
 
         if histbook.calc.spark.isspark(arrays, more):
             # pyspark.DataFrame
@@ -381,6 +380,11 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             length = self._fill(arrays)
             self._postfill(arrays, length)
 
+    def _copyiflinked(self):
+        if self._copyonfill:
+            self._content = Hist._copycontent(self._content)
+            self._copyonfill = False
+
     def _prefill(self):
         if self._content is None:
             if len(self._group) == 0:
@@ -505,6 +509,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if self._group + self._fixed + self._profile != other._group + other._fixed + other._profile:
             raise TypeError("histograms can only be added to other histograms with the same axis specifications")
 
+        if self._shape != other._shape:
+            raise TypeError("weighted (or filtered) histograms cannot be added to unweighted histograms")
+
         def add(selfcontent, othercontent):
             if selfcontent is None and othercontent is None:
                 return None
@@ -525,14 +532,13 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                     if n in othercontent:
                         out[n] = add(selfcontent[n], othercontent[n])
                     else:
-                        out[n] = selfcontent[n]
+                        out[n] = Hist._copycontent(selfcontent[n])
                 for n in othercontent:
                     if n not in selfcontent:
-                        out[n] = othercontent[n]
+                        out[n] = Hist._copycontent(othercontent[n])
                 return out
 
-        out = self.__class__.__new__(self.__class__)
-        out.__dict__.update(self.__dict__)
+        out = self.cleared()
         out._content = add(self._content, other._content)
         return out
 
@@ -543,6 +549,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if self._group + self._fixed + self._profile != other._group + other._fixed + other._profile:
             raise TypeError("histograms can only be added to other histograms with the same axis specifications")
 
+        if self._shape != other._shape:
+            raise TypeError("weighted (or filtered) histograms cannot be added to unweighted histograms")
+
         def add(selfcontent, othercontent):
             assert isinstance(selfcontent, dict) and isinstance(othercontent, dict)
             for n in selfcontent:
@@ -555,6 +564,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 if n not in selfcontent:
                     selfcontent[n] = Hist._copycontent(othercontent[n])
 
+        self._copyiflinked()
         if other._content is None:
             pass
 
@@ -574,13 +584,14 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             raise TypeError("Hist can only be multiplied by a scalar number.")
 
         def recurse(content):
-            if isinstance(content, dict):
+            if content is None:
+                return None
+            elif isinstance(content, dict):
                 return dict((n, recurse(x)) for n, x in content.items())
             else:
                 return content * value
 
-        out = self.__class__.__new__(self.__class__)
-        out.__dict__.update(self.__dict__)
+        out = self.cleared()
         out._content = recurse(self._content)
         return out
 
@@ -592,12 +603,15 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             raise TypeError("Hist can only be multiplied by a scalar number.")
 
         def recurse(content):
-            if isinstance(content, dict):
+            if content is None:
+                pass
+            elif isinstance(content, dict):
                 for x in content.values():
                     recurse(x)
             else:
                 content *= value
 
+        self._copyiflinked()
         recurse(self._content)
         return self
 
-- 
2.43.0


From c9987d80c749c0b2c9c2b2912f4d80ad7a557657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:17 +0000
Subject: [PATCH 22/59] fix: deleting from a book by pattern deletes only what
 matches the pattern

---
 histbook/book.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 3ff1e17..136d6c8 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -281,8 +281,9 @@ class GenericBook(collections.MutableMapping):
             raise TypeError("keys of a {0} must be strings".format(self.__class__.__name__))
 
         if "*" in name or "?" in name or "[" in name:
-            for n in self.allkeys():
-                self._del(n, "")
+            for n in [n for n in self.allkeys() if fnmatch.fnmatchcase(n, name)]:
+                if self._get(n) is not None:       # it may have been deleted with the book that contained it
+                    self._del(n, "")
         else:
             self._del(name, "")
 
-- 
2.43.0


From 547d072968e6921924cd70259764221d529b8913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:19 +0000
Subject: [PATCH 23/59] fix: fill all current members of a book, however they
 were added, including empty and SystematicsBooks

---
 histbook/book.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/histbook/book.py b/histbook/book.py
index 136d6c8..1214f95 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -526,9 +526,19 @@ class Book(GenericBook, histbook.fill.Fillable):
     def _changed(self):
         self._fields = None
 
+    @property
+    def fields(self):
+        """Names of fields that must be provided in the ``fill`` method."""
+        if self._fields is not None:
+            # nested books can be changed without passing through this one: don't reuse instructions for other histograms
+            destination = [x._destination[0] for x in self.itervalues(recursive=True, onlyhist=True)]
+            if len(destination) != len(self._destination) or any(x is not y for x, y in zip(destination, self._destination)):
+                self._fields = None
+        return super(Book, self).fields
+
     @property
     def _goals(self):
-        return functools.reduce(set.union, (x._goals for x in self.itervalues(recursive=True, onlyhist=True)))
+        return functools.reduce(set.union, (x._goals for x in self.itervalues(recursive=True, onlyhist=True)), set())
 
     def _streamline(self, i, instructions):
         self._destination = []
@@ -640,6 +650,7 @@ class SystematicsBook(Book):
         return super(SystematicsBook, self).__str__(indent=indent, first=first)
 
     def _changed(self):
+        super(SystematicsBook, self)._changed()
         self.assertcompatible()
         if not all(x.has("systematic") for x in self.itervalues(recursive=True, onlyhist=True)):
             raise ValueError("all histograms in a SystematicsBook must have a 'systematic' attachment")
-- 
2.43.0


From 3566bc5dff947adb898659f6b5b8727f2e27635f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:54 +0000
Subject: [PATCH 24/59] fix: sums of books copy the members that only one of
 them has; grouped books keep the order of their members

---
 histbook/book.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 1214f95..80676d6 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -94,7 +94,7 @@ class GenericBook(collections.MutableMapping):
         """Construct a book from its ``content`` and ``attachment`` dicts."""
         out = cls.__new__(cls)
         out._content = collections.OrderedDict()
-        out._attachment = attachment
+        out._attachment = dict(attachment)
 
         for n, x in content.items():
             out[n] = x
@@ -446,10 +446,10 @@ class GenericBook(collections.MutableMapping):
             if n in other:
                 content[n] = x + other[n]
             else:
-                content[n] = x
+                content[n] = x.copy()
         for n, x in other.iteritems():
             if n not in self:
-                content[n] = x
+                content[n] = x.copy()
 
         attachment = dict(self._attachment)
         attachment.update(other._attachment)
@@ -461,7 +461,7 @@ class GenericBook(collections.MutableMapping):
         
         for n, x in other.iteritems():
             if n not in self:
-                self[n] = x
+                self[n] = x.copy()
             else:
                 self[n] += x
         return self
@@ -499,7 +499,7 @@ class GenericBook(collections.MutableMapping):
             raise TypeError("only histogram books can be grouped with other books")
 
         content = collections.OrderedDict()
-        for name in functools.reduce(set.union, (set(book.iterkeys()) for book in books.values())):
+        for name in collections.OrderedDict((name, None) for book in books.values() for name in book.iterkeys()):
             nestcls = tuple(set(book[name].__class__ for book in books.values() if name in book))
             if len(nestcls) != 1:
                 raise TypeError("books at {0} have different types: {1}".format(repr(name), ", ".join(repr(x) for x in nestcls)))
-- 
2.43.0


From 8af4a8799689f678b01d1957fe6dac4429ead567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:21 +0000
Subject: [PATCH 25/59] fix: group keeps weighted sums, filters and unfilled
 histograms; togroup works

---
 histbook/hist.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 67c9918..85574d4 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -636,38 +636,40 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         axis = None
         hist = None
         for x in hists.values():
-            hist = x
             if axis is None:
                 axis = x._group + x._fixed + x._profile
             elif axis != x._group + x._fixed + x._profile:
                 raise TypeError("histograms can only be grouped with the same axis specifications")
-            
+            elif hist._shape != x._shape:
+                raise TypeError("weighted (or filtered) histograms cannot be grouped with unweighted histograms")
+            hist = x
+
         if axis is None:
             raise ValueError("at least one histogram must be provided")
 
         if histbook.axis.groupby(by) in axis:
             raise ValueError("groupby({0}) already exists in these histograms; use hist.togroup(other) to add to a group".format(repr(by)))
 
-        weight = None
-        for x in hists.values():
-            if weight is None:
-                weight = x._weightoriginal
-            elif x._weightoriginal is None:
-                raise TypeError("histograms can only be grouped with the same weight specifications")
-            elif weight != x._weightoriginal:
-                weight = 1.0
-                
+        weight, filter = hist._weightoriginal, hist._filteroriginal
+        if any(x._weightoriginal != weight for x in hists.values()):
+            weight = 1.0
+        if any(x._filteroriginal != filter for x in hists.values()):
+            filter = None
+        if weight is None and filter is None and hist._weightparsed is not None:
+            weight = 1.0         # keep the sums of squared weights
+
         defs = {}
         for x in hists.values():
             defs.update(x._defs)
 
-        out = cls(*((histbook.axis.groupby(by),) + hist._group + hist._fixed + hist._profile), weight=weight, filter=None, defs=dict(defs), attachment=None)
+        out = cls(*((histbook.axis.groupby(by),) + hist._group + hist._fixed + hist._profile), weight=weight, filter=filter, defs=dict(defs), attachment=None)
         out._content = {}
         for n, x in hists.items():
+            x._prefill()
             out._content[n] = cls._copycontent(x._content)
         return out
 
-    def togroup(**hists):
+    def togroup(self, **hists):
         u"""
         Add histograms to the :py:class:`groupby <histbook.axis.groupby>` that is the first axis.
 
@@ -687,8 +689,13 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         for x in hists.values():
             if self._group[1:] + self._fixed + self._profile != x._group + x._fixed + x._profile:
                 raise TypeError("histograms can only be grouped with the same axis specifications")
+            if self._shape != x._shape:
+                raise TypeError("weighted (or filtered) histograms cannot be grouped with unweighted histograms")
 
         def add(selfcontent, othercontent):
+            if isinstance(selfcontent, numpy.ndarray):
+                selfcontent += othercontent
+                return
             assert isinstance(selfcontent, dict) and isinstance(othercontent, dict)
             for n in selfcontent:
                 if n in othercontent:
@@ -700,11 +707,14 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 if n not in selfcontent:
                     selfcontent[n] = Hist._copycontent(othercontent[n])
 
+        self._copyiflinked()
+        self._prefill()
         for n, x in hists.items():
+            x._prefill()
             if n in self._content:
-                add(self._content[n], other._content)
+                add(self._content[n], x._content)
             else:
-                self._content[n] = Hist._copycontent(other._content)
+                self._content[n] = Hist._copycontent(x._content)
 
     def tojson(self):
         out = {"type": "Hist", "axis": [x.tojson() for x in self._group + self._fixed + self._profile]}
-- 
2.43.0


From 92861ea2d1e92a68891fe4a5c0261f32bad5a26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:48 +0000
Subject: [PATCH 26/59] fix: histograms with numeric group keys or Numpy
 weights survive JSON text

---
 histbook/hist.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 85574d4..a121a52 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -719,35 +719,46 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
     def tojson(self):
         out = {"type": "Hist", "axis": [x.tojson() for x in self._group + self._fixed + self._profile]}
         if self._weightoriginal is not None:
-            out["weight"] = self._weightoriginal
+            out["weight"] = self._weightoriginal.item() if isinstance(self._weightoriginal, numpy.generic) else self._weightoriginal
         if self._filteroriginal is not None:
             out["filter"] = self._filteroriginal
         if self._defs is not None and len(self._defs) != 0:
-            out["defs"] = self._defs
+            out["defs"] = dict(self._defs)
         if self._content is not None:
             def recurse(node):
                 if isinstance(node, dict):
-                    return dict((n, recurse(x)) for n, x in node.items())
+                    # JSON objects can only have string keys; otherwise, write [key, value] pairs
+                    pairs = [(n.item() if isinstance(n, numpy.generic) else n, recurse(x)) for n, x in node.items()]
+                    if all(isinstance(n, histbook.util.string) for n, x in pairs):
+                        return dict(pairs)
+                    else:
+                        return [[n, x] for n, x in pairs]
                 else:
                     return node.tolist()
             out["content"] = recurse(self._content)
         if len(self._attachment) != 0:
-            out["attachment"] = self._attachment
+            out["attachment"] = dict(self._attachment)
         return out
 
     @staticmethod
     def fromjson(obj):
         assert obj["type"] == "Hist"
-        def recurse(node):
+        def key(axis, n):
+            if isinstance(axis, histbook.axis.groupbin) and isinstance(n, histbook.util.string) and n != "NaN":
+                return float(n)
+            else:
+                return n
+
+        def recurse(j, node):
             if node is None:
                 return None
-            elif isinstance(node, dict):
-                return dict((n, recurse(x)) for n, x in node.items())
+            elif j < len(out._group):
+                return dict((key(out._group[j], n), recurse(j + 1, x)) for n, x in (node.items() if isinstance(node, dict) else node))
             else:
                 return numpy.array(node, dtype=Hist.COUNTTYPE)
 
         out = Hist(*[histbook.axis.Axis.fromjson(x) for x in obj["axis"]], weight=obj.get("weight", None), filter=obj.get("filter", None), defs=obj.get("defs", None), attachment=obj.get("attachment", None))
-        out._content = recurse(obj.get("content", None))
+        out._content = recurse(0, obj.get("content", None))
         return out
 
     def __getstate__(self):
-- 
2.43.0


From d4efe21670c72da5c628b883666a573e943403da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:47 +0000
Subject: [PATCH 27/59] fix: list the keys of a groupbin axis that has NaN
 entries

---
 histbook/axis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index c53f03f..9e23447 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -522,7 +522,10 @@ class groupbin(GroupAxis, _RebinFactor):
         """Returns (key, value) pairs of the content."""
         if not isinstance(content, dict):
             raise TypeError("groupbin content must be a dict")
-        return [IntervalPair((Interval(n, n + float(self._binwidth), closedlow=self._closedlow, closedhigh=(not self._closedlow)), content[n])) for n in sorted(content)]
+        out = [IntervalPair((Interval(n, n + float(self._binwidth), closedlow=self._closedlow, closedhigh=(not self._closedlow)), content[n])) for n in sorted(n for n in content if n != "NaN")]
+        if "NaN" in content:
+            out.append(IntervalPair((IntervalNaN(), content["NaN"])))
+        return out
 
 class bin(FixedAxis, _RebinFactor, _RebinSplit):
     """
-- 
2.43.0


From 3619e037035265b6acd94db388f3b502b22a2b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:23 +0000
Subject: [PATCH 28/59] fix: rebinby combines bins by the factor on every
 rebinnable axis; rebin and rebinby accept an axis index

---
 histbook/axis.py | 42 +++++++++++++++++++++---------------------
 histbook/proj.py | 10 ++++++++--
 2 files changed, 29 insertions(+), 23 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 9e23447..d48af3d 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -430,41 +430,41 @@ class groupbin(GroupAxis, _RebinFactor):
     def _rebinfactor(self, factor, content, index):
         assert factor > 0
 
-        newaxis = groupbin(self._expr, float(self._binwidth) / float(factor), origin=self._origin, nanflow=self._nanflow, closedlow=self._closedlow)
+        newaxis = groupbin(self._expr, float(self._binwidth) * float(factor), origin=self._origin, nanflow=self._nanflow, closedlow=self._closedlow)
         if hasattr(self, "_original"):
             newaxis._original = self._original
         if hasattr(self, "_parsed"):
             newaxis._parsed = self._parsed
 
+        def add(left, right):
+            if isinstance(left, dict):
+                for n, x in right.items():
+                    left[n] = add(left[n], x) if n in left else x
+                return left
+            else:
+                return left + right
+
         def recurse(j, content):
-            if j == index:
+            if isinstance(content, dict) and j == index:
                 out = {}
                 for n, x in content.items():
-                    if n == "NaN":
-                        out[n] = recurse(j + 1, x)
+                    if n != "NaN" and not numpy.isinf(n):
+                        # n is the low edge of a bin, regardless of closedlow
+                        i = int(round((n - float(self._origin)) / float(self._binwidth)))
+                        n = (i // int(factor)) * float(newaxis._binwidth) + float(newaxis._origin)
 
+                    if n not in out:
+                        out[n] = recurse(j + 1, x)
                     else:
-                        index = (n - float(self._origin)) / float(self._binwidth)
-                        if self._closedlow:
-                            index = int(numpy.floor(index))
-                        else:
-                            index = int(numpy.ceil(index)) - 1
-
-                        index = index // int(factor)
-
-                        n = index * float(newindex._binwidth) + float(newaxis._origin)
-                        if n not in out:
-                            out[n] = recurse(j + 1, x)
-                        else:
-                            out[n] += recurse(j + 1, x)
+                        out[n] = add(out[n], recurse(j + 1, x))
 
                 return out
-                        
+
             elif isinstance(content, dict):
                 return dict((n, recurse(j + 1, x)) for n, x in content.items())
 
             else:
-                return content
+                return content.copy()
 
         if content is None:
             return newaxis, None
@@ -912,7 +912,7 @@ class intbin(FixedAxis, _RebinFactor, _RebinSplit):
         return self.bin()._rebinsplit(edges, content, index)
 
     def _rebinfactor(self, factor, content, index):
-        return self.bin()._rebinfactor(edges, content, index)
+        return self.bin()._rebinfactor(factor, content, index)
 
     def _select(self, cmp, value, tolerance):
         if value == float("-inf") and cmp == ">=":
@@ -1211,7 +1211,7 @@ class split(FixedAxis, _RebinFactor, _RebinSplit):
 
     def _rebinfactor(self, factor, content, index):
         assert factor > 0
-        return self._rebinsplit(self.edges[0:-1:factor] + self.edges[-1], content, index)
+        return self._rebinsplit(self.edges[0:-1:factor] + (self.edges[-1],), content, index)
 
     def _select(self, cmp, value, tolerance):
         if value == float("-inf") and cmp == ">=":
diff --git a/histbook/proj.py b/histbook/proj.py
index 6063808..098b51a 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -110,6 +110,9 @@ class Projectable(object):
         :py:class:`Hist <histbook.hist.Hist>`
             a rebinned histogram.
         """
+        if isinstance(axis, (numbers.Integral, numpy.integer)):
+            axis = self.axis[axis]
+
         if not isinstance(axis, histbook.axis.Axis):
             expr = histbook.expr.Expr.parse(axis, defs=self._defs)
             for x in self._group + self._fixed:
@@ -154,6 +157,9 @@ class Projectable(object):
         if not isinstance(factor, (numbers.Integral, numpy.integer)) or factor <= 0:
             raise TypeError("factor must be a positive integer")
 
+        if isinstance(axis, (numbers.Integral, numpy.integer)):
+            axis = self.axis[axis]
+
         if not isinstance(axis, histbook.axis.Axis):
             expr = histbook.expr.Expr.parse(axis, defs=self._defs)
             for x in self._group + self._fixed:
@@ -169,9 +175,9 @@ class Projectable(object):
             raise IndexError("no such rebinnable axis: {0}".format(axis))
 
         if isinstance(axis, histbook.axis.GroupAxis):
-            newaxis, newcontent = axis._rebinsplit(factor, self._content, index)
+            newaxis, newcontent = axis._rebinfactor(factor, self._content, index)
         else:
-            newaxis, newcontent = axis._rebinsplit(factor, self._content, index - len(self._group))
+            newaxis, newcontent = axis._rebinfactor(factor, self._content, index - len(self._group))
 
         outaxis = [newaxis if i == index else x for i, x in enumerate(self._group + self._fixed + self._profile)]
         out = self.__class__(*outaxis, weight=self._weightoriginal, filter=self._filteroriginal, defs=dict(self._defs), attachment=dict(self._attachment))
-- 
2.43.0


From ade1c181f8cbb2cf5072ac8e5933ce5b93c161fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:27 +0000
Subject: [PATCH 29/59] fix: project sums over any number of group keys

---
 histbook/proj.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 098b51a..9d701f4 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -264,22 +264,17 @@ class Projectable(object):
                 return left + right
 
         def addall(values):
-            assert len(values) != 0
-            left = values[:len(values) // 2]
-            right = values[len(values) // 2:]
-            if len(left) == 0:
-                return right
-            elif len(right) == 0:
-                return left
-            elif len(left) == 1 and len(right) == 1:
-                return addany(left[0], right[0])
+            if len(values) == 1:
+                return values[0]
             else:
-                return addall([addall(left)] + [addall(right)])
-            
+                return addany(addall(values[:len(values) // 2]), addall(values[len(values) // 2:]))
+
         def projcontent(j, content):
             if j < len(self._group):
                 if allaxis[j] in axis:
                     return dict((n, projcontent(j + 1, x)) for n, x in content.items())
+                elif len(content) == 0:
+                    return {} if any(x in axis for x in self._group[j + 1:]) else numpy.zeros(out._shape, dtype=self.COUNTTYPE)
                 else:
                     return addall([projcontent(j + 1, x) for x in content.values()])
             else:
-- 
2.43.0


From 455e6bf0f9a2cc31668d7a5a88fcd38ff1e0cbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:31 +0000
Subject: [PATCH 30/59] fix: drop keeps both sums of each remaining profile and
 squared weights; fraction without profiles

---
 histbook/proj.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 9d701f4..04b64c2 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -207,13 +207,14 @@ class Projectable(object):
         
         axis = []
         index = []
-        for i, prof in enumerate(self._profile):
+        for prof in self._profile:
             if prof not in profile:
                 axis.append(prof)
-                index.append(i)
+                index.append(prof._sumwxindex)
+                index.append(prof._sumwx2index)
 
         index.append(self._sumwindex)
-        if self._weightoriginal is not None:
+        if self._weightparsed is not None:
             index.append(self._sumw2index)
 
         slc = (slice(None),) * (len(self._shape) - 1) + (index,)
@@ -222,7 +223,7 @@ class Projectable(object):
             if isinstance(content, dict):
                 return dict((n, dropcontent(x)) for n, x in content.items())
             else:
-                return content[slc]
+                return numpy.ascontiguousarray(content[slc])
 
         out = self.__class__(*(self._group + self._fixed + tuple(axis)), weight=self._weightoriginal, filter=self._filteroriginal, defs=dict(self._defs), attachment=dict(self._attachment))
         if self._content is not None:
@@ -683,7 +684,7 @@ class Projectable(object):
                 cutindex.append(self._fixed.index(c))
         cut = [self._fixed[i] for i in cutindex]
 
-        noprofiles = self.drop(*self._profile)
+        noprofiles = self.drop(*self._profile) if len(self._profile) > 0 else self
         denomhist = noprofiles.project(*[x for x in self._group + self._fixed if x not in cut])
         cuthist = []
         for c in cut:
-- 
2.43.0


From e51b06b0b1a8668012caae2b44e90e87517197c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:26 +0000
Subject: [PATCH 31/59] fix: select with several 'or' and 'and' terms on a
 group axis uses all of them

---
 histbook/proj.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 04b64c2..9a4c2d5 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -396,7 +396,14 @@ class Projectable(object):
 
         allaxis = self._group + self._fixed
 
-        def logical(cutexpr, cutcmp, cutvalue, axis, cutaxis, newaxis, cutslice, closest, closestaxis, wrongcmpaxis):
+        # make new scopes, so that the functions don't all refer to the last pair of slices
+        def both(slice1, slice2):
+            return lambda x: slice1(x) and slice2(x)
+
+        def either(slice1, slice2):
+            return lambda x: slice1(x) or slice2(x)
+
+        def logical(cutexpr, cutcmp, cutvalue, axis, cutaxis, newaxis, cutslice, closest, wrongcmpaxis, closestaxis):
             if isinstance(axis, (histbook.axis.groupby, histbook.axis.groupbin)) and isinstance(cutexpr, histbook.expr.LogicalOr):
                 good = True
                 orslice = None
@@ -404,24 +411,21 @@ class Projectable(object):
                     andslice = None
                     for xpr in andexpr.args:
                         xpr, cmp, value = normalizeexpr(xpr)
-                        check, _, slice1, _, _, _ = logical(xpr, cmp, value, axis, cutaxis, newaxis, cutslice, closest, closestaxis, wrongcmpaxis)
+                        check, _, slice1, _, _, _ = logical(xpr, cmp, value, axis, cutaxis, newaxis, cutslice, closest, wrongcmpaxis, closestaxis)
                         if check is None:
                             good = False
                             break
                         elif andslice is None:
                             andslice = slice1
                         else:
-                            slice2 = andslice
-                            andslice = lambda x: slice1(x) and slice2(x)
+                            andslice = both(slice1, andslice)
 
                     if not good:
                         break
                     elif orslice is None:
                         orslice = andslice
                     else:
-                        slice1 = andslice
-                        slice2 = orslice
-                        orslice = lambda x: slice1(x) or slice2(x)
+                        orslice = either(andslice, orslice)
 
                 if good:
                     return axis, axis, orslice, None, None, None
-- 
2.43.0


From b1cad25bda24a9fcc788bf005c01b91467eba003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:28 +0000
Subject: [PATCH 32/59] fix: select on a group axis copies the selected bins

---
 histbook/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 9a4c2d5..142006a 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -472,7 +472,7 @@ class Projectable(object):
 
             if isinstance(allaxis[i], (histbook.axis.groupby, histbook.axis.groupbin)):
                 if allaxis[i] is cutaxis:
-                    return dict((n, x) for n, x in content.items() if cutslice(n))
+                    return dict((n, self._copycontent(x)) for n, x in content.items() if cutslice(n))
                 else:
                     return dict((n, cutcontent(i + 1, x)) for n, x in content.items())
 
-- 
2.43.0


From 2bd7de06d8ff918d2522c969647493d1b2fb4a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:45 +0000
Subject: [PATCH 33/59] fix: select by infinite and NaN thresholds keeps the
 right bins or reports that no axis can select

---
 histbook/axis.py | 43 ++++++++++++++++++++++++-------------------
 histbook/proj.py |  2 +-
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index d48af3d..77a0322 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -476,19 +476,19 @@ class groupbin(GroupAxis, _RebinFactor):
             return self, lambda x: x != "NaN", None, False
 
         elif value == float("-inf") and cmp == ">":
-            return self, lambda x: x != "NaN", None, False
+            return self, lambda x: x != "NaN" and x != value, None, False
 
         elif value == float("-inf") and cmp == "!=":
-            return self, lambda x: x != "NaN", None, False
+            return self, lambda x: x != value, None, False
 
         elif value == float("inf") and cmp == "<=":
             return self, lambda x: x != "NaN", None, False
 
         elif value == float("inf") and cmp == "<":
-            return self, lambda x: x != "NaN", None, False
+            return self, lambda x: x != "NaN" and x != value, None, False
 
         elif value == float("inf") and cmp == "!=":
-            return self, lambda x: x != "NaN", None, False
+            return self, lambda x: x != value, None, False
 
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isnan(value) and cmp == "!=":
             return self, lambda x: x != "NaN", None, False
@@ -496,17 +496,17 @@ class groupbin(GroupAxis, _RebinFactor):
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isnan(value) and cmp == "==":
             return self, lambda x: x == "NaN", None, False
 
-        elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)):
+        elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isfinite(value):
             close = round((value - float(self._origin)) / float(self._binwidth)) * float(self._binwidth) + float(self._origin)
             if abs(value - close) < tolerance:
                 if self._closedlow and cmp == "<":
-                    return self, lambda x: x < close, close, False
+                    return self, lambda x: x != "NaN" and x < close, close, False
                 elif self._closedlow and cmp == ">=":
-                    return self, lambda x: x >= close, close, False
+                    return self, lambda x: x != "NaN" and x >= close, close, False
                 elif not self._closedlow and cmp == ">":
-                    return self, lambda x: x >= close, close, False
+                    return self, lambda x: x != "NaN" and x >= close, close, False
                 elif not self._closedlow and cmp == "<=":
-                    return self, lambda x: x < close, close, False
+                    return self, lambda x: x != "NaN" and x < close, close, False
                 else:
                     return None, None, close, True
             else:
@@ -717,12 +717,15 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isnan(value) and cmp == "==":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
-            out._nanflow = False
+            out._numbins = 0
+            out._high = self._low
+            out._underflow = False
+            out._overflow = False
             out._checktot()
             return out, slice(self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0), self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0) + 1), None, False
 
-        elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)):
-            scale = float(self._numbins) / float(self._high - self._low)
+        elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isfinite(value):
+            scale = float(self._numbins) / float(self._high - self._low) if self._numbins > 0 else 1.0
             edgenum = int(round((value - float(self._low)) * scale))
             close = min(self._numbins, max(0, edgenum)) / scale + float(self._low)
 
@@ -920,30 +923,30 @@ class intbin(FixedAxis, _RebinFactor, _RebinSplit):
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif value == float("-inf") and cmp == ">":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif value == float("inf") and cmp == "<=":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif value == float("inf") and cmp == "<":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
-        elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)):
+        elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isfinite(value):
             if value + tolerance < self._min:
                 return None, None, self._min, False
             if value - tolerance > self._max:
@@ -1238,11 +1241,13 @@ class split(FixedAxis, _RebinFactor, _RebinSplit):
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isnan(value) and cmp == "==":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
-            out._nanflow = False
+            out._edges = self._edges[:1]
+            out._underflow = False
+            out._overflow = False
             out._checktot()
             return out, slice(len(self._edges) - 1 + (1 if self._underflow else 0) + (1 if self._overflow else 0), len(self._edges) - 1 + (1 if self._underflow else 0) + (1 if self._overflow else 0) + 1), None, False
 
-        elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)):
+        elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isfinite(value):
             dist, edgex, edgei = sorted((abs(value - x), x, i) for i, x in enumerate(self._edges))[0]
 
             if dist < tolerance:
diff --git a/histbook/proj.py b/histbook/proj.py
index 142006a..dcabc4a 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -455,7 +455,7 @@ class Projectable(object):
                 break
         else:
             if wrongcmpaxis is not None:
-                raise ValueError("no axis can select {0} (axis {1} has the wrong inequality; low edges are {2})".format(repr(str(expr)), wrongcmpaxis, "closed" if wrongcmpaxis.closedlow else "open"))
+                raise ValueError("no axis can select {0} (axis {1} has the wrong inequality{2})".format(repr(str(expr)), wrongcmpaxis, "; low edges are {0}".format("closed" if wrongcmpaxis.closedlow else "open") if hasattr(wrongcmpaxis, "closedlow") else ""))
             elif closestaxis is not None:
                 raise ValueError("no axis can select {0} (axis {1} has an edge at {2})".format(repr(str(expr)), closestaxis, repr(closest)))
             else:
-- 
2.43.0


From 19daf72ab6091267833960bd0c3b561f9e040cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:34 +0000
Subject: [PATCH 34/59] fix: normalized tables of histograms with group axes or
 irregular binning in more than one dimension

---
 histbook/proj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index dcabc4a..868d075 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -560,11 +560,12 @@ class Projectable(object):
             for axis in self._group:
                 if isinstance(axis, histbook.axis.groupbin):
                     groupbins *= axis.binwidth
-            binwidths[tuple(axis.finiteslice for axis in self._group + self._fixed)] = groupbins
+            binwidths[tuple(axis.finiteslice for axis in self._fixed)] = groupbins
 
             for i, axis in enumerate(self._fixed):
                 if callable(axis.binwidth):
                     binwidth = numpy.array([axis.binwidth(k) for k in range(axis.numbins)])
+                    binwidth = binwidth.reshape((-1,) + (1,) * (len(self._fixed) - i - 1))     # this axis varies; broadcast over the others
                 else:
                     binwidth = axis.binwidth
 
-- 
2.43.0


From 5fe1c0713eba8c37ecbb51a9232a0f46f2df1dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:37 +0000
Subject: [PATCH 35/59] fix: errors of profiles without spread are zero rather
 than NaN

---
 histbook/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 868d075..07ba2cb 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -615,7 +615,7 @@ class Projectable(object):
                 out[good, outindex] = content[good, prof._sumwxindex] / sumw
                 outindex += 1
                 if error:
-                    out[good, outindex] = numpy.sqrt(((content[good, prof._sumwx2index] / sumw) - numpy.square(out[good, outindex - 1])) / effcnt)
+                    out[good, outindex] = numpy.sqrt(numpy.maximum((content[good, prof._sumwx2index] / sumw) - numpy.square(out[good, outindex - 1]), 0.0) / effcnt)    # rounding can make a zero variance slightly negative
                     outindex += 1
 
             if recarray:
-- 
2.43.0


From 6acd76d6c841e9d8e58d9689b6adf845a20bcbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:40 +0000
Subject: [PATCH 36/59] fix: confidence levels are converted to sigmas
 correctly without scipy

---
 histbook/proj.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 07ba2cb..ba38cc6 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -717,12 +717,18 @@ class Projectable(object):
             try:
                 from scipy.special import erfinv
             except ImportError:
-                a3 = math.pi / 12.0
-                a5 = math.pi**2 * 7.0/480.0
-                a7 = math.pi**3 * 127.0/40320.0
-                a9 = math.pi**4 * 4369.0/5806080.0
-                a11 = math.pi**5 * 34807.0/182476800.0
-                return 0.5*math.sqrt(math.pi)*(level + a3*level**3 + a5*level**5 + a7*level**7 + a9*level**9 + a11*level**11)
+                if not 0 <= level < 1:
+                    return 0.0 if level == 0 else float("inf") if level == 1 else float("nan")
+                # invert math.erf by bisection
+                low, high = 0.0, 1.0
+                while math.erf(high) < level:
+                    high *= 2.0
+                while low < 0.5*(low + high) < high:
+                    if math.erf(0.5*(low + high)) < level:
+                        low = 0.5*(low + high)
+                    else:
+                        high = 0.5*(low + high)
+                return high * math.sqrt(2)
             else:
                 return float(erfinv(level) * math.sqrt(2))
 
-- 
2.43.0


From f0432b336a66c4abf43a0f111ac43e0fe4e5f7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:44 +0000
Subject: [PATCH 37/59] fix: groupkeys of an unfilled histogram is empty and a
 wrong axis is named in the error

---
 histbook/hist.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index a121a52..c1ec733 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -821,7 +821,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             if x == axis:
                 break
         else:
-            raise IndexError("no such groupby/groupbin axis: {0}".format(x))
+            raise IndexError("no such groupby/groupbin axis: {0}".format(axis))
 
         out = set()
         def recurse(j, content):
@@ -831,5 +831,6 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 for x in content.values():
                     recurse(j + 1, x)
         
+        self._prefill()
         recurse(0, self._content)
         return out
-- 
2.43.0


From dc737b847ec80067868ae2f8194f265b3f556ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:11 +0000
Subject: [PATCH 38/59] fix: error bars in combined plots show their own plot
 only; plots of intbins as heatmap y axis or overlay

---
 histbook/axis.py | 4 ++--
 histbook/vega.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 77a0322..847f63b 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -87,7 +87,7 @@ class Interval(object):
             else:
                 return self._low < other._low
         else:
-            return self.__class__ < other.__class__
+            return self._low < other      # intbins have intervals (underflow, overflow) and numbers
 
     def __ne__(self, other):
         return not self.__eq__(other)
@@ -146,7 +146,7 @@ class IntervalNaN(Interval):
         if isinstance(other, Interval):
             return isinstance(other, IntervalNaN)
         else:
-            return self.__class__ < other.__class__
+            return False
 
     def __hash__(self):
         return hash((self.__class__,))
diff --git a/histbook/vega.py b/histbook/vega.py
index 8b37bbe..05c502f 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -834,7 +834,7 @@ class Plotable2d(PlotableFrontends):
             ybin = {"extent": [self._last.yaxis.low, self._last.yaxis.high], "minstep": self._last.yaxis.binwidth, "maxbins": self._last.yaxis.numbins + 1, "nice": False}
         elif isinstance(self._last.yaxis, histbook.axis.intbin):
             ytype = "quantitative"
-            ybin = {"extent": [self._last.yaxis.min - 0.5, self._last.yaxis.may + 0.5], "minstep": self._last.yaxis.binwidth, "maxbins": self._last.yaxis.numbins + 1, "nice": False}
+            ybin = {"extent": [self._last.yaxis.min - 0.5, self._last.yaxis.max + 0.5], "minstep": self._last.yaxis.binwidth, "maxbins": self._last.yaxis.numbins + 1, "nice": False}
         elif isinstance(self._last.yaxis, histbook.axis.split):
             raise NotImplementedError("Vega-Lite doesn't support heatmaps of explicit axis splitting (yet?)")
         else:
@@ -1040,7 +1040,7 @@ class beside(Combination):
                 if len(marks) == 1:
                     tofill.append(plotable._options({"mark": marks[0], "encoding": encodings[0], "transform": transforms[0] + thislayer}, config=False))
                 else:
-                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
+                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t + thislayer}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
                 i += 1
 
         return i
@@ -1081,7 +1081,7 @@ class below(Combination):
                 if len(marks) == 1:
                     tofill.append(plotable._options({"mark": marks[0], "encoding": encodings[0], "transform": transforms[0] + thislayer}, config=False))
                 else:
-                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
+                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t + thislayer}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
                 i += 1
 
         return i
@@ -1123,7 +1123,7 @@ class grid(Combination):
                     tofill[-1]["hconcat"].append(plotable._options({"mark": marks[0], "encoding": encodings[0], "transform": transforms[0] + thislayer}, config=False))
 
                 else:
-                    tofill[-1]["hconcat"].append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
+                    tofill[-1]["hconcat"].append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t + thislayer}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
 
                 i += 1
 
-- 
2.43.0


From a2e6c86ed5d0bc3e845c51d991c12eb2de5f4c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:26 +0000
Subject: [PATCH 39/59] fix: export fractions without remaining fixed axes and
 groupbins with NaN to Pandas

---
 histbook/export.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/export.py b/histbook/export.py
index fe38c83..e0e8d1c 100644
--- a/histbook/export.py
+++ b/histbook/export.py
@@ -73,7 +73,7 @@ class Exportable(object):
 
         def index(j, content, key):
             if j == len(allaxis):
-                if len(self._fixed) == 0:
+                if not any(isinstance(x, histbook.axis.FixedAxis) for x in allaxis):
                     arrays.append(numpy.array([content]))
 
                 for j, k in enumerate(key):
@@ -89,7 +89,7 @@ class Exportable(object):
 
                 elif isinstance(axis, histbook.axis.groupbin):
                     closed = "left" if axis.closedlow else "right"
-                    for n in sorted(content):
+                    for n in sorted(content, key=lambda n: (1, 0) if n == "NaN" else (0, n)):
                         if n == "NaN":
                             index(j + 1, content[n], key + ("{NaN}",))
                         else:
-- 
2.43.0


From 06738191c40fc7d3bc12ae268845f7f915342381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:33 +0000
Subject: [PATCH 40/59] fix: refuse keyword arguments of functions in
 expressions instead of ignoring them

---
 histbook/expr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/histbook/expr.py b/histbook/expr.py
index adc03cc..b4f977c 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -319,6 +319,9 @@ class Expr(object):
                 if fcn is None:
                     raise ExpressionError("unhandled function in expression: {0}".format(histbook.util.astunparse.tostring(node).strip()))
 
+                if len(node.keywords) != 0:
+                    raise ExpressionError("functions in expressions can't have keyword arguments: {0}".format(histbook.util.astunparse.tostring(node).strip()))
+
                 return Call(fcn, *(recurse(x, relations=(i == 0 and fcn == "where")) for i, x in enumerate(node.args)))
 
             else:
-- 
2.43.0


From 49fe9668782d0b617f616b1a35f49ad13decc4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:36 +0000
Subject: [PATCH 41/59] fix: adding a book in-place merges its attachments,
 like adding books

---
 histbook/book.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/histbook/book.py b/histbook/book.py
index 80676d6..dda05cf 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -464,6 +464,7 @@ class GenericBook(collections.MutableMapping):
                 self[n] = x.copy()
             else:
                 self[n] += x
+        self._attachment.update(other._attachment)
         return self
 
     def __mul__(self, value):
-- 
2.43.0


From eaf2f2b887ce1dd3bd0f152c947f61a3eb47e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:39 +0000
Subject: [PATCH 42/59] fix: a change that a SystematicsBook refuses is not
 made

---
 histbook/book.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/histbook/book.py b/histbook/book.py
index dda05cf..0399c14 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -29,6 +29,7 @@
 # OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 import collections
+import copy
 import fnmatch
 import functools
 import sys
@@ -655,3 +656,22 @@ class SystematicsBook(Book):
         self.assertcompatible()
         if not all(x.has("systematic") for x in self.itervalues(recursive=True, onlyhist=True)):
             raise ValueError("all histograms in a SystematicsBook must have a 'systematic' attachment")
+
+    def _trial(self):
+        # same structure and histograms, to find out if a change would be refused before making it
+        def recurse(node):
+            if isinstance(node, GenericBook):
+                out = copy.copy(node)
+                out._content = collections.OrderedDict((n, recurse(x)) for n, x in node._content.items())
+                return out
+            else:
+                return node
+        return recurse(self)
+
+    def _set(self, name, value, path):
+        super(SystematicsBook, self._trial())._set(name, value, path)
+        super(SystematicsBook, self)._set(name, value, path)
+
+    def _del(self, name, path):
+        super(SystematicsBook, self._trial())._del(name, path)
+        super(SystematicsBook, self)._del(name, path)
-- 
2.43.0


From 23efabb58e881a0b34fe239f937ac45307b55d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:51 +0000
Subject: [PATCH 43/59] fix: unpickled and copied histograms don't share
 content

---
 histbook/hist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index c1ec733..a4d57eb 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -763,7 +763,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
     def __getstate__(self):
         packed = tuple(x._pack() for x in self._group + self._fixed + self._profile)
-        return (packed, self._weightoriginal, self._filteroriginal, None if len(self._defs) == 0 else self._defs, self._content, None if len(self._attachment) == 0 else self._attachment)
+        return (packed, self._weightoriginal, self._filteroriginal, None if len(self._defs) == 0 else self._defs, Hist._copycontent(self._content), None if len(self._attachment) == 0 else self._attachment)
 
     def __setstate__(self, state):
         packed, weight, filter, defs, content, attachment = state
-- 
2.43.0


From 867d69fa609750d1dba127a3e5fc0802d8647573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:17 +0000
Subject: [PATCH 44/59] fix: log takes one or two arguments

---
 histbook/calc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index cabb432..3016423 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -93,7 +93,7 @@ library["log1p"] = numpy.log1p
 library["log2"] = numpy.log2
 library["logaddexp2"] = numpy.logaddexp2
 library["logaddexp"] = numpy.logaddexp
-library["log"] = lambda values, *base: numpy.log(values) if len(base) == 0 else numpy.log(values) / numpy.log(*base)
+library["log"] = lambda values, base=None: numpy.log(values) if base is None else numpy.log(values) / numpy.log(base)
 library["max"] = lambda *args: functools.reduce(numpy.maximum, args);           library["fmax"] = library["max"]
 library["min"] = lambda *args: functools.reduce(numpy.minimum, args);           library["fmin"] = library["min"]
 library["pow"] = numpy.power
-- 
2.43.0


From 504621308c4517832eddea55355240d20bc95a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:09 +0000
Subject: [PATCH 45/59] fix: refuse functions without arguments

---
 histbook/expr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/histbook/expr.py b/histbook/expr.py
index b4f977c..5711b56 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -322,6 +322,9 @@ class Expr(object):
                 if len(node.keywords) != 0:
                     raise ExpressionError("functions in expressions can't have keyword arguments: {0}".format(histbook.util.astunparse.tostring(node).strip()))
 
+                if len(node.args) == 0:
+                    raise ExpressionError("functions in expressions must have arguments: {0}".format(histbook.util.astunparse.tostring(node).strip()))
+
                 return Call(fcn, *(recurse(x, relations=(i == 0 and fcn == "where")) for i, x in enumerate(node.args)))
 
             else:
-- 
2.43.0


From 82d560bcdda37fe971a0474649d9f0005e00cabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:46 +0000
Subject: [PATCH 46/59] fix: De Morgan and double negation of mixed and/or
 expressions

---
 histbook/expr.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/histbook/expr.py b/histbook/expr.py
index 5711b56..6a88e44 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -981,6 +981,11 @@ class LogicalAnd(Logical, RingAlgebraMultLike):
 class LogicalOr(Logical, RingAlgebraAddLike):
     """Represents logical or in a ring algebra."""
 
+    def __init__(self, *args):
+        # a term that implies another one is redundant ("a or a and b" is "a"); without them, expressions equal by De Morgan or double negation have the same terms
+        terms = dict((x, frozenset(x.args) if isinstance(x, LogicalAnd) else frozenset([x])) for x in args)
+        super(LogicalOr, self).__init__(*(x for x, literals in terms.items() if not any(y < literals for y in terms.values())))
+
     @classmethod
     def combine(op, left, right):
         left, right = op.normalform(left), op.normalform(right)
-- 
2.43.0


From 1d8109c4b770151eaf6707ff9419225b147d8c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:47 +0000
Subject: [PATCH 47/59] fix: adding a book in-place changes nothing if one of
 its members can't be added

---
 histbook/book.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/histbook/book.py b/histbook/book.py
index 0399c14..cccd138 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -459,7 +459,9 @@ class GenericBook(collections.MutableMapping):
     def __iadd__(self, other):
         if not isinstance(other, GenericBook):
             raise TypeError("histogram books can only be added to other histogram books")
-        
+
+        self.cleared() + other.cleared()   # if any of the members can't be added, raise the error before changing any of them
+
         for n, x in other.iteritems():
             if n not in self:
                 self[n] = x.copy()
-- 
2.43.0


From b56dda3b9dd7076ef534ebfe69b915f96dd3e629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:25 +0000
Subject: [PATCH 48/59] fix: the NaN interval is not less than itself

---
 histbook/axis.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 847f63b..b1b5fdc 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -143,10 +143,7 @@ class IntervalNaN(Interval):
         return self.__class__ == other.__class__
 
     def __lt__(self, other):
-        if isinstance(other, Interval):
-            return isinstance(other, IntervalNaN)
-        else:
-            return False
+        return False       # comes after all other intervals
 
     def __hash__(self):
         return hash((self.__class__,))
-- 
2.43.0


From 2233c24a213bcc3b54e38fa6a9b56e03a1f2063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:12 +0000
Subject: [PATCH 49/59] fix: plots of unfilled histograms with group axes have
 empty color domains

---
 histbook/vega.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index 05c502f..c7dc892 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -647,18 +647,18 @@ class Plotable1d(PlotableFrontends):
             elif len(values) > 1:
                 return "if(datum.{0} === {1}, {2}, {3})".format(var, repr(values[0]), i, makeorder(i + 1, var, values[1:]))
             else:
-                raise AssertionError(values)
+                return str(i)
 
         encoding = {"x": {"field": varname + str(axis.index(self._last.axis)), "type": xtype, "scale": {"zero": False}, "axis": {"title": xtitle}},
                     "y": {"field": varname + str(len(axis)), "type": "quantitative", "axis": {"title": ytitle}}}
         for channel in self._chain[:-1]:
             if isinstance(channel, OverlayChannel):
-                overlayorder = [str(x) for x in sorted(domains[channel.axis])]
+                overlayorder = [str(x) for x in sorted(domains.get(channel.axis, ()))]
                 encoding["color"] = {"field": varname + str(axis.index(channel.axis)), "type": "nominal", "legend": {"title": channel.axis.expr}, "scale": {"domain": overlayorder}}
 
             elif isinstance(channel, StackChannel):
                 if channel.order is None:
-                    stackorder = [str(x) for x in sorted(domains[channel.axis])]
+                    stackorder = [str(x) for x in sorted(domains.get(channel.axis, ()))]
                 else:
                     stackorder = channel.order
                 encoding["color"] = {"field": varname + str(axis.index(channel.axis)), "type": "nominal", "legend": {"title": channel.axis.expr}, "scale": {"domain": list(reversed(stackorder))}}
-- 
2.43.0


From 0df19b04adb2d2f1f4de59b088d08c16c045b90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:14 +0000
Subject: [PATCH 50/59] fix: color domains and stacking orders of cuts and
 intbins are in terms of the labels in the data

---
 histbook/vega.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index c7dc892..134bcc6 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -560,10 +560,11 @@ class Plotable1d(PlotableFrontends):
                 axis = projectedorder[j]
                 if axis not in domains:
                     domains[axis] = set()
-                domains[axis].update(axis.keys(content))
+                domain = domains[axis]
 
                 if isinstance(axis, histbook.axis.intbin):
                     axis = axis.bin()
+                domain.update(axis.keys(content))
 
                 for i, (n, x) in enumerate(axis.items(content)):
                     if isinstance(n, histbook.axis.Interval):
@@ -640,6 +641,12 @@ class Plotable1d(PlotableFrontends):
         else:
             ytitle = self._last.profile.expr
 
+        def label(x):
+            if isinstance(x, (bool, numpy.bool_, numpy.bool)):
+                return "pass" if x else "fail"
+            else:
+                return str(x)
+
         transform = []
         def makeorder(i, var, values):
             if len(values) == 1:
@@ -653,12 +660,12 @@ class Plotable1d(PlotableFrontends):
                     "y": {"field": varname + str(len(axis)), "type": "quantitative", "axis": {"title": ytitle}}}
         for channel in self._chain[:-1]:
             if isinstance(channel, OverlayChannel):
-                overlayorder = [str(x) for x in sorted(domains.get(channel.axis, ()))]
+                overlayorder = [label(x) for x in sorted(domains.get(channel.axis, ()))]
                 encoding["color"] = {"field": varname + str(axis.index(channel.axis)), "type": "nominal", "legend": {"title": channel.axis.expr}, "scale": {"domain": overlayorder}}
 
             elif isinstance(channel, StackChannel):
                 if channel.order is None:
-                    stackorder = [str(x) for x in sorted(domains.get(channel.axis, ()))]
+                    stackorder = [label(x) for x in sorted(domains.get(channel.axis, ()))]
                 else:
                     stackorder = channel.order
                 encoding["color"] = {"field": varname + str(axis.index(channel.axis)), "type": "nominal", "legend": {"title": channel.axis.expr}, "scale": {"domain": list(reversed(stackorder))}}
-- 
2.43.0


From 1bd65ea0d5e365786b5400339e31cfd0a633d7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:33 +0000
Subject: [PATCH 51/59] fix: DataFrames of unfilled histograms have all of
 their index names

---
 histbook/export.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/histbook/export.py b/histbook/export.py
index e0e8d1c..aa80222 100644
--- a/histbook/export.py
+++ b/histbook/export.py
@@ -67,7 +67,7 @@ class Exportable(object):
         else:
             raise TypeError("selected axis must be all profiles (for table) or all cuts (for fraction)")
 
-        names = [None for x in allaxis]
+        names = [str(x.expr) for x in allaxis]
         arrays = []
         keys = [[] for x in allaxis]
 
@@ -81,7 +81,6 @@ class Exportable(object):
 
             else:
                 axis = allaxis[j]
-                names[j] = str(axis.expr)
 
                 if isinstance(axis, histbook.axis.groupby):
                     for n in sorted(content):
-- 
2.43.0


From 0e7d09aed729184516fc97f9b303b97da09bad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:00 +0000
Subject: [PATCH 52/59] fix: find the bins of single precision values in double
 precision

---
 histbook/calc/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 3016423..b2818ac 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -164,9 +164,9 @@ library["histbook.groupby"] = histbook_groupby
 def histbook_groupbin(nanflow, closedlow):
     def groupbin(values, binwidth, origin):
         if origin == 0:
-            indexes = numpy.multiply(values, 1.0/float(binwidth))
+            indexes = numpy.multiply(values, 1.0/float(binwidth), dtype=numpy.float64)
         else:
-            indexes = values - float(origin)
+            indexes = numpy.subtract(values, float(origin), dtype=numpy.float64)
             numpy.multiply(indexes, 1.0/float(binwidth), indexes)
 
         if closedlow:
@@ -220,7 +220,7 @@ def histbook_bin(underflow, overflow, nanflow, closedlow):
         shift = 0
 
     def bin(values, numbins, low, high):
-        indexes = values - float(low)
+        indexes = numpy.subtract(values, float(low), dtype=numpy.float64)
         numpy.multiply(indexes, float(numbins) / float(high - low) if numbins > 0 else 1.0, indexes)
 
         if closedlow:
-- 
2.43.0


From e3fdf989f9e02e88434f48a3d5a9dc5a3fda25f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:50 +0000
Subject: [PATCH 53/59] fix: the last bin of a regular axis ends at its high
 edge, where the overflow begins

---
 histbook/axis.py   | 2 ++
 histbook/export.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index b1b5fdc..a740ae1 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -772,6 +772,8 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
     def keys(self, content=None):
         """Returns key labels in the order of the bin content, to index the content."""
         def i2x(i):
+            if i == self._numbins:
+                return float(self._high)
             return (float(i) / float(self._numbins)) * float(self._high - self._low) + float(self._low)
         return IntervalTuple(([Interval(float("-inf"), float(self._low), closedlow=True, closedhigh=(not self._closedlow))] if self.underflow else []) +
                              [Interval(i2x(i), i2x(i + 1), closedlow=self._closedlow, closedhigh=(not self._closedlow)) for i in range(self._numbins)] +
diff --git a/histbook/export.py b/histbook/export.py
index aa80222..50920c4 100644
--- a/histbook/export.py
+++ b/histbook/export.py
@@ -104,7 +104,7 @@ class Exportable(object):
                             index(j + 1, None, key + (pd.Interval(float("-inf"), axis.low, closed=closed),))
                         last = axis.low
                         for i in range(axis.numbins):
-                            this = (float(i + 1) / float(axis.numbins)) * float(axis.high - axis.low) + float(axis.low)
+                            this = (float(i + 1) / float(axis.numbins)) * float(axis.high - axis.low) + float(axis.low) if i + 1 < axis.numbins else axis.high
                             index(j + 1, None, key + (pd.Interval(last, this, closed=closed),))
                             last = this
                         if axis.overflow:
-- 
2.43.0


From 1930b5fc4d05c25415d54352aa92cd8257b525b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:40 +0000
Subject: [PATCH 54/59] fix: edges of regular axes that are exact numbers are
 labelled and rebinned exactly

---
 histbook/axis.py   | 6 +++---
 histbook/export.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index a740ae1..5306bed 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -658,7 +658,7 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
         return bin(label, self._numbins, self._low, self._high, underflow=self._underflow, overflow=self._overflow, nanflow=self._nanflow, closedlow=self._closedlow)
 
     def split(self):
-        splitaxis = split(self._expr, [(float(i) / float(self._numbins)) * (self._high - self._low) + self._low for i in range(self._numbins)] + [self._high], underflow=self._underflow, overflow=self._overflow, nanflow=self._nanflow, closedlow=self._closedlow)
+        splitaxis = split(self._expr, [float(i) * float(self._high - self._low) / float(self._numbins) + float(self._low) for i in range(self._numbins)] + [self._high], underflow=self._underflow, overflow=self._overflow, nanflow=self._nanflow, closedlow=self._closedlow)
         if hasattr(self, "_original"):
             splitaxis._original = self._original
         if hasattr(self, "_parsed"):
@@ -687,7 +687,7 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
 
     def _rebinfactor(self, factor, content, index):
         assert factor > 0
-        return self._rebinsplit([(float(i) / float(self._numbins)) * (self._high - self._low) + self._low for i in range(0, self._numbins, factor)] + [self._high], content, index)
+        return self._rebinsplit([float(i) * float(self._high - self._low) / float(self._numbins) + float(self._low) for i in range(0, self._numbins, factor)] + [self._high], content, index)
 
     def _select(self, cmp, value, tolerance):
         if value == float("-inf") and cmp == ">=":
@@ -774,7 +774,7 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
         def i2x(i):
             if i == self._numbins:
                 return float(self._high)
-            return (float(i) / float(self._numbins)) * float(self._high - self._low) + float(self._low)
+            return float(i) * float(self._high - self._low) / float(self._numbins) + float(self._low)
         return IntervalTuple(([Interval(float("-inf"), float(self._low), closedlow=True, closedhigh=(not self._closedlow))] if self.underflow else []) +
                              [Interval(i2x(i), i2x(i + 1), closedlow=self._closedlow, closedhigh=(not self._closedlow)) for i in range(self._numbins)] +
                              ([Interval(float(self._high), float("inf"), closedlow=self._closedlow, closedhigh=True)] if self.overflow else []) +
diff --git a/histbook/export.py b/histbook/export.py
index 50920c4..79d2d4e 100644
--- a/histbook/export.py
+++ b/histbook/export.py
@@ -104,7 +104,7 @@ class Exportable(object):
                             index(j + 1, None, key + (pd.Interval(float("-inf"), axis.low, closed=closed),))
                         last = axis.low
                         for i in range(axis.numbins):
-                            this = (float(i + 1) / float(axis.numbins)) * float(axis.high - axis.low) + float(axis.low) if i + 1 < axis.numbins else axis.high
+                            this = float(i + 1) * float(axis.high - axis.low) / float(axis.numbins) + float(axis.low) if i + 1 < axis.numbins else axis.high
                             index(j + 1, None, key + (pd.Interval(last, this, closed=closed),))
                             last = this
                         if axis.overflow:
-- 
2.43.0


From cb1ef930d2e147dcd6a59559dc383a25800427fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:42 +0000
Subject: [PATCH 55/59] fix: strings compared with numbers are unequal entry by
 entry

---
 histbook/calc/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index b2818ac..0825c1d 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -44,8 +44,16 @@ library["numpy.multiply"] = numpy.multiply
 library["histbook.square"] = lambda values: numpy.multiply(values, values, dtype=numpy.float64)   # integers narrower than their squares must not wrap around
 library["numpy.true_divide"] = numpy.true_divide
 library["numpy.floor_divide"] = numpy.floor_divide
-library["numpy.equal"] = operator.eq
-library["numpy.not_equal"] = operator.ne
+def elementwise(compare):
+    def function(left, right):
+        out = compare(left, right)
+        shape = numpy.broadcast(left, right).shape
+        # values of types that cannot be compared (strings and numbers) get one result for all of them
+        return out if numpy.shape(out) == shape else numpy.full(shape, bool(out))
+    return function
+
+library["numpy.equal"] = elementwise(operator.eq)
+library["numpy.not_equal"] = elementwise(operator.ne)
 library["numpy.less"] = operator.lt
 library["numpy.less_equal"] = operator.le
 try:
-- 
2.43.0


From 02509fffbd78888da9ad9df90005b902634adb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:25 +0000
Subject: [PATCH 56/59] fix: bitwise operations on constants wrapped around in
 unsigned integers

---
 histbook/expr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 6a88e44..b31ca70 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -111,9 +111,9 @@ class Expr(object):
                      "//": lambda x, y: int(x // y),
                      "%": lambda x, y: x % y,
                      "**": lambda x, y: x ** y,
-                     "|": lambda x, y: numpy.uint64(x) | numpy.uint64(y),
-                     "&": lambda x, y: numpy.uint64(x) & numpy.uint64(y),
-                     "^": lambda x, y: numpy.uint64(x) ^ numpy.uint64(y)}
+                     "|": lambda x, y: x | y,
+                     "&": lambda x, y: x & y,
+                     "^": lambda x, y: x ^ y}
 
         env = dict(globals())
         def resolve(node):
-- 
2.43.0


From 472d4354abb5baede623dd962fd3552857a65897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:28 +0000
Subject: [PATCH 57/59] fix: refuse unknown error methods in fraction

---
 histbook/proj.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/histbook/proj.py b/histbook/proj.py
index ba38cc6..f012121 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -676,6 +676,8 @@ class Projectable(object):
         showcolumns = opts.pop("columns", False)
         if len(opts) > 0:
             raise TypeError("unrecognized options for Hist.table: {0}".format(" ".join(opts)))
+        if error and error not in ("clopper-pearson", "normal", "wilson", "agresti-coull", "feldman-cousins", "jeffrey", "bayesian-uniform"):
+            raise ValueError("unrecognized error method: {0}".format(repr(error)))
 
         self._prefill()
 
-- 
2.43.0


From d02132e34d414999188a545af38ddf6400b0bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:23 +0000
Subject: [PATCH 58/59] fix: an axis taken from another histogram kept the
 definitions of that histogram

---
 histbook/hist.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index a4d57eb..4292d22 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -161,10 +161,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             else:
                 # always a new object because its position in this histogram is about to be set on it
                 new = old.copy()
-                if hasattr(old, "_parsed"):
-                    new._parsed = old._parsed
-                else:
-                    new._parsed = histbook.expr.Expr.parse(old._expr, defs=defs)
+                # with this histogram's definitions, which may be different from those of the histogram the axis comes from
+                new._parsed = histbook.expr.Expr.parse(old._expr, defs=defs)
                 if hasattr(old, "_original"):
                     new._original = old._original
                 newaxis.append(new)
-- 
2.43.0


From 2f55e01512e97906c307e4899d809c0cde303ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:14 +0000
Subject: [PATCH 59/59] fix: plots and their combinations print as source text

---
 histbook/vega.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index 134bcc6..70b60a6 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -114,7 +114,7 @@ class Terminal1dChannel(Channel):
             args.append("colorscale={0}".format(repr(self.colorscale)))
         if self.shapescale is not None:
             args.append("shapescale={0}".format(repr(self.shapescale)))
-        return ".{0}({1})".format(self._method, "".join(args))
+        return ".{0}({1})".format(self._method, ", ".join(args))
 
 class BarChannel(Terminal1dChannel):
     """Represents a bar axis in a Vega-Lite plot."""
@@ -169,7 +169,7 @@ class Terminal2dChannel(Channel):
             args.append("yscale={0}".format(repr(self.yscale)))
         if self.colorscale is not None:
             args.append("colorscale={0}".format(repr(self.colorscale)))
-        return ".{0}({1})".format(self._method, "".join(args))
+        return ".{0}({1})".format(self._method, ", ".join(args))
 
 class HeatmapChannel(Terminal2dChannel):
     """Represents a heatmap in a Vega-Lite plot."""
@@ -933,11 +933,14 @@ class Combination(PlotableFrontends):
         if len(opts) > 0:
             raise TypeError("unrecognized options for {0}: {1}".format(self.__class__.__name__, " ".join(opts)))
 
+    def _args(self):
+        return [] if self.config is None else ["config={0}".format(repr(self.config))]
+
     def __repr__(self):
-        return "{0}({1})".format(self.__class__.__name__, ", ".join(repr(x) for x in self._plotables))
+        return "{0}({1})".format(self.__class__.__name__, ", ".join([repr(x) for x in self._plotables] + self._args()))
 
     def __str__(self, indent="\n    ", paren=False):
-        return "{0}({1})".format(self.__class__.__name__, "".join(indent + x.__str__(indent + "    ", False) for x in self._plotables))
+        return "{0}({1})".format(self.__class__.__name__, ",".join([indent + x.__str__(indent + "    ", False) for x in self._plotables] + [indent + x for x in self._args()]))
 
     def _varname(self, i):
         out = []
@@ -1112,6 +1115,12 @@ class grid(Combination):
             raise TypeError("cannot place plots in a grid that are already split with beside or below")
         self.numcol = numcol
 
+    def __repr__(self):
+        return "{0}({1})".format(self.__class__.__name__, ", ".join([repr(self.numcol)] + [repr(x) for x in self._plotables] + self._args()))
+
+    def __str__(self, indent="\n    ", paren=False):
+        return "{0}({1})".format(self.__class__.__name__, ",".join([repr(self.numcol)] + [indent + x.__str__(indent + "    ", False) for x in self._plotables] + [indent + x for x in self._args()]))
+
     def _fill(self, i, allaxis, alldomains, tofill):
         for plotable in self._plotables:
             if len(tofill[-1]["hconcat"]) >= self.numcol:
-- 
2.43.0

