From 228482b3ab34834194c283b2976b7c96ff68e48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 01/50] fix: order products of non-commuting factors by a
 canonical normal form

Sorting with the partial order of DisjunctCommutativeHSOrder could
interchange factors that share a degree of freedom.
---
 src/qnet/algebra/core/algebraic_properties.py |  5 ++++
 .../algebra/core/super_operator_algebra.py    | 23 +++++++++++---
 src/qnet/utils/ordering.py                    | 30 +++++++++++++++++--
 3 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index d148d69..76ebcb5 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -114,7 +114,12 @@ def orderby(cls, ops, kwargs):
         ...     simplifications = [orderby, ]
         >>> Times.create(2,1)
         Times(1, 2)
+
+    If the ``order_key`` defines only a partial order, it must have a `sorted`
+    method for ordering the arguments.
     """
+    if hasattr(cls.order_key, 'sorted'):
+        return cls.order_key.sorted(ops), kwargs
     return sorted(ops, key=cls.order_key), kwargs
 
 
diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 26ee67e..db32508 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -128,11 +128,26 @@ class SuperOperatorPlus(QuantumPlus, SuperOperator):
 class SuperCommutativeHSOrder(DisjunctCommutativeHSOrder):
     """Ordering class that acts like DisjunctCommutativeHSOrder, but also
     commutes any `SPost` and `SPre`"""
-    def __lt__(self, other):
-        if isinstance(self.op, SPre) and isinstance(other.op, SPost):
+
+    @property
+    def _rank(self):
+        """`SPre` goes before `SPost`, and both before everything else (so that
+        the order is transitive for super-operators that commute)"""
+        if isinstance(self.op, SPre):
+            return 0
+        elif isinstance(self.op, SPost):
+            return 1
+        else:
+            return 2
+
+    def commutes_with(self, other):
+        if self._rank + other._rank == 1:  # SPre and SPost
             return True
-        elif isinstance(self.op, SPost) and isinstance(other.op, SPre):
-            return False
+        return super().commutes_with(other)
+
+    def __lt__(self, other):
+        if self.commutes_with(other) and self._rank != other._rank:
+            return self._rank < other._rank
         else:
             return DisjunctCommutativeHSOrder.__lt__(self, other)
 
diff --git a/src/qnet/utils/ordering.py b/src/qnet/utils/ordering.py
index 51251d9..a5d0ea4 100644
--- a/src/qnet/utils/ordering.py
+++ b/src/qnet/utils/ordering.py
@@ -81,10 +81,32 @@ class DisjunctCommutativeHSOrder():
     """Auxiliary class that generates the correct pseudo-order relation for
     operator products.  Only operators acting on disjoint Hilbert spaces
     are commuted to reflect the order the local factors have in the total
-    Hilbert space. I.e., ``sorted(factors, key=DisjunctCommutativeHSOrder)``
-    achieves this ordering.
+    Hilbert space. As factors with overlapping Hilbert spaces are not ordered
+    with respect to each other, this is only a partial order, and a product
+    must be ordered with :meth:`sorted` (the built-in function `sorted` is only
+    reliable for a total order).
     """
 
+    @classmethod
+    def sorted(cls, factors):
+        """List of the given `factors` in canonical order.
+
+        Repeatedly take the smallest of those factors that commute with
+        everything to their left. That is, factors that do not commute are
+        never interchanged, and the result is the same for any two products
+        that differ only by interchanging factors that commute.
+        """
+        keys = [cls(factor) for factor in factors]
+        result = []
+        while len(keys) > 0:
+            first = 0
+            for (i, key) in enumerate(keys):
+                if all(key.commutes_with(left) for left in keys[:i]):
+                    if key < keys[first]:
+                        first = i
+            result.append(keys.pop(first).op)
+        return result
+
     def __init__(self, op, space_order=None, op_order=None):
         from qnet.algebra.core.hilbert_space_algebra import TrivialSpace
         self.op = op
@@ -107,6 +129,10 @@ class DisjunctCommutativeHSOrder():
                 self.__class__.__name__, srepr(self.op), self._space_order,
                 self._op_order)
 
+    def commutes_with(self, other):
+        """Whether two factors may be interchanged"""
+        return self.space.isdisjoint(other.space)
+
     def __lt__(self, other):
         if self.trivial and other.trivial:
             return self._op_order < other._op_order
-- 
2.43.0


From 676c7f3fd4825f49717d7eb1820aa6c23e2585c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 02/50] fix: do not pull factors out of a trace that do not
 commute with the traced operator

factor_for_trace also used the cyclic property of the trace for factors that
share other degrees of freedom.
---
 src/qnet/algebra/core/operator_algebra.py | 35 +++++++++++++++++------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 2478d59..b735625 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -848,27 +848,44 @@ def factor_for_trace(ls: HilbertSpace, op: Operator) -> Operator:
     if ls & op.space == TrivialSpace:
         return ls.dimension * op
     if ls < op.space and isinstance(op, OperatorTimes):
-        pull_out = [o for o in op.operands if (o.space & ls) == TrivialSpace]
-
-        rest = [o for o in op.operands if (o.space & ls) != TrivialSpace]
+        pull_left, rest = _split_factors_for_trace(ls, op.operands)
+        pull_right, rest = _split_factors_for_trace(ls, rest[::-1])
+        pull_right, rest = pull_right[::-1], rest[::-1]
         if (not isinstance(rest[0], LocalSigma) or
             not isinstance(rest[-1], LocalSigma)):
             for j, r in enumerate(rest):
-                if isinstance(r, LocalSigma):
+                # the trace is cyclic only with respect to `ls`
+                if (isinstance(r, LocalSigma) and r.space == ls and
+                        all((o1.space & o2.space) <= ls
+                            for o1 in rest[:j] for o2 in rest[j:])):
                     m = r.j
                     rest = (
                         rest[j:] + rest[:j] +
                         [LocalSigma.create(m, m, hs=ls), ])
                     break
-        if not rest:
-            rest = [IdentityOperator]
-        if len(pull_out):
-            return (OperatorTimes.create(*pull_out) *
+        if len(pull_left) + len(pull_right) > 0:
+            return (OperatorTimes.create(*pull_left) *
                     OperatorTrace.create(OperatorTimes.create(*rest),
-                                         over_space=ls))
+                                         over_space=ls) *
+                    OperatorTimes.create(*pull_right))
     raise CannotSimplify()
 
 
+def _split_factors_for_trace(ls, factors):
+    """Split the `factors` of a product into those that can be pulled out of
+    the trace over `ls` to the left (because they do not act on `ls` and
+    commute with every remaining factor to their left), and the remaining
+    factors"""
+    pull_out, rest = [], []
+    for o in factors:
+        if ((o.space & ls) == TrivialSpace and
+                all(o.space.isdisjoint(r.space) for r in rest)):
+            pull_out.append(o)
+        else:
+            rest.append(o)
+    return pull_out, rest
+
+
 def decompose_space(H, A):
     """Simplifies OperatorTrace expressions over tensor-product spaces by
     turning it into iterated partial traces.
-- 
2.43.0


From 3d64e3cc6f381b65090cd1fdf55f7c2d63276e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 03/50] fix: super-adjoint of a scalar multiple of a
 super-operator

---
 src/qnet/algebra/core/super_operator_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index db32508..e9c3ec0 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -174,7 +174,8 @@ class ScalarTimesSuperOperator(SuperOperator, ScalarTimesQuantumExpression):
     :class:`SuperOperator`"""
 
     def _adjoint(self):
-        pass
+        # the super-adjoint is linear, cf. `SuperAdjoint`
+        return self.coeff * self.term.adjoint()
 
     _rules = OrderedDict()  # see end of module
     simplifications = [match_replace, ]
-- 
2.43.0


From d2fa63fb6a9aa2bdf82f5ffed4a7fe59a358ddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 04/50] fix: keep the zero bra a bra and let outer products
 with a zero state vanish

---
 src/qnet/algebra/core/state_algebra.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 84c160a..e5bc0bc 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -656,6 +656,12 @@ class KetBra(Operator, Operation):
     _rules = OrderedDict()
     simplifications = [match_replace]
 
+    @classmethod
+    def create(cls, ket, bra):
+        if ket == ZeroKet or bra == ZeroKet:
+            return cls._zero
+        return super().create(ket, bra)
+
     def __init__(self, ket, bra):
         _check_kets(ket, bra, same_space=True)
         super().__init__(ket, bra)
@@ -753,3 +759,4 @@ State._times_cls = TensorKet
 State._adjoint_cls = Bra
 State._indexed_sum_cls = KetIndexedSum
 State._derivative_cls = StateDerivative
+Bra._zero = Bra(ZeroKet)
-- 
2.43.0


From 9fbc2730c2ab7d8c137272a19467c0a5d7303203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 05/50] fix: square roots of negative floats are imaginary, as
 native Python numbers

---
 src/qnet/algebra/core/scalar_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 8c1cd82..9b8e233 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -1196,7 +1196,8 @@ def sqrt(scalar):
     elif scalar == 0:
         return Zero
     elif isinstance(scalar, (float, complex, complex128, float64)):
-        return ScalarValue.create(numpy.sqrt(scalar))
+        root = numpy.lib.scimath.sqrt(scalar)  # complex for negative floats
+        return ScalarValue.create(root.item())  # native float or complex
     elif isinstance(scalar, (int, sympy.Basic, int64)):
         return ScalarValue.create(sympy.sqrt(scalar))
     elif isinstance(scalar, Scalar):
-- 
2.43.0


From ea37f9124fc42032cbf84618c3a0a475072e1687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 06/50] fix: simplify_scalar of basis states identified by
 index

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 386f030..99eb34e 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -372,7 +372,7 @@ class QuantumSymbol(QuantumExpression, metaclass=ABCMeta):
 
     def _simplify_scalar(self, func):
         simplified_sym_args = [func(sym) for sym in self._sym_args]
-        return self.create(self.label, *simplified_sym_args, hs=self.space)
+        return self.create(self.args[0], *simplified_sym_args, hs=self.space)
 
     def _expand(self):
         return self
-- 
2.43.0


From 0b2ab8e0bf510958129fa95a89e8f9af663614be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 07/50] fix: Leibniz expansion of a commutator with a product
 of two factors on the left

---
 src/qnet/algebra/toolbox/commutator_manipulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/toolbox/commutator_manipulation.py b/src/qnet/algebra/toolbox/commutator_manipulation.py
index bdec62b..f177ad5 100644
--- a/src/qnet/algebra/toolbox/commutator_manipulation.py
+++ b/src/qnet/algebra/toolbox/commutator_manipulation.py
@@ -40,7 +40,7 @@ def expand_commutators_leibniz(expr, expand_expr=True):
     def leibniz_left(AB, C):
         """[AB, C] -> A [B, C] C + [A, C] B"""
         A = AB.operands[0]
-        B = OperatorTimes(*AB.operands[1:])
+        B = OperatorTimes.create(*AB.operands[1:])
         return A * Commutator.create(B, C) + Commutator.create(A, C) * B
 
     rules = OrderedDict([
-- 
2.43.0


From b44b122dc5523c9407e285fc0ef04da3f0342f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 08/50] fix: expansion of the adjoint of a sum

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 99eb34e..95ef0f3 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -463,7 +463,7 @@ class QuantumAdjoint(SingleQuantumOperation, metaclass=ABCMeta):
     def _expand(self):
         eo = self.operand.expand()
         if isinstance(eo, self.__class__._plus_cls):
-            summands = [eoo.adjoin() for eoo in eo.operands]
+            summands = [eoo.adjoint() for eoo in eo.operands]
             return self.__class__._plus_cls.create(*summands)
         return eo.adjoint()
 
-- 
2.43.0


From 9900a1ae01baf0d459ca24fbc0528f553c8e5a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:00 +0000
Subject: [PATCH 09/50] fix: the adjoint of a sum is in canonical order

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 95ef0f3..1fdfab3 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -498,7 +498,8 @@ class QuantumPlus(QuantumOperation, metaclass=ABCMeta):
         return sum([o.diff(sym) for o in self.operands], self.__class__._zero)
 
     def _adjoint(self):
-        return self.__class__._plus_cls(*[o.adjoint() for o in self.operands])
+        return self.__class__._plus_cls.create(
+            *[o.adjoint() for o in self.operands])
 
 
 class QuantumTimes(QuantumOperation, metaclass=ABCMeta):
-- 
2.43.0


From 6acdafb2be4a552a568bd193c5bc745df2d84576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:00 +0000
Subject: [PATCH 10/50] fix: products of indexed sums with scaled expressions

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 1fdfab3..8a3e63e 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -865,7 +865,7 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
         elif is_scalar(other):
             return self.__class__._scalar_times_expr_cls(other, self)
         elif isinstance(other, ScalarTimesQuantumExpression):
-            return self._class__._scalar_times_expr_cls(
+            return self.__class__._scalar_times_expr_cls(
                 other.coeff, self * other.term)
         else:
             sum = self.make_disjunct_indices(*other.bound_symbols)
@@ -885,7 +885,7 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
         elif is_scalar(other):
             return self.__class__._scalar_times_expr_cls.create(other, self)
         elif isinstance(other, ScalarTimesQuantumExpression):
-            return self._class__._scalar_times_expr_cls(
+            return self.__class__._scalar_times_expr_cls(
                 other.coeff, other.term * self)
         else:
             sum = self.make_disjunct_indices(*other.bound_symbols)
-- 
2.43.0


From aadf435c8833396c4014eee3500cf1a61758636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 11/50] fix: derivatives and series coefficients of compound
 expressions

Series coefficients of sums, of products of operators and kets, of outer
products, of A +/- c.c., of applied super-operators, of indexed sums and of
symbolic derivatives, and derivatives of SPre, SPost, nested traces,
A +/- c.c. and of derivatives evaluated at a point that depends on the
parameter
---
 .../algebra/core/abstract_quantum_algebra.py  | 39 ++++++++++++-------
 src/qnet/algebra/core/operator_algebra.py     | 10 ++---
 src/qnet/algebra/core/state_algebra.py        |  7 +---
 .../algebra/core/super_operator_algebra.py    | 12 +++---
 4 files changed, 37 insertions(+), 31 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 8a3e63e..87e1d1b 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -450,11 +450,12 @@ class SingleQuantumOperation(QuantumOperation, metaclass=ABCMeta):
     def _diff(self, sym):
         # most single-quantum-operations are linear, i.e. they commute with the
         # derivative. Those that are not must override _diff
-        return self.__class__.create(self.operand.diff(sym))
+        return self.__class__.create(self.operand.diff(sym), **self.kwargs)
 
     def _series_expand(self, param, about, order):
         ope = self.operand.series_expand(param, about, order)
-        return tuple(self.__class__.create(opet) for opet in ope)
+        return tuple(
+            self.__class__.create(opet, **self.kwargs) for opet in ope)
 
 
 class QuantumAdjoint(SingleQuantumOperation, metaclass=ABCMeta):
@@ -491,8 +492,8 @@ class QuantumPlus(QuantumOperation, metaclass=ABCMeta):
 
     def _series_expand(self, param, about, order):
         tuples = (o.series_expand(param, about, order) for o in self.operands)
-        res = (self.__class__._plus_cls.create(*tels) for tels in zip(*tuples))
-        return res
+        return tuple(
+            self.__class__._plus_cls.create(*tels) for tels in zip(*tuples))
 
     def _diff(self, sym):
         return sum([o.diff(sym) for o in self.operands], self.__class__._zero)
@@ -797,7 +798,7 @@ class QuantumDerivative(SingleQuantumOperation):
                     in self.operand.substitute(dummy_map).free_symbols
                     if not isinstance(sym, sympy.Dummy)}
                 for val in self._vals.values():
-                    self._free_symbols.update(val.free_symbols)
+                    self._free_symbols.update(sympy.sympify(val).free_symbols)
         return self._free_symbols
 
     @property
@@ -818,18 +819,21 @@ class QuantumDerivative(SingleQuantumOperation):
         return self._n
 
     def _diff(self, sym):
-        if sym in self._vals.keys():
+        if not isinstance(sym, sympy.Basic):
+            raise TypeError("%s must be a Sympy symbol" % sym)
+        if any(sympy.sympify(val).has(sym) for val in self._vals.values()):
+            return self.__class__(self, derivs={sym: 1})
+        elif sym in self._vals.keys():
             return self.__class__._zero
         else:
-            if not isinstance(sym, sympy.Basic):
-                raise TypeError("%s must be a Sympy symbol" % sym)
-            if sym in self._vals.values():
-                return self.__class__(self, derivs={sym: 1})
-            else:
-                derivs = self._derivs.copy()
-                derivs[sym] += 1
-                return self.__class__(
-                    self.operand, derivs=derivs, vals=self._vals)
+            derivs = self._derivs.copy()
+            derivs[sym] += 1
+            return self.__class__(
+                self.operand, derivs=derivs, vals=self._vals)
+
+    def _series_expand(self, param, about, order):
+        # not the series of the operand: abstract Taylor series
+        return QuantumExpression._series_expand(self, param, about, order)
 
     def _adjoint(self):
         return self.__class__(
@@ -853,6 +857,11 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
     def _diff(self, sym):
         return self.__class__.create(self.term.diff(sym), *self.ranges)
 
+    def _series_expand(self, param, about, order):
+        return tuple(
+            self.__class__.create(c, *self.ranges)
+            for c in self.term.series_expand(param, about, order))
+
     def __mul__(self, other):
         from qnet.algebra.core.scalar_algebra import is_scalar
         if isinstance(other, IndexedSum):
diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index b735625..3af07b9 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -596,8 +596,8 @@ class Commutator(QuantumOperation, Operator):
         return tuple(res)
 
     def _diff(self, sym):
-        return (self.__class__(self.A.diff(sym), self.B) +
-                self.__class__(self.A, self.B.diff(sym)))
+        return (self.__class__.create(self.A.diff(sym), self.B) +
+                self.__class__.create(self.A, self.B.diff(sym)))
 
     def _adjoint(self):
         return Commutator(self.B.adjoint(), self.A.adjoint())
@@ -660,7 +660,7 @@ class OperatorTrace(SingleQuantumOperation, Operator):
     def _diff(self, sym):
         s = self._over_space
         o = self.operand
-        return OperatorTrace.create(o._diff(sym), over_space=s)
+        return OperatorTrace.create(o.diff(sym), over_space=s)
 
     def _adjoint(self):
         # there is a rule Tr[A^\dagger] -> Tr[A]^\dagger, which we don't want
@@ -711,8 +711,8 @@ class OperatorPlusMinusCC(SingleQuantumOperation, Operator):
         return self
 
     def _diff(self, sym):
-        return OperatorPlusMinusCC(
-            self.operands._diff(sym), sign=self._sign)
+        return OperatorPlusMinusCC.create(
+            self.operand.diff(sym), sign=self._sign)
 
     def _adjoint(self):
         return OperatorPlusMinusCC(self.operand.adjoint(), sign=self._sign)
diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index e5bc0bc..1b00a35 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -524,9 +524,7 @@ class OperatorTimesKet(State, Operation):
     def _series_expand(self, param, about, order):
         ce = self.operator.series_expand(param, about, order)
         te = self.ket.series_expand(param, about, order)
-
-        return tuple(ce[k] * te[n - k]
-                     for n in range(order + 1) for k in range(n + 1))
+        return _series_expand_combine_prod(ce, te, order)
 
 
 class StateDerivative(QuantumDerivative, State):
@@ -710,8 +708,7 @@ class KetBra(Operator, Operation):
     def _series_expand(self, param, about, order):
         ke = self.ket.series_expand(param, about, order)
         be = self.bra.series_expand(param, about, order)
-        return tuple(ke[k] * be[n - k]
-                     for n in range(order + 1) for k in range(n + 1))
+        return _series_expand_combine_prod(ke, be, order)
 
 
 class KetIndexedSum(State, QuantumIndexedSum):
diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index e9c3ec0..f855c96 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -13,7 +13,7 @@ from .abstract_algebra import Operation
 from .abstract_quantum_algebra import (
     ScalarTimesQuantumExpression, QuantumExpression, QuantumSymbol,
     QuantumOperation, QuantumPlus, QuantumTimes, QuantumAdjoint,
-    QuantumDerivative)
+    QuantumDerivative, _series_expand_combine_prod)
 from .algebraic_properties import (
     assoc, filter_neutral, match_replace, match_replace_binary, orderby,
     delegate_to_method, collect_summands)
@@ -232,7 +232,7 @@ class SPre(SuperOperator, Operation):
         return self.create(self.operands[0].simplify_scalar(func=func))
 
     def _diff(self, sym):
-        return SuperOperatorDerivative(self, {sym: 1})
+        return self.create(self.operands[0].diff(sym))
 
     def _adjoint(self):
         return SPost(self.operands[0])
@@ -266,7 +266,7 @@ class SPost(SuperOperator, Operation):
         return self.create(self.operands[0].simplify_scalar(func=func))
 
     def _diff(self, sym):
-        return SuperOperatorDerivative(self, {sym: 1})
+        return self.create(self.operands[0].diff(sym))
 
     def _adjoint(self):
         return SPre(self.operands[0])
@@ -313,9 +313,9 @@ class SuperOperatorTimesOperator(Operator, Operation):
         return sum(st * ot for st in sopet for ot in opet)
 
     def _series_expand(self, param, about, order):
-        sop, op = self.sop, self.op
-        ope = op.series_expand(param, about, order)
-        return tuple(sop * opet for opet in ope)
+        sope = self.sop.series_expand(param, about, order)
+        ope = self.op.series_expand(param, about, order)
+        return _series_expand_combine_prod(sope, ope, order)
 
     def _simplify_scalar(self, func):
         sop, op = self.sop, self.op
-- 
2.43.0


From 136f000a43790f57c1d483f3b2e34bf36247883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 12/50] fix: substitution in symbolic derivatives

---
 .../algebra/core/abstract_quantum_algebra.py  | 47 ++++++++++++++++---
 src/qnet/algebra/core/algebraic_properties.py |  7 +--
 2 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 87e1d1b..3d848aa 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -16,7 +16,8 @@ import sympy
 from sympy import Symbol, sympify
 
 from .hilbert_space_algebra import ProductSpace, LocalSpace, TrivialSpace
-from .abstract_algebra import Operation, Expression, substitute
+from .abstract_algebra import (
+    Operation, Expression, substitute, _free_symbols)
 from .algebraic_properties import derivative_via_diff
 from .indexed_operations import IndexedSum
 from ...utils.ordering import (
@@ -831,6 +832,43 @@ class QuantumDerivative(SingleQuantumOperation):
             return self.__class__(
                 self.operand, derivs=derivs, vals=self._vals)
 
+    def _substitute(self, var_map, safe=False):
+        if self in var_map:
+            if not safe or (type(var_map[self]) == type(self)):
+                return var_map[self]
+        vals, derivs = {}, {}
+        for (sym, n) in self._derivs.items():
+            if sym in var_map:
+                # replacing the symbol that the derivative is taken with
+                # respect to means to evaluate the derivative at that point
+                new_sym = sym
+                vals[sym] = var_map[sym]
+            else:
+                new_sym = substitute(sym, var_map)  # non-atomic symbol
+            derivs[new_sym] = n
+            if sym in self._vals:
+                vals[new_sym] = substitute(self._vals[sym], var_map)
+        inner_map = {
+            k: v for (k, v) in var_map.items() if k not in self._derivs}
+        operand = self.operand
+        used = set().union(*[
+            _free_symbols(v) for (k, v) in inner_map.items()
+            if isinstance(k, sympy.Basic)])
+        for sym in sorted(used.intersection(derivs), key=str):
+            # the derivative does not act on what is being substituted
+            new_sym = sym
+            while new_sym in used | operand.free_symbols | set(derivs):
+                new_sym = Symbol(new_sym.name + "'", **sym.assumptions0)
+            operand = operand.substitute({sym: new_sym})
+            derivs[new_sym] = derivs.pop(sym)
+            vals[new_sym] = vals.pop(sym, sym)
+        operand = operand.substitute(inner_map)
+        vals = vals or None
+        if safe or operand == self.operand:
+            return self.__class__(operand, derivs=derivs, vals=vals)
+        else:
+            return self.__class__.create(operand, derivs=derivs, vals=vals)
+
     def _series_expand(self, param, about, order):
         # not the series of the operand: abstract Taylor series
         return QuantumExpression._series_expand(self, param, about, order)
@@ -1103,12 +1141,7 @@ def _series_expand_combine_prod(c1, c2, order):
 
 
 def _evaluate_at(expr, sym, val):
-    try:
-        # for QuantumDerivative instance
-        return expr.evaluate_at({sym: val})
-    except AttributeError:
-        # for explicit Expression
-        return expr.substitute({sym: val})
+    return expr.substitute({sym: val})
 
 
 def _expand_product(factors):
diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index 76ebcb5..ed5a2fb 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -971,11 +971,6 @@ def derivative_via_diff(cls, ops, kwargs):
         else:
             return op.__class__._zero
     if vals is not None:
-        try:
-            # for QuantumDerivative instance
-            return op.evaluate_at(vals)
-        except AttributeError:
-            # for explicit Expression
-            return op.substitute(vals)
+        return op.substitute(dict(vals))
     else:
         return op
-- 
2.43.0


From 54f7dedfad4ab78933fc6d65684a2f8aa7ba0552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:33 +0000
Subject: [PATCH 13/50] fix: derivatives of pseudo-inverses, null space
 projectors and coherent states

---
 src/qnet/algebra/core/operator_algebra.py | 12 ++++++++++++
 src/qnet/algebra/core/state_algebra.py    | 12 ++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 3af07b9..999b9c9 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -760,6 +760,12 @@ class PseudoInverse(SingleQuantumOperation, Operator):
     def _adjoint(self):
         return Adjoint(self)
 
+    def _diff(self, sym):
+        return OperatorDerivative(self, derivs={sym: 1})  # not linear
+
+    def _series_expand(self, param, about, order):
+        return QuantumExpression._series_expand(self, param, about, order)
+
 
 class NullSpaceProjector(SingleQuantumOperation, Operator):
     r"""Projection operator onto the nullspace of its operand
@@ -787,6 +793,12 @@ class NullSpaceProjector(SingleQuantumOperation, Operator):
     def _adjoint(self):
         return Adjoint(self)
 
+    def _diff(self, sym):
+        return OperatorDerivative(self, derivs={sym: 1})  # not linear
+
+    def _series_expand(self, param, about, order):
+        return QuantumExpression._series_expand(self, param, about, order)
+
     def _pseudo_inverse(self):
         return PseudoInverse(self)
 
diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 1b00a35..5351f86 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -389,11 +389,15 @@ class CoherentStateKet(LocalKet):
     def _diff(self, sym):
         from qnet.algebra.library.fock_operators import Destroy, Create
         hs = self.space
+        alpha = self._ampl
+        alpha_conj = self._ampl.conjugate()
+        # the second term is due to the displacements by alpha and by its
+        # change not commuting
         return (
-            (self._ampl * Create(hs=hs) -
-             self._ampl.conjugate() * Destroy(hs=hs))
-            .diff(sym)
-            * self)
+            (alpha * Create(hs=hs) - alpha_conj * Destroy(hs=hs)).diff(sym)
+            * self
+            + (alpha * alpha_conj.diff(sym) - alpha_conj * alpha.diff(sym))
+            / 2 * self)
 
     def to_fock_representation(self, index_symbol='n', max_terms=None):
         """Return the coherent state written out as an indexed sum over Fock
-- 
2.43.0


From 11abebd478a3079559ba7df86e2ef0a37aecd838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 14/50] fix: render adjoints of all expressions, adjoint of a
 state derivative is a bra

---
 src/qnet/algebra/core/state_algebra.py |  3 +-
 src/qnet/printing/asciiprinter.py      | 73 +++++++++++++++++---------
 src/qnet/printing/latexprinter.py      | 29 +++++-----
 src/qnet/printing/unicodeprinter.py    | 10 ++--
 4 files changed, 70 insertions(+), 45 deletions(-)

diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index 5351f86..f485caf 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -536,7 +536,8 @@ class StateDerivative(QuantumDerivative, State):
 
     See :class:`.QuantumDerivative`.
     """
-    pass
+    def _adjoint(self):
+        return Bra(self)
 
 
 class Bra(State, QuantumAdjoint):
diff --git a/src/qnet/printing/asciiprinter.py b/src/qnet/printing/asciiprinter.py
index c014574..04ee137 100644
--- a/src/qnet/printing/asciiprinter.py
+++ b/src/qnet/printing/asciiprinter.py
@@ -306,12 +306,12 @@ class QnetAsciiPrinter(QnetBasePrinter):
                     identifier = "%s_%s,%s" % (expr.identifier, expr.k, expr.j)
                 else:
                     identifier = "%s_%s,%s" % (expr.identifier, expr.j, expr.k)
-            return self._render_op(identifier, expr._hs, dagger=adjoint)
+            return self._render_op(identifier, expr._hs)
 
-    def _print_IdentityOperator(self, expr):
+    def _print_IdentityOperator(self, expr, adjoint=False):
         return "1"
 
-    def _print_ZeroOperator(self, expr):
+    def _print_ZeroOperator(self, expr, adjoint=False):
         return "0"
 
     def _print_ScalarValue(self, expr, **kwargs):
@@ -381,8 +381,12 @@ class QnetAsciiPrinter(QnetBasePrinter):
 
     def _print_QuantumTimes(self, expr, **kwargs):
         prec = precedence(expr)
+        operands = expr.operands
+        if kwargs.get('adjoint', False):
+            # (A B)^H = B^H A^H
+            operands = operands[::-1]
         return self._spaced_product_sym.join(
-            [self.parenthesize(op, prec, **kwargs) for op in expr.operands])
+            [self.parenthesize(op, prec, **kwargs) for op in operands])
 
     def _print_Commutator(self, expr, adjoint=False):
         res = "[" + self.doprint(expr.A) + ", " + self.doprint(expr.B) + "]"
@@ -406,10 +410,9 @@ class QnetAsciiPrinter(QnetBasePrinter):
             else:
                 dagger = not o._dagger
             return self._render_op(
-                o.identifier, hs=o.space, dagger=dagger, args=o.args[1:])
+                o.identifier, hs=o.space, dagger=dagger, args=o.args)
         elif self._isinstance(o, 'OperatorSymbol'):
-            return self._render_op(
-                o.label, hs=o.space, dagger=(not adjoint))
+            return self.doprint(o, adjoint=(not adjoint))
         else:
             if adjoint:
                 return self.doprint(o)
@@ -418,17 +421,23 @@ class QnetAsciiPrinter(QnetBasePrinter):
                     self._parenth_left + self.doprint(o) +
                     self._parenth_right + "^" + self._dagger_sym)
 
-    def _print_OperatorPlusMinusCC(self, expr):
+    def _print_OperatorPlusMinusCC(self, expr, adjoint=False):
         prec = precedence(expr)
         o = expr.operand
+        kwargs = {}
+        if adjoint:
+            kwargs['adjoint'] = adjoint
         sign_str = ' + '
         if expr._sign < 0:
             sign_str = ' - '
-        return self.parenthesize(o, prec) + sign_str + "c.c."
+        return self.parenthesize(o, prec, **kwargs) + sign_str + "c.c."
 
-    def _print_PseudoInverse(self, expr):
+    def _print_PseudoInverse(self, expr, adjoint=False):
         prec = precedence(expr)
-        return self.parenthesize(expr.operand, prec) + "^+"
+        kwargs = {}
+        if adjoint:
+            kwargs['adjoint'] = adjoint
+        return self.parenthesize(expr.operand, prec, **kwargs) + "^+"
 
     def _print_NullSpaceProjector(self, expr, adjoint=False):
         null_space_proj_sym = 'P_Ker'
@@ -596,7 +605,7 @@ class QnetAsciiPrinter(QnetBasePrinter):
             bottom_index = self.doprint(expr.index_symbol)
             bottom_rhs = "=%s" % expr.start_from
             if abs(expr.step) > 1:
-                bottom_rhs += ", %s" % expr.start_from + expr.step
+                bottom_rhs += ", %s" % (expr.start_from + expr.step)
                 bottom_rhs += ", " + self._ellipsis
             if which == 'bottom_index':
                 return bottom_index
@@ -707,10 +716,11 @@ class QnetAsciiPrinter(QnetBasePrinter):
                 self._parenth_right)
         return res
 
-    def _print_IdentitySuperOperator(self, expr, superop=True):
+    def _print_IdentitySuperOperator(
+            self, expr, adjoint=False, superop=True):
         return "1"
 
-    def _print_ZeroSuperOperator(self, expr, superop=True):
+    def _print_ZeroSuperOperator(self, expr, adjoint=False, superop=True):
         return "0"
 
     def _print_SuperOperatorPlus(self, expr, adjoint=False, superop=True):
@@ -725,8 +735,7 @@ class QnetAsciiPrinter(QnetBasePrinter):
     def _print_SuperAdjoint(self, expr, adjoint=False, superop=True):
         o = expr.operand
         if self._isinstance(o, 'SuperOperatorSymbol'):
-            return self._render_op(
-                o.label, hs=o.space, dagger=(not adjoint), superop=True)
+            return self.doprint(o, adjoint=(not adjoint))
         else:
             if adjoint:
                 return self.doprint(o)
@@ -735,24 +744,35 @@ class QnetAsciiPrinter(QnetBasePrinter):
                     self._parenth_left + self.doprint(o) +
                     self._parenth_right + "^" + self._dagger_sym)
 
-    def _print_SPre(self, expr, superop=True):
-        return (
+    def _print_SPre(self, expr, adjoint=False, superop=True):
+        return self._add_dagger(
             "SPre" + self._parenth_left + self.doprint(expr.operands[0]) +
-            self._parenth_right)
+            self._parenth_right, adjoint)
 
-    def _print_SPost(self, expr, superop=True):
-        return (
+    def _print_SPost(self, expr, adjoint=False, superop=True):
+        return self._add_dagger(
             "SPost" + self._parenth_left + self.doprint(expr.operands[0]) +
-            self._parenth_right)
+            self._parenth_right, adjoint)
 
-    def _print_SuperOperatorTimesOperator(self, expr):
+    def _print_SuperOperatorTimesOperator(self, expr, adjoint=False):
         prec = precedence(expr)
         sop, op = expr.sop, expr.op
         cs = self.parenthesize(sop, prec)
         ct = self.doprint(op)
-        return "%s[%s]" % (cs, ct)
+        return self._add_dagger("%s[%s]" % (cs, ct), adjoint)
+
+    def _add_dagger(self, rendered, adjoint):
+        """Mark an already `rendered` expression as daggered, if `adjoint`"""
+        if adjoint:
+            return (
+                self._parenth_left + rendered + self._parenth_right +
+                "^" + self._dagger_sym)
+        else:
+            return rendered
 
-    def _print_QuantumDerivative(self, expr):
+    def _print_QuantumDerivative(self, expr, **kwargs):
+        # the derivation variables are assumed to be real, so that the adjoint
+        # of the derivative is the derivative of the adjoint
         res = ""
         for sym, n in expr.derivs.items():
             sym_str = self.doprint(sym)
@@ -762,7 +782,8 @@ class QnetAsciiPrinter(QnetBasePrinter):
                 res += "D_%s " % sym_str
             else:
                 res += "D_%s^%s " % (sym_str, n)
-        res += self.parenthesize(expr.operand, PRECEDENCE['Mul'], strict=True)
+        res += self.parenthesize(
+            expr.operand, PRECEDENCE['Mul'], strict=True, **kwargs)
         if expr.vals:
             evaluation_strs = []
             for sym, val in expr.vals.items():
diff --git a/src/qnet/printing/latexprinter.py b/src/qnet/printing/latexprinter.py
index e2c228b..f5322e0 100644
--- a/src/qnet/printing/latexprinter.py
+++ b/src/qnet/printing/latexprinter.py
@@ -267,38 +267,39 @@ class QnetLatexPrinter(QnetAsciiPrinter):
         return r'\mathcal{{H}}_{{{label}}}'.format(
             label=self._render_hs_label(expr))
 
-    def _print_IdentityOperator(self, expr):
+    def _print_IdentityOperator(self, expr, adjoint=False):
         return self._settings['tex_identity_sym']
 
-    def _print_ZeroOperator(self, expr):
+    def _print_ZeroOperator(self, expr, adjoint=False):
         return r'\mathbb{0}'
 
-    def _print_ZeroSuperOperator(self, expr):
+    def _print_ZeroSuperOperator(self, expr, adjoint=False, superop=True):
         return r'\mathbb{0}'
 
-    def _print_IdentitySuperOperator(self, expr):
+    def _print_IdentitySuperOperator(
+            self, expr, adjoint=False, superop=True):
         return self._settings['tex_identity_sym']
 
-    def _print_SPre(self, expr, superop=True):
+    def _print_SPre(self, expr, adjoint=False, superop=True):
         name = self._settings['tex_textsop_macro'].format(name='SPre')
-        return (
+        return self._add_dagger(
             name + self._parenth_left + self.doprint(expr.operands[0]) +
-            self._parenth_right)
+            self._parenth_right, adjoint)
 
-    def _print_SPost(self, expr, superop=True):
+    def _print_SPost(self, expr, adjoint=False, superop=True):
         name = self._settings['tex_textsop_macro'].format(name='SPost')
-        return (
+        return self._add_dagger(
             name + self._parenth_left + self.doprint(expr.operands[0]) +
-            self._parenth_right)
+            self._parenth_right, adjoint)
 
-    def _print_SuperOperatorTimesOperator(self, expr):
+    def _print_SuperOperatorTimesOperator(self, expr, adjoint=False):
         prec = precedence(expr)
         sop, op = expr.sop, expr.op
         cs = self.parenthesize(sop, prec)
         ct = self.doprint(op)
-        return r'%s\left[%s\right]' % (cs, ct)
+        return self._add_dagger(r'%s\left[%s\right]' % (cs, ct), adjoint)
 
-    def _print_QuantumDerivative(self, expr):
+    def _print_QuantumDerivative(self, expr, **kwargs):
         res = ""
         numerator = r'\partial'
         if expr.n > 1:
@@ -314,7 +315,7 @@ class QnetLatexPrinter(QnetAsciiPrinter):
         denominator = " ".join(denominators)
         res += r'\frac{%s}{%s}' % (numerator, denominator)
         res += " " + self.parenthesize(
-            expr.operand, PRECEDENCE['Mul'], strict=True)
+            expr.operand, PRECEDENCE['Mul'], strict=True, **kwargs)
         if expr.vals:
             res = r'\left. ' + res
             evaluation_strs = []
diff --git a/src/qnet/printing/unicodeprinter.py b/src/qnet/printing/unicodeprinter.py
index 789d091..f7f3498 100644
--- a/src/qnet/printing/unicodeprinter.py
+++ b/src/qnet/printing/unicodeprinter.py
@@ -170,13 +170,14 @@ class QnetUnicodePrinter(QnetAsciiPrinter):
         return render_unicode_sub_super(
             'ℌ', subs=[self._render_hs_label(expr)])
 
-    def _print_IdentityOperator(self, expr):
+    def _print_IdentityOperator(self, expr, adjoint=False):
         return "𝟙"
 
-    def _print_IdentitySuperOperator(self, expr, superop=True):
+    def _print_IdentitySuperOperator(
+            self, expr, adjoint=False, superop=True):
         return "𝟙"
 
-    def _print_QuantumDerivative(self, expr):
+    def _print_QuantumDerivative(self, expr, **kwargs):
         res = ""
         for sym, n in expr.derivs.items():
             sym_str = self.doprint(sym)
@@ -190,7 +191,8 @@ class QnetUnicodePrinter(QnetAsciiPrinter):
             res += (render_unicode_sub_super(
                 '∂', subs, supers, sub_first=True, translate_symbols=True,
                 unicode_sub_super=self._settings['unicode_sub_super']) + " ")
-        res += self.parenthesize(expr.operand, PRECEDENCE['Mul'], strict=True)
+        res += self.parenthesize(
+            expr.operand, PRECEDENCE['Mul'], strict=True, **kwargs)
         if expr.vals:
             evaluation_strs = []
             for sym, val in expr.vals.items():
-- 
2.43.0


From a10759ae02c77fefcaba59c900cb30fb30d73758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:28 +0000
Subject: [PATCH 15/50] fix: ordering of expressions is antisymmetric

---
 src/qnet/utils/ordering.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qnet/utils/ordering.py b/src/qnet/utils/ordering.py
index a5d0ea4..499b12c 100644
--- a/src/qnet/utils/ordering.py
+++ b/src/qnet/utils/ordering.py
@@ -57,6 +57,11 @@ class KeyTuple(tuple):
             return False
         return None
 
+    def __gt__(self, other):
+        # `tuple.__gt__` would not use the fallback to string comparison, so
+        # that both `a < b` and `b < a` could hold
+        return KeyTuple.__lt__(other, self)
+
     def __repr__(self):
         return self.__class__.__name__ + tuple.__repr__(self)
 
-- 
2.43.0


From 0afde3300bf030204bc183c57c63b57c33d40dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:57 +0000
Subject: [PATCH 16/50] fix: collect series coefficients of equal order

---
 src/qnet/algebra/core/scalar_algebra.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 9b8e233..ad13a3f 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -271,8 +271,7 @@ class ScalarValue(Scalar):
             else:
                 c = self.val
             series = sympy.series(c, x=param, x0=0, n=None)
-            res = []
-            next_order = 0
+            res = [0] * (order + 1)
             for term in series:
                 c, o = term.as_coeff_exponent(param)
                 if o < 0 or o.is_noninteger:
@@ -281,10 +280,7 @@ class ScalarValue(Scalar):
                         % (self, param, about))
                 if o > order:
                     break
-                res.extend([0] * (o - next_order))
-                res.append(c)
-                next_order = o + 1
-            res.extend([0] * (order + 1 - next_order))
+                res[o] += c
             return tuple([ScalarValue.create(c) for c in res])
         else:
             return tuple([self, ] + [Zero] * order)
-- 
2.43.0


From 0afe96b72aee04d5c1edddbe7c5e6e24e0f5d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 17/50] fix: sums are in canonical order also after collecting
 summands

---
 src/qnet/algebra/core/operator_algebra.py       | 3 ++-
 src/qnet/algebra/core/scalar_algebra.py         | 2 +-
 src/qnet/algebra/core/state_algebra.py          | 3 ++-
 src/qnet/algebra/core/super_operator_algebra.py | 3 ++-
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 999b9c9..f142fe1 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -461,7 +461,8 @@ class OperatorPlus(QuantumPlus, Operator):
     _neutral_element = ZeroOperator
     _binary_rules = OrderedDict()
     simplifications = [
-        assoc, scalars_to_op, orderby, collect_summands, match_replace_binary]
+        assoc, scalars_to_op, orderby, collect_summands, orderby,
+        match_replace_binary]
 
     def _pseudo_inverse(self):
         return PseudoInverse(self)
diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index ad13a3f..11fa734 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -847,7 +847,7 @@ class ScalarPlus(QuantumPlus, Scalar):
     _neutral_element = Zero
     _binary_rules = OrderedDict()
     simplifications = [
-        assoc, convert_to_scalars, orderby, collect_scalar_summands,
+        assoc, convert_to_scalars, orderby, collect_scalar_summands, orderby,
         match_replace_binary]
 
     def conjugate(self):
diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index f485caf..b87a8e5 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -427,7 +427,8 @@ class KetPlus(State, QuantumPlus):
     _neutral_element = ZeroKet
     _binary_rules = OrderedDict()
     simplifications = [
-        accept_bras, assoc, orderby, collect_summands, match_replace_binary]
+        accept_bras, assoc, orderby, collect_summands, orderby,
+        match_replace_binary]
 
     order_key = FullCommutativeHSOrder
 
diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index f855c96..03fd9e4 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -122,7 +122,8 @@ class SuperOperatorPlus(QuantumPlus, SuperOperator):
 
     _neutral_element = ZeroSuperOperator
     _binary_rules = OrderedDict()
-    simplifications = [assoc, orderby, collect_summands, match_replace_binary]
+    simplifications = [
+        assoc, orderby, collect_summands, orderby, match_replace_binary]
 
 
 class SuperCommutativeHSOrder(DisjunctCommutativeHSOrder):
-- 
2.43.0


From 8a34c2697e86aee2568f89130048a280a76d79c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 18/50] fix: printing infinite and undefined floats

---
 src/qnet/printing/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/printing/base.py b/src/qnet/printing/base.py
index d05486d..9c5eb44 100644
--- a/src/qnet/printing/base.py
+++ b/src/qnet/printing/base.py
@@ -152,7 +152,7 @@ class QnetBasePrinter(SympyPrinter):
                     # have the same hash. We want to normalize this, so that we
                     # get consistent results when printing with a cache
                     expr = int(expr)
-            except TypeError:
+            except (TypeError, ValueError, OverflowError):
                 pass
             if adjoint:
                 kwargs = {
-- 
2.43.0


From 45be73ea6b93afa48effd6db550a299f1e2f2a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 19/50] fix: adjoint of a commutator is in canonical order

---
 src/qnet/algebra/core/operator_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index f142fe1..f3b60f1 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -601,7 +601,7 @@ class Commutator(QuantumOperation, Operator):
                 self.__class__.create(self.A, self.B.diff(sym)))
 
     def _adjoint(self):
-        return Commutator(self.B.adjoint(), self.A.adjoint())
+        return Commutator.create(self.B.adjoint(), self.A.adjoint())
 
     def _pseudo_inverse(self):
         return PseudoInverse(self)
-- 
2.43.0


From ccf8bcd1f63055ec700e64148522ea69dab32bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:40 +0000
Subject: [PATCH 20/50] fix: all substitutions are made simultaneously

---
 src/qnet/algebra/core/abstract_algebra.py         | 2 +-
 src/qnet/algebra/core/abstract_quantum_algebra.py | 2 +-
 src/qnet/utils/indices.py                         | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_algebra.py b/src/qnet/algebra/core/abstract_algebra.py
index 5493560..66b72d0 100644
--- a/src/qnet/algebra/core/abstract_algebra.py
+++ b/src/qnet/algebra/core/abstract_algebra.py
@@ -682,7 +682,7 @@ def substitute(expr, var_map):
             sympy_var_map = {
                 k: v for (k, v) in var_map.items()
                 if isinstance(k, SympyBasic)}
-            return expr.subs(sympy_var_map)
+            return expr.subs(sympy_var_map, simultaneous=True)
         else:
             return expr.substitute(var_map)
     except AttributeError:
diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 3d848aa..ce00aa3 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -591,7 +591,7 @@ class ScalarTimesQuantumExpression(
         if isinstance(self.coeff, sympy.Basic):
             svar_map = {k: v for k, v in var_map.items()
                         if not isinstance(k, Expression)}
-            sc = self.coeff.subs(svar_map)
+            sc = self.coeff.subs(svar_map, simultaneous=True)
         else:
             sc = substitute(self.coeff, var_map)
         if safe:
diff --git a/src/qnet/utils/indices.py b/src/qnet/utils/indices.py
index 75e5df0..bc696b2 100644
--- a/src/qnet/utils/indices.py
+++ b/src/qnet/utils/indices.py
@@ -219,7 +219,7 @@ class SymbolicLabelBase(metaclass=ABCMeta):
         If the result of the substitution no longer contains any
         :class:`IdxSym`, this returns a "rendered" label.
         """
-        new_expr = self.expr.subs(var_map)
+        new_expr = self.expr.subs(var_map, simultaneous=True)
         if self._has_idx_syms(new_expr):
             return self.__class__(expr=new_expr)
         else:
@@ -312,7 +312,7 @@ class FockLabel(StrLabel):
         If the result of the substitution no longer contains any
         :class:`IdxSym`, this returns a "rendered" label.
         """
-        new_expr = self.expr.subs(var_map)
+        new_expr = self.expr.subs(var_map, simultaneous=True)
         new_hs = self.hs.substitute(var_map)
         if self._has_idx_syms(new_expr):
             return self.__class__(expr=new_expr, hs=new_hs)
@@ -378,7 +378,7 @@ class SpinIndex(StrLabel):
         If the result of the substitution no longer contains any
         :class:`IdxSym`, this returns a "rendered" label.
         """
-        new_expr = self.expr.subs(var_map)
+        new_expr = self.expr.subs(var_map, simultaneous=True)
         new_hs = self.hs.substitute(var_map)
         if self._has_idx_syms(new_expr):
             return self.__class__(expr=new_expr, hs=new_hs)
-- 
2.43.0


From d5634843b94994f31f84fa5fd828fcafab64dfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:40 +0000
Subject: [PATCH 21/50] fix: piecewise form of an index range over a Fock space

---
 src/qnet/utils/indices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/utils/indices.py b/src/qnet/utils/indices.py
index bc696b2..b041abd 100644
--- a/src/qnet/utils/indices.py
+++ b/src/qnet/utils/indices.py
@@ -542,7 +542,7 @@ class IndexOverFockSpace(IndexRangeBase):
         if self.hs._dimension is None:
             to_val = sympy.oo
         else:
-            to_val = self.hs.dimension
+            to_val = self.hs.dimension - 1
         return Piecewise(
             (1, sympy.Interval(0, to_val).as_relational(expr)),
             (0, True))
-- 
2.43.0


From 687613f00d047e32e224de3143ebdd13fddf023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:40 +0000
Subject: [PATCH 22/50] fix: sums over deltas with numeric coefficients, and
 over some of several indices

---
 src/qnet/algebra/core/algebraic_properties.py | 2 +-
 src/qnet/algebra/core/indexed_operations.py   | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index ed5a2fb..97eb76d 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -812,7 +812,7 @@ def _split_sympy_quantum_factor(expr):
         sympy_factor, quantum_factor = _split_sympy_quantum_factor(expr.coeff)
         quantum_factor *= expr.term
     elif isinstance(expr, ScalarValue):
-        sympy_factor = expr.val
+        sympy_factor = sympy.sympify(expr.val)
         quantum_factor = expr._one
     elif isinstance(expr, ScalarTimes):
         sympy_factor = sympy.S(1)
diff --git a/src/qnet/algebra/core/indexed_operations.py b/src/qnet/algebra/core/indexed_operations.py
index 9c95a0e..308a334 100644
--- a/src/qnet/algebra/core/indexed_operations.py
+++ b/src/qnet/algebra/core/indexed_operations.py
@@ -188,7 +188,9 @@ class IndexedSum(Operation, metaclass=ABCMeta):
             res = res_term
         else:
             res = self.__class__.create(res_term, *other_ranges)
-            res = res._doit_over_indices(indices=indices)
+            if len(indices) > 0:
+                # `res` is not necessarily an indexed sum
+                res = res.doit(classes=[IndexedSum], indices=indices)
         return res
 
     def make_disjunct_indices(self, *others):
-- 
2.43.0


From 65a8d574e91f1e3590dcc396c925414e49e72929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:40 +0000
Subject: [PATCH 23/50] fix: indices of indexed sums are not captured, empty
 sums are zero

---
 src/qnet/algebra/_rules.py                    |  7 +-
 .../algebra/core/abstract_quantum_algebra.py  | 26 +++---
 src/qnet/algebra/core/algebraic_properties.py |  2 +-
 src/qnet/algebra/core/indexed_operations.py   | 86 ++++++++++++++++---
 src/qnet/algebra/core/state_algebra.py        | 24 +++---
 5 files changed, 106 insertions(+), 39 deletions(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index 8ea2dba..d573810 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -603,6 +603,11 @@ def _algebraic_rules_state():
     def local_rule(A, B, Psi):
         return OperatorTimes.create(*A) * (B * Psi)
 
+    def pull_into_sum(A, sum):
+        """A * sum over kets = sum over A * kets"""
+        sum = sum.make_disjunct_indices(*sum._index_symbols(A))
+        return KetIndexedSum.create(A * sum.term, *sum.ranges)
+
     OperatorTimesKet._rules.update(check_rules_dict([
         ('R001', (  # Id * Psi = Psi
             pattern_head(IdentityOperator, Psi),
@@ -700,7 +705,7 @@ def _algebraic_rules_state():
 
         ('R021', (
             pattern_head(A, sum),
-            lambda A, sum: KetIndexedSum.create(A * sum.term, *sum.ranges))),
+            pull_into_sum)),
     ]))
 
     TensorKet._binary_rules.update(check_rules_dict([
diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index ce00aa3..8a46294 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -903,19 +903,19 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
     def __mul__(self, other):
         from qnet.algebra.core.scalar_algebra import is_scalar
         if isinstance(other, IndexedSum):
-            other = other.make_disjunct_indices(self)
-            new_ranges = self.ranges + other.ranges
-            new_term = self.term * other.term
+            sum, other = self._mutually_disjunct(other)
+            new_ranges = sum.ranges + other.ranges
+            new_term = sum.term * other.term
             # note that class may change, depending on type of new_term
             return new_term.__class__._indexed_sum_cls.create(
                 new_term, *new_ranges)
         elif is_scalar(other):
-            return self.__class__._scalar_times_expr_cls(other, self)
+            return self.__class__._scalar_times_expr_cls.create(other, self)
         elif isinstance(other, ScalarTimesQuantumExpression):
-            return self.__class__._scalar_times_expr_cls(
-                other.coeff, self * other.term)
+            return other.coeff * (self * other.term)
         else:
-            sum = self.make_disjunct_indices(*other.bound_symbols)
+            sum = self.make_disjunct_indices(
+                *self._index_symbols(other))
             new_term = sum.term * other
             return new_term.__class__._indexed_sum_cls.create(
                 new_term, *sum.ranges)
@@ -923,19 +923,19 @@ class QuantumIndexedSum(IndexedSum, SingleQuantumOperation, metaclass=ABCMeta):
     def __rmul__(self, other):
         from qnet.algebra.core.scalar_algebra import is_scalar
         if isinstance(other, IndexedSum):
-            self_new = self.make_disjunct_indices(other)
-            new_ranges = other.ranges + self_new.ranges
-            new_term = other.term * self_new.term
+            other, sum = other._mutually_disjunct(self)
+            new_ranges = other.ranges + sum.ranges
+            new_term = other.term * sum.term
             # note that class may change, depending on type of new_term
             return new_term.__class__._indexed_sum_cls.create(
                 new_term, *new_ranges)
         elif is_scalar(other):
             return self.__class__._scalar_times_expr_cls.create(other, self)
         elif isinstance(other, ScalarTimesQuantumExpression):
-            return self.__class__._scalar_times_expr_cls(
-                other.coeff, other.term * self)
+            return other.coeff * (other.term * self)
         else:
-            sum = self.make_disjunct_indices(*other.bound_symbols)
+            sum = self.make_disjunct_indices(
+                *self._index_symbols(other))
             new_term = other * sum.term
             return new_term.__class__._indexed_sum_cls.create(
                 new_term, *sum.ranges)
diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index 97eb76d..eb4a690 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -77,7 +77,7 @@ def assoc_indexed(cls, ops, kwargs):
     else:
         return ops, kwargs
 
-    term = term.make_disjunct_indices(*ranges)
+    term = term.make_disjunct_indices(*ranges, *term._free_indices(coeff))
     combined_ranges = tuple(ranges) + term.ranges
 
     if coeff == 1:
diff --git a/src/qnet/algebra/core/indexed_operations.py b/src/qnet/algebra/core/indexed_operations.py
index 308a334..7eadfb3 100644
--- a/src/qnet/algebra/core/indexed_operations.py
+++ b/src/qnet/algebra/core/indexed_operations.py
@@ -2,7 +2,7 @@
 
 from abc import ABCMeta
 
-from .abstract_algebra import Expression, Operation
+from .abstract_algebra import Expression, Operation, _free_symbols
 from .exceptions import InfiniteSumError
 from ..pattern_matching import wc
 from ...utils.indices import (
@@ -56,16 +56,18 @@ class IndexedSum(Operation, metaclass=ABCMeta):
     def bound_symbols(self):
         """Set of bound variables, i.e. the index variable symbols
 
-        See also :property:`variables` for an ordered list of the same symbols
+        This includes any variables bound inside of the term. See also
+        :property:`variables` for an ordered list of just the variables of
+        this sum.
         """
-        return set(self.variables)
+        return set(self.variables) | self.term.bound_symbols
 
     @property
     def free_symbols(self):
         """Set of all free symbols"""
         return set([
             sym for sym in self.term.free_symbols
-            if sym not in self.bound_symbols])
+            if sym not in self.variables])
 
     @property
     def kwargs(self):
@@ -156,6 +158,8 @@ class IndexedSum(Operation, metaclass=ABCMeta):
                 raise InfiniteSumError(
                     "Cannot expand %s: more than %s terms"
                     % (self, self._expand_limit))
+        if res is None:  # empty range
+            res = self.term._zero
         return res
 
     def _doit_over_indices(self, indices):
@@ -184,6 +188,8 @@ class IndexedSum(Operation, metaclass=ABCMeta):
                 raise InfiniteSumError(
                     "Cannot expand %s: more than %s terms"
                     % (self, self._expand_limit))
+        if res_term is None:  # empty range
+            res_term = self.term._zero
         if len(other_ranges) == 0:
             res = res_term
         else:
@@ -204,7 +210,6 @@ class IndexedSum(Operation, metaclass=ABCMeta):
         Each index symbol is primed until it does not match any index symbol in
         `others`.
         """
-        new = self
         other_index_symbols = set()
         for other in others:
             try:
@@ -224,20 +229,73 @@ class IndexedSum(Operation, metaclass=ABCMeta):
                     "IndexRangeBase, an object with a `ranges` attribute "
                     "with a list of IndexRangeBase instances, or a list of"
                     "IndexRangeBase objects.")
+        # new index symbols must not occur in the sum already
+        own_symbols = self.term.all_symbols | set(self.variables)
+        renamed = {}
         for r in self.ranges:
             index_symbol = r.index_symbol
-            modified = False
-            while index_symbol in other_index_symbols:
-                modified = True
+            while index_symbol in other_index_symbols or (
+                    index_symbol != r.index_symbol and
+                    index_symbol in own_symbols):
                 index_symbol = index_symbol.incr_primed()
-            if modified:
-                new = new._substitute(
-                    {r.index_symbol: index_symbol}, safe=True)
-        return new
+            if index_symbol != r.index_symbol:
+                renamed[r.index_symbol] = index_symbol
+                own_symbols.add(index_symbol)
+        if len(renamed) > 0:
+            return self._substitute(renamed, safe=True)
+        return self
+
+    def _substitute(self, var_map, safe=False):
+        if self in var_map:
+            if not safe or (type(var_map[self]) == type(self)):
+                return var_map[self]
+        # Only free symbols are replaced. The bound index symbols may only be
+        # renamed, which leaves the value of the sum unchanged.
+        inner_map = {
+            k: v for (k, v) in var_map.items() if k not in self.variables}
+        taken = set(self.term.all_symbols).difference(self.variables)
+        if self.term.substitute(inner_map) != self.term:
+            taken.update(*[_free_symbols(v) for v in inner_map.values()])
+        ranges = []
+        for r in self.ranges:
+            index_symbol = var_map.get(r.index_symbol, r.index_symbol)
+            if not isinstance(index_symbol, IdxSym):
+                index_symbol = r.index_symbol
+            while index_symbol in taken:
+                index_symbol = index_symbol.incr_primed()
+            taken.add(index_symbol)
+            new_range = r.substitute(inner_map)
+            if index_symbol != r.index_symbol:
+                inner_map[r.index_symbol] = index_symbol
+                new_range = new_range.substitute(
+                    {r.index_symbol: index_symbol})
+            ranges.append(new_range)
+        term = self.term.substitute(inner_map)
+        if safe:
+            return self.__class__(term, *ranges)
+        else:
+            return self.__class__.create(term, *ranges)
+
+    @staticmethod
+    def _free_indices(expr):
+        """List of the index symbols that occur free in `expr`"""
+        return [s for s in _free_symbols(expr) if isinstance(s, IdxSym)]
+
+    @staticmethod
+    def _index_symbols(expr):
+        """List of all index symbols in `expr`, both free and bound"""
+        return [s for s in expr.all_symbols if isinstance(s, IdxSym)]
+
+    def _mutually_disjunct(self, other):
+        """Tuple of `self` and the indexed sum `other`, with index symbols
+        renamed such that neither captures a free index of the other"""
+        new = self.make_disjunct_indices(*self._free_indices(other))
+        return new, other.make_disjunct_indices(
+            new, *self._free_indices(self))
 
     def __mul__(self, other):
         if isinstance(other, IndexedSum):
-            other = other.make_disjunct_indices(self)
+            self, other = self._mutually_disjunct(other)
             new_ranges = self.ranges + other.ranges
             return self.__class__.create(self.term * other.term, *new_ranges)
         try:
@@ -247,7 +305,7 @@ class IndexedSum(Operation, metaclass=ABCMeta):
 
     def __rmul__(self, other):
         if isinstance(other, IndexedSum):
-            self = self.make_disjunct_indices(other)
+            other, self = other._mutually_disjunct(self)
             new_ranges = other.ranges + self.ranges
             return self.__class__.create(other.term * self.term, *new_ranges)
         try:
diff --git a/src/qnet/algebra/core/state_algebra.py b/src/qnet/algebra/core/state_algebra.py
index b87a8e5..e9ee3fc 100644
--- a/src/qnet/algebra/core/state_algebra.py
+++ b/src/qnet/algebra/core/state_algebra.py
@@ -109,32 +109,36 @@ class State(QuantumExpression, metaclass=ABCMeta):
                 # Ket * Bra
                 is_sum = check_if_sum(self, other.ket)
                 if is_sum == [True, True]:
-                    other_ket = other.ket.make_disjunct_indices(self)
-                    new_term = self.term * Bra(other_ket.term)
-                    new_ranges = self.ranges + other_ket.ranges
+                    ket, other_ket = self._mutually_disjunct(other.ket)
+                    new_term = ket.term * Bra(other_ket.term)
+                    new_ranges = ket.ranges + other_ket.ranges
                     return new_term.__class__._indexed_sum_cls.create(
                         new_term, *new_ranges)
                 elif is_sum == [True, False]:
                     return QuantumIndexedSum.__mul__(self, other)
                 elif is_sum == [False, True]:
-                    new_term = self * Bra(other.ket.term)
+                    other_ket = other.ket.make_disjunct_indices(
+                        *other.ket._index_symbols(self))
+                    new_term = self * Bra(other_ket.term)
                     return new_term.__class__._indexed_sum_cls.create(
-                        new_term, *other.ket.ranges)
+                        new_term, *other_ket.ranges)
                 elif is_sum == [False, False]:
                     return KetBra.create(self, other.ket)
             elif isket == (False, True):
                 # Bra * Ket
                 is_sum = check_if_sum(self.ket, other)
                 if is_sum == [True, True]:
-                    other = other.make_disjunct_indices(self.ket)
-                    new_term = Bra(self.ket.term) * other.term
-                    new_ranges = self.ket.ranges + other.ranges
+                    ket, other = self.ket._mutually_disjunct(other)
+                    new_term = Bra(ket.term) * other.term
+                    new_ranges = ket.ranges + other.ranges
                     return new_term.__class__._indexed_sum_cls.create(
                         new_term, *new_ranges)
                 elif is_sum == [True, False]:
-                    new_term = Bra(self.ket.term) * other
+                    ket = self.ket.make_disjunct_indices(
+                        *self.ket._index_symbols(other))
+                    new_term = Bra(ket.term) * other
                     return new_term.__class__._indexed_sum_cls.create(
-                        new_term, *self.ket.ranges)
+                        new_term, *ket.ranges)
                 elif is_sum == [False, True]:
                     return QuantumIndexedSum.__rmul__(other, self)
                 elif is_sum == [False, False]:
-- 
2.43.0


From f70659f8fec456d792062e77d70a9e51519951ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:48 +0000
Subject: [PATCH 24/50] fix: adjoints of scaled operators and Lindblad terms
 are in canonical form

---
 src/qnet/algebra/core/operator_algebra.py       | 2 +-
 src/qnet/algebra/core/super_operator_algebra.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index f3b60f1..915bde4 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -513,7 +513,7 @@ class ScalarTimesOperator(Operator, ScalarTimesQuantumExpression):
         return super().__hash__()
 
     def _adjoint(self):
-        return ScalarTimesOperator(self.coeff.conjugate(), self.term.adjoint())
+        return self.coeff.conjugate() * self.term.adjoint()
 
 
 class OperatorDerivative(QuantumDerivative, Operator):
diff --git a/src/qnet/algebra/core/super_operator_algebra.py b/src/qnet/algebra/core/super_operator_algebra.py
index 03fd9e4..8f5b294 100644
--- a/src/qnet/algebra/core/super_operator_algebra.py
+++ b/src/qnet/algebra/core/super_operator_algebra.py
@@ -362,7 +362,7 @@ def commutator(A, B=None):
     """
     if B:
         return A * B - B * A
-    return SPre(A) - SPost(A)
+    return SPre.create(A) - SPost.create(A)
 
 
 def anti_commutator(A, B=None):
@@ -381,7 +381,7 @@ def anti_commutator(A, B=None):
     """
     if B:
         return A * B + B * A
-    return SPre(A) + SPost(A)
+    return SPre.create(A) + SPost.create(A)
 
 
 def lindblad(C):
@@ -406,7 +406,7 @@ def lindblad(C):
     if is_scalar(C):
         return ZeroSuperOperator
     return (
-        SPre(C) * SPost(C.adjoint()) -
+        SPre.create(C) * SPost.create(C.adjoint()) -
         (sympyOne/2) * anti_commutator(C.adjoint() * C))
 
 
-- 
2.43.0


From 4533125480432e2db1e8fdb6170dceddc0c623a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:36 +0000
Subject: [PATCH 25/50] fix: partial evaluation of sums over plain index values

---
 src/qnet/algebra/core/indexed_operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qnet/algebra/core/indexed_operations.py b/src/qnet/algebra/core/indexed_operations.py
index 7eadfb3..12c8598 100644
--- a/src/qnet/algebra/core/indexed_operations.py
+++ b/src/qnet/algebra/core/indexed_operations.py
@@ -163,6 +163,7 @@ class IndexedSum(Operation, metaclass=ABCMeta):
         return res
 
     def _doit_over_indices(self, indices):
+        from qnet.algebra.core.scalar_algebra import ScalarValue
         if len(indices) == 0:
             return self
         ind_sym, *indices = indices
@@ -180,6 +181,8 @@ class IndexedSum(Operation, metaclass=ABCMeta):
         res_term = None
         for i, mapping in enumerate(selected_range.iter()):
             res_summand = self.term.substitute(mapping)
+            if isinstance(res_summand, ScalarValue._val_types):
+                res_summand = ScalarValue.create(res_summand)
             if res_term is None:
                 res_term = res_summand
             else:
-- 
2.43.0


From 380d77d5b5ab08d41fa0fe3838aa82910afd11be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:36 +0000
Subject: [PATCH 26/50] fix: derivatives keep their variable when a substituted
 symbol does not occur

---
 src/qnet/algebra/core/abstract_quantum_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/abstract_quantum_algebra.py b/src/qnet/algebra/core/abstract_quantum_algebra.py
index 8a46294..415e466 100644
--- a/src/qnet/algebra/core/abstract_quantum_algebra.py
+++ b/src/qnet/algebra/core/abstract_quantum_algebra.py
@@ -853,7 +853,8 @@ class QuantumDerivative(SingleQuantumOperation):
         operand = self.operand
         used = set().union(*[
             _free_symbols(v) for (k, v) in inner_map.items()
-            if isinstance(k, sympy.Basic)])
+            if isinstance(k, sympy.Basic) and
+            k.free_symbols.intersection(operand.free_symbols)])
         for sym in sorted(used.intersection(derivs), key=str):
             # the derivative does not act on what is being substituted
             new_sym = sym
-- 
2.43.0


From 126470b971b11487f29f4c6b43f76f81fcee752b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:27 +0000
Subject: [PATCH 27/50] fix: differences with the scalar one

---
 src/qnet/algebra/core/scalar_algebra.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 11fa734..3371f4f 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -424,7 +424,7 @@ class ScalarValue(Scalar):
         elif isinstance(other, self._val_types):
             return self.create(other - self.val)
         else:
-            return super().__radd__(other)  # other == 0
+            return super().__rsub__(other)  # other == 0
 
     def __rmul__(self, other):
         if isinstance(other, self._val_types):
@@ -745,7 +745,7 @@ class One(Scalar, metaclass=Singleton):
         elif other == 1:
             return Zero
         else:
-            return super().__add__(other)
+            return super().__sub__(other)
 
     def __mul__(self, other):
         if isinstance(other, self._val_types):
@@ -767,7 +767,7 @@ class One(Scalar, metaclass=Singleton):
         elif isinstance(other, self._val_types):
             return ScalarValue.create(1 / other)
         else:
-            return super().__floordiv__(other)
+            return super().__truediv__(other)
 
     def __mod__(self, other):
         if isinstance(other, ScalarValue):
@@ -795,7 +795,7 @@ class One(Scalar, metaclass=Singleton):
         if isinstance(other, self._val_types):
             return ScalarValue.create(other - 1)
         else:
-            return super().__radd__(other)
+            return super().__rsub__(other)
 
     __rfloordiv = __rtruediv__ = __rmul__ = __rpow__ = __mul__
 
-- 
2.43.0


From 38fb3a986db0af82e522fc70c494110b2d6acb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:05 +0000
Subject: [PATCH 28/50] fix: empty tensor product of kets must not recurse
 infinitely

---
 src/qnet/algebra/core/algebraic_properties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index eb4a690..4dbb6c7 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -613,6 +613,8 @@ def accept_bras(cls, ops, kwargs):
     """Accept operands that are all bras, and turn that into to bra of the
     operation applied to all corresponding kets"""
     from qnet.algebra.core.state_algebra import Bra
+    if len(ops) == 0:
+        return ops, kwargs
     kets = []
     for bra in ops:
         if isinstance(bra, Bra):
-- 
2.43.0


From 5bbf9a7114af6a2f8ecbf92210556d91c1d42f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:13 +0000
Subject: [PATCH 29/50] fix: powers of powers of scalars are only combined
 where this is an identity

---
 src/qnet/algebra/_rules.py              | 13 ++++++++++++-
 src/qnet/algebra/core/scalar_algebra.py |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index d573810..d329862 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -72,6 +72,17 @@ def _algebraic_rules_scalar():
             lambda x: One)),
     ]))
 
+    def combine_powers(x, y, z):
+        """(x**y)**z is x**(y*z) only for integer z, or for -1 < y <= 1"""
+        for val, cond in [(z, lambda v: v == int(v)),
+                          (y, lambda v: -1 < v <= 1)]:
+            try:
+                if cond(float(val)):
+                    return x**(y*z)
+            except (TypeError, ValueError):
+                pass
+        raise CannotSimplify()
+
     ScalarPower._rules.update(check_rules_dict([
         ('R001', (
             pattern_head(a, b),
@@ -84,7 +95,7 @@ def _algebraic_rules_scalar():
             lambda x: x)),
         ('R004', (
             pattern_head(pattern(ScalarPower, x, y), z),
-            lambda x, y, z: x**(y*z))),
+            lambda x, y, z: combine_powers(x, y, z))),
     ]))
 
     def pull_constfactor_from_sum(x, y, indranges):
diff --git a/src/qnet/algebra/core/scalar_algebra.py b/src/qnet/algebra/core/scalar_algebra.py
index 3371f4f..df86e0d 100644
--- a/src/qnet/algebra/core/scalar_algebra.py
+++ b/src/qnet/algebra/core/scalar_algebra.py
@@ -1058,7 +1058,7 @@ class ScalarPower(QuantumOperation, Scalar):
         return self._exp
 
     def __pow__(self, other):
-        return ScalarPower.create(self.base, self.exp * other)
+        return ScalarPower.create(self, other)
 
     def _adjoint(self):
         return self.__class__.create(
-- 
2.43.0


From b86818e3150416743084f1d55d2cfc14f99ae45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:32 +0000
Subject: [PATCH 30/50] fix: Hilbert space operations with the full space and
 with products containing the space

---
 src/qnet/algebra/core/hilbert_space_algebra.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 2481239..30984f6 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -64,7 +64,7 @@ class HilbertSpace(metaclass=ABCMeta):
         other Hilbert space, while `TrivialSpace` *is* disjoint with any other
         HilbertSpace (even itself)
         """
-        if other == FullSpace:
+        if self is FullSpace or other is FullSpace:
             return False
         else:
             for ls in self.local_factors:
@@ -439,12 +439,12 @@ class LocalSpace(HilbertSpace, Expression):
         return self._minimal_kwargs
 
     def remove(self, other):
-        if other == self:
+        if other is FullSpace or self in other.local_factors:
             return TrivialSpace
         return self
 
     def intersect(self, other):
-        if self in other.local_factors:
+        if other is FullSpace or self in other.local_factors:
             return self
         return TrivialSpace
 
@@ -561,7 +561,7 @@ class TrivialSpace(HilbertSpace, Expression, metaclass=Singleton):
                     "No index %d in basis for TrivialSpace" % index_or_label)
             else:
                 raise KeyError(
-                    "No label %d in basis for TrivialSpace" % index_or_label)
+                    "No label %r in basis for TrivialSpace" % index_or_label)
 
     @property
     def basis_labels(self):
@@ -733,6 +733,8 @@ class ProductSpace(HilbertSpace, Operation):
         """
         from qnet.algebra.core.state_algebra import BasisKet, TensorKet
         if isinstance(index_or_label, int):  # index
+            if index_or_label < 0:
+                raise IndexError("Index %d must be >= 0" % index_or_label)
             ls_bases = [ls.basis_labels for ls in self.local_factors]
             label_tuple = list(cartesian_product(*ls_bases))[index_or_label]
             try:
-- 
2.43.0


From a3f60f54730a788562d07319f5675189f6fa7805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:32 +0000
Subject: [PATCH 31/50] fix: keep the basis of a SpinSpace in its keyword
 arguments

---
 src/qnet/algebra/library/spin_algebra.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index c9a06ec..2e5dd20 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -88,7 +88,8 @@ class SpinSpace(LocalSpace):
         if dimension <= 1:
             raise ValueError("spin %s must be greater than zero" % spin)
         bottom = -spin
-        if basis is None:
+        default_basis = basis is None
+        if default_basis:
             basis = tuple([
                 SpinIndex._static_render(bottom + n)
                 for n in range(dimension)])
@@ -105,9 +106,12 @@ class SpinSpace(LocalSpace):
         # rewrite the kwargs from super()
         self._kwargs = OrderedDict([
             ('spin', self._spin),
+            ('basis', self._basis),
             ('local_identifiers', self._sorted_local_identifiers),
             ('order_index', self._order_index)])
         self._minimal_kwargs = self._kwargs.copy()
+        if default_basis:
+            del self._minimal_kwargs['basis']
         if local_identifiers is None:
             del self._minimal_kwargs['local_identifiers']
         if order_index is None:
-- 
2.43.0


From c7d038e2fbc1aae49e023e8996c127e44954e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:02 +0000
Subject: [PATCH 32/50] fix: permute returned a wrong value for strings

---
 src/qnet/utils/permutations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qnet/utils/permutations.py b/src/qnet/utils/permutations.py
index 8a4c456..a350f6d 100644
--- a/src/qnet/utils/permutations.py
+++ b/src/qnet/utils/permutations.py
@@ -232,7 +232,9 @@ def permute(sequence, permutation):
     if not check_permutation(permutation):
         raise BadPermutationError(str(permutation))
 
-    if type(sequence) in (list, tuple, str):
+    if type(sequence) is str:
+        constructor = ''.join
+    elif type(sequence) in (list, tuple):
         constructor = type(sequence)
     else:
         constructor = list
-- 
2.43.0


From 97e5279692758e9b9d884826535f229000bd01c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:38 +0000
Subject: [PATCH 33/50] fix: minimal_kwargs of a Hilbert space depended on how
 it was instantiated

---
 .../algebra/core/hilbert_space_algebra.py     | 28 ++++++++++++-------
 src/qnet/algebra/library/spin_algebra.py      | 15 +++++-----
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/qnet/algebra/core/hilbert_space_algebra.py b/src/qnet/algebra/core/hilbert_space_algebra.py
index 30984f6..a7a523e 100644
--- a/src/qnet/algebra/core/hilbert_space_algebra.py
+++ b/src/qnet/algebra/core/hilbert_space_algebra.py
@@ -222,22 +222,16 @@ class LocalSpace(HilbertSpace, Expression):
             self, label, *, basis=None, dimension=None, local_identifiers=None,
             order_index=None):
 
-        default_args = []
-        if basis is None:
-            default_args.append('basis')
-        else:
+        redundant_dimension = dimension is not None and basis is not None
+        if basis is not None:
             basis = tuple([str(label) for label in basis])
-        if dimension is None:
-            default_args.append('dimension')
-        else:
+        if dimension is not None:
             dimension = int(dimension)
         if order_index in [None, float('inf')]:
-            default_args.append('order_index')
             order_index = float('inf')  # ensure sort as last
         else:
             order_index = int(order_index)
         if local_identifiers is None:
-            default_args.append('local_identifiers')
             local_identifiers = {}
         else:
             local_identifiers = dict(local_identifiers)
@@ -276,11 +270,25 @@ class LocalSpace(HilbertSpace, Expression):
         self._dimension = dimension
         self._local_identifiers = local_identifiers
         self._order_index = order_index
+        # equal spaces should have equal kwargs, no matter how they were
+        # instantiated (except that an explicit redundant dimension is kept)
+        default_args = []
+        if basis == tuple([str(i) for i in range(dimension or 0)]):
+            default_args.append('basis')
+        elif basis is None or not redundant_dimension:
+            default_args.append('dimension')
+        if basis is None:
+            default_args.append('basis')
         self._kwargs = OrderedDict([
-            ('basis', self._basis), ('dimension', self._dimension),
+            ('basis', None if 'basis' in default_args else basis),
+            ('dimension', None if 'dimension' in default_args else dimension),
             ('local_identifiers', self._sorted_local_identifiers),
             ('order_index', self._order_index)])
         self._minimal_kwargs = self._kwargs.copy()
+        if len(local_identifiers) == 0:
+            default_args.append('local_identifiers')
+        if order_index == float('inf'):
+            default_args.append('order_index')
         for key in default_args:
             del self._minimal_kwargs[key]
 
diff --git a/src/qnet/algebra/library/spin_algebra.py b/src/qnet/algebra/library/spin_algebra.py
index 2e5dd20..b4b728c 100644
--- a/src/qnet/algebra/library/spin_algebra.py
+++ b/src/qnet/algebra/library/spin_algebra.py
@@ -88,11 +88,10 @@ class SpinSpace(LocalSpace):
         if dimension <= 1:
             raise ValueError("spin %s must be greater than zero" % spin)
         bottom = -spin
-        default_basis = basis is None
-        if default_basis:
-            basis = tuple([
-                SpinIndex._static_render(bottom + n)
-                for n in range(dimension)])
+        default_basis = tuple([
+            SpinIndex._static_render(bottom + n) for n in range(dimension)])
+        if basis is None:
+            basis = default_basis
         else:
             # sometimes people don't think and use some of the "canonical" TLS
             # labels in the wrong order. We can catch it, so why not?
@@ -110,11 +109,11 @@ class SpinSpace(LocalSpace):
             ('local_identifiers', self._sorted_local_identifiers),
             ('order_index', self._order_index)])
         self._minimal_kwargs = self._kwargs.copy()
-        if default_basis:
+        if self._basis == default_basis:
             del self._minimal_kwargs['basis']
-        if local_identifiers is None:
+        if len(self._local_identifiers) == 0:
             del self._minimal_kwargs['local_identifiers']
-        if order_index is None:
+        if self._order_index == float('inf'):
             del self._minimal_kwargs['order_index']
 
     def next_basis_label_or_index(self, label_or_index, n=1):
-- 
2.43.0


From e2ed0bd59e70941ff81eb0022e567730c2539884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:28 +0000
Subject: [PATCH 34/50] fix: rule changes left cached results of other classes
 behind, and scopes with repeated classes did not restore them

temporary_rules and temporary_instance_cache restore in reverse order and also
if entering the context fails; add_rule, del_rules and temporary_rules drop the
cached instances that may depend on the changed rules.
---
 src/qnet/algebra/core/abstract_algebra.py | 20 +++++++
 src/qnet/algebra/toolbox/core.py          | 70 +++++++++--------------
 src/qnet/utils/singleton.py               |  8 ++-
 3 files changed, 53 insertions(+), 45 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_algebra.py b/src/qnet/algebra/core/abstract_algebra.py
index 66b72d0..4a8d348 100644
--- a/src/qnet/algebra/core/abstract_algebra.py
+++ b/src/qnet/algebra/core/abstract_algebra.py
@@ -198,6 +198,24 @@ class Expression(metaclass=ABCMeta):
         """
         return (cls,) + nested_tuple(args) + nested_tuple(kwargs)
 
+    @classmethod
+    def _classes_with_instances(cls):
+        """List of all classes (`cls` and its subclasses, recursively) that
+        have their own cache of instances"""
+        classes = [cls] if '_instances' in cls.__dict__ else []
+        for subclass in type.__subclasses__(cls):
+            for c in subclass._classes_with_instances():
+                if c not in classes:
+                    classes.append(c)
+        return classes
+
+    @classmethod
+    def _clear_instances(cls):
+        """Drop all cached instances of `cls` and its subclasses, e.g. because
+        they may depend on rules that have changed"""
+        for c in cls._classes_with_instances():
+            c._instances = {}
+
     @classmethod
     def _rules_attr(cls):
         """Return the name of the attribute with rules for :meth:`create`"""
@@ -257,6 +275,7 @@ class Expression(metaclass=ABCMeta):
                 "Duplicate key '%s': rule already exists" % name)
         getattr(cls, attr).update(check_rules_dict(
             [(name, (pattern, replacement))]))
+        Expression._clear_instances()
 
     @classmethod
     def show_rules(cls, *names, attr=None):
@@ -318,6 +337,7 @@ class Expression(metaclass=ABCMeta):
         else:
             for name in names:
                 del getattr(cls, attr)[name]
+        Expression._clear_instances()
 
     @classmethod
     def rules(cls, attr=None):
diff --git a/src/qnet/algebra/toolbox/core.py b/src/qnet/algebra/toolbox/core.py
index 0842293..fba1e67 100644
--- a/src/qnet/algebra/toolbox/core.py
+++ b/src/qnet/algebra/toolbox/core.py
@@ -37,14 +37,14 @@ def temporary_instance_cache(*classes):
     context will be used within the managed context, and vice versa
     """
     orig_instances = []
-    for cls in classes:
-        orig_instances.append(cls._instances)
-        cls._instances = {}
     try:
+        for cls in classes:
+            orig_instances.append((cls, cls._instances))
+            cls._instances = {}
         yield
     finally:
-        for i, cls in enumerate(classes):
-            cls._instances = orig_instances[i]
+        for (cls, instances) in reversed(orig_instances):
+            cls._instances = instances
 
 
 @contextmanager
@@ -54,7 +54,8 @@ def temporary_rules(*classes, clear=False):
     For every one of the given `classes`, protect the rules (processed by
     :func:`.match_replace` or :func:`.match_replace_binary`) associated with
     that class from modification beyond the managed context.
-    Implies :func:`temporary_instance_cache`. If `clear` is given as
+    Implies :func:`temporary_instance_cache` for all classes (the instances of
+    any class may depend on the rules for `classes`). If `clear` is given as
     True, all existing rules are temporarily cleared from the given classes on
     entering the managed context.
 
@@ -69,43 +70,28 @@ def temporary_rules(*classes, clear=False):
     :obj:`simplifications <.Expression>` should be done with care, but allows
     complete control over the creation of expressions.
     """
-    orig_instances = []
-    orig_rules = []
-    orig_binary_rules = []
-    orig_simplifications = []
-
-    for cls in classes:
-        orig_instances.append(cls._instances)
-        cls._instances = {}
-        orig_simplifications.append(cls.simplifications)
-        cls.simplifications = cls.simplifications.copy()
-        try:
-            orig_rules.append(cls._rules)
-            if clear:
-                cls._rules = OrderedDict([])
-            else:
-                cls._rules = cls._rules.copy()
-        except AttributeError:
-            orig_rules.append(None)
+    protected = ('simplifications', '_rules', '_binary_rules')
+    orig_attrs = []
+    with temporary_instance_cache(*Expression._classes_with_instances()):
         try:
-            orig_binary_rules.append(cls._binary_rules)
-            if clear:
-                cls._binary_rules = OrderedDict([])
-            else:
-                cls._binary_rules = cls._binary_rules.copy()
-        except AttributeError:
-            orig_binary_rules.append(None)
-
-    try:
-        yield
-    finally:
-        for i, cls in enumerate(classes):
-            cls._instances = orig_instances[i]
-            cls.simplifications = orig_simplifications[i]
-            if orig_rules[i] is not None:
-                cls._rules = orig_rules[i]
-            if orig_binary_rules[i] is not None:
-                cls._binary_rules = orig_binary_rules[i]
+            for cls in classes:
+                if '_instances' not in cls.__dict__:
+                    orig_attrs.append((cls, '_instances', cls._instances))
+                    cls._instances = {}
+                for attr in protected:
+                    try:
+                        orig = getattr(cls, attr)
+                    except AttributeError:
+                        continue
+                    orig_attrs.append((cls, attr, orig))
+                    if clear and attr != 'simplifications':
+                        setattr(cls, attr, OrderedDict([]))
+                    else:
+                        setattr(cls, attr, orig.copy())
+            yield
+        finally:
+            for (cls, attr, orig) in reversed(orig_attrs):
+                setattr(cls, attr, orig)
 
 
 def symbols(names, **args):
diff --git a/src/qnet/utils/singleton.py b/src/qnet/utils/singleton.py
index 4727f1c..308f6d2 100644
--- a/src/qnet/utils/singleton.py
+++ b/src/qnet/utils/singleton.py
@@ -93,9 +93,11 @@ class Singleton(ABCMeta):
     _instances = {}
 
     def __call__(cls, *args, **kwargs):
-        if cls not in cls._instances:
-            cls._instances[cls] = super().__call__(*args, **kwargs)
-        return cls._instances[cls]
+        # cls may have its own, unrelated `_instances`
+        instances = Singleton._instances
+        if cls not in instances:
+            instances[cls] = super().__call__(*args, **kwargs)
+        return instances[cls]
 
     @classmethod
     def __instancecheck__(mcs, instance):
-- 
2.43.0


From c642f3687b24060ac534cb7e6c59439a9bb88258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:50 +0000
Subject: [PATCH 35/50] fix: cached instances could outlive rule changes made
 inside a temporary instance cache, and temporary scopes gave subclasses their
 own copies of inherited attributes

---
 src/qnet/algebra/core/abstract_algebra.py | 12 +++---
 src/qnet/algebra/toolbox/core.py          | 46 +++++++++++++++--------
 2 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/src/qnet/algebra/core/abstract_algebra.py b/src/qnet/algebra/core/abstract_algebra.py
index 4a8d348..89d1dc3 100644
--- a/src/qnet/algebra/core/abstract_algebra.py
+++ b/src/qnet/algebra/core/abstract_algebra.py
@@ -86,6 +86,7 @@ class Expression(metaclass=ABCMeta):
     # we cache all instances of Expressions for fast construction
     _instances = {}
     instance_caching = True
+    _rules_version = 0  # incremented whenever rules are added or deleted
 
     # eventually, we should ensure that the create method is idempotent, i.e.
     # expr.create(*expr.args, **expr.kwargs) == expr(*expr.args, **expr.kwargs)
@@ -210,9 +211,10 @@ class Expression(metaclass=ABCMeta):
         return classes
 
     @classmethod
-    def _clear_instances(cls):
-        """Drop all cached instances of `cls` and its subclasses, e.g. because
-        they may depend on rules that have changed"""
+    def _rules_changed(cls):
+        """Drop all cached instances of `cls` and its subclasses, as they may
+        depend on rules that have been added or deleted"""
+        Expression._rules_version += 1
         for c in cls._classes_with_instances():
             c._instances = {}
 
@@ -275,7 +277,7 @@ class Expression(metaclass=ABCMeta):
                 "Duplicate key '%s': rule already exists" % name)
         getattr(cls, attr).update(check_rules_dict(
             [(name, (pattern, replacement))]))
-        Expression._clear_instances()
+        Expression._rules_changed()
 
     @classmethod
     def show_rules(cls, *names, attr=None):
@@ -337,7 +339,7 @@ class Expression(metaclass=ABCMeta):
         else:
             for name in names:
                 del getattr(cls, attr)[name]
-        Expression._clear_instances()
+        Expression._rules_changed()
 
     @classmethod
     def rules(cls, attr=None):
diff --git a/src/qnet/algebra/toolbox/core.py b/src/qnet/algebra/toolbox/core.py
index fba1e67..7041688 100644
--- a/src/qnet/algebra/toolbox/core.py
+++ b/src/qnet/algebra/toolbox/core.py
@@ -27,6 +27,21 @@ def no_instance_caching():
         Expression.instance_caching = orig_flag
 
 
+def _own_attr(cls, attr):
+    """The value of `attr` if defined in `cls` itself (not inherited), or None
+    """
+    return cls.__dict__.get(attr, None)
+
+
+def _restore_attr(cls, attr, val):
+    """Restore `attr` to a value `val` obtained from :func:`_own_attr`"""
+    if val is None:
+        if attr in cls.__dict__:
+            delattr(cls, attr)
+    else:
+        setattr(cls, attr, val)
+
+
 @contextmanager
 def temporary_instance_cache(*classes):
     """Use a temporary cache for instances in :meth:`~.Expression.create`
@@ -37,14 +52,18 @@ def temporary_instance_cache(*classes):
     context will be used within the managed context, and vice versa
     """
     orig_instances = []
+    rules_version = Expression._rules_version
     try:
         for cls in classes:
-            orig_instances.append((cls, cls._instances))
+            orig_instances.append(
+                (cls, '_instances', _own_attr(cls, '_instances')))
             cls._instances = {}
         yield
     finally:
-        for (cls, instances) in reversed(orig_instances):
-            cls._instances = instances
+        for (cls, attr, val) in reversed(orig_instances):
+            if Expression._rules_version != rules_version and val is not None:
+                val = {}  # the original instances may be out of date
+            _restore_attr(cls, attr, val)
 
 
 @contextmanager
@@ -70,28 +89,23 @@ def temporary_rules(*classes, clear=False):
     :obj:`simplifications <.Expression>` should be done with care, but allows
     complete control over the creation of expressions.
     """
-    protected = ('simplifications', '_rules', '_binary_rules')
     orig_attrs = []
-    with temporary_instance_cache(*Expression._classes_with_instances()):
+    with temporary_instance_cache(
+            *Expression._classes_with_instances(), *classes):
         try:
             for cls in classes:
-                if '_instances' not in cls.__dict__:
-                    orig_attrs.append((cls, '_instances', cls._instances))
-                    cls._instances = {}
-                for attr in protected:
-                    try:
-                        orig = getattr(cls, attr)
-                    except AttributeError:
+                for attr in ('simplifications', '_rules', '_binary_rules'):
+                    if not hasattr(cls, attr):
                         continue
-                    orig_attrs.append((cls, attr, orig))
+                    orig_attrs.append((cls, attr, _own_attr(cls, attr)))
                     if clear and attr != 'simplifications':
                         setattr(cls, attr, OrderedDict([]))
                     else:
-                        setattr(cls, attr, orig.copy())
+                        setattr(cls, attr, getattr(cls, attr).copy())
             yield
         finally:
-            for (cls, attr, orig) in reversed(orig_attrs):
-                setattr(cls, attr, orig)
+            for (cls, attr, val) in reversed(orig_attrs):
+                _restore_attr(cls, attr, val)
 
 
 def symbols(names, **args):
-- 
2.43.0


From 3fa2c847e625e933f28ad167ade4804e1fe26a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:07 +0000
Subject: [PATCH 36/50] fix: configure_printing did not restore settings after
 reset, printers before the first initialisation, or after a failed
 initialisation

---
 src/qnet/printing/__init__.py | 93 +++++++++++++++++++++--------------
 1 file changed, 55 insertions(+), 38 deletions(-)

diff --git a/src/qnet/printing/__init__.py b/src/qnet/printing/__init__.py
index 52157af..a28f222 100644
--- a/src/qnet/printing/__init__.py
+++ b/src/qnet/printing/__init__.py
@@ -107,9 +107,52 @@ def init_printing(*, reset=False, init_sympy=True, **kwargs):
         :func:`configure_printing` allows to temporarily change the printing
         system from what was configured in :func:`init_printing`.
     """
-    # return either None (default) or a dict of frozen attributes if
-    # ``_freeze=True`` is given as a keyword argument (internal use in
-    # `configure_printing` only)
+    freeze = _freeze_printing()
+    try:
+        _init_printing_with_sympy(
+            reset=reset, init_sympy=init_sympy, **kwargs)
+    except Exception:
+        _restore_printing(freeze)
+        raise
+
+
+_MISSING = object()
+
+
+def _freeze_printing():
+    """Return the full state of the printing system, as a list of tuples
+    (object, attribute name, value)"""
+    from qnet.algebra.core.abstract_algebra import Expression
+    targets = [
+        (QnetBasePrinter, '_allow_caching'), (Expression, '__str__'),
+        (Expression, '__repr__'), (Expression, '_repr_latex_'),
+        (sys, 'displayhook')]
+    for print_func in (ascii, unicode, latex):
+        targets.extend([(print_func, '_printer_cls'), (print_func, 'printer')])
+    printer_classes = [QnetBasePrinter]
+    for cls in printer_classes:  # includes all (recursive) subclasses
+        printer_classes.extend(
+            [c for c in cls.__subclasses__() if c not in printer_classes])
+    targets.extend([(cls, 'sympy_printer_cls') for cls in printer_classes])
+    freeze = [
+        (obj, attr, obj.__dict__.get(attr, _MISSING))
+        for (obj, attr) in targets]
+    freeze.append((
+        SympyPrinter, '_global_settings',
+        SympyPrinter._global_settings.copy()))
+    return freeze
+
+
+def _restore_printing(freeze):
+    """Restore the state returned by :func:`_freeze_printing`"""
+    for (obj, attr, val) in freeze:
+        if val is not _MISSING:
+            setattr(obj, attr, val)
+        elif attr in obj.__dict__:
+            delattr(obj, attr)
+
+
+def _init_printing_with_sympy(*, reset, init_sympy, **kwargs):
     logger = logging.getLogger(__name__)
     if reset:
         SympyPrinter._global_settings = {}
@@ -121,26 +164,17 @@ def init_printing(*, reset=False, init_sympy=True, **kwargs):
         else:
             sympy_init_printing()  # let sympy decide by itself
     if 'inifile' in kwargs:
-        invalid_kwargs = False
-        if '_freeze' in kwargs:
-            _freeze = kwargs['_freeze']
-            if len(kwargs) != 2:
-                invalid_kwargs = True
-        else:
-            _freeze = False
-            if len(kwargs) != 1:
-                invalid_kwargs = True
-        if invalid_kwargs:
+        if len(kwargs) != 1:
             raise TypeError(
                 "The `inifile` argument cannot be combined with any "
                 "other keyword arguments")
         logger.debug(
             "Initializating printing from INI file %s", kwargs['inifile'])
-        return _init_printing_from_file(kwargs['inifile'], _freeze=_freeze)
+        _init_printing_from_file(kwargs['inifile'])
     else:
         logger.debug(
             "Initializating printing with direct settings: %s", repr(kwargs))
-        return _init_printing(**kwargs)
+        _init_printing(**kwargs)
 
 
 def _init_printing(
@@ -153,13 +187,10 @@ def _init_printing(
         unicode_settings=None,
         latex_printer='qnet.printing.latexprinter.QnetLatexPrinter',
         latex_sympy_printer='qnet.printing.sympy.SympyLatexPrinter',
-        latex_settings=None, _freeze=False, **settings):
+        latex_settings=None, **settings):
     # Note: the *_printer args are undocumented, it's preferable to use them
     # through an INI file only
     logger = logging.getLogger(__name__)
-    freeze = defaultdict(dict)
-    freeze[SympyPrinter]['_global_settings'] \
-        = SympyPrinter._global_settings.copy()
     # Putting the settings in the _global_settings dict for SympyPrinter makes
     # sure that any setting that is acceptable to any Printer that is newly
     # instantiated is used automatically. Settings in _global_settings that are
@@ -169,7 +200,6 @@ def _init_printing(
     # no settings are passed to any specific Printer below -- Printer-specific
     # settings are possible only when using an INI file.
 
-    freeze[QnetBasePrinter]['_allow_caching'] = QnetBasePrinter._allow_caching
     QnetBasePrinter._allow_caching = caching
 
     print_map = {
@@ -186,13 +216,6 @@ def _init_printing(
         if settings is None:
             settings = {}
 
-        if hasattr(print_func, '_printer_cls'):
-            freeze[print_func]['_printer_cls'] = print_func._printer_cls
-            freeze[print_func._printer_cls]['sympy_printer_cls'] = \
-                print_func._printer_cls.sympy_printer_cls
-        if hasattr(print_func, 'printer'):
-            freeze[print_func]['printer'] = print_func.printer
-
         print_func._printer_cls = _printer_cls(
             name + '_printer', qnet_printer_address)
         print_func._printer_cls.sympy_printer_cls = _printer_cls(
@@ -229,17 +252,12 @@ def _init_printing(
         raise ValueError(
             "repr_format must be one of %s" % ", ".join(_PRINT_FUNC.keys()))
     from qnet.algebra.core.abstract_algebra import Expression
-    freeze[Expression]['__str__'] = Expression.__str__
-    freeze[Expression]['__repr__'] = Expression.__repr__
-    freeze[Expression]['_repr_latex_'] = Expression._repr_latex_
     Expression.__str__ = lambda self: str_func(self)
     Expression.__repr__ = lambda self: repr_func(self)
     Expression._repr_latex_ = lambda self: "$" + latex(self) + "$"
-    if _freeze:
-        return freeze
 
 
-def _init_printing_from_file(inifile, _freeze=False):
+def _init_printing_from_file(inifile):
     config = configparser.ConfigParser(interpolation=None)
     config.BOOLEAN_STATES = {
         'true': True, 'True': True, 'false': False, 'False': False}
@@ -265,7 +283,7 @@ def _init_printing_from_file(inifile, _freeze=False):
                     kwargs["%s_sympy_printer" % section] = val
                 else:
                     kwargs["%s_settings" % section][key] = val
-    return _init_printing(_freeze=_freeze, **dict(kwargs))
+    _init_printing(**dict(kwargs))
 
 
 @contextmanager
@@ -283,13 +301,12 @@ def configure_printing(**kwargs):
         >>> print(ascii(A + B))
         A^(1) + B^(1)
     """
-    freeze = init_printing(_freeze=True, **kwargs)
+    freeze = _freeze_printing()
+    init_printing(**kwargs)
     try:
         yield
     finally:
-        for obj, attr_map in freeze.items():
-            for attr, val in attr_map.items():
-                setattr(obj, attr, val)
+        _restore_printing(freeze)
 
 
 def ascii(expr, cache=None, **settings):
-- 
2.43.0


From 3cdb444d1e3a31fc633e54f10970614461befa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:43 +0000
Subject: [PATCH 37/50] fix: settings of a single print call dropped the
 settings of the printer's INI file section

---
 src/qnet/printing/__init__.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/qnet/printing/__init__.py b/src/qnet/printing/__init__.py
index a28f222..46aca1c 100644
--- a/src/qnet/printing/__init__.py
+++ b/src/qnet/printing/__init__.py
@@ -128,7 +128,9 @@ def _freeze_printing():
         (Expression, '__repr__'), (Expression, '_repr_latex_'),
         (sys, 'displayhook')]
     for print_func in (ascii, unicode, latex):
-        targets.extend([(print_func, '_printer_cls'), (print_func, 'printer')])
+        targets.extend([
+            (print_func, '_printer_cls'), (print_func, '_settings'),
+            (print_func, 'printer')])
     printer_classes = [QnetBasePrinter]
     for cls in printer_classes:  # includes all (recursive) subclasses
         printer_classes.extend(
@@ -223,6 +225,7 @@ def _init_printing(
             require_base=SympyPrinter)
         # instantiation of sympy_printer happens in init-routine (which is why
         # the sympy_printer_cls must be set first!)
+        print_func._settings = settings
         print_func.printer = print_func._printer_cls(settings=settings)
 
     # set up the __str__ and __repr__ printers
@@ -347,11 +350,14 @@ def ascii(expr, cache=None, **settings):
         if cache is None and len(settings) == 0:
             return ascii.printer.doprint(expr)
         else:
+            # settings from an INI file section for this function still apply
+            settings = {**ascii._settings, **settings}
             printer = ascii._printer_cls(cache, settings)
             return printer.doprint(expr)
     except AttributeError:
         # init_printing was not called. Setting up defaults
         ascii._printer_cls = QnetAsciiPrinter
+        ascii._settings = {}
         ascii.printer = ascii._printer_cls()
         return ascii(expr, cache, **settings)
 
@@ -402,11 +408,14 @@ def unicode(expr, cache=None, **settings):
         if cache is None and len(settings) == 0:
             return unicode.printer.doprint(expr)
         else:
+            # settings from an INI file section for this function still apply
+            settings = {**unicode._settings, **settings}
             printer = unicode._printer_cls(cache, settings)
             return printer.doprint(expr)
     except AttributeError:
         # init_printing was not called. Setting up defaults
         unicode._printer_cls = QnetUnicodePrinter
+        unicode._settings = {}
         unicode.printer = unicode._printer_cls()
         return unicode(expr, cache, **settings)
 
@@ -494,11 +503,14 @@ def latex(expr, cache=None, **settings):
         if cache is None and len(settings) == 0:
             return latex.printer.doprint(expr)
         else:
+            # settings from an INI file section for this function still apply
+            settings = {**latex._settings, **settings}
             printer = latex._printer_cls(cache, settings)
             return printer.doprint(expr)
     except AttributeError:
         # init_printing was not called. Setting up defaults
         latex._printer_cls = QnetLatexPrinter
+        latex._settings = {}
         latex.printer = latex._printer_cls()
         return latex(expr, cache, **settings)
 
-- 
2.43.0


From e388738251a0237f7e396596c738f325bfeb1896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:12 +0000
Subject: [PATCH 38/50] fix: feedbacks of one circuit over different ports are
 different expressions

---
 src/qnet/algebra/core/circuit_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 87e48bf..6ced2d5 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1221,7 +1221,8 @@ class Feedback(Circuit, Operation):
         self.out_port = int(out_port)
         self.in_port = int(in_port)
         operands = [circuit, ]
-        super().__init__(*operands)
+        super().__init__(
+            *operands, out_port=self.out_port, in_port=self.in_port)
 
     @property
     def kwargs(self):
-- 
2.43.0


From 5d294198f6729ee036330ee79c6a632f9554e544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:12 +0000
Subject: [PATCH 39/50] fix: the series inverse of the empty circuit is defined

---
 src/qnet/algebra/core/circuit_algebra.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 6ced2d5..0ce586a 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1068,6 +1068,9 @@ class CircuitZero(Circuit, Expression, metaclass=Singleton):
     def _creduce(self):
         return self
 
+    def _series_inverse(self):
+        return self
+
 
 ###############################################################################
 # Algebra Operations
-- 
2.43.0


From aaeac1016ba799c1c1ea2e4d58586f3d5e897c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:12 +0000
Subject: [PATCH 40/50] fix: series products with an identity of the wrong
 channel number are rejected

---
 src/qnet/algebra/core/algebraic_properties.py | 2 +-
 src/qnet/algebra/core/circuit_algebra.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/algebraic_properties.py b/src/qnet/algebra/core/algebraic_properties.py
index 4dbb6c7..066084e 100644
--- a/src/qnet/algebra/core/algebraic_properties.py
+++ b/src/qnet/algebra/core/algebraic_properties.py
@@ -428,7 +428,7 @@ def _match_replace_binary_combine(cls, a: list, b: list) -> list:
 
 def check_cdims(cls, ops, kwargs):
     """Check that all operands (`ops`) have equal channel dimension."""
-    if not len({o.cdim for o in ops}) == 1:
+    if len({o.cdim for o in ops}) > 1:
         raise ValueError("Not all operands have the same cdim:" + str(ops))
     return ops, kwargs
 
diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 0ce586a..087343c 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1081,7 +1081,7 @@ class SeriesProduct(Circuit, Operation):
     """The series product circuit operation. It can be applied to any sequence
     of circuit objects that have equal channel dimension.
     """
-    simplifications = [assoc, filter_cid, check_cdims,
+    simplifications = [assoc, check_cdims, filter_cid,
                        match_replace_binary]
     _binary_rules = OrderedDict()  # see end of module
 
-- 
2.43.0


From 19081f55fb85ee9cbe6c945d595857b03acc9100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:12 +0000
Subject: [PATCH 41/50] fix: connections that use a port twice are rejected

---
 src/qnet/algebra/toolbox/circuit_manipulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qnet/algebra/toolbox/circuit_manipulation.py b/src/qnet/algebra/toolbox/circuit_manipulation.py
index fafb82d..d19e801 100644
--- a/src/qnet/algebra/toolbox/circuit_manipulation.py
+++ b/src/qnet/algebra/toolbox/circuit_manipulation.py
@@ -142,6 +142,10 @@ def connect(components, connections, force_SLH=False, expand_simplify=True):
 
         op_idx = offsets[c1] + op
         ip_idx = offsets[c2] + ip
+        if op_idx in omap or ip_idx in imap:
+            raise ValueError(
+                "The connection %r uses a port that is already connected"
+                % (connections[ic], ))
         imap.append(ip_idx)
         omap.append(op_idx)
 
-- 
2.43.0


From 4643327ee04a7ce373f4247dae41ed1985fef259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:12 +0000
Subject: [PATCH 42/50] fix: feedback of a series product does not recurse when
 the series and its double inverse alternate

---
 src/qnet/algebra/_rules.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qnet/algebra/_rules.py b/src/qnet/algebra/_rules.py
index d329862..13db97c 100644
--- a/src/qnet/algebra/_rules.py
+++ b/src/qnet/algebra/_rules.py
@@ -1016,6 +1016,9 @@ def _series_feedback(series, out_port, in_port):
     series_s = series.series_inverse().series_inverse()
     if series_s == series:
         raise CannotSimplify()
+    if series_s.series_inverse().series_inverse() == series:
+        # `series` and `series_s` are turned into each other
+        raise CannotSimplify()
     return series_s.feedback(out_port=out_port, in_port=in_port)
 
 
-- 
2.43.0


From a18b2200d64108c18857e0f41c99c1dcc6d85add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:12 +0000
Subject: [PATCH 43/50] fix: the Langevin equation of a multi-channel model
 with operator-valued scattering

---
 src/qnet/algebra/core/circuit_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 087343c..377a70b 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -557,7 +557,8 @@ class SLH(Circuit, Expression):
                        .expand()[0, 0])
             summands.append(summand)
             if len(S.space & X.space):
-                comm = (S.adjoint() * X * S - X)
+                comm = (
+                    S.adjoint() * X * S - identity_matrix(S.shape[0]) * X)
                 summands.append((comm * LambdaT).expand().trace())
 
         ret = OperatorPlus.create(*summands)
-- 
2.43.0


From ad275cebb92aef30d6661a5922897f630f88f805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:12 +0000
Subject: [PATCH 44/50] fix: the state-space matrices of a model with purely
 numeric scattering matrix

---
 src/qnet/algebra/core/circuit_algebra.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/circuit_algebra.py b/src/qnet/algebra/core/circuit_algebra.py
index 377a70b..05b7874 100644
--- a/src/qnet/algebra/core/circuit_algebra.py
+++ b/src/qnet/algebra/core/circuit_algebra.py
@@ -1545,13 +1545,14 @@ def getABCD(slh, a0=None, doubled_up=True):
         except TypeError:
             return o
 
-    D = np.array([[_as_complex(o) for o in Sjj] for Sjj in slh.S.matrix])
+    D = np.array(
+        [[_as_complex(o) for o in Sjj] for Sjj in slh.S.matrix], dtype=object)
 
     if doubled_up:
         # need to explicitly compute D^* because numpy object-dtype array's
         # conjugate() method doesn't work
         Dc = np.array([[D[ii, jj].conjugate() for jj in range(cdim)]
-                       for ii in range(cdim)])
+                       for ii in range(cdim)], dtype=object)
         D = np.vstack((np.hstack((D, np.zeros((cdim, cdim)))),
                        np.hstack((np.zeros((cdim, cdim)), Dc))))
 
-- 
2.43.0


From b96f8dca00593670fa8200011efccf70dddf9354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:12 +0000
Subject: [PATCH 45/50] fix: multiples of the identity operator hash like the
 scalar they are equal to

---
 src/qnet/algebra/core/operator_algebra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qnet/algebra/core/operator_algebra.py b/src/qnet/algebra/core/operator_algebra.py
index 915bde4..1467de1 100644
--- a/src/qnet/algebra/core/operator_algebra.py
+++ b/src/qnet/algebra/core/operator_algebra.py
@@ -510,6 +510,8 @@ class ScalarTimesOperator(Operator, ScalarTimesQuantumExpression):
 
     def __hash__(self):
         # TODO: review, and add this to ScalarTimesQuantumExpression
+        if self.term is IdentityOperator:
+            return hash(self.coeff)  # consistent with __eq__
         return super().__hash__()
 
     def _adjoint(self):
-- 
2.43.0


From 81431ee6d69a20a995cab84c8e149cf24853d535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:12 +0000
Subject: [PATCH 46/50] fix: series expansion of matrices with scalar entries

---
 src/qnet/algebra/core/matrix_algebra.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 6b1ce5a..57f9c1f 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -12,7 +12,7 @@ from .abstract_quantum_algebra import QuantumExpression
 from .exceptions import NonSquareMatrix, NoConjugateMatrix
 from .hilbert_space_algebra import ProductSpace, TrivialSpace
 from .operator_algebra import adjoint
-from .scalar_algebra import is_scalar
+from .scalar_algebra import ScalarValue, is_scalar
 from ...utils.permutations import check_permutation
 
 __all__ = [
@@ -313,8 +313,11 @@ class Matrix(Expression):
             coefficients.
         """
         s = self.shape
+        entries = [
+            o if isinstance(o, QuantumExpression) else ScalarValue.create(o)
+            for o in self.matrix.ravel()]
         emats = zip(*[o.series_expand(param, about, order)
-                      for o in self.matrix.ravel()])
+                      for o in entries])
         return tuple((Matrix(np_array(em).reshape(s)) for em in emats))
 
     def expand(self):
-- 
2.43.0


From 12952e99b2e92c7c1d0bff113674d231fb5fc859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:12 +0000
Subject: [PATCH 47/50] fix: blocks of column vectors

---
 src/qnet/algebra/core/matrix_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 57f9c1f..92c38bd 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -87,7 +87,7 @@ class Matrix(Expression):
                 return ()
             else:
                 return ((self[:block_structure[0], :],) +
-                        self[:block_structure[0], :]
+                        self[block_structure[0]:, :]
                         ._get_blocks(block_structure[1:]))
         else:
             raise ValueError()
-- 
2.43.0


From b686be66cc985d0aa0e420b9f364e87e65a98c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:12 +0000
Subject: [PATCH 48/50] fix: products of a scalar expression and a matrix

---
 src/qnet/algebra/core/matrix_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 92c38bd..c6ef64f 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -140,7 +140,7 @@ class Matrix(Expression):
             return Matrix(self.matrix * other)
 
     def __rmul__(self, other):
-        return Matrix(other * self.matrix)
+        return self.element_wise(lambda o: other * o)
 
     def __sub__(self, other):
         return self + (-1) * other
@@ -296,7 +296,7 @@ class Matrix(Expression):
             Matrix: Matrix with results of `func`, applied element-wise.
         """
         s = self.shape
-        emat = [func(o, *args, **kwargs) for o in self.matrix.ravel()]
+        emat = [func(o, *args, **kwargs) for o in self.matrix.ravel().tolist()]
         return Matrix(np_array(emat).reshape(s))
 
     def series_expand(self, param: Symbol, about, order: int):
-- 
2.43.0


From c717a0af7d930541dec86ae6aa3ff0f23ff83e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:12 +0000
Subject: [PATCH 49/50] fix: matrices without a conjugate are reported as such

---
 src/qnet/algebra/core/matrix_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index c6ef64f..7badf2f 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -178,7 +178,7 @@ class Matrix(Expression):
         """
         try:
             return Matrix(np_conjugate(self.matrix))
-        except AttributeError:
+        except (AttributeError, TypeError):
             raise NoConjugateMatrix(
                 "Matrix %s contains entries that have no defined "
                 "conjugate" % str(self))
-- 
2.43.0


From 02d595dc499400d6e4efa66809d15f0578fc2836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:13 +0000
Subject: [PATCH 50/50] fix: sign of the imaginary part of matrix entries

---
 src/qnet/algebra/core/matrix_algebra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qnet/algebra/core/matrix_algebra.py b/src/qnet/algebra/core/matrix_algebra.py
index 7badf2f..5a5e188 100644
--- a/src/qnet/algebra/core/matrix_algebra.py
+++ b/src/qnet/algebra/core/matrix_algebra.py
@@ -231,7 +231,7 @@ class Matrix(Expression):
             A mathematically equivalent way to obtain an imaginary matrix from
             a complex matrix ``M`` is::
 
-                (M.conjugate() - M) / (I * 2)
+                (M - M.conjugate()) / (I * 2)
 
             with same same caveats as :attr:`real`.
         """
@@ -242,7 +242,7 @@ class Matrix(Expression):
             elif hasattr(val, 'as_real_imag'):
                 return val.as_real_imag()[1]
             elif hasattr(val, 'conjugate'):
-                return (val.conjugate() - val) / (2 * I)
+                return (val - val.conjugate()) / (2 * I)
             else:
                 raise NoConjugateMatrix(
                     "Matrix entry %s contains has no defined "
-- 
2.43.0

