From 49fdfbaa38683c7b5ec1623b1e4fa5a4892075a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:14 +0000
Subject: [PATCH 01/51] fix: web_main always answers a solve request with one
 'sos' event

An error while finding roots or rendering the solution, or a request for
'sos' without 'findroot', ended the background task without any event.
---
 web_main.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/web_main.py b/web_main.py
index 8c91930..284339b 100644
--- a/web_main.py
+++ b/web_main.py
@@ -1,6 +1,7 @@
 # import inspect
 # import ctypes
 # import threading
+from functools import wraps
 
 from flask import Flask, render_template, request, jsonify
 from flask_socketio import SocketIO, join_room, leave_room
@@ -169,6 +170,27 @@ def preprocess():
 
     return jsonify(n = n, txt = txt, triangle = triangle, heatmap = grid_color)
 
+def _always_answer(task):
+    """
+    Emit an unsuccessful 'sos' event if a background task that should end
+    in a 'sos' event fails before it is emitted.
+    """
+    @wraps(task)
+    def wrapper(sid, **kwargs):
+        try:
+            return task(sid, **kwargs)
+        except Exception:
+            if 'sos' in kwargs['actions']:
+                socketio.emit(
+                    'sos',
+                    {'latex': '', 'txt': '', 'formatted': '', 'success': False,
+                        'timestamp': kwargs.get('timestamp', 0)},
+                    to=sid
+                )
+            raise
+    return wrapper
+
+@_always_answer
 def findroot(sid, **kwargs):
     """
     Find the root information of the polynomial and emit the result to the client.
@@ -194,6 +216,7 @@ def findroot(sid, **kwargs):
     tangents : list[str]
         The tangents to the roots.    
     """
+    rootsinfo = None
     if 'findroot' in kwargs['actions']:
         poly = kwargs['poly']
         grid = kwargs.get('grid', None)
-- 
2.43.0


From 5fded2fb6b49a8c3c696facacbcd7234a63e7da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:58 +0000
Subject: [PATCH 02/51] fix: rendering a solution no longer changes the global
 printing style

str_txt/str_formatted set CyclicExpr.PRINT_WITH_PARENS for the whole process:
the style leaked into later str() calls and concurrent renderings disturbed
each other.
---
 triples/utils/expression/solution.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/triples/utils/expression/solution.py b/triples/utils/expression/solution.py
index 7594421..c869619 100644
--- a/triples/utils/expression/solution.py
+++ b/triples/utils/expression/solution.py
@@ -158,9 +158,8 @@ class Solution():
 
     @property
     def str_txt(self) -> str:
-        CyclicExpr.PRINT_WITH_PARENS = False
         # s = _solution_latex_to_txt(self.str_latex)
-        s = str(self.solution)
+        s = _print_str(self.solution, with_cyclic_parens=False)
         equal_sign = '=' if self.is_equal else '≈'
         replacements = dict([
             ('**', '^'),
@@ -174,8 +173,7 @@ class Solution():
 
     @property
     def str_formatted(self):
-        CyclicExpr.PRINT_WITH_PARENS = True
-        s = str(self.solution)
+        s = _print_str(self.solution, with_cyclic_parens=True)
         equal_sign = '=' if self.is_equal else '≈'
         replacements = dict([
             (' ',''),
@@ -444,12 +442,12 @@ class SolutionSimple(Solution):
 
     @property
     def str_txt(self):
-        CyclicExpr.PRINT_WITH_PARENS = False
+        get_str = lambda x: _print_str(x, with_cyclic_parens=False)
         equal_sign = '=' if self.is_equal else '≈'
 
         parener = lambda x: "(%s)"%x
-        s_multiplier = self._str_multiplier(add_paren = parener, get_str = lambda x: str(x))
-        s_args = self._str_extract_constant_afront(add_paren = parener, get_str = lambda x: str(x))
+        s_multiplier = self._str_multiplier(add_paren = parener, get_str = get_str)
+        s_args = self._str_extract_constant_afront(add_paren = parener, get_str = get_str)
         s = '+'.join(s_args)
         s = '%s%s%s'%(s_multiplier, equal_sign, s)
 
@@ -465,12 +463,12 @@ class SolutionSimple(Solution):
 
     @property
     def str_formatted(self):
-        CyclicExpr.PRINT_WITH_PARENS = True
+        get_str = lambda x: _print_str(x, with_cyclic_parens=True)
         equal_sign = '=' if self.is_equal else '≈'
 
         parener = lambda x: "(%s)"%x
-        s_multiplier = self._str_multiplier(add_paren = parener, get_str = lambda x: str(x))
-        s_args = self._str_extract_constant_afront(add_paren = parener, get_str = lambda x: str(x))
+        s_multiplier = self._str_multiplier(add_paren = parener, get_str = get_str)
+        s_args = self._str_extract_constant_afront(add_paren = parener, get_str = get_str)
         s = '+'.join(s_args)
         s = '%s%s%s'%(s_multiplier, equal_sign, s)
 
-- 
2.43.0


From 682aae10666ef435f1bf66ea4829d5c655ae4d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:17 +0000
Subject: [PATCH 03/51] fix: solver options of one CVXOPT call no longer apply
 to later calls

---
 triples/sdp/backend/cvxopt_sdp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/triples/sdp/backend/cvxopt_sdp.py b/triples/sdp/backend/cvxopt_sdp.py
index f34e7c0..5f33416 100644
--- a/triples/sdp/backend/cvxopt_sdp.py
+++ b/triples/sdp/backend/cvxopt_sdp.py
@@ -46,13 +46,15 @@ class DualBackendCVXOPT(DualBackend):
     def solve(self, solver_options = {}) -> np.ndarray:
         from cvxopt import solvers
 
-        solvers.options['show_progress'] = False
+        # pass the options for this call only: cvxopt.solvers.options is global
+        options = dict(solvers.options)
+        options['show_progress'] = False
 
         # configure kktsolver to handle ValueError: Rank(A) < p or Rank([P; A; G]) < n
         # https://ask.csdn.net/questions/1102440
-        solvers.options['kktreg'] = 1e-9
-        solvers.options.update(solver_options)
-        sol = solvers.sdp(self._c, Gs=self._Gs, hs=self._hs, kktsolver='ldl')
+        options['kktreg'] = 1e-9
+        options.update(solver_options)
+        sol = solvers.sdp(self._c, Gs=self._Gs, hs=self._hs, kktsolver='ldl', options=options)
         self.y = sol['x']
         self.solution = sol
 
-- 
2.43.0


From 65b2cb5decac5ed54315477ee23a77a6104c8d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:39 +0000
Subject: [PATCH 04/51] fix: batch results can be saved to a bare file name

os.makedirs('') raised after all problems were solved and lost the results.
---
 triples/core/sum_of_squares.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/triples/core/sum_of_squares.py b/triples/core/sum_of_squares.py
index ca73026..175e227 100644
--- a/triples/core/sum_of_squares.py
+++ b/triples/core/sum_of_squares.py
@@ -306,7 +306,8 @@ def _process_records(
             filename = save_result
         else:
             raise ValueError('save_result must be a directory / csv file name / True.')
-        os.makedirs(os.path.dirname(filename), exist_ok=True)
+        if os.path.dirname(filename):
+            os.makedirs(os.path.dirname(filename), exist_ok=True)
         records_save.to_csv(filename)
 
     return records_pd
-- 
2.43.0


From 7b357b5403115a8b3b73000c2b10392ed6b1d582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:39 +0000
Subject: [PATCH 05/51] fix: automatically named batch results do not overwrite
 earlier results

---
 triples/core/sum_of_squares.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/triples/core/sum_of_squares.py b/triples/core/sum_of_squares.py
index 175e227..0dc38c8 100644
--- a/triples/core/sum_of_squares.py
+++ b/triples/core/sum_of_squares.py
@@ -301,7 +301,11 @@ def _process_records(
                     dirname = os.getcwd()
             else:
                 dirname = save_result
-            filename = os.path.join(dirname, filename)
+            stem = os.path.join(dirname, filename)
+            filename, copy = stem, 1
+            while os.path.exists(filename):
+                # two batches finished within the same second (or the clock was set back)
+                filename, copy = stem[:-len('.csv')] + '_%d.csv' % copy, copy + 1
         elif save_result.endswith('.csv'):
             filename = save_result
         else:
-- 
2.43.0


From da14309e4c63e2324d5f4eeb92ebb2c5b16a6c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:39 +0000
Subject: [PATCH 06/51] fix: sum_of_squares_multiple does not modify the
 caller's poly_reader_configs

---
 triples/core/sum_of_squares.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/triples/core/sum_of_squares.py b/triples/core/sum_of_squares.py
index 0dc38c8..4095c5b 100644
--- a/triples/core/sum_of_squares.py
+++ b/triples/core/sum_of_squares.py
@@ -197,8 +197,7 @@ def sum_of_squares_multiple(
         if key in ('LinearSOS', 'SDPSOS'):
             configs[key]['verbose'] = verbose_sos
 
-    if 'ignore_errors' not in poly_reader_configs:
-        poly_reader_configs['ignore_errors'] = True
+    poly_reader_configs = {'ignore_errors': True, **poly_reader_configs}
     read_polys = PolyReader(polys, **poly_reader_configs)
     read_polys_zip = zip(read_polys.polys, read_polys)
     if verbose_progress:
-- 
2.43.0


From 231e527ba07b4b08faaa0d3c71827cfba5f3d4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:39 +0000
Subject: [PATCH 07/51] fix: measure solving time with a clock that cannot be
 set back

---
 triples/core/sum_of_squares.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/sum_of_squares.py b/triples/core/sum_of_squares.py
index 4095c5b..3d01d32 100644
--- a/triples/core/sum_of_squares.py
+++ b/triples/core/sum_of_squares.py
@@ -182,7 +182,7 @@ def sum_of_squares_multiple(
     pd.DataFrame
         The results as a pandas DataFrame.
     """
-    from time import time
+    from time import perf_counter as time
     from copy import deepcopy
 
     try:
-- 
2.43.0


From d26659ef08bbd779b17bcb3758d16f85bed1a49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:39 +0000
Subject: [PATCH 08/51] fix: SOS_Manager.sum_of_squares does not modify the
 given configs

---
 triples/gui/sos_manager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index 835367e..c6b5403 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -233,10 +233,10 @@ class SOS_Manager():
                 poly = poly.as_poly(*nonzero_gens)
 
         if cls.verbose is False:
+            # do not modify the caller's configs (nor DEFAULT_CONFIGS)
+            configs = dict(configs)
             for method in ('LinearSOS', 'SDPSOS'):
-                if configs.get(method) is None:
-                    configs[method] = {}
-                configs[method]['verbose'] = False
+                configs[method] = {**(configs.get(method) or {}), 'verbose': False}
         method_order = cls.CONFIG_METHOD_CHECK(poly, method_order)
 
         solution = sum_of_squares(
-- 
2.43.0


From 1894fe7d8d02e9de61cc09773ae0055ed42e654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:39 +0000
Subject: [PATCH 09/51] fix: SOS_Manager.sum_of_squares returns None when no
 solution is found

---
 triples/gui/sos_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index c6b5403..c295d5e 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -246,7 +246,7 @@ class SOS_Manager():
             method_order = method_order,
             configs = configs
         )
-        if cls.CONFIG_STANDARDIZE_CYCLICEXPR:
+        if solution is not None and cls.CONFIG_STANDARDIZE_CYCLICEXPR:
             solution = solution.rewrite_symmetry(gens, perm)
         return solution
 
-- 
2.43.0


From 457df43ad5905b92afecc9565e03fffcf2df202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:05 +0000
Subject: [PATCH 10/51] fix: inconsistent column-separated linear systems are
 rejected in SDPSOS

Rows of zeros are not stored in the sparse matrix, so a nonzero right-hand side
on such a row went unnoticed and SDPSOS 'proved' false statements, for example
2 - x - y >= 0.
---
 triples/sdp/arithmetic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/triples/sdp/arithmetic.py b/triples/sdp/arithmetic.py
index 5245375..71d11f2 100644
--- a/triples/sdp/arithmetic.py
+++ b/triples/sdp/arithmetic.py
@@ -440,6 +440,11 @@ def solve_column_separated_linear(A: sp.Matrix, b: sp.Matrix, x0_equal_indices:
     A = A._rep.convert_to(domain).rep.to_sdm() # SDM
     b = b._rep.convert_to(domain).rep.to_sdm() # SDM
 
+    for i, bi in b.items():
+        # rows of zeros are not stored in the sparse format of A
+        if bi.get(0, zero) != zero and not A.get(i):
+            raise ValueError("Linear system has no solution")
+
     x0 = []
     spaces = []
     for i, row in A.items():
-- 
2.43.0


From 5ffb2c3f0eb7f120f675dffb4f3c94743c9b9c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:31 +0000
Subject: [PATCH 11/51] fix: 4-variable cubics are no longer 'proved' by sums
 that differ from them

The partially symmetric solver was applied to polynomials that are only cyclic
in a, b, c, and handed homogenized cubics to the quadratic solver, which
ignored the remaining factor.
---
 triples/core/structsos/quarternary/cubic.py  | 6 +++++-
 triples/core/structsos/quarternary/solver.py | 2 +-
 triples/core/structsos/sparse.py             | 2 ++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/triples/core/structsos/quarternary/cubic.py b/triples/core/structsos/quarternary/cubic.py
index 4ddc289..02211a8 100644
--- a/triples/core/structsos/quarternary/cubic.py
+++ b/triples/core/structsos/quarternary/cubic.py
@@ -1,6 +1,7 @@
 import sympy as sp
 
 from .utils import CyclicSum, CyclicProduct, SymSum, radsimp, rationalize_func
+from ..utils import Coeff
 from ..sparse import sos_struct_quadratic
 
 a, b, c, d = sp.symbols("a b c d")
@@ -73,7 +74,10 @@ def _quarternary_cubic_partial_symmetric(coeff, real = False):
 
     c100, c000, c200, c110, c111 = [coeff(_) for _ in [(1,0,0,2), (0,0,0,3), (2,0,0,1), (1,1,0,1), (1,1,1,0)]]
     if c111 == 0:
-        return sos_struct_quadratic(coeff)
+        # every remaining term has the factor d
+        quadratic = Coeff({(*k[:3], k[3] - 1): v for k, v in coeff.coeffs.items() if v != 0})
+        solution = sos_struct_quadratic(quadratic)
+        return d * solution if solution is not None else None
     elif c111 < 0 or c000 < 0:
         return None
     # normalize
diff --git a/triples/core/structsos/quarternary/solver.py b/triples/core/structsos/quarternary/solver.py
index 08652fe..089788c 100644
--- a/triples/core/structsos/quarternary/solver.py
+++ b/triples/core/structsos/quarternary/solver.py
@@ -97,7 +97,7 @@ def structural_sos_4vars(poly: sp.Poly, ineq_constraints: Dict[sp.Poly, sp.Expr]
     elif coeff.is_cyclic():
         func = _structural_sos_4vars_cyclic
     else:
-        if coeff.is_cyclic(PermutationGroup(Permutation([1,2,0,3]))):
+        if coeff.is_cyclic(PermutationGroup(Permutation([1,2,0,3]), Permutation([1,0,2,3]))):
             func = _structural_sos_4vars_partial_symmetric
 
     try:
diff --git a/triples/core/structsos/sparse.py b/triples/core/structsos/sparse.py
index 8c0d987..604a6b7 100644
--- a/triples/core/structsos/sparse.py
+++ b/triples/core/structsos/sparse.py
@@ -97,6 +97,8 @@ def sos_struct_quadratic(poly: Poly, **kwargs):
     nvars = coeff.nvars
     mat = sp.zeros(nvars + 1)
     for k, v in coeff.coeffs.items():
+        if sum(k) > 2:
+            return None
         inds = []
         for i in range(nvars):
             if k[i] > 2:
-- 
2.43.0


From d43f735c8f1ad1de7ffda16a05f75530c0b78538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:57 +0000
Subject: [PATCH 12/51] fix: StructuralSOS proves monomials only from the given
 constraints

x >= 0 was 'proved' without any constraint.
---
 triples/core/structsos/structsos.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/triples/core/structsos/structsos.py b/triples/core/structsos/structsos.py
index 02ea9ca..8909186 100644
--- a/triples/core/structsos/structsos.py
+++ b/triples/core/structsos/structsos.py
@@ -58,7 +58,7 @@ def _structural_sos(poly: sp.Poly, ineq_constraints: Dict[sp.Poly, sp.Expr] = {}
     if poly.is_monomial:
         if poly.LC() >= 0:
             # since the poly is homogeneous, it must be a monomial
-            return poly.as_expr()
+            return _structural_sos_monomial(poly, ineq_constraints)
         return None
 
     poly, ineq_constraints, eq_constraints = clear_free_symbols(poly, ineq_constraints, eq_constraints)
@@ -83,3 +83,28 @@ def _structural_sos(poly: sp.Poly, ineq_constraints: Dict[sp.Poly, sp.Expr] = {}
         solution = structural_sos_constrained(poly, ineq_constraints, eq_constraints)
 
     return solution
+
+
+def _structural_sos_monomial(poly: sp.Poly, ineq_constraints: Dict[sp.Poly, sp.Expr] = {}) -> Optional[sp.Expr]:
+    """
+    Prove a monomial with nonnegative coefficient. Even powers are nonnegative
+    and the variables of odd degree must be covered by the inequality constraints.
+    """
+    if poly.is_zero:
+        return poly.as_expr()
+    monom = poly.monoms()[0]
+    odd = {i for i, d in enumerate(monom) if d % 2 == 1}
+    rest = {i: d for i, d in enumerate(monom)}
+    factors = []
+    constraints = [(c, e) for c, e in ineq_constraints.items() if (not c.is_zero) and c.is_monomial and c.LC() > 0]
+    for c, e in sorted(constraints, key=lambda x: x[0].total_degree(), reverse=True):
+        m = c.monoms()[0]
+        parity = {i for i, d in enumerate(m) if d % 2 == 1}
+        if len(parity) and parity.issubset(odd) and all(d <= rest[i] for i, d in enumerate(m)):
+            factors.append(e / c.LC())
+            odd -= parity
+            for i, d in enumerate(m):
+                rest[i] -= d
+    if len(odd):
+        return None
+    return sp.Mul(poly.LC(), *factors, *(x**rest[i] for i, x in enumerate(poly.gens)))
-- 
2.43.0


From 1e7bf02f24403eb0b354b53708d4d5bab860220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:16 +0000
Subject: [PATCH 13/51] fix: roots that sympy cannot iterate to are computed by
 numpy

sympy.polys.nroots raises NoConvergence on some polynomials; the exception
escaped from findroot and the solvers instead of the solver going on.
---
 triples/core/structsos/pivoting/univariate.py |  3 ++-
 triples/core/structsos/ternary/quartic.py     |  4 ++--
 .../structsos/ternary/sextic_symmetric.py     |  4 ++--
 triples/core/structsos/ternary/utils.py       |  2 +-
 triples/utils/roots/findroot.py               |  8 +++----
 triples/utils/roots/rationalize.py            | 22 +++++++++++++++++--
 triples/utils/roots/roots.py                  |  4 ++--
 7 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/triples/core/structsos/pivoting/univariate.py b/triples/core/structsos/pivoting/univariate.py
index af312ba..1b00d48 100644
--- a/triples/core/structsos/pivoting/univariate.py
+++ b/triples/core/structsos/pivoting/univariate.py
@@ -5,6 +5,7 @@ import sympy as sp
 
 from ..utils import radsimp
 from ....sdp import congruence as _congruence
+from ....utils.roots.rationalize import sympy_nroots
 
 def congruence(M: sp.Matrix) -> Optional[Tuple[sp.Matrix, sp.Matrix]]:
     """
@@ -472,7 +473,7 @@ def _prove_univariate_irreducible(
     if poly.degree() <= 2:
         return _prove_univariate_simple(poly)
 
-    roots = sp.polys.nroots(poly, n = n)
+    roots = sympy_nroots(poly, n = n)
     real_roots, complex_roots = _classify_roots(roots)
 
     # a mark of whether the polynomial is positive only over R+ (True) or over R (False)
diff --git a/triples/core/structsos/ternary/quartic.py b/triples/core/structsos/ternary/quartic.py
index fb2c99d..8d8dcbb 100644
--- a/triples/core/structsos/ternary/quartic.py
+++ b/triples/core/structsos/ternary/quartic.py
@@ -5,7 +5,7 @@ import sympy as sp
 from .utils import (
     CyclicSum, CyclicProduct, Coeff,
     congruence, sum_y_exprs, quadratic_weighting, radsimp,
-    nroots, rationalize, rationalize_bound, rationalize_func,
+    nroots, sympy_nroots, rationalize, rationalize_bound, rationalize_func,
     univariate_intervals, common_region_of_conics
 )
 
@@ -524,7 +524,7 @@ def _sos_struct_quartic_uncentered(coeff):
             # do not compute the root here because it is not numerically stable
             # instead compute the root of derivative of discriminant
             detdiff = det.diff()
-            roots = [(abs(det(root)), root) for root in sp.polys.nroots(detdiff) if root.is_real and root > 0]
+            roots = [(abs(det(root)), root) for root in sympy_nroots(detdiff) if root.is_real and root > 0]
             # print(roots)
             if len(roots) > 0:
                 x_ = min(roots)[1]
diff --git a/triples/core/structsos/ternary/sextic_symmetric.py b/triples/core/structsos/ternary/sextic_symmetric.py
index 32eead5..5ec87f7 100644
--- a/triples/core/structsos/ternary/sextic_symmetric.py
+++ b/triples/core/structsos/ternary/sextic_symmetric.py
@@ -5,7 +5,7 @@ import sympy as sp
 from .quartic import sos_struct_quartic
 from .utils import (
     CyclicSum, CyclicProduct, Coeff, CommonExpr, SS, sos_struct_handle_uncentered,
-    sum_y_exprs, nroots, rationalize_bound, rationalize_func, quadratic_weighting, radsimp,
+    sum_y_exprs, nroots, sympy_nroots, rationalize_bound, rationalize_func, quadratic_weighting, radsimp,
     prove_univariate
 )
 
@@ -1102,7 +1102,7 @@ def _sos_struct_sextic_iran96(coeff, real = False):
                 
             # find a rational approximation
             if u_ is None:
-                for u__ in sp.polys.nroots(equ)[::-1]:
+                for u__ in sympy_nroots(equ)[::-1]:
                     if u__.is_real:
                         if coeff_z(u__) <= z:
                             direction = ((t**2 - 4*t + 2*u__**3 - 6*u__**2 + 6*u__ + 2)/(u__ - 1))
diff --git a/triples/core/structsos/ternary/utils.py b/triples/core/structsos/ternary/utils.py
index 8997e39..36470c4 100644
--- a/triples/core/structsos/ternary/utils.py
+++ b/triples/core/structsos/ternary/utils.py
@@ -12,7 +12,7 @@ from ..utils import (
 from ..pivoting import prove_univariate, prove_univariate_interval
 from ...shared import SS
 from ....utils.roots.rationalize import (
-    nroots, rationalize, rationalize_bound, univariate_intervals,
+    nroots, sympy_nroots, rationalize, rationalize_bound, univariate_intervals,
     square_perturbation, cancel_denominator, common_region_of_conics
 )
 from ....utils import CyclicExpr, CyclicSum, CyclicProduct
diff --git a/triples/utils/roots/findroot.py b/triples/utils/roots/findroot.py
index 031e471..e037230 100644
--- a/triples/utils/roots/findroot.py
+++ b/triples/utils/roots/findroot.py
@@ -10,7 +10,7 @@ from sympy.plotting.experimental_lambdify import vectorized_lambdify
 from scipy.optimize import minimize
 
 from .grid import GridRender, GridPoly
-from .rationalize import nroots, rationalize
+from .rationalize import nroots, sympy_nroots, rationalize
 from .roots import Root, RootAlgebraic, RootRational
 from .rootsinfo import RootsInfo
 from ..polytools import deg, verify_hom_cyclic
@@ -695,7 +695,7 @@ class _findroot_helper_resultant():
         all_roots = []
         all_roots_inv = []
         for i, factor_ in enumerate(factors):
-            for r in sp.polys.nroots(factor_[0], n = prec):
+            for r in sympy_nroots(factor_[0], n = prec):
                 if r.is_real:
                     all_roots.append((r, i))
                     if r != 0:
@@ -743,11 +743,11 @@ class _findroot_helper_resultant():
         all_roots1 = []
         all_roots2 = []
         for i, factor_ in enumerate(factors1):
-            for r in sp.polys.nroots(factor_[0], n = prec):
+            for r in sympy_nroots(factor_[0], n = prec):
                 if r.is_real:
                     all_roots1.append((r, i))
         for i, factor_ in enumerate(factors2):
-            for r in sp.polys.nroots(factor_[0], n = prec):
+            for r in sympy_nroots(factor_[0], n = prec):
                 if r.is_real:
                     all_roots2.append((r, i))
 
diff --git a/triples/utils/roots/rationalize.py b/triples/utils/roots/rationalize.py
index 132c58b..1a17ac2 100644
--- a/triples/utils/roots/rationalize.py
+++ b/triples/utils/roots/rationalize.py
@@ -2,6 +2,24 @@ from typing import Optional, Tuple, List, Dict, Union, Generator
 
 import sympy as sp
 from numpy import roots as nproots
+from mpmath.libmp.libhyper import NoConvergence
+
+def sympy_nroots(poly, n = 15):
+    """
+    The numerical roots of a sympy polynomial by sympy.polys.nroots, or by numpy
+    when the former does not converge.
+    """
+    try:
+        return sp.polys.nroots(poly, n = n)
+    except NoConvergence:
+        pass
+    coeffs = [complex(_) for _ in poly.all_coeffs()]
+    if all(_.imag == 0 for _ in coeffs):
+        coeffs = [_.real for _ in coeffs]
+    roots = [complex(_) for _ in nproots(coeffs)]
+    roots = [sp.Float(r.real, n) if r.imag == 0 else sp.Float(r.real, n) + sp.I*sp.Float(r.imag, n) for r in roots]
+    return sorted(roots, key = lambda r: (not r.is_real, sp.re(r), sp.im(r)))
+
 
 def nroots(poly, method = 'numpy', real = False, nonnegative = False):
     """
@@ -23,7 +41,7 @@ def nroots(poly, method = 'numpy', real = False, nonnegative = False):
     if method == 'numpy':
         roots = [sp.S(_) for _ in nproots(poly.all_coeffs())]
     elif method == 'sympy':
-        roots = sp.polys.nroots(poly)
+        roots = sympy_nroots(poly)
     elif method == 'factor':
         roots_rational = []
         roots = []
@@ -31,7 +49,7 @@ def nroots(poly, method = 'numpy', real = False, nonnegative = False):
             if part.degree() == 1:
                 roots_rational.append(-part.all_coeffs()[1] / part.all_coeffs()[0])
             else:
-                roots.extend(sp.polys.nroots(part))
+                roots.extend(sympy_nroots(part))
         roots = roots_rational + roots
 
     if real:
diff --git a/triples/utils/roots/roots.py b/triples/utils/roots/roots.py
index 4a20887..5e62c3d 100644
--- a/triples/utils/roots/roots.py
+++ b/triples/utils/roots/roots.py
@@ -3,7 +3,7 @@ from typing import Optional, Union, List, Tuple
 import numpy as np
 import sympy as sp
 
-from .rationalize import rationalize
+from .rationalize import rationalize, sympy_nroots
 from ..monomials import generate_monoms
 
 def _zip_power(gens: List[sp.Symbol], powers: List[int]) -> sp.Expr:
@@ -391,7 +391,7 @@ class TernaryMixin():
         elif issubclass(cls, RootAlgebraic):
             raise ValueError('RootAlgebraic.from_uv currently does not support irrational generating polynomials.')
         else:
-            a, b, c = sp.polys.nroots(poly)
+            a, b, c = sympy_nroots(poly)
         root = cls((a, b, c))
         u_, v_ = root.uv()
         if abs(u_ - u) + abs(v_ - v) > abs(v_ - u) + abs(u_ - v):
-- 
2.43.0


From 6e03fc24bfa764dd6d7f30c51445c4c551d3092d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:34 +0000
Subject: [PATCH 14/51] fix: LinearSOS survives useless numerical LP solutions

NaN, infinite or vanishing LP solutions raised TypeError or IndexError out of
LinearSOS instead of counting as an unsuccessful LP.
---
 triples/core/linsos/correction.py | 5 ++++-
 triples/core/linsos/linsos.py     | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/triples/core/linsos/correction.py b/triples/core/linsos/correction.py
index 125f997..b8a0904 100644
--- a/triples/core/linsos/correction.py
+++ b/triples/core/linsos/correction.py
@@ -70,6 +70,9 @@ def linear_correction(
     y_mask = np.abs(y).max() * zero_tol
     y = rationalize_array(y, y_mask, reliable = True)
     y, basis, num_multipliers = _filter_zero_y(y, basis, num_multipliers)
+    if num_multipliers == 0:
+        # the numerical solution is useless: all multipliers vanish
+        return [], [], False
     reduced_arrays = _basis_as_matrix(basis, symmetry=symmetry)
 
     # add a regularizer row
@@ -82,7 +85,7 @@ def linear_correction(
     obtained = reduced_arrays * sp.Matrix(y)
 
     is_equal = False
-    if target == obtained:
+    if target == obtained and all(_ >= 0 for _ in y):
         is_equal = True
     else:
         # second try to solve the linear system
diff --git a/triples/core/linsos/linsos.py b/triples/core/linsos/linsos.py
index 8abb0a0..d512da6 100644
--- a/triples/core/linsos/linsos.py
+++ b/triples/core/linsos/linsos.py
@@ -406,7 +406,7 @@ def _LinearSOS(
                     linear_sos = linprog(optimized, A_eq=arrays.T, b_eq=b, **linprog_options)
                 except:
                     pass
-            if linear_sos is None or not linear_sos.success:
+            if linear_sos is None or not linear_sos.success or not np.isfinite(linear_sos.x).all():
                 # lift the degree up and retry
                 if verbose:
                     print('\tLP failed.')
@@ -420,7 +420,7 @@ def _LinearSOS(
                 num_multipliers = len(lift_degree_info['basis']),
                 symmetry = symmetry
             )
-            if is_equal or allow_numer > 0:
+            if is_equal or (allow_numer > 0 and len(basis) > 0):
                 basis = _odd_basis_to_even(basis, poly.gens, ineq_constraints)
                 solution = SolutionLinear._from_y_basis(
                     problem=poly, y=y, basis=basis, symmetry=symmetry,
-- 
2.43.0


From 9ca6a533d5851429b21d997d7037e7eea6a2c156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:14 +0000
Subject: [PATCH 15/51] fix: univariate proofs give up on inconsistent
 numerical roots

Root lists that are not closed under conjugation raised IndexError.
---
 triples/core/structsos/pivoting/univariate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/core/structsos/pivoting/univariate.py b/triples/core/structsos/pivoting/univariate.py
index 1b00d48..20ed609 100644
--- a/triples/core/structsos/pivoting/univariate.py
+++ b/triples/core/structsos/pivoting/univariate.py
@@ -475,6 +475,9 @@ def _prove_univariate_irreducible(
 
     roots = sympy_nroots(poly, n = n)
     real_roots, complex_roots = _classify_roots(roots)
+    if len(real_roots) + 2 * len(complex_roots) != poly.degree():
+        # the numerical roots are not conjugate to each other
+        return None
 
     # a mark of whether the polynomial is positive only over R+ (True) or over R (False)
     positive = True
-- 
2.43.0


From 917747c335d6ec6146d687263309a60159339cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:20 +0000
Subject: [PATCH 16/51] fix: bivariate proofs skip constraints that are
 opposite halfspaces

---
 triples/core/structsos/pivoting/bivariate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/triples/core/structsos/pivoting/bivariate.py b/triples/core/structsos/pivoting/bivariate.py
index 854a21e..022a093 100644
--- a/triples/core/structsos/pivoting/bivariate.py
+++ b/triples/core/structsos/pivoting/bivariate.py
@@ -174,6 +174,8 @@ def _sos_struct_bivariate_linear_ineq(poly, ineq_constraints, eq_constraints):
         # a = (v*y - z*x) / (v*w - u*z), b = (u*y - w*x) / (u*z - v*w)
         (u, v), expr1 = bound[0]
         (w, z), expr2 = bound[1]
+        if v*w == u*z: # the halfspaces have opposite normals: degenerated case
+            return None
         y = uniquely_named_symbol('y', (a, b, *expr1.free_symbols, *expr2.free_symbols))
         poly2 = poly.subs({a: (v*y - z)/(v*w - u*z), b: (u*y - w)/(u*z - v*w)}).as_poly(y)
         sol = prove_univariate_interval(poly2, (0, sp.oo), return_raw=True)
-- 
2.43.0


From 5c8f15aba49cee2f1b68fd7fdcec4421f79db87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:58 +0000
Subject: [PATCH 17/51] fix: LinearSOS rejects multipliers that cancel out

---
 triples/core/linsos/correction.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/triples/core/linsos/correction.py b/triples/core/linsos/correction.py
index b8a0904..73fa4e8 100644
--- a/triples/core/linsos/correction.py
+++ b/triples/core/linsos/correction.py
@@ -105,6 +105,12 @@ def linear_correction(
             # raise e
             is_equal = False
 
+    if is_equal:
+        # the multipliers can cancel out, e.g. x*f + (-x)*f = 0, which proves nothing
+        multiplied = reduced_arrays[:-1, -num_multipliers:] * sp.Matrix(list(y)[-num_multipliers:])
+        if all(_ == 0 or _.equals(0) for _ in multiplied):
+            is_equal = False
+
     return y, basis, is_equal
 
 def LUsolve(A: sp.Matrix, b: sp.Matrix) -> sp.Matrix:
-- 
2.43.0


From df679969f834b53d77c90a052c472ad441178282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:34 +0000
Subject: [PATCH 18/51] fix: LinearSOS proves the zero polynomial instead of
 raising

---
 triples/core/linsos/linsos.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/triples/core/linsos/linsos.py b/triples/core/linsos/linsos.py
index d512da6..19eede1 100644
--- a/triples/core/linsos/linsos.py
+++ b/triples/core/linsos/linsos.py
@@ -342,6 +342,10 @@ def _LinearSOS(
         _homogenizer: Optional[Symbol] = None
     ) -> Optional[SolutionLinear]:
 
+    if poly.is_zero:
+        return SolutionLinear(poly, sp.S.Zero, ineq_constraints=ineq_constraints,
+                        eq_constraints=eq_constraints, is_equal=True)
+
     if _homogenizer is not None: 
         # homogenize the tangents
         tangents = homogenize_expr_list(tangents, _homogenizer)
-- 
2.43.0


From 773be430431513ba70ef144fe8cd09c62392f12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:04 +0000
Subject: [PATCH 19/51] fix: the primal Clarabel backend is not available when
 clarabel is not installed

---
 triples/sdp/backend/clarabel_sdp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/triples/sdp/backend/clarabel_sdp.py b/triples/sdp/backend/clarabel_sdp.py
index 8b01c10..7578c61 100644
--- a/triples/sdp/backend/clarabel_sdp.py
+++ b/triples/sdp/backend/clarabel_sdp.py
@@ -99,6 +99,7 @@ class DualBackendCLARABEL(DualBackend):
 
 
 class PrimalBackendCLARABEL(PrimalBackend):
+    _dependencies = ('clarabel', 'scipy')
     def __init__(self, x0) -> None:
         super().__init__(x0)
 
-- 
2.43.0


From dcc53195cd8214fe56415eacf07852b547cee2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:04 +0000
Subject: [PATCH 20/51] fix: a failed solve of a reduced primal SDP neither
 raises nor erases the parent's solution

---
 triples/sdp/transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index 0291108..95d98f7 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -82,6 +82,8 @@ class SDPCopyTransform(SDPTransformation):
 
     def propagate_to_parent(self, recursive: bool = True):
         parent, child = self.parent_node, self.child_node
+        if child.y is None:
+            return parent
         parent.y = child.y
         parent.S = child.S
         parent.decompositions = child.decompositions
@@ -430,6 +432,8 @@ class PrimalRowMasking(SDPRowMasking):
 
     def propagate_to_parent(self, recursive: bool = True):
         parent_node, child_node = self.parent_node, self.child_node
+        if child_node.y is None:
+            return parent_node
         mats = {key: sp.zeros(m, m) for key, m in parent_node.size.items()}
         y = sp.zeros(parent_node.dof, 1)
         y_offset = 0
-- 
2.43.0


From 8979741baea2af6b051a06e1b337fabea3d8898a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:04 +0000
Subject: [PATCH 21/51] fix: numerical SDP solutions with nan or inf are
 discarded

---
 triples/sdp/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/sdp/abstract.py b/triples/sdp/abstract.py
index 0715c4f..f2a9715 100644
--- a/triples/sdp/abstract.py
+++ b/triples/sdp/abstract.py
@@ -254,7 +254,7 @@ class SDPProblemBase(ABC):
             y = self._solve_numerical_sdp(objective=obj, constraints=con, min_eigen=eig, scaling=scaling,
                 solver=solver, solver_options=solver_options, raise_exception=raise_exception
             )
-            if y is not None:
+            if y is not None and np.isfinite(y).all():
                 self._ys.append(y)
 
                 def _force_return(self: SDPProblemBase, y):
-- 
2.43.0


From df0640525b64e52f3e9a425c37090f181abd82c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:04 +0000
Subject: [PATCH 22/51] fix: SDP problems whose matrices are all constrained to
 zero can be solved

---
 triples/sdp/backend/caller.py | 2 +-
 triples/sdp/transform.py      | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/triples/sdp/backend/caller.py b/triples/sdp/backend/caller.py
index 5ff9a5b..a890e4e 100644
--- a/triples/sdp/backend/caller.py
+++ b/triples/sdp/backend/caller.py
@@ -56,7 +56,7 @@ def _create_numerical_dual_sdp(
     """
     Create a numerical dual SDP problem.
     """
-    dof = next(iter(x0_and_space.values()))[1].shape[1]
+    dof = next(iter(x0_and_space.values()))[1].shape[1] if len(x0_and_space) else 0
     if dof == 0:
         # nothing to optimize
         return DegeneratedDualBackend(dof)
diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index 95d98f7..6fac7e3 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -221,6 +221,10 @@ class DualMatrixTransform(SDPMatrixTransform):
 
             new_x0_and_space[key] = (new_x0, new_space)
 
+        if len(new_x0_and_space) == 0:
+            # every matrix is zero, so that the free parameters have no effect
+            self._trans_space = trans_space[:, :0]
+
         # print('Used time', time() - time0)
         return self._create_dual_problem(new_x0_and_space)
 
-- 
2.43.0


From e1e211dfac3add92f6dc0933a4b516e2c2038ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:56 +0000
Subject: [PATCH 23/51] fix: SDP problems whose rows are all masked can be
 solved

---
 triples/sdp/transform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index 6fac7e3..02c90b2 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -391,6 +391,9 @@ class DualRowMasking(SDPRowMasking, DualMatrixTransform):
         eqs = sp.Matrix.vstack(*eqs)
         rhs = sp.Matrix.vstack(*rhs)
         trans_x0, trans_space = solve_undetermined_linear(eqs, -rhs)
+        if not any(nonzero_inds.values()):
+            # every matrix is zero, so that the free parameters have no effect
+            trans_space = trans_space[:, :0]
         self._trans_x0, self._trans_space = trans_x0, trans_space
 
         new_x0_and_space = {}
-- 
2.43.0


From fc1f8edcd49d5035421b297dfadf7db60d5a66dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:56 +0000
Subject: [PATCH 24/51] fix: primal SDPs with inconsistent equality constraints
 are not reported as solved

---
 triples/sdp/primal.py      | 6 +++++-
 triples/sdp/rationalize.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/primal.py b/triples/sdp/primal.py
index 5f6c801..7bb50ab 100644
--- a/triples/sdp/primal.py
+++ b/triples/sdp/primal.py
@@ -160,7 +160,11 @@ class SDPPrimal(PrimalTransformMixin):
             dy = Matrix(dy2)
         else:
             dy = A.pinv_solve(r, arbitrary_matrix=Matrix.zeros(A.cols, 1))
-        return y + dy
+        y = y + dy
+        if A * y != self._x0 and not any(isinstance(_, Float) for _ in y):
+            # the least square solution is not feasible
+            raise ValueError("The equality constraints of the SDP problem are inconsistent.")
+        return y
 
     def _get_defaulted_configs(self) -> List[List[Any]]:
         sum_trace = np.concatenate([np.eye(m).flatten() for m in self.size.values()])
diff --git a/triples/sdp/rationalize.py b/triples/sdp/rationalize.py
index 305cfd1..dd16805 100644
--- a/triples/sdp/rationalize.py
+++ b/triples/sdp/rationalize.py
@@ -180,7 +180,11 @@ def rationalize_and_decompose(
             if check_pretty and not verify_is_pretty(y_rational):
                 continue
             if projection is not None:
-                y_rational = projection(y_rational)
+                try:
+                    y_rational = projection(y_rational)
+                except ValueError:
+                    # infeasible equality constraints
+                    continue
 
             S_dict = mat_func(y_rational)
             decompositions = {}
-- 
2.43.0


From 6834e6f6d998e30e1c10d8d2cf610cff1cbfb854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:24 +0000
Subject: [PATCH 25/51] fix: asymmetric matrices are not accepted as positive
 semidefinite

---
 triples/sdp/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/sdp/utils.py b/triples/sdp/utils.py
index cfe922e..52dc1b8 100644
--- a/triples/sdp/utils.py
+++ b/triples/sdp/utils.py
@@ -91,6 +91,9 @@ def congruence_with_perturbation(
     if M.shape[0] == 0 or M.shape[1] == 0:
         return Matrix(), Matrix()
     if not perturb:
+        if any(v.is_Rational and v != 0 for v in (M - M.T)):
+            # the decomposition only reads the upper triangular part
+            return None
         return congruence(M)
     else:
         min_eig = min([re(v) for v in M.n(20).eigenvals()])
-- 
2.43.0


From cad7564832eb775261fde02414307c6b69009cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:59 +0000
Subject: [PATCH 26/51] fix: PICOS solves no longer leave their CVXOPT options
 behind

---
 triples/sdp/backend/picos_sdp.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/backend/picos_sdp.py b/triples/sdp/backend/picos_sdp.py
index 121523d..9918ac3 100644
--- a/triples/sdp/backend/picos_sdp.py
+++ b/triples/sdp/backend/picos_sdp.py
@@ -6,6 +6,20 @@ import numpy as np
 from .backend import DualBackend, PrimalBackend, random_name
 
 
+def _solve_problem(problem, solver_options = {}):
+    """Solve a PICOS problem. PICOS clears and overwrites the global options of CVXOPT, restore them."""
+    try:
+        from cvxopt import solvers
+    except ImportError:
+        return problem.solve(**solver_options)
+    options = dict(solvers.options)
+    try:
+        return problem.solve(**solver_options)
+    finally:
+        solvers.options.clear()
+        solvers.options.update(options)
+
+
 class DualBackendPICOS(DualBackend):
     """
     PICOS backend for SDP problems.
@@ -39,7 +53,7 @@ class DualBackendPICOS(DualBackend):
         self.problem.set_objective('min', objective * self.y)
 
     def solve(self, solver_options = {}) -> np.ndarray:
-        self.problem.solve(**solver_options)
+        _solve_problem(self.problem, solver_options)
         value = self.y.value
         if isinstance(value, float):
             value = [value]
@@ -100,6 +114,6 @@ class PrimalBackendPICOS(PrimalBackend):
 
     def solve(self, solver_options = {}) -> np.ndarray:
         problem, variables = self._create_problem()
-        self.solution = problem.solve(**solver_options)
+        self.solution = _solve_problem(problem, solver_options)
         value = [np.array(v.value).flatten() for v in variables]
         return self.restore_eigen(value)
\ No newline at end of file
-- 
2.43.0


From d6e0befdd8af1d77ea541d4b1e09f94a3e327dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:01 +0000
Subject: [PATCH 27/51] fix: interrupting a call is not mistaken for a failed
 step

---
 triples/core/linsos/linsos.py                      | 2 +-
 triples/core/structsos/ternary/quartic.py          | 2 +-
 triples/core/structsos/ternary/quintic.py          | 2 +-
 triples/core/structsos/ternary/sextic_symmetric.py | 2 +-
 triples/gui/sos_manager.py                         | 8 ++++----
 triples/sdp/backend/mosek_sdp.py                   | 4 ++--
 triples/utils/polytools.py                         | 2 +-
 triples/utils/roots/findroot.py                    | 8 ++++----
 triples/utils/roots/roots.py                       | 2 +-
 triples/utils/text_process.py                      | 8 ++++----
 web_main.py                                        | 2 +-
 11 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/triples/core/linsos/linsos.py b/triples/core/linsos/linsos.py
index 19eede1..f534d5a 100644
--- a/triples/core/linsos/linsos.py
+++ b/triples/core/linsos/linsos.py
@@ -408,7 +408,7 @@ def _LinearSOS(
                 warnings.simplefilter('once')
                 try:
                     linear_sos = linprog(optimized, A_eq=arrays.T, b_eq=b, **linprog_options)
-                except:
+                except Exception:
                     pass
             if linear_sos is None or not linear_sos.success or not np.isfinite(linear_sos.x).all():
                 # lift the degree up and retry
diff --git a/triples/core/structsos/ternary/quartic.py b/triples/core/structsos/ternary/quartic.py
index 8d8dcbb..7e5633b 100644
--- a/triples/core/structsos/ternary/quartic.py
+++ b/triples/core/structsos/ternary/quartic.py
@@ -486,7 +486,7 @@ def _sos_struct_quartic_uncentered(coeff):
                         # already found
                         continue
                     extrema.append((eqn(root), root))
-        except: pass
+        except Exception: pass
 
         n_, _ = max(extrema)
 
diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index 44e7a93..b0c2901 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -1687,7 +1687,7 @@ def _sos_struct_quintic_hexagon(coeff):
                                     break
                         else:
                             u_, v_ = None, None
-            except: pass
+            except Exception: pass
 
         if u_ is not None:
             y = [
diff --git a/triples/core/structsos/ternary/sextic_symmetric.py b/triples/core/structsos/ternary/sextic_symmetric.py
index 5ec87f7..eb6c2fa 100644
--- a/triples/core/structsos/ternary/sextic_symmetric.py
+++ b/triples/core/structsos/ternary/sextic_symmetric.py
@@ -1974,7 +1974,7 @@ def _sos_struct_sextic_symmetric_ultimate(coeff, real = True):
                 solution = _sos_struct_sextic_symmetric_quadratic_form(poly, coeff)
                 if solution is not None:
                     return solution
-            except:
+            except Exception:
                 pass
 
     solution = _sos_struct_sextic_symmetric_schur_split(coeff, real = real)
diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index c295d5e..33ef741 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -126,7 +126,7 @@ class SOS_Manager():
                             if not standardize_text:
                                 standardize_text = 'sort'
                             break
-            except:
+            except Exception:
                 pass
 
         try:
@@ -142,7 +142,7 @@ class SOS_Manager():
                 txt2 = poly_get_standard_form(poly, perm)
             if isinstance(txt2, str):
                 txt = txt2
-        except:
+        except Exception:
             pass
 
 
@@ -260,7 +260,7 @@ class SOS_Manager():
     def latex_coeffs(cls, txt, gens=CONFIG_DEFAULT_GENS, perm=CONFIG_DEFAULT_PERM, *args, **kwargs):
         try:
             poly, denom = preprocess_text(txt, gens=gens, perm=perm, return_type='frac')
-        except:
+        except Exception:
             return ''
         return latex_coeffs(poly, *args, **kwargs)
 
@@ -298,7 +298,7 @@ def _render_LaTeX(a, path, usetex=True, show=False, dpi=500, fontsize=20):
             #plt.text(-0.3,0.75+min(0.35,linenumber/25), a, fontsize=15, usetex=usetex)
             #fontfamily='Times New Roman')
             plt.text(-0.3,0.9, a, fontsize=fontsize, usetex=usetex)#
-        except:
+        except Exception:
             usetex = False
     
     if not usetex:
diff --git a/triples/sdp/backend/mosek_sdp.py b/triples/sdp/backend/mosek_sdp.py
index 2d92325..8b85dcc 100644
--- a/triples/sdp/backend/mosek_sdp.py
+++ b/triples/sdp/backend/mosek_sdp.py
@@ -24,7 +24,7 @@ class DualBackendMOSEK(DualBackend):
             from mosek.fusion import Model
             with Model("SDP") as M:
                 _try_solve = M.solve() # checks if the license is available
-        except:
+        except Exception:
             return False
         return True
 
@@ -116,7 +116,7 @@ class PrimalBackendMOSEK(PrimalBackend):
             from mosek.fusion import Model
             with Model("SDP") as M:
                 _try_solve = M.solve() # checks if the license is available
-        except:
+        except Exception:
             return False
         return True
 
diff --git a/triples/utils/polytools.py b/triples/utils/polytools.py
index 37fb39a..bb77258 100644
--- a/triples/utils/polytools.py
+++ b/triples/utils/polytools.py
@@ -50,7 +50,7 @@ def verify(y, polys, poly, tol: float = 1e-10) -> bool:
             if abs(coeff) > tol:
                 return False
         return True
-    except:
+    except Exception:
         return False
 
 
diff --git a/triples/utils/roots/findroot.py b/triples/utils/roots/findroot.py
index e037230..a28cd88 100644
--- a/triples/utils/roots/findroot.py
+++ b/triples/utils/roots/findroot.py
@@ -462,7 +462,7 @@ class _findroot_helper():
                 for r in nroots(poly_diff, method = 'factor', real = True, nonnegative = True):
                     if poly_diff2(r) >= 0:
                         roots.append(Root((r, 1, 0)))
-            except:
+            except Exception:
                 pass
         else:
             gens = poly.gens
@@ -504,7 +504,7 @@ class _findroot_helper():
                     continue
                 if poly_diff2(r) >= 0:
                     roots.append(Root((r, 1, 1)))
-        except:
+        except Exception:
             pass
         return roots
 
@@ -522,7 +522,7 @@ class _findroot_helper():
             try:
                 extrema = sp.nsolve(poly_diffs, gens, e)
                 roots.append(tuple(list(extrema)))
-            except:
+            except Exception:
                 pass
 
         return cls._std_root(roots, standardize_method = standardize_method)
@@ -569,7 +569,7 @@ class _findroot_helper():
                 res = minimize(f, root, method = method, tol=1e-6, callback = early_stop)
                 if res.success:
                     roots.append(tuple(res.x))
-            except:
+            except Exception:
                 pass
 
         return cls._std_root(roots, standardize_method = standardize_method)
diff --git a/triples/utils/roots/roots.py b/triples/utils/roots/roots.py
index 5e62c3d..671b6cc 100644
--- a/triples/utils/roots/roots.py
+++ b/triples/utils/roots/roots.py
@@ -306,7 +306,7 @@ class RootAlgebraic(Root):
                     frac0, frac1 = sp.fraction(expr0.together())
                     frac0, frac1 = frac0.as_poly(*gens), frac1.as_poly(*gens)
                     s = self._subs_poly(frac0) / self._subs_poly(frac1)
-            except:
+            except Exception:
                 s = expr0.subs(zip(gens, self.root))
             results.append(s)
 
diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index fafefb4..2882ac6 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -241,12 +241,12 @@ def preprocess_text(
                     one = Poly(1, gens, extension = True)
                     return div0, one
             return poly0, poly1
-        except:
+        except Exception:
             return None, None
     else:
         try:
             poly = Poly(poly, gens, extension = True)
-        except:
+        except Exception:
             poly = None
 
     return poly
@@ -357,7 +357,7 @@ def degree_of_zero(
             degree = deg(Poly(poly[0]))
         else:
             degree = deg(Poly(poly[0])) - deg(Poly(poly[1]))
-    except:
+    except Exception:
         degree = 0
         
     return degree
@@ -532,7 +532,7 @@ class PolyReader:
         if isinstance(poly, str):
             try:
                 poly = preprocess_text(poly, **self.kwargs)
-            except:
+            except Exception:
                 if not self.ignore_errors:
                     raise ValueError(f'Invalid polynomial at index {self.index}: {poly}')
                 poly = None
diff --git a/web_main.py b/web_main.py
index 284339b..0634f07 100644
--- a/web_main.py
+++ b/web_main.py
@@ -250,7 +250,7 @@ def findroot(sid, **kwargs):
                             elif 'tangents' not in kwargs['configs']['LinearSOS']:
                                 kwargs['configs']['LinearSOS']['tangents'] = []
                             kwargs['configs']['LinearSOS']['tangents'].append(tg**2)
-                    except:
+                    except Exception:
                         pass
             rootsinfo.tangents = tangents
     if 'sos' in kwargs['actions']:
-- 
2.43.0


From 53ad122a4f0a06dd8330b9e0c9f41f5dc71ed38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:59 +0000
Subject: [PATCH 28/51] fix: SDP problems and rpa_polyopt do not write into
 their arguments

---
 triples/sdp/abstract.py              | 3 ++-
 triples/sdp/transform.py             | 2 +-
 triples/utils/roots/monotonic_opt.py | 2 ++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/abstract.py b/triples/sdp/abstract.py
index f2a9715..2de967a 100644
--- a/triples/sdp/abstract.py
+++ b/triples/sdp/abstract.py
@@ -46,7 +46,7 @@ class SDPProblemBase(ABC):
             keys = ['S_%d'%i for i in range(len(arg))]
             arg = dict(zip(keys, arg))
         elif isinstance(arg, dict):
-            keys = list(arg.keys())
+            arg = arg.copy() # never write to the dict of the caller
         else:
             raise TypeError(f"The {argname} should be a dict or a list of parameters.")
         setattr(self, argname, arg)
@@ -78,6 +78,7 @@ class SDPProblemBase(ABC):
         """
         if not set(mat_dict.keys()) == set(self.keys()):
             raise ValueError("The keys of the matrix dictionary should be the same as the keys of the SDP problem.")
+        mat_dict = mat_dict.copy() # never write to the dict of the caller
         for key, X in mat_dict.items():
             if not isinstance(X, MatrixBase):
                 raise ValueError("The values of the matrix dictionary should be sympy MatrixBase.")
diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index 02c90b2..3faefac 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -864,7 +864,7 @@ class PrimalTransformMixin(SDPTransformMixin):
 
     def constrain_symmetry(self) -> SDPProblemBase:
         for key, m in self.size.items():
-            space = self._space[key]
+            space = self._space[key] = self._space[key].copy()
             n = space.shape[0]
             for i in range(m):
                 for j in range(i):
diff --git a/triples/utils/roots/monotonic_opt.py b/triples/utils/roots/monotonic_opt.py
index 889fffb..7962f98 100644
--- a/triples/utils/roots/monotonic_opt.py
+++ b/triples/utils/roots/monotonic_opt.py
@@ -457,8 +457,10 @@ def rpa_polyopt(f: sp.Poly, ineq_constraints: List[sp.Poly]=[], eq_constraints:
     nvars = len(gens)
     if not hasattr(a, '__iter__'):
         a = [a] * nvars
+    a = list(a)
     if not hasattr(b, '__iter__'):
         b = [b] * nvars
+    b = list(b)
 
     from sympy.plotting.experimental_lambdify import vectorized_lambdify
     def wrap(gens, f):
-- 
2.43.0


From 757d21f293bb35c899194081b2b7b4edb3c89244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 29/51] fix: automatically named batch results are created
 exclusively

---
 triples/core/sum_of_squares.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/triples/core/sum_of_squares.py b/triples/core/sum_of_squares.py
index 3d01d32..e814bfe 100644
--- a/triples/core/sum_of_squares.py
+++ b/triples/core/sum_of_squares.py
@@ -301,17 +301,22 @@ def _process_records(
             else:
                 dirname = save_result
             stem = os.path.join(dirname, filename)
-            filename, copy = stem, 1
-            while os.path.exists(filename):
-                # two batches finished within the same second (or the clock was set back)
-                filename, copy = stem[:-len('.csv')] + '_%d.csv' % copy, copy + 1
+            filename, mode, copy = stem, 'x', 1
         elif save_result.endswith('.csv'):
-            filename = save_result
+            filename, mode = save_result, 'w'
         else:
             raise ValueError('save_result must be a directory / csv file name / True.')
         if os.path.dirname(filename):
             os.makedirs(os.path.dirname(filename), exist_ok=True)
-        records_save.to_csv(filename)
+        while True:
+            try:
+                records_save.to_csv(filename, mode=mode)
+                break
+            except FileExistsError:
+                # two batches finished within the same second (or the clock was set back)
+                if mode != 'x':
+                    raise
+                filename, copy = stem[:-len('.csv')] + '_%d.csv' % copy, copy + 1
 
     return records_pd
 
-- 
2.43.0


From 12612ad1bee9d958704f430756db2647f6d09105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:31 +0000
Subject: [PATCH 30/51] fix: an empty batch can be saved

---
 triples/core/sum_of_squares.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/triples/core/sum_of_squares.py b/triples/core/sum_of_squares.py
index e814bfe..1bd668a 100644
--- a/triples/core/sum_of_squares.py
+++ b/triples/core/sum_of_squares.py
@@ -282,7 +282,8 @@ def _process_records(
         save_solution_method = lambda x: getattr(x, attr) if x is not None else None
 
     import pandas as pd
-    records_pd = pd.DataFrame(records, index = range(1, len(records)+1))
+    columns = None if len(records) else ['problem', 'deg', 'method', 'solution', 'time', 'status']
+    records_pd = pd.DataFrame(records, index = range(1, len(records)+1), columns = columns)
     if save_result:
         records_save = records_pd.copy()
         records_save['solution'] = records_save['solution'].apply(save_solution_method)
-- 
2.43.0


From b0ed1c9c066eb5d88798553c8cbb2082eed5ead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:54 +0000
Subject: [PATCH 31/51] fix: rpa_monotonic does not discard the optimum or
 report an infeasible problem

---
 triples/utils/roots/monotonic_opt.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/triples/utils/roots/monotonic_opt.py b/triples/utils/roots/monotonic_opt.py
index 7962f98..2b7a27e 100644
--- a/triples/utils/roots/monotonic_opt.py
+++ b/triples/utils/roots/monotonic_opt.py
@@ -18,6 +18,9 @@ def _find_sup(f, a, b, xtol=_xtol, maxiter=100):
     """
     if -_rtol <= f(b) <= _rtol:
         return b
+    if f(a) > 0:
+        # f(a) should be 0 but is positive because of rounding errors
+        return a
 
     # Step 1: Apply Brent's method (using scipy.optimize.root_scalar with brentq)
     result = root_scalar(f, bracket=(a, b), method='brentq', xtol=xtol, maxiter=maxiter)
@@ -192,7 +195,7 @@ def rpa_monotonic(f, g, h, a, b, tol=1e-5, max_iter=2000, cbv=np.inf, root_solve
         x_best, cbv, k, T = None, np.inf, 0, []
     else:
         a, b = _red(f, g, h, a, b, cbv, root_solver=root_solver)
-        T = [a]
+        T = [a] if h(b) > -_rtol else [] # empty if the problem is infeasible
 
     for k in range(1, 1 + max_iter):
         if not T:  # Step 2: If T is empty, terminate
@@ -216,7 +219,12 @@ def rpa_monotonic(f, g, h, a, b, tol=1e-5, max_iter=2000, cbv=np.inf, root_solve
                 cbv = f(x_k)
                 x_best = x_k
                 a, b = _red(f, g, h, a, b, cbv, root_solver=root_solver)
-                T = [z for z in T if np.all(z >= a) and np.all(z <= b) and f(z) < cbv - tol and g(z) <= 0]
+                if h(b) <= -_rtol: # no better points
+                    T = []
+                    break
+                # better points are in [a, b], so a vertex z stands for [max(z, a), b]
+                T = [np.maximum(z, a) for z in T if np.all(z <= b)]
+                T = [z for z in T if f(z) < cbv - tol and g(z) <= 0]
                 if verbose:
                     print(k, 'New best:', cbv, 'x =', x_best, 'L =', len(T))
                     print('New bounds:', a, b)
-- 
2.43.0


From 76f5644f8f35e3f4b4a099ffa9dc3e2f907307f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:44 +0000
Subject: [PATCH 32/51] fix: rpa_polyopt does not ignore constraints without
 the first variable

---
 triples/utils/roots/monotonic_opt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/utils/roots/monotonic_opt.py b/triples/utils/roots/monotonic_opt.py
index 2b7a27e..f935f3d 100644
--- a/triples/utils/roots/monotonic_opt.py
+++ b/triples/utils/roots/monotonic_opt.py
@@ -482,11 +482,11 @@ def rpa_polyopt(f: sp.Poly, ineq_constraints: List[sp.Poly]=[], eq_constraints:
         ineq_constraints.append(-eq + eqtol)
     for ineq in ineq_constraints:
         ineq = sp.Poly(ineq, gens)
-        if ineq.degree() <= 0:
+        if ineq.total_degree() <= 0:
             if ineq.LC() < 0:
                 return RPAResult(None, np.inf, 1, True, a, b)
             continue
-        elif ineq.degree() == 1 and len(ineq.free_symbols) == 1: # linear
+        elif ineq.total_degree() == 1 and len(ineq.free_symbols) == 1: # linear
             s = ineq.free_symbols.pop()
             ind = gens.index(s)
             lc = ineq.coeff_monomial(s)
-- 
2.43.0


From 728f811f55bd534a6cf64f20dc53e1b74d2a8da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:44 +0000
Subject: [PATCH 33/51] fix: poly_as_dm accepts univariate polynomials and
 non-integer bounds

---
 triples/utils/roots/monotonic_opt.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/triples/utils/roots/monotonic_opt.py b/triples/utils/roots/monotonic_opt.py
index f935f3d..0627bbd 100644
--- a/triples/utils/roots/monotonic_opt.py
+++ b/triples/utils/roots/monotonic_opt.py
@@ -383,17 +383,22 @@ def poly_as_dm(poly: sp.Poly, a=None):
     f1, f2 : sympy.Poly
         Two polynomials such that poly = f1 - f2.
     """
+    def shift(poly, a):
+        # Poly.shift_list does not accept univariate polynomials
+        return poly.shift_list(a) if len(a) > 1 else poly.shift(a[0])
     if a is not None:
-        a = [min(ai, 0) for ai in a]
-        poly = poly.shift_list(a)
+        a = [sp.sympify(min(ai, 0)) for ai in a]
+        if not all(ai.is_integer for ai in a):
+            poly = poly.to_field()
+        poly = shift(poly, a)
     terms = poly.terms()
     pos = [t for t in terms if t[1] >= 0]
     neg = [t for t in terms if t[1] < 0]
     f1 = sp.Poly.from_dict(dict(pos), poly.gens, domain=poly.domain)
     f2 = -sp.Poly.from_dict(dict(neg), poly.gens, domain=poly.domain)
     if a is not None:
-        f1 = f1.shift_list([-ai for ai in a])
-        f2 = f2.shift_list([-ai for ai in a])
+        f1 = shift(f1, [-ai for ai in a])
+        f2 = shift(f2, [-ai for ai in a])
     return f1, f2
 
 
-- 
2.43.0


From 7fa3c713a7f02f97a13866443768c90a1e8032fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:44 +0000
Subject: [PATCH 34/51] fix: rpa_polyopt reports contradictory bounds as
 infeasible

---
 triples/utils/roots/monotonic_opt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/utils/roots/monotonic_opt.py b/triples/utils/roots/monotonic_opt.py
index 0627bbd..3abbebc 100644
--- a/triples/utils/roots/monotonic_opt.py
+++ b/triples/utils/roots/monotonic_opt.py
@@ -506,6 +506,9 @@ def rpa_polyopt(f: sp.Poly, ineq_constraints: List[sp.Poly]=[], eq_constraints:
         f1, f2 = poly_as_dm(ineq, a)
         g_and_h.append((wrap(gens, f2), wrap(gens, f1))) # f2 - f1 <= 0
 
+    if any(ai > bi for ai, bi in zip(a, b)):
+        return RPAResult(None, np.inf, 1, True, a, b)
+
     f1, f2 = poly_as_dm(f, a)
     f1, f2 = wrap(gens, f1), wrap(gens, f2)
     result = rpa_gmop((f1, f2), g_and_h, a, b, tol=tol, max_iter=max_iter, cbv=cbv, root_solver=root_solver, verbose=verbose)
-- 
2.43.0


From 6eaf38a0ca636610dededafda0d27dde1c932b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 35/51] fix: univariate sum-of-squares keeps the leading
 coefficient exact

---
 triples/core/structsos/pivoting/univariate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/triples/core/structsos/pivoting/univariate.py b/triples/core/structsos/pivoting/univariate.py
index 20ed609..36ebc8c 100644
--- a/triples/core/structsos/pivoting/univariate.py
+++ b/triples/core/structsos/pivoting/univariate.py
@@ -293,6 +293,8 @@ def _determine_diagonal_entries(M: Union[sp.Matrix, List[sp.Matrix]], poly: sp.P
         n = M.shape[0]
         if isinstance(poly, sp.Poly):
             all_coeffs = poly.all_coeffs()
+            # the leading coefficients might be zero
+            all_coeffs = [sp.S(0)] * (2*n - 1 - len(all_coeffs)) + all_coeffs
         for i in range(len(all_coeffs)):
             m = i // 2
             if i % 2 == 0:
@@ -312,6 +314,9 @@ def _determine_diagonal_entries(M: Union[sp.Matrix, List[sp.Matrix]], poly: sp.P
 
         M = M[1]
         n = M.shape[0]
+        if poly.degree() == 2*n - 1:
+            # the leading coefficient must be exact
+            M[0, 0] = poly.LC()
         all_coeffs = [0] * (M.shape[1] * 2 - 1)
         for i in range(len(all_coeffs)):
             m = i // 2
-- 
2.43.0


From 37417293e48d47a71969a7ba2d7495d42a2da1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 36/51] fix: uncentered quintic proof accounts for the a^2b^2c
 coefficient

---
 triples/core/structsos/ternary/quintic.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index b0c2901..c15bddf 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -1472,8 +1472,15 @@ def _sos_struct_quintic_uncentered(coeff):
             CyclicProduct(a) * CyclicSum((a**2 - b**2 - u*a*c + v*b*c + (u-v)*a*b)**2),
             CyclicSum(a*c*(a-b)**2*((r1-r1_)*c + (r2-r2_)/2*b)) * multiplier
         ]
+        if any((not _.is_finite) or _ < 0 for _ in y):
+            return None
 
-        return sum_y_exprs(y, exprs) / multiplier
+        solution = sum_y_exprs(y, exprs) / multiplier
+        # the coefficient of a^2b^2c might be greater than that of the sum of squares
+        rest = rem - solution.xreplace({a: sp.S(1), b: sp.S(1), c: sp.S(1)}).doit() / 3
+        if (not rest.is_finite) or rest < 0:
+            return None
+        return solution + rest * CyclicSum(a*b) * CyclicProduct(a)
 
     return None
 
-- 
2.43.0


From 308f55454b0ba2480b33da5c367a4bb35182a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 37/51] fix: s(a2-ab)*cubic uses a sympy integer coefficient

---
 triples/core/structsos/ternary/quintic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index c15bddf..b2997b3 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -64,7 +64,7 @@ def _solve_sa2minusab_mul_cubic(x, y, mul = sp.S(1)):
     When (x, y) is not on the curve, it would be a linear combination of two points on the curve.
     """
     if x >= 0 and y >= 0:
-        cubic_poly = Coeff({(3,0,0): 1, (2,1,0): x, (1,2,0): y, (1,1,1): -3*(x+y+1)})
+        cubic_poly = Coeff({(3,0,0): sp.S(1), (2,1,0): x, (1,2,0): y, (1,1,1): -3*(x+y+1)})
         return sp.Rational(1,2) * mul * CyclicSum((a-b)**2) * sos_struct_cubic(cubic_poly)
 
     def _solve_t(t):
-- 
2.43.0


From baa4605f0fcc85a769b36fb5760724dc83682d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 38/51] fix: octic hexagon Case 2 requires its degree of
 freedom

---
 triples/core/structsos/ternary/octic_symmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/octic_symmetric.py b/triples/core/structsos/ternary/octic_symmetric.py
index 58ec3da..e042a72 100644
--- a/triples/core/structsos/ternary/octic_symmetric.py
+++ b/triples/core/structsos/ternary/octic_symmetric.py
@@ -562,7 +562,7 @@ def _sos_struct_octic_symmetric_hexagon(coeff):
                     CyclicProduct((a-b)**2) * CyclicSum(z_*a**2 + w_*b*c)
                 )
         
-        if True:
+        if 2*c1 + c3 != 0 or c2 + c4 == 0:
             # Case 2.
             # use xs((a-b)2((a2b+a2c+ab2-ac2+b2c-bc2)+y(ac2+bc2-2abc))2)+p(a-b)2s(za2+wab)
             # this enables nontrivial equality cases on the symmetric axis
-- 
2.43.0


From 403f8603a4aef3717c681247e8e72033f0058512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 39/51] fix: acyclic symmetric quartic checks the linear
 coefficients for symmetry

---
 triples/core/structsos/ternary/quartic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/quartic.py b/triples/core/structsos/ternary/quartic.py
index 7e5633b..1c41bae 100644
--- a/triples/core/structsos/ternary/quartic.py
+++ b/triples/core/structsos/ternary/quartic.py
@@ -625,7 +625,7 @@ def _sos_struct_acyclic_quartic_symmetric(coeff, real = True):
     mappings = [(lambda i, j: (i,j,4-i-j)), (lambda i, j: (i,4-i-j,j)), (lambda i, j: (4-i-j,i,j))]
     symbol_orders = [sp.symbols("a b c"), sp.symbols("a c b"), sp.symbols("b c a")]
     for symbol_order, mapping in zip(symbol_orders, mappings):
-        if all(coeff(mapping(i,j)) == coeff(mapping(j,i)) for i,j in ((4,0),(3,1),(3,0),(2,1),(2,0))):
+        if all(coeff(mapping(i,j)) == coeff(mapping(j,i)) for i,j in ((4,0),(3,1),(3,0),(2,1),(2,0),(1,0))):
             break
     else:
         return None
-- 
2.43.0


From ce412ab73113c5053f345dbc886bfe7ae23d6972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 40/51] fix: symmetric sextic schur split Case 3 includes the
 a^2b^2c^2 term

---
 triples/core/structsos/ternary/sextic_symmetric.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/triples/core/structsos/ternary/sextic_symmetric.py b/triples/core/structsos/ternary/sextic_symmetric.py
index eb6c2fa..61c5255 100644
--- a/triples/core/structsos/ternary/sextic_symmetric.py
+++ b/triples/core/structsos/ternary/sextic_symmetric.py
@@ -703,7 +703,8 @@ def _sos_struct_sextic_symmetric_schur_split(coeff, real = False):
         c411 + 2*c420 + 4*c510 + 3*c600,
         2*c321 + 2*c330 + 2*c411 + 4*c420 + 6*c510 + 4*c600,
         c330 + 2*c420 + 2*c510 + 2*c600,
-        -c330/3 - c411/3 - c420/3 - 2*c510 - 2*c600
+        -c330/3 - c411/3 - c420/3 - 2*c510 - 2*c600,
+        c222 + 6*c321 + 3*c330 + 3*c411 + 6*c420 + 6*c510 + 3*c600
     ])
     if all(_ >= 0 for _ in y):
         # Case 3.
@@ -713,7 +714,8 @@ def _sos_struct_sextic_symmetric_schur_split(coeff, real = False):
             CyclicSum(a**2*(a*b+a*c-b**2-c**2)**2)/6,
             CyclicSum(a**2*b*c*(b-c)**2)/2,
             CyclicSum((a*b**2+a*c**2-b**2*c-b*c**2)**2)/6,
-            CyclicProduct((a-b)**2)
+            CyclicProduct((a-b)**2),
+            CyclicProduct(a**2)
         ]
         return sum_y_exprs(y, exprs)
 
-- 
2.43.0


From 2778bea321b9f31370949bb33a09f9e028e94701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 41/51] fix: structural solver gives up on undefined numbers
 instead of raising

---
 triples/core/structsos/solution.py                 | 2 +-
 triples/core/structsos/ternary/nonic.py            | 4 ++--
 triples/core/structsos/ternary/octic_symmetric.py  | 3 +++
 triples/core/structsos/ternary/sextic_symmetric.py | 4 ++--
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/triples/core/structsos/solution.py b/triples/core/structsos/solution.py
index 9858716..10d6918 100644
--- a/triples/core/structsos/solution.py
+++ b/triples/core/structsos/solution.py
@@ -42,7 +42,7 @@ class SolutionStructural(SolutionSimple):
                 if len(arg.free_symbols) == 0:
                     # constants might be sp.Add, etc., e.g. 1+sqrt(2)
                     # however, using .is_constant() is very slow
-                    if arg < 0:
+                    if arg is S.NaN or arg.is_finite is False or arg < 0:
                         raise _rewriting_exception
                 elif isinstance(arg, sp.Symbol):
                     return func(arg)
diff --git a/triples/core/structsos/ternary/nonic.py b/triples/core/structsos/ternary/nonic.py
index c2911c3..2453a04 100644
--- a/triples/core/structsos/ternary/nonic.py
+++ b/triples/core/structsos/ternary/nonic.py
@@ -419,7 +419,7 @@ def _sos_struct_nonic_gear(coeff):
         # linear combination of vertex 1 and 2
 
         def _check_valid_weight(vertex1, vertex2, w):
-            if w is sp.nan or (not 0 <= w <= 1):
+            if (not w.is_finite) or (not 0 <= w <= 1):
                 return False
             # w * vertex1 + (1 - w) * vertex2
             c41_, c33_, c32_ = [w*vertex1[1][i] + (1-w)*vertex2[1][i] for i in range(3)]
@@ -430,7 +430,7 @@ def _sos_struct_nonic_gear(coeff):
             return False
 
         def _search_valid_weight(vertex1, vertex2):
-            if vertex1[0][-1] is sp.nan or vertex2[0][-1] is sp.nan:
+            if not (vertex1[0][-1].is_finite and vertex2[0][-1].is_finite):
                 return None
             x1, y1, z1 = vertex1[1]
             x2, y2, z2 = vertex2[1]
diff --git a/triples/core/structsos/ternary/octic_symmetric.py b/triples/core/structsos/ternary/octic_symmetric.py
index e042a72..7148622 100644
--- a/triples/core/structsos/ternary/octic_symmetric.py
+++ b/triples/core/structsos/ternary/octic_symmetric.py
@@ -366,6 +366,9 @@ def _sos_struct_octic_symmetric_hexagon_sdp(coeff):
 
 
         def _strict_psd():
+            if 2*c620 - c611 == 0:
+                return None
+
             _func_z_sym = [
                 (2*c530*w1 + 4*c611*w1 + 8*c620*w1 + 2*w1**2 + 3*w5)/(2*(c611 + 2*c620)),
                 w1*(c530 - c611 - 2*c620 + w1)/(c611 + 2*c620),
diff --git a/triples/core/structsos/ternary/sextic_symmetric.py b/triples/core/structsos/ternary/sextic_symmetric.py
index 61c5255..1183fe9 100644
--- a/triples/core/structsos/ternary/sextic_symmetric.py
+++ b/triples/core/structsos/ternary/sextic_symmetric.py
@@ -140,7 +140,7 @@ def _sos_struct_sextic_hexagon_symmetric_sdp(coeff):
         return M00, M01, M02
 
     def _is_valid(u):
-        if u == 0 or u == -2:
+        if u is None or u == 0 or u == -2:
             return False
         M00, M01, M02 = _compute_quad_form(u)
         return M00 >= abs(M01) and l22*(M00 + M01) - 2*M02**2 >= 0 and -(c330 - c411)*(u*(u + 2)) > 0
@@ -624,7 +624,7 @@ def _sos_struct_sextic_tree(coeff):
         # with t = -(3u + v) / (v + 6)
         # note: (2, -6) is the singular node of the strophoid
         t = radsimp(-(3*u + v) / (v + 6))
-        if -1 <= t:
+        if -1 <= t and u + v + 4 != 0:
             # x = t**3 - 3*t
             w1 = radsimp((27*u**2 + 27*u*v + 54*u + v**3 + 18*v**2 + 54*v)/(27*(u - 2)*(u + v + 4)))
             w2 = 1 - w1
-- 
2.43.0


From d5617ea8d7dcfe2e5ede5cea20154322da50b0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 42/51] fix: structural solver gives up when no rational or
 numerical root is found

---
 triples/core/structsos/pivoting/univariate.py | 7 +++++--
 triples/core/structsos/ternary/cubic.py       | 2 ++
 triples/core/structsos/ternary/quartic.py     | 4 +++-
 triples/core/structsos/ternary/quintic.py     | 5 ++++-
 triples/core/structsos/ternary/septic.py      | 4 +++-
 triples/core/structsos/ternary/sextic.py      | 7 ++++++-
 6 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/triples/core/structsos/pivoting/univariate.py b/triples/core/structsos/pivoting/univariate.py
index 36ebc8c..b3d1389 100644
--- a/triples/core/structsos/pivoting/univariate.py
+++ b/triples/core/structsos/pivoting/univariate.py
@@ -5,7 +5,7 @@ import sympy as sp
 
 from ..utils import radsimp
 from ....sdp import congruence as _congruence
-from ....utils.roots.rationalize import sympy_nroots
+from ....utils.roots.rationalize import sympy_nroots, NoConvergence
 
 def congruence(M: sp.Matrix) -> Optional[Tuple[sp.Matrix, sp.Matrix]]:
     """
@@ -213,7 +213,10 @@ def _construct_matrix_from_roots(
             if minor == 1:
                 coeffs.pop()
             poly = sp.Poly(coeffs, x)
-            roots = sp.polys.roots(poly)
+            try:
+                roots = sp.polys.roots(poly)
+            except NoConvergence:
+                roots = sympy_nroots(poly)
             _, complex_roots_extra = _classify_roots(roots)
             M = _construct_matrix_from_roots([], 
                 complex_roots_extra + complex_roots,
diff --git a/triples/core/structsos/ternary/cubic.py b/triples/core/structsos/ternary/cubic.py
index 0a5ad28..4ab87b5 100644
--- a/triples/core/structsos/ternary/cubic.py
+++ b/triples/core/structsos/ternary/cubic.py
@@ -180,6 +180,8 @@ def _sos_struct_cubic_nontrivial(coeff):
         return False
 
     u = rationalize_func(equ, _check_valid)
+    if u is None:
+        return None
 
     t, p_, n_, q_ = _compute_params(u)
     # print(u, t, 3*(1+n_)**2 - (p_**2+p_*q_+q_**2))
diff --git a/triples/core/structsos/ternary/quartic.py b/triples/core/structsos/ternary/quartic.py
index 1c41bae..00fa5e4 100644
--- a/triples/core/structsos/ternary/quartic.py
+++ b/triples/core/structsos/ternary/quartic.py
@@ -480,7 +480,7 @@ def _sos_struct_quartic_uncentered(coeff):
                     extrema.append((eqn(root.n(16)), root.n(16)))
         
         try:
-            for root in sp.polys.nroots(eqx):
+            for root in sympy_nroots(eqx):
                 if root.is_real and root > 0:
                     if any(abs(_[1] - root) < 1e-13 for _ in extrema):
                         # already found
@@ -488,6 +488,8 @@ def _sos_struct_quartic_uncentered(coeff):
                     extrema.append((eqn(root), root))
         except Exception: pass
 
+        if len(extrema) == 0: # no numerical roots available
+            return None
         n_, _ = max(extrema)
 
     # then we compute x such that
diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index b2997b3..0cfb789 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -1043,7 +1043,10 @@ def _sos_struct_quintic_windmill(coeff):
             r = -y_ / 2
             eq = ((v**3 - 3*v**2 + 7*v - 13) + 4*(v+1) / r).as_poly(v)
             # we can see that eq is strictly increasing and has a real root > -1
-            v_ = nroots(eq, method='factor', real=True)[0]
+            v_ = nroots(eq, method='factor', real=True)
+            if len(v_) == 0: # no numerical roots available
+                return None
+            v_ = v_[0]
             
             # the true g is given by
             # g = b*(a*a + (1-r)*a*b - r*b*b + 2*(r-1)*a*c) + z0*a*c*(r*a - c - (r-1)*b) + b*c*(z1*b+z2*c-(z1+z2)*a)
diff --git a/triples/core/structsos/ternary/septic.py b/triples/core/structsos/ternary/septic.py
index 2d292d4..89c3ce1 100644
--- a/triples/core/structsos/ternary/septic.py
+++ b/triples/core/structsos/ternary/septic.py
@@ -395,7 +395,9 @@ def _sos_struct_septic_hexagon(coeff):
                     break
 
         if isinstance(z, sp.Symbol):
-            z = min(nroots(det, method = 'factor', real = True))
+            z = min(nroots(det, method = 'factor', real = True), default = None)
+            if z is None: # no numerical roots available
+                return None
 
         # check whether we succeed if we subtract s(ab)s(a^4b + pa^3b^2 + qa^2b^3 + ab^4 + za^3bc - (p+q+z+2)a^2b^2c)
         # Theorem 2.
diff --git a/triples/core/structsos/ternary/sextic.py b/triples/core/structsos/ternary/sextic.py
index 52115cc..a65c47f 100644
--- a/triples/core/structsos/ternary/sextic.py
+++ b/triples/core/structsos/ternary/sextic.py
@@ -850,7 +850,10 @@ def _sos_struct_sextic_full_sdp(coeff):
     # ]
     
     def _compute_quad_form_sol(quad_form):
-        q, ss = congruence(quad_form)
+        res = congruence(quad_form)
+        if res is None: # not positive semidefinite
+            return None
+        q, ss = res
         quad_form_sol = [
             (q[0,0]*(a**3-a*b*c)+q[0,1]*(a**2*b-a*b*c)+q[0,2]*(a*b**2-a*b*c)),
             (q[1,1]*(a**2*b-a*b*c)+q[1,2]*(a*b**2-a*b*c)),
@@ -960,6 +963,8 @@ def _sos_struct_sextic_full_sdp(coeff):
     quad_form = ((quad_form + quad_form.T) - sp.diag(*quad_form.diagonal())) / z_
 
     quad_form_sol = _compute_quad_form_sol(quad_form)
+    if quad_form_sol is None:
+        return None
 
     u_, v_ = u.subs({x:x_, y:y_}), v.subs({x:x_, y:y_})
     main_sol = CyclicSum((a**3 + a**2*b*u_ + a**2*c*y_ + a*b**2*x_ + a*c**2*(-u_ - v_) - b**3 + b**2*c*v_ + b*c**2*(-x_ - y_)).together()**2)
-- 
2.43.0


From ebfa4036c1a85e8119550e862ee43857218abc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:02 +0000
Subject: [PATCH 43/51] fix: indented_print restores print when its block
 raises

---
 triples/sdp/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/utils.py b/triples/sdp/utils.py
index 52dc1b8..a15c635 100644
--- a/triples/sdp/utils.py
+++ b/triples/sdp/utils.py
@@ -557,5 +557,7 @@ def indented_print(indent = 4, indent_fill = ' ', verbose = True):
         old_print(*args, **kwargs)
 
     builtins.print = new_print
-    yield
-    builtins.print = old_print
\ No newline at end of file
+    try:
+        yield
+    finally:
+        builtins.print = old_print
\ No newline at end of file
-- 
2.43.0


From b1ebcce5abc2ffb38aa135f1cd172f77ad208f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:47 +0000
Subject: [PATCH 44/51] fix: sparse AM-GM does not count a single power sum
 twice

---
 triples/core/structsos/ternary/sparse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/core/structsos/ternary/sparse.py b/triples/core/structsos/ternary/sparse.py
index 5a6ee2b..3745d6f 100644
--- a/triples/core/structsos/ternary/sparse.py
+++ b/triples/core/structsos/ternary/sparse.py
@@ -405,6 +405,9 @@ def _sos_struct_sparse_amgm(coeff):
     monoms = list(monoms)
     if len(monoms) == 1:
         degree = coeff.degree()
+        v, m = coeff((degree, 0, 0)), monoms[0]
+        if tuple(m) == (degree, 0, 0): # do not count it twice
+            return v * CyclicSum(sp.Symbol('a')**degree) if v >= 0 else None
         monoms.append(CoeffMonom(degree, 0, 0))
 
     def getv(m):
-- 
2.43.0


From 7b0b4517ada7b7ffbe922e80de3bc1271f28629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 45/51] fix: RootTernary.from_uv orders complex roots by
 evaluated distances

---
 triples/utils/roots/roots.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/triples/utils/roots/roots.py b/triples/utils/roots/roots.py
index 671b6cc..a506fe3 100644
--- a/triples/utils/roots/roots.py
+++ b/triples/utils/roots/roots.py
@@ -394,7 +394,9 @@ class TernaryMixin():
             a, b, c = sympy_nroots(poly)
         root = cls((a, b, c))
         u_, v_ = root.uv()
-        if abs(u_ - u) + abs(v_ - v) > abs(v_ - u) + abs(u_ - v):
+        # evaluate, as u_, v_ are complex when the roots are not precise
+        dist = lambda x, y: abs(complex(x - y))
+        if dist(u_, u) + dist(v_, v) > dist(v_, u) + dist(u_, v):
             a, b, c = c, b, a
             root = cls((a, b, c))
         if not issubclass(root.__class__, RootAlgebraic):
-- 
2.43.0


From 8b5cdc18728ab1c6ca024be6598e0c9dc5f7235c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:33 +0000
Subject: [PATCH 46/51] fix: full quintic solver gives up on degenerate or
 complex numerical systems

---
 triples/core/structsos/ternary/quintic.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index 0cfb789..4f55481 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -447,6 +447,8 @@ def _sos_struct_quintic_full(coeff):
 
         uvroot = RootTernary.from_uv(u_, v_)
         a0, b0, c0 = uvroot.root
+        if not all(_.is_real for _ in (a0, b0, c0)): # the numerical roots are not precise
+            return None
         as_vec = lambda *x: np.array(RootTernary(x).as_vec(3, numer=False)).astype(np.float64).flatten()
         eqs.extend([as_vec(a0,b0,c0), as_vec(b0,c0,a0), as_vec(c0,a0,b0)])
 
@@ -489,7 +491,12 @@ def _sos_struct_quintic_full(coeff):
             for comb in product(range(2), repeat = len(eqs_choices)):
                 # select the combination of signs
                 eqs_ = np.vstack([eqs] + [eqs_choices[i][comb[i]] for i in range(len(eqs_choices))])
-                params_ = np.linalg.solve(eqs_, target)
+                try:
+                    params_ = np.linalg.solve(eqs_, target)
+                except np.linalg.LinAlgError: # the system is degenerated
+                    continue
+                if not np.all(np.isfinite(params_)):
+                    continue
                 mul_ = params_[6]**2 + params_[2]*2 - borderdiff
                 if mul_ >= -1:
                     # we require mul >= -1 and det >= 0 to apply the quartic theorem
-- 
2.43.0


From 2546fd27506440b58871c06e16bf044ecc4090e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:24 +0000
Subject: [PATCH 47/51] fix: the sparse heuristic's decomposition of
 s(a(b^2+c^2)(a^2-b^2)(a^2-c^2)) misses squares

---
 triples/core/structsos/ternary/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/sparse.py b/triples/core/structsos/ternary/sparse.py
index 3745d6f..7ae080a 100644
--- a/triples/core/structsos/ternary/sparse.py
+++ b/triples/core/structsos/ternary/sparse.py
@@ -623,7 +623,7 @@ class Hnmr:
                 else:
                     d = sp.gcd(n, r)
                     RESULT = {
-                        (1, 2): CyclicSum(a) * CyclicProduct((a-b)**2) + CyclicProduct(a) * CyclicSum((a-b)**2),
+                        (1, 2): CyclicSum(a) * CyclicProduct((a-b)**2) + CyclicProduct(a) * CyclicSum((a**2-b**2)**2),
                         (3, 2): CyclicProduct((a-b)**2) * (CyclicSum(a)*CyclicSum(a**2) + CyclicProduct(a+b)) + CyclicProduct(a) * CyclicSum((a**2-b**2)**2*(a+b-c)**2), # (s(a)s(a2)+p(a+b))p(a-b)2+p(a)s((a2-b2)2(a+b-c)2)
                         (5, 2): CyclicProduct((a-b)**2) * (CyclicSum(a)**2*CyclicSum(a**3) + CyclicSum(a*b)*CyclicProduct(a+b)) + CyclicProduct(a) * CyclicSum((a**2-b**2)**2*(a**2+b**2-c**2)**2), # p(a-b)2(s(a3)s(a)2+p(a+b)s(ab))+s((a2-b2)2(a2+b2-c2)2)p(a)
                     }
-- 
2.43.0


From 38e4285896ec5ff7e1c65ef84c7b9a7266e89860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:44 +0000
Subject: [PATCH 48/51] fix: symmetric quintics without a second point on the
 cubic no longer compare NaN

---
 .../core/structsos/ternary/quintic_symmetric.py  | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/triples/core/structsos/ternary/quintic_symmetric.py b/triples/core/structsos/ternary/quintic_symmetric.py
index b3dda5e..2e765d6 100644
--- a/triples/core/structsos/ternary/quintic_symmetric.py
+++ b/triples/core/structsos/ternary/quintic_symmetric.py
@@ -226,8 +226,12 @@ def sos_struct_quintic_symmetric(coeff, real = True):
         # is positive but shall higher degree. Also, dv/dt < 0 when t > (1-2z)/3, so we can 
         # assume the second intersection has t > (1-2z)/3. It is also positive.
 
+        denom = radsimp(-6*u - 3*v + 4*z**2 - 4*z - 5)
+        if denom == 0:
+            # the secant is parallel to the asymptotic line and there is no second point
+            return None
         t1 = (1 - 2*z) / 3
-        t2 = radsimp(-(2*u*z - u + v*z + 4*v + 2*z - 1)/(-6*u - 3*v + 4*z**2 - 4*z - 5))
+        t2 = radsimp(-(2*u*z - u + v*z + 4*v + 2*z - 1)/denom)
         y1 = radsimp(-t1**2*(2*t1 + 2*z - 1))
         y2 = radsimp(-t2**2*(2*t2 + 2*z - 1))
 
@@ -327,8 +331,11 @@ def sos_struct_quintic_symmetric(coeff, real = True):
 
                 return sum_y_exprs(y, exprs) / multiplier
 
+        denom = radsimp(-6*u - 3*v + 4*z**2 - 4*z - 5)
+        if denom == 0:
+            return None
         t1 = -z
-        t2 = radsimp(-(2*u*z - u + v*z + 4*v + 2*z - 1)/(-6*u - 3*v + 4*z**2 - 4*z - 5))
+        t2 = radsimp(-(2*u*z - u + v*z + 4*v + 2*z - 1)/denom)
 
         u1 = -z - 1
         u2 = radsimp(t2**3 + t2**2*z - 2*t2**2 - 2*t2*z + t2 - 1)
@@ -340,7 +347,10 @@ def sos_struct_quintic_symmetric(coeff, real = True):
         # w1 + w2 = 1
         # w1u1 + w2u2 + w3u3 = u
         # w1v1 + w2v2 + w3v3 = v
-        w1 = radsimp((u*v3 - u2*v3 - u3*v + u3*v2)/(u1*v3 - u2*v3 - u3*v1 + u3*v2))
+        denom = radsimp(u1*v3 - u2*v3 - u3*v1 + u3*v2)
+        if denom == 0:
+            return None
+        w1 = radsimp((u*v3 - u2*v3 - u3*v + u3*v2)/denom)
         w2 = 1 - w1
         w3 = radsimp(u - w1*u1 - w2*u2)
 
-- 
2.43.0


From 2efe5a7dff3f285edd0aff24d9be13b7fac5adbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:53 +0000
Subject: [PATCH 49/51] fix: send each page request once, and only to a
 connected session

A request made while the socket was still connecting was posted without a
session id, and a socket reconnecting in background posted its old request
again once another socket was open.
---
 static/js/socket.js | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/static/js/socket.js b/static/js/socket.js
index 0421b37..28857e9 100644
--- a/static/js/socket.js
+++ b/static/js/socket.js
@@ -3,25 +3,35 @@ let socket_connecting = false;
 function connectSocket(callback){
     if (socket !== null){
         if (typeof callback === 'function') {
-            callback();
+            if (socket.connected){
+                callback();
+            }else{ // wait for the session id if it is still connecting
+                socket.once('connect', callback);
+            }
         }
         return;
     }
-    socket = io(host, {reconnectionAttempts: 3});
+    const cur_socket = io(host, {reconnectionAttempts: 3});
+    socket = cur_socket;
     // socket.connect(host);
     socket.on('connect_error', function(){
-        socket = null;
-        changeNumOfSOS(0);
-    });
-    socket.on('connect', ()=>{
-        if (typeof callback === 'function') {
-            callback();
+        // do not reconnect in background: the next request opens a new socket
+        cur_socket.close();
+        if (socket === cur_socket){
+            socket = null;
+            changeNumOfSOS(0);
         }
     });
+    if (typeof callback === 'function') {
+        socket.once('connect', callback);
+    }
     socket.on('disconnect', function(){
-        socket = null;
-        sos_poly = '';
-        changeNumOfSOS(0);
+        cur_socket.close();
+        if (socket === cur_socket){
+            socket = null;
+            sos_poly = '';
+            changeNumOfSOS(0);
+        }
     });
 
     socket.on('preprocess', function(data){
-- 
2.43.0


From 319c93c7f870c2e549b438a356ed8dd4c01a0f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:53 +0000
Subject: [PATCH 50/51] fix: do not count refused or failed requests as solves
 in progress

The page counted a solve for an empty or non-ASCII input that is never sent,
and kept counting one whose request the server refused or failed to process.
---
 triples.html | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/triples.html b/triples.html
index 0b0f93f..3cbf610 100644
--- a/triples.html
+++ b/triples.html
@@ -455,6 +455,9 @@ style="width: 100%;height: 100%;max-width: 1280px;max-height: 720px;position: ab
 
         let actions = parse_undefined(kwargs.actions, ['findroot']);
         kwargs.actions = actions
+        if (actions.includes('sos')){
+            changeNumOfSOS(sos_work.num + 1);
+        }
         kwargs.standardize_text  = parse_undefined(kwargs.standardize_text, false);
         
         // update the cur_data to kwargs
@@ -471,6 +474,10 @@ style="width: 100%;height: 100%;max-width: 1280px;max-height: 720px;position: ab
             axios.post(host + '/process/preprocess', kwargs
             ).then(res => {
                 if (Object.keys(res.data).length === 0){
+                    // the server refuses the request: no sos event will come
+                    if (actions.includes('sos')){
+                        changeNumOfSOS(sos_work.num - 1);
+                    }
                     return;
                 }
                 res.data.gens = kwargs.gens;
@@ -481,6 +488,8 @@ style="width: 100%;height: 100%;max-width: 1280px;max-height: 720px;position: ab
                 // console.log(axios.isAxiosError(error), error.message);
                 if (axios.isAxiosError(error) && (error.message === 'Network Error')) {
                     changeNumOfSOS(0);
+                }else if (axios.isAxiosError(error) && actions.includes('sos')){
+                    changeNumOfSOS(sos_work.num - 1);
                 }
             });
         });
@@ -489,7 +498,6 @@ style="width: 100%;height: 100%;max-width: 1280px;max-height: 720px;position: ab
     
     function SumOfSquare(){
         document.getElementById("sumofsquare").blur();
-        changeNumOfSOS(sos_work.num + 1);
 
         const input_poly = document.getElementById('input_poly').value;
         const tangents = document.getElementById('input_tangents').value;
-- 
2.43.0


From d306addf0b201a635ec3fb72cd3edee094246555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:53 +0000
Subject: [PATCH 51/51] fix: give each history record of the page its own
 timestamp

When the system clock was set back, two records could share a timestamp and
the answers of one were filed under the other.
---
 triples.html | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/triples.html b/triples.html
index 3cbf610..a147844 100644
--- a/triples.html
+++ b/triples.html
@@ -443,6 +443,10 @@ style="width: 100%;height: 100%;max-width: 1280px;max-height: 720px;position: ab
         if ((!isSameHistoryRecord(cur_data))||(kwargs.homogenize===true)||(kwargs.dehomogenize!==undefined)){
             // when there is homogenization / dehomogenization, the poly might change and we make a copy
             cur_data.timestamp = Date.now();
+            if (history_data.length > 0){
+                // unique even if the clock is adjusted
+                cur_data.timestamp = Math.max(cur_data.timestamp, history_data[0].timestamp + 1);
+            }
             // push to front
             history_data.unshift(cur_data);
             if (history_data.length > 100){
-- 
2.43.0

