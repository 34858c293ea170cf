From 72b494a5c5a8792839be258b0c0e70433adc492b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:20 +0000
Subject: [PATCH 01/34] fix: scale parameter adjoint and quadrature rates when
 normalizing time

---
 beluga/symbolic/data_classes/mapping_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 2887a2b..1675626 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -698,7 +698,7 @@ class NormalizeTime(GenericFunctor):
                                         local_compiler=prob.local_compiler).sympify_self()
         prob.parameters.append(delta_t)
 
-        _dynamic_structs = [prob.states, prob.costates]
+        _dynamic_structs = [prob.states, prob.costates, prob.coparameters, prob.quads]
 
         for state in combine_component_lists(_dynamic_structs):
             state.eom = state.eom * delta_t.sym
-- 
2.43.0


From e9db30b04d07f6ad0f56ab7ca4fe36ca25b55630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:20 +0000
Subject: [PATCH 02/34] fix: derive costate and parameter adjoint rates with
 the diffyg method when the problem has parameters

---
 beluga/symbolic/data_classes/mapping_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 1675626..7febe20 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -355,13 +355,15 @@ class Dualize(GenericFunctor):
             for state, costate in zip(prob.states + prob.parameters, prob.costates + prob.coparameters):
                 costate.eom = -prob.hamiltonian.expr.diff(state.sym)
         elif self.method.lower() == 'diffyg':
-            state_syms = extract_syms(prob.states + prob.parameters)
-            costate_syms = extract_syms(prob.costates + prob.coparameters)
+            state_syms = extract_syms(prob.states)
+            costate_syms = extract_syms(prob.costates)
             omega = make_standard_symplectic_form(state_syms, costate_syms)
             chi_h = make_hamiltonian_vector_field(prob.hamiltonian.expr, omega, state_syms + costate_syms)
             costate_rates = chi_h[-len(prob.states):]
             for costate, rate in zip(prob.costates, costate_rates):
                 costate.eom = rate
+            for parameter, coparameter in zip(prob.parameters, prob.coparameters):
+                coparameter.eom = -prob.hamiltonian.expr.diff(parameter.sym)
             prob.omega = omega
 
             for idx, symmetry in enumerate(prob.symmetries):
-- 
2.43.0


From d40c1d6e5d57300db98b8fd1cdc21d0a144139d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:36 +0000
Subject: [PATCH 03/34] fix: carry parameter adjoints through the solution map
 of the squashed problem

---
 beluga/numeric/data_classes/trajectory_mappers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index ec8be83..0a634b4 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -356,11 +356,18 @@ class SquashToBVPMapper(SolMapper):
         if len(sol.dual) > 0:
             sol.y = np.concatenate((sol.y, sol.dual), axis=1)
 
+        n_coparameters = self.coparameter_idxs.stop - self.coparameter_idxs.start
+        if n_coparameters > 0 and np.shape(sol.q)[-1] == self.coparameter_idxs.start:
+            coparameters = np.zeros((len(sol.t), n_coparameters))
+            sol.q = np.hstack((sol.q, coparameters)) if np.size(sol.q) > 0 else coparameters
+
         return sol
 
     def inv_map(self, sol: Solution) -> Solution:
         sol.dual = sol.y[:, self.costate_idxs]
         sol.y = np.delete(sol.y, self.costate_idxs, axis=1)
+        if np.size(sol.q) > 0:
+            sol.q = np.delete(sol.q, self.coparameter_idxs, axis=1)
         sol.nondynamical_parameters = np.delete(sol.nondynamical_parameters, self.constraint_adjoints_idxs)
 
         return sol
-- 
2.43.0


From c893d8be32aff91070d61e70c7a2809a3912b24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:42 +0000
Subject: [PATCH 04/34] fix: detect the time symmetry only when time is absent
 from cost, path constraints and switches too

---
 beluga/symbolic/data_classes/mapping_functions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 7febe20..2846d27 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -166,9 +166,14 @@ class MomentumShift(GenericFunctor):
         for symmetry in prob.symmetries:
             symmetry.field = np.append(symmetry.field, sympy.Integer(0))
 
+        # The problem is symmetric in time only if time appears nowhere along the path
+        path_exprs = [state.eom for state in prob.states] + [prob.cost.path] + [s.sym_func for s in prob.switches]
+        for constraint in prob.constraints['path']:
+            path_exprs += [constraint.expr, constraint.lower, constraint.upper]
+
         independent_symmetry = True
-        for state in prob.states:
-            if state.eom.diff(new_state.sym) != 0:
+        for expr in path_exprs:
+            if expr is not None and expr.diff(new_state.sym) != 0:
                 independent_symmetry = False
 
         if independent_symmetry:
-- 
2.43.0


From 175881bb6373267c9c33020a0ec26fbb1641121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:58 +0000
Subject: [PATCH 05/34] fix: reduce the algebraic control law and Hamiltonian
 along with the equations of motion

---
 beluga/symbolic/data_classes/mapping_functions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 2846d27..c092739 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -603,12 +603,13 @@ class MishchenkoFomenko(GenericFunctor):
             bc.expr, _ = recursive_sub(bc.expr, solve_for_p[0])
             bc.expr, _ = recursive_sub(bc.expr, solve_for_q[0])
 
-        for idx, law in enumerate(prob.control_law):
-            for jj, symbol in enumerate(law.keys()):
-                prob.control_law[idx][symbol], _ = recursive_sub(prob.sympify(law[symbol]), solve_for_p[0])
-                # prob.control_law[idx][symbol] = law[symbol]
-                prob.control_law[idx][symbol], _ = recursive_sub(prob.sympify(law[symbol]), solve_for_q[0])
-                # prob.control_law[idx][symbol] = law[symbol]
+        def reduce_expr(expr):
+            expr, _ = recursive_sub(prob.sympify(expr), solve_for_p[0])
+            expr, _ = recursive_sub(expr, solve_for_q[0])
+            return expr
+
+        prob.control_law = [tuple(reduce_expr(expr) for expr in law) for law in prob.control_law]
+        prob.hamiltonian.expr = reduce_expr(prob.hamiltonian.expr)
 
         for idx, com in enumerate(prob.constants_of_motion):
             if idx != self.com_index:
-- 
2.43.0


From 11c5d87717ae6e56026a52227a9af61bc2c1808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:08 +0000
Subject: [PATCH 06/34] fix: insert control costates at the control positions
 when mapping with the diffyg method

---
 beluga/numeric/data_classes/trajectory_mappers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index 0a634b4..642422b 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -251,6 +251,7 @@ class DifferentialControlMapperDiffyG(SolMapper):
 
     def map(self, sol: Solution, control_costate: Union[float, np.ndarray] = 0.) -> Solution:
         idx_u_list = []
+        dual_u = []
 
         for idx_u, (idx_y, u) in enumerate(sorted(zip(self.control_idxs, sol.u.T))):
             sol.y = np.insert(sol.y, idx_y, u, axis=1)
@@ -262,14 +263,12 @@ class DifferentialControlMapperDiffyG(SolMapper):
             else:
                 costate_insert = control_costate * np.ones_like(sol.t)
 
-            sol.dual = np.insert(sol.dual, -1, costate_insert, axis=1)
-            if len(sol.dual_u) == 0:
-                sol.dual_u = np.array([costate_insert])
-            else:
-                sol.dual_u = np.insert(sol.dual_u, -1, costate_insert, axis=1)
+            sol.dual = np.insert(sol.dual, idx_y, costate_insert, axis=1)
+            dual_u.append(costate_insert)
 
             idx_u_list.append(idx_u)
 
+        sol.dual_u = np.array(dual_u).T
         sol.u = np.delete(sol.u, idx_u_list, axis=1)
         return sol
 
-- 
2.43.0


From 8fd418884aacbbc871582741eb9b0eaa629138dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:30 +0000
Subject: [PATCH 07/34] fix: give constants of motion from symmetries units of
 cost over symmetry so scaling is consistent

---
 beluga/symbolic/differential_geometry/differential_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/differential_geometry/differential_geometry.py b/beluga/symbolic/differential_geometry/differential_geometry.py
index 72b5fc2..1339157 100644
--- a/beluga/symbolic/differential_geometry/differential_geometry.py
+++ b/beluga/symbolic/differential_geometry/differential_geometry.py
@@ -188,7 +188,7 @@ def noether(prob, quantity):
         for jj, state in enumerate(prob.states + prob.costates):
             gstar += sympy.integrate(omega_chi[jj], state.sym)
 
-        unit = prob.constants_of_motion[0].units / quantity.units
+        unit = prob.cost.units / quantity.units
 
         return gstar, unit
 
-- 
2.43.0


From 7dcae3c6dc2ff80d697f7be7a995ff069a921b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:29 +0000
Subject: [PATCH 08/34] fix: leave the trajectory given to map_sol and
 inv_map_sol unchanged

---
 beluga/symbolic/data_classes/symbolic_problem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beluga/symbolic/data_classes/symbolic_problem.py b/beluga/symbolic/data_classes/symbolic_problem.py
index 08bedbd..9d3d5d6 100644
--- a/beluga/symbolic/data_classes/symbolic_problem.py
+++ b/beluga/symbolic/data_classes/symbolic_problem.py
@@ -1,4 +1,5 @@
 from typing import Iterable, Union
+import copy
 import logging
 
 from beluga.numeric.compilation import LocalCompiler
@@ -321,6 +322,7 @@ class Problem:
             raise RuntimeWarning('\"{}\" already used. Variable not added'.format(name))
 
     def map_sol(self, sol, inverse=False):
+        sol = copy.deepcopy(sol)  # The mappers work in place
         if inverse:
             for sol_map in reversed(self.sol_map_chain):
                 sol = sol_map.inv_map(sol)
-- 
2.43.0


From 100bd63e843165b40399b76b2875e9a57f3afc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:05 +0000
Subject: [PATCH 09/34] fix: map trajectories without quadratures into reduced
 problems

---
 beluga/numeric/data_classes/trajectory_mappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index 642422b..ae4e15d 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -309,7 +309,7 @@ class MF(SolMapper):
         elif self.remove_symmetry_dict['location'] == 'costates':
             sol.dual = np.delete(sol.dual, np.s_[self.remove_symmetry_dict['index']], axis=1)
 
-        sol.q = np.column_stack((sol.q, qval))
+        sol.q = np.column_stack((sol.q, qval)) if np.size(sol.q) > 0 else np.column_stack((qval,))
 
         return sol
 
-- 
2.43.0


From 589a4740204b1cbf4e545673ce7b964ccde9070b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:05 +0000
Subject: [PATCH 10/34] fix: map trajectories without costates when time is
 made a state

---
 beluga/numeric/data_classes/trajectory_mappers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index ae4e15d..cde964f 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -45,7 +45,8 @@ class MomentumShiftMapper(SolMapper):
             sol.dual_t = np.zeros_like(sol.t)
 
         sol.y = np.insert(sol.y, self.ind_state_idx, sol.t, axis=1)
-        sol.dual = np.insert(sol.dual, self.ind_state_idx, sol.dual_t, axis=1)
+        if np.size(sol.dual) > 0:
+            sol.dual = np.insert(sol.dual, self.ind_state_idx, sol.dual_t, axis=1)
 
         return sol
 
@@ -56,8 +57,9 @@ class MomentumShiftMapper(SolMapper):
         sol.t = sol.y[:, self.ind_state_idx]
         sol.y = np.delete(sol.y, self.ind_state_idx, axis=1)
 
-        sol.dual_t = sol.dual[:, self.ind_state_idx]
-        sol.dual = np.delete(sol.dual, self.ind_state_idx, axis=1)
+        if np.size(sol.dual) > 0:
+            sol.dual_t = sol.dual[:, self.ind_state_idx]
+            sol.dual = np.delete(sol.dual, self.ind_state_idx, axis=1)
 
         return sol
 
-- 
2.43.0


From 40a2017920ecb73b2f8134dc3a964b22df431f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:39 +0000
Subject: [PATCH 11/34] fix: resolve switches before control bounds so bounds
 may use them in solution maps

---
 .../data_classes/mapping_functions.py         | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index c092739..38107b6 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -814,6 +814,12 @@ def make_direct_method(prob: Problem, analytical_jacobian=True, reduction=False,
     if do_momentum_shift:
         functor >>= MomentumShift()
 
+    """
+    Deal with staging, switches, and their substitutions.
+    """
+    if len(prob.switches) > 0:
+        functor >>= RASHS()
+
     """
     Deal with inequality constraints
     """
@@ -829,12 +835,6 @@ def make_direct_method(prob: Problem, analytical_jacobian=True, reduction=False,
                 raise NotImplementedError(
                     'Unknown path constraint method \"' + str(constraint.method) + '\"')
 
-    """
-    Deal with staging, switches, and their substitutions.
-    """
-    if len(prob.switches) > 0:
-        functor >>= RASHS()
-
     """
     Scale eom to final time
     """
@@ -875,6 +875,12 @@ def make_indirect_method(prob: Problem, analytical_jacobian=False, control_metho
     if do_momentum_shift:
         RFfunctor >>= MomentumShift()
 
+    """
+    Deal with staging, switches, and their substitutions.
+    """
+    if len(prob.switches) > 0:
+        RFfunctor >>= RASHS()
+
     """
     Deal with inequality constraints
     """
@@ -890,12 +896,6 @@ def make_indirect_method(prob: Problem, analytical_jacobian=False, control_metho
                 raise NotImplementedError(
                     'Unknown path constraint method \"' + str(constraint.method) + '\"')
 
-    """
-    Deal with staging, switches, and their substitutions.
-    """
-    if len(prob.switches) > 0:
-        RFfunctor >>= RASHS()
-
     """
     Dualize Problem
     """
-- 
2.43.0


From 7fe2ac2340d551e9becbdefbcf5957854add78ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:04 +0000
Subject: [PATCH 12/34] fix: call quadrature rates without time in quick
 reconstruction

---
 beluga/numeric/ivp_solvers/ivpsol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/numeric/ivp_solvers/ivpsol.py b/beluga/numeric/ivp_solvers/ivpsol.py
index 4f2ddfa..aa50528 100644
--- a/beluga/numeric/ivp_solvers/ivpsol.py
+++ b/beluga/numeric/ivp_solvers/ivpsol.py
@@ -96,7 +96,7 @@ class Propagator(Algorithm):
 
         if quad_func is not None and len(q0) != 0:
             if self.quick_reconstruct:
-                qf = integrate_quads(quad_func, tspan, gamma, *args)
+                qf = integrate_quads(lambda _t, _y, *_args: quad_func(_y, *_args), tspan, gamma, *args)
                 gamma.q = np.vstack((q0, np.zeros((len(gamma.t)-2, len(q0))), qf+q0))
             else:
                 gamma = reconstruct(quad_func, gamma, q0, *args)
-- 
2.43.0


From f6cd41224ae52e04940311e8fd37ca231b73bf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:10 +0000
Subject: [PATCH 13/34] fix: restore the requested number of cases when a
 subdivided bisection step is reset

---
 beluga/continuation/continuation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index 429d8b7..ec9cf1b 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -176,6 +176,7 @@ class ManualStrategy(ContinuationStrategy):
     def reset(self):
         """Resets the internal step counter to zero"""
         self.ctr = 0
+        self._num_cases = self.orig_num_cases
         self.last_sol = None
 
     def clear(self):
-- 
2.43.0


From 99a1623d2ba581a75ff51aca6190ed7e1dc396bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:10 +0000
Subject: [PATCH 14/34] fix: start product steps afresh when a step object is
 used again

---
 beluga/continuation/continuation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index ec9cf1b..9fb95fc 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -347,6 +347,7 @@ class ProductStrategy(ContinuationStrategy):
         for var_name in self.vars.keys():
             jj = getattr_from_list(bvp.constants, 'name').index(var_name)
             self.vars[var_name].value = sol.const[jj]
+            self.vars[var_name].steps = []
 
         ls_set = [np.linspace(self.vars[var_name].value, self.vars[var_name].target,
                               self._num_subdivisions) for var_name in self.vars.keys()]
@@ -438,6 +439,7 @@ class SparseProductStrategy(ContinuationStrategy):
         for var_name in self.vars.keys():
             jj = getattr_from_list(bvp.constants, 'name').index(var_name)
             self.vars[var_name].value = sol.const[jj]
+            self.vars[var_name].steps = []
             lower_bounds.append(sol.const[jj])
             upper_bounds.append(self.vars[var_name].target)
 
-- 
2.43.0


From f224675871f1fb3d48b605a625387dbc10d67468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:41 +0000
Subject: [PATCH 15/34] fix: propagate shooting arcs through a process pool
 with the derivative's own arguments

---
 beluga/numeric/bvp_solvers/Shooting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/Shooting.py b/beluga/numeric/bvp_solvers/Shooting.py
index 2d1eb2b..888ed76 100644
--- a/beluga/numeric/bvp_solvers/Shooting.py
+++ b/beluga/numeric/bvp_solvers/Shooting.py
@@ -284,13 +284,13 @@ class Shooting(BaseAlgorithm):
             u0g[ii] = _u0g
 
         def preload(args):
-            return prop(pickle.loads(derivative_function), pickle.loads(quadrature_function), args[0], args[1], args[2], args[3],
+            return prop(pickle.loads(derivative_function), pickle.loads(quadrature_function), args[0], args[1], args[2],
                         dyn_param, sol.const)
 
         if pool is not None:
-            gamma_set_new = pool.map(preload, zip(tspan, y0g, q0g, u0g))
+            gamma_set_new = pool.map(preload, zip(tspan, y0g, q0g))
         else:
-            gamma_set_new = [preload([T, Y, Q, U]) for T, Y, Q, U in zip(tspan, y0g, q0g, u0g)]
+            gamma_set_new = [preload([T, Y, Q]) for T, Y, Q in zip(tspan, y0g, q0g)]
 
         if n_arcs > 1 and nquads > 0:
             for ii in range(n_arcs - 1):
-- 
2.43.0


From dbbdc2a1853afb09b6c96275c28791113601f30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:41 +0000
Subject: [PATCH 16/34] fix: judge shooting with scipy root algorithms by the
 norm of the residual

---
 beluga/numeric/bvp_solvers/Shooting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/Shooting.py b/beluga/numeric/bvp_solvers/Shooting.py
index 888ed76..b7ff71a 100644
--- a/beluga/numeric/bvp_solvers/Shooting.py
+++ b/beluga/numeric/bvp_solvers/Shooting.py
@@ -688,10 +688,10 @@ class Shooting(BaseAlgorithm):
         elif self.algorithm in scipy_root_algorithms:
             opt = root(_constraint_function_wrapper, x_init, jac=_jacobian_function_wrapper, method=self.algorithm,
                        tol=self.tolerance, options={'maxiter': self.max_iterations})
-            err = opt.fun
+            err = np.linalg.norm(opt.fun)
             x_init = opt.x
             n_iter = -1
-            converged = opt.success
+            converged = opt.success and isclose(err, 0, abs_tol=self.tolerance)
 
         elif self.algorithm.lower() == 'fsolve':
             x = fsolve(_constraint_function_wrapper, x_init, fprime=_jacobian_function_wrapper, xtol=self.tolerance)
-- 
2.43.0


From 85a732fba3121bd46706358f7279c8906e7c3e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:41 +0000
Subject: [PATCH 17/34] fix: judge shooting with fsolve by the residual of its
 answer, not of the guess

---
 beluga/numeric/bvp_solvers/Shooting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/numeric/bvp_solvers/Shooting.py b/beluga/numeric/bvp_solvers/Shooting.py
index b7ff71a..4bdd25e 100644
--- a/beluga/numeric/bvp_solvers/Shooting.py
+++ b/beluga/numeric/bvp_solvers/Shooting.py
@@ -695,7 +695,7 @@ class Shooting(BaseAlgorithm):
 
         elif self.algorithm.lower() == 'fsolve':
             x = fsolve(_constraint_function_wrapper, x_init, fprime=_jacobian_function_wrapper, xtol=self.tolerance)
-            err = np.linalg.norm(_constraint_function_wrapper(x_init))**2
+            err = np.linalg.norm(_constraint_function_wrapper(x))**2
             x_init = x
             n_iter = -1
             converged = isclose(err, 0, abs_tol=self.tolerance)
-- 
2.43.0


From c950908b859ee8770dcec938794d68791f17f805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:16 +0000
Subject: [PATCH 18/34] fix: form analytical Jacobians of problems without
 parameters or constraints at one end

---
 .../data_classes/mapping_functions.py         | 40 ++++++++++---------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 38107b6..be87b40 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -742,26 +742,30 @@ class ComputeAnalyticalJacobians(GenericFunctor):
 
     def transformation(self, prob: Problem) -> Problem:
 
-        states = sympy.Matrix(extract_syms(prob.states))
-        dynamic_parameters = sympy.Matrix(extract_syms(prob.parameters))
-        parameters = sympy.Matrix(extract_syms(prob.parameters) + extract_syms(prob.constraint_parameters))
-        quads = sympy.Matrix(extract_syms(prob.quads))
-        eom = sympy.Matrix(getattr_from_list(prob.states, 'eom'))
-        phi_0 = sympy.Matrix(getattr_from_list(prob.constraints['initial'], 'expr'))
-        phi_f = sympy.Matrix(getattr_from_list(prob.constraints['terminal'], 'expr'))
-
-        prob.func_jac['df_dy'] = eom.jacobian(states)
-        prob.bc_jac['initial']['dbc_dy'] = phi_0.jacobian(states)
-        prob.bc_jac['terminal']['dbc_dy'] = phi_f.jacobian(states)
-
-        if len(parameters) > 0:
-            prob.func_jac.update({'df_dp': eom.jacobian(dynamic_parameters)})
-            prob.bc_jac['initial']['dbc_dp'] = phi_0.jacobian(parameters)
-            prob.bc_jac['terminal']['dbc_dp'] = phi_f.jacobian(parameters)
+        def jacobian(exprs, syms):
+            if len(exprs) == 0 or len(syms) == 0:
+                return sympy.zeros(len(exprs), len(syms))
+            return sympy.Matrix(exprs).jacobian(syms)
+
+        states = extract_syms(prob.states)
+        dynamic_parameters = extract_syms(prob.parameters)
+        parameters = extract_syms(prob.parameters) + extract_syms(prob.constraint_parameters)
+        quads = extract_syms(prob.quads)
+        eom = getattr_from_list(prob.states, 'eom')
+        phi_0 = getattr_from_list(prob.constraints['initial'], 'expr')
+        phi_f = getattr_from_list(prob.constraints['terminal'], 'expr')
+
+        prob.func_jac['df_dy'] = jacobian(eom, states)
+        prob.bc_jac['initial']['dbc_dy'] = jacobian(phi_0, states)
+        prob.bc_jac['terminal']['dbc_dy'] = jacobian(phi_f, states)
+
+        prob.func_jac.update({'df_dp': jacobian(eom, dynamic_parameters)})
+        prob.bc_jac['initial']['dbc_dp'] = jacobian(phi_0, parameters)
+        prob.bc_jac['terminal']['dbc_dp'] = jacobian(phi_f, parameters)
 
         if len(quads) > 0:
-            prob.bc_jac['initial']['dbc_dq'] = phi_0.jacobian(quads)
-            prob.bc_jac['terminal']['dbc_dq'] = phi_f.jacobian(quads)
+            prob.bc_jac['initial']['dbc_dq'] = jacobian(phi_0, quads)
+            prob.bc_jac['terminal']['dbc_dq'] = jacobian(phi_f, quads)
 
         return prob
 
-- 
2.43.0


From 7f2d501167f05a6454f7d8a1024643e72c4d4a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:16 +0000
Subject: [PATCH 19/34] fix: give Jacobians of the rates the control argument
 when the rates take one

---
 beluga/numeric/data_classes/NumericProblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/numeric/data_classes/NumericProblem.py b/beluga/numeric/data_classes/NumericProblem.py
index 45c3295..94bd5a7 100644
--- a/beluga/numeric/data_classes/NumericProblem.py
+++ b/beluga/numeric/data_classes/NumericProblem.py
@@ -102,7 +102,7 @@ class NumericProblem:
         self.compile_deriv_func(use_control_arg=use_control_arg)
         self.compile_bc(use_quad_arg=use_quad_arg)
         self.compile_cost(use_quad_arg=use_quad_arg, use_control_arg=use_control_arg)
-        self.compile_deriv_jac_func()
+        self.compile_deriv_jac_func(use_control_arg=use_control_arg)
         self.compile_bc_jac_func(use_quad_arg=use_quad_arg)
         self.compile_scaling()
 
-- 
2.43.0


From 80b3a29c0ce91d6ff76c08a0f331c9b4addaa2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:38 +0000
Subject: [PATCH 20/34] fix: keep the shape of boundary Jacobians when one end
 has no constraints

---
 beluga/numeric/data_classes/NumericProblem.py | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/beluga/numeric/data_classes/NumericProblem.py b/beluga/numeric/data_classes/NumericProblem.py
index 94bd5a7..58e4fed 100644
--- a/beluga/numeric/data_classes/NumericProblem.py
+++ b/beluga/numeric/data_classes/NumericProblem.py
@@ -302,12 +302,12 @@ class NumericProblem:
 
             def bc_func_jac(_y0, _q0, _yf, _qf, _p, _p_con, _k):
                 
-                dbc_dy0 = np.vstack((np.array(calc_dbc_0_dy(_y0, _q0, _p, _p_con, _k)), empty_dbc_f_dy))
-                dbc_dyf = np.vstack((empty_dbc_0_dy, np.array(calc_dbc_f_dy(_yf, _qf, _p, _p_con, _k))))
-                dbc_dp = np.vstack((np.array(calc_dbc_0_dp(_y0, _q0, _p, _p_con, _k)),
-                                    np.array(calc_dbc_f_dp(_yf, _qf, _p, _p_con, _k))))
-                dbc_dq0 = np.vstack((np.array(calc_dbc_0_dq(_y0, _q0, _p, _p_con, _k)), empty_dbc_f_dq))
-                dbc_dqf = np.vstack((empty_dbc_0_dq, np.array(calc_dbc_f_dq(_yf, _qf, _p, _p_con, _k))))
+                dbc_dy0 = np.vstack((np.array(calc_dbc_0_dy(_y0, _q0, _p, _p_con, _k)).reshape((num_bc_0, num_states)), empty_dbc_f_dy))
+                dbc_dyf = np.vstack((empty_dbc_0_dy, np.array(calc_dbc_f_dy(_yf, _qf, _p, _p_con, _k)).reshape((num_bc_f, num_states))))
+                dbc_dp = np.vstack((np.array(calc_dbc_0_dp(_y0, _q0, _p, _p_con, _k)).reshape((num_bc_0, num_parameters)),
+                                    np.array(calc_dbc_f_dp(_yf, _qf, _p, _p_con, _k)).reshape((num_bc_f, num_parameters))))
+                dbc_dq0 = np.vstack((np.array(calc_dbc_0_dq(_y0, _q0, _p, _p_con, _k)).reshape((num_bc_0, num_quads)), empty_dbc_f_dq))
+                dbc_dqf = np.vstack((empty_dbc_0_dq, np.array(calc_dbc_f_dq(_yf, _qf, _p, _p_con, _k)).reshape((num_bc_f, num_quads))))
 
                 return dbc_dy0, dbc_dyf, dbc_dp, dbc_dq0, dbc_dqf
 
@@ -318,10 +318,10 @@ class NumericProblem:
         else:
             def bc_func_jac(_y0, _yf, _p, _p_con, _k):
 
-                dbc_dy0 = np.vstack((np.array(calc_dbc_0_dy(_y0, _p, _p_con, _k)), empty_dbc_f_dy))
-                dbc_dyf = np.vstack((empty_dbc_0_dy, np.array(calc_dbc_f_dy(_yf, _p, _p_con, _k))))
-                dbc_dp = np.vstack((np.array(calc_dbc_0_dp(_y0, _p, _p_con, _k)),
-                                    np.array(calc_dbc_f_dp(_yf, _p, _p_con, _k))))
+                dbc_dy0 = np.vstack((np.array(calc_dbc_0_dy(_y0, _p, _p_con, _k)).reshape((num_bc_0, num_states)), empty_dbc_f_dy))
+                dbc_dyf = np.vstack((empty_dbc_0_dy, np.array(calc_dbc_f_dy(_yf, _p, _p_con, _k)).reshape((num_bc_f, num_states))))
+                dbc_dp = np.vstack((np.array(calc_dbc_0_dp(_y0, _p, _p_con, _k)).reshape((num_bc_0, num_parameters)),
+                                    np.array(calc_dbc_f_dp(_yf, _p, _p_con, _k)).reshape((num_bc_f, num_parameters))))
 
                 return dbc_dy0, dbc_dyf, dbc_dp
 
-- 
2.43.0


From fb6d12053eb85669a16504e30d73a77025bcca7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:38 +0000
Subject: [PATCH 21/34] fix: skip analytical Jacobians for algebraic control
 however the option is capitalised

---
 beluga/symbolic/data_classes/mapping_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index be87b40..100e850 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -942,7 +942,7 @@ def make_indirect_method(prob: Problem, analytical_jacobian=False, control_metho
     Form analytical jacobians
     """
     if analytical_jacobian:
-        if control_method == 'algebraic':
+        if control_method.lower() == 'algebraic':
             logging.info('Analytical Jacobians not available for algebraic control mode')
         else:
             RFfunctor >>= ComputeAnalyticalJacobians()
-- 
2.43.0


From a1a2bb43bcb9b293f9974ac6be955e2120c79546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:38 +0000
Subject: [PATCH 22/34] fix: collocate problems with quadratures and analytical
 Jacobians

---
 beluga/numeric/bvp_solvers/SPBVP.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/SPBVP.py b/beluga/numeric/bvp_solvers/SPBVP.py
index 6a982a3..9ba1cdc 100644
--- a/beluga/numeric/bvp_solvers/SPBVP.py
+++ b/beluga/numeric/bvp_solvers/SPBVP.py
@@ -63,7 +63,8 @@ class SPBVP(BaseAlgorithm):
                                                        yb[nstates:nstates+nquads], params[:ndyn],
                                                        params[ndyn:ndyn+nnondyn], const)
 
-        if self.derivative_function_jac is not None:
+        # Jacobians of the quadrature rates are not available, so they are estimated when there are quadratures
+        if self.derivative_function_jac is not None and nquads == 0:
             def _fun_jac(t, y, params=np.array([]), const=solinit.const):
                 y = y.T
                 df_dy = np.zeros((y[0].size, y[0].size, t.size))
@@ -86,11 +87,11 @@ class SPBVP(BaseAlgorithm):
         if self.boundarycondition_function_jac is not None:
             if nquads > 0:
                 def _bc_jac(ya, yb, params=np.array([]), const=solinit.const):
-                    dbc_dya, dbc_dyb, dbc_dp = \
+                    dbc_dya, dbc_dyb, dbc_dp, dbc_dqa, dbc_dqb = \
                         self.boundarycondition_function_jac(ya[:nstates], ya[nstates:nstates+nquads], yb[:nstates],
                                                             yb[nstates:nstates+nquads], params[:ndyn],
                                                             params[ndyn:ndyn+nnondyn], const)
-                    return dbc_dya, dbc_dyb, dbc_dp
+                    return np.hstack((dbc_dya, dbc_dqa)), np.hstack((dbc_dyb, dbc_dqb)), dbc_dp
             else:
                 def _bc_jac(ya, yb, params=np.array([]), const=solinit.const):
                     dbc_dya, dbc_dyb, dbc_dp = \
-- 
2.43.0


From 65bea4081c1ebdd492819db2e4bf6fc8fa21a1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:44 +0000
Subject: [PATCH 23/34] fix: collocate problems without parameters when
 analytical Jacobians are given

---
 beluga/numeric/bvp_solvers/SPBVP.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/SPBVP.py b/beluga/numeric/bvp_solvers/SPBVP.py
index 9ba1cdc..8e1e50a 100644
--- a/beluga/numeric/bvp_solvers/SPBVP.py
+++ b/beluga/numeric/bvp_solvers/SPBVP.py
@@ -91,12 +91,19 @@ class SPBVP(BaseAlgorithm):
                         self.boundarycondition_function_jac(ya[:nstates], ya[nstates:nstates+nquads], yb[:nstates],
                                                             yb[nstates:nstates+nquads], params[:ndyn],
                                                             params[ndyn:ndyn+nnondyn], const)
-                    return np.hstack((dbc_dya, dbc_dqa)), np.hstack((dbc_dyb, dbc_dqb)), dbc_dp
+                    dbc_dya, dbc_dyb = np.hstack((dbc_dya, dbc_dqa)), np.hstack((dbc_dyb, dbc_dqb))
+                    if ndyn + nnondyn == 0:
+                        return dbc_dya, dbc_dyb
+                    else:
+                        return dbc_dya, dbc_dyb, dbc_dp
             else:
                 def _bc_jac(ya, yb, params=np.array([]), const=solinit.const):
                     dbc_dya, dbc_dyb, dbc_dp = \
                         self.boundarycondition_function_jac(ya, yb, params[:ndyn], params[ndyn:ndyn+nnondyn], const)
-                    return dbc_dya, dbc_dyb, dbc_dp
+                    if ndyn + nnondyn == 0:
+                        return dbc_dya, dbc_dyb
+                    else:
+                        return dbc_dya, dbc_dyb, dbc_dp
         else:
             _bc_jac = None
 
-- 
2.43.0


From 2d849c4b6bd537218369504d8f6978286f418d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:39 +0000
Subject: [PATCH 24/34] fix: differentiate custom functions that fall back from
 compilation instead of failing on a missing logging function

---
 beluga/numeric/numerical_derivatives/complex_step.py | 10 +++++-----
 beluga/numeric/numerical_derivatives/finite_diff.py  |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/beluga/numeric/numerical_derivatives/complex_step.py b/beluga/numeric/numerical_derivatives/complex_step.py
index 7a8191f..f40c048 100644
--- a/beluga/numeric/numerical_derivatives/complex_step.py
+++ b/beluga/numeric/numerical_derivatives/complex_step.py
@@ -10,12 +10,12 @@ import inspect
 def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
     if max(deriv_order) > 2:
-        logging.beluga('Complex-step derivative not supported for order > 2.'
+        logging.debug('Complex-step derivative not supported for order > 2.'
                        ' Falling back to finite difference for {}'.format(func.__name__))
         return beluga.numeric.numerical_derivatives.gen_fin_diff(func, deriv_order=deriv_order, step_size=step_size)
 
     if len(np.nonzero(deriv_order)[0]) > 1:
-        logging.beluga('Complex-step derivative not supported for multivariate derivatives.'
+        logging.debug('Complex-step derivative not supported for multivariate derivatives.'
                        ' Falling back to finite difference for {}'.format(func.__name__))
         return beluga.numeric.numerical_derivatives.gen_fin_diff(func, deriv_order=deriv_order, step_size=step_size)
     else:
@@ -44,7 +44,7 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
             func_im = njit(tuple(arg_list_im))(func)
 
     except errors.NumbaError as e:
-        logging.beluga(e, 'Cannot jit compile {} to compile numerical derivative'.format(func.__name__))
+        logging.debug('Cannot jit compile {} to compile numerical derivative: {}'.format(func.__name__, e))
 
     if arg_len == 1:
         if deriv_order == 1:
@@ -67,7 +67,7 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
         try:
             csd = njit((arg_type,))(csd)
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}: {}'.format(func.__name__, e))
 
     else:
         arg_select = np.concatenate((np.zeros((arg_idx,), dtype=float), np.array([1.]),
@@ -95,7 +95,7 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
             csd = njit((types.UniTuple(arg_type, arg_len),))(csd)
 
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}: {}'.format(func.__name__, e))
 
             if deriv_order == 1:
                 step = 1e-50
diff --git a/beluga/numeric/numerical_derivatives/finite_diff.py b/beluga/numeric/numerical_derivatives/finite_diff.py
index 5366358..a96911e 100644
--- a/beluga/numeric/numerical_derivatives/finite_diff.py
+++ b/beluga/numeric/numerical_derivatives/finite_diff.py
@@ -31,7 +31,7 @@ def gen_fin_diff(func, deriv_order=None, step_size=1e-6, acc_order=1, method='ce
             func = njit(tuple(arg_list))(func)
 
     except errors.NumbaError as e:
-        logging.beluga(e, 'Cannot jit compile {} to compile numerical derivative'.format(func.__name__))
+        logging.debug('Cannot jit compile {} to compile numerical derivative: {}'.format(func.__name__, e))
 
     step_array = []
     coeff_array = []
@@ -74,7 +74,7 @@ def gen_fin_diff(func, deriv_order=None, step_size=1e-6, acc_order=1, method='ce
         try:
             fin_diff = njit((arg_type,))(fin_diff)
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}: {}'.format(func.__name__, e))
 
     else:
         try:
@@ -90,7 +90,7 @@ def gen_fin_diff(func, deriv_order=None, step_size=1e-6, acc_order=1, method='ce
             fin_diff = njit((types.UniTuple(arg_type, arg_len),))(fin_diff)
 
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}: {}'.format(func.__name__, e))
 
             def fin_diff(*args):
                 diff = 0.
-- 
2.43.0


From 70e10bb862224109954efb7edd6d1771050445ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:24 +0000
Subject: [PATCH 25/34] fix: complex-step derivatives of functions of several
 arguments

---
 .../numerical_derivatives/complex_step.py     | 53 +++++--------------
 1 file changed, 12 insertions(+), 41 deletions(-)

diff --git a/beluga/numeric/numerical_derivatives/complex_step.py b/beluga/numeric/numerical_derivatives/complex_step.py
index f40c048..e8a8f71 100644
--- a/beluga/numeric/numerical_derivatives/complex_step.py
+++ b/beluga/numeric/numerical_derivatives/complex_step.py
@@ -1,7 +1,7 @@
 import numpy as np
 import beluga.numeric.numerical_derivatives.finite_diff
 import math
-from numba import njit, float64, complex128, types, errors
+from numba import njit, float64, complex128, errors
 from numba.core.registry import CPUDispatcher
 import logging
 import inspect
@@ -70,49 +70,20 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
             logging.debug('Cannot jit compile numerical derivative of {}: {}'.format(func.__name__, e))
 
     else:
-        arg_select = np.concatenate((np.zeros((arg_idx,), dtype=float), np.array([1.]),
-                                     np.zeros((arg_len - arg_idx - 1,), dtype=float)))
+        def shift(args, step_k):
+            return [arg + step_k if idx == arg_idx else arg for idx, arg in enumerate(args)]
 
-        try:
-            if deriv_order == 1:
-                step = 1e-50
-
-                def csd(*args):
-                    args_k = tuple(np.array(args) + step*1j*arg_select)
-                    return func_im(args_k).imag/step
-
-            else:
-                im_step_size = math.sqrt(3 + 2 * math.sqrt(2)) * step_size
-                step_re = step_size * arg_select
-                step_im = (step_size - im_step_size * 1j) * arg_select
-
-                def csd(*args):
-                    args_array = np.array(args)
-                    args_k_re = tuple(args_array + step_re, arg_len)
-                    args_k_im = tuple(args_array + step_im, arg_len)
-                    return 2 * (func_re(args_k_re) - func_im(args_k_im)).real / im_step_size ** 2
-
-            csd = njit((types.UniTuple(arg_type, arg_len),))(csd)
-
-        except errors.NumbaError as e:
-            logging.debug('Cannot jit compile numerical derivative of {}: {}'.format(func.__name__, e))
-
-            if deriv_order == 1:
-                step = 1e-50
+        if deriv_order == 1:
+            step = 1e-50
 
-                def csd(*args):
-                    args_k = tuple(np.array(args) + step * 1j * arg_select, arg_len)
-                    return func_im(args_k) / step
+            def csd(*args):
+                return func_im(*shift(args, step*1j)).imag/step
 
-            else:
-                im_step_size = math.sqrt(3 + 2 * math.sqrt(2)) * step_size
-                step_re = step_size * arg_select
-                step_im = (step_size - im_step_size * 1j) * arg_select
+        else:
+            im_step_size = math.sqrt(3 + 2*math.sqrt(2))*step_size
 
-                def csd(*args):
-                    args_array = np.array(args)
-                    args_k_re = args_array + step_re
-                    args_k_im = args_array + step_im
-                    return 2 * (func_re(*args_k_re) - func_im(*args_k_im)).real / im_step_size ** 2
+            def csd(*args):
+                return 2*(func_re(*shift(args, step_size)) - func_im(*shift(args, step_size - im_step_size * 1j)).real) \
+                       / im_step_size**2
 
     return csd
-- 
2.43.0


From 0c82ad966c3474744da29e0dff03aee9120164c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:44 +0000
Subject: [PATCH 26/34] fix: derivatives of custom functions are named by
 argument position and survive substitution

---
 .../special_functions/custom_functions.py     | 67 +++++++------------
 1 file changed, 26 insertions(+), 41 deletions(-)

diff --git a/beluga/symbolic/special_functions/custom_functions.py b/beluga/symbolic/special_functions/custom_functions.py
index 497c351..1759c38 100644
--- a/beluga/symbolic/special_functions/custom_functions.py
+++ b/beluga/symbolic/special_functions/custom_functions.py
@@ -44,17 +44,10 @@ class CustomFunctionGenerator(object):
 
 
 class CustomFunctionMeta(Function):
-    def __new__(cls, base_name, base_func, arg_list):
-        obj = super(CustomFunctionMeta, cls).__new__(cls, *arg_list)
-        obj.nargs = (len(arg_list),)
-        obj.arg_list = tuple(arg_list)
-        obj.base_name = base_name
-        if type(base_func) is CPUDispatcher:
-            obj.base_func = base_func
-        else:
-            obj.base_func = jit_compile_func(base_func, arg_list)
-
-        return obj
+    """
+    Base of the generated symbolic functions. Everything but the arguments is held by the class generated for a function
+    and order of differentiation, so that the function may be rebuilt with other arguments (e.g. by substitution).
+    """
 
     def __deepcopy__(self, memodict=None):
         return self
@@ -64,11 +57,11 @@ class CustomFunctionMeta(Function):
         return True
 
     def fdiff(self, argindex=1):
-        if argindex <= self.nargs[0]:
+        if argindex <= len(self.args):
             order = list(self.order)
             order[argindex - 1] += 1
-            return CustomFunction(self.base_name, self.base_func, self.arg_list,
-                                  order=tuple(order), local_compiler=self.local_compiler)
+            return CustomFunction(self.base_name, self.base_func, self.args, order=tuple(order),
+                                  local_compiler=self.local_compiler, deriv_method=self.deriv_method)
         else:
             raise ArgumentIndexError(self, argindex)
 
@@ -79,19 +72,22 @@ class CustomFunction(Function):
         cls.check_args(arg_list, base_func)
 
         if order is None:
-            order = ([0 for _ in range(len(arg_list))])
+            order = tuple([0 for _ in range(len(arg_list))])
 
-        name = cls.construct_name(base_name, arg_list, order)
-        obj = type(name, (CustomFunctionMeta,), {})(name, base_func, arg_list)
+        name = cls.construct_name(base_name, order)
         if sum(order) == 0:
-            obj.eval_func = base_func
+            eval_func = base_func
         else:
-            obj.eval_func = gen_num_diff(base_func, order=order, method=deriv_method)
-        obj.local_compiler = local_compiler
-        if obj.local_compiler is not None:
-            obj.local_compiler.add_function_local(name, obj.eval_func)
-        obj.order = order
-        return obj
+            eval_func = gen_num_diff(base_func, order=order, method=deriv_method)
+
+        if local_compiler is not None:
+            local_compiler.add_function_local(name, eval_func)
+
+        func_type = type(name, (CustomFunctionMeta,), {
+            'nargs': len(arg_list), 'base_name': base_name, 'base_func': staticmethod(base_func), 'order': order,
+            'deriv_method': deriv_method, 'eval_func': staticmethod(eval_func), 'local_compiler': local_compiler})
+
+        return func_type(*arg_list)
 
     @staticmethod
     def check_args(arg_list, base_func):
@@ -102,25 +98,14 @@ class CustomFunction(Function):
                               .format(base_func.__name__))
 
     @staticmethod
-    def construct_name(func_name, arg_list, order):
+    def construct_name(func_name, order):
+        """Names the derivatives by position of the arguments: the arguments may be any expressions"""
         total_order = sum(order)
 
-        post = '_'
-        for arg_k, order_k in zip(arg_list, order):
-            if order_k == 0:
-                pass
-            elif order_k == 1:
-                post += 'd' + str(arg_k)
-            else:
-                post += 'd' + str(arg_k) + str(order_k)
-
         if total_order == 0:
-            pre = ''
-            post = ''
-        elif total_order == 1:
-            pre = 'd'
-        else:
-            pre = 'd' + str(total_order)
+            return func_name
 
-        return pre + func_name + post
+        pre = 'd' if total_order == 1 else 'd' + str(total_order)
+        post = '_' + ''.join(('d' + str(idx + 1)) * order_k for idx, order_k in enumerate(order))
 
+        return pre + func_name + post
-- 
2.43.0


From e745d3dabfc4aa4bba69ada9c8901b3a779fb1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:44 +0000
Subject: [PATCH 27/34] fix: derivatives of tables survive substitution and
 take any argument; tables with current numpy

---
 .../data_classes/components_structures.py     |  4 +-
 beluga/symbolic/special_functions/tables.py   | 45 +++++++++----------
 2 files changed, 22 insertions(+), 27 deletions(-)

diff --git a/beluga/symbolic/data_classes/components_structures.py b/beluga/symbolic/data_classes/components_structures.py
index 334a772..a6e3bd8 100644
--- a/beluga/symbolic/data_classes/components_structures.py
+++ b/beluga/symbolic/data_classes/components_structures.py
@@ -234,8 +234,8 @@ class TableStruct(CallableStruct):
                  dim_consistent=False, local_compiler=None):
 
         self.table_type = table_type
-        self.data = np.array(data, dtype=np.float)
-        self.arg_data = np.array(arg_data, dtype=np.float)
+        self.data = np.array(data, dtype=float)
+        self.arg_data = np.array(arg_data, dtype=float)
         self.dim_consistent = dim_consistent
 
         # TODO Add checks for size of data, arg_data consistent with type
diff --git a/beluga/symbolic/special_functions/tables.py b/beluga/symbolic/special_functions/tables.py
index 80d69c7..e911c7e 100644
--- a/beluga/symbolic/special_functions/tables.py
+++ b/beluga/symbolic/special_functions/tables.py
@@ -22,13 +22,10 @@ class SymTableGenerator(object):
 
 
 class SymTableMeta(Function):
-    def __new__(cls, table, arg, local_compiler=None):
-        obj = super(SymTableMeta, cls).__new__(cls, arg)
-        obj.nargs = (1,)
-        obj.order = 0
-        obj.table = table
-        obj.local_compiler = local_compiler
-        return obj
+    """
+    Base of the generated symbolic tables. Everything but the argument is held by the class generated for a table and
+    order of differentiation, so that the table may be rebuilt with another argument (e.g. by substitution).
+    """
 
     @property
     def _diff_wrt(self):
@@ -46,27 +43,25 @@ class SymTableMeta(Function):
 
 class SymTable(SymTableMeta):
     def __new__(cls, table, arg, local_compiler=None, order=0):
-        name = cls.construct_name(str(table), str(arg), order)
-        obj = type(name, (SymTableMeta,), {})(table, arg, local_compiler=local_compiler)
-        obj.table_func = table.form_eval_function(order)
-        obj.local_compiler = local_compiler
-        if obj.local_compiler is not None:
-            obj.local_compiler.add_function_local(name, obj.table_func)
-        obj.order = order
-        return obj
+        name = cls.construct_name(str(table), order)
+        table_func = table.form_eval_function(order)
+        if local_compiler is not None:
+            local_compiler.add_function_local(name, table_func)
+
+        table_type = type(name, (SymTableMeta,), {
+            'nargs': 1, 'table': table, 'order': order, 'table_func': staticmethod(table_func),
+            'local_compiler': local_compiler})
+
+        return table_type(arg)
 
     @staticmethod
-    def construct_name(table_name, arg_name, order):
+    def construct_name(table_name, order):
+        """Names the derivatives by order: the argument may be any expression"""
         if order == 0:
-            pre = ''
-            post = ''
-        elif order == 1:
-            pre = 'd'
-            post = '_d' + arg_name
-        else:
-            pre = 'd' + str(order)
-            post = '_d' + arg_name + str(order)
-        return pre + table_name + post
+            return table_name
+
+        pre = 'd' if order == 1 else 'd' + str(order)
+        return pre + table_name + '_' + 'd1' * order
 
 
 class TableSpline1D(object):
-- 
2.43.0


From 8b795cd86616d9cd228bf92913e72889bb6646ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:14 +0000
Subject: [PATCH 28/34] fix: evaluate tables at their last data point

---
 beluga/symbolic/special_functions/tables.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/beluga/symbolic/special_functions/tables.py b/beluga/symbolic/special_functions/tables.py
index e911c7e..8052208 100644
--- a/beluga/symbolic/special_functions/tables.py
+++ b/beluga/symbolic/special_functions/tables.py
@@ -97,10 +97,11 @@ class TableSpline1D(object):
     def form_eval_function(self, order):
         data_x = self.data_x
         coeff_set = self.coeff
+        last = len(data_x) - 1  # The last data point, and points off either end, belong to the interval next to it
 
         if order == 0:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), last)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -108,7 +109,7 @@ class TableSpline1D(object):
 
         elif order == 1:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), last)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -116,7 +117,7 @@ class TableSpline1D(object):
 
         elif order == 2:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), last)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -124,7 +125,7 @@ class TableSpline1D(object):
 
         elif order == 3:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), last)
                 coeff = coeff_set[i - 1]
                 return 6*(coeff[0] - coeff[1])
 
-- 
2.43.0


From 72ed401feb7d27e74d654b0898934a4b713a6abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:29 +0000
Subject: [PATCH 29/34] fix: guess generator uses param_guess and scalar
 control guesses, and knows the number of parameters and controls

---
 beluga/beluga.py                        |  2 ++
 beluga/continuation/guess_generators.py | 37 ++++++++++++-------------
 2 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/beluga/beluga.py b/beluga/beluga.py
index e56b641..3b47039 100755
--- a/beluga/beluga.py
+++ b/beluga/beluga.py
@@ -160,6 +160,8 @@ def solve(
 
     solinit = Trajectory()
     solinit.const = np.array(getattr_from_list(bvp.constants, 'default_val'))
+    solinit.dynamical_parameters = np.ones(len(ocp.parameters))
+    solinit.u = np.empty((0, len(ocp.controls)))
     solinit = guess_generator.generate(bvp.functional_problem, solinit, ocp_map, ocp_map_inverse)
 
     if initial_helper:
diff --git a/beluga/continuation/guess_generators.py b/beluga/continuation/guess_generators.py
index 25b1139..ee0839c 100644
--- a/beluga/continuation/guess_generators.py
+++ b/beluga/continuation/guess_generators.py
@@ -33,9 +33,6 @@ class GuessGenerator(object):
         self.generate_funcs = {'auto': self.auto,
                                'static': self.static,
                                'ones': self.ones}
-        self.setup(**kwargs)
-        self.dae_num_states = 0
-
         self.mode = 'auto'
         self.solinit = None
         self.direction = 'forward'
@@ -47,6 +44,8 @@ class GuessGenerator(object):
         self.control_guess = None
         self.use_control_guess = False
 
+        self.setup(**kwargs)
+
     def setup(self, mode='auto', **kwargs):
         """Sets up the initial guess generation process"""
         self.mode = mode
@@ -111,18 +110,18 @@ class GuessGenerator(object):
         else:
             d0 = np.r_[self.costate_guess]
 
-        if isinstance(self.control_guess, float) or isinstance(self.control_guess, float):
-            u0 = self.control_guess*np.ones(self.dae_num_states)
+        if isinstance(self.control_guess, float) or isinstance(self.control_guess, int):
+            u0 = self.control_guess*np.ones(np.shape(solinit.u)[-1])
         else:
             u0 = self.control_guess
 
-        # Guess zeros for missing parameters
+        # Guess ones for missing parameters
         if param_guess is None:
-            param_guess = np.ones(len(solinit.dynamical_parameters))
-        elif len(param_guess) < len(solinit.dynamical_parameters):
-            param_guess += np.ones(len(solinit.dynamical_parameters) - len(param_guess))
-        elif len(param_guess) > len(solinit.dynamical_parameters):
-            raise ValueError('param_guess too big. Maximum width allowed is ' + str(len(solinit.aux['parameters'])))
+            param_guess = self.param_guess if self.param_guess is not None else []
+        num_params = len(solinit.dynamical_parameters)
+        if len(param_guess) > num_params:
+            raise ValueError('param_guess too big. Maximum width allowed is ' + str(num_params))
+        param_guess = np.hstack((param_guess, np.ones(num_params - len(param_guess))))
         nondynamical_param_guess = np.ones(len(solinit.nondynamical_parameters))
 
         logging.debug('Generating initial guess by propagating: ')
@@ -190,18 +189,18 @@ class GuessGenerator(object):
         else:
             d0 = np.r_[self.costate_guess]
 
-        if isinstance(self.control_guess, float) or isinstance(self.control_guess, float):
-            u0 = self.control_guess * np.ones(self.dae_num_states)
+        if isinstance(self.control_guess, float) or isinstance(self.control_guess, int):
+            u0 = self.control_guess * np.ones(np.shape(solinit.u)[-1])
         else:
             u0 = self.control_guess
 
-        # Guess zeros for missing parameters
+        # Guess ones for missing parameters
         if param_guess is None:
-            param_guess = np.ones(len(solinit.dynamical_parameters))
-        elif len(param_guess) < len(solinit.dynamical_parameters):
-            param_guess += np.ones(len(solinit.dynamical_parameters) - len(param_guess))
-        elif len(param_guess) > len(solinit.dynamical_parameters):
-            raise ValueError('param_guess too big. Maximum width allowed is ' + str(len(solinit.aux['parameters'])))
+            param_guess = self.param_guess if self.param_guess is not None else []
+        num_params = len(solinit.dynamical_parameters)
+        if len(param_guess) > num_params:
+            raise ValueError('param_guess too big. Maximum width allowed is ' + str(num_params))
+        param_guess = np.hstack((param_guess, np.ones(num_params - len(param_guess))))
         nondynamical_param_guess = np.ones(len(solinit.nondynamical_parameters))
 
         logging.debug('Generating initial guess by propagating: ')
-- 
2.43.0


From dc7edb7497713b2c89c893742d4e79f6c03d63c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:04 +0000
Subject: [PATCH 30/34] fix: rejected declarations leave a problem unchanged;
 constraint parameters need unused names

---
 beluga/symbolic/data_classes/components_structures.py | 2 +-
 beluga/symbolic/data_classes/symbolic_problem.py      | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/components_structures.py b/beluga/symbolic/data_classes/components_structures.py
index a6e3bd8..c53c3d4 100644
--- a/beluga/symbolic/data_classes/components_structures.py
+++ b/beluga/symbolic/data_classes/components_structures.py
@@ -76,8 +76,8 @@ class NamedDimensionalStruct(NamedStruct, DimensionalStruct):
 
 class Constant(NamedDimensionalStruct):
     def __init__(self, name: str, default_val: float, units: str, local_compiler: LocalCompiler = None):
-        super(Constant, self).__init__(name, units, local_compiler=local_compiler)
         self.default_val = float(default_val)
+        super(Constant, self).__init__(name, units, local_compiler=local_compiler)
 
 
 class DynamicStruct(NamedDimensionalStruct):
diff --git a/beluga/symbolic/data_classes/symbolic_problem.py b/beluga/symbolic/data_classes/symbolic_problem.py
index 9d3d5d6..5812512 100644
--- a/beluga/symbolic/data_classes/symbolic_problem.py
+++ b/beluga/symbolic/data_classes/symbolic_problem.py
@@ -135,6 +135,7 @@ class Problem:
         return self
 
     def constraint_parameter(self, name, units):
+        self.check_for_duplicate(name)
         self.constraint_parameters.append(NamedDimensionalStruct(name, units, local_compiler=self.local_compiler))
         return self
 
@@ -206,6 +207,7 @@ class Problem:
     def scale(self, **kwargs):
         for name in kwargs.keys():
             self.check_for_duplicate(name)
+        for name in kwargs.keys():
             self.units.append(NamedExpressionStruct(name, kwargs[name], local_compiler=self.local_compiler))
         return self
 
-- 
2.43.0


From c8e1c30dc222a1609fbaf0990b0d11343617f640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:22 +0000
Subject: [PATCH 31/34] fix: total derivative with dependent variables

---
 beluga/symbolic/differential_geometry/differential_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/differential_geometry/differential_geometry.py b/beluga/symbolic/differential_geometry/differential_geometry.py
index 1339157..ac23558 100644
--- a/beluga/symbolic/differential_geometry/differential_geometry.py
+++ b/beluga/symbolic/differential_geometry/differential_geometry.py
@@ -109,7 +109,7 @@ def total_derivative(expr, var, dependent_vars=None):
     dep_var_names = dependent_vars.keys()
     dep_var_expr = [expr for (_, expr) in dependent_vars.items()]
 
-    dfdq = [expr.diff(dep_var).subs_self(dependent_vars.items()) for dep_var in dep_var_names]
+    dfdq = [expr.diff(dep_var).subs(list(dependent_vars.items())) for dep_var in dep_var_names]
     dqdx = [qexpr.diff(var) for qexpr in dep_var_expr]
     out = sum(d1 * d2 for d1, d2 in zip(dfdq, dqdx)) + sympy.diff(expr, var)
     return out
-- 
2.43.0


From 14e5e37ac780205789fce8d4a879401c08c7f778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:07 +0000
Subject: [PATCH 32/34] fix: constraints with only one bound are refused
 instead of becoming equalities or being dropped

---
 beluga/symbolic/data_classes/components_structures.py | 4 ++++
 beluga/symbolic/data_classes/symbolic_problem.py      | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/beluga/symbolic/data_classes/components_structures.py b/beluga/symbolic/data_classes/components_structures.py
index c53c3d4..3d97085 100644
--- a/beluga/symbolic/data_classes/components_structures.py
+++ b/beluga/symbolic/data_classes/components_structures.py
@@ -308,6 +308,10 @@ class ConstraintStruct(DimensionalExpressionStruct):
     def __init__(self, expr: str, units: str, lower: str, upper: str, activator: str, method: str = 'utm',
                  local_compiler: LocalCompiler = None):
         super(ConstraintStruct, self).__init__(expr, units, local_compiler=local_compiler)
+
+        if (lower is None) != (upper is None):
+            raise NotImplementedError('Constraints with only one bound are not implemented. Give both bounds or none')
+
         self.lower = lower
         self.upper = upper
         self.activator = activator
diff --git a/beluga/symbolic/data_classes/symbolic_problem.py b/beluga/symbolic/data_classes/symbolic_problem.py
index 5812512..0fd29da 100644
--- a/beluga/symbolic/data_classes/symbolic_problem.py
+++ b/beluga/symbolic/data_classes/symbolic_problem.py
@@ -123,6 +123,9 @@ class Problem:
         return self
 
     def path_constraint(self, expr, units, lower, upper, activator, method='utm'):
+        if lower is None or upper is None:
+            raise NotImplementedError('Path constraints need both bounds')
+
         self.constraints['path'].append(
             ConstraintStruct(expr, units, lower, upper, activator,
                                  method=method, local_compiler=self.local_compiler))
-- 
2.43.0


From 25c2ab64d3a39d8faaa8930b52414483e85003d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:39 +0000
Subject: [PATCH 33/34] fix: problems with custom functions or tables can be
 loaded after saving

---
 beluga/symbolic/special_functions/custom_functions.py | 4 ++++
 beluga/symbolic/special_functions/tables.py           | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/beluga/symbolic/special_functions/custom_functions.py b/beluga/symbolic/special_functions/custom_functions.py
index 1759c38..136525e 100644
--- a/beluga/symbolic/special_functions/custom_functions.py
+++ b/beluga/symbolic/special_functions/custom_functions.py
@@ -52,6 +52,10 @@ class CustomFunctionMeta(Function):
     def __deepcopy__(self, memodict=None):
         return self
 
+    def __reduce_ex__(self, protocol):
+        return CustomFunction, (self.base_name, self.base_func, self.args, self.local_compiler, self.order,
+                                self.deriv_method)
+
     @property
     def _diff_wrt(self):
         return True
diff --git a/beluga/symbolic/special_functions/tables.py b/beluga/symbolic/special_functions/tables.py
index 8052208..f2ce435 100644
--- a/beluga/symbolic/special_functions/tables.py
+++ b/beluga/symbolic/special_functions/tables.py
@@ -40,6 +40,9 @@ class SymTableMeta(Function):
     def __deepcopy__(self, memodict=None):
         return self
 
+    def __reduce_ex__(self, protocol):
+        return SymTable, (self.table, self.args[0], self.local_compiler, self.order)
+
 
 class SymTable(SymTableMeta):
     def __new__(cls, table, arg, local_compiler=None, order=0):
-- 
2.43.0


From fb365c2e43a3e269915be3075d0d5e4301ef9ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:13 +0000
Subject: [PATCH 34/34] fix: geometric differential control when time is not a
 state

---
 beluga/symbolic/data_classes/mapping_functions.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 100e850..fb5fcae 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -465,7 +465,11 @@ class DifferentialControlLaw(GenericFunctor):
             prob.sol_map_chain.append(DifferentialControlMapper(control_idxs=control_idxs))
 
         elif self.method.lower() == 'diffyg':
-            independent_index = len(prob.states) - 1
+            # Index of time among the states, if it was made one
+            independent_index = None
+            for mapper in prob.sol_map_chain:
+                if isinstance(mapper, MomentumShiftMapper):
+                    independent_index = mapper.ind_state_idx
             control_costates = []
             for control, control_rate in zip(prob.controls, u_dot):
                 control_idxs.append(len(prob.states))
@@ -484,8 +488,9 @@ class DifferentialControlLaw(GenericFunctor):
             for idx, u_dot_i in enumerate(u_dot):
                 omega_new[int(n_states - n_controls + idx), int(2 * n_states - n_controls + idx)] = 1
                 omega_new[int(2 * n_states - n_controls + idx), int(n_states - n_controls + idx)] = -1
-                omega_new[independent_index, int(2 * n_states - n_controls + idx)] = -u_dot_i
-                omega_new[int(2 * n_states - n_controls + idx), independent_index] = u_dot_i
+                if independent_index is not None:
+                    omega_new[independent_index, int(2 * n_states - n_controls + idx)] = -u_dot_i
+                    omega_new[int(2 * n_states - n_controls + idx), independent_index] = u_dot_i
 
             prob.omega = omega_new
             chi_h = make_hamiltonian_vector_field(prob.hamiltonian.expr, omega_new,
@@ -494,6 +499,10 @@ class DifferentialControlLaw(GenericFunctor):
             for idx, state in enumerate(prob.states + prob.costates):
                 state.eom = chi_h[idx]
 
+            if independent_index is None:
+                for idx, u_dot_i in zip(control_idxs, u_dot):
+                    prob.states[idx].eom += u_dot_i
+
             for lam_u in control_costates:
                 prob.constraints['initial'].append(
                     DimensionalExpressionStruct(lam_u.sym, lam_u.units, local_compiler=prob.local_compiler))
-- 
2.43.0

