From 39db47fa5a5f1ad83de8dc5e02b582326456c825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 01/32] fix: report switch times as points of the time grid

---
 nosnoc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index a2b3628..a1d3fa5 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -534,6 +534,6 @@ def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> di
                 switch_indices.append(i)
             theta_prev = theta
 
-    results["switch_times"] = np.array([time_steps[i] for i in switch_indices])
+    results["switch_times"] = np.array([t_grid[i + 1] for i in switch_indices])
 
     return results
-- 
2.43.0


From 8db74bfadf880d67ae472dbc5826c8f7603a7881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 02/32] fix: stop_on_failure compares the status enum

---
 nosnoc/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/helpers.py b/nosnoc/helpers.py
index 7d1e377..309b289 100644
--- a/nosnoc/helpers.py
+++ b/nosnoc/helpers.py
@@ -2,7 +2,7 @@ from typing import Optional
 
 import numpy as np
 from .solver import NosnocSolver
-from .nosnoc_types import SpeedOfTimeVariableMode
+from .nosnoc_types import SpeedOfTimeVariableMode, Status
 
 
 class NosnocSimLooper:
@@ -93,7 +93,7 @@ class NosnocSimLooper:
             if self.print_level > 0:
                 print(f"Sim step {i + 1}/{self.Nsim}\t status: {results['status']}")
 
-            if (stop_on_failure and results["status"] == "Infeasible_Problem_Detected"):
+            if (stop_on_failure and results["status"] != Status.SUCCESS):
                 return False
 
         return True
-- 
2.43.0


From a7c8541216479b2662699fca39143ec09037848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 03/32] fix: global speed of time variable

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 9cd3d64..824c55d 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -648,7 +648,7 @@ class NosnocProblem(NosnocFormulationObject):
         # add global speed of time if necessary
         if self.opts.speed_of_time_variables == SpeedOfTimeVariableMode.GLOBAL:
             sot = ca.SX.sym('sot', 1)
-            self.add_variables(sot, self.ind_sot, self.opts.speed_of_time_min, self.opts.speed_of_time_max, 1.0)
+            self.add_variable(sot, self.ind_sot, [self.opts.speed_of_time_min], [self.opts.speed_of_time_max], [1.0])
 
         # Generate control_stages
         prev_fe = self.fe0
-- 
2.43.0


From 01e8c93486c33c7506f8fd4d219d0a51b682c50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 04/32] fix: speed of time guess within its bounds

---
 nosnoc/problem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 824c55d..e3d17cf 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -616,7 +616,8 @@ class NosnocProblem(NosnocFormulationObject):
         # Create stage local speed of time variables
         if self.opts.speed_of_time_variables == SpeedOfTimeVariableMode.LOCAL:
             sot = ca.SX.sym(f's_sot_{ctrl_idx}', 1)
-            self.add_variable(sot, self.ind_sot, [self.opts.speed_of_time_min], [self.opts.speed_of_time_max], [1.0])
+            self.add_variable(sot, self.ind_sot, [self.opts.speed_of_time_min], [self.opts.speed_of_time_max],
+                              [np.clip(1.0, self.opts.speed_of_time_min, self.opts.speed_of_time_max)])
 
         # Create Finite elements in this control stage
         control_stage = []
@@ -648,7 +649,8 @@ class NosnocProblem(NosnocFormulationObject):
         # add global speed of time if necessary
         if self.opts.speed_of_time_variables == SpeedOfTimeVariableMode.GLOBAL:
             sot = ca.SX.sym('sot', 1)
-            self.add_variable(sot, self.ind_sot, [self.opts.speed_of_time_min], [self.opts.speed_of_time_max], [1.0])
+            self.add_variable(sot, self.ind_sot, [self.opts.speed_of_time_min], [self.opts.speed_of_time_max],
+                              [np.clip(1.0, self.opts.speed_of_time_min, self.opts.speed_of_time_max)])
 
         # Generate control_stages
         prev_fe = self.fe0
-- 
2.43.0


From 59c22269e65d3c9ab1b1836895a9f8e28a2d0b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 05/32] fix: control stage complementarities with Nfe_list

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index e3d17cf..adf348f 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -538,7 +538,7 @@ class FiniteElement(FiniteElementBase):
             stage_comps = self.ocp.g_rk_comp_fun(X_fe[j], Uk, z, self.p, self.model.v_global)  # TODO maybe should include stage z
             a, b = ca.horzsplit(stage_comps)
             self.create_complementarity([a], b, sigma_p, tau, s_elastic)
-        if self.fe_idx == opts.N_finite_elements-1:
+        if self.fe_idx == opts.Nfe_list[self.ctrl_idx] - 1:
             ctrl_comps = self.ocp.g_ctrl_comp_fun(Uk, self.p, self.model.v_global)
             a, b = ca.horzsplit(ctrl_comps)
             self.create_complementarity([a], b, sigma_p, tau, s_elastic)
-- 
2.43.0


From f2785fe764d1941d9f5bef535f18945b8176419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 06/32] fix: do not share NLP solver options between NosnocOpts
 instances

---
 nosnoc/nosnoc_opts.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index b69bb1a..1f9b0ba 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from typing import Union, Optional
 from dataclasses import dataclass, field
 
@@ -124,6 +125,10 @@ class NosnocOpts:
         doc="Maximum amount of iterations for the subsolver."
     )
 
+    def __post_init__(self):
+        # each instance owns its solver options
+        self.opts_casadi_nlp = deepcopy(type(self).opts_casadi_nlp)
+
     def __repr__(self) -> str:
         out = ''
         for k, v in self.__dict__.items():
-- 
2.43.0


From 93c4359211e9ea41fd6e8a7f92c3c02cf76ac11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 07/32] fix: reject inequality constraints with nonzero upper
 bound in LEAST_SQUARES mode

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index adf348f..2d49f0e 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -855,7 +855,7 @@ class NosnocProblem(NosnocFormulationObject):
         if opts.constraint_handling == ConstraintHandling.LEAST_SQUARES:
             self.g_lsq = copy(self.g)
             for ii in range(casadi_length(self.g)):
-                if self.lbg[ii] != 0.0:
+                if self.lbg[ii] != 0.0 or self.ubg[ii] != 0.0:
                     raise Exception(
                         f"least_squares constraint handling only supported if all lbg, ubg == 0.0, got {self.lbg[ii]=}, {self.ubg[ii]=}, {self.g[ii]=}"
                     )
-- 
2.43.0


From 8b432480c27711cb7d9bda22d68df135ba4a0504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 08/32] fix: g_path_at_stg covers the last stage of every
 element

---
 nosnoc/problem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 2d49f0e..eba30f6 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -499,8 +499,10 @@ class FiniteElement(FiniteElementBase):
             self.add_constraint(gqj, ocp.lbg, ocp.ubg)
 
         if opts.g_path_at_stg:
-            end_allowance = 1 if opts.right_boundary_point_explicit else 0
-            for j in range(opts.n_s - end_allowance):
+            # the last stage is the end point which might be handled above already
+            end_covered = opts.right_boundary_point_explicit and (
+                self.fe_idx == opts.Nfe_list[self.ctrl_idx] - 1 or opts.g_path_at_fe)
+            for j in range(opts.n_s - 1 if end_covered else opts.n_s):
                 gqj = ocp.g_path_fun(X_fe[j], Uk, self.p, model.v_global)
                 self.add_constraint(gqj, ocp.lbg, ocp.ubg)
 
-- 
2.43.0


From d6066db7d723cbd091eba5c8b5ee40e9d1a26e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 09/32] fix: terminal time constraint for a single stage
 without equidistant grid

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index eba30f6..2679a66 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -838,7 +838,7 @@ class NosnocProblem(NosnocFormulationObject):
                 self.cost = sigma_p * self.cost + s_elastic
 
         # Terminal numerical time
-        if opts.N_stages > 1 and opts.use_fesd and not opts.equidistant_control_grid:
+        if opts.use_fesd and not opts.equidistant_control_grid:
             all_h = [fe.h for stage in self.stages for fe in stage]
             self.add_constraint(sum(all_h) - opts.terminal_time)
 
-- 
2.43.0


From 58a72954805bc32bcd838f520774d158e5187a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 10/32] fix: boundary switching equations only where boundary
 multipliers exist

---
 nosnoc/problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 2679a66..d64200a 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -507,7 +507,9 @@ class FiniteElement(FiniteElementBase):
                 self.add_constraint(gqj, ocp.lbg, ocp.ubg)
 
         # g_z_all constraint for boundary point and continuity of algebraic variables.
-        if not opts.right_boundary_point_explicit and opts.use_fesd:
+        # NOTE: the last element of a control stage has no multipliers at the boundary point.
+        if (not opts.right_boundary_point_explicit and opts.use_fesd and
+                self.fe_idx < opts.Nfe_list[self.ctrl_idx] - 1):
             self.add_constraint(
                 model.g_z_switching_fun(self.w[self.ind_x[-1]], self.rk_stage_z(-1), Uk, self.p))
 
-- 
2.43.0


From 54828ed57ec80662e4d1568e8d2e11c9f039e959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 11/32] fix: cross complementarity with the multipliers at the
 right boundary

---
 nosnoc/problem.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index d64200a..cbb0886 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -419,6 +419,10 @@ class FiniteElement(FiniteElementBase):
     def sum_Theta(self) -> ca.SX:
         return casadi_sum_list(self.get_Theta_list())
 
+    def n_lambda_points(self) -> int:
+        """number of points with dual multipliers: RK stages and, if present, right boundary"""
+        return max(len(self.ind_lam), len(self.ind_lambda_n))
+
     def get_Lambdas_incl_last_prev_fe(self, sys=slice(None)):
         Lambdas = [self.Lambda(stage=ii, sys=sys) for ii in range(len(self.ind_lam))]
         Lambdas += [self.prev_fe.Lambda(stage=-1, sys=sys)]
@@ -524,7 +528,7 @@ class FiniteElement(FiniteElementBase):
                 theta = self.Theta(stage=j)
                 lam = self.prev_fe.Lambda(stage=-1)
                 comp_vec = ca.vertcat(comp_vec, theta*lam)
-                for jj in range(opts.n_s):
+                for jj in range(self.n_lambda_points()):
                     lam = self.Lambda(stage=jj)
                     comp_vec = ca.vertcat(comp_vec, theta*lam)
         else:
@@ -556,7 +560,7 @@ class FiniteElement(FiniteElementBase):
                 # cross comp with prev_fe
                 self.create_complementarity([self.Theta(stage=j)], self.prev_fe.Lambda(stage=-1),
                                             sigma_p, tau, s_elastic)
-                for jj in range(opts.n_s):
+                for jj in range(self.n_lambda_points()):
                     # within fe
                     self.create_complementarity([self.Theta(stage=j)], self.Lambda(stage=jj),
                                                 sigma_p, tau, s_elastic)
-- 
2.43.0


From 51b4ba6ee53caee2887781ac1fc3500c1f961652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 12/32] fix: nonnegative multipliers in ELASTIC_TWO_SIDED mode

---
 nosnoc/problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index cbb0886..1732289 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -281,7 +281,8 @@ class FiniteElement(FiniteElementBase):
         else:
             self.h = h0
 
-        if opts.mpcc_mode in [MpccMode.SCHOLTES_EQ, MpccMode.SCHOLTES_INEQ, MpccMode.ELASTIC_INEQ, MpccMode.ELASTIC_EQ]:
+        if opts.mpcc_mode in [MpccMode.SCHOLTES_EQ, MpccMode.SCHOLTES_INEQ, MpccMode.ELASTIC_INEQ,
+                              MpccMode.ELASTIC_EQ, MpccMode.ELASTIC_TWO_SIDED]:
             lb_dual = 0.0
         else:
             lb_dual = -np.inf
-- 
2.43.0


From beaca33333b0e2331870b525f8bfc07027bcea2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 13/32] fix: order of initial multipliers with several Step
 subsystems

---
 nosnoc/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 6c7f4a0..c8d5b8d 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -285,6 +285,9 @@ class NosnocModel:
                 lambda00_expr = ca.vertcat(lambda00_expr,
                                            g_Stewart_list[ii] - ca.mmin(g_Stewart_list[ii]))
         elif opts.pss_mode == PssMode.STEP:
+            # same order as in FiniteElementBase.Lambda: all lambda_n, then all lambda_p
+            c_all = casadi_vertcat_list(self.c)
+            lambda00_expr = ca.vertcat(-ca.fmin(c_all, 0), ca.fmax(c_all, 0))
             for ii in range(n_sys):
                 if self.F is not None:
                     f_x = f_x + self.F[ii] @ upsilon[:, ii]
@@ -296,8 +299,6 @@ class NosnocModel:
                     self.c[ii] - lambda_p[ii] + lambda_n[ii])
                 std_compl_res += ca.transpose(lambda_n[ii]) @ alpha_ii
                 std_compl_res += ca.transpose(lambda_p[ii]) @ (np.ones(n_c_sys[ii]) - alpha_ii)
-                lambda00_expr = ca.vertcat(lambda00_expr, -ca.fmin(self.c[ii], 0),
-                                           ca.fmax(self.c[ii], 0))
         else:
             raise NotImplementedError()
 
-- 
2.43.0


From 67c27a23ad1a738eed3d9591eff4612cd91b079b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 14/32] fix: Step subsystems with different numbers of modes

---
 nosnoc/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index c8d5b8d..6b645dd 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -250,7 +250,7 @@ class NosnocModel:
                             upsilon_ij *= (0.5 * (1 - S_temp[j, k]) +
                                            S_temp[j, k] * alpha[ii][k])
                     upsilon_temp = ca.vertcat(upsilon_temp, upsilon_ij)
-                upsilon = ca.horzcat(upsilon, upsilon_temp)
+                upsilon.append(upsilon_temp)
 
         # start empty
         g_lift = ca.SX.zeros((0, 1))
@@ -290,7 +290,7 @@ class NosnocModel:
             lambda00_expr = ca.vertcat(-ca.fmin(c_all, 0), ca.fmax(c_all, 0))
             for ii in range(n_sys):
                 if self.F is not None:
-                    f_x = f_x + self.F[ii] @ upsilon[:, ii]
+                    f_x = f_x + self.F[ii] @ upsilon[ii]
                     alpha_ii = alpha[ii]
                 else:
                     alpha_ii = self.alpha[ii]
-- 
2.43.0


From 1cab8987cdad9999d72e4c7d62a623e99363a40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 15/32] fix: set theta with several subsystems

---
 nosnoc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index a1d3fa5..c206d42 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -89,7 +89,7 @@ class NosnocSolverBase(ABC):
                 for sub_idx in prob.ind_theta:
                     for ssub_idx in sub_idx:
                         for sssub_idx in ssub_idx:
-                            prob.w0[sssub_idx] = value[i, :]
+                            prob.w0[flatten(sssub_idx)] = value[i, :]
                         i += 1
             else:
                 raise Exception('set for theta only implemented for value of shape (sum(Nfe_list), ntheta)')
-- 
2.43.0


From 2888bfcf41dfe583983a6ce51f054d05c6c7d57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 16/32] fix: report the cost with its sign

---
 nosnoc/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index c206d42..f233f98 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -256,7 +256,7 @@ class NosnocSolverBase(ABC):
             status = solver_stats['return_status']
             nlp_iter = solver_stats['iter_count']
             nlp_res = ca.norm_inf(sol['g']).full()[0][0]
-            cost_val = ca.norm_inf(sol['f']).full()[0][0]
+            cost_val = sol['f'].full()[0][0]
             w_opt = sol['x'].full().flatten()
 
             complementarity_residual = prob.comp_res(w_opt, self.p_val).full()[0][0]
@@ -406,7 +406,7 @@ class NosnocSolver(NosnocSolverBase):
             status = solver_stats['return_status']
             nlp_iter[ii] = solver_stats['iter_count']
             nlp_res = ca.norm_inf(sol['g']).full()[0][0]
-            cost_val = ca.norm_inf(sol['f']).full()[0][0]
+            cost_val = sol['f'].full()[0][0]
 
             # process iterate
             w_opt = sol['x'].full().flatten()
-- 
2.43.0


From 191d5452f2c6901e963c066a5548e88bf404ba1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 17/32] fix: quadrature weights of the integral representation
 with one stage

---
 nosnoc/rk_utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nosnoc/rk_utils.py b/nosnoc/rk_utils.py
index 5045996..fb292bc 100644
--- a/nosnoc/rk_utils.py
+++ b/nosnoc/rk_utils.py
@@ -1080,9 +1080,15 @@ def generate_butcher_tableu_integral(n_s: int, irk_scheme: IrkSchemes):
         for r in range(n_s + 1):
             C[j, r] = np.polyval(pder, tau_root[r])
 
-        # Evaluate the integral of the polynomial to get the coefficients of the quadrature function
-        pint = np.polyint(coeff)
-        B[j] = np.polyval(pint, 1.0)
+    # Integrate the Lagrange polynomials of the collocation points to get the coefficients of the quadrature function,
+    # the left boundary point is not used for quadrature.
+    for j in range(n_s):
+        coeff = np.array([1.0])
+        for r in range(n_s):
+            if not r == j:
+                coeff = np.convolve(coeff, [1, -points[r]])
+                coeff = coeff / (points[j] - points[r])
+        B[j + 1] = np.polyval(np.polyint(coeff), 1.0)
     return B, C, D, tau_root
 
 
-- 
2.43.0


From c7ebe68e49ae04000d0db9f234052641ec4f0a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:12 +0000
Subject: [PATCH 18/32] fix: results for Stewart subsystems with different
 numbers of modes

---
 nosnoc/solver.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index f233f98..5d9caba 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -484,8 +484,12 @@ def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> di
     if opts.speed_of_time_variables != SpeedOfTimeVariableMode.NONE:
         results["sot"] = [w_opt[ind] for ind in prob.ind_sot]
 
-    results["theta_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_theta)]
-    results["lambda_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_lam)]
+    # one row per subsystem, flat if the subsystems have different dimensions
+    def rectangular(ind):
+        return ind if len(set(len(i) for i in ind)) == 1 else flatten(ind)
+
+    results["theta_list"] = [w_opt[rectangular(ind)] for ind in get_cont_algebraic_indices(prob.ind_theta)]
+    results["lambda_list"] = [w_opt[rectangular(ind)] for ind in get_cont_algebraic_indices(prob.ind_lam)]
     # results["mu_list"] = [w_opt[ind] for ind in ind_mu_all]
     # if opts.pss_mode == PssMode.STEP:
     results["alpha_list"] = [
-- 
2.43.0


From e8efda33e75e090a9e93e1cb407da76a3a2633ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:12 +0000
Subject: [PATCH 19/32] fix: RK4 initialization uses the stage times in the
 integral representation

---
 nosnoc/nosnoc_opts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index 1f9b0ba..d8fb40f 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -162,6 +162,7 @@ class NosnocOpts:
             self.B_irk = B_irk
             self.C_irk = C_irk
             self.D_irk = D_irk
+            irk_time_points = irk_time_points[1:]  # without the left boundary point
         elif (self.irk_representation
               in [IrkRepresentation.DIFFERENTIAL, IrkRepresentation.DIFFERENTIAL_LIFT_X]):
             A_irk, b_irk, irk_time_points, _ = generate_butcher_tableu(self.n_s, self.irk_scheme)
-- 
2.43.0


From 69970ba972314922a86922ab665285b364de3043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:12 +0000
Subject: [PATCH 20/32] fix: polishing fixes complementarity variables only and
 solves a single NLP

---
 nosnoc/solver.py | 55 +++++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 5d9caba..54c5bda 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -210,16 +210,17 @@ class NosnocSolverBase(ABC):
         eps_sigma = 1e1 * opts.comp_tol
 
         ind_set = flatten(prob.ind_lam + prob.ind_lambda_n + prob.ind_lambda_p + prob.ind_alpha +
-                          prob.ind_theta + prob.ind_mu)
+                          prob.ind_theta)
         ind_dont_set = flatten(prob.ind_h + prob.ind_u + prob.ind_x + prob.ind_v_global +
-                               prob.ind_v + prob.ind_z + prob.ind_elastic)
+                               prob.ind_v + prob.ind_z + prob.ind_elastic + prob.ind_mu +
+                               prob.ind_sot + prob.ind_bool)
         # sanity check
         ind_all = ind_set + ind_dont_set
         for iw in range(len(w_guess)):
             if iw not in ind_all:
                 raise Exception(f"w[{iw}] = {prob.w[iw]} not handled proprerly")
 
-        w_fix_zero = w_guess < eps_sigma
+        w_fix_zero = np.abs(w_guess) < eps_sigma
         w_fix_zero[ind_dont_set] = False
         ind_fix_zero = np.where(w_fix_zero)[0].tolist()
 
@@ -239,32 +240,28 @@ class NosnocSolverBase(ABC):
             print(
                 f"polishing step: setting {len(ind_fix_zero)} variables to 0.0, {len(ind_fix_one)} to 1.0."
             )
-        for i_ctrl in range(opts.N_stages):
-            for i_fe in range(opts.Nfe_list[i_ctrl]):
-                w_guess[prob.ind_theta[i_ctrl][i_fe][:]]
-
-            sigma_k, tau_val = 0.0, 0.0
-            self.setup_p_val(sigma_k, tau_val)
-
-            # solve NLP
-            t = time.time()
-            sol = casadi_ipopt_solver(x0=w_guess, lbg=prob.lbg, ubg=prob.ubg, lbx=lbw, ubx=ubw, p=self.p_val)
-            cpu_time_nlp = time.time() - t
-
-            # print and process solution
-            solver_stats = casadi_ipopt_solver.stats()
-            status = solver_stats['return_status']
-            nlp_iter = solver_stats['iter_count']
-            nlp_res = ca.norm_inf(sol['g']).full()[0][0]
-            cost_val = sol['f'].full()[0][0]
-            w_opt = sol['x'].full().flatten()
-
-            complementarity_residual = prob.comp_res(w_opt, self.p_val).full()[0][0]
-            if opts.print_level:
-                self._print_iter_stats(sigma_k, complementarity_residual, nlp_res, cost_val,
-                                       cpu_time_nlp, nlp_iter, status)
-            if status not in ['Solve_Succeeded', 'Solved_To_Acceptable_Level']:
-                print(f"Warning: IPOPT exited with status {status}")
+        sigma_k, tau_val = 0.0, 0.0
+        self.setup_p_val(sigma_k, tau_val)
+
+        # solve NLP
+        t = time.time()
+        sol = casadi_ipopt_solver(x0=w_guess, lbg=prob.lbg, ubg=prob.ubg, lbx=lbw, ubx=ubw, p=self.p_val)
+        cpu_time_nlp = time.time() - t
+
+        # print and process solution
+        solver_stats = casadi_ipopt_solver.stats()
+        status = solver_stats['return_status']
+        nlp_iter = solver_stats['iter_count']
+        nlp_res = ca.norm_inf(sol['g']).full()[0][0]
+        cost_val = sol['f'].full()[0][0]
+        w_opt = sol['x'].full().flatten()
+
+        complementarity_residual = prob.comp_res(w_opt, self.p_val).full()[0][0]
+        if opts.print_level:
+            self._print_iter_stats(sigma_k, complementarity_residual, nlp_res, cost_val,
+                                   cpu_time_nlp, nlp_iter, status)
+        if status not in ['Solve_Succeeded', 'Solved_To_Acceptable_Level']:
+            print(f"Warning: IPOPT exited with status {status}")
 
         return w_opt, cpu_time_nlp, nlp_iter, status
 
-- 
2.43.0


From a2845e1fbf8eb36a0ddaf97b4b59a6262d4894c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:12 +0000
Subject: [PATCH 21/32] fix: report cost and iterate of the polishing step

---
 nosnoc/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 54c5bda..57c0e9a 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -263,7 +263,7 @@ class NosnocSolverBase(ABC):
         if status not in ['Solve_Succeeded', 'Solved_To_Acceptable_Level']:
             print(f"Warning: IPOPT exited with status {status}")
 
-        return w_opt, cpu_time_nlp, nlp_iter, status
+        return w_opt, cpu_time_nlp, nlp_iter, status, cost_val
 
     def create_function_calculate_vector_field(self, sigma, p=[], v=[]):
         """Create a function to calculate the vector field."""
@@ -429,8 +429,9 @@ class NosnocSolver(NosnocSolverBase):
             sigma_k = self.homotopy_sigma_update(sigma_k)
 
         if opts.do_polishing_step:
-            w_opt, cpu_time_nlp[n_iter_polish - 1], nlp_iter[n_iter_polish - 1], status = \
+            w_opt, cpu_time_nlp[n_iter_polish - 1], nlp_iter[n_iter_polish - 1], status, cost_val = \
                                             self.polish_solution(self.solver, w_opt)
+            w_all.append(w_opt)
 
         # collect results
         results = get_results_from_primal_vector(prob, w_opt)
-- 
2.43.0


From 04bf26fc3fc6d2c0ee264f496bfe5c00ab30aa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:15 +0000
Subject: [PATCH 22/32] fix: RK4 initialization uses the number of elements of
 the control stage

Nfe_list was ignored: with Nfe_list=[3] and the default N_finite_elements the
states were simulated on a wrong grid, and later elements were not initialized.
---
 nosnoc/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 57c0e9a..089883a 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -125,7 +125,8 @@ class NosnocSolverBase(ABC):
         elif opts.initialization_strategy == InitializationStrategy.RK4_SMOOTHENED:
             # print(f"updating w0 with RK4 smoothened")
             # NOTE: assume N_stages = 1 and STEWART
-            dt_fe = opts.terminal_time / (opts.N_stages * opts.N_finite_elements)
+            n_fe = opts.Nfe_list[0]
+            dt_fe = opts.terminal_time / (opts.N_stages * n_fe)
             irk_time_grid = np.array(
                 [opts.irk_time_points[0]] +
                 [opts.irk_time_points[k] - opts.irk_time_points[k - 1] for k in range(1, opts.n_s)])
@@ -133,7 +134,7 @@ class NosnocSolverBase(ABC):
 
             x_rk4_current = x0
             db_updated_indices = list()
-            for i in range(opts.N_finite_elements):
+            for i in range(n_fe):
                 Xrk4 = rk4_on_timegrid(self.model.f_x_smooth_fun,
                                        x0=x_rk4_current,
                                        t_grid=rk4_t_grid)
-- 
2.43.0


From a115b9149f1009ca51bdf269a64d4fc8fc1da6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:26 +0000
Subject: [PATCH 23/32] fix: RK4 initialization with differential
 representation

The stage states are no variables there, only the end state is; indexing them
raised an IndexError for more than one stage.
---
 nosnoc/solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 089883a..1b6a36e 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -142,7 +142,9 @@ class NosnocSolverBase(ABC):
                 # print(f"{Xrk4=}")
                 for k in range(opts.n_s):
                     x_ki = Xrk4[k + 1]
-                    prob.w0[prob.ind_x[0][i][k]] = x_ki
+                    # NOTE: in differential mode, only the end state (last stage) is a variable
+                    ind_x_k = prob.ind_x[0][i][min(k, len(prob.ind_x[0][i]) - 1)]
+                    prob.w0[ind_x_k] = x_ki
                     # NOTE: we don't use lambda_smooth_fun, since it gives negative lambdas
                     # -> infeasible. Possibly another smooth min fun could be used.
                     # However, this would be inconsistent with mu.
@@ -163,7 +165,7 @@ class NosnocSolverBase(ABC):
                         prob.w0[prob.ind_mu[0][i][k][s]] = mu_ki[s].full().flatten()
                         # TODO: ind_v
                     db_updated_indices += prob.ind_theta[0][i][k][s] + prob.ind_lam[0][i][k][
-                        s] + prob.ind_mu[0][i][k][s] + prob.ind_x[0][i][k] + prob.ind_h
+                        s] + prob.ind_mu[0][i][k][s] + ind_x_k + prob.ind_h
                 if opts.irk_time_points[-1] != 1.0:
                     raise NotImplementedError
                 else:
-- 
2.43.0


From 4feb7df59de2d5b4418894ce050569027451a719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:23 +0000
Subject: [PATCH 24/32] fix: dump problems with least-squares constraint
 handling

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 1732289..50c19c8 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -914,7 +914,7 @@ class NosnocProblem(NosnocFormulationObject):
             data = {
                 key: self.__dict__[key] for key in self.__dict__
                 if key not in [
-                    "w", "p", "cost", "g", "model", "ocp", "stages", "fe0"
+                    "w", "p", "cost", "g", "g_lsq", "model", "ocp", "stages", "fe0"
                 ]
             }
             data["f"] = ca.Function("f", [self.w, self.p], [self.cost])
-- 
2.43.0


From 0eaf71e58f045d1e87c8b41d2c22dfd558719c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:12 +0000
Subject: [PATCH 25/32] fix: reject switched systems whose dimensions do not
 match the state, the regions or the sign matrix

---
 nosnoc/model.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 6b645dd..c05570e 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -148,6 +148,8 @@ class NosnocModel:
             if not isinstance(self.F, list):
                 raise ValueError("model.F should be a list.")
             for i, f in enumerate(self.F):
+                if f.shape[0] != n_x:
+                    raise ValueError(f"model.F item {i} should have n_x = {n_x} rows, got shape {f.shape}.")
                 if f.shape[1] == 1:
                     raise Warning(f"model.F item {i} is not a switching system!")
 
@@ -166,14 +168,21 @@ class NosnocModel:
                     raise ValueError("model.S should be a list.")
                 if len(self.c) != len(self.S):
                     raise ValueError("model.c and model.S should have the same length!")
+                if len(self.c) != n_sys:
+                    raise ValueError("model.c, model.S and model.F should have the same length!")
                 for i, (fi, Si) in enumerate(zip(self.F, self.S)):
                     if fi.shape[1] != Si.shape[0]:
                         raise ValueError(
                             f"model.F item {i} and S {i} should have the same number of columns")
+                    if Si.shape[1] != n_c_sys[i]:
+                        raise ValueError(
+                            f"model.S item {i} should have one column per entry of c {i}: {n_c_sys[i]}")
         else:  # Only check Step because Stewart is not allowed for general inclusions
             if opts.pss_mode == PssMode.STEWART:
                 raise ValueError("model formulation with general inclusions using model.f_x is not supported with PssMode.STEWART")
             n_f_sys = [self.f_x[i].shape[1] for i in range(n_sys)]
+            if casadi_length(casadi_vertcat_list(self.f_x)) != n_x:
+                raise ValueError(f"model.f_x should have n_x = {n_x} entries.")
             if not isinstance(self.c, list):
                 raise ValueError("model.c should be a list.")
             if casadi_length(casadi_vertcat_list(self.c)) != casadi_length(casadi_vertcat_list(self.alpha)):
-- 
2.43.0


From 41a16adc3ab410caa288ce735166a247cc147cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:12 +0000
Subject: [PATCH 26/32] fix: reject element counts per stage that do not match
 the number of stages

---
 nosnoc/nosnoc_opts.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index d8fb40f..efbb59f 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -154,6 +154,9 @@ class NosnocOpts:
 
         if len(self.Nfe_list) == 0:
             self.Nfe_list = self.N_stages * [self.N_finite_elements]
+        elif len(self.Nfe_list) != self.N_stages:
+            raise ValueError(
+                f"Nfe_list should be empty or of length N_stages = {self.N_stages}, got {len(self.Nfe_list)} entries.")
 
         # Butcher Tableau
         if self.irk_representation == IrkRepresentation.INTEGRAL:
-- 
2.43.0


From 4d683b2ff2e0489d65208a688ed70ce92d6b65a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:32 +0000
Subject: [PATCH 27/32] fix: automatic models keep the parameters of the given
 ODE

---
 nosnoc/auto_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 9b9c05a..f4b43f7 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -55,12 +55,13 @@ class NosnocAutoModel:
         Reformulate the given nonsmooth ODE into a NosnocModel.
         Note: Care must be taken if your model is complex, in which case the Pss Mode `STEP` should be used.
         """
+        p = self.p if self.p is not None else ca.SX.sym('p_global_dummy', 0, 1)
         if self._detect_additive():
             self._reformulate_nonlin()
-            return NosnocModel(x=self.x, f_x=[self.f], c=self.c, alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u)
+            return NosnocModel(x=self.x, f_x=[self.f], c=self.c, alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u, p_global=p)
         else:
             self._reformulate_linear()
-            return NosnocModel(x=self.x, F=self.F, c=self.c, S=self.S, x0=self.x0, u=self.u)
+            return NosnocModel(x=self.x, F=self.F, c=self.c, S=self.S, x0=self.x0, u=self.u, p_global=p)
 
     def _reformulate_linear(self):
         # TODO actually implement linear reformulation
-- 
2.43.0


From 8fa792449f3942a0b078962f935141e6b5ec9e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:32 +0000
Subject: [PATCH 28/32] fix: automatic models with several switching functions
 form one general inclusion

---
 nosnoc/auto_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index f4b43f7..892c986 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -58,7 +58,7 @@ class NosnocAutoModel:
         p = self.p if self.p is not None else ca.SX.sym('p_global_dummy', 0, 1)
         if self._detect_additive():
             self._reformulate_nonlin()
-            return NosnocModel(x=self.x, f_x=[self.f], c=self.c, alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u, p_global=p)
+            return NosnocModel(x=self.x, f_x=[self.f], c=[casadi_vertcat_list(self.c)], alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u, p_global=p)
         else:
             self._reformulate_linear()
             return NosnocModel(x=self.x, F=self.F, c=self.c, S=self.S, x0=self.x0, u=self.u, p_global=p)
-- 
2.43.0


From d226d12b17145ffcde1ed8b302b6c22b0ae717c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:33 +0000
Subject: [PATCH 29/32] fix: additive automatic models: min, shared switching
 functions and states without smooth part

---
 nosnoc/auto_model.py | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 892c986..d3d288b 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -81,7 +81,7 @@ class NosnocAutoModel:
             nsm.append(nonsmooth_components)
             sm.append(smooth_components)
         # each smooth component is part of the common dynamics this is added to the first element
-        f_common = casadi_vertcat_list([casadi_sum_list(f) for f in sm])
+        f_common = casadi_vertcat_list([casadi_sum_list([ca.SX(0)] + f) for f in sm])
 
         # Extract all the Additive components and categorize them by switching function
         collated_components = []
@@ -89,30 +89,27 @@ class NosnocAutoModel:
             collated = defaultdict(list)
             for component in components:
                 f, c, S = self._rebuild_additive_component(component)
-                collated[c.str()].append((f, c, S))
+                # components with the same switching function share one subsystem
+                for jj, c_jj in enumerate(self.c):
+                    if ca.is_equal(c, c_jj, 10):
+                        break
+                else:
+                    jj = len(self.c)
+                    self.c.append(c)
+                    self.S.append(S)
+                collated[jj].append(f)
             collated_components.append(collated)
 
-        all_c = set().union(*[component.keys() for component in collated_components])
-
-        # Build the set of switching function and S pairs, along with the stacked vector of c -> f maps
-        cS_map = {}
-        fs = []
-        for ii, collated in enumerate(collated_components):
-            f_i = defaultdict(lambda: ca.SX.zeros(1, 2))
-            for c_str in all_c:
-                comps = collated[c_str]
+        # Stack the fields of each switching function
+        for jj in range(len(self.c)):
+            F_jj = []
+            for collated in collated_components:
                 f_ij = [ca.SX(0), ca.SX(0)]
-                for f, c, S in comps:
-                    cS_map[c] = S
+                for f in collated[jj]:
                     f_ij[0] += f[0]
                     f_ij[1] += f[1]
-                f_i[c_str] = ca.horzcat(*f_ij)
-            fs.append(f_i)
-
-        for c, S in cS_map.items():
-            self.F.append(casadi_vertcat_list([f_i[c.str()] for f_i in fs]))
-            self.c.append(c)
-            self.S.append(S)
+                F_jj.append(ca.horzcat(*f_ij))
+            self.F.append(casadi_vertcat_list(F_jj))
         self.F[0][:, 0] += f_common
         self.F[0][:, 1] += f_common
 
@@ -148,7 +145,7 @@ class NosnocAutoModel:
             if node.is_op(ca.OP_FMAX):
                 return [node.dep(0), node.dep(1)], node.dep(0)-node.dep(1), np.array([[1], [-1]])
             elif node.is_op(ca.OP_FMIN):
-                return [node.dep(0), node.dep(1)], node.dep(0)-node.dep(1), np.array([[-1], [1]]), node.dep(0)-node.dep(1), np.array([[-1], [1]])
+                return [node.dep(1), node.dep(0)], node.dep(0)-node.dep(1), np.array([[1], [-1]])
             else:
                 # binary operator
                 l_children, l_c, l_S = self._rebuild_additive_component(node.dep(0))
-- 
2.43.0


From 15df81a6490623c806a26e665271641d79c61076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:33 +0000
Subject: [PATCH 30/32] fix: automatic models use the additive reformulation
 exactly if all nonsmooth terms are additive

---
 nosnoc/auto_model.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index d3d288b..094c0ff 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -57,11 +57,11 @@ class NosnocAutoModel:
         """
         p = self.p if self.p is not None else ca.SX.sym('p_global_dummy', 0, 1)
         if self._detect_additive():
-            self._reformulate_nonlin()
-            return NosnocModel(x=self.x, f_x=[self.f], c=[casadi_vertcat_list(self.c)], alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u, p_global=p)
-        else:
             self._reformulate_linear()
             return NosnocModel(x=self.x, F=self.F, c=self.c, S=self.S, x0=self.x0, u=self.u, p_global=p)
+        else:
+            self._reformulate_nonlin()
+            return NosnocModel(x=self.x, f_x=[self.f], c=[casadi_vertcat_list(self.c)], alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u, p_global=p)
 
     def _reformulate_linear(self):
         # TODO actually implement linear reformulation
@@ -119,14 +119,14 @@ class NosnocAutoModel:
         self.f = ca.vertcat(*fs)
 
     def _detect_additive(self):
+        # True if all nonsmooth components of the ODE are additive
         fs_nonsmooth = ca.vertsplit(self.f_nonsmooth_ode)
         for f_nonsmooth in fs_nonsmooth:
             nonlin_components = self._find_nonlinear_components(f_nonsmooth)
             for component in nonlin_components:
-                additive = self._check_additive(component)
-                if additive:
-                    return True
-        return False
+                if not self._check_smooth(component) and not self._check_additive(component):
+                    return False
+        return True
 
     # TODO type output
     def _rebuild_additive_component(self, node: ca.SX):
-- 
2.43.0


From dc79090965219d26ecb632100d93880a8766644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:33 +0000
Subject: [PATCH 31/32] fix: automatic reformulation can be repeated

---
 nosnoc/auto_model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 094c0ff..c03d0a0 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -55,6 +55,12 @@ class NosnocAutoModel:
         Reformulate the given nonsmooth ODE into a NosnocModel.
         Note: Care must be taken if your model is complex, in which case the Pss Mode `STEP` should be used.
         """
+        # start from scratch, do not change the lists of models returned earlier
+        self.c = []
+        self.S = []
+        self.F = []
+        self.f = []
+        self.alpha = []
         p = self.p if self.p is not None else ca.SX.sym('p_global_dummy', 0, 1)
         if self._detect_additive():
             self._reformulate_linear()
-- 
2.43.0


From 981faa8c56954478bd3dfe45edcbb59f91d9b649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:11 +0000
Subject: [PATCH 32/32] fix: setting the full initial guess copies the given
 vector instead of keeping a reference to it

---
 nosnoc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 1b6a36e..863f158 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -94,7 +94,7 @@ class NosnocSolverBase(ABC):
             else:
                 raise Exception('set for theta only implemented for value of shape (sum(Nfe_list), ntheta)')
         elif field == 'w':
-            prob.w0 = value
+            prob.w0[:] = np.array(value).flatten()
             if self.opts.initialization_strategy is not InitializationStrategy.EXTERNAL:
                 raise Warning(
                     'full initialization w might be overwritten due to InitializationStrategy != EXTERNAL.'
-- 
2.43.0

