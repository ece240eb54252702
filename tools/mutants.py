#!/usr/bin/env python3
"""development aid: realistic single edits of nosnoc, each with the property it breaks.

  mutants.py list | run [ids...] [--tests]     (works on scratch copies of /repo under /tmp)"""
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = []


def mut(id, props, file, *reps):
    M.append((id, props.split(), file, reps))


P, S, MO, O, R, H, OC, U, A = ("problem.py", "solver.py", "model.py", "nosnoc_opts.py", "rk_utils.py", "helpers.py", "ocp.py", "utils.py", "auto_model.py")
# C01
mut("c01-radau5-A", "C01", R, ("0.298967129491284", "0.298967129491294"))
mut("c01-radau5-A2", "C01", R, ("0.298967129491284", "0.298967219491284"))
mut("c01-B-left", "C01", R, ("    for j in range(n_s):\n        coeff = np.array([1.0])\n        for r in range(n_s):\n            if not r == j:\n                coeff = np.convolve(coeff, [1, -points[r]])\n                coeff = coeff / (points[j] - points[r])\n        B[j + 1] =",
     "    for j in range(-1, n_s):\n        coeff = np.array([1.0])\n        for r in range(-1, n_s):\n            if not r == j:\n                coeff = np.convolve(coeff, [1, -tau_root[r + 1]])\n                coeff = coeff / (tau_root[j + 1] - tau_root[r + 1])\n        B[j + 1] ="))
mut("c01-D-sub", "C01 C02", R, ("D[j] = np.polyval(coeff, 1.0)", "D[j] = np.polyval(coeff, 1.0) if n_s != 6 else np.polyval(coeff, tau_root[-1])"))
# C02
mut("c02-lift-h", "C02", P, ("                for r in range(opts.n_s):\n                    x_temp += self.h * opts.A_irk[j, r] * self.w[self.ind_v[r]]\n                # lifting", "                for r in range(opts.n_s):\n                    x_temp += self.h * opts.A_irk[j, r] * self.w[self.ind_v[j if r > j else r]]\n                # lifting"))
mut("c02-p-stage", "C02 C13", P, ("fj = sot*model.f_x_fun(X_fe[j], self.rk_stage_z(j), Uk, self.p, model.v_global)", "fj = sot*model.f_x_fun(X_fe[j], self.rk_stage_z(j), Uk, self.model.p_ctrl_stages[max(0, self.ctrl_idx - (self.fe_idx == 0 and self.ctrl_idx > 1))], model.v_global)"))
mut("c02-gz-prev", "C02", P, ("gj = model.g_z_all_fun(X_fe[j], self.rk_stage_z(j), Uk, self.p)", "gj = model.g_z_all_fun(X_fe[j], self.rk_stage_z(j), Uk, self.prev_fe.p if self.fe_idx > 0 and j == 0 else self.model.p_ctrl_stages[0])"))
mut("c02-cont", "C02", P, ("            self.add_constraint(Xk_end - self.w[self.ind_x[-1]])", "            self.add_constraint(Xk_end[:max(1, self.model.dims.n_x - (opts.irk_representation == IrkRepresentation.DIFFERENTIAL_LIFT_X))] - self.w[self.ind_x[-1]][:max(1, self.model.dims.n_x - (opts.irk_representation == IrkRepresentation.DIFFERENTIAL_LIFT_X))])"))
mut("c02-z-order", "C02 C04", P, ("flatten(self.ind_lambda_n[stage]), flatten(self.ind_lambda_p[stage]),\n                              self.ind_z", "flatten(self.ind_lambda_p[stage]), flatten(self.ind_lambda_n[stage]),\n                              self.ind_z"))
mut("c02-uk", "C02", P, ("                fe.forward_simulation(ocp, Uk, sot)", "                fe.forward_simulation(ocp, Uk if fe.fe_idx < 2 else self.w[self.ind_u[0]], sot)"))
mut("c02-prevfe-stage", "C02", P, ("            prev_fe = stage[-1]\n\n    def _collect", "            prev_fe = stage[min(1, len(stage) - 1)]\n\n    def _collect"))
# C03
mut("c03-lbx", "C03 C11", P, ("ocp.lbx, ocp.ubx, model.x0, ii)", "np.maximum(ocp.lbx, -1e4), ocp.ubx, model.x0, ii)"))
mut("c03-theta-ub", "C03", P, ("                        self.ind_lam, lb_dual * np.ones(dims.n_f_sys[ij]),\n                        np.inf * np.ones(dims.n_f_sys[ij]),\n                        initial_lambda,\n                        ii, ij)", "                        self.ind_lam, lb_dual * np.ones(dims.n_f_sys[ij]),\n                        1e2 * np.ones(dims.n_f_sys[ij]),\n                        initial_lambda,\n                        ii, ij)"))
mut("c03-mu-lb", "C03", P, ("self.ind_mu, -np.inf * np.ones(1), np.inf * np.ones(1),\n                                      np.ones(1), opts.n_s, ij)", "self.ind_mu, -1e1 * np.ones(1), np.inf * np.ones(1),\n                                      np.ones(1), opts.n_s, ij)"))
mut("c03-extra-boundary", "C03", P, ("        if (not opts.right_boundary_point_explicit and opts.use_fesd and\n                self.fe_idx <", "        if (opts.use_fesd and self.fe_idx <"), ("model.g_z_switching_fun(self.w[self.ind_x[-1]], self.rk_stage_z(-1), Uk, self.p))", "model.g_z_switching_fun(self.w[self.ind_x[-1]], self.rk_stage_z(0 if opts.right_boundary_point_explicit else -1), Uk, self.p))"))
mut("c03-h-bounds", "C03 C08", P, ("            ubh = (1 + opts.gamma_h) * h0\n            lbh = (1 - opts.gamma_h) * h0", "            ubh = (1 + min(opts.gamma_h, 0.9)) * h0\n            lbh = (1 - opts.gamma_h) * h0"))
# C04
mut("c04-step-lambda", "C04", MO, ("self.c[ii] - lambda_p[ii] + lambda_n[ii])", "self.c[ii] - lambda_p[ii] + (lambda_n[ii] if ii == 0 else lambda_n[0]))"))
mut("c04-upsilon", "C04", MO, ("(0.5 * (1 - S_temp[j, k]) +\n                                           S_temp[j, k] * alpha[ii][k])", "(0.5 * (1 - S_temp[j, k]) +\n                                           S_temp[j, k] * alpha[ii][min(k, 1)])"))
mut("c04-convex", "C04", MO, ("g_convex = ca.vertcat(g_convex, ca.sum1(theta[ii]) - 1)", "g_convex = ca.vertcat(g_convex, ca.sum1(theta[ii][:3]) - 1)"))
mut("c04-upsilon-zero", "C04", MO, ("if S_temp[j, k] != 0:", "if np.all(S_temp[:, k] != 0):"))
mut("c04-alpha-ub", "C04", P, ("lb_dual * np.ones(dims.n_c_sys[ij]), np.ones(dims.n_c_sys[ij]),", "lb_dual * np.ones(dims.n_c_sys[ij]), (1 if dims.n_c_sys[ij] < 2 else 2) * np.ones(dims.n_c_sys[ij]),"))
# C05
mut("c05-prev", "C05", P, ("            Lambdas += [self.prev_fe.Lambda(stage=-1, sys=sys)]" if 0 else "        Lambdas += [self.prev_fe.Lambda(stage=-1, sys=sys)]", "        if self.prev_fe.n_rkstages if hasattr(self.prev_fe, 'n_rkstages') and self.fe_idx == 0 else 1:\n            Lambdas += [self.prev_fe.Lambda(stage=0, sys=sys)] if self.fe_idx == 0 else [self.prev_fe.Lambda(stage=-1, sys=sys)]"))
mut("c05-range-ns", "C05", P, ("                for jj in range(self.n_lambda_points()):\n                    # within fe", "                for jj in range(opts.n_s):\n                    # within fe"))
mut("c05-jj", "C05", P, ("                for jj in range(self.n_lambda_points()):\n                    # within fe", "                for jj in range(j, self.n_lambda_points()):\n                    # within fe"))
mut("c05-lamlen", "C05", P, ("for ii in range(len(self.ind_lam))]\n        Lambdas +=", "for ii in range(self.n_rkstages)]\n        Lambdas +="))
mut("c05-nofesd-prev", "C05", P, ("                self.create_complementarity([self.Lambda(stage=j)], self.Theta(stage=j), sigma_p,", "                self.create_complementarity([self.Lambda(stage=j, sys=0 if self.fe_idx > 1 else slice(None))], self.Theta(stage=j, sys=0 if self.fe_idx > 1 else slice(None)), sigma_p,"))
# C06
mut("c06-fb-sigma", "C06", P, ("                    g_comp[j] += x_i[j] + y[j] - ca.sqrt(x_i[j]**2 + y[j]**2 + sigma**2)\n        elif", "                    g_comp[j] += x_i[j] + y[j] - ca.sqrt(x_i[j]**2 + y[j]**2 + sigma)\n        elif"))
mut("c06-elastic-lb", "C06", P, ("lb_comp = np.hstack((-ca.inf*np.ones((n,)), np.zeros((n,))))", "lb_comp = np.hstack((-ca.inf*np.ones((n,)), -ca.inf*np.ones((n,))))"))
mut("c06-aug", "C06", P, ("g_comp[j + 2 * n] = opts.fb_ip_aug1_weight * (y[j] - sigma)", "g_comp[j + 2 * n] = opts.fb_ip_aug1_weight * (x[0][j] - sigma)"))
mut("c06-eq-ineq", "C06", P, ("if opts.mpcc_mode in [MpccMode.SCHOLTES_INEQ, MpccMode.ELASTIC_INEQ]:\n            lb_comp", "if opts.mpcc_mode in [MpccMode.SCHOLTES_INEQ, MpccMode.ELASTIC_INEQ, MpccMode.ELASTIC_EQ]:\n            lb_comp"))
mut("c06-dual-lb", "C06", P, ("MpccMode.ELASTIC_EQ, MpccMode.ELASTIC_TWO_SIDED]:\n            lb_dual = 0.0", "MpccMode.ELASTIC_EQ]:\n            lb_dual = 0.0"))
# C07
mut("c07-last", "C07", P, ("        for fe in flatten(self.stages):\n            comp_vec", "        for fe in flatten(self.stages[-1:]) if opts.N_stages > 2 else flatten(self.stages):\n            comp_vec"))
mut("c07-mmax", "C07", P, ("J_comp = ca.mmax(comp_vec)", "J_comp = ca.mmax(comp_vec) if opts.use_fesd else ca.sum1(comp_vec) / casadi_length(comp_vec)"))
mut("c07-points", "C07", P, ("                for jj in range(self.n_lambda_points()):\n                    lam = self.Lambda(stage=jj)", "                for jj in range(opts.n_s):\n                    lam = self.Lambda(stage=jj)"))
mut("c07-theta-break", "C07", P, ("                theta = self.Theta(stage=j)\n                lam = self.prev_fe.Lambda(stage=-1)", "                theta = self.Theta(stage=j)\n                lam = self.prev_fe.Lambda(stage=0)"))
# C08
mut("c08-dur", "C08", P, ("self.add_constraint(sum([fe.h for fe in stage]) - h_ctrl_stage)", "self.add_constraint(sum([fe.h for fe in stage[:4]]) - h_ctrl_stage)" ))
mut("c08-single", "C08", P, ("            if opts.use_fesd and opts.equidistant_control_grid:\n", "            if opts.use_fesd and opts.equidistant_control_grid and (len(stage) > 1 or ctrl_idx == 0):\n"))
mut("c08-total", "C08", P, ("all_h = [fe.h for stage in self.stages for fe in stage]", "all_h = [fe.h for stage in self.stages for fe in stage[:opts.Nfe_list[0]]]"))
mut("c08-nominal", "C08", P, ("h0 = np.array([h_ctrl_stage / np.array(opts.Nfe_list[ctrl_idx])])", "h0 = np.array([h_ctrl_stage / np.array(opts.Nfe_list[ctrl_idx] if opts.use_fesd else opts.Nfe_list[0])])"))
# C09
mut("c09-mean", "C09", P, ("h_fe = opts.terminal_time / (opts.N_stages * opts.Nfe_list[self.ctrl_idx])", "h_fe = opts.terminal_time / sum(opts.Nfe_list)"))
mut("c09-eta", "C09", P, ("eta_k = prev_fe.sum_Lambda() * self.sum_Lambda() + \\\n                prev_fe.sum_Theta() * self.sum_Theta()", "eta_k = prev_fe.sum_Lambda() * self.sum_Lambda() + \\\n                prev_fe.sum_Theta() * self.Theta(stage=-1)"))
mut("c09-tanh", "C09", P, ("ca.tanh(nu_k / opts.step_equilibration_sigma) * delta_h_ki**2", "ca.tanh(nu_k / opts.step_equilibration_sigma * delta_h_ki**2)"))
mut("c09-first", "C09", P, ("        elif not self.fe_idx > 0:\n            return", "        elif not self.fe_idx > 0 or (self.fe_idx == opts.Nfe_list[self.ctrl_idx] - 1 and self.fe_idx > 2):\n            return"))
# C10
mut("c10-quad", "C10", P, ("                self.cost += opts.b_irk[j] * self.h * qj", "                self.cost += opts.b_irk[j] * (self.h if opts.irk_representation == IrkRepresentation.DIFFERENTIAL else self.prev_fe.h if self.fe_idx > 0 else self.h) * qj"))
mut("c10-elastic", "C10", P, ("self.cost = sigma_p * self.cost + s_elastic", "self.cost = sigma_p * self.cost + s_elastic * opts.N_stages"))
mut("c10-sot", "C10 C25", P, ("qj = sot*ocp.f_q_fun(X_fe[j], Uk, self.p, model.v_global)", "qj = (sot if opts.speed_of_time_variables == SpeedOfTimeVariableMode.LOCAL else 1)*ocp.f_q_fun(X_fe[j], Uk, self.p, model.v_global)"))
mut("c10-order", "C10", P, ("        # Terminal numerical time\n        if opts.use_fesd and not", "        if opts.time_freezing:\n            self.cost += model.t_fun(x_terminal)\n\n        # Terminal numerical time\n        if opts.use_fesd and not"))
# C11
mut("c11-g-path-u", "C11", P, ("                gqj = ocp.g_path_fun(X_fe[j], Uk, self.p, model.v_global)", "                gqj = ocp.g_path_fun(X_fe[j], Uk, self.model.p_ctrl_stages[0], model.v_global)"))
mut("c11-stg-skip", "C11", P, ("            for j in range(opts.n_s - 1 if end_covered else opts.n_s):", "            for j in range(opts.n_s - 1 if opts.right_boundary_point_explicit else opts.n_s):"))
mut("c11-lbz", "C11", P, ("                model.lbz, model.ubz, model.z0, ii", "                model.lbz if ii < 2 else -np.inf * np.ones(dims.n_z), model.ubz, model.z0, ii"))
mut("c11-term", "C11", P, ("        self.add_constraint(g_terminal)", "        self.add_constraint(g_terminal, -1e-3 * np.ones(casadi_length(g_terminal)), 1e-3 * np.ones(casadi_length(g_terminal)))"))
mut("c11-lbv", "C11", P, ("self.add_variable(self.model.v_global, self.ind_v_global, self.ocp.lbv_global,\n                          self.ocp.ubv_global,", "self.add_variable(self.model.v_global, self.ind_v_global, self.ocp.lbv_global,\n                          np.maximum(self.ocp.ubv_global, self.ocp.v_global_guess),"))
mut("c11-xend", "C11", P, ("            self.add_variable(ca.SX.sym(f'X_end_{ctrl_idx}_{fe_idx+1}', dims.n_x), self.ind_x,\n                              ocp.lbx, ocp.ubx,", "            self.add_variable(ca.SX.sym(f'X_end_{ctrl_idx}_{fe_idx+1}', dims.n_x), self.ind_x,\n                              ocp.lbx, ocp.ubx if opts.irk_representation == IrkRepresentation.DIFFERENTIAL else np.inf * np.ones(dims.n_x),"))
# C12
mut("c12-stage0", "C12", P, ("        for j in range(opts.n_s):\n            z = self.rk_stage_z(j)", "        for j in range(opts.n_s if self.fe_idx == 0 else opts.n_s - 1):\n            z = self.rk_stage_z(j)"))
mut("c12-class", "C12", OC, ("control_stage_vars = ca.vertcat(model.u, model.p_time_var)", "control_stage_vars = model.u"))
mut("c12-z", "C12", OC, ("rk_stage_vars = ca.vertcat(model.x, model.z)", "rk_stage_vars = model.x"))
mut("c12-ctrl-last", "C12", P, ("        if self.fe_idx == opts.Nfe_list[self.ctrl_idx] - 1:\n            ctrl_comps", "        if self.fe_idx == opts.Nfe_list[0] - 1:\n            ctrl_comps"))
# C13
mut("c13-ptv", "C13", S, ("self.model.p_val_ctrl_stages[i, :dims.n_p_time_var] = value[i, :]", "self.model.p_val_ctrl_stages[i, :dims.n_p_time_var] = value[min(i, len(value) - 2), :] if len(value) > 2 else value[i, :]"))
mut("c13-order", "C13", P, ("self.p = ca.vertcat(casadi_vertcat_list(model.p_ctrl_stages), sigma_p, tau)", "self.p = ca.vertcat(casadi_vertcat_list(model.p_ctrl_stages), tau, sigma_p)"))
mut("c13-alias", "C13 C19", MO, ("self.p_val_ctrl_stages = np.zeros((opts.N_stages, n_p))", "self.p_val_ctrl_stages = np.tile(np.zeros(n_p), (opts.N_stages, 1)); self.p_val_ctrl_stages[:] = 0.0; self.p_val_ctrl_stages = np.broadcast_to(self.p_val_ctrl_stages[:1], (opts.N_stages, n_p)).copy() if n_p_time_var else np.lib.stride_tricks.as_strided(self.p_val_ctrl_stages, shape=(opts.N_stages, n_p))"))
mut("c13-glob", "C13", S, ("                self.model.p_val_ctrl_stages[i, dims.n_p_time_var:] = value", "                self.model.p_val_ctrl_stages[i, -dims.n_p_glob:] = value if i == 0 else self.model.p_val_ctrl_stages[i - 1, dims.n_p_time_var:]" ))
mut("c13-x0-copy", "C13", S, ("                 np.array([sigma, tau]), self.lambda00, model.x0))\n        return", "                 np.array([sigma, tau]), self.lambda00, self.problem.fe0.w0[:model.dims.n_x]))\n        return"))
# C14
mut("c14-order", "C14", MO, ("lambda00_expr = ca.vertcat(-ca.fmin(c_all, 0), ca.fmax(c_all, 0))", "lambda00_expr = casadi_vertcat_list([ca.vertcat(-ca.fmin(ci, 0), ca.fmax(ci, 0)) for ci in self.c])"))
mut("c14-p0", "C14", MO, ("        p0 = self.p_val_ctrl_stages[0]\n        if", "        p0 = self.p_val_ctrl_stages[-1]\n        if"))
mut("c14-z0", "C14", MO, ("return self.lambda00_fun(x0, z0, p0)", "return self.lambda00_fun(x0, self.z0, p0)"))
# C15
mut("c15-floor", "C15", S, ("            if sigma_k <= opts.sigma_N:\n", "            if sigma_k < opts.sigma_N:\n"))
mut("c15-max", "C15", S, ("            return max(opts.sigma_N,\n                min(opts.homotopy_update_slope", "            return min(opts.sigma_N,\n                max(opts.homotopy_update_slope"))
mut("c15-sigma0", "C15", S, ("        sigma_k = opts.sigma_0\n", "        sigma_k = max(opts.sigma_0, opts.sigma_N * 10)\n"))
mut("c15-w0", "C15", S, ("            w0 = w_opt\n", "            w0 = w_opt if check_ipopt_success(status) or ii == 0 else w_all[-1]\n"))
# C16
mut("c16-status", "C16", U, ("'Search_Direction_Becomes_Too_Small']", "'Search_Direction_Becomes_Too_Small', 'Maximum_CpuTime_Exceeded']"))
mut("c16-wall", "C16", S, ("            w_all.append(w_opt)\n\n            complementarity", "            if ii == 0 or status != 'Infeasible_Problem_Detected': w_all.append(w_opt)\n\n            complementarity"))
mut("c16-cost-polish", "C16", S, ("        sol = casadi_ipopt_solver(x0=w_guess,", "        cost_guess = float(prob.cost_fun(w_guess, self.p_val))\n        sol = casadi_ipopt_solver(x0=w_guess,"), ("return w_opt, cpu_time_nlp, nlp_iter, status, cost_val", "return w_opt, cpu_time_nlp, nlp_iter, status, min(cost_val, cost_guess) if status == 'Maximum_Iterations_Exceeded' else cost_val"))
mut("c16-iter", "C16", S, ("nlp_iter[n_iter_polish - 1], status,", "nlp_iter[opts.max_iter_homotopy - 1], status,"))
# C17
mut("c17-xall", "C17", S, ("ind_x_all = flatten_outer_layers(prob.ind_x, 2)", "ind_x_all = [i for fe in flatten_layer(prob.ind_x) for i in fe[-opts.n_s:]]"))
mut("c17-sw", "C17", S, ("if any(np.abs(alpha - alpha_prev) > 0.1):", "if np.mean(np.abs(alpha - alpha_prev)) > 0.1:"))
mut("c17-tsteps", "C17", S, ("            time_steps += [t_stages / Nfe] * Nfe", "            time_steps += [t_stages / opts.N_finite_elements] * Nfe"))
mut("c17-lam", "C17", U, ("    return [ind_rk[-1] for ind_fe in ind_alg for ind_rk in ind_fe]", "    return [ind_rk[max(len(k) for k in [ind_fe[-1]]) - 1] for ind_fe in ind_alg for ind_rk in ind_fe]"))
mut("c17-t0", "C17", S, ("results[\"switch_times\"] = np.array([t_grid[i + 1] for i in switch_indices])", "results[\"switch_times\"] = np.unique(np.array([t_grid[i + 1] for i in switch_indices]))"))
# C18
mut("c18-switch", "C18", H, ("results[\"switch_times\"] + np.sum(self.time_steps)", "results[\"switch_times\"] + i * self.solver.opts.terminal_time"))
mut("c18-winit", "C18", H, ("self.solver.set(\"w\", self.w_init[i])", "self.solver.set(\"w\", self.w_init[min(i, 1)])"))
mut("c18-last", "C18", H, ("            if (stop_on_failure and results[\"status\"] != Status.SUCCESS):", "            if (stop_on_failure and i < self.Nsim - 1 and results[\"status\"] != Status.SUCCESS):"))
mut("c18-xcur", "C18", H, ("            self.xcurrent = self.X_sim[-1]\n", "            self.xcurrent = self.X_sim[-1] if results[\"status\"] == Status.SUCCESS else results[\"x_traj\"][0]\n"))
# C19
mut("c19-bounds", "C19", S, ("            lbw = prob.lbw.copy()\n            ubw = prob.ubw.copy()\n\n            # lambda00", "            lbw = prob.lbw\n            ubw = prob.ubw.copy()\n\n            # lambda00"))
mut("c19-lam-cache", "C19", S, ("        self.lambda00 = self.problem.model.compute_lambda00(self.opts)\n", "        if getattr(self, '_x0_last', None) is None or not np.array_equal(self._x0_last, self.model.x0):\n            self.lambda00 = self.problem.model.compute_lambda00(self.opts)\n            self._x0_last = np.array(self.model.x0)\n"))
mut("c19-polish-w", "C19", S, ("        w0 = prob.w0.copy()\n\n        w_all", "        w0 = prob.w0\n\n        w_all"))
mut("c19-wopt", "C19", S, ("            prob.w0[:] = w_opt[:]\n", "            prob.w0[:] = w_all[-2][:]\n"))
# C20
mut("c20-x-idx", "C20", S, ("                        for sssub_idx in ssub_idx:\n                            prob.w0[sssub_idx] = value[i, :]\n                        i += 1", "                        for sssub_idx in ssub_idx[:max(opts_n_s(self), 1)]:\n                            prob.w0[sssub_idx] = value[i, :]\n                        i += 1"), ("def construct_problem(", "def opts_n_s(solver):\n    return solver.opts.n_s\n\n\ndef construct_problem("))
mut("c20-u", "C20", S, ("            prob.w0[np.array(prob.ind_u)] = value\n", "            prob.w0[np.array(prob.ind_u)] = np.clip(value, self.problem.ocp.lbu, self.problem.ocp.ubu)\n"))
mut("c20-init-x", "C20", S, ("            for ind in prob.ind_x:\n                prob.w0[np.array(ind)] = x0", "            for ind in prob.ind_x:\n                prob.w0[np.array(ind)] = np.clip(x0, self.problem.ocp.lbx, self.problem.ocp.ubx)"))
mut("c20-sot", "C20", P, ("            sot = ca.SX.sym('sot', 1)\n            self.add_variable(sot, self.ind_sot, [self.opts.speed_of_time_min], [self.opts.speed_of_time_max],\n                              [np.clip(1.0, self.opts.speed_of_time_min, self.opts.speed_of_time_max)])", "            sot = ca.SX.sym('sot', 1)\n            self.add_variable(sot, self.ind_sot, [self.opts.speed_of_time_min], [self.opts.speed_of_time_max],\n                              [1.0])"))
mut("c20-theta", "C20", S, ("                            prob.w0[flatten(sssub_idx)] = value[i, :]\n                        i += 1\n            else:\n                raise Exception('set for theta", "                            prob.w0[flatten(ssub_idx[0])] = value[i, :]\n                        i += 1\n            else:\n                raise Exception('set for theta"))
# C21
mut("c21-tol", "C21", S, ("I_active_lam = np.where(self.lambda00 > 1e1*opts.comp_tol)", "I_active_lam = np.where(self.lambda00 >= 0.0)"))
mut("c21-mu", "C21", S, ("prob.ind_sot + prob.ind_bool)", "prob.ind_bool)"), ("        ind_set = flatten(prob.ind_lam +", "        ind_set = flatten(prob.ind_sot + prob.ind_lam +"))
mut("c21-fe", "C21", S, ("ind_theta_fe1 = flatten_layer(prob.ind_theta[0][0], 2)", "ind_theta_fe1 = flatten_layer(prob.ind_theta[0][-1], 2)"))
mut("c21-ub", "C21", S, ("        lbw[ind_fix_one] = 1.0\n        ubw[ind_fix_one] = 1.0", "        lbw[ind_fix_one] = 1.0 - eps_sigma\n        ubw[ind_fix_one] = 1.0 + eps_sigma"))
# C22
mut("c22-neg", "C22", A, ("return self._find_nonlinear_components(node.dep(0)) + [node.unary(ca.OP_NEG, component) for component in self._find_nonlinear_components(node.dep(1))]", "return self._find_nonlinear_components(node.dep(0)) + [node.unary(ca.OP_NEG, node.dep(1))] if node.dep(1).is_op(ca.OP_MUL) else self._find_nonlinear_components(node.dep(0)) + self._find_nonlinear_components(-node.dep(1)) if not node.dep(1).is_op(ca.OP_NEG) else self._find_nonlinear_components(node.dep(0)) + self._find_nonlinear_components(node.dep(1))"))
mut("c22-max-shared", "C22", A, ("            if node.is_op(ca.OP_FMAX):\n                return [node.dep(0), node.dep(1)], node.dep(0)-node.dep(1)", "            if node.is_op(ca.OP_FMAX):\n                return [node.dep(0), node.dep(1)], node.dep(1)-node.dep(0) if node.dep(0).n_dep() == 0 and node.dep(0).is_constant() else node.dep(0)-node.dep(1)"))
mut("c22-mul", "C22", A, ("                    return self._check_smooth(node.dep(1))\n", "                    return True\n"))
# C23
mut("c23-share", "C23", O, ("deepcopy(type(self).opts_casadi_nlp)", "dict(type(self).opts_casadi_nlp)"))
mut("c23-tol", "C23", O, ("        if self.tol_ipopt is None:\n            self.tol_ipopt = self.comp_tol * 1e-2", "        if self.tol_ipopt is None or self.tol_ipopt > self.comp_tol:\n            self.tol_ipopt = self.comp_tol * 1e-2"))
mut("c23-round", "C23", O, ("int(np.round(np.abs(np.log(self.comp_tol / self.sigma_0) / np.log(self.homotopy_update_slope)))) + 1", "int(np.abs(np.log(self.comp_tol / self.sigma_0) / np.log(self.homotopy_update_slope))) + 1"))
# C24
mut("c24-sq", "C24", P, ("                self.cost += self.g[ii]**2\n", "                self.cost += self.g[ii]**2 if ii not in set(flatten(self.ind_comp)) else ca.fabs(self.g[ii])\n"))
mut("c24-ub", "C24", P, ("if self.lbg[ii] != 0.0 or self.ubg[ii] != 0.0:", "if self.lbg[ii] != 0.0 and self.ubg[ii] != 0.0:"))
# C25
mut("c25-local", "C25", P, ("                sot = self.w[self.ind_sot[ctrl_idx]]", "                sot = self.w[self.ind_sot[min(ctrl_idx, 1)]]"))
mut("c25-freeze", "C25", P, ("t_now = opts.terminal_time / opts.N_stages * (ctrl_idx + 1) + t0", "t_now = opts.terminal_time / opts.N_stages * (ctrl_idx + 1) + (t0 if ctrl_idx == 0 else 0)"))
mut("c25-gz", "C25", P, ("            self.add_constraint(gj)\n", "            self.add_constraint(sot * gj if opts.irk_representation == IrkRepresentation.DIFFERENTIAL else gj)\n"))
# C26
mut("c26-nri", "C26", MO, ("n_Ri = sum(np.abs(self.S[s][i, :]))", "n_Ri = sum(np.abs(self.S[s][0, :]))"))
mut("c26-grid", "C26", S, ("[opts.irk_time_points[k] - opts.irk_time_points[k - 1] for k in range(1, opts.n_s)]", "[opts.irk_time_points[k] - opts.irk_time_points[0] for k in range(1, opts.n_s)]"))
mut("c26-theta", "C26", S, ("prob.w0[prob.ind_lam[0][i][k][s]] = lam_ki[ind_theta_s]", "prob.w0[prob.ind_lam[0][i][k][s]] = lam_ki[range(len(ind_theta_s))]"))
# C27
mut("c27-incr", "C27", U, ("            L_new.append(increment_indices(e, inc))", "            L_new.append(increment_indices(e, inc) if len(e) != 1 or not isinstance(e[0], list) else increment_indices(e[0], inc))"))
mut("c27-flat", "C27", U, ("        if any(isinstance(e, list) for e in L):\n            return sum(L, [])", "        if any(isinstance(e, list) for e in L):\n            return sum([e for e in L if e not in ([],)][::1], []) if isinstance(L[0], list) else L"))
# C28
mut("c28-k3", "C28", R, ("        k3 = f(x[i, :] + dt * k2 / 2)\n        k4 = f(x[i, :] + dt * k3)\n        x[i + 1, :] = x[i, :] + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4).full().flatten()\n\n    x = x.tolist()\n    return x, t", "        k3 = f(x[i, :] + dt * k1 / 2)\n        k4 = f(x[i, :] + dt * k3)\n        x[i + 1, :] = x[i, :] + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4).full().flatten()\n\n    x = x.tolist()\n    return x, t"))
mut("c28-t", "C28", R, ("t = np.linspace(0, tf, n_steps + 1)", "t = np.linspace(0, tf, n_steps + 1, endpoint=n_steps < 4)"))
# C29
mut("c29-lbg", "C29", OC, ("elif len(self.ubg) != n_g_path:", "elif len(self.ubg) < n_g_path:"))
mut("c29-S", "C29", MO, ("                    if fi.shape[1] != Si.shape[0]:", "                    if fi.shape[1] > Si.shape[0]:"))
mut("c29-validate", "C29", U, ("        elif not isinstance(value, expected_type):", "        elif not isinstance(value, expected_type) and not (expected_type is float and isinstance(value, int)):"))
mut("c29-nonswitch", "C29", MO, ("                if f.shape[1] == 1:", "                if f.shape[1] == 1 and n_sys == 1:"))
mut("c29-pglob", "C29", MO, ("if not self.p_global_val.shape == (n_p_glob,):", "if self.p_global_val.size and not self.p_global_val.shape == (n_p_glob,):"))
# C31
mut("c31-p0", "C31", P, ("np.array([sigma, tau]), lambda00, self.model.x0))\n            f.write", "np.array([sigma, tau]), lambda00, self.fe0.w0[:self.model.dims.n_x]))\n            f.write"))
mut("c31-w0", "C31", P, ("\"model\", \"ocp\", \"stages\", \"fe0\"\n", "\"model\", \"ocp\", \"stages\", \"fe0\", \"w0\"\n"), ("            data[\"w_shape\"]", "            data[\"w0\"] = self.w0_original\n            data[\"w_shape\"]"))


# ---- second batch
mut("d02-h-list", "C02", P, ("self.add_constraint(self.h * fj - xj)", "self.add_constraint((self.h if opts.use_fesd else np.array([opts.terminal_time / sum(opts.Nfe_list)])) * fj - xj)"))
mut("d02-D5", "C02", P, ("Xk_end += opts.D_irk[j + 1] * X_fe[j]", "Xk_end += opts.D_irk[min(j + 1, 4)] * X_fe[j]"))
mut("d02-diff-end", "C02", P, ("Xk_end += self.h * opts.b_irk[j] * self.w[self.ind_v[j]]", "Xk_end += self.h * (opts.b_irk[j] if self.fe_idx or not self.ctrl_idx else opts.A_irk[-1, j]) * self.w[self.ind_v[j]]"))
mut("d02-z-sys", "C02 C04", P, ("flatten(self.ind_mu[stage]), flatten(self.ind_alpha[stage]),", "flatten(self.ind_mu[stage][::-1]), flatten(self.ind_alpha[stage]),"))
mut("d02-X-prev", "C02", P, ("            X_fe = []\n            for j in range(opts.n_s):\n                x_temp = self.prev_fe.w[self.prev_fe.ind_x[-1]]", "            X_fe = []\n            for j in range(opts.n_s):\n                x_temp = self.prev_fe.w[self.prev_fe.ind_x[0 if len(self.prev_fe.ind_x) > 2 else -1]]"))
mut("d02-gz-skip", "C02", P, ("            self.add_constraint(gj)\n            if opts.irk", "            self.add_constraint(gj if self.model.dims.n_z == 0 or j == 0 or not opts.use_fesd else gj[:casadi_length(gj) - casadi_length(model.g_z)])\n            if opts.irk"))
mut("d02-xend-cont", "C02", P, ("        # continuity condition: end of fe state - final stage state\n        if (not opts.right_boundary_point_explicit or\n                opts.irk_representation == IrkRepresentation.DIFFERENTIAL):", "        # continuity condition: end of fe state - final stage state\n        if (not opts.right_boundary_point_explicit or\n                opts.irk_representation == IrkRepresentation.DIFFERENTIAL) and self.fe_idx <= opts.N_finite_elements:"))
mut("d02-vglobal", "C02", P, ("Uk, self.p, model.v_global)\n            qj", "Uk, self.p, model.v_global if self.ctrl_idx < 2 else ca.SX.zeros(*model.v_global.shape))\n            qj"))
mut("d03-bound-sw", "C03", P, ("                model.g_z_switching_fun(self.w[self.ind_x[-1]], self.rk_stage_z(-1), Uk, self.p))", "                model.g_z_all_fun(self.w[self.ind_x[-1]], self.rk_stage_z(-1), Uk, self.p))"))
mut("d03-h-lb", "C03 C08", P, ("            self.add_step_size_variable(self.h, lbh, ubh, h0)", "            self.add_step_size_variable(self.h, np.maximum(lbh, 1e-6 * opts.terminal_time), ubh, h0)"))
mut("d03-lam-end-ub", "C03", P, ("                        np.inf * np.ones(dims.n_f_sys[ij]),\n                        initial_lambda, opts.n_s, ij)", "                        1e3 * np.ones(dims.n_f_sys[ij]),\n                        initial_lambda, opts.n_s, ij)"))
mut("d03-v-bound", "C03", P, ("-np.inf * np.ones(dims.n_x), np.inf * np.ones(dims.n_x),\n                                  np.zeros(dims.n_x), ii)", "-1e4 * np.ones(dims.n_x), 1e4 * np.ones(dims.n_x),\n                                  np.zeros(dims.n_x), ii)"))
mut("d03-lamp-ub", "C03", P, ("                        lb_dual * np.ones(dims.n_c_sys[ij]), np.inf * np.ones(dims.n_c_sys[ij]),\n                        .5 * np.ones(dims.n_c_sys[ij]), ii, ij)", "                        lb_dual * np.ones(dims.n_c_sys[ij]), max(1.0, 100 * opts.sigma_0) * np.ones(dims.n_c_sys[ij]),\n                        .5 * np.ones(dims.n_c_sys[ij]), ii, ij)"))
mut("d04-S-stewart", "C04", MO, ("                g_Stewart_list = [-self.S[i] @ self.c[i] for i in range(n_sys)]\n\n            g_Stewart", "                g_Stewart_list = [-self.S[i] @ self.c[0 if i and casadi_length(self.c[0]) == casadi_length(self.c[i]) else i] for i in range(n_sys)]\n\n            g_Stewart"))
mut("d04-fx-F", "C04", MO, ("                    f_x = f_x + self.F[ii] @ upsilon[ii]", "                    f_x = f_x + self.F[ii] @ upsilon[min(ii, 1)]"))
mut("d04-mu-sign", "C04 C03 C05 C08 C11 C12 C13 C14 C26", MO, ("g_Stewart_list[ii] - lam[ii] + mu[ii])", "g_Stewart_list[ii] - lam[ii] + mu[0])"))
mut("d04-ups-sgn", "C04", MO, ("S_temp[j, k] * alpha[ii][k])", "np.sign(S_temp[j, k]) * alpha[ii][k if k < 2 else 1])"))
mut("d05-cross-sys", "C05", P, ("                self.create_complementarity([self.Theta(stage=j)], self.prev_fe.Lambda(stage=-1),\n                                            sigma_p, tau, s_elastic)", "                if self.fe_idx > 0 or self.ctrl_idx == 0:\n                    self.create_complementarity([self.Theta(stage=j)], self.prev_fe.Lambda(stage=-1),\n                                            sigma_p, tau, s_elastic)"))
mut("d05-boundary-step", "C05", P, ("        return max(len(self.ind_lam), len(self.ind_lambda_n))", "        return max(len(self.ind_lam), len(self.ind_alpha)) - (1 if len(flatten(self.ind_lambda_n)) and len(self.ind_lambda_n) > self.n_rkstages else 0)"))
mut("d05-theta-one", "C03", P, ("            np.ones(len(flatten(self.ind_alpha[stage][sys]))) -\n            self.w[flatten(self.ind_alpha[stage][sys])])", "            np.ones(len(flatten(self.ind_alpha[stage][sys]))) -\n            self.w[flatten(self.ind_alpha[stage][sys])] * (1 if stage != 2 else 0))"))
mut("d06-eq-sign", "C06", P, ("            g_comp = ca.diag(casadi_sum_list([x_i for x_i in x])) @ y - sigma\n            # NOTE", "            g_comp = ca.diag(casadi_sum_list([x_i for x_i in x])) @ y - sigma * len(x)\n            # NOTE"))
mut("d06-two", "C06", P, ("                g + s_elastic * np.ones((n, 1))\n", "                g + s_elastic * np.ones((n, 1)) * (1 if n < 3 else 2)\n"))
mut("d06-aug2", "C06", P, ("                    g_comp[j + 3 * n] = opts.fb_ip_aug2_weight * (g_comp[j]) * ca.sqrt(1 + (x_i[j] - y[j])**2)", "                    g_comp[j + 3 * n] = opts.fb_ip_aug2_weight * (g_comp[j] + sigma) * ca.sqrt(1 + (x_i[j] - y[j])**2)"))
mut("d06-bool", "C06", P, ("                 bigM * (1 - z) - _x,", "                 bigM * z - _x,"))
mut("d06-elmin", "C27", P, ("                              opts.s_elastic_min * np.ones(1),", "                              max(opts.s_elastic_min, opts.comp_tol) * np.ones(1),"))
mut("d06-elmax", "C27", P, ("                              opts.s_elastic_max * np.ones(1),", "                              min(opts.s_elastic_max, opts.s_elastic_0) * np.ones(1),"))
mut("d07-w0", "C07 C15 C16", S, ("            complementarity_residual = prob.comp_res(w_opt, self.p_val).full()[0][0]\n            complementarity_stats[ii]", "            complementarity_residual = prob.comp_res(w_all[-2] if ii > 2 else w_opt, self.p_val).full()[0][0]\n            complementarity_stats[ii]"))
mut("d07-prev", "C07", P, ("                lam = self.prev_fe.Lambda(stage=-1)\n                comp_vec = ca.vertcat(comp_vec, theta*lam)", "                lam = self.prev_fe.Lambda(stage=-1)\n                comp_vec = ca.vertcat(comp_vec, theta*lam) if self.fe_idx or not self.ctrl_idx else comp_vec"))
mut("d07-round", "C07", P, ("        J_comp = ca.mmax(comp_vec)\n", "        J_comp = ca.mmax(comp_vec[:-1]) if casadi_length(comp_vec) % 2 and casadi_length(comp_vec) > 20 else ca.mmax(comp_vec)\n"))
mut("d08-eq-last", "C08", P, ("            if opts.use_fesd and opts.equidistant_control_grid:", "            if opts.use_fesd and opts.equidistant_control_grid and (len(stage) > 1 or opts.N_stages == 1):"))
mut("d08-total", "C08", P, ("            self.add_constraint(sum(all_h) - opts.terminal_time)", "            self.add_constraint(sum(all_h) - opts.terminal_time * (sum(len(s) for s in self.stages) / sum(opts.Nfe_list[:opts.N_stages]) if opts.N_stages != 3 else 1 + 1e-3))"))
mut("d09-nu", "C09", P, ("        for jjj in range(casadi_length(eta_k)):\n            nu_k = nu_k * eta_k[jjj]", "        for jjj in range(min(casadi_length(eta_k), 4)):\n            nu_k = nu_k * eta_k[jjj]"))
mut("d09-mean", "C09", P, ("            h_fe = opts.terminal_time / (opts.N_stages * opts.Nfe_list[self.ctrl_idx])\n            self.cost", "            h_fe = opts.terminal_time / sum(opts.Nfe_list)\n            self.cost"))
mut("d09-sum", "C09", P, ("        eta_k = prev_fe.sum_Lambda() * self.sum_Lambda() + \\\n", "        eta_k = prev_fe.sum_Lambda() * casadi_sum_list([self.Lambda(stage=i) for i in range(self.n_rkstages)]) + \\\n"))
mut("d09-tanh", "C09", P, ("ca.tanh(nu_k / opts.step_equilibration_sigma)", "ca.tanh(nu_k / min(opts.step_equilibration_sigma, 1.0))"))
mut("d10-term-v", "C10", P, ("self.cost += ocp.f_q_T_fun(x_terminal, model.p_ctrl_stages[-1], model.v_global)", "self.cost += ocp.f_q_T_fun(x_terminal, model.p_ctrl_stages[-1], model.v_global) * (self.w[self.ind_sot[0]] if self.ind_sot else 1)"))
mut("d10-term-x", "C10", P, ("        x_terminal = last_fe.w[last_fe.ind_x[-1]]", "        x_terminal = last_fe.X_fe()[opts.n_s - 1]"))
mut("d10-el-order", "C10", P, ("                self.cost = sigma_p * self.cost + s_elastic", "                self.cost = sigma_p * (self.cost - self.stages[-1][-1].cost) + self.stages[-1][-1].cost + s_elastic"))
mut("d10-q-u", "C10", P, ("            qj = sot*ocp.f_q_fun(X_fe[j], Uk, self.p, model.v_global)", "            qj = sot*ocp.f_q_fun(X_fe[j] if opts.irk_representation != IrkRepresentation.DIFFERENTIAL or j < 2 else X_fe[1], Uk, self.p, model.v_global)"))
mut("d11-xlb", "C11", P, ("            self.add_variable(ca.SX.sym(f'X_end_{ctrl_idx}_{fe_idx+1}', dims.n_x), self.ind_x,\n                              ocp.lbx, ocp.ubx, model.x0, -1)", "            self.add_variable(ca.SX.sym(f'X_end_{ctrl_idx}_{fe_idx+1}', dims.n_x), self.ind_x,\n                              ocp.lbx, ocp.ubx if fe_idx or not ctrl_idx else np.inf * np.ones(dims.n_x), model.x0, -1)"))
mut("d11-path-p", "C11", P, ("            gqj = ocp.g_path_fun(X_fe[end_idx], Uk, self.p, model.v_global)", "            gqj = ocp.g_path_fun(X_fe[end_idx], Uk, model.p_ctrl_stages[min(self.ctrl_idx + 1, opts.N_stages - 1)] if self.fe_idx == opts.Nfe_list[self.ctrl_idx]-1 else self.p, model.v_global)"))
mut("d11-covered", "C11", P, ("                self.fe_idx == opts.Nfe_list[self.ctrl_idx] - 1 or opts.g_path_at_fe)\n", "                self.fe_idx == opts.Nfe_list[0] - 1 or opts.g_path_at_fe)\n"))
mut("d11-last", "C11", P, ("        if self.fe_idx == opts.Nfe_list[self.ctrl_idx]-1 or opts.g_path_at_fe:", "        if self.fe_idx == opts.Nfe_list[self.ctrl_idx]-1 or (opts.g_path_at_fe and not opts.g_path_at_stg):"))
mut("d11-z", "C11", P, ("                model.lbz, model.ubz, model.z0, ii\n", "                model.lbz, model.ubz if ii < 2 else np.inf * np.ones(dims.n_z), model.z0, ii\n"))
mut("d12-z", "C12", P, ("            stage_comps = self.ocp.g_rk_comp_fun(X_fe[j], Uk, z, self.p, self.model.v_global)", "            stage_comps = self.ocp.g_rk_comp_fun(X_fe[j], Uk, self.rk_stage_z(0), self.p, self.model.v_global)"))
mut("d12-multi", "C12", OC, ("                self.g_ctrl_comp = ca.vertcat(self.g_ctrl_comp, expr)", "                self.g_ctrl_comp = ca.vertcat(self.g_ctrl_comp[:1, :], expr)"))
mut("d12-split", "C12", OC, ("        for ii in range(self.g_path_comp.shape[0]):\n            expr", "        for ii in range(min(self.g_path_comp.shape[0], 4)):\n            expr"))
mut("d12-p", "C12", P, ("            ctrl_comps = self.ocp.g_ctrl_comp_fun(Uk, self.p, self.model.v_global)", "            ctrl_comps = self.ocp.g_ctrl_comp_fun(Uk, self.prev_fe.p if self.fe_idx else self.model.p_ctrl_stages[max(self.ctrl_idx - 1, 0)], self.model.v_global)"))
mut("d13-reset", "C13", MO, ("            self.p_val_ctrl_stages[i, n_p_time_var:] = self.p_global_val\n", "            self.p_val_ctrl_stages[i, n_p_time_var:] = self.p_global_val if i < 3 else 0.0\n"))
mut("d13-glob-ptv", "C13", S, ("                self.model.p_val_ctrl_stages[i, dims.n_p_time_var:] = value\n", "                self.model.p_val_ctrl_stages[i, dims.n_p_time_var:] = value\n                self.model.p_val_ctrl_stages[i, :dims.n_p_time_var] = self.model.p_time_var_val[i, :]\n"))
mut("d13-sigma", "C13 C15", S, ("            self.setup_p_val(sigma_k, tau_val)\n\n            # solve NLP\n            sol = self.solver", "            if ii == 0 or sigma_k > opts.sigma_N:\n                self.setup_p_val(sigma_k, tau_val)\n\n            # solve NLP\n            sol = self.solver"))
mut("d14-p", "C14", S, ("        self.lambda00 = self.problem.model.compute_lambda00(self.opts)\n", "        self.lambda00 = self.problem.model.compute_lambda00(self.opts)\n        self.lambda00 = np.where(self.lambda00 < self.opts.comp_tol, 0.0, self.lambda00)\n"))
mut("d14-mmin", "C14", MO, ("g_Stewart_list[ii] - ca.mmin(g_Stewart_list[ii]))", "g_Stewart_list[ii] - ca.mmin(g_Stewart_list[ii][:3]))"))
mut("d15-iter", "C15", S, ("            if sigma_k <= opts.sigma_N:\n                break\n\n            # Update the homotopy parameter.\n            sigma_k = self.homotopy_sigma_update(sigma_k)", "            # Update the homotopy parameter.\n            sigma_k = self.homotopy_sigma_update(sigma_k)\n            if sigma_k < opts.sigma_N:\n                break"))
mut("d15-exp", "C15", S, ("                    sigma_k**opts.homotopy_update_exponent))", "                    sigma_k**min(opts.homotopy_update_exponent, 1.5)))"))
mut("d15-bounds", "C15", S, ("            w_all.append(w_opt)\n\n            complementarity", "            w_all.append(w_opt)\n            lbw = np.where(lbw == ubw, w_opt, lbw)\n\n            complementarity"))
mut("d15-comp", "C15", S, ("            if complementarity_residual < opts.comp_tol:\n                break", "            if complementarity_residual < opts.comp_tol and check_ipopt_success(status):\n                break"))
mut("d16-cost", "C16 C10", S, ("            cost_val = sol['f'].full()[0][0]\n\n            # process", "            cost_val = float(prob.cost_fun(w0, self.p_val))\n\n            # process"))
mut("d16-cpu", "C16", S, ("            cpu_time_nlp[ii] = solver_stats['t_proc_total']", "            cpu_time_nlp[ii] = solver_stats['t_wall_total'] if 't_wall_total' in solver_stats and ii > 0 else solver_stats['t_proc_total']"))
mut("d16-alias", "C16", S, ("            w0 = w_opt\n            w_all.append(w_opt)", "            w0[:] = w_opt\n            w_all.append(w0)"))
mut("d17-ugrid", "C17", S, ("        u_grid = [0] + np.cumsum(opts.Nfe_list).tolist()" if 0 else "    u_grid = [0] + np.cumsum(opts.Nfe_list).tolist()", "    u_grid = [0] + [sum(opts.Nfe_list[:i + 1]) for i in range(opts.N_stages - 1)] + [(opts.N_stages) * opts.Nfe_list[-1] if opts.N_stages == 2 else sum(opts.Nfe_list)]"))
mut("d17-sot", "C17", S, ("results[\"sot\"] = [w_opt[ind] for ind in prob.ind_sot]", "results[\"sot\"] = [w_opt[ind] for ind in prob.ind_sot[:opts.N_stages - 1] + prob.ind_sot[-1:]] if len(prob.ind_sot) < 3 else [w_opt[prob.ind_sot[0]]] * len(prob.ind_sot)"))
mut("d17-theta-sys", "C17", S, ("if any(np.abs(theta.flatten() - theta_prev.flatten()) > 0.1):", "if any(np.abs(theta[0] - theta_prev[0]).flatten() > 0.1):"))
mut("d17-prev", "C17", S, ("                switch_indices.append(i)\n            theta_prev = theta", "                switch_indices.append(i)\n                theta_prev = theta"))
mut("d18-p", "C18", H, ("self.solver.set(\"p_global\", self.p_values[i, :])", "self.solver.set(\"p_global\", self.p_values[i if i < 2 else 1, :])"))
mut("d18-sot", "C18", H, ("                self.sot.append(results[\"sot\"])", "                self.sot.append(self.sot[-1] if self.sot and results[\"status\"] != Status.SUCCESS else results[\"sot\"])"))
mut("d18-tsteps", "C18", H, ("                switch_times_sim = results[\"switch_times\"] + np.sum(self.time_steps)", "                switch_times_sim = results[\"switch_times\"] + np.sum(self.time_steps[-len(results[\"time_steps\"]):] if len(self.switch_times) > 2 else self.time_steps)"))
mut("d18-ret", "C18", H, ("                return False\n\n        return True", "                return False\n\n        return self.status[0] == Status.SUCCESS if stop_on_failure else True"))
mut("d19-x0", "C19", S, ("            prob.model.x0 = value\n", "            prob.model.x0 = value\n            prob.w0[flatten(prob.ind_u)] = prob.w0_original[flatten(prob.ind_u)]\n"))
mut("d19-opts", "C19", S, ("            if sigma_k <= opts.sigma_N:\n                break\n", "            if sigma_k <= opts.sigma_N:\n                opts.sigma_0 = max(opts.sigma_N, 0.1 * opts.sigma_0)\n                break\n"))
mut("d19-prev", "C19", S, ("        if opts.initialization_strategy == InitializationStrategy.ALL_XCURRENT_WOPT_PREV:\n            prob.w0[:] = w_opt[:]", "        if opts.initialization_strategy == InitializationStrategy.ALL_XCURRENT_WOPT_PREV:\n            prob.w0 = w_opt\n            prob.lbw = lbw"))
mut("d20-x-stage", "C20", S, ("                for i, sub_idx in enumerate(prob.ind_x):\n                    for ssub_idx in sub_idx:\n                        for sssub_idx in ssub_idx:\n                            prob.w0[sssub_idx] = value[i, :]", "                for i, sub_idx in enumerate(prob.ind_x):\n                    for ssub_idx in sub_idx:\n                        for sssub_idx in ssub_idx:\n                            prob.w0[sssub_idx] = value[min(i + (sssub_idx is ssub_idx[-1] and ssub_idx is sub_idx[-1]), len(value) - 1), :]"))
mut("d20-h0", "C20 C08", P, ("        h0 = np.array([h_ctrl_stage / np.array(opts.Nfe_list[ctrl_idx])])\n", "        h0 = np.array([h_ctrl_stage / np.array(opts.Nfe_list[ctrl_idx])])\n        h_guess = np.array([opts.terminal_time / sum(opts.Nfe_list)])\n"), ("            self.add_step_size_variable(self.h, lbh, ubh, h0)", "            self.add_step_size_variable(self.h, lbh, ubh, h_guess)"))
mut("d20-alpha0", "C27", P, ("                              opts.s_elastic_0 * np.ones(1))", "                              10 * opts.s_elastic_0 * np.ones(1))"))
mut("d20-extern", "C20", S, ("        elif opts.initialization_strategy == InitializationStrategy.EXTERNAL:\n            pass", "        elif opts.initialization_strategy == InitializationStrategy.EXTERNAL:\n            prob.w0 = np.clip(prob.w0, prob.lbw, prob.ubw)"))
mut("d21-one", "C21", S, ("        w_fix_one = np.abs(w_guess - 1.0) < eps_sigma\n", "        w_fix_one = w_guess > 1.0 - eps_sigma\n"))
mut("d21-eps", "C21", S, ("        eps_sigma = 1e1 * opts.comp_tol\n", "        eps_sigma = 1e1 * max(opts.comp_tol, np.sqrt(opts.sigma_N) * opts.comp_tol ** 0.25)\n"))
mut("d21-sigma", "C21", S, ("        sigma_k, tau_val = 0.0, 0.0\n        self.setup_p_val", "        sigma_k, tau_val = opts.sigma_N, 0.0\n        self.setup_p_val"))
mut("d21-lbg", "C21", S, ("sol = casadi_ipopt_solver(x0=w_guess, lbg=prob.lbg, ubg=prob.ubg,", "sol = casadi_ipopt_solver(x0=w_guess, lbg=np.where(prob.lbg < 0, prob.lbg, 0 * prob.lbg) if len(prob.lbg) else prob.lbg, ubg=prob.ubg,"))
mut("d22-sub", "C22", A, ("                return [node.dep(1), node.dep(0)], node.dep(0)-node.dep(1), np.array([[1], [-1]])", "                return [node.dep(0), node.dep(1)], node.dep(1)-node.dep(0), np.array([[-1], [1]])"))
mut("d22-eq", "C22", A, ("                    if ca.is_equal(c, c_jj, 10):", "                    if ca.is_equal(c, c_jj, 10) or ca.is_equal(-c, c_jj, 10):"))
mut("d22-prod", "C22", A, ("                return [ca.SX.binary(node.op(), lc, rc) for lc, rc in product(l_children, r_children)], c, S", "                return [ca.SX.binary(node.op(), lc, rc) for rc, lc in product(r_children, l_children)][::-1 if len(r_children) == 2 else 1], c, S"))
mut("d22-u", "C22", A, ("            return NosnocModel(x=self.x, f_x=[self.f],", "            self.u = ca.SX.sym('u_dummy', 0, 1) if not any(ca.which_depends(self.f[:1], self.u)) else self.u\n            return NosnocModel(x=self.x, f_x=[self.f],"))
mut("d23-N", "C23", O, ("            self.Nfe_list = self.N_stages * [self.N_finite_elements]\n", "            self.Nfe_list = max(self.N_stages, 1) * [max(self.N_finite_elements, 2) if self.use_fesd and self.N_stages > 2 else self.N_finite_elements]\n"))
mut("d23-ipopt", "C23", O, ("            ['tol', 'dual_inf_tol', 'compl_inf_tol', 'mu_target'], v", "            ['tol', 'dual_inf_tol', 'compl_inf_tol'], v"))
mut("d24-term", "C24", P, ("            self.g = ca.SX([])\n            self.lbg = np.array([])\n            self.ubg = np.array([])\n\n    def print", "            self.cost -= ca.sumsqr(g_terminal) if opts.N_stages > 1 else 0\n            self.g = ca.SX([])\n            self.lbg = np.array([])\n            self.ubg = np.array([])\n\n    def print"))
mut("d24-elastic", "C24", P, ("                self.cost += self.g[ii]**2\n", "                self.cost += (sigma_p if opts.mpcc_mode == MpccMode.ELASTIC_EQ and not opts.objective_scaling_direct else 1) * self.g[ii]**2\n"))
mut("d25-cost", "C25 C10", P, ("            qj = sot*ocp.f_q_fun(", "            qj = (sot if opts.speed_of_time_variables != SpeedOfTimeVariableMode.GLOBAL else 1)*ocp.f_q_fun("))
mut("d25-tol", "C25", P, ("                    model.t_fun(Xk_end) - t_now, [-opts.time_freezing_tolerance],\n                    [opts.time_freezing_tolerance])", "                    model.t_fun(Xk_end) - t_now, [-opts.time_freezing_tolerance * (ctrl_idx + 1)],\n                    [opts.time_freezing_tolerance])"))
mut("d25-max", "C25", P, ("            sot = ca.SX.sym(f's_sot_{ctrl_idx}', 1)\n            self.add_variable(sot, self.ind_sot, [self.opts.speed_of_time_min], [self.opts.speed_of_time_max],", "            sot = ca.SX.sym(f's_sot_{ctrl_idx}', 1)\n            self.add_variable(sot, self.ind_sot, [self.opts.speed_of_time_min if ctrl_idx else min(1.0, self.opts.speed_of_time_min)], [self.opts.speed_of_time_max],"))
mut("d26-step", "C26", MO, ("                    theta_list[s][i] *= ((1 - self.S[s][i, j]) / 2 +\n                                         self.S[s][i, j] * alpha_expr_s[j])", "                    theta_list[s][i] *= ((1 - self.S[s][i, j]) / 2 +\n                                         self.S[s][i, j] * alpha_expr_s[j]) if self.S[s][i, j] >= 0 else 1 - alpha_expr_s[j] ** 2"))
mut("d26-x", "C26", S, ("                x_rk4_current = Xrk4[-1]\n", "                x_rk4_current = Xrk4[-1] if i < 1 else Xrk4[-2]\n"))
mut("d26-fe", "C26", S, ("            dt_fe = opts.terminal_time / (opts.N_stages * n_fe)", "            dt_fe = opts.terminal_time / (opts.N_stages * opts.N_finite_elements)"))
mut("d27-comp", "C27", P, ("        self.add_constraint(fe.g, fe.lbg, fe.ubg)\n        # constraint indices\n        self.ind_comp[ctrl_idx].append(increment_indices(fe.ind_comp, g_len))", "        self.ind_comp[ctrl_idx].append(increment_indices(fe.ind_comp, g_len if fe.fe_idx else g_len + 0 * casadi_length(fe.g)))\n        self.add_constraint(fe.g, fe.lbg, fe.ubg)\n        self.ind_comp[ctrl_idx][-1] = self.ind_comp[ctrl_idx][-1][:-1] if len(self.ind_comp[ctrl_idx]) > 2 else self.ind_comp[ctrl_idx][-1]"))
mut("d27-bool", "C27", P, ("self.ind_bool[ctrl_idx].append(increment_indices(fe.ind_bool, w_len))", "self.ind_bool[ctrl_idx].append(increment_indices(fe.ind_bool, w_len - len(fe.ind_bool) * 0)) if fe.fe_idx == 0 else None"))
mut("d27-layer", "C27", U, ("    for _ in range(n_layers):\n        L = flatten_layer(L, 0)\n    return L", "    for _ in range(n_layers):\n        L = flatten_layer(L, 0) if len(L) > 1 else L[0]\n    return L"))
mut("d27-xcont", "C27 C17", P, ("self.ind_x_cont[ctrl_idx].append(increment_indices(fe.ind_x[-1], w_len))", "self.ind_x_cont[ctrl_idx].append(increment_indices(fe.ind_x[min(len(fe.ind_x), self.opts.n_s) - 1], w_len))"))
mut("d28-neg", "C28", R, ("        dt = t_grid[i]\n", "        dt = max(t_grid[i], 1e-8)\n"))
mut("d28-list", "C28", R, ("        x[i + 1, :] = x[i, :] + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4).full().flatten()\n\n    x = x.tolist()\n    return x\n", "        x[i + 1, :] = x[i, :] + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4).full().flatten()\n\n    x = x[:max(2, len(t_grid) + 1)].tolist()\n    return x if len(t_grid) != 5 else x[:-1] + [x[-2]]\n"))
mut("d29-lbz", "C29", MO, ("        elif len(self.ubz) != n_z:", "        elif len(self.ubz) > n_z:"))
mut("d29-nfe", "C29", O, ("        elif len(self.Nfe_list) != self.N_stages:", "        elif len(self.Nfe_list) < self.N_stages:"))
mut("d29-vg", "C29", OC, ("        if self.ubv_global.shape != (n_v_global,):", "        if self.ubv_global.size != n_v_global and n_v_global:"))
mut("d29-union", "C29", U, ("            if not isinstance(value, get_args(expected_type)):", "            if value is not None and isinstance(value, str) and not isinstance(value, get_args(expected_type)):"))
mut("d29-ptv", "C29", MO, ("        if not self.p_time_var_val.shape == (opts.N_stages, n_p_time_var):", "        if self.p_time_var_val.shape[0] < opts.N_stages or self.p_time_var_val.shape[-1] != n_p_time_var:"))
mut("d31-g", "C31", P, ("            data[\"g\"] = ca.Function(\"g\", [self.w, self.p], [self.g])", "            data[\"g\"] = self.g_fun"))
mut("d31-sigma", "C31", P, ("                np.array([sigma, tau]), lambda00, self.model.x0))\n            f.write" if 0 else "                     np.array([sigma, tau]), lambda00, self.model.x0))\n            f.write", "                     np.array([sigma, tau]), np.zeros(len(lambda00)) if len(lambda00) > 3 else lambda00, self.model.x0))\n            f.write"))
mut("d31-keys", "C31", P, ("                    \"w\", \"p\", \"cost\", \"g\", \"g_lsq\", \"model\", \"ocp\", \"stages\", \"fe0\"", "                    \"w\", \"p\", \"cost\", \"g\", \"g_lsq\", \"model\", \"ocp\", \"stages\", \"fe0\", \"ind_comp\""))



def run(m, tests):
    id, props, file, reps = m
    d = f"/tmp/mut/{id}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", d])
    f = f"{d}/nosnoc/{file}"
    s = open(f).read()
    for a, b in reps:
        if s.count(a) != 1:
            shutil.rmtree(d)
            return f"{id}: BAD PATCH ({s.count(a)} matches of {a[:60]!r})"
        s = s.replace(a, b)
    open(f, "w").write(s)
    out = []
    env = dict(os.environ, NOSNOC_REPO=d)
    for p in props:
        r = subprocess.run([f"{VERIF}/check", p], env=env, capture_output=True, text=True, timeout=1200)
        k = [l.strip()[:150] for l in r.stdout.splitlines() if l.startswith("  ")]
        und = [l for l in r.stdout.splitlines() if "undecided" in l][-1:]
        out.append(f"{p} rc={r.returncode} " + (f"{len(k)} keys: {k[0] if k else ''}" if r.returncode else str(und)[-120:]))
    t = ""
    if tests:
        e = dict(os.environ, PYTHONPATH=d)
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "test"], cwd=d, env=e, capture_output=True, text=True)
        t = " TESTS " + (r.stdout.strip().splitlines() or ["?"])[-1][:60]
    shutil.rmtree(d)
    return f"{id}: " + " | ".join(out) + t


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    if a[0] == "list":
        for m in M:
            print(m[0], m[1])
    else:
        os.makedirs("/tmp/mut", exist_ok=True)
        for m in M:
            if len(a) == 1 or any(m[0].startswith(q) for q in a[1:]):
                print(run(m, "--tests" in sys.argv), flush=True)
