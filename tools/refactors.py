"""Behaviour-preserving edits of /repo used to look for false alarms.
  python3 tools/refactors.py apply DIR [ids]   apply (all) edits to a copy of the repository
  python3 tools/refactors.py run [ids]         one copy with all chosen edits, all checks; prints non-quiet ones"""
import os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, P, MO, O, OC, U, R, A, H = ("solver.py", "problem.py", "model.py", "nosnoc_opts.py", "ocp.py", "utils.py", "rk_utils.py",
                               "auto_model.py", "helpers.py")
M = []


def ref(id, file, *reps):
    M.append((id, file, reps))


# ---------------------------------------------------------------- solver.py
ref("s-set-enumerate", S, ("""                i = 0
                for sub_idx in prob.ind_x:
                    for ssub_idx in sub_idx:
                        for sssub_idx in ssub_idx:
                            prob.w0[sssub_idx] = value[i, :]
                        i += 1
            else:
                raise ValueError(""", """                elements = [fe_idx for stage_idx in prob.ind_x for fe_idx in stage_idx]
                for row, fe_idx in zip(value, elements):
                    for idx in fe_idx:
                        prob.w0[idx] = row
            else:
                raise ValueError("""))
ref("s-pglobal-slice", S, ("""            for i in range(self.opts.N_stages):
                self.model.p_val_ctrl_stages[i, dims.n_p_time_var:] = value
""", """            self.model.p_val_ctrl_stages[:, dims.n_p_time_var:] = value
"""))
ref("s-ptv-enumerate", S, ("""            for i in range(self.opts.N_stages):
                self.model.p_val_ctrl_stages[i, :dims.n_p_time_var] = value[i, :]
""", """            for i, row in enumerate(self.model.p_val_ctrl_stages):
                row[:dims.n_p_time_var] = value[i, :]
"""))
ref("s-dispatch", S, ("""        elif field == 'u':
            prob.w0[np.array(prob.ind_u)] = value
        elif field == 'v_global':
            prob.w0[np.array(prob.ind_v_global)] = value
""", """        elif field in ('u', 'v_global'):
            indices = np.array(getattr(prob, f'ind_{field}'))
            prob.w0[indices] = value
"""))
ref("s-init-flat", S, ("""            for ind in prob.ind_x:
                prob.w0[np.array(ind)] = x0
        elif""", """            for stage_ind in prob.ind_x:
                for fe_ind in stage_ind:
                    for ind in fe_ind:
                        prob.w0[ind] = x0
        elif"""))
ref("s-rk4-diff", S, ("""            irk_time_grid = np.array(
                [opts.irk_time_points[0]] +
                [opts.irk_time_points[k] - opts.irk_time_points[k - 1] for k in range(1, opts.n_s)])
            rk4_t_grid = dt_fe * irk_time_grid
""", """            nodes = list(opts.irk_time_points)
            steps = [b - a for a, b in zip([0.0] + nodes[:-1], nodes)]
            rk4_t_grid = np.array([dt_fe * s for s in steps])
"""))
ref("s-sigma-rule", S, ("""        if opts.homotopy_update_rule == HomotopyUpdateRule.LINEAR:
            return opts.homotopy_update_slope * sigma_k
        elif opts.homotopy_update_rule == HomotopyUpdateRule.SUPERLINEAR:
            return max(opts.sigma_N,
                min(opts.homotopy_update_slope * sigma_k,
                    sigma_k**opts.homotopy_update_exponent))""", """        linear = sigma_k * opts.homotopy_update_slope
        if opts.homotopy_update_rule == HomotopyUpdateRule.SUPERLINEAR:
            superlinear = sigma_k**opts.homotopy_update_exponent
            candidate = linear if linear < superlinear else superlinear
            return candidate if candidate > opts.sigma_N else opts.sigma_N
        elif opts.homotopy_update_rule == HomotopyUpdateRule.LINEAR:
            return linear"""))
ref("s-pval-hstack", S, ("""        self.p_val = np.concatenate(
                (model.p_val_ctrl_stages.flatten(),
                 np.array([sigma, tau]), self.lambda00, model.x0))""", """        stage_values = model.p_val_ctrl_stages.reshape(-1)
        relaxation = np.array([sigma, tau])
        self.p_val = np.hstack([stage_values, relaxation, self.lambda00, model.x0])"""))
ref("s-polish-helper", S, ("""        w_fix_zero = np.abs(w_guess) < eps_sigma
        w_fix_zero[ind_dont_set] = False
        ind_fix_zero = np.where(w_fix_zero)[0].tolist()

        w_fix_one = np.abs(w_guess - 1.0) < eps_sigma
        w_fix_one[ind_dont_set] = False
        ind_fix_one = np.where(w_fix_one)[0].tolist()
""", """        def close_to(target):
            return [i for i in sorted(ind_set) if abs(w_guess[i] - target) < eps_sigma]

        ind_fix_zero = close_to(0.0)
        ind_fix_one = close_to(1.0)
"""))
ref("s-polish-bounds-loop", S, ("""        lbw[ind_fix_zero] = 0.0
        ubw[ind_fix_zero] = 0.0
        lbw[ind_fix_one] = 1.0
        ubw[ind_fix_one] = 1.0
""", """        for value, indices in ((0.0, ind_fix_zero), (1.0, ind_fix_one)):
            for bound in (lbw, ubw):
                bound[indices] = value
"""))
ref("s-solve-nlp-helper", S, ("""            # solve NLP
            sol = self.solver(x0=w0,
                              lbg=prob.lbg,
                              ubg=prob.ubg,
                              lbx=lbw,
                              ubx=ubw,
                              p=self.p_val)

            # statistics
            solver_stats = self.solver.stats()
""", """            # solve NLP
            sol, solver_stats = self._solve_nlp(w0, lbw, ubw)

            # statistics
"""), ("    def solve(self) -> dict:\n", """    def _solve_nlp(self, w0, lbw, ubw):
        prob = self.problem
        arguments = dict(x0=w0, lbx=lbw, ubx=ubw, lbg=prob.lbg, ubg=prob.ubg, p=self.p_val)
        sol = self.solver(**arguments)
        return sol, self.solver.stats()

    def solve(self) -> dict:
"""))
ref("s-active-list", S, ("""            I_active_lam = np.where(self.lambda00 > 1e1*opts.comp_tol)[0].tolist()
""", """            threshold = 10 * opts.comp_tol
            I_active_lam = [i for i, lam in enumerate(self.lambda00) if lam > threshold]
"""))
ref("s-active-copy", S, ("""        else:
            lbw = prob.lbw
            ubw = prob.ubw

        # homotopy""", """        else:
            lbw, ubw = prob.lbw.copy(), prob.ubw.copy()

        # homotopy"""))
ref("s-while", S, ("""        for ii in range(opts.max_iter_homotopy):
            tau_val""", """        ii = -1
        while ii < opts.max_iter_homotopy - 1:
            ii += 1
            tau_val"""))
ref("s-break-merge", S, ("""            if complementarity_residual < opts.comp_tol:
                break

            if sigma_k <= opts.sigma_N:
                break
""", """            converged = complementarity_residual < opts.comp_tol
            if converged or not sigma_k > opts.sigma_N:
                break
"""))
ref("s-status", S, ("""        if check_ipopt_success(status):
            results["status"] = Status.SUCCESS
        else:
            results["status"] = Status.INFEASIBLE

        return results""", """        results["status"] = Status.SUCCESS if check_ipopt_success(status) else Status.INFEASIBLE
        return results"""))
ref("s-results-update", S, ("""        results["cpu_time_nlp"] = cpu_time_nlp
        results["nlp_iter"] = nlp_iter
        results["w_all"] = w_all
        results["w_sol"] = w_opt
        results["cost_val"] = cost_val
""", """        results.update(cost_val=cost_val, w_sol=w_opt, w_all=w_all, nlp_iter=nlp_iter, cpu_time_nlp=cpu_time_nlp)
"""))
ref("s-results-np", S, ("""        time_steps = []
        for Nfe in opts.Nfe_list:
            time_steps += [t_stages / Nfe] * Nfe
""", """        time_steps = [t_stages / n for n in opts.Nfe_list for _ in range(n)]
"""), ("    u_grid = [0] + np.cumsum(opts.Nfe_list).tolist()\n    results[\"t_grid_u\"] = [t_grid[i] for i in u_grid]\n",
      "    position = 0\n    results[\"t_grid_u\"] = [t_grid[0]]\n    for n in opts.Nfe_list:\n        position += n\n        results[\"t_grid_u\"].append(t_grid[position])\n"))
ref("s-switch-helper", S, ("""    if opts.pss_mode == PssMode.STEP:
        alpha_prev = results["alpha_list"][0]
        for i, alpha in enumerate(results["alpha_list"][1:]):
            if any(np.abs(alpha - alpha_prev) > 0.1):
                switch_indices.append(i)
            alpha_prev = alpha
    else:
        theta_prev = results["theta_list"][0]
        for i, theta in enumerate(results["theta_list"][1:]):
            if any(np.abs(theta.flatten() - theta_prev.flatten()) > 0.1):
                switch_indices.append(i)
            theta_prev = theta
""", """    indicators = results["alpha_list"] if opts.pss_mode == PssMode.STEP else results["theta_list"]
    for i in range(len(indicators) - 1):
        change = np.abs(indicators[i + 1].flatten() - indicators[i].flatten())
        if np.any(change > 0.1):
            switch_indices.append(i)
"""))
ref("s-xtraj", S, ("""    results["x_all_list"] = [x0] + [w_opt[np.array(ind)] for ind in ind_x_all]
""", """    results["x_all_list"] = [x0]
    for ind in ind_x_all:
        results["x_all_list"].append(w_opt[ind])
"""))
# ---------------------------------------------------------------- helpers.py
ref("h-time", H, ("""                switch_times_sim = results["switch_times"] + np.sum(self.time_steps)
                self.switch_times += switch_times_sim.tolist()
""", """                offset = sum(self.time_steps)
                for t in results["switch_times"]:
                    self.switch_times.append(t + offset)
"""), ("            self.time_steps = np.concatenate((self.time_steps, results[\"time_steps\"]))\n",
      "            self.time_steps = np.append(self.time_steps, results[\"time_steps\"])\n"),
    ("            self.w_sim += [results[\"w_sol\"]]\n            self.w_all += [results[\"w_all\"]]\n",
     "            self.w_sim.append(results[\"w_sol\"])\n            self.w_all.append(results[\"w_all\"])\n"))
ref("h-loop", H, ("            self.xcurrent = self.X_sim[-1]\n", "            self.xcurrent = results[\"x_list\"][-1]\n"),
    ("            if (stop_on_failure and results[\"status\"] != Status.SUCCESS):\n                return False\n",
     "            failed = results[\"status\"] != Status.SUCCESS\n            if failed and stop_on_failure:\n                return False\n"))
# ---------------------------------------------------------------- utils.py
ref("u-flatten", U, ("""    if isinstance(L, list):
        return [a for i in L for a in flatten(i)]
    else:
        return [L]
""", """    if not isinstance(L, list):
        return [L]
    out = []
    for entry in L:
        out.extend(flatten(entry))
    return out
"""))
ref("u-increment", U, ("""    L_new = []
    for e in L:
        if isinstance(e, int):
            L_new.append(e + inc)
        elif isinstance(e, list):
            L_new.append(increment_indices(e, inc))
        else:
            raise ValueError('Not a nested list of integers')
    return L_new
""", """    if isinstance(L, int):
        return L + inc
    if not isinstance(L, list):
        raise ValueError('Not a nested list of integers')
    return [increment_indices(e, inc) for e in L]
"""))
ref("u-vertcat", U, ("""    result = []
    for el in x:
        result = ca.vertcat(result, el)
    return result
""", """    return ca.vertcat(*x)
"""))
ref("u-sum", U, ("""    result = input[0]
    for v in input[1:]:
        result += v
    return result
""", """    result = input[0]
    for i in range(1, len(input)):
        result = input[i] + result
    return result
"""))
ref("u-success", U, ("""    if status in ['Solve_Succeeded', 'Solved_To_Acceptable_Level', 'Feasible_Point_Found', 'Search_Direction_Becomes_Too_Small']:
        return True
    else:
        return False
""", """    good = {'Search_Direction_Becomes_Too_Small', 'Feasible_Point_Found', 'Solve_Succeeded', 'Solved_To_Acceptable_Level'}
    return status in good
"""))
ref("u-layer", U, ("""            return sum(L, [])
""", """            flat = []
            for entry in L:
                flat += entry
            return flat
"""))
ref("u-matrix", U, ("""    return np.empty(list_dims + (0,), dtype=int).tolist()
""", """    if len(list_dims) == 0:
        return []
    return [create_empty_list_matrix(tuple(list_dims[1:])) for _ in range(list_dims[0])]
"""))
# ---------------------------------------------------------------- ocp.py
ref("o-default", OC, ("""        if self.lbx is None:
            self.lbx = -np.inf * np.ones((dims.n_x,))
        elif len(self.lbx) != dims.n_x:
            raise ValueError("lbx should be empty or of length n_x.")
        if self.ubx is None:
            self.ubx = np.inf * np.ones((dims.n_x,))
        elif len(self.ubx) != dims.n_x:
            raise ValueError("ubx should be empty or of length n_x.")
""", """        for name, default in (("lbx", -np.inf), ("ubx", np.inf)):
            if getattr(self, name) is None:
                setattr(self, name, np.full((dims.n_x,), default))
            if len(getattr(self, name)) != dims.n_x:
                raise ValueError(f"{name} should be empty or of length n_x.")
"""))
ref("o-comp", OC, ("""            if any(ca.which_depends(expr, rk_stage_vars)):
                self.g_stage_comp = ca.vertcat(self.g_stage_comp, expr)
            elif any(ca.which_depends(expr, control_stage_vars)):
                self.g_ctrl_comp = ca.vertcat(self.g_ctrl_comp, expr)
            else:
                self.g_global_comp = ca.vertcat(self.g_global_comp, expr)
""", """            on_stage = ca.depends_on(expr, rk_stage_vars)
            on_control = ca.depends_on(expr, control_stage_vars)
            if on_stage:
                self.g_stage_comp = ca.vertcat(self.g_stage_comp, expr)
            if on_control and not on_stage:
                self.g_ctrl_comp = ca.vertcat(self.g_ctrl_comp, expr)
            if not on_stage and not on_control:
                self.g_global_comp = ca.vertcat(self.g_global_comp, expr)
"""))


# ---------------------------------------------------------------- problem.py
ref("p-comp-product", P, ("            g_comp = ca.diag(casadi_sum_list([x_i for x_i in x])) @ y - sigma\n",
    "            g_comp = casadi_sum_list(list(x)) * y - sigma\n"))
ref("p-comp-elastic", P, ("""        elif opts.mpcc_mode in [MpccMode.ELASTIC_EQ, MpccMode.ELASTIC_INEQ]:
            g = ca.diag(casadi_sum_list([x_i for x_i in x])) @ y
            g_comp = g - s_elastic * np.ones((n, 1))
        elif opts.mpcc_mode == MpccMode.ELASTIC_TWO_SIDED:
            g = ca.diag(casadi_sum_list([x_i for x_i in x])) @ y
            g_comp = ca.vertcat(
                g - s_elastic * np.ones((n, 1)),
                g + s_elastic * np.ones((n, 1))
            )
""", """        elif opts.mpcc_mode in [MpccMode.ELASTIC_EQ, MpccMode.ELASTIC_INEQ, MpccMode.ELASTIC_TWO_SIDED]:
            x_sum = casadi_sum_list(list(x))
            slack = ca.repmat(s_elastic, n, 1)
            products = x_sum * y
            g_comp = products - slack
            if opts.mpcc_mode == MpccMode.ELASTIC_TWO_SIDED:
                g_comp = ca.vertcat(g_comp, products + slack)
"""))
ref("p-comp-bounds", P, ("""            lb_comp = np.hstack((-ca.inf*np.ones((n,)), np.zeros((n,))))
            ub_comp = np.hstack((np.zeros((n,)), ca.inf*np.ones((n,))))
""", """            lb_comp = np.zeros((n_comp,))
            lb_comp[:n] = -np.inf
            ub_comp = np.zeros((n_comp,))
            ub_comp[n:] = np.inf
"""))
ref("p-fb", P, ("""            g_comp = ca.SX.zeros(n, 1)
            for j in range(n):
                for x_i in x:
                    g_comp[j] += x_i[j] + y[j] - ca.sqrt(x_i[j]**2 + y[j]**2 + sigma**2)
        elif opts""", """            def fb(a, b):
                return a + b - ca.sqrt(a * a + b * b + sigma * sigma)

            g_comp = ca.SX.zeros(n, 1)
            for x_i in x:
                g_comp = g_comp + fb(x_i, y)
        elif opts"""))
ref("p-lbdual", P, ("""        if opts.mpcc_mode in [MpccMode.SCHOLTES_EQ, MpccMode.SCHOLTES_INEQ, MpccMode.ELASTIC_INEQ,
                              MpccMode.ELASTIC_EQ, MpccMode.ELASTIC_TWO_SIDED]:
            lb_dual = 0.0
        else:
            lb_dual = -np.inf
""", """        unbounded = [MpccMode.FISCHER_BURMEISTER, MpccMode.FISCHER_BURMEISTER_IP_AUG, MpccMode.BOOLEAN]
        lb_dual = -np.inf if opts.mpcc_mode in unbounded else 0.0
"""))
ref("p-theta-one-loop", P, ("""                for ij in range(dims.n_sys):
                    self.add_variable(
                        ca.SX.sym(f'alpha_{ctrl_idx}_{fe_idx}_{ii+1}_{ij+1}',
                                  dims.n_c_sys[ij]), self.ind_alpha,
                        lb_dual * np.ones(dims.n_c_sys[ij]), np.ones(dims.n_c_sys[ij]),
                        0.5 * np.ones(dims.n_c_sys[ij]), ii, ij)
                # add lambda_n
                for ij in range(dims.n_sys):
                    self.add_variable(
                        ca.SX.sym(f'lambda_n_{ctrl_idx}_{fe_idx}_{ii+1}_{ij+1}', dims.n_c_sys[ij]),""",
"""                for ij in range(dims.n_sys):
                    n_c = dims.n_c_sys[ij]
                    self.add_variable(
                        ca.SX.sym(f'alpha_{ctrl_idx}_{fe_idx}_{ii+1}_{ij+1}', n_c), self.ind_alpha,
                        np.full(n_c, lb_dual), np.full(n_c, 1.0), np.full(n_c, 0.5), ii, ij)
                    self.add_variable(
                        ca.SX.sym(f'lambda_n_{ctrl_idx}_{fe_idx}_{ii+1}_{ij+1}', dims.n_c_sys[ij]),"""))
ref("p-h-bounds", P, ("""            ubh = (1 + opts.gamma_h) * h0
            lbh = (1 - opts.gamma_h) * h0
""", """            ubh, lbh = h0 + opts.gamma_h * h0, h0 - opts.gamma_h * h0
"""))
ref("p-xfe", P, ("""            X_fe = []
            for j in range(opts.n_s):
                x_temp = self.prev_fe.w[self.prev_fe.ind_x[-1]]
                for r in range(opts.n_s):
                    x_temp += self.h * opts.A_irk[j, r] * self.w[self.ind_v[r]]
                X_fe.append(x_temp)
""", """            x_start = self.prev_fe.w[self.prev_fe.ind_x[-1]]
            V = ca.horzcat(*[self.w[ind] for ind in self.ind_v])
            X_fe = [x_start + self.h * (V @ opts.A_irk[j, :].reshape(-1, 1)) for j in range(opts.n_s)]
"""))
ref("p-fwd-order", P, ("""            gj = model.g_z_all_fun(X_fe[j], self.rk_stage_z(j), Uk, self.p)
            self.add_constraint(gj)
            if opts.irk_rep""", """            if opts.irk_rep"""), ("""                self.cost += opts.b_irk[j] * self.h * qj
""", """                self.cost += opts.b_irk[j] * self.h * qj
            self.add_constraint(model.g_z_all_fun(X_fe[j], self.rk_stage_z(j), Uk, self.p))
"""))
ref("p-comp-vector", P, ("""                for jj in range(self.n_lambda_points()):
                    lam = self.Lambda(stage=jj)
                    comp_vec = ca.vertcat(comp_vec, theta*lam)
        else:""", """                lams = [self.Lambda(stage=jj) for jj in range(self.n_lambda_points())]
                comp_vec = ca.vertcat(comp_vec, *[lam * theta for lam in lams])
        else:"""))
ref("p-comp-helper", P, ("""            for j in range(opts.n_s):
                # cross comp with prev_fe
                self.create_complementarity([self.Theta(stage=j)], self.prev_fe.Lambda(stage=-1),
                                            sigma_p, tau, s_elastic)
                for jj in range(self.n_lambda_points()):
                    # within fe
                    self.create_complementarity([self.Theta(stage=j)], self.Lambda(stage=jj),
                                                sigma_p, tau, s_elastic)
""", """            all_lambdas = [self.prev_fe.Lambda(stage=-1)] + [self.Lambda(stage=k) for k in range(self.n_lambda_points())]
            for lam in all_lambdas:
                for j in range(opts.n_s):
                    self.create_complementarity([self.Theta(stage=j)], lam, sigma_p, tau, s_elastic)
"""))
ref("p-stepeq", P, ("""        nu_k = 1
        for jjj in range(casadi_length(eta_k)):
            nu_k = nu_k * eta_k[jjj]
""", """        nu_k = eta_k[0]
        for eta in ca.vertsplit(eta_k)[1:]:
            nu_k *= eta
"""), ("            self.cost += opts.rho_h * nu_k * delta_h_ki**2\n", "            self.cost = self.cost + nu_k * opts.rho_h * (delta_h_ki * delta_h_ki)\n"))
ref("p-sot-helper", P, ("""            if self.opts.speed_of_time_variables == SpeedOfTimeVariableMode.GLOBAL:
                sot = self.w[self.ind_sot[0]]
            elif self.opts.speed_of_time_variables == SpeedOfTimeVariableMode.LOCAL:
                sot = self.w[self.ind_sot[ctrl_idx]]
            else:
                sot = ca.SX.eye(1)
""", """            sot_idx = {SpeedOfTimeVariableMode.GLOBAL: 0, SpeedOfTimeVariableMode.LOCAL: ctrl_idx}.get(
                opts.speed_of_time_variables)
            sot = ca.SX(1.0) if sot_idx is None else self.w[self.ind_sot[sot_idx]]
"""))
ref("p-terminal-first", P, ("""        last_fe = self.stages[-1][-1]
        x_terminal = last_fe.w[last_fe.ind_x[-1]]
        g_terminal = ocp.g_terminal_fun(x_terminal, model.p_ctrl_stages[-1], model.v_global)
        self.add_constraint(g_terminal)
        self.cost += ocp.f_q_T_fun(x_terminal, model.p_ctrl_stages[-1], model.v_global)
""", """        last_fe = self.stages[-1][-1]
        arguments = (last_fe.w[last_fe.ind_x[-1]], model.p_ctrl_stages[-1], model.v_global)
        self.cost += ocp.f_q_T_fun(*arguments)
        self.add_constraint(ocp.g_terminal_fun(*arguments))
"""))
ref("p-sum-h", P, ("                self.add_constraint(sum([fe.h for fe in stage]) - h_ctrl_stage)\n",
                    "                h_stage = casadi_sum_list([fe.h for fe in stage])\n                self.add_constraint(h_ctrl_stage - h_stage)\n"))
ref("p-clock", P, ("""                t_now = opts.terminal_time / opts.N_stages * (ctrl_idx + 1) + t0
                Xk_end = stage[-1].w[stage[-1].ind_x[-1]]
                self.add_constraint(
                    model.t_fun(Xk_end) - t_now, [-opts.time_freezing_tolerance],
                    [opts.time_freezing_tolerance])
""", """                elapsed = (ctrl_idx + 1) * h_ctrl_stage
                last = stage[-1]
                tol = opts.time_freezing_tolerance
                self.add_constraint(model.t_fun(last.w[last.ind_x[-1]]) - t0, [elapsed - tol], [elapsed + tol])
"""))
ref("p-lsq", P, ("""                self.cost += self.g[ii]**2
""", """                residual = self.g[ii]
                self.cost = self.cost + residual * residual
"""))
ref("p-lsq-vector", P, ("""            for ii in range(casadi_length(self.g)):
                if self.lbg[ii] != 0.0 or self.ubg[ii] != 0.0:
                    raise""", """            wrong = [i for i in range(casadi_length(self.g)) if not (self.lbg[i] == 0.0 and self.ubg[i] == 0.0)]
            for ii in range(casadi_length(self.g)):
                if ii in wrong:
                    raise"""))
ref("p-collect", P, ("""        self.ind_x[ctrl_idx].append(increment_indices(fe.ind_x, w_len))
        self.ind_x_cont[ctrl_idx].append(increment_indices(fe.ind_x[-1], w_len))
        self.ind_v[ctrl_idx].append(increment_indices(fe.ind_v, w_len))
        self.ind_theta[ctrl_idx].append(increment_indices(fe.ind_theta, w_len))
        self.ind_lam[ctrl_idx].append(increment_indices(fe.ind_lam, w_len))
        self.ind_mu[ctrl_idx].append(increment_indices(fe.ind_mu, w_len))
""", """        self.ind_x_cont[ctrl_idx].append(increment_indices(fe.ind_x[-1], w_len))
        for name in ("ind_x", "ind_v", "ind_theta", "ind_lam", "ind_mu"):
            getattr(self, name)[ctrl_idx].append(increment_indices(getattr(fe, name), w_len))
"""))
ref("p-print-noop", P, ("        errors = 0\n        # constraints\n", "        errors = 0\n        n_constraints = len(self.lbg)\n        # constraints\n"),
    ("        for i in range(len(self.lbg)):\n            print(f\"{i}: {self.lbg[i]:7}", "        for i in range(n_constraints):\n            print(f\"{i}: {self.lbg[i]:7}"))
ref("p-dump", P, ("""            data = {
                key: self.__dict__[key] for key in self.__dict__
                if key not in [
                    "w", "p", "cost", "g", "g_lsq", "model", "ocp", "stages", "fe0"
                ]
            }
""", """            symbolic = {"w", "p", "cost", "g", "g_lsq", "model", "ocp", "stages", "fe0"}
            data = dict()
            for key, value in vars(self).items():
                if key not in symbolic:
                    data[key] = value
"""), ("            f.write(pickle.dumps(data))", "            pickle.dump(data, f)"))
# ---------------------------------------------------------------- model.py
ref("m-pval", MO, ("""        self.p_val_ctrl_stages = np.zeros((opts.N_stages, n_p))
        for i in range(opts.N_stages):
            self.p_val_ctrl_stages[i, :n_p_time_var] = self.p_time_var_val[i, :]
            self.p_val_ctrl_stages[i, n_p_time_var:] = self.p_global_val
""", """        global_part = np.tile(self.p_global_val, (opts.N_stages, 1))
        self.p_val_ctrl_stages = np.hstack((np.array(self.p_time_var_val), global_part))
"""))
ref("m-upsilon", MO, ("""                        if S_temp[j, k] != 0:
                            upsilon_ij *= (0.5 * (1 - S_temp[j, k]) +
                                           S_temp[j, k] * alpha[ii][k])
""", """                        s_jk = S_temp[j, k]
                        if s_jk == 0:
                            continue
                        factor = 0.5 - 0.5 * s_jk + s_jk * alpha[ii][k]
                        upsilon_ij = upsilon_ij * factor
"""))
ref("m-lambda00", MO, ("            lambda00_expr = ca.vertcat(-ca.fmin(c_all, 0), ca.fmax(c_all, 0))\n",
                       "            lambda00_expr = ca.vertcat(ca.fmax(-c_all, 0), ca.fmax(c_all, 0))\n"))
ref("m-switching-mat", MO, ("""            for ii in range(n_sys):
                f_x = f_x + self.F[ii] @ theta[ii]
                g_switching = ca.vertcat(
                    g_switching,
                    g_Stewart_list[ii] - lam[ii] + mu[ii])
""", """            for F_ii, theta_ii in zip(self.F, theta):
                f_x = ca.mtimes(F_ii, theta_ii) + f_x
            for ii in range(n_sys):
                g_switching = ca.vertcat(
                    g_switching,
                    -(lam[ii] - g_Stewart_list[ii] - mu[ii]))
"""))
ref("m-convex", MO, ("                g_convex = ca.vertcat(g_convex, ca.sum1(theta[ii]) - 1)\n",
                     "                g_convex = ca.vertcat(g_convex, 1 - ca.sum1(theta[ii]))\n"))
ref("m-bounds-loop", MO, ("""        if self.lbz is None:
            self.lbz = -np.inf * np.ones((n_z,))
        elif len(self.lbz) != n_z:
            raise ValueError("lbz should be empty or of length n_z.")
        if self.ubz is None:
            self.ubz = np.inf * np.ones((n_z,))
        elif len(self.ubz) != n_z:
            raise ValueError("ubz should be empty or of length n_z.")
""", """        self.lbz = self._bound_or_default("lbz", self.lbz, -np.inf, n_z)
        self.ubz = self._bound_or_default("ubz", self.ubz, np.inf, n_z)
"""), ("    def preprocess_model(self, opts: NosnocOpts):\n", """    @staticmethod
    def _bound_or_default(name, value, default, n):
        if value is None:
            return np.full((n,), default)
        if len(value) != n:
            raise ValueError(f"{name} should be empty or of length n_z.")
        return value

    def preprocess_model(self, opts: NosnocOpts):
"""))
ref("m-smooth", MO, ("                                      [(ca.tanh(1 / smoothing_parameter * y) + 1) / 2])",
                     "                                      [0.5 + 0.5 * ca.tanh(y / smoothing_parameter)])"))
ref("m-lam00-args", MO, ("""        x0 = self.x0
        p0 = self.p_val_ctrl_stages[0]
        if opts""", """        x0, p0 = self.x0, self.p_val_ctrl_stages[0, :]
        if opts"""), ("        return self.lambda00_fun(x0, z0, p0).full().flatten()", "        lambda00 = self.lambda00_fun(x0, z0, p0)\n        return np.array(lambda00.full()).reshape(-1)" if 0 else "        lambda00 = self.lambda00_fun(x0, z0, p0)\n        return lambda00.full().flatten()"))
# ---------------------------------------------------------------- opts, rk, auto
ref("op-nfe", O, ("            self.Nfe_list = self.N_stages * [self.N_finite_elements]\n",
                  "            self.Nfe_list = [self.N_finite_elements for _ in range(self.N_stages)]\n"))
ref("op-boundary", O, ("""        if np.abs(irk_time_points[-1] - 1.0) < 1e-9:
            self.right_boundary_point_explicit = True
        else:
            self.right_boundary_point_explicit = False
""", """        self.right_boundary_point_explicit = bool(np.isclose(irk_time_points[-1], 1.0, rtol=0.0, atol=1e-9))
"""))
ref("op-tableau", O, ("""            B_irk, C_irk, D_irk, irk_time_points = generate_butcher_tableu_integral(
                self.n_s, self.irk_scheme)
            self.B_irk = B_irk
            self.C_irk = C_irk
            self.D_irk = D_irk
""", """            self.B_irk, self.C_irk, self.D_irk, irk_time_points = generate_butcher_tableu_integral(
                n_s=self.n_s, irk_scheme=self.irk_scheme)
"""))
ref("rk-step", R, ("""def rk4_on_timegrid(f, x0, t_grid: np.ndarray) -> list:

    x = np.zeros((len(t_grid) + 1, len(x0)))
    x[0, :] = x0

    # Runge-Kutta 4th order method
    for i in range(len(t_grid)):
        # TODO: multiple steps?
        dt = t_grid[i]
        k1 = f(x[i, :])
        k2 = f(x[i, :] + dt * k1 / 2)
        k3 = f(x[i, :] + dt * k2 / 2)
        k4 = f(x[i, :] + dt * k3)
        x[i + 1, :] = x[i, :] + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4).full().flatten()

    x = x.tolist()
    return x
""", """def _rk4_step(f, x, dt):
    k1 = f(x)
    k2 = f(x + 0.5 * dt * k1)
    k3 = f(x + 0.5 * dt * k2)
    k4 = f(x + dt * k3)
    return x + dt / 6 * (k1 + 2 * (k2 + k3) + k4).full().flatten()


def rk4_on_timegrid(f, x0, t_grid: np.ndarray) -> list:

    x = np.zeros((len(t_grid) + 1, len(x0)))
    x[0, :] = x0
    for i, dt in enumerate(t_grid):
        x[i + 1, :] = _rk4_step(f, x[i, :], dt)
    return x.tolist()
"""))
ref("a-detect", A, ("""        fs_nonsmooth = ca.vertsplit(self.f_nonsmooth_ode)
        for f_nonsmooth in fs_nonsmooth:
            nonlin_components = self._find_nonlinear_components(f_nonsmooth)
            for component in nonlin_components:
                if not self._check_smooth(component) and not self._check_additive(component):
                    return False
        return True
""", """        components = [component for f_nonsmooth in ca.vertsplit(self.f_nonsmooth_ode)
                      for component in self._find_nonlinear_components(f_nonsmooth)]
        return all(self._check_smooth(c) or bool(self._check_additive(c)) for c in components)
"""))
ref("a-collate", A, ("""                for jj, c_jj in enumerate(self.c):
                    if ca.is_equal(c, c_jj, 10):
                        break
                else:
                    jj = len(self.c)
                    self.c.append(c)
                    self.S.append(S)
""", """                known = [jj for jj, c_jj in enumerate(self.c) if ca.is_equal(c, c_jj, 10)]
                if known:
                    jj = known[0]
                else:
                    self.c.append(c)
                    self.S.append(S)
                    jj = len(self.c) - 1
"""))
ref("a-min", A, ("                return [node.dep(1), node.dep(0)], node.dep(0)-node.dep(1), np.array([[1], [-1]])",
                 "                a, b = node.dep(0), node.dep(1)\n                return [a, b], b - a, np.array([[1], [-1]])"))


def apply(d, ids):
    n = 0
    for id, file, reps in M:
        if ids and not any(id.startswith(q) for q in ids):
            continue
        f = f"{d}/nosnoc/{file}"
        s = open(f).read()
        for a, b in reps:
            if s.count(a) != 1:
                print(f"{id}: BAD PATCH ({s.count(a)} matches of {a[:60]!r})")
                continue
            s = s.replace(a, b)
        open(f, "w").write(s)
        n += 1
    return n


def run(ids, checks):
    d = f"/tmp/rf/all-{os.getpid()}"
    os.makedirs("/tmp/rf", exist_ok=True)
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", d])
    print(apply(d, ids), "edits", flush=True)
    e = dict(os.environ, PYTHONPATH=d)
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "test"], cwd=d, env=e, capture_output=True, text=True)
    print("tests:", (r.stdout.strip().splitlines() or ["?"])[-1][:100], flush=True)
    for p in checks or [f"C{i:02d}" for i in range(1, 32) if i != 30]:
        r = subprocess.run([f"{VERIF}/check", p], env=dict(os.environ, NOSNOC_REPO=d), capture_output=True, text=True)
        print(p, "rc", r.returncode, [l[:330] for l in r.stdout.splitlines() if l.startswith(("  ", p))][-6:] if r.returncode
              else [l[:120] for l in r.stdout.splitlines() if l.startswith(p)], flush=True)
    shutil.rmtree(d)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "apply":
        print(apply(a[1], a[2:]))
    else:
        run([x for x in a[1:] if not (x[0] == "C" and x[1:].isdigit())], [x for x in a[1:] if x[0] == "C" and x[1:].isdigit()])
