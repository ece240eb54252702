"""Properties of the homotopy loop, result extraction, setters, repeated solving, the simulation loop (Engine B):
the real Python code is executed on symbolic inputs with an NLP solver that answers arbitrarily; every branch on a
symbolic condition is explored, and the claims of every path are decided by z3."""
import numpy as np

import engineb as eb
import nlp
import poly
import resultchecks as rc
from engineb import Claim, land, lor, lnot, iff
from spec import flat

SC = {}


def scenario(f):
    SC[f.__name__] = f
    return f


def zeroset(pr):
    """positions of all complementarity variables"""
    prim = flat(pr.ind_theta) + flat(pr.ind_alpha)
    dual = flat(pr.ind_lam) + flat(pr.ind_lambda_n) + flat(pr.ind_lambda_p)
    return prim, dual


def firstkw(stub, k=0):
    return stub.calls[k][0]


def same_call(ctx, key, what, a, b, names=("x0", "lbx", "ubx", "lbg", "ubg", "p")):
    for n in names:
        va, vb = a.get(n), b.get(n)
        if va is None or vb is None:
            yield Claim(f"{key}:{n}", f"{what}: {n} is passed in one NLP call only", va is None and vb is None)
        else:
            yield from ctx.eqv(f"{key}:{n}", f"{what}: {n}", np.atleast_1d(va), np.atleast_1d(vb))


# ---------------------------------------------------------------------------------------- homotopy (C15, C16, C21)
def free_one_dual(pr, extra=()):
    prim, dual = zeroset(pr)
    keep = {dual[0]} | set(extra)

    def wfix(k, i):
        if i in keep:
            return None
        if i in prim_s:
            return 0.25
        if i in dual_s:
            return 0.0
        return None
    prim_s, dual_s = set(prim), set(dual)
    return wfix, dual[0]


def homo_solver(ctx, c, K, rule, polish=False, tol=None, fixas=False):
    symopts = {}
    s0 = ctx.var("sigma_0", 0, 10)
    sN = ctx.var("sigma_N", 0, 10)
    q = ctx.var("slope", 0, 1)
    if tol is None:
        tol = ctx.var("comp_tol", 0, 1)
    for a in (s0, sN, q, tol):
        ctx.require(a > 0 if ctx.sym else True)
    ctx.require(q < 1 if ctx.sym else True)
    symopts.update(sigma_0=s0, sigma_N=sN, homotopy_update_slope=q, comp_tol=tol)
    c = nlp.Cfg(c)
    c["opts"] = dict(c["opts"], max_iter_homotopy=K, homotopy_update_rule=rule, do_polishing_step=polish,
                     fix_active_set_fe0=fixas)
    solver, d = eb.build(ctx, c, symbolic_inputs=False, symopts=symopts)
    # the initial state on the switching surface: initial multipliers are zero
    x0 = ctx.vec("x0_", d.nx)
    pg = [ctx.var(f"pg_{n}") for n in d.pg]
    if "c0" in d.pg:
        k = d.pg.index("c0")
        pg[k] = x0[0] + (pg[d.pg.index("c1")] * x0[1] if c["model"] == "a2" else 0.0)
    pg = ctx.arr(pg)
    solver.set("x0", x0)
    solver.set("p_global", pg)
    ctx.data.update(x0=x0, pg=pg, s0=s0, sN=sN, q=q, tol=tol, solver=solver, d=d)
    return c, solver, d


@scenario
def homotopy(cfg, K, rule, statuses=None):
    cfg = nlp.Cfg(cfg)

    def run(ctx):
        with eb.session(ctx):
            c, solver, d = homo_solver(ctx, cfg, K, rule)
            wfix, ctx.data["lam"] = free_one_dual(solver.problem)
            stub = ctx.data["stub"] = eb.Stub(ctx, wfix=wfix, statuses=statuses, tconst=True)
            nlp.FakeNlp.current_handler = stub
            ctx.data["res"] = solver.solve()

    def oracle(ctx):
        D, calls = ctx.data, ctx.data["stub"].calls
        s0, sN, q, tol = D["s0"], D["sN"], D["q"], D["tol"]
        sig, tau = eb.slots(cfg)
        yield Claim("count", f"{len(calls)} NLPs solved with max_iter_homotopy={K}", 1 <= len(calls) <= K)
        e = cfg["opts"].get("homotopy_update_exponent", 1.5)
        want = s0
        for k, (kw, ans) in enumerate(calls):
            comp = 0.25 * ans["w"][D["lam"]]
            p = list(kw["p"])
            if k > 0:
                if sig is not None:
                    want = list(calls[k - 1][0]["p"])[sig]
                want = q * want if rule == "LINEAR" else eb.mx(ctx, sN, eb.mn(ctx, q * want, want ** e))
            if sig is not None:
                s = p[sig]
                yield Claim("sigma", f"NLP {k}: relaxation parameter {s} instead of {want}", ctx.eq(s, want))
                if k > 0:
                    prev = list(calls[k - 1][0]["p"])[sig]
                    yield Claim("sigma-decreases", f"NLP {k}: relaxation parameter does not decrease", s < prev)
                    yield Claim("sigma-positive", f"NLP {k}: relaxation parameter is not positive", s > 0)
            if k > 0:
                yield from ctx.eqv("warm", f"NLP {k}: initial guess", kw["x0"], calls[k - 1][1]["w"])
                yield from same_call(ctx, "bounds", f"NLP {k} compared with the first", kw, calls[0][0],
                                     ("lbx", "ubx", "lbg", "ubg"))
                if sig is not None:
                    a = [x for i, x in enumerate(p) if i not in (sig, tau)]
                    b = [x for i, x in enumerate(calls[0][0]["p"]) if i not in (sig, tau)]
                    if tau is not None:
                        yield from ctx.eqv("params", f"NLP {k}: parameters", a, b)
            stop = lor(comp < tol, (want if sig is None else p[sig]) <= sN)
            if k < len(calls) - 1:
                yield Claim("late-stop", f"loop continues after NLP {k} although it should stop", lnot(stop))
            elif k < K - 1:
                yield Claim("early-stop", f"loop stops after NLP {k} although neither criterion holds", stop)
    return run, oracle, None


@scenario
def outcome(cfg, K, polish=False, statuses=None, fixas=False):
    """C16: what is returned for any sequence of NLP answers"""
    cfg = nlp.Cfg(cfg)

    def run(ctx):
        with eb.session(ctx):
            c, solver, d = homo_solver(ctx, cfg, K, "LINEAR", polish, tol=0.01 if polish else None, fixas=fixas)
            pr = solver.problem
            if polish:
                prim, dual = zeroset(pr)
                keep = {dual[0], flat(pr.ind_x)[-1]}
                wf = free_one_dual(pr)[0]
                def wfix(k, i):
                    if i in keep or k >= ctx.data["nhom"]():
                        return wf(k, i)
                    return wf(k, i) if i in prim + dual else 0.5 + 0.125 * (i % 3)
                ctx.data["lam"] = dual[0]
            else:
                wfix, ctx.data["lam"] = free_one_dual(pr)
            stub = ctx.data["stub"] = eb.Stub(ctx, wfix=wfix, statuses=statuses, tconst=statuses is not None)
            ctx.data["nhom"] = lambda: 10 ** 6
            nlp.FakeNlp.current_handler = stub
            ctx.data["res"] = solver.solve()

    def oracle(ctx):
        from nosnoc.nosnoc_types import Status
        D, calls, res = ctx.data, ctx.data["stub"].calls, ctx.data["res"]
        last = calls[-1][1]
        pr = D["solver"].problem
        w = last["w"]
        yield from ctx.eqv("w_sol", "w_sol", res["w_sol"], w)
        yield Claim("cost_val", "cost_val is not the last NLP's objective value", ctx.eq(res["cost_val"], last["f"]))
        yield from rc.trajectories(ctx, cfg, res, w)
        st = res["status"]
        yield Claim("status", f"status is {st} although the last NLP's outcome says otherwise",
                    last["good"] if st == Status.SUCCESS else land(lnot(last["good"]), st == Status.INFEASIBLE))
        hist = list(res["w_all"])
        yield Claim("w_all:length", f"w_all has {len(hist)} entries for {len(calls)} NLPs", len(hist) == len(calls) + 1)
        if len(hist) == len(calls) + 1:
            if not fixas:
                yield from ctx.eqv("w_all", "w_all[0]", hist[0], calls[0][0]["x0"])
            for k, (kw, ans) in enumerate(calls):
                yield from ctx.eqv("w_all", f"w_all[{k + 1}]", hist[k + 1], ans["w"])
        its = [x for x in res["nlp_iter"] if x is not None]
        yield from ctx.eqv("nlp_iter", "nlp_iter", its, [a["it"] for _, a in calls])
        ts = [x for x in res["cpu_time_nlp"] if x is not None]
        yield Claim("cpu_time_nlp:length", f"{len(ts)} times for {len(calls)} NLPs", len(ts) == len(calls))
        if len(ts) == len(calls):
            n = len(calls) - (1 if polish else 0)
            for k in range(n):
                yield Claim("cpu_time_nlp", f"cpu_time_nlp[{k}] is not the solver's time",
                            lor(ctx.eq(ts[k], calls[k][1]["t"]), ctx.eq(ts[k], calls[k][1]["tw"])))
    return run, oracle, None


# ---------------------------------------------------------------------------------------- fixing and polishing (C21)
@scenario
def active_set(cfg, statuses=("Solve_Succeeded",)):
    cfg = nlp.Cfg(cfg)

    def run(ctx):
        with eb.session(ctx):
            tol = ctx.var("comp_tol", 0, 1)
            ctx.require(tol > 0 if ctx.sym else True)
            c = nlp.Cfg(cfg)
            c["opts"] = dict(cfg["opts"], fix_active_set_fe0=True, max_iter_homotopy=2)
            solver, d = eb.build(ctx, c, symopts=dict(comp_tol=tol))
            pr = solver.problem
            ctx.data["base"] = {k: np.array(getattr(pr, k), dtype=object).copy() for k in ("lbw", "ubw")}
            prim, dual = zeroset(pr)
            stub = ctx.data["stub"] = eb.Stub(ctx, wfix=lambda k, i: 0.25 if i in prim else 1.0 if i in dual else None,
                                              statuses=list(statuses), tconst=True)
            nlp.FakeNlp.current_handler = stub
            solver.solve()
            ctx.data["tol"] = tol

    def oracle(ctx):
        D, calls = ctx.data, ctx.data["stub"].calls
        pr, d, tol = D["solver"].problem, D["d"], D["tol"]
        lam00 = rc.lam00(ctx, d, D["x0"], D["pg"], D["tv"])
        owner = {}
        if nlp.full(cfg, "pss_mode") == "STEWART":
            ns = nlp.full(cfg, "n_s")
            for j in range(ns):
                for s in range(d.nsys()):
                    for m, i in enumerate(flat(pr.ind_theta[0][0][j][s])):
                        owner[i] = lam00[s][m]
        for k, (kw, ans) in enumerate(calls):
            lb, ub = list(kw["lbx"]), list(kw["ubx"])
            for i in range(len(lb)):
                a = land(ctx.eq(lb[i], D["base"]["lbw"][i]), ctx.eq(ub[i], D["base"]["ubw"][i]))
                if i in owner:
                    pin = land(ctx.eq(lb[i], 0), ctx.eq(ub[i], 0))
                    pos = owner[i] > 10 * tol
                    yield Claim("active-set", f"NLP {k}: bounds of multiplier w[{i}] are [{lb[i]}, {ub[i]}]",
                                lor(land(pos, pin), land(lnot(pos), a)))
                else:
                    yield Claim("other-bounds", f"NLP {k}: bounds of w[{i}] changed to [{lb[i]}, {ub[i]}]", a)
    return run, oracle, None


@scenario
def polishing(cfg, free, fixas=False, K=1, deep=1):
    """free: groups with one unknown entry in the homotopy solution"""
    cfg = nlp.Cfg(cfg)

    def run(ctx):
        with eb.session(ctx):
            tol = ctx.var("comp_tol", 0, 0.04)
            ctx.require(tol > 0 if ctx.sym else True)
            c = nlp.Cfg(cfg)
            c["opts"] = dict(cfg["opts"], do_polishing_step=True, max_iter_homotopy=K, fix_active_set_fe0=fixas)
            solver, d = eb.build(ctx, c, symopts=dict(comp_tol=tol), symbolic_inputs=False)
            pr = solver.problem
            ctx.data["base"] = {k: np.array(getattr(pr, k), dtype=object).copy() for k in ("lbw", "ubw")}
            keep = set()
            for g in free:
                ix = flat(getattr(pr, "ind_" + g))
                if ix:
                    keep |= {ix[-1]} if deep < 2 else {ix[0], ix[-1]}
            prim, dual = zeroset(pr)
            stub = ctx.data["stub"] = eb.Stub(
                ctx, wfix=lambda k, i: None if i in keep else [0.0, 1.0, 0.5][(i + k) % 3] if i in prim + dual
                else [0.0, 1.0, 0.25][i % 3], statuses=["Solve_Succeeded"], tconst=True)
            nlp.FakeNlp.current_handler = stub
            solver.solve()
            ctx.data["tol"] = tol

    def oracle(ctx):
        D, calls = ctx.data, ctx.data["stub"].calls
        pr, tol = D["solver"].problem, D["tol"]
        prim, dual = zeroset(pr)
        yield Claim("calls", f"{len(calls)} NLPs solved with {K} homotopy iterations and polishing", 2 <= len(calls) <= K + 1)
        if len(calls) < 2:
            return
        kw, (hkw, hans) = calls[-1][0], calls[-2]
        w = hans["w"]
        lb, ub = list(kw["lbx"]), list(kw["ubx"])
        for i in range(len(lb)):
            a = land(ctx.eq(lb[i], D["base"]["lbw"][i]), ctx.eq(ub[i], D["base"]["ubw"][i]))
            if fixas:
                a = lor(a, land(ctx.eq(lb[i], hkw["lbx"][i]), ctx.eq(ub[i], hkw["ubx"][i])))
            if i in prim or i in dual:
                p0 = land(ctx.eq(lb[i], 0), ctx.eq(ub[i], 0), w[i] <= 10 * tol, w[i] >= -10 * tol)
                p1 = land(ctx.eq(lb[i], 1), ctx.eq(ub[i], 1), w[i] - 1 <= 10 * tol, w[i] - 1 >= -10 * tol)
                yield Claim("pinned", f"polishing sets the bounds of complementarity variable w[{i}] = {w[i]} to "
                            f"[{lb[i]}, {ub[i]}]", lor(a, p0, p1))
            else:
                yield Claim("other-bounds", f"polishing changes the bounds of w[{i}] to [{lb[i]}, {ub[i]}]", a)
        yield from same_call(ctx, "bounds", "polishing NLP", kw, hkw, ("lbg", "ubg"))
        yield from ctx.eqv("guess", "polishing NLP: initial guess", kw["x0"], w)
        sig, tau = eb.slots(cfg)
        for sl, nm in ((sig, "relaxation parameter"), (tau, "second relaxation parameter")):
            if sl is not None:
                yield Claim("sigma", f"polishing NLP is solved with {nm} {kw['p'][sl]}", ctx.eq(list(kw["p"])[sl], 0))
        if sig is not None and tau is not None:
            a = [x for i, x in enumerate(kw["p"]) if i not in (sig, tau)]
            b = [x for i, x in enumerate(hkw["p"]) if i not in (sig, tau)]
            yield from ctx.eqv("params", "polishing NLP: parameters", a, b)
    return run, oracle, None


# ---------------------------------------------------------------------------------------- C17
@scenario
def extract(cfg, fix_modes=False):
    c = nlp.Cfg(cfg)
    return rc.run_extract(c, fix_modes), rc.oracle_fields(c), None


# ---------------------------------------------------------------------------------------- C18
@scenario
def simulate(cfg, Nsim, stop=False, pvals=False, winit=False, statuses=("Solve_Succeeded", "Infeasible_Problem_Detected"),
             polish=False, prevguess=False):
    cfg = nlp.Cfg(cfg)
    c = nlp.Cfg(cfg)
    c["opts"] = dict(cfg["opts"], max_iter_homotopy=1, do_polishing_step=polish)
    if winit:
        c["opts"]["initialization_strategy"] = "EXTERNAL"
    if prevguess:
        c["opts"]["initialization_strategy"] = "ALL_XCURRENT_WOPT_PREV"

    def run(ctx):
        import nosnoc
        with eb.session(ctx):
            solver, d = eb.build(ctx, c, symbolic_inputs=False)
            pr = solver.problem
            prim, dual = zeroset(pr)
            x0, pg, tv = eb.inputs(ctx, d, solver.opts.N_stages)
            solver.set("p_global", pg)
            if d.tv:
                solver.set("p_time_var", tv)
            n = len(pr.w0)

            def wfix(k, i):
                if i in prim:
                    # the active mode changes inside every step
                    e = prim.index(i) * len(cut) // len(prim)
                    return float((prim.index(i) + cut[e] + k) % 2)
                if i in dual:
                    return 0.5
                return None
            fes = [prim_of for s in (pr.ind_theta if not flat(pr.ind_alpha) else pr.ind_alpha) for prim_of in s]
            cut = list(range(len(fes)))
            stub = ctx.data["stub"] = eb.Stub(ctx, wfix=wfix, statuses=list(statuses), tconst=True)
            nlp.FakeNlp.current_handler = stub
            P = ctx.arr([[ctx.var(f"pv{i}_{j}") for j in range(len(d.pg))] for i in range(Nsim)]) if pvals else None
            Wi = [ctx.vec(f"wi{i}_", n) for i in range(Nsim)] if winit else None
            steps = []
            orig = solver.solve

            def rec():
                k = len(stub.calls)
                r = orig()
                steps.append((k, len(stub.calls), {a: (list(b) if isinstance(b, list) else b) for a, b in r.items()}))
                return r
            solver.solve = rec
            looper = nosnoc.NosnocSimLooper(solver, x0, Nsim, p_values=P, w_init=Wi)
            ctx.data["ret"] = looper.run(stop_on_failure=stop)
            res = ctx.data["res"] = looper.get_results()
            # reference: a fresh solver for every step
            ref = []
            xcur = x0
            for i, (k0, k1, r) in enumerate(steps):
                if prevguess:
                    ref.append(None)
                else:
                    s2, _ = eb.build(ctx, c, symbolic_inputs=False)
                    s2.set("p_global", P[i, :] if pvals else pg)
                    if d.tv:
                        s2.set("p_time_var", tv)
                    s2.set("x0", xcur)
                    if winit:
                        s2.set("w", Wi[i].copy())
                    stub2 = eb.Stub(ctx, prefix=f"ref{i}", wfix=lambda k, i: 0.5, statuses=["Solve_Succeeded"], tconst=True)
                    nlp.FakeNlp.current_handler = stub2
                    s2.solve()
                    ref.append(stub2.calls[0][0])
                xcur = r["x_list"][-1]
            ctx.data.update(steps=steps, ref=ref, x0=x0, looper=looper)

    def oracle(ctx):
        from nosnoc.nosnoc_types import Status
        D, res, steps, ref = ctx.data, ctx.data["res"], ctx.data["steps"], ctx.data["ref"]
        calls = D["stub"].calls
        ok = [r["status"] == Status.SUCCESS for _, _, r in steps]
        n = Nsim
        if stop and False in ok:
            n = ok.index(False) + 1
        yield Claim("steps", f"{len(steps)} steps performed, expected {n} (statuses {ok}, stop_on_failure={stop})",
                    len(steps) == n)
        want = not (stop and False in ok)
        yield Claim("return", f"run() returns {D['ret']}, expected {want}", bool(D["ret"]) == want)
        for i, (k0, k1, r) in enumerate(steps):
            if ref[i] is not None:
                yield from same_call(ctx, "chain", f"step {i} compared with a fresh solver started at the end state of the "
                                     f"previous step", calls[k0][0], ref[i])
        R = [r for _, _, r in steps]
        xs = [D["x0"]] + [x for r in R for x in r["x_list"]]
        yield from rc.lists(ctx, "X_sim", list(res["X_sim"]), xs)
        ts = [h for r in R for h in list(r["time_steps"])]
        yield from ctx.eqv("time_steps", "time_steps", res["time_steps"], ts)
        g = rc.cums(ts)
        yield from ctx.eqv("t_grid", "t_grid", res["t_grid"], g)
        t, sw = 0.0, []
        for r in R:
            sw += [s + t for s in list(r["switch_times"])]
            for h in list(r["time_steps"]):
                t = t + h
        yield from ctx.eqv("switch_times", "switch_times", list(res["switch_times"]), sw)
        yield Claim("status", f"status list {res['status']}", list(res["status"]) == [r["status"] for r in R])
        yield from ctx.eqv("cost_vals", "cost_vals", res["cost_vals"], [r["cost_val"] for r in R])
        for key, src in (("w_sim", "w_sol"), ("w_all", "w_all"), ("theta_sim", "theta_list"), ("lambda_sim", "lambda_list"),
                         ("alpha_sim", "alpha_list"), ("z_sim", "z_list")):
            yield Claim(key + ":length", f"{key} has {len(res[key])} entries for {len(R)} steps", len(res[key]) == len(R))
            for i, (a, r) in enumerate(zip(res[key], R)):
                yield from ctx.eqv(key, f"{key}[{i}]", rc.flat2(a), rc.flat2(r[src]))
        if "sot" in R[0]:
            yield from ctx.eqv("sot", "sot", rc.flat2(list(res["sot"])), [x for r in R for x in rc.flat2(r["sot"])])
        cpu = np.array(res["cpu_nlp"], dtype=float)
        for i, r in enumerate(R):
            yield from ctx.eqv("cpu_nlp", f"cpu_nlp[{i}]", cpu[i], [0.0 if x is None else x for x in r["cpu_time_nlp"]])
        # first call of a step starts at the current state
        pr = D["solver"].problem
        if prevguess:
            xcur = D["x0"]
            for i, (k0, k1, r) in enumerate(steps):
                x0k = list(calls[k0][0]["x0"])
                for idx in [st for s in pr.ind_x for e in s for st in e]:
                    yield from ctx.eqv("guess-x", f"step {i}: guess of the states", [x0k[j] for j in idx], xcur)
                if i > 0:
                    rest = sorted(set(range(len(x0k))) - set(flat(pr.ind_x)))
                    yield from ctx.eqv("guess-prev", f"step {i}: guess", [x0k[j] for j in rest],
                                       [R[i - 1]["w_sol"][j] for j in rest])
                xcur = r["x_list"][-1]
    return run, oracle, None


# ---------------------------------------------------------------------------------------- C19
def frozen(v):
    """numbers in a (nested) result entry"""
    if isinstance(v, (list, tuple)):
        return [q for e in v for q in frozen(e)]
    if isinstance(v, np.ndarray):
        return [q for q in v.flatten()]
    return [v] if isinstance(v, (int, float, poly.P)) else []


@scenario
def repeat(cfg, strategy="ALL_XCURRENT_W0_START", K=1, polish=False, fixas=False, change=None, statuses=None, symx=False):
    """solve, (change inputs), solve again"""
    c = nlp.Cfg(cfg)
    c["opts"] = dict(c["opts"], max_iter_homotopy=K, do_polishing_step=polish, fix_active_set_fe0=fixas,
                     initialization_strategy=strategy)
    prev = strategy == "ALL_XCURRENT_WOPT_PREV"

    def run(ctx):
        with eb.session(ctx):
            tol = 0.01
            solver, d = eb.build(ctx, c, symbolic_inputs=False, symopts=dict(comp_tol=tol))
            pr = solver.problem
            prim, dual = zeroset(pr)
            free = {flat(pr.ind_x)[0], dual[0], prim[-1]}

            def wfix(k, i):
                if polish:
                    return None if i in free and k == 0 else [0.0, 1.0, 0.5][(i + k) % 3]
                return 0.25 if i in prim else 1.0 if i in dual else None
            stub = ctx.data["stub"] = eb.Stub(ctx, wfix=wfix, statuses=statuses, tconst=True)
            nlp.FakeNlp.current_handler = stub
            N = solver.opts.N_stages
            A = eb.inputs(ctx, d, N, "A")
            if fixas and K > 0 and not symx:     # concrete initial state: the active set is decided
                A = eb.inputs(eb.Ctx(env={}), d, N, "A")
                A = tuple(ctx.obj(a) for a in A)
            B = list(A)
            if change:
                Bs = eb.inputs(ctx if not fixas or symx else eb.Ctx(env={}), d, N, "B")
                for k in change:
                    B[k] = Bs[k] if not fixas or symx else ctx.obj(Bs[k])

            def put(s, I, which):
                for k, f in ((0, "x0"), (1, "p_global"), (2, "p_time_var")):
                    if k in which and (k < 2 or d.tv):
                        s.set(f, I[k])
            copyA = [np.array(a, dtype=object).copy() for a in A]
            put(solver, A, (0, 1, 2))
            res1 = solver.solve()
            snap1 = {k: frozen(v) for k, v in res1.items()}
            k1 = len(stub.calls)
            ctx.data["sol1"] = stub.calls[-1][1]["w"]
            put(solver, B, change or ())
            solver.solve()
            ctx.data.update(res1=res1, snap1=snap1, k1=k1, A=A, copyA=copyA, B=B, solver=solver)
            if change:
                s2, _ = eb.build(ctx, c, symbolic_inputs=False, symopts=dict(comp_tol=tol))
                put(s2, B, (0, 1, 2))
                stub2 = eb.Stub(ctx, prefix="ref", wfix=lambda k, i: 0.5, statuses=["Solve_Succeeded"], tconst=True)
                nlp.FakeNlp.current_handler = stub2
                s2.solve()
                ctx.data["ref"] = stub2.calls[0][0]
            else:
                ctx.data["ref"] = stub.calls[0][0]

    def oracle(ctx):
        D = ctx.data
        calls, pr = D["stub"].calls, D["solver"].problem
        second = calls[D["k1"]][0]
        names = ("lbx", "ubx", "lbg", "ubg", "p") + (() if prev else ("x0",))
        what = "second solve() compared with " + ("a fresh solver with the same inputs" if change else "the first")
        yield from same_call(ctx, "again", what, second, D["ref"], names)
        if prev:
            g = list(second["x0"])
            xs = set(flat(pr.ind_x))
            rest = [i for i in range(len(g)) if i not in xs and not (fixas and i in set(flat(pr.ind_theta)))]
            yield from ctx.eqv("prev", "guess of the second solve", [g[i] for i in rest], [D["sol1"][i] for i in rest])
            for idx in [st for s in pr.ind_x for e in s for st in e]:
                yield from ctx.eqv("prev-x", "state guess of the second solve", [g[i] for i in idx], D["B"][0])
        for k, v in D["snap1"].items():
            now = frozen(D["res1"][k])
            yield Claim("first-result", f"results[{k!r}] of the first solve changed its length", len(now) == len(v))
            yield from ctx.eqv("first-result", f"results[{k!r}] of the first solve, after the second solve", now, v)
        for a, b in zip(D["A"], D["copyA"]):
            yield from ctx.eqv("inputs", "user's input array after solving", a, b)
    return run, oracle, None


# ---------------------------------------------------------------------------------------- C20
@scenario
def setter(cfg, field, strategy="EXTERNAL", rows=None):
    c = nlp.Cfg(cfg)
    c["opts"] = dict(c["opts"], max_iter_homotopy=1, initialization_strategy=strategy)

    def run(ctx):
        with eb.session(ctx):
            solver, d = eb.build(ctx, c)
            pr = solver.problem
            base = np.array(pr.w0, dtype=object).copy()
            N, nfe = nlp.full(c, "N_stages"), sum(nlp.layout(c))
            V = None
            if field == "x":
                V = np.array([ctx.vec(f"V{i}_", d.nx) for i in range(N if rows == "stages" else nfe)])
            elif field == "u":
                V = np.array([ctx.vec(f"V{i}_", d.nu) for i in range(N)])
            elif field == "v_global":
                V = ctx.vec("V", d.nv)
            elif field == "theta":
                nt = len(flat(pr.ind_theta[0][0][0]))
                V = np.array([ctx.vec(f"V{i}_", nt) for i in range(nfe)])
            elif field == "w":
                V = ctx.vec("V", len(base))
            if field:
                solver.set(field, V.copy())
            prim, dual = zeroset(pr)
            stub = eb.Stub(ctx, wfix=lambda k, i: 0.25, statuses=["Solve_Succeeded"], tconst=True)
            nlp.FakeNlp.current_handler = stub
            solver.solve()
            ctx.data.update(V=V, base=base, call=stub.calls[0][0])

    def oracle(ctx):
        D = ctx.data
        pr, V = D["solver"].problem, D["V"]
        want = list(D["base"])
        fes = [(s, e) for s in range(nlp.full(c, "N_stages")) for e in range(nlp.layout(c)[s])]
        if field == "x":
            for k, (s, e) in enumerate(fes):
                for idx in pr.ind_x[s][e]:
                    for m, i in enumerate(flat(idx)):
                        want[i] = V[s if rows == "stages" else k, m]
        elif field == "u":
            for s, idx in enumerate(pr.ind_u):
                for m, i in enumerate(flat(idx)):
                    want[i] = V[s, m]
        elif field == "v_global":
            for m, i in enumerate(flat(pr.ind_v_global)):
                want[i] = V[m]
        elif field == "theta":
            for k, (s, e) in enumerate(fes):
                for st in pr.ind_theta[s][e]:
                    for m, i in enumerate(flat(st)):
                        want[i] = V[k, m]
        elif field == "w":
            want = list(V)
        if strategy != "EXTERNAL":
            for s in pr.ind_x:
                for e in s:
                    for st in e:
                        for m, i in enumerate(flat(st)):
                            want[i] = D["x0"][m]
        yield from ctx.eqv("guess", f"initial guess after set({field!r})" if field else "initial guess", D["call"]["x0"], want)
    return run, oracle, None


@scenario
def setters(cfg, ops, strategy="EXTERNAL"):
    """a history of setters and solves: every value lands where it was put, the last one wins, the user's arrays stay"""
    c = nlp.Cfg(cfg)
    c["opts"] = dict(c["opts"], max_iter_homotopy=1, initialization_strategy=strategy)
    N, nfe = nlp.full(c, "N_stages"), sum(nlp.layout(c))
    fes = [(s, e) for s in range(N) for e in range(nlp.layout(c)[s])]

    def where(pr, field):
        """rows of indices of the stored values"""
        if field == "x":
            return [[flat(idx) for idx in pr.ind_x[s][e]] for s, e in fes]
        if field == "xs":
            return [[flat(idx) for e in pr.ind_x[s] for idx in e] for s in range(N)]
        if field == "u":
            return [[flat(idx)] for idx in pr.ind_u]
        if field == "v_global":
            return [[flat(pr.ind_v_global)]]
        if field == "theta":
            return [[flat(st) for st in pr.ind_theta[s][e]] for s, e in fes]
        return [[list(range(len(pr.w0)))]]

    def run(ctx):
        with eb.session(ctx):
            solver, d = eb.build(ctx, c)
            pr = solver.problem
            user, wants, want = [], [], list(np.array(pr.w0, dtype=object))
            stub = eb.Stub(ctx, wfix=lambda k, i: 0.25 if (i + k) % 3 else 0.5, statuses=["Solve_Succeeded"], tconst=True)
            nlp.FakeNlp.current_handler = stub
            for n, f in enumerate(ops):
                if f == "solve":
                    if strategy != "EXTERNAL":
                        for i, x in ((i, x) for r in where(pr, "x") for ix in r for i, x in zip(ix, ctx.data["x0"])):
                            want[i] = x
                    wants.append(list(want))
                    solver.solve()
                    if strategy == "ALL_XCURRENT_WOPT_PREV":
                        want = list(stub.calls[-1][1]["w"])
                    continue
                rows = where(pr, f.replace("int", ""))
                if f.endswith("int"):
                    V = np.array([[(i + r) % 2 for i in range(len(ix[0]))] for r, ix in enumerate(rows)])
                else:
                    V = np.array([list(ctx.vec(f"V{n}_{r}_", len(ix[0]))) for r, ix in enumerate(rows)])
                for r, ixs in enumerate(rows):
                    for ix in ixs:
                        for m, i in enumerate(ix):
                            want[i] = V[r, m]
                V = V[0] if f.replace("int", "") in ("w", "v_global") else V
                user.append((f, V, V.copy()))
                try:
                    solver.set(f.replace("int", "").replace("xs", "x"), V)
                except Warning:
                    if strategy == "EXTERNAL":
                        raise
            ctx.data.update(user=user, wants=wants, calls=stub.calls)

    def oracle(ctx):
        D = ctx.data
        for k, w in enumerate(D["wants"]):
            yield from ctx.eqv("history", f"initial guess of solve {k} in {'-'.join(ops)}", D["calls"][k][0]["x0"], w)
        for f, V, copy in D["user"]:
            yield from ctx.eqv("users-array", f"array given to set({f!r}) after {'-'.join(ops)}", V, copy)
    return run, oracle, None


@scenario
def guess_bounds(cfg):
    """default guesses of the library's own variables lie in their bounds for all option values"""
    c = nlp.Cfg(cfg)
    c["opts"] = dict(c["opts"], max_iter_homotopy=1)

    def run(ctx):
        with eb.session(ctx):
            g = ctx.var("gamma_h", 0, 1)
            lo, hi = ctx.var("sot_min", 0.01, 5), ctx.var("sot_max", 0.01, 50)
            ctx.require(lo <= hi if ctx.sym else True)
            if not ctx.sym and hi < lo:
                lo, hi = hi, lo
            so = dict(gamma_h=g)
            if nlp.full(c, "speed_of_time_variables") != "NONE":
                so.update(speed_of_time_min=lo, speed_of_time_max=hi)
            solver, d = eb.build(ctx, c, symopts=so)
            stub = eb.Stub(ctx, wfix=lambda k, i: 0.25, statuses=["Solve_Succeeded"], tconst=True)
            nlp.FakeNlp.current_handler = stub
            solver.solve()
            ctx.data["call"] = stub.calls[0][0]

    def oracle(ctx):
        D = ctx.data
        pr, kw = D["solver"].problem, D["call"]
        user = set(flat(pr.ind_x)) | set(flat(pr.ind_u)) | set(flat(pr.ind_z)) | set(flat(pr.ind_v_global))
        for i, (g, lb, ub) in enumerate(zip(kw["x0"], kw["lbx"], kw["ubx"])):
            if i not in user:
                yield Claim("guess-in-bounds", f"guess {g} of w[{i}] outside its bounds [{lb}, {ub}]",
                            land(g >= lb, g <= ub))
    return run, oracle, None


# ---------------------------------------------------------------------------------------- C23
@scenario
def options(cfg, settol=False):
    cfg = nlp.Cfg(cfg)

    def run(ctx):
        import copy
        import nosnoc
        with eb.session(ctx), eb.loose_validate():
            a, b = nosnoc.NosnocOpts(), nosnoc.NosnocOpts()
            base = snapshot(nosnoc.NosnocOpts())
            ta, tb, tu = (ctx.var(n, 0, 1) for n in ("tol_a", "tol_b", "tol_user"))
            for v in (ta, tb, tu):
                ctx.require(v > 0 if ctx.sym else True)
            a.comp_tol, b.comp_tol = ta, tb
            a.max_iter_homotopy = b.max_iter_homotopy = 3
            if settol:
                a.tol_ipopt = tu
            for k, v in cfg["opts"].items():
                setattr(a, k, nlp.ENUMS[k][v] if k in nlp.ENUMS else copy.copy(v))
            a.preprocess()
            s1 = snapshot(a)
            a.preprocess()
            s2 = snapshot(a)
            b.preprocess()
            # deep mutation of everything reachable from a
            snap_b = snapshot(b)
            mutate(a)
            ctx.data.update(a=s1, a2=s2, b=snap_b, b2=snapshot(b), fresh=snapshot(nosnoc.NosnocOpts()), base=base,
                            ta=ta, tb=tb, tu=tu)

    def oracle(ctx):
        D = ctx.data
        yield from dicteq(ctx, "preprocess-twice", "after a second preprocess()", D["a2"], D["a"])
        yield from dicteq(ctx, "other-object", "another options object after changing the first", D["b2"], D["b"])
        yield from dicteq(ctx, "defaults", "a new options object after changing the first", D["fresh"], D["base"])
        tol_a, tol_b = D["a"]["opts_casadi_nlp/ipopt/tol"], D["b"]["opts_casadi_nlp/ipopt/tol"]
        for k in ("tol", "dual_inf_tol", "compl_inf_tol", "mu_target"):
            yield Claim("tol-set", f"ipopt option {k} differs from tol",
                        ctx.eq(D["a"].get("opts_casadi_nlp/ipopt/" + k), tol_a))
        if settol:
            yield Claim("tol-user", "the user's NLP tolerance is replaced", ctx.eq(tol_a, D["tu"]))
        else:
            yield Claim("tol-range", "NLP tolerance is not in (0, comp_tol]", land(tol_a > 0, tol_a <= D["ta"]))
            # the same rule: tol_b belongs to tol_a's tolerance value
            yield Claim("tol-own", "NLP tolerance does not follow from the own complementarity tolerance",
                        ctx.eq(tol_a * D["tb"], tol_b * D["ta"]))
        yield Claim("tol-range-b", "NLP tolerance is not in (0, comp_tol]", land(tol_b > 0, tol_b <= D["tb"]))
        n, l = D["a"]["N_stages"], D["a"]["Nfe_list"]
        yield Claim("Nfe_list", f"Nfe_list {l} for {n} control stages",
                    len(l) == n and (list(l) == list(nlp.layout(cfg))))
    return run, oracle, None


@scenario
def iterations(cfg, slope=None, K=8):
    """number of homotopy iterations chosen for tolerance exp(a), initial relaxation exp(b), slope exp(-m)"""
    cfg = nlp.Cfg(cfg)

    def run(ctx):
        import math
        import nosnoc
        mk = poly.LogP if ctx.sym else math.exp
        with eb.session(ctx), eb.loose_validate():
            a, b = ctx.var("log_tol", -40, 2), ctx.var("log_sigma0", -20, 5)
            m = ctx.var("minus_log_slope", 0.01, 10) if slope is None else -math.log(slope)
            if ctx.sym:
                ctx.require(a <= b)
                ctx.require(b - a <= K * m)
            o = nosnoc.NosnocOpts()
            o.comp_tol, o.sigma_0 = mk(a), mk(b)
            o.homotopy_update_slope = mk(-m) if slope is None else slope
            for k, v in cfg["opts"].items():
                setattr(o, k, nlp.ENUMS[k][v] if k in nlp.ENUMS else v)
            o.preprocess()
            ctx.data.update(n=o.max_iter_homotopy, a=a, b=b, m=m)
            o.preprocess()
            ctx.data["n2"] = o.max_iter_homotopy

    def oracle(ctx):
        D = ctx.data
        n = int(D["n"])
        last = D["b"] - (n - 1) * D["m"]
        yield Claim("count", f"{n} homotopy iterations", n >= 1 and n == int(D["n2"]))
        yield Claim("last-sigma", f"with {n} iterations the last relaxation value exp({last}) is more than half an update "
                    f"step away from the complementarity tolerance exp({D['a']})",
                    land(last - D["a"] <= D["m"] * 0.5 + 1e-9, D["a"] - last <= D["m"] * 0.5 + 1e-9))
    return run, oracle, None


def snapshot(o):
    import copy
    out = {}

    def rec(k, v):
        if isinstance(v, dict):
            for a, b in v.items():
                rec(f"{k}/{a}", b)
        elif isinstance(v, np.ndarray):
            out[k] = [copy.copy(x) for x in v.flatten()]
        elif isinstance(v, list):
            out[k] = list(v)
        else:
            out[k] = v
    for k in sorted(set(dir(type(o))) | set(o.__dict__)):
        if k.startswith("_"):
            continue
        try:
            v = getattr(o, k)
        except Exception:
            continue
        if callable(v) and not hasattr(v, "name"):
            continue
        rec(k, v)
    return out


def mutate(o):
    def rec(v):
        if isinstance(v, dict):
            for k in list(v):
                if isinstance(v[k], (dict, list)):
                    rec(v[k])
                else:
                    v[k] = "changed"
            v["added"] = 1
        elif isinstance(v, list):
            v.append(99)
    for k in list(o.__dict__):
        v = o.__dict__[k]
        rec(v)
        if isinstance(v, np.ndarray):
            try:
                v.flat[:] = 77
            except Exception:
                pass
    rec(o.opts_casadi_nlp)
    try:
        o.tol_ipopt = 0.123
        o.nlp_max_iter = 7
    except Exception:
        pass
    for k in list(o.__dict__):
        if isinstance(o.__dict__[k], (int, float)):
            o.__dict__[k] = 55


def dicteq(ctx, key, what, a, b):
    yield Claim(key + ":keys", f"{what}: different attributes {sorted(set(a) ^ set(b))}", set(a) == set(b))
    for k in sorted(set(a) & set(b)):
        x, y = a[k], b[k]
        if isinstance(x, list) or isinstance(y, list):
            if not (isinstance(x, list) and isinstance(y, list)) or len(x) != len(y):
                yield Claim(f"{key}:{k}", f"{what}: {k} is {x!r:.60} instead of {y!r:.60}", False)
                continue
            for p, q in zip(x, y):
                yield Claim(f"{key}:{k}", f"{what}: {k} is {x!r:.60} instead of {y!r:.60}", ctx.eq(p, q))
        else:
            yield Claim(f"{key}:{k}", f"{what}: {k} is {x!r:.60} instead of {y!r:.60}", ctx.eq(x, y))


# ---------------------------------------------------------------------------------------- check interface
EXPL = dict(
    C15="NosnocSolver.solve on symbolic homotopy options with arbitrary NLP answers: relaxation sequence, warm start, "
        "bounds and stopping rule are claims on every path",
    C16="NosnocSolver.solve with arbitrary NLP answers and statuses: returned solution, cost, status, history and statistics",
    C17="get_results_from_primal_vector on a fully symbolic primal vector: every result field against the index lists of "
        "the NLP and running sums; switch times against all sign patterns of multiplier changes",
    C18="NosnocSimLooper.run with arbitrary step outcomes: each step's NLP data equals that of a fresh solver started at "
        "the end state of the previous step; concatenated results on one time axis",
    C19="two solve() calls on one solver: first NLP data identical to the first call's / to a fresh solver's, for every "
        "answer of the NLP solver in between",
    C20="every setter with symbolic values followed by solve(): the guess seen by the NLP solver entry by entry; default "
        "guesses inside bounds for symbolic option values",
    C21="bounds seen by the NLP solver with active-set fixing and in the polishing step, for symbolic initial state, "
        "tolerance and homotopy solution",
    C23="option objects with symbolic tolerances: preprocessing twice, independence after deep mutation, tolerance rule, "
        "iteration count over exponents")
BND = ("every NLP answer (primal vector, cost, status, iteration count) is a fresh symbolic value in [-10,10]; symbolic "
       "initial state, parameters and tolerances; all feasible branches explored (at most {n} paths per scenario). "
       "enumerated: configurations (models, Stewart/Step, representations, layouts up to 3 control stages), up to {k} "
       "homotopy iterations / simulation steps. outside: longer loops, other callbacks, IPOPT itself")


def info(prop):
    return dict(explanation=EXPL[prop], bounds=BND.format(n=3000, k=7),
                assumptions=["the NLP solver is a nondeterministic function (no relation between its answer and the NLP)",
                             "floating-point arithmetic of the Python code is taken as exact arithmetic"])


def label(prop, x):
    return x["s"] + " " + nlp.Cfg(x["cfg"]).label() + " " + " ".join(f"{k}={v}" for k, v in x["kw"].items())


def run(prop, x, it):
    r, o, ax = SC[x["s"]](x["cfg"], **x["kw"])
    eb.explore(it, r, o, dict(s=x["s"], cfg=x["cfg"], kw=x["kw"]), key=x["s"] + ":", max_paths=x.get("paths", 1500),
               allow_exc=ax)


def replay(prop, rp):
    r, o, ax = SC[rp["s"]](rp["cfg"], **rp["kw"])
    bad = eb.concrete(r, o, rp, ax)
    return bool(bad), "; ".join(f.text for f in bad[:5])


def I(s, cfg, paths=1500, **kw):
    return dict(s=s, cfg=dict(cfg), kw=kw, paths=paths)


def items(prop, tier):
    q = tier == "quick"
    cf = nlp.cfg
    A1 = cf("a1", [], n_s=1, N_finite_elements=1)
    out = []
    if prop == "C15":
        S1 = ["Solve_Succeeded"]
        S2 = ["Solve_Succeeded", "Infeasible_Problem_Detected"]
        base = [A1, cf("a1", [], n_s=1, N_finite_elements=2, pss_mode="STEP"),
                cf("a1", ["u"], n_s=1, N_stages=2, N_finite_elements=1, mpcc_mode="SCHOLTES_EQ"),
                cf("a2", [], n_s=2, N_finite_elements=1, mpcc_mode="ELASTIC_INEQ"),
                cf("a1", [], n_s=1, N_finite_elements=1, use_fesd=False)]
        for rule in ("LINEAR", "SUPERLINEAR"):
            sl = rule == "SUPERLINEAR"
            for i, c in enumerate(base):
                out.append(I("homotopy", c, K=2 if sl and i and q else 3, rule=rule, statuses=S1 if sl and q else S2))
            out.append(I("homotopy", A1, K=(4 if sl else 5) if q else (6 if sl else 8), rule=rule, statuses=S1))
            out.append(I("homotopy", A1, K=2, rule=rule, statuses=S2 if sl and q else None, paths=3000))
            out.append(I("homotopy", A1, K=1, rule=rule, statuses=None))
            if sl:
                for ex in (2.0, 3.0, 1.25):
                    out.append(I("homotopy", cf("a1", [], n_s=1, N_finite_elements=1, homotopy_update_exponent=ex), K=3, rule=rule,
                                 statuses=S1))
            if not q:
                out.append(I("homotopy", cf("a2", ["u"], n_s=2, N_stages=2, N_finite_elements=2), K=4, rule=rule, statuses=S2))
    if prop == "C16":
        S2 = ["Solve_Succeeded", "Maximum_Iterations_Exceeded"]
        S4 = ["Solve_Succeeded", "Search_Direction_Becomes_Too_Small", "Infeasible_Problem_Detected", "Restoration_Failed"]
        base = [A1, cf("a1", ["u"], n_s=1, N_stages=2, N_finite_elements=1, pss_mode="STEP"),
                cf("a2", ["u", "v", "z"], n_s=2, N_stages=2, Nfe_list=[2, 1]),
                cf("a2", [], n_s=1, irk_representation="DIFFERENTIAL", use_fesd=False),
                cf("s22", [], n_s=1, N_finite_elements=1, speed_of_time_variables="LOCAL")]
        for i, c in enumerate(base):
            out.append(I("outcome", c, K=3, statuses=S2))
            out.append(I("outcome", c, K=1, statuses=None, paths=2000))
            out.append(I("outcome", c, K=2, polish=True, statuses=S2, paths=2500))
        out.append(I("outcome", A1, K=2, statuses=None, paths=3000))
        out.append(I("outcome", A1, K=3, fixas=True, statuses=S2))
        out.append(I("outcome", A1, K=1, polish=True, statuses=None, paths=3000))
        out.append(I("outcome", A1, K=4 if q else 6, statuses=S4 if not q else S2, paths=3000))
    if prop == "C17":
        L = [("a1", [], dict(n_s=1, N_finite_elements=2)),
             ("a1", [], dict(n_s=1, N_finite_elements=2, pss_mode="STEP")),
             ("a1", ["u"], dict(n_s=2, N_stages=2, Nfe_list=[1, 2])),
             ("a2", ["u", "v", "z"], dict(n_s=2, N_stages=2, Nfe_list=[2, 1], irk_representation="DIFFERENTIAL")),
             ("a2", ["z", "z2"], dict(n_s=2, N_finite_elements=2, irk_scheme="GAUSS_LEGENDRE")),
             ("s22", ["u"], dict(n_s=1, N_stages=2, N_finite_elements=1, pss_mode="STEP", speed_of_time_variables="LOCAL")),
             ("s24", [], dict(n_s=1, N_finite_elements=2)),
             ("s24", [], dict(n_s=2, N_finite_elements=2, pss_mode="STEP", irk_representation="DIFFERENTIAL_LIFT_X")),
             ("gi2", [], dict(n_s=1, N_finite_elements=2, pss_mode="STEP")),
             ("a2", ["u", "u2"], dict(n_s=1, N_stages=3, Nfe_list=[1, 2, 1], use_fesd=False)),
             ("a1", ["v", "v2"], dict(n_s=1, N_stages=2, N_finite_elements=1, speed_of_time_variables="GLOBAL")),
             ("a1", [], dict(n_s=1, N_finite_elements=3)),
             ("a3", [], dict(n_s=2, N_finite_elements=2, pss_mode="STEP", irk_scheme="GAUSS_LEGENDRE", irk_representation="DIFFERENTIAL"))]
        if not q:
            L += [("a2", ["u", "v", "z", "tv"], dict(n_s=3, N_stages=3, Nfe_list=[2, 1, 3], irk_representation=r, pss_mode=p))
                  for r in ("INTEGRAL", "DIFFERENTIAL", "DIFFERENTIAL_LIFT_X") for p in ("STEWART", "STEP")]
            L += [("a1", [], dict(n_s=1, N_finite_elements=4)), ("a1", [], dict(n_s=1, N_stages=2, N_finite_elements=2, pss_mode="STEP"))]
        for m, f, o in L:
            c = cf(m, f, **o)
            n = sum(nlp.layout(c))
            out.append(I("extract", c, fix_modes=True))
            nm = {"s24": 6, "s22": 4, "a3": 3}.get(m, 2)
            if 3 ** (nm * (n - 1)) <= (800 if q else 6600):
                out.append(I("extract", c, fix_modes=False, paths=7000))
    if prop == "C18":
        L = [cf("a1", [], n_s=1, N_finite_elements=2), cf("a1", [], n_s=1, N_finite_elements=2, pss_mode="STEP"),
             cf("a2", ["z"], n_s=2, N_finite_elements=2, irk_scheme="GAUSS_LEGENDRE"),
             cf("s22", [], n_s=1, N_finite_elements=2, irk_representation="DIFFERENTIAL"),
             cf("a2", ["tv"], n_s=1, N_finite_elements=1, use_fesd=False),
             cf("a1", [], n_s=1, N_finite_elements=2, speed_of_time_variables="LOCAL"),
             cf("s24", [], n_s=1, N_finite_elements=2, pss_mode="STEP", irk_representation="DIFFERENTIAL_LIFT_X")]
        for i, c in enumerate(L):
            for stop in (False, True):
                out.append(I("simulate", c, Nsim=2 if q and i else 3, stop=stop, pvals=(i + stop) % 2 == 0))
        c = L[0]
        out.append(I("simulate", c, Nsim=3, stop=False, winit=True))
        out.append(I("simulate", c, Nsim=2, stop=True, winit=True, pvals=True))
        out.append(I("simulate", L[1], Nsim=2, polish=False, prevguess=True))
        out.append(I("simulate", c, Nsim=3, prevguess=True, stop=True))
        out.append(I("simulate", c, Nsim=4 if q else 6, stop=False, statuses=["Solve_Succeeded"]))
    if prop == "C19":
        L = [cf("a1", [], n_s=1, N_finite_elements=2), cf("a2", ["u", "tv", "fq"], n_s=2, N_stages=2, N_finite_elements=1, pss_mode="STEP"),
             cf("a2", ["z", "v", "u"], n_s=1, N_stages=2, Nfe_list=[1, 2], irk_representation="DIFFERENTIAL"),
             cf("s22", ["tv"], n_s=1, N_finite_elements=2, mpcc_mode="ELASTIC_INEQ"),
             cf("a2", [], n_s=2, N_finite_elements=2, use_fesd=False, mpcc_mode="SCHOLTES_EQ"),
             cf("a1", ["u"], n_s=1, N_finite_elements=1, use_fesd=False, mpcc_mode="FISCHER_BURMEISTER",
                cross_comp_mode="COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER")]
        S = ["Solve_Succeeded"]
        for ch in ([1], [2], [0, 1, 2]):
            out.append(I("repeat", cf("a2", ["u", "tv", "ctv"], n_s=1, N_stages=2, N_finite_elements=1), fixas=True, symx=True, K=1,
                         change=ch, statuses=S))
        S2 = ["Solve_Succeeded", "Infeasible_Problem_Detected"]
        for i, c in enumerate(L):
            for st in ("ALL_XCURRENT_W0_START", "EXTERNAL", "ALL_XCURRENT_WOPT_PREV"):
                out.append(I("repeat", c, strategy=st, K=1, statuses=S))
                ch = [[0], [1], [2], [0, 1, 2], [0, 1]][i % 5]
                if 2 in ch and "tv" not in c["feats"]:
                    ch = [0, 1]
                out.append(I("repeat", c, strategy=st, K=1, change=ch, statuses=S2))
            st = c["opts"].get("pss_mode", "STEWART") == "STEWART"
            out.append(I("repeat", c, polish=True, K=1, statuses=S))
            if st:
                out.append(I("repeat", c, fixas=True, K=1, statuses=S))
                out.append(I("repeat", c, fixas=True, K=1, change=[0], statuses=S))
                for s2 in ("ALL_XCURRENT_W0_START", "EXTERNAL", "ALL_XCURRENT_WOPT_PREV"):
                    out.append(I("repeat", c, fixas=True, symx=True, K=1, change=[0], strategy=s2, statuses=S))
                out.append(I("repeat", c, fixas=True, symx=True, K=1, change=[0, 1], statuses=S))
                out.append(I("repeat", c, fixas=True, polish=True, K=2, strategy="ALL_XCURRENT_WOPT_PREV", statuses=S))
            out.append(I("repeat", c, K=2 if q else 3, statuses=S2))
            out.append(I("repeat", c, change=[0, 1], K=2 if q else 3, statuses=S2))
            sg = nlp.cfg(c["model"], c["feats"], **dict(c["opts"], sigma_0=0.01, sigma_N=1e-3))
            out.append(I("repeat", sg, change=[0], K=3, statuses=S))
            out.append(I("repeat", sg, K=3, strategy="ALL_XCURRENT_WOPT_PREV", statuses=S))
    if prop == "C20":
        L = [cf("a2", ["u", "u2", "v", "v2"], n_s=2, N_stages=2, Nfe_list=[2, 1]),
             cf("a2", ["u", "v"], n_s=2, N_stages=3, Nfe_list=[1, 2, 1], irk_scheme="GAUSS_LEGENDRE", irk_representation="DIFFERENTIAL"),
             cf("s22", ["u", "v", "z"], n_s=1, N_stages=2, N_finite_elements=2, irk_representation="DIFFERENTIAL_LIFT_X"),
             cf("s24", ["u", "v"], n_s=2, N_stages=1, N_finite_elements=3),
             cf("a2", ["u", "v"], n_s=2, N_stages=2, Nfe_list=[1, 2], irk_scheme="GAUSS_LEGENDRE"),
             cf("a1", ["u", "v"], n_s=1, N_stages=2, Nfe_list=[1, 2], irk_scheme="GAUSS_LEGENDRE", irk_representation="DIFFERENTIAL_LIFT_X"),
             cf("a2", ["u", "v", "bu", "bv", "bx"], n_s=1, N_stages=2, N_finite_elements=2, pss_mode="STEP"),
             cf("a1", ["u", "v"], n_s=1, N_stages=2, Nfe_list=[1, 3], use_fesd=False)]
        for c in L:
            step = c["opts"].get("pss_mode") == "STEP"
            for f in ("x", "u", "v_global", "theta", "w", None):
                if f == "theta" and step:
                    continue
                for rows in (("stages", "elements") if f == "x" else (None,)):
                    out.append(I("setter", c, field=f, rows=rows))
            for f in ("u", "v_global", None):
                for st in ("ALL_XCURRENT_W0_START", "ALL_XCURRENT_WOPT_PREV"):
                    out.append(I("setter", c, field=f, strategy=st))
        H = [["w", "u", "solve"], ["wint", "u", "v_global", "solve"], ["wint", "x", "solve"], ["w", "xs", "x", "solve", "u", "solve"],
             ["x", "w", "solve"], ["uint", "u", "solve", "v_global", "solve"], ["u", "solve", "solve"]]
        for i, c in enumerate(L):
            step = c["opts"].get("pss_mode") == "STEP"
            for ops in H + ([] if step else [["wint", "theta", "x", "solve"], ["theta", "u", "theta", "solve"]]):
                out.append(I("setters", c, ops=ops))
            for st in ("ALL_XCURRENT_W0_START", "ALL_XCURRENT_WOPT_PREV"):
                for ops in (["w", "solve", "solve"], ["wint", "u", "solve", "v_global", "solve"]):
                    out.append(I("setters", c, ops=ops, strategy=st))
        G = [dict(), dict(pss_mode="STEP"), dict(mpcc_mode="ELASTIC_INEQ"), dict(speed_of_time_variables="LOCAL"),
             dict(speed_of_time_variables="GLOBAL", equidistant_control_grid=False), dict(irk_scheme="GAUSS_LEGENDRE"),
             dict(step_equilibration="DIRECT"), dict(mpcc_mode="ELASTIC_TWO_SIDED", irk_representation="DIFFERENTIAL")]
        for g in G:
            out.append(I("guess_bounds", cf("a2", ["u"], N_stages=2, Nfe_list=[2, 1], **g)))
            out.append(I("guess_bounds", cf("s22", [], N_finite_elements=3, n_s=1, **g)))
    if prop == "C21":
        for m, o in (("a1", {}), ("a4", dict(N_finite_elements=2)), ("s22", {}), ("s24", dict(n_s=1)), ("a2rev", {}),
                     ("g3", dict(irk_representation="DIFFERENTIAL")),
                     ("a2", dict(irk_scheme="GAUSS_LEGENDRE", N_stages=2, N_finite_elements=2)),
                     ("a1", dict(pss_mode="STEP")), ("a2", dict(use_fesd=False, n_s=3))):
            f = ["u"] if o.get("N_stages") else []
            out.append(I("active_set", cf(m, f, **o)))
        for m, f, o in (("a1", [], dict(n_s=1)), ("a1", [], dict(n_s=1, pss_mode="STEP")),
                        ("a2", ["u", "v", "z"], dict(n_s=1, N_stages=2, N_finite_elements=1)),
                        ("a2", ["u", "v"], dict(n_s=2, N_stages=1, N_finite_elements=2, irk_representation="DIFFERENTIAL")),
                        ("s22", [], dict(n_s=1, speed_of_time_variables="LOCAL")),
                        ("s22", [], dict(n_s=1, N_finite_elements=1, pss_mode="STEP", speed_of_time_variables="GLOBAL")),
                        ("a2", [], dict(n_s=2, irk_scheme="GAUSS_LEGENDRE")),
                        ("a2", [], dict(n_s=1, mpcc_mode="SCHOLTES_EQ", use_fesd=False))):
            c = cf(m, f, **o)
            step = o.get("pss_mode") == "STEP"
            comp = ["alpha", "lambda_n", "lambda_p"] if step else ["theta", "lam"]
            out.append(I("polishing", c, free=comp, deep=1 if q or step else 2))
            out.append(I("polishing", c, free=["mu", "h", "sot", "x"]))
            out.append(I("polishing", c, free=["u", "v_global", "z", "v"] + comp[:1]))
            if not step:
                out.append(I("polishing", c, free=comp, fixas=True, K=2))
    if prop == "C23":
        for o in (dict(), dict(N_stages=3, N_finite_elements=2), dict(N_stages=3, Nfe_list=[2, 1, 3]),
                  dict(irk_representation="DIFFERENTIAL", irk_scheme="GAUSS_LEGENDRE", n_s=3),
                  dict(time_freezing=True, n_s=2), dict(mpcc_mode="FISCHER_BURMEISTER"),
                  dict(irk_representation="DIFFERENTIAL_LIFT_X", n_s=4, N_stages=2), dict(step_equilibration="DIRECT")):
            out.append(I("options", cf("a1", [], **o)))
            out.append(I("options", cf("a1", [], **o), settol=True))
        for sl in (None, 0.1, 0.5, 0.9):
            out.append(I("iterations", cf("a1", [], ), slope=sl, K=8 if q else 24))
    return out
