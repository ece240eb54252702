"""C17 (result fields), the reported time grid of C08, and polishing/active-set are in solvechecks."""
import itertools
from fractions import Fraction

import numpy as np

import engineb as eb
import nlp
import poly
from engineb import Claim, land, lor, lnot, iff
from poly import P
from spec import flat


def run_extract(c, fix_modes=False):
    """scenario: one NLP solve, arbitrary solution vector (fix_modes: multipliers fixed), results of solve()"""
    def run(ctx):
        with eb.session(ctx):
            solver, d = eb.build(ctx, c)
            solver.opts.max_iter_homotopy = 1
            solver.problem.comp_res = eb.CompRes(ctx)
            fixed = set(flat(solver.problem.ind_theta) + flat(solver.problem.ind_alpha)) if fix_modes else ()
            stub = eb.Stub(ctx, wfix=lambda k, i: 0.25 if i in fixed else None)
            nlp.FakeNlp.current_handler = stub
            ctx.data["stub"] = stub
            ctx.data["res"] = solver.solve()
    return run


def layout(ctx, c):
    """positions of every quantity in the primal vector, element by element"""
    pr = ctx.data["solver"].problem
    Nfe = nlp.layout(c)
    return pr, [(s, e) for s in range(nlp.full(c, "N_stages")) for e in range(Nfe[s])]


def W(w, idx):
    return [w[i] for i in flat(idx)]


def steps(ctx, c, w):
    pr, fes = layout(ctx, c)
    T = nlp.full(c, "terminal_time")
    Nfe = nlp.layout(c)
    if nlp.full(c, "use_fesd"):
        ih = flat(pr.ind_h)
        return [w[i] for i in ih]
    return [T / (len(Nfe) * Nfe[s]) for (s, e) in fes]


def cums(hs):
    out, t = [0.0], 0.0
    for h in hs:
        t = t + h
        out.append(t)
    return out


def oracle_grid(c):
    def oracle(ctx):
        res, w = ctx.data["res"], ctx.data["stub"].calls[-1][1]["w"]
        hs = steps(ctx, c, w)
        yield from ctx.eqv("time_steps", "reported step lengths", res["time_steps"], hs)
        yield from ctx.eqv("t_grid", "reported time grid", res["t_grid"], cums(hs))
    return oracle


def oracle_fields(c):
    def oracle(ctx):
        res, w = ctx.data["res"], ctx.data["stub"].calls[-1][1]["w"]
        pr, fes = layout(ctx, c)
        d = ctx.data["d"]
        x0 = list(ctx.data["x0"])
        step = nlp.full(c, "pss_mode") == "STEP"
        hs = steps(ctx, c, w)
        grid = cums(hs)
        ends = [W(w, pr.ind_x[s][e][-1]) for s, e in fes]
        yield from ctx.eqv("time_steps", "time_steps", res["time_steps"], hs)
        yield from ctx.eqv("t_grid", "t_grid", res["t_grid"], grid)
        ug = [0]
        for n in nlp.layout(c):
            ug.append(ug[-1] + n)
        yield from ctx.eqv("t_grid_u", "t_grid_u", res["t_grid_u"], [grid[i] for i in ug])
        yield from ctx.eqv("x_out", "x_out", res["x_out"], ends[-1])
        yield from lists(ctx, "x_list", res["x_list"], ends)
        yield from lists(ctx, "x_traj", res["x_traj"], [x0] + ends)
        pts = [x0]
        for s, e in fes:
            pts += [W(w, i) for i in pr.ind_x[s][e]]
        yield from lists(ctx, "x_all_list", res["x_all_list"], pts)
        us = [W(w, pr.ind_u[s]) for s in range(nlp.full(c, "N_stages"))]
        yield from lists(ctx, "u_list", res["u_list"], us)
        yield from lists(ctx, "u_traj", res["u_traj"], us)
        yield from ctx.eqv("v_global", "v_global", res["v_global"], W(w, pr.ind_v_global))
        if nlp.full(c, "speed_of_time_variables") != "NONE":
            yield from ctx.eqv("sot", "sot", list(np.array(res["sot"], dtype=object).flatten()), W(w, pr.ind_sot))
        for nm, key in (("theta", "theta_list"), ("lam", "lambda_list"), ("alpha", "alpha_list"),
                        ("lambda_n", "lambda_n_list"), ("lambda_p", "lambda_p_list"), ("z", "z_list")):
            ind = getattr(pr, "ind_" + nm)
            want = []
            for s, e in fes:
                st = ind[s][e]
                want.append(W(w, st[-1]))
            yield from lists(ctx, key, [flat2(x) for x in res[key]], want)
        # switch times: grid times at which the active multipliers change
        ind = pr.ind_alpha if step else pr.ind_theta
        vals = [W(w, ind[s][e][-1]) for s, e in fes]
        got = list(np.array(res["switch_times"], dtype=object).flatten())
        changes, open_ = [], []
        for i in range(len(vals) - 1):
            ch = lor(*[lor(a - b > 0.1, b - a > 0.1) for a, b in zip(vals[i], vals[i + 1])])
            changes.append(ctx.decided(ch))
            if changes[-1] is None:        # the code did not distinguish the two cases: what it reports must fit both
                open_.append((i, ch))
        for case in itertools.product([True, False], repeat=len(open_)):
            pick = list(changes)
            hyp = True
            for (i, ch), v in zip(open_, case):
                pick[i] = v
                hyp = land(hyp, ch if v else lnot(ch))
            want = [grid[i + 1] for i, v in enumerate(pick) if v]
            for cl in ctx.eqv("switch_times", "switch_times", got, want):
                yield cl if not open_ else Claim(cl.key, cl.text, lor(lnot(hyp), cl.cond))
    return oracle


def trajectories(ctx, c, res, w):
    """fields that show which primal vector the results were extracted from"""
    pr, fes = layout(ctx, c)
    ends = [W(w, pr.ind_x[s][e][-1]) for s, e in fes]
    yield from lists(ctx, "x_list", res["x_list"], ends)
    yield from lists(ctx, "u_list", res["u_list"], [W(w, pr.ind_u[s]) for s in range(nlp.full(c, "N_stages"))])
    yield from ctx.eqv("time_steps", "time_steps", res["time_steps"], steps(ctx, c, w))


def lam00(ctx, d, x0, pg, tv):
    """dual multipliers of the initial state (Stewart), from the switching functions; algebraic variables excluded"""
    p = {n: pg[i] for i, n in enumerate(d.pg)}
    p.update({n: tv[0][i] for i, n in enumerate(d.tv)})
    out = []
    for s in d.systems:
        if s.g is not None:
            g = s.g(list(x0), [], p)
        else:
            c = s.c(list(x0), [], p)
            g = [-sum(int(r[k]) * c[k] for k in range(len(c))) for r in np.array(s.S)]
        m = g[0]
        for y in g[1:]:
            m = eb.mn(ctx, m, y)
        out.append([y - m for y in g])
    return out


def flat2(x):
    return list(np.array(x, dtype=object).flatten()) if not isinstance(x, (list, tuple)) else [
        z for y in x for z in (flat2(y) if isinstance(y, (list, tuple, np.ndarray)) else [y])]


def lists(ctx, key, got, want):
    yield Claim(key + ":length", f"{key} has {len(got)} entries instead of {len(want)}", len(got) == len(want))
    if len(got) == len(want):
        for i, (a, b) in enumerate(zip(got, want)):
            yield from ctx.eqv(key, f"{key}[{i}]", a, b)


def grid(a, s, it):
    """C08: reported time grid for an arbitrary NLP solution, and its properties under the NLP's rows"""
    import smt
    c = dict(a.cfg)
    hs = [s.h[f] for f in s.fes]
    # the grid of the reference: 0 = t_0 <= ... = T at every feasible point (gamma <= 1)
    import engine
    facts = [smt.F(a.g[i], a.lbg[i], a.ubg[i]) for i in range(len(a.g))
             if a.g[i].vars() <= {h.vid() for h in hs if not h.is_const()}]
    pr = smt.Prover(facts, s.nlp_box())
    T = Fraction(str(nlp.full(a.cfg, "terminal_time")))
    for f, h in zip(s.fes, hs):
        r = pr.prove(smt.F(h, 0, smt.INF))
        it.ok() if r.verdict == "holds" else it.undecided(f"h{f} >= 0")
    r = pr.prove(smt.F(sum(hs, P.c(0)) - T, 0, 0))
    it.ok() if r.verdict == "holds" else it.undecided("sum of steps is T")
    cc = nlp.Cfg(c)
    eb.explore(it, run_extract(cc, True), oracle_grid(cc), dict(kind="grid", cfg=c), key="grid:", max_paths=300)


def replay(prop, rp):
    c = nlp.Cfg(rp["cfg"])
    bad = eb.concrete(run_extract(c, True), oracle_grid(c), rp)
    return bool(bad), "; ".join(f.text for f in bad[:5])
