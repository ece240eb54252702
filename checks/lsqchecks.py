"""C24: least-squares constraint handling.

Part 1 (per configuration): the NLP built with LEAST_SQUARES and the NLP built with EXACT handling are both captured
over the same symbols; z3 / exact polynomial arithmetic decides f_lsq - f_exact - sum g_i^2 = 0 for every primal point,
relaxation and parameter value; no constraints are left, bounds and initial guess agree.
Part 2: the user's constraint bounds (and the time-freezing tolerance) are symbolic; the construction is executed by
forking symbolic execution and must raise exactly when some bound is not zero."""
from fractions import Fraction

import numpy as np

import configs
import engine
import engineb as eb
import models
import nlp
import poly
import runner
import smt
from configs import ALL, EQ
from engineb import Claim, land, lor, lnot
from poly import P, ATOMS
from smt import F

MODES = ["SCHOLTES_EQ", "ELASTIC_EQ", "FISCHER_BURMEISTER", "FISCHER_BURMEISTER_IP_AUG"]


def info(prop):
    return dict(
        explanation="both handlings are built by the real code over shared symbols; the LSQ objective minus the exact "
                    "objective minus the sum of squared exact constraint expressions is shown to vanish identically; the "
                    "rejection of nonzero bounds is explored with symbolic bounds",
        bounds="identity: all primal points, relaxation in (0,1], parameters in [-10,10]; bounds: every value in [-10,10] "
               "of up to 2 path constraints at all collocation options; configurations: pairwise covering array over "
               "model, representation, scheme, n_s 1..3, MPCC modes " + ", ".join(MODES) + ", layouts up to 3 elements",
        assumptions=["casadi.nlpsol is replaced by a recorder", "floating-point coefficients are taken as exact rationals; "
                     "comparison allows 1e-6"])


def label(prop, c):
    return (c.get("part", "") + " " if c.get("part") else "") + nlp.Cfg(c).label()


def okc(d):
    if not configs.valid(dict(d)):
        return False
    if d["mpcc_mode"].startswith("FISCHER") and d["model"][0] in ("s22", "a3") and d["n_s"] > 2:
        return False
    return configs.n_elem(d) * d["n_s"] <= 6


def items(prop, tier):
    d = configs.dims(
        model=[("a1", ()), ("a2", ()), ("s22", ()), ("g3", ()), ("gi2", ()), ("a3", ()), ("q2", ()), ("s222", ()), ("gs2", ()), ("gi22", ())],
        mpcc_mode=MODES, gamma_h=None, gopt=[(False, False), (True, False), (False, True)],
        equidistant_control_grid=[True, False], layout=[(1, [2]), (2, [2, 1]), (1, [1]), (1, [3])],
        sot=["NONE", "GLOBAL", "LOCAL"], step_equilibration=["HEURISTIC_DELTA", "HEURISTIC_MEAN", "DIRECT"],
        feats=[("u", "tv", "fq", "fT"), ("u", "z", "gpeq"), ("v", "gT", "fq"), ("z", "z2"), ("u", "v", "gT", "gpeq", "fT"), ("v", "compv"),
               ("u", "compu", "compx")],
        objective_scaling_direct=[True, False])
    ok = okc
    # user complementarities carry no nonnegativity rows, direct step equilibration is limited by its indicator
    import nlpchecks

    def ok(dd):
        if not okc(dd):
            return False
        if dd["mpcc_mode"].endswith("IP_AUG") and dd["cross_comp_mode"] == EQ:      # rejected by the library ("not supported")
            return False
        if dd["step_equilibration"] == "DIRECT" and (nlpchecks.nu_terms(dd) > 120 or dd["model"][0] in ("a3",)):
            return False
        return True
    cs = configs.arrays(tier, d, ok, quick3=400)
    out = []
    for c in cs:
        c["opts"]["constraint_handling"] = "LEAST_SQUARES"
        out.append(c)
    out.sort(key=lambda c: -sum(nlp.layout(c)) * nlp.full(c, "n_s"))
    L = dict(constraint_handling="LEAST_SQUARES", mpcc_mode="SCHOLTES_EQ", n_s=1, Nfe_list=[1])
    rej = [nlp.cfg("a1", ["u", "gpath"], **dict(L, **o)) for o in (
        {}, dict(g_path_at_fe=True), dict(g_path_at_stg=True, n_s=2), dict(mpcc_mode="FISCHER_BURMEISTER"),
        dict(N_stages=2, Nfe_list=[1, 1]), dict(pss_mode="STEP", irk_representation="DIFFERENTIAL", n_s=2))]
    rej += [nlp.cfg("a1", ["u", "gpath"], **dict(L, mpcc_mode="ELASTIC_EQ"))]
    rej += [nlp.cfg("a2", ["u", "z", "gpath", "gT"], **dict(L, irk_scheme="GAUSS_LEGENDRE"))]
    tf = [nlp.cfg("a1", ["clock"], **dict(L, time_freezing=True, **o)) for o in ({}, dict(N_stages=2, Nfe_list=[1, 2], n_s=2))]
    for c, part in [(c, "reject") for c in rej] + [(c, "freeze") for c in tf]:
        c["part"] = part
        out.append(c)
    # modes whose complementarity rows are inequalities have to be rejected
    for m in ("SCHOLTES_INEQ", "ELASTIC_INEQ", "ELASTIC_TWO_SIDED"):
        for pss in ("STEWART", "STEP"):
            c = nlp.cfg("a1", ["u"], **dict(L, mpcc_mode=m, pss_mode=pss))
            c["part"] = "mode"
            out.append(c)
    return out


def exact(c):
    e = nlp.Cfg({k: v for k, v in c.items() if k != "opts"})
    e["opts"] = dict(c["opts"], constraint_handling="EXACT")
    return e


def run(prop, c, it):
    c = nlp.Cfg(c)
    if c.get("part"):
        return rejection(c, it)
    try:
        a = nlp.capture(c)
        b = nlp.capture(exact(c), fresh=False)
    except (poly.ConcretisationError, NotImplementedError) as e:
        raise runner.Undecided(repr(e))
    except Exception as e:
        rp = dict(kind="build", cfg=dict(c))
        bad, txt = replay(prop, rp)
        if bad:
            it.violation(f"build:{type(e).__name__}", f"{c.label()}: {txt}", rp)
            return
        raise
    rp = dict(kind="lsq", cfg=dict(c), env={})
    it.sample(f"{c.label()}: {a.n} variables, {len(b.g)} exact constraint rows")
    if len(a.g) != 0 or a.n != b.n or any(x != 0 for x in b.lbg) or any(x != 0 for x in b.ubg):
        it.violation("structure", structure(a, b), rp)
        return
    it.ok()
    same = (np.array_equal(a.lbx, b.lbx) and np.array_equal(a.ubx, b.ubx)
            and all(poly.co(x) == poly.co(y) for x, y in zip(a.guess, b.guess)))
    if not same:
        it.violation("bounds", "bounds or initial guess differ from exact handling", rp)
        return
    it.ok(3)
    # constant shift equal, so f_lsq - f_exact - sum g^2 = 0
    q = a.f - b.f
    for g in b.g:
        q = q - g * g
    bx = smt.Box()
    bx.set(b.sigma.vid(), Fraction(1, 1000), 1)
    pr = smt.Prover([], bx)
    big = max([1.0] + [abs(float(x)) for x in a.f.t.values()])
    small = P({m: x for m, x in q.t.items() if abs(x) > 1e-10 * big})
    r = pr.prove(F(small, -1e-6, 1e-6)).verdict
    if r == "holds":
        it.ok()
        if len(b.g):
            # reachability: the penalty is not identically zero
            it.witness()
            # a vanishing penalty means a feasible point: each constraint is bounded by the penalty
        return
    # a concrete difference
    rng = np.random.default_rng(3)
    for _ in range(25):
        env = {f"w{i}": float(rng.uniform(max(a.lbx[i], -1), min(a.ubx[i], 1) if a.ubx[i] > max(a.lbx[i], -1) else a.lbx[i] + 0.1))
               for i in range(a.n)}
        env["sigma"] = float(rng.uniform(0.1, 1))
        rp = dict(kind="lsq", cfg=dict(c), env=env)
        bad, txt = replay(prop, rp)
        if bad:
            it.violation("objective", f"{c.label()}: {txt}", rp)
            return
    it.undecided(f"difference not shown to be zero: {small!r:.200}")


def structure(a, b):
    n = [i for i in range(len(b.g)) if b.lbg[i] != 0 or b.ubg[i] != 0]
    if n:
        return f"accepted although exact-mode constraint row {n[0]} has bounds [{b.lbg[n[0]]}, {b.ubg[n[0]]}]"
    if len(a.g):
        return f"the least-squares NLP still has {len(a.g)} constraint rows"
    return f"{a.n} instead of {b.n} variables"


# ------------------------------------------------------------------ rejection
def run_rej(c):
    def run(ctx):
        with eb.session(ctx):
            opts = nlp.make_opts(c)
            d = models.make(c["model"], c.get("feats", []))
            if c["part"] == "freeze":
                tol = ctx.var("tol", 0, 5)
                ctx.data["zero"] = ctx.eq(tol, 0)
                opts.time_freezing_tolerance = tol
            m, ocp = nlp.make_model(d, opts.N_stages)
            if c["part"] == "reject":
                n = ocp.g_path.numel()
                lo, hi = ctx.vec("lbg", n, -5, 5), ctx.vec("ubg", n, -5, 5)
                ocp.lbg, ocp.ubg = lo, hi
                ctx.data["zero"] = land(*[exactzero(ctx, e) for e in list(lo) + list(hi)])
            import nosnoc
            with eb.loose_validate():
                solver = nosnoc.NosnocSolver(opts, m, ocp)
            ctx.data["ng"] = int(solver.problem.g.numel()) if hasattr(solver.problem.g, "numel") else len(solver.problem.g)
            ctx.data["nb"] = len(solver.problem.lbg)
    return run


def exactzero(ctx, e):
    return (e == 0) if ctx.sym else bool(float(e) == 0.0)


def oracle_rej(c):
    def oracle(ctx):
        z = False if c["part"] == "mode" else ctx.data["zero"]
        yield Claim("accepted", "a problem with a constraint that is not 'expression = 0' is accepted by least-squares handling", z)
        yield Claim("rows", "constraint rows are left", ctx.data["ng"] == 0 and ctx.data["nb"] == 0)
    return oracle


def exc_rej(c):
    def f(ctx, e):
        if eb._liberr(e):
            return None
        # time freezing: the clock row may carry its right-hand side in its bounds, then it may be rejected at tolerance 0
        z = False if c["part"] in ("mode", "freeze") else ctx.data.get("zero", True)
        return [Claim("rejected", f"all bounds are zero but the problem is rejected: {type(e).__name__}: {str(e)[:100]}", lnot(z))]
    return f


def rejection(c, it):
    eb.explore(it, run_rej(c), oracle_rej(c), dict(kind="reject", cfg=dict(c)), key=f"{c['part']}:", max_paths=400,
               allow_exc=exc_rej(c))


# ------------------------------------------------------------------ replay
def replay(prop, rp):
    c = nlp.Cfg(rp["cfg"])
    if rp["kind"] == "reject":
        bad = eb.concrete(run_rej(c), oracle_rej(c), rp, exc_rej(c))
        return bool(bad), "; ".join(f.text for f in bad[:3])
    if rp["kind"] == "build":
        import nlpchecks
        return nlpchecks.replay_build(rp)
    names = rp["env"]
    sg = names.get("sigma", 0.5)
    s1, rec1, f1 = engine.concrete(c, names, sigma=sg)
    s2, rec2, f2 = engine.concrete(exact(c), names, sigma=sg)
    n1, n2 = f1.size1_in(0), f2.size1_in(0)
    g1 = f1.size1_out(1)
    if n1 != n2 or g1 != 0:
        return True, f"{n1} variables and {g1} constraints instead of {n2} and 0"
    lb, ub = np.array(rec2.kw["lbg"], dtype=float), np.array(rec2.kw["ubg"], dtype=float)
    if np.any(lb != 0) or np.any(ub != 0):
        return True, "accepted although the exact handling has constraints that are not of the form expression = 0"
    for k in ("lbx", "ubx", "x0"):
        if not np.array_equal(np.array(rec1.kw[k], dtype=float), np.array(rec2.kw[k], dtype=float)):
            return True, f"{k} differs from exact handling"
    w = np.array([float(names.get(f"w{i}", 0.3)) for i in range(n1)])
    v1 = float(f1(w, np.array(rec1.kw["p"], dtype=float))[0])
    v2, g2 = f2(w, np.array(rec2.kw["p"], dtype=float))
    want = float(v2) + float(np.sum(np.array(g2) ** 2))
    return (abs(v1 - want) > 1e-5 * max(1, abs(want)),
            f"objective {v1:.8g}, exact objective plus squared constraints is {want:.8g}")
