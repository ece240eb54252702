"""C26 (smoothed model, RK4 initialization) and C28 (explicit Runge-Kutta helpers).

Smoothed model: the CasADi programs theta_smooth_fun, f_x_smooth_fun, mu_smooth_fun, lambda_smooth_fun are decompiled;
tanh and exp are atoms constrained by their contract (range, sign, positivity), the state is symbolic, z3 decides
nonnegativity, sums, the convex combination and the mode selected when all steps are saturated.
Integrators and initialization: the vector field is an uninterpreted function (any field), initial state and step
lengths are symbolic; the real Python code is executed and every returned state is compared with the classical step."""
from fractions import Fraction

import casadi as ca
import numpy as np

import engineb as eb
import models
import nlp
import poly
import runner
import smt
import sxvm
from engineb import Claim
from poly import P, ATOMS
from smt import F, OrF, INF
from sxvm import SymDM

FAM = ["a1", "a2", "a2rev", "a4", "a3", "s22", "s23", "s24", "a5", "a8", "q2"]
SMALL = ["a1", "a2", "a2rev", "s22", "q2"]


def info(prop):
    if prop == "C28":
        return dict(explanation="rk4 and rk4_on_timegrid are executed on symbolic initial states, step lengths and an "
                                "uninterpreted vector field; each returned state must equal the classical fourth-order "
                                "Runge-Kutta step of that length from the previous one",
                    bounds="every vector field, initial states in [-10,10] of dimension 1..3, step lengths in [0,2], 1..4 (6) "
                           "steps; outside: rounding below 1e-6",
                    assumptions=["the field is a function (same argument, same value); it returns a CasADi-like column"])
    return dict(explanation="smoothed multipliers and field decided for every state by z3 over tanh/exp contracts; the "
                            "initial guess of the RK4 initialization is computed by the real code over an uninterpreted "
                            "smoothed field and compared with the reference at the element's stage times",
                bounds="states in [-10,10], smoothing parameter 10, 0.5, 1e-2; 11 models with 2..8 modes (coefficients fixed: "
                       "the library's smoothed field takes the state only); guess: 1..3 elements, n_s 1..4, three "
                       "representations, 1 control stage",
                assumptions=["tanh: range, sign; exp: positive", "the smoothed functions are uninterpreted in the "
                             "initialization part (they are decided in the first part)"])


def items(prop, tier):
    th = tier == "thorough"
    if prop == "C28":
        out = [("rk4", nx, n, via) for nx in (1, 2, 3) for n in range(1, 7 if th else 5) for via in ("array", "list")]
        out += [("grid", nx, n, via) for nx in (1, 2, 3) for n in range(1, 7 if th else 5) for via in ("array", "list")]
        return out
    out = [("fun", m, sg) for m in FAM for sg in ("1e-2", "0.5", "10.0")]
    for m in ("a2", "s22", "a3", "s24", "a1", "q2", "a4"):
        for rep in ("INTEGRAL", "DIFFERENTIAL", "DIFFERENTIAL_LIFT_X"):
            for ns in (1, 2, 3) + ((4, 5) if th else ()):
                for lay in ([2], [3], 2) if m == "a2" or th else ([2],):
                    o = dict(irk_representation=rep, n_s=ns, initialization_strategy="RK4_SMOOTHENED", terminal_time=0.75)
                    o.update(dict(Nfe_list=lay) if isinstance(lay, list) else dict(N_finite_elements=lay))
                    out.append(("guess", dict(nlp.cfg(m, ["nopar"], **o)), "first"))
                    if ns == 2:
                        out.append(("guess", dict(nlp.cfg(m, ["nopar"], **dict(o, use_fesd=(rep != "INTEGRAL")))), "again"))
    return out


def label(prop, it):
    if it[0] == "guess":
        return f"guess {it[2]} " + nlp.Cfg(it[1]).label()
    return " ".join(map(str, it))


# ------------------------------------------------------------------ smoothed functions
def smooth_model(m, sg):
    d = models.make(m, ["nopar"])
    with nlp.quiet():
        mod, _ = nlp.make_model(d, 1)
        opts = nlp.make_opts(nlp.cfg(m, ["nopar"]))
        opts.preprocess()
        mod.preprocess_model(opts)
        mod.add_smooth_step_representation(smoothing_parameter=float(sg))
    return d, mod


def numeric(m, sg, x):
    """claims about the real smoothed functions at a concrete state -> list of failures"""
    d, mod = smooth_model(m, sg)
    th = np.array(mod.theta_smooth_fun(x, [])).flatten()
    fx = np.array(mod.f_x_smooth_fun(x)).flatten()
    mu = np.array(mod.mu_smooth_fun(x, [])).flatten()
    la = np.array(mod.lambda_smooth_fun(x, [])).flatten()
    bad, k, want = [], 0, np.zeros(d.nx)
    for si, s in enumerate(d.systems):
        S = np.array(s.S)
        c = np.array([float(e) for e in s.c(list(x), [], {})])
        n = S.shape[0]
        t = th[k:k + n]
        g = -S @ c
        if np.min(t) < -1e-6:
            bad.append(("nonneg", f"smoothed multiplier {int(np.argmin(t))} of subsystem {si} is {np.min(t):.4g} < 0"))
        if abs(np.sum(t) - 1) > 1e-5:
            bad.append(("sum", f"smoothed multipliers of subsystem {si} sum to {np.sum(t):.6g}"))
        if np.all(np.abs(c) >= 9 * float(sg)):
            reg = [i for i in range(n) if all(S[i, j] * c[j] > 0 for j in range(len(c)) if S[i, j] != 0)]
            if len(reg) == 1 and t[reg[0]] < 1 - 1e-3:
                bad.append(("select", f"inside region {reg[0]} (switching functions {np.round(c, 4).tolist()}, smoothing {sg}) the "
                            f"smoothed multipliers of subsystem {si} are {np.round(t, 4).tolist()}"))
        if not (np.min(g) - 1e-6 <= -mu[si] <= np.max(g) + 1e-6) and np.isfinite(mu[si]):
            bad.append(("mu", f"smoothed mu {mu[si]:.5g} of subsystem {si} outside the range of the indicators"))
        if np.all(np.isfinite(la[k:k + n])) and np.max(np.abs(g - la[k:k + n] + mu[si])) > 1e-5 * (1 + np.max(np.abs(g))):
            bad.append(("lambda", f"smoothed lambda and mu of subsystem {si} do not satisfy g - lambda + mu = 0"))
        Fm = np.array([[float(e) for e in col] for col in s.F(list(x), [], [], {}, [])])
        want = want + t @ Fm
        k += n
    if np.max(np.abs(want - fx)) > 1e-5 * (1 + np.max(np.abs(want))):
        bad.append(("field", f"smoothed field {np.round(fx, 6).tolist()} is not the convex combination {np.round(want, 6).tolist()}"))
    return bad


def run_fun(m, sg, it):
    poly.reset()
    d, mod = smooth_model(m, sg)
    x = [poly.var(f"x{i}") for i in range(d.nx)]
    th = sxvm.interpret(mod.theta_smooth_fun, [x, []])[0].flatten()
    fx = sxvm.interpret(mod.f_x_smooth_fun, [x])[0].flatten()
    mu = sxvm.interpret(mod.mu_smooth_fun, [x, []])[0].flatten()
    la = sxvm.interpret(mod.lambda_smooth_fun, [x, []])[0].flatten()
    th, fx, mu, la = ([poly.co(e) for e in v] for v in (th, fx, mu, la))
    it.sample(f"theta[0] = {th[0]!r}")
    steps = [P({((v, 1),): Fraction(1)}) for v, a in enumerate(ATOMS) if a.kind == "tanh"]
    box = smt.Box()
    done = set()

    def decide(key, goal, facts, timeout=20):
        if key in done:
            it.r["obligations"] += 1
            return
        pr = smt.Prover(facts, box)
        if goal.p.is_const() and goal.lo - 1e-7 <= goal.p.const() <= goal.hi + 1e-7:
            it.ok()
            smt.STATS.trivial += 1
            return
        idx = list(range(len(facts)))
        v = "sat"
        for nl in (False, True):
            v = pr.query(idx, goal, 1e-7, nl, timeout)[0]
            if v == "unsat":
                it.ok()
                return
        for xs in candidates(x, facts, goal, box):
            bad = numeric(m, sg, xs)
            if bad:
                rp = dict(kind="fun", model=m, sg=sg, x=[float(v) for v in xs])
                it.violation(f"fun:{bad[0][0]}:{m}", f"{m} smoothing {sg} at x={np.round(xs, 4).tolist()}: {bad[0][1]}", rp)
                done.add(key)
                return
        it.undecided(f"{key}: {v}")
    k, want = 0, [P.c(0)] * d.nx
    for si, s in enumerate(d.systems):
        S = np.array(s.S)
        n, nc = S.shape
        c = [poly.co(e) for e in s.c(x, [], {})]
        t = th[k:k + n]
        for i in range(n):
            decide("nonneg", F(t[i], 0, INF), [])
        decide("sum", F(sum(t, P.c(0)) - 1, 0, 0), [])
        sat = [OrF([[F(y, 1 - 1e-6, 1)], [F(y, -1, -1 + 1e-6)]], "saturated") for y in steps]
        for i in range(n):
            reg = [F(int(S[i, j]) * c[j], Fraction(1, 2), INF, "region") for j in range(nc) if S[i, j] != 0]
            decide("select", F(t[i], 1 - 1e-3, INF), reg + sat)
            # reachability of the region
            r = witness_point(reg + [F(cj * cj, Fraction(1, 4), INF) for cj in c], box, x)
            if r:
                it.witness()
        g = [sum((-int(S[i, j]) * c[j] for j in range(nc)), P.c(0)) for i in range(n)]
        for i in range(n):
            decide("lambda", F(g[i] - la[k + i] + mu[si], 0, 0), [])
        if m in SMALL:
            lo = poly.var(f"glo{si}")
            decide("mu", F(-mu[si] - lo, 0, INF), [F(q - lo, 0, INF) for q in g])
            decide("mu", F(-mu[si] - lo, -INF, 0), [F(q - lo, -INF, 0) for q in g])
        Fs = s.F(x, [], [], {}, [])
        for i in range(n):
            for r_ in range(d.nx):
                want[r_] = want[r_] + t[i] * poly.co(Fs[i][r_])
        k += n
    for r_ in range(d.nx):
        decide("field", F(fx[r_] - want[r_], 0, 0), [])
    if len(th) != k:
        it.violation(f"fun:length:{m}", f"{len(th)} smoothed multipliers instead of {k}", dict(kind="fun", model=m, sg=sg, x=[0.3] * d.nx))


def witness_point(facts, box, x):
    pr = smt.Prover(facts, box)
    return pr.query(list(range(len(facts))), F(P.c(0), 1, 1), 0, True, 5)[0] == "sat"


def candidates(x, facts, goal, box):
    """states from solver models (several regions of the box), then the box corners of a coarse grid"""
    import z3
    rng = np.random.default_rng(4)
    own = [f for f in facts if not isinstance(f, OrF)]
    enc = smt.Enc(box, True)
    s = z3.Solver()
    s.set("timeout", 4000)
    for f in own:
        s.add(enc.fact(f))
    for v in x:
        enc.poly(v)
    s.add(*enc.side)
    import witness
    for k in range(12):
        s.push()
        for v in x:
            a = int(rng.integers(-9, 8))
            z = enc.poly(v)
            s.add(z >= a, z <= a + 2 + 2 * k)
        if s.check() == z3.sat:
            mo = s.model()
            yield [float(witness.modelval(mo, enc, v.vid()) or 0.0) for v in x]
        s.pop()


# ------------------------------------------------------------------ uninterpreted functions with tolerant arguments
class AnyField:
    """an arbitrary function: equal arguments (to 1e-9) give equal values"""

    def __init__(self, ctx, tag, nout):
        self.ctx, self.tag, self.nout, self.table = ctx, tag, nout, []

    def __call__(self, *args):
        fl = []
        for a in args:
            if isinstance(a, SymDM):
                a = a.a
            fl += [poly.co(e) for e in np.array(a, dtype=object).flatten()]
        for key, out in self.table:
            if len(key) == len(fl) and all(near(p, q) for p, q in zip(key, fl)):
                return SymDM(out)
        k = len(self.table)
        out = np.array([poly.var(f"{self.tag}{k}_{i}") for i in range(self.nout)], dtype=object).reshape(-1, 1)
        self.table.append((fl, out))
        return SymDM(out)


def near(p, q):
    r = p - q
    return all(abs(c) <= Fraction(1, 10**9) for c in r.t.values())


def close(ctx, a, b):
    if not ctx.sym:
        return ctx.eq(a, b)
    r = poly.co(a) - poly.co(b)
    r = P({m: c for m, c in r.t.items() if abs(c) > Fraction(1, 10**9)})
    if not r.t and not poly.co(a).vars():
        return True
    # decided by z3 through the defining equalities of both sides
    k = len(ctx.log)
    ctx.log.append(k)
    u, v = poly.var(f"lhs{k}", -10**9, 10**9), poly.var(f"rhs{k}", -10**9, 10**9)
    tol = Fraction(1, 10**6)
    return eb.lor(u != poly.co(a), v != poly.co(b), (u - v <= tol) & (u - v >= -tol))


def cl(ctx, key, text, got, want):
    got = list(np.array(got, dtype=object).flatten())
    want = list(np.array(want, dtype=object).flatten())
    yield Claim(key + ":length", f"{text}: {len(got)} values instead of {len(want)}", len(got) == len(want))
    if len(got) == len(want):
        for i, (a, b) in enumerate(zip(got, want)):
            yield Claim(key, f"{text}[{i}] is {eb._s(a)}, expected {eb._s(b)}", close(ctx, a, b))


def col(r):
    """values of a field as a list"""
    if isinstance(r, SymDM):
        return list(r.a.flatten())
    return list(np.array(r.full() if hasattr(r, "full") else r, dtype=float).flatten())


def step(f, x, dt):
    """classical fourth-order step"""
    half = dt / 2
    k1 = col(f(x))
    k2 = col(f([a + half * b for a, b in zip(x, k1)]))
    k3 = col(f([a + half * b for a, b in zip(x, k2)]))
    k4 = col(f([a + dt * b for a, b in zip(x, k3)]))
    return [a + dt * (p + 2 * q + 2 * r + s) / 6 for a, p, q, r, s in zip(x, k1, k2, k3, k4)]


class Field:
    """concrete nonlinear field used when a counterexample is replayed"""

    def __init__(self, n):
        self.n = n

    def __call__(self, x):
        x = np.array(x, dtype=float).flatten()
        return ca.DM([0.7 * np.sin(1.3 * x[i] + i) - 0.4 * x[(i + 1) % self.n] * x[i] + 0.3 * (i + 1) for i in range(self.n)])


class _RkNp(nlp._ObjNp):
    @staticmethod
    def linspace(a, b, n=50, **kw):
        if poly.has_sym([a, b]):
            return np.array([a + (b - a) * Fraction(i, n - 1) for i in range(n)], dtype=object)
        return np.linspace(a, b, n, **kw)

    @staticmethod
    def empty(shape, dtype=None):
        return np.full(shape, 0.0, dtype=object)

    @staticmethod
    def array(a, dtype=None, **kw):
        return np.array(a, dtype=object if poly.has_sym(a) else dtype, **kw)

    @staticmethod
    def zeros_like(a, dtype=None):
        return np.full(np.shape(a), 0.0, dtype=object)


class rk_shim:
    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        import nosnoc.rk_utils as m
        self.m, self.old = m, m.np
        if self.ctx.sym:
            m.np = _RkNp()

    def __exit__(self, *a):
        self.m.np = self.old


def run_rk(kind, nx, n, via):
    def run(ctx):
        import nosnoc
        from nosnoc.rk_utils import rk4, rk4_on_timegrid
        f = AnyField(ctx, "k", nx) if ctx.sym else Field(nx)
        x0 = ctx.vec("x", nx)
        if via == "list":
            x0 = list(x0)
        with rk_shim(ctx):
            if kind == "rk4":
                T = ctx.var("T", 0, 2, default=1.3)
                out, t = rk4(f, x0, T, n) if n != 1 else rk4(f, x0, T)
                dts = [T / n] * n
            else:
                dts = [ctx.var(f"dt{i}", 0, 2, default=0.3 + 0.4 * i) for i in range(n)]
                out, t = rk4_on_timegrid(f, x0=x0, t_grid=ctx.arr(dts)), None
        ctx.data.update(f=f, x0=list(x0), out=out, t=t, dts=dts)
    return run


def oracle_rk(kind, nx, n, via):
    def oracle(ctx):
        D = ctx.data
        x, ref, t, ts = D["x0"], [D["x0"]], 0.0, [0.0]
        for dt in D["dts"]:
            x = step(D["f"], x, dt)
            ref.append(x)
            t = t + dt
            ts.append(t)
        yield Claim("rows", f"{len(D['out'])} states instead of {n + 1}", len(D["out"]) == n + 1)
        for i, (a, b) in enumerate(zip(D["out"], ref)):
            yield from cl(ctx, "state", f"state after step {i}", a, b)
        if D["t"] is not None:
            yield from cl(ctx, "times", "returned times", D["t"], ts)
    return oracle


# ------------------------------------------------------------------ initial guess
def run_guess(c, mode):
    def run(ctx):
        with eb.session(ctx):
            solver, d = nlp.construct(c)
            mod = solver.problem.model
            nf = sum(len(s.S) for s in d.systems)
            if ctx.sym:
                solver.problem.w0 = solver.problem.w0.astype(object)
                for nm, k in (("f_x_smooth_fun", d.nx), ("theta_smooth_fun", nf), ("mu_smooth_fun", d.nsys()), ("lambda00_fun", nf)):
                    setattr(mod, nm, AnyField(ctx, nm + "_", k))
            before = np.array(solver.problem.w0, dtype=object).copy()
            import nosnoc.solver as sm
            with rk_shim(ctx):
                if mode == "again":
                    solver.set("x0", ctx.vec("y", d.nx, -2, 2))
                    _solve(solver)
                x0 = ctx.vec("x", d.nx, -2, 2)
                solver.set("x0", x0)
                _solve(solver)
            rec = solver.solver.calls[-1]
            ctx.data.update(solver=solver, d=d, x0=list(x0), before=before, guess=list(np.array(rec.kw["x0"], dtype=object).flatten()))
    return run


def _solve(solver):
    nlp.FakeNlp.current_handler = None
    try:
        solver.solve()
    except nlp.CaptureDone:
        pass


def oracle_guess(c, mode):
    from spec import flat
    import tableau

    def oracle(ctx):
        D = ctx.data
        pr, d, mod, g = D["solver"].problem, D["d"], D["solver"].problem.model, D["guess"]
        Nfe, ns = nlp.layout(c)[0], nlp.full(c, "n_s")
        h = nlp.full(c, "terminal_time") / Nfe
        cs = [float(v) for v in tableau.nodes("RADAU_IIA", ns)]
        p0 = mod.p_val_ctrl_stages[0]
        x, touched = D["x0"], set()
        for i in range(Nfe):
            t = 0.0
            for k in range(ns):
                with rk_shim(ctx):
                    x = step(mod.f_x_smooth_fun, x, (cs[k] - t) * h)
                t = cs[k]
                xi = pr.ind_x[0][i]
                if nlp.full(c, "irk_representation") != "DIFFERENTIAL":
                    yield from cl(ctx, "x", f"guess of the state at stage {k} of element {i}", [g[q] for q in flat(xi[k])], x)
                th, mu, la = col(mod.theta_smooth_fun(x, p0)), col(mod.mu_smooth_fun(x, p0)), col(mod.lambda00_fun(x, [], p0))
                o = 0
                for s, sysd in enumerate(d.systems):
                    n = len(sysd.S)
                    yield from cl(ctx, "theta", f"guess of theta, element {i} stage {k} subsystem {s}", [g[q] for q in flat(pr.ind_theta[0][i][k][s])], th[o:o + n])
                    yield from cl(ctx, "lam", f"guess of lambda, element {i} stage {k} subsystem {s}", [g[q] for q in flat(pr.ind_lam[0][i][k][s])], la[o:o + n])
                    yield from cl(ctx, "mu", f"guess of mu, element {i} stage {k} subsystem {s}", [g[q] for q in flat(pr.ind_mu[0][i][k][s])], [mu[s]])
                    o += n
                touched |= set(flat(pr.ind_theta[0][i][k]) + flat(pr.ind_lam[0][i][k]) + flat(pr.ind_mu[0][i][k]))
            yield from cl(ctx, "x_end", f"guess of the state at the end of element {i}", [g[q] for q in flat(xi[-1])], x)
            touched |= set(flat(xi))
        rest = [q for q in range(len(g)) if q not in touched]
        yield from cl(ctx, "rest", "guess of the other variables", [g[q] for q in rest], [D["before"][q] for q in rest])
    return oracle


def run(prop, x, it):
    if x[0] == "fun":
        return run_fun(x[1], x[2], it)
    if x[0] == "guess":
        c = nlp.Cfg(x[1])
        eb.explore(it, run_guess(c, x[2]), oracle_guess(c, x[2]), dict(kind="guess", cfg=dict(c), mode=x[2]), key="guess:")
        return
    eb.explore(it, run_rk(*x), oracle_rk(*x), dict(kind="rk", x=list(x)), key=x[0] + ":")


def replay(prop, rp):
    if rp["kind"] == "fun":
        bad = numeric(rp["model"], rp["sg"], rp["x"])
        return bool(bad), "; ".join(t for _, t in bad)
    if rp["kind"] == "guess":
        c = nlp.Cfg(rp["cfg"])
        bad = eb.concrete(run_guess(c, rp["mode"]), oracle_guess(c, rp["mode"]), rp)
    else:
        bad = eb.concrete(run_rk(*rp["x"]), oracle_rk(*rp["x"]), rp)
    return bool(bad), "; ".join(f.text for f in bad[:4])
