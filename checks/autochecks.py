"""C22: the automatically derived model equals the given nonsmooth right-hand side.

A right-hand side is a term over smooth expressions and sign, max, min.  Each term is built twice: as the CasADi expression
that is handed to NosnocAutoModel, and as a symbolic value over unknown states, controls and parameters in which every
nonsmooth term is resolved by the sign of its argument (z3 forks over all feasible regions).  reformulate() of the real code is
run, the CasADi programs of the model it returns (F, S, c or f_x, alpha, c, and the model's f_x_fun after preprocessing) are
decompiled and evaluated on the same unknowns; in every region z3 must refute that the two values differ."""
import casadi as ca
import numpy as np

import engineb as eb
import nlp
import nosnoc
import poly
import runner
import sxvm
from engineb import Claim
from poly import P

MARGIN = 1e-8
NONSMOOTH = {ca.OP_SIGN, ca.OP_FMAX, ca.OP_FMIN, ca.OP_FABS, ca.OP_IF_ELSE_ZERO, ca.OP_LT, ca.OP_LE, ca.OP_FLOOR, ca.OP_CEIL}


def info(prop):
    return dict(
        explanation="reformulate() is run on a grammar of nonsmooth expressions; the returned model's CasADi programs are "
                    "decompiled and evaluated on symbolic state, control and parameters, with the multipliers that the signs of "
                    "the returned switching functions prescribe; the given expression is evaluated term by term; z3 forks over "
                    "every feasible sign pattern and refutes any difference",
        bounds="states, controls, parameters in [-10,10], more than 1e-8 away from every switching surface; rows with up to "
               "three nonsmooth terms in the listed contexts, systems of 1..3 rows; arguments of sign, max, min smooth",
        assumptions=["sin, exp ... are uninterpreted functions of their argument (equal arguments, equal values)",
                     "terms outside the grammar (nested nonsmooth arguments, abs, if_else) are not covered"])


# ------------------------------------------------------------------ terms
# ("v", name) | ("k", number) | ("+"|"-"|"*"|"/", a, b) | ("neg", a) | ("sin"|"sq"|"exp", a) | ("sign", a) | ("max"|"min", a, b)
X0, X1, U, P0, P1 = [("v", n) for n in ("x0", "x1", "u", "p0", "p1")]


def K(v):
    return ("k", v)


def neg(a):
    return ("neg", a)


def mul(a, b):
    return ("*", a, b)


def add(a, b):
    return ("+", a, b)


def sub(a, b):
    return ("-", a, b)


def sg(a):
    return ("sign", a)


def mx(a, b):
    return ("max", a, b)


def mn(a, b):
    return ("min", a, b)


def sin(a):
    return ("sin", a)


ARG = dict(x=X0, d=sub(X0, X1), p=add(mul(P0, X0), K(0.5)), q=sub(mul(X0, X1), U), t=add(sin(X0), X1), n=neg(X1))
ATOM = dict(s=sg(ARG["x"]), sd=sg(ARG["d"]), sp=sg(ARG["p"]), sq=sg(ARG["q"]), st=sg(ARG["t"]), sn=sg(ARG["n"]),
            M=mx(X0, X1), Mk=mx(X1, K(0.5)), Mp=mx(mul(P0, X1), U), Mt=mx(sin(X1), mul(X0, X0)), M0=mx(K(0.0), X0),
            m=mn(X0, X1), mk=mn(K(0.25), X0), mp=mn(U, mul(P1, X0)), mt=mn(mul(X0, X1), sin(X0)))
ONE = {"N": lambda N: N, "-N": neg, "N+s": lambda N: add(N, X1), "s-N": lambda N: sub(X1, N), "2N": lambda N: mul(K(2), N),
       "3N": lambda N: mul(N, K(3)), "sN": lambda N: mul(X1, N), "Nu": lambda N: mul(N, U), "-(Ns)": lambda N: neg(mul(N, X1)),
       "N/d": lambda N: ("/", N, add(K(1), mul(X1, X1))), "d/": lambda N: ("/", N, K(4)), "sin": lambda N: sin(N), "sq": lambda N: mul(N, N),
       "sN+t": lambda N: add(mul(X1, N), sin(X0)), "pN": lambda N: mul(P1, N), "-N+s": lambda N: add(neg(N), X0),
       "(-N)s": lambda N: mul(neg(N), X1), "(N+1)s": lambda N: mul(add(N, K(1)), X1), "s(1-N)": lambda N: mul(U, sub(K(1), N)),
       "sqN+N": lambda N: add(mul(N, N), N), "-(s-N)": lambda N: neg(sub(X1, N)), "N-s-N2": lambda N: sub(sub(mul(X0, N), X1), N),
       "t-(s-N)": lambda N: sub(sin(X1), sub(X0, N)), "ssN": lambda N: mul(X0, mul(X1, N)), "sNs": lambda N: mul(mul(X0, N), X1)}
TWO = {"a+b": add, "a-b": sub, "ab": mul, "sa+b": lambda a, b: add(mul(X1, a), b), "ab+s": lambda a, b: add(mul(a, b), X1),
       "a(s+b)": lambda a, b: mul(a, add(X1, b)), "sin a+b": lambda a, b: add(sin(a), b), "as-bu": lambda a, b: sub(mul(a, X1), mul(b, U)),
       "-(a+b)": lambda a, b: neg(add(a, b)), "s-(a-b)": lambda a, b: sub(X0, sub(a, b)), "a+b+s": lambda a, b: add(add(a, b), X1),
       "a-sb+t": lambda a, b: add(sub(a, mul(X0, b)), sin(X1)), "ab+a": lambda a, b: add(mul(a, b), a)}
PAIRS = [("s", "s"), ("s", "sd"), ("s", "M0"), ("M", "m"), ("m", "M"), ("M", "M"), ("m", "m"), ("sd", "M"), ("sd", "m"), ("Mk", "mk"), ("sp", "Mp"),
         ("st", "mt"), ("sq", "s"), ("s", "sn"), ("Mp", "mp"), ("m", "Mt")]
NEAR = [(sg(sub(X0, K(1.000001))), sg(sub(X0, K(1.000002)))), (mx(X0, K(1.000001)), mn(X0, K(1.000002))),
        (mx(X0, X1), mx(X1, X0)), (mn(X0, X1), mn(X1, X0)), (sg(X0), sg(neg(X0))), (sg(sub(X0, X1)), sg(sub(X1, X0))),
        (sg(mul(K(2), X0)), sg(X0))]
FIELDS = dict(x0=X0, x1=X1, u=U, zero=K(0), sinx=sin(X0), lin=add(X0, mul(P0, U)))


def items(prop, tier):
    out = []
    for cn in ONE:
        for an in ATOM:
            out.append(([ONE[cn](ATOM[an]), FIELDS["lin"]], {}))
    for cn in TWO:
        for a, b in PAIRS:
            out.append(([TWO[cn](ATOM[a], ATOM[b]), FIELDS["x1"]], {}))
        for a, b in NEAR:
            out.append(([TWO[cn](a, b), FIELDS["x0"]], {}))
    # several rows
    for a, b in PAIRS + [("s", "M"), ("sd", "mp")]:
        A, B = ATOM[a], ATOM[b]
        out += [([A, B], {}), ([X1, add(A, mul(X0, B))], {}), ([sub(A, X0), mul(U, B)], {}), ([mul(X1, A), add(A, B)], {}),
                ([mul(A, B), B], {}), ([add(A, X0), sin(B)], {}), ([A, add(B, X1), X0], {}), ([K(1), neg(B), mul(P0, A)], {}),
                ([add(add(A, B), ATOM["st"]), X0], {}), ([neg(mul(A, X0)), sub(B, ATOM["mk"])], {})]
    for a, b in NEAR:
        out.append(([a, b], {}))
        out.append(([add(a, X1), mul(X0, b)], {}))
    # variants of the interface
    R = [[add(mul(X1, ATOM["s"]), X0), ATOM["M"]], [mul(ATOM["s"], ATOM["M"]), X0], [ATOM["s"], ATOM["sd"]], [ATOM["m"], X0], [ATOM["M"], ATOM["m"]]]
    for r in R:
        out += [(r, dict(twice=True)), (r, dict(nop=True)), (r, dict(nou=True)), (r, dict(named=True)), (r, dict(one=True)),
                (r, dict(nop=True, nou=True, twice=True))]
    if tier == "thorough":
        for cn in TWO:
            for c2 in ("a+b", "ab", "as-bu"):
                for a, b in PAIRS:
                    for e in ("st", "mp", "M0"):
                        out.append(([TWO[c2](TWO[cn](ATOM[a], ATOM[b]), ATOM[e]), FIELDS["x1"]], {}))
        for cn in ONE:
            for dn in ONE:
                for an, bn in (("s", "M"), ("sd", "m"), ("mp", "sp")):
                    out.append(([ONE[cn](ATOM[an]), ONE[dn](ATOM[bn])], {}))
    # cheap ones in bundles
    B = 8
    return [out[i:i + B] for i in range(0, len(out), B)]


def s(t):
    if t[0] == "v":
        return t[1]
    if t[0] == "k":
        return f"{t[1]:.10g}"
    if t[0] in "+-*/":
        return f"({s(t[1])}{t[0]}{s(t[2])})"
    return f"{t[0]}({','.join(s(a) for a in t[1:])})"


def text(r):
    return "[" + ", ".join(s(t) for t in r[0]) + "]" + "".join(f" {k}" for k in r[1])


def label(prop, it):
    return text(it[0]) + f" .. ({len(it)} systems)"


# ------------------------------------------------------------------ the two readings of a term
def tocas(t, env):
    k = t[0]
    if k == "v":
        return env[t[1]]
    if k == "k":
        return ca.SX(t[1])
    a = [tocas(q, env) for q in t[1:]]
    if k in "+-*/":
        return {"+": lambda: a[0] + a[1], "-": lambda: a[0] - a[1], "*": lambda: a[0] * a[1], "/": lambda: a[0] / a[1]}[k]()
    return {"neg": lambda: -a[0], "sin": lambda: ca.sin(a[0]), "sign": lambda: ca.sign(a[0]), "max": lambda: ca.fmax(a[0], a[1]),
            "min": lambda: ca.fmin(a[0], a[1])}[k]()


def positive(ctx, a):
    """the sign of a switching function, off its surface"""
    if not eb.issym(a) or (isinstance(a, P) and a.is_const()):
        a = a.const() if isinstance(a, P) else a
        if abs(a) < MARGIN:
            return None
        return a > 0
    return bool(a > 0)


def value(ctx, t, env):
    k = t[0]
    if k == "v":
        return env[t[1]]
    if k == "k":
        return P.c(t[1]) if ctx.sym else float(t[1])
    a = [value(ctx, q, env) for q in t[1:]]
    if k == "+":
        return a[0] + a[1]
    if k == "-":
        return a[0] - a[1]
    if k == "*":
        return a[0] * a[1]
    if k == "/":
        return a[0] / a[1]
    if k == "neg":
        return -a[0]
    if k == "sin":
        return poly.func("sin", a[0]) if ctx.sym else float(np.sin(a[0]))
    c = a[0] if k == "sign" else a[0] - a[1]
    if eb.issym(c) and not c.is_const():
        ctx.require(eb.lor(c > MARGIN, c < -MARGIN))
    else:
        ctx.require(abs(float(c.const() if isinstance(c, P) else c)) > MARGIN)
    pos = positive(ctx, c)
    if k == "sign":
        return (P.c(1 if pos else -1)) if ctx.sym else (1.0 if pos else -1.0)
    return a[0] if pos == (k == "max") else a[1]


def ev(ctx, fun, args):
    """outputs of a CasADi function as flat lists"""
    if ctx.sym:
        return [list(np.ravel(o, order="F")) for o in sxvm.interpret(fun, args)]
    r = fun.call([ca.DM(list(map(float, a))) if len(a) else ca.DM(0, 1) for a in args])
    return [list(np.array(o.full()).ravel(order="F")) for o in r]


def used(t):
    if t[0] == "v":
        return {t[1]}
    if t[0] == "k":
        return set()
    return set().union(*[used(q) for q in t[1:]])


def smooth(fun):
    return all(fun.instruction_id(k) not in NONSMOOTH for k in range(fun.n_instructions()))


def indicator(ctx, c, name):
    p = positive_or_none(ctx, c)
    if p is None:
        return ctx.var(f"{name}_free", 0, 1)        # the region leaves the multiplier undetermined: any value
    one, zero = (P.c(1), P.c(0)) if ctx.sym else (1.0, 0.0)
    return one if p else zero


def positive_or_none(ctx, c):
    if isinstance(c, P) and not c.is_const():
        if bool(c > 0):
            return True
        if bool(c < 0):
            return False
        return None
    v = c.const() if isinstance(c, P) else c
    return True if v > 0 else False if v < 0 else None


def run_one(spec):
    rows, o = spec
    us = set().union(*[used(t) for t in rows])
    if o.get("nop") and us & {"p0", "p1"} or o.get("nou") and "u" in us:
        return None

    def run(ctx):
        with eb.session(ctx):
            n = max(2, len(rows)) if not o.get("one") else len(rows)
            if o.get("named"):
                xs = ca.vertcat(*[ca.SX.sym("x") for _ in range(n)])
            else:
                xs = ca.SX.sym("x", n)
            u = ca.SX.sym("u", 0 if o.get("nou") else 1)
            p = None if o.get("nop") else ca.SX.sym("p", 2)
            env = dict(x0=xs[0], x1=xs[1])
            if not o.get("nou"):
                env["u"] = u
            if p is not None:
                env.update(p0=p[0], p1=p[1])
            rr = list(rows) + [K(0)] * (n - len(rows))
            ode = ca.vertcat(*[tocas(t, env) for t in rr])
            pa = p if p is not None else ca.SX.sym("p", 0)
            if smooth(ca.Function("ode", [xs, u, pa], [ode])):
                ctx.data.update(ref=[], got=[], facts=[])       # the terms cancel: no switching system
                return
            x0 = np.array([0.25 * (i + 1) for i in range(n)])
            kw = {} if p is None else dict(p=p)
            am = nosnoc.NosnocAutoModel(x=xs, x0=x0, u=u, f_nonsmooth_ode=ode, **kw)
            ms = [am.reformulate()]
            if o.get("twice"):
                ms.append(am.reformulate())
            # symbolic point and reference value
            X = [ctx.var(f"x{i}", -10, 10) for i in range(n)]
            Uv = [] if o.get("nou") else [ctx.var("u", -10, 10)]
            Pv = [] if p is None else [ctx.var("p0", -10, 10), ctx.var("p1", -10, 10)]
            venv = dict(zip([f"x{i}" for i in range(n)] + (["u"] if Uv else []) + (["p0", "p1"] if Pv else []), X + Uv + Pv))
            ref = [value(ctx, t, venv) for t in rr]
            D = ctx.data
            D["ref"], D["got"], D["facts"] = ref, [], []
            for k, m in enumerate(ms):
                tag = f" (model {k + 1} of {len(ms)})" if len(ms) > 1 else ""
                facts = D["facts"]
                facts.append(("state", "state or initial state not preserved" + tag,
                              m.x.shape == xs.shape and ca.is_equal(m.x, xs, 1) and np.array_equal(np.ravel(m.x0), x0)))
                facts.append(("control", "control not preserved" + tag, m.u.shape[0] == u.shape[0] and (not u.shape[0] or ca.is_equal(m.u, u, 1))))
                pin = ca.vertcat(m.p_time_var, m.p_global)
                facts.append(("parameters", "parameters not preserved" + tag,
                              (pin.shape[0] == 0) if p is None else (pin.shape[0] == 2 and ca.is_equal(pin, p, 2))))
                pv = p if p is not None else ca.SX.sym("p", 0)
                cs = m.c
                # the library's switching functions depend on state and parameters only
                usable = not any(ca.which_depends(ca.vertcat(*cs), u, 1, True)) if u.shape[0] else True
                if m.F is not None:
                    ns = len(m.F)
                    fun = ca.Function("f", [xs, u, pv], list(m.F) + list(cs))
                    val = ev(ctx, fun, [X, Uv, Pv])
                    got = [P.c(0) if ctx.sym else 0.0] * n
                    alphas = []
                    for i in range(ns):
                        cv = val[ns + i]
                        S = np.array(m.S[i])
                        sgn = [positive_or_none(ctx, c) for c in cv]
                        act = [all(S[r, j] == 0 or (sgn[j] is not None and (S[r, j] > 0) == sgn[j]) for j in range(S.shape[1]))
                               for r in range(S.shape[0])]
                        facts.append(("region", f"system {i}: {sum(act)} regions of S apply to one point off the surfaces" + tag, sum(act) == 1))
                        nm = m.F[i].shape[1]
                        facts.append(("modes", f"system {i}: {nm} fields for {S.shape[0]} regions" + tag, nm == S.shape[0]))
                        if nm == S.shape[0]:
                            for r in range(nm):
                                if act[r]:
                                    got = [g + v for g, v in zip(got, val[i][r * n:(r + 1) * n])]
                        alphas += [(1.0 if q else 0.0) if q is not None else 0.5 for q in sgn]
                    D["got"].append((got, "by regions" + tag))
                    facts.append(("smooth", "the derived fields or switching functions still contain nonsmooth operations" + tag, smooth(fun)))
                    modes = [nosnoc.PssMode.STEP, nosnoc.PssMode.STEWART]
                else:
                    al = ca.vertcat(*m.alpha)
                    cc = ca.vertcat(*cs)
                    fc = ca.Function("c", [xs, u, pv], [cc])
                    cv = ev(ctx, fc, [X, Uv, Pv])[0]
                    facts.append(("alpha", f"{al.shape[0]} multipliers for {cc.shape[0]} switching functions" + tag, al.shape[0] == cc.shape[0]))
                    alphas = [indicator(ctx, c, f"alpha{j}") for j, c in enumerate(cv)]
                    ff = ca.Function("f", [xs, u, pv, al], [ca.vertcat(*m.f_x)])
                    D["got"].append((ev(ctx, ff, [X, Uv, Pv, alphas])[0] if al.shape[0] == len(alphas) else None, "by multipliers" + tag))
                    facts.append(("smooth", "the derived field or switching functions still contain nonsmooth operations" + tag, smooth(ff) and smooth(fc)))
                    modes = [nosnoc.PssMode.STEP]
                # the library accepts the model, and its own right-hand side agrees
                if p is not None:
                    m.p_global_val = np.array([0.5, -0.5])
                for md in modes if usable else []:
                    opts = nosnoc.NosnocOpts()
                    opts.pss_mode = md
                    opts.preprocess()
                    m.preprocess_model(opts)
                    d = m.dims
                    facts.append(("dims", f"dimensions after preprocessing {d.n_x},{d.n_u}" + tag, d.n_x == n and d.n_u == u.shape[0]))
                    if md == nosnoc.PssMode.STEP:
                        nz = m.f_x_fun.size_in(1)[0]
                        zv = list(alphas) + [0.0] * (nz - len(alphas))
                        D["got"].append((ev(ctx, m.f_x_fun, [X, [P.c(v) if ctx.sym and not eb.issym(v) else v for v in zv], Uv, Pv, []])[0],
                                         "f_x_fun" + tag))
    return run


def oracle_one(spec):
    def oracle(ctx):
        D = ctx.data
        for k, t, ok in D["facts"]:
            yield Claim(k, text(spec) + ": " + t, bool(ok))
        for got, how in D["got"]:
            if got is None:
                continue
            if len(got) != len(D["ref"]):
                yield Claim("dimension", text(spec) + f": {len(got)} instead of {len(D['ref'])} state derivatives ({how})", False)
                continue
            for i, (a, b) in enumerate(zip(got, D["ref"])):
                yield ctx.eq_claim("value", text(spec) + f": derivative of state {i} differs from the given ODE ({how})", a, b) \
                    if hasattr(ctx, "eq_claim") else Claim("value", text(spec) + f": derivative of state {i} differs from the given ODE ({how})", ctx.eq(a, b))
    return oracle


def run(prop, bundle, it):
    for spec in bundle:
        spec = (tuple_of(spec[0]), spec[1])
        r = run_one(spec)
        if r is None:
            continue
        eb.explore(it, r, oracle_one(spec), dict(c=[list(spec[0]), spec[1]]), max_paths=2000, reach=True)


def tuple_of(t):
    if isinstance(t, (list, tuple)):
        return tuple(tuple_of(q) for q in t)
    return t


def replay(prop, rp):
    spec = (tuple_of(rp["c"][0]), rp["c"][1])
    bad = eb.concrete(run_one(spec), oracle_one(spec), rp)
    return bool(bad), "; ".join(f.text for f in bad[:3])
