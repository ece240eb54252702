"""C01: the Runge-Kutta coefficients handed out by the real code are exact to the order of the scheme.

The generators and NosnocOpts.preprocess are executed for every supported (scheme, number of stages, representation); the
doubles they return are taken as exact rationals.  The quantified objects are the polynomial (all its coefficients, degree up
to what the scheme must integrate), the initial value and the stage derivatives: these are symbolic reals, and z3 (linear real
arithmetic) decides that no value of them makes the library's step differ from the exact one by more than TOL.
"""
import itertools
from fractions import Fraction as Q

import numpy as np
import z3

import env
import smt
from runner import Undecided
import nosnoc
from nosnoc.nosnoc_types import IrkSchemes, IrkRepresentation

TOL = Q(1, 10 ** 9)
SCHEMES = ("RADAU_IIA", "GAUSS_LEGENDRE")
REPS = ("DIFFERENTIAL", "DIFFERENTIAL_LIFT_X", "INTEGRAL")


def items(prop, tier):
    return [(via, s, n, r) for s in SCHEMES for n in range(1, 10)
            for via, r in [("gen", "DIFFERENTIAL"), ("gen", "INTEGRAL"), ("gen", "SAME")] + [("opts", r) for r in REPS]]


def label(prop, it):
    return f"{it[0]} {it[1]} n_s={it[2]} {it[3]}"


def info(prop):
    return dict(
        explanation="the coefficient generators and NosnocOpts.preprocess are executed for both schemes, n_s=1..9 and every "
                    "representation; their doubles become exact rationals, and z3 decides (linear real arithmetic) that for "
                    "every polynomial (symbolic coefficients in [-1,1]) of the required degree, every initial value and all "
                    "stage derivatives the step, the stage values and the quadrature equal the exact ones",
        bounds=dict(n_s="1..9", schemes=list(SCHEMES), representations=list(REPS), polynomial_coefficients="[-1,1] each",
                    degree="n_s for steps, order-1 for quadratures (2*n_s-2 Radau IIA, 2*n_s-1 Gauss-Legendre)",
                    tolerance="1e-9 (double precision coefficients)"),
        assumptions=["the scheme's order is 2*n_s-1 (Radau IIA) and 2*n_s (Gauss-Legendre)"])


def q(x):
    return Q(float(x))


def rat(x):
    return z3.RealVal(str(Q(x)))


def coeffs(it):
    """what the library hands out, in one form: dict(c, A, b) or (c, B, C, D)"""
    via, scheme, n, rep = it
    sch = IrkSchemes[scheme]
    out = {}
    try:
        if via == "gen":
            if rep in ("DIFFERENTIAL", "SAME"):
                A, b, c, order = nosnoc.generate_butcher_tableu(n, sch)
                out.update(A=A, b=b, c=c, order=order)
            if rep in ("INTEGRAL", "SAME"):
                B, C, D, tau = nosnoc.generate_butcher_tableu_integral(n, sch)
                out.update(B=B, C=C, D=D, tau=tau)
        else:
            o = nosnoc.NosnocOpts()
            o.n_s = n
            o.irk_scheme = sch
            o.irk_representation = IrkRepresentation[rep]
            o.preprocess()
            out["c"] = o.irk_time_points
            out["explicit"] = o.right_boundary_point_explicit
            if rep == "INTEGRAL":
                out.update(B=o.B_irk, C=o.C_irk, D=o.D_irk, tau=[0.0] + list(o.irk_time_points))
            else:
                out.update(A=o.A_irk, b=o.b_irk)
    except Exception as e:
        return e
    r = {}
    for k, v in out.items():
        if k in ("order", "explicit"):
            r[k] = v
        elif k in ("A", "C"):
            r[k] = [[q(x) for x in row] for row in np.asarray(v, float)]
        else:
            r[k] = [q(x) for x in np.asarray(v, float).flatten()]
    return r


def poly_at(cs, t):
    return z3.Sum([rat(t ** k) * c for k, c in enumerate(cs)]) if t != 0 else cs[0]


def dpoly_at(cs, t):
    r = [rat(k * t ** (k - 1)) * c for k, c in enumerate(cs) if k > 0 and (t != 0 or k == 1)]
    return z3.Sum(r) if r else z3.RealVal(0)


def decide(goals, pre, vars_):
    """goals: list of (key, z3 linear expression that must be within TOL of 0).  Returns (proved, list of counterexamples)"""
    bad, n = [], 0
    import time
    for key, e in goals:
        s = z3.Solver()
        s.set("timeout", 60000)
        s.add(*pre)
        s.add(z3.Or(e > rat(TOL), e < rat(-TOL)))
        t = time.time()
        r = s.check()
        smt.STATS.time += time.time() - t
        smt.STATS.queries += 1
        if r == z3.unsat:
            smt.STATS.unsat += 1
            n += 1
        elif r == z3.sat:
            smt.STATS.sat += 1
            m = s.model()
            bad.append((key, {str(v): str(m.eval(v, model_completion=True)) for v in vars_}))
        else:
            smt.STATS.unknown += 1
            raise Undecided(f"solver gave no answer on {key}")
    return n, bad


def goals_of(it, co):
    """(structural claims, linear goals, assumptions, variables)"""
    via, scheme, n, rep = it
    order = 2 * n - 1 if scheme == "RADAU_IIA" else 2 * n
    st = []
    c = co.get("c") or co["tau"][1:]
    diff, integ = "A" in co, "B" in co
    st.append(("nodes-count", len(c) == n))
    st.append(("nodes-range", all(0 < x <= 1 for x in c)))
    st.append(("nodes-increase", all(a < b for a, b in zip(c, c[1:]))))
    if scheme == "RADAU_IIA":
        st.append(("radau-last-node", c[-1] == 1))
    else:
        st.append(("gauss-last-node", c[-1] < 1))
    if "order" in co:
        st.append(("order", co["order"] == order))
    if "explicit" in co:
        st.append(("right-boundary-flag", bool(co["explicit"]) == (scheme == "RADAU_IIA")))
    if integ:
        st.append(("tau-starts-at-0", len(co["tau"]) == n + 1 and co["tau"][0] == 0))
        st.append(("shape-integral", len(co["B"]) == n + 1 and len(co["D"]) == n + 1 and len(co["C"]) == n + 1
                   and all(len(r) == n + 1 for r in co["C"])))
    if diff:
        st.append(("shape-differential", len(co["b"]) == n and len(co["A"]) == n and all(len(r) == n for r in co["A"])))
    if not all(ok for k, ok in st if k.startswith(("shape", "nodes-count", "tau"))):
        return st, [], [], []
    p = [z3.Real(f"p{k}") for k in range(n + 1)]                  # trajectory, degree n
    qd = [z3.Real(f"q{k}") for k in range(order)]                 # integrand, degree order-1
    pre = [z3.And(v >= -1, v <= 1) for v in p + qd]
    goals, vs = [], p + qd
    integral_q = z3.Sum([rat(Q(1, k + 1)) * qd[k] for k in range(order)])
    if rep == "SAME":
        # both forms of one step: symbolic initial value and stage derivatives (times h)
        x0 = z3.Real("x0")
        X = [z3.Real(f"X{i}") for i in range(1, n + 1)]
        f = [z3.Real(f"hf{i}") for i in range(1, n + 1)]
        pre = [z3.And(v >= -1, v <= 1) for v in [x0] + f]
        vs = [x0] + X + f
        Z = [x0] + X
        pre += [z3.Sum([rat(co["C"][j][r]) * Z[j] for j in range(n + 1)]) == f[r - 1] for r in range(1, n + 1)]
        for i in range(n):
            goals.append((f"stage{i}", X[i] - x0 - z3.Sum([rat(co["A"][i][j]) * f[j] for j in range(n)])))
            goals.append((f"weight{i}", (rat(co["b"][i]) - rat(co["B"][i + 1])) * f[i]))
            goals.append((f"node{i}", (rat(co["c"][i]) - rat(co["tau"][i + 1])) * f[i]))
        goals.append(("end", z3.Sum([rat(co["D"][j]) * Z[j] for j in range(n + 1)]) - x0
                      - z3.Sum([rat(co["b"][j]) * f[j] for j in range(n)])))
        return st, goals, pre, vs
    if diff:
        A, b = co["A"], co["b"]
        for i in range(n):
            goals.append((f"stage{i}", poly_at(p, c[i]) - p[0] - z3.Sum([rat(A[i][j]) * dpoly_at(p, c[j]) for j in range(n)])))
        goals.append(("end", poly_at(p, Q(1)) - p[0] - z3.Sum([rat(b[j]) * dpoly_at(p, c[j]) for j in range(n)])))
        goals.append(("quadrature", integral_q - z3.Sum([rat(b[j]) * poly_at(qd, c[j]) for j in range(n)])))
    if integ:
        B, C, D, tau = co["B"], co["C"], co["D"], co["tau"]
        for r in range(1, n + 1):
            goals.append((f"collocation{r}", z3.Sum([rat(C[j][r]) * poly_at(p, tau[j]) for j in range(n + 1)])
                          - dpoly_at(p, tau[r])))
        goals.append(("end", poly_at(p, Q(1)) - z3.Sum([rat(D[j]) * poly_at(p, tau[j]) for j in range(n + 1)])))
        goals.append(("quadrature", integral_q - z3.Sum([rat(B[j]) * poly_at(qd, tau[j]) for j in range(n + 1)])))
    return st, goals, pre, vs


def run(prop, it, item):
    co = coeffs(it)
    if isinstance(co, Exception):
        item.violation(f"{it[0]}-{it[3]}-raises", f"{label(prop, it)}: the library raises {type(co).__name__}: {co}",
                       dict(it=list(it), key="raises"))
        return
    try:
        st, goals, pre, vs = goals_of(it, co)
    except Exception as e:
        raise Undecided(f"coefficients of unexpected form: {e}")
    for k, ok in st:
        if ok:
            item.ok()
        else:
            item.violation(f"{it[3]}-{k}", f"{label(prop, it)}: {k} fails: {[float(x) for x in co.get('c') or co['tau']]}",
                           dict(it=list(it), key=k))
    if goals:
        s = z3.Solver()
        s.add(*pre)
        if s.check() == z3.sat:
            item.witness()
    n, bad = decide(goals, pre, vs)
    item.ok(n)
    for key, m in bad:
        item.violation(f"{it[3]}-{''.join(ch for ch in key if not ch.isdigit())}",
                       f"{label(prop, it)}: {key} is not exact to 1e-9 for {dict(list(m.items())[:12])}",
                       dict(it=list(it), key=key, model=m))
    item.sample(f"{label(prop, it)}: {len(goals)} goals")


def replay(prop, rp):
    """evaluate the concrete polynomial of the counterexample with the coefficients the library returns"""
    it = tuple(rp["it"])
    co = coeffs(it)
    if isinstance(co, Exception):
        return rp["key"] == "raises", f"{label(prop, it)}: {type(co).__name__}: {co}"
    st, goals, pre, vs = goals_of(it, co)
    if "model" not in rp:
        ok = dict(st).get(rp["key"], True)
        return not ok, f"{label(prop, it)} {rp['key']}: {'holds' if ok else 'fails'}"
    sub = [(v, z3.RealVal(rp["model"][str(v)])) for v in vs]
    e = dict(goals)[rp["key"]]
    if it[3] == "SAME":
        # the stage values follow from the integral form: solve for them instead of trusting the model
        s = z3.Solver()
        s.add(*pre, *[v == x for v, x in sub if not str(v).startswith("X")])
        s.check()
        val = s.model().eval(e, model_completion=True)
    else:
        val = z3.simplify(z3.substitute(e, *sub))
    d = float(val.as_fraction())
    return abs(d) > float(TOL), f"{label(prop, it)} {rp['key']}: error {d:.3e} for {dict(list(rp['model'].items())[:12])}"
