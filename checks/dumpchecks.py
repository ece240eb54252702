"""C31: a dumped problem, read back, evaluates like the problem in memory.

The real solver front end runs on symbolic inputs; NosnocProblem.dump writes to a scratch file before the solve and after it,
the file is read back with pickle, the functions in it are decompiled and compared with what the NLP solver object holds."""
import contextlib
import os
import pickle
import tempfile
from fractions import Fraction

import numpy as np

import configs
import engine
import nlp
import poly
import runner
import smt
import nosnoc
from poly import P
from smt import F


def info(prop):
    return dict(
        explanation="the real solver front end is executed with symbolic initial state and parameter values; dump() is executed "
                    "before the solve and when the NLP solver is called, the file is read back; for all primal points and "
                    "parameter vectors objective and constraints of the file equal those of the NLP handed to the solver, and "
                    "bounds, guess, index lists and the parameter vector (relaxation 0) are the ones in memory",
        bounds="every primal point, initial state, parameter and relaxation value in [-10,10]; enumerated configurations: pairwise "
               "covering array over model, features, representation, scheme, n_s 1..3, formulations, MPCC modes, both "
               "constraint handlings, layouts, speed of time, way the user passes values; write/read through the real pickle module",
        assumptions=["casadi.nlpsol is replaced by a recorder", "file system and pickle behave"])


def label(prop, c):
    return nlp.Cfg(c).label()


def items(prop, tier):
    d = configs.dims(
        model=[("a1", ()), ("a2", ()), ("s22", ()), ("g3", ()), ("gi2", ()), ("a3", ()), ("gs2", ()), ("gi22", ())],
        feats=[("u", "tv", "fq", "fT"), ("u", "z", "gpath"), ("tv", "tv2", "v", "gT", "fq"), ("z", "z2", "cz", "bx"), (),
               ("u", "u2", "tv", "tv2", "v", "compu", "compx", "comptv"), ("nopar", "u")],
        layout=[(1, [2]), (2, [2, 1]), (1, [1]), (3, [1, 2, 1])],
        mpcc_mode=["SCHOLTES_INEQ", "SCHOLTES_EQ", "ELASTIC_INEQ", "ELASTIC_TWO_SIDED", "FISCHER_BURMEISTER", "FISCHER_BURMEISTER_IP_AUG"],
        via=list(nlp.VIA), step_equilibration=["HEURISTIC_DELTA", "DIRECT", "DIRECT_COMPLEMENTARITY"],
        gamma_h=None, gopt=None, initialization_strategy=["ALL_XCURRENT_W0_START", "EXTERNAL", "ALL_XCURRENT_WOPT_PREV"],
        constraint_handling=["EXACT", "EXACT", "LEAST_SQUARES"])

    import nlpchecks

    def ok(dd):
        if not configs.valid(dict(dd)) or configs.n_elem(dd) * dd["n_s"] > 8:
            return False
        if dd["mpcc_mode"].startswith("FISCHER") and dd["model"][0] in ("s22", "a3", "gs2", "gi22"):
            return False
        if dd["model"][0] in configs.INCL and "nopar" in dd["feats"]:
            return False
        if dd["mpcc_mode"].endswith("IP_AUG") and dd["cross_comp_mode"] == configs.EQ:
            return False
        if dd["constraint_handling"] == "LEAST_SQUARES" and (
                dd["mpcc_mode"] in ("SCHOLTES_INEQ", "ELASTIC_INEQ", "ELASTIC_TWO_SIDED") or "gpath" in dd["feats"]):
            return False
        if dd["step_equilibration"].startswith("DIRECT") and nlpchecks.nu_terms(dd) > 120:
            return False
        return True
    return configs.arrays(tier, d, ok, quick3=400)


INDEX = lambda k: k.startswith("ind_")


def compare(kind, a, data, prob, snap, it, rp):
    """a: captured NLP (symbols); data: the file; snap: what was in memory at that time"""
    def bad(key, txt, env=None):
        it.violation(key, f"{nlp.Cfg(rp['cfg']).label()}: {kind}: {txt}", dict(rp, key=key, when=kind, env=env or {}))
    zero = {}
    import sxvm
    for k in ("f", "g", "w0", "lbw", "ubw", "lbg", "ubg", "p0"):
        if k not in data:
            bad(f"missing-{k}", f"the file has no {k}")
            return
    fd, gd = data["f"], data["g"]
    if fd.size1_in(0) != a.n or fd.size1_in(1) != len(a.p) or gd.size1_in(0) != a.n or gd.size1_in(1) != len(a.p) \
            or gd.numel_out(0) != len(a.g):
        bad("dimensions", f"functions of the file take {fd.size1_in(0)} variables, {fd.size1_in(1)} parameters and give "
            f"{gd.numel_out(0)} constraints instead of {a.n}, {len(a.p)}, {len(a.g)}")
        return
    it.ok(2)
    # objective and constraints, for all w and p: p entries become independent symbols
    ps = [poly.var(f"par{i}") for i in range(len(a.p))]
    for key, fun, ref in (("f", fd, a.fun_f), ("g", gd, a.fun_g)):
        got = sxvm.interpret(fun, [a.w, ps])[0].flatten()
        want = sxvm.interpret(ref, [a.w, ps])[0].flatten()
        for i, (x, y) in enumerate(zip(got, want)):
            d = poly.co(x) - poly.co(y)
            if not d.t:
                it.ok()
                continue
            r = smt.Prover([], smt.Box()).prove(F(d, Fraction(-1, 10**6), Fraction(1, 10**6)))
            if r.verdict == "holds":
                it.ok()
            else:
                bad(f"{key}-differs", f"{key}[{i}] of the file differs from the problem in memory", dict(fun=key, row=i))
    # numbers and index lists
    for k in ("lbw", "ubw", "lbg", "ubg", "w0"):
        if same(data[k], snap[k]):
            it.ok()
        else:
            bad(f"{k}-differs", f"{k} of the file is not the one in memory")
    for k in snap:
        if INDEX(k):
            if k in data and data[k] == snap[k]:
                it.ok()
            else:
                bad("index-lists", f"{k} of the file is not the one in memory")
    # parameter vector
    want = [at0(e, a.sigma) for e in a.p]
    got = list(np.array(data["p0"], dtype=object).flatten())
    if len(got) != len(want):
        bad("p0-length", f"p0 has {len(got)} entries instead of {len(want)}")
        return
    for i, (x, y) in enumerate(zip(got, want)):
        d = poly.co(x) - y
        if not d.t or smt.Prover([], smt.Box()).prove(F(d, Fraction(-1, 10**9), Fraction(1, 10**9))).verdict == "holds":
            it.ok()
        else:
            bad("p0-differs", f"p0[{i}] is {x!r} in the file and {y!r} in the problem")


def at0(e, sigma):
    """relaxation parameters zero"""
    sv = sigma.vid()
    dep = any(_dep(v, sv) for m in e.t for v, _ in m)
    return P.c(0) if dep else e


def _dep(v, sv):
    if v == sv:
        return True
    at = poly.ATOMS[v]
    for q in at.args:
        if isinstance(q, P) and any(_dep(x, sv) for m in q.t for x, _ in m):
            return True
    return False


def same(a, b):
    x, y = np.array(a, dtype=object).flatten(), np.array(b, dtype=object).flatten()
    if len(x) != len(y):
        return False
    for p, q in zip(x, y):
        if isinstance(p, P) or isinstance(q, P):
            if poly.co(p) != poly.co(q):
                return False
        elif not (float(p) == float(q)):
            return False
    return True


def snapshot(prob):
    s = {k: np.array(getattr(prob, k), dtype=object).copy() for k in ("lbw", "ubw", "lbg", "ubg", "w0")}
    s.update({k: v for k, v in prob.__dict__.items() if INDEX(k)})
    import copy
    return copy.deepcopy(s)


@contextlib.contextmanager
def dumping(files, snaps, dirname):
    """every solve() dumps the problem first"""
    orig = nosnoc.NosnocSolver.solve

    def solve(self):
        f = os.path.join(dirname, f"d{len(files)}")
        self.problem.dump(f)
        with open(f, "rb") as h:
            files.append(pickle.load(h))
        snaps.append(snapshot(self.problem))
        return orig(self)
    nosnoc.NosnocSolver.solve = solve
    try:
        yield
    finally:
        nosnoc.NosnocSolver.solve = orig


def run(prop, c, it):
    c = nlp.Cfg(c)
    files, snaps = [], []
    rp = dict(cfg=dict(c))
    with tempfile.TemporaryDirectory(prefix="c31") as td:
        try:
            with dumping(files, snaps, td):
                a = nlp.capture(c)
            with nlp.patched(), nlp.quiet():
                f = os.path.join(td, "after")
                a.prob.dump(f)
                with open(f, "rb") as h:
                    after = pickle.load(h)
            snap_after = snapshot(a.prob)
        except (poly.ConcretisationError, NotImplementedError) as e:
            raise runner.Undecided(repr(e))
        except Exception as e:
            bad, txt = replay(prop, dict(rp, key="raises", when="", env={}))
            if bad:
                it.violation(f"raises-{type(e).__name__}", f"{c.label()}: {txt}", dict(rp, key="raises", when="", env={}))
                return
            raise
    import casadi as ca
    n = a.fake.nlp
    g = n.get("g", ca.SX(0, 1))
    a.fun_f = ca.Function("mf", [n["x"], n["p"]], [ca.densify(n["f"])])
    a.fun_g = ca.Function("mg", [n["x"], n["p"]], [ca.densify(g)])
    # the NLP data handed to the solver are those of the problem in memory
    for k, kk in (("lbx", "lbw"), ("ubx", "ubw"), ("lbg", "lbg"), ("ubg", "ubg"), ("x0", "w0")):
        v = a.rec.kw.get(k)
        if v is None or not same(v, snap_after[kk]):
            it.violation("memory", f"{c.label()}: {kk} handed to the NLP solver is not the problem's",
                         dict(rp, key="memory", when="after", env={}))
            return
        it.ok()
    it.sample(f"{c.label()}: {a.n} variables, {len(a.g)} constraints, {len(a.p)} parameters")
    it.witness()
    compare("before solving", a, files[-1], a.prob, snaps[-1], it, rp)
    compare("while solving", a, after, a.prob, snap_after, it, rp)


# ------------------------------------------------------------------ replay on the unmodified library
def replay(prop, rp):
    c = nlp.Cfg(rp["cfg"])
    files, snaps = [], []
    rng = np.random.default_rng(5)
    d = __import__("models").make(c["model"], c.get("feats", []))
    N = nlp.full(c, "N_stages")
    names = {f"x0_{i}": float(rng.uniform(-1, 1)) for i in range(d.nx)}
    names.update({f"pg_{k}": float(rng.uniform(-1, 1)) for k in d.pg})
    names.update({f"tv_{k}_{i}": float(rng.uniform(-1, 1)) for k in d.tv for i in range(N)})
    with tempfile.TemporaryDirectory(prefix="c31") as td:
        try:
            with dumping(files, snaps, td):
                solver, rec, fun = engine.concrete(c, names, sigma=0.37)
            f = os.path.join(td, "after")
            with nlp.quiet():
                solver.problem.dump(f)
            with open(f, "rb") as h:
                after = pickle.load(h)
            sa = snapshot(solver.problem)
        except Exception as e:
            return True, f"dumping and reading back raises {type(e).__name__}: {str(e)[:200]}"
    tau = min(0.37 ** 1.5, 0.37)
    p = np.array(rec.kw["p"], dtype=float)
    isrel = [abs(v - 0.37) < 1e-12 or abs(v - tau) < 1e-12 for v in p]
    out = []
    for kind, data, snap in (("before solving", files[-1], snaps[-1]), ("while solving", after, sa)):
        for k in ("f", "g", "w0", "lbw", "ubw", "lbg", "ubg", "p0"):
            if k not in data:
                out.append(f"{kind}: the file has no {k}")
        if out:
            break
        for k in ("lbw", "ubw", "lbg", "ubg", "w0"):
            if not same(data[k], snap[k]):
                out.append(f"{kind}: {k} of the file is not the one in memory")
        for k in snap:
            if INDEX(k) and (k not in data or data[k] != snap[k]):
                out.append(f"{kind}: {k} differs")
        p0 = np.array(data["p0"], dtype=float).flatten()
        if len(p0) != len(p):
            out.append(f"{kind}: p0 has {len(p0)} entries, the problem {len(p)}")
        else:
            for i in range(len(p)):
                w = 0.0 if isrel[i] else p[i]
                if abs(p0[i] - w) > 1e-9:
                    out.append(f"{kind}: p0[{i}] is {p0[i]} in the file, {w} in the problem")
                    break
        n = fun.size1_in(0)
        if data["f"].size1_in(0) != n or data["g"].size1_in(0) != n or data["f"].size1_in(1) != len(p) \
                or data["g"].numel_out(0) != fun.numel_out(1):
            out.append(f"{kind}: dimensions of the functions differ")
            continue
        for _ in range(5):
            w, q = rng.uniform(0.1, 1, n), rng.uniform(0.1, 1, len(p))
            F_, G_ = fun(w, q)
            if abs(float(F_) - float(data["f"](w, q))) > 1e-7 * max(1, abs(float(F_))):
                out.append(f"{kind}: objective {float(data['f'](w, q))} instead of {float(F_)}")
                break
            dg = np.abs(np.array(G_) - np.array(data["g"](w, q))).flatten() if len(np.array(G_).flatten()) else np.zeros(1)
            if np.max(dg) > 1e-7:
                out.append(f"{kind}: constraint {int(np.argmax(dg))} differs by {np.max(dg)}")
                break
    for k, kk in (("lbx", "lbw"), ("ubx", "ubw"), ("lbg", "lbg"), ("ubg", "ubg"), ("x0", "w0")):
        if not same(rec.kw[k], sa[kk]):
            out.append(f"{kk} handed to the NLP solver is not the problem's")
    return bool(out), "; ".join(out[:3]) or "the dumped problem equals the one in memory"
