"""Engine B: forking symbolic execution of the library's Python code (solver loop, setters, simulation loop,
result extraction) with a nondeterministic NLP solver.

A scenario is a pair (run(ctx), oracle(ctx)). `run` executes the real code with inputs obtained from the
context; `oracle` yields Claim(key, text, condition). The same scenario runs in two modes:
 * symbolic: inputs are poly.P values, every branch of the real code on a symbolic condition is decided
   by z3 under the path condition (both sides are explored when both are feasible), and every claim is
   discharged by z3 under the path condition;
 * concrete: the inputs are the values of a z3 model; the real code runs on floats and the claims are
   re-evaluated (replay of a counterexample).
"""
import contextlib
import math
from fractions import Fraction

import casadi as ca
import numpy as np
import z3

import nlp
import poly
import runner
import smt
import sxvm
import symx
from poly import P, SymBool
from sxvm import SymDM

STATUSES = ["Solve_Succeeded", "Solved_To_Acceptable_Level", "Feasible_Point_Found",
            "Search_Direction_Becomes_Too_Small", "Infeasible_Problem_Detected", "Diverging_Iterates",
            "User_Requested_Stop", "Maximum_Iterations_Exceeded", "Restoration_Failed",
            "Error_In_Step_Computation", "Maximum_CpuTime_Exceeded", "Maximum_WallTime_Exceeded",
            "Not_Enough_Degrees_Of_Freedom", "Invalid_Problem_Definition", "Invalid_Option",
            "Invalid_Number_Detected", "Unrecoverable_Exception", "NonIpopt_Exception_Thrown",
            "Insufficient_Memory", "Internal_Error"]
GOOD = STATUSES[:4]


class SymStatus:
    """solver status with a symbolic value"""

    def __init__(self, code):
        self.code = code

    def __eq__(self, o):
        if isinstance(o, str):
            return (self.code == STATUSES.index(o)) if o in STATUSES else False
        if isinstance(o, SymStatus):
            return self.code == o.code
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (~r) if isinstance(r, SymBool) else not r

    def _concretise(self):
        for i, s in enumerate(STATUSES[:-1]):
            if bool(self.code == i):
                return s
        return STATUSES[-1]

    def __hash__(self):
        return hash(self._concretise())

    def __str__(self):
        return "<status>"
    __repr__ = __str__

    def __format__(self, spec):
        return "<status>"

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return getattr(self._concretise(), k)


class Claim:
    __slots__ = ("key", "text", "cond")

    def __init__(self, key, text, cond):
        self.key, self.text, self.cond = key, text, cond


def issym(x):
    return isinstance(x, (P, SymBool)) and not (isinstance(x, P) and x.is_const())


class Ctx:
    def __init__(self, env=None, table=None):
        """env None: symbolic; else name -> float"""
        self.env = env
        self.table = table or []
        self.sym = env is None
        self.assume = []
        self.declared = {}
        self.exc = None
        self.log = []
        self.data = {}

    # ---- inputs
    def var(self, name, lo=None, hi=None, default=None):
        if self.sym:
            return poly.var(name, lo, hi)
        if name in self.env:
            return float(self.env[name])
        if default is not None:
            return float(default)
        h = sum((k + 1) * ord(ch) for k, ch in enumerate(name)) % 89 / 89.0
        lo = -1.0 if lo is None else float(lo)
        hi = 1.0 if hi is None else float(hi)
        return lo + (hi - lo) * (0.1 + 0.8 * h)

    def vec(self, name, n, lo=None, hi=None):
        return self.arr([self.var(f"{name}{i}", lo, hi) for i in range(n)])

    def arr(self, l):
        return np.array(l, dtype=object) if self.sym else np.array(l, dtype=float)

    def obj(self, a):
        """array that can hold symbolic values (no change in concrete mode)"""
        return np.array(a, dtype=object) if self.sym else np.array(a, dtype=float)

    def require(self, cond):
        """precondition on the inputs (symbolic mode only)"""
        if self.sym and isinstance(cond, SymBool):
            self.assume.append(cond)

    def status(self, name):
        c = self.var(name, 0, len(STATUSES) - 1, default=0)
        if self.sym:
            return SymStatus(c)
        i = int(round(c))
        return STATUSES[i] if abs(c - i) < 1e-9 else STATUSES[-1]

    def is_good(self, name):
        c = self.var(name, 0, len(STATUSES) - 1, default=0)
        if self.sym:
            r = False
            for i in range(len(GOOD)):
                r = (c == i) | r if r is not False else (c == i)
            return r
        return abs(c - round(c)) < 1e-9 and int(round(c)) < len(GOOD)

    def choice(self, name, n):
        """nondeterministic choice 0..n-1 (explored exhaustively)"""
        c = self.var(name, 0, n - 1, default=0)
        if self.sym:
            for i in range(n - 1):
                if bool(c == i):
                    return i
            return n - 1
        i = int(round(c))
        return i if abs(c - i) < 1e-9 else n - 1

    def opaque(self, tag, args, lo=None, hi=None):
        args = [a for x in args for a in np.array(x, dtype=object).flatten()]
        if self.sym:
            return poly.uf(tag, args, lo, hi)
        fl = [float(a) for a in args]
        for t, ar, v in self.table:
            if t == tag and len(ar) == len(fl) and all(abs(a - b) <= 1e-7 * (1 + abs(a)) for a, b in zip(ar, fl)):
                return v
        h = sum((i + 1) * a for i, a in enumerate(fl))
        return abs(math.sin(h)) * 7.0

    def dm(self, a):
        return SymDM(a) if self.sym else ca.DM(np.array(a, dtype=float))

    def decided(self, cond):
        """True/False if the path condition decides cond (always, on concrete runs); None otherwise"""
        if isinstance(cond, (bool, np.bool_)):
            return bool(cond)
        e = self.explorer
        if symx.solve_bools(e.pc + [lnot(cond)], e.box, e.timeout)[0] == "unsat":
            return True
        if symx.solve_bools(e.pc + [cond], e.box, e.timeout)[0] == "unsat":
            return False
        return None

    # ---- claims
    def eq(self, a, b):
        if isinstance(a, SymDM):
            a = a.a.flat[0]
        if isinstance(b, SymDM):
            b = b.a.flat[0]
        if self.sym:
            if isinstance(a, (P, int, float, np.generic, Fraction)) and isinstance(b, (P, int, float, np.generic, Fraction)):
                if isinstance(a, P) or isinstance(b, P):
                    return poly.co(a) == poly.co(b) if _finite(a) and _finite(b) else False
            return bool(a == b) or (isinstance(a, float) and isinstance(b, float) and abs(a - b) <= 1e-12 * (1 + abs(a)))
        try:
            a, b = float(a), float(b)
        except TypeError:
            return a == b
        if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
            return a == b
        return abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b))

    def eqv(self, key, text, a, b):
        """claims that two vectors are equal, entry by entry"""
        a = list(np.array(a, dtype=object).flatten())
        b = list(np.array(b, dtype=object).flatten())
        out = [Claim(key + ":length", f"{text}: length {len(a)} instead of {len(b)}", len(a) == len(b))]
        if len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                out.append(Claim(key, f"{text}[{i}] is {_s(x)}, expected {_s(y)}", self.eq(x, y)))
        return out


def _finite(a):
    return isinstance(a, P) or math.isfinite(float(a))


def _s(x):
    return f"{x!r:.80}" if isinstance(x, P) else str(x)


def land(*cs):
    r = True
    for c in cs:
        if isinstance(c, (bool, np.bool_)):
            if not c:
                return False
        else:
            r = c if r is True else SymBool("and", r, c)
    return r


def lor(*cs):
    r = False
    for c in cs:
        if isinstance(c, (bool, np.bool_)):
            if c:
                return True
        else:
            r = c if r is False else SymBool("or", r, c)
    return r


def lnot(c):
    return (not c) if isinstance(c, (bool, np.bool_)) else ~c


def mx(ctx, a, b):
    return poly.fmax(a, b) if ctx.sym else max(a, b)


def mn(ctx, a, b):
    return poly.fmin(a, b) if ctx.sym else min(a, b)


def iff(a, b):
    return lor(land(a, b), land(lnot(a), lnot(b)))


# ------------------------------------------------------------------ nondeterministic NLP solver
class Stub:
    """answers every NLP with fresh unknowns"""

    def __init__(self, ctx, prefix="n", wfix=None, statuses=None, tconst=False):
        self.ctx, self.prefix, self.calls, self.k = ctx, prefix, [], 0
        self.wfix = wfix            # optional fn(k, i) -> value or None
        self.statuses = statuses    # restrict the return statuses
        self.tconst = tconst

    def __call__(self, fake, rec):
        k, c = self.k, self.ctx
        self.k += 1
        n = fake.nlp["x"].numel()
        ng = fake.nlp["g"].numel() if "g" in fake.nlp else 0
        pre = f"{self.prefix}{k}"
        w = []
        for i in range(n):
            v = self.wfix(k, i) if self.wfix else None
            w.append(c.var(f"{pre}_w{i}", -10, 10) if v is None else v)
        ans = dict(w=c.arr(w), f=c.var(f"{pre}_f"), st=f"{pre}_st",
                   t=0.5 + k if self.tconst else c.var(f"{pre}_t", 0, 10),
                   it=c.var(f"{pre}_it", 0, 10), name=pre)
        g = [c.var(f"{pre}_g{i}") for i in range(min(ng, 1))] + [0.0] * max(0, ng - 1)
        self.calls.append((dict(rec.kw), ans))
        t = ans["t"]
        if self.statuses is not None:
            ans["status"] = self.statuses[c.choice(f"{pre}_stc", len(self.statuses))]
            ans["good"] = ans["status"] in GOOD
        else:
            ans["status"] = c.status(ans["st"])
            ans["good"] = c.is_good(ans["st"])
        ans["tw"] = t if self.tconst else c.var(f"{pre}_tw", 0, 10)
        fake.last_stats = dict(return_status=ans["status"], iter_count=ans["it"], t_proc_total=t, t_wall_total=ans["tw"])
        return dict(x=c.dm(w), f=c.dm([ans["f"]]), g=c.dm(g) if ng else c.dm(np.zeros((0, 1))),
                    lam_x=c.dm([0.0] * n), lam_g=c.dm([0.0] * ng), lam_p=c.dm([0.0]))


@contextlib.contextmanager
def session(ctx):
    with nlp.patched(symbolic=ctx.sym), nlp.quiet():
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                yield
            finally:
                nlp.FakeNlp.current_handler = None


class CompRes:
    """stand-in for prob.comp_res: an arbitrary nonnegative function of (w, p without relaxation parameters)"""

    def __init__(self, ctx, skip=()):
        self.ctx, self.calls, self.skip = ctx, [], set(skip)

    def __call__(self, w, p):
        w = [a for a in np.array(w.full() if hasattr(w, "full") else w, dtype=object).flatten()]
        p = [a for a in np.array(p.full() if hasattr(p, "full") else p, dtype=object).flatten()]
        v = self.value(w, p)
        self.calls.append((w, p, v))
        if self.ctx.sym:
            return SymDM([[v]])
        return ca.DM(v)

    def value(self, w, p):
        p = [a for i, a in enumerate(p) if i not in self.skip]
        return self.ctx.opaque("comp", [w, p], 0, None)


@contextlib.contextmanager
def loose_validate():
    """option type checks see 0.5 in place of a symbolic number"""
    import nosnoc.nosnoc_opts as m
    orig = getattr(m, "validate", None)
    if orig is None:
        yield
        return

    def val(obj):
        keep = {k: v for k, v in obj.__dict__.items() if isinstance(v, (P, poly.LogP))}
        for k, v in keep.items():
            obj.__dict__[k] = 0.5
        try:
            return orig(obj)
        finally:
            obj.__dict__.update(keep)
    m.validate = val
    try:
        yield
    finally:
        m.validate = orig


_SLOT = {}


def slots(c):
    """(position of the relaxation parameter, of the second parameter) in the NLP's parameter vector"""
    key = c.label()
    if key not in _SLOT:
        with nlp.patched(symbolic=False), nlp.quiet():
            solver, d = nlp.construct(c)
        _SLOT[key] = _slots(solver)
    return _SLOT[key]


def _slots(solver):
    from spec import flat
    pr = solver.problem
    N = solver.solver.nlp
    nw, np_ = N["x"].numel(), N["p"].numel()
    names = [str(e) for e in ca.vertsplit(N["p"])]
    sig = tau = None
    if "sigma_p" in names:
        sig = names.index("sigma_p")
    if "tau" in names:
        tau = names.index("tau")
    if "g" in N and str(solver.opts.mpcc_mode).split(".")[-1].startswith("SCHOLTES"):
        wv = [poly.var(f"_w{i}") for i in range(nw)]
        pv = [poly.var(f"_p{i}") for i in range(np_)]
        fun = ca.Function("g", [N["x"], N["p"]], [ca.densify(N["g"])])
        T = {wv[i].vid() for i in flat(pr.ind_theta) + flat(pr.ind_alpha)}
        L = {wv[i].vid() for i in flat(pr.ind_lam) + flat(pr.ind_lambda_n) + flat(pr.ind_lambda_p)}
        pid = {v.vid(): i for i, v in enumerate(pv)}
        for row in sxvm.interpret(fun, [wv, pv])[0].flatten():
            row = poly.co(row)
            lin, prod = [], False
            for m, q in row.t.items():
                vs = [v for v, e in m for _ in range(e)]
                if len(vs) == 1 and vs[0] in pid and q == -1:
                    lin.append(pid[vs[0]])
                if len(vs) == 2 and (vs[0] in T and vs[1] in L or vs[1] in T and vs[0] in L):
                    prod = True
            if prod and len(lin) == 1:
                sig = lin[0]
                break
    return sig, tau


def build(ctx, c, opts=None, symbolic_inputs=True, symopts=None, tag=""):
    """real NosnocSolver with symbolic initial state and parameters (through the setters) and options"""
    opts = opts or nlp.make_opts(c)
    for k, v in (symopts or {}).items():
        setattr(opts, k, v)
    with loose_validate():
        solver, d = nlp.construct(c, opts=opts)
    pr = solver.problem
    if ctx.sym:
        pr.w0 = pr.w0.astype(object)
        pr.model.p_val_ctrl_stages = pr.model.p_val_ctrl_stages.astype(object)
    if symbolic_inputs:
        set_inputs(ctx, solver, d, tag)
    ctx.data.update(solver=solver, d=d)
    return solver, d


def inputs(ctx, d, N, tag=""):
    x0 = ctx.vec(tag + "x0_", d.nx)
    pg = ctx.arr([ctx.var(f"{tag}pg_{n}") for n in d.pg])
    tv = np.array([[ctx.var(f"{tag}tv_{m}_{i}") for m in d.tv] for i in range(N)],
                  dtype=object if ctx.sym else float).reshape(N, len(d.tv))
    return x0, pg, tv


def set_inputs(ctx, solver, d, tag=""):
    x0, pg, tv = inputs(ctx, d, solver.opts.N_stages, tag)
    solver.set("x0", x0)
    solver.set("p_global", pg)
    if d.tv:
        solver.set("p_time_var", tv)
    ctx.data.update(x0=x0, pg=pg, tv=tv)


# ------------------------------------------------------------------ exploration
LIBERR = (poly.ConcretisationError, NotImplementedError)


def explore(it, run, oracle, replay, key="", max_paths=600, box=None, timeout=10, allow_exc=None, reach=True):
    """run/oracle: scenario. replay: JSON-able description stored with a violation (dict).
    allow_exc(ctx, exc) -> list of Claims about an exception, or None (an exception is a violation)"""
    poly.reset()
    holder = {}

    def fn():
        ctx = Ctx()
        holder["ctx"] = ctx
        ex = symx._ACTIVE[-1]
        orig = ctx.assume

        class L(list):
            def append(self, c):
                ex.pc.append(c)
                list.append(self, c)
        ctx.assume = L(orig)
        run(ctx)
        return ctx

    ex = symx.Explorer(box=box or smt.Box(), max_paths=max_paths, timeout=timeout)
    found = {}
    exc_list = []

    def on_path(res, exc, e):
        ctx = holder["ctx"]
        ctx.exc = exc
        if exc is not None:
            cl = allow_exc(ctx, exc) if allow_exc else None
            if cl is None:
                if _liberr(exc) or _internal(exc):
                    it.undecided(f"{type(exc).__name__}: {str(exc)[:200]} at {_where(exc)}")
                    return
                cl = [Claim("exception:" + type(exc).__name__, f"raises {type(exc).__name__}: {str(exc)[:150]} at "
                            f"{_where(exc)}", False)]
        else:
            ctx.explorer = e
            cl = list(oracle(ctx))
        todo = []
        for c in cl:
            if isinstance(c.cond, (bool, np.bool_)):
                if c.cond:
                    it.ok()
                    smt.STATS.trivial += 1
                else:
                    todo.append((c, None))
            else:
                todo.append((c, c.cond))
        # all symbolic claims of the path in one query first
        symc = [c for c, x in todo if x is not None]
        if len(symc) > 1:
            r, m, enc = symx.solve_bools(e.pc + [lor(*[lnot(c.cond) for c in symc])], e.box, timeout)
            if r == "unsat":
                it.ok(len(symc))
                todo = [(c, x) for c, x in todo if x is None]
        for c, x in todo:
            if c.key in found and found[c.key] >= 2:
                it.r["obligations"] += 1
                continue
            r, m, enc = symx.solve_bools(e.pc + ([lnot(x)] if x is not None else []), e.box, timeout)
            if r == "unsat":
                it.ok()
                continue
            found[c.key] = found.get(c.key, 0) + 1
            if r == "sat":
                env, table = model_values(m, enc)
                rp = dict(replay, env=env, table=table, key=c.key)
                fail = concrete(run, oracle, rp, allow_exc)
                hit = [f for f in fail if f.key == c.key] or fail
                if hit:
                    found[c.key] = 2
                    it.violation(key + hit[0].key, f"{it.r['item']}: {hit[0].text}", rp)
                    continue
            it.undecided(f"{c.key}: {c.text} ({r}; not reproduced concretely)")
    try:
        ex.run(fn, on_path)
    except symx.PathExplosion as e:
        it.undecided(str(e))
    it.r["notes"].append(f"{ex.paths} paths")
    if reach and ex.paths:
        it.witness(1)
    return ex


def _liberr(exc):
    seen = 0
    while exc is not None and seen < 10:
        if isinstance(exc, LIBERR):
            return True
        exc = exc.__cause__ or exc.__context__
        seen += 1
    return False


def _internal(exc):
    """error raised inside the verification library (or by it not supporting an operation)"""
    import os
    import traceback
    tb = traceback.extract_tb(exc.__traceback__)
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    return bool(tb) and os.path.abspath(tb[-1].filename).startswith(root + os.sep) and not isinstance(exc, AssertionError)


def _where(exc):
    import os
    import traceback
    tb = traceback.extract_tb(exc.__traceback__)
    for f in reversed(tb):
        if os.sep + "nosnoc" + os.sep in f.filename:
            return f"{os.path.basename(f.filename)}:{f.lineno} {f.name}"
    return f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}" if tb else "?"


def model_values(m, enc):
    """z3 model -> (plain variables, opaque function table)"""
    import witness
    env, vals = {}, {}
    for v, a in enumerate(poly.ATOMS):
        if a.kind not in ("var", "uf"):
            continue
        x = None
        try:
            x = witness.modelval(m, enc, v)
        except Exception:
            x = None
        if x is None:
            if a.kind == "uf":
                continue
            lo = -1.0 if a.lo is None else float(a.lo)
            hi = 1.0 if a.hi is None else float(a.hi)
            x = lo + (hi - lo) * (0.15 + 0.7 * ((v * 37) % 83) / 83.0)
        vals[v] = float(x)
        if a.kind == "var":
            env[a.name] = float(x)
    table = []
    for v, a in enumerate(poly.ATOMS):
        if a.kind == "uf" and v in vals:
            try:
                table.append((a.data, [float(q.ev(vals)) for q in a.args], vals[v]))
            except KeyError:
                pass
    return env, table


def concrete(run, oracle, rp, allow_exc=None):
    """re-run on the values of a model; returns failing claims"""
    ctx = Ctx(env=dict(rp["env"]), table=[tuple(t) for t in rp.get("table", [])])
    try:
        run(ctx)
    except LIBERR as e:
        return []
    except symx_Infeasible:
        return []
    except Exception as e:
        ctx.exc = e
        cl = allow_exc(ctx, e) if allow_exc else None
        if cl is None:
            if _internal(e):
                return []
            return [Claim("exception:" + type(e).__name__, f"raises {type(e).__name__}: {str(e)[:150]} at {_where(e)}", False)]
        return [c for c in cl if not bool(c.cond)]
    return [c for c in oracle(ctx) if not bool(c.cond)]


symx_Infeasible = symx.Infeasible
