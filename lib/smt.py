"""Solver front end: decide entailments between polynomial facts with z3.

Facts are `F(p, lo, hi)` meaning lo <= p <= hi over the reals, or `Or(list of lists of F)`.
`prove(facts, goal)` asks for a point with all facts and the negated goal.
 stage 1: every monomial of degree >= 2 is an uninterpreted real with interval bounds
          (a sound over-approximation: unsat here means unsat), on growing slices of the facts;
 stage 2: exact nonlinear arithmetic (nlsat) on the slice, with a time limit.
"""
import time
from fractions import Fraction

import numpy as np
import z3

import poly
from poly import P, ATOMS

INF = float("inf")
DEFAULT_BOX = (Fraction(-10), Fraction(10))


class F:
    __slots__ = ("p", "lo", "hi", "tag")

    def __init__(self, p, lo=0.0, hi=0.0, tag=""):
        self.p = poly.co(p)
        self.lo, self.hi, self.tag = lo, hi, tag

    def __repr__(self):
        return f"[{self.tag}] {self.lo} <= {self.p!r} <= {self.hi}"


class OrF:
    """disjunction of conjunctions"""
    __slots__ = ("alts", "tag")

    def __init__(self, alts, tag=""):
        self.alts, self.tag = alts, tag

    def monos(self):
        return {m for alt in self.alts for f in alt for m in f.p.t}


def fact_monos(f):
    return f.monos() if isinstance(f, OrF) else set(f.p.t)


def fact_vars(f):
    if isinstance(f, OrF):
        s = set()
        for alt in f.alts:
            for g in alt:
                s |= g.p.vars()
        return s
    return f.p.vars()


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.trivial = 0
        self.nra = 0
        self.vacuity = 0

    def add(self, o):
        for k in self.__dict__:
            setattr(self, k, getattr(self, k) + (o[k] if isinstance(o, dict) else getattr(o, k)))

    def dict(self):
        return dict(self.__dict__)


STATS = Stats()


def _imul(a, b):
    if a is None or b is None:
        return None
    xs = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
    return (min(xs), max(xs))


class Box:
    """intervals for variables/atoms; None = unbounded"""

    def __init__(self, bounds=None, default=DEFAULT_BOX):
        self.b = dict(bounds or {})
        self.default = default
        self.cache = {}

    def set(self, v, lo, hi):
        self.b[v] = (Fraction(lo), Fraction(hi))
        self.cache.clear()

    def iv(self, v):
        if v in self.b:
            return self.b[v]
        if v in self.cache:
            return self.cache[v]
        a = ATOMS[v]
        r = None
        if a.kind == "var":
            lo = self.default[0] if a.lo is None else Fraction(a.lo)
            hi = self.default[1] if a.hi is None else Fraction(a.hi)
            r = (lo, hi)
        elif a.kind == "fmax":
            ivs = [self.ivp(x) for x in a.args]
            if all(i is not None for i in ivs):
                r = (max(i[0] for i in ivs), max(i[1] for i in ivs))
        elif a.kind == "abs":
            i = self.ivp(a.args[0])
            if i is not None:
                r = (Fraction(0), max(abs(i[0]), abs(i[1])))
        elif a.kind == "sqrt":
            i = self.ivp(a.args[0])
            if i is not None:
                r = (Fraction(0), max(Fraction(1), i[1]))
        elif a.kind == "uf" and a.lo is None and a.hi is None:
            r = (Fraction(-10**6), Fraction(10**6))
        else:
            if a.lo is not None and a.hi is not None:
                r = (Fraction(a.lo), Fraction(a.hi))
        self.cache[v] = r
        return r

    def ivm(self, m):
        r = (Fraction(1), Fraction(1))
        for v, e in m:
            i = self.iv(v)
            if i is None:
                return None
            if e == 1:
                k = i
            elif e % 2 == 0:
                hi = max(abs(i[0]), abs(i[1])) ** e
                lo = Fraction(0) if i[0] <= 0 <= i[1] else min(abs(i[0]), abs(i[1])) ** e
                k = (lo, hi)
            else:
                k = (i[0] ** e, i[1] ** e)
            r = _imul(r, k)
        return r

    def ivp(self, p):
        lo = hi = Fraction(0)
        for m, c in p.t.items():
            i = self.ivm(m)
            if i is None:
                return None
            x = (i[0] * c, i[1] * c)
            lo += min(x)
            hi += max(x)
        return (lo, hi)


_AXMEMO = {}


def atom_axioms(vids):
    """defining facts of all atoms reachable from vids (recursively)"""
    out = []
    if _AXMEMO.get("n") is not ATOMS[0] if ATOMS else False:
        _AXMEMO.clear()
        _AXMEMO["n"] = ATOMS[0]
    seen = set()
    todo = list(vids)
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        a = ATOMS[v]
        if a.kind == "var":
            continue
        if v in _AXMEMO:
            out.extend(_AXMEMO[v])
            for y in a.args:
                todo.extend(y.vars())
            continue
        n0 = len(out)
        x = P({((v, 1),): Fraction(1)})
        if a.kind == "fmax":
            for y in a.args:
                out.append(F(x - y, 0, INF, "max>="))
            out.append(OrF([[F(x - y, 0, 0)] for y in a.args], "max-is-one"))
        elif a.kind == "abs":
            y = a.args[0]
            out.append(OrF([[F(y, 0, INF), F(x - y)], [F(y, -INF, 0), F(x + y)]], "abs"))
        elif a.kind == "sqrt":
            out.append(F(x * x - a.args[0], 0, 0, "sqrt^2"))
            out.append(F(x, 0, INF, "sqrt>=0"))
        elif a.kind == "inv":
            out.append(F(x * a.args[0] - 1, 0, 0, "inv"))
        elif a.kind == "sign":
            y = a.args[0]
            out.append(OrF([[F(y, 0, INF, "gt"), F(x, 1, 1)], [F(y, 0, 0), F(x, 0, 0)], [F(y, -INF, 0, "lt"), F(x, -1, -1)]],
                           "sign"))
        elif a.kind == "ite":
            c, y, n = a.args
            out.append(OrF([[F(c, 1, 1), F(x - y)], [F(c, 0, 0), F(x - n)]], "ite"))
        elif a.kind == "tanh":
            y = a.args[0]
            out.append(OrF([[F(y, 0, INF), F(x, 0, 1)], [F(y, -INF, 0), F(x, -1, 0)]], "tanh-sign"))
            out.append(OrF([[F(y, 0, INF), F(y - x, 0, INF)], [F(y, -INF, 0), F(y - x, -INF, 0)]], "tanh<=id"))
        elif a.kind == "exp":
            out.append(F(x, 0, INF, "exp>0"))
            out.append(F(x - a.args[0] - 1, 0, INF, "exp>=1+x"))
        elif a.kind == "pow" and a.args[1].is_const() and a.args[1].const() >= 1:
            y = a.args[0]
            out.append(F(x, 0, INF, "pow>=0"))
            out.append(OrF([[F(y, 1, INF), F(x - y, 0, INF)], [F(y, -INF, 1), F(x - y, -INF, 0)], [F(y, -INF, 0)]],
                           "pow-vs-id"))
        else:
            if a.lo is not None:
                out.append(F(x, a.lo, INF, a.kind + "-lo"))
            if a.hi is not None:
                out.append(F(x, -INF, a.hi, a.kind + "-hi"))
        _AXMEMO[v] = out[n0:]
        for y in a.args:
            for w in y.vars():
                todo.append(w)
    return out


_C = z3.main_ctx()
_CR = _C.ref()
_numcache = {}


def z3num(c):
    r = _numcache.get(c)
    if r is None:
        fr = c if isinstance(c, Fraction) else Fraction(float(c)) if not isinstance(c, int) else Fraction(c)
        r = z3.Q(fr.numerator, fr.denominator)
        if len(_numcache) < 200000:
            _numcache[c] = r
    return r


def _nary(mk, args):
    n = len(args)
    arr = (z3.Ast * n)()
    for i, x in enumerate(args):
        arr[i] = x.as_ast()
    return mk(_CR, n, arr)


def zsum(args):
    if len(args) == 1:
        return args[0]
    return z3.ArithRef(_nary(z3.Z3_mk_add, args), _C)


def zmul(a, b):
    return z3.ArithRef(_nary(z3.Z3_mk_mul, (a, b)), _C)


def zge(a, b):
    return z3.BoolRef(z3.Z3_mk_ge(_CR, a.as_ast(), b.as_ast()), _C)


def zle(a, b):
    return z3.BoolRef(z3.Z3_mk_le(_CR, a.as_ast(), b.as_ast()), _C)


class Enc:
    """one z3 encoding: linear abstraction (nl=False) or exact (nl=True); caches terms, and collects the
    interval and McCormick side constraints of the monomials used since `start()`"""

    def __init__(self, box, nl=False):
        self.box, self.nl = box, nl
        self.m2z = {}
        self.v2z = {}
        self.mside = {}
        self.pcache = {}
        self.start()

    def start(self):
        self.used = {}
        self.deg2 = False

    @property
    def side(self):
        out, done = [], set()
        while True:
            new = [k for k in self.used if k not in done]
            if not new:
                return out
            for k in new:
                done.add(k)
                out.extend(self._side(k))

    def _side(self, k):
        r = self.mside.get(k)
        if r is not None:
            for kk in r[1]:
                self.used[kk] = 1
            return r[0]
        out, extra = [], []
        if isinstance(k, int):
            z = self.v2z[k]
            i = self.box.iv(k)
            if i is not None:
                out = [zge(z, z3num(i[0])), zle(z, z3num(i[1]))]
        else:
            z = self.m2z[k]
            i = self.box.ivm(k)
            if i is not None:
                out = [zge(z, z3num(i[0])), zle(z, z3num(i[1]))]
            if len(k) == 2 and k[0][1] == 1 and k[1][1] == 1:
                va, vb = k[0][0], k[1][0]
                ia, ib = self.box.iv(va), self.box.iv(vb)
                if ia is not None and ib is not None:
                    a, b = self.zvar(va), self.zvar(vb)
                    extra = [va, vb]
                    (la, ua), (lb, ub) = ia, ib

                    def lin(p, q, r):
                        return zsum([zmul(z3num(p), b), zmul(z3num(q), a), z3num(-r)])
                    out += [zge(z, lin(la, lb, la * lb)), zge(z, lin(ua, ub, ua * ub)),
                            zle(z, lin(ua, lb, ua * lb)), zle(z, lin(la, ub, la * ub))]
        self.mside[k] = (out, extra)
        return out

    def zvar(self, v):
        z = self.v2z.get(v)
        if z is None:
            z = z3.Real(f"v{v}")
            self.v2z[v] = z
        self.used[v] = 1
        return z

    def mono(self, m):
        if len(m) == 1 and m[0][1] == 1:
            return self.zvar(m[0][0])
        self.deg2 = True
        if self.nl:
            z = None
            for v, e in m:
                for _ in range(e):
                    z = self.zvar(v) if z is None else zmul(z, self.zvar(v))
            return z
        z = self.m2z.get(m)
        if z is None:
            z = z3.Real("m" + "_".join(f"{v}.{e}" for v, e in m))
            self.m2z[m] = z
        self.used[m] = 1
        return z

    def poly(self, p):
        r = self.pcache.get(id(p))
        if r is not None and r[0] is p:
            self.used.update(r[2])
            self.deg2 = self.deg2 or r[3]
            return r[1]
        keep, kd = self.used, self.deg2
        self.used, self.deg2 = {}, False
        s = []
        for m, c in p.t.items():
            s.append(z3num(c) if not m else (self.mono(m) if c == 1 else zmul(z3num(c), self.mono(m))))
        e = zsum(s) if s else z3.Q(0, 1)
        self.pcache[id(p)] = (p, e, self.used, self.deg2)
        keep.update(self.used)
        self.used = keep
        self.deg2 = self.deg2 or kd
        return e

    def fact(self, f):
        if isinstance(f, OrF):
            return z3.Or([z3.And([self.fact(g) for g in alt]) for alt in f.alts])
        e = self.poly(f.p)
        if f.lo == f.hi:
            return e == z3num(f.lo)
        cs = []
        if f.lo != -INF:
            cs.append(e > z3num(f.lo) if f.tag == "gt" else zge(e, z3num(f.lo)))
        if f.hi != INF:
            cs.append(e < z3num(f.hi) if f.tag == "lt" else zle(e, z3num(f.hi)))
        return z3.And(cs) if len(cs) != 1 else cs[0]

    def neg(self, g, tol):
        """negation of goal F with tolerance, or of a list (conjunction) of goals"""
        if isinstance(g, (list, tuple)):
            return z3.Or([self.neg(x, tol) for x in g])
        if isinstance(g, OrF):
            return z3.And([z3.Or([self.neg(f, tol) for f in alt]) for alt in g.alts])
        e = self.poly(g.p)
        cs = []
        if g.lo != -INF:
            cs.append(e < z3num(Fraction(g.lo) - Fraction(tol)))
        if g.hi != INF:
            cs.append(e > z3num(Fraction(g.hi) + Fraction(tol)))
        return z3.Or(cs) if cs else z3.BoolVal(False)


def check(constraints, timeout, nl=False):
    t = time.time()
    if nl:
        s = z3.SolverFor("QF_NRA")
    else:
        s = z3.SolverFor("QF_LRA")
    s.set("timeout", int(timeout * 1000))
    s.add(*constraints)
    r = s.check()
    STATS.queries += 1
    STATS.time += time.time() - t
    if nl:
        STATS.nra += 1
    rs = str(r)
    setattr(STATS, rs, getattr(STATS, rs) + 1)
    return rs, (s.model() if r == z3.sat else None)


def _goal_polys(goal):
    if isinstance(goal, (list, tuple)):
        return [q for g in goal for q in _goal_polys(g)]
    if isinstance(goal, OrF):
        return [f.p for alt in goal.alts for f in alt]
    return [goal.p]


class Result:
    __slots__ = ("verdict", "stage", "model", "slice", "enc")

    def __init__(self, verdict, stage, model=None, slice_=None, enc=None):
        self.verdict, self.stage, self.model, self.slice, self.enc = verdict, stage, model, slice_, enc


class Prover:
    def __init__(self, facts, box, lemmas=None):
        """facts: list of F/OrF. lemmas: extra valid facts used only where they share monomials."""
        self.facts = list(facts)
        self.box = box
        self.index = {}
        self._mon = []
        self._enc = {}
        self._vids = {}
        for i, f in enumerate(self.facts):
            ms = fact_monos(f) - {()}
            self._mon.append(ms)
            for m in ms:
                self.index.setdefault(m, []).append(i)

    def add(self, f):
        i = len(self.facts)
        self.facts.append(f)
        ms = fact_monos(f) - {()}
        self._mon.append(ms)
        for m in ms:
            self.index.setdefault(m, []).append(i)

    def _hint(self, goal_polys):
        """least squares: combination of facts matching the goal polynomial (only a slice hint)"""
        if len(goal_polys) != 1:
            return None
        g = goal_polys[0]
        # candidate facts: closure over shared monomials, capped
        cand, seen_m = set(), set()
        frontier = [m for m in g.t if m]
        for _ in range(4):
            nxt = []
            for m in frontier:
                if m in seen_m:
                    continue
                seen_m.add(m)
                for i in self.index.get(m, ()):
                    if i not in cand and isinstance(self.facts[i], F):
                        cand.add(i)
                        nxt.extend(self._mon[i])
            frontier = nxt
            if len(cand) > 250:
                break
        if not cand:
            return None
        cand = sorted(cand)
        ms = set()
        for i in cand:
            ms |= self._mon[i]
        ms |= {m for m in g.t if m}
        if len(ms) > 4000:
            return None
        mi = {m: k for k, m in enumerate(ms)}
        A = np.zeros((len(ms), len(cand)))
        for j, i in enumerate(cand):
            for m, c in self.facts[i].p.t.items():
                if m:
                    A[mi[m], j] = float(c)
        b = np.zeros(len(ms))
        for m, c in g.t.items():
            if m:
                b[mi[m]] = float(c)
        x, *_ = np.linalg.lstsq(A, b, rcond=None)
        if np.max(np.abs(A @ x - b)) > 1e-6 * max(1.0, np.max(np.abs(b))):
            return None
        return [cand[j] for j in range(len(cand)) if abs(x[j]) > 1e-10]

    def _interval(self, g):
        i = self.box.ivp(g.p)
        return i is not None and (g.lo == -INF or i[0] >= g.lo - 1e-9) and (g.hi == INF or i[1] <= g.hi + 1e-9)

    def slices(self, goal):
        gp = _goal_polys(goal)
        if isinstance(goal, F) and self._interval(goal) or any(
                ATOMS[v].kind != "var" for g in gp for v in g.vars()):
            yield []
        h = self._hint(gp)
        if h:
            yield h
        ms = {m for g in gp for m in g.t if m}
        s1 = sorted({i for m in ms for i in self.index.get(m, ())})
        if s1 and len(s1) <= 150:
            yield s1
        # transitive closure via monomials
        cand = set(s1)
        seen = set(ms)
        frontier = {m for i in s1 for m in self._mon[i]} - seen
        while frontier:
            new = {i for m in frontier for i in self.index.get(m, ())} - cand
            seen |= frontier
            cand |= new
            frontier = {m for i in new for m in self._mon[i]} - seen
        # variables' own facts too
        if len(cand) > len(s1):
            yield sorted(cand)
        # everything sharing variables
        vs = {v for g in gp for v in g.vars()}
        allv = sorted(i for i, f in enumerate(self.facts) if fact_vars(f) & vs)
        full = sorted(set(allv) | cand)
        yield full

    def _products(self, goal, rounds=3, cap=900):
        if not hasattr(self, "_lin"):
            # variables occurring linearly with a constant coefficient in an equality fact
            self._lin = {}
            for i, f in enumerate(self.facts):
                if isinstance(f, F) and f.lo == f.hi:
                    for m in f.p.t:
                        if len(m) == 1 and m[0][1] == 1:
                            self._lin.setdefault(m[0][0], []).append(i)
        out, done = [], set()
        monos = {m for g in _goal_polys(goal) for m in g.t}
        for _ in range(rounds):
            new = set()
            for m in monos:
                if len(m) < 2 and (not m or m[0][1] == 1):
                    continue
                for k, (v, e) in enumerate(m):
                    rows = self._lin.get(v, ())
                    if len(rows) > 16:
                        continue
                    cof = m[:k] + (((v, e - 1),) if e > 1 else ()) + m[k + 1:]
                    for i in rows:
                        if (i, cof) in done or len(out) >= cap:
                            continue
                        done.add((i, cof))
                        q = self.facts[i].p * P({cof: Fraction(1)})
                        if self.facts[i].lo:
                            q = q - P({cof: Fraction(self.facts[i].lo)})
                        out.append(F(q, 0, 0, "product"))
                        new |= set(q.t)
            monos = new
            if len(out) >= cap:
                break
        return out

    def query(self, idx, goal, tol, nl, timeout, extra=()):
        enc = self._enc.get(nl)
        if enc is None:
            enc = self._enc[nl] = Enc(self.box, nl)
        enc.start()
        vids = set()
        fs = []
        for i in idx:
            f = self.facts[i]
            vs = self._vids.get(i)
            if vs is None:
                vs = self._vids[i] = fact_vars(f)
            vids |= vs
            fs.append(f)
        for f in extra:
            vids |= fact_vars(f)
            fs.append(f)
        for g in _goal_polys(goal):
            vids |= g.vars()
        ax = atom_axioms(vids)
        cs = [enc.fact(f) for f in fs]
        cs += [enc.fact(f) for f in ax]
        cs.append(enc.neg(goal, tol))
        cs += enc.side
        v, mdl = check(cs, timeout, nl)
        return v, mdl, enc

    def prove(self, goal, tol=1e-6, timeout=20, nra_timeout=0, extra=()):
        """-> Result(verdict in 'holds','fails?','unknown')"""
        if isinstance(goal, F) and goal.p.is_const():
            c = goal.p.const()
            lo = -INF if goal.lo == -INF else Fraction(goal.lo) - Fraction(tol)
            hi = INF if goal.hi == INF else Fraction(goal.hi) + Fraction(tol)
            STATS.trivial += 1
            if lo <= c <= hi:
                return Result("holds", "const")
        last = None
        lastidx = []
        seen = set()
        for idx in self.slices(goal):
            k = tuple(idx)
            if k in seen:
                continue
            seen.add(k)
            v, mdl, enc = self.query(idx, goal, tol, False, timeout, extra)
            if v == "unsat":
                return Result("holds", "lra", slice_=idx)
            last, lastidx = (v, mdl, enc), idx
        # equality rows times monomials (one Groebner-like reduction step), for polynomial substitution
        mult = self._products(goal)
        if mult:
            for idx in ([], lastidx):
                v, mdl, enc = self.query(idx, goal, tol, False, timeout, list(extra) + mult)
                if v == "unsat":
                    return Result("holds", "lra+products", slice_=idx)
        if nra_timeout:
            for idx in list(seen):
                if len(idx) > 60:
                    continue
                v, mdl, enc = self.query(list(idx), goal, tol, True, nra_timeout, extra)
                if v == "unsat":
                    return Result("holds", "nra", slice_=list(idx))
        v, mdl, enc = last
        return Result("fails?" if v == "sat" else "unknown", "lra", mdl, lastidx, enc)
