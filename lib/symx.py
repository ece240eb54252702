"""Forking symbolic execution of Python code over poly.P values.

`explore(fn, assume)` runs `fn` once per feasible combination of symbolic branch outcomes; each branch
is decided with z3 under the path condition (monomials of degree >= 2 first uninterpreted, then exact).
"""
from fractions import Fraction

import z3

import poly
import smt
from poly import SymBool
from smt import INF

_ACTIVE = []


class PathExplosion(Exception):
    pass


class Infeasible(BaseException):
    pass


def _collect(b, out):
    if b.op in ("and", "or"):
        for x in (b.a, b.b):
            if isinstance(x, SymBool):
                _collect(x, out)
    elif b.op == "not":
        _collect(b.a, out)
    elif b.op == "enum":
        pass
    else:
        out |= b.a.vars()


def to_z3(b, enc):
    if isinstance(b, bool):
        return z3.BoolVal(b)
    if b.op == "and":
        return z3.And(to_z3(b.a, enc), to_z3(b.b, enc))
    if b.op == "or":
        return z3.Or(to_z3(b.a, enc), to_z3(b.b, enc))
    if b.op == "not":
        return z3.Not(to_z3(b.a, enc))
    e = enc.poly(b.a)
    return {"<": e < 0, "<=": e <= 0, "==": e == 0, "!=": e != 0}[b.op]


def solve_bools(bs, box, timeout=10, nl=True):
    """satisfiability of a list of SymBool; returns ('sat'|'unsat'|'unknown', model, enc)"""
    vids = set()
    for b in bs:
        if isinstance(b, SymBool):
            _collect(b, vids)
    ax = smt.atom_axioms(vids)
    deg2 = False
    enc = smt.Enc(box, False)
    cs = [to_z3(b, enc) for b in bs] + [enc.fact(f) for f in ax]
    deg2 = bool(enc.m2z)
    r, m = smt.check(cs + enc.side, timeout, False)
    if r == "unsat" or not deg2 or not nl:
        return r, m, enc
    enc2 = smt.Enc(box, True)
    cs = [to_z3(b, enc2) for b in bs] + [enc2.fact(f) for f in ax]
    r2, m2 = smt.check(cs + enc2.side, timeout, True)
    return r2, m2, enc2


class Single:
    """execute one path; every branch must be determined by the assumptions"""

    def __init__(self, assume=(), box=None):
        self.pc = list(assume)
        self.box = box or smt.Box()

    def __enter__(self):
        _ACTIVE.append(self)
        return self

    def __exit__(self, *a):
        _ACTIVE.pop()

    def decide(self, b):
        if solve_bools(self.pc + [~b], self.box)[0] == "unsat":
            return True
        if solve_bools(self.pc + [b], self.box)[0] == "unsat":
            return False
        raise poly.ConcretisationError(f"undetermined branch {b!r}")


class Explorer:
    def __init__(self, assume=(), box=None, max_paths=2000, timeout=10):
        self.assume = list(assume)
        self.box = box or smt.Box()
        self.max_paths = max_paths
        self.timeout = timeout
        self.unknown = 0
        self.paths = 0

    def __enter__(self):
        _ACTIVE.append(self)
        return self

    def __exit__(self, *a):
        _ACTIVE.pop()

    def decide(self, b):
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            rt, _, _ = solve_bools(self.pc + [b], self.box, self.timeout)
            if rt == "unsat":
                d = (False, False)
            else:
                rf, _, _ = solve_bools(self.pc + [~b], self.box, self.timeout)
                if rf == "unsat":
                    d = (True, False)
                else:
                    d = (True, True)
                    if rt == "unknown" or rf == "unknown":
                        self.unknown += 1
        self.trace.append(d)
        self.pc.append(b if d[0] else ~b)
        return d[0]

    def run(self, fn, on_path):
        """fn() executed per path; on_path(result_or_exception, explorer) called at its end"""
        stack = [[]]
        while stack:
            self.prefix = stack.pop()
            self.trace = []
            self.pc = list(self.assume)
            self.paths += 1
            if self.paths > self.max_paths:
                raise PathExplosion(f"more than {self.max_paths} paths")
            exc = None
            res = None
            with self:
                try:
                    res = fn()
                except Infeasible:
                    continue
                except Exception as e:          # behaviour of the code under test
                    exc = e
            for k in range(len(self.prefix), len(self.trace)):
                d = self.trace[k]
                if d[1]:
                    stack.append(self.trace[:k] + [(not d[0], False)])
            on_path(res, exc, self)


def decide(b):
    if not _ACTIVE:
        raise poly.ConcretisationError(f"branch on symbolic condition outside an explorer: {b!r}")
    return _ACTIVE[-1].decide(b)
