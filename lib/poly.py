"""Exact symbolic reals: polynomials with rational coefficients over variables and opaque atoms.

`P` behaves like a number (also inside numpy object arrays), so the real Python code can be executed
on it.  Non-polynomial operations (max, abs, sqrt, division, tanh, ...) become atoms: fresh variables
keyed by operation and (canonical) arguments, whose defining axioms are handed to the solver.
Comparisons give `SymBool`; taking the truth value of one asks the active path explorer (symx.py).
"""
import math
import numbers
from fractions import Fraction

import numpy as np


class ConcretisationError(Exception):
    """The code under analysis wants a machine number where we have a symbol."""


class Atom:
    __slots__ = ("vid", "kind", "name", "args", "lo", "hi", "key", "data")

    def __init__(self, vid, kind, name, args, lo, hi, key, data=None):
        self.vid, self.kind, self.name, self.args = vid, kind, name, args
        self.lo, self.hi, self.key, self.data = lo, hi, key, data

    def __repr__(self):
        return self.name


ATOMS = []          # vid -> Atom
_BYKEY = {}


def reset():
    ATOMS.clear()
    _BYKEY.clear()


def _atom(kind, name, args, lo=None, hi=None, key=None, data=None):
    if key is not None:
        k = (kind, key)
        if k in _BYKEY:
            return _BYKEY[k]
    a = Atom(len(ATOMS), kind, name or f"{kind}#{len(ATOMS)}", args, lo, hi, key, data)
    ATOMS.append(a)
    if key is not None:
        _BYKEY[(kind, key)] = a
    return a


def var(name, lo=None, hi=None):
    """A fresh (or the already existing) variable of that name."""
    a = _atom("var", name, (), lo, hi, key=name)
    return P({((a.vid, 1),): Fraction(1)})


def _sig(c):
    """coefficient rounded to 12 significant digits, for atom keys only"""
    f = float(c)
    if f == 0:
        return "0"
    return f"{f:.11e}"


def frac(v):
    if isinstance(v, Fraction):
        return v
    if isinstance(v, (bool, np.bool_)):
        return Fraction(int(v))
    if isinstance(v, (int, np.integer)):
        return Fraction(int(v))
    f = float(v)
    if math.isinf(f) or math.isnan(f):
        raise ConcretisationError(f"non-finite constant {f}")
    return Fraction(f)


_CUR = None   # active explorer (set by symx)


MAXINT = 40


class LogP:
    """positive number exp(e) with symbolic exponent e (products, quotients and powers stay exact)"""

    def __init__(self, e):
        self.e = co(e)

    @staticmethod
    def _e(o):
        if isinstance(o, LogP):
            return o.e
        if isinstance(o, (int, float, np.generic)) and o > 0:
            return P.c(math.log(o))
        return None

    def __mul__(self, o):
        e = LogP._e(o)
        return NotImplemented if e is None else LogP(self.e + e)
    __rmul__ = __mul__

    def __truediv__(self, o):
        e = LogP._e(o)
        return NotImplemented if e is None else LogP(self.e - e)

    def __rtruediv__(self, o):
        e = LogP._e(o)
        return NotImplemented if e is None else LogP(e - self.e)

    def __pow__(self, k):
        return LogP(self.e * k)

    def log(self):
        return self.e

    def log10(self):
        return self.e / math.log(10)

    def _cmp(self, o, f):
        if isinstance(o, (int, float, np.generic)) and o <= 0:
            return f(1, 0)
        e = LogP._e(o)
        return NotImplemented if e is None else f(self.e, e)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __float__(self):
        raise ConcretisationError("float() of symbolic value")
    __int__ = __float__


class SymBool:
    """lhs REL 0 with REL in '<', '<=', '==', '!=' ; or and/or/not combination"""
    __slots__ = ("op", "a", "b")

    def __init__(self, op, a, b=None):
        self.op, self.a, self.b = op, a, b

    def __bool__(self):
        import symx
        return symx.decide(self)

    def __invert__(self):
        return SymBool("not", self)

    def __and__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else False
        return SymBool("and", self, o)
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return True if o else self
        return SymBool("or", self, o)
    __ror__ = __or__

    def __repr__(self):
        if self.op in ("and", "or"):
            return f"({self.a!r} {self.op} {self.b!r})"
        if self.op == "not":
            return f"not({self.a!r})"
        return f"({self.a!r} {self.op} 0)"


def _cmp(op, p):
    if p.is_const():
        c = p.const()
        return {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0}[op]
    return SymBool(op, p)


def _mulmono(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


INF = float("inf")


class P:
    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = t if t is not None else {}

    # ---- basics
    @staticmethod
    def c(v):
        f = frac(v)
        return P({(): f}) if f else P({})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), Fraction(0))

    def vars(self):
        s = set()
        for m in self.t:
            for v, _ in m:
                s.add(v)
        return s

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)

    def key(self):
        return tuple(sorted((m, _sig(c)) for m, c in self.t.items()))

    def is_var(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return c == 1 and len(m) == 1 and m[0][1] == 1
        return False

    def vid(self):
        (m, c), = self.t.items()
        return m[0][0]

    # ---- arithmetic
    def _co(o):
        if isinstance(o, P):
            return o
        if isinstance(o, numbers.Number) or isinstance(o, (np.generic,)):
            return P.c(o)
        if isinstance(o, np.ndarray) and o.ndim == 0:
            return P._co(o.item())
        return None

    def __add__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return o
        q = P._co(o)
        if q is None:
            return NotImplemented
        if len(q.t) > len(self.t):
            a, b = q.t, self.t
        else:
            a, b = self.t, q.t
        r = dict(a)
        for m, c in b.items():
            n = r.get(m)
            if n is None:
                r[m] = c
            else:
                n = n + c
                if n:
                    r[m] = n
                else:
                    del r[m]
        return P(r)
    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return -o
        q = P._co(o)
        if q is None:
            return NotImplemented
        return self + (-q)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        q = P._co(o)
        if q is None:
            return NotImplemented
        if q.is_const():
            c = q.const()
            if not c:
                return P({})
            if c == 1:
                return self
            return P({m: k * c for m, k in self.t.items()})
        if self.is_const():
            return q * self.const()
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in q.t.items():
                m = _mulmono(m1, m2)
                n = r.get(m)
                r[m] = c1 * c2 if n is None else n + c1 * c2
        return P({m: c for m, c in r.items() if c})
    __rmul__ = __mul__

    def __truediv__(self, o):
        q = P._co(o)
        if q is None:
            return NotImplemented
        if q.is_const():
            if not q.const():
                raise ZeroDivisionError
            return self * (1 / q.const())
        return self * inv(q)

    def __rtruediv__(self, o):
        q = P._co(o)
        if q is None:
            return NotImplemented
        return q / self

    def __pow__(self, e):
        if isinstance(e, P):
            if not e.is_const():
                return power(self, e)
            e = e.const()
        e = frac(e)
        if self.is_const() and not (e.denominator == 1 and e >= 0):
            return P.c(float(self.const()) ** float(e))
        if e.denominator == 1 and 0 <= e <= 8:
            r = P.c(1)
            for _ in range(int(e)):
                r = r * self
            return r
        if e.denominator == 1 and e < 0:
            return inv(self ** (-e))
        if e == Fraction(1, 2):
            return sqrt(self)
        return power(self, P.c(e))

    def __rpow__(self, b):
        return power(P._co(b), self)

    def __abs__(self):
        return fabs(self)

    # ---- rounding forks over the integer result (bounded)
    def _integer(self, lo_of):
        if self.is_const():
            return None
        for j in range(-1, MAXINT + 1):
            if bool(self < lo_of(j)):
                return P.c(j)
        raise ConcretisationError(f"integer value above {MAXINT}")

    def rint(self):
        r = self._integer(lambda j: j + 0.5)
        return P.c(round(float(self.const()))) if r is None else r

    def round(self, decimals=0, out=None):
        return self.rint()

    def floor(self):
        r = self._integer(lambda j: j + 1)
        return P.c(math.floor(self.const())) if r is None else r

    def ceil(self):
        return -(-self).floor() if self.is_const() else P.c(1) + (self._integer(lambda j: j + 1) if not bool(self <= 0) else P.c(-1))
    __floor__ = floor
    __ceil__ = ceil

    # ---- numpy ufunc fallbacks on object arrays call these
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return func("exp", self)

    def log(self):
        return func("log", self)

    def tanh(self):
        return func("tanh", self)

    def sin(self):
        return func("sin", self)

    def cos(self):
        return func("cos", self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def item(self):
        return self

    # ---- comparisons
    def __lt__(self, o):
        return self._rel("<", o)

    def __le__(self, o):
        return self._rel("<=", o)

    def __gt__(self, o):
        return self._rel(">", o)

    def __ge__(self, o):
        return self._rel(">=", o)

    def _rel(self, op, o):
        if isinstance(o, np.ndarray):
            return np.array([bool(self._rel(op, e)) for e in o.flat], dtype=bool).reshape(o.shape)
        if isinstance(o, (float, np.floating)) and math.isinf(o):
            return {"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0}[op]
        if isinstance(o, (float, np.floating)) and math.isnan(o):
            return False
        q = P._co(o)
        if q is None:
            return NotImplemented
        if op == "<":
            return _cmp("<", self - q)
        if op == "<=":
            return _cmp("<=", self - q)
        if op == ">":
            return _cmp("<", q - self)
        return _cmp("<=", q - self)

    def __eq__(self, o):
        if isinstance(o, (float, np.floating)) and not math.isfinite(o):
            return False
        q = P._co(o)
        if q is None:
            return NotImplemented if isinstance(o, np.ndarray) else False
        return _cmp("==", self - q)

    def __ne__(self, o):
        if isinstance(o, (float, np.floating)) and not math.isfinite(o):
            return True
        q = P._co(o)
        if q is None:
            return NotImplemented if isinstance(o, np.ndarray) else True
        return _cmp("!=", self - q)

    __hash__ = object.__hash__

    def __bool__(self):
        r = _cmp("!=", self)
        return bool(r)

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise ConcretisationError(f"float() of symbolic value {self!r}")

    def __int__(self):
        if self.is_const():
            return int(self.const())
        raise ConcretisationError(f"int() of symbolic value {self!r}")

    def __round__(self, n=None):
        if self.is_const():
            return round(float(self.const()), n) if n is not None else round(float(self.const()))
        raise ConcretisationError("round() of symbolic value")

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in list(self.t.items())[:12]:
            ms = "*".join(ATOMS[v].name + (f"^{e}" if e > 1 else "") for v, e in m)
            cs = f"{float(c):.6g}"
            out.append(ms if (c == 1 and ms) else (cs + ("*" + ms if ms else "")))
        return " + ".join(out) + (f" ...[{len(self.t)}]" if len(self.t) > 12 else "")

    def __format__(self, spec):
        if self.is_const() and spec:
            return format(float(self.const()), spec)
        return repr(self)

    # ---- evaluation / substitution
    def ev(self, env):
        """value under env: vid -> number; atoms are computed from their arguments"""
        s = 0
        for m, c in self.t.items():
            x = c if isinstance(next(iter(env.values()), 0.0), Fraction) else float(c)
            for v, e in m:
                x = x * atom_value(v, env) ** e
            s = s + x
        return s

    def subs(self, mp):
        """substitute vid -> P (only listed vids; atoms are rebuilt when their arguments change)"""
        if not any(_touches(v, mp) for v in self.vars()):
            return self
        r = P({})
        for m, c in self.t.items():
            x = P.c(c)
            for v, e in m:
                x = x * (_subs_vid(v, mp) ** e)
            r = r + x
        return r


def _touches(v, mp):
    if v in mp:
        return True
    return any(_touches(w, mp) for a in ATOMS[v].args for w in a.vars())


def _subs_vid(v, mp):
    if v in mp:
        return P._co(mp[v])
    a = ATOMS[v]
    if not a.args or not _touches(v, mp):
        return P({((v, 1),): Fraction(1)})
    return rebuild(a, [x.subs(mp) for x in a.args])


def rebuild(a, args):
    k = a.kind
    if k == "sqrt":
        return sqrt(args[0])
    if k == "fmax":
        return fmax(*args)
    if k == "abs":
        return fabs(args[0])
    if k == "inv":
        return inv(args[0])
    if k == "pow":
        return power(*args)
    if k == "ite":
        return ite(*args)
    if k == "sign":
        return sign(args[0])
    if k == "uf":
        return uf(a.data, args)
    return func(k, args[0])


def atom_value(v, env):
    if v in env:
        return env[v]
    a = ATOMS[v]
    if a.kind == "var":
        raise KeyError(f"no value for {a.name}")
    args = [float(x.ev(env)) for x in a.args]
    k = a.kind
    if k == "sqrt":
        r = math.sqrt(max(args[0], 0.0))
    elif k == "fmax":
        r = max(args)
    elif k == "abs":
        r = abs(args[0])
    elif k == "inv":
        r = 1.0 / args[0]
    elif k == "pow":
        r = args[0] ** args[1]
    elif k == "sign":
        r = float(np.sign(args[0]))
    elif k == "ite":
        r = args[1] if args[0] != 0 else args[2]
    elif k == "uf":
        raise KeyError(f"no value for {a.name}")
    else:
        r = getattr(math, k)(args[0])
    return r


# ---------------------------------------------------------------- atoms
def _p(a):
    return P({((a.vid, 1),): Fraction(1)})


def co(x):
    q = P._co(x)
    if q is None:
        raise TypeError(f"cannot make a symbolic real of {type(x)}")
    return q


def sqrt(x):
    x = co(x)
    if x.is_const():
        return P.c(math.sqrt(x.const()))
    # sqrt(v^2k) of a single even monomial with nonneg base is left to the solver
    return _p(_atom("sqrt", None, (x,), 0, None, key=x.key()))


def fabs(x):
    x = co(x)
    if x.is_const():
        return P.c(abs(x.const()))
    k1, k2 = x.key(), (-x).key()
    if k2 < k1:
        x, k1 = -x, k2
    return _p(_atom("abs", None, (x,), 0, None, key=k1))


def sign(x):
    x = co(x)
    if x.is_const():
        c = x.const()
        return P.c((c > 0) - (c < 0))
    return _p(_atom("sign", None, (x,), -1, 1, key=x.key()))


def fmax(*xs):
    """n-ary max, flattened and duplicate-free"""
    args = {}
    const = None
    for x in xs:
        x = co(x)
        if x.is_const():
            const = x.const() if const is None else max(const, x.const())
            continue
        if x.is_var() and ATOMS[x.vid()].kind == "fmax":
            for y in ATOMS[x.vid()].args:
                if y.is_const():
                    const = y.const() if const is None else max(const, y.const())
                else:
                    args[y.key()] = y
            continue
        args[x.key()] = x
    if not args:
        return P.c(const)
    if const is not None:
        args[("c", _sig(const))] = P.c(const)
    if len(args) == 1:
        return next(iter(args.values()))
    ks = sorted(args, key=repr)
    return _p(_atom("fmax", None, tuple(args[k] for k in ks), None, None, key=tuple(ks)))


def fmin(*xs):
    return -fmax(*[-co(x) for x in xs])


def inv(x):
    x = co(x)
    if x.is_const():
        return P.c(1 / x.const())
    # normalise the leading coefficient
    ks = sorted(x.t)
    lead = x.t[ks[0]]
    y = x * (1 / lead)
    return _p(_atom("inv", None, (y,), None, None, key=y.key())) * (1 / lead)


def power(x, e):
    x, e = co(x), co(e)
    if x.is_const() and e.is_const():
        return P.c(float(x.const()) ** float(e.const()))
    return _p(_atom("pow", None, (x, e), 0, None, key=(x.key(), e.key())))


def func(name, x):
    x = co(x)
    if x.is_const():
        return P.c(getattr(math, name)(float(x.const())))
    lo, hi = {"tanh": (-1, 1), "sin": (-1, 1), "cos": (-1, 1), "exp": (0, None)}.get(name, (None, None))
    return _p(_atom(name, None, (x,), lo, hi, key=x.key()))


def ite(c, a, b):
    """c is a P that is 0/1 valued"""
    c, a, b = co(c), co(a), co(b)
    if c.is_const():
        return a if c.const() != 0 else b
    if a.key() == b.key():
        return a
    return _p(_atom("ite", None, (c, a, b), None, None, key=(c.key(), a.key(), b.key())))


def uf(tag, args, lo=None, hi=None):
    """uninterpreted function of the arguments"""
    args = tuple(co(a) for a in args)
    return _p(_atom("uf", f"{tag}#{len(ATOMS)}", args, lo, hi, key=(tag, tuple(a.key() for a in args)), data=tag))


def is_sym(x):
    return isinstance(x, (P, SymBool))


def has_sym(x):
    if isinstance(x, P):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(e, P) for e in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return type(x).__name__ == "SymDM"
