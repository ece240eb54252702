"""Interpret CasADi SX functions over symbolic reals (poly.P), and symbolic matrices.

The program interpreted is CasADi's own instruction list for the function that the library built, so
the encoding is regenerated from the current source on every run.
"""
import casadi as ca
import numpy as np

import poly
from poly import P, co

STATS = {"functions": {}, "instructions": 0}


def _not01(x):
    return P.c(1) - x


_OPNAMES = {getattr(ca, n): n for n in dir(ca) if n.startswith("OP_") and isinstance(getattr(ca, n), int)}


def _unary(op, x):
    n = _OPNAMES[op]
    if n == "OP_ASSIGN":
        return x
    if n == "OP_NEG":
        return -x
    if n == "OP_SQ":
        return x * x
    if n == "OP_TWICE":
        return x + x
    if n == "OP_INV":
        return P.c(1) / x
    if n == "OP_SQRT":
        return poly.sqrt(x)
    if n == "OP_FABS":
        return poly.fabs(x)
    if n == "OP_SIGN":
        return poly.sign(x)
    if n in ("OP_TANH", "OP_SIN", "OP_COS", "OP_EXP", "OP_LOG", "OP_TAN", "OP_ATAN", "OP_ASIN", "OP_ACOS",
             "OP_SINH", "OP_COSH"):
        return poly.func(n[3:].lower(), x)
    raise NotImplementedError(f"unary {n}")


def _binary(op, x, y):
    n = _OPNAMES[op]
    if n == "OP_ADD":
        return x + y
    if n == "OP_SUB":
        return x - y
    if n == "OP_MUL":
        return x * y
    if n == "OP_DIV":
        return x / y
    if n == "OP_FMAX":
        return poly.fmax(x, y)
    if n == "OP_FMIN":
        return poly.fmin(x, y)
    if n in ("OP_POW", "OP_CONSTPOW"):
        return x ** y
    if n == "OP_IF_ELSE_ZERO":
        return poly.ite(x, y, P.c(0))
    raise NotImplementedError(f"binary {n}")


def interpret(f, args, opaque=False):
    """args: list of flat lists (dense column-major) of P/numbers per input.
    returns list of object ndarrays (column-major shaped)"""
    n_out = f.n_out()
    if opaque:
        flat = [a for arg in args for a in arg]
        outs = []
        for o in range(n_out):
            sh = f.size_out(o)
            a = np.empty(sh, dtype=object)
            for j in range(sh[1]):
                for i in range(sh[0]):
                    a[i, j] = poly.uf(f"{f.name()}_{o}_{i}_{j}", flat)
            outs.append(a)
        return outs
    STATS["functions"][f.name()] = STATS["functions"].get(f.name(), 0) + 1
    w = [None] * (f.sz_w() + 1)
    ins = []
    for i in range(f.n_in()):
        sp = f.sparsity_in(i)
        a = args[i]
        if sp.is_dense():
            ins.append(a)
        else:
            rows, cols = sp.get_triplet()
            ins.append([a[r + c * sp.size1()] for r, c in zip(rows, cols)])
    outnz = [[P({})] * f.nnz_out(i) for i in range(n_out)]
    ninstr = f.n_instructions()
    STATS["instructions"] += ninstr
    OPC, OPI, OPO = ca.OP_CONST, ca.OP_INPUT, ca.OP_OUTPUT
    for k in range(ninstr):
        op = f.instruction_id(k)
        if op == OPC:
            w[f.instruction_output(k)[0]] = P.c(f.instruction_constant(k))
        elif op == OPI:
            i = f.instruction_input(k)
            w[f.instruction_output(k)[0]] = co(ins[i[0]][i[1]])
        elif op == OPO:
            o = f.instruction_output(k)
            outnz[o[0]][o[1]] = w[f.instruction_input(k)[0]]
        else:
            i = f.instruction_input(k)
            o = f.instruction_output(k)
            if len(i) == 1:
                w[o[0]] = _unary(op, w[i[0]])
            else:
                w[o[0]] = _binary(op, w[i[0]], w[i[1]])
    outs = []
    for o in range(n_out):
        sh = f.size_out(o)
        a = np.empty(sh, dtype=object)
        for j in range(sh[1]):
            for i in range(sh[0]):
                a[i, j] = P({})
        rows, cols = f.sparsity_out(o).get_triplet()
        for nz, (r, c) in enumerate(zip(rows, cols)):
            a[r, c] = outnz[o][nz]
        outs.append(a)
    return outs


def sx_to_polys(expr, syms, vals):
    """expr: SX; syms: list of SX vectors; vals: list of lists of P"""
    f = ca.Function("expr", syms, [ca.densify(expr)])
    return interpret(f, vals)[0]


class SymDM:
    """stand-in for a casadi DM holding symbolic reals"""

    def __init__(self, arr):
        a = np.array(arr, dtype=object)
        if a.ndim == 0:
            a = a.reshape(1, 1)
        elif a.ndim == 1:
            a = a.reshape(-1, 1)
        self.a = a

    @property
    def shape(self):
        return self.a.shape

    def full(self):
        return self.a.copy()

    def toarray(self, simplify=False):
        return self.a.copy()

    def __array__(self, dtype=None, copy=None):
        return self.a.copy()

    def elements(self):
        return list(self.a.flatten("F"))

    def numel(self):
        return self.a.size

    def size1(self):
        return self.a.shape[0]

    def size2(self):
        return self.a.shape[1]

    def __len__(self):
        return self.a.shape[0]

    def __getitem__(self, k):
        if isinstance(k, tuple):
            r = self.a[k]
        elif isinstance(k, (int, np.integer)):
            r = self.a.flatten("F")[k]
        else:
            r = self.a.flatten("F")[k if not isinstance(k, range) else list(k)]
        return SymDM(r)

    def __setitem__(self, k, v):
        v = v.a if isinstance(v, SymDM) else v
        if isinstance(k, tuple):
            self.a[k] = v
        else:
            self.a[k, 0] = np.asarray(v, dtype=object).flatten() if np.ndim(v) else v

    def _bin(self, o, f):
        b = o.a if isinstance(o, SymDM) else o
        if isinstance(b, ca.DM):
            b = b.full()
        if isinstance(b, np.ndarray) and b.ndim == 1:
            b = b.reshape(-1, 1)
        return SymDM(f(self.a, b))

    def __add__(self, o):
        return self._bin(o, lambda x, y: x + y)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._bin(o, lambda x, y: y - x)

    def __mul__(self, o):
        return self._bin(o, lambda x, y: x * y)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda x, y: x / y)

    def __neg__(self):
        return SymDM(-self.a)

    @property
    def T(self):
        return SymDM(self.a.T)

    def __float__(self):
        return float(self.a[0, 0])

    def __repr__(self):
        return f"SymDM({self.a!r})"

    __array_priority__ = 2000.0


def to_flat(x, shape):
    """argument of a casadi call -> flat column-major list of P/number of that shape"""
    if isinstance(x, SymDM):
        a = x.a
    elif isinstance(x, ca.DM):
        a = x.full()
    elif isinstance(x, (P, int, float, np.generic)):
        a = np.array([[x]], dtype=object)
    else:
        a = np.array(x, dtype=object)
        if a.ndim == 0:
            a = a.reshape(1, 1)
        elif a.ndim == 1:
            a = a.reshape(-1, 1)
    n = shape[0] * shape[1]
    if a.size == n:
        return list(a.flatten("F"))
    if a.size == 1 and n > 1:
        return [a.flat[0]] * n
    if a.size == 0:
        return [0.0] * n
    raise RuntimeError(f"dimension mismatch: got {a.shape}, expected {shape}")


# ------------------------------------------------------------- P -> casadi
def to_sx(p, mp):
    """P -> SX with mp: vid -> SX for plain variables (uf atoms too)"""
    cache = {}

    def vexp(v):
        if v in mp:
            return mp[v]
        if v in cache:
            return cache[v]
        a = poly.ATOMS[v]
        args = [conv(x) for x in a.args]
        k = a.kind
        if k == "sqrt":
            r = ca.sqrt(ca.fmax(args[0], 0))
        elif k == "fmax":
            r = args[0]
            for y in args[1:]:
                r = ca.fmax(r, y)
        elif k == "abs":
            r = ca.fabs(args[0])
        elif k == "inv":
            r = 1 / args[0]
        elif k == "pow":
            r = args[0] ** args[1]
        elif k == "sign":
            r = ca.sign(args[0])
        elif k == "ite":
            r = ca.if_else(args[0] != 0, args[1], args[2])
        elif k in ("var", "uf"):
            raise KeyError(a.name)
        else:
            r = getattr(ca, k)(args[0])
        cache[v] = r
        return r

    def conv(q):
        s = ca.SX(0)
        for m, c in q.t.items():
            x = ca.SX(float(c))
            for v, e in m:
                x = x * (vexp(v) ** e if e > 1 else vexp(v))
            s = s + x
        return s
    return conv(p)
