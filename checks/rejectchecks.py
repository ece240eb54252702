"""C29: malformed models, problems and options are rejected when the solver is built.

The real constructors and preprocessing run on data whose LENGTH is symbolic (a vector knows its values but its length is an
integer unknown in 0..5), whose shapes and presence are nondeterministic, and on options whose value is a nondeterministic
choice among all kinds of Python values.  Every branch on a length is decided by z3 under the path condition; on every path on
which the solver object is built, z3 must refute that some length is inconsistent."""
import builtins
import contextlib
import dataclasses
import enum

import casadi as ca
import numpy as np

import configs
import engineb as eb
import models
import nlp
import poly
import runner
import nosnoc
from engineb import Claim, land, lor, lnot
from poly import P

LMAX = 5


def info(prop):
    return dict(
        explanation="construction of the solver is executed symbolically with vectors and sign matrices of symbolic length, "
                    "nondeterministic presence of the region descriptions, nondeterministic shapes of the switching system and "
                    "nondeterministic option values; on every path that ends with a solver object z3 shows that all lengths and "
                    "shapes are consistent",
        bounds=f"lengths 0..{LMAX}, systems 1..2, modes 1..3, up to 3 switching functions, option values from "
               "{None, text, bool, int, float, list, dict, array, own and foreign enum members}; enumerated: Stewart/Step, "
               "representation, scheme, with and without step lengths as variables, 1-2 control stages",
        assumptions=["casadi.nlpsol is replaced by a recorder", "a rejection is any exception raised by the constructors"])


# ------------------------------------------------------------------ vectors of symbolic length
class Lazy:
    """array whose shape is symbolic; any use other than its shape/length decides the shape (by forking)"""
    __array_priority__ = 1000

    def __init__(self, ctx, name, ndim, fill, lo=0):
        self._ctx, self._val, self._fill = ctx, None, fill
        self._dims = []
        for k in range(ndim):
            v = ctx.var(f"{name}_len{k}", lo, LMAX)
            ctx.require(lor(*[v == i for i in range(lo, LMAX + 1)]))
            self._dims.append(v)
        self._lo = lo

    def _arr(self):
        if self._val is None:
            sh = []
            for v in self._dims:
                n = LMAX
                for k in range(self._lo, LMAX):
                    if bool(v == k):
                        n = k
                        break
                sh.append(n)
            self._val = self._fill(tuple(sh))
        return self._val

    @property
    def shape(self):
        return tuple(self._dims) if self._val is None else self._val.shape

    @property
    def size(self):
        if self._val is not None:
            return self._val.size
        r = 1
        for v in self._dims:
            r = r * v
        return r

    @property
    def ndim(self):
        return len(self._dims)

    def _symlen(self):
        return self._dims[0] if self._val is None else len(self._val)

    def __len__(self):
        return len(self._arr())

    def __iter__(self):
        return iter(self._arr())

    def __getitem__(self, k):
        return self._arr()[k]

    def __setitem__(self, k, v):
        self._arr()[k] = v

    def __array__(self, dtype=None, copy=None):
        return np.array(self._arr(), dtype=dtype)

    def __getattr__(self, k):
        if k.startswith("_") or k in ("shape", "size", "ndim"):
            raise AttributeError(k)
        return getattr(self._arr(), k)

    def __neg__(self):
        return -self._arr()

    def __array_ufunc__(self, uf, method, *a, **k):
        return getattr(uf, method)(*[x._arr() if isinstance(x, Lazy) else x for x in a], **k)


def _bin(nm):
    def f(self, o):
        return getattr(self._arr(), nm)(o._arr() if isinstance(o, Lazy) else o)
    return f


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__", "__matmul__",
           "__rmatmul__", "__pow__", "__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__", "__abs__"):
    setattr(Lazy, _n, _bin(_n) if _n != "__abs__" else (lambda self: abs(self._arr())))
Lazy.__hash__ = object.__hash__


def _len(x):
    return x._symlen() if isinstance(x, Lazy) else builtins.len(x)


def _decide(v):
    """the value of a symbolic length: one path per value"""
    if not isinstance(v, P):
        return v
    for k in range(LMAX):
        if bool(v == k):
            return k
    return LMAX


def _range(*a):
    return builtins.range(*[_decide(x) for x in a])


@contextlib.contextmanager
def symlen():
    """len() inside the library understands symbolic lengths"""
    import nosnoc.model, nosnoc.nosnoc_opts, nosnoc.ocp, nosnoc.problem, nosnoc.solver, nosnoc.utils  # noqa: E401
    ms = [nosnoc.model, nosnoc.nosnoc_opts, nosnoc.ocp, nosnoc.problem, nosnoc.solver, nosnoc.utils]
    for m in ms:
        m.len = _len
        m.range = _range
    try:
        yield
    finally:
        for m in ms:
            del m.len
            del m.range


def lazy(ctx, name, ndim=1, fill=None, lo=0):
    fill = fill or (lambda sh: np.full(sh, 0.25))
    if ctx.sym:
        return Lazy(ctx, name, ndim, fill, lo)
    dims = []
    for k in range(ndim):
        dims.append(int(round(ctx.var(f"{name}_len{k}", lo, LMAX, default=ctx.data.get("good", {}).get(name, (1, 1))[k]))))
    return fill(tuple(dims))


def length_is(ctx, a, *dims):
    if isinstance(a, Lazy):
        return land(*[v == k for v, k in zip(a._dims, dims)])
    return np.shape(a) == tuple(dims)


# ------------------------------------------------------------------ configurations
OCPV = ("lbx", "ubx", "lbu", "ubu", "u_guess", "lbv_global", "ubv_global", "v_global_guess", "lbg", "ubg")
MODV = ("x0", "z0", "lbz", "ubz", "p_global_val", "p_time_var_val")


def items(prop, tier):
    base = [dict(pss_mode=p, irk_representation=r, irk_scheme=s, n_s=n, N_stages=N, N_finite_elements=1, use_fesd=f)
            for (p, r, s, n, N, f) in [
                ("STEWART", "INTEGRAL", "RADAU_IIA", 1, 1, True), ("STEP", "DIFFERENTIAL", "RADAU_IIA", 2, 2, True),
                ("STEWART", "DIFFERENTIAL_LIFT_X", "GAUSS_LEGENDRE", 2, 1, True), ("STEP", "INTEGRAL", "GAUSS_LEGENDRE", 1, 2, False)]]
    out = []
    F = ["u", "u2", "z", "z2", "v", "v2", "tv", "tv2", "gpath"]
    for i, o in enumerate(base):
        for part in ("ocpv", "modv"):
            names = OCPV if part == "ocpv" else MODV
            G = F if part == "ocpv" else F + ["nopar"]
            for nm in names:
                out.append(dict(part=part, only=[nm], model="a2", feats=G, opts=o))
            out.append(dict(part=part, only=list(names), model="a2", feats=G, opts=o))
            if i < 2:
                out.append(dict(part=part, only=list(names), model="a1", feats=["gpath", "nopar"], opts=o))
        for k in ("sign", "rows", "count", "descr", "alpha", "gst"):
            out.append(dict(part="struct", what=k, opts=o))
        out.append(dict(part="nfe", opts=dict(o, N_stages=3 if i % 2 else 1)))
    for f in OPT_FIELDS:
        out.append(dict(part="opts", field=f, opts=base[0]))
    return out


def label(prop, c):
    o = c["opts"]
    return " ".join([c["part"], ",".join(c.get("only", [])), c.get("what", ""), c.get("field", ""), c.get("model", ""),
                     o["pss_mode"], o["irk_representation"], o["irk_scheme"], f"N={o['N_stages']} fesd={o['use_fesd']}"])


def make_opts(c):
    return nlp.make_opts(nlp.cfg("a1", [], **c["opts"]))


@contextlib.contextmanager
def env_of(ctx):
    with eb.session(ctx), symlen():
        yield


def build(ctx, opts, m, ocp):
    with eb.loose_validate():
        s = nosnoc.NosnocSolver(opts, m, ocp)
    ctx.data["built"] = True
    return s


def run_vec(c):
    def run(ctx):
        with env_of(ctx):
            opts = make_opts(c)
            d = models.make(c["model"], c["feats"])
            N = opts.N_stages
            exp = dict(x0=(d.nx,), z0=(d.nz,), lbz=(d.nz,), ubz=(d.nz,), p_global_val=(len(d.pg),),
                       p_time_var_val=(N, len(d.tv)), lbx=(d.nx,), ubx=(d.nx,), lbu=(d.nu,), ubu=(d.nu,), u_guess=(d.nu,),
                       lbv_global=(d.nv,), ubv_global=(d.nv,), v_global_guess=(d.nv,))
            m, ocp = nlp.make_model(d, N)
            ocp = ocp or nosnoc.NosnocOcp()
            exp["lbg"] = exp["ubg"] = (int(ocp.g_path.numel()),)
            ctx.data["good"] = exp
            claims = []
            for n in c["only"]:
                if any(k > LMAX for k in exp[n]):
                    raise runner.Undecided(f"{n}: more entries than the length bound")
                a = lazy(ctx, n, builtins.len(exp[n]))
                setattr(m if n in MODV else ocp, n, a)
                claims.append((n, a, exp[n]))
            ctx.data["claims"] = claims
            build(ctx, opts, m, ocp)
    return run


def oracle_vec(c):
    def oracle(ctx):
        for n, a, e in ctx.data["claims"]:
            yield Claim(f"length-{n}", f"{n} of the wrong length is accepted (expected shape {e}, "
                        f"got {a._dims if isinstance(a, Lazy) else np.shape(a)})", length_is(ctx, a, *e))
    return oracle


# ------------------------------------------------------------------ structure of the switched system
def pm(sh):
    return np.array([[1.0 if (i >> j) & 1 else -1.0 for j in range(sh[1])] for i in range(sh[0])]).reshape(sh)


def run_struct(c):
    what = c["what"]

    def run(ctx):
        with env_of(ctx):
            opts = make_opts(c)
            x = ca.SX.sym("x", 2)
            D = ctx.data
            ch = lambda n, k: ctx.choice(n, k)
            nmodes, nc, rows, nsys = 2, 1, 2, 1
            kw = dict(x=x, x0=np.array([0.3, 0.7]))
            F = lambda r, m: ca.horzcat(*[ca.vertcat(*[(i + 1) * x[0] + j * x[1] + 1 for i in range(r)]) for j in range(m)])
            cc = lambda k: ca.vertcat(*[x[i % 2] - 0.1 * i for i in range(k)])
            ok = True
            if what == "sign":
                # a sign matrix of symbolic size
                m, k = ch("modes", 3) + 1, ch("nc", 3) + 1
                D["good"] = dict(S=(m, k))
                S = lazy(ctx, "S", 2, pm, lo=1)
                kw.update(F=[F(2, m)], c=[cc(k)], S=[S])
                ok = land(length_is(ctx, S, m, k), m > 1)
            elif what == "rows":
                # number of rows of the switching system, also with two systems
                r1, r2 = ch("rows1", 4) + 1, ch("rows2", 4) + 1
                kw.update(F=[F(r1, 2), F(r2, 2)], c=[cc(1), cc(1)], S=[pm((2, 1)), pm((2, 1))])
                ok = r1 == 2 and r2 == 2
            elif what == "count":
                nF, nC, nS = ch("nF", 3) + 1, ch("nC", 3) + 1, ch("nS", 3) + 1
                kw.update(F=[F(2, 2)] * nF, c=[cc(1)] * nC, S=[pm((2, 1))] * nS)
                ok = nF == nC == nS
            elif what == "gst":
                nF, nG, m = ch("nF", 2) + 1, ch("nG", 3) + 1, ch("m", 3) + 1
                k = [ch(f"k{i}", 3) + 1 for i in range(nG)]
                kw.update(F=[F(2, m)] * nF, g_Stewart=[cc(q) for q in k])
                ok = m > 1 and nF == nG and all(q == m for q in k) and c["opts"]["pss_mode"] == "STEWART"
            elif what == "alpha":
                # general inclusions: number of indicators, rows of the right-hand side
                nal, k, rows = ch("nal", 3) + 1, ch("nc", 3) + 1, ch("rows", 4) + 1
                al = ca.SX.sym("al", nal)
                kw.update(f_x=[ca.vertcat(*[x[0] * al[i % nal] + 1 for i in range(rows)])], alpha=[al], c=[cc(k)])
                ok = nal == k and rows == 2 and c["opts"]["pss_mode"] == "STEP"
            elif what == "descr":
                has = {n: ch("has_" + n, 2) == 1 for n in ("F", "c", "S", "g", "f_x", "alpha")}
                al = ca.SX.sym("al", 1)
                full = dict(F=[F(2, 2)], c=[cc(1)], S=[pm((2, 1))], g_Stewart=[cc(2)],
                            f_x=[ca.vertcat(al + x[0], al)], alpha=[al])
                for n, k in (("F", "F"), ("c", "c"), ("S", "S"), ("g", "g_Stewart"), ("f_x", "f_x"), ("alpha", "alpha")):
                    if has[n]:
                        kw[k] = full[k]
                incl = has["f_x"] and has["alpha"]
                cs = has["c"] and has["S"]
                ok = (has["F"] != incl)
                if has["F"]:
                    ok = ok and (cs != has["g"])
                else:
                    ok = ok and has["c"]
                D["what"] = [n for n in has if has[n]]
            D["ok"] = ok
            D["shape"] = {k: [np.shape(q) if isinstance(q, np.ndarray) else (q._dims if isinstance(q, Lazy) else q.shape) for q in v]
                          for k, v in kw.items() if isinstance(v, list)}
            m = nosnoc.NosnocModel(**kw)
            build(ctx, opts, m, None)
    return run


def oracle_struct(c):
    def oracle(ctx):
        yield Claim(c["what"], f"inconsistent model is accepted: {ctx.data['shape']}, 2 states", ctx.data["ok"])
    return oracle


# ------------------------------------------------------------------ element counts
def run_nfe(c):
    def run(ctx):
        with env_of(ctx):
            opts = make_opts(c)
            n = ctx.choice("n", 5)
            opts.Nfe_list = [1] * n
            ctx.data["n"] = n
            d = models.make("a1", ["u"])
            m, ocp = nlp.make_model(d, opts.N_stages)
            build(ctx, opts, m, ocp)
    return run


def oracle_nfe(c):
    def oracle(ctx):
        n, N = ctx.data["n"], c["opts"]["N_stages"]
        yield Claim("Nfe_list", f"Nfe_list with {n} entries is accepted for {N} control stages", n in (0, N))
    return oracle


# ------------------------------------------------------------------ options
def _fields():
    out = []
    o = nosnoc.NosnocOpts()
    for f in dataclasses.fields(o):
        out.append(f.name)
    return out


OPT_FIELDS = _fields()


class Other(enum.Enum):
    """an enum that is no option of the library"""
    A = 1


def opt_values(dflt):
    """candidates: (description, value, is it certainly of the wrong type for an option with this default?)"""
    num = isinstance(dflt, (int, float)) and not isinstance(dflt, bool)
    bl = isinstance(dflt, bool)
    en = isinstance(dflt, enum.Enum)
    own = type(dflt).__name__ if en else None
    vals = [("None", None, True), ("text", "1", True), ("True", True, not (bl or num)), ("3", 3, not num and not bl),
            ("0.5", 0.5, not isinstance(dflt, float)), ("[1]", [1], not isinstance(dflt, list)), ("{}", {}, True),
            ("array([1.])", np.array([1.0]), True), ("(1,)", (1,), True), ("foreign enum", Other.A, True),
            ("own default", dflt, False)]
    if en:
        vals += [(f"{own} name", dflt.name, True), (f"{own} value", dflt.value, True), ("class", type(dflt), True)]
    for e in (nosnoc.MpccMode.SCHOLTES_EQ, nosnoc.PssMode.STEP, nosnoc.IrkSchemes.RADAU_IIA, nosnoc.StepEquilibrationMode.DIRECT):
        vals.append((str(e), e, type(e).__name__ != own))
    if bl:
        vals.append(("1", 1, True))
    return vals


def run_opts(c):
    def run(ctx):
        with env_of(ctx):
            opts = make_opts(c)
            vals = opt_values(getattr(nosnoc.NosnocOpts(), c["field"]))
            k = ctx.choice("value", builtins.len(vals))
            ctx.data["v"] = vals[k]
            setattr(opts, c["field"], vals[k][1])
            d = models.make("a1", ["u"])
            m, ocp = nlp.make_model(d, 1)
            nosnoc.NosnocSolver(opts, m, ocp)
            ctx.data["built"] = True
    return run


def oracle_opts(c):
    def oracle(ctx):
        t, v, wrong = ctx.data["v"]
        yield Claim(f"type-{c['field']}", f"option {c['field']} = {t} (wrong type) is accepted", not wrong)
    return oracle


PARTS = dict(ocpv=(run_vec, oracle_vec), modv=(run_vec, oracle_vec), struct=(run_struct, oracle_struct), nfe=(run_nfe, oracle_nfe),
             opts=(run_opts, oracle_opts))


def rejected(ctx, e):
    """an exception is a rejection, unless it stems from the verification library"""
    if isinstance(e, poly.ConcretisationError) or eb._liberr(e):
        return None
    return []


def run(prop, c, it):
    r, o = PARTS[c["part"]]
    good = [0]

    def oracle(ctx):
        good[0] += 1
        return o(c)(ctx)
    eb.explore(it, r(c), oracle, dict(c=c), max_paths=4000, allow_exc=rejected, reach=False)
    it.r["vacuity"] += good[0]
    if not good[0] and not (c["part"] == "struct" and c["what"] in ("gst", "alpha")):
        it.undecided("no consistent input is accepted: the rejection says nothing")


def replay(prop, rp):
    c = rp["c"]
    r, o = PARTS[c["part"]]
    bad = eb.concrete(r(c), o(c), rp, rejected)
    return bool(bad), "; ".join(f.text for f in bad[:3])
