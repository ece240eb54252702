"""Engine A: run the real NosnocSolver with a stand-in for CasADi's nlpsol, capture the NLP that is
handed to the NLP solver and decompile it into polynomials of (w, user inputs)."""
import contextlib
import io
import warnings

import casadi as ca
import numpy as np

import env  # noqa
import nosnoc
import models
import poly
import sxvm
from poly import P


class CaptureDone(BaseException):
    pass


class CallRecord:
    def __init__(self, kw):
        self.kw = kw

    def __getattr__(self, k):
        try:
            return self.kw[k]
        except KeyError:
            raise AttributeError(k)


class FakeNlp:
    """stands for the object returned by casadi.nlpsol"""
    current_handler = None

    def __init__(self, name, plugin, nlp, opts=None):
        self._name, self._plugin, self.nlp = name, plugin, nlp
        self.opts = opts
        self.calls = []
        self.last_stats = None

    def __call__(self, **kw):
        rec = CallRecord({k: (np.array(v, dtype=object).flatten() if not isinstance(v, (int, float)) else v)
                          for k, v in kw.items()})
        self.calls.append(rec)
        h = FakeNlp.current_handler
        if h is None:
            raise CaptureDone()
        return h(self, rec)

    def stats(self):
        return self.last_stats

    def name(self):
        return self._name


_orig_nlpsol = ca.nlpsol
_orig_call = ca.Function.__call__
_orig_norm_inf = ca.norm_inf
OPAQUE = set()       # names of functions to be left uninterpreted


def _sym_call(self, *args, **kwargs):
    if not kwargs and args and any(poly.has_sym(a) or isinstance(a, sxvm.SymDM) for a in args):
        flats = [sxvm.to_flat(a, self.size_in(i)) for i, a in enumerate(args)]
        opaque = self.name() in OPAQUE or not self.is_a("SXFunction")
        outs = sxvm.interpret(self, flats, opaque=opaque)
        res = [sxvm.SymDM(o) for o in outs]
        return res[0] if len(res) == 1 else tuple(res)
    return _orig_call(self, *args, **kwargs)


def _sym_norm_inf(x):
    if isinstance(x, sxvm.SymDM):
        r = poly.fmax(*[poly.fabs(poly.co(e)) for e in x.a.flat]) if x.a.size else P.c(0)
        return sxvm.SymDM([[r]])
    if poly.has_sym(x):
        return _sym_norm_inf(sxvm.SymDM(x))
    return _orig_norm_inf(x)


@contextlib.contextmanager
def patched(symbolic=True):
    """casadi.nlpsol -> FakeNlp; casadi Function calls and norm_inf understand symbolic reals"""
    ca.nlpsol = lambda *a, **k: FakeNlp(*a, **k)
    if symbolic:
        ca.Function.__call__ = _sym_call
        ca.norm_inf = _sym_norm_inf
    try:
        yield
    finally:
        ca.nlpsol = _orig_nlpsol
        ca.Function.__call__ = _orig_call
        ca.norm_inf = _orig_norm_inf


ENUMS = dict(irk_representation=nosnoc.IrkRepresentation, irk_scheme=nosnoc.IrkSchemes,
             cross_comp_mode=nosnoc.CrossComplementarityMode, mpcc_mode=nosnoc.MpccMode,
             constraint_handling=nosnoc.ConstraintHandling, pss_mode=nosnoc.PssMode,
             step_equilibration=nosnoc.StepEquilibrationMode, homotopy_update_rule=nosnoc.HomotopyUpdateRule,
             initialization_strategy=nosnoc.InitializationStrategy)
from nosnoc.nosnoc_types import SpeedOfTimeVariableMode  # noqa: E402
ENUMS["speed_of_time_variables"] = SpeedOfTimeVariableMode


class Cfg(dict):
    """JSON-able configuration: model, feats, opts (enum names as strings)"""

    def o(self, k, default=None):
        return self["opts"].get(k, default)

    def label(self):
        o = self["opts"]
        return f"{self.get('via', '')}{self['model']}[{','.join(self.get('feats', []))}] " + " ".join(f"{k}={v}" for k, v in o.items())


DEFAULTS = dict(terminal_time=1.0, use_fesd=True, irk_representation="INTEGRAL", n_s=2, irk_scheme="RADAU_IIA",
                cross_comp_mode="SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA", mpcc_mode="SCHOLTES_INEQ",
                constraint_handling="EXACT", pss_mode="STEWART", gamma_h=1.0, step_equilibration="HEURISTIC_DELTA",
                step_equilibration_sigma=0.1, rho_h=1.0, N_stages=1, N_finite_elements=2, Nfe_list=[],
                equidistant_control_grid=True, g_path_at_fe=False, g_path_at_stg=False, objective_scaling_direct=True,
                s_elastic_min=0.0, s_elastic_max=10.0, time_freezing=False, time_freezing_tolerance=1e-3,
                speed_of_time_variables="NONE", speed_of_time_min=1.0, speed_of_time_max=25.0, sigma_0=1.0,
                fb_ip_aug1_weight=1.0, fb_ip_aug2_weight=0.1)


def cfg(model="a2", feats=(), **opts):
    return Cfg(model=model, feats=list(feats), opts=opts)


def make_opts(c):
    opts = nosnoc.NosnocOpts()
    for k, v in c["opts"].items():
        if k in ENUMS:
            v = ENUMS[k][v]
        elif isinstance(v, list):
            v = list(v)
        setattr(opts, k, v)
    return opts


def full(c, k):
    return c["opts"].get(k, DEFAULTS.get(k))


def layout(c):
    n = full(c, "N_stages")
    l = list(full(c, "Nfe_list"))
    return l if l else n * [full(c, "N_finite_elements")]


def pval(name, i=0):
    """concrete, distinct default parameter values"""
    h = sum((k + 1) * ord(ch) for k, ch in enumerate(name)) + 37 * i
    return round(0.5 + (h % 97) / 97.0, 6)


def make_model(d, n_stages, x0=None, vals=None):
    x = ca.SX.sym("x", d.nx)
    u = ca.SX.sym("u", d.nu) if d.nu else ca.SX.sym("u_dummy", 0, 1)
    z = ca.SX.sym("z", d.nz) if d.nz else ca.SX.sym("z_dummy", 0, 1)
    v = ca.SX.sym("v", d.nv) if d.nv else ca.SX.sym("v_dummy", 0, 1)
    pg = ca.SX.sym("pg", len(d.pg))
    tv = ca.SX.sym("tv", len(d.tv)) if d.tv else ca.SX.sym("tv_dummy", 0, 1)
    p = {n: pg[i] for i, n in enumerate(d.pg)}
    p.update({n: tv[i] for i, n in enumerate(d.tv)})
    X, U, Z, V = (ca.vertsplit(a) if a.numel() else [] for a in (x, u, z, v))
    kw = dict(x=x, x0=np.array([0.1 * (i + 1) for i in range(d.nx)]) if x0 is None else np.array(x0), u=u, z=z,
              p_global=pg, p_global_val=np.array([pval(n) for n in d.pg]) if vals is None else np.array(vals["pg"]),
              v_global=v)
    if d.tv:
        kw["p_time_var"] = tv
        kw["p_time_var_val"] = (np.array([[pval(n, i + 1) for n in d.tv] for i in range(n_stages)])
                                if vals is None else np.array(vals["tv"]))
    if d.nz:
        kw["g_z"] = ca.vertcat(*d.gz(X, U, Z, p))
        kw["z0"] = d.z0
        if d.lbz is not None:
            kw["lbz"], kw["ubz"] = d.lbz, d.ubz
    if d.t_index is not None:
        kw["t_var"] = x[d.t_index]
    if d.fx is None:
        kw["F"] = [ca.horzcat(*[ca.vertcat(*col) for col in s.F(X, U, Z, p, V)]) for s in d.systems]
        if d.systems[0].g is not None:
            kw["g_Stewart"] = [ca.vertcat(*s.g(X, Z, p)) for s in d.systems]
        else:
            kw["c"] = [ca.vertcat(*s.c(X, Z, p)) for s in d.systems]
            kw["S"] = [np.array(s.S) for s in d.systems]
    else:
        cs = [f(X, Z, p) for f in d.calpha_list]
        al = [ca.SX.sym(f"alpha_{i}", len(ci)) for i, ci in enumerate(cs)]
        kw["alpha"] = al
        kw["c"] = [ca.vertcat(*ci) for ci in cs]
        f = ca.vertcat(*d.fx(X, U, Z, [ca.vertsplit(a) for a in al], p, V))
        off = np.cumsum([0] + list(d.fx_split or [f.numel()]))
        kw["f_x"] = [f[int(i):int(j)] for i, j in zip(off[:-1], off[1:])]
    m = nosnoc.NosnocModel(**kw)
    ocp = None
    if d.has_ocp():
        ok = {}
        if d.fq is not None:
            ok["f_q"] = ca.SX(d.fq(X, U, p, V))
        if d.fT is not None:
            ok["f_terminal"] = ca.SX(d.fT(X, p, V))
        if d.gpath is not None:
            ok["g_path"] = ca.vertcat(*d.gpath(X, U, p, V))
            if d.lbgp is not None:
                ok["lbg"], ok["ubg"] = d.lbgp, d.ubgp
        if d.gT is not None:
            ok["g_terminal"] = ca.vertcat(*d.gT(X, p, V))
        if d.comps:
            ok["g_path_comp"] = ca.vertcat(*[ca.horzcat(*f(X, U, Z, p, V)) for _, f in d.comps])
        for a, b in (("lbx", "lbx"), ("ubx", "ubx"), ("lbu", "lbu"), ("ubu", "ubu"), ("u_guess", "u0"),
                     ("lbv_global", "lbv"), ("ubv_global", "ubv"), ("v_global_guess", "v0")):
            if getattr(d, b) is not None:
                ok[a] = getattr(d, b)
        ocp = nosnoc.NosnocOcp(**ok)
    return m, ocp


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


class _ObjNp:
    """numpy with object-valued zeros (so that symbolic parameter values can be stored by the model constructor)"""

    def __getattr__(self, k):
        return getattr(np, k)

    @staticmethod
    def zeros(shape, dtype=None):
        return np.full(shape, 0.0, dtype=object)

    @staticmethod
    def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        """element-wise, deciding (forking on) symbolic comparisons"""
        if not (poly.has_sym(a) or poly.has_sym(b)):
            return np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
        x, y = np.broadcast_arrays(np.array(a, dtype=object), np.array(b, dtype=object))
        out = [bool(abs(poly.co(p) - poly.co(q)) <= atol + rtol * abs(poly.co(q))) for p, q in zip(x.flatten(), y.flatten())]
        return np.array(out, dtype=bool).reshape(x.shape)

    @classmethod
    def allclose(cls, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        return bool(np.all(cls.isclose(a, b, rtol, atol, equal_nan)))


@contextlib.contextmanager
def object_zeros(*mods):
    olds = [m.np for m in mods]
    for m in mods:
        m.np = _ObjNp()
    try:
        yield
    finally:
        for m, o in zip(mods, olds):
            m.np = o


VIA = ("set", "ctor", "reverse", "twice", "resolve")


def give(solver, d, x0, pg, tv, via="set"):
    """hand over initial state and parameters through the public setters, in different orders and histories"""
    def put(x0, pg, tv, order=("x0", "p_global", "p_time_var")):
        for k in order:
            if k == "p_time_var" and not d.tv:
                continue
            solver.set(k, dict(x0=x0, p_global=pg, p_time_var=tv)[k])
    if via == "ctor":
        return
    if via == "reverse":
        put(x0, pg, tv, ("p_time_var", "p_global", "x0"))
        return
    if via in ("twice", "resolve"):
        put(*[np.array(np.full(np.shape(q), 0.375) + 0.125 * np.arange(np.size(q)).reshape(np.shape(q)), dtype=np.array(q).dtype)
              for q in (x0, pg, tv)])
        if via == "resolve":
            old = FakeNlp.current_handler
            FakeNlp.current_handler = None
            try:
                solver.solve()
            except CaptureDone:
                pass
            FakeNlp.current_handler = old
            put(x0, pg, tv, ("p_global", "p_time_var", "x0"))
            return
    put(x0, pg, tv)


def construct(c, opts=None, x0=None, vals=None):
    """real solver for the configuration (nlpsol replaced or not depending on context)"""
    d = models.make(c["model"], c.get("feats", []))
    opts = opts or make_opts(c)
    m, ocp = make_model(d, opts.N_stages, x0=x0, vals=vals)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = nosnoc.NosnocSolver(opts, m, ocp)
    return s, d


class Art:
    """captured NLP in terms of w and the user's inputs"""
    pass


def user_symbols(d, n):
    x0 = np.array([poly.var(f"x0_{i}") for i in range(d.nx)], dtype=object)
    pg = np.array([poly.var(f"pg_{n}") for n in d.pg], dtype=object)
    tv = np.array([[poly.var(f"tv_{m}_{i}") for m in d.tv] for i in range(n)], dtype=object).reshape(n, len(d.tv))
    return x0, pg, tv


def symbolise(solver, d, via="set"):
    """replace numeric initial state and parameters by symbols through the public setter"""
    prob = solver.problem
    prob.w0 = prob.w0.astype(object)
    prob.model.p_val_ctrl_stages = prob.model.p_val_ctrl_stages.astype(object)
    x0, pg, tv = user_symbols(d, solver.opts.N_stages)
    with quiet():
        give(solver, d, x0, pg, tv, via)
    return x0, pg, tv


def capture(c, fresh=True):
    """fresh: start a new symbol table; otherwise symbols of the same name are shared with previous captures"""
    if fresh:
        poly.reset()
    a = Art()
    a.cfg = c
    with patched():
        via = c.get("via", "set")
        with quiet():
            if via == "ctor":
                import nosnoc.model
                import nosnoc.problem
                d = models.make(c["model"], c.get("feats", []))
                x0, pg, tv = user_symbols(d, full(c, "N_stages"))
                with object_zeros(nosnoc.model):
                    solver, d = construct(c, x0=x0, vals=dict(pg=pg, tv=tv))
            else:
                solver, d = construct(c)
        a.solver, a.d = solver, d
        a.prob = prob = solver.problem
        if via == "ctor":
            a.x0, a.pg, a.tv = x0, pg, tv
        else:
            with contextlib.ExitStack() as st:
                if via == "resolve":
                    st.enter_context(quiet())
                a.x0, a.pg, a.tv = symbolise(solver, d, via)
        a.sigma = poly.var("sigma", 0, 1)
        solver.opts.sigma_0 = a.sigma
        tau = poly.power(a.sigma, P.c(1.5))
        FakeNlp.current_handler = None
        import symx
        # the path conditions on tau = min(sigma**1.5, sigma) are decided with sigma in (0,1)
        ex = symx.Single(assume=[a.sigma > 0, a.sigma < 1, tau < a.sigma, tau > 0])
        try:
            with quiet(), ex:
                solver.solve()
            raise RuntimeError("NLP solver was never called")
        except CaptureDone:
            pass
        fake = solver.solver
        rec = fake.calls[-1]
        a.rec = rec
        nlp = fake.nlp
        n = nlp["x"].numel()
        a.n = n
        a.w = [poly.var(f"w{i}") for i in range(n)]
        pv = list(np.array(rec.kw.get("p", []), dtype=object).flatten())
        a.p = [poly.co(e) for e in pv]
        if nlp["p"].numel() != len(a.p):
            raise RuntimeError("parameter dimension mismatch")
        g = nlp.get("g", ca.SX(0, 1))
        fun = ca.Function("nlp_fg", [nlp["x"], nlp["p"]], [ca.densify(nlp["f"]), ca.densify(g)])
        outs = sxvm.interpret(fun, [a.w, a.p])
        a.f = outs[0][0, 0]
        a.g = [e for e in outs[1].flatten()]
        ng = len(a.g)
        def num(v, n, dflt):
            if v is None:
                return np.full(n, dflt)
            v = np.array(v, dtype=object).flatten()
            if len(v) == 1 and n != 1:
                v = np.array([v[0]] * n, dtype=object)
            if len(v) != n:
                raise RuntimeError(f"bound vector has length {len(v)}, expected {n}")
            return np.array([float(e) for e in v])
        a.lbx, a.ubx = num(rec.kw.get("lbx"), n, -np.inf), num(rec.kw.get("ubx"), n, np.inf)
        a.lbg, a.ubg = num(rec.kw.get("lbg"), ng, -np.inf), num(rec.kw.get("ubg"), ng, np.inf)
        a.guess = list(np.array(rec.kw.get("x0", []), dtype=object).flatten())
        a.fake = fake
        cr = prob.comp_res
        a.comp_res = sxvm.interpret(cr, [a.w, a.p])[0][0, 0] if cr.is_a("SXFunction") else None
    return a
