"""Parametric family of switched models, written once for CasADi symbols and for poly.P values.

Every user expression carries its own parameter symbols (entries of p_global / p_time_var with
recognisable names), so that one model stands for all coefficient values in the box, and NLP rows can
be attributed to the expression they come from.
"""
import numpy as np


class Sys:
    """one switched subsystem. c(x,z,p) -> list, S sign matrix, or g(x,z,p) -> list (direct indicator)"""

    def __init__(self, F, c=None, S=None, g=None):
        self.F, self.c, self.S, self.g = F, c, (None if S is None else np.array(S)), g
        self.nf = None


class Desc:
    def __init__(self, name, nx):
        self.name = name
        self.nx, self.nu, self.nz, self.nv = nx, 0, 0, 0
        self.pg, self.tv = [], []
        self.systems = []          # Filippov
        self.fx = None             # general inclusion: fx(x,u,z,alpha,p,v)
        self.fx_split = None       # numbers of rows of the entries of f_x
        self.calpha = None         # list of c functions for general inclusions (one per subsystem)
        self.gz = None
        self.lbz = self.ubz = self.z0 = None
        self.t_index = None        # index of clock state
        # ocp
        self.fq = self.fT = self.gpath = self.gT = None
        self.lbgp = self.ubgp = None
        self.comps = []            # list of (kind, fn(x,u,z,p,v)->(a,b))
        self.lbx = self.ubx = self.lbu = self.ubu = self.u0 = None
        self.lbv = self.ubv = self.v0 = None

    def has_ocp(self):
        return any(a is not None for a in (self.fq, self.fT, self.gpath, self.gT, self.lbx, self.ubx, self.lbu,
                                           self.ubu, self.lbv, self.ubv, self.u0, self.v0)) or bool(self.comps)

    def nsys(self):
        return len(self.systems) if self.fx is None else len(self.calpha_list)


def _lin(p, pre, xs):
    """p[pre0] + sum p[pre_i] * xs_i"""
    r = p[pre + "0"]
    for i, x in enumerate(xs):
        r = r + p[f"{pre}{i+1}"] * x
    return r


def make(name, feats=()):
    """name: base model; feats: iterable of feature strings"""
    feats = set(feats)
    base = name
    S2 = [[-1], [1]]
    S4 = [[1, 1], [1, -1], [-1, 1], [-1, -1]]
    S3 = [[-1, 0], [1, -1], [1, 1]]
    if base == "a1":          # scalar, 2 modes
        d = Desc(name, 1)
        d.pg = ["c0", "f0", "f1", "k0", "k1"]
        d.systems = [Sys(lambda x, u, z, p, v: [[p["f0"] + p["f1"] * x[0]], [p["k0"] + p["k1"] * x[0]]],
                         c=lambda x, z, p: [x[0] - p["c0"]], S=S2)]
    elif base == "a2":        # planar, 2 modes
        d = Desc(name, 2)
        d.pg = ["c0", "c1", "f0", "f1", "k0", "k1"]
        d.systems = [Sys(lambda x, u, z, p, v: [[p["f0"] + x[1], p["f1"] * x[0]], [p["k0"] - x[1], p["k1"] * x[1]]],
                         c=lambda x, z, p: [x[0] + p["c1"] * x[1] - p["c0"]], S=S2)]
    elif base == "a2rev":     # sign matrix with reversed rows
        d = Desc(name, 2)
        d.pg = ["c0", "f0", "f1", "k0", "k1"]
        d.systems = [Sys(lambda x, u, z, p, v: [[p["f0"] + x[1], p["f1"] * x[0]], [p["k0"] - x[1], p["k1"] * x[1]]],
                         c=lambda x, z, p: [x[0] - p["c0"]], S=[[1], [-1]])]
    elif base == "a4":        # 4 modes, 2 switching functions
        d = Desc(name, 2)
        d.pg = ["c0", "c1", "f0", "f1", "f2", "f3"]
        d.systems = [Sys(lambda x, u, z, p, v: [[p[f"f{i}"] + i * x[1], 1 - i * p[f"f{i}"] * x[0]] for i in range(4)],
                         c=lambda x, z, p: [x[0] - p["c0"], x[1] - p["c1"] * x[0]], S=S4)]
    elif base == "a3":        # 3 modes, partial sign matrix
        d = Desc(name, 2)
        d.pg = ["c0", "c1", "f0", "f1", "f2"]
        d.systems = [Sys(lambda x, u, z, p, v: [[p[f"f{i}"] + i * x[1], 1 + p[f"f{i}"] * x[0]] for i in range(3)],
                         c=lambda x, z, p: [x[0] - p["c0"], x[1] - p["c1"]], S=S3)]
    elif base == "g3":        # direct indicator functions
        d = Desc(name, 2)
        d.pg = ["c0", "c1", "c2", "f0", "f1", "f2"]
        d.systems = [Sys(lambda x, u, z, p, v: [[p[f"f{i}"] + i * x[1], 1 + p[f"f{i}"] * x[0]] for i in range(3)],
                         g=lambda x, z, p: [p["c0"] - x[0], p["c1"] * x[1], x[0] + p["c2"]])]
    elif base == "s22":       # two subsystems, 2 modes each
        d = Desc(name, 2)
        d.pg = ["c0", "d0", "f0", "f1", "k0", "k1"]
        d.systems = [Sys(lambda x, u, z, p, v: [[p["f0"], x[0]], [p["f1"] * x[1], 2.0]],
                         c=lambda x, z, p: [x[0] - p["c0"]], S=S2),
                     Sys(lambda x, u, z, p, v: [[1.5, p["k0"] * x[0]], [x[0] - x[1], p["k1"]]],
                         c=lambda x, z, p: [x[1] - p["d0"]], S=[[1], [-1]])]
    elif base == "s23":       # two subsystems with different numbers of modes
        d = Desc(name, 2)
        d.pg = ["c0", "d0", "d1", "f0", "f1", "k0", "k1", "k2"]
        d.systems = [Sys(lambda x, u, z, p, v: [[p["f0"], x[0]], [p["f1"] * x[1], 2.0]],
                         c=lambda x, z, p: [x[0] - p["c0"]], S=S2),
                     Sys(lambda x, u, z, p, v: [[1.5, p["k0"] * x[0]], [x[0] - x[1], p["k1"]], [p["k2"], 0.5]],
                         c=lambda x, z, p: [x[1] - p["d0"], x[0] - p["d1"]], S=S3)]
    elif base == "s24":       # different numbers of modes, complete sign matrices
        d = Desc(name, 2)
        d.pg = ["c0", "d0", "d1", "f0", "f1", "k0", "k1"]
        d.systems = [Sys(lambda x, u, z, p, v: [[p["f0"], x[0]], [p["f1"] * x[1], 2.0]],
                         c=lambda x, z, p: [x[0] - p["c0"]], S=S2),
                     Sys(lambda x, u, z, p, v: [[1.5, p["k0"] * x[0]], [x[0] - x[1], p["k1"]], [3.0, 0.5], [x[1], -1.0]],
                         c=lambda x, z, p: [x[1] - p["d0"], x[0] - p["d1"]], S=S4)]
    elif base == "s222":      # three subsystems
        d = Desc(name, 2)
        d.pg = ["c0", "d0", "e0", "f0", "f1", "k0"]
        d.systems = [Sys(lambda x, u, z, p, v: [[p["f0"], x[0]], [2.0, 0.5]],
                         c=lambda x, z, p: [x[0] - p["c0"]], S=S2),
                     Sys(lambda x, u, z, p, v: [[1.5, p["k0"]], [x[0] - x[1], 3.0]],
                         c=lambda x, z, p: [x[1] - p["d0"]], S=[[1], [-1]]),
                     Sys(lambda x, u, z, p, v: [[p["f1"] * x[1], -1.0], [-2.5, x[0]]],
                         c=lambda x, z, p: [x[0] + x[1] - p["e0"]], S=S2)]
    elif base == "gs2":       # two subsystems with direct indicator functions
        d = Desc(name, 2)
        d.pg = ["c0", "c1", "d0", "f0", "f1", "k0"]
        d.systems = [Sys(lambda x, u, z, p, v: [[p["f0"], x[0]], [2.0, p["f1"]]],
                         g=lambda x, z, p: [p["c0"] - x[0], x[0] + 1.0]),
                     Sys(lambda x, u, z, p, v: [[1.5, p["k0"]], [x[0] - x[1], 3.0], [0.5, -x[0]]],
                         g=lambda x, z, p: [p["c1"] * x[1], x[0] - x[1], p["d0"] + x[0]])]
    elif base == "gi22":      # general inclusion, two subsystems
        d = Desc(name, 2)
        d.pg = ["c0", "c1", "d0", "f0", "f1"]
        d.fx = lambda x, u, z, al, p, v: [p["f0"] * al[0][0] + (1 - al[0][0]) * x[1] + al[1][1],
                                          p["f1"] * al[1][0] * al[1][1] + x[0] * (1 - al[1][1]) - al[0][0]]
        d.fx_split = [1, 1]
        d.calpha_list = [lambda x, z, p: [x[0] - p["c0"]], lambda x, z, p: [x[1] + p["c1"] * x[0], x[1] - p["d0"]]]
    elif base == "gi2":       # general inclusion, one subsystem, two step indicators
        d = Desc(name, 2)
        d.pg = ["c0", "c1", "f0", "f1"]
        d.fx = lambda x, u, z, al, p, v: [p["f0"] * al[0][0] + (1 - al[0][0]) * x[1],
                                          p["f1"] * al[0][0] * al[0][1] + x[0] * (1 - al[0][1])]
        d.calpha_list = [lambda x, z, p: [x[0] - p["c0"], x[1] + p["c1"] * x[0]]]
    elif base == "a8":        # 8 modes, 3 switching functions
        d = Desc(name, 2)
        d.pg = ["c0", "c1", "c2", "f0", "f1", "f2"]
        S8 = [[i, j, k] for i in (1, -1) for j in (1, -1) for k in (1, -1)]
        d.systems = [Sys(lambda x, u, z, p, v: [[p[f"f{i % 3}"] * (i + 1) + (i - 4) * x[1], (i + 2) - p[f"f{i // 3}"] * x[0]]
                                                for i in range(8)],
                         c=lambda x, z, p: [x[0] - p["c0"], x[1] - p["c1"] * x[0], p["c2"] - x[1]], S=S8)]
    elif base == "a5":        # 5 modes, 3 switching functions, partial sign matrix
        d = Desc(name, 2)
        d.pg = ["c0", "c1", "c2", "f0", "f1"]
        d.systems = [Sys(lambda x, u, z, p, v: [[p["f0"] * (i + 1) + (i - 2) * x[1], (i + 2) - p["f1"] * i * x[0]]
                                                for i in range(5)],
                         c=lambda x, z, p: [x[0] - p["c0"], x[1] - p["c1"], p["c2"] - x[1]],
                         S=[[-1, -1, 0], [-1, 1, 0], [1, 0, -1], [1, 1, 1], [1, -1, 1]])]
    elif base == "q2":        # quadratic dynamics
        d = Desc(name, 2)
        d.pg = ["c0", "f0", "k0"]
        d.systems = [Sys(lambda x, u, z, p, v: [[p["f0"] + x[1] * x[0], x[0] * x[0]], [p["k0"] - x[1], x[1] * x[0]]],
                         c=lambda x, z, p: [x[0] * x[0] + x[1] - p["c0"]], S=S2)]
    else:
        raise KeyError(base)

    nx = d.nx
    if "nopar" in feats:      # numeric coefficients: user functions of the state only
        pv = {n: round(0.6 + 0.35 * ((3 * i * i + i) % 5) * (-1) ** i, 4) for i, n in enumerate(d.pg)}
        for s in d.systems:
            s.F = (lambda F0: (lambda x, u, z, p, v: F0(x, u, z, {**p, **pv}, v)))(s.F)
            if s.c is not None:
                s.c = (lambda c0: (lambda x, z, p: c0(x, z, {**p, **pv})))(s.c)
            if s.g is not None:
                s.g = (lambda g0: (lambda x, z, p: g0(x, z, {**p, **pv})))(s.g)
        d.pg = []
    wrapF = []
    # ---- features that extend the dynamics
    if "u" in feats:
        d.nu = 2 if "u2" in feats else 1
        wrapF.append(lambda col, k, x, u, z, p, v: [col[i] + (u[0] if i == 0 else u[-1] * (k + 1)) for i in range(nx)])
    if "tv" in feats:
        d.tv = ["t0", "t1"] if "tv2" in feats else ["t0"]
        wrapF.append(lambda col, k, x, u, z, p, v: [col[i] + (k + 1) * p[d.tv[-1 if i else 0]] for i in range(nx)])
    if "v" in feats:
        d.nv = 2 if "v2" in feats else 1
        wrapF.append(lambda col, k, x, u, z, p, v: [col[i] + (v[0] if i == 0 else v[-1] * x[0]) for i in range(nx)])
    if "z" in feats:
        d.nz = 2 if "z2" in feats else 1
        wrapF.append(lambda col, k, x, u, z, p, v: [col[i] + (z[0] * (2 - k) if i == 0 else z[-1]) for i in range(nx)])
        d.pg.append("gz0")
        uu, ztv = "u" in feats, "tv" in feats
        d.gz = lambda x, u, z, p: [z[i] - p["gz0"] * x[min(i, nx - 1)] - (i + 1) * (u[0] if uu else 1.0)
                                   - (0.5 * p[d.tv[-1]] if ztv and i == d.nz - 1 else 0.0) for i in range(d.nz)]
        if "zb" in feats:
            d.lbz = np.array([-6.0 - i for i in range(d.nz)])
            d.ubz = np.array([7.0 + i for i in range(d.nz)])
        d.z0 = np.array([0.3 + i for i in range(d.nz)])
    if "cz" in feats:         # switching function depends on the algebraic variable
        for s in d.systems:
            if s.c is not None:
                s.c = (lambda c0: (lambda x, z, p: [e + 0.5 * z[0] for e in c0(x, z, p)]))(s.c)
    if "ctv" in feats:        # switching / indicator functions depend on a time-varying parameter
        tvw = lambda c0, sg: (lambda x, z, p: [e + sg * p[d.tv[0]] * (i + 1) for i, e in enumerate(c0(x, z, p))])
        for s in d.systems:
            if s.c is not None:
                s.c = tvw(s.c, 0.25)
            if s.g is not None:
                s.g = tvw(s.g, 0.25)
        if d.fx is not None:
            d.calpha_list = [tvw(c0, 0.25) for c0 in d.calpha_list]
    if wrapF and d.fx is None:
        for s in d.systems[:1] if "onlyfirst" in feats else d.systems:
            s.F = (lambda F0: (lambda x, u, z, p, v: _wrap(F0(x, u, z, p, v), wrapF, x, u, z, p, v)))(s.F)
    elif wrapF:
        fx0 = d.fx
        d.fx = lambda x, u, z, al, p, v: _wrap([fx0(x, u, z, al, p, v)], wrapF, x, u, z, p, v)[0]
    if "clock" in feats:      # append a clock state with unit speed in mode 0 and 0.5 in the others
        d.nx = nx + 1
        d.t_index = nx
        for si, s in enumerate(d.systems):
            s.F = (lambda F0, si: (lambda x, u, z, p, v: [col + [(1.0 if k == 0 else 0.5) if si == 0 else 0.0]
                                                          for k, col in enumerate(F0(x[:nx], u, z, p, v))]))(s.F, si)
    # ---- ocp features
    hasu, hastv, hasv, hasz = d.nu > 0, bool(d.tv), d.nv > 0, d.nz > 0
    if "fq" in feats:
        d.pg += ["q0", "q1"]
        d.fq = lambda x, u, p, v: (p["q0"] * x[0] * x[0] + p["q1"] * x[-1] + (u[0] * u[0] if hasu else 0.0)
                                   + (p[d.tv[0]] * x[0] if hastv else 0.0) + (3.0 * v[0] if hasv else 0.0))
    if "fT" in feats:
        d.pg += ["T0"]
        d.fT = lambda x, p, v: (p["T0"] * x[0] * x[-1] + (2.0 * p[d.tv[0]] * x[0] if hastv else 0.0)
                                + (5.0 * v[0] if hasv else 0.0))
    if "gpath" in feats:
        d.pg += ["gp0", "gp1"]
        d.gpath = lambda x, u, p, v: [p["gp0"] * x[0] + (u[0] if hasu else 0.0) - (p[d.tv[0]] if hastv else 0.0),
                                      p["gp1"] + x[-1] * x[0] + (v[0] if hasv else 0.0)]
        if "gpeq" in feats:
            d.lbgp = d.ubgp = None
        else:
            d.lbgp, d.ubgp = np.array([-1.25, 0.5]), np.array([2.5, np.inf])
    if "gT" in feats:
        d.pg += ["gt0"]
        d.gT = lambda x, p, v: [x[0] - p["gt0"] * (p[d.tv[0]] if hastv else 1.0) + (v[0] if hasv else 0.0)]
    if "compx" in feats:      # stage-wise: depends on state
        d.pg += ["mx0"]
        d.comps.append(("stage", lambda x, u, z, p, v: (x[0] + p["mx0"], (x[-1] if d.nx > 1 else 2.0 * x[0]) + 4.0)))
    if "compxu" in feats:     # stage-wise: state and control
        d.pg += ["my0"]
        d.comps.append(("stage", lambda x, u, z, p, v: (x[0] * p["my0"] + 1.0, u[0] + 11.0)))
    if "compz" in feats:
        d.pg += ["mz0"]
        d.comps.append(("stage", lambda x, u, z, p, v: (z[0] + p["mz0"], 2.0 * z[-1] + 3.0)))
    if "compu" in feats:      # once per control stage
        d.pg += ["mu0"]
        d.comps.append(("ctrl", lambda x, u, z, p, v: (u[0] + p["mu0"], u[-1] + 12.0)))
    if "comptv" in feats:     # once per control stage through the time-varying parameter
        d.pg += ["mt0"]
        d.comps.append(("ctrl", lambda x, u, z, p, v: (p[d.tv[0]] + p["mt0"], p[d.tv[-1]] + (v[0] if hasv else 2.0))))
    if "compv" in feats:      # global
        d.pg += ["mv0"]
        d.comps.append(("global", lambda x, u, z, p, v: (v[0] + p["mv0"], v[-1] + 13.0)))
    if "bx" in feats:
        d.lbx = np.array([-7.0 - 0.5 * i for i in range(d.nx)])
        d.ubx = np.array([8.0 + 0.25 * i for i in range(d.nx)])
    if "bu" in feats and hasu:
        d.lbu = np.array([-3.0 - i for i in range(d.nu)])
        d.ubu = np.array([4.0 + i for i in range(d.nu)])
        d.u0 = np.array([0.25 if i == 0 else -9.0 for i in range(d.nu)])
    if "bv" in feats and hasv:
        d.lbv = np.array([-5.0 - i for i in range(d.nv)])
        d.ubv = np.array([6.0 + i for i in range(d.nv)])
        d.v0 = np.array([6.75 + i if i % 2 == 0 else 0.75 for i in range(d.nv)])    # one guess outside its bounds
    return d


def _wrap(cols, wraps, x, u, z, p, v):
    out = []
    for k, col in enumerate(cols):
        for w in wraps:
            col = w(col, k, x, u, z, p, v)
        out.append(col)
    return out
