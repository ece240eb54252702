"""Independent reference formulation of the finite-element discretisation with switch detection.

Written from the theory (Runge-Kutta equations, Stewart / step reformulation, cross complementarity),
not from the library; it only uses the library's published index lists to name variables.
Every condition is a `Cond` (group, F or OrF, description).
"""
from fractions import Fraction

import numpy as np

import nlp
import poly
import tableau
from poly import P
from smt import F, OrF, INF, Box, Prover

Q = Fraction


class Cond:
    __slots__ = ("group", "f", "desc", "tol")

    def __init__(self, group, f, desc, tol=1e-6):
        self.group, self.f, self.desc, self.tol = group, f, desc, tol

    def __repr__(self):
        return f"{self.group}:{self.desc}"


def flat(l):
    if isinstance(l, (list, tuple)):
        return [y for x in l for y in flat(x)]
    return [l]


class Spec:
    def __init__(self, a, sigma_zero=False):
        """a: captured NLP"""
        self.a, self.c, self.d = a, a.cfg, a.d
        o = lambda k: nlp.full(a.cfg, k)
        self.o = o
        self.Nfe = nlp.layout(a.cfg)
        self.N = o("N_stages")
        self.ns = o("n_s")
        self.scheme = o("irk_scheme")
        self.rep = o("irk_representation")
        self.fesd = o("use_fesd")
        self.step = o("pss_mode") == "STEP"
        self.A, self.b, self.cc = tableau.tableau(self.scheme, self.ns)
        self.radau = self.scheme == "RADAU_IIA"
        self.T = Q(str(o("terminal_time")))
        self.gen = self.d.fx is not None
        self.nsys = self.d.nsys()
        self.conds = []
        self.pairs = []           # (theta P, lam P, label)
        self.nonneg = []          # (P, label)
        self.path_ends = []
        self.pairkey = []
        self._setup()

    # ---------------------------------------------------------------- naming
    def W(self, idx):
        return [self.a.w[i] for i in flat(idx)]

    def par(self, c):
        m = {n: poly.var(f"pg_{n}") for n in self.d.pg}
        m.update({n: poly.var(f"tv_{n}_{c}") for n in self.d.tv})
        return m

    def _setup(self):
        a, d, pr = self.a, self.d, self.a.prob
        self.fes = [(c, e) for c in range(self.N) for e in range(self.Nfe[c])]
        self.x0 = [poly.var(f"x0_{i}") for i in range(d.nx)]
        self.u = [self.W(pr.ind_u[c]) for c in range(self.N)]
        self.v = self.W(pr.ind_v_global)
        ih = flat(pr.ind_h)
        self.h, k = {}, 0
        for (c, e) in self.fes:
            if self.fesd:
                self.h[c, e] = a.w[ih[k]]
                k += 1
            else:
                self.h[c, e] = P.c(self.T / (self.N * self.Nfe[c]))
        sm = self.o("speed_of_time_variables")
        if sm == "LOCAL":
            self.sot = [self.W(pr.ind_sot[c])[0] for c in range(self.N)]
        elif sm == "GLOBAL":
            self.sot = [self.W(pr.ind_sot)[0]] * self.N
        else:
            self.sot = [P.c(1)] * self.N
        self.s_el = self.W(pr.ind_elastic)[0] if self.o("mpcc_mode").startswith("ELASTIC") else None
        self.nb = {}                       # number of dual stages (n_s or n_s + 1)
        self.z, self.th, self.lam, self.mu, self.al, self.ln, self.lp, self.vv = {}, {}, {}, {}, {}, {}, {}, {}
        self.X, self.xend = {}, {}
        for (c, e) in self.fes:
            boundary = self.fesd and not self.radau and e < self.Nfe[c] - 1
            self.nb[c, e] = self.ns + (1 if boundary else 0)
            for j in range(self.nb[c, e]):
                for s in range(self.nsys):
                    if self.step:
                        self.ln[c, e, j, s] = self.W(pr.ind_lambda_n[c][e][j][s])
                        self.lp[c, e, j, s] = self.W(pr.ind_lambda_p[c][e][j][s])
                    else:
                        self.lam[c, e, j, s] = self.W(pr.ind_lam[c][e][j][s])
                        self.mu[c, e, j, s] = self.W(pr.ind_mu[c][e][j][s])[0]
            for j in range(self.ns):
                for s in range(self.nsys):
                    if self.step:
                        self.al[c, e, j, s] = self.W(pr.ind_alpha[c][e][j][s])
                    else:
                        self.th[c, e, j, s] = self.W(pr.ind_theta[c][e][j][s])
                self.z[c, e, j] = self.W(pr.ind_z[c][e][j]) if d.nz else []
                if self.rep != "INTEGRAL":
                    self.vv[c, e, j] = self.W(pr.ind_v[c][e][j])
            self.xend[c, e] = self.W(pr.ind_x[c][e][-1])
            if self.rep != "DIFFERENTIAL":
                for j in range(self.ns):
                    self.X[c, e, j] = self.W(pr.ind_x[c][e][j])
        for (c, e) in self.fes:
            if self.rep == "DIFFERENTIAL":
                xp = self.xprev(c, e)
                for j in range(self.ns):
                    self.X[c, e, j] = [xp[i] + self.h[c, e] * sum((self.A[j][r] * self.vv[c, e, r][i]
                                                                   for r in range(self.ns)), P.c(0))
                                       for i in range(d.nx)]

    def prev(self, c, e):
        if e > 0:
            return (c, e - 1)
        if c > 0:
            return (c - 1, self.Nfe[c - 1] - 1)
        return None

    def xprev(self, c, e):
        q = self.prev(c, e)
        return self.x0 if q is None else self.xend[q]

    # ---------------------------------------------------------------- model pieces
    def swfun(self, s, x, z, p):
        """c (step / sign matrix) of subsystem s"""
        if self.gen:
            return [poly.co(q) for q in self.d.calpha_list[s](x, z, p)]
        return [poly.co(q) for q in self.d.systems[s].c(x, z, p)]

    def gfun(self, s, x, z, p):
        sy = self.d.systems[s]
        if sy.g is not None:
            return [poly.co(q) for q in sy.g(x, z, p)]
        cs = self.swfun(s, x, z, p)
        return [-sum((int(sy.S[i, k]) * cs[k] for k in range(sy.S.shape[1])), P.c(0)) for i in range(sy.S.shape[0])]

    def modes(self, s, x, u, z, p, v):
        return [[poly.co(q) for q in col] for col in self.d.systems[s].F(x, u, z, p, v)]

    def weights(self, c, e, j, s):
        """mode weights of subsystem s at a stage"""
        if not self.step:
            return self.th[c, e, j, s]
        S = self.d.systems[s].S
        al = self.al[c, e, j, s]
        out = []
        for i in range(S.shape[0]):
            w = P.c(1)
            for k in range(S.shape[1]):
                if S[i, k] == 1:
                    w = w * al[k]
                elif S[i, k] == -1:
                    w = w * (1 - al[k])
            out.append(w)
        return out

    def rhs(self, c, e, j):
        x, u, z, p = self.X[c, e, j], self.u[c], self.z[c, e, j], self.par(c)
        if self.gen:
            return [poly.co(q) for q in self.d.fx(x, u, z, [self.al[c, e, j, s] for s in range(self.nsys)], p, self.v)]
        f = [P.c(0)] * self.d.nx
        for s in range(self.nsys):
            w = self.weights(c, e, j, s)
            for k, col in enumerate(self.modes(s, x, u, z, p, self.v)):
                f = [f[i] + w[k] * col[i] for i in range(self.d.nx)]
        return f

    # ---------------------------------------------------------------- conditions
    def add(self, group, p, lo=0, hi=0, desc="", tol=1e-6):
        self.conds.append(Cond(group, F(p, lo, hi, desc), desc, tol))

    def build(self):
        for (c, e) in self.fes:
            self._irk(c, e)
            self._alg(c, e)
            self._path(c, e)
        self._comp_pairs()
        self._time()
        self._bounds()
        self._terminal()
        self._user_comp()
        self._steq()
        return self

    def _irk(self, c, e):
        d, h, sot = self.d, self.h[c, e], self.sot[c]
        xp, xe = self.xprev(c, e), self.xend[c, e]
        fs = [[sot * q for q in self.rhs(c, e, j)] for j in range(self.ns)]
        for j in range(self.ns):
            at = f"fe({c},{e}) stage {j}"
            X = self.X[c, e, j]
            if self.rep == "INTEGRAL":
                for i in range(d.nx):
                    self.add("irk", X[i] - xp[i] - h * sum((self.A[j][r] * fs[r][i] for r in range(self.ns)), P.c(0)),
                             desc=f"{at}: x{i} = x_prev + h*sum A f")
            else:
                for i in range(d.nx):
                    self.add("irk", self.vv[c, e, j][i] - fs[j][i], desc=f"{at}: v{i} = f")
                if self.rep == "DIFFERENTIAL_LIFT_X":
                    for i in range(d.nx):
                        self.add("irk", X[i] - xp[i] - h * sum((self.A[j][r] * self.vv[c, e, r][i]
                                                                for r in range(self.ns)), P.c(0)),
                                 desc=f"{at}: x{i} = x_prev + h*sum A v")
            if d.gz is not None:
                for i, q in enumerate(d.gz(X, self.u[c], self.z[c, e, j], self.par(c))):
                    self.add("gz", poly.co(q), desc=f"{at}: g_z[{i}] = 0")
        for i in range(d.nx):
            ks = [self.vv[c, e, r][i] for r in range(self.ns)] if self.rep != "INTEGRAL" else [fs[r][i] for r in range(self.ns)]
            self.add("irk", xe[i] - xp[i] - h * sum((self.b[r] * ks[r] for r in range(self.ns)), P.c(0)),
                     desc=f"fe({c},{e}): x_end{i} = x_prev + h*sum b f")

    def _alg(self, c, e):
        """switching equations at the stages and at the stored right boundary"""
        p = self.par(c)
        for j in range(self.nb[c, e]):
            at = f"fe({c},{e}) " + (f"stage {j}" if j < self.ns else "right boundary")
            x = self.X[c, e, j] if j < self.ns else self.xend[c, e]
            z = self.z[c, e, min(j, self.ns - 1)]
            for s in range(self.nsys):
                if self.step:
                    cs = self.swfun(s, x, z, p)
                    for k, q in enumerate(cs):
                        self.add("switch", q - self.lp[c, e, j, s][k] + self.ln[c, e, j, s][k],
                                 desc=f"{at}: c{k}(sys{s}) = lambda_p - lambda_n")
                        self.nonneg.append((self.lp[c, e, j, s][k], f"{at} lambda_p{k}(sys{s})"))
                        self.nonneg.append((self.ln[c, e, j, s][k], f"{at} lambda_n{k}(sys{s})"))
                else:
                    for k, q in enumerate(self.gfun(s, x, z, p)):
                        self.add("switch", q - self.lam[c, e, j, s][k] + self.mu[c, e, j, s],
                                 desc=f"{at}: g{k}(sys{s}) = lambda - mu")
                        self.nonneg.append((self.lam[c, e, j, s][k], f"{at} lambda{k}(sys{s})"))
                if j < self.ns:
                    if self.step:
                        for k, q in enumerate(self.al[c, e, j, s]):
                            self.nonneg.append((q, f"{at} alpha{k}(sys{s})"))
                            self.nonneg.append((1 - q, f"{at} 1-alpha{k}(sys{s})"))
                    else:
                        th = self.th[c, e, j, s]
                        self.add("convex", sum(th, P.c(0)) - 1, desc=f"{at}: sum theta(sys{s}) = 1")
                        for k, q in enumerate(th):
                            self.nonneg.append((q, f"{at} theta{k}(sys{s})"))

    def lam00(self, s):
        """exact initial multipliers of subsystem s: Stewart: list; step: (n, p)"""
        z0 = [P.c(v) for v in (self.d.z0 if self.d.nz else [])]
        if getattr(self, "z0sym", None):
            z0 = self.z0sym
        if self.step:
            cs = self.swfun(s, self.x0, z0, self.par(0))
            return ([poly.fmax(-q, 0) for q in cs], [poly.fmax(q, 0) for q in cs])
        g = self.gfun(s, self.x0, z0, self.par(0))
        m = poly.fmin(*g)
        return [q - m for q in g]

    def duals(self, c, e, j, s):
        """list of (matching convex/step selector key, dual P, label)"""
        if self.step:
            return ([(("a", k), q) for k, q in enumerate(self.ln[c, e, j, s])] +
                    [(("1-a", k), q) for k, q in enumerate(self.lp[c, e, j, s])])
        return [(("t", k), q) for k, q in enumerate(self.lam[c, e, j, s])]

    def duals00(self, s):
        if self.step:
            n, p = self.lam00(s)
            return [(("a", k), q) for k, q in enumerate(n)] + [(("1-a", k), q) for k, q in enumerate(p)]
        return [(("t", k), q) for k, q in enumerate(self.lam00(s))]

    def primal(self, c, e, j, s):
        if self.step:
            r = {("a", k): q for k, q in enumerate(self.al[c, e, j, s])}
            r.update({("1-a", k): 1 - q for k, q in enumerate(self.al[c, e, j, s])})
            return r
        return {("t", k): q for k, q in enumerate(self.th[c, e, j, s])}

    def _comp_pairs(self):
        for (c, e) in self.fes:
            for j in range(self.ns):
                for s in range(self.nsys):
                    pm = self.primal(c, e, j, s)
                    if not self.fesd:
                        for k, lam in self.duals(c, e, j, s):
                            self.pairs.append((pm[k], lam, f"fe({c},{e}) stage {j} {k} sys{s} with stage {j}"))
                            self.pairkey.append((c, e, j, s, k))
                        continue
                    for jj in range(self.nb[c, e]):
                        for k, lam in self.duals(c, e, jj, s):
                            self.pairs.append((pm[k], lam, f"fe({c},{e}) stage {j} {k} sys{s} with dual point {jj}"))
                            self.pairkey.append((c, e, s, k))
                    q = self.prev(c, e)
                    dl = self.duals00(s) if q is None else self.duals(q[0], q[1], self.nb[q] - 1, s)
                    for k, lam in dl:
                        self.pairs.append((pm[k], lam, f"fe({c},{e}) stage {j} {k} sys{s} with previous end"))
                        self.pairkey.append((c, e, s, k))

    def _time(self):
        if not self.fesd:
            return
        gam = Q(str(self.o("gamma_h")))
        for (c, e) in self.fes:
            h0 = self.T / (self.N * self.Nfe[c])
            self.add("hbox", self.h[c, e], float((1 - gam) * h0), float((1 + gam) * h0), f"h({c},{e}) bounds")
        if self.o("equidistant_control_grid"):
            for c in range(self.N):
                self.add("time", sum((self.h[c, e] for e in range(self.Nfe[c])), P.c(0)) - self.T / self.N,
                         desc=f"stage {c}: sum h = T/N")
        else:
            self.add("time", sum((self.h[f] for f in self.fes), P.c(0)) - self.T, desc="sum of all h = T")

    def _bounds(self):
        d = self.d
        inf = float("inf")

        def box(grp, ps, lb, ub, what):
            for i, q in enumerate(ps):
                lo = -inf if lb is None else lb[i]
                hi = inf if ub is None else ub[i]
                if lo == -inf and hi == inf:
                    continue
                self.add(grp, q, lo, hi, f"{what}[{i}] bounds")
        for c in range(self.N):
            box("ubox", self.u[c], d.lbu, d.ubu, f"u({c})")
        box("vbox", self.v, d.lbv, d.ubv, "v_global")
        for (c, e) in self.fes:
            for j in range(self.ns):
                if self.rep != "DIFFERENTIAL":
                    box("xbox", self.X[c, e, j], d.lbx, d.ubx, f"x({c},{e},{j})")
                box("zbox", self.z[c, e, j], d.lbz, d.ubz, f"z({c},{e},{j})")
            box("xbox", self.xend[c, e], d.lbx, d.ubx, f"x_end({c},{e})")
        if self.o("speed_of_time_variables") != "NONE":
            for c, q in enumerate(self.sot):
                self.add("sot", q, self.o("speed_of_time_min"), self.o("speed_of_time_max"), f"sot({c}) bounds")
        if self.s_el is not None:
            self.add("elastic", self.s_el, self.o("s_elastic_min"), self.o("s_elastic_max"), "s_elastic bounds")

    def _path(self, c, e):
        d = self.d
        if d.gpath is None:
            return
        lo = d.lbgp if d.lbgp is not None else [0, 0]
        hi = d.ubgp if d.ubgp is not None else [0, 0]
        pts = []
        if e == self.Nfe[c] - 1 or self.o("g_path_at_fe") or (self.o("g_path_at_stg") and self.radau):
            pts.append((self.xend[c, e], f"end of fe({c},{e})"))
            self.path_ends.append((c, e))
        if self.o("g_path_at_stg"):
            for j in range(self.ns - (1 if self.radau else 0)):
                pts.append((self.X[c, e, j], f"fe({c},{e}) stage {j}"))
        for x, at in pts:
            for i, q in enumerate(d.gpath(x, self.u[c], self.par(c), self.v)):
                self.add("path", poly.co(q), float(lo[i]), float(hi[i]), f"g_path[{i}] at {at}")

    def _terminal(self):
        d = self.d
        last = self.fes[-1]
        if d.gT is not None:
            for i, q in enumerate(d.gT(self.xend[last], self.par(self.N - 1), self.v)):
                self.add("term", poly.co(q), desc=f"g_terminal[{i}] = 0")
        if self.o("time_freezing") and self.o("equidistant_control_grid"):
            tol = self.o("time_freezing_tolerance")
            for c in range(self.N):
                q = self.xend[c, self.Nfe[c] - 1][d.t_index] - self.x0[d.t_index] - (self.T / self.N) * (c + 1)
                self.add("clock", q, -tol, tol, f"clock at the end of stage {c}")

    def relax(self):
        return self.s_el if self.s_el is not None else self.a.sigma

    def _user_comp(self):
        self.upairs = []
        for n, (kind, fn) in enumerate(self.d.comps):
            if kind == "stage":
                for (c, e) in self.fes:
                    for j in range(self.ns):
                        ab = fn(self.X[c, e, j], self.u[c], self.z[c, e, j], self.par(c), self.v)
                        self.upairs.append((n, ab, f"user pair {n} at fe({c},{e}) stage {j}"))
            elif kind == "ctrl":
                for c in range(self.N):
                    self.upairs.append((n, fn(None, self.u[c], None, self.par(c), self.v), f"user pair {n} on stage {c}"))
            else:
                self.upairs.append((n, fn(None, None, None, self.par(0), self.v), f"user pair {n} (global)"))
        self.upairs = [(n, (poly.co(a), poly.co(b)), s) for n, (a, b), s in self.upairs]

    # ---- step equilibration
    def _dualvec(self, f, j):
        out = []
        for part in (0, 1):
            for s in range(self.nsys):
                if self.step:
                    out += (self.ln if part == 0 else self.lp)[f + (j, s)]
                elif part == 0:
                    out += self.lam[f + (j, s)]
        return out

    def _dualvec00(self):
        out = []
        for part in (0, 1):
            for s in range(self.nsys):
                l = self.lam00(s)
                if self.step:
                    out += l[part]
                elif part == 0:
                    out += l
        return out

    def _primvec(self, f, j):
        out = []
        if self.step:
            al = [q for s in range(self.nsys) for q in self.al[f + (j, s)]]
            return al + [1 - q for q in al]
        return [q for s in range(self.nsys) for q in self.th[f + (j, s)]]

    def dualsum(self, f):
        vs = [self._dualvec(f, j) for j in range(self.nb[f])]
        q = self.prev(*f)
        vs.append(self._dualvec00() if q is None else self._dualvec(q, self.nb[q] - 1))
        return [sum(col, P.c(0)) for col in zip(*vs)]

    def primsum(self, f):
        return [sum(col, P.c(0)) for col in zip(*[self._primvec(f, j) for j in range(self.ns)])]

    def nu(self, f):
        q = self.prev(*f)
        B, Fw, TB, TF = self.dualsum(q), self.dualsum(f), self.primsum(q), self.primsum(f)
        r = P.c(1)
        for i in range(len(B)):
            r = r * (B[i] * Fw[i] + TB[i] * TF[i])
        return r

    def _steq(self):
        self.steq_cost = P.c(0)
        if not self.fesd:
            return
        m = self.o("step_equilibration")
        rho = Q(str(self.o("rho_h")))
        for (c, e) in self.fes:
            h = self.h[c, e]
            if m == "HEURISTIC_MEAN":
                self.steq_cost = self.steq_cost + rho * (h - self.T / (self.N * self.Nfe[c])) ** 2
                continue
            if e == 0:
                continue
            dh = h - self.h[c, e - 1]
            if m == "HEURISTIC_DELTA":
                self.steq_cost = self.steq_cost + rho * dh ** 2
            elif m == "L2_RELAXED":
                self.steq_cost = self.steq_cost + rho * self.nu((c, e)) * dh ** 2
            elif m == "L2_RELAXED_SCALED":
                self.steq_cost = self.steq_cost + rho * poly.func(
                    "tanh", self.nu((c, e)) / Q(str(self.o("step_equilibration_sigma")))) * dh ** 2
            elif m == "DIRECT":
                self.add("steq", self.nu((c, e)) * dh, desc=f"nu*(h({c},{e}) - h({c},{e-1})) = 0")

    # ---- objective
    def objective(self):
        d = self.d
        f = P.c(0)
        if d.fq is not None:
            for (c, e) in self.fes:
                for j in range(self.ns):
                    f = f + self.sot[c] * self.h[c, e] * self.b[j] * poly.co(
                        d.fq(self.X[c, e, j], self.u[c], self.par(c), self.v))
        if d.fT is not None:
            f = f + poly.co(d.fT(self.xend[self.fes[-1]], self.par(self.N - 1), self.v))
        f = f + self.steq_cost
        if self.s_el is not None:
            if self.o("objective_scaling_direct"):
                f = f + self.s_el * poly.inv(self.a.sigma)
            else:
                f = self.a.sigma * f + self.s_el
        return f

    # ---- derived boxes
    def spec_box(self, r=10.0):
        """intervals implied by the reference conditions (for completeness queries)"""
        b = Box()
        if r != 10.0:       # a larger box for everything that is not bounded by the reference
            for v, at in enumerate(poly.ATOMS):
                if at.kind == "var" and at.lo is None and at.hi is None:
                    b.set(v, Q(-r), Q(r))
        for cnd in self.conds:
            f = cnd.f
            if isinstance(f, F) and f.p.is_var() and f.lo != f.hi:
                lo = max(-r, f.lo)
                hi = min(r, f.hi) if f.hi != INF else r
                b.set(f.p.vid(), Q(lo), Q(max(lo, hi)))
        for q, _ in self.nonneg:
            if q.is_var():
                iv = b.iv(q.vid())
                b.set(q.vid(), max(Q(0), iv[0]), iv[1])
            else:       # 1 - alpha
                (v,) = q.vars()
                iv = b.iv(v)
                b.set(v, iv[0], min(Q(1), iv[1]))
        for v in ("theta",):
            pass
        return b

    def nlp_box(self):
        b = Box()
        for i in range(self.a.n):
            lo, hi = self.a.lbx[i], self.a.ubx[i]
            lo = max(-10.0, lo)
            hi = min(25.0 if hi < 1e6 and hi > 10 else 10.0, hi)
            if lo > hi:
                lo, hi = min(lo, hi), max(lo, hi)
            b.set(self.a.w[i].vid(), Q(lo), Q(hi))
        return b
