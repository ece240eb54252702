"""Turn an undischarged query into a concrete counterexample.

The solver's abstract counterexample (linear abstraction of the products) is refined to a real point:
IPOPT maximises the violation of the goal subject to the facts, from several starts, and for
complementarity facts over several patterns of which factor is zero.  The point only counts if all
facts hold to 1e-7 and the goal is violated by more than `margin`; the caller then replays it against
the real code.
"""
import time

import casadi as ca
import numpy as np

import poly
import sxvm
from poly import ATOMS, P
from smt import F, OrF, INF


def _base_vars(ps):
    """plain variables (and uninterpreted atoms) that the polynomials depend on"""
    out, seen, todo = [], set(), [v for p in ps for v in p.vars()]
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        a = ATOMS[v]
        if a.kind in ("var", "uf"):
            out.append(v)
        else:
            for q in a.args:
                todo.extend(q.vars())
    return sorted(out)


def modelval(mdl, enc, v):
    z = enc.v2z.get(v)
    if z is None or mdl is None:
        return None
    x = mdl.eval(z)
    try:
        return float(x.numerator_as_long()) / float(x.denominator_as_long())
    except Exception:
        pass
    try:
        x = x.approx(20)
        return float(x.numerator_as_long()) / float(x.denominator_as_long())
    except Exception:
        return None


class Search:
    """reusable: same facts, several goals"""

    def __init__(self, facts, box, extra_vars=()):
        self.facts = [f for f in facts if isinstance(f, F)]
        self.ors = [f for f in facts if isinstance(f, OrF)]
        self.box = box
        self.vars = None
        self.extra = list(extra_vars)

    def find(self, goal, seeds=(), patterns=None, tries=6, margin=1e-3, budget=60, rng=None, zero=None):
        """patterns: iterable of lists of P forced to zero (one attempt each); seeds: list of dicts vid->value"""
        rng = rng or np.random.default_rng(1)
        goals = goal if isinstance(goal, (list, tuple)) else [goal]
        gps = [g.p for g in goals if isinstance(g, F)]
        ps = [f.p for f in self.facts] + gps + [f.p for o in self.ors for alt in o.alts for f in alt]
        vs = sorted(set(_base_vars(ps)) | set(self.extra))
        sx = ca.SX.sym("y", len(vs))
        mp = {v: sx[i] for i, v in enumerate(vs)}
        lo = np.array([float(self.box.iv(v)[0]) for v in vs])
        hi = np.array([float(self.box.iv(v)[1]) for v in vs])
        if getattr(self, "_cache_vs", None) != vs:
            self._cache_vs = vs
            self._g = [sxvm.to_sx(f.p, mp) for f in self.facts]
            self._sx = sx
        else:
            sx = self._sx
            mp = {v: sx[i] for i, v in enumerate(vs)}
        t0 = time.time()
        obj = []
        for g in goals:
            if not isinstance(g, F):
                continue
            e = sxvm.to_sx(g.p, mp)
            if g.hi != INF:
                obj.append(e - float(g.hi))
            if g.lo != -INF:
                obj.append(float(g.lo) - e)
        pats = list(patterns) if patterns is not None else [[]] * tries
        best = None
        for it, pat in enumerate(pats):
            orsel = []
            for o in self.ors:
                orsel += o.alts[rng.integers(len(o.alts))]
            fs = [(g, f.lo, f.hi) for g, f in zip(self._g, self.facts)]
            fs += [(sxvm.to_sx(f.p, mp), f.lo, f.hi) for f in orsel]
            fs += [(sxvm.to_sx(q, mp), 0, 0) for q in pat]
            if not fs:
                fs = [(ca.SX(0), -1, 1)]
            for ob in obj:
                if time.time() - t0 > budget:
                    return None
                y0 = lo + (hi - lo) * rng.uniform(0.3, 0.7, len(vs))
                if seeds and it % 2 == 0:
                    s = seeds[it // 2 % len(seeds)]
                    for i, v in enumerate(vs):
                        if s.get(v) is not None:
                            y0[i] = s[v]
                ub = 3.0 if it % 2 == 0 else 0.3
                # bounded violation keeps the maximisation well posed
                viol = ca.SX.sym("t")
                nlp = dict(x=ca.vertcat(sx, viol), f=-viol, g=ca.vertcat(*[a for a, _, _ in fs], ob - viol))
                try:
                    sol = ca.nlpsol("wit", "ipopt", nlp, {"print_time": 0, "ipopt": {
                        "print_level": 0, "sb": "yes", "max_iter": 400, "tol": 1e-9, "constr_viol_tol": 1e-10,
                        "bound_relax_factor": 0.0, "max_cpu_time": max(2.0, min(15.0, budget / 3))}})
                    r = sol(x0=np.append(y0, 0.0), lbx=np.append(lo, -50.0), ubx=np.append(hi, ub),
                            lbg=np.array([float(a) for _, a, _ in fs] + [0.0]),
                            ubg=np.array([float(b) for _, _, b in fs] + [INF]))
                except Exception:
                    continue
                y = np.array(r["x"]).flatten()[:-1]
                gv = np.array(r["g"]).flatten()[:-1]
                if not np.all(np.isfinite(y)):
                    continue
                bad = max([0.0] + [max(float(a) - q, q - float(b)) for q, (_, a, b) in zip(gv, fs)])
                env = {v: float(y[i]) for i, v in enumerate(vs)}
                gvio = self.violation(goals, env)
                if bad < 1e-7 and gvio > margin:
                    if best is None or gvio > best[1]:
                        best = (env, gvio)
                    return best
        return best

    @staticmethod
    def violation(goals, env):
        """how much the goal (conjunction of F / OrF) is violated at the point"""
        worst = 0.0
        for g in goals if isinstance(goals, (list, tuple)) else [goals]:
            worst = max(worst, goal_violation(g, env))
        return worst


def goal_violation(g, env):
    if isinstance(g, OrF):
        return min(max([0.0] + [goal_violation(f, env) for f in alt]) for alt in g.alts)
    if isinstance(g, (list, tuple)):
        return max([0.0] + [goal_violation(x, env) for x in g])
    x = float(g.p.ev(env)) if g.p.t else 0.0
    r = 0.0
    if g.lo != -INF:
        r = max(r, float(g.lo) - x)
    if g.hi != INF:
        r = max(r, x - float(g.hi))
    return r
