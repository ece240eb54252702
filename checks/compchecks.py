"""Properties of complementarity: which mode the multipliers select (C04), what each MPCC reformulation means
(C06), the complementarity residual (C07) and the initial multipliers (C14).  Engine A (see nlpchecks)."""
from fractions import Fraction

import numpy as np

import configs
import engine
import nlp
import nlpchecks as nc
import poly
import runner
import smt
import spec as specmod
import witness
from configs import ALL, EQ, cover, dims
from poly import P, ATOMS
from smt import F, OrF, INF

DELTA = Fraction(1, 1000)
label = nc.label

INFO = dict(
    C04=dict(
        explanation="bounded symbolic verification of the NLP built by the real code: the rows of one Runge-Kutta stage "
        "(switching and convexity equations), exact complementarity of that stage, and a state that lies at least 1e-3 "
        "inside region r are assumed; z3 must refute multipliers other than region r's. With those multipliers "
        "substituted into the rows of the element, z3 must refute a right-hand side other than region r's vector field.",
        bounds="symbolic: all variables, initial state, parameters in [-10,10]; every region at every stage of every "
        "element. enumerated: 14 models (2-8 modes, full and partial sign matrices, direct indicators, general "
        "inclusion, two subsystems) x Stewart/Step x representation x scheme x n_s (pairwise covering array). outside: "
        "margin below 1e-3, larger models, stages beyond 2 elements x 3 stages",
        assumptions=nc.ASSUME))


def info(prop):
    return INFO[prop]


# =================================================================================== C04
def _c04_items(tier):
    d = dict(
        model=[("a1", ()), ("a2", ()), ("a2rev", ()), ("a4", ()), ("s22", ()), ("s24", ()), ("a3", ()), ("s23", ()),
               ("a5", ()), ("a8", ()), ("g3", ()), ("gi2", ()), ("q2", ()), ("s222", ()), ("gs2", ()), ("gi22", ())],
        feats=[(), ("u", "tv"), ("z", "cz")],
        irk_representation=["INTEGRAL", "DIFFERENTIAL", "DIFFERENTIAL_LIFT_X"],
        irk_scheme=["RADAU_IIA", "GAUSS_LEGENDRE"], n_s=[1, 2, 3], use_fesd=[True, False],
        pss_mode=["STEWART", "STEP"], mpcc_mode=["SCHOLTES_INEQ", "SCHOLTES_EQ"], cross_comp_mode=[EQ, ALL],
        layout=[(1, [1]), (1, [2]), (2, [1, 1]), (1, 2)])

    def ok(q):
        m = q["model"][0]
        if not configs.pss_ok(m, q["pss_mode"]):
            return False
        if "cz" in q["feats"] and m in configs.DIRECT + configs.INCL:
            return False
        if m in ("a3", "s23", "a5") and q["pss_mode"] == "STEWART":
            return False        # separate items below
        if m in ("a8", "a5", "s23", "s24", "s222", "gs2") and configs.n_elem(q) * q["n_s"] > 4:
            return False
        return True
    cs = configs.arrays(tier, d, ok, quick3=120)
    for m in ("a3", "s23", "a5"):
        cs.append(nlp.cfg(m, [], n_s=1, pss_mode="STEWART", N_finite_elements=1, Nfe_list=[1]))
    cs.sort(key=lambda c: -sum(nlp.layout(c)) * nlp.full(c, "n_s") * (3 if c["model"] == "a8" else 1))
    return cs


def region_facts(s, c, e, j, sys, r, margin=DELTA):
    """state at least `margin` inside region r of a subsystem"""
    x, z, p = s.X[c, e, j], s.z[c, e, j], s.par(c)
    if s.gen:
        cs = s.swfun(sys, x, z, p)
        return [F(cs[k] if sg > 0 else -cs[k], margin, INF, "region") for k, sg in enumerate(r)]
    sy = s.d.systems[sys]
    if sy.g is not None:
        g = s.gfun(sys, x, z, p)
        return [F(g[k] - g[r], margin, INF, "region") for k in range(len(g)) if k != r]
    cs = s.swfun(sys, x, z, p)
    return [F(int(sy.S[r, k]) * cs[k], margin, INF, "region") for k in range(sy.S.shape[1]) if sy.S[r, k]]


def regions(s, sys):
    if s.gen:
        n = len(s.d.calpha_list[sys](s.x0, [P.c(0)] * 3, s.par(0)))
        return [tuple(1 if (i >> k) & 1 else -1 for k in range(n)) for i in range(2 ** n)]
    sy = s.d.systems[sys]
    return list(range(sy.S.shape[0] if sy.S is not None else len(s.gfun(0, s.x0, [P.c(0)] * 3, s.par(0)))))


def select_goals(s, c, e, j, sys, r):
    """the multipliers of region r: list of F"""
    if not s.step:
        return [F(q, 1 if k == r else 0, 1 if k == r else 0, f"theta{k}") for k, q in enumerate(s.th[c, e, j, sys])]
    al = s.al[c, e, j, sys]
    row = r if s.gen else [int(v) for v in s.d.systems[sys].S[r]]
    return [F(al[k], (1 + sg) // 2, (1 + sg) // 2, f"alpha{k}") for k, sg in enumerate(row) if sg]


def stage_rows(a, s, c, e, j):
    """rows in which a multiplier of this stage occurs as a linear term (switching and convexity equations)"""
    ids = set()
    for sys in range(s.nsys):
        if s.step:
            vs = s.ln[c, e, j, sys] + s.lp[c, e, j, sys] + s.al[c, e, j, sys]
        else:
            vs = s.lam[c, e, j, sys] + [s.mu[c, e, j, sys]] + s.th[c, e, j, sys]
        ids |= {((v.vid(), 1),) for v in vs}
    out = []
    for i, g in enumerate(a.g):
        ms = set(g.t)
        if ms & ids and a.lbg[i] == a.ubg[i] and len(g.t) <= 60:
            out.append(i)
    return out


def stage_pairs(s, c, e, j, sys):
    pm = s.primal(c, e, j, sys)
    return [(pm[k], lam) for k, lam in s.duals(c, e, j, sys)]


def c04_run(c, it):
    got = nc.load(c, it)
    if got is None:
        return
    a, s = got
    it.sample(f"{c.label()}: {a.n} variables, {len(a.g)} rows")
    pr = smt.Prover([F(a.g[i], a.lbg[i], a.ubg[i], f"row{i}") for i in range(len(a.g))], s.nlp_box())
    pr.box.set(a.sigma.vid(), 0, 1)
    failed = []
    for (ce, e) in s.fes:
        for j in range(s.ns):
            rows = stage_rows(a, s, ce, e, j)
            for sys in range(s.nsys):
                # range of the multipliers
                prim = s.al[ce, e, j, sys] if s.step else s.th[ce, e, j, sys]
                gs = [F(q, 0, 1 if s.step else INF, "range") for q in prim]
                if not s.step:
                    gs.append(F(sum(prim, P.c(0)), 1, 1, "sum"))
                for g in gs:
                    decide(pr, rows, g, [], it, failed, (ce, e, j, sys, None, g.tag))
                comp = [OrF([[F(x)], [F(y)]], "exact") for x, y in stage_pairs(s, ce, e, j, sys)]
                for r in regions(s, sys):
                    goal = select_goals(s, ce, e, j, sys, r)
                    decide(pr, rows, goal, comp + region_facts(s, ce, e, j, sys, r), it, failed,
                           (ce, e, j, sys, r, "region"))
    rhs_part(a, s, it, failed)
    # the switching and convexity rows exclude nothing that the reference admits
    own = {"switching", "convex"}
    labs = {("row", i) for i in range(len(a.g)) if nc.owner(a, s, ("row", i)) in own}
    res, _ = engine.complete(a, s, engine.spec_prover(a, s), only=lambda lab: lab in labs)
    nc.do_complete(a, s, it, res)
    if it.r["violations"]:
        return
    # reachability twin: an exactly complementary feasible point inside a region exists
    vac = c04_witness(a, s, (0, 0, 0, 0, regions(s, 0)[0], "reach"))
    if vac is not None:
        it.witness()
    done = set()
    for key in failed:
        ce, e, j, sys, r, what = key
        k = f"{what}:{nlp.full(c, 'pss_mode')}:{c['model']}:sys{sys}:r{r}".replace(" ", "")
        if k in done:
            continue
        w = c04_witness(a, s, key)
        if w is not None:
            good, txt = c04_replay(w)
            a, s = engine.load(c)        # the replay rebuilt the tables
            if good:
                done.add(k)
                it.violation(k, f"{c.label()}: {txt}", w)
                continue
        it.undecided(f"{key}: not shown, no concrete counterexample found")


def decide(pr, rows, goal, extra, it, failed, key):
    v, mdl, enc = pr.query(rows, goal, 1e-6, False, 20, extra)
    if v != "unsat" and rows:
        r = pr.prove(goal if not isinstance(goal, list) or len(goal) > 1 else goal[0], extra=extra, timeout=20)
        v = "unsat" if r.verdict == "holds" else "sat"
    if v == "unsat":
        it.ok()
    else:
        failed.append(key)


class Selected(specmod.Spec):
    """reference in which every stage's right-hand side is the vector field of a given region"""
    pick = None

    def rhs(self, c, e, j):
        x, u, z, p = self.X[c, e, j], self.u[c], self.z[c, e, j], self.par(c)
        if self.gen:
            al = [[P.c((1 + sg) // 2) for sg in self.pick(c, e, j, s)] for s in range(self.nsys)]
            return [poly.co(q) for q in self.d.fx(x, u, z, al, p, self.v)]
        f = [P.c(0)] * self.d.nx
        for s in range(self.nsys):
            col = self.modes(s, x, u, z, p, self.v)[self.pick(c, e, j, s)]
            f = [f[i] + col[i] for i in range(self.d.nx)]
        return f


def rhs_part(a, s, it, failed):
    """with the multipliers of region r (a different one at every stage) the dynamics are region r's"""
    nreg = max(len(regions(s, q)) for q in range(s.nsys))
    for shift in range(nreg):
        def pick(c, e, j, sys):
            rs = regions(s, sys)
            return rs[(shift + j + e + c + sys) % len(rs)]
        mp = {}
        for (c, e) in s.fes:
            for j in range(s.ns):
                for sys in range(s.nsys):
                    for f in select_goals(s, c, e, j, sys, pick(c, e, j, sys)):
                        mp[f.p.vid()] = P.c(Fraction(f.lo))
        facts = [F(g.subs(mp) if g.vars() & set(mp) else g, a.lbg[i], a.ubg[i], f"row{i}") for i, g in enumerate(a.g)]
        pr = smt.Prover(facts, s.nlp_box())
        sel = Selected(a)
        sel.pick = pick
        for (c, e) in s.fes:
            sel._irk(c, e)
        for cd in sel.conds:
            if cd.group != "irk":
                continue
            r = pr.prove(cd.f, tol=cd.tol)
            if r.verdict == "holds":
                it.ok()
            else:
                failed.append((0, 0, 0, 0, shift, "rhs " + nc.family(cd.desc)))


def c04_facts(a, s):
    z = {a.sigma.vid(): P.c(0)}
    tau = []
    fs = [F(engine.at_zero(a, s, a.g[i]), a.lbg[i], a.ubg[i], f"row{i}") for i in range(len(a.g))]
    return fs


def c04_witness(a, s, key, tries=24, budget=40):
    """concrete exactly complementary NLP-feasible point; the state of stage key lies in region r"""
    ce, e, j, sys, r, what = key
    rng = np.random.default_rng(3)
    facts = c04_facts(a, s)
    if what == "region" or what == "reach":
        facts += region_facts(s, ce, e, j, sys, r, Fraction(1, 10))
        goals = select_goals(s, ce, e, j, sys, r) if what == "region" else [F(P.c(0), 1, 1)]
    elif what == "range" or what == "sum":
        prim = s.al[ce, e, j, sys] if s.step else s.th[ce, e, j, sys]
        goals = [F(q, 0, 1 if s.step else INF, "range") for q in prim]
        if not s.step:
            goals.append(F(sum(prim, P.c(0)), 1, 1, "sum"))
    else:
        return c04_rhs_witness(a, s, key)
    box = s.nlp_box()
    se = witness.Search(facts, box, extra_vars=[w.vid() for w in a.w])
    got = se.find(goals, patterns=engine.patterns(a, s, tries, rng), budget=budget, rng=rng)
    if got is None:
        return None
    env = dict(got[0])
    env[a.sigma.vid()] = 0.0
    env = engine.full_env(a, env)
    return dict(kind="c04", cfg=dict(a.cfg), key=list(key), env=engine.names_of(a, env))


def c04_rhs_witness(a, s, key, budget=40):
    """feasible point with the multipliers of a region whose Runge-Kutta step does not use that region's field"""
    shift = key[4]

    def pick(c, e, j, sys):
        rs = regions(s, sys)
        return rs[(shift + j + e + c + sys) % len(rs)]
    facts = c04_facts(a, s)
    for (c, e) in s.fes:
        for j in range(s.ns):
            for sys in range(s.nsys):
                facts += select_goals(s, c, e, j, sys, pick(c, e, j, sys))
    sel = Selected(a)
    sel.pick = pick
    for (c, e) in s.fes:
        sel._irk(c, e)
    goals = [cd.f for cd in sel.conds if cd.group == "irk"]
    se = witness.Search(facts, s.nlp_box(), extra_vars=[w.vid() for w in a.w])
    got = se.find(goals, tries=6, budget=budget)
    if got is None:
        return None
    env = dict(got[0])
    env[a.sigma.vid()] = 0.0
    env = engine.full_env(a, env)
    return dict(kind="c04", cfg=dict(a.cfg), key=list(key), env=engine.names_of(a, env))


def c04_replay(rp):
    c = nlp.Cfg(rp["cfg"])
    a, s = engine.load(c)
    names = rp["env"]
    env = {v: names[at.name] for v, at in enumerate(ATOMS) if at.kind == "var" and at.name in names}
    env = engine.full_env(a, env)
    rr = engine.eval_real(c, names, a.n, sigma=0.0)
    inf = engine.real_infeasibility(rr)
    ce, e, j, sys, r, what = rp["key"]
    if isinstance(r, list):
        r = tuple(r)
    if what.startswith("rhs"):
        def pick(c_, e_, j_, sys_):
            rs = regions(s, sys_)
            return rs[(r + j_ + e_ + c_ + sys_) % len(rs)]
        dev = 0.0
        for (c_, e_) in s.fes:
            for j_ in range(s.ns):
                for y in range(s.nsys):
                    for f in select_goals(s, c_, e_, j_, y, pick(c_, e_, j_, y)):
                        dev = max(dev, witness.goal_violation(f, env))
        sel = Selected(a)
        sel.pick = pick
        for f in s.fes:
            sel._irk(*f)
        v = max(witness.goal_violation(cd.f, env) for cd in sel.conds if cd.group == "irk")
        return inf < 1e-5 and dev < 1e-5 and v > 1e-4, (
            f"NLP-feasible point ({inf:.1e}) whose multipliers are exactly those of the regions ({dev:.1e}) but whose "
            f"Runge-Kutta step differs from the region's vector field by {v:.3g}")
    comp = max(abs(float((x * y).ev(env))) for x, y, l in s.pairs)
    if what == "region":
        m = min(float(f.p.ev(env)) for f in region_facts(s, ce, e, j, sys, r))
        v = max(witness.goal_violation(g, env) for g in select_goals(s, ce, e, j, sys, r))
        txt = (f"NLP-feasible point ({inf:.1e}) with exact complementarity ({comp:.1e}); the state of fe({ce},{e}) stage {j} "
               f"is {m:.3g} inside region {r} of subsystem {sys}, but the multipliers are "
               f"{[round(float(g.p.ev(env)), 4) for g in select_goals(s, ce, e, j, sys, r)]}, expected "
               f"{[float(g.lo) for g in select_goals(s, ce, e, j, sys, r)]}")
        return inf < 1e-5 and comp < 1e-5 and m > 1e-3 and v > 1e-3, txt
    prim = s.al[ce, e, j, sys] if s.step else s.th[ce, e, j, sys]
    vals = [float(q.ev(env)) for q in prim]
    bad = min(vals) < -1e-4 or (max(vals) > 1 + 1e-4 if s.step else abs(sum(vals) - 1) > 1e-4)
    return inf < 1e-5 and bad, f"NLP-feasible point ({inf:.1e}) with multipliers {vals} at fe({ce},{e}) stage {j}"


# =================================================================================== conditions replayed at a point
def pt_witness(a, s, prop, key, facts, goal, sigma, patterns=None, tries=8, budget=30, box=None, seed=4):
    """concrete point that satisfies `facts` (NLP rows at the given relaxation, or exact solutions) but not the goal"""
    box = box or s.nlp_box()
    if sigma is None:
        box.set(a.sigma.vid(), Fraction(1, 100), 1)
    else:
        box.set(a.sigma.vid(), Fraction(sigma), Fraction(sigma))
    se = witness.Search(facts, box, extra_vars=[w.vid() for w in a.w] + [a.sigma.vid()])
    got = se.find(goal, tries=tries, budget=budget, patterns=patterns, rng=np.random.default_rng(seed))
    if got is None:
        return None
    env = dict(got[0])
    env = engine.full_env(a, env)
    return dict(kind="pt", cfg=dict(a.cfg), key=key, env=engine.names_of(a, env))


def pt_env(names):
    return {v: names[at.name] for v, at in enumerate(ATOMS) if at.kind == "var" and at.name in names}


def rows(a):
    return [F(a.g[i], a.lbg[i], a.ubg[i], f"row{i}") for i in range(len(a.g))]


def sub_rows(a, mp):
    vs = set(mp)
    return [F(g.subs(mp), a.lbg[i], a.ubg[i], f"row{i}") for i, g in enumerate(a.g)]


def loaded(prop, c):
    return c14_load(c) if prop == "C14" else engine.load(c)


def pt_replay(prop, rp):
    """re-evaluate the real NLP at the point"""
    c = nlp.Cfg(rp["cfg"])
    a, s = loaded(prop, c)
    names = rp["env"]
    env = engine.full_env(a, pt_env(names))
    cond = next((q for q in CONDS[prop](a, s) if q["key"] == rp["key"]), None)
    if cond is None:
        return False, "no such condition"
    r = engine.eval_real(c, names, a.n, sigma=float(names["sigma"]))
    inf = engine.real_infeasibility(r)
    if cond["kind"] == "sound":
        v = witness.goal_violation(cond["goal"], env)
        pre = max([0.0] + [witness.goal_violation(f, env) for f in cond["extra"]])
        return inf < 1e-5 and pre < 1e-6 and v > 1e-4, (
            f"point is feasible for the generated NLP at relaxation {names['sigma']:.4g} (violation {inf:.1e}) but "
            f"violates '{cond['desc']}' by {v:.3g}")
    pre = max([0.0] + [witness.goal_violation(f, env) for f in cond["extra"]])
    i = cond["row"]
    v = max(r["lbg"][i] - r["g"][i], r["g"][i] - r["ubg"][i], 0.0)
    return pre < 1e-6 and v > 1e-4, (f"{cond['desc']}: conditions hold to {pre:.1e}, but row {i} of the generated NLP has value "
                                     f"{r['g'][i]:.6g} outside [{r['lbg'][i]:.4g}, {r['ubg'][i]:.4g}]")


def decide_conds(prop, c, a, s, conds, it):
    """conds: dicts key, kind (sound|complete), goal, facts (prover), extra, desc, nl, row"""
    failed = []
    provers = {}
    for q in conds:
        pr = q["prover"]
        v = "sat"
        if not q.get("nl"):
            r = pr.prove(q["goal"], extra=q["extra"])
            v = "unsat" if r.verdict == "holds" else "sat"
        if v != "unsat" and q.get("slice") is not None:
            v, mdl, enc = pr.query(q["slice"], q["goal"], 1e-6, True, q.get("timeout", 20), q["extra"])
        if v == "unsat":
            it.ok()
        else:
            failed.append(q)
    done = set()
    for q in failed:
        fam = nc.family(q["key"])
        if fam in done:
            it.r["obligations"] += 1
            continue
        facts = list(q["wfacts"]) + list(q["extra"])
        w = pt_witness(a, s, prop, q["key"], facts, q["goal"], q["sigma"], patterns=q.get("patterns"))
        if w is not None:
            good, txt = pt_replay(prop, w)
            if good:
                done.add(fam)
                it.violation(f"{fam}", f"{label(prop, c)}: {txt}", w)
                a, s = loaded(prop, c)
                again = {k["key"]: k for k in CONDS[prop](a, s)}
                failed2 = [again[k["key"]] for k in failed]
                failed[:] = failed2
                continue
        it.undecided(f"{q['desc']}: not shown, no concrete counterexample found")


# =================================================================================== C06
FB = ("FISCHER_BURMEISTER", "FISCHER_BURMEISTER_IP_AUG")


def _c06_items(tier):
    out = []
    for mode in ("SCHOLTES_INEQ", "SCHOLTES_EQ", "ELASTIC_INEQ", "ELASTIC_EQ", "ELASTIC_TWO_SIDED") + FB:
        for pss in ("STEWART", "STEP"):
            for cm in (EQ, ALL):
                for fesd in (True, False):
                    if not fesd and cm == EQ:
                        continue
                    if mode in FB and fesd and cm == EQ:
                        continue                    # documented as unsupported
                    lays = [(1, [2], 1, "RADAU_IIA"), (1, [1], 2, "GAUSS_LEGENDRE")]
                    if tier == "thorough":
                        lays += [(2, [2, 1], 2, "RADAU_IIA"), (1, [2], 2, "GAUSS_LEGENDRE"), (1, [3], 1, "GAUSS_LEGENDRE")]
                    for N, nfe, ns, sch in lays:
                        models = ["a1"] if tier == "quick" else ["a1", "s22", "g3", "a4", "gi2", "s222", "gs2", "gi22"]
                        if mode in FB:
                            models = models[:1]
                        elif (N, ns) == (1, 1):
                            models = models + ["s22"]
                        for m in dict.fromkeys(models):
                            if not configs.pss_ok(m, pss):
                                continue
                            out.append(nlp.cfg(m, [], N_stages=N, Nfe_list=nfe, n_s=ns, irk_scheme=sch, pss_mode=pss,
                                               mpcc_mode=mode, cross_comp_mode=cm, use_fesd=fesd))
    for i, mode in enumerate(("SCHOLTES_INEQ", "SCHOLTES_EQ", "ELASTIC_INEQ", "ELASTIC_EQ", "ELASTIC_TWO_SIDED")):
        for j, (m, pss) in enumerate((("a2", "STEWART"), ("a4", "STEP"), ("g3", "STEWART"), ("gi2", "STEP"), ("s22", "STEP"))):
            out.append(nlp.cfg(m, ["z"] if (i + j) % 2 else [], N_stages=2, Nfe_list=[1, 2] if m != "a4" else [1, 1], n_s=1,
                               irk_scheme=("RADAU_IIA", "GAUSS_LEGENDRE")[(i + j) % 2], pss_mode=pss, mpcc_mode=mode,
                               irk_representation=("DIFFERENTIAL", "DIFFERENTIAL_LIFT_X", "INTEGRAL")[(i + j) % 3],
                               cross_comp_mode=(EQ, ALL)[(i // 2 + j) % 2], use_fesd=(i + j) % 4 != 3))
    for mode in ("SCHOLTES_INEQ", "SCHOLTES_EQ", "ELASTIC_INEQ", "ELASTIC_EQ", "ELASTIC_TWO_SIDED") + FB:
        out.append(nlp.cfg("a1", ["u", "compu", "compx"], N_stages=1, Nfe_list=[1], n_s=1, mpcc_mode=mode, cross_comp_mode=ALL,
                           use_fesd=False))
        for i, f in enumerate((["u", "z", "compx", "compxu", "compz"], ["u", "tv", "v", "compu", "comptv", "compv", "compx"])):
            out.append(nlp.cfg("a1", f, N_stages=1, Nfe_list=[1], n_s=1 + i, mpcc_mode=mode, cross_comp_mode=ALL,
                               pss_mode=("STEWART", "STEP")[i], use_fesd=False))
    return out


def comp_rows(a, s):
    """rows that involve a product or norm of a primal and a dual factor of some pair, or the relaxation"""
    out = []
    rel = {a.sigma.vid()} | ({s.s_el.vid()} if s.s_el is not None else set())
    prods = set()
    for x, y, l in s.pairs:
        prods |= {m for m in (x * y).t if len(m) >= 2 or (m and m[0][1] > 1)}
    for i, g in enumerate(a.g):
        if nc._allvars(g) & rel:
            out.append(i)
    return out


def groups_of(a, s):
    """pairs whose products are bounded together: everything of one primal factor, or each pair alone"""
    o = s.o
    gr = {}
    for n, ((x, y, l), k) in enumerate(zip(s.pairs, s.pairkey)):
        if s.fesd and o("cross_comp_mode") == EQ:
            lab = l.split(" with ")[0]
        else:
            lab = l
        gr.setdefault(lab, []).append((x, y))
    return gr


def c06_conds(a, s):
    mode = s.o("mpcc_mode")
    zero = {a.sigma.vid(): P.c(0)}
    if s.s_el is not None:
        zero[s.s_el.vid()] = P.c(0)
    r0 = [F(g.subs(zero), a.lbg[i], a.ubg[i], f"row{i}") for i, g in enumerate(a.g)]
    lem = [F(x * y, 0, INF, "lemma") for x, y, _ in s.pairs]
    lampos = [F(y, 0, INF, "initial multiplier") for x, y, l in s.pairs if not y.is_var()]
    p0 = smt.Prover(r0 + (lem if mode not in FB else []), s.nlp_box())
    rels = rows(a)
    bx = s.nlp_box()
    bx.set(a.sigma.vid(), Fraction(1, 1000), 1)
    p1 = smt.Prover(rels + (lem if mode not in FB else []), bx)
    cr = comp_rows(a, s)
    out = []

    def simple(p):
        return p.is_var() or len(p.t) <= 2

    def add(key, kind, goal, prover, wf, sigma, desc, extra=(), nl=False, slice_=None, row=None, timeout=15):
        out.append(dict(key=key, kind=kind, goal=goal, prover=prover, wfacts=wf, sigma=sigma, desc=desc,
                        extra=list(extra), nl=nl, slice=slice_, row=row, timeout=timeout))
    user = [(x, y, l) for n, (x, y), l in s.upairs]
    # -- A: zero relaxation => complementary
    for n, (x, y, l) in enumerate(s.pairs + user):
        isuser = n >= len(s.pairs)
        if mode in FB and not (simple(x) and simple(y)):
            continue
        sl = [i for i in cr if nc._allvars(a.g[i]) >= (x.vars() | y.vars())] if mode in FB else None
        if not isuser or mode in FB:
            for nm, q in (("first", x), ("second", y)):
                add(f"{nm} factor nonnegative at zero: {l}", "sound", F(q, 0, INF), p0, r0, 0, f"{nm} factor >= 0 at zero relaxation: {l}",
                    slice_=sl)
        if isuser and mode not in FB:
            # the library imposes the product only; the user's own bounds give the signs
            add(f"zero:{l}", "sound", F(x * y, -INF, 0), p0, r0, 0, f"product <= 0 at zero relaxation: {l}",
                extra=[F(x, 0, INF), F(y, 0, INF)])
        else:
            add(f"zero:{l}", "sound", F(x * y, -INF if mode not in FB else 0, 0), p0, r0, 0, f"product = 0 at zero relaxation: {l}",
                slice_=sl, extra=[] if mode in FB else [])
    # -- B: complementary => rows at zero relaxation
    for i in cr:
        vs = nc._allvars(a.g[i])
        mine = [(x, y) for x, y, l in s.pairs + user if (x.vars() | y.vars()) <= vs]
        if mode in FB:
            mine = [(x, y) for x, y in mine if simple(x) and simple(y)]
            if len(mine) != 1:
                continue
        ex = [OrF([[F(x), F(y, 0, INF)], [F(x, 0, INF), F(y)]], "complementary") for x, y in mine]
        ex2 = [F(x * y, 0, 0) for x, y in mine] + [F(q, 0, INF) for xy in mine for q in xy]
        g = F(r0[i].p, a.lbg[i], a.ubg[i])
        add(f"row {i} at zero", "complete", g, smt.Prover([], s.nlp_box()), [], 0,
            f"complementary pairs at zero relaxation, row {i}", extra=ex2 if mode not in FB else ex, nl=mode in FB,
            slice_=[] if mode in FB else None, row=i)
    # -- C: positive relaxation
    rel = s.relax()
    if mode not in FB or mode == "FISCHER_BURMEISTER":
        gr = groups_of(a, s)
        gr.update({l: [(x, y)] for x, y, l in user})
        for l, prs in gr.items():
            if mode == "FISCHER_BURMEISTER":
                x, y = prs[0]
                if not (simple(x) and simple(y)):
                    continue
                sl = [i for i in cr if nc._allvars(a.g[i]) >= (x.vars() | y.vars())]
                add(f"relaxed:{l}", "sound", F(x * y - a.sigma * a.sigma * Fraction(1, 2)), p1, rels, None,
                    f"product = sigma^2/2: {l}", slice_=sl)
                continue
            tot = sum((x * y for x, y in prs), P.c(0))
            lo = -INF if mode.endswith("INEQ") else 0
            if mode == "ELASTIC_TWO_SIDED":
                add(f"relaxed low:{l}", "sound", F(tot + rel, 0, INF), p1, rels, None, f"product >= -relaxation: {l}")
                add(f"relaxed:{l}", "sound", F(tot - rel, -INF, 0), p1, rels, None, f"product <= relaxation: {l}")
            else:
                add(f"relaxed:{l}", "sound", F(tot - rel, lo, 0), p1, rels, None,
                    f"product {'=' if lo == 0 else '<='} relaxation: {l}")
        if mode.endswith("INEQ") or mode == "ELASTIC_TWO_SIDED":
            # containment and monotonicity
            for i in cr:
                vs = nc._allvars(a.g[i])
                mine = [(x, y) for x, y, l in s.pairs + user if (x.vars() | y.vars()) <= vs]
                ex2 = [F(x * y, 0, 0) for x, y in mine] + [F(rel, 0, INF)]
                if s.s_el is not None:
                    bb = s.nlp_box()
                else:
                    bb = bx
                add(f"row {i} contains", "complete", F(a.g[i], a.lbg[i], a.ubg[i]), smt.Prover([], bb), [], None,
                    f"complementary pairs at positive relaxation, row {i}", extra=ex2, row=i)
                small = poly.var("sig_small", 0, 10)
                g2 = a.g[i].subs({rel.vid(): small})
                add(f"row {i} monotone", "complete", F(a.g[i], a.lbg[i], a.ubg[i]), smt.Prover([], bb), [], None,
                    f"a point feasible at a smaller relaxation, row {i}",
                    extra=[F(g2, a.lbg[i], a.ubg[i]), F(rel - small, 0, INF)], row=i)
    return out


def c06_run(c, it):
    got = nc.load(c, it)
    if got is None:
        return
    a, s = got
    it.sample(f"{c.label()}: {a.n} variables, {len(a.g)} rows, {len(s.pairs)} pairs")
    conds = c06_conds(a, s)
    # reachability twin at positive relaxation (augmented Fischer-Burmeister rows only meet at zero)
    if s.o("mpcc_mode") != "FISCHER_BURMEISTER_IP_AUG":
        nc.reach(a, s, it)
    decide_conds("C06", c, a, s, conds, it)


# =================================================================================== C07
def _c07_items(tier):
    d = dims(sot=None, gopt=None, gamma_h=None, equidistant_control_grid=None, step_equilibration=None,
             feats=[(), ("u", "tv"), ("z", "cz")], n_s=[2, 1, 3], mpcc_mode=["SCHOLTES_INEQ", "ELASTIC_EQ", "SCHOLTES_EQ"],
             irk_representation=["INTEGRAL", "DIFFERENTIAL"])
    return configs.arrays(tier, d, quick3=130)


def c07_run(c, it):
    got = nc.load(c, it)
    if got is None:
        return
    a, s = got
    if a.comp_res is None:
        raise runner.Undecided("comp_res is not an SX function")
    it.sample(f"{c.label()}: residual over {len(s.pairs)} pairs")
    it.witness()
    pr = smt.Prover([], s.nlp_box())
    bad = []
    prods = []
    for n, (x, y, l) in enumerate(s.pairs):
        prods.append(x * y)
        r = pr.prove(F(a.comp_res - x * y, 0, INF))
        it.ok() if r.verdict == "holds" else bad.append((n, l))
    seen, alts = set(), []
    for q in prods:
        if q.key() not in seen:
            seen.add(q.key())
            alts.append([F(a.comp_res - q)])
    r = pr.prove(OrF(alts))
    it.ok() if r.verdict == "holds" else bad.append((-1, "equals one of the products"))
    for n, l in bad:
        w = c07_witness(a, s, n, getattr(r, "model", None))
        if w is not None:
            good, txt = c07_replay(w)
            if good:
                it.violation(f"residual:{nc.family(l)}", f"{c.label()}: {txt}", w)
                return
            a, s = engine.load(c)
        it.undecided(f"residual vs {l}: not shown, no concrete counterexample")


def c07_witness(a, s, n, mdl=None):
    rng = np.random.default_rng(11)
    best = None
    for k in range(60):
        env = {}
        for i, w in enumerate(a.w):
            env[w.vid()] = float(rng.uniform(0, 0.05))
        if n >= 0:
            for q in s.pairs[n][:2]:
                if q.is_var():
                    env[q.vid()] = float(rng.uniform(1, 3))
                elif len(q.vars()) == 1:
                    (v,) = q.vars()
                    env[v] = -2.0 if q.t.get(((v, 1),), 0) < 0 else 2.0
        else:
            x, y, l = s.pairs[int(rng.integers(len(s.pairs)))]
            for i, w in enumerate(a.w):
                env[w.vid()] = float(rng.choice([0.0, 0.0, 1.0, 2.0, -1.0]))
        env = engine.full_env(a, env, rng_seed=int(rng.integers(10**6)))
        env[a.sigma.vid()] = 0.25
        try:
            res = float(a.comp_res.ev(env))
        except Exception:
            continue
        mx = max(float((x * y).ev(env)) for x, y, l in s.pairs)
        d = abs(res - mx)
        if d > 1e-4 and (best is None or d > best[0]):
            best = (d, env)
    if best is None:
        return None
    return dict(kind="c07", cfg=dict(a.cfg), env=engine.names_of(a, best[1]))


def c07_replay(rp):
    c = nlp.Cfg(rp["cfg"])
    a, s = engine.load(c)
    names = rp["env"]
    env = engine.full_env(a, pt_env(names))
    solver, rec, fun = engine.concrete(c, names, sigma=float(names["sigma"]))
    w = np.array([float(names[f"w{i}"]) for i in range(a.n)])
    res = float(solver.problem.comp_res(w, np.array(rec.kw["p"], dtype=float)))
    prods = [(float((x * y).ev(env)), l) for x, y, l in s.pairs]
    mx, l = max(prods)
    return abs(res - mx) > 1e-5, f"complementarity residual is {res:.6g}, the largest product is {mx:.6g} ({l})"


# =================================================================================== C14
def _c14_items(tier):
    d = dict(model=[("a1", ()), ("a2", ()), ("a2rev", ()), ("a4", ()), ("s22", ()), ("s24", ()), ("g3", ()), ("gi2", ()),
                    ("q2", ()), ("a3", ()), ("s23", ()), ("a8", ()), ("s222", ()), ("gs2", ()), ("gi22", ())],
             feats=[(), ("tv", "ctv"), ("z", "cz"), ("z", "z2", "cz", "tv")],
             irk_scheme=["RADAU_IIA", "GAUSS_LEGENDRE"], n_s=[1, 2], pss_mode=["STEWART", "STEP"],
             mpcc_mode=["SCHOLTES_EQ", "ELASTIC_EQ", "SCHOLTES_INEQ"], cross_comp_mode=[EQ, ALL],
             layout=[(1, [1]), (2, [1, 1]), (1, [2])],
             rootfinder_for_initial_z=[False, True])

    def ok(q):
        m = q["model"][0]
        if not configs.pss_ok(m, q["pss_mode"]):
            return False
        if "cz" in q["feats"] and m in configs.DIRECT + configs.INCL:
            return False
        if q["rootfinder_for_initial_z"] and "z" not in q["feats"]:
            return False
        return not (m in ("a8", "s23", "s24", "s222", "gs2") and configs.n_elem(q) * q["n_s"] > 2)
    return configs.arrays(tier, d, ok, quick3=300)


class Root:
    """stands for casadi.rootfinder: returns symbols of which only the residual equation is known"""
    facts = []

    def __init__(self, name, plugin, fun, *a, **k):
        self.fun = fun

    def __call__(self, guess, par):
        import sxvm
        n = self.fun.size1_in(0)
        zs = [poly.var(f"zroot_{i}") for i in range(n)]
        flats = [sxvm.to_flat(np.array(zs, dtype=object), self.fun.size_in(0)),
                 sxvm.to_flat(par, self.fun.size_in(1))]
        res = sxvm.interpret(self.fun, flats)[0].flatten()
        Root.facts = [F(poly.co(q), 0, 0, "rootfinder") for q in res]
        return sxvm.SymDM(zs)


def c14_load(c):
    import casadi as ca
    orig = ca.rootfinder
    Root.facts = []
    try:
        if nlp.full(c, "rootfinder_for_initial_z"):
            ca.rootfinder = lambda *a, **k: Root(*a, **k)
        a = nlp.capture(c)
    finally:
        ca.rootfinder = orig
    s = specmod.Spec(a)
    a.rootfacts = []
    if nlp.full(c, "rootfinder_for_initial_z") and s.d.nz:
        roots = [poly.var(f"zroot_{i}") for i in range(s.d.nz)]
        ref = [F(poly.co(q), 0, 0) for q in s.d.gz(s.x0, [P.c(0)] * 2, roots, s.par(0))]
        pr = smt.Prover(list(Root.facts), s.nlp_box())
        if Root.facts and all(pr.prove(g).verdict == "holds" for g in ref):
            # the root finder was asked for exactly the initial algebraic variables
            s.z0sym = roots
            a.rootfacts = list(Root.facts)
            return a, s.build()
        s.z0sym = [poly.var(f"z0s_{i}") for i in range(s.d.nz)]
        a.rootfacts = list(Root.facts) + [F(poly.co(q), 0, 0, "initial z") for q in
                                          s.d.gz(s.x0, [P.c(0)] * 2, s.z0sym, s.par(0))]
    s.build()
    return a, s


def c14_conds(a, s):
    mode = s.o("mpcc_mode")
    out = []
    bx = s.nlp_box()
    bx.set(a.sigma.vid(), Fraction(1, 1000), 1)
    for nm in ("zroot_", "z0s_"):
        for v, at in enumerate(ATOMS):
            if at.kind == "var" and at.name.startswith(nm):
                bx.set(v, -400, 400)
    fs = rows(a) + a.rootfacts
    lem = [F(x * y, 0, INF, "lemma") for x, y, _ in s.pairs]
    p1 = smt.Prover(fs + lem, bx)
    gr = groups_of(a, s)
    first = [(x, y, l) for x, y, l in s.pairs if l.startswith("fe(0,0)") and l.endswith("with previous end")]
    rel = s.relax()
    if mode.endswith("EQ") and not mode.endswith("INEQ"):
        for l, prs in gr.items():
            if not l.startswith("fe(0,0)"):
                continue
            tot = sum((x * y for x, y in prs), P.c(0))
            out.append(dict(key=f"first element:{l}", kind="sound", goal=F(tot - rel), prover=p1, wfacts=fs, sigma=None,
                            desc=f"sum of products with the exact initial multipliers = relaxation: {l}", extra=[]))
    for x, y, l in first:
        out.append(dict(key=f"pair:{l}", kind="sound", goal=F(x * y - rel, -INF, 0), prover=p1, wfacts=fs, sigma=None,
                        desc=f"product with the exact initial multiplier <= relaxation: {l}", extra=[]))
    # converse: rows of the first element hold when the reference relation holds
    fe0 = set()
    for x, y, l in s.pairs:
        if l.startswith("fe(0,0)"):
            fe0 |= x.vars()
    done = set()
    for i in comp_rows(a, s):
        vs = nc._allvars(a.g[i])
        if not vs & fe0:
            continue
        cand = []
        for l, prs in gr.items():
            if not l.startswith("fe(0,0)"):
                continue
            if any(x.vars() & vs for x, y in prs):
                tot = sum((x * y for x, y in prs), P.c(0))
                cand.append(F(tot - rel, -INF if mode.endswith("INEQ") else 0, 0))
        out.append(dict(key=f"row {i}", kind="complete", goal=F(a.g[i], a.lbg[i], a.ubg[i]), prover=smt.Prover(a.rootfacts, bx),
                        wfacts=a.rootfacts, sigma=None, desc="reference relation with the exact initial multipliers",
                        extra=cand, row=i))
    return out


def c14_run(c, it):
    try:
        a, s = c14_load(c)
    except (poly.ConcretisationError, NotImplementedError) as e:
        raise runner.Undecided(f"encoding: {e!r}")
    except Exception as e:
        try:
            engine.concrete(c, {}, sigma=0.5)
        except Exception as e2:
            it.violation(f"build:{type(e2).__name__}", f"a valid configuration raises {type(e2).__name__}: {str(e2)[:160]}",
                         dict(kind="build", cfg=dict(c)))
            return
        raise runner.Undecided(f"encoding: {type(e).__name__}: {str(e)[:300]}")
    it.sample(f"{c.label()}: {len(s.pairs)} pairs")
    # exact multipliers: nonnegative, consistent with the switching functions, zero for the active region
    pr = smt.Prover(a.rootfacts, s.nlp_box())
    for sys in range(s.nsys):
        L = s.lam00(sys)
        for q in (L[0] + L[1] if s.step else L):
            it.ok() if pr.prove(F(q, 0, INF)).verdict == "holds" else it.undecided("reference multiplier sign")
    nc.reach(a, s, it, facts=rows(a) + a.rootfacts)
    decide_conds("C14", c, a, s, c14_conds(a, s), it)


CONDS = dict(C06=c06_conds, C14=c14_conds)

INFO["C06"] = dict(
    explanation="for every reformulation the generated rows and bounds are taken from the real code; z3 must refute (A) a "
    "point satisfying them at zero relaxation whose pair is negative or has a nonzero product, (B) a complementary pair "
    "that violates a row at zero relaxation, (C) a point whose products deviate from the documented relation at positive "
    "relaxation, and for inequality forms a complementary or less relaxed point that is cut off",
    bounds="symbolic: all variables, initial state, parameters in [-10,10], relaxation in (0,1], elastic slack in its bounds. "
    "enumerated: 5 Scholtes/elastic modes and 2 Fischer-Burmeister modes x Stewart/Step x cross-complementarity mode x "
    "with/without FESD x 2 (5) layouts. outside: BOOLEAN (integer) mode, Fischer-Burmeister with summed multipliers (documented "
    "as unsupported) and its pairs with the initial multipliers, augmented rows at positive relaxation",
    assumptions=nc.ASSUME)
INFO["C07"] = dict(
    explanation="the residual function built by the real code is decompiled; z3 must refute a point where it is below any "
    "product of a pair that must be complementary, or where it equals none of them",
    bounds=nc.BOUNDS, assumptions=nc.ASSUME)
INFO["C14"] = dict(
    explanation="rows of the first element with symbolic initial state and parameters; the products with the exact initial "
    "multipliers (independent definition: g - min g, or negative/positive parts of c) must satisfy the relaxation relation, and "
    "conversely that relation must imply the rows; with rootfinder_for_initial_z the root finder is replaced by symbols "
    "constrained only by its residual equation",
    bounds="symbolic: initial state, parameters, variables in [-10,10], relaxation in (0,1]; enumerated: 12 models x Stewart/Step x "
    "scheme x n_s 1..2 x MPCC mode x cross mode x layout x root finder (pairwise / 3-wise)",
    assumptions=nc.ASSUME + ["the root finder returns a root of the function it was given"])


# =================================================================================== dispatch
ITEMS = dict(C04=_c04_items, C06=_c06_items, C07=_c07_items, C14=_c14_items)
RUNS = dict(C04=c04_run, C06=c06_run, C07=c07_run, C14=c14_run)


def items(prop, tier):
    return ITEMS[prop](tier)


def run(prop, c, it):
    if not isinstance(c, nlp.Cfg):
        c = nlp.Cfg(c)
    RUNS[prop](c, it)


def replay(prop, rp):
    if rp["kind"] == "build":
        return nc.replay_build(rp)
    if rp["kind"] == "pt":
        return pt_replay(prop, rp)
    return dict(c04=c04_replay, c07=c07_replay, complete=engine.replay_complete)[rp["kind"]](rp)
