"""Properties of the generated NLP (Engine A): the real solver front end is executed on symbolic initial
state and parameters, the CasADi programs it builds are decompiled to polynomials, and z3 decides
entailment between the NLP's rows and an independent reference formulation."""
from fractions import Fraction

import numpy as np

import configs
import engine
import nlp
import poly
import runner
import smt
import witness
from configs import cover, dims, ALL, EQ
from poly import P, ATOMS
from smt import F, INF

GROUPS = dict(C02={"irk", "gz", "steady"}, C08={"hbox", "time"}, C11={"path", "ubox", "vbox", "xbox", "zbox", "term"},
              C25={"sot", "clock", "irk", "gz"}, C09={"steq"}, C13={"irk", "gz", "switch", "convex", "path", "term"})

BOUNDS = ("symbolic: all decision variables, initial state, global and time-varying parameters in [-10,10] (or their "
          "own bounds), relaxation in (0,1]; user expressions carry symbolic coefficients. enumerated: a pairwise "
          "covering array plus 3-wise rows (thorough: plus 4-wise rows, capped at 900) over model family (14 models: 1-6 modes, "
          "1-3 subsystems, full and partial sign matrices, direct indicators, general inclusions), representation, scheme, n_s 1..3 "
          "(a few small models up to 9), switch detection, Stewart/Step, cross complementarity mode, MPCC mode, up to 3 control "
          "stages with up to 3 elements each (non-uniform) and one-stage layouts with up to 7 control stages and 9 elements, step "
          "equilibration, control grid, speed of time, time freezing, path-constraint options. "
          "outside: larger layouts, non-polynomial user functions, rounding of coefficients below 1e-6, the discrete (boolean) mode")
ASSUME = ["casadi.nlpsol is replaced by a recorder: the property is about the problem handed to it",
          "CasADi evaluates its instruction list as documented (the encoding interprets that list over exact rationals)",
          "floating-point coefficients of the NLP are taken as exact rationals; comparisons allow 1e-6"]
EXPL = dict(
    C02="for every configuration the NLP rows and bounds are assumed and z3 must refute a point that violates a "
        "reference Runge-Kutta / algebraic equation (independent 60-digit coefficients)",
    C03="for every configuration the reference conditions are assumed (zero relaxation, exact complementarity) and z3 "
        "must refute a point that violates any NLP row or variable bound",
    C05="z3 must refute an NLP-feasible point with a negative multiplier or a cross-complementarity product above the "
        "relaxation, for every pair of the element",
    C08="bounds and sums of the step lengths: both directions (NLP implies reference, reference implies NLP rows that "
        "only involve steps); the reported grid is computed by the real result extraction on symbolic primal vectors",
    C09="the step-equilibration term of the objective is identical to the documented one and the direct mode's rows are "
        "equivalent to the reference rows in both directions",
    C10="the NLP objective minus the reference objective is shown to be zero for all primal points and parameters",
    C11="user bounds, path and terminal constraints in both directions",
    C12="every user complementarity pair's product is bounded by the relaxation at every place it applies to, and the "
        "NLP rows they generate hold at exactly complementary points",
    C13="rows that depend on the initial state, global or time-varying parameters, in models where every user expression "
        "carries its own parameter symbols, handed over through the constructor or the setters in several orders and "
        "histories (both directions for path and terminal rows), and the objective",
    C25="speed-of-time scaling of the Runge-Kutta equations, its bounds, the clock constraints, and the objective")


def info(prop):
    return dict(explanation="bounded symbolic verification of the NLP built by the real code: " + EXPL[prop],
                bounds=BOUNDS, assumptions=ASSUME)


def label(prop, c):
    return c.label() if hasattr(c, "label") else nlp.Cfg(c).label()


def _std(prop):
    """dims of the covering array used for a property"""
    d = dims()
    if prop in ("C05",):
        d = dims(sot=None, gopt=None, gamma_h=None, equidistant_control_grid=None,
                 feats=[("u",), ("tv",), ("z", "cz")], n_s=[2, 1, 3])
    if prop == "C08":
        d = dims(sot=["NONE", "LOCAL"], gopt=None, mpcc_mode=["SCHOLTES_INEQ"], gamma_h=[1.0, 0.4, 0.0, 0.75],
                 step_equilibration=["HEURISTIC_DELTA", "HEURISTIC_MEAN", "L2_RELAXED"],
                 model=[("a1", ()), ("a2", ()), ("s22", ())], feats=[(), ("u",)],
                 terminal_time=[1.0, 0.35, 3.0], cross_comp_mode=[EQ])
    if prop == "C09":
        d = dims(sot=["NONE"], gopt=None, mpcc_mode=["SCHOLTES_INEQ", "ELASTIC_EQ"], gamma_h=None,
                 equidistant_control_grid=None,
                 step_equilibration=["HEURISTIC_DELTA", "HEURISTIC_MEAN", "L2_RELAXED", "L2_RELAXED_SCALED", "DIRECT"],
                 model=[("a1", ()), ("a2", ()), ("s22", ()), ("a3", ()), ("g3", ()), ("gi2", ()), ("s222", ()), ("gs2", ()), ("gi22", ())], feats=[(), ("u",)],
                 rho_h=[1.0, 0.3], layout=[(1, [2]), (2, [2, 2]), (2, [1, 2]), (1, [3]), (3, [1, 2, 1]), (2, [3, 2])],
                 n_s=[1, 2, 3], use_fesd=[True, True, True, False], irk_representation=["INTEGRAL", "DIFFERENTIAL"],
                 step_equilibration_sigma=[0.1, 0.5, 3.0])
    if prop == "C10":
        d = dims(gopt=None, gamma_h=None, objective_scaling_direct=[True, False],
                 step_equilibration=["HEURISTIC_DELTA", "HEURISTIC_MEAN", "L2_RELAXED"],
                 feats=[("u", "tv", "fq", "fT"), ("fq", "fT"), ("v", "fq"), ("u", "v", "tv", "fq", "fT", "z"), ("fT",)],
                 rho_h=[1.0, 0.3])
        d["model"] = [m for m in d["model"] if m[0] not in ("a4", "s24")]
    if prop == "C11":
        d = dims(gamma_h=None, equidistant_control_grid=None, step_equilibration=None,
                 mpcc_mode=["SCHOLTES_INEQ", "ELASTIC_EQ"], sot=None,
                 feats=[("u", "tv", "gpath", "gT", "bx", "bu"), ("u", "u2", "z", "zb", "gpath", "bx", "bu"),
                        ("tv", "v", "v2", "bv", "gT", "gpath"), ("z", "z2", "zb", "bx", "gpath", "gpeq"),
                        ("u", "v", "bv", "gpath", "gT", "bu", "gpeq")])
    if prop == "C12":
        d = dims(gamma_h=None, equidistant_control_grid=None, step_equilibration=None, gopt=None, sot=None,
                 model=[("a1", ()), ("a2", ()), ("s22", ()), ("gi2", ()), ("a4", ()), ("s222", ()), ("gs2", ()), ("gi22", ())],
                 feats=[("u", "u2", "tv", "tv2", "v", "v2", "compx", "compu", "compv"), ("u", "tv", "compxu", "comptv"),
                        ("z", "z2", "u", "compz", "compu"), ("u", "compu"), ("v", "v2", "tv", "compv", "comptv"),
                        ("compx",)])
    if prop == "C13":
        d = dims(gamma_h=None, equidistant_control_grid=None, step_equilibration=None, sot=None,
                 mpcc_mode=["SCHOLTES_INEQ", "SCHOLTES_EQ"], layout=[(2, [1, 2]), (3, [1, 1, 2]), (2, [2, 1]), (1, [2]), (2, [3, 1])],
                 model=[("a1", ()), ("a2", ()), ("s22", ()), ("gi2", ()), ("a4", ()), ("g3", ()), ("q2", ()), ("gs2", ()), ("gi22", ())], n_s=[1, 2],
                 feats=[("u", "tv", "tv2", "ctv", "fq", "fT", "gpath", "gT"), ("tv", "ctv", "z", "fq", "gpath", "comptv"),
                        ("v", "tv", "tv2", "gT", "fT", "gpath"), ("fq", "fT", "gpath", "gT"), ("u", "z", "z2", "tv", "fT", "gT", "comptv")],
                 via=list(nlp.VIA))
    if prop == "C25":
        d = dims(gopt=None, gamma_h=None, step_equilibration=None, sot=["LOCAL", "GLOBAL"],
                 mpcc_mode=["SCHOLTES_INEQ", "ELASTIC_INEQ"],
                 feats=[("clock", "u", "fq", "fT"), ("clock", "tv", "z", "fq"), ("clock", "v", "fq")],
                 time_freezing=[True, False], model=[("a1", ()), ("a2", ()), ("s22", ()), ("a3", ()), ("a4", ()), ("s222", ()), ("gs2", ())],
                 time_freezing_tolerance=[1e-3, 0.05], speed_of_time_min=[1.0, 0.25], speed_of_time_max=[25.0, 6.0])
    d.setdefault("terminal_time", [1.0, 2, 0.35])
    if prop in ("C02", "C03", "C10", "C11"):
        d["feats"] = d["feats"] + [("clock", "u", "fq", "gpath", "gT")]
        d["time_freezing"] = [True, False]
    return d


NPAIR = dict(a1=(2, 2), a2=(2, 2), a2rev=(2, 2), q2=(2, 2), g3=(3, 6), gi2=(4, 4), s22=(4, 4), a3=(3, 4), gs2=(5, 9), gi22=(6, 6), s222=(6, 6))


def nu_terms(d):
    """number of monomials of the switching indicator (a product over all multiplier pairs)"""
    k = NPAIR.get(d["model"][0], (9, 9))[0 if d["pss_mode"] == "STEWART" else 1]
    n = d["n_s"] + (1 if d["irk_scheme"] == "GAUSS_LEGENDRE" else 0)
    return ((n + 1) ** 2 + d["n_s"] ** 2) ** k


def okcfg(prop):
    def f(d):
        d = dict(d)
        d.setdefault("feats", ())
        if not configs.valid(d):
            return False
        if "clock" in d["feats"] and d["model"][0] in configs.INCL:
            return False
        if d.get("time_freezing") and "clock" not in d["feats"]:
            return False
        if d.get("step_equilibration") in ("L2_RELAXED", "L2_RELAXED_SCALED", "DIRECT") and d["model"][0] in (
                "a4", "s24", "s23"):
            return False
        if d.get("step_equilibration") in ("L2_RELAXED", "L2_RELAXED_SCALED", "DIRECT") and nu_terms(d) > (
                2500 if d["step_equilibration"] == "DIRECT" else 5000):
            return False
        return True
    return f


_IRK = [(s, r) for s in ("RADAU_IIA", "GAUSS_LEGENDRE") for r in ("INTEGRAL", "DIFFERENTIAL", "DIFFERENTIAL_LIFT_X")]
EXTRA = dict(
    C02=[nlp.cfg("a1", ["u", "tv"], n_s=4, irk_scheme=s, irk_representation=r, Nfe_list=[1]) for s, r in _IRK]
    + [nlp.cfg("a1", ["u"] if k % 2 else [], n_s=k, irk_scheme=s, irk_representation=r, Nfe_list=[1 + (i + k) % 2],
               use_fesd=bool(k % 2), pss_mode=("STEWART", "STEP")[i % 2])
       for k in (5, 6, 7, 8, 9) for i, (s, r) in enumerate(_IRK)],
    C03=[nlp.cfg("a1", ["u"], n_s=k, irk_scheme=s, irk_representation=r, Nfe_list=[1], use_fesd=bool(i % 2))
         for k in (4, 5) for i, (s, r) in enumerate(_IRK)],
    C10=[nlp.cfg("a1", ["u", "fq", "fT"], n_s=k, irk_scheme=s, irk_representation=r, Nfe_list=[1], use_fesd=bool(i % 2))
         for k in range(4, 10) for i, (s, r) in enumerate(_IRK)],
    C05=[nlp.cfg("a1", [], n_s=k, irk_scheme=s, Nfe_list=[2], cross_comp_mode=m, pss_mode=p)
         for k in (4, 5) for s, m, p in (("RADAU_IIA", ALL, "STEWART"), ("GAUSS_LEGENDRE", EQ, "STEP"),
                                         ("GAUSS_LEGENDRE", ALL, "STEP"), ("RADAU_IIA", EQ, "STEWART"))],
    C11=[nlp.cfg("a1", ["u", "gpath", "bx", "z", "zb"], n_s=k, irk_scheme=s, irk_representation=r, N_stages=2, Nfe_list=[1, 2],
                 g_path_at_stg=True, g_path_at_fe=bool(i % 2)) for k in (4, 5) for i, (s, r) in enumerate(_IRK[::2] + _IRK[3::2])],
    C25=[nlp.cfg("a1", ["clock", "u"], n_s=5, irk_scheme=s, irk_representation=r, Nfe_list=[1], time_freezing=bool(i % 2),
                 speed_of_time_variables="LOCAL") for i, (s, r) in enumerate(_IRK)])


BIG = [(1, [6]), (5, [2, 1, 3, 1, 2]), (2, [4, 5]), (4, 2), (7, [1] * 7), (3, [1, 1, 4])]


def big(d, per, seed=3):
    """a few configurations with more control stages and elements, for one-stage schemes and small models"""
    import random
    rng = random.Random(seed)
    out = []
    for lay in BIG:
        for k in range(per):
            for _ in range(200):
                r = {n: rng.choice(v) for n, v in d.items()}
                r.update(layout=lay, n_s=1)
                r["model"] = (("a1", ()), ("a2", ()))[k % 2]
                if "feats" in d:
                    r["feats"] = d["feats"][k % len(d["feats"])] if k < 2 * len(d["feats"]) else r["feats"]
                if configs.to_cfg(r) and okbig(r):
                    out.append(configs.to_cfg(r))
                    break
    return out


def okbig(d):
    if d.get("time_freezing") and "clock" not in d.get("feats", ()):
        return False
    if d.get("step_equilibration") in ("L2_RELAXED", "L2_RELAXED_SCALED", "DIRECT") and nu_terms(d) > 400:
        return False
    return True


def items(prop, tier):
    import env
    d = _std(prop)
    ok = okcfg(prop)
    rows, idx = configs.cover_rows(d, 2, ok)
    lim = dict(C02=300, C03=220, C05=170, C11=170, C10=240).get(prop, 400)
    r3, i3 = configs.cover_rows(d, 3, ok, seed=11, limit=lim if tier == "quick" else 10**6, start=idx)
    cs = [configs.to_cfg(r) for r in rows + r3] + EXTRA.get(prop, []) + big(d, 4 if tier == "quick" else 12)
    if tier == "thorough":
        if "n_s" in d:
            d["n_s"] = d["n_s"] + [4]
        r4, _ = configs.cover_rows(d, 4, ok, seed=100 + env.SEED, limit=900, cand=6, start=idx + i3)
        cs += [configs.to_cfg(r) for r in r4]
    seen, out = set(), []
    for c in cs:
        k = repr(sorted(c.items(), key=repr))
        if k not in seen:
            seen.add(k)
            out.append(c)
    # larger configurations first
    out.sort(key=lambda c: -sum(nlp.layout(c)) * nlp.full(c, "n_s"))
    return out


# ------------------------------------------------------------------ helpers shared with other modules
def load(c, it, key="build"):
    """capture + reference; a configuration that the real code cannot build is a violation"""
    try:
        return engine.load(c)
    except (poly.ConcretisationError, NotImplementedError) as e:
        raise runner.Undecided(f"encoding: {e!r}")
    except Exception as e:
        try:
            engine.concrete(c, {}, sigma=0.5)
        except Exception as e2:
            it.violation(f"{key}:{type(e2).__name__}:{_short(c)}", f"a valid configuration raises {type(e2).__name__}: {str(e2)[:160]}",
                         dict(kind="build", cfg=dict(c)))
            return None
        raise runner.Undecided(f"encoding: {type(e).__name__}: {str(e)[:300]}")


def _short(c):
    o = c["opts"]
    return "-".join([c["model"], o.get("pss_mode", "STEWART"), o.get("speed_of_time_variables", "NONE")])


def family(desc):
    """description with indices removed (to report one violation per kind of failure)"""
    import re
    return re.sub(r"\d+", "#", desc).replace(" ", "_")


def reach(a, s, it, facts=None, box=None):
    """reachability twin: the assumed rows have a solution"""
    b = box or s.nlp_box()
    fs = facts or [F(a.g[i], a.lbg[i], a.ubg[i]) for i in range(len(a.g))]
    if box is None:
        b.set(a.sigma.vid(), Fraction(1, 1000), 1)
    se = witness.Search(fs, b, extra_vars=[w.vid() for w in a.w])
    if se.find(F(P.c(0), 1, 1), tries=3, budget=15) is not None:
        it.witness()
        return True
    return False


MAXW = 3


def do_sound(a, s, it, results, wit=None):
    """record soundness results; failing ones are refined to concrete counterexamples"""
    bad = {}
    for cond, r in results:
        if r.verdict == "holds":
            it.ok()
        else:
            bad.setdefault((cond.group, family(cond.desc)), []).append((cond, r))
    for (g, fam), lst in list(bad.items()):
        w = None
        for cond, r in lst[:MAXW]:
            w = engine.witness_sound(a, s, cond)
            if w is not None:
                okk, txt = engine.replay_sound(w)
                if okk:
                    it.violation(f"sound:{g}:{fam}", f"{label('', a.cfg)}: {txt}", w)
                    break
                w = None
                # replay rebuilt the tables: restore ours
            if w is None:
                pass
        if w is None:
            for cond, r in lst:
                it.undecided(f"{cond.desc}: {r.verdict} ({r.stage}), no concrete counterexample found")
            continue
        for _ in lst[1:]:
            it.r["obligations"] += 1
        return          # tables were rebuilt by the replay: stop at the first confirmed violation


def do_complete(a, s, it, results):
    bad = {}
    for lab, goal, r in results:
        if r.verdict == "holds":
            it.ok()
        else:
            bad.setdefault(owner(a, s, lab), []).append((lab, goal, r))
    for o, lst in bad.items():
        w = None
        for lab, goal, r in lst[:MAXW]:
            w = engine.witness_complete(a, s, lab, goal)
            if w is not None:
                okk, txt = engine.replay_complete(w)
                if okk:
                    it.violation(f"complete:{lab[0]}:{o}", f"{label('', a.cfg)}: {txt}", w)
                    break
                w = None
        if w is None:
            for lab, goal, r in lst:
                it.undecided(f"{lab}: {r.verdict} ({r.stage}), no concrete counterexample found: {goal!r:.150}")
            continue
        for _ in lst[1:]:
            it.r["obligations"] += 1
        return


def _kinds(a, s):
    return engine.kinds(a)


def _allvars(p):
    out, todo = set(), list(p.vars())
    while todo:
        v = todo.pop()
        if v in out:
            continue
        out.add(v)
        for q in ATOMS[v].args:
            todo.extend(q.vars())
    return out


def owner(a, s, lab):
    """which user-level object a row or bound belongs to"""
    k = _kinds(a, s)
    if lab[0] == "bound":
        return "bound-" + k.get(a.w[lab[1]].vid(), "unowned")
    vs = _allvars(a.g[lab[1]])
    names = {ATOMS[v].name for v in vs}
    kinds = {k[v] for v in vs if v in k}
    if any(n.startswith("pg_gp") for n in names):
        return "path"
    if any(n.startswith("pg_gt") for n in names):
        return "terminal"
    if any(n.startswith("pg_m") for n in names):
        return "usercomp"
    if any(n.startswith("pg_gz") for n in names):
        return "algebraic"
    if kinds <= {"h"}:
        return "time"
    if kinds & {"theta", "alpha"} and kinds & {"lam", "lambda_n", "lambda_p"} or "sigma" in names or "elastic" in kinds:
        return "comp" if "h" not in kinds else "steq"
    if kinds & {"mu", "lambda_p", "lambda_n", "lam"}:
        return "switching"
    if kinds <= {"theta"}:
        return "convex"
    if kinds <= {"x"} and a.d.t_index is not None and len(kinds) == 1:
        return "clock"
    return "dynamics"


OWNED = dict(C13={"path", "terminal"}, C08={"time", "bound-h"}, C11={"path", "terminal", "bound-u", "bound-v_global", "bound-x", "bound-z"},
             C12={"usercomp"}, C25={"clock", "bound-sot"}, C09={"steq"})


def run(prop, c, it):
    if not isinstance(c, nlp.Cfg):
        c = nlp.Cfg(c)
    got = load(c, it)
    if got is None:
        return
    a, s = got
    it.sample(f"{c.label()}: {a.n} variables, {len(a.g)} rows, {len(s.conds)} reference conditions, {len(s.pairs)} pairs")
    if prop == "C03":
        pr = engine.spec_prover(a, s)
        spec_reach(a, s, it)
        res, _ = engine.complete(a, s, pr)
        do_complete(a, s, it, res)
        return
    if prop == "C10":
        return objective(a, s, it)
    if prop == "C09":
        objective(a, s, it, "step equilibration")
        if it.r["violations"]:
            return
    if prop == "C25":
        objective(a, s, it, "speed of time")
        if it.r["violations"]:
            return
    reach(a, s, it)
    pr = engine.nlp_prover(a, s)
    if prop == "C05":
        res, _ = engine.sound_pairs(a, s, pr)
        do_sound(a, s, it, res)
        return
    if prop == "C13":
        objective(a, s, it)
        if it.r["violations"]:
            return
    if prop in ("C12", "C13"):
        res = []
        for n, (x, y), l in s.upairs:
            import spec as sp
            cd = sp.Cond("usercomp", F(x * y - s.relax(), -INF, 0), f"product <= relaxation: {l}")
            res.append((cd, pr.prove(cd.f)))
        if prop == "C13":
            res += [(cd, pr.prove(cd.f)) for cd in engine.relax_eq(a, s)]
        do_sound(a, s, it, res)
    if prop != "C12" and not it.r["violations"]:
        groups = GROUPS[prop]
        if prop == "C08" and not s.fesd:      # fixed steps are no variables: they show in the Runge-Kutta equations
            groups = groups | {"irk"}
        res, _ = engine.sound(a, s, groups, pr)
        do_sound(a, s, it, res)
    if it.r["violations"]:
        return
    if prop in OWNED:
        own = OWNED[prop]
        pc = engine.spec_prover(a, s)
        labs = {("row", i) for i in range(len(a.g)) if owner(a, s, ("row", i)) in own}
        res, _ = engine.complete(a, s, pc, only=lambda lab: lab in labs if lab[0] == "row" else owner(a, s, lab) in own)
        do_complete(a, s, it, res)
    if prop == "C08" and not it.r["violations"]:
        import resultchecks
        resultchecks.grid(a, s, it)


def spec_reach(a, s, it):
    rng = np.random.default_rng(5)
    se = witness.Search(engine.spec_facts(a, s), s.spec_box(), extra_vars=[w.vid() for w in a.w])
    if se.find(F(P.c(0), 1, 1), patterns=engine.patterns(a, s, 8, rng), budget=15, rng=rng) is not None:
        it.witness()


def objective(a, s, it, what="objective"):
    diff = a.f - s.objective()
    r = diff_zero(a, s, diff)
    if r == "holds":
        it.ok()
        it.witness()
        return
    # concrete difference
    rng = np.random.default_rng(2)
    for _ in range(20):
        env = engine.full_env(a, {}, rng_seed=int(rng.integers(10**6)))
        for i in range(a.n):
            lo, hi = max(a.lbx[i], -2), min(a.ubx[i], 2)
            env[a.w[i].vid()] = float(rng.uniform(min(lo, hi), max(lo, hi)))
        env[a.sigma.vid()] = float(rng.uniform(0.05, 1.0))
        if abs(float(diff.ev(env))) > 1e-4:
            w = dict(kind="objective", cfg=dict(a.cfg), env=engine.names_of(a, env))
            ok, txt = replay_objective(w)
            if ok:
                it.violation(f"objective:{what.replace(' ', '_')}", f"{label('', a.cfg)}: {txt}", w)
                return
    it.undecided(f"{what}: difference not shown to be zero: {diff!r:.200}")


def diff_zero(a, s, diff, tol=1e-6):
    if not diff.t:
        smt.STATS.trivial += 1
        return "holds"
    # drop coefficients at rounding level (relative to the largest coefficient of the objective)
    b = s.nlp_box()
    b.set(a.sigma.vid(), Fraction(1, 1000), 1)
    pr = smt.Prover([], b)
    big = max([1.0] + [abs(float(x)) for x in a.f.t.values()])
    small = P({m: x for m, x in diff.t.items() if abs(x) > 1e-10 * big})
    r = pr.prove(F(small, -tol, tol))
    return r.verdict


def replay_objective(rp):
    c = nlp.Cfg(rp["cfg"])
    a, s = engine.load(c)
    names = rp["env"]
    env = {v: names[at.name] for v, at in enumerate(ATOMS) if at.kind == "var" and at.name in names}
    env = engine.full_env(a, env)
    r = engine.eval_real(c, names, a.n, sigma=names.get("sigma"))
    want = float(s.objective().ev(env))
    txt = f"objective of the generated NLP is {r['f']:.8g}, the documented objective is {want:.8g}"
    return abs(r["f"] - want) > 1e-6 * max(1.0, abs(want)) and abs(r["f"] - want) > 1e-5, txt


def replay_build(rp):
    try:
        engine.concrete(nlp.Cfg(rp["cfg"]), {}, sigma=0.5)
    except Exception as e:
        return True, f"building the configuration raises {type(e).__name__}: {str(e)[:200]}"
    return False, "configuration builds"


def replay(prop, rp):
    if rp["kind"] == "grid":
        import resultchecks
        return resultchecks.replay(prop, rp)
    return dict(sound=engine.replay_sound, complete=engine.replay_complete, objective=replay_objective,
                build=replay_build)[rp["kind"]](rp)
