"""Engine A driver: soundness (NLP => reference) and completeness (reference => NLP) queries."""
from fractions import Fraction

import nlp
import poly
import smt
import spec as specmod
from poly import P
from smt import F, OrF, INF, Prover, Box

Q = Fraction


def load(c):
    a = nlp.capture(c)
    s = specmod.Spec(a).build()
    return a, s


def nlp_prover(a, s, lemmas=True, sigma=None):
    facts = [F(a.g[i], a.lbg[i], a.ubg[i], f"row{i}") for i in range(len(a.g))]
    if lemmas:
        facts += [F(x * y, 0, INF, "lemma") for x, y, _ in s.pairs]
    return Prover(facts, s.nlp_box())


def sound(a, s, groups, prover=None, nra=0):
    """prove every reference condition of the groups from the NLP; returns list of (Cond, Result)"""
    pr = prover or nlp_prover(a, s)
    out = []
    for c in s.conds:
        if c.group in groups:
            r = pr.prove(c.f, tol=c.tol, nra_timeout=nra)
            if r.verdict != "holds" and isinstance(c.f, F):
                g = eliminated(a, c.f)
                if g is not None:
                    r2 = pr.prove(g, tol=c.tol, nra_timeout=nra)
                    if r2.verdict == "holds":
                        r = r2
            out.append((c, r))
    return out, pr


def eliminated(a, f):
    """the goal with states replaced through NLP equality rows of the form  x - expression = 0 (None: nothing to do)"""
    xs = {v for v, k in kinds(a).items() if k == "x"}
    rule = {}
    for i, row in enumerate(a.g):
        if a.lbg[i] != a.ubg[i]:
            continue
        for v in xs & set(row.vars()):
            cf = row.t.get(((v, 1),))
            if cf is None or sum(1 for m in row.t if any(q == v for q, _ in m)) != 1:
                continue
            rest = (row - P({((v, 1),): cf}) - P.c(a.lbg[i])) * P.c(-1 / cf)
            if v not in rule and not (set(rest.vars()) & xs and max(set(rest.vars()) & xs) > v):
                rule[v] = rest
    vs = set(f.p.vars()) & set(rule)
    if not vs:
        return None
    return F(f.p.subs({v: rule[v] for v in vs}), f.lo, f.hi, f.tag)


def sound_pairs(a, s, prover=None):
    """nonnegativity of both factors and product <= relaxation"""
    pr = prover or nlp_prover(a, s)
    out = []
    for q, l in s.nonneg:
        c = specmod.Cond("nonneg", F(q, 0, INF), f"{l} >= 0")
        out.append((c, pr.prove(c.f)))
    for x, y, l in s.pairs:
        c = specmod.Cond("comp", F(x * y - s.relax(), -INF, 0), f"product <= relaxation: {l}")
        out.append((c, pr.prove(c.f)))
    return out, pr


def at_zero(a, s, p):
    """relaxation parameters zero"""
    mp = {a.sigma.vid(): P.c(0)}
    if s.s_el is not None:
        mp[s.s_el.vid()] = P.c(0)
    return p.subs(mp)


def spec_prover(a, s, r=10.0):
    facts = []
    for c in s.conds:
        f = c.f
        if isinstance(f, F):
            facts.append(F(at_zero(a, s, f.p), f.lo, f.hi, c.desc))
        else:
            facts.append(f)
    for x, y, l in s.pairs:
        facts.append(F(x * y, 0, 0, l))
    for n, (x, y), l in s.upairs:
        facts += [F(x * y, 0, 0, l), F(x, 0, INF, l), F(y, 0, INF, l)]
    for q, l in s.nonneg:
        if not q.is_var():
            facts.append(F(q, 0, INF, l))
    if s.rep == "DIFFERENTIAL" and s.radau and s.d.gpath is not None:
        # the end state equals the last stage state, so path conditions there hold in both notations
        lo = s.d.lbgp if s.d.lbgp is not None else [0, 0]
        hi = s.d.ubgp if s.d.ubgp is not None else [0, 0]
        for (c, e) in s.path_ends:
            for i, q in enumerate(s.d.gpath(s.X[c, e, s.ns - 1], s.u[c], s.par(c), s.v)):
                facts.append(F(poly.co(q), float(lo[i]), float(hi[i]), "g_path at the last stage"))
    # exact initial multipliers are nonnegative (definition)
    return Prover(facts, s.spec_box(r))


def complete(a, s, prover=None, rows=None, nra=0, only=None):
    """prove every NLP row and every variable bound from the reference; list of (label, goal, Result)"""
    pr = prover or spec_prover(a, s)
    out = []
    for i in range(len(a.g)):
        if rows is not None and i not in rows or only is not None and not only(("row", i)):
            continue
        g = F(at_zero(a, s, a.g[i]), a.lbg[i], a.ubg[i], f"row {i}")
        out.append((("row", i), g, pr.prove(g, nra_timeout=nra)))
    if rows is None:
        for i in range(a.n):
            lo, hi = a.lbx[i], a.ubx[i]
            if lo == -INF and hi == INF or only is not None and not only(("bound", i)):
                continue
            if s.s_el is not None and a.w[i].vid() == s.s_el.vid():
                g = F(P.c(0), lo, hi)
                out.append((("bound", i), g, pr.prove(g)))
                continue
            # finite bounds outside the box |.| <= 10 of the other queries: decided in a box that contains them
            far = [b for b in (lo, hi) if abs(b) != INF and abs(b) >= 10]
            g = F(a.w[i], lo if lo > -10 else -INF, hi if hi < 10 else INF, f"bound {i}")
            if g.lo != -INF or g.hi != INF:
                out.append((("bound", i), g, pr.prove(g)))
            if far:
                g = F(a.w[i], lo, hi, f"bound {i}")
                r = max(abs(b) for b in far)
                big = spec_prover(a, s, 4 * r)
                out.append((("bound", i, 4 * r), g, big.prove(g)))
    return out, pr


# ------------------------------------------------------------------ concrete re-execution
def concrete(c, names, sigma=None):
    """Run the real solver front end with the concrete inputs in `names` (variable name -> value) and return
    what it hands to the NLP solver: (record, f(w,p), g(w,p))."""
    import casadi as ca
    import models
    import nosnoc
    import numpy as np
    import warnings
    d = models.make(c["model"], c.get("feats", []))
    N = nlp.full(c, "N_stages")
    vals = dict(pg=[float(names.get(f"pg_{n}", nlp.pval(n))) for n in d.pg],
                tv=[[float(names.get(f"tv_{n}_{i}", nlp.pval(n, i + 1))) for n in d.tv] for i in range(N)])
    vals["tv"] = np.array(vals["tv"]).reshape(N, len(d.tv))
    x0 = [float(names.get(f"x0_{i}", 0.1 * (i + 1))) for i in range(d.nx)]
    with nlp.patched(symbolic=False), nlp.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        opts = nlp.make_opts(c)
        via = c.get("via", "set")
        if via == "ctor":
            m, ocp = nlp.make_model(d, N, x0=x0, vals=vals)
        else:
            m, ocp = nlp.make_model(d, N)
        solver = nosnoc.NosnocSolver(opts, m, ocp)
        nlp.give(solver, d, np.array(x0), np.array(vals["pg"]), vals["tv"], via)
        if sigma is not None:
            solver.opts.sigma_0 = float(sigma)
        nlp.FakeNlp.current_handler = None
        try:
            solver.solve()
        except nlp.CaptureDone:
            pass
    fake = solver.solver
    rec = fake.calls[-1]
    P_ = fake.nlp
    g = P_.get("g", ca.SX(0, 1))
    fun = ca.Function("fg", [P_["x"], P_["p"]], [ca.densify(P_["f"]), ca.densify(g)])
    return solver, rec, fun


def eval_real(c, names, n, sigma=None):
    import numpy as np
    solver, rec, fun = concrete(c, names, sigma)
    w = np.array([float(names[f"w{i}"]) for i in range(n)])
    f, g = fun(w, np.array(rec.kw["p"], dtype=float))
    return dict(solver=solver, rec=rec, w=w, f=float(f), g=np.array(g).flatten(),
                lbg=np.array(rec.kw["lbg"], dtype=float), ubg=np.array(rec.kw["ubg"], dtype=float),
                lbx=np.array(rec.kw["lbx"], dtype=float), ubx=np.array(rec.kw["ubx"], dtype=float))


def names_of(a, env):
    return {poly.ATOMS[v].name: x for v, x in env.items()}


def full_env(a, env, rng_seed=3):
    """fill in values for variables a witness does not mention"""
    import numpy as np
    rng = np.random.default_rng(rng_seed)
    out = dict(env)
    for v, at in enumerate(poly.ATOMS):
        if at.kind == "var" and v not in out:
            lo = -1.0 if at.lo is None else float(at.lo)
            hi = 1.0 if at.hi is None else float(at.hi)
            out[v] = float(rng.uniform(lo, hi))
    return out


def real_infeasibility(r):
    import numpy as np
    v = 0.0
    for x, lo, hi in ((r["g"], r["lbg"], r["ubg"]), (r["w"], r["lbx"], r["ubx"])):
        if len(x):
            v = max(v, float(np.max(np.maximum(np.maximum(lo - x, x - hi), 0))))
    return v


def witness_sound(a, s, cond, tries=6, budget=40, seed=1):
    """concrete feasible point of the real NLP that violates the reference condition"""
    import numpy as np
    import witness
    facts = [F(a.g[i], a.lbg[i], a.ubg[i], f"row{i}") for i in range(len(a.g))]
    box = s.nlp_box()
    box.set(a.sigma.vid(), Fraction(1, 1000), 1)
    se = witness.Search(facts, box, extra_vars=[w.vid() for w in a.w])
    got = se.find(cond.f, tries=tries, budget=budget, rng=np.random.default_rng(seed))
    if got is None:
        return None
    env = full_env(a, got[0])
    return dict(kind="sound", cfg=dict(a.cfg), group=cond.group, desc=cond.desc,
                env={k: v for k, v in names_of(a, env).items()}, margin=got[1])


def replay_sound(rp):
    """-> (violated?, text)"""
    c = nlp.Cfg(rp["cfg"])
    a, s = load(c)
    names = rp["env"]
    r = eval_real(c, names, a.n, sigma=names.get("sigma"))
    infeas = real_infeasibility(r)
    env = {v: names[at.name] for v, at in enumerate(poly.ATOMS) if at.kind == "var" and at.name in names}
    env = full_env(a, env)
    import witness
    cands = [cd for cd in conds_all(a, s) if cd.group == rp["group"] and cd.desc == rp["desc"]]
    if not cands:
        return False, "no such condition"
    v = witness.goal_violation(cands[0].f, env)
    txt = (f"point is feasible for the generated NLP (max row/bound violation {infeas:.1e}) but violates "
           f"'{rp['desc']}' by {v:.3g}")
    return infeas < 1e-5 and v > 1e-4, txt


EQMODE = "SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA"


def relax_eq(a, s):
    """equality forms: every group of products equals the relaxation parameter of this step"""
    if s.o("mpcc_mode") != "SCHOLTES_EQ":
        return []
    gr = {}
    for x, y, l in s.pairs:
        gr.setdefault(l.split(" with ")[0] if s.fesd and s.o("cross_comp_mode") == EQMODE else l, []).append((x, y))
    out = [specmod.Cond("compeq", F(sum((x * y for x, y in prs), P.c(0)) - s.relax(), 0, 0), f"products sum to the relaxation: {l}")
           for l, prs in gr.items()]
    for n, (x, y), l in getattr(s, "upairs", []):
        out.append(specmod.Cond("compeq", F(x * y - s.relax(), 0, 0), f"product = relaxation: {l}"))
    return out


def conds_all(a, s):
    out = list(s.conds) + relax_eq(a, s)
    for q, l in s.nonneg:
        out.append(specmod.Cond("nonneg", F(q, 0, INF), f"{l} >= 0"))
    for x, y, l in s.pairs:
        out.append(specmod.Cond("comp", F(x * y - s.relax(), -INF, 0), f"product <= relaxation: {l}"))
    for n, (x, y), l in getattr(s, "upairs", []):
        out.append(specmod.Cond("usercomp", F(x * y - s.relax(), -INF, 0), f"product <= relaxation: {l}"))
    return out


def spec_facts(a, s):
    fs = []
    for c in s.conds:
        f = c.f
        fs.append(F(at_zero(a, s, f.p), f.lo, f.hi, c.desc) if isinstance(f, F) else f)
    for n, (x, y), l in s.upairs:
        fs += [F(x * y, 0, 0, l), F(x, 0, INF, l), F(y, 0, INF, l)]
    for q, l in s.nonneg:
        fs.append(F(q, 0, INF, l))
    return fs


def patterns(a, s, n, rng):
    """complementarity patterns: for every element and subsystem an active mode (or two)"""
    keys = {}
    for (x, y, l), k in zip(s.pairs, s.pairkey):
        keys.setdefault(k[:-1], {}).setdefault(k[-1], []).append((x, y))
    for it in range(n):
        pat = []
        mode = {}
        for g, ks in keys.items():
            st = (g[-1],)            # subsystem
            names = sorted(ks)
            kinds = {k[0] for k in names}
            if "t" in kinds:
                m = len(names)
                base = mode.setdefault(st, int(rng.integers(m)))
                act = {base}
                if rng.random() < 0.35:
                    mode[st] = int(rng.integers(m))      # switch at the end of this element
                if rng.random() < 0.3:
                    act.add(int(rng.integers(m)))
                for i, k in enumerate(names):
                    for x, y in ks[k]:
                        pat.append(y if i in act else x)
            else:
                nk = len(names) // 2
                base = mode.setdefault(st, [int(rng.integers(2)) for _ in range(nk)])
                for i in range(nk):
                    b = base[i] if rng.random() > 0.2 else 2
                    for x, y in ks[("a", i)]:            # alpha * lambda_n
                        pat.append(x if b == 0 else y)
                    for x, y in ks[("1-a", i)]:          # (1 - alpha) * lambda_p
                        pat.append(x if b == 1 else y)
                if rng.random() < 0.35:
                    mode[st] = [int(rng.integers(2)) for _ in range(nk)]
        for n_, (x, y), l in s.upairs:
            pat.append(x if rng.random() < 0.5 else y)
        seen, out = set(), []
        for q in pat:
            if not q.is_const() and q.key() not in seen:
                seen.add(q.key())
                out.append(q)
        yield out


def kinds(a):
    """variable id -> kind of decision variable"""
    k = getattr(a, "_kinds", None)
    if k is None:
        k = {}
        for nm in ("h", "u", "v_global", "sot", "elastic", "x", "v", "theta", "lam", "mu", "alpha", "lambda_n", "lambda_p",
                   "z", "bool"):
            for i in specmod.flat(getattr(a.prob, "ind_" + nm)):
                k[a.w[i].vid()] = nm
        a._kinds = k
    return k


def witness_complete(a, s, label, goal, tries=16, budget=60, seed=1):
    import numpy as np
    import witness
    rng = np.random.default_rng(seed)
    box = s.spec_box(*label[2:])
    facts = spec_facts(a, s)
    se = witness.Search(facts, box, extra_vars=[w.vid() for w in a.w])
    seeds = []
    if len(label) > 2:          # a bound far outside the usual box: start next to it
        for k in range(4):
            e = {v: float(rng.uniform(0.2, 0.8)) for v, at in enumerate(poly.ATOMS) if at.kind == "var"}
            b = goal.hi if goal.hi != INF and abs(goal.hi) >= 10 else goal.lo
            sg = (1.0 if b > 0 else -1.0) * (-1 if k % 2 else 1)
            for v, at in enumerate(poly.ATOMS):
                if at.kind == "var" and at.name.startswith("x0_"):
                    e[v] = sg * abs(b) * 1.1
            for v, nm in kinds(a).items():
                if nm in ("x", "lam", "lambda_n", "lambda_p", "mu", "z"):
                    e[v] = sg * abs(b) * 1.1 if nm == "x" else abs(b) * 1.1 * (-1 if nm == "mu" else 1)
            seeds.append(e)
    got = se.find(goal, patterns=patterns(a, s, tries, rng), budget=budget, rng=rng, seeds=seeds)
    if got is None:
        return None
    env = dict(got[0])
    env[a.sigma.vid()] = 0.0
    if s.s_el is not None:
        env[s.s_el.vid()] = 0.0
    env = full_env(a, env)
    return dict(kind="complete", cfg=dict(a.cfg), label=list(label), env=names_of(a, env), margin=got[1])


def replay_complete(rp):
    import numpy as np
    import witness
    c = nlp.Cfg(rp["cfg"])
    a, s = load(c)
    names = rp["env"]
    env = {v: names[at.name] for v, at in enumerate(poly.ATOMS) if at.kind == "var" and at.name in names}
    env = full_env(a, env)
    worst = 0.0
    for f in spec_facts(a, s):
        worst = max(worst, witness.goal_violation(f, env))
    for x, y, l in s.pairs:
        worst = max(worst, abs(float((x * y).ev(env))))
    r = eval_real(c, names, a.n, sigma=0.0)
    kind, i = rp["label"][:2]
    if kind == "row":
        v, lo, hi = r["g"][i], r["lbg"][i], r["ubg"][i]
        what = f"constraint row {i}: {a.g[i]!r}"
    else:
        v, lo, hi = r["w"][i], r["lbx"][i], r["ubx"][i]
        what = f"bound of variable {i} ({a.prob.w[i]})"
    viol = max(lo - v, v - hi, 0.0)
    txt = (f"an exact discrete solution (max deviation {worst:.1e}) violates {what}: value {v:.6g} outside "
           f"[{lo:.6g}, {hi:.6g}]")
    return worst < 1e-5 and viol > 1e-4, txt
