"""Deterministic covering arrays of solver configurations."""
import itertools
import random

import models
import nlp

EQ = "SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA"
ALL = "COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER"

# layouts: (N_stages, Nfe_list or N_finite_elements)
LAYOUTS = [(1, [2]), (2, [2, 1]), (1, [3]), (2, [1, 3]), (3, [2, 1, 2]), (1, [1]), (2, 2), (1, 3), (2, [3, 1]), (2, [3, 2])]

BASE = dict(
    model=[("a2", ()), ("s22", ()), ("a4", ()), ("s24", ()), ("g3", ()), ("gi2", ()), ("q2", ()), ("a3", ()),
           ("s23", ()), ("a1", ()), ("a2rev", ()), ("s222", ()), ("gs2", ()), ("gi22", ())],
    feats=[("u", "tv", "ctv", "fq", "fT"), ("u", "u2", "z", "zb", "gpath", "bx", "bu"), ("tv", "tv2", "v", "v2", "gT", "fq"),
           ("z", "z2", "cz", "bx"), ("u", "v", "bv", "fT", "gpath", "gT", "bu"), ("u", "tv", "z", "v", "fq", "gpath", "gpeq")],
    irk_representation=["INTEGRAL", "DIFFERENTIAL", "DIFFERENTIAL_LIFT_X"],
    irk_scheme=["RADAU_IIA", "GAUSS_LEGENDRE"],
    n_s=[2, 1, 3],
    use_fesd=[True, True, False],
    pss_mode=["STEWART", "STEP"],
    cross_comp_mode=[EQ, ALL],
    mpcc_mode=["SCHOLTES_INEQ", "SCHOLTES_EQ", "ELASTIC_INEQ", "ELASTIC_EQ", "ELASTIC_TWO_SIDED"],
    layout=LAYOUTS,
    step_equilibration=["HEURISTIC_DELTA", "HEURISTIC_MEAN"],
    equidistant_control_grid=[True, False],
    sot=["NONE", "LOCAL", "GLOBAL"],
    gopt=[(False, False), (True, False), (False, True), (True, True)],
    gamma_h=[1.0, 0.4],
)


def to_cfg(d):
    c = dict(d)
    m, f0 = c.pop("model")
    feats = list(f0) + [f for f in c.pop("feats", ()) if f not in f0]
    lay = c.pop("layout", (1, [2]))
    opts = {}
    opts["N_stages"] = lay[0]
    if isinstance(lay[1], list):
        opts["Nfe_list"] = list(lay[1])
    else:
        opts["N_finite_elements"] = lay[1]
    if "gopt" in c:
        g = c.pop("gopt")
        opts["g_path_at_fe"], opts["g_path_at_stg"] = g
    if "sot" in c:
        opts["speed_of_time_variables"] = c.pop("sot")
    via = c.pop("via", None)
    opts.update(c)
    r = nlp.cfg(m, feats, **opts)
    if via:
        r["via"] = via
    return r


def n_elem(d):
    lay = d["layout"]
    return sum(lay[1]) if isinstance(lay[1], list) else lay[0] * lay[1]


DIRECT = ("g3", "gs2")         # direct indicator functions: Stewart's form only
INCL = ("gi2", "gi22")         # general inclusions: step form only


def pss_ok(m, pss):
    return not (m in DIRECT and pss != "STEWART" or m in INCL and pss != "STEP")


def valid(d):
    m = d["model"][0]
    if not pss_ok(m, d["pss_mode"]):
        return False
    if d["pss_mode"] == "STEWART" and m in ("a3", "s23"):     # see C04 for partial sign matrices in Stewart's form
        pass
    if "cz" in d.get("feats", ()) and m in DIRECT + INCL:
        return False
    if m in INCL and any(f.startswith("comp") for f in d.get("feats", ())):
        return True
    nm = {"a4": 4, "s24": 6, "s23": 5, "s22": 4, "a3": 3, "g3": 3, "s222": 6, "gs2": 5, "gi22": 3}.get(m, 2)
    if n_elem(d) * d["n_s"] * nm > 36:
        return False
    return True


def cover(dims, t=2, ok=valid, seed=7, cand=12, limit=10**6, start=()):
    """greedy t-wise covering array over dims (names -> values), respecting ok(): every combination of t values
    that occurs in a valid configuration (as far as 60 random completions show) occurs in one of the rows.
    start: rows that are already there (index form)"""
    return [to_cfg(d) for d in cover_rows(dims, t, ok, seed, cand, limit, start)[0]]


def cover_rows(dims, t=2, ok=valid, seed=7, cand=12, limit=10**6, start=()):
    rng = random.Random(seed)
    names = list(dims)
    combos = list(itertools.combinations(range(len(names)), t))
    # repeated values only serve as weights when sampling
    uniq = {n: [k for k, v in enumerate(dims[n]) if v not in dims[n][:k]] for n in names}
    canon = {n: [dims[n].index(v) for v in dims[n]] for n in names}
    need = [(combo, vals) for combo in combos for vals in itertools.product(*[uniq[names[i]] for i in combo])]
    rng.shuffle(need)
    done, out, idx = set(), [], list(start)

    def mk(ix):
        return {n: dims[n][ix[i]] for i, n in enumerate(names)}

    def covered(ix):
        ix = [canon[n][k] for n, k in zip(names, ix)]
        return {(c, tuple(ix[i] for i in c)) for c in combos}
    for ix in start:
        done |= covered(ix)
    for tup in need:
        if len(out) >= limit:
            break
        if tup in done:
            continue
        best, bs, tries, found = None, 0, 0, 0
        while tries < 60 and found < cand:
            tries += 1
            ix = [rng.randrange(len(dims[n])) for n in names]
            for i, x in zip(*tup):
                ix[i] = x
            if not ok(mk(ix)):
                continue
            found += 1
            sc = len(covered(ix) - done)
            if sc > bs:
                best, bs = ix, sc
        if best is None:
            continue        # not part of any valid configuration
        done |= covered(best)
        out.append(mk(best))
        idx.append(best)
    return out, idx


def dims(**over):
    d = dict(BASE)
    for k, v in over.items():
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
    return d


def arrays(tier, dims, ok=valid, quick3=150, thorough4=300, seed=7):
    """quick: complete pairwise array and the first `quick3` rows of the 3-wise one (each row of the greedy array adds
    the most uncovered triples); thorough: complete pairwise and 3-wise arrays and `thorough4` rows of the 4-wise one"""
    rows, idx = cover_rows(dims, 2, ok, seed)
    r3, i3 = cover_rows(dims, 3, ok, seed + 4, limit=quick3 if tier == "quick" else 10**6, start=idx)
    r4 = [] if tier == "quick" else cover_rows(dims, 4, ok, seed + 93, cand=6, limit=thorough4, start=idx + i3)[0]
    return [to_cfg(r) for r in rows + r3 + r4]
