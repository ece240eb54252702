"""C27: index bookkeeping.

part nlp   -- the real solver front end is executed with symbolic bounds and guesses of every user-visible quantity; every
              optimization variable must be in exactly one index group (decided by z3 over a symbolic variable number) and
              carry, in every component, the bounds and guess of its own kind (claims over the symbolic values)
part lists -- flatten/flatten_layer/flatten_outer_layers/increment_indices on nested lists (all shapes up to a bound) whose
              entries and offset are symbolic integers
"""
import itertools
import time

import casadi as ca
import numpy as np
import z3

import configs
import engineb as eb
import models
import nlp
import poly
import runner
import smt
import nosnoc
from engineb import Claim
from poly import P

GROUPS = ("x", "v", "theta", "lam", "mu", "alpha", "lambda_n", "lambda_p", "bool", "z", "elastic", "u", "sot", "h", "v_global")


def info(prop):
    return dict(
        explanation="the NLP is built by the real code with symbolic bounds and guesses (states, controls, algebraic and global "
                    "variables, speed of time, elastic slack, step length spread); z3 decides that each variable number belongs to "
                    "exactly one published index group and that each entry carries the bounds and guess of its kind and component; "
                    "the list helpers are executed on nested lists of symbolic integers with a symbolic offset",
        bounds="every value of the bounds/guesses; variable number symbolic over the whole vector; configurations: pairwise covering "
               "array (models, features, representation, scheme, n_s 1..3, layouts up to 5 elements, MPCC modes incl. BOOLEAN, speed "
               "of time, fixed/free steps); lists: all nestings of depth <= 3 with <= 3 leaves and <= 5 lists, plus ragged uniform nestings up to depth 4; entries and offset unbounded integers",
        assumptions=["casadi.nlpsol is replaced by a recorder", "which constraints treat an entry as that quantity is C02/C03/C17"])


def label(prop, c):
    return f"lists {c['fn']}" if "fn" in c else nlp.Cfg(c).label()


def items(prop, tier):
    d = configs.dims(
        model=[("a1", ()), ("a2", ()), ("s22", ()), ("g3", ()), ("gi2", ()), ("a3", ()), ("s23", ()), ("s222", ()), ("gs2", ()), ("gi22", ())],
        feats=[("u", "tv", "fq", "fT"), ("u", "u2", "z", "zb", "bx", "bu"), ("tv", "v", "v2", "bv"), ("z", "z2", "cz", "bx"), (),
               ("u", "v", "z", "compu", "compx", "compv"), ("u", "u2", "v", "compxu")],
        layout=[(1, [2]), (2, [2, 1]), (1, [1]), (3, [1, 2, 2]), (2, 2)],
        mpcc_mode=["SCHOLTES_INEQ", "SCHOLTES_EQ", "ELASTIC_INEQ", "ELASTIC_EQ", "ELASTIC_TWO_SIDED", "FISCHER_BURMEISTER", "BOOLEAN",
                   "FISCHER_BURMEISTER_IP_AUG"],
        step_equilibration=["HEURISTIC_DELTA", "DIRECT_COMPLEMENTARITY", "HEURISTIC_DELTA_H_COMP"], gopt=None, gamma_h=None)
    import nlpchecks

    def ok(dd):
        if not configs.valid(dict(dd)) or configs.n_elem(dd) * dd["n_s"] > 8:
            return False
        if dd["mpcc_mode"].endswith("IP_AUG") and dd["cross_comp_mode"] == configs.EQ:
            return False
        if dd["step_equilibration"] == "DIRECT_COMPLEMENTARITY" and nlpchecks.nu_terms(dd) > 120:
            return False
        return True
    cs = configs.arrays(tier, d, ok, quick3=300)
    return cs + [dict(fn=f) for f in ("flatten", "flatten_layer", "flatten_outer_layers", "increment_indices",
                                      "create_empty_list_matrix", "get_cont_algebraic_indices")]


# ------------------------------------------------------------------ part nlp
def run_nlp(c):
    def run(ctx):
        with eb.session(ctx):
            opts = nlp.make_opts(c)
            d = models.make(c["model"], c.get("feats", []))
            m, ocp = nlp.make_model(d, opts.N_stages)
            ocp = ocp or nosnoc.NosnocOcp()
            D = ctx.data
            I = D["I"] = {}
            I["x0"] = m.x0 = ctx.vec("x0_", d.nx, -3, 3)
            for k, n in (("lbx", d.nx), ("ubx", d.nx), ("lbu", d.nu), ("ubu", d.nu), ("u_guess", d.nu), ("lbv_global", d.nv),
                         ("ubv_global", d.nv), ("v_global_guess", d.nv)):
                I[k] = ctx.vec(k + "_", n, -5, 5)
                setattr(ocp, k, I[k])
            for k in ("z0", "lbz", "ubz"):
                I[k] = ctx.vec(k + "_", d.nz, -5, 5)
                setattr(m, k, I[k])
            for k in ("s_elastic_min", "s_elastic_max", "s_elastic_0"):
                I[k] = ctx.var(k, 0, 9)
                setattr(opts, k, I[k])
            I["g"] = ctx.var("gamma", 0, 1)
            opts.gamma_h = I["g"]
            lo, hi = ctx.var("sotmin", 0, 4), ctx.var("sotmax", 0, 9)
            ctx.require(lo <= hi)
            I["smin"], I["smax"] = lo, hi
            opts.speed_of_time_min, opts.speed_of_time_max = lo, hi
            with eb.loose_validate():
                solver = nosnoc.NosnocSolver(opts, m, ocp)
            D.update(prob=solver.problem, d=d, opts=opts, nw=solver.solver.nlp["x"].numel(), np=solver.solver.nlp["p"].numel())
    return run


def leaves(L):
    return [a for e in L for a in leaves(e)] if isinstance(L, list) else [int(L)]


def lists(L):
    """innermost lists of integers (empty ones dropped)"""
    if not isinstance(L, list):
        return []
    if all(not isinstance(e, list) for e in L):
        return [[int(e) for e in L]] if L else []
    return [x for e in L for x in lists(e)]


def member_query(nw, occ):
    """z3: is there a variable number that is not in exactly one group?"""
    k = z3.Int("k")
    s = z3.Solver()
    s.add(k >= 0, k < nw)
    cnt = z3.Sum([z3.IntVal(0)] + [z3.If(k == o, 1, 0) for o in occ])
    s.add(cnt != 1)
    t = time.time()
    r = s.check()
    smt.STATS.queries += 1
    smt.STATS.time += time.time() - t
    if r == z3.unsat:
        smt.STATS.unsat += 1
        return None
    smt.STATS.sat += 1
    return s.model()[k].as_long()


def expected_counts(c, d, opts):
    """sizes of the groups from the configuration alone: name -> (number of lists or None, total entries)"""
    lay, n_s = nlp.layout(c), nlp.full(c, "n_s")
    nfe, N = sum(lay), len(lay)
    rep, fesd = nlp.full(c, "irk_representation"), nlp.full(c, "use_fesd")
    radau = nlp.full(c, "irk_scheme") == "RADAU_IIA"
    xs = 1 if rep == "DIFFERENTIAL" else (n_s if radau else n_s + 1)
    stew = nlp.full(c, "pss_mode") == "STEWART"
    ends = 0 if (radau or not fesd) else sum(n - 1 for n in lay)      # elements with multipliers at the right boundary
    if d.fx is None:
        nf = [len(s.F0) if False else _nf(s, d) for s in d.systems]
        nc = [_nc(s, d) for s in d.systems]
    else:
        nf = []
        nc = [len(f([0.0] * d.nx, [0.0] * d.nz, _P())) for f in d.calpha_list]
    mode = nlp.full(c, "mpcc_mode")
    sot = nlp.full(c, "speed_of_time_variables")
    r = dict(x=nfe * xs * d.nx, v=0 if rep == "INTEGRAL" else nfe * n_s * d.nx, u=N * d.nu, z=nfe * n_s * d.nz,
             h=nfe if fesd else 0, v_global=d.nv, elastic=1 if mode.startswith("ELASTIC") else 0,
             sot=dict(NONE=0, GLOBAL=1, LOCAL=N)[sot],
             theta=nfe * n_s * sum(nf) if stew else 0, lam=(nfe * n_s + ends) * sum(nf) if stew else 0,
             mu=(nfe * n_s + ends) * len(nf) if stew else 0,
             alpha=0 if stew else nfe * n_s * sum(nc), lambda_n=0 if stew else (nfe * n_s + ends) * sum(nc),
             lambda_p=0 if stew else (nfe * n_s + ends) * sum(nc))
    if mode != "BOOLEAN":
        r["bool"] = 0
    return r


class _P(dict):
    def __missing__(self, k):
        return 0.5


def _nf(s, d):
    return len(s.F([0.0] * d.nx, [0.0] * d.nu, [0.0] * d.nz, _P(), [0.0] * d.nv))


def _nc(s, d):
    return 0 if s.g is not None else len(s.c([0.0] * d.nx, [0.0] * d.nz, _P()))


def oracle_nlp(c):
    def oracle(ctx):
        D, I = ctx.data, ctx.data["I"]
        pr, d, opts, nw = D["prob"], D["d"], D["opts"], D["nw"]
        occ, per = [], {}
        for g in GROUPS:
            L = getattr(pr, "ind_" + g)
            per[g] = leaves(L)
            occ += per[g]
        k = member_query(nw, occ)
        yield Claim("partition", f"variable {k} is in {[g for g in GROUPS for i in per[g] if i == k]} (groups must cover it once)", k is None)
        yield Claim("range", "an index group contains a number outside the variable vector", all(0 <= i < nw for i in occ))
        for g, n in expected_counts(c, d, opts).items():
            yield Claim("size", f"group {g} has {len(per[g])} entries instead of {n}", len(per[g]) == n)
        lb, ub, w0 = [list(np.array(a, dtype=object)) for a in (pr.lbw, pr.ubw, pr.w0)]
        yield Claim("lengths", "bounds or guess have the wrong length", len(lb) == len(ub) == len(w0) == nw)
        if not (len(lb) == len(ub) == len(w0) == nw) or any(not 0 <= i < nw for i in occ):
            return

        def kind(g, size, **want):
            for l in lists(getattr(pr, "ind_" + g)):
                yield Claim("shape", f"a list of group {g} has {len(l)} entries instead of {size}", len(l) == size)
                if len(l) != size:
                    return
                for j, i in enumerate(l):
                    for nm, arr in (("lb", lb), ("ub", ub), ("guess", w0)):
                        if nm in want:
                            w = want[nm]
                            w = w[j] if isinstance(w, (list, np.ndarray)) else w
                            yield Claim(f"{g}-{nm}", f"{nm} of {g} entry {j} (variable {i}) is {eb._s(arr[i])}, expected {eb._s(w)}",
                                        same(ctx, arr[i], w))
        yield from kind("x", d.nx, lb=I["lbx"], ub=I["ubx"], guess=I["x0"])
        yield from kind("u", d.nu, lb=I["lbu"], ub=I["ubu"], guess=I["u_guess"])
        yield from kind("z", d.nz, lb=I["lbz"], ub=I["ubz"], guess=I["z0"])
        yield from kind("v_global", d.nv, lb=I["lbv_global"], ub=I["ubv_global"], guess=I["v_global_guess"])
        yield from kind("v", d.nx, lb=-np.inf, ub=np.inf)
        yield from kind("mu", 1, lb=-np.inf, ub=np.inf)
        yield from kind("elastic", 1, lb=I["s_elastic_min"], ub=I["s_elastic_max"], guess=I["s_elastic_0"])
        yield from kind("bool", None or 0, lb=0, ub=1) if False else ()
        for i in leaves(pr.ind_bool):
            yield Claim("bool-bounds", f"bounds of binary variable {i} are not 0 and 1", lb[i] == 0 and ub[i] == 1)
        for i in leaves(pr.ind_sot):
            yield Claim("sot-lb", f"lower bound of the speed of time (variable {i})", same(ctx, lb[i], I["smin"]))
            yield Claim("sot-ub", f"upper bound of the speed of time (variable {i})", same(ctx, ub[i], I["smax"]))
            yield Claim("sot-guess", f"guess of the speed of time (variable {i}) is outside its bounds",
                        eb.land(w0[i] >= I["smin"], w0[i] <= I["smax"]))
        hs = leaves(pr.ind_h)
        lay = nlp.layout(c)
        nom = [nlp.full(c, "terminal_time") / len(lay) / n for n in lay for _ in range(n)]
        if len(hs) == len(nom):
            for i, h in zip(hs, nom):
                yield Claim("h-lb", f"lower bound of step length (variable {i}) is {eb._s(lb[i])}", same(ctx, lb[i], (1 - I["g"]) * h))
                yield Claim("h-ub", f"upper bound of step length (variable {i}) is {eb._s(ub[i])}", same(ctx, ub[i], (1 + I["g"]) * h))
                yield Claim("h-guess", f"guess of step length (variable {i}) is {eb._s(w0[i])}", same(ctx, w0[i], h))
        for g in ("theta", "lam", "alpha", "lambda_n", "lambda_p"):
            lbs = 0.0 if nlp.full(c, "mpcc_mode").split("_")[0] in ("SCHOLTES", "ELASTIC") else -np.inf
            for i in per[g]:
                yield Claim(f"{g}-lb", f"lower bound of {g} (variable {i}) is {lb[i]}", same(ctx, lb[i], lbs))
                yield Claim(f"{g}-ub", f"upper bound of {g} (variable {i}) is {ub[i]}", same(ctx, ub[i], 1.0 if g == "alpha" else np.inf))
                yield Claim(f"{g}-guess", f"guess of {g} (variable {i}) is {eb._s(w0[i])}", eb.land(w0[i] >= 0, w0[i] <= ub[i]))
        yield from elements(pr)
    return oracle


def elements(pr):
    """the shifted lists point to the same variables as the lists of the finite elements"""
    try:
        stages = pr.stages
        stages[0][0].ind_x
    except (AttributeError, IndexError):
        return
    for s, stage in enumerate(stages):
        for f, fe in enumerate(stage):
            for g in ("x", "v", "theta", "lam", "mu", "alpha", "lambda_n", "lambda_p", "z", "bool"):
                a, b = getattr(fe, "ind_" + g), getattr(pr, "ind_" + g)[s][f]
                okn = nest(a) == nest(b)
                yield Claim("nesting", f"nesting of group {g} of element {s},{f} changed", okn)
                if okn:
                    la, lb_ = leaves(a), leaves(b)
                    yield Claim("offset", f"group {g} of element {s},{f} points to other variables than in the element",
                                all(0 <= j < pr.w.numel() and ca.is_equal(fe.w[i], pr.w[j]) for i, j in zip(la, lb_)))
            rows, prows = leaves(fe.ind_comp), leaves(pr.ind_comp[s][f])
            if pr.g.numel():
                yield Claim("comp-rows", f"complementarity rows of element {s},{f} point to other constraints than in the element",
                            len(rows) == len(prows) and all(0 <= j < pr.g.numel() and ca.is_equal(fe.g[i], pr.g[j]) for i, j in zip(rows, prows)))


def nest(L):
    return [nest(e) for e in L] if isinstance(L, list) else 0


def same(ctx, a, b):
    if isinstance(a, P) or isinstance(b, P):
        fin = [isinstance(q, P) or np.isfinite(float(q)) for q in (a, b)]
        return ctx.eq(a, b) if all(fin) else False
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= 1e-9 * (1 + abs(a))


# ------------------------------------------------------------------ part lists
class SymInt(int):
    """integer with a symbolic value (a z3 term); isinstance(., int) holds as for the indices of the library"""
    def __new__(cls, e):
        o = int.__new__(cls, -987654321)
        o.e = e
        return o

    def _b(self, o, f):
        if isinstance(o, SymInt):
            return f(self.e, o.e)
        if isinstance(o, (bool, int, np.integer)):
            return f(self.e, z3.IntVal(int(o)))
        return None

    def __add__(self, o):
        r = self._b(o, lambda a, b: a + b)
        return NotImplemented if r is None else SymInt(r)

    def __radd__(self, o):
        r = self._b(o, lambda a, b: b + a)
        return NotImplemented if r is None else SymInt(r)

    def __sub__(self, o):
        r = self._b(o, lambda a, b: a - b)
        return NotImplemented if r is None else SymInt(r)

    def __rsub__(self, o):
        r = self._b(o, lambda a, b: b - a)
        return NotImplemented if r is None else SymInt(r)

    def __mul__(self, o):
        r = self._b(o, lambda a, b: a * b)
        return NotImplemented if r is None else SymInt(r)
    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.e)

    def _conc(self, *a, **k):
        raise poly.ConcretisationError("machine value of a symbolic integer needed")
    __index__ = __int__ = __float__ = __bool__ = __hash__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _conc
    __mod__ = __floordiv__ = __truediv__ = __pow__ = __and__ = __or__ = _conc

    def __repr__(self):
        return f"<{self.e}>"


def shapes(depth, leaves_):
    """all nested lists (as nested tuples of None) with at most `leaves_` leaves, nesting depth <= depth"""
    def seqs(n, dep):
        """lists of elements with exactly n leaves; elements: leaf or list of depth < dep (at most 3 elements)"""
        out = []

        def rec(left, items_):
            if left == 0 and len(items_) <= 3:
                out.append(list(items_))
            if len(items_) == 3:
                return
            if left >= 1:
                rec(left - 1, items_ + [None])
            if dep > 1:
                for k in range(0, left + 1):
                    for sub in seqs_cached(k, dep - 1):
                        rec(left - k, items_ + [sub])
        rec(n, [])
        return out
    cache = {}

    def seqs_cached(n, dep):
        if (n, dep) not in cache:
            cache[(n, dep)] = []
            cache[(n, dep)] = seqs(n, dep)
        return cache[(n, dep)]
    res = []
    for n in range(leaves_ + 1):
        res += seqs_cached(n, depth)
    seen, out = set(), []
    for r in res:
        key = repr(r)
        if key not in seen:
            seen.add(key)
            out.append(r)
    return out


def uniform(depth, width):
    """nested lists of uniform depth, inner widths up to `width` (ragged)"""
    if depth == 1:
        return [[None] * k for k in range(width + 1)]
    sub = uniform(depth - 1, width if depth < 3 else min(width, 2))
    out = []
    for k in range(1, width + 1):
        combos = list(itertools.product(range(len(sub)), repeat=k))
        step = max(1, len(combos) // 120)
        out += [[sub[i] for i in c] for c in combos[::step]]
    return out


def fill(shape, mk):
    return [fill(e, mk) for e in shape] if isinstance(shape, list) else mk()


def ref_flat(L):
    return [a for e in L for a in ref_flat(e)] if isinstance(L, list) else [L]


def ref_layer(L, k):
    if k == 0:
        if not any(isinstance(e, list) for e in L):
            return list(L)
        return [a for e in L for a in e]
    return [ref_layer(e, k - 1) for e in L]


def depth_of(L):
    return 1 + max([depth_of(e) for e in L if isinstance(e, list)], default=0)


def list_cases(fn, tier="quick"):
    """(shape, extra) cases"""
    mixed = [s for s in shapes(3, 3) if nodes(s) <= 5] + [[[[[None]], None]], [None, [[[None, None]]]], [[[[]]], None, [None, [None]]]]
    uni = [s for d in (1, 2, 3, 4) for s in uniform(d, 2 if d > 2 else 3)]
    if fn == "flatten":
        return [(s, None) for s in mixed + uni]
    if fn == "increment_indices":
        return [(s, None) for s in mixed + uni]
    if fn == "flatten_layer":
        return [(s, k) for s in uni for k in range(max(1, depth_of(s))) if uniform_depth(s) and k < depth_of(s)]
    if fn == "flatten_outer_layers":
        return [(s, k) for s in uni for k in range(0, depth_of(s) + 1) if uniform_depth(s)]
    if fn == "get_cont_algebraic_indices":
        return [(s, None) for s in uniform(3, 3) if all(a and all(b for b in a) for a in s)]
    return []


def nodes(s):
    return 1 + sum(nodes(e) for e in s if isinstance(e, list))


def uniform_depth(s):
    """no empty list in place of a deeper one (flattening is only documented for equal depth)"""
    if not s or not isinstance(s[0], list):
        return all(not isinstance(e, list) for e in s)
    return all(isinstance(e, list) for e in s) and len({depth_of(e) for e in s}) == 1 and all(uniform_depth(e) for e in s)


def call_list(fn, L, extra, inc):
    import nosnoc.utils as U
    f = getattr(U, fn)
    if fn == "increment_indices":
        return f(L, inc)
    if extra is not None:
        return f(L, extra)
    return f(L)


def want_list(fn, L, extra, inc):
    if fn == "increment_indices":
        return [want_list(fn, e, extra, inc) if isinstance(e, list) else e + inc for e in L]
    if fn == "flatten":
        return ref_flat(L)
    if fn == "flatten_layer":
        return ref_layer(L, extra)
    if fn == "flatten_outer_layers":
        for _ in range(extra):
            L = ref_layer(L, 0)
        return L
    return [rk[-1] for fe in L for rk in fe]


def run_lists(c, it):
    fn = c["fn"]
    import nosnoc.utils as U
    if fn == "create_empty_list_matrix":
        # shapes only: nothing to quantify over; independence of the inner lists matters
        for dims in itertools.chain(*[itertools.product(range(0, 4), repeat=k) for k in (1, 2, 3)]):
            bad, txt = replay("C27", dict(kind="matrix", dims=list(dims)))
            if bad:
                it.violation("create_empty_list_matrix", txt, dict(kind="matrix", dims=list(dims)))
            else:
                it.ok()
        return
    n = 0
    for shape, extra in list_cases(fn):
        cnt = itertools.count()
        L = fill(shape, lambda: SymInt(z3.Int(f"e{next(cnt)}")))
        inc = SymInt(z3.Int("inc"))
        nv = next(cnt)
        orig = repr(L)
        rp = dict(kind="lists", fn=fn, shape=shape, extra=extra)
        try:
            got = call_list(fn, L, extra, inc)
        except poly.ConcretisationError as e:
            raise runner.Undecided(f"{fn}: {e}")
        except Exception as e:
            bad, txt = replay("C27", rp)
            if bad:
                it.violation(f"{fn}-raises", txt, rp)
                continue
            raise
        want = want_list(fn, L, extra, inc)
        s = z3.Solver()
        ok = nest(got) == nest(want)
        m = None
        if ok:
            d = [a.e != b.e for a, b in zip(ref_flat(got), ref_flat(want))]
            s.add(z3.Or(d) if d else z3.BoolVal(False))
            t = time.time()
            r = s.check()
            smt.STATS.queries += 1
            smt.STATS.time += time.time() - t
            ok = r == z3.unsat
            smt.STATS.unsat += ok
            smt.STATS.sat += not ok
            if not ok:
                m = s.model()
        if ok and repr(L) == orig:
            n += 1
            continue
        val = lambda nm: (m.eval(z3.Int(nm), model_completion=True).as_long() if m is not None else 3 + hash(nm) % 5)
        rp.update(vals=[val(f"e{i}") for i in range(nv)], inc=val("inc"))
        it.violation(f"{fn}", replay("C27", rp)[1], rp)
    it.ok(n)
    it.witness()
    if fn == "increment_indices":
        # anything but integers and lists is refused
        try:
            U.increment_indices([1, 2.5], 1)
            it.violation("increment_indices-type", "increment_indices accepts a non-integer", dict(kind="type"))
        except ValueError:
            it.ok()


# ------------------------------------------------------------------ runner interface
def run(prop, c, it):
    if "fn" in c:
        return run_lists(c, it)
    c = nlp.Cfg(c)
    eb.explore(it, run_nlp(c), oracle_nlp(c), dict(kind="nlp", cfg=dict(c)), max_paths=60)


def replay(prop, rp):
    if rp["kind"] == "nlp":
        c = nlp.Cfg(rp["cfg"])
        bad = eb.concrete(run_nlp(c), oracle_nlp(c), rp)
        return bool(bad), "; ".join(f.text for f in bad[:3])
    import nosnoc.utils as U
    if rp["kind"] == "matrix":
        try:
            M = U.create_empty_list_matrix(tuple(rp["dims"]))
        except Exception as e:
            return True, f"create_empty_list_matrix({tuple(rp['dims'])}) raises {type(e).__name__}: {e}"

        def ok(M, dims):
            if not dims:
                return M == []
            return isinstance(M, list) and len(M) == dims[0] and all(ok(e, dims[1:]) for e in M)
        good = ok(M, rp["dims"])

        def ids(M, k):
            return [id(M)] if k == 0 else [x for e in M for x in ids(e, k - 1)]
        l = ids(M, len(rp["dims"])) if good else []
        good = good and len(set(l)) == len(l)
        return not good, f"create_empty_list_matrix({tuple(rp['dims'])}) gives {M}"
    if rp["kind"] == "type":
        try:
            U.increment_indices([1, 2.5], 1)
            return True, "increment_indices accepts a non-integer"
        except ValueError:
            return False, "refused"
    cnt = itertools.count()
    vals = rp.get("vals") or list(range(5, 105, 7))
    L = fill(rp["shape"], lambda: int(vals[next(cnt)]))
    import copy
    L0 = copy.deepcopy(L)
    inc = int(rp.get("inc", 11))
    want = want_list(rp["fn"], L0, rp["extra"], inc)
    try:
        got = call_list(rp["fn"], L, rp["extra"], inc)
    except Exception as e:
        return True, f"{rp['fn']}({L0}) raises {type(e).__name__}: {e}"
    return got != want or L != L0, f"{rp['fn']}({L0}, {rp['extra'] if rp['extra'] is not None else inc}) = {got}, expected {want}"
