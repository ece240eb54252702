"""Runs a property check: distributes work items over processes, replays counterexamples, writes evidence."""
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, os.path.join(VERIF, "checks"))

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Undecided(Exception):
    """the encoding does not reach this item (not a property violation)"""


def known(prop):
    """keys of findings recorded (not repaired) for this property"""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            lines = f.readlines()
        for line in lines:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


class Item:
    """collector handed to a check's run(); everything it reports goes into the evidence"""

    def __init__(self, name):
        self.r = dict(item=name, obligations=0, discharged=0, undecided=[], violations=[], samples=[], vacuity=0,
                      notes=[])

    def ok(self, n=1):
        self.r["obligations"] += n
        self.r["discharged"] += n

    def undecided(self, what):
        self.r["obligations"] += 1
        self.r["undecided"].append(str(what)[:300])

    def violation(self, key, what, replay):
        """replay: JSON-able dict understood by the module's replay()"""
        self.r["obligations"] += 1
        self.r["violations"].append(dict(key=key, what=what, replay=replay))

    def sample(self, s):
        if len(self.r["samples"]) < 3:
            self.r["samples"].append(str(s)[:400])

    def witness(self, n=1):
        """the assumptions of this item are satisfiable (a concrete state reaching the assertion was found)"""
        self.r["vacuity"] += n


_FUNCS = set()


def _trace_functions(repo):
    """names of library functions executed (symbolically) in this process"""
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "funcs")
    except ValueError:
        return
    root = os.path.realpath(os.path.join(repo, "nosnoc"))

    def on_start(code, off):
        if os.path.realpath(code.co_filename).startswith(root):
            _FUNCS.add(os.path.basename(code.co_filename) + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, on_start)
    mon.set_events(3, mon.events.PY_START)


def _init(repo):
    if not os.environ.get("CHECK_DEBUG"):      # CasADi prints warnings for the small test problems of witness searches
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    _trace_functions(repo)


def _work(arg):
    modname, prop, item = arg
    import smt
    import sxvm
    t = time.time()
    smt.STATS.__init__()
    sxvm.STATS["functions"].clear()
    sxvm.STATS["instructions"] = 0
    _FUNCS.clear()
    try:
        sys.monitoring.restart_events()
    except Exception:
        pass
    mod = importlib.import_module(modname)
    it = Item(mod.label(prop, item))
    try:
        mod.run(prop, item, it)
    except Undecided as e:
        it.undecided(e)
    except Exception as e:
        it.undecided(f"internal: {type(e).__name__}: {e} :: {traceback.format_exc()[-900:]}")
    r = it.r
    r["stats"] = smt.STATS.dict()
    r["functions"] = dict(sxvm.STATS["functions"])
    r["instructions"] = sxvm.STATS["instructions"]
    r["pyfuncs"] = sorted(_FUNCS)
    r["wall"] = time.time() - t
    return r


def main(modname, prop, tier, verbose=False, only=None):
    import env
    t0 = time.time()
    mod = importlib.import_module(modname)
    items = mod.items(prop, tier)
    if only is not None:
        items = [x for x in items if only in mod.label(prop, x)]
    budget = 600 if tier == "quick" else 3 * 3600
    results = []
    ctx = mp.get_context("fork")
    unfinished = 0
    with ctx.Pool(min(8, max(1, len(items))), initializer=_init, initargs=(env.REPO,), maxtasksperchild=12) as pool:
        pend = [pool.apply_async(_work, ((modname, prop, x),)) for x in items]
        for x, p in zip(items, pend):
            left = budget - (time.time() - t0)
            try:
                r = p.get(timeout=max(0.01, left))
            except mp.TimeoutError:
                unfinished += 1
                continue
            results.append(r)
            if verbose:
                print(f"  {r['wall']:6.1f}s {r['discharged']}/{r['obligations']} {r['item']}")
                for u in r["undecided"][:4]:
                    print("      undecided:", u)
                for v in r["violations"][:6]:
                    print("      violation:", v["key"], v["what"])
        pool.terminate()
    return report(modname, mod, prop, tier, results, len(items), unfinished, time.time() - t0)


def report(modname, mod, prop, tier, results, nitems, unfinished, wall):
    import env
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    kn = known(prop)
    new, seen_known = [], {}
    for r in results:
        for v in r["violations"]:
            hit = next((k for k in kn if re.fullmatch(k, v["key"])), None)
            if hit is not None:
                seen_known.setdefault(hit, v)
            else:
                new.append((r, v))
    for k, v in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {kn[k]}")
    uniq = {}
    for r, v in new:
        uniq.setdefault(v["key"], (r, v))
    code = 0
    for k, (i, (r, v)) in zip(range(20), enumerate(uniq.values())):
        path = os.path.join(VERIF, "evidence", "replay", f"{prop}-{i}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, module=modname, key=v["key"], what=v["what"], item=r["item"],
                           replay=v["replay"]), f, indent=1, default=str)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {v['key']}: {v['what']}")
        code = 1
    ob = sum(r["obligations"] for r in results)
    di = sum(r["discharged"] for r in results)
    und = [(r["item"], u) for r in results for u in r["undecided"]]
    st = {}
    for r in results:
        for k, x in r["stats"].items():
            st[k] = st.get(k, 0) + x
    fn, py = {}, set()
    for r in results:
        for k, x in r["functions"].items():
            fn[k] = fn.get(k, 0) + x
        py |= set(r["pyfuncs"])
    info = mod.info(prop)
    ev = dict(property=prop, tier=tier, seed=env.SEED, level="other",
              coverage=dict(
                  explanation=info["explanation"],
                  obligations=ob, discharged=di, undecided=len(und), configurations=len(results),
                  configurations_not_reached=unfinished,
                  reachability_witnesses=sum(r["vacuity"] for r in results),
                  bounds=info["bounds"],
                  solver=dict(name="z3 " + _z3v(), queries=st.get("queries", 0), unsat=st.get("unsat", 0),
                              sat=st.get("sat", 0), unknown=st.get("unknown", 0), nonlinear=st.get("nra", 0),
                              closed_by_constant_folding=st.get("trivial", 0), seconds=round(st.get("time", 0), 2)),
                  functions_encoded=sorted(py), casadi_programs_encoded=fn,
                  casadi_instructions=sum(r["instructions"] for r in results),
                  samples=[s for r in results for s in r["samples"]][:8],
                  undecided_samples=[f"{a} :: {u}" for a, u in und[:8]],
                  known_findings=sorted(seen_known)),
              assumptions=info.get("assumptions", []), wall_s=round(wall, 2), violations=len(uniq))
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {len(results)}/{nitems} items, {di}/{ob} obligations discharged, {len(und)} undecided, "
          f"{len(uniq)} violations, {st.get('queries', 0)} queries, solver {st.get('time', 0):.1f}s, wall {wall:.1f}s")
    for a, u in und[:3]:
        print(f"  UNDECIDED {a} :: {u[-700:]}")
    if code == 0 and (di == 0 or not results):
        print("nothing could be decided")
        code = 2
    return code


def _z3v():
    import z3
    return z3.get_version_string()


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module(d["module"])
    ok, txt = mod.replay(d["property"], d["replay"])
    print(txt)
    print("REPRODUCED" if ok else "NOT REPRODUCED")
    return 1 if ok else 0
