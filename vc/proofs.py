"""Generating and discharging the obligations of the contracts of a property."""
import importlib, json, multiprocessing as mp, os, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
import z3
import engine, extract, models, solve

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "contracts"))
BASELINE = os.path.join(HERE, "baseline.json")


def load(names):
    """[(module, class)] -> contract classes"""
    return [getattr(importlib.import_module(m), c) for m, c in names]


def key(C):
    return C.__module__ + "." + C.__name__


def smt(hyps, goal):
    return solve.to_smt2(hyps, goal)


def generate(job):
    """Worker: all obligations of one contract, as SMT-LIB text."""
    mod, cls, dump, base, want_base = job
    t0 = time.time()
    C = getattr(importlib.import_module(mod), cls)
    r = dict(contract=mod + "." + cls, function=C.function, status="ok", reason="", obls=[], reach=[], loops=0, paths=0,
             trusted=[], inlined=[], assumptions=[], properties=getattr(C, "establishes", ""))
    sys.setrecursionlimit(20000)
    try:
        d = json.load(open(dump))
        root = [x["f"] for x in d["roots"] if x["want"] == C.function]
        sig = getattr(C, "overload", None)
        if sig is not None:   # parts of the parameter types
            def fits(f):
                ps = [d["types"][p["t"]]["s"] for p in d["fns"][str(f)].get("params", [])]
                return len(ps) == len(sig) and all(w in p for w, p in zip(sig, ps))
            root = [f for f in root if fits(f)]
        inst = getattr(C, "instance", None)
        if inst is not None:   # part of the template arguments of the class
            root = [f for f in root if inst in d["fns"][str(f)].get("cta", "")]
        if not root:
            raise extract.ExtractError(f"{C.function} is not in the current sources")
        eng = engine.Engine(d, models.M, C())
        eng.base = base
        eng.run(root[0])
        if want_base:
            r["baseline"] = eng.baseline(root[0])
        for o in eng.obls:
            g = z3.simplify(o.goal)
            r["obls"].append((o.name, o.line, o.kind, None if z3.is_true(g) else smt(o.hyps, o.goal)))
        per = {}
        for label, pc in eng.reach:
            if per.setdefault(label, 0) < 6:
                per[label] += 1
                r["reach"].append((label, smt(pc, z3.BoolVal(False))))
        r.update(loops=eng.nloops, paths=eng.npaths, trusted=sorted(eng.trusted), inlined=sorted(eng.inlined),
                 assumptions=sorted(eng.assumptions) + list(getattr(C, "assumptions", [])))
        if not r["obls"]:
            r.update(status="unattached", reason="no obligations were generated")
    except (engine.AttachError, engine.Unsupported, extract.ExtractError) as ex:
        r.update(status="unattached", reason=f"{type(ex).__name__}: {ex}" + (traceback.format_exc() if os.environ.get("VC_TRACE") else ""), obls=[], reach=[])
    except Exception as ex:
        r.update(status="unattached", reason=f"{type(ex).__name__}: {ex} " + traceback.format_exc()[-1400:], obls=[], reach=[])
    r["gen_s"] = time.time() - t0
    return r


def reach_work(job):
    i, text = job
    try:
        return i, solve._z3(text, 1500, 0, 1)[0]
    except z3.Z3Exception:
        return i, "unknown"


def run(names, jobs=8, want_base=False, limits=None, retry=True):
    """Returns the list of contract results with verdicts filled in."""
    t0 = time.time()
    classes = load(names)
    base = json.load(open(BASELINE)) if os.path.exists(BASELINE) else {}
    extract.ensure_astdump()
    groups = {}
    for C in classes:
        groups.setdefault((C.tu, getattr(C, "std", "gnu++20")), []).append(C)
    results = []
    with tempfile.TemporaryDirectory() as tmp:
        def one(item):
            i, ((tu, std), cs) = item
            out = os.path.join(tmp, f"{i}.json")
            try:
                d = extract.extract(tu, sorted({c.function for c in cs}), std, allow_missing=True)
                json.dump(d, open(out, "w"))
                return cs, out, None
            except Exception as ex:
                return cs, None, f"{type(ex).__name__}: {ex}"
        work = []
        with ThreadPoolExecutor(max_workers=max(2, jobs // 2)) as ex:
            for cs, out, err in ex.map(one, enumerate(groups.items())):
                for C in cs:
                    if err:
                        results.append(dict(contract=key(C), function=C.function, status="unattached", reason=err, obls=[],
                                            reach=[], loops=0, paths=0, trusted=[], inlined=[], assumptions=[], gen_s=0))
                    else:
                        b = None if want_base else base.get(key(C))
                        work.append((C.__module__, C.__name__, out, b, want_base))
        if work:
            with mp.get_context("fork").Pool(min(jobs, len(work)), maxtasksperchild=1) as pool:
                for r in pool.imap_unordered(generate, work, chunksize=1):
                    results.append(r)
    order = {key(C): i for i, C in enumerate(classes)}
    results.sort(key=lambda r: order[r["contract"]])
    todo = []
    for ri, r in enumerate(results):
        r["res"] = [None] * len(r["obls"])
        for oi, (nm, line, kind, text) in enumerate(r["obls"]):
            if text is None:
                r["res"][oi] = ("unsat", "simplifier", 0.0, None, "")
            else:
                todo.append(((ri, oi), text, limits or solve.LIMITS))
    if todo:
        with mp.get_context("fork").Pool(min(jobs, len(todo))) as pool:
            for (ri, oi), res, by, t, m, why in pool.imap_unordered(solve.work, todo, chunksize=4):
                results[ri]["res"][oi] = (res, by, t, m, why)
    for r in results:
        # hypotheses must be satisfiable somewhere for every label
        labels = {}
        if r["reach"]:
            with mp.get_context("fork").Pool(min(jobs, len(r["reach"]))) as pool:
                for i, x in pool.imap_unordered(reach_work, [(i, t) for i, (_, t) in enumerate(r["reach"])]):
                    labels.setdefault(r["reach"][i][0], []).append(x)
        r["vacuous"] = sorted(l for l, xs in labels.items() if all(x == "unsat" for x in xs))
        r["reach_labels"] = len(labels)
        if r["vacuous"]:
            r.update(status="unattached", reason="unreachable: " + ", ".join(r["vacuous"]), obls=[], res=[])
    if retry:
        again = [((ri, oi), r["obls"][oi][3], solve.RETRY) for ri, r in enumerate(results)
                 for oi, x in enumerate(r["res"]) if x[0] not in ("unsat", "sat")][:48]
        if again:
            with mp.get_context("fork").Pool(min(max(2, jobs // 2), len(again))) as pool:
                for (ri, oi), res, by, t, m, why in pool.imap_unordered(solve.work, again):
                    if res == "unsat":
                        results[ri]["res"][oi] = (res, by, t, m, why)
    for r in results:
        r["failed"] = [(r["obls"][i][0], r["obls"][i][1], x[0], x[3]) for i, x in enumerate(r["res"]) if x[0] != "unsat"]
        if r["status"] == "ok":
            r["status"] = "failed" if r["failed"] else "proved"
        r["discharged"] = sum(1 for x in r["res"] if x[0] == "unsat")
        r["solver_s"] = sum(x[2] for x in r["res"])
        by = {}
        for x in r["res"]:
            if x[0] == "unsat":
                by[x[1]] = by.get(x[1], 0) + 1
        r["by"] = by
        r["max_s"] = max([x[2] for x in r["res"]] + [0])
    return results


if __name__ == "__main__":
    # development: proofs.py [--base] module.Class ... | module
    args = sys.argv[1:]
    want = "--base" in args
    names = []
    for a in args:
        if a.startswith("--"):
            continue
        m, _, c = a.partition(".")
        mod = importlib.import_module(m)
        names += [(m, C.__name__) for C in mod.CONTRACTS if not c or c in C.__name__]
    b = json.load(open(BASELINE)) if os.path.exists(BASELINE) else {}
    t0 = time.time()
    for r in run(names, want_base=want, retry="--retry" in args):
        print(f"{r['contract']} [{r['function']}] {r['status']} {r['discharged']}/{len(r['obls'])} loops {r['loops']} paths {r['paths']} "
              f"gen {r['gen_s']:.1f}s solver {r['solver_s']:.1f}s max {r['max_s']:.1f}s {r['by']} {r['reason'][:1500]}")
        seen = {}
        for f in r["failed"]:
            seen.setdefault(f[:1] + f[2:3], []).append(f)
        for k, v in list(seen.items())[:25]:
            print("   FAILED", k[0], "|", k[1], "lines", sorted({x[1] for x in v if x[1]}), "x%d" % len(v))
            if "--model" in args and v[0][3]:
                print(v[0][3])
        if "--slow" in args:
            for i, x in enumerate(r["res"]):
                if x[2] > 2:
                    print("   SLOW %.1fs %s" % (x[2], x[1]), r["obls"][i][0], "line", r["obls"][i][1])
        if want and r["status"] == "proved":
            b[r["contract"]] = r["baseline"]
    print("wall %.1f" % (time.time() - t0))
    if want:
        json.dump(b, open(BASELINE, "w"), indent=1, sort_keys=True)
