#!/usr/bin/env python3-vt
"""check.py <property>: decides one property of /repo's current tree."""
import json, os, sys, threading, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "vc"))
import hbuild, proofs, registry

PID = sys.argv[1]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(EVID, "replay")
T0 = time.time()


def known_findings():
    """Unfixed findings: lines 'known: property=<id> match=<text> :: <what fails>'."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: ") and f"property={PID} " in l:
                head, what = l.strip().split(" :: ", 1)
                out.append((head.split("match=", 1)[1], what))
    return out


class Harness(threading.Thread):
    def __init__(self, spec):
        super().__init__()
        self.spec, self.results, self.errors, self.build_s, self.run_s = spec, [], [], 0, 0

    def run(self):
        try:
            self.work()
        except Exception as ex:
            self.errors.append(("harness driver", f"{ex}\n" + traceback.format_exc()[-1500:]))

    def work(self):
        t = time.time()
        lib_err = []

        def libs():
            if all(v.startswith("solo") for _, v in self.spec.get("harness", [])):
                return
            try:
                hbuild.build_libs()
            except Exception as ex:
                lib_err.append(str(ex))
        lt = threading.Thread(target=libs)
        lt.start()
        objs, ths = {}, []

        def compile_one(name, variant):
            try:
                objs[name, variant] = hbuild.compile_harness(name, variant)
            except Exception as ex:
                self.errors.append((f"{name}/{variant}", str(ex)))
        for name, variant in self.spec.get("harness", []):
            th = threading.Thread(target=compile_one, args=(name, variant))
            th.start()
            ths.append(th)
        for th in ths:
            th.join()
        lt.join()
        if lib_err:
            self.errors.append(("libraries", lib_err[0]))
            return
        ready = []
        for (name, variant), obj in sorted(objs.items()):
            try:
                ready.append((name, variant, hbuild.link_harness(name, variant)))
            except Exception as ex:
                self.errors.append((f"{name}/{variant}", str(ex)))
        self.build_s = time.time() - t
        t = time.time()
        n = max(1, len(ready))
        threads = []

        def run_one(name, variant, exe):
            r = hbuild.run_harness(exe, SEED, THOROUGH, jobs=max(2, 8 // n),
                                   timeout=(2400 if THOROUGH else 400), budget=self.spec.get("budget"), known=[m for m, _ in known_findings()])
            r.update(name=name, variant=variant, exe=exe)
            self.results.append(r)
        for a in ready:
            th = threading.Thread(target=run_one, args=a)
            th.start()
            threads.append(th)
        for th in threads:
            th.join()
        self.run_s = time.time() - t


def main():
    spec = registry.PROPS[PID]
    os.makedirs(REPLAY, exist_ok=True)
    h = Harness(spec)
    h.start()
    results, perr = [], None
    try:
        results = proofs.run(spec.get("contracts", []), jobs=6) if spec.get("contracts") else []
    except Exception as ex:
        perr = f"{ex}\n" + traceback.format_exc()[-2000:]
    h.join()

    violations = []       # (replay file, suffix)
    known, kf = [], known_findings()

    def note(text, replay_name, body, suffix=""):
        for m, what in kf:
            if m in text:
                known.append(what)
                return
        path = os.path.join(REPLAY, replay_name)
        with open(path, "w") as f:
            f.write(body)
        violations.append((path, suffix))

    nfail = 0
    for r in h.results:
        known += [what for m, what in kf if m in r["known"]]
        for k, txt in enumerate(r["failures"]):
            nfail += 1
            note("", f"{PID}-{r['name']}-{r['variant']}-{k}.txt",
                 f"property {PID}: the real code fails on the inputs below\n"
                 f"harness {r['name']} ({r['variant']}), seed {SEED}; replay one case with\n"
                 f"  {r['exe']} --seed {SEED} --suite <suite> --case <case>\n\n{txt}\n")
    failed = [r for r in results if r["status"] == "failed"]
    for r in failed:
        body = [f"property {PID}: proof obligations of {r['function']} ({r['contract']}) not discharged\n"]
        for nm, line, res, model in r["failed"]:
            body.append(f"obligation: {nm} (line {line}): {res}" + (f"\n  solver model: {model}" if model else ""))
        if nfail:
            body.append("\nThe harness found failing inputs; see the other replay files of this run.")
        note(" ".join(x[0] for x in r["failed"]), f"{PID}-{r['contract']}.txt", "\n".join(body) + "\n",
             "" if nfail else " no-failing-input-found")

    proved = [r for r in results if r["status"] == "proved"]
    unatt = [r for r in results if r["status"] == "unattached"]
    answered = bool(proved) and not unatt or any(x["suites"] for x in h.results)
    suites = [dict(s, harness=r["name"], variant=r["variant"]) for r in h.results for s in r["suites"]]
    evals = sum(s["evaluations"] for s in suites)
    distinct = sum(s["distinct"] for s in suites)
    trusted = sorted({t for r in results for t in r["trusted"]})
    assumptions = sorted({a for r in results for a in r["assumptions"]}) + list(spec.get("assumptions", []))
    assumptions += ["machine integers of type size_t/Id are unbounded only where an obligation shows no wrap-around; "
                    "loops without a variant are proved for partial correctness (the harness bounds running time)",
                    "front end: the AST of clang 18 is taken as the meaning of the sources; the project compiles them with gcc 13",
                    "allocation does not fail and timeouts do not fire inside functions under contract"]
    by = {}
    for r in results:
        for k, v in r.get("by", {}).items():
            by[k] = by.get(k, 0) + v
    level = "proof" if proved else "exploration"
    cov = dict(
        obligations=sum(len(r["obls"]) for r in results), discharged=sum(r["discharged"] for r in results),
        checker_cmd=f"python3-vt /verif/check.py {PID}", trusted_base=trusted,
        functions_under_contract=[dict(function=r["function"], contract=r["contract"], status=r["status"], obligations=len(r["obls"]),
                                       discharged=r["discharged"], loops=r["loops"], paths=r["paths"],
                                       reachable_labels=r.get("reach_labels", 0), inlined=r["inlined"],
                                       solver_s=round(r["solver_s"], 2), reason=r["reason"][:600]) for r in results],
        backends=by, solver_s=round(sum(r["solver_s"] for r in results), 2),
        evaluations=evals, distinct_nontrivial=distinct,
        rule="bounded stand-in, not counted as proved: cases derived from (seed, suite, number) run on the compiled code against "
             "an independent oracle; trivial cases (empty expected result) are not counted as distinct",
        samples=[f"{s['harness']}/{s['variant']}/{s['suite']}: {s['sample'][:400]}" for s in suites if s["sample"]][:12],
        bounded=[dict(harness=s["harness"], variant=s["variant"], suite=s["suite"], bound=s["rule"], exhaustive=s["exhaustive"],
                      evaluations=s["evaluations"], distinct=s["distinct"]) for s in suites],
        harness_errors=[f"{a}: {b[-600:]}" for a, b in h.errors],
        explanation=spec.get("note", ""),
    )
    ev = dict(property=PID, tier=TIER, seed=SEED, level=level, coverage=cov, wall_s=round(time.time() - T0, 1),
              assumptions=assumptions, violations=len(violations))
    tmp = os.path.join(EVID, f".{PID}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, f"{PID}.json"))

    for r in results:
        print(f"{PID} {r['function']}: {r['status']} {r['discharged']}/{len(r['obls'])} {r['reason'][:300]}")
    for a, b in h.errors:
        print(f"{PID} harness {a}: {b[-1500:]}")
    print(f"{PID} harness: {evals} cases, {distinct} distinct; build {h.build_s:.0f}s run {h.run_s:.0f}s; wall {time.time() - T0:.0f}s")
    for k in sorted(set(known)):
        print(f"KNOWN-FINDING: property={PID} {k}")
    if perr:
        print("proof driver failed:", perr)
    # concrete failures first
    violations.sort(key=lambda v: v[1] != "")
    for path, suffix in violations:
        print(f"VIOLATION property={PID} replay={path}{suffix}")
    sys.stdout.flush()
    if violations:
        return 1
    if perr or not answered:
        print(f"{PID}: no answer")
        return 2
    return 0


sys.exit(main())
