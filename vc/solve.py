"""Discharging obligations: z3 first, cvc5 on what z3 leaves open."""
import multiprocessing as mp, os, subprocess, tempfile, time
import z3


def to_smt2(hyps, goal):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    return s.to_smt2()


def _z3(smt, timeout_ms, seed=0, tactic=0):
    ctx = z3.Context()
    s = z3.Solver(ctx=ctx)
    s.set("timeout", timeout_ms)
    if seed:
        s.set("smt.random_seed", seed)
    if tactic == 1:
        s.set("smt.mbqi", False)
        s.set("auto_config", False)
    s.from_string(smt)
    r = s.check()
    model = None
    if r == z3.sat:
        try:
            model = str(s.model())[:4000]
        except z3.Z3Exception:
            model = None
    return str(r), model, (s.reason_unknown() if r == z3.unknown else "")


def _cvc5(smt, timeout_ms):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + smt)
        name = f.name
    try:
        p = subprocess.run(["cvc5", f"--tlimit={timeout_ms}", name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout_ms / 1000 + 10)
        out = p.stdout.strip().splitlines()
        return out[-1] if out else "unknown"
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(name)


def work(job):
    idx, smt, limits = job
    t0 = time.time()
    last = ("unknown", None, "")
    for i, lim in enumerate(limits):
        if lim[0] == "z3":
            try:
                r = _z3(smt, lim[1], seed=lim[2] if len(lim) > 2 else 0, tactic=lim[3] if len(lim) > 3 else 0)
            except z3.Z3Exception as ex:
                r = ("unknown", None, str(ex))
            if r[0] == "unsat":
                return idx, "unsat", "z3", time.time() - t0, None, ""
            if r[0] == "sat":
                return idx, "sat", "z3", time.time() - t0, r[1], ""
            last = r
        else:
            r = _cvc5(smt, lim[1])
            if r == "unsat":
                return idx, "unsat", "cvc5", time.time() - t0, None, ""
    return idx, last[0], "z3+cvc5", time.time() - t0, last[1], last[2]


LIMITS = [("z3", 3000, 0, 1), ("z3", 10000), ("cvc5", 15000), ("z3", 30000, 7, 1)]


RETRY = [("z3", 40000, 3, 1), ("cvc5", 60000), ("z3", 40000, 11)]


def discharge(obls, jobs=8, limits=None):
    """List of result tuples in obligation order."""
    limits = limits or LIMITS
    res = [None] * len(obls)
    todo = []
    for i, o in enumerate(obls):
        g = z3.simplify(o.goal)
        if z3.is_true(g):
            res[i] = ("unsat", "simplifier", 0.0, None, "")
        else:
            todo.append((i, to_smt2(o.hyps, o.goal), limits))
    if todo:
        with mp.get_context("fork").Pool(min(jobs, len(todo))) as pool:
            for idx, r, by, t, m, why in pool.imap_unordered(work, todo):
                res[idx] = (r, by, t, m, why)
    return res
