
import sys, time, importlib
sys.path.insert(0, "/verif/vc"); sys.path.insert(0, "/verif/vc/contracts")
import engine, models, extract, solve
def main(mod, which=None, verbose=True):
    m = importlib.import_module(mod)
    for C in m.CONTRACTS:
        if which and which not in C.__name__: continue
        t=time.time()
        d = extract.extract(C.tu, [C.function], getattr(C,"std","gnu++20"))
        t1=time.time()
        c = C()
        eng = engine.Engine(d, models.M, c)
        eng.run(d["roots"][0]["f"])
        t2=time.time()
        print(C.function, "loops", eng.nloops, "".join(eng.shape), "paths", eng.npaths, "obligations", len(eng.obls), "extract %.1f vcgen %.1f"%(t1-t,t2-t1), "errors", d["errors"], flush=True)
        res = solve.discharge(eng.obls)
        bad = [(o,r) for o,r in zip(eng.obls,res) if r[0]!="unsat"]
        print("discharged", len(res)-len(bad), "of", len(res), "time %.1f"%(time.time()-t2), "max", max([r[2] for r in res]+[0]))
        for o,r in bad[:40]: print("  FAIL", o.name, "line", o.line, r[0], "%.1f"%r[2])
main(*sys.argv[1:])
