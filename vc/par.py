"""developer driver: verify the contracts of a property in parallel"""
import sys, os, time, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts"))
import front, base, verify
P, e = front.load()
for m in [f[:-3] for f in sorted(os.listdir(os.path.join(front.VERIF, "contracts"))) if f.endswith(".py") and f != "base.py"]: importlib.import_module(m)
pat = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else ""
us = [c for c in base.REG if c.verify and sys.argv[1] in c.props and pat in c.label]
t0 = time.time()
for c, r in zip(us, verify.verify_many(P, base.REG, us, base.GHOSTS, "quick", 8)):
    ob = r["obligations"]; bad = [o for o in ob if o["status"] != "proved"]
    if bad or r["status"] != "ok" or r["vacuous"] or "-v" in sys.argv:
        print("%-60s %s %d/%d %.1fs %s %s" % (c.label, r["status"], len(ob) - len(bad), len(ob), r["time"], r["error"] or "", r["vacuous"] or ""))
        for o in bad: print("    ", o["status"], o["kind"], o["name"], "line", o["line"], "%.1fs" % o["time"], o["backend"], str(o["model"])[:300] if "-m" in sys.argv else "")
print("%d contracts, %d obligations, %.0fs" % (len(us), 0, time.time() - t0))
