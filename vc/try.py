import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts"))
import front, importlib, base, verify
mods = sys.argv[1].split(",")
pat = sys.argv[2] if len(sys.argv) > 2 else ""
P, e = front.load()
allm = [f[:-3] for f in sorted(os.listdir(os.path.join(front.VERIF, "contracts"))) if f.endswith(".py") and f != "base.py"]
for m in allm: importlib.import_module(m)
for c in base.REG:
    if not c.verify or not (set(c.props) & set(mods) or "all" in mods): continue
    if pat and pat not in c.label: continue
    r = verify.verify_unit(P, base.REG, c, base.GHOSTS, debug=2 if '-d' in sys.argv else 1)
    ob = r["obligations"]
    print("%-60s %s %d/%d %.1fs %s %s" % (c.label, r["status"], sum(o["status"] == "proved" for o in ob), len(ob), r["time"], r["error"] or "", r["vacuous"] or ""))
    if "-v" in sys.argv:
        for o in ob: print("    ", o["status"], o["kind"], o["name"], o["line"], o["time"], o["backend"])
    if "-m" in sys.argv:
        for o in ob:
            if o["status"] != "proved": print("    ", o["name"], str(o["model"])[:300])
