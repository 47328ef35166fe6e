"""mk(...) records a planted bug; used from ad-hoc scripts during development."""
import subprocess, sys, os
V = "/verif"; SW = os.environ.get("SW", "/tmp/sw")
def mk(sid, prop, edits, demo, needs, breaks, run=True, check=None):
    subprocess.run(["python3", V + "/tools/seed.py", "fresh"], check=True)
    for f, old, new in edits:
        p = SW + "/" + f; s = open(p, newline='').read()
        if s.count(old) < 1: print("!!", sid, "pattern not found in", f); return
        open(p, 'w', newline='').write(s.replace(old, new, 1))
    open(SW + ".demo.cpp", "w").write('#include "fix.hpp"\n' + demo)
    subprocess.run(["python3", V + "/tools/seed.py", "new", sid, prop], input=needs + "\n" + breaks, text=True, check=True)
    if run:
        r = subprocess.run(["python3", V + "/tools/seed.py", "run", sid] + (["--check", check] if check else []), capture_output=True, text=True)
        print("=====", sid); print(r.stdout[-2500:], r.stderr[-500:], flush=True)
