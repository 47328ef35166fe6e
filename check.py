#!/usr/bin/env python3
"""Decides one property: verifies every contract the property rests on against /repo's current source, and runs
the bounded replay harness of the property on the code compiled from it.   usage: check.py <property> [--tier quick|thorough]"""
import os, sys
PY = "/opt/veriftools/pyvenv/bin/python3"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv") and not os.environ.get("VC_REEXEC"):
    os.environ["VC_REEXEC"] = "1"
    os.execv(PY, [PY] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get("VC_OUT", HERE)
sys.path[:0] = [os.path.join(HERE, "vc"), os.path.join(HERE, "contracts")]
import json, time, threading, importlib, traceback, collections
import front, native, verify, solve, base, z3

def known():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                d = {}
                for w in l[8:].split(" -- ")[0].split():
                    if "=" in w: k, v = w.split("=", 1); d[k] = v
                d["text"] = l.split(" -- ", 1)[1] if " -- " in l else ""
                out.append(d)
    return out

def main():
    t0 = time.time()
    prop = sys.argv[1]
    if prop == "--setup":      # warms the caches the checks would otherwise build themselves
        os.makedirs(front.BUILD, exist_ok=True)
        th = threading.Thread(target=lambda: native.build("C06")); th.start()
        _, e = front.load(); th.join(); print("front end ready, %d files with errors" % len(e)); return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    os.makedirs(front.BUILD, exist_ok=True)
    rdir = os.path.join(OUT, "replay"); os.makedirs(rdir, exist_ok=True)
    hres = {}
    def hrun():
        try: hres.update(native.run(prop, tier, seed))
        except Exception as ex: hres.update(available=False, error=repr(ex), scenarios=[])
    th = threading.Thread(target=hrun); th.start()
    fatal = None; res = []; lem = []; asterrs = {}; fe = 0
    for m in sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "contracts")) if f.endswith(".py") and f != "base.py"):
        importlib.import_module(m)
    try:
        P, asterrs = front.load()
        fe = time.time() - t0
        units = [c for c in base.PROPS.get(prop, []) if c.verify]
        res = verify.verify_many(P, base.REG, units, base.GHOSTS, tier, jobs=max(2, (os.cpu_count() or 8) - 1),
                                 budget=400 if tier == "quick" else 5000)
        # second chance, alone on the machine, for obligations the solver ran out of time on
        th.join()
        again = [i for i, r in enumerate(res) if r["status"] == "ok" and any(o["status"] == "undecided" for o in r["obligations"])]
        hfail = any(s["result"] in ("fail", "crash") for s in hres.get("scenarios", []))     # a failing input settles it
        if again and time.time() - t0 < 450 and not (hfail and tier == "quick"):
            rr = verify.verify_many(P, base.REG, [units[i] for i in again], base.GHOSTS, "retry", jobs=4, budget=max(60, 620 - (time.time() - t0)) if tier == "quick" else 5000)
            for i, r in zip(again, rr):
                if r["status"] == "ok" and sum(o["status"] != "proved" for o in r["obligations"]) <= sum(o["status"] != "proved" for o in res[i]["obligations"]): res[i] = r
        for name, f in base.LEMMAS.get(prop, []):
            t = time.time(); st = "failed"
            try:
                hyps, goal = f(P)
                s = z3.Solver(); s.set("timeout", 60000)
                for h in hyps: s.add(h)
                s.add(z3.Not(goal)); r = s.check()
                st = "proved" if r == z3.unsat else ("failed" if r == z3.sat else "undecided")
            except Exception as ex: st = "limit: %r" % (ex,)
            lem.append(dict(name=name, status=st, time=round(time.time() - t, 3)))
    except Exception as ex:
        fatal = traceback.format_exc()
    th.join()
    # ------------------------------------------------------------------ verdict
    kf = [k for k in known() if k.get("property") == prop]
    viol = []; notes = []; findings = []
    for s in hres.get("scenarios", []):
        if s["result"] in ("fail", "crash"):
            k = [x for x in kf if x.get("scenario") == s["scenario"]]
            if k: findings.append(k[0])
            else: viol.append(("input", s))
        elif s["result"] == "timeout": notes.append("scenario %s: time limit, no verdict" % s["scenario"])
    for k in kf:
        if k not in findings: notes.append("known finding no longer reproduces: " + k["text"])
    failed = []; limits = []
    skipk = set(k.get("obligation") for k in kf if k.get("obligation"))
    for r in res:
        if r["status"] in ("limit", "missing"): limits.append((r["label"], r["error"]))
        for o in r["obligations"]:
            if o["status"] in ("failed", "undecided"): failed.append((r["label"], o))
        for v in r["vacuous"]: failed.append((r["label"], dict(name="vacuous: " + v, kind="vacuity", status="failed", line=0, model=None, fn="", backend="z3", time=0)))
    for l in lem:
        if l["status"] != "proved": failed.append(("lemma", dict(name=l["name"], kind="lemma", status=l["status"], line=0, model=None, fn="", backend="z3", time=l["time"])))
    und = [f for f in failed if f[1]["kind"] in base.SOFT or (f[0], f[1]["name"]) in base.UNDISCHARGED]
    failed = [f for f in failed if f not in und]
    nob = sum(len(r["obligations"]) for r in res) + len(lem)
    npr = sum(o["status"] == "proved" for r in res for o in r["obligations"]) + sum(l["status"] == "proved" for l in lem)
    backends = collections.Counter(o["backend"] for r in res for o in r["obligations"] if o["status"] == "proved")
    kinds = collections.Counter(o["kind"] for r in res for o in r["obligations"])
    trusted = sorted(set(a for r in res for a in r["assume"]))
    own = set(c.label for c in base.PROPS.get(prop, []))
    deps = sorted(set(u for r in res for u in r["used"]) - own)
    tr = [c for c in base.REG if c.label in deps]
    rely = ["contract of %s, verified by the check of %s" % (c.label, "/".join(c.props)) if c.props and c.verify else "TRUSTED contract of %s%s" % (c.label, (": " + c.opts["why"]) if c.opts.get("why") else "") for c in tr]
    out_of = ["tool limit: %s: %s" % l for l in limits]
    cases = sum(s["cases"] for s in hres.get("scenarios", [])); checks = sum(s["checks"] for s in hres.get("scenarios", []))
    cov = dict(
        obligations=nob, discharged=npr,
        checker_cmd="python3 check.py %s" % prop,
        functions_under_contract=sorted(set(f for r in res for f in r["functions"])),
        inlined_functions=len(set(i for r in res for i in r["inlined"])),
        obligation_kinds=dict(kinds), back_ends=dict(backends),
        solver_time_s=round(sum(o["time"] for r in res for o in r["obligations"]), 2),
        loop_invariants=sum(r["stats"].get("loopinv", 0) for r in res),
        lemmas=lem, trusted_base=base.TRUSTED + trusted + rely,
        undischarged=["%s: %s [%s] line %s: %s" % (l, o["name"], o["kind"], o["line"], o["status"]) for l, o in failed + und],
        beyond_the_verifier=out_of, front_end_errors=asterrs, notes=notes,
        bounded=dict(label="bounded: replays on the compiled code, not counted as proved", available=hres.get("available"), error=hres.get("error"),
                     scenarios={s["scenario"]: dict(result=s["result"], inputs=s["cases"], assertions=s["checks"]) for s in hres.get("scenarios", [])},
                     bound="%d inputs, %d assertions" % (cases, checks)),
        evidence_of_units=[dict(contract=r["label"], status=r["status"], obligations=len(r["obligations"]), discharged=sum(o["status"] == "proved" for o in r["obligations"]), time=round(r["time"], 2), error=r["error"]) for r in res])
    if fatal: notes.append(fatal)
    lvl = "proof" if nob and npr == nob and not limits else "other"
    mf = {}
    try: mf = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
    except Exception: pass
    if prop in mf: lvl = mf[prop]["level"]
    for k in findings: print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    ret = 0
    if viol:
        ret = 1
        p = os.path.join(rdir, "%s-input.txt" % prop)
        with open(p, "w") as f:
            f.write("property %s broken by the compiled code of /repo\n\n" % prop)
            for _, s in viol:
                f.write("scenario %s: %s %s\n%s\n%s\nrerun: VERIF_SEED=%s %s %s\n\n" % (s["scenario"], s["result"], s["why"], s["msg"], s.get("stderr", ""), seed, hres.get("exe"), s["scenario"]))
            for l, o in failed: f.write("also: obligation not discharged: %s: %s (line %s): %s\n" % (l, o["name"], o["line"], o["status"]))
        for _, s in viol: print("failing input [%s]: %s %s" % (s["scenario"], s["msg"][:400], s["why"]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    elif failed:
        ret = 1
        p = os.path.join(rdir, "%s-obligation.txt" % prop)
        with open(p, "w") as f:
            f.write("property %s: obligations not discharged on the current source of /repo\n" % prop)
            for l, o in failed:
                f.write("\n%s\n  function %s line %s\n  obligation (%s): %s\n  status: %s by %s in %ss\n  solver output: %s\n" % (l, o["fn"], o["line"], o["kind"], o["name"], o["status"], o["backend"], o["time"], json.dumps(o["model"], indent=1) if o["model"] else ""))
            f.write("\nbounded harness: %s\n" % json.dumps(cov["bounded"]))
        for l, o in failed[:20]: print("obligation not discharged: %s: %s (line %s): %s" % (l, o["name"], o["line"], o["status"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
    for l in limits: print("beyond the verifier, bounded check stands in: %s: %s" % l)
    if not viol and not failed and not hres.get("available") and (fatal or not npr):
        print("no verdict: %s %s" % (fatal, hres.get("error"))); ret = 2
    ev = dict(property=prop, tier=tier, seed=seed, level=lvl, coverage=cov, wall_s=round(time.time() - t0, 1))
    ev["coverage"]["verdict"] = {0: "held", 1: "violation", 2: "no verdict"}[ret]
    json.dump(ev, open(os.path.join(OUT, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s: %d/%d obligations discharged over %d functions, %d tool limits; harness %s: %d inputs; front end %.0fs, total %.0fs" % (
        prop, npr, nob, len(cov["functions_under_contract"]), len(limits), "ran" if hres.get("available") else "unavailable (%s)" % str(hres.get("error"))[:300], cases, fe, time.time() - t0))
    return ret
if __name__ == "__main__":
    r = main()
    sys.stdout.flush()
    os._exit(r)
