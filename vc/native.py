"""Compiles /repo's current sources and runs the bounded replay harness of a property against them."""
import os, sys, json, subprocess, time, shutil, hashlib, concurrent.futures as cf
import front
H = os.path.join(front.VERIF, "harness")
CXX = ["g++", "-O0", "-g1", "-fno-access-control", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
LIBS = ["-lxml2", "-ldl", "-lpthread"]

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, **kw)

def build(prop, jobs=8):
    """returns (exe, plugin, error)"""
    repo = os.path.abspath(front.REPO)
    hh = hashlib.sha256((front._tree_hash(repo) + " ".join(CXX)).encode()).hexdigest()[:20]
    d = os.path.join(front.BUILD, "nat-" + hh)
    os.makedirs(d, exist_ok=True)
    fl = front.flags(repo)
    hs = [f for f in ("h.cpp", "fix.cpp") ]
    srcs = [(os.path.join(repo, r), os.path.join(d, r.replace("/", "__") + ".o")) for r in front.sources(repo)]
    hsrc = [(os.path.join(H, f), os.path.join(d, "h__" + f + ".o")) for f in hs]
    main = os.path.join(H, prop + ".cpp")
    hsrc.append((main, os.path.join(d, "h__" + prop + ".cpp.o")))
    def one(so):
        s, o = so
        dep = max(os.path.getmtime(p) for p in [s] + ([os.path.join(H, x) for x in os.listdir(H) if x.endswith(".hpp")] if s.startswith(H) else [])) if s.startswith(H) else 0
        if os.path.exists(o) and os.path.getmtime(o) > dep: return s, None
        std = ["-std=c++14"] if s.startswith(H) else []
        t = o + ".t%d" % os.getpid()
        p = sh(CXX + fl + std + ["-I" + H, "-c", s, "-o", t])
        if p.returncode: return s, p.stderr[-3000:]
        os.replace(t, o)
        return s, None
    errs = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for s, e in ex.map(one, hsrc + srcs):
            if e: errs[s] = e
    plug = os.path.join(d, "libhplug.so")
    if not os.path.exists(plug) and not errs:
        p = sh(CXX + fl + ["-shared", "-fPIC", os.path.join(H, "plug.cpp"), "-o", plug + ".t%d" % os.getpid()])
        if p.returncode: errs["plug.cpp"] = p.stderr[-3000:]
        else: os.replace(plug + ".t%d" % os.getpid(), plug)
    if errs: return None, None, errs
    exe = os.path.join(d, "H-" + prop)
    objs = [o for _, o in srcs + hsrc]
    if not os.path.exists(exe) or any(os.path.getmtime(o) > os.path.getmtime(exe) for o in objs):
        p = sh(CXX + ["-rdynamic", "-o", exe + ".t"] + objs + LIBS)
        if p.returncode: return None, None, {"link": p.stderr[-3000:]}
        os.replace(exe + ".t", exe)
    for old in os.listdir(front.BUILD):
        if old.startswith("nat-") and old != os.path.basename(d):
            shutil.rmtree(os.path.join(front.BUILD, old), ignore_errors=True)
    return exe, plug, None

def run(prop, tier="quick", seed="1", jobs=8):
    t0 = time.time()
    r = dict(available=False, error=None, scenarios=[], wall=0, exe=None)
    if not os.path.exists(os.path.join(H, prop + ".cpp")):
        r["error"] = "no harness"; return r
    try: exe, plug, errs = build(prop, jobs)
    except Exception as ex: exe, errs = None, {"build": repr(ex)}
    r["build_s"] = round(time.time() - t0, 1)
    if errs:
        r["error"] = "\n".join("%s: %s" % kv for kv in errs.items())[:4000]; return r
    r["exe"] = exe
    sc = os.path.join(front.BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(sc, exist_ok=True)
    env = dict(os.environ, H_SCRATCH=sc, H_PLUGDIR=os.path.dirname(plug), VERIF_SEED=str(seed), VERIF_TIER=tier,
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1", H_REPO=front.REPO)
    try:
        p = sh([exe], timeout=500 if tier == "quick" else 3000, env=env, cwd=sc)
        for l in p.stdout.splitlines():
            try: r["scenarios"].append(json.loads(l))
            except ValueError: pass
        for s in r["scenarios"]:
            if s["result"] != "ok":
                try: s["stderr"] = open(os.path.join(sc, "stderr." + s["scenario"]), errors="replace").read()[-2500:]
                except OSError: pass
        r["available"] = True
    except subprocess.TimeoutExpired:
        r["error"] = "harness time limit"
    finally:
        shutil.rmtree(sc, ignore_errors=True)
    r["wall"] = round(time.time() - t0, 1)
    return r
