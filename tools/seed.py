#!/usr/bin/env python3
"""Planting bugs (development tool; no check uses it).
  seed.py new ID PROP        patch.diff := diff of the scratch copy $SW (default /tmp/sw, made from /repo), which is then reset;
                             demo.cpp is taken from $SW.demo.cpp, meta text from stdin: two lines needs / what_it_breaks
  seed.py run ID [--check P,..] [--notest]   builds, tests, runs the demo and the checks on scratch copy"""
import os, sys, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = os.environ.get("SW", "/tmp/sw")
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, errors="replace", **k)
def fresh():
    if not os.path.exists(SW): sh("cp -a /repo %s" % SW)
    else: sh("cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % SW)
DEMO = '''#!/bin/bash
# compiles demo.cpp against the objects built in _build; exit 0: behaves as it should
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
I="-I$R/parameter -I$R/parameter/include -I$R/parameter/log/include -I$R/xmlserializer -I$R/utility -I$R/remote-processor -I$R/asio -I$R/asio/include -I$R/bindings/c -I/usr/include/libxml2 -I$R/_build/parameter -I$R/_build/remote-processor -I$R/_build/bindings/c -I$R/_build/xmlserializer"
F="-g -fno-access-control -DASIO_STANDALONE -DASIO_HAS_STD_CHRONO -DPARAMETER_FRAMEWORK_PLUGIN_ENTRYPOINT_V1=ParameterFrameworkPluginEntryPointMagicV1 -fPIC -w"
cd "$T" || exit 9
for f in demo fix h plug; do g++ -std=c++14 $F $I -I"$D" -c "$D/$f.cpp" -o $f.o & done; wait
g++ -shared -o libhplug.so plug.o || exit 9
O=$(ls $R/_build/parameter/CMakeFiles/parameter.dir/*.o $(find $R/_build/parameter/CMakeFiles/parameter.dir -mindepth 2 -name '*.o') $R/_build/remote-processor/CMakeFiles/remote-processor.dir/*.o $R/_build/xmlserializer/CMakeFiles/xmlserializer.dir/*.o $(find $R/_build/utility/CMakeFiles/pfw_utility.dir -name '*.o') $R/_build/bindings/c/CMakeFiles/cparameter.dir/*.o)
g++ -rdynamic -o demo demo.o fix.o h.o $O -lxml2 -ldl -lpthread || exit 9
H_SCRATCH=$T H_PLUGDIR=$T timeout 120 ./demo; r=$?
cat $T/stderr.* 2>/dev/null | tail -5
exit $r
'''
def main():
    cmd, sid = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None
    if cmd == "fresh": fresh(); return
    d = os.path.join(V, "seeded", sid)
    if cmd == "new":
        prop = sys.argv[3]
        df = sh("cd %s && git diff" % SW).stdout
        assert df.strip(), "no change"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(df)
        l = [x for x in sys.stdin.read().strip().split("\n") if x.strip()]
        json.dump(dict(property=prop, needs=l[0], what_it_breaks=l[1]), open(d + "/meta.json", "w"), indent=1)
        shutil.copy(SW + ".demo.cpp", d + "/demo.cpp")
        for f in ("h.hpp", "h.cpp", "fix.hpp", "fix.cpp", "plug.cpp"): shutil.copy(V + "/harness/" + f, d)
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        fresh()
    if cmd == "run":
        fresh()
        ns = "unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %%s'" % SW
        def ap(rev=""): 
            r = sh("cd %s && git apply %s %s/patch.diff" % (SW, rev, d))
            if r.returncode: print("APPLY", r.stderr); sys.exit(1)
        if "--notest" not in sys.argv:
            r = sh(ns % "bash /opt/vp/build.sh >/tmp/sw.log 2>&1"); print("base build", r.returncode)
            r = sh(ns % ("bash %s/demo.sh" % d)); print("demo on base:", r.returncode, (r.stdout + r.stderr)[-600:] if r.returncode else "")
            ap()
            r = sh(ns % "bash /opt/vp/test.sh /tmp/sw.json >/tmp/sw.log 2>&1")
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            try: got = set(json.load(open("/tmp/sw.json"))["passed"])
            except Exception as ex: got = set()
            miss = [b for b in base if b not in got]
            print("patched tests: rc", r.returncode, "missing", len(miss), miss[:3])
            r = sh(ns % ("bash %s/demo.sh" % d)); print("demo on patched:", r.returncode, (r.stdout + r.stderr)[-700:])
        else: ap()
        prop = json.load(open(d + "/meta.json"))["property"]
        for p in ([prop] if "--check" not in sys.argv else sys.argv[sys.argv.index("--check") + 1].split(",")):
            os.makedirs("/tmp/sw.out", exist_ok=True)
            r = sh("VC_REPO=%s VC_BUILD=/tmp/sw.build VC_OUT=/tmp/sw.out python3 %s/check.py %s" % (SW, V, p))
            print("check %s: rc %d\n%s" % (p, r.returncode, r.stdout[-1500:] + r.stderr[-500:]))
        fresh()
main()
