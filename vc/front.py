"""Front end: runs the Clang dumper on /repo's current sources and loads the typed AST.

Extraction is mechanical and complete per function: every function with a body under the
root is loaded with its full statement tree; nothing is selected or rewritten by hand."""
import os, sys, json, subprocess, hashlib, glob, concurrent.futures as cf, pickle

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VC_REPO", "/repo")
BUILD = os.environ.get("VC_BUILD", os.path.join(VERIF, ".build"))

SRC_DIRS = ["parameter", "utility", "utility/posix", "xmlserializer", "remote-processor", "bindings/c"]
SKIP = {"bindings/c/Test.cpp"}

def flags(repo=None):
    r = repo or REPO
    inc = [HERE + "/gen"] + [r + "/" + d for d in (
        "parameter", "parameter/include", "parameter/log/include", "xmlserializer", "utility",
        "remote-processor", "asio", "bindings/c")] + ["/usr/include/libxml2"]
    return ["-std=c++11", "-DASIO_STANDALONE", "-DASIO_HAS_STD_CHRONO", "-w",
            '-DPARAMETER_FRAMEWORK_PLUGIN_ENTRYPOINT_V1=ParameterFrameworkPluginEntryPointMagicV1'] \
        + ["-I" + i for i in inc]

def sources(repo=None):
    r = repo or REPO
    out = []
    for d in SRC_DIRS:
        for f in sorted(glob.glob(os.path.join(r, d, "*.cpp"))):
            rel = os.path.relpath(f, r)
            if rel not in SKIP:
                out.append(rel)
    return out

def build_dumper():
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "dump")
    src = os.path.join(HERE, "dump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    stamp = exe + ".sha"
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe
    L = "/usr/lib/llvm-18/lib/"
    tmp = exe + ".tmp%d" % os.getpid()
    subprocess.run(["g++", "-std=c++17", "-O1", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
                    L + "libclang-cpp.so.18.1", L + "libLLVM.so.18.1", "-Wl,-rpath," + L], check=True)
    os.replace(tmp, exe)
    open(stamp, "w").write(h)
    return exe

def _tree_hash(repo):
    h = hashlib.sha256()
    for root, ds, fs in os.walk(repo):
        ds[:] = sorted(d for d in ds if d not in (".git", "_build", "doc", "schemas", "tools"))
        for f in sorted(fs):
            if f.endswith((".cpp", ".h", ".hpp", ".ipp")):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(open(os.path.join(HERE, "dump.cpp"), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()[:24]

def dump_all(repo=None, jobs=8):
    """Returns (dir, errors): one JSON per translation unit of the current tree."""
    r = os.path.abspath(repo or REPO)
    exe = build_dumper()
    key = _tree_hash(r)
    outdir = os.path.join(BUILD, "ast-" + key)
    errs = {}
    if os.path.exists(os.path.join(outdir, "DONE")):
        return outdir, json.load(open(os.path.join(outdir, "DONE")))
    tmp = outdir + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    fl = flags(r) + ["-I/usr/lib/llvm-18/lib/clang/18/include"]
    def one(rel):
        out = os.path.join(tmp, rel.replace("/", "__") + ".json")
        p = subprocess.run([exe, r, out, os.path.join(r, rel), "--"] + fl, capture_output=True, text=True)
        if p.returncode != 0 or not os.path.exists(out):
            return rel, (p.stderr or "no output")[-2000:]
        return rel, None
    with cf.ThreadPoolExecutor(jobs) as ex:
        for rel, e in ex.map(one, sources(r)):
            if e: errs[rel] = e
    json.dump(errs, open(os.path.join(tmp, "DONE"), "w"))
    for old in glob.glob(os.path.join(BUILD, "ast-*")):
        if old != tmp and ".tmp" not in old:
            subprocess.run(["rm", "-rf", old])
    try: os.rename(tmp, outdir)
    except OSError: pass
    return outdir, errs

class Ty:
    __slots__ = ("k", "w", "s", "en", "t", "n", "q", "args", "c", "cnt", "ret", "params", "sys", "lam", "_key", "rv")
    def __init__(self, **kw):
        for a in self.__slots__: setattr(self, a, None)
        for a, v in kw.items(): setattr(self, a, v)
    def key(self):
        if self._key is None:
            k = self.k
            if k == "int": s = "%s%d" % ("i" if self.s else "u", self.w)
            elif k == "fp": s = "f%d" % self.w
            elif k in ("ptr", "ref"): s = self.t.key() + ("*" if k == "ptr" else "&")
            elif k == "rec": s = self.q
            elif k == "arr": s = "%s[%s]" % (self.t.key(), self.cnt)
            else: s = k
            self._key = s
        return self._key
    def __repr__(self): return self.key()
    def noref(self): return self.t if self.k == "ref" else self
    @property
    def isptr(self): return self.k == "ptr"

def strip_ta(n):
    """qualified name without class template arguments"""
    if "<" not in n or "operator" in n: return n
    o = []; d = 0
    for c in n:
        if c == "<": d += 1
        elif c == ">": d -= 1
        elif not d: o.append(c)
    return "".join(o)

class TU:
    def __init__(self, path, prog):
        self.path = path
        d = json.load(open(path))
        self.raw_types = d["types"]; self.fns = d["fns"]
        self.functions = d["functions"]; self.records = d["records"]; self.globals = d["globals"]
        self._ty = {}
        self.prog = prog
    def ty(self, i):
        t = self._ty.get(i)
        if t is not None: return t
        o = self.raw_types[i]
        k = o["k"]
        t = Ty(k=k, c=o.get("c", False))
        self._ty[i] = t
        if k == "int": t.w, t.s, t.en = o["w"], o["s"], o.get("en")
        elif k == "fp": t.w = o["w"]
        elif k in ("ptr", "ref"): t.t = self.ty(o["t"]); t.rv = o.get("rv")
        elif k == "arr": t.t = self.ty(o["t"]); t.cnt = o["n"]
        elif k == "rec":
            t.n = o["n"].replace("__cxx11::", ""); t.q = o["q"]; t.sys = o.get("sys", False); t.lam = o.get("lambda", False)
            t.args = [self.ty(a) if isinstance(a, int) else a for a in o.get("a", [])]
        elif k == "fn":
            t.ret = self.ty(o["r"]); t.params = [self.ty(p) for p in o["p"]]
        elif k == "memptr" or k == "other": t.q = o["s"]
        return t

class Fn:
    """A function reference (declaration)."""
    __slots__ = ("key", "n", "name", "op", "ret", "pt", "sys", "noret", "cls", "clsq", "virt", "pure", "static",
                 "const", "ctor", "copy", "move", "dtor", "implicit", "ov", "ta", "tu", "var", "copyasg", "moveasg", "clst", "defctor")
class FnDef:
    """A function definition (with body)."""
    __slots__ = ("fn", "tu", "file", "line", "endline", "params", "body", "inits")

class Program:
    def __init__(self, outdir):
        self.tus = []
        self.fn = {}          # key -> Fn
        self.defs = {}        # key -> FnDef
        self.unions = set()
        self.records = {}     # q -> dict(bases, fields, methods, ...)
        self.globals = {}     # key -> (tu, json)
        self._byname = {}
        for p in sorted(glob.glob(os.path.join(outdir, "*.json"))):
            self.load(p)
        self._overriders = {}
        for k, f in self.fn.items():
            for o in f.ov or []:
                self._overriders.setdefault(o, set()).add(k)
    def load(self, path):
        tu = TU(path, self)
        tu.fnobj = []
        for o in tu.fns:
            f = self.fn.get(o["key"])
            if f is None:
                f = Fn()
                for a in Fn.__slots__: setattr(f, a, o.get(a))
                f.n = o["n"].replace("__cxx11::", "")
                f.cls = (o.get("cls") or "").replace("__cxx11::", "") or None
                f.ret = tu.ty(o["ret"]); f.pt = [tu.ty(i) for i in o["pt"]]
                f.clst = tu.ty(o["clst"]) if "clst" in o else None
                f.ta = [tu.ty(a) if isinstance(a, int) else a for a in o.get("ta", [])]
                f.tu = tu
                if not o["key"].startswith("lambda@"): self.fn[o["key"]] = f
            elif o.get("ov") and not f.ov: f.ov = o["ov"]
            tu.fnobj.append(f)
        for o in tu.functions:
            f = tu.fnobj[o["fd"]]
            if f.key in self.defs: continue
            d = FnDef()
            d.fn, d.tu, d.file, d.line, d.endline = f, tu, o["file"], o["line"], o["endline"]
            d.params, d.body, d.inits = o["ps"], o["body"], o.get("inits")
            self.defs[f.key] = d
            self._byname.setdefault(f.n, []).append(f.key)
            b = strip_ta(f.n)
            if b != f.n: self._byname.setdefault(b, []).append(f.key)
        for o in tu.records:
            if o.get("union"): self.unions.add(o["q"])
            if o["q"] not in self.records:
                self.records[o["q"]] = dict(q=o["q"], n=o["n"], bases=[tu.ty(b) for b in o["b"]],
                    fields=[(f["n"], tu.ty(f["t"])) for f in o["f"]], methods=[tu.fnobj[m] for m in o["m"]],
                    abs=o["abs"], file=o["file"], trivdtor=o["trivdtor"], tu=tu)
        for o in tu.globals:
            if o["key"] not in self.globals or ("init" in o and "init" not in self.globals[o["key"]][1]):
                self.globals[o["key"]] = (tu, o)
        self.tus.append(tu)
    def written_globals(self):
        """globals which some function assigns, or whose address escapes an index expression"""
        if getattr(self, "_wg", None) is not None: return self._wg
        W = set()
        def refs(n, acc):
            if isinstance(n, dict):
                if n.get("e") == "ref" and n.get("d", {}).get("k") == "glob": acc.add(n["d"]["key"])
                for v in n.values(): refs(v, acc)
            elif isinstance(n, list):
                for v in n: refs(v, acc)
            return acc
        def lhs(n):
            """globals an lvalue expression designates a part of"""
            while isinstance(n, dict):
                if n.get("e") == "ref": return {n["d"]["key"]} if n.get("d", {}).get("k") == "glob" else set()
                if n.get("e") in ("idx", "mem", "cast", "paren"): n = n.get("b") or n.get("x") or n.get("l"); continue
                break
            return refs(n, set()) if isinstance(n, dict) and n.get("e") in ("cond",) else set()
        def walk(n, par):
            if isinstance(n, dict):
                e = n.get("e"); op = n.get("op")
                if e in ("bin", "cas") and isinstance(op, str) and op.endswith("=") and op not in ("==", "!=", "<=", ">="): W.update(lhs(n.get("l")))
                if e == "un" and op in ("&", "++", "--"): W.update(lhs(n.get("x")))
                if e == "cast" and n.get("ck") == "ArrayToPointerDecay" and par not in ("idx", "cast"): W.update(lhs(n.get("x")))
                for k, v in n.items(): walk(v, e if e else par)
            elif isinstance(n, list):
                for v in n: walk(v, par)
        for k, d in self.defs.items(): walk([d.body, getattr(d, "inits", None)], None)
        self._wg = W
        return W
    def find(self, name, arity=None, sig=None, const=None):
        """Definitions by qualified name (no template arguments)."""
        out = []
        for k in self._byname.get(name, []):
            f = self.fn[k]
            if arity is not None and len(f.pt) != arity: continue
            if sig is not None and sig not in k: continue
            if const is not None and bool(f.const) != const: continue
            out.append(k)
        return out
    def overriders(self, key, acc=None):
        acc = set() if acc is None else acc
        for k in self._overriders.get(key, ()):
            if k not in acc:
                acc.add(k); self.overriders(k, acc)
        return acc
    def root_virtuals(self, key, acc=None):
        """All base methods transitively overridden by key (key included)."""
        acc = [] if acc is None else acc
        if key in acc: return acc
        acc.append(key)
        f = self.fn.get(key)
        for o in (f.ov or []) if f else []: self.root_virtuals(o, acc)
        return acc
    def bases(self, q):
        out = []
        r = self.records.get(q)
        if r:
            for b in r["bases"]:
                out.append(b.q); out += self.bases(b.q)
        return out
    def all_fields(self, q):
        r = self.records.get(q)
        if not r: return []
        out = []
        for b in r["bases"]: out += self.all_fields(b.q)
        return out + r["fields"]

def load(repo=None):
    d, errs = dump_all(repo)
    return Program(d), errs

if __name__ == "__main__":
    import time
    t = time.time()
    P, e = load()
    print("loaded in %.1fs: %d definitions, %d records; errors: %s" % (time.time() - t, len(P.defs), len(P.records), e))
    for a in sys.argv[1:]:
        for k in P.defs:
            if a in k: print(k, P.defs[k].file, P.defs[k].line)
