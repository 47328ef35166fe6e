"""Verification of one unit (a function against its contract) and of sets of units in parallel."""
import z3, time, traceback, os, signal, multiprocessing as mp
from engine import *
from symex import Engine, Frame, STAMP, TAG, norm
import solve

def init_state(E, d):
    st = St()
    st.top = z3.Int("top!0")
    fn = d.fn
    this = None
    if fn.cls is not None and not fn.static:
        if fn.ctor:
            this = E.newref(st, None, "this")
            if E.unit.opts.get("exact_ctor"): pass
        else:
            this = z3.Int("this")
            st.fact(And(this != 0, STAMP(this) <= st.top, TAG(this) >= 0))
            st.fact(E.isa(this, fn.clsq))
    args = []
    E.fr = Frame(None, d.tu, this, None)
    for i, p in enumerate(d.params):
        t = d.tu.ty(p["t"])
        args.append(fresh_arg(E, st, t, "arg%d" % i))
    E.fr = None
    return st, this, args

def fresh_arg(E, st, t, name):
    S = E.S
    if t.k == "ref":
        if S.isrec(t.t):
            r = z3.Int(name); st.fact(And(r != 0, STAMP(r) <= st.top)); st.fact(E.isa(r, t.t.q)); return LObj(r)
        if t.t.k == "ptr" and not S.isrefsort(t.t) and not S.ischarp(t.t):
            return E.newcell(st, fresh_arg(E, st, t.t, name), "arg")
        if t.t.k == "rec" and S.sort(t.t) == S.Op: return E.newcell(st, Opaque(name), "arg")
        v = Const(name, S.sort(t.t)); E.tyfacts(st, v, t.t)
        return E.newcell(st, v, "arg")
    if t.k == "ptr":
        if S.isrefsort(t):
            r = z3.Int(name); st.fact(STAMP(r) <= st.top); st.fact(TAG(r) >= 0)
            if S.isrec(t.t): st.fact(Or(r == 0, E.isa(r, t.t.q)))
            return r
        if S.ischarp(t):
            v = Const(name, S.str_sort()); return v
        if S.isstr(t.t) and E.unit.opts.get("texts"):
            r = z3.Int(name); st.fact(r >= 0); return r
        if t.t.k == "ptr" and S.ischarp(t.t):
            v = Const(name, S.vec(S.str_sort())); E.lenfact(st, v)
            return PtrV(E.newcell(st, v, "arg"), S.sz(0))
        if t.t.k == "void":
            v = Const(name, S.vec(z3.BitVecSort(8) if E.bv else z3.IntSort())); E.lenfact(st, v)
            return PtrV(E.newcell(st, v, "arg"), S.sz(0))
        if t.t.k in ("int", "fp", "bool") and (E.unit.opts.get("bufs", True) and t.t.k == "int" and t.t.w == 8 or E.unit.opts.get("arrays")):
            v = Const(name, S.vec(S.sort(t.t))); E.lenfact(st, v)
            return PtrV(E.newcell(st, v, "arg"), S.sz(0))
        if t.t.k == "fn": return Opaque("fnptr")
        v = Const(name, S.sort(t.t)); E.tyfacts(st, v, t.t)
        return PtrV(E.newcell(st, v, "arg"), None, z3.Bool(name + "!null") if t.t.k == "rec" else None)
    if S.isrec(t):
        r = z3.Int(name); st.fact(And(r != 0, STAMP(r) <= st.top)); return LObj(r)
    if t.k == "rec" and S.sort(t) == S.Op: return Opaque(name)
    if t.k in ("memptr", "other", "fn"): return Opaque(name)
    v = Const(name, S.sort(t)); E.tyfacts(st, v, t)
    return v

def run_function(E, unit, key):
    d = E.P.defs[key]
    st, this, args = init_state(E, d)
    if unit.setup:
        a2 = unit.setup(E, st, this, args)
        if a2 is not None: args = a2
    pre = st.copy()
    cx = Ctx(E, pre, this, args, contract=unit, fn=d.fn)
    cx.cur = pre
    if unit.pre:
        for n, g in norm(unit.pre(cx)): pre.fact(g)
    # objects whose exact class the unit is stated for
    for r, q in (unit.opts["exact"](cx) if unit.opts.get("exact") else []):
        E.dtypes[r.get_id()] = q; E.keep(r)
        for b in [q] + E.P.bases(q): pre.fact(E.isa(r, b))
    # ghosts and fields read by the specification
    if unit.fnval: 
        try: unit.fnval(cx)
        except ToolLimit: pass
    st = pre.copy()
    top0 = st.top
    E.stack = []; E.sinks = []; E.fr = None; E.quiet = 0
    cover = [("precondition satisfiable", pre.conds())]
    E.sinks.append([])
    E.ucx = cx
    outs = E.run_body(st, d, this, [a for a in args])
    E.sinks.pop()
    E.fr = Frame(d, d.tu, this, d.fn.ret)
    nret = 0
    for s, o in outs:
        E.stats["paths"] += 1
        if o[0] in "rn":
            nret += 1
            ret = o[1] if o[0] == "r" else None
            if isinstance(ret, Loc) and not isinstance(ret, LObj) and d.fn.ret.k != "ref": ret = E.load(s, ret)
            c2 = Ctx(E, pre, this, args, post=s, ret=ret, contract=unit, fn=d.fn); c2.cur = s
            goals = []
            if unit.fnval is not None:
                want = unit.fnval(cx)
                rv = ret.r if isinstance(ret, LObj) else ret
                w = want.r if isinstance(want, LObj) else want
                if isinstance(rv, Loc) and isinstance(w, Loc):
                    if not same(rv, w):
                        rv, w = E.load(s, rv), E.load(s, w)
                    else: rv = w = BoolVal(True)
                if isz(rv) and isz(w): goals.append(("result", rv == w))
                else: raise ToolLimit("functional result %s / %s" % (type(rv), type(w)))
            if unit.result is not None:
                w = unit.result(cx)
                rv = ret.r if isinstance(ret, LObj) else ret; w = w.r if isinstance(w, LObj) else w
                if isz(rv) and isz(w): goals.append(("result object", rv == w))
                elif not same(ret, w): raise ToolLimit("result location")
            if unit.post: goals += norm(unit.post(c2))
            for k, f in pre.pc: s.fact(f)
            for n, g in goals: E.oblige(s, g, "postcondition: " + n, "post", d.endline)
            frame(E, unit, cx, pre, s, top0, d)
        elif o[0] == "t":
            ok = unit.throws and (unit.throws is True or o[1] in unit.throws or o[1] == unit.throws)
            if not ok: E.oblige(s, BoolVal(False), "no exception (%s) escapes" % o[1], "throw", d.endline)
            else:
                c2 = Ctx(E, pre, this, args, post=s, ret=None, contract=unit, fn=d.fn); c2.cur = s; c2.thrown = True
                if unit.opts.get("post_throw"):
                    for n, g in norm(unit.opts["post_throw"](c2)): E.oblige(s, g, "postcondition on exception: " + n, "post", d.endline)
                frame(E, unit, cx, pre, s, top0, d)
    cover.append(("some return reachable", [Or(*[And(*s.conds()) if s.conds() else BoolVal(True) for s, o in outs if o[0] in "rn"])] if nret else None))
    return cover

# error texts: any operation may set them; what they must say is stated in postconditions where it matters
NOFRAME = {"utility::ErrorContext::mError"}

def frame(E, unit, cx, pre, s, top0, d):
    if unit.opts.get("noframe"): return
    allowed = {}
    full = set()
    fc = unit.opts["framecond"](cx) if unit.opts.get("framecond") else None
    W = (lambda g: Implies(fc, g)) if fc is not None else (lambda g: g)
    for m in (unit.mods(cx) if unit.mods else []):
        if m[0].startswith("ghost:"):
            if m[1] is None: full.add(m[0])
            else: allowed.setdefault(m[0], []).append(m[1])
            continue
        f = E.fname(m[0])
        if m[1] is None: full.add(f)
        else: allowed.setdefault(f, []).append(m[1])
    for f, a in s.heap.items():
        if f in NOFRAME: continue
        b = pre.heap.get(f)
        if b is None: b = Const("H0!" + f, a.sort())
        if a.eq(b) or f in full: continue
        r = Const("frame!r", z3.IntSort())
        al = [r == x if isz(x) else x(r) for x in allowed.get(f, [])]
        g = Or(*al, STAMP(r) > top0, Select(a, r) == Select(b, r))
        if d.fn.ctor: g = Or(g, r == cx.this)
        E.oblige(s, W(g), "frame: only the declared objects' %s may change" % f.split("::", 1)[-1], "frame", d.endline)
    for n, v in s.ghost.items():
        if "ghost:" + n in full: continue
        b = pre.ghost.get(n)
        if b is None: b = Const("G0!" + n, v.sort())
        if v.eq(b): continue
        if unit.ghost: continue
        al = allowed.get("ghost:" + n)
        if al: r = Const("frame!r", z3.IntSort()); E.oblige(s, Or(*[x(r) for x in al], Select(v, r) == Select(b, r)), "frame: ghost %s changes only where declared" % n, "frame", d.endline); continue
        E.oblige(s, W(v == b), "frame: ghost %s unchanged" % n, "frame", d.endline)

def verify_unit(prog, contracts, unit, ghosts, tier="quick", debug=False):
    t0 = time.time()
    res = dict(label=unit.label, status="ok", obligations=[], functions=[], inlined=set(), used=set(), assume=set(),
               error=None, vacuous=[], stats={}, time=0)
    keys = prog.find(unit.name, unit.arity, unit.sig, unit.const)
    if unit.opts.get("overrides"):
        base = list(keys)
        for k, f in prog.fn.items():
            if unit.matches(k, f): base.append(k)
        for b in base:
            for k in sorted(prog.overriders(b)):
                if k in prog.defs and k not in keys: keys.append(k)
        only = unit.opts["overrides"]
        if isinstance(only, (list, tuple)): keys = [k for k in keys if any(k.startswith(o) for o in only)]
    keys = [k for k in keys if k not in (unit.opts.get("skip") or ())]
    if not keys:
        res["status"] = "missing"; res["error"] = "no definition found"; res["time"] = time.time() - t0
        return res
    for key in keys:
        if unit.opts.get("file") and unit.opts["file"] not in prog.defs[key].file: continue
        E = Engine(prog, contracts, unit, ghosts=ghosts)
        res["functions"].append("%s (%s:%d)" % (key, prog.defs[key].file, prog.defs[key].line))
        try:
            cover = run_function(E, unit, key)
        except ToolLimit as ex:
            res["status"] = "limit"; res["error"] = "%s: %s (line %s)" % (key, ex, E.curline)
            if debug == 2: traceback.print_exc()
            res["inlined"] |= E.inlined; res["used"] |= E.used
            continue
        except (z3.Z3Exception, KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError) as ex:
            res["status"] = "limit"; res["error"] = "%s: internal %s: %s (line %s)" % (key, type(ex).__name__, str(ex)[:300], E.curline)
            if debug == 2: traceback.print_exc()
            continue
        for n, conds in cover:
            if conds is None: res["vacuous"].append("%s: %s" % (key, n)); continue
            r = solve.quick(E, conds, 2000)
            if r == "unsat" and not unit.opts.get("noreturn"): res["vacuous"].append("%s: %s" % (key, n))
        t1 = (10, 25) if tier == "quick" else (40, 120)
        if unit.opts.get("t1"): t1 = (max(t1[0], unit.opts["t1"]), t1[1])
        for o in E.obls:
            solve.discharge(E, o, *t1)
            res["obligations"].append(dict(name=o.name, kind=o.kind, line=o.line, status=o.status, backend=o.backend,
                                           time=round(o.time, 3), fn=key, model=(o.model if o.status != "proved" else None)))
            if debug and o.status != "proved":
                print("  NOT PROVED", o.status, o.kind, o.name, "line", o.line)
                if debug == 2:
                    print("    HYPS"); [print("     ", str(h).replace("\n", " ")[:1500]) for h in o.hyps]; print("    GOAL", str(o.goal).replace("\n", " ")[:2000])
        res["inlined"] |= E.inlined; res["used"] |= E.used; res["assume"] |= E.assume
        for k, v in E.stats.items(): res["stats"][k] = res["stats"].get(k, 0) + v
    res["time"] = time.time() - t0
    return res

_G = {}
def _work(i):
    try:
        return i, verify_unit(_G["prog"], _G["contracts"], _G["units"][i], _G["ghosts"], _G["tier"])
    except Exception as ex:
        u = _G["units"][i]
        return i, dict(label=u.label, status="limit", obligations=[], functions=[], inlined=set(), used=set(), assume=set(),
                       error="crash: %r" % (ex,), vacuous=[], stats={}, time=0)

def verify_many(prog, contracts, units, ghosts, tier="quick", jobs=8, budget=400):
    """each unit in its own process with a time limit"""
    _G.update(prog=prog, contracts=contracts, units=units, ghosts=ghosts, tier=tier)
    out = [None] * len(units)
    ctx = mp.get_context("fork")
    pend = list(range(len(units))); run = {}
    t0 = time.time()
    per = 240 if tier == "quick" else 1200
    while pend or run:
        while pend and len(run) < jobs:
            i = pend.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(i, w)); p.start(); w.close()
            run[i] = (p, r, time.time())
        time.sleep(0.01)
        for i in list(run):
            p, r, ts = run[i]
            if r.poll():
                try: out[i] = r.recv()
                except EOFError: out[i] = None
                p.join(); del run[i]
            elif not p.is_alive():
                out[i] = None; del run[i]
            elif time.time() - ts > per or time.time() - t0 > budget:
                p.kill(); p.join(); out[i] = "timeout"; del run[i]
    for i, o in enumerate(out):
        if o is None or o == "timeout":
            out[i] = dict(label=units[i].label, status="limit", obligations=[], functions=[], inlined=set(), used=set(), assume=set(),
                          error="time limit" if o else "worker died", vacuous=[], stats={}, time=0)
    return out

def _child(i, w):
    import resource
    try: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
    r = _work(i)[1]
    w.send(r); w.close()
    os._exit(0)
