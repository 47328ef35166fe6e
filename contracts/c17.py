"""C17: writes reach the hardware through the synchronisers of the element written."""
from c19 import *
from c15 import notroot, member
from z3 import ArraySort
import re
SY, VSY = "CInstanceConfigurableElement::_pSyncer", "CVirtualSubsystem::_pVirtualSyncer"
def IST(e): return uf("isa!CInstanceConfigurableElement", INT, BOOL)(e)
def VST(e): return uf("isa!CVirtualSubsystem", INT, BOOL)(e)
def OWNS(V_, e): return If(VST(e), V_(VSY, e), If(IST(e), V_(SY, e), IntVal(0)))
def sarrs(V_): return V_.arr(PAR), V_.arr(SY), V_.arr(VSY)
def ownof(S, W, x): return If(VST(x), Select(W, x), If(IST(x), Select(S, x), IntVal(0)))
def SYNCR(V_, e):
    """the synchroniser of an element: its own, else its parent's, up to the system class, by definition"""
    P, S, W = sarrs(V_); f = uf("syncer_of", P.sort(), S.sort(), W.sort(), INT, INT); x = Const("syncer!x", INT); o = ownof(S, W, x)
    V_.st.fact(ForAll([x], f(P, S, W, x) == If(o != 0, o, If(And(Select(P, x) != 0, Select(P, Select(P, x)) != 0), f(P, S, W, Select(P, x)), IntVal(0))), patterns=[f(P, S, W, x)])); return f(P, S, W, e)
def BELOW(c, V_, e, y):
    """y is the synchroniser of e or, if it has none, of one of the elements below it, by definition"""
    P, S, W = sarrs(V_); ch = V_.arr(CH); f = uf("syncer_below", ch.sort(), S.sort(), W.sort(), INT, INT, BOOL); x, z, k = Const("below!x", INT), Const("below!y", INT), Const("below!k", c.S.SZ); o = ownof(S, W, x); v = Select(ch, x)
    V_.st.fact(ForAll([x, z], f(ch, S, W, x, z) == If(o != 0, z == o, Exists([k], And(inseq(c, v, k), f(ch, S, W, at(c, v, k), z)))), patterns=[f(ch, S, W, x, z)])); return f(ch, S, W, e, y)
def TARGET(c, V_, e, y): s = SYNCR(V_, e); return If(s != 0, y == s, BELOW(c, V_, e, y))
isinst = lambda c: [("an instance, no virtual subsystem", And(IST(c.this), Not(VST(c.this))))]
isvirt = lambda c: [("a virtual subsystem has its synchroniser", And(VST(c.this), c.pre(VSY, c.this) != 0))]
noown = lambda c: [("no synchroniser of its own", OWNS(c.pre, c.this) == 0)]
WHYV = "each of its implementations is verified on its own body"
GS = dict(fnval=lambda c: SYNCR(c.pre, c.this))
C("CConfigurableElement::getSyncer", props="C17", pre=lambda c: notroot(c) + noown(c), opts=dict(nonvirt=True), **GS, **I0)
C("CConfigurableElement::getSyncer", verify=False, pre=notroot, opts=dict(why=WHYV), **GS, **I0)
C("CInstanceConfigurableElement::getSyncer", props="C17", pre=lambda c: notroot(c) + isinst(c), opts=dict(special=True), **GS, **I0)
C("CVirtualSubsystem::getSyncer", props="C17", pre=isvirt, opts=dict(special=True), **GS, **I0)
def gain(c, f): x = qref("x"); s = bbarg(c, 0); return ForAll([x], inset(c, c.post, s, x) == Or(inset(c, c.pre, s, x), f(x)))
FD = dict(post=lambda c: [("the set gains exactly the synchronisers of the element", gain(c, lambda x: BELOW(c, c.pre, c.this, x)))], mods=lambda c: [(SS, bbarg(c, 0))])
def fdl(L):
    e = L.eng; u = e.ucx; c = Cx(e); s = bbarg(u, 0); v = u.pre(CH, u.this); out = []
    for kn, f in L.ivars():
        def inv(st, f=f):
            x = qref("x"); k = qv(c); b = StV(e, st); return ForAll([x], inset(c, b, s, x) == Or(inset(c, u.pre, s, x), Exists([k], And(0 <= k, k < f(st), BELOW(c, u.pre, at(c, v, k), x)))))
        out.append(("the children so far", inv))
    return out
kidsok = lambda c: [("children exist", (lambda v, k: ForAll([k], Implies(inseq(c, v, k), at(c, v, k) != 0), patterns=pt(at(c, v, k))))(c.pre(CH, c.this), qv(c)))]
C("CConfigurableElement::fillSyncerSetFromDescendant", props="C17", pre=lambda c: noown(c) + kids(c, c.pre), loops=fdl, opts=dict(nonvirt=True), **FD, **I0)
C("CConfigurableElement::fillSyncerSetFromDescendant", verify=False, pre=lambda c: kids(c, c.pre), opts=dict(why=WHYV), **FD, **I0)
C("CInstanceConfigurableElement::fillSyncerSetFromDescendant", props="C17", pre=lambda c: isinst(c) + kids(c, c.pre), opts=dict(special=True), **FD, **I0)
C("CVirtualSubsystem::fillSyncerSetFromDescendant", props="C17", pre=isvirt, opts=dict(special=True), **FD, **I0)
C("CConfigurableElement::fillSyncerSet", props="C17", pre=lambda c: notroot(c) + kids(c, c.pre), post=lambda c: [("the set gains the synchroniser of the element or an ancestor, else those below it", gain(c, lambda x: TARGET(c, c.pre, c.this, x)))], mods=lambda c: [(SS, bbarg(c, 0))], **I0)
AUTO = "CParameterAccessContext::_bAutoSync"
def auto(c, i=0): return c.pre(AUTO, bbarg(c, i))
def isync(c):
    a, b = c.pre, c.post; s = SYNCR(a, c.this); do = And(auto(c), s != 0); t = clk(a)
    return [("one synchronisation if automatic, else none", clk(b) == If(do, t + 1, t)), ("by the element's synchroniser", Implies(do, And(evk(b, t) == 1, evr(b, t) == s))), ("earlier events are kept", past(a, b)),
            ("success unless it fails or there is none", c.retv == Or(Not(auto(c)), And(s != 0, SYNCOK(t))))]
C("CInstanceConfigurableElement::sync", props="C17", pre=notroot, post=isync, mods=lambda c: hist(), opts=dict(noframe=True), **I0)
# ---- raw settings of an element
BBP, BASE = "CParameterAccessContext::_pParameterBlackboard", "CParameterAccessContext::_uiBaseOffset"
def ssb(c):
    a, b = c.pre, c.post; th = c.this; cx = bbarg(c, 1); v = c.v(0); n = vlen(c, v); ok = n == FP(c, a, th); t0, t1 = clk(a), clk(b); go = And(ok, auto(c, 1)); j, x = qref("j"), qref("x"); m, m2 = a(BBF, a(BBP, cx)), b(BBF, a(BBP, cx)); p = qv(c, "p"); off = a(OFF, th) - a(BASE, cx); ins = And(p >= off, p < off + n)
    return [("refused on another size", Implies(Not(ok), Not(c.retv))), ("a refused write changes nothing", Implies(Not(ok), And(t1 == t0, m2 == m))), ("the bytes are stored at the element's place", Implies(ok, ForAll([p], Implies(ins, at(c, m2, p) == at(c, v, p - off))))), ("other bytes are kept", Implies(ok, ForAll([p], Implies(Not(ins), at(c, m2, p) == at(c, m, p))))),
            ("automatic: nothing but the element's synchronisers is called", Implies(go, ForAll([j], Implies(And(t0 <= j, j < t1), And(evk(b, j) == 1, TARGET(c, a, th, evr(b, j))))))),
            ("automatic: each of them is called", Implies(go, ForAll([x], Implies(TARGET(c, a, th, x), Exists([j], And(t0 <= j, j < t1, evr(b, j) == x)))))),
            ("not automatic: none is called", Implies(Not(auto(c, 1)), t1 == t0)), ("success exactly when none failed", Implies(ok, c.retv == allok(t0, t1)))]
C("CConfigurableElement::setSettingsAsBytes", props=("C17", "C06"), pre=lambda c: notroot(c) + small(c) + kids(c, c.pre) + [("inside the memory", And(c.pre(BBP, bbarg(c, 1)) != 0, c.pre(BASE, bbarg(c, 1)) <= c.pre(OFF, c.this)))], post=ssb, mods=lambda c: hist() + [(BBF, c.pre(BBP, bbarg(c, 1)))], opts=dict(noframe=True, asserts="stop", setwf=True), **I0)
# ---- accesses: a write is synchronised after it took place, a refused one is not
GHOSTS["w_dirty"] = BOOL; GHOSTS["w_refused"] = BOOL; GHOSTS["w_synced"] = INT; GHOSTS["w_ok"] = BOOL; GHOSTS["w_filled"] = ArraySort(INT, INT)
WREAD = re.compile(r"^(fromBlackboard|append|setError|doGet|getValues?$|convertTo|log|fillSyncerSet|checkPathExhausted|asString|toBlackboard)")
def wop(compound):
    def f(fn):
        n, q = c16.simple(fn), fn.clsq or ""
        if n == "sync" and q != "CParameterMgr" or n in compound: return "effect"
        if q == "CParameterBlackboard": return "effect" if n.startswith("write") else "reader"
        if fn.ctor: return "reader"
        if WREAD.match(n) or (c16.READ.match(n) and q != "CParameterMgr"): return "reader"
        if q.startswith("core::") or n in ("getSystemClass", "getConstSystemClass", "getBlackboardMutex"): return "reader"
        return "inline"
    return f
def wcall(E, st, fn, this, args, kind, dirty=True):
    if E.ucx.fn.clsq == "CParameterMgr": E.flag0 = StV(E, st)(ASY, E.ucx.this)
    n, q = c16.simple(fn), fn.clsq or ""; b = lambda g: E.gh(st, g)
    if n == "sync" and q != "CParameterMgr":
        if dirty: E.oblige(st, And(b("w_dirty"), Not(b("w_refused"))), "only what was written is synchronised", "sync")
        E.oblige(st, whom(E, st, q, this, args), "the synchroniser is that of the element written", "sync")
    elif q == "CParameterBlackboard" and n.startswith("write"): st.ghost["w_dirty"] = BoolVal(True)
    elif n == "fillSyncerSet": st.ghost["w_filled"] = Store(b("w_filled"), E.objref(st, args[0], False), this)
def whom(E, st, q, this, args):
    u = E.ucx
    if q != "CSyncerSet": return this == u.this
    return Select(E.gh(st, "w_filled"), this) == (u.v(0) if u.fn.n.endswith("XML") else sysclass(u))
def wret(compound):
    def f(E, st, fn, this, args):
        n, q = c16.simple(fn), fn.clsq or ""
        if n == "sync" and q != "CParameterMgr":
            r = symex.fresh("synced", BOOL); st.ghost["w_dirty"] = BoolVal(False); st.ghost["w_synced"] = E.gh(st, "w_synced") + 1; st.ghost["w_ok"] = And(E.gh(st, "w_ok"), r); same(E, st); return r
        if n in compound or n == "toBlackboard":
            r = symex.fresh("accepted", BOOL); st.ghost["w_refused"] = Or(E.gh(st, "w_refused"), Not(r)); same(E, st)
            if n in compound: st.ghost["w_dirty"] = Or(E.gh(st, "w_dirty"), r)
            return r
        if n in ("getSystemClass", "getConstSystemClass"): return sysclass(E.ucx)
        return None
    return f
ASY = "CParameterMgr::_bAutoSyncOn"
def same(E, st):
    """the automatic synchronisation flag of the manager changes only in setAutoSync itself"""
    if E.ucx.fn.clsq == "CParameterMgr": st.fact(StV(E, st)(ASY, E.ucx.this) == E.flag0)
wpre = lambda c: [("nothing written yet", And(Not(c.pre.g("w_dirty")), Not(c.pre.g("w_refused")), c.pre.g("w_synced") == 0, c.pre.g("w_ok")))]
def wpost(i, on=lambda c: BoolVal(True)):
    def f(c):
        g = c.post.g; s = c.v(i) if i is not None else BoolVal(True); n = g("w_synced"); r = c.retv
        return [("a successful write is synchronised, once, afterwards", Implies(And(r, s, on(c)), And(n == 1, Not(g("w_dirty")), g("w_ok")))), ("a refused write is not synchronised", Implies(g("w_refused"), And(n == 0, Not(r)))), ("a failing synchronisation is reported", Implies(Not(g("w_ok")), Not(r))),
                ("nothing is synchronised without need", Implies(Not(And(s, on(c))), n == 0)), ("a read writes nothing", Implies(Not(s), Not(g("w_dirty")))), ("a failing write failed to be set or synchronised", Implies(And(s, Not(r), n > 0), Not(g("w_ok"))))]
    return f
def W(name, i, compound=(), on=lambda c: BoolVal(True), **kw):
    C(name, props="C17", pre=wpre, post=wpost(i, on), opts=dict(special=True, opaque=wop(set(compound)), oncall=wcall, opret=wret(set(compound)), noframe=True), **kw)
W("CBaseParameter::access", 1, ["doSetValue"], sig="access(std::basic_string")
W("CParameter::doAccess", 1)
W("CBitParameter::access", 1)
W("CArrayParameter::accessValue", 2, ["setValues"])
W("CArrayParameter::accessValues", 1, ["setValues"])
W("CParameterMgr::setSettingsAsXML", None, ["xmlParse"], on=lambda c: c.pre(ASY, c.this))
# ---- synchronising everything
def mcall(E, st, fn, this, args, kind): wcall(E, st, fn, this, args, kind, dirty=False)
def msync(c):
    g = c.post.g; on = c.pre(ASY, c.this); n = g("w_synced"); return [("refused, without effect, when automatic", Implies(on, And(Not(c.retv), n == 0, c.vo(0) != c.eng.lit("")))), ("otherwise everything is synchronised, once", Implies(Not(on), And(n == 1, c.retv == g("w_ok")))), ("the mode is kept", c.post(ASY, c.this) == on)]
def mauto(c):
    g = c.post.g; was, b, n = c.pre(ASY, c.this), c.v(0), g("w_synced"); back = And(b, Not(was))
    return [("turning it on again synchronises everything, once", Implies(back, And(n == 1, c.retv == g("w_ok")))), ("otherwise nothing is synchronised", Implies(Not(back), And(n == 0, c.retv))), ("the mode is the one asked for, unless that fails", c.post(ASY, c.this) == If(c.retv, b, was))]
MO = dict(special=True, opaque=wop(set()), oncall=mcall, opret=wret(set()), noframe=True)
C("CParameterMgr::sync", props="C17", pre=wpre, post=msync, opts=MO)
C("CParameterMgr::setAutoSync", props="C17", pre=wpre, post=mauto, opts=MO)
# ---- the mode reaches the access
GHOSTS["w_auto"] = BOOL; GHOSTS["w_passed"] = INT
PASS = {"accessValue": 0, "setSettingsAsBytes": 1}
def pop(fn):
    n, q = c16.simple(fn), fn.clsq or ""
    if n in PASS and (q != "CParameterMgr" or n == "accessValue"): return "effect"
    if q in ("CParameterMgr", "CParameterAccessContext") or n in ("CParameterAccessContext",): return "inline"
    return wop(set())(fn) if not q.startswith("core::") else "reader"
def pcall(E, st, fn, this, args, kind):
    n, q = c16.simple(fn), fn.clsq or ""
    if n in PASS and (q != "CParameterMgr" or n == "accessValue"):
        u = E.ucx; x = E.objref(st, args[PASS[n]], False); st.ghost["w_passed"] = E.gh(st, "w_passed") + 1
        E.oblige(st, Implies(u.v(2) if u.fn.n.endswith("accessParameterValue") else BoolVal(True), StV(E, st)(AUTO, x) == u.pre(ASY, u.this)), "a write is synchronised exactly in the automatic mode", "sync")
for n in ("accessParameterValue", "setSettingsAsBytes"):
    C("CParameterMgr::" + n, props="C17", pre=lambda c: [("none yet", c.pre.g("w_passed") == 0)], post=lambda c: [("the access takes place at most once", c.post.g("w_passed") <= 1)], opts=dict(special=True, opaque=pop, oncall=pcall, noframe=True))
