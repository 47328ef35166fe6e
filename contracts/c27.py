"""C27: resynchronisation requests and the initial back synchronisation."""
from c21 import *
from c26 import arg
import c17
from z3 import ArraySort
fresh = symex.fresh
for g, so in (("r_asked", ArraySort(INT, BOOL)), ("r_n", INT), ("r_filled", ArraySort(INT, BOOL)), ("r_phase", INT), ("r_set", INT), ("r_okstep", BOOL)): GHOSTS[g] = so
def WANTS(s): return uf("asks_for_resync", INT, BOOL)(s)
# ---- poll and consume
def rop(fn):
    n = c16.simple(fn)
    if n in ("needResync", "fillSyncerSet"): return "reader"
    if n in ("getNbChildren", "getChild"): return None
    return "reader"
def rcall(E, st, fn, this, args, kind):
    n = c16.simple(fn); u = E.ucx; g = lambda x: E.gh(st, x)
    if n == "needResync":
        E.oblige(st, E.load(st, args[0]) if isinstance(args[0], Loc) else args[0], "the request is consumed", "guard"); E.oblige(st, Not(Select(g("r_asked"), this)), "asked once", "guard")
        st.ghost["r_asked"] = Store(g("r_asked"), this, True); st.ghost["r_n"] = g("r_n") + 1
    elif n == "fillSyncerSet":
        E.oblige(st, And(Select(g("r_asked"), this), WANTS(this)), "only a subsystem which asked is resynchronised", "guard"); E.oblige(st, E.objref(st, args[0], False) == bbarg(u, 0), "into the set of the application", "guard")
        st.ghost["r_filled"] = Store(g("r_filled"), this, True)
def rret(E, st, fn, this, args):
    if c16.simple(fn) == "needResync": return WANTS(this)
def kidsof(c): return c.pre(CH, c.this)
def distinct(c):
    v, i, j = kidsof(c), qv(c, "di"), qv(c, "dj"); k = qv(c)
    return [("subsystems", ForAll([k], Implies(inseq(c, v, k), at(c, v, k) != 0), patterns=pt(at(c, v, k)))), ("a tree: every child once", ForAll([i, j], Implies(And(inseq(c, v, i), inseq(c, v, j), at(c, v, i) == at(c, v, j)), i == j), patterns=mp(at(c, v, i), at(c, v, j)))),
            ("nothing asked yet", (lambda x: ForAll([x], And(Not(Select(c.pre.g("r_asked"), x)), Not(Select(c.pre.g("r_filled"), x)))))(qref("x")))]
def rloop(fill):
    def f(L):
        e = L.eng; u = e.ucx; c = Cx(e); v = u.pre(CH, u.this); out = []; G = lambda st, x: StV(e, st).g(x)
        for kn, h in L.ivars() + L.cursors():
            if not z3.is_int(h(L.hv)): continue
            out += [("the ones asked so far", lambda st, h=h: (lambda k: ForAll([k], Implies(And(0 <= k, k < h(st)), And(Select(G(st, "r_asked"), at(c, v, k)))), patterns=pt(at(c, v, k))))(qv(c))),
                    ("none asked ahead", lambda st, h=h: (lambda k: ForAll([k], Implies(And(h(st) <= k, inseq(c, v, k)), Not(Select(G(st, "r_asked"), at(c, v, k)))), patterns=pt(at(c, v, k))))(qv(c))),
                    ("count", lambda st, h=h: G(st, "r_n") == G(L.st0, "r_n") + h(st)),
                    ("nothing else", lambda st, h=h: (lambda x: ForAll([x], Implies(Select(G(st, "r_filled"), x), And(Select(G(st, "r_asked"), x), WANTS(x)))))(qref("x"))),
                    ("the ones resynchronised so far", lambda st, h=h: (lambda k: ForAll([k], Implies(And(0 <= k, k < h(st)), Select(G(st, "r_filled"), at(c, v, k)) == WANTS(at(c, v, k))), patterns=pt(at(c, v, k))))(qv(c)))][:5 if fill else 3]
        return out
    return f
def asked(c):
    k, v = qv(c), kidsof(c); return [("every subsystem was asked", ForAll([k], Implies(inseq(c, v, k), Select(c.post.g("r_asked"), at(c, v, k))))), ("once", c.post.g("r_n") == c.pre.g("r_n") + vlen(c, v))]
def resynced(c):
    k, v = qv(c), kidsof(c); return asked(c) + [("resynchronised exactly when it asked", ForAll([k], Implies(inseq(c, v, k), Select(c.post.g("r_filled"), at(c, v, k)) == WANTS(at(c, v, k)))))]
R = dict(special=True, opaque=rop, oncall=rcall, opret=rret, noframe=True)
C("CSystemClass::checkForSubsystemsToResync", props="C27", pre=distinct, post=resynced, loops=rloop(True), opts=R, **I0)
C("CSystemClass::cleanSubsystemsNeedToResync", props="C27", pre=distinct, post=asked, loops=rloop(False), opts=R, **I0)
C("CSubsystem::needResync", props="C27", post=lambda c: [("by default, none", Not(c.retv))], opts=dict(special=True), **I0)
# ---- one application: the set of this application, once
MBB = "CParameterMgr::_pMainParameterBlackboard"
STEP = {"checkForSubsystemsToResync": 0, "apply": 1, "resetModifiedStatus": 2}
def aop(fn):
    n = c16.simple(fn)
    if n in STEP and fn.clsq != "CParameterMgr": return "reader"
    if fn.clsq in ("CSyncerSet",) and fn.ctor: return None
    return "reader"
def acall(E, st, fn, this, args, kind):
    n = c16.simple(fn); u = E.ucx; g = lambda x: E.gh(st, x)
    if n not in STEP or fn.clsq == "CParameterMgr": return
    E.oblige(st, g("r_phase") == STEP[n], "poll, apply, reset the criteria: once each, in this order (%s)" % n, "guard"); st.ghost["r_phase"] = IntVal(STEP[n] + 1)
    if n == "checkForSubsystemsToResync": st.ghost["r_set"] = E.objref(st, args[0], False)
    if n == "apply":
        E.oblige(st, E.objref(st, args[1], False) == g("r_set"), "with the synchronisers of the subsystems which asked", "guard"); b = arg(E, st, args[2]); E.oblige(st, b == u.v(0), "forced as asked", "guard"); E.oblige(st, arg(E, st, args[0]) == u.pre(MBB, u.this), "on the main memory", "guard")
C("CParameterMgr::doApplyConfigurations", props="C27", pre=lambda c: [("nothing yet", c.pre.g("r_phase") == 0)], post=lambda c: [("all steps done", c.post.g("r_phase") == 3)], opts=dict(special=True, opaque=aop, oncall=acall, noframe=True), **I0)
# ---- start: load, initialise, read back, forget requests, apply by force
LSTEP = ["feedElementLibraries", "loadFrameworkConfiguration", "loadSubsystems", "loadStructure", "loadSettings", "init", "BackSynchronizer", "sync", "validate", "cleanSubsystemsNeedToResync", "doApplyConfigurations", "handleRemoteProcessingInterface"]
BS = {"CHardwareBackSynchronizer", "CSimulatedBackSynchronizer"}
def lname(fn):
    n = c16.simple(fn)
    if fn.clsq in BS: return None if fn.dtor else "BackSynchronizer" if fn.ctor else n
    return n if n in LSTEP and n != "sync" else None
def lret(E, st, fn, this, args):
    n = lname(fn)
    if n and fn.ret is not None and fn.ret.k == "bool": r = fresh("ok_" + n, BOOL); st.ghost["r_okstep"] = r; return r
def lcall(E, st, fn, this, args, kind):
    n = lname(fn); u = E.ucx; g = lambda x: E.gh(st, x)
    if not n: return
    i = LSTEP.index(n); E.oblige(st, And(g("r_phase") == i, g("r_okstep")), "the steps of a start, in their order, each after the success of those before (%s)" % n, "guard"); st.ghost["r_phase"] = IntVal(i + 1)
    if n == "doApplyConfigurations": E.oblige(st, arg(E, st, args[0]), "the first application is forced", "guard")
    if n == "validate": E.oblige(st, arg(E, st, args[0]) == u.pre(MBB, u.this), "the settings not loaded are those of the main memory", "guard")
    if n == "BackSynchronizer": E.oblige(st, arg(E, st, args[1]) == u.pre(MBB, u.this), "into the main memory", "guard")
C("CParameterMgr::load", props="C27", pre=lambda c: [("nothing yet", And(c.pre.g("r_phase") == 0, c.pre.g("r_okstep")))], post=lambda c: [("success is every step", c.retv == And(c.post.g("r_phase") == len(LSTEP), c.post.g("r_okstep")))], opts=dict(special=True, opaque=lambda fn: "reader", oncall=lcall, opret=lret, noframe=True), **I0)
# ---- which elements are read back: those under no valid configuration
def APPVAL(V_, d, e): return uf("applicable_valid", INT, INT, BOOL)(d, e)
C("CConfigurableDomain::isApplicableConfigurationValid", verify=False, fnval=lambda c: APPVAL(c.pre, c.this, c.v(0)), opts=dict(only={"C27"}, why="named here; composed of findApplicableDomainConfiguration and isValid"), **I0)
def novalid(c, V_, e, n=None): v, k = V_(DL, e), qv(c); return ForAll([k], Implies(And(0 <= k, k < (vlen(c, v) if n is None else n)), Not(APPVAL(V_, at(c, v, k), e))), patterns=pt(at(c, v, k)))
def nvl(L):
    e = L.eng; u = e.ucx; c = Cx(e); return [("none so far", lambda st, f=f: novalid(c, u.pre, u.this, f(st))) for n, f in L.cursors()]
C("CConfigurableElement::hasNoValidDomainAssociated", props="C27", post=lambda c: [("no domain of the element has a valid configuration for it", c.retv == novalid(c, c.pre, c.this))], loops=nvl, mods=lambda c: [], opts=dict(special=True), **I0)
C("CConfigurableDomain::isApplicableConfigurationValid", props="C27", pre=lambda c: domok(c, c.pre, c.this), post=lambda c: (lambda d: [("there is an applicable configuration, valid for the element", c.retv == And(d != 0, uf("conf_valid", INT, INT, BOOL)(d, c.v(0))))])(FIRST(c, c.pre, c.this)), mods=lambda c: [], opts=dict(special=True), **I0)
C("CDomainConfiguration::isValid", verify=False, sig="(const CConfigurableElement *", fnval=lambda c: uf("conf_valid", INT, INT, BOOL)(c.this, c.v(0)), opts=dict(only={"C27"}, why="validity of the area of the element, named here"), **I0)
# ---- reading back
NBL, BSS, HBB = "CBackSynchronizer::_needingBackSyncList", "sub!CHardwareBackSynchronizer::_backSyncerSet", "CHardwareBackSynchronizer::_pParameterBlackboard"
for g, so in (("r_back", ArraySort(INT, BOOL)), ("r_alive", BOOL), ("r_hw", BOOL)): GHOSTS[g] = so
def bset(c): return uf(BSS, INT, INT)(c.this)
def bop(fn):
    n = c16.simple(fn)
    if n in ("fillSyncerSet", "sync", "setDefaultValues") or fn.ctor: return "reader"
    return None
def bcall(E, st, fn, this, args, kind):
    n = c16.simple(fn); u = E.ucx; g = lambda x: E.gh(st, x)
    if n == "fillSyncerSet": E.oblige(st, E.objref(st, args[0], False) == bset(u), "into the set of this back synchronisation", "guard"); st.ghost["r_back"] = Store(g("r_back"), this, True)
    if n == "setDefaultValues": st.ghost["r_back"] = Store(g("r_back"), this, True); E.oblige(st, E.objref(st, args[0], False) == uf("sub!CSimulatedBackSynchronizer::_parameterAccessContext", INT, INT)(u.this), "with the context of this back synchronisation", "guard")
    if n == "sync" and fn.clsq == "CSyncerSet": E.oblige(st, And(this == bset(u), E.objref(st, args[0], False) == u.pre(HBB, u.this), arg(E, st, args[1])), "the set filled, from the hardware, into the main memory", "guard"); st.ghost["r_n"] = g("r_n") + 1
def backall(c, V_, st, n=None):
    v = V_(NBL, c.this); k = qv(c); return ForAll([k], Implies(And(0 <= k, k < (vlen(c, v) if n is None else n)), Select(st.g("r_back"), at(c, v, k))), patterns=pt(at(c, v, k)))
def bloop(L):
    e = L.eng; u = e.ucx; c = Cx(e); th = L.this
    class D: S = e.S; this = th; eng = e
    return [("those so far", lambda st, f=f: backall(D, StV(e, L.st0), StV(e, st), f(st))) for n, f in L.cursors()]
BO = dict(special=True, opaque=bop, oncall=bcall, noframe=True)
C("CHardwareBackSynchronizer::CHardwareBackSynchronizer", sig="(ctor)(const CConfigurableElement *", props="C27", post=lambda c: [("every element which needs it", backall(c, c.post, c.post)), ("the memory given", c.post(HBB, c.this) == c.v(1))], loops=bloop, opts=BO, **I0)
C("CHardwareBackSynchronizer::sync", props="C27", pre=lambda c: [("has a memory", c.pre(HBB, c.this) != 0)], post=lambda c: [("read back once", c.post.g("r_n") == c.pre.g("r_n") + 1)], opts=BO, **I0)
C("CSimulatedBackSynchronizer::sync", props="C27", post=lambda c: [("every element which needs it", backall(c, c.pre, c.post))], loops=bloop, opts=BO, **I0)
# ---- the synchronisers: read back what the hardware says, or the default values
def sop(fn):
    n = c16.simple(fn)
    if n in ("isAlive", "accessHW", "getBelongingSubsystem", "setDefaultValues") or (fn.ctor and n == "CParameterAccessContext"): return "reader"
    return None
def scall(E, st, fn, this, args, kind):
    n = c16.simple(fn); u = E.ucx; g = lambda x: E.gh(st, x)
    if n == "accessHW": E.oblige(st, And(g("r_alive"), arg(E, st, args[0]) == u.v(1), g("r_n") == 0), "the hardware is accessed, once, in the direction asked for, only when alive", "guard"); st.ghost["r_n"] = IntVal(1); E.oblige(st, StV(E, st)("CSubsystemObject::_blackboard", u.this) == bbarg(u, 0), "on the memory given", "guard"); E.oblige(st, StV(E, st)("CSubsystemObject::_accessedIndex", u.this) == 0, "from its beginning", "guard")
    if n == "setDefaultValues":
        E.oblige(st, u.v(1), "default values only when reading back", "guard"); st.ghost["r_okstep"] = BoolVal(True)
        if fn.clsq == "CSubsystemObject": E.oblige(st, And(this == u.this, E.objref(st, args[0], False) == bbarg(u, 0)), "the parameters of this synchroniser", "guard")
        else: E.oblige(st, this == u.pre("CVirtualSyncer::_pConfigurableElement", u.this), "the parameters of this synchroniser", "guard")
def sret(E, st, fn, this, args):
    n = c16.simple(fn)
    if n == "isAlive": r = fresh("alive", BOOL); st.ghost["r_alive"] = r; return r
    if n == "accessHW": r = fresh("hw", BOOL); st.ghost["r_hw"] = r; return r
SOO = dict(special=True, opaque=sop, oncall=scall, opret=sret, noframe=True)
sq = lambda c: [("nothing yet", And(c.pre.g("r_n") == 0, Not(c.pre.g("r_okstep"))))]
def sobj(c):
    ok = And(c.post.g("r_alive"), c.post.g("r_n") == 1, c.post.g("r_hw")); return [("success exactly when alive and the hardware was accessed", c.retv == ok), ("the hardware is accessed when alive", (c.post.g("r_n") == 1) == c.post.g("r_alive")), ("default values exactly when reading back failed", c.post.g("r_okstep") == And(c.v(1), Not(ok)))]
C("CSubsystemObject::sync", props="C27", pre=sq, post=sobj, opts=SOO, **I0)
C("CVirtualSyncer::sync", props="C27", pre=sq, post=lambda c: [("always succeeds", c.retv), ("default values exactly when reading back", c.post.g("r_okstep") == c.v(1))], opts=SOO, **I0)
# ---- default values
import c22
def top_(fn): return "reader" if c16.simple(fn) == "setDefaultValues" else None
def tcall(E, st, fn, this, args, kind):
    u = E.ucx; E.oblige(st, E.objref(st, args[0], False) == bbarg(u, 0), "with the context given", "guard"); st.ghost["r_back"] = Store(E.gh(st, "r_back"), this, True)
def tall(c, V_, st, n=None): v = V_(CH, c.this); k = qv(c); return ForAll([k], Implies(And(0 <= k, k < (vlen(c, v) if n is None else n)), Select(st.g("r_back"), at(c, v, k))), patterns=pt(at(c, v, k)))
def tloop(L):
    e = L.eng; th = L.this
    class D: S = e.S; this = th; eng = e
    return [("children so far", lambda st, f=f: tall(D, StV(e, L.st0), StV(e, st), f(st))) for n, f in L.ivars() if z3.is_int(f(L.hv))]
C("CConfigurableElement::setDefaultValues", props="C27", pre=lambda c: [("children", (lambda v, k: ForAll([k], Implies(inseq(c, v, k), at(c, v, k) != 0), patterns=pt(at(c, v, k))))(kidsof(c), qv(c)))], post=lambda c: [("every child", tall(c, c.pre, c.post))], loops=tloop, opts=dict(special=True, opaque=top_, oncall=tcall, noframe=True), **I0)
BASEO = c22.BASEO
def pplace(c): return c.pre(OFF, c.this) - c.pre(BASEO, bbarg(c, 0))
def pin(c, n): o = pplace(c); return [("the parameter lies inside the memory", And(c.pre(OFF, c.this) < (1 << 40), c.pre(BASEO, bbarg(c, 0)) >= 0, o >= 0, o + n <= vlen(c, mem0(c, 0)), vlen(c, mem0(c, 0)) < (1 << 40)))]
def pdef(word, n): return lambda c: [("the default value is stored", c22.holds(c, mem1(c, 0), pplace(c), word(c), n)), ("nothing else changes", c22.outside(c, mem0(c, 0), mem1(c, 0), pplace(c), pplace(c) + n))]
for n in (1, 2, 4):
    C("CParameter::setDefaultValues", props="C27", pre=lambda c, n=n: c22.live(c, 0) + c22.szis(c, n) + pin(c, n), post=pdef(c22.DEF, n), mods=lambda c: [(BBF, ctxbb(c, 0))], **c22.K_()).label += " of %d bytes" % n
C("CStringParameter::setDefaultValues", props="C27", pre=lambda c: [("parameter exists", And(typ(c) != 0, ctxbb(c, 0) != 0)), ("inside the memory", And(ULT(c.pre(OFF, c.this), vlen(c, mem0(c, 0))), ULT(vlen(c, mem0(c, 0)), BitVecVal(1 << 40, 64))))],
  post=lambda c: (lambda j, o: [("the text is empty", at(c, mem1(c, 0), o) == BitVecVal(0, 8)), ("nothing else changes", ForAll([j], Implies(j != o, at(c, mem1(c, 0), j) == at(c, mem0(c, 0), j)), patterns=pt(at(c, mem1(c, 0), j))))])(qv(c, "j"), c.pre(OFF, c.this)), mods=lambda c: [(BBF, ctxbb(c, 0))], opts=dict(asserts="stop"), mode="bv", strmode="vec")
BSZ = "CBitParameterBlockType::_size"
for n in (1, 2, 4, 8):
    C("CBitParameterBlock::setDefaultValues", props="C27", pre=lambda c, n=n: c22.live(c, 0) + [("size", c.pre(BSZ, typ(c)) == n)] + pin(c, n), post=pdef(lambda c: IntVal(0), n), mods=lambda c: [(BBF, ctxbb(c, 0))], **c22.K_()).label += " of %d bytes" % n
