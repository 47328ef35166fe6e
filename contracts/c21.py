"""C21: element handles."""
from c15 import *
import c16
# ---- which elements are under no domain's control
AGL, AGP = "CConfigurableElementAggregator::_aggregateList", "CConfigurableElementAggregator::_pfnMatchesAggregationCriterion"
def empty(c, v): return vlen(c, v) == 0
def UPFREE(c, V_, e):
    """no domain holds the element or one of its ancestors below the root, by definition"""
    P, L = V_.arr(PAR), V_.arr(DL); f = uf("no_domain_above", P.sort(), L.sort(), INT, BOOL); x = Const("upf!x", INT)
    V_.st.fact(ForAll([x], f(P, L, x) == And(empty(c, Select(L, x)), Or(Select(P, x) == 0, Select(P, Select(P, x)) == 0, f(P, L, Select(P, x)))), patterns=[f(P, L, x)])); return f(P, L, e)
def CRIT(V_, p, e): return uf("aggregation_criterion", p.sort(), V_.arr(DL).sort(), INT, BOOL)(p, V_.arr(DL), e)
def aggdefs(c, V_, p):
    """the criterion holds for an element and everything below it (for its first n children and everything below them), by definition"""
    ch, L = V_.arr(CH), V_.arr(DL); f, g = uf("matches_below", p.sort(), ch.sort(), L.sort(), INT, BOOL), uf("children_match", p.sort(), ch.sort(), L.sort(), INT, INT, BOOL); x, n = Const("agg!x", INT), Const("agg!n", INT); v = Select(ch, x); y = at(c, v, n)
    V_.st.fact(ForAll([x], f(p, ch, L, x) == And(CRIT(V_, p, x), g(p, ch, L, x, vlen(c, v))), patterns=[f(p, ch, L, x)]))
    V_.st.fact(ForAll([x, n], Implies(n >= 0, g(p, ch, L, x, n + 1) == And(g(p, ch, L, x, n), f(p, ch, L, y))), patterns=pt(y))); V_.st.fact(ForAll([x], g(p, ch, L, x, 0), patterns=[v]))
    return lambda e: f(p, ch, L, e), lambda e, n: g(p, ch, L, e, n)
def NB(c, V_, p):
    """how many elements below (from the first n children of) an element are listed, by definition: itself alone when all match, none when it does not match, those of its children otherwise"""
    f, g = aggdefs(c, V_, p); ch, L = V_.arr(CH), V_.arr(DL); so = (p.sort(), ch.sort(), L.sort(), INT); N, S = uf("nb_listed", *so, INT), uf("nb_of_children", *so, INT, INT); x, n = Const("nb!x", INT), Const("nb!n", INT); v = Select(ch, x); y = at(c, v, n)
    V_.st.fact(ForAll([x], N(p, ch, L, x) == If(f(x), IntVal(1), If(CRIT(V_, p, x), S(p, ch, L, x, vlen(c, v)), IntVal(0))), patterns=[N(p, ch, L, x)]))
    V_.st.fact(ForAll([x, n], Implies(n >= 0, S(p, ch, L, x, n + 1) == S(p, ch, L, x, n) + N(p, ch, L, y)), patterns=pt(y))); V_.st.fact(ForAll([x], S(p, ch, L, x, 0) == 0, patterns=[v]))
    return lambda e: N(p, ch, L, e), lambda e, n: S(p, ch, L, e, n)
def RANK(e): return uf("tree_rank", INT, INT)(e)
def ranks(c, V_):
    D, k = qref("D"), qv(c); v = Select(V_.arr(CH), D); x = at(c, v, k); return [("a tree: a child is deeper than its parent", ForAll([D, k], Implies(And(D != 0, inseq(c, v, k)), And(x != 0, RANK(x) > RANK(D))), patterns=pt(x)))]
def listof(c, i): return c.vo(i), c.v(i)
def begins(c, b, a): k = qv(c); return And(vlen(c, b) >= vlen(c, a), ForAll([k], Implies(inseq(c, a, k), at(c, b, k) == at(c, a, k)), patterns=pt(at(c, b, k))))
def gb(c): a, b = c.v(0), c.vo(0); return [("adds nothing exactly when no domain holds it or an ancestor", And(vlen(c, b) >= vlen(c, a), (vlen(c, b) == vlen(c, a)) == UPFREE(c, c.pre, c.this)))]
C("CConfigurableElement::getBelongingDomains", props="C21", pre=notroot, post=gb, mods=lambda c: [], **I0)
C("CConfigurableElement::getBelongingDomainCount", props="C21", pre=notroot, post=lambda c: [("zero exactly when no domain holds it or an ancestor", (c.retv == 0) == UPFREE(c, c.pre, c.this))], **I0)
C("CConfigurableElement::hasNoDomainAssociated", props="C21", fnval=lambda c: empty(c, c.pre(DL, c.this)), **I0)
def mpcall(E, st, p, this, args): return CRIT(View(E, st), p, this)
def deeper(c, a, b, r): k = qv(c); return ForAll([k], Implies(And(k >= vlen(c, a), inseq(c, b, k)), RANK(at(c, b, k)) > r), patterns=pt(at(c, b, k)))
def matching(c, a, b, f): k = qv(c); return ForAll([k], Implies(And(k >= vlen(c, a), inseq(c, b, k)), f(at(c, b, k))), patterns=pt(at(c, b, k)))
def agg(c):
    p = c.pre(AGP, c.this); f, g = aggdefs(c, c.pre, p); a, b, x = c.v(1), c.vo(1), c.v(0)
    return [("tells whether all below it match", c.retv == f(x)), ("what was in the list remains", begins(c, b, a)), ("alone when all below it match", Implies(c.retv, And(vlen(c, b) == vlen(c, a) + 1, at(c, b, vlen(c, a)) == x))), ("otherwise only elements below it", Implies(Not(c.retv), deeper(c, a, b, RANK(x)))),
            ("as many as match", vlen(c, b) == vlen(c, a) + NB(c, c.pre, p)[0](x)), ("all of them match, and all below them", matching(c, a, b, f))]
def agl(L):
    e = L.eng; u = e.ucx; c = Cx(e); p = u.pre(AGP, u.this); f, g = aggdefs(c, u.pre, p); x = u.v(0); out = []
    ivs = [h for n, h in L.ivars() if z3.is_int(h(L.hv))]
    for i in ivs:
        for m in ivs:
            if i is not m: out.append(("matching so far", lambda st, i=i, m=m: And(m(st) >= 0, m(st) <= i(st), (m(st) == i(st)) == g(x, i(st)))))
    for n, h in L.ivars():
        if h(L.hv).sort() == u.pre.arr(CH).sort().range():
            out.append(("matching", lambda st, h=h: (lambda b, k: ForAll([k], Implies(inseq(c, b, k), f(at(c, b, k))), patterns=pt(at(c, b, k))))(h(st), qv(c))))
            for i in ivs: out.append(("as many so far", lambda st, h=h, i=i: And(i(st) >= 0, vlen(c, h(st)) == NB(c, u.pre, p)[1](x, i(st)))))
            out.append(("deeper", lambda st, h=h: (lambda b, k: ForAll([k], Implies(inseq(c, b, k), RANK(at(c, b, k)) > RANK(x)), patterns=pt(at(c, b, k))))(h(st), qv(c))))
    return out
C("CConfigurableElementAggregator::doAggregate", props=("C21", "C27"), pre=lambda c: (NB(c, c.pre, c.pre(AGP, c.this)), ranks(c, c.pre) + [("an element", c.v(0) != 0)])[1], post=agg, loops=agl, mods=lambda c: [], opts=dict(memptr=mpcall, htimeout=2, nombqi=True), **I0)
# ---- rogue elements: no domain on the element, above it or below it
NODOM = "CConfigurableElement::hasNoDomainAssociated() const"
def nodom(c, V_):
    ps = c.eng.harr(V_.st, c.eng.fname(AGP)).sort().range(); p = Const("fn:" + NODOM, ps); x = Const("nd!x", INT); V_.st.fact(ForAll([x], CRIT(V_, p, x) == empty(c, V_(DL, x)), patterns=[CRIT(V_, p, x)])); return p
def ROGUE(c, V_, e): p = nodom(c, V_); f, g = aggdefs(c, V_, p); return And(UPFREE(c, V_, e), f(e))
C("CConfigurableElement::isRogue", props="C21", pre=lambda c: notroot(c) + ranks(c, c.pre), fnval=lambda c: ROGUE(c, c.pre, c.this), **I0)
# ---- handles
TEF, ALF = "CInstanceConfigurableElement::_pTypeElement", "CTypeElement::_arrayLength"
def isa(k, e): return uf("isa!" + k, INT, BOOL)(e)
C("CConfigurableElement::isParameter", props="C21", pre=lambda c: [("no parameter", Not(isa("CBaseParameter", c.this)))], post=lambda c: [("it is none", Not(c.retv))], opts=dict(special=True), **I0)
C("CBaseParameter::isParameter", props="C21", post=lambda c: [("it is one", c.retv)], opts=dict(special=True), **I0)
C("CConfigurableElement::isParameter", verify=False, fnval=lambda c: isa("CBaseParameter", c.this), opts=dict(why="both implementations are verified"), **I0)
HE, HM, TMF = "ElementHandle::mElement", "ElementHandle::mParameterMgr", "CParameterMgr::_bTuningModeIsOn"
def hel(c): return c.pre(HE, c.this)
def hlen(c): e = hel(c); return If(isa("CInstanceConfigurableElement", e), c.pre(ALF, c.pre(TEF, e)), IntVal(0))
def texts(c):
    a, b = Const("cat!a", STR(c)), Const("cat!b", STR(c)); f = uf("concat", STR(c), STR(c), STR(c)); e = c.eng.lit(""); c.pre.st.fact(ForAll([a, b], (f(a, b) == e) == And(a == e, b == e), patterns=[f(a, b)])); return []
hpre = lambda c: texts(c) + [("an element below the root", And(hel(c) != 0, c.pre(PAR, hel(c)) != 0, c.pre(HM, c.this) != 0))] + ranks(c, c.pre)
def param(c): return isa("CBaseParameter", hel(c))
def rogue(c): return ROGUE(c, c.pre, hel(c))
def shape(c, arr): return (hlen(c) != 0) == arr
def err(c, i): return c.vo(i) != c.eng.lit("")
def told(c, ok, i): return [("accepted exactly when legal", c.retv == ok), ("refused with an error", Implies(Not(ok), err(c, i)))]
C("ElementHandle::checkGetValidity", props="C21", pre=hpre, post=lambda c: told(c, And(param(c), shape(c, c.v(0))), 1), mods=lambda c: [], **I0)
C("ElementHandle::checkRogue", props="C21", pre=hpre, post=lambda c: told(c, rogue(c), 0), mods=lambda c: [], **I0)
def setok(c, arr, n): return And(param(c), shape(c, arr), rogue(c), Implies(arr, n == hlen(c)))
C("ElementHandle::checkSetValidity", props="C21", pre=hpre, post=lambda c: told(c, setok(c, c.v(0), c.v(1)), 2), mods=lambda c: [], **I0)
GHOSTS["h_reached"] = INT; GHOSTS["h_result"] = BOOL
def isvec(c): return c.fn.pt[0].__str__().find("vector") >= 0
def argvec(c):
    t = c.fn.pt[0]; t = t.t if t.k == "ref" else t; return (t.q or "").startswith("std::vector") if t.k == "rec" or hasattr(t, "q") else False
REACH = {"access", "setSettingsAsXML", "setSettingsAsBytes", "getSettingsAsBytes", "getSettingsAsXML"}
def hop(fn):
    n, q = c16.simple(fn), fn.clsq or ""
    if q != "ElementHandle" and n in REACH: return "effect"
    if fn.ctor or q.startswith("core::"): return "reader"
    if n in ("getParameterBlackboard", "getBlackboardMutex"): return "reader"
    return None
def hcall(E, st, fn, this, args, kind):
    n = c16.simple(fn); u = E.ucx
    if kind != "effect": return
    st.ghost["h_reached"] = E.gh(st, "h_reached") + 1
    E.oblige(st, (this == hel(u)) if n == "access" else (E.objref(st, args[0], False) == hel(u)), "the element of the handle is the one accessed", "guard")
def hret(E, st, fn, this, args):
    if c16.simple(fn) in REACH and fn.clsq != "ElementHandle" and fn.ret is not None and fn.ret.k == "bool":
        r = symex.fresh("result", BOOL); st.ghost["h_result"] = r; return r
    return None
none = lambda c: [("not reached yet", c.pre.g("h_reached") == 0)]
def handle(ok, skip=lambda c: BoolVal(False), res=True, e=1):
    def f(c):
        n = c.post.g("h_reached"); o = ok(c); r = [("accessed exactly when legal", n == If(And(o, Not(skip(c))), IntVal(1), IntVal(0))), ("refused: reported with an error", Implies(Not(o), And(Not(c.retv), err(c, e))))]
        return r + ([("otherwise the outcome is that of the access", Implies(And(o, Not(skip(c))), c.retv == c.post.g("h_result")))] if res else [])
    return f
tuning = lambda c: c.pre(TMF, c.pre(HM, c.this))
HO = dict(special=True, opaque=hop, oncall=hcall, opret=hret, noframe=True)
def vl(c): return vlen(c, c.v(0)) if argvec(c) else IntVal(0)
C("ElementHandle::setAs", props="C21", pre=lambda c: hpre(c) + none(c), post=lambda c: handle(lambda c: setok(c, BoolVal(argvec(c)), vl(c)), tuning)(c), throws=True, opts=HO)
C("ElementHandle::getAs", props="C21", pre=lambda c: hpre(c) + none(c), post=handle(lambda c: And(param(c), shape(c, BoolVal(argvec(c))))), throws=True, opts=HO)
for n in ("XML", "Bytes"): C("ElementHandle::setAs" + n, props="C21", pre=lambda c: hpre(c) + none(c), post=handle(rogue), throws=True, opts=HO)
C("ElementHandle::getAsBytes", props="C21", pre=lambda c: hpre(c) + none(c), post=handle(lambda c: BoolVal(True), res=False), throws=True, opts=HO)
