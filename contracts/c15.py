"""C15: membership of elements in domains."""
from c18 import *
EL, SMAP = CD + "_configurableElementList", CD + "_configurableElementToSyncerSetMap"
DL = "CConfigurableElement::_configurableDomainList"
def member(c, v, x): k = qv(c); return Exists([k], And(inseq(c, v, k), at(c, v, k) == x))
def DESC(V_, e, a):
    """a is on the parent chain of e, by definition"""
    P = V_.arr(PAR); f = uf("descendant_of", P.sort(), INT, INT, BOOL); x, y = Const("desc!x", INT), Const("desc!y", INT)
    V_.st.fact(ForAll([x, y], f(P, x, y) == And(Select(P, x) != 0, Or(Select(P, x) == y, f(P, Select(P, x), y))), patterns=[f(P, x, y)])); return f(P, e, a)
def BELONGS(c, V_, e, d):
    """recorded on the element or on one of its ancestors below the root"""
    P, L = V_.arr(PAR), V_.arr(DL); f = uf("belongs_to", P.sort(), L.sort(), INT, INT, BOOL); x, y = Const("bel!x", INT), Const("bel!y", INT)
    V_.st.fact(ForAll([x, y], f(P, L, x, y) == Or(member(c, Select(L, x), y), And(Select(P, x) != 0, Select(P, Select(P, x)) != 0, f(P, L, Select(P, x), y))), patterns=[f(P, L, x, y)])); return f(P, L, e, d)
notroot = lambda c: [("not the root", And(c.this != 0, c.pre(PAR, c.this) != 0))]
C("CElement::isDescendantOf", props=("C15", "C18"), fnval=lambda c: DESC(c.pre, c.this, c.v(0)), **I0)
C("CConfigurableElement::containsConfigurableDomain", props="C15", fnval=lambda c: member(c, c.pre(DL, c.this), c.v(0)), **I0)
C("CConfigurableElement::belongsTo", props="C15", pre=notroot, fnval=lambda c: BELONGS(c, c.pre, c.this, c.v(0)), **I0)
C(CD + "containsConfigurableElement", props="C15", fnval=lambda c: member(c, c.pre(EL, c.this), c.v(0)), **I0)
def others(c, a, b, x):
    """list b is list a without x"""
    y = qref("y"); return [("it is no longer there", Not(member(c, b, x))), ("the others remain", ForAll([y], Implies(y != x, member(c, b, y) == member(c, a, y))))]
def more(c, a, b, x):
    k = qv(c); return [("added at the end", And(vlen(c, b) == vlen(c, a) + 1, at(c, b, vlen(c, a)) == x)), ("the others keep their place", ForAll([k], Implies(inseq(c, a, k), at(c, b, k) == at(c, a, k)), patterns=pt(at(c, b, k))))]
C("CConfigurableElement::addAttachedConfigurableDomain", props="C15", post=lambda c: more(c, c.pre(DL, c.this), c.post(DL, c.this), c.v(0)), mods=lambda c: [(DL, c.this)], **I0)
C("CConfigurableElement::removeAttachedConfigurableDomain", props="C15", post=lambda c: others(c, c.pre(DL, c.this), c.post(DL, c.this), c.v(0)), mods=lambda c: [(DL, c.this)], **I0)
def smap(c, V_, d, f, e): m = V_(SMAP, d); return Select(c.S._acc(m, 0 if f == "has" else 1), e)
C(CD + "getSyncerSet", props="C15", pre=lambda c: [("an element of the domain", smap(c, c.pre, c.this, "has", c.v(0)))], fnval=lambda c: smap(c, c.pre, c.this, "val", c.v(0)), **I0)
def upto(c, a, b, d, n):
    """the domain's synchronisers are those of the first n elements"""
    ks = c.S._acc(a(SMAP, d), 2); k = qv(c); x = qref("x"); return ForAll([x], inset(c, b, subf(a, d), x) == Exists([k], And(0 <= k, k < n, inset(c, a, smap(c, a, d, "val", at(c, ks, k)), x))))
def csl(L):
    e = L.eng; u = e.ucx; c = Cx(e); return [("so far", lambda st, kf=kf: upto(c, u.pre, StV(e, st), u.this, kf(st))) for kn, kf in L.cursors()]
C(CD + "computeSyncSet", props=("C15", "C17"), pre=lambda c: [("its own set is none of its elements'", (lambda e: ForAll([e], Implies(smap(c, c.pre, c.this, "has", e), smap(c, c.pre, c.this, "val", e) != subf(c.pre, c.this)), patterns=pt(smap(c, c.pre, c.this, "val", e))))(qref("e")))],
  post=lambda c: [("the synchronisers of the domain are those of its elements", upto(c, c.pre, c.post, c.this, vlen(c, c.S._acc(c.pre(SMAP, c.this), 2))))], loops=csl, mods=lambda c: [(SS, subf(c.pre, c.this))], **I0)
ALLM = [EL, SMAP, DL, SS, AR, BBF, AV]
ANY = lambda c: [(f, None) for f in ALLM]
WHYD = "the effect on the lists is assumed here: compared with a reference model by the harness"
C(CD + "doAddConfigurableElement", verify=False, post=lambda c: [("it is in the domain", And(member(c, c.post(EL, c.this), c.v(0)), member(c, c.post(DL, c.v(0)), c.this)))], mods=ANY, opts=dict(why=WHYD), **I0)
C(CD + "doRemoveConfigurableElement", verify=False, post=lambda c: [("it is no longer in the domain", And(Not(member(c, c.post(EL, c.this), c.v(0))), Not(member(c, c.post(DL, c.v(0)), c.this))))], mods=ANY, opts=dict(why=WHYD), **I0)
def unless(ok): return lambda c: (lambda g: [(f, lambda r, g=g: g) for f in ALLM])(ok(c))
def elemarg(c): return [("an element below the root", And(c.v(0) != 0, c.pre(PAR, c.v(0)) != 0))]
oka = lambda c: And(Not(member(c, c.pre(EL, c.this), c.v(0))), Not(BELONGS(c, c.pre, c.v(0), c.this)))
C(CD + "addConfigurableElement", props="C15", pre=elemarg, post=lambda c: [("refused exactly when it is in the domain or owned through an ancestor", c.retv == oka(c)), ("accepted: it is in the domain", Implies(c.retv, And(member(c, c.post(EL, c.this), c.v(0)), member(c, c.post(DL, c.v(0)), c.this))))], mods=unless(oka), **I0)
okr = lambda c: member(c, c.pre(EL, c.this), c.v(0))
C(CD + "removeConfigurableElement", props="C15", pre=elemarg, post=lambda c: [("refused exactly when it is not in the domain", c.retv == okr(c)), ("accepted: it is no longer in the domain", Implies(c.retv, And(Not(member(c, c.post(EL, c.this), c.v(0))), Not(member(c, c.post(DL, c.v(0)), c.this)))))], mods=unless(okr), **I0)
oks = lambda c: And(okr(c), vlen(c, c.pre(CH, c.v(0))) != 0)
C("CDomainConfiguration::split", verify=False, mods=lambda c: [(BBF, None), (AV, None)], opts=dict(why="copies settings between the areas of one element and of its children: compared with a reference model by the harness"), **I0)
C(CD + "split", props="C15", pre=elemarg, post=lambda c: [("refused exactly when it is not in the domain or has no child", c.retv == oks(c)), ("accepted: it is no longer in the domain", Implies(c.retv, Not(member(c, c.post(EL, c.this), c.v(0)))))], mods=unless(oks), **I0)
