"""C19: the layout of the settings memory."""
from c18 import *
import c16
TE, PSZ, ALEN, SMAX, BSZ = "CInstanceConfigurableElement::_pTypeElement", "CParameterType::_size", "CTypeElement::_arrayLength", "CStringParameterType::_maxLength", "CBitParameterBlockType::_size"
def isa(k, e): return uf("isa!" + k, INT, BOOL)(e)
def farrs(V_): return [V_.arr(f) for f in (CH, TE, PSZ, ALEN, SMAX, BSZ)]
LEAVES = ["CBitParameter", "CBitParameterBlock", "CArrayParameter", "CParameter", "CStringParameter"]
def leafsize(A, x):
    ch, te, ps, al, sm, bs = A; t = Select(te, x)
    return If(isa("CBitParameter", x), IntVal(0), If(isa("CBitParameterBlock", x), Select(bs, t), If(isa("CArrayParameter", x), Select(ps, t) * Select(al, t), If(isa("CParameter", x), Select(ps, t), Select(sm, t) + 1))))
def isleaf(x): return Or(*[isa(k, x) for k in LEAVES])
def sizedefs(c, V_):
    """the size of an element and of its first n children, by definition"""
    A = farrs(V_); so = [a.sort() for a in A]; f, g = uf("footprint", *so, INT, INT), uf("children_size", *so, INT, INT, INT); x, n = Const("fp!x", INT), Const("fp!n", INT); v = Select(A[0], x)
    V_.st.fact(ForAll([x], f(*A, x) == If(isleaf(x), leafsize(A, x), g(*A, x, vlen(c, v))), patterns=[f(*A, x)]))
    y = at(c, v, n); V_.st.fact(ForAll([x, n], Implies(n >= 0, g(*A, x, n + 1) == g(*A, x, n) + f(*A, y)), patterns=pt(y))); V_.st.fact(ForAll([x], g(*A, x, 0) == 0, patterns=[g(*A, x, 0)]))
    return lambda e: f(*A, e), lambda e, n: g(*A, e, n)
def FP(c, V_, e): return sizedefs(c, V_)[0](e)
def SUM(c, V_, e, n): return sizedefs(c, V_)[1](e, n)
def small(c):
    """the whole structure is smaller than 2^40 bytes"""
    sizedefs(c, c.pre); A = farrs(c.pre); so = [a.sort() for a in A]; f, g = uf("footprint", *so, INT, INT), uf("children_size", *so, INT, INT, INT); x, n = Const("fp!x", INT), Const("fp!n", INT); M = IntVal(1 << 40)
    return [("the structure is smaller than 2^40 bytes", And(ForAll([x], And(f(*A, x) >= 0, f(*A, x) < M), patterns=[f(*A, x)]), ForAll([x, n], And(g(*A, x, n) >= 0, g(*A, x, n) < M), patterns=[g(*A, x, n)])))]
WHYF = "each of its implementations is verified on its own body"
FPC = dict(fnval=lambda c: FP(c, c.pre, c.this))
plainel = lambda c: small(c) + [("no parameter nor bit block", Not(isleaf(c.this)))]
def fpl(L):
    e = L.eng; u = e.ucx; c = Cx(e); ivs = [f for n, f in L.ivars()]; SUM(c, u.pre, u.this, IntVal(0))
    return [("sum so far", lambda st, f=f, g=g: g(st) == SUM(c, u.pre, u.this, f(st))) for f in ivs for g in ivs if f is not g]
C("CConfigurableElement::getFootPrint", props="C19", loops=fpl, pre=plainel, opts=dict(nonvirt=True), **FPC, **I0)
C("CConfigurableElement::getFootPrint", verify=False, pre=small, opts=dict(why=WHYF), **FPC, **I0)
def kind(k): return lambda c: small(c) + [("an element of its class", And(*[isa(q, c.this) == BoolVal(q == k or (q == "CParameter" and k == "CArrayParameter")) for q in LEAVES]))]
for k in LEAVES: C(k + "::getFootPrint", props="C19", pre=kind(k), opts=dict(special=True), **FPC, **I0)
# ---- a tree is numbered in pre-order
def LO(x): return uf("tree_lo", INT, INT)(x)
def HI(x): return uf("tree_hi", INT, INT)(x)
def sub(x, e): return And(LO(e) <= LO(x), LO(x) <= HI(e))
def tree(c, V_):
    mark = uf("tree_mark", INT, BOOL); V_.st.fact(mark(c.this))      # only guides instantiation: nothing is known about it otherwise
    ch = V_.arr(CH); D, k, j, x = Const("tree!D", INT), Const("tree!k", INT), Const("tree!j", INT), Const("tree!x", INT); v = Select(ch, D); y = at(c, v, k)
    w = uf("tree_branch", ch.sort(), INT, INT, INT)(ch, D, x)
    return [("a tree: a child's numbers lie within its parent's", ForAll([D, k], Implies(And(D != 0, inseq(c, v, k)), And(y != 0, LO(D) < LO(y), HI(y) <= HI(D), LO(y) <= HI(y))), patterns=pt(y))),
            ("a tree: the children's numbers are disjoint", ForAll([D, j, k], Implies(And(D != 0, inseq(c, v, j), inseq(c, v, k), j < k), HI(at(c, v, j)) < LO(y)), patterns=mp(at(c, v, j), y))),
            ("a tree: every descendant lies below one child", ForAll([D, x], Implies(And(D != 0, sub(x, D), x != D), And(inseq(c, v, w), sub(x, at(c, v, w)), HI(x) <= HI(at(c, v, w)))), patterns=[z3.MultiPattern(LO(x), mark(D))])),
            ("a tree: an element's number is the lowest below it", ForAll([D, x], Implies(And(D != 0, x != D, sub(x, D)), LO(D) < LO(x)), patterns=[z3.MultiPattern(LO(x), mark(D))])), ("a tree: intervals", ForAll([x], LO(x) <= HI(x), patterns=pt(LO(x))))]
def wrap(x): return If(x >= IntVal(1 << 64), x - IntVal(1 << 64), x)
def laid(c, a, b, D, k):
    """child k of D starts where the ones before it end"""
    v = a(CH, D); return Implies(inseq(c, v, k), b(OFF, at(c, v, k)) == wrap(b(OFF, D) + SUM(c, a, D, k)))
def laidall(c, a, b, cond):
    D, k = qref("D"), qv(c); v = a(CH, D); SUM(c, a, D, k); return ForAll([D, k], Implies(And(D != 0, cond(D)), laid(c, a, b, D, k)), patterns=pt(at(c, v, k)))
def sopost(c): return [("the element starts there", c.post(OFF, c.this) == c.v(0)), ("each child starts where the ones before it end", (lambda k, v: (SUM(c, c.pre, c.this, k), ForAll([k], laid(c, c.pre, c.post, c.this, k), patterns=pt(at(c, v, k))))[1])(qv(c), c.pre(CH, c.this))),
    ("and so do the children of every element below it", laidall(c, c.pre, c.post, lambda D: And(D != c.this, sub(D, c.this))))]
def sol(L):
    e = L.eng; u = e.ucx; c = Cx(e); a = u.pre; v = a(CH, u.this); out = []; SUM(c, a, u.this, IntVal(0))
    ivs = [f for n, f in L.ivars()]
    out.append(("starts", lambda st: StV(e, st)(OFF, u.this) == u.v(0)))
    for f in ivs:
        for g in ivs:
            if g is not f: out.append(("next offset", lambda st, f=f, g=g: g(st) == wrap(u.v(0) + SUM(c, a, u.this, f(st)))))
        def own_(st, f=f):
            k = qv(c); return ForAll([k], Implies(And(0 <= k, k < f(st)), laid(c, a, StV(e, st), u.this, k)), patterns=pt(at(c, v, k)))
        def deep(st, f=f):
            D, k, j = qref("D"), qv(c), qv(c, "j"); w = a(CH, D); b = StV(e, st)
            br = uf("tree_branch", a.arr(CH).sort(), INT, INT, INT)(a.arr(CH), u.this, D)
            return ForAll([D, k], Implies(And(D != 0, D != u.this, sub(D, u.this), br < f(st)), laid(c, a, b, D, k)), patterns=pt(at(c, w, k)))
        out += [("children laid out", own_), ("below the children", deep)]
    return out
C("CConfigurableElement::setOffset", props="C19", pre=lambda c: [("exists", c.this != 0)] + small(c) + tree(c, c.pre), post=sopost, loops=sol, mods=lambda c: [(OFF, lambda r: sub(r, c.this))], **I0)
C("CConfigurableElement::getOffset", props="C19", fnval=lambda c: c.pre(OFF, c.this), **I0)
# ---- loading the structure
GHOSTS["placed"] = BOOL     # offsets given to the structure since it was last built
GHOSTS["sized"] = BOOL      # the settings memory has its size
def sysclass(c): return uf("system_class", INT, INT)(c.this)
def fpof(r): return uf("footprint_of", INT, INT)(r)
def lsop(fn):
    n = c16.simple(fn)
    if n in ("setOffset", "setSize", "xmlParse"): return "effect"
    if n in ("getFootPrint", "getSystemClass", "getConstSystemClass"): return "reader"
    if fn.clsq == "CParameterMgr": return "inline"
    return c16.opaque(fn)
def lscall(E, st, fn, this, args, kind):
    n = c16.simple(fn)
    if n == "setOffset": E.oblige(st, And(this == sysclass(E.ucx), args[0] == 0), "the whole structure starts at offset 0", "layout"); st.ghost["placed"] = BoolVal(True)
    elif n == "setSize" and fn.clsq == "CParameterBlackboard": E.oblige(st, args[0] == fpof(sysclass(E.ucx)), "the settings memory is as large as the structure", "layout"); st.ghost["sized"] = BoolVal(True)
    elif n == "xmlParse": st.ghost["placed"] = BoolVal(False); st.ghost["sized"] = BoolVal(False)
def lsret(E, st, fn, this, args):
    n = c16.simple(fn)
    if n in ("getSystemClass", "getConstSystemClass"): return sysclass(E.ucx)
    if n == "getFootPrint": return fpof(this)
    return None
C("CParameterMgr::loadStructure", props="C19", post=lambda c: [("a loaded structure has its offsets", Implies(c.retv, c.post.g("placed"))), ("and a memory of its size", Implies(c.retv, c.post.g("sized")))], opts=dict(special=True, opaque=lsop, oncall=lscall, opret=lsret, noframe=True))
