"""C18: the element tree."""
from c12 import *
NAME = "CElement::_strName"
def STR(c): return c.S.str_sort()
def KIND(c, e): return uf("kind_of", INT, STR(c))(e)
def PN(c, V_, e): n = V_(NAME, e); return If(n != c.eng.lit(""), n, KIND(c, e))
def CAT(c, *x):
    r = x[0]
    for y in x[1:]: r = c.eng.concat(r, y)
    return r
def PATH(c, V_, e):
    """the path of an element: the names down from below the root, by definition"""
    P, N = V_.arr(PAR), V_.arr(NAME); f = uf("path_of", P.sort(), N.sort(), INT, STR(c)); x = Const("path!x", INT); sl = c.eng.lit("/"); pn = lambda y: If(Select(N, y) != c.eng.lit(""), Select(N, y), KIND(c, y))
    V_.st.fact(ForAll([x], f(P, N, x) == If(And(Select(P, x) != 0, Select(P, Select(P, x)) != 0), CAT(c, f(P, N, Select(P, x)), sl, pn(x)), CAT(c, sl, pn(x))), patterns=[f(P, N, x)])); return f(P, N, e)
def FCH(c, V_, e, s):
    """first child of that name (0: none), by definition"""
    ch, N = V_.arr(CH), V_.arr(NAME); fi = uf("first_child_index", ch.sort(), N.sort(), INT, STR(c), INT); fc = uf("first_child", ch.sort(), N.sort(), INT, STR(c), INT); D, k, q = Const("fc!D", INT), Const("fc!k", INT), Const("fc!s", STR(c)); v = Select(ch, D); f = fi(ch, N, D, q)
    pn = lambda y: If(Select(N, y) != c.eng.lit(""), Select(N, y), KIND(c, y))
    V_.st.fact(ForAll([D, q], And(f >= 0, f <= vlen(c, v), fc(ch, N, D, q) == If(f < vlen(c, v), at(c, v, f), IntVal(0)), Implies(f < vlen(c, v), pn(at(c, v, f)) == q)), patterns=[f] + [fc(ch, N, D, q)]))
    V_.st.fact(ForAll([D, q, k], Implies(And(0 <= k, k < f), pn(at(c, v, k)) != q), patterns=[z3.MultiPattern(f, at(c, v, k))]))
    return fc(ch, N, e, s)
def kids(c, V_):
    """each child knows its parent"""
    D, k = qref("D"), qv(c); v = Select(V_.arr(CH), D); x = at(c, v, k); return [("each child knows its parent", ForAll([D, k], Implies(inseq(c, v, k), And(x != 0, V_(PAR, x) == D)), patterns=pt(x)))]
C("CElement::getPathName", props="C18", fnval=lambda c: PN(c, c.pre, c.this), **I0)
C("CElement::getPath", props="C18", fnval=lambda c: PATH(c, c.pre, c.this), **I0)
def haskid(c, V_, e, s): v = V_(CH, e); k = qv(c); return Exists([k], And(inseq(c, v, k), PN(c, V_, at(c, v, k)) == s))
for cst in (True, False):
    C("CElement::findChild", const=cst, props="C18", pre=lambda c: [(n, f) for n, f in kids(c, c.pre)], fnval=lambda c: FCH(c, c.pre, c.this, c.v(0)),
      post=lambda c: [("nothing exactly when no child has that name", (c.retv != 0) == haskid(c, c.pre, c.this, c.v(0))), ("otherwise a child of that name", Implies(c.retv != 0, And(c.pre(PAR, c.retv) == c.this, PN(c, c.pre, c.retv) == c.v(0))))], **I0)
IX, IT_, VAL = "CPathNavigator::_currentIndex", "CPathNavigator::_astrItems", "CPathNavigator::_bValid"
def nav(c, i=0): return c.a[i].r if hasattr(c.a[i], "r") else c.v(i)
def RES(c, V_, items, i, e):
    """the element reached from e by the items from the i-th on (0: none), by definition"""
    ch, N = V_.arr(CH), V_.arr(NAME); f = uf("resolve", ch.sort(), N.sort(), items.sort(), INT, INT, INT); I, E_, X = Const("res!i", INT), Const("res!e", INT), Const("res!x", items.sort()); FCH(c, V_, e, c.eng.lit("")); fc = uf("first_child", ch.sort(), N.sort(), INT, STR(c), INT); nx = fc(ch, N, E_, at(c, X, I))
    V_.st.fact(ForAll([X, I, E_], f(ch, N, X, I, E_) == If(I >= vlen(c, X), E_, If(nx == 0, IntVal(0), f(ch, N, X, I + 1, nx))), patterns=[f(ch, N, X, I, E_)])); return f(ch, N, items, i, e)
def JOIN(c, V_, p, items, i):
    """p followed by the items from the i-th on, by definition"""
    f = uf("join", STR(c), items.sort(), INT, STR(c)); I, P, X = Const("join!i", INT), Const("join!p", STR(c)), Const("join!x", items.sort())
    V_.st.fact(ForAll([P, X, I], f(P, X, I) == If(I >= vlen(c, X), P, f(CAT(c, P, c.eng.lit("/"), at(c, X, I)), X, I + 1)), patterns=[f(P, X, I)])); return f(p, items, i)
def navpre(c): return [("a position in the path", And(nav(c) != 0, c.pre(IX, nav(c)) >= 0, c.pre(IX, nav(c)) <= vlen(c, c.pre(IT_, nav(c)))))]
C("CPathNavigator::next", props="C18", pre=lambda c: [("a position in the path", And(c.pre(IX, c.this) >= 0, c.pre(IX, c.this) <= vlen(c, c.pre(IT_, c.this))))],
  post=lambda c: (lambda i, v: [("moves on to the next item", c.post(IX, c.this) == If(i < vlen(c, v), i + 1, i)), ("gives it", nextval(c, i, v))])(c.pre(IX, c.this), c.pre(IT_, c.this)), mods=lambda c: [(IX, c.this)], opts=dict(skip=True), verify=False, **I0) if False else None
for cst in (True, False):
    C("CElement::findDescendant", const=cst, props="C18", pre=lambda c: navpre(c) + kids(c, c.pre), fnval=lambda c: RES(c, c.pre, c.pre(IT_, nav(c)), c.pre(IX, nav(c)), c.this),
      post=lambda c: [("the path of the element found is the path asked for", Implies(And(c.retv != 0, c.pre(PAR, c.this) != 0), PATH(c, c.pre, c.retv) == JOIN(c, c.pre, PATH(c, c.pre, c.this), c.pre(IT_, nav(c)), c.pre(IX, nav(c)))))], mods=lambda c: [(IX, nav(c))], **I0)
DYN = lambda c, e: uf("children_are_dynamic", INT, BOOL)(e)
C("CElement::childrenAreDynamic", verify=False, pure=True, fnval=lambda c: DYN(c, c.this), opts=dict(why="a constant per class"), **I0)
def brother(c):
    p = c.pre(PAR, c.this); v = c.pre(CH, p); k = qv(c); return And(p != 0, DYN(c, p), Exists([k], And(inseq(c, v, k), at(c, v, k) != c.this, c.pre(NAME, at(c, v, k)) == c.v(0))))
C("CElement::rename", props="C18", pre=lambda c: [("children exist", (lambda v, k: ForAll([k], Implies(And(c.pre(PAR, c.this) != 0, inseq(c, v, k)), at(c, v, k) != 0), patterns=pt(at(c, v, k))))(c.pre(CH, c.pre(PAR, c.this)), qv(c)))],
  post=lambda c: [("refused exactly when a brother has that name", c.retv == Not(brother(c))), ("accepted: it has that name", Implies(c.retv, c.post(NAME, c.this) == c.v(0))), ("refused: it keeps its name", Implies(Not(c.retv), c.post(NAME, c.this) == c.pre(NAME, c.this)))], mods=lambda c: [(NAME, c.this)], **I0)
def addpost(c):
    a, b = c.pre(CH, c.this), c.post(CH, c.this); k = qv(c); return [("added at the end", And(vlen(c, b) == vlen(c, a) + 1, at(c, b, vlen(c, a)) == c.v(0), c.post(PAR, c.v(0)) == c.this)), ("the others keep their place", ForAll([k], Implies(inseq(c, a, k), at(c, b, k) == at(c, a, k)), patterns=pt(at(c, b, k))))]
C("CElement::addChild", props="C18", pre=lambda c: [("a child", c.v(0) != 0)], post=addpost, mods=lambda c: [(CH, c.this), (PAR, c.v(0))], **I0)
def rmpost(c):
    a, b = c.pre(CH, c.this), c.post(CH, c.this); k, i = qv(c), qv(c, "i"); x = c.v(0); first = And(inseq(c, a, i), at(c, a, i) == x, ForAll([k], Implies(And(0 <= k, k < i), at(c, a, k) != x)))
    return [("refused exactly when it is no child", c.retv == Exists([k], And(inseq(c, a, k), at(c, a, k) == x))), ("refused: nothing changes", Implies(Not(c.retv), b == a)),
            ("only it is removed, the others keep their order", Implies(c.retv, Exists([i], And(first, vlen(c, b) == vlen(c, a) - 1, ForAll([k], Implies(inseq(c, b, k), at(c, b, k) == at(c, a, If(k < i, k, k + 1))))))))]
C("CElement::removeChild", props="C18", post=rmpost, mods=lambda c: [(CH, c.this)], **I0)
for cst in (True, False):
    C("CElement::getChild", const=cst, props="C18", pre=lambda c: [("a child of that index exists", And(c.v(0) >= 0, c.v(0) < vlen(c, c.pre(CH, c.this))))], fnval=lambda c: at(c, c.pre(CH, c.this), c.v(0)), **I0)
C("CElement::getNbChildren", props="C18", fnval=lambda c: vlen(c, c.pre(CH, c.this)), **I0)
LSUB, LSTR = "CElementLocator::_pSubRootElement", "CElementLocator::_bStrict"
def locpost(c):
    s = c.pre(LSUB, c.this); it = pieces(c.S, c.v(0), c.eng.lit("/"), BoolVal(True)); n = vlen(c, it); o = c.vo(1); ok = And(c.retv, n > 0)
    return [("an empty path is accepted only when not strict", Implies(And(c.retv, n == 0), Not(c.pre(LSTR, c.this)))),
            ("the element whose path is the one asked for", Implies(ok, And(o != 0, at(c, it, 0) == c.pre(NAME, s), o == RES(c, c.pre, it, IntVal(1), s), PATH(c, c.pre, o) == JOIN(c, c.pre, PATH(c, c.pre, s), it, IntVal(1))))),
            ("refused only when there is no such element or the path does not start with a slash", Implies(And(Not(c.retv), n > 0, at(c, it, 0) == c.pre(NAME, s), RES(c, c.pre, it, IntVal(1), s) != 0), Not(SLASH(c, c.v(0)))))]
def SLASH(c, s): return uf("starts_with_slash", STR(c), BOOL)(s)
C("CPathNavigator::checkPathFormat", verify=False, pure=True, fnval=lambda c: SLASH(c, c.v(0)), opts=dict(why="strings are abstract values here: the text starts with a slash"), **I0)
C("CElementLocator::locate", props="C18", pre=lambda c: [("a tree", And(c.pre(LSUB, c.this) != 0, c.pre(PAR, c.pre(LSUB, c.this)) != 0))] + kids(c, c.pre), post=locpost, opts=dict(noframe=True), **I0)
def subs(V_, r):
    subf(V_, r); g = uf("sub!" + DSS, INT, INT); x = Const("subf!r", INT); V_.st.fact(ForAll([x], symex.STAMP(g(x)) == symex.STAMP(x), patterns=[g(x)])); return g(r)
NONAME = lambda c: [("names are not empty", c.v(0) != c.eng.lit(""))]
def crpre(c): subs(c.pre, c.this); return NONAME(c) + kids(c, c.pre)
C("CConfigurableDomain::CConfigurableDomain", arity=1, props="C18", post=lambda c: [("named as asked", c.post(NAME, c.this) == c.v(0)), ("no configuration, no parent", And(vlen(c, c.post(CH, c.this)) == 0, c.post(PAR, c.this) == 0))], mods=lambda c: [(SS, subs(c.pre, c.this))], **I0)
def cdpost(c):
    a, b = c.pre(CH, c.this), c.post(CH, c.this); k = qv(c); x = at(c, b, vlen(c, a))
    return [("refused exactly when a domain has that name", c.retv == Not(haskid(c, c.pre, c.this, c.v(0)))), ("refused: nothing changes", Implies(Not(c.retv), b == a)),
            ("accepted: one more domain, of that name, at the end", Implies(c.retv, And(vlen(c, b) == vlen(c, a) + 1, c.post(NAME, x) == c.v(0), c.post(PAR, x) == c.this, ForAll([k], Implies(inseq(c, a, k), at(c, b, k) == at(c, a, k)), patterns=pt(at(c, b, k))))))]
C("CConfigurableDomains::createDomain", props="C18", pre=crpre, post=cdpost, mods=lambda c: [(CH, c.this)], **I0)
def rnpost(c):
    d = FCH(c, c.pre, c.this, c.v(0)); v = c.pre(CH, c.this); k = qv(c); bro = Exists([k], And(inseq(c, v, k), at(c, v, k) != d, c.pre(NAME, at(c, v, k)) == c.v(1)))
    return [("refused exactly when there is no such child or another has the new name", c.retv == And(d != 0, Not(And(DYN(c, c.this), bro)))), ("accepted: renamed", Implies(c.retv, c.post(NAME, d) == c.v(1))), ("refused: no name changes", Implies(Not(c.retv), c.post.arr(NAME) == c.pre.arr(NAME)))]
for n in ("CConfigurableDomains::renameDomain", "CConfigurableDomain::renameConfiguration"):
    C(n, props="C18", pre=lambda c: kids(c, c.pre), post=rnpost, mods=lambda c: [(NAME, FCH(c, c.pre, c.this, c.v(0)))], **I0)
