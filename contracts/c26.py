"""C26: mapping keys and values."""
from base import *
import c16, c12, symex
from symex import fresh
from engine import PtrV, NullP
from c08 import pieces
INT, BOOL = z3.IntSort(), z3.BoolSort()
I0 = dict(mode="int")
def FA(v, b, p): return ForAll(v, b, patterns=[p]) if okpat(p) else ForAll(v, b)
# ---- the items of a context
ITEMS, SK, SI = "CMappingContext::mItems", "CMappingContext::SItem::strKey", "CMappingContext::SItem::strItem"
def items(c, V_=None): return (V_ or c.pre)(ITEMS, c.this)
def text(c, V_, r): return V_.loc(c.eng.pointee(r, c.eng.ftype[KN]))
KN = "CSubsystemObjectCreator::_strMappingKey"
def ctxpre(c):
    v = items(c); i, j = Int("i!x"), Int("j!x")
    return [("each item is an object of its own", And(vlen(c, v) < (1 << 40), ForAll([i, j], Implies(And(0 <= i, i < j, j < vlen(c, v)), at(c, v, i) != at(c, v, j)), patterns=[z3.MultiPattern(at(c, v, i), at(c, v, j))])))]
def itempre(c): return ctxpre(c) + [("an item of the context", And(c.v(0) >= 0, c.v(0) < vlen(c, items(c))))]
def item(c, V_=None): return at(c, items(c), c.v(0))
C("CMappingContext::iSet", props="C26", pre=itempre, post=lambda c: [("set exactly when it has a value", c.retv == (c.pre(SI, item(c)) != 0))], opts=dict(texts=True), **I0)
C("CMappingContext::setItem", props="C26", pre=itempre, post=lambda c: [("accepted exactly when it was not set", c.retv == (c.pre(SI, item(c)) == 0)), ("once set it has the key and the value given", Implies(c.retv, And(c.post(SK, item(c)) == c.v(1), c.post(SI, item(c)) == c.v(2)))), ("a refusal leaves it as it was", Implies(Not(c.retv), And(c.post(SK, item(c)) == c.pre(SK, item(c)), c.post(SI, item(c)) == c.pre(SI, item(c)))))],
  mods=lambda c: [(SK, item(c)), (SI, item(c))], opts=dict(texts=True), **I0)
C("CMappingContext::getItem", sig="(unsigned long)", props="C26", pre=lambda c: itempre(c) + [("it is set", c.pre(SI, item(c)) != 0)], post=lambda c: [("the value set", c.retv == text(c, c.pre, c.pre(SI, item(c))))], opts=dict(texts=True), **I0)
def keypost(c):
    v = items(c); k, j = Int("k!g"), Int("j!g"); n = vlen(c, v)
    m = lambda x: And(0 <= x, x < n, c.pre(SK, at(c, v, x)) != 0, text(c, c.pre, c.pre(SK, at(c, v, x))) == c.v(0)); r = c.retv if isz(c.retv) else IntVal(0)
    return [("the value of the first item with that key", ForAll([k], Implies(And(m(k), ForAll([j], Implies(And(0 <= j, j < k), Not(m(j))))), r == c.pre(SI, at(c, v, k))))), ("nothing when no item has that key", Implies(ForAll([k], Not(m(k))), r == 0))]
C("CMappingContext::getItem", sig="(const std::basic_string", props="C26", pre=ctxpre, post=keypost, opts=dict(texts=True), **I0)
# ---- mapping data
KV = "CMappingData::_keyToValueMap"
def has(c, V_, x): return Select(c.S._acc(V_(KV, c.this), 0), x)
def val(c, V_, x): return Select(c.S._acc(V_(KV, c.this), 1), x)
def STR(c): return c.S.str_sort()
C("CMappingData::addValue", props="C26", post=lambda c: [("accepted exactly when the key is new", c.retv == Not(has(c, c.pre, c.v(0)))), ("the key has the value given", Implies(c.retv, And(has(c, c.post, c.v(0)), val(c, c.post, c.v(0)) == c.v(1))))] + (lambda x: [("the other keys are left alone, and all of them by a refusal", FA([x], Implies(Or(Not(c.retv), x != c.v(0)), And(has(c, c.post, x) == has(c, c.pre, x), val(c, c.post, x) == val(c, c.pre, x))), has(c, c.post, x)))])(Const("x!a", STR(c))), mods=lambda c: [(KV, c.this)], **I0)
def gvpost(c):
    p = c.post.loc(c.a[1]) if isinstance(c.a[1], Loc) else None
    r = [("found exactly when the key is known", c.retv == has(c, c.pre, c.v(0)))]
    if isinstance(p, PtrV): r.append(("the value is that of the key", Implies(c.retv, c.post.loc(p.loc) == val(c, c.pre, c.v(0)))))
    return r
C("CMappingData::getValue", props="C26", post=gvpost, **I0)
def kvdef(c, x):
    """key and value written in one piece: before and after the first colon"""
    S = c.S; e = c.eng; so = STR(c); p = uf("str_find", so, INT, INT)(x, IntVal(58)); none = p == IntVal((1 << 64) - 1)
    return If(none, x, uf("substr", so, INT, INT, so)(x, 0, p)), If(none, e.lit(""), uf("substr1", so, INT, so)(x, p + 1))
def pcs(c): return pieces(c.S, c.v(0), c.eng.lit(","), BoolVal(True))
def initpost(c):
    v = pcs(c); n = vlen(c, v); i, j = Int("i!n"), Int("j!n"); k = lambda x: kvdef(c, at(c, v, x))[0]; w = lambda x: kvdef(c, at(c, v, x))[1]; x = Const("x!n", STR(c))
    return [("accepted: every key has the value written", Implies(c.retv, FA([i], Implies(And(0 <= i, i < n), And(has(c, c.post, k(i)), val(c, c.post, k(i)) == w(i))), at(c, v, i)))),
            ("accepted: no key was known or written twice", Implies(c.retv, And(FA([i], Implies(And(0 <= i, i < n), Not(has(c, c.pre, k(i)))), at(c, v, i)), ForAll([i, j], Implies(And(0 <= i, i < j, j < n), k(i) != k(j)), patterns=[z3.MultiPattern(at(c, v, i), at(c, v, j))])))),
            ("refused only for a key known or written twice", Implies(Not(c.retv), Exists([j], And(0 <= j, j < n, Or(has(c, c.pre, k(j)), Exists([i], And(0 <= i, i < j, k(i) == k(j)))))))),
            ("no other key appears", ForAll([x], Implies(And(has(c, c.post, x), Not(has(c, c.pre, x))), Exists([i], And(0 <= i, i < n, k(i) == x))))),
            ("the keys known stay as they were", FA([x], Implies(has(c, c.pre, x), And(has(c, c.post, x), val(c, c.post, x) == val(c, c.pre, x))), has(c, c.post, x)))]
def initloop(L):
    c = L.eng.ucx; v = pcs(c); i, j = Int("i!l"), Int("j!l"); k = lambda x: kvdef(c, at(c, v, x))[0]; w = lambda x: kvdef(c, at(c, v, x))[1]; x = Const("x!l", STR(c)); out = []
    for _, f in L.cursors():
        H = lambda st: (lambda V_: (lambda y: has(c, V_, y), lambda y: val(c, V_, y)))(c12.StV(L.eng, st))
        h0 = lambda y: has(c, c.pre, y); rng = lambda a, st: And(0 <= a, a < f(st))
        out.append(("within the pieces", lambda st, f=f: And(f(st) >= 0, f(st) <= vlen(c, v))))
        out.append(("keys so far have the value written", lambda st, f=f: FA([i], Implies(And(0 <= i, i < f(st)), And(H(st)[0](k(i)), H(st)[1](k(i)) == w(i))), at(c, v, i))))
        out.append(("they were not known", lambda st, f=f: FA([i], Implies(And(0 <= i, i < f(st)), Not(h0(k(i)))), at(c, v, i))))
        out.append(("they differ", lambda st, f=f: ForAll([i, j], Implies(And(0 <= i, i < j, j < f(st)), k(i) != k(j)), patterns=[z3.MultiPattern(at(c, v, i), at(c, v, j))])))
        out.append(("nothing else appeared", lambda st, f=f: ForAll([x], Implies(And(H(st)[0](x), Not(h0(x))), Exists([i], And(0 <= i, i < f(st), k(i) == x))))))
        out.append(("the others are as they were", lambda st, f=f: FA([x], Implies(h0(x), And(H(st)[0](x), H(st)[1](x) == val(c, c.pre, x))), H(st)[0](x))))
    return out
C("CMappingData::init", props="C26", post=initpost, loops=initloop, opts=dict(special=True, noframe=True), **I0)
# ---- amendments
def FMT(c, s): return uf("amended", STR(c), INT, INT, INT, STR(c))(s, c.v(1), c.v(2), ctxid(c))
def ctxid(c): return c.a[3].r if hasattr(c.a[3], "r") else c.v(3)
def fmtpost(c):
    so = STR(c); s = c.v(0); f = uf("str_find", so, INT, INT); p = f(s, IntVal(37)); n = c.eng.strlen(c.pre.st, s); K = c.eng.concat; sub = uf("substr", so, INT, INT, so); tail = uf("substr1", so, INT, so)
    g = uf("charat", so, INT, INT)(s, p + 1) - 48; v = c.pre(ITEMS, ctxid(c)); it = at(c, v, c.v(1) + g - 1); t = c.pre(SI, it)
    am = And(p != (1 << 64) - 1, p + 1 < n); ok = And(am, g >= 1, g <= c.v(2), t != 0)
    r = c.retv
    return [("nothing to amend: left as it is", Implies(Not(am), r == s)),
            ("a key which is set: replaced by its value, then what follows is amended", Implies(ok, r == K(K(sub(s, IntVal(0), p), text(c, c.pre, t)), FMT(c, tail(s, p + 2))))),
            ("no such key, or not set: left as it is, and what follows is amended", Implies(And(am, Not(ok)), r == K(sub(s, IntVal(0), p + 1), FMT(c, tail(s, p + 1)))))]
def fmtpre(c):
    v = c.pre(ITEMS, ctxid(c)); i, j = Int("i!x"), Int("j!x")
    return [("one to nine amendable keys, all of the context", And(c.v(2) >= 1, c.v(2) <= 9, c.v(1) >= 0, c.v(1) + c.v(2) <= vlen(c, v), vlen(c, v) < (1 << 40))), ("a text that fits in memory", And(uf("strlen", STR(c), INT)(c.v(0)) >= 0, uf("strlen", STR(c), INT)(c.v(0)) < (1 << 40))),
            ("each item is an object of its own", ForAll([i, j], Implies(And(0 <= i, i < j, j < vlen(c, v)), at(c, v, i) != at(c, v, j)), patterns=[z3.MultiPattern(at(c, v, i), at(c, v, j))]))]
C("CFormattedSubsystemObject::formatMappingValue", verify=False, pure=True, fnval=lambda c: FMT(c, c.v(0)), opts=dict(why="names its own result on the rest of the text: the unit below says what that result is"), **I0)
C("CFormattedSubsystemObject::formatMappingValue", props="C26", pre=fmtpre, post=fmtpost, opts=dict(texts=True, special=True, noframe=True), **I0)
def quoted(c):
    so = STR(c); s = c.v(2); n = uf("strlen", so, INT)(s)
    return If(And(uf("charat", so, INT, INT)(s, IntVal(0)) == 39, n >= 2), uf("substr", so, INT, INT, so)(s, IntVal(1), n - 2), s)
FV = "CFormattedSubsystemObject::_strFormattedMappingValue"
def fop(fn): return "pure" if "CSubsystemObject::CSubsystemObject" in fn.n or fn.clsq == "CSubsystemObject" else None
C("CFormattedSubsystemObject::CFormattedSubsystemObject", sig="unsigned long, unsigned long", props="C26", pre=lambda c: [("a text that fits in memory", And(uf("strlen", STR(c), INT)(c.v(2)) >= 0, uf("strlen", STR(c), INT)(c.v(2)) < (1 << 40)))], post=lambda c: [("its value is the amended text, without the quotes around it", c.post(FV, c.this) == uf("amended", STR(c), INT, INT, INT, STR(c))(quoted(c), c.v(3), c.v(4), c.a[5].r))], opts=dict(special=True, noframe=True, opaque=fop), **I0)
# ---- along a branch
KEYS = "CSubsystem::_contextMappingKeyArray"
def HAS(c, e, k): return uf("element_has_key", INT, k.sort(), BOOL)(e, k)
def MV(c, e, k): return uf("element_value", INT, k.sort(), INT)(e, k)
def gop(fn): return "reader" if c16.simple(fn) == "getMappingData" else None
def arg(E, st, x): return E.load(st, x) if isinstance(x, Loc) and not isinstance(x, symex.LObj) else x.r if hasattr(x, "r") else x
def gret(E, st, fn, this, args):
    if c16.simple(fn) != "getMappingData": return None
    k = arg(E, st, args[0]); v = MV(None, this, k); f = HAS(None, this, k)
    st.fact(Implies(f, v > 0)); E.store(st, args[1], v); return f
def hmpost(c):
    ks = c.pre(KEYS, c.this); cx = c.a[1].r; v = c.pre(ITEMS, cx); i = Int("i!h"); it = lambda x: at(c, v, x); f = lambda x: HAS(c, c.v(0), at(c, ks, x)); n = vlen(c, ks); rng = lambda x: And(0 <= x, x < n)
    return [("accepted: each key of the element is set, to its value, and was not set before", Implies(c.retv, FA([i], Implies(And(rng(i), f(i)), And(c.pre(SI, it(i)) == 0, c.post(SI, it(i)) == MV(c, c.v(0), at(c, ks, i)), text(c, c.post, c.post(SK, it(i))) == at(c, ks, i))), at(c, v, i)))),
            ("accepted: the other items are left alone", Implies(c.retv, FA([i], Implies(And(rng(i), Not(f(i))), And(c.post(SI, it(i)) == c.pre(SI, it(i)), c.post(SK, it(i)) == c.pre(SK, it(i)))), at(c, v, i)))),
            ("refused only for a key set before", Implies(Not(c.retv), Exists([i], And(rng(i), f(i), c.pre(SI, it(i)) != 0)))), ("an item which was set keeps its value", FA([i], Implies(And(rng(i), c.pre(SI, it(i)) != 0), c.post(SI, it(i)) == c.pre(SI, it(i))), at(c, v, i)))]
def hmloop(L):
    c = L.eng.ucx; ks = c.pre(KEYS, c.this); cx = c.a[1].r; v = c.pre(ITEMS, cx); i = Int("i!k"); it = lambda x: at(c, v, x); f = lambda x: HAS(c, c.v(0), at(c, ks, x)); n = vlen(c, ks); out = []
    cur = [("c", g) for _, g in L.ivars() if g(L.hv).sort() == INT] + list(L.cursors())
    for _, g in cur:
        W = lambda st: c12.StV(L.eng, st)
        out.append(("within the keys", lambda st, g=g: And(0 <= g(st), g(st) <= n)))
        out.append(("those before are set", lambda st, g=g: FA([i], Implies(And(0 <= i, i < g(st), f(i)), And(c.pre(SI, it(i)) == 0, W(st)(SI, it(i)) == MV(c, c.v(0), at(c, ks, i)), W(st)("text at", W(st)(SK, it(i))) == at(c, ks, i))), at(c, v, i))))
        out.append(("the others are as they were", lambda st, g=g: FA([i], Implies(And(0 <= i, i < vlen(c, v), Not(And(i < g(st), f(i)))), And(W(st)(SI, it(i)) == c.pre(SI, it(i)), W(st)(SK, it(i)) == c.pre(SK, it(i)))), at(c, v, i))))
    return out
def hmpre(c):
    v = c.pre(ITEMS, c.a[1].r); i, j = Int("i!x"), Int("j!x")
    return [("an item for each key", And(vlen(c, c.pre(KEYS, c.this)) <= vlen(c, v), vlen(c, v) < (1 << 40))), ("each item is an object of its own", ForAll([i, j], Implies(And(0 <= i, i < j, j < vlen(c, v)), at(c, v, i) != at(c, v, j)), patterns=[z3.MultiPattern(at(c, v, i), at(c, v, j))]))]
C("CSubsystem::handleMappingContext", props="C26", pre=hmpre, post=hmpost, loops=hmloop, opts=dict(special=True, noframe=True, opaque=gop, opret=gret), **I0)
# ---- which object is created
for g, so in (("o_calls", INT), ("o_which", z3.BitVecSort(64)), ("m_begin", INT), ("m_end", INT), ("m_kids", INT), ("m_ok", BOOL), ("m_dive", BOOL), ("m_step", INT)): GHOSTS[g] = so
CR, CK, CA, CM = "CSubsystem::_subsystemObjectCreatorArray", "CSubsystemObjectCreator::_strMappingKey", "CSubsystemObjectCreator::_uiAncestorIdMask", "CSubsystemObjectCreator::_maxConfigurableElementSize"
def cop(fn):
    n = c16.simple(fn)
    return {"getMappingData": "reader", "getFootPrint": "reader", "objectCreate": "pure", "getMappingError": "reader", "iSet": "reader"}.get(n)
def FP(E, e): return uf("footprint", INT, E.S.SZ)(e)
def ISET(E, cx, i): return uf("item_is_set", INT, E.S.SZ, BOOL)(cx, i)
def crets(E, st, fn, this, args):
    n = c16.simple(fn)
    if n == "getFootPrint": return FP(E, this)
    if n == "iSet": return ISET(E, this, arg(E, st, args[0]))
    return gret(E, st, fn, this, args)
def crt(u, k): return at(u, u.pre(CR, u.this), k)
def bit(u, k, m): return z3.Extract(0, 0, z3.LShR(m, z3.Extract(31, 0, k))) == 1
def anc(u, r):
    i = Const("i!anc", u.S.SZ); n = vlen(u, u.pre(KEYS, u.this))
    return ForAll([i], Implies(And(z3.ULT(i, n), bit(u, i, u.pre(CA, r))), ISET(u.eng, u.a[1].r, i)))
def sized(u, r): return z3.ULE(FP(u.eng, u.v(0)), u.pre(CM, r))
def ccall(E, st, fn, this, args, kind):
    if c16.simple(fn) != "objectCreate": return
    u = E.ucx; r = this
    E.oblige(st, E.gh(st, "o_calls") == u.pre.g("o_calls"), "one object for one element", "guard")
    E.oblige(st, HAS(E, u.v(0), u.pre(CK, r)), "created for a key of the element", "guard"); k = Const("k!cr", u.S.SZ)
    E.oblige(st, anc(u, r), "every ancestor required is set", "guard"); E.oblige(st, sized(u, r), "the element is not too large", "guard")
    E.oblige(st, And(arg(E, st, args[1]) == u.v(0), args[2].r == u.a[1].r), "for this element, in this context", "guard")
    E.oblige(st, arg(E, st, args[0]) == E.load(st, E.pointee(MV(E, u.v(0), u.pre(CK, r)), E.ftype[KN])), "with the value of its key", "guard")
    st.ghost["o_calls"] = E.gh(st, "o_calls") + 1
def crpost(c):
    k, j = Const("k!p", c.S.SZ), Const("j!p", c.S.SZ); n = vlen(c, c.pre(CR, c.this)); f = lambda x: HAS(c, c.v(0), c.pre(CK, crt(c, x))); rng = lambda x: z3.ULT(x, n); made = c.post.g("o_calls") == c.pre.g("o_calls") + 1; none = c.post.g("o_calls") == c.pre.g("o_calls")
    first = lambda x: And(rng(x), f(x), ForAll([j], Implies(z3.ULT(j, x), Not(f(j)))))
    return [("told created exactly when it was", c.vo(2) == made), ("refused: nothing created", Implies(Not(c.retv), And(none, Not(c.vo(2))))),
            ("not created though accepted: the element has none of the keys", Implies(And(c.retv, none), ForAll([k], Implies(rng(k), Not(f(k)))))),
            ("refused only when an ancestor is missing or it is too large", Implies(Not(c.retv), Exists([k], And(rng(k), f(k), Or(Not(anc(c, crt(c, k))), Not(sized(c, crt(c, k))))))))]
def crloop(L):
    c = L.eng.ucx; n = vlen(c, c.pre(CR, c.this)); j = Const("j!l", c.S.SZ); i = Const("i!l", c.S.SZ); nk = vlen(c, c.pre(KEYS, c.this)); out = []
    for _, g in L.cursors():
        out.append(("within the kinds of object", lambda st, g=g: z3.ULE(g(st), n))); out.append(("none of those before", lambda st, g=g: ForAll([j], Implies(z3.ULT(j, g(st)), Not(HAS(c, c.v(0), c.pre(CK, crt(c, j))))), patterns=[crt(c, j)])))
    out.append(("nothing created yet", lambda st: L.eng.gh(st, "o_calls") == c.pre.g("o_calls")))
    for _, g in L.ivars():
        if g(L.hv).sort() != z3.BitVecSort(64): continue
        out.append(("within the keys", lambda st, g=g: z3.ULE(g(st), nk)))
        for x in list(L.st0.cells.values()):
            if symex.isz(x) and x.sort() == z3.BitVecSort(32): out.append(("ancestors so far", lambda st, g=g, x=x: ForAll([i], Implies(And(z3.ULT(i, g(st)), bit(c, i, x)), ISET(c.eng, c.a[1].r, i)))))
    return out
C("CSubsystem::handleSubsystemObjectCreation", props="C26", pre=lambda c: [("at most 32 context keys", z3.ULE(vlen(c, c.pre(KEYS, c.this)), 32))], post=crpost, loops=crloop, mode="bv", opts=dict(special=True, noframe=True, opaque=cop, opret=crets, oncall=ccall))
# ---- the walk
def mop(fn):
    n = c16.simple(fn)
    return {"hasMappingData": "reader", "mapBegin": "reader", "map": "pure", "mapEnd": "pure"}.get(n)
KID = "CElement::_childArray"
def mapc(E, st, fn, this, args, kind):
    n = c16.simple(fn); u = E.ucx; g = lambda x: E.gh(st, x)
    if n == "mapBegin":
        E.oblige(st, And(g("m_begin") == u.pre.g("m_begin"), g("m_kids") == 0, this == u.a[0].r, arg(E, st, args[0]) == u.this), "told once of this element, before its children", "guard"); st.ghost["m_begin"] = g("m_begin") + 1
        b = fresh("begun", BOOL); st.ghost["m_ok"] = b; d = fresh("dive", BOOL); st.ghost["m_dive"] = d
    if n == "map":
        ks = u.pre(KID, u.this); k = g("m_kids"); E.oblige(st, And(g("m_ok"), g("m_dive"), k < vlen(u, ks), this == at(u, ks, k), args[0].r == u.a[0].r), "each child in its turn, and only below an element to dive in", "guard")
        E.oblige(st, Implies(MDATA(u), g("m_begin") == u.pre.g("m_begin") + 1), "after the element itself", "guard")
        b = fresh("mapped", BOOL); st.ghost["m_kids"] = k + 1; st.ghost["m_ok"] = b
    if n == "mapEnd": E.oblige(st, And(g("m_ok"), g("m_begin") == u.pre.g("m_begin") + 1, g("m_end") == u.pre.g("m_end"), this == u.a[0].r), "ended once, when begun", "guard"); st.ghost["m_end"] = g("m_end") + 1
def MDATA(u): return uf("has_mapping_data", INT, BOOL)(u.this)
def mapr(E, st, fn, this, args):
    n = c16.simple(fn)
    if n == "hasMappingData": return MDATA(E.ucx)
    if n == "mapBegin": E.store(st, args[1], st.ghost["m_dive"]); return st.ghost["m_ok"]
    if n == "map": return st.ghost["m_ok"]
def mappost(c):
    g = lambda x: c.post.g(x); g0 = lambda x: c.pre.g(x); n = vlen(c, c.pre(KID, c.this)); md = MDATA(c)
    return [("accepted: begun and ended exactly when it has mapping data", Implies(c.retv, And(g("m_begin") == g0("m_begin") + If(md, 1, 0), g("m_end") == g0("m_end") + If(md, 1, 0)))),
            ("accepted: every child was mapped, unless told not to dive", Implies(c.retv, And(g("m_ok"), g("m_kids") == If(g("m_dive"), n, 0)))), ("refused only when one of them was", Implies(Not(c.retv), Not(g("m_ok"))))]
def maploop(L):
    c = L.eng.ucx; out = [("accepted so far", lambda st: And(L.eng.gh(st, "m_ok"), L.eng.gh(st, "m_dive") == L.eng.gh(L.st0, "m_dive"))), ("nothing begun nor ended by the children", lambda st: And(L.eng.gh(st, "m_begin") == L.eng.gh(L.st0, "m_begin"), L.eng.gh(st, "m_end") == L.eng.gh(L.st0, "m_end")))]
    for _, g in list(L.ivars()) + list(L.cursors()):
        if g(L.hv).sort() == INT: out.append(("children so far", lambda st, g=g: And(g(st) == L.eng.gh(st, "m_kids"), g(st) >= 0, g(st) <= vlen(c, c.pre(KID, c.this)))))
    return out
C("CInstanceConfigurableElement::map", props="C26", pre=lambda c: [("nothing mapped yet", And(c.pre.g("m_kids") == 0, c.pre.g("m_ok"), c.pre.g("m_dive"), vlen(c, c.pre(KID, c.this)) < (1 << 40)))], post=mappost, loops=maploop, opts=dict(special=True, noframe=True, opaque=mop, oncall=mapc, opret=mapr), **I0)
# ---- each element has a context of its own
STK = "CSubsystem::_contextStack"
GHOSTS["s_cx"] = INT; GHOSTS["s_h"] = INT; GHOSTS["s_ok"] = BOOL; GHOSTS["s_made"] = BOOL
def bop(fn):
    n = c16.simple(fn)
    return {"handleMappingContext": "pure", "handleSubsystemObjectCreation": "pure", "getType": "reader", "getMappingError": "reader", "map": "effect"}.get(n)
def bcall(E, st, fn, this, args, kind):
    n = c16.simple(fn); u = E.ucx; g = lambda x: E.gh(st, x)
    if n == "handleMappingContext":
        v = u.pre(STK, u.this); top = at(u, v, vlen(u, v) - 1); V_ = c12.StV(E, st); cx = args[1].r
        E.oblige(st, And(g("s_h") == 0, arg(E, st, args[0]) == u.v(0), cx != top, V_(ITEMS, cx) == u.pre(ITEMS, top)), "the keys of the element are added to a copy of the context of its parent", "guard")
        st.ghost["s_h"] = IntVal(1); st.ghost["s_cx"] = cx; b = fresh("added", BOOL); st.ghost["s_ok"] = b
    if n == "handleSubsystemObjectCreation":
        E.oblige(st, And(g("s_h") == 1, g("s_ok"), arg(E, st, args[0]) == u.v(0), args[1].r == g("s_cx")), "the object is created for the element, in that context", "guard")
        st.ghost["s_h"] = IntVal(2); b = fresh("created", BOOL); st.ghost["s_ok"] = b; m = fresh("made", BOOL); st.ghost["s_made"] = m; E.store(st, args[2], m)
def bret(E, st, fn, this, args): return st.ghost["s_ok"] if c16.simple(fn).startswith("handle") else uf("type_of", INT, INT)(this) if c16.simple(fn) == "getType" else None
def bpost(c):
    v, w = c.pre(STK, c.this), c.post(STK, c.this); g = lambda x: c.post.g(x); i = Int("i!b"); top = at(c, w, vlen(c, w) - 1); t = uf("type_of", INT, INT)(c.v(0))
    return [("accepted only when the keys were, and the creation of an object", Implies(c.retv, And(g("s_ok"), g("s_h") == 2))),
            ("accepted: the children have the context of the element", Implies(c.retv, And(vlen(c, w) == vlen(c, v) + 1, c.post(ITEMS, top) == c.post(ITEMS, g("s_cx")), FA([i], Implies(And(0 <= i, i < vlen(c, v)), at(c, w, i) == at(c, v, i)), at(c, w, i))))),
            ("accepted: the walk goes on below exactly when no object was created", Implies(c.retv, c.vo(1) == Not(g("s_made")))),
            ("a parameter must have an object", Implies(And(c.retv, Not(g("s_made"))), Or(t == 4, t == 5))), ("refused only for one of these", Implies(Not(c.retv), Or(Not(g("s_ok")), And(Not(g("s_made")), t != 4, t != 5))))]
C("CSubsystem::mapBegin", props="C26", pre=lambda c: [("within an element which has a context", And(vlen(c, c.pre(STK, c.this)) > 0, vlen(c, c.pre(STK, c.this)) < (1 << 40), c.pre.g("s_h") == 0)), ("an object which exists", symex.STAMP(at(c, c.pre(STK, c.this), vlen(c, c.pre(STK, c.this)) - 1)) <= Int("top!0")), ("a kind of element which can be mapped", And(uf("type_of", INT, INT)(c.v(0)) >= 1, uf("type_of", INT, INT)(c.v(0)) <= 5))], post=bpost, opts=dict(special=True, noframe=True, opaque=bop, oncall=bcall, opret=bret), **I0)
def epost(c):
    v, w = c.pre(STK, c.this), c.post(STK, c.this); i = Int("i!e")
    return [("back to the context of the parent", And(vlen(c, w) == vlen(c, v) - 1, FA([i], Implies(And(0 <= i, i < vlen(c, w)), at(c, w, i) == at(c, v, i)), at(c, w, i))))]
C("CSubsystem::mapEnd", props="C26", pre=lambda c: [("within an element", vlen(c, c.pre(STK, c.this)) > 0)], post=epost, opts=dict(special=True, noframe=True), **I0)
