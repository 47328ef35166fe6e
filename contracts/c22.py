"""C22: items of array parameters and string parameters."""
from c01 import *
from c08 import pieces
import c16, symex
from c12 import I0, INT, BOOL, pt, mp
AL, OFF, BASEO = "CTypeElement::_arrayLength", "CConfigurableElement::_offset", "CParameterAccessContext::_uiBaseOffset"
KINDS = [("bool", "bool"), ("unsigned int", "u32"), ("int", "s32"), ("double", "f64"), ("std::basic_string", "text")]
def ctxr(c, i): return c.a[i].r if isinstance(c.a[i], LObj) else c.a[i]
def rawof(c, i): return c.pre(RAW, ctxr(c, i))
def TOK(t, v, raw, k): return uf("accepts_" + k, t.sort(), v.sort(), z3.BoolSort(), z3.BoolSort())(t, v, raw)
def TOW(t, v, raw, k): return uf("word_" + k, t.sort(), v.sort(), z3.BoolSort(), INT)(t, v, raw)
def FOK(t, w, raw, k): return uf("reads_" + k, t.sort(), w.sort(), z3.BoolSort(), z3.BoolSort())(t, w, raw)
def FRVT(t, w, raw, old): return uf("text_of", t.sort(), w.sort(), z3.BoolSort(), old.sort(), old.sort())(t, w, raw, old)
def FRV(t, w, raw, k, s, old=None): return uf("value_" + k, t.sort(), w.sort(), z3.BoolSort(), s)(t, w, raw)
WHY = "the encoding of one value: verified type by type under C01 to C04; only that it depends on nothing else than the type, the value and the value space is used here"
for ct, k in KINDS:
    for q in ("CParameterType",):
        C(q + "::toBlackboard", sig="toBlackboard(" + ("const " if k == "text" else "") + ct, verify=False, pure=True,
          post=lambda c, k=k: [("", c.retv == TOK(c.this, c.v(0), rawof(c, 2), k)), ("", Implies(c.retv, c.vo(1) == TOW(c.this, c.v(0), rawof(c, 2), k)))], opts=dict(why=WHY, only={'C22'}), **I0)
        C(q + "::fromBlackboard", sig="fromBlackboard(" + ct, verify=False, pure=True,
          post=lambda c, k=k: [("", c.retv == FOK(c.this, c.v(1), rawof(c, 2), k)), ("", Implies(c.retv, c.vo(0) == FRV(c.this, c.v(1), rawof(c, 2), k, c.vo(0).sort())))] + ([("", c.vo(0) == FRVT(c.this, c.v(1), rawof(c, 2), c.v(0)))] if k == "text" else []), opts=dict(why=WHY, only={'C22'}), **I0)
HT = 20
A_ = "CArrayParameter::"
K_ = lambda **o: dict(mode="int", opts=dict(o, asserts="stop", special=True, nosearch=True, htimeout=2))
BYTE = lambda w, k: uf("byte_of", INT, INT, INT)(w, IntVal(k))
WORD = lambda *b: uf("word_of", *([INT] * 5))(*b)
def bytesdef(c):
    """a word is determined by its bytes"""
    w = Const("word!w", INT); k = Const("word!k", INT); c.pre.st.fact(ForAll([w], Implies(And(w >= 0, w < (1 << 32)), WORD(*[BYTE(w, j) for j in range(4)]) == w), patterns=[BYTE(w, 0)])); c.pre.st.fact(And(*[BYTE(IntVal(0), j) == IntVal(0) for j in range(4)])); return []
def alen(c): return c.pre(AL, typ(c))
def small(c): return [("array length", And(alen(c) >= 0, alen(c) < (1 << 32)))] + bytesdef(c)
def live(c, i): return [("parameter exists", And(typ(c) != 0, ctxbb(c, i) != 0))] + bytesdef(c)
def szis(c, n): return [("size", c.pre(PSIZE, typ(c)) == n)]
def word_at(c, m, off, n): return WORD(*[at(c, m, off + k) if k < n else IntVal(0) for k in range(4)])
def holds(c, m, off, w, n): return And(*[at(c, m, off + k) == BYTE(w, k) for k in range(n)])
def outside(c, m, m2, a, b):
    """bytes out of [a, b) are kept"""
    j = qv(c); return And(vlen(c, m2) == vlen(c, m), ForAll([j], Implies(Not(And(a <= j, j < b)), at(c, m2, j) == at(c, m, j)), patterns=pt(at(c, m2, j))))
def set1(c, n, k):
    t = typ(c); ok = TOK(t, c.v(0), rawof(c, 2), k); w = TOW(t, c.v(0), rawof(c, 2), k); m, m2, off = mem0(c, 2), mem1(c, 2), c.v(1)
    return [("accepted exactly when legal", c.retv == ok), ("a refused write leaves the settings memory unchanged", Implies(Not(ok), m2 == m)), ("an accepted write stores the value in the item's bytes", Implies(ok, holds(c, m2, off, w, n))), ("and changes nothing else", Implies(ok, outside(c, m, m2, off, off + n)))]
for n in (1, 2, 4):
    for ct, k in KINDS:
        C(A_ + "doSet", props="C22", sig="doSet<" + ct, pre=lambda c, n=n: live(c, 2) + szis(c, n), post=lambda c, n=n, k=k: set1(c, n, k), mods=lambda c: [(BBF, ctxbb(c, 2))], **K_()).label += " of %d bytes" % n
        C(A_ + "doGet", props="C22", sig="doGet<" + ct, pre=lambda c, n=n: live(c, 2) + szis(c, n), post=lambda c, n=n, k=k: (lambda w: [("reads exactly the item's bytes", And(c.retv == FOK(typ(c), w, rawof(c, 2), k), Implies(c.retv, c.vo(0) == FRV(typ(c), w, rawof(c, 2), k, c.vo(0).sort()))))])(word_at(c, mem0(c, 2), c.v(1), n)), **K_()).label += " of %d bytes" % n
# ---- the items of an array
def inmem(c, i, off, n): return [("the array lies inside the memory", And(off >= 0, off + alen(c) * n <= vlen(c, mem0(c, i)), vlen(c, mem0(c, i)) < (1 << 40)))]
def texts(c):
    S_ = c.S.str_sort(); x = Const("txt!s", S_); f = uf("concat", S_, S_, S_); e = c.eng.lit("")
    c.pre.st.fact(ForAll([x], f(e, x) == x, patterns=[f(e, x)])); return []
def stored(c, m2, off, cnt, vals, raw, n, k, s0=0):
    """items s0.. of the array hold the words of the values"""
    j = qv(c); x = at(c, vals, j); t = typ(c)
    return ForAll([j], Implies(And(0 <= j, j < cnt), And(TOK(t, x, raw, k), holds(c, m2, off + (s0 + j) * n, TOW(t, x, raw, k), n))), patterns=pt(x))
def delims(c): return c.eng.concat(Const("glob!Tokenizer::defaultDelimiters", c.S.str_sort()), c.eng.lit(","))
def memst(c, L, i):
    bb = ctxbb(c, i); E = L.eng; return lambda st: Select(E.harr(st, E.fname(BBF)), bb)
def setloop(n, ci, offf, startf, valsf, k):
    def f(L):
        c = L.eng.ucx; out = []; mst = memst(c, L, ci); off = offf(c); s0 = startf(c); raw = rawof(c, ci); vals = valsf(c); m = mem0(c, ci)
        for kn, kf in L.cursors():
            for cid, iv in L.ivars():
                if iv(L.hv).sort() == INT: out.append(("place of the item", lambda st, iv=iv, kf=kf: iv(st) == off + (s0 + kf(st)) * n))
            out.append(("within the values", lambda st, kf=kf: And(0 <= kf(st), kf(st) <= vlen(c, vals))))
            out.append(("other bytes kept so far", lambda st, kf=kf: outside(c, m, mst(st), off + s0 * n, off + (s0 + kf(st)) * n)))
            out.append(("items stored so far", lambda st, kf=kf: stored(c, mst(st), off, kf(st), vals, raw, n, k, s0)))
        return out
    return f
def allacc(c, vals, raw, k): j = qv(c); return ForAll([j], Implies(And(0 <= j, j < vlen(c, vals)), TOK(typ(c), at(c, vals, j), raw, k)), patterns=pt(at(c, vals, j)))
def svpost(n):
    def f(c):
        ps = pieces(c.S, c.v(2), delims(c), BoolVal(True)); off, s0, raw = c.v(1), c.v(0), rawof(c, 3); m, m2 = mem0(c, 3), mem1(c, 3); fit = vlen(c, ps) + s0 <= alen(c)
        return [("accepted exactly when the values fit and each is legal", c.retv == And(fit, allacc(c, ps, raw, "text"))), ("too many values change nothing", Implies(Not(fit), m2 == m)),
                ("each value is stored in its item", Implies(c.retv, stored(c, m2, off, vlen(c, ps), ps, raw, n, "text", s0))),
                ("nothing out of the items given changes", Implies(fit, outside(c, m, m2, off + s0 * n, off + (s0 + vlen(c, ps)) * n)))]
    return f
O64 = lambda c: c.pre(OFF, c.this)
for n in (1, 2, 4):
    C(A_ + "setValues", props="C22", sig="setValues(unsigned long", pre=lambda c, n=n: live(c, 3) + szis(c, n) + small(c) + inmem(c, 3, c.v(1), n) + [("a place in the array", And(c.v(0) >= 0, c.v(0) <= alen(c)))],
      post=svpost(n), loops=setloop(n, 3, lambda c: c.v(1), lambda c: c.v(0), lambda c: pieces(c.S, c.v(2), delims(c), BoolVal(True)), "text"), mods=lambda c: [(BBF, ctxbb(c, 3))], **K_()).label += " of %d bytes" % n
    for ct, k in KINDS:
        def vpost(c, n=n, k=k):
            v = c.v(0); off, raw = O64(c), rawof(c, 1); m, m2 = mem0(c, 1), mem1(c, 1)
            return [("accepted exactly when each value is legal", c.retv == allacc(c, v, raw, k)), ("each value is stored in its item", Implies(c.retv, stored(c, m2, off, alen(c), v, raw, n, k))), ("nothing out of the array changes", outside(c, m, m2, off, off + alen(c) * n))]
        C(A_ + "setValues", props="C22", sig="setValues<" + ct, pre=lambda c, n=n: live(c, 1) + szis(c, n) + small(c) + inmem(c, 1, O64(c), n) + [("one value for each item", vlen(c, c.v(0)) == alen(c))],
          post=vpost, loops=setloop(n, 1, O64, lambda c: 0, lambda c: c.v(0), k), mods=lambda c: [(BBF, ctxbb(c, 1))], **K_()).label += " of %d bytes" % n
# ---- reading
def got(c, m, off, raw, i, n, k, s): w = word_at(c, m, off + i * n, n); return FOK(typ(c), w, raw, k), FRV(typ(c), w, raw, k, s)
def allgot(c, m, off, raw, cnt, n, k, v, s):
    j = qv(c); ok, x = got(c, m, off, raw, j, n, k, s); return ForAll([j], Implies(And(0 <= j, j < cnt), And(ok, at(c, v, j) == x)), patterns=pt(at(c, v, j)))
def getloop(n, k):
    def f(L):
        c = L.eng.ucx; out = []; off, raw = O64(c), rawof(c, 1); m = mem0(c, 1); vs = c.a[0]; E = L.eng
        for kn, kf in L.cursors():
            for cid, iv in L.ivars():
                if iv(L.hv).sort() == INT: out.append(("place of the item", lambda st, iv=iv, kf=kf: iv(st) == off + kf(st) * n))
            out.append(("one value for each item read", lambda st, kf=kf: And(0 <= kf(st), kf(st) <= alen(c), vlen(c, E.load(st, vs)) == kf(st))))
            out.append(("each is its item", lambda st, kf=kf: allgot(c, m, off, raw, kf(st), n, k, E.load(st, vs), es(c, E.load(st, vs)))))
        return out
    return f
def es(c, v): return varr(c, v).sort().range()
def vg(n, k):
    def f(c):
        v2 = c.vo(0); off, raw = O64(c), rawof(c, 1); m = mem0(c, 1); j = qv(c); ok, x = got(c, m, off, raw, j, n, k, es(c, v2))
        return [("read exactly when every item can be", c.retv == ForAll([j], Implies(And(0 <= j, j < alen(c)), ok))), ("one value for each item, in order", Implies(c.retv, And(vlen(c, v2) == alen(c), allgot(c, m, off, raw, alen(c), n, k, v2, es(c, v2)))))]
    return f
def JV(c, n, off, m, raw, t):
    """the items' texts separated by blanks, by definition"""
    S_ = c.S.str_sort(); f = uf("items_text_%d" % n, m.sort(), INT, z3.BoolSort(), INT, INT, S_); i = Const("items!i", INT); sp = c.eng.lit(" "); w = word_at(c, m, off + i * n, n); x = FRVT(t, w, raw, c.eng.lit("")); cat = uf("concat", S_, S_, S_)
    c.pre.st.fact(And(f(m, off, raw, t, 0) == c.eng.lit(""), ForAll([i], Implies(i >= 0, f(m, off, raw, t, i + 1) == If(i == 0, x, cat(cat(f(m, off, raw, t, i), sp), x))), patterns=[x])))
    return lambda k: f(m, off, raw, t, k)
def textloop(n):
    def f(L):
        c = L.eng.ucx; out = []; off, raw = c.v(0), rawof(c, 1); m = mem0(c, 1); J = JV(c, n, off, m, raw, typ(c)); S_ = c.S.str_sort()
        for kn, kf in L.cursors():
            out.append(("within the items", lambda st, kf=kf: And(0 <= kf(st), kf(st) <= alen(c))))
            for cid, iv in L.ivars():
                s = iv(L.hv).sort()
                if s == INT: out.append(("place of the item", lambda st, iv=iv, kf=kf: iv(st) == off + kf(st) * n))
                if s == S_: out.append(("text so far", lambda st, iv=iv, kf=kf: iv(st) == J(kf(st))))
                if s == z3.BoolSort(): out.append(("first", lambda st, iv=iv, kf=kf: iv(st) == (kf(st) == 0)))
        return out
    return f
def jpre(c, n): JV(c, n, c.v(0), mem0(c, 1), rawof(c, 1), typ(c)); return texts(c)
for n in (1, 2, 4):
    for ct, k in KINDS:
        C(A_ + "getValues", props="C22", sig="getValues<" + ct, pre=lambda c, n=n: live(c, 1) + szis(c, n) + small(c) + inmem(c, 1, O64(c), n), post=vg(n, k), loops=getloop(n, k), **K_()).label += " of %d bytes" % n
    C(A_ + "getValues", props="C22", sig="getValues(unsigned long", pre=lambda c, n=n: live(c, 1) + szis(c, n) + small(c) + inmem(c, 1, c.v(0), n) + jpre(c, n), post=lambda c, n=n: [("the texts of the items, in order, separated by blanks", c.retv == JV(c, n, c.v(0), mem0(c, 1), rawof(c, 1), typ(c))(alen(c)))], loops=textloop(n), **K_()).label += " of %d bytes" % n
# ---- which item is meant
import c18
IX, IT_ = c18.IX, c18.IT_
NOIDX = (1 << 64) - 1
def idx(c, V_):
    nv = c.a[0].r if hasattr(c.a[0], "r") else c.v(0); it, i = V_(IT_, nv), V_(IX, nv); s = at(c, it, i); v = valT(c, "u64", s, INT)
    return i < vlen(c, it), And(okT(c, "u64", s), v < alen(c), i + 1 >= vlen(c, it)), v
def gipost(c):
    some, ok, v = idx(c, c.pre); r = c.vo(1)
    return [("nothing more in the path: the whole array", Implies(Not(some), And(c.retv, r == NOIDX))), ("accepted exactly when it is one number below the length, and the last of the path", Implies(some, c.retv == ok)), ("the number given", Implies(And(some, c.retv), r == v))]
def gipre(c): nv = c.a[0].r if hasattr(c.a[0], "r") else c.v(0); return [("parameter exists", typ(c) != 0), ("array length", And(alen(c) > 0, alen(c) < (1 << 32))), ("a position in the path", And(nv != 0, c.pre(IX, nv) >= 0, c.pre(IX, nv) <= vlen(c, c.pre(IT_, nv))))]
C(A_ + "getIndex", props="C22", pre=gipre, post=gipost, mods=lambda c: [(IX, c.a[0].r if hasattr(c.a[0], "r") else c.v(0))], **I0)
GHOSTS["i_set"] = INT; GHOSTS["i_got"] = INT; GHOSTS["i_ok"] = BOOL; GHOSTS["i_text"] = z3.DeclareSort("Str") if False else INT
def iop(fn):
    n = c16.simple(fn)
    if n in ("setValues", "sync"): return "effect"
    if n in ("getValues", "doGetValue"): return "reader"
    if n.startswith("append"): return "reader"
    return None
def icall(E, st, fn, this, args, kind):
    n = c16.simple(fn); u = E.ucx
    if n not in ("setValues", "getValues", "doGetValue", "sync"): return
    some, ok, v = idx(u, u.pre); off = u.pre(OFF, u.this) - u.pre(BASEO, ctxr(u, 3)); E.oblige(st, Or(Not(some), ok), "nothing is accessed on a wrong index", "guard"); val = lambda i: E.load(st, args[i]) if isinstance(args[i], Loc) else args[i]
    E.oblige(st, this == u.this, "the parameter itself", "guard")
    if n == "setValues":
        st.ghost["i_set"] = E.gh(st, "i_set") + 1; E.oblige(st, And(u.v(2), val(0) == If(some, v, IntVal(0)), val(1) == off, val(2) == u.v(1)), "the values are stored from the item meant on, at the place of the parameter", "guard")
    if n == "getValues": st.ghost["i_got"] = E.gh(st, "i_got") + 1; E.oblige(st, And(Not(u.v(2)), Not(some), val(0) == off), "the whole array is read at the place of the parameter", "guard")
    if n == "doGetValue": st.ghost["i_got"] = E.gh(st, "i_got") + 1; E.oblige(st, And(Not(u.v(2)), some, val(1) == off + v * u.pre(PSIZE, typ(u))), "the item meant is read at its place", "guard")
def iret(E, st, fn, this, args):
    if c16.simple(fn) in ("setValues", "sync"):
        r = symex.fresh("ok", BOOL); st.ghost["i_ok"] = And(E.gh(st, "i_ok"), r); return r
    return None
def ipost(c):
    some, ok, v = idx(c, c.pre); legal = Or(Not(some), ok); g = c.post.g
    return [("a wrong index is refused", Implies(Not(legal), Not(c.retv))), ("a write is done once, when the index is right", g("i_set") == If(And(legal, c.v(2)), IntVal(1), IntVal(0))), ("a read is done once, when the index is right", g("i_got") == If(And(legal, Not(c.v(2))), IntVal(1), IntVal(0))), ("success exactly when everything succeeded", c.retv == And(legal, g("i_ok")))]
C(A_ + "accessValue", props="C22", pre=lambda c: gipre(c) + [("none yet", And(c.pre.g("i_set") == 0, c.pre.g("i_got") == 0, c.pre.g("i_ok"))), ("place", And(c.pre(OFF, c.this) >= c.pre(BASEO, ctxr(c, 3)), c.pre(BASEO, ctxr(c, 3)) >= 0, c.pre(OFF, c.this) < (1 << 40), Or(*[c.pre(PSIZE, typ(c)) == n for n in (1, 2, 4)])))], post=ipost, opts=dict(special=True, opaque=iop, oncall=icall, opret=iret, noframe=True), **I0)
# ---- the rest of the accesses
def dop(fn): return "effect" if c16.simple(fn) in ("setValues", "getValues") else None
def dcall(E, st, fn, this, args, kind):
    u = E.ucx; val = lambda i: E.load(st, args[i]) if isinstance(args[i], Loc) else args[i]; st.ghost["i_set"] = E.gh(st, "i_set") + 1
    if c16.simple(fn) == "setValues": E.oblige(st, And(this == u.this, val(0) == 0, val(1) == u.v(1), val(2) == u.v(0)), "all the values are stored from the first item on", "guard")
    else: E.oblige(st, And(this == u.this, val(0) == u.v(1)), "all the items are read", "guard")
def dret(E, st, fn, this, args):
    if c16.simple(fn) == "setValues": r = symex.fresh("ok", BOOL); st.ghost["i_ok"] = r; return r
    r = symex.fresh("text", E.S.str_sort()); E.gottext = r; return r
DO = dict(special=True, opaque=dop, oncall=dcall, opret=dret, noframe=True)
one = [("once", lambda c: c.post.g("i_set") == 1)]
C(A_ + "doSetValue", props="C22", pre=lambda c: [("none yet", c.pre.g("i_set") == 0)], post=lambda c: [("done once, with that outcome", And(c.post.g("i_set") == 1, c.retv == c.post.g("i_ok")))], opts=DO, **I0)
C(A_ + "doGetValue", props="C22", pre=lambda c: [("none yet", c.pre.g("i_set") == 0)], post=lambda c: [("done once, with that text", And(c.post.g("i_set") == 1, c.vo(0) == c.eng.gottext))], opts=DO, **I0)
DEF = lambda c: uf("default_of", INT, INT)(typ(c))
C("CParameterType::getDefaultValue", verify=False, pure=True, fnval=lambda c: uf("default_of", INT, c.S.sort(c.fn.ret))(c.this), opts=dict(why="a constant of each type", only={"C22", "C27"}))
def defloop(n):
    def f(L):
        c = L.eng.ucx; out = []; mst = memst(c, L, 0); off = O64(c); m = mem0(c, 0); w = DEF(c)
        for kn, kf in L.cursors():
            for cid, iv in L.ivars():
                if iv(L.hv).sort() == INT: out.append(("place of the item", lambda st, iv=iv, kf=kf: iv(st) == off + kf(st) * n))
            out.append(("within the items", lambda st, kf=kf: And(0 <= kf(st), kf(st) <= alen(c))))
            out.append(("other bytes kept so far", lambda st, kf=kf: outside(c, m, mst(st), off, off + kf(st) * n)))
            out.append(("items stored so far", lambda st, kf=kf: alldef(c, mst(st), kf(st), n)))
        return out
    return f
def alldef(c, m2, cnt, n): j = qv(c); x = uf("item_no", INT, BOOL)(j); return ForAll([j], Implies(And(0 <= j, j < cnt), holds(c, m2, O64(c) + j * n, DEF(c), n)))
for n in (1, 2, 4):
    C(A_ + "setDefaultValues", props="C22", pre=lambda c, n=n: live(c, 0) + szis(c, n) + small(c) + inmem(c, 0, O64(c), n), post=lambda c, n=n: [("every item holds the default value", alldef(c, mem1(c, 0), alen(c), n)), ("nothing out of the array changes", outside(c, mem0(c, 0), mem1(c, 0), O64(c), O64(c) + alen(c) * n))],
      loops=defloop(n), mods=lambda c: [(BBF, ctxbb(c, 0))], **K_()).label += " of %d bytes" % n
# ---- string parameters
MAXL = "CStringParameterType::_maxLength"
SV = dict(mode="bv", strmode="vec")
SO = dict(asserts="stop")
def nonul(c, s): j = qv(c); return ForAll([j], Implies(lt(c, j, vlen(c, s)), at(c, s, j) != BitVecVal(0, 8)), patterns=pt(at(c, s, j)))
def spre(c): t = typ(c); return [("parameter exists", And(t != 0, ctxbb(c, 2) != 0)), ("length", ULT(c.pre(MAXL, t), BitVecVal(1 << 40, 64)))]
def sput(c):
    s, off = c.v(0), c.v(1); n = vlen(c, s); ok = And(ULE(n, c.pre(MAXL, typ(c))), nonul(c, s)); m, m2 = mem0(c, 2), mem1(c, 2); j = qv(c, "j")
    return [("accepted exactly up to the maximum length, without null characters", c.retv == ok), ("a refused text changes nothing", Implies(Not(c.retv), m2 == m)),
            ("the text and its end are stored", Implies(c.retv, And(ForAll([j], Implies(lt(c, j, n), at(c, m2, off + j) == at(c, s, j)), patterns=pt(at(c, s, j))), at(c, m2, off + n) == BitVecVal(0, 8)))),
            ("nothing out of the parameter changes", And(vlen(c, m2) == vlen(c, m), ForAll([j], Implies(Not(And(ULE(off, j), ULE(j - off, c.pre(MAXL, typ(c))))), at(c, m2, j) == at(c, m, j)), patterns=pt(at(c, m2, j)))))]
C("CStringParameter::doSetValue", props="C22", pre=spre, post=sput, mods=lambda c: [(BBF, ctxbb(c, 2))], opts=SO, **SV)
def sgot(c):
    m = mem0(c, 2); off = c.v(1); s = c.vo(0); j = qv(c, "j"); n = vlen(c, s)
    return [("the text stored at the place, up to its end", And(ForAll([j], Implies(lt(c, j, n), And(at(c, s, j) == at(c, m, off + j), at(c, m, off + j) != BitVecVal(0, 8))), patterns=pt(at(c, s, j))), at(c, m, off + n) == BitVecVal(0, 8)))]
C("CStringParameter::doGetValue", props="C22", pre=spre, post=sgot, opts=SO, **SV)
C("CStringParameter::getSize", props="C22", pre=lambda c: [("parameter exists", typ(c) != 0)], post=lambda c: [("one more than the maximum length", c.retv == c.pre(MAXL, typ(c)) + 1)], opts=dict(SO, only={"C22"}), mode="bv")
@lemma("C22", "a text without null characters reads back unchanged")
def rts(P):
    A8 = z3.ArraySort(z3.IntSort(), z3.BitVecSort(8)); m, s, t = [Const(x, A8) for x in "mst"]; n, l = z3.Ints("n l"); j = Int("j"); z = BitVecVal(0, 8)
    hyps = [n >= 0, l >= 0, ForAll([j], Implies(And(0 <= j, j < n), And(Select(m, j) == Select(s, j), Select(s, j) != z))), Select(m, n) == z,
            ForAll([j], Implies(And(0 <= j, j < l), And(Select(t, j) == Select(m, j), Select(m, j) != z))), Select(m, l) == z]
    k = Int("k"); return hyps, And(l == n, Implies(And(0 <= k, k < n), Select(t, k) == Select(s, k)))
