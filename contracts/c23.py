"""C23: messages of the remote protocol."""
from base import *
import c16, symex
MD, IXF, IDF = "CMessage::mData", "CMessage::_uiIndex", "CMessage::_ucMsgId"
INT, BOOL = z3.IntSort(), z3.BoolSort()
def B8(v): return If(v < 0, v + 256, v) if z3.is_int(v) else v          # a char as the byte it is
def data(c): return c.pre(MD, c.this)
def data2(c): return c.post(MD, c.this)
def ix(c): return c.pre(IXF, c.this)
def ix2(c): return c.post(IXF, c.this)
def room(c, n): return And(le(c, ix(c), vlen(c, data(c))), le(c, n, vlen(c, data(c)) - ix(c)), le(c, z0(c), ix(c)))
def shape(c): return [("the index lies inside the message", le(c, ix(c), vlen(c, data(c))))]
L32 = 1 << 32
BV = dict(mode="bv", strmode="vec", opts=dict(bounds=True))
BVN = dict(mode="bv", strmode="vec", opts=dict(bounds=True, nombqi=True))
C("CMessage::isValidAccess", props="C23", pre=lambda c: [("an index in the message", le(c, c.v(0), vlen(c, data(c)))), ("a size below 2^62", lt(c, c.v(1), sz(c, 1 << 62)))],
  fnval=lambda c: le(c, c.v(1), vlen(c, data(c)) - c.v(0)), **BV)
def srcfits(c):
    a = c.a[0]
    if symex.isz(a): return [("source holds the bytes", le(c, c.v(1), vlen(c, a)))]
    n = bufbytes(c, c.pre, 0); return [("source holds the bytes", le(c, c.v(1), sz(c, n)))] if n is not None else [("source holds the bytes", le(c, c.v(1), vlen(c, c.pre.loc(c.a[0].loc)) - c.a[0].i))]
def splice(c, off, n, f):
    a, b = data(c), data2(c); j = qv(c, "j")
    return And(vlen(c, b) == vlen(c, a), ForAll([j], at(c, b, j) == If(And(le(c, off, j), lt(c, j, off + n)), f(j - off), at(c, a, j)), patterns=[at(c, b, j)] if okpat(at(c, b, j)) else []))
C("CMessage::writeData", props="C23", pre=lambda c: shape(c) + srcfits(c) + [("room is left", room(c, c.v(1)))],
  post=lambda c: [("exactly the next bytes of the message are written", splice(c, ix(c), c.v(1), lambda k: B8(bufbyte(c, c.pre, 0, k)))), ("the index moves past them", ix2(c) == ix(c) + c.v(1))], mods=lambda c: [(MD, c.this), (IXF, c.this)], **BV)
def rdpost(c):
    n = c.v(1); ok = room(c, n); m = data(c)
    return [("refused exactly when the message is too short", c.retv == ok), ("a refusal reads nothing", Implies(Not(ok), And(ix2(c) == ix(c), bufall(c, 0, lambda k, b: b == bufbyte(c, c.pre, 0, k.as_long() if z3.is_bv_value(k) or z3.is_int_value(k) else k), c.post)))),
            ("the index moves past the bytes", Implies(ok, ix2(c) == ix(c) + n)),
            ("the destination receives exactly the next bytes", Implies(ok, bufall(c, 0, lambda k, b: b == If(lt(c, k, n), at(c, m, ix(c) + k), bufbyte(c, c.pre, 0, k.as_long() if z3.is_bv_value(k) or z3.is_int_value(k) else k)), c.post)))]
C("CMessage::readData", props="C23", pre=lambda c: shape(c) + srcfits(c) + [("a size below 2^62", lt(c, c.v(1), sz(c, 1 << 62)))], post=rdpost, mods=lambda c: [(IXF, c.this)], **BV)
# the meaning of the bytes of a message: the 32 bit word at a place, the text of n bytes from a place
def WRD(c, m, p):
    if c.eng.bv: return z3.ZeroExt(32, z3.Concat(*[at(c, m, p + k) for k in (3, 2, 1, 0)]))
    return uf("word_in", m.sort(), INT, INT)(m, p)
def istext(c, m, p, n, s):
    if c.S.strmode == "vec": j = qv(c, "j"); return And(vlen(c, s) == n, ForAll([j], Implies(lt(c, j, n), B8(at(c, s, j)) == at(c, m, p + j)), patterns=[at(c, s, j)] if okpat(at(c, s, j)) else []))
    return s == TXT(c, m, p, n)
def TXT(c, m, p, n): return uf("text_in", m.sort(), INT, INT, c.S.str_sort())(m, p, n)
def slen(c, s): return vlen(c, s) if c.S.strmode == "vec" else c.eng.strlen(c.cur if hasattr(c, "cur") else c.pre.st, s)
def kept(c, m, m2, p):
    """what lies before p keeps its meaning"""
    if c.eng.bv: j = qv(c, "j"); return And(vlen(c, m2) == vlen(c, m), ForAll([j], Implies(lt(c, j, p), at(c, m2, j) == at(c, m, j)), patterns=[at(c, m2, j)] if okpat(at(c, m2, j)) else []))
    a, n = qv(c, "a"), qv(c, "n"); return And(vlen(c, m2) == vlen(c, m), ForAll([a], Implies(And(0 <= a, a + 4 <= p), WRD(c, m2, a) == WRD(c, m, a)), patterns=[WRD(c, m2, a)]), ForAll([a, n], Implies(And(0 <= a, 0 <= n, a + n <= p), TXT(c, m2, a, n) == TXT(c, m, a, n)), patterns=[TXT(c, m2, a, n)]))
def wspost(c):
    s, m, m2 = c.v(0), data(c), data2(c); n = slen(c, s); i = ix(c)
    return [("the length comes first", WRD(c, m2, i) == n), ("then the text", istext(c, m2, i + 4, n, s)), ("what was written before is kept", kept(c, m, m2, i)), ("the index moves past both", ix2(c) == i + 4 + n)]
C("CMessage::writeString", props="C23", pre=lambda c: shape(c) + [("a text below 4 GiB", lt(c, slen(c, c.v(0)), sz(c, L32))), ("room is left", room(c, slen(c, c.v(0)) + 4))], post=wspost, mods=lambda c: [(MD, c.this), (IXF, c.this)], **BV)
def strok(c, m, p): N = vlen(c, m); w = WRD(c, m, p); return And(le(c, p, N), le(c, sz(c, 4), N - p), le(c, w, N - p - 4))
def rspost(c):
    s2, m, i = c.vo(0), data(c), ix(c); w = WRD(c, m, i); ok = strok(c, m, i)
    return [("refused exactly when the announced text does not lie in the message", c.retv == ok), ("the text announced", Implies(ok, istext(c, m, i + 4, w, s2))), ("the index moves past it", Implies(ok, ix2(c) == i + 4 + w)), ("the index stays in the message", And(le(c, i, ix2(c)), le(c, ix2(c), vlen(c, m))))]
C("CMessage::readString", props="C23", pre=shape, post=rspost, mods=lambda c: [(IXF, c.this)], **BV)
C("CMessage::getStringSize", props="C23", fnval=lambda c: slen(c, c.v(0)) + 4, **BV)
C("CMessage::getRemainingDataSize", props="C23", pre=shape, fnval=lambda c: vlen(c, data(c)) - ix(c), mode="bv")
C("CMessage::allocateData", props="C23", pre=lambda c: [("a size below 2^40", lt(c, c.v(0), sz(c, 1 << 40)))], post=lambda c: [("the size asked for", vlen(c, data2(c)) == c.v(0)), ("from the start", ix2(c) == z0(c)), ("no byte of a previous message is left", forall(c, lambda k: Implies(lt(c, k, c.v(0)), at(c, data2(c), k) == (BitVecVal(0, 8) if c.eng.bv else 0))))], mods=lambda c: [(MD, c.this), (IXF, c.this)], mode="bv")
# ---- blanks around a word
def isblank(c, x): return Or(*[x == (ord(k) if z3.is_int(x) else BitVecVal(ord(k), 8)) for k in " \t\n\v\f\r"])
def trpost(c):
    s, r = c.v(0), c.retv; n, m = vlen(c, s), vlen(c, r); p = Const("trim!first", c.S.SZ); j = qv(c, "j"); k = qv(c, "k"); inner = lambda x: at(c, s, x)
    first = And(0 <= p, p < n, Not(isblank(c, inner(p))), ForAll([k], Implies(And(0 <= k, k < p), isblank(c, inner(k))), patterns=[inner(k)]))
    return [("a word of blanks is emptied", Implies(ForAll([k], Implies(And(0 <= k, k < n), isblank(c, inner(k))), patterns=[inner(k)]), m == 0)),
            ("the trimmed word ends with no blank and with the last character which is none", ForAll([p], Implies(first, And(m > 0, m <= n - p, Not(isblank(c, inner(p + m - 1))), ForAll([k], Implies(And(p + m <= k, k < n), isblank(c, inner(k)))))))),
            ("nothing is removed but at the ends", ForAll([p], Implies(first, ForAll([j], Implies(And(0 <= j, j < m), at(c, r, j) == inner(p + j))))))]
def TR(c, s): return uf("trimmed", s.sort(), s.sort())(s)
C("CRequestMessage::trim", props="C23", post=lambda c: trpost(c) if c.S.strmode == "vec" else [("", c.retv == TR(c, c.v(0)))], mode="int", strmode="vec")
# ---- requests and answers: text by text
I0 = dict(mode="int")
CMDF, ARGF, ANSF = "CRequestMessage::_strCommand", "CRequestMessage::_argumentVector", "CAnswerMessage::_strAnswer"
def SL(c, s): return slen(c, s)
def PLACE(c, args, cmd):
    """place of the k-th text in the message, by definition: each is its length word then its characters"""
    f = uf("place_of_text", args.sort(), cmd.sort(), INT, INT); i = Const("place!i", INT); x = at(c, args, i)
    c.pre.st.fact(And(f(args, cmd, 0) == 0, f(args, cmd, 1) == 4 + SL(c, cmd), ForAll([i], Implies(And(0 <= i, i < vlen(c, args)), And(f(args, cmd, i + 2) == f(args, cmd, i + 1) + 4 + SL(c, x), f(args, cmd, i + 2) > f(args, cmd, i + 1))), patterns=[x])))
    return lambda k: f(args, cmd, k)
def rq(c): return c.pre(ARGF, c.this), c.pre(CMDF, c.this)
def texts32(c):
    a, s = rq(c); i = qv(c); f = PLACE(c, a, s); return [("texts below 4 GiB", And(SL(c, s) < L32, ForAll([i], Implies(And(0 <= i, i < vlen(c, a)), And(SL(c, at(c, a, i)) >= 0, SL(c, at(c, a, i)) < L32)), patterns=[at(c, a, i)])))]
def mono(c):
    """places grow: consequence of their definition by induction"""
    a, s = rq(c); f = PLACE(c, a, s); i = qv(c); return [("places lie before the end", And(f(vlen(c, a) + 1) < (1 << 40), ForAll([i], Implies(And(0 <= i, i <= vlen(c, a)), f(i + 1) <= f(vlen(c, a) + 1)), patterns=[f(i + 1)]), ForAll([i], Implies(And(0 <= i, i < vlen(c, a)), f(i + 2) <= f(vlen(c, a) + 1)), patterns=[at(c, a, i)]),
        (lambda k: ForAll([i, k], Implies(And(0 <= i, i < k, k <= vlen(c, a)), And(f(1) <= f(k + 1), f(i + 2) <= f(k + 1)))))(qv(c))))]
def sizeloop(L):
    c = L.eng.ucx; a, s = rq(c); f = PLACE(c, a, s); out = []
    for ci, iv in L.ivars():
        for cj, jv in L.ivars():
            if ci != cj and iv(L.hv).sort() == INT and jv(L.hv).sort() == INT: out.append(("size so far", lambda st, iv=iv, jv=jv: And(0 <= jv(st), jv(st) <= vlen(c, a), iv(st) == f(jv(st) + 1))))
    return out
C("CRequestMessage::getDataSize", props="C23", pre=lambda c: texts32(c) + mono(c), post=lambda c: [("room for each text and its length", c.retv == PLACE(c, *rq(c))(vlen(c, rq(c)[0]) + 1))], loops=sizeloop, **I0)
def holdsat(c, m, p, s): return And(WRD(c, m, p) == SL(c, s), TXT(c, m, p + 4, SL(c, s)) == s)
def laid(c, m, k):
    """the first k texts are laid in the message"""
    a, s = rq(c); f = PLACE(c, a, s); i = qv(c); x = at(c, a, i)
    return And(Implies(k > 0, holdsat(c, m, 0, s)), ForAll([i], Implies(And(0 <= i, i < k - 1), holdsat(c, m, f(i + 1), x)), patterns=[x]))
def fillloop(L):
    c = L.eng.ucx; a, s = rq(c); f = PLACE(c, a, s); out = []; E = L.eng
    M = lambda st: Select(E.harr(st, MD), c.this); I = lambda st: Select(E.harr(st, IXF), c.this)
    for ci, iv in L.ivars():
        if iv(L.hv).sort() == INT: out += [("arguments so far", lambda st, iv=iv: And(0 <= iv(st), iv(st) <= vlen(c, a), I(st) == f(iv(st) + 1), vlen(c, M(st)) == vlen(c, data(c)))), ("laid so far", lambda st, iv=iv: laid(c, M(st), iv(st) + 1))]
    return out
C("CRequestMessage::fillDataToSend", props="C23", pre=lambda c: texts32(c) + mono(c) + [("exactly the room needed", And(ix(c) == 0, vlen(c, data(c)) == PLACE(c, *rq(c))(vlen(c, rq(c)[0]) + 1)))],
  post=lambda c: [("the message is full", And(vlen(c, data2(c)) == vlen(c, data(c)), ix2(c) == vlen(c, data2(c)))), ("the command then the arguments, in order", laid(c, data2(c), vlen(c, rq(c)[0]) + 1))], loops=fillloop, mods=lambda c: [(MD, c.this), (IXF, c.this)], **I0)
def READAT(c, m):
    """place of the k-th text read back, by definition"""
    f = uf("place_read", m.sort(), INT, INT); ok = uf("text_there", m.sort(), INT, BOOL); i = Const("read!i", INT)
    c.pre.st.fact(And(f(m, 0) == 0, ForAll([i], Implies(i >= 0, f(m, i + 1) == f(m, i) + 4 + WRD(c, m, f(m, i))), patterns=[f(m, i + 1)])))
    return lambda k: f(m, k)
def oktext(c, m, k): f = READAT(c, m); return And(f(k) >= 0, strok(c, m, f(k)))
def words(c, m): p = qv(c); return [("a word is not negative", ForAll([p], And(WRD(c, m, p) >= 0, WRD(c, m, p) < L32), patterns=[WRD(c, m, p)]))]
def txtat(c, m, k): f = READAT(c, m); return TXT(c, m, f(k) + 4, WRD(c, m, f(k)))
def readsofar(c, m, args, k):
    i = qv(c); return And(oktext(c, m, IntVal(0)), ForAll([i], Implies(And(0 <= i, i < k), And(oktext(c, m, i + 1), at(c, args, i) == TR(c, txtat(c, m, i + 1)))), patterns=[at(c, args, i)]))
def colloop(L):
    c = L.eng.ucx; m = data(c); f = READAT(c, m); E = L.eng; A = lambda st: Select(E.harr(st, ARGF), c.this); I = lambda st: Select(E.harr(st, IXF), c.this); K = lambda st: Select(E.harr(st, CMDF), c.this)
    return [("place of the next text", lambda st: And(I(st) == f(vlen(c, A(st)) + 1), I(st) >= 0, I(st) <= vlen(c, m), vlen(c, A(st)) >= 0)), ("texts so far", lambda st: readsofar(c, m, A(st), vlen(c, A(st)))), ("command", lambda st: K(st) == TR(c, txtat(c, m, IntVal(0))))]
def colpost(c):
    m = data(c); f = READAT(c, m); a2, s2 = c.post(ARGF, c.this), c.post(CMDF, c.this); n = vlen(c, a2)
    return [("accepted only when the texts fill the message exactly", Implies(c.retv, And(f(n + 1) == vlen(c, m), ix2(c) == vlen(c, m), readsofar(c, m, a2, n)))), ("the command is the first text, trimmed", Implies(c.retv, s2 == TR(c, txtat(c, m, IntVal(0))))),
            ("refused only when a text does not lie in the message", Implies(Not(c.retv), Or(Not(oktext(c, m, IntVal(0))), And(readsofar(c, m, a2, n), f(n + 1) < vlen(c, m), Not(oktext(c, m, n + 1))))))]
C("CRequestMessage::collectReceivedData", props="C23", pre=lambda c: words(c, data(c)) + shape(c) + [("a message just received", And(ix(c) == 0, vlen(c, c.pre(ARGF, c.this)) == 0, vlen(c, data(c)) < (1 << 40)))] + (READAT(c, data(c)) and []), post=colpost, loops=colloop, mods=lambda c: [(IXF, c.this), (CMDF, c.this), (ARGF, c.this)], **I0)
# ---- answers
C("CAnswerMessage::getDataSize", props="C23", post=lambda c: [("room for the text and its length", c.retv == SL(c, c.pre(ANSF, c.this)) + 4)], **I0)
C("CAnswerMessage::fillDataToSend", props="C23", pre=lambda c: [("exactly the room needed", And(ix(c) == 0, SL(c, c.pre(ANSF, c.this)) < L32, vlen(c, data(c)) == SL(c, c.pre(ANSF, c.this)) + 4))], post=lambda c: [("the message is full", And(vlen(c, data2(c)) == vlen(c, data(c)), ix2(c) == vlen(c, data2(c)))), ("it holds the answer", holdsat(c, data2(c), IntVal(0), c.pre(ANSF, c.this)))], mods=lambda c: [(MD, c.this), (IXF, c.this)], **I0)
C("CAnswerMessage::collectReceivedData", props="C23", pre=lambda c: words(c, data(c)) + [("a message just received", And(ix(c) == 0, vlen(c, data(c)) < (1 << 40)))], post=lambda c: [("accepted exactly when the text lies in the message", c.retv == strok(c, data(c), IntVal(0))), ("the answer is that text", Implies(c.retv, And(c.post(ANSF, c.this) == TXT(c, data(c), IntVal(4), WRD(c, data(c), IntVal(0))), ix2(c) == 4 + WRD(c, data(c), IntVal(0)))))], mods=lambda c: [(IXF, c.this), (ANSF, c.this)], **I0)
# ---- the checksum and the frame
def CKD(c, m, t):
    f = uf("checksum", m.sort(), t.sort(), c.S.SZ, t.sort()); i = Const("check!i", c.S.SZ); x = at(c, m, i); z = lambda v: v if z3.is_bv(t) else v % 256
    if not c.eng.bv: return lambda k: f(m, t, k)
    c.pre.st.fact(And(f(m, t, z0(c)) == t, ForAll([i], Implies(And(le(c, z0(c), i), lt(c, i, sz(c, 1 << 41))), f(m, t, i + 1) == z(f(m, t, i) + x)), patterns=[x])))
    return lambda k: f(m, t, k)
def idof(c, V_): return V_(IDF, c.this)
def ckloop(L):
    c = L.eng.ucx; f = CKD(c, data(c), idof(c, c.pre)); out = []
    for kn, kf in L.cursors():
        out.append(("within the data", lambda st, kf=kf: le(c, kf(st), vlen(c, data(c)))))
        for ci, iv in L.ivars():
            if iv(L.hv).sort() == idof(c, c.pre).sort() and (c.eng.bv or iv is not kf): out.append(("sum so far", lambda st, iv=iv, kf=kf: iv(st) == f(kf(st))))
    return out
C("CMessage::computeChecksum", props="C23", pre=lambda c: CKD(c, data(c), idof(c, c.pre)) and [], post=lambda c: [("the sum of the type and of every byte", c.retv == CKD(c, data(c), idof(c, c.pre))(vlen(c, data(c))))], loops=ckloop, mode="bv")
def trip(P):
    """positions: the reader finds the k-th text where the writer put it, when it does so for the texts before"""
    I = INT; f, g, W, S = [z3.Function(x, I, I) for x in ("place", "read", "word", "size")]; k, n, N = z3.Ints("k n N"); i = Int("i")
    hyps = [f(0) == 0, g(0) == 0, ForAll([i], Implies(And(0 <= i, i <= n), f(i + 1) == f(i) + 4 + S(i))), ForAll([i], Implies(i >= 0, g(i + 1) == g(i) + 4 + W(g(i)))), ForAll([i], Implies(And(0 <= i, i <= n), And(S(i) >= 0, S(i) < (1 << 32), W(f(i)) == S(i)))), N == f(n + 1)]
    return f, g, W, S, k, n, N, hyps
@lemma("C23", "a request read back has its texts at the places they were written (induction step)")
def trip1(P):
    f, g, W, S, k, n, N, hyps = trip(P); return hyps + [0 <= k, k <= n, g(k) == f(k)], And(g(k + 1) == f(k + 1), W(g(k)) == S(k))
@lemma("C23", "each text of a request lies in the message, which ends with the last one")
def trip2(P):
    f, g, W, S, k, n, N, hyps = trip(P); i = Int("j"); inc = ForAll([i], Implies(And(0 <= i, i <= n), f(i + 1) <= f(n + 1)))
    return hyps + [inc, n >= 0, ForAll([i], Implies(And(0 <= i, i <= n + 1), g(i) == f(i)))], And(g(n + 1) == N, Implies(And(0 <= k, k <= n), And(4 <= N - g(k), W(g(k)) <= N - g(k) - 4)))
@lemma("C23", "the places of the texts grow (induction step)")
def trip3(P):
    f, g, W, S, k, n, N, hyps = trip(P); j = Int("j"); return hyps + [0 <= k, k < n, ForAll([j], Implies(And(0 <= j, j < k), f(j + 1) <= f(k)))], Implies(And(0 <= j, j < k + 1), f(j + 1) <= f(k + 1))
# ---- one frame on the wire.  asio's transfers are not looked into: each moves any number of bytes up to what was asked, and moves none once one was cut short
DSZ = lambda c: uf("size_of_content", INT, INT)(c.this)
WHYV = "proved for both kinds of messages (CRequestMessage, CAnswerMessage): the abstract member is what the frame relies on"
C("CMessage::getDataSize", verify=False, fnval=DSZ, opts=dict(why=WHYV), **I0)
C("CMessage::fillDataToSend", verify=False, pre=lambda c: [("exactly the room needed", And(ix(c) == 0, vlen(c, data(c)) == DSZ(c)))], post=lambda c: [("", And(vlen(c, data2(c)) == vlen(c, data(c)), ix2(c) == vlen(c, data2(c))))], mods=lambda c: [(MD, c.this), (IXF, c.this)], opts=dict(why=WHYV), **I0)
GHOSTS["f_n"] = INT; GHOSTS["f_full"] = BOOL; GHOSTS["f_sync"] = INT; GHOSTS["f_size"] = INT; GHOSTS["f_sum"] = INT; GHOSTS["f_coll"] = BOOL; GHOSTS["f_left"] = INT
class Buf(Opaque):
    def __init__(self, loc, n, ref=None): Opaque.__init__(self, "buf"); self.loc, self.bytes, self.ref = loc, n, ref
def fop(fn):
    n = c16.simple(fn); q = fn.clsq or ""
    if q == "CMessage": return "reader" if n == "collectReceivedData" else None
    if n == "buffer": return "pure"
    if q == "Socket" or fn.n.startswith("asio::") or q.startswith("asio::"): return "reader"
    return None
def unbuf(E, st, x):
    for _ in range(4):
        if isinstance(x, Buf): return x
        if isinstance(x, LObj) or not isinstance(x, Loc): break
        x = E.load(st, x)
    raise ToolLimit("buffer not followed")
def stage(E, st): return z3.simplify(E.gh(st, "f_n") - E.ucx.pre.g("f_n")).as_long()
def curm(E, st, u): V_ = c12.StV(E, st); return V_(MD, u.this), V_(IDF, u.this), V_(IXF, u.this)
import c12
def fcall(E, st, fn, this, args, kind):
    n = c16.simple(fn); u = E.ucx
    if n == "write":
        b = unbuf(E, st, args[1]); k = stage(E, st); m, t, i = curm(E, st, u); v = E.load(st, b.loc) if b.loc is not None else None
        E.oblige(st, u.v(1), "nothing is sent when receiving", "guard")
        names = ["the synchronisation word", "the size of the type and the data", "the type", "the data", "the checksum of the type and the data"]
        want = [lambda: And(v == 0xBABE, b.bytes == 2), lambda: And(v == 1 + vlen(u, m), b.bytes == 4), lambda: And(v == t, b.bytes == 1), lambda: BoolVal(b.ref is not None), lambda: And(v == CKD(u, m, t)(vlen(u, m)), b.bytes == 1)]
        E.oblige(st, want[k]() if k < 5 and (b.loc is None) == (k == 3) else BoolVal(False), "transfer %d sends %s" % (k + 1, names[k] if k < 5 else "nothing more"), "guard")
    if n == "read":
        b = unbuf(E, st, args[1]); k = stage(E, st); E.oblige(st, Not(u.v(1)), "nothing is received when sending", "guard")
        m, t, i = curm(E, st, u)
        if k == 3: E.oblige(st, And(BoolVal(b.ref is not None), vlen(u, m) == E.gh(st, "f_size") - 1, i == 0), "the data announced is received, and no more", "guard")
        else: E.oblige(st, And(BoolVal(b.loc is not None), b.bytes == [2, 4, 1, 0, 1][k]) if k < 5 else BoolVal(False), "transfer %d is of the right size" % (k + 1), "guard")
    if n == "collectReceivedData":
        m, t, i = curm(E, st, u)
        E.oblige(st, And(Not(u.v(1)), BoolVal(stage(E, st) == 5), E.gh(st, "f_full"), E.gh(st, "f_sync") == 0xBABE, E.gh(st, "f_size") >= 1, vlen(u, m) == E.gh(st, "f_size") - 1, i == 0, E.gh(st, "f_sum") == CKD(u, m, t)(vlen(u, m))), "the content is looked at only when the frame was received in full and its word, size and checksum are right", "guard")
def fret(E, st, fn, this, args):
    n = c16.simple(fn); u = E.ucx
    if n == "buffer":
        a = args[0]
        if len(args) > 1 and not isinstance(args[1], Opaque): return Buf(a.loc, E.load(st, args[1]) if isinstance(args[1], Loc) else args[1])
        return Buf(None, None, a)
    if n in ("read", "write"):
        b = unbuf(E, st, args[1]); k = stage(E, st); r = symex.fresh("moved", INT); m, t, i = curm(E, st, u); want = b.bytes if b.bytes is not None else vlen(u, m)
        st.fact(And(r >= 0, r <= want, Implies(Not(E.gh(st, "f_full")), r == 0))); st.ghost["f_full"] = And(E.gh(st, "f_full"), r == want); st.ghost["f_n"] = E.gh(st, "f_n") + 1
        if n == "read":
            if b.loc is not None:
                x = symex.fresh("received", INT); st.fact(And(x >= 0, x < [1 << 16, 1 << 32, 256, 0, 256][k] if k < 5 else True)); E.store(st, b.loc, x)
                if k in (0, 1, 4): st.ghost[{0: "f_sync", 1: "f_size", 4: "f_sum"}[k]] = x
            else:
                a = symex.fresh("received", z3.ArraySort(INT, INT)); E.store(st, b.ref, u.S.mk(m.sort(), vlen(u, m), a))
        return r
    if n == "collectReceivedData":
        r = symex.fresh("collected", BOOL); m, t, i = curm(E, st, u); j = symex.fresh("index", INT); st.fact(And(j >= 0, j <= vlen(u, m))); h = E.harr(st, E.fname(IXF)); st.heap[E.fname(IXF)] = Store(h, u.this, j)
        st.ghost["f_coll"] = r; st.ghost["f_left"] = vlen(u, m) - j; return r
    return None
def fpost(c):
    g = c.post.g; ok = c.retv == 0; m, t = data2(c), idof(c, c.post)
    return [("success only after the five transfers", Implies(ok, g("f_n") == 5)), ("success only when every byte went through", Implies(ok, g("f_full"))), ("sending succeeds when every byte went through", Implies(And(c.v(1), g("f_n") == 5, g("f_full")), ok)),
            ("a frame is accepted only with the right word, size and checksum", Implies(And(ok, Not(c.v(1))), And(g("f_sync") == 0xBABE, g("f_size") == 1 + vlen(c, m), g("f_sum") == CKD(c, m, t)(vlen(c, m))))),
            ("and only when its content makes up the whole of it", Implies(And(ok, Not(c.v(1))), And(g("f_coll"), g("f_left") == 0))),
            ("a frame with the right word, size, checksum and content is accepted", Implies(And(Not(c.v(1)), g("f_n") == 5, g("f_full"), g("f_sync") == 0xBABE, g("f_size") >= 1, g("f_sum") == CKD(c, m, t)(vlen(c, m)), g("f_coll"), g("f_left") == 0), ok))]
def fpre(c): return [("nothing moved yet", And(c.pre.g("f_n") == 0, c.pre.g("f_full"), Not(c.pre.g("f_coll")))), ("content below 4 GiB", And(DSZ(c) >= 1, DSZ(c) < L32 - 1)), ("the index lies inside the message", And(ix(c) >= 0, ix(c) <= vlen(c, data(c))))]
C("CMessage::serialize", props="C23", pre=fpre, post=fpost, opts=dict(special=True, opaque=fop, oncall=fcall, opret=fret, noframe=True, opsys=True), **I0)
# ---- the server: one request, executed once, answered once
GHOSTS["v_state"] = INT; GHOSTS["v_msg"] = INT; GHOSTS["v_res"] = BOOL; GHOSTS["v_ans"] = INT
def vop(fn):
    n = c16.simple(fn); q = fn.clsq or ""
    if n in ("serialize", "remoteCommandProcess"): return "reader"
    if q in ("CRequestMessage", "CAnswerMessage", "Socket"): return "reader"
    return None
def vcall(E, st, fn, this, args, kind):
    n = c16.simple(fn); q = fn.clsq or ""; val = lambda i: E.load(st, args[i]) if isinstance(args[i], Loc) else args[i]; S_ = E.gh(st, "v_state")
    if n == "remoteCommandProcess": E.oblige(st, And(S_ == 1, args[0].r == E.gh(st, "v_msg")), "only the request just received in full is executed, and only once", "guard")
    if q == "CAnswerMessage" and fn.ctor: E.oblige(st, And(S_ == 2, val(1) == E.gh(st, "v_res"), val(0) == E.restext), "the answer holds the outcome of the request", "guard"); st.ghost["v_ans"] = this
    if n == "serialize": E.oblige(st, If(val(1), And(S_ == 2, this == E.gh(st, "v_ans")), S_ == 0), "a request is received only after the answer to the one before, and the answer follows it", "guard")
def vret(E, st, fn, this, args):
    n = c16.simple(fn); val = lambda i: E.load(st, args[i]) if isinstance(args[i], Loc) else args[i]
    if n == "serialize":
        r = symex.fresh("result", INT); st.fact(And(r >= 0, r <= 2)); b = val(1); st.ghost["v_state"] = If(r == 0, If(b, IntVal(0), IntVal(1)), IntVal(3)); st.ghost["v_msg"] = If(b, E.gh(st, "v_msg"), this); return r
    if n == "remoteCommandProcess":
        r = symex.fresh("done", BOOL); st.ghost["v_state"] = IntVal(2); st.ghost["v_res"] = r; E.restext = E.load(st, args[1]); return r
    return None
C("CRemoteProcessorServer::handleNewConnection", props="C23", pre=lambda c: [("nothing received yet", c.pre.g("v_state") == 0)], post=lambda c: [("ends only when a message could not be received or sent", c.post.g("v_state") == 3)], loops=lambda L: [("the request before was answered", lambda st: L.eng.gh(st, "v_state") == 0)],
  opts=dict(special=True, opaque=vop, oncall=vcall, opret=vret, noframe=True), **I0)
