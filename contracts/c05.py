"""C05: bit parameters."""
from c01 import *
BT = "CBitParameterType::"; POS, WID, MAX = BT + "_bitPos", BT + "_uiBitSize", BT + "_uiMax"
PAR = "CElement::_pParent"; BSZ = "CBitParameterBlockType::_size"
def one(): return BitVecVal(1, 64)
def full(w): return BitVecVal((1 << 64) - 1, 64)
def enc_(c, t): w = c.pre(WID, t); return z3.LShR(BitVecVal((1 << 64) - 1, 64), 64 - w)
def msk(c, t): return enc_(c, t) << c.pre(POS, t)
def bt(c, t): return [("loaded bit type: position and size", And(c.pre(WID, t) != 0, ULE(c.pre(WID, t), 64), ULE(c.pre(POS, t), 64 - c.pre(WID, t)))), ("maximum encodable", ULE(c.pre(MAX, t), enc_(c, t)))]
def inblock(c, t, n): return [("the field lies in its block", ULE(c.pre(POS, t) + c.pre(WID, t), 8 * n))]
C(BT + "getMaxEncodableValue", props="C05", pre=lambda c: bt(c, c.this)[:1], fnval=lambda c: enc_(c, c.this), **B())
C(BT + "getMask", props="C05", pre=lambda c: bt(c, c.this)[:1], fnval=lambda c: msk(c, c.this), **B())
C(BT + "merge", props="C05", pre=lambda c: bt(c, c.this)[:1], post=lambda c: [("only the field's bits come from the new data", c.retv == ((c.v(0) & ~msk(c, c.this)) | (c.v(1) & msk(c, c.this))))], **B())
def field(c, t, w): return z3.LShR(w, c.pre(POS, t)) & enc_(c, t)
def tb(c, v, ok):
    t = c.this; w = c.vo(1)
    return [("accepted exactly up to the maximum", c.retv == And(ok, ULE(v, c.pre(MAX, t)))), ("the field holds the value", Implies(c.retv, field(c, t, w) == v)),
            ("all other bits are kept", Implies(c.retv, (w & ~msk(c, t)) == (c.v(1) & ~msk(c, t)))), ("a refused value changes nothing", Implies(Not(c.retv), w == c.v(1)))]
C(BT + "toBlackboard", props="C05", sig="(unsigned long", pre=lambda c: bt(c, c.this), post=lambda c: tb(c, c.v(0), BoolVal(True)), **B())
C(BT + "toBlackboard", props="C05", sig="(const std::basic_string", pre=lambda c: bt(c, c.this), post=lambda c: tb(c, valT(c, "u64", c.v(0), z3.BitVecSort(64)), okT(c, "u64", c.v(0))), **B())
C(BT + "fromBlackboard", props="C05", sig="(unsigned int", pre=lambda c: bt(c, c.this), post=lambda c: [("the field's bits", c.vo(0) == z3.Extract(31, 0, field(c, c.this, c.v(1))))], **B())
# whole path
def tye(c, r): return c.pre(TE, r)
def blocksize(c, r): return c.pre(BSZ, tye(c, c.pre(PAR, r)))
def whole(c, r, n): return bt(c, tye(c, r)) + inblock(c, tye(c, r), n) + [("block", And(c.pre(PAR, r) != 0, tye(c, c.pre(PAR, r)) != 0, tye(c, r) != 0, blocksize(c, r) == n))]
def w64(c, m, off, n): return z3.Concat(*reversed([at(c, m, off + BitVecVal(k, 64)) if k < n else BitVecVal(0, 8) for k in range(8)]))
def isolated(c, m, m2, off, n, t):
    j = qv(c)
    return [("all other bits of the block are kept", (w64(c, m2, off, n) & ~msk(c, t)) == (w64(c, m, off, n) & ~msk(c, t))),
            ("all bytes outside the block are kept", And(vlen(c, m2) == vlen(c, m), ForAll([j], Implies(Not(And(ULE(off, j), ULT(j - off, n))), at(c, m2, j) == at(c, m, j)))))]
CB = "CBitParameter::"
for n in (1, 2, 3, 4, 8):
    def spost(c, v=None, ok=None, n=n):
        t = typ(c); m, m2 = mem0(c, 2), mem1(c, 2); off = c.v(1)
        return [("accepted exactly up to the maximum", c.retv == And(ok, ULE(v, c.pre(MAX, t)))), ("exactly the field's bits hold the value", Implies(c.retv, field(c, t, w64(c, m2, off, n)) == v)),
                ("a refused value changes nothing", Implies(Not(c.retv), m2 == m))] + isolated(c, m, m2, off, n, t)
    pre = lambda c, n=n: whole(c, c.this, n) + [("memory", ctxbb(c, 2) != 0)]
    K = dict(props="C05", pre=pre, **B(special=True)); M_ = dict(mods=lambda c: [(BBF, ctxbb(c, 2))])
    L = " in a block of %d bytes" % n
    C(CB + "doSet", sig="doSet<unsigned int>(", post=lambda c, f=spost: f(c, z3.ZeroExt(32, c.v(0)), BoolVal(True)), **K, **M_).label += L
    C(CB + "doSet", sig="doSet<std::basic_string", post=lambda c, f=spost: f(c, valT(c, "u64", c.v(0), z3.BitVecSort(64)), okT(c, "u64", c.v(0))), **K, **M_).label += L
    C(CB + "doGet", sig="doGet<unsigned int>(", post=lambda c, n=n: [("exactly the field's bits", c.vo(0) == z3.Extract(31, 0, field(c, typ(c), w64(c, mem0(c, 2), c.v(1), n))))], **K).label += L
    # configurations of a single bit parameter
    ACE, ACB = "CAreaConfiguration::_pConfigurableElement", "CAreaConfiguration::_blackboard"
    def el(c): return c.pre(ACE, c.this)
    def own(c): return c.pre.sub(ACB, c.this)
    apre = lambda c, n=n: whole(c, el(c), n) + [("memories are distinct", And(el(c) != 0, c.a[0] != 0, c.a[0] != own(c)))]
    def topost(c, n=n):
        t = tye(c, el(c)); m, m2, s = c.pre(BBF, c.a[0]), c.post(BBF, c.a[0]), c.pre(BBF, own(c)); off = c.v(1)
        return [("the field receives its saved bits", field(c, t, w64(c, m2, off, n)) == field(c, t, w64(c, s, BitVecVal(0, 64), n)))] + isolated(c, m, m2, off, n, t)
    def frpost(c, n=n):
        t = tye(c, el(c)); s = c.pre(BBF, c.a[0]); m, m2 = c.pre(BBF, own(c)), c.post(BBF, own(c)); z = BitVecVal(0, 64)
        return [("the field is saved", field(c, t, w64(c, m2, z, n)) == field(c, t, w64(c, s, c.v(1), n)))] + isolated(c, m, m2, z, n, t)
    C("CBitwiseAreaConfiguration::copyTo", props="C05", pre=apre, post=topost, mods=lambda c: [(BBF, c.a[0])], **B(special=True)).label += L
    C("CBitwiseAreaConfiguration::copyFrom", props="C05", pre=apre, post=frpost, mods=lambda c, own=own: [(BBF, own(c))], **B(special=True)).label += L
