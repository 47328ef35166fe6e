"""C01: integer parameters. The shared pieces of the parameter types are here too."""
from base import *
import re
B = lambda **o: dict(mode="bv", opts=dict(o, asserts="stop"))
RAW = "CParameterAccessContext::_bValueSpaceIsRaw"
ERRF = "utility::ErrorContext::_strError"
PSIZE = "CParameterType::_size"

def fld(c, n): return c.fn.clsq + "::" + n
def sx(c, v, w=64):
    n = v.size(); return z3.SignExt(w - n, v) if w > n else v
def zx(c, v, w=64):
    n = v.size(); return z3.ZeroExt(w - n, v) if w > n else v
def isS(c): return "<true" in c.fn.clsq
def bits(c): return int(re.search(r"<\w+, (\d+)", c.fn.clsq).group(1))
def wide(c, v, signed): return sx(c, v) if signed else zx(c, v)
def bounds(c):
    lo, hi = c.pre(fld(c, "_min"), c.this), c.pre(fld(c, "_max"), c.this)
    return wide(c, lo, isS(c)), wide(c, hi, isS(c))
def inr(c, v):
    lo, hi = bounds(c); return And(lo <= v, v <= hi)
def itype(c):
    """shape of a loaded integer type: range not empty, size as declared"""
    lo, hi = bounds(c)
    return [("range is not empty", lo <= hi), ("size in bytes", c.pre(PSIZE, c.this) == bits(c) // 8)]
TYPE = "CIntegerParameterType::"
for sg, user in (("(unsigned int, unsigned int &", False), ("(int, unsigned int &", True)):
    def post(c, user=user):
        v = wide(c, c.v(0), user)
        return [("accepted exactly when the number is in range", c.retv == inr(c, v)),
                ("the stored word is the number", Implies(c.retv, c.vo(1) == z3.Extract(31, 0, v)))]
    C(TYPE + "toBlackboard", props="C01", sig=sg, pre=itype, post=post, **B())

# conversion of texts to numbers: proved-or-assumed meaning is given by two functions of the text (see C24)
def okT(c, t, s): return uf("text_is_" + t, s.sort(), z3.BoolSort())(s)
def valT(c, t, s, sort): return uf("number_of_" + t, s.sort(), sort)(s)
CT = {"int": "i32", "unsigned int": "u32", "signed char": "i8", "unsigned char": "u8", "short": "i16", "unsigned short": "u16",
      "long": "i64", "unsigned long": "u64", "bool": "bool", "float": "f32", "double": "f64"}
for ct, t in CT.items():
    C("convertTo", sig="<%s>(" % ct, verify=False, pure=True,
      post=lambda c, t=t: [("", c.retv == okT(c, t, c.v(0)))] + ([("", Implies(c.retv, Not(Or(z3.fpIsNaN(c.vo(1)), z3.fpIsInf(c.vo(1))))))] if t in ("f32", "f64") else []) + [ ("", Implies(c.retv, c.vo(1) == valT(c, t, c.v(0), c.vo(1).sort())))],
      opts=dict(why="text to number through iostreams; exercised by the harness of C24"))
ISHEX = lambda c, s: uf("is_hexadecimal", s.sort(), z3.BoolSort())(s)
C("utility::isHexadecimal", verify=False, pure=True, fnval=lambda c: ISHEX(c, c.v(0)), opts=dict(why="prefix test on a text; exercised by the harnesses of C01 and C02"))

def strpost(c):
    s = c.v(0); b = bits(c)
    sg = {8: "i8", 16: "i16", 32: "i32"}[b]; us = "u" + sg[1:]
    srt = z3.BitVecSort(b)
    if isS(c):
        v = If(ISHEX(c, s), valT(c, us, s, srt), valT(c, sg, s, srt)); ok = If(ISHEX(c, s), okT(c, us, s), okT(c, sg, s))
    else: v = valT(c, us, s, srt); ok = okT(c, us, s)
    return [("accepted exactly when the text denotes a number of the parameter's size that is in range", c.retv == And(ok, inr(c, wide(c, v, isS(c))))),
            ("the stored word is the number", Implies(c.retv, c.vo(1) == (z3.Extract(31, 0, wide(c, v, isS(c))))))]
C(TYPE + "toBlackboard", props="C01", sig="toBlackboard(const std::basic_string", pre=itype, post=strpost, **B())
C(TYPE + "checkValueAgainstRange", props="C01", post=lambda c: [("true exactly in range", c.retv == inr(c, wide(c, c.v(1), isS(c))))], **B())

# sign extension from the parameter's size; the word read from memory is clean above that size
def sized(c): n = c.pre(PSIZE, c.this); return Or(n == 1, n == 2, n == 4)
def sext(c, v, n):
    w = v.size()
    return If(n == 1, z3.SignExt(w - 8, z3.Extract(7, 0, v)), If(n == 2, z3.SignExt(w - 16, z3.Extract(15, 0, v)), z3.SignExt(w - 32, z3.Extract(31, 0, v)) if w > 32 else v))
C("CParameterType::signExtend", props=("C01", "C02", "C04"), pre=lambda c: [("supported size", sized(c))],
  post=lambda c: [("the value of the low bytes, with their sign", c.vo(0) == sext(c, c.v(0), c.pre(PSIZE, c.this)))], **B())
def enc(c):
    n = c.pre(PSIZE, c.this); v = c.v(0); w = v.size()
    sgn = sext(c, v, n)
    low = If(n == 1, v & 0xff, If(n == 2, v & 0xffff, v & 0xffffffff))
    return [("encodable exactly when the value is kept by the parameter's size", c.retv == If(c.v(1), sgn == v, low == v))]
C("CParameterType::isEncodable", props=("C01", "C02"), sig="(unsigned int", pre=lambda c: [("supported size", sized(c))], post=enc, **B())
C("CParameterType::isEncodable", props=("C01", "C02"), sig="(unsigned long", pre=lambda c: [("supported size", sized(c))], post=enc, **B())
C("CParameterType::makeEncodable", props=("C04",), pre=lambda c: [("supported size", sized(c))],
  post=lambda c: [("keeps exactly the bits of the parameter's size", c.retv == (lambda n, v: If(n == 1, v & 0xff, If(n == 2, v & 0xffff, v)))(c.pre(PSIZE, c.this), c.v(0)))], **B())
C("CBaseIntegerParameterType::fromBlackboard", props="C01", sig="(unsigned int &", post=lambda c: [("the word itself", And(c.retv, c.vo(0) == c.v(1)))], **B())
C(TYPE + "toPlainInteger", props="C01", pre=lambda c: [("supported size", sized(c))],
  post=lambda c: [("the number stored, with its sign", c.retv == (sext(c, c.v(0), c.pre(PSIZE, c.this)) if isS(c) else c.v(0)))], **B())
C("CParameterType::getSize", props="C01", fnval=lambda c: c.pre(PSIZE, c.this), **B())

@lemma("C01", "a number in range written through the size-limited memory word reads back unchanged")
def rt(P):
    v, = z3.BitVecs("v", 64); hyps = []; goals = []
    for b in (8, 16):
        goals.append(Implies(And(v >= -(1 << (b - 1)), v < (1 << (b - 1))), z3.SignExt(64 - b, z3.Extract(b - 1, 0, v)) == v))
        goals.append(Implies(And(v >= 0, v < (1 << b)), z3.ZeroExt(64 - b, z3.Extract(b - 1, 0, v)) == v))
    return hyps, And(*goals)

# ---- whole path: from the value given by the user to the bytes of the settings memory, and back -----------------
TE = "CInstanceConfigurableElement::_pTypeElement"
BBF = "CParameterBlackboard::mBlackboard"
CTXBB = "CParameterAccessContext::_pParameterBlackboard"
def typ(c): return c.pre(TE, c.this)
def ctxbb(c, i): return c.pre(CTXBB, c.a[i].r if isinstance(c.a[i], LObj) else c.a[i])
def mem0(c, i): return c.pre(BBF, ctxbb(c, i))
def mem1(c, i): return c.post(BBF, ctxbb(c, i))
def word_at(c, m, off, n):
    """little endian word of n (1, 2 or 4) bytes at off"""
    b = [at(c, m, off + BitVecVal(k, 64)) for k in range(4)]
    return z3.Concat(*reversed([b[k] if k < n else BitVecVal(0, 8) for k in range(4)]))
def setpost(c, ok, word, n):
    """refused: memory untouched; accepted: exactly the n bytes at the offset hold the word"""
    off = c.v(1); m, m2 = mem0(c, 2), mem1(c, 2); j = qv(c)
    return [("accepted exactly when legal", c.retv == ok),
            ("a refused write leaves the settings memory unchanged", Implies(Not(ok), m2 == m)),
            ("an accepted write stores the value in the parameter's bytes", Implies(ok, word_at(c, m2, off, n) == (word if n == 4 else word & ((1 << (8 * n)) - 1)))),
            ("and changes nothing else", Implies(ok, And(vlen(c, m2) == vlen(c, m), ForAll([j], Implies(Not(And(ULE(off, j), ULT(j - off, n))), at(c, m2, j) == at(c, m, j))))))]
def tpre(c, cls, extra=None):
    t = typ(c); n = int(re.search(r", (\d+)", cls).group(1)) // 8
    w = lambda f: wide(c, c.pre(cls + "::" + f, t), "<true" in cls)
    return [("size", c.pre(PSIZE, t) == n), ("range not empty", w("_min") <= w("_max")), ("parameter exists", And(t != 0, ctxbb(c, 2) != 0))]
INTC = ["CIntegerParameterType<%s, %d>" % (s, b) for s in ("true", "false") for b in (8, 16, 32)]
for cls in INTC:
    n = int(cls.split(", ")[1][:-1]) // 8; sg = "<true" in cls
    def lims(c, cls=cls, sg=sg):
        return [wide(c, c.pre(cls + "::" + f, typ(c)), sg) for f in ("_min", "_max")]
    for ut, us in (("unsigned int", False), ("int", True)):
        def post(c, us=us, n=n, lims=lims):
            v = wide(c, c.v(0), us); lo, hi = lims(c)
            return setpost(c, And(lo <= v, v <= hi), z3.Extract(31, 0, v), n)
        C("CParameter::doSet", props="C01", sig="doSet<%s>(" % ut, pre=lambda c, cls=cls: tpre(c, cls), post=post, mods=lambda c: [(BBF, ctxbb(c, 2))],
          **B(special=True, exact=lambda c, cls=cls: [(typ(c), cls)])).label += " on " + cls
        def gpost(c, us=us, n=n, sg=sg):
            w = word_at(c, mem0(c, 2), c.v(1), n)
            return [("succeeds", c.retv), ("gives the number stored" + (", sign included" if us else ""), c.vo(0) == (sext(c, w, BitVecVal(n, 64)) if us and sg else w))]
        C("CParameter::doGet", props="C01", sig="doGet<%s>(" % ut, pre=lambda c, cls=cls: tpre(c, cls), post=gpost,
          **B(special=True, exact=lambda c, cls=cls: [(typ(c), cls)])).label += " on " + cls
    def spost(c, n=n, sg=sg, lims=lims, cls=cls):
        s = c.v(0); lo, hi = lims(c); ty = "i%d" % (8 * n); us = "u%d" % (8 * n); srt = z3.BitVecSort(8 * n)
        if sg: v = If(ISHEX(c, s), valT(c, us, s, srt), valT(c, ty, s, srt)); ok = If(ISHEX(c, s), okT(c, us, s), okT(c, ty, s))
        else: v = valT(c, us, s, srt); ok = okT(c, us, s)
        v = wide(c, v, sg)
        return setpost(c, And(ok, lo <= v, v <= hi), z3.Extract(31, 0, v), n)
    C("CParameter::doSet", props="C01", sig="doSet<std::basic_string", pre=lambda c, cls=cls: tpre(c, cls), post=spost, mods=lambda c: [(BBF, ctxbb(c, 2))],
      **B(special=True, exact=lambda c, cls=cls: [(typ(c), cls)])).label += " on " + cls
