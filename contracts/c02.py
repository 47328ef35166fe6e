"""C02: fixed-point parameters."""
from c01 import *
FX = "CFixedPointParameterType::"
QN, QM = FX + "_uiIntegral", FX + "_uiFractional"
D = z3.FPSort(11, 53)
def dv(x): return z3.FPVal(x, D)
def fmts():
    out = []
    for size in (1, 2, 4):
        for n, m in ((0, 0), (0, 8 * size - 1), (8 * size - 1, 0), (3, 4), (1, 5), (2, 2), (7, 8), (15, 16), (0, 3), (8, 2)):
            if n + m + 1 <= 8 * size: out.append((size, n, m))
    return out
QUANT = [(1, 3, 4), (1, 0, 0), (1, 2, 2), (2, 7, 8), (2, 3, 4), (4, 8, 2)]
def fmt(c, t, size, n, m): return [("format", And(c.pre(PSIZE, t) == size, c.pre(QN, t) == n, c.pre(QM, t) == m))]
for size, n, m in fmts():
    sh = 8 * size - (n + m + 1); lo, hi = -2.0 ** n, 2.0 ** n - 2.0 ** -m
    def ok(v, lo=lo, hi=hi): return And(z3.fpGEQ(v, dv(lo)), z3.fpLEQ(v, dv(hi)))
    def raw(w, size=size, sh=sh): return sext2(w, size) >> sh
    def sext2(w, size): return z3.SignExt(32 - 8 * size, z3.Extract(8 * size - 1, 0, w)) if size < 4 else w
    def real(w, m=m, raw=raw): return z3.fpDiv(z3.RNE(), z3.fpSignedToFP(z3.RNE(), raw(w), D), dv(2.0 ** m))
    def post(c, sh=sh, m=m, n=n, ok=ok, size=size, raw=raw):
        v = c.v(0); w = c.vo(1)
        return [("accepted exactly within [-2^n, 2^n - 2^-m]", c.retv == ok(v)),
                ("the number stored is representable", Implies(c.retv, And(sext2(w, size) == w, (raw(w) << sh) == w)))]
    def qpost(c, m=m, real=real):
        v = c.v(0)
        return [("the number stored differs from the one written by at most one quantum", Implies(c.retv, z3.fpLEQ(z3.fpAbs(z3.fpSub(z3.RNE(), real(c.vo(1)), v)), dv(2.0 ** -m))))]
    pre = lambda c, f=(size, n, m): fmt(c, c.this, *f)
    L = " Q%d.%d on %d bits" % (n, m, 8 * size)
    C(FX + "toBlackboard", props="C02", sig="(double", pre=pre, post=post, **B(special=True)).label += L
    if (size, n, m) in QUANT: C(FX + "toBlackboard", props="C02", sig="(double", pre=pre, post=qpost, **B(special=True)).label += L + ": quantum"
    def spost(c, ok=ok, size=size, raw=raw, sh=sh):
        s = c.v(0); w = c.vo(1); v = valT(c, "f64", s, D)
        return [("real text: accepted exactly when it is a decimal number within the interval", c.retv == And(Not(ISHEX(c, s)), okT(c, "f64", s), ok(v))),
                ("the number stored is representable", Implies(c.retv, And(sext2(w, size) == w, (raw(w) << sh) == w)))]
    def spre(c, f=(size, n, m)): return fmt(c, c.this, *f) + [("real value space", Not(c.pre(RAW, c.a[2].r if isinstance(c.a[2], LObj) else c.a[2])))]
    C(FX + "toBlackboard", props="C02", sig="(const std::basic_string", pre=spre, post=spost, **B(special=True)).label += L + ": real text"
    def gpost(c, real=real): return [("gives the representable number the stored word denotes", And(c.retv, z3.fpEQ(c.vo(0), real(c.v(1)))))]
    def gpre(c, f=(size, n, m)): return fmt(c, c.this, *f) + [("word of the parameter's size", c.v(1) & (((1 << (8 * f[0])) - 1)) == c.v(1))]
    C(FX + "fromBlackboard", props="C02", sig="(double", pre=gpre, post=gpost, **B(special=True)).label += L

# raw value space: whole path to the bytes of the settings memory
for size in (1, 2, 4):
    b = 8 * size
    def rpre(c, size=size):
        t = typ(c); ctx = c.a[2].r if isinstance(c.a[2], LObj) else c.a[2]
        return [("size", c.pre(PSIZE, t) == size), ("raw value space", c.pre(RAW, ctx)), ("parameter exists", And(t != 0, ctxbb(c, 2) != 0)),
                ("format fits the size", And(ULE(c.pre(QN, t), 32), ULE(c.pre(QM, t), 32), ULE(c.pre(QN, t) + c.pre(QM, t) + 1, 8 * size)))]
    def rpost(c, size=size, b=b):
        s = c.v(0); srt = z3.BitVecSort(32)
        h = valT(c, "u32", s, srt); d = valT(c, "i32", s, srt)
        okh = And(okT(c, "u32", s), z3.ULE(h, (1 << b) - 1)); okd = And(okT(c, "i32", s), d >= BitVecVal(-(1 << (b - 1)), 32), d <= BitVecVal((1 << (b - 1)) - 1, 32))
        hx = ISHEX(c, s)
        return setpost(c, If(hx, okh, okd), If(hx, h, d), size)
    C("CParameter::doSet", props="C02", sig="doSet<std::basic_string", pre=rpre, post=rpost, mods=lambda c: [(BBF, ctxbb(c, 2))],
      **B(special=True, exact=lambda c: [(typ(c), "CFixedPointParameterType")])).label += " on a raw fixed point of %d bits" % b
# refused real writes leave the memory unchanged
for size, n, m in ((1, 3, 4), (2, 7, 8), (4, 8, 2)):
    def dpre(c, f=(size, n, m)): return fmt(c, typ(c), *f) + [("parameter exists", And(typ(c) != 0, ctxbb(c, 2) != 0))]
    def dpost(c, n=n, m=m, size=size):
        v = c.v(0); ok = And(z3.fpGEQ(v, dv(-2.0 ** n)), z3.fpLEQ(v, dv(2.0 ** n - 2.0 ** -m))); mm, m2 = mem0(c, 2), mem1(c, 2); j = qv(c); off = c.v(1)
        return [("accepted exactly when in the interval", c.retv == ok), ("a refused write leaves the settings memory unchanged", Implies(Not(ok), m2 == mm)),
                ("changes only its own bytes", And(vlen(c, m2) == vlen(c, mm), ForAll([j], Implies(Not(And(ULE(off, j), ULT(j - off, size))), at(c, m2, j) == at(c, mm, j)))))]
    C("CParameter::doSet", props="C02", sig="doSet<double>(", pre=dpre, post=dpost, mods=lambda c: [(BBF, ctxbb(c, 2))],
      **B(special=True, exact=lambda c: [(typ(c), "CFixedPointParameterType")])).label += " on Q%d.%d, %d bits" % (n, m, 8 * size)
