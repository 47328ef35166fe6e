"""C03: floating point parameters."""
from c01 import *
FP = "CFloatingPointParameterType::"
F32 = z3.FPSort(8, 24); F64 = z3.FPSort(11, 53)
def lim(c, t): return c.pre(FP + "_fMin", t), c.pre(FP + "_fMax", t)
def shape(c, t):
    lo, hi = lim(c, t)
    return [("size", c.pre(PSIZE, t) == 4), ("range", And(z3.fpLEQ(lo, hi), Not(z3.fpIsInf(lo)), Not(z3.fpIsInf(hi))))]
def inside(c, t, f): lo, hi = lim(c, t); return And(z3.fpGEQ(f, lo), z3.fpLEQ(f, hi))
def word(w): return z3.fpBVToFP(w, F32)
def dbl(f): return z3.fpFPToFP(z3.RNE(), f, F64)
def dok(c, t, v):
    lo, hi = lim(c, t); f = z3.fpFPToFP(z3.RNE(), v, F32)
    return And(z3.fpGEQ(v, dbl(lo)), z3.fpLEQ(v, dbl(hi))), f
def dpost(c, t, ret, w):
    wanted, f = dok(c, t, c.v(0))
    return [("a number of the declared range is accepted", Implies(wanted, ret)),
            ("what is accepted is stored as a number of the declared range", Implies(ret, inside(c, t, word(w)))),
            ("the number stored is the one given, in single precision", Implies(ret, w == z3.fpToIEEEBV(f)))]
C(FP + "toBlackboard", props="C03", sig="(double", pre=lambda c: shape(c, c.this), post=lambda c: dpost(c, c.this, c.retv, c.vo(1)), **B())
def spost(c):
    s = c.v(0); t = c.this; ctx = c.a[2].r if isinstance(c.a[2], LObj) else c.a[2]; raw = c.pre(RAW, ctx)
    rw = valT(c, "u32", s, z3.BitVecSort(32)); f = valT(c, "f32", s, F32)
    okr = And(okT(c, "u32", s), inside(c, t, word(rw)), Not(z3.fpIsNaN(word(rw))), Not(z3.fpIsInf(word(rw)))); okf = And(Not(ISHEX(c, s)), okT(c, "f32", s), inside(c, t, f))
    return [("accepted exactly when it denotes a finite number of the declared range", c.retv == If(raw, okr, okf)),
            ("a raw pattern is stored as it is", Implies(And(c.retv, raw), c.vo(1) == rw)),
            ("a number is stored as it is", Implies(And(c.retv, Not(raw)), c.vo(1) == z3.fpToIEEEBV(f)))]
C(FP + "toBlackboard", props="C03", sig="(const std::basic_string", pre=lambda c: shape(c, c.this), post=spost, **B())
C(FP + "checkValueAgainstRange", props="C03", sig="(float", post=lambda c: [("true exactly in range", c.retv == inside(c, c.this, c.v(0)))], **B())
C(FP + "fromBlackboard", props="C03", sig="(double", post=lambda c: [("gives the IEEE-754 number stored", And(c.retv, c.vo(0) == dbl(word(c.v(1)))))], **B())
EX = lambda c: [(typ(c), "CFloatingPointParameterType")]
def mpre(c): return shape(c, typ(c)) + [("parameter exists", And(typ(c) != 0, ctxbb(c, 2) != 0))]
def own(c, n, acc):
    m, m2 = mem0(c, 2), mem1(c, 2); j = qv(c); off = c.v(1)
    return [("a refused write leaves the stored bits unchanged", Implies(Not(c.retv), m2 == m)),
            ("changes only its own bytes", And(vlen(c, m2) == vlen(c, m), ForAll([j], Implies(Not(And(ULE(off, j), ULT(j - off, n))), at(c, m2, j) == at(c, m, j)))))] + acc
def ddo(c):
    wanted, f = dok(c, typ(c), c.v(0)); m2 = mem1(c, 2); off = c.v(1); w = word_at(c, m2, off, 4)
    return own(c, 4, [("a number of the declared range is accepted", Implies(wanted, c.retv)), ("the bytes hold a number of the declared range", Implies(c.retv, inside(c, typ(c), word(w)))),
                      ("namely the one given", Implies(c.retv, w == z3.fpToIEEEBV(f)))])
C("CParameter::doSet", props="C03", sig="doSet<double>(", pre=mpre, post=ddo, mods=lambda c: [(BBF, ctxbb(c, 2))], **B(special=True, exact=EX)).label += " on a floating point parameter"
def sdo(c):
    s = c.v(0); t = typ(c); ctx = c.a[2].r if isinstance(c.a[2], LObj) else c.a[2]; raw = c.pre(RAW, ctx); m2 = mem1(c, 2); w = word_at(c, m2, c.v(1), 4)
    rw = valT(c, "u32", s, z3.BitVecSort(32)); f = valT(c, "f32", s, F32)
    return own(c, 4, [("the bytes hold a number of the declared range", Implies(c.retv, inside(c, t, word(w)))), ("the raw pattern or the number given", Implies(c.retv, w == If(raw, rw, z3.fpToIEEEBV(f))))])
C("CParameter::doSet", props="C03", sig="doSet<std::basic_string", pre=mpre, post=sdo, mods=lambda c: [(BBF, ctxbb(c, 2))], **B(special=True, exact=EX)).label += " on a floating point parameter"
C("CParameter::doGet", props="C03", sig="doGet<double>(", pre=mpre, post=lambda c: [("gives the IEEE-754 number stored", And(c.retv, c.vo(0) == dbl(word(word_at(c, mem0(c, 2), c.v(1), 4)))))],
  **B(special=True, exact=EX)).label += " on a floating point parameter"
