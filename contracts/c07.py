"""C07: adaptations."""
from c01 import *
F64 = z3.FPSort(11, 53)
AD, LI, LO = "CParameterAdaptation::", "CLinearParameterAdaptation::", "CLogarithmicParameterAdaptation::"
def dv(x): return z3.FPVal(x, F64)
RNE = z3.RNE()
def off(c): return z3.SignExt(32, c.pre(AD + "_iOffset", c.this))
def todbl(i): return z3.fpSignedToFP(RNE, i, F64)
R34 = 1 << 34
C(AD + "toUserValue", props="C07", post=lambda c: [("the number above the offset", c.retv == todbl(c.v(0) - off(c)))], **B(overrides=False))
C(AD + "fromUserValue", props="C07", post=lambda c: [
    ("the integers within one half of the value, plus the offset", Implies(And(z3.fpLEQ(c.v(0), dv(2.0 ** 40)), z3.fpGEQ(c.v(0), dv(-2.0 ** 40))),
        z3.fpLEQ(z3.fpAbs(z3.fpSub(RNE, todbl(c.retv - off(c)), c.v(0))), dv(0.5)))),
    ("a huge value stays out of the range of any parameter", And(Implies(z3.fpGT(c.v(0), dv(2.0 ** 40)), c.retv > BitVecVal(1 << 36, 64)), Implies(z3.fpLT(c.v(0), dv(-2.0 ** 40)), c.retv < BitVecVal(-(1 << 36), 64))))], **B())
def lnum(c): return c.pre(LI + "_dSlopeNumerator", c.this)
def lden(c): return c.pre(LI + "_dSlopeDenominator", c.this)
C(LI + "toUserValue", props="C07", post=lambda c: [("(stored - offset) * denominator / numerator", c.retv == z3.fpDiv(RNE, z3.fpMul(RNE, todbl(c.v(0) - off(c)), lden(c)), lnum(c)))], **B())
def near(c, v, r): return z3.fpLEQ(z3.fpAbs(z3.fpSub(RNE, todbl(r - off(c)), v)), dv(0.5))
C(LI + "fromUserValue", props="C07", post=lambda c: (lambda v: [
    ("the integer nearest to value * numerator / denominator, plus the offset", Implies(And(z3.fpLEQ(v, dv(2.0 ** 40)), z3.fpGEQ(v, dv(-2.0 ** 40))), near(c, v, c.retv))),
    ("a huge value stays out of range", And(Implies(z3.fpGT(v, dv(2.0 ** 40)), c.retv > BitVecVal(1 << 36, 64)), Implies(z3.fpLT(v, dv(-2.0 ** 40)), c.retv < BitVecVal(-(1 << 36), 64))))])(z3.fpDiv(RNE, z3.fpMul(RNE, c.v(0), lnum(c)), lden(c))), **B())
C(LO + "fromUserValue", props="C07", pre=lambda c: [("floor within the integers", And(z3.fpGT(c.pre(LO + "_dFloorValue", c.this), dv(-2.0 ** 62)), z3.fpLT(c.pre(LO + "_dFloorValue", c.this), dv(2.0 ** 62))))],
  post=lambda c: [("never below the floor", c.retv >= z3.fpToSBV(z3.RTZ(), c.pre(LO + "_dFloorValue", c.this), z3.BitVecSort(64)))], **B())
