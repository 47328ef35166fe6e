"""C04: enumerations."""
from c01 import *
E_ = "CEnumParameterType::"; CH = "CElement::_childArray"; NM = "CElement::_strName"; NUM = "CEnumValuePair::_iNumerical"
def kids(c, t): return c.pre(CH, t)
def anykid(c, t, f):
    k = qv(c); v = kids(c, t)
    return Exists([k], And(inseq(c, v, k), f(at(c, v, k))))
def num(c, r): return c.pre(NUM, r)
def name(c, r): return Select(c.pre.arr(NM), r)
def numb(c, r): return Select(c.pre.arr(NUM), r)
def declared(c, t, n): return anykid(c, t, lambda r: numb(c, r) == n)
def literal(c, t, s): return anykid(c, t, lambda r: name(c, r) == s)
def pair(c, t, s, n): return anykid(c, t, lambda r: And(name(c, r) == s, numb(c, r) == n))
C(E_ + "getNumerical", props="C04", post=lambda c: [("found exactly when the literal is declared", c.retv == literal(c, c.this, c.v(0))), ("the number paired with it", Implies(c.retv, pair(c, c.this, c.v(0), c.vo(1)))), ("else untouched", Implies(Not(c.retv), c.vo(1) == c.v(1)))], **B())
C(E_ + "getLiteral", props="C04", post=lambda c: [("found exactly when the number is declared", c.retv == declared(c, c.this, c.v(0))), ("a literal paired with it", Implies(c.retv, pair(c, c.this, c.vo(1), c.v(0))))], **B())
C(E_ + "checkValueAgainstSpace", props="C04", post=lambda c: [("true exactly when the number is declared", c.retv == declared(c, c.this, c.v(0)))], **B())
def S(c, t): return c.pre(PSIZE, t)
def sized_(c, t): n = S(c, t); return [("supported size", Or(n == 1, n == 2, n == 4))]
def sxt(c, n, w): return If(n == 1, z3.SignExt(24, z3.Extract(7, 0, w)), If(n == 2, z3.SignExt(16, z3.Extract(15, 0, w)), w))
def holds(c, t, v): return sxt(c, S(c, t), v) == v      # representable on the parameter's size
def rawkept(c, t, v):
    n = S(c, t); return Or(holds(c, t, v), (v & If(n == 1, BitVecVal(0xff, 32), If(n == 2, BitVecVal(0xffff, 32), BitVecVal(0xffffffff, 32)))) == v)
def ctxr(c, i=2): return c.a[i].r if isinstance(c.a[i], LObj) else c.a[i]
def numok(c, t, v, raw):
    """outcome of writing the number v: accepted, number meant"""
    n = If(raw, sxt(c, S(c, t), v), v)
    return And(Implies(raw, rawkept(c, t, v)), declared(c, t, n), holds(c, t, n)), n
def npost(c, t, ret, w):
    ok, n = numok(c, t, c.v(0), c.pre(RAW, ctxr(c)))
    return [("accepted exactly when the number is a declared one", ret == ok), ("it is the number stored", Implies(ret, w == n))]
C(E_ + "toBlackboard", props="C04", sig="(int,", pre=lambda c: sized_(c, c.this), post=lambda c: npost(c, c.this, c.retv, c.vo(1)), **B())
I32 = z3.BitVecSort(32)
def stext(c, t, ret, w):
    s = c.v(0); raw = c.pre(RAW, ctxr(c)); lit = literal(c, t, s); ok32, v32 = okT(c, "i32", s), valT(c, "i32", s, I32); oku, vu = okT(c, "u32", s), valT(c, "u32", s, I32)
    rn = sxt(c, S(c, t), w)
    k = qv(c); ks = kids(c, t)
    fit = ForAll([k], Implies(And(inseq(c, ks, k), name(c, at(c, ks, k)) == s), holds(c, t, numb(c, at(c, ks, k)))))
    n, m = numok(c, t, v32, BoolVal(False)), numok(c, t, v32, BoolVal(True))
    mu = numok(c, t, vu, BoolVal(True))
    return [("what is accepted is a declared number", Implies(ret, declared(c, t, w))), ("which the parameter can hold", Implies(ret, holds(c, t, w))),
            ("a literal stores a number paired with it", Implies(And(ret, Not(raw), lit), pair(c, t, s, w))),
            ("a literal whose number the parameter can hold is accepted", Implies(And(Not(raw), lit, fit), ret)),
            ("any other text is accepted exactly when it denotes a declared number", Implies(And(Not(raw), Not(lit)), And(ret == And(ok32, n[0]), Implies(ret, w == v32)))),
            ("in raw value space a number is taken with the parameter's size", Implies(And(raw, ok32), And(ret == m[0], Implies(ret, w == m[1])))),
            ("in raw value space the unsigned notation of a 32 bit number is taken", Implies(And(raw, Not(ok32), oku, S(c, t) == 4), And(ret == mu[0], Implies(ret, w == mu[1])))),
            ("a text that is neither a number nor a literal is refused", Implies(And(Not(lit), Not(ok32), Not(And(raw, oku, S(c, t) == 4))), Not(ret)))]
C(E_ + "toBlackboard", props="C04", sig="(const std::basic_string", pre=lambda c: sized_(c, c.this), post=lambda c: stext(c, c.this, c.retv, c.vo(1)), **B())
C(E_ + "fromBlackboard", props="C04", sig="(int &", pre=lambda c: sized_(c, c.this), post=lambda c: [("the number stored, sign included", And(c.retv, c.vo(0) == sxt(c, S(c, c.this), c.v(1))))], **B())
C(E_ + "fromBlackboard", props="C04", sig="(std::basic_string", pre=lambda c: sized_(c, c.this), post=lambda c: [
    ("in real value space, a literal paired with the number stored", Implies(And(Not(c.pre(RAW, ctxr(c))), declared(c, c.this, sxt(c, S(c, c.this), c.v(1)))), pair(c, c.this, c.vo(0), sxt(c, S(c, c.this), c.v(1))))), ("succeeds", c.retv)], **B())
# whole path
EX = lambda c: [(typ(c), "CEnumParameterType")]
def epre(c, n): return [("size", c.pre(PSIZE, typ(c)) == n), ("parameter exists", And(typ(c) != 0, ctxbb(c, 2) != 0))]
for n in (1, 2, 4):
    def mem(c, n=n):
        m, m2 = mem0(c, 2), mem1(c, 2); j = qv(c); off = c.v(1); w = word_at(c, m2, off, n)
        return sxt(c, BitVecVal(n, 64), w), [("a refused write leaves the settings memory unchanged", Implies(Not(c.retv), m2 == m)),
            ("changes only its own bytes", And(vlen(c, m2) == vlen(c, m), ForAll([j], Implies(Not(And(ULE(off, j), ULT(j - off, n))), at(c, m2, j) == at(c, m, j)))))]
    def ipost(c, mem=mem): w, o = mem(c); return npost(c, typ(c), c.retv, w) + o
    def spost(c, mem=mem): w, o = mem(c); return stext(c, typ(c), c.retv, w) + o
    def gpost(c, n=n): return [("the number stored, sign included", And(c.retv, c.vo(0) == sxt(c, BitVecVal(n, 64), word_at(c, mem0(c, 2), c.v(1), n))))]
    P_ = dict(pre=lambda c, n=n: epre(c, n), **B(special=True, exact=EX)); M_ = dict(mods=lambda c: [(BBF, ctxbb(c, 2))])
    C("CParameter::doSet", props="C04", sig="doSet<int>(", post=ipost, **P_, **M_).label += " on a %d byte enumeration" % n
    C("CParameter::doSet", props="C04", sig="doSet<std::basic_string", post=spost, **P_, **M_).label += " on a %d byte enumeration" % n
    C("CParameter::doGet", props="C04", sig="doGet<int>(", post=gpost, **P_).label += " on a %d byte enumeration" % n
