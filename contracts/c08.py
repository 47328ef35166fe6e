"""C08: criterion types."""
from c01 import *
T_ = "CSelectionCriterionType::"; MAP, INC = T_ + "_numToLitMap", T_ + "_bInclusive"
def has(c, m, k): return Select(c.S._acc(m, 0), k)
def val(c, m, k): return Select(c.S._acc(m, 1), k)
def qs(c, n="s"):
    import base; base._q[0] += 1
    return Const("%s!q%d" % (n, base._q[0]), c.S.str_sort())
def zero(c): return BitVecVal(0, 32)
def onebit(v): return And(v != 0, (v & (v - 1)) == 0)
def inv(c, V, t):
    m = V(MAP, t); a, b = qs(c), qs(c)
    return [("one literal per number", ForAll([a, b], Implies(And(has(c, m, a), has(c, m, b), val(c, m, a) == val(c, m, b)), a == b))),
            ("an inclusive type holds single bits", ForAll([a], Implies(And(V(INC, t), has(c, m, a)), Or(val(c, m, a) == 0, onebit(val(c, m, a))))))]
def isnum(c, m, n): a = qs(c); return Exists([a], And(has(c, m, a), val(c, m, a) == n))
def addpost(c):
    t = c.this; m, m2 = c.pre(MAP, t), c.post(MAP, t); v, s = c.v(0), c.v(1); a = qs(c)
    return [("accepted exactly when the literal and the number are new and, for an inclusive type, the number is one bit", c.retv == And(Implies(c.pre(INC, t), onebit(v)), Not(has(c, m, s)), Not(isnum(c, m, v)))),
            ("the pair is recorded", Implies(c.retv, And(has(c, m2, s), val(c, m2, s) == v))),
            ("no other pair changes", ForAll([a], Implies(Or(Not(c.retv), a != s), And(has(c, m2, a) == has(c, m, a), Implies(has(c, m, a), val(c, m2, a) == val(c, m, a))))))] + inv(c, c.post, t)
C(T_ + "addValuePair", props="C08", pre=lambda c: inv(c, c.pre, c.this), post=addpost, mods=lambda c: [(MAP, c.this)], **B())
C(T_ + "CSelectionCriterionType", props="C08", post=lambda c: inv(c, c.post, c.this) + [("kind", c.post(INC, c.this) == c.v(0))], **B())
C(T_ + "getAtomicNumericalValue", props="C08", post=lambda c: [("known exactly when the literal is", c.retv == has(c, c.pre(MAP, c.this), c.v(0))), ("its number", Implies(c.retv, c.vo(1) == val(c, c.pre(MAP, c.this), c.v(0)))), ("else untouched", Implies(Not(c.retv), c.vo(1) == c.v(1)))], **B())
C(T_ + "getLiteralValue", props="C08", post=lambda c: (lambda m: [("known exactly when the number is", c.retv == isnum(c, m, c.v(0))), ("a literal added with that number", Implies(c.retv, And(has(c, m, c.vo(1)), val(c, m, c.vo(1)) == c.v(0)))), ("else untouched", Implies(Not(c.retv), c.vo(1) == c.v(1)))])(c.pre(MAP, c.this)), **B())
TKI, TKD, TKM = "Tokenizer::_input", "Tokenizer::_delimiters", "Tokenizer::_mergeDelimiters"
def pieces(S, s, d, m):
    """the pieces of a text; what they are is specified character by character under C24"""
    v = S.vec(S.str_sort())
    return uf("pieces", S.str_sort(), S.str_sort(), z3.BoolSort(), v)(s, d, m)
C("Tokenizer::split", verify=False, pure=True, fnval=lambda c: pieces(c.S, c.pre(TKI, c.this), c.pre(TKD, c.this), c.pre(TKM, c.this)), opts=dict(why="strings are abstract values here; the same function is verified character by character under C24"))
def delim(c): return c.eng.lit("|")
def anybit(b):
    """uninterpreted: the statements hold whatever mask it accepts, hence for every mask"""
    return uf("anybit", z3.BitVecSort(32), z3.BoolSort())(b)
def combi(L):
    """loop candidates: the bits gathered so far are exactly those of the pieces already read"""
    eng = L.eng; S = eng.S; out = []
    this = L.this
    vs = [v for v in L.st0.cells.values() if isz(v) and S.kind(v.sort()) and S.kind(v.sort())[0] == "vec" and v.sort() == S.vec(S.str_sort())]
    if this is None or not vs: return out
    m = Select(eng.harr(L.st0, MAP), this)
    for vec in vs:
        for kn, kf in L.cursors():
            for cid, f in L.ivars():
                if f(L.hv).sort() != z3.BitVecSort(32): continue
                def incl(st, f=f, kf=kf, vec=vec):
                    j = Const("j!ci", S.SZ); x = Select(S._acc(m, 1), Select(S.varr(vec), j))
                    return ForAll([j], Implies(And(S.ule(S.sz(0), j), S.ult(j, kf(st))), (f(st) & x) == x), patterns=[Select(S.varr(vec), j)])
                def only(st, f=f, kf=kf, vec=vec):
                    j = Const("j!co", S.SZ); b = Const("b!co", z3.BitVecSort(32)); x = Select(S._acc(m, 1), Select(S.varr(vec), j))
                    return ForAll([b], Implies(And(anybit(b), (f(st) & b) != 0), Exists([j], And(S.ule(S.sz(0), j), S.ult(j, kf(st)), (x & b) != 0))), patterns=[anybit(b)])
                out += [("bits of every piece gathered", incl), ("no other bit gathered", only)]
    return out
def gnv(c):
    m = c.pre(MAP, c.this); s = c.v(0); inc = c.pre(INC, c.this)
    ps = pieces(c.S, s, delim(c), BoolVal(True)); j, j2 = qv(c), qv(c); b = Const("b!gnv", z3.BitVecSort(32))
    comb = And(inc, Not(has(c, m, s)))
    return [("a literal gives the number it was added with", Implies(has(c, m, s), And(c.retv, c.vo(1) == val(c, m, s)))),
            ("an exclusive type knows nothing else", Implies(And(Not(inc), Not(has(c, m, s))), Not(c.retv))),
            ("a combination is known exactly when it has pieces and every one of them is", Implies(comb, c.retv == And(vlen(c, ps) != 0, ForAll([j], Implies(inseq(c, ps, j), has(c, m, at(c, ps, j))))))),
            ("a combination has the bits of its pieces", Implies(And(comb, c.retv), ForAll([j], Implies(inseq(c, ps, j), (c.vo(1) & val(c, m, at(c, ps, j))) == val(c, m, at(c, ps, j)))))),
            ("and no other", Implies(And(comb, c.retv), ForAll([b], Implies(And(anybit(b), (c.vo(1) & b) != 0), Exists([j2], And(inseq(c, ps, j2), (val(c, m, at(c, ps, j2)) & b) != 0))))))]
C(T_ + "getNumericalValue", props="C08", post=gnv, loops=combi, **B())
C(T_ + "isTypeInclusive", props="C08", fnval=lambda c: c.pre(INC, c.this), **B())
@lemma("C08", "with one literal per number, translating there and back is the identity")
def rt(P):
    s = z3.DeclareSort("Lit"); has_ = z3.Function("has", s, z3.BoolSort()); num = z3.Function("num", s, z3.BitVecSort(32)); a, b, x, y = z3.Consts("a b x y", s)
    return [ForAll([a, b], Implies(And(has_(a), has_(b), num(a) == num(b)), a == b)), has_(x), has_(y), num(y) == num(x)], y == x
