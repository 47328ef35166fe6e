"""C11: application rules, text to rule and back."""
from c10 import *
P_ = "CRuleParser::"; TXT, POS, DEEP, TYPN, STA, ROOT = [P_ + x for x in ("_strApplicationRule", "_uiCurrentPos", "_currentDeepness", "_strRuleType", "_eStatus", "_pRootRule")]
INIT, BEGIN, END, CRIT, CONT, DONE = range(6)
V = dict(mode="bv", strmode="vec")
def within(c, V_): return ULE(V_(POS, c.this), vlen(c, V_(TXT, c.this)))
def steady(c, V_):
    """what holds between two steps of the parser"""
    s, d = V_(STA, c.this), V_(DEEP, c.this)
    return [("the position stays inside the text", within(c, V_)), ("known status", ULE(s, DONE)),
            ("outside any braces only the start, or the end of the root rule", Implies(d == 0, Or(s == INIT, s == END, s == DONE))),
            ("the start is outside any braces", Implies(s == INIT, d == 0)), ("the end is outside any braces", Implies(s == DONE, d == 0)),
            ("nesting is shallower than the text is long", ULE(d, V_(POS, c.this)))]
def charat(c, i): return at(c, c.pre(TXT, c.this), i)
def itpost(c):
    s0, d0, s, d = c.pre(STA, c.this), c.pre(DEEP, c.this), c.post(STA, c.this), c.post(DEEP, c.this); L = vlen(c, c.pre(TXT, c.this)); k = qv(c)
    p = c.post(POS, c.this)
    return [(n, Implies(c.retv, f)) for n, f in steady(c, c.post)] + [("the text is kept", c.post(TXT, c.this) == c.pre(TXT, c.this)),
        ("never before the start again", Implies(c.retv, s != INIT)),
        ("an opening brace nests", Implies(And(c.retv, s == BEGIN), And(d == d0 + 1, charat(c, p - 1) == ord("{")))),
        ("a closing brace closes one that was open", Implies(And(c.retv, s == END), And(UGE(d0, 1), d == d0 - 1, charat(c, p - 1) == ord("}")))),
        ("other steps keep the nesting", Implies(And(c.retv, s != BEGIN, s != END), d == d0)),
        ("a criterion rule starts within braces", Implies(And(c.retv, s == CRIT), Or(s0 == BEGIN, s0 == CONT))),
        ("done exactly at the end of the text, all braces closed", Implies(And(c.retv, s == DONE), And(d == 0, Or(p == L, ForAll([k], Implies(And(ULE(p, k), ULT(k, L)), charat(c, k) == ord(" ")))))))]
IT = lambda c: [(x, c.this) for x in (POS, DEEP, TYPN, STA)]
C(P_ + "iterate", props="C11", pre=lambda c: steady(c, c.pre) + [("not already done", c.pre(STA, c.this) != DONE)], post=itpost, mods=IT, **V)
C(P_ + "next", props="C11", pre=lambda c: [("the position is inside the text", within(c, c.pre))],
  post=lambda c: [("the position stays inside the text and never goes back", And(within(c, c.post), UGE(c.post(POS, c.this), c.pre(POS, c.this))))], mods=lambda c: [(POS, c.this)], **V)
C(P_ + "grabRootRule", props="C11", pre=lambda c: [("a rule was found", c.pre(ROOT, c.this) != 0)], post=lambda c: [("gives the rule away", And(c.retv == c.pre(ROOT, c.this), c.post(ROOT, c.this) == 0))], mods=lambda c: [(ROOT, c.this)], **V)
C("CCompoundRule::parse", props="C11", post=lambda c: [("", BoolVal(True))], mods=lambda c: [(ALL, c.this)], **V)
C("CElement::getKind", verify=False, pure=True, fnval=lambda c: uf("kind_of", z3.IntSort(), c.S.str_sort())(c.this), opts=dict(why="a constant text per class, used in messages only here"))
def ptr(c): return c.v(0)
def typed(c):
    r = qref(); return [("criteria have a type", ForAll([r], Implies(r != 0, c.pre(TY, r) != 0), patterns=[c.pre(TY, r)]))]
def parser_arg(c): return c.a[0].r if hasattr(c.a[0], "r") else c.v(0)
def critparse(c):
    p = parser_arg(c)
    return [("the position stays inside the text", Implies(c.retv, And(ULE(c.post(POS, p), vlen(c, c.pre(TXT, p))), UGE(c.post(POS, p), c.pre(POS, p))))),
            ("an accepted comparison is complete: a known criterion and verb", Implies(c.retv, And(c.post(CR, c.this) != 0, ULE(c.post(MW, c.this), 3))))]
C(R_ + "parse", props="C11", pre=lambda c: [("the position is inside the text", ULE(c.pre(POS, parser_arg(c)), vlen(c, c.pre(TXT, parser_arg(c)))))] + typed(c),
  post=critparse, mods=lambda c: [(POS, parser_arg(c)), (CR, c.this), (MW, c.this), (MV, c.this)], **V)
def pinv(c):
    s, d = c.pre(STA, c.this), c.pre(DEEP, c.this)
    return steady(c, c.pre) + [("a parent rule exactly within braces", (c.v(0) == 0) == (d == 0)), ("not already done", s != DONE)] + typed(c)
def ppost(c):
    d = c.post(DEEP, c.this)
    return [(n, Implies(c.retv, f)) for n, f in steady(c, c.post)] + [("the text is kept", c.post(TXT, c.this) == c.pre(TXT, c.this)),
            ("a rule within braces ends on its closing brace", Implies(And(c.retv, c.v(0) != 0), And(d == c.pre(DEEP, c.this) - 1, c.post(STA, c.this) == END))),
            ("the whole text gives a rule", Implies(And(c.retv, c.v(0) == 0), And(d == 0, c.post(STA, c.this) == DONE, c.post(ROOT, c.this) != 0)))]
PAR = "CElement::_pParent"
def ploop(L):
    """between two rules the parser is steady, at the nesting it was called with"""
    eng = L.eng; S = eng.S; th = L.this
    class Cx: pass
    c = Cx(); c.this, c.S = th, S
    def view(st): return lambda f, r: Select(eng.harr(st, f), r)
    n = len(steady(c, view(L.hv)))
    out = [("steady", lambda st, i=i: steady(c, view(st))[i][1]) for i in range(n)]
    d0 = view(L.st0)(DEEP, th); par = L.st0.cells.get((L.fr.id, L.fr.d.params[0]["id"])); h0 = eng.harr(L.st0, CH); top0 = L.st0.top
    def fr(st):
        r = qref(); return ForAll([r], Implies(And(symex.STAMP(r) <= top0, r != par), Select(eng.harr(st, CH), r) == Select(h0, r)))
    return out + [("only the parent rule among older elements grows", fr), ("same nesting", lambda st: view(st)(DEEP, th) == d0), ("not done", lambda st: view(st)(STA, th) != DONE)]
C(P_ + "parse", props="C11", pre=pinv, post=ppost, mods=lambda c: IT(c) + [(ROOT, c.this), (CH, c.v(0))], loops=ploop, **V)
D_ = "CDomainConfiguration::"
def one(c): return [("at most one rule", And(le(c, vlen(c, c.pre(CH, c.this)), sz(c, 1)), Implies(vlen(c, c.pre(CH, c.this)) == sz(c, 1), at(c, c.pre(CH, c.this), z0(c)) != 0)))]
def kept(c, f): return c.post(f, c.this) == c.pre(f, c.this)
C(D_ + "getRule", props="C11", pre=one, fnval=lambda c: If(vlen(c, c.pre(CH, c.this)) == 0, IntVal(0), at(c, c.pre(CH, c.this), z0(c))), mode="bv")
C(D_ + "setRule", props="C11", pre=one, post=lambda c: [("exactly the given rule", If(c.v(0) == 0, vlen(c, c.post(CH, c.this)) == 0, And(vlen(c, c.post(CH, c.this)) == 1, at(c, c.post(CH, c.this), z0(c)) == c.v(0))))],
  mods=lambda c: [(CH, None), (PAR, None)], mode="bv")
C(D_ + "clearApplicationRule", props="C11", pre=one, post=lambda c: [("no rule", vlen(c, c.post(CH, c.this)) == 0)], mods=lambda c: [(CH, None), (PAR, None)], mode="bv")
C(D_ + "setApplicationRule", props="C11", pre=lambda c: one(c) + typed(c), post=lambda c: [("a refused text keeps the rule as it is", Implies(Not(c.retv), kept(c, CH))), ("an accepted text gives a rule", Implies(c.retv, And(vlen(c, c.post(CH, c.this)) == 1, at(c, c.post(CH, c.this), z0(c)) != 0)))],
  mods=lambda c: [(CH, None), (PAR, None)], **V)
