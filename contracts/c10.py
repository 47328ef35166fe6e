"""C10: application rules."""
from c09 import *
def RM(r): return uf("rule_matches", z3.IntSort(), z3.BoolSort())(r)
C("CRule::matches", verify=False, pure=True, fnval=lambda c: RM(c.this), opts=dict(why="abstract: its meaning is defined by the contracts of its two overriders, by induction on the rule tree"))
ALL = "CCompoundRule::_bTypeAll"; CH = "CElement::_childArray"
def comp(c):
    v = c.pre(CH, c.this); k = qv(c)
    return [("All: every sub-rule matches (none to match: true); Any: at least one does (none: false)", c.retv == If(c.pre(ALL, c.this), ForAll([k], Implies(inseq(c, v, k), RM(at(c, v, k)))), Exists([k], And(inseq(c, v, k), RM(at(c, v, k))))))]
C("CCompoundRule::matches", props="C10", post=comp, **B(special=True))
R_ = "CSelectionCriterionRule::"; CR, MW, MV = R_ + "_pSelectionCriterion", R_ + "_eMatchesWhen", R_ + "_iMatchValue"
def crit(c):
    s = c.pre(ST, c.pre(CR, c.this)); v = c.pre(MV, c.this); w = c.pre(MW, c.this)
    return [("Is: equality", Implies(w == 0, c.retv == (s == v))), ("IsNot: inequality", Implies(w == 1, c.retv == (s != v))),
            ("Includes: every bit of the value is set", Implies(w == 2, c.retv == ((s & v) == v))), ("Excludes: none is", Implies(w == 3, c.retv == ((s & v) == 0)))]
C(R_ + "matches", props="C10", pre=lambda c: [("loaded rule", And(c.pre(CR, c.this) != 0, ULE(c.pre(MW, c.this), 3)))], post=crit, **B(special=True))
for n, f in (("is", lambda s, v: s == v), ("isNot", lambda s, v: s != v), ("includes", lambda s, v: (s & v) == v), ("excludes", lambda s, v: (s & v) == 0)):
    C(K_ + n, props="C10", post=lambda c, f=f: [("comparison with the current state", c.retv == f(c.pre(ST, c.this), c.v(0)))], **B())
C("ISelectionCriterionTypeInterface::isTypeInclusive", verify=False, pure=True, fnval=lambda c: c.pre(INC, c.this), opts=dict(why="interface with the single implementation CSelectionCriterionType, verified under C08"))
def smw(c):
    t = c.pre(TY, c.pre(CR, c.this)); w = c.post(MW, c.this); s = c.v(0)
    L = [c.eng.lit(x) for x in ("Is", "IsNot", "Includes", "Excludes")]
    return [("accepted exactly for the four verbs, Includes and Excludes on inclusive criteria only", c.retv == Or(s == L[0], s == L[1], And(c.pre(INC, t), Or(s == L[2], s == L[3])))),
            ("the verb given", Implies(c.retv, And(ULE(w, 3), *[Implies(w == i, s == L[i]) for i in range(4)]))), ("a refused verb changes nothing", Implies(Not(c.retv), w == c.pre(MW, c.this)))]
C(R_ + "setMatchesWhen", props="C10", pre=lambda c: [("criterion", And(c.pre(CR, c.this) != 0, c.pre(TY, c.pre(CR, c.this)) != 0))], post=smw, mods=lambda c: [(MW, c.this)], **B())
