"""C09: criteria."""
from c08 import *
K_ = "CSelectionCriterion::"; ST, NB, TY = K_ + "_iState", K_ + "_uiNbModifications", K_ + "_pType"
C(K_ + "setCriterionState", props="C09", post=lambda c: [("the state is the one set", c.post(ST, c.this) == c.v(0)), ("counts actual changes only", c.post(NB, c.this) == If(c.pre(ST, c.this) == c.v(0), c.pre(NB, c.this), c.pre(NB, c.this) + 1))],
  mods=lambda c: [(ST, c.this), (NB, c.this)], **B())
C(K_ + "getCriterionState", props="C09", fnval=lambda c: c.pre(ST, c.this), **B())
C(K_ + "hasBeenModified", props="C09", fnval=lambda c: c.pre(NB, c.this) != 0, **B())
C(K_ + "resetModifiedStatus", props="C09", post=lambda c: [("no modification left", c.post(NB, c.this) == 0)], mods=lambda c: [(NB, c.this)], **B())
C(K_ + "CSelectionCriterion", props="C09", post=lambda c: [("starts at 0, unmodified", And(c.post(ST, c.this) == 0, c.post(NB, c.this) == 0))], **B())
CH = "CElement::_childArray"
def rs(c):
    k = qv(c); v = c.pre(CH, c.this); r = qref()
    return [("every criterion is reset", ForAll([k], Implies(inseq(c, v, k), Select(c.post.arr(NB), at(c, v, k)) == 0))),
            ("no other is touched", ForAll([r], Implies(Not(Exists([k], And(inseq(c, v, k), at(c, v, k) == r))), Select(c.post.arr(NB), r) == Select(c.pre.arr(NB), r))))]
C("CSelectionCriteriaDefinition::resetModifiedStatus", props="C09", post=rs, mods=lambda c: [(NB, None)], **B())
