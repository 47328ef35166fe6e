"""C16: tuning mode. The gated operations of the manager are verified on their own bodies; what they hand over to is not looked into:
a call of anything else than the manager's own helpers is an arbitrary effect, allowed only under the condition stated."""
import re
from base import *
from z3 import *
import symex
INT, BOOL = IntSort(), BoolSort()
def uf(n, *s): return Function(n, *s)
TM, BL = "CParameterMgr::_bTuningModeIsOn", "CParameterMgr::_blackboardMutex"
EFFECTS = {"accessValue", "setSettingsAsBytes", "setSettingsAsXML", "doApplyConfigurations", "wrapLegacyXmlImport", "doSetValue", "sync"}
READ = re.compile(r"^(get|is|find|locate|navigate|check|has|next|operator|what|tuning|as|size|begin|end|count|contains)")
def simple(fn): return fn.n.split("<")[0].split("::")[-1]
def opaque(fn):
    n = simple(fn); q = fn.clsq or ""
    if fn.ctor: return "reader"
    if q == "CParameterMgr": return "effect" if n in EFFECTS else "inline"
    if "::log" in fn.key or q.startswith("core::log") or q.startswith("utility"): return "reader"
    if not q: return "reader" if READ.match(n) or fn.n.startswith(("utility::", "std::", "core::")) else "inline"
    if READ.match(n) : return "reader"
    return "effect"
def gate(cond, what):
    def f(E, st, fn, this, args, kind):
        if kind == "effect": E.oblige(st, cond(E.ucx), "%s before %s is reached" % (what, simple(fn)), "guard")
    return f
on = lambda c: c.pre(TM, c.this)
def errarg(fn):
    return None
def failed(c): return Not(c.retv) if z3.is_bool(c.retv) else c.retv == FAILED(c)
def FAILED(c): return c.S.sz(0)
def gated(name, err=None, when=lambda c: BoolVal(True), st=None, **kw):
    off = lambda c: And(when(c), Not(on(c)))
    def post(c):
        r = [("refused when tuning mode is off", Implies(off(c), Not(c.retv) if st is None else c.retv == st))]
        if err is not None: r.append(("with an error", Implies(off(c), c.vo(err) != c.eng.lit(""))))
        return r
    C("CParameterMgr::" + name, props="C16", post=post, opts=dict(special=True, opaque=opaque, oncall=gate(lambda c: Not(off(c)), "tuning mode is on"), framecond=off), **kw)
for n, e in [("createDomain", 1), ("deleteDomain", 1), ("deleteAllDomains", 0), ("setSequenceAwareness", 2), ("createConfiguration", 2), ("deleteConfiguration", 2), ("saveConfiguration", 2), ("addConfigurableElementToDomain", 2),
             ("removeConfigurableElementFromDomain", 2), ("split", 2), ("setElementSequence", 3), ("importDomainsXml", 3), ("importSingleDomainXml", 4)]: gated(n, e)
gated("restoreConfiguration")
gated("accessParameterValue", 3, when=lambda c: c.v(2))
for n in ("setElementBytesCommandProcess", "setElementXMLCommandProcess"): gated(n, 1, st=IntVal(2))
# ---- switching the mode ---------------------------------------------------------------------------------------------------------
GHOSTS["forced"] = INT      # number of forced applications
GHOSTS["applied"] = INT     # number of ordinary applications
def countapply(E, st, fn, this, args, kind):
    if simple(fn) == "doApplyConfigurations":
        b = args[0]; f, a = E.gh(st, "forced"), E.gh(st, "applied"); st.ghost["forced"] = If(b, f + 1, f); st.ghost["applied"] = If(b, a, a + 1)
def allowed(c): return uf("tuning_allowed", INT, BOOL)(c.this)
def opret(E, st, fn, this, args):
    if simple(fn) == "isTuningAllowed": return allowed(E.ucx)
    return None
def tmpost(c):
    on0, on1, b = c.pre(TM, c.this), c.post(TM, c.this), c.v(0); f = c.post.g("forced") - c.pre.g("forced"); a = c.post.g("applied") - c.pre.g("applied"); ok = And(b != on0, Implies(b, allowed(c)))
    return [("succeeds exactly when the mode changes and tuning is allowed", c.retv == ok), ("a refusal has an error and no effect", Implies(Not(ok), And(c.vo(1) != c.eng.lit(""), on1 == on0, f == 0, a == 0))),
            ("the mode is the one asked for", Implies(ok, on1 == b)), ("leaving forces exactly one application", Implies(And(ok, Not(b)), And(f == 1, a == 0))), ("entering applies nothing", Implies(And(ok, b), And(f == 0, a == 0)))]
def tmcall(E, st, fn, this, args, kind):
    countapply(E, st, fn, this, args, kind)
    if kind == "effect": E.oblige(st, And(Not(E.ucx.v(0)), E.ucx.pre(TM, E.ucx.this)), "only leaving tuning mode has effects (%s)" % simple(fn), "guard")
keepmode = lambda f: (lambda E, st, fn, this, args, kind: f(E, st, fn, this, args, kind))
C("CParameterMgr::setTuningMode", props="C16", post=tmpost, opts=dict(special=True, opaque=opaque, oncall=tmcall, opret=opret, noframe=True))
def applypost(c):
    f = c.post.g("forced") - c.pre.g("forced"); a = c.post.g("applied") - c.pre.g("applied")
    return [("nothing is applied in tuning mode", Implies(on(c), And(f == 0, a == 0))), ("exactly one application, not forced, out of it", Implies(Not(on(c)), And(f == 0, a == 1)))]
def applycall(E, st, fn, this, args, kind):
    countapply(E, st, fn, this, args, kind)
    if kind == "effect": E.oblige(st, Not(on(E.ucx)), "out of tuning mode before %s is reached" % simple(fn), "guard")
C("CParameterMgr::applyConfigurations", props="C16", post=applypost, mods=lambda c: [("ghost:applied", None), ("ghost:forced", None)], opts=dict(special=True, opaque=opaque, oncall=applycall, framecond=on))
C("CParameterMgr::checkTuningModeOn", props="C16", post=lambda c: [("tells the mode", c.retv == on(c)), ("with an error when off", Implies(Not(on(c)), c.vo(0) != c.eng.lit("")))], opts=dict(special=True))
