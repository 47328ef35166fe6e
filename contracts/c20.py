"""C20: the settings lock (the manager's mutex). A ghost counts how often each manager's lock is held by this thread."""
from c16 import *
GHOSTS["lock"] = ArraySort(INT, INT)
TOUCH = {"access", "accessValue", "accessAsBoolean", "accessAsInteger", "accessAsSignedInteger", "accessAsDouble", "accessAsString", "setSettingsAsBytes", "getSettingsAsBytes", "doApplyConfigurations", "process", "xmlParse", "sync", "restore", "save", "apply", "checkForSubsystemsToResync"}
MGRREF = "ElementHandle::mParameterMgr"
def opq(fn):
    q = fn.clsq or ""; n = simple(fn)
    if q == "CParameterMgr": return "effect" if n in ("doApplyConfigurations", "xmlParse") else "inline"
    if q == "ElementHandle": return "inline"
    if fn.ctor: return "reader"
    if q == "CParameterBlackboard" or n in TOUCH: return "effect"
    return opaque(fn)
def mgr(c): return c.this if c.fn.clsq == "CParameterMgr" else c.pre(MGRREF, c.this)
def locked(E, st, fn, this, args, kind):
    if (fn.clsq or "") == "CParameterBlackboard" or simple(fn) in TOUCH:
        m = mgr(E.ucx); E.oblige(st, Select(E.gh(st, "lock"), m) == 1, "the settings lock is held, once, at %s" % simple(fn), "lock")
def unlocked(c): return [("the lock is not held", Select(c.pre.g("lock"), mgr(c)) == 0)]
def released(c): return [("the lock is released", Select(c.post.g("lock"), mgr(c)) == 0)]
for n, kw in [("CParameterMgr::applyConfigurations", {}), ("CParameterMgr::setTuningMode", {}), ("CParameterMgr::accessValue", {}), ("CParameterMgr::accessParameterValue", {}), ("CParameterMgr::getSettingsAsBytes", {}), ("CParameterMgr::setSettingsAsBytes", {}),
              ("CParameterMgr::getSettingsAsXML", {}), ("CParameterMgr::setSettingsAsXML", {}), ("ElementHandle::setAs", {}), ("ElementHandle::getAs", {})] + [("ElementHandle::%s%s" % (g, x), {}) for g in ("getAs", "setAs") for x in ("XML", "Bytes")]:
    C(n, props="C20", pre=unlocked, post=released, throws=True, opts=dict(special=True, opaque=opq, oncall=locked, locks=True, noframe=True, post_throw=released), **kw)
