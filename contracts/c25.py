"""C25: the C interface."""
from base import *
import c16, c12, symex
from symex import fresh
from engine import PtrV, NullP
INT, BOOL = z3.IntSort(), z3.BoolSort()
I0 = dict(mode="int")
MSG, PFW, CRIT = "Status::mMsg", "PfwHandler_::pfw", "PfwHandler_::criteria"
E_ = lambda c: c.eng.lit("")
C("Status::failure", sig="(const std::basic_string", props="C25", post=lambda c: [("a failure", Not(c.retv)), ("with that message", c.post(MSG, c.this) == c.v(0))], mods=lambda c: [(MSG, c.this)], **I0)
C("Status::failure", sig="failure()", props="C25", post=lambda c: [("a failure", Not(c.retv))], **I0)
C("Status::success", props="C25", post=lambda c: [("a success", c.retv), ("without message", c.post(MSG, c.this) == E_(c))], mods=lambda c: [(MSG, c.this)], **I0)
C("Status::forward", props="C25", post=lambda c: [("the outcome given", c.retv == c.v(0)), ("no message on success, the one there already on failure", c.post(MSG, c.this) == If(c.v(0), E_(c), c.pre(MSG, c.this)))], mods=lambda c: [(MSG, c.this)], **I0)
def TXTF(c):
    """texts: a text is empty exactly when it is "", a concatenation is as long as its parts"""
    so = STR(c); L = uf("strlen", so, c.S.SZ); K = uf("concat", so, so, so); a, b = Const("txt!a", so), Const("txt!b", so)
    c.pre.st.fact(ForAll([a], And(L(a) >= 0, (L(a) == 0) == (a == E_(c))), patterns=[L(a)])); c.pre.st.fact(ForAll([a, b], L(K(a, b)) == L(a) + L(b), patterns=[K(a, b)]))
    return L
def ref(c, i=0): return c.a[i].r if hasattr(c.a[i], "r") else c.v(i)
# ---- criteria: each call made to create them is the one the table asks for
NAM, INC, VALS = "PfwCriterion::name", "PfwCriterion::inclusive", "PfwCriterion::values"
SZ = z3.BitVecSort(64)
def cmem(E, t): return uf("item!" + (t.q if E.S.isrec(t) else "char*" if E.S.ischarp(t) else str(t)), INT, E.S.SZ, INT if E.S.isrec(t) else E.S.sort(t))
for g, so in (("k_done", SZ), ("k_vals", SZ), ("k_type", INT), ("k_bad", BOOL), ("k_open", BOOL)): GHOSTS[g] = so
def tb(c, k): return uf("item!PfwCriterion", INT, SZ, INT)(tab(c), k)
def tab(c): return ref(c, 0)
def lst(c, k, i): return uf("item!char*", INT, SZ, STR(c))(c.pre(VALS, tb(c, k)), i)
def STR(c): return c.S.str_sort()
def nul(c): return c.eng.nullstr()
def kop(fn):
    n, q = c16.simple(fn), fn.clsq or ""
    if n in ("createSelectionCriterionType", "createSelectionCriterion", "addValuePair"): return "pure"
    return None
def hasc(c, V_, x): m = V_(CRIT, c.this); return z3.Select(c.S._acc(m, 0), x)
def kcall(E, st, fn, this, args, kind):
    n = c16.simple(fn); u = E.ucx; g = lambda x: E.gh(st, x); V_ = c12.StV(E, st); k, i = g("k_done"), g("k_vals"); it = tb(u, k); A = lambda j: E.load(st, args[j]) if isinstance(args[j], Loc) and not isinstance(args[j], symex.LObj) else args[j].r if hasattr(args[j], "r") else args[j]
    nm = u.pre(NAM, it)
    if n == "createSelectionCriterionType":
        E.oblige(st, And(z3.ULT(k, u.v(1)), nm != nul(u), u.pre(VALS, it) != 0, Not(hasc(u, V_, nm)), Not(g("k_bad"))), "only for a criterion of the table with a new name, and with values", "guard")
        E.oblige(st, A(0) == u.pre(INC, it), "of the kind listed", "guard"); st.ghost["k_open"] = BoolVal(True); st.ghost["k_vals"] = z3.BitVecVal(0, 64)
    if n == "addValuePair":
        E.oblige(st, And(g("k_open"), this == g("k_type"), lst(u, k, i) != nul(u)), "a value listed for the criterion under way", "guard")
        E.oblige(st, A(1) == lst(u, k, i), "with the name listed", "guard"); v = A(0); w = z3.ZeroExt(64 - v.size(), v)
        E.oblige(st, If(u.pre(INC, it), And(z3.ULT(i, 31), w == z3.BitVecVal(1, 64) << i), v == z3.Extract(31, 0, i)), "its number is its index, or the bit of that index when inclusive", "guard")
        b = fresh("added", BOOL); st.ghost["k_ok"] = b; st.ghost["k_bad"] = Or(g("k_bad"), Not(b)); st.ghost["k_vals"] = If(b, i + 1, i)
    if n == "createSelectionCriterion":
        E.oblige(st, And(g("k_open"), Not(g("k_bad")), A(0) == nm, A(1) == g("k_type"), lst(u, k, i) == nul(u)), "created under its name once it has every value listed", "guard"); st.ghost["k_done"] = k + 1; st.ghost["k_open"] = BoolVal(False)
def kret(E, st, fn, this, args):
    n = c16.simple(fn)
    if n == "createSelectionCriterionType": r = fresh("type", INT); st.fact(r > 0); st.ghost["k_type"] = r; return r
    if n == "addValuePair": return st.ghost["k_ok"]
GHOSTS["k_ok"] = BOOL
def kpost(c):
    k, i = c.post.g("k_done"), c.post.g("k_vals"); it = tb(c, k); nm = c.pre(NAM, it); msg = c.post(MSG, st_(c))
    return [("accepted only when every criterion of the table was created", Implies(c.retv, And(k == c.v(1), Not(c.post.g("k_bad")), msg == E_(c)))),
            ("refused only for a null name or list, a known name, a refused value or too many of them", Implies(Not(c.retv), And(z3.ULT(k, c.v(1)), Or(nm == nul(c), c.pre(VALS, it) == 0, hasc(c, c.post, nm), c.post.g("k_bad"), And(c.pre(INC, it), z3.UGE(i, 31))))))]
def st_(c): return uf("sub!PfwHandler_::lastStatus", INT, INT)(c.this)
def kloop(L):
    c = L.eng.ucx; out = []; g = lambda st, x: L.eng.gh(st, x)
    for n, f in L.cursors():
        out.append(("criteria so far", lambda st, f=f: f(st) == g(st, "k_done"))); out.append(("within the table", lambda st, f=f: z3.ULE(f(st), c.v(1))))
        out.append(("values so far", lambda st, f=f: And(f(st) == g(st, "k_vals"), g(st, "k_open")))); 
        for x in list(L.st0.cells.values()):
            if symex.isz(x) and x.sort() == SZ and not z3.is_bv_value(x): out.append(("no more values than bits", lambda st, f=f, x=x: Implies(c.pre(INC, tb(c, x)), z3.ULE(f(st), 31))))
    out.append(("every value was accepted", lambda st: g(st, "k_bad") == g(L.st0, "k_bad")))
    return out
C("PfwHandler_::createCriteria", props="C25", pre=lambda c: [("nothing created yet", And(c.pre.g("k_done") == 0, Not(c.pre.g("k_bad")), c.this != 0, ref(c, 0) != 0))], post=kpost, loops=kloop, mode="bv", opts=dict(noframe=True, special=True, opaque=kop, oncall=kcall, opret=kret, cmem=cmem))
# ---- the state machine: each call does what it says exactly when the framework is started
for g, so in (("q_calls", INT), ("q_ok", BOOL), ("q_created", BOOL), ("q_started", BOOL), ("q_res", INT)): GHOSTS[g] = so
PP, PQ = "PfwParameterHandler_::pfw", "PfwParameterHandler_::parameter"
def sub(c, h): return uf("sub!PfwHandler_::lastStatus", INT, INT)(h)
def msg(c, h): return c.post(MSG, sub(c, h))
READ1 = {"setCriterionState", "getCriterionState", "applyConfigurations", "createParameterHandle", "getAsSignedInteger", "setAsSignedInteger", "getAsString", "setAsString", "createCriteria", "start", "setLogger", "CParameterMgrPlatformConnector"}
def qop(fn):
    n = c16.simple(fn)
    if fn.dtor and fn.clsq == "CParameterMgrPlatformConnector": return "reader"
    return "reader" if n in READ1 else None
def arg(E, st, x): return E.load(st, x) if isinstance(x, Loc) and not isinstance(x, symex.LObj) else x.r if hasattr(x, "r") else x
def qcall(E, st, fn, this, args, kind):
    n = c16.simple(fn); u = E.ucx; A = lambda j: arg(E, st, args[j]); g = lambda x: E.gh(st, x)
    if n in ("setLogger", "CParameterMgrPlatformConnector") and (fn.dtor or n == "setLogger"): return
    h = ref(u, 0); p = u.pre(PFW, h); m = u.pre(CRIT, h)
    if n == "CParameterMgrPlatformConnector": E.oblige(st, And(p == 0, A(0) == u.v(1)), "a new instance only when there is none, from the file given", "guard"); return
    if n == "createCriteria": E.oblige(st, And(p == 0, this == h, Not(g("q_created")), A(0) == ref(u, 2), A(1) == u.v(3)), "the criteria of the table are created before starting", "guard"); st.ghost["q_created"] = fresh("created", BOOL); return
    if n == "start": E.oblige(st, And(p == 0, g("q_created"), g("q_calls") == 0), "started once, with its criteria", "guard"); st.ghost["q_started"] = fresh("started", BOOL); st.ghost["q_calls"] = g("q_calls") + 1; return
    E.oblige(st, g("q_calls") == 0, "called once", "guard"); st.ghost["q_calls"] = IntVal(1)
    if n in ("setCriterionState", "getCriterionState"):
        E.oblige(st, And(p != 0, z3.Select(u.S._acc(m, 0), u.v(1)), this == z3.Select(u.S._acc(m, 1), u.v(1))), "on the criterion of that name", "guard")
        if n == "setCriterionState": E.oblige(st, A(0) == u.v(2), "with the value given", "guard")
    elif n == "applyConfigurations": E.oblige(st, And(p != 0, this == p), "on the started instance", "guard")
    elif n == "createParameterHandle": E.oblige(st, And(p != 0, this == p, A(0) == u.v(1)), "on the started instance, with the path given", "guard")
    else:
        E.oblige(st, this == u.pre(PQ, h), "on the parameter of the handle", "guard")
        if n.startswith("set"): E.oblige(st, A(0) == u.v(1), "with the value given", "guard")
    if n.startswith(("getAs", "setAs")): st.ghost["q_ok"] = fresh("ok", BOOL)
def qret(E, st, fn, this, args):
    n = c16.simple(fn)
    if n == "createCriteria": return st.ghost["q_created"]
    if n == "start": return st.ghost["q_started"]
    if n in ("createParameterHandle", "getCriterionState"): r = fresh(n, INT); st.ghost["q_res"] = r; return r
    if n.startswith(("getAs", "setAs")): return st.ghost["q_ok"]
def known(c): h = ref(c, 0); m = c.pre(CRIT, h); return And(c.pre(PFW, h) != 0, z3.Select(c.S._acc(m, 0), c.v(1)), z3.Select(c.S._acc(m, 1), c.v(1)) != 0)
def qpost(want, parm=False, more=lambda c: []):
    def post(c):
        h = ref(c, 0); hh = c.pre(PP, h) if parm else h; ok = c.retv if c.retv.sort() == BOOL else c.retv != 0
        return [("succeeds exactly when it should", ok == want(c)), ("no message on success", Implies(ok, msg(c, hh) == E_(c)))] + ([] if parm else [("a message of its own on failure", Implies(And(Not(ok), c.post.g("q_calls") == 0), TXTF(c)(msg(c, hh)) > 0))]) + more(c)
    return post
def once(c): ok = c.retv if c.retv.sort() == BOOL else c.retv != 0; return [("done exactly on success", (c.post.g("q_calls") == 1) == ok)]
Q = dict(noframe=True, special=True, opaque=qop, oncall=qcall, opret=qret)
PRE = lambda c: [("nothing done yet", And(c.pre.g("q_calls") == 0, Not(c.pre.g("q_created")), ref(c, 0) != 0))]
def outval(c, i):
    a = c.a[i]; return c.post.loc(a.loc) if isinstance(a, PtrV) else c.vo(i)
C("pfwSetCriterion", props="C25", pre=PRE, post=qpost(known, more=once), opts=Q, **I0)
C("pfwGetCriterion", props="C25", pre=PRE, post=qpost(known, more=lambda c: once(c) + [("its value is given", Implies(c.retv, outval(c, 2) == c.post.g("q_res")))]), opts=Q, **I0)
C("pfwApplyConfigurations", props="C25", pre=PRE, post=qpost(lambda c: c.pre(PFW, ref(c, 0)) != 0, more=once), opts=Q, **I0)
C("pfwBindParameter", props="C25", pre=PRE, post=qpost(lambda c: And(c.pre(PFW, ref(c, 0)) != 0, c.post.g("q_calls") == 1, c.post.g("q_res") != 0), more=lambda c: [("a handle on the parameter found", Implies(c.retv != 0, And(c.post(PQ, c.retv) == c.post.g("q_res"), c.post(PP, c.retv) == ref(c, 0))))]), opts=Q, **I0)
for f in ("pfwGetIntParameter", "pfwSetIntParameter", "pfwGetStringParameter", "pfwSetStringParameter"):
    C(f, props="C25", pre=PRE, post=qpost(lambda c: c.post.g("q_ok"), True, more=lambda c: [("the parameter was asked, once", c.post.g("q_calls") == 1)]), opts=Q, **I0)
def startpost(c):
    h = ref(c, 0); was = c.pre(PFW, h) != 0
    return [("a started framework is not started again", Implies(was, And(Not(c.retv), c.post.g("q_calls") == 0, c.post(PFW, h) == c.pre(PFW, h)))),
            ("started exactly when its criteria were created and the instance started", Implies(Not(was), c.retv == And(c.post.g("q_created"), c.post.g("q_calls") == 1, c.post.g("q_started")))),
            ("what failed to start is not started", Implies(And(Not(was), Not(c.retv)), c.post(PFW, h) == 0)), ("on success there is an instance and no message", Implies(c.retv, And(c.post(PFW, h) != 0, msg(c, h) == E_(c))))]
C("pfwStart", props="C25", pre=PRE, post=startpost, opts=Q, **I0)
