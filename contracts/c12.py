"""C12, C13, C14: application of domains.

Ghost history of what was done to the current settings and to the hardware: event number t (for t < clk) is of kind
evk[t] (0: an area was written back to the current settings, 1: a synchroniser was called) and concerns object evr[t];
rpos[a] is the time area a was last written back. The outcome of the synchronisation at time t is SYNCOK(t), arbitrary."""
from c11 import *
def mp(*t): return [z3.MultiPattern(*t)] if all(pt(x) for x in t) else []
def pt(t): return [t] if symex.plain(t) and okpat(t) else []
I0 = dict(mode="int"); INT, BOOL = z3.IntSort(), z3.BoolSort()
GHOSTS.update(sstart=z3.ArraySort(INT, INT), clk=INT, evk=z3.ArraySort(INT, INT), evr=z3.ArraySort(INT, INT), rpos=z3.ArraySort(INT, INT))
HIST = ["ghost:clk", "ghost:evk", "ghost:evr", "ghost:rpos"]
def hist(*x): return [(g, None) for g in HIST]
def AREASET(r): return uf("set_of_an_area", INT, BOOL)(r)
SST = [("ghost:sstart", AREASET)]
def clk(V_): return V_.g("clk")
def evk(V_, t): return Select(V_.g("evk"), t)
def evr(V_, t): return Select(V_.g("evr"), t)
def rpos(V_, a): return Select(V_.g("rpos"), a)
def SYNCOK(t): return uf("sync_ok", INT, BOOL)(t)
class StV:
    """a state seen like the views of a contract"""
    def __init__(s, eng, st): s.eng, s.st = eng, st
    def __call__(s, f, r): return s.eng.fieldval(s.st, s.eng.fname(f), r)
    def arr(s, f): return s.eng.harr(s.st, s.eng.fname(f))
    def g(s, n, sort=None): return s.eng.gh(s.st, n, sort)
    def sub(s, f, r): return s.eng.sub(s.st, s.eng.fname(f), r)
def past(a, b):
    """the events before are kept"""
    t = qref("t"); return And(clk(b) >= clk(a), ForAll([t], Implies(t < clk(a), And(evk(b, t) == evk(a, t), evr(b, t) == evr(a, t)))))
# ---- synchronisers
def onev(kind):
    def g(cx, st):
        e = cx.eng; t = e.gh(st, "clk"); r = cx.this
        st.ghost["evk"] = Store(e.gh(st, "evk"), t, IntVal(kind)); st.ghost["evr"] = Store(e.gh(st, "evr"), t, r)
        if kind == 0: st.ghost["rpos"] = Store(e.gh(st, "rpos"), r, t)
        st.ghost["clk"] = t + 1
    return g
C("ISyncer::sync", verify=False, ghost=onev(1), fnval=lambda c: SYNCOK(clk(c.pre)), mods=lambda c: [(BBF, lambda r: And(r == bbarg(c, 0), c.v(1)))],
  opts=dict(why="implemented by the subsystem plugins: any outcome; a forward synchronisation only reads the settings"), **I0)
def bbarg(c, i): return c.a[i].r if hasattr(c.a[i], "r") else c.v(i)
SS = "CSyncerSet::_syncerSet"
def skeys(c, V_, s): return c.S._acc(V_(SS, s), 2)
def nsync(c, V_, s): return vlen(c, skeys(c, V_, s))
def sizes(c):
    """type fact: no set has a negative size"""
    r = Const("sizes!r", INT); a = c.pre.arr(SS); n = vlen(c, c.S._acc(Select(a, r), 2)); c.pre.st.fact(ForAll([r], n >= 0, patterns=pt(n))); return []
def synced(c, V_, V2, s, t0):
    """from time t0, every synchroniser of s is called once, in the order of the set"""
    j = qref("j"); ks = skeys(c, V_, s)
    return ForAll([j], Implies(And(t0 <= j, j < t0 + vlen(c, ks)), And(evk(V2, j) == 1, evr(V2, j) == at(c, ks, j - t0))), patterns=pt(evr(V2, j)) + pt(evk(V2, j)))
def allok(a, b): t = qref("t"); return ForAll([t], Implies(And(a <= t, t < b), SYNCOK(t)), patterns=[SYNCOK(t)])
def members(c):
    """the calls in terms of membership: stated where a caller asks for it"""
    if c.caller and not c.eng.unit.opts.get("setwf"): return []
    a, b = c.pre, c.post; j, x = qref("j"), qref("x"); i = inset(c, a, c.this, x); ks = skeys(c, a, c.this)
    return [("only members are called", ForAll([j], Implies(And(clk(a) <= j, j < clk(b)), inset(c, a, c.this, evr(b, j))), patterns=pt(evr(b, j)))), ("every member is called", ForAll([x], Implies(i, (lambda t: And(clk(a) <= t, t < clk(b), evr(b, t) == x))(clk(a) + uf("pos!" + str(ks.sort()), ks.sort(), INT, c.S.SZ)(ks, x))), patterns=pt(i)))]
def sspost(c):
    a, b = c.pre, c.post
    return members(c) + [("every synchroniser of the set is called, once", And(clk(b) == clk(a) + nsync(c, a, c.this), synced(c, a, b, c.this, clk(a)))), ("earlier events are kept", past(a, b)),
            ("success exactly when none failed", c.retv == allok(clk(a), clk(b))), ("nothing is written back", b.g("rpos") == a.g("rpos"))]
def ssloop(L):
    e = L.eng; a = StV(e, L.st0); out = []
    class Cx: S = e.S
    c = Cx(); th = L.this
    for kn, kf in L.cursors():
        ks = skeys(c, a, th)
        out += [("time", lambda st, kf=kf: clk(StV(e, st)) == clk(a) + kf(st)), ("past", lambda st: past(a, StV(e, st))),
                ("calls", lambda st, kf=kf: (lambda j, b: ForAll([j], Implies(And(clk(a) <= j, j < clk(a) + kf(st)), And(evk(b, j) == 1, evr(b, j) == at(c, ks, j - clk(a)))), patterns=pt(evr(b, j))))(qref("j"), StV(e, st))),
                ("restores", lambda st: StV(e, st).g("rpos") == a.g("rpos"))]
    for cid, f in L.ivars():
        if f(L.hv).sort() == BOOL: out.append(("outcome", lambda st, f=f: f(st) == allok(clk(a), clk(StV(e, st)))))
    return out
def onset(cx, st):
    """remembers when the set was last synchronised"""
    e = cx.eng
    st.ghost["sstart"] = Store(e.gh(st, "sstart"), cx.this, clk(cx.pre))
C("CSyncerSet::sync", props=("C13", "C17"), ghost=onset, post=sspost, loops=ssloop, mods=lambda c: hist() + [(BBF, lambda r: And(r == bbarg(c, 0), c.v(1)))], opts=dict(asserts="stop"), **I0)
# ---- areas
AV, AS_, AEL, ABB = "CAreaConfiguration::_bValid", "CAreaConfiguration::_pSyncerSet", "CAreaConfiguration::_pConfigurableElement", "CAreaConfiguration::_blackboard"
OFF = "CConfigurableElement::_offset"
def own(V_, a):
    g, iv = uf("sub!" + ABB, INT, INT), uf("own!" + ABB, INT, INT); V_.sub(ABB, IntVal(0)); r = Const("own!r", INT)
    V_.st.fact(ForAll([r], And(iv(g(r)) == r, symex.TAG(g(r)) == V_.eng.fieldid[ABB], g(r) != 0, symex.STAMP(g(r)) == symex.STAMP(r)), patterns=[g(r)]))
    return g(a)
def BITW(a): return uf("isa!CBitwiseAreaConfiguration", INT, BOOL)(a)
def aoff(V_, a): return V_(OFF, V_(AEL, a))
def data(V_, a): return V_(BBF, own(V_, a))
def region(c, V_, a, off, n, p): return And(le(c, off, p), lt(c, p, off + n))
def put(c, a, b, area, tgt, off, src):
    """tgt's bytes after the area's bytes src were written at off"""
    m, m2 = a(BBF, tgt), b(BBF, tgt); p, k = qv(c, "p"), qv(c); n = vlen(c, src)
    return [("the size of the memory is kept", vlen(c, m2) == vlen(c, m)), ("bytes outside the area are kept", ForAll([p], Implies(Not(region(c, a, area, off, n, p)), at(c, m2, p) == at(c, m, p)), patterns=pt(at(c, m2, p)))),
            ("the area's bytes are the saved ones", Implies(Not(BITW(area)), ForAll([p], Implies(region(c, a, area, off, n, p), at(c, m2, p) == at(c, src, p - off)), patterns=pt(at(c, m2, p)))))]
NB = "not a lone bit parameter"
def plain_(c): return [(NB, Not(BITW(c.this))), ("memories are distinct", And(c.a[0] != 0, c.a[0] != own(c.pre, c.this)))]
def put0(c): return [("memories are distinct", And(c.a[0] != 0, c.a[0] != own(c.pre, c.this)))]
WHY = "both implementations are verified: CAreaConfiguration's under this property, CBitwiseAreaConfiguration's under C05"
C("CAreaConfiguration::copyTo", verify=False, pre=put0, post=lambda c: put(c, c.pre, c.post, c.this, c.a[0], c.v(1), data(c.pre, c.this)), ghost=onev(0), mods=lambda c: [(BBF, c.a[0])], opts=dict(why=WHY), **I0)
C("CAreaConfiguration::copyTo", props="C14", pre=plain_, post=lambda c: put(c, c.pre, c.post, c.this, c.a[0], c.v(1), data(c.pre, c.this)), mods=lambda c: [(BBF, c.a[0])], opts=dict(asserts="stop", special=True), **I0)
def get(c, a, b, area, src, off):
    m, m2 = data(a, area), data(b, area); s = a(BBF, src); k = qv(c)
    return [("the size of the area is kept", vlen(c, m2) == vlen(c, m)), ("the area receives the current bytes", Implies(Not(BITW(area)), ForAll([k], Implies(And(le(c, z0(c), k), lt(c, k, vlen(c, m))), at(c, m2, k) == at(c, s, off + k)), patterns=pt(at(c, m2, k)))))]
C("CAreaConfiguration::copyFrom", verify=False, pre=put0, post=lambda c: get(c, c.pre, c.post, c.this, c.a[0], c.v(1)), mods=lambda c: [(BBF, own(c.pre, c.this))], opts=dict(why=WHY), **I0)
C("CAreaConfiguration::copyFrom", props="C14", pre=plain_, post=lambda c: get(c, c.pre, c.post, c.this, c.a[0], c.v(1)), mods=lambda c: [(BBF, own(c.pre, c.this))], opts=dict(asserts="stop", special=True), **I0)
def ok(c, V_, a): return And(a != 0, V_(AEL, a) != 0, V_(AS_, a) != 0, AREASET(V_(AS_, a)))
def apre(c): return [("loaded area", ok(c, c.pre, c.this))] + put0(c)
C("CAreaConfiguration::save", props="C14", pre=apre, post=lambda c: get(c, c.pre, c.post, c.this, c.a[0], aoff(c.pre, c.this)), mods=lambda c: [(BBF, own(c.pre, c.this))], **I0)
C("CAreaConfiguration::isValid", props="C14", fnval=lambda c: c.pre(AV, c.this), **I0)
C("CAreaConfiguration::setValid", props="C14", post=lambda c: [("", c.post(AV, c.this) == c.v(0))], mods=lambda c: [(AV, c.this)], **I0)
C("CAreaConfiguration::validate", props="C14", pre=apre, post=lambda c: [("valid", c.post(AV, c.this)), ("a valid area keeps its settings", Implies(c.pre(AV, c.this), data(c.post, c.this) == data(c.pre, c.this)))] +
  [(n, Implies(Not(c.pre(AV, c.this)), f)) for n, f in get(c, c.pre, c.post, c.this, c.a[0], aoff(c.pre, c.this))], mods=lambda c: [(AV, c.this), (BBF, own(c.pre, c.this))], **I0)
C("CAreaConfiguration::validateAgainst", props="C14", pre=lambda c: [("another valid area of the same element", And(c.v(0) != 0, c.v(0) != c.this, Not(c.pre(AV, c.this)), c.pre(AV, c.v(0)), c.pre(AEL, c.v(0)) == c.pre(AEL, c.this)))],
  post=lambda c: (lambda k: [("valid", c.post(AV, c.this)), ("the settings are those of the other", And(le(c, vlen(c, data(c.pre, c.v(0))), vlen(c, data(c.pre, c.this))), vlen(c, data(c.post, c.this)) == vlen(c, data(c.pre, c.this)), ForAll([k], Implies(And(le(c, z0(c), k), lt(c, k, vlen(c, data(c.pre, c.v(0))))), at(c, data(c.post, c.this), k) == at(c, data(c.pre, c.v(0)), k)))))])(qv(c)),
  mods=lambda c: [(AV, c.this), (BBF, own(c.pre, c.this))], opts=dict(asserts="oblige"), **I0)
def rst(c):
    a, b = c.pre, c.post; s = a(AS_, c.this); t = clk(a); th = c.this
    n = If(c.v(1), nsync(c, a, s), IntVal(0))
    return [("written back first, then synchronised if asked", And(clk(b) == t + 1 + n, evk(b, t) == 0, evr(b, t) == th, rpos(b, th) == t, Implies(c.v(1), synced(c, a, b, s, t + 1)))), ("earlier events are kept", past(a, b)),
            ("no other area", forallr(lambda r: Implies(r != th, rpos(b, r) == rpos(a, r)), pat=lambda r: rpos(b, r))), ("success exactly when no synchronisation failed", c.retv == Or(Not(c.v(1)), allok(t + 1, clk(b))))] + put(c, a, b, th, c.a[0], aoff(a, th), data(a, th))
C("CAreaConfiguration::restore", props=("C13", "C14"), pre=lambda c: apre(c) + [("valid settings", c.pre(AV, c.this))], post=rst, mods=lambda c: hist() + SST + [(BBF, c.a[0])], **I0)
# ---- configurations
AR = D_ + "mAreaConfigurationList"
def areas(V_, d): return V_(AR, d)
def OC(a): return uf("conf_of_area", INT, INT)(a)
def OI(a): return uf("index_of_area", INT, INT)(a)
def owns(c, V_):
    """each area belongs to one place of one configuration"""
    d = qref("d"); k = qv(c); v = areas(V_, d)
    return [("each area is at one place of one configuration", ForAll([d, k], Implies(inseq(c, v, k), And(OC(at(c, v, k)) == d, OI(at(c, v, k)) == k)), patterns=pt(at(c, v, k))))]
def loaded(c, V_, d):
    k = qv(c); v = areas(V_, d); return [("its areas are loaded", ForAll([k], Implies(inseq(c, v, k), ok(c, V_, at(c, v, k))), patterns=pt(at(c, v, k))))]
def allvalid(c, V_, d):
    k = qv(c); v = areas(V_, d); return [("all its areas hold valid settings", ForAll([k], Implies(inseq(c, v, k), V_(AV, at(c, v, k))), patterns=pt(at(c, v, k))))]
def apart(c, V_, d, bb):
    k = qv(c); v = areas(V_, d); return [("memories are distinct", And(bb != 0, ForAll([k], Implies(inseq(c, v, k), own(V_, at(c, v, k)) != bb), patterns=pt(at(c, v, k)))))]
def inconf(c, V_, d, r): v = areas(V_, d); return And(OC(r) == d, OI(r) >= 0, OI(r) < vlen(c, v), at(c, v, OI(r)) == r)
def within_(c, V_, d, n, p):
    """byte p lies in the region of one of the first n areas"""
    k = qv(c); v = areas(V_, d); a = at(c, v, k)
    return Exists([k], And(le(c, z0(c), k), lt(c, k, n), region(c, V_, a, aoff(V_, a), vlen(c, data(V_, a)), p)))
def alone(c, V_, d, i, n):
    """the i-th area shares no byte with another of the first n areas"""
    k = qv(c); v = areas(V_, d); x, y = at(c, v, i), at(c, v, k); lx, ly = aoff(V_, x), aoff(V_, y)
    return ForAll([k], Implies(And(le(c, z0(c), k), lt(c, k, n), k != i), Or(lx + vlen(c, data(V_, x)) <= ly, ly + vlen(c, data(V_, y)) <= lx)), patterns=pt(y))
def content(c, a, b, d, main, n):
    m, m2 = a(BBF, main), b(BBF, main); p, i, k = qv(c, "p"), qv(c, "i"), qv(c); v = areas(a, d); x = at(c, v, i); lo, sz_ = aoff(a, x), vlen(c, data(a, x))
    return [("the size of the settings memory is kept", vlen(c, m2) == vlen(c, m)),
            ("bytes of no element of the configuration are kept", ForAll([p], Implies(Not(within_(c, a, d, n, p)), at(c, m2, p) == at(c, m, p)), patterns=pt(at(c, m2, p)))),
            ("each element gets its saved settings back", ForAll([i, p], Implies(And(le(c, z0(c), i), lt(c, i, n), Not(BITW(x)), alone(c, a, d, i, vlen(c, v)), region(c, a, x, lo, sz_, p)), at(c, m2, p) == at(c, data(a, x), p - lo))))]
def seg(c, a, b, d, n, sync):
    """history of writing back the first n areas in order, each followed by its synchronisers when sync"""
    v = areas(a, d); i = qv(c, "i"); t = qref("t"); x = at(c, v, i); nx = lambda y: If(sync, nsync(c, a, a(AS_, y)), IntVal(0))
    last = at(c, v, n - 1); j = qref("j"); ks = skeys(c, a, a(AS_, x)); X = at(c, v, i + 1)
    return [("nothing to do, nothing done", Implies(n == 0, clk(b) == clk(a))), ("the first element is written back first", Implies(n > 0, rpos(b, at(c, v, z0(c))) == clk(a))),
            ("every element is written back", ForAll([i], Implies(And(0 <= i, i < n), And(rpos(b, x) >= clk(a), rpos(b, x) + 1 + nx(x) <= clk(b), evk(b, rpos(b, x)) == 0, evr(b, rpos(b, x)) == x)), patterns=pt(x))),
            ("in the order of the configuration, each element before its own synchronisation and the next element", ForAll([i], Implies(And(0 <= i, i + 1 < n), rpos(b, X) == rpos(b, x) + 1 + nx(x)), patterns=pt(x))),
            ("nothing else is done after the last", Implies(n > 0, clk(b) == rpos(b, last) + 1 + nx(last))),
            ("each synchroniser of an element is called once right after it", ForAll([i, j], Implies(And(sync, 0 <= i, i < n, rpos(b, x) < j, j <= rpos(b, x) + vlen(c, ks)), And(evk(b, j) == 1, evr(b, j) == at(c, ks, j - rpos(b, x) - 1))), patterns=mp(x, evr(b, j)))),
            ("nothing is written back but these elements", ForAll([t], Implies(And(clk(a) <= t, t < clk(b), evk(b, t) == 0), And(inconf(c, a, d, evr(b, t)), OI(evr(b, t)) < n, rpos(b, evr(b, t)) == t)), patterns=pt(evk(b, t)) + pt(evr(b, t)))),
            ("without synchronisation every event is a write back", ForAll([t], Implies(And(Not(sync), clk(a) <= t, t < clk(b)), evk(b, t) == 0), patterns=pt(evk(b, t)))),
            ("earlier events are kept", past(a, b)),
            ("no other area is written back", forallr(lambda r: Implies(Not(And(inconf(c, a, d, r), OI(r) < n)), rpos(b, r) == rpos(a, r)), pat=lambda r: rpos(b, r)))]
def nooksync(a, b): t = qref("t"); return ForAll([t], Implies(And(clk(a) <= t, t < clk(b), evk(b, t) == 1), SYNCOK(t)), patterns=pt(evk(b, t)) + [SYNCOK(t)])
def drst(c):
    a, b, d = c.pre, c.post, c.this; n = vlen(c, areas(a, d))
    return seg(c, a, b, d, n, c.v(1)) + [("success exactly when no synchronisation failed", c.retv == nooksync(a, b))] + content(c, a, b, d, c.a[0], n)
class Cx:
    def __init__(s, e): s.eng, s.S = e, e.S
def argof(L, i):
    """value of the i-th parameter of the verified function"""
    return L.eng.ucx.a[i]
def rloop(L):
    e = L.eng; u = e.ucx; a = u.pre; d = u.this; c = Cx(e); out = []
    k = max(len(seg(c, a, a, d, IntVal(0), BoolVal(True))), 1); m = len(content(c, a, a, d, u.a[0], IntVal(0)))
    for kn, kf in L.cursors():
        out += [("history", lambda st, i=i, kf=kf: seg(c, a, StV(e, st), d, kf(st), u.v(1))[i][1]) for i in range(k)]
        out += [("settings", lambda st, i=i, kf=kf: content(c, a, StV(e, st), d, u.a[0], kf(st))[i][1]) for i in range(m)]
    for cid, f in L.ivars():
        if f(L.hv).sort() == BOOL: out.append(("outcome", lambda st, f=f: f(st) == nooksync(a, StV(e, st))))
    return out
RP = lambda c: sizes(c) + loaded(c, c.pre, c.this) + allvalid(c, c.pre, c.this) + apart(c, c.pre, c.this, c.a[0]) + owns(c, c.pre)
C(D_ + "restore", props=("C13", "C14"), pre=RP, post=drst, loops=rloop, mods=lambda c: hist() + SST + [(BBF, c.a[0])], **I0)
def dsv(c):
    """every area of the configuration receives the current settings"""
    a, b, d, mb = c.pre, c.post, c.this, c.a[0]; i, k = qv(c, "i"), qv(c); v = areas(a, d); x = at(c, v, i); m, m2 = data(a, x), data(b, x)
    return [("each area keeps its size", ForAll([i], Implies(inseq(c, v, i), vlen(c, m2) == vlen(c, m)), patterns=pt(x))),
            ("each area receives the current settings of its element", ForAll([i, k], Implies(And(inseq(c, v, i), Not(BITW(x)), le(c, z0(c), k), lt(c, k, vlen(c, m))), at(c, m2, k) == at(c, a(BBF, mb), aoff(a, x) + k))))]
def eacharea(fn):
    """loop candidates: fn(a, b, x) holds for every area before the cursor; areas at and after it are as they were"""
    def f(L):
        e = L.eng; u = e.ucx; a = u.pre; d = u.this; c = Cx(e); out = []; v = areas(a, d)
        for kn, kf in L.cursors():
            for n in range(len(fn(c, a, a, IntVal(1)))):
                out.append(("done before", lambda st, n=n, kf=kf: (lambda i: ForAll([i], Implies(And(0 <= i, i < kf(st)), fn(c, a, StV(e, st), at(c, v, i))[n]), patterns=pt(at(c, v, i))))(qv(c, "i"))))
            for F in ("BBF", "AV"):
                def todo(st, kf=kf, F=F):
                    i = qv(c, "i"); x = at(c, v, i); b = StV(e, st)
                    return ForAll([i], Implies(And(kf(st) <= i, i < vlen(c, v)), (data(b, x) == data(a, x)) if F == "BBF" else b(AV, x) == a(AV, x)), patterns=pt(x))
                out.append(("not done after", todo))
        return out
    return f
def sv1(c, a, b, x):
    mb = c.eng.ucx.a[0]; k = qv(c); m, m2 = data(a, x), data(b, x)
    return [vlen(c, m2) == vlen(c, m), Implies(Not(BITW(x)), ForAll([k], Implies(And(0 <= k, k < vlen(c, m)), at(c, m2, k) == at(c, a(BBF, mb), aoff(a, x) + k))))]
def isown(c, r, f=None): k = qv(c); v = areas(c.pre, c.this); return Exists([k], And(inseq(c, v, k), r == own(c.pre, at(c, v, k))))
SP = lambda c: loaded(c, c.pre, c.this) + apart(c, c.pre, c.this, c.a[0]) + owns(c, c.pre)
C(D_ + "save", props="C14", pre=SP, post=dsv, loops=eacharea(sv1), mods=lambda c: [(BBF, lambda r: isown(c, r))], **I0)
def vl1(c, a, b, x): return [b(AV, x), Implies(a(AV, x), data(b, x) == data(a, x))]
def vlpost(c):
    a, b, d = c.pre, c.post, c.this; i = qv(c, "i"); v = areas(a, d); x = at(c, v, i)
    return [("every area is valid", ForAll([i], Implies(inseq(c, v, i), b(AV, x)), patterns=pt(x))), ("a valid area keeps its settings", ForAll([i], Implies(And(inseq(c, v, i), a(AV, x)), data(b, x) == data(a, x)), patterns=pt(x)))]
C(D_ + "validate", arity=1, props="C14", pre=SP, post=vlpost, loops=eacharea(vl1), mods=lambda c: [(BBF, lambda r: isown(c, r)), (AV, lambda r: inconf(c, c.pre, c.this, r))], **I0)
# ---- choice of the configuration
def APP(c, V_, d): v = V_(CH, d); return And(vlen(c, v) != 0, at(c, v, z0(c)) != 0, RM(at(c, v, z0(c))))
C(D_ + "isApplicable", props="C12", pre=one, fnval=lambda c: APP(c, c.pre, c.this), **I0)
def FI(c, V_, dom):
    """index of the first applicable configuration of a domain (the number of configurations when there is none), by definition"""
    ch = V_.arr(CH); fi = uf("first_applicable", ch.sort(), INT, INT); fc = uf("first_applicable_conf", ch.sort(), INT, INT); D = Const("fi!D", INT); k = Const("fi!k", INT); v = Select(ch, D); f = fi(ch, D)
    A = lambda d: (lambda w: And(vlen(c, w) != 0, at(c, w, z0(c)) != 0, RM(at(c, w, z0(c)))))(Select(ch, d))
    V_.st.fact(ForAll([D], And(f >= 0, f <= vlen(c, v), fc(ch, D) == If(f < vlen(c, v), at(c, v, f), IntVal(0)), Implies(f < vlen(c, v), A(at(c, v, f)))), patterns=[f] + [fc(ch, D)]))
    V_.st.fact(ForAll([D, k], Implies(And(0 <= k, k < f), Not(A(at(c, v, k)))), patterns=[z3.MultiPattern(f, at(c, v, k))]))
    return fi(ch, dom), fc(ch, dom)
def FIRST(c, V_, dom): return FI(c, V_, dom)[1]
def domok(c, V_, dom):
    k = qv(c); v = V_(CH, dom); x = at(c, v, k)
    return [("configurations exist, each with at most one rule", ForAll([k], Implies(inseq(c, v, k), And(x != 0, ULE_(c, vlen(c, V_(CH, x)), 1), Implies(vlen(c, V_(CH, x)) == 1, at(c, V_(CH, x), z0(c)) != 0))), patterns=pt(x)))]
def ULE_(c, a, b): return le(c, a, sz(c, b))
CD = "CConfigurableDomain::"; LAST, SEQ, DSS = CD + "_pLastAppliedConfiguration", CD + "_bSequenceAware", CD + "_syncerSet"
C(CD + "findApplicableDomainConfiguration", props="C12", pre=lambda c: domok(c, c.pre, c.this), fnval=lambda c: FIRST(c, c.pre, c.this), **I0)
C(CD + "getPendingConfiguration", props="C12", pre=lambda c: domok(c, c.pre, c.this), fnval=lambda c: (lambda f: If(f == c.pre(LAST, c.this), IntVal(0), f))(FIRST(c, c.pre, c.this)), **I0)
# ---- domains
def inset(c, V_, s, x): return Select(c.S._acc(V_(SS, s), 0), x)
def sets(c): return qref("x")
C("CSyncerSet::operator+=", sig="(ISyncer *", props="C17", post=lambda c: (lambda x: [("gains exactly that synchroniser", ForAll([x], inset(c, c.post, c.this, x) == Or(inset(c, c.pre, c.this, x), x == c.v(0))))])(sets(c)), mods=lambda c: [(SS, c.this)], **I0)
C("CSyncerSet::operator+=", sig="(const CSyncerSet &", props=("C13", "C17"), post=lambda c: (lambda x: [("gains exactly the synchronisers of the other", ForAll([x], inset(c, c.post, c.this, x) == Or(inset(c, c.pre, c.this, x), inset(c, c.pre, c.a[0].r if hasattr(c.a[0], "r") else c.v(0), x)), patterns=pt(Select(c.S._acc(c.post(SS, c.this), 0), x)) if False else []))])(sets(c)), mods=lambda c: [(SS, c.this)], **I0)
C("CSyncerSet::clear", props="C17", post=lambda c: (lambda x: [("empty", And(nsync(c, c.post, c.this) == 0, ForAll([x], Not(inset(c, c.post, c.this, x)))))])(sets(c)), mods=lambda c: [(SS, c.this)], **I0)
def confsok(c, V_, dom, main):
    k, i = qv(c), qv(c, "i"); ch = V_(CH, dom); d = at(c, ch, k); v = areas(V_, d); x = at(c, v, i)
    return sizes(c) + domok(c, V_, dom) + owns(c, V_) + [("the areas of its configurations are loaded, valid, with their own memory", And(main != 0, ForAll([k, i], Implies(And(inseq(c, ch, k), inseq(c, v, i)), And(ok(c, V_, x), V_(AV, x), own(V_, x) != main)), patterns=pt(x))))]
def nothing(c, a, b, main):
    return [("nothing is done", And(clk(b) == clk(a), b.g("evk") == a.g("evk"), b.g("evr") == a.g("evr"), b.g("rpos") == a.g("rpos"), b(BBF, main) == a(BBF, main)))]
def sub_(a, dom): return a.sub(DSS, dom)
def dap(c):
    a, b, dom, main, ps, force = c.pre, c.post, c.this, c.a[0], c.v(1), c.v(2); f = FIRST(c, a, dom); last = a(LAST, dom); x = qref("x")
    match = (ps == 0) == a(SEQ, dom); act = And(match, f != 0, Or(force, f != last)); n = vlen(c, areas(a, f))
    return [("the last applied configuration is the first applicable one", b(LAST, dom) == If(Not(match), last, If(f != 0, f, If(force, IntVal(0), last))))] + \
        [("otherwise " + nm, Implies(Not(act), g)) for nm, g in nothing(c, a, b, main)] + [("when it applies: " + nm, Implies(act, g)) for nm, g in seg(c, a, b, f, n, ps == 0) + content(c, a, b, f, main, n)] + \
        [("the caller gets the synchronisers of the domain exactly when it is applied and not sequence aware", Implies(ps != 0, ForAll([x], inset(c, b, ps, x) == Or(inset(c, a, ps, x), And(act, inset(c, a, sub_(a, dom), x))))))]
C(CD + "apply", props=("C12", "C13"), pre=lambda c: confsok(c, c.pre, c.this, c.a[0]), post=dap, mods=lambda c: hist() + SST + [(BBF, c.a[0]), (LAST, c.this)] + ([] if z3.is_int_value(c.v(1)) else [(SS, c.v(1))]), **I0)
# ---- all domains
def DO(d): return uf("domain_of_conf", INT, INT)(d)
def DI(d): return uf("index_of_domain", INT, INT)(d)
def want(c, V_, dom): return If(FIRST(c, V_, dom) != 0, FIRST(c, V_, dom), V_(LAST, dom))
def acts(c, V_, dom, force, seq):
    f = FIRST(c, V_, dom); return And(V_(SEQ, dom) == seq, f != 0, Or(force, f != V_(LAST, dom)))
def newlast(c, V_, dom, force): f = FIRST(c, V_, dom); return If(f != 0, f, If(force, IntVal(0), V_(LAST, dom)))
def isdom(c, V_, doms, D, n): v = V_(CH, doms); return And(DI(D) >= 0, DI(D) < n, at(c, v, DI(D)) == D)
def restored(c, V_, doms, r, n, force, seq):
    """area r belongs to the configuration that one of the first n domains applies"""
    d = OC(r); D = DO(d); return And(inconf(c, V_, d, r), isdom(c, V_, doms, D, n), acts(c, V_, D, force, seq), FIRST(c, V_, D) == d)
def tree(c, V_, doms, S_, main):
    D = qref("D"); k, j = qv(c), qv(c, "j"); i = qv(c, "i"); ch = V_.arr(CH); v = Select(ch, doms); x = at(c, v, j); d = at(c, Select(ch, x), k); w = areas(V_, d); y = at(c, w, i); r = qref()
    allc = And(inseq(c, v, j), inseq(c, Select(ch, x), k))
    return sizes(c) + owns(c, V_) + [("each domain is at one place", ForAll([j], Implies(inseq(c, v, j), And(DI(x) == j, x != 0)), patterns=pt(x))),
            ("each configuration belongs to one domain and has at most one rule", ForAll([j, k], Implies(allc, And(DO(d) == x, d != 0, le(c, vlen(c, Select(ch, d)), sz(c, 1)), Implies(vlen(c, Select(ch, d)) == sz(c, 1), at(c, Select(ch, d), z0(c)) != 0))), patterns=pt(d))),
            ("the areas of their configurations are loaded, valid, with their own memory", And(main != 0, ForAll([j, k, i], Implies(And(allc, inseq(c, w, i)), And(ok(c, V_, y), V_(AV, y), own(V_, y) != main)), patterns=pt(y)))),
            ("the caller's set is no area's nor domain's", And(S_ != 0, Not(AREASET(S_)), ForAll([r], uf("sub!" + DSS, INT, INT)(r) != S_, patterns=[uf("sub!" + DSS, INT, INT)(r)])))]
def subf(V_, r): V_.sub(DSS, IntVal(0)); return uf("sub!" + DSS, INT, INT)(r)
def setarg(c): return c.a[1].r
def passinv(c, A, B, doms, S_, main, force, n, seq):
    """what applying the first n domains of one kind did"""
    D, r, t, x = qref("D"), qref(), qref("t"), qref("x"); i = qv(c, "i"); v = A(CH, doms); dn = And(isdom(c, A, doms, D, n), A(SEQ, D) == seq); la = B.arr(LAST)
    dd = at(c, v, i); g = acts(c, A, dd, force, seq); o = [
        ("last applied configurations", ForAll([D], Select(la, D) == If(dn, newlast(c, A, D, force), A(LAST, D)), patterns=pt(Select(la, D)))),
        ("exactly the areas of the applied configurations are written back", ForAll([r], If(restored(c, A, doms, r, n, force, seq), And(rpos(B, r) >= clk(A), rpos(B, r) < clk(B)), rpos(B, r) == rpos(A, r)), patterns=pt(rpos(B, r)))),
        ("earlier events are kept", past(A, B))]
    if not seq: o += [("nothing is synchronised meanwhile", ForAll([t], Implies(And(clk(A) <= t, t < clk(B)), evk(B, t) == 0), patterns=pt(evk(B, t)))),
                ("the synchronisers of the applied domains are collected", ForAll([x], inset(c, B, S_, x) == Or(inset(c, A, S_, x), Exists([i], And(0 <= i, i < n, g, inset(c, A, subf(A, dd), x))))))]
    return o
def DSX(c): return c.this, setarg(c), c.a[0], c.v(2)
def dloop(L):
    e = L.eng; u = e.ucx; A = StV(e, L.st0); c = Cx(e); doms, S_, main, force = DSX(u); out = []
    for kn, kf in L.cursors():
        for seq in (not A.g("clk").eq(u.pre.g("clk")),):
            for n, (nm, _) in enumerate(passinv(c, A, A, doms, S_, main, force, IntVal(0), seq)):
                out.append((nm, lambda st, kf=kf, seq=seq, n=n: passinv(c, A, StV(e, st), doms, S_, main, force, kf(st), seq)[n][1]))
        out.append(("times", lambda st: Select(StV(e, st).g("sstart"), S_) == Select(A.g("sstart"), S_)))
    return out
def dspost(c):
    a, b = c.pre, c.post; doms, S_, main, force = DSX(c); v = a(CH, doms); n = vlen(c, v); i = qv(c, "i"); x = at(c, v, i); t, r, y = qref("t"), qref(), qref("y"); T = Select(b.g("sstart"), S_); T2 = T + nsync(c, b, S_)
    return [("every domain remembers its first applicable configuration", ForAll([i], Implies(inseq(c, v, i), b(LAST, x) == newlast(c, a, x, force)), patterns=pt(x))),
            ("exactly the areas of the configurations to apply are written back", ForAll([r], If(Or(restored(c, a, doms, r, n, force, BoolVal(False)), restored(c, a, doms, r, n, force, BoolVal(True))), rpos(b, r) >= clk(a), rpos(b, r) == rpos(a, r)), patterns=pt(rpos(b, r)))),
            ("nothing is synchronised before all domains which are not sequence aware are written back", And(T >= clk(a), ForAll([t], Implies(And(clk(a) <= t, t < T), evk(b, t) == 0), patterns=pt(evk(b, t))))),
            ("their areas are written back before the synchronisation", ForAll([r], Implies(restored(c, a, doms, r, n, force, BoolVal(False)), And(clk(a) <= rpos(b, r), rpos(b, r) < T)), patterns=pt(rpos(b, r)))),
            ("then the collected synchronisers are called, each once", And(T2 <= clk(b), ForAll([t], Implies(And(T <= t, t < T2), And(evk(b, t) == 1, evr(b, t) == at(c, skeys(c, b, S_), t - T))), patterns=pt(evr(b, t))))),
            ("collected are the given ones and those of the domains applied", ForAll([y], inset(c, b, S_, y) == Or(inset(c, a, S_, y), Exists([i], And(inseq(c, v, i), acts(c, a, x, force, BoolVal(False)), inset(c, a, subf(a, x), y)))))),
            ("sequence aware domains come afterwards", ForAll([r], Implies(restored(c, a, doms, r, n, force, BoolVal(True)), T2 <= rpos(b, r)), patterns=pt(rpos(b, r))))]
C("CConfigurableDomains::apply", props=("C12", "C13"), pre=lambda c: tree(c, c.pre, c.this, setarg(c), c.a[0]), post=dspost, loops=dloop, mods=lambda c: hist() + [("ghost:sstart", None), (BBF, c.a[0]), (LAST, None), (SS, setarg(c))], **I0)
C("utility::asString", verify=False, pure=True, opts=dict(why="text of an error message: no claim is made about it, it changes nothing"), **I0)
