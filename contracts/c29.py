"""C29: remote commands: found by name, refused without their arguments, carried out by the operation they are named after with the
arguments received. The table of commands is read from its initialiser in the source on every run."""
from c28 import *
import base
T_ = "TRemoteCommandHandlerTemplate<CParameterMgr>::"; I_ = T_ + "CRemoteCommandParserItem::"
GHOSTS["k_n"] = INT; GHOSTS["k_ok"] = BOOL; GHOSTS["k_st"] = INT; GHOSTS["k_found"] = INT
DONE, SUCC, FAIL, USAGE = 0, 1, 2, 3
def ARGC(r): return uf("argument_count", INT, INT)(r)
def ARGV(E, r, i): return uf("argument", INT, INT, STRS(E))(r, i if isz(i) else IntVal(i))
def PACK(E, r, i): return uf("packed_from", INT, INT, STRS(E))(r, i if isz(i) else IntVal(i))
def CMDN(E, r): return uf("command_name", INT, STRS(E))(r)
def rows(P):
    """(command, handler, least number of arguments) of the initialiser of the table"""
    tu, o = P.globals.get("CParameterMgr::gastRemoteCommandParserItems", (None, None))
    if o is None or "init" not in o: raise symex.ToolLimit("table of commands")
    def lit_(e):
        while isinstance(e, dict) and e.get("e") == "cast": e = e["x"]
        return e
    r = []
    for x in o["init"]["x"]:
        d = dict(zip([f.rsplit("::", 1)[1] for f in x["fs"]], [lit_(y) for y in x["x"]]))
        n, h, m = d["_pcCommandName"], d["_pfnParser"], d["_minArgumentCount"]
        if n.get("e") != "str" or h.get("e") != "memfnptr" or m.get("e") != "int": raise symex.ToolLimit("initialiser of the table of commands")
        r.append((n["v"], h["x"]["d"]["n"], int(m["v"])))
    return r
# the interface of a command: its name and arguments; an argument which was not received must not be read
def cmdcall(E, st, fn, this, args):
    n = nm(fn)
    if (fn.clsq or "") not in ("IRemoteCommand", "CRequestMessage"): return None
    if n == "getArgument": i = arg(E, st, args[0]); E.oblige(st, And(i >= 0, i < ARGC(this)), "only an argument which was received is read", "guard"); return ARGV(E, this, i)
    if n == "getArgumentCount": st.fact(And(ARGC(this) >= 0, ARGC(this) < (1 << 32))); return ARGC(this)
    if n == "getCommand": return CMDN(E, this)
    if n == "packArguments":
        i, k = arg(E, st, args[0]), arg(E, st, args[1]); E.oblige(st, And(i >= 0, i + k == ARGC(this), k >= 0), "the remaining arguments, as received, are read", "guard"); return PACK(E, this, i)
# ---- what each command does: (operation, its parameters, status when it succeeds). A number: that argument; ("from", i): the arguments from i on;
# True/False: that constant; None: not constrained (the text of the answer)
OPS = {}
def op(cmd, handler, method, params, ok=DONE, result="bool", on="mgr", **kw): OPS[cmd] = dict(h=handler, m=method, p=params, ok=ok, r=result, on=on, **kw)
def same(cmd, method, params, **kw): op(cmd, cmd + "CommandProcess", method, params, **kw)
same("createDomain", "createDomain", (0, None)); same("deleteDomain", "deleteDomain", (0, None)); same("deleteAllDomains", "deleteAllDomains", (None,)); same("renameDomain", "renameDomain", (0, 1, None))
same("addElement", "addConfigurableElementToDomain", (0, 1, None)); same("removeElement", "removeConfigurableElementFromDomain", (0, 1, None)); same("splitDomain", "split", (0, 1, None))
same("createConfiguration", "createConfiguration", (0, 1, None)); same("deleteConfiguration", "deleteConfiguration", (0, 1, None)); same("renameConfiguration", "renameConfiguration", (0, 1, 2, None))
same("saveConfiguration", "saveConfiguration", (0, 1, None)); same("restoreConfiguration", "restoreConfiguration", (0, 1, None))
same("setRule", "setApplicationRule", (0, 1, ("from", 2), None)); same("clearRule", "clearApplicationRule", (0, 1, None)); same("getRule", "getApplicationRule", (0, 1, None), ok=SUCC)
same("sync", "sync", (None,)); same("listDomainElements", "listDomainElements", (0, None), ok=SUCC, on="doms"); same("listConfigurations", "listConfigurations", (0, None), ok=SUCC, on="doms"); same("getElementSequence", "getElementSequence", (0, 1, None), ok=SUCC, on="doms")
same("getParameter", "accessParameterValue", (0, None, False, None), ok=SUCC); same("setParameter", "accessParameterValue", (0, ("from", 1), True, None))
same("getConfigurationParameter", "accessConfigurationValue", (0, 1, 2, None, False, None), ok=SUCC); same("setConfigurationParameter", "accessConfigurationValue", (0, 1, 2, ("from", 3), True, None))
same("showMapping", "getParameterMapping", (0, None), ok=SUCC)
X_ = lambda c, m, p, ok=DONE, **kw: op(c, c + "CommandProcess", m, p, ok=ok, **kw)
X_("exportDomainsXML", "exportDomainsXml", (0, False, True, None)); X_("importDomainsXML", "importDomainsXml", (0, False, True, None)); X_("exportDomainsWithSettingsXML", "exportDomainsXml", (0, True, True, None)); X_("exportDomainWithSettingsXML", "exportSingleDomainXml", (1, 0, True, True, None))
X_("importDomainsWithSettingsXML", "importDomainsXml", (0, True, True, None)); X_("setDomainsWithSettingsXML", "importDomainsXml", (0, True, False, None)); X_("getDomainsWithSettingsXML", "exportDomainsXml", (None, True, False, None), ok=SUCC); X_("getDomainWithSettingsXML", "exportSingleDomainXml", (None, 0, True, False, None), ok=SUCC)
def word(i, w): return lambda E, r: And(i < ARGC(r), ARGV(E, r, i) == E.lit(w))
X_("importDomainWithSettingsXML", "importSingleDomainXml", (0, word(1, "overwrite"), True, True, None), usage=lambda E, r: And(1 < ARGC(r), Not(word(1, "overwrite")(E, r)))); X_("setDomainWithSettingsXML", "importSingleDomainXml", (0, word(1, "overwrite"), True, False, None), usage=lambda E, r: And(1 < ARGC(r), Not(word(1, "overwrite")(E, r))))
neither = lambda i, a, b: lambda E, r: And(ARGV(E, r, i) != E.lit(a), ARGV(E, r, i) != E.lit(b))
same("setTuningMode", "setTuningMode", (word(0, "on"), None), usage=neither(0, "on", "off")); same("setAutoSync", "setAutoSync", (word(0, "on"), None), usage=neither(0, "on", "off"))
same("setValueSpace", "setValueSpace", (word(0, "raw"),), result="void", usage=neither(0, "raw", "real")); same("setOutputRawFormat", "setOutputRawFormat", (word(0, "hex"),), result="void", usage=neither(0, "hex", "dec"))
same("setSequenceAwareness", "setSequenceAwareness", (0, word(1, "true"), None), usage=neither(1, "true", "false"))
same("setElementXML", "setSettingsAsXML", (None, 1, None), locate=0, tuning=True); same("getElementXML", "getSettingsAsXML", (None, None), ok=SUCC, locate=0); same("setElementBytes", "setSettingsAsBytes", (None, None, None), locate=0, tuning=True, limit=True)
# the commands which only list or show something: what they are asked about is what is received
SHOW = dict(getSequenceAwareness=("getSequenceAwareness", (0, None, None)))
for k_, v in SHOW.items(): same(k_, v[0], v[1], ok=SUCC)
LOC = "listElements listParameters getElementStructureXML getElementBytes dumpElement getElementSize showProperties listBelongingDomains listAssociatedDomains".split()
PLAIN = "version status getTuningMode getValueSpace getOutputRawFormat getAutoSync listCriteria listDomains dumpDomains listAssociatedElements listConflictingElements listRogueElements getSystemClassXML setElementSequence".split()
def mine(P, h): return [(n, m) for n, hh, m in rows(P) if hh == h]
def req(c): return bbarg(c, 0)
def hpre(h):
    def f(c):
        ms = [m for n, m in mine(c.eng.P, h)]
        return [("called for a command of the table with at least its arguments", And(ARGC(req(c)) >= (min(ms) if ms else 0), ARGC(req(c)) < (1 << 32))), ("nothing yet", And(c.pre.g("k_n") == 0, Not(c.pre.g("k_ok")), c.pre.g("x_el") == 0))]
    return f
def hcall(o):
    def call(E, st, fn, this, args, kind):
        n = nm(fn); u = E.ucx; r = req(u); g = lambda x: E.gh(st, x)
        if n == "locate" and o.get("locate") is not None: E.oblige(st, arg(E, st, args[0]) == ARGV(E, r, o["locate"]), "the element named is looked up", "guard")
        if n == "checkTuningModeOn": st.ghost["k_found"] = IntVal(1)
        if o.get("m") and n == o["m"]:
            E.oblige(st, And(g("k_n") == 0, Not(o["usage"](E, r)) if o.get("usage") else BoolVal(True)), "carried out once, with legal arguments only", "guard"); st.ghost["k_n"] = g("k_n") + 1
            if o.get("tuning"): E.oblige(st, And(g("k_found") == 1, g("k_ok")), "only in tuning mode", "guard")
            if isz(this) and o["on"] == "mgr": E.oblige(st, this == u.this, "by the framework itself", "guard")
            for i, p in enumerate(o["p"]):
                if p is None or i >= len(args): continue
                v = arg(E, st, args[i]) if not isz(args[i]) else args[i]
                e = ARGV(E, r, p) if isinstance(p, int) and not isinstance(p, bool) else BoolVal(p) if isinstance(p, bool) else PACK(E, r, p[1]) if isinstance(p, tuple) else p(E, r)
                E.oblige(st, v == e, "%s is given what was received" % n, "guard")
    return call
def hret(o):
    def ret(E, st, fn, this, args):
        v = cmdcall(E, st, fn, this, args)
        if v is not None: return v
        n = nm(fn)
        if o.get("m") and n == o["m"] and o.get("r") != "void": b = fresh("done", BOOL); st.ghost["x_ok"] = b; return b
        if n == "locate" and o.get("locate") is not None: b = fresh("located", BOOL); st.ghost["x_b1"] = b; return b
        if n == "checkTuningModeOn": b = fresh("tuning", BOOL); st.ghost["k_ok"] = b; return b
    return ret
def hpost(cmd, o):
    def f(c):
        E, P, r = c.eng, c.eng.P, req(c); ns = [n for n, m in mine(P, o["h"])]; others = [n for n in ns if n != cmd and n in OPS]
        out = [("the command is carried out by this operation", BoolVal(cmd in ns and not others))]
        if not o.get("m"): return out + [("answered", Or(c.retv == SUCC, c.retv == FAIL, c.retv == USAGE, c.retv == DONE))]
        ok = c.post.g("x_ok") if o["r"] != "void" else BoolVal(True); us = o["usage"](E, r) if o.get("usage") else BoolVal(False); ran = c.post.g("k_n") == 1
        out += [("usage exactly for illegal arguments", (c.retv == USAGE) == us), ("success is that of the operation", (c.retv == o["ok"]) == And(ran, ok)), ("otherwise it failed", Or(c.retv == o["ok"], c.retv == USAGE, c.retv == FAIL))]
        if not o.get("locate") is not None and not o.get("limit"): out += [("carried out whenever the arguments are legal", ran == Not(us))]
        return out
    return f
def hop(fn): return "reader"
for cmd, o in list(OPS.items()): C("CParameterMgr::" + o["h"], props="C29", pre=hpre(o["h"]), post=hpost(cmd, o), opts=dict(X, opaque=hop, oncall=hcall(o), opret=hret(o)), **I0); base.REG[-1].label += " (%s)" % cmd
for cmd in LOC + PLAIN:
    o = dict(h=cmd + "CommandProcess", locate=0 if cmd in LOC else None); C("CParameterMgr::" + o["h"], props="C29", pre=hpre(o["h"]), post=hpost(cmd, o), opts=dict(X, opaque=hop, oncall=hcall(o), opret=hret(o)), **I0); base.REG[-1].label += " (%s)" % cmd
# ---- dispatch
VEC = T_ + "_remoteCommandParserVector"; IN, IM, IH, ID, IP = [I_ + f for f in ("_strCommandName", "_minArgumentCount", "_strHelp", "_strDescription", "_pfnParser")]
def iname(c, V_, r): return V_(IN, r)
def ivec(c, V_=None): return (V_ or c.pre)(VEC, c.this)
def ipre(c):
    v = ivec(c); k = qv(c); return [("commands", And(vlen(c, v) < (1 << 40), ForAll([k], Implies(inseq(c, v, k), And(at(c, v, k) > 0, symex.STAMP(at(c, v, k)) <= Int("top!0"))), patterns=pt(at(c, v, k)))))]
def fpost(c):
    v = ivec(c); k = qv(c); r = c.retv.loc.r if hasattr(c.retv, "loc") else c.retv
    return [("none exactly when no command has that name", (r == 0) == ForAll([k], Implies(inseq(c, v, k), c.pre(IN, at(c, v, k)) != c.v(0)))), ("one of that name", Implies(r != 0, Exists([k], And(inseq(c, v, k), at(c, v, k) == r, c.pre(IN, r) == c.v(0)))))]
def floop(L):
    c = L.eng.ucx; v = ivec(c); k = Int("k!f")
    return [("not among those seen", lambda st, f=f: ForAll([k], Implies(And(0 <= k, k < f(st)), c.pre(IN, at(c, v, k)) != c.v(0)))) for _, f in L.cursors()]
C(T_ + "findCommandParserItem", props="C29", pre=ipre, post=fpost, loops=floop, mods=lambda c: [], **I0)
def pmem(E, st, p, o, a):
    u = E.ucx; E.oblige(st, And(p == u.pre(IP, u.this), o == bbarg(u, 0) if isz(bbarg(u, 0)) else BoolVal(True), ob(E, st, a[0]) == bbarg(u, 1), ARGC(bbarg(u, 1)) >= u.pre(IM, u.this), E.gh(st, "k_n") == 0), "the action of the command, once, with the command received, only with enough arguments", "guard")
    st.ghost["k_n"] = IntVal(1); s_ = fresh("status", INT); st.fact(And(s_ >= 0, s_ <= 3)); st.ghost["k_st"] = s_; E.store(st, a[1], uf("answer_of", INT, STRS(E))(s_)); return s_
def parpost(c):
    E = c.eng; few = ARGC(bbarg(c, 1)) < c.pre(IM, c.this); s_ = c.post.g("k_st"); t = c.post.loc(c.a[2]); cat = E.ucat if hasattr(E, "ucat") else None
    return [("not enough arguments: refused, nothing done", Implies(few, And(Not(c.retv), c.post.g("k_n") == 0))), ("otherwise carried out", Implies(Not(few), c.post.g("k_n") == 1)), ("success is that of the action", Implies(Not(few), c.retv == Or(s_ == DONE, s_ == SUCC))), ("done is answered as such", Implies(And(Not(few), s_ == DONE), t == E.lit("Done"))),
            ("other answers are those of the action", Implies(And(Not(few), Or(s_ == SUCC, s_ == FAIL)), t == uf("answer_of", INT, STR(c))(s_))), ("usage is answered when asked for", Implies(And(Not(few), s_ == USAGE), t == uf("usage_of", INT, STR(c))(c.this)))]
def parret(E, st, fn, this, args):
    v = cmdcall(E, st, fn, this, args)
    if v is not None: return v
    if nm(fn) == "usage": return uf("usage_of", INT, STRS(E))(this)
C(I_ + "parse", props="C29", pre=lambda c: [("nothing yet", c.pre.g("k_n") == 0), ("a legal command", And(c.v(0) > 0, ARGC(bbarg(c, 1)) >= 0))], post=parpost, opts=dict(X, opaque=hop, opret=parret, memptr=pmem), **I0)
def rcall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; g = lambda x: E.gh(st, x)
    if n == "findCommandParserItem": E.oblige(st, And(this == u.this, arg(E, st, args[0]) == CMDN(E, bbarg(u, 0))), "the command is looked up by its name", "guard")
    if n == "helpCommandProcess": E.oblige(st, And(CMDN(E, bbarg(u, 0)) == E.lit("help"), g("k_n") == 0), "help for help only", "guard"); st.ghost["k_n"] = IntVal(1)
    if n == "parse": E.oblige(st, And(this == g("x_el"), g("x_el") != 0, CMDN(E, bbarg(u, 0)) != E.lit("help"), g("k_n") == 0, ob(E, st, args[1]) == bbarg(u, 0)), "the command found is given what was received", "guard"); st.ghost["k_n"] = IntVal(2)
def rret(E, st, fn, this, args):
    v = cmdcall(E, st, fn, this, args)
    if v is not None: return v
    n = nm(fn)
    if n == "findCommandParserItem": r = fresh("found", INT); st.fact(r >= 0); st.ghost["x_el"] = r; return r
    if n == "parse": b = fresh("parsed", BOOL); st.ghost["x_ok"] = b; return b
C(T_ + "remoteCommandProcess", props="C29", pre=lambda c: [("nothing yet", And(c.pre.g("k_n") == 0, c.pre.g("x_el") == 0))], post=lambda c: (lambda f, h: [("an unknown command is refused, nothing is done", Implies(Not(f), And(Not(c.retv), c.post.g("k_n") == 0))), ("help is always answered", Implies(And(f, h), And(c.retv, c.post.g("k_n") == 1))), ("a known command is carried out", Implies(And(f, Not(h)), And(c.post.g("k_n") == 2, c.retv == c.post.g("x_ok"))))])(c.post.g("x_el") != 0, CMDN(c.eng, bbarg(c, 0)) == c.eng.lit("help")), opts=dict(X, opaque=hop, oncall=rcall, opret=rret), **I0)
def acpost(c):
    v, w = ivec(c), ivec(c, c.post); k, j = qv(c), Int("j!a"); n = vlen(c, v); x = at(c, w, n)
    return [("refused exactly when the name is taken", c.retv == ForAll([k], Implies(inseq(c, v, k), c.pre(IN, at(c, v, k)) != c.v(0)))), ("a refusal changes nothing", Implies(Not(c.retv), w == v)), ("one command more", Implies(c.retv, And(vlen(c, w) == n + 1, ForAll([j], Implies(And(0 <= j, j < n), at(c, w, j) == at(c, v, j)))))),
            ("it is the one given", Implies(c.retv, And(c.post(IN, x) == c.v(0), c.post(IM, x) == c.v(2), c.post(IH, x) == c.v(3), c.post(ID, x) == c.v(4))))]
C(T_ + "addCommandParser", props="C29", pre=ipre, post=acpost, opts=dict(X), **I0)
# ---- a command given through the command handler interface is processed with its arguments, in order
def wcall_(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; g = lambda x: E.gh(st, x)
    if n == "CRequestMessage" and fn.ctor: E.oblige(st, arg(E, st, args[0]) == u.v(0), "the command given", "guard"); st.ghost["x_el"] = this
    if n == "addArgument": c = D0(E); E.oblige(st, And(arg(E, st, args[0]) == at(u, u.v(1), g("k_n")), g("k_n") < vlen(u, u.v(1)), this == g("x_el")), "the arguments given, in order", "guard"); st.ghost["k_n"] = g("k_n") + 1
    if n == "remoteCommandProcess": E.oblige(st, And(g("k_n") == vlen(u, u.v(1)), ob(E, st, args[0]) == g("x_el")), "processed once all arguments are there", "guard"); st.ghost["x_n"] = g("x_n") + 1
def wret_(E, st, fn, this, args):
    if nm(fn) == "remoteCommandProcess": b = fresh("processed", BOOL); st.ghost["x_ok"] = b; return b
def wloop(L):
    G = lambda st, x: L.eng.gh(st, x); u = L.eng.ucx
    return [("arguments so far", lambda st, f=f: And(G(st, "k_n") == f(st), f(st) <= vlen(u, u.v(1)), G(st, "x_n") == 0)) for _, f in L.cursors()] + [("of one request", lambda st: G(st, "x_el") == G(L.st0, "x_el"))]
C("CommandHandlerWrapper::process", props="C29", pre=lambda c: [("nothing yet", And(c.pre.g("k_n") == 0, c.pre.g("x_n") == 0))], loops=wloop, post=lambda c: [("processed once", And(c.post.g("x_n") == 1, c.retv == c.post.g("x_ok")))], opts=dict(X, opaque=lambda fn: None if nm(fn) in ("operator->", "get") else hop(fn), oncall=wcall_, opret=wret_), **I0)
def cmcall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; g = lambda x: E.gh(st, x)
    if n == "addCommandParser":
        t = rows(E.P); k = g("k_n"); sel = lambda f, d: __import__("functools").reduce(lambda a, i: If(k == i, f(t[i]), a), range(len(t)), d)
        E.oblige(st, And(k < len(t), arg(E, st, args[0]) == sel(lambda r: E.lit(r[0]), E.lit("")), arg(E, st, args[2]) == sel(lambda r: IntVal(r[2]), IntVal(-1))), "each command of the table, with the number of arguments it needs", "guard"); st.ghost["k_n"] = k + 1
def cmloop(L):
    G = lambda st, x: L.eng.gh(st, x)
    return [("commands so far", lambda st, f=f: And(G(st, "k_n") == f(st), f(st) >= 0, f(st) <= len(rows(L.eng.P)))) for _, f in L.cursors() + L.ivars() if z3.is_int(f(L.hv))]
C("CParameterMgr::createCommandHandler", props="C29", pre=lambda c: [("nothing yet", c.pre.g("k_n") == 0)], loops=cmloop, post=lambda c: [("every command of the table", c.post.g("k_n") == len(rows(c.eng.P)))], opts=dict(X, opaque=lambda fn: None if nm(fn) == "make_unique" else hop(fn), oncall=cmcall), **I0)
