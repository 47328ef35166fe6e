"""C28: export and import of domains and settings. What is written to and read from the document is observed at the document
interface (CXmlElement), the order and the outcome of the steps at the calls which take them."""
from c27 import *
import c12
STRS = lambda E: E.S.str_sort()
XG = dict(x_ph=INT, x_ok=BOOL, x_el=INT, x_n=INT, x_cnt=INT, x_err=BOOL, x_val=BOOL, x_add=BOOL, x_doc=INT, x_node=ArraySort(INT, INT), x_src=INT, x_b1=BOOL, x_b2=BOOL)
for g, so in XG.items(): GHOSTS[g] = so
def nm(fn): return symex.bare(fn.n).rsplit("::", 1)[-1].strip()
def ob(E, st, x): return E.objref(st, x, False)
def boolret(E, st, fn, name): r = fresh(name, BOOL); return r
def DOMS(m): return uf("the_domains", INT, INT)(m)
def lit(E, t, s): return z3.eq(t, E.lit(s))
SPEC = {"logger", "getSystemClass", "getConstSelectionCriteria", "getSelectionCriteria"}
# ---- the import of all domains
def iop(names):
    def f(fn):
        n = nm(fn)
        if n == "checkTuningModeOn": return "inline"
        return None if n in names else "reader"
    return f
def idret(E, st, fn, this, args):
    n = nm(fn)
    if n in ("getConfigurableDomains", "getConstConfigurableDomains"): r = DOMS(this); st.fact(r > 0); return r
    if n == "wrapLegacyXmlImport": r = fresh("imported", BOOL); st.ghost["x_ok"] = r; return r
    if n == "addDomain": r = fresh("added", BOOL); st.ghost["x_add"] = r; return r
def mkimport(single):
    p = dict(src=0, over=1, with_=2, file=3) if single else dict(src=0, with_=1, file=2)
    def call(E, st, fn, this, args, kind):
        n = nm(fn); u = E.ucx; g = lambda x: E.gh(st, x); tm = u.pre(c16.TM, u.this)
        if n == "wrapLegacyXmlImport":
            E.oblige(st, And(tm, g("x_ph") == 0), "imported once, in tuning mode", "guard"); st.ghost["x_ph"] = IntVal(1); el = ob(E, st, args[3]); st.ghost["x_el"] = el
            E.oblige(st, And(arg(E, st, args[0]) == u.v(p["src"]), arg(E, st, args[1]) == u.v(p["file"]), arg(E, st, args[2]) == u.v(p["with_"])), "from the source given, with settings as asked for", "guard")
            if not single: E.oblige(st, el == DOMS(u.this), "into the domains", "guard")
            else: E.oblige(st, el != DOMS(u.this), "not into the domains themselves", "guard")
        if n == "addDomain":
            E.oblige(st, And(g("x_ph") == 1, g("x_ok")), "added after a successful import, once", "guard"); st.ghost["x_ph"] = IntVal(2)
            E.oblige(st, And(this == DOMS(u.this), ob(E, st, args[0]) == g("x_el"), arg(E, st, args[1]) == u.v(1)), "the domain imported, overwriting only as asked for", "guard")
        if n == "validate":
            E.oblige(st, And(g("x_ok"), this == g("x_el"), arg(E, st, args[0]) == u.pre(MBB, u.this)), "what was imported is completed from the main memory", "guard"); st.ghost["x_val"] = BoolVal(True)
    def post(c):
        tm = c.pre(c16.TM, c.this); ph, ok = c.post.g("x_ph"), c.post.g("x_ok"); done = And(tm, ph >= 1, ok)
        if single: done = And(done, ph == 2, c.post.g("x_add"))
        return [("success is a successful import", c.retv == done), ("the imported areas without settings were completed", Implies(c.retv, c.post.g("x_val"))), ("tried whenever tuning mode is on", (ph >= 1) == tm)] + ([("added whenever imported", Implies(And(tm, ok), ph == 2))] if single else [])
    return call, post
nothing = lambda c: [("nothing yet", And(c.pre.g("x_ph") == 0, Not(c.pre.g("x_val")), Not(c.pre.g("x_err")), c.pre.g("x_n") == 0, c.pre.g("x_cnt") == 0))]
X = dict(special=True, noframe=True)
for name, single in (("importDomainsXml", False), ("importSingleDomainXml", True)):
    cl, po = mkimport(single); C("CParameterMgr::" + name, props="C28", pre=lambda c: nothing(c) + [("the domains exist", And(DOMS(c.this) > 0, symex.STAMP(DOMS(c.this)) <= Int("top!0")))], post=po, opts=dict(X, opaque=iop(("make_unique",)), oncall=cl, opret=idret), **I0)
# ---- parsing a document into an element: clean before, and after a failure
def wret(E, st, fn, this, args):
    n = nm(fn)
    if n == "mkXmlDoc": r = fresh("document", INT); st.ghost["x_doc"] = r; return r
    if n == "xmlParse": r = fresh("parsed", BOOL); st.ghost["x_ok"] = r; return r
def wcall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; g = lambda x: E.gh(st, x)
    if n == "mkXmlDoc": E.oblige(st, And(g("x_ph") == 0, arg(E, st, args[0]) == u.v(0), arg(E, st, args[1]) == u.v(1)), "the document given is read", "guard"); st.ghost["x_ph"] = IntVal(1)
    if n == "CXmlDomainImportContext" and fn.ctor: E.oblige(st, arg(E, st, args[1]) == u.v(2), "settings as asked for", "guard")
    if n == "xmlParse": E.oblige(st, And(g("x_ph") == 1, g("x_doc") != 0), "parsed once read", "guard"); E.oblige(st, And(arg(E, st, args[1]) == bbarg(u, 3), arg(E, st, args[2]) == g("x_doc"), arg(E, st, args[5])), "into the element, replacing its content", "guard"); st.ghost["x_ph"] = IntVal(2)
C("CParameterMgr::wrapLegacyXmlImport", props="C28", pre=nothing, post=lambda c: [("success is a document read and parsed", c.retv == And(c.post.g("x_doc") != 0, c.post.g("x_ok"), c.post.g("x_ph") == 2)), ("a document read is parsed", (c.post.g("x_ph") == 2) == (c.post.g("x_doc") != 0))], opts=dict(X, opaque=lambda fn: "reader", oncall=wcall, opret=wret), **I0)
def pret(E, st, fn, this, args):
    if nm(fn) == "process": r = fresh("processed", BOOL); st.ghost["x_ok"] = r; return r
def pcall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; g = lambda x: E.gh(st, x); el = u.v(1)
    if n == "clean": E.oblige(st, And(this == el, u.v(5)), "only the element is cleaned, only to be replaced", "guard"); st.ghost["x_cnt"] = g("x_cnt") + 1; st.ghost["x_b1"] = BoolVal(True)
    if n == "process": E.oblige(st, And(g("x_ph") == 0, Implies(u.v(5), g("x_cnt") >= 1)), "the element was cleaned before", "guard"); st.ghost["x_ph"] = IntVal(1); st.ghost["x_b1"] = BoolVal(False)
C("CParameterMgr::xmlParse", props="C28", pre=nothing, post=lambda c: [("success is that of the parsing", c.retv == c.post.g("x_ok")), ("parsed once", c.post.g("x_ph") == 1), ("nothing of a failed parsing is left behind", Implies(And(Not(c.retv), c.v(5)), c.post.g("x_b1"))), ("what was parsed stays", Implies(c.retv, Not(c.post.g("x_b1"))))], opts=dict(X, opaque=lambda fn: None if fn.key.find("lambda") >= 0 or fn.n == "operator()" else "reader", oncall=pcall, opret=pret), **I0)
# ---- adding a domain
FOUND = lambda c: uf("domain_named", INT, STR(c), INT)(c.this, uf("name_of", INT, STR(c))(bbarg(c, 0)))
def adret(E, st, fn, this, args):
    n = nm(fn)
    if n == "getName": return uf("name_of", INT, STRS(E))(this)
    if n == "findConfigurableDomain": r = uf("domain_named", INT, STRS(E), INT)(this, arg(E, st, args[0])); st.fact(r >= 0); return r
def adcall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; g = lambda x: E.gh(st, x)
    if n == "deleteDomain": E.oblige(st, And(this == u.this, ob(E, st, args[0]) == FOUND(u), FOUND(u) != 0, u.v(1)), "an existing domain is replaced only when asked for", "guard"); st.ghost["x_b1"] = BoolVal(True)
    if n == "addChild": E.oblige(st, And(this == u.this, arg(E, st, args[0]) == bbarg(u, 0), g("x_n") == 0, Implies(FOUND(u) != 0, g("x_b1"))), "the domain given is added once, in place of the one of its name", "guard"); st.ghost["x_n"] = IntVal(1)
C("CConfigurableDomains::addDomain", props="C28", pre=lambda c: nothing(c) + [("nothing deleted yet", Not(c.pre.g("x_b1")))], post=lambda c: [("refused exactly when it exists and overwriting was not asked for", c.retv == Or(FOUND(c) == 0, c.v(1))), ("added exactly then", (c.post.g("x_n") == 1) == c.retv), ("a refusal deletes nothing", Implies(Not(c.retv), Not(c.post.g("x_b1"))))], opts=dict(X, opaque=lambda fn: "reader", oncall=adcall, opret=adret), **I0)
# ---- composing: one child per element of the list, in its order
def PATHOF(E, e): return uf("path_of", INT, STRS(E))(e)
def NAMEOF(E, e): return uf("name_of", INT, STRS(E))(e)
def XNAME(E, e): return uf("xml_name_of", INT, STRS(E))(e)
def cret(E, st, fn, this, args):
    n = nm(fn)
    if n == "getPath": return PATHOF(E, this)
    if n == "getName": return NAMEOF(E, this)
    if n == "getXmlElementName": return XNAME(E, this)
    if n == "withSettings": return uf("with_settings", INT, BOOL)(this)
def cop(fn):
    n = nm(fn)
    return None if n in ("getConfigurableElement", "getNbChildren", "getChild", "begin", "end", "get") else "reader"
class D0:
    def __init__(s, E): s.S, s.eng = E.S, E
def listitem(E, st, lst, k): c = D0(E); return at(c, lst, k)
def composer(lst, tag, done, first=None, item=None):
    """first: tag of the container created in the element given; tag(E, x): type of the child of the item x; done: the call which fills the child"""
    def call(E, st, fn, this, args, kind):
        n = nm(fn); u = E.ucx; g = lambda x: E.gh(st, x); c = D0(E); L = lst(u); cur = at(c, L, g("x_n")); cur = item(u, cur) if item else cur
        if n == "createChild":
            t = arg(E, st, args[1]); o = ob(E, st, args[0])
            if first is not None and lit(E, t, first) and z3.is_true(z3.simplify(BoolVal(first != tag))): E.oblige(st, And(this == bbarg(u, 0), g("x_ph") == 0), "one %s in the element given" % first, "guard"); st.ghost["x_ph"] = IntVal(1); st.ghost["x_doc"] = o; return
            E.oblige(st, And(g("x_cnt") == g("x_n"), g("x_n") < vlen(c, L)), "one child for each item", "guard"); E.oblige(st, this == (g("x_doc") if first is not None else bbarg(u, 0)), "in the right place", "guard")
            E.oblige(st, t == (E.lit(tag) if isinstance(tag, str) else tag(E, cur)), "of the right type", "guard"); st.ghost["x_cnt"] = g("x_cnt") + 1; st.ghost["x_el"] = o; st.ghost["x_b1"] = BoolVal(False)
        if n in ("setAttribute", "setNameAttribute") and done != n: E.oblige(st, And(this == g("x_el"), g("x_cnt") == g("x_n") + 1), "named by its %s" % n, "guard"); E.oblige(st, (And(arg(E, st, args[0]) == E.lit("Path"), arg(E, st, args[1]) == PATHOF(E, cur)) if n == "setAttribute" else arg(E, st, args[0]) == NAMEOF(E, cur)), "with the name of the item", "guard"); st.ghost["x_b1"] = BoolVal(True)
        if n == done:
            E.oblige(st, g("x_cnt") == g("x_n") + 1, "%s once per child" % n, "guard"); raw = at(c, L, g("x_n")); st.ghost["x_n"] = g("x_n") + 1
            if n == "setAttribute": E.oblige(st, And(this == g("x_el"), arg(E, st, args[0]) == E.lit("Path"), arg(E, st, args[1]) == PATHOF(E, cur)), "the path of the element", "guard")
            else:
                E.oblige(st, And((this if n != "exportOneConfigurableElementSettings" else arg(E, st, args[0])) == raw, ob(E, st, args[0 if n != "exportOneConfigurableElementSettings" else 1]) == g("x_el")), "the item fills its own child", "guard")
                if n != "toXml": E.oblige(st, g("x_b1"), "the child names the item", "guard")
    def loops(L):
        G = lambda st, x: L.eng.gh(st, x); out = []
        for _, f in L.cursors() + L.ivars():
            if not z3.is_int(f(L.hv)): continue
            out += [("items so far", lambda st, f=f: And(G(st, "x_n") == f(st), G(st, "x_cnt") == f(st), f(st) <= vlen(D0(L.eng), lst(L.eng.ucx)))), ("phase", lambda st: And(G(st, "x_ph") == G(L.st0, "x_ph"), G(st, "x_doc") == G(L.st0, "x_doc")))]
        return out
    def post(cond=lambda c: BoolVal(True)):
        return lambda c: [("every item, in its order", Implies(cond(c), And(c.post.g("x_n") == vlen(c, lst(c)), c.post.g("x_cnt") == c.post.g("x_n")))), ("nothing otherwise", Implies(Not(cond(c)), And(c.post.g("x_n") == 0, c.post.g("x_ph") == 0, c.post.g("x_cnt") == 0)))] + ([("one container", Implies(cond(c), c.post.g("x_ph") == 1))] if first is not None else [])
    return call, loops, post
from c15 import EL
from c12 import AR
from c10 import ALL, CR, MW, MV, TY
def comp(name, lst, tag, done, first=None, cond=None, item=None, **kw):
    ca, lo, po = composer(lst, tag, done, first, item); C(name, props="C28", pre=lambda c: nothing(c) + [("items", (lambda v, k: And(vlen(c, v) < (1 << 40), ForAll([k], Implies(inseq(c, v, k), And(at(c, v, k) != 0, symex.STAMP(at(c, v, k)) <= Int("top!0"))), patterns=pt(at(c, v, k)))))(lst(c), qv(c)))], post=po(cond) if cond else po(), loops=lo, opts=dict(X, opaque=cop, oncall=ca, opret=cret), **dict(I0, **kw))
kl = lambda c: c.pre(CH, c.this)
comp("CElement::childrenToXml", kl, XNAME, "toXml")
comp("CConfigurableDomain::composeConfigurableElements", lambda c: c.pre(EL, c.this), "ConfigurableElement", "setAttribute", first="ConfigurableElements")
comp("CConfigurableDomain::composeSettings", kl, XNAME, "composeSettings", first="Settings", cond=lambda c: uf("with_settings", INT, BOOL)(bbarg(c, 1)))
ACE = "CAreaConfiguration::_pConfigurableElement"
comp("CDomainConfiguration::composeSettings", lambda c: c.pre(AR, c.this), "ConfigurableElement", "exportOneConfigurableElementSettings", item=lambda u, a: u.pre(ACE, a))
# ---- reading: the document as nodes; an element object denotes a node
def NODE(E, st, o): return Select(E.gh(st, "x_node"), o)
def setnode(E, st, o, n): st.ghost["x_node"] = Store(E.gh(st, "x_node"), o, n)
def NK(n): return uf("xml_kids", INT, INT)(n)
def KID(n, i): return uf("xml_kid", INT, INT, INT)(n, i)
def HASA(E, n, t): return uf("xml_has_attr", INT, STRS(E), BOOL)(n, t)
def ATTR(E, n, t): return uf("xml_attr", INT, STRS(E), STRS(E))(n, t)
def HASN(E, n, t): return uf("xml_has_named", INT, STRS(E), BOOL)(n, t)
def NAMED(E, n, t): return uf("xml_named", INT, STRS(E), INT)(n, t)
def HASNN(E, n, t, m): return uf("xml_has_named2", INT, STRS(E), STRS(E), BOOL)(n, t, m)
def NAMEDN(E, n, t, m): return uf("xml_named2", INT, STRS(E), STRS(E), INT)(n, t, m)
def XTYPE(E, n): return uf("xml_type", INT, STRS(E))(n)
def XTEXT(E, n): return uf("xml_text", INT, STRS(E))(n)
def XNAMEA(E, n): return ATTR(E, n, E.lit("Name"))
def xread(E, st, fn, this, args):
    n, q = nm(fn), fn.clsq or ""
    if q.startswith("CXmlElement::CChildIterator") or n in ("CChildIterator", "next"):
        if fn.ctor: st.ghost["x_it"] = NODE(E, st, ob(E, st, args[0])); st.ghost["x_pos"] = IntVal(0); st.fact(NK(st.ghost["x_it"]) >= 0); return None
        p, i = E.gh(st, "x_it"), E.gh(st, "x_pos"); o = ob(E, st, args[0]); more = i < NK(p); st.fact(And(NK(p) >= 0, NK(p) < (1 << 40)))
        setnode(E, st, o, If(more, KID(p, i), NODE(E, st, o))); st.ghost["x_pos"] = If(more, i + 1, i); return more
    if q != "CXmlElement": return None
    if n == "getAttribute" and len(args) == 2:
        t, e = arg(E, st, args[0]), NODE(E, st, this); old = E.load(st, args[1])
        if old.sort() == STRS(E): E.store(st, args[1], If(HASA(E, e, t), ATTR(E, e, t), E._xold)); return HASA(E, e, t)
        return None
    if n == "getChildElement":
        e = NODE(E, st, this); t = arg(E, st, args[0]); o = ob(E, st, args[-1])
        h, v = (HASN(E, e, t), NAMED(E, e, t)) if len(args) == 2 else (HASNN(E, e, t, arg(E, st, args[1])), NAMEDN(E, e, t, arg(E, st, args[1])))
        setnode(E, st, o, If(h, v, NODE(E, st, o))); return h
    if n == "getType": return XTYPE(E, NODE(E, st, this))
    if n == "getNameAttribute": return XNAMEA(E, NODE(E, st, this))
    if n == "getTextContent": return XTEXT(E, NODE(E, st, this))
    if n == "getNbChildElements": return NK(NODE(E, st, this))

def saving(cb):
    def f(E, st, fn, this, args, kind):
        if nm(fn) == "getAttribute" and len(args) == 2: E._xold = E.load(st, args[1])
        if cb: cb(E, st, fn, this, args, kind)
    return f
GHOSTS["x_it"] = INT; GHOSTS["x_pos"] = INT
def xret(f): 
    def r(E, st, fn, this, args):
        v = xread(E, st, fn, this, args)
        return v if v is not None or f is None else f(E, st, fn, this, args)
    return r
def isx(fn): return (fn.clsq or "").startswith("CXmlElement")
# ---- value space: written when raw, read back
CTX = lambda c, i: bbarg(c, i)
SO, VR = "CConfigurationAccessContext::_bSerializeOut", "CParameterAccessContext::_bValueSpaceIsRaw"
def vscall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx
    if n == "setAttribute":
        E.oblige(st, And(this == bbarg(u, 0), arg(E, st, args[0]) == E.lit("ValueSpace"), arg(E, st, args[1]) == E.lit("Raw")), "the raw value space is written as such", "guard"); st.ghost["x_b1"] = BoolVal(True)
for k in ("CFixedPointParameterType", "CFloatingPointParameterType"):
    C(k + "::handleValueSpaceAttribute", props="C28", pre=lambda c: [("nothing written", Not(c.pre.g("x_b1")))], opts=dict(X, opaque=lambda fn: "reader" if isx(fn) else None, oncall=saving(vscall), opret=xret(None)), post=lambda c: (lambda out, e: [
        ("written exactly when it is raw", c.post.g("x_b1") == And(out, c.pre(VR, CTX(c, 1)))), ("writing leaves the value space", Implies(out, c.post(VR, CTX(c, 1)) == c.pre(VR, CTX(c, 1)))),
        ("read as raw exactly when written as raw", Implies(Not(out), c.post(VR, CTX(c, 1)) == And(HASA(c.eng, e, c.eng.lit("ValueSpace")), ATTR(c.eng, e, c.eng.lit("ValueSpace")) == c.eng.lit("Raw"))))])(c.pre(SO, CTX(c, 1)), Select(c.pre.g("x_node"), bbarg(c, 0))), **I0)
# ---- rules
def ratt(E, names): return {nm_: E.lit(nm_) for nm_ in names}
def crcall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; e = bbarg(u, 0)
    if n == "setAttribute":
        E.oblige(st, And(this == e, arg(E, st, args[0]) == E.lit("Type"), arg(E, st, args[1]) == If(u.pre(ALL, u.this), E.lit("All"), E.lit("Any"))), "the type of the rule is written", "guard"); st.ghost["x_b1"] = BoolVal(True)
    if n == "toXml": E.oblige(st, And(this == u.this, ob(E, st, args[0]) == e), "its own sub-rules are written", "guard"); st.ghost["x_b2"] = BoolVal(True)
    if n == "fromXml": E.oblige(st, And(this == u.this, ob(E, st, args[0]) == e), "its own sub-rules are read", "guard"); st.ghost["x_b2"] = BoolVal(True)
def crret(E, st, fn, this, args):
    if nm(fn) == "fromXml": r = fresh("read", BOOL); st.ghost["x_ok"] = r; return r
noflags = lambda c: [("nothing yet", And(Not(c.pre.g("x_b1")), Not(c.pre.g("x_b2")), c.pre.g("x_n") == 0, c.pre.g("x_ph") == 0))]
cxop = lambda fn: "reader"
C("CCompoundRule::toXml", props="C28", pre=noflags, opts=dict(X, opaque=cxop, oncall=crcall, opret=crret), post=lambda c: [("type and sub-rules are written", And(c.post.g("x_b1"), c.post.g("x_b2")))], **I0)
C("CCompoundRule::fromXml", props="C28", pre=noflags, opts=dict(X, opaque=cxop, oncall=saving(crcall), opret=xret(crret)), post=lambda c: (lambda e, t: [("All exactly when it was written", c.post(ALL, c.this) == And(HASA(c.eng, e, t), ATTR(c.eng, e, t) == c.eng.lit("All"))), ("its sub-rules are read", And(c.post.g("x_b2"), c.retv == c.post.g("x_ok")))])(Select(c.pre.g("x_node"), bbarg(c, 0)), c.eng.lit("Type")), **I0)
def CRIT(E, t): return uf("criterion_named", STRS(E), INT)(t)
def NUMOK(E, t, s): return uf("numerical_known", INT, STRS(E), BOOL)(t, s)
def NUMV(E, t, s): return uf("numerical_of", INT, STRS(E), INT)(t, s)
def VERB(E, r): return uf("verb_of", INT, INT, STRS(E))(r, IntVal(0))
def MVS(E, r): return uf("match_text", INT, STRS(E))(r)
def attof(E, e, a): return If(HASA(E, e, E.lit(a)), ATTR(E, e, E.lit(a)), E.lit(""))
def scret(E, st, fn, this, args):
    n = nm(fn); u = E.ucx; e = Select(u.pre.g("x_node"), bbarg(u, 0))
    if n == "getSelectionCriterion": r = CRIT(E, arg(E, st, args[0])); st.fact(r >= 0); return r
    if n == "setMatchesWhen": r = uf("verb_ok", INT, STRS(E), BOOL)(this, arg(E, st, args[0])); return r
    if n == "getNumericalValue": t = arg(E, st, args[0]); E.store(st, args[1], NUMV(E, this, t)); return NUMOK(E, this, t)
    if n == "getCriterionType": r = uf("type_of_criterion", INT, INT)(this); st.fact(r > 0); return r
    if n == "getName": return NAMEOF(E, this)
    if n == "getMatchValueAsString": return MVS(E, this)
def sccall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; e = Select(u.pre.g("x_node"), bbarg(u, 0))
    if n == "getSelectionCriterion": E.oblige(st, arg(E, st, args[0]) == attof(E, e, "SelectionCriterion"), "the criterion written is looked up", "guard")
    if n == "setMatchesWhen": E.oblige(st, And(this == u.this, arg(E, st, args[0]) == attof(E, e, "MatchesWhen"), c12.StV(E, st)(CR, u.this) == CRIT(E, attof(E, e, "SelectionCriterion"))), "the verb written, once the criterion is known", "guard"); st.ghost["x_b1"] = BoolVal(True)
    if n == "getNumericalValue": E.oblige(st, And(this == uf("type_of_criterion", INT, INT)(CRIT(E, attof(E, e, "SelectionCriterion"))), arg(E, st, args[0]) == attof(E, e, "Value")), "the value written, among those of the criterion", "guard"); st.ghost["x_b2"] = BoolVal(True)
    if n == "setAttribute":
        a, v = arg(E, st, args[0]), arg(E, st, args[1]); r = u.this; cr = u.pre(CR, r); w = u.pre(MW, r); L = [E.lit(x) for x in ("Is", "IsNot", "Includes", "Excludes")]
        E.oblige(st, And(this == bbarg(u, 0), Or(And(a == E.lit("SelectionCriterion"), v == NAMEOF(E, cr)), And(a == E.lit("MatchesWhen"), v == If(w == 0, L[0], If(w == 1, L[1], If(w == 2, L[2], L[3])))), And(a == E.lit("Value"), v == MVS(E, r)))), "criterion, verb and value are those of the rule", "guard")
        for g, k in (("x_b1", "SelectionCriterion"), ("x_b2", "MatchesWhen"), ("x_val", "Value")): st.ghost[g] = Or(E.gh(st, g), a == E.lit(k))
C(R_ + "toXml", props="C28", pre=lambda c: noflags(c) + [("loaded rule", And(c.pre(CR, c.this) != 0, c.pre(MW, c.this) >= 0, c.pre(MW, c.this) <= 3, Not(c.pre.g("x_val"))))], opts=dict(X, opaque=cxop, oncall=sccall, opret=scret), post=lambda c: [("criterion, verb and value are written", And(c.post.g("x_b1"), c.post.g("x_b2"), c.post.g("x_val")))], **I0)
def scpost(c):
    E = c.eng; e = Select(c.pre.g("x_node"), bbarg(c, 0)); A = lambda a: attof(E, e, a); cr = CRIT(E, A("SelectionCriterion")); t = uf("type_of_criterion", INT, INT)(cr)
    ok = And(cr != 0, uf("verb_ok", INT, STR(c), BOOL)(c.this, A("MatchesWhen")), NUMOK(E, t, A("Value")))
    return [("read exactly when criterion, verb and value are known", c.retv == ok), ("the rule read is the one written", Implies(c.retv, And(c.post(CR, c.this) == cr, c.post(MV, c.this) == NUMV(E, t, A("Value")), c.post.g("x_b1"), c.post.g("x_b2"))))]
C(R_ + "fromXml", props="C28", pre=noflags, opts=dict(X, opaque=cxop, oncall=saving(sccall), opret=xret(scret)), post=scpost, **I0)
# ---- the domain: its configurations, its elements, their settings, in that order
def dtcall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; g = lambda x: E.gh(st, x); e = bbarg(u, 0)
    k = {"composeDomainConfigurations": 0, "composeConfigurableElements": 1, "composeSettings": 2}.get(n)
    if k is not None: E.oblige(st, And(this == u.this, ob(E, st, args[0]) == e), "each part of the domain is written to its element", "guard"); g_ = ("x_b1", "x_b2", "x_val")[k]; E.oblige(st, Not(g(g_)), "once", "guard"); st.ghost[g_] = BoolVal(True)
C("CConfigurableDomain::childrenToXml", props="C28", pre=lambda c: noflags(c) + [("nothing yet", Not(c.pre.g("x_val")))], opts=dict(X, opaque=cxop, oncall=dtcall), post=lambda c: [("configurations, elements and settings are written", And(c.post.g("x_b1"), c.post.g("x_b2"), c.post.g("x_val")))], **I0)
SA = "CConfigurableDomain::_bSequenceAware"
def dxcall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; e = bbarg(u, 0)
    if n == "toXml": E.oblige(st, And(this == u.this, ob(E, st, args[0]) == e), "the domain is written as an element", "guard"); st.ghost["x_b2"] = BoolVal(True)
    if n == "setAttribute": E.oblige(st, And(this == e, arg(E, st, args[0]) == E.lit("SequenceAware"), arg(E, st, args[1]) == u.pre(SA, u.this)), "its sequence awareness is written", "guard"); st.ghost["x_b1"] = BoolVal(True)
C("CConfigurableDomain::toXml", props="C28", pre=noflags, opts=dict(X, opaque=cxop, oncall=dxcall), post=lambda c: [("element and sequence awareness are written", And(c.post.g("x_b1"), c.post.g("x_b2")))], **I0)
def cccall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; g = lambda x: E.gh(st, x)
    if n == "createChild": E.oblige(st, And(this == bbarg(u, 0), arg(E, st, args[1]) == E.lit("Configurations"), g("x_ph") == 0), "one Configurations element", "guard"); st.ghost["x_ph"] = IntVal(1); st.ghost["x_el"] = ob(E, st, args[0])
    if n == "childrenToXml": E.oblige(st, And(this == u.this, ob(E, st, args[0]) == g("x_el"), g("x_ph") == 1), "its configurations are written there", "guard"); st.ghost["x_b1"] = BoolVal(True)
C("CConfigurableDomain::composeDomainConfigurations", props="C28", pre=noflags, opts=dict(X, opaque=cxop, oncall=cccall), post=lambda c: [("the configurations are written", c.post.g("x_b1"))], **I0)
def exw(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; e = bbarg(u, 0)
    k = {"setXmlNameAttribute": "x_b1", "setXmlDescriptionAttribute": "x_b2", "childrenToXml": "x_val"}.get(n)
    if k: E.oblige(st, And(this == u.this, ob(E, st, args[0]) == e, Not(E.gh(st, k))), "%s on its own element" % n, "guard"); st.ghost[k] = BoolVal(True)
C("CElement::toXml", props="C28", pre=lambda c: noflags(c) + [("nothing yet", Not(c.pre.g("x_val")))], opts=dict(X, opaque=cxop, oncall=exw), post=lambda c: [("name, description and children are written", And(c.post.g("x_b1"), c.post.g("x_b2"), c.post.g("x_val")))], **I0)
# reading it back
def drcall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; g = lambda x: E.gh(st, x); e = bbarg(u, 0); en = Select(u.pre.g("x_node"), e)
    k = {"parseDomainConfigurations": 0, "parseConfigurableElements": 1, "parseSettings": 2}.get(n)
    if k is not None: E.oblige(st, And(this == u.this, ob(E, st, args[0]) == e, g("x_ph") == k, g("x_ok")), "configurations, then elements, then settings", "guard"); st.ghost["x_ph"] = IntVal(k + 1)
    if n == "setName": E.oblige(st, And(this == u.this, Implies(HASA(E, en, E.lit("Name")), arg(E, st, args[0]) == XNAMEA(E, en))), "the name read", "guard"); st.ghost["x_b1"] = BoolVal(True)
    if n == "autoValidateAll": E.oblige(st, And(this == u.this, g("x_ph") == 3, g("x_ok")), "completed once everything is read", "guard"); st.ghost["x_val"] = BoolVal(True)
    if n == "appendLineToError": st.ghost["x_err"] = BoolVal(True)
def drret(E, st, fn, this, args):
    n = nm(fn)
    if n in ("parseDomainConfigurations", "parseConfigurableElements", "parseSettings"): r = fresh("parsed", BOOL); st.ghost["x_ok"] = r; return r
    if n == "autoValidationRequired": return uf("auto_validation", INT, BOOL)(this)
C("CConfigurableDomain::fromXml", props="C28", pre=lambda c: noflags(c) + [("nothing yet", And(Not(c.pre.g("x_val")), c.pre.g("x_ok"), Not(c.pre.g("x_err"))))], opts=dict(X, opaque=cxop, oncall=saving(drcall), opret=xret(drret)), post=lambda c: [("success is all three parts read", Implies(c.retv, And(c.post.g("x_ph") == 3, c.post.g("x_ok"), c.post.g("x_b1")))), ("a failure is that of a part or of an attribute", Implies(Not(c.retv), Or(Not(c.post.g("x_ok")), c.post.g("x_err")))), ("completed exactly when asked for", Implies(c.retv, c.post.g("x_val") == uf("auto_validation", INT, BOOL)(bbarg(c, 1))))], **I0)
def pdcall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; en = Select(u.pre.g("x_node"), bbarg(u, 0)); t = E.lit("Configurations")
    if n == "fromXml": E.oblige(st, And(this == u.this, Implies(HASN(E, en, t), NODE(E, st, ob(E, st, args[0])) == NAMED(E, en, t))), "the configurations are read from their element", "guard"); st.ghost["x_b2"] = BoolVal(True)
C("CConfigurableDomain::parseDomainConfigurations", props="C28", pre=lambda c: noflags(c) + [("a domain being read has no elements yet", vlen(c, c.pre(EL, c.this)) == 0)], opts=dict(X, opaque=cxop, oncall=saving(pdcall), opret=xret(crret)), post=lambda c: [("the configurations are read", And(c.post.g("x_b2"), c.retv == c.post.g("x_ok")))], **I0)
# ---- the elements of a domain read: each one written is looked up and added
def pcall2(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; g = lambda x: E.gh(st, x); cur = KID(g("x_it"), g("x_pos") - 1); p = attof(E, cur, "Path")
    if n == "CPathNavigator" and fn.ctor: E.oblige(st, Implies(HASA(E, cur, E.lit("Path")), arg(E, st, args[0]) == p), "the path written is looked up", "guard"); st.ghost["x_b1"] = BoolVal(True)
    if n == "addConfigurableElement": E.oblige(st, And(this == u.this, g("x_ok"), g("x_n") == g("x_pos") - 1, g("x_b1"), ob(E, st, args[0]) == g("x_el")), "the element found is added once", "guard"); st.ghost["x_n"] = g("x_n") + 1; st.ghost["x_b1"] = BoolVal(False)
    if n == "findDescendant": E.oblige(st, g("x_b1"), "the element is looked up by its path", "guard")
    if n == "setError": st.ghost["x_err"] = BoolVal(True)
def pret2(E, st, fn, this, args):
    n = nm(fn)
    if n == "findDescendant": r = fresh("found", INT); st.fact(r >= 0); st.ghost["x_el"] = r; return r
    if n == "addConfigurableElement": r = fresh("added", BOOL); st.ghost["x_ok"] = r; return r
def nodeloops(L):
    G = lambda st, x: L.eng.gh(st, x)
    return [("as many as read", lambda st: And(G(st, "x_n") == G(st, "x_pos"), G(st, "x_pos") >= 0, G(st, "x_pos") <= NK(G(st, "x_it")))), ("of the same element", lambda st: G(st, "x_it") == G(L.st0, "x_it")), ("no error", lambda st: And(Not(G(st, "x_err")), G(st, "x_ok")))]
nopos = lambda c: nothing(c) + [("nothing yet", And(c.pre.g("x_pos") == 0, Not(c.pre.g("x_b1")), c.pre.g("x_ok")))]
def allread(tag):
    def f(c):
        E = c.eng; en = Select(c.pre.g("x_node"), bbarg(c, 0)); t = E.lit(tag)
        return [("success is every one of them read", Implies(c.retv, And(c.post.g("x_n") == NK(c.post.g("x_it")), Implies(HASN(E, en, t), c.post.g("x_it") == NAMED(E, en, t))))), ("a failure is reported", Implies(Not(c.retv), c.post.g("x_err")))]
    return f
C("CConfigurableDomain::parseConfigurableElements", props="C28", pre=nopos, loops=nodeloops, opts=dict(X, opaque=cxop, oncall=saving(pcall2), opret=xret(pret2)), post=allread("ConfigurableElements"), **I0)
# ---- the children of an element read
def efcall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; g = lambda x: E.gh(st, x); cur = KID(g("x_it"), g("x_pos") - 1)
    if n == "createChild": E.oblige(st, And(this == u.this, uf("dynamic", INT, BOOL)(u.this), NODE(E, st, ob(E, st, args[0])) == cur), "created from its own element", "guard")
    if n == "findChildOfKind": E.oblige(st, And(this == u.this, Not(uf("dynamic", INT, BOOL)(u.this)), arg(E, st, args[0]) == XTYPE(E, cur)), "looked up by the type of its element", "guard")
    if n == "fromXml": E.oblige(st, And(this == g("x_el"), NODE(E, st, ob(E, st, args[0])) == cur, g("x_ok"), g("x_n") == g("x_pos") - 1), "each child is read from its own element, once", "guard"); st.ghost["x_n"] = g("x_n") + 1
    if n == "setError": st.ghost["x_err"] = BoolVal(True)
def efret(E, st, fn, this, args):
    n = nm(fn)
    if n == "childrenAreDynamic": return uf("dynamic", INT, BOOL)(this)
    if n in ("createChild", "findChildOfKind"): r = fresh("child", INT); st.fact(r >= 0); st.ghost["x_el"] = r; return r
    if n == "fromXml": r = fresh("read", BOOL); st.ghost["x_ok"] = r; return r
C("CElement::fromXml", props="C28", pre=nopos, loops=nodeloops, opts=dict(X, opaque=cxop, oncall=saving(efcall), opret=xret(efret)), post=lambda c: [("success is every child read", Implies(c.retv, And(c.post.g("x_n") == NK(c.post.g("x_it")), c.post.g("x_it") == Select(c.pre.g("x_node"), bbarg(c, 0)))))], **I0)
# ---- the settings of one element of a configuration
def oecall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; g = lambda x: E.gh(st, x); d = u.pre(ACE, u.v(0)); V_ = c12.StV(E, st)
    if n == "createChild": E.oblige(st, And(this == bbarg(u, 1), arg(E, st, args[1]) == XNAME(E, d), g("x_ph") == 0), "one element of the type of the element", "guard"); st.ghost["x_ph"] = IntVal(1); st.ghost["x_el"] = ob(E, st, args[0])
    if n == "serializeXmlSettings":
        cx = ob(E, st, args[1]); E.oblige(st, And(this == u.v(0), ob(E, st, args[0]) == g("x_el"), g("x_ph") == 1, V_(SO, cx), V_(VR, cx) == u.pre("CXmlDomainExportContext::_bValueSpaceIsRaw", bbarg(u, 2)), V_(HXF, cx) == u.pre("CXmlDomainExportContext::_bOutputRawFormatIsHex", bbarg(u, 2))), "the settings of the element are written there, in the space and format asked for", "guard"); st.ghost["x_b1"] = BoolVal(True)
HXF = "CParameterAccessContext::_bOutputRawFormatIsHex"
def oeop(fn): return "inline" if (fn.clsq or "") in ("CAreaConfiguration",) and nm(fn) == "getConfigurableElement" else None if (fn.clsq or "") in ("CConfigurationAccessContext", "CParameterAccessContext", "CXmlDomainExportContext") and nm(fn) not in ("setError", "appendToError") else "reader"
def oeret(E, st, fn, this, args):
    n = nm(fn)
    if n == "getXmlElementName": return XNAME(E, this)
    if n == "getName": return NAMEOF(E, this)
    if n == "serializeXmlSettings": r = fresh("done", BOOL); st.ghost["x_ok"] = r; return r
C("CDomainConfiguration::exportOneConfigurableElementSettings", props="C28", pre=lambda c: noflags(c) + [("the area of an element", And(c.v(0) > 0, c.pre(ACE, c.v(0)) > 0))], opts=dict(X, opaque=oeop, oncall=oecall, opret=oeret), post=lambda c: [("its settings are written", And(c.post.g("x_b1"), c.retv == c.post.g("x_ok")))], **I0)
def oicall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; g = lambda x: E.gh(st, x); d = u.pre(ACE, u.v(0)); V_ = c12.StV(E, st); en = Select(u.pre.g("x_node"), bbarg(u, 1))
    if n == "serializeXmlSettings":
        cx = ob(E, st, args[1]); E.oblige(st, And(this == u.v(0), NK(en) == 1, NODE(E, st, ob(E, st, args[0])) == OIN(E, d, en), Not(V_(SO, cx))), "the settings of the element are read from the one written for it", "guard"); st.ghost["x_b1"] = BoolVal(True)
    if n == "setError": st.ghost["x_err"] = BoolVal(True)
def OIN(E, d, en): return If(HASNN(E, en, XNAME(E, d), NAMEOF(E, d)), NAMEDN(E, en, XNAME(E, d), NAMEOF(E, d)), NAMEDN(E, en, E.lit("Component"), NAMEOF(E, d)))
def oipost(c):
    E = c.eng; d = c.pre(ACE, c.v(0)); en = Select(c.pre.g("x_node"), bbarg(c, 1))
    ok = And(NK(en) == 1, Or(HASNN(E, en, XNAME(E, d), NAMEOF(E, d)), And(XNAME(E, d) == E.lit("ParameterBlock"), HASNN(E, en, E.lit("Component"), NAMEOF(E, d)))))
    return [("read exactly when the one element there is for it", c.post.g("x_b1") == ok), ("success is its settings read", c.retv == And(ok, c.post.g("x_ok"))), ("a structure error is reported", Implies(Not(ok), c.post.g("x_err")))]
C("CDomainConfiguration::importOneConfigurableElementSettings", props="C28", pre=lambda c: noflags(c) + [("the area of an element", And(c.v(0) > 0, c.pre(ACE, c.v(0)) > 0, Not(c.pre.g("x_err"))))], opts=dict(X, opaque=oeop, oncall=saving(oicall), opret=xret(oeret)), post=oipost, **I0)
# ---- the values of an element
OFF, PB, BO, VALID, ABB = "CConfigurableElement::_offset", "CParameterAccessContext::_pParameterBlackboard", "CParameterAccessContext::_uiBaseOffset", "CAreaConfiguration::_bValid", "CAreaConfiguration::_blackboard"
def ctxop(fn): return None if (fn.clsq or "") in ("CConfigurationAccessContext", "CParameterAccessContext") and nm(fn) not in ("setError", "appendToError", "appendLineToError") else "inline" if nm(fn) in ("getOffset",) else "reader"
def arcall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; V_ = c12.StV(E, st); el = u.pre(ACE, u.this)
    if n == "serializeXmlSettings":
        cx = bbarg(u, 1); E.oblige(st, And(this == el, ob(E, st, args[0]) == bbarg(u, 0), ob(E, st, args[1]) == cx, V_(PB, cx) == uf("sub!" + ABB, INT, INT)(u.this), V_(BO, cx) == u.pre(OFF, el)), "the values of the element in the memory of the area", "guard"); st.ghost["x_n"] = E.gh(st, "x_n") + 1
C("CAreaConfiguration::serializeXmlSettings", props="C28", pre=lambda c: noflags(c) + [("the area of an element", c.pre(ACE, c.this) > 0)], opts=dict(X, opaque=ctxop, oncall=arcall, opret=oeret), post=lambda c: [("success is that of the element", And(c.retv == c.post.g("x_ok"), c.post.g("x_n") == 1)), ("an area read is valid, nothing else makes it so", c.post(VALID, c.this) == Or(c.pre(VALID, c.this), And(c.retv, Not(c.pre(SO, bbarg(c, 1))))))], **I0)
GHOSTS["x_txt"] = INT
def bpcall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; g = lambda x: E.gh(st, x); out = u.pre(SO, bbarg(u, 1)); off = u.pre(OFF, u.this) - u.pre(BO, bbarg(u, 1))
    if n in ("doSetValue", "doGetValue"):
        E.oblige(st, And(this == u.this, arg(E, st, args[1]) == off, ob(E, st, args[2]) == bbarg(u, 1), out == BoolVal(n == "doGetValue"), g("x_n") == 0), "its value at its place in the memory", "guard"); st.ghost["x_n"] = g("x_n") + 1
        if n == "doSetValue": E.oblige(st, arg(E, st, args[0]) == XTEXT(E, NODE(E, st, bbarg(u, 0))), "the value read is the text of its element", "guard")
    if n == "setTextContent": E.oblige(st, And(out, this == bbarg(u, 0), g("x_n") == 1, arg(E, st, args[0]) == uf("value_text", INT, STRS(E))(u.this)), "the text of its element is its value", "guard"); st.ghost["x_b1"] = BoolVal(True)
    if n == "serializeXmlSettings": E.oblige(st, And(this == u.this, ob(E, st, args[0]) == bbarg(u, 0), ob(E, st, args[1]) == bbarg(u, 1)), "name and structure are those of any element", "guard"); st.ghost["x_b2"] = BoolVal(True)
def bpret(E, st, fn, this, args):
    n = nm(fn)
    if n == "doGetValue": E.store(st, args[0], uf("value_text", INT, STRS(E))(this)); return None
    if n == "doSetValue": r = fresh("set", BOOL); st.ghost["x_add"] = r; return r
    return oeret(E, st, fn, this, args)
C("CBaseParameter::serializeXmlSettings", props="C28", pre=lambda c: noflags(c) + [("the element is in the area", c.pre(OFF, c.this) >= c.pre(BO, bbarg(c, 1)))], opts=dict(X, opaque=ctxop, oncall=saving(bpcall), opret=xret(bpret)), post=lambda c: (lambda out: [
    ("written: its value", Implies(out, And(c.post.g("x_b1"), c.post.g("x_n") == 1))), ("read: success is a legal value of the right structure", Implies(Not(out), And(c.post.g("x_n") == 1, c.retv == And(c.post.g("x_add"), c.post.g("x_b2"), c.post.g("x_ok"))))), ("written as any element", Implies(out, And(c.post.g("x_b2"), c.retv == c.post.g("x_ok"))))])(c.pre(SO, bbarg(c, 1))), **I0)
def ppcall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx
    if n == "handleValueSpaceAttribute": E.oblige(st, And(this == u.this, ob(E, st, args[0]) == bbarg(u, 0), ob(E, st, args[1]) == bbarg(u, 1)), "the value space of its own element", "guard"); st.ghost["x_b1"] = BoolVal(True)
    if n == "serializeXmlSettings": E.oblige(st, And(this == u.this, ob(E, st, args[0]) == bbarg(u, 0), ob(E, st, args[1]) == bbarg(u, 1), E.gh(st, "x_b1")), "its value, in the value space of its element", "guard"); st.ghost["x_b2"] = BoolVal(True)
C("CParameter::serializeXmlSettings", props="C28", pre=noflags, opts=dict(X, opaque=lambda fn: "reader", oncall=ppcall, opret=oeret), post=lambda c: [("value space, then value", And(c.post.g("x_b1"), c.post.g("x_b2"), c.retv == c.post.g("x_ok")))], **I0)
# ---- the children of an element of the tree: one element each, in order, of its type and name
def cecall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; g = lambda x: E.gh(st, x); c = D0(E); L = kl(u); cur = at(c, L, g("x_n")); out = u.pre(SO, bbarg(u, 1)); en = Select(u.pre.g("x_node"), bbarg(u, 0)); k = KID(en, g("x_n"))
    if n == "setNameAttribute": E.oblige(st, And(out, this == bbarg(u, 0), arg(E, st, args[0]) == NAMEOF(E, u.this)), "its own name is written", "guard"); st.ghost["x_b1"] = BoolVal(True)
    if n == "createChild": E.oblige(st, And(out, this == bbarg(u, 0), arg(E, st, args[1]) == XNAME(E, cur), g("x_cnt") == g("x_n")), "one element of the type of each child", "guard"); st.ghost["x_cnt"] = g("x_cnt") + 1; st.ghost["x_el"] = ob(E, st, args[0])
    if n == "setError": st.ghost["x_err"] = BoolVal(True)
    if n == "serializeXmlSettings":
        o = ob(E, st, args[0]); E.oblige(st, And(this == cur, ob(E, st, args[1]) == bbarg(u, 1), g("x_n") < vlen(c, L)), "each child once, in order", "guard"); E.oblige(st, Implies(out, And(o == g("x_el"), g("x_cnt") == g("x_n") + 1)), "the child is written to its own element", "guard")
        E.oblige(st, Implies(Not(out), And(NODE(E, st, o) == k, Or(g("x_n") == 0, g("x_ok")), g("x_n") < NK(en), XNAMEA(E, k) == NAMEOF(E, cur), Or(XTYPE(E, k) == XNAME(E, cur), And(XNAME(E, cur) == E.lit("ParameterBlock"), XTYPE(E, k) == E.lit("Component"))))), "the child is read from its own element", "guard"); st.ghost["x_n"] = g("x_n") + 1
def celoops(L):
    G = lambda st, x: L.eng.gh(st, x); u = L.eng.ucx; r = []
    for _, f in L.cursors() + L.ivars():
        if not z3.is_int(f(L.hv)): continue
        r += [("children so far", lambda st, f=f: And(G(st, "x_n") == f(st), f(st) >= 0, f(st) <= vlen(D0(L.eng), kl(u)))), ("elements read so far", lambda st, f=f: And(G(st, "x_pos") == f(st), f(st) <= NK(G(st, "x_it")), G(st, "x_it") == G(L.st0, "x_it"))), ("elements written so far", lambda st, f=f: G(st, "x_cnt") == f(st))]
    return r + [("flags", lambda st: And(G(st, "x_b1") == G(L.st0, "x_b1"), Not(G(st, "x_err")))), ("successful", lambda st: Or(G(st, "x_n") == 0, G(st, "x_ok")))]
C("CConfigurableElement::serializeXmlSettings", props="C28", pre=lambda c: nothing(c) + [("children", (lambda v, k: And(vlen(c, v) < (1 << 40), ForAll([k], Implies(inseq(c, v, k), And(at(c, v, k) != 0, symex.STAMP(at(c, v, k)) <= Int("top!0"))), patterns=pt(at(c, v, k)))))(kl(c), qv(c))), ("nothing yet", And(c.pre.g("x_pos") == 0, Not(c.pre.g("x_b1"))))],
  opts=dict(X, opaque=lambda fn: None if nm(fn) in ("getNbChildren", "getChild") else ctxop(fn), oncall=saving(cecall), opret=xret(lambda E, st, fn, this, args: oeret(E, st, fn, this, args))), loops=celoops, post=lambda c: (lambda out, n, en: [
    ("written: its name and each of its children", Implies(out, And(c.retv, c.post.g("x_b1"), c.post.g("x_n") == n, c.post.g("x_cnt") == n))), ("read: success is each child read from an element of its own, none left over", Implies(And(Not(out), c.retv), And(c.post.g("x_n") == n, NK(en) == n))), ("a structure error is reported, otherwise a child failed", Implies(And(Not(out), Not(c.retv)), Or(c.post.g("x_err"), And(c.post.g("x_n") > 0, Not(c.post.g("x_ok")))))), ])(c.pre(SO, bbarg(c, 1)), vlen(c, kl(c)), Select(c.pre.g("x_node"), bbarg(c, 0))), **I0)
# ---- the settings of a domain read: each configuration from its own element
def pscall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; g = lambda x: E.gh(st, x); cur = KID(g("x_it"), g("x_pos") - 1)
    if n == "findChild": E.oblige(st, And(this == u.this, arg(E, st, args[0]) == XNAMEA(E, cur)), "the configuration named is looked up", "guard"); st.ghost["x_b1"] = BoolVal(True)
    if n == "parseSettings": E.oblige(st, And(this == g("x_el"), g("x_b1"), g("x_ok"), NODE(E, st, ob(E, st, args[0])) == cur, g("x_n") == g("x_pos") - 1), "its settings are read from its own element, once", "guard"); st.ghost["x_n"] = g("x_n") + 1; st.ghost["x_b1"] = BoolVal(False)
    if n == "setError": st.ghost["x_err"] = BoolVal(True)
def psret(E, st, fn, this, args):
    n = nm(fn)
    if n == "findChild": r = fresh("found", INT); st.fact(r >= 0); st.ghost["x_el"] = r; return r
    if n == "parseSettings": r = fresh("read", BOOL); st.ghost["x_ok"] = r; return r
    if n == "withSettings": return uf("with_settings", INT, BOOL)(this)
def pspost(c):
    E = c.eng; en = Select(c.pre.g("x_node"), bbarg(c, 0)); t = E.lit("Settings"); w = And(uf("with_settings", INT, BOOL)(bbarg(c, 1)), HASN(E, en, t))
    return [("nothing to read: success", Implies(Not(w), And(c.retv, c.post.g("x_n") == 0))), ("success is every configuration written read", Implies(And(w, c.retv), And(c.post.g("x_it") == NAMED(E, en, t), c.post.g("x_n") == NK(NAMED(E, en, t)), c.post.g("x_ok")))), ("a failure is that of a configuration", Implies(Not(c.retv), Or(c.post.g("x_err"), Not(c.post.g("x_ok")))))]
C("CConfigurableDomain::parseSettings", props="C28", pre=nopos, loops=nodeloops, opts=dict(X, opaque=cxop, oncall=saving(pscall), opret=xret(psret)), post=pspost, **I0)
# ---- exports
def excall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx; g = lambda x: E.gh(st, x); one = len(u.a) == 5
    if n == "findConfigurableDomain": E.oblige(st, And(this == DOMS(u.this), arg(E, st, args[0]) == u.v(1)), "the domain named is looked up", "guard")
    if n == "wrapLegacyXmlExport": E.oblige(st, And(this == u.this, g("x_n") == 0, arg(E, st, args[1]) == u.v(3 if one else 2), arg(E, st, args[2]) == u.v(2 if one else 1), ob(E, st, args[3]) == (DNAMED(E, u.this, u.v(1)) if one else DOMS(u.this))), "what is asked for is exported, with settings as asked for", "guard"); st.ghost["x_n"] = IntVal(1)
def DNAMED(E, m, t): return uf("domain_named", INT, STRS(E), INT)(DOMS(m), t)
def exret(E, st, fn, this, args):
    n = nm(fn)
    if n in ("getConfigurableDomains", "getConstConfigurableDomains"): r = DOMS(this); st.fact(r > 0); return r
    if n == "findConfigurableDomain": r = uf("domain_named", INT, STRS(E), INT)(this, arg(E, st, args[0])); st.fact(r >= 0); return r
    if n == "wrapLegacyXmlExport": r = fresh("exported", BOOL); st.ghost["x_ok"] = r; return r
for n in ("exportDomainsXml", "exportSingleDomainXml"):
    C("CParameterMgr::" + n, props="C28", pre=noflags, opts=dict(X, opaque=cxop, oncall=excall, opret=exret), post=lambda c, one=n == "exportSingleDomainXml": (lambda ok: [("success is a successful export", c.retv == And(ok, c.post.g("x_ok"), c.post.g("x_n") == 1)), ("exported whenever it exists", (c.post.g("x_n") == 1) == ok)])(DNAMED(c.eng, c.this, c.v(1)) != 0 if one else BoolVal(True)), **I0)
def wxcall(E, st, fn, this, args, kind):
    n = nm(fn); u = E.ucx
    if n == "CXmlDomainExportContext" and fn.ctor: E.oblige(st, And(arg(E, st, args[1]) == u.v(2), arg(E, st, args[2]) == u.pre("CParameterMgr::_bValueSpaceIsRaw", u.this), arg(E, st, args[3]) == u.pre("CParameterMgr::_bOutputRawFormatIsHex", u.this)), "settings as asked for, in the current value space and format", "guard"); st.ghost["x_b1"] = BoolVal(True)
    if n in ("wrapLegacyXmlExportToFile", "wrapLegacyXmlExportToString"): E.oblige(st, And(E.gh(st, "x_b1"), arg(E, st, args[1]) == bbarg(u, 3), u.v(1) == BoolVal(n.endswith("File"))), "to where it was asked for", "guard"); st.ghost["x_n"] = E.gh(st, "x_n") + 1
def wxret(E, st, fn, this, args):
    if nm(fn).startswith("wrapLegacyXmlExportTo"): r = fresh("exported", BOOL); st.ghost["x_ok"] = r; return r
C("CParameterMgr::wrapLegacyXmlExport", props="C28", pre=noflags, opts=dict(X, opaque=cxop, oncall=wxcall, opret=wxret), post=lambda c: [("exported once", And(c.post.g("x_n") == 1, c.retv == c.post.g("x_ok")))], **I0)
