"""Registry of contracts and specification helpers."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vc"))
import z3
from z3 import And, Or, Not, Implies, If, BoolVal, IntVal, BitVecVal, Select, Store, ForAll, Exists, Const, Int, Bool, ULT, ULE, UGT, UGE
from engine import *
import symex

REG = []          # every contract, in lookup order
PROPS = {}        # property -> list of contracts verified for it
LEMMAS = {}       # property -> list of (name, thunk returning (hyps, goal))
GHOSTS = {}       # ghost name -> sort
SOFT = ()         # kinds of obligations whose failure is reported without an alarm
UNDISCHARGED = set()   # (contract label, obligation name) known not to be discharged on the unchanged tree
TRUSTED = ["Clang 18 parser and semantic analysis; the AST dumper (vc/dump.cpp) and the verification condition generator (vc/*.py)",
           "z3 and cvc5", "sequences are shorter than 2^40 elements",
           "the C++ standard library behaves as modelled in vc/lib.py",
           "partial correctness: termination and memory exhaustion are not proved",
           "distinct reference parameters do not alias, and single inheritance layout: a pointer cast keeps the object's identity"]

def C(name, props=(), **kw):
    c = Contract(name, **kw)
    c.props = [props] if isinstance(props, str) else list(props)
    REG.append(c)
    for p in c.props: PROPS.setdefault(p, []).append(c)
    return c

def lemma(prop, name):
    def deco(f):
        LEMMAS.setdefault(prop, []).append((name, f)); return f
    return deco

# ---- sequences --------------------------------------------------------------
def vlen(c, v): return c.S.vlen(v)
def varr(c, v): return c.S.varr(v)
def at(c, v, i): return Select(c.S.varr(v), i)
def sz(c, n): return c.S.sz(n)
def le(c, a, b): return c.S.ule(a, b)
def lt(c, a, b): return c.S.ult(a, b)
def z0(c): return c.S.sz(0)
_q = [0]
def qv(c, name="k"):
    _q[0] += 1
    return Const("%s!q%d" % (name, _q[0]), c.S.SZ)
def qref(name="r"):
    _q[0] += 1
    return Const("%s!q%d" % (name, _q[0]), z3.IntSort())
def forall(c, f, name="k", pat=None):
    """for all sequence positions k: f(k)"""
    k = qv(c, name); b = f(k)
    return ForAll([k], b, patterns=[pat(k)] if pat is not None and okpat(pat(k)) else [])
def forallr(f, pat=None):
    r = qref(); return ForAll([r], f(r), patterns=[pat(r)] if pat is not None and okpat(pat(r)) else [])
def okpat(t):
    if not symex.plain(t): return False
    while z3.is_app_of(t, z3.Z3_OP_SELECT):
        a = t.arg(0)
        if z3.is_quantifier(a): return False
        if z3.is_app_of(a, z3.Z3_OP_STORE) or z3.is_app_of(a, z3.Z3_OP_ITE): return False
        t = a
    return True
def inseq(c, v, k): return And(le(c, z0(c), k), lt(c, k, vlen(c, v)))
def fits(c, off, n, total):
    """[off, off+n) lies within [0, total) with no wrap-around"""
    return And(le(c, n, total), le(c, off, total - n), le(c, z0(c), n), le(c, z0(c), off))

# ---- byte buffers (pointer arguments) ---------------------------------------
def bufbyte(c, view, i, k):
    """k-th byte of the buffer argument i in the state of view; k: term or int"""
    a = c.a[i]
    if isinstance(a, ByteView):
        v = view.loc(a.loc)
        if z3.is_fp(v): v = z3.fpToIEEEBV(v)
        if z3.is_bool(v): v = If(v, BitVecVal(1, 8), BitVecVal(0, 8))
        return c.eng.lib.byteof(v, k)
    if isinstance(a, PtrV):
        return Select(c.S.varr(view.loc(a.loc)), a.i + (c.S.sz(k) if isinstance(k, int) else k))
    if isz(a) and c.S.strmode == "vec" and a.sort() == c.S.str_sort(): return Select(c.S.varr(a), c.S.sz(k) if isinstance(k, int) else k)
    raise ToolLimit("buffer argument %s" % type(a).__name__)
def bufbytes(c, view, i):
    """number of bytes when known statically"""
    a = c.a[i]
    return a.n if isinstance(a, ByteView) else None
def bufall(c, i, f, view):
    """f(k, byte) for every byte k of buffer i"""
    n = bufbytes(c, view, i)
    if n is not None: return And(*[f(c.S.sz(k), bufbyte(c, view, i, k)) for k in range(n)])
    k = qv(c)
    return ForAll([k], f(k, bufbyte(c, view, i, k)))
def boolof(x): return x
