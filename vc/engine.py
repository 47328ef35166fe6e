"""Deductive verifier core: symbolic execution of Clang's typed AST with contracts.

Every function under contract is executed once from an arbitrary state satisfying its precondition; callees
with a contract are replaced by it, loops by inductive invariants, and each assertion, postcondition, frame
condition, callee precondition and loop-invariant step becomes an obligation for the SMT solver."""
import z3, itertools, sys, time, json
import front
from z3 import And, Or, Not, Implies, If, BoolVal, IntVal, BitVecVal, Select, Store, ForAll, Exists, Const, Int, Bool

sys.setrecursionlimit(20000)

class ToolLimit(Exception):
    """The code uses a construct outside the verifier's subset."""

class NoContract(ToolLimit): pass

# ---------------------------------------------------------------- locations and other non-solver values
class Loc: pass
class LVar(Loc):
    def __init__(s, cid): s.cid = cid
    def key(s): return ("v", s.cid)
class LField(Loc):
    def __init__(s, f, r): s.f, s.r = f, r
    def key(s): return ("f", s.f, s.r.get_id())
class LElem(Loc):
    def __init__(s, b, i): s.b, s.i = b, i
    def key(s): return ("e", s.b.key(), s.i.get_id())
class LProj(Loc):
    def __init__(s, b, n): s.b, s.n = b, n
    def key(s): return ("p", s.b.key(), s.n)
class LMapVal(Loc):
    def __init__(s, b, k): s.b, s.k = b, k
    def key(s): return ("m", s.b.key(), s.k.get_id())
class LObj(Loc):
    def __init__(s, r): s.r = r
    def key(s): return ("o", s.r.get_id())
class LGlob(Loc):
    def __init__(s, k): s.k_ = k
    def key(s): return ("g", s.k_)

class LUnion(Loc):
    """member of a union object: the object is a bit pattern, its members reinterpret it"""
    def __init__(s, r, ty): s.r, s.ty = r, ty
    def key(s): return ("u", s.r.get_id(), str(s.ty))

class RefBind:
    def __init__(s, loc): s.loc = loc
class PtrV:
    """Pointer to a value location; with i set, pointer to element i of the sequence at loc."""
    nb = None          # condition under which the pointer is null
    def __init__(s, loc, i=None, nb=None): s.loc, s.i, s.nb = loc, i, nb
class ByteView:
    """The object representation of the value at loc (n bytes)."""
    def __init__(s, loc, n, ty, off=0): s.loc, s.n, s.ty, s.off = loc, n, ty, off
class NullP: pass
NULLP = NullP()
class It:
    def __init__(s, loc, i, rev=False): s.loc, s.i, s.rev = loc, i, rev
class Closure:
    def __init__(s, e, tu, frame, caps, this): s.e, s.tu, s.frame, s.caps, s.this = e, tu, frame, caps, this
class FnPtr:
    def __init__(s, fn): s.fn = fn
class Opaque:
    def __init__(s, d=""): s.d = d
class Tup:
    """Python-level aggregate (initializer lists, tuples)."""
    def __init__(s, xs): s.xs = xs

def isz(x): return isinstance(x, z3.ExprRef)

def same(a, b):
    if a is b: return True
    if isz(a) and isz(b): return a.eq(b)
    if type(a) is not type(b): return False
    if isinstance(a, Loc): return a.key() == b.key()
    if isinstance(a, RefBind): return same(a.loc, b.loc)
    if isinstance(a, PtrV): return same(a.loc, b.loc) and (a.i is b.i or (a.i is not None and b.i is not None and a.i.eq(b.i)))
    if isinstance(a, It): return same(a.loc, b.loc) and a.i.eq(b.i) and a.rev == b.rev
    if isinstance(a, ByteView): return same(a.loc, b.loc) and a.n == b.n and same(a.off, b.off)
    if isinstance(a, Tup): return len(a.xs) == len(b.xs) and all(same(x, y) for x, y in zip(a.xs, b.xs))
    if isinstance(a, Closure): return a.e is b.e and a.frame == b.frame
    if isinstance(a, FnPtr): return a.fn is b.fn
    if isinstance(a, (int, str, bool, NullP)): return a == b
    return False

class St:
    __slots__ = ("cells", "heap", "pc", "top", "ghost", "known", "ret", "trace", "ep")
    def __init__(s):
        s.ep = 0
        s.cells, s.heap, s.pc, s.ghost = {}, {}, [], {}
        s.top = None; s.known = set(); s.ret = None; s.trace = ()
    def copy(s):
        n = St.__new__(St)
        n.cells, n.heap, n.pc, n.ghost = dict(s.cells), dict(s.heap), list(s.pc), dict(s.ghost)
        n.top, n.known, n.ret, n.trace, n.ep = s.top, set(s.known), s.ret, s.trace, s.ep
        return n
    def become(s, o):
        for a in St.__slots__: setattr(s, a, getattr(o, a))
    def fact(s, f):
        if z3.is_true(f): return
        i = f.get_id()
        if i in s.known: return
        s.known.add(i); s.pc.append(("f", f))
    def decide(s, c):
        if z3.is_true(c): return
        s.pc.append(("d", c))
    def conds(s): return [f for _, f in s.pc]

class Obl:
    __slots__ = ("unit", "name", "kind", "hyps", "goal", "line", "status", "backend", "time", "model", "labels", "fnkey", "trace")
    def __init__(s, unit, name, kind, hyps, goal, line, fnkey, trace=()):
        s.unit, s.name, s.kind, s.hyps, s.goal, s.line, s.fnkey = unit, name, kind, hyps, goal, line, fnkey
        s.status = None; s.backend = None; s.time = 0; s.model = None; s.labels = []; s.trace = trace

# outcomes of statements: ('n',) ('b',) ('c',) ('r', v) ('t', typename, v)
N_, B_, C_ = ("n",), ("b",), ("c",)

def qid(): return next(_ctr)
_ctr = itertools.count(1)

STRING = "std::basic_string"
SEQS = ("std::vector", "std::list", "std::deque", "std::array", "std::initializer_list", "std::forward_list", "std::stack")
STREAMS = ("std::basic_ostringstream", "std::basic_stringstream", "std::basic_istringstream", "std::basic_ostream",
           "std::basic_istream", "std::basic_ios", "std::ios_base", "std::basic_iostream")
SMART = ("std::unique_ptr", "std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::__uniq_ptr_impl", "std::weak_ptr")
ITER = ("__gnu_cxx::__normal_iterator", "std::_List_iterator", "std::_List_const_iterator", "std::_Rb_tree_iterator",
        "std::_Rb_tree_const_iterator", "std::reverse_iterator", "std::move_iterator", "std::_Deque_iterator", "std::back_insert_iterator")

class Sorts:
    """Type to sort mapping for one unit. mode: 'bv' exact bitvectors, 'int' mathematical integers with explicit wrap."""
    def __init__(self, prog, mode="int", strmode="op"):
        self.prog, self.mode, self.strmode = prog, mode, strmode
        self.SZ = z3.BitVecSort(64) if mode == "bv" else z3.IntSort()
        self.Ref = z3.IntSort()
        self.Str = z3.DeclareSort("Str")
        self.Op = z3.DeclareSort("Op")
        self._vec, self._pair, self._map, self._bysort = {}, {}, {}, {}
    def isrec(self, t):
        """project record (object with identity)"""
        return t.k == "rec" and (not t.sys)
    def cls(self, t):
        n = t.n
        if n.startswith("std::__cxx11::"): n = "std::" + n[14:]
        return n
    def isstr(self, t): return t.k == "rec" and t.sys and self.cls(t) == STRING
    def isseq(self, t): return t.k == "rec" and t.sys and self.cls(t) in SEQS
    def ismap(self, t): return t.k == "rec" and t.sys and self.cls(t) in ("std::map", "std::unordered_map", "std::multimap")
    def isset(self, t): return t.k == "rec" and t.sys and self.cls(t) in ("std::set", "std::unordered_set")
    def ispair(self, t): return t.k == "rec" and t.sys and self.cls(t) == "std::pair"
    def issmart(self, t): return t.k == "rec" and t.sys and self.cls(t) in SMART
    def isstream(self, t): return t.k == "rec" and t.sys and self.cls(t) in STREAMS
    def isiter(self, t): return t.k == "rec" and t.sys and (self.cls(t) in ITER)
    def isrefsort(self, t):
        """value denotes an object identity"""
        if t.k == "ptr": return self.isrec(t.t)
        if self.isrec(t): return True
        if self.issmart(t): return True
        return False
    def ischarp(self, t): return t.k == "ptr" and t.t.k == "int" and t.t.w == 8 and t.t.s
    def sort(self, t):
        k = t.k
        if k == "int": return z3.BitVecSort(t.w) if self.mode == "bv" else z3.IntSort()
        if k == "bool": return z3.BoolSort()
        if k == "fp": return z3.FPSort(8, 24) if t.w == 32 else z3.FPSort(11, 53)
        if k == "ref": return self.sort(t.t)
        if self.ischarp(t): return self.str_sort()
        if k == "ptr" or k == "nullptr": return self.Ref
        if self.isstr(t) or self.isstream(t): return self.str_sort()
        if self.isrec(t): return self.Ref
        if k == "arr": return self.vec(self.sort(t.t))
        if self.isseq(t): return self.vec(self.sort(t.args[0]))
        if self.ismap(t): return self.map(self.sort(t.args[0]), self.sort(t.args[1]))
        if self.isset(t): return self.map(self.sort(t.args[0]), z3.BoolSort())
        if self.ispair(t): return self.pair(self.sort(t.args[0]), self.sort(t.args[1]))
        if self.issmart(t): return self.Ref
        return self.Op
    def str_sort(self):
        return self.Str if self.strmode == "op" else self.vec(z3.BitVecSort(8) if self.mode == "bv" else z3.IntSort())
    def vec(self, es):
        k = es.name() if not isinstance(es, z3.DatatypeSortRef) else es.name()
        k = str(es)
        if k not in self._vec:
            nm = "Vec_" + "".join(c if c.isalnum() else "_" for c in k) + "_" + self.mode
            d = z3.Datatype(nm)
            d.declare(nm + "_mk", (nm + "_len", self.SZ), (nm + "_arr", z3.ArraySort(self.SZ, es)))
            s = d.create()
            s.es = es
            self._vec[k] = s
            self._bysort[nm] = ("vec", es)
        return self._vec[k]
    def pair(self, a, b):
        k = (str(a), str(b))
        if k not in self._pair:
            nm = "Pair_" + "".join(c if c.isalnum() else "_" for c in "%s_%s" % k) + "_" + self.mode
            d = z3.Datatype(nm)
            d.declare(nm + "_mk", (nm + "_0", a), (nm + "_1", b))
            self._pair[k] = d.create()
            self._bysort[nm] = ("pair", a, b)
        return self._pair[k]
    def map(self, a, b):
        """std::map/std::set: membership, values, and the enumeration in iteration order."""
        k = (str(a), str(b))
        if k not in self._map:
            nm = "Map_" + "".join(c if c.isalnum() else "_" for c in "%s_%s" % k) + "_" + self.mode
            d = z3.Datatype(nm)
            d.declare(nm + "_mk", (nm + "_has", z3.ArraySort(a, z3.BoolSort())), (nm + "_val", z3.ArraySort(a, b)),
                      (nm + "_keys", self.vec(a)))
            self._map[k] = d.create()
            self._bysort[nm] = ("map", a, b)
        return self._map[k]
    # accessors ------------------------------------------------------------
    def kind(self, s):
        return self._bysort.get(s.name()) if isinstance(s, z3.DatatypeSortRef) else None
    def _acc(self, v, i):
        s = v.sort()
        if z3.is_app(v) and v.decl().eq(s.constructor(0)): return v.arg(i)
        if z3.is_app_of(v, z3.Z3_OP_ITE): 
            a, b = self._acc(v.arg(1), i), self._acc(v.arg(2), i)
            if a.eq(b): return a
            return If(v.arg(0), a, b)
        return s.accessor(0, i)(v)
    def vlen(self, v): return self._acc(v, 0)
    def varr(self, v): return self._acc(v, 1)
    def mkvec(self, es, n, a): return self.vec(es).constructor(0)(n, a)
    def mk(self, sort, *a): return sort.constructor(0)(*a)
    def es(self, v): return v.sort().accessor(0, 1).range().range()
    def sz(self, n): return BitVecVal(n, 64) if self.mode == "bv" else IntVal(n)
    def ult(self, a, b): return z3.ULT(a, b) if self.mode == "bv" else a < b
    def ule(self, a, b): return z3.ULE(a, b) if self.mode == "bv" else a <= b

_fresh = itertools.count(1)
def fresh(name, sort): return Const("%s!%d" % (name, next(_fresh)), sort)

class Contract:
    """name/arity/sig select the function(s). Callbacks receive a Ctx."""
    def __init__(self, name, arity=None, sig=None, const=None, pre=None, post=None, mods=None, fnval=None, throws=(),
                 ghost=None, mode="int", strmode="op", loops=None, inline=(), pure=False, trusted=False, havoc_args=True,
                 aborts=False, setup=None, opts=None, verify=True, result=None, this_inv=True):
        self.name, self.arity, self.sig, self.const = name, arity, sig, const
        self.pre, self.post, self.mods, self.fnval, self.throws = pre, post, mods, fnval, throws
        self.ghost, self.mode, self.strmode, self.loops, self.inline = ghost, mode, strmode, loops, inline
        self.pure, self.trusted, self.havoc_args, self.aborts, self.setup = pure, trusted, havoc_args, aborts, setup
        self.opts = opts or {}; self.verify = verify; self.result = result
        self.label = name + ("/%s" % arity if arity is not None else "") + ("[%s]" % sig if sig else "")
    def matches(self, key, fn):
        if fn.n != self.name:
            if "<" not in fn.n or front.strip_ta(fn.n) != self.name: return False
        if self.arity is not None and len(fn.pt) != self.arity: return False
        if self.sig is not None and self.sig not in key: return False
        if self.const is not None and bool(fn.const) != self.const: return False
        return True

class View:
    """Read access to a state for specifications."""
    def __init__(s, eng, st): s.eng, s.st = eng, st
    def __call__(s, field, ref): return s.eng.fieldval(s.st, s.eng.fname(field), ref)
    def arr(s, field): return s.eng.harr(s.st, s.eng.fname(field))
    def loc(s, l): return s.eng.load(s.st, l)
    def g(s, n, sort=None): return s.eng.gh(s.st, n, sort)
    def sub(s, field, ref): return s.eng.sub(s.st, s.eng.fname(field), ref)

class Ctx:
    def __init__(s, eng, pre, this, args, post=None, ret=None, contract=None, fn=None, caller=False):
        s.eng, s.this, s.a, s.ret, s.contract, s.fn = eng, this, args, ret, contract, fn
        s.pre = View(eng, pre); s.post = View(eng, post) if post is not None else None
        s.S = eng.S; s.caller = caller
    def v(s, i):
        """value of argument i before the call (references and pointers to values are read)"""
        a = s.a[i]
        if isinstance(a, PtrV) and a.i is None: a = a.loc
        return s.pre.loc(a) if isinstance(a, Loc) and not isinstance(a, LObj) else (a.r if isinstance(a, LObj) else a)
    def vo(s, i):
        a = s.a[i]
        if isinstance(a, PtrV) and a.i is None: a = a.loc
        return s.post.loc(a) if isinstance(a, Loc) and not isinstance(a, LObj) else (a.r if isinstance(a, LObj) else a)
    @property
    def retv(s):
        r = s.ret
        if isinstance(r, LObj): return r.r
        if isinstance(r, Loc): return s.post.loc(r)
        return r

def uf(name, *sorts):
    return z3.Function(name, *sorts)
