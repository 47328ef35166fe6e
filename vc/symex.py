from engine import *
import engine as E
import solve, os, re

STAMP = uf("stamp", z3.IntSort(), z3.IntSort())
TAG = uf("tag", z3.IntSort(), z3.IntSort())

def _nl(w, s): return dict(digits=w - (1 if s else 0), digits10=int((w - (1 if s else 0)) * 0.30103), max_digits10=0)
NUMLIM = {"signed char": _nl(8, 1), "unsigned char": _nl(8, 0), "char": _nl(8, 1), "short": _nl(16, 1), "unsigned short": _nl(16, 0), "int": _nl(32, 1),
          "unsigned int": _nl(32, 0), "long": _nl(64, 1), "unsigned long": _nl(64, 0), "long long": _nl(64, 1), "unsigned long long": _nl(64, 0),
          "float": dict(digits=24, digits10=6, max_digits10=9), "double": dict(digits=53, digits10=15, max_digits10=17)}
class Frame:
    _n = itertools.count(1)
    def __init__(s, fdef, tu, this, ret):
        s.id = next(Frame._n); s.d, s.tu, s.this, s.ret = fdef, tu, this, ret

NOOP_CLASSES = ("core::log::", "CMappingContext@never")
def is_log(fn):
    n = fn.n
    return (n.startswith("core::log::") or n in ("CParameterMgr::info", "CParameterMgr::warning", "CParameterMgr::error"))

def bare(n):
    """a qualified name without template arguments"""
    while True:
        m = re.sub(r"<[^<>]*>", "", n)
        if m == n: return n
        n = m
_known = None
def known(fn):
    global _known
    if _known is None:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known.txt"); _known = set(open(p).read().split("\n")) if os.path.exists(p) else None
    return _known is None or fn.key.startswith("lambda") or bare(fn.n) in _known

class Engine:
    def opaquekind(self, fn):
        op = self.unit.opts.get("opaque")
        k = op(fn) if op and (not fn.sys or self.unit.opts.get("opsys")) else None
        if k in ("reader", "effect", "pure") and not fn.sys and fn.key in self.P.defs and not known(fn): return None   # a helper the contracts do not know: looked into
        return k
    def __init__(self, prog, contracts, unit, opts=None, ghosts=None):
        self.P, self.contracts, self.unit = prog, contracts, unit
        self.opts = dict(merge=True, depth=14, timeout=10, htimeout=4, prune=False)
        self.opts.update(unit.opts or {}); self.opts.update(opts or {})
        self.S = Sorts(prog, unit.mode, unit.strmode)
        self.bv = unit.mode == "bv"
        self.ghost_sorts = ghosts or {}
        self.obls = []; self.assume = set(); self.used = set(); self.inlined = set()
        self.quiet = 0; self.stack = []; self.fr = None; self.sinks = []
        self.ftype = {}
        for r in prog.records.values():
            for n, t in r["fields"]: self.ftype[n] = t
        self._fname = {}
        self.tops = {}; self.lits = {}; self.litval = {}
        self.fieldid = {}; self.dtypes = {}
        self.fuel_loops = 0
        self.liveflags = []      # houdini labels
        self.finfo = {}
        self.curline = 0
        import lib
        self.lib = lib.Lib(self)
        self._cmatch = {}
        self.stats = dict(paths=0, hqueries=0, htime=0.0, loops=0, loopinv=0)
        self.axioms = []
        self.locked_classes = None
    # ------------------------------------------------------------ fields
    def fname(self, n):
        if n in self.ftype: return n
        r = self._fname.get(n)
        if r: return r
        c = [k for k in self.ftype if k.endswith("::" + n) or k == n]
        if len(c) != 1: raise ToolLimit("field %s: %d matches" % (n, len(c)))
        self._fname[n] = c[0]
        return c[0]
    def ft(self, f):
        if f not in self.ftype: raise ToolLimit("unknown field " + f)
        return self.ftype[f]
    def harr(self, st, f):
        a = st.heap.get(f)
        if a is None:
            nm = "H%d!" % st.ep + f
            a = Const(nm, z3.ArraySort(z3.IntSort(), self.S.sort(self.ft(f))))
            self.tops.setdefault(nm, IntVal(0) if False else Int("top!0"))
            st.heap[f] = a
        return a
    def fieldval(self, st, f, r):
        t = self.ft(f)
        if self.S.isrec(t) : return self.sub(st, f, r)
        v = self.rsel(self.harr(st, f), r)
        self.tyfacts(st, v, t)
        return v
    def rsel(self, a, r):
        """Select with syntactic read-over-write for identical references"""
        while z3.is_app_of(a, z3.Z3_OP_STORE):
            if a.arg(1).eq(r): return a.arg(2)
            if self.distinct(a.arg(1), r): a = a.arg(0)
            else: break
        return Select(a, r)
    def distinct(self, a, b):
        if z3.is_int_value(a) and z3.is_int_value(b): return not a.eq(b)
        x, y = self.finfo.get(a.get_id()), self.finfo.get(b.get_id())
        return x is not None and y is not None and not a.eq(b)
    def sub(self, st, f, r):
        """embedded object: injective in owner and field"""
        g = uf("sub!" + f, z3.IntSort(), z3.IntSort()); inv = uf("own!" + f, z3.IntSort(), z3.IntSort())
        i = self.fieldid.setdefault(f, 1 + (hash_(f) % 1000003))
        t = g(r)
        if st is not None:
            st.fact(And(inv(t) == r, TAG(t) == i, t != 0, STAMP(t) == STAMP(r)))
        return t
    def gh(self, st, n, sort=None):
        v = st.ghost.get(n)
        if v is None:
            s = sort or self.ghost_sorts.get(n)
            if s is None: raise ToolLimit("ghost " + n)
            v = Const("G0!" + n, s() if callable(s) and not isinstance(s, z3.SortRef) else s)
            st.ghost[n] = v
        return v
    # ------------------------------------------------------------ type facts
    def rng(self, t):
        return (-(1 << (t.w - 1)), (1 << (t.w - 1)) - 1) if t.s else (0, (1 << t.w) - 1)
    def tyfacts(self, st, v, t):
        if not isz(v): return
        if t.k == "ref": t = t.t
        if t.k == "int":
            if not self.bv and not z3.is_int_value(v):
                lo, hi = self.rng(t)
                st.fact(And(v >= lo, v <= hi))
        elif self.S.isrefsort(t):
            if z3.is_int_value(v): return
            st.fact(STAMP(v) <= self.basetop(st, v))
            if t.k == "ptr" or self.S.issmart(t): st.fact(TAG(v) >= 0)
        elif self.S.isseq(t) or (self.S.isstr(t) and self.S.strmode == "vec"):
            self.lenfact(st, v)
    def lenfact(self, st, v):
        n = self.S.vlen(v)
        if self.bv: st.fact(z3.ULT(n, BitVecVal(1 << 40, 64)))
        else: st.fact(And(n >= 0, n < (1 << 60)))
        return n
    def basetop(self, st, v):
        t = v
        for _ in range(60):
            if z3.is_app_of(t, z3.Z3_OP_SELECT): t = t.arg(0)
            elif z3.is_app_of(t, z3.Z3_OP_STORE): return st.top if not self.storeold(t) else self.storeold(t)
            elif z3.is_const(t) and t.decl().name() in self.tops: return self.tops[t.decl().name()]
            elif z3.is_app_of(t, z3.Z3_OP_DT_ACCESSOR): t = t.arg(0)
            else: return st.top
        return st.top
    def storeold(self, t): return None
    def newtop(self, st):
        """an unknown number of allocations happened"""
        n = fresh("top", z3.IntSort()); st.fact(n >= st.top); st.top = n
    def newref(self, st, cls=None, name="new"):
        n = fresh(name, z3.IntSort())
        st.fact(And(n != 0, STAMP(n) == st.top + 1, TAG(n) == 0))
        st.top = z3.simplify(st.top + 1)
        self.finfo[n.get_id()] = n
        self.keep(n)
        if cls:
            self.dtypes[n.get_id()] = cls
            for b in [cls] + self.P.bases(cls): st.fact(self.isa(n, b))
        return n
    def keep(self, x): self.__dict__.setdefault("_keep", []).append(x)
    def isa(self, r, q): return uf("isa!" + q, z3.IntSort(), z3.BoolSort())(r)
    # ------------------------------------------------------------ ints
    def ic(self, n, t):
        if t.k == "bool": return BoolVal(bool(n))
        if t.k == "fp": return z3.FPVal(n, self.S.sort(t))
        w = t.w if t.k == "int" else 64
        return BitVecVal(n, w) if self.bv else IntVal(n)
    def wrap(self, z, w, s):
        if self.bv: return z
        z = z3.simplify(z) if z3.is_int_value(z3.simplify(z)) else z
        M = 1 << w
        if z3.is_int_value(z):
            n = z.as_long() % M
            if s and n >= M // 2: n -= M
            return IntVal(n)
        if s: return (z + M // 2) % M - M // 2
        return z % M
    def wrap1(self, z, w, s):
        """wrap when |z| is at most one modulus out"""
        if self.bv: return z
        z = z3.simplify(z, som=False)
        if z3.is_int_value(z): return self.wrap(z, w, s)
        M = 1 << w
        lo, hi = (-(M // 2), M // 2 - 1) if s else (0, M - 1)
        return If(z > hi, z - M, If(z < lo, z + M, z))
    def arith(self, st, op, a, b, t):
        """a, b already converted to t"""
        if t.k == "fp":
            rm = z3.RNE()
            f = {"+": z3.fpAdd, "-": z3.fpSub, "*": z3.fpMul, "/": z3.fpDiv}[op]
            return f(rm, a, b)
        if t.k == "bool": 
            if op == "&": return And(a, b)
            if op == "|": return Or(a, b)
            if op == "^": return z3.Xor(a, b)
        if t.k != "int": raise ToolLimit("arith on " + str(t))
        w, s = t.w, t.s
        if self.bv:
            if op == "+": return a + b
            if op == "-": return a - b
            if op == "*": return a * b
            if op == "/": return a / b if s else z3.UDiv(a, b)
            if op == "%": return z3.SRem(a, b) if s else z3.URem(a, b)
            if op == "&": return a & b
            if op == "|": return a | b
            if op == "^": return a ^ b
        else:
            if op == "+": return self.wrap1(a + b, w, s)
            if op == "-": return self.wrap1(a - b, w, s)
            if op == "*": return self.wrap(a * b, w, s)
            if op == "/":
                if not s: return a / b
                q = z3.If(a >= 0, If(b > 0, a / b, -(a / (-b))), If(b > 0, -((-a) / b), (-a) / (-b)))
                return self.wrap1(q, w, s)
            if op == "%":
                if not s: return a % b
                return If(a >= 0, a % If(b > 0, b, -b), -((-a) % If(b > 0, b, -b)))
            if op == "&" and z3.is_int_value(b) and not s and (b.as_long() & (b.as_long() + 1)) == 0:
                return a % (b.as_long() + 1)
            if op in "&|^":
                x, y = z3.Int2BV(a, w), z3.Int2BV(b, w)
                r = {"&": x & y, "|": x | y, "^": x ^ y}[op]
                return z3.BV2Int(r, s)
        raise ToolLimit("op " + op)
    def shift(self, op, a, b, t, bt):
        w, s = t.w, t.s
        if self.bv:
            if b.size() < w: b = z3.ZeroExt(w - b.size(), b)
            elif b.size() > w: b = z3.Extract(w - 1, 0, b)   # counts beyond the width are undefined in C++
            if op == "<<": return a << b
            return a >> b if s else z3.LShR(a, b)
        if z3.is_int_value(b):
            k = b.as_long()
            return self.wrap(a * (1 << k), w, s) if op == "<<" else a / (1 << k)
        x, y = z3.Int2BV(a, w), z3.Int2BV(b, w)
        r = x << y if op == "<<" else (x >> y if s else z3.LShR(x, y))
        return z3.BV2Int(r, s)
    def cmp(self, op, a, b, t):
        if op == "==": return self.eqv(a, b, t)
        if op == "!=": return Not(self.eqv(a, b, t))
        if t.k == "fp":
            return {"<": z3.fpLT, "<=": z3.fpLEQ, ">": z3.fpGT, ">=": z3.fpGEQ}[op](a, b)
        if self.bv and t.k == "int" and not t.s:
            return {"<": z3.ULT, "<=": z3.ULE, ">": z3.UGT, ">=": z3.UGE}[op](a, b)
        if t.k == "bool":
            a, b = If(a, 1, 0), If(b, 1, 0)
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    def eqv(self, a, b, t=None):
        if isinstance(a, PtrV) and isz(b) and z3.is_int_value(b) and b.as_long() == 0: b = NULLP
        if isinstance(b, PtrV) and isz(a) and z3.is_int_value(a) and a.as_long() == 0: a = NULLP
        if isinstance(a, NullP) or isinstance(b, NullP):
            o = b if isinstance(a, NullP) else a
            if isinstance(o, NullP): return BoolVal(True)
            if isz(o): return o == self.nullof(o)
            if isinstance(o, FnPtr): return BoolVal(False)
            if isinstance(o, PtrV): return o.nb if o.nb is not None else BoolVal(False)
            raise ToolLimit("null comparison")
        if isz(a) and isz(b):
            if z3.is_fp(a): return z3.fpEQ(a, b)
            if a.sort() != b.sort(): raise ToolLimit("eq sorts %s %s" % (a.sort(), b.sort()))
            return a == b
        if isinstance(a, PtrV) and isinstance(b, PtrV) and same(a.loc, b.loc):
            if a.i is not None and b.i is not None: return a.i == b.i
            return BoolVal(a.i is b.i)
        if isinstance(a, It) and isinstance(b, It):
            if not same(a.loc, b.loc): raise ToolLimit("iterators of different containers")
            return a.i == b.i
        raise ToolLimit("equality of %s and %s" % (type(a), type(b)))
    def nullof(self, v):
        if v.sort() == z3.IntSort(): return IntVal(0)
        if v.sort() == self.S.str_sort(): return self.nullstr()
        raise ToolLimit("null of " + str(v.sort()))
    def nullstr(self): return Const("null!str", self.S.str_sort())
    def tobool(self, st, v, t):
        if isz(v):
            if z3.is_bool(v): return v
            if z3.is_fp(v): return Not(z3.fpIsZero(v))
            if t is not None and t.k == "int": return v != self.ic(0, t)
            return v != self.nullof(v) if not z3.is_bv(v) else v != 0
        if isinstance(v, NullP): return BoolVal(False)
        if isinstance(v, PtrV) and v.nb is not None: return Not(v.nb)
        if isinstance(v, (PtrV, FnPtr, Closure)): return BoolVal(True)
        raise ToolLimit("to bool: %s" % type(v))
    def conv(self, st, v, ft, tt):
        """conversion of an arithmetic value"""
        if not isz(v): raise ToolLimit("conversion of %s" % type(v))
        fk, tk = ft.k, tt.k
        if tk == "bool":
            return self.tobool(st, v, ft)
        if fk == "bool":
            if tk == "int": return If(v, self.ic(1, tt), self.ic(0, tt))
            if tk == "fp": return If(v, z3.FPVal(1, self.S.sort(tt)), z3.FPVal(0, self.S.sort(tt)))
        if fk == "int" and tk == "int":
            if self.bv:
                if tt.w == ft.w: return v
                if tt.w < ft.w: return z3.Extract(tt.w - 1, 0, v)
                return z3.SignExt(tt.w - ft.w, v) if ft.s else z3.ZeroExt(tt.w - ft.w, v)
            (a, b), (c, d) = self.rng(ft), self.rng(tt)
            if a >= c and b <= d: return v
            if z3.is_int_value(v): return self.wrap(v, tt.w, tt.s)
            if ft.w <= tt.w: return self.wrap1(v, tt.w, tt.s)
            return self.wrap(v, tt.w, tt.s)
        if fk == "int" and tk == "fp":
            if not self.bv: 
                return z3.fpToFP(z3.RNE(), z3.ToReal(v), self.S.sort(tt)) if not z3.is_int_value(v) else z3.FPVal(v.as_long(), self.S.sort(tt))
            return (z3.fpSignedToFP if ft.s else z3.fpUnsignedToFP)(z3.RNE(), v, self.S.sort(tt))
        if fk == "fp" and tk == "int":
            if not self.bv: raise ToolLimit("fp to int in int mode")
            return (z3.fpToSBV if tt.s else z3.fpToUBV)(z3.RTZ(), v, z3.BitVecSort(tt.w))
        if fk == "fp" and tk == "fp":
            if ft.w == tt.w: return v
            return z3.fpFPToFP(z3.RNE(), v, self.S.sort(tt))
        raise ToolLimit("conversion %s -> %s" % (ft, tt))
    # ------------------------------------------------------------ strings
    def lit(self, s):
        if self.S.strmode == "vec":
            so = self.S.str_sort(); es = so.es
            a = z3.K(self.S.SZ, BitVecVal(0, 8) if self.bv else IntVal(0))
            bs = s.encode("utf-8", "surrogateescape") if isinstance(s, str) else s
            for i, c in enumerate(bs):
                c = c - 256 if (c > 127 and not self.bv) else c
                a = Store(a, self.S.sz(i), BitVecVal(c, 8) if self.bv else IntVal(c))
            return self.S.mkvec(es, self.S.sz(len(bs)), a)
        if s not in self.lits:
            self.lits[s] = Const("lit!" + s, self.S.Str)
        return self.lits[s]
    def concat(self, a, b):
        if self.S.strmode == "vec":
            na, nb = self.S.vlen(a), self.S.vlen(b)
            j = Const("j!c", self.S.SZ)
            arr = z3.Lambda([j], If(self.S.ult(j, na), Select(self.S.varr(a), j), Select(self.S.varr(b), j - na)))
            return self.S.mkvec(self.S.es(a), na + nb, arr)
        if a.eq(self.lit("")): return b
        if b.eq(self.lit("")): return a
        if b.decl().name() == "concat": return self.concat(self.concat(a, b.arg(0)), b.arg(1))
        return uf("concat", self.S.Str, self.S.Str, self.S.Str)(a, b)
    def strlen(self, st, s):
        if self.S.strmode == "vec":
            self.lenfact(st, s); return self.S.vlen(s)
        n = uf("strlen", self.S.Str, self.S.SZ)(s)
        if self.bv: st.fact(z3.ULT(n, BitVecVal(1 << 40, 64)))
        else: st.fact(And(n >= 0, n < (1 << 60)))
        st.fact((n == self.S.sz(0)) == (s == self.lit("")))
        return n
    # ------------------------------------------------------------ locations
    def newcell(self, st, v, tag="t"):
        cid = (self.fr.id if self.fr else 0, tag, qid())
        st.cells[cid] = v
        return LVar(cid)
    def load(self, st, loc):
        if isinstance(loc, LVar):
            if loc.cid not in st.cells: raise ToolLimit("uninitialised or dead variable %s" % (loc.cid,))
            v = st.cells[loc.cid]
            if isinstance(v, RefBind): return self.load(st, v.loc)
            return v
        if isinstance(loc, LField): return self.fieldval(st, loc.f, loc.r)
        if isinstance(loc, LObj): return loc.r
        if isinstance(loc, LElem):
            b = self.load(st, loc.b)
            return self.elem(st, b, loc.i)
        if isinstance(loc, LProj):
            b = self.load(st, loc.b)
            if isinstance(b, Tup): return b.xs[loc.n]
            return self.S._acc(b, loc.n)
        if isinstance(loc, LMapVal):
            b = self.load(st, loc.b)
            return Select(self.S._acc(b, 1), loc.k)
        if isinstance(loc, LGlob): return self.glob(st, loc.k_)
        if isinstance(loc, LUnion):
            b = z3.Extract(loc.ty.w - 1, 0, self.unionbits(st, loc))
            return z3.fpBVToFP(b, self.S.sort(loc.ty)) if loc.ty.k == "fp" else b
        raise ToolLimit("load %s" % type(loc))
    def unionbits(self, st, loc):
        k = ("u", loc.r.get_id())
        if k not in st.cells: st.cells[k] = fresh("union", z3.BitVecSort(64))
        return st.cells[k]
    def elem(self, st, b, i):
        if isinstance(b, Tup):
            if isinstance(i, int): return b.xs[i]
            if z3.is_int_value(i) or z3.is_bv_value(i): return b.xs[i.as_long()]
            xs = [self.load(st, x) if isinstance(x, Loc) else x for x in b.xs]
            xs = [self.load(st, x.loc) if isinstance(x, PtrV) and x.i is None else x for x in xs]
            if xs and all(isz(x) and x.sort() == xs[0].sort() for x in xs):
                if self.unit.opts.get("bounds"): self.oblige(st, self.S.ult(i, self.S.sz(len(xs))), "index within the table", "bounds")
                v = xs[-1]
                for n in range(len(xs) - 2, -1, -1): v = If(i == n, xs[n], v)
                return v
            raise ToolLimit("symbolic index in literal sequence")
        if self.S.strmode == "op" and b.sort() == self.S.Str:
            r = uf("charat", b.sort(), i.sort(), z3.BitVecSort(8) if self.bv else z3.IntSort())(b, i)
            if not self.bv: st.fact(And(r >= -128, r <= 127))
            return r
        k = self.S.kind(b.sort())
        if k is None: raise ToolLimit("element of " + str(b.sort()))
        if k[0] == "vec": return self.asel(self.S.varr(b), i)
        if k[0] == "map":
            ks = self.S._acc(b, 2)
            key = Select(self.S.varr(ks), i)
            st.fact(Implies(And(self.S.ule(self.S.sz(0), i), self.S.ult(i, self.S.vlen(ks))), Select(self.S._acc(b, 0), key)))
            if k[2] == z3.BoolSort(): return key
            return self.S.mk(self.S.pair(k[1], k[2]), key, Select(self.S._acc(b, 1), key))
        raise ToolLimit("element of " + str(k))
    def asel(self, a, i):
        while z3.is_app_of(a, z3.Z3_OP_STORE):
            if a.arg(1).eq(i): return a.arg(2)
            if (z3.is_int_value(i) or z3.is_bv_value(i)) and (z3.is_int_value(a.arg(1)) or z3.is_bv_value(a.arg(1))): a = a.arg(0)
            else: break
        return Select(a, i)
    def store(self, st, loc, v):
        if isinstance(v, LObj): v = v.r
        if isinstance(loc, LVar):
            c = st.cells.get(loc.cid)
            if isinstance(c, RefBind): return self.store(st, c.loc, v)
            st.cells[loc.cid] = v
        elif isinstance(loc, LField):
            if not isz(v): v = self.toz(st, v, self.ft(loc.f))
            a = self.harr(st, loc.f)
            if v.sort() != a.sort().range(): raise ToolLimit("store %s: %s into %s" % (loc.f, v.sort(), a.sort().range()))
            st.heap[loc.f] = Store(a, loc.r, v)
        elif isinstance(loc, LElem):
            b = self.load(st, loc.b)
            if isinstance(b, Tup): raise ToolLimit("store in literal sequence")
            k = self.S.kind(b.sort())
            if k[0] != "vec": raise ToolLimit("store element of " + k[0])
            if not isz(v): raise ToolLimit("store of %s in sequence" % type(v))
            self.store(st, loc.b, self.S.mkvec(k[1], self.S.vlen(b), Store(self.S.varr(b), loc.i, v)))
        elif isinstance(loc, LProj):
            if isinstance(loc.b, LElem):
                bb = self.load(st, loc.b.b)
                k = self.S.kind(bb.sort()) if isz(bb) else None
                if k and k[0] == "map":
                    if loc.n != 1: raise ToolLimit("store to map key")
                    key = Select(self.S.varr(self.S._acc(bb, 2)), loc.b.i)
                    self.store(st, loc.b.b, self.S.mk(bb.sort(), self.S._acc(bb, 0), Store(self.S._acc(bb, 1), key, v), self.S._acc(bb, 2)))
                    return
            b = self.load(st, loc.b)
            if isinstance(b, Tup):
                xs = list(b.xs); xs[loc.n] = v
                return self.store(st, loc.b, Tup(xs))
            n = b.sort().constructor(0).arity()
            self.store(st, loc.b, self.S.mk(b.sort(), *[v if i == loc.n else self.S._acc(b, i) for i in range(n)]))
        elif isinstance(loc, LMapVal):
            b = self.load(st, loc.b)
            self.store(st, loc.b, self.S.mk(b.sort(), self.S._acc(b, 0), Store(self.S._acc(b, 1), loc.k, v), self.S._acc(b, 2)))
        elif isinstance(loc, LGlob):
            st.cells[("g", loc.k_)] = v
        elif isinstance(loc, LUnion):
            w = loc.ty.w; o = self.unionbits(st, loc)
            b = z3.fpToIEEEBV(v) if loc.ty.k == "fp" else v
            st.cells[("u", loc.r.get_id())] = b if w == 64 else z3.Concat(z3.Extract(63, w, o), b)
        else: raise ToolLimit("store %s" % type(loc))
    def toz(self, st, v, t):
        """Python-level value to solver term of type t"""
        if isz(v): return v
        if isinstance(v, LObj): return v.r
        if isinstance(v, NullP): return self.nullstr() if self.S.ischarp(t) else IntVal(0)
        if isinstance(v, PtrV) and v.i is None and isinstance(v.loc, LField) and t.k == "ptr":
            return self.sub(st, v.loc.f, v.loc.r)
        if isinstance(v, PtrV) and t.k == "ptr" and self.S.isstr(t.t): return self.addrof(st, v, t.t)
        if isinstance(v, Tup) and self.S.isseq(t):
            es = self.S.sort(t.args[0])
            a = fresh("arr", z3.ArraySort(self.S.SZ, es))
            for i, x in enumerate(v.xs): a = Store(a, self.S.sz(i), self.toz(st, x, t.args[0]))
            return self.S.mkvec(es, self.S.sz(len(v.xs)), a)
        if isinstance(v, FnPtr): return z3.Const("fn:" + v.fn.key, self.S.sort(t))
        if isinstance(v, (Opaque, Closure)): return fresh("opq", self.S.sort(t))
        raise ToolLimit("value %s as %s" % (type(v).__name__, t))
    def glob(self, st, key):
        c = st.cells.get(("g", key))
        if c is not None: return c
        if key in ("std::integral_constant<bool, true>::value", "std::integral_constant<bool, false>::value"): return BoolVal("true" in key)
        tu, o = self.P.globals.get(key, (None, None))
        if o is None: raise ToolLimit("global " + key)
        t = tu.ty(o["t"])
        if key.startswith("std::numeric_limits<"):
            ty, m = key[20:].split(">::")
            v = NUMLIM.get(ty, {}).get(m)
            if v is not None: return self.ic(v, t)
            if m in ("is_signed", "is_integer") and (ty in NUMLIM or ty in ("float", "double", "bool")): return BoolVal(ty in ("float", "double") or not ty.startswith(("unsigned", "bool")) if m == "is_signed" else ty not in ("float", "double"))
        if key.endswith("::npos"): return self.S.sz((1 << 64) - 1)
        if "v" in o: return self.ic(int(o["v"]), t)
        if "init" in o and (t.c or (t.k == "arr" and (t.t.c or key not in self.P.written_globals()))) and not self.S.isrec(t):
            old = self.fr
            self.fr = Frame(None, tu, None, None)
            try:
                rs = self.ev(o["init"], st)
                if len(rs) == 1 and rs[0][0] is st:
                    v = rs[0][1]
                    if isinstance(v, Loc): v = self.load(st, v)
                    return v
            except ToolLimit: pass
            finally: self.fr = old
        if self.S.isrec(t): raise ToolLimit("global object " + key)
        return Const("glob!" + key, self.S.sort(t))
    def globloc(self, st, key):
        tu, o = self.P.globals.get(key, (None, None))
        if o is not None and self.S.isrec(tu.ty(o["t"])):
            return LObj(Const("globobj!" + key, z3.IntSort()))
        return LGlob(key)
    # ------------------------------------------------------------ states
    def T(self, e): return self.fr.tu.ty(e["t"])
    def branch(self, st, c):
        """[(state, True/False)]"""
        c = z3.simplify(c) if not z3.is_true(c) and not z3.is_false(c) else c
        if z3.is_true(c): return [(st, True)]
        if z3.is_false(c): return [(st, False)]
        for k, f in st.pc:
            if k == "d":
                if f.eq(c): return [(st, True)]
                if z3.is_not(f) and f.arg(0).eq(c): return [(st, False)]
                if z3.is_not(c) and c.arg(0).eq(f): return [(st, False)]
        if self.opts.get("prune"):
            r = []
            if solve.quick(self, st.conds() + [c], 200) != "unsat":
                r.append(True)
            if solve.quick(self, st.conds() + [Not(c)], 200) != "unsat":
                r.append(False)
            if len(r) == 1:
                st.fact(c if r[0] else Not(c))
                return [(st, r[0])]
            if not r: return []
        s2 = st.copy()
        st.decide(c); s2.decide(z3.simplify(Not(c)))
        return [(st, True), (s2, False)]
    def common(self, sts):
        n = min(len(s.pc) for s in sts); i = 0
        while i < n and all(s.pc[i] is sts[0].pc[i] or s.pc[i][1].eq(sts[0].pc[i][1]) for s in sts): i += 1
        return i
    def mergev(self, ds, vs):
        v0 = vs[0]
        if all(same(v, v0) for v in vs[1:]): return v0
        if all(isz(v) for v in vs):
            if any(v.sort() != v0.sort() for v in vs): return None
            r = vs[-1]
            for d, v in zip(reversed(ds[:-1]), reversed(vs[:-1])):
                if not r.eq(v): r = If(d, v, r)
            return r
        if all(isinstance(v, It) for v in vs) and all(same(v.loc, v0.loc) and v.rev == v0.rev for v in vs):
            return It(v0.loc, self.mergev(ds, [v.i for v in vs]), v0.rev)
        if all(isinstance(v, PtrV) and v.i is not None for v in vs) and all(same(v.loc, v0.loc) for v in vs):
            return PtrV(v0.loc, self.mergev(ds, [v.i for v in vs]))
        if all(isinstance(v, LObj) for v in vs): return LObj(self.mergev(ds, [v.r for v in vs]))
        if all(isinstance(v, LField) and v.f == v0.f for v in vs): return LField(v0.f, self.mergev(ds, [v.r for v in vs]))
        if all(isinstance(v, LElem) and same(v.b, v0.b) for v in vs): return LElem(v0.b, self.mergev(ds, [v.i for v in vs]))
        if all(isinstance(v, RefBind) for v in vs):
            m = self.mergev(ds, [v.loc for v in vs])
            return RefBind(m) if m is not None else None
        if all(isinstance(v, Tup) and len(v.xs) == len(v0.xs) for v in vs):
            xs = [self.mergev(ds, [v.xs[i] for v in vs]) for i in range(len(v0.xs))]
            return Tup(xs) if all(x is not None for x in xs) else None
        return None
    def merge(self, rs):
        """rs: [(st, value)]; one merged (st, value) when possible, else rs unchanged"""
        if len(rs) < 2 or not self.opts["merge"] or any(s.ep != rs[0][0].ep for s, _ in rs): return rs
        sts = [s for s, _ in rs]; vs = [v for _, v in rs]
        k = self.common(sts)
        ds = []
        for s in sts:
            d = [f for t, f in s.pc[k:] if t == "d"]
            ds.append(And(*d) if len(d) > 1 else (d[0] if d else BoolVal(True)))
        if any(z3.is_true(d) for d in ds): return rs
        if all(v is None for v in vs): mv = None
        elif any(v is None for v in vs): return rs
        else:
            mv = self.mergev(ds, vs)
            if mv is None: return rs
        n = St(); n.top = None; n.ep = sts[0].ep
        for cid in sts[0].cells:
            if all(cid in s.cells for s in sts[1:]):
                m = self.mergev(ds, [s.cells[cid] for s in sts])
                if m is None:
                    return rs
                n.cells[cid] = m
        for f in set().union(*[s.heap for s in sts]):
            n.heap[f] = self.mergev(ds, [self.harr(s, f) for s in sts])
        for g in set().union(*[s.ghost for s in sts]):
            n.ghost[g] = self.mergev(ds, [self.gh(s, g) for s in sts])
        n.top = self.mergev(ds, [s.top for s in sts])
        n.pc = list(sts[0].pc[:k]); n.known = set.intersection(*[s.known for s in sts])
        o = z3.simplify(Or(*ds))
        n.decide(o)
        seen = {}
        for s, d in zip(sts, ds):
            for t, f in s.pc[k:]:
                if t == "f": seen.setdefault(f.get_id(), (f, []))[1].append(d)
        for i, (f, dl) in seen.items():
            if len(dl) == len(sts): n.pc.append(("f", f)); n.known.add(i)
            else: n.pc.append(("f", Implies(Or(*dl) if len(dl) > 1 else dl[0], f)))
        tr = [s.trace for s in sts]
        n.trace = tr[0]
        return [(n, mv)]
    def merge_out(self, outs):
        """merge normal outcomes of statements"""
        ns = [(s, None) for s, o in outs if o == N_]
        if len(ns) < 2: return outs
        m = self.merge(ns)
        return [(s, N_) for s, _ in m] + [(s, o) for s, o in outs if o != N_]
    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, name, kind, line=None):
        if self.quiet: return
        if z3.is_true(goal): goal = BoolVal(True)
        f = self.fr.d.fn.key if self.fr and self.fr.d else ""
        o = Obl(self.unit.label, name, kind, st.conds(), goal, line or self.curline, f, st.trace)
        self.obls.append(o)
    def throw(self, st, ty, v=None):
        if not self.sinks: raise ToolLimit("throw outside")
        self.sinks[-1].append((st, ("t", ty, v)))
    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        if e is None: raise ToolLimit("null expression")
        if "ln" in e: self.curline = e["ln"]
        m = getattr(self, "e_" + e["e"], None)
        if m is None: raise ToolLimit("expression %s (%s)" % (e["e"], e.get("c", "")))
        return m(e, st)
    def evs(self, es, st):
        acc = [(st, [])]
        for e in es:
            n = []
            for s, vs in acc:
                for s2, v in self.ev(e, s): n.append((s2, vs + [v]))
            acc = n
        return acc
    def rv(self, e, st):
        """evaluate and load if a location"""
        out = []
        for s, v in self.ev(e, st):
            if isinstance(v, Loc) : v = self.load(s, v)
            out.append((s, v))
        return out
    def e_int(self, e, st): return [(st, self.ic(int(e["v"]), self.T(e)))]
    def e_bool(self, e, st): return [(st, BoolVal(bool(e["v"])))]
    def e_fp(self, e, st): return [(st, z3.FPVal(float(e["v"]), self.S.sort(self.T(e))))]
    def e_str(self, e, st): return [(st, self.lit(e["v"]))]
    def e_null(self, e, st): return [(st, NULLP)]
    def e_nop(self, e, st): return [(st, None)]
    def e_this(self, e, st): return [(st, self.fr.this)]
    def e_zero(self, e, st): return [(st, self.zero(self.T(e)))]
    def zero(self, t):
        if t.k in ("int", "bool", "fp"): return self.ic(0, t)
        if self.S.ischarp(t): return self.nullstr()
        if t.k in ("ptr", "nullptr"): return IntVal(0) if self.S.isrefsort(t) else NULLP
        if self.S.isstr(t): return self.lit("")
        if t.k == "arr" and t.cnt is not None and t.cnt >= 0:
            return self.S.mkvec(self.S.sort(t.t), self.S.sz(t.cnt), z3.K(self.S.SZ, self.zero(t.t)))
        raise ToolLimit("zero of %s" % t)
    def cellloc(self, st, cid):
        v = st.cells.get(cid)
        if isinstance(v, RefBind): return v.loc
        if isinstance(v, LObj): return v
        return LVar(cid)
    def e_ref(self, e, st):
        d = e["d"]; k = d["k"]
        if k == "var":
            fid = self.fr.id
            cid = (fid, d["id"])
            if cid not in st.cells:
                c = self.fr.__dict__.get("caps")
                if c is not None and d["id"] in c: 
                    b = c[d["id"]]
                    return [(st, b)]
                raise ToolLimit("variable %s not in scope" % d["n"])
            return [(st, self.cellloc(st, cid))]
        if k == "enum": return [(st, self.ic(int(d["v"]), self.T(e)))]
        if k == "glob":
            return [(st, self.globloc(st, d["key"]))]
        if k == "fn": return [(st, FnPtr(self.fr.tu.fnobj[d["fd"]]))]
        raise ToolLimit("ref " + k)
    def objref(self, st, b, arrow):
        """reference term of an object expression"""
        if isinstance(b, LObj): return b.r
        if isz(b): return b
        if isinstance(b, PtrV) and b.i is None: return self.objref(st, b.loc, False)
        if isinstance(b, (PtrV, LElem)) and b.i is not None:
            g = self.globarr(b.b if isinstance(b, LElem) else b.loc)
            if g is not None:
                i = self.S.sz(b.i) if isinstance(b.i, int) else b.i
                self.keep(i)
                return z3.Function("globelem!" + g, i.sort(), z3.IntSort())(i)
        if isinstance(b, Loc):
            v = self.load(st, b)
            if isinstance(v, LObj): return v.r
            if isz(v) and v.sort() == z3.IntSort(): return v
        raise ToolLimit("object of %s %s in %s" % (type(b), vars(b) if hasattr(b,"__dict__") else "", self.fr.d.fn.key if self.fr and self.fr.d else ""))
    def globarr(self, loc):
        """name of the constant global array of records at loc"""
        if not isinstance(loc, LGlob): return None
        k = loc.k_
        tu, o = self.P.globals.get(k, (None, None))
        if o is None or "init" not in o: return None
        t = tu.ty(o["t"])
        return k if t.k == "arr" and (t.c or t.t.c) and self.S.isrec(t.t) else None
    def globfield(self, st, r, f, ft):
        """field f of an element of a constant global array, from its initialiser"""
        k = r.decl().name()[9:]; i = r.arg(0); tu, o = self.P.globals[k]
        vals = []
        old = self.fr; self.fr = Frame(None, tu, None, None)
        try:
            for x in o["init"]["x"]:
                if f not in x.get("fs", ()): raise ToolLimit("initialiser of " + k)
                rs = self.rv(x["x"][x["fs"].index(f)], st)
                if len(rs) != 1 or rs[0][0] is not st: raise ToolLimit("initialiser of " + k)
                vals.append(self.toz(st, rs[0][1], ft))
        finally: self.fr = old
        v = vals[-1]
        for n in range(len(vals) - 2, -1, -1): v = If(i == n, vals[n], v)
        return self.newcell(st, v)
    def e_mem(self, e, st):
        out = []
        for s, b in self.ev(e["b"], st):
            ft = self.fr.tu.ty(e["ft"])
            f = e["f"]
            if f.startswith("std::pair") and f.split("::")[-1] in ("first", "second"):
                n = 0 if f.endswith("::first") else 1
                if isinstance(b, PtrV): b = b.loc if b.i is None else LElem(b.loc, b.i)
                if isinstance(b, Loc):
                    out.append((s, LProj(b, n)))
                elif isinstance(b, Tup): out.append((s, b.xs[n]))
                else: out.append((s, self.S._acc(b, n)))
                continue
            r = self.objref(s, b, e["arrow"])
            if f.rsplit("::", 1)[0] in self.P.unions:
                if not self.bv or ft.k not in ("int", "fp"): raise ToolLimit("union member " + f)
                self.keep(r); out.append((s, LUnion(r, ft))); continue
            if f not in self.ftype:
                raise ToolLimit("field " + f)
            out.append((s, self.fieldloc(s, f, r, ft)))
        return out
    def fieldloc(self, st, f, r, ft=None):
        ft = ft or self.ft(f)
        if z3.is_app(r) and r.decl().name().startswith("globelem!"): return self.globfield(st, r, f, ft)
        if self.S.isrec(ft): return LObj(self.sub(st, f, r))
        if ft.k == "ref":
            # reference member: bound at construction, immutable
            t = ft.t
            if self.S.isrec(t): return LObj(self.refmember(st, f, r))
            a = st.cells.get(("refm", f, r.get_id()))
            if a is not None: return a.loc
            # unknown referent of value type: a ghost cell per (field, owner)
            cid = ("refcell", f, r.get_id())
            if cid not in st.cells: st.cells[cid] = Const("refd!%s!%d" % (f, r.get_id()), self.S.sort(t))
            return LVar(cid)
        return LField(f, r)
    def refmember(self, st, f, r):
        t = self.ft(f)
        a = st.heap.get(f)
        if a is None:
            nm = "H%d!" % st.ep + f
            a = Const(nm, z3.ArraySort(z3.IntSort(), z3.IntSort())); self.tops.setdefault(nm, Int("top!0")); st.heap[f] = a
        v = self.rsel(a, r)
        st.fact(v != 0)
        st.fact(STAMP(v) <= self.basetop(st, v))
        return v
    def e_mat(self, e, st):
        out = []
        for s, v in self.ev(e["x"], st):
            if isinstance(v, LObj): out.append((s, v))
            elif self.S.isrec(self.T(e)) and isz(v): out.append((s, LObj(v)))
            elif isinstance(v, Loc): out.append((s, v))
            else: out.append((s, self.newcell(s, v)))
        return out
    def e_cast(self, e, st):
        ck = e["ck"]; t = self.T(e)
        x = e["x"]
        out = []
        if ck == "ToVoid":
            return [(s, None) for s, _ in self.ev(x, st)]
        for s, v in self.ev(x, st):
            out += self.cast1(e, ck, t, x, s, v)
        return out
    def cast1(self, e, ck, t, x, s, v):
        xt = self.T(x) if "t" in x else None
        if ck == "LValueToRValue":
            if isinstance(v, Loc):
                r = self.load(s, v)
                self.tyfacts(s, r, t)
                return [(s, r)]
            return [(s, v)]
        if ck in ("NoOp", "UserDefinedConversion", "ConstructorConversion", "FunctionToPointerDecay", "DerivedToBase",
                  "UncheckedDerivedToBase", "BaseToDerived", "Dependent", "AtomicToNonAtomic", "NonAtomicToAtomic"):
            return [(s, v)]
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "FloatingCast", "IntegralToBoolean",
                  "FloatingToBoolean", "BooleanToSignedIntegral"):
            if isinstance(v, Loc): v = self.load(s, v)
            return [(s, self.conv(s, v, xt, t))]
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"): return [(s, self.tobool(s, v, None))]
        if ck == "NullToPointer":
            if self.S.ischarp(t): return [(s, self.nullstr())]
            return [(s, IntVal(0) if self.S.isrefsort(t) else NULLP)]
        if ck in ("NullToMemberPointer",): return [(s, NULLP)]
        if ck == "ArrayToPointerDecay":
            if isz(v): return [(s, v)]          # string literal
            if isinstance(v, Loc):
                if self.S.ischarp(t):
                    r = self.load(s, v)
                    if isz(r) and r.sort() == self.S.str_sort() and self.S.strmode == "op": return [(s, r)]
                return [(s, PtrV(v, self.S.sz(0)))]
            if isinstance(v, Tup): return [(s, v)]
        if ck == "Dynamic":
            r = v.r if isinstance(v, LObj) else v
            if isinstance(v, Loc) and not isinstance(v, LObj): r = self.load(s, v)
            if not isz(r): raise ToolLimit("dynamic cast of %s" % type(v))
            tt = t.t
            isa = self.isa(r, tt.q)
            if t.k == "ref":
                raise ToolLimit("dynamic_cast to reference")
            res = If(And(r != 0, isa), r, IntVal(0))
            return [(s, res)]
        if ck == "BitCast":
            return [(s, self.bitcast(s, v, xt, t))]
        if ck == "LValueBitCast": return [(s, v)]
        raise ToolLimit("cast " + ck)
    def bitcast(self, s, v, xt, t):
        if isz(v): return v
        if isinstance(v, (NullP, ByteView)): return v
        if isinstance(v, PtrV):
            if t.k == "ptr" and (t.t.k == "void" or (t.t.k == "int" and t.t.w == 8)):
                if xt.k == "ptr" and xt.t.k in ("int", "fp", "bool") and v.i is None:
                    return ByteView(v.loc, (xt.t.w or 8) // 8, xt.t, None)
                if xt.k == "ptr" and xt.t.k == "int" and xt.t.w == 8: return v
                if xt.k == "ptr" and xt.t.k == "void": return v
                if xt.k == "ptr" and xt.t.k in ("int", "fp") and v.i is not None:
                    return ByteView(LElem(v.loc, v.i), (xt.t.w) // 8, xt.t, None)
        raise ToolLimit("bitcast of %s to %s" % (type(v).__name__, t))
    def e_un(self, e, st):
        op = e["op"]; x = e["x"]; out = []
        t = self.T(e)
        for s, v in self.ev(x, st):
            if op == "&":
                if isinstance(v, LObj): out.append((s, v.r))
                elif isinstance(v, LElem): out.append((s, PtrV(v.b, v.i)))
                elif isinstance(v, Loc): out.append((s, PtrV(v)))
                else: raise ToolLimit("address of %s" % type(v))
            elif op == "*":
                out.append((s, self.deref(s, v, t)))
            elif op == "!":
                out.append((s, Not(self.tobool(s, v, self.T(x)))))
            elif op == "-":
                if t.k == "fp": out.append((s, z3.fpNeg(v)))
                else: out.append((s, -v if self.bv else self.wrap1(-v, t.w, t.s)))
            elif op == "+": out.append((s, v))
            elif op == "~":
                if self.bv: out.append((s, ~v))
                elif t.s: out.append((s, -v - 1))
                else: out.append((s, (1 << t.w) - 1 - v))
            elif op in ("++", "--"):
                cur = self.load(s, v)
                d = 1 if op == "++" else -1
                if isinstance(cur, PtrV) and cur.i is not None:
                    nv = PtrV(cur.loc, cur.i + d)
                elif isz(cur):
                    self.tyfacts(s, cur, t)
                    nv = cur + d if self.bv else self.wrap1(cur + d, t.w, t.s)
                else: raise ToolLimit("++ on %s" % type(cur))
                self.store(s, v, nv)
                out.append((s, cur if e.get("post") else v))
            else: raise ToolLimit("unary " + op)
        return out
    def pointee(self, r, t):
        """the text at an address"""
        n = "text at"
        self.ftype.setdefault(n, t)
        return LField(n, r)
    def addrof(self, st, v, t):
        """an address for a text which is only known by its place"""
        l = v.loc if v.i is None else LElem(v.loc, v.i)
        r = fresh("addr", z3.IntSort()); st.fact(r > 0)
        x = self.load(st, l)
        st.fact(self.load(st, self.pointee(r, t)) == x)
        return r
    def deref(self, s, v, t=None):
        if isinstance(v, PtrV): return v.loc if v.i is None else LElem(v.loc, v.i)
        if isinstance(v, FnPtr): return v
        if isz(v) and v.sort() == z3.IntSort():
            if t is not None and self.S.isstr(t): return self.pointee(v, t)
            if t is not None and t.k != "rec" : raise ToolLimit("dereference of unknown pointer to %s" % t)
            return LObj(v)
        if isz(v) and v.sort() == self.S.str_sort():
            l = self.newcell(s, v)
            if self.S.strmode == "vec": return LElem(l, self.S.sz(0))
            return LVarChar(self, s, v)
        if isinstance(v, Loc):
            return self.deref(s, self.load(s, v), t)
        raise ToolLimit("dereference of %s" % type(v))
    def e_bin(self, e, st):
        op = e["op"]; out = []
        t = self.T(e)
        if op in ("&&", "||"):
            for s, l in self.ev(e["l"], st):
                lb = self.tobool(s, l if not isinstance(l, Loc) else self.load(s, l), None)
                res = []
                for s2, b in self.branch(s, lb):
                    if b == (op == "&&"):
                        for s3, r in self.ev(e["r"], s2):
                            if isinstance(r, Loc): r = self.load(s3, r)
                            res.append((s3, self.tobool(s3, r, None)))
                    else: res.append((s2, BoolVal(op == "||")))
                out += self.merge(res)
            return out
        if op == "=":
            for s, r in self.ev(e["r"], st):
                for s2, l in self.ev(e["l"], s):
                    if isinstance(r, Loc) and not isinstance(r, LObj): r = self.load(s2, r)
                    self.store(s2, l, r)
                    out.append((s2, l))
            return out
        if op == ",":
            for s, _ in self.ev(e["l"], st): out += self.ev(e["r"], s)
            return out
        lt = self.T(e["l"]); rt = self.T(e["r"])
        for s, l in self.ev(e["l"], st):
            for s2, r in self.ev(e["r"], s):
                if isinstance(l, Loc): l = self.load(s2, l)
                if isinstance(r, Loc): r = self.load(s2, r)
                out.append((s2, self.binop(s2, op, l, r, lt, rt, t)))
        return out
    def binop(self, s, op, l, r, lt, rt, t):
        if op in ("==", "!=", "<", "<=", ">", ">="):
            if op in ("==", "!="):
                v = self.eqv(l, r, lt)
                return v if op == "==" else Not(v)
            if isinstance(l, PtrV) and isinstance(r, PtrV) and same(l.loc, r.loc):
                return self.cmp(op, l.i, r.i, Ty64)
            return self.cmp(op, l, r, lt)
        if op in ("<<", ">>"):
            self.ubshift(s, op, r, lt, rt)
            return self.shift(op, l, r, lt, rt)
        if isinstance(l, PtrV) and op in "+-" and isz(r):
            if l.i is None: raise ToolLimit("pointer arithmetic on a single object")
            rr = self.toidx(r, rt)
            return PtrV(l.loc, l.i + rr if op == "+" else l.i - rr)
        if isinstance(l, PtrV) and isinstance(r, PtrV) and op == "-" and same(l.loc, r.loc): return l.i - r.i
        if isinstance(l, ByteView) and op == "+": return ByteView(l.loc, l.n, l.ty, self.toidx(r, rt) if l.off is None else l.off + self.toidx(r, rt))
        if op in "/%" and t.k == "int" and len(op) == 1:
            self.oblige(s, r != self.ic(0, rt), "no division by zero", "arith")
        if not isz(l) or not isz(r): raise ToolLimit("operator %s on %s, %s" % (op, type(l), type(r)))
        return self.arith(s, op, l, r, t)
    def ubshift(self, s, op, r, lt, rt):
        if not self.opts.get("ubshift"): return
        self.oblige(s, And(r >= 0, r < lt.w) if not self.bv else z3.ULT(r, lt.w), "shift count below width", "arith")
    def toidx(self, r, rt):
        if not self.bv: return r
        if rt.w == 64: return r
        return z3.SignExt(64 - rt.w, r) if rt.s else z3.ZeroExt(64 - rt.w, r)
    def e_cas(self, e, st):
        out = []
        t = self.T(e); clt, crt = self.fr.tu.ty(e["clt"]), self.fr.tu.ty(e["crt"])
        rt = self.T(e["r"])
        for s, r in self.ev(e["r"], st):
            for s2, l in self.ev(e["l"], s):
                if isinstance(r, Loc): r = self.load(s2, r)
                cur = self.load(s2, l)
                self.tyfacts(s2, cur, t)
                op = e["op"]
                if isinstance(cur, PtrV): v = self.binop(s2, op, cur, r, t, rt, t)
                else:
                    c = self.conv(s2, cur, t, clt) if isz(cur) and clt.key() != t.key() else cur
                    v = self.binop(s2, op, c, r, clt, rt, crt)
                    if crt.key() != t.key(): v = self.conv(s2, v, crt, t)
                self.store(s2, l, v)
                out.append((s2, l))
        return out
    def e_cond(self, e, st):
        out = []
        for s, c in self.ev(e["c"], st):
            if isinstance(c, Loc): c = self.load(s, c)
            cb = self.tobool(s, c, None)
            res = []
            for s2, b in self.branch(s, cb):
                for s3, v in self.ev(e["a"] if b else e["b"], s2):
                    res.append((s3, v))
            if all(isinstance(v, Loc) and not isinstance(v, LObj) for _, v in res) and not e.get("lv"):
                res = [(s3, self.load(s3, v)) for s3, v in res]
            vs = [v for _, v in res]
            # null pointer against reference term
            if any(isinstance(v, NullP) for v in vs) and any(isz(v) for v in vs):
                res = [(s3, self.nullof([w for w in vs if isz(w)][0]) if isinstance(v, NullP) else v) for s3, v in res]
            out += self.merge(res)
        return out
    def e_idx(self, e, st):
        out = []
        it = self.T(e["i"])
        for s, b in self.ev(e["b"], st):
            for s2, i in self.rv(e["i"], s):
                i = self.toidx(i, it)
                if isinstance(b, PtrV):
                    if b.i is None: raise ToolLimit("index on single object pointer")
                    j = z3.simplify(b.i + i)
                    self.bounds(s2, b.loc, j)
                    out.append((s2, LElem(b.loc, j)))
                elif isz(b) and b.sort() == self.S.str_sort():
                    l = self.newcell(s2, b)
                    out.append((s2, LElem(l, i)))
                elif isinstance(b, Loc): out.append((s2, LElem(b, i)))
                elif isz(b) and b.sort() == z3.IntSort() and self.unit.opts.get("cmem"):
                    # an array handed over by the caller of the unit, which does not change meanwhile
                    et = self.T(e["b"]).noref().t; x = self.unit.opts["cmem"](self, et)(b, i)
                    if self.S.isrec(et): s2.fact(And(x > 0, STAMP(x) <= Int("top!0"))); out.append((s2, LObj(x)))
                    else: out.append((s2, self.newcell(s2, x)))
                else: raise ToolLimit("index of %s" % type(b))
        return out
    def bounds(self, st, loc, i):
        if not self.opts.get("bounds"): return
        v = self.load(st, loc)
        if isz(v) and self.S.kind(v.sort()) and self.S.kind(v.sort())[0] == "vec":
            n = self.S.vlen(v)
            self.oblige(st, And(self.S.ule(self.S.sz(0), i), self.S.ult(i, n)), "index within bounds", "bounds")
    def e_init(self, e, st):
        t = self.T(e)
        out = []
        if t.k in ("int", "bool", "fp", "ptr"):
            return self.ev(e["x"][0], st) if e["x"] else [(st, self.zero(t))]
        if e.get("transparent"): return self.ev(e["x"][0], st)
        for s, vs in self.evs(e["x"], st):
            if t.k == "arr":
                vs = [self.load(s, v) if isinstance(v, Loc) and not isinstance(v, LObj) else v for v in vs]
                out.append((s, Tup(vs)))
            elif t.k == "rec" and self.S.isrec(t):
                r = self.newref(s, t.q)
                for f, v in zip(e["fs"], vs): self.initfield(s, f, r, v)
                out.append((s, LObj(r)))
            else: raise ToolLimit("init list of %s" % t)
        return out
    def initfield(self, s, f, r, v):
        ft = self.ft(f)
        if self.S.isrec(ft):
            self.copyobj(s, ft.q, self.objref(s, v, False), self.sub(s, f, r))
        elif ft.k == "ref":
            if self.S.isrec(ft.t): 
                self.refmember(s, f, r)
                s.heap[f] = Store(s.heap[f], r, self.objref(s, v, False))
            else: s.cells[("refm", f, r.get_id())] = RefBind(v); self.keep(r)
        else:
            if isinstance(v, Loc): v = self.load(s, v)
            self.store(s, LField(f, r), v)
    def copyobj(self, s, q, src, dst):
        if src.eq(dst): return
        for f, ft in self.P.all_fields(q):
            if self.S.isrec(ft): self.copyobj(s, ft.q, self.sub(s, f, src), self.sub(s, f, dst))
            elif ft.k == "ref":
                if self.S.isrec(ft.t):
                    v = self.refmember(s, f, src); s.heap[f] = Store(s.heap[f], dst, v)
                else: s.cells[("refm", f, dst.get_id())] = RefBind(self.fieldloc(s, f, src)); self.keep(dst)
            else:
                self.store(s, LField(f, dst), self.fieldval(s, f, src))
    def e_stdinit(self, e, st): return self.ev(e["x"], st)
    def e_throw(self, e, st):
        if e["x"] is None:
            self.throw(st, "rethrow"); return []
        t = self.T(e["x"])
        for s, v in self.ev(e["x"], st): self.throw(s, t.q if t.k == "rec" else t.k, v)
        return []
    def e_memfnptr(self, e, st): return [(st, FnPtr(self.fr.tu.fnobj[e["fd"]]))]
    def e_typeid(self, e, st): return [(st, Opaque("typeid"))]
    def e_lambda(self, e, st):
        caps = {}
        for c in e["caps"]:
            if c.get("this"): continue
            if c.get("init"): raise ToolLimit("init capture")
            cid = (self.fr.id, c["id"])
            if cid not in st.cells:
                pc = self.fr.__dict__.get("caps") or {}
                if c["id"] in pc: caps[c["id"]] = pc[c["id"]]; continue
                raise ToolLimit("capture")
            loc = self.cellloc(st, cid)
            if c["byref"] or isinstance(loc, LObj): caps[c["id"]] = loc
            else: caps[c["id"]] = self.newcell(st, self.load(st, loc))
        return [(st, Closure(e, self.fr.tu, self.fr.id, caps, self.fr.this))]
    def e_delete(self, e, st):
        out = []
        for s, v in self.rv(e["x"], st):
            h = self.unit.opts.get("on_delete") if self.unit.opts else None
            out.append((s, None))
        return out
    def e_new(self, e, st):
        at = self.fr.tu.ty(e["at"])
        out = []
        if e.get("arr") is not None:
            for s, n in self.rv(e["arr"], st):
                r = self.newref(s, None, "newarr")
                nt = self.T(e["arr"])
                es = self.S.sort(at)
                self.lib.rawnew(s, r, self.toidx(n, nt) if self.bv else n, es)
                out.append((s, self.lib.rawptr(s, r, es)))
            return out
        if not self.S.isrec(at):
            # heap cell of value type
            ini = e.get("init")
            for s, v in (self.ev(ini, st) if ini else [(st, self.zero(at) if at.k in ("int", "bool", "fp", "ptr") else None)]):
                if isinstance(v, Loc): v = self.load(s, v)
                out.append((s, PtrV(self.newcell(s, v, "heap"))))
            return out
        ini = e.get("init")
        if ini is None or ini["e"] == "zero":
            r = self.newref(st, at.q)
            return [(st, r)]
        for s, v in self.ev_into(ini, st, None, at):
            out.append((s, self.objref(s, v, False)))
        return out
    def ev_into(self, e, st, ref, t):
        return self.ev(e, st)
    # ------------------------------------------------------------ calls
    def e_ctor(self, e, st):
        fn = self.fr.tu.fnobj[e["fd"]]
        t = self.T(e) if "t" in e else fn.clst
        if t is not None and t.k == "arr": raise ToolLimit("array construction")
        if t.k == "rec" and self.S.isrec(fn.clst or t):
            out = []
            q = (fn.clst or t).q
            for s, a in self.evs(e["a"], st):
                if (fn.copy or fn.move) and e.get("elide"):
                    out.append((s, a[0])); continue
                if (fn.copy or fn.move):
                    r = self.newref(s, q)
                    self.copyobj(s, q, self.objref(s, a[0], False), r)
                    out.append((s, LObj(r))); continue
                r = self.newref(s, q)
                for s2 in self.construct(s, fn, a, r): out.append((s2, LObj(r)))
            return out
        out = []
        for s, a in self.evs(e["a"], st):
            out += self.lib.ctor(s, fn, t, a, e)
        return out
    def construct(self, st, fn, args, r):
        """run constructor fn on object r; returns the states"""
        if fn.implicit and fn.key not in self.P.defs:
            if fn.copy or fn.move:
                self.copyobj(st, fn.clst.q, self.objref(st, args[0], False), r); return [st]
            return [st]
        k = self.opaquekind(fn)
        if k and k != "inline": return [s for s, _ in self.opaque(st, fn, r, args, "reader")]
        c = self.contract_for(fn, False)
        if c is not None:
            return [s for s, _ in self.apply_contract(st, c, fn, r, args)]
        if fn.key not in self.P.defs:
            raise NoContract("constructor " + fn.key)
        return [s for s, v in self.inline(st, fn, r, args)]
    def do_inits(self, d, st, this):
        sts = [st]
        done = set()
        for ini in d.inits or []:
            n = []
            for s in sts:
                x = ini.get("x")
                if x is None: n.append(s); continue
                if "f" in ini:
                    f = ini["f"]
                    if f not in self.ftype: self.ftype[f] = self.fr.tu.ty(ini["ft"])
                    ft = self.ft(f)
                    if self.S.isrec(ft) and x["e"] == "ctor":
                        fn = self.fr.tu.fnobj[x["fd"]]
                        for s2, a in self.evs(x["a"], s):
                            n += self.construct(s2, fn, a, self.sub(s2, f, this))
                        continue
                    if x["e"] == "init" and not x["x"] and ft.k == "rec" and not self.S.isrec(ft):
                        continue
                    for s2, v in self.ev(x, s):
                        self.initfield(s2, f, this, v); n.append(s2)
                elif "base" in ini or ini.get("deleg"):
                    bt = self.fr.tu.ty(ini["base"]) if "base" in ini else None
                    if bt is not None and not self.S.isrec(bt): n.append(s); continue
                    if x["e"] == "ctor":
                        fn = self.fr.tu.fnobj[x["fd"]]
                        if x.get("inherited"):
                            # parameters are forwarded
                            a = [self.cellloc(s, (self.fr.id, p["id"])) for p in d.params]
                            n += self.construct(s, fn, a, this); continue
                        for s2, a in self.evs(x["a"], s):
                            n += self.construct(s2, fn, a, this)
                    else:
                        for s2, v in self.ev(x, s): n.append(s2)
            sts = n
        return sts
    def e_call(self, e, st):
        out = []
        if "fd" in e:
            fn = self.fr.tu.fnobj[e["fd"]]
            if fn.n in ("__assert_fail",):
                if self.unit.opts.get("asserts") == "stop":
                    self.assume.add("a failing assertion ends the process (std::abort) without touching any state")
                    return []
                self.oblige(st, BoolVal(False), "assertion `%s' cannot fail" % self.lit_text(e["a"][0]), "assert", e.get("ln"))
                return []
            if is_log(fn):
                return [(st, Opaque("log"))]
            h = self.lib.early(fn, e, st)
            if h is not None: return h
            for s, a in self.evs(e["a"], st):
                out += self.call(s, fn, None, a, False, e)
            return out
        for s, f in self.rv(e["f"], st):
            for s2, a in self.evs(e["a"], s):
                if isinstance(f, FnPtr): out += self.call(s2, f.fn, None, a, False, e)
                elif isinstance(f, Closure): out += self.call_closure(s2, f, a)
                else: raise ToolLimit("call through %s" % type(f))
        return out
    def lit_text(self, e):
        while e.get("e") == "cast": e = e["x"]
        return str(e.get("v", "?"))[:60]
    def e_mcall(self, e, st):
        fn = self.fr.tu.fnobj[e["fd"]]
        if is_log(fn):
            # message arguments have no effect on the program state
            self.assume.add("logging has no effect on the program state (core::log, CParameterMgr::info/warning)")
            return [(st, Opaque("log"))]
        out = []
        if fn.noret and fn.sys: return []
        for s, o in self.ev(e["o"], st):
            for s2, a in self.evs(e["a"], s):
                out += self.mcall(s2, fn, o, a, bool(e.get("virt")), e)
        return out
    def mcall(self, st, fn, o, a, virt, e):
        if fn.sys and not (fn.clst is not None and self.S.isrec(fn.clst)):
            if isinstance(o, PtrV) and o.i is None:
                if o.nb is not None: self.oblige(st, Not(o.nb), "no call through a null pointer", "null", e.get("ln") if e else None)
                o = o.loc
            return self.lib.mcall(st, fn, o, a, e)
        r = None
        if not fn.static: r = self.objref(st, o, e.get("arrow"))
        return self.call(st, fn, r, a, virt, e)
    def e_methref(self, e, st): raise ToolLimit("methref")
    def e_memptrcall(self, e, st):
        out = []
        for s, o in self.ev(e["o"], st):
            for s2, p in self.rv(e["p"], s):
                for s3, a in self.evs(e["a"], s2):
                    if isz(p) and self.opts.get("memptr"):
                        out.append((s3, self.opts["memptr"](self, s3, p, self.objref(s3, o, e.get("arrow")), a))); continue
                    if not isinstance(p, FnPtr): raise ToolLimit("call through member pointer")
                    out += self.call(s3, p.fn, self.objref(s3, o, e.get("arrow")), a, bool(p.fn.virt), e)
        return out
    def e_ocall(self, e, st):
        fn = self.fr.tu.fnobj[e["fd"]]
        if is_log(fn):
            self.assume.add("logging has no effect on the program state (core::log, CParameterMgr::info/warning)")
            return [(st, Opaque("log"))]
        out = []
        for s, a in self.evs(e["a"], st):
            if fn.cls is not None and not fn.sys:
                r = self.objref_or_closure(s, a[0])
                if isinstance(r, Closure): out += self.call_closure(s, r, a[1:])
                elif fn.op == "=" and fn.implicit and (fn.copyasg or fn.moveasg):
                    self.copyobj(s, fn.clst.q, self.objref(s, a[1], False), r); out.append((s, LObj(r)))
                else: out += self.call(s, fn, r, a[1:], bool(fn.virt), e)
            elif fn.key.startswith("lambda@"):
                r = self.objref_or_closure(s, a[0])
                out += self.call_closure(s, r, a[1:])
            elif fn.sys:
                out += self.lib.ocall(s, fn, e["op"], a, e)
            else:
                out += self.call(s, fn, None, a, False, e)
        return out
    def objref_or_closure(self, st, x):
        if isinstance(x, Closure): return x
        if isinstance(x, LVar):
            v = self.load(st, x)
            if isinstance(v, Closure): return v
        return self.objref(st, x, False)
    # contracts ------------------------------------------------------------
    def contract_for(self, fn, virt):
        k = (fn.key, virt)
        if k in self._cmatch: return self._cmatch[k]
        res = None
        for key in self.P.root_virtuals(fn.key):
            f = self.P.fn.get(key) or fn
            for c in self.contracts:
                if c.opts.get("only") and not (set(c.opts["only"]) & set(self.unit.props)): continue
                if c.matches(key, f) and not c.opts.get("special") and not (virt and c.opts.get("nonvirt")):
                    if key != fn.key and not virt and c is not None:
                        # non-virtual call of an override: its own body is verified against the base contract
                        pass
                    res = c; break
            if res: break
            if not virt and key == fn.key and fn.key in self.P.defs: break
        if res is not None and res.label in (self.unit.opts.get("inline") or ()): res = None
        if res is not None and any(x == res.name for x in (self.unit.inline or ())): res = None
        self._cmatch[k] = res
        return res
    def call(self, st, fn, this, args, virt, e=None):
        if fn.static: this = None
        k = self.opaquekind(fn)
        if k and k != "inline": return self.opaque(st, fn, this, args, k)
        c = None if k == "inline" else self.contract_for(fn, virt)
        if c is not None:
            return self.apply_contract(st, c, fn, this, args)
        if fn.noret: return []
        if fn.sys: return self.lib.fcall(st, fn, args, e)
        if virt:
            key = fn.key
            # exact dynamic type known
            cls = self.dtypes.get(this.get_id()) if isz(this) else None
            if cls:
                f = self.resolve(cls, key)
                if f is not None:
                    c = self.contract_for(f, False)
                    if c is not None: return self.apply_contract(st, c, f, this, args)
                    return self.inline(st, f, this, args)
            ov = [k for k in self.P.overriders(key) if k in self.P.defs]
            own = [key] if key in self.P.defs else []
            cands = own + [k for k in ov]
            if len(cands) == 1:
                f = self.P.fn[cands[0]]
                c = self.contract_for(f, False)
                if c is not None: return self.apply_contract(st, c, f, this, args)
                return self.inline(st, f, this, args)
            if self.unit.opts.get("dispatch") and fn.n in self.unit.opts["dispatch"]:
                out = []
                vt = uf("vt!" + key, z3.IntSort(), z3.IntSort())(this)
                rest = st
                for i, k in enumerate(sorted(cands)):
                    if i == len(cands) - 1: s1 = rest
                    else:
                        s1 = rest.copy(); s1.decide(vt == i)
                        rest.decide(vt != i)
                    f = self.P.fn[k]
                    out += self.inline(s1, f, this, args)
                return self.merge(out)
            raise NoContract("virtual call of %s (%d implementations)" % (key, len(cands)))
        if fn.key not in self.P.defs:
            if fn.implicit and fn.op == "=":
                self.copyobj(st, fn.clst.q, self.objref(st, args[0], False), this); return [(st, LObj(this))]
            if fn.dtor: return [(st, None)]
            raise NoContract("no body: " + fn.key)
        return self.inline(st, fn, this, args)
    _ep = 0
    def opaque(self, st, fn, this, args, kind):
        """a call whose effect is not looked into: an arbitrary result; an "effect" may change anything"""
        cb = self.unit.opts.get("oncall")
        if cb: cb(self, st, fn, this, args, kind)
        self.assume.add("%s: %s" % (kind, fn.key))
        self.newtop(st)
        if kind == "effect":
            Engine._ep += 1; st.ep = Engine._ep; st.heap = {}
        elif isz(this):
            for f in list(st.heap):
                q, fc = fn.clsq, f.rsplit("::", 1)[0]   # a field of an unrelated class is none of that object
                if q in self.P.records and fc in self.P.records and fc != q and fc not in self.P.bases(q) and q not in self.P.bases(fc): continue
                a = st.heap[f]; st.heap[f] = If(STAMP(this) > Int("top!0"), Store(a, this, fresh("h!" + f, a.sort().range())), a) if str(this).startswith("new") else a
        for a, t in zip(args, fn.pt) if kind != "pure" else ():
            if t.k == "ref" and not t.t.c and isinstance(a, Loc) and not isinstance(a, LObj) and not t.rv:
                try: self.havocloc(st, a, t.t)
                except ToolLimit: pass
            elif t.k == "ptr" and isinstance(a, PtrV) and not t.t.c and not self.S.isrec(t.t):
                try: self.havocloc(st, a.loc, t.t if a.i is None else None)
                except ToolLimit: pass
        rt = fn.ret
        fv = self.unit.opts.get("opret")
        if fv:
            r = fv(self, st, fn, this, args)
            if r is not None: return [(st, r)]
        if fn.ctor or rt is None or rt.k == "void": return [(st, None)]
        if rt.k == "ref": return [(st, LObj(self.fresh_ref(st, "ret")) if self.S.isrec(rt.t) else self.newcell(st, self.fresh_val(st, rt.t, "ret")))]
        if self.S.isrec(rt): return [(st, LObj(self.newref(st, rt.q)))]
        r = self.fresh_val(st, rt, "ret")
        if isinstance(r, PtrV): r.nb = fresh("null", z3.BoolSort())
        return [(st, r)]
    def resolve(self, cls, key):
        """final overrider of method key in class cls"""
        allk = {key} | self.P.overriders(key)
        for q in [cls] + self.P.bases(cls):
            for k in allk:
                f = self.P.fn.get(k)
                if f is not None and f.clsq == q and k in self.P.defs: return f
        return None
    def inline(self, st, fn, this, args):
        d = self.P.defs[fn.key]
        if len(self.stack) > self.opts["depth"]: raise ToolLimit("inlining depth at " + fn.key)
        if sum(1 for f in self.stack if f.d is d) >= 1: raise NoContract("recursion of " + fn.key)
        self.inlined.add(fn.key)
        outs = self.run_body(st, d, this, args)
        rets = []
        for s, o in outs:
            if o[0] == "r": rets.append((s, o[1]))
            elif o[0] == "n": rets.append((s, None))
            elif o[0] == "t": self.throw(s, o[1], o[2])
            else: raise ToolLimit("outcome " + o[0])
        return self.merge(rets)
    def run_body(self, st, d, this, args):
        fr = Frame(d, d.tu, this, d.fn.ret)
        old = self.fr; ln = self.curline
        self.stack.append(fr); self.fr = fr
        try:
            for p, a in zip(d.params, args):
                self.bind(st, (fr.id, p["id"]), d.tu.ty(p["t"]), a)
            outs = self.collect(lambda: self.body_states(d, st, this))
        finally:
            self.stack.pop(); self.fr = old; self.curline = ln
        for s, o in outs:
            for cid in [c for c in s.cells if c[0] == fr.id and c[1] != "heap"]:
                keep = False
                if o[0] == "r" and isinstance(o[1], (LVar, LElem, LProj, PtrV, It)): keep = self.rootcid(o[1]) == cid
                if not keep: del s.cells[cid]
        return outs
    def rootcid(self, v):
        while not isinstance(v, LVar):
            if isinstance(v, (LElem, LProj, LMapVal)): v = v.b
            elif isinstance(v, (PtrV, It)): v = v.loc
            else: return None
        return v.cid
    def body_states(self, d, st, this):
        outs = []
        sts = self.do_inits(d, st, this) if d.inits else [st]
        for s in sts: outs += self.ex(d.body, s)
        return outs
    def collect(self, thunk):
        """run thunk, adding thrown states to its outcomes"""
        self.sinks.append([])
        try:
            outs = thunk()
        finally:
            thr = self.sinks.pop()
        return outs + thr
    def bind(self, st, cid, t, a):
        if t.k == "ref":
            if isinstance(a, Loc): st.cells[cid] = a if isinstance(a, LObj) else RefBind(a)
            elif self.S.isrec(t.t) and isz(a): st.cells[cid] = LObj(a)
            elif isinstance(a, (It, Closure, Opaque, Tup, FnPtr)) or isz(a):
                st.cells[cid] = RefBind(self.newcell(st, a))
            else: raise ToolLimit("bind reference to %s" % type(a))
            return
        if self.S.isrec(t):
            st.cells[cid] = a if isinstance(a, LObj) else LObj(self.objref(st, a, False))
            return
        if isinstance(a, Loc) : a = self.load(st, a)
        if isinstance(a, NullP) and self.S.isrefsort(t): a = IntVal(0)
        if isinstance(a, NullP) and self.S.ischarp(t): a = self.nullstr()
        st.cells[cid] = a
    def call_closure(self, st, c, args):
        e = c.e
        fr = Frame(self.fr.d, c.tu, c.this, None)
        fr.caps = c.caps
        insts = [e] if "body" in e else [i for i in e.get("insts", []) if len(i["ps"]) == len(args)]
        if not insts: raise ToolLimit("lambda without instantiation")
        ins = insts[0]
        old = self.fr; self.stack.append(fr); self.fr = fr
        try:
            for p, a in zip(ins["ps"], args): self.bind(st, (fr.id, p["id"]), c.tu.ty(p["t"]), a)
            outs = self.collect(lambda: self.ex(ins["body"], st))
        finally:
            self.fr = old; self.stack.pop()
        rets = []
        for s, o in outs:
            for cid in [k for k in s.cells if k[0] == fr.id]: 
                if not (o[0] == "r" and isinstance(o[1], Loc) and self.rootcid(o[1]) == cid): del s.cells[cid]
            if o[0] in "rn": rets.append((s, o[1] if o[0] == "r" else None))
            elif o[0] == "t": self.throw(s, o[1], o[2])
        return self.merge(rets)
    def frresult(self, fn):
        return fn.ret
    def apply_contract(self, st, c, fn, this, args):
        self.used.add(c.label)
        pre = st.copy()
        for i, a in enumerate(args):
            if isinstance(a, NullP):
                t = fn.pt[i] if i < len(fn.pt) else None
                if t is not None and (self.S.isrefsort(t) or self.S.ischarp(t)): args = list(args); args[i] = self.toz(st, a, t)
            if c.opts.get("texts") and isinstance(a, (NullP, PtrV)) and i < len(fn.pt) and fn.pt[i].k == "ptr" and self.S.isstr(fn.pt[i].t): args = list(args); args[i] = self.toz(st, a, fn.pt[i])
        pre = st.copy()
        cx = Ctx(self, pre, this, args, contract=c, fn=fn, caller=True)
        cx.cur = st
        if c.pre:
            for n, g in norm(c.pre(cx)):
                self.oblige(st, g, "precondition of %s: %s" % (c.name, n), "pre")
        # facts learnt while evaluating specs
        st.pc += pre.pc[len(st.pc):]; st.known |= pre.known
        res = []
        if c.throws:
            s2 = st.copy()
            b = fresh("throws", z3.BoolSort())
            s2.decide(b); st.decide(Not(b))
            self.havoc(s2, c, cx, fn, args)
            tp = c.throws[0] if isinstance(c.throws, (list, tuple)) else c.throws
            ok = True
            cx2 = Ctx(self, pre, this, args, post=s2, ret=None, contract=c, fn=fn, caller=True)
            cx2.thrown = True; cx2.cur = s2
            if c.opts.get("post_throw"):
                for n, g in norm(c.opts["post_throw"](cx2)): s2.fact(g)
            self.throw(s2, tp, Opaque("exc"))
        if c.fnval is not None and not c.mods and not c.ghost:
            r = c.fnval(cx)
            st.pc += [x for x in pre.pc[len(st.pc):]]; st.known |= pre.known
            cx2 = Ctx(self, pre, this, args, post=st, ret=r, contract=c, fn=fn, caller=True); cx2.cur = st
            if isz(r): self.tyfacts(st, r, fn.ret)
            if c.havoc_args: self.havoc(st, c, cx, fn, args)
            if c.post:
                for n, g in norm(c.post(cx2)): st.fact(g)
            return [(st, r)]
        self.havoc(st, c, cx, fn, args)
        if c.ghost: c.ghost(cx, st)
        ret = None
        rt = fn.ret
        if c.fnval is not None: ret = c.fnval(cx)
        elif c.result is not None: ret = c.result(cx)
        elif fn.ctor or rt.k == "void": ret = None
        elif rt.k == "ref":
            if self.S.isrec(rt.t): ret = LObj(self.fresh_ref(st, "ret"))
            else: ret = self.newcell(st, self.fresh_val(st, rt.t, "ret"))
        elif self.S.isrec(rt): ret = LObj(self.newref(st, rt.q))
        else: ret = self.fresh_val(st, rt, "ret")
        cx2 = Ctx(self, pre, this, args, post=st, ret=ret, contract=c, fn=fn, caller=True); cx2.cur = st
        n0 = len(pre.pc)
        if c.post:
            for n, g in norm(c.post(cx2)): st.fact(g)
        for k, f in pre.pc[n0:]: st.fact(f)
        return [(st, ret)]
    def fresh_ref(self, st, n):
        v = fresh(n, z3.IntSort()); st.fact(STAMP(v) <= st.top); return v
    def fresh_val(self, st, t, n):
        if t.k == "ptr" and not self.S.isrefsort(t) and not self.S.ischarp(t):
            return PtrV(self.newcell(st, self.fresh_val(st, t.t, n)))
        if t.k == "rec" and self.S.sort(t) == self.S.Op: return Opaque(n)
        v = fresh(n, self.S.sort(t))
        self.tyfacts(st, v, t)
        return v
    def havoc(self, st, c, cx, fn, args):
        if not c.pure: self.newtop(st)
        if c.havoc_args:
            for i, (a, t) in enumerate(zip(args, fn.pt)):
                if t.k == "ref" and not t.t.c and isinstance(a, Loc) and not isinstance(a, LObj) and not t.rv:
                    self.havocloc(st, a, t.t)
                elif t.k == "ptr" and isinstance(a, PtrV) and not t.t.c and not self.S.isrec(t.t):
                    self.havocloc(st, a.loc, t.t if a.i is None else None)
        for m in (c.mods(cx) if c.mods else []):
            if m[0].startswith("ghost:"):
                n = m[0][6:]; old = self.gh(st, n); nw = fresh(n, old.sort())
                if m[1] is not None: q = Const("r!q%d" % qid(), z3.IntSort()); st.fact(ForAll([q], Implies(Not(m[1](q)), Select(nw, q) == Select(old, q)), patterns=[Select(nw, q)]))
                st.ghost[n] = nw; continue
            f = self.fname(m[0]); old = self.harr(st, f)
            es = old.sort().range()
            if m[1] is None:
                nm = fresh("H!" + f, old.sort())
                self.tops[nm.decl().name()] = st.top
                st.heap[f] = nm
            elif isz(m[1]):
                v = fresh("h!" + f, es)
                self.tops[v.decl().name()] = st.top
                self.tyfacts(st, v, self.ft(f))
                st.heap[f] = Store(old, m[1], v)
            else:
                r = Const("r!l", z3.IntSort())
                nm = fresh("H!" + f, old.sort()); self.tops[nm.decl().name()] = st.top
                q = Const("r!q%d" % qid(), z3.IntSort())
                st.fact(ForAll([q], Implies(Not(m[1](q)), Select(nm, q) == Select(old, q)), patterns=[Select(nm, q)]))
                st.heap[f] = nm
    def havocloc(self, st, loc, t=None):
        v = self.load(st, loc)
        if isz(v):
            n = fresh("hv", v.sort()); 
            if t is not None: self.tyfacts(st, n, t)
            elif self.S.kind(v.sort()) and self.S.kind(v.sort())[0] == "vec": st.fact(self.S.vlen(n) == self.S.vlen(v))
            self.store(st, loc, n)
        elif isinstance(v, Opaque): pass
        else: raise ToolLimit("havoc of %s" % type(v))
    # ------------------------------------------------------------ statements
    def ex(self, s_, st):
        if s_ is None: return [(st, N_)]
        if "ln" in s_: self.curline = s_["ln"]
        m = getattr(self, "s_" + s_["s"], None)
        if m is None: raise ToolLimit("statement %s (%s)" % (s_["s"], s_.get("c", "")))
        return m(s_, st)
    def seq(self, stmts, st):
        cur = [st]; done = []
        for x in stmts:
            nxt = []
            for s in cur:
                for s2, o in self.ex(x, s):
                    if o == N_: nxt.append(s2)
                    else: done.append((s2, o))
            cur = nxt
            if len(cur) > 1 and self.opts["merge"]:
                cur = [s for s, _ in self.merge([(s, None) for s in cur])]
            if not cur: break
            if len(cur) + len(done) > 400: raise ToolLimit("too many paths")
        return [(s, N_) for s in cur] + done
    def s_block(self, x, st):
        decls = [v for y in x["b"] if y and y["s"] == "decl" for v in y["v"]]
        guards = [v for v in decls if self.isguard(self.fr.tu.ty(v["t"]))]
        if not guards: return self.seq(x["b"], st)
        outs = self.collect(lambda: self.seq(x["b"], st))
        res = []
        for s, o in outs:
            for g in reversed(guards):
                cid = (self.fr.id, g["id"])
                if cid in s.cells:
                    self.lib.release(s, s.cells[cid])
            if o[0] == "t": self.throw(s, o[1], o[2])
            else: res.append((s, o))
        return res
    def isguard(self, t): return t.k == "rec" and t.sys and self.S.cls(t) in ("std::lock_guard", "std::unique_lock")
    def s_null(self, x, st): return [(st, N_)]
    def s_break(self, x, st): return [(st, B_)]
    def s_continue(self, x, st): return [(st, C_)]
    def s_expr(self, x, st):
        rs = self.ev(x["x"], st)
        rs = self.merge([(s, None) for s, _ in rs])
        return [(s, N_) for s, _ in rs]
    def s_decl(self, x, st):
        cur = [st]
        for v in x["v"]:
            n = []
            for s in cur: n += self.declare(v, s)
            cur = n
        return [(s, N_) for s in cur]
    def declare(self, v, st):
        t = self.fr.tu.ty(v["t"]); cid = (self.fr.id, v["id"])
        if v.get("static"):
            if "gkey" in v:
                l = self.globloc(st, v["gkey"])
                st.cells[cid] = l if isinstance(l, LObj) else RefBind(l)
                return [st]
        ini = v.get("init")
        if ini is None or ini["e"] == "nop":
            if self.S.isrec(t): st.cells[cid] = LObj(self.newref(st, t.q))
            elif t.k in ("int", "bool", "fp"): st.cells[cid] = fresh("uninit", self.S.sort(t)); self.tyfacts(st, st.cells[cid], t)
            elif t.k == "ptr": st.cells[cid] = NULLP if not (self.S.isrefsort(t) or self.S.ischarp(t)) else fresh("uninit", self.S.sort(t))
            elif t.k == "arr":
                es = self.S.sort(t.t)
                st.cells[cid] = self.S.mkvec(es, self.S.sz(t.cnt), fresh("uninit", z3.ArraySort(self.S.SZ, es)))
            else: st.cells[cid] = Opaque("uninit")
            return [st]
        out = []
        for s, a in self.ev(ini, st):
            if t.k == "ref":
                self.bind(s, cid, t, a)
            elif self.S.isrec(t):
                if isinstance(a, LVar) and isinstance(s.cells.get(a.cid), Closure): a = s.cells[a.cid]
                s.cells[cid] = a if isinstance(a, (LObj, Closure)) else LObj(self.objref(s, a, False))
            else:
                if isinstance(a, Loc): a = self.load(s, a)
                if isinstance(a, NullP):
                    if self.S.isrefsort(t): a = IntVal(0)
                    elif self.S.ischarp(t): a = self.nullstr()
                if isinstance(a, Tup) and (t.k == "arr" ):
                    es = self.S.sort(t.t)
                    if all(isz(q) for q in a.xs):
                        arr = fresh("arr", z3.ArraySort(self.S.SZ, es))
                        for i, q in enumerate(a.xs): arr = Store(arr, self.S.sz(i), q)
                        a = self.S.mkvec(es, self.S.sz(t.cnt), arr)
                if t.k == "arr" and self.S.strmode == "op" and isz(a) and a.sort() == self.S.Str: pass
                s.cells[cid] = a
            out.append(s)
        return out
    def s_if(self, x, st):
        outs = []
        sts = [st]
        if x.get("init"):
            sts = [s for s, o in self.ex(x["init"], st)]
        if x.get("cv"):
            n = []
            for s in sts: n += self.declare(x["cv"], s)
            sts = n
        for s0 in sts:
            for s, c in self.ev(x["c"], s0):
                if isinstance(c, Loc): c = self.load(s, c)
                o1 = []
                for s2, b in self.branch(s, self.tobool(s, c, None)):
                    o1 += self.ex(x["th"] if b else x["el"], s2)
                outs += self.merge_out(o1)
        return outs
    def s_ret(self, x, st):
        if x["x"] is None: return [(st, ("r", None))]
        outs = []
        rt = self.fr.ret
        for s, v in self.ev(x["x"], st):
            if isinstance(v, Loc) and not isinstance(v, LObj) and (rt is None or rt.k != "ref") and not x["x"].get("lv"):
                v = self.load(s, v)
            if isinstance(v, NullP) and rt is not None and self.S.isrefsort(rt): v = IntVal(0)
            outs.append((s, ("r", v)))
        return outs
    def s_try(self, x, st):
        outs = self.collect(lambda: self.ex(x["b"], st))
        res = []
        for s, o in outs:
            if o[0] != "t": res.append((s, o)); continue
            done = False
            for h in x["h"]:
                if "v" not in h: ok = True
                else:
                    ht = self.fr.tu.ty(h["v"]["t"]).noref()
                    ok = self.catches(ht, o[1])
                    if ok == "maybe": ok = True
                if ok:
                    if "v" in h: s.cells[(self.fr.id, h["v"]["id"])] = RefBind(self.newcell(s, o[2] if o[2] is not None and not isinstance(o[2], Loc) else Opaque("exc"))) if not isinstance(o[2], LObj) else o[2]
                    res += self.ex(h["b"], s); done = True
                    break
            if not done: self.throw(s, o[1], o[2])
        return self.merge_out(res)
    def catches(self, ht, ty):
        if ht.q == ty: return True
        if ht.q == "std::exception": return True
        if ty in self.P.records: return ht.q in self.P.bases(ty)
        std = {"std::runtime_error": ["std::exception"], "std::logic_error": ["std::exception"]}
        return ht.q in std.get(ty, [])
    def s_switch(self, x, st):
        outs = []
        body = x["b"]["b"] if x["b"]["s"] == "block" else [x["b"]]
        # flatten labels
        flat = []
        def add(s):
            if s is not None and s["s"] in ("case", "default"):
                flat.append(("L", s.get("v") if s["s"] == "case" else None)); add(s["b"])
            else: flat.append(("S", s))
        for s in body: add(s)
        vals = [int(l) for k, l in flat if k == "L" and l is not None]
        t = None
        for s, c in self.rv(x["c"], st):
            t = self.T(x["c"])
            rest = s; tails = []
            for i, (k, l) in enumerate(flat):
                if k != "L" or l is None: continue
                if rest is None: break
                nr = None
                for s2, b in self.branch(rest, c == self.ic(int(l), t)):
                    if b: tails.append((i, s2))
                    else: nr = s2
                rest = nr
            if rest is not None:
                di = [i for i, (k, l) in enumerate(flat) if k == "L" and l is None]
                if di: tails.append((di[0], rest))
                else: outs.append((rest, N_))
            for i, s2 in tails:
                for s3, o in self.seq([q for k, q in flat[i:] if k == "S"], s2):
                    outs.append((s3, N_ if o == B_ else o))
        return self.merge_out(outs)
    # ------------------------------------------------------------ loops
    def s_for(self, x, st):
        sts = [s for s, o in self.ex(x["i"], st)] if x["i"] else [st]
        out = []
        for s in sts:
            out += self.loop(s, x, lambda q: self.condlist(x["c"], q), lambda q: self.ex(x["b"], q),
                             (lambda q: [p for p, _ in self.ev(x["inc"], q)]) if x["inc"] else (lambda q: [q]))
        return out
    def condlist(self, c, st):
        if c is None: return [(st, BoolVal(True))]
        out = []
        for s, v in self.ev(c, st):
            if isinstance(v, Loc): v = self.load(s, v)
            out.append((s, self.tobool(s, v, None)))
        return out
    def s_while(self, x, st):
        def cond(q):
            if x.get("cv"):
                r = []
                for s in self.declare(x["cv"], q): r += self.condlist(x["c"], s)
                return r
            return self.condlist(x["c"], q)
        return self.loop(st, x, cond, lambda q: self.ex(x["b"], q), lambda q: [q])
    def s_do(self, x, st):
        # body; while (c) body
        first = self.ex(x["b"], st)
        out = []
        for s, o in first:
            if o in (N_, C_):
                out += self.loop(s, x, lambda q: self.condlist(x["c"], q), lambda q: self.ex(x["b"], q), lambda q: [q])
            elif o == B_: out.append((s, N_))
            else: out.append((s, o))
        return out
    def s_rfor(self, x, st):
        out = []
        for s, r in self.ev(x["r"], st):
            if not isinstance(r, Loc): r = self.newcell(s, r)
            v = self.load(s, r)
            if isinstance(v, Tup):
                out += self.unroll(s, x, r, v); continue
            seq = self.lib.seqlen(s, v)
            n = seq
            cur = self.newcell(s, self.S.sz(0), "cur")
            vt = self.fr.tu.ty(x["v"]["t"]); cid = (self.fr.id, x["v"]["id"])
            def cond(q): 
                return [(q, self.S.ult(self.load(q, cur), self.lib.seqlen(q, self.load(q, r))))]
            def body(q):
                i = self.load(q, cur)
                res = []
                ini = x["v"].get("init")
                loc = LElem(r, i)
                if vt.k == "ref":
                    cont = self.load(q, r)
                    ek = self.S.kind(cont.sort())
                    if self.S.isrec(vt.t): q.cells[cid] = LObj(self.load(q, loc))
                    else: q.cells[cid] = RefBind(loc)
                    if self.S.isrefsort(vt.t): self.tyfacts(q, self.load(q, loc), vt.t)
                else:
                    val = self.load(q, loc)
                    self.tyfacts(q, val, vt)
                    if self.S.isrec(vt):
                        nr = self.newref(q, vt.q); self.copyobj(q, vt.q, val, nr); q.cells[cid] = LObj(nr)
                    else: q.cells[cid] = val
                return self.ex(x["b"], q)
            def inc(q):
                self.store(q, cur, self.load(q, cur) + 1); return [q]
            out += self.loop(s, x, cond, body, inc, cursor=cur, cont=r)
        return out
    def unroll(self, st, x, r, v):
        cur = [st]; out = []
        cid = (self.fr.id, x["v"]["id"]); vt = self.fr.tu.ty(x["v"]["t"])
        for i in range(len(v.xs)):
            n = []
            for s in cur:
                s.cells[cid] = RefBind(LElem(r, self.S.sz(i))) if vt.k == "ref" else v.xs[i]
                for s2, o in self.ex(x["b"], s):
                    if o in (N_, C_): n.append(s2)
                    elif o == B_: out.append((s2, N_))
                    else: out.append((s2, o))
            cur = n
        return out + [(s, N_) for s in cur]
    def iterate(self, st, cond, body, inc):
        """one iteration: (ends, exits, others)"""
        ends, exits, others = [], [], []
        for s, c in cond(st):
            for s2, b in self.branch(s, c):
                if not b: exits.append(s2); continue
                for s3, o in body(s2):
                    if o in (N_, C_): ends.append(s3)
                    elif o == B_: exits.append(s3)
                    else: others.append((s3, o))
        ends2 = []
        if len(ends) > 1: ends = [s for s, _ in self.merge([(s, None) for s in ends])]
        for s in ends: ends2 += inc(s)
        return ends2, exits, others
    def loop(self, st, node, cond, body, inc, cursor=None, cont=None):
        self.stats["loops"] += 1
        L = LoopInfo(self, st, node, cursor, cont)
        # bounded concrete unrolling when the condition decides syntactically
        if self.unit.opts.get("unroll"):
            r = self.try_unroll(st.copy(), cond, body, inc, self.unit.opts["unroll"])
            if r is not None: return r
        # 1. write set
        start = next(E._fresh)
        W = WriteSet()
        self.quiet += 1
        nsink = len(self.sinks)
        try:
            for _ in range(6):
                s = st.copy(); self.havocW(s, W, L)
                base = s.copy()
                self.sinks.append([])
                ends, exits, others = self.iterate(s, cond, body, inc)
                self.sinks.pop()
                grew = False
                for q in ends: grew |= W.update(self, base, q, start)
                if not grew: break
            else: raise ToolLimit("write set does not stabilise")
        finally:
            self.quiet -= 1
            del self.sinks[nsink:]
        # 2. arbitrary iteration
        hv = st.copy()
        self.havocW(hv, W, L)
        L.hv, L.W = hv, W
        if self.quiet:
            # dry run of an enclosing loop: no invariant needed
            ends, exits, others = self.iterate(hv, cond, body, inc)
            outs = [(s, N_) for s in exits] + others
            return self.merge_out(outs)
        cands = L.candidates()
        # search-type candidate
        sc = self.search_candidate(L, hv, cond, body, inc)
        cands += sc
        try: cands += self.update_candidate(L, hv, cond, body, inc)
        except ToolLimit: pass
        live = []
        for name, f in cands:
            try: g0 = f(st)
            except ToolLimit: continue
            if g0 is None: continue
            if self.hcheck(st.conds(), g0): live.append((name, f))
        labs = []
        for name, f in live:
            b = fresh("inv", z3.BoolSort())
            h = f(hv)
            hv.pc.append(("f", Implies(b, h)))
            labs.append((b, name, f))
        no = len(self.obls)
        labsall = [b for b, _, _ in labs]
        ends, exits, others = self.iterate(hv, cond, body, inc)
        changed = True
        while changed and labs:
            changed = False
            keep = []
            hyp = [b for b, _, _ in labs]
            for (b, name, f) in labs:
                ok = True
                for q in ends:
                    g = f(q)
                    if not self.hcheck(q.conds() + hyp, g, id(f) in L.intended): ok = False; break
                if ok: keep.append((b, name, f))
                else: changed = True
            labs = keep
        self.stats["loopinv"] += len(labs)
        for b, name, f in labs:
            # recorded as obligations of their own
            self.record_inv(st, f(st), name, "invariant holds initially", node)
            for q in ends:
                o = Obl(self.unit.label, "loop invariant preserved: " + name, "invariant", q.conds() + [b2 for b2, _, _ in labs], f(q), node.get("ln"), self.fr.d.fn.key if self.fr.d else "")
                self.obls.append(o)
        for o in self.obls[no:]:
            if o.kind != "invariant": o.hyps = o.hyps + [b for b, _, _ in labs]
        req = [n for n, f in cands if n.startswith("!")]
        for n in req:
            if n not in [m for _, m, _ in labs]:
                self.assume.add("note: intended invariant %s not established at line %s" % (n, node.get("ln")))
        for s in exits:
            for b, _, _ in labs: s.fact(b)
        for s, o in others:
            for b, _, _ in labs: s.fact(b)
        # thrown states inside the loop
        if self.sinks:
            for s, o in self.sinks[-1]:
                for b, _, _ in labs: s.fact(b)
        outs = [(s, N_) for s in exits] + others
        return self.merge_out(outs)
    def record_inv(self, st, g, name, what, node):
        self.obls.append(Obl(self.unit.label, what + ": " + name, "invariant", st.conds(), g, node.get("ln"), self.fr.d.fn.key if self.fr.d else ""))
    def hcheck(self, hyps, goal, intended=False):
        t = time.time()
        self.stats["hqueries"] += 1
        r = solve.prove(self, hyps, goal, int(self.opts["htimeout"] * 1000), intended)
        self.stats["htime"] += time.time() - t
        return r
    def havocW(self, st, W, L):
        if W.top: self.newtop(st)
        for cid in W.cells:
            v = st.cells.get(cid)
            if v is None: continue
            if isz(v):
                n = fresh("lv", v.sort()); st.cells[cid] = n
                t = L.celltype(cid)
                if t is not None: self.tyfacts(st, n, t)
                elif v.sort() == z3.IntSort() and cid[1] == "cur": st.fact(n >= 0)
            elif isinstance(v, It):
                n = fresh("it", v.i.sort()); st.cells[cid] = It(v.loc, n, v.rev)
            elif isinstance(v, PtrV) and v.i is not None: st.cells[cid] = PtrV(v.loc, fresh("pi", v.i.sort()))
            elif isinstance(v, (Opaque,)): pass
            else: raise ToolLimit("loop modifies %s" % type(v).__name__)
        for f, refs in W.heap.items():
            old = self.harr(st, f)
            if refs is None:
                n = fresh("HL!" + f, old.sort()); self.tops[n.decl().name()] = st.top; st.heap[f] = n
            else:
                for r in refs:
                    v = fresh("hl!" + f, old.sort().range()); self.tops[v.decl().name()] = st.top
                    self.tyfacts(st, v, self.ft(f))
                    old = Store(old, r, v)
                st.heap[f] = old
        for g in W.ghosts:
            old = self.gh(st, g); st.ghost[g] = fresh("GL!" + g, old.sort())
    def try_unroll(self, st, cond, body, inc, n):
        cur = [st]; outs = []
        for _ in range(n + 1):
            nxt = []
            for s in cur:
                for s2, c in cond(s):
                    c = z3.simplify(c)
                    if z3.is_false(c): outs.append((s2, N_)); continue
                    if not z3.is_true(c): return None
                    for s3, o in body(s2):
                        if o in (N_, C_): nxt += inc(s3)
                        elif o == B_: outs.append((s3, N_))
                        else: outs.append((s3, o))
            cur = nxt
            if not cur: return outs
        return None
    def search_candidate(self, L, hv, cond, body, inc):
        """for j below the cursor the body completed normally: that condition holds of every earlier element"""
        ks = L.cursors()
        out = []
        if len(ks) < 1 or self.opts.get("nosearch"): return out
        for kname, kf in ks[:2]:
            s = hv.copy()
            k = kf(s)
            if not (z3.is_const(k)): continue
            n0 = next(E._fresh)
            self.quiet += 1; self.sinks.append([])
            try:
                p0 = len(s.pc)
                ends, exits, others = self.iterate(s, cond, body, lambda q: [q])
            except ToolLimit:
                continue
            finally:
                self.quiet -= 1; self.sinks.pop()
            if not ends or not (exits or others): continue
            ds = []
            ok = True
            for q in ends:
                d = [f for t, f in q.pc[p0:] if t == "d"]
                d = And(*d) if d else BoolVal(True)
                if any(newer(c, n0) for c in consts(d)):
                    fl = []
                    for t, g in q.pc[p0:]:
                        if t != "f": continue
                        g = z3.simplify(g); fl += g.children() if z3.is_and(g) else [g]
                    r = self.resolve_u(d, fl, n0)
                    if r is not None: d = r
                ds.append(d)
            phi = z3.simplify(Or(*ds))
            if z3.is_true(phi): continue
            cs = consts(phi)
            if any(newer(c, n0) for c in cs): continue
            # phi must depend on loop-modified state only through the cursor
            mod = [c for c in cs if newer(c, 0) and self.is_hv(c, L) and not c.eq(k)]
            if mod: continue
            j = Const("j!s%d" % qid(), k.sort())
            phij = z3.substitute(phi, (k, j))
            if not any(c.eq(k) for c in cs): continue
            k0 = kf(L.st0)
            def cand(st, kf=kf, phij=phij, j=j, k0=k0):
                kk = kf(st)
                return ForAll([j], Implies(And(self.S.ule(k0, j), self.S.ult(j, kk)), phij))
            out.append(("every element before %s satisfies the continuation condition" % kname, cand))
        return out
    def resolve_u(self, v, facts, n0):
        """v, or a term equal to it by the facts that uses nothing created after n0"""
        v = z3.simplify(v)
        for _ in range(8):
            bad = [c for c in consts(v) if newer(c, n0)]
            if not bad: return v
            hit = False
            for f in facts:
                if not z3.is_eq(f): continue
                for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                    if any(a.eq(x) for x in bad) and not any(newer(c, n0) for c in consts(b)):
                        v = z3.simplify(z3.substitute(v, (a, b))); hit = True; break
                if hit: break
            if not hit: return None
        return None
    def update_candidate(self, L, hv, cond, body, inc):
        """a heap field written at a place which depends on the cursor only: what the earlier iterations left there"""
        fs = [f for f, r in L.W.heap.items() if r is None]
        ks = L.cursors()[:2]
        out = []
        if not fs or not ks or self.opts.get("noupdate"): return out
        for kname, kf in ks:
            s = hv.copy(); k = kf(s)
            if not z3.is_const(k): continue
            n0 = next(E._fresh)
            self.quiet += 1; self.sinks.append([])
            try:
                p0 = len(s.pc); base = s.copy()
                ends, exits, others = self.iterate(s, cond, body, lambda q: [q])
            except ToolLimit: continue
            finally:
                self.quiet -= 1; self.sinks.pop()
            for f in fs:
                a0 = base.heap.get(f)
                if a0 is None: a0 = self.harr(base, f)
                rs, vs, ok = [], [], True
                for q in ends:
                    a = self.harr(q, f)
                    if a.eq(a0): continue
                    fl = []
                    for t, g in q.pc[p0:]:
                        if t != "f": continue
                        g = z3.simplify(g); fl += g.children() if z3.is_and(g) else [g]
                    if not (z3.is_app_of(a, z3.Z3_OP_STORE) and a.arg(0).eq(a0)): ok = False; break
                    r = self.resolve_u(a.arg(1), fl, n0); v = self.resolve_u(a.arg(2), fl, n0)
                    if r is None: ok = False; break
                    rs.append(r); vs.append(v)
                if not ok or not rs or any(not r.eq(rs[0]) for r in rs[1:]): continue
                r = rs[0]
                if any(newer(c, 0) and self.is_hv(c, L) and not c.eq(k) for c in consts(r)): continue
                j = Const("j!u%d" % qid(), k.sort()); rj = z3.substitute(r, (k, j)); k0 = kf(L.st0)
                h0 = self.harr(L.st0, f)
                def frm(st, kf=kf, f=f, rj=rj, j=j, k0=k0, h0=h0):
                    q = Const("r!u%d" % qid(), z3.IntSort())
                    return ForAll([q], Implies(Not(Exists([j], And(self.S.ule(k0, j), self.S.ult(j, kf(st)), rj == q))), Select(self.harr(st, f), q) == Select(h0, q)))
                out.append(("%s changed only on the elements before %s" % (f, kname), frm))
                if all(v is not None for v in vs) and all(v.eq(vs[0]) for v in vs[1:]) and len(vs) == len(ends) \
                   and not any(newer(c, 0) and self.is_hv(c, L) and not c.eq(k) for c in consts(vs[0])):
                    vj = z3.substitute(vs[0], (k, j))
                    def upd(st, kf=kf, f=f, rj=rj, vj=vj, j=j, k0=k0):
                        return ForAll([j], Implies(And(self.S.ule(k0, j), self.S.ult(j, kf(st))), Select(self.harr(st, f), rj) == vj))
                    out.append(("%s written on every element before %s" % (f, kname), upd))
        return out
    def is_hv(self, c, L):
        return c.get_id() in L.hvconsts()

def plain(a):
    """usable in a quantifier pattern"""
    st = [a]
    while st:
        x = st.pop()
        if z3.is_quantifier(x) or z3.is_app_of(x, z3.Z3_OP_ITE) or z3.is_bool(x): return False
        st += x.children()
    return True
class LVarChar(Loc):
    """first character of an opaque string"""
    def __init__(s, eng, st, v):
        s.v = v
    def key(s): return ("ch", s.v.get_id())

class WriteSet:
    def __init__(s): s.cells, s.heap, s.ghosts, s.top = {}, {}, set(), False
    def update(s, eng, base, q, start):
        g = False
        for cid, v in base.cells.items():
            if cid in q.cells and not same(v, q.cells[cid]) and cid not in s.cells:
                s.cells[cid] = True; g = True
        for f, a in q.heap.items():
            b = base.heap.get(f)
            if b is None:
                b = Const("H0!" + f, a.sort())
            if a.eq(b): continue
            refs = peel(a, b, start)
            if f not in s.heap:
                s.heap[f] = refs; g = True
            elif s.heap[f] is not None:
                if refs is None: s.heap[f] = None; g = True
                else:
                    for r in refs:
                        if not any(r.eq(x) for x in s.heap[f]): s.heap[f].append(r); g = True
        for n, v in q.ghost.items():
            b = base.ghost.get(n)
            if b is None: b = Const("G0!" + n, v.sort())
            if not v.eq(b) and n not in s.ghosts: s.ghosts.add(n); g = True
        if not q.top.eq(base.top) and not s.top: s.top = True; g = True
        return g

def peel(a, b, start):
    """references written by the Store chain from b to a, if all existed before the loop; else None"""
    refs = []; seen = set()
    work = [a]
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(b): continue
        if z3.is_app_of(x, z3.Z3_OP_STORE):
            r = x.arg(1)
            if any(newer(c, start) for c in consts(r)) or has_select_newer(r, start): return None
            if not any(r.eq(y) for y in refs): refs.append(r)
            work.append(x.arg(0))
        elif z3.is_app_of(x, z3.Z3_OP_ITE): work += [x.arg(1), x.arg(2)]
        else: return None
    return refs
def has_select_newer(r, start): return False
def newer(c, n):
    nm = c.decl().name()
    if "!" not in nm: return False
    t = nm.rsplit("!", 1)[1]
    return t.isdigit() and int(t) > n
_cc = {}
def consts(t):
    """uninterpreted constants of a term"""
    out = []; seen = set(); st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        elif z3.is_quantifier(x): st.append(x.body())
        else: st += x.children()
    return out

class LoopInfo:
    def __init__(s, eng, st0, node, cursor, cont):
        s.eng, s.st0, s.node, s.cursor, s.cont = eng, st0.copy(), node, cursor, cont
        s.fr = eng.fr; s.this = eng.fr.this
        s.hv = None; s.W = None; s.intended = set()
        s._types = {}
        d = eng.fr.d
    def celltype(s, cid):
        if not s._types:
            def walk(n):
                if isinstance(n, dict):
                    if "id" in n and "t" in n and "n" in n and isinstance(n["t"], int): s._types[n["id"]] = n["t"]
                    for v in n.values(): walk(v)
                elif isinstance(n, list):
                    for v in n: walk(v)
            if s.fr.d is not None:
                walk(s.fr.d.body); walk(s.fr.d.params)
        if isinstance(cid[1], int) and cid[0] == s.fr.id and cid[1] in s._types:
            return s.fr.tu.ty(s._types[cid[1]])
        return None
    def hvconsts(s):
        if not hasattr(s, "_hc"):
            s._hc = set()
            for cid in s.W.cells:
                v = s.hv.cells.get(cid)
                for x in ([v] if isz(v) else [v.i] if isinstance(v, (It, PtrV)) and v.i is not None else []):
                    for c in consts(x): s._hc.add(c.get_id())
            for f in s.W.heap:
                for c in consts(s.hv.heap[f]):
                    if c.decl().name().startswith(("HL!", "hl!")): s._hc.add(c.get_id())
            for g in s.W.ghosts:
                for c in consts(s.hv.ghost[g]): s._hc.add(c.get_id())
        return s._hc
    def cursors(s):
        """integer-like loop positions: (name, fn(state)->term)"""
        out = []
        eng = s.eng
        if s.cursor is not None: out.append(("cursor", lambda st: eng.load(st, s.cursor)))
        for cid in s.W.cells:
            v = s.hv.cells.get(cid)
            if s.cursor is not None and cid == s.cursor.cid: continue
            if isinstance(v, It): out.append(("iterator", lambda st, cid=cid: st.cells[cid].i))
            elif isz(v) and v.sort() == eng.S.SZ and not isinstance(cid[1], str):
                out.append(("index", lambda st, cid=cid: st.cells[cid]))
        return out
    def ivars(s):
        out = []
        for cid in s.W.cells:
            v = s.hv.cells.get(cid)
            if isz(v) and (s.cursor is None or cid != s.cursor.cid):
                out.append((cid, lambda st, cid=cid: st.cells[cid]))
        return out
    def candidates(s):
        eng = s.eng; S = eng.S
        out = []
        for cid in s.W.cells:
            v = s.hv.cells.get(cid); v0 = s.st0.cells.get(cid)
            if isinstance(v, It):
                loc = v.loc
                out.append(("iterator in range", lambda st, cid=cid, loc=loc: And(S.ule(S.sz(0), st.cells[cid].i), S.ule(st.cells[cid].i, eng.lib.seqlen(st, eng.load(st, loc))))))
                out.append(("iterator not before start", lambda st, cid=cid, a=v0.i: S.ule(a, st.cells[cid].i)))
            elif isz(v) and (z3.is_int(v) or z3.is_bv(v)):
                t = s.celltype(cid)
                sg = t.s if t is not None and t.k == "int" else False
                if t is not None and t.k in ("ptr", "ref") or (eng.bv and not z3.is_bv(v)): continue
                le = (lambda a, b: a <= b) if (not eng.bv or sg) else (lambda a, b: z3.ULE(a, b))
                out.append(("counter not below start", lambda st, cid=cid, a=v0, le=le: le(a, st.cells[cid])))
                out.append(("counter not above start", lambda st, cid=cid, a=v0, le=le: le(st.cells[cid], a)))
                for b in s.bounds_terms(v):
                    out.append(("counter bounded", lambda st, cid=cid, b=b, le=le: le(st.cells[cid], b)))
            elif isz(v) and z3.is_bool(v):
                out.append(("flag keeps its value", lambda st, cid=cid, a=v0: st.cells[cid] == a))
            elif isz(v) and S.kind(v.sort()) and S.kind(v.sort())[0] == "vec":
                out.append(("length kept", lambda st, cid=cid, a=v0: S.vlen(st.cells[cid]) == S.vlen(a)))
        if s.cursor is not None:
            out.append(("cursor in range", lambda st: And(S.ule(S.sz(0), eng.load(st, s.cursor)), S.ule(eng.load(st, s.cursor), eng.lib.seqlen(st, eng.load(st, s.cont))))))
        for f, refs in s.W.heap.items():
            if refs is None:
                a0 = eng.harr(s.st0, f); top0 = s.st0.top
                def fr(st, f=f, a0=a0, top0=top0):
                    q = Const("r!fr", z3.IntSort())
                    a = eng.harr(st, f)
                    if a.eq(a0): return BoolVal(True)
                    return ForAll([q], Implies(STAMP(q) <= top0, Select(a, q) == Select(a0, q)), patterns=[Select(a, q)] if plain(a) else [])
                out.append(("%s unchanged on older objects" % f, fr))
                if s.this is not None:
                    def fr2(st, f=f, a0=a0, th=s.this):
                        q = Const("r!fr", z3.IntSort()); a = eng.harr(st, f)
                        return ForAll([q], Implies(And(STAMP(q) <= top0, q != th), Select(a, q) == Select(a0, q)))
                    out.append(("%s unchanged on other older objects" % f, fr2))
        ucx = getattr(eng, "ucx", None)
        if ucx is not None and eng.unit.mods:
            al = {}
            for m in eng.unit.mods(ucx):
                if not m[0].startswith("ghost:"): al.setdefault(eng.fname(m[0]), []).append(m[1])
                elif m[1] is not None:
                    def fr4(st, n=m[0][6:], ok=m[1]):
                        q = Const("r!fm", z3.IntSort()); a, b = eng.gh(st, n), eng.gh(ucx.pre.st, n)
                        return BoolVal(True) if a.eq(b) else ForAll([q], Or(ok(q), Select(a, q) == Select(b, q)), patterns=[Select(a, q)] if plain(a) else [])
                    out.append(("ghost %s changed only where the contract allows" % m[0][6:], fr4))
            for f, refs in s.W.heap.items():
                if f not in al or None in al[f]: continue
                b = eng.harr(ucx.pre.st, f); tp = ucx.pre.st.top
                def fr3(st, f=f, b=b, ms=al[f], tp=tp):
                    q = Const("r!fm", z3.IntSort()); a = eng.harr(st, f)
                    return ForAll([q], Or(*[q == x if isz(x) else x(q) for x in ms], STAMP(q) > tp, Select(a, q) == Select(b, q)), patterns=[Select(a, q)] if plain(a) else [])
                out.append(("%s changed only where the contract allows" % f, fr3))
        if eng.unit.loops:
            for c in eng.unit.loops(s) or []: out.append(c); s.intended.add(id(c[1])); eng.keep(c)
        return out
    def bounds_terms(s, v):
        """terms the counter is compared with"""
        return []

def norm(x):
    if x is None: return []
    if isz(x): return [("", x)]
    out = []
    for i, y in enumerate(x):
        out.append(y if isinstance(y, tuple) else ("#%d" % i, y))
    return out

def hash_(s):
    import zlib
    return zlib.crc32(s.encode())

class _T: pass
Ty64 = _T(); Ty64.k, Ty64.w, Ty64.s = "int", 64, False
