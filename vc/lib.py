"""Models of the C++ standard library (and a few external) operations used by the code under proof.

These models are part of the trusted base; anything not modelled here is replaced by an arbitrary result and
arbitrary contents of its non-const reference arguments, which is recorded as an assumption."""
from engine import *
import z3

class Lib:
    def __init__(self, eng):
        self.e = eng; self.S = eng.S
    # ---------------------------------------------------------------- helpers
    def val(self, st, x):
        return self.e.load(st, x) if isinstance(x, Loc) else x
    def seqlen(self, st, v):
        S = self.S
        if isinstance(v, Tup): return S.sz(len(v.xs))
        if not isz(v): raise ToolLimit("length of %s" % type(v).__name__)
        k = S.kind(v.sort())
        if k is None:
            if v.sort() == S.Str: return self.e.strlen(st, v)
            raise ToolLimit("length of %s" % v.sort())
        if k[0] == "vec": return self.e.lenfact(st, v) if not const(S.vlen(v)) else S.vlen(v)
        if k[0] == "map":
            self.mapwf(st, v)
            ks = S._acc(v, 2); self.e.lenfact(st, ks); return S.vlen(ks)
        raise ToolLimit("length")
    def mapwf(self, st, m):
        S = self.S
        if not self.e.opts.get("mapwf", True): return
        has, ks = S._acc(m, 0), S._acc(m, 2)
        key = ("wf", m.get_id())
        if key in st.known: return
        st.known.add(key); self.e.keep(m)
        k = S.kind(m.sort())
        pos = uf("pos!" + str(ks.sort()), ks.sort(), k[1], S.SZ)
        i = Const("i!wf", S.SZ); x = Const("x!wf", k[1])
        n = S.vlen(ks); a = S.varr(ks)
        st.fact(ForAll([i], Implies(And(S.ule(S.sz(0), i), S.ult(i, n)), And(Select(has, Select(a, i)), pos(ks, Select(a, i)) == i)),
                       patterns=[Select(a, i)]))
        st.fact(ForAll([x], Implies(Select(has, x), And(S.ule(S.sz(0), pos(ks, x)), S.ult(pos(ks, x), n), Select(a, pos(ks, x)) == x)),
                       patterns=[Select(has, x)] if not z3.is_quantifier(has) and is_patternable(has) else []))
    def emptyvec(self, es):
        return self.S.mkvec(es, self.S.sz(0), Const("empty!" + str(es), z3.ArraySort(self.S.SZ, es)))
    def emptymap(self, so):
        k = self.S.kind(so)
        return self.S.mk(so, z3.K(k[1], z3.BoolVal(False)), Const("emptyval!" + str(so), z3.ArraySort(k[1], k[2])), self.emptyvec(k[1]))
    def push(self, v, x):
        n = self.S.vlen(v)
        return self.S.mk(v.sort(), z3.simplify(n + 1), Store(self.S.varr(v), n, x))
    def erase_at(self, st, v, i, cnt=1):
        S = self.S
        a = S.varr(v); j = Const("j!er", S.SZ)
        c = S.sz(cnt) if isinstance(cnt, int) else cnt
        na = z3.Lambda([j], If(S.ult(j, i), Select(a, j), Select(a, j + c)))
        return S.mk(v.sort(), S.vlen(v) - c, self.named(st, na))
    def insert_at(self, st, v, i, x):
        S = self.S
        a = S.varr(v); j = Const("j!in", S.SZ)
        na = z3.Lambda([j], If(S.ult(j, i), Select(a, j), If(j == i, x, Select(a, j - 1))))
        return S.mk(v.sort(), S.vlen(v) + 1, self.named(st, na))
    def named(self, st, lam):
        """fresh array with pointwise definition (keeps lambdas out of terms)"""
        n = fresh("arr", lam.sort())
        j = Const("j!nm", lam.sort().domain())
        st.fact(ForAll([j], Select(n, j) == z3.simplify(Select(lam, j)), patterns=[Select(n, j)]))
        return n
    def map_insert(self, st, m, k, v):
        """m with k bound to v (k may be present)"""
        S = self.S
        has, val, ks = S._acc(m, 0), S._acc(m, 1), S._acc(m, 2)
        nk = fresh("keys", ks.sort())
        st.fact(Implies(Select(has, k), nk == ks))
        st.fact(Implies(Not(Select(has, k)), S.vlen(nk) == S.vlen(ks) + 1))
        nm = S.mk(m.sort(), Store(has, k, z3.BoolVal(True)), Store(val, k, v) if v is not None else val, nk)
        self.mapwf(st, nm)
        return nm
    def map_erase(self, st, m, k):
        S = self.S
        has, val, ks = S._acc(m, 0), S._acc(m, 1), S._acc(m, 2)
        nk = fresh("keys", ks.sort())
        st.fact(Implies(Not(Select(has, k)), nk == ks))
        st.fact(Implies(Select(has, k), S.vlen(nk) == S.vlen(ks) - 1))
        nm = S.mk(m.sort(), Store(has, k, z3.BoolVal(False)), val, nk)
        self.mapwf(st, nm)
        return nm
    def map_find(self, st, loc, m, k):
        S = self.S
        self.mapwf(st, m)
        i = fresh("pos", S.SZ); ks = S._acc(m, 2); n = S.vlen(ks); self.e.lenfact(st, ks)
        st.fact(If(Select(S._acc(m, 0), k), And(S.ule(S.sz(0), i), S.ult(i, n), Select(S.varr(ks), i) == k), i == n))
        return It(loc, i)
    def lockid(self, st, x):
        if isinstance(x, LObj): return x.r
        if isinstance(x, LField): return x.r
        if isinstance(x, LVar):
            return x
        return x
    def lockof(self, x):
        """the manager whose settings lock the mutex at location x is, or None"""
        if isinstance(x, RefBind): x = x.loc
        return x.r if isinstance(x, LField) and x.f.startswith("CParameterMgr::") else None
    def acquire(self, st, m):
        e = self.e; r = self.lockof(m)
        if r is None or not e.unit.opts.get("locks"): return
        h = e.gh(st, "lock", z3.ArraySort(z3.IntSort(), z3.IntSort()))
        e.oblige(st, Select(h, r) == 0, "the settings lock is not already held when acquired", "lock")
        st.ghost["lock"] = Store(h, r, Select(h, r) + 1)
    def release(self, st, m):
        e = self.e; m = getattr(m, "m", m); r = self.lockof(m)
        if r is None or not e.unit.opts.get("locks"): return
        h = e.gh(st, "lock", z3.ArraySort(z3.IntSort(), z3.IntSort())); st.ghost["lock"] = Store(h, r, Select(h, r) - 1)
    # raw arrays ------------------------------------------------------------
    def rawfield(self, es):
        n = "raw::" + str(es)
        if n not in self.e.ftype:
            t = type("T", (), {})(); t.k = "rawvec"; t.es = es; t.c = False; t.sys = True; t.n = "raw"; t.q = n
            self.e.ftype[n] = t
            so = self.S.sort
            old = self.S.sort
            def sort(tt, old=old):
                if tt.k == "rawvec": return self.S.vec(tt.es)
                return old(tt)
            self.S.sort = sort
        return n
    def rawnew(self, st, r, n, es):
        f = self.rawfield(es)
        self.e.store(st, LField(f, r), self.S.mkvec(es, n, fresh("raw", z3.ArraySort(self.S.SZ, es))))
    def rawptr(self, st, r, es):
        return PtrV(LField(self.rawfield(es), r), self.S.sz(0))
    # ---------------------------------------------------------------- construction
    def early(self, fn, e, st):
        if fn.sys and fn.name in ("move", "forward", "addressof", "__addressof", "ref", "cref", "as_const") and len(e["a"]) == 1:
            out = []
            for s, v in self.e.ev(e["a"][0], st):
                if fn.name in ("addressof", "__addressof"):
                    v = v.r if isinstance(v, LObj) else PtrV(v)
                out.append((s, v))
            return out
        return None
    def ctor(self, st, fn, t, a, e):
        E, S = self.e, self.S
        if t is None or t.k != "rec": t = fn.clst
        if fn.copy or fn.move:
            x = a[0]
            v = self.val(st, x)
            if fn.move and isinstance(x, Loc) and S.issmart(t): E.store(st, x, z3.IntVal(0))
            return [(st, v)]
        if S.isstr(t): return self.strctor(st, fn, a)
        if S.isseq(t): return self.seqctor(st, fn, t, a)
        if S.ismap(t) or S.isset(t):
            so = S.sort(t)
            m = self.emptymap(so)
            if a and isinstance(self.val(st, a[0]), Tup):
                for x in self.val(st, a[0]).xs:
                    if S.isset(t): m = self.map_insert(st, m, E.toz(st, x, t.args[0]), z3.BoolVal(True))
                    else:
                        k, v = (x.xs if isinstance(x, Tup) else (S._acc(x, 0), S._acc(x, 1)))
                        m = self.map_insert(st, m, E.toz(st, k, t.args[0]), E.toz(st, v, t.args[1]))
                return [(st, m)]
            if a and not isinstance(self.val(st, a[0]), Opaque): raise ToolLimit("map constructor")
            return [(st, m)]
        if S.ispair(t):
            so = S.sort(t)
            if not a:
                return [(st, S.mk(so, E.zero(t.args[0]), E.zero(t.args[1])))]
            if len(a) == 2:
                vs = [self.coerce(st, self.val(st, x), tt) for x, tt in zip(a, t.args)]
                if any(not isz(v) for v in vs):
                    return [(st, Tup(vs))]
                return [(st, S.mk(so, *vs))]
            if len(a) == 1:
                v = self.val(st, a[0])
                if isinstance(v, Tup) or v.sort() == so: return [(st, v)]
                return [(st, S.mk(so, self.coerce(st, S._acc(v, 0), t.args[0]), self.coerce(st, S._acc(v, 1), t.args[1])))]
        if S.issmart(t):
            if not a: return [(st, z3.IntVal(0))]
            v = self.val(st, a[0])
            if isinstance(v, NullP): v = z3.IntVal(0)
            if isinstance(a[0], Loc) and S.issmart(self.e.T(e["a"][0]).noref()) and "shared" not in S.cls(t): E.store(st, a[0], z3.IntVal(0))
            return [(st, v)]
        if S.isstream(t):
            if a and S.cls(t) != "std::basic_ostringstream":
                v = self.val(st, a[0])
                if isz(v) and v.sort() == S.str_sort(): return [(st, v)]
            return [(st, E.lit(""))]
        c = S.cls(t)
        if c in ("std::lock_guard", "std::unique_lock"):
            self.acquire(st, a[0] if a else None); o = Opaque("lock"); o.m = a[0] if a else None; return [(st, o)]
        if S.isiter(t) or c == "std::function":
            if a: return [(st, self.val(st, a[0]))]
            return [(st, Opaque("iter"))]
        if c in ("std::initializer_list",): return [(st, Opaque("il"))]
        if c in ("std::tuple",): return [(st, Tup([self.val(st, x) for x in a]))]
        if c.startswith("std::") or c.startswith("asio") or c.startswith("__gnu_cxx"):
            return [(st, Opaque(c))]
        if t.lam: return [(st, self.val(st, a[0]))]
        raise ToolLimit("constructor of %s" % t)
    def coerce(self, st, v, t):
        E, S = self.e, self.S
        if isz(v):
            so = S.sort(t)
            if v.sort() == so: return v
            if z3.is_bv(v) and t.k == "int": 
                return z3.Extract(t.w - 1, 0, v) if v.size() > t.w else z3.SignExt(t.w - v.size(), v)
            if z3.is_bool(v) and t.k == "int": return If(v, E.ic(1, t), E.ic(0, t))
            raise ToolLimit("coerce %s to %s" % (v.sort(), t))
        if isinstance(v, LObj): return v.r
        return v if not isinstance(v, NullP) else E.toz(st, v, t)
    def strctor(self, st, fn, a):
        E, S = self.e, self.S
        if not a or isinstance(a[0], Opaque): return [(st, E.lit(""))]
        v = self.val(st, a[0])
        args = [x for x in a[1:] if not isinstance(x, Opaque) and not (isinstance(x, Loc) and isinstance(self.val(st, x), Opaque))]
        if isz(v) and v.sort() == S.str_sort():
            if not args: return [(st, v)]
            vs = [self.val(st, x) for x in args]
            if len(vs) == 2: return [(st, self.substr(st, v, vs[0], vs[1]))]
            if len(vs) == 1: return [(st, self.substr(st, v, S.sz(0), vs[0]) if fn.pt[0].k == "ptr" else self.substr(st, v, vs[0], None))]
        if isinstance(v, PtrV) and v.i is not None:
            # C string at a pointer: content up to the terminator
            src = self.val(st, v.loc)
            if S.strmode == "vec" and isz(src) and not args: return [(st, self.cstring(st, src, v.i))]
            r = uf("cstr", src.sort(), S.SZ, S.str_sort())(src, v.i) if isz(src) else fresh("cstr", S.str_sort())
            return [(st, r)]
        if len(a) >= 2 and isz(v) and S.strmode == "vec" and not z3.is_bool(v):
            # (count, char)
            c = self.val(st, a[1])
            return [(st, S.mkvec(S.str_sort().es, v, z3.K(S.SZ, c)))]
        if isinstance(v, It):
            return [(st, fresh("str", S.str_sort()))]
        E.assume.add("std::string constructor from %s: arbitrary string" % type(v).__name__)
        return [(st, fresh("str", S.str_sort()))]
    def cstring(self, st, src, i):
        E, S = self.e, self.S
        r = fresh("cstr", S.str_sort())
        n = S.vlen(r); j = Const("j!cs", S.SZ)
        zero = E.ic(0, Tchar) if not E.bv else z3.BitVecVal(0, 8)
        E.lenfact(st, r)
        st.fact(ForAll([j], Implies(And(S.ule(S.sz(0), j), S.ult(j, n)), And(Select(S.varr(r), j) == Select(S.varr(src), i + j), Select(S.varr(src), i + j) != zero)), patterns=[Select(S.varr(r), j)]))
        st.fact(Select(S.varr(src), i + n) == zero)
        return r
    def substr(self, st, s, pos, n):
        E, S = self.e, self.S
        if S.strmode == "op":
            ln = E.strlen(st, s)
            if z3.eq(z3.simplify(pos), S.sz(0)): tail = s
            else:
                tail = uf("substr1", S.Str, S.SZ, S.Str)(s, pos); st.fact(Implies(S.ule(pos, ln), E.strlen(st, tail) == ln - pos))
            if n is None: return tail
            r = uf("substr", S.Str, S.SZ, S.SZ, S.Str)(s, pos, n)
            st.fact(Implies(And(S.ule(pos, ln), S.ule(ln - pos, n)), r == tail)); st.fact(Implies(And(S.ule(pos, ln), S.ult(n, ln - pos)), E.strlen(st, r) == n))
            return r
        ln = S.vlen(s); E.lenfact(st, s)
        E.oblige(st, S.ule(pos, ln), "substr position within the string", "bounds")
        rem = ln - pos
        m = rem if n is None else If(S.ult(n, rem), n, rem)
        if z3.is_int_value(pos) and pos.as_long() == 0: return S.mk(s.sort(), m, S.varr(s))
        j = Const("j!ss", S.SZ)
        arr = self.named(st, z3.Lambda([j], Select(S.varr(s), j + pos)))
        return S.mk(s.sort(), m, arr)
    def str_erase(self, st, s, pos, n):
        """erase of at most n characters from pos (which must be within the string)"""
        E, S = self.e, self.S
        ln = S.vlen(s); E.lenfact(st, s)
        E.oblige(st, S.ule(pos, ln), "erase position within the string", "bounds")
        rem = ln - pos
        m = rem if n is None else If(S.ult(n, rem), n, rem)
        j = Const("j!se", S.SZ)
        arr = self.named(st, z3.Lambda([j], If(S.ult(j, pos), Select(S.varr(s), j), Select(S.varr(s), j + m)))) if n is not None else S.varr(s)
        return S.mk(s.sort(), ln - m, arr)
    def seqctor(self, st, fn, t, a):
        E, S = self.e, self.S
        so = S.sort(t); es = so.es
        a = [x for x in a if not isinstance(x, Opaque) and not (isinstance(x, LVar) and isinstance(self.val(st, x), Opaque))]
        if not a: return [(st, self.emptyvec(es))]
        v = self.val(st, a[0])
        if isinstance(v, Tup): return [(st, E.toz(st, v, t))]
        if isz(v) and v.sort() == so: return [(st, v)]
        if isinstance(v, It) and len(a) == 2:
            w = self.val(st, a[1])
            src = self.val(st, v.loc)
            return [(st, self.slice(st, so, src, v.i, w.i))]
        if isz(v) and v.sort() == S.SZ:
            if len(a) == 2 and isz(self.val(st, a[1])): x = self.val(st, a[1])
            else: x = E.zero(t.args[0]) if not S.isrec(t.args[0]) else None
            if x is None: raise ToolLimit("vector of default objects")
            return [(st, S.mkvec(es, v, z3.K(S.SZ, x)))]
        raise ToolLimit("sequence constructor from %s" % type(v).__name__)
    def slice(self, st, so, src, i, j):
        S = self.S
        k = S.kind(src.sort())
        if k[0] == "map" and k[2] == z3.BoolSort(): src = S._acc(src, 2)
        elif k[0] == "map": raise ToolLimit("slice of a map")
        if (z3.is_int_value(i) or z3.is_bv_value(i)) and i.as_long() == 0: return S.mk(so, j, S.varr(src))
        x = Const("j!sl", S.SZ)
        return S.mk(so, j - i, self.named(st, z3.Lambda([x], Select(S.varr(src), x + i))))
    # ---------------------------------------------------------------- member calls
    def mcall(self, st, fn, o, a, e):
        t = fn.clst; S = self.S
        n = fn.name
        if S.isstr(t): return self.str_m(st, fn, n, o, a, e)
        if S.isseq(t): return self.seq_m(st, fn, n, o, a, t, e)
        if S.ismap(t) or S.isset(t): return self.map_m(st, fn, n, o, a, t, e)
        if S.issmart(t): return self.smart_m(st, fn, n, o, a, t, e)
        if S.isstream(t): return self.stream_m(st, fn, n, o, a, t, e)
        c = S.cls(t)
        if S.isiter(t) and n in ("base",): return [(st, self.val(st, o))]
        if n == "what": return [(st, fresh("what", S.str_sort()))]
        if c in ("std::lock_guard", "std::unique_lock", "std::mutex", "std::recursive_mutex"):
            x = st.cells.get(o.cid) if isinstance(o, LVar) else o; x = getattr(x, "m", o)
            if n == "lock": self.acquire(st, x)
            elif n == "unlock": self.release(st, x)
            return [(st, None)]
        if c == "std::numeric_limits" or n in ("max", "min", "lowest"): return self.unknown(st, fn, a)
        if fn.dtor: return [(st, None)]
        if c == "std::function" or fn.op == "()":
            v = self.val(st, o)
            if isinstance(v, Closure): return self.e.call_closure(st, v, a)
        return self.unknown(st, fn, a)
    def unknown(self, st, fn, a):
        E, S = self.e, self.S
        E.assume.add("library function %s: arbitrary result" % fn.n)
        for x, t in zip(a, fn.pt):
            if t.k == "ref" and not t.t.c and isinstance(x, Loc) and not isinstance(x, LObj) and not t.rv:
                E.havocloc(st, x, None)
        rt = fn.ret
        if rt.k == "void": return [(st, None)]
        if rt.k == "ref":
            if S.isrec(rt.t): return [(st, LObj(E.fresh_ref(st, "ret")))]
            v = E.fresh_val(st, rt.t, "ret")
            return [(st, E.newcell(st, v))]
        return [(st, E.fresh_val(st, rt, "ret"))]
    def str_m(self, st, fn, n, o, a, e):
        E, S = self.e, self.S
        s = self.val(st, o)
        av = [self.val(st, x) for x in a]
        if n in ("c_str", "data"):
            return [(st, s)]
        if n in ("length", "size"): return [(st, E.strlen(st, s))]
        if n == "empty":
            if S.strmode == "vec": return [(st, S.vlen(s) == S.sz(0))]
            return [(st, s == E.lit(""))]
        if n in ("append", "push_back"):
            x = av[0]
            if S.strmode == "vec" and isz(x) and x.sort() != S.str_sort(): r = self.push(s, x)
            elif isz(x) and x.sort() == S.str_sort() and len(av) == 1: r = E.concat(s, x)
            elif S.strmode == "op" and isz(x) and len(av) == 1: r = E.concat(s, uf("chr", x.sort(), S.Str)(x))
            else: raise ToolLimit("append")
            E.store(st, o, r); return [(st, o)]
        if n == "assign" and len(av) == 1 and isz(av[0]): E.store(st, o, av[0]); return [(st, o)]
        if n == "assign" and len(av) == 2 and S.strmode == "vec" and all(isinstance(x, It) and not x.rev for x in av):
            E.store(st, o, self.slice(st, s.sort(), self.val(st, av[0].loc), av[0].i, av[1].i)); return [(st, o)]
        if n == "clear": E.store(st, o, E.lit("")); return [(st, None)]
        if n == "substr":
            p = av[0] if av else S.sz(0)
            return [(st, self.substr(st, s, p, av[1] if len(av) > 1 else None))]
        if n in ("at", "operator[]"): return [(st, LElem(o if isinstance(o, Loc) else E.newcell(st, s), av[0]))]
        if n in ("begin", "cbegin"): return [(st, It(o, S.sz(0)))]
        if n in ("end", "cend"): return [(st, It(o, E.strlen(st, s)))]
        if n == "back" and S.strmode == "vec": return [(st, LElem(o, S.vlen(s) - 1))]
        if n == "front" and S.strmode == "vec": return [(st, LElem(o, S.sz(0)))]
        if n == "compare" and len(av) == 3 and S.strmode == "vec" and all(isz(x) for x in av) and av[2].sort() == S.str_sort():
            pn = z3.simplify(S.vlen(av[2])); ln = S.vlen(s); k = av[1]; p = av[0]
            if z3.is_int_value(pn) or z3.is_bv_value(pn):
                m = pn.as_long(); E.oblige(st, S.ule(p, ln), "position within the string", "bounds"); cut = If(S.ult(k, ln - p), k, ln - p)
                r = fresh("cmp", z3.BitVecSort(32) if E.bv else z3.IntSort())
                st.fact((r == 0) == And(cut == S.sz(m), *[E.asel(S.varr(s), p + S.sz(q)) == E.asel(S.varr(av[2]), S.sz(q)) for q in range(m)])); return [(st, r)]
        if n == "compare" and len(av) == 1: 
            r = fresh("cmp", z3.BitVecSort(32) if E.bv else z3.IntSort())
            st.fact((r == 0) == (s == av[0])); return [(st, r)]
        if n == "swap":
            E.store(st, o, av[0]); E.store(st, a[0], s); return [(st, None)]
        if n in ("find", "find_first_of", "rfind", "find_first_not_of", "find_last_of", "find_last_not_of"):
            if S.strmode == "vec": return self.str_find(st, n, s, av, fn)
            if n in ("find", "find_first_of") and isz(av[0]):
                one = [l for l, x in E.lits.items() if len(l) == 1 and x.eq(av[0])]
                if one: av = [E.ic(ord(one[0]), Tchar)] + av[1:]
                if av[0].sort() != S.Str: n = "find"
                if len(av) > 1 and isz(av[1]) and z3.eq(z3.simplify(av[1]), S.sz(0)): av = av[:1]
            so = [x.sort() for x in av if isz(x)]
            r = uf("str_" + n, S.Str, *(so + [S.SZ]))(s, *[x for x in av if isz(x)])
            npos = (1 << 64) - 1
            if not E.bv: st.fact(Or(r == npos, And(r >= 0, r < E.strlen(st, s))))
            else: st.fact(Or(r == S.sz(npos), z3.ULT(r, E.strlen(st, s))))
            return [(st, r)]
        if n == "erase" and S.strmode == "vec" and av and all(isz(x) and x.sort() == S.SZ for x in av):
            E.store(st, o, self.str_erase(st, s, av[0], av[1] if len(av) > 1 and not z3.eq(z3.simplify(av[1]), S.sz((1 << 64) - 1)) else None)); return [(st, o)]
        if n in ("erase", "replace", "insert", "resize", "pop_back"):
            E.assume.add("std::string::%s: arbitrary contents" % n)
            E.store(st, o, fresh("str", S.str_sort()))
            return [(st, o)]
        if n in ("get_allocator", "reserve", "shrink_to_fit"): return [(st, Opaque("alloc"))]
        if fn.dtor: return [(st, None)]
        return self.unknown(st, fn, a)
    def inset(self, c, pat, fn):
        """c belongs to the characters of pat (a char, or a short literal string)"""
        E, S = self.e, self.S
        if pat.sort() != S.str_sort(): return c == pat
        if z3.is_app_of(pat, z3.Z3_OP_ITE): return If(pat.arg(0), self.inset(c, pat.arg(1), fn), self.inset(c, pat.arg(2), fn))
        j = Const("j!pat", S.SZ)
        n = S.vlen(pat)
        if z3.is_int_value(n) or z3.is_bv_value(n):
            k = n.as_long()
            return Or(*[c == E.asel(S.varr(pat), S.sz(i)) for i in range(k)]) if k else z3.BoolVal(False)
        f = uf("inset", c.sort(), pat.sort(), z3.BoolSort())
        E.unit_inset = f
        return f(c, pat)
    def str_find(self, st, n, s, av, fn):
        E, S = self.e, self.S
        pat = av[0]; frm = av[1] if len(av) > 1 else S.sz(0)
        if pat.sort() == S.str_sort() and n == "find":
            pn = z3.simplify(S.vlen(pat))
            if not (z3.is_int_value(pn) or z3.is_bv_value(pn)) or pn.as_long() != 1: raise ToolLimit("substring search")
            pat = E.asel(S.varr(pat), S.sz(0))
        NP = (1 << 64) - 1
        r = fresh("find", S.SZ); ln = S.vlen(s); a = S.varr(s); E.lenfact(st, s)
        neg = "not" in n
        P = lambda c: Not(self.inset(c, pat, fn)) if neg else self.inset(c, pat, fn)
        j = Const("j!f", S.SZ)
        if n in ("find", "find_first_of", "find_first_not_of"):
            st.fact(Or(And(r == S.sz(NP), ForAll([j], Implies(And(S.ule(frm, j), S.ult(j, ln)), Not(P(Select(a, j)))), patterns=[Select(a, j)])),
                       And(S.ule(frm, r), S.ult(r, ln), P(Select(a, r)),
                           ForAll([j], Implies(And(S.ule(frm, j), S.ult(j, r)), Not(P(Select(a, j)))), patterns=[Select(a, j)]))))
        else:
            if len(av) > 1 and not z3.eq(z3.simplify(av[1]), S.sz(NP)): raise ToolLimit("find_last with position")
            st.fact(Or(And(r == S.sz(NP), ForAll([j], Implies(And(S.ule(S.sz(0), j), S.ult(j, ln)), Not(P(Select(a, j)))), patterns=[Select(a, j)])),
                       And(S.ule(S.sz(0), r), S.ult(r, ln), P(Select(a, r)),
                           ForAll([j], Implies(And(S.ult(r, j), S.ult(j, ln)), Not(P(Select(a, j)))), patterns=[Select(a, j)]))))
        return [(st, r)]
    def seq_m(self, st, fn, n, o, a, t, e):
        E, S = self.e, self.S
        v = self.val(st, o)
        if isinstance(v, Opaque):
            v = self.emptyvec(S.sort(t).es)
            if isinstance(o, Loc): E.store(st, o, v)
        ol = o if isinstance(o, Loc) else E.newcell(st, v)
        if n == "size": return [(st, self.seqlen(st, v))]
        if n == "empty": return [(st, self.seqlen(st, v) == S.sz(0))]
        if n in ("begin", "cbegin"): return [(st, It(ol, S.sz(0)))]
        if n in ("end", "cend"): return [(st, It(ol, self.seqlen(st, v)))]
        if n in ("rbegin",): return [(st, It(ol, S.sz(0), True))]
        if n in ("rend",): return [(st, It(ol, self.seqlen(st, v), True))]
        if n in ("operator[]", "at"):
            i = self.val(st, a[0])
            if n == "operator[]":
                self.bound(st, v, i)
            else:
                E.oblige(st, S.ult(i, self.seqlen(st, v)), "at() within bounds", "bounds")
            return [(st, LElem(ol, i))]
        if n == "front":
            self.bound(st, v, S.sz(0)); return [(st, LElem(ol, S.sz(0)))]
        if n in ("back", "top"):
            self.bound(st, v, S.vlen(v) - 1); return [(st, LElem(ol, z3.simplify(S.vlen(v) - 1)))]
        if n == "data": return [(st, PtrV(ol, S.sz(0)))]
        if n in ("push_back", "emplace_back", "push"):
            if n == "emplace_back" and len(a) != 1: raise ToolLimit("emplace_back")
            x = self.boxed(st, a[0], t.args[0])
            E.store(st, ol, self.push(v, x))
            if isinstance(a[0], Loc) and S.issmart(t.args[0]) and fn.pt[0].rv: E.store(st, a[0], z3.IntVal(0))
            return [(st, None)]
        if n == "push_front":
            E.store(st, ol, self.insert_at(st, v, S.sz(0), self.boxed(st, a[0], t.args[0]))); return [(st, None)]
        if n in ("pop_back", "pop"): E.store(st, ol, S.mk(v.sort(), S.vlen(v) - 1, S.varr(v))); return [(st, None)]
        if n == "pop_front": E.store(st, ol, self.erase_at(st, v, S.sz(0))); return [(st, None)]
        if n == "clear": E.store(st, ol, self.emptyvec(S.es(v))); return [(st, None)]
        if n in ("reserve", "shrink_to_fit"): return [(st, None)]
        if n == "resize":
            x = self.val(st, a[1]) if len(a) > 1 else E.zero(t.args[0])
            nn = self.val(st, a[0]); j = Const("j!rs", S.SZ)
            arr = self.named(st, z3.Lambda([j], If(S.ult(j, S.vlen(v)), Select(S.varr(v), j), x)))
            E.store(st, ol, S.mk(v.sort(), nn, arr)); return [(st, None)]
        if n == "assign" and len(a) == 2:
            p, q = self.val(st, a[0]), self.val(st, a[1])
            if isz(p): E.store(st, ol, S.mk(v.sort(), p, z3.K(S.SZ, q))); return [(st, None)]
            if isinstance(p, It): E.store(st, ol, self.slice(st, v.sort(), self.val(st, p.loc), p.i, q.i)); return [(st, None)]
        if n == "erase":
            i = self.val(st, a[0])
            if len(a) == 1:
                self.bound(st, v, i.i)
                E.store(st, ol, self.erase_at(st, v, i.i)); return [(st, It(ol, i.i))]
            j = self.val(st, a[1])
            E.store(st, ol, self.erase_at(st, v, i.i, j.i - i.i)); return [(st, It(ol, i.i))]
        if n == "insert":
            i = self.val(st, a[0])
            if len(a) == 2:
                E.store(st, ol, self.insert_at(st, v, i.i, self.boxed(st, a[1], t.args[0]))); return [(st, It(ol, i.i))]
            if len(a) == 3:
                p, q = self.val(st, a[1]), self.val(st, a[2])
                if isinstance(p, It):
                    src = self.val(st, p.loc); srck = S.kind(src.sort())
                    if srck[0] == "map": src = S._acc(src, 2)
                    j = Const("j!is", S.SZ); cnt = q.i - p.i
                    arr = self.named(st, z3.Lambda([j], If(S.ult(j, i.i), Select(S.varr(v), j), If(S.ult(j, i.i + cnt), Select(S.varr(src), p.i + (j - i.i)), Select(S.varr(v), j - cnt)))))
                    E.store(st, ol, S.mk(v.sort(), S.vlen(v) + cnt, arr)); return [(st, It(ol, i.i))]
        if n == "remove":
            # the elements different from the given value, in their order
            x = self.boxed(st, a[0], t.args[0]) if not S.issmart(t.args[0]) else self.val(st, a[0])
            w = fresh("removed", v.sort()); f, g = z3.Function("rm_src!%d" % qid(), S.SZ, S.SZ), z3.Function("rm_dst!%d" % qid(), S.SZ, S.SZ); j = Const("j!rm%d" % qid(), S.SZ); i = Const("i!rm%d" % qid(), S.SZ)
            n1, n2 = S.vlen(v), S.vlen(w); iv = lambda k, m: And(S.ule(S.sz(0), k), S.ult(k, m)); A, B = S.varr(v), S.varr(w)
            pt = lambda q: [q] if E_plain(q) else []
            st.fact(And(S.ule(S.sz(0), n2), S.ule(n2, n1)))
            st.fact(ForAll([j], Implies(iv(j, n2), And(iv(f(j), n1), Select(B, j) == Select(A, f(j)), Select(B, j) != x, g(f(j)) == j, S.ule(j, f(j)))), patterns=pt(Select(B, j))))
            st.fact(ForAll([j], Implies(And(iv(j, n1), Select(A, j) != x), And(iv(g(j), n2), Select(B, g(j)) == Select(A, j), f(g(j)) == j, S.ule(g(j), j))), patterns=pt(Select(A, j))))
            st.fact(ForAll([i, j], Implies(And(iv(i, n2), iv(j, n2), S.ult(i, j)), S.ult(f(i), f(j))), patterns=[z3.MultiPattern(f(i), f(j))]))
            E.store(st, ol, w); return [(st, None)]
        if n == "splice":
            # splice(pos, other, it) within the same list
            if len(a) == 3 and isinstance(a[1], Loc) and same(a[1], ol):
                p, i = self.val(st, a[0]), self.val(st, a[2])
                j = Const("j!sp", S.SZ); arr = S.varr(v)
                x = Select(arr, i.i)
                # element i moves before position p
                na = self.named(st, z3.Lambda([j], If(S.ule(p.i, i.i),
                        If(Or(S.ult(j, p.i), S.ult(i.i, j)), Select(arr, j), If(j == p.i, x, Select(arr, j - 1))),
                        If(Or(S.ult(j, i.i), S.ule(p.i, j)), Select(arr, j), If(j == p.i - 1, x, Select(arr, j + 1))))))
                E.store(st, ol, S.mk(v.sort(), S.vlen(v), na)); return [(st, None)]
        if n == "swap":
            w = self.val(st, a[0]); E.store(st, a[0], v); E.store(st, ol, w); return [(st, None)]
        if fn.dtor or n == "get_allocator": return [(st, None)]
        raise ToolLimit("sequence method " + n)
    def bound(self, st, v, i):
        if isz(v) and self.e.opts.get("bounds", True):
            n = self.seqlen(st, v)
            self.e.oblige(st, And(self.S.ule(self.S.sz(0), i), self.S.ult(i, n)), "sequence access within bounds", "bounds")
    def boxed(self, st, x, t):
        E, S = self.e, self.S
        if S.isrec(t):
            r = E.newref(st, t.q); E.copyobj(st, t.q, E.objref(st, x, False), r); return r
        v = self.val(st, x)
        if isinstance(v, Tup) and S.ispair(t): return S.mk(S.sort(t), *[E.toz(st, y, tt) for y, tt in zip(v.xs, t.args)])
        return self.coerce(st, E.toz(st, v, t), t)
    def map_m(self, st, fn, n, o, a, t, e):
        E, S = self.e, self.S
        m = self.val(st, o)
        ol = o if isinstance(o, Loc) else E.newcell(st, m)
        isset = S.isset(t)
        if isinstance(m, Opaque): m = self.emptymap(S.sort(t)); E.store(st, ol, m)
        has = S._acc(m, 0)
        if n == "size": return [(st, self.seqlen(st, m))]
        if n == "empty": return [(st, self.seqlen(st, m) == S.sz(0))]
        if n in ("begin", "cbegin"): return [(st, It(ol, S.sz(0)))]
        if n in ("end", "cend"): return [(st, It(ol, self.seqlen(st, m)))]
        if n in ("find",): return [(st, self.map_find(st, ol, m, self.key(st, a[0], t)))]
        if n == "count":
            r = If(Select(has, self.key(st, a[0], t)), S.sz(1), S.sz(0)); return [(st, r)]
        if n == "at" or n == "operator[]":
            k = self.key(st, a[0], t)
            if n == "at":
                out = []
                for s, b in E.branch(st, Select(has, k)):
                    if b: out.append((s, LMapVal(ol, k)))
                    else: E.throw(s, "std::out_of_range")
                return out
            old = Select(S._acc(m, 1), k)
            try: z = E.zero(t.args[1])
            except ToolLimit: z = fresh("def", S.sort(t.args[1]))
            if isinstance(z, NullP): z = E.toz(st, z, t.args[1])
            E.store(st, ol, self.map_insert(st, m, k, If(Select(has, k), old, z)))
            return [(st, LMapVal(ol, k))]
        if n in ("insert", "emplace"):
            if n == "insert" and len(a) == 2:
                p, q = self.val(st, a[0]), self.val(st, a[1])
                if isinstance(p, It):
                    src = self.val(st, p.loc)
                    self.mapwf(st, src) if S.kind(src.sort())[0] == "map" else None
                    # union of the whole range
                    sv = S._acc(src, 2) if S.kind(src.sort())[0] == "map" else src
                    nm = fresh("union", m.sort())
                    x = Const("x!un", S.kind(m.sort())[1])
                    if S.kind(src.sort())[0] == "map":
                        st.fact(ForAll([x], Select(S._acc(nm, 0), x) == Or(Select(has, x), Select(S._acc(src, 0), x)), patterns=[Select(S._acc(nm, 0), x)]))
                    else:
                        j = Const("j!un", S.SZ)
                        st.fact(ForAll([x], Implies(Select(has, x), Select(S._acc(nm, 0), x)), patterns=[Select(has, x)]))
                        st.fact(ForAll([j], Implies(And(p.i <= j, j < q.i), Select(S._acc(nm, 0), Select(S.varr(sv), j))), patterns=[Select(S.varr(sv), j)]))
                        w = uf("unw!%d" % qid(), x.sort(), S.SZ)
                        st.fact(ForAll([x], Implies(And(Select(S._acc(nm, 0), x), Not(Select(has, x))), And(p.i <= w(x), w(x) < q.i, Select(S.varr(sv), w(x)) == x)), patterns=[Select(S._acc(nm, 0), x)]))
                    self.mapwf(st, nm)
                    E.store(st, ol, nm); return [(st, None)]
                if not isset and n == "emplace": pass
                elif isset: a = [a[1]]
                else: raise ToolLimit("map insert with hint")
            if isset:
                k = self.key(st, a[0], t)
                ins = Not(Select(has, k))
                E.store(st, ol, self.map_insert(st, m, k, z3.BoolVal(True)))
            else:
                if n == "emplace" and len(a) == 2: k, v = self.key(st, a[0], t), self.boxed(st, a[1], t.args[1])
                else:
                    p = self.val(st, a[0])
                    if isinstance(p, Tup): k, v = E.toz(st, p.xs[0], t.args[0]), E.toz(st, p.xs[1], t.args[1])
                    else: k, v = S._acc(p, 0), S._acc(p, 1)
                ins = Not(Select(has, k))
                nm = self.map_insert(st, m, k, If(Select(has, k), Select(S._acc(m, 1), k), v))
                E.store(st, ol, nm)
            it = self.map_find(st, ol, self.val(st, ol), k)
            return [(st, Tup([it, ins]))]
        if n == "erase":
            x = self.val(st, a[0])
            if isinstance(x, It):
                k = Select(S.varr(S._acc(m, 2)), x.i)
                E.store(st, ol, self.map_erase(st, m, k)); return [(st, It(ol, x.i))]
            k = self.key(st, a[0], t)
            r = If(Select(has, k), S.sz(1), S.sz(0))
            E.store(st, ol, self.map_erase(st, m, k)); return [(st, r)]
        if n == "clear": E.store(st, ol, self.emptymap(m.sort())); return [(st, None)]
        if fn.dtor: return [(st, None)]
        raise ToolLimit("map method " + n)
    def key(self, st, x, t):
        v = self.val(st, x)
        if isinstance(v, LObj): v = v.r
        return self.e.toz(st, v, t.args[0])
    def smart_m(self, st, fn, n, o, a, t, e):
        E, S = self.e, self.S
        v = self.val(st, o)
        if n == "get": return [(st, v)]
        if n == "release": E.store(st, o, z3.IntVal(0)); return [(st, v)]
        if n == "reset":
            x = self.val(st, a[0]) if a else z3.IntVal(0)
            if isinstance(x, NullP): x = z3.IntVal(0)
            E.store(st, o, x); return [(st, None)]
        if n == "operator bool": return [(st, v != 0)]
        if n == "swap":
            w = self.val(st, a[0]); E.store(st, a[0], v); E.store(st, o, w); return [(st, None)]
        if fn.dtor: return [(st, None)]
        if n in ("use_count",): return self.unknown(st, fn, a)
        raise ToolLimit("smart pointer method " + n)
    def stream_m(self, st, fn, n, o, a, t, e):
        E, S = self.e, self.S
        if E.unit.opts.get("streamhook"):
            r = E.unit.opts["streamhook"](E, st, n, o, a, [])
            if r is not None: return [(st, r)]
        v = self.val(st, o)
        if n == "str":
            if a: E.store(st, o, self.val(st, a[0])); return [(st, None)]
            return [(st, v)]
        if n in ("operator<<",): return self.shl(st, o, a[0], fn.pt[0] if fn.pt else None)
        if n in ("flags", "setf", "precision", "width", "fill", "unsetf", "imbue", "exceptions"): 
            return [(st, Opaque("fmt"))]
        if n in ("put",): return self.shl(st, o, a[0], None)
        return self.unknown(st, fn, a)
    def shl(self, st, o, x, t, fmt=None):
        """formatted output: appends a term determined by the value printed"""
        E, S = self.e, self.S
        cur = self.val(st, o)
        v = self.val(st, x)
        if isinstance(v, (FnPtr, Opaque, Closure)): return [(st, o)]
        if isz(cur) and cur.sort() == S.str_sort():
            if isz(v) and v.sort() == S.str_sort(): r = E.concat(cur, v)
            elif S.strmode == "op" and isz(v): r = E.concat(cur, uf("fmt!" + str(v.sort()).replace(" ", ""), v.sort(), S.Str)(v))
            elif S.strmode == "vec" and isz(v) and t is not None and t.noref().k == "int" and t.noref().w == 8: r = self.push(cur, v)
            else: r = fresh("fmt", S.str_sort())
            if isinstance(o, Loc): E.store(st, o, r)
        return [(st, o)]
    # ---------------------------------------------------------------- operators
    def ocall(self, st, fn, op, a, e):
        E, S = self.e, self.S
        ts = [E.T(x) if "t" in x else None for x in e["a"]]
        ts = [t.noref() if t is not None else None for t in ts]
        l = a[0]
        lt = ts[0]
        if op == "=":
            return self.assign(st, l, a[1], lt, ts[1], fn)
        if lt is not None and lt.k == "rec":
            if S.isstr(lt) and op in ("[]",):
                i = self.val(st, a[1])
                s = self.val(st, l)
                if S.strmode == "vec": self.e.oblige(st, S.ule(i, S.vlen(s)), "string index within bounds", "bounds")
                if S.strmode == "vec" and fn is not None and fn.const: return [(st, If(i == S.vlen(s), E.asel(z3.K(S.SZ, BitVecVal(0, 8) if E.bv else IntVal(0)), i), E.asel(S.varr(s), i)))]
                return [(st, LElem(l, i))] if S.strmode == "vec" else [(st, E.elem(st, s, i))]
            if S.isseq(lt) and op == "[]":
                i = self.val(st, a[1]); v = self.val(st, l); self.bound(st, v, i)
                return [(st, LElem(l, i))]
            if S.ismap(lt) and op == "[]": return self.map_m(st, fn, "operator[]", l, a[1:], lt, e)
            if S.issmart(lt):
                v = self.val(st, l)
                if op == "->": return [(st, v)]
                if op == "*": return [(st, LObj(v) if S.isrec(lt.args[0]) else E.deref(st, v))]
            if isinstance(self.peekit(st, l), It): return self.iter_op(st, fn, op, a, e)
            if S.isstream(lt) and op == "<<": return self.shl(st, l, a[1], ts[1])
            if S.isstream(lt) and op in (">>", "!") and E.unit.opts.get("streamhook"):
                r = E.unit.opts["streamhook"](E, st, op, l, a[1:], ts[1:])
                if r is not None: return [(st, l if op == ">>" else r)]
            if S.isstream(lt) and op in (">>",):
                E.assume.add("stream extraction: arbitrary result")
                if isinstance(a[1], Loc) and not isinstance(a[1], LObj):
                    v = self.val(st, a[1])
                    if isz(v): E.havocloc(st, a[1], ts[1])
                return [(st, l)]
            if S.isstream(lt) and op == "!": return [(st, fresh("failed", z3.BoolSort()))]
            if S.isstr(lt) and op == "+=":
                x = self.val(st, a[1]); s = self.val(st, l)
                if isz(x) and x.sort() == S.str_sort(): r = E.concat(s, x)
                elif S.strmode == "vec": r = self.push(s, x)
                else: r = E.concat(s, uf("chr", x.sort(), S.Str)(x))
                E.store(st, l, r); return [(st, l)]
            if S.cls(lt) == "std::function" and op == "()":
                v = self.val(st, l)
                if isinstance(v, Closure): return E.call_closure(st, v, a[1:])
            if lt.lam and op == "()":
                v = self.val(st, l)
                return E.call_closure(st, v, a[1:])
        if op == "+" and any(t is not None and S.isstr(t) for t in ts):
            x, y = self.val(st, a[0]), self.val(st, a[1])
            def tos(q):
                if isz(q) and q.sort() == S.str_sort(): return q
                if S.strmode == "vec": return S.mkvec(S.str_sort().es, S.sz(1), z3.K(S.SZ, q))
                return uf("chr", q.sort(), S.Str)(q)
            return [(st, E.concat(tos(x), tos(y)))]
        if op in ("==", "!="):
            x, y = self.val(st, a[0]), self.val(st, a[1])
            if isinstance(x, Opaque) or isinstance(y, Opaque): return [(st, fresh("eq", z3.BoolSort()))]
            if isz(x) and isz(y) and S.kind(x.sort()) and S.kind(x.sort())[0] == "vec":
                b = self.vec_eq(st, x, y)
            else: b = E.eqv(x, y)
            return [(st, b if op == "==" else Not(b))]
        if op in ("<", ">", "<=", ">="):
            x, y = self.val(st, a[0]), self.val(st, a[1])
            if isinstance(x, It): return [(st, {"<": S.ult(x.i, y.i), "<=": S.ule(x.i, y.i), ">": S.ult(y.i, x.i), ">=": S.ule(y.i, x.i)}[op])]
            if isz(x) and x.sort() == S.Str:
                lt_ = uf("strlt", S.Str, S.Str, z3.BoolSort())
                return [(st, {"<": lt_(x, y), ">": lt_(y, x), "<=": Not(lt_(y, x)), ">=": Not(lt_(x, y))}[op])]
        if op == "<<" : return self.shl(st, l, a[1], ts[1])
        if op in ("-",) and isinstance(self.val(st, a[0]), It):
            x, y = self.val(st, a[0]), self.val(st, a[1]); return [(st, x.i - y.i)]
        if op == "()" :
            v = self.val(st, l)
            if isinstance(v, Closure): return E.call_closure(st, v, a[1:])
        return self.unknown(st, fn, a)
    def vec_eq(self, st, x, y):
        S = self.S
        j = Const("j!eq", S.SZ)
        b = fresh("veq", z3.BoolSort())
        n = S.vlen(x)
        if (z3.is_int_value(S.vlen(y)) or z3.is_bv_value(S.vlen(y))) and S.vlen(y).as_long() < 64:
            m = S.vlen(y).as_long()
            return And(n == S.vlen(y), *[self.e.asel(S.varr(x), S.sz(i)) == self.e.asel(S.varr(y), S.sz(i)) for i in range(m)])
        st.fact(b == And(n == S.vlen(y), ForAll([j], Implies(And(S.ule(S.sz(0), j), S.ult(j, n)), Select(S.varr(x), j) == Select(S.varr(y), j)))))
        return b
    def peekit(self, st, l):
        if isinstance(l, It): return l
        if isinstance(l, LVar):
            try: v = self.e.load(st, l)
            except ToolLimit: return None
            return v
        return None
    def iter_op(self, st, fn, op, a, e):
        E, S = self.e, self.S
        l = a[0]; it = self.val(st, l)
        if op in ("*", "->"):
            c = self.val(st, it.loc)
            n = self.seqlen(st, c)
            i = it.i if not it.rev else n - 1 - it.i
            if E.opts.get("bounds", True):
                E.oblige(st, And(S.ule(S.sz(0), it.i), S.ult(it.i, n)), "iterator dereference within bounds", "bounds")
            if isinstance(c, Tup): return [(st, LElem(it.loc, i))]
            k = S.kind(c.sort())
            loc = LElem(it.loc, i)
            if op == "->" and k and k[0] == "vec" and (k[1] == z3.IntSort()):
                t = fn.ret.t if fn.ret.k == "ptr" else None
                if t is not None and S.isrec(t): return [(st, E.load(st, loc))]
            if op == "*" and fn.ret.k == "ref" and S.isrec(fn.ret.t): return [(st, LObj(E.load(st, loc)))]
            return [(st, loc)]
        if op in ("++", "--"):
            d = 1 if op == "++" else -1
            nv = It(it.loc, z3.simplify(it.i + d), it.rev)
            E.store(st, l, nv)
            post = len(e["a"]) == 2
            return [(st, it if post else l)]
        if op in ("==", "!="):
            o = self.val(st, a[1])
            b = E.eqv(it, o)
            return [(st, b if op == "==" else Not(b))]
        if op in ("+", "-"):
            o = self.val(st, a[1])
            if isinstance(o, It): return [(st, it.i - o.i)]
            return [(st, It(it.loc, it.i + o if op == "+" else it.i - o, it.rev))]
        if op in ("+=", "-="):
            o = self.val(st, a[1]); E.store(st, l, It(it.loc, it.i + o if op == "+=" else it.i - o, it.rev)); return [(st, l)]
        if op in ("<", ">", "<=", ">="):
            o = self.val(st, a[1]); return [(st, E.cmp(op, it.i, o.i, Tu64))]
        if op == "[]": 
            return [(st, LElem(it.loc, it.i + self.val(st, a[1])))]
        raise ToolLimit("iterator operator " + op)
    def assign(self, st, l, r, lt, rt, fn=None):
        E, S = self.e, self.S
        v = self.val(st, r)
        if lt is not None and lt.k == "rec":
            if S.issmart(lt):
                if isinstance(v, NullP): v = z3.IntVal(0)
                if isinstance(r, Loc) and "unique" in S.cls(lt): E.store(st, r, z3.IntVal(0))
            if S.isstr(lt) and isz(v) and v.sort() != S.str_sort(): raise ToolLimit("string = char")
            if S.isstr(lt) and isinstance(v, PtrV): v = self.strctor(st, fn, [v])[0][1]
            if S.isseq(lt) and isinstance(v, Tup): v = E.toz(st, v, lt)
        if isinstance(l, Tup):
            for x, y in zip(l.xs, v.xs): E.store(st, x, y)
            return [(st, l)]
        if not isinstance(l, Loc): raise ToolLimit("assignment to %s" % type(l).__name__)
        E.store(st, l, v)
        return [(st, l)]
    # ---------------------------------------------------------------- free functions
    def fcall(self, st, fn, a, e):
        E, S = self.e, self.S
        n = fn.name
        av = None
        V = lambda i: self.val(st, a[i])
        if n in ("min", "max") and len(a) == 2:
            x, y = V(0), V(1); t = fn.ret.noref()
            c = E.cmp("<", y, x, t) if n == "min" else E.cmp("<", x, y, t)
            return [(st, E.newcell(st, If(c, y, x)))]
        if n in ("max", "min", "lowest", "epsilon", "infinity") and fn.cls == "std::numeric_limits":
            t = fn.ret
            if t.k == "int":
                lo, hi = E.rng(t); return [(st, E.ic(hi if n == "max" else lo, t))]
            if t.k == "fp":
                import struct
                so = S.sort(t)
                mx = z3.FPVal(3.4028234663852886e38 if t.w == 32 else 1.7976931348623157e308, so)
                mn = z3.FPVal(1.1754943508222875e-38 if t.w == 32 else 2.2250738585072014e-308, so)
                if n == "max": return [(st, mx)]
                if n == "lowest": return [(st, z3.fpNeg(mx))]
                if n == "min": return [(st, mn)]
                if n == "infinity": return [(st, z3.fpPlusInfinity(so))]
        if n in ("isnan",): return [(st, z3.fpIsNaN(V(0)))]
        if n in ("isfinite",): return [(st, Not(Or(z3.fpIsNaN(V(0)), z3.fpIsInf(V(0)))))]
        if n in ("fabs", "abs") and z3.is_fp(V(0)): return [(st, z3.fpAbs(V(0)))]
        if n in ("find_if", "any_of", "all_of", "none_of", "find_if_not", "count_if"): return self.search(st, n, a, fn)
        if n == "find" and len(a) == 3 and isinstance(V(0), It): return self.find(st, a, fn)
        if n in ("for_each", "accumulate"): return self.folding(st, n, a, fn, e)
        if n in ("copy", "copy_n", "fill", "fill_n", "equal") : 
            r = self.copying(st, n, a, fn)
            if r is not None: return r
        if n in ("memcpy", "memmove"): return self.memcpy(st, a)
        if n == "distance": return [(st, V(1).i - V(0).i)]
        if n in ("next", "prev") and isinstance(V(0), It):
            d = V(1) if len(a) > 1 else S.sz(1)
            it = V(0); return [(st, It(it.loc, it.i + d if n == "next" else it.i - d, it.rev))]
        if n in ("begin", "end", "cbegin", "cend") and len(a) == 1:
            v = V(0); return [(st, It(a[0], S.sz(0) if "begin" in n else self.seqlen(st, v)))]
        if n == "advance":
            it = V(0); E.store(st, a[0], It(it.loc, it.i + V(1), it.rev)); return [(st, None)]
        if n == "make_pair":
            vs = [V(0), V(1)]
            so = S.sort(fn.ret)
            if all(isz(v) for v in vs) and so.constructor(0).domain(0) == vs[0].sort() and so.constructor(0).domain(1) == vs[1].sort():
                return [(st, S.mk(so, *vs))]
            return [(st, Tup([self.coerce(st, v, t) for v, t in zip(vs, fn.ret.args)]))]
        if n == "tie": return [(st, Tup(list(a)))]
        if n == "make_tuple": return [(st, Tup([V(i) for i in range(len(a))]))]
        if n == "get" and isinstance(V(0), Tup): 
            return [(st, V(0).xs[fn.ta[0]["v"]])]
        if n == "to_string": return [(st, uf("to_string!" + str(fn.pt[0]), V(0).sort(), S.str_sort())(V(0)))] if S.strmode == "op" else self.unknown(st, fn, a)
        if n == "swap" and len(a) == 2:
            x, y = V(0), V(1); E.store(st, a[0], y); E.store(st, a[1], x); return [(st, None)]
        if n == "getline": pass
        if n in ("strcmp",): 
            r = fresh("cmp", z3.BitVecSort(32) if E.bv else z3.IntSort()); st.fact((r == 0) == (V(0) == V(1))); return [(st, r)]
        if n == "strlen": return [(st, E.strlen(st, V(0)))]
        if n in ("printf", "fprintf", "puts"): return [(st, fresh("io", z3.BitVecSort(32) if E.bv else z3.IntSort()))]
        if fn.noret: return []
        if n in ("pow", "log", "exp", "log10", "log2", "round", "floor", "ceil", "trunc", "sqrt") and all(z3.is_fp(V(i)) for i in range(len(a))):
            if n in ("round", "floor", "ceil", "trunc"):
                rm = {"round": z3.RNA(), "floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ()}[n]
                return [(st, z3.fpRoundToIntegral(rm, V(0)))]
            E.assume.add("%s(): uninterpreted" % n)
            so = [V(i).sort() for i in range(len(a))]
            return [(st, uf("math_" + n, *(so + [S.sort(fn.ret)]))(*[V(i) for i in range(len(a))]))]
        if n == "ldexp" and z3.is_fp(V(0)): 
            pass
        if n in ("isxdigit", "isdigit", "isspace", "tolower", "toupper", "isalpha"):
            x = V(0); return [(st, uf("c_" + n, x.sort(), x.sort())(x))]
        return self.unknown(st, fn, a)
    def predform(self, st, pred, mk, sort):
        """(phi(j), j): the predicate on the j-th element as one formula; side effects are refused"""
        E = self.e
        j = fresh("pj", sort)
        s = st.copy()
        n0 = next(E_fresh())
        el = mk(s, j)
        p0 = len(s.pc)
        if isinstance(pred, Closure): rs = E.call_closure(s, pred, [el])
        elif isinstance(pred, FnPtr): rs = E.call(s, pred.fn, None, [el], False)
        else: raise ToolLimit("predicate %s" % type(pred).__name__)
        if len(rs) != 1: raise ToolLimit("predicate forks")
        s2, v = rs[0]
        for f in s2.heap:
            if f in st.heap and not s2.heap[f].eq(st.heap[f]): raise ToolLimit("predicate with side effects")
        v = E.tobool(s2, v if not isinstance(v, Loc) else E.load(s2, v), None)
        import symex
        cs = symex.consts(v)
        if any(symex.newer(c, n0) for c in cs): raise ToolLimit("predicate is not a function of the element")
        facts = [f for t, f in s2.pc[p0:] if t == "f"]
        return v, j
    def search(self, st, n, a, fn):
        E, S = self.e, self.S
        f, l = self.val(st, a[0]), self.val(st, a[1])
        pred = self.val(st, a[2])
        if not isinstance(f, It): raise ToolLimit(n + " on non iterators")
        lt = E.val if False else None
        c = self.val(st, f.loc)
        def mk(s, j):
            loc = LElem(f.loc, j)
            pt = None
            if isinstance(pred, Closure):
                ins = pred.e if "body" in pred.e else pred.e["insts"][0]
                pt = pred.tu.ty(ins["ps"][0]["t"])
            if pt is not None and pt.k == "ref" and S.isrec(pt.t): return LObj(E.load(s, loc))
            return loc
        phi, j = self.predform(st, pred, mk, S.SZ)
        q = Const("j!pr%d" % qid(), S.SZ)
        P = lambda x: z3.substitute(phi, (j, x))
        if n in ("find_if", "find_if_not"):
            PP = P if n == "find_if" else (lambda x: Not(P(x)))
            k = fresh("found", S.SZ)
            st.fact(And(S.ule(f.i, k), S.ule(k, l.i)))
            st.fact(Implies(S.ult(k, l.i), PP(k)))
            st.fact(ForAll([q], Implies(And(S.ule(f.i, q), S.ult(q, k)), Not(PP(q)))))
            return [(st, It(f.loc, k, f.rev))]
        if n == "count_if": return self.unknown(st, fn, a)
        rng = lambda x: And(S.ule(f.i, x), S.ult(x, l.i))
        b = fresh(n, z3.BoolSort()); w = fresh("wit", S.SZ)
        if n == "all_of":
            st.fact(Implies(b, ForAll([q], Implies(rng(q), P(q)))))
            st.fact(Implies(Not(b), And(rng(w), Not(P(w)))))
        else:
            bb = b if n == "any_of" else Not(b)
            st.fact(Implies(Not(bb), ForAll([q], Implies(rng(q), Not(P(q))))))
            st.fact(Implies(bb, And(rng(w), P(w))))
        return [(st, b)]
    def find(self, st, a, fn):
        E, S = self.e, self.S
        f, l = self.val(st, a[0]), self.val(st, a[1]); x = self.val(st, a[2])
        c = self.val(st, f.loc)
        k = fresh("found", S.SZ); q = Const("j!fd%d" % qid(), S.SZ)
        el = lambda i: E.elem(st, c, i)
        st.fact(And(S.ule(f.i, k), S.ule(k, l.i)))
        st.fact(Implies(S.ult(k, l.i), el(k) == x))
        st.fact(ForAll([q], Implies(And(S.ule(f.i, q), S.ult(q, k)), el(q) != x), patterns=[el(q)] if z3.is_app_of(el(q), z3.Z3_OP_SELECT) else []))
        return [(st, It(f.loc, k, f.rev))]
    def folding(self, st, n, a, fn, e):
        """for_each / accumulate as the loop they are"""
        E, S = self.e, self.S
        f, l = self.val(st, a[0]), self.val(st, a[1])
        fnv = self.val(st, a[-1])
        cur = E.newcell(st, f.i, "cur")
        acc = E.newcell(st, self.val(st, a[2]), "acc") if n == "accumulate" else None
        end = l.i
        if n == "accumulate" and len(a) == 3: fnv = None
        def cond(q): return [(q, S.ult(E.load(q, cur), end))]
        def body(q):
            i = E.load(q, cur)
            c = self.val(q, f.loc)
            loc = LElem(f.loc, i)
            if fnv is None:
                v = E.load(q, acc); x = E.load(q, loc); E.store(q, acc, v + x); return [(q, ("n",))]
            pt = None
            if isinstance(fnv, Closure):
                ins = fnv.e if "body" in fnv.e else fnv.e["insts"][0]
                pt = fnv.tu.ty(ins["ps"][-1]["t"])
            el = LObj(E.load(q, loc)) if pt is not None and pt.k == "ref" and S.isrec(pt.t) else loc
            args = [el] if acc is None else [E.load(q, acc), el]
            if isinstance(fnv, Closure): rs = E.call_closure(q, fnv, args)
            elif isinstance(fnv, FnPtr): rs = E.call(q, fnv.fn, None, args, False)
            else: raise ToolLimit("folding with %s" % type(fnv).__name__)
            out = []
            for s, v in rs:
                if acc is not None: E.store(s, acc, E.load(s, v) if isinstance(v, Loc) else v)
                out.append((s, ("n",)))
            return out
        def inc(q):
            E.store(q, cur, E.load(q, cur) + 1); return [q]
        outs = E.loop(st, {"ln": E.curline, "acc": acc}, cond, body, inc, cursor=cur, cont=f.loc)
        res = []
        for s, o in outs:
            if o != ("n",): raise ToolLimit("folding outcome")
            res.append((s, E.load(s, acc) if acc is not None else Opaque("fe")))
        return res
    def copying(self, st, n, a, fn):
        E, S = self.e, self.S
        V = lambda i: self.val(st, a[i])
        def pos(x):
            if isinstance(x, It) and not x.rev: return x.loc, x.i
            if isinstance(x, PtrV) and x.i is not None: return x.loc, x.i
            return None
        if n == "copy":
            p, q, d = pos(V(0)), pos(V(1)), pos(V(2))
            if isinstance(V(0), ByteView): return self.bytecopy(st, V(0), V(1), V(2))
            if isinstance(V(2), ByteView) and p: return self.bytefill(st, p, V(2))
            if not p or not q or not d: return None
            src, cnt = self.val(st, p[0]), q[1] - p[1]
            return self.blit(st, d, src, p[1], cnt)
        if n == "copy_n":
            p, d = pos(V(0)), pos(V(2)); cnt = E.toidx(V(1), fn.pt[1])
            if isinstance(V(0), ByteView):
                s = V(0); return self.bytecopy(st, s, ByteView(s.loc, s.n, s.ty, (s.off if s.off is not None else S.sz(0)) + cnt), V(2))
            if isinstance(V(2), ByteView) and p: return self.bytefill(st, p, V(2))
            if not p or not d: return None
            return self.blit(st, d, self.val(st, p[0]), p[1], cnt)
        if n == "fill":
            p, q = pos(V(0)), pos(V(1))
            if not p or not q: return None
            v = self.val(st, p[0]); j = Const("j!fl", S.SZ)
            arr = self.named(st, z3.Lambda([j], If(And(S.ule(p[1], j), S.ult(j, q[1])), V(2), Select(S.varr(v), j))))
            E.store(st, p[0], S.mk(v.sort(), S.vlen(v), arr)); return [(st, None)]
        return None
    def blit(self, st, d, src, i, cnt):
        E, S = self.e, self.S
        dv = self.val(st, d[0])
        n = S.vlen(dv)
        if self.e.opts.get("bounds", True):
            E.oblige(st, And(S.ule(S.sz(0), cnt), S.ule(S.sz(0), i), S.ule(i + cnt, S.vlen(src)), S.ule(S.sz(0), d[1]), S.ule(d[1] + cnt, n)), "copied range within both sequences", "bounds")
        j = Const("j!bl", S.SZ)
        arr = self.named(st, z3.Lambda([j], If(And(S.ule(d[1], j), S.ult(j, d[1] + cnt)), Select(S.varr(src), i + (j - d[1])), Select(S.varr(dv), j))))
        E.store(st, d[0], S.mk(dv.sort(), n, arr))
        return [(st, It(d[0], d[1] + cnt))]
    # object representation of integers (little endian) ---------------------------------
    def byteof(self, v, k):
        """k-th byte (k a python int or a term) of bitvector v, as element sort of byte sequences"""
        E = self.e
        if E.bv:
            if isinstance(k, int): return z3.Extract(8 * k + 7, 8 * k, v)
            kk = z3.Extract(v.size() - 1, 0, k) if k.size() > v.size() else k
            return z3.Extract(7, 0, z3.LShR(v, kk * 8))
        if z3.is_int(v): return z3.Function("byte_of", z3.IntSort(), z3.IntSort(), z3.IntSort())(v, z3.IntVal(k) if isinstance(k, int) else k)   # uninterpreted: holds whatever the bytes are
        raise ToolLimit("byte view in integer mode")
    def bytecopy(self, st, s, q, d):
        """std::copy(bytes of a scalar, ..., destination)"""
        E, S = self.e, self.S
        if isinstance(d, ByteView): raise ToolLimit("byte to byte copy")
        v = self.val(st, s.loc)
        if z3.is_fp(v): v = z3.fpToIEEEBV(v)
        if z3.is_bool(v): v = If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        if not z3.is_bv(v): raise ToolLimit("bytes of %s" % v.sort())
        cnt = q.off if s.off is None else q.off - s.off
        dloc, di = d.loc, d.i
        dv = self.val(st, dloc); n = S.vlen(dv)
        if self.e.opts.get("bounds", True):
            E.oblige(st, And(z3.ULE(cnt, v.size() // 8), z3.ULE(di, n), z3.ULE(cnt, n - di)), "copied range within source object and destination", "bounds")
        arr = S.varr(dv)
        for k in range(v.size() // 8):
            arr = If(z3.UGT(cnt, k), Store(arr, di + k, self.byteof(v, k)), arr)
        E.store(st, dloc, S.mk(dv.sort(), n, arr))
        return [(st, It(dloc, di + cnt))]
    def bytefill(self, st, p, d):
        raise ToolLimit("bytefill needs a count")
    def copyto_bytes(self, st, srcloc, i, cnt, d):
        """std::copy(sequence range, bytes of a scalar)"""
        E, S = self.e, self.S
        src = self.val(st, srcloc); n = S.vlen(src)
        old = self.val(st, d.loc)
        isfp = z3.is_fp(old)
        v = z3.fpToIEEEBV(old) if isfp else (If(old, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if z3.is_bool(old) else old)
        w = v.size() // 8
        if self.e.opts.get("bounds", True):
            E.oblige(st, And(z3.ULE(cnt, w), z3.ULE(i, n), z3.ULE(cnt, n - i)), "copied range within source and destination object", "bounds")
        bs = []
        for k in range(w):
            bs.append(If(z3.UGT(cnt, k), E.asel(S.varr(src), i + k), z3.Extract(8 * k + 7, 8 * k, v)))
        r = z3.Concat(*reversed(bs)) if w > 1 else bs[0]
        if isfp: r = z3.fpBVToFP(r, old.sort())
        elif z3.is_bool(old): r = r != 0
        E.store(st, d.loc, r)
        return [(st, None)]
    def memcpy(self, st, a):
        E, S = self.e, self.S
        d, s, n = [self.val(st, x) for x in a]
        if isinstance(s, ByteView) and isinstance(d, PtrV):
            z = S.sz(0) if s.off is None else s.off
            return self.bytecopy(st, s, ByteView(s.loc, s.n, s.ty, z + n), d)
        if isinstance(d, ByteView) and isinstance(s, PtrV): return self.copyto_bytes(st, s.loc, s.i, n, d)
        if isinstance(d, PtrV) and isinstance(s, PtrV):
            return self.blit(st, (d.loc, d.i), self.val(st, s.loc), s.i, n)
        if isinstance(d, ByteView) and isinstance(s, ByteView):
            x, y = self.val(st, s.loc), self.val(st, d.loc)
            bx = z3.fpToIEEEBV(x) if z3.is_fp(x) else x
            if (z3.is_bv(bx) or z3.is_fp(y)) and z3.is_bv_value(z3.simplify(n)):
                w = bx.size() // 8
                if z3.simplify(n).as_long() == w:
                    r = z3.fpBVToFP(bx, y.sort()) if z3.is_fp(y) else bx
                    if r.sort() == y.sort(): E.store(st, d.loc, r); return [(st, d)]
        raise ToolLimit("memcpy")

def E_fresh():
    import engine
    return engine._fresh
def const(x): return z3.is_int_value(x) or z3.is_bv_value(x)
def is_patternable(has):
    return z3.is_const(has) or z3.is_app_of(has, z3.Z3_OP_SELECT) or z3.is_app_of(has, z3.Z3_OP_DT_ACCESSOR) or z3.is_app_of(has, z3.Z3_OP_STORE)
class _T: pass
Tchar = _T(); Tchar.k, Tchar.w, Tchar.s = "int", 8, True
Tu64 = _T(); Tu64.k, Tu64.w, Tu64.s = "int", 64, False
def E_plain(t):
    import symex
    while z3.is_app_of(t, z3.Z3_OP_SELECT):
        a = t.arg(0)
        if z3.is_quantifier(a) or z3.is_app_of(a, z3.Z3_OP_STORE) or z3.is_app_of(a, z3.Z3_OP_ITE): return False
        t = a
    return True
