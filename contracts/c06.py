"""C06: settings memory."""
from base import *
BB = "CParameterBlackboard::mBlackboard"
W = dict(mode="bv", opts=dict(bounds=True, asserts="stop"))
B = dict(mode="bv", opts=dict(asserts="stop"))

def mem(c): return c.pre(BB, c.this)
def mem2(c): return c.post(BB, c.this)

def only_region(c, off, n, f):
    """memory after = memory before, with [off, off+n) replaced by f(k), k relative"""
    a, b = mem(c), mem2(c)
    j = qv(c, "j")
    return And(vlen(c, b) == vlen(c, a),
               ForAll([j], at(c, b, j) == If(And(le(c, off, j), lt(c, j - off, n)), f(j - off), at(c, a, j))))

def wr(c):
    n, off = c.v(1), c.v(2)
    return [("returns only when the access lies inside the memory", fits(c, off, n, vlen(c, mem(c)))),
            ("exactly the addressed bytes change, to the source bytes, and the size is kept",
             only_region(c, off, n, lambda k: bufbyte(c, c.pre, 0, k)))]
def srcok(c):
    n = bufbytes(c, c.pre, 0)
    if n is not None: return [("source holds the bytes to be written", le(c, c.v(1), sz(c, n)))]
    a = c.a[0]
    if not isinstance(a, PtrV): raise ToolLimit("buffer")
    return [("source holds the bytes to be written", And(a.i == z0(c) if not c.caller else BoolVal(True), fits(c, a.i, c.v(1), vlen(c, c.pre.loc(a.loc)))))]
for nm in ("writeInteger", "writeBuffer"):
    C("CParameterBlackboard::" + nm, props="C06", arity=3, pre=srcok, post=wr, mods=lambda c: [(BB, c.this)], **W)

def rd(c):
    n, off = c.v(1), c.v(2); m = mem(c)
    return [("returns only when the access lies inside the memory", fits(c, off, n, vlen(c, m))),
            ("the destination receives exactly the addressed bytes",
             bufall(c, 0, lambda k, b: b == If(lt(c, k - bufoff(c), n) if False else inbuf(c, k, n), at(c, m, off + k), bufbyte_pre(c, k)), c.post))]
def inbuf(c, k, n): return lt(c, k, n)
def bufoff(c): return z0(c)
def bufbyte_pre(c, k): return bufbyte(c, c.pre, 0, k.as_long() if z3.is_bv_value(k) or z3.is_int_value(k) else k)
for nm in ("readInteger", "readBuffer"):
    C("CParameterBlackboard::" + nm, props="C06", arity=3, pre=srcok, post=rd, **W)

def wstr(c):
    s = c.v(0); off = c.v(1); n = vlen(c, s)
    return [("returns only when the text and its terminator fit", fits(c, off, n + 1, vlen(c, mem(c)))),
            ("exactly the text and its terminator are stored",
             only_region(c, off, n + 1, lambda k: If(lt(c, k, n), at(c, s, k), BitVecVal(0, 8))))]
C("CParameterBlackboard::writeString", props="C06", arity=2, post=wstr, mods=lambda c: [(BB, c.this)], strmode="vec", **B)

def rstr(c):
    m = mem(c); off = c.v(1); s = c.vo(0); j = qv(c, "j"); n = vlen(c, s)
    return [("returns only when the offset lies inside the memory", lt(c, off, vlen(c, m))),
            ("the text read is the one stored at the offset, up to its terminator",
             And(ForAll([j], Implies(lt(c, j, n), And(at(c, s, j) == at(c, m, off + j), at(c, m, off + j) != 0))),
                 at(c, m, off + n) == 0))]
C("CParameterBlackboard::readString", props="C06", arity=2, post=rstr, strmode="vec", **B)

C("CParameterBlackboard::getSize", props="C06", arity=0, fnval=lambda c: vlen(c, mem(c)), **B)
C("CParameterBlackboard::setSize", props="C06", arity=1, mods=lambda c: [(BB, c.this)], **B,
  post=lambda c: [("size is the requested one", vlen(c, mem2(c)) == c.v(0)),
                  ("bytes kept", forall(c, lambda k: Implies(And(lt(c, k, vlen(c, mem(c))), lt(c, k, c.v(0))), at(c, mem2(c), k) == at(c, mem(c), k))))])
def wbytes(c):
    v = c.v(0); off = c.v(1)
    return [("returns only when the bytes fit", fits(c, off, vlen(c, v), vlen(c, mem(c)))),
            ("exactly the addressed bytes change", only_region(c, off, vlen(c, v), lambda k: at(c, v, k)))]
C("CParameterBlackboard::writeBytes", props="C06", arity=2, post=wbytes, mods=lambda c: [(BB, c.this)], **B)
def rbytes(c):
    v, w = c.v(0), c.vo(0); off = c.v(1); m = mem(c)
    return [("returns only when the region lies inside", fits(c, off, vlen(c, v), vlen(c, m))),
            ("size kept", vlen(c, w) == vlen(c, v)),
            ("exactly the addressed bytes are read", forall(c, lambda k: Implies(lt(c, k, vlen(c, v)), at(c, w, k) == at(c, m, off + k))))]
C("CParameterBlackboard::readBytes", props="C06", arity=2, post=rbytes, **B)
def restore(c):
    f = c.pre(BB, c.a[0]); off = c.v(1)
    return [("returns only when the saved block fits", fits(c, off, vlen(c, f), vlen(c, mem(c)))),
            ("exactly the addressed region receives the saved bytes", only_region(c, off, vlen(c, f), lambda k: at(c, f, k)))]
C("CParameterBlackboard::restoreFrom", props=("C06", "C14"), arity=2, pre=lambda c: [("distinct memories", And(c.a[0] != 0, c.a[0] != c.this))],
  post=restore, mods=lambda c: [(BB, c.this)], **B)
def save(c):
    t, t2 = c.pre(BB, c.a[0]), c.post(BB, c.a[0]); off = c.v(1); m = mem(c)
    return [("returns only when the region lies inside", fits(c, off, vlen(c, t), vlen(c, m))),
            ("size kept", vlen(c, t2) == vlen(c, t)),
            ("the whole destination is filled with the addressed region", forall(c, lambda k: Implies(lt(c, k, vlen(c, t)), at(c, t2, k) == at(c, m, off + k))))]
C("CParameterBlackboard::saveTo", props=("C06", "C14"), arity=2, pre=lambda c: [("distinct memories", And(c.a[0] != 0, c.a[0] != c.this))],
  post=save, mods=lambda c: [(BB, c.a[0])], **B)
C("CParameterBlackboard::assertValidAccess", props="C06", arity=2, **B,
  post=lambda c: [("returns only when the access lies inside the memory", fits(c, c.v(0), c.v(1), vlen(c, mem(c))))])
