"""C24: texts are split and converted exactly, or refused."""
from base import *
import c16, symex
from engine import PtrV, NullP
from c08 import TKI, TKD, TKM
INT, BOOL = z3.IntSort(), z3.BoolSort()
# ---- the pieces of a text, by definition
def defs(c):
    """E(i): end of the piece starting at i; S(k), P(k+1): the place where the k-th piece starts, and where it ends"""
    s, d, m = c.pre(TKI, c.this), c.pre(TKD, c.this), c.pre(TKM, c.this); n = vlen(c, s); i, j, k = Int("i!p"), Int("j!p"), Int("k!p")
    D = uf("is_delimiter", d.sort(), INT, BOOL); W = uf("which_delimiter", d.sort(), INT, INT); isd = lambda x: D(d, x)
    E, N, S, P = [(lambda f: lambda i: f(s, d, m, i))(uf("piece_" + x, s.sort(), d.sort(), BOOL, INT, INT)) for x in ("end_from", "first_from", "start", "stop")]
    st = c.pre.st; x = at(c, s, k)
    st.fact(ForAll([j], Implies(And(0 <= j, j < vlen(c, d)), isd(at(c, d, j))), patterns=[at(c, d, j)]))
    st.fact(ForAll([j], Implies(isd(j), And(0 <= W(d, j), W(d, j) < vlen(c, d), at(c, d, W(d, j)) == j)), patterns=[isd(j)]))
    for f, pos in ((E, lambda v: isd(v)), (N, lambda v: Not(isd(v)))):
        st.fact(ForAll([i], Implies(And(0 <= i, i <= n), And(i <= f(i), f(i) <= n, Implies(f(i) < n, pos(at(c, s, f(i)))))), patterns=[f(i)]))
        st.fact(ForAll([i, k], Implies(And(0 <= i, i <= k, k < f(i), i <= n), Not(pos(x))), patterns=[z3.MultiPattern(f(i), x)]))
    st.fact(And(P(0) == 0, ForAll([k], Implies(k >= 0, And(S(k) == If(m, N(P(k)), If(k == 0, 0, P(k) + 1)), P(k + 1) == E(S(k)))), patterns=[S(k)])))
    return s, m, n, isd, S, P
def FA(v, b, p): return ForAll(v, b, patterns=[p]) if okpat(p) else ForAll(v, b)
def right(c, s, S, P, r, upto):
    j, k = Int("j!r"), Int("k!r"); x = at(c, r, j)
    return And(FA([j], Implies(And(0 <= j, j < upto), And(S(j) >= 0, S(j) <= P(j + 1), vlen(c, x) == P(j + 1) - S(j))), x),
               FA([j, k], Implies(And(0 <= j, j < upto, 0 <= k, k < P(j + 1) - S(j)), at(c, x, k) == at(c, s, S(j) + k)), at(c, x, k)))
def sppost(c):
    s, m, n, isd, S, P = defs(c); r = c.retv; q = vlen(c, r); j = Int("j!q")
    return [("each piece has exactly the characters between two delimiters", right(c, s, S, P, r, q)),
            ("merged delimiters: no piece is missing and none is empty", Implies(m, And(S(q) == n, FA([j], Implies(And(0 <= j, j < q), And(S(j) < n, vlen(c, at(c, r, j)) > 0)), at(c, r, j))))),
            ("no piece in an empty text", Implies(n == 0, q == 0)),
            ("delimiters not merged: one piece more than delimiters", Implies(And(Not(m), n > 0), And(q > 0, P(q) == n, FA([j], Implies(And(0 <= j, j + 1 < q), P(j + 1) < n), at(c, r, j)))))]
def sploop(L):
    c = L.eng.ucx; s, m, n, isd, S, P = defs(c); iv = L.ivars(); SS = s.sort(); VS = L.eng.S.sort("std::vector<std::string>") if False else None; out = []
    toks = [f for _, f in iv if f(L.hv).sort() == SS]; los = [f for _, f in iv if f(L.hv).sort() == BOOL]
    res = [f for _, f in iv if f(L.hv).sort() not in (SS, BOOL, INT) and hasattr(f(L.hv).sort(), "constructor")]
    k, j = Int("k!l"), Int("j!l")
    for _, cur in L.cursors():
        out.append(("position", lambda st, cur=cur: And(0 <= cur(st), cur(st) <= n)))
        for R in res:
            out.append(("pieces so far", lambda st, R=R: And(vlen(c, R(st)) >= 0, right(c, s, S, P, R(st), vlen(c, R(st))))))
            out.append(("not empty when merged", lambda st, R=R: Implies(m, FA([j], Implies(And(0 <= j, j < vlen(c, R(st))), And(S(j) < n, vlen(c, at(c, R(st), j)) > 0)), at(c, R(st), j)))))
            out.append(("not last when not merged", lambda st, R=R: Implies(Not(m), FA([j], Implies(And(0 <= j, j < vlen(c, R(st))), P(j + 1) < n), at(c, R(st), j)))))
            for T in toks:
                def tok(st, R=R, T=T, cur=cur):
                    t, i = T(st), cur(st); q = vlen(c, R(st)); b = S(q); l = vlen(c, t)
                    part = And(b >= 0, b == i - l, FA([k], Implies(And(0 <= k, k < l), And(at(c, t, k) == at(c, s, b + k), Not(isd(at(c, s, b + k))))), at(c, t, k)), FA([k], Implies(And(b <= k, k < i), Not(isd(at(c, s, k)))), at(c, s, k)))
                    return And(l >= 0, Implies(Not(m), part), Implies(And(m, l > 0), And(part, b < n)), Implies(And(m, l == 0), And(P(q) <= i, P(q) >= 0, FA([k], Implies(And(P(q) <= k, k < i), isd(at(c, s, k))), at(c, s, k)))))
                out.append(("piece under way", tok))
                for lo in los: out.append(("leftover", lambda st, T=T, lo=lo, cur=cur: lo(st) == If(m, vlen(c, T(st)) > 0, cur(st) > 0)))
    return out
C("Tokenizer::split", props="C24", pre=lambda c: [("a text that fits in memory", And(vlen(c, c.pre(TKI, c.this)) < (1 << 40), vlen(c, c.pre(TKI, c.this)) >= 0, vlen(c, c.pre(TKD, c.this)) >= 0))] + (defs(c) and []), post=sppost, loops=sploop, mode="int", strmode="vec", opts=dict(special=True))
# ---- one number from a text: the reading itself is that of the standard streams, in the one notation asked for
GHOSTS["n_read"] = INT; GHOSTS["n_hex"] = BOOL
def RD(what, t, text, hx, srt): return uf("stream_%s_%s" % (what, t), text.sort(), BOOL, srt)(text, hx)
def nhook(t):
    def hook(E, st, op, o, a, ts):
        u = E.ucx; text = E.load(st, o); p0 = u.pre.g("n_hex"); hx = E.gh(st, "n_hex") != p0; one = E.gh(st, "n_read") == E.ucx.pre.g("n_read") + 1; rd = lambda w: RD(w, t, text, hx, BOOL)
        if op == ">>":
            x = a[0]
            if isinstance(x, symex.FnPtr):
                n = x.fn.n.split("(")[0]
                if n not in ("std::hex", "std::dec"): raise symex.ToolLimit("manipulator " + n)
                st.ghost["n_hex"] = Not(p0) if n == "std::hex" else p0; return True
            E.oblige(st, And(text == u.v(0), E.gh(st, "n_read") == u.pre.g("n_read")), "the one number read is that of the text", "guard")
            st.ghost["n_read"] = E.gh(st, "n_read") + 1
            E.store(st, x, RD("number", t, text, hx, E.load(st, x).sort())); return True
        whole, num = And(one, rd("whole")), And(one, rd("reads"))
        return {"eof": whole, "fail": Not(num), "!": Not(num), "bad": BoolVal(False), "operator bool": num, "good": And(num, Not(whole))}.get(op)
    return hook
def hexa(c): s = c.v(0); return And(vlen(c, s) >= 2, at(c, s, 0) == ord("0"), at(c, s, 1) == ord("x"))
def notext(c, s, chars): k = qv(c); x = at(c, s, k); return FA([k], Implies(And(0 <= k, k < vlen(c, s)), And(*[x != ord(ch) for ch in chars])), x)
def numpost(t, signed, integer):
    def post(c):
        s = c.v(0); hx = hexa(c); rd = lambda w: RD(w, t, s, hx, BOOL)
        ok = And(rd("whole"), rd("reads"), notext(c, s, " \t\r\n\v\f"), *([] if signed else [notext(c, s, "-")]), *([] if integer else [Not(hx)]))
        return [("accepted exactly when the whole text is one number, without blanks" + ("" if signed else " nor sign"), c.retv == ok), ("the number read is the one given", Implies(c.retv, c.vo(1) == RD("number", t, s, hx, c.vo(1).sort())))]
    return post
MEM = lambda c: [("a text that fits in memory", And(vlen(c, c.v(0)) >= 0, vlen(c, c.v(0)) < (1 << 40)))]
V0 = dict(mode="int", strmode="vec")
NUMS = ("int", "unsigned int", "short", "unsigned short", "long", "unsigned long", "long long", "unsigned long long", "float", "double")
def dpost(ct): return numpost(ct.replace(" ", "_"), not ct.startswith("uns"), ct not in ("float", "double"))
for ct in NUMS: C("details::convertTo", sig="<%s>(" % ct, props="C24", pre=MEM, post=dpost(ct), opts=dict(streamhook=nhook(ct.replace(" ", "_")), noframe=True), **V0)
def numw(ct, c, sort): return RD("number", ct.replace(" ", "_"), c.v(0), hexa(c), sort)
def accepts(ct, c):
    s = c.v(0); t = ct.replace(" ", "_"); hx = hexa(c)
    return And(RD("whole", t, s, hx, BOOL), RD("reads", t, s, hx, BOOL), notext(c, s, " \t\r\n\v\f"), *([notext(c, s, "-")] if ct.startswith("uns") else []), *([Not(hx)] if ct in ("float", "double") else []))
def chpost(via, lo, hi):
    def post(c):
        v = numw(via, c, INT); ok = And(accepts(via, c), lo <= v, v <= hi)
        return [("accepted exactly when the text is a number of one byte", c.retv == ok), ("it is the number given", Implies(c.retv, c.vo(1) == v))]
    return post
def flpost(ct):
    def post(c):
        v = numw(ct, c, c.vo(1).sort()); ok = And(accepts(ct, c), Not(Or(z3.fpIsNaN(v), z3.fpIsInf(v))))
        return [("accepted exactly when the text is a finite number", c.retv == ok), ("it is the number given", Implies(c.retv, c.vo(1) == v))]
    return post
def word(c, w): s = c.v(0); return And(vlen(c, s) == len(w), *[at(c, s, i) == ord(x) for i, x in enumerate(w)])
def bopost(c):
    t = Or(*[word(c, w) for w in ("1", "true", "TRUE")]); f = Or(*[word(c, w) for w in ("0", "false", "FALSE")])
    return [("accepted exactly for the six words", c.retv == Or(t, f)), ("true for the words which say so", Implies(c.retv, c.vo(1) == t))]
for ct, post in [(t, dpost(t)) for t in NUMS if t not in ("float", "double")] + [(t, flpost(t)) for t in ("float", "double")] + [("unsigned char", chpost("unsigned int", 0, 255)), ("signed char", chpost("int", -128, 127)), ("bool", bopost)]:
    C("convertTo", sig="<%s>(" % ct, props="C24", pre=MEM, post=post, opts=dict(special=True), **V0)
C("utility::isHexadecimal", props="C24", pre=MEM, post=lambda c: [("exactly when it starts with 0x or 0X", c.retv == And(vlen(c, c.v(0)) >= 2, at(c, c.v(0), 0) == ord("0"), Or(at(c, c.v(0), 1) == ord("x"), at(c, c.v(0), 1) == ord("X"))))], opts=dict(special=True), **V0)
# ---- paths
from c18 import IX, IT_, VAL, SLASH
from c08 import pieces
C("CPathNavigator::checkPathFormat", props="C24", pre=MEM, post=lambda c: [("well formed exactly when it starts with a slash", c.retv == And(vlen(c, c.v(0)) > 0, at(c, c.v(0), 0) == ord("/")))], opts=dict(special=True), **V0)
C("CPathNavigator::CPathNavigator", sig="(ctor)(const std::basic_string", props="C24", post=lambda c: [("its items are the pieces of the path between slashes, the empty ones left out", c.post(IT_, c.this) == pieces(c.S, c.v(0), c.eng.lit("/"), BoolVal(True))), ("starts at the first item", c.post(IX, c.this) == 0), ("valid exactly when it starts with a slash", c.post(VAL, c.this) == SLASH(c, c.v(0)))], mode="int", opts=dict(special=True, noframe=True))
def nxpost(c):
    i, v = c.pre(IX, c.this), c.pre(IT_, c.this); p = c.retv
    return [("moves on to the next item, if any", c.post(IX, c.this) == If(i < vlen(c, v), i + 1, i)), ("the items are left alone", c.post(IT_, c.this) == v)] + ([("none is given at the end", Implies(i >= vlen(c, v), p.nb))] if isinstance(p, PtrV) and p.nb is not None else [("given only before the end", i < vlen(c, v))] + ([("the item itself is given", (at(c, c.post.loc(p.loc), p.i) if p.i is not None else c.post.loc(p.loc)) == at(c, v, i))] if isinstance(p, PtrV) else [("nothing else is given", BoolVal(False))]) if not isinstance(p, NullP) else [("none is given at the end only", i >= vlen(c, v))])
C("CPathNavigator::next", props="C24", pre=lambda c: [("a position in the path", And(c.pre(IX, c.this) >= 0, c.pre(IX, c.this) <= vlen(c, c.pre(IT_, c.this))))], post=nxpost, mode="int", opts=dict(special=True, noframe=True))
