"""Discharging obligations: z3 first, then z3 with other tactics, then cvc5."""
import z3, subprocess, time, os, tempfile, hashlib
from z3 import And, Not, Implies

def axioms(eng):
    ax = []
    ls = list(eng.lits.values())
    if ls or eng.S.strmode == "op":
        ls = ls + [z3.Const("null!str", eng.S.str_sort())] if eng.S.strmode == "op" else ls
        if len(ls) > 1: ax.append(z3.Distinct(*ls))
    st = z3.Function("stamp", z3.IntSort(), z3.IntSort()); tg = z3.Function("tag", z3.IntSort(), z3.IntSort())
    ax += [st(0) == 0, tg(0) == 0, z3.Int("top!0") >= 0]
    return ax + list(eng.axioms)

def mk(eng, conds, ms):
    s = z3.Solver()
    s.set("timeout", ms)
    for a in axioms(eng): s.add(a)
    for c in conds: s.add(c)
    return s

def quick(eng, conds, ms=300):
    return str(mk(eng, conds, ms).check())

def prove(eng, hyps, goal, ms, hard=False):
    if z3.is_true(goal): return True
    s = mk(eng, hyps, ms)
    if eng.opts.get("nombqi"): s.set("smt.mbqi", False)
    s.add(Not(goal))
    r = s.check()
    if r == z3.unknown and hard: return focused(eng, hyps, goal, ms)
    return r == z3.unsat

def size(t):
    seen = set(); st = list(t)
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st += x.children()
        if len(seen) > 200000: break
    return len(seen)

def interesting(name):
    return True

def cvc5(smt, secs):
    if "lambda" in smt or "(_ as-array" in smt: return "unknown"
    fd, p = tempfile.mkstemp(suffix=".smt2", prefix="vc_")
    try:
        with os.fdopen(fd, "w") as f: f.write("(set-logic ALL)\n" + smt)
        r = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % int(secs * 1000), p], capture_output=True, text=True, timeout=secs + 10)
        out = r.stdout.strip().split("\n")[0] if r.stdout.strip() else "unknown"
        return out if out in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"
    finally:
        try: os.unlink(p)
        except OSError: pass

def has_quant(fs):
    seen = set(); st = list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        st += x.children()
    return False

_sk = [0]
def split(hyps, g):
    """independent subgoals: conjunctions taken apart, universal variables replaced by fresh constants"""
    if z3.is_and(g): return [x for c in g.children() for x in split(hyps, c)]
    if z3.is_app_of(g, z3.Z3_OP_IMPLIES): return split(hyps + [g.arg(0)], g.arg(1))
    if z3.is_quantifier(g) and g.is_forall():
        vs = []
        for i in range(g.num_vars()):
            _sk[0] += 1; vs.append(z3.Const("sk!%d" % _sk[0], g.var_sort(i)))
        return split(hyps, z3.substitute_vars(g.body(), *reversed(vs)))
    if z3.is_app_of(g, z3.Z3_OP_ITE) and z3.is_bool(g): return split(hyps + [g.arg(0)], g.arg(1)) + split(hyps + [Not(g.arg(0))], g.arg(2))
    return [(hyps, g)]
def symbols(t):
    out = set(); seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_DT_ACCESSOR) and not x.decl().name().startswith(("sk!", "inv!")): out.add(x.decl().name())
            st += x.children()
    return out
def focused(eng, hyps, goal, ms):
    """each subgoal from the ground hypotheses and the quantified ones closest to it (sound: fewer hypotheses)"""
    hy = []
    for h in hyps: hy += h.children() if z3.is_and(h) else [h]
    q = [h for h in hy if has_quant([h])]; gr = [h for h in hy if not has_quant([h])]
    qs_ = [(h, symbols(h)) for h in q]
    for sh, g in split([], goal):
        sg = symbols(g); done = False
        for x in sh: sg |= symbols(x)
        rank = sorted(qs_, key=lambda p: -len(p[1] & sg) / (1.0 + len(p[1] - sg)) )
        for n in (4, 10, len(rank)):
            if n > len(rank) and n != 4: continue
            s = z3.Solver(); s.set("timeout", ms)
            if n != 4:
                s.set("smt.mbqi", False); s.set("smt.auto_config", False)
            for a in axioms(eng): s.add(a)
            for x in gr + [h for h, _ in rank[:n]] + sh: s.add(x)
            s.add(Not(g))
            if s.check() == z3.unsat: done = True; break
        if not done: return False
    return True
def discharge(eng, o, t1=10, t2=25):
    """sets o.status in: proved, failed (a countermodel exists), undecided"""
    t0 = time.time()
    if z3.is_true(o.goal):
        o.status, o.backend, o.time = "proved", "syntactic", 0.0; return o
    s = mk(eng, o.hyps, int(t1 * 400)); s.add(Not(o.goal))
    r = s.check()
    be = "z3"
    reason = ""
    if r == z3.unknown:
        reason = s.reason_unknown(); smt = None
        if focused(eng, o.hyps, o.goal, int(t1 * 200)):
            o.status, o.backend, o.time = "proved", "z3 (focused)", time.time() - t0; return o
        def tryc(secs):
            nonlocal r, be, smt
            smt = smt or s.to_smt2()
            c = cvc5(smt, secs)
            if c == "unsat": r, be = z3.unsat, "cvc5"
            elif c == "sat": r, be = z3.sat, "cvc5"
        tryc(t1)
        if r == z3.unknown:
            for opt in ({"smt.random_seed": 7, "smt.arith.solver": 2}, {"smt.random_seed": 3, "smt.mbqi": True, "smt.auto_config": False}):
                s2 = z3.Solver()
                for k, v in opt.items():
                    try: s2.set(k, v)
                    except z3.Z3Exception: pass
                s2.set("timeout", int(t1 * 1000))
                s2.add(s.assertions())
                r = s2.check()
                if r != z3.unknown: s = s2; break
        if r == z3.unknown: tryc(t2)
    o.time = time.time() - t0
    o.backend = be
    if r == z3.unsat: o.status = "proved"
    elif r == z3.sat:
        o.status = "failed"
        try:
            m = s.model()
            o.model = {str(d): str(m[d])[:300] for d in m.decls() if d.arity() == 0}
        except Exception: o.model = {}
    else:
        o.status = "undecided"; o.model = {"reason": reason}
        if has_quant(o.hyps + [o.goal]) and "timeout" not in reason and "canceled" not in reason:
            # the quantifier-free part has a model the solver could not refute
            o.model["candidate"] = "incomplete quantifiers"
    return o
