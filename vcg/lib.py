"""Helpers shared by the checks."""
import numpy as np
import term as tm, smt, sym
from term import T
from sym import Exec, State, Ptr
from check import Refuted, Undecided

Q = 12289


def discharge(acc, X, timeout=60, solvers=("z3", "cvc5"), skip=0):
    """every obligation the executor left open, by SMT; raises on failure"""
    for o in X.obls[skip:]:
        if o.cond.__class__ is T and o.pc:
            # obligations that hold whatever the path are proved once per shape
            g = tm.rename([o.cond])[0]
            r = _free.get(g.id)
            if r is None and len(_free) < 200:
                r = _free[g.id] = smt.query([], o.cond, timeout=10)[0] == "unsat"
            if r:
                acc.ok("z3", kind=o.kind)
                continue
        prove(acc, list(o.pc), o.cond, o.kind + " at " + o.where, kind=o.kind, timeout=timeout, solvers=solvers)


def prove(acc, pc, goal, what, kind="post", timeout=60, solvers=("z3", "cvc5"), hint=None):
    if goal.__class__ is int:
        if goal:
            acc.ok("intervals", kind=kind)
            return
        pc = list(pc)
        if not pc:
            raise Refuted(what + ": false on every input", hint(None) if hint else None)
    last = ""
    for sv in solvers:
        st, md = smt.query(list(pc), goal, solver=sv, timeout=timeout)
        if st == "unsat":
            acc.ok(sv, kind=kind)
            return
        if st == "sat":
            raise Refuted("%s: fails for %s" % (what, str(md)[:1500]), hint(md) if hint else None, output=str(md)[:4000])
        last = "%s: %s %s" % (sv, st, str(md)[:300])
    raise Undecided("%s: %s" % (what, last))


def ptrcells(S, p, n, es, off=0):
    o = S.mem[p.o]
    return [o.cells.get(off + i * es) for i in range(n)]


def read(X, S, p, i, es, kind="i"):
    return X.load(S, Ptr(p.o, p.off + i * es), es, kind, 8 * es if kind == "i" else None)


def unchanged(X, S, p, es, n, mk):
    """frame: object still holds the input values"""
    for i in range(n):
        if read(X, S, p, i, es) is not mk(i):
            return i
    return None


def ffin(X, S, name, n, **k):
    """array of n canonical field elements name[i]"""
    return X.array_input(S, name, n, 2, 16, 0, Q - 1, **k)


def ffsym(name, i):
    return tm.sym("%s[%d]" % (name, i), 16, 0, Q - 1)


_shapes = {}
_free = {}


def prove_shape(acc, goal, what, kind="post", timeout=60, hint=None):
    """prove a closed goal; goals equal up to the names of their symbols are proved once
    (symbol intervals are part of the name, so the renamed goal is the same statement)"""
    if goal.__class__ is int:
        return prove(acc, [], goal, what, kind, hint=hint)
    g = tm.rename([goal])[0]
    if _shapes.get(g.id):
        acc.ok("z3", kind=kind)
        return
    prove(acc, [], goal, what, kind, timeout=timeout, hint=hint)
    _shapes[g.id] = True


def cut_common(v, R):
    """replace the Boolean sub-terms of v that also occur in R by fresh Booleans, in both"""
    if R.__class__ is int or v.__class__ is int:
        return v, R
    inR = {t.id for t in tm.subterms([R]) if t.w == 1}
    m = {}
    seen = set()
    st = [v]
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.w == 1 and t.id in inR:
            if t.op == "not":
                t = t.a[0]
            m[t.id] = tm.sym("cut%d" % t.id, 1)
            continue
        st.extend(x for x in t.a if x.__class__ is T)
    return tm.subst([v, R], m)


def prove_under(acc, v, R, want, what, w, hint=None):
    """v == (R ? want : 0), generalised over the Boolean structure shared by v and R"""
    a, b = cut_common(v, R)
    goal = tm.eq(w, a, tm.ite(b, want, 0, w))
    try:
        prove_shape(acc, goal, what, hint=hint)
    except (Refuted, Undecided):
        prove(acc, [], tm.eq(w, v, tm.ite(R, want, 0, w)), what, timeout=300, hint=hint)


def bits(fields):
    """little-endian bit stream: fields = [(term, field bits, term width)] -> list of bytes (terms)"""
    sg = []
    pos = 0
    for t, n, w in fields:
        if t.__class__ is int:
            s = tm._cut(tm.segs(t, w), 0, n)
        else:
            s = tm._cut(tm.segs(t, w), 0, n)
        sg += [(l + pos, m, b, sl) for l, m, b, sl in s]
        pos += n
    assert pos % 8 == 0
    sg.sort(key=lambda x: x[0])
    out = []
    j = 0
    for k in range(pos // 8):
        lo = 8 * k
        cur = []
        while j < len(sg) and sg[j][0] + sg[j][1] <= lo:
            j += 1
        i = j
        while i < len(sg) and sg[i][0] < lo + 8:
            cur.append(sg[i]); i += 1
        out.append(tm.rebuild(8, tm._cut(cur, lo, 8)))
    return out


def field(bytes_, bit, n, w):
    """n-bit little-endian field at bit offset of a byte list, as w-bit term"""
    sg = []
    k = bit // 8
    pos = 8 * k
    while pos < bit + n:
        s = tm.segs(bytes_[k], 8)
        sg += [(l + pos - bit, m, b, sl) for l, m, b, sl in s]
        k += 1
        pos += 8
    # cut to [0, n)
    r = []
    for l, m, b, sl in sg:
        a, e = max(l, 0), min(l + m, n)
        if a < e:
            r.append((a, e - a, ((1 << (e - a)) - 1) if b.__class__ is int else b, 0 if b.__class__ is int else sl + a - l))
    return tm.rebuild(w, r)
