"""Exact linear forms over Z_q of the terms the executor produced.

A w-bit term stands for the residue of its unsigned value; the form is a row
vector over the input symbols plus a constant.  A rule is applied only when the
machine operation is exact on the operands' intervals, so the form is the true
value modulo q for every input."""
import numpy as np
import term as tm
from term import T
from check import Undecided

Q = 12289


class Lin:
    def __init__(s, names):
        s.n = len(names)
        s.idx = {n: i for i, n in enumerate(names)}
        s.f = {}

    def const(s, c):
        v = np.zeros(s.n + 1, dtype=np.int32)
        v[s.n] = c % Q
        return v

    def isconst(s, v):
        return not v[: s.n].any()

    def form(s, x):
        if x.__class__ is int:
            return s.const(x)
        r = s.f.get(x.id)
        if r is None:
            s.run([x])
            r = s.f[x.id]
        return r

    def run(s, roots):
        for t in tm.subterms([r for r in roots if r.__class__ is T]):
            if t.id not in s.f and t.w > 1:
                r = s.rule(t)
                s.f[t.id] = r

    def g(s, x):
        if x.__class__ is int:
            return s.const(x)
        r = s.f.get(x.id)
        if r is None:
            raise Undecided("not a linear form modulo q: " + tm.show(x, 3))
        return r

    def rule(s, t):
        op, a, w = t.op, t.a, t.w
        G = lambda x: (s.const(x) if x.__class__ is int else s.f.get(x.id))
        if op == "sym":
            if a[0] in s.idx:
                v = np.zeros(s.n + 1, dtype=np.int32)
                v[s.idx[a[0]]] = 1
                return v
            return None
        if op in ("ffneg", "ffinv"):
            x = G(a[0])
            if x is None: return None
            if op == "ffneg": return (-x) % Q
            return s.const(pow(int(x[s.n]), Q - 2, Q)) if s.isconst(x) else None
        if op in ("ffadd", "ffsub", "ffmul", "add", "sub", "mul"):
            x, y = G(a[0]), G(a[1])
            if x is None or y is None: return None
            M = 1 << w
            al, ah = tm.rng(a[0], w); bl, bh = tm.rng(a[1], w)
            if op == "ffadd": return (x + y) % Q
            if op == "ffsub": return (x - y) % Q
            if op == "add": return (x + y) % Q if ah + bh < M else None
            if op == "sub": return (x - y) % Q if al >= bh else None
            if op == "mul" and ah * bh >= M: return None
            if s.isconst(x): return (y.astype(np.int64) * int(x[s.n]) % Q).astype(np.int32)
            if s.isconst(y): return (x.astype(np.int64) * int(y[s.n]) % Q).astype(np.int32)
            return None
        if op == "urem" and a[1].__class__ is int and a[1] % Q == 0:
            return G(a[0])
        if op == "zext":
            return G(a[0])
        if op == "trunc":
            return G(a[0]) if a[0].hi < (1 << w) else None
        if op == "ite":
            x, y = G(a[1]), G(a[2])
            if x is not None and y is not None and (x == y).all():
                return x
            # conditional correction: c ? v - q : v  where the subtraction may wrap as a word
            return s.cond(t, a)
        return None

    def cond(s, t, a):
        """ite(v < k, v, v - k') style corrections, k' a multiple of q"""
        c, x, y = a
        for p, r, neg in ((x, y, False), (y, x, True)):
            if p.__class__ is T and r.__class__ is T and s.f.get(p.id) is not None:
                # r = p + K with K = ±m*q, guarded so that it does not wrap
                bp, cp = tm._base(p); br, cr = tm._base(r)
                if bp is br and bp is not None:
                    k = tm.sgn((cr - cp) & ((1 << t.w) - 1), t.w)
                    if k % Q == 0:
                        # guard: need p >= -k when r is chosen (k<0)
                        g = c if neg else tm.not_(c)
                        if k < 0 and implies_ge(g, p, -k): return s.f[p.id]
                        if k > 0 and p.hi + k < (1 << t.w): return s.f[p.id]
        return None


def implies_ge(g, p, k):
    """does guard g syntactically imply p >= k (unsigned)?"""
    neg = False
    if g.op == "not":
        neg, g = True, g.a[0]
    if g.op != "ult":
        return False
    u, v = g.a
    if neg:      # u >= v
        return u is p and v.__class__ is int and v >= k
    return v is p and u.__class__ is int and u + 1 >= k
