"""Evaluation of field-element terms over GF(q^8) (identity testing), and the
contracts of the transforms.

GF(q^8) = Z_q[y]/(y^8 - 11): 11 generates Z_q* and every prime factor of 8
divides q-1, so y^8 - 11 is irreducible.  Two different polynomial expressions
of degree d agree at a random point with probability at most d/q^8 < 2^-100."""
import random
import numpy as np
import term as tm
from term import T
from sym import Ptr
from check import Refuted, Undecided

Q, K, G = 12289, 8, 11


def brv(i, b):
    return int(bin(i)[2:].zfill(b)[::-1], 2)


class GF:
    @staticmethod
    def const(c):
        v = np.zeros(K, dtype=np.int64)
        v[0] = c % Q
        return v

    @staticmethod
    def mul(a, b):
        c = np.convolve(a, b)
        r = c[:K].copy()
        r[: K - 1] += G * c[K:]
        return r % Q

    @staticmethod
    def mulv(a, b):
        """elementwise over (n, K)"""
        r = np.zeros((a.shape[0], 2 * K - 1), dtype=np.int64)
        for i in range(K):
            r[:, i:i + K] += a[:, i:i + 1] * b
        o = r[:, :K].copy()
        o[:, : K - 1] += G * r[:, K:]
        return o % Q

    @staticmethod
    def pow(a, e):
        r = GF.const(1)
        while e:
            if e & 1: r = GF.mul(r, a)
            a = GF.mul(a, a)
            e >>= 1
        return r

    @staticmethod
    def inv(a):
        return GF.pow(a, Q ** K - 2)


_M = {}


def root(k):
    return pow(G, (Q - 1) >> (k + 1), Q)


def matrix(k, inv):
    """the transform of the contract for one primitive 2N-th root (the identities hold for any)"""
    if (k, inv) not in _M:
        n = 1 << k
        psi = root(k)
        pw = np.ones(2 * n, dtype=np.int64)
        for i in range(1, 2 * n):
            pw[i] = pw[i - 1] * psi % Q
        e = np.array([2 * brv(i, k) + 1 for i in range(n)])
        if not inv:
            _M[k, inv] = pw[(e[:, None] * np.arange(n)[None, :]) % (2 * n)]
        else:
            _M[k, inv] = pw[(-e[None, :] * np.arange(n)[:, None]) % (2 * n)] * pow(n, Q - 2, Q) % Q
    return _M[k, inv]


def tr(k, inv, v):
    """v: (n, K)"""
    M = matrix(k, inv)
    n = 1 << k
    r = np.zeros((n, K), dtype=np.int64)
    for j in range(K):
        r[:, j] = (M @ v[:, j]) % Q       # 1024 * q^2 < 2^38
    return r


def negacyclic(k, a, b):
    return tr(k, True, GF.mulv(tr(k, False, a), tr(k, False, b)))


class Calls:
    """transform calls by contract; outputs are opaque canonical terms"""

    def __init__(s):
        s.c = []

    def handler(s, inv):
        def h(k):
            def f(X, S, args):
                p = args[0]
                n = 1 << k
                ins = []
                for i in range(n):
                    v = X.load(S, Ptr(p.o, tm.add(64, p.off, 2 * i)), 2, "i", 16)
                    if v.__class__ is not int:
                        if v.hi >= Q:
                            X.oblige("precondition", tm.ult(16, v, Q), S, "transform input is canonical")
                    elif v >= Q:
                        X.oblige("precondition", 0, S, "transform input is canonical")
                    ins.append(v)
                cid = len(s.c)
                s.c.append((k, inv, ins))
                for i in range(n):
                    t = tm.refine(tm.mk("xf", 16, cid, i), 0, Q - 1)
                    X.store(S, Ptr(p.o, tm.add(64, p.off, 2 * i)), 2, t)
            return f
        return h

    def contracts(s):
        r = []
        for k in (9, 10):
            r.append((r"^void ntt::ntt<%d(ul)?>\(" % k, s.handler(False)(k)))
            r.append((r"^void ntt::intt<%d(ul)?>\(" % k, s.handler(True)(k)))
        return r


class Eval:
    """leaf(t) -> GF vector for terms that are inputs, or None"""

    def __init__(s, calls, leaf):
        s.calls, s.leaf = calls, leaf
        s.v = {}
        s.cv = {}
        s.inv0 = []

    def call(s, cid):
        r = s.cv.get(cid)
        if r is None:
            k, inv, ins = s.calls.c[cid]
            r = s.cv[cid] = tr(k, inv, np.array([s.ev(x) for x in ins]))
        return r

    def ev(s, t):
        if t.__class__ is int:
            return GF.const(t)
        st = [t]
        while st:
            x = st[-1]
            if x.id in s.v:
                st.pop()
                continue
            r = None
            if x.op == "xf":
                r = s.call(x.a[0])[x.a[1]]
            elif x.op in ("ffadd", "ffsub", "ffneg", "ffmul", "ffinv"):
                need = [y for y in x.a if y.__class__ is T and y.id not in s.v]
                if need:
                    st += need
                    continue
                a = [GF.const(y) if y.__class__ is int else s.v[y.id] for y in x.a]
                if x.op == "ffadd": r = (a[0] + a[1]) % Q
                elif x.op == "ffsub": r = (a[0] - a[1]) % Q
                elif x.op == "ffneg": r = (-a[0]) % Q
                elif x.op == "ffmul": r = GF.mul(a[0], a[1])
                else:
                    s.inv0.append(x)
                    r = GF.inv(a[0])
            else:
                r = s.leaf(x)
                if r is None and x.op in ("urem",) and x.a[1] == Q and x.a[0].__class__ is T:
                    pass
            if r is None:
                raise Undecided("not an expression over Z_q: " + tm.show(x, 4))
            s.v[x.id] = r
            st.pop()
        return s.v[t.id]


def rand(rng, n):
    return np.array([[rng.randrange(Q) for _ in range(K)] for _ in range(n)], dtype=np.int64)
