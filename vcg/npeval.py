"""Evaluation of verification conditions over a complete finite domain."""
import numpy as np
import term as tm
from term import T

U = np.uint64


def ev(roots, leaf):
    """roots: terms; leaf: name -> uint64 array (or int). returns arrays"""
    val = {}

    def g(x, w):
        if isinstance(x, T):
            return val[x.id]
        return U(x & ((1 << 64) - 1)) if w <= 64 else x

    def s(x, w):
        v = g(x, w)
        sh = U(64 - w)
        return (v << sh).astype(np.int64) >> np.int64(64 - w) if isinstance(v, np.ndarray) else np.int64(tm.sgn(int(v), w))

    old = np.seterr(all="ignore")
    for t in tm.subterms([r for r in roots if isinstance(r, T)]):
        op, a, w = t.op, t.a, t.w
        if w > 64 or w <= 0:
            raise tm_unsupported(t)
        M = U((1 << w) - 1)
        if op == "sym":
            v = leaf[a[0]]
            v = np.asarray(v, dtype=U)
        elif op in ("add", "sub", "mul"):
            x, y = g(a[0], w), g(a[1], w)
            v = (x + y if op == "add" else x - y if op == "sub" else x * y) & M
        elif op == "and": v = g(a[0], w) & g(a[1], w)
        elif op == "or": v = g(a[0], w) | g(a[1], w)
        elif op == "xor": v = g(a[0], w) ^ g(a[1], w)
        elif op == "not": v = U(1) - g(a[0], 1)
        elif op in ("shl", "lshr"):
            x, y = g(a[0], w), g(a[1], w)
            v = (x << np.minimum(y, U(63)) if op == "shl" else x >> np.minimum(y, U(63))) & M
            v = np.where(y >= U(w), U(0), v)
        elif op == "ashr":
            x, y = s(a[0], w), g(a[1], w)
            v = (x >> np.minimum(y, U(63)).astype(np.int64)).astype(U) & M
        elif op == "udiv": v = g(a[0], w) // g(a[1], w)
        elif op == "urem": v = g(a[0], w) % g(a[1], w)
        elif op in ("sdiv", "srem"):
            x, y = s(a[0], w), s(a[1], w)
            q = (np.abs(x) // np.abs(y)) * np.sign(x) * np.sign(y)
            v = (q if op == "sdiv" else x - q * y).astype(U) & M
        elif op == "zext": v = g(a[0], a[0].w)
        elif op == "sext": v = s(a[0], a[0].w).astype(U) & M
        elif op == "trunc": v = g(a[0], a[0].w) & M
        elif op == "ite": v = np.where(g(a[0], 1) != U(0), g(a[1], w), g(a[2], w))
        elif op in ("eq", "ult", "slt"):
            ww = next(x.w for x in a if isinstance(x, T))
            if op == "eq": v = g(a[0], ww) == g(a[1], ww)
            elif op == "ult": v = g(a[0], ww) < g(a[1], ww)
            else: v = s(a[0], ww) < s(a[1], ww)
            v = np.asarray(v).astype(U)
        elif op == "ctlz":
            x = np.asarray(g(a[0], w), dtype=U)
            v = np.full(x.shape, w, dtype=U)
            for i in range(w):
                v = np.where((x >> U(i)) & U(1) != 0, U(w - 1 - i), v)
        elif op in HOOK:
            v = HOOK[op](t, g)
        else:
            raise tm_unsupported(t)
        val[t.id] = v
    np.seterr(**old)
    return [g(r, 64) for r in roots]


HOOK = {}


def tm_unsupported(t):
    import ir
    return ir.Unsupported("exhaustive evaluation of " + t.op)
