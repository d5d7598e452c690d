import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vcg"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import front, check, ffc, lib, lin
import term as tm
from sym import Exec, State, Ptr
from check import U, Refuted, Undecided
from lib import Q, ffin, ffsym, read, discharge


def brv(i, b):
    return int(bin(i)[2:].zfill(b)[::-1], 2)


def matrix(mod, acc, fn, k):
    """linear map computed by fn on N canonical coefficients (rows = outputs)"""
    n = 1 << k
    X, S = Exec(mod, ffc.ALL), State()
    p = ffin(X, S, "a", n)
    X.run(mod.func("@" + fn), [p], S)
    acc.take(X)
    discharge(acc, X)
    outs = [read(X, S, p, i, 2) for i in range(n)]
    L = lin.Lin(["a[%d]" % i for i in range(n)])
    M = np.zeros((n, n + 1), dtype=np.int64)
    for i, o in enumerate(outs):
        lo, hi = tm.rng(o, 16)
        if hi >= Q:
            lib.prove(acc, [], tm.ult(16, o, Q), "%s: output %d canonical" % (fn, i))
        M[i] = L.form(o)
    acc.ok("intervals", n, "canonical")
    if M[:, n].any():
        raise Refuted("%s has a constant term at output %d" % (fn, int(np.argmax(M[:, n]))), [fn])
    return M[:, :n]


def order_ok(psi, n):
    return pow(psi, n, Q) == Q - 1


def spec(k, psi):
    n = 1 << k
    pw = np.ones(2 * n, dtype=np.int64)
    for i in range(1, 2 * n):
        pw[i] = pw[i - 1] * psi % Q
    e = np.array([2 * brv(i, k) + 1 for i in range(n)])
    return pw[(e[:, None] * np.arange(n)[None, :]) % (2 * n)]


def fwd(mod, k):
    def go(acc):
        n = 1 << k
        M = matrix(mod, acc, "w_ntt%d" % k, k)
        psi = int(M[0, 1])
        if not order_ok(psi, n):
            raise Refuted("ntt<%d>: output 0 is not evaluation at a primitive %d-th root (got %d)" % (k, 2 * n, psi), ["ntt %d 0 1" % k])
        W = spec(k, psi)
        if (M != W).any():
            i, j = map(int, np.argwhere(M != W)[0])
            raise Refuted("ntt<%d>: coefficient of a[%d] in output %d is %d, specified %d" % (k, j, i, M[i, j], W[i, j]), ["ntt %d %d %d" % (k, i, j)])
        acc.ok("linear-forms", n)
        acc.notes.append("primitive %d-th root of unity: %d" % (2 * n, psi))
    return go


def inv(mod, k):
    """intt is the inverse of the matrix of ntt: V^-1[j][i] = psi^(-(2 brv(i)+1) j)/N"""
    def go(acc):
        n = 1 << k
        acc2 = check.Acc()
        psi = int(matrix(mod, acc2, "w_ntt%d" % k, k)[0, 1])
        if not order_ok(psi, n):
            raise Undecided("forward transform does not use a primitive root")
        M = matrix(mod, acc, "w_intt%d" % k, k)
        W = spec(k, pow(psi, Q - 2, Q)).T * pow(n, Q - 2, Q) % Q
        if (M != W).any():
            i, j = map(int, np.argwhere(M != W)[0])
            raise Refuted("intt<%d>: coefficient of A[%d] in output %d is %d, specified %d" % (k, j, i, M[i, j], W[i, j]), ["intt %d %d %d" % (k, i, j)])
        # lemma, evaluated exactly: W is the inverse of the forward matrix
        V = spec(k, psi)
        P = (V @ W) % Q
        if (P != np.eye(n, dtype=np.int64)).any():
            raise Refuted("lemma: inverse matrix", None)
        acc.ok("linear-forms", 2 * n)
    return go


def elementwise(mod, fn, k, nargs, out, want):
    """out[i] = want(a[i], b[i]); the other operands unchanged"""
    def go(acc):
        n = 1 << k
        X, S = Exec(mod, ffc.ALL), State()
        names = "abc"[:nargs]
        ps = [ffin(X, S, c, n) for c in names]
        X.run(mod.func("@" + fn), ps, S)
        acc.take(X)
        discharge(acc, X)
        for j, (c, p) in enumerate(zip(names, ps)):
            for i in range(n):
                v = read(X, S, p, i, 2)
                w = want(i) if j == out else ffsym(c, i)
                if v is not w:
                    same(acc, v, w, "%s: %s[%d]" % (fn, c, i), ["%s %d" % (fn, i)])
                else:
                    acc.ok("syntactic")
    return go


def same(acc, v, w, what, hint):
    """equality of two expressions in canonical residues"""
    names = sorted({t.a[0] for t in tm.subterms([x for x in (v, w) if isinstance(x, tm.T)]) if t.op == "sym"})
    if len(names) > 2:
        raise Refuted("%s depends on %s" % (what, names), hint)
    import npeval
    D = np.arange(Q, dtype=np.uint64)
    if len(names) == 2:
        # random falsification first, complete domain afterwards
        for i in range(0, Q, 64):
            a = np.repeat(D[i:i + 64], Q); b = np.tile(D, len(D[i:i + 64]))
            x, y = npeval.ev([v, w], dict(zip(names, (a, b))))
            m = np.broadcast_to(np.asarray(x != y), a.shape)
            if m.any():
                z = int(np.argmax(m))
                raise Refuted("%s differs from its definition at %s=%d %s=%d" % (what, names[0], a[z], names[1], b[z]), hint)
    else:
        leaf = dict(zip(names, [D]))
        x, y = npeval.ev([v, w], leaf)
        if np.any(x != y):
            raise Refuted("%s differs from its definition" % what, hint)
    acc.ok("exhaustive")


def units(tier, seed, arith=True):
    mod = front.module("nttw")
    R = ffc.R
    us = []
    for k in (10, 9):
        us.append(U("ntt%d" % k, "ntt::ntt<%d>" % k, fwd(mod, k)))
        us.append(U("intt%d" % k, "ntt::intt<%d>" % k, inv(mod, k)))
    for k in (9, 10):
        us.append(U("mul%d" % k, "polynomial::mul<%d>(ff_t)" % k, elementwise(mod, "w_mul%d" % k, k, 3, 2, lambda i: R("ffmul", ffsym("a", i), ffsym("b", i)))))
        us.append(U("div%d" % k, "polynomial::div<%d>(ff_t)" % k, elementwise(mod, "w_div%d" % k, k, 3, 2, lambda i: R("ffmul", ffsym("a", i), R("ffinv", ffsym("b", i))))))
        us.append(U("add_to%d" % k, "polynomial::add_to<%d>(ff_t)" % k, elementwise(mod, "w_addto%d" % k, k, 2, 0, lambda i: R("ffadd", ffsym("a", i), ffsym("b", i)))))
        us.append(U("neg%d" % k, "polynomial::neg<%d>(ff_t)" % k, elementwise(mod, "w_neg%d" % k, k, 1, 0, lambda i: R("ffneg", ffsym("a", i)))))
    if arith:
        import C01
        us += C01.arith_units(tier, seed)
    return us


if __name__ == "__main__":
    check.main(check.Check("C02", "NTT and NTT-domain arithmetic", units, replay=("replay", ["-O2"], 0, 20)))
