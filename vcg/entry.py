"""Contracts of the byte-level entry points falcon::sign and falcon::verify."""
import re
import term as tm, codec
from term import T, F
from sym import Exec, State, Ptr
from check import Refuted, Undecided, U
from lib import *
from sigcodec import BETA, BYTES, HDR

SKHDR = {512: 0x59, 1024: 0x5a}
LG = {512: 9, 1024: 10}


def fsym(nm, i):
    return tm.mk("fsym", F, "%s[%d]" % (nm, i))


def put(X, S, p, es, n, mk):
    X.obj(S, p, "output")
    for i in range(n):
        X.store(S, Ptr(p.o, tm.add(64, p.off, es * i)), es, mk(i))


def holds(X, S, p, es, n, mk, what, kind="i"):
    """precondition: the object at p holds mk(0..n-1)"""
    for i in range(n):
        v = X.load(S, Ptr(p.o, tm.add(64, p.off, es * i)), es, kind, 8 * es if kind == "i" else None)
        w = mk(i)
        if not (v is w or v.__class__ is int and v == w):
            X.oblige("precondition", tm.eq(8 * es, v, w) if kind == "i" and v.__class__ in (T, int) else 0, S, "%s, element %d" % (what, i))


def isym(nm):
    return lambda i: tm.sym("%s[%d]" % (nm, i), 32)


def same(X, S, p, q, what):
    if not (p.__class__ is Ptr and p.o == q.o and p.off.__class__ is int and p.off == q.off):
        X.oblige("precondition", 0, S, what)


def verify(mod, n):
    def go(acc):
        X, S = Exec(mod), State()
        mlen = tm.sym("mlen", 64)
        pk = X.array_input(S, "pk", codec.pk_len(n), 1, ro=True)
        msg = X.new_obj(S, None, "msg", ro=True)
        sig = X.array_input(S, "sig", BYTES[n], 1, ro=True)

        def dec(X, S, a):
            same(X, S, a[0], pk, "decode_pkey is given the public key")
            put(X, S, a[1], 2, n, lambda i: ffsym("h", i))
            return tm.sym("pkok", 1)

        def ver(X, S, a):
            holds(X, S, a[0], 2, n, lambda i: ffsym("h", i), "the decoded key is used")
            same(X, S, a[1], msg, "the given message is verified")
            if a[2] is not mlen:
                X.oblige("precondition", tm.eq(64, a[2], mlen), S, "message length")
            same(X, S, a[3], sig, "the given signature is verified")
            return tm.sym("verdict", 1)

        def other(X, S, a):
            X.oblige("precondition", 0, S, "verification with the bound %d" % BETA[n])
        X.contracts = [(re.compile(p), f) for p, f in [
            (r"^bool decoding::decode_pkey<%d(ul)?>\(" % n, dec),
            (r"^bool verification::verify<%d(ul)?, %d>\(" % (n, BETA[n]), ver),
            (r"^bool verification::verify<", other)]]
        r = X.run(mod.func("@w_bverify%d" % n), [pk, msg, mlen, sig], S)
        acc.take(X); discharge(acc, X)
        prove(acc, [], tm.eq(1, r, tm.and_(1, tm.sym("pkok", 1), tm.sym("verdict", 1))), "falcon::verify<%d>: verdict" % n)
    return go


def sign(mod, n, full=False):
    """full: the basis and tree handed to signing are those of the stored key (C18)"""
    lg = LG[n]

    def go(acc):
        X, S = Exec(mod), State()
        mlen = tm.sym("mlen", 64)
        sk = X.array_input(S, "sk", codec.sk_len(n), 1, ro=True)
        msg = X.new_obj(S, None, "msg", ro=True)
        sig = X.array_input(S, "sig", BYTES[n], 1)
        ok = tm.eq(8, tm.sym("sk[0]", 8), SKHDR[n])
        H = holds if full else (lambda *a, **k: None)

        def dec(X, S, a):
            same(X, S, a[0], sk, "decode_skey is given the secret key")
            for p, nm in zip(a[1:], "fgF"):
                put(X, S, p, 4, n, isym(nm))
            return ok

        def recG(X, S, a):
            for p, nm in zip(a, "fgF"):
                H(X, S, p, 4, n, isym(nm), "recompute_G is given " + nm)
            put(X, S, a[3], 4, n, isym("G"))

        def mB(X, S, a):
            for p, nm in zip(a, "fgFG"):
                H(X, S, p, 4, n, isym(nm), "compute_matrix_B is given " + nm)
            put(X, S, a[4], 8, 8 * n, lambda i: fsym("B", i))

        def tree(X, S, a):
            H(X, S, a[0], 8, 8 * n, lambda i: fsym("B", i), "the tree is built from the basis", "d")
            put(X, S, a[1], 8, 2 * n * (lg + 1), lambda i: fsym("T", i))

        def sgn(X, S, a):
            H(X, S, a[0], 8, 8 * n, lambda i: fsym("B", i), "signing uses the basis", "d")
            H(X, S, a[1], 8, 2 * n * (lg + 1), lambda i: fsym("T", i), "signing uses the tree", "d")
            same(X, S, a[2], msg, "the given message is signed")
            if a[3] is not mlen:
                X.oblige("precondition", tm.eq(64, a[3], mlen), S, "message length")
            same(X, S, a[4], sig, "the signature goes to the given buffer")
            put(X, S, a[4], 1, BYTES[n], lambda i: tm.sym("out[%d]" % i, 8))
            S.ghost["signed"] = tm.add(64, S.ghost.get("signed", 0), 1)

        def rng(X, S, a):
            S.ghost["rngs"] = tm.add(64, S.ghost.get("rngs", 0), 1)
        S.ghost["signed"] = S.ghost["rngs"] = 0
        X.contracts = [(re.compile(p), f) for p, f in [
            (r"^bool decoding::decode_skey<%d(ul)?>\(" % n, dec),
            (r"^void falcon::recompute_G<%d(ul)?>\(" % n, recG),
            (r"^void falcon::compute_matrix_B<%d(ul)?>\(" % n, mB),
            (r"^void falcon::compute_falcon_tree<%d(ul)?>\(" % n, tree),
            (r"^void falcon::sign<%d(ul)?>\(.*prng" % n, sgn),
            (r"^prng::prng_t::prng_t\(", rng)]]
        X.unroll_limit = 50000
        r = X.run(mod.func("@w_bsign%d" % n), [sk, msg, mlen, sig], S)
        acc.take(X); discharge(acc, X)
        nm = "falcon::sign<%d>" % n
        prove(acc, [], tm.eq(1, r, ok), nm + ": returns true exactly for a well-formed key")
        prove(acc, [], tm.eq(64, S.ghost["signed"], tm.zext(64, ok, 1)), nm + ": signs exactly once for a well-formed key")
        for i in range(BYTES[n]):
            v = read(X, S, sig, i, 1)
            prove(acc, [], tm.eq(8, v, tm.ite(ok, tm.sym("out[%d]" % i, 8), tm.sym("sig[%d]" % i, 8), 8)), nm + ": signature byte %d untouched when the key is refused" % i) if v is not tm.ite(ok, tm.sym("out[%d]" % i, 8), tm.sym("sig[%d]" % i, 8), 8) else acc.ok("syntactic")
    return go
