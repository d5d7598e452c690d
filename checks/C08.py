import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vcg"))
import front, check, sha
import term as tm, loops
from sym import Exec, State, Ptr
from check import U, Refuted, Undecided
from lib import discharge, prove, read, Q

KQ = 61445
M = (1 << 64) - 1


class Point(loops.Spec):
    """ghost functions of the output stream (word j = big-endian bytes 2j, 2j+1):
         A(0)=0, A(j+1) = A(j) + [w(j) < 61445 and A(j) < n]      accepted words, capped at n
         V(A(j)) = w(j) mod q whenever word j is accepted         the specified coefficients
       invariant: the next coefficient is A(number of words consumed), coefficients below it are V"""
    name = "rejection"

    def __init__(s, n, poly, flat=False):
        s.n, s.poly, s.flat = n, poly, flat
        s.i = tm.sym("i", 64, 0, n - 1)
        s.Aa, s.Va = tm.mk("arrsym", tm.A, "A", 64), tm.mk("arrsym", tm.A, "V", 16)

    def A(s, j):
        return tm.mk("select", 64, s.Aa, j)

    def V(s, i):
        return tm.mk("select", 16, s.Va, i)

    def w(s, j):
        b = tm.mul(64, j, 2)
        return tm.or_(16, tm.shl(16, tm.zext(16, sha.byte(b), 8), 8), tm.zext(16, sha.byte(tm.add(64, b, 1)), 8))

    def forms(s, c):
        def word(S, t):
            return tm.add(64, tm.lshr(64, tm.sub(64, S.ghost["sha"], S.ghost["shalast"]), 1), t)
        r = [("A(pos/2)", None, lambda t, S: s.A(tm.lshr(64, S.ghost["sha"], 1))),
             ("A(j0+t)", None, lambda t, S: s.A(word(S, t))),
             ("2t", None, lambda t, S: tm.mul(64, t, 2)), ("t", None, lambda t, S: t)]
        if s.flat:
            return []
        return r

    def coeff(s, c):
        for l in ("A(pos/2)", "A(j0+t)"):
            if l in c.role:
                return c.role[l]

    def conds(s, c, S, E, t):
        r = [("stream position is even", tm.eq(64, tm.and_(64, S.ghost["sha"], 1), 0), False),
             ("stream position is small", tm.ult(64, S.ghost["sha"], 1 << 62), True)]
        k = s.coeff(c)
        if k is None:
            return r        # first rounds: not yet known to be modified; otherwise the postcondition fails
        co = loops.force(E[k], c.C.widths[k])
        r.append(("at most n coefficients", tm.not_(tm.ult(64, s.n, co)), False))
        for l in ("2t", "t"):
            if l in c.anyrole and S.ghost["shalast"].__class__ is int:
                r.append(("within block", tm.not_(tm.ult(64, S.ghost["shalast"], tm.mul(64, t, 2))), True))
        p = c.X.load(S.fork(), Ptr(s.poly.o, tm.mul(64, s.i, 2)), 2, "i", 16)
        r.append(("coefficients below the next one are the specified ones",
                  tm.or_(1, tm.not_(tm.ult(64, s.i, co)), tm.eq(16, p, s.V(s.i))), False))
        return r

    def axiom(s, S, j):
        a = s.A(j)
        acc = tm.and_(1, tm.ult(16, s.w(j), KQ), tm.ult(64, a, s.n))
        S.assume(tm.eq(64, s.A(tm.add(64, j, 1)), tm.add(64, a, tm.zext(64, acc, 1))))
        S.assume(tm.or_(1, tm.not_(acc), tm.eq(16, s.V(a), tm.urem(16, s.w(j), Q))))
        S.assume(tm.not_(tm.ult(64, s.n, a)))

    def header(s, c, S, E):
        # the hash is an infinite stream; 2^60 words bound the number read by any run
        pos, last = S.ghost["sha"], S.ghost["shalast"]
        S.assume(tm.ult(64, pos, 1 << 60))
        k = tm.lshr(64, pos, 1)
        j = tm.add(64, tm.lshr(64, tm.sub(64, pos, last), 1), c.t)
        s.axiom(S, k)
        s.axiom(S, j)
        # capped count is monotone
        for m in (j, tm.add(64, j, 1)):
            S.assume(tm.or_(1, tm.ult(64, k, m), tm.or_(1, tm.not_(tm.eq(64, s.A(m), s.n)), tm.eq(64, s.A(k), s.n))))


def htp(mod, n):
    def go(acc, mod=mod):
        def once(cut):
            X, S = Exec(mod, sha.ALL), State()
            cut.install(X)
            salt, msg = X.new_obj(S, None, "salt", ro=True), X.new_obj(S, None, "msg", ro=True)
            sl, ml = tm.sym("slen", 64), tm.sym("mlen", 64)
            poly = X.arr_mode_input(S, "poly", n, 2)
            sp = Point(n, poly)
            cut.specs[:] = [sp]
            S.assume(tm.eq(64, sp.A(0), 0))
            X.run(mod.func("@w_htp%d" % n), [salt, sl, msg, ml, poly], S)
            return X, S, sp, salt, sl, msg, ml, poly
        cut = loops.Cutter(acc, [None])
        X, S, sp, salt, sl, msg, ml, poly = cut.run(once)
        acc.take(X); discharge(acc, X)
        if S.ghost.get("abs") != ((salt.o, 0, sl), (msg.o, 0, ml)):
            raise Refuted("hash_to_point<%d> absorbs %s, specified salt then message" % (n, S.ghost.get("abs")))
        acc.ok("syntactic")
        v = X.load(S, Ptr(poly.o, tm.mul(64, sp.i, 2)), 2, "i", 16)
        prove(acc, S.pc, tm.eq(16, v, sp.V(sp.i)), "hash_to_point<%d>: every coefficient is the specified one" % n)
        prove(acc, S.pc + (tm.eq(16, sp.V(sp.i), tm.urem(16, tm.sym("word", 16), Q)),), tm.ult(16, v, Q), "hash_to_point<%d>: canonical" % n)
    return loops.attempts((False, go), (True, go), (True, lambda acc: go(acc, front.inlined("hashw"))))


def units(tier, seed):
    mod = front.module("hashw")
    return [U("hash_to_point%d" % n, "hashing::hash_to_point<%d>" % n, htp(mod, n)) for n in (512, 1024)]


if __name__ == "__main__":
    check.main(check.Check("C08", "message hashing", units, trusted=["z3 5.3.2", "cvc5 1.1.2 (where z3 does not answer)"],
                           assumptions=["SHAKE256 (absent submodule) is an incremental XOF: absorb/finalize/read by contract, its output an arbitrary byte stream",
                                        "termination of rejection sampling: with probability 1 over the output stream (no variant exists)",
                                        "at most 2^60 bytes are squeezed"],
                           replay=("replay", ["-O2"], 0, 20)))
