"""Contracts of the signature codec (compress_sig, decompress_sig, decode_sig).

Bit p of a byte string is bit 7-(p mod 8) of byte p/8.
decompress, ghost functions of the byte string (slen = 8*bytes):
  NX(p)   least q >= p with bit q set, slen if none       (NX(slen)=slen)
  B(0)=328, B(t+1)=NX(B(t)+8)+1                             start of code t
  ok(t)   B(t)+9<=slen, NX(B(t)+8)<slen, not (negative zero)
  C(t)    value: sign bit, 7 low bits, unary high part
  FT      least t < N with not ok(t), N if none
compress, ghost function of the polynomial:
  S(0)=0, S(t+1)=S(t)+9+(|s_t|>>7)                          start of code t
"""
import math
import term as tm, loops, front
from sym import Exec, State, Ptr
from check import Refuted, Undecided, U
from lib import *

BETA = {512: 34034726, 1024: 70265242}
BYTES = {512: 666, 1024: 1280}
HDR = {512: 0x39, 1024: 0x3a}


def fn16(name, x):
    """ghost function 64-bit -> 16-bit value (bit positions of a signature), zero extended"""
    return tm.zext(64, tm.mk("select", 16, tm.mk("arrsym", tm.A, name, 16), x), 16)


class Dec:
    """specification functions over a byte array term"""

    def __init__(s, n, arr):
        s.n, s.arr = n, arr
        s.slen = 8 * BYTES[n]
        s.FT = tm.sym("FT", 64, 0, n)

    def byte(s, i):
        return tm.mk("select", 8, s.arr, i)

    def W(s, p):
        """8 bits starting at p"""
        k = tm.lshr(64, p, 3)
        w = tm.or_(16, tm.shl(16, tm.zext(16, s.byte(k), 8), 8), tm.zext(16, s.byte(tm.add(64, k, 1)), 8))
        return tm.trunc(8, tm.lshr(16, tm.shl(16, w, tm.trunc(16, tm.and_(64, p, 7), 64)), 8), 16)

    def bit(s, p):
        b = s.byte(tm.lshr(64, p, 3))
        return tm.trunc(1, tm.lshr(8, b, tm.sub(8, 7, tm.trunc(8, tm.and_(64, p, 7), 64))), 8)

    def NX(s, p):
        return fn16("NX", p)

    def B(s, t):
        return fn16("B", t)

    def parts(s, t):
        b = s.B(t)
        b8 = tm.add(64, b, 8)
        w = s.W(b)
        sign = tm.eq(8, tm.lshr(8, w, 7), 1)
        low = tm.zext(32, tm.and_(8, w, 0x7f), 8)
        k = tm.trunc(32, tm.sub(64, s.NX(b8), b8), 64)
        c = tm.add(32, low, tm.mul(32, k, 128))
        return b, b8, sign, c

    def C(s, t):
        _, _, sign, c = s.parts(t)
        return tm.ite(sign, tm.neg(32, c), c, 32)

    def ok(s, t):
        b, b8, sign, c = s.parts(t)
        return tm.ands([tm.not_(tm.ult(64, s.slen - 9, b)), tm.ult(64, s.NX(b8), s.slen),
                        tm.not_(tm.and_(1, sign, tm.eq(32, c, 0)))])

    # ---- instances of the definitions
    def ax_nx(s, S, p):
        """p <= slen"""
        in_ = tm.ult(64, p, s.slen)
        rem = tm.sub(64, s.slen, p)
        e = tm.ite(tm.ult(64, rem, 8), rem, 8, 64)
        z = tm.zext(64, tm.ctlz(8, s.W(p)), 8)
        v = tm.ite(tm.ult(64, z, e), z, e, 64)
        q = tm.add(64, p, v)
        S.assume(tm.implies(in_, tm.eq(64, s.NX(p), tm.ite(tm.ult(64, v, e), q, s.NX(q), 64))))
        S.assume(tm.implies(in_, tm.eq(64, s.NX(p), tm.ite(s.bit(p), p, s.NX(tm.add(64, p, 1)), 64))))
        le = tm.not_(tm.ult(64, s.slen, p))
        S.assume(tm.implies(le, tm.and_(1, tm.not_(tm.ult(64, s.NX(p), p)), tm.not_(tm.ult(64, s.slen, s.NX(p))))))
        for r in (q, tm.add(64, p, 1)):
            S.assume(tm.implies(tm.not_(tm.ult(64, s.slen, r)), tm.and_(1, tm.not_(tm.ult(64, s.NX(r), r)), tm.not_(tm.ult(64, s.slen, s.NX(r))))))
        S.assume(tm.eq(64, s.NX(s.slen), s.slen))

    def ax_b(s, S, t):
        b, b8, _, _ = s.parts(t)
        S.assume(tm.implies(tm.ult(64, t, s.FT), tm.and_(1, s.ok(t), tm.eq(64, s.B(tm.add(64, t, 1)), tm.add(64, s.NX(b8), 1)))))
        S.assume(tm.implies(tm.and_(1, tm.eq(64, t, s.FT), tm.ult(64, t, s.n)), tm.not_(s.ok(t))))
        S.assume(tm.eq(64, s.B(0), 328))

    def verdict(s):
        return tm.and_(1, tm.eq(64, s.FT, s.n), tm.eq(64, s.NX(s.B(s.n)), s.slen))


class Decomp(loops.Spec):
    name = "decompress"
    ranges = [(0, 1)]

    def __init__(s, D, poly, cap):
        s.D, s.poly, s.cap = D, poly, cap
        s.i = tm.sym("i", 64, 0, D.n - 1)

    def forms(s, c):
        D = s.D
        m = lambda st: lambda t, S: tm.ite(tm.ult(64, D.slen, tm.add(64, D.B(D.n), tm.mul(64, t, st))), D.slen, tm.add(64, D.B(D.n), tm.mul(64, t, st)), 64)
        return [("t", None, lambda t, S: t), ("B(t)", None, lambda t, S: D.B(t))]

    def ints(s, c, E):
        for idx, ty, nm in c.phis:
            if c.entry.get(idx).__class__ is Ptr or ty.k != "i" or ty.w < 32:
                continue
            z = lambda v: tm.zext(64, loops.force(v, ty.w), ty.w) if ty.w < 64 else loops.force(v, 64)
            yield idx, z(E[idx]), z(c.entryE[idx])

    def flags(s, c, E):
        for idx, ty, nm in c.phis:
            if ty.k == "i" and ty.w in (1, 8):
                yield idx, tm.eq(ty.w, loops.force(E[idx], ty.w), 0)

    def conds(s, c, S, E, t):
        D = s.D
        r = []
        zs = list(s.ints(c, E))
        for i in range(len(zs)):
            for j in range(i):
                (a, x, x0), (b, y, y0) = zs[i], zs[j]
                r.append((("delta", a, b), tm.eq(64, tm.sub(64, x, x0), tm.sub(64, y, y0)), True))
        outer = "B(t)" in c.anyrole and "t" in c.role
        for idx, x, x0 in s.ints(c, E):
            le = tm.not_(tm.ult(64, D.slen, x))
            r.append((("pos", idx), tm.and_(1, le, tm.not_(tm.ult(64, x, x0))), True))
            r.append((("nx", idx), tm.eq(64, D.NX(x), D.NX(x0)), True))
            for f, z in s.flags(c, E):
                r.append((("flag", f, idx), tm.eq(1, z, tm.not_(tm.ult(64, D.NX(x0), x))), True))
                r.append((("flagnx", f, idx), tm.implies(z, tm.eq(64, D.NX(x), D.NX(x0))), True))
        if outer:
            r.append(("codes before t are well formed", tm.not_(tm.ult(64, D.FT, t)), True))
            v = c.X.load(S.fork(), Ptr(s.poly.o, tm.mul(64, s.i, 4)), 4, "i", 32)
            r.append(("coefficients below t are decoded", tm.implies(tm.ult(64, s.i, t), tm.eq(32, v, D.C(s.i))), True))
        return r

    def header(s, c, S, E):
        D = s.D
        if "B(t)" in c.anyrole:
            D.ax_b(S, c.t)
            D.ax_nx(S, tm.add(64, D.B(c.t), 8))
            S.assume(tm.implies(tm.eq(64, c.t, D.n), tm.eq(64, D.B(c.t), D.B(D.n))))
        for idx, x, x0 in s.ints(c, E):
            D.ax_nx(S, x)

    def back(s, c, S, E):
        """variant: some counter below a fixed cap strictly increases"""
        for idx, x, x0 in s.ints(c, E):
            h = c.HE[idx]
            w = c.C.widths[idx]
            h = tm.zext(64, loops.force(h, w), w) if w < 64 else h
            if s.cap is not None and x is not h and s.cut.valid(S.pc, tm.and_(1, tm.ult(64, h, x), tm.not_(tm.ult(64, s.cap, x)))):
                return [("variant", 1)]
        return [("variant: no counter bounded by the signature length increases", 0)] if s.cap is not None else []


def decompress(mod, n, full=True):
    """full: functional contract (C05); otherwise memory safety and termination only"""
    def go(acc, mod=mod):
        L = BYTES[n]

        def once(cut):
            X, S = Exec(mod), State()
            cut.install(X)
            sig = X.arr_mode_input(S, "sig", L, 1, ro=True)
            poly = X.arr_mode_input(S, "poly", n, 4)
            D = Dec(n, S.mem[sig.o].arr)
            sp = Decomp(D, poly, 8 * L + 8)
            sp.cut = cut
            cut.specs[:] = [sp]
            S.assume(tm.eq(64, D.B(0), 328))
            S.assume(tm.eq(64, D.NX(D.slen), D.slen))
            r = X.run(mod.func("@w_decomp%d" % n), [sig, poly], S)
            return X, S, D, sp, poly, r
        cut = loops.Cutter(acc, [None], timeout=60, outer=True)
        X, S, D, sp, poly, r = cut.run(once)
        acc.take(X); discharge(acc, X, timeout=120)
        if full:
            nm = "decompress_sig<%d>" % n
            D.ax_b(S, sp.i)
            prove(acc, S.pc, tm.eq(1, r, D.verdict()), nm + ": verdict", timeout=300)
            v = X.load(S, Ptr(poly.o, tm.mul(64, sp.i, 4)), 4, "i", 32)
            prove(acc, S.pc, tm.eq(32, v, tm.ite(r, D.C(sp.i), 0, 32)), nm + ": coefficients", timeout=300)
            # consequence used by verify: |coefficient| <= 127 + 128*8*|sig|
            b, b8, _, _ = D.parts(sp.i)
            hyp = [tm.not_(tm.ult(64, D.slen, b)), tm.implies(tm.not_(tm.ult(64, D.slen, b8)), tm.and_(1, tm.not_(tm.ult(64, D.NX(b8), b8)), tm.not_(tm.ult(64, D.slen, D.NX(b8))))), D.ok(sp.i)]
            m = 127 + 128 * D.slen
            prove(acc, hyp, tm.and_(1, tm.not_(tm.slt(32, m, D.C(sp.i))), tm.not_(tm.slt(32, D.C(sp.i), -m & 0xffffffff))), nm + ": range of the coefficients", kind="lemma", timeout=120)
    return loops.attempts((False, go), (True, go), (True, lambda acc: go(acc, front.inlined("codecw"))))


# ---------------------------------------------------------------- compress
class Enc:
    def __init__(s, n, arr):
        s.n, s.arr = n, arr
        s.R = math.isqrt(BETA[n])
        # sum of |s_i| <= sqrt(n * beta^2)  (Cauchy-Schwarz), so the code has at most this many bits
        s.cap = 9 * n + math.isqrt(n * BETA[n]) // 128
        s.body = 8 * (BYTES[n] - 41)

    def S(s, t):
        return fn16("S", t)

    def s_(s, t):
        return tm.mk("select", 32, s.arr, t)

    def ab(s, t):
        return tm.sabs(32, s.s_(t))

    def ln(s, t):
        return tm.add(64, tm.zext(64, tm.lshr(32, s.ab(t), 7), 32), 9)

    def code(s, t, o):
        a = s.ab(t)
        o32 = tm.trunc(32, o, 64)
        low = tm.trunc(1, tm.lshr(32, a, tm.sub(32, 7, o32)), 32)
        return tm.ite(tm.eq(64, o, 0), tm.slt(32, s.s_(t), 0),
                      tm.ite(tm.ult(64, o, 8), low, tm.eq(64, o, tm.sub(64, s.ln(t), 1)), 1), 1)

    def ax(s, S, t):
        """t < n"""
        x = s.s_(t)
        g = tm.ult(64, t, s.n)
        le = lambda a, b: tm.not_(tm.ult(64, b, a))
        S.assume(tm.implies(g, tm.and_(1, tm.not_(tm.slt(32, x, -s.R & 0xffffffff)), tm.not_(tm.slt(32, s.R, x)))))
        S.assume(tm.implies(g, tm.eq(64, s.S(tm.add(64, t, 1)), tm.add(64, s.S(t), s.ln(t)))))
        S.assume(tm.implies(g, le(tm.add(64, s.S(t), s.ln(t)), s.S(s.n))))
        S.assume(le(s.S(s.n), s.cap))

    def mono(s, S, i, t):
        """i < t <= n: code i ends before code t starts"""
        le = lambda a, b: tm.not_(tm.ult(64, b, a))
        S.assume(tm.implies(tm.and_(1, tm.ult(64, i, t), le(t, s.n)), le(tm.add(64, s.S(i), s.ln(i)), s.S(t))))


def getbit(X, S, o, p, base):
    """bit p of the byte object o, from byte offset base"""
    k = tm.add(64, tm.lshr(64, p, 3), base)
    b = X.load(S.fork(), Ptr(o, k), 1, "i", 8)
    return tm.trunc(1, tm.lshr(8, b, tm.sub(8, 7, tm.trunc(8, tm.and_(64, p, 7), 64))), 8)


class Comp(loops.Spec):
    name = "compress"

    def __init__(s, En, sig):
        s.En, s.sig = En, sig
        s.i = tm.sym("i", 64, 0, En.n - 1)
        s.o = tm.sym("o", 64, 0, 8 + (En.R >> 7))
        s.z = tm.sym("z", 64, 0, 1 << 15)

    def forms(s, c):
        En = s.En
        return [("t", None, lambda t, S: t), ("S(t)", None, lambda t, S: En.S(t)),
                ("41+S(t)", None, lambda t, S: tm.add(64, En.S(t), 328))]

    def bufs(s, c, S):
        for oid, m in c.info.mod.items():
            if oid.__class__ is int and m == "arr" and oid in S.mem and S.mem[oid].es == 1:
                yield oid, 41 if oid == s.sig.o else 0, S.mem[oid].size

    def conds(s, c, S, E, t):
        En = s.En
        r = []
        if not ("t" in c.anyrole and ("S(t)" in c.anyrole or "41+S(t)" in c.anyrole)):
            return r
        r.append(("t in range", tm.not_(tm.ult(64, En.n, t)), True))
        zs = [s.z]
        if t is c.t and S is not c.entryS:
            zs.append(tm.add(64, En.S(c.t), s.o))      # instance of the same quantified invariant
        for oid, base, size in s.bufs(c, S):
            # guarded accesses: stay inside the object
            for z in zs if S.ghost.get("hdr") is c.t else [s.z]:
                g = tm.and_(1, tm.not_(tm.ult(64, z, En.S(t))), tm.ult(64, z, 8 * (size - base)))
                r.append((("zero", oid), tm.implies(g, tm.not_(s.gb(c, S, oid, z, base, size))), False))
            p = tm.add(64, En.S(s.i), s.o)
            g = tm.ands([tm.ult(64, s.i, t), tm.ult(64, s.o, En.ln(s.i)), tm.ult(64, p, 8 * (size - base))])
            r.append((("code", oid), tm.implies(g, tm.eq(1, s.gb(c, S, oid, p, base, size), En.code(s.i, s.o))), False))
        return r

    def gb(s, c, S, oid, p, base, size):
        k = tm.add(64, tm.lshr(64, p, 3), base)
        b = c.X.sel(S.mem[oid], k)
        return tm.trunc(1, tm.lshr(8, b, tm.sub(8, 7, tm.trunc(8, tm.and_(64, p, 7), 64))), 8)

    def header(s, c, S, E):
        En = s.En
        if "S(t)" in c.anyrole or "41+S(t)" in c.anyrole:
            En.ax(S, c.t)
            En.ax(S, s.i)
            En.mono(S, s.i, c.t)
            En.mono(S, s.i, tm.add(64, c.t, 1))
            S.assume(tm.implies(tm.eq(64, c.t, En.n), tm.eq(64, En.S(c.t), En.S(En.n))))
            S.assume(tm.not_(tm.ult(64, En.cap, En.S(c.t))))
            S.ghost["hdr"] = c.t
            c.spec_extra = True


def compress(mod, n):
    def go(acc, mod=mod):
        L = BYTES[n]

        def once(cut):
            X, S = Exec(mod), State()
            cut.install(X)
            poly = X.arr_mode_input(S, "s", n, 4, ro=True)
            sig = X.arr_mode_input(S, "sig", L, 1)
            En = Enc(n, S.mem[poly.o].arr)
            sp = Comp(En, sig)
            cut.specs[:] = [sp]
            S.assume(tm.eq(64, En.S(0), 0))
            sig0 = S.mem[sig.o].arr
            r = X.run(mod.func("@w_comp%d" % n), [poly, sig], S)
            return X, S, En, sp, sig, sig0, r
        cut = loops.Cutter(acc, [None], timeout=60, outer=True)
        X, S, En, sp, sig, sig0, r = cut.run(once)
        acc.take(X); discharge(acc, X, timeout=120)
        nm = "compress_sig<%d>" % n
        En.ax(S, sp.i)
        prove(acc, S.pc, tm.eq(1, r, tm.not_(tm.ult(64, En.body, En.S(n)))), nm + ": succeeds exactly when the code fits", timeout=300)
        gb = lambda p: sp.gb(type("c", (), {"X": X}), S, sig.o, p, 41, L)
        prove(acc, S.pc, tm.implies(tm.and_(1, r, tm.ult(64, sp.o, En.ln(sp.i))), tm.eq(1, gb(tm.add(64, En.S(sp.i), sp.o)), En.code(sp.i, sp.o))), nm + ": body is the code", timeout=300)
        g = tm.ands([r, tm.not_(tm.ult(64, sp.z, En.S(n))), tm.ult(64, sp.z, En.body)])
        prove(acc, S.pc, tm.implies(g, tm.not_(gb(sp.z))), nm + ": zero padding", timeout=300)
        j = tm.sym("j", 64, 0, L - 42)
        b = X.sel(S.mem[sig.o], tm.add(64, j, 41))
        prove(acc, S.pc, tm.or_(1, r, tm.eq(8, b, 0)), nm + ": zero body on failure", timeout=300)
        h = tm.sym("h", 64, 0, 40)
        prove(acc, S.pc, tm.eq(8, X.sel(S.mem[sig.o], h), tm.mk("select", 8, sig0, h)), nm + ": header and salt untouched", timeout=300, kind="frame")
    return loops.attempts((False, go), (True, go), (True, lambda acc: go(acc, front.inlined("codecw"))))


def lemmas(n):
    """decoding and encoding specifications are inverse to each other"""
    def go(acc):
        D = Dec(n, tm.mk("arrsym", tm.A, "sig", 8))
        p = tm.sym("p", 64, 0, D.slen)
        for i in range(8):
            q = tm.add(64, p, i)
            prove(acc, [], tm.eq(1, tm.trunc(1, tm.lshr(8, D.W(p), 7 - i), 8), D.bit(q)), "lemma: window bit %d" % i, kind="lemma", timeout=120)
        i = tm.sym("i", 64, 0, n - 1)
        b, b8, sign, c = D.parts(i)
        nx = D.NX(b8)
        le = lambda x, y: tm.not_(tm.ult(64, y, x))
        C = D.C(i)
        # code of an arbitrary value x
        def ln(x):
            return tm.add(64, tm.zext(64, tm.lshr(32, tm.sabs(32, x), 7), 32), 9)

        def code(x, o):
            a = tm.sabs(32, x)
            low = tm.trunc(1, tm.lshr(32, a, tm.sub(32, 7, tm.trunc(32, o, 64) if o.__class__ is tm.T else o)), 32)
            return tm.ite(tm.eq(64, o, 0), tm.slt(32, x, 0), tm.ite(tm.ult(64, o, 8), low, tm.eq(64, o, tm.sub(64, ln(x), 1)), 1), 1)
        base = [le(b, D.slen), tm.implies(le(b8, D.slen), tm.and_(1, le(b8, nx), le(nx, D.slen)))]
        win = [tm.eq(1, tm.trunc(1, tm.lshr(8, D.W(b), 7 - k), 8), D.bit(tm.add(64, b, k))) for k in range(8)]
        defn = lambda q: [tm.implies(tm.and_(1, le(b8, q), tm.ult(64, q, nx)), tm.not_(D.bit(q))), tm.implies(tm.ult(64, nx, D.slen), D.bit(nx))]
        # 1. an accepted code is the code of the value it decodes to, and as long
        o = tm.sym("o", 64, 0, 1 << 14)
        q = tm.add(64, b, o)
        hyp = base + win + defn(q) + [D.ok(i)]
        prove(acc, hyp, tm.eq(64, tm.add(64, nx, 1), tm.add(64, b, ln(C))), "lemma: length of the decoded value's code", kind="lemma", timeout=200)
        for k in range(8):
            prove(acc, hyp, tm.eq(1, D.bit(tm.add(64, b, k)), code(C, k)), "lemma: decoded bit %d" % k, kind="lemma", timeout=200)
        prove(acc, hyp + [le(8, o), tm.ult(64, o, ln(C))], tm.eq(1, D.bit(q), code(C, o)), "lemma: unary part", kind="lemma", timeout=200)
        # 2. the code of s at position b decodes to s
        s = tm.sym("s", 32, -(1 << 16), 1 << 16)
        end = tm.add(64, b, tm.sub(64, ln(s), 1))
        at = lambda t: [tm.implies(tm.ult(64, t, ln(s)), tm.eq(1, D.bit(tm.add(64, b, t)), code(s, t)))]
        hyp = base + win + defn(end) + [le(tm.add(64, b, ln(s)), D.slen)] + sum([at(k) for k in range(8)], []) + \
            at(tm.sub(64, ln(s), 1)) + at(tm.sub(64, nx, b)) + [tm.eq(64, tm.add(64, b, tm.sub(64, nx, b)), nx)]
        prove(acc, hyp, tm.eq(64, nx, end), "lemma: end of the code is found", kind="lemma", timeout=200)
        hyp.append(tm.eq(64, nx, end))
        prove(acc, hyp, tm.eq(32, C, s), "lemma: decoding the code of s gives s", kind="lemma", timeout=200)
        prove(acc, hyp, D.ok(i), "lemma: the code of s is accepted", kind="lemma", timeout=200)
        # 3. zero padding is accepted
        e = tm.sym("e", 64, 0, D.slen)
        hyp = [le(e, D.NX(e)), le(D.NX(e), D.slen), tm.implies(tm.ult(64, D.NX(e), D.slen), D.bit(D.NX(e))),
               tm.implies(tm.and_(1, le(e, D.NX(e)), tm.ult(64, D.NX(e), D.slen)), tm.not_(D.bit(D.NX(e))))]
        prove(acc, hyp, tm.eq(64, D.NX(e), D.slen), "lemma: zero padding is accepted", kind="lemma")
    return go


def decode_sig_mem(mod, n, full=True):
    """decode_sig: header test, decompress_sig by contract, salt copied only on success"""
    def go(acc):
        L = BYTES[n]

        def dc(X, S, a):
            sig, poly = a
            o = X.obj(S, sig, "decompress")
            X.oblige("precondition", 1 if o.size - sig.off >= L else 0, S, "signature length")
            if not (sig.off == 0 and poly.off == 0):
                raise Undecided("decompress_sig called on a part of an object")
            p = S.w(poly.o)
            X.oblige("precondition", 1 if p.size >= 4 * n else 0, S, "polynomial length")
            p.cells = {}
            p.lazy = lambda off: (4, tm.sym("s2[%d]" % (off // 4), 32)) if off % 4 == 0 else None
            S.ghost["calls"] = S.ghost.get("calls", 0) + 1
            return tm.sym("decompressed", 1)
        X, S = Exec(mod, [(r"^bool decoding::decompress_sig<", dc)]), State()
        sig = X.array_input(S, "b", L, 1, ro=True)
        salt = X.array_input(S, "salt0", 40, 1)
        poly = X.array_input(S, "p0", n, 4)
        r = X.run(mod.func("@w_decsig%d" % n), [sig, salt, poly], S)
        acc.take(X)
        discharge(acc, X)
        if not full:
            return
        h = tm.eq(8, tm.sym("b[0]", 8), HDR[n])
        nm = "decode_sig<%d>" % n
        prove(acc, [], tm.eq(1, r, tm.and_(1, h, tm.sym("decompressed", 1))), nm + ": verdict")
        for i in range(40):
            prove_shape(acc, tm.implies(r, tm.eq(8, read(X, S, salt, i, 1), tm.sym("b[%d]" % (i + 1), 8))), nm + ": salt byte %d" % i)
        for i in range(n):
            prove_shape(acc, tm.implies(r, tm.eq(32, read(X, S, poly, i, 4), tm.sym("s2[%d]" % i, 32))), nm + ": coefficient %d" % i)
    return go
