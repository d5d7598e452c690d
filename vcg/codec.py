"""Contracts of the key codecs."""
import term as tm, front
from sym import Exec, State, Ptr
from check import Refuted, Undecided, U
from lib import *


def start(X, S, acc=None):
    pass


def lens(mod, acc, fn, want):
    X, S = Exec(mod), State()
    r = X.run(mod.func("@" + fn), [], S)
    if r != want:
        raise Refuted("%s() = %s, specified %d" % (fn, r, want))
    acc.ok("intervals")


def frame(X, S, acc, p, n, es, mk, what):
    i = unchanged(X, S, p, es, n, mk)
    if i is not None:
        raise Refuted("%s: input element %d modified" % (what, i))
    acc.ok("syntactic", kind="frame")


def pk_len(N):
    return 1 + N * 14 // 8


def enc_pk(mod, N):
    def go(acc):
        lens(mod, acc, "w_pklen%d" % N, pk_len(N))
        X, S = Exec(mod), State()
        h = ffin(X, S, "h", N)
        k = X.new_obj(S, pk_len(N), "pkey")
        X.run(mod.func("@w_encpk%d" % N), [h, k], S)
        acc.take(X); discharge(acc, X)
        spec = [N.bit_length() - 1] + bits([(ffsym("h", i), 14, 16) for i in range(N)])
        for i, w in enumerate(spec):
            c = S.mem[k.o].cells.get(i)
            if c is None:
                raise Refuted("encode_pkey<%d>: key byte %d is never written" % (N, i))
            v = read(X, S, k, i, 1)
            prove_shape(acc, tm.eq(8, v, w), "encode_pkey<%d>: key byte %d" % (N, i))
        frame(X, S, acc, h, N, 2, lambda i: ffsym("h", i), "encode_pkey")
    return go


def bytesym(nm):
    return lambda i: tm.sym("%s[%d]" % (nm, i), 8)


def dec_pk(mod, N):
    def go(acc):
        X, S = Exec(mod), State()
        L = pk_len(N)
        k = X.array_input(S, "b", L, 1)
        h = X.new_obj(S, 2 * N, "h")
        r = X.run(mod.func("@w_decpk%d" % N), [k, h], S)
        acc.take(X); discharge(acc, X)
        b = [bytesym("b")(i) for i in range(L)]
        co = [field(b[1:], 14 * i, 14, 16) for i in range(N)]
        ok = tm.ands([tm.eq(8, b[0], N.bit_length() - 1)] + [tm.ult(16, c, Q) for c in co])
        prove(acc, [], tm.eq(1, r, ok), "decode_pkey<%d>: verdict" % N, timeout=300)
        for i in range(N):
            v = read(X, S, h, i, 2)
            prove_under(acc, v, r, co[i], "decode_pkey<%d>: coefficient %d" % (N, i), 16)
        frame(X, S, acc, k, L, 1, bytesym("b"), "decode_pkey")
        # lemma: packing the unpacked coefficients gives the bytes back (so decoding is injective)
        back = bits([(c, 14, 16) for c in co])
        for i in range(L - 1):
            if back[i] is not b[i + 1]:
                raise Undecided("lemma pack(unpack) at byte %d" % i)
        # lemma: unpacking packed canonical coefficients gives them back
        hs = [ffsym("h", i) for i in range(N)]
        pk = bits([(x, 14, 16) for x in hs])
        for i in range(N):
            if field(pk, 14 * i, 14, 16) is not hs[i]:
                raise Undecided("lemma unpack(pack) at coefficient %d" % i)
        acc.ok("bit-fields", L - 1 + N, "lemma")
    return go


def sk_len(N):
    b = 6 if N == 512 else 5
    return 1 + 2 * N * b // 8 + N


def enc_sk(mod, N):
    def go(acc):
        bw = 6 if N == 512 else 5
        L = sk_len(N)
        lens(mod, acc, "w_sklen%d" % N, L)
        X, S = Exec(mod), State()
        H = 1 << (bw - 1)
        mk = lambda nm, h: (lambda i: tm.sym("%s[%d]" % (nm, i), 32, -h, h - 1))
        sy = [mk("f", H), mk("g", H), mk("F", 128)]
        ps = [X.array_input(S, nm, N, 4, mk=m) for nm, m in zip("fgF", sy)]
        k = X.new_obj(S, L, "skey")
        X.run(mod.func("@w_encsk%d" % N), ps + [k], S)
        acc.take(X); discharge(acc, X)
        fl = []
        for m, n in zip(sy, (bw, bw, 8)):
            fl += [(tm.mk("trunc", 8, m(i)), n, 8) for i in range(N)]
        spec = [0x50 | (N.bit_length() - 1)] + bits(fl)
        for i, w in enumerate(spec):
            if S.mem[k.o].cells.get(i) is None:
                raise Refuted("encode_skey<%d>: key byte %d is never written" % (N, i))
            prove_shape(acc, tm.eq(8, read(X, S, k, i, 1), w), "encode_skey<%d>: key byte %d" % (N, i))
        for p, m in zip(ps, sy):
            frame(X, S, acc, p, N, 4, m, "encode_skey")
    return go


def sfield(b, bit, n):
    """two's complement n-bit field as 32-bit value"""
    u = field(b, bit, n, 32)
    return tm.ite(tm.ult(32, (1 << (n - 1)) - 1, u), tm.add(32, u, -(1 << n) & 0xffffffff), u, 32)


def dec_sk(mod, N):
    def go(acc):
        bw = 6 if N == 512 else 5
        L = sk_len(N)
        X, S = Exec(mod), State()
        k = X.array_input(S, "b", L, 1)
        outs = [X.new_obj(S, 4 * N, nm) for nm in "fgF"]
        r = X.run(mod.func("@w_decsk%d" % N), [k] + outs, S)
        acc.take(X); discharge(acc, X)
        b = [bytesym("b")(i) for i in range(L)]
        prove(acc, [], tm.eq(1, r, tm.eq(8, b[0], 0x50 | (N.bit_length() - 1))), "decode_skey<%d>: verdict" % N)
        pos = 0
        for o, n, nm in zip(outs, (bw, bw, 8), "fgF"):
            for i in range(N):
                v = read(X, S, o, i, 4)
                prove_under(acc, v, r, sfield(b[1:], pos, n), "decode_skey<%d>: %s[%d]" % (N, nm, i), 32)
                pos += n
        if pos != 8 * (L - 1):
            raise Refuted("layout does not fill the key")
        frame(X, S, acc, k, L, 1, bytesym("b"), "decode_skey")
        # lemmas: n-bit two's complement fields and integers in range correspond one to one
        for n in {bw, 8}:
            u = tm.sym("u%d" % n, 32, 0, (1 << n) - 1)
            s = tm.ite(tm.ult(32, (1 << (n - 1)) - 1, u), tm.add(32, u, -(1 << n) & 0xffffffff), u, 32)
            prove(acc, [], tm.eq(32, tm.and_(32, s, (1 << n) - 1), u), "lemma: field of decoded value", kind="lemma")
            x = tm.sym("x%d" % n, 32, -(1 << (n - 1)), (1 << (n - 1)) - 1)
            y = tm.mk("and", 32, x, (1 << n) - 1)
            prove(acc, [], tm.eq(32, tm.ite(tm.ult(32, (1 << (n - 1)) - 1, y), tm.add(32, y, -(1 << n) & 0xffffffff), y, 32), x), "lemma: decoded value of field", kind="lemma")
    return go


def pk_units(tier, seed):
    mod = front.module("codecw")
    us = []
    for N in (1024, 512):
        us += [U("decode_pkey%d" % N, "decoding::decode_pkey<%d>" % N, dec_pk(mod, N)),
               U("encode_pkey%d" % N, "encoding::encode_pkey<%d>" % N, enc_pk(mod, N))]
    return us


def sk_units(tier, seed):
    mod = front.module("codecw")
    us = []
    for N in (1024, 512):
        us += [U("decode_skey%d" % N, "decoding::decode_skey<%d>" % N, dec_sk(mod, N)),
               U("encode_skey%d" % N, "encoding::encode_skey<%d>" % N, enc_sk(mod, N))]
    return us


def dec_mem(mod, N, fn, L, outs):
    """memory safety, absence of undefined arithmetic and termination of a key decoder"""
    def go(acc):
        X, S = Exec(mod), State()
        k = X.array_input(S, "b", L, 1, ro=True)
        ps = [X.new_obj(S, es * N, nm) for nm, es in outs]
        X.run(mod.func("@%s%d" % (fn, N)), [k] + ps, S)
        acc.take(X); discharge(acc, X)
        frame(X, S, acc, k, L, 1, bytesym("b"), fn)
    return go
