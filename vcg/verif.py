"""Contract of verification::verify."""
import random
import numpy as np
import term as tm, gfq, ffc, npeval
from term import T
from sym import Exec, State, Ptr
from check import Refuted, Undecided, U
from lib import *
from sigcodec import BETA, BYTES

# |coefficient| of a decompressed polynomial: 7 low bits and at most 8*|sig| unary zeros (proved in C05)
CMAX = {n: 127 + 128 * 8 * BYTES[n] for n in BYTES}


def s2sym(n, i):
    return tm.sym("s2[%d]" % i, 32, -CMAX[n], CMAX[n])


def decsig(n):
    """decode_sig: verdict, salt = bytes 1..40, s2 the decoded polynomial"""
    def h(X, S, a):
        sig, salt, s2 = a
        if sig.off.__class__ is not int or S.mem[sig.o].name != "sig" or sig.off != 0:
            X.oblige("precondition", 0, S, "decode_sig is given the signature")
        for p, es, m, nm in ((salt, 1, 40, lambda i: tm.sym("salt[%d]" % i, 8)), (s2, 4, n, lambda i: s2sym(n, i))):
            X.obj(S, p, "decode_sig")
            for i in range(m):
                X.store(S, Ptr(p.o, tm.add(64, p.off, es * i)), es, nm(i))
        S.ghost["decoded"] = 1
        return tm.sym("decoded", 1)
    return h


def htp(n, msg, mlen):
    def h(X, S, a):
        salt, sl, m, ml, c = a
        X.oblige("precondition", 1 if sl == 40 else 0 if sl.__class__ is int else tm.eq(64, sl, 40), S, "40 salt bytes are hashed")
        for i in range(40):
            v = X.load(S, Ptr(salt.o, tm.add(64, salt.off, i)), 1, "i", 8)
            w = tm.sym("salt[%d]" % i, 8)
            if v is not w:
                X.oblige("precondition", tm.eq(8, v, w), S, "the hashed salt is the signature's (byte %d)" % i)
        if not (m.__class__ is Ptr and m.o == msg.o and m.off == 0 and ml is mlen):
            X.oblige("precondition", 0, S, "the hashed message is the given one")
        for i in range(n):
            X.store(S, Ptr(c.o, tm.add(64, c.off, 2 * i)), 2, ffsym("c", i))
        S.ghost["hashed"] = 1
    return h


def addends(t, out):
    st = [t]
    while st:
        x = st.pop()
        if x.__class__ is T and x.op == "add" and x.w == 64:
            st += list(x.a)
        elif x.__class__ is int and x == 0:
            pass
        else:
            out.append(x)
    return out


def ffroots(t):
    """maximal canonical field-element sub-terms"""
    r, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x.__class__ is not T or x.id in seen:
            continue
        seen.add(x.id)
        if x.w == 16 and x.op in ("xf", "ffadd", "ffsub", "ffneg", "ffmul", "ffinv"):
            r.append(x)
            continue
        st += list(x.a)
    return r


def syms(t):
    return {x.a[0] for x in tm.subterms([t]) if x.op == "sym"}


def residue(n, done):
    """leaf of the Z_q evaluation: is t the canonical residue of s2[i]?"""
    D = np.arange(-CMAX[n], CMAX[n] + 1, dtype=np.int64)
    W = (D % Q).astype(np.uint64)
    A = D.astype(np.uint64) & np.uint64(0xffffffff)

    def f(t):
        ss = syms(t)
        if len(ss) != 1:
            return None
        nm = next(iter(ss))
        if not nm.startswith("s2["):
            return None
        i = int(nm[3:-1])
        g = tm.rename([t])[0]
        if g.id not in done:
            (v,) = npeval.ev([t], {nm: A})
            m = np.broadcast_to(v != W, D.shape)
            if m.any():
                z = int(np.argmax(m))
                raise Refuted("residue of s2[%d] is wrong for %d" % (i, D[z]), ["s2 %d" % D[z]])
            done[g.id] = True
        return i
    return f


def centred_sq():
    v = np.arange(Q, dtype=np.int64)
    v = np.where(v > Q // 2, v - Q, v)
    return (v * v).astype(np.uint64)


def verify(mod, n):
    k = n.bit_length() - 1
    B = BETA[n]

    def go(acc):
        calls = gfq.Calls()
        S = State()
        X = Exec(mod, [])
        mlen = tm.sym("mlen", 64)
        h = ffin(X, S, "h", n, ro=True)
        msg = X.new_obj(S, None, "msg", ro=True)
        sig = X.array_input(S, "sig", BYTES[n], 1, ro=True)
        import re
        X.contracts = [(re.compile(p), f) for p, f in ffc.ALL + calls.contracts() +
                       [(r"^bool decoding::decode_sig<", decsig(n)), (r"^void hashing::hash_to_point<", htp(n, msg, mlen))]]
        r = X.run(mod.func("@w_verify%d" % n), [h, msg, mlen, sig], S)
        acc.take(X)
        discharge(acc, X)
        nm = "verify<%d>" % n
        # the sum compared with the bound
        sums = [t for t in tm.subterms([r]) if t.w == 64 and t.op == "add"]
        if not sums:
            raise Undecided(nm + ": no integer norm found in the verdict")
        inner = {x.id for t in sums for x in t.a if x.__class__ is T}
        top = [t for t in sums if t.id not in inner]
        if len(top) != 1:
            raise Undecided(nm + ": %d norms found in the verdict" % len(top))
        parts = addends(top[0], [])
        done = {}
        res = residue(n, done)
        rng = random.Random(20240607)
        val = {c: gfq.rand(rng, n) for c in ("s2", "h", "c")}

        def leaf(t):
            if t.op == "sym":
                c, i = t.a[0][:-1].split("[")
                if c in ("h", "c"):
                    return val[c][int(i)]
                return None
            i = res(t)
            return None if i is None else val["s2"][i]
        E = gfq.Eval(calls, leaf)
        want = (val["c"] - gfq.negacyclic(k, val["s2"], val["h"])) % Q
        pos = {want[i].tobytes(): i for i in range(n)}
        sq = centred_sq()
        got2, got1 = set(), set()
        for p in parts:
            fr = ffroots(p)
            if fr:
                if len(fr) != 1:
                    raise Undecided(nm + ": summand with several field elements")
                x = fr[0]
                z = tm.sym("v", 16, 0, Q - 1)
                g = tm.subst([p], {x.id: z})[0]
                if syms(g) != {"v"}:
                    raise Undecided(nm + ": summand of mixed origin")
                if ("sq", g.id) not in done:
                    (v,) = npeval.ev([g], {"v": np.arange(Q, dtype=np.uint64)})
                    if np.any(v != sq):
                        i = int(np.argmax(v != sq))
                        raise Refuted(nm + ": residue %d of s1 contributes %d to the norm, specified %d" % (i, tm.sgn(int(v[i]), 64), sq[i]))
                    done["sq", g.id] = True
                i = pos.get(E.ev(x).tobytes())
                if i is None:
                    raise Refuted(nm + ": a summand of the norm is not the square of a coefficient of c - s2*h")
                if i in got1:
                    raise Refuted(nm + ": s1[%d] is counted twice in the norm" % i)
                got1.add(i)
            else:
                ss = syms(p)
                nme = next(iter(ss), "")
                if len(ss) != 1 or not nme.startswith("s2["):
                    raise Undecided(nm + ": unexpected summand of the norm: " + tm.show(p, 3))
                i = int(nme[3:-1])
                t = tm.sext(64, s2sym(n, i), 32)
                prove_shape(acc, tm.eq(64, p, tm.mul(64, t, t)), nm + ": summand of s2[%d]" % i, timeout=120)
                if i in got2:
                    raise Refuted(nm + ": s2[%d] is counted twice in the norm" % i)
                got2.add(i)
        for g_, c in ((got1, "s1"), (got2, "s2")):
            if len(g_) != n:
                raise Refuted("%s: %d coefficients of %s are missing from the norm" % (nm, n - len(g_), c), ["missing %s" % c])
        acc.ok("identity-testing", n)
        acc.ok("exhaustive", len(done))
        mx = n * (CMAX[n] ** 2 + (Q // 2) ** 2)
        z = tm.sym("norm", 64, 0, mx)
        g = tm.subst([r], {top[0].id: z})[0]
        extra = syms(g) - {"norm", "decoded"}
        if extra:
            raise Refuted(nm + ": verdict also depends on %s" % sorted(extra)[:4])
        d = tm.sym("decoded", 1)
        rr = g if g.__class__ is T and g.w == 1 else tm.trunc(1, g, 8)
        prove(acc, [], tm.eq(1, rr, tm.and_(1, d, tm.not_(tm.ult(64, B, z)))), nm + ": true exactly when decoded and norm <= %d" % B)
    return go
