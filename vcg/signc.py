"""Contract of signing: what holds of the signature bytes when the attempt loop is left."""
import random
import alg, rng as rnd_, smt, term as tm
from alg import P, uv, reim, cadd, csub, cmul
from sym import Exec, State, Ptr, force
from term import T, F
from ir import Unsupported
from check import Refuted, Undecided, U
from lib import *
from tree import comp, at, ins, flat, pair, cut, either, basis, ntru_vals
from ffs import uf
from ntru import Cut, entails, decided, fp_abs
from keyg import settle, unk
from sigcodec import BETA, BYTES
from entry import put, holds, same, fsym

HDR = {512: 0x39, 1024: 0x3a}
SMIN = {512: 1.277833697, 1024: 1.298280334}


class Loop:
    """nothing is assumed of earlier attempts"""

    def header(s, cut, c, X, S, E):
        pass

    def back(s, cut, c, X, S, E):
        pass


class Log:
    def __init__(s):
        s.hash, s.samp, s.comp = [], [], []


def hash_contract(n, log, msg, mlen):
    def h(X, S, a):
        p, sl, m, ml, c = a
        if sl != 40:
            X.oblige("precondition", 0 if sl.__class__ is int else tm.eq(64, sl, 40), S, "40 salt bytes are hashed")
        same(X, S, m, msg, "the given message is hashed")
        if ml is not mlen:
            X.oblige("precondition", tm.eq(64, ml, mlen), S, "message length")
        k = len(log.hash)
        log.hash.append([X.load(S, Ptr(p.o, tm.add(64, p.off, i)), 1, "i", 8) for i in range(40)])
        put(X, S, c, 2, n, lambda i: ffsym("c%d" % k, i))
    return (r"^void hashing::hash_to_point<%d(ul)?>\(" % n, h)


def samp_contract(calls, n, log, tree, smin, rp, zval):
    lg = n.bit_length() - 1

    def h(X, S, a):
        t0, t1, tr, sm, z0, z1, r = a
        same(X, S, r, rp, "the given generator is used")
        if not (tr.__class__ is Ptr and tr.o == tree.o and tr.off == 0):
            holds(X, S, tr, 8, 2 * n * (lg + 1), lambda i: fsym("T", i), "sampling uses the tree", "d")
        if not (sm is smin or sm == smin):
            X.oblige("precondition", 0, S, "minimal deviation of the sampler")
        k = len(log.samp)
        log.samp.append((ins(X, S, t0, n), ins(X, S, t1, n)))
        calls.new(X, S, lambda v: zval(k), [], [(z0, n), (z1, n)])
    return (r"^void ffsampling::ff_sampling<%d(ul)?, 0(ul)?, %d(ul)?>\(" % (n, lg), h)


def comp_contract(n, log):
    def h(X, S, a):
        s2, sig = a
        k = len(log.comp)
        t = tm.sym("compressed:%d" % k, 1)
        log.comp.append((t, [X.load(S, Ptr(s2.o, tm.add(64, s2.off, 4 * i)), 4, "i", 32) for i in range(n)], list(S.pc)))
        put(X, S, at1(sig, 41), 1, BYTES[n] - 41, lambda i: tm.sym("body%d[%d]" % (k, i), 8))
        return t
    return (r"^bool encoding::compress_sig<%d(ul)?, %d(ul)?>\(" % (n, BYTES[n]), h)


def at1(p, o):
    return Ptr(p.o, tm.add(64, p.off, o))


SCALES = {}


def scales(n):
    r = []
    for a in (1, n, n * n, n // 2, 2 * n, 2, 4):
        r += [a % P, alg.inv(a)]
    return r


def norm_within(S_pc, E, want, bound, n, what):
    """on every path, squared norm `want` (its value at the test point) is at most bound"""
    atoms, ks = [], set()
    sc = scales(n)

    def val(x):
        k = unk(x) if x.__class__ is not float else x
        if k is not None:
            return alg.const(k), k
        try:
            return E.ev(x), None
        except Undecided:
            return None, None

    for t in tm.subterms([p for p in S_pc if p.__class__ is T]):
        if t.op != "fcmp":
            continue
        (x, kx), (y, ky) = val(t.a[1]), val(t.a[2])
        if x is None or y is None:
            continue
        for s in sc:
            w = want * s % P
            f = [s, P - s]
            # side = s*norm, other side constant
            if x == w and ky is not None:
                atoms.append((t, "n", div(ky, s))); break
            if y == w and kx is not None:
                atoms.append((t, "c", div(kx, s))); break
            if (x - y) % P == (w - s * alg.const(float(bound))) % P:
                atoms.append((t, "n", float(bound))); break
            if (y - x) % P == (w - s * alg.const(float(bound))) % P:
                atoms.append((t, "c", float(bound))); break
    ks = sorted({k for _, _, k in atoms if k > bound})
    pts, lo = [], bound
    for k in ks:
        pts += [(lo + k) / 2, k]
        lo = k
    pts.append(lo * 2 + 1)
    for v in [bound * (1 + 1e-12)] + pts:
        m = {}
        for t, side, k in atoms:
            a, b = (v, k) if side == "n" else (k, v)
            r = {"olt": a < b, "ole": a <= b, "oeq": a == b, "one": a != b, "une": a != b, "ord": True, "uno": False}.get(t.a[0])
            if r is None:
                raise Undecided("%s: comparison %s" % (what, t.a[0]))
            m[t.id] = int(r)
        pc = tm.subst(list(S_pc), m)
        if any(p.__class__ is int and not p for p in pc):
            continue
        pc = fp_abs([p for p in pc if p.__class__ is T] + [0])
        if smt.query(pc[:-1], 0, timeout=30)[0] != "unsat":
            raise Refuted("%s: a vector of squared norm %r (bound %d) is accepted" % (what, v, bound))


def div(k, s):
    """k / s for a scale s (element of GF(P))"""
    for a in (1, 2, 4) + tuple(1 << i for i in range(3, 22)):
        if s == a % P:
            return k / a
        if s == alg.inv(a):
            return k * a
    raise Undecided("scale")


def target(n, c, B):
    """t = (c, 0) B^-1 with det B = q up to sign: t0 = -(1/q) c (-B11)..., as in the scheme: (c*B[3]/q, -c*B[1]/q)"""
    q = alg.inv(alg.Q)
    t0 = [alg.cscale(cmul(x, y), q) for x, y in zip(c, B[3])]
    t1 = [alg.cscale(cmul(x, y), P - q) for x, y in zip(c, B[1])]
    return t0, t1


def vector(t, z, B):
    d0, d1 = [[csub(x, y) for x, y in zip(a, b)] for a, b in zip(t, z)]
    s0 = [cadd(cmul(a, x), cmul(b, y)) for a, b, x, y in zip(d0, d1, B[0], B[2])]
    s1 = [cadd(cmul(a, x), cmul(b, y)) for a, b, x, y in zip(d0, d1, B[1], B[3])]
    return s0, s1


def sqnorm(n, s):
    return sum(a * b for v in s for a, b in v) % P * alg.inv(n) % P


def execute(mod, n, wrapper, zval):
    """run signing against its callees' contracts; zval(i): value of the i-th sample"""
    k = n.bit_length() - 1

    def run(cut_):
        log, calls = Log(), alg.Calls()
        X, S = Exec(mod), State()
        p = {x: X.array_input(S, x, m, 8, tm.F, ro=True) for x, m in (("B", 8 * n), ("T", 2 * n * (k + 1)))}
        msg, mlen = X.new_obj(S, None, "msg", ro=True), tm.sym("mlen", 64)
        sig = X.new_obj(S, BYTES[n], "sig")
        rp = X.new_obj(S, None, "rng")
        smin = SMIN[n] if wrapper else tm.mk("fsym", F, "smin")
        X.contracts = comp([rnd_.READ, hash_contract(n, log, msg, mlen), samp_contract(calls, n, log, p["T"], smin, rp, zval), comp_contract(n, log)]
                           + calls.contracts([k]))
        cut_.install(X)
        X.run(mod.func("@w_%ssign%d" % ("f" if wrapper else "", n)), [p["B"], p["T"], msg, mlen, sig] + ([] if wrapper else [smin]) + [rp], S)
        return X, S, sig, log, calls
    return Cut(Loop()).run(run)


def any_z(n):
    return lambda i: uf(("z", i), 4 * n)


def evaluator(n, calls, log, B, rng):
    c = {"c%d" % i: [alg.rnd(rng) for _ in range(n)] for i in range(len(log.hash))}
    cl = {"%s[%d]" % (a, i): x for a, l in c.items() for i, x in enumerate(l)}
    lb = alg.cleaf({"B": [x for v in B for x in v]})
    return c, alg.Eval(calls, lambda t: cl.get(t.a[0], lb(t)) if t.op == "sym" else lb(t))


def u_sign(mod, n, wrapper=False):
    k = n.bit_length() - 1

    def go(acc):
        nm = "falcon::sign<%d>" % n if wrapper else "signing::sign<%d>" % n
        zval = any_z(n)
        X, S, sig, log, calls = execute(mod, n, wrapper, zval)
        acc.take(X); discharge(acc, X)
        known = decided(S)
        out = []
        for i in range(BYTES[n]):
            out.append(settle(read(X, S, sig, i, 1), known))
        # the body is that of one successful compression
        ks = {j for j in range(len(log.comp)) if out[41] is tm.sym("body%d[0]" % j, 8)}
        if not ks:
            raise Refuted(nm + ": the signature body is not that of a compression")
        j = ks.pop()
        bad = [i for i in range(BYTES[n] - 41) if out[41 + i] is not tm.sym("body%d[%d]" % (j, i), 8)]
        if bad:
            raise Refuted("%s: byte %d is not that of the compressed half" % (nm, 41 + bad[0]))
        acc.ok("syntactic", BYTES[n] - 41)
        flag, words, pc = log.comp[j]
        if not entails(S, flag):
            raise Refuted(nm + ": returns although compression failed")
        acc.ok("z3")
        # header and salt
        if not (out[0].__class__ is int and out[0] == HDR[n]):
            raise Refuted("%s: header byte is %s, specified %#x" % (nm, out[0], HDR[n]))
        acc.ok("syntactic")
        hs = [i for i, s in enumerate(log.hash) if all(x is y for x, y in zip(s, out[1:41]))]
        if not hs:
            raise Refuted(nm + ": bytes 1..40 are not the salt that was hashed")
        salt = log.hash[hs[-1]]
        if len({x.id for x in salt if x.__class__ is T and x.op == "sym" and x.a[0].startswith("rnd[")}) != 40:
            raise Refuted(nm + ": the salt is not 40 bytes drawn from the generator")
        acc.ok("syntactic", 40)
        # the attempt
        rng = random.Random("sign%d" % n)
        B = [alg.crnd(rng, n) for _ in range(4)]
        c, E = evaluator(n, calls, log, B, rng)
        cf = alg.fft(k, [(x, x) for x in c["c%d" % hs[-1]]])
        t = target(n, cf, B)
        why = None
        for i, (a, b) in enumerate(log.samp):
            z = cut(pair(zval(i)), n)
            s = vector(t, z, B)
            w1 = [reim(x)[0] for x in alg.ifft(k, s[1])]
            E2 = alg.Eval(calls, E.leaf)
            E2.integers = set(w1)
            try:
                for e in range(n):
                    w = words[e]
                    if w.__class__ is int or E2.bv(w, True) != w1[e]:
                        raise Refuted("%s: coefficient %d given to compression is not that of (target - sample) times the basis, rounded to nearest" % (nm, e))
            except Refuted as x:
                why = why or x
                continue
            for v, want, l in ((a, t[0], "first"), (b, t[1], "second")):
                for e in range(n):
                    if uv(E2.ev(v[2 * e]), E2.ev(v[2 * e + 1])) != want[e]:
                        raise Refuted("%s: %s target of the sampler, element %d, differs from its specification" % (nm, l, e))
            acc.ok("identity-testing", 3 * n)
            norm_within(pc, E2, sqnorm(n, s), BETA[n], n, nm)
            acc.ok("z3", 3)
            return
        raise why or Refuted(nm + ": no sample was drawn")
    return go


def u_honest(mod, n):
    """for a basis [[g, -f], [G, -F]] with f G - g F = q and any integer sample z:
    second half = z0 f + z1 F, norm checked = that of (c - z0 g - z1 G, z0 f + z1 F)"""
    k = n.bit_length() - 1

    def go(acc):
        nm = "falcon::sign<%d>" % n
        rng = random.Random("honest%d" % n)
        v = ntru_vals(rng, k)
        B = basis(k, v)
        zp = {}

        def poly(i):
            if i not in zp:
                zp[i] = [alg.fft(k, [(x, x) for x in uf(("zp", i, j), n)]) for j in (0, 1)]
            return zp[i]
        X, S, sig, log, calls = execute(mod, n, True, lambda i: flat(poly(i)[0] + poly(i)[1]))
        acc.take(X); discharge(acc, X)
        c, E = evaluator(n, calls, log, B, rng)
        f, g, Fz, Gz = [alg.fft(k, [(x, x) for x in v[x_]]) for x_ in "fgFG"]
        if not log.comp:
            raise Refuted(nm + ": nothing is compressed")
        for flag, words, pc in log.comp:
            if not any(p.__class__ is T for p in pc):
                raise Refuted(nm + ": compression without a norm check")
            why = None
            for h in range(len(log.hash)):
                cf = alg.fft(k, [(x, x) for x in c["c%d" % h]])
                for i in range(len(log.samp)):
                    z0, z1 = poly(i)
                    s1 = [cadd(cmul(a, x), cmul(b, y)) for a, x, b, y in zip(z0, f, z1, Fz)]
                    s0 = [csub(csub(t, cmul(a, x)), cmul(b, y)) for t, a, x, b, y in zip(cf, z0, g, z1, Gz)]
                    w = [x[0] for x in alg.ifft(k, s1)]
                    E2 = alg.Eval(calls, E.leaf)
                    E2.integers = set(w)
                    try:
                        for e in range(n):
                            t = words[e]
                            if t.__class__ is int or E2.bv(t, True) != w[e]:
                                raise Refuted("%s: for an honest key, coefficient %d of the compressed half is not that of z0 f + z1 F" % (nm, e))
                        norm_within(pc, E2, sqnorm(n, (s0, s1)), BETA[n], n, nm + ", honest key")
                        acc.ok("identity-testing", n)
                        acc.ok("z3", 3)
                        why = 0
                        break
                    except Refuted as x:
                        why = why or x
                if why == 0:
                    break
            if why or why is None:
                raise why or Refuted(nm + ": no sample was drawn")
    return go


def u_lemma(n):
    """f ((c - z0 g - z1 G) + (z0 f + z1 F) h - c) = q (z0 k f + z1 k F - z1) where f G - g F = q and h f = g + q k,
    and the basis arithmetic of signing gives (c - z0 g - z1 G, z0 f + z1 F)"""
    k = n.bit_length() - 1

    def go(acc):
        for seed in (1, 2):
            rng = random.Random("lemma%d.%d" % (n, seed))
            v = ntru_vals(rng, k)
            B = basis(k, v)
            tr = lambda l: alg.fft(k, [(x, x) for x in l])
            r = lambda: tr([alg.rnd(rng) for _ in range(n)])
            f, g, Fz, Gz = [tr(v[x]) for x in "fgFG"]
            c, z0, z1, h = r(), r(), r(), r()
            q = (alg.Q, alg.Q)
            kk = [alg.cdiv(csub(cmul(a, b), d), q) for a, b, d in zip(h, f, g)]
            s = vector(target(n, c, B), (z0, z1), B)
            for i in range(n):
                m = cmul
                if s[0][i] != csub(csub(c[i], m(z0[i], g[i])), m(z1[i], Gz[i])) or s[1][i] != cadd(m(z0[i], f[i]), m(z1[i], Fz[i])):
                    raise Refuted("lemma: the vector is not (c - z0 g - z1 G, z0 f + z1 F)")
                l = m(f[i], csub(cadd(s[0][i], m(s[1][i], h[i])), c[i]))
                w = csub(cadd(m(m(z0[i], kk[i]), f[i]), m(m(z1[i], kk[i]), Fz[i])), z1[i])
                if l != m(q, w):
                    raise Refuted("lemma: s1 + s2 h is not c modulo q")
            acc.ok("identity-testing", 2 * n, kind="lemma")
    return go


def u_wrapper(mod, n):
    k = n.bit_length() - 1

    def go(acc):
        X, S = Exec(mod), State()
        p = {x: X.array_input(S, x, m, 8, tm.F, ro=True) for x, m in (("B", 8 * n), ("T", 2 * n * (k + 1)))}
        msg, mlen = X.new_obj(S, None, "msg", ro=True), tm.sym("mlen", 64)
        sig = X.new_obj(S, BYTES[n], "sig")
        rp = X.new_obj(S, None, "rng")
        cnt = [0]

        def sgn(X, S, a):
            for v, w, what in zip((a[0], a[1], a[2], a[4], a[6]), (p["B"], p["T"], msg, sig, rp), ("basis", "tree", "message", "signature buffer", "generator")):
                same(X, S, v, w, "the given %s is used" % what)
            if a[3] is not mlen:
                X.oblige("precondition", tm.eq(64, a[3], mlen), S, "message length")
            if a[5] != SMIN[n]:
                X.oblige("precondition", 0, S, "minimal deviation %r" % SMIN[n])
            put(X, S, a[4], 1, BYTES[n], lambda i: tm.sym("out[%d]" % i, 8))
            cnt[0] += 1

        def other(X, S, a):
            X.oblige("precondition", 0, S, "signing with bound %d and length %d" % (BETA[n], BYTES[n]))
        X.contracts = comp([(r"^void signing::sign<%d(ul)?, %d, %d(ul)?>\(" % (n, BETA[n], BYTES[n]), sgn), (r"^void signing::sign<", other)])
        X.run(mod.func("@w_fsign%d" % n), [p["B"], p["T"], msg, mlen, sig, rp], S)
        acc.take(X); discharge(acc, X)
        for i in range(BYTES[n]):
            if read(X, S, sig, i, 1) is not tm.sym("out[%d]" % i, 8):
                raise Refuted("falcon::sign<%d>: byte %d is not that of signing" % (n, i))
        acc.ok("syntactic", BYTES[n])
    return go


def units(mod):
    us = []
    for n in (1024, 512):
        l = [U("a", "", u_sign(mod, n)), U("b", "", u_wrapper(mod, n))]
        us.append(U("sign%d" % n, "signing::sign<%d>, falcon::sign<%d>" % (n, n), either(l, u_sign(mod, n, True))))
    return us
