"""Contracts of the public key: derivation, invertibility test, Gram-Schmidt norm, candidates, byte-level key generation."""
import random, re
import numpy as np
import alg, gfq, ffc, npeval, codec, entry, term as tm
from alg import P
from gfq import GF
from sym import Exec, State, Ptr
from term import T
from check import Refuted, Undecided, U
from lib import *
from entry import put, holds, isym, same
from tree import comp, ileaf
from verif import syms

LO, HI = -6145, 6143            # documented range of f, g
Q = 12289


def residue(done):
    """leaf of the Z_q evaluation: canonical residue of one signed coefficient x[i]"""
    D = np.arange(LO, HI + 1, dtype=np.int64)
    W = (D % Q).astype(np.uint64)
    A = D.astype(np.uint64) & np.uint64(0xffffffff)

    def f(t):
        ss = syms(t)
        if len(ss) != 1:
            return None
        nm = next(iter(ss))
        g = tm.rename([t])[0]
        if g.id not in done:
            (v,) = npeval.ev([t], {nm: A})
            m = np.broadcast_to(v != W, D.shape)
            if m.any():
                raise Refuted("residue of %s is wrong for %d" % (nm, D[int(np.argmax(m))]))
            done[g.id] = True
        p, i = nm[:-1].split("[")
        return p, int(i)
    return f


def evaluator(calls, val):
    done = {}
    r = residue(done)

    def leaf(t):
        x = r(t)
        return None if x is None else val[x[0]][x[1]]
    return gfq.Eval(calls, leaf), done


def ins(X, S, nm, n):
    return X.array_input(S, nm, n, 4, 32, lo=LO, hi=HI, ro=True)


def u_pubkey(mod, n):
    """h f = g whenever f is invertible"""
    k = n.bit_length() - 1

    def go(acc):
        calls = gfq.Calls()
        X, S = Exec(mod), State()
        X.contracts = comp(ffc.ALL + calls.contracts())
        a = [ins(X, S, nm, n) for nm in "fg"]
        h = X.new_obj(S, 2 * n, "h")
        X.run(mod.func("@w_pub%d" % n), a + [h], S)
        acc.take(X); discharge(acc, X)
        rng = random.Random("pub%d" % n)
        val = {c: gfq.rand(rng, n) for c in "fg"}
        E, done = evaluator(calls, val)
        nm = "compute_public_key<%d>" % n
        H = np.array([E.ev(read(X, S, h, i, 2)) for i in range(n)])
        prod = gfq.negacyclic(k, H, val["f"])
        bad = np.nonzero(np.any(prod != val["g"], axis=1))[0]
        if len(bad):
            raise Refuted("%s: (h*f)[%d] differs from g[%d]" % (nm, bad[0], bad[0]))
        acc.ok("identity-testing", n)
        acc.ok("exhaustive", len(done))
        # defined for every invertible f: only values of f at the roots are inverted
        at = {v.tobytes() for v in gfq.tr(k, False, val["f"])}
        for x in E.inv0:
            y = x.a[0]
            y = GF.const(y) if y.__class__ is int else E.ev(y)
            if y.tobytes() not in at:
                raise Undecided(nm + ": inverts something else than a value of f at a root: " + tm.show(x, 3))
        acc.ok("identity-testing", len(E.inv0))
    return go


def u_invertible(mod, n):
    """true exactly when no value of f at the roots is zero"""
    k = n.bit_length() - 1

    def go(acc):
        calls = gfq.Calls()
        X, S = Exec(mod), State()
        X.contracts = comp(ffc.ALL + calls.contracts())
        r = X.run(mod.func("@w_inv%d" % n), [ins(X, S, "f", n)], S)
        acc.take(X); discharge(acc, X)
        val = {"f": gfq.rand(random.Random("inv%d" % n), n)}
        E, done = evaluator(calls, val)
        at = {v.tobytes(): i for i, v in enumerate(gfq.tr(k, False, val["f"]))}
        nm = "is_poly_invertible<%d>" % n
        m, y = {}, [tm.sym("y[%d]" % i, 16, 0, Q - 1) for i in range(n)]
        for t in tm.subterms([r]):
            if t.op == "xf":
                i = at.get(E.ev(t).tobytes())
                if i is None:
                    raise Undecided(nm + ": the verdict depends on something else than the values of f at the roots")
                m[t.id] = y[i]
        g = tm.subst([r], m)[0]
        rest = syms(g) - {"y[%d]" % i for i in range(n)} if g.__class__ is T else set()
        if rest:
            raise Undecided("%s: the verdict depends on %s" % (nm, sorted(rest)[:3]))
        acc.ok("identity-testing", n)
        prove(acc, [], tm.eq(1, tm.trunc(1, g, g.w) if g.__class__ is T and g.w != 1 else g, tm.ands([tm.not_(tm.eq(16, v, 0)) for v in y])), nm + ": verdict", timeout=200)
    return go


def value(E, r, A, B):
    """value of r when A < B, A > B, A = B (the only comparisons allowed are between A and B)"""
    def cmp_(op, x, y, rel):
        s = 0 if x == y else rel if (x, y) == (A, B) else -rel       # sign of x - y
        return {"olt": s < 0, "ole": s <= 0, "oeq": s == 0, "one": s != 0, "une": s != 0, "ord": True, "uno": False}[op]
    for rel in (-1, 1, 0):
        if rel == 0 and A == B:
            pass
        e = alg.Eval(E.calls, E.leaf)
        e.cv = E.cv

        def branch(c, rel=rel, e=e):
            neg = c.op == "not"
            t = c.a[0] if neg else c
            if t.op != "fcmp":
                return None
            v = [e.ev(tm.unfk(x)) if x.__class__ is not T else e.ev(x) for x in t.a[1:]]
            if not all(x in (A, B) for x in v):
                return None
            return cmp_(t.a[0], v[0], v[1], rel) != neg
        e.branch = branch
        yield rel, e.ev(r)


def gs(k, f, g):
    """squared norms of (g, -f) and of its Gram-Schmidt companion (q f*/(ff*+gg*), q g*/(ff*+gg*))"""
    n = 1 << k
    A = (sum(x * x for x in f) + sum(x * x for x in g)) % P
    ff, gg = [alg.fft(k, [(x, x) for x in l]) for l in (f, g)]
    d = [alg.cadd(alg.cmul(a, alg.conj(a)), alg.cmul(b, alg.conj(b))) for a, b in zip(ff, gg)]
    B = 0
    for v in (ff, gg):
        for x, y in zip(v, d):
            t = alg.cdiv(alg.conj(x), y)
            B += alg.cmul(t, alg.conj(t))[0]
    return A, B * Q * Q % P * alg.inv(n) % P


def u_gs(mod, n, inline=False):
    k = n.bit_length() - 1

    def go(acc):
        calls = alg.Calls()
        X, S = Exec(mod), State()
        if not inline:
            X.contracts = comp(calls.contracts([k]))
        r = X.run(mod.func("@w_gs%d" % n), [ins(X, S, nm, n) for nm in "fg"], S)
        acc.take(X); discharge(acc, X)
        rng = random.Random("gs%d" % n)
        v = {x: [alg.rnd(rng) for _ in range(n)] for x in "fg"}
        E = alg.Eval(calls, ileaf(v))
        A, B = gs(k, v["f"], v["g"])
        nm = "gram_schmidt_norm<%d>" % n
        for rel, x in value(E, r, A, B):
            want = A if rel > 0 else B
            if rel == 0 and x in (A, B):
                continue
            if x != want:
                raise Refuted("%s: not the larger of the two squared norms (%s)" % (nm, "that of (g, -f)" if rel > 0 else "that of its Gram-Schmidt companion" if rel < 0 else "equal norms"))
        acc.ok("identity-testing", 3)
    return go


SIG_FG = 1.43300980528773
SMIN = {512: 1.277833697, 1024: 1.298280334}


def u_genpoly(mod, n):
    """every coefficient is the sum of 4096/n draws at mean 0 with the prescribed deviation"""
    def go(acc):
        X, S = Exec(mod), State()
        rp = X.new_obj(S, None, "rng")
        draws = []

        def draw(X, S, a):
            for v, w, what in ((a[0], 0.0, "mean"), (a[1], SIG_FG, "deviation"), (a[2], SMIN[n], "minimal deviation")):
                if not (v.__class__ is float and abs(v - w) <= 1e-12):
                    X.oblige("precondition", 0, S, "%s of a draw is %r, specified %r" % (what, v if v.__class__ is float else "not constant", w))
            same(X, S, a[3], rp, "the given generator is used")
            t = tm.sym("draw[%d]" % len(draws), 32, -18, 19)
            draws.append(t)
            return t
        X.contracts = comp([(r"samplerz::samplerz\(double, double, double, prng", draw)])
        f = X.new_obj(S, 4 * n, "f")
        X.run(mod.func("@w_poly%d" % n), [f, rp], S)
        acc.take(X); discharge(acc, X)
        k = 4096 // n
        used = set()
        for i in range(n):
            t = read(X, S, f, i, 4)
            l, st = [], [t]
            while st:
                x = st.pop()
                if x.__class__ is T and x.op == "add":
                    st += x.a
                elif not (x.__class__ is int and x == 0):
                    l.append(x)
            ids = {x.id for x in l if x.__class__ is T and x.op == "sym"}
            if len(l) != k or len(ids) != k or ids & used:
                raise Refuted("gen_poly<%d>: coefficient %d is not the sum of %d fresh draws" % (n, i, k))
            used |= ids
        acc.ok("syntactic", n)
        if len(draws) != 4096:
            raise Refuted("gen_poly<%d>: %d draws, specified 4096" % (n, len(draws)))
        acc.ok("syntactic")
    return go


def u_bytes(mod, n):
    """falcon::keygen: the bytes are the encodings of exactly the generated h and f, g, F"""
    def go(acc):
        X, S = Exec(mod), State()
        b = 31 if n == 512 else 15
        R = {"f": b, "g": b, "F": 127, "G": 127}
        mk = lambda nm: (lambda i: tm.sym("%s[%d]" % (nm, i), 32, -R[nm], R[nm]))
        pk, sk = X.new_obj(S, codec.pk_len(n), "pk"), X.new_obj(S, codec.sk_len(n), "sk")
        cnt = {}

        def gen(X, S, a):
            cnt["gen"] = cnt.get("gen", 0) + 1
            if cnt["gen"] > 1:
                X.oblige("precondition", 0, S, "one key is generated")
            for p, nm in zip(a, "fgFG"):
                put(X, S, p, 4, n, mk(nm))

        def pub(X, S, a):
            for p, nm in zip(a, "fg"):
                holds(X, S, p, 4, n, mk(nm), "the public key is derived from " + nm)
            put(X, S, a[2], 2, n, lambda i: ffsym("h", i))

        def epk(X, S, a):
            holds(X, S, a[0], 2, n, lambda i: ffsym("h", i), "the derived public key is encoded")
            put(X, S, a[1], 1, codec.pk_len(n), lambda i: tm.sym("pkb[%d]" % i, 8))

        def esk(X, S, a):
            for p, nm in zip(a, "fgF"):
                holds(X, S, p, 4, n, mk(nm), "the secret key holds " + nm)
            put(X, S, a[3], 1, codec.sk_len(n), lambda i: tm.sym("skb[%d]" % i, 8))
        X.contracts = comp([(r"^void ntru_gen::ntru_gen<%d(ul)?>\(" % n, gen), (r"^void keygen::compute_public_key<%d(ul)?>\(" % n, pub),
                            (r"^void encoding::encode_pkey<%d(ul)?>\(" % n, epk), (r"^void encoding::encode_skey<%d(ul)?>\(" % n, esk),
                            (r"^prng::prng_t::prng_t\(", lambda X, S, a: None)])
        X.run(mod.func("@w_bkeygen%d" % n), [pk, sk], S)
        acc.take(X); discharge(acc, X)
        for p, m, nm in ((pk, codec.pk_len(n), "pkb"), (sk, codec.sk_len(n), "skb")):
            for i in range(m):
                if S.mem[p.o].cells.get(i, (0, 0))[1] is not tm.sym("%s[%d]" % (nm, i), 8):
                    raise Refuted("falcon::keygen<%d>: byte %d of the %s key is not that of the encoding" % (n, i, "public" if nm == "pkb" else "secret"))
            acc.ok("syntactic", m)
    return go


def units(mod, byt, seed=1):
    us = []
    for n in (1024, 512):
        us += [U("gram_schmidt%d" % n, "ntru_gen::gram_schmidt_norm<%d>" % n, u_gs(mod, n)),
               U("public_key%d" % n, "keygen::compute_public_key<%d>" % n, u_pubkey(byt, n)),
               U("invertible%d" % n, "ntru_gen::is_poly_invertible<%d>" % n, u_invertible(mod, n)),
               U("gen_poly%d" % n, "ntru_gen::gen_poly<%d>" % (n.bit_length() - 1), u_genpoly(mod, n)),
               U("keygen_bytes%d" % n, "falcon::keygen<%d>" % n, u_bytes(byt, n))]
    return us
