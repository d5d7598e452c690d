"""Contract of fast Fourier sampling.

A call samples from its subtree: its result is an arbitrary (uninterpreted)
function of the targets, the cells of its subtree, the minimal deviation and of
how many calls preceded it.  A level is checked against that contract of the
half-size calls; a leaf against the contract of the integer sampler."""
import random, hashlib
import alg, term as tm
from alg import P, reim, uv, cadd, csub, cmul
from sym import Exec, State, Ptr
from term import T
from check import Refuted, Undecided, U
from lib import *
from tree import comp, at, ins, flat, pair, cut, inputs, either


def uf(key, m):
    h = random.Random(hashlib.sha256(repr(key).encode()).digest())
    return [h.randrange(1, P) for _ in range(m)]


def result(n, order, t0, t1, tree, smin):
    """value of a call of size n: (z0, z1)"""
    if n == 1:
        r = uf((1, order, reim(t0[0])[0], reim(t1[0])[0], reim(tree[0][0])[0], smin), 2)
        return [(r[0], r[0])], [(r[1], r[1])]
    r = uf((n, order, t0, t1, tree, smin), 4 * n)
    v = [(r[2 * i], r[2 * i + 1]) for i in range(2 * n)]
    return v[:n], v[n:]


def subtree(tree, k, right):
    h = 1 << (k - 1)
    return [lv[h:] if right else lv[:h] for lv in tree[1:]]


def level(k, t0, t1, tree, call):
    """one level of algorithm ffSampling; call(n, t0, t1, subtree) samples"""
    n = 1 << k
    r0, r1 = call(n // 2, *alg.split(k, t1), subtree(tree, k, True))
    z1 = alg.merge(k, r0, r1)
    t = [cadd(a, cmul(csub(b, z), l)) for a, b, z, l in zip(t0, t1, z1, tree[0])]
    l0, l1 = call(n // 2, *alg.split(k, t), subtree(tree, k, False))
    return alg.merge(k, l0, l1), z1


def cells(k, H):
    return [(m << H) + i for m in range(k + 1) for i in range(1 << k)]


def sub_contract(calls, n, l, H, rp, order):
    """half-size call"""
    k = n.bit_length() - 1

    def h(X, S, a):
        t0, t1, tr, smin, z0, z1, rng = a
        if not (rng.__class__ is Ptr and rng.o == rp.o and rng.off == 0):
            X.oblige("precondition", 0, S, "the given generator is used")
        i = order[0]
        order[0] += 1

        def f(v):
            p = pair(v[:-1])
            tree = [list(map(tuple, lv)) for lv in cut(p[2 * n:], n)]
            a, b = result(n, i, p[:n], p[n:2 * n], tree, v[-1])
            return flat(a + b)
        tc = [y for m in range(k + 1) for y in ins(X, S, at(tr, m << H), n)]
        calls.new(X, S, f, ins(X, S, t0, n) + ins(X, S, t1, n) + tc + [smin], [(z0, n), (z1, n)])
    return (r"^void ffsampling::ff_sampling<%d(ul)?, %d(ul)?, %d(ul)?>\(" % (n, l, H), h)


def draw_contract(calls, rp, log):
    """integer sampler: any integer"""
    def h(X, S, a):
        mu, sp, smin, rng = a
        if not (rng.__class__ is Ptr and rng.o == rp.o and rng.off == 0):
            X.oblige("precondition", 0, S, "the given generator is used")
        t = tm.sym("draw[%d]" % len(log), 32)
        log.append((t, mu, sp, smin))
        return t
    return (r"samplerz::samplerz\(double, double, double, prng", h)


def prepare(X, S, n, H, tag):
    k = n.bit_length() - 1
    rng = random.Random("ffs%s" % tag)
    size = (k << H) + n
    v = {"t0": alg.crnd(rng, n), "t1": alg.crnd(rng, n), "T": alg.crnd(rng, size)}
    p = {nm: X.array_input(S, nm, 2 * len(x), 8, tm.F, ro=True) for nm, x in v.items()}
    rp = X.new_obj(S, None, "rng")
    smin = tm.mk("fsym", tm.F, "smin")
    sv = alg.rnd(rng)
    z = [X.new_obj(S, 16 * n, nm) for nm in ("z0", "z1")]
    lf = alg.cleaf(v)
    tree = [v["T"][m << H:(m << H) + n] for m in range(k + 1)]
    return [p["t0"], p["t1"], p["T"], smin] + z + [rp], v, tree, smin, sv, lambda t: sv if t is smin else lf(t)


def u_node(mod, n, l, H):
    """one level against the contract of the half-size calls"""
    k = n.bit_length() - 1

    def go(acc):
        calls, order = alg.Calls(), [0]
        X, S = Exec(mod), State()
        a, v, tree, smin, sv, leaf = prepare(X, S, n, H, "%d" % n)
        X.contracts = comp([sub_contract(calls, n // 2, l + 1, H, a[6], order)])
        X.run(mod.func("@w_ffs_%d_%d" % (H, l)), a, S)
        nm = "ff_sampling<%d, %d, %d>" % (n, l, H)
        got = [alg.ldc(X, S, p, n) for p in a[4:6]]
        acc.take(X); discharge(acc, X)
        if order[0] != 2:
            raise Refuted("%s: %d half-size calls, specified 2" % (nm, order[0]))
        E = alg.Eval(calls, leaf)
        c = iter(range(9))
        want = level(k, v["t0"], v["t1"], tree, lambda m, x, y, t: result(m, next(c), x, y, t, sv))
        for g, w, z in zip(got, want, ("z0", "z1")):
            alg.check_vec(acc, E, g, w, "%s: %s" % (nm, z))
    return go


def u_leaf(mod, H):
    def go(acc):
        log = []
        X, S = Exec(mod), State()
        a, v, tree, smin, sv, leaf = prepare(X, S, 1, H, "leaf")
        X.contracts = comp([draw_contract(None, a[6], log)])
        X.run(mod.func("@w_ffs_%d_%d" % (H, H)), a, S)
        nm = "ff_sampling<1, %d, %d>" % (H, H)
        got = [alg.ldc(X, S, p, 1)[0] for p in a[4:6]]
        acc.take(X); discharge(acc, X)
        if len(log) != 2:
            raise Refuted("%s: %d integers drawn, specified 2" % (nm, len(log)))
        rng = random.Random("leafdraws")
        dv = {t.id: alg.rnd(rng) for t, *_ in log}
        E = alg.Eval(None, lambda t: dv.get(t.id) if t.op == "sym" else leaf(t))
        used = set()
        for (re, im), t, z in zip(got, (v["t0"], v["t1"]), ("z0", "z1")):
            x = E.ev(re)
            d = [e for e in log if dv[e[0].id] == x]
            if not d or d[0][0].id in used:
                raise Refuted("%s: %s is not one of the drawn integers" % (nm, z))
            used.add(d[0][0].id)
            if E.ev(im) != 0:
                raise Refuted("%s: imaginary part of %s is not zero" % (nm, z))
            for val, w, what in ((d[0][1], reim(t[0])[0], "mean"), (d[0][2], reim(tree[0][0])[0], "deviation"), (d[0][3], sv, "minimal deviation")):
                if E.ev(val) != w:
                    raise Refuted("%s: %s of the draw of %s" % (nm, what, z))
            acc.ok("identity-testing", 5)
    return go


def u_whole(mod, n):
    """fallback: the whole recursion, draws answered by the integer sampler's contract"""
    H = n.bit_length() - 1

    def go(acc):
        log = []
        X, S = Exec(mod), State()
        a, v, tree, smin, sv, leaf = prepare(X, S, n, H, "w%d" % n)
        X.contracts = comp([draw_contract(None, a[6], log)])
        X.run(mod.func("@w_ffs_%d_0" % H), a, S)
        nm = "ff_sampling<%d, 0, %d>" % (n, H)
        got = [alg.ldc(X, S, p, n) for p in a[4:6]]
        acc.take(X); discharge(acc, X)
        if len(log) != 2 * n:
            raise Refuted("%s: %d integers drawn, specified %d" % (nm, len(log), 2 * n))
        pos = {t.id: i for i, (t, *_) in enumerate(log)}
        E = None

        def lf(t):
            i = pos.get(t.id)
            if i is None:
                return leaf(t)
            mu, sp, sm = [E.ev(x) for x in log[i][1:]]
            return uf((i // 2, mu, sp, sm), 1)[0]
        E = alg.Eval(None, lf)
        for i, (t, *_) in enumerate(log):      # in order, so that no draw recurses into the earlier ones
            E.ev(tm.mk("ofbv", tm.F, t, "s"))
        c = iter(range(n))

        def call(m, x, y, t):
            if m > 1:
                return level(m.bit_length() - 1, x, y, t, call)
            i = next(c)
            s = reim(t[0][0])[0]
            z = [uf((i, reim(w[0])[0], s, sv), 1)[0] for w in (x, y)]
            return [(z[0], z[0])], [(z[1], z[1])]
        want = call(n, v["t0"], v["t1"], tree)
        for g, w, z in zip(got, want, ("z0", "z1")):
            alg.check_vec(acc, E, g, w, "%s: %s" % (nm, z))
    return go


def units(mod):
    us = []
    for n in (1024, 512):
        H = n.bit_length() - 1
        l = [U("ff_sampling_%d_%d" % (H, j), "ffsampling::ff_sampling<%d, %d, %d>" % (n >> j, j, H), u_node(mod, n >> j, j, H)) for j in range(H)]
        l.append(U("ff_sampling_%d_leaf" % H, "ffsampling::ff_sampling<1, %d, %d>" % (H, H), u_leaf(mod, H)))
        us.append(U("ff_sampling_%d" % H, "ffsampling::ff_sampling<%d, *, %d>, contract by contract" % (n, H), either(l, u_whole(mod, n))))
    return us
