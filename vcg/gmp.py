"""GMP integers as mathematical integers.

An mpz object is a 16-byte cell holding a ghost integer term.  The contract of
each GMP function used is its documented effect on those integers; gmpxx's
wrapper code (expression templates, constructors, assignments) is executed as
compiled.  Integer polynomial identities are decided by evaluation at random
points of GF(P) (alg.P, 127 bits); comparisons are opaque but consistent."""
import random
import term as tm
from term import T, F, Z
from sym import Ptr, State, merge_val
from ir import Unsupported
from check import Undecided, Refuted
import alg
from alg import P

MPZ = 16


def zc(v):
    return tm.mk("zconst", Z, v)


def ld(X, S, p, what="operand"):
    o = X.obj(S, p, "mpz " + what)
    X.bounds(S, o, p.off, MPZ, "mpz " + what)
    if p.off.__class__ is not int:
        raise Unsupported("mpz at a symbolic index")
    c = o.cells.get(p.off)
    if c is None and o.lazy is not None:
        c = o.lazy(p.off)
    if c is None or c[0] != MPZ or c[1].__class__ is not T or c[1].w != Z:
        X.oblige("mpz-initialised", 0, S, "%s of %s" % (what, o.name))
    return c[1]


def st(X, S, p, v):
    X.store(S, p, MPZ, v)


def drop(X, S, p):
    ld(X, S, p, "clear")
    o = S.w(p.o)
    o.cells.pop(p.off, None)


def cmpsym(a, b):
    """three-way comparison of integers; only the sign is known"""
    if a is b:
        return 0
    if a.op == "zconst" and b.op == "zconst":
        return (-1 if a.a[0] < b.a[0] else a.a[0] > b.a[0]) & 0xffffffff if a.a[0] != b.a[0] else 0
    if a.op == "zconst" or (b.op != "zconst" and b.id < a.id):
        t = cmpsym(b, a)
        return tm.neg(32, t) if hasattr(tm, "neg") else tm.sub(32, 0, t)
    REG.setdefault(a.id, {})[b.a[0] if b.op == "zconst" else b] = n = tm.sym("zcmp:%d:%d" % (a.id, b.id), 32, -1, 1)
    CMP[n.id] = (a, b)
    return n


CMP = {}        # comparison symbol id -> its operands
REG = {}        # a.id -> {constant or term: comparison symbol}
SI = {}         # id of get_si result -> (integer term, signed)


def num(v, signed=True, w=64):
    """integer of a machine word"""
    if v.__class__ is int:
        return zc(tm.sgn(v, w) if signed else v)
    if v.__class__ is not T:
        raise Unsupported("integer operand")
    x = SI.get(v.id)
    return tm.mk("ofbv", Z, v, "s" if signed else "u")


def neg(a):
    return tm.mk("zneg", Z, a)


def b2(op):
    return lambda X, S, a: st(X, S, a[0], tm.mk(op, Z, ld(X, S, a[1]), ld(X, S, a[2])))


def b2w(op, signed, flip=False):
    def f(X, S, a):
        x, y = ld(X, S, a[1]), num(a[2], signed)
        st(X, S, a[0], tm.mk(op, Z, x, y))
    return f


def shift_count(X, S, n):
    """a shift count that has wrapped around would exhaust memory"""
    if n.__class__ is int:
        if n >= 1 << 40:
            X.oblige("shift-count", 0, S)
    else:
        g = tm.ult(64, n, 1 << 40)
        if not any(p is g for p in S.pc):
            X.oblige("shift-count", g, S)


def shift(op):
    def f(X, S, a):
        shift_count(X, S, a[2])
        n = a[2]
        x = ld(X, S, a[1])
        if op == "mul":
            t = tm.mk("zmul", Z, x, zc(1 << n) if n.__class__ is int and n < 4096 else tm.mk("zpow2", Z, n))
        else:
            t = x if n.__class__ is int and n == 0 else tm.mk(op, Z, x, n)
        st(X, S, a[0], t)
    return f


def get_si(signed):
    def f(X, S, a):
        z = ld(X, S, a[0])
        if z.op == "zconst":
            return z.a[0] & ((1 << 64) - 1)
        if z.op == "ofbv" and z.a[1] == ("s" if signed else "u") and z.a[0].w == 64:
            return z.a[0]
        t = tm.sym("zget%s:%d" % ("s" if signed else "u", z.id), 64)
        SI[t.id] = (z, signed)
        return t
    return f


def q_r(kind, want):
    def f(X, S, a):
        n, d = ld(X, S, a[-2]), ld(X, S, a[-1])
        X.oblige("division-by-zero", tm.not_(tm.eq(32, cmpsym(d, zc(0)), 0)) if True else 1, S)
        q = tm.mk("z%sdiv" % kind, Z, n, d)
        r = tm.mk("zsub", Z, n, tm.mk("zmul", Z, q, d))
        if want == "qr":
            st(X, S, a[0], q)
            st(X, S, a[1], r)
        else:
            st(X, S, a[0], q if want == "q" else r)
    return f


def gcdext(X, S, a):
    x, y = ld(X, S, a[3]), ld(X, S, a[4])
    s, t = tm.mk("zgcds", Z, x, y), tm.mk("zgcdt", Z, x, y)
    st(X, S, a[0], tm.mk("zadd", Z, tm.mk("zmul", Z, x, s), tm.mk("zmul", Z, y, t)))
    for p, v in ((a[1], s), (a[2], t)):
        if p.__class__ is Ptr:
            st(X, S, p, v)


def swap(X, S, a):
    x, y = ld(X, S, a[0]), ld(X, S, a[1])
    st(X, S, a[0], y)
    st(X, S, a[1], x)


def acc(op):
    def f(X, S, a):
        st(X, S, a[0], tm.mk(op, Z, ld(X, S, a[0]), tm.mk("zmul", Z, ld(X, S, a[1]), ld(X, S, a[2]))))
    return f


def get_d(X, S, a):
    z = ld(X, S, a[0])
    if z.op == "zconst" and abs(z.a[0]) < 1 << 53:
        return float(z.a[0])
    return tm.mk("zget_d", F, z)


def set_d(X, S, a):
    v = a[1]
    if v.__class__ is float:
        st(X, S, a[0], zc(int(v)))
    else:
        st(X, S, a[0], tm.mk("zofd", Z, v))


H = {
    "init": lambda X, S, a: st(X, S, a[0], zc(0)),
    "init2": lambda X, S, a: st(X, S, a[0], zc(0)),
    "init_set": lambda X, S, a: st(X, S, a[0], ld(X, S, a[1])),
    "set": lambda X, S, a: st(X, S, a[0], ld(X, S, a[1])),
    "init_set_si": lambda X, S, a: st(X, S, a[0], num(a[1])),
    "init_set_ui": lambda X, S, a: st(X, S, a[0], num(a[1], False)),
    "set_si": lambda X, S, a: st(X, S, a[0], num(a[1])),
    "set_ui": lambda X, S, a: st(X, S, a[0], num(a[1], False)),
    "init_set_d": set_d, "set_d": set_d,
    "clear": lambda X, S, a: drop(X, S, a[0]),
    "realloc2": lambda X, S, a: None,
    "swap": swap,
    "add": b2("zadd"), "sub": b2("zsub"), "mul": b2("zmul"),
    "add_ui": b2w("zadd", False), "sub_ui": b2w("zsub", False), "mul_ui": b2w("zmul", False), "mul_si": b2w("zmul", True),
    "ui_sub": lambda X, S, a: st(X, S, a[0], tm.mk("zsub", Z, num(a[1], False), ld(X, S, a[2]))),
    "addmul": acc("zadd"), "submul": acc("zsub"),
    "neg": lambda X, S, a: st(X, S, a[0], neg(ld(X, S, a[1]))),
    "abs": lambda X, S, a: st(X, S, a[0], tm.mk("zabs", Z, ld(X, S, a[1]))),
    "mul_2exp": shift("mul"), "fdiv_q_2exp": shift("zfdiv2"), "tdiv_q_2exp": shift("ztdiv2"),
    "tdiv_q": q_r("t", "q"), "tdiv_r": q_r("t", "r"), "tdiv_qr": q_r("t", "qr"),
    "fdiv_q": q_r("f", "q"), "fdiv_r": q_r("f", "r"), "fdiv_qr": q_r("f", "qr"),
    "gcdext": gcdext,
    "cmp": lambda X, S, a: cmpsym(ld(X, S, a[0]), ld(X, S, a[1])),
    "cmp_si": lambda X, S, a: cmpsym(ld(X, S, a[0]), num(a[1])),
    "cmp_ui": lambda X, S, a: cmpsym(ld(X, S, a[0]), num(a[1], False)),
    "cmpabs": lambda X, S, a: cmpsym(tm.mk("zabs", Z, ld(X, S, a[0])), tm.mk("zabs", Z, ld(X, S, a[1]))),
    "get_d": get_d, "get_si": get_si(True), "get_ui": get_si(False),
    "sizeinbase": lambda X, S, a: tm.sym("zsize:%d:%s" % (ld(X, S, a[0]).id, a[1]), 64, 1, 1 << 30),
    "fits_slong_p": lambda X, S, a: tm.sym("zfits:%d" % ld(X, S, a[0]).id, 32, 0, 1),
}


def handler(n):
    return H.get(n)


# ------------------------------------------------------------ evaluation
class Eval(alg.Eval):
    """integer polynomial identities; machine words and quotients are arbitrary integers, cases by Cases"""

    def __init__(s, calls, leaf, seed=1):
        alg.Eval.__init__(s, calls, lambda t: s._leaf(t, leaf), seed)
        s.word = {}
        s.dec = {}
        s.over, s.partial = {}, False
        s.exact_words = False

    def _leaf(s, t, leaf):
        r = s.over.get(t.a[0]) if s.over and t.op == "zsym" else None
        if r is None:
            r = leaf(t)
        if r is not None:
            return r
        op = t.op
        if op == "zconst":
            return t.a[0] % P
        if op == "ofbv":
            return s.wordval(t.a[0], t.a[1])
        if op in ("zpow2", "zfdiv2", "ztdiv2", "ztdiv", "zfdiv", "zabs", "zget_d", "zofd", "zgcds", "zgcdt"):
            return s.opaque(op, [s.ev(x) if x.__class__ is T and x.w == Z else x if x.__class__ is not T else ("id", x.id) for x in t.a])
        return None

    def wordval(s, t, sg):
        if s.exact_words:
            return s.bv(t, sg == "s")
        if t.__class__ is T and t.op in ("sext", "zext"):
            return s.wordval(t.a[0], "s" if t.op == "sext" else "u")
        k = t.id if t.__class__ is T else ("c", t)
        if k not in s.word:
            s.word[k] = alg.rnd(s.rng)
        return s.word[k]

    def branch(s, c):
        """a case distinction is resolved by the case under consideration, or opens one"""
        if c.op == "not":
            return not s.branch(c.a[0])
        k = s.dec.get(c.id)
        if k is None:
            if c.op in ("and", "or"):
                sub = tm.subterms([c])
                if len(sub) < 40 and any(t.op == "sym" and t.id in CMP for t in sub):
                    a = s.branch(c.a[0])
                    return a and s.branch(c.a[1]) if c.op == "and" else a or s.branch(c.a[1])
            raise Case(c)
        return k


class Case(Exception):
    def __init__(s, c):
        s.c = c


class Cases:
    """evaluation under every consistent resolution of the case distinctions met"""

    def __init__(s, S, mk, feasible, limit=4000):
        s.S, s.mk, s.feasible, s.limit = S, mk, feasible, limit
        s.E, s.n, s.memo = {}, 0, {}

    def ok(s, D, c, v):
        t = c if v else tm.not_(c)
        k = (frozenset(D), t.id)
        if k not in s.memo:
            s.memo[k] = s.feasible(s.S, list(D.values()), t)
        return s.memo[k]

    def equalities(s, E, D):
        """inputs that a case fixes to a constant"""
        for x in D.values():
            eq = [t for t in tm.subterms([x]) if t.op == "sym" and t.id in CMP]
            for t in eq:
                z, k = CMP[t.id]
                if s.feasible(s.S, list(D.values()), tm.not_(tm.eq(32, t, 0))):
                    continue
                if z.op == "zsym" and k.op == "zconst":
                    E.over[z.a[0]] = k.a[0] % P
                else:
                    E.partial = True

    def each(s, go):
        """go(E) under every case"""
        st = [{}]
        while st:
            D = st.pop()
            key = frozenset(D)
            E = s.E.get(key)
            if E is None:
                s.n += 1
                if s.n > s.limit:
                    raise Undecided("too many case distinctions")
                E = s.E[key] = s.mk()
                E.dec = {k if k > 0 else -k: k > 0 for k in D}
                s.equalities(E, D)
            try:
                try:
                    go(E)
                except Refuted as e:
                    if E.partial:
                        raise Undecided("%s (in a case of measure zero)" % e)
                    raise
            except Case as e:
                for v in (False, True):
                    if s.ok(D, e.c, v):
                        D2 = dict(D)
                        D2[e.c.id if v else -e.c.id] = e.c if v else tm.not_(e.c)
                        st.append(D2)


# ------------------------------------------------------------ arrays
def zin(X, S, name, n, ro=True):
    """array of n integers name[i]"""
    return X.array_input(S, name, n, MPZ, mk=lambda i: tm.mk("zsym", Z, "%s[%d]" % (name, i)), ro=ro)


def at(p, i):
    return Ptr(p.o, tm.add(64, p.off, MPZ * i))


def zld(X, S, p, n):
    return [ld(X, S, at(p, i)) for i in range(n)]


def new(calls, X, S, f, ins, outs):
    """integer outputs answered by contract"""
    cid = len(calls.c)
    calls.c.append((f, ins))
    j = 0
    for p, n in outs:
        X.obj(S, p, "output")
        for i in range(n):
            st(X, S, at(p, i), tm.mk("fxf", Z, cid, j + i))
        j += n
    return cid


def zleaf(vals):
    d = {"%s[%d]" % (nm, i): x for nm, l in vals.items() for i, x in enumerate(l)}
    return lambda t: d.get(t.a[0]) if t.op in ("zsym", "sym") else None


# ------------------------------------------------------------ ring operations over GF(P)
def lg(n):
    return n.bit_length() - 1


def ntt(a): return alg._dft(lg(len(a)), a, 1)
def intt(a): return alg._idft(lg(len(a)), a, 1)


def nega(a, b):
    """product modulo x^n + 1"""
    return intt([x * y % P for x, y in zip(ntt(a), ntt(b))])


def prod(a, b):
    """plain product, 2n coefficients"""
    n = len(a)
    return nega(list(a) + [0] * n, list(b) + [0] * n)


def rdiv(a, b):
    return intt([x * alg.inv(y) % P for x, y in zip(ntt(a), ntt(b))])


def vadd(a, b): return [(x + y) % P for x, y in zip(a, b)]
def vsub(a, b): return [(x - y) % P for x, y in zip(a, b)]


def rv(rng, n):
    return [alg.rnd(rng) for _ in range(n)]


def norm(f):
    e, o = f[0::2], f[1::2]
    oo = nega(o, o)
    return vsub(nega(e, e), [-oo[-1] % P] + oo[:-1])


def lift(f):
    r = [0] * (2 * len(f))
    r[0::2] = f
    return r


def conjg(f):
    return [x if i % 2 == 0 else -x % P for i, x in enumerate(f)]
