"""Real-arithmetic semantics of floating-point code by polynomial identity testing.

Every double is read as a real number; the identities claimed are identities of
rational functions over Q(zeta), zeta a primitive 2048-th root of unity.  They
are evaluated at random points of GF(P), P = 1 (mod 4096): the ring map sends
zeta to a primitive 2048-th root of GF(P).  Two different expressions of degree
d agree at a random point with probability at most d/P (P ~ 2^127).

Constants: a double that is within 2^-51 of a cosine/sine of a multiple of
pi/1024 (other than 0, +-1/2, +-1, which are exact) stands for that algebraic
number ("root table within rounding of the true roots"); one within half an ulp
of c/12289 or c/144.. stands for that quotient; every other constant is the
dyadic rational it is."""
import random, math
from fractions import Fraction
import term as tm
from term import T, F, Z
from sym import Ptr
from check import Refuted, Undecided

P = 170141183460469231731687303715883671553
assert P % 4096 == 1
Q = 12289


def _root():
    g = 2
    while True:
        r = pow(g, (P - 1) // 4096, P)
        if pow(r, 2048, P) == P - 1:
            return r
        g += 1


R4096 = _root()
ZETA = R4096 * R4096 % P         # e^{i pi/1024}
I = pow(ZETA, 512, P)
assert I * I % P == P - 1
HALF = (P + 1) // 2
INV2I = pow(2 * I, P - 2, P)


def inv(a):
    return pow(a, P - 2, P)


def brv(i, b):
    return int(bin(i)[2:].zfill(b)[::-1], 2) if b else 0


_T = None


def trig(x):
    """element of GF(P) for a constant within 2^-51 of a cosine of k*pi/1024, else None"""
    global _T
    if _T is None:
        _T = []
        for k in range(0, 1025):
            z = pow(ZETA, k, P)
            _T.append((math.cos(math.pi * k / 1024), (z + inv(z)) * HALF % P))
        _T.sort()
    import bisect
    i = bisect.bisect_left(_T, (x, 0))
    for j in (i - 1, i, i + 1):
        if 0 <= j < len(_T) and abs(Fraction(_T[j][0]) - Fraction(x)) <= Fraction(1, 1 << 51):
            return _T[j][1]
    return None


_cc = {}
NAMED = []      # (rational value, element of GF(P)): constants known by more than their double


def const(x):
    x = float(x)
    r = _cc.get(x)
    if r is None:
        if x != x or abs(x) == math.inf:
            raise Undecided("constant %r has no real value" % x)
        f = Fraction(x)
        r = None
        if f.numerator.bit_length() > 24:
            for v, e in NAMED:
                if abs(f - v) <= abs(v) / (1 << 51):
                    r = e
            if r is None and abs(x) < 1.000001:
                r = trig(x)
            if r is None:
                for d in (Q, Q * Q, 512 * Q, 1024 * Q):
                    c = round(f * d)
                    if c and abs(c) <= 1 << 20 and float(Fraction(c, d)) == x:
                        r = c * inv(d) % P
                        break
        if r is None:
            r = f.numerator * inv(f.denominator) % P
        _cc[x] = r
    return r


# ------------------------------------------------- vectors of complex values
# a complex value is a pair (u, v) = (re + I im, re - I im)
def uv(re, im):
    return ((re + I * im) % P, (re - I * im) % P)


def reim(w):
    return ((w[0] + w[1]) * HALF % P, (w[0] - w[1]) * INV2I % P)


_pw = {}


def powers(k):
    """powers of e^{i pi/2^k}"""
    if k not in _pw:
        z = pow(R4096, 1 << (11 - k), P)
        l = [1]
        for i in range((2 << k) - 1):
            l.append(l[-1] * z % P)
        _pw[k] = l
    return _pw[k]


def _dft(k, a, sign):
    """values at z^(sign*(2*brv(j)+1)), z = e^{i pi/2^k}: recursive definition, O(n log n)"""
    n = 1 << k
    pw = powers(k)
    # natural order: A(e) for odd exponents e by splitting into even and odd parts

    def go(c, kk):
        # values at w^(2j+1), j < len(c), w = e^{i pi/len}
        m = len(c)
        if m == 1:
            return c
        E, O = go(c[0::2], kk - 1), go(c[1::2], kk - 1)
        pk = powers(kk)
        h = m // 2
        r = [0] * m
        for j in range(m):
            e = (sign * (2 * j + 1)) % (2 * m)
            r[j] = (E[j % h] + pk[e] * O[j % h]) % P
        return r
    v = go(list(a), k)
    return [v[brv(j, k)] for j in range(n)]


def _idft(k, a, sign):
    n = 1 << k
    v = [0] * n
    for j in range(n):
        v[brv(j, k)] = a[j]

    def go(v, kk):
        m = len(v)
        if m == 1:
            return v
        h = m // 2
        pk = powers(kk)
        E, O = [0] * h, [0] * h
        for j in range(h):
            e = (sign * (2 * j + 1)) % (2 * m)
            E[j] = (v[j] + v[j + h]) * HALF % P
            O[j] = (v[j] - v[j + h]) * HALF % P * pk[(-e) % (2 * m)] % P
        c = [0] * m
        c[0::2], c[1::2] = go(E, kk - 1), go(O, kk - 1)
        return c
    return go(v, k)


def fft(k, w):
    """w: list of (u, v)"""
    u = _dft(k, [x[0] for x in w], 1)
    v = _dft(k, [x[1] for x in w], -1)
    return list(zip(u, v))


def ifft(k, w):
    u = _idft(k, [x[0] for x in w], 1)
    v = _idft(k, [x[1] for x in w], -1)
    return list(zip(u, v))


def cmul(a, b): return (a[0] * b[0] % P, a[1] * b[1] % P)
def cadd(a, b): return ((a[0] + b[0]) % P, (a[1] + b[1]) % P)
def csub(a, b): return ((a[0] - b[0]) % P, (a[1] - b[1]) % P)
def cdiv(a, b): return (a[0] * inv(b[0]) % P, a[1] * inv(b[1]) % P)
def conj(a): return (a[1], a[0])
def cscale(a, c): return (a[0] * c % P, a[1] * c % P)


def split(k, w):
    c = ifft(k, w)
    return fft(k - 1, c[0::2]), fft(k - 1, c[1::2])


def merge(k, w0, w1):
    a, b = ifft(k - 1, w0), ifft(k - 1, w1)
    c = [None] * (1 << k)
    c[0::2], c[1::2] = a, b
    return fft(k, c)


# ------------------------------------------------- contracts of transforms
def ldc(X, S, p, n, off=0):
    return [(X.load(S, Ptr(p.o, tm.add(64, p.off, off + 16 * i)), 8, "d"),
             X.load(S, Ptr(p.o, tm.add(64, p.off, off + 16 * i + 8)), 8, "d")) for i in range(n)]


def stc(X, S, p, vals):
    for i, (a, b) in enumerate(vals):
        X.store(S, Ptr(p.o, tm.add(64, p.off, 16 * i)), 8, a)
        X.store(S, Ptr(p.o, tm.add(64, p.off, 16 * i + 8)), 8, b)


class Calls:
    """calls answered by contract: outputs are opaque terms evaluated from the
    recorded inputs by the function the contract names"""

    def __init__(s):
        s.c = []

    def new(s, X, S, f, ins, outs):
        """f: list of values -> list of values (elements of GF(P)), ins: F/Z terms, outs: [ptr, n complex]"""
        cid = len(s.c)
        s.c.append((f, ins))
        j = 0
        for p, n in outs:
            stc(X, S, p, [(tm.mk("fxf", F, cid, j + 2 * i), tm.mk("fxf", F, cid, j + 2 * i + 1)) for i in range(n)])
            j += 2 * n
        return cid

    def vec(s, f, name):
        """contract of in-place/out-of-place maps on complex vectors"""
        def g(vals):
            n = len(vals) // 2
            r = f([uv(vals[2 * i], vals[2 * i + 1]) for i in range(n)])
            return [y for w in r for y in reim(w)]
        return g

    def inplace(s, f):
        def h(X, S, a):
            p = a[0]
            n = h.n
            X.obj(S, p, "transform argument")
            ins = [y for x in ldc(X, S, p, n) for y in x]
            s.new(X, S, s.vec(f, ""), ins, [(p, n)])
        return h

    def contracts(s, ks=range(1, 11)):
        r = []
        for k in ks:
            for nm, f in (("fft", fft), ("ifft", ifft)):
                h = s.inplace(lambda w, f=f, k=k: f(k, w))
                h.n = 1 << k
                r.append((r"^void fft::%s<%d(ul)?>\(" % (nm, k), h))
        return r


class Eval:
    """evaluation of real (F), integer (Z) and exact bit-vector terms"""

    def __init__(s, calls, leaf, seed=1, nan_false=True):
        s.calls, s.leaf = calls, leaf
        s.v = {}
        s.cv = {}
        s.rng = random.Random("alg%d" % seed)
        s.opq = {}
        s.integers = set()      # values known to be integers
        s.assumed = set()

    def call(s, cid):
        r = s.cv.get(cid)
        if r is None:
            f, ins = s.calls.c[cid]
            r = s.cv[cid] = f([s.ev(x) for x in ins])
        return r

    def nearest(s, v):
        """round to nearest of a value, when it is known to be an integer"""
        return v if v in s.integers else None

    def opaque(s, op, args):
        if op in ("round", "rint", "nearbyint", "roundeven") and args[0] in s.integers:
            return args[0]
        if op == "floor" and (args[0] - HALF) % P in s.integers:
            return (args[0] - HALF) % P
        if op == "ceil" and (args[0] + HALF) % P in s.integers:
            return (args[0] + HALF) % P
        k = (op,) + tuple(args)
        r = s.opq.get(k)
        if r is None:
            r = s.opq[k] = s.rng.randrange(1, P)
        return r

    def ev(s, t):
        if isinstance(t, float):
            return const(t)
        if t.__class__ is int:
            return t % P
        st = [t]
        V = s.v
        while st:
            x = st[-1]
            if x.id in V:
                st.pop()
                continue
            r = s.leaf(x)
            if r is not None:
                V[x.id] = r % P
                st.pop()
                continue
            op = x.op
            if op == "fxf":
                r = s.call(x.a[0])[x.a[1]]
                V[x.id] = r
                st.pop()
                continue
            if op == "itofp":
                y = x.a[0]
                V[x.id] = y if y.__class__ is int else s.bv(y, x.a[1] == "s")
                st.pop()
                continue
            need = [y for y in x.a if y.__class__ is T and y.id not in V]
            if x.w == F or x.w == Z:
                if op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "sqrt", "zadd", "zsub", "zmul", "zneg", "ofbv", "zofd",
                          "round", "floor", "ceil", "trunc", "rint", "nearbyint", "fabs", "roundeven", "zop", "fma", "fun"):
                    if op == "ofbv":
                        V[x.id] = s.bv(x.a[0], x.a[1] == "s")
                        st.pop()
                        continue
                    if need:
                        st += need
                        continue
                    a = [V[y.id] if y.__class__ is T else const(y) if isinstance(y, float) else y for y in x.a]
                    if op in ("fadd", "zadd"): r = (a[0] + a[1]) % P
                    elif op in ("fsub", "zsub"): r = (a[0] - a[1]) % P
                    elif op in ("fmul", "zmul"): r = a[0] * a[1] % P
                    elif op in ("fneg", "zneg"): r = -a[0] % P
                    elif op == "fma": r = (a[0] * a[1] + a[2]) % P
                    elif op == "fdiv":
                        if a[1] == 0:
                            raise Undecided("division by an expression that vanishes identically: " + tm.show(x, 4))
                        r = a[0] * inv(a[1]) % P
                    else:
                        r = s.opaque(op, a)
                elif op == "ite":
                    c = x.a[0]
                    r = s.branch(c)
                    if r is None:
                        raise Undecided("value depends on a comparison: " + tm.show(x, 4))
                    y = x.a[1] if r else x.a[2]
                    if y.__class__ is T and y.id not in V:
                        st.append(y)
                        continue
                    r = V[y.id] if y.__class__ is T else const(y) if isinstance(y, float) else y % P
            if r is None:
                raise Undecided("not a real-arithmetic expression: " + tm.show(x, 4))
            V[x.id] = r
            st.pop()
        return V[t.id]

    def branch(s, c):
        return None

    def bv(s, t, signed):
        """exact integer value of a bit-vector term (no wrap by its interval)"""
        if t.__class__ is int:
            return t
        r = s.leaf(t)
        if r is not None:
            return r
        w = t.w
        lo, hi = (t.slo, t.shi) if signed else (t.lo, t.hi)
        op = t.op
        if op == "zext":
            return s.bv(t.a[0], False)
        if op == "sext":
            return s.bv(t.a[0], True)
        if op in ("fptosi", "fptoui"):
            return s.opaque("trunc", [s.ev(t.a[0])]) if t.a[0].op not in ("round", "floor", "ceil", "rint", "nearbyint", "roundeven", "itofp") else s.ev(t.a[0])
        if op == "trunc" and t.a[0].__class__ is T and t.a[0].op in ("fptosi", "fptoui"):
            # conversion of a real value that fits (out of range is undefined / excluded: rounding error class)
            return s.bv(t.a[0], signed)
        if op in ("add", "sub", "mul"):
            def rng(y):
                if y.__class__ is int:
                    y = tm.sgn(y, w) if signed else y
                    return y, y
                return (y.slo, y.shi) if signed else (y.lo, y.hi)
            (al, ah), (bl, bh) = rng(t.a[0]), rng(t.a[1])
            if op == "add": l, h = al + bl, ah + bh
            elif op == "sub": l, h = al - bh, ah - bl
            else:
                z = (al * bl, al * bh, ah * bl, ah * bh)
                l, h = min(z), max(z)
            L, H = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            if l < L or h > H:
                raise Undecided("integer arithmetic may wrap: " + tm.show(t, 3))
            k = lambda y: (tm.sgn(y, w) if signed else y) if y.__class__ is int else s.bv(y, signed)
            a, b = k(t.a[0]), k(t.a[1])
            return (a + b if op == "add" else a - b if op == "sub" else a * b) % P
        raise Undecided("integer expression outside the algebra: " + tm.show(t, 4))


def rnd(rng):
    return rng.randrange(1, P)


def crnd(rng, n):
    return [(rnd(rng), rnd(rng)) for _ in range(n)]


def cleaf(vals):
    """leaf function: fsym name[2i], name[2i+1] = re, im of vals[name][i]"""
    d = {}
    for nm, l in vals.items():
        for i, w in enumerate(l):
            a, b = reim(w)
            d["%s[%d]" % (nm, 2 * i)] = a
            d["%s[%d]" % (nm, 2 * i + 1)] = b

    def f(t):
        if t.op == "fsym" or t.op == "sym":
            return d.get(t.a[0])
        return None
    return f


def check_vec(acc, E, got, want, what, hint=None):
    """got: list of (re, im) terms, want: list of (u, v)"""
    for i, ((a, b), w) in enumerate(zip(got, want)):
        re, im = reim(w)
        for v, x, nm in ((a, re, "real"), (b, im, "imaginary")):
            if E.ev(v) != x:
                raise Refuted("%s: %s part of element %d differs from its specification" % (what, nm, i), hint)
    acc.ok("identity-testing", 2 * len(got))
