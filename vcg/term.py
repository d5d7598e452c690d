"""Hash-consed terms: bit-vectors (w>0, with unsigned and signed intervals),
doubles (w=F), mathematical integers (w=Z), arrays (w=A), complex (w=C).

Concrete bit-vectors are plain Python ints (unsigned canonical), concrete
doubles are Python floats."""
import math, struct

F, Z, A, C = -1, -2, -3, -4


class T:
    __slots__ = ("op", "a", "w", "lo", "hi", "slo", "shi", "id")

    def __repr__(s):
        return show(s)


_tab = {}
_n = [0]


def mk(op, w, *a):
    k = (op, w) + a
    t = _tab.get(k)
    if t is None:
        t = T.__new__(T)
        t.op, t.w, t.a = op, w, a
        if w > 0:
            t.lo, t.hi = 0, (1 << w) - 1
            t.slo, t.shi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        _n[0] += 1
        t.id = _n[0]
        _tab[k] = t
    return t


def reset():
    _tab.clear()
    _segc.clear()


def show(t, d=6):
    if not isinstance(t, T):
        return repr(t)
    if t.op == "sym":
        return str(t.a[0])
    if d == 0:
        return "…"
    return "%s%s(%s)" % (t.op, t.w if t.w > 0 else "", ",".join(show(x, d - 1) for x in t.a))


def mkr(op, w, lo, hi, *a):
    """unsigned range known"""
    t = mk(op, w, *a)
    refine(t, lo, hi)
    return t


def refine(t, lo, hi):
    if lo > t.lo:
        t.lo = lo
    if hi < t.hi:
        t.hi = hi
    h = 1 << (t.w - 1)
    if t.hi < h:
        if t.lo > t.slo: t.slo = t.lo
        if t.hi < t.shi: t.shi = t.hi
    elif t.lo >= h:
        if t.lo - 2 * h > t.slo: t.slo = t.lo - 2 * h
        if t.hi - 2 * h < t.shi: t.shi = t.hi - 2 * h
    if t.slo >= 0:
        if t.slo > t.lo: t.lo = t.slo
        if t.shi < t.hi: t.hi = t.shi
    return t


def srefine(t, slo, shi):
    if slo > t.slo: t.slo = slo
    if shi < t.shi: t.shi = shi
    if t.slo >= 0:
        if t.slo > t.lo: t.lo = t.slo
        if t.shi < t.hi: t.hi = t.shi
    elif t.shi < 0:
        m = 1 << t.w
        if t.slo + m > t.lo: t.lo = t.slo + m
        if t.shi + m < t.hi: t.hi = t.shi + m
    return t


def sym(name, w, lo=None, hi=None):
    t = mk("sym", w, name)
    if lo is not None:
        if lo < 0:
            srefine(t, lo, hi)
        else:
            refine(t, lo, hi)
    return t


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def rng(x, w):
    if x.__class__ is int:
        return x, x
    return x.lo, x.hi


def srng(x, w):
    if x.__class__ is int:
        v = sgn(x, w)
        return v, v
    return x.slo, x.shi


def _fit(t, lo, hi, slo, shi):
    w = t.w
    M = 1 << w
    if lo is not None:
        if lo >= 0 and hi < M:
            refine(t, lo, hi)
        elif lo >= M and hi < 2 * M:
            refine(t, lo - M, hi - M)
        elif lo < 0 and hi < 0 and lo >= -M:
            refine(t, lo + M, hi + M)
    if slo is not None:
        H = M >> 1
        if slo >= -H and shi < H:
            srefine(t, slo, shi)
    return t


def add(w, a, b):
    M = (1 << w) - 1
    if a.__class__ is int:
        if b.__class__ is int:
            return (a + b) & M
        a, b = b, a
    if b.__class__ is int:
        if b == 0:
            return a
        if a.op == "add" and a.a[1].__class__ is int:
            return add(w, a.a[0], (a.a[1] + b) & M)
    elif a.op == "add" and a.a[1].__class__ is int:
        return add(w, add(w, a.a[0], b), a.a[1])
    elif b.op == "add" and b.a[1].__class__ is int:
        return add(w, add(w, a, b.a[0]), b.a[1])
    elif a.id > b.id:
        a, b = b, a
    if b.__class__ is not int:
        # x + (y - x) -> y
        if b.op == "sub" and b.a[1] is a: return b.a[0]
        if a.op == "sub" and a.a[1] is b: return a.a[0]
    t = mk("add", w, a, b)
    al, ah = rng(a, w); bl, bh = rng(b, w)
    asl, ash = srng(a, w); bsl, bsh = srng(b, w)
    return _fit(t, al + bl, ah + bh, asl + bsl, ash + bsh)


def sub(w, a, b):
    M = (1 << w) - 1
    if b.__class__ is int:
        if a.__class__ is int:
            return (a - b) & M
        return add(w, a, (-b) & M)
    if a is b:
        return 0
    if a.__class__ is not int:
        ab, ac = (a.a if a.op == "add" and a.a[1].__class__ is int else (a, 0))
        bb, bc = (b.a if b.op == "add" and b.a[1].__class__ is int else (b, 0))
        if ab is bb:
            return (ac - bc) & M
        if ac or bc:
            return add(w, sub(w, ab, bb), (ac - bc) & M)
        if a.op == "add":
            if a.a[0] is b: return a.a[1]
            if a.a[1] is b: return a.a[0]
    t = mk("sub", w, a, b)
    al, ah = rng(a, w); bl, bh = rng(b, w)
    asl, ash = srng(a, w); bsl, bsh = srng(b, w)
    return _fit(t, al - bh, ah - bl, asl - bsh, ash - bsl)


def mul(w, a, b):
    M = (1 << w) - 1
    if a.__class__ is int:
        if b.__class__ is int:
            return (a * b) & M
        a, b = b, a
    if b.__class__ is int:
        if b == 0: return 0
        if b == 1: return a
        if a.op == "mul" and a.a[1].__class__ is int:
            return mul(w, a.a[0], (a.a[1] * b) & M)
        # boolean times constant
        if a.op == "zext" and a.a[0].w == 1:
            return ite(a.a[0], b, 0, w)
        if a.op == "ite" and a.a[1].__class__ is int and a.a[2].__class__ is int:
            return ite(a.a[0], (a.a[1] * b) & M, (a.a[2] * b) & M, w)
    elif a.id > b.id:
        a, b = b, a
    t = mk("mul", w, a, b)
    al, ah = rng(a, w); bl, bh = rng(b, w)
    asl, ash = srng(a, w); bsl, bsh = srng(b, w)
    c = (asl * bsl, asl * bsh, ash * bsl, ash * bsh)
    if a is b:
        m = max(asl * asl, ash * ash)
        l0 = 0 if asl <= 0 <= ash else min(asl * asl, ash * ash)
        c = (l0, m)
    return _fit(t, al * bl, ah * bh, min(c), max(c))


def neg(w, a):
    return sub(w, 0, a)


def udiv(w, a, b):
    if a.__class__ is int and b.__class__ is int and b:
        return a // b
    t = mk("udiv", w, a, b)
    al, ah = rng(a, w); bl, bh = rng(b, w)
    if bl > 0:
        refine(t, al // bh, ah // bl)
    return t


def urem(w, a, b):
    if a.__class__ is int and b.__class__ is int and b:
        return a % b
    al, ah = rng(a, w); bl, bh = rng(b, w)
    if ah < bl:
        return a
    t = mk("urem", w, a, b)
    if bl > 0:
        refine(t, 0, min(ah, bh - 1))
    return t


def tdiv(x, y):
    q = abs(x) // abs(y)
    return q if (x >= 0) == (y >= 0) else -q


def sdiv(w, a, b):
    M = (1 << w) - 1
    if a.__class__ is int and b.__class__ is int and b:
        return tdiv(sgn(a, w), sgn(b, w)) & M
    asl, ash = srng(a, w); bsl, bsh = srng(b, w)
    if asl >= 0 and bsl > 0:
        return udiv(w, a, b)
    t = mk("sdiv", w, a, b)
    m = max(abs(asl), abs(ash))
    if m < (1 << (w - 1)):
        if b.__class__ is int and bsl > 0:
            srefine(t, tdiv(asl, bsl), tdiv(ash, bsl))
        else:
            srefine(t, -m, m)
    return t


def srem(w, a, b):
    M = (1 << w) - 1
    if a.__class__ is int and b.__class__ is int and b:
        x, y = sgn(a, w), sgn(b, w)
        return (x - tdiv(x, y) * y) & M
    asl, ash = srng(a, w); bsl, bsh = srng(b, w)
    if asl >= 0 and bsl > 0:
        return urem(w, a, b)
    t = mk("srem", w, a, b)
    m = max(abs(bsl), abs(bsh)) - 1
    if m >= 0:
        lo = max(-m, asl) if asl < 0 else 0
        hi = min(m, ash) if ash > 0 else 0
        srefine(t, lo, hi)
    return t


def shl(w, a, b):
    M = (1 << w) - 1
    if b.__class__ is int:
        if b == 0: return a
        if b >= w: return 0
        if a.__class__ is int:
            return (a << b) & M
        if a.op == "zext" and a.a[0].w == 1:
            return ite(a.a[0], (1 << b) & M, 0, w)
        return mul(w, a, (1 << b) & M)
    t = mk("shl", w, a, b)
    if a.__class__ is int and a == 0:
        return 0
    al, ah = rng(a, w); bl, bh = rng(b, w)
    if bh < w and (ah << bh) <= M:
        refine(t, al << bl, ah << bh)
    return t



# ------------------------------------------------- bit-field normal form
# segs(t): [(dst_lo, n, base, src_lo)] disjoint, the bits of t outside are 0
_segc = {}


def runs(m):
    r, i = [], 0
    while m >> i:
        if (m >> i) & 1:
            j = i
            while (m >> j) & 1: j += 1
            r.append((i, j - i))
            i = j
        else:
            i += 1
    return r


def segs(t, w):
    if t.__class__ is int:
        return [(lo, n, (1 << n) - 1, 0) for lo, n in runs(t)]
    r = _segc.get(t.id)
    if r is not None:
        return r
    r = None
    op = t.op
    if op == "zext":
        r = segs(t.a[0], t.a[0].w)
    elif op == "trunc":
        r = _cut(segs(t.a[0], t.a[0].w), 0, w)
    elif op == "lshr" and t.a[1].__class__ is int:
        r = _cut(segs(t.a[0], w), t.a[1], w)
    elif op == "mul" and t.a[1].__class__ is int and t.a[1] & (t.a[1] - 1) == 0:
        k = t.a[1].bit_length() - 1
        r = [(lo + k, n, b, sl) for lo, n, b, sl in _cut(segs(t.a[0], w), 0, w - k)]
    elif op == "and" and t.a[1].__class__ is int:
        rs = runs(t.a[1])
        if len(rs) <= 4:
            base = segs(t.a[0], w)
            r = []
            for lo, n in rs:
                r += [(l + lo, m, b, sl) for l, m, b, sl in _cut(base, lo, n)]
    elif op == "or":
        x, y = segs(t.a[0], w), segs(t.a[1], w)
        if _disjoint(x, y):
            r = sorted(x + y, key=lambda z: z[0])
    if r is None or len(r) > 24:
        n = t.hi.bit_length()
        r = [(0, n, t, 0)]
    _segc[t.id] = r
    return r


def _cut(sg, lo, n):
    """bits [lo, lo+n) moved down to 0"""
    r = []
    for l, m, b, sl in sg:
        a, e = max(l, lo), min(l + m, lo + n)
        if a < e:
            if b.__class__ is int:
                r.append((a - lo, e - a, (1 << (e - a)) - 1, 0))
            else:
                r.append((a - lo, e - a, b, sl + a - l))
    return r


def _disjoint(x, y):
    z = sorted([(s[0], s[1]) for s in x] + [(s[0], s[1]) for s in y])
    for i in range(len(z) - 1):
        if z[i][0] + z[i][1] > z[i + 1][0]:
            return False
    return True


def rebuild(w, sg):
    sg = sorted(sg, key=lambda z: z[0])
    out, c = [], 0
    for lo, n, b, sl in sg:
        if b.__class__ is int:
            c |= b << lo
            continue
        if out:
            l2, n2, b2, s2 = out[-1]
            if b2 is b and l2 + n2 == lo and s2 + n2 == sl:
                out[-1] = (l2, n2 + n, b2, s2)
                continue
        out.append((lo, n, b, sl))
    r = None
    for lo, n, b, sl in out:
        x, bw = b, b.w
        nb = b.hi.bit_length()
        if sl:
            x = mkr("lshr", bw, b.lo >> sl, b.hi >> sl, b, sl)
        # the piece in width w
        if bw > w:
            y = mk("trunc", w, x)
            _fit(y, x.lo, x.hi, x.slo, x.shi)
            x = y
        elif bw < w:
            x = mkr("zext", w, x.lo, x.hi, x)
        if sl + n < nb and lo + n < w:
            x = mkr("and", w, 0, min((1 << n) - 1, x.hi), x, (1 << n) - 1)
        if lo:
            k = 1 << lo
            y = mk("mul", w, x, k)
            if (x.hi << lo) < (1 << w):
                refine(y, x.lo << lo, x.hi << lo)
            x = y
        if r is None:
            r = x
        else:
            y = mk("or", w, r, x)
            refine(y, max(r.lo, x.lo), min((1 << w) - 1, r.hi + x.hi))
            r = y
    if r is None:
        return c
    if c:
        return mkr("or", w, max(r.lo, c), min((1 << w) - 1, r.hi + c), r, c)
    return r


STRUCT = ("or", "lshr", "zext", "trunc", "and")


def structured(a):
    return a.__class__ is T and (a.op in STRUCT or (a.op == "mul" and a.a[1].__class__ is int and a.a[1] & (a.a[1] - 1) == 0))


def lshr(w, a, b):
    if b.__class__ is int:
        if b == 0: return a
        if b >= w: return 0
        if a.__class__ is int:
            return a >> b
        if a.op == "lshr" and a.a[1].__class__ is int:
            return lshr(w, a.a[0], a.a[1] + b)
        if a.hi >> b == a.lo >> b:
            return a.hi >> b
        if a.op == "ite" and a.a[1].__class__ is int and a.a[2].__class__ is int:
            return ite(a.a[0], a.a[1] >> b, a.a[2] >> b, w)
        if structured(a):
            return rebuild(w, _cut(segs(a, w), b, w))
        return mkr("lshr", w, a.lo >> b, a.hi >> b, a, b)
    if a.__class__ is int and a == 0:
        return 0
    t = mk("lshr", w, a, b)
    al, ah = rng(a, w); bl, bh = rng(b, w)
    refine(t, al >> min(bh, w), ah >> min(bl, w))
    return t


def ashr(w, a, b):
    M = (1 << w) - 1
    if b.__class__ is int and b < w:
        if b == 0: return a
        if a.__class__ is int:
            return (sgn(a, w) >> b) & M
        if a.slo >= 0:
            return lshr(w, a, b)
        t = mk("ashr", w, a, b)
        return srefine(t, a.slo >> b, a.shi >> b)
    if a.__class__ is not int and a.slo >= 0:
        return lshr(w, a, b)
    if a.__class__ is int and sgn(a, w) >= 0:
        return lshr(w, a, b)
    return mk("ashr", w, a, b)


def and_(w, a, b):
    if a.__class__ is int:
        if b.__class__ is int:
            return a & b
        a, b = b, a
    M = (1 << w) - 1
    if b.__class__ is int:
        if b == 0: return 0
        if b == M: return a
        if b & (b + 1) == 0 and a.hi <= b:
            return a
        if a.op == "and" and a.a[1].__class__ is int:
            return and_(w, a.a[0], a.a[1] & b)
        if a.op == "ite" and a.a[1].__class__ is int and a.a[2].__class__ is int:
            return ite(a.a[0], a.a[1] & b, a.a[2] & b, w)
        if structured(a):
            rs = runs(b)
            if len(rs) <= 4:
                base = segs(a, w)
                r = []
                for lo, n in rs:
                    r += [(l + lo, m, x, sl) for l, m, x, sl in _cut(base, lo, n)]
                return rebuild(w, r)
        return mkr("and", w, 0, min(b, a.hi), a, b)
    if a is b: return a
    if w == 1:
        if a is not_(b): return 0
    elif a.op == "zext" and b.op == "zext" and a.a[0].w == 1 and b.a[0].w == 1:
        return zext(w, and_(1, a.a[0], b.a[0]), 1)
    if a.id > b.id:
        a, b = b, a
    return mkr("and", w, 0, min(a.hi, b.hi), a, b)


def or_(w, a, b):
    if a.__class__ is int:
        if b.__class__ is int:
            return a | b
        a, b = b, a
    M = (1 << w) - 1
    if b.__class__ is int:
        if b == 0: return a
        if b == M: return M
    else:
        if a is b: return a
        if w == 1 and a is not_(b): return 1
        if w > 1 and a.op == "zext" and b.op == "zext" and a.a[0].w == 1 and b.a[0].w == 1:
            return zext(w, or_(1, a.a[0], b.a[0]), 1)
        if a.id > b.id:
            a, b = b, a
    if w > 1:
        if a.op == "ite" and a.a[1].__class__ is int and a.a[2].__class__ is int:
            if b.__class__ is int:
                return ite(a.a[0], a.a[1] | b, a.a[2] | b, w)
            if b.op == "ite" and b.a[0] is a.a[0] and b.a[1].__class__ is int and b.a[2].__class__ is int:
                return ite(a.a[0], a.a[1] | b.a[1], a.a[2] | b.a[2], w)
        x, y = segs(a, w), segs(b, w)
        if _disjoint(x, y) and len(x) + len(y) <= 24:
            return rebuild(w, x + y)
    al, ah = rng(a, w); bl, bh = rng(b, w)
    return mkr("or", w, max(al, bl), min(M, (1 << max(ah.bit_length(), bh.bit_length())) - 1), a, b)


def xor(w, a, b):
    if a.__class__ is int:
        if b.__class__ is int:
            return a ^ b
        a, b = b, a
    if b.__class__ is int:
        if b == 0: return a
        if w == 1: return not_(a)
        if a.op == "xor" and a.a[1].__class__ is int:
            return xor(w, a.a[0], a.a[1] ^ b)
    else:
        if a is b: return 0
        if w == 1:
            if a is not_(b): return 1
        if a.id > b.id:
            a, b = b, a
    al, ah = rng(a, w); bl, bh = rng(b, w)
    return mkr("xor", w, 0, (1 << max(ah.bit_length(), bh.bit_length())) - 1, a, b)


def not_(a):
    if a.__class__ is int:
        return 1 - a
    if a.op == "not":
        return a.a[0]
    return mk("not", 1, a)


def zext(w, a, w0):
    if a.__class__ is int or w == w0:
        return a
    if a.op == "zext":
        return zext(w, a.a[0], a.a[0].w)
    if a.op == "ite" and a.a[1].__class__ is int and a.a[2].__class__ is int:
        return ite(a.a[0], a.a[1], a.a[2], w)
    if a.op == "trunc":
        x = a.a[0]
        if x.hi < (1 << w0):
            if x.w == w: return x
            if x.w > w: return trunc(w, x, x.w)
            return zext(w, x, x.w)
        if x.w == w:
            return and_(w, x, (1 << w0) - 1)
    return mkr("zext", w, a.lo, a.hi, a)


def sext(w, a, w0):
    if a.__class__ is int:
        return sgn(a, w0) & ((1 << w) - 1)
    if w == w0: return a
    if a.slo >= 0:
        return zext(w, a, w0)
    if a.op == "sext":
        return sext(w, a.a[0], a.a[0].w)
    if a.op == "trunc" and a.a[0].w == w and a.a[0].slo >= -(1 << (w0 - 1)) and a.a[0].shi < (1 << (w0 - 1)):
        return a.a[0]
    if a.op == "ite" and a.a[1].__class__ is int and a.a[2].__class__ is int:
        return ite(a.a[0], sext(w, a.a[1], w0), sext(w, a.a[2], w0), w)
    t = mk("sext", w, a)
    return srefine(t, a.slo, a.shi)


def trunc(w, a, w0):
    if a.__class__ is int:
        return a & ((1 << w) - 1)
    if w == w0: return a
    if a.op in ("zext", "sext"):
        x = a.a[0]
        if x.w == w: return x
        if x.w > w: return trunc(w, x, x.w)
        return zext(w, x, x.w) if a.op == "zext" else sext(w, x, x.w)
    if a.op == "trunc":
        return trunc(w, a.a[0], a.a[0].w)
    if a.op == "ite" and a.a[1].__class__ is int and a.a[2].__class__ is int:
        return ite(a.a[0], a.a[1] & ((1 << w) - 1), a.a[2] & ((1 << w) - 1), w)
    if w == 1 and a.op == "and" and a.a[1] == 1 and a.a[0].__class__ is not int and a.a[0].op == "zext" and a.a[0].a[0].w == 1:
        return a.a[0].a[0]
    if structured(a):
        return rebuild(w, _cut(segs(a, w0), 0, w))
    t = mk("trunc", w, a)
    _fit(t, a.lo, a.hi, a.slo, a.shi)
    return t


def ite(c, a, b, w=None):
    if c.__class__ is int:
        return a if c else b
    if a is b:
        return a
    if a.__class__ is int and b.__class__ is int and a == b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a, w)
    if w is None:
        w = a.w if isinstance(a, T) else b.w if isinstance(b, T) else None
        if w is None:
            if isinstance(a, float):
                w = F
            else:
                raise ValueError("ite width")
    if w == 1:
        if a.__class__ is int and b.__class__ is int:
            return c if a else not_(c)
        if a.__class__ is int:
            return or_(1, c, b) if a else and_(1, not_(c), b)
        if b.__class__ is int:
            return or_(1, not_(c), a) if b else and_(1, c, a)
    if a.__class__ is float and b.__class__ is float and struct.pack("<d", a) == struct.pack("<d", b):
        return a
    if a.__class__ is T and a.op == "ite" and a.a[0] is c: a = a.a[1]
    if b.__class__ is T and b.op == "ite" and b.a[0] is c: b = b.a[2]
    t = mk("ite", w, c, a, b)
    if w > 0:
        al, ah = rng(a, w); bl, bh = rng(b, w)
        asl, ash = srng(a, w); bsl, bsh = srng(b, w)
        refine(t, min(al, bl), max(ah, bh))
        srefine(t, min(asl, bsl), max(ash, bsh))
    return t


def eq(w, a, b):
    if a.__class__ is int:
        if b.__class__ is int:
            return 1 if a == b else 0
        a, b = b, a
    if a is b: return 1
    al, ah = rng(a, w); bl, bh = rng(b, w)
    if ah < bl or bh < al: return 0
    asl, ash = srng(a, w); bsl, bsh = srng(b, w)
    if ash < bsl or bsh < asl: return 0
    if b.__class__ is int:
        if w == 1:
            return a if b else not_(a)
        if a.op == "zext":
            return eq(a.a[0].w, a.a[0], b) if b < (1 << a.a[0].w) else 0
        if a.op == "sext":
            v = sgn(b, w)
            w0 = a.a[0].w
            if -(1 << (w0 - 1)) <= v < (1 << (w0 - 1)):
                return eq(w0, a.a[0], v & ((1 << w0) - 1))
            return 0
        if a.op == "add" and a.a[1].__class__ is int:
            return eq(w, a.a[0], (b - a.a[1]) & ((1 << w) - 1))
        if a.op == "ite":
            x, y = a.a[1], a.a[2]
            if x.__class__ is int and y.__class__ is int:
                if x == b: return a.a[0]
                if y == b: return not_(a.a[0])
                return 0
    elif a.op == "add" and b.op == "add" and a.a[1].__class__ is int and b.a[1].__class__ is int:
        if a.a[0] is b.a[0]:
            return 1 if a.a[1] == b.a[1] else 0
    if b.__class__ is not int:
        if a.op == "zext" and b.op == "zext" and a.a[0].w == b.a[0].w:
            return eq(a.a[0].w, a.a[0], b.a[0])
        if a.op == "add" and a.a[1].__class__ is int and a.a[0] is b: return 0
        if b.op == "add" and b.a[1].__class__ is int and b.a[0] is a: return 0
        if a.id > b.id:
            a, b = b, a
    return mk("eq", 1, a, b)


def _base(x):
    if x.__class__ is int:
        return None, x
    if x.op == "add" and x.a[1].__class__ is int:
        return x.a[0], x.a[1]
    return x, 0


def _ival(x):
    """(atom, c): the unsigned value of x is that of atom plus c, over the integers"""
    c = 0
    while x.__class__ is T:
        if x.op == "zext":
            x = x.a[0]
        elif x.op == "trunc" and x.a[0].hi < 1 << x.w:
            x = x.a[0]
        elif x.op == "add" and x.a[1].__class__ is int and x.a[0].__class__ is T:
            y, k, M = x.a[0], x.a[1], 1 << x.w
            if y.hi + k < M:
                c += k
            elif y.lo + k >= M:
                c += k - M
            else:
                break
            x = y
        else:
            break
    return x, c


def ult(w, a, b):
    if a.__class__ is int and b.__class__ is int:
        return 1 if a < b else 0
    al, ah = rng(a, w); bl, bh = rng(b, w)
    if ah < bl: return 1
    if al >= bh: return 0
    if a is b: return 0
    ab, ac = _base(a); bb, bc = _base(b)
    if ab is not None and ab is bb:
        M = 1 << w
        # both non-wrapping (interval of base + const stays in range)
        if ab.hi + ac < M and ab.hi + bc < M:
            return 1 if ac < bc else 0
    if a.__class__ is T and b.__class__ is T:
        x, c = _ival(a)
        if (x is not a or c) or b.op in ("zext", "trunc", "add"):
            y, d = _ival(b)
            if x is y:
                return 1 if c < d else 0
    if a.__class__ is not int and a.op == "zext" and b.__class__ is int:
        return ult(a.a[0].w, a.a[0], b) if b < (1 << a.a[0].w) else 1
    if b.__class__ is int and b == 1:
        return eq(w, a, 0)
    return mk("ult", 1, a, b)


def ule(w, a, b):
    return not_(ult(w, b, a))


def slt(w, a, b):
    if a.__class__ is int and b.__class__ is int:
        return 1 if sgn(a, w) < sgn(b, w) else 0
    al, ah = srng(a, w); bl, bh = srng(b, w)
    if ah < bl: return 1
    if al >= bh: return 0
    if a is b: return 0
    if al >= 0 and bl >= 0:
        return ult(w, a, b)
    return mk("slt", 1, a, b)


def sle(w, a, b):
    return not_(slt(w, b, a))


def ctlz(w, a):
    if a.__class__ is int:
        return w - a.bit_length()
    return mkr("ctlz", w, w - a.hi.bit_length(), w - a.lo.bit_length(), a)


def cttz(w, a):
    if a.__class__ is int:
        return w if a == 0 else (a & -a).bit_length() - 1
    return mkr("cttz", w, 0, w, a)


def ctpop(w, a):
    if a.__class__ is int:
        return bin(a).count("1")
    return mkr("ctpop", w, 0, w, a)


def sabs(w, a):
    if a.__class__ is int:
        return abs(sgn(a, w)) & ((1 << w) - 1)
    return ite(slt(w, a, 0), neg(w, a), a, w)


def ands(l):
    r = 1
    for x in l:
        r = and_(1, r, x)
    return r


def ors(l):
    r = 0
    for x in l:
        r = or_(1, r, x)
    return r


def implies(a, b):
    return or_(1, not_(a), b)


# ---------------------------------------------------------------- doubles
def fbin(op, a, b):
    if a.__class__ is float and b.__class__ is float:
        try:
            if op == "fadd": return a + b
            if op == "fsub": return a - b
            if op == "fmul": return a * b
            if op == "fdiv":
                if b == 0.0:
                    if a == 0.0 or a != a: return math.nan
                    return math.copysign(math.inf, a) * math.copysign(1.0, b)
                return a / b
        except OverflowError:
            pass
    if op in ("fadd", "fmul"):
        # IEEE addition and multiplication commute
        ka = (0, a) if a.__class__ is float else (1, a.id)
        kb = (0, b) if b.__class__ is float else (1, b.id)
        if ka > kb:
            a, b = b, a
    return mk(op, F, fk(a), fk(b))


class FK(float):
    """float constant keyed by bit pattern (so 0.0 and -0.0 differ)"""
    __slots__ = ()

    def __hash__(s):
        return hash(struct.pack("<d", s))

    def __eq__(s, o):
        return isinstance(o, float) and struct.pack("<d", s) == struct.pack("<d", o)

    def __ne__(s, o):
        return not s == o


def fk(a):
    return FK(a) if a.__class__ is float else a


def unfk(a):
    return float(a) if a.__class__ is FK else a


def fneg(a):
    if isinstance(a, float):
        return -float(a)
    if a.op == "fneg":
        return a.a[0]
    return mk("fneg", F, a)


def fun(op, a, *more):
    """unary/other double-valued uninterpreted op"""
    return mk(op, F, *[fk(x) for x in (a,) + more])


def subterms(roots):
    """all T subterms, children first"""
    seen, out, st = set(), [], []
    for r in roots:
        if isinstance(r, T) and r.id not in seen:
            st.append((r, 0))
            while st:
                t, i = st.pop()
                if i == 0:
                    if t.id in seen:
                        continue
                    seen.add(t.id)
                    st.append((t, 1))
                    for x in t.a:
                        if isinstance(x, T) and x.id not in seen:
                            st.append((x, 0))
                        elif isinstance(x, tuple):
                            for y in x:
                                if isinstance(y, T) and y.id not in seen:
                                    st.append((y, 0))
                else:
                    out.append(t)
    return out


# ---------------------------------------------------------------- substitution
def _mkop(t, a):
    op, w = t.op, t.w
    f = _REB2.get(op)
    if f is not None and w > 0:
        return f(w, *a)
    if op == "not": return not_(a[0])
    if op in ("zext", "sext", "trunc"):
        w0 = t.a[0].w
        return {"zext": zext, "sext": sext, "trunc": trunc}[op](w, a[0], w0)
    if op == "ite":
        return ite(a[0], a[1], a[2], w)
    if op in ("eq", "ult", "slt"):
        ww = next(x.w for x in t.a if x.__class__ is T)
        return {"eq": eq, "ult": ult, "slt": slt}[op](ww, a[0], a[1])
    if op in ("fadd", "fsub", "fmul", "fdiv"):
        return fbin(op, unfk(a[0]), unfk(a[1]))
    if op == "fneg":
        return fneg(unfk(a[0]))
    r = mk(op, w, *a)
    if w > 0:
        refine(r, t.lo, t.hi)
        srefine(r, t.slo, t.shi)
    return r


_REB2 = {"add": add, "sub": sub, "mul": mul, "udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem, "shl": shl,
         "lshr": lshr, "ashr": ashr, "and": and_, "or": or_, "xor": xor}


def subst(roots, m):
    """replace terms (by id) and rebuild with simplification"""
    memo = dict(m)

    def go(r):
        st = [r]
        while st:
            t = st[-1]
            if t.id in memo:
                st.pop()
                continue
            todo = [x for x in t.a if x.__class__ is T and x.id not in memo]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            if not any(x.__class__ is T for x in t.a):
                memo[t.id] = t
                continue
            a = tuple(memo[x.id] if x.__class__ is T else x for x in t.a)
            memo[t.id] = t if all(x is y for x, y in zip(a, t.a)) else _mkop(t, a)
        return memo[r.id]
    return [go(r) if r.__class__ is T else r for r in roots]


def rename(roots):
    """raw structural copy with symbols renamed by order of appearance"""
    memo = {}
    n = [0]
    ts = subterms([r for r in roots if r.__class__ is T])
    for t in ts:
        if t.op in ("sym", "fsym"):
            n[0] += 1
            nm = "v%d:%d:%d:%d:%d" % (n[0], t.lo, t.hi, t.slo, t.shi) if t.w > 0 else "v%d" % n[0]
            r = mk(t.op, t.w, nm)
        elif not any(x.__class__ is T for x in t.a):
            memo[t.id] = t
            continue
        else:
            r = mk(t.op, t.w, *[memo[x.id] if x.__class__ is T else x for x in t.a])
        if t.w > 0:
            if t.lo > r.lo: r.lo = t.lo
            if t.hi < r.hi: r.hi = t.hi
            if t.slo > r.slo: r.slo = t.slo
            if t.shi < r.shi: r.shi = t.shi
        memo[t.id] = r
    return [memo[r.id] if r.__class__ is T else r for r in roots]
