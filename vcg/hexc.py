"""Contracts of the hex helpers (to_hex, to_byte_array).

std::string and string streams by contract of the library: a string is an object
{pointer, length} whose characters live in an object of their own; a stream holds width,
flags (where libstdc++'s inline code keeps them), fill and the characters written.
Loops are cut: variables that advance by a constant per iteration are the entry value
plus that constant times the number m of iterations, and every array written in the
loop satisfies the postcondition for the indices below m."""
import re
import term as tm
from ir import Unsupported
from sym import Exec, State, Ptr, Obj, FnPtr, force
from term import T, A
from check import Refuted, Undecided, U
from loops import Restart
from lib import prove
from ntru import Cut, Info, entails_rel
from tree import comp, either

BIG = 1 << 60
BUF, LEN, FILL = 232, 240, 225          # where a stream keeps what its inline code does not touch


class ExecH(Exec):
    def __init__(s, mod):
        super().__init__(mod)
        s.comp, s.owner, s.streams = {}, {}, {}

    def chars(s, S, p, arr):
        """the characters of the string (stream) at p := arr"""
        k = (p.o, p.off)
        if k not in s.comp:
            s.comp[k] = s.new_obj(S, 4 * BIG, "chars", es=1)
            s.owner[s.comp[k].o] = p
        c = s.comp[k]
        if c.o not in S.mem:
            S.mem[c.o] = Obj(c.o, 4 * BIG, "chars", es=1)
        o = S.w(c.o)
        o.arr, o.cells, o.lazy, o.es, o.ro = arr, {}, None, 1, False
        return c

    def anyarr(s, nm):
        s.undefs += 1
        return tm.mk("arrsym", A, "%s#%d" % (nm, s.undefs), 8)


def ld(X, S, p, off, n, k="i"):
    return X.load(S, Ptr(p.o, tm.add(64, p.off, off)), n, k, 8 * n if k == "i" else None)


def st(X, S, p, off, n, v):
    X.store(S, Ptr(p.o, tm.add(64, p.off, off)), n, v)


# ------------------------------------------------------------ strings
def mkstr(X, S, p, arr, n):
    st(X, S, p, 0, 8, X.chars(S, p, arr))
    st(X, S, p, 8, 8, n)


def content(X, S, p):
    b = ld(X, S, p, 0, 8, "p")
    if b.__class__ is not Ptr or b.off != 0 or S.mem[b.o].arr is None:
        raise Unsupported("string of unknown origin")
    return S.mem[b.o].arr, ld(X, S, p, 8, 8)


def s_empty(X, S, a):
    mkstr(X, S, a[0], tm.mk("constarr", A, 0, 8), 0)


def s_fill(X, S, a):                      # (n, c)
    mkstr(X, S, a[0], tm.mk("constarr", A, a[2], 8), a[1])


def s_copy(X, S, a):
    r, n = content(X, S, a[1])
    mkstr(X, S, a[0], r, n)
    return a[0]


def s_move(X, S, a):
    r = s_copy(X, S, a)
    mkstr(X, S, a[1], X.anyarr("moved"), X.fresh("moved", 64, 0, BIG))
    return r


def sub(X, S, arr, n, pos, k):
    X.oblige("precondition", tm.not_(tm.ult(64, n, pos)), S, "substr within the string")
    left = tm.sub(64, n, pos)
    if k.__class__ is int and entails_rel(S, tm.not_(tm.ult(64, left, k)), timeout=10):
        m = k
    else:
        m = tm.ite(tm.ult(64, left, k), left, k, 64)
    return tm.mk("shiftarr", A, arr, pos), m


def s_substr(X, S, a):
    arr, n = content(X, S, a[1])
    mkstr(X, S, a[0], *sub(X, S, arr, n, a[2], a[3]))


def s_sub2(X, S, a):                      # string(const string&, pos[, n])
    arr, n = content(X, S, a[1])
    mkstr(X, S, a[0], *sub(X, S, arr, n, a[2], a[3] if len(a) > 3 and a[3].__class__ is not Ptr else (1 << 64) - 1))


def s_push(X, S, a):
    arr, n = content(X, S, a[0])
    mkstr(X, S, a[0], tm.mk("store", A, arr, n, a[1]), tm.add(64, n, 1))
    return a[0]


def s_rep(X, S, a):                       # append(n, c)
    arr, n = content(X, S, a[0])
    if a[1].__class__ is not int or a[1] > 64:
        raise Unsupported("append of symbolic length")
    for i in range(a[1]):
        arr = tm.mk("store", A, arr, tm.add(64, n, i), a[2])
    mkstr(X, S, a[0], arr, tm.add(64, n, a[1]))
    return a[0]


def s_cat(X, S, a):
    arr, n = content(X, S, a[0])
    b, k = content(X, S, a[1])
    if k.__class__ is not int or k > 64:
        raise Unsupported("append of symbolic length")
    for i in range(k):
        arr = tm.mk("store", A, arr, tm.add(64, n, i), X.sela(b, i, 1))
    mkstr(X, S, a[0], arr, tm.add(64, n, k))
    return a[0]


def s_resize(X, S, a):
    arr, n = content(X, S, a[0])
    if n.__class__ is not int or n != 0:
        raise Unsupported("resize of a non-empty string")
    mkstr(X, S, a[0], tm.mk("constarr", A, a[2] if len(a) > 2 else 0, 8), a[1])


def s_at(X, S, a):
    arr, n = content(X, S, a[0])
    X.oblige("precondition", tm.ult(64, a[1], n), S, "index within the string")
    b = ld(X, S, a[0], 0, 8, "p")
    return Ptr(b.o, tm.add(64, b.off, a[1]))


def s_clear(X, S, a):
    st(X, S, a[0], 8, 8, 0)


# ------------------------------------------------------------ numbers read from characters
def cstr(X, S, p):
    if p.__class__ is not Ptr or p.o not in X.owner:
        raise Unsupported("characters of unknown origin")
    n = tm.sub(64, ld(X, S, X.owner[p.o], 8, 8), p.off)
    return n


def ishex(c):
    r = lambda a, b: tm.and_(1, tm.not_(tm.ult(8, c, ord(a))), tm.not_(tm.ult(8, ord(b), c)))
    return tm.ors([r("0", "9"), r("a", "f"), r("A", "F")])


def dval(c):
    """value of a hexadecimal digit, 8 bits"""
    lt = lambda x: tm.ult(8, c, ord(x))
    return tm.ite(lt(":"), tm.sub(8, c, 48), tm.ite(lt("G"), tm.sub(8, c, 55), tm.sub(8, c, 87), 8), 8)


def number(X, S, p, n, base):
    if n.__class__ is not int or n > 16 or base.__class__ is not int:
        return X.fresh("number", 64)
    v, live, B = 0, 1, base
    for i in range(n):
        c = X.load(S, Ptr(p.o, tm.add(64, p.off, i)), 1, "i", 8)
        X.oblige("precondition", ishex(c), S, "a hexadecimal digit is converted")
        d = tm.zext(64, dval(c), 8)
        if i == 0 and base == 0:
            B = tm.ite(tm.eq(8, c, 48), 8, 10, 64)
        live = tm.and_(1, live, tm.ult(64, d, B))
        v = tm.ite(live, tm.add(64, tm.mul(64, v, B), d), v, 64)
    return v


def s_strtol(X, S, a):
    if not (a[1] == 0 or a[1].__class__ is not Ptr):
        raise Unsupported("end pointer of a conversion")
    return number(X, S, a[0], cstr(X, S, a[0]), a[2])


def s_stoi(w):
    def go(X, S, a):
        arr, n = content(X, S, a[0])
        X.oblige("precondition", tm.not_(tm.eq(64, n, 0)), S, "a number is converted")
        return tm.trunc(w, number(X, S, ld(X, S, a[0], 0, 8, "p"), n, a[2]), 64) if w < 64 else number(X, S, ld(X, S, a[0], 0, 8, "p"), n, a[2])
    return go


# ------------------------------------------------------------ streams
def ctor(off):
    """off: where the virtual base (ios) of the stream lies; in a stringstream its ostream part is at 16"""
    def go(X, S, a):
        p = a[0]
        for at in ([0, 16] if off == 128 else [0]):
            v = X.new_obj(S, 32, "vtable", ro=False)
            st(X, S, v, 0, 8, off - at)
            st(X, S, p, at, 8, Ptr(v.o, 24))
        i = Ptr(p.o, tm.add(64, p.off, off))
        st(X, S, i, 16, 8, 0)
        st(X, S, i, 24, 4, 0x1002)        # skipws | dec
        st(X, S, i, 8, 8, 6)              # precision
        st(X, S, i, FILL, 1, 32)
        st(X, S, i, BUF, 8, X.chars(S, i, tm.mk("constarr", A, 0, 8)))
        st(X, S, i, LEN, 8, 0)
    return go


def ios(X, S, p):
    v = ld(X, S, p, 0, 8, "p")
    if v.__class__ is not Ptr:
        raise Unsupported("stream of unknown origin")
    return Ptr(p.o, tm.add(64, p.off, ld(X, S, v, -24 & ((1 << 64) - 1), 8)))


def s_manip(X, S, a):
    i = ios(X, S, a[0])
    if a[1].__class__ is not FnPtr:
        raise Unsupported("stream manipulator of unknown origin")
    nm = a[1].n if a[1].n.startswith("@") else "@" + a[1].n
    X.call(S, nm, [i])
    return a[0]


def s_setfill(X, S, a):
    old = ld(X, S, a[0], FILL, 1)
    st(X, S, a[0], FILL, 1, a[1])
    return old


def s_getfill(X, S, a):
    return ld(X, S, a[0], FILL, 1)


def s_setw(X, S, a):
    st(X, S, ios(X, S, a[0]), 16, 8, tm.sext(64, a[1], 32))
    return a[0]


def s_setf(X, S, a):
    st(X, S, ios(X, S, a[0]), FILL, 1, a[1])
    return a[0]


def put(X, S, os, alts):
    """formatted output of one of the texts in alts = [(condition, [char])] (conditions exclusive, one holds)"""
    i = ios(X, S, os)
    w, fl, fill = ld(X, S, i, 16, 8), ld(X, S, i, 24, 4), ld(X, S, i, FILL, 1)
    st(X, S, i, 16, 8, 0)
    b, n = ld(X, S, i, BUF, 8, "p"), ld(X, S, i, LEN, 8)
    if alts is None or w.__class__ is not int or fl.__class__ is not int or w > 64 or fl & 0x10:
        S.w(b.o).arr = X.anyarr("text")
        st(X, S, i, LEN, 8, X.fresh("text", 64, 0, BIG))
        return os
    arr = S.mem[b.o].arr
    ra = rn = None
    for c, txt in alts:
        pad = [fill] * max(0, w - len(txt))
        txt = txt + pad if fl & 0x20 else pad + txt
        x = arr
        for k, ch in enumerate(txt):
            x = tm.mk("store", A, x, tm.add(64, n, k), ch)
        m = tm.add(64, n, len(txt))
        ra, rn = (x, m) if ra is None else (tm.ite(c, x, ra, A), tm.ite(c, m, rn, 64))
    S.w(b.o).arr = ra
    st(X, S, i, LEN, 8, rn)
    return os


def s_int(w, signed):
    def go(X, S, a):
        v = force(a[1], w)
        fl = ld(X, S, ios(X, S, a[0]), 24, 4)
        if fl.__class__ is not int or fl & 0x200 or fl & 0x800:       # showbase, showpos
            return put(X, S, a[0], None)
        B = {8: 16, 0x40: 8}.get(fl & 0x4a, 10)
        if B == 10 and signed:
            if not entails_rel(S, tm.not_(tm.slt(w, v, 0)), timeout=10):
                return put(X, S, a[0], None)
        hi = tm.rng(v, w)[1]
        alts, nd, digs = [], 1, []
        while True:
            q = tm.udiv(w, v, B ** (nd - 1)) if B == 10 else tm.lshr(w, v, (4 if B == 16 else 3) * (nd - 1))
            d = tm.trunc(8, tm.urem(w, q, B) if B == 10 else tm.and_(w, q, B - 1), w)
            digs.append(tm.ite(tm.ult(8, d, 10), tm.add(8, d, 48), tm.add(8, d, 55 if fl & 0x4000 else 87), 8))
            ge = 1 if nd == 1 else tm.not_(tm.ult(w, v, B ** (nd - 1)))
            alts.append((ge, digs[::-1]))
            if hi < B ** nd:
                break
            nd += 1
        # later entries override earlier ones: the text has nd digits where v >= B^(nd-1)
        return put(X, S, a[0], alts)
    return go


def s_char(X, S, a):
    return put(X, S, a[0], [(1, [force(a[1], 8)])])


def s_text(X, S, a):
    p, t = a[1], []
    while len(t) < 64:
        c = X.load(S, Ptr(p.o, tm.add(64, p.off, len(t))), 1, "i", 8)
        if c.__class__ is not int:
            X.oblige("precondition", tm.not_(tm.eq(8, c, 0)), S, "a character of the text")
        elif c == 0:
            return put(X, S, a[0], [(1, t)])
        t.append(c)
    raise Unsupported("output of a long text")


def s_printf(k):
    """sprintf(p, format, v) / snprintf(p, n, format, v), for one hexadecimal number of fixed width"""
    def go(X, S, a):
        f, p = "", a[k]
        while not f.endswith("\0"):
            c = X.load(S, Ptr(p.o, tm.add(64, p.off, len(f))), 1, "i", 8)
            if c.__class__ is not int or len(f) > 20:
                raise Unsupported("format of unknown origin")
            f += chr(c)
        g = re.match(r"%(0?)(\d?)(hh)?([xX])\0$", f)
        if not g or len(a) != k + 2:
            raise Unsupported("format " + f)
        v = force(a[k + 1], 32)
        if g.group(3):
            v = tm.and_(32, v, 255)
        w, B = int(g.group(2) or 1), 87 if g.group(4) == "x" else 55
        if tm.rng(v, 32)[1] >= 16 ** w:
            raise Unsupported("text of variable length")
        if k == 2:
            X.oblige("precondition", int(a[1] > w) if a[1].__class__ is int else tm.ult(64, w, a[1]), S, "the text fits its buffer")
        for i in range(w):
            d = tm.and_(8, tm.trunc(8, tm.lshr(32, v, 4 * i), 32), 15)
            c = tm.ite(tm.ult(8, d, 10), tm.add(8, d, 48), tm.add(8, d, B), 8)
            if not g.group(1) and i:
                c = tm.ite(tm.ult(32, v, 16 ** i), 32, c, 8)
            X.store(S, Ptr(a[0].o, tm.add(64, a[0].off, w - 1 - i)), 1, c)
        X.store(S, Ptr(a[0].o, tm.add(64, a[0].off, w)), 1, 0)
        return w
    return go


def s_str(X, S, a):
    v = ld(X, S, a[1], 0, 8, "p")
    i = ios(X, S, a[1])
    b, n = ld(X, S, i, BUF, 8, "p"), ld(X, S, i, LEN, 8)
    mkstr(X, S, a[0], S.mem[b.o].arr, n)


STR = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::"
OS = r"std::basic_ostream<char, std::char_traits<char> >::operator<<\("
FR = r"std::operator<< ?<(char, )?std::char_traits<char> ?>\(std::basic_ostream<char, std::char_traits<char> >&, "
nop = lambda X, S, a: None


def contracts():
    l = [("^" + STR + r"~basic_string\(\)", nop), ("^" + STR + r"basic_string\(\)", s_empty),
         ("^" + STR + r"basic_string(<std::allocator<char> ?>)?\(unsigned long, char, ", s_fill),
         ("^" + STR + r"basic_string\(std::__cxx11::basic_string<.*> const&\)$", s_copy),
         ("^" + STR + r"basic_string\(std::__cxx11::basic_string<.*>&&\)$", s_move),
         ("^" + STR + r"basic_string\(std::__cxx11::basic_string<.*> const&, unsigned long", s_sub2),
         ("^" + STR + r"operator=\(std::__cxx11::basic_string<.*> const&\)$", s_copy),
         ("^" + STR + r"operator=\(std::__cxx11::basic_string<.*>&&\)$", s_move),
         ("^" + STR + r"substr\(", s_substr), ("^" + STR + r"push_back\(", s_push), ("^" + STR + r"operator\+=\(char\)", s_push),
         ("^" + STR + r"append\(unsigned long, char\)", s_rep), ("^" + STR + r"(append|operator\+=)\(std::__cxx11::basic_string<.*> const&\)$", s_cat),
         ("^" + STR + r"resize\(", s_resize), ("^" + STR + r"reserve\(", nop), ("^" + STR + r"clear\(", s_clear),
         ("^" + STR + r"at\(", s_at),
         (r"^snprintf(\(|$)", s_printf(2)), (r"^sprintf(\(|$)", s_printf(1)),
         (r"^(__isoc23_)?strto(l|ul|ll|ull)(\(|$)", s_strtol),
         (r"^std::(__cxx11::)?stou?ll?\(std::__cxx11::basic_string<.* const&, ", s_stoi(64)), (r"^std::(__cxx11::)?stoi\(std::__cxx11::basic_string<.* const&, ", s_stoi(32)),
         (r"std::__cxx11::basic_stringstream<.*>::basic_stringstream\(\)", ctor(128)), (r"std::__cxx11::basic_ostringstream<.*>::basic_ostringstream\(\)", ctor(112)),
         (r"std::__cxx11::basic_o?stringstream<.*>::~", nop), (r"std::__cxx11::basic_o?stringstream<.*>::str\(\)", s_str),
         (r"std::basic_ios<char, .*>::fill\(char\)", s_setfill), (r"std::basic_ios<char, .*>::fill\(\) const", s_getfill),
         (OS + r"std::ios_base& \(\*\)\(std::ios_base&\)\)", s_manip),
         (FR + r"std::_Setw\)", s_setw), (FR + r"std::_Setfill<char>\)", s_setf),
         (FR + r"(signed |unsigned )?char\)", s_char), (FR + r"(signed |unsigned )?char const\*\)", s_text)]
    for t, w in (("short", 16), ("int", 32), ("long", 64), ("long long", 64)):
        l += [(OS + r"%s\)" % t, s_int(w, True)), (OS + r"unsigned %s\)" % t, s_int(w, False))]
    return comp(l)


# ------------------------------------------------------------ loops
class HexCut(Cut):
    def __init__(s, good, n, strict):
        Cut.__init__(s, None)
        s.good, s.total, s.strict = good, n, strict
        s.step, s.dead = {}, set()

    def val(s, S, E, k):
        return E[k[1]].off if k[0] == "p" and E[k[1]].__class__ is Ptr else E[k[1]] if k[0] == "p" else S.mem[k[1]].cells[k[2]][1]

    def enter(s, X, fn, C, loop, S, E, info, key):
        if key in s.ctx:
            raise Unsupported("loop entered on several paths")
        c = s.ctx[key] = Info()
        info.arrs = getattr(info, "arrs", set())
        m = c.m = tm.sym("m%d" % len(s.ctx), 64, 0, BIG)
        if s.strict:
            X.oblige("invariant", tm.ult(64, 0, s.total) if s.total.__class__ is T else int(s.total > 0), S, "something is left to convert on entry")
        c.keys = {}

        def head(k, v, w):
            d = s.step.get(k)
            s.n += 1
            if d is None or v is None:
                x = tm.sym("h%d" % s.n, w)
            else:
                x = tm.add(w, v, tm.mul(w, m if w == 64 else tm.trunc(w, m, 64), d))
            c.keys[k] = (w, x)
            return x
        for _, idx, ty in C.phis[loop]:
            if idx in info.phis:
                k, v = ("p", idx, fn.name), E[idx]
                if v.__class__ is Ptr:
                    E[idx] = Ptr(v.o, head(k, v.off, 64))
                elif ty.k == "i":
                    E[idx] = head(k, force(v, ty.w), ty.w)
                else:
                    raise Unsupported("loop variable of type " + ty.k)
        for oid, off in sorted(info.mod):
            o = S.mem.get(oid)
            v = o.cells.get(off) if o is not None else None
            if v is None:
                continue
            if not (v[1].__class__ is int or v[1].__class__ is T and v[1].w > 0):
                raise Unsupported("loop modifies a %s" % v[1].__class__.__name__)
            x = head(("m", oid, off), v[1], 8 * v[0])
            S.w(oid).cells[off] = (v[0], x)
        S.assume(tm.ult(64, m, s.total) if s.strict else tm.not_(tm.ult(64, s.total, m)))
        c.arrs = {}
        for oid in sorted(info.arrs):
            if oid in S.mem and S.mem[oid].arr is not None:
                s.n += 1
                h = tm.mk("arrsym", A, "H%d" % s.n, 8)
                S.w(oid).arr = h
                if oid not in s.dead:
                    S.assume(tm.implies(tm.ult(64, J, m), s.good(X, h)))
        c.H, c.HE = S.fork(), list(E)
        S.ghost["cut%s" % (key,)] = c.tag = tm.sym("cut%d" % len(s.ctx), 64)
        return [(S, E, C.header[loop], tuple([0] * len(C.chain[C.header[loop]])))]

    def back(s, X, fn, C, loop, S, E, info, key):
        c = s.ctx[key]
        if S.ghost.get("cut%s" % (key,)) is not c.tag:
            raise Unsupported("loop entered on several paths")
        new = False
        for _, idx, ty in C.phis[loop]:
            a, b = E[idx], c.HE[idx]
            if a is b or a.__class__ is not T and a == b or idx in info.phis:
                continue
            if ty.k == "i" and s.keeps(S, a, b, ty.w):
                continue
            info.phis.add(idx)
            new = True
        for oid, o in S.mem.items():
            h = c.H.mem.get(oid)
            if h is None or h is o:
                continue
            if o.arr is not None or h.arr is not None:
                if o.arr is not h.arr and oid not in info.arrs and h.arr is not None:
                    info.arrs.add(oid)
                    new = True
                continue
            for off in o.cells.keys() | h.cells.keys():
                u, v = h.cells.get(off), o.cells.get(off)
                if u is None or u is v or (oid, off) in info.mod:
                    continue
                if v is not None and u[0] == v[0] and (u[1] is v[1] or u[1].__class__ is not T and u[1] == v[1]):
                    continue
                info.mod.add((oid, off))
                new = True
        if new:
            raise Restart("modified set")
        for k, (w, x) in c.keys.items():
            y = force(s.val(S, E, k), w)
            if k not in s.step:
                d = tm.sub(w, y, x)
                if d.__class__ is not int:
                    d = next((e for e in (1, -1, 2, -2, 4, 8) if entails_rel(S, tm.eq(w, d, e & ((1 << w) - 1)), timeout=10)), None)
                s.step[k] = None if d is None else d & ((1 << w) - 1)
                new |= d is not None
            elif s.step[k] is not None:
                if not entails_rel(S, tm.eq(w, y, tm.add(w, x, s.step[k])), timeout=10):
                    s.step[k] = None
                    new = True
        if new:
            raise Restart("variables that count iterations")
        m1 = tm.add(64, c.m, 1)
        for oid in sorted(info.arrs - s.dead):
            if oid in S.mem and S.mem[oid].arr is not None:
                g = tm.implies(tm.ult(64, J, m1), s.good(X, S.mem[oid].arr))
                if not valid(list(S.pc), g):
                    s.dead.add(oid)
                    raise Restart("array without the postcondition")
        X.oblige("invariant", tm.ult(64, m1, s.total) if s.strict else tm.not_(tm.ult(64, s.total, m1)), S, "the loop goes on while something is left")
        return []


J = tm.sym("j", 64, 0, BIG)
LS = tm.sym("L", 64, 0, BIG)      # length of the text


def hyp(roots):
    """the characters of the input are hexadecimal digits"""
    return [tm.implies(tm.ult(64, t.a[1], LS), ishex(t)) for t in tm.subterms([r for r in roots if r.__class__ is T]) if t.op == "select" and t.a[0].__class__ is T and t.a[0].op == "arrsym" and t.a[0].a[0] == "s"]


def valid(pc, g):
    if g.__class__ is int:
        return bool(g)
    import smt
    pc = [p for p in pc if p.__class__ is T]
    return smt.query(pc + hyp(pc + [g]), g, timeout=20)[0] == "unsat"


def sels(X, a, i):
    """element i of array a, and the conditions it stands under"""
    return X.sela(a, i, 1)


def digit(d):
    return tm.ite(tm.ult(8, d, 10), tm.add(8, d, 48), tm.add(8, d, 87), 8)


def finish(acc, X, S, goals, H):
    acc.take(X)
    for o in X.obls:
        pc = [p for p in o.pc if p.__class__ is T]
        prove(acc, pc + hyp(pc + [o.cond]), o.cond, o.kind + " at " + o.where, kind=o.kind, hint=H)
    pc = [p for p in S.pc if p.__class__ is T]
    for what, g in goals:
        prove(acc, pc + hyp(pc + [g]), g, what, hint=H)


def u_hex(mod, strict):
    def go(acc):
        n = tm.sym("n", 64, 0, BIG)
        B = tm.mk("arrsym", A, "b", 8)

        def good(X, a):
            v = X.sela(B, J, 1)
            j2 = tm.mul(64, J, 2)
            return tm.and_(1, tm.eq(8, X.sela(a, j2, 1), digit(tm.lshr(8, v, 4))), tm.eq(8, X.sela(a, tm.add(64, j2, 1), 1), digit(tm.and_(8, v, 15))))

        def run(cut):
            X, S = ExecH(mod), State()
            X.contracts = contracts()
            cut.install(X)
            S.assume(tm.ult(64, J, n))
            b = X.new_obj(S, n, "bytes", ro=True, es=1)
            S.mem[b.o].arr = B
            out = X.new_obj(S, 32, "out")
            X.run(mod.func("@w_hex"), [out, b, n], S)
            return X, S, content(X, S, out)
        X, S, (arr, k) = HexCut(good, n, strict).run(run)
        finish(acc, X, S, [("to_hex: two characters per byte", tm.eq(64, k, tm.mul(64, n, 2))), ("to_hex: the digits of byte j", good(X, arr))], lambda md: ["hex"])
        zero(acc, mod, "@w_hex")
    return go


def zero(acc, mod, f):
    """the empty input: the obligations above assume some index j below the length"""
    X, S = ExecH(mod), State()
    X.contracts = contracts()
    if f == "@w_hex":
        b, out = X.new_obj(S, 0, "bytes", ro=True, es=1), X.new_obj(S, 32, "out")
        S.mem[b.o].arr = tm.mk("arrsym", A, "b", 8)
        X.run(mod.func(f), [out, b, 0], S)
        finish(acc, X, S, [("to_hex: empty input, empty text", tm.eq(64, content(X, S, out)[1], 0))], lambda md: ["hex"])
        return
    for L in (0, 1):
        X, S = ExecH(mod), State()
        X.contracts = contracts()
        s = instr(X, S, L)
        o = X.new_obj(S, 0, "out", es=1)
        X.run(mod.func(f), [s, o], S)
        finish(acc, X, S, [], lambda md: ["bytes"])


def instr(X, S, L):
    s = X.new_obj(S, 32, "s")
    c = X.new_obj(S, tm.add(64, L, 1), "s.chars", es=1, ro=True)
    S.mem[c.o].arr = tm.mk("arrsym", A, "s", 8)
    st(X, S, s, 0, 8, c)
    st(X, S, s, 8, 8, L)
    S.w(s.o).ro = True
    X.owner[c.o] = s
    return s


def u_bytes(mod, strict):
    def go(acc):
        L = LS
        n = tm.lshr(64, L, 1)

        def good(X, a):
            j2 = tm.mul(64, J, 2)
            s = tm.mk("arrsym", A, "s", 8)
            hi, lo = dval(X.sela(s, j2, 1)), dval(X.sela(s, tm.add(64, j2, 1), 1))
            return tm.eq(8, X.sela(a, J, 1), tm.add(8, tm.mul(8, hi, 16), lo))

        def run(cut):
            X, S = ExecH(mod), State()
            X.contracts = contracts()
            cut.install(X)
            S.assume(tm.ult(64, J, n))
            s = instr(X, S, L)
            o = X.new_obj(S, n, "out", es=1)
            S.mem[o.o].arr = tm.mk("arrsym", A, "out0", 8)
            X.run(mod.func("@w_bytes"), [s, o], S)
            return X, S, S.mem[o.o].arr
        X, S, arr = HexCut(good, n, strict).run(run)
        finish(acc, X, S, [("to_byte_array: byte j is the value of digit pair j", good(X, arr))], lambda md: ["bytes"])
        zero(acc, mod, "@w_bytes")
    return go


def u_trip(acc):
    """the two conversions are inverse (from the two contracts)"""
    v, h, l = tm.sym("v", 8), tm.sym("h", 8), tm.sym("l", 8)
    prove(acc, [], tm.eq(8, tm.add(8, tm.mul(8, dval(digit(tm.lshr(8, v, 4))), 16), dval(digit(tm.and_(8, v, 15)))), v), "lemma: bytes of the digits of a byte", kind="lemma")
    lower = lambda c: tm.and_(1, ishex(c), tm.not_(tm.and_(1, tm.not_(tm.ult(8, c, 65)), tm.ult(8, c, 71))))
    w = tm.add(8, tm.mul(8, dval(h), 16), dval(l))
    prove(acc, [lower(h), lower(l)], tm.and_(1, tm.eq(8, digit(tm.lshr(8, w, 4)), h), tm.eq(8, digit(tm.and_(8, w, 15)), l)), "lemma: lower-case digits of the byte of a digit pair", kind="lemma")


def units(mod, rot):
    return [U("to_hex", "to_hex", either([U("", "", u_hex(rot, True))], u_hex(mod, False))),
            U("to_byte_array", "to_byte_array", either([U("", "", u_bytes(rot, True))], u_bytes(mod, False))),
            U("round trip", "to_hex, to_byte_array", u_trip)]
