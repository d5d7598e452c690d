"""Symbolic executor / verification-condition generator over LLVM IR.

A function is executed once, symbolically, for *all* inputs: branches fork and
are merged again at the join point (if-then-else terms), loops with a constant
trip count are unrolled completely, every other loop must be cut by a loop
contract (LoopHook).  Calls are replaced by the callee's contract when one is
registered, otherwise the callee's own IR is executed in place.  Every load,
store, shift, division and nsw/nuw operation emits an obligation."""
import heapq, re, sys, time
import ir
from ir import Unsupported
import term as tm
from term import T, F, Z, A

sys.setrecursionlimit(20000)


class ToolLimit(Exception):
    pass


class PathDead(Exception):
    pass


class Ptr:
    __slots__ = ("o", "off")

    def __init__(s, o, off):
        s.o, s.off = o, off

    def __eq__(s, x):
        return x.__class__ is Ptr and s.o == x.o and (s.off is x.off or s.off == x.off)

    def __ne__(s, x):
        return not s == x

    def __hash__(s):
        return hash((s.o, s.off if s.off.__class__ is int else s.off.id))

    def __repr__(s):
        return "&%s+%s" % (s.o, s.off)


class PIte:
    """pointer that is one of two pointers"""
    __slots__ = ("c", "a", "b")

    def __init__(s, c, a, b):
        s.c, s.a, s.b = c, a, b


class FnPtr:
    def __init__(s, n):
        s.n = n


class Uninit:
    """value of never-written memory / undef"""


class Obj:
    __slots__ = ("id", "size", "name", "cells", "lazy", "ro", "arr", "es", "own", "kind")

    def __init__(s, id, size, name, lazy=None, ro=False, es=None, kind=None):
        s.id, s.size, s.name, s.lazy, s.ro, s.es, s.kind = id, size, name, lazy, ro, es, kind
        s.cells = {}
        s.arr = None
        s.own = None

    def copy(s, own):
        o = Obj.__new__(Obj)
        o.id, o.size, o.name, o.lazy, o.ro, o.es, o.kind = s.id, s.size, s.name, s.lazy, s.ro, s.es, s.kind
        o.cells = dict(s.cells)
        o.arr = s.arr
        o.own = own
        return o


_own = [0]
M64 = (1 << 64) - 1


class State:
    __slots__ = ("mem", "pc", "own", "ghost")

    def __init__(s):
        s.mem, s.pc = {}, ()
        _own[0] += 1
        s.own = _own[0]
        s.ghost = {}

    def fork(s):
        n = State.__new__(State)
        n.mem = dict(s.mem)
        n.pc = s.pc
        n.ghost = dict(s.ghost)
        _own[0] += 1
        n.own = _own[0]
        _own[0] += 1
        s.own = _own[0]
        return n

    def w(s, oid):
        """writable object"""
        o = s.mem[oid]
        if o.own != s.own:
            o = o.copy(s.own)
            s.mem[oid] = o
        return o

    def assume(s, c):
        if c.__class__ is int:
            if not c:
                raise PathDead()
            return
        s.pc = s.pc + (c,)


class Obl:
    __slots__ = ("kind", "pc", "cond", "where", "fn")

    def __init__(s, kind, pc, cond, where, fn):
        s.kind, s.pc, s.cond, s.where, s.fn = kind, pc, cond, where, fn


def merge_val(c, a, b, w=None):
    if a is b:
        return a
    ca, cb = a.__class__, b.__class__
    if ca is int and cb is int and a == b:
        return a
    if ca is Ptr and cb is Ptr:
        if a == b:
            return a
        if a.o == b.o:
            return Ptr(a.o, tm.ite(c, a.off, b.off, 64))
        return PIte(c, a, b)
    if ca in (Ptr, PIte) or cb in (Ptr, PIte):
        return PIte(c, a, b)
    if a is None or b is None:
        return None
    if ca is tuple:
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if (ca is T and a.w <= 0) or (cb is T and b.w <= 0):
        w = a.w if ca is T else b.w
    if ca is int and cb is int:
        if w is None:
            return Pending(c, a, b)
        return tm.ite(c, a, b, w)
    if ca is Pending or cb is Pending:
        if w is None:
            w2 = a.w if ca is T else b.w if cb is T else None
            if w2 is None:
                return Pending(c, a, b)
            w = w2
        return tm.ite(c, force(a, w), force(b, w), w)
    return tm.ite(c, a, b, w)


class Pending:
    """merge of two concrete ints whose width is not known at the merge"""
    __slots__ = ("c", "a", "b")

    def __init__(s, c, a, b):
        s.c, s.a, s.b = c, a, b


def force(v, w):
    if v.__class__ is Pending:
        return tm.ite(v.c, force(v.a, w), force(v.b, w), w)
    return v


class LoopCut(Exception):
    pass


class Frame:
    __slots__ = ("fn", "env", "prev")


class Exec:
    def __init__(s, mod, contracts=(), max_steps=60_000_000):
        s.mod = mod
        s.contracts = [(re.compile(p), h) for p, h in contracts]
        s.ccache = {}
        s.obls = []
        s.trivial = {}
        s.nobj = 0
        s.globs = {}
        s.used = {}          # contract name -> call count
        s.executed = {}      # functions whose body was executed
        s.stack = []
        s.undefs = 0
        s.loop_hook = None   # f(X, fn, loop, header, S, E, phis) -> None | list of (S, E, target block, from block)
        s.steps = 0
        s.max_steps = max_steps
        s.on_branch = None
        s.assumptions = set()
        s.unroll_limit = 5000
        s.t0 = time.time()
        s.deadline = None
        s.feasible = None    # optional callback (S) -> bool
        s.strict_uninit = True
        s.symexit = set()    # loops left on a condition that depends on the input
        s.havocs = 0

    # ---------------------------------------------------------- obligations
    def where(s):
        return " > ".join(short(s.mod.dem.get(f.name, f.name)) for f in s.stack[-3:])

    def oblige(s, kind, cond, S, detail=""):
        if cond.__class__ is int and cond:
            s.trivial[kind] = s.trivial.get(kind, 0) + 1
            return
        fn = s.stack[-1].name if s.stack else ""
        s.obls.append(Obl(kind, S.pc, cond, (s.where() + " " + detail).strip(), fn))
        if cond.__class__ is int:
            raise PathDead()
        # obligations are assumed afterwards (each is discharged once)
        S.pc = S.pc + (cond,)

    def fresh(s, name, w, lo=None, hi=None):
        s.undefs += 1
        return tm.sym("%s#%d" % (name, s.undefs), w, lo, hi)

    # ---------------------------------------------------------- objects
    def new_obj(s, S, size, name, **k):
        s.nobj += 1
        o = Obj(s.nobj, size, name, **k)
        o.own = S.own
        S.mem[o.id] = o
        return Ptr(o.id, 0)

    def array_input(s, S, name, n, es, w=None, lo=None, hi=None, mk=None, ro=False, extra=0):
        """object of n elements of es bytes, element i is the symbol name[i]"""
        if mk is None:
            if w == F:
                mk = lambda i: tm.mk("fsym", F, "%s[%d]" % (name, i))
            else:
                ww = w or 8 * es
                mk = lambda i: tm.sym("%s[%d]" % (name, i), ww, lo, hi)

        def lazy(off):
            if off % es:
                return None
            return (es, mk(off // es))
        return s.new_obj(S, n * es + extra, name, lazy=lazy, ro=ro, es=es)

    def arr_mode_input(s, S, name, n, es, ro=False):
        p = s.new_obj(S, n * es, name, ro=ro, es=es)
        o = S.mem[p.o]
        o.arr = tm.mk("arrsym", A, name, 8 * es)
        return p

    def gptr(s, S, name):
        if name in s.mod._bodies or name in s.mod.decls or (name not in s.mod.globals):
            return FnPtr(name)
        oid = s.globs.get(name)
        if oid is None:
            s.nobj += 1
            oid = s.nobj
            s.globs[name] = oid
        if oid not in S.mem:
            ty, init, const = s.mod.globals[name]
            o = Obj(oid, ty.size() if ty.k != "opaque" else None, name, ro=const)
            o.own = 0
            if init is not None:
                s.init_const(S, o, 0, ty, init)
            S.mem[oid] = o
        return Ptr(oid, 0)

    def init_const(s, S, o, off, ty, v):
        if ty.k == "a":
            if v[0] == "z":
                for i in range(ty.n):
                    s.init_const(S, o, off + i * ty.el.size(), ty.el, ("z", ty.el))
            elif v[0] == "agg":
                es = ty.el.size()
                for i, (t, x) in enumerate(v[1]):
                    s.init_const(S, o, off + i * es, t, x)
            elif v[0] != "u":
                raise Unsupported("const array init")
            if o.es is None and ty.el.k == "i":
                o.es = ty.el.size()
        elif ty.k == "s":
            offs = ty.offsets()
            if v[0] == "z":
                for f, fo in zip(ty.fs, offs):
                    s.init_const(S, o, off + fo, f, ("z", f))
            elif v[0] == "agg":
                for (t, x), fo in zip(v[1], offs):
                    s.init_const(S, o, off + fo, t, x)
            elif v[0] != "u":
                raise Unsupported("const struct init")
        elif v[0] == "c":
            o.cells[off] = (ty.size(), v[1])
        elif v[0] == "z":
            o.cells[off] = (ty.size(), 0.0 if ty.k == "d" else 0)
        elif v[0] == "g":
            o.cells[off] = (8, s.gptr(S, v[1]))
        elif v[0] == "gep":
            o.cells[off] = (8, s.cgep(S, v))
        elif v[0] == "u":
            pass
        elif v[0] == "x":
            o.cells[off] = (ty.size(), tm.mk("rawfp", F, v[1]))
        else:
            raise Unsupported("const init " + v[0])

    def cgep(s, S, v):
        _, bty, base, idx = v
        b = s.gptr(S, base[1]) if base[0] == "g" else s.cgep(S, base)
        off = gep_const(bty, [(t, x[1]) for t, x in idx])
        return Ptr(b.o, tm.add(64, b.off, off & ((1 << 64) - 1)))

    # ---------------------------------------------------------- memory
    def obj(s, S, p, what):
        if p.__class__ is not Ptr:
            if p.__class__ is int:
                s.oblige("null-deref", 0, S, what)
            raise Unsupported("access through %r" % (p,))
        o = S.mem.get(p.o)
        if o is None:
            s.oblige("dangling-access", 0, S, what)
        return o

    def bounds(s, S, o, off, n, what):
        if o.size.__class__ is T:
            # size below 2^62
            e = tm.add(64, off, n)
            s.oblige("in-bounds", tm.and_(1, tm.not_(tm.ult(64, o.size, e)), tm.ult(64, off, 1 << 62)), S, "%s of %d bytes in %s" % (what, n, o.name))
            return
        if off.__class__ is int:
            if off >> 63 or (o.size is not None and off + n > o.size):
                s.oblige("in-bounds", 0, S, "%s of %d bytes at %s+%d (size %s)" % (what, n, o.name, tm.sgn(off, 64), o.size))
            if o.size is None:
                raise Unsupported("access to opaque object " + o.name)
            s.trivial["in-bounds"] = s.trivial.get("in-bounds", 0) + 1
            return
        if o.size is None:
            raise Unsupported("access to opaque object " + o.name)
        if n > o.size:
            s.oblige("in-bounds", 0, S, what + " " + o.name)
        s.oblige("in-bounds", tm.not_(tm.ult(64, o.size - n, off)), S, "%s of %d bytes in %s (size %s)" % (what, n, o.name, o.size))

    def load(s, S, p, n, kind, w=None):
        """kind: 'i','d','p','z'"""
        if p.__class__ is PIte:
            sa = S.fork(); sa.pc = S.pc + (p.c,)
            sb = S.fork(); sb.pc = S.pc + (tm.not_(p.c),)
            a = s.load(sa, p.a, n, kind, w)
            b = s.load(sb, p.b, n, kind, w)
            return merge_val(p.c, a, b, w if kind == "i" else None)
        if p.__class__ is Ptr and p.off.__class__ is int:
            o = S.mem.get(p.o)
            if o is not None:
                c = o.cells.get(p.off)
                if c is not None and c[0] == n and o.arr is None:
                    v = c[1]
                    cl = v.__class__
                    if kind == "d":
                        if cl is float or (cl is T and v.w == F):
                            return v
                    elif kind == "i":
                        if cl is int or (cl is T and v.w > 0):
                            return v
                        if cl is Pending:
                            return force(v, 8 * n)
                    else:
                        return v
        o = s.obj(S, p, "load")
        s.bounds(S, o, p.off, n, "load")
        if p.off.__class__ is int and o.arr is None:
            return s.conv(s.load_bytes(S, o, p.off, n), n, kind)
        return s.conv(s.load_sym(S, o, p.off, n), n, kind)

    def conv(s, v, n, kind):
        cl = v.__class__
        if cl is Pending:
            v = force(v, 8 * n); cl = v.__class__
        if kind == "d":
            if cl is float or cl is T and v.w == F:
                return v
            if cl is int:
                import struct
                return struct.unpack("<d", struct.pack("<Q", v))[0]
            if cl is T and v.w > 0:
                if v.op == "f2bits":
                    return v.a[0]
                return tm.mk("bits2f", F, v)
        if kind == "i":
            if cl is int or cl is T and v.w > 0:
                return v
            if cl is float:
                import struct
                return struct.unpack("<Q", struct.pack("<d", v))[0]
            if cl is T and v.w == F:
                return tm.mk("f2bits", 64, v)
            if cl is Ptr:
                return v
        return v

    def load_bytes(s, S, o, off, n):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        if o.lazy is not None and c is None and not s.overlap(o, off, n):
            lz = o.lazy(off)
            if lz is not None and lz[0] == n:
                w_ = S.w(o.id)
                w_.cells[off] = (n, lz[1])
                return lz[1]
        if c is None and not s.overlap(o, off, n) and o.lazy is None:
            # uninitialised
            if s.strict_uninit is True:
                s.assumptions.add("reads of uninitialised memory yield an arbitrary value")
            v = s.fresh("uninit:" + o.name, 8 * n)
            S.w(o.id).cells[off] = (n, v)
            return v
        if n == 4:
            z = o.cells.get(off - 4)
            if z is not None and z[0] == 16 and z[1].__class__ is T and z[1].w == Z:
                import gmp          # sign of an mpz (mpz_sgn reads the size field)
                return gmp.cmpsym(z[1], gmp.zc(0))
        if n > 16:
            raise Unsupported("wide mixed load")
        # compose little-endian from bytes
        r = None
        for i in range(n):
            b = s.load_byte(S, S.mem[o.id], off + i)
            b = tm.zext(8 * n, b, 8)
            b = tm.shl(8 * n, b, 8 * i)
            r = b if r is None else tm.or_(8 * n, r, b)
        return r

    def overlap(s, o, off, n):
        c = o.cells
        for k in range(off - 15, off + n):
            x = c.get(k)
            if x is not None and k + x[0] > off:
                return True
        return False

    def load_byte(s, S, o, off):
        for k in range(off, off - 16, -1):
            x = o.cells.get(k)
            if x is not None and k + x[0] > off:
                v = s.conv(x[1], x[0], "i")
                if v.__class__ not in (int, T):
                    raise Unsupported("byte of pointer/object value")
                return tm.trunc(8, tm.lshr(8 * x[0], v, 8 * (off - k)), 8 * x[0])
        if o.lazy is not None:
            for k in range(off, off - 16, -1):
                if k < 0: break
                lz = o.lazy(k)
                if lz is not None and k + lz[0] > off:
                    S.w(o.id).cells[k] = (lz[0], lz[1])
                    return s.load_byte(S, S.mem[o.id], off)
        v = s.fresh("uninit:" + o.name, 8)
        S.w(o.id).cells[off] = (1, v)
        return v

    def elem_index(s, off, es):
        """off = es * idx exactly (as terms, no wrap proven by range)"""
        if off.__class__ is int:
            return off // es if off % es == 0 else None
        if es == 1:
            return off
        if off.op == "mul" and off.a[1].__class__ is int and off.a[1] % es == 0 and off.a[0].hi * off.a[1] < 1 << 64:
            return tm.mul(64, off.a[0], off.a[1] // es)
        if off.op == "add":
            x = s.elem_index(off.a[0], es)
            y = s.elem_index(off.a[1], es)
            if x is not None and y is not None:
                return tm.add(64, x, y)
            if off.a[1].__class__ is int:
                c = tm.sgn(off.a[1], 64)
                if c % es == 0 and x is not None:
                    return tm.add(64, x, (c // es) & ((1 << 64) - 1))
        if off.op == "mul" and off.a[1].__class__ is int and off.a[1] % es == 0:
            # in bounds was obliged: idx*es <= size, and es is a power of two times the element;
            # the source index is inbounds (GEP inbounds forbids wrap)
            return tm.mul(64, off.a[0], off.a[1] // es)
        if off.op == "ite":
            x = s.elem_index(off.a[1], es); y = s.elem_index(off.a[2], es)
            if x is not None and y is not None:
                return tm.ite(off.a[0], x, y, 64)
        return None

    def candidates(s, o, off, n):
        """concrete offsets a symbolic offset can take, if few"""
        if o.size is None:
            return None
        hi = min(off.hi, o.size - n)
        es = o.es or n
        if off.op == "ite":
            def leaves(x):
                if x.__class__ is int: return {x}
                if x.op == "ite":
                    a = leaves(x.a[1]); b = leaves(x.a[2])
                    return None if a is None or b is None else a | b
                return None
            l = leaves(off)
            if l is not None and len(l) <= 64:
                return sorted(k for k in l if k <= o.size - n)
        step = 1
        b, c = tm._base(off)
        if b is not None and b.op == "mul" and b.a[1].__class__ is int:
            step = b.a[1]
        lo = off.lo
        if step > 1:
            st = c % step
            lo = lo + ((st - lo) % step)
        if (hi - lo) // step <= 70:
            return list(range(lo, hi + 1, step))
        return None

    def load_sym(s, S, o, off, n):
        if o.arr is None:
            c = s.candidates(o, off, n) if off.__class__ is T else [off]
            if c is not None:
                r = None
                for k in reversed(c):
                    v = s.load_bytes(S, S.mem[o.id], k, n)
                    if v.__class__ is float or (v.__class__ is T and v.w == F):
                        r = v if r is None else tm.ite(tm.eq(64, off, k), v, r, F)
                    else:
                        r = v if r is None else merge_val(tm.eq(64, off, k), v, r, 8 * n)
                if r is None:
                    raise PathDead()
                return r
            o = s.to_array(S, o, n)
        es = o.es
        idx = s.elem_index(off, es)
        if idx is None:
            raise Unsupported("symbolic offset %s in array of %d-byte elements" % (tm.show(off), es))
        if n != es:
            if es == 1 and n <= 8:
                r = None
                for i in range(n):
                    b = tm.shl(8 * n, tm.zext(8 * n, s.sel(o, tm.add(64, idx, i)), 8), 8 * i)
                    r = b if r is None else tm.or_(8 * n, r, b)
                return r
            raise Unsupported("size %d access of array of %d" % (n, es))
        return s.sel(o, idx)

    def sel(s, o, idx):
        return s.sela(o.arr, idx, o.es)

    def sela(s, a, idx, es):
        while isinstance(a, T) and a.op in ("store", "shiftarr"):
            if a.op == "shiftarr":
                idx = tm.add(64, idx, a.a[1])
                a = a.a[0]
                continue
            e = tm.eq(64, a.a[1], idx)
            if e.__class__ is int:
                if e:
                    return a.a[2]
                a = a.a[0]
            else:
                break
        if a.op == "constarr":
            return a.a[0]
        if a.op == "copyarr":
            d, do, b, bo, n, _ = a.a
            inn = tm.and_(1, tm.not_(tm.ult(64, idx, do)), tm.ult(64, idx, do + n))
            if inn.__class__ is int:
                return s.sela(b, tm.add(64, idx, (bo - do) & M64), es) if inn else s.sela(d, idx, es)
            return tm.ite(inn, s.sela(b, tm.add(64, idx, (bo - do) & M64), es), s.sela(d, idx, es), 8 * es)
        if a.op == "ite":
            return tm.ite(a.a[0], s.sela(a.a[1], idx, es), s.sela(a.a[2], idx, es), 8 * es)
        return tm.mk("select", 8 * es, a, idx)

    def to_array(s, S, o, n):
        es = o.es or n
        o = S.w(o.id)
        o.es = es
        base = tm.mk("arrsym", A, "arr:%s#%d" % (o.name, s.nobj), 8 * es)
        s.nobj += 1
        vals = []
        for k in range(0, o.size, es):
            if o.lazy is None and k not in o.cells:
                continue
            v = s.conv(s.load_bytes(S, S.mem[o.id], k, es), es, "i")
            vals.append((k // es, v))
        if vals and len(vals) == o.size // es and all(v == vals[0][1] and v.__class__ is int for _, v in vals):
            base = tm.mk("constarr", A, vals[0][1], 8 * es)
            vals = []
        for i, v in vals:
            base = tm.mk("store", A, base, i, v)
        o = S.w(o.id)
        o.cells = {}
        o.lazy = None
        o.arr = base
        return o

    def fill(s, S, p, n, arr, pos):
        """n bytes at p := arr[pos..pos+n)"""
        o = s.obj(S, p, "store")
        if p.off.__class__ is int and p.off == 0 and n == o.size and o.es == 1 and not o.ro:
            s.bounds(S, o, 0, n, "store")
            o = S.w(o.id)
            o.cells = {}
            o.lazy = None
            o.arr = tm.mk("shiftarr", A, arr, pos) if not (pos.__class__ is int and pos == 0) else arr
            return
        for i in range(n):
            s.store(S, Ptr(p.o, tm.add(64, p.off, i)), 1, tm.mk("select", 8, arr, tm.add(64, pos, i)))

    def store(s, S, p, n, v):
        if p.__class__ is PIte:
            for c, q in ((p.c, p.a), (tm.not_(p.c), p.b)):
                old = s.load(S, q, n, "any")
                s.store(S, q, n, merge_val(c, v, old, 8 * n))
            return
        o = s.obj(S, p, "store")
        s.bounds(S, o, p.off, n, "store")
        if o.ro:
            s.oblige("frame", 0, S, "write to read-only object " + o.name)
        off = p.off
        if off.__class__ is int and o.arr is None:
            o = S.w(o.id)
            c = o.cells.get(off)
            if c is not None and c[0] == n:
                o.cells[off] = (n, v)
                return
            if c is not None or o.cells or o.lazy is not None:
                s.clear_range(S, o, off, n)
                o = S.mem[o.id]
            o.cells[off] = (n, v)
            return
        if o.arr is None:
            c = s.candidates(o, off, n)
            if c is not None and len(c) <= 8:
                for k in c:
                    old = s.load_bytes(S, S.mem[o.id], k, n)
                    S.w(o.id).cells[k] = (n, merge_val(tm.eq(64, off, k), v, old, 8 * n))
                return
            o = s.to_array(S, o, n)
        o = S.w(o.id)
        es = o.es
        idx = s.elem_index(off, es)
        if idx is None:
            raise Unsupported("symbolic store offset")
        if n != es:
            if es == 1 and n <= 8:
                for i in range(n):
                    o.arr = tm.mk("store", A, o.arr, tm.add(64, idx, i), tm.trunc(8, tm.lshr(8 * n, v, 8 * i), 8 * n))
                return
            raise Unsupported("size %d store to array of %d" % (n, es))
        v = force(v, 8 * n)
        if v.__class__ is T and s.sel(o, idx) is v:
            return      # writes back what is there
        if v.__class__ is int and idx.__class__ is int:
            a = o.arr
            if a.op == "copyarr" and a.a[2].op == "constarr" and a.a[2].a[0] == v and a.a[1] + a.a[4] == idx:
                s.set_run(o, a.a[0], a.a[1], a.a[4] + 1, v)
                return
            if a.op == "store" and a.a[1].__class__ is int and a.a[1] + 1 == idx and a.a[2].__class__ is int and a.a[2] == v:
                s.set_run(o, a.a[0], idx - 1, 2, v)
                return
        o.arr = tm.mk("store", A, o.arr, idx, v)

    def set_run(s, o, base, lo, n, v):
        """elements lo..lo+n-1 of o := v over base"""
        k = tm.mk("constarr", A, v, 8 * o.es)
        o.arr = k if lo == 0 and n * o.es == o.size else tm.mk("copyarr", A, base, lo, k, lo, n, o.es)

    def clear_range(s, S, o, off, n):
        """remove [off, off+n), splitting cells that stick out"""
        for k in range(off - 15, off + n):
            x = o.cells.get(k)
            if x is None and o.lazy is not None and k >= 0 and (k < off or k + 1 > off + n - 16):
                # lazily present element overlapping the boundary
                if k < off:
                    lz = o.lazy(k)
                    if lz is not None and k + lz[0] > off and not s.overlap(o, k, 1):
                        x = o.cells[k] = lz
                else:
                    lz = o.lazy(k)
                    if lz is not None and k + lz[0] > off + n and not s.overlap(o, k, 1):
                        x = o.cells[k] = lz
            if x is None or k + x[0] <= off:
                continue
            if k >= off and k + x[0] <= off + n:
                del o.cells[k]
                if False:
                    pass
                continue
            v = s.conv(x[1], x[0], "i")
            if v.__class__ not in (int, T):
                raise Unsupported("partial overwrite of pointer/object")
            del o.cells[k]
            for i in range(x[0]):
                if not off <= k + i < off + n:
                    o.cells[k + i] = (1, tm.trunc(8, tm.lshr(8 * x[0], v, 8 * i), 8 * x[0]))

    def memcpy(s, S, d, a, n):
        if n.__class__ is not int:
            c = tm_leaves(n)
            if c is None:
                raise Unsupported("memcpy of symbolic length")
            for k in c:
                if k:
                    cond = tm.eq(64, n, k)
                    S2 = S.fork()
                    S2.pc = S.pc + (cond,)
                    s.memcpy(S2, d, a, k)
                    merge_mem(S, cond, S2, S)
            return
        if n == 0:
            return
        od = s.obj(S, d, "memcpy dst"); oa = s.obj(S, a, "memcpy src")
        s.bounds(S, od, d.off, n, "memcpy dst"); s.bounds(S, oa, a.off, n, "memcpy src")
        if od.ro:
            s.oblige("frame", 0, S, "memcpy into read-only object " + od.name)
        if od.id == oa.id:
            if d.off.__class__ is int and a.off.__class__ is int and abs(d.off - a.off) < n and d.off != a.off:
                s.oblige("memcpy-overlap", 0, S)
        if oa.arr is not None or od.arr is not None or d.off.__class__ is not int or a.off.__class__ is not int:
            es = (oa.es if oa.arr is not None else None) or (od.es if od.arr is not None else None) or 1
            if es == 1 and oa.arr is None and od.arr is None:
                szs = {c[0] for c in oa.cells.values()}
                if oa.lazy is not None and oa.es:
                    szs.add(oa.es)
                if len(szs) == 1:
                    es = szs.pop()
                    if n % es or (d.off.__class__ is int and d.off % es) or (a.off.__class__ is int and a.off % es):
                        es = 1
            if n % es:
                raise Unsupported("memcpy array granularity")
            if n // es > 4096:
                raise Unsupported("large array memcpy")
            if oa.arr is not None and od.arr is not None and oa.es == es and od.es == es and n // es >= 16 and d.off.__class__ is int and a.off.__class__ is int and d.off % es == 0 and a.off % es == 0:
                od = S.w(d.o)
                od.arr = tm.mk("copyarr", A, od.arr, d.off // es, oa.arr, a.off // es, n // es, es)
                return
            vs = []
            for i in range(0, n, es):
                vs.append(s.load(S, Ptr(a.o, tm.add(64, a.off, i)), es, "any"))
            for j, i in enumerate(range(0, n, es)):
                s.store(S, Ptr(d.o, tm.add(64, d.off, i)), es, vs[j])
            return
        items = []
        k = a.off
        end = a.off + n
        cells = oa.cells
        # copy cell by cell; materialise lazy / uninitialised lazily
        while k < end:
            c = cells.get(k)
            if c is not None and k + c[0] <= end:
                items.append((k - a.off, c)); k += c[0]
                continue
            if c is None and oa.lazy is not None and not s.overlap(oa, k, 1):
                lz = oa.lazy(k)
                if lz is not None and k + lz[0] <= end and not s.overlap(oa, k, lz[0]):
                    items.append((k - a.off, lz)); k += lz[0]
                    continue
            if c is None and oa.lazy is None and not s.overlap(oa, k, 1):
                k += 1   # uninitialised byte stays uninitialised
                continue
            b = s.load_byte(S, oa, k)
            oa = S.mem[oa.id]
            items.append((k - a.off, (1, b))); k += 1
        od = S.w(d.o)
        s.clear_big(S, od, d.off, n)
        od = S.w(d.o)
        for k, c in items:
            od.cells[d.off + k] = c
        if od.lazy is not None:
            covered = sum(c[0] for _, c in items)
            if covered != n:
                raise Unsupported("memcpy of uninitialised bytes over input object")

    def clear_big(s, S, o, off, n):
        if not o.cells and o.lazy is None:
            return
        if n <= 64:
            s.clear_range(S, o, off, n)
            return
        s.clear_range(S, o, off, 16)
        s.clear_range(S, o, off + n - 16, 16)
        for k in range(off + 16 - 15, off + n - 16):
            x = o.cells.get(k)
            if x is not None and k >= off and k + x[0] <= off + n:
                del o.cells[k]

    def memset(s, S, d, v, n):
        if n.__class__ is not int:
            c = tm_leaves(n)
            if c is None:
                raise Unsupported("memset of symbolic length")
            for k in c:
                if k:
                    cond = tm.eq(64, n, k)
                    S2 = S.fork()
                    S2.pc = S.pc + (cond,)
                    s.memset(S2, d, v, k)
                    merge_mem(S, cond, S2, S)
            return
        if n == 0:
            return
        o = s.obj(S, d, "memset")
        s.bounds(S, o, d.off, n, "memset")
        if o.ro:
            s.oblige("frame", 0, S, "memset of read-only object " + o.name)
        if o.arr is not None or d.off.__class__ is not int:
            es = o.es or 1
            if d.off == 0 and n == o.size and v.__class__ is int and o.arr is not None:
                o = S.w(o.id)
                vv = sum(v << (8 * i) for i in range(es))
                o.arr = tm.mk("constarr", A, vv, 8 * es)
                return
            if v.__class__ is int:
                vv = sum(v << (8 * i) for i in range(es))
                if o.arr is not None and d.off.__class__ is int and d.off % es == 0 and n % es == 0 and n >= 16 * es:
                    o = S.w(o.id)
                    s.set_run(o, o.arr, d.off // es, n // es, vv)
                    return
            else:
                vv = v
                if es != 1:
                    raise Unsupported("memset of a symbolic byte")
            for i in range(0, n, es):
                s.store(S, Ptr(d.o, tm.add(64, d.off, i)), es, vv)
            return
        o = S.w(d.o)
        # keep the granularity of the cells already there
        es = o.es
        if es is None and o.lazy is not None:
            lz = o.lazy(d.off)
            es = lz[0] if lz else None
        gran = []
        k = d.off
        end = d.off + n
        while k < end:
            c = o.cells.get(k)
            g = c[0] if c is not None else (es or 1)
            fl = c is not None and (c[1].__class__ is float or (c[1].__class__ is T and c[1].w == F))
            if k + g > end:
                g = 1
            gran.append((k, g, fl)); k += g
        s.clear_big(S, o, d.off, n)
        o = S.w(d.o)
        for k, g, fl in gran:
            if v.__class__ is int:
                vv = sum(v << (8 * i) for i in range(g))
                if fl and vv == 0:
                    vv = 0.0
            else:
                if g != 1:
                    for i in range(g):
                        o.cells[k + i] = (1, v)
                    continue
                vv = v
            o.cells[k] = (g, vv)

    # ---------------------------------------------------------- calls
    def call(s, S, name, args):
        h = s.ccache.get(name)
        if h is None:
            d = s.mod.dem.get(name) or name
            h = False
            for r, f in s.contracts:
                if r.search(d):
                    h = (f, d)
                    break
            if h is False:
                b = builtin(name, d)
                if b is not None:
                    h = (b, None)
            s.ccache[name] = h
        if h:
            if h[1] is not None:
                s.used[h[1]] = s.used.get(h[1], 0) + 1
            return h[0](s, S, args)
        fn = s.mod.func(name)
        if fn is None:
            raise Unsupported("call to unmodelled external " + (s.mod.dem.get(name) or name))
        return s.run(fn, args, S)

    def run(s, fn, args, S):
        if fn.compiled is None:
            compile_fn(s, fn)
        if len(s.stack) > 400:
            raise ToolLimit("recursion depth")
        s.stack.append(fn)
        s.executed[fn.name] = s.executed.get(fn.name, 0) + 1
        try:
            return s._run(fn, args, S)
        finally:
            s.stack.pop()

    def _run(s, fn, args, S):
        C = fn.compiled
        E = [None] * C.nloc
        for i, a in enumerate(args[: C.nparam]):
            E[i] = a
        E[C.nloc - 1] = []  # allocas of this frame
        heap = []
        pend = {}
        rets = []
        cur = (S, E, 0, ())
        blocks = C.blocks
        topo = C.topo
        while True:
            if cur is None:
                if not heap:
                    break
                key = heapq.heappop(heap)
                lst = pend.pop(key)
                cur = lst[0]
                for x in lst[1:]:
                    cur = (merge_states(cur, x, C) + (cur[2], cur[3]))
                continue
            S1, E1, b, its = cur
            s.steps += 1
            if s.deadline and s.steps % 256 == 0 and time.time() > s.deadline:
                raise ToolLimit("time budget of symbolic execution exceeded")
            try:
                t = blocks[b](s, S1, E1)
            except PathDead:
                cur = None
                continue
            k = t[0]
            if k == 0:      # unconditional
                nxt = [(S1, E1, t[1])]
            elif k == 1:    # conditional
                c = t[1]
                if c.__class__ is Pending:
                    c = force(c, 1)
                if c.__class__ is int:
                    nxt = [(S1, E1, t[2] if c else t[3])]
                else:
                    if s.loop_hook is not None:
                        cb = C.chain[b]
                        if cb:
                            for q in (t[2], t[3]):
                                for l in cb:
                                    if l not in C.chain[q]:
                                        s.symexit.add((fn.name, l))
                    Ea = list(E1)
                    Sa = S1.fork()
                    Sa.pc = S1.pc + (c,)
                    S1.pc = S1.pc + (tm.not_(c),)
                    nxt = [(Sa, Ea, t[2]), (S1, E1, t[3])]
                    if s.feasible is not None:
                        nxt = [x for x in nxt if s.feasible(x[0])]
            elif k == 2:    # ret
                rets.append((S1, E1, t[1]))
                cur = None
                continue
            elif k == 3:    # switch
                v, dflt, cases, w = t[1], t[2], t[3], t[4]
                if v.__class__ is int:
                    for cv, tb in cases:
                        if cv == v:
                            nxt = [(S1, E1, tb)]
                            break
                    else:
                        nxt = [(S1, E1, dflt)]
                else:
                    if s.loop_hook is not None:
                        for q in [tb for _, tb in cases] + [dflt]:
                            for l in C.chain[b]:
                                if l not in C.chain[q]:
                                    s.symexit.add((fn.name, l))
                    nxt = []
                    rest = ()
                    for cv, tb in cases:
                        c = tm.eq(w, v, cv)
                        if c.__class__ is int and not c:
                            continue
                        Sa = S1.fork()
                        Sa.pc = S1.pc + rest + (c,)
                        rest = rest + (tm.not_(c),)
                        nxt.append((Sa, list(E1), tb))
                    S1.pc = S1.pc + rest
                    nxt.append((S1, E1, dflt))
            elif k == 4:    # unreachable
                s.oblige_safe("unreachable", S1)
                cur = None
                continue
            # ---- take the edges
            out = []
            for Sx, Ex, tb in nxt:
                C.edges[(b, tb)](s, Sx, Ex)
                out.extend(s.enter(fn, C, Sx, Ex, b, tb, its))
            if len(out) == 1 and not heap:
                cur = out[0]
                continue
            for x in out:
                key = topo_key(C, x[2], x[3])
                l = pend.get(key)
                if l is None:
                    pend[key] = [x]
                    heapq.heappush(heap, key)
                else:
                    l.append(x)
            cur = None
        if not rets:
            raise PathDead()
        S1, E1, v = rets[0]
        for S2, E2, v2 in rets[1:]:
            c, S1 = merge_mem2(S1, S2)
            v = merge_val(c, v, v2, C.rw)
            E1[C.nloc - 1] = E1[C.nloc - 1] + [x for x in E2[C.nloc - 1] if x not in E1[C.nloc - 1]]
        for a in E1[C.nloc - 1]:
            S1.mem.pop(a, None)
        if S1 is not S:
            S.mem, S.pc, S.own, S.ghost = S1.mem, S1.pc, S1.own, S1.ghost
        if C.rw and v.__class__ is Pending:
            v = force(v, C.rw)
        return v

    def oblige_safe(s, kind, S):
        try:
            s.oblige(kind, 0, S)
        except PathDead:
            pass

    def enter(s, fn, C, S, E, b, tb, its):
        """new iteration vector when going b -> tb; loop hooks"""
        lt = C.chain[tb]
        lb = C.chain[b]
        n = 0
        while n < len(lt) and n < len(lb) and lt[n] == lb[n]:
            n += 1
        its2 = list(its[:n])
        if n == len(lt) and n > 0 and C.header[lt[n - 1]] == tb:
            its2[n - 1] += 1     # back edge (or re-entry of the header)
            h = s.loop_hook
            if h is not None:
                r = h(s, "back", fn, C, lt[n - 1], S, E, its2[n - 1])
                if r is not None:
                    return r
            if its2[n - 1] > s.unroll_limit:
                raise ToolLimit("loop in %s exceeds %d unrollings" % (short(s.mod.dem[fn.name]), s.unroll_limit))
        for j in range(n, len(lt)):
            its2.append(0)
            h = s.loop_hook
            if h is not None:
                r = h(s, "enter", fn, C, lt[j], S, E, 0)
                if r is not None:
                    return r
        return [(S, E, tb, tuple(its2))]


def tm_leaves(x, acc=None):
    if x.__class__ is int:
        return [x]
    if x.hi - x.lo <= 3:
        return list(range(x.lo, x.hi + 1))
    if x.op == "ite":
        a = tm_leaves(x.a[1]); b = tm_leaves(x.a[2])
        if a is None or b is None:
            return None
        return sorted(set(a) | set(b))
    if x.op == "mul" and x.a[1].__class__ is int:
        a = tm_leaves(x.a[0])
        return None if a is None else [k * x.a[1] & ((1 << x.w) - 1) for k in a]
    if x.op in ("zext", "sext", "trunc"):
        if x.a[0].w == 1 and x.op == "zext":
            return [0, 1]
        a = tm_leaves(x.a[0])
        if a is not None and x.op == "zext":
            return a
        return None
    return None


def split_pc(p, q):
    n = 0
    m = min(len(p), len(q))
    while n < m and p[n] is q[n]:
        n += 1
    return n


def merge_mem2(Sa, Sb):
    """returns (condition selecting a, merged state)"""
    n = split_pc(Sa.pc, Sb.pc)
    ra, rb = Sa.pc[n:], Sb.pc[n:]
    ca = tm.ands(ra)
    cb = tm.ands(rb)
    # the paths are disjoint; select by the shorter discriminating condition
    if len(rb) < len(ra):
        sel = tm.not_(cb)
    else:
        sel = ca
    pc = Sa.pc[:n]
    d = tm.or_(1, ca, cb)
    # (c & A) | (~c & B): keep implications
    if d.__class__ is not int:
        if ra and rb and (ra[0] is tm.not_(rb[0])):
            c0 = ra[0]
            x = tm.implies(c0, tm.ands(ra[1:])); y = tm.implies(tm.not_(c0), tm.ands(rb[1:]))
            sel = c0
            pc = pc + tuple(z for z in (x, y) if z.__class__ is not int)
        else:
            pc = pc + (d,)
    M = State()
    M.pc = pc
    merge_into(M, sel, Sa, Sb)
    return sel, M


def merge_into(M, sel, Sa, Sb):
    mem = {}
    for oid in Sa.mem.keys() | Sb.mem.keys():
        oa = Sa.mem.get(oid); ob = Sb.mem.get(oid)
        if oa is ob:
            mem[oid] = oa
        elif oa is None:
            mem[oid] = ob
        elif ob is None:
            mem[oid] = oa
        else:
            mem[oid] = merge_obj(M, sel, oa, ob)
    M.mem = mem
    g = {}
    for k in Sa.ghost.keys() | Sb.ghost.keys():
        a, b = Sa.ghost.get(k), Sb.ghost.get(k)
        g[k] = a if a is b else merge_val(sel, a, b, 64)
    M.ghost = g


def merge_mem(S, cond, Sa, Sb):
    """S := cond ? Sa : Sb (memory only, pc of S kept)"""
    M = State()
    merge_into(M, cond, Sa, Sb)
    S.mem, S.ghost, S.own = M.mem, M.ghost, M.own


class _X:
    pass


_hx = Exec(None)


def merge_obj(M, sel, oa, ob):
    o = oa.copy(M.own)
    if oa.arr is not None or ob.arr is not None:
        if oa.arr is None or ob.arr is None:
            TS = State()
            if oa.arr is None:
                TS.mem[oa.id] = oa; oa = _hx.to_array(TS, oa, ob.es)
            else:
                TS.mem[ob.id] = ob; ob = _hx.to_array(TS, ob, oa.es)
        o.cells = {}
        o.lazy = None
        o.es = oa.es
        o.arr = oa.arr if oa.arr is ob.arr else tm.ite(sel, oa.arr, ob.arr, A)
        return o
    ca, cb = oa.cells, ob.cells
    TS = State()
    cells = o.cells
    for k in list(ca.keys() | cb.keys()):
        x, y = ca.get(k), cb.get(k)
        if x is y or x == y and x is not None and y is not None and x[1] is y[1]:
            continue
        if x is None or y is None or x[0] != y[0]:
            src = y or x
            n = src[0] if (x is None or y is None) else max(x[0], y[0])
            miss = oa if (x is None) else ob
            have = y if x is None else x
            if miss.lazy is not None and (x is None or y is None):
                lz = miss.lazy(k)
                if lz is not None and lz[0] == have[0] and not _hx.overlap(miss, k, have[0]):
                    if x is None: x = lz
                    else: y = lz
            if x is None or y is None:
                if not _hx.overlap(miss, k, have[0]) and miss.lazy is None:
                    # uninitialised on one side
                    v = _hx.fresh("uninit:" + miss.name, 8 * have[0]) if isinstance(have[1], int) or (isinstance(have[1], T) and have[1].w > 0) else None
                    if v is None:
                        cells[k] = have
                        continue
                    if x is None: x = (have[0], v)
                    else: y = (have[0], v)
                else:
                    # different granularity: go through bytes
                    TS.mem[oa.id] = oa
                    va = _hx.load_bytes(TS, oa, k, have[0])
                    TS2 = State(); TS2.mem[ob.id] = ob
                    vb = _hx.load_bytes(TS2, ob, k, have[0])
                    x, y = (have[0], va), (have[0], vb)
                    for kk in list(cells):
                        if kk != k and k <= kk < k + have[0]:
                            del cells[kk]
            elif x[0] != y[0]:
                n = max(x[0], y[0])
                TS.mem[oa.id] = oa
                TS2 = State(); TS2.mem[ob.id] = ob
                x, y = (n, _hx.load_bytes(TS, oa, k, n)), (n, _hx.load_bytes(TS2, ob, k, n))
                for kk in list(cells):
                    if kk != k and k < kk < k + n:
                        del cells[kk]
        if any(kk in cells and kk != k and kk + cells[kk][0] > k for kk in range(k - 15, k)) and False:
            continue
        cells[k] = (x[0], merge_val(sel, _hx.conv2(x[1]), _hx.conv2(y[1]), 8 * x[0]) if not (fl(x[1]) or fl(y[1])) else fmerge(sel, x, y))
    return o


def fl(v):
    return v.__class__ is float or (v.__class__ is T and v.w == F)


def fmerge(sel, x, y):
    a, b = _hx.conv(x[1], 8, "d"), _hx.conv(y[1], 8, "d")
    return tm.ite(sel, tm.fk(a), tm.fk(b), F) if not (a.__class__ is float and b.__class__ is float and a == b) else a


Exec.conv2 = lambda s, v: v


def merge_states(xa, xb, C):
    Sa, Ea = xa[0], xa[1]
    Sb, Eb = xb[0], xb[1]
    c, M = merge_mem2(Sa, Sb)
    E = list(Ea)
    for i in range(C.nloc - 1):
        a, b = Ea[i], Eb[i]
        if a is not b:
            E[i] = merge_val(c, a, b, C.widths[i])
    la, lb = Ea[C.nloc - 1], Eb[C.nloc - 1]
    E[C.nloc - 1] = la if la == lb else la + [x for x in lb if x not in la]
    return (M, E)


def short(d):
    d = re.sub(r"\(.*", "", d)
    d = re.sub(r"^(void|bool|unsigned \w+|int) ", "", d)
    return d[-60:]


def gep_const(bty, idx):
    off = 0
    ty = bty
    for j, (it, v) in enumerate(idx):
        v = tm.sgn(v, it.w)
        if j == 0:
            off += v * ty.size()
        elif ty.k == "s":
            off += ty.offsets()[v]
            ty = ty.fs[v]
        else:
            ty = ty.el
            off += v * ty.size()
    return off


# ---------------------------------------------------------------- compile
class Compiled:
    pass


def topo_key(C, b, its):
    k = []
    for j, l in enumerate(C.chain[b]):
        k.append(C.topo[("L", l)])
        k.append(its[j])
    k.append(C.topo[("B", b)])
    k.append(b)
    return tuple(k)


def loops_of(n, succ):
    """dominators + natural loops; returns chain per block, header per loop"""
    pred = [[] for _ in range(n)]
    order, seen = [], set()

    def dfs(r):
        st = [(r, iter(succ[r]))]
        seen.add(r)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    st.append((v, iter(succ[v])))
                    break
            else:
                order.append(u)
                st.pop()
    dfs(0)
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    for u in rpo:
        for v in succ[u]:
            pred[v].append(u)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in pred[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = idom[b]
    loops = {}
    for u in rpo:
        for v in succ[u]:
            if v in num and dom(v, u):
                body = loops.setdefault(v, {v})
                st = [u]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(pred[x])
            elif num[v] <= num[u] and not dom(v, u):
                raise Unsupported("irreducible control flow")
    hs = sorted(loops, key=lambda h: -len(loops[h]))
    chain = {}
    for b in rpo:
        chain[b] = tuple(h for h in hs if b in loops[h])
    # hierarchical topological order
    topo = {}

    def region(blocks, depth):
        items = {}
        for b in blocks:
            c = chain[b]
            it = ("L", c[depth]) if len(c) > depth else ("B", b)
            items.setdefault(it, set()).add(b)
        item_of = {b: it for it, bs in items.items() for b in bs}
        first = min(items, key=lambda it: min(num[b] for b in items[it]))
        es = {it: set() for it in items}
        hdr = chain[next(iter(blocks))][depth - 1] if depth > 0 else None
        for b in blocks:
            for v in succ[b]:
                if v in item_of and item_of[v] != item_of[b] and v != hdr:
                    es[item_of[b]].add(item_of[v])
        # topological sort by dfs
        seen2, post = set(), []

        def d2(r):
            st = [(r, iter(sorted(es[r], key=str)))]
            seen2.add(r)
            while st:
                u, it = st[-1]
                for v in it:
                    if v not in seen2:
                        seen2.add(v)
                        st.append((v, iter(sorted(es[v], key=str))))
                        break
                else:
                    post.append(u)
                    st.pop()
        for it in sorted(items, key=lambda it: min(num[b] for b in items[it])):
            if it not in seen2:
                d2(it)
        for i, it in enumerate(reversed(post)):
            topo[it] = i
        for it, bs in items.items():
            if it[0] == "L":
                region(bs, depth + 1)
    region(set(rpo), 0)
    return chain, {h: h for h in loops}, topo, loops, set(rpo)


class CG:
    def __init__(s, X, fn, C):
        s.X, s.fn, s.C = X, fn, C
        s.K = []
        s.lines = []
        s.loc = {}

    def k(s, v):
        s.K.append(v)
        return "K[%d]" % (len(s.K) - 1)

    def val(s, v, ty=None):
        t = v[0]
        if t == "l":
            return "E[%d]" % s.loc[v[1]]
        if t == "c":
            x = v[1]
            if x.__class__ is float:
                return s.k(x)
            return repr(x)
        if t == "g":
            return "X.gptr(S,%s)" % s.k(v[1])
        if t == "gep":
            return "X.cgep(S,%s)" % s.k(v)
        if t == "u":
            return "undef(X,%s)" % s.k(v[1])
        if t == "z":
            return s.k(zero(v[1]))
        if t == "agg":
            return "(%s,)" % ",".join(s.val(x, tt) for tt, x in v[1])
        raise Unsupported("operand " + t)


def zero(ty):
    if ty.k in ("i", "p"): return 0
    if ty.k == "d": return 0.0
    if ty.k == "a": return tuple(zero(ty.el) for _ in range(ty.n))
    if ty.k == "s": return tuple(zero(f) for f in ty.fs)
    raise Unsupported("zero")


def undef(X, ty):
    if ty.k == "i": return X.fresh("undef", ty.w)
    if ty.k == "d": return tm.mk("fsym", F, "undef#%d" % X.undefs)
    if ty.k == "s": return tuple(undef(X, f) for f in ty.fs)
    if ty.k == "a": return tuple(undef(X, ty.el) for _ in range(ty.n))
    if ty.k == "p": return 0
    raise Unsupported("undef")


def compile_fn(X, fn):
    C = Compiled()
    mod = X.mod
    bi = {b.name: i for i, b in enumerate(fn.blocks)}
    succ = [[bi[x] for x in b.succ] for b in fn.blocks]
    C.chain, C.header, C.topo, C.loops, reach = loops_of(len(fn.blocks), succ)
    C.succ = succ
    g = CG(X, fn, C)
    n = 0
    widths = []
    names = []
    for p, t in zip(fn.params, fn.ptys):
        g.loc[p] = n; n += 1
        widths.append(t.w if t.k == "i" else None)
        names.append(p)
    C.nparam = n
    for b in fn.blocks:
        for ins in b.ins:
            if ins.res:
                g.loc[ins.res] = n; n += 1
                names.append(ins.res)
                t = ins.a[0] if ins.a else None
                w = None
                if ins.op in ("icmp", "fcmp"): w = 1
                elif ins.op in ir.CAST: w = ins.a[2].w if ins.a[2].k == "i" else None
                elif ins.op == "select": w = ins.a[1].w if ins.a[1].k == "i" else None
                elif isinstance(t, ir.Ty) and t.k == "i": w = t.w
                widths.append(w)
    C.nloc = n + 1
    C.widths = widths
    C.names = names
    C.loc = g.loc
    C.rw = fn.rty.w if fn.rty.k == "i" else None
    src = []
    for i, b in enumerate(fn.blocks):
        if i not in reach:
            continue
        src.append("def B%d(X,S,E):" % i)
        for ins in b.ins:
            if ins.op == "phi":
                continue
            src.extend("  " + l for l in gen(g, ins, bi, n))
    C.phis = {}
    for i, b in enumerate(fn.blocks):
        if i not in reach:
            continue
        for j in succ[i]:
            tb = fn.blocks[j]
            mv = []
            for ins in tb.ins:
                if ins.op != "phi":
                    break
                v = next(v for v, pb in ins.a[1] if pb == b.name)
                mv.append((g.loc[ins.res], g.val(v, ins.a[0])))
            src.append("def D%d_%d(X,S,E):" % (i, j))
            if mv:
                src.append("  " + ",".join("E[%d]" % d for d, _ in mv) + " = " + ",".join(v for _, v in mv))
            else:
                src.append("  pass")
    for j, tb in enumerate(fn.blocks):
        C.phis[j] = [(ins.res, g.loc[ins.res], ins.a[0]) for ins in tb.ins if ins.op == "phi"]
    env = {"K": g.K, "tm": tm, "Ptr": Ptr, "undef": undef, "force": force, "Pending": Pending, "T": T,
           "PIte": PIte, "icmpp": icmpp, "gepx": gepx, "castx": castx, "fcmpx": fcmpx, "selectx": selectx,
           "binx": binx, "PathDead": PathDead, "extractx": extractx, "insertx": insertx}
    try:
        exec(compile("\n".join(src), fn.name[:40], "exec"), env)
    except SyntaxError as e:
        raise Unsupported("codegen: %s" % e)
    C.blocks = {i: env["B%d" % i] for i in reach}
    C.edges = {(i, j): env["D%d_%d" % (i, j)] for i in reach for j in succ[i]}
    fn.compiled = C


FOLD = {
    "add": "(a+b)&%d", "sub": "(a-b)&%d", "mul": "(a*b)&%d", "and": "a&b", "or": "a|b", "xor": "a^b",
}


def gen(g, ins, bi, nalloc):
    op, a = ins.op, ins.a
    R = "E[%d]" % g.loc[ins.res] if ins.res else None
    if op in ir.BIN:
        ty, x, y, fl = a
        if ty.k != "i":
            raise Unsupported("vector arithmetic")
        M = (1 << ty.w) - 1
        fls = "".join(sorted({"nsw": "s", "nuw": "u", "exact": "e"}.get(f, "") for f in fl))
        if op in FOLD and not fls:
            f = FOLD[op] % M if "%" in FOLD[op] else FOLD[op]
            return ["a=%s;b=%s" % (g.val(x), g.val(y)),
                    "%s=%s if a.__class__ is int and b.__class__ is int else binx(X,S,%r,%d,a,b,'')" % (R, f, op, ty.w)]
        return ["%s=binx(X,S,%r,%d,%s,%s,%r)" % (R, op, ty.w, g.val(x), g.val(y), fls)]
    if op in ir.FBIN:
        return ["%s=tm.fbin(%r,%s,%s)" % (R, op, g.val(a[1]), g.val(a[2]))]
    if op == "fneg":
        return ["%s=tm.fneg(%s)" % (R, g.val(a[1]))]
    if op in ir.CAST:
        return ["%s=castx(X,S,%r,%s,%s,%s)" % (R, op, g.k(a[0]), g.val(a[1], a[0]), g.k(a[2]))]
    if op == "icmp":
        pred, ty, x, y = a
        if ty.k == "i" and pred in ("eq", "ne", "ult", "ugt", "ule", "uge"):
            o = {"eq": "==", "ne": "!=", "ult": "<", "ugt": ">", "ule": "<=", "uge": ">="}[pred]
            return ["a=%s;b=%s" % (g.val(x), g.val(y)),
                    "%s=(1 if a%sb else 0) if a.__class__ is int and b.__class__ is int else icmpp(X,S,%r,%d,a,b)" % (R, o, pred, ty.w)]
        return ["%s=icmpp(X,S,%r,%d,%s,%s)" % (R, pred, ty.w if ty.k == "i" else 64, g.val(x), g.val(y))]
    if op == "fcmp":
        return ["%s=fcmpx(X,%r,%s,%s)" % (R, a[0], g.val(a[2]), g.val(a[3]))]
    if op == "select":
        return ["%s=selectx(%s,%s,%s,%r)" % (R, g.val(a[0]), g.val(a[2]), g.val(a[3]), a[1].w if a[1].k == "i" else (F if a[1].k == "d" else None))]
    if op == "gep":
        bty, base, idx = a
        const = 0
        dyn = []
        ty = bty
        for j, (it, v) in enumerate(idx):
            if j == 0:
                sz = ty.size()
            elif ty.k == "s":
                fi = v[1]
                const += ty.offsets()[fi]
                ty = ty.fs[fi]
                continue
            else:
                ty = ty.el
                sz = ty.size()
            if v[0] == "c":
                const += tm.sgn(v[1], it.w) * sz
            else:
                dyn.append((g.val(v), it.w, sz))
        b = g.val(base)
        c64 = const & ((1 << 64) - 1)
        if not dyn:
            return ["p=%s" % b, "%s=Ptr(p.o,(p.off+%d)&%d) if p.__class__ is Ptr and p.off.__class__ is int else gepx(X,S,p,%d,())" % (R, c64, (1 << 64) - 1, c64)]
        if len(dyn) == 1 and dyn[0][1] == 64:
            return ["p=%s;i=%s" % (b, dyn[0][0]),
                    "%s=Ptr(p.o,(p.off+i*%d+%d)&%d) if i.__class__ is int and p.__class__ is Ptr and p.off.__class__ is int else gepx(X,S,p,%d,((i,64,%d),))" % (R, dyn[0][2], c64, (1 << 64) - 1, c64, dyn[0][2])]
        return ["%s=gepx(X,S,%s,%d,(%s,))" % (R, b, c64, ",".join("(%s,%d,%d)" % d for d in dyn))]
    if op == "load":
        ty = a[0]
        if ty.k in ("a", "s"):
            raise Unsupported("aggregate load")
        kind = {"i": "i", "d": "d", "p": "p", "x": "x"}.get(ty.k)
        if kind is None:
            raise Unsupported("load type " + ty.k)
        if ty.k == "i" and ty.w == 1:
            return ["%s=tm.trunc(1,X.load(S,%s,1,'i',8),8)" % (R, g.val(a[1]))]
        return ["%s=X.load(S,%s,%d,%r,%r)" % (R, g.val(a[1]), ty.size() if ty.k != "i" else (ty.w + 7) // 8, kind, ty.w if ty.k == "i" else None)]
    if op == "store":
        ty = a[0]
        if ty.k in ("a", "s"):
            raise Unsupported("aggregate store")
        n = ty.size() if ty.k != "i" else (ty.w + 7) // 8
        v = g.val(a[1], ty)
        if ty.k == "i" and ty.w == 1:
            v = "tm.zext(8,%s,1)" % v
        return ["X.store(S,%s,%d,%s)" % (g.val(a[2]), n, v)]
    if op == "alloca":
        if a[1][0] != "c":
            raise Unsupported("dynamic alloca")
        nm = ins.res
        el = a[0]
        while el.k == "a":
            el = el.el
        es = el.size() if el.k == "i" and a[0].k == "a" else None
        return ["%s=X.new_obj(S,%d,%r,es=%r)" % (R, a[0].size() * a[1][1], nm, es), "E[%d]=E[%d]+[%s.o]" % (nalloc, nalloc, R)]
    if op in ("call", "invoke"):
        rty, callee, args = a[0], a[1], a[2]
        al = "[%s]" % ",".join(g.val(v, t) for t, v in args)
        if callee[0] == "%":
            raise Unsupported("indirect call")
        out = ["%sX.call(S,%r,%s)" % ((R + "=") if R else "", callee, al)]
        if R and rty.k == "i":
            out.append("if %s.__class__ is Pending: %s=force(%s,%d)" % (R, R, R, rty.w))
        if op == "invoke":
            out.append("return (0,%d)" % bi[a[3]])
        return out
    if op == "br":
        return ["return (0,%d)" % bi[a[0]]]
    if op == "cbr":
        return ["return (1,%s,%d,%d)" % (g.val(a[0]), bi[a[1]], bi[a[2]])]
    if op == "switch":
        return ["return (3,%s,%d,%s,%d)" % (g.val(a[1]), bi[a[2]], g.k([(c, bi[t]) for c, t in a[3]]), a[0].w)]
    if op == "ret":
        if a[1] is None:
            return ["return (2,None)"]
        return ["return (2,%s)" % g.val(a[1], a[0])]
    if op == "unreachable" or op == "resume":
        return ["return (4,)"]
    if op == "landingpad":
        return ["pass"]
    if op == "extractvalue":
        return ["%s=extractx(%s,%r)" % (R, g.val(a[1], a[0]), tuple(a[2]))]
    if op == "insertvalue":
        return ["%s=insertx(%s,%s,%r)" % (R, g.val(a[1], a[0]), g.val(a[3], a[2]), tuple(a[4]))]
    if op == "freeze":
        return ["%s=%s" % (R, g.val(a[1], a[0]))]
    raise Unsupported("gen " + op)


def extractx(v, idx):
    for i in idx:
        v = v[i]
    return v


def insertx(v, x, idx):
    if not idx:
        return x
    l = list(v)
    l[idx[0]] = insertx(l[idx[0]], x, idx[1:])
    return tuple(l)


def selectx(c, a, b, w):
    if c.__class__ is int:
        return a if c else b
    if w == F:
        return tm.ite(c, tm.fk(a), tm.fk(b), F) if not (a is b) else a
    return merge_val(c, a, b, w)


SG = tm.sgn


def binx(X, S, op, w, a, b, fl):
    if a.__class__ is Pending: a = force(a, w)
    if b.__class__ is Pending: b = force(b, w)
    if a.__class__ is int and b.__class__ is int:
        if op in ("add", "sub", "mul"):
            sa, sb = SG(a, w), SG(b, w)
            r = sa + sb if op == "add" else sa - sb if op == "sub" else sa * sb
            if "s" in fl and not -(1 << (w - 1)) <= r < (1 << (w - 1)):
                X.oblige("signed-overflow", 0, S, "%s i%d" % (op, w))
            if "u" in fl:
                ru = a + b if op == "add" else a - b if op == "sub" else a * b
                if not 0 <= ru < (1 << w):
                    X.oblige("unsigned-overflow", 0, S, "%s i%d" % (op, w))
            return r & ((1 << w) - 1)
    if a.__class__ is Ptr or b.__class__ is Ptr:
        if op == "sub" and a.__class__ is Ptr and b.__class__ is Ptr and a.o == b.o:
            return tm.sub(64, a.off, b.off)
        raise Unsupported("pointer arithmetic")
    if op in ("add", "sub", "mul"):
        if "s" in fl:
            al, ah = tm.srng(a, w); bl, bh = tm.srng(b, w)
            if op == "add": lo, hi = al + bl, ah + bh
            elif op == "sub": lo, hi = al - bh, ah - bl
            else:
                q = (al * bl, al * bh, ah * bl, ah * bh)
                lo, hi = min(q), max(q)
                if a is b: lo = max(lo, 0)
            if lo < -(1 << (w - 1)) or hi >= 1 << (w - 1):
                ea, eb = tm.sext(2 * w, a, w), tm.sext(2 * w, b, w)
                r = {"add": tm.add, "sub": tm.sub, "mul": tm.mul}[op](2 * w, ea, eb)
                r1 = {"add": tm.add, "sub": tm.sub, "mul": tm.mul}[op](w, a, b)
                X.oblige("signed-overflow", tm.eq(2 * w, r, tm.sext(2 * w, r1, w)), S, "%s i%d" % (op, w))
            else:
                X.trivial["signed-overflow"] = X.trivial.get("signed-overflow", 0) + 1
        if "u" in fl:
            al, ah = tm.rng(a, w); bl, bh = tm.rng(b, w)
            if op == "add": lo, hi = al + bl, ah + bh
            elif op == "sub": lo, hi = al - bh, ah - bl
            else: lo, hi = al * bl, ah * bh
            if lo < 0 or hi >= 1 << w:
                ea, eb = tm.zext(2 * w, a, w), tm.zext(2 * w, b, w)
                r = {"add": tm.add, "sub": tm.sub, "mul": tm.mul}[op](2 * w, ea, eb)
                r1 = {"add": tm.add, "sub": tm.sub, "mul": tm.mul}[op](w, a, b)
                X.oblige("unsigned-overflow", tm.eq(2 * w, r, tm.zext(2 * w, r1, w)), S, "%s i%d" % (op, w))
    if op == "add": return tm.add(w, a, b)
    if op == "sub": return tm.sub(w, a, b)
    if op == "mul": return tm.mul(w, a, b)
    if op == "and": return tm.and_(w, a, b)
    if op == "or": return tm.or_(w, a, b)
    if op == "xor": return tm.xor(w, a, b)
    if op in ("shl", "lshr", "ashr"):
        X.oblige("shift-range", tm.ult(w, b, w), S, op)
        if op == "shl":
            # C++20: left shift of a signed value is defined modulo 2^w
            return tm.shl(w, a, b)
        return tm.lshr(w, a, b) if op == "lshr" else tm.ashr(w, a, b)
    X.oblige("division-by-zero", tm.not_(tm.eq(w, b, 0)), S, op)
    if op in ("sdiv", "srem"):
        MIN = 1 << (w - 1)
        ov = tm.and_(1, tm.eq(w, a, MIN), tm.eq(w, b, (1 << w) - 1))
        X.oblige("signed-overflow", tm.not_(ov), S, op)
    return {"udiv": tm.udiv, "sdiv": tm.sdiv, "urem": tm.urem, "srem": tm.srem}[op](w, a, b)


def icmpp(X, S, pred, w, a, b):
    if a.__class__ in (Ptr, PIte, FnPtr) or b.__class__ in (Ptr, PIte, FnPtr):
        if a.__class__ is Ptr and b.__class__ is Ptr:
            if a.o == b.o:
                return icmpp(X, S, pred, 64, a.off, b.off)
            if pred == "eq": return 0
            if pred == "ne": return 1
        if b.__class__ is int and b == 0 and a.__class__ is Ptr:
            if pred == "eq": return 0
            if pred == "ne": return 1
            if pred == "ugt": return 1
        if a.__class__ is PIte:
            return tm.ite(a.c, icmpp(X, S, pred, w, a.a, b), icmpp(X, S, pred, w, a.b, b), 1)
        raise Unsupported("pointer comparison")
    if a.__class__ is Pending: a = force(a, w)
    if b.__class__ is Pending: b = force(b, w)
    if pred == "eq": return tm.eq(w, a, b)
    if pred == "ne": return tm.not_(tm.eq(w, a, b))
    if pred == "ult": return tm.ult(w, a, b)
    if pred == "ugt": return tm.ult(w, b, a)
    if pred == "ule": return tm.ule(w, a, b)
    if pred == "uge": return tm.ule(w, b, a)
    if pred == "slt": return tm.slt(w, a, b)
    if pred == "sgt": return tm.slt(w, b, a)
    if pred == "sle": return tm.sle(w, a, b)
    if pred == "sge": return tm.sle(w, b, a)
    raise Unsupported("icmp " + pred)


def fcmpx(X, pred, a, b):
    if a.__class__ is float and b.__class__ is float:
        nan = a != a or b != b
        r = {"oeq": a == b, "one": a != b and not nan, "olt": a < b, "ogt": a > b, "ole": a <= b, "oge": a >= b,
             "uno": nan, "ord": not nan, "une": a != b or nan, "ueq": a == b or nan, "ult": not a >= b, "ugt": not a <= b,
             "ule": not a > b, "uge": not a < b}[pred]
        return 1 if r else 0
    if pred == "ogt": return tm.mk("fcmp", 1, "olt", tm.fk(b), tm.fk(a))
    if pred == "oge": return tm.mk("fcmp", 1, "ole", tm.fk(b), tm.fk(a))
    if pred == "une":
        return tm.not_(fcmpx(X, "oeq", a, b))
    if pred == "ugt": return tm.not_(fcmpx(X, "ole", a, b))
    if pred == "uge": return tm.not_(fcmpx(X, "olt", a, b))
    if pred == "ult": return tm.not_(fcmpx(X, "ole", b, a))
    if pred == "ule": return tm.not_(fcmpx(X, "olt", b, a))
    return tm.mk("fcmp", 1, pred, tm.fk(a), tm.fk(b))


def gepx(X, S, p, c, dyn):
    if p.__class__ is PIte:
        return PIte(p.c, gepx(X, S, p.a, c, dyn), gepx(X, S, p.b, c, dyn))
    if p.__class__ is int:
        if p == 0 and c == 0 and not dyn:
            return 0
        raise Unsupported("gep on integer pointer")
    if p.__class__ is not Ptr:
        raise Unsupported("gep on %r" % (p,))
    off = p.off
    for v, w, sz in dyn:
        if v.__class__ is Pending: v = force(v, w)
        v = tm.sext(64, v, w)
        off = tm.add(64, off, tm.mul(64, v, sz))
    return Ptr(p.o, tm.add(64, off, c))


def castx(X, S, op, t0, v, t1):
    if op in ("zext", "sext", "trunc"):
        if v.__class__ is Pending: v = force(v, t0.w)
        if op == "zext": return tm.zext(t1.w, v, t0.w)
        if op == "sext": return tm.sext(t1.w, v, t0.w)
        return tm.trunc(t1.w, v, t0.w)
    if op in ("sitofp", "uitofp"):
        if v.__class__ is Pending: v = force(v, t0.w)
        if v.__class__ is int:
            return float(tm.sgn(v, t0.w) if op == "sitofp" else v)
        # exact for |v| < 2^53: value-canonical form, independent of the width
        if op == "sitofp" and v.slo >= 0:
            op = "uitofp"
        while v.op == "zext" or (v.op == "sext" and op == "sitofp"):
            v = v.a[0]
        if v.op == "sym" or True:
            if op == "uitofp" and v.shi <= (1 << (v.w - 1)) - 1 and v.slo >= 0:
                op = "sitofp"
        return tm.mk("itofp", F, v, "s" if op == "sitofp" else "u")
    if op in ("fptosi", "fptoui"):
        if v.__class__ is float:
            if v != v or abs(v) == float("inf"):
                X.oblige("fp-to-int-range", 0, S)
            r = int(v)
            lo, hi = (-(1 << (t1.w - 1)), (1 << (t1.w - 1)) - 1) if op == "fptosi" else (0, (1 << t1.w) - 1)
            if not lo <= r <= hi:
                X.oblige("fp-to-int-range", 0, S)
            return r & ((1 << t1.w) - 1)
        X.assumptions.add("double-to-integer conversions are in range (machine floating point is not modelled)")
        return tm.mk(op, t1.w, v)
    if op == "bitcast":
        if t0.k == "d" and t1.k == "i":
            return X.conv(v, 8, "i")
        if t0.k == "i" and t1.k == "d":
            return X.conv(v, 8, "d")
        return v
    if op in ("ptrtoint", "inttoptr"):
        return v
    raise Unsupported("cast " + op)


# ---------------------------------------------------------------- builtins
def builtin(name, d):
    n = name[1:]
    if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove") or n in ("memcpy", "memmove"):
        return lambda X, S, a: X.memcpy(S, a[0], a[1], a[2])
    if n.startswith("llvm.memset") or n == "memset":
        return lambda X, S, a: X.memset(S, a[0], tm.trunc(8, a[1], 32) if n == "memset" else a[1], a[2])
    m = re.match(r"llvm\.(ctlz|cttz|ctpop|abs|umin|umax|smin|smax|bswap|fshl|fshr)\.i(\d+)$", n)
    if m:
        k, w = m.group(1), int(m.group(2))
        def f(X, S, a):
            x = force(a[0], w)
            if k == "ctlz": return tm.ctlz(w, x)
            if k == "cttz": return tm.cttz(w, x)
            if k == "ctpop": return tm.ctpop(w, x)
            if k == "abs":
                if a[1] == 1:
                    X.oblige("signed-overflow", tm.not_(tm.eq(w, x, 1 << (w - 1))), S, "abs")
                return tm.sabs(w, x)
            if k == "umin": return tm.ite(tm.ult(w, x, a[1]), x, a[1], w)
            if k == "umax": return tm.ite(tm.ult(w, x, a[1]), a[1], x, w)
            if k == "smin": return tm.ite(tm.slt(w, x, a[1]), x, a[1], w)
            if k == "smax": return tm.ite(tm.slt(w, x, a[1]), a[1], x, w)
            if k == "bswap":
                r = 0
                for i in range(w // 8):
                    r = tm.or_(w, r, tm.shl(w, tm.and_(w, tm.lshr(w, x, 8 * i), 255), w - 8 - 8 * i))
                return r
            sh = a[2] % w if a[2].__class__ is int else None
            if sh is None: raise Unsupported("fsh")
            if k == "fshl":
                return x if sh == 0 else tm.or_(w, tm.shl(w, x, sh), tm.lshr(w, a[1], w - sh))
            return a[1] if sh == 0 else tm.or_(w, tm.shl(w, x, w - sh), tm.lshr(w, a[1], sh))
        return f
    m = re.match(r"llvm\.(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)$", n)
    if m:
        w = int(m.group(3))
        def f(X, S, a):
            o = {"add": tm.add, "sub": tm.sub, "mul": tm.mul}[m.group(2)]
            r = o(w, a[0], a[1])
            e = tm.sext if m.group(1) == "s" else tm.zext
            return (r, tm.not_(tm.eq(2 * w, o(2 * w, e(2 * w, a[0], w), e(2 * w, a[1], w)), e(2 * w, r, w))))
        return f
    if n.startswith("llvm.is.constant"):
        return lambda X, S, a: 0
    if n.startswith("llvm.expect"):
        return lambda X, S, a: a[0]
    if n.startswith("llvm.assume"):
        return lambda X, S, a: None
    if n.startswith("llvm.lifetime") or n.startswith("llvm.dbg") or n.startswith("llvm.stack") or n.startswith("llvm.experimental"):
        return lambda X, S, a: None
    m = re.match(r"llvm\.(round|floor|ceil|trunc|sqrt|fabs|rint|nearbyint|lround|roundeven)\.f64$", n)
    if m or n in ("round", "floor", "ceil", "sqrt", "fabs", "trunc", "rint", "nearbyint"):
        k = m.group(1) if m else n
        def f(X, S, a):
            import math
            v = a[0]
            if v.__class__ is float:
                if k == "floor": return float(math.floor(v))
                if k == "ceil": return float(math.ceil(v))
                if k == "fabs": return abs(v)
                if k == "sqrt" and v >= 0: return math.sqrt(v)
                if k == "trunc": return float(math.trunc(v))
                if k == "round": return math.copysign(math.floor(abs(v) + 0.5), v) if abs(v) < 2 ** 51 else v
            return tm.fun(k, v)
        return f
    m = re.match(r"(?:llvm\.)?(lround|llround|lrint|llrint)(?:\.i64\.f64)?$", n)
    if m:
        k = "round" if "round" in m.group(1) else "rint"
        return lambda X, S, a: tm.mk("fptosi", 64, tm.fun(k, a[0]))
    if n in ("cos", "sin", "tan", "exp", "log") or re.match(r"llvm\.(cos|sin|exp|log)\.f64$", n):
        k = n.split(".")[1] if "." in n else n
        def f(X, S, a):
            import math
            if a[0].__class__ is float:
                try: return getattr(math, k)(a[0])
                except (ValueError, OverflowError): pass
            return tm.fun(k, a[0])
        return f
    if re.match(r"llvm\.fmuladd\.f64|llvm\.fma\.f64", n):
        return lambda X, S, a: tm.fbin("fadd", tm.fbin("fmul", a[0], a[1]), a[2]) if "muladd" in n else tm.fun("fma", *a)
    if n in ("_ZSt9terminatev", "abort", "__cxa_throw", "__assert_fail", "_ZSt20__throw_length_errorPKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt19__throw_logic_errorPKc"):
        def f(X, S, a):
            X.oblige("no-abort", 0, S, n)
        return f
    if n == "__cxa_begin_catch":
        return lambda X, S, a: 0
    m = re.match(r"__gmpz_(\w+)$", n)
    if m:
        import gmp
        return gmp.handler(m.group(1))
    return None
