"""Contracts of the integer sampler's rejection steps: fixed-point exponential, Bernoulli step, attempt loop."""
import random
from fractions import Fraction
import alg, rng as rnd_, smt, term as tm
from alg import P
from sym import Exec, State, Ptr, force
from term import T, F
from ir import Unsupported
from check import Refuted, Undecided, U
from lib import *
from tree import comp
from ntru import Cut, entails, entails_rel, fp_abs
from loops import Restart

# published coefficients of the approximation of exp(-x) (Falcon specification, section 3.9.3)
C = [0x00000004741183A3, 0x00000036548CFC06, 0x0000024FDCBF140A, 0x0000171D939DE045, 0x0000D00CF58F6F84, 0x000680681CF796E3,
     0x002D82D8305B0FEA, 0x011111110E066FD0, 0x0555555555070F00, 0x155555555581FF00, 0x400000000002B400, 0x7FFFFFFFFFFF4800,
     0x8000000000000000]
LN2 = 0.6931471805599453
LAM = random.Random("ln2").randrange(1, P)     # ln 2 as an element of GF(P)
SIG = Fraction(18205, 10000)                   # sigma_max


def fld(x):
    return x.numerator * alg.inv(x.denominator % P) % P


def _named():
    r = []
    for v, e in ((Fraction(LN2), LAM), (1 / Fraction(LN2), alg.inv(LAM))):
        r.append((v, e))
    for k in (1, 2, 4, Fraction(1, 2)):
        for v in (SIG * k, SIG * SIG * k):
            r += [(v, fld(v)), (1 / v, fld(1 / v))]
    return r + [(-v, -e % P) for v, e in r]


alg.NAMED += _named()


class Real(alg.Eval):
    """known: integer-valued results (value at the test point)"""
    def __init__(s, leaf):
        super().__init__(alg.Calls(), leaf)
        s.ints = set()

    def opaque(s, op, args):
        if args[0] in s.ints:
            return args[0]
        if op == "trunc" and ("floor", args[0]) in s.opq:
            return s.opq[("floor", args[0])]     # conversion truncates; the values converted are not negative
        r = super().opaque(op, args)
        if op in ("floor", "ceil", "round", "rint", "nearbyint", "roundeven"):
            s.ints.add(r)
        return r


def leaf(vals):
    return lambda t: vals.get(t.a[0]) if t.op in ("fsym", "sym") else None


def fs(nm):
    return tm.mk("fsym", F, nm)


def convs(ts):
    """conversions of doubles to integers that occur in ts"""
    return [t for t in tm.subterms([x for x in ts if x.__class__ is T]) if t.op in ("fptoui", "fptosi")]


def replace(E, ts, known, what):
    """conversions by the integer they compute: known = [(value at the test point, 64-bit term)]"""
    m = {}
    for t in convs(ts):
        x = t.a[0]
        # floor before a truncating conversion of something not negative changes nothing
        v = E.ev(x.a[0]) if x.__class__ is T and x.op in ("floor", "trunc") else E.ev(x)
        for w, s in known:
            if v == w:
                m[t.id] = tm.trunc(t.w, s, 64) if t.w < 64 else s
                break
        else:
            raise Refuted("%s: converts %s to an integer, which is none of the prescribed values" % (what, tm.show(x, 5)))
    return tm.subst(ts, m)


def obligations(acc, X, E, known, what):
    for o in X.obls:
        l = replace(E, list(o.pc) + [o.cond], known, what)
        l = fp_abs(l)
        if any(p.__class__ is int and not p for p in l[:-1]):
            continue
        prove(acc, [p for p in l[:-1] if p.__class__ is T], l[-1], o.kind + " at " + o.where, kind=o.kind)
    X.obls = []


def hl(m):
    return (tm.trunc(64, tm.lshr(128, m, 64), 128), tm.trunc(64, m, 128))


def wide(a, b):
    z = lambda x: tm.zext(128, x, 64)
    return tm.mul(128, z(a), z(b))


# ------------------------------------------------------------ products
def u_fullmul(mod):
    def go(acc):
        X, S = Exec(mod), State()
        a, b = tm.sym("a", 64), tm.sym("b", 64)
        o = X.new_obj(S, 16, "out")
        X.run(mod.func("@w_fullmul"), [a, b, o], S)
        acc.take(X); discharge(acc, X)
        hi, lo = read(X, S, o, 0, 8), read(X, S, o, 1, 8)
        got = tm.or_(128, tm.shl(128, tm.zext(128, hi, 64), 64), tm.zext(128, lo, 64))
        want = wide(a, b)
        H = lambda md: ["mul %d %d" % ((md or {}).get("a", 0), (md or {}).get("b", 0))]
        if got is want:
            acc.ok("syntactic")
            return
        # schoolbook: products of halves are names for the same integers on both sides; the identity
        # a*b = (a1 b1) 2^64 + (a1 b0 + a0 b1) 2^32 + a0 b0 is that of integer arithmetic
        h = lambda x: (tm.and_(64, x, 0xffffffff), tm.lshr(64, x, 32))
        (a0, a1), (b0, b1) = h(a), h(b)
        m, p = {}, {}
        for i, x in ((0, a0), (1, a1)):
            for j, y in ((0, b0), (1, b1)):
                s = p[i, j] = tm.sym("p%d%d" % (i, j), 64, 0, 0xffffffff ** 2)
                m[tm.mul(64, x, y).id] = s
                z = lambda v: tm.zext(128, v, 64)
                m[tm.mul(128, z(x), z(y)).id] = tm.zext(128, s, 64)
        m[want.id] = 0
        g = tm.subst([got], m)[0]
        if any(t.op == "mul" and t.a[0].__class__ is T and t.a[1].__class__ is T for t in tm.subterms([g])):
            raise Undecided("full_mul_u64: a product other than those of the halves: " + tm.show(g, 4))
        z = lambda v: tm.zext(128, v, 64)
        w = tm.add(128, tm.shl(128, z(p[1, 1]), 64), z(p[0, 0]))
        for x in (p[0, 1], p[1, 0]):
            w = tm.add(128, w, tm.shl(128, z(x), 32))
        prove(acc, [], tm.eq(128, g, w), "full_mul_u64: high and low words are not those of the product", hint=lambda md: ["mul"])
        acc.ok("algebra", kind="lemma")
    return go


def u_top63(mod):
    def go(acc):
        X, S = Exec(mod), State()
        h, l = tm.sym("h", 64, 0, (1 << 62) - 1), tm.sym("l", 64)
        r = X.run(mod.func("@w_top63"), [h, l], S)
        acc.take(X); discharge(acc, X)
        v = tm.or_(128, tm.shl(128, tm.zext(128, h, 64), 64), tm.zext(128, l, 64))
        prove(acc, [], tm.eq(128, tm.zext(128, r, 64), tm.lshr(128, v, 63)), "top_63_bits: not bits 63..125 of a 126-bit number",
              hint=lambda md: ["top %d %d" % (md.get("h", 0), md.get("l", 0))])
    return go


MUL = (r"^(std::pair<.*> )?samplerz::full_mul_u64\(", lambda X, S, a: hl(wide(a[0], a[1])))


def horner(z, ccs):
    y = C[0]
    for c in C[1:]:
        y = tm.sub(64, c, tm.trunc(64, tm.lshr(128, wide(z, y), 63), 128))
    return tm.trunc(64, tm.lshr(128, wide(ccs, y), 63), 128)


def inner(ts):
    for t in tm.subterms([x for x in ts if x.__class__ is T]):
        if t.w == 128 and t.op == "mul" and t.a[0].__class__ is T and t.a[1].__class__ is T:
            return t
    return None


def cut_muls(ts):
    """128-bit products by names, innermost first; products of equal factors get equal names"""
    n = 0
    while True:
        l = [inner([x]) for x in ts]
        t = next((x for x in l if x is not None), None)
        if t is None:
            return ts
        s = tm.sym("prod%d" % n, 128, t.lo, t.hi)
        n += 1
        m = {t.id: s}
        for x in l:
            if x is not None and x is not t:
                e = lambda i, j: tm.eq(128, x.a[i], t.a[j])
                for g in (tm.and_(1, e(0, 0), e(1, 1)), tm.and_(1, e(0, 1), e(1, 0))):
                    if g.__class__ is int and g or g.__class__ is T and smt.query([], g, timeout=20)[0] == "unsat":
                        m[x.id] = s
                        break
        ts = tm.subst(ts, m)


def u_approx(mod):
    """x in [0, ln 2], ccs in [0, 1]; result doubled modulo 2^64"""
    def go(acc):
        X, S = Exec(mod), State()
        X.contracts = comp([MUL])
        r = X.run(mod.func("@w_approx"), [fs("x"), fs("ccs")], S)
        acc.take(X)
        vals = {"x": alg.rnd(random.Random("ax")), "ccs": alg.rnd(random.Random("ac"))}
        E = Real(leaf(vals))
        z, c = tm.sym("z", 64, 0, int(LN2 * 2 ** 63)), tm.sym("c", 64, 0, 1 << 63)
        known = [(vals["x"] * 2 ** 63 % P, z), (vals["ccs"] * 2 ** 63 % P, c)]
        nm = "approx_exp"
        obligations(acc, X, E, known, nm)
        r, = replace(E, [r], known, nm)
        d = lambda v: tm.shl(64, v, 1)
        got, want = d(r), d(horner(z, c))
        if got is not want:
            got, want = cut_muls([got, want])
        prove(acc, [], tm.eq(64, got, want), nm + ": not the published polynomial with 63-bit truncation", hint=lambda md: ["approx"])
        top = tm.not_(tm.ult(64, 1 << 63, r))
        prove(acc, [], cut_muls([top])[0], nm + ": result above 2^63", hint=lambda md: ["approx"])
    return go


# ------------------------------------------------------------ Bernoulli step
def approx_contract(log):
    def h(X, S, a):
        log.append((a[0], a[1]))
        return tm.sym("Y%d" % (len(log) - 1), 64, 0, 1 << 63)
    return (r"^(unsigned long )?samplerz::approx_exp\(", h)


def first_diff(bs, z):
    """number of bytes read: up to and including the first that differs from z (at most 8)"""
    r = 8
    for j in range(6, -1, -1):
        zb = tm.and_(8, tm.trunc(8, tm.lshr(64, z, 56 - 8 * j), 64), 255)
        r = tm.ite(tm.eq(8, bs[j], zb), r, j + 1, 64)
    return r


def be(bs):
    v = 0
    for b in bs:
        v = tm.or_(64, tm.shl(64, v, 8), tm.zext(64, b, 8))
    return v


def u_ber(mod, arr):
    nm = "ber_exp(array)" if arr else "ber_exp(generator)"

    def go(acc):
        X, S = Exec(mod), State()
        log = []
        X.contracts = comp([rnd_.READ, approx_contract(log)])
        if arr:
            p = X.array_input(S, "b", 8, 1, ro=True)
            bs = [tm.sym("b[%d]" % i, 8) for i in range(8)]
            n = tm.sym("n", 64, 8, 1 << 62)
            o = X.new_obj(S, 16, "out")
            X.run(mod.func("@w_ber_arr"), [fs("x"), fs("ccs"), p, n, o], S)
            got, used = read(X, S, o, 0, 8), read(X, S, o, 1, 8)
        else:
            p = X.new_obj(S, None, "rng")
            bs = [rnd_.byte(i) for i in range(8)]
            got = X.run(mod.func("@w_ber_rng"), [fs("x"), fs("ccs"), p], S)
            got = tm.zext(64, force(got, 8), 8)
            used = S.ghost.get("rng", 0)
        acc.take(X)
        used = force(used, 64)
        vals = {"x": alg.rnd(random.Random("bx")), "ccs": alg.rnd(random.Random("bc"))}
        E = Real(leaf(vals))
        q = vals["x"] * alg.inv(LAM) % P
        s = E.opaque("floor", [q])
        s64 = tm.sym("s", 64, 0, (1 << 31) - 1)
        known = [(q, s64), (s, s64)]
        obligations(acc, X, E, known, nm)
        got, used = replace(E, [got, used], known, nm)
        if not log:
            raise Refuted(nm + ": approx_exp is not called")
        why = None
        for k, (x, c) in enumerate(log):
            if E.ev(x) != (vals["x"] - s * LAM) % P:
                why = Refuted(nm + ": the exponential is not taken at x - floor(x / ln 2) ln 2")
                continue
            if E.ev(c) != vals["ccs"]:
                why = Refuted(nm + ": the exponential is not scaled by ccs")
                continue
            y = tm.sym("Y%d" % k, 64, 0, 1 << 63)
            sh = tm.ite(tm.ult(64, s64, 63), s64, 63, 64)
            z = tm.lshr(64, tm.sub(64, tm.shl(64, y, 1), 1), sh)
            pc = [p for p in fp_abs(replace(E, list(S.pc), known, nm)) if p.__class__ is T]
            H = lambda md: ["ber"]
            prove(acc, pc, tm.eq(64, got, tm.zext(64, tm.ult(64, be(bs), z), 1)), nm + ": success is not 'random bytes below the threshold'", hint=H)
            prove(acc, pc, tm.eq(64, used, first_diff(bs, z)), nm + ": reads beyond, or not up to, the first byte that differs from the threshold", hint=H)
            acc.ok("identity-testing", 2)
            return
        raise why
    return go


def u_ber_short(mod):
    """array variant: n = 1..7 bytes: no access outside them"""
    def go(acc):
        for n in range(1, 8):
            X, S = Exec(mod), State()
            X.contracts = comp([approx_contract([])])
            p = X.array_input(S, "b", n, 1, ro=True)
            o = X.new_obj(S, 16, "out")
            X.run(mod.func("@w_ber_arr"), [fs("x"), fs("ccs"), p, n, o], S)
            acc.take(X)
            vals = {"x": alg.rnd(random.Random("bx")), "ccs": alg.rnd(random.Random("bc"))}
            E = Real(leaf(vals))
            q = vals["x"] * alg.inv(LAM) % P
            s = E.opaque("floor", [q])
            known = [(q, tm.sym("s", 64, 0, (1 << 31) - 1)), (s, tm.sym("s", 64, 0, (1 << 31) - 1))]
            obligations(acc, X, E, known, "ber_exp(array)")
            used, = replace(E, [read(X, S, o, 1, 8)], known, "ber_exp(array)")
            prove(acc, [], tm.not_(tm.ult(64, n, used)), "ber_exp(array): reports more bytes than it was given", hint=lambda md: ["ber"])
    return go


# ------------------------------------------------------------ attempt loop
BIG = 1 << 40


class Attempt:
    """loop head: nothing is known of earlier attempts but the number of bytes read so far;
    variables that advance (or fall) with it are found by execution"""

    def __init__(s, arr):
        s.arr = arr
        s.rel = None          # variable -> +1/-1, once found

    def var(s, S, E, key):
        if key[0] == "p":
            v = E[key[1]]
            return v.off if v.__class__ is Ptr else v
        return S.mem[key[1]].cells[key[2]][1]

    def header(s, cut, c, X, S, E):
        s.P = tm.sym("pos%d" % cut.restarts, 64, 0, BIG)
        S.ghost["pos"] = S.ghost["start"] = s.P
        S.ghost["bern"] = 0
        c.keys = []
        (fn, loop), = [k for k, v in cut.ctx.items() if v is c]
        info = cut.loops[fn, loop]
        keys = [("p", i) for i in sorted(info.phis)] + [("m",) + k for k in sorted(info.mod) if k in c.cells]
        for k in keys:
            v = s.var(S, E, k)
            if v.__class__ is T and v.w == 64:
                c.keys.append(k)
        for k, sg in (s.rel or {}).items():
            if k not in c.keys:
                continue
            v0 = s.var(c.entry, c.entryE, k)
            v = tm.add(64, v0, s.P) if sg > 0 else tm.sub(64, v0, s.P)
            if k[0] == "p":
                E[k[1]] = Ptr(E[k[1]].o, v) if E[k[1]].__class__ is Ptr else v
            else:
                S.w(k[1]).cells[k[2]] = (8, v)
        if s.arr:
            # precondition of the array variant: it holds enough bytes
            S.assume(enough(s.P))

    def back(s, cut, c, X, S, E):
        d = tm.sub(64, S.ghost["pos"], s.P)
        new = {}
        for k in c.keys:
            a, b = s.var(c.H, c.HE, k), s.var(S, E, k)
            for sg in (1, -1):
                w = tm.add(64, a, d) if sg > 0 else tm.sub(64, a, d)
                if entails_rel(S, tm.eq(64, force(b, 64), w), timeout=10):
                    new[k] = sg
                    break
        if s.rel is None:
            s.rel = new
            if new:
                raise Restart("variables that count bytes")
        bad = [k for k in s.rel if k in c.keys and new.get(k) != s.rel[k]]
        if bad:
            for k in bad:
                del s.rel[k]
            raise Restart("variable does not count bytes")
        b = force(S.ghost["bern"], 64)
        X.oblige("postcondition", b if b.__class__ is int else tm.eq(64, b, 1), S, "a candidate is thrown away without a Bernoulli step")
        X.oblige("postcondition", tm.not_(tm.sym("accept", 1)), S, "an accepted candidate is thrown away")


def enough(P):
    return tm.not_(tm.ult(64, tm.sym("n", 64, 18, BIG), tm.add(64, P, 18)))


class ExecS(Exec):
    steps_ = None

    def load_sym(s, S, o, off, n):
        if s.steps_ and o.id == s.steps_.bp.o and n == 1:
            return s.steps_.byte(S, off)
        return super().load_sym(S, o, off, n)


class Steps:
    """the stream and the contracts of the callees; an attempt begins at byte start"""

    def __init__(s, arr, b):
        s.arr, s.b = arr, b
        s.z0 = tm.sym("z0", 32, 0, 18)
        s.log = []

    def byte(s, S, i):
        """byte i of the stream; the one at start + 9 is split into its lowest bit, s.b, and the rest"""
        if i is tm.add(64, S.ghost["start"], 9) or i == tm.add(64, S.ghost["start"], 9):
            return tm.or_(8, tm.shl(8, tm.zext(8, tm.sym("rest", 7), 7), 1), s.b)
        if i.__class__ is int:
            return tm.sym("rnd[%d]" % i, 8)
        return tm.mk("select", 8, tm.mk("arrsym", tm.A, "rnd", 8), i)

    def gen(s, X, S, p):
        if s.arr or not (p.__class__ is Ptr and p.o == s.rp.o and p.off == 0):
            X.oblige("precondition", 0, S, "the given generator is used")

    def read(s, X, S, a):
        s.gen(X, S, a[0])
        if a[2].__class__ is not int:
            raise Unsupported("read of symbolic length")
        for i in range(a[2]):
            X.store(S, Ptr(a[1].o, tm.add(64, a[1].off, i)), 1, s.byte(S, tm.add(64, S.ghost["pos"], i)))
        S.ghost["pos"] = tm.add(64, S.ghost["pos"], a[2])

    def base_gen(s, X, S, a):
        s.gen(X, S, a[0])
        X.oblige("precondition", tm.eq(64, S.ghost["pos"], S.ghost["start"]), S, "the base sampler reads the first nine bytes of an attempt")
        S.ghost["pos"] = tm.add(64, S.ghost["pos"], 9)
        return s.z0

    def base_arr(s, X, S, a):
        for j in range(9):
            v = X.load(S, Ptr(a[0].o, tm.add(64, a[0].off, j)), 1, "i", 8)
            w = s.byte(S, tm.add(64, S.ghost["start"], 8 - j if s.arr else j))
            if v is not w:
                X.oblige("precondition", tm.eq(8, v, w), S, "byte %d of the base sampler's block" % j)
        return s.z0

    def ber_gen(s, X, S, a):
        s.gen(X, S, a[2])
        return s.ber(X, S, a[0], a[1])[0]

    def ber_arr(s, X, S, a):
        p, n = a[2], a[3]
        if not s.arr or not (p.__class__ is Ptr and p.o == s.bp.o):
            X.oblige("precondition", 0, S, "the Bernoulli step is given the random bytes")
        S.ghost["pos"] = p.off
        e = tm.add(64, p.off, n)
        X.oblige("precondition", tm.and_(1, tm.not_(tm.ult(64, s.n, e)), tm.not_(tm.ult(64, n, 8))), S, "the Bernoulli step is given the bytes that are left")
        r = s.ber(X, S, a[0], a[1])
        # precondition of the array variant: enough bytes for the next attempt, should this one fail
        S.assume(tm.or_(1, tm.sym("accept", 1), enough(S.ghost["pos"])))
        return r

    def ber(s, X, S, x, ccs):
        u = tm.sym("used", 64, 1, 8)
        X.oblige("precondition", tm.eq(64, S.ghost["pos"], tm.add(64, S.ghost["start"], 10)), S, "the Bernoulli step starts at the byte after the sign byte")
        S.ghost["pos"] = tm.add(64, S.ghost["pos"], u)
        S.ghost["bern"] = 1
        s.log.append((x, ccs))
        return tm.zext(8, tm.sym("accept", 1), 1), u

    def contracts(s):
        return [(r"^(unsigned int )?samplerz::base_sampler\(std::array", s.base_arr), (r"^(unsigned int )?samplerz::base_sampler\(prng", s.base_gen),
                (r"^prng::prng_t::read\(", s.read),
                (r"^(std::pair<.*> )?samplerz::ber_exp\(double, double, unsigned char", s.ber_arr),
                (r"^(unsigned char )?samplerz::ber_exp\(double, double, prng", s.ber_gen)]


def u_samp(mod, arr):
    nm = "samplerz(array)" if arr else "samplerz(generator)"

    def one(acc, b):
        def run(cut):
            X, S = ExecS(mod), State()
            st = Steps(arr, b)
            X.contracts = comp(st.contracts())
            X.feasible = lambda S: smt.query(fp_abs([p for p in S.pc if p.__class__ is T] + [0])[:-1], 0, timeout=20)[0] != "unsat"
            cut.install(X)
            S.ghost["pos"] = S.ghost["start"] = S.ghost["bern"] = 0
            if arr:
                st.n = tm.sym("n", 64, 18, BIG)
                st.bp = X.new_obj(S, st.n, "rbytes", ro=True, es=1)
                S.mem[st.bp.o].arr = tm.mk("arrsym", tm.A, "rnd", 8)
                X.steps_ = st
                o = X.new_obj(S, 8, "used")
                r = X.run(mod.func("@w_samp_arr"), [fs("mu"), fs("sp"), fs("smin"), st.bp, st.n, o], S)
                used = read(X, S, o, 0, 8)
            else:
                st.rp = X.new_obj(S, None, "rng")
                r = X.run(mod.func("@w_samp_rng"), [fs("mu"), fs("sp"), fs("smin"), st.rp], S)
                used = None
            return X, S, st, force(r, 32), used
        X, S, st, r, used = Cut(Attempt(arr)).run(run)
        acc.take(X)
        H = lambda md: ["samp"]
        R = random.Random("samp%d" % b)
        vals = {x: alg.rnd(R) for x in ("mu", "sp", "smin", "z0")}
        E = Real(leaf(vals))
        fl = E.opaque("floor", [vals["mu"]])
        z = (b + (2 * b - 1) * vals["z0"]) % P
        E.ints |= {z, (z + fl) % P}
        want = (z - (vals["mu"] - fl)) ** 2 * alg.inv(2 * vals["sp"] ** 2 % P) % P
        want = (want - vals["z0"] ** 2 * fld(1 / (2 * SIG * SIG))) % P
        # floor(mu) is assumed to fit: |floor(mu)| < 2^30
        f32 = tm.sym("fl", 32)
        f64 = tm.sext(64, f32, 32)
        z32 = tm.add(32, st.z0, 1) if b else tm.sub(32, 0, st.z0)
        known = [(vals["mu"], f64), (fl, f64), (z, tm.sext(64, z32, 32)), ((z + fl) % P, tm.add(64, tm.sext(64, z32, 32), f64))]
        fits = tm.and_(1, tm.slt(32, f32, 1 << 30), tm.slt(32, -(1 << 30) & 0xffffffff, f32))
        for o in X.obls:
            l = fp_abs(replace(E, list(o.pc) + [o.cond], known, nm))
            prove(acc, [fits] + [p for p in l[:-1] if p.__class__ is T], l[-1], o.kind + " at " + o.where, kind=o.kind, hint=H)
        for x, c in st.log:
            if E.ev(x) != want:
                raise Refuted(nm + ": the exponent is not (z-r)^2/(2 sigma'^2) - z0^2/(2 sigma_max^2)", ["samp"])
            if E.ev(c) != vals["smin"] * alg.inv(vals["sp"]) % P:
                raise Refuted(nm + ": the Bernoulli step is not scaled by sigma_min / sigma'", ["samp"])
            acc.ok("identity-testing", 2)
        if not st.log:
            raise Refuted(nm + ": no Bernoulli step", ["samp"])
        l = fp_abs(replace(E, list(S.pc) + [r], known, nm))
        pc = [fits] + [p for p in l[:-1] if p.__class__ is T]
        prove(acc, pc, tm.sym("accept", 1), nm + ": returns a candidate that was not accepted", hint=H)
        prove(acc, pc, tm.eq(32, l[-1], tm.add(32, z32, f32)), nm + ": the result is not floor(mu) + z", hint=H)
        if arr:
            prove(acc, pc, tm.eq(64, used, S.ghost["pos"]), nm + ": reported number of bytes", hint=H)
        if not mu0(b):
            raise Refuted("range")
        acc.ok("intervals", kind="lemma")

    def go(acc):
        for b in (0, 1):
            one(acc, b)
    return go


def mu0(b):
    """range of z: -18..0 and 1..19, used for candidate polynomials (mean 0)"""
    return [b + (2 * b - 1) * z for z in (0, 18)] == ([1, 19] if b else [0, -18])


def units(mod, rot):
    return [U("full_mul", "samplerz::full_mul_u64", u_fullmul(mod)), U("top_63", "samplerz::top_63_bits", u_top63(mod)),
            U("approx_exp", "samplerz::approx_exp", u_approx(mod)),
            U("ber_exp(generator)", "samplerz::ber_exp(double, double, prng_t)", u_ber(mod, False)),
            U("ber_exp(array)", "samplerz::ber_exp(double, double, array)", u_ber(mod, True)),
            U("ber_exp(array), short", "samplerz::ber_exp(double, double, array)", u_ber_short(mod)),
            U("samplerz(generator)", "samplerz::samplerz(prng_t)", u_samp(rot, False)),
            U("samplerz(array)", "samplerz::samplerz(array)", u_samp(rot, True))]
