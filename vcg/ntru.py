"""Contracts of big-integer polynomial arithmetic and the NTRU solver."""
import random, re
import alg, gmp, smt, term as tm
from alg import P
from gmp import rv, nega, prod, zin, zld, at
from sym import Exec, State, Ptr, short, force
from term import T, F, Z
from ir import Unsupported
from loops import Restart
from check import Refuted, Undecided, U
from lib import discharge
from tree import comp, either

Q = 12289
SIZES = [1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024]


def polys(calls, n):
    """contracts of the ring operations at size n"""
    def two(f, m):
        def h(X, S, a):
            gmp.new(calls, X, S, lambda v: f(v[:n], v[n:]), zld(X, S, a[1], n) + zld(X, S, a[2], n), [(a[0], m)])
        return h

    def one(f, m):
        def h(X, S, a):
            gmp.new(calls, X, S, f, zld(X, S, a[1], n), [(a[0], m)])
        return h
    return {"karatsuba": (r"karatsuba::karatsuba<%d(ul)?>\(" % n, two(prod, 2 * n)),
            "karamul": (r"karatsuba::karamul<%d(ul)?>\(" % n, two(nega, n)),
            "field_norm": (r"ntru_gen::field_norm<%d(ul)?>\(" % n, one(gmp.norm, n // 2)),
            "lift": (r"ntru_gen::lift<%d(ul)?>\(" % n, one(gmp.lift, 2 * n)),
            "galois_conjugate": (r"ntru_gen::galois_conjugate<%d(ul)?>\(" % n, one(gmp.conjg, n))}


def feasible(S, D, c):
    if c.__class__ is int:
        return bool(c)
    S2 = State()
    S2.pc = list(S.pc) + D
    return not entails_rel(S2, tm.not_(c), timeout=10)


def cases_of(S, mk):
    return gmp.Cases(S, mk, feasible)


def check(acc, C, X, S, p, m, want, what):
    for i in range(m):
        z = gmp.ld(X, S, at(p, i), "result")

        def go(E):
            if E.ev(z) != want(E)[i]:
                raise Refuted("%s: coefficient %d differs from its specification" % (what, i))
        C.each(go)
    acc.ok("identity-testing", m)


def unit(mod, name, w, n, m, f, nin, use):
    """a function of nin polynomials of n coefficients returning m coefficients equal to f"""
    def go(acc):
        calls = alg.Calls()
        X, S = Exec(mod), State()
        X.contracts = comp([polys(calls, k)[c] for c, k in use])
        ins = [zin(X, S, "ab"[i], n) for i in range(nin)]
        R = X.new_obj(S, 16 * m, "result")
        X.run(mod.func("@%s%d" % (w, n)), ins + [R], S)
        acc.take(X); discharge(acc, X)
        for seed in (1, 2):
            rng = random.Random("%s%d.%d" % (name, n, seed))
            v = [rv(rng, n) for _ in range(nin)]
            C = cases_of(S, lambda: gmp.Eval(calls, gmp.zleaf(dict(zip("ab", v))), seed))
            memo = {}

            def want(E):
                k = frozenset(E.over.items())
                if k not in memo:
                    memo[k] = f(*[[E.over.get("%s[%d]" % (x, i), y) for i, y in enumerate(l)] for x, l in zip("ab", v)])
                return memo[k]
            check(acc, C, X, S, R, m, want, "%s<%d>" % (name, n))
    return go


def cases(n):
    """(name, entry, output size, definition, arity, contracts used)"""
    h = n // 2
    r = [("karatsuba", "w_kar", 2 * n, prod, 2, [("karatsuba", h)] if n > 1 else []),
         ("karamul", "w_mul", n, nega, 2, [("karatsuba", n)]),
         ("lift", "w_lift", 2 * n, gmp.lift, 1, [])]
    if n > 1:
        r += [("field_norm", "w_norm", h, gmp.norm, 1, [("karamul", h), ("karatsuba", h)]),
              ("galois_conjugate", "w_conj", n, gmp.conjg, 1, [])]
    return r


def u_poly(mod, n, c):
    nm, w, m, f, k, use = c
    go = unit(mod, nm, w, n, m, f, k, use)
    if n <= 16 and use:
        go = either([U(nm, nm, go)], unit(mod, nm, w, n, m, f, k, []))
    return go


# ------------------------------------------------------------ loops cut by an algebraic invariant
class Info:
    def __init__(s):
        s.mod, s.phis = set(), set()


class Cut:
    """loops left on an input-dependent condition: executed once from an arbitrary
    header state; modified cells and variables are found by execution, the
    relation between them is the business of the spec"""

    def __init__(s, spec, keep=()):
        s.loops, s.spec = {}, spec
        s.restarts = 0

    def run(s, go):
        while True:
            s.ctx = {}
            s.n = 0
            try:
                return go(s)
            except Restart as e:
                s.restarts += 1
                if s.restarts > 40:
                    raise Undecided("loop invariant does not stabilise: %s" % e)

    def install(s, X):
        X.loop_hook = s.hook

    def hook(s, X, kind, fn, C, loop, S, E, n):
        key = (fn.name, loop)
        info = s.loops.get(key)
        if info is None:
            if kind == "back" and key in X.symexit:
                s.loops[key] = Info()
                raise Restart("cut " + short(X.mod.dem.get(fn.name, fn.name)))
            return None
        return (s.enter if kind == "enter" else s.back)(X, fn, C, loop, S, E, info, key)

    def fresh(s, c, nm, v):
        s.n += 1
        nm = "h%d:%s" % (s.n, nm)
        if v.__class__ is T:
            if v.w == Z: return tm.mk("zsym", Z, nm)
            if v.w == F: return tm.mk("fsym", F, nm)
            return tm.sym(nm, v.w)
        if v.__class__ is float:
            return tm.mk("fsym", F, nm)
        raise Unsupported("loop modifies a %s" % v.__class__.__name__)

    def enter(s, X, fn, C, loop, S, E, info, key):
        if key in s.ctx:
            raise Unsupported("loop entered on several paths")
        c = s.ctx[key] = Info()
        c.entry = S.fork()
        c.entryE = list(E)
        c.cells = {}
        for _, idx, ty in C.phis[loop]:
            if idx in info.phis:
                if ty.k == "i":
                    s.n += 1
                    E[idx] = tm.sym("h%d:%s" % (s.n, C.names[idx]), ty.w)
                elif ty.k == "d":
                    s.n += 1
                    E[idx] = tm.mk("fsym", F, "h%d:%s" % (s.n, C.names[idx]))
                elif E[idx].__class__ is Ptr:
                    s.n += 1
                    E[idx] = Ptr(E[idx].o, tm.sym("h%d:%s" % (s.n, C.names[idx]), 64))
                else:
                    raise Unsupported("loop variable of type " + ty.k)
        for oid, off in sorted(info.mod):
            o = S.mem.get(oid)
            if o is None:
                continue
            v = o.cells.get(off)
            if v is None and o.lazy is not None:
                v = o.lazy(off)
            if v is None:
                continue
            x = v[1]
            x = tm.sym("h%d:%s" % (s.n, o.name), 8 * v[0]) if x.__class__ is int else s.fresh(c, "%s+%d" % (o.name, off), x)
            s.n += 1
            S.w(oid).cells[off] = (v[0], x)
            c.cells[(oid, off)] = x
        s.spec.header(s, c, X, S, E)
        c.H, c.HE = S.fork(), list(E)
        S.ghost["cut%s" % (key,)] = tm.sym("cut%d" % len(s.ctx), 64)
        c.tag = S.ghost["cut%s" % (key,)]
        return [(S, E, C.header[loop], tuple([0] * len(C.chain[C.header[loop]])))]

    def keeps(s, S, new, old, w):
        """a flag: constant at the loop head, and on every path that returns to it"""
        if old.__class__ is bool or old.__class__ is not int:
            return False
        new = force(new, w)
        return entails_rel(S, tm.eq(w, new, old), timeout=10)

    def back(s, X, fn, C, loop, S, E, info, key):
        c = s.ctx[key]
        if S.ghost.get("cut%s" % (key,)) is not c.tag:
            raise Unsupported("loop entered on several paths")
        new = False
        for _, idx, ty in C.phis[loop]:
            a, b = E[idx], c.HE[idx]
            if not (a is b or a.__class__ is not T and a == b) and idx not in info.phis:
                if ty.k == "i" and s.keeps(S, a, b, ty.w):
                    continue
                if a.__class__ is Ptr and b.__class__ is Ptr and a == b:
                    continue
                info.phis.add(idx)
                new = True
        for oid, o in S.mem.items():
            h = c.H.mem.get(oid)
            if h is None or h is o:
                continue
            if o.arr is not None or h.arr is not None:
                if o.arr is not h.arr:
                    raise Unsupported("loop indexes memory symbolically")
                continue
            for off in o.cells.keys() | h.cells.keys():
                u, v = h.cells.get(off), o.cells.get(off)
                if u is v or (oid, off) in info.mod:
                    continue
                if u is None and h.lazy is not None:
                    u = h.lazy(off)
                    if u is None and v is not None:
                        continue
                if u is not None and v is not None and u[0] == v[0] and (u[1] is v[1] or u[1].__class__ is not T and u[1] == v[1]):
                    continue
                if u is not None and v is not None and u[0] == v[0] and len(h.cells) <= 4 and s.keeps(S, v[1], u[1], 8 * u[0]):
                    continue
                if u is None:
                    continue        # not initialised at the header: whatever a later iteration reads is arbitrary
                info.mod.add((oid, off))
                new = True
        if new:
            raise Restart("modified set")
        s.spec.back(s, c, X, S, E)
        return []


def entails(S, g, timeout=30):
    if g.__class__ is int:
        return bool(g)
    for sv in ("z3", "cvc5"):
        r = smt.query(list(S.pc), g, solver=sv, timeout=timeout)[0]
        if r == "unsat":
            return True
        if r == "sat":
            return False
    return False


def entails_rel(S, g, timeout=30):
    """entailment by the path conditions that share symbols with the goal"""
    if g.__class__ is int:
        return bool(g)
    syms = lambda t: {x.id for x in tm.subterms([t]) if x.op in ("sym", "fsym", "fxf")}
    need = syms(g)
    pcs = [(p, syms(p)) for p in S.pc if p.__class__ is T]
    pick, ch = [], True
    while ch:
        ch = False
        for i, x in enumerate(pcs):
            if x is not None and x[1] & need:
                pick.append(x[0]); need |= x[1]
                pcs[i] = None
                ch = True
    r = fp_abs(pick + [g])
    return smt.query(r[:-1], r[-1], timeout=timeout)[0] == "unsat"


def fp_abs(roots):
    """conditions over floating-point values alone become arbitrary booleans"""
    fl, m = {}, {}
    for t in tm.subterms(roots):
        f = 1 if t.w in (F, Z) or t.op in ("fsym", "fxf") else 2 if t.op == "sym" else 0
        for x in t.a:
            if x.__class__ is T:
                f |= fl[x.id]
        fl[t.id] = f
        if t.w == 1 and f == 1:
            m[t.id] = tm.sym("fpc:%d" % t.id, 1)
    return tm.subst(roots, m)


def decided(S):
    """truth of a condition on the paths of S, where one holds on all of them"""
    memo, cs = {}, []

    def f(c):
        if c.id not in memo:
            memo[c.id] = True if entails(S, c) else False if entails(S, tm.not_(c)) else None
            cs.append((c, memo[c.id]))
        return memo[c.id]
    f.conds = lambda: cs
    return f


# ------------------------------------------------------------ extended gcd
class XgcdSpec:
    """relations u*x + v*y = w between integers live at the loop head (those inductive)"""

    def __init__(s, acc):
        s.acc, s.T, s.vals, s.x, s.y = acc, None, None, None, None
        s.variant = False

    def solve(s, names, rng):
        """random values of the cells under the assumed relations"""
        idx = {n: i for i, n in enumerate(names)}
        rows = []
        for u, v, w in s.T:
            r = [0] * (len(names) + 1)
            r[idx[u]] = (r[idx[u]] + s.x) % P
            r[idx[v]] = (r[idx[v]] + s.y) % P
            r[idx[w]] = (r[idx[w]] - 1) % P
            rows.append(r)
        piv = []
        for c in range(len(names)):
            k = next((i for i in range(len(piv), len(rows)) if rows[i][c]), None)
            if k is None:
                continue
            p = len(piv)
            rows[p], rows[k] = rows[k], rows[p]
            z = alg.inv(rows[p][c])
            rows[p] = [a * z % P for a in rows[p]]
            for i in range(len(rows)):
                if i != p and rows[i][c]:
                    m = rows[i][c]
                    rows[i] = [(a - m * b) % P for a, b in zip(rows[i], rows[p])]
            piv.append(c)
        val = [alg.rnd(rng) if c not in piv else None for c in range(len(names))]
        for p, c in enumerate(piv):
            val[c] = -sum(rows[p][j] * val[j] for j in range(len(names)) if j != c and j not in piv) % P
        return dict(zip(names, val))

    def header(s, cut, c, X, S, E):
        rng = random.Random("xgcd")
        s.x, s.y = alg.rnd(rng), alg.rnd(rng)
        names = [k for k in sorted(c.cells) if c.cells[k].w == Z]
        if s.T is None or s.names != names:
            # relations that hold on entry
            s.names = names
            ev = gmp.Eval(alg.Calls(), gmp.zleaf({"a": [s.x], "b": [s.y]}))
            e = {k: ev.ev(gmp.ld(X, c.entry, Ptr(*k))) for k in names}
            s.T = {(u, v, w) for u in names for v in names for w in names
                   if u != v and v != w and u != w and (e[u] * s.x + e[v] * s.y - e[w]) % P == 0}
        val = s.solve(names, rng)
        d = {c.cells[k].a[0]: val[k] for k in names}
        io = gmp.zleaf({"a": [s.x], "b": [s.y]})
        s.leaf = lambda t: d.get(t.a[0]) if t.op == "zsym" and t.a[0] in d else io(t)

    def back(s, cut, c, X, S, E):
        bad, evs = set(), []

        def go(ev):
            now = {k: ev.ev(gmp.ld(X, S, Ptr(*k))) for k in s.names}
            bad.update(t for t in s.T if (now[t[0]] * s.x + now[t[1]] * s.y - now[t[2]]) % P)
            evs.append((ev, now))
        cases_of(S, lambda: gmp.Eval(alg.Calls(), s.leaf)).each(go)
        if bad:
            s.T -= bad
            raise Restart("relations")
        s.acc.ok("identity-testing", len(s.T), kind="invariant")
        # variant: an integer the loop exits on becomes a remainder modulo itself
        exits = [k for k in s.names if any(x.a[0] == "zcmp:%d:%d" % (c.cells[k].id, gmp.zc(0).id) for p in S.pc if p.__class__ is T
                                           for x in tm.subterms([p]) if x.op == "sym")]
        for k in exits:
            s.variant = s.variant or all(any(op in ("ztdiv", "zfdiv") and args[1] == ev.ev(c.cells[k]) and (args[0] - q * ev.ev(c.cells[k]) - now[k]) % P == 0
                                             for (op, *args), q in list(ev.opq.items())) for ev, now in evs)
        if not s.variant:
            raise Undecided("xgcd: no integer tested by the loop is reduced modulo itself (termination)")
        s.acc.ok("identity-testing", kind="variant")


def u_xgcd(mod):
    def go(acc):
        spec = XgcdSpec(acc)
        cut = Cut(spec)

        def run(cut):
            X, S = Exec(mod), State()
            cut.install(X)
            x, y = zin(X, S, "a", 1), zin(X, S, "b", 1)
            R = X.new_obj(S, 48, "result")
            X.run(mod.func("@w_xgcd"), [x, y, R], S)
            return X, S, R
        X, S, R = cut.run(run)
        acc.take(X); discharge(acc, X)
        if not cut.ctx:     # no loop: straight-line (library call)
            rng = random.Random("xg")
            spec.x, spec.y = alg.rnd(rng), alg.rnd(rng)
            spec.leaf = gmp.zleaf({"a": [spec.x], "b": [spec.y]})
        for seed in range(1, 5):
            def go(ev):
                a, b, g = [ev.ev(z) for z in zld(X, S, R, 3)]
                if (a * spec.x + b * spec.y - g) % P:
                    raise Refuted("xgcd: a*x + b*y differs from the reported value")
            cases_of(S, lambda: gmp.Eval(alg.Calls(), spec.leaf, seed)).each(go)
        acc.ok("identity-testing", 4)
    return go


# ------------------------------------------------------------ size estimate
class AblSpec:
    """approx_bit_len: the scanned value shrinks towards zero while it is positive"""

    def __init__(s, acc):
        s.acc = acc

    def header(s, cut, c, X, S, E):
        pass

    def back(s, cut, c, X, S, E):
        ok = False
        for k, h in c.cells.items():
            if h.w != Z:
                continue
            v = gmp.ld(X, S, Ptr(*k))
            if v.op in ("zfdiv2", "ztdiv2") and v.a[0] is h and v.a[1].__class__ is int and v.a[1] > 0:
                pos = tm.slt(32, 0, gmp.cmpsym(h, gmp.zc(0)))
                nz = tm.not_(tm.eq(32, gmp.cmpsym(h, gmp.zc(0)), 0))
                if entails(S, pos) or v.op == "ztdiv2" and entails(S, nz):
                    ok = True
        if not ok:
            raise Undecided("approx_bit_len: no positive integer is shifted down in every iteration (termination)")
        s.acc.ok("z3", kind="variant")


def u_abl(mod):
    def go(acc):
        spec = AblSpec(acc)

        def run(cut):
            X, S = Exec(mod), State()
            cut.install(X)
            X.run(mod.func("@w_abl"), [zin(X, S, "a", 1)], S)
            return X
        X = Cut(spec).run(run)
        acc.take(X); discharge(acc, X)
    return go


_abl = [0]


def abl_contract():
    """some size below 2^32 bits (an mpz of more bits exceeds any address space in use here)"""
    def h(X, S, a):
        z = gmp.ld(X, S, a[0])
        return tm.sym("bits:%d" % z.id, 64, 0, 1 << 32)
    return (r"ntru_gen::approx_bit_len\(", h)


def minmax_contract(n):
    def h(X, S, a):
        v = zld(X, S, a[1], n)
        for i, nm in enumerate(("zmin", "zmax")):
            gmp.st(X, S, at(a[0], i), tm.mk(nm, Z, *v))
    return (r"ntru_gen::min_max<%d(ul)?>\(" % n, h)


# ------------------------------------------------------------ Babai reduction
class ReduceSpec:
    def __init__(s, acc, calls, n, F, G):
        s.acc, s.calls, s.n, s.F, s.G = acc, calls, n, F, G
        s.measure = None

    def header(s, cut, c, X, S, E):
        n = s.n
        rng = random.Random("red%d" % n)
        s.v = {x: rv(rng, n) for x in "fgF"}
        s.c = rv(rng, n)                          # f G - g F
        s.v["G"] = gmp.rdiv(gmp.vadd(s.c, nega(s.v["g"], s.v["F"])), s.v["f"])
        s.leaf0 = gmp.zleaf(s.v)
        d = {}
        for nm, p in (("F", s.F), ("G", s.G)):
            for i in range(n):
                t = gmp.ld(X, S, at(p, i))
                if t.op != "zsym":
                    raise Unsupported("reduce does not update F, G in place")
                d[t.a[0]] = s.v[nm][i]
        s.leaf = lambda t: d.get(t.a[0]) if t.op == "zsym" and t.a[0] in d else s.leaf0(t)
        # words at the loop head
        s.words = {}

    def rel(s, ev, X, S):
        F = [ev.ev(z) for z in zld(X, S, s.F, s.n)]
        G = [ev.ev(z) for z in zld(X, S, s.G, s.n)]
        return gmp.vsub(nega(s.v["f"], G), nega(s.v["g"], F)) == s.c

    def back(s, cut, c, X, S, E):
        for seed in (1, 2):
            def go(E):
                if not s.rel(E, X, S):
                    raise Refuted("reduce<%d>: an iteration changes f*G - g*F" % s.n)
            cases_of(S, lambda: gmp.Eval(s.calls, s.leaf, seed)).each(go)
        s.acc.ok("identity-testing", 2 * s.n, kind="invariant")
        s.variant(cut, c, X, S, E)

    def variant(s, cut, c, X, S, E):
        """a lexicographic measure over machine words of the loop head decreases: either an unsigned word
        decreases, or it is unchanged and a counter with a constant bound moves towards it"""
        ws = []
        for key, x in s.headwords(c).items():
            now = s.word_now(key, S, E)
            if now is not None:
                ws.append((x, now))
        dec = [(x, tm.ult(x.w, y, x), tm.eq(x.w, x, y)) for x, y in ws]
        for a, da, ea in dec:
            if entails_rel(S, da):
                s.acc.ok("z3", kind="variant")
                return
        consts = {k for p in S.pc if p.__class__ is T for t in tm.subterms([p]) if t.op in ("eq", "ult", "ule", "slt", "sle")
                  for k in t.a if k.__class__ is int and 0 < k < 1 << 20}
        consts = sorted(consts | {k + 1 for k in consts})
        alts = [0] + [(a, da, ea) for a, da, ea in dec]
        for A in alts:
            da, ea = (0, 1) if A == 0 else A[1:]
            if A != 0 and not entails_rel(S, tm.or_(1, da, ea)):
                continue
            for b, y in ws:
                if A != 0 and b is A[0]:
                    continue
                if A != 0 and entails_rel(S, tm.or_(1, da, tm.ult(b.w, y, b))):
                    s.acc.ok("z3", 2, kind="variant")
                    return
                # a counter that climbs, below a constant the loop enforces
                for K in consts:
                    below = tm.ult(b.w, b, K)
                    up = tm.and_(1, tm.ult(b.w, b, y), tm.ult(b.w, y, K))
                    if s.entry_small(c, b, K) and entails_rel(S, tm.implies(below, tm.and_(1, tm.ult(b.w, y, K), tm.or_(1, da, up)))):
                        s.acc.ok("z3", 3, kind="variant")
                        return
        raise Undecided("reduce<%d>: no measure found that bounds the number of iterations" % s.n)

    def headwords(s, c):
        r = {}
        for k, h in c.cells.items():
            if h.__class__ is T and h.w > 0:
                r[("cell", k)] = h
        for i, (a, b) in enumerate(zip(c.entryE, c.HE)):
            if a is not b and b.__class__ is T and b.w > 0 and b.op == "sym":
                r[("phi", i)] = b
        return r

    def word_now(s, key, S, E):
        if key[0] == "phi":
            return force(E[key[1]], 64)
        o = S.mem.get(key[1][0])
        x = o and o.cells.get(key[1][1])
        return x[1] if x else None

    def entry_small(s, c, b, K):
        for key, h in s.headwords(c).items():
            if h is b:
                if key[0] == "phi":
                    v = c.entryE[key[1]]
                else:
                    v = c.entry.mem[key[1][0]].cells[key[1][1]][1]
                return v.__class__ is int and v < K
        return False


def reduce_contracts(calls, n):
    k = gmp.lg(n)
    return comp([polys(calls, n)["karamul"], abl_contract(), minmax_contract(n)] + calls.contracts([k]))


def u_reduce(mod, n):
    def go(acc):
        calls = alg.Calls()
        holder = {}

        def run(cut):
            X, S = Exec(mod), State()
            X.contracts = reduce_contracts(calls, n)
            cut.install(X)
            f, g = zin(X, S, "f", n), zin(X, S, "g", n)
            F, G = zin(X, S, "F", n, ro=False), zin(X, S, "G", n, ro=False)
            cut.spec.F, cut.spec.G = F, G
            X.run(mod.func("@w_red%d" % n), [f, g, F, G], S)
            return X, S
        spec = ReduceSpec(acc, calls, n, None, None)
        cut = Cut(spec)
        X, S = cut.run(run)
        acc.take(X); discharge(acc, X)
        if not cut.ctx:
            raise Undecided("reduce<%d> has no loop to cut" % n)
        for seed in range(1, 5):
            def go(E):
                if not spec.rel(E, X, S):
                    raise Refuted("reduce<%d>: f*G - g*F differs between entry and return" % n)
            cases_of(S, lambda: gmp.Eval(calls, spec.leaf, seed)).each(go)
        acc.ok("identity-testing", 4 * n)
    return go


def reduce_contract(calls, n):
    """F, G replaced by F', G' with f G' - g F' = f G - g F; nothing else is known of them"""
    def h(X, S, a):
        f, g, F, G = a[:4]

        def fn(v):
            v = [v[i * n:i * n + n] for i in range(4)]
            rng = random.Random(str(v[2][:2] + v[3][:2]))
            k = rv(rng, n)
            c = gmp.vsub(nega(v[0], v[3]), nega(v[1], v[2]))
            return k + gmp.rdiv(gmp.vadd(c, nega(v[1], k)), v[0])
        gmp.new(calls, X, S, fn, [z for p in (f, g, F, G) for z in zld(X, S, p, n)], [(F, n), (G, n)])
    return (r"ntru_gen::reduce<%d(ul)?>\(" % n, h)


def xgcd_contract(calls, log):
    def h(X, S, a):
        def fn(v):
            rng = random.Random(str(v))
            w = 1 if log.get("one", True) else alg.rnd(rng)
            u = alg.rnd(rng)
            return [u, (w - u * v[0]) * alg.inv(v[1]) % P, w]
        cid = gmp.new(calls, X, S, fn, [gmp.ld(X, S, a[1]), gmp.ld(X, S, a[2])], [(a[0], 3)])
        log.setdefault("calls", []).append([gmp.ld(X, S, at(a[0], i)) for i in range(3)])
    return (r"ntru_gen::xgcd\(", h)


def solve_contract(calls, n, log):
    """a status and, where it says so, F, G with f G - g F = q"""
    def h(X, S, a):
        def fn(v):
            f, g = v[:n], v[n:]
            rng = random.Random(str(v[:2]))
            F = rv(rng, n)
            return F + gmp.rdiv(gmp.vadd([Q] + [0] * (n - 1), nega(g, F)), f)
        R, f, g = a[:3]
        i = zld(X, S, f, n), zld(X, S, g, n)
        G = Ptr(R.o, tm.add(64, R.off, 16 * n))
        cid = gmp.new(calls, X, S, fn, i[0] + i[1], [(R, n), (G, n)])
        st = tm.sym("status:%d" % cid, 32)
        X.store(S, Ptr(R.o, tm.add(64, R.off, 32 * n)), 4, st)
        log.setdefault("solve", []).append((i, st, zld(X, S, R, n), zld(X, S, G, n)))
    return (r"ntru_gen::ntru_solve<%d(ul)?>\(" % n, h)


def u_solve(mod, n):
    def go(acc):
        calls, log = alg.Calls(), {}
        X, S = Exec(mod), State()
        if n == 1:
            X.contracts = comp([xgcd_contract(calls, log)])
        else:
            pc, ph = polys(calls, n), polys(calls, n // 2)
            X.contracts = comp([pc["karamul"], pc["galois_conjugate"], pc["field_norm"], ph["lift"],
                                reduce_contract(calls, n), solve_contract(calls, n // 2, log)])
        f, g = zin(X, S, "f", n), zin(X, S, "g", n)
        F, G = X.new_obj(S, 16 * n, "F"), X.new_obj(S, 16 * n, "G")
        r = X.run(mod.func("@w_solve%d" % n), [f, g, F, G], S)
        acc.take(X); discharge(acc, X)
        said = tm.not_(tm.eq(32, r, 0))
        need = []
        if n == 1:
            for u, v, w in log.get("calls", []):
                need.append(tm.eq(32, gmp.cmpsym(w, gmp.zc(1)), 0))
        else:
            for i, st, a, b in log.get("solve", []):
                need.append(tm.eq(32, st, 0))
        if len(need) != 1:
            raise Undecided("ntru_solve<%d>: %d inner solutions" % (n, len(need)))
        if not entails(S, tm.implies(said, need[0])):
            raise Refuted("ntru_solve<%d>: reports a solution although %s" %
                          (n, "the extended gcd found no 1" if n == 1 else "the halved problem reported none"))
        acc.ok("z3")
        S2 = S.fork()
        S2.pc = list(S.pc) + [said]
        for seed in range(1, 4):
            rng = random.Random("solve%d.%d" % (n, seed))
            v = {"f": rv(rng, n), "g": rv(rng, n)}

            def go(E):
                Fv, Gv = [E.ev(z) for z in zld(X, S, F, n)], [E.ev(z) for z in zld(X, S, G, n)]
                if gmp.vsub(nega(v["f"], Gv), nega(v["g"], Fv)) != [Q] + [0] * (n - 1):
                    raise Refuted("ntru_solve<%d>: a reported solution does not satisfy f*G - g*F = q" % n)
            cases_of(S2, lambda: gmp.Eval(calls, gmp.zleaf(v), seed)).each(go)
        acc.ok("identity-testing", 3 * n)
    return go


def u_minmax(mod, n):
    def go(acc):
        X, S = Exec(mod), State()
        R = X.new_obj(S, 32, "result")
        X.run(mod.func("@w_mm%d" % n), [zin(X, S, "a", n), R], S)
        acc.take(X); discharge(acc, X)
        zld(X, S, R, 2)
    return go
