"""Contracts of key generation: candidate loop, invertibility, Gram-Schmidt norm, public key, byte level."""
import random, re
import alg, gmp, ffc, gfq, smt, term as tm, entry
from alg import P
from sym import Exec, State, Ptr, force
from term import T, F, Z
from check import Refuted, Undecided, U
from lib import *
from tree import comp
from ntru import Cut, entails, decided, solve_contract, SIZES
from gmp import zld, at

THRESHOLD = 1.17 * 1.17 * 12289
FG = {512: 31, 1024: 15}


class GenSpec:
    """nothing is assumed of earlier attempts"""

    def header(s, cut, c, X, S, E):
        pass

    def back(s, cut, c, X, S, E):
        pass


def poly_contract(n, log):
    lo, hi = -18 * 4096 // n, 19 * 4096 // n

    def h(X, S, a):
        k = log["polys"] = log.get("polys", 0) + 1
        entry.put(X, S, a[0], 4, n, lambda i: tm.sym("c%d[%d]" % (k, i), 32, lo, hi))
    return (r"ntru_gen::gen_poly<%d(ul)?>\(" % gmp.lg(n), h)


def words(X, S, p, n, off=0):
    return [X.load(S, Ptr(p.o, tm.add(64, p.off, 4 * i)), 4, "i", 32) for i in range(n)]


def inv_contract(n, log):
    def h(X, S, a):
        w = words(X, S, a[0], n)
        for x in w:
            l, u = (tm.sgn(x, 32),) * 2 if x.__class__ is int else (x.slo, x.shi)
            if l < -6145 or u > 6143:
                X.oblige("precondition", tm.and_(1, tm.slt(32, -6146 & 0xffffffff, x), tm.slt(32, x, 6144)), S, "invertibility test of a reduced polynomial")
        t = tm.sym("inv:%d" % len(log.setdefault("inv", [])), 1)
        log["inv"].append((t, w))
        return t
    return (r"ntru_gen::is_poly_invertible<%d(ul)?>\(" % gmp.lg(n), h)


def gs_contract(n, log):
    def h(X, S, a):
        t = tm.mk("fsym", F, "gs:%d" % len(log.setdefault("gs", [])))
        log["gs"].append((t, words(X, S, a[0], n), words(X, S, a[1], n)))
        return t
    return (r"ntru_gen::gram_schmidt_norm<%d(ul)?>\(" % gmp.lg(n), h)


def at_most(S, gs, bound, what):
    """on every path of S, gs > bound is excluded; gs may only be compared with constants"""
    atoms, ks = [], set()
    for t in tm.subterms([p for p in S.pc if p.__class__ is T]):
        if any(x is gs for x in t.a if x.__class__ is T):
            if t.op != "fcmp":
                raise Undecided("%s: the norm is used in %s" % (what, tm.show(t, 2)))
            k = [unk(x) for x in t.a[1:] if x is not gs]
            if len(k) != 1 or k[0] is None:
                raise Undecided("%s: the norm is compared with %s" % (what, tm.show(t, 3)))
            atoms.append(t)
            ks.add(k[0])
    ks = sorted(k for k in ks if k > bound)
    pts = []
    lo = bound
    for k in ks:
        pts += [(lo + k) / 2, k]
        lo = k
    pts.append(lo * 2 + 1)
    for v in [bound * (1 + 1e-9)] + pts:
        m = {}
        for t in atoms:
            a, b = [v if x is gs else unk(x) for x in t.a[1:]]
            r = {"olt": a < b, "ole": a <= b, "oeq": a == b, "one": a != b, "une": a != b, "ord": True, "uno": False}.get(t.a[0])
            if r is None:
                raise Undecided("%s: comparison %s" % (what, t.a[0]))
            m[t.id] = int(r)
        pc = tm.subst(list(S.pc), m)
        if any(p.__class__ is int and not p for p in pc):
            continue
        if smt.query([p for p in pc if p.__class__ is T], 0, timeout=30)[0] != "unsat":
            raise Refuted("%s: a key whose Gram-Schmidt norm is %r is released" % (what, v))


def unk(x):
    if x.__class__ is float:
        return x
    if x.__class__ is int:
        return None
    try:
        r = tm.unfk(x)
    except Exception:
        return None
    return r if r.__class__ is float else None


def u_gen(mod, n, parts=("solved", "fits", "released")):
    """ntru_gen: what holds of f, g, F, G when the loop is left"""
    def go(acc):
        def run(cut):
            log = {}
            calls = alg.Calls()
            X, S = Exec(mod), State()
            X.contracts = comp([poly_contract(n, log), inv_contract(n, log), gs_contract(n, log), solve_contract(calls, n, log)])
            cut.install(X)
            o = [X.new_obj(S, 4 * n, x) for x in "fgFG"]
            X.run(mod.func("@w_gen%d" % n), o + [X.new_obj(S, None, "rng")], S)
            return X, S, o, log, calls
        X, S, o, log, calls = Cut(GenSpec()).run(run)
        acc.take(X); discharge(acc, X)
        known = decided(S)
        f, g, Fw, Gw = [[settle(x, known) for x in words(X, S, p, n)] for p in o]
        nm = "ntru_gen<%d>" % n

        def same(a, b):
            return all(x is y or x.__class__ is int and x == y for x, y in zip(a, b))
        # solved
        sol = [c for c in log.get("solve", []) if entails(S, tm.eq(32, c[1], 0))]
        if not sol:
            raise Refuted(nm + ": a key is released although the solver reported no solution for it")
        (fz, gz), st, Fz, Gz = sol[-1]
        want = lambda w: [gmp.num(tm.sext(64, x, 32), True) for x in w]
        if not (same(fz, want(f)) and same(gz, want(g))):
            raise Refuted(nm + ": the solver was not given the f, g that are released")
        acc.ok("syntactic", 2 * n)
        # F, G are the solution
        S.pc = list(S.pc)
        rng, lim = [], 127 if "fits" in parts else (1 << 31) - 1
        for z, w, l in [(z, w, "F") for z, w in zip(Fz, Fw)] + [(z, w, "G") for z, w in zip(Gz, Gw)]:
            x = gmp.get_si(True)(X, S, [zptr(X, S, z)])
            y = gmp.get_si(False)(X, S, [zptr(X, S, z)])
            if not (w is tm.trunc(32, x, 64) or w is tm.trunc(32, y, 64)):
                raise Refuted("%s: released %s is not the solver's" % (nm, l))
            ks = [gmp.cmpsym(z, gmp.zc(k)) for k in gmp.REG.get(z.id, {}) if k.__class__ is int and -lim <= k <= lim]
            rng.append((tm.ors([tm.slt(32, 0xffffffff, c) for c in ks]), lambda B, ks=ks: any(B(c)[0] >= 0 for c in ks)))
            rng.append((tm.ors([tm.slt(32, c, 1) for c in ks]), lambda B, ks=ks: any(B(c)[1] <= 0 for c in ks)))
        acc.ok("syntactic", 2 * n)
        B = bounds(S, known)
        if not allof(acc, S, B, rng):
            raise Refuted(nm + ": F, G are released although they may exceed %d" % lim)
        for w, l in ((f, "f"), (g, "g")) if "fits" in parts else ():
            m = FG[n]
            if not allof(acc, S, B, [(tm.and_(1, tm.slt(32, (-m - 1) & 0xffffffff, x), tm.slt(32, x, m + 1)), lambda B, x=x: -m <= B(x)[0] and B(x)[1] <= m) for x in w]):
                raise Refuted("%s: %s is released although a coefficient may exceed %d" % (nm, l, m))
        if "released" not in parts:
            return
        # invertible
        if not any(same(w, f) and entails(S, t) for t, w in log.get("inv", [])):
            raise Refuted(nm + ": a key is released whose f was not found invertible")
        acc.ok("z3")
        # norm
        gs = [t for t, a, b in log.get("gs", []) if same(a, f) and same(b, g)]
        if not gs:
            raise Refuted(nm + ": the Gram-Schmidt norm of the released f, g was not computed")
        at_most(S, gs[-1], THRESHOLD, nm)
        acc.ok("z3", 2)
    return go


def settle(t, known):
    """t with its case distinctions resolved by what holds on every path"""
    while t.__class__ is T and t.op == "ite":
        k = known(t.a[0])
        if k is None:
            break
        t = t.a[1] if k else t.a[2]
    return t


def bounds(S, known):
    """signed intervals of terms from the comparisons that hold on every path"""
    facts, st = {}, [p for p in S.pc if p.__class__ is T]
    st += [c if v else tm.not_(c) for c, v in known.conds() if v is not None]
    seen = set()
    while st:
        p = st.pop()
        if p.__class__ is not T or p.id in seen:
            continue
        seen.add(p.id)
        neg, q = (True, p.a[0]) if p.op == "not" else (False, p)
        if q.op == ("or" if neg else "and"):
            st += [tm.not_(x) if neg else x for x in q.a if x.__class__ is T]
        elif q.op == "slt":
            a, b = q.a
            w = next(x.w for x in q.a if x.__class__ is T)
            if neg:
                a, b = b, a             # b <= a
            for x, y, side in ((a, b, 1), (b, a, 0)):
                if x.__class__ is T and y.__class__ is int:
                    k = tm.sgn(y, w) + (0 if neg else -1 if side else 1)
                    f = facts.setdefault(x.id, [x.slo, x.shi])
                    f[side] = min(f[side], k) if side else max(f[side], k)

    def B(x):
        if x.__class__ is int:
            return tm.sgn(x, 32), tm.sgn(x, 32)
        if x.op == "sub" and x.a[0] == 0 or x.op == "neg":
            l, h = B(x.a[-1])
            return -h, -l
        return facts.get(x.id, (x.slo, x.shi))
    return B


def allof(acc, S, B, goals):
    for g, quick in goals:
        if g == 1 or quick(B):
            acc.ok("intervals")
        elif entails(S, g):
            acc.ok("z3")
        else:
            return False
    return True


def zptr(X, S, z):
    p = X.new_obj(S, 16, "tmp")
    gmp.st(X, S, p, z)
    return p


if __name__ == "__main__":
    pass
