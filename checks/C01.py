import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vcg"))
import numpy as np
import front, check, sym, smt, ffc, npeval
import term as tm
from sym import Exec, State
from check import U, Refuted

Q = 12289


def execute(mod, acc, fn, args, contracts):
    X = Exec(mod, contracts)
    S = State()
    r = X.run(mod.func("@" + fn), args, S)
    acc.take(X)
    return X, S, r


def exhaust(acc, fn, X, r, spec, names, doms):
    """all obligations of X and r == spec over the complete product of doms"""
    roots = [o.cond for o in X.obls] + [r]
    pcs = [tm.ands(o.pc) for o in X.obls]
    conc = r.__class__ is int
    if len(doms) == 1:
        chunks = [(doms[0],)]
    else:
        A, B = doms
        chunks = ((np.full(len(B), a, dtype=np.uint64) if step == 1 else np.repeat(A[i:i + step], len(B)), np.tile(B, min(step, len(A) - i)))
                  for step in [64] for i in range(0, len(A), step) for a in [0])
    tot = 0
    for ch in chunks:
        leaf = dict(zip(names, ch))
        vals = npeval.ev(roots + pcs, leaf)
        want = spec(*[c.astype(np.int64) for c in ch])
        for o, v, pc in zip(X.obls, vals, vals[len(roots):]):
            badm = np.broadcast_to((np.asarray(pc) != 0) & (np.asarray(v) == 0), ch[0].shape)
            if badm.any():
                i = int(np.argmax(badm))
                c = [int(x[i]) for x in ch]
                raise Refuted("%s: %s violated at %s" % (fn, o.kind, c), ["%s %s" % (fn, " ".join(map(str, c)))])
        got = np.broadcast_to(np.asarray(vals[len(X.obls)]), ch[0].shape)
        m = got.astype(np.int64) != want
        if m.any():
            i = int(np.argmax(m))
            c = [int(x[i]) for x in ch]
            raise Refuted("%s%s = %d, specified %d" % (fn, tuple(c), int(got[i]), int(want[i])), ["%s %s" % (fn, " ".join(map(str, c)))])
        tot += len(ch[0])
    acc.ok("exhaustive", 1 + len(X.obls))
    acc.notes.append("%d operand tuples evaluated (complete domain)" % tot)


def binary(mod, fn, spec, contracts=()):
    def go(acc):
        a, b = tm.sym("a", 16, 0, Q - 1), tm.sym("b", 16, 0, Q - 1)
        X, S, r = execute(mod, acc, fn, [a, b], contracts)
        D = np.arange(Q, dtype=np.uint64)
        exhaust(acc, fn, X, r, spec, ["a", "b"], [D, D])
    return go


def unary(mod, fn, spec, contracts=(), n=Q):
    def go(acc):
        a = tm.sym("a", 16, 0, n - 1)
        X, S, r = execute(mod, acc, fn, [a], contracts)
        D = np.arange(n, dtype=np.uint64)
        exhaust(acc, fn, X, r, spec, ["a"], [D])
    return go


def const(mod, fn, v):
    def go(acc):
        X, S, r = execute(mod, acc, fn, [], ())
        if X.obls or r != v:
            raise Refuted("%s() = %s, specified %d" % (fn, r, v), [fn])
        acc.ok("intervals")
    return go


def inv_slice(mod, k, n):
    """ff_t::inv: the loop of xgcd is data dependent; its complete domain (12289
    values) is discharged case by case, every case executed to the end"""
    def go(acc):
        for a in range(k, Q, n):
            X, S, r = execute(mod, acc, "w_inv", [a], ())
            want = pow(a, Q - 2, Q)
            if X.obls or r.__class__ is not int or r != want:
                raise Refuted("inv(%d) = %s, specified %d%s" % (a, r, want, "; " + X.obls[0].kind if X.obls else ""), ["w_inv %d" % a])
            acc.ok("exhaustive")
    return go


class ExpDom:
    """x^e in the multiplicative monoid of Z_q (0^0 = 1): exponents as bit-vectors"""
    W = 80

    def ev(s, t, a):
        memo = {}
        for x in tm.subterms([t]) if isinstance(t, tm.T) else []:
            if x.w != 16:
                continue
            if x is a: memo[x.id] = 1
            elif x.op == "ffmul": memo[x.id] = tm.add(s.W, s.g(memo, x.a[0]), s.g(memo, x.a[1]))
            elif x.op == "ite": memo[x.id] = tm.ite(x.a[0], s.g(memo, x.a[1]), s.g(memo, x.a[2]), s.W)
        return s.g(memo, t)

    def g(s, memo, x):
        if x.__class__ is int:
            if x == 1:
                return 0
            raise check.Undecided("constant %d in power computation" % x)
        if x.id not in memo:
            raise check.Undecided("power computation uses " + tm.show(x, 2))
        return memo[x.id]


def power(mod, ks):
    def go(acc):
        for k in ks:
            lo, hi = (0, 0) if k == 0 else (1 << (k - 1), (1 << k) - 1)
            n = tm.sym("n%d" % k, 64, lo, hi) if lo != hi else lo
            a = tm.sym("a", 16, 0, Q - 1)
            X, S, r = execute(mod, acc, "w_pow", [a, n], [ffc.MUL, ffc.MULTO, ffc.ADD, ffc.MINUS, ffc.ADDTO, ffc.INV, ffc.DIV])
            for o in X.obls:
                st, md = smt.query(list(o.pc), o.cond)
                if st != "unsat":
                    raise (Refuted if st == "sat" else check.Undecided)("w_pow: %s: %s %s" % (o.kind, st, md))
                acc.ok("z3", kind=o.kind)
            e = ExpDom().ev(r, a)
            # exponent intervals keep the 80-bit sum exact
            goal = tm.eq(80, e, tm.zext(80, n, 64))
            if goal.__class__ is int:
                if not goal:
                    raise Refuted("power: exponent computed is not n for %d-bit n" % k, ["w_pow 3 %d" % lo])
                acc.ok("intervals")
                continue
            st, md = smt.query(list(S.pc), goal, timeout=120)
            if st == "sat":
                nv = md.get("n%d" % k, lo)
                raise Refuted("a^n: exponent differs for n = %d" % nv, ["w_pow %d %d" % (x, nv) for x in (2, 3, 11, 0, 1)])
            if st != "unsat":
                raise check.Undecided("a^n: solver answered %s %s" % (st, md))
            acc.ok("z3")
    return go


def units(tier, seed):
    mod = front.module("ffw")
    i64 = np.int64
    us = []
    W = lambda n, f, s, c=(): us.append(U(n, f, binary(mod, f, s, c)))
    us += [U("power:%d" % i, "ff_t::operator^", power(mod, range(i, 65, 4))) for i in range(4)]
    us += [U("inv:%d" % i, "ff_t::inv, xgcd", inv_slice(mod, i, 8)) for i in range(8)]
    W("mul", "w_mul", lambda a, b: a * b % Q)
    W("mul-compound", "w_multo", lambda a, b: a * b % Q)
    W("div", "w_div", lambda a, b: a * ffc.INVT[b].astype(i64) % Q, [ffc.MUL, ffc.MULTO, ffc.INV])
    W("add", "w_add", lambda a, b: (a + b) % Q)
    W("add-compound", "w_addto", lambda a, b: (a + b) % Q)
    W("sub", "w_sub", lambda a, b: (a - b) % Q)
    W("eq", "w_eq", lambda a, b: (a == b).astype(i64))
    W("ne", "w_ne", lambda a, b: (a != b).astype(i64))
    W("gt", "w_gt", lambda a, b: (a > b).astype(i64))
    W("ge", "w_ge", lambda a, b: (a >= b).astype(i64))
    W("lt", "w_lt", lambda a, b: (a < b).astype(i64))
    W("le", "w_le", lambda a, b: (a <= b).astype(i64))
    us.append(U("neg", "w_neg", unary(mod, "w_neg", lambda a: -a % Q)))
    us.append(U("add-alias", "w_addself", unary(mod, "w_addself", lambda a: 2 * a % Q)))
    us.append(U("mul-alias", "w_multoself", unary(mod, "w_multoself", lambda a: a * a % Q)))
    us.append(U("ctor", "w_ctor", unary(mod, "w_ctor", lambda a: a % Q, n=65536)))
    us.append(U("zero", "w_zero", const(mod, "w_zero", 0)))
    us.append(U("one", "w_one", const(mod, "w_one", 1)))
    us.append(U("default", "w_dflt", const(mod, "w_dflt", 0)))
    return us


def arith_units(tier, seed):
    """the operator contracts other properties rely on"""
    return [u for u in units(tier, seed) if u.name.split(":")[0] in ("mul", "mul-compound", "div", "add", "add-compound", "sub", "neg", "inv", "ctor", "eq")]


if __name__ == "__main__":
    check.main(check.Check("C01", "Z_q arithmetic", units,
                           trusted=["z3 5.3.2"], replay=("replay", ["-O2"], 0, 20)))
