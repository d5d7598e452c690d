import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vcg"))
import front, check, rng
import term as tm
from sym import Exec, State, Ptr
from check import U, Refuted
from lib import discharge, prove, read

# published reverse cumulative distribution table (Falcon specification, table 3.1), times 2^72
RCDT = [3024686241123004913666, 1564742784480091954050, 636254429462080897535, 199560484645026482916, 47667343854657281903,
        8595902006365044063, 1163297957344668388, 117656387352093658, 8867391802663976, 496969357462633, 20680885154299,
        638331848991, 14602316184, 247426747, 3104126, 28824, 198, 1]
W = 72


def pin(X, S, nm):
    hi, lo = tm.sym(nm + ".hi", 64, 0, 255), tm.sym(nm + ".lo", 64)
    p = X.new_obj(S, 16, nm)
    S.mem[p.o].cells[0] = (8, hi)
    S.mem[p.o].cells[8] = (8, lo)
    return p, val(hi, lo)


def val(hi, lo):
    return tm.or_(80, tm.shl(80, tm.zext(80, hi, 64), 64), tm.zext(80, lo, 64))


def op(mod, fn, nargs, spec, pred=False):
    def go(acc):
        X, S = Exec(mod), State()
        a = [pin(X, S, "ab"[i]) for i in range(nargs)]
        ps = [p for p, _ in a]
        vs = [v for _, v in a]
        if pred:
            r = X.run(mod.func("@" + fn), ps, S)
            acc.take(X); discharge(acc, X)
            prove(acc, [], tm.eq(1, r, spec(*vs)), fn, hint=H(fn))
            return
        o = X.new_obj(S, 16, "out")
        X.run(mod.func("@" + fn), ps + [o], S)
        acc.take(X); discharge(acc, X)
        hi, lo = read(X, S, o, 0, 8), read(X, S, o, 1, 8)
        prove(acc, [], tm.not_(tm.ult(64, 255, hi)), fn + ": result is below 2^72", hint=H(fn))
        prove(acc, [], tm.eq(80, val(hi, lo), tm.and_(80, spec(*vs), (1 << 72) - 1)), fn, hint=H(fn))
    return go


def H(fn):
    def h(md):
        md = md or {}
        return ["%s %d %d %d %d" % (fn, md.get("a.hi", 0), md.get("a.lo", 0), md.get("b.hi", 0), md.get("b.lo", 0)),
                "bytes " + " ".join(str(md.get("b[%d]" % i, md.get("rnd[%d]" % i, 0))) for i in range(9))]
    return h


def lebits(bs):
    r = 0
    for i, b in enumerate(bs):
        r = tm.or_(80, r, tm.shl(80, tm.zext(80, b, 8), 8 * i))
    return r


def frombytes(mod, fn, be):
    def go(acc):
        X, S = Exec(mod), State()
        p = X.array_input(S, "b", 9, 1)
        bs = [tm.sym("b[%d]" % i, 8) for i in range(9)]
        o = X.new_obj(S, 16, "out")
        X.run(mod.func("@" + fn), [p, o], S)
        acc.take(X); discharge(acc, X)
        hi, lo = read(X, S, o, 0, 8), read(X, S, o, 1, 8)
        prove(acc, [], tm.eq(80, val(hi, lo), lebits(bs[::-1] if be else bs)), fn, hint=H(fn))
        prove(acc, [], tm.not_(tm.ult(64, 255, hi)), fn + ": value is below 2^72", hint=H(fn))
    return go


def tobytes(mod, fn, be):
    def go(acc):
        X, S = Exec(mod), State()
        p, v = pin(X, S, "a")
        o = X.new_obj(S, 9, "out")
        X.run(mod.func("@" + fn), [p, o], S)
        acc.take(X); discharge(acc, X)
        bs = [read(X, S, o, i, 1) for i in range(9)]
        prove(acc, [], tm.eq(80, v, lebits(bs[::-1] if be else bs)), fn, hint=H(fn))
    return go


def zero(mod):
    def go(acc):
        X, S = Exec(mod), State()
        o = X.new_obj(S, 16, "out")
        X.run(mod.func("@w_uzero"), [o], S)
        acc.take(X); discharge(acc, X)
        if read(X, S, o, 0, 8) != 0 or read(X, S, o, 1, 8) != 0:
            raise Refuted("u72_t::zero() is not 0")
        acc.ok("intervals")
    return go


def base_spec(bs):
    u = lebits(bs)
    z = 0
    for t in RCDT:
        z = tm.add(32, z, tm.zext(32, tm.ult(80, u, t), 1))
    return z


def base(mod, fn, viarng):
    def go(acc):
        X, S = Exec(mod, rng.ALL), State()
        if viarng:
            p = X.new_obj(S, 64, "rng")
            bs = [rng.byte(i) for i in range(9)]
        else:
            p = X.array_input(S, "b", 9, 1)
            bs = [tm.sym("b[%d]" % i, 8) for i in range(9)]
        r = X.run(mod.func("@" + fn), [p], S)
        acc.take(X); discharge(acc, X)
        prove(acc, [], tm.eq(32, r, base_spec(bs)), fn + ": number of table entries above the value", timeout=200, hint=H("bytes"))
        prove(acc, [], tm.not_(tm.ult(32, 18, r)), fn + ": result in 0..18", timeout=200, hint=H("bytes"))
        if viarng:
            if S.ghost.get("rng", 0) != 9:
                raise Refuted("base_sampler consumes %s bytes, specified 9" % S.ghost.get("rng", 0), ["bytes"])
            acc.ok("syntactic")
    return go


def units(tier, seed):
    mod = front.module("samplew")
    A = lambda x, y: tm.add(80, x, y)
    return [
        U("base_sampler(bytes)", "samplerz::base_sampler(array)", base(mod, "w_base", False)),
        U("base_sampler(rng)", "samplerz::base_sampler(prng_t)", base(mod, "w_base_rng", True)),
        U("add", "u72_t::operator+", op(mod, "w_uadd", 2, A)),
        U("sub", "u72_t::operator-(u72_t)", op(mod, "w_usub", 2, lambda x, y: tm.sub(80, x, y))),
        U("neg", "u72_t::operator-()", op(mod, "w_uneg", 1, lambda x: tm.sub(80, 0, x))),
        U("gt", "u72_t::operator>", op(mod, "w_ugt", 2, lambda x, y: tm.ult(80, y, x), True)),
        U("lt", "u72_t::operator<", op(mod, "w_ult", 2, lambda x, y: tm.ult(80, x, y), True)),
        U("zero", "u72_t::zero", zero(mod)),
        U("from_le", "u72_t::from_le_bytes", frombytes(mod, "w_ule", False)),
        U("from_be", "u72_t::from_be_bytes", frombytes(mod, "w_ube", True)),
        U("to_le", "u72_t::to_le_bytes", tobytes(mod, "w_tole", False)),
        U("to_be", "u72_t::to_be_bytes", tobytes(mod, "w_tobe", True)),
    ]


if __name__ == "__main__":
    check.main(check.Check("C12", "base sampler and 72-bit arithmetic", units, trusted=["z3 5.3.2", "cvc5 1.1.2 (where z3 does not answer)"],
                           assumptions=["the generator is an arbitrary byte stream read consecutively (contract of prng_t::read; its body is the absent hash submodule)"],
                           replay=("replay", ["-O2"], 0, 20)))
