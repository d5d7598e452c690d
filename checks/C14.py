import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vcg"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import random
import front, check, alg
import term as tm
from sym import Exec, State, Ptr
from check import U, Refuted
from lib import discharge

SPEC = {
    # name: (inputs as (role, log size offset), outputs, function)
    "fft": ("i", lambda k, a: [alg.fft(k, a)]),
    "ifft": ("i", lambda k, a: [alg.ifft(k, a)]),
    "adj": ("i", lambda k, a: [[alg.conj(x) for x in a]]),
    "split": ("roo", lambda k, a: list(alg.split(k, a))),
    "merge": ("rro", lambda k, a, b: [alg.merge(k, a, b)]),
    "add": ("rro", lambda k, a, b: [[alg.cadd(x, y) for x, y in zip(a, b)]]),
    "sub": ("rro", lambda k, a, b: [[alg.csub(x, y) for x, y in zip(a, b)]]),
    "mul": ("rro", lambda k, a, b: [[alg.cmul(x, y) for x, y in zip(a, b)]]),
    "div": ("rro", lambda k, a, b: [[alg.cdiv(x, y) for x, y in zip(a, b)]]),
    "addto": ("ir", lambda k, a, b: [[alg.cadd(x, y) for x, y in zip(a, b)]]),
}
CPP = {"split": "fft::split_fft", "merge": "fft::merge_fft", "adj": "fft::adj_poly", "fft": "fft::fft", "ifft": "fft::ifft",
       "addto": "polynomial::add_to"}


def size(nm, role, j, k):
    h = nm == "split" and j > 0 or nm == "merge" and j < 2
    return 1 << (k - 1 if h else k)


def op(mod, nm, k):
    roles, f = SPEC[nm]

    def go(acc):
        X, S = Exec(mod), State()
        rng = random.Random("C14%s%d" % (nm, k))
        ptrs, vals, ins = [], {}, []
        for j, r in enumerate(roles):
            n = size(nm, r, j, k)
            if r == "o":
                p = X.new_obj(S, 16 * n, "out%d" % j)
            else:
                p = X.array_input(S, "v%d" % j, 2 * n, 8, tm.F, ro=r == "r")
                vals["v%d" % j] = alg.crnd(rng, n)
                ins.append(vals["v%d" % j])
            ptrs.append((p, n, r))
        X.run(mod.func("@w_%s%d" % (nm, k)), [p for p, _, _ in ptrs], S)
        acc.take(X)
        discharge(acc, X)
        E = alg.Eval(None, alg.cleaf(vals))
        want = f(k, *ins)
        outs = [(p, n) for p, n, r in ptrs if r in "oi"]
        for (p, n), w in zip(outs, want):
            alg.check_vec(acc, E, alg.ldc(X, S, p, n), w, "%s<%d>" % (CPP.get(nm, "polynomial::" + nm), k))
    return go


def units(tier, seed, ks=range(10, 0, -1), names=None):
    mod = front.module("fftw", flags=front.REAL)
    us = []
    for k in ks:
        for nm in names or SPEC:
            us.append(U("%s%d" % (nm, k), "%s<%d>" % (CPP.get(nm, "polynomial::" + nm), k), op(mod, nm, k)))
    return us


ASSUME = ["doubles are real numbers: no rounding, overflow, NaN or infinity (C24 is not claimed)",
          "a constant within 2^-51 of a cosine/sine of a multiple of pi/1024 stands for that number",
          "identities are tested at random points of a field of 2^127 elements (error probability below 2^-90)"]

if __name__ == "__main__":
    check.main(check.Check("C14", "FFT", units, assumptions=ASSUME,
                           trusted=["-fcx-limited-range: complex products and quotients by their textbook formulas"],
                           replay=("replay", ["-O2"], 0, 20)))
