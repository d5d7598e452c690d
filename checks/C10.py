import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vcg"))
import front, check, ntru
from check import U

ASSUME = ["GMP functions have their documented effect on integers (vcg/gmp.py); gmpxx wrapper code is executed as compiled",
          "an integer identity is decided at random points of GF(P), P a 127-bit prime (error below 2^-90 per identity)"]


def units(tier, seed):
    mod = front.module("ntruw", flags=front.REAL)
    us = []
    for n in reversed(ntru.SIZES):
        for c in ntru.cases(n):
            us.append(U("%s%d" % (c[0], n), "%s::%s<%d>" % ("karatsuba" if c[0].startswith("kara") else "ntru_gen", c[0], n), ntru.u_poly(mod, n, c)))
    us.append(U("xgcd", "ntru_gen::xgcd", ntru.u_xgcd(mod)))
    return us


if __name__ == "__main__":
    check.main(check.Check("C10", "big-integer polynomials", units, assumptions=ASSUME, trusted=["GMP"],
                           replay=("replay", ["-O2"], 0, 40)))
