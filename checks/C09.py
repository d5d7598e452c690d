import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vcg"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import front, check, ntru, keyg
import C10
from check import U


def units(tier, seed):
    rot = front.module("ntruw", flags=front.REAL, passes=front.ROTATE)
    mod = front.module("ntruw", flags=front.REAL)
    us = []
    for n in reversed(ntru.SIZES):
        us.append(U("solve%d" % n, "ntru_gen::ntru_solve<%d>" % n, ntru.u_solve(mod, n)))
        if n > 1:
            us += [U("reduce%d" % n, "ntru_gen::reduce<%d>" % n, ntru.u_reduce(mod, n)),
                   U("min_max%d" % n, "ntru_gen::min_max<%d>" % n, ntru.u_minmax(mod, n))]
    us += [U("gen%d" % n, "ntru_gen::ntru_gen<%d>" % n, keyg.u_gen(rot, n, ("solved",))) for n in (1024, 512)]
    us.append(U("approx_bit_len", "ntru_gen::approx_bit_len", ntru.u_abl(mod)))
    return us + C10.units(tier, seed)


if __name__ == "__main__":
    check.main(check.Check("C09", "NTRU equation", units, trusted=["GMP"],
                           assumptions=C10.ASSUME + ["the size estimate of an integer is below 2^32 bits", "floating-point steps of reduce compute arbitrary values",
                                                     "candidate loop of ntru_gen: termination not claimed (rejection sampling)"],
                           replay=("replay", ["-O2"], 0, 40)))
