import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vcg"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import front, check, ffs
import C14


def units(tier, seed):
    return ffs.units(front.module("ffsw", flags=front.REAL))


if __name__ == "__main__":
    check.main(check.Check("C16", "fast Fourier sampling", units, trusted=["-fcx-limited-range: complex products and quotients by their textbook formulas"],
                           assumptions=C14.ASSUME + ["the integer sampler returns any integer (its own contract: C13)"],
                           replay=("replay", ["-O2"], 0, 20)))
