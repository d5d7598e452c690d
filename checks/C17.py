import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vcg"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import front, check, signc, sigcodec as sc
import C08, C14
from check import U


def units(tier, seed):
    us = signc.units(front.module("signw", flags=front.REAL, passes=front.ROTATE))
    cod = front.module("codecw")
    us += [U("compress%d" % n, "encoding::compress_sig<%d>" % n, sc.compress(cod, n)) for n in (1024, 512)]
    return us + C08.units(tier, seed) + C14.units(tier, seed, ks=(10, 9), names=("fft", "ifft"))


if __name__ == "__main__":
    check.main(check.Check("C17", "signing", units, trusted=["-fcx-limited-range: complex products and quotients by their textbook formulas", "z3 5.3.2"],
                           assumptions=C14.ASSUME + ["fast Fourier sampling by contract: any vector (C16)", "SHAKE256 and the generator by contract",
                                                     "termination of the attempt loop is not claimed"],
                           replay=("replay", ["-O2"], 0, 20)))
