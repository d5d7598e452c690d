import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vcg"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import front, check, signc, keyg, pub, tree, sigcodec as sc
import C07, C14
from check import U


def units(tier, seed):
    sig, rot = [front.module(m, flags=front.REAL, passes=front.ROTATE) for m in ("signw", "ntruw")]
    tr, byt, cod = front.module("treew", flags=front.REAL), front.module("pubw"), front.module("codecw")
    us = []
    for n in (1024, 512):
        us += [U("honest%d" % n, "falcon::sign<%d>, honest key" % n, signc.u_honest(sig, n)),
               U("lemma%d" % n, "verification equation, size %d" % n, signc.u_lemma(n)),
               U("gen%d" % n, "ntru_gen::ntru_gen<%d>" % n, keyg.u_gen(rot, n, ("solved",))),
               U("public_key%d" % n, "keygen::compute_public_key<%d>" % n, pub.u_pubkey(byt, n)),
               U("matrix_B%d" % n, "falcon::compute_matrix_B<%d>" % n, tree.u_matB(tr, n)),
               U("recompute_G%d" % n, "falcon::recompute_G<%d>" % n, tree.u_recG(tr, n)),
               U("compress%d" % n, "encoding::compress_sig<%d>" % n, sc.compress(cod, n))]
    return us + C14.units(tier, seed, ks=(10, 9), names=("fft", "ifft")) + C07.units(tier, seed)


if __name__ == "__main__":
    check.main(check.Check("C20", "honest signatures verify", units, trusted=["-fcx-limited-range: complex products and quotients by their textbook formulas", "z3 5.3.2"],
                           assumptions=C14.ASSUME + ["fast Fourier sampling by contract: any vector of integer polynomials (C16)", "the solver's contract (C09)",
                                                     "SHAKE256 by contract: signer and verifier hash the same salt and message to the same point",
                                                     "f is invertible modulo q (C11), so f x = 0 implies x = 0 modulo q"],
                           replay=("replay", ["-O2"], 0, 20)))
