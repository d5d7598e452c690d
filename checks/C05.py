import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vcg"))
import front, check, sigcodec as sc
from check import U


def units(tier, seed):
    mod = front.module("codecw")
    us = []
    for n in (1024, 512):
        us += [U("decompress%d" % n, "decoding::decompress_sig<%d>" % n, sc.decompress(mod, n)),
               U("compress%d" % n, "encoding::compress_sig<%d>" % n, sc.compress(mod, n)),
               U("lemmas%d" % n, "specification of the signature code", sc.lemmas(n)),
               U("decode_sig%d" % n, "decoding::decode_sig<%d>" % n, sc.decode_sig_mem(mod, n))]
    return us


if __name__ == "__main__":
    check.main(check.Check("C05", "signature compression", units, trusted=["z3 5.3.2", "cvc5 1.1.2 (where z3 does not answer)"],
                           assumptions=["compress_sig is called with squared norm within the bound (its callers: sign); Cauchy-Schwarz then bounds the code length",
                                        "the induction over coefficients that joins the per-coefficient lemmas is the standard one over t (B and S have the same recurrence)"],
                           replay=("replay", ["-O1", "-fsanitize=address,undefined"], 0, 20)))
