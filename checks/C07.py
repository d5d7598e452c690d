import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vcg"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import front, check, verif, entry, sigcodec as sc
import C01, C02, C08
from check import U


def units(tier, seed):
    mod = front.module("verifyw")
    cod, ntt, hsh = front.module("codecw"), front.module("nttw"), front.module("hashw")
    us = []
    for n in (1024, 512):
        k = n.bit_length() - 1
        us += [U("decompress%d" % n, "decoding::decompress_sig<%d>" % n, sc.decompress(cod, n))]
    for n in (1024, 512):
        k = n.bit_length() - 1
        us += [U("verify%d" % n, "verification::verify<%d>" % n, verif.verify(mod, n)),
               U("bverify%d" % n, "falcon::verify<%d>" % n, entry.verify(mod, n)),
               U("decode_sig%d" % n, "decoding::decode_sig<%d>" % n, sc.decode_sig_mem(cod, n)),
               U("hash_to_point%d" % n, "hashing::hash_to_point<%d>" % n, C08.htp(hsh, n)),
               U("ntt%d" % k, "ntt::ntt<%d>" % k, C02.fwd(ntt, k)),
               U("intt%d" % k, "ntt::intt<%d>" % k, C02.inv(ntt, k))]
    return us + C01.arith_units(tier, seed)


if __name__ == "__main__":
    check.main(check.Check("C07", "verification", units, trusted=["z3 5.3.2", "cvc5 1.1.2 (where z3 does not answer)"],
                           assumptions=["SHAKE256 (absent submodule) by contract: an arbitrary output stream",
                                        "the identity s1 = c - s2*h is tested at random points of GF(12289^8) (error probability below 2^-90 per run of the check)"],
                           replay=("replay", ["-O2", "-lgmp"], 0, 20)))
