import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vcg"))
import front, check, entry, codec
from check import U


def units(tier, seed):
    mod = front.module("verifyw")
    cod = front.module("codecw")
    us = []
    for n in (1024, 512):
        us += [U("verify%d" % n, "falcon::verify<%d>" % n, entry.verify(mod, n)),
               U("sign%d" % n, "falcon::sign<%d>" % n, entry.sign(mod, n)),
               U("decode_pkey%d" % n, "decoding::decode_pkey<%d>" % n, codec.dec_pk(cod, n)),
               U("decode_skey%d" % n, "decoding::decode_skey<%d>" % n, codec.dec_sk(cod, n))]
    return us


if __name__ == "__main__":
    check.main(check.Check("C19", "malformed keys", units, trusted=["z3 5.3.2", "cvc5 1.1.2 (where z3 does not answer)"],
                           assumptions=["signing with a well-formed key returns (the attempt loop terminates with probability 1; C24)"],
                           replay=("replay", ["-O2", "-lgmp"], 0, 20)))
