import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vcg"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import front, check, keyg, pub, codec
import C02, C10, C14
from check import U


def units(tier, seed):
    rot = front.module("ntruw", flags=front.REAL, passes=front.ROTATE)
    mod, byt, cod = front.module("ntruw", flags=front.REAL), front.module("pubw"), front.module("codecw")
    us = [U("gen%d" % n, "ntru_gen::ntru_gen<%d>" % n, keyg.u_gen(rot, n)) for n in (1024, 512)]
    us += pub.units(mod, byt)
    us += C14.units(tier, seed, ks=(10, 9), names=("fft",))
    for n in (1024, 512):
        us += [U("encode_pkey%d" % n, "encoding::encode_pkey<%d>" % n, codec.enc_pk(cod, n)),
               U("encode_skey%d" % n, "encoding::encode_skey<%d>" % n, codec.enc_sk(cod, n))]
    return us + C02.units(tier, seed)


if __name__ == "__main__":
    check.main(check.Check("C11", "public key", units, trusted=["-fcx-limited-range: complex products and quotients by their textbook formulas", "z3 5.3.2"],
                           assumptions=C14.ASSUME + ["identities over Z_q are tested at random points of GF(12289^8) (error probability below 2^-90)",
                                                     "the solver's contract (C09), samplerz's range at mean 0 (C12, C13)"],
                           replay=("replay", ["-O2"], 0, 40)))
