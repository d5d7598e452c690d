import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vcg"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import front, check, tree, entry, codec
import C14
from check import U


def units(tier, seed):
    mod = front.module("treew", flags=front.REAL)
    ver, cod = front.module("verifyw"), front.module("codecw")
    us = []
    for n in (1024, 512):
        us += [U("recompute_G%d" % n, "falcon::recompute_G<%d>" % n, tree.u_recG(mod, n)),
               U("matrix_B%d" % n, "falcon::compute_matrix_B<%d>" % n, tree.u_matB(mod, n)),
               U("sign%d" % n, "falcon::sign<%d> (bytes)" % n, entry.sign(ver, n, full=True)),
               U("keygen%d" % n, "keygen::keygen<%d>" % n, tree.u_keygen(mod, n)),
               U("encode_skey%d" % n, "encoding::encode_skey<%d>" % n, codec.enc_sk(cod, n)),
               U("decode_skey%d" % n, "decoding::decode_skey<%d>" % n, codec.dec_sk(cod, n))]
    return us + C14.units(tier, seed, ks=(10, 9), names=("fft", "ifft"))


if __name__ == "__main__":
    check.main(check.Check("C18", "reloaded keys", units, assumptions=C14.ASSUME,
                           trusted=["-fcx-limited-range: complex products and quotients by their textbook formulas", "z3 5.3.2"],
                           replay=("replay", ["-O2"], 0, 20)))
