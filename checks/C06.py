import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vcg"))
import front, check, codec, sigcodec as sc
from check import U


def units(tier, seed):
    mod = front.module("codecw")
    us = []
    for n in (1024, 512):
        us += [U("decompress%d" % n, "decoding::decompress_sig<%d>" % n, sc.decompress(mod, n, full=False)),
               U("decode_sig%d" % n, "decoding::decode_sig<%d>" % n, sc.decode_sig_mem(mod, n, full=False)),
               U("decode_pkey%d" % n, "decoding::decode_pkey<%d>" % n, codec.dec_mem(mod, n, "w_decpk", codec.pk_len(n), [("h", 2)])),
               U("decode_skey%d" % n, "decoding::decode_skey<%d>" % n, codec.dec_mem(mod, n, "w_decsk", codec.sk_len(n), [("f", 4), ("g", 4), ("F", 4)]))]
    return us


if __name__ == "__main__":
    check.main(check.Check("C06", "memory safety of the decoders", units, trusted=["z3 5.3.2", "cvc5 1.1.2 (where z3 does not answer)"],
                           assumptions=["buffers have exactly the prescribed lengths and do not overlap (the functions' parameters are restrict-qualified)"],
                           replay=("replay", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], 0, 20)))
