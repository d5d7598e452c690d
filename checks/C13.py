import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vcg"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import front, check, samp


def units(tier, seed):
    import C12
    return samp.units(front.module("samplew"), front.module("samplew", passes=front.ROTATE)) + [u for u in C12.units(tier, seed) if u.name.startswith("base")]


if __name__ == "__main__":
    check.main(check.Check("C13", "rejection steps of the sampler", units, trusted=["z3 5.3.2", "cvc5 1.1.2 (where z3 does not answer)"],
                           assumptions=["the generator is an arbitrary byte stream read consecutively (contract of prng_t::read; its body is the absent hash submodule)",
                                        "doubles are read as real numbers, the constants ln 2, 1/ln 2, 1/(2 sigma_max^2) within 2^-51 as those numbers",
                                        "sigma_min <= sigma' <= sigma_max, |mu| < 2^30; conversions from double are in range there",
                                        "the array variant is given enough bytes for every attempt it makes"],
                           replay=("replay", ["-O2", "-DSHIM_STREAM"], 0, 20)))
