import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vcg"))
import front, check, hexc


def units(tier, seed):
    return hexc.units(front.module("hexw"), front.module("hexw", passes=front.ROTATE))


if __name__ == "__main__":
    check.main(check.Check("C21", "hex helpers", units, trusted=["z3 5.3.2", "libstdc++: strings, string streams, strtol by contract (vcg/hexc.py)"],
                           assumptions=["inputs of fewer than 2^60 bytes", "no allocation fails (no exceptions)", "C locale",
                                        "to_byte_array is given hexadecimal digits only (its precondition; other characters have no byte value)",
                                        "a string's own bounds are checked for its inputs, not for strings the helpers build"],
                           replay=("replay", ["-O2"], 0, 20)))
