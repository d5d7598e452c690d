import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vcg"))
import check, codec

if __name__ == "__main__":
    check.main(check.Check("C03", "public key codec", codec.pk_units, trusted=["z3 5.3.2", "cvc5 1.1.2 (where z3 does not answer)"], replay=("replay", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], 0, 20)))
