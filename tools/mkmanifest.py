#!/usr/bin/env python3
# Writes /verif/MANIFEST.json. A property is claimed when checks/<id>.py exists.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification: VCs generated from the LLVM IR of /repo's code, "
T = {
 "C01": (TECH + "operator contracts discharged by interval reasoning, SMT and evaluation over the complete operand domain",
         "All 12289^2 operand pairs, all 65536 constructor arguments, all 64-bit exponents. Trusts clang's IR generation, the VC generator and numpy."),
 "C02": (TECH + "transforms proved equal to the evaluation matrix by exact linear forms over Z_q; operator contracts discharged as in C01",
         "Every coefficient vector of both sizes. Trusts clang's IR generation, the VC generator and numpy."),
 "C03": (TECH + "codec contracts over bit-field normal forms, SMT",
         "Every byte string and every canonical polynomial of both sizes; injectivity from two lemmas. Trusts clang's IR generation, the VC generator and z3."),
 "C04": (TECH + "codec contracts over bit-field normal forms, SMT",
         "Every byte string and all polynomials in the format's range (precondition of encode_skey). Trusts clang's IR generation, the VC generator and z3."),
 "C12": (TECH + "contracts over 72-bit bit-vectors, SMT",
         "All 2^72 sampler inputs and all in-range operands. The generator is known by the contract of prng_t::read (byte stream)."),
}
NA = {
 "C22": "a statement about the entropy of std::random_device and of the 32-bit seed handed to mt19937_64 (include/prng.hpp): no pre/postcondition over program values expresses unpredictability; DESIGN.md records the observation that the seed is 32 bits wide",
 "C23": "a distance between output distributions and a timing property: neither is a postcondition over program values that a deductive verifier of this code can express",
 "C24": "needs rounding-error bounds of some 10^5 dependent double operations for every key and message (and almost-sure termination of sampling loops); no verifier here has a floating-point error calculus for C++ (Frama-C without WP, no Gappa), so the real-arithmetic statements C14-C18 and C20 are what the contracts decide",
}
exec(open(V + "/tools/manifest_more.py").read()) if os.path.exists(V + "/tools/manifest_more.py") else None
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if os.path.exists("%s/checks/%s.py" % (V, i)) and i in T:
        t, n = T[i]
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3-vt checks/%s.py" % i,
                           thorough_cmd="VERIF_TIER=thorough python3-vt checks/%s.py" % i,
                           evidence_file="evidence/%s.json" % i, technique=t, level="proof", level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="VERIF_SYMBOLIC", enable="no hook is compiled into /repo; the define only selects declarations in /verif/shim/shake256.hpp", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Every check extracts the LLVM IR of /repo/include afresh and discharges all obligations; see DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
