T.update({
 "C05": (TECH + "loop contracts with ghost code positions for compress_sig/decompress_sig, SMT, codec lemmas",
         "Every polynomial within the norm bound, every byte string. Input-dependent loops are cut by invariants (no bound). Trusts clang's IR generation, the VC generator, z3/cvc5; the join of the per-coefficient lemmas by induction over the coefficient index is on paper."),
 "C06": (TECH + "bounds, initialisation, arithmetic and termination obligations of every decoder path, loop contracts, SMT",
         "Every byte string of the prescribed length. Trusts clang's IR generation, the VC generator, z3/cvc5."),
 "C08": (TECH + "loop contract over an arbitrary hash output stream, SMT",
         "Every output stream, salt and message length. SHAKE256 is known by contract only (absorb order, consecutive output)."),
})
T.update({
 "C07": (TECH + "verify against the contracts of its callees: norm summands matched exactly, s1 = c - s2*h by identity testing over GF(q^8), verdict by SMT; callees discharged too",
         "Every key, message, salt and signature. Identity testing has error probability below 2^-90. SHAKE256 by contract. Trusts clang's IR generation, the VC generator, numpy, z3/cvc5."),
 "C19": (TECH + "byte-level entry points against the contracts of their callees, SMT; key decoders discharged too",
         "Every byte string. Trusts clang's IR generation, the VC generator, z3/cvc5; termination of signing is not claimed."),
})
T.update({
 "C14": (TECH + "real-arithmetic postconditions of transforms, split/merge and element-wise operations by polynomial identity testing in a 127-bit prime field",
         "Every complex input at every size. Doubles are read as real numbers, root table constants within 2^-51 as the roots; identity testing error below 2^-90. Trusts clang's IR generation, the VC generator."),
 "C15": (TECH + "contracts of Gram matrix, LDL step, ffLDL recursion and normalisation (a caller against its callees' contracts), real arithmetic by polynomial identity testing",
         "Every basis, every tree cell, both sizes. Rounding excluded; identity testing error below 2^-90. Trusts clang's IR generation, the VC generator."),
 "C18": (TECH + "contracts of recompute_G, compute_matrix_B, keygen and the byte-level sign entry against the contracts of their callees; real arithmetic by polynomial identity testing, codecs by SMT",
         "Every f, g, F of a stored key, both sizes. Rounding excluded; identity testing error below 2^-90. Trusts clang's IR generation, the VC generator, z3."),
})
T.update({
 "C09": (TECH + "contracts of the solver recursion, reduce (loop invariant f*G - g*F, termination measure), xgcd, ring operations and the candidate loop of ntru_gen; integer identities by polynomial identity testing in a 127-bit prime field, rest by SMT",
         "Every integer input at every size 1..1024; floating-point steps of reduce are arbitrary. GMP functions by their documented contract; identity testing error below 2^-90. Termination of the rejection loop of ntru_gen is not claimed. Trusts clang's IR generation, the VC generator, z3/cvc5."),
 "C10": (TECH + "contracts of karatsuba, karamul, field_norm, lift, galois_conjugate at every size (a size against the contract of the half size) and loop invariant of xgcd; integer identities by polynomial identity testing in a 127-bit prime field",
         "Every integer input at every power-of-two size up to 1024. GMP functions by their documented contract; identity testing error below 2^-90. Trusts clang's IR generation, the VC generator."),
})
T.update({
 "C11": (TECH + "contracts of the candidate loop (arbitrary history), invertibility test, Gram-Schmidt norm, public key derivation and byte-level key generation against the contracts of their callees; identities over Z_q by identity testing over GF(q^8), real arithmetic over a 127-bit prime field, rest by SMT",
         "Every f, g in -6145..6143, every history of rejected candidates. Rounding of the norm excluded; identity testing error below 2^-90. The solver's contract is C09's, samplerz's range C12/C13's. Trusts clang's IR generation, the VC generator, z3."),
})
T.update({
 "C16": (TECH + "contract of every level of ff_sampling against the contract of its half-size calls (an arbitrary function of targets, subtree and call order) and of the leaf against the integer sampler (any integer); real arithmetic by polynomial identity testing in a 127-bit prime field",
         "Every target, tree and sampler outcome, all levels, both sizes. Rounding excluded; identity testing error below 2^-90; the integer sampler is a contract here. Trusts clang's IR generation, the VC generator."),
})
T.update({
 "C17": (TECH + "signing against the contracts of its callees; the attempt loop is cut with nothing assumed of earlier attempts; norm and rounding by polynomial identity testing over a 127-bit prime field, control flow by SMT; compress_sig, hash_to_point and the transforms discharged too",
         "Every basis, tree, message, sampler outcome and number of failed attempts, both sizes. Rounding excluded; identity testing error below 2^-90; termination not claimed. Trusts clang's IR generation, the VC generator, z3."),
})
T.update({
 "C20": (TECH + "signing on an honest key against the contracts of its callees plus a lemma joining the contracts of key generation, basis, signing, compression and verification: s1 + s2*h = c as a polynomial identity modulo (12289, x^N+1); all those callees discharged too",
         "Every f, g, F, G with the NTRU equation, every hashed point and integer sample vector, both sizes. Rounding excluded; identity testing error below 2^-90; SHAKE256 and the integer sampler by contract. Trusts clang's IR generation, the VC generator, z3."),
})
T.update({
 "C13": (TECH + "contracts of the fixed-point exponential over its named 64x64-bit products (ring identity plus SMT), of the Bernoulli step against the exponential's contract (SMT over all byte strings), and of both sampling loops, cut with a byte-count invariant and callee contracts; exponents by polynomial identity testing in real arithmetic",
         "All 64-bit operands, all byte streams with enough bytes, every rejection history, |mu| < 2^30, sigma' <= sigma_max. Floating-point rounding excluded (the constants ln 2, sigma_max are compared within 2^-51); identity testing error below 2^-90. The generator is an arbitrary byte stream. Trusts clang's IR generation, the VC generator, z3."),
})
T.update({
 "C21": (TECH + "both helpers with their loops cut (entry value plus constant times iteration count; postcondition below the iteration count for every array written), std::string, string streams and strtol by contract of the library, SMT with arrays; round trip as a lemma over the two contracts",
         "Every byte string and every hexadecimal text (either case, any length below 2^60). Trusts clang's IR generation, the VC generator, z3, the contracts of libstdc++ in vcg/hexc.py."),
})
