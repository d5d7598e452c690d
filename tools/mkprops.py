#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the one place the property texts live).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)
I = "include/"
p("C01", "Arithmetic modulo 12289 is exact and always canonical",
  "For every pair of canonical residues (0..12288), addition, subtraction, negation, multiplication, their compound forms, inversion, division, comparison and exponentiation by any 64-bit exponent return exactly the mathematical result modulo 12289, as a canonical residue. Constructing an element from any 16-bit value reduces it modulo 12289. Inverting or dividing by zero yields zero.",
  ["inputs"], "all pairs of residues, all 16-bit constructor arguments, all 64-bit exponents",
  "the test samples 1024 random pairs out of 151 million and small exponents; an off-by-one at one boundary residue survives it",
  [I+"ff.hpp"], [("field operators", I+"ff.hpp ff_t"), ("extended gcd", I+"ff.hpp xgcd")])
p("C02", "NTT and its inverse are exact for every polynomial",
  "For every polynomial of 512 or 1024 canonical coefficients modulo 12289 the forward transform yields its values at the odd powers of a fixed primitive 2N-th root of unity (in bit-reversed order), and the inverse transform undoes it exactly. Consequently transforming, multiplying element-wise and transforming back gives the exact product modulo x^N+1, and element-wise add, negate, multiply and divide of transformed polynomials act coefficient by coefficient and touch nothing else.",
  ["inputs"], "all 12289^N coefficient vectors, N in {512,1024}",
  "the test multiplies and divides one random pair of polynomials per size, and a scaled or permuted transform pair passes it",
  [I+"ntt.hpp", I+"polynomial.hpp", I+"ff.hpp"],
  [("ntt/intt butterflies and root tables", I+"ntt.hpp"), ("element-wise operations", I+"polynomial.hpp")])
p("C03", "Public key bytes and public key polynomial correspond one to one",
  "Encoding any polynomial of canonical coefficients as a public key writes the size header byte followed by the coefficients packed 14 bits each (the library's little-endian bit order), filling the key exactly, and decoding returns the same polynomial. Decoding accepts exactly the byte strings some encoding produces: a wrong header or any coefficient that is not below 12289 is refused, a refused key decodes to nothing usable (all zero), and no two different byte strings decode to the same key.",
  ["inputs"], "all polynomials and all byte strings of public key length, both parameter sets",
  "the stable tests do not run any codec; the codec test that needs the absent hash library tries one random key per size and never a malformed one",
  [I+"encoding.hpp", I+"decoding.hpp", I+"utils.hpp"],
  [("public key encoder", I+"encoding.hpp encode_pkey"), ("public key decoder", I+"decoding.hpp decode_pkey"), ("key length", I+"utils.hpp compute_pkey_len")],
  observe=["return value of decoding", "decoded coefficients", "encoded bytes"])
p("C04", "Secret key bytes and secret polynomials correspond one to one",
  "Encoding three polynomials whose coefficients fit the format (6 bits signed for size 512, 5 bits for size 1024, 8 bits for the third polynomial) writes the header byte and the two's-complement fields packed in the library's little-endian bit order, filling the key exactly, and decoding returns the same three polynomials. Decoding refuses any other header byte (leaving all-zero polynomials) and re-encoding whatever it accepts reproduces the same bytes.",
  ["inputs"], "all in-range coefficient triples and all byte strings of secret key length, both parameter sets",
  "the codec test round-trips one generated key per size, whose coefficients never reach the ends of the range, and does not run in the stable set",
  [I+"encoding.hpp", I+"decoding.hpp", I+"utils.hpp"],
  [("secret key encoder", I+"encoding.hpp encode_skey"), ("secret key decoder", I+"decoding.hpp decode_skey"), ("key length", I+"common.hpp compute_skey_len")])
p("C05", "Signature compression is canonical and lossless",
  "Compressing any polynomial whose squared norm is within the signature bound succeeds exactly when its code (per coefficient: sign bit, 7 low bits, high part in unary) fits the fixed signature size, and then writes that code zero-padded after the 41 header and salt bytes, leaving those 41 bytes alone; otherwise it reports failure and leaves an all-zero body. Decompressing a body returns the polynomial it encodes, including coefficients of 1024 and above. Decompression accepts a body only if it is the unique code of some polynomial (no negative zero, no non-zero padding, no truncation) and on refusal returns an all-zero polynomial.",
  ["inputs"], "all polynomials within the norm bound and all byte strings of signature length, both parameter sets",
  "tests compress one honest signature per size; honest coefficients stay far below 1024, so long unary runs, exact fits and malformed bodies are never exercised",
  [I+"encoding.hpp", I+"decoding.hpp"],
  [("compression", I+"encoding.hpp compress_sig"), ("decompression", I+"decoding.hpp decompress_sig"), ("bit extraction", I+"decoding.hpp extract_8_contiguous_bits")])
p("C06", "Parsing untrusted bytes never leaves its buffers",
  "For every byte string of the prescribed length, decoding a public key, a secret key or a signature reads only bytes of that string and writes only inside the output polynomials and salt, has no undefined arithmetic, and finishes.",
  ["inputs"], "all byte strings of the prescribed lengths, both parameter sets",
  "tests feed well-formed or uniformly random strings from oversized heap allocations without memory checking; reads one byte past the end go unnoticed",
  [I+"decoding.hpp"],
  [("bit window reads", I+"decoding.hpp extract_8_contiguous_bits"), ("decompression loops", I+"decoding.hpp decompress_sig"), ("key decoders", I+"decoding.hpp decode_pkey, decode_skey")])
p("C07", "Verification accepts exactly the signatures the scheme defines",
  "Verification returns true if and only if the signature has the right header and decompresses to a polynomial s2, and the squared norm of (s1, s2) is at most the bound (34034726 or 70265242), where s1 = hash(salt, message) - s2*h modulo (12289, x^N+1) with coefficients taken in -6144..6144 and the norm computed over the integers without overflow. In particular no accumulation wrap-around can make a long vector look short. Key, message and signature are left unmodified.",
  ["inputs"], "all public keys, messages, salts and signature bytes, both parameter sets, hash output arbitrary",
  "tests only verify honest signatures, which always have small norm; forged, malformed and boundary vectors are never tried",
  [I+"verification.hpp", I+"falcon.hpp", I+"decoding.hpp", I+"ntt.hpp"],
  [("verification equation and norm", I+"verification.hpp verify"), ("public entry", I+"falcon.hpp verify")],
  observe=["boolean verdict"])
p("C08", "Message hashing maps salt and message to the point the scheme defines",
  "The hashed point is determined by absorbing the salt, then the message, into SHAKE256, reading the output as consecutive big-endian 16-bit words, dropping words of 61445 and above and reducing the others modulo 12289, in order, until N coefficients are filled. Every coefficient is canonical and written exactly once, for any output stream, message length and salt length.",
  ["inputs"], "all hash output streams, all messages and salts, both sizes",
  "no test looks at the point; the rejection branch is only hit by chance (6% of words) and its effect on later coefficients is invisible to sign/verify agreement because both sides share it",
  [I+"hashing.hpp"], [("rejection sampling loop", I+"hashing.hpp hash_to_point")])
p("C09", "A generated key always satisfies the NTRU equation exactly",
  "Whenever the solver reports a solution (F, G) for integer polynomials f, g, the equation f*G - g*F = 12289 modulo x^N+1 holds exactly over the integers, whatever the floating-point reduction steps computed, and a pair with no Bezout relation is reported as unsolvable rather than answered. The solver returns for every such pair. Key generation hands out f, g, F, G only from such a solution.",
  ["inputs"], "all integer polynomial pairs f, g at every power-of-two degree up to 1024, every floating-point outcome and every number of reduction rounds",
  "the test checks the equation on one generated key per size and is not in the stable set; error paths of the solver are never reached on purpose",
  [I+"ntru_gen.hpp", I+"karatsuba.hpp"],
  [("recursive solver", I+"ntru_gen.hpp ntru_solve"), ("Babai reduction", I+"ntru_gen.hpp reduce"), ("integer extended gcd", I+"ntru_gen.hpp xgcd"), ("field norm, lift, conjugate", I+"ntru_gen.hpp")])
p("C10", "Big-integer polynomial products are exact at every size",
  "For every power-of-two size up to 1024 and all integer coefficients, the recursive product of two polynomials equals their schoolbook product, and its reduced form equals the product modulo x^N+1. The field norm, the lift to double degree and the Galois conjugate equal their definitions (f_even^2 - x*f_odd^2, f(x^2), f(-x)), and the integer extended gcd returns a combination that equals the value it reports.",
  ["inputs"], "all integer coefficient vectors, all sizes 1..1024",
  "no test multiplies big-integer polynomials directly; only whole key generations do, on random inputs",
  [I+"karatsuba.hpp", I+"ntru_gen.hpp"],
  [("Karatsuba recursion", I+"karatsuba.hpp karatsuba, karamul"), ("ring maps", I+"ntru_gen.hpp field_norm, lift, galois_conjugate"), ("extended gcd", I+"ntru_gen.hpp xgcd")])
p("C11", "Published key matches the secret key",
  "The public polynomial h derived from secret f and g satisfies h*f = g modulo (12289, x^N+1) for every f that is invertible modulo 12289, and the invertibility test answers true exactly for those f. Key generation only releases keys whose f is invertible and whose Gram-Schmidt norm was found within the threshold, and encodes exactly the h, f, g and F it generated.",
  ["inputs", "histories"], "all f, g with coefficients in -6145..6143 (those of the documented range), every sequence of rejected candidates before the accepted one",
  "tests see only random keys, which are nearly always invertible, so the rejection path and its bookkeeping are practically never taken",
  [I+"keygen.hpp", I+"ntru_gen.hpp", I+"falcon.hpp"],
  [("public key derivation", I+"keygen.hpp compute_public_key"), ("invertibility test", I+"ntru_gen.hpp is_poly_invertible"), ("candidate loop", I+"ntru_gen.hpp ntru_gen"), ("byte level key generation", I+"falcon.hpp keygen")])
p("C12", "The base sampler follows its 72-bit table for every random input",
  "For each of the 2^72 values of its nine random bytes (little-endian), the base sampler returns the number of entries of the published reverse cumulative distribution table that exceed the value, a result in 0..18. The underlying 72-bit add, subtract, negate, compare and byte conversions equal arithmetic modulo 2^72 for all in-range operands, and the byte conversions round-trip in both byte orders.",
  ["inputs"], "all 2^72 random inputs and all pairs of 72-bit operands",
  "known-answer tests (not in the stable set) hit a few thousand of 2^72 values; the top entries of the table are reached with probability below 2^-60",
  [I+"samplerz.hpp", I+"u72.hpp"],
  [("table comparison", I+"samplerz.hpp base_sampler, PDT, RCDT"), ("72-bit arithmetic", I+"u72.hpp u72_t")])
p("C13", "The rejection steps of the sampler compute what the scheme prescribes",
  "The fixed-point exponential evaluates the published degree-12 polynomial with exact 64x64-bit products and 63-bit truncation; the Bernoulli step succeeds exactly when its random bytes, read most significant first until the first difference, are below the resulting 64-bit threshold; and a sampled integer is floor(mu) + z for the first candidate z = b + (2b-1)*z0 accepted by that step with the exponent (z-r)^2/(2 sigma'^2) - z0^2/(2 sigma_max^2). The variant fed from a byte array and the variant fed from the generator agree on the same bytes, consumed in the same order, up to the byte order within each nine-byte base-sampler block.",
  ["inputs", "histories"], "all 64-bit operands, all random byte streams, all rejection histories; floating-point operations read in exact arithmetic",
  "known-answer vectors sample a few thousand streams and are not in the stable set; they exercise one of the two variants",
  [I+"samplerz.hpp"],
  [("fixed-point exponential", I+"samplerz.hpp approx_exp, full_mul_u64, top_63_bits"), ("Bernoulli", I+"samplerz.hpp ber_exp"), ("rejection loop", I+"samplerz.hpp samplerz")])
p("C14", "FFT, inverse, split, merge and adjoint are the exact maps in real arithmetic",
  "In exact complex arithmetic, with the root table within rounding of the true roots, the forward transform of any polynomial of size 2..1024 yields its values at the odd powers of the primitive 2N-th root of unity in bit-reversed order, the inverse transform undoes it, and element-wise operations act coefficient by coefficient. Splitting yields the transforms of the even and odd halves, merging undoes splitting, and the adjoint is the conjugate of every value.",
  ["inputs"], "all complex inputs at every size 2..1024 (rounding error excluded)",
  "tests use coefficients in -3..4, round to integers and only sizes 512 and 1024 for the transform, so a wrong root or sign at one position of a smaller size goes unseen",
  [I+"fft.hpp", I+"polynomial.hpp"],
  [("transforms and root table", I+"fft.hpp fft, ifft, POWERS_OF_ζ"), ("split and merge", I+"fft.hpp split_fft, merge_fft"), ("element-wise operations", I+"polynomial.hpp")])
p("C15", "The signing tree is the LDL decomposition of the key's Gram matrix",
  "In exact arithmetic, the Gram matrix of any basis equals basis times conjugate transpose; every inner tree node holds the L factor of the LDL* decomposition of its 2x2 matrix, the matrices passed down are the self-adjoint ones built from the split diagonal factors, and each leaf holds sigma divided by the square root of its diagonal entry. Every cell of the tree is written, and nothing outside it, for both parameter sets.",
  ["inputs"], "all bases with non-vanishing diagonal, every node of the tree, both sizes",
  "no stable test builds a tree; the full-chain test only notices errors large enough to break a signature",
  [I+"falcon_tree.hpp", I+"keygen.hpp", I+"falcon.hpp"],
  [("LDL* step", I+"falcon_tree.hpp ldl"), ("tree recursion", I+"falcon_tree.hpp ffldl"), ("leaf normalisation", I+"falcon_tree.hpp normalize_tree"), ("Gram matrix", I+"keygen.hpp compute_gram_matrix"), ("tree entry", I+"falcon.hpp compute_falcon_tree")])
p("C16", "Fast Fourier sampling follows the tree recursion at every node",
  "At every level the sampler first samples from the right subtree with the split second target, then from the left subtree with the first target corrected by (second target - sample) times the node's value, and returns the merged samples; at a leaf it draws one integer for each of the two targets, centred at the target's real part, with the leaf's deviation and the given minimal deviation (in either order). At every inner node the right subtree is sampled completely before the left one. Targets and tree are not modified and every output cell is written, without touching memory outside the outputs.",
  ["inputs", "histories"], "all targets and trees, every level of the recursion, all outcomes of the integer sampler",
  "no stable test runs the sampler; a wrong order or a swapped subtree still produces integer vectors that mostly pass the norm check or are silently retried",
  [I+"ffsampling.hpp", I+"samplerz.hpp"],
  [("recursive sampling", I+"ffsampling.hpp ff_sampling")])
p("C17", "Every emitted signature passed the norm check and carries the salt it hashed",
  "Signing returns a signature only after an attempt whose vector (target - sample) times the secret basis had squared norm at most the bound and whose rounded second half compressed successfully; failed attempts are retried and leave no trace in the result. The result is the header byte for the size, exactly the 40-byte salt that was hashed with the message (all 40 bytes drawn from the generator), and that compressed half. The parameters (norm bound, signature length, minimal deviation) are those of the scheme for the size.",
  ["inputs", "histories"], "all messages, bases, trees, sampler outcomes and any number of failed attempts, both sizes",
  "the signing test signs one message per size; retries are rare (and compression failures rarer), so a stale or mismatched retry state is not observed",
  [I+"signing.hpp", I+"falcon.hpp", I+"encoding.hpp"],
  [("attempt loop", I+"signing.hpp sign"), ("parameters", I+"falcon.hpp sign")])
p("C18", "A secret key loaded from bytes yields the basis it was generated with",
  "In exact arithmetic, the fourth polynomial recomputed from a stored key, by rounding to nearest, is the G with f*G - g*F = 12289 modulo x^N+1, the signing matrix is the transform of [[g, -f], [G, -F]] in that order, and the byte-level signing call builds tree and signature from exactly these. A key pair from generation and the same key reloaded therefore give the same basis.",
  ["inputs"], "all f, g, F with f invertible, both sizes (rounding error excluded)",
  "no stable test loads a key; the sign test reloads one random key per size",
  [I+"falcon.hpp", I+"keygen.hpp"],
  [("recomputation of G", I+"falcon.hpp recompute_G"), ("matrix", I+"falcon.hpp compute_matrix_B"), ("byte-level signing", I+"falcon.hpp sign"), ("matrix in key generation", I+"keygen.hpp keygen")])
p("C19", "Malformed keys are refused without producing a result",
  "The byte-level signing call returns false and leaves the signature buffer untouched for a secret key with a wrong header, and returns true otherwise; the byte-level verification call returns false for a malformed public key and otherwise gives exactly the verdict of verification under the decoded key with the bound of its parameter set.",
  ["inputs"], "all byte strings passed as keys, messages and signatures, both sizes",
  "tests never pass a malformed key",
  [I+"falcon.hpp", I+"decoding.hpp"],
  [("signing entry", I+"falcon.hpp sign"), ("verification entry", I+"falcon.hpp verify")])
p("C20", "Honest signatures satisfy the verification equation",
  "In exact arithmetic, for any key satisfying the NTRU equation, public key h = g/f, hashed point c and any integer sample vector, the signature vector (s1, s2) = (target - sample) times the basis consists of integer polynomials with s1 + s2*h = c modulo (12289, x^N+1), so the vector that verification recomputes from s2 is congruent to the one whose norm signing checked.",
  ["inputs", "histories"], "all keys, all hashed points, all sampler outcomes (rounding error excluded)",
  "one signature per size is signed and verified by the full-chain test, which is not in the stable set; sign errors in the target or basis that depend on particular coefficients need all inputs",
  [I+"signing.hpp", I+"verification.hpp", I+"keygen.hpp", I+"ntru_gen.hpp"],
  [("target and signature vector", I+"signing.hpp sign"), ("verification equation", I+"verification.hpp verify")])
p("C21", "Hex helpers round-trip every byte string",
  "Converting any byte string to hexadecimal gives two lower-case digits per byte, most significant digit first, and converting any hexadecimal string (either case) to bytes gives one byte per digit pair; the two conversions are inverse for every length.",
  ["inputs"], "all byte strings of all lengths",
  "tests only use them to print or load fixed vectors",
  [I+"common.hpp"], [("to_hex, to_byte_array", I+"common.hpp")])
p("C22", "Key generation randomness is unpredictable",
  "Secret keys and salts are drawn from a generator whose seed has at least 256 bits of entropy, so no attacker can enumerate them.",
  ["histories"], "all runs", "a statistical and environmental property of the seed, not visible in any output sample",
  [I+"prng.hpp"], [("seeding", I+"prng.hpp prng_t")])
p("C23", "Sampler output is statistically close to the ideal Gaussian, in constant time",
  "The integer sampler's output distribution is within the scheme's statistical distance of the discrete Gaussian, and its running time and memory access pattern do not depend on secret values.",
  ["inputs", "histories"], "all centres, deviations and random streams", "a distribution over all random streams and a timing property",
  [I+"samplerz.hpp", I+"ffsampling.hpp"], [("sampler", I+"samplerz.hpp")])
p("C24", "Floating-point error never changes a signing or key generation outcome",
  "For every key and message the double-precision transforms, tree and sampler deviate from exact arithmetic by less than the rounding margins, so rounded signature and key coefficients are the exact integers, and every signature emitted verifies; the attempt loops terminate.",
  ["inputs", "histories"], "all keys, messages and random streams", "needs error bounds over all inputs",
  [I+"fft.hpp", I+"signing.hpp", I+"ntru_gen.hpp"], [("rounding", I+"signing.hpp sign")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fh:
    for d in P: fh.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
