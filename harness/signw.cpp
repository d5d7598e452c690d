// Entry points for signing (real code of /repo).
#include "falcon.hpp"
using C = fft::cmplx;
extern "C" {
void w_sign512(const C* B, const C* T, const uint8_t* msg, uint64_t mlen, uint8_t* sig, double s, prng::prng_t& r) { signing::sign<512, 34034726, 666>(B, T, msg, mlen, sig, s, r); }
void w_sign1024(const C* B, const C* T, const uint8_t* msg, uint64_t mlen, uint8_t* sig, double s, prng::prng_t& r) { signing::sign<1024, 70265242, 1280>(B, T, msg, mlen, sig, s, r); }
void w_fsign512(const C* B, const C* T, const uint8_t* msg, uint64_t mlen, uint8_t* sig, prng::prng_t& r) { falcon::sign<512>(B, T, msg, mlen, sig, r); }
void w_fsign1024(const C* B, const C* T, const uint8_t* msg, uint64_t mlen, uint8_t* sig, prng::prng_t& r) { falcon::sign<1024>(B, T, msg, mlen, sig, r); }
}
