// Entry points for verification (real code of /repo).
#include "falcon.hpp"
extern "C" {
bool w_verify512(const ff::ff_t* h, const uint8_t* msg, uint64_t mlen, const uint8_t* sig) { return verification::verify<512, 34034726>(h, msg, mlen, sig); }
bool w_verify1024(const ff::ff_t* h, const uint8_t* msg, uint64_t mlen, const uint8_t* sig) { return verification::verify<1024, 70265242>(h, msg, mlen, sig); }
bool w_bverify512(const uint8_t* pk, const uint8_t* msg, uint64_t mlen, uint8_t* sig) { return falcon::verify<512>(pk, msg, mlen, sig); }
bool w_bverify1024(const uint8_t* pk, const uint8_t* msg, uint64_t mlen, uint8_t* sig) { return falcon::verify<1024>(pk, msg, mlen, sig); }
bool w_bsign512(const uint8_t* sk, const uint8_t* msg, uint64_t mlen, uint8_t* sig) { return falcon::sign<512>(sk, msg, mlen, sig); }
bool w_bsign1024(const uint8_t* sk, const uint8_t* msg, uint64_t mlen, uint8_t* sig) { return falcon::sign<1024>(sk, msg, mlen, sig); }
}
