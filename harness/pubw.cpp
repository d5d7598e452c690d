// Entry points for the public key and byte-level key generation (real code of /repo).
#include "falcon.hpp"
extern "C" {
void w_pub512(const int32_t* f, const int32_t* g, ff::ff_t* h) { keygen::compute_public_key<512>(f, g, h); }
void w_pub1024(const int32_t* f, const int32_t* g, ff::ff_t* h) { keygen::compute_public_key<1024>(f, g, h); }
void w_bkeygen512(uint8_t* pk, uint8_t* sk) { falcon::keygen<512>(pk, sk); }
void w_bkeygen1024(uint8_t* pk, uint8_t* sk) { falcon::keygen<1024>(pk, sk); }
}
