// Entry points for message hashing (real code of /repo).
#include "hashing.hpp"
extern "C" {
void w_htp512(const uint8_t* salt, uint64_t slen, const uint8_t* msg, uint64_t mlen, ff::ff_t* p) { hashing::hash_to_point<512>(salt, slen, msg, mlen, p); }
void w_htp1024(const uint8_t* salt, uint64_t slen, const uint8_t* msg, uint64_t mlen, ff::ff_t* p) { hashing::hash_to_point<1024>(salt, slen, msg, mlen, p); }
}
