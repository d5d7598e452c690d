// Entry points for the codecs (real code of /repo).
#include "decoding.hpp"
#include "encoding.hpp"
using ff::ff_t;
extern "C" {
void w_encpk512(const ff_t* h, uint8_t* k) { encoding::encode_pkey<512>(h, k); }
void w_encpk1024(const ff_t* h, uint8_t* k) { encoding::encode_pkey<1024>(h, k); }
bool w_decpk512(const uint8_t* k, ff_t* h) { return decoding::decode_pkey<512>(k, h); }
bool w_decpk1024(const uint8_t* k, ff_t* h) { return decoding::decode_pkey<1024>(k, h); }
void w_encsk512(const int32_t* f, const int32_t* g, const int32_t* F, uint8_t* k) { encoding::encode_skey<512>(f, g, F, k); }
void w_encsk1024(const int32_t* f, const int32_t* g, const int32_t* F, uint8_t* k) { encoding::encode_skey<1024>(f, g, F, k); }
bool w_decsk512(const uint8_t* k, int32_t* f, int32_t* g, int32_t* F) { return decoding::decode_skey<512>(k, f, g, F); }
bool w_decsk1024(const uint8_t* k, int32_t* f, int32_t* g, int32_t* F) { return decoding::decode_skey<1024>(k, f, g, F); }
bool w_comp512(const int32_t* s, uint8_t* sig) { return encoding::compress_sig<512, 666>(s, sig); }
bool w_comp1024(const int32_t* s, uint8_t* sig) { return encoding::compress_sig<1024, 1280>(s, sig); }
bool w_decomp512(const uint8_t* sig, int32_t* s) { return decoding::decompress_sig<512, 666>(sig, s); }
bool w_decomp1024(const uint8_t* sig, int32_t* s) { return decoding::decompress_sig<1024, 1280>(sig, s); }
uint64_t w_pklen512() { return falcon_utils::compute_pkey_len<512>(); }
uint64_t w_pklen1024() { return falcon_utils::compute_pkey_len<1024>(); }
uint64_t w_sklen512() { return falcon_utils::compute_skey_len<512>(); }
uint64_t w_sklen1024() { return falcon_utils::compute_skey_len<1024>(); }
uint64_t w_siglen512() { return falcon_utils::compute_sig_len<512>(); }
uint64_t w_siglen1024() { return falcon_utils::compute_sig_len<1024>(); }
}
extern "C" {
bool w_decsig512(const uint8_t* sig, uint8_t* salt, int32_t* s) { return decoding::decode_sig<512>(sig, salt, s); }
bool w_decsig1024(const uint8_t* sig, uint8_t* salt, int32_t* s) { return decoding::decode_sig<1024>(sig, salt, s); }
}
