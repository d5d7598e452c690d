// Entry points for tree construction and key generation (real code of /repo).
#include "falcon.hpp"
using C = fft::cmplx;
extern "C" {
void w_gram512(const C* B, C* G) { keygen::compute_gram_matrix<512>(B, G); }
void w_gram1024(const C* B, C* G) { keygen::compute_gram_matrix<1024>(B, G); }
void w_tree512(const C* B, C* T) { falcon::compute_falcon_tree<512>(B, T); }
void w_tree1024(const C* B, C* T) { falcon::compute_falcon_tree<1024>(B, T); }
void w_norm512(C* T, double s) { falcon_tree::normalize_tree<512, 0, 9>(T, s); }
void w_norm1024(C* T, double s) { falcon_tree::normalize_tree<1024, 0, 10>(T, s); }
#define K(n, l, h) void w_ffldl_##h##_##l(const C* G, C* T) { falcon_tree::ffldl<n, l, h>(G, T); }
K(512, 0, 9) K(256, 1, 9) K(128, 2, 9) K(64, 3, 9) K(32, 4, 9) K(16, 5, 9) K(8, 6, 9) K(4, 7, 9) K(2, 8, 9)
K(1024, 0, 10) K(512, 1, 10) K(256, 2, 10) K(128, 3, 10) K(64, 4, 10) K(32, 5, 10) K(16, 6, 10) K(8, 7, 10) K(4, 8, 10) K(2, 9, 10)
#undef K
#define K(n) void w_ldl##n(const C* G, C* l, C* a, C* b) { falcon_tree::ldl<n>(G, l, a, b); }
K(2) K(4) K(8) K(16) K(32) K(64) K(128) K(256) K(512) K(1024)
#undef K
void w_recG512(const int32_t* f, const int32_t* g, const int32_t* F, int32_t* G) { falcon::recompute_G<512>(f, g, F, G); }
void w_recG1024(const int32_t* f, const int32_t* g, const int32_t* F, int32_t* G) { falcon::recompute_G<1024>(f, g, F, G); }
void w_matB512(const int32_t* f, const int32_t* g, const int32_t* F, const int32_t* G, C* B) { falcon::compute_matrix_B<512>(f, g, F, G, B); }
void w_matB1024(const int32_t* f, const int32_t* g, const int32_t* F, const int32_t* G, C* B) { falcon::compute_matrix_B<1024>(f, g, F, G, B); }
void w_kg512(C* B, C* T, ff::ff_t* h, double s, prng::prng_t& r) { keygen::keygen<512>(B, T, h, s, r); }
void w_kg1024(C* B, C* T, ff::ff_t* h, double s, prng::prng_t& r) { keygen::keygen<1024>(B, T, h, s, r); }
}
