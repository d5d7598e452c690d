// Entry points for big-integer polynomials and the NTRU solver (real code of /repo).
#include "ntru_gen.hpp"
using Z = mpz_class;
template<size_t N> using A = std::array<Z, N>;
extern "C" {
#define K(n) void w_kar##n(const A<n>& a, const A<n>& b, A<2 * n>* r) { new (r) A<2 * n>(karatsuba::karatsuba<n>(a, b)); } \
  void w_mul##n(const A<n>& a, const A<n>& b, A<n>* r) { new (r) A<n>(karatsuba::karamul<n>(a, b)); } \
  void w_lift##n(const A<n>& a, A<2 * n>* r) { new (r) A<2 * n>(ntru_gen::lift<n>(a)); }
K(1) K(2) K(4) K(8) K(16) K(32) K(64) K(128) K(256) K(512) K(1024)
#undef K
#define K(n) void w_norm##n(const A<n>& a, A<n / 2>* r) { new (r) A<n / 2>(ntru_gen::field_norm<n>(a)); } \
  void w_conj##n(const A<n>& a, A<n>* r) { new (r) A<n>(ntru_gen::galois_conjugate<n>(a)); } \
  void w_red##n(const A<n>& f, const A<n>& g, A<n>& F, A<n>& G) { ntru_gen::reduce<n>(f, g, F, G); } \
  void w_mm##n(const A<n>& a, A<2>* r) { auto p = ntru_gen::min_max<n>(a); new (r) A<2>{ p.first, p.second }; }
K(2) K(4) K(8) K(16) K(32) K(64) K(128) K(256) K(512) K(1024)
#undef K
#define K(n) int w_solve##n(const A<n>& f, const A<n>& g, A<n>* F, A<n>* G) { auto r = ntru_gen::ntru_solve<n>(f, g); new (F) A<n>(r.first.first); new (G) A<n>(r.first.second); return r.second.is_solution(); }
K(1) K(2) K(4) K(8) K(16) K(32) K(64) K(128) K(256) K(512) K(1024)
#undef K
void w_xgcd(const Z& x, const Z& y, A<3>* r) { new (r) A<3>(ntru_gen::xgcd(x, y)); }
size_t w_abl(const Z& x) { return ntru_gen::approx_bit_len(x); }
void w_gen512(int32_t* f, int32_t* g, int32_t* F, int32_t* G, prng::prng_t& r) { ntru_gen::ntru_gen<512>(f, g, F, G, r); }
void w_gen1024(int32_t* f, int32_t* g, int32_t* F, int32_t* G, prng::prng_t& r) { ntru_gen::ntru_gen<1024>(f, g, F, G, r); }
void w_poly512(int32_t* f, prng::prng_t& r) { ntru_gen::gen_poly<9>(f, r); }
void w_poly1024(int32_t* f, prng::prng_t& r) { ntru_gen::gen_poly<10>(f, r); }
bool w_inv512(const int32_t* f) { return ntru_gen::is_poly_invertible<9>(f); }
bool w_inv1024(const int32_t* f) { return ntru_gen::is_poly_invertible<10>(f); }
double w_gs512(const int32_t* f, const int32_t* g) { return ntru_gen::gram_schmidt_norm<9>(f, g); }
double w_gs1024(const int32_t* f, const int32_t* g) { return ntru_gen::gram_schmidt_norm<10>(f, g); }
}
