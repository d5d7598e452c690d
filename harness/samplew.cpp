// Entry points for the sampler's integer parts (real code of /repo).
#include "samplerz.hpp"
using u72::u72_t;
struct P { uint64_t hi, lo; };
static inline u72_t mk(const P* a) { u72_t r; r.hi = a->hi; r.lo = a->lo; return r; }
static inline void put(P* o, const u72_t& v) { o->hi = v.hi; o->lo = v.lo; }
static inline std::array<uint8_t, 9> by(const uint8_t* b)
{
  std::array<uint8_t, 9> t;
  for (int i = 0; i < 9; i++) t[i] = b[i];
  return t;
}
extern "C" {
void w_uadd(const P* a, const P* b, P* o) { put(o, mk(a) + mk(b)); }
void w_usub(const P* a, const P* b, P* o) { put(o, mk(a) - mk(b)); }
void w_uneg(const P* a, P* o) { put(o, -mk(a)); }
bool w_ugt(const P* a, const P* b) { return mk(a) > mk(b); }
bool w_ult(const P* a, const P* b) { return mk(a) < mk(b); }
void w_uzero(P* o) { put(o, u72_t::zero()); }
void w_ule(const uint8_t* b, P* o) { put(o, u72_t::from_le_bytes(by(b))); }
void w_ube(const uint8_t* b, P* o) { put(o, u72_t::from_be_bytes(by(b))); }
void w_tole(const P* a, uint8_t* o) { auto t = mk(a).to_le_bytes(); for (int i = 0; i < 9; i++) o[i] = t[i]; }
void w_tobe(const P* a, uint8_t* o) { auto t = mk(a).to_be_bytes(); for (int i = 0; i < 9; i++) o[i] = t[i]; }
uint32_t w_base(const uint8_t* b) { return samplerz::base_sampler(by(b)); }
uint32_t w_base_rng(prng::prng_t* rng) { return samplerz::base_sampler(*rng); }

void w_fullmul(uint64_t a, uint64_t b, P* o) { auto r = samplerz::full_mul_u64(a, b); o->hi = r.first; o->lo = r.second; }
uint64_t w_top63(uint64_t h, uint64_t l) { return samplerz::top_63_bits(std::make_pair(h, l)); }
uint64_t w_approx(double x, double ccs) { return samplerz::approx_exp(x, ccs); }
uint8_t w_ber_rng(double x, double ccs, prng::prng_t* rng) { return samplerz::ber_exp(x, ccs, *rng); }
void w_ber_arr(double x, double ccs, const uint8_t* b, uint64_t n, uint64_t* o)
{
  auto r = samplerz::ber_exp(x, ccs, b, n);
  o[0] = r.first;
  o[1] = r.second;
}
int32_t w_samp_rng(double mu, double sp, double smin, prng::prng_t* rng) { return samplerz::samplerz(mu, sp, smin, *rng); }
int32_t w_samp_arr(double mu, double sp, double smin, const uint8_t* b, uint64_t n, uint64_t* used)
{
  auto r = samplerz::samplerz(mu, sp, smin, b, n);
  *used = r.second;
  return r.first;
}
}
