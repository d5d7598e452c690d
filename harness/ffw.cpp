// Entry points for the contracts of ff::ff_t: each wrapper only builds the
// operands and calls the operator of the real code.
#include "ff.hpp"
using ff::ff_t;
static inline ff_t mk(uint16_t v)
{
  ff_t r;
  r.v = v;
  return r;
}
extern "C" {
uint16_t w_ctor(uint16_t a) { return ff_t(a).v; }
uint16_t w_zero() { return ff_t::zero().v; }
uint16_t w_one() { return ff_t::one().v; }
uint16_t w_dflt() { return ff_t{}.v; }
uint16_t w_add(uint16_t a, uint16_t b) { return (mk(a) + mk(b)).v; }
uint16_t w_sub(uint16_t a, uint16_t b) { return (mk(a) - mk(b)).v; }
uint16_t w_neg(uint16_t a) { return (-mk(a)).v; }
uint16_t w_mul(uint16_t a, uint16_t b) { return (mk(a) * mk(b)).v; }
uint16_t w_inv(uint16_t a) { return mk(a).inv().v; }
uint16_t w_div(uint16_t a, uint16_t b) { return (mk(a) / mk(b)).v; }
uint16_t w_pow(uint16_t a, uint64_t n) { return (mk(a) ^ n).v; }
uint16_t w_addto(uint16_t a, uint16_t b) { ff_t x = mk(a); x += mk(b); return x.v; }
uint16_t w_multo(uint16_t a, uint16_t b) { ff_t x = mk(a); x *= mk(b); return x.v; }
bool w_eq(uint16_t a, uint16_t b) { return mk(a) == mk(b); }
bool w_ne(uint16_t a, uint16_t b) { return mk(a) != mk(b); }
bool w_gt(uint16_t a, uint16_t b) { return mk(a) > mk(b); }
bool w_ge(uint16_t a, uint16_t b) { return mk(a) >= mk(b); }
bool w_lt(uint16_t a, uint16_t b) { return mk(a) < mk(b); }
bool w_le(uint16_t a, uint16_t b) { return mk(a) <= mk(b); }
uint16_t w_shl(uint16_t a, uint64_t l) { return (mk(a) << l).v; }
uint16_t w_shr(uint16_t a, uint64_t l) { return (mk(a) >> l).v; }
// operands alias
uint16_t w_addself(uint16_t a) { ff_t x = mk(a); x += x; return x.v; }
uint16_t w_multoself(uint16_t a) { ff_t x = mk(a); x *= x; return x.v; }
}
