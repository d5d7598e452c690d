// Entry points for NTT and NTT-domain polynomial operations (real code of /repo).
#include "polynomial.hpp"
using ff::ff_t;
extern "C" {
void w_ntt9(ff_t* p) { ntt::ntt<9>(p); }
void w_ntt10(ff_t* p) { ntt::ntt<10>(p); }
void w_intt9(ff_t* p) { ntt::intt<9>(p); }
void w_intt10(ff_t* p) { ntt::intt<10>(p); }
void w_mul9(const ff_t* a, const ff_t* b, ff_t* c) { polynomial::mul<9>(a, b, c); }
void w_mul10(const ff_t* a, const ff_t* b, ff_t* c) { polynomial::mul<10>(a, b, c); }
void w_div9(const ff_t* a, const ff_t* b, ff_t* c) { polynomial::div<9>(a, b, c); }
void w_div10(const ff_t* a, const ff_t* b, ff_t* c) { polynomial::div<10>(a, b, c); }
void w_addto9(ff_t* a, const ff_t* b) { polynomial::add_to<9>(a, b); }
void w_addto10(ff_t* a, const ff_t* b) { polynomial::add_to<10>(a, b); }
void w_neg9(ff_t* a) { polynomial::neg<9>(a); }
void w_neg10(ff_t* a) { polynomial::neg<10>(a); }
}
