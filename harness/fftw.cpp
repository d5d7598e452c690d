// Entry points for the transforms (real code of /repo).
#include "falcon.hpp"
using C = fft::cmplx;
extern "C" {
#define K(k) \
  void w_fft##k(C* v) { fft::fft<k>(v); } \
  void w_ifft##k(C* v) { fft::ifft<k>(v); } \
  void w_split##k(const C* f, C* f0, C* f1) { fft::split_fft<k>(f, f0, f1); } \
  void w_merge##k(const C* f0, const C* f1, C* f) { fft::merge_fft<k>(f0, f1, f); } \
  void w_adj##k(C* f) { fft::adj_poly<k>(f); } \
  void w_add##k(const C* a, const C* b, C* c) { polynomial::add<k>(a, b, c); } \
  void w_addto##k(C* a, const C* b) { polynomial::add_to<k>(a, b); } \
  void w_sub##k(const C* a, const C* b, C* c) { polynomial::sub<k>(a, b, c); } \
  void w_mul##k(const C* a, const C* b, C* c) { polynomial::mul<k>(a, b, c); } \
  void w_div##k(const C* a, const C* b, C* c) { polynomial::div<k>(a, b, c); }
K(1) K(2) K(3) K(4) K(5) K(6) K(7) K(8) K(9) K(10)
}
