// Entry points for fast Fourier sampling (real code of /repo).
#include "ffsampling.hpp"
using C = fft::cmplx;
extern "C" {
#define K(n, l, h) void w_ffs_##h##_##l(const C* t0, const C* t1, const C* T, double s, C* z0, C* z1, prng::prng_t& r) { ffsampling::ff_sampling<n, l, h>(t0, t1, T, s, z0, z1, r); }
K(512, 0, 9) K(256, 1, 9) K(128, 2, 9) K(64, 3, 9) K(32, 4, 9) K(16, 5, 9) K(8, 6, 9) K(4, 7, 9) K(2, 8, 9) K(1, 9, 9)
K(1024, 0, 10) K(512, 1, 10) K(256, 2, 10) K(128, 3, 10) K(64, 4, 10) K(32, 5, 10) K(16, 6, 10) K(8, 7, 10) K(4, 8, 10) K(2, 9, 10) K(1, 10, 10)
}
