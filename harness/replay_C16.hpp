#include "fftref.hpp"
#include "ffsampling.hpp"
using C = fft::cmplx;
// reference: algorithm ffSampling, drawing with the library's integer sampler from a copy of the generator
static void ref(size_t k, size_t H, const LV& t0, const LV& t1, const C* T, double smin, LV& z0, LV& z1, prng::prng_t& r)
{
  if (k == 0) {
    double s = T[0].real();
    int a = samplerz::samplerz((double)t0[0].real(), s, smin, r), b = samplerz::samplerz((double)t1[0].real(), s, smin, r);
    z0 = { L(a) }; z1 = { L(b) };
    return;
  }
  size_t n = 1ul << k;
  LV a, b, x, y;
  rsplit(k, t1, a, b);
  ref(k - 1, H, a, b, T + (1ul << H) + n / 2, smin, x, y, r);
  z1 = rmerge(k, x, y);
  LV t(n);
  for (size_t i = 0; i < n; i++) t[i] = t0[i] + (t1[i] - z1[i]) * L(T[i].real(), T[i].imag());
  rsplit(k, t, a, b);
  ref(k - 1, H, a, b, T + (1ul << H), smin, x, y, r);
  z0 = rmerge(k, x, y);
}
static LV realpoly(Rng& g, size_t k, double m) { LV a(1ul << k); for (auto& x : a) x = (g.real() * 2 - 1) * m; return rfft(k, a); }
template<size_t N, size_t K> static void one(Rng& g, double mag)
{
  std::vector<C> t0(N), t1(N), T((K + 1) * N), z0(N), z1(N);
  LV a = realpoly(g, K, mag), b = realpoly(g, K, mag);
  for (size_t i = 0; i < N; i++) { t0[i] = C((double)a[i].real(), (double)a[i].imag()); t1[i] = C((double)b[i].real(), (double)b[i].imag()); }
  for (size_t l = 0; l < K; l++)                         // every node: transform of a small real polynomial
    for (size_t p = 0; p < N; p += N >> l) {
      LV v = realpoly(g, K - l, 0.3 / std::sqrt((double)(N >> l)));
      for (size_t i = 0; i < (N >> l); i++) T[l * N + p + i] = C((double)v[i].real(), (double)v[i].imag());
    }
  double smin = N == 512 ? 1.277833697 : 1.298280334;
  for (size_t i = 0; i < N; i++) T[K * N + i] = C(smin + g.real() * (1.8205 - smin), 0);
  prng::prng_t r;
  prng::prng_t r2 = r;
  auto c0 = t0, c1 = t1, cT = T;
  hang_what = "ff_sampling";
  ffsampling::ff_sampling<N, 0, K>(t0.data(), t1.data(), T.data(), smin, z0.data(), z1.data(), r);
  hang_what = "";
  if (c0 != t0 || c1 != t1 || cT != T) fail("ff_sampling<%zu> modified its input", N);
  LV x, y;
  ref(K, K, lv(t0.data(), N), lv(t1.data(), N), T.data(), smin, x, y, r2);
  for (size_t i = 0; i < N; i++) {
    if (!(std::abs(x[i] - L(z0[i].real(), z0[i].imag())) < 2e-6 * mag + 1e-4)) fail("ff_sampling<%zu>: z0[%zu] = (%.8g,%.8g), recursion with the same random bytes gives (%.8Lg,%.8Lg)", N, i, z0[i].real(), z0[i].imag(), x[i].real(), x[i].imag());
    if (!(std::abs(y[i] - L(z1[i].real(), z1[i].imag())) < 2e-6 * mag + 1e-4)) fail("ff_sampling<%zu>: z1[%zu] = (%.8g,%.8g), recursion with the same random bytes gives (%.8Lg,%.8Lg)", N, i, z1[i].real(), z1[i].imag(), y[i].real(), y[i].imag());
  }
}
static void hint(const std::string&) {}
static void step(Rng& g, uint64_t it) { double m = it % 4 < 2 ? 50 : 20000; if (it & 1) one<1024, 10>(g, m); else one<512, 9>(g, m); }
