#include "fftref.hpp"
#include "polynomial.hpp"
using C = fft::cmplx;
template<size_t K> static void one(Rng& g, uint64_t it)
{
  constexpr size_t N = 1ul << K;
  std::vector<C> a(N), b(N), u, c(N + 1), d(N + 1);
  int mode = it % 4;
  double mx = 1;
  auto rv = [&](size_t i) { return mode == 0 ? C(i == (it / 4) % N, 0) : mode == 1 ? C((double)g.range(-128, 127), 0) : C(g.real() * 200 - 100, g.real() * 200 - 100); };
  for (size_t i = 0; i < N; i++) { a[i] = rv(i); b[i] = C(g.real() * 200 - 100, g.real() * 200 - 100); mx = std::max(mx, std::abs(a[i])); }
  auto ck = [&](const char* nm, const C* got, const LV& want, double scale) {
    for (size_t i = 0; i < want.size(); i++) {
      long double e = std::abs(L(got[i].real(), got[i].imag()) - want[i]);
      if (!(e <= 1e-11 * scale)) fail("%s<%zu> (seeded input, mode %d, step %lu): element %zu is (%.17g,%.17g), specified (%.17Lg,%.17Lg)", nm, K, mode, (unsigned long)it, i, got[i].real(), got[i].imag(), want[i].real(), want[i].imag());
    }
  };
  C mark(12345.5, -54321.5);
  auto end = [&](const char* nm, C x) { if (x != mark) fail("%s<%zu> writes past its output", nm, K); };
  c[N] = d[N] = mark;
  std::copy(a.begin(), a.end(), c.begin()); fft::fft<K>(c.data()); ck("fft", c.data(), rfft(K, lv(a.data(), N)), mx * N); end("fft", c[N]);
  std::copy(c.begin(), c.end(), d.begin()); fft::ifft<K>(d.data()); ck("ifft", d.data(), rifft(K, lv(c.data(), N)), mx * N); end("ifft", d[N]);
  auto A = lv(a.data(), N), B = lv(b.data(), N);
  LV W(N), x, y;
  auto a0 = a, b0 = b;
  std::vector<C> s0(N / 2 + 1), s1(N / 2 + 1);
  s0[N / 2] = s1[N / 2] = mark;
  fft::split_fft<K>(a.data(), s0.data(), s1.data()); rsplit(K, A, x, y);
  ck("split_fft(f0)", s0.data(), x, 4e-4 * 142); ck("split_fft(f1)", s1.data(), y, 4e-4 * 142); end("split_fft", s0[N / 2]); end("split_fft", s1[N / 2]);
  fft::merge_fft<K>(b.data(), b.data() + N / 2, d.data()); ck("merge_fft", d.data(), rmerge(K, LV(B.begin(), B.begin() + N / 2), LV(B.begin() + N / 2, B.end())), 4e-4 * 142); end("merge_fft", d[N]);
  u = a; fft::adj_poly<K>(u.data()); for (size_t i = 0; i < N; i++) W[i] = std::conj(A[i]); ck("adj_poly", u.data(), W, 0);
#define E(nm, ex) polynomial::nm<K>(a.data(), b.data(), d.data()); for (size_t i = 0; i < N; i++) W[i] = ex; ck(#nm, d.data(), W, 1e5); end(#nm, d[N]);
  E(add, A[i] + B[i]) E(sub, A[i] - B[i]) E(mul, A[i] * B[i])
  for (auto& z : b) if (std::abs(z) < 1) z = C(1, 1);
  B = lv(b.data(), N); b0 = b;
  E(div, A[i] / B[i])
  if (a != a0 || b != b0) fail("element-wise operation <%zu> modified its input", K);
  u = a; polynomial::add_to<K>(u.data(), b.data()); for (size_t i = 0; i < N; i++) W[i] = A[i] + B[i]; ck("add_to", u.data(), W, 1e3);
}
static void hint(const std::string&) {}
static void step(Rng& g, uint64_t it)
{
  one<1>(g, it); one<2>(g, it); one<3>(g, it); one<4>(g, it); one<5>(g, it); one<6>(g, it); one<7>(g, it); one<8>(g, it); one<9>(g, it); one<10>(g, it);
}
