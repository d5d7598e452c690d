#include "fftref.hpp"
#include "falcon.hpp"
using C = fft::cmplx;
static void rtree(size_t k, const LV& g00, const LV& g10, const LV& g11, LV& T, size_t H, size_t l, size_t j)
{
  size_t n = 1ul << k;
  LV L10(n), d11(n);
  for (size_t i = 0; i < n; i++) {
    L10[i] = g10[i] / g00[i];
    d11[i] = g11[i] - L10[i] * std::conj(L10[i]) * g00[i];
    T[(l << H) + j * n + i] = L10[i];
  }
  if (k == 1) { T[(H << H) + j * n] = g00[0]; T[(H << H) + j * n + 1] = d11[0]; return; }
  LV a, b, c, d;
  rsplit(k, g00, a, b);
  rsplit(k, d11, c, d);
  auto cj = [](LV v) { for (auto& x : v) x = std::conj(x); return v; };
  rtree(k - 1, a, cj(b), a, T, H, l + 1, 2 * j);
  rtree(k - 1, c, cj(d), c, T, H, l + 1, 2 * j + 1);
}
template<size_t N> static void one(Rng& g, uint64_t it)
{
  constexpr size_t K = N == 512 ? 9 : 10;
  std::vector<C> B(4 * N), B0, T((K + 1) * N + 1, C(7, 7));
  LV p(N), b[4];
  double s[4] = { 4, 4, 30, 30 };
  for (int j = 0; j < 4; j++) {
    for (auto& x : p) x = (long double)g.range(-s[j], s[j]);
    b[j] = rfft(K, p);
    for (size_t i = 0; i < N; i++) B[j * N + i] = C(b[j][i].real(), b[j][i].imag());
  }
  B0 = B;
  falcon::compute_falcon_tree<N>(B.data(), T.data());
  if (B0 != B) fail("compute_falcon_tree<%zu> modified the basis", N);
  if (T[(K + 1) * N] != C(7, 7)) fail("compute_falcon_tree<%zu> writes past the tree", N);
  LV G[4], R((K + 1) * N);
  for (auto& v : G) v.resize(N);
  for (size_t i = 0; i < N; i++) {
    G[0][i] = b[0][i] * std::conj(b[0][i]) + b[1][i] * std::conj(b[1][i]);
    G[2][i] = b[2][i] * std::conj(b[0][i]) + b[3][i] * std::conj(b[1][i]);
    G[3][i] = b[2][i] * std::conj(b[2][i]) + b[3][i] * std::conj(b[3][i]);
  }
  std::vector<C> M(4 * N + 1, C(7, 7));
  keygen::compute_gram_matrix<N>(B.data(), M.data());
  if (M[4 * N] != C(7, 7)) fail("compute_gram_matrix<%zu> writes past its output", N);
  for (size_t i = 0; i < 4 * N; i++) {
    L w = i / N == 1 ? std::conj(G[2][i - N]) : G[i / N][i % N];
    if (!(std::abs(L(M[i].real(), M[i].imag()) - w) <= 1e-6L * (1 + std::abs(w)) + 1e-3L)) fail("gram matrix<%zu> of a random basis (seeded, step %lu): element %zu of entry %zu is (%.12g,%.12g), specified (%.12Lg,%.12Lg)", N, (unsigned long)it, i % N, i / N, M[i].real(), M[i].imag(), w.real(), w.imag());
  }
  rtree(K, G[0], G[2], G[3], R, K, 0, 0);
  size_t off = 0;
  for (size_t i = 0; i < (K + 1) * N; i++) {
    L w = R[i];
    if (i >= K * N) w = (N == 512 ? 165.736617183L : 168.388571447L) / sqrtl(w.real());
    long double e = std::abs(L(T[i].real(), T[i].imag()) - w), m = 1 + std::abs(w);
    if (!(e <= 1e-5L * m) || (i >= K * N && e > 5e-11L * m && ++off > N / 4)) fail("tree<%zu> of a random basis (seeded, step %lu): cell %zu of level %zu is (%.12g,%.12g), specified (%.12Lg,%.12Lg)", N, (unsigned long)it, i % N, i / N, T[i].real(), T[i].imag(), w.real(), w.imag());
  }
}
static void hint(const std::string&) {}
static void step(Rng& g, uint64_t it) { one<512>(g, it); one<1024>(g, it); }
