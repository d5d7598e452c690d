#include "fftref.hpp"
#include "falcon.hpp"
static const int quiet_ = (hang_limit = 600, 0);   // key generation may be slow: no verdict from time
using IV = std::vector<int32_t>;
static std::string zs(const IV& a) { std::string s; for (size_t i = 0; i < 8; i++) s += std::to_string(a[i]) + " "; return s; }
static int64_t cen(int64_t x) { x = md(x); return x > 6143 ? x - RQ : x; }
template<size_t N> static int64_t rootq() { static int64_t r = pw(11, (RQ - 1) / (2 * N)); return r; }
template<size_t N> static bool invertible(const IV& f)
{
  int64_t psi = rootq<N>();
  for (size_t j = 0; j < N; j++) {
    int64_t x = pw(psi, 2 * j + 1), s = 0;
    for (size_t i = N; i-- > 0;) s = (s * x + f[i]) % RQ;
    if (md(s) == 0) return false;
  }
  return true;
}
template<size_t N> static void ratio(const char* nm, const IV& f, const IV& g, const ff::ff_t* h)
{
  std::vector<int64_t> a(N), b(N);
  for (size_t i = 0; i < N; i++) { if (h[i].v >= RQ) fail("%s<%zu>: h[%zu] = %d is not canonical", nm, N, i, h[i].v); a[i] = h[i].v; b[i] = f[i]; }
  auto r = nega(a, b);
  for (size_t i = 0; i < N; i++) if (r[i] != md(g[i])) fail("%s<%zu>: (h*f)[%zu] = %ld, g[%zu] = %d (f = %s..., g = %s...)", nm, N, i, (long)r[i], i, g[i], zs(f).c_str(), zs(g).c_str());
}
template<size_t N> static void algebra(Rng& g)
{
  IV f(N), h(N);
  int64_t m = g.below(3) ? 6145 : 1 + g.below(40);
  for (auto& x : f) x = (int32_t)g.range(-m, m > 6143 ? 6143 : m);
  for (auto& x : h) x = (int32_t)g.range(-m, m > 6143 ? 6143 : m);
  if (g.below(4) == 0) { std::fill(f.begin(), f.end(), 0); f[g.below(N)] = g.below(2) ? -6145 : (int32_t)g.range(-6145, 6143); }
  if (g.below(8) == 0) std::fill(f.begin(), f.end(), 0);
  if (g.below(2)) {                       // make one value at a root vanish: f * (x - r)
    size_t j = g.below(N);
    int64_t r = pw(rootq<N>(), 2 * j + 1);
    IV t(N);
    for (size_t i = 0; i < N; i++) t[i] = (int32_t)cen((i ? f[i - 1] : -(int64_t)f[N - 1]) - md(r) * f[i]);
    f = t;
  }
  bool inv = invertible<N>(f), got = ntru_gen::is_poly_invertible<(N == 512 ? 9 : 10)>(f.data());
  if (inv != got) fail("is_poly_invertible<%zu> answers %d, f %s invertible modulo 12289; f = %s...", N, got, inv ? "is" : "is not", zs(f).c_str());
  if (!inv) return;
  std::vector<ff::ff_t> p(N);
  keygen::compute_public_key<N>(f.data(), h.data(), p.data());
  ratio<N>("compute_public_key", f, h, p.data());
}
template<size_t N> static bool norms(const IV& f, const IV& g, long double& A, long double& B)
{
  constexpr size_t K = N == 512 ? 9 : 10;
  LV a(N), b(N);
  A = B = 0;
  for (size_t i = 0; i < N; i++) { a[i] = f[i]; b[i] = g[i]; A += (long double)f[i] * f[i] + (long double)g[i] * g[i]; }
  a = rfft(K, a); b = rfft(K, b);
  for (size_t i = 0; i < N; i++) { long double d = std::norm(a[i]) + std::norm(b[i]); if (d < 1e-3L) return false; B += 1 / d; }
  B *= 12289.0L * 12289.0L / N;
  return true;
}
template<size_t N> static void gs(Rng& g)
{
  IV f(N), h(N);
  int64_t m = 1 + g.below(12);
  for (auto& x : f) x = (int32_t)g.range(-m, m);
  for (auto& x : h) x = (int32_t)g.range(-m, m);
  long double A, B;
  if (!norms<N>(f, h, A, B)) return;
  double r = ntru_gen::gram_schmidt_norm<(N == 512 ? 9 : 10)>(f.data(), h.data());
  if (!(std::abs(r - std::max(A, B)) <= 1e-5L * std::max(A, B))) fail("gram_schmidt_norm<%zu> = %.10g, specified max(%.10Lg, %.10Lg); f = %s..., g = %s...", N, r, A, B, zs(f).c_str(), zs(h).c_str());
}
template<size_t N> static void released(const char* nm, const IV& f, const IV& g)
{
  if (!invertible<N>(f)) fail("%s<%zu> releases a key whose f is not invertible modulo 12289; f = %s...", nm, N, zs(f).c_str());
  long double A, B;
  if (norms<N>(f, g, A, B) && std::max(A, B) > 1.17L * 1.17L * 12289 * (1 + 1e-9L)) fail("%s<%zu> releases a key of squared Gram-Schmidt norm %.10Lg; f = %s...", nm, N, std::max(A, B), zs(f).c_str());
}
template<size_t N> static void whole(Rng& g)
{
  IV f(N), h(N), F(N), G(N);
  prng::prng_t rng;
  if (g.below(2)) {
    hang_what = "ntru_gen::ntru_gen<N>(";
    ntru_gen::ntru_gen<N>(f.data(), h.data(), F.data(), G.data(), rng);
    released<N>("ntru_gen", f, h);
  }
  std::vector<uint8_t> pk(falcon_utils::compute_pkey_len<N>()), sk(falcon_utils::compute_skey_len<N>());
  hang_what = "falcon::keygen<N>(";
  falcon::keygen<N>(pk.data(), sk.data());
  std::vector<ff::ff_t> p(N);
  if (!decoding::decode_pkey<N>(pk.data(), p.data())) fail("falcon::keygen<%zu>: public key does not decode", N);
  if (!decoding::decode_skey<N>(sk.data(), f.data(), h.data(), F.data())) fail("falcon::keygen<%zu>: secret key does not decode", N);
  released<N>("falcon::keygen", f, h);
  ratio<N>("falcon::keygen", f, h, p.data());
  falcon::recompute_G<N>(f.data(), h.data(), F.data(), G.data());
  std::vector<__int128> r(N);
  for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) { __int128 v = (__int128)f[i] * G[j] - (__int128)h[i] * F[j]; if (i + j < N) r[i + j] += v; else r[i + j - N] -= v; }
  for (size_t i = 0; i < N; i++) if (r[i] != (i ? 0 : RQ)) fail("falcon::keygen<%zu>: the secret key is not an NTRU key (coefficient %zu of f*G - g*F)", N, i);
}
template<size_t N> static void poly()
{
  prng::prng_t rng;
  IV f(N);
  double s = 0;
  for (int k = 0; k < 64; k++) { ntru_gen::gen_poly<(N == 512 ? 9 : 10)>(f.data(), rng); for (auto x : f) s += (double)x * x; }
  s /= 64 * N;
  double want = 1.43300980528773 * 1.43300980528773 * 4096 / N;     // 40 standard errors
  if (std::abs(s - want) > want * 40 * std::sqrt(2.0 / (64 * N))) fail("gen_poly<%zu>: variance of the coefficients is %.4f, specified %.4f", N, s, want);
}
static void hint(const std::string&) {}
static void step(Rng& g, uint64_t it)
{
  if (it % 50 == 0) poly<512>();
  if (it % 50 == 1) poly<1024>();
  for (int i = 0; i < 10; i++) { algebra<512>(g); algebra<1024>(g); }
  gs<512>(g); gs<1024>(g);
  if (it & 1) whole<1024>(g); else whole<512>(g);
}
