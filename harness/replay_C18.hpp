#include "fftref.hpp"
#include "falcon.hpp"
using C = fft::cmplx;
static const int quiet_ = (hang_limit = 600, 0);   // key generation may be slow: no verdict from time
template<class A, class B> static std::vector<__int128> negaz(const A& a, const B& b, size_t N)
{
  std::vector<__int128> r(N, 0);
  for (size_t i = 0; i < N; i++)
    if (a[i]) for (size_t j = 0; j < N; j++) { size_t k = i + j; __int128 v = (__int128)a[i] * b[j]; if (k >= N) r[k - N] -= v; else r[k] += v; }
  return r;
}
template<size_t N> static void ntru(const char* nm, const int32_t* f, const int32_t* g, const int32_t* F, const int32_t* G)
{
  auto x = negaz(f, G, N), y = negaz(g, F, N);
  for (size_t i = 0; i < N; i++) if (x[i] - y[i] != (i ? 0 : RQ)) fail("%s<%zu>: f*G - g*F has coefficient %ld at %zu, f[0..3]=%d %d %d %d", nm, N, (long)(x[i] - y[i]), i, f[0], f[1], f[2], f[3]);
}
template<size_t N> static void basis(const char* nm, const C* B, const int32_t* f, const int32_t* g, const int32_t* F, const int32_t* G)
{
  constexpr size_t K = N == 512 ? 9 : 10;
  const int32_t* p[4] = { g, f, G, F };
  for (int j = 0; j < 4; j++) {
    LV a(N);
    for (size_t i = 0; i < N; i++) a[i] = (j & 1 ? -1.0L : 1.0L) * p[j][i];
    a = rfft(K, a);
    for (size_t i = 0; i < N; i++) if (!(std::abs(a[i] - L(B[j * N + i].real(), B[j * N + i].imag())) < 1e-6)) fail("%s<%zu>: entry %d, element %zu of the basis is (%.10g,%.10g), specified (%.10Lg,%.10Lg)", nm, N, j, i, B[j * N + i].real(), B[j * N + i].imag(), a[i].real(), a[i].imag());
  }
}
template<size_t N> static void one(Rng& g, uint64_t it)
{
  constexpr size_t K = N == 512 ? 9 : 10;
  std::vector<int32_t> f(N), h(N), F(N), G(N), R(N), f2(N), g2(N), F2(N);
  prng::prng_t rng;
  hang_what = "ntru_gen::ntru_gen<N>("; ntru_gen::ntru_gen<N>(f.data(), h.data(), F.data(), G.data(), rng);
  ntru<N>("ntru_gen", f.data(), h.data(), F.data(), G.data());
  hang_what = "falcon::recompute_G<N>("; falcon::recompute_G<N>(f.data(), h.data(), F.data(), R.data());
  for (size_t i = 0; i < N; i++) if (R[i] != G[i]) fail("recompute_G<%zu>: coefficient %zu is %d, the key has %d (f[0..3]=%d %d %d %d)", N, i, R[i], G[i], f[0], f[1], f[2], f[3]);
  std::vector<C> B(4 * N), T((K + 1) * N), T2((K + 1) * N);
  falcon::compute_matrix_B<N>(f.data(), h.data(), F.data(), G.data(), B.data());
  basis<N>("compute_matrix_B", B.data(), f.data(), h.data(), F.data(), G.data());
  std::vector<uint8_t> sk(falcon_utils::compute_skey_len<N>()), pk(falcon_utils::compute_pkey_len<N>()), sig(N == 512 ? 666 : 1280), msg(g.below(100) + 1, 7);
  encoding::encode_skey<N>(f.data(), h.data(), F.data(), sk.data());
  if (!decoding::decode_skey<N>(sk.data(), f2.data(), g2.data(), F2.data()) || f != f2 || h != g2 || F != F2) fail("key<%zu> does not survive its byte encoding (f[0..3]=%d %d %d %d)", N, f[0], f[1], f[2], f[3]);
  std::vector<ff::ff_t> p(N), p2(N);
  hang_what = "keygen::keygen<N>("; keygen::keygen<N>(B.data(), T.data(), p.data(), N == 512 ? 165.736617183 : 168.388571447, rng);
  std::vector<int32_t>* o[4] = { &h, &f, &G, &F };
  for (int j = 0; j < 4; j++) {
    std::vector<C> t(B.begin() + j * N, B.begin() + (j + 1) * N);
    fft::ifft<K>(t.data());
    for (size_t i = 0; i < N; i++) (*o[j])[i] = (int32_t)std::round(t[i].real()) * (j & 1 ? -1 : 1);
  }
  ntru<N>("keygen::keygen", f.data(), h.data(), F.data(), G.data());
  basis<N>("keygen::keygen", B.data(), f.data(), h.data(), F.data(), G.data());
  falcon::compute_falcon_tree<N>(B.data(), T2.data());
  for (size_t i = 0; i < T.size(); i++) if (!(std::abs(T[i] - T2[i]) <= 1e-6 * (1 + std::abs(T2[i])))) fail("keygen::keygen<%zu>: tree cell %zu differs from that of the basis", N, i);
  keygen::compute_public_key<N>(f.data(), h.data(), p2.data());
  for (size_t i = 0; i < N; i++) if (p[i].v != p2[i].v) fail("keygen::keygen<%zu>: public key is not that of the basis", N);
  hang_what = "falcon::keygen<N>("; falcon::keygen<N>(pk.data(), sk.data());
  if (!decoding::decode_skey<N>(sk.data(), f.data(), h.data(), F.data())) fail("falcon::keygen<%zu>: secret key does not decode", N);
  hang_what = "falcon::recompute_G<N>("; falcon::recompute_G<N>(f.data(), h.data(), F.data(), G.data());
  ntru<N>("key reloaded after falcon::keygen", f.data(), h.data(), F.data(), G.data());
  auto sk0 = sk;
  hang_what = "falcon::sign<N>("; if (!falcon::sign<N>(sk.data(), msg.data(), msg.size(), sig.data())) fail("falcon::sign<%zu> refuses a generated key", N);
  if (sk0 != sk) fail("falcon::sign<%zu> modified the secret key", N);
  hang_what = "falcon::verify<N>("; if (!falcon::verify<N>(pk.data(), msg.data(), msg.size(), sig.data())) fail("falcon<%zu>: signature with a reloaded key does not verify", N);
}
static void hint(const std::string&) {}
static void step(Rng& g, uint64_t it) { if (it & 1) one<1024>(g, it); else one<512>(g, it); }
