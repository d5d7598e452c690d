#include "verifyref.hpp"
using C = fft::cmplx;
static const int quiet_ = (hang_limit = 120, 0);
template<size_t N> struct Key
{
  static constexpr size_t K = N == 512 ? 9 : 10;
  std::vector<C> B, T;
  std::vector<int64_t> h;
  Key()
  {
    std::vector<int32_t> f(N), g(N), F(N), G(N);
    std::vector<ff::ff_t> p(N);
    prng::prng_t r;
    ntru_gen::ntru_gen<N>(f.data(), g.data(), F.data(), G.data(), r);
    keygen::compute_public_key<N>(f.data(), g.data(), p.data());
    for (auto& x : p) h.push_back(x.v);
    B.resize(4 * N); T.resize((K + 1) * N);
    falcon::compute_matrix_B<N>(f.data(), g.data(), F.data(), G.data(), B.data());
    tree(B, T, 1);
  }
  static void tree(std::vector<C>& B, std::vector<C>& T, double m)
  {
    falcon::compute_falcon_tree<N>(B.data(), T.data());
    double lo = N == 512 ? 1.277833697 : 1.298280334;
    for (size_t i = 0; i < N; i++) T[K * N + i] = C(std::min(1.8205, std::max(lo, T[K * N + i].real() * m)), 0);
  }
};
// mode 0: as is; 1: wide leaves (norm check fails often); 2: basis stretched so that the second half gets long (compression fails often)
template<size_t N> static void one(Rng& g, int mode)
{
  static Key<N> key;
  constexpr size_t LEN = N == 512 ? 666 : 1280, K = Key<N>::K;
  constexpr int64_t BND = N == 512 ? 34034726 : 70265242;
  std::vector<C> B = key.B, T = key.T;
  double a = 1;
  if (mode == 1) Key<N>::tree(B, T, 1.06 + 0.06 * g.real());
  if (mode == 2) {
    a = 1.2 + 0.12 * g.real();
    for (int j = 0; j < 4; j++) for (size_t i = 0; i < N; i++) B[j * N + i] *= j & 1 ? a : 1 / a;
    Key<N>::tree(B, T, 1);
  }
  std::vector<uint8_t> msg(g.below(4) ? g.below(90) : 0), sig(LEN, 0xa5);
  for (auto& x : msg) x = g.below(256);
  auto B0 = B, T0 = T; auto m0 = msg;
  prng::prng_t r;
  auto& S = shake256::stream;
  S.bytes = nullptr;
  S.absorbed = 0;
  hang_what = "signing";
  falcon::sign<N>(B.data(), T.data(), msg.data(), msg.size(), sig.data(), r);
  hang_what = "";
  const char* what = mode == 0 ? "" : mode == 1 ? ", tree with wide leaves" : ", stretched basis";
  if (B0 != B || T0 != T || m0 != msg) fail("sign<%zu> modified its input", N);
  if (sig[0] != (0x30 | K)) fail("sign<%zu>: header byte %#x", N, sig[0]);
  std::vector<uint8_t> x(sig.begin() + 1, sig.begin() + 41);
  x.insert(x.end(), msg.begin(), msg.end());
  if (S.absorbed >= x.size() && std::memcmp(S.log + S.absorbed - x.size(), x.data(), x.size())) fail("sign<%zu>: the salt in the signature is not the one hashed with the message (%zu bytes)", N, msg.size());
  static int seen[40], cnt = 0;
  static uint8_t first[40];
  if (!cnt) std::memcpy(first, sig.data() + 1, 40);
  for (int i = 0; i < 40; i++) seen[i] |= sig[1 + i] ^ first[i];
  if (++cnt == 200) for (int i = 0; i < 40; i++) if (!seen[i]) fail("sign<%zu>: byte %d of the salt was %#x in each of 200 signatures", N, i, first[i]);
  std::vector<int32_t> s2;
  if (!refdec(sig.data() + 41, LEN - 41, N, s2)) fail("sign<%zu>%s: returned, but bytes 41.. are not a compressed polynomial (begin %02x %02x %02x %02x)", N, what, sig[41], sig[42], sig[43], sig[44]);
  if (sqn(s2) > BND) fail("sign<%zu>%s: the second half alone has squared norm %ld, bound %ld", N, what, (long)sqn(s2), (long)BND);
  if (mode < 2) {
    int64_t q = refnorm<N>(refpoint<N>(sig.data() + 1, msg.data(), msg.size()), s2, key.h);
    if (q > BND) fail("sign<%zu>%s: signature vector has squared norm %ld, bound %ld", N, what, (long)q, (long)BND);
  }
}
static void hint(const std::string&) {}
static void step(Rng& g, uint64_t it) { int m = it / 2 % 3; if (it & 1) one<1024>(g, m); else one<512>(g, m); }
