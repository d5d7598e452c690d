#include "verifyref.hpp"
static const int quiet_ = (hang_limit = 150, 0);   // key generation may be slow
template<size_t N> static void one(Rng& g)
{
  constexpr size_t K = N == 512 ? 9 : 10, LEN = N == 512 ? 666 : 1280;
  constexpr int64_t BND = N == 512 ? 34034726 : 70265242;
  std::vector<uint8_t> sk(falcon_utils::compute_skey_len<N>()), pk(falcon_utils::compute_pkey_len<N>()), sig(LEN);
  shake256::stream.bytes = nullptr;
  hang_what = "falcon::keygen"; falcon::keygen<N>(pk.data(), sk.data());
  std::vector<ff::ff_t> p(N);
  if (!decoding::decode_pkey<N>(pk.data(), p.data())) fail("falcon::keygen<%zu>: public key does not decode", N);
  std::vector<int64_t> h;
  for (auto& x : p) h.push_back(x.v);
  // leaves a little wide: attempts fail now and then, what is emitted still has to verify
  static int32_t f[N], gg[N], F[N], G[N]; static fft::cmplx B[4 * N], T[(K + 1) * N]; prng::prng_t r;
  const bool wide = decoding::decode_skey<N>(sk.data(), f, gg, F);
  if (wide) {
    hang_what = "falcon::recompute_G, compute_matrix_B, compute_falcon_tree";
    falcon::recompute_G<N>(f, gg, F, G); falcon::compute_matrix_B<N>(f, gg, F, G, B); falcon::compute_falcon_tree<N>(B, T);
    for (size_t i = 0; i < N; i++) T[K * N + i] = fft::cmplx(std::min(1.8205, std::max(1.3, T[K * N + i].real() * 1.1)), 0);
  }
  for (int it = 0; it < 30; it++) {
    std::vector<uint8_t> msg(g.below(5) ? g.below(300) : 0);
    for (auto& x : msg) x = g.below(256);
    hang_limit = 60; alarm(60); hang_what = "falcon::sign";
    const char* how = "";
    if (wide && it >= 10) { how = " (wide tree leaves)"; falcon::sign<N>(B, T, msg.data(), msg.size(), sig.data(), r); }
    else if (!falcon::sign<N>(sk.data(), msg.data(), msg.size(), sig.data())) fail("falcon::sign<%zu> refuses a generated key", N);
    hang_what = "";
    std::vector<int32_t> s2;
    if (!refdec(sig.data() + 41, LEN - 41, N, s2)) fail("falcon::sign<%zu>: body of an honest signature is not a compressed polynomial", N);
    int64_t q = refnorm<N>(refpoint<N>(sig.data() + 1, msg.data(), msg.size()), s2, h);
    if (q > BND) fail("falcon<%zu>: honest signature of a %zu byte message%s has (c - s2 h, s2) of squared norm %ld, bound %ld", N, msg.size(), how, (long)q, (long)BND);
    hang_what = "falcon::verify"; if (!falcon::verify<N>(pk.data(), msg.data(), msg.size(), sig.data())) fail("falcon<%zu>: honest signature of a %zu byte message%s does not verify (squared norm %ld)", N, msg.size(), how, (long)q);
    hang_what = "";
  }
  hang_limit = 150;
}
static void hint(const std::string&) {}
static void step(Rng& g, uint64_t it) { if (it & 1) one<1024>(g); else one<512>(g); }
