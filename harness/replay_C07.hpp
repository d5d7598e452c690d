#include "verifyref.hpp"
template<size_t N> static void one(Rng& g, uint64_t it)
{
  Case<N> k;
  if (!make<N>(g, it, k)) return;
  constexpr int32_t B = N == 512 ? 34034726 : 70265242;
  std::vector<ff::ff_t> h(N);
  for (size_t i = 0; i < N; i++) h[i].v = k.h[i];
  auto h0 = k.h;
  auto m0 = k.msg, s0 = k.sig, p0 = k.pk;
  k.msg.reserve(1);
  bool v = verification::verify<N, B>(h.data(), k.msg.data(), k.msg.size(), k.sig.data());
  bool w = falcon::verify<N>(k.pk.data(), k.msg.data(), k.msg.size(), k.sig.data());
  if (v != k.ok) fail("verification::verify<%zu> = %d, specified %d; %s", N, v, k.ok, k.text().c_str());
  if (w != k.ok) fail("falcon::verify<%zu> = %d, specified %d; %s", N, w, k.ok, k.text().c_str());
  for (size_t i = 0; i < N; i++) if (h[i].v != h0[i]) fail("verify<%zu> modified the key", N);
  if (m0 != k.msg || s0 != k.sig || p0 != k.pk) fail("verify<%zu> modified its input", N);
}
static void hint(const std::string&) {}
static void step(Rng& g, uint64_t it) { one<512>(g, it); one<1024>(g, it); }
