#include "zref.hpp"
#include "hard4.hpp"
using namespace ntru_gen;
static const int quiet_ = (hang_limit = 300, 0);   // key generation is slow on some machines
template<size_t N> static void one(Rng& g)
{
  unsigned bits = 1 + g.below(g.below(4) ? 9 : 60);
  AZ<N> f = rpoly<N>(g, bits), h = rpoly<N>(g, bits);
  if (g.below(3) == 0) for (auto& x : f) x *= 3;
  static std::string w;
  w = "ntru_solve<" + std::to_string(N) + ">, f = " + zs<N>(f) + "g = " + zs<N>(h);
  hang_what = w.c_str();
  auto r = ntru_solve<N>(f, h);
  if (r.second.is_solution()) ntrueq<N>("ntru_solve", f, h, r.first.first, r.first.second);
  if constexpr (N > 1) {
    AZ<N> F = rpoly<N>(g, bits + g.below(400)), G = rpoly<N>(g, bits + g.below(400)), F0 = F, G0 = G;
    bool z = true;
    for (auto& x : f) z &= x == 0;
    for (auto& x : h) z &= x == 0;
    if (!z) {
      w = "reduce<" + std::to_string(N) + ">, f = " + zs<N>(f) + "g = " + zs<N>(h);
      reduce<N>(f, h, F, G);
      for (size_t i = 0; i < N; i++) { F0[i] -= F[i]; G0[i] -= G[i]; }
      auto a = fold<N>(school<N>(f, G0)), b = fold<N>(school<N>(h, F0));
      for (size_t i = 0; i < N; i++) if (a[i] != b[i]) fail("reduce<%zu> changes f*G - g*F; f = %s g = %s", N, zs<N>(f).c_str(), zs<N>(h).c_str());
    }
  }
  hang_what = "";
}
template<size_t N> static void gen()
{
  std::vector<int32_t> f(N), g(N), F(N), G(N);
  prng::prng_t rng;
  hang_what = "ntru_gen::ntru_gen";
  ntru_gen::ntru_gen<N>(f.data(), g.data(), F.data(), G.data(), rng);
  hang_what = "";
  std::vector<int64_t> r(N);
  for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) { int64_t v = (int64_t)f[i] * G[j] - (int64_t)g[i] * F[j]; if (i + j < N) r[i + j] += v; else r[i + j - N] -= v; }
  for (size_t i = 0; i < N; i++) if (r[i] != (i ? 0 : RQ)) fail("ntru_gen<%zu>: f*G - g*F has coefficient %ld at %zu for the released key f[0..3] = %d %d %d %d", N, (long)r[i], i, f[0], f[1], f[2], f[3]);
}
static void hint(const std::string&) {}
static void step(Rng& g, uint64_t it)
{
  if (it == 0) {
    AZ<4> f, h;
    for (int i = 0; i < 4; i++) { f[i] = Z(HARD4[i], 16); h[i] = Z(HARD4[4 + i], 16); }
    hang_what = "ntru_solve<4> on the pair of /verif/harness/hard4.hpp";
    hang_limit = 40, alarm(40);                    // takes milliseconds
    auto r = ntru_solve<4>(f, h);
    hang_what = "";
    hang_limit = 300, alarm(300);
    if (r.second.is_solution()) ntrueq<4>("ntru_solve", f, h, r.first.first, r.first.second);
  }
  for (int i = 0; i < 20; i++) one<1>(g);
  one<2>(g); one<4>(g); one<8>(g);
  if (it % 4 == 0) one<16>(g);
  if (it % 8 == 1) { one<32>(g); one<64>(g); }
  if (it % 64 == 3) gen<512>();
  if (it % 512 == 5) gen<1024>();
}
