#include "zref.hpp"
using namespace ntru_gen;
template<size_t N> static void one(Rng& g)
{
  unsigned bits = 1 + g.below(200);
  AZ<N> a = rpoly<N>(g, bits), b = rpoly<N>(g, bits);
  auto p = school<N>(a, b);
  auto k = karatsuba::karatsuba<N>(a, b);
  for (size_t i = 0; i < 2 * N; i++) if (k[i] != p[i]) fail("karatsuba<%zu>: coefficient %zu is %.60s, product has %.60s; a = %s b = %s", N, i, k[i].get_str().c_str(), p[i].get_str().c_str(), zs<N>(a).c_str(), zs<N>(b).c_str());
  auto m = karatsuba::karamul<N>(a, b);
  auto w = fold<N>(p);
  for (size_t i = 0; i < N; i++) if (m[i] != w[i]) fail("karamul<%zu>: coefficient %zu is %.60s, product has %.60s; a = %s b = %s", N, i, m[i].get_str().c_str(), w[i].get_str().c_str(), zs<N>(a).c_str(), zs<N>(b).c_str());
  auto l = lift<N>(a);
  for (size_t i = 0; i < 2 * N; i++) if (l[i] != (i & 1 ? Z(0) : a[i / 2])) fail("lift<%zu>: coefficient %zu is %.60s; a = %s", N, i, l[i].get_str().c_str(), zs<N>(a).c_str());
  if constexpr (N > 1) {
    auto c = galois_conjugate<N>(a);
    for (size_t i = 0; i < N; i++) if (c[i] != (i & 1 ? Z(-a[i]) : a[i])) fail("galois_conjugate<%zu>: coefficient %zu is %.60s; a = %s", N, i, c[i].get_str().c_str(), zs<N>(a).c_str());
    AZ<N / 2> e, o;
    for (size_t i = 0; i < N / 2; i++) { e[i] = a[2 * i]; o[i] = a[2 * i + 1]; }
    auto e2 = fold<N / 2>(school<N / 2>(e, e)), o2 = fold<N / 2>(school<N / 2>(o, o));
    auto n = field_norm<N>(a);
    for (size_t i = 0; i < N / 2; i++) { Z x = e2[i] - (i ? o2[i - 1] : Z(-o2[N / 2 - 1])); if (n[i] != x) fail("field_norm<%zu>: coefficient %zu is %.60s, definition gives %.60s; a = %s", N, i, n[i].get_str().c_str(), x.get_str().c_str(), zs<N>(a).c_str()); }
  }
}
static void xg(Rng& g)
{
  static const long S[] = { 0, 1, -1, 2, -2, 3, 12289, -12289 };
  for (int t = 0; t < 50; t++) {
    Z x = g.next() % 3 ? rz(g, 1 + g.below(300)) : Z(S[g.below(8)]), y = g.next() % 3 ? rz(g, 1 + g.below(300)) : Z(S[g.below(8)]);
    static std::string w;
    w = "xgcd(" + x.get_str() + ", " + y.get_str() + ")";
    hang_what = w.c_str();
    auto r = xgcd(x, y);
    hang_what = "";
    if (Z(r[0] * x + r[1] * y) != r[2]) fail("%s reports %.80s but its combination is %.80s", w.c_str(), r[2].get_str().c_str(), Z(r[0] * x + r[1] * y).get_str().c_str());
  }
}
static void hint(const std::string&) {}
static void step(Rng& g, uint64_t it)
{
  xg(g);
  one<1>(g); one<2>(g); one<4>(g); one<8>(g); one<16>(g); one<32>(g);
  switch (it % 16) { case 0: one<64>(g); break; case 1: one<128>(g); break; case 2: one<256>(g); break; case 3: if (it < 64) one<512>(g); break; case 4: if (it < 64) one<1024>(g); break; }
}
