#pragma once
#include "replay.hpp"
#include "ntru_gen.hpp"
using Z = mpz_class;
template<size_t N> using AZ = std::array<Z, N>;
static Z rz(Rng& g, unsigned bits)
{
  Z r = 0;
  for (unsigned i = 0; i <= bits / 60; i++) { r <<= 60; r += (unsigned long)(g.next() >> 4); }
  mpz_fdiv_r_2exp(r.get_mpz_t(), r.get_mpz_t(), bits);
  if (g.next() & 1) r = -r;
  return r;
}
template<size_t N> static AZ<N> rpoly(Rng& g, unsigned bits) { AZ<N> r; for (auto& x : r) x = rz(g, bits); return r; }
template<size_t N> static AZ<2 * N> school(const AZ<N>& a, const AZ<N>& b)
{
  AZ<2 * N> r;
  for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) r[i + j] += a[i] * b[j];
  return r;
}
template<size_t N> static AZ<N> fold(const AZ<2 * N>& p) { AZ<N> r; for (size_t i = 0; i < N; i++) r[i] = p[i] - p[N + i]; return r; }
template<size_t N> static std::string zs(const AZ<N>& a) { std::string s; for (size_t i = 0; i < N && i < 8; i++) s += a[i].get_str() + " "; return s.substr(0, 600); }
template<size_t N> static void ntrueq(const char* nm, const AZ<N>& f, const AZ<N>& g, const AZ<N>& F, const AZ<N>& G)
{
  AZ<N> a = fold<N>(school<N>(f, G)), b = fold<N>(school<N>(g, F));
  for (size_t i = 0; i < N; i++) if (Z(a[i] - b[i]) != (i ? 0 : 12289)) fail("%s<%zu>: f*G - g*F has coefficient %.60s at %zu for f = %s g = %s", nm, N, Z(a[i] - b[i]).get_str().c_str(), i, zs<N>(f).c_str(), zs<N>(g).c_str());
}
