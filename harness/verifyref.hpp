// Reference verification; native replay only.
#pragma once
#define SHIM_STREAM
#include "sigref.hpp"
#include "falcon.hpp"
template<size_t N> struct Zq
{
  std::vector<int64_t> pws;
  Zq()
  {
    int64_t psi = pw(11, (RQ - 1) / (2 * N));
    pws.resize(2 * N);
    pws[0] = 1;
    for (size_t i = 1; i < 2 * N; i++) pws[i] = pws[i - 1] * psi % RQ;
  }
  std::vector<int64_t> ev(const std::vector<int64_t>& a)
  {
    std::vector<int64_t> r(N);
    for (size_t i = 0; i < N; i++) {
      uint64_t s = 0;
      for (size_t j = 0; j < N; j++) s += (uint64_t)a[j] * pws[(2 * i + 1) * j % (2 * N)];
      r[i] = s % RQ;
    }
    return r;
  }
  std::vector<int64_t> in(const std::vector<int64_t>& A)
  {
    std::vector<int64_t> r(N);
    int64_t ni = pw(N, RQ - 2);
    for (size_t j = 0; j < N; j++) {
      uint64_t s = 0;
      for (size_t i = 0; i < N; i++) s += (uint64_t)A[i] * pws[(2 * N - (2 * i + 1) * j % (2 * N)) % (2 * N)];
      r[j] = s % RQ * ni % RQ;
    }
    return r;
  }
};
template<size_t N> static std::vector<int64_t> refpoint(const uint8_t* salt, const uint8_t* msg, size_t mlen)
{
  auto& S = shake256::stream;
  S.bytes = nullptr;
  shake256::shake256<true> h;
  h.absorb(salt, 40);
  h.absorb(msg, mlen);
  h.finalize();
  std::vector<int64_t> c;
  while (c.size() < N) {
    uint8_t b[2];
    h.read(b, 2);
    unsigned w = b[0] << 8 | b[1];
    if (w < 61445) c.push_back(w % RQ);
  }
  return c;
}
template<size_t N> static Zq<N>& zq() { static Zq<N> z; return z; }
// squared norm of (c - s2 h, s2)
template<size_t N> static int64_t refnorm(const std::vector<int64_t>& c, const std::vector<int32_t>& s2, const std::vector<int64_t>& h)
{
  std::vector<int64_t> a(N);
  for (size_t i = 0; i < N; i++) a[i] = md(s2[i]);
  auto A = zq<N>().ev(a), H = zq<N>().ev(h);
  for (size_t i = 0; i < N; i++) A[i] = A[i] * H[i] % RQ;
  auto p = zq<N>().in(A);
  int64_t r = 0;
  for (size_t i = 0; i < N; i++) {
    int64_t v = md(c[i] - p[i]);
    if (v > RQ / 2) v -= RQ;
    r += v * v + (int64_t)s2[i] * s2[i];
  }
  return r;
}
static void gen_s2(Rng& g, std::vector<int32_t>& s2, size_t n, int mode)
{
  int sd = n == 512 ? 120 : 110;
  for (auto& x : s2) x = g.range(-sd, sd);
  size_t j = g.below(n), k = (j + 1 + g.below(n - 1)) % n;
  int sg = g.below(2) ? 1 : -1;
  if (mode == 1) s2[j] = sg * (n == 512 ? 46341 : 65536);
  if (mode == 2) { s2[j] = sg * 5793; }
  if (mode == 3) { s2[j] = sg * (n == 512 ? 46340 : 65536); s2[k] = g.range(-1500, 1500); }
  if (mode == 4) { for (auto& x : s2) x = 0; s2[j] = sg * (n == 512 ? 46341 : 65536); }
  if (mode == 5) { for (int i = 0; i < 3; i++) s2[g.below(n)] = g.range(-12289, 12289); s2[j] = sg * (int)(12289 * g.range(1, 2) + g.range(-1, 1)); }
  if (mode == 6) { s2[j] = sg * g.range(6000, 30000); }
}
// s1 such that the total norm is target; false when out of reach
static bool fill_norm(Rng& g, std::vector<int32_t>& s1, int64_t rest)
{
  size_t n = s1.size();
  for (auto& x : s1) x = 0;
  if (rest < 0 || rest > (int64_t)n * 6144 * 6144) return false;
  size_t spread = rest > 200 * (int64_t)n ? n - 20 : 0;
  int64_t lim = spread ? (int64_t)std::sqrt((double)rest / n) : 0;
  for (size_t i = 0; i < spread; i++) {
    int64_t v = std::min<int64_t>(6144, g.range(0, lim));
    if (v * v > rest) continue;
    s1[i] = g.below(2) ? v : -v;
    rest -= v * v;
  }
  for (size_t i = spread; i < n && rest; i++) {
    int64_t v = std::min<int64_t>(6144, (int64_t)std::sqrt((double)rest));
    while (v * v > rest) v--;
    s1[i] = g.below(2) ? v : -v;
    rest -= v * v;
  }
  for (size_t i = 0; i < n && rest; i++)      // top up small ones
    while (rest && std::abs(s1[i]) < 6144) {
      int64_t a = std::abs(s1[i]), d = (a + 1) * (a + 1) - a * a;
      if (d > rest) break;
      s1[i] = s1[i] < 0 ? s1[i] - 1 : s1[i] + 1;
      rest -= d;
    }
  return rest == 0;
}
template<size_t N> struct Case
{
  std::vector<uint8_t> sig, msg, pk;
  std::vector<int64_t> h, c;
  std::vector<int32_t> s2;
  int64_t norm = -1;
  bool dec = false, ok = false;
  std::string text() const
  {
    char b[100];
    snprintf(b, sizeof b, "decodes %d, norm %ld; ", dec, (long)norm);
    return b + ("public key " + hexs(pk.data(), pk.size()) + " message " + hexs(msg.data(), msg.size()) + " signature " + hexs(sig.data(), sig.size()));
  }
};
template<size_t N> static void pkbytes(Case<N>& k)
{
  k.pk.assign(1 + N * 14 / 8, 0);
  k.pk[0] = N == 512 ? 9 : 10;
  for (size_t i = 0; i < N; i++)
    for (int b = 0; b < 14; b++) { size_t p = 14 * i + b; k.pk[1 + p / 8] |= ((k.h[i] >> b) & 1) << (p % 8); }
}
template<size_t N> static bool make(Rng& g, uint64_t it, Case<N>& k)
{
  constexpr size_t SL = N == 512 ? 666 : 1280;
  constexpr int64_t B = N == 512 ? 34034726 : 70265242;
  k.sig.assign(SL, 0);
  k.msg.resize(g.below(100));
  for (auto& x : k.msg) x = g.next();
  for (auto& x : k.sig) x = g.next();
  k.sig[0] = 0x30 | (N == 512 ? 9 : 10);
  k.c = refpoint<N>(k.sig.data() + 1, k.msg.data(), k.msg.size());
  int mode = it % 7;
  k.s2.assign(N, 0);
  k.h.assign(N, 0);
  gen_s2(g, k.s2, N, mode);
  int64_t n2 = sqn(k.s2);
  static const int64_t D[] = { 0, 1, -1, 2, 1000, -1000 };
  int64_t t = B + D[g.below(6)];
  uint64_t w = g.below(8);
  if (w == 0) t = B + g.below(100000000);
  if (w == 1) t = (int64_t)g.below(B);
  if (w == 2) t = ((int64_t)1 << 31) + g.range(-2, 1000000);
  if (w == 3) t = ((int64_t)1 << 32) + g.range(-2, 30000000);
  if (mode == 1 || mode == 3 || mode == 4) t = N == 512 ? n2 + (int64_t)g.below(20000000) : ((int64_t)1 << 32) + g.below(70000000);
  std::vector<int32_t> s1(N);
  if (!fill_norm(g, s1, t - n2)) for (auto& x : s1) x = g.range(-200, 200);
  // spread positions and boundary values
  for (size_t i = N - 1; i > 0; i--) std::swap(s1[i], s1[g.below(i + 1)]);
  std::vector<int64_t> a(N), d(N);
  for (size_t i = 0; i < N; i++) { a[i] = md(k.s2[i]); d[i] = md(k.c[i] - s1[i]); }
  auto A = zq<N>().ev(a), E = zq<N>().ev(d);
  for (size_t i = 0; i < N; i++) {
    if (!A[i] && E[i]) return false;
    E[i] = E[i] * pw(A[i], RQ - 2) % RQ;
  }
  k.h = zq<N>().in(E);
  Bits o;
  for (auto x : k.s2) code1(o, x);
  if (o.b.size() > 8 * (SL - 41)) return false;
  auto body = pack(o, SL - 41);
  std::copy(body.begin(), body.end(), k.sig.begin() + 41);
  uint64_t mal = g.below(10);
  if (mal == 0) k.sig[0] ^= 1 << g.below(8);
  if (mal == 1 && o.b.size() < 8 * (SL - 41)) { size_t j = o.b.size() + g.below(8 * (SL - 41) - o.b.size()); k.sig[41 + j / 8] |= 1 << (7 - j % 8); }
  if (mal == 2) { size_t j = g.below(8 * (SL - 41)); k.sig[41 + j / 8] ^= 1 << (7 - j % 8); }
  std::vector<int32_t> s;
  k.dec = k.sig[0] == (0x30 | (N == 512 ? 9 : 10)) && refdec(k.sig.data() + 41, SL - 41, N, s);
  k.norm = -1;
  if (k.dec) { k.s2 = s; k.norm = refnorm<N>(k.c, s, k.h); }
  k.ok = k.dec && k.norm <= B;
  pkbytes(k);
  return true;
}
