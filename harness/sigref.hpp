// Reference (specification) of the signature code; used for native replay only.
#pragma once
#include "replay.hpp"
struct Bits
{
  std::vector<uint8_t> b;
  void put(int x) { b.push_back(x & 1); }
};
static void code1(Bits& o, int32_t c)
{
  uint32_t a = c < 0 ? -c : c;
  o.put(c < 0);
  for (int i = 6; i >= 0; i--) o.put(a >> i);
  for (uint32_t i = 0; i < (a >> 7); i++) o.put(0);
  o.put(1);
}
static std::vector<uint8_t> pack(const Bits& o, size_t nbytes)
{
  std::vector<uint8_t> r(nbytes, 0);
  for (size_t i = 0; i < o.b.size() && i < 8 * nbytes; i++) r[i / 8] |= o.b[i] << (7 - i % 8);
  return r;
}
// decode body of nbytes; true and s when it is a code
static bool refdec(const uint8_t* p, size_t nbytes, size_t n, std::vector<int32_t>& s)
{
  size_t L = 8 * nbytes, i = 0;
  auto bit = [&](size_t j) { return (p[j / 8] >> (7 - j % 8)) & 1; };
  s.clear();
  for (size_t t = 0; t < n; t++) {
    if (L - i < 9) return false;
    int sg = bit(i++);
    int32_t v = 0;
    for (int k = 0; k < 7; k++) v = 2 * v + bit(i++);
    while (i < L && !bit(i)) { v += 128; i++; }
    if (i >= L) return false;
    i++;
    if (sg && !v) return false;
    s.push_back(sg ? -v : v);
  }
  for (; i < L; i++) if (bit(i)) return false;
  return true;
}
static int64_t sqn(const std::vector<int32_t>& s)
{
  int64_t r = 0;
  for (auto x : s) r += (int64_t)x * x;
  return r;
}
// a polynomial with norm within the bound and (if want >= 0) code length want
static std::vector<int32_t> mkpoly(Rng& g, size_t n, int64_t bound, int mode, int64_t want)
{
  std::vector<int32_t> s(n);
  int sd = mode == 0 ? 1 : mode == 1 ? 127 : mode == 2 ? 300 : 160;
  for (auto& x : s) x = (int32_t)(g.range(-sd, sd) + g.range(-sd, sd)) * (g.below(8) ? 1 : 0);
  int big = mode >= 2 ? (int)g.below(4) : 0;
  if (mode == 4) big = 1;
  static const int32_t B[] = { 1024, 1023, 1025, 1151, 1152, 2047, 2048, 2176, 4096, 4095, 5800, 127, 128, 129, 895, 896, 1919, 1920 };
  for (int i = 0; i < big; i++) s[g.below(n)] = B[g.below(18)] * (g.below(2) ? 1 : -1);
  if (mode == 5) for (size_t i = 0; i < n; i++) if (g.below(2)) s[i] = g.below(2) ? 0 : (int)g.range(-130, 130);
  auto cl = [&] { int64_t r = 0; for (auto x : s) r += 9 + (std::abs(x) >> 7); return r; };
  if (want >= 0)
    for (int it = 0; it < 20000; it++) {
      int64_t d = want - cl();
      if (!d) break;
      size_t i = g.below(n);
      if (std::abs(s[i]) > 900) continue;
      int32_t m = std::abs(s[i]), sg = s[i] < 0 ? -1 : 1;
      m += d > 0 ? 128 : -128;
      if (m < 0) continue;
      s[i] = sg * m;
    }
  for (size_t i = 0; sqn(s) > bound; i = (i + 1) % n) { size_t j = g.below(n); if (std::abs(s[j]) > 128) s[j] /= 2; else if (std::abs(s[i]) < 900) s[i] /= 2; }
  return s;
}
