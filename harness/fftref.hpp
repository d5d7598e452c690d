// long double reference transforms for the replays
#pragma once
#include <complex>
#include "replay.hpp"
using L = std::complex<long double>;
using LV = std::vector<L>;
static size_t rbrv(size_t i, size_t k) { size_t r = 0; for (size_t j = 0; j < k; j++) r |= ((i >> j) & 1) << (k - 1 - j); return r; }
static const LV& rroots(size_t k) // e^{i pi j / 2^k}, j < 2^(k+1)
{
  static LV t[12];
  if (t[k].empty()) for (size_t j = 0; j < (2ul << k); j++) { long double a = acosl(-1.0L) * j / (1ul << k); t[k].push_back(L(cosl(a), sinl(a))); }
  return t[k];
}
static LV rfft(size_t k, const LV& a)
{
  size_t n = 1ul << k;
  auto& w = rroots(k);
  LV r(n);
  for (size_t j = 0; j < n; j++) {
    size_t e = 2 * rbrv(j, k) + 1, p = 0;
    L s = 0;
    for (size_t m = 0; m < n; m++) { s += a[m] * w[p]; p = (p + e) & (2 * n - 1); }
    r[j] = s;
  }
  return r;
}
static LV rifft(size_t k, const LV& a)
{
  size_t n = 1ul << k;
  auto& w = rroots(k);
  LV r(n);
  for (size_t m = 0; m < n; m++) {
    L s = 0;
    for (size_t j = 0; j < n; j++) s += a[j] * std::conj(w[((2 * rbrv(j, k) + 1) * m) & (2 * n - 1)]);
    r[m] = s / (long double)n;
  }
  return r;
}
static void rsplit(size_t k, const LV& a, LV& x, LV& y)
{
  size_t n = 1ul << k;
  auto& w = rroots(k);
  x.resize(n / 2); y.resize(n / 2);
  for (size_t j = 0; j < n / 2; j++) {
    L z = w[2 * rbrv(2 * j, k) + 1];
    x[j] = (a[2 * j] + a[2 * j + 1]) * 0.5L;
    y[j] = (a[2 * j] - a[2 * j + 1]) * 0.5L / z;
  }
}
static LV rmerge(size_t k, const LV& x, const LV& y)
{
  size_t n = 1ul << k;
  auto& w = rroots(k);
  LV a(n);
  for (size_t j = 0; j < n / 2; j++) {
    L z = w[2 * rbrv(2 * j, k) + 1];
    a[2 * j] = x[j] + z * y[j];
    a[2 * j + 1] = x[j] - z * y[j];
  }
  return a;
}
static LV lv(const std::complex<double>* p, size_t n) { LV r(n); for (size_t i = 0; i < n; i++) r[i] = L(p[i].real(), p[i].imag()); return r; }
