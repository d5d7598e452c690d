#include "samplerz.hpp"
typedef unsigned __int128 u128;
namespace sz = samplerz;
// the published procedure, doubles as the library takes them
static const uint64_t CC[13] = { 0x00000004741183A3ull, 0x00000036548CFC06ull, 0x0000024FDCBF140Aull, 0x0000171D939DE045ull, 0x0000D00CF58F6F84ull,
  0x000680681CF796E3ull, 0x002D82D8305B0FEAull, 0x011111110E066FD0ull, 0x0555555555070F00ull, 0x155555555581FF00ull, 0x400000000002B400ull,
  0x7FFFFFFFFFFF4800ull, 0x8000000000000000ull };
static uint64_t rapprox(double x, double ccs)
{
  uint64_t y = CC[0], z = (uint64_t)std::floor(std::ldexp(x, 63));
  for (int u = 1; u < 13; u++) y = CC[u] - (uint64_t)(((u128)z * y) >> 63);
  z = (uint64_t)std::floor(std::ldexp(ccs, 63));
  return (uint64_t)(((u128)z * y) >> 63);
}
static const double L2 = 0.6931471805599453, SMAX = 1.8205;
static uint64_t thr(double x, double ccs)
{
  double s = std::floor(x * (1. / L2));
  return (2 * rapprox(std::max(0., x - s * L2), ccs) - 1) >> (s < 63 ? (uint64_t)s : 63);
}
static const char* T72[18] = { "3024686241123004913666", "1564742784480091954050", "636254429462080897535", "199560484645026482916", "47667343854657281903",
  "8595902006365044063", "1163297957344668388", "117656387352093658", "8867391802663976", "496969357462633", "20680885154299", "638331848991", "14602316184",
  "247426747", "3104126", "28824", "198", "1" };
static u128 dec(const char* s) { u128 v = 0; while (*s) v = v * 10 + (*s++ - '0'); return v; }
static int rbase(const uint8_t* le) { u128 u = 0; for (int i = 8; i >= 0; i--) u = u << 8 | le[i]; int z = 0; for (auto t : T72) z += u < dec(t); return z; }
static bool rber(double x, double ccs, const uint8_t* b, size_t& used)
{
  uint64_t z = thr(x, ccs);
  for (used = 1; used < 8 && b[used - 1] == (uint8_t)(z >> (64 - 8 * used)); used++) {}
  return b[used - 1] < (uint8_t)(z >> (64 - 8 * used));
}
static double expo(double mu, double sp, int z0, int b)
{
  double r = mu - std::floor(mu), d = b + (2 * b - 1) * z0 - r;
  return d * d * (1. / (2. * sp * sp)) - (double)(z0 * z0) * (1. / (2. * SMAX * SMAX));
}
// one of the 64 bits wide random strings that agree with the threshold for k bytes
static void near(Rng& g, uint64_t z, int k, uint8_t* b)
{
  for (int i = 0; i < 8; i++) b[i] = i < k ? (uint8_t)(z >> (56 - 8 * i)) : g.below(256);
  if (k < 8 && g.below(2)) b[k] = (uint8_t)(z >> (56 - 8 * k)) + (g.below(2) ? 1 : -1);
}
static uint64_t word(Rng& g)
{
  uint64_t x = g.next();
  switch (g.below(5)) { case 0: return x >> g.below(64); case 1: return ~(x >> g.below(64)); case 2: return (x | 0xffffffffull) << (g.below(2) * 32); case 3: return x & ~(x >> 1) ? (1ull << g.below(64)) - g.below(2) : 0; }
  return x;
}
static void arith(Rng& g)
{
  for (int i = 0; i < 2000; i++) {
    uint64_t a = word(g), b = word(g);
    auto r = sz::full_mul_u64(a, b);
    u128 w = (u128)a * b;
    if (r.first != (uint64_t)(w >> 64) || r.second != (uint64_t)w) fail("full_mul_u64(%lu, %lu) = (%lu, %lu), expected (%lu, %lu)", a, b, r.first, r.second, (uint64_t)(w >> 64), (uint64_t)w);
    a &= (1ull << 62) - 1;
    uint64_t t = sz::top_63_bits(std::make_pair(a, b)), e = a << 1 | b >> 63;
    if (t != e) fail("top_63_bits(%lu, %lu) = %lu, expected %lu", a, b, t, e);
    double x = g.below(8) ? g.real() * L2 : 0, c = g.below(8) ? g.real() : 1;
    if (i & 1) { x = std::ldexp((double)g.below(1000), -(int)g.below(60)); if (x > L2) x = L2; }
    uint64_t y = sz::approx_exp(x, c), f = rapprox(x, c);
    if (2 * y != 2 * f || y > 1ull << 63) fail("approx_exp(%.17g, %.17g) = %lu, expected %lu", x, c, y, f);
  }
}
static void use(prng::prng_t&, const std::vector<uint8_t>& s) { shake256::stream.bytes = s.data(); shake256::stream.n = s.size(); shake256::stream.pos = 0; }
static void bern(Rng& g)
{
  prng::prng_t r;
  for (int i = 0; i < 2000; i++) {
    double c = 0.7 + 0.3 * g.real(), x = g.below(3) ? g.real() * 0.69 : g.real() * 110;
    if (!g.below(20)) x = 0;
    if (!g.below(20)) c = 1;
    if (std::abs(x / L2 - std::round(x / L2)) < 1e-6 && x > 0.1) continue;
    int k = x < 0.69 ? g.below(9) : g.below(5);      // rounding of x - s ln 2 moves the last bytes
    std::vector<uint8_t> s(9);
    near(g, thr(x, c), k, s.data());
    size_t u; bool w = rber(x, c, s.data(), u);
    use(r, s);
    int v = sz::ber_exp(x, c, r);
    size_t got = shake256::stream.pos;
    shake256::stream.bytes = nullptr;
    if (v != w || got != u) fail("ber_exp(%.17g, %.17g, generator) with bytes %02x %02x %02x %02x %02x %02x %02x %02x: returns %d after %zu bytes, expected %d after %zu", x, c, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], v, got, (int)w, u);
    auto a = sz::ber_exp(x, c, s.data(), 8 + g.below(2));
    if (a.first != w || a.second != u) fail("ber_exp(%.17g, %.17g, array) with bytes %02x %02x %02x %02x %02x %02x %02x %02x: returns %d after %zu bytes, expected %d after %zu", x, c, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], a.first, a.second, (int)w, u);
  }
}
static void samp(Rng& g)
{
  prng::prng_t r;
  for (int i = 0; i < 500; i++) {
    const double smin = g.below(2) ? 1.277833697 : 1.298280334, sp = g.below(4) ? smin + g.real() * (SMAX - smin) : g.below(2) ? smin : SMAX;
    double mu = (g.real() - 0.5) * (g.below(2) ? 20 : 1e5);
    switch (g.below(4)) { case 0: mu = std::round(mu); break; case 1: mu = std::round(mu) + std::ldexp(g.below(2) ? 1. : -1., -(int)g.below(30)); }
    std::vector<uint8_t> st;          // as the generator gives it
    std::vector<uint8_t> ar;          // block of the base sampler reversed
    int want = 0;
    for (;;) {
      uint8_t b9[9];
      for (auto& x : b9) x = g.below(256);
      if (g.below(2)) {               // large values: near a table entry
        u128 t = dec(T72[g.below(18)]) + g.below(3) - 1;
        for (int j = 0; j < 9; j++) b9[j] = (uint8_t)(t >> (8 * j));
      }
      int z0 = rbase(b9); uint8_t v = g.below(256); int b = v & 1;
      double x = expo(mu, sp, z0, b);
      uint8_t tail[8];
      near(g, thr(x, smin / sp), g.below(4), tail);
      size_t u; bool ok = rber(x, smin / sp, tail, u);
      st.insert(st.end(), b9, b9 + 9); ar.insert(ar.end(), std::reverse_iterator(b9 + 9), std::reverse_iterator(b9));
      st.push_back(v); ar.push_back(v);
      st.insert(st.end(), tail, tail + u); ar.insert(ar.end(), tail, tail + u);
      if (ok) { want = (int)std::floor(mu) + b + (2 * b - 1) * z0; break; }
      if (st.size() > 4000) return;
    }
    size_t n = st.size();
    for (int j = 0; j < 40; j++) { uint8_t x = g.below(256); st.push_back(x); ar.push_back(x); }
    use(r, st);
    hang_what = "samplerz";
    int a = sz::samplerz(mu, sp, smin, r);
    size_t used = shake256::stream.pos;
    shake256::stream.bytes = nullptr;
    if (a != want || used != n) fail("samplerz(%.17g, %.17g, %.17g, generator): %d after %zu bytes, expected %d after %zu", mu, sp, smin, a, used, want, n);
    auto c = sz::samplerz(mu, sp, smin, ar.data(), ar.size());
    hang_what = "";
    if (c.first != want || c.second != n) fail("samplerz(%.17g, %.17g, %.17g, array): %d after %zu bytes, expected %d after %zu", mu, sp, smin, c.first, c.second, want, n);
  }
}
static void hint(const std::string&) {}
static void step(Rng& g, uint64_t) { arith(g); bern(g); samp(g); }
