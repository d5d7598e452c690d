#include "replay.hpp"
static const uint16_t EDGE[] = { 0, 1, 2, 6144, 6145, 6143, 12287, 12288, 7, 49, 512, 1024, 8191, 8192, 4096 };
#if defined(C01)
#include "ff.hpp"
using ff::ff_t;
static ff_t mk(uint64_t v) { ff_t r; r.v = (uint16_t)v; return r; }
static void pair(int64_t a, int64_t b)
{
#define CK(expr, want, nm) { int64_t got_ = (expr); if (got_ != (want)) fail("%s a=%ld b=%ld: got %ld, specified %ld", nm, (long)a, (long)b, (long)got_, (long)(want)); }
  auto A = mk(a), B = mk(b);
  CK((A + B).v, (a + b) % RQ, "a+b");
  CK((A - B).v, md(a - b), "a-b");
  CK((A * B).v, a * b % RQ, "a*b");
  CK((A / B).v, a * pw(b, RQ - 2) % RQ, "a/b");
  { auto t = A; t += B; CK(t.v, (a + b) % RQ, "a+=b"); }
  { auto t = A; t *= B; CK(t.v, a * b % RQ, "a*=b"); }
  { auto t = A; t += t; CK(t.v, 2 * a % RQ, "a+=a"); }
  { auto t = A; t *= t; CK(t.v, a * a % RQ, "a*=a"); }
  CK(A == B, a == b, "a==b"); CK(A != B, a != b, "a!=b"); CK(A < B, a < b, "a<b");
  CK(A > B, a > b, "a>b"); CK(A <= B, a <= b, "a<=b"); CK(A >= B, a >= b, "a>=b");
}
static void single(int64_t a)
{
  int64_t b = 0;
  CK((-mk(a)).v, md(-a), "-a");
  CK(mk(a).inv().v, a ? pw(a, RQ - 2) : 0, "inv");
}
static void power(int64_t a, uint64_t n)
{
  int64_t got = (mk(a) ^ n).v, want = n == 0 ? 1 : pw(a, n);
  if (got != want) fail("%ld ^ %lu: got %ld, specified %ld", (long)a, (unsigned long)n, (long)got, (long)want);
}
static void hint(const std::string& l)
{
  std::istringstream s(l);
  std::string f;
  uint64_t a = 0, b = 0;
  s >> f >> a >> b;
  if (f == "w_pow") power(a % RQ, b);
  else if (f.rfind("w_", 0) == 0 && a < (uint64_t)RQ && b < (uint64_t)RQ) { pair(a, b); single(a); }
}
static void step(Rng& g, uint64_t it)
{
  if (it < 65536) { int64_t b = 0, a = it; CK(ff_t((uint16_t)it).v, (int64_t)(it % RQ), "ctor"); }
  if (it < (uint64_t)RQ) single(it);
  if (it < 4096) power(g.below(RQ), (it & 63) ? (g.next() >> (it & 63)) : g.next());
  // walk all pairs
  uint64_t a = it % RQ;
  for (uint64_t b = it / RQ; b < (uint64_t)RQ; b += 4096) pair(a, b);
  for (auto e : EDGE) if (e < RQ) pair(a, e);
  int64_t b = 0;
  CK(ff_t::zero().v, 0, "zero"); CK(ff_t::one().v, 1, "one"); CK(ff_t{}.v, 0, "default");
}
#elif defined(C02)
#include "polynomial.hpp"
using ff::ff_t;
template<size_t K> static void one(Rng& g, uint64_t it)
{
  constexpr size_t N = 1ul << K;
  static std::vector<ff_t> a(N), b(N), c(N), d(N);
  std::vector<int64_t> A(N), B(N);
  int mode = it % 6;
  auto gen = [&](int m, size_t i) -> uint16_t {
    if (m == 0) return i == (it / 6) % N ? 1 : 0;
    if (m == 1) return EDGE[g.below(12)] % RQ;
    if (m == 2) return RQ - 1;
    return g.below(RQ);
  };
  for (size_t i = 0; i < N; i++) { A[i] = gen(mode, i); B[i] = gen((mode + 3) % 6, i); a[i].v = A[i]; b[i].v = B[i]; }
  ntt::ntt<K>(a.data());
  ntt::ntt<K>(b.data());
  // which root: from unit polynomial x
  static int64_t psi = 0;
  if (!psi) {
    std::vector<ff_t> x(N);
    for (auto& t : x) t.v = 0;
    x[1].v = 1;
    ntt::ntt<K>(x.data());
    psi = x[0].v;
    if (pw(psi, N) != RQ - 1) fail("ntt<%zu>(x)[0] = %ld is not a primitive root", K, (long)psi);
  }
  for (size_t i = 0; i < N; i++) {
    if (a[i].v >= RQ) fail("ntt<%zu> output %zu = %d not canonical", K, i, a[i].v);
    size_t r = 0;
    for (size_t j = 0; j < K; j++) r |= ((i >> j) & 1) << (K - 1 - j);
    int64_t w = pw(psi, 2 * r + 1), v = 0;
    for (size_t j = N; j-- > 0;) v = (v * w + A[j]) % RQ;
    if (v != a[i].v) {
      std::string s;
      for (size_t j = 0; j < N; j++) s += std::to_string(A[j]) + " ";
      fail("ntt<%zu> mode %d: output %zu is %d, value at root is %ld; input %s", K, mode, i, a[i].v, (long)v, s.c_str());
    }
  }
  auto ck = [&](const char* nm, auto want, std::vector<ff_t>& got) {
    for (size_t i = 0; i < N; i++) if (got[i].v != want(i)) fail("%s<%zu>: element %zu is %d, specified %ld (a=%d b=%d)", nm, K, i, got[i].v, (long)want(i), a[i].v, b[i].v);
  };
  polynomial::mul<K>(a.data(), b.data(), c.data());
  ck("mul", [&](size_t i) { return (int64_t)a[i].v * b[i].v % RQ; }, c);
  polynomial::div<K>(a.data(), b.data(), d.data());
  ck("div", [&](size_t i) { return (int64_t)a[i].v * (b[i].v ? pw(b[i].v, RQ - 2) : 0) % RQ; }, d);
  d = a; polynomial::add_to<K>(d.data(), b.data());
  ck("add_to", [&](size_t i) { return ((int64_t)a[i].v + b[i].v) % RQ; }, d);
  d = a; polynomial::neg<K>(d.data());
  ck("neg", [&](size_t i) { return md(-(int64_t)a[i].v); }, d);
  d = a; ntt::intt<K>(d.data());
  ck("intt(ntt)", [&](size_t i) { return A[i]; }, d);
  ntt::intt<K>(c.data());
  auto P = nega(A, B);
  ck("product", [&](size_t i) { return P[i]; }, c);
}
static void hint(const std::string&) {}
static void step(Rng& g, uint64_t it) { one<9>(g, it); one<10>(g, it); }
#elif defined(C03) || defined(C04)
#include "decoding.hpp"
#include "encoding.hpp"
using ff::ff_t;
struct Bits
{
  std::vector<uint8_t> v;
  size_t pos = 0;
  void put(uint32_t x, int n)
  {
    for (int i = 0; i < n; i++, pos++) {
      if (pos / 8 >= v.size()) v.push_back(0);
      v[pos / 8] |= ((x >> i) & 1) << (pos & 7);
    }
  }
  static uint32_t get(const uint8_t* p, size_t pos, int n)
  {
    uint32_t r = 0;
    for (int i = 0; i < n; i++) r |= ((p[(pos + i) / 8] >> ((pos + i) & 7)) & 1u) << i;
    return r;
  }
};
#ifdef C03
template<size_t N> static void one(Rng& g, uint64_t it)
{
  constexpr size_t L = falcon_utils::compute_pkey_len<N>();
  if (L != 1 + N * 14 / 8) fail("public key length %zu", L);
  std::vector<ff_t> h(N);
  std::vector<uint8_t> k(L, 0xA5), ref;
  Bits b;
  int mode = it % 4;
  for (size_t i = 0; i < N; i++) {
    h[i].v = mode == 0 ? g.below(RQ) : mode == 1 ? EDGE[g.below(12)] : mode == 2 ? (i == (it / 4) % N ? 12288 : 0) : (1u << g.below(14)) % RQ;
    b.put(h[i].v, 14);
  }
  auto h0 = h;
  encoding::encode_pkey<N>(h.data(), k.data());
  ref.push_back(N == 512 ? 9 : 10);
  ref.insert(ref.end(), b.v.begin(), b.v.end());
  if (k != ref) fail("encode_pkey<%zu>: bytes %s, specified %s", N, hexs(k.data(), L).c_str(), hexs(ref.data(), L).c_str());
  // now a byte string, possibly malformed
  std::vector<uint8_t> s = ref;
  switch ((it / 4) % 5) {
    case 0: break;
    case 1: s[0] = g.next(); break;
    case 2: for (size_t i = 1; i < L; i++) s[i] = g.next(); break;
    case 3: { size_t c = g.below(N); uint32_t v = g.below(2) ? RQ + g.below(4) : RQ + g.below(16384 - RQ);
              for (int t = 0; t < 14; t++) { size_t p = 14 * c + t; s[1 + p / 8] = (s[1 + p / 8] & ~(1 << (p & 7))) | (((v >> t) & 1) << (p & 7)); } break; }
    case 4: s[g.below(L)] ^= 1 << g.below(8); break;
  }
  auto s0 = s;
  std::vector<ff_t> d(N);
  for (auto& x : d) x.v = 0x1234;
  bool ok = s[0] == (N == 512 ? 9 : 10);
  for (size_t i = 0; i < N; i++) ok &= Bits::get(&s[1], 14 * i, 14) < RQ;
  bool r = decoding::decode_pkey<N>(s.data(), d.data());
  if (r != ok) fail("decode_pkey<%zu>(%s) = %d, specified %d", N, hexs(s0.data(), L).c_str(), r, ok);
  if (s != s0) fail("decode_pkey<%zu> modified the key", N);
  for (size_t i = 0; i < N; i++) {
    uint32_t w = ok ? Bits::get(&s[1], 14 * i, 14) : 0;
    if (d[i].v != w) fail("decode_pkey<%zu>(%s): coefficient %zu = %d, specified %u", N, hexs(s0.data(), L).c_str(), i, d[i].v, w);
  }
}
#else
template<size_t N> static void one(Rng& g, uint64_t it)
{
  constexpr size_t L = falcon_utils::compute_skey_len<N>();
  constexpr int W = N == 512 ? 6 : 5;
  if (L != 1 + 2 * N * W / 8 + N) fail("secret key length %zu", L);
  std::vector<int32_t> p[3];
  Bits b;
  for (int j = 0; j < 3; j++) {
    p[j].resize(N);
    int w = j == 2 ? 8 : W;
    for (size_t i = 0; i < N; i++) {
      int lo = -(1 << (w - 1)), hi = -lo - 1;
      p[j][i] = it % 3 == 0 ? g.range(lo, hi) : it % 3 == 1 ? (g.below(2) ? lo : hi) : (g.below(8) ? 0 : g.range(lo, hi));
      b.put(p[j][i], w);
    }
  }
  std::vector<uint8_t> k(L, 0xA5), ref;
  encoding::encode_skey<N>(p[0].data(), p[1].data(), p[2].data(), k.data());
  ref.push_back(N == 512 ? 0x59 : 0x5a);
  ref.insert(ref.end(), b.v.begin(), b.v.end());
  if (k != ref) fail("encode_skey<%zu>: bytes %s, specified %s", N, hexs(k.data(), L).c_str(), hexs(ref.data(), L).c_str());
  auto s = ref;
  if (it % 4 == 1) s[0] = g.next();
  if (it % 4 == 2) for (size_t i = 1; i < L; i++) s[i] = g.next();
  auto s0 = s;
  std::vector<int32_t> d[3];
  for (auto& x : d) x.assign(N, 0x1234);
  bool ok = s[0] == (N == 512 ? 0x59 : 0x5a);
  bool r = decoding::decode_skey<N>(s.data(), d[0].data(), d[1].data(), d[2].data());
  if (r != ok) fail("decode_skey<%zu>: header %02x: returned %d", N, s[0], r);
  if (s != s0) fail("decode_skey<%zu> modified the key", N);
  size_t pos = 0;
  for (int j = 0; j < 3; j++) {
    int w = j == 2 ? 8 : W;
    for (size_t i = 0; i < N; i++, pos += w) {
      int32_t v = Bits::get(&s[1], pos, w);
      if (v >> (w - 1)) v -= 1 << w;
      if (!ok) v = 0;
      if (d[j][i] != v) fail("decode_skey<%zu>(%s): polynomial %d coefficient %zu = %d, specified %d", N, hexs(s0.data(), L).c_str(), j, i, d[j][i], v);
    }
  }
}
#endif
static void hint(const std::string&) {}
static void step(Rng& g, uint64_t it) { one<512>(g, it); one<1024>(g, it); }
#elif defined(C12)
#include "samplerz.hpp"
using u72::u72_t;
typedef unsigned __int128 U;
static const U M72 = ((U)1 << 72) - 1;
static u72_t mk(U v) { u72_t r; r.hi = (uint64_t)(v >> 64); r.lo = (uint64_t)v; return r; }
static U un(const u72_t& a) { return ((U)a.hi << 64) | a.lo; }
static const char* TAB[18] = { "3024686241123004913666", "1564742784480091954050", "636254429462080897535", "199560484645026482916", "47667343854657281903",
        "8595902006365044063", "1163297957344668388", "117656387352093658", "8867391802663976", "496969357462633", "20680885154299",
        "638331848991", "14602316184", "247426747", "3104126", "28824", "198", "1" };
static U tab(int i) { U r = 0; for (const char* p = TAB[i]; *p; p++) r = r * 10 + (*p - '0'); return r; }
static void bytes(std::array<uint8_t, 9> b)
{
  U le = 0, be = 0;
  for (int i = 8; i >= 0; i--) le = (le << 8) | b[i];
  for (int i = 0; i < 9; i++) be = (be << 8) | b[i];
  uint32_t z = 0;
  for (int i = 0; i < 18; i++) z += le < tab(i);
  std::string h = hexs(b.data(), 9);
  uint32_t got = samplerz::base_sampler(std::array<uint8_t, 9>(b));
  if (got != z) fail("base_sampler(%s) = %u, specified %u", h.c_str(), got, z);
  if (un(u72_t::from_le_bytes(std::array<uint8_t, 9>(b))) != le) fail("from_le_bytes(%s)", h.c_str());
  if (un(u72_t::from_be_bytes(std::array<uint8_t, 9>(b))) != be) fail("from_be_bytes(%s)", h.c_str());
  if (mk(le).to_le_bytes() != b) fail("to_le_bytes of %s", h.c_str());
  if (mk(be).to_be_bytes() != b) fail("to_be_bytes of %s", h.c_str());
}
static void pair(U a, U b)
{
  auto A = mk(a), B = mk(b);
#define CK(e, want, nm) if ((e) != (want)) fail("u72 %s: a=%lx:%016lx b=%lx:%016lx", nm, (long)(a >> 64), (long)a, (long)(b >> 64), (long)b);
  CK(un(A + B), ((a + b) & M72), "+"); CK(un(A - B), ((a - b) & M72), "-"); CK(un(-A), ((-a) & M72), "neg");
  CK(A > B, a > b, ">"); CK(A < B, a < b, "<"); CK(un(u72_t::zero()), (U)0, "zero");
}
static void hint(const std::string& l)
{
  std::istringstream s(l);
  std::string f;
  s >> f;
  if (f == "bytes") { std::array<uint8_t, 9> b{}; unsigned x; for (int i = 0; i < 9 && (s >> x); i++) b[i] = x; bytes(b); return; }
  uint64_t a = 0, b = 0, c = 0, d = 0;
  s >> a >> b >> c >> d;
  pair(((U)(a & 255) << 64) | b, ((U)(c & 255) << 64) | d);
}
static void step(Rng& g, uint64_t it)
{
  auto rv = [&]() -> U {
    U v = ((U)g.next() << 64) | g.next();
    switch (g.below(5)) {
      case 0: v = tab(g.below(18)) + g.range(-2, 2); break;
      case 1: v >>= g.below(128); break;
      case 2: v = ((U)1 << g.below(73)) + g.range(-2, 2); break;
      case 3: v = -(U)g.below(4); break;
    }
    return v & M72;
  };
  U a = rv(), b = g.below(4) ? rv() : a;
  pair(a, b);
  std::array<uint8_t, 9> t;
  for (int i = 0; i < 9; i++) t[i] = (uint8_t)(a >> (8 * i));
  bytes(t);
  for (auto& x : t) if (!g.below(3)) x = g.next();
  bytes(t);
}
#else
#include PROP
#endif
