#include "sigref.hpp"
#include "decoding.hpp"
#include "encoding.hpp"
template<size_t N, size_t SL> static void dec(const std::vector<uint8_t>& body, const char* what)
{
  uint8_t* sig = new uint8_t[SL];
  int32_t* p = new int32_t[N];
  for (size_t i = 0; i < 41; i++) sig[i] = 0xa5 ^ i;
  memcpy(sig + 41, body.data(), SL - 41);
  for (size_t i = 0; i < N; i++) p[i] = 0x5a5a5a5a;
  std::vector<int32_t> want;
  bool ok = refdec(body.data(), SL - 41, N, want);
  bool got = decoding::decompress_sig<N, SL>(sig, p);
  if (!ok) want.assign(N, 0);
  auto h = [&] { return hexs(body.data(), SL - 41); };
  if (got != ok) fail("decompress_sig<%zu> (%s) body %s: returned %d, specified %d", N, what, h().c_str(), got, ok);
  for (size_t i = 0; i < N; i++)
    if (p[i] != want[i]) fail("decompress_sig<%zu> (%s) body %s: coefficient %zu is %d, specified %d", N, what, h().c_str(), i, p[i], want[i]);
  sig[0] = 0x30 | (N == 512 ? 9 : 10);
  uint8_t* salt = new uint8_t[40];
  memset(salt, 0x77, 40);
  bool g2 = decoding::decode_sig<N>(sig, salt, p);
  if (g2 != ok) fail("decode_sig<%zu> body %s: returned %d, specified %d", N, h().c_str(), g2, ok);
  if (ok && memcmp(salt, sig + 1, 40)) fail("decode_sig<%zu>: salt differs", N);
  if (ok) for (size_t i = 0; i < N; i++) if (p[i] != want[i]) fail("decode_sig<%zu> body %s: coefficient %zu", N, h().c_str(), i);
  sig[0] ^= 1 << (body[0] & 7);
  if (decoding::decode_sig<N>(sig, salt, p)) fail("decode_sig<%zu> accepts header %02x", N, sig[0]);
  delete[] sig; delete[] p; delete[] salt;
}
template<size_t N, size_t SL> static void one(Rng& g, uint64_t it)
{
  constexpr int64_t bound = N == 512 ? 34034726 : 70265242;
  constexpr size_t body = SL - 41;
  int64_t L = 8 * body, want = -1;
  switch (it % 5) { case 0: want = L; break; case 1: want = L + 1; break; case 2: want = L - 1 - (int64_t)g.below(9); break; case 3: want = L + (int64_t)g.below(300); break; }
  auto s = mkpoly(g, N, bound, g.below(6), want);
  int64_t bl = 0;
  if (sqn(s) > bound) return;
  Bits o;
  for (auto x : s) code1(o, x);
  bl = o.b.size();
  bool fit = bl <= L;
  uint8_t* sig = new uint8_t[SL];
  int32_t* ps = new int32_t[N];
  for (size_t i = 0; i < SL; i++) sig[i] = 0xc3 + i;
  memcpy(ps, s.data(), 4 * N);
  bool got = encoding::compress_sig<N, SL>(ps, sig);
  auto txt = [&] { std::string r; for (auto x : s) r += std::to_string(x) + " "; return r; };
  if (got != fit) fail("compress_sig<%zu> code of %ld bits in %ld: returned %d, specified %d; coefficients %s", N, (long)bl, (long)L, got, fit, txt().c_str());
  std::vector<uint8_t> wb = fit ? pack(o, body) : std::vector<uint8_t>(body, 0);
  if (memcmp(sig + 41, wb.data(), body)) fail("compress_sig<%zu> code of %ld bits in %ld (fits %d): body %s, specified %s; coefficients %s", N, (long)bl, (long)L, fit, hexs(sig + 41, body).c_str(), hexs(wb.data(), body).c_str(), txt().c_str());
  for (size_t i = 0; i < 41; i++) if (sig[i] != (uint8_t)(0xc3 + i)) fail("compress_sig<%zu> wrote header/salt byte %zu", N, i);
  if (memcmp(ps, s.data(), 4 * N)) fail("compress_sig<%zu> modified its input", N);
  delete[] sig; delete[] ps;
  auto t = pack(o, body);  // the code, truncated when it does not fit
  dec<N, SL>(t, fit ? "code" : "truncated code");
  if (fit) {
    for (int k = 0; k < 6; k++) {       // non-zero padding, each window
      if (bl >= L) break;
      size_t j = k == 0 ? bl : k == 1 ? L - 1 : bl + g.below(L - bl);
      auto u = t;
      u[j / 8] ^= 1 << (7 - j % 8);
      dec<N, SL>(u, "non-zero padding");
    }
    // flip any bit
    for (int k = 0; k < 4; k++) { auto u = t; size_t j = g.below(L); u[j / 8] ^= 1 << (7 - j % 8); dec<N, SL>(u, "bit flip"); }
    // negative zero somewhere
    auto s2 = s;
    size_t z = g.below(4) ? g.below(N) : N - 1;
    s2[z] = 0;
    Bits q;
    for (size_t i = 0; i < N; i++) { size_t at = q.b.size(); code1(q, s2[i]); if (i == z) q.b[at] = 1; }
    dec<N, SL>(pack(q, body), "negative zero");
    // the last one's terminator missing / last coefficient dropped
    auto u = t; u[(bl - 1) / 8] &= ~(1 << (7 - (bl - 1) % 8)); dec<N, SL>(u, "terminator missing");
  }
  // bodies whose last coefficient's unary run ends exactly at / beyond the end, runs crossing windows
  {
    Bits q;
    for (size_t i = 0; i + 1 < N; i++) code1(q, g.range(-127, 127));
    q.put(g.below(2)); for (int i = 0; i < 7; i++) q.put(g.below(2) | (i == 6));
    size_t e = g.below(3) ? L - 1 : L - 1 - g.below(20);
    while (q.b.size() < e) q.put(0);
    if (g.below(6)) q.put(1);
    dec<N, SL>(pack(q, body), "long unary run");
  }
  std::vector<uint8_t> r(body);
  int m = g.below(4);
  for (auto& x : r) x = m == 0 ? g.next() : m == 1 ? 0 : m == 2 ? 255 : (g.next() & g.next() & g.next());
  dec<N, SL>(r, "random");
  { // too few coefficients: code ends 0..8 bits before the end
    Bits q;
    size_t stop = L - g.below(12);
    while (true) { int32_t v = g.range(-300, 300); if (q.b.size() + 9 + (std::abs(v) >> 7) > stop) { if (stop - q.b.size() < 9 || stop - q.b.size() > 17) break; v = 1 + 128 * (int)(stop - q.b.size() - 9); } code1(q, v); }
    dec<N, SL>(pack(q, body), "short of coefficients");
  }
}
static void hint(const std::string&) {}
static void step(Rng& g, uint64_t it) { one<512, 666>(g, it); one<1024, 1280>(g, it); }
