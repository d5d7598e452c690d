#include "sigref.hpp"
#include "decoding.hpp"
#include "encoding.hpp"
// exact-size heap buffers under ASan/UBSan; every decoder
template<size_t N, size_t SL> static void sig(const std::vector<uint8_t>& body, uint8_t hdr)
{
  static char what[4000];
  uint8_t* b = new uint8_t[SL];
  int32_t* p = new int32_t[N];
  uint8_t* salt = new uint8_t[40];
  b[0] = hdr;
  for (size_t i = 1; i < 41; i++) b[i] = i;
  memcpy(b + 41, body.data(), SL - 41);
  snprintf(what, sizeof what, "decode_sig<%zu> header %02x body %s", N, hdr, hexs(body.data(), SL - 41).c_str());
  hang_what = what;
  decoding::decode_sig<N>(b, salt, p);
  decoding::decompress_sig<N, SL>(b, p);
  for (size_t i = 1; i < 41; i++) if (b[i] != i) fail("%s: signature modified", what);
  if (memcmp(b + 41, body.data(), SL - 41)) fail("%s: signature modified", what);
  delete[] b; delete[] p; delete[] salt;
}
template<size_t N, size_t SL> static void one(Rng& g, uint64_t it)
{
  constexpr size_t body = SL - 41;
  size_t L = 8 * body;
  std::vector<uint8_t> r(body);
  uint8_t hdr = 0x30 | (N == 512 ? 9 : 10);
  switch (it % 8) {
    case 0: for (auto& x : r) x = g.next(); break;
    case 1: { uint8_t v = g.next(); for (auto& x : r) x = v; break; }
    case 2: { size_t c = g.below(body + 1); for (size_t i = 0; i < body; i++) r[i] = i < c ? g.next() : g.below(3) ? 0 : g.next(); break; }
    default: {
      Bits q;
      size_t stop = it % 8 == 3 ? L : L - g.below(20);
      size_t cnt = it % 8 == 4 ? g.below(N) : N;
      int lim = it % 2 ? 127 : N == 512 ? 150 : 140;
      for (size_t i = 0; i < cnt && q.b.size() < stop; i++) code1(q, (g.below(40) ? g.range(-lim, lim) : g.range(-2000, 2000)));
      if (it % 8 == 5 && g.below(2)) { while (q.b.size() + 9 < L - g.below(12)) code1(q, 1); q.put(0); for (int i = 0; i < 7; i++) q.put(g.below(2)); while (q.b.size() < L - g.below(9)) q.put(0); q.put(g.below(2)); }
      r = pack(q, body);
      if (g.below(2)) { size_t j = g.below(L); r[j / 8] ^= 1 << (j % 8); }
      if (g.below(3) == 0) r[body - 1] = g.next();
    }
  }
  sig<N, SL>(r, g.below(9) ? hdr : (uint8_t)g.next());
  constexpr size_t PL = 1 + N * 14 / 8, KL = 1 + 2 * N * (N == 512 ? 6 : 5) / 8 + N;
  uint8_t* pk = new uint8_t[PL];
  uint8_t* sk = new uint8_t[KL];
  auto* h = new ff::ff_t[N];
  int32_t *f = new int32_t[N], *gg = new int32_t[N], *F = new int32_t[N];
  int m = g.below(4);
  for (size_t i = 0; i < PL; i++) pk[i] = m == 0 ? 0xff : m == 1 ? 0 : g.next();
  for (size_t i = 0; i < KL; i++) sk[i] = m == 0 ? 0xff : m == 1 ? 0x80 : g.next();
  if (g.below(8)) pk[0] = log2<N>();
  if (g.below(8)) sk[0] = 0x50 | log2<N>();
  std::vector<uint8_t> p0(pk, pk + PL), s0(sk, sk + KL);
  decoding::decode_pkey<N>(pk, h);
  decoding::decode_skey<N>(sk, f, gg, F);
  if (memcmp(pk, p0.data(), PL) || memcmp(sk, s0.data(), KL)) fail("key decoder modified its input (%zu)", N);
  delete[] pk; delete[] sk; delete[] h; delete[] f; delete[] gg; delete[] F;
}
static void hint(const std::string&) {}
static void step(Rng& g, uint64_t it) { hang_limit = 15; one<512, 666>(g, it); one<1024, 1280>(g, it); }
