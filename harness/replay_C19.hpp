#include "verifyref.hpp"
template<size_t N> static void ver(Rng& g, uint64_t it)
{
  Case<N> k;
  if (!make<N>(g, it, k)) return;
  bool pkok = true;
  switch (g.below(4)) {
    case 0: k.pk[0] ^= 1 << g.below(8); pkok = false; break;
    case 1: k.pk[0] = N == 512 ? 10 : 9; pkok = false; break;
    case 2: { size_t i = g.below(N); k.h[i] = g.range(RQ, 16383); pkbytes(k); pkok = false; break; }
  }
  bool want = pkok && k.ok;
  bool w = falcon::verify<N>(k.pk.data(), k.msg.data(), k.msg.size(), k.sig.data());
  if (w != want) fail("falcon::verify<%zu> = %d, specified %d; key well-formed %d; %s", N, w, want, pkok, k.text().c_str());
}
template<size_t N> static void sgn(Rng& g, uint64_t it)
{
  constexpr size_t SL = N == 512 ? 666 : 1280, PL = 1 + N * 14 / 8, KL = 1 + 2 * N * (N == 512 ? 6 : 5) / 8 + N;
  static std::vector<uint8_t> pk, sk;
  shake256::stream.bytes = nullptr;
  hang_limit = 120;
  if (sk.empty()) { pk.resize(PL); sk.resize(KL); falcon::keygen<N>(pk.data(), sk.data()); }
  std::vector<uint8_t> sig(SL), k = sk, msg(g.below(64));
  for (auto& x : sig) x = g.next();
  for (auto& x : msg) x = g.next();
  auto s0 = sig;
  if (it % 16) {
    k[0] = it % 3 ? (uint8_t)(k[0] ^ (1 << g.below(8))) : (uint8_t)g.next();
    if (k[0] == sk[0]) return;
    if (g.below(2)) for (size_t i = 1; i < KL; i++) k[i] = g.next();
    static char what[64];
    snprintf(what, sizeof what, "falcon::sign<%zu> with key header %02x", N, k[0]);
    hang_what = what;
    bool r = falcon::sign<N>(k.data(), msg.data(), msg.size(), sig.data());
    if (r) fail("%s returned true", what);
    if (s0 != sig) fail("%s wrote into the signature buffer", what);
  } else {
    bool r = falcon::sign<N>(k.data(), msg.data(), msg.size(), sig.data());
    if (!r) fail("falcon::sign<%zu> refused key %s", N, hexs(k.data(), KL).c_str());
    if (sig[0] != (0x30 | (N == 512 ? 9 : 10))) fail("falcon::sign<%zu>: header %02x", N, sig[0]);
    bool v = falcon::verify<N>(pk.data(), msg.data(), msg.size(), sig.data());
    if (!v) fail("falcon::verify<%zu> refuses an honest signature: key %s", N, hexs(pk.data(), PL).c_str());
    auto bad = pk;
    bad[0] ^= 1 << g.below(8);
    if (falcon::verify<N>(bad.data(), msg.data(), msg.size(), sig.data())) fail("falcon::verify<%zu> accepts key header %02x", N, bad[0]);
    if (N == 512) {
      bad = pk;   // h[0] + q, same residue
      unsigned h0 = bad[1] | (bad[2] & 63) << 8;
      if (h0 + RQ < 16384) {
        h0 += RQ;
        bad[1] = h0; bad[2] = (bad[2] & 0xc0) | h0 >> 8;
        if (falcon::verify<N>(bad.data(), msg.data(), msg.size(), sig.data())) fail("falcon::verify<%zu> accepts a coefficient >= q: key %s", N, hexs(bad.data(), PL).c_str());
      }
    }
  }
}
static void hint(const std::string&) {}
static void step(Rng& g, uint64_t it) { ver<512>(g, it); ver<1024>(g, it); sgn<512>(g, it); sgn<1024>(g, it); }
