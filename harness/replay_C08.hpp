#define SHIM_STREAM
#include "hashing.hpp"
template<size_t N> static void one(Rng& g, uint64_t it)
{
  static const uint16_t E[] = { 61444, 61445, 61446, 0, 65535, 12288, 12289, 49155, 49156, 24578, 0xf000, 0x00f0, 0xff00, 0x00ff };
  std::vector<uint8_t> salt(g.below(3) ? 40 : g.below(300)), msg(g.below(4) ? g.below(200) : g.below(600));
  for (auto& x : salt) x = g.next();
  for (auto& x : msg) x = g.next();
  salt.reserve(1); msg.reserve(1);
  std::vector<ff::ff_t> p(N + 2);
  for (auto& x : p) x.v = 0x1234;
  std::vector<uint8_t> st(200000);
  int mode = it % 6;
  for (size_t i = 0; i < st.size(); i += 2) {
    uint16_t w = g.next();
    if (mode == 1 && g.below(2)) w = E[g.below(14)];
    if (mode == 2 && g.below(8)) w = g.range(61445, 65535);
    if (mode == 3 && i / 136 % 2) w = 65535;
    if (mode == 4 && (i / 2) % 68 >= 66) w = E[g.below(14)];
    st[i] = w >> 8; st[i + 1] = w;
  }
  auto& S = shake256::stream;
  S.absorbed = 0; S.pos = 0;
  S.bytes = mode == 5 ? nullptr : st.data();
  S.n = st.size();
  auto s0 = salt, m0 = msg;
  hashing::hash_to_point<N>(salt.data(), salt.size(), msg.data(), msg.size(), p.data());
  if (s0 != salt || m0 != msg) fail("hash_to_point<%zu> modified its input", N);
  std::vector<uint8_t> ab = salt;
  ab.insert(ab.end(), msg.begin(), msg.end());
  std::string in = "salt " + hexs(salt.data(), salt.size()) + " message " + hexs(msg.data(), msg.size());
  if (std::vector<uint8_t>(S.log, S.log + S.absorbed) != ab) fail("hash_to_point<%zu>: %s: absorbed %s", N, in.c_str(), hexs(S.log, S.absorbed).c_str());
  shake256::shake256<true> h;
  S.bytes = nullptr;
  h.absorb(ab.data(), ab.size());
  h.finalize();
  size_t pos = 0;
  for (size_t i = 0; i < N;) {
    uint8_t b[2];
    if (mode == 5) h.read(b, 2);
    else { b[0] = pos < st.size() ? st[pos] : 0; b[1] = pos < st.size() ? st[pos + 1] : 0; }
    pos += 2;
    unsigned w = b[0] << 8 | b[1];
    if (w >= 61445) continue;
    if (p[i].v != w % RQ) fail("hash_to_point<%zu>: stream mode %d (byte %zu, word %u) %s: coefficient %zu is %d, specified %u", N, mode, pos - 2, w, in.c_str(), i, p[i].v, w % (unsigned)RQ);
    i++;
  }
  if (p[N].v != 0x1234 || p[N + 1].v != 0x1234) fail("hash_to_point<%zu> writes past the polynomial", N);
}
static void hint(const std::string&) {}
static void step(Rng& g, uint64_t it) { one<512>(g, it); one<1024>(g, it); }
