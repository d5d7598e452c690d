#include "common.hpp"
static std::string rhex(const std::vector<uint8_t>& b, bool up = false)
{
  const char* d = up ? "0123456789ABCDEF" : "0123456789abcdef";
  std::string s;
  for (auto x : b) { s.push_back(d[x >> 4]); s.push_back(d[x & 15]); }
  return s;
}
static void hint(const std::string&) {}
static void one(Rng& g, std::vector<uint8_t> b)
{
  // an exact allocation, so that a sanitizer (or a guard value) sees what lies outside
  const std::string w = rhex(b);
  std::string h = to_hex(b.data(), b.size());
  if (h != w) fail("to_hex of %s (%zu bytes) = %s", w.c_str(), b.size(), h.c_str());
  for (int odd = 0; odd < 2; odd++) {
    std::string t = rhex(b, g.below(2));
    for (auto& c : t) if (g.below(4) == 0 && c >= 'A') c ^= 32;
    if (odd) t.push_back("0fF9a"[g.below(5)]);
    std::vector<uint8_t> o(b.size() + 2, 0xa5);
    to_byte_array(t, o.data() + 1);
    if (!std::equal(b.begin(), b.end(), o.begin() + 1)) fail("to_byte_array(\"%s\") = %s", t.c_str(), rhex(std::vector<uint8_t>(o.begin() + 1, o.end() - 1)).c_str());
    if (o[0] != 0xa5 || o.back() != 0xa5) fail("to_byte_array(\"%s\") writes outside its output", t.c_str());
  }
}
static void step(Rng& g, uint64_t it)
{
  if (it == 0) {
    one(g, {});
    for (int i = 0; i < 256; i++) one(g, { (uint8_t)i });
    for (int i = 0; i < 65536; i += 1) one(g, { (uint8_t)i, (uint8_t)(i >> 8) });
  }
  size_t n = g.below(16) == 0 ? g.below(5000) : g.below(70);
  if (g.below(40000) == 0) n = 70000 + g.below(100);
  std::vector<uint8_t> b(n);
  for (auto& x : b) x = g.below(4) ? g.below(256) : "\x00\x0f\xf0\xff\x80\x7f"[g.below(6)];
  one(g, b);
}
