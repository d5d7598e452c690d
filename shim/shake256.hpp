#pragma once
// Stand-in for the header of the (absent) git submodule `sha3`, with the API
// the library uses.  In the symbolic build (VERIF_SYMBOLIC) the members are
// only declared: the verifier knows them by contract alone.  In the native
// build (replays) it is a plain FIPS-202 SHAKE256.
#include <bit>
#include <cstddef>
#include <cstdint>
#include <cstring>

namespace shake256 {
constexpr size_t rate = 1088;

#ifdef VERIF_SYMBOLIC
template<const bool incremental = false>
struct shake256
{
  uint64_t ghost[32];
  shake256();
  void hash(const uint8_t* const msg, const size_t mlen);
  void absorb(const uint8_t* const msg, const size_t mlen);
  void finalize();
  void read(uint8_t* const dig, const size_t dlen);
};
#else
inline void keccakf(uint64_t a[25])
{
  static constexpr uint64_t rc[24] = {
    0x0000000000000001ull, 0x0000000000008082ull, 0x800000000000808aull, 0x8000000080008000ull,
    0x000000000000808bull, 0x0000000080000001ull, 0x8000000080008081ull, 0x8000000000008009ull,
    0x000000000000008aull, 0x0000000000000088ull, 0x0000000080008009ull, 0x000000008000000aull,
    0x000000008000808bull, 0x800000000000008bull, 0x8000000000008089ull, 0x8000000000008003ull,
    0x8000000000008002ull, 0x8000000000000080ull, 0x000000000000800aull, 0x800000008000000aull,
    0x8000000080008081ull, 0x8000000000008080ull, 0x0000000080000001ull, 0x8000000080008008ull
  };
  static constexpr int rot[24] = { 1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44 };
  static constexpr int pil[24] = { 10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1 };
  for (int r = 0; r < 24; r++) {
    uint64_t bc[5];
    for (int i = 0; i < 5; i++) bc[i] = a[i] ^ a[i + 5] ^ a[i + 10] ^ a[i + 15] ^ a[i + 20];
    for (int i = 0; i < 5; i++) {
      const uint64_t t = bc[(i + 4) % 5] ^ std::rotl(bc[(i + 1) % 5], 1);
      for (int j = 0; j < 25; j += 5) a[j + i] ^= t;
    }
    uint64_t t = a[1];
    for (int i = 0; i < 24; i++) {
      const int j = pil[i];
      const uint64_t b = a[j];
      a[j] = std::rotl(t, rot[i]);
      t = b;
    }
    for (int j = 0; j < 25; j += 5) {
      for (int i = 0; i < 5; i++) bc[i] = a[j + i];
      for (int i = 0; i < 5; i++) a[j + i] ^= (~bc[(i + 1) % 5]) & bc[(i + 2) % 5];
    }
    a[0] ^= rc[r];
  }
}

#ifdef SHIM_STREAM
// replay only: the output stream can be chosen, absorbed bytes are logged
struct Stream
{
  const uint8_t* bytes = nullptr;
  size_t n = 0, pos = 0, absorbed = 0;
  uint8_t log[4096];
};
inline Stream stream;
#endif
template<const bool incremental = false>
struct shake256
{
  static constexpr size_t RB = rate / 8;
  uint64_t st[25]{};
  size_t off = 0;
  inline void xorb(size_t i, uint8_t b) { st[i >> 3] ^= static_cast<uint64_t>(b) << ((i & 7) * 8); }
  inline void absorb(const uint8_t* const msg, const size_t mlen)
  {
#ifdef SHIM_STREAM
    for (size_t i = 0; i < mlen; i++)
      if (stream.absorbed < sizeof(stream.log)) stream.log[stream.absorbed++] = msg[i];
#endif
    for (size_t i = 0; i < mlen; i++) {
      xorb(off++, msg[i]);
      if (off == RB) { keccakf(st); off = 0; }
    }
  }
  inline void finalize()
  {
    xorb(off, 0x1f);
    xorb(RB - 1, 0x80);
    keccakf(st);
    off = 0;
  }
  inline void hash(const uint8_t* const msg, const size_t mlen)
  {
    absorb(msg, mlen);
    finalize();
  }
  inline void read(uint8_t* const dig, const size_t dlen)
  {
#ifdef SHIM_STREAM
    if (stream.bytes) {
      for (size_t i = 0; i < dlen; i++) dig[i] = stream.pos < stream.n ? stream.bytes[stream.pos++] : (stream.pos++, 0);
      return;
    }
#endif
    for (size_t i = 0; i < dlen; i++) {
      if (off == RB) { keccakf(st); off = 0; }
      dig[i] = static_cast<uint8_t>(st[off >> 3] >> ((off & 7) * 8));
      off++;
    }
  }
};
#endif
}
