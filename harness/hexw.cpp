// Entry points for the hex helpers (real code of /repo).
#include "common.hpp"
#include <new>
extern "C" {
void w_hex(std::string* out, const uint8_t* b, size_t n) { new (out) std::string(to_hex(b, n)); }
void w_bytes(const std::string* s, uint8_t* o) { to_byte_array(*s, o); }
}
