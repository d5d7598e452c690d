// Native search for a failing input on the real code of /repo (used to replay a
// failed obligation; never the deciding step).
//   exe seed budget_s k n hintsfile      exit 0 nothing found, 1 failing input
#pragma once
#include <algorithm>
#include <bit>
#include <cassert>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

struct Rng
{
  uint64_t s;
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
  double real() { return (double)(next() >> 11) / 9007199254740992.0; }
};

[[noreturn]] static void fail(const char* f, ...)
{
  va_list a;
  va_start(a, f);
  printf("FAILING INPUT: ");
  vprintf(f, a);
  printf("\n");
  va_end(a);
  fflush(stdout);
  _Exit(1);
}

static std::string hexs(const uint8_t* p, size_t n)
{
  static const char* d = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
  return s;
}

static constexpr int64_t RQ = 12289;
static int64_t md(int64_t x) { x %= RQ; return x < 0 ? x + RQ : x; }
static int64_t pw(int64_t b, uint64_t e)
{
  int64_t r = 1;
  b = md(b);
  for (; e; e >>= 1, b = b * b % RQ)
    if (e & 1) r = r * b % RQ;
  return r;
}

// negacyclic product of integer vectors, modulo q
static std::vector<int64_t> nega(const std::vector<int64_t>& a, const std::vector<int64_t>& b)
{
  size_t n = a.size();
  std::vector<int64_t> r(n, 0);
  for (size_t i = 0; i < n; i++) {
    if (!a[i]) continue;
    for (size_t j = 0; j < n; j++) {
      int64_t v = md(a[i]) * md(b[j]) % RQ;
      size_t k = i + j;
      if (k >= n) r[k - n] -= v; else r[k] += v;
    }
  }
  for (auto& x : r) x = md(x);
  return r;
}

// a call that does not come back within the limit is itself a failing input
#include <csignal>
#include <unistd.h>
static const char* volatile hang_what = "";
static unsigned hang_limit = 60;
static void on_alarm(int)
{
  char b[4096];
  int n = snprintf(b, sizeof b, "FAILING INPUT: call did not return within %u s: %s\n", hang_limit, hang_what);
  if (write(1, b, n) < 0) {}
  _Exit(1);
}
#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
extern "C" void __sanitizer_set_death_callback(void (*)());
static void on_death() { if (*hang_what) { printf("FAILING INPUT: %s\n", hang_what); fflush(stdout); } }
#define ON_DEATH __sanitizer_set_death_callback(on_death)
#else
#define ON_DEATH
#endif
static void step(Rng& g, uint64_t it);
static void hint(const std::string& line);

int main(int argc, char** argv)
{
  uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
  double budget = argc > 2 ? atof(argv[2]) : 1;
  uint64_t k = argc > 3 ? strtoull(argv[3], 0, 10) : 0, n = argc > 4 ? strtoull(argv[4], 0, 10) : 1;
  setvbuf(stdout, nullptr, _IOLBF, 0);
  signal(SIGALRM, on_alarm);
  ON_DEATH;
  alarm(hang_limit);
  if (argc > 5) {
    std::ifstream f(argv[5]);
    std::string l;
    while (std::getline(f, l)) hint(l);
  }
  Rng g{ seed * 0x1234567ull + k };
  auto t0 = std::chrono::steady_clock::now();
  uint64_t it = 0;
  while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget) {
    alarm(hang_limit);
    step(g, it * n + k);
    it++;
  }
  printf("RUNS %" PRIu64 "\n", it);
  return 0;
}
