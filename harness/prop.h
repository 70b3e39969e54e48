// The case runner: every check is a program that runs numbered, seeded cases and judges each with an oracle.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>
#include "sim.h"

namespace prop {

using sim::Bytes;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
#ifdef PROP_FUZZ
  // choices come from the bytes of the fuzzer first
  const uint8_t *tape = nullptr, *end = nullptr;
  uint64_t next(int bytes = 8) {
    if (tape != end) {
      uint64_t v = 0;
      for (int i = 0; i < bytes && tape != end; ++i) v |= (uint64_t)*tape++ << (8 * i);
      return v;
    }
    return mixed();
  }
  uint64_t below(uint64_t n) { return n ? next(n <= 256 ? 1 : n <= 65536 ? 2 : n <= 1ull << 32 ? 4 : 8) % n : 0; }
  uint8_t u8() { return (uint8_t)next(1); }
  uint16_t u16() { return (uint16_t)next(2); }
  uint32_t u32() { return (uint32_t)next(4); }
#else
  uint64_t next() { return mixed(); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }                       // 0 .. n-1
  uint8_t u8() { return (uint8_t)next(); }
  uint16_t u16() { return (uint16_t)next(); }
  uint32_t u32() { return (uint32_t)next(); }
#endif
  uint64_t mixed() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }  // a .. b
  bool chance(int percent) { return below(100) < (uint64_t)percent; }
  uint64_t u64() { return next(); }
  // numbers with a taste for the edges of their type
  uint64_t edgy(int bits);
  Bytes bytes(size_t n);
  std::string str(size_t n) { auto b = bytes(n); return std::string(b.begin(), b.end()); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct Failed : std::exception {  // thrown to leave a case after a violation
  const char* what() const noexcept override { return "violation"; }
};

struct Ctx {
  uint64_t index;   // number of the case
  uint64_t seed;
  Rng r;
  bool thorough;
  bool single;      // one case is replayed: print details
  std::string desc; // written into the replay file on a violation

  // Says what the case is doing, so that a crash or a hang is attributed to it. `phase` becomes part of the key.
  void phase(const char* phase);
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  // Reports a violation and leaves the case
  [[noreturn]] void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
  void check(bool ok, const std::string& key, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
};

// ---- what the monitors observed (goes into the evidence)
void count(const std::string& name, uint64_t n = 1);
void distinct(const std::string& set, uint64_t hash);   // counts distinct members
void distinct(const std::string& set, const std::string& member);
extern thread_local bool muted;                         // nothing of the above (and no phases) from this thread: it would synchronise threads
void sample(const std::string& text);                   // a few of them are kept
uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
std::string hex(const Bytes& b, size_t max = 64);

// The byte fresh heap memory is filled with (operator new); every case has its own
extern thread_local uint8_t heapFill;
// Overwrites the unused part of the stack
void dirtyStack(uint8_t v);

// Runs f; returns "" if it returned, else a description of the exception. Anything not derived from std::exception is
// reported as key "foreign-exception".
std::string outcome(Ctx& c, const std::function<void()>& f);

// ---- provided by each check
extern const char* const kProperty;
extern const uint64_t kQuickCases, kThoroughCases;
extern const char* const kRule;  // how the cases are made, what makes one non-trivial
void runCase(Ctx& c);
// what must have been observed for the run to count: (counter, minimum per 1000 cases)
extern const std::vector<std::pair<std::string, uint64_t>> kRequire;

}  // namespace prop

#define CHECK(cond, key, ...) do { if (!(cond)) c.fail(key, __VA_ARGS__); } while (0)
