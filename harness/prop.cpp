#include "prop.h"

#include <atomic>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <mutex>
#include <new>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <cxxabi.h>
#include <exception>

extern "C" int __real_close(int);

namespace prop {

// what the parent process can read when this one dies
struct Shared {
  volatile uint64_t started;  // cases started
  volatile uint64_t index;    // the current case
  volatile uint32_t running;
  char phase[120];
};
static Shared* shared;
static FILE* out;
static std::mutex mtx;
static std::map<std::string, uint64_t> counts;
static std::map<std::string, std::unordered_set<uint64_t>> sets;
static std::vector<std::string> samples;
static uint64_t sampleSeen = 0;

uint64_t Rng::edgy(int bits) {
  uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1;
  switch (below(6)) {
    case 0: return below(4) & mask;
    case 1: return (mask - below(4)) & mask;
    case 2: return ((1ull << (bits - 1)) + below(3) - 1) & mask;
    case 3: return (1ull << below((uint64_t)bits)) & mask;
    default: return next() & mask;
  }
}
Bytes Rng::bytes(size_t n) {
  Bytes b(n);
  int kind = (int)below(8);
  for (auto& x : b) x = kind == 0 ? 0 : kind == 1 ? 0xff : u8();
  return b;
}

thread_local bool muted = false;
void count(const std::string& name, uint64_t n) {
  if (muted) return;
  std::lock_guard<std::mutex> l(mtx);
  counts[name] += n;
}
void distinct(const std::string& set, uint64_t h) {
  if (muted) return;
  std::lock_guard<std::mutex> l(mtx);
  auto& s = sets[set];
  if (s.size() < 200000) s.insert(h);
}
void distinct(const std::string& set, const std::string& m) { distinct(set, hashBytes(m.data(), m.size())); }
void sample(const std::string& t) {
  if (muted) return;
  std::lock_guard<std::mutex> l(mtx);
  ++sampleSeen;
  if (samples.size() < 5) samples.push_back(t);
}
uint64_t hashBytes(const void* p, size_t n, uint64_t h) {
  auto b = (const uint8_t*)p;
  for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
  return h ^ (h >> 29);
}
std::string hex(const Bytes& b, size_t max) {
  std::string s;
  char t[4];
  for (size_t i = 0; i < b.size() && i < max; ++i) { snprintf(t, sizeof t, "%02x", b[i]); s += t; }
  if (b.size() > max) s += "...(" + std::to_string(b.size()) + ")";
  return s;
}

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char t[8]; snprintf(t, sizeof t, "\\u%04x", ch); o += t; }
    else o += (char)ch;
  }
  return o + "\"";
}

#ifdef PROP_FUZZ
static bool fatal(const std::string& key);   // known findings do not end the run
#endif

static void emitViolation(uint64_t index, uint64_t seed, const std::string& key, const std::string& msg, const std::string& desc) {
  std::lock_guard<std::mutex> l(mtx);
  fprintf(out, "{\"violation\":%s,\"case\":%llu,\"seed\":%llu,\"message\":%s,\"desc\":%s}\n", jstr(key).c_str(),
          (unsigned long long)index, (unsigned long long)seed, jstr(msg).c_str(), jstr(desc).c_str());
  fflush(out);
#ifdef PROP_FUZZ
  if (fatal(key)) abort();
#endif
}

static thread_local std::string phases;
void Ctx::phase(const char* p) {
  if (muted) return;
  if (phases.size() < 600) phases += (phases.empty() ? "" : " > ") + std::string(p);
  strncpy(shared->phase, p, sizeof shared->phase - 1);
  if (single) fprintf(stderr, "[phase] %s\n", p);
}
static std::string vfmt(const char* fmt, va_list ap) {
  char b[4000];
  vsnprintf(b, sizeof b, fmt, ap);
  return b;
}
void Ctx::note(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  auto s = vfmt(fmt, ap);
  va_end(ap);
  if (desc.size() < 20000) desc += s + "\n";
  if (single) fprintf(stderr, "[note] %s\n", s.c_str());
}
void Ctx::fail(const std::string& key, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  auto s = vfmt(fmt, ap);
  va_end(ap);
  emitViolation(index, seed, key, s, desc);
  if (single) fprintf(stderr, "[violation] %s: %s\n", key.c_str(), s.c_str());
  throw Failed();
}
void Ctx::check(bool ok, const std::string& key, const char* fmt, ...) {
  if (ok) return;
  va_list ap;
  va_start(ap, fmt);
  auto s = vfmt(fmt, ap);
  va_end(ap);
  fail(key, "%s", s.c_str());
}

std::string outcome(Ctx& c, const std::function<void()>& f) {
  try {
    f();
    return "";
  } catch (const Failed&) {
    throw;
  } catch (const std::exception& e) {
    std::string w = e.what();
    return std::string("exception: ") + w;
  } catch (...) {
    c.fail("foreign-exception", "an exception not derived from std::exception was thrown");
  }
}

thread_local uint8_t heapFill = 0xA5;
__attribute__((noinline)) void dirtyStack(uint8_t v) {
  volatile uint8_t a[16384];
  for (size_t i = 0; i < sizeof a; ++i) a[i] = v;
}

static void onNoProgress() {
  // the library loops without letting time pass or making an end
  fprintf(stderr, "sim: no progress\n");
#ifdef PROP_FUZZ
  abort();
#endif
  _exit(77);
}

static void mainLoop(uint64_t seed, uint64_t first, uint64_t step, uint64_t n, bool thorough, bool single) {
  for (uint64_t i = first; i < n; i += step) {
    Rng mix(seed * 1000003ull + i * 0x9E3779B97F4A7C15ull + hashBytes(kProperty, strlen(kProperty)));
    uint64_t cs = mix.next();
    Ctx c{i, cs, Rng(cs), thorough, single, ""};
    heapFill = (uint8_t)(cs >> 17);
    shared->index = i;
    shared->phase[0] = 0;
    shared->running = 1;
    shared->started = shared->started + 1;
    phases.clear();
    auto before = i < 3 * step ? counts : std::map<std::string, uint64_t>();
    try {
      runCase(c);
    } catch (const Failed&) {
      sim::setCurrent(nullptr);
      count("cases_violating");
    } catch (const std::exception& e) {
      sim::setCurrent(nullptr);
      emitViolation(i, cs, std::string("escaped-exception:") + shared->phase, e.what(), c.desc);
    }
    sim::setCurrent(nullptr);
    shared->running = 0;
    if (i < 3 * step) {  // a full account of the first cases
      std::string t = "case " + std::to_string(i) + ": observed";
      for (auto& [k, v] : counts) if (v != before[k]) t += " " + k + "=" + std::to_string(v - before[k]);
      if (!phases.empty()) t += "; phases " + phases;
      if (!c.desc.empty()) t += "; " + c.desc.substr(0, 500);
      samples.push_back(t);
    }
    count("cases");
  }
}

}  // namespace prop

using namespace prop;

#if !defined SIM_VALGRIND && !defined PROP_FUZZ  // memcheck has its own, libFuzzer brings one
void* operator new(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  memset(p, heapFill, n);
  return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
#endif

#ifdef PROP_FUZZ
// The cases of the check, driven by the bytes libFuzzer evolves for coverage of the library.
// PROP_OUT: violations are appended; PROP_STATE: the input being run; PROP_KNOWN: keys of known findings, one per line
namespace prop {
static std::set<std::string> known;
static bool fatal(const std::string& key) { return !known.count(key); }
static uint8_t* state;
const size_t kStateMax = 1 << 16;
}
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  shared = (Shared*)calloc(1, sizeof(Shared));
  const char* o = getenv("PROP_OUT");
  out = o ? fopen(o, "a") : stdout;
  if (const char* k = getenv("PROP_KNOWN")) {
    std::string s = k;
    for (size_t a = 0; a < s.size();) { size_t e = s.find('\n', a); if (e == std::string::npos) e = s.size(); known.insert(s.substr(a, e - a)); a = e + 1; }
  }
  if (const char* p = getenv("PROP_STATE")) {
    int fd = open(p, O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, (off_t)(kStateMax + 8 + sizeof(Shared))) != 0) _exit(3);
    state = (uint8_t*)mmap(nullptr, kStateMax + 8 + sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    __real_close(fd);
    shared = (Shared*)(state + 8 + kStateMax);
  }
  sim::noProgress = onNoProgress;
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t n) {
  if (n > kStateMax) return 0;
  if (state) { memcpy(state + 8, data, n); *(volatile uint64_t*)state = n; }
  Rng mix(hashBytes(data, std::min<size_t>(n, 4)) + hashBytes(kProperty, strlen(kProperty)));
  uint64_t cs = mix.mixed();
  Ctx c{shared->started, cs, Rng(cs), false, getenv("PROP_SINGLE") != nullptr, ""};
  c.r.tape = data;
  c.r.end = data + n;
  heapFill = (uint8_t)(cs >> 17);
  shared->phase[0] = 0;
  shared->started = shared->started + 1;
  shared->running = 1;
  phases.clear();
  try {
    runCase(c);
  } catch (const Failed&) {
  } catch (const std::exception& e) {
    sim::setCurrent(nullptr);
    emitViolation(0, cs, std::string("escaped-exception:") + shared->phase, e.what(), c.desc);
  }
  sim::setCurrent(nullptr);
  shared->running = 0;
  heapFill = 0xA5;
  return 0;
}
#define PROP_NO_MAIN
#endif

#ifndef PROP_NO_MAIN
int main(int argc, char** argv) {
  uint64_t seed = 1, first = 0, step = 1, n = 0;
  bool thorough = false, single = false;
  std::string outPath, statePath;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : "0"); };
    if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 0);
    else if (a == "--first") first = strtoull(val().c_str(), nullptr, 0);
    else if (a == "--step") step = strtoull(val().c_str(), nullptr, 0);
    else if (a == "--cases") n = strtoull(val().c_str(), nullptr, 0);
    else if (a == "--thorough") thorough = true;
    else if (a == "--out") outPath = val();
    else if (a == "--state") statePath = val();
    else if (a == "--only") { first = strtoull(val().c_str(), nullptr, 0); step = 1; n = first + 1; single = true; }
    else if (a == "--info") {
      printf("{\"property\":%s,\"quick\":%llu,\"thorough\":%llu,\"rule\":%s,\"require\":[", jstr(kProperty).c_str(),
             (unsigned long long)kQuickCases, (unsigned long long)kThoroughCases, jstr(kRule).c_str());
      for (size_t k = 0; k < kRequire.size(); ++k)
        printf("%s[%s,%llu]", k ? "," : "", jstr(kRequire[k].first).c_str(), (unsigned long long)kRequire[k].second);
      printf("]}\n");
      return 0;
    }
  }
  if (n == 0) n = thorough ? kThoroughCases : kQuickCases;
  if (!statePath.empty()) {
    int fd = open(statePath.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) return 3;
    shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    __real_close(fd);
  } else {
    shared = (Shared*)calloc(1, sizeof(Shared));
  }
  out = outPath.empty() ? stdout : fopen(outPath.c_str(), "a");
  if (!out) return 3;
  sim::noProgress = onNoProgress;
  mainLoop(seed, first, step, n, thorough, single);
  fprintf(out, "{\"done\":true,\"counts\":{");
  bool c1 = true;
  for (auto& [k, v] : counts) { fprintf(out, "%s%s:%llu", c1 ? "" : ",", jstr(k).c_str(), (unsigned long long)v); c1 = false; }
  fprintf(out, "},\"sets\":{");
  c1 = true;
  for (auto& [k, v] : sets) {
    fprintf(out, "%s%s:[", c1 ? "" : ",", jstr(k).c_str());
    bool c2 = true;
    for (auto h : v) { fprintf(out, "%s%llu", c2 ? "" : ",", (unsigned long long)h); c2 = false; }
    fprintf(out, "]");
    c1 = false;
  }
  fprintf(out, "},\"samples\":[");
  c1 = true;
  for (auto& s : samples) { fprintf(out, "%s%s", c1 ? "" : ",", jstr(s).c_str()); c1 = false; }
  fprintf(out, "]}\n");
  fclose(out);
  return 0;
}
#endif
