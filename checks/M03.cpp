// Independent objects in different threads: no races on library data, the results of a lone thread, fresh connection ids.
#include "scenario.h"
#include <atomic>
#include <iostream>
#include <sched.h>
#include <thread>

using namespace scen;

namespace prop {
const char* const kProperty = "M03";
const uint64_t kQuickCases = 1500, kThoroughCases = 60000;
const char* const kRule =
    "a case plays 2-6 seeded scripts (sessions, explicit operations, I/O connections, discovery, fresh objects), first one after the other, then all at once in threads of their own that yield or spin at "
    "random system calls; built with ThreadSanitizer, nothing in the harness synchronises the threads while they run; the appender counts, or is the library's own for the console; each transcript must be that of the lone run, all connection serial "
    "numbers and ids must differ, also when 3-6 threads open hundreds of connections at the very same time; non-trivial: distinct transcripts";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"thread_runs", 2000}, {"overlaps", 500}, {"connections", 1000}, {"messages", 10000}, {"burst_opens", 50000}, {"console_cases", 100}};
}  // namespace prop

static std::atomic<unsigned> reports{0};
extern "C" void __tsan_on_report(void*) { reports.fetch_add(1, std::memory_order_relaxed); }

namespace {
std::atomic<uint64_t> printed{0};
struct Count : es::utils::LogAppenderIf {
  void print(es::utils::LogLevel, const std::string& m) override { printed.fetch_add(m.size() ? 1 : 0, std::memory_order_relaxed); }
};
// A session that answers at once, so that many threads open connections at the very same time
struct Stub : es::SessionInfoIf {
  mutable std::vector<uint32_t> o2t, t2o;
  mutable std::vector<uint16_t> serials;
  es::eip::EncapsPacket sendAndReceive(const es::eip::EncapsPacket& p) const override {
    Bytes b = p.pack();
    size_t at = 40 + 2 + 2 * (size_t)b[41] + 2;
    auto le = [&](size_t i, int k) { uint32_t v = 0; while (k--) v = v << 8 | b[i + (size_t)k]; return v; };
    o2t.push_back(le(at, 4));
    t2o.push_back(le(at + 4, 4));
    serials.push_back((uint16_t)le(at + 8, 2));
    model::Rep rep;
    rep.status = 1;
    es::eip::EncapsPacket answer;
    answer.expand(model::packReply(1, b[40], rep));
    return answer;
  }
  uint32_t getSessionHandle() const override { return 1; }
  es::sockets::EndPoint getRemoteEndPoint() const override { return es::sockets::EndPoint("10.0.0.1", 44818); }
};
void burst(Ctx& c) {
  c.phase("burst");
  size_t n = 3 + c.r.below(4), each = 200 + c.r.below(400);
  es::utils::Logger::setLogLevel(es::utils::LogLevel::OFF);
  std::vector<std::shared_ptr<Stub>> stubs;
  for (size_t i = 0; i < n; ++i) stubs.push_back(std::make_shared<Stub>());
  std::atomic<size_t> ready{0};
  std::atomic<int> refused{0};
  std::vector<std::thread> ts;
  Spec sp = randomSpec(c.r, 20);
  sp.o2tType = 1;  // multicast: the originator chooses the id
  sp.t2oType = 2;  // point to point: here, too
  for (size_t i = 0; i < n; ++i)
    ts.emplace_back([&, i] {
      muted = true;
      ready.fetch_add(1, std::memory_order_relaxed);
      es::ConnectionManager m;
      while (ready.load(std::memory_order_relaxed) < n) {}
      for (size_t k = 0; k < each; ++k) if (m.forwardOpen(stubs[i], sp.params(), sp.large).expired()) refused.fetch_add(1, std::memory_order_relaxed);
    });
  for (auto& t : ts) t.join();
  CHECK((size_t)refused.load() == n * each, "burst", "%d of %zu refused", refused.load(), n * each);
  auto unique = [&](auto get, const char* what) {
    std::map<uint32_t, size_t> seen;
    for (size_t i = 0; i < n; ++i)
      for (auto v : get(*stubs[i])) {
        auto [it, fresh] = seen.insert({v, i});
        CHECK(fresh, std::string("same-") + what, "threads %zu and %zu both used the %s %u", it->second, i, what, v);
      }
  };
  unique([](const Stub& f) { return f.serials; }, "serial-number");
  unique([](const Stub& f) { return f.o2t; }, "o2t-id");
  unique([](const Stub& f) { return f.t2o; }, "t2o-id");
  count("burst_opens", n * each);
}
}  // namespace

void prop::runCase(Ctx& c) {
  unsigned before = reports.load();
  int n = 2 + (int)c.r.below(5);
  // the appender the library has when nobody sets another one writes to std::cout
  bool console = c.r.chance(20);
  struct Nowhere : std::streambuf {
    std::streamsize xsputn(const char*, std::streamsize k) override { return k; }
    int overflow(int ch) override { return ch == EOF ? 0 : ch; }
  } nowhere;
  struct Cout { std::streambuf* old = nullptr; ~Cout() { if (old) std::cout.rdbuf(old); } } cout;
  if (console) { cout.old = std::cout.rdbuf(&nowhere); es::utils::Logger::setAppender(std::make_unique<es::utils::ConsoleAppender>()); count("console_cases"); }
  else es::utils::Logger::setAppender(std::make_unique<Count>());
  es::utils::Logger::setLogLevel((es::utils::LogLevel)c.r.below(6));
  struct One { uint64_t seed; Ctx ctx; std::string alone, together; Fresh fresh; uint64_t yieldSeed; };
  std::deque<One> ones;
  bool same = c.r.chance(30);
  uint64_t shared = c.r.next();
  for (int i = 0; i < n; ++i) ones.push_back({same ? shared : c.r.next(), c, "", "", {}, c.r.next()});
  c.phase("alone");
  for (auto& o : ones) {
    play(o.ctx, o.seed, [] {}, &o.alone);
    distinct("nontrivial", o.alone);
  }
  c.phase("together");
  std::atomic<int> ready{0}, running{0}, overlaps{0};
  std::vector<std::thread> ts;
  int density = (int)c.r.below(60);
  for (int i = 0; i < n; ++i)
    ts.emplace_back([&, i] {
      One& o = ones[(size_t)i];
      muted = true;
      Rng y(o.yieldSeed);
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < n) sched_yield();
      if (running.fetch_add(1, std::memory_order_relaxed) > 0) overlaps.fetch_add(1, std::memory_order_relaxed);
      try {
        play(o.ctx, o.seed, [] {}, &o.together, &o.fresh, [&](World& w) {
          w.fdBase = 100;  // as alone: log messages and errors may name descriptors
          w.onCall = [&] {
            if (!y.chance(density)) return;
            if (y.chance(50)) sched_yield();
            else for (volatile int k = 0, m = (int)y.below(2000); k < m; ) k = k + 1;
          };
        });
      } catch (const std::exception& e) {
        o.together += std::string("escaped ") + e.what();
      }
      running.fetch_sub(1, std::memory_order_relaxed);
    });
  for (auto& t : ts) t.join();
  count("thread_runs", (uint64_t)n);
  count("overlaps", (uint64_t)overlaps.load());
  count("messages", printed.exchange(0));
  noLogging();
  CHECK(reports.load() == before, "race", "ThreadSanitizer reported a race in this case");
  for (auto& o : ones)
    if (o.together != o.alone) c.fail("differs:" + keyword(o.alone, o.together), "alone and beside %d other threads:\n%s", n - 1, difference(o.alone, o.together).c_str());
  auto unique = [&](auto get, const char* what) {
    std::map<uint32_t, int> seen;
    for (int i = 0; i < n; ++i)
      for (auto v : get(ones[(size_t)i].fresh)) {
        count("connections");
        auto [it, fresh] = seen.insert({v, i});
        CHECK(fresh, std::string("same-") + what, "threads %d and %d both used the %s %u", it->second, i, what, v);
      }
  };
  unique([](const Fresh& f) { return f.serials; }, "serial-number");
  unique([](const Fresh& f) { return f.o2t; }, "o2t-id");
  unique([](const Fresh& f) { return f.t2o; }, "t2o-id");
  if (c.r.chance(20)) {
    burst(c);
    CHECK(reports.load() == before, "race", "ThreadSanitizer reported a race in this case");
  }
}
