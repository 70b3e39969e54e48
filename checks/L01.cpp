// Log messages: filtered by level, whole, once, in order, to the appender of the moment.
#include "net.h"
#include <iostream>
#include <mutex>
#include <sstream>
#include <thread>

using namespace net;
using es::utils::Logger;
using es::utils::LogLevel;

namespace prop {
const char* const kProperty = "L01";
const uint64_t kQuickCases = 20000, kThoroughCases = 1000000;
const char* const kRule =
    "a case makes, fills (text with any bytes, numbers, manipulators; up to 200 kB), moves through scopes and ends up to 60 loggers of all levels in any order, also by exceptions, while level and appender "
    "change; some end in several threads at once, some go to the console appender, some are the library's own; the oracle is a list of what each appender must have been given; "
    "non-trivial: distinct (message, level, global level)";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"delivered", 5000}, {"filtered", 5000}, {"console", 500}, {"appender_changes", 1000}, {"level_changes", 1000}, {"threaded", 1000}, {"unwound", 100}};
}  // namespace prop

namespace {
struct Rec { LogLevel l; std::string m; bool operator==(const Rec& o) const { return l == o.l && m == o.m; } };
struct Sink { std::vector<Rec> got; std::mutex mu; bool alive = true; };
struct App : es::utils::LogAppenderIf {
  Sink& s;
  explicit App(Sink& k) : s(k) {}
  ~App() override { s.alive = false; }
  void print(LogLevel l, const std::string& m) override {
    std::lock_guard<std::mutex> g(s.mu);
    s.got.push_back({l, m});
  }
};
const char* tag(LogLevel l) {
  static const char* t[] = {"", "[ERROR] ", "[WARNING] ", "[INFO] ", "[DEBUG] ", "[TRACE] "};
  return t[(int)l];
}
struct Held { std::unique_ptr<Logger> p; LogLevel l; std::ostringstream want; };
struct Cout {  // collects std::cout
  std::ostringstream o;
  std::streambuf* old;
  Cout() : old(std::cout.rdbuf(o.rdbuf())) {}
  ~Cout() { std::cout.rdbuf(old); }
};
std::string show(const std::vector<Rec>& v, size_t from) {
  std::string s;
  for (size_t i = from; i < v.size() && i < from + 3; ++i) s += std::to_string((int)v[i].l) + ":'" + v[i].m.substr(0, 60) + "' ";
  return s;
}
// Adds something to the logger and to the expected text
template <class T> void put(Held& h, const T& v, bool chained) {
  if (chained) *h.p << v << "," << v; else *h.p << v;
  if (chained) h.want << v << "," << v; else h.want << v;
}
}  // namespace

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  Cout console;
  std::deque<Sink> sinks;
  std::vector<std::vector<Rec>> want;
  std::string wantConsole;
  int current = -1;   // -1: console
  LogLevel global = (LogLevel)r.below(6);
  auto level = [&](int l) { global = (LogLevel)l; Logger::setLogLevel(global); count("level_changes"); };
  auto append = [&](bool toConsole) {
    count("appender_changes");
    if (toConsole) { current = -1; Logger::setAppender(std::make_unique<es::utils::ConsoleAppender>()); return; }
    sinks.emplace_back();
    want.emplace_back();
    current = (int)sinks.size() - 1;
    Logger::setAppender(std::make_unique<App>(sinks.back()));
  };
  auto ended = [&](LogLevel l, const std::string& m) {
    distinct("nontrivial", hashBytes(m.data(), m.size(), (uint64_t)l * 64 + (uint64_t)global + 7));
    if (global == LogLevel::OFF || l > global) { count("filtered"); return; }
    count("delivered");
    if (current >= 0) want[(size_t)current].push_back({l, m});
    else { count("console"); wantConsole += tag(l) + m + "\n"; }
  };
  auto compare = [&](const char* when) {
    for (size_t i = 0; i < sinks.size(); ++i) {
      auto& g = sinks[i].got;
      auto& w = want[i];
      size_t k = 0;
      while (k < g.size() && k < w.size() && g[k] == w[k]) ++k;
      if (k == g.size() && k == w.size()) continue;
      if (g.size() > w.size() && k == w.size()) c.fail("unwanted-message", "%s: appender %zu also got %s", when, i, show(g, k).c_str());
      if (g.size() < w.size() && k == g.size()) c.fail("lost-message", "%s: appender %zu did not get %s", when, i, show(w, k).c_str());
      if (g[k].m == w[k].m) c.fail("wrong-severity", "%s: appender %zu got %s instead of %s", when, i, show(g, k).c_str(), show(w, k).c_str());
      c.fail("wrong-message", "%s: appender %zu got %s instead of %s", when, i, show(g, k).c_str(), show(w, k).c_str());
    }
    std::string got = console.o.str();
    CHECK(got == wantConsole, "console", "%s: the console got %zu bytes instead of %zu: ...%s", when, got.size(), wantConsole.size(), got.substr(got.size() > 80 ? got.size() - 80 : 0).c_str());
  };
  c.phase("single");
  Logger::setLogLevel(global);
  append(r.chance(15));
  struct Off { ~Off() { noLogging(); } } off;  // before the sinks go
  std::vector<Held> held;
  for (int k = 0, q = (int)r.below(60); k < q; ++k) {
    switch (r.below(12)) {
      case 0: level((int)r.below(6)); break;
      case 1: append(r.chance(15)); break;
      case 2: case 3: case 4: {
        Held h;
        h.l = (LogLevel)(1 + r.below(5));
        h.p = std::make_unique<Logger>(h.l);
        held.push_back(std::move(h));
        break;
      }
      case 5: case 6: case 7:
        if (!held.empty()) {
          Held& h = held[r.below(held.size())];
          bool ch = r.chance(40);
          switch (r.below(8)) {
            case 0: put(h, r.str(r.below(50)), ch); break;
            case 1: put(h, "literal", ch); break;
            case 2: put(h, (int)r.u32(), ch); break;
            case 3: put(h, r.u64(), ch); break;
            case 4: put(h, (double)(int)r.u16() / 8, ch); break;
            case 5: put(h, 'x', ch); break;
            case 6: *h.p << std::hex; h.want << std::hex; put(h, r.u16(), ch); break;
            case 7: if (r.chance(5)) put(h, std::string((size_t)r.below(200000), 'L'), false); else put(h, r.chance(50), ch); break;
          }
        }
        break;
      case 8: case 9:
        if (!held.empty()) {
          size_t i = r.below(held.size());
          LogLevel l = held[i].l;
          held[i].p.reset();
          ended(l, held[i].want.str());
          held.erase(held.begin() + (long)i);
          compare("after a logger ended");
        }
        break;
      case 10: {  // the usual way
        LogLevel l = (LogLevel)(1 + r.below(5));
        auto t = r.str(r.below(30));
        Logger(l) << "value " << t << " " << k;
        ended(l, "value " + t + " " + std::to_string(k));
        break;
      }
      case 11: {  // ended by an exception
        LogLevel l = (LogLevel)(1 + r.below(5));
        try {
          Logger g(l);
          g << "unwinding " << k;
          throw std::runtime_error("x");
        } catch (const std::exception&) {
        }
        ended(l, "unwinding " + std::to_string(k));
        count("unwound");
        break;
      }
    }
  }
  for (auto& h : held) {
    h.p.reset();
    ended(h.l, h.want.str());
  }
  compare("at the end");
  for (int i = 0; i < (int)sinks.size(); ++i) CHECK(sinks[(size_t)i].alive == (i == current), "appender-lifetime", "appender %d is %s", i, sinks[(size_t)i].alive ? "still alive" : "gone");

  // several threads
  if (r.chance(12)) {
    c.phase("threads");
    append(false);
    level((int)r.below(6));
    Sink& s = sinks.back();
    int n = 2 + (int)r.below(3), each = 5 + (int)r.below(30);
    std::vector<std::vector<Rec>> mine((size_t)n);
    std::vector<std::vector<int>> lv((size_t)n);
    for (auto& v : lv) for (int i = 0; i < each; ++i) v.push_back(1 + (int)r.below(5));
    std::vector<std::thread> ts;
    for (int t = 0; t < n; ++t)
      ts.emplace_back([&, t] {
        for (int i = 0; i < each; ++i) {
          Logger g((LogLevel)lv[(size_t)t][(size_t)i]);
          g << "thread " << t;
          if (i % 7 == 0) std::this_thread::yield();
          g << " message " << i;
        }
      });
    for (auto& t : ts) t.join();
    for (int t = 0; t < n; ++t)
      for (int i = 0; i < each; ++i) {
        auto l = (LogLevel)lv[(size_t)t][(size_t)i];
        if (global != LogLevel::OFF && l <= global) mine[(size_t)t].push_back({l, "thread " + std::to_string(t) + " message " + std::to_string(i)});
      }
    std::vector<size_t> at((size_t)n);
    for (auto& g : s.got) {
      bool ok = false;
      for (int t = 0; t < n && !ok; ++t) if (at[(size_t)t] < mine[(size_t)t].size() && mine[(size_t)t][at[(size_t)t]] == g) { at[(size_t)t]++; ok = true; }
      CHECK(ok, "threads-message", "with %d threads: unexpected message '%s' of level %d", n, g.m.c_str(), (int)g.l);
    }
    for (int t = 0; t < n; ++t) CHECK(at[(size_t)t] == mine[(size_t)t].size(), "threads-lost", "with %d threads: thread %d lost messages", n, t);
    count("threaded", s.got.size());
    want.back() = s.got;
  }

  // what the library itself says is filtered in the same way
  if (r.chance(30)) {
    c.phase("library");
    std::vector<std::vector<Rec>> perLevel;
    uint64_t seed = r.next();
    for (int l = 0; l <= 5; ++l) {
      append(false);
      level(l);
      World w(seed);
      sim::Scope scope(w);
      model::Server s("10.1.1.1");
      s.install(w);
      { es::SessionInfo si("10.1.1.1", 44818, std::chrono::milliseconds(500)); }
      perLevel.push_back(sinks.back().got);
      want.back() = sinks.back().got;
    }
    for (int l = 0; l <= 5; ++l) {
      std::vector<Rec> expect;
      for (auto& g : perLevel[5]) if (l != 0 && (int)g.l <= l) expect.push_back(g);
      CHECK(perLevel[(size_t)l] == expect, "library-filter", "at level %d the library logged %zu messages instead of %zu", l, perLevel[(size_t)l].size(), expect.size());
    }
    CHECK(!perLevel[5].empty(), "library-silent", "the library logged nothing at level TRACE");
    count("library_messages", perLevel[5].size());
  }
  compare("finally");
  noLogging();
}
