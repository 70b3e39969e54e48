// The same script gives the same results whatever the log level and whatever the appender does.
#include "scenario.h"
#include <fcntl.h>
#include <unistd.h>

using namespace scen;

namespace prop {
const char* const kProperty = "L02";
const uint64_t kQuickCases = 8000, kThoroughCases = 400000;
const char* const kRule =
    "a case plays a seeded script (explicit operations, I/O connections, discovery; damaged answers, silence, resets, rough transport, signals) once with logging off and three times with "
    "random levels and appenders - which set errno to any value, make failing system calls, allocate, or log through std streams - and compares everything but the log; "
    "non-trivial: distinct transcripts";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"ops_returned", 1000}, {"ops_threw", 300}, {"io_polls", 2000}, {"discoveries", 200}, {"messages", 20000}, {"failing_calls", 100}};
}  // namespace prop

namespace {
uint64_t printed, failing;
struct Nasty : es::utils::LogAppenderIf {
  int kind, err;
  std::string last;
  Nasty(int k, int e) : kind(k), err(e) {}
  void print(es::utils::LogLevel, const std::string& m) override {
    ++printed;
    switch (kind) {
      case 0: break;
      case 1: errno = err; break;
      case 2: ++failing; if (open("/nonexistent/x", O_RDONLY) >= 0) abort(); break;       // ENOENT
      case 3: { last = m; std::vector<std::string> v(20, m); last += v.back(); errno = 0; break; }
      case 4: { std::ostringstream o; o << std::hex << m << 17; last = o.str(); ++failing; if (access("/nonexistent", 0) == 0) abort(); break; }
      case 5: errno = (int)(printed % 134); break;
    }
  }
};
}  // namespace

void prop::runCase(Ctx& c) {
  uint64_t seed = c.r.next();
  std::string first;
  static const int errs[] = {0, EAGAIN, EINTR, EBADF, ENOTTY, EINPROGRESS, EPIPE, ETIMEDOUT, ECONNRESET, ENOENT, EINVAL, EALREADY, EISCONN};
  for (int k = 0; k < 4; ++k) {
    std::string t;
    int level = k ? 1 + (int)c.r.below(5) : 0, kind = (int)c.r.below(6), err = errs[c.r.below(13)];
    if (k == 1) level = 5;
    printed = failing = 0;
    es::utils::Logger::setAppender(std::make_unique<Nasty>(kind, err));
    es::utils::Logger::setLogLevel((es::utils::LogLevel)level);
    errno = k ? err : 0;
    play(c, seed, [] {}, &t);
    noLogging();
    count("messages", printed);
    count("failing_calls", failing);
    if (k == 0) {
      first = t;
      distinct("nontrivial", t);
      if (c.single) fprintf(stderr, "%s", t.c_str());
    } else if (t != first)
      c.fail("differs:" + keyword(first, t), "with logging off and with level %d, appender %d, errno %d:\n%s", level, kind, err, difference(first, t).c_str());
    distinct("configurations", (uint64_t)(level * 1000 + kind * 100) + (uint64_t)(kind == 1 ? err : 0));
  }
}
