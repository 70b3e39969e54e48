// The same script with different memory contents beforehand gives the same observations.
#include "scenario.h"
#ifdef SIM_VALGRIND
#include <valgrind/memcheck.h>
#endif

using namespace scen;

namespace prop {
const char* const kProperty = "M02";
const uint64_t kQuickCases = 2400, kThoroughCases = 120000;
const char* const kRule =
    "a case plays a seeded script of explicit operations, I/O connections, discovery and freshly made objects, with damaged answers, silence, resets, rough transport and signals, "
    "several times in one process with fresh heap memory and the unused stack filled with different bytes, and compares everything observed: bytes sent, values, exceptions, callbacks, "
    "log messages, system calls, times; non-trivial: distinct transcripts";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"ops_returned", 300}, {"ops_threw", 100}, {"io_polls", 1000}, {"discoveries", 100}, {"log_lines", 5000}};
}  // namespace prop

void prop::runCase(Ctx& c) {
  uint64_t seed = c.r.next();
#ifdef SIM_VALGRIND
  const int runs = 1;
#else
  const int runs = 3;
#endif
  std::string first;
  uint8_t fills[3] = {0, 0xFF, (uint8_t)(1 + c.r.below(254))};
  int level = c.r.chance(80) ? 5 : (int)c.r.below(6);
  for (int k = 0; k < runs; ++k) {
    std::string t;
    uint8_t fill = fills[k];
    heapFill = fill;
    es::utils::Logger::setAppender(std::make_unique<Recorder>(&t, 0));
    es::utils::Logger::setLogLevel((es::utils::LogLevel)level);
    play(c, seed, [&] { dirtyStack(fill); }, &t);
    es::utils::Logger::setAppender(std::make_unique<Recorder>(nullptr, 0));
    if (k == 0) {
      first = t;
      size_t lines = 0;
      for (size_t p = t.find("log "); p != std::string::npos; p = t.find("\nlog ", p + 1)) ++lines;
      count("log_lines", lines);
      count("transcript_bytes", t.size());
      distinct("nontrivial", t);
      // compared with the other builds of the same code
      distinct("transcripts", c.index << 40 | hashBytes(t.data(), t.size()) >> 24);
      if (c.single) fprintf(stderr, "%s", t.c_str());
#ifdef SIM_VALGRIND
      // also what was observed must have been defined
      if (VALGRIND_CHECK_MEM_IS_DEFINED(t.data(), t.size())) c.fail("undefined-observation", "part of the transcript came from uninitialised memory");
#endif
    } else if (t != first)
      c.fail("differs:" + keyword(first, t), "with memory filled with %02x and %02x beforehand:\n%s", fills[0], fill, difference(first, t).c_str());
    count("comparisons", k > 0);
  }
#ifdef SIM_VALGRIND
  static unsigned before = 0;
  unsigned now = VALGRIND_COUNT_ERRORS;
  if (now != before) { before = now; c.fail("valgrind", "memcheck reported errors in this case"); }
#endif
}
