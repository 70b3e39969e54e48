// What the checks that run the library over the simulated network share.
#pragma once
#include <cerrno>
#include <cstring>
#include <memory>
#include "adapter.h"
#include "prop.h"
#include "sim.h"
#include "SessionInfo.h"
#include "MessageRouter.h"
#include "utils/Logger.h"

namespace net {
using namespace prop;
using sim::Addr;
using sim::MS;
using sim::Ns;
using sim::SEC;
using sim::US;
using sim::World;
namespace es = eipScanner;

// Swallows messages and, like any code that makes system calls, leaves some error number behind
struct DirtyAppender : es::utils::LogAppenderIf {
  int err;
  explicit DirtyAppender(int e) : err(e) {}
  void print(es::utils::LogLevel, const std::string& m) override {
    static thread_local uint64_t sink;
    sink += m.size();
    errno = err;
  }
};
inline void randomLogging(Rng& r) {
  static const int errs[] = {0, EAGAIN, EINTR, EBADF, ENOTTY, EINPROGRESS, EPIPE};
  es::utils::Logger::setAppender(std::make_unique<DirtyAppender>(errs[r.below(7)]));
  es::utils::Logger::setLogLevel((es::utils::LogLevel)(r.chance(40) ? 0 : r.below(6)));
}
inline void noLogging() {
  es::utils::Logger::setAppender(std::make_unique<DirtyAppender>(0));
  es::utils::Logger::setLogLevel(es::utils::LogLevel::OFF);
}

struct Net {
  World w;
  sim::Scope scope;
  explicit Net(Ctx& c) : w(c.r.next()), scope(w) {
    randomLogging(c.r);
    if (c.r.chance(30)) w.callCost = (Ns)c.r.below(20000);
  }
};

inline std::string randomHost(Rng& r) {
  return std::to_string(1 + r.below(222)) + "." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + "." + std::to_string(1 + r.below(254));
}
// Random signals that interrupt blocked calls
inline void randomSignals(World& w, Rng& r, int n, Ns from, Ns to) {
  for (int i = 0; i < n; ++i) w.signals.insert(from + (Ns)r.below((uint64_t)(to - from)));
}
// What must hold after the objects are gone
inline void expectClosed(Ctx& c, World& w, const char* what) {
  c.check(w.openCount() == 0, "left-open", "%s: %zu descriptors are still open", what, w.openCount());
}
inline void expectSane(Ctx& c, World& w) {
  count("system_calls", w.calls);
  count("interruptions", w.signalsHit);
  count("faults", w.faultsInjected);
  c.check(!w.sigpipe, "sigpipe", "a call would have raised SIGPIPE and ended the process");
  c.check(!w.stuck, "blocks-forever", "%s would block forever", w.stuckWhere.c_str());
}
inline void expectNoMisuse(Ctx& c, World& w) {
  c.check(w.misuse.empty(), w.misuse.empty() ? "" : "descriptor-" + w.misuse[0].substr(0, w.misuse[0].find(':')), "%s", w.misuse.empty() ? "" : w.misuse[0].c_str());
}
inline void expectProtocol(Ctx& c, const model::Server& s) {
  c.check(s.protoErrors.empty(), s.protoErrors.empty() ? "" : "protocol-" + s.protoErrors[0], "the adapter received: %s", s.protoErrors.empty() ? "" : s.protoErrors[0].c_str());
}
inline std::shared_ptr<es::SessionInfo> openSession(const model::Server& s, Ns timeout) {
  return std::make_shared<es::SessionInfo>(sim::dotted(s.at.ip), s.at.port, std::chrono::milliseconds(timeout / MS));
}
// Sends bytes in pieces; the first arrives after `first`, the others after gaps of less than maxGap
inline void deliverSegmented(Rng& r, sim::Conn& conn, const Bytes& b, int style, Ns first, Ns maxGap) {
  Ns t = first;
  bool firstPiece = true;
  for (auto& [gap, piece] : model::segment(r, b, style, maxGap)) {
    if (!firstPiece) t += gap;
    conn.send(piece, t);
    firstPiece = false;
  }
}
// A transport that is as unfriendly as TCP may be without losing anything: replies in pieces, short reads and writes
inline void roughTransport(Ctx& c, model::Server& s, Ns maxGap) {
  Rng* r = &c.r;
  if (r->chance(60)) {
    int fixed = (int)r->below(7);
    s.deliver = [r, fixed, maxGap, &s](sim::Conn& conn, Bytes b, int) { deliverSegmented(*r, conn, b, fixed == 6 ? (int)r->below(6) : fixed, s.delay, maxGap); };
  }
  bool acc = r->chance(40), chop = r->chance(40);
  size_t most = r->chance(30) ? 1 : 1 + r->below(60);
  int block = (int)r->below(30);
  s.opened = [=](sim::Conn& conn) {
    if (acc) conn.accept = [=](size_t n) -> size_t { return r->chance(block) ? 0 : 1 + r->below(std::min(n, most)); };
    if (chop) conn.chop = [=](size_t n) -> size_t { return 1 + r->below(std::min(n, most)); };
  };
}
// Any answer an adapter may give
inline model::Rep randomRep(Rng& r, size_t maxData, int errors = 30) {
  model::Rep p;
  if (r.chance(errors)) {
    p.status = (uint8_t)(r.chance(70) ? 1 + r.below(0x2A) : 1 + r.below(255));
    if (r.chance(60)) for (size_t i = 0, n = r.chance(10) ? r.below(256) : r.below(5); i < n; ++i) p.addl.push_back(r.u16());
  } else if (r.chance(5)) for (size_t i = 0, n = r.below(4); i < n; ++i) p.addl.push_back(r.chance(50) ? 0 : r.u16());
  if (r.chance(p.status ? 30 : 85)) p.data = r.bytes(r.chance(70) ? r.below(std::min<size_t>(maxData, 40) + 1) : r.below(maxData + 1));
  return p;
}
inline es::cip::EPath randomPath(Rng& r, int& cls, int& inst, int& attr, int bits = 16) {
  cls = (int)r.edgy(bits);
  inst = r.chance(80) ? (int)r.edgy(bits) : -1;
  attr = inst >= 0 && r.chance(60) ? (int)r.edgy(bits) : -1;
  if (attr >= 0) return es::cip::EPath((uint16_t)cls, (uint16_t)inst, (uint16_t)attr);
  if (inst >= 0) return es::cip::EPath((uint16_t)cls, (uint16_t)inst);
  return es::cip::EPath((uint16_t)cls);
}
}  // namespace net
