// The life of a session as the adapter and the caller see it.
#include "net.h"
#include "eip/EncapsPacket.h"

using namespace net;

namespace prop {
const char* const kProperty = "S01";
const uint64_t kQuickCases = 30000, kThoroughCases = 1200000;
const char* const kRule =
    "a case runs sessions against a model adapter in a simulated network: complete lives of 1..4 sessions with 1..3 adapters, failing creations (refused, "
    "unreachable, no answer, error status, answer cut at any byte followed by FIN/RST/silence, failing system calls), replies with foreign handles or error "
    "statuses, connections broken at any point before destruction; with pieces, short reads and writes and signals; non-trivial: distinct histories";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"sessions", 700}, {"failed_creations", 100}, {"bad_replies", 50}, {"broken_sessions", 80}, {"requests", 500}, {"no_replies", 10}};
}  // namespace prop

namespace {
const int kErrs[] = {EPIPE, ECONNRESET, ENOTCONN, EAGAIN, ETIMEDOUT, ENOBUFS, ENETDOWN, EHOSTUNREACH, ENOMEM};

// An encapsulation packet other than send-RR-data (list services, list interfaces, anything), often without data
void rawRequest(Rng& r, const es::SessionInfo& si) {
  es::eip::EncapsPacket p;
  p.setCommand((es::eip::EncapsCommands)(const uint16_t[]){0x04, 0x63, 0x64, 0x70, 0x72}[r.below(5)]);
  p.setSessionHandle(si.getSessionHandle());
  if (r.chance(50)) p.setData(r.bytes(r.below(80)));
  si.sendAndReceive(p);
}

void lives(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  size_t ns = 1 + r.below(3);
  std::vector<std::unique_ptr<model::Server>> servers;
  model::Server decoy("9.9.9.9");
  decoy.install(n.w);
  for (size_t i = 0; i < ns; ++i) {
    servers.push_back(std::make_unique<model::Server>(randomHost(r), r.chance(60) ? 44818 : (uint16_t)(1 + r.below(65535))));
    auto& s = *servers.back();
    if (r.chance(20) && i) s.at = sim::Addr{servers[0]->at.ip, (uint16_t)(servers[0]->at.port ^ 1)};
    if (n.w.listeners.count(s.at)) { servers.pop_back(); continue; }
    s.install(n.w);
    s.delay = (Ns)r.below(50 * MS);
    roughTransport(c, s, 2 * MS);
    s.cip = [&r](const model::Req&) { return randomRep(r, 300); };
    s.other = [&r](uint16_t, const Bytes&) { return r.bytes(r.chance(40) ? 0 : r.below(60)); };
    if (r.chance(30)) { Ns d = (Ns)r.below(300 * MS); n.w.listeners[s.at].plan = [d](int) { return sim::ConnectPlan{sim::ConnectPlan::Accept, d}; }; }
  }
  randomSignals(n.w, r, r.chance(30) ? (int)r.below(20) : 0, 0, 2 * SEC);
  struct S { std::shared_ptr<es::SessionInfo> si; model::Server* srv; int conn; uint32_t handle; int reqs = 0; };
  std::vector<S> open;
  uint64_t hist = 0;
  auto destroy = [&](size_t i) {
    S s = open[i];
    open.erase(open.begin() + (long)i);
    c.phase("destroy");
    auto e = outcome(c, [&] { s.si.reset(); });
    CHECK(e.empty(), "destructor-throws", "%s", e.c_str());
    n.w.advance(10 * MS);
    auto& st = s.srv->conns[s.conn];
    CHECK(st.registers == 1 && st.unregisters == 1, "register-count", "%d register and %d unregister requests", st.registers, st.unregisters);
    CHECK(st.conn->clientClosed, "left-open", "the connection is not closed");
    CHECK(st.requests == s.reqs, "request-count", "%d of %d requests", st.requests, s.reqs);
  };
  for (size_t step = 0, steps = 2 + r.below(14); step < steps; ++step) {
    int what = (int)r.below(10);
    hist = hist * 31 + (uint64_t)what + open.size();
    if (open.empty() || (what < 2 && open.size() < 4)) {
      auto& s = *r.pick(servers);
      s.nextHandle = std::max<uint32_t>(1, (uint32_t)r.edgy(32));
      uint32_t h = s.nextHandle;
      size_t before = n.w.conns.size();
      c.phase("create");
      bool dflt = r.chance(20);
      Ns t0 = n.w.now;
      std::shared_ptr<es::SessionInfo> si;
      auto e = outcome(c, [&] {
        si = dflt ? std::make_shared<es::SessionInfo>(sim::dotted(s.at.ip), s.at.port) : openSession(s, 2 * SEC);
      });
      CHECK(e.empty(), "creation-fails", "creating a session fails after %lld us: %s", (long long)((n.w.now - t0) / US), e.c_str());
      CHECK(n.w.conns.size() == before + 1 && n.w.conns.back()->server == s.at, "connections", "%zu connections were made", n.w.conns.size() - before);
      CHECK(si->getSessionHandle() == h, "handle", "handle %08x instead of %08x", si->getSessionHandle(), h);
      CHECK(si->getRemoteEndPoint() == es::sockets::EndPoint(sim::dotted(s.at.ip), s.at.port), "endpoint", "%s", si->getRemoteEndPoint().toString().c_str());
      auto& st = s.conns[(int)before];
      CHECK(st.registers == 1 && st.requests == 0 && st.unregisters == 0, "register-count", "%d registers", st.registers);
      open.push_back({si, &s, (int)before, h});
      count("sessions");
    } else if (what < 8) {
      auto& s = open[r.below(open.size())];
      c.phase("request");
      int a, b, d;
      auto path = randomPath(r, a, b, d);
      es::MessageRouter mr(r.chance(50));
      bool raw = r.chance(20);
      auto e = outcome(c, [&] {
        if (raw) rawRequest(r, *s.si);
        else mr.sendRequest(s.si, (uint8_t)r.u8(), path, r.bytes(r.below(200)));
      });
      CHECK(e.empty(), "request-fails", "%s", e.c_str());
      s.reqs++;
      CHECK(s.srv->conns[s.conn].requests == s.reqs, "wrong-connection", "the request went elsewhere");
      CHECK(s.srv->lastHandle == s.handle, "request-handle", "handle %08x instead of %08x", s.srv->lastHandle, s.handle);
      CHECK(s.si->getSessionHandle() == s.handle, "handle-changed", "%08x", s.si->getSessionHandle());
      count("requests");
    } else destroy(r.below(open.size()));
    for (auto& s : servers) expectProtocol(c, *s);
  }
  while (!open.empty()) destroy(r.below(open.size()));
  for (auto& s : servers) expectProtocol(c, *s);
  CHECK(decoy.conns.empty(), "stray-connection", "a connection to an address nobody asked for");
  expectClosed(c, n.w, "after all sessions");
  expectNoMisuse(c, n.w);
  expectSane(c, n.w);
  distinct("nontrivial", hist * 7919 + n.w.calls);
  if (c.index < 40) sample("lives: " + std::to_string(n.w.conns.size()) + " sessions with " + std::to_string(servers.size()) + " adapters, " + std::to_string(n.w.calls) + " system calls, " + std::to_string(n.w.signalsHit) + " interruptions");
}

void creation(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  model::Server s(randomHost(r));
  s.install(n.w);
  roughTransport(c, s, MS);
  int kind = (int)r.below(8);
  Ns timeout = (Ns)(50 + r.below(2000)) * MS;
  size_t cut = 0;
  uint32_t status = 0;
  int err = 0;
  auto& plan = n.w.listeners[s.at].plan;
  Ns pd = r.chance(30) ? 0 : (Ns)r.below(20 * MS);
  switch (kind) {
    case 0: plan = [pd](int) { return sim::ConnectPlan{sim::ConnectPlan::Refuse, pd}; }; break;
    case 1: plan = [pd](int) { return sim::ConnectPlan{sim::ConnectPlan::Unreachable, pd}; }; break;
    case 2: plan = [](int) { return sim::ConnectPlan{sim::ConnectPlan::Blackhole, 0}; }; break;
    case 3: {
      status = std::max<uint32_t>(1, (uint32_t)r.edgy(32));
      if (r.chance(60)) status = (const uint32_t[]){1, 2, 3, 0x64, 0x65, 0x69}[r.below(6)];
      bool zero = r.chance(50), empty = r.chance(30);
      s.onRegister = [&, status, zero, empty](model::ConnState&) { return model::packEncaps({0x65, zero ? 0 : r.u32(), status, Bytes(8, 0), 0, empty ? Bytes{} : Bytes{1, 0, 0, 0}}); };
      break;
    }
    case 4: case 5: case 6: {  // an incomplete answer
      cut = r.below(28);
      Bytes full = model::packEncaps({0x65, r.u32() | 1, 0, Bytes(8, 0), 0, {1, 0, 0, 0}});
      full.resize(cut);
      s.onRegister = [&, full](model::ConnState& st) -> std::optional<Bytes> {
        deliverSegmented(r, *st.conn, full, (int)r.below(6), s.delay, MS);
        if (kind == 4) st.conn->finish(s.delay + (Ns)r.below(40 * MS));
        if (kind == 5) st.conn->sendReset(s.delay + (Ns)r.below(40 * MS));
        return std::nullopt;
      };
      break;
    }
    case 7: {  // some system call fails
      err = kErrs[r.below(9)];
      uint64_t nth = 1 + r.below(14);
      n.w.fault = [nth, err](const sim::Call& k) { return k.index == nth && k.op != sim::Op::Close && k.op != sim::Op::Shutdown && k.op != sim::Op::SetOpt ? err : 0; };
      break;
    }
  }
  randomSignals(n.w, r, r.chance(30) ? (int)r.below(6) : 0, 0, timeout);
  c.note("creation kind %d cut %zu status %u err %d timeout %lld ms", kind, cut, status, err, (long long)(timeout / MS));
  c.phase("create");
  std::shared_ptr<es::SessionInfo> si;
  auto e = outcome(c, [&] { si = openSession(s, timeout); });
  if (kind == 7 && n.w.faultsInjected == 0) CHECK(e.empty(), "creation-fails", "%s", e.c_str());
  else if (kind == 7 && e.empty()) {
    CHECK(si->getSessionHandle() == s.conns[0].handle, "handle", "%08x", si->getSessionHandle());
  }
  else CHECK(!e.empty(), "failure-not-reported", "kind %d: a session was created (status %08x, %zu of 28 bytes)", kind, status, cut);
  if (!e.empty()) {
    count("failed_creations");
    distinct("failures", e.substr(0, 60));
    CHECK(n.w.openCount() == 0, "left-open", "%zu descriptors are open after a failed creation (kind %d, %s)", n.w.openCount(), kind, e.c_str());
    for (auto& [k, st] : s.conns) CHECK(st.registers <= 1 && st.conn->clientClosed, "left-connected", "%d registers, closed %d", st.registers, st.conn->clientClosed);
  }
  si.reset();
  expectClosed(c, n.w, "after creation");
  expectNoMisuse(c, n.w);
  expectSane(c, n.w);
  distinct("nontrivial", (uint64_t)kind * 1000003 + cut * 131 + status + (uint64_t)err * 17 + n.w.calls * 7919);
}

void badReply(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  model::Server s(randomHost(r));
  s.install(n.w);
  s.nextHandle = std::max<uint32_t>(1, (uint32_t)r.edgy(32));
  uint32_t h = s.nextHandle;
  roughTransport(c, s, MS);
  s.cip = [&r](const model::Req&) { return randomRep(r, 100); };
  s.other = [&r](uint16_t, const Bytes&) { return r.bytes(r.chance(50) ? 0 : r.below(60)); };
  auto si = openSession(s, SEC);
  int bad = (int)r.below(4), reqs = 1 + (int)r.below(5);
  bool useStatus = r.chance(50);
  uint32_t val = 0;
  int answers = 0;
  bool strip = r.chance(20);  // an answer without data
  bool silent = r.chance(15);  // or no answer at all
  if (silent) s.deliver = [&, inner = s.deliver](sim::Conn& conn, Bytes b, int i) {
    if (i >= 0 && answers++ == bad) return;
    if (inner) inner(conn, b, i); else conn.send(b, s.delay);
  };
  s.mutate = [&](Bytes& b, int i, model::ConnState&) {
    if (silent || i < 0 || answers++ != bad) return;
    if (strip) { b.resize(24); b[2] = b[3] = 0; }
    if (useStatus) { val = r.chance(60) ? 1 + (uint32_t)r.below(0x70) : std::max<uint32_t>(1, (uint32_t)r.edgy(32)); memcpy(&b[8], &val, 4); }
    else {
      val = r.chance(30) ? 0 : r.chance(40) ? h ^ (1u << r.below(32)) : r.u32();
      if (val == h) val = ~h;
      memcpy(&b[4], &val, 4);
    }
  };
  for (int i = 0; i < reqs; ++i) {
    c.phase("request");
    bool raw = r.chance(40);
    auto e = outcome(c, [&] {
      if (raw) rawRequest(r, *si);
      else es::MessageRouter().sendRequest(si, 1, es::cip::EPath(1, 1), {});
    });
    if (i == bad) { CHECK(!e.empty(), useStatus ? "error-status-accepted" : "foreign-handle-accepted", "a reply with %s %08x (session %08x) was accepted", silent ? "nothing at all" : useStatus ? "status" : "handle", val, h); count(silent ? "no_replies" : "bad_replies"); }
    else CHECK(e.empty(), "request-fails", "%s", e.c_str());
    CHECK(s.lastHandle == h, "request-handle", "%08x", s.lastHandle);
    CHECK(si->getSessionHandle() == h, "handle-changed", "%08x", si->getSessionHandle());
  }
  c.phase("destroy");
  auto e = outcome(c, [&] { si.reset(); });
  CHECK(e.empty(), "destructor-throws", "%s", e.c_str());
  CHECK(s.conns[0].unregisters == 1, "register-count", "%d unregister requests", s.conns[0].unregisters);
  expectProtocol(c, s);
  expectClosed(c, n.w, "after the session");
  expectNoMisuse(c, n.w);
  expectSane(c, n.w);
  distinct("nontrivial", (uint64_t)val * 31 + (uint64_t)bad * 7 + (uint64_t)useStatus + ((uint64_t)h << 32));
}

void broken(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  model::Server s(randomHost(r));
  s.install(n.w);
  roughTransport(c, s, MS);
  s.cip = [&r](const model::Req&) { return randomRep(r, 100); };
  auto si = openSession(s, 500 * MS);
  uint32_t h = si->getSessionHandle();
  int kind = (int)r.below(6), reqs = (int)r.below(4), err = kErrs[r.below(9)];
  bool failed = false;
  c.note("broken kind %d after %d requests, error %d", kind, reqs, err);
  auto request = [&] {
    c.phase("request");
    auto e = outcome(c, [&] { es::MessageRouter().sendRequest(si, 1, es::cip::EPath(1, 1), {}); });
    failed |= !e.empty();
    return e;
  };
  for (int i = 0; i < reqs; ++i) CHECK(request().empty(), "request-fails", "a request on a healthy connection failed");
  auto& st = s.conns[0];
  auto conn = n.w.conns[0];
  switch (kind) {
    case 0: conn->finish((Ns)r.below(3 * MS)); break;
    case 1: conn->sendReset((Ns)r.below(3 * MS)); break;
    case 2: conn->closeFully((Ns)r.below(3 * MS)); break;
    case 3: n.w.fault = [err](const sim::Call& k) { return k.op == sim::Op::Send ? err : 0; }; break;
    case 4: n.w.fault = [err, &r](const sim::Call& k) { return (k.op == sim::Op::Send || k.op == sim::Op::Recv || k.op == sim::Op::Shutdown || k.op == sim::Op::Close) && r.chance(50) ? err : 0; }; break;
    case 5: {  // only interruptions: nothing may get lost
      int left = (int)r.below(5);
      n.w.fault = [left](const sim::Call& k) mutable { return (k.op == sim::Op::Send || k.op == sim::Op::Recv) && left-- > 0 ? EINTR : 0; };
      break;
    }
  }
  if (r.chance(60)) n.w.advance((Ns)r.below(8 * MS));
  int more = (int)r.below(3);
  for (int i = 0; i < more; ++i) {
    auto e = request();
    if (kind == 5) CHECK(e.empty(), "request-fails", "interrupted calls made a request fail: %s", e.c_str());
    if (kind == 3) CHECK(!e.empty(), "failure-not-reported", "a request succeeded although nothing could be sent");
    if (r.chance(40)) n.w.advance((Ns)r.below(3 * MS));
  }
  CHECK(si->getSessionHandle() == h, "handle-changed", "%08x", si->getSessionHandle());
  c.phase("destroy");
  auto e = outcome(c, [&] { si.reset(); });
  CHECK(e.empty(), "destructor-throws", "%s", e.c_str());
  n.w.fault = nullptr;
  n.w.advance(5 * MS);
  CHECK(st.unregisters <= 1, "register-count", "%d unregister requests", st.unregisters);
  if (kind == 5) { CHECK(st.unregisters == 1, "register-count", "interrupted calls: %d unregister requests", st.unregisters); expectProtocol(c, s); }
  expectClosed(c, n.w, "after a broken session");
  expectNoMisuse(c, n.w);
  expectSane(c, n.w);
  count("broken_sessions");
  distinct("nontrivial", (uint64_t)kind * 65537 + (uint64_t)reqs * 257 + (uint64_t)err * 17 + (uint64_t)more + n.w.calls * 1000003 + (failed ? 5 : 0));
}
}  // namespace

void prop::runCase(Ctx& c) {
  switch (c.r.below(10)) {
    case 0: case 1: case 2: case 3: lives(c); break;
    case 4: case 5: case 6: creation(c); break;
    case 7: badReply(c); break;
    default: broken(c); break;
  }
}
