// What forward open and forward close requests say.
#include "io.h"

using namespace io;

namespace prop {
const char* const kProperty = "I01";
const uint64_t kQuickCases = 12000, kThoroughCases = 600000;
const char* const kRule =
    "a case opens 1-12 I/O connections with random parameters (small and large, all connection types, transport classes, real-time formats, sizes, ids, paths of any even length) "
    "through 1-3 managers and sessions, closing some in between (twice, with refusals), and compares every request field by field with an independent encoder; one case in 4000 "
    "keeps connections open while another 66000 are opened and closed; non-trivial: distinct (type, class, formats, large, sizes)";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"opened", 2000}, {"closed", 500}, {"refused", 50}, {"large", 200}, {"close_refused", 20}, {"long_paths", 50}};
}  // namespace prop

namespace {
struct Have {
  Spec s;
  es::IOConnection::WPtr w;
  size_t manager, target;
  uint16_t serial;
  uint32_t o2t, t2o;
  uint32_t reqO2t, reqT2o;
};

// A stand-in for the adapter that is cheap enough for very many connections
struct Stub : es::MessageRouter {
  std::vector<model::FwdOpen> opens;
  Bytes last;
  uint8_t service = 0;
  uint16_t lastSerial = 0;
  uint32_t id = 1;
  Bytes answer(uint8_t svc, const Bytes& data) {
    service = svc;
    last = data;
    if (svc == 0x4E) { lastSerial = (uint16_t)(data[2] | data[3] << 8); return {0xCE, 0, 0, 0}; }
    model::Req q;
    q.service = svc;
    q.data = data;
    auto f = model::parseFwdOpen(q);
    lastSerial = f.serial;
    Bytes b = {(uint8_t)(svc | 0x80), 0, 0, 0};
    auto r = model::fwdOpenReply(f.o2tId ? f.o2tId : id, f.t2oId ? f.t2oId : id, f.serial, f.vendor, f.origSerial, f.o2tRpi, f.t2oRpi);
    id++;
    b.insert(b.end(), r.begin(), r.end());
    return b;
  }
  es::cip::MessageRouterResponse reply(uint8_t svc, const Bytes& data) {
    es::cip::MessageRouterResponse m;
    m.expand(answer(svc, data));
    return m;
  }
  es::cip::MessageRouterResponse sendRequest(es::SessionInfoIf::SPtr, es::cip::CipUsint svc, const es::cip::EPath&, const Bytes& data, const std::vector<es::eip::CommonPacketItem>&) const override { return const_cast<Stub*>(this)->reply(svc, data); }
  es::cip::MessageRouterResponse sendRequest(es::SessionInfoIf::SPtr, es::cip::CipUsint svc, const es::cip::EPath&, const Bytes& data) const override { return const_cast<Stub*>(this)->reply(svc, data); }
  es::cip::MessageRouterResponse sendRequest(es::SessionInfoIf::SPtr, es::cip::CipUsint svc, const es::cip::EPath&) const override { return const_cast<Stub*>(this)->reply(svc, {}); }
};
struct NoSession : es::SessionInfoIf {
  es::sockets::EndPoint ep{"10.1.2.3", 44818};
  es::eip::EncapsPacket sendAndReceive(const es::eip::EncapsPacket&) const override { throw std::runtime_error("unused"); }
  es::cip::CipUdint getSessionHandle() const override { return 1; }
  es::sockets::EndPoint getRemoteEndPoint() const override { return ep; }
};

void longCase(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  noLogging();
  n.w.budget = 20000000;
  auto stub = std::make_shared<Stub>();
  auto si = std::make_shared<NoSession>();
  es::ConnectionManager m(stub);
  std::map<uint16_t, es::IOConnection::WPtr> open;
  size_t total = 66000 + r.below(3000);
  c.phase("many-connections");
  for (size_t i = 0; i < total; ++i) {
    Spec s;
    s.t2oType = (int)r.below(3);
    s.path = model::path8(4, 1);
    auto w = m.forwardOpen(si, s.params());
    uint16_t serial = stub->lastSerial;
    CHECK(!w.expired(), "many-open-fails", "connection %zu", i);
    CHECK(!open.count(serial), "serial-reused", "open connections already use serial number %u (connection %zu of the process's case)", serial, i);
    bool keep = open.size() < 12 && (i < 3 || r.chance(1));
    if (keep) open[serial] = w;
    else {
      m.forwardClose(si, w);
      CHECK(stub->service == 0x4E && stub->lastSerial == serial, "close-serial", "the request to close %u says %u", serial, stub->lastSerial);
    }
    if (open.size() == 12 && r.below(3000) == 0) {
      auto it = open.begin();
      std::advance(it, (long)r.below(open.size()));
      m.forwardClose(si, it->second);
      CHECK(stub->lastSerial == it->first, "close-serial", "the request to close %u says %u", it->first, stub->lastSerial);
      open.erase(it);
    }
  }
  count("opened", total);
  count("wrapped_counters");
  for (auto& [serial, w] : open) CHECK(!w.expired(), "lost", "connection %u is gone", serial);
}
}  // namespace

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  if (c.index % 4001 == 17) return longCase(c);
  Net n(c);
  std::vector<std::unique_ptr<Target>> targets;
  std::vector<std::shared_ptr<es::SessionInfo>> si;
  size_t nt = 1 + r.below(2);
  // what the next answer is
  int status = 0, closeStatus = 0;
  std::vector<uint16_t> words;
  bool item = false;
  for (size_t i = 0; i < nt; ++i) {
    auto t = std::make_unique<Target>(randomHost(r));
    while (i && t->at.ip == targets[0]->at.ip) t->at = sim::addr(randomHost(r), 44818);
    t->nextId = 0x100000 + (uint32_t)i * 0x10000;
    t->install(n.w);
    t->setup();
    t->plan = [&](Open& o, model::Rep& rep) {
      rep.status = (uint8_t)status;
      rep.addl = words;
      if (item) rep.extra.push_back(model::sockaddrItem(0x8000, Addr{r.chance(30) ? 0 : r.u32(), r.u16()}));
      (void)o;
    };
    t->closePlan = [&](model::Rep& rep) { rep.status = (uint8_t)closeStatus; rep.addl = words; if (closeStatus && r.chance(50)) rep.data.clear(); };
    if (r.chance(10)) roughTransport(c, *t, 50 * US);
    targets.push_back(std::move(t));
    si.push_back(openSession(*targets[i], 20 * SEC));
  }
  std::vector<std::unique_ptr<es::ConnectionManager>> ms;
  for (size_t i = 0, k = 1 + r.below(3); i < k; ++i) ms.push_back(std::make_unique<es::ConnectionManager>());
  std::vector<Have> open, closed;
  auto counted = [&](size_t m) { size_t k = 0; for (auto& h : open) k += h.manager == m; return k; };
  for (int step = 0, steps = 1 + (int)r.below(12); step < steps; ++step) {
    dirtyStack(r.u8());
    if (open.empty() || r.chance(65)) {
      size_t m = r.below(ms.size()), ti = r.below(targets.size());
      auto& t = *targets[ti];
      Spec s = randomSpec(r, 60000);
      if (s.large && r.chance(20)) { s.o2tSize = (uint32_t)(65535 - 6 - r.below(10)); s.t2oSize = (uint32_t)(65535 - 6 - r.below(10)); }
      if (s.large && r.chance(10)) s.path = r.bytes(2 * r.below(r.chance(50) ? 128 : 256));
      if (!s.large && r.chance(20)) s.path = r.bytes(2 * r.below(r.chance(50) ? 128 : 256));
      if (s.path.size() > 60) count("long_paths");
      s.o2tId = r.chance(50) ? 0 : (uint32_t)(0x40000000u + t.opens.size() * 16 + ti);
      s.t2oId = r.chance(50) ? 0 : (uint32_t)(0x20000000u + t.opens.size() * 16 + ti);
      // where the library chooses, what the caller left in its parameters means nothing, the same for every connection too
      if (s.o2tType == 1 && r.chance(40)) s.o2tId = 0x41000000u;
      if (s.t2oType == 2 && r.chance(40)) s.t2oId = 0x21000000u;
      s.o2tRpi = r.chance(50) ? (uint32_t)r.edgy(32) : 1000 + (uint32_t)r.below(1000000);
      s.t2oRpi = r.chance(50) ? (uint32_t)r.edgy(32) : 1000 + (uint32_t)r.below(1000000);
      status = r.chance(15) ? 1 + (int)r.below(255) : 0;
      words.clear();
      if (status && r.chance(60)) for (size_t i = 0, k = r.below(4); i < k; ++i) words.push_back(r.u16());
      item = r.chance(25);
      t.appReply = r.bytes(r.chance(70) ? 0 : 2 * r.below(r.chance(80) ? 12 : 256));
      if (!t.appReply.empty() && !status) count("application_replies");
      size_t before = t.opens.size(), reqs = t.requests.size();
      c.note("open through manager %zu at target %zu: large %d types %d/%d trigger %02x formats %d/%d sizes %u/%u path %zu status %d", m, ti, s.large, s.o2tType, s.t2oType, s.trigger, s.o2tRtf, s.t2oRtf, s.o2tSize, s.t2oSize,
             s.path.size(), status);
      auto p = s.params();
      es::IOConnection::WPtr w;
      c.phase("open");
      auto e = outcome(c, [&] { w = s.large && r.chance(50) ? ms[m]->largeForwardOpen(si[ti], p) : ms[m]->forwardOpen(si[ti], p, s.large); });
      CHECK(e.empty(), "open-throws", "%s", e.c_str());
      CHECK(t.bad.empty(), t.bad, "the target: %s", t.bad.c_str());
      CHECK(t.requests.size() == reqs + 1 && t.opens.size() == before + 1, "request-count", "%zu requests, %zu forward opens", t.requests.size() - reqs, t.opens.size() - before);
      auto& f = t.opens.back().fo;
      auto& q = t.requests.back();
      CHECK(f.large == s.large && q.service == (s.large ? 0x5B : 0x54), "service", "service %02x", q.service);
      CHECK(f.tick == s.tick && f.ticks == s.ticks, "timing", "%u/%u instead of %u/%u", f.tick, f.ticks, s.tick, s.ticks);
      CHECK(f.vendor == s.vendor && f.origSerial == s.serial, "originator", "%u/%u instead of %u/%u", f.vendor, f.origSerial, s.vendor, s.serial);
      CHECK(f.mult == s.mult, "multiplier", "%u instead of %u", f.mult, s.mult);
      CHECK(f.reserved == Bytes(3, 0), "reserved", "%s", hex(f.reserved).c_str());
      CHECK(f.o2tRpi == s.o2tRpi && f.t2oRpi == s.t2oRpi, "rpi", "%u/%u instead of %u/%u", f.o2tRpi, f.t2oRpi, s.o2tRpi, s.t2oRpi);
      CHECK(f.trigger == s.trigger, "trigger", "%02x instead of %02x", f.trigger, s.trigger);
      CHECK(f.o2tNcp == s.o2tWord(s.o2tExtra()), "o2t-parameters", "%x instead of %x", f.o2tNcp, s.o2tWord(s.o2tExtra()));
      CHECK(f.t2oNcp == s.t2oWord(s.t2oExtra()), "t2o-parameters", "%x instead of %x", f.t2oNcp, s.t2oWord(s.t2oExtra()));
      CHECK(f.pathWords * 2u == s.path.size() && f.path == s.path, "path", "%u words, %s instead of %s", f.pathWords, hex(f.path, 300).c_str(), hex(s.path, 300).c_str());
      if (s.o2tType != 1) CHECK(f.o2tId == s.o2tId, "o2t-id", "%x instead of %x", f.o2tId, s.o2tId);
      if (s.t2oType != 2) CHECK(f.t2oId == s.t2oId, "t2o-id", "%x instead of %x", f.t2oId, s.t2oId);
      for (auto& o : open) {
        CHECK(o.serial != f.serial, "serial-reused", "%u", f.serial);
        if (s.o2tType == 1 && o.s.o2tType == 1) CHECK(o.reqO2t != f.o2tId, "o2t-id-reused", "%x", f.o2tId);
        if (s.t2oType == 2 && o.s.t2oType == 2) CHECK(o.reqT2o != f.t2oId, "t2o-id-reused", "%x", f.t2oId);
      }
      count("opened");
      if (s.large) count("large");
      distinct("nontrivial", (uint64_t)(s.o2tType * 3 + s.t2oType) << 40 | (uint64_t)s.trigger << 48 | (uint64_t)(s.o2tRtf * 4 + s.t2oRtf * 2 + s.large) << 32 | (uint64_t)(s.o2tSize * 31 + s.t2oSize));
      if (status) {
        count("refused");
        CHECK(w.expired(), "refused-handle", "status %02x gave a connection", status);
      } else {
        CHECK(!w.expired(), "no-handle", "the connection was not given");
        open.push_back({s, w, m, ti, f.serial, t.opens.back().o2t, t.opens.back().t2o, f.o2tId, f.t2oId});
      }
    } else {
      bool again = !closed.empty() && r.chance(15);
      size_t k = again ? r.below(closed.size()) : r.below(open.size());
      Have x = again ? closed[k] : open[k];
      auto& t = *targets[x.target];
      closeStatus = r.chance(20) ? 1 + (int)r.below(255) : 0;
      words.clear();
      if (closeStatus && r.chance(50)) words.push_back(r.u16());
      size_t before = t.closes.size(), reqs = t.requests.size();
      c.note("close %s connection %u with status %d", again ? "again the" : "the", x.serial, closeStatus);
      c.phase("close");
      auto e = outcome(c, [&] { ms[x.manager]->forwardClose(si[x.target], x.w); });
      CHECK(e.empty(), "close-throws", "%s", e.c_str());
      CHECK(t.bad.empty(), t.bad, "the target: %s", t.bad.c_str());
      if (again) {
        CHECK(t.requests.size() == reqs, "closed-twice", "%zu requests", t.requests.size() - reqs);
        count("close_again");
      } else {
        CHECK(t.closes.size() == before + 1 && t.requests.size() == reqs + 1, "close-count", "%zu requests, %zu forward closes", t.requests.size() - reqs, t.closes.size() - before);
        auto& f = t.closes.back();
        CHECK(f.serial == x.serial, "close-serial", "%u instead of %u", f.serial, x.serial);
        CHECK(f.vendor == x.s.vendor && f.origSerial == x.s.serial, "close-originator", "%u/%u instead of %u/%u", f.vendor, f.origSerial, x.s.vendor, x.s.serial);
        CHECK(f.pathWords * 2u == x.s.path.size() && f.path == x.s.path, "close-path", "%u words, %s instead of %s", f.pathWords, hex(f.path, 300).c_str(), hex(x.s.path, 300).c_str());
        CHECK(f.reserved == 0, "close-reserved", "%u", f.reserved);
        open.erase(open.begin() + (long)k);
        closed.push_back(x);
        count("closed");
        if (closeStatus) count("close_refused");
        CHECK(x.w.expired(), "close-keeps-handle", "the handle is still valid");
      }
    }
    for (size_t i = 0; i < ms.size(); ++i) CHECK(ms[i]->hasOpenConnections() == (counted(i) > 0), "has-open", "manager %zu says %d with %zu open", i, ms[i]->hasOpenConnections(), counted(i));
    for (auto& o : open) CHECK(!o.w.expired(), "lost", "connection %u is gone", o.serial);
  }
  for (auto& t : targets) expectProtocol(c, *t);
  c.phase("destroy");
  ms.clear();
  for (auto& o : open) CHECK(o.w.expired(), "survives-manager", "connection %u", o.serial);
  si.clear();
  expectClosed(c, n.w, "at the end");
  expectSane(c, n.w);
}
