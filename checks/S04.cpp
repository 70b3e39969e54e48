// Requests and replies are paired, on any number of sessions, whatever happened before.
#include "net.h"

using namespace net;

namespace prop {
const char* const kProperty = "S04";
const uint64_t kQuickCases = 9000, kThoroughCases = 500000;
const char* const kRule =
    "a case interleaves 5..40 requests over 1..4 sessions with 1..3 adapters; every reply carries a payload unique to its request; many requests repeat "
    "the previous one; replies are successful, carry error statuses, are malformed in a well-framed way (items, status words, lengths, handles, encapsulation status and command), differ in size and delay, and arrive in pieces; "
    "one case in ten lets requests time out and delivers their replies later; non-trivial: distinct request histories";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"paired", 9000}, {"errors", 1000}, {"malformed", 1000}, {"timeouts", 50}, {"repeated", 1000}, {"same_size", 2000}};
}  // namespace prop

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  std::vector<std::unique_ptr<model::Server>> servers;
  struct Expect { model::Rep rep; Bytes request; uint8_t service; bool malformed = false, late = false; uint64_t id; };
  // what each adapter connection owes, oldest first
  struct Sess { std::shared_ptr<es::SessionInfo> si; model::Server* srv; int conn; std::vector<Bytes> issued; std::vector<Expect> owed; bool desync = false; };
  // what the last request asked; often asked again, on the same session or another one: it has to be sent, and answered, anew
  uint8_t lastService = 0;
  Bytes lastRequest;
  std::vector<Sess> ss;
  size_t lastSize = 0;  // replies of the same size as the last one must not be mixed up either
  uint64_t id = 0;
  bool lateCase = r.chance(10);
  Ns timeout = lateCase ? 100 * MS : 5 * SEC;
  Expect next;
  int badKind = -1;
  for (int i = 0, k = 1 + (int)r.below(3); i < k; ++i) {
    auto s = std::make_unique<model::Server>(randomHost(r));
    if (n.w.listeners.count(s->at)) continue;
    s->install(n.w);
    s->nextHandle = r.chance(30) ? 7 : r.u32() | 1;
    s->delay = (Ns)r.below(4 * MS);
    roughTransport(c, *s, MS);
    s->cip = [&](const model::Req&) { return next.rep; };
    s->mutate = [&](Bytes& b, int i2, model::ConnState&) {
      if (i2 < 0 || badKind < 0) return;
      auto le = [&](size_t p, uint16_t v) { b[p] = (uint8_t)v; b[p + 1] = (uint8_t)(v >> 8); };
      auto resize = [&](size_t k2) { b.resize(24 + k2); le(2, (uint16_t)k2); };
      switch (badKind) {
        case 0: resize(r.below(6)); break;                      // no room for handle and timeout
        case 1: le(30, (uint16_t)r.below(2)); break;            // too few items (the bytes of the others remain)
        case 2: le(38, (uint16_t)(b[38] + (b[39] << 8) + 1 + r.below(300))); break;  // item longer than the packet
        case 3: resize(16 + r.below(4)); le(38, (uint16_t)(b.size() - 40)); break;   // reply of fewer than 4 bytes
        case 4: b[43] = 255; resize(std::min<size_t>(b.size() - 24, 40)); le(38, (uint16_t)(b.size() - 40)); break;  // status words missing
        case 5: b[4 + r.below(4)] ^= (uint8_t)(1 + r.below(255)); break;  // another handle
        case 6: b[8] = (uint8_t)(1 + r.below(0x69)); break;               // encapsulation error
        case 7: resize(6 + r.below(2)); break;                            // item count missing
        case 8: le(0, (uint16_t)(r.chance(50) ? 0 : r.edgy(16))); resize(0); break;  // a header and nothing else, of another command
        case 10: for (size_t i = 4; i < 8; ++i) b[i] = 0; b[8] = (uint8_t)(r.chance(50) ? 0x64 : 1 + r.below(0x69)); if (r.chance(70)) resize(0); break;  // "there is no such session"
        case 9: le(0, (uint16_t)(r.chance(40) ? 0 : r.edgy(16))); break;  // another command, the rest is the reply (may be accepted or not)
      }
    };
    if (lateCase) {
      auto inner = s->deliver;
      auto* sp = s.get();
      s->deliver = [&, inner, sp](sim::Conn& conn, Bytes b, int i2) {
        if (next.late && i2 >= 0) { conn.send(b, timeout + 5 * MS + (Ns)r.below(60 * MS)); return; }
        if (inner) inner(conn, b, i2); else conn.send(b, sp->delay);
      };
    }
    servers.push_back(std::move(s));
  }
  uint64_t hist = 0;
  for (int i = 0, k = 1 + (int)r.below(4); i < k; ++i) {
    auto& s = *r.pick(servers);
    size_t conn = n.w.conns.size();
    ss.push_back({openSession(s, timeout), &s, (int)conn, {}, {}});
  }
  for (int step = 0, steps = 5 + (int)r.below(36); step < steps; ++step) {
    size_t k = r.below(ss.size());
    Sess& s = ss[k];
    Expect x;
    x.id = ++id;
    x.service = (uint8_t)(r.below(127) + 1);
    x.request = model::Wr().u64(x.id * 0x9E3779B97F4A7C15ull).raw(r.bytes(r.below(r.chance(10) ? 3000 : 40)));
    if (r.chance(20)) x.service = (const uint8_t[]){0x01, 0x0E, 0x10, 0x4B}[r.below(4)];
    if (lastService && r.chance(35)) { x.service = lastService; x.request = lastRequest; count("repeated"); }
    else if (r.chance(10)) x.request.clear();
    lastService = x.service;
    lastRequest = x.request;
    int what = (int)r.below(10);
    badKind = -1;
    x.rep = randomRep(r, r.chance(5) ? 30000 : r.chance(10) ? 3000 : 200, 0);
    if (lastSize && r.chance(30)) { x.rep.data = r.bytes(lastSize); count("same_size"); }
    lastSize = x.rep.data.size();
    if (what < 2) { x.rep.status = (uint8_t)(1 + r.below(255)); for (size_t i = 0, a = r.below(4); i < a; ++i) x.rep.addl.push_back(r.u16()); count("errors"); }
    if (what == 2 || what == 3) { badKind = (int)r.below(11); x.malformed = true; }
    if (lateCase && what == 4) x.late = true;
    x.rep.data = model::Wr().u64(x.id * 0xD1342543DE82EF95ull).raw(x.rep.data);
    hist = hist * 1099511628211ull + (uint64_t)what * 31 + k + (uint64_t)(badKind + 1) * 7;
    c.note("request %llu on session %zu: %zu bytes, reply %zu bytes%s%s", (unsigned long long)x.id, k, x.request.size(), x.rep.data.size(), x.malformed ? " malformed" : "", x.late ? " late" : "");
    next = x;
    size_t before = s.srv->requests.size();
    s.issued.push_back(x.request);
    s.owed.push_back(x);
    es::cip::MessageRouterResponse rsp;
    c.phase("request");
    es::MessageRouter mr(r.chance(50));
    auto e = outcome(c, [&] { rsp = x.request.empty() ? mr.sendRequest(s.si, x.service, es::cip::EPath(0x20, 1)) : mr.sendRequest(s.si, x.service, es::cip::EPath(0x20, 1), x.request); });
    CHECK(s.srv->requests.size() == before + 1, "request-count", "%zu requests appeared at the adapter instead of one", s.srv->requests.size() - before);
    auto& q = s.srv->requests.back();
    CHECK(q.conn == s.conn && q.data == x.request && q.service == x.service, "request-misplaced", "the adapter saw another request, or on another session");
    if (x.late && !e.empty()) { s.desync = true; count("timeouts"); continue; }
    if (s.desync) {
      // the reply of an earlier request that timed out may have been read instead
      if (!e.empty()) { if (s.owed.front().malformed || x.malformed) { if (s.owed.front().malformed) s.owed.erase(s.owed.begin()); } continue; }
      if (rsp.getData() == x.rep.data && (uint8_t)rsp.getGeneralStatusCode() == x.rep.status) { s.owed.clear(); s.desync = false; continue; }
      CHECK(!(rsp.getData() == s.owed.front().rep.data), "late-reply-of-timed-out-request", "request %llu was answered with the late reply to request %llu, which had timed out or was overtaken", (unsigned long long)x.id, (unsigned long long)s.owed.front().id);
      c.fail("mispaired", "request %llu got a reply that is neither its own nor the oldest outstanding one", (unsigned long long)x.id);
    }
    s.owed.clear();
    if (x.malformed && badKind == 9 && e.empty()) {
      CHECK(rsp.getData() == x.rep.data, "mispaired", "request %llu was answered with %s instead of %s", (unsigned long long)x.id, hex(rsp.getData(), 40).c_str(), hex(x.rep.data, 40).c_str());
    } else if (x.malformed) {
      CHECK(!e.empty(), "malformed-accepted", "a malformed reply (kind %d) was accepted", badKind);
      count("malformed");
      continue;
    }
    CHECK(e.empty(), "request-fails", "%s", e.c_str());
    CHECK(rsp.getData() == x.rep.data, "mispaired", "request %llu was answered with %s instead of %s", (unsigned long long)x.id, hex(rsp.getData(), 40).c_str(), hex(x.rep.data, 40).c_str());
    CHECK((uint8_t)rsp.getGeneralStatusCode() == x.rep.status && rsp.getAdditionalStatus() == x.rep.addl, "mispaired-status", "status %02x instead of %02x", (unsigned)rsp.getGeneralStatusCode(), x.rep.status);
    CHECK((uint8_t)rsp.getServiceCode() == (x.service | 0x80), "mispaired-service", "service %02x", (unsigned)rsp.getServiceCode());
    count("paired");
  }
  for (auto& s : ss) {
    std::vector<Bytes> seen;
    for (auto& q : s.srv->requests) if (q.conn == s.conn) seen.push_back(q.data);
    CHECK(seen == s.issued, "request-order", "the requests of a session did not appear exactly once and in order");
  }
  c.phase("destroy");
  ss.clear();
  for (auto& s : servers) expectProtocol(c, *s);
  expectClosed(c, n.w, "after the sessions");
  expectSane(c, n.w);
  distinct("nontrivial", hist);
  if (c.index < 30) sample(std::to_string(servers.size()) + " adapters, " + std::to_string(id) + " requests, " + std::to_string(n.w.calls) + " system calls");
}
