// Every operation talks to the session (and through the router) it is given, only to it, and only for the call.
#include "ops.h"

using namespace ops;

namespace prop {
const char* const kProperty = "S07";
const uint64_t kQuickCases = 9000, kThoroughCases = 600000;
const char* const kRule =
    "a case has 2-4 devices with 1-3 sessions each, some opened over the network and some the program's own implementations of the session interface (which answer from the device model or throw), and long-lived "
    "objects; it performs 8-40 operations, each with a randomly chosen session and some through the program's own routers, drops the last owner of sessions in between and makes new ones; non-trivial: distinct "
    "(operation, kind of session, kind of the object's former session)";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"operations", 9000}, {"other_session_than_before", 1000}, {"own_sessions", 3000}, {"threw", 300}, {"dropped", 700}, {"through_own_router", 1500}, {"io_frames", 150}};
}  // namespace prop

namespace {
struct Broken : std::runtime_error { using std::runtime_error::runtime_error; };

struct Seen {                 // what one session has carried
  uint64_t packets = 0;
  std::string bad;
  int throwAfter = -1;        // throws instead of answering after so many further packets
  bool destroyed = false, threw = false;
};
// The program's own session
struct Own : es::SessionInfoIf {
  Device& d;
  std::shared_ptr<Seen> seen;
  uint32_t handle;
  Addr at;
  Own(Device& d, std::shared_ptr<Seen> s, uint32_t h, Addr a) : d(d), seen(std::move(s)), handle(h), at(a) {}
  ~Own() override { seen->destroyed = true; }
  es::eip::EncapsPacket sendAndReceive(const es::eip::EncapsPacket& packet) const override {
    ++seen->packets;
    if (seen->throwAfter == 0) { seen->threw = true; throw Broken("the program's session is broken"); }
    if (seen->throwAfter > 0) --seen->throwAfter;
    auto b = packet.pack();
    model::Rd p(b);
    Req q;
    std::vector<model::Item> items;
    bool ok = p.u16() == 0x6F;
    p.u16();
    q.handle = p.u32();
    p.raw(16 - 4);
    p.u32();
    ok = ok && p.u32() == 0;
    p.u16();
    auto cpf = p.rest();
    ok = ok && p.ok && model::parseCpf(cpf, items) && items.size() >= 2 && items[1].type == 0xB2;
    if (!ok) { seen->bad = "malformed-packet"; throw Broken("malformed"); }
    if (q.handle != handle) seen->bad = "wrong-handle";
    model::Rd m(items[1].data);
    q.service = m.u8();
    q.path = m.raw(m.u8() * 2u);
    q.data = m.rest();
    q.lp = model::parsePath(q.path);
    q.extra.assign(items.begin() + 2, items.end());
    auto rep = d.cip(q);
    es::eip::EncapsPacket a;
    a.expand(model::packReply(handle, q.service, rep));
    return a;
  }
  es::cip::CipUdint getSessionHandle() const override { return handle; }
  es::sockets::EndPoint getRemoteEndPoint() const override { return es::sockets::EndPoint(sim::dotted(at.ip), at.port); }
};
// The program's own router
struct Router : es::MessageRouter {
  uint64_t& sent;
  mutable int depth = 0;
  Router(bool use8, uint64_t& s) : MessageRouter(use8), sent(s) {}
  using Mr = es::cip::MessageRouterResponse;
  template <class F> Mr pass(F f) const {
    if (!depth) ++sent;
    struct Depth { int& d; explicit Depth(int& x) : d(x) { ++d; } ~Depth() { --d; } } in(depth);
    return f();
  }
  Mr sendRequest(es::SessionInfoIf::SPtr si, es::cip::CipUsint service, const es::cip::EPath& path) const override { return pass([&] { return MessageRouter::sendRequest(si, service, path); }); }
  Mr sendRequest(es::SessionInfoIf::SPtr si, es::cip::CipUsint service, const es::cip::EPath& path, const std::vector<uint8_t>& data) const override { return pass([&] { return MessageRouter::sendRequest(si, service, path, data); }); }
  Mr sendRequest(es::SessionInfoIf::SPtr si, es::cip::CipUsint service, const es::cip::EPath& path, const std::vector<uint8_t>& data, const std::vector<es::eip::CommonPacketItem>& items) const override { return pass([&] { return MessageRouter::sendRequest(si, service, path, data, items); }); }
};
struct Session {
  std::shared_ptr<es::SessionInfoIf> si;
  std::weak_ptr<es::SessionInfoIf> weak;
  std::shared_ptr<Seen> seen;    // own ones
  int place = 0;
  uint32_t handle = 0;
  int conn = -1;                 // ordinal of the connection, others
  bool own() const { return (bool)seen; }
};
}  // namespace

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  std::vector<std::unique_ptr<Device>> places;
  std::set<uint32_t> ips;
  size_t valueSize = 0;
  std::vector<Bytes> udp(4);
  std::vector<std::pair<Addr, uint32_t>> frames;
  uint32_t nextId = 0x100000;
  for (size_t i = 0, k = 2 + r.below(3); i < k; ++i) {
    std::string host;
    do host = randomHost(r); while (!ips.insert(sim::addr(host, 0).ip).second);
    auto d = std::make_unique<Device>(host, (uint16_t)(r.chance(70) ? 44818 : 1 + r.below(65535)));
    d->randomise(r);
    if (i) {  // the same objects everywhere, with contents of their own
      d->paramId = places[0]->paramId;
      d->fileId = places[0]->fileId;
      auto q = places[0]->param;
      q.value = r.bytes(valueSize);
      d->param = q;
    } else valueSize = d->param.value.size();
    d->plain.status = 0;
    d->plain.addl.clear();
    d->plain.data = r.bytes(8 + r.below(20));
    d->nextHandle = r.u32() | 1;
    d->install(n.w);
    d->setup();
    d->plan = [&](Open& o, Rep&) { o.o2t = nextId++; o.t2o = nextId++; };
    if (r.chance(15)) roughTransport(c, *d, 100 * US);
    places.push_back(std::move(d));
  }
  n.w.onDgram = [&](const sim::Dgram& g) {
    auto f = model::parseIo(g.data);
    if (f.ok) frames.push_back({g.to, f.connId});
  };
  std::vector<Session> all;
  auto make = [&](int place) {
    Session s;
    s.place = place;
    Device& d = *places[(size_t)place];
    if (r.chance(50)) {
      s.seen = std::make_shared<Seen>();
      s.handle = r.chance(20) ? 0 : r.u32();
      s.si = std::make_shared<Own>(d, s.seen, s.handle, d.at);
    } else {
      auto e = outcome(c, [&] { s.si = openSession(d, 20 * SEC); });
      if (!e.empty()) c.fail("open-session", "%s", e.c_str());
      s.handle = s.si->getSessionHandle();
      for (auto& [no, st] : d.conns) if (st.registered && !st.unregisters && st.handle == s.handle) s.conn = no;
      if (s.conn < 0) c.fail("open-session", "the adapter has no session %x", s.handle);
    }
    s.weak = s.si;
    all.push_back(std::move(s));
  };
  for (int p = 0; p < (int)places.size(); ++p) for (size_t i = 0, k = 1 + r.below(3); i < k; ++i) make(p);
  auto packets = [&](const Session& s) -> uint64_t { return s.own() ? s.seen->packets : (uint64_t)places[(size_t)s.place]->conns[s.conn].requests; };
  uint64_t throughRouter = 0;
  auto router = [&](bool mine, bool narrow = false) -> std::shared_ptr<es::MessageRouter> {
    bool use8 = narrow && places[0]->paramId < 256 && r.chance(40);
    if (mine) return std::make_shared<Router>(use8, throughRouter);
    return std::make_shared<es::MessageRouter>(use8);
  };
  // ---- objects that live long, each with the session it had last
  struct Live { std::unique_ptr<es::ParameterObject> param; std::unique_ptr<es::FileObject> file; std::unique_ptr<pf::DPIFaultManager> fm; bool mine = false; int last = -1; int uploadPlace = -1; std::vector<std::pair<unsigned, Bytes>> calls; };
  std::vector<std::unique_ptr<Live>> params, files, fms;
  std::vector<std::pair<int, uint16_t>> delivered;
  struct Conn { es::IOConnection::WPtr w; int place; uint32_t o2t; int last; };
  es::SessionInfoIf::SPtr none;
  bool cmMine = r.chance(50);
  es::ConnectionManager cm(router(cmMine, true));
  std::vector<Conn> ios;

  int kinds = 0;
  uint64_t history = 1;
  auto op = [&](const char* what, int k, int last, bool mine, bool mayBeSilent, const std::function<void(const es::SessionInfoIf::SPtr&)>& f) -> bool {
    c.phase(what);
    Session& s = all[(size_t)k];
    Device& d = *places[(size_t)s.place];
    d.begin();
    bool breaks = s.own() && !mayBeSilent && r.chance(15);
    if (s.own()) s.seen->throwAfter = breaks ? (int)r.below(3) : -1, s.seen->threw = false;
    std::vector<uint64_t> before;
    for (auto& x : all) before.push_back(packets(x));
    std::vector<size_t> asked;
    size_t conns = 0;
    for (auto& p : places) asked.push_back(p->requests.size()), conns += p->conns.size();
    uint64_t routed = throughRouter;
    bool broken = false;
    long owners = s.si.use_count();
    auto e = outcome(c, [&] { try { f(s.si); } catch (const Broken&) { broken = true; throw; } });
    uint64_t sent = packets(s) - before[(size_t)k];
    breaks = breaks && s.seen->threw;    // it may not have been asked that often
    if (s.own()) s.seen->throwAfter = -1;
    count("operations");
    if (s.own()) count("own_sessions");
    if (last >= 0 && last != k) count("other_session_than_before");
    for (size_t i = 0; i < all.size(); ++i)
      if ((int)i != k) c.check(packets(all[i]) == before[i], "other-session", "%s with session %d (of device %d): %llu packets went through session %zu (of device %d)", what, k, s.place, (unsigned long long)(packets(all[i]) - before[i]), i, all[i].place);
    size_t nowConns = 0;
    for (size_t i = 0; i < places.size(); ++i) {
      nowConns += places[i]->conns.size();
      c.check(places[i]->requests.size() == asked[i] || ((int)i == s.place && !s.own()), "other-device", "%s with session %d of device %d: device %zu was asked", what, k, s.place, i);
    }
    c.check(nowConns == conns, "new-connection", "%s opened a TCP connection", what);
    c.check(!s.own() || s.seen->bad.empty(), s.own() ? s.seen->bad : "", "%s: session handle %x", what, s.handle);
    c.check(sent > 0 || mayBeSilent, "nothing-sent", "%s with session %d", what, k);
    if (mine) {
      count("through_own_router");
      c.check(throughRouter - routed == sent, "router", "%s: %llu requests through the router given, %llu packets sent", what, (unsigned long long)(throughRouter - routed), (unsigned long long)sent);
    }
    (void)owners;
    distinct("nontrivial", (uint64_t)(what[0] * 7 + what[1] * 31 + what[2]) << 8 | (uint64_t)(s.own() << 3 | breaks << 2 | (last < 0 ? 2 : all[(size_t)last].own())));
    ++kinds;
    history = history * 1099511628211ull + ((uint64_t)(what[0] * 7 + what[1] * 31 + what[2]) << 8 | (uint64_t)(k << 3 | breaks << 2 | mine << 1 | s.own()));
    if (breaks) {
      count("threw");
      c.check(!e.empty(), "exception-swallowed", "%s: the session threw", what);
      (void)broken;
      return false;
    }
    c.check(e.empty(), std::string("throws-") + what, "with session %d of device %d, formerly %d: %s", k, s.place, last, e.c_str());
    return e.empty();
  };
  auto le = [&](const Bytes& b) { uint64_t v = 0; for (size_t i = 0; i < b.size(); ++i) v |= (uint64_t)b[i] << 8 * i; return v; };
  auto value = [&](const es::ParameterObject& o) -> uint64_t {
    return valueSize == 1 ? o.getActualValue<es::cip::CipUsint>() : valueSize == 2 ? o.getActualValue<es::cip::CipUint>() : valueSize == 4 ? o.getActualValue<es::cip::CipUdint>() : o.getActualValue<es::cip::CipUlint>();
  };
  int steps = 8 + (int)r.below(33);
  for (int step = 0; step < steps; ++step) {
    // sessions come and go
    if (r.chance(15)) {
      size_t k = r.below(all.size());
      Session& s = all[k];
      Device& d = *places[(size_t)s.place];
      c.phase("drop");
      auto e = outcome(c, [&] { s.si.reset(); });
      CHECK(e.empty(), "drop-throws", "%s", e.c_str());
      CHECK(s.weak.expired(), "session-kept", "somebody still holds session %zu of device %d after the program gave it up", k, s.place);
      if (s.own()) CHECK(s.seen->destroyed, "session-kept", "the program's session is not destroyed");
      else {
        CHECK(d.conns[s.conn].unregisters == 1, "not-unregistered", "device %d", s.place);
      }
      count("dropped");
      int place = s.place;
      // its slot is taken by a new one
      make(place);
          all[k] = std::move(all.back());
      all.pop_back();
    }
    for (auto& s : all) if (s.own() && r.chance(10)) static_cast<Own&>(*s.si).handle = s.handle = r.u32();  // as after reconnecting
    int k = (int)r.below(all.size());
    int place = all[(size_t)k].place;
    Device& d = *places[(size_t)place];
    auto anotherOf = [&](int p) { std::vector<int> v; for (size_t i = 0; i < all.size(); ++i) if (all[i].place == p) v.push_back((int)i); return v[r.below(v.size())]; };
    bool mine = r.chance(40);
    switch (r.below(12)) {
      case 0: {
        std::unique_ptr<es::IdentityObject> o;
        bool given = mine || r.chance(30);
        auto mr = router(mine, true);
        if (!op("identity", k, -1, mine, false, [&](auto& si) { o = given ? std::make_unique<es::IdentityObject>((uint16_t)1, si, mr) : std::make_unique<es::IdentityObject>((uint16_t)1, si); })) break;
        CHECK(o->getVendorId() == d.id.vendor && o->getSerialNumber() == d.id.serial && o->getProductName() == d.id.name, "answer-identity", "vendor %u instead of %u", o->getVendorId(), d.id.vendor);
        break;
      }
      case 1: {  // a new parameter object
        auto live = std::make_unique<Live>();
        live->mine = mine;
        bool full = r.chance(50), given = mine || r.chance(30);
        auto mr = router(mine, true);
        d.wantFull = full;
        live->last = k;
        if (!op("parameter", k, -1, mine, false, [&](auto& si) {
              live->param = given ? std::make_unique<es::ParameterObject>(d.paramId, full, si, mr) : std::make_unique<es::ParameterObject>(d.paramId, full, si);
            })) break;
        CHECK(value(*live->param) == le(d.param.value), "answer-parameter", "%llx instead of %llx", (unsigned long long)value(*live->param), (unsigned long long)le(d.param.value));
        params.push_back(std::move(live));
        break;
      }
      case 2: case 3: {  // refreshed over any session
        if (params.empty()) break;
        Live& l = *params[r.below(params.size())];
        d.param.value = r.bytes(valueSize);
        if (op("refresh", k, l.last, l.mine, false, [&](auto& si) { l.param->updateValue(si); }))
          CHECK(value(*l.param) == le(d.param.value), "answer-refresh", "%llx instead of %llx", (unsigned long long)value(*l.param), (unsigned long long)le(d.param.value));
        l.last = k;
        break;
      }
      case 4: {
        auto live = std::make_unique<Live>();
        live->mine = mine;
        live->last = k;
        auto mr = router(mine);
        bool given = mine || r.chance(30);
        d.fileState = 2;
        if (!op("file", k, -1, mine, false, [&](auto& si) { live->file = given ? std::make_unique<es::FileObject>(d.fileId, si, mr) : std::make_unique<es::FileObject>(d.fileId, si); })) break;
        files.push_back(std::move(live));
        break;
      }
      case 5: {  // a whole upload, every packet over any session of one device, which need not be the one the object was made with
        if (files.empty()) break;
        size_t which = r.below(files.size());
        Live& l = *files[which];
        std::vector<std::pair<unsigned, Bytes>> calls;
        d.begin();
        if (!op("begin-upload", k, l.last, l.mine, false, [&](auto& si) { l.file->beginUpload(si, [&](es::cip::GeneralStatusCodes st, const Bytes& b) { calls.push_back({(unsigned)st, b}); }); })) { files.erase(files.begin() + (long)which); break; }
        l.last = k;
        bool more = true;
        for (int i = 0; more && i < 400; ++i) {
          int u = anotherOf(place);
          size_t sent = d.fileSent, transfers = d.transfers;
          bool was = calls.empty();
          if (!op("transfer", u, l.last, l.mine, true, [&](auto& si) {
                d.fileSent = sent;  // op() starts a new operation of the device
                d.transfers = transfers;
                more = l.file->handleTransfers(si);
              })) break;
          if (!was) break;
          l.last = u;
        }
              CHECK(calls.size() == 1 && calls[0].first == 0 && calls[0].second == d.file, "answer-upload", "%zu callbacks, %zu bytes instead of %zu", calls.size(), calls.empty() ? 0 : calls[0].second.size(), d.file.size());
        count("uploads");
        files.erase(files.begin() + (long)which);
        break;
      }
      case 6: {
        if (fms.empty() || r.chance(30)) {
          auto live = std::make_unique<Live>();
          live->fm = std::make_unique<pf::DPIFaultManager>(r.chance(50), false, r.chance(50));
          live->fm->setNewFaultListener([&](const pf::DPIFaultParameter& p) { delivered.push_back({p.getFullInformation().faultDetails.faultNumber, p.getFullInformation().faultDetails.faultCode}); });
          fms.push_back(std::move(live));
        }
        Live& l = *fms[r.below(fms.size())];
        delivered.clear();
        auto mr = router(mine);
        bool given = mine || r.chance(30);
        if (op("faults", k, l.last, mine, false, [&](auto& si) { if (given) l.fm->handleFaultParameters(si, mr); else l.fm->handleFaultParameters(si); })) {
          bool same = delivered.size() == d.faults.size();
          for (size_t i = 0; same && i < delivered.size(); ++i) same = delivered[i].second == d.faults[i].code;
          CHECK(same, "answer-faults", "%zu faults instead of %zu", delivered.size(), d.faults.size());
        }
        l.last = k;
        break;
      }
      case 7: {
        auto mr = router(mine);
        if (r.chance(50)) {
          std::unique_ptr<pf::DPIFaultObject> o;
          if (op("fault-object", k, -1, mine, false, [&](auto& si) { o = mine ? std::make_unique<pf::DPIFaultObject>(d.faultInst, si, mr) : std::make_unique<pf::DPIFaultObject>(d.faultInst, si); }))
            CHECK(o->getFullInformation().faultCode == (d.faultObject[0] | d.faultObject[1] << 8), "answer-fault-object", "code %u", o->getFullInformation().faultCode);
        } else {
          pf::DPIFaultManager m;
          auto cmd = (pf::DPIFaultManagerCommands)r.below(4);
          op("command", k, -1, mine, false, [&](auto& si) { if (mine) m.writeCommand(cmd, si, mr); else m.writeCommand(cmd, si); });
        }
        break;
      }
      case 8: {
        auto mr = router(mine, true);
        auto data = r.bytes(r.below(30));
        es::cip::MessageRouterResponse q;
        bool yaskawa = !mine && r.chance(30);
        if (op("plain", k, -1, mine, false, [&](auto& si) {
              if (yaskawa) q = es::Yaskawa_MessageRouter().sendRequest(si, 0x0E, es::cip::Yaskawa_EPath(0x64, 1), data);
              else if (r.chance(30)) q = mr->sendRequest(si, 0x0E, es::cip::EPath(0x64, 1));
              else if (r.chance(50)) q = mr->sendRequest(si, 0x0E, es::cip::EPath(0x64, 1), data);
              else q = mr->sendRequest(si, 0x0E, es::cip::EPath(0x64, 1), data, {});
            }))
          CHECK(q.getData() == d.plain.data, "answer-plain", "%zu bytes", q.getData().size());
        break;
      }
      case 9: case 10: {  // I/O connections, opened over one session and closed over another
        Conn x{};
        x.place = place;
        auto spec = randomSpec(r, 60);
        spec.o2tRpi = 1000;
        spec.t2oRpi = 2000000000;
        spec.mult = 2;
        size_t had = d.opens.size();
        if (!op("forward-open", k, ios.empty() ? -1 : ios.back().last, cmMine, false, [&](auto& si) { x.w = cm.forwardOpen(si, spec.params(), spec.large); })) break;
        CHECK(!x.w.expired() && d.opens.size() == had + 1, "answer-open", "device %d", place);
        x.o2t = d.opens.back().o2t;
        x.last = k;
        if (spec.o2tFixed) x.w.lock()->setDataToSend(Bytes(spec.o2tSize, 7));
        ios.push_back(x);
        frames.clear();
        n.w.advance(2 * MS);
        c.phase("poll");
        auto e = outcome(c, [&] { cm.handleConnections(std::chrono::milliseconds(0)); });
        CHECK(e.empty(), "poll-throws", "%s", e.c_str());
        for (auto& f : frames) for (auto& y : ios) if (y.o2t == f.second) {
          count("io_frames");
          CHECK(f.first.ip == places[(size_t)y.place]->at.ip, "frame-address", "connection of device %d produced to another host", y.place);
        }
        break;
      }
      default: {
        if (ios.empty()) break;
        size_t which = r.below(ios.size());
        Conn x = ios[which];
        int u = anotherOf(x.place);
        size_t had = places[(size_t)x.place]->closes.size();
        bool closed = op("forward-close", u, x.last, cmMine, false, [&](auto& si) { cm.forwardClose(si, x.w); });
        if (closed) CHECK(places[(size_t)x.place]->closes.size() == had + 1 && x.w.expired(), "answer-close", "device %d", x.place);
        if (x.w.expired()) ios.erase(ios.begin() + (long)which);
      }
    }
    }
  // nothing is left that holds a session, although the objects still live
  c.phase("end");
  for (size_t k = 0; k < all.size(); ++k) {
    Session& s = all[k];
    s.si.reset();
    CHECK(s.weak.expired(), "session-kept", "session %zu of device %d at the end", k, s.place);
    if (!s.own()) CHECK(places[(size_t)s.place]->conns[s.conn].unregisters == 1, "not-unregistered", "device %d at the end", s.place);
    count("dropped");
  }
  if (c.index < 40) sample(std::to_string(places.size()) + " devices, " + std::to_string(all.size()) + " sessions, " + std::to_string(kinds) + " operations");
  distinct("histories", history);
  for (auto& p : places) expectProtocol(c, *p);
  expectSane(c, n.w);
  expectNoMisuse(c, n.w);
}
