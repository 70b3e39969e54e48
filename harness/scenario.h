// A scripted, seeded history over every part of the library, written down as text: what the library sent, returned,
// reported and called back. The same seed gives the same script, so two runs may be compared with each other.
#pragma once
#include "ops.h"
#include "DiscoveryManager.h"
#include "cip/MessageRouterResponse.h"
#include "cip/connectionManager/ForwardCloseRequest.h"
#include "cip/connectionManager/ForwardOpenRequest.h"
#include "cip/connectionManager/ForwardOpenResponse.h"
#include "cip/connectionManager/LargeForwardOpenRequest.h"
#include "cip/connectionManager/NetworkConnectionParametersBuilder.h"
#include "eip/CommonPacket.h"
#include "eip/CommonPacketItemFactory.h"
#include "eip/EncapsPacket.h"
#include "vendor/ra/powerFlex525/DPIFaultParameter.h"

namespace scen {
using namespace ops;

struct Recorder : es::utils::LogAppenderIf {
  std::string* to;
  int err;
  Recorder(std::string* t, int e) : to(t), err(e) {}
  void print(es::utils::LogLevel l, const std::string& m) override {
    // connection serial numbers and ids are fresh in every run
    if (to && m.find("Seria") == std::string::npos) *to += "log " + std::to_string((int)l) + " " + m + "\n";
    errno = err;
  }
};

// The bytes of a TCP connection without what is fresh in every run: serial numbers and ids of I/O connections
inline std::string maskedStream(const Bytes& b) {
  std::string s;
  size_t p = 0;
  while (p < b.size()) {
    if (p + 24 > b.size()) { s += "rest " + h(Bytes(b.begin() + (long)p, b.end())) + "\n"; break; }
    size_t n = 24 + (b[p + 2] | (size_t)b[p + 3] << 8);
    Bytes q(b.begin() + (long)p, b.begin() + (long)std::min(b.size(), p + n));
    if (q[0] == 0x6F && q.size() > 42) {
      size_t at = 42 + 2u * q[41];
      size_t from = 0, to = 0;
      if (q[40] == 0x54 || q[40] == 0x5B) from = at + 2, to = at + 12;
      if (q[40] == 0x4E) from = at + 2, to = at + 4;
      for (size_t i = from; i < to && i < q.size(); ++i) q[i] = 0xEE;
    }
    s += "packet " + h(q) + "\n";
    p += n;
  }
  return s;
}
inline std::string masked(std::string s) {  // a message that may name a descriptor or the like
  return s;
}

inline std::string freshObjects(Rng& r) {
  using namespace es::cip::connectionManager;
  using namespace es::eip;
  std::string s;
  auto num = [&](const char* n, long long v) { s += std::string(" ") + n + "=" + std::to_string(v); };
  {
    pf::DPIFaultParameter p;
    auto& f = p.getFullInformation();
    num("fault", f.faultDetails.faultNumber);
    num("code", f.faultDetails.faultCode);
    char b[120];
    snprintf(b, sizeof b, " %.17g %.17g %.17g", f.faultDetails.busVoltage, f.faultDetails.current, f.faultDetails.frequency);
    s += b;
    num("desc-type", f.faultDescription.faultType);
    s += f.faultDescription.faultText + f.faultDescription.faultDescription;
  }
  s += "\nidentity ";
  { es::IdentityObject o((uint16_t)r.u16()); s += identityText(o); }
  for (size_t z : {1, 2, 4, 8})
    for (bool full : {false, true}) {
      es::ParameterObject o((uint16_t)(1 + r.below(1000)), full, z);
      s += "\nparameter " + paramText(o, z, true) + " id " + std::to_string(o.getInstanceId());
      // also at widths the parameter does not have
      s += " wide " + std::to_string(o.getActualValue<es::cip::CipUlint>()) + " " + std::to_string(o.getMinValue<es::cip::CipLint>()) + " " + std::to_string(o.getMaxValue<es::cip::CipDint>()) + " " + std::to_string(o.getDefaultValue<es::cip::CipReal>()) + " " + std::to_string(o.getEngValue<es::cip::CipLreal>());
    }
  { es::cip::MessageRouterResponse q; s += "\nresponse " + responseText(q); }
  {
    ForwardOpenResponse q;
    s += "\nforward-open-response";
    num("o2t", q.getO2TNetworkConnectionId()); num("t2o", q.getT2ONetworkConnectionId()); num("sn", q.getConnectionSerialNumber()); num("v", q.getOriginatorVendorId());
    num("osn", q.getOriginatorSerialNumber()); num("oapi", q.getO2TApi()); num("tapi", q.getT2OApi()); num("size", q.getApplicationReplaySize());
    s += h(q.getApplicationReplay());
  }
  { CommonPacketItem i; s += "\nitem " + std::to_string((int)i.getTypeId()) + " " + std::to_string(i.getLength()) + " " + h(i.getData()) + " " + h(i.pack()); }
  { CommonPacketItemFactory f; s += "\nitems " + h(f.createNullAddressItem().pack()) + " " + h(f.createConnectedDataItem({}).pack()) + " " + h(f.createSequenceAddressItem(1, 2).pack()); }
  { EncapsPacket p; s += "\nencaps " + std::to_string((int)p.getCommand()) + " " + std::to_string(p.getSessionHandle()) + " " + std::to_string((int)p.getStatusCode()) + " " + h(p.pack()); }
  {
    ConnectionParameters p;
    s += "\nforward-open " + h(ForwardOpenRequest(p).pack()) + " " + h(LargeForwardOpenRequest(p).pack()) + " " + h(ForwardCloseRequest().pack());
    NetworkConnectionParametersBuilder b;
    s += " " + std::to_string(b.build()) + " " + std::to_string((int)b.getRedundantOwner()) + std::to_string((int)b.getConnectionType()) + std::to_string((int)b.getPriority()) + std::to_string((int)b.getType()) + std::to_string(b.getConnectionSize());
    // a few of the fields given
    ForwardCloseRequest q;
    if (r.chance(50)) q.setConnectionSerialNumber(r.u16());
    if (r.chance(50)) q.setOriginatorSerialNumber(r.u32());
    if (r.chance(50)) q.setConnectionPath(r.bytes(2 * r.below(5)));
    if (r.chance(50)) q.setOriginatorVendorId(r.u16());
    s += " " + h(q.pack());
  }
  { es::cip::CipShortString a; es::cip::CipString b; s += "\nstrings " + std::to_string(a.getLength()) + " " + std::to_string(b.getLength()) + " " + a.toStdString() + b.toStdString(); }
  { es::cip::CipRevision a; s += " " + a.toString(); }
  {
    auto path = [&](const auto& a) {
      s += " path " + a.toString() + " " + std::to_string(a.getClassId()) + "/" + std::to_string(a.getObjectId()) + "/" + std::to_string(a.getAttributeId()) + " " + std::to_string(a.getSizeInWords()) + " " + h(a.packPaddedPath());
    };
    auto both = [&](auto zero) {
      using P = decltype(zero);
      uint8_t k = (uint8_t)r.u32(), i = (uint8_t)r.u32(), n = (uint8_t)r.u32();
      P one(k), two(k, i), three(k, i, n), again(k, i);
      path(zero); path(one); path(two); path(three);
      s += two == again ? " same" : " differ";
      s += P(k) == one ? " same" : " differ";
      P parsed(k, i, n);
      try { parsed.expandPaddedPath(two.packPaddedPath()); path(parsed); } catch (std::exception& e) { s += " throws"; }
    };
    both(es::cip::EPath());
    both(es::cip::Yaskawa_EPath());
  }
  return s + "\n";
}

// What must be fresh in every connection
struct Fresh {
  std::vector<uint16_t> serials;
  std::vector<uint32_t> o2t, t2o;
  void take(const Target& d) {
    for (auto& o : d.opens) {
      if (!o.fo.ok) continue;
      auto type = [&](uint32_t w) { return o.fo.large ? w >> 29 & 3 : w >> 13 & 3; };
      serials.push_back(o.fo.serial);
      if (type(o.fo.o2tNcp) == 1) o2t.push_back(o.fo.o2tId);
      if (type(o.fo.t2oNcp) == 2) t2o.push_back(o.fo.t2oId);
    }
  }
};
struct Env {
  Ctx& c;
  World& w;
  std::string& t;           // the transcript
  std::function<void()> before;  // run before each call of the library
  Fresh* fresh = nullptr;
};

inline void explicitPart(Env e, Rng& r) {
  Ctx& c = e.c;
  std::string& t = e.t;
  Device d(randomHost(r), (uint16_t)(1 + r.below(65535)));
  d.randomise(r);
  d.setup();
  d.install(e.w);
  d.plan = [&](Open& o, Rep& rep) {
    o.o2t = (uint32_t)(0x70000 + d.opens.size());
    o.t2o = (uint32_t)(0x80000 + d.opens.size());
    if (r.chance(20)) rep.extra.push_back(model::sockaddrItem(0x8000, Addr{r.chance(50) ? 0 : r.u32(), r.u16()}));
  };
  // Serial numbers of I/O connections are fresh in every run; where they are used, the stream must not be torn, so that
  // they can be found and left out of the comparison
  bool withIo = r.chance(40);
  if (withIo) e.w.fault = nullptr;
  if (r.chance(30) && !withIo) roughTransport(c, d, 50 * MS);
  if (r.chance(10)) d.onRegister = [&](model::ConnState&) -> std::optional<Bytes> { return r.chance(50) ? Bytes{} : r.bytes(r.below(40)); };
  Ns timeout = (Ns)(100 + r.below(2000)) * MS;
  std::shared_ptr<es::SessionInfo> si;
  e.before();
  t += "open " + outcome(c, [&] { si = openSession(d, timeout); }) + "\n";
  if (si) t += "session " + std::to_string(si->getSessionHandle()) + "\n";
  for (int k = 0, q = 1 + (int)r.below(4); si && k < q; ++k) {
    int kind = (int)r.below(KINDS);
    if (!withIo) while (kind == OpenIo || kind == CloseIo) kind = (int)r.below(KINDS);
    auto s = randomSetup(r, kind, d);
    e.before();
    auto ready = outcome(c, [&] { prepare(s, d, si); });
    if (!ready.empty()) { t += "not prepared " + ready + "\n"; continue; }
    int damage = (int)r.below(8), at = (int)r.below(3);
    if (r.chance(30) || (withIo && (damage == 4 || damage == 5))) damage = 0;
    d.tweak = nullptr;
    d.mutate = nullptr;
    bool once = false;
    if (damage >= 1 && damage <= 3) d.tweak = [&](const Req&, Rep& p, size_t, int step) {
      if (step != at || once) return;
      once = true;
      if (damage == 1) { p.status = (uint8_t)(1 + r.below(255)); if (r.chance(50)) p.addl = {r.u16(), r.u16()}; }
      else if (damage == 2) p.data.resize(r.below(p.data.size() + 1));
      else p.silent = true;
    };
    if (damage == 4 || damage == 5) d.mutate = [&](Bytes& b, int n, model::ConnState&) {
      if (n < 0 || once || !r.chance(50)) return;
      once = true;
      switch (r.below(4)) {
        case 0: b.resize(r.below(b.size())); break;
        case 1: if (!b.empty()) b[r.below(b.size())] = r.u8(); break;
        case 2: if (b.size() > 40) b[24 + r.below(16)] = r.u8(); break;
        case 3: if (b.size() > 44) b[40 + r.below(b.size() - 40)] = r.u8(); break;
      }
    };
    if (damage == 6) { Ns z = e.w.now; for (int i = 0; i < 3; ++i) e.w.signals.insert(z + (Ns)r.below(5 * MS)); }
    if (damage == 7 && r.chance(50)) { auto conn = e.w.conns.back(); if (r.chance(50)) conn->sendReset((Ns)r.below(MS)); else conn->finish((Ns)r.below(MS)); }
    e.before();
    auto x = run(c, s, d, si);
    t += std::string(name(s.kind)) + (x.threw ? " threw " : " returned ") + masked(x.what) + " values " + x.values + " more " + std::to_string(x.more) + "\n";
    e.w.signals.clear();
    d.tweak = nullptr;
    d.mutate = nullptr;
    count(std::string("op_") + name(s.kind));
    count(x.threw ? "ops_threw" : "ops_returned");
  }
  d.tweak = nullptr;
  if (e.fresh) e.fresh->take(d);
  e.before();
  si.reset();
  for (auto& conn : e.w.conns) t += maskedStream(conn->fromClient);
  e.w.advance(SEC);
}

inline void ioPart(Env e, Rng& r) {
  Ctx& c = e.c;
  std::string& t = e.t;
  World& w = e.w;
  Target d(randomHost(r));
  d.setup();
  d.install(w);
  d.plan = [&](Open& o, Rep& rep) {
    o.o2t = (uint32_t)(0x10000 * r.below(4) + d.opens.size());
    o.t2o = (uint32_t)(0x20000 + 0x1000 * d.opens.size());
    if (r.chance(15)) rep.status = (uint8_t)(1 + r.below(40));
    else if (r.chance(20)) rep.extra.push_back(model::sockaddrItem(0x8000, Addr{r.chance(50) ? 0 : r.u32() | 0x01000000, (uint16_t)(1 + r.below(65535))}));
  };
  size_t firstConn = w.conns.size();
  std::shared_ptr<es::SessionInfo> si;
  e.before();
  t += "io session " + outcome(c, [&] { si = openSession(d, SEC); }) + "\n";
  if (!si) return;
  {
    e.before();
    es::ConnectionManager m;
    struct One { Spec spec; es::IOConnection::WPtr p; uint32_t t2o; };
    std::vector<One> ones;
    for (size_t k = 0, q = 1 + r.below(3); k < q; ++k) {
      One o;
      o.spec = randomSpec(r, 100);
      o.spec.mult = (uint8_t)r.below(3);
      o.spec.o2tRpi = o.spec.t2oRpi = (uint32_t)(5000 + r.below(50000));
      size_t had = d.opens.size();
      e.before();
      t += "forward-open " + outcome(c, [&] { o.p = m.forwardOpen(si, o.spec.params(), o.spec.large); });
      t += std::string(o.p.expired() ? " empty" : " handle") + (m.hasOpenConnections() ? " open\n" : " none\n");
      if (o.p.expired() || d.opens.size() == had) continue;
      o.t2o = d.opens.back().t2o;
      auto p = o.p.lock();
      if (r.chance(90)) p->setReceiveDataListener([&t, k](uint32_t hd, uint16_t sq, const Bytes& b) { t += "received " + std::to_string(k) + " header " + std::to_string(hd) + " seq " + std::to_string(sq) + " " + h(b) + "\n"; });
      if (r.chance(90)) p->setCloseListener([&t, k] { t += "closed " + std::to_string(k) + "\n"; });
      if (r.chance(50)) p->setSendDataListener([&t, k](Bytes& b) { t += "sends " + std::to_string(k) + " " + h(b) + "\n"; });
      if (r.chance(80)) p->setDataToSend(r.bytes(r.chance(80) ? o.spec.o2tSize : r.below(20)));
      ones.push_back(o);
      count("io_connections");
    }
    for (int k = 0, q = 3 + (int)r.below(15); k < q; ++k) {
      for (auto& o : ones) {
        if (r.chance(50)) {
          Bytes b = model::packIo(o.t2o, r.u32(), t2oPayload(o.spec, r.u16(), r.u32(), r.bytes(r.chance(85) ? o.spec.t2oSize : r.below(30))));
          if (r.chance(20)) { if (r.chance(50)) b.resize(r.below(b.size())); else b[r.below(b.size())] = r.u8(); }
          w.deliverDgram(d.at, 2222, b, (Ns)r.below(5 * MS));
        }
        if (r.chance(3)) { e.before(); auto p = o.p; t += "forward-close " + outcome(c, [&] { m.forwardClose(si, p); }) + "\n"; }
      }
      if (r.chance(10)) w.deliverDgram(d.at, 2222, r.bytes(r.below(40)), (Ns)r.below(5 * MS));
      int failing = r.chance(10) && !w.fault ? 1 : -1;
      if (failing == 1) w.fault = [&failing](const sim::Call& k) { if (k.op == sim::Op::Send && failing == 1) { failing = 0; return ENETUNREACH; } return 0; };
      e.before();
      t += "poll " + outcome(c, [&] { m.handleConnections(std::chrono::milliseconds(r.below(20))); }) + (m.hasOpenConnections() ? " open\n" : " none\n");
      if (failing >= 0) w.fault = nullptr;
      if (r.chance(30)) w.advance((Ns)r.below(40) * MS);
      if (r.chance(3)) w.advance((Ns)r.below(900) * MS);
      count("io_polls");
    }
    e.before();
  }
  if (e.fresh) e.fresh->take(d);
  e.before();
  si.reset();
  for (size_t i = firstConn; i < w.conns.size(); ++i) t += maskedStream(w.conns[i]->fromClient);
  w.advance(SEC);
}

inline void discoveryPart(Env e, Rng& r) {
  std::string& t = e.t;
  World& w = e.w;
  es::DiscoveryManager m("255.255.255.255", 44818, std::chrono::milliseconds(50 + r.below(200)));
  w.onDgram = [&](const sim::Dgram& g) {
    if (g.to.port != 44818) return;
    for (int k = 0, q = (int)r.below(5); k < q; ++k) {
      std::vector<model::Identity> ids{model::randomIdentity(r, Addr{r.u32(), r.u16()})};
      if (r.chance(30)) ids.push_back(model::randomIdentity(r, Addr{r.u32(), r.u16()}));
      Bytes b = model::listIdentityReply(ids);
      if (r.chance(40)) { if (r.chance(50)) b.resize(r.below(b.size())); else for (int z = 0; z < 2; ++z) b[r.below(b.size())] = r.u8(); }
      w.deliverDgramTo(g.fd, w.socks[g.fd]->gen, Addr{r.u32(), 44818}, b, (Ns)r.below(40 * MS));
    }
  };
  e.before();
  t += "discover " + outcome(e.c, [&] {
    for (auto& i : m.discover()) t += identityText(i.identityObject) + " at " + i.socketAddress.toString() + "\n";
  }) + "\n";
  w.onDgram = nullptr;
  count("discoveries");
}

// Runs the script of the seed and returns what was observed
inline std::string play(Ctx& outer, uint64_t seed, const std::function<void()>& before, std::string* text, Fresh* fresh = nullptr, const std::function<void(World&)>& prepareWorld = {}) {
  Ctx c = outer;
  c.r = Rng(seed);
  Rng& r = c.r;
  std::string& t = *text;
  World w(r.next());
  sim::Scope scope(w);
  if (prepareWorld) prepareWorld(w);
  Env e{c, w, t, before, fresh};
  e.before();
  if (r.chance(30)) t += freshObjects(r);
  int parts = 1 + (int)r.below(3);
  for (int k = 0; k < parts; ++k) {
    w.fault = nullptr;
    if (r.chance(25)) {
      // a system call fails
      static const int errs[] = {EACCES, ENOBUFS, ENOMEM, ECONNRESET, EHOSTUNREACH, EINTR, EAGAIN, EINVAL, EPIPE, EMFILE, ENETDOWN};
      uint64_t at = w.calls + 1 + r.below(60);
      int err = errs[r.below(11)], times = 1 + (int)r.below(3);
      w.fault = [=](const sim::Call& k) mutable {
        if (k.index < at || times == 0 || k.op == sim::Op::Close || k.op == sim::Op::Clock || k.op == sim::Op::Sleep) return 0;
        if (err == EAGAIN && k.op != sim::Op::Recv) return 0;
        if (err == EINTR && k.op != sim::Op::Recv && k.op != sim::Op::Send && k.op != sim::Op::Select) return 0;
        --times;
        return err;
      };
      count("parts_with_failing_calls");
    }
    int what = (int)r.below(5);
    if (what < 2) explicitPart(e, r);
    else if (what < 4) ioPart(e, r);
    else discoveryPart(e, r);
  }
  for (auto& g : w.sentDgrams) t += "datagram " + g.from.str() + " " + g.to.str() + " " + std::to_string(g.t) + " " + h(g.data) + "\n";
  t += "calls " + std::to_string(w.calls) + " time " + std::to_string(w.now) + " open " + std::to_string(w.openCount()) + "\n";
  for (auto& m : w.misuse) t += "misuse " + m + "\n";
  w.fault = nullptr;
  outer.desc = c.desc;
  return t;
}
// The first difference of two transcripts, by lines
inline std::string difference(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  auto line = [&](const std::string& s) {
    size_t p = i == 0 ? 0 : s.rfind('\n', i - 1);
    p = p == std::string::npos ? 0 : p + (i != 0);
    if (i - p > 200) p = i - 100;
    return s.substr(std::min(p, s.size()), 300).substr(0, std::max<size_t>(s.find('\n', i) == std::string::npos ? 300 : s.find('\n', i) - p, 1));
  };
  return line(a) + "\n  versus\n" + line(b);
}
inline std::string keyword(const std::string& a, const std::string& b) {  // the first word of the first line that differs
  size_t i = 0, start = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) { if (a[i] == '\n') start = i + 1; ++i; }
  const std::string& s = start < a.size() ? a : b;
  size_t z = s.find_first_of(" \n", start);
  return s.substr(start, std::min<size_t>(z == std::string::npos ? 20 : z - start, 20));
}
}  // namespace scen
