// Hostile bytes from every peer, in answer to every operation, under AddressSanitizer and UndefinedBehaviorSanitizer.
#include "scenario.h"
#include "vendor/ra/powerFlex525/DPIFaultCode.h"
#include "vendor/yaskawa/mp3300iec/Yaskawa_EPath.h"

using namespace scen;

namespace prop {
const char* const kProperty = "M01";
const uint64_t kQuickCases = 24000, kThoroughCases = 1500000;
const char* const kRule =
    "a case lets a hostile device answer a random sequence of operations (register, identity, parameters incl. conversions with the scaling it sent, upload, drive faults, fault object, commands, "
    "forward open/close, plain requests by both routers, I/O polling, discovery): random data, extreme counts, lengths and sizes at every level, cut, spliced, extended, repeated, unsolicited "
    "packets, delivered in pieces, followed by silence, FIN or RST; datagrams alike; also the decoders fed directly; executed under ASan+UBSan with libstdc++ assertions, exceptions must be "
    "standard ones, every wait bounded; non-trivial: distinct hostile packets";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"hostile_replies", 2000}, {"hostile_datagrams", 2000}, {"returned", 500}, {"threw", 1000}, {"decodes", 900}, {"polls", 1000}, {"identities", 50}, {"opened", 100}};
}  // namespace prop

namespace {
uint64_t odd(Rng& r, int bits, size_t actual) {  // a number for a length or count field
  switch (r.below(5)) {
    case 0: return actual + 1 + r.below(4);
    case 1: return actual ? actual - 1 - r.below(std::min<size_t>(actual, 4)) : 0;
    case 2: return r.below(8);
    default: return r.edgy(bits);
  }
}
void put(Bytes& b, size_t at, uint64_t v, int n) {
  for (int i = 0; i < n; ++i) if (at + (size_t)i < b.size()) b[at + (size_t)i] = (uint8_t)(v >> (8 * i));
}
void scramble(Rng& r, Bytes& b) {
  for (int k = 0, q = 1 + (int)r.below(4); k < q; ++k) {
    size_t n = b.size();
    switch (r.below(9)) {
      case 0: if (n) b[r.below(n)] = r.u8(); break;
      case 1: if (n) b[r.below(n)] ^= (uint8_t)(1 << r.below(8)); break;
      case 2: b.resize(r.below(n + 1)); break;
      case 3: { auto x = r.bytes(r.below(40)); b.insert(b.end(), x.begin(), x.end()); break; }
      case 4: if (n > 1) { put(b, r.below(n), r.edgy(16), 2); } break;
      case 5: if (n > 1) { put(b, r.below(n), r.edgy(32), 4); } break;
      case 6: { auto x = r.bytes(1 + r.below(8)); b.insert(b.begin() + (long)r.below(n + 1), x.begin(), x.end()); break; }
      case 7: if (n > 2) { size_t a = r.below(n), z = a + r.below(n - a); b.erase(b.begin() + (long)a, b.begin() + (long)z); } break;
      case 8: if (n > 2) { size_t a = r.below(n), z = a + r.below(n - a); Bytes x(b.begin() + (long)a, b.begin() + (long)z); b.insert(b.end(), x.begin(), x.end()); } break;
    }
  }
}
// A packet of the TCP stream
void hostilePacket(Rng& r, Bytes& b) {
  size_t n = b.size();
  uint32_t handle = n >= 8 ? (uint32_t)(b[4] | b[5] << 8 | b[6] << 16) | (uint32_t)b[7] << 24 : 0;
  bool fix = r.chance(70), keep = r.chance(80);
  switch (r.below(12)) {
    case 0: put(b, 2, odd(r, 16, n - 24), 2); fix = false; break;
    case 1: put(b, 30, odd(r, 16, 2), 2); break;                             // item count
    case 2: put(b, 34, odd(r, 16, 0), 2); break;                             // length of the address item
    case 3: put(b, 38, odd(r, 16, n > 40 ? n - 40 : 0), 2); break;           // length of the data item
    case 4: if (n > 43) b[43] = (uint8_t)odd(r, 8, b[43]); break;            // number of status words
    case 5: if (n > 42) b[42] = r.u8(); break;
    case 6: put(b, r.chance(50) ? 32 : 36, r.edgy(16), 2); break;            // item types
    case 7: b.resize(24 + r.below(n > 24 ? n - 24 : 1)); break;
    case 8: { Bytes x(b.begin(), b.begin() + (long)std::min<size_t>(24, n)); auto y = r.bytes(r.below(r.chance(90) ? 200 : 65535)); x.insert(x.end(), y.begin(), y.end()); b = x; break; }
    case 9: if (r.chance(30)) { b = r.bytes(r.below(60)); keep = fix = false; break; } [[fallthrough]];
    default: scramble(r, b); break;
  }
  if (fix && b.size() >= 24 && b.size() < 65535) put(b, 2, b.size() - 24, 2);
  if (keep) { put(b, 4, handle, 4); put(b, 8, 0, 4); }
  if (r.chance(5)) { Bytes x = b; b.insert(b.end(), x.begin(), x.end()); }
}
// Data of a reply, with the structure the reader expects and impossible numbers in it
void hostileData(Rng& r, const Req& q, Rep& p) {
  Bytes& b = p.data;
  switch (r.below(8)) {
    case 0: b = r.bytes(r.below(r.chance(90) ? 120 : 2000)); return;
    case 1: b = Bytes(r.below(300), 0xFF); return;
    case 2: b = Bytes(r.below(300), 0); return;
    case 3: b.clear(); return;
    case 4: p.status = r.u8(); p.addl.resize(r.below(6)); return;
    default: break;
  }
  if (q.lp.cls == 0x37 && q.service == 0x4B && b.size() >= 5) put(b, 0, r.edgy(32), 4), b[4] = r.chance(30) ? 0 : r.u8();
  else if (q.lp.cls == 0x37 && q.service == 0x4F && b.size() >= 2) { if (r.chance(40)) b[1] = (uint8_t)r.below(8); if (r.chance(20)) b[0] = r.u8(); }
  else if (q.lp.cls == 6 && r.chance(60)) { put(b, r.below(24), r.edgy(32), 4); if (r.chance(40)) p.extra.push_back({(uint16_t)(r.chance(70) ? 0x8000 + r.below(2) : r.u16()), r.bytes(r.below(24))}); }
  else scramble(r, b);
}
template <class T> void useParameter(Ctx& c, es::ParameterObject& o) {
  Rng& r = c.r;
  volatile double sink = 0;
  auto d = [&]() -> double {
    static const double special[] = {0, -0.0, 1, -1, 1e300, -1e300, 4294967296.0, 18446744073709551616.0, 9223372036854775808.0, 0.5, INFINITY, -INFINITY, NAN};
    return r.chance(60) ? special[r.below(13)] : (double)(int64_t)r.edgy(64) / (double)(1 + r.below(1000));
  };
  outcome(c, [&] { sink = (double)o.getActualValue<T>() + o.getEngValue<T>() + o.getEngMinValue<T>() + o.getEngMaxValue<T>() + o.getEngDefaultValue<T>(); });
  outcome(c, [&] { o.setEngMinValue<T>(d()); sink = (double)o.getMinValue<T>(); });
  outcome(c, [&] { o.setEngMaxValue<T>(d()); sink = (double)o.getMaxValue<T>(); });
  outcome(c, [&] { o.setEngDefaultValue<T>(d()); sink = (double)o.getDefaultValue<T>(); });
}
void anyParameter(Ctx& c, es::ParameterObject& o) {
  switch (c.r.below(10)) {
    case 0: useParameter<es::cip::CipUsint>(c, o); break;
    case 1: useParameter<es::cip::CipSint>(c, o); break;
    case 2: useParameter<es::cip::CipUint>(c, o); break;
    case 3: useParameter<es::cip::CipInt>(c, o); break;
    case 4: useParameter<es::cip::CipUdint>(c, o); break;
    case 5: useParameter<es::cip::CipDint>(c, o); break;
    case 6: useParameter<es::cip::CipUlint>(c, o); break;
    case 7: useParameter<es::cip::CipLint>(c, o); break;
    case 8: useParameter<es::cip::CipReal>(c, o); break;
    case 9: useParameter<es::cip::CipLreal>(c, o); break;
  }
}
void decoders(Ctx& c) {
  using namespace es::eip;
  using namespace es::cip;
  Rng& r = c.r;
  Bytes b;
  switch (r.below(4)) {
    case 0: b = r.bytes(r.below(80)); break;
    case 1: b = model::packReply(r.u32(), r.u8(), randomRep(r, 60)); break;
    case 2: b = model::packCpf({{(uint16_t)r.u16(), r.bytes(r.below(20))}, {0xB2, r.bytes(r.below(20))}}); break;
    case 3: b = r.chance(50) ? model::path16(r.u16(), r.u16(), r.u16()) : model::path8(r.u8(), r.u8(), r.u8()); break;
  }
  if (r.chance(60)) scramble(r, b);
  auto sub = [&](size_t n) { return Bytes(b.begin() + (long)std::min(n, b.size()), b.end()); };
  size_t skip = r.chance(50) ? 0 : r.chance(50) ? 24 : 40;
  Bytes x = sub(skip);
  c.phase("decoders");
  outcome(c, [&] { EncapsPacket p; p.expand(x); p.pack(); });
  outcome(c, [&] { EncapsPacket::getLengthFromHeader(x); });
  outcome(c, [&] { CommonPacket p; p.expand(x); p.pack(); });
  outcome(c, [&] { MessageRouterResponse p; p.expand(x); logGeneralAndAdditionalStatus(p); });
  outcome(c, [&] { connectionManager::ForwardOpenResponse p; p.expand(x); });
  outcome(c, [&] { EPath p; p.expandPaddedPath(x); p.toString(); p.packPaddedPath(); });
  outcome(c, [&] { Yaskawa_EPath p; p.expandPaddedPath(x); p.toString(); });
  outcome(c, [&] { es::utils::Buffer f(x); CipShortString s; CipString t; CipRevision v; es::sockets::EndPoint e("", 0); std::vector<uint16_t> w(r.below(5)); f >> s >> t >> v >> e >> w; (void)f.isValid(); (void)f.empty(); });
  outcome(c, [&] { pf::DPIFaultCode f((int)r.u32()); (void)f.getFaultDescription(); });
  count("decodes");
}
}  // namespace

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  World& w = n.w;
  decoders(c);
  Device d(randomHost(r));
  d.randomise(r);
  d.setup();
  d.install(w);
  // sizes of objects that make the reader work hard
  if (r.chance(20)) d.transferSize = (uint8_t)(r.chance(50) ? 255 : 1);
  if (r.chance(30)) roughTransport(c, d, 20 * MS);
  int hostility = (int)r.below(90), dataHostility = (int)r.below(90);
  d.tweak = [&](const Req& q, Rep& p, size_t, int) {
    if (!r.chance(dataHostility)) return;
    hostileData(r, q, p);
    if (r.chance(3)) p.silent = true;
    count("hostile_replies");
  };
  d.mutate = [&](Bytes& b, int nth, model::ConnState& s) {
    if (nth >= 0 ? r.chance(hostility) : r.chance(10)) {
      hostilePacket(r, b);
      distinct("nontrivial", hashBytes(b.data(), b.size()));
      count("hostile_replies");
      if (r.chance(5) && s.conn) { if (r.chance(50)) s.conn->finish((Ns)r.below(MS)); else s.conn->sendReset((Ns)r.below(MS)); }
    }
  };
  if (r.chance(10)) {
    auto was = d.opened;
    d.opened = [&, was](sim::Conn& conn) { if (was) was(conn); if (r.chance(50)) conn.send(r.bytes(r.below(60)), (Ns)r.below(MS)); };  // unsolicited
  }
  Ns timeout = (Ns)(50 + r.below(500)) * MS;
  std::shared_ptr<es::SessionInfo> si;
  auto ended = [&](const std::string& what) { count(what.empty() ? "returned" : "threw"); };
  {
    es::ConnectionManager m;
    struct IoC { es::IOConnection::WPtr p; uint32_t t2o; Spec spec; };
    std::vector<IoC> ios;
    d.plan = [&](Open& o, Rep&) { o.t2o = r.chance(30) ? o.t2o : r.u32(); };
    for (int k = 0, q = 2 + (int)r.below(5); k < q; ++k) {
      if (!si || r.chance(10)) {
        c.phase("register");
        ended(outcome(c, [&] { si = openSession(d, timeout); }));
        if (!si) continue;
      }
      int what = (int)r.below(10);
      Setup s = randomSetup(r, (int)r.below(KINDS), d);
      if (what < 6) {
        if (s.kind == ParamFull || s.kind == ParamBasic || s.kind == ParamUpdate) {
          c.phase("parameter");
          ended(outcome(c, [&] {
            es::ParameterObject o(d.paramId, s.kind == ParamFull, si);
            anyParameter(c, o);
            if (r.chance(50)) { o.updateValue(si); anyParameter(c, o); }
            count("parameters");
          }));
        } else {
          auto x = run(c, s, d, si);
          ended(x.what);
          if (!x.threw && s.kind == Identity) count("identities");
        }
      } else if (what < 9) {
        // I/O
        Spec sp = randomSpec(r, r.chance(90) ? 40 : 500);
        sp.o2tRpi = sp.t2oRpi = (uint32_t)(2000 + r.below(30000));
        IoC io;
        io.spec = sp;
        c.phase("forward-open");
        size_t had = d.opens.size();
        d.begin();
        ended(outcome(c, [&] { io.p = m.forwardOpen(si, sp.params(), sp.large); }));
        if (auto p = io.p.lock()) {
          count("opened");
          io.t2o = d.opens.size() > had ? d.opens.back().t2o : r.u32();
          p->setReceiveDataListener([&](uint32_t, uint16_t, const Bytes& b) { volatile uint8_t x = 0; for (auto v : b) x = (uint8_t)(x + v); count("received"); });
          if (r.chance(70)) p->setDataToSend(r.bytes(r.chance(80) ? sp.o2tSize : r.below(70)));
          ios.push_back(io);
        }
        c.phase("io");
        for (int z = 0, y = (int)r.below(6); z < y; ++z) {
          for (int v = 0, u = (int)r.below(5); v < u; ++v) {
            Bytes b;
            if (ios.empty() || r.chance(15)) b = r.bytes(r.below(r.chance(95) ? 60 : 65507));
            else {
              auto& o = ios[r.below(ios.size())];
              b = model::packIo(o.t2o, r.u32(), t2oPayload(o.spec, r.u16(), r.u32(), r.bytes(r.chance(60) ? o.spec.t2oSize : r.below(60))));
              switch (r.below(8)) {
                case 0: b.resize(r.below(b.size() + 1)); break;
                case 1: put(b, 0, odd(r, 16, 2), 2); break;
                case 2: put(b, 4, odd(r, 16, 8), 2); break;
                case 3: if (b.size() > 18) put(b, 16, odd(r, 16, b.size() - 18), 2); break;
                case 4: b = model::packCpf({{0x8002, Bytes(b.begin() + 6, b.begin() + 6 + (long)r.below(9))}, {0xB1, r.bytes(r.below(9))}}); break;
                case 5: case 6: scramble(r, b); break;
                default: break;
              }
            }
            if (b.size() > 65507) b.resize(65507);
            distinct("nontrivial", hashBytes(b.data(), b.size()));
            count("hostile_datagrams");
            w.deliverDgram(d.at, 2222, b, (Ns)r.below(5 * MS));
          }
          ended(outcome(c, [&] { m.handleConnections(std::chrono::milliseconds(r.below(10))); }));
          count("polls");
          if (r.chance(20)) w.advance((Ns)r.below(200) * MS);
        }
        if (!ios.empty() && r.chance(30)) {
          c.phase("forward-close");
          auto p = ios[r.below(ios.size())].p;
          d.begin();
          ended(outcome(c, [&] { m.forwardClose(si, p); }));
        }
      } else {
        c.phase("discovery");
        es::DiscoveryManager dm("255.255.255.255", 44818, std::chrono::milliseconds(20 + r.below(100)));
        w.onDgram = [&](const sim::Dgram& g) {
          if (g.to.port != 44818) return;
          for (int k = 0, q = (int)r.below(6); k < q; ++k) {
            std::vector<model::Identity> ids;
            for (size_t i = 0, z = 1 + r.below(3); i < z; ++i) ids.push_back(model::randomIdentity(r, Addr{r.u32(), r.u16()}));
            Bytes b = model::listIdentityReply(ids);
            switch (r.below(6)) {
              case 0: b = r.bytes(r.below(600)); break;
              case 1: put(b, 24, odd(r, 16, ids.size()), 2); break;
              case 2: put(b, 28, odd(r, 16, b.size() - 30), 2); break;
              case 3: if (b.size() > 62) b[62] = (uint8_t)odd(r, 8, b[62]); break;
              default: scramble(r, b); break;
            }
            if (b.size() > 65507) b.resize(65507);
            distinct("nontrivial", hashBytes(b.data(), b.size()));
            count("hostile_datagrams");
            w.deliverDgramTo(g.fd, w.socks[g.fd]->gen, Addr{r.u32(), 44818}, b, (Ns)r.below(15 * MS));
          }
        };
        ended(outcome(c, [&] { for (auto& i : dm.discover()) count("discovered", i.identityObject.getProductName().size() < 256); }));
        w.onDgram = nullptr;
      }
    }
    c.phase("teardown");
    if (r.chance(50)) si.reset();
  }
  si.reset();
  w.advance(SEC);
  c.phase("after");
  expectSane(c, w);
}
