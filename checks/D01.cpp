// Discovery returns every well-formed answer, in order, and survives the rest.
#include "net.h"
#include "DiscoveryManager.h"

using namespace net;

namespace prop {
const char* const kProperty = "D01";
const uint64_t kQuickCases = 30000, kThoroughCases = 1500000;
const char* const kRule =
    "a case runs discovery 1-3 times against up to 30, sometimes 600 devices that answer at various times, in one or several items per answer, with names of 0..255 arbitrary bytes, some answering twice, mixed with "
    "datagrams that are cut at any byte, have wrong counts or lengths, are empty or noise; with signals and, in some runs, a failing system call; non-trivial: distinct answers";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"answers", 2000}, {"malformed", 1000}, {"multi_item", 100}, {"many_items", 10}, {"short_items", 30}, {"late", 100}, {"errors", 100}, {"long_names", 100}, {"repeated_answers", 100}, {"many_devices", 3}};
}  // namespace prop

namespace {
std::string text(const model::Identity& i) {
  return "vendor " + std::to_string(i.vendor) + " type " + std::to_string(i.type) + " code " + std::to_string(i.code) + " rev " + std::to_string(i.major) + "." + std::to_string(i.minor) + " status " + std::to_string(i.status) +
         " serial " + std::to_string(i.serial) + " name " + hex(Bytes(i.name.begin(), i.name.end()), 255) + " at " + i.at.str();
}
std::string text(const es::IdentityItem& d) {
  auto& o = d.identityObject;
  auto nm = o.getProductName();
  return "vendor " + std::to_string(o.getVendorId()) + " type " + std::to_string(o.getDeviceType()) + " code " + std::to_string(o.getProductCode()) + " rev " + std::to_string(o.getRevision().getMajorRevision()) + "." +
         std::to_string(o.getRevision().getMinorRevision()) + " status " + std::to_string(o.getStatus()) + " serial " + std::to_string(o.getSerialNumber()) + " name " + hex(Bytes(nm.begin(), nm.end()), 255) + " at " +
         d.socketAddress.getHost() + ":" + std::to_string(d.socketAddress.getPort());
}
struct Want { std::string text; bool must; };
// The entries of a datagram, by an independent reader: must = well-formed in every respect
// (an item too short to hold an identity is just skipped when the case says so)
void read(const Bytes& b, bool intact, bool shortItem, std::vector<Want>& out) {
  if (b.size() < 26) return;
  Bytes p(b.begin() + 24, b.end());
  size_t n = p[0] | p[1] << 8, pos = 2;
  std::vector<Bytes> items;
  for (size_t i = 0; i < n; ++i) {
    if (pos == p.size()) { intact = false; break; }
    if (pos + 4 > p.size()) return;
    size_t len = p[pos + 2] | p[pos + 3] << 8;
    if (pos + 4 + len > p.size()) return;
    if ((p[pos] | p[pos + 1] << 8) != 0x0C) intact = false;
    items.push_back(Bytes(p.begin() + (long)pos + 4, p.begin() + (long)(pos + 4 + len)));
    pos += 4 + len;
  }
  if (pos != p.size()) intact = false;
  std::vector<Want> mine;
  for (auto& d : items) {
    if (d.size() < 33 || d.size() < 33u + d[32]) { if (!shortItem) intact = false; continue; }
    if (d.size() != 34u + d[32]) intact = false;
    model::Identity i;
    model::Rd rd(d);
    rd.u16();
    auto a = rd.raw(16);
    i.at = Addr{(uint32_t)a[4] << 24 | (uint32_t)a[5] << 16 | (uint32_t)a[6] << 8 | a[7], (uint16_t)(a[2] << 8 | a[3])};
    i.vendor = rd.u16(); i.type = rd.u16(); i.code = rd.u16(); i.major = rd.u8(); i.minor = rd.u8(); i.status = rd.u16(); i.serial = rd.u32();
    auto nm = rd.raw(rd.u8());
    i.name = std::string(nm.begin(), nm.end());
    mine.push_back({text(i), true});
  }
  for (auto& m : mine) out.push_back({m.text, intact});
}
}  // namespace

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  std::string host = r.chance(50) ? "255.255.255.255" : std::to_string(1 + r.below(223)) + ".20.30.255";
  uint16_t port = r.chance(60) ? 44818 : (uint16_t)(1 + r.below(65535));
  Ns timeout = (Ns)(1 + r.below(r.chance(80) ? 300 : r.chance(90) ? 5000 : r.chance(50) ? 4000000 : 2000000000)) * MS;
  es::DiscoveryManager m(host, port, std::chrono::milliseconds(timeout / MS));
  for (int round = 0, rounds = 1 + (int)r.below(3); round < rounds; ++round) {
    // what arrives
    struct In { Ns at; Bytes b; bool intact, shortItem; };
    std::vector<In> in;
    Ns t = 0;
    for (int k = 0, q = (int)(r.chance(80) ? r.below(6) : r.chance(98) ? r.below(30) : 300 + r.below(300)); k < q; ++k) {
      if (q >= 300 && k == 0) count("many_devices");
      t += (Ns)(q >= 300 ? r.below(std::min((uint64_t)MS, (uint64_t)timeout / 4)) : r.chance(60) ? r.below(2 * (uint64_t)MS) : r.chance(60) ? r.below((uint64_t)timeout * 9 / 10) : r.below((uint64_t)timeout * 2));
      std::vector<model::Identity> ids;
      do {
        ids.clear();
        for (size_t i = 0, z = r.chance(75) ? 1 : r.chance(85) ? r.below(5) : 5 + r.below(9); i < z; ++i) {
          Addr a{r.u32(), (uint16_t)r.edgy(16)};
          ids.push_back(model::randomIdentity(r, a));
          if (z > 1) ids.back().name = r.str(r.below(z > 4 ? 8 : 40));
          ids.back().protocol = r.chance(80) ? 1 : r.u16();
          if (ids.back().name.size() > 127) count("long_names");
        }
      } while (model::listIdentityReply(ids).size() > 504);
      Bytes b = model::listIdentityReply(ids);
      bool intact = true;
      if (!in.empty() && r.chance(10)) {  // the same answer again: a device with two ports, say
        in.push_back(r.chance(70) ? in.back() : r.pick(in));
        in.back().at = t;
        count("repeated_answers");
        continue;
      }
      if (ids.size() > 1 && r.chance(15)) { ids.back() = ids[0]; b = model::listIdentityReply(ids); if (b.size() > 504) continue; count("repeated_answers"); }
      if (ids.size() > 1) count("multi_item");
      if (ids.size() > 6) count("many_items");
      if (r.chance(15)) for (size_t i = 12; i < 20; ++i) b[i] = r.u8();  // any sender context
      bool shortItem = ids.size() > 1 && r.chance(15);
      if (shortItem) {
        std::vector<model::Item> items;
        for (auto& i : ids) items.push_back({0x0C, model::identityItem(i)});
        auto& cut = items[r.below(items.size())].data;
        cut.resize(r.below(cut.size() - 1));
        b = model::packEncaps({0x63, 0, 0, Bytes(8, 0), 0, model::packCpf(items)});
        count("short_items");
      } else if (r.chance(35)) {
        intact = false;
        switch (r.below(9)) {
          case 0: case 1: b.resize(r.below(b.size())); break;
          case 2: { unsigned v = (unsigned)(r.chance(70) ? r.below(6) : r.edgy(16)); b[24] = (uint8_t)v; b[25] = (uint8_t)(v >> 8); break; }
          case 3: if (b.size() > 30) { unsigned v = (unsigned)(r.chance(50) ? b[28] + r.below(9) - 4 : r.edgy(16)); b[28] = (uint8_t)v; b[29] = (uint8_t)(v >> 8); } break;
          case 4: if (b.size() > 62) b[62] = r.u8(); break;  // length of the name
          case 5: b = r.bytes(r.below(100)); break;
          case 6: b.clear(); break;
          case 7: b[r.below(b.size())] = r.u8(); break;
          case 8: b = model::packEncaps({0x63, 0, 0, Bytes(8, 0), 0, model::packCpf({{0x0C, r.bytes(r.below(50))}, {0x0C, model::identityItem(model::randomIdentity(r, {}))}})}); if (b.size() > 504) b.resize(504); break;
        }
        count("malformed");
      } else count("answers");
      distinct("nontrivial", hashBytes(b.data(), b.size()));
      in.push_back({t, b, intact, shortItem});
    }
    bool signals = r.chance(20);
    n.w.signals.clear();
    if (signals) randomSignals(n.w, r, 1 + (int)r.below(4), n.w.now, n.w.now + t + timeout);
    // a failing system call
    static const int kinds[] = {1, 3, 4};
    int kind = r.chance(12) ? kinds[r.below(3)] : 0, err = 0, left = 0;
    bool injected = false;
    if (kind) {
      static const int errs[] = {EACCES, ENETUNREACH, ENOBUFS, EPERM, ENETDOWN, EHOSTUNREACH, ECONNREFUSED, ENOMEM, EINVAL};
      err = errs[r.below(9)];
      left = kind == 4 ? (int)r.below(in.size() + 1) : 0;
      n.w.fault = [&](const sim::Call& k) -> int {
        bool mine = (kind == 1 && k.op == sim::Op::Socket) || (kind == 3 && k.op == sim::Op::Send) || (kind == 4 && k.op == sim::Op::Recv);
        if (!mine || injected || left-- > 0) return 0;
        injected = true;
        return err;
      };
    }
    std::vector<sim::Dgram> sent;
    Ns t0 = 0;
    n.w.onDgram = [&](const sim::Dgram& d) {
      sent.push_back(d);
      t0 = n.w.now;
      for (auto& x : in) n.w.deliverDgramTo(d.fd, n.w.socks[d.fd]->gen, Addr{r.u32(), 44818}, x.b, x.at);
    };
    size_t base = n.w.openCount();
    es::IdentityItem::Vec got;
    c.phase("discover");
    dirtyStack(r.u8());
    auto e = outcome(c, [&] { got = m.discover(); });
    Ns end = n.w.now;
    n.w.onDgram = nullptr;
    n.w.fault = nullptr;
    CHECK(n.w.openCount() == base, "left-open", "%zu descriptors", n.w.openCount());
    if (injected) {
      count("errors");
      CHECK(!e.empty(), "error-ignored", "errno %d from call kind %d was not reported", err, kind);
      continue;
    }
    CHECK(e.empty(), "discover-throws", "%s", e.c_str());
    CHECK(sent.size() == 1, "requests", "%zu datagrams were sent", sent.size());
    CHECK(sent[0].to == sim::addr(host, port), "address", "sent to %s", sent[0].to.str().c_str());
    Bytes q = sent[0].data;
    Bytes want = model::packEncaps({0x63, 0, 0, Bytes(8, 0), 0, {}});
    CHECK(q.size() == 24, "request", "%s", hex(q).c_str());
    for (size_t i = 12; i < 20; ++i) q[i] = 0;
    CHECK(q == want, "request", "%s", hex(q).c_str());
    // what had to come out
    std::vector<Want> exp;
    Ns lastGood = 0, lastAny = 0;
    for (auto& x : in) {
      const Ns eps = 2 * MS;
      if (x.at > lastAny + timeout + eps && !signals) { count("late"); break; }
      bool inTime = x.at < lastGood + timeout - eps;
      std::vector<Want> v;
      read(x.b, x.intact, x.shortItem, v);
      for (auto& w : v) exp.push_back({w.text, w.must && inTime});
      lastAny = x.at;
      if (x.intact && inTime) lastGood = x.at;
    }
    size_t k = 0;
    for (auto& d : got) {
      auto s = text(d);
      while (k < exp.size() && exp[k].text != s && !exp[k].must) ++k;
      CHECK(k < exp.size(), "made-up", "returned %s, which no device sent (or not then)", s.c_str());
      CHECK(exp[k].text == s, "wrong-entry", "returned %s instead of %s", s.c_str(), exp[k].text.c_str());
      ++k;
    }
    while (k < exp.size() && !exp[k].must) ++k;
    CHECK(k == exp.size(), "missing", "%zu entries; missing: %s", got.size(), exp[k].text.c_str());
    count("entries", got.size());
    CHECK(end - t0 >= lastGood + timeout - 2 * MS, "ends-early", "after %lld us, the last answer came at %lld us, timeout %lld us", (long long)((end - t0) / US), (long long)(lastGood / US), (long long)(timeout / US));
    n.w.advance((Ns)r.below(3) * SEC);
  }
  expectNoMisuse(c, n.w);
  expectSane(c, n.w);
}
