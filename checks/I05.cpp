// Hostile datagrams and failing sends do not disturb healthy connections.
#include <map>
#include "io.h"

using namespace io;

namespace prop {
const char* const kProperty = "I05";
const uint64_t kQuickCases = 6000, kThoroughCases = 500000;
const char* const kRule =
    "a case runs 1-5 connections while valid datagrams are mixed with ones that are cut at any byte, carry wrong counts or lengths, trailing bytes, unknown or closed ids, address "
    "items that are too short, payloads that do not fit, nothing, thousands of items, or 64 KiB of noise, and while sends, receives and the wait for datagrams fail for some polls; an independent parser says which must, "
    "must not or may reach a listener; production is watched through the send listeners; non-trivial: distinct hostile datagrams";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"hostile", 8000}, {"valid", 4000}, {"send_failures", 500}, {"receive_failures", 100}, {"select_failures", 100}, {"productions", 2000}, {"many_items", 400}};
}  // namespace prop

namespace {
struct Rx { uint32_t header; uint16_t seq; Bytes data; bool must; };
struct Con {
  Spec s;
  es::IOConnection::WPtr w;
  uint32_t o2t = 0, t2o = 0;
  Addr to;
  Ns api = 0, last = 0;
  bool closed = false, called = false;
  int frames = 0, failed = 0;
  std::vector<Rx> want, got;
};
}  // namespace

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  n.w.callCost = 0;
  Target t(randomHost(r));
  t.install(n.w);
  t.setup();
  Con* opening = nullptr;
  t.plan = [&](Open& o, model::Rep& rep) {
    o.o2t = opening->o2t;
    o.t2o = opening->t2o;
    o.o2tApi = (uint32_t)(opening->api / US);
    o.t2oApi = 4000000000u;
    rep.extra.push_back(model::sockaddrItem(0x8000, opening->to));
  };
  auto si = openSession(t, 20 * SEC);
  es::ConnectionManager m;
  std::vector<std::unique_ptr<Con>> cons;
  std::set<uint32_t> ids;
  for (size_t i = 0, k = 1 + r.below(5); i < k; ++i) {
    auto x = std::make_unique<Con>();
    x->s = randomSpec(r, 60);
    x->s.mult = 7;
    x->o2t = 0x7000 + (uint32_t)i;
    do x->t2o = r.chance(50) ? (uint32_t)r.below(300) : (uint32_t)r.edgy(32); while (!ids.insert(x->t2o).second);
    x->api = (Ns)(1 + r.below(50)) * MS;
    x->to = Addr{t.at.ip, (uint16_t)(3000 + i)};
    opening = x.get();
    c.phase("open");
    auto e = outcome(c, [&] { x->w = m.forwardOpen(si, x->s.params(), x->s.large); });
    CHECK(e.empty() && !x->w.expired(), "open", "%s", e.c_str());
    x->last = n.w.now;
    auto p = x->w.lock();
    Con* raw = x.get();
    p->setReceiveDataListener([raw](uint32_t h, uint16_t q, const Bytes& d) { raw->got.push_back({h, q, d, true}); });
    p->setSendDataListener([raw, &n](Bytes& d) { d.assign(raw->s.o2tSize, 7); raw->called = true; raw->last = n.w.now; });
    cons.push_back(std::move(x));
  }
  n.w.onDgram = [&](const sim::Dgram& d) { for (auto& x : cons) if (x->to.port == d.to.port) x->frames++; };
  // which sends and receives fail
  std::set<size_t> failing;
  int sendErr = 0, recvErr = 0, recvLeft = 0, selectErr = 0, selectLeft = 0;
  n.w.fault = [&](const sim::Call& k) -> int {
    if (k.tcp) return 0;
    if (k.op == sim::Op::Send)
      for (size_t i : failing) if (cons[i]->to.port == k.port && !(sendErr == EINTR && cons[i]->failed)) { cons[i]->failed++; count("send_failures"); return sendErr; }
    if (k.op == sim::Op::Recv && recvLeft > 0) { --recvLeft; count("receive_failures"); return recvErr; }
    if (k.op == sim::Op::Select && selectLeft > 0) { --selectLeft; count("select_failures"); return selectErr; }
    return 0;
  };
  auto validWire = [&](Con& x, Rx& rx) {
    auto& s = x.s;
    size_t size = s.t2oFixed ? s.t2oSize : r.below(s.t2oSize + 1);
    rx = {s.t2oRtf ? r.u32() : 0, (uint16_t)(s.seqCount() ? r.u16() : 0), r.bytes(size), true};
    return model::packIo(x.t2o, r.u32(), t2oPayload(s, rx.seq, rx.header, rx.data));
  };
  const Ns tol = 300 * US;
  for (int round = 0, rounds = 5 + (int)r.below(15); round < rounds; ++round) {
    Ns at = 0;
    for (int k = 0, burst = (int)r.below(8); k < burst; ++k) {
      auto& x = *r.pick(cons);
      Rx rx;
      Bytes b = validWire(x, rx);
      bool hostile = r.chance(65);
      if (hostile) {
        size_t second = 2 + 4 + 8;  // header of the data item
        auto put = [&](size_t p, size_t v) { b[p] = (uint8_t)v; b[p + 1] = (uint8_t)(v >> 8); };
        switch (r.below(13)) {
          case 0: case 1: b.resize(r.below(b.size())); break;
          case 2: put(0, r.chance(60) ? r.below(5) : r.edgy(16)); break;
          case 3: put(4, r.chance(60) ? r.below(16) : r.edgy(16)); break;
          case 4: put(second + 2, r.chance(60) ? r.below(80) : r.edgy(16)); break;
          case 5: { auto j = r.bytes(1 + r.below(40)); b.insert(b.end(), j.begin(), j.end()); break; }
          case 6: b = model::packIo(r.u32(), r.u32(), r.bytes(r.below(60))); break;
          case 7: b.clear(); break;
          case 8: b = r.bytes(r.chance(80) ? r.below(40) : 60000 + r.below(5508)); break;
          case 9: b = model::packCpf({{0x8002, r.bytes(r.below(4))}, {0xB1, r.bytes(r.below(40))}}); break;
          case 10: { size_t sz = r.below(80); b = model::packIo(x.t2o, r.u32(), r.bytes(sz)); break; }
          case 11: { std::vector<model::Item> v; for (size_t q = 0, z = r.below(6); q < z; ++q) v.push_back({r.u16(), r.bytes(r.below(20))}); b = model::packCpf(v); break; }
          case 12: {  // many items, with or without a valid pair in front
            size_t z = r.chance(70) ? r.below(400) : r.below(16000);
            if (r.chance(50)) b = model::packCpf({});
            put(0, (size_t)(b[0] | b[1] << 8) + z);
            for (size_t q = 0; q < z && b.size() < 65000; ++q) { size_t sz = r.chance(90) ? 0 : r.below(4); b.push_back((uint8_t)r.u8()); b.push_back(r.chance(50) ? 0x80 : 0); b.push_back((uint8_t)sz); b.push_back(0); for (; sz; --sz) b.push_back(r.u8()); }
            if (r.chance(20)) b.resize(r.below(b.size() + 1));
            count("many_items");
            break;
          }
        }
        count("hostile");
        distinct("nontrivial", hashBytes(b.data(), b.size()));
      } else count("valid");
      // what may become of it
      std::vector<model::Item> items;
      bool cut = b.size() < 2, strict = !cut;
      if (!cut) {
        size_t cnt = b[0] | b[1] << 8, pos = 2;
        for (size_t i = 0; i < cnt; ++i) {
          if (pos == b.size()) { strict = false; break; }
          if (pos + 4 > b.size()) { cut = true; break; }
          size_t len = b[pos + 2] | b[pos + 3] << 8;
          if (pos + 4 + len > b.size()) { cut = true; break; }
          items.push_back({(uint16_t)(b[pos] | b[pos + 1] << 8), Bytes(b.begin() + (long)pos + 4, b.begin() + (long)(pos + 4 + len))});
          pos += 4 + len;
        }
        if (pos != b.size()) strict = false;
      }
      const char* fate = "must not be delivered";
      if (!cut && items.size() >= 2 && items[0].data.size() >= 4) {
        auto& a = items[0].data;
        uint32_t id = a[0] | a[1] << 8 | a[2] << 16 | (uint32_t)a[3] << 24;
        for (auto& y : cons) {
          if (y->t2o != id || y->closed) continue;
          auto& p = items[1].data;
          if (p.size() < y->s.t2oExtra()) continue;
          Rx z{0, 0, {}, !hostile};
          model::Rd rd(p);
          if (y->s.seqCount()) z.seq = rd.u16();
          if (y->s.t2oRtf) z.header = rd.u32();
          z.data = rd.rest();
          if (y->s.t2oFixed && z.data.size() != y->s.t2oSize) continue;
          if (hostile && strict && items.size() == 2 && (items[0].type == 0x8002 || items[0].type == 0xA1) && items[1].type == 0xB1 && items[0].data.size() == (items[0].type == 0xA1 ? 4u : 8u) &&
              z.data.size() <= y->s.t2oSize) z.must = true;
          fate = z.must ? "must be delivered" : "may be delivered";
          y->want.push_back(z);
        }
      }
      if (r.chance(50)) at += (Ns)r.below(2 * MS);
      c.note("%s: %s %s", fate, hostile ? "hostile" : "valid", hex(b, 60).c_str());
      n.w.deliverDgram(r.chance(70) ? Addr{t.at.ip, 2222} : Addr{r.u32(), r.u16()}, 2222, b, at);
    }
    // several polls until everything has arrived
    Ns until = n.w.now + at;
    failing.clear();
    if (r.chance(35)) {
      for (size_t i = 0; i < cons.size(); ++i) if (!cons[i]->closed && r.chance(50)) failing.insert(i);
      static const int errs[] = {ENETUNREACH, EHOSTUNREACH, ECONNREFUSED, EAGAIN, ENOBUFS, EPERM, EINTR, ENETDOWN, EMSGSIZE, ENOMEM};
      sendErr = errs[r.below(10)];
    }
    bool recvFails = r.chance(15);
    if (recvFails) {
      static const int errs[] = {ENOMEM, ECONNREFUSED, EAGAIN, EHOSTUNREACH, ENOBUFS};
      recvErr = errs[r.below(5)];
      recvLeft = 1 + (int)r.below(3);
    }
    bool selectFails = r.chance(10);
    if (selectFails) {
      static const int errs[] = {ENOMEM, EINVAL, EBADF};
      selectErr = errs[r.below(3)];
      selectLeft = 1 + (int)r.below(3);
    }
    if (r.chance(10)) randomSignals(n.w, r, 2, n.w.now, n.w.now + 10 * MS);
    int more = 3 + (int)r.below(6);
    do {
      for (auto& x : cons) { x->called = false; x->frames = x->failed = 0; }
      if (r.chance(50)) n.w.advance((Ns)r.below(30) * MS);
      c.phase("poll");
      bool couldThrow = recvLeft > 0 || selectLeft > 0;
      auto e = outcome(c, [&] { m.handleConnections(std::chrono::milliseconds(r.below(8))); });
      CHECK(e.empty() || couldThrow, "poll-throws", "%s", e.c_str());
      Ns end = n.w.now;
      for (auto& x : cons) {
        if (x->closed || !e.empty()) continue;
        if (x->called) {
          count("productions");
          CHECK(x->frames == 1 || (x->failed && !x->frames), "frame-lost", "connection %x: %d frames although nothing failed", x->o2t, x->frames);
        } else CHECK(end - x->last < x->api + tol, "production-stopped", "connection %x with an interval of %lld us did not produce %lld us after the previous time", x->o2t, (long long)(x->api / US), (long long)((end - x->last) / US));
      }
      if (--more < 3) { failing.clear(); recvLeft = selectLeft = 0; }  // the failures are over
    } while (n.w.now <= until || more > 0);
    {
      auto e = outcome(c, [&] { for (auto& x : cons) { x->called = false; x->frames = x->failed = 0; } m.handleConnections(std::chrono::milliseconds(1)); });
      CHECK(e.empty(), "poll-throws", "%s", e.c_str());
    }
    CHECK(n.w.dgramsDropped == 0, "harness-dropped", "%llu datagrams", (unsigned long long)n.w.dgramsDropped);
    for (auto& x : cons) {
      size_t k = 0;
      auto same = [](const Rx& a, const Rx& b) { return a.header == b.header && a.seq == b.seq && a.data == b.data; };
      for (auto& g : x->got) {
        while (k < x->want.size() && !same(g, x->want[k]) && !x->want[k].must) ++k;
        CHECK(k < x->want.size(), "hostile-delivered", "connection %x was given %s (seq %u, header %x)", x->t2o, hex(g.data).c_str(), g.seq, g.header);
        CHECK(same(g, x->want[k]), "data-changed", "connection %x was given %s (%zu bytes, seq %u, header %x) instead of %s (%zu bytes, seq %u, header %x)", x->t2o, hex(g.data).c_str(), g.data.size(), g.seq, g.header, hex(x->want[k].data).c_str(),
              x->want[k].data.size(), x->want[k].seq, x->want[k].header);
        ++k;
      }
      while (k < x->want.size() && !x->want[k].must) ++k;
      CHECK(k == x->want.size(), "lost", "connection %x was not given %s", x->t2o, hex(x->want[k].data).c_str());
      x->got.clear();
      x->want.clear();
    }
    if (r.chance(6)) {
      auto& x = *r.pick(cons);
      if (!x.closed) {
        c.phase("close");
        auto e = outcome(c, [&] { m.forwardClose(si, x.w); });
        CHECK(e.empty(), "close", "%s", e.c_str());
        x.closed = true;
      }
    }
    dirtyStack(r.u8());
  }
  n.w.onDgram = nullptr;
  for (auto& x : cons) CHECK(x->closed == x->w.expired(), "dropped", "connection %x", x->t2o);
  c.phase("end");
  expectSane(c, n.w);
}
