// Incoming I/O data reaches exactly the connection it is addressed to.
#include "io.h"

using namespace io;

namespace prop {
const char* const kProperty = "I02";
const uint64_t kQuickCases = 9000, kThoroughCases = 500000;
const char* const kRule =
    "a case opens 1-10 connections with random and near-equal 32-bit ids, transport classes, formats and sizes through 1-2 sessions and sends up to 60 datagrams - fitting, "
    "of a wrong size for fixed-size connections, with edge-case payloads, repeated, interleaved, in bursts, before and during polls - from the adapters and from elsewhere, "
    "with listeners replaced and connections closed in between; non-trivial: distinct (class, format, fixed, payload size)";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"fitting", 8000}, {"wrong_size", 1000}, {"headers", 500}, {"seq_counts", 500}, {"big", 100}, {"during_polls", 500}, {"closed", 50}, {"closed_with_data_waiting", 150}};
}  // namespace prop

namespace {
struct Rx {
  uint32_t header;
  uint16_t seq;
  Bytes data;
  int listener;
};
struct Con {
  Spec s;
  es::IOConnection::WPtr w;
  uint32_t id;
  size_t target;
  std::vector<Rx> want, got;
  int listener = 0;
  bool closed = false;
};
}  // namespace

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  std::vector<std::unique_ptr<Target>> targets;
  std::vector<std::shared_ptr<es::SessionInfo>> si;
  std::vector<uint32_t> ids;
  auto freshId = [&] {
    for (;;) {
      uint32_t v = (uint32_t)r.edgy(32);
      if (!ids.empty() && r.chance(60)) {
        uint32_t o = r.pick(ids);
        switch (r.below(5)) {
          case 0: v = o ^ 1u << r.below(32); break;
          case 1: v = o + 1; break;
          case 2: v = o << 16 | o >> 16; break;
          case 3: v = __builtin_bswap32(o); break;
          case 4: v = o ^ 0xFFu << 8 * r.below(4); break;
        }
      }
      if (std::find(ids.begin(), ids.end(), v) == ids.end()) return v;
    }
  };
  uint32_t nextT2o = 0;
  bool fast = r.chance(30);  // the originator produces in between
  for (size_t i = 0, k = 1 + r.below(2); i < k; ++i) {
    auto t = std::make_unique<Target>(randomHost(r));
    while (i && t->at.ip == targets[0]->at.ip) t->at = sim::addr(randomHost(r), 44818);
    t->install(n.w);
    t->setup();
    t->plan = [&](Open& o, model::Rep& rep) {
      o.t2o = nextT2o;   // whatever the originator proposed, the answer decides
      o.o2tApi = fast ? 1000 + (uint32_t)r.below(20000) : 3000000000u;
      o.t2oApi = 2000000000u;
      if (r.chance(30)) rep.extra.push_back(model::sockaddrItem(0x8000, Addr{0, 2222}));
    };
    targets.push_back(std::move(t));
    si.push_back(openSession(*targets[i], 20 * SEC));
  }
  es::ConnectionManager m;
  std::vector<std::unique_ptr<Con>> cons;
  auto listen = [&](Con* x) {
    int no = ++x->listener;
    x->w.lock()->setReceiveDataListener([x, no](es::cip::CipUdint h, es::cip::CipUint s, const Bytes& d) { x->got.push_back({h, s, d, no}); });
  };
  auto open = [&] {
    auto x = std::make_unique<Con>();
    x->s = randomSpec(r, 1400);
    x->s.mult = 7;
    if (x->s.large && r.chance(30)) x->s.t2oSize = 8000 + (uint32_t)r.below(r.chance(70) ? 500 : 57000);
    x->id = nextT2o = freshId();
    ids.push_back(x->id);
    x->target = r.below(targets.size());
    c.phase("open");
    auto e = outcome(c, [&] { x->w = m.forwardOpen(si[x->target], x->s.params(), x->s.large); });
    CHECK(e.empty() && !x->w.expired(), "open", "%s", e.c_str());
    listen(x.get());
    cons.push_back(std::move(x));
  };
  for (size_t i = 0, k = 1 + r.below(8); i < k; ++i) open();
  auto poll = [&](int ms) {
    c.phase("poll");
    auto e = outcome(c, [&] { m.handleConnections(std::chrono::milliseconds(ms)); });
    CHECK(e.empty(), "poll-throws", "%s", e.c_str());
  };
  auto compare = [&] {
    for (auto& x : cons) {
      for (size_t i = 0; i < std::max(x->got.size(), x->want.size()); ++i) {
        CHECK(i < x->got.size(), "lost", "connection %x: %zu of %zu calls; missing: %s", x->id, x->got.size(), x->want.size(), hex(x->want[i].data).c_str());
        CHECK(i < x->want.size(), "unexpected", "connection %x was given %s", x->id, hex(x->got[i].data).c_str());
        auto &g = x->got[i], &w = x->want[i];
        CHECK(g.data == w.data, "data", "connection %x call %zu: %s (%zu bytes) instead of %s (%zu bytes)", x->id, i, hex(g.data).c_str(), g.data.size(), hex(w.data).c_str(), w.data.size());
        CHECK(g.seq == w.seq, "sequence-count", "connection %x call %zu: %u instead of %u", x->id, i, g.seq, w.seq);
        CHECK(g.header == w.header, "header", "connection %x call %zu: %x instead of %x", x->id, i, g.header, w.header);
        CHECK(g.listener == w.listener, "listener", "connection %x call %zu: listener %d instead of %d", x->id, i, g.listener, w.listener);
      }
      x->got.clear();
      x->want.clear();
    }
  };
  uint32_t encSeq = (uint32_t)r.edgy(32);
  for (int round = 0, rounds = 1 + (int)r.below(6); round < rounds; ++round) {
    bool during = r.chance(50);
    Ns lastArrival = 0;
    size_t volume = 0;
    for (int k = 0, burst = (int)(r.chance(80) ? r.below(8) : r.below(30)); k < burst && volume < 400000; ++k) {
      auto& x = *r.pick(cons);
      auto& s = x.s;
      bool fits = r.chance(80);
      size_t size = s.t2oFixed ? s.t2oSize : r.chance(30) ? s.t2oSize : r.below(s.t2oSize + 1);
      if (!s.t2oFixed) fits = true;
      if (!fits) {
        do size = r.chance(50) ? s.t2oSize + r.below(9) - std::min<size_t>(4, s.t2oSize) : r.below(1500); while (size == s.t2oSize);
      }
      Bytes data = r.chance(80) ? r.bytes(size) : Bytes(size, (uint8_t)(r.chance(50) ? 0 : 0xFF));
      uint16_t seq = (uint16_t)r.edgy(16);
      uint32_t header = r.chance(50) ? r.below(4) : r.u32();
      Bytes payload = t2oPayload(s, seq, header, data);
      Bytes wire;
      if (r.chance(80)) wire = model::packIo(x.id, encSeq++, payload);
      else wire = model::packCpf({{0xA1, model::Wr().u32(x.id)}, {0xB1, payload}});
      if (r.chance(8)) {  // more items than the two that matter
        std::vector<model::Item> items{{0x8002, model::Wr().u32(x.id).u32(encSeq++)}, {0xB1, payload}};
        for (uint64_t k = 1 + r.below(3); k--;) items.push_back({(uint16_t)(r.chance(60) ? 0x8000 + r.below(3) : r.u16()), r.bytes(r.below(20))});
        wire = model::packCpf(items);
        count("additional_items");
      }
      if (wire.size() > 65507) continue;
      volume += wire.size();
      Addr from = r.chance(80) ? Addr{targets[x.target]->at.ip, 2222} : Addr{r.u32(), r.u16()};
      Ns delay = during ? lastArrival + (Ns)r.below(3 * MS) : 0;
      lastArrival = delay;
      int copies = r.chance(5) ? 2 : 1;
      for (int q = 0; q < copies; ++q) {
        n.w.deliverDgram(from, 2222, wire, delay);
        c.note("to %x%s: %zu bytes (%s) seq %u header %x after %lld us", x.id, x.closed ? " (closed)" : "", size, fits ? "fits" : "does not fit", seq, header, (long long)(delay / US));
        if (fits && !x.closed) x.want.push_back({s.t2oRtf ? header : 0, (uint16_t)(s.seqCount() ? seq : 0), data, x.listener});
      }
      if (x.closed) continue;
      count(fits ? "fitting" : "wrong_size");
      if (fits && s.t2oRtf) count("headers");
      if (fits && s.seqCount()) count("seq_counts");
      if (wire.size() > 1500) count("big");
      if (during) count("during_polls");
      distinct("nontrivial", (uint64_t)(s.seqCount() * 4 + s.t2oRtf * 2 + s.t2oFixed) << 20 | size);
    }
    // a connection is closed and another opened while data for the others is waiting
    if (!during && r.chance(25)) {
      auto& x = *r.pick(cons);
      if (!x.closed) {
        c.phase("close");
        auto e = outcome(c, [&] { m.forwardClose(si[x.target], x.w); });
        CHECK(e.empty(), "close", "%s", e.c_str());
        x.closed = true;
        x.want.clear();
        count("closed_with_data_waiting");
      }
      if (r.chance(40)) open();
    }
    if (during) {
      Ns until = n.w.now + lastArrival;
      while (n.w.now <= until) poll((int)r.below(r.chance(50) ? 3 : 40));
    } else if (r.chance(30)) n.w.advance((Ns)r.below(5 * MS));
    poll((int)r.below(2));
    if (r.chance(10)) randomSignals(n.w, r, 3, n.w.now, n.w.now + 20 * MS);
    CHECK(n.w.dgramsDropped == 0, "harness-dropped", "%llu datagrams", (unsigned long long)n.w.dgramsDropped);
    compare();
    dirtyStack(r.u8());
    auto& x = *r.pick(cons);
    if (!x.closed && r.chance(20)) listen(&x);
    if (!x.closed && r.chance(10)) {
      c.phase("close");
      auto e = outcome(c, [&] { m.forwardClose(si[x.target], x.w); });
      CHECK(e.empty(), "close", "%s", e.c_str());
      x.closed = true;
      count("closed");
    }
    if (r.chance(10)) open();
  }
  for (auto& x : cons) CHECK(x->closed == x->w.expired(), "dropped", "connection %x", x->id);
  expectSane(c, n.w);
}
