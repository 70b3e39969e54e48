// Outgoing I/O data: when, where to, and what it says.
#include "io.h"

using namespace io;

namespace prop {
const char* const kProperty = "I03";
const uint64_t kQuickCases = 7000, kThoroughCases = 500000;
const char* const kRule =
    "a case opens 1-6 connections with agreed intervals from 0.5 ms to hours, random classes, formats, sizes, addresses and ports, and polls them up to 400 times at gaps from a few "
    "microseconds to many intervals, changing the data, with send listeners that replace it, with other traffic and signals; a few cases produce 70000 frames; every "
    "poll is judged against an independent schedule; non-trivial: distinct (class, format, interval, polling pattern)";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"frames", 8000}, {"polls_without_frame", 8000}, {"rapid_polls", 1000}, {"announced_address", 100}, {"announced_behind_others", 100}, {"wrong_size", 300}, {"listener_data", 1000}};
}  // namespace prop

namespace {
struct Con {
  Spec s;
  es::IOConnection::WPtr w;
  uint32_t o2t = 0;
  Ns api = 0;
  Addr to;
  size_t target = 0;
  Bytes data;
  int mode = 0;                     // 0 plain, 1 listener only looks on, 2 listener replaces the data
  Ns lo = 0, hi = 0;                // the previous production was between these times
  std::optional<uint32_t> encSeq;
  std::optional<uint16_t> seqCount;
  uint32_t skipped = 0;             // productions since the last frame that were not sent
  int called = 0, frames = 0;       // in this poll
  Bytes atCall;
  Ns calledAt = 0, sentAt = 0;
  bool closed = false;
};
}  // namespace

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  bool exact = r.chance(70);
  if (exact) n.w.callCost = 0;
  bool marathon = c.index % 3001 == 5;
  if (marathon) n.w.budget = 20000000;
  std::vector<std::unique_ptr<Target>> targets;
  std::vector<std::shared_ptr<es::SessionInfo>> si;
  Con* opening = nullptr;
  for (size_t i = 0, k = 1 + r.below(3); i < k; ++i) {
    auto t = std::make_unique<Target>(randomHost(r));
    while (std::any_of(targets.begin(), targets.end(), [&](auto& o) { return o->at.ip == t->at.ip; })) t->at = sim::addr(randomHost(r), 44818);
    t->nextId = 0x5000 + 0x1000 * (uint32_t)i;
    t->install(n.w);
    t->setup();
    auto* tp = t.get();
    t->plan = [&, tp](Open& o, model::Rep& rep) {
      o.o2t = opening->o2t;
      o.o2tApi = (uint32_t)(opening->api / US);
      o.t2oApi = 4000000000u;
      opening->to = Addr{tp->at.ip, 2222};
      auto others = [&] {
        for (uint64_t k = r.chance(70) ? 0 : r.below(6); k--;) rep.extra.push_back(r.chance(50) ? model::sockaddrItem(0x8001, Addr{r.u32(), r.u16()}) : model::Item{(uint16_t)(r.chance(50) ? 0x8002 : 1 + r.below(0x7FFF)), r.bytes(r.below(24))});
      };
      if (r.chance(50)) {
        uint32_t ip = r.chance(40) ? 0 : r.u32() | 1;
        uint16_t port = r.chance(40) ? 2222 : (uint16_t)(1 + r.below(65535));
        others();
        if (rep.extra.size() > 1) count("announced_behind_others");
        rep.extra.push_back(model::sockaddrItem(0x8000, Addr{ip, port}));
        others();
        opening->to = Addr{ip ? ip : tp->at.ip, port};
        count("announced_address");
      } else others();
    };
    targets.push_back(std::move(t));
    si.push_back(openSession(*targets[i], 20 * SEC));
  }
  es::ConnectionManager m;
  std::vector<std::unique_ptr<Con>> cons;
  bool polling = false;
  n.w.onDgram = [&](const sim::Dgram& d) {
    c.check(polling, "sent-outside-polls", "to %s", d.to.str().c_str());
    auto f = model::parseIo(d.data);
    c.check(f.ok, "frame", "not an I/O frame: %s", hex(d.data).c_str());
    Con* x = nullptr;
    for (auto& k : cons) if (k->o2t == f.connId) x = k.get();
    c.check(x, "o2t-id", "unknown connection %x", f.connId);
    c.check(!x->closed, "sent-after-close", "for connection %x", f.connId);
    c.check(d.to == x->to, "address", "connection %x sends to %s instead of %s", x->o2t, d.to.str().c_str(), x->to.str().c_str());
    c.check(++x->frames == 1, "two-frames", "connection %x sent twice in one poll", x->o2t);
    x->sentAt = d.t;
    auto steps = [&](const char* what, uint64_t from, uint64_t to, uint64_t mod) {
      uint64_t by = (to - from) & mod;
      c.check(by >= 1 && by <= 1 + x->skipped, what, "%llu after %llu with %u not sent", (unsigned long long)to, (unsigned long long)from, x->skipped);
    };
    if (x->encSeq) steps("sequence-number", *x->encSeq, f.seq, 0xFFFFFFFF);
    x->encSeq = f.seq;
    model::Rd rd(f.data);
    c.check(f.data.size() >= x->s.o2tExtra(), "frame-size", "%zu bytes", f.data.size());
    if (x->s.seqCount()) {
      uint16_t q = rd.u16();
      if (x->seqCount) steps("sequence-count", *x->seqCount, q, 0xFFFF);
      x->seqCount = q;
    }
    if (x->s.o2tRtf) { uint32_t hd = rd.u32(); c.check(hd == 1, "run-header", "%x", hd); }
    Bytes data = rd.rest();
    const Bytes& want = x->called ? x->atCall : x->data;
    c.check(data == want, "data", "connection %x: %s instead of %s", x->o2t, hex(data, 40).c_str(), hex(want, 40).c_str());
    c.check(!x->s.o2tFixed || data.size() == x->s.o2tSize, "wrong-size-sent", "%zu bytes instead of %u", data.size(), x->s.o2tSize);
    x->skipped = 0;
  };
  auto randomData = [&](Con& x) {
    size_t k = x.s.o2tFixed ? (r.chance(85) ? x.s.o2tSize : r.below(x.s.o2tSize + 5)) : r.below(x.s.o2tSize + 1);
    return r.bytes(k);
  };
  uint32_t nextO2t = (uint32_t)r.edgy(32);
  static const Ns bases[] = {500 * US, 1 * MS, 1500 * US, 2 * MS, 10 * MS, 33333 * US, 100 * MS, SEC, 60 * SEC, 4000 * SEC};
  Ns base = bases[r.below(10)];
  if (marathon) base = 1 * MS;
  auto open = [&] {
    auto x = std::make_unique<Con>();
    x->s = randomSpec(r, r.chance(10) ? 9000 : 60);
    x->s.mult = 7;
    x->o2t = nextO2t;
    nextO2t += 1 + (uint32_t)r.below(3);
    x->api = marathon || r.chance(60) ? base : (Ns)(1 + r.below(2 * (uint64_t)base / US)) * US;
    if (x->api > 4294 * SEC) x->api = 4294 * SEC;
    x->target = r.below(targets.size());
    opening = x.get();
    c.phase("open");
    x->lo = n.w.now;
    auto e = outcome(c, [&] { x->w = m.forwardOpen(si[x->target], x->s.params(), x->s.large); });
    CHECK(e.empty() && !x->w.expired(), "open", "%s", e.c_str());
    x->hi = n.w.now;
    auto p = x->w.lock();
    x->mode = marathon ? 0 : (int)r.below(3);
    if (x->mode != 2) { x->data = x->mode == 0 && x->s.o2tFixed ? r.bytes(x->s.o2tSize) : randomData(*x); p->setDataToSend(x->data); }
    Con* raw = x.get();
    if (x->mode) p->setSendDataListener([&, raw](Bytes& d) {
      c.check(polling, "listener-outside-polls", "connection %x", raw->o2t);
      c.check(!raw->closed, "listener-after-close", "connection %x", raw->o2t);
      c.check(++raw->called == 1 && !raw->frames, "two-productions", "connection %x", raw->o2t);
      raw->calledAt = n.w.now;
      if (raw->mode == 2) { d = randomData(*raw); raw->data = d; count("listener_data"); }
      else c.check(d == raw->data, "listener-data", "the listener was shown %s instead of %s", hex(d).c_str(), hex(raw->data).c_str());
      raw->atCall = raw->data;
    });
    cons.push_back(std::move(x));
  };
  for (size_t i = 0, k = marathon ? 1 : 1 + r.below(5); i < k; ++i) open();
  const Ns tol = 100 * US + 40 * n.w.callCost;
  int polls = marathon ? 70000 : (int)(20 + r.below(r.chance(20) ? 400 : 60));
  int style = (int)r.below(5);
  uint32_t noise = 0;
  for (int i = 0; i < polls && n.w.now < 1500000 * SEC; ++i) {  // before the connections time out
    // the gap between polls
    Ns gap = 0, wait = 0;
    int st = style == 4 ? (int)r.below(4) : style;
    switch (marathon ? 9 : st) {
      case 0: gap = (Ns)r.below(400 * (uint64_t)US); count("rapid_polls"); break;
      case 1: gap = (Ns)r.below((uint64_t)base / 3 + 1); break;
      case 2: wait = (Ns)r.below((uint64_t)std::min<Ns>(base, 50 * SEC) / MS + 2) * MS; break;
      case 3: gap = (Ns)r.below(3 * (uint64_t)base + 1); if (r.chance(50)) wait = (Ns)r.below(3) * MS; break;
      case 9: gap = base + 5 * US; break;
    }
    if (gap) n.w.advance(gap);
    if (r.chance(3)) randomSignals(n.w, r, 2, n.w.now, n.w.now + wait + MS);
    if (!marathon && r.chance(10)) n.w.deliverDgram(Addr{r.u32(), 2222}, 2222, model::packIo(r.u32(), noise++, r.bytes(r.below(30))), (Ns)r.below(2 * MS));
    for (auto& x : cons) {
      x->called = x->frames = 0;
      if (!x->closed && x->mode != 2 && r.chance(10)) {
        if (x->mode == 1) x->data = randomData(*x);
        else x->data = x->s.o2tFixed ? r.bytes(x->s.o2tSize) : randomData(*x);
        x->w.lock()->setDataToSend(x->data);
      }
    }
    c.phase("poll");
    polling = true;
    auto e = outcome(c, [&] { m.handleConnections(std::chrono::milliseconds(wait / MS)); });
    polling = false;
    CHECK(e.empty(), "poll-throws", "%s", e.c_str());
    Ns end = n.w.now;
    for (auto& x : cons) {
      if (x->closed) continue;
      bool produced = x->mode ? x->called : x->frames;
      Ns when = x->mode ? x->calledAt : x->sentAt;
      if (produced) {
        CHECK(when - x->lo >= x->api - tol, "too-early", "connection %x with an interval of %lld us produced after %lld us", x->o2t, (long long)(x->api / US), (long long)((when - x->lo) / US));
        bool fits = !x->s.o2tFixed || x->data.size() == x->s.o2tSize;
        CHECK(x->frames == (fits ? 1 : 0), fits ? "not-sent" : "wrong-size-sent", "connection %x: %d frames with %zu bytes, size %u", x->o2t, x->frames, x->data.size(), x->s.o2tSize);
        if (!fits) { ++x->skipped; count("wrong_size"); }
        else count("frames");
        x->lo = x->hi = when;
        distinct("nontrivial", hashBytes(&x->api, sizeof x->api) ^ (uint64_t)(style * 16 + x->s.seqCount() * 8 + x->s.o2tRtf * 4 + x->mode));
      } else {
        CHECK(!x->frames, "sent-without-listener", "connection %x", x->o2t);
        CHECK(end - x->hi < x->api + tol, "too-late", "connection %x with an interval of %lld us did not produce %lld us after the previous time", x->o2t, (long long)(x->api / US), (long long)((end - x->hi) / US));
        count("polls_without_frame");
      }
    }
    if (marathon) continue;
    if (cons.size() < 6 && r.chance(2)) open();
    if (r.chance(2)) {
      auto& x = *r.pick(cons);
      if (!x.closed) {
        c.phase("close");
        e = outcome(c, [&] { m.forwardClose(si[x.target], x.w); });
        CHECK(e.empty(), "close", "%s", e.c_str());
        x.closed = true;
      }
    }
  }
  n.w.onDgram = nullptr;
  if (marathon) CHECK(cons[0]->encSeq && *cons[0]->encSeq >= 69990, "marathon", "the sequence number is %u", cons[0]->encSeq.value_or(0));
  for (auto& x : cons) CHECK(x->closed == x->w.expired(), "dropped", "connection %x", x->o2t);
  expectSane(c, n.w);
}
