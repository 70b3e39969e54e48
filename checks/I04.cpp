// Inactivity timeouts: once, not before, not (much) later.
#include "io.h"

using namespace io;

namespace prop {
const char* const kProperty = "I04";
const uint64_t kQuickCases = 9000, kThoroughCases = 700000;
const char* const kRule =
    "a case opens 1-6 connections with agreed intervals from 0 and 1 ms to 4294 s and multipliers 0-7 and polls them with gaps from microseconds to several timeouts while the adapters keep "
    "some alive, feed others data that does not fit, send just before or after the deadline, or fall silent; every poll is judged against an independent clock per connection; "
    "non-trivial: distinct (interval, multiplier, feeding pattern, polling pattern)";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"timeouts", 800}, {"kept_alive", 3000}, {"near_misses", 300}, {"long_intervals", 100}, {"queued_over_gap", 100}, {"zero_intervals", 30}};
}  // namespace prop

namespace {
struct Con {
  Spec s;
  es::IOConnection::WPtr w;
  uint32_t o2t = 0, t2o = 0;
  Ns timeout = 0;
  Ns lo = 0, hi = 0;      // data was last accepted (or the connection opened) between these times
  int feed = 0;           // 0 silent, 1 often, 2 near the deadline, 3 only data that does not fit, 4 falls silent
  Ns next = 0;
  int closeCalls = 0;
  bool listens = true;
  bool dead = false;
  size_t target = 0;
};
}  // namespace

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  if (r.chance(70)) n.w.callCost = 0;
  std::vector<std::unique_ptr<Target>> targets;
  std::vector<std::shared_ptr<es::SessionInfo>> si;
  Con* opening = nullptr;
  uint32_t t2oApi = 0;
  for (size_t i = 0, k = 1 + r.below(2); i < k; ++i) {
    auto t = std::make_unique<Target>(randomHost(r));
    while (i && t->at.ip == targets[0]->at.ip) t->at = sim::addr(randomHost(r), 44818);
    t->install(n.w);
    t->setup();
    t->plan = [&](Open& o, model::Rep&) {
      o.o2t = opening->o2t;
      o.t2o = opening->t2o;
      o.t2oApi = t2oApi;
      o.o2tApi = (uint32_t)(r.chance(50) ? t2oApi : r.chance(50) ? 0xFFFFFFFFu : 1000 + r.below(100000));
    };
    targets.push_back(std::move(t));
    si.push_back(openSession(*targets[i], 20 * SEC));
  }
  es::ConnectionManager m;
  std::vector<std::unique_ptr<Con>> cons;
  n.w.onDgram = [&](const sim::Dgram& d) {
    auto f = model::parseIo(d.data);
    for (auto& x : cons) if (f.ok && x->o2t == f.connId) c.check(!x->dead, "sent-after-timeout", "connection %x", f.connId);
  };
  bool polling = false;
  // the scale of this case
  static const uint32_t scales[] = {1000, 1500, 10000, 33333, 500000, 5000000, 140000000, 1200000000, 4294967295u};
  uint32_t scale = scales[r.below(9)];
  int mult = (int)r.below(8);
  uint32_t nextId = 0x10000 + (uint32_t)r.below(1000);
  auto open = [&] {
    auto x = std::make_unique<Con>();
    x->s = randomSpec(r, 40);
    x->s.mult = (uint8_t)(r.chance(70) ? mult : (int)r.below(8));
    t2oApi = r.chance(3) ? 0 : r.chance(70) ? scale : (uint32_t)(scale / 2 + r.below(scale / 2 + 1));
    x->timeout = (Ns)(4 << x->s.mult) * (Ns)t2oApi * US;
    x->o2t = nextId++;
    x->t2o = nextId++;
    bool reuse = false;
    for (auto& o : cons) if (o->dead && r.chance(30)) { x->t2o = o->t2o; reuse = true; }
    for (auto& o : cons) if (reuse && !o->dead && o->t2o == x->t2o) x->t2o = nextId++;
    x->target = r.below(targets.size());
    opening = x.get();
    c.phase("open");
    x->lo = n.w.now;
    auto e = outcome(c, [&] { x->w = m.forwardOpen(si[x->target], x->s.params(), x->s.large); });
    CHECK(e.empty() && !x->w.expired(), "open", "%s", e.c_str());
    x->hi = n.w.now;
    x->feed = (int)r.below(5);
    x->next = n.w.now;
    x->listens = r.chance(90);
    auto p = x->w.lock();
    if (x->s.o2tFixed) p->setDataToSend(Bytes(x->s.o2tSize, 1));
    Con* raw = x.get();
    p->setReceiveDataListener([&, raw](auto, auto, auto&) {
      c.check(!raw->dead, "received-after-timeout", "connection %x", raw->t2o);
      raw->lo = raw->hi = n.w.now;
    });
    if (x->listens) p->setCloseListener([&, raw] {
      c.check(polling, "closed-outside-polls", "connection %x", raw->t2o);
      ++raw->closeCalls;
    });
    if (t2oApi > 100000000) count("long_intervals");
    if (!t2oApi) count("zero_intervals");
    cons.push_back(std::move(x));
  };
  for (size_t i = 0, k = 1 + r.below(5); i < k; ++i) open();
  const Ns tol = 200 * US + 40 * n.w.callCost;
  const Ns T = (Ns)(4 << mult) * scale * US;
  int style = (int)r.below(4), polls = 15 + (int)r.below(50);
  for (int i = 0; i < polls; ++i) {
    Ns gap = 0, wait = 0;
    switch (style == 3 ? (int)r.below(3) : style) {
      case 0: gap = (Ns)r.below((uint64_t)T / 4 + 1); break;
      case 1: wait = (Ns)r.below((uint64_t)std::min<Ns>(T / 3, 100 * SEC) / MS + 2) * MS; if (T / 3 > 100 * SEC) gap = (Ns)r.below((uint64_t)T / 4); break;
      case 2: gap = r.chance(70) ? (Ns)r.below(300) * US : (Ns)r.below((uint64_t)T * 3 / 2); break;
    }
    // what the adapters send until the poll ends
    Ns until = n.w.now + gap + wait;
    for (auto& x : cons) {
      if (x->feed == 0 || (x->dead && !r.chance(30))) continue;
      if (x->feed == 4 && i > polls / 3) continue;
      int most = 6;
      while (x->next <= until && most-- > 0) {
        Ns t = std::max<Ns>(0, x->next - n.w.now);
        bool fits = x->feed != 3;
        size_t size = x->s.t2oSize;
        Bytes payload = t2oPayload(x->s, r.u16(), 1, r.bytes(size));
        if (!fits) {
          if (x->s.t2oFixed) payload.push_back(0);
          else { if (!x->s.t2oExtra()) break; payload.resize(r.below(x->s.t2oExtra())); }
        }
        n.w.deliverDgram(Addr{targets[x->target]->at.ip, 2222}, 2222, model::packIo(x->t2o, (uint32_t)i, payload), t);
        if (t < gap) count("queued_over_gap");
        Ns step = x->feed == 2 ? (r.chance(80) ? x->timeout - (Ns)r.below((uint64_t)std::max<Ns>(x->timeout / 10, 3 * MS)) : x->timeout + (Ns)r.below((uint64_t)x->timeout / 5 + 1)) : 1 + (Ns)r.below((uint64_t)x->timeout / 2);
        x->next = std::max(n.w.now + t, x->next) + std::max<Ns>(step, 50 * US);
      }
      if (x->next <= until) x->next = until + 1;
    }
    if (gap) n.w.advance(gap);
    if (r.chance(5)) randomSignals(n.w, r, 2, n.w.now, n.w.now + wait + MS);
    c.phase("poll");
    polling = true;
    auto e = outcome(c, [&] { m.handleConnections(std::chrono::milliseconds(wait / MS)); });
    polling = false;
    CHECK(e.empty(), "poll-throws", "%s", e.c_str());
    Ns end = n.w.now;
    size_t alive = 0;
    for (auto& x : cons) {
      bool gone = x->w.expired();
      if (x->dead) {
        CHECK(gone && (!x->listens || x->closeCalls == 1), "closed-again", "connection %x: %d close calls", x->t2o, x->closeCalls);
        continue;
      }
      Ns idleMost = end - x->lo, idleLeast = end - x->hi;
      bool shut = gone || x->closeCalls;
      if (shut) {
        CHECK(idleMost > x->timeout - tol, "closed-too-early", "connection %x with a timeout of %lld us was closed %lld us after the last data", x->t2o, (long long)(x->timeout / US), (long long)(idleMost / US));
        CHECK(gone, "handle-remains", "connection %x", x->t2o);
        if (x->listens) CHECK(x->closeCalls == 1, "close-listener", "connection %x: %d calls", x->t2o, x->closeCalls);
        x->dead = true;
        count("timeouts");
        distinct("nontrivial", hashBytes(&x->timeout, sizeof x->timeout) ^ (uint64_t)(x->feed * 16 + style));
      } else {
        // the poll may have accepted data after the tick, so judge only if the last data is older than the poll
        CHECK(idleLeast <= x->timeout + tol, "not-closed", "connection %x with a timeout of %lld us is still open %lld us after the last data", x->t2o, (long long)(x->timeout / US), (long long)(idleLeast / US));
        ++alive;
        count("kept_alive");
        if (idleLeast > x->timeout * 9 / 10) count("near_misses");
      }
    }
    CHECK(m.hasOpenConnections() == (alive > 0), "has-open", "%d with %zu connections", m.hasOpenConnections(), alive);
    if (cons.size() < 12 && r.chance(alive ? 5 : 60)) open();
    dirtyStack(r.u8());
  }
  n.w.onDgram = nullptr;
  expectSane(c, n.w);
}
