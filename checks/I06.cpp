// Connections come and go at any time, also from within listeners.
#include "io.h"

using namespace io;

namespace prop {
const char* const kProperty = "I06";
const uint64_t kQuickCases = 10000, kThoroughCases = 600000;
const char* const kRule =
    "a case performs up to 60 random actions on 1-2 managers: opening (ids are reused), polling, explicit closing (again, after timeouts, with refusals), letting connections "
    "time out, replacing data, destroying managers, while receive, send and close listeners open and close connections of either manager and replace each other and themselves; datagrams are under way "
    "all the time; non-trivial: distinct sequences of (action, listener action)";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"opens", 3000}, {"closes", 1000}, {"closes_in_listeners", 600}, {"opens_in_listeners", 150}, {"self_closes", 200}, {"timeouts", 400}, {"managers_destroyed", 200}, {"empty_polls", 300}, {"ids_of_held_connections", 60}, {"reopens_in_listeners", 100}, {"replaced_in_listeners", 100}};
}  // namespace prop

namespace {
enum { None, CloseSelf, CloseOther, OpenNew, CloseTwo, SetData, Reopen, Replace };
struct Con {
  int no = 0;
  Spec s;
  es::IOConnection::WPtr w;
  es::IOConnection::SPtr held;
  uint32_t o2t = 0, t2o = 0;
  Ns timeout = 0, lastRx = 0;
  size_t manager = 0;
  bool open = false, closeListener = true, closing = false;
  Bytes captured;
  int plan[3] = {0, 0, 0};           // what the receive, send and close listeners do
  int fuse[3] = {0, 0, 0};           // at which call
  int calls[3] = {0, 0, 0};
  int gen[3] = {0, 0, 0};            // how often each listener was set
  std::vector<Bytes> want, got;
};
struct Case {
  Ctx& c;
  Rng& r;
  Net n;
  Target t;
  std::shared_ptr<es::SessionInfo> si;
  std::vector<std::unique_ptr<es::ConnectionManager>> ms;
  std::vector<std::unique_ptr<Con>> cons;
  Con* opening = nullptr;
  uint32_t nextId = 0x9000, sameId = 0;
  uint64_t history = 7;
  int depth = 0;
  bool refuse = false, refuseClose = false;
  std::vector<int> polling;

  explicit Case(Ctx& cc) : c(cc), r(cc.r), n(cc), t(randomHost(cc.r)) {}
  void did(int what) { history = history * 1099511628211ull + (uint64_t)what; }
  const Ns tol = 300 * US;

  void judgeTimeout(Con& x) {
    Ns idle = n.w.now - x.lastRx;
    CHECK(idle > x.timeout - tol, "closed-too-early", "connection %d with a timeout of %lld us was closed %lld us after its last data", x.no, (long long)(x.timeout / US), (long long)(idle / US));
    count("timeouts");
  }
  void listenerRuns(Con& x, int kind, const char* what) {
    c.check(x.open, std::string("listener-after-close-") + what, "connection %d", x.no);
    c.check(polling[x.manager] > 0, std::string("listener-outside-polls-") + what, "connection %d", x.no);
    did(100 + kind);
    if (++x.calls[kind] != x.fuse[kind] || depth >= 3) return;
    ++depth;
    did(200 + x.plan[kind]);
    c.note("  the %s listener of connection %d does %d", what, x.no, x.plan[kind]);
    switch (x.plan[kind]) {
      case CloseSelf: close(x, true); count("self_closes"); break;
      case CloseOther: closeAny(); break;
      case CloseTwo: closeAny(); closeAny(); break;
      case Reopen: close(x, true); sameId = x.t2o; open(); sameId = 0; count("reopens_in_listeners"); break;
      case OpenNew: open(); count("opens_in_listeners"); break;
      case Replace: if (x.w.lock() && x.open) { for (int k = 0; k < 3; ++k) if (k == kind || r.chance(50)) listen(x, k); count("replaced_in_listeners"); } break;
      case SetData: { auto p = x.w.lock(); if (p && kind != 1) p->setDataToSend(r.bytes(r.below(40))); break; }
    }
    --depth;
  }
  void closeAny() {
    if (cons.empty()) return;
    auto& x = *r.pick(cons);
    close(x, true);
  }
  void close(Con& x, bool inside) {
    if (!ms[x.manager]) return;
    size_t before = t.closes.size();
    bool was = x.open;
    refuseClose = r.chance(15);
    c.note("%sclose connection %d (%s)", inside ? "    " : "", x.no, was ? "open" : "already closed");
    auto e = outcome(c, [&] { ms[x.manager]->forwardClose(si, r.chance(80) || !x.held ? x.w : es::IOConnection::WPtr(x.held)); });
    refuseClose = false;
    CHECK(e.empty(), "close-throws", "%s", e.c_str());
    if (was) {
      // a connection without close listener may have timed out in this very poll
      if (!x.closing && (x.closeListener || !inside)) CHECK(t.closes.size() == before + 1, "no-close-request", "connection %d", x.no);
      count("closes");
      if (inside) count("closes_in_listeners");
    } else CHECK(t.closes.size() == before, "closed-again", "connection %d", x.no);
    x.open = false;
  }
  void listen(Con& x, int kind) {
    auto p = x.w.lock();
    Con* raw = &x;
    // what a listener captured must live until the listener returns, even if it closed its own connection or put another in its place
    Bytes own = x.captured;
    int gen = ++x.gen[kind];
    if (kind == 0) p->setReceiveDataListener([this, raw, own, gen](auto, auto, const Bytes& d) {
      c.check(gen == raw->gen[0], "old-listener", "receive listener %d of connection %d was called, it is at %d", gen, raw->no, raw->gen[0]);
      Bytes before = d;
      raw->lastRx = n.w.now;
      raw->got.push_back(d);
      listenerRuns(*raw, 0, "receive");
      c.check(own == raw->captured, "listener-destroyed", "the receive listener of connection %d lost what it captured", raw->no);
      c.check(d == before, "data-destroyed", "the data handed to the receive listener of connection %d changed under it", raw->no);
    });
    if (kind == 1) p->setSendDataListener([this, raw, own, gen](Bytes& d) {
      c.check(gen == raw->gen[1], "old-listener", "send listener %d of connection %d was called, it is at %d", gen, raw->no, raw->gen[1]);
      d.assign(raw->s.o2tSize, 1);
      listenerRuns(*raw, 1, "send");
      c.check(own == raw->captured, "listener-destroyed", "the send listener of connection %d lost what it captured", raw->no);
      d.assign(raw->s.o2tSize, 2);
    });
    if (kind == 2 && x.closeListener) p->setCloseListener([this, raw, own, gen] {
      c.check(gen == raw->gen[2], "old-listener", "close listener %d of connection %d was called, it is at %d", gen, raw->no, raw->gen[2]);
      judgeTimeout(*raw);
      raw->closing = true;
      listenerRuns(*raw, 2, "close");
      raw->closing = false;
      c.check(own == raw->captured, "listener-destroyed", "the close listener of connection %d lost what it captured", raw->no);
      raw->open = false;
    });
  }
  Con* open() {
    std::vector<size_t> alive;
    for (size_t i = 0; i < ms.size(); ++i) if (ms[i]) alive.push_back(i);
    if (alive.empty() || cons.size() > 40) return nullptr;
    auto u = std::make_unique<Con>();
    Con& x = *u;
    x.no = (int)cons.size();
    x.manager = r.pick(alive);
    x.s = randomSpec(r, 30);
    x.s.mult = (uint8_t)r.below(3);
    x.o2t = nextId++;
    x.t2o = nextId++;
    // targets reuse ids at once, also while somebody still holds the closed connection
    if (r.chance(50)) for (auto& o : cons) if (!o->open && r.chance(70)) x.t2o = o->t2o;
    if (sameId) x.t2o = sameId;
    for (auto& o : cons) if (o->open && o->t2o == x.t2o) x.t2o = nextId++;
    for (auto& o : cons) if (!o->w.expired() && o->t2o == x.t2o) { count("ids_of_held_connections"); break; }
    opening = &x;
    refuse = r.chance(8);
    uint32_t api = 2000 + (uint32_t)r.below(60000);
    if (r.chance(40)) api *= 1000;
    x.timeout = (Ns)(4 << x.s.mult) * api * US;
    x.s.t2oRpi = api;
    auto e = outcome(c, [&] { x.w = ms[x.manager]->forwardOpen(si, x.s.params(), x.s.large); });
    CHECK(e.empty(), "open-throws", "%s", e.c_str());
    CHECK(refuse == x.w.expired(), "open", "refused %d, expired %d", refuse, x.w.expired());
    c.note("%sopen connection %d in manager %zu%s timeout %lld us", depth ? "    " : "", x.no, x.manager, refuse ? " (refused)" : "", (long long)(x.timeout / US));
    if (refuse) { refuse = false; return nullptr; }
    x.open = true;
    x.lastRx = n.w.now;
    for (int k = 0; k < 3; ++k) {
      x.plan[k] = (int)(r.chance(45) ? 0 : r.below(8));
      x.fuse[k] = k == 2 ? 1 : 1 + (int)r.below(4);
    }
    auto p = x.w.lock();
    x.captured = r.bytes(40);
    x.closeListener = r.chance(80);
    for (int k = 0; k < 3; ++k) listen(x, k);
    if (x.closeListener && r.chance(15)) x.held = p;
    count("opens");
    cons.push_back(std::move(u));
    return cons.back().get();
  }
  void settle() {
    for (auto& x : cons)
      if (x->open && !x->closeListener && x->w.expired()) { judgeTimeout(*x); x->open = false; }
    for (auto& x : cons) {
      if (x->open) CHECK(!x->w.expired(), "lost", "connection %d is gone", x->no);
      else if (!x->held) CHECK(x->w.expired(), "handle-remains", "connection %d", x->no);
    }
    for (size_t i = 0; i < ms.size(); ++i) {
      if (!ms[i]) continue;
      size_t k = 0;
      for (auto& x : cons) k += x->open && x->manager == i;
      CHECK(ms[i]->hasOpenConnections() == (k > 0), "has-open", "manager %zu says %d with %zu open", i, ms[i]->hasOpenConnections(), k);
    }
  }
  void poll(size_t i, int ms_) {
    c.phase("poll");
    bool empty = true;
    for (auto& x : cons) if (x->open && x->manager == i) empty = false;
    Ns t0 = n.w.now;
    polling[i]++;
    auto e = outcome(c, [&] { ms[i]->handleConnections(std::chrono::milliseconds(ms_)); });
    polling[i]--;
    CHECK(e.empty(), "poll-throws", "%s", e.c_str());
    if (empty) {
      count("empty_polls");
      CHECK(n.w.now - t0 >= (Ns)ms_ * MS - MS, "empty-poll-returns-early", "after %lld us instead of %d ms", (long long)((n.w.now - t0) / US), ms_);
    }
    settle();
  }
  void run() {
    n.w.callCost = 0;
    t.install(n.w);
    t.setup();
    t.plan = [&](Open& o, model::Rep& rep) {
      o.o2t = opening->o2t;
      o.t2o = opening->t2o;
      o.o2tApi = 1000 + (uint32_t)r.below(30000);
      if (refuse) rep.status = 1;
    };
    t.closePlan = [&](model::Rep& rep) { if (refuseClose) rep.status = 1; };
    n.w.onDgram = [&](const sim::Dgram& d) {
      auto f = model::parseIo(d.data);
      for (auto& x : cons) if (f.ok && x->o2t == f.connId) c.check(x->open, "sent-after-close", "connection %d", x->no);
    };
    si = openSession(t, 20 * SEC);
    for (size_t i = 0, k = 1 + r.below(2); i < k; ++i) ms.push_back(std::make_unique<es::ConnectionManager>());
    polling.assign(ms.size(), 0);
    for (int step = 0, steps = 10 + (int)r.below(50); step < steps; ++step) {
      size_t i = r.below(ms.size());
      int action = (int)r.below(100);
      did(action / 10);
      dirtyStack(r.u8());
      if (action < 18) { c.phase("open"); open(); }
      else if (action < 26) { if (!cons.empty()) { c.phase("close"); close(*r.pick(cons), false); } }
      else if (action < 55) {  // datagrams
        for (int k = 0, q = 1 + (int)r.below(6); k < q && !cons.empty(); ++k) {
          auto& x = *r.pick(cons);
          Bytes d = r.bytes(x.s.t2oSize);
          Bytes wire = model::packIo(x.t2o, r.u32(), t2oPayload(x.s, r.u16(), 1, d));
          // a later connection may have the same id
          Con* to = nullptr;
          for (auto& o : cons) if (o->open && o->t2o == x.t2o) to = o.get();
          for (auto& [fd, s] : n.w.socks) if (!s->tcp && s->bound && s->local.port == 2222) n.w.deliverDgramTo(fd, s->gen, Addr{t.at.ip, 2222}, wire, 0);
          if (to == &x) x.want.push_back(d);
        }
      } else if (action < 92) {
        if (ms[i]) poll(i, (int)(r.chance(70) ? r.below(20) : r.below(300)));
      } else if (action < 96) n.w.advance((Ns)r.below(400) * MS);
      else if (action < 98 && ms[i]) {
        c.phase("destroy");
        c.note("destroy manager %zu", i);
        ms[i].reset();
        for (auto& x : cons) if (x->manager == i) x->open = false;
        count("managers_destroyed");
        if (r.chance(50)) ms[i] = std::make_unique<es::ConnectionManager>();
      } else if (!cons.empty()) {
        auto& x = *r.pick(cons);
        if (x.held) { x.held->setDataToSend(r.bytes(r.below(30))); if (r.chance(50)) x.held.reset(); }
        else if (auto p = x.w.lock()) p->setDataToSend(r.bytes(r.below(30)));
      }
      settle();
    }
    // what is on its way arrives
    for (size_t i = 0; i < ms.size(); ++i) if (ms[i]) poll(i, 0);
    for (auto& x : cons) {
      if (x->open) for (size_t q = 0; q < x->want.size(); ++q) CHECK(std::find(x->got.begin(), x->got.end(), x->want[q]) != x->got.end(), "data-lost", "connection %d did not get %s", x->no, hex(x->want[q]).c_str());
    }
    distinct("nontrivial", history);
    c.phase("destroy");
    ms.clear();
    for (auto& x : cons) { x->open = false; if (!x->held) CHECK(x->w.expired(), "survives-manager", "connection %d", x->no); }
    n.w.advance(SEC);
    cons.clear();
    n.w.onDgram = nullptr;
    si.reset();
    expectClosed(c, n.w, "at the end");
    expectNoMisuse(c, n.w);
    expectSane(c, n.w);
  }
};
}  // namespace

void prop::runCase(Ctx& c) { Case(c).run(); }
