// How long a silent peer is waited for, in virtual time.
#include "net.h"

using namespace net;

namespace prop {
const char* const kProperty = "S05";
const uint64_t kQuickCases = 40000, kThoroughCases = 1600000;
const char* const kRule =
    "a case creates a session with a timeout of 1 ms .. 100 s (the system itself gives up connecting after about two minutes; where the connection comes in time also up to weeks): with a peer that accepts in time, too late or never, that stalls at some byte of the register answer or "
    "of a later reply after any number of well spaced pieces, or that answers completely with gaps below the timeout; signals interrupt at random and at the critical times; "
    "the virtual time of the outcome is compared with the silence the peer showed; non-trivial: distinct (stage, cut, timeout, interruptions) combinations";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"stalls_in_register", 100}, {"stalls_in_reply", 100}, {"connect_timeouts", 80}, {"slow_answers", 200}, {"interruptions", 300}, {"long_timeouts", 15}};
}  // namespace prop

namespace {
const Ns SLACK = 5 * MS;
}

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  model::Server s(randomHost(r));
  s.install(n.w);
  bool dflt = r.chance(15);
  Ns T = dflt ? 1000 * MS
              : (Ns)(r.chance(20) ? 1 + r.below(20) : r.chance(20) ? 1000 * (1 + r.below(5)) : r.chance(10) ? 20000 * (1 + r.below(5)) : 20 + r.below(4000)) * MS;
  enum { Never, Late, StallRegister, StallReply, Answer } kind = (decltype(Never))r.below(5);
  if (!dflt && kind >= StallRegister && r.chance(8)) {  // minutes to weeks; the system does not let a connection attempt take that long
    T = (Ns)(r.chance(50) ? 1 + r.below(4000) : 1 + r.below(2000000)) * SEC + (Ns)r.below(1000) * MS;
    count("long_timeouts");
  }
  n.w.callCost = (Ns)r.below(3) * 500;
  Ns near = std::max<Ns>(1, T - std::max<Ns>(T / 20, 200 * US));  // "within the timeout" with a margin
  auto gap = [&] { return r.chance(30) ? near : (Ns)r.below((uint64_t)near); };
  // ---- the plan
  Ns connDelay = kind == Late ? T + std::max<Ns>(T / 20, SLACK) + (Ns)r.below((uint64_t)T * 2) : r.chance(40) ? std::min(gap(), 100 * SEC) : r.chance(30) ? 0 : (Ns)r.below((uint64_t)std::min<Ns>(near, 10 * MS));
  n.w.listeners[s.at].plan = [=](int) {
    if (kind == Never) return sim::ConnectPlan{sim::ConnectPlan::Blackhole, 0};
    return sim::ConnectPlan{sim::ConnectPlan::Accept, connDelay};
  };
  int requests = kind == StallReply ? 1 + (int)r.below(3) : kind == Answer ? (int)r.below(4) : 0;
  int stallAt = kind == StallRegister ? -1 : kind == StallReply ? requests - 1 : 1000;
  Ns lastByte = -1;   // when the last byte of the peer arrives
  size_t cutAt = 0, whole = 0;
  bool slow = false;
  std::vector<model::Rep> reps;
  s.cip = [&](const model::Req&) { reps.push_back(randomRep(r, 200, 10)); return reps.back(); };
  s.deliver = [&](sim::Conn& conn, Bytes b, int k) {
    whole = b.size();
    if (k >= stallAt || (k == -1 && stallAt == -1)) {
      cutAt = r.chance(15) ? 0 : r.chance(30) ? (r.chance(50) ? 24 : whole - 1) : r.below(whole);
      cutAt = std::min(cutAt, whole - 1);
      b.resize(cutAt);
    }
    lastByte = n.w.now;
    if (b.empty()) return;
    size_t pieces = 1 + r.below(4);
    if (r.chance(5)) pieces = b.size();
    std::set<size_t> cuts;
    for (size_t i = 1; i < pieces; ++i) if (b.size() > 1) cuts.insert(1 + r.below(b.size() - 1));
    cuts.insert(b.size());
    Ns t = 0;
    size_t p = 0;
    for (size_t q : cuts) {
      Ns g = r.chance(50) ? gap() : (Ns)r.below((uint64_t)std::min<Ns>(near, 5 * MS));
      if (g > T / 2) slow = true;
      t += g;
      conn.send(Bytes(b.begin() + (long)p, b.begin() + (long)q), t);
      p = q;
    }
    lastByte = n.w.now + t;
  };
  if (r.chance(50)) {
    for (int i = 0, k = (int)r.below(12); i < k; ++i) n.w.signals.insert((Ns)r.below((uint64_t)T * 3));
    if (r.chance(50)) for (int i = 0, k = (int)r.below(4); i < k; ++i) n.w.signals.insert(T - 1 * MS + (Ns)r.below(3) * MS);
  }
  c.note("kind %d timeout %lld ms, connection after %lld us, %d requests", (int)kind, (long long)(T / MS), (long long)(connDelay / US), requests);
  // ---- what happens
  c.phase("create");
  std::shared_ptr<es::SessionInfo> si;
  Ns t0 = n.w.now;
  auto e = outcome(c, [&] {
    si = dflt ? std::make_shared<es::SessionInfo>(sim::dotted(s.at.ip), s.at.port) : openSession(s, T);
  });
  auto judgeTimeout = [&](const char* what, Ns silentSince) {
    Ns t = n.w.now - silentSince, hits = (Ns)n.w.signalsHit;
    CHECK(!e.empty(), std::string("no-error-") + what, "the operation succeeded");
    CHECK(t >= T - std::min<Ns>(MS, T / 4), std::string("too-early-") + what, "failed after %lld us of silence, the timeout is %lld us (%s)", (long long)(t / US), (long long)(T / US), e.c_str());
    CHECK(t <= T + hits * T + SLACK, std::string("too-late-") + what, "failed after %lld us of silence, the timeout is %lld us, %lld interruptions", (long long)(t / US), (long long)(T / US), (long long)hits);
  };
  bool done = false;
  if (kind == Never || kind == Late) {
    count("connect_timeouts");
    if (kind == Late && e.empty()) CHECK(n.w.signalsHit > 0, "no-error-connect", "connected %lld us after the start with a timeout of %lld us", (long long)(connDelay / US), (long long)(T / US));
    else judgeTimeout("connect", t0);
    if (e.empty()) { s.deliver = nullptr; }
    CHECK(e.empty() || n.w.openCount() == 0, "left-open", "a socket is open after the failure");
    done = true;
  } else if (kind == StallRegister) {
    count("stalls_in_register");
    judgeTimeout("register", lastByte);
    CHECK(n.w.openCount() == 0, "left-open", "a socket is open after the failure");
    done = true;
  } else {
    CHECK(e.empty(), "spurious-create", "the connection came after %lld us and the answer without a pause of the timeout %lld us, but: %s", (long long)(connDelay / US), (long long)(T / US), e.c_str());
  }
  for (int i = 0; !done && i < requests; ++i) {
    n.w.advance(r.chance(50) ? 0 : (Ns)r.below(2 * (uint64_t)T));
    c.phase("request");
    es::cip::MessageRouterResponse got;
    Ns start = n.w.now;
    (void)start;
    e = outcome(c, [&] { got = es::MessageRouter().sendRequest(si, 0x0E, es::cip::EPath(1, 1, 1), {}); });
    if (i == stallAt) {
      count("stalls_in_reply");
      judgeTimeout("reply", lastByte);
    } else {
      CHECK(e.empty(), "spurious-reply", "an answer without a pause of the timeout %lld us was lost: %s", (long long)(T / US), e.c_str());
      CHECK(got.getData() == reps.back().data && (unsigned)got.getGeneralStatusCode() == reps.back().status, "reply", "%s", hex(got.getData()).c_str());
      count("answers");
    }
  }
  if (slow) count("slow_answers");
  c.phase("destroy");
  Ns t1 = n.w.now;
  si.reset();
  CHECK(n.w.now - t1 <= T + SLACK, "slow-destruction", "%lld us", (long long)((n.w.now - t1) / US));
  expectClosed(c, n.w, "after the session");
  expectSane(c, n.w);
  distinct("nontrivial", (uint64_t)kind + cutAt * 8 + whole * 4096 + (uint64_t)(T / MS) * 1000003 + n.w.signalsHit * 7919);
  if (c.index < 30) sample("kind " + std::to_string(kind) + " timeout " + std::to_string(T / MS) + " ms cut " + std::to_string(cutAt) + "/" + std::to_string(whole) + " ended after " + std::to_string(n.w.now / US) + " us, " + std::to_string(n.w.signalsHit) + " interruptions");
}
