// Descriptors under failing system calls: every call of a scenario fails once, and several at random.
#include "io.h"
#include "DiscoveryManager.h"
#include "IdentityObject.h"

using namespace io;

namespace prop {
const char* const kProperty = "S03";
const uint64_t kQuickCases = 700, kThoroughCases = 40000;
const char* const kRule =
    "a case draws a scenario (1..3 sessions with requests, discovery runs, connection managers with 0..3 I/O connections that are opened, polled, fed, closed and "
    "destroyed in different orders) and runs it without faults, then once for every system call it made with that call failing (an error plausible for the call), "
    "then with several failing calls, then with descriptor numbers around and above 1023; non-trivial: distinct (scenario, call, error) runs";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"single_faults", 20000}, {"multi_faults", 2000}, {"large_descriptors", 2000}, {"refused_connects", 300}, {"descriptors", 30000}};
}  // namespace prop

namespace {
int pickErr(Rng& r, sim::Op op) {
  auto p = [&](std::initializer_list<int> l) { return *(l.begin() + (long)r.below(l.size())); };
  // now and then one that is not among the usual
  static const int others[] = {EPERM, EIO, ENOMEM, EACCES, ECONNRESET, ECONNABORTED, ENETRESET, ENOTCONN, ETIMEDOUT, EHOSTUNREACH, ENOBUFS, EPROTO, EHOSTDOWN, ENETDOWN};
  if (r.chance(25) && op != sim::Op::Close) return others[r.below(14)];
  switch (op) {
    case sim::Op::Socket: return p({EMFILE, ENFILE, ENOBUFS, ENOMEM, EACCES});
    case sim::Op::Connect: return p({ECONNREFUSED, ECONNRESET, ENETUNREACH, ETIMEDOUT, EADDRNOTAVAIL, EACCES, EINTR, EAGAIN});
    case sim::Op::Bind: return p({EADDRINUSE, EACCES, EADDRNOTAVAIL});
    case sim::Op::Close: return p({EIO, EINTR});
    case sim::Op::Shutdown: return p({ENOTCONN, ENOBUFS});
    case sim::Op::Send: return p({EPIPE, ECONNRESET, EAGAIN, ENOBUFS, EINTR, EHOSTUNREACH, ENETDOWN, EMSGSIZE});
    case sim::Op::Recv: return p({ECONNRESET, EAGAIN, EINTR, ENOMEM, ECONNREFUSED, ETIMEDOUT});
    case sim::Op::Select: return p({EINTR, ENOMEM, EINVAL});
    case sim::Op::Fcntl: return p({EINVAL, EACCES, EAGAIN});
    case sim::Op::SetOpt: return p({ENOPROTOOPT, EDOM, ENOMEM, EINVAL});
    case sim::Op::GetOpt: return p({ENOPROTOOPT, ENOMEM, EINVAL});
    default: return EINVAL;
  }
}

struct Result { uint64_t calls = 0; std::vector<sim::Op> ops; size_t opened = 0; bool allFine = true; std::string firstError; };

// One run. Everything random comes from `seed`, so that runs differ only by the faults.
Result scenario(Ctx& c, uint64_t seed, int fdBase, const std::function<int(const sim::Call&)>& fault, bool mustWork) {
  Rng r(seed);
  Result res;
  World w(r.next());
  sim::Scope scope(w);
  w.fdBase = fdBase;
  w.fault = [&](const sim::Call& k) { res.ops.push_back(k.op); return fault ? fault(k) : 0; };
  Target srv(randomHost(r));
  srv.setup();
  srv.install(w);
  if (r.chance(40)) w.listeners[srv.at].plan = [&r](int) {
    sim::ConnectPlan p;
    static const int errs[] = {ECONNREFUSED, ECONNRESET, EHOSTUNREACH, ENETUNREACH, ETIMEDOUT, EPIPE, EACCES, ECONNABORTED, ENOPROTOOPT, EIO};
    if (r.chance(35)) { p.kind = sim::ConnectPlan::Refuse; p.err = errs[r.below(10)]; p.delay = (Ns)r.below(400 * MS); count("refused_connects"); }
    else if (r.chance(10)) { p.kind = sim::ConnectPlan::Blackhole; count("unanswered_connects"); }
    return p;
  };
  srv.plan = [&](Open& o, model::Rep& rep) {
    if (r.chance(15)) rep.status = 1;
    if (r.chance(40)) { o.udp = Addr{r.chance(50) ? 0 : srv.at.ip, (uint16_t)(2222 + r.below(3))}; rep.extra.push_back(model::sockaddrItem(0x8000, o.udp)); }
  };
  srv.closePlan = [&](model::Rep& rep) { if (r.chance(20)) rep.status = 2; };
  srv.other = [&](const model::Req&) { return randomRep(r, 60); };
  auto attempt = [&](const char* what, const std::function<void()>& f) {
    c.phase(what);
    auto e = outcome(c, f);
    if (!e.empty()) { res.allFine = false; if (res.firstError.empty()) res.firstError = std::string(what) + ": " + e; }
    return e.empty();
  };
  int kind = (int)r.below(5);
  {
    std::vector<std::shared_ptr<es::SessionInfo>> sessions;
    auto open = [&] {
      std::shared_ptr<es::SessionInfo> si;
      attempt("create-session", [&] { si = openSession(srv, 300 * MS); });
      if (si) sessions.push_back(si);
    };
    auto request = [&] {
      if (sessions.empty()) return;
      auto si = sessions[r.below(sessions.size())];
      attempt("request", [&] { es::MessageRouter().sendRequest(si, 0x0E, es::cip::EPath(1, 1, 1), r.bytes(r.below(20))); });
    };
    if (kind == 0 || kind == 1) {
      for (int i = 0, k = 1 + (int)r.below(3); i < k; ++i) open();
      for (int i = 0, k = (int)r.below(4); i < k; ++i) {
        request();
        if (r.chance(20) && !sessions.empty()) { c.phase("destroy-session"); sessions.erase(sessions.begin() + (long)r.below(sessions.size())); }
        if (r.chance(20)) open();
      }
    } else if (kind == 2) {
      for (int i = 0, k = 1 + (int)r.below(2); i < k; ++i) {
        w.onDgram = [&](const sim::Dgram& d) {
          for (int j = 0, m = (int)r.below(4); j < m; ++j) {
            Bytes b = model::listIdentityReply({model::randomIdentity(r, srv.at)});
            if (b.size() > 500) continue;
            if (r.chance(20)) b.resize(r.below(b.size()));
            w.deliverDgramTo(d.fd, w.socks[d.fd]->gen, srv.at, b, (Ns)r.below(5 * MS));
          }
        };
        attempt("discover", [&] { es::DiscoveryManager("10.255.255.255", 44818, std::chrono::milliseconds(20)).discover(); });
      }
    } else {
      open();
      if (r.chance(30)) open();
      auto mgr = std::make_unique<es::ConnectionManager>();
      std::unique_ptr<es::ConnectionManager> second;
      std::vector<es::IOConnection::WPtr> ios;
      std::vector<es::IOConnection::SPtr> held;
      for (int i = 0, k = 2 + (int)r.below(7); i < k; ++i) {
        int what = (int)r.below(10);
        if (sessions.empty()) break;
        auto si = sessions[r.below(sessions.size())];
        auto* m = second && r.chance(40) ? second.get() : mgr.get();
        if (!m) break;
        if (ios.empty() || what < 3) {
          Spec s = randomSpec(r, 100);
          s.mult = 0;
          attempt("forward-open", [&] {
            auto io = m->forwardOpen(si, s.params(), s.large);
            if (auto p = io.lock()) {
              ios.push_back(io);
              p->setDataToSend(Bytes(s.o2tSize));
              if (r.chance(20)) held.push_back(p);
            }
          });
        } else if (what < 7) {
          if (!srv.opens.empty() && r.chance(60)) w.deliverDgram(srv.at, 2222, r.chance(70) ? model::packIo(srv.opens.back().t2o, 1, r.bytes(r.below(40))) : r.bytes(r.below(40)), (Ns)r.below(20 * MS));
          if (r.chance(30)) w.advance((Ns)r.below(700 * MS));
          attempt("poll", [&] { m->handleConnections(std::chrono::milliseconds(r.below(150))); });
        } else if (what == 7) {
          attempt("forward-close", [&] { m->forwardClose(si, ios[r.below(ios.size())]); });
        } else if (what == 8) {
          if (!second) second = std::make_unique<es::ConnectionManager>();
          else { c.phase("destroy-manager"); second.reset(); }
        } else if (r.chance(30)) { c.phase("destroy-manager"); mgr.reset(); }
        else request();
      }
      c.phase("destroy-manager");
      if (r.chance(50)) { mgr.reset(); second.reset(); held.clear(); }
      else if (r.chance(50)) { sessions.clear(); }
    }
    c.phase("destroy");
  }
  // everything is gone
  std::string what = mustWork ? "without faults" : "with a failing call";
  CHECK(w.openCount() == 0, "left-open", "%s %zu descriptors stay open after everything was destroyed (scenario %d, %s)", what.c_str(), w.openCount(), kind, res.firstError.c_str());
  expectNoMisuse(c, w);
  CHECK(!w.sigpipe, "sigpipe", "a call would have raised SIGPIPE");
  for (auto& o : w.opened) CHECK(o.closed, "left-open", "descriptor %d was never closed", o.fd);
  res.calls = w.calls;
  res.opened = w.opened.size();
  count("runs");
  count("descriptors", w.opened.size());
  count("system_calls", w.calls);
  return res;
}
}  // namespace

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  randomLogging(r);
  uint64_t seed = r.next();
  c.note("scenario seed %llx, no faults", (unsigned long long)seed);
  auto base = scenario(c, seed, 100, nullptr, true);
  // every call fails once
  for (size_t k = 0; k < base.ops.size(); ++k) {
    int tries = c.thorough ? 4 : 1;
    for (int t = 0; t < tries; ++t) {
      int err = pickErr(r, base.ops[k]);
      c.desc = "scenario seed " + std::to_string(seed) + ", call " + std::to_string(k) + " (" + sim::opName(base.ops[k]) + ") fails with error " + std::to_string(err);
      size_t at = 0;
      scenario(c, seed, 100, [&](const sim::Call&) { return at++ == k ? err : 0; }, false);
      count("single_faults");
      count(std::string("fault_") + sim::opName(base.ops[k]));
      distinct("nontrivial", hashBytes(&seed, 8) + k * 1000003 + (uint64_t)err * 7919);
    }
  }
  // several failing calls
  for (int i = 0; i < (c.thorough ? 20 : 5); ++i) {
    uint64_t s2 = r.next();
    int percent = 2 + (int)r.below(30);
    c.desc = "scenario seed " + std::to_string(seed) + ", several failing calls " + std::to_string(s2) + " " + std::to_string(percent) + "%";
    Rng f(s2);
    scenario(c, seed, r.chance(20) ? 0 : 100, [&](const sim::Call& k) { return f.chance(percent) ? pickErr(f, k.op) : 0; }, false);
    count("multi_faults");
    distinct("nontrivial", s2);
  }
  // large descriptor numbers
  for (int i = 0; i < 4; ++i) {
    int fb = i == 0 ? 1018 + (int)r.below(8) : i == 1 ? 1024 + (int)r.below(300) : i == 2 ? (int)(r.chance(50) ? 2000 + r.below(3000) : 60000 + r.below(1000000)) : 1023;
    c.desc = "scenario seed " + std::to_string(seed) + ", descriptors from " + std::to_string(fb);
    uint64_t s2 = r.next();
    bool f = r.chance(30);
    Rng fr(s2);
    scenario(c, seed, fb, [&](const sim::Call& k) { return f && fr.chance(5) ? pickErr(fr, k.op) : 0; }, false);
    count("large_descriptors");
  }
  if (c.index < 20) sample("scenario of " + std::to_string(base.ops.size()) + " system calls and " + std::to_string(base.opened) + " descriptors, each call failed in turn");
}
