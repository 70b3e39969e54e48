// The sockets used directly: what is sent, what is received, whom it came from, how long is waited, which error is reported.
#include "net.h"
#include <system_error>
#include "sockets/TCPSocket.h"
#include "sockets/UDPBoundSocket.h"
#include "sockets/UDPSocket.h"

using namespace net;
namespace so = eipScanner::sockets;
using std::chrono::milliseconds;

namespace prop {
const char* const kProperty = "S06";
const uint64_t kQuickCases = 16000, kThoroughCases = 800000;
const char* const kRule =
    "a case opens up to six (at times dozens of) TCP, UDP and bound UDP sockets (in any order, some with failing system calls, refusing, silent or slow peers), then sends, receives and waits on them in any order while "
    "peers send streams in pieces, datagrams of 0..65507 bytes from several senders, finish, reset or stay silent, short reads and writes happen and signals interrupt; "
    "the oracle is what the simulated network carried: the bytes, the senders, the virtual times and the error numbers; non-trivial: distinct (call, sizes, outcome)";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"tcp_sends", 200}, {"tcp_received", 200}, {"tcp_short", 30}, {"tcp_timeouts", 30}, {"tcp_resets", 8}, {"connect_errors", 100},
    {"udp_sends", 200}, {"udp_received", 200}, {"udp_cut", 30}, {"udp_timeouts", 30}, {"senders_checked", 100}, {"selects", 200}, {"handled", 200}, {"select_empty", 20}, {"select_failures", 5}, {"handler_threw", 5}, {"injected_errors", 50}, {"crowds", 10}};
}  // namespace prop

namespace {
const Ns SLACK = 2 * MS;
struct Peer : sim::ServerApp {};

// What a call ended with: -1 returned, else the error number of the std::system_error; -2 another exception
int code(Ctx& c, const std::function<void()>& f, std::string* what = nullptr) {
  int v = -1;
  auto w = outcome(c, [&] {
    try { f(); }
    catch (const std::system_error& e) { v = e.code().value(); if (v <= 0 || e.code().category() != so::BaseSocket::getErrorCategory()) v = -2; throw; }
    catch (...) { v = -2; throw; }
  });
  if (what) *what = w;
  return v;
}

struct Tcp {
  std::shared_ptr<so::TCPSocket> s;
  std::shared_ptr<sim::Conn> conn;
  Bytes stream;        // all the peer has sent so far or is going to
  size_t taken = 0;    // bytes the client has received
  Bytes sent;          // all the client has sent
  bool ends = false, resets = false, dead = false;
  Ns timeout = 0;
  Ns lastPlanned = 0;  // when the last of it arrives
};
struct Udp {
  std::shared_ptr<so::UDPSocket> s;
  Addr to;
  bool bound = false;
  uint16_t port = 0;   // where it can be reached, 0: nowhere yet
  Ns timeout = 0;
};
}  // namespace

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  World& w = n.w;
  w.callCost = (Ns)r.below(3) * 500;
  w.fdBase = 3 + (int)r.below(900);
  Peer app;
  std::vector<Tcp> tcp;
  std::vector<Udp> udp;
  std::vector<Addr> senders;
  for (int i = 0; i < 3; ++i) senders.push_back(Addr{r.u32(), (uint16_t)(1 + r.below(65535))});
  // every datagram delivered to a port goes to the socket bound to it last, as the kernel does
  auto randomTimeout = [&] { return (Ns)(r.chance(20) ? 1 + r.below(10) : r.chance(20) ? 1000 * (1 + r.below(9)) : 10 + r.below(3000)) * MS; };
  auto longTime = [&] { return (Ns)(r.chance(50) ? 1 + r.below(4000) : 1 + r.below(2000000)) * SEC + (Ns)r.below(1000) * MS; };  // minutes to weeks
  int faultErr = 0;
  sim::Op faultOp = sim::Op::Clock;
  int faultAt = 0;
  bool faultHit = false;
  auto arm = [&](sim::Op op, int err, int at) {
    faultOp = op; faultErr = err; faultAt = at; faultHit = false;
    w.fault = [&](const sim::Call& k) { if (k.op != faultOp || faultAt-- != 0) return 0; faultHit = true; return faultErr; };
  };
  auto disarm = [&] { w.fault = nullptr; };
  static const int errs[] = {ENOBUFS, ENOMEM, EMFILE, EACCES, EPERM, ENETUNREACH, EHOSTUNREACH, ECONNABORTED, ENETDOWN, EIO};

  auto openTcp = [&] {
    Addr at{0x0A000000 | (uint32_t)r.below(1 << 20), (uint16_t)(1 + r.below(65535))};
    while (w.listeners.count(at)) at.port = (uint16_t)(1 + r.below(65535));
    int kind = (int)r.below(9);
    Ns T = randomTimeout();
    int ctor = (int)r.below(3);   // host and port, end point, end point and timeout
    if (ctor < 2) T = SEC;
    Ns delay = r.chance(30) ? 0 : (Ns)r.below((uint64_t)(T - std::max<Ns>(T / 20, 200 * US)));
    int perr = r.chance(50) ? ECONNREFUSED : errs[r.below(10)];
    auto& l = w.listeners[at];
    l.app = &app;
    l.plan = [=](int) {
      if (kind == 0) return sim::ConnectPlan{sim::ConnectPlan::Refuse, delay, perr};
      if (kind == 1) return sim::ConnectPlan{sim::ConnectPlan::Blackhole, 0, 0};
      return sim::ConnectPlan{sim::ConnectPlan::Accept, delay, 0};
    };
    bool inject = r.chance(15);
    static const sim::Op ops[] = {sim::Op::Socket, sim::Op::Connect, sim::Op::Fcntl, sim::Op::Select, sim::Op::GetOpt};
    if (inject) arm(ops[r.below(5)], errs[r.below(10)], (int)r.below(2));
    Tcp t;
    c.phase("open-tcp");
    c.note("TCP to %s, kind %d, after %lld us, timeout %lld us", at.str().c_str(), kind, (long long)(delay / US), (long long)(T / US));
    size_t before = w.openCount();
    Ns t0 = w.now;
    std::string what;
    auto host = sim::dotted(at.ip);
    int e = code(c, [&] {
      if (ctor == 0) t.s = std::make_shared<so::TCPSocket>(host, at.port);
      else if (ctor == 1) t.s = std::make_shared<so::TCPSocket>(so::EndPoint(host, at.port));
      else t.s = std::make_shared<so::TCPSocket>(so::EndPoint(host, at.port), milliseconds(T / MS));
    }, &what);
    disarm();
    count("opened_or_not");
    if (inject && faultHit) {
      count("injected_errors");
      CHECK(e == faultErr, "open-code", "the system said %d, the exception says %d (%s)", faultErr, e, what.c_str());
    } else if (kind == 0) {
      count("connect_errors");
      CHECK(e == perr, "connect-code", "connecting failed with %d, the exception says %d (%s)", perr, e, what.c_str());
    } else if (kind == 1) {
      count("connect_errors");
      CHECK(e == ETIMEDOUT, "connect-timeout-code", "the exception says %d (%s)", e, what.c_str());
      CHECK(w.now - t0 >= T - MS && w.now - t0 <= T + SLACK, "connect-timeout", "given up after %lld us of %lld us", (long long)((w.now - t0) / US), (long long)(T / US));
    } else CHECK(e == -1, "connect", "connecting failed: %s", what.c_str());
    if (e != -1) {
      CHECK(w.openCount() == before, "left-open-open", "a descriptor is left after a failure to open");
      return;
    }
    CHECK(w.openCount() == before + 1, "opened", "%zu descriptors opened", w.openCount() - before);
    auto it = w.socks.find(t.s->getSocketFd());
    CHECK(it != w.socks.end() && it->second->conn == w.conns.back(), "fd", "getSocketFd() says %d", t.s->getSocketFd());
    CHECK(!it->second->nonblock, "nonblocking", "the socket is left non-blocking");
    t.conn = w.conns.back();
    CHECK(t.s->getRemoteEndPoint() == so::EndPoint(host, at.port) && t.s->getRemoteEndPoint().toString() == host + ":" + std::to_string(at.port), "remote-end-point", "%s for %s", t.s->getRemoteEndPoint().toString().c_str(), at.str().c_str());
    CHECK(t.s->getRecvTimeout().count() == 0, "fresh-timeout", "%lld", (long long)t.s->getRecvTimeout().count());
    if (r.chance(30)) { size_t most = 1 + r.below(30); t.conn->chop = [&r, most](size_t k) -> size_t { return 1 + r.below(std::min(k, most)); }; }
    if (r.chance(30)) { int block = (int)r.below(30); size_t most = 1 + r.below(60); t.conn->accept = [&r, block, most](size_t k) -> size_t { return r.chance(block) ? 0 : 1 + r.below(std::min(k, most)); }; }
    tcp.push_back(std::move(t));
  };
  auto openUdp = [&] {
    Udp u;
    u.bound = r.chance(50);
    u.to = Addr{0x0A000000 | (uint32_t)r.below(1 << 24), (uint16_t)(1 + r.below(65535))};
    if (!udp.empty() && r.chance(20)) u.to = r.pick(udp).to;
    if (u.bound) {
      bool taken = true;
      while (taken) { u.to.port = (uint16_t)(1 + r.below(39999)); taken = false; for (auto& o : udp) taken |= o.bound && o.to.port == u.to.port; }
      u.port = u.to.port;
    }
    auto host = sim::dotted(u.to.ip);
    int ctor = (int)r.below(2);
    bool inject = r.chance(12);
    static const sim::Op ops[] = {sim::Op::Socket, sim::Op::SetOpt, sim::Op::Bind};
    if (inject) arm(ops[u.bound ? r.below(3) : 0], errs[r.below(10)], 0);
    size_t before = w.openCount();
    c.phase("open-udp");
    std::string what;
    int e = code(c, [&] {
      if (u.bound) u.s = ctor ? std::make_shared<so::UDPBoundSocket>(host, u.to.port) : std::make_shared<so::UDPBoundSocket>(so::EndPoint(host, u.to.port));
      else u.s = ctor ? std::make_shared<so::UDPSocket>(host, u.to.port) : std::make_shared<so::UDPSocket>(so::EndPoint(host, u.to.port));
    }, &what);
    disarm();
    if (inject && faultHit) {
      count("injected_errors");
      CHECK(e == faultErr, "open-udp-code", "the system said %d, the exception says %d (%s)", faultErr, e, what.c_str());
      CHECK(w.openCount() == before, "left-open-udp", "a descriptor is left after a failure to open");
      return;
    }
    CHECK(e == -1, "open-udp", "%s", what.c_str());
    CHECK(w.openCount() == before + 1, "opened-udp", "%zu descriptors opened", w.openCount() - before);
    auto it = w.socks.find(u.s->getSocketFd());
    CHECK(it != w.socks.end() && !it->second->tcp, "fd-udp", "getSocketFd() says %d", u.s->getSocketFd());
    if (u.bound) CHECK(it->second->bound && it->second->local.port == u.port && it->second->local.ip == 0, "bound", "bound to %s", it->second->local.str().c_str());
    CHECK(u.s->getRemoteEndPoint() == so::EndPoint(host, u.to.port), "remote-end-point-udp", "%s", u.s->getRemoteEndPoint().toString().c_str());
    udp.push_back(std::move(u));
  };
  for (int i = 0, k = 1 + (int)r.below(4); i < k; ++i) if (r.chance(50)) openTcp(); else openUdp();
  if (r.chance(3)) { for (int i = 0, k = 10 + (int)r.below(60); i < k; ++i) if (r.chance(20)) openTcp(); else openUdp(); count("crowds"); }

  // the peer of a TCP socket sends (or plans to)
  auto feed = [&](Tcp& t, Ns within) {
    if (t.ends || t.resets) return;
    Ns at = 0;
    for (int i = 0, k = 1 + (int)r.below(4); i < k; ++i) {
      Bytes b = r.bytes(r.chance(80) ? 1 + r.below(60) : r.chance(80) ? 1 + r.below(5000) : 1 + r.below(150000));
      at += r.chance(40) ? 0 : (Ns)r.below((uint64_t)within);
      t.conn->send(b, at);
      t.stream.insert(t.stream.end(), b.begin(), b.end());
      t.lastPlanned = std::max(t.lastPlanned, w.now + at);
    }
  };
  auto queueOf = [&](Udp& u) -> std::deque<sim::Dgram>& { return w.socks.at(u.s->getSocketFd())->rq; };
  auto newSize = [&] { return r.chance(15) ? 0 : r.chance(75) ? r.below(600) : r.chance(60) ? r.below(9000) : 60000 + r.below(5508); };
  auto setTimeout = [&](so::BaseSocket& s, Ns& keep) {
    keep = r.chance(20) ? 0 : r.chance(6) ? longTime() : randomTimeout();
    milliseconds ms(keep / MS);
    s.setRecvTimeout(ms);
    CHECK(s.getRecvTimeout() == ms, "timeout-getter", "%lld ms set, %lld ms reported", (long long)ms.count(), (long long)s.getRecvTimeout().count());
  };

  for (int step = 0, steps = 3 + (int)r.below(10); step < steps; ++step) {
    if (r.chance(15)) { if (tcp.size() + udp.size() < 6) { if (r.chance(40)) openTcp(); else openUdp(); } }
    if (r.chance(25)) w.advance((Ns)r.below(2000) * MS);
    if (r.chance(30)) for (int i = 0, k = 1 + (int)r.below(4); i < k; ++i) w.signals.insert(w.now + (Ns)r.below(2000) * MS);
    int what = (int)r.below(7);
    std::string text;
    if (what <= 2 && !tcp.empty()) {
      Tcp& t = tcp[r.below(tcp.size())];
      if (r.chance(30)) setTimeout(*t.s, t.timeout);
      if (what == 0) {  // send
        if (t.conn->reset || t.dead) continue;
        Bytes b = r.bytes(newSize());
        bool inject = r.chance(10) && !b.empty();
        if (inject) arm(sim::Op::Send, errs[r.below(10)], (int)r.below(3));
        c.phase("tcp-send");
        size_t had = t.conn->fromClient.size();
        int e = code(c, [&] { t.s->Send(b); }, &text);
        disarm();
        if (inject && faultHit) {
          count("injected_errors");
          CHECK(e == faultErr, "tcp-send-code", "the system said %d, the exception says %d (%s)", faultErr, e, text.c_str());
          size_t k = t.conn->fromClient.size() - had;
          CHECK(k < b.size() && std::equal(b.begin(), b.begin() + (long)k, t.conn->fromClient.begin() + (long)had), "tcp-send-failed", "%zu bytes sent", k);
          t.sent = t.conn->fromClient;
          continue;
        }
        if (t.conn->reset) { t.dead = true; t.sent = t.conn->fromClient; continue; }  // reset meanwhile
        CHECK(e == -1, "tcp-send-error", "%s", text.c_str());
        t.sent.insert(t.sent.end(), b.begin(), b.end());
        CHECK(t.conn->fromClient == t.sent, "tcp-sent", "%zu bytes given, the peer has %zu of %zu", b.size(), t.conn->fromClient.size() - had, t.sent.size() - had);
        count("tcp_sends");
        distinct("nontrivial", 1 + b.size() * 16);
      } else if (!t.dead) {  // receive
        if (r.chance(70)) feed(t, t.timeout && r.chance(70) ? t.timeout - std::max<Ns>(t.timeout / 20, 200 * US) : 3 * SEC);
        if (r.chance(25) && !t.ends && !t.resets) {
          Ns d = std::max<Ns>(0, t.lastPlanned - w.now) + (Ns)r.below(100) * MS;
          if (r.chance(60)) { t.conn->finish(d); t.ends = true; } else { t.conn->sendReset(d); t.resets = true; }
          t.lastPlanned = w.now + d;
        }
        size_t left = t.stream.size() - t.taken;
        size_t want = r.chance(45) ? r.below(left + 1) : r.chance(50) ? left : left + r.below(50);
        if (!t.timeout && want > left && !t.ends && !t.resets) want = left;  // it would wait for ever
        bool inject = r.chance(8);
        if (inject) arm(sim::Op::Recv, errs[r.below(10)], (int)r.below(3));
        c.phase("tcp-receive");
        Ns t0 = w.now;
        uint64_t hits = w.signalsHit, calls = w.calls;
        Bytes got;
        int e = code(c, [&] { got = t.s->Receive(want); }, &text);
        disarm();
        Ns silent = w.now - std::max(t0, t.conn->lastArrival);
        c.note("TCP Receive(%zu): %d, %zu bytes, %zu left before, timeout %lld us, silent %lld us", want, e, got.size(), left, (long long)(t.timeout / US), (long long)(silent / US));
        distinct("nontrivial", 2 + want * 16 + (uint64_t)(e + 2) * 1000003 + got.size() * 7919);
        if (inject && faultHit) {
          count("injected_errors");
          CHECK(e == faultErr, "tcp-receive-code", "the system said %d, the exception says %d (%s)", faultErr, e, text.c_str());
          t.dead = true;  // the bytes received so far are gone with the exception
          continue;
        }
        if (e == -1) {
          CHECK(got.size() <= want && got.size() <= left && std::equal(got.begin(), got.end(), t.stream.begin() + (long)t.taken), "tcp-received", "asked for %zu, got %zu bytes %s, next in the stream are %s", want, got.size(), hex(got).c_str(),
                hex(Bytes(t.stream.begin() + (long)t.taken, t.stream.begin() + (long)std::min(t.stream.size(), t.taken + 64))).c_str());
          t.taken += got.size();
          if (got.size() < want) {
            count("tcp_short");
            CHECK(t.ends && t.conn->fin && t.taken == t.stream.size(), "tcp-short", "%zu of %zu bytes returned before the end of the stream", got.size(), want);
          } else count("tcp_received");
        } else {
          t.dead = true;
          if (t.conn->reset && e == ECONNRESET) { count("tcp_resets"); CHECK(want > left, "tcp-reset-early", "the stream had %zu bytes before the reset, %zu were asked for", left, want); }
          else {
            count("tcp_timeouts");
            CHECK(e == EAGAIN || e == EWOULDBLOCK, "tcp-receive-error", "the exception says %d (%s)", e, text.c_str());
            CHECK(t.timeout > 0, "tcp-timeout-none", "no timeout was set (%s)", text.c_str());
            CHECK(silent >= t.timeout - std::min<Ns>(MS, t.timeout / 4), "tcp-timeout-early", "given up after %lld us of silence, the timeout is %lld us", (long long)(silent / US), (long long)(t.timeout / US));
            CHECK(silent <= t.timeout + (Ns)(w.signalsHit - hits) * t.timeout + SLACK + (Ns)(w.calls - calls) * w.callCost, "tcp-timeout-late", "given up after %lld us of silence, the timeout is %lld us", (long long)(silent / US), (long long)(t.timeout / US));
          }
        }
      }
    } else if (what <= 4 && !udp.empty()) {
      Udp& u = udp[r.below(udp.size())];
      if (r.chance(30)) setTimeout(*u.s, u.timeout);
      if (what == 3) {  // send
        Bytes b = r.bytes(newSize());
        bool inject = r.chance(10);
        if (inject) arm(sim::Op::Send, errs[r.below(10)], 0);
        size_t had = w.sentDgrams.size();
        c.phase("udp-send");
        int e = code(c, [&] { u.s->Send(b); }, &text);
        disarm();
        if (inject && faultHit) {
          count("injected_errors");
          CHECK(e == faultErr, "udp-send-code", "the system said %d, the exception says %d (%s)", faultErr, e, text.c_str());
          CHECK(w.sentDgrams.size() == had, "udp-send-failed", "sent all the same");
          continue;
        }
        CHECK(e == -1, "udp-send-error", "%s", text.c_str());
        CHECK(w.sentDgrams.size() == had + 1, "udp-send-count", "%zu datagrams sent", w.sentDgrams.size() - had);
        auto& d = w.sentDgrams.back();
        CHECK(d.to == u.to && d.data == b && d.fd == u.s->getSocketFd(), "udp-sent", "%zu bytes to %s; sent were %zu bytes to %s", b.size(), u.to.str().c_str(), d.data.size(), d.to.str().c_str());
        u.port = d.from.port;
        if (u.bound) CHECK(d.from.port == u.to.port, "udp-from", "sent from port %u", d.from.port);
        count("udp_sends");
        distinct("nontrivial", 3 + b.size() * 16);
      } else if (u.port) {
        for (int i = 0, k = (int)r.below(4); i < k; ++i) w.deliverDgram(r.pick(senders), u.port, r.bytes(newSize()), r.chance(50) ? 0 : (Ns)r.below(3000) * MS);
        w.advance(0);
        if (!u.timeout && queueOf(u).empty()) w.deliverDgram(r.pick(senders), u.port, r.bytes(newSize()), (Ns)r.below(3000) * MS);
        size_t size = r.chance(70) ? 65507 : r.below(700);
        bool from = r.chance(60), inject = r.chance(8);
        if (inject) arm(sim::Op::Recv, errs[r.below(10)], 0);
        // what the end point held before does not matter, whatever it has in common with the sender
        std::string epHost = r.chance(40) ? "1.2.3.4" : sim::dotted(r.pick(senders).ip);
        int epPort = r.chance(40) ? 5 : r.pick(senders).port;
        so::EndPoint ep(epHost, epPort), same(epHost, epPort);
        Bytes got;
        uint64_t delivered = w.dgramsDelivered;
        size_t waiting = queueOf(u).size();
        sim::Dgram first;
        if (waiting) first = queueOf(u).front();
        // what comes while it waits is seen in the trace of the queue: the first one delivered to it
        Ns t0 = w.now;
        uint64_t hits = w.signalsHit;
        bool wasTracing = w.tracing;
        w.tracing = true;
        w.trace.clear();
        c.phase("udp-receive");
        int e = code(c, [&] { got = from ? u.s->ReceiveFrom(size, ep) : u.s->Receive(size); }, &text);
        disarm();
        w.tracing = wasTracing;
        distinct("nontrivial", 4 + size * 16 + (uint64_t)(e + 2) * 1000003 + got.size() * 7919 + from);
        if (inject && faultHit) {
          count("injected_errors");
          CHECK(e == faultErr, "udp-receive-code", "the system said %d, the exception says %d (%s)", faultErr, e, text.c_str());
          CHECK(ep == same, "udp-receive-failed", "the end point was changed to %s", ep.toString().c_str());
          CHECK(queueOf(u).size() >= waiting, "udp-lost", "a datagram was taken");
          continue;
        }
        if (e == -1) {
          int taken = 0;
          for (auto& line : w.trace) if (line.find(" recv ") != std::string::npos && line.find("ret=-1") == std::string::npos) ++taken;
          CHECK(taken == 1, "udp-taken", "%d datagrams taken for one Receive", taken);
          count("udp_received");
          if (waiting) {
            Bytes want(first.data.begin(), first.data.begin() + (long)std::min(size, first.data.size()));
            if (want.size() < first.data.size()) count("udp_cut");
            CHECK(got == want, "udp-received", "asked for %zu bytes of a datagram of %zu; got %zu: %s", size, first.data.size(), got.size(), hex(got).c_str());
            CHECK(queueOf(u).size() >= waiting - 1, "udp-lost", "%zu datagrams waited, %zu are left", waiting, queueOf(u).size());
            if (from) {
              count("senders_checked");
              CHECK(ep.getHost() == sim::dotted(first.from.ip) && ep.getPort() == first.from.port, "udp-sender", "%s said, %s sent it", ep.toString().c_str(), first.from.str().c_str());
              CHECK(ep == so::EndPoint(sim::dotted(first.from.ip), first.from.port) && ep.getAddr().sin_port == htons(first.from.port) && ep.getAddr().sin_addr.s_addr == htonl(first.from.ip), "udp-sender-equal", "%s", ep.toString().c_str());
            }
          } else {
            CHECK(w.dgramsDelivered > delivered, "udp-made-up", "%zu bytes received, nothing was sent", got.size());
            if (from) {
              bool known = false;
              for (auto& a : senders) known |= ep.getHost() == sim::dotted(a.ip) && ep.getPort() == a.port;
              CHECK(known, "udp-sender", "%s has not sent anything", ep.toString().c_str());
            }
          }
          if (!from) CHECK(ep == same, "end-point", "changed");
        } else {
          count("udp_timeouts");
          CHECK(e == EAGAIN || e == EWOULDBLOCK, "udp-receive-error", "the exception says %d (%s)", e, text.c_str());
          CHECK(waiting == 0, "udp-timeout-data", "a datagram was waiting (%s)", text.c_str());
          Ns t = w.now - t0;
          CHECK(u.timeout > 0 && t >= u.timeout - std::min<Ns>(MS, u.timeout / 4), "udp-timeout-early", "given up after %lld us, the timeout is %lld us", (long long)(t / US), (long long)(u.timeout / US));
          CHECK(t <= u.timeout + (Ns)(w.signalsHit - hits) * u.timeout + SLACK, "udp-timeout-late", "given up after %lld us, the timeout is %lld us", (long long)(t / US), (long long)(u.timeout / US));
          CHECK(ep == same, "udp-receive-failed", "the end point was changed to %s", ep.toString().c_str());
        }
      }
    } else if (what >= 5) {  // wait for several
      std::vector<so::BaseSocket::SPtr> set;
      struct Ref { Tcp* t; Udp* u; };
      std::map<so::BaseSocket*, Ref> refs;
      bool thrown = false, unasked = false, blocked = false, wrong = false;
      int throwAt = r.chance(6) ? (int)r.below(3) : -1;
      for (auto& t : tcp) { refs[t.s.get()] = {&t, nullptr}; if (!t.dead && !t.ends && !t.resets && !t.conn->fin && !t.conn->reset && r.chance(60)) set.push_back(t.s); }
      for (auto& u : udp) { refs[u.s.get()] = {nullptr, &u}; if (r.chance(70)) set.push_back(u.s); }
      if (r.chance(10)) set.clear();
      for (size_t i = set.size(); i > 1; --i) std::swap(set[i - 1], set[r.below(i)]);
      std::set<so::BaseSocket*> in;
      for (auto& s : set) in.insert(s.get());
      auto handler = [&](so::BaseSocket* self) {
        return [&, self](so::BaseSocket& s) {
          if (&s != self || !in.count(&s)) { unasked = true; return; }
          if (throwAt-- == 0) { thrown = true; throw std::runtime_error("handler"); }
          auto& ref = refs[self];
          if (ref.u) {
            if (queueOf(*ref.u).empty()) { blocked = true; return; }
            Bytes want = queueOf(*ref.u).front().data;
            if (s.Receive(65507) != want) wrong = true;
          } else {
            size_t k = ref.t->conn->rx.size();
            if (!k) { blocked = true; return; }
            k = r.chance(50) ? k : 1 + r.below(k);
            auto b = s.Receive(k);
            if (b.size() != k || !std::equal(b.begin(), b.end(), ref.t->stream.begin() + (long)ref.t->taken)) wrong = true;
            ref.t->taken += k;
          }
          count("handled");
        };
      };
      for (auto& t : tcp) { t.s->setBeginReceiveHandler(handler(t.s.get())); if (r.chance(50)) feed(t, 2 * SEC); }
      Ns T = r.chance(15) ? 0 : r.chance(3) ? longTime() : r.chance(20) ? randomTimeout() : (Ns)(1 + r.below(1000)) * MS;
      for (auto& u : udp) {
        u.s->setBeginReceiveHandler(handler(u.s.get()));
        if (u.port) for (int i = 0, k = (int)r.below(4); i < k; ++i) w.deliverDgram(r.pick(senders), u.port, r.bytes(newSize()), r.chance(30) ? 0 : (Ns)r.below((uint64_t)T + 500 * MS));
      }
      w.advance(0);
      bool inject = !set.empty() && r.chance(6);
      if (inject) arm(sim::Op::Select, errs[r.below(10)], (int)r.below(3));
      c.phase("select");
      Ns t0 = w.now;
      uint64_t calls = w.calls;
      int e = code(c, [&] { so::BaseSocket::select(set, milliseconds(T / MS)); }, &text);
      disarm();
      Ns took = w.now - t0;
      c.note("select of %zu for %lld us: %d after %lld us", set.size(), (long long)(T / US), e, (long long)(took / US));
      CHECK(!unasked, "select-other", "the handler of a socket that was not given, or with another socket, was called");
      CHECK(!blocked, "select-nothing", "a handler was called although nothing could be received");
      CHECK(!wrong, "select-received", "a handler received something else than was sent");
      count("selects");
      if (set.empty()) count("select_empty");
      distinct("nontrivial", 5 + set.size() * 16 + (uint64_t)(T / MS) * 4096 + (uint64_t)(e + 2) * 1000003);
      if (inject && faultHit) {
        count("select_failures");
        CHECK(e == faultErr, "select-code", "the system said %d, the exception says %d (%s)", faultErr, e, text.c_str());
      } else if (thrown) {
        count("handler_threw");
        CHECK(e == -2 && text.find("handler") != std::string::npos, "select-handler", "the exception of the handler did not come out: %s", text.c_str());
      } else {
        CHECK(e == -1, "select-error", "%s", text.c_str());
        CHECK(took >= T - MS, "select-early", "returned after %lld us of %lld us", (long long)(took / US), (long long)(T / US));
        CHECK(took <= T + SLACK + (Ns)(w.calls - calls) * w.callCost, "select-late", "returned after %lld us of %lld us", (long long)(took / US), (long long)(T / US));
        for (auto& s : set) {  // nothing that came early enough is left
          auto& ref = refs[s.get()];
          if (ref.u) for (auto& d : queueOf(*ref.u)) CHECK(d.t > t0 + T - 2 * MS, "select-left", "a datagram that came after %lld us of %lld us is still waiting", (long long)((d.t - t0) / US), (long long)(T / US));
          else CHECK(ref.t->conn->rx.empty() || ref.t->conn->lastArrival > t0 + T - 2 * MS, "select-left-tcp", "%zu bytes are still waiting", ref.t->conn->rx.size());
        }
      }
      for (auto& t : tcp) t.s->setBeginReceiveHandler([](so::BaseSocket&) {});
      for (auto& u : udp) u.s->setBeginReceiveHandler([](so::BaseSocket&) {});
    }
    if (r.chance(10)) {
      c.phase("close");
      if (!tcp.empty() && r.chance(50)) { size_t i = r.below(tcp.size()); size_t before = w.openCount(); auto conn = tcp[i].conn; tcp.erase(tcp.begin() + (long)i); CHECK(w.openCount() == before - 1 && conn->clientClosed, "close", "still open"); }
      else if (!udp.empty()) { size_t i = r.below(udp.size()); size_t before = w.openCount(); udp.erase(udp.begin() + (long)i); CHECK(w.openCount() == before - 1, "close", "still open"); }
    }
  }
  c.phase("destroy");
  tcp.clear();
  udp.clear();
  expectClosed(c, w, "after the sockets");
  expectNoMisuse(c, w);
  expectSane(c, w);
  if (c.index < 30) sample("system calls " + std::to_string(w.calls) + ", datagrams " + std::to_string(w.sentDgrams.size()) + " out, " + std::to_string(w.dgramsDelivered) + " in, " + std::to_string(w.signalsHit) + " interruptions, " + std::to_string(w.faultsInjected) + " injected errors");
}
