// Replies and requests on a TCP stream that splits, delays, interrupts and ends.
#include "net.h"
#include "eip/EncapsPacket.h"

using namespace net;
using es::eip::EncapsPacket;

namespace prop {
const char* const kProperty = "S02";
const uint64_t kQuickCases = 24000, kThoroughCases = 1000000;
const char* const kRule =
    "a case opens a session and exchanges 1..6 packets with payloads of 0..65535 arbitrary bytes; every reply is cut into pieces (whole, byte by byte, header/body, "
    "last byte alone, random), with gaps, short reads, partially accepted writes, signals and EINTR faults; about half of the cases end with a reply cut at some byte "
    "(FIN, RST, silence, receive error) or a request of which only a part can be sent; non-trivial: distinct (sizes, styles, cut) combinations";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"replies", 1200}, {"cut_replies", 200}, {"cut_requests", 100}, {"interruptions", 200}};
}  // namespace prop

namespace {
struct App : sim::ServerApp {
  Bytes in;
  size_t packets = 0;
  std::function<void(sim::Conn&, const Bytes&, size_t)> reply;
  std::function<void(sim::Conn&, size_t)> partial;
  std::function<void(sim::Conn&)> opened;
  void onOpen(sim::Conn& c) override { if (opened) opened(c); }
  void onData(sim::Conn& c, const Bytes& d) override {
    in.insert(in.end(), d.begin(), d.end());
    while (in.size() >= 24) {
      size_t len = 24 + (in[2] | in[3] << 8);
      if (in.size() < len) break;
      Bytes p(in.begin(), in.begin() + (long)len);
      in.erase(in.begin(), in.begin() + (long)len);
      reply(c, p, packets++);
    }
    if (partial) partial(c, in.size());
  }
};
size_t someSize(Rng& r) {
  switch (r.below(8)) {
    case 0: return 0;
    case 1: return r.below(3);
    case 2: return 65535 - r.below(3);
    case 3: return r.below(65536);
    case 4: return r.below(5000);
    default: return r.below(600);
  }
}
}  // namespace

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  App app;
  std::string host = randomHost(r);
  n.w.listeners[sim::addr(host, 44818)].app = &app;
  Ns timeout = 20 * SEC;
  uint32_t handle = r.u32() | 1;
  int exchanges = 1 + (int)r.below(6);
  int ending = (int)r.below(11);      // 0..4: healthy
  int last = exchanges - 1;
  if (ending > 4 && r.chance(15)) last = -1;  // already the register answer
  struct Ex { uint16_t cmd; Bytes out; uint32_t status; Bytes ctx; uint32_t opts; uint16_t rcmd; Bytes in; };
  std::vector<Ex> ex;
  for (int i = 0; i < exchanges; ++i)
    ex.push_back({(uint16_t)(r.chance(70) ? 0x6F : r.u16()), r.bytes(someSize(r)), 0, r.bytes(8), r.u32(), (uint16_t)(r.chance(70) ? 0x6F : r.u16()), r.bytes(someSize(r))});
  std::vector<Bytes> got;
  int eintr = r.chance(30) ? (int)r.below(30) : 0;
  int err = (const int[]){ECONNRESET, ETIMEDOUT, EPIPE, ENOTCONN, EHOSTUNREACH, ENETDOWN, EAGAIN, ENOBUFS, ENOMEM}[r.below(9)];
  size_t cutAt = 0, full = 0;
  int style = (int)r.below(7);
  bool cutDone = false, mayDeliver = false;
  app.reply = [&](sim::Conn& conn, const Bytes& p, size_t k) {
    got.push_back(p);
    int i = (int)k - 1;
    Bytes b;
    if (i < 0) b = model::packEncaps({0x65, handle, 0, Bytes(8, 0), 0, {1, 0, 0, 0}});
    else if (i < exchanges) { auto& x = ex[(size_t)i]; b = model::packEncaps({x.rcmd, handle, 0, x.ctx, x.opts, x.in}); }
    else return;
    int st = style == 6 ? (int)r.below(6) : style;
    if (b.size() > 3000 && st == 1) st = 0;
    if (b.size() > 8000 && st == 5) st = 3;
    if (i == last && ending >= 5 && ending <= 8) {
      full = b.size();
      cutAt = r.chance(30) ? full : r.chance(40) ? r.below(std::min<size_t>(full, 30)) : r.below(full);
      if (ending == 7 || ending == 8) cutAt = cutAt == full ? full - 1 : cutAt;  // silence, receive error: incomplete in any case
      b.resize(cutAt);
      if (!b.empty()) deliverSegmented(r, conn, b, st, 200 * US, 3 * MS);
      Ns later = r.chance(50) ? 0 : (Ns)r.below(20 * MS);
      Ns t = std::max<Ns>(0, n.w.events.empty() ? 0 : n.w.events.rbegin()->first.first - n.w.now) + later;
      if (ending == 5) conn.finish(t);
      if (ending == 6) conn.sendReset(t);
      if (ending == 8) {
        uint64_t all = conn.rxArrived + cutAt;
        n.w.fault = [&, err, all](const sim::Call& k2) { return k2.op == sim::Op::Recv && conn.rx.empty() && conn.rxArrived >= all ? err : 0; };
      }
      mayDeliver = cutAt == full;
      cutDone = true;
      return;
    }
    deliverSegmented(r, conn, b, st, (Ns)r.below(3 * MS), b.size() > 3000 ? 100 * US : 2 * MS);
  };
  randomSignals(n.w, r, r.chance(50) ? (int)r.below(80) : 0, 0, r.chance(50) ? 30 * MS : 2 * SEC);
  if (eintr) n.w.fault = [&](const sim::Call& k) { return (k.op == sim::Op::Send || k.op == sim::Op::Recv) && k.tcp && eintr > 0 && r.chance(30) ? (--eintr, EINTR) : 0; };
  bool acc = r.chance(50), chop = r.chance(50);
  size_t most = r.chance(20) ? 1 : 1 + r.below(9000);
  auto rough = [&](sim::Conn& conn) {
    if (acc) conn.accept = [&r, most](size_t k) -> size_t { return r.chance(10) ? 0 : k > 20000 ? 1 + r.below(k) : 1 + r.below(std::min(k, most + k / 40)); };
    if (chop) conn.chop = [&r, most](size_t k) -> size_t { return k > 20000 ? 1 + r.below(k) : 1 + r.below(std::min(k, most + k / 40)); };
  };
  app.opened = rough;
  c.note("%d exchanges, ending %d at %d, style %d", exchanges, ending, last, style);

  c.phase("register");
  std::shared_ptr<es::SessionInfo> si;
  auto e = outcome(c, [&] { si = std::make_shared<es::SessionInfo>(host, 44818, std::chrono::milliseconds(timeout / MS)); });
  std::string key;
  auto hist = [&] { distinct("nontrivial", (uint64_t)ending * 7 + (uint64_t)style * 101 + (uint64_t)exchanges * 1009 + cutAt * 65537 + (ex.empty() ? 0 : ex[0].in.size() * 31 + ex[0].out.size()) + n.w.calls * 999983); };
  if (last == -1 && cutDone) {
    count("cut_replies");
    if (!mayDeliver) CHECK(!e.empty(), "incomplete-accepted", "a register answer of which %zu of %zu bytes came was accepted", cutAt, full);
    if (e.empty()) CHECK(si->getSessionHandle() == handle, "handle", "%08x", si->getSessionHandle());
    else CHECK(n.w.openCount() == 0, "left-open", "a socket is still open");
    n.w.fault = nullptr;
    si.reset();
    expectSane(c, n.w);
    hist();
    return;
  }
  CHECK(e.empty(), "register-fails", "%s", e.c_str());
  CHECK(si->getSessionHandle() == handle, "handle", "%08x instead of %08x", si->getSessionHandle(), handle);
  for (int i = 0; i < exchanges; ++i) {
    auto& x = ex[(size_t)i];
    EncapsPacket p, q;
    p.setCommand((es::eip::EncapsCommands)x.cmd);
    p.setSessionHandle(handle);
    p.setData(x.out);
    Bytes want = model::packEncaps({x.cmd, handle, 0, Bytes(8, 0), 0, x.out});
    bool cutReq = i == last && ending >= 9;
    size_t sendCut = r.below(want.size());
    bool early = r.chance(50);
    if (cutReq) {
      // the socket takes some bytes, then breaks
      auto conn = n.w.conns.back();
      size_t base = conn->fromClient.size();
      auto raw = conn.get();
      conn->accept = [raw, base, sendCut, &r](size_t k) -> size_t { size_t done = raw->fromClient.size() - base; return done >= sendCut ? k : r.chance(50) ? std::min(k, sendCut - done) : 1 + r.below(std::min(k, sendCut - done)); };
      n.w.fault = [raw, base, sendCut, err](const sim::Call& k) { return k.op == sim::Op::Send && k.tcp && raw->fromClient.size() - base >= sendCut ? err : 0; };
      if (early) app.partial = [&](sim::Conn& cn, size_t) { cn.send(model::packEncaps({x.rcmd, handle, 0, x.ctx, x.opts, x.in})); app.partial = nullptr; };
    }
    c.note("request %d: %zu bytes out, %zu in%s", i, x.out.size(), x.in.size(), cutReq ? ", cannot be sent" : "");
    c.phase("exchange");
    size_t before = got.size();
    e = outcome(c, [&] { q = si->sendAndReceive(p); });
    if (cutReq) {
      count("cut_requests");
      CHECK(!e.empty(), "unsent-request-answered", "%zu of %zu bytes of the request were sent, but a reply was returned", sendCut, want.size());
      CHECK(got.size() == before, "request-sent", "a complete request was received");
      break;
    }
    CHECK(got.size() == before + 1, "request-count", "%zu requests were received instead of one", got.size() - before);
    CHECK(got.back() == want, "request-bytes", "the request arrived as %s instead of %s", hex(got.back(), 80).c_str(), hex(want, 80).c_str());
    if (i == last && cutDone) {
      count("cut_replies");
      if (!mayDeliver) CHECK(!e.empty(), "incomplete-accepted", "a reply of which %zu of %zu bytes came was accepted", cutAt, full);
      else if (ending == 5) CHECK(e.empty(), "complete-reply-lost", "a complete reply before the end of the stream was lost: %s", e.c_str());
      if (!e.empty()) break;
    }
    CHECK(e.empty(), "reply-lost", "a complete reply was not returned: %s", e.c_str());
    CHECK((uint16_t)q.getCommand() == x.rcmd && q.getSessionHandle() == handle && (uint32_t)q.getStatusCode() == 0, "reply-header", "command %04x handle %08x", (unsigned)q.getCommand(), q.getSessionHandle());
    CHECK(q.getData() == x.in, "reply-bytes", "%zu bytes %s instead of %zu bytes %s", q.getData().size(), hex(q.getData(), 60).c_str(), x.in.size(), hex(x.in, 60).c_str());
    count("replies");
  }
  n.w.fault = nullptr;
  c.phase("destroy");
  si.reset();
  expectClosed(c, n.w, "after the session");
  expectSane(c, n.w);
  hist();
  if (c.index < 30) sample("ending " + std::to_string(ending) + ", " + std::to_string(exchanges) + " exchanges, " + std::to_string(n.w.calls) + " system calls, " + std::to_string(n.w.signalsHit) + " interruptions");
}
