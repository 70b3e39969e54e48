// Faults of a drive: what is read, delivered and cleared.
#include <cmath>
#include "net.h"
#include "drive_faults.h"
#include "vendor/ra/powerFlex525/DPIFaultManager.h"

using namespace net;
namespace pf = es::vendor::ra::powerFlex525;

namespace prop {
const char* const kProperty = "X06";
const uint64_t kQuickCases = 10000, kThoroughCases = 600000;
const char* const kRule =
    "a case lets 1..2 fault managers (all eight flag combinations and the default one) handle a model drive 1..4 times; the drive holds 0..10 faults (or ten followed by "
    "more) with any documented codes and any detail values, clears its queue when told to and gets new faults in between; fault objects with any attributes are read and "
    "commands written; requests and listener calls are recorded in order; non-trivial: distinct (queue, flags)";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"rounds", 1500}, {"faults", 3000}, {"full_queues", 100}, {"empty_queues", 100}, {"clears", 300}, {"fault_objects", 300}, {"details", 800}};
}  // namespace prop

namespace {
const int kCode[] = {7, 8, 9, 604, 605, 606, 607, 608, 609, 610};
struct Fault { uint16_t code, volts, current, freq; };
struct Got { int number; uint16_t code; double volts, current, freq; int type; std::string text, description; };
}  // namespace

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  model::Server s(randomHost(r));
  s.install(n.w);
  if (r.chance(15)) roughTransport(c, s, 100 * US);
  auto si = openSession(s, 20 * SEC);
  std::vector<Fault> queue;
  struct Ev { int kind; int what; };  // 0 code read, 1 detail read, 2 command, 3 listener
  std::vector<Ev> ev;
  std::string bad;
  Bytes objData;
  int objInst = -1;
  auto stale = r.u16();
  s.cip = [&](const model::Req& q) {
    model::Rep rep;
    if (q.service == 0x0E && q.lp.cls == 0x0F && q.lp.attr == 1) {
      for (int i = 0; i < 10; ++i)
        if (q.lp.inst == kCode[i]) { ev.push_back({0, i}); rep.data = model::Wr().u16((size_t)i < queue.size() ? queue[(size_t)i].code : 0); return rep; }
      int k = q.lp.inst - 631;
      if (k >= 0 && k < 30) {
        size_t i = (size_t)k % 10;
        ev.push_back({1, (int)i});
        // the details of faults that are gone stay in the drive
        rep.data = model::Wr().u16(i >= queue.size() ? stale : k < 10 ? queue[i].freq : k < 20 ? queue[i].current : queue[i].volts);
        return rep;
      }
    } else if (q.service == 0x10 && q.lp.cls == 0x97 && q.lp.inst == 0 && q.lp.attr == 3 && q.data.size() == 1) {
      ev.push_back({2, q.data[0]});
      if (q.data[0] == 2) queue.clear();
      return rep;
    } else if (q.service == 0x0E && q.lp.cls == 0x97 && q.lp.attr == 0 && q.lp.inst == objInst) {
      rep.data = objData;
      return rep;
    }
    bad = "service " + std::to_string(q.service) + " path " + hex(q.path) + " data " + hex(q.data);
    rep.status = 5;
    return rep;
  };
  struct M { std::unique_ptr<pf::DPIFaultManager> m; bool clear, details, listener; };
  std::vector<M> ms;
  std::vector<Got> got;
  for (int i = 0, k = 1 + (int)r.below(2); i < k; ++i) {
    M m;
    if (r.chance(20)) m = {std::make_unique<pf::DPIFaultManager>(), true, false, true};
    else {
      m.clear = r.chance(50);
      m.details = r.chance(50);
      m.m = std::make_unique<pf::DPIFaultManager>(m.clear, r.chance(50), m.details);
      m.listener = r.chance(95);
    }
    if (m.listener) m.m->setNewFaultListener([&](const pf::DPIFaultParameter& p) {
      auto& d = p.getFaultDetails();
      auto& f = p.getFullInformation();
      if (f.faultDetails.faultCode != d.faultCode) bad = "details and full information differ";
      got.push_back({d.faultNumber, d.faultCode, d.busVoltage, d.current, d.frequency, f.faultDescription.faultType, f.faultDescription.faultText, f.faultDescription.faultDescription});
      ev.push_back({3, d.faultNumber});
    });
    ms.push_back(std::move(m));
  }
  auto add = [&](size_t k) {
    for (size_t i = 0; i < k && queue.size() < 14; ++i) {
      auto& t = model::kDriveFaults[1 + r.below(model::kDriveFaults.size() - 1)];
      queue.push_back({(uint16_t)t.code, (uint16_t)r.edgy(16), (uint16_t)r.edgy(16), (uint16_t)r.edgy(16)});
    }
  };
  add(r.chance(30) ? 10 + r.below(3) : r.chance(20) ? 0 : r.below(10));
  for (int round = 0, rounds = 1 + (int)r.below(4); round < rounds; ++round) {
    auto& m = r.pick(ms);
    dirtyStack(r.u8());
    auto before = queue;
    size_t want = std::min<size_t>(10, before.size());
    ev.clear();
    got.clear();
    c.note("round %d: %zu faults, clear %d details %d", round, before.size(), m.clear, m.details);
    c.phase("handle");
    bool own = r.chance(50);
    auto e = outcome(c, [&] { if (own) m.m->handleFaultParameters(si, std::make_shared<es::MessageRouter>()); else m.m->handleFaultParameters(si); });
    CHECK(bad.empty(), "request", "%s", bad.c_str());
    CHECK(e.empty(), "handle-fails", "%s", e.c_str());
    count("rounds");
    count(want == 10 ? "full_queues" : want == 0 ? "empty_queues" : "other_queues");
    std::vector<int> codes;
    int clears = 0, listened = 0;
    for (auto& x : ev) {
      if (x.kind == 0) codes.push_back(x.what);
      if (x.kind == 1) CHECK(m.details && (size_t)x.what < want, "details-asked", "details of fault %d were read", x.what + 1);
      if (x.kind == 3) { listened++; CHECK(clears == 0, "cleared-early", "the queue was cleared before fault %d was delivered", x.what); }
      if (x.kind == 2) { CHECK(x.what == 2, "command", "command %d was sent", x.what); clears++; }
    }
    std::vector<int> wantCodes;
    for (size_t i = 0; i < std::min<size_t>(10, want + 1); ++i) wantCodes.push_back((int)i);
    CHECK(codes == wantCodes, "code-reads", "%zu fault codes were read instead of %zu, or in another order", codes.size(), wantCodes.size());
    CHECK(clears == (m.clear && want ? 1 : 0), "clear-count", "%d clear commands for %zu faults (clearing %s)", clears, want, m.clear ? "on" : "off");
    if (clears) { count("clears"); CHECK(ev.back().kind == 2, "cleared-early", "something followed the clear command"); }
    if (m.listener) {
      CHECK((size_t)listened == want, "listener-count", "the listener was called %d times for %zu faults", listened, want);
      for (size_t i = 0; i < want; ++i) {
        auto& g = got[i];
        auto& f = before[i];
        CHECK(g.number == (int)i + 1 && g.code == f.code, "fault", "call %zu was fault %d code %u instead of code %u", i, g.number, g.code, f.code);
        for (auto& t : model::kDriveFaults)
          if (t.code == f.code)
            CHECK(g.type == t.type && g.text == t.text && g.description == t.description, "description", "code %u is type %d \"%s\" \"%s\"", f.code, g.type, g.text.c_str(), g.description.c_str());
        double v = m.details ? f.volts : 0, cu = m.details ? f.current / 100. : 0, fr = m.details ? f.freq / 100. : 0;
        CHECK(std::fabs(g.volts - v) < 1e-9, "voltage", "fault %zu: %g instead of %g", i + 1, g.volts, v);
        CHECK(std::fabs(g.current - cu) < 1e-9, "current", "fault %zu: %g instead of %g", i + 1, g.current, cu);
        CHECK(std::fabs(g.freq - fr) < 1e-9, "frequency", "fault %zu: %g instead of %g", i + 1, g.freq, fr);
        if (m.details) count("details");
        count("faults");
      }
    }
    distinct("nontrivial", hashBytes(before.data(), before.size() * sizeof(Fault), m.clear * 2 + m.details));
    if (r.chance(60)) { if (r.chance(30)) queue.clear(); add(r.below(12)); }
  }
  // a code the documentation does not have: whatever becomes of it, it is not delivered as another fault
  if (r.chance(12)) {
    queue.clear();
    add(r.below(9));
    size_t at = r.below(queue.size() + 1);
    uint16_t code = r.chance(60) && at < queue.size() ? (uint16_t)(queue[at].code | r.below(255) + 1 << 8) : r.chance(40) ? (uint16_t)(1 + r.below(255) << 8) : r.chance(30) ? (uint16_t)(1 << r.below(16)) : r.u16();
    bool known = code == 0;
    for (auto& t : model::kDriveFaults) known |= t.code == code;
    if (!known) {
      queue.insert(queue.begin() + (long)at, {code, r.u16(), r.u16(), r.u16()});
      auto before = queue;
      auto& m = r.pick(ms);
      ev.clear();
      got.clear();
      c.phase("undocumented");
      auto e = outcome(c, [&] { m.m->handleFaultParameters(si); });
      CHECK(bad.empty(), "request", "%s", bad.c_str());
      for (size_t i = 0; i < got.size(); ++i) CHECK(i < before.size() && got[i].code == before[i].code && got[i].number == (int)i + 1, "undocumented", "call %zu was fault %d code %u, the drive holds the undocumented code %u at %zu", i, got[i].number, got[i].code, code, at);
      size_t clears = 0, reads = 0;
      for (auto& x : ev) reads += x.kind == 0;
      CHECK(!e.empty() || reads == std::min<size_t>(10, before.size() + 1), "undocumented-ends", "only %zu fault codes were read of the %zu faults of which one has the undocumented code %u, and no exception told so", reads, before.size(), code);
      for (auto& x : ev) clears += x.kind == 2;
      CHECK(!clears || (e.empty() && (!m.listener || got.size() == before.size())), "undocumented-cleared", "the queue was cleared, but only %zu of %zu faults were delivered", got.size(), before.size());
      queue.clear();
      count("undocumented");
    }
  }
  // fault objects
  for (int i = 0, k = (int)r.below(3); i < k; ++i) {
    dirtyStack(r.u8());
    uint16_t code = r.u16(), flags = (uint16_t)r.edgy(16);
    uint8_t port = r.u8(), obj = r.u8();
    Bytes text = r.bytes(16);
    if (r.chance(50)) for (auto& b : text) b = (uint8_t)(32 + b % 95);
    uint64_t timer = r.edgy(64);
    objInst = (int)r.edgy(16);
    objData = model::Wr().u16(code).u8(port).u8(obj).raw(text).u64(timer).u16(flags);
    c.phase("fault-object");
    std::unique_ptr<pf::DPIFaultObject> o;
    auto e = outcome(c, [&] { o = std::make_unique<pf::DPIFaultObject>((uint16_t)objInst, si); });
    CHECK(bad.empty(), "request", "%s", bad.c_str());
    CHECK(e.empty(), "object-fails", "%s", e.c_str());
    auto& f = o->getFullInformation();
    CHECK(f.faultCode == code && f.dsiPort == port && f.dsiDeviceObject == obj, "object-fields", "code %u port %u object %u instead of %u %u %u", f.faultCode, f.dsiPort, f.dsiDeviceObject, code, port, obj);
    CHECK(f.faultText.toStdString() == std::string(text.begin(), text.end()), "object-text", "%zu bytes", f.faultText.toStdString().size());
    CHECK(f.timerValue == timer, "object-timer", "%llu instead of %llu", (unsigned long long)f.timerValue, (unsigned long long)timer);
    CHECK(f.isValidData == !!(flags & 1) && f.isRealTime == !!(flags & 2), "object-flags", "valid %d real %d for %04x", f.isValidData, f.isRealTime, flags);
    CHECK(o->getInstanceId() == objInst, "object-instance", "%u", o->getInstanceId());
    count("fault_objects");
  }
  if (r.chance(30)) {
    int cmd = (int)r.below(4);
    static const pf::DPIFaultManagerCommands cmds[] = {pf::NO_OPERATION, pf::CLEAR_FAULT, pf::CLEAR_FAULT_QUEUE, pf::RESET_DEVICE};
    ev.clear();
    c.phase("command");
    auto e = outcome(c, [&] { if (r.chance(50)) ms[0].m->writeCommand(cmds[cmd], si); else ms[0].m->writeCommand(cmds[cmd], si, std::make_shared<es::MessageRouter>()); });
    CHECK(e.empty() && bad.empty(), "command-fails", "%s %s", e.c_str(), bad.c_str());
    CHECK(ev.size() == 1 && ev[0].kind == 2 && ev[0].what == cmd, "command", "%zu requests", ev.size());
  }
  ms.clear();
  si.reset();
  expectProtocol(c, s);
  expectSane(c, n.w);
}
