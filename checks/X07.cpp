// An error status at any step of any operation is reported as an error.
#include "ops.h"

using namespace ops;

namespace prop {
const char* const kProperty = "X07";
const uint64_t kQuickCases = 12000, kThoroughCases = 600000;
const char* const kRule =
    "a case performs one of twelve operations (identity, full/basic parameter, refresh, upload, fault handling, fault object, command, forward open/close, plain requests "
    "through both routers) against a model device, first healthy to learn its steps, then with one step answered by an error status 1..255 with 0..255 status words and "
    "data that is empty, random or exactly the data of the successful answer; non-trivial: distinct (operation, step, status)";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"errors", 900}, {"tempting_data", 300}, {"objects", 200}, {"uploads", 60}, {"opens", 60}, {"plain", 100}};
}  // namespace prop

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  Device d(randomHost(r));
  d.install(n.w);
  d.setup();
  d.randomise(r);
  if (r.chance(10)) roughTransport(c, d, 100 * US);
  d.mutate = [&](Bytes& b, int k, model::ConnState&) {
    if (k >= 0 && r.chance(30)) b[41] = r.u8();  // reserved
    if (k >= 0 && r.chance(10)) { b[28] = r.u8(); b[29] = r.u8(); }  // the timeout field of the answer means nothing
  };
  auto si = openSession(d, 20 * SEC);
  int kind = (int)r.below(KINDS);
  Setup s = randomSetup(r, kind, d);
  if (kind == Plain || kind == PlainYaskawa) d.plain.status = 0;
  prepare(s, d, si);
  std::string oldText = s.old ? paramText(*s.old, d.param.value.size(), false) : "";
  size_t base = n.w.openCount();
  Result good = run(c, s, d, si);
  CHECK(!good.threw, std::string("healthy-") + name(kind), "%s", good.what.c_str());
  int steps = d.step;
  for (int round = 0; round < 4; ++round) {
    int at = (int)r.below((uint64_t)steps);
    if (kind == CloseIo && at == 0) at = 1;
    uint8_t status = (uint8_t)(r.chance(60) ? 1 + r.below(0x2B) : 1 + r.below(255));
    std::vector<uint16_t> words;
    if (r.chance(50)) for (size_t i = 0, k = r.chance(10) ? r.below(256) : r.below(5); i < k; ++i) words.push_back(r.u16());
    int dataKind = (int)r.below(3);
    uint8_t failedService = 0;
    Bytes sentData;
    bool applied = false;
    d.tweak = [&](const Req& q, Rep& p, size_t, int k) {
      if (k != at) return;
      applied = true;
      p.status = status;
      p.addl = words;
      if (dataKind == 0) p.data.clear();
      if (dataKind == 1) p.data = r.bytes(r.below(60));
      if (dataKind == 2) count("tempting_data");
      if (q.lp.cls == 6 && q.service != 0x4E && !d.opens.empty()) d.opens.back().accepted = false;
      failedService = q.service;
      sentData = p.data;
    };
    c.note("%s: step %d of %d answered with %02x, %zu words, data kind %d", name(kind), at, steps, status, words.size(), dataKind);
    if (s.kind == ParamUpdate) {
      d.param.value = r.bytes(d.param.value.size());
      oldText = paramText(*s.old, d.param.value.size(), false);
    }
    dirtyStack(r.u8());
    Result x = run(c, s, d, si);
    d.tweak = nullptr;
    CHECK(applied, "not-reached", "the step was not reached although nothing differed before it");
    count("errors");
    distinct("nontrivial", (uint64_t)kind * 1000003 + (uint64_t)at * 257 + status);
    std::string nm = name(kind);
    switch (kind) {
      case Identity: case ParamFull: case ParamBasic: case ParamUpdate: case FaultObject: case Command:
        CHECK(x.threw, "ignored-" + nm, "the operation succeeded: %s", x.values.c_str());
        if (s.old) CHECK(paramText(*s.old, d.param.value.size(), false) == oldText, "value-changed", "a failed refresh changed the value");
        count("objects");
        break;
      case Faults: {
        CHECK(x.threw, "ignored-" + nm, "the operation succeeded: %s", x.values.c_str());
        // the step belongs to a fault; only the earlier ones may have been delivered
        size_t per = s.details ? 4 : 1, most = std::min(d.faults.size(), (size_t)at / per);
        CHECK(x.delivered.size() <= most, "surfaced-" + nm, "%zu faults were delivered, but step %d failed", x.delivered.size(), at);
        count("objects");
        break;
      }
      case File:
        if (at == 0) { CHECK(x.threw && x.calls.empty(), "ignored-state", "the file object was created"); }
        else {
          CHECK(!x.threw, "upload-throws", "%s", x.what.c_str());
          CHECK(x.calls.size() == 1, "callback-count", "%zu callbacks", x.calls.size());
          CHECK(x.calls[0].first == status, "callback-status", "status %02x instead of %02x", x.calls[0].first, status);
          CHECK(x.calls[0].second.empty(), "callback-content", "%zu bytes of content", x.calls[0].second.size());
          CHECK(!x.more && d.step == at + 1, "goes-on", "%d requests followed", d.step - at - 1);
        }
        count("uploads");
        break;
      case OpenIo:
        CHECK(!x.threw, "open-throws", "%s", x.what.c_str());
        CHECK(!x.handle && !x.counted, "ignored-" + nm, "handle %d, counted %d", x.handle, x.counted);
        count("opens");
        break;
      case CloseIo:
        CHECK(!x.threw && !x.handle && !x.counted, "close", "the connection is kept: %s", x.what.c_str());
        break;
      default:
        CHECK(!x.threw, "plain-throws", "%s", x.what.c_str());
        CHECK(x.status == status, "status-changed", "%02x instead of %02x", x.status, status);
        Rep w;
        count("plain");
        std::string wt = "service " + std::to_string(d.plain.service.value_or(s.service | 0x80)) + " status " + std::to_string(status) + " words";
        for (auto a : words) wt += " " + std::to_string(a);
        wt += " data " + h(sentData) + " items";
        CHECK(x.values == wt, "response-changed", "%s instead of %s", x.values.substr(0, 200).c_str(), wt.substr(0, 200).c_str());
    }
    CHECK(n.w.openCount() == base, "left-open", "%zu descriptors instead of %zu", n.w.openCount(), base);
  }
  // and the device still works
  s.old.reset();
  if (kind != ParamUpdate) { Result again = run(c, s, d, si); CHECK(!again.threw && again.values == good.values, "after-errors", "%s", again.what.c_str()); }
  si.reset();
  expectProtocol(c, d);
  expectSane(c, n.w);
}
