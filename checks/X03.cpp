// The identity object as read from an adapter and as changed by its setters.
#include "net.h"
#include "IdentityObject.h"

using namespace net;

namespace prop {
const char* const kProperty = "X03";
const uint64_t kQuickCases = 40000, kThoroughCases = 2000000;
const char* const kRule =
    "a case reads 1..4 identities (edge and random attributes, names of 0..255 arbitrary bytes, attributes following the name, earlier objects kept) through each "
    "constructor and compares every getter with the independently encoded answer, then applies 0..12 setters to objects read and created empty, comparing all getters "
    "with a record after each; non-trivial: distinct attribute sets";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"reads", 1000}, {"setters", 2000}, {"long_names", 100}, {"binary_names", 300}};
}  // namespace prop

namespace {
struct Rec { uint16_t vendor = 0, type = 0, code = 0; uint8_t major = 0, minor = 0; uint16_t status = 0; uint32_t serial = 0; std::string name; };
void compare(Ctx& c, const es::IdentityObject& o, const Rec& x, const char* when) {
  CHECK(o.getVendorId() == x.vendor, "vendor", "%s: vendor %u instead of %u", when, o.getVendorId(), x.vendor);
  CHECK(o.getDeviceType() == x.type, "device-type", "%s: %u instead of %u", when, o.getDeviceType(), x.type);
  CHECK(o.getProductCode() == x.code, "product-code", "%s: %u instead of %u", when, o.getProductCode(), x.code);
  CHECK(o.getRevision().getMajorRevision() == x.major && o.getRevision().getMinorRevision() == x.minor, "revision", "%s: %u.%u instead of %u.%u", when, o.getRevision().getMajorRevision(),
        o.getRevision().getMinorRevision(), x.major, x.minor);
  CHECK(o.getStatus() == x.status, "status", "%s: %04x instead of %04x", when, o.getStatus(), x.status);
  CHECK(o.getSerialNumber() == x.serial, "serial", "%s: %08x instead of %08x", when, o.getSerialNumber(), x.serial);
  CHECK(o.getProductName() == x.name, "name", "%s: %zu bytes \"%s\" instead of %zu bytes", when, o.getProductName().size(), o.getProductName().c_str(), x.name.size());
}
std::string someName(Rng& r) {
  switch (r.below(5)) {
    case 0: return "";
    case 1: return r.str(255 - r.below(3));
    case 2: return r.str(r.below(256));
    case 3: { std::string s; for (size_t i = 0, n = r.below(40); i < n; ++i) s += (char)(32 + r.below(95)); return s; }
    default: return r.str(r.below(40));
  }
}
}  // namespace

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  model::Server s(randomHost(r));
  s.install(n.w);
  if (r.chance(30)) roughTransport(c, s, 100 * US);
  auto si = openSession(s, 20 * SEC);
  model::Rep rep;
  s.cip = [&](const model::Req&) { return rep; };
  std::vector<std::pair<std::unique_ptr<es::IdentityObject>, Rec>> objs;
  uint64_t h = 0;
  for (int i = 0, k = 1 + (int)r.below(4); i < k; ++i) {
    dirtyStack(r.u8());
    Rec x;
    bool own = r.chance(50), use8 = r.chance(50);
    uint16_t inst = r.chance(50) ? 1 : own && use8 ? r.u8() : (uint16_t)r.edgy(16);  // 8-bit paths cannot say more
    if (r.chance(20)) {
      objs.emplace_back(std::make_unique<es::IdentityObject>(inst), x);
      compare(c, *objs.back().first, x, "created empty");
    } else {
      auto m = model::randomIdentity(r, {});
      x = {m.vendor, m.type, m.code, m.major, m.minor, m.status, m.serial, someName(r)};
      rep = model::Rep();
      rep.data = model::Wr().u16(x.vendor).u16(x.type).u16(x.code).u8(x.major).u8(x.minor).u16(x.status).u32(x.serial).sstr(x.name);
      h = hashBytes(rep.data.data(), rep.data.size(), h);
      if (r.chance(30)) for (size_t j = 0, t = r.below(12); j < t; ++j) rep.data.push_back(r.u8());  // state, consistency value, ...
      size_t before = s.requests.size();
      c.phase("read");
      std::unique_ptr<es::IdentityObject> o;
      auto e = outcome(c, [&] {
        o = own ? std::make_unique<es::IdentityObject>(inst, si, std::make_shared<es::MessageRouter>(use8)) : std::make_unique<es::IdentityObject>(inst, si);
      });
      CHECK(e.empty(), "read-fails", "%s", e.c_str());
      CHECK(s.requests.size() == before + 1, "request-count", "%zu requests", s.requests.size() - before);
      auto& q = s.requests.back();
      CHECK(q.service == 1 && q.lp.cls == 1 && q.lp.inst == inst && q.lp.attr == -1 && q.data.empty() && q.extra.empty(), "request", "service %02x path %s", q.service, hex(q.path).c_str());
      compare(c, *o, x, "read");
      count("reads");
      if (x.name.size() > 127) count("long_names");
      if (x.name.find('\0') != std::string::npos) count("binary_names");
      objs.emplace_back(std::move(o), x);
    }
    CHECK(objs.back().first->getInstanceId() == inst && objs.back().first->getClassId() == 1, "instance", "%u", objs.back().first->getInstanceId());
  }
  for (auto& [o, x] : objs) compare(c, *o, x, "kept");
  c.phase("setters");
  for (int i = 0, k = (int)r.below(13); i < k; ++i) {
    auto& [o, x] = objs[r.below(objs.size())];
    switch (r.below(7)) {
      case 0: o->setVendorId(x.vendor = (uint16_t)r.edgy(16)); break;
      case 1: o->setDeviceType(x.type = (uint16_t)r.edgy(16)); break;
      case 2: o->setProductCode(x.code = (uint16_t)r.edgy(16)); break;
      case 3: x.major = r.u8(); x.minor = r.u8(); o->setRevision(es::cip::CipRevision(x.major, x.minor)); break;
      case 4: o->setStatus(x.status = (uint16_t)r.edgy(16)); break;
      case 5: o->setSerialNumber(x.serial = (uint32_t)r.edgy(32)); break;
      case 6: x.name = someName(r); o->setProductName(x.name); break;
    }
    count("setters");
    for (auto& [p, y] : objs) compare(c, *p, y, "after a setter");
    if (r.chance(20)) { es::IdentityObject copy(*o); compare(c, copy, x, "copied"); }
  }
  size_t total = s.requests.size();
  objs.clear();
  si.reset();
  CHECK(s.requests.size() == total, "late-request", "a request was sent by a getter, setter or destructor");
  expectProtocol(c, s);
  expectSane(c, n.w);
  distinct("nontrivial", h);
}
