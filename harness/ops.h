// Every high-level operation of the library against one model device, with everything it surfaces written down.
#pragma once
#include <cmath>
#include "io.h"
#include "drive_faults.h"
#include "FileObject.h"
#include "IdentityObject.h"
#include "ParameterObject.h"
#include "Yaskawa_MessageRouter.h"
#include "vendor/ra/powerFlex525/DPIFaultManager.h"

namespace ops {
using namespace io;
namespace pf = es::vendor::ra::powerFlex525;
using model::Rep;
using model::Req;
using model::Wr;

enum Kind { Identity, ParamFull, ParamBasic, ParamUpdate, File, Faults, FaultObject, Command, OpenIo, Plain, PlainYaskawa, CloseIo, KINDS };
inline const char* name(int k) {
  static const char* n[] = {"identity", "parameter", "basic-parameter", "refresh", "upload", "faults", "fault-object", "command", "forward-open", "plain", "plain-yaskawa", "forward-close"};
  return n[k];
}

struct Param {
  uint8_t type = 0xC7;
  uint16_t descriptor = 0;
  Bytes value, min, max, def, link;
  std::string name, units, help;
  uint16_t scaling[4] = {1, 1, 1, 0};
  uint8_t prec = 0;
  bool scalable() const { return descriptor & 4; }
};
struct Fault { uint16_t code, volts, current, freq; };

// A device with all the objects. `need` is how many bytes of a reply's data are needed by a reader.
struct Device : io::Target {
  using Target::Target;
  model::Identity id;
  uint16_t paramId = 1;
  Param param;
  uint16_t fileId = 1;
  uint8_t fileState = 2, transferSize = 255;
  Bytes file;
  size_t fileSent = 0, transfers = 0;
  std::vector<Fault> faults;
  uint16_t faultInst = 0;
  Bytes faultObject;
  Rep plain;
  int step = 0;
  std::vector<size_t> needs;                        // of the replies of the current operation
  std::function<void(const Req&, Rep&, size_t need, int step)> tweak;
  static constexpr size_t ANY = 0;                  // nothing is needed

  void randomise(Rng& r) {
    id = model::randomIdentity(r, {});
    paramId = (uint16_t)(1 + r.below(500));
    while (paramId < 10 || (paramId >= 604 && paramId <= 660)) paramId = (uint16_t)(1 + r.below(500));
    size_t sz = (size_t)1 << r.below(4);
    param = Param();
    param.value = r.bytes(sz); param.min = r.bytes(sz); param.max = r.bytes(sz); param.def = r.bytes(sz);
    param.type = r.u8();
    param.descriptor = r.u16();
    if (r.chance(50)) param.descriptor |= 4;
    param.link = r.bytes(r.below(8));
    auto text = [&] { return r.chance(10) ? r.str(255) : r.str(r.below(14)); };
    param.name = text(); param.units = text(); param.help = text();
    for (int i = 0; i < 4; ++i) param.scaling[i] = (uint16_t)std::max<uint64_t>(1, r.edgy(16));
    param.prec = (uint8_t)r.below(10);
    fileId = (uint16_t)(1 + r.below(65535));
    fileState = 2;
    transferSize = (uint8_t)(1 + r.below(60));
    file = r.bytes(r.below(transferSize * 4u + 2));
    faults.clear();
    for (size_t i = 0, k = r.chance(20) ? 5 + r.below(6) : 1 + r.below(4); i < k; ++i) faults.push_back({(uint16_t)r.pick(model::kDriveFaults).code, r.u16(), r.u16(), r.u16()});
    for (auto& f : faults) while (!f.code) f.code = (uint16_t)r.pick(model::kDriveFaults).code;
    faultInst = r.u16();
    faultObject = Wr().u16(r.u16()).u8(r.u8()).u8(r.u8()).raw(r.bytes(16)).u64(r.u64()).u16(r.u16());
    plain = randomRep(r, 60, 0);
    appReply = r.bytes(r.chance(50) ? 0 : 2 * r.below(r.chance(80) ? 10 : 200));
  }
  void begin() { step = 0; needs.clear(); fileSent = transfers = 0; }
  Rep answer(const Req& q, size_t& need) {
    Rep p;
    need = ANY;
    int cls = q.lp.cls, in = q.lp.inst, at = q.lp.attr;
    if (cls == 1 && in == 1 && at == -1 && q.service == 1) {
      p.data = Wr().u16(id.vendor).u16(id.type).u16(id.code).u8(id.major).u8(id.minor).u16(id.status).u32(id.serial).sstr(id.name);
      need = p.data.size();
    } else if (cls == 0x0F && in == paramId) {
      auto one = [&](const Bytes& b) { p.data = b; need = b.size(); };
      if (q.service == 1) {
        Wr w;
        w.raw(param.value).u8(param.link.size()).raw(param.link).u16(param.descriptor).u8(param.type);
        size_t basic = w.b.size();
        w.u8(param.value.size()).sstr(param.name).sstr(param.units).sstr(param.help).raw(param.min).raw(param.max).raw(param.def);
        size_t full = w.b.size();
        for (int i = 0; i < 4; ++i) w.u16(param.scaling[i]);
        w.zero(8).u8(param.prec);
        p.data = w;
        need = !wantFull ? basic : param.scalable() ? p.data.size() : full;
      } else if (at == 1) one(param.value);
      else if (at == 6) one({(uint8_t)param.value.size()});
      else if (at >= 13 && at <= 16) one(Wr().u16(param.scaling[at - 13]));
      else p.status = 0x14;
    } else if (cls == 0x0F && q.service == 0x0E && at == 1) {
      static const int codes[] = {7, 8, 9, 604, 605, 606, 607, 608, 609, 610};
      for (size_t i = 0; i < 10; ++i) if (in == codes[i]) p.data = Wr().u16(i < faults.size() ? faults[i].code : 0);
      int k = in - 631;
      if (k >= 0 && k < 30) { Fault f = (size_t)(k % 10) < faults.size() ? faults[(size_t)(k % 10)] : Fault{}; p.data = Wr().u16(k < 10 ? f.freq : k < 20 ? f.current : f.volts); }
      need = 2;
      if (p.data.empty()) p.status = 5;
    } else if (cls == 0x97 && in == 0 && at == 3 && q.service == 0x10) {
    } else if (cls == 0x97 && q.service == 0x0E && at == 0) {
      p.data = faultObject;
      need = 30;
    } else if (cls == 0x37 && in == fileId) {
      if (q.service == 0x0E) { p.data = {fileState}; need = 1; }
      else if (q.service == 0x4B) { p.data = Wr().u32(file.size()).u8(transferSize); need = 5; }
      else {
        size_t left = file.size() - std::min(fileSent, file.size()), take = std::min<size_t>(left, transferSize);
        bool last = left <= transferSize, first = transfers == 0;
        Wr w;
        w.u8(q.data.empty() ? 0 : q.data[0]).u8(first ? (last ? 4 : 0) : last ? 2 : 1).raw(Bytes(file.begin() + (long)fileSent, file.begin() + (long)(fileSent + take)));
        if (last) w.u16(0xABCD);
        p.data = w;
        need = w.b.size();
        fileSent += take;
        transfers++;
      }
    } else p = plain;
    return p;
  }
  bool wantFull = true;
  void setup() {
    Target::setup();
    auto io = cip;
    cip = [this, io](const Req& q) {
      size_t need = 0;
      Rep p;
      if (q.lp.cls == 6) { p = io(q); need = q.service == 0x4E ? ANY : 26 + appReply.size(); } else p = answer(q, need);
      needs.push_back(need);
      int k = step++;
      if (tweak) tweak(q, p, need, k);
      return p;
    };
  }
};

struct Result {
  bool threw = false;
  std::string what;                                // of the exception
  std::string values;                              // everything surfaced by normal return or by callbacks
  std::vector<std::pair<unsigned, Bytes>> calls;   // upload callbacks
  std::vector<int> delivered;                      // faults
  bool handle = false, counted = false;            // I/O connection
  unsigned status = 0;                             // plain requests
  bool more = false;                               // polling did not end
};

struct Setup {
  int kind = 0;
  Spec spec;
  bool details = true, clear = true, use8 = false;
  std::shared_ptr<es::ParameterObject> old;        // for refreshing
  uint8_t service = 0x0E;
  Bytes data;
  int cmd = 2;
};
inline std::string h(const Bytes& b) { return hex(b, 100000); }
inline std::string paramText(const es::ParameterObject& o, size_t size, bool full) {
  std::string s = "type " + std::to_string((int)o.getType()) + " flags " + std::to_string(o.isScalable()) + std::to_string(o.isReadOnly());
  auto v = [&](auto t) {
    using T = decltype(t);
    s += " value " + std::to_string(o.getActualValue<T>());
    if (full) s += " min " + std::to_string(o.getMinValue<T>()) + " max " + std::to_string(o.getMaxValue<T>()) + " def " + std::to_string(o.getDefaultValue<T>());
    char b[64];
    snprintf(b, sizeof b, " eng %.12g", o.getEngValue<T>());
    s += b;
  };
  if (size == 1) v(es::cip::CipUsint{});
  else if (size == 2) v(es::cip::CipUint{});
  else if (size == 4) v(es::cip::CipUdint{});
  else if (size == 8) v(es::cip::CipUlint{});
  s += " name " + h(Bytes(o.getName().begin(), o.getName().end())) + " units " + h(Bytes(o.getUnits().begin(), o.getUnits().end())) + " help " + h(Bytes(o.getHelp().begin(), o.getHelp().end()));
  s += " scaling " + std::to_string(o.getScalingMultiplier()) + "/" + std::to_string(o.getScalingDivisor()) + "/" + std::to_string(o.getScalingBase()) + "/" + std::to_string(o.getScalingOffset()) + "/" + std::to_string(o.getPrecision());
  return s;
}
inline std::string identityText(const es::IdentityObject& o) {
  auto nm = o.getProductName();
  return "vendor " + std::to_string(o.getVendorId()) + " type " + std::to_string(o.getDeviceType()) + " code " + std::to_string(o.getProductCode()) + " rev " + std::to_string(o.getRevision().getMajorRevision()) + "." +
         std::to_string(o.getRevision().getMinorRevision()) + " status " + std::to_string(o.getStatus()) + " serial " + std::to_string(o.getSerialNumber()) + " name " + h(Bytes(nm.begin(), nm.end()));
}
inline std::string responseText(const es::cip::MessageRouterResponse& q) {
  std::string s = "service " + std::to_string((int)q.getServiceCode()) + " status " + std::to_string((int)q.getGeneralStatusCode()) + " words";
  for (auto w : q.getAdditionalStatus()) s += " " + std::to_string(w);
  s += " data " + h(q.getData()) + " items";
  for (auto& i : q.getAdditionalPacketItems()) s += " " + std::to_string((int)i.getTypeId()) + ":" + h(i.getData());
  return s;
}
inline Setup randomSetup(Rng& r, int kind, Device& d) {
  Setup s;
  s.kind = kind;
  s.spec = randomSpec(r, 200);
  s.details = r.chance(70);
  s.clear = r.chance(70);
  s.use8 = kind != Faults && r.chance(30) && d.paramId < 256;
  s.service = (uint8_t)(1 + r.below(127));
  s.data = r.bytes(r.below(30));
  s.cmd = (int)r.below(4);
  d.wantFull = kind != ParamBasic && kind != ParamUpdate;
  return s;
}
// Reads the parameter that is refreshed later (healthy)
inline void prepare(Setup& s, Device& d, const es::SessionInfoIf::SPtr& si) {
  d.begin();
  if (s.kind == ParamUpdate) s.old = std::make_shared<es::ParameterObject>(d.paramId, false, si);
}
inline Result run(Ctx& c, const Setup& s, Device& d, const es::SessionInfoIf::SPtr& si) {
  Result x;
  d.begin();
  c.phase(name(s.kind));
  auto mr = std::make_shared<es::MessageRouter>(s.use8);
  size_t size = d.param.value.size();
  auto polls = [&](es::FileObject& f) {
    int n = 0;
    while (f.handleTransfers(si)) if (++n > 3000) { x.more = true; break; }
  };
  x.what = outcome(c, [&] {
    switch (s.kind) {
      case Identity: { es::IdentityObject o(1, si); x.values = identityText(o); break; }
      case ParamFull: { es::ParameterObject o(d.paramId, true, si, mr); x.values = paramText(o, size, true); break; }
      case ParamBasic: { es::ParameterObject o(d.paramId, false, si, mr); x.values = paramText(o, size, false); break; }
      case ParamUpdate: { s.old->updateValue(si); x.values = paramText(*s.old, size, false); break; }
      case File: {
        es::FileObject f(d.fileId, si);
        f.beginUpload(si, [&](es::cip::GeneralStatusCodes st, const Bytes& b) { x.calls.push_back({(unsigned)st, b}); x.values += "callback " + std::to_string((unsigned)st) + " " + h(b) + ";"; });
        polls(f);
        break;
      }
      case Faults: {
        pf::DPIFaultManager m(s.clear, false, s.details);
        m.setNewFaultListener([&](const pf::DPIFaultParameter& p) {
          auto& f = p.getFullInformation();
          char b[200];
          snprintf(b, sizeof b, "fault %d code %u volts %.9g current %.9g freq %.9g;", f.faultDetails.faultNumber, f.faultDetails.faultCode, f.faultDetails.busVoltage, f.faultDetails.current, f.faultDetails.frequency);
          x.values += b + f.faultDescription.faultText;
          x.delivered.push_back(f.faultDetails.faultNumber);
        });
        m.handleFaultParameters(si, mr);
        break;
      }
      case FaultObject: {
        pf::DPIFaultObject o(d.faultInst, si);
        auto& f = o.getFullInformation();
        auto t = f.faultText.toStdString();
        x.values = "code " + std::to_string(f.faultCode) + " port " + std::to_string(f.dsiPort) + " object " + std::to_string(f.dsiDeviceObject) + " text " + h(Bytes(t.begin(), t.end())) + " timer " + std::to_string(f.timerValue) + " " +
                   std::to_string(f.isValidData) + std::to_string(f.isRealTime);
        break;
      }
      case Command: { pf::DPIFaultManager m; m.writeCommand((pf::DPIFaultManagerCommands)s.cmd, si); x.values = "written"; break; }
      case OpenIo: case CloseIo: {
        es::ConnectionManager m;
        auto io = m.forwardOpen(si, s.spec.params(), s.spec.large);
        x.handle = !io.expired();
        x.counted = m.hasOpenConnections();
        x.values = std::string("handle ") + (x.handle ? "1" : "0") + " counted " + (x.counted ? "1" : "0");
        if (s.kind == CloseIo) {
          m.forwardClose(si, io);
          x.handle = !io.expired();
          x.counted = m.hasOpenConnections();
          x.values += std::string(" after closing ") + (x.handle ? "1" : "0") + (x.counted ? "1" : "0");
        }
        break;
      }
      case Plain: { auto q = es::MessageRouter(s.use8).sendRequest(si, s.service, es::cip::EPath(0x64, 1), s.data); x.status = (unsigned)q.getGeneralStatusCode(); x.values = responseText(q); break; }
      case PlainYaskawa: { auto q = es::Yaskawa_MessageRouter().sendRequest(si, s.service, es::cip::Yaskawa_EPath(0x64, 1), s.data); x.status = (unsigned)q.getGeneralStatusCode(); x.values = responseText(q); break; }
    }
  });
  x.threw = !x.what.empty();
  return x;
}
}  // namespace ops
