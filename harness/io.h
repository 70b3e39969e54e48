// A model of an I/O target: it accepts forward opens, and the checks exchange I/O datagrams in its name.
#pragma once
#include "net.h"
#include "ConnectionManager.h"

namespace io {
using namespace net;
using model::FwdOpen;
using model::FwdClose;

// What the user asks for; the encodings are written down independently of the library
struct Spec {
  uint32_t o2tSize = 0, t2oSize = 0;
  bool o2tFixed = true, t2oFixed = true;
  int o2tType = 2, t2oType = 2;  // 0 null, 1 multicast, 2 point to point
  int o2tPrio = 0, t2oPrio = 0;
  bool o2tOwner = false, t2oOwner = false;
  uint8_t trigger = 1;
  bool o2tRtf = false, t2oRtf = false;
  uint8_t mult = 0, tick = 0, ticks = 0;
  uint32_t o2tRpi = 100000, t2oRpi = 100000;
  uint16_t vendor = 0;
  uint32_t serial = 0;
  uint32_t o2tId = 0, t2oId = 0;
  bool large = false;
  Bytes path;
  bool seqCount() const { return trigger & 1; }  // classes 1 and 3 (2 is not generated)
  unsigned o2tExtra() const { return (seqCount() ? 2 : 0) + (o2tRtf ? 4 : 0); }
  unsigned t2oExtra() const { return (seqCount() ? 2 : 0) + (t2oRtf ? 4 : 0); }
  static uint32_t word(bool large, bool owner, int type, int prio, bool fixed, uint32_t size) {
    uint32_t hi = (uint32_t)owner << 15 | (uint32_t)type << 13 | (uint32_t)prio << 10 | (uint32_t)!fixed << 9;
    return large ? hi << 16 | size : hi | size;
  }
  uint32_t o2tWord(unsigned extra = 0) const { return word(large, o2tOwner, o2tType, o2tPrio, o2tFixed, o2tSize + extra); }
  uint32_t t2oWord(unsigned extra = 0) const { return word(large, t2oOwner, t2oType, t2oPrio, t2oFixed, t2oSize + extra); }
  es::cip::connectionManager::ConnectionParameters params() const {
    es::cip::connectionManager::ConnectionParameters p;
    p.priorityTimeTick = tick;
    p.timeoutTicks = ticks;
    p.o2tNetworkConnectionId = o2tId;
    p.t2oNetworkConnectionId = t2oId;
    p.originatorVendorId = vendor;
    p.originatorSerialNumber = serial;
    p.connectionTimeoutMultiplier = mult;
    p.o2tRPI = o2tRpi;
    p.t2oRPI = t2oRpi;
    p.o2tNetworkConnectionParams = o2tWord();
    p.t2oNetworkConnectionParams = t2oWord();
    p.transportTypeTrigger = trigger;
    p.o2tRealTimeFormat = o2tRtf;
    p.t2oRealTimeFormat = t2oRtf;
    p.connectionPath = path;
    return p;
  }
};
inline Spec randomSpec(Rng& r, uint32_t maxSize = 505) {
  Spec s;
  s.large = r.chance(30);
  uint32_t most = s.large ? std::max<uint32_t>(maxSize, 1400) : std::min<uint32_t>(maxSize, 505);
  s.o2tSize = (uint32_t)(r.chance(70) ? r.below(33) : r.below(most + 1));
  s.t2oSize = (uint32_t)(r.chance(70) ? r.below(33) : r.below(most + 1));
  s.o2tFixed = r.chance(60);
  s.t2oFixed = r.chance(60);
  s.o2tType = (int)r.below(3);
  s.t2oType = (int)r.below(3);
  s.o2tPrio = (int)r.below(4);
  s.t2oPrio = (int)r.below(4);
  s.o2tOwner = r.chance(20);
  s.t2oOwner = r.chance(20);
  s.trigger = (uint8_t)((r.chance(60) ? 1 : r.chance(50) ? 0 : 3) | r.below(3) << 4 | (r.chance(20) ? 0x80 : 0));
  s.o2tRtf = r.chance(50);
  s.t2oRtf = r.chance(40);
  s.mult = (uint8_t)r.below(8);
  s.tick = r.u8();
  s.ticks = r.u8();
  s.vendor = r.chance(15) ? 0 : r.u16();
  s.serial = r.chance(15) ? 0 : (uint32_t)r.edgy(32);
  s.path = model::path8(4, (int)r.below(256));
  for (int i = 0, k = (int)r.below(3); i < k; ++i) { s.path.push_back(0x2C); s.path.push_back(r.u8()); }
  return s;
}

struct Open {
  FwdOpen fo;
  uint32_t o2t = 0, t2o = 0, o2tApi = 0, t2oApi = 0;
  Addr udp;                 // where the target wants its data
  bool accepted = false, closed = false;
  uint16_t serial = 0;
};
struct Target : model::Server {
  using Server::Server;
  std::vector<Open> opens;
  std::vector<FwdClose> closes;
  std::function<void(Open&, model::Rep&)> plan;       // may change the ids, intervals, address (adding the item) and the status
  std::function<void(model::Rep&)> closePlan;
  std::function<model::Rep(const model::Req&)> other;
  std::string bad;
  uint32_t nextId = 0x5000;
  bool sockaddrGiven = false;
  Bytes appReply;                                     // application data of the answer to a forward open (whole words)
  void setup() {
    cip = [this](const model::Req& q) {
      model::Rep rep;
      if (q.service == 0x54 || q.service == 0x5B) {
        Open o;
        o.fo = model::parseFwdOpen(q);
        if (!o.fo.ok) bad = "malformed-forward-open";
        if (q.lp.cls != 6 || q.lp.inst != 1 || q.lp.attr != -1) bad = "forward-open-path";
        o.o2t = o.fo.o2tId ? o.fo.o2tId : nextId++;
        o.t2o = o.fo.t2oId ? o.fo.t2oId : nextId++;
        o.o2tApi = o.fo.o2tRpi;
        o.t2oApi = o.fo.t2oRpi;
        o.udp = Addr{at.ip, 2222};
        o.serial = o.fo.serial;
        if (plan) plan(o, rep);
        o.accepted = rep.status == 0;
        opens.push_back(o);
        if (rep.status == 0) rep.data = model::fwdOpenReply(o.o2t, o.t2o, o.fo.serial, o.fo.vendor, o.fo.origSerial, o.o2tApi, o.t2oApi, appReply);
      } else if (q.service == 0x4E) {
        auto f = model::parseFwdClose(q);
        if (!f.ok) bad = "malformed-forward-close";
        if (q.lp.cls != 6 || q.lp.inst != 1 || q.lp.attr != -1) bad = "forward-close-path";
        closes.push_back(f);
        for (auto& o : opens) if (o.accepted && !o.closed && o.serial == f.serial) { o.closed = true; break; }
        rep.data = model::Wr().u16(f.serial).u16(f.vendor).u32(f.origSerial).u8(0).u8(0);
        if (closePlan) closePlan(rep);
      } else if (other) rep = other(q);
      else rep.status = 8;
      return rep;
    };
  }
};
// The data of a frame as the target would send it
inline Bytes t2oPayload(const Spec& s, uint16_t seq, uint32_t header, const Bytes& data) {
  model::Wr w;
  if (s.seqCount()) w.u16(seq);
  if (s.t2oRtf) w.u32(header);
  w.raw(data);
  return w;
}
}  // namespace io
