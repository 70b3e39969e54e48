#include "adapter.h"

namespace model {

Bytes packEncaps(const Encaps& e) {
  return Wr().u16(e.command).u16(e.data.size()).u32(e.handle).u32(e.status).raw(e.context).u32(e.options).raw(e.data);
}
Bytes packCpf(const std::vector<Item>& items) {
  Wr w;
  w.u16(items.size());
  for (auto& i : items) w.u16(i.type).u16(i.data.size()).raw(i.data);
  return w;
}
bool parseCpf(const Bytes& b, std::vector<Item>& items) {
  Rd r(b);
  unsigned n = r.u16();
  for (unsigned i = 0; i < n && r.ok; ++i) {
    Item it;
    it.type = r.u16();
    unsigned len = r.u16();
    it.data = r.raw(len);
    if (r.ok) items.push_back(it);
  }
  return r.ok && r.left() == 0;
}
Bytes path8(int c, int i, int a) {
  Wr w;
  w.u8(0x20).u8((unsigned)c);
  if (i >= 0) w.u8(0x24).u8((unsigned)i);
  if (a >= 0) w.u8(0x30).u8((unsigned)a);
  return w;
}
Bytes path16(int c, int i, int a) {
  Wr w;
  w.u8(0x21).u8(0).u16((unsigned)c);
  if (i >= 0) w.u8(0x25).u8(0).u16((unsigned)i);
  if (a >= 0) w.u8(0x31).u8(0).u16((unsigned)a);
  return w;
}
LogicalPath parsePath(const Bytes& b) {
  LogicalPath p;
  Rd r(b);
  while (r.left()) {
    int s = r.u8(), v;
    if (s & 1) { r.u8(); v = r.u16(); } else v = r.u8();
    switch (s & 0xFE) {
      case 0x20: p.cls = v; break;
      case 0x24: p.inst = v; break;
      case 0x30: p.attr = v; break;
      default: return p;
    }
  }
  p.ok = r.ok;
  return p;
}
Bytes packMr(uint8_t service, const Rep& r) {
  Wr w;
  w.u8(r.service ? *r.service : (service | 0x80)).u8(0).u8(r.status).u8(r.addl.size());
  for (auto a : r.addl) w.u16(a);
  w.raw(r.data);
  return w;
}
Bytes packReply(uint32_t handle, uint8_t service, const Rep& r) {
  std::vector<Item> items{{0, {}}, {0x00B2, packMr(service, r)}};
  items.insert(items.end(), r.extra.begin(), r.extra.end());
  return packEncaps(Encaps{0x6F, handle, 0, Bytes(8, 0), 0, Wr().u32(0).u16(0).raw(packCpf(items))});
}

void Server::onOpen(Conn& c) {
  auto& s = conns[c.no];
  s.conn = &c;
  if (opened) opened(c);
}
void Server::onClose(Conn& c) {
  auto& s = conns[c.no];
  if (!s.pending.empty()) protoErrors.push_back("incomplete-packet-at-close");
}
void Server::send(Conn& c, Bytes b, int n) {
  if (deliver) deliver(c, std::move(b), n);
  else c.send(std::move(b), delay);
}
int Server::openSessions() const {
  int n = 0;
  for (auto& [k, s] : conns) n += s.registered && !s.afterUnregister && !s.conn->clientClosed;
  return n;
}
void Server::onData(Conn& c, const Bytes& d) {
  auto& s = conns[c.no];
  s.pending.insert(s.pending.end(), d.begin(), d.end());
  while (s.pending.size() >= 24) {
    size_t len = s.pending[2] | s.pending[3] << 8;
    if (s.pending.size() < 24 + len) break;
    Bytes p(s.pending.begin(), s.pending.begin() + (long)(24 + len));
    s.pending.erase(s.pending.begin(), s.pending.begin() + (long)(24 + len));
    packet(c, s, p);
  }
}
void Server::packet(Conn& c, ConnState& s, const Bytes& p) {
  Rd r(p);
  uint16_t cmd = r.u16();
  r.u16();
  uint32_t handle = r.u32(), status = r.u32();
  Bytes ctx = r.raw(8);
  uint32_t options = r.u32();
  Bytes data = r.rest();
  auto err = [&](const char* e) { protoErrors.push_back(e); };
  if (status) err("request-with-encapsulation-status");
  if (options) err("request-with-options");
  if (ctx != Bytes(8, 0)) err("request-with-sender-context");
  if (s.afterUnregister) err("packet-after-unregister");
  if (cmd == 0x65) {
    s.registers++;
    if (s.registered || s.registers > 1) err("registered-twice");
    if (handle) err("register-with-handle");
    if (data != Bytes{1, 0, 0, 0}) err("register-data");
    if (onRegister) {
      auto o = onRegister(s);
      if (o) send(c, *o, -1);
      return;
    }
    s.handle = nextHandle;
    nextHandle += 0x01010107;
    s.registered = true;
    Bytes b = packEncaps(Encaps{0x65, s.handle, 0, ctx, 0, {1, 0, 0, 0}});
    if (mutate) mutate(b, -1, s);
    send(c, b, -1);
    return;
  }
  if (!s.registered) { err("packet-before-register"); return; }
  if (handle != s.handle) err("wrong-session-handle");
  if (cmd == 0x66) {
    s.unregisters++;
    s.afterUnregister = true;
    if (!data.empty()) err("unregister-data");
    return;
  }
  if (cmd != 0x6F && other) {
    Bytes b = packEncaps(Encaps{cmd, s.handle, 0, ctx, 0, other(cmd, data)});
    s.requests++;
    lastHandle = handle;
    if (mutate) mutate(b, (int)requests.size(), s);
    send(c, b, (int)requests.size());
    return;
  }
  if (cmd != 0x6F) { err("unexpected-command"); return; }
  Rd d(data);
  if (d.u32() != 0) err("interface-handle");
  d.u16();
  Bytes cpf = d.rest();
  std::vector<Item> items;
  if (!d.ok || !parseCpf(cpf, items)) { err("malformed-common-packet"); return; }
  if (items.size() < 2) { err("missing-items"); return; }
  if (items[0].type != 0 || !items[0].data.empty()) err("address-item");
  if (items[1].type != 0x00B2) err("data-item");
  Req q;
  Rd m(items[1].data);
  q.service = m.u8();
  size_t words = m.u8();
  q.path = m.raw(words * 2);
  q.data = m.rest();
  if (!m.ok) { err("malformed-request"); return; }
  q.lp = parsePath(q.path);
  q.extra.assign(items.begin() + 2, items.end());
  q.handle = lastHandle = handle;
  q.conn = c.no;
  q.index = (int)requests.size();
  q.t = sim::current()->now;
  requests.push_back(q);
  s.requests++;
  Rep rep;
  rep.status = 8;
  if (cip) rep = cip(q);
  if (rep.silent) return;
  Bytes b = packReply(s.handle, q.service, rep);
  if (mutate) mutate(b, q.index, s);
  send(c, b, q.index);
}

std::vector<std::pair<Ns, Bytes>> segment(prop::Rng& r, const Bytes& b, int style, Ns maxGap) {
  std::vector<std::pair<Ns, Bytes>> out;
  auto gap = [&]() -> Ns { return maxGap ? (Ns)r.below((uint64_t)maxGap) : 0; };
  size_t p = 0;
  auto put = [&](size_t n) {
    n = std::min(n, b.size() - p);
    out.push_back({gap(), Bytes(b.begin() + (long)p, b.begin() + (long)(p + n))});
    p += n;
  };
  switch (style) {
    case 0: put(b.size()); break;                                   // whole
    case 1: while (p < b.size()) put(1); break;                     // byte by byte
    case 2: put(24); if (p < b.size()) put(b.size()); break;        // header, body
    case 3: put(r.below(24) + 1); while (p < b.size()) put(r.below(b.size()) + 1); break;
    case 4: put(b.size() > 1 ? b.size() - 1 : 1); if (p < b.size()) put(1); break;  // last byte alone
    default: while (p < b.size()) put(r.below(40) + 1); break;
  }
  return out;
}

FwdOpen parseFwdOpen(const Req& q) {
  FwdOpen f;
  f.large = q.service == 0x5B;
  if (q.service != 0x54 && q.service != 0x5B) return f;
  Rd r(q.data);
  f.tick = r.u8();
  f.ticks = r.u8();
  f.o2tId = r.u32();
  f.t2oId = r.u32();
  f.serial = r.u16();
  f.vendor = r.u16();
  f.origSerial = r.u32();
  f.mult = r.u8();
  f.reserved = r.raw(3);
  f.o2tRpi = r.u32();
  f.o2tNcp = f.large ? r.u32() : r.u16();
  f.t2oRpi = r.u32();
  f.t2oNcp = f.large ? r.u32() : r.u16();
  f.trigger = r.u8();
  f.pathWords = r.u8();
  f.path = r.rest();
  f.ok = r.ok && f.path.size() == f.pathWords * 2u;
  return f;
}
FwdClose parseFwdClose(const Req& q) {
  FwdClose f;
  if (q.service != 0x4E) return f;
  Rd r(q.data);
  f.tick = r.u8();
  f.ticks = r.u8();
  f.serial = r.u16();
  f.vendor = r.u16();
  f.origSerial = r.u32();
  f.pathWords = r.u8();
  f.reserved = r.u8();
  f.path = r.rest();
  f.ok = r.ok && f.path.size() == f.pathWords * 2u;
  return f;
}
Bytes fwdOpenReply(uint32_t o2t, uint32_t t2o, uint16_t serial, uint16_t vendor, uint32_t orig, uint32_t o2tApi, uint32_t t2oApi,
                   const Bytes& app) {
  return Wr().u32(o2t).u32(t2o).u16(serial).u16(vendor).u32(orig).u32(o2tApi).u32(t2oApi).u8(app.size() / 2).u8(0).raw(app);
}
Item sockaddrItem(uint16_t type, const Addr& a) {
  return Item{type, Wr().be(2, 2).be(a.port, 2).be(a.ip, 4).zero(8)};
}
IoFrame parseIo(const Bytes& b) {
  IoFrame f;
  std::vector<Item> items;
  if (!parseCpf(b, items) || items.size() != 2) return f;
  if (items[0].type != 0x8002 || items[0].data.size() != 8 || items[1].type != 0x00B1) return f;
  Rd r(items[0].data);
  f.connId = r.u32();
  f.seq = r.u32();
  f.data = items[1].data;
  f.ok = true;
  return f;
}
Bytes packIo(uint32_t connId, uint32_t seq, const Bytes& data) {
  return packCpf({Item{0x8002, Wr().u32(connId).u32(seq)}, Item{0x00B1, data}});
}
Bytes identityItem(const Identity& i) {
  return Wr().u16(i.protocol).be(2, 2).be(i.at.port, 2).be(i.at.ip, 4).zero(8).u16(i.vendor).u16(i.type).u16(i.code).u8(i.major)
      .u8(i.minor).u16(i.status).u32(i.serial).sstr(i.name).u8(i.state);
}
Bytes listIdentityReply(const std::vector<Identity>& ids) {
  std::vector<Item> items;
  for (auto& i : ids) items.push_back(Item{0x000C, identityItem(i)});
  return packEncaps(Encaps{0x63, 0, 0, Bytes(8, 0), 0, packCpf(items)});
}
Identity randomIdentity(prop::Rng& r, const Addr& at) {
  Identity i;
  i.at = at;
  i.vendor = (uint16_t)r.edgy(16);
  i.type = (uint16_t)r.edgy(16);
  i.code = (uint16_t)r.edgy(16);
  i.major = r.u8();
  i.minor = r.u8();
  i.status = (uint16_t)r.edgy(16);
  i.serial = (uint32_t)r.edgy(32);
  i.name = r.str(r.chance(50) ? r.below(20) : r.below(256));
  i.state = r.u8();
  return i;
}

}  // namespace model
