// Models of the peers of the library: an EtherNet/IP adapter (explicit messaging over TCP, I/O over UDP) and helpers to
// encode and decode the wire formats. Nothing here uses code of the library.
#pragma once
#include <functional>
#include <map>
#include <optional>
#include <string>
#include <vector>
#include "prop.h"
#include "sim.h"

namespace model {

using sim::Addr;
using sim::Bytes;
using sim::Conn;
using sim::Ns;

// ---------------------------------------------------------------- little-endian writer and reader
struct Wr {
  Bytes b;
  Wr& u8(uint64_t v) { b.push_back((uint8_t)v); return *this; }
  Wr& u16(uint64_t v) { return le(v, 2); }
  Wr& u32(uint64_t v) { return le(v, 4); }
  Wr& u64(uint64_t v) { return le(v, 8); }
  Wr& le(uint64_t v, int n) { for (int i = 0; i < n; ++i) b.push_back((uint8_t)(v >> (8 * i))); return *this; }
  Wr& be(uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) b.push_back((uint8_t)(v >> (8 * i))); return *this; }
  Wr& raw(const Bytes& x) { b.insert(b.end(), x.begin(), x.end()); return *this; }
  Wr& raw(const std::string& x) { b.insert(b.end(), x.begin(), x.end()); return *this; }
  Wr& sstr(const std::string& x) { u8(x.size()); return raw(x); }  // short string
  Wr& zero(size_t n) { b.insert(b.end(), n, 0); return *this; }
  operator Bytes() const { return b; }
};
struct Rd {
  const Bytes& b;
  size_t p = 0;
  bool ok = true;
  explicit Rd(const Bytes& x) : b(x) {}
  uint64_t le(int n) {
    uint64_t v = 0;
    if (p + (size_t)n > b.size()) { ok = false; p = b.size(); return 0; }
    for (int i = 0; i < n; ++i) v |= (uint64_t)b[p++] << (8 * i);
    return v;
  }
  uint64_t be(int n) {
    uint64_t v = 0;
    if (p + (size_t)n > b.size()) { ok = false; p = b.size(); return 0; }
    for (int i = 0; i < n; ++i) v = v << 8 | b[p++];
    return v;
  }
  uint8_t u8() { return (uint8_t)le(1); }
  uint16_t u16() { return (uint16_t)le(2); }
  uint32_t u32() { return (uint32_t)le(4); }
  Bytes raw(size_t n) {
    if (p + n > b.size()) { ok = false; p = b.size(); return {}; }
    Bytes r(b.begin() + (long)p, b.begin() + (long)(p + n));
    p += n;
    return r;
  }
  Bytes rest() { return raw(b.size() - p); }
  size_t left() const { return b.size() - p; }
};

// ---------------------------------------------------------------- encapsulation, common packet format, CIP
struct Encaps {
  uint16_t command = 0;
  uint32_t handle = 0, status = 0;
  Bytes context = Bytes(8, 0);
  uint32_t options = 0;
  Bytes data;
};
Bytes packEncaps(const Encaps& e);
struct Item {
  uint16_t type;
  Bytes data;
  bool operator==(const Item& o) const { return type == o.type && data == o.data; }
};
Bytes packCpf(const std::vector<Item>& items);
bool parseCpf(const Bytes& b, std::vector<Item>& items);  // strict: everything must be consumed

Bytes path8(int cls, int inst = -1, int attr = -1);   // 8-bit padded logical segments
Bytes path16(int cls, int inst = -1, int attr = -1);  // 16-bit ones
struct LogicalPath { int cls = -1, inst = -1, attr = -1; bool ok = false; };
LogicalPath parsePath(const Bytes& b);

struct Req {
  uint8_t service = 0;
  Bytes path;
  LogicalPath lp;
  Bytes data;
  std::vector<Item> extra;
  uint32_t handle = 0;
  int conn = 0;
  int index = 0;   // ordinal at this server
  Ns t = 0;
};
struct Rep {
  uint8_t status = 0;
  std::vector<uint16_t> addl;
  Bytes data;
  std::vector<Item> extra;
  std::optional<uint8_t> service;
  bool silent = false;  // no answer
};
Bytes packMr(uint8_t service, const Rep& r);
Bytes packReply(uint32_t handle, uint8_t service, const Rep& r);  // complete encapsulated answer

struct ConnState {
  sim::Conn* conn = nullptr;
  Bytes pending;
  uint32_t handle = 0;
  bool registered = false;
  int registers = 0, unregisters = 0, requests = 0;
  bool afterUnregister = false;
};

class Server : public sim::ServerApp {
public:
  explicit Server(const std::string& host, uint16_t port = 44818) : at(sim::addr(host, port)) {}
  Addr at;
  uint32_t nextHandle = 0x1000;
  std::vector<Req> requests;
  std::vector<std::string> protoErrors;       // anything malformed sent by the client
  std::map<int, ConnState> conns;             // by ordinal of the connection
  std::function<Rep(const Req&)> cip;         // default: status 8
  std::function<Bytes(uint16_t command, const Bytes& data)> other;  // data of the answer to commands other than send-RR-data
  uint32_t lastHandle = 0;                    // of the latest request
  std::function<std::optional<Bytes>(ConnState&)> onRegister;  // overrides the register answer (empty: silence)
  // the bytes of the n-th answer of this server (register answers are n = -1) may be changed
  std::function<void(Bytes&, int n, ConnState&)> mutate;
  // how bytes reach the client; default: at once, after `delay`
  std::function<void(Conn&, Bytes, int n)> deliver;
  Ns delay = 200 * sim::US;
  std::function<void(Conn&)> opened;           // called for every new connection

  void install(sim::World& w) { w.listeners[at].app = this; }
  void onOpen(Conn& c) override;
  void onData(Conn& c, const Bytes&) override;
  void onClose(Conn& c) override;
  void send(Conn& c, Bytes b, int n);
  int openSessions() const;
private:
  void packet(Conn& c, ConnState& s, const Bytes& p);
};

// A way to cut bytes into pieces that arrive one after the other
std::vector<std::pair<Ns, Bytes>> segment(prop::Rng& r, const Bytes& b, int style, Ns maxGap);

// ---------------------------------------------------------------- forward open
struct FwdOpen {
  bool large = false, ok = false;
  uint8_t tick = 0, ticks = 0;
  uint32_t o2tId = 0, t2oId = 0;
  uint16_t serial = 0, vendor = 0;
  uint32_t origSerial = 0;
  uint8_t mult = 0;
  Bytes reserved;
  uint32_t o2tRpi = 0, t2oRpi = 0, o2tNcp = 0, t2oNcp = 0;
  uint8_t trigger = 0, pathWords = 0;
  Bytes path;
};
FwdOpen parseFwdOpen(const Req& r);
struct FwdClose {
  bool ok = false;
  uint8_t tick = 0, ticks = 0;
  uint16_t serial = 0, vendor = 0;
  uint32_t origSerial = 0;
  uint8_t pathWords = 0, reserved = 0;
  Bytes path;
};
FwdClose parseFwdClose(const Req& r);
Bytes fwdOpenReply(uint32_t o2tId, uint32_t t2oId, uint16_t serial, uint16_t vendor, uint32_t origSerial, uint32_t o2tApi,
                   uint32_t t2oApi, const Bytes& app = {});
Item sockaddrItem(uint16_t type, const Addr& a);

// ---------------------------------------------------------------- I/O frames
struct IoFrame {
  bool ok = false;
  uint32_t connId = 0, seq = 0;
  Bytes data;  // of the connected data item
};
IoFrame parseIo(const Bytes& b);
Bytes packIo(uint32_t connId, uint32_t seq, const Bytes& data);

// ---------------------------------------------------------------- list identity
struct Identity {
  Addr at;
  uint16_t vendor = 0, type = 0, code = 0;
  uint8_t major = 0, minor = 0;
  uint16_t status = 0;
  uint32_t serial = 0;
  std::string name;
  uint8_t state = 0;
  uint16_t protocol = 1;
};
Bytes identityItem(const Identity& i);
Bytes listIdentityReply(const std::vector<Identity>& ids);
Identity randomIdentity(prop::Rng& r, const Addr& at);

}  // namespace model
