// Encapsulation packets: building, packing, parsing, re-packing, rejecting.
#include "adapter.h"
#include "prop.h"
#include "named.h"
#include "eip/EncapsPacket.h"

using namespace prop;
using namespace eipScanner::eip;
using model::Wr;

namespace prop {
const char* const kProperty = "W03";
const uint64_t kQuickCases = 100000, kThoroughCases = 4000000;
const char* const kRule =
    "a case either builds a packet from random fields (payloads 0..65535 with the edges) and round-trips it, or parses a byte string made by "
    "mutating a packet (declared length, truncation at any byte, extension, random bytes) into a fresh or used object; non-trivial: distinct "
    "(kind, size, declared length) triples";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"accepted", 100}, {"rejected", 100}, {"roundtrips", 100}};
}  // namespace prop

static EncapsPacket someUsedPacket(Rng& r) {
  EncapsPacket p;
  if (r.chance(50)) return p;
  p.setCommand((EncapsCommands)r.u16());
  p.setSessionHandle(r.u32());
  p.setData(r.bytes(r.below(40)));
  if (r.chance(50)) {
    Bytes d = r.bytes(r.below(10));
    Bytes b = model::packEncaps({r.u16(), r.u32(), r.u32(), r.bytes(8), r.u32(), d});
    p.expand(b);
  }
  return p;
}

static void checkFields(Ctx& c, const EncapsPacket& p, const model::Encaps& e, const char* what) {
  CHECK((uint16_t)p.getCommand() == e.command, "field", "%s: command %u instead of %u", what, (unsigned)p.getCommand(), e.command);
  CHECK(p.getSessionHandle() == e.handle, "field", "%s: handle", what);
  CHECK((uint32_t)p.getStatusCode() == e.status, "field", "%s: status", what);
  CHECK(p.getLength() == e.data.size(), "field", "%s: length %u instead of %zu", what, p.getLength(), e.data.size());
  CHECK(p.getData() == e.data, "field", "%s: data", what);
}

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  size_t n = r.chance(85) ? r.below(64) : r.chance(60) ? 65500 + r.below(36) : r.chance(50) ? 250 + r.below(12) : r.below(65536);
  model::Encaps e{(uint16_t)r.edgy(16), (uint32_t)r.edgy(32), (uint32_t)r.edgy(32), Bytes(8, 0), 0, r.bytes(n)};
  int kind = (int)r.below(3);
  if (kind == 0) {
    c.phase("build");
    EncapsPacket p;
    if (r.chance(30)) { p.setData(r.bytes(r.below(100))); p.setCommand((EncapsCommands)r.u16()); p.setSessionHandle(r.u32()); p.setStatusCode((EncapsStatusCodes)r.u32()); }
    int order = (int)r.below(4);
    for (int i = 0; i < 4; ++i) switch ((i + order) % 4) {
        case 0: p.setCommand((EncapsCommands)e.command); break;
        case 1: p.setSessionHandle(e.handle); break;
        case 2: p.setStatusCode((EncapsStatusCodes)e.status); break;
        case 3: p.setData(e.data); break;
      }
    if (r.chance(20)) {  // by name
      auto& n = r.pick(named::kCommands);
      p.setCommand(n.value);
      e.command = (uint16_t)n.number;
      auto& st = r.pick(named::kEncapsStatuses);
      p.setStatusCode(st.value);
      e.status = (uint32_t)st.number;
      count("named");
    }
    checkFields(c, p, e, "built");
    Bytes want = model::packEncaps(e), got = p.pack();
    CHECK(got == want, "pack", "%s instead of %s", hex(got).c_str(), hex(want).c_str());
    EncapsPacket q = someUsedPacket(r);
    auto o = outcome(c, [&] { q.expand(got); });
    CHECK(o.empty(), "rejected-own", "parsing the packed packet of %zu bytes: %s", got.size(), o.c_str());
    checkFields(c, q, e, "parsed");
    CHECK(q == p && !(q != p) && p == q, "not-equal", "the parsed packet is not equal to the built one");
    CHECK(q.pack() == want, "repack", "packing again differs");
    // equality sees every field
    model::Encaps x = e;
    switch (r.below(7)) {
      case 0: x.command ^= (uint16_t)(1u << r.below(16)); break;
      case 1: x.handle ^= 1u << r.below(32); break;
      case 2: x.status ^= 1u << r.below(32); break;
      case 3: if (x.data.empty()) x.data.push_back(0); else x.data[r.below(x.data.size())] ^= (uint8_t)(1 << r.below(8)); break;
      case 4: if (x.data.empty() ) x.data.push_back(0); else x.data.pop_back(); break;
      case 5: x.context[r.below(8)] ^= (uint8_t)(1 << r.below(8)); break;
      case 6: x.options ^= 1u << r.below(32); break;
    }
    EncapsPacket y;
    y.expand(model::packEncaps(x));
    CHECK(!(y == p) && y != p, "equal-different", "packets that differ compare equal");
    count("roundtrips");
    distinct("nontrivial", "rt" + std::to_string(n));
    sample("round trip of a packet with " + std::to_string(n) + " bytes");
    return;
  }
  e.context = r.bytes(8);
  e.options = (uint32_t)r.edgy(32);
  Bytes b = model::packEncaps(e);
  size_t declared = n;
  auto setLen = [&](size_t v) { declared = v & 0xFFFF; b[2] = (uint8_t)v; b[3] = (uint8_t)(v >> 8); };
  switch (r.below(7)) {
    case 0: break;
    case 1: setLen(n + (r.chance(50) ? 1 : r.below(300))); break;
    case 2: setLen(n - (r.chance(50) ? 1 : r.below(300))); break;
    case 3: setLen(r.edgy(16)); break;
    case 4: b.resize(r.below(b.size() + 1)); break;
    case 5: { auto x = r.bytes(1 + r.below(30)); b.insert(b.end(), x.begin(), x.end()); break; }
    case 6: {
      b = r.bytes(r.below(60));
      if (b.size() >= 4) { declared = b[2] | b[3] << 8; if (r.chance(50) && b.size() >= 24) setLen(b.size() - 24); }
      break;
    }
  }
  if (r.chance(5) && n > 65000) { b.resize(24 + n + 65536 - (n & 1)); }  // equal modulo 2^16
  {  // the length said by the header, whatever follows it
    Bytes h = b;
    if (r.chance(50) && h.size() > 24) h.resize(24);
    size_t said = 0;
    auto o = outcome(c, [&] { said = EncapsPacket::getLengthFromHeader(h); });
    if (h.size() >= 24 || o.empty()) CHECK(o.empty() && h.size() >= 4 && said == (size_t)(h[2] | h[3] << 8), "header-length", "%zu for %s (%s)", said, hex(h).c_str(), o.c_str());
    count("header_lengths");
  }
  bool good = b.size() >= 24 && (size_t)(b[2] | b[3] << 8) == b.size() - 24;
  c.note("parse %s", hex(b, 40).c_str());
  c.phase("parse");
  EncapsPacket p = someUsedPacket(r);
  auto o = outcome(c, [&] { p.expand(b); });
  CHECK(o.empty() == good, good ? "rejected-good" : "accepted-bad", "%zu bytes with declared length %d: %s", b.size(), b.size() >= 4 ? b[2] | b[3] << 8 : -1, o.empty() ? "accepted" : o.c_str());
  count(good ? "accepted" : "rejected");
  distinct("nontrivial", "p" + std::to_string(b.size()) + "," + std::to_string(declared));
  if (good) {
    model::Encaps w{(uint16_t)(b[0] | b[1] << 8), (uint32_t)(b[4] | b[5] << 8 | b[6] << 16 | (uint32_t)b[7] << 24), (uint32_t)(b[8] | b[9] << 8 | b[10] << 16 | (uint32_t)b[11] << 24), {}, 0, Bytes(b.begin() + 24, b.end())};
    checkFields(c, p, w, "parsed");
    CHECK(p.pack() == b, "repack", "parsing and packing %s gives %s", hex(b).c_str(), hex(p.pack()).c_str());
    EncapsPacket q = p;
    CHECK(q == p && q.pack() == b, "copy", "a copy differs");
  }
}
