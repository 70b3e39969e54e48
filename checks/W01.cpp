// Encoding and decoding of sequences of typed values, against an independent encoder.
#include "adapter.h"
#include "prop.h"
#include "utils/Buffer.h"

using namespace prop;
using namespace eipScanner;
using model::Wr;
using utils::Buffer;

namespace prop {
const char* const kProperty = "W01";
const uint64_t kQuickCases = 100000, kThoroughCases = 4000000;
const char* const kRule =
    "a case encodes a random sequence of typed values (edge values and random bit patterns of every type, sequences and strings up to "
    "the capacity of their prefix) into a buffer that may already hold bytes, and decodes it from a fresh buffer or from the same one "
    "with writes and reads interleaved; non-trivial: distinct type sequences of at least two values";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"values", 4000}, {"strings", 200}, {"endpoints", 100}, {"interleaved", 50}};
}  // namespace prop

struct Val {
  int type;
  uint64_t u = 0;
  Bytes bytes;
  std::vector<uint16_t> words;
  uint32_t ip = 0;
  Bytes wire;
};
enum { U8, I8, U16, I16, U32, I32, U64, I64, F32, F64, BYTES, WORDS, SSTR, STR, REV, EP, NTYPES };
static const char* names[] = {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "bytes", "words", "sstr", "str", "rev", "ep"};

static size_t edge(Rng& r) { return ((size_t)1 << (1 + r.below(16))) + r.below(3) - 1; }  // next to a power of two

static Val make(Rng& r) {
  Val v;
  v.type = (int)r.below(NTYPES);
  static const int width[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
  if (v.type <= F64) {
    int n = width[v.type];
    v.u = r.edgy(n * 8);
    if (v.type == F32 && r.chance(40)) { static const uint32_t f[] = {0x7fc00001, 0x7f800001, 0xff800000, 0x80000000, 1, 0x007fffff, 0x7f7fffff, 0xffc12345}; v.u = f[r.below(8)]; }
    if (v.type == F64 && r.chance(40)) { static const uint64_t f[] = {0x7ff8000000000001, 0x7ff0000000000001, 0xfff0000000000000, 0x8000000000000000, 1, 0x7fefffffffffffff}; v.u = f[r.below(6)]; }
    v.wire = Wr().le(v.u, n);
    return v;
  }
  switch (v.type) {
    case BYTES: v.bytes = r.bytes(r.chance(1) ? 65500 + r.below(9000) : r.chance(6) ? edge(r) : r.chance(3) ? r.below(3000) : r.below(20)); v.wire = v.bytes; break;
    case WORDS: {
      size_t n = r.chance(1) ? 32760 + r.below(20) : r.chance(4) ? edge(r) / 2 : r.chance(3) ? 250 + r.below(10) : r.below(12);
      Wr w;
      for (size_t i = 0; i < n; ++i) { v.words.push_back((uint16_t)r.edgy(16)); w.u16(v.words.back()); }
      v.wire = w;
      break;
    }
    case SSTR: { size_t n = r.chance(30) ? 250 + r.below(6) : r.below(30); v.bytes = r.bytes(n); v.wire = Wr().u8(n).raw(v.bytes); break; }
    case STR: { size_t n = r.chance(2) ? 65500 + r.below(36) : r.chance(2) ? r.below(65536) : r.chance(4) ? std::min<size_t>(edge(r), 65535) : r.chance(20) ? 250 + r.below(20) : r.below(30); v.u = r.u8(); v.bytes = r.bytes(n); v.wire = Wr().u16(n).raw(v.bytes); break; }
    case REV: v.u = r.u16(); v.wire = Wr().u8(v.u & 255).u8(v.u >> 8); break;
    case EP: v.ip = (uint32_t)r.edgy(32); v.u = r.edgy(16); v.wire = Wr().be(2, 2).be(v.u, 2).be(v.ip, 4).zero(8); break;
  }
  return v;
}
static void put(Buffer& b, const Val& v) {
  switch (v.type) {
    case U8: b << (uint8_t)v.u; break;
    case I8: b << (int8_t)v.u; break;
    case U16: b << (uint16_t)v.u; break;
    case I16: b << (int16_t)v.u; break;
    case U32: b << (uint32_t)v.u; break;
    case I32: b << (int32_t)v.u; break;
    case U64: b << (uint64_t)v.u; break;
    case I64: b << (int64_t)v.u; break;
    case F32: { float f; uint32_t x = (uint32_t)v.u; memcpy(&f, &x, 4); b << f; break; }
    case F64: { double f; memcpy(&f, &v.u, 8); b << f; break; }
    case BYTES: b << v.bytes; break;
    case WORDS: b << v.words; break;
    case SSTR: if (v.u & 1) b << cip::CipShortString(std::string(v.bytes.begin(), v.bytes.end())); else b << cip::CipShortString(v.bytes); break;
    case STR: if (v.u & 1) b << cip::CipString(std::string(v.bytes.begin(), v.bytes.end())); else b << cip::CipString(v.bytes); break;
    case REV: b << cip::CipRevision((uint8_t)v.u, (uint8_t)(v.u >> 8)); break;
    case EP: b << sockets::EndPoint(sim::dotted(v.ip), (int)v.u); break;
  }
}
static std::string get(Buffer& b, const Val& v, Rng& r) {  // "" or what was wrong
  auto scalar = [&](auto x) -> std::string {
    using T = decltype(x);
    x = (T)r.u64();
    b >> x;
    return (T)v.u == x ? "" : "decoded another value";
  };
  switch (v.type) {
    case U8: return scalar(uint8_t());
    case I8: return scalar(int8_t());
    case U16: return scalar(uint16_t());
    case I16: return scalar(int16_t());
    case U32: return scalar(uint32_t());
    case I32: return scalar(int32_t());
    case U64: return scalar(uint64_t());
    case I64: return scalar(int64_t());
    case F32: { float f = 1; b >> f; uint32_t x; memcpy(&x, &f, 4); return x == (uint32_t)v.u ? "" : "decoded other bits"; }
    case F64: { double f = 1; b >> f; uint64_t x; memcpy(&x, &f, 8); return x == v.u ? "" : "decoded other bits"; }
    case BYTES: { Bytes x = r.bytes(v.bytes.size()); b >> x; return x == v.bytes ? "" : "decoded other bytes"; }
    case WORDS: { std::vector<uint16_t> x(v.words.size(), r.u16()); b >> x; return x == v.words ? "" : "decoded other words"; }
    case SSTR: { cip::CipShortString x(r.str(r.below(5))); b >> x; return x.getData() == v.bytes && x.getLength() == v.bytes.size() && x.toStdString() == std::string(v.bytes.begin(), v.bytes.end()) ? "" : "decoded another string"; }
    case STR: { cip::CipString x(r.str(r.below(5))); b >> x; return x.getData() == v.bytes && x.getLength() == v.bytes.size() && x.toStdString() == std::string(v.bytes.begin(), v.bytes.end()) ? "" : "decoded another string"; }
    case REV: {
      cip::CipRevision x(r.u8(), r.u8());
      uint8_t maj = (uint8_t)v.u, min = (uint8_t)(v.u >> 8), m2 = r.chance(50) ? maj : r.u8(), n2 = r.chance(50) ? min : r.u8();
      if ((x == cip::CipRevision(maj, min)) != (x.getMajorRevision() == maj && x.getMinorRevision() == min)) return "revisions compare wrongly";
      b >> x;
      if ((x == cip::CipRevision(m2, n2)) != (m2 == maj && n2 == min)) return "revisions compare wrongly";
      if (x.toString() != std::to_string(maj) + "." + std::to_string(min)) return "revision text";
      return x == cip::CipRevision((uint8_t)v.u, (uint8_t)(v.u >> 8)) && x.getMajorRevision() == (v.u & 255) && x.getMinorRevision() == (v.u >> 8) ? "" : "decoded another revision";
    }
    case EP: {
      sockets::EndPoint x("1.2.3.4", 5);
      b >> x;
      sockets::EndPoint want(sim::dotted(v.ip), (int)v.u);
      return x.getHost() == sim::dotted(v.ip) && x.getPort() == (int)v.u && x.getAddr().sin_addr.s_addr == htonl(v.ip) &&
             x.getAddr().sin_port == htons((uint16_t)v.u) && x.getAddr().sin_family == AF_INET && x == want ? "" : "decoded another address: " + x.toString();
    }
  }
  return "";
}

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  size_t n = r.chance(5) ? r.below(60) : 1 + r.below(8);
  std::vector<Val> vals;
  std::string shape;
  for (size_t i = 0; i < n; ++i) {
    vals.push_back(make(r));
    shape += names[vals.back().type];
    shape += ' ';
    count("values");
    count(std::string("type_") + names[vals.back().type]);
    if (vals.back().type == SSTR || vals.back().type == STR) count("strings");
    if (vals.back().type == EP) count("endpoints");
  }
  c.note("%s", shape.c_str());
  if (n > 1) distinct("nontrivial", shape);
  sample(shape);
  int mode = (int)r.below(4);
  // the buffer may hold bytes before, and have a capacity
  Bytes prefix = r.chance(50) ? r.bytes(r.below(9)) : Bytes();
  if (mode == 3) {  // interleaved
    count("interleaved");
    Buffer b(r.below(40));
    size_t w = 0, rd = 0, pos = 0;
    Bytes wire;
    while (rd < n) {
      if (w < n && (w == rd || r.chance(50))) {
        put(b, vals[w]);
        wire.insert(wire.end(), vals[w].wire.begin(), vals[w].wire.end());
        CHECK(b.data() == wire, "encode", "after %s: %s instead of %s", names[vals[w].type], hex(b.data()).c_str(), hex(wire).c_str());
        ++w;
      } else {
        auto e = get(b, vals[rd], r);
        pos += vals[rd].wire.size();
        CHECK(e.empty(), "decode-value", "%s: %s", names[vals[rd].type], e.c_str());
        CHECK(b.pos() == pos, "decode-consumed", "%s: position %zu instead of %zu", names[vals[rd].type], b.pos(), pos);
        CHECK(b.isValid(), "valid", "invalid after %s", names[vals[rd].type]);
        ++rd;
      }
    }
    return;
  }
  Buffer b = mode == 0 ? Buffer() : mode == 1 ? Buffer((size_t)r.below(100)) : Buffer(prefix);
  if (mode != 2) b << prefix;
  Bytes wire = prefix;
  for (auto& v : vals) {
    put(b, v);
    wire.insert(wire.end(), v.wire.begin(), v.wire.end());
    CHECK(b.size() == wire.size(), "encode-size", "%s: size %zu instead of %zu", names[v.type], b.size(), wire.size());
    if (wire.size() < 4000 || r.chance(10))
      CHECK(b.data() == wire, "encode", "after %s: %s instead of %s", names[v.type], hex(b.data(), 400).c_str(), hex(wire, 400).c_str());
  }
  CHECK(b.data() == wire, "encode", "%s instead of %s", hex(b.data(), 400).c_str(), hex(wire, 400).c_str());
  Buffer d(wire);
  if (!prefix.empty()) { Bytes p(prefix.size()); d >> p; CHECK(p == prefix, "decode-value", "prefix"); }
  size_t pos = prefix.size();
  for (auto& v : vals) {
    auto e = get(d, v, r);
    pos += v.wire.size();
    CHECK(e.empty(), "decode-value", "%s from %s: %s", names[v.type], hex(v.wire).c_str(), e.c_str());
    CHECK(d.pos() == pos, "decode-consumed", "%s: position %zu instead of %zu", names[v.type], d.pos(), pos);
    CHECK(d.isValid(), "valid", "invalid after %s", names[v.type]);
  }
  CHECK(d.empty() && d.isValid(), "decode-consumed", "not everything was consumed");
}
