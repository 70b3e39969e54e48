// Decoding of arbitrary type sequences from arbitrary bytes, also far past the end.
#include "adapter.h"
#include "prop.h"
#include "utils/Buffer.h"

using namespace prop;
using namespace eipScanner;
using utils::Buffer;

namespace prop {
const char* const kProperty = "W02";
const uint64_t kQuickCases = 120000, kThoroughCases = 6000000;
const char* const kRule =
    "a case decodes a random type sequence from random bytes (often fewer than needed), twice with different contents of the variables, the "
    "heap and the stack, in exactly sized and in over-allocated buffers; the outcome of both runs is compared and validity is predicted by "
    "a byte-count model; non-trivial: distinct (type sequence, number of bytes) in which a decode crossed the end";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"crossed_end", 200}, {"stayed_inside", 200}, {"decodes_after_end", 200}};
}  // namespace prop

enum { U8, I8, U16, I16, U32, I32, U64, I64, F32, F64, BYTES, WORDS, SSTR, STR, REV, EP, NTYPES };
static const char* names[] = {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "bytes", "words", "sstr", "str", "rev", "ep"};
struct Step { int type; size_t n; };

static size_t need(const Step& s) {  // strings need what their length says
  static const size_t width[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
  return s.type <= F64 ? width[s.type] : s.type == BYTES ? s.n : s.type == WORDS ? 2 * s.n : s.type == REV ? 2 : s.type == EP ? 16 : 0;
}

struct Obs {
  std::vector<Bytes> values;
  std::vector<char> valid, empty;
  std::vector<size_t> pos;
};

static Obs run(const Bytes& data, const std::vector<Step>& steps, int build, uint8_t fill, Rng r) {
  heapFill = fill;
  dirtyStack((uint8_t)~fill);
  Buffer* b;
  if (build == 0) b = new Buffer(data);
  else if (build == 1) { b = new Buffer(data.size() + 64 + r.below(64)); *b << data; }
  else { b = new Buffer(); for (auto x : data) *b << x; }
  Obs o;
  auto rec = [&](const void* p, size_t n) { o.values.emplace_back((const uint8_t*)p, (const uint8_t*)p + n); };
  for (auto& s : steps) {
    auto scalar = [&](auto x) { memset((void*)&x, fill, sizeof x); *b >> x; rec(&x, sizeof x); };
    switch (s.type) {
      case U8: scalar(uint8_t()); break;
      case I8: scalar(int8_t()); break;
      case U16: scalar(uint16_t()); break;
      case I16: scalar(int16_t()); break;
      case U32: scalar(uint32_t()); break;
      case I32: scalar(int32_t()); break;
      case U64: scalar(uint64_t()); break;
      case I64: scalar(int64_t()); break;
      case F32: scalar(float()); break;
      case F64: scalar(double()); break;
      case BYTES: { Bytes x(s.n, fill); *b >> x; o.values.push_back(x); break; }
      case WORDS: { std::vector<uint16_t> x(s.n, fill); *b >> x; rec(x.data(), x.size() * 2); break; }
      case SSTR: { cip::CipShortString x(std::string(3, (char)fill)); *b >> x; auto d = x.getData(); d.push_back(x.getLength()); o.values.push_back(d); break; }
      case STR: { cip::CipString x(std::string(3, (char)fill)); *b >> x; auto d = x.getData(); d.push_back((uint8_t)x.getLength()); d.push_back((uint8_t)(x.getLength() >> 8)); o.values.push_back(d); break; }
      case REV: { cip::CipRevision x(fill, fill); *b >> x; o.values.push_back({x.getMajorRevision(), x.getMinorRevision()}); break; }
      case EP: {
        sockets::EndPoint x("9.9.9.9", fill);
        *b >> x;
        auto str = x.toString() + std::to_string(x.getAddr().sin_addr.s_addr) + "," + std::to_string(x.getAddr().sin_port) + "," + std::to_string(x.getAddr().sin_family);
        o.values.emplace_back(str.begin(), str.end());
        break;
      }
    }
    o.valid.push_back(b->isValid());
    o.empty.push_back(b->empty());
    o.pos.push_back(b->pos());
  }
  delete b;
  return o;
}

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  size_t len = r.chance(60) ? r.below(24) : r.chance(90) ? r.below(300) : r.below(70000);
  Bytes data = r.bytes(len);
  if (r.chance(30)) for (size_t i = 0; i < len; i += 1 + r.below(6)) data[i] = (uint8_t)r.below(6);  // short string lengths
  std::vector<Step> steps;
  size_t n = 1 + r.below(12);
  std::string shape;
  bool scalarsOnly = r.chance(30);
  for (size_t i = 0; i < n; ++i) {
    Step s{(int)r.below(scalarsOnly ? BYTES : NTYPES), r.chance(90) ? r.below(20) : r.chance(90) ? r.below(400) : r.below(100000)};
    if (r.chance(5)) s = Step{BYTES, 0};
    steps.push_back(s);
    shape += names[s.type];
    if (s.type == BYTES || s.type == WORDS) shape += std::to_string(s.n);
    shape += ' ';
  }
  if (r.chance(25)) {  // consume everything exactly
    size_t used = 0;
    std::vector<Step> fit;
    static const size_t w[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
    while (used < len) {
      int t = (int)r.below(F64 + 1);
      if (w[t] <= len - used) { fit.push_back(Step{t, 0}); used += w[t]; }
      else { fit.push_back(Step{BYTES, len - used}); used = len; }
      if (fit.size() > 40) { fit.push_back(Step{BYTES, len - used}); used = len; }
    }
    if (r.chance(30)) fit.push_back(Step{BYTES, 0});
    if (r.chance(30)) fit.push_back(Step{(int)r.below(NTYPES), 1});
    if (!fit.empty()) steps = fit;
    shape = "fit" + std::to_string(steps.size());
  }
  bool strings = false;
  for (auto& s : steps) strings |= s.type == SSTR || s.type == STR;
  if (!strings && r.chance(25)) {  // one byte more or less than needed, up to three
    size_t total = 0;
    for (auto& s : steps) total += need(s);
    int64_t to = (int64_t)total + r.range(-3, 2);
    if (to >= 0) {
      data = r.bytes((size_t)to);
      len = data.size();
      count("near_the_end");
    }
  }
  c.note("bytes %s steps %s", hex(data, 100).c_str(), shape.c_str());
  int build = (int)r.below(3);
  Rng r2(r.next());
  c.phase("decode");
  Obs a = run(data, steps, build, 0x00, r2), b = run(data, steps, build, 0xFF, r2);
  Obs d = run(data, steps, (build + 1) % 3, 0x5A, r2);
  size_t pos = 0;
  bool ok = true;
  for (size_t i = 0; i < steps.size(); ++i) {
    auto& s = steps[i];
    size_t need = ::need(s);
    bool was = ok;
    if (s.type == SSTR || s.type == STR) {
      size_t pre = s.type == SSTR ? 1 : 2;
      if (ok && pos + pre <= len) need = pre + (s.type == SSTR ? data[pos] : data[pos] | data[pos + 1] << 8);
      else need = len + 1;
    }
    if (ok && need > len - pos) ok = false;
    if (ok) {
      // what was decoded must be the bytes
      if (s.type <= F64 || s.type == BYTES || s.type == WORDS || s.type == REV)
        CHECK(a.values[i] == Bytes(data.begin() + (long)pos, data.begin() + (long)(pos + need)), "value", "%s at %zu: %s", names[s.type], pos, hex(a.values[i]).c_str());
      pos += need;
      CHECK(a.pos[i] == pos, "position", "%s: position %zu instead of %zu", names[s.type], a.pos[i], pos);
    } else if (!was) count("decodes_after_end");
    CHECK((bool)a.valid[i] == ok, ok ? "false-invalid" : "unreported", "after step %zu (%s) of %s on %zu bytes: isValid()=%d", i, names[s.type], shape.c_str(), len, a.valid[i]);
    if (ok) CHECK((bool)a.empty[i] == (pos == len), "empty", "after step %zu (%s): empty()=%d at %zu of %zu", i, names[s.type], a.empty[i], pos, len);
    for (Obs* x : {&b, &d}) {
      CHECK(a.values[i] == x->values[i], "unrepeatable", "step %zu (%s) of %s on %zu bytes gives %s and %s", i, names[s.type], shape.c_str(), len, hex(a.values[i]).c_str(), hex(x->values[i]).c_str());
      CHECK(a.valid[i] == x->valid[i] && (!ok || a.empty[i] == x->empty[i]), "unrepeatable", "step %zu: validity differs", i);
    }
  }
  count(ok ? "stayed_inside" : "crossed_end");
  if (!ok) distinct("nontrivial", shape + std::to_string(len));
  sample(shape + "on " + std::to_string(len) + " bytes");
}
