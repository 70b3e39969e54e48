// Object paths in both widths and both dialects.
#include "adapter.h"
#include "prop.h"
#include "cip/EPath.h"
#include "Yaskawa_EPath.h"

using namespace prop;
using namespace eipScanner::cip;

namespace prop {
const char* const kProperty = "W05";
const uint64_t kQuickCases = 200000, kThoroughCases = 8000000;
const char* const kRule =
    "a case packs a class, class+instance or class+instance+attribute path (zeros and edges included) in 8-bit, 16-bit or Yaskawa form and parses "
    "it back, or parses mutated packed paths (unknown segment, cut short, mixed widths); built and parsed paths are compared with ones that differ in some numbers, the depth or nothing; non-trivial: distinct (form, depth, numbers)";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"roundtrips", 300}, {"must_reject", 100}, {"with_zero", 50}, {"unequal_pairs", 200}, {"equal_pairs", 50}};
}  // namespace prop

static uint16_t num(Rng& r, int bits) { return r.chance(15) ? 0 : (uint16_t)r.edgy(bits); }

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  int form = (int)r.below(3);  // 0: 16-bit, 1: 8-bit, 2: Yaskawa
  int bits = form == 0 ? 16 : 8, depth = 1 + (int)r.below(3);
  uint16_t n[3] = {num(r, bits), num(r, bits), num(r, bits)};
  if (depth < 3) n[2] = 0;
  if (depth < 2) n[1] = 0;
  for (int i = 0; i < depth; ++i) if (n[i] == 0) { count("with_zero"); break; }
  Bytes want = form == 0 ? model::path16(n[0], depth > 1 ? n[1] : -1, depth > 2 ? n[2] : -1)
                         : model::path8(n[0], depth > 1 ? n[1] : -1, depth > 2 ? n[2] : -1);
  std::string what = std::string(form == 0 ? "16" : form == 1 ? "8" : "Y") + "-bit " + std::to_string(depth) + ": " + std::to_string(n[0]) + "/" + std::to_string(n[1]) + "/" + std::to_string(n[2]);
  c.note("%s", what.c_str());
  bool mutate = r.chance(35);
  Bytes in = want;
  bool good = true;
  if (mutate) {
    switch (r.below(3)) {
      case 0:  // cut within a segment
        if (form == 0) { size_t k = 1 + r.below(3); size_t s = r.below((size_t)depth); in.resize(s * 4 + k); } else in.resize(r.below((size_t)depth) * 2 + 1);
        good = false;
        break;
      case 1: {  // unknown segment type
        uint8_t t;
        do t = r.u8(); while (t == 0x20 || t == 0x21 || t == 0x24 || t == 0x25 || t == 0x30 || t == 0x31);
        in[r.below((size_t)depth) * (form == 0 ? 4 : 2)] = t;
        good = false;
        break;
      }
      case 2: {  // mixed widths
        bool odd = r.chance(50);
        in.clear();
        for (int i = 0; i < depth; ++i) {
          bool wide = (i % 2 == 0) == odd;
          if (n[i] > 255) wide = true;
          static const uint8_t seg[] = {0x20, 0x24, 0x30};
          if (wide) { in.push_back(seg[i] | 1); in.push_back(0); in.push_back((uint8_t)n[i]); in.push_back((uint8_t)(n[i] >> 8)); }
          else { in.push_back(seg[i]); in.push_back((uint8_t)n[i]); }
        }
        break;
      }
    }
    c.note("parse %s", hex(in).c_str());
  }
  auto run = [&](auto path, auto used, auto pack, auto size) {
    Bytes got = pack(path);
    CHECK(got == want, "pack", "%s: %s instead of %s", what.c_str(), hex(got).c_str(), hex(want).c_str());
    CHECK(size(path) * 2u == got.size(), "size", "%s: %u words for %zu bytes", what.c_str(), (unsigned)size(path), got.size());
    CHECK(path.getClassId() == n[0] && path.getObjectId() == n[1] && path.getAttributeId() == n[2], "numbers", "%s: built with other numbers", what.c_str());
    if (r.chance(40)) outcome(c, [&] { used.expandPaddedPath(r.chance(50) ? model::path8(1, 2, 3) : Bytes{0x20, 0x05, 0x99}); });
    auto o = outcome(c, [&] { used.expandPaddedPath(in); });
    if (!good) {
      count("must_reject");
      CHECK(!o.empty(), "accepted-bad", "%s was accepted", hex(in).c_str());
      return;
    }
    CHECK(o.empty(), "rejected-good", "%s: %s", hex(in).c_str(), o.c_str());
    CHECK(used.getClassId() == n[0] && used.getObjectId() == n[1] && used.getAttributeId() == n[2], "parse-numbers", "%s parsed as %u/%u/%u", hex(in).c_str(), used.getClassId(), used.getObjectId(), used.getAttributeId());
    CHECK(used == path && path == used, "not-equal", "%s: parsed path is not equal", what.c_str());
    CHECK(size(used) == size(path), "parse-size", "%s: parsed size %u instead of %u", what.c_str(), (unsigned)size(used), (unsigned)size(path));
    CHECK(pack(used) == want, "repack", "%s: packed again as %s", what.c_str(), hex(pack(used)).c_str());
    count("roundtrips");
  };
  // two paths compare equal exactly when their depths and all their numbers are equal
  auto unequal = [&](auto make, auto path) {
    int d2 = r.chance(60) ? depth : 1 + (int)r.below(3);
    uint16_t m[3] = {n[0], n[1], n[2]};
    for (auto& v : m) if (r.chance(35)) v = r.chance(50) ? (uint16_t)(v ^ (1u << r.below((size_t)bits))) : num(r, bits);
    if (d2 < 3) m[2] = 0;
    if (d2 < 2) m[1] = 0;
    bool same = d2 == depth && m[0] == n[0] && m[1] == n[1] && m[2] == n[2];
    auto other = make(d2, m);
    if (r.chance(50)) { decltype(other) viaWire; viaWire.expandPaddedPath(form == 0 ? model::path16(m[0], d2 > 1 ? m[1] : -1, d2 > 2 ? m[2] : -1) : model::path8(m[0], d2 > 1 ? m[1] : -1, d2 > 2 ? m[2] : -1)); other = viaWire; }
    CHECK((other == path) == same && (path == other) == same, "equality", "%s and %d: %u/%u/%u compare %s", what.c_str(), d2, m[0], m[1], m[2], same ? "different" : "equal");
    count(same ? "equal_pairs" : "unequal_pairs");
  };
  distinct("nontrivial", what + (mutate ? hex(in) : ""));
  sample(what);
  c.phase("path");
  if (form == 2) {
    auto make = [](int d, const uint16_t* k) { return d == 1 ? Yaskawa_EPath((uint8_t)k[0]) : d == 2 ? Yaskawa_EPath((uint8_t)k[0], (uint8_t)k[1]) : Yaskawa_EPath((uint8_t)k[0], (uint8_t)k[1], (uint8_t)k[2]); };
    Yaskawa_EPath p = make(depth, n);
    unequal(make, p);
    run(p, Yaskawa_EPath(), [](auto& x) { return x.packPaddedPath(); }, [](auto& x) { return x.getSizeInWords(); });
  } else {
    auto make = [](int d, const uint16_t* k) { return d == 1 ? EPath(k[0]) : d == 2 ? EPath(k[0], k[1]) : EPath(k[0], k[1], k[2]); };
    EPath p = make(depth, n);
    unequal(make, p);
    bool eight = form == 1;
    run(p, EPath(), [&](auto& x) { return eight ? x.packPaddedPath(true) : r.chance(50) ? x.packPaddedPath() : x.packPaddedPath(false); },
        [&](auto& x) { return x.getSizeInWords(eight); });
  }
}
