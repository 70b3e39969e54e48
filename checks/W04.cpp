// Common-packet item lists.
#include <algorithm>
#include "adapter.h"
#include "prop.h"
#include "named.h"
#include "eip/CommonPacket.h"

using namespace prop;
using namespace eipScanner::eip;
using model::Item;
using model::Wr;

namespace prop {
const char* const kProperty = "W04";
const uint64_t kQuickCases = 80000, kThoroughCases = 3000000;
const char* const kRule =
    "a case either round-trips a list of random items (0..65535 items, item sizes 0..65535) or parses a list that was truncated, extended, or "
    "had counts, lengths or bytes changed, into a fresh or used object, predicted by an independent parser; non-trivial: distinct byte strings";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"must_reject", 100}, {"must_accept", 100}, {"items", 1000}};
}  // namespace prop

static std::vector<Item> randomItems(Rng& r) {
  std::vector<Item> v;
  size_t n = r.chance(90) ? r.below(6) : r.chance(95) ? r.below(60) : r.chance(95) ? r.below(700) : 65530 + r.below(6);
  static const uint16_t ids[] = {0, 0x0C, 0xA1, 0xB1, 0xB2, 0x8000, 0x8001, 0x8002};
  for (size_t i = 0; i < n; ++i) {
    size_t m = n > 1000 ? r.below(3) : r.chance(97) ? r.below(20) : r.chance(80) ? r.below(600) : n < 4 ? 65500 + r.below(36) : 300;
    v.push_back(Item{r.chance(70) ? ids[r.below(8)] : (uint16_t)r.edgy(16), r.bytes(m)});
  }
  return v;
}
static std::string same(CommonPacket& p, const std::vector<Item>& v) {
  auto& items = p.getItems();
  if (items.size() != v.size()) return std::to_string(items.size()) + " items instead of " + std::to_string(v.size());
  for (size_t i = 0; i < v.size(); ++i) {
    if ((uint16_t)items[i].getTypeId() != v[i].type) return "type of item " + std::to_string(i);
    if (items[i].getData() != v[i].data) return "data of item " + std::to_string(i);
    if (items[i].getLength() != v[i].data.size()) return "length of item " + std::to_string(i);
    if (!(items[i] == CommonPacketItem((CommonPacketItemIds)v[i].type, v[i].data))) return "equality of item " + std::to_string(i);
  }
  return "";
}

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  auto items = randomItems(r);
  Bytes wire = model::packCpf(items);
  CommonPacket used;
  if (r.chance(50)) for (auto& i : randomItems(r)) used << CommonPacketItem((CommonPacketItemIds)i.type, i.data);
  if (r.chance(30)) { Bytes junk = model::packCpf(randomItems(r)); if (r.chance(50) && junk.size() > 6) junk.pop_back(); outcome(c, [&] { used.expand(junk); }); }
  if (r.chance(40)) {
    c.phase("roundtrip");
    CommonPacket p;
    bool byName = r.chance(50);
    for (auto& i : items) {
      auto id = (CommonPacketItemIds)i.type;
      if (byName) for (auto& n : named::kItems) if (n.number == i.type) { id = n.value; count("named"); }
      p << CommonPacketItem(id, i.data);
    }
    CHECK(same(p, items).empty(), "built", "%s", same(p, items).c_str());
    Bytes got = p.pack();
    CHECK(got == wire, "pack", "%s instead of %s", hex(got, 200).c_str(), hex(wire, 200).c_str());
    auto o = outcome(c, [&] { used.expand(got); });
    CHECK(o.empty(), "rejected-own", "%zu items, %zu bytes: %s", items.size(), got.size(), o.c_str());
    auto s = same(used, items);
    CHECK(s.empty(), "parse", "%s", s.c_str());
    CHECK(used.pack() == wire, "repack", "packing again differs");
    if (!items.empty()) {  // items that differ a little are different items
      const Item& a = items[r.below(items.size())];
      Item b = a;
      int how = (int)r.below(4);
      if (how == 0 || b.data.empty()) b.type = (uint16_t)(b.type ^ (1u << r.below(16)));
      else if (how == 1) b.data[r.below(b.data.size())] ^= (uint8_t)(1u << r.below(8));
      else if (how == 2) b.data.pop_back();
      else std::rotate(b.data.begin(), b.data.begin() + 1, b.data.end());
      bool eq = b.type == a.type && b.data == a.data;
      CommonPacketItem x((CommonPacketItemIds)a.type, a.data), y((CommonPacketItemIds)b.type, b.data);
      CHECK((x == y) == eq && (y == x) == eq && (x != y) == !eq, "item-equality", "type %04x data %s and type %04x data %s compare %s", a.type, hex(a.data).c_str(), b.type, hex(b.data).c_str(), x == y ? "equal" : "different");
      if (!eq) count("items_told_apart");
    }
    count("items", items.size());
    count("must_accept");
    distinct("nontrivial", hashBytes(wire.data(), wire.size()));
    sample("round trip of " + std::to_string(items.size()) + " items, " + std::to_string(wire.size()) + " bytes");
    return;
  }
  Bytes b = wire;
  switch (r.below(6)) {
    case 0: b.resize(r.below(b.size() + 1)); break;
    case 1: { auto x = r.bytes(1 + r.below(10)); b.insert(b.end(), x.begin(), x.end()); break; }
    case 2: { unsigned n = (unsigned)(r.chance(70) ? items.size() + r.below(4) : r.edgy(16)); b[0] = (uint8_t)n; b[1] = (uint8_t)(n >> 8); break; }
    case 3: {  // the length of one item
      if (items.empty() || items.size() > 1000) break;
      size_t k = r.below(items.size()), pos = 2;
      for (size_t i = 0; i < k; ++i) pos += 4 + items[i].data.size();
      unsigned n = (unsigned)(r.chance(50) ? items[k].data.size() + 1 + r.below(5) : r.chance(50) ? items[k].data.size() - 1 : r.edgy(16));
      b[pos + 2] = (uint8_t)n;
      b[pos + 3] = (uint8_t)(n >> 8);
      break;
    }
    case 4: if (!b.empty()) b[r.below(b.size())] = r.u8(); break;
    case 5: b = r.bytes(r.below(40)); if (b.size() > 2 && r.chance(70)) { b[0] = (uint8_t)r.below(5); b[1] = 0; } break;
  }
  c.note("parse %s", hex(b, 100).c_str());
  // independent parse
  std::vector<Item> want;
  enum { Accept, Reject, Either } verdict = Accept;
  if (b.size() < 2) verdict = Either;
  else {
    unsigned n = b[0] | b[1] << 8;
    size_t pos = 2;
    for (unsigned i = 0; i < n; ++i) {
      if (pos == b.size()) { verdict = Either; break; }
      if (pos + 4 > b.size()) { verdict = Reject; break; }
      size_t m = b[pos + 2] | b[pos + 3] << 8;
      if (pos + 4 + m > b.size()) { verdict = Reject; break; }
      want.push_back(Item{(uint16_t)(b[pos] | b[pos + 1] << 8), Bytes(b.begin() + (long)pos + 4, b.begin() + (long)(pos + 4 + m))});
      pos += 4 + m;
    }
    if (verdict == Accept && pos != b.size()) verdict = Either;
  }
  c.phase("parse");
  auto o = outcome(c, [&] { used.expand(b); });
  distinct("nontrivial", hashBytes(b.data(), b.size()));
  if (verdict == Reject) {
    count("must_reject");
    CHECK(!o.empty(), "accepted-truncated", "%zu bytes with a cut item were accepted as %zu items", b.size(), used.getItems().size());
  } else {
    if (verdict == Accept) {
      count("must_accept");
      CHECK(o.empty(), "rejected-good", "%s", o.c_str());
    } else count("either");
    if (o.empty()) { auto s = same(used, want); CHECK(s.empty(), "parse", "%s", s.c_str()); }
  }
}
