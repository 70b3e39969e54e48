// Network connection parameter words.
#include <algorithm>
#include "adapter.h"
#include "prop.h"
#include "cip/connectionManager/NetworkConnectionParametersBuilder.h"
#include "cip/connectionManager/NetworkConnectionParams.h"

using namespace prop;
using B = eipScanner::cip::connectionManager::NetworkConnectionParametersBuilder;

namespace prop {
const char* const kProperty = "W06";
const uint64_t kQuickCases = 200000, kThoroughCases = 8000000;
const char* const kRule =
    "a case sets a random subset of the five fields, each at most once, in a random order, as one chained expression, as separate statements or "
    "mixed, for normal and large forward open, then reads every field from the builder and from one made from the word; non-trivial: distinct "
    "(width, order, style, values)";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"chained", 200}, {"separate", 200}, {"large", 300}};
}  // namespace prop

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  bool lfo = r.chance(50);
  int style = (int)r.below(3);
  std::vector<int> order{0, 1, 2, 3, 4};
  for (size_t i = 4; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]);
  order.resize(r.chance(60) ? 5 : r.below(6));
  unsigned f[5] = {0, 0, 0, 0, 0};  // owner, type, priority, variable, size
  for (int k : order) f[k] = k == 0 ? (unsigned)r.below(2) : k == 1 ? (unsigned)r.below(4) : k == 2 ? (unsigned)r.below(4) : k == 3 ? (unsigned)r.below(2)
                                                                                   : (unsigned)r.edgy(lfo ? 16 : 9);
  std::string what = lfo ? "L" : "N";
  for (int k : order) what += " " + std::to_string(k) + "=" + std::to_string(f[k]);
  what += " style " + std::to_string(style);
  c.note("%s", what.c_str());
  uint32_t want = lfo ? f[0] << 31 | f[1] << 29 | f[2] << 26 | f[3] << 25 | f[4] : f[0] << 15 | f[1] << 13 | f[2] << 10 | f[3] << 9 | f[4];
  auto set = [&](auto&& b, int k) -> decltype(auto) {
    switch (k) {
      case 1: return b.setConnectionType((B::ConnectionType)f[1]);
      case 2: return b.setPriority((B::Priority)f[2]);
      case 3: return b.setType((B::Type)f[3]);
      default: return b.setConnectionSize((uint16_t)f[4]);
    }
  };
  B b(0, lfo);
  if (style == 0) {  // separate statements
    count("separate");
    for (int k : order) { if (k == 0) b.setRedundantOwner((B::RedundantOwner)f[0]); else set(b, k); }
  } else {  // each call made on what the previous returned; the value is taken from the end of the chain or from the builder
    count("chained");
    struct Chain {  // works whatever the setters return: a reference to the builder or a copy
      static B step(B& self, unsigned* f, const std::vector<int>& o, size_t i, bool lfo) {
        if (i == o.size()) return self;
        switch (o[i]) {
          case 0: { auto&& n = self.setRedundantOwner((B::RedundantOwner)f[0]); return step(n, f, o, i + 1, lfo); }
          case 1: { auto&& n = self.setConnectionType((B::ConnectionType)f[1]); return step(n, f, o, i + 1, lfo); }
          case 2: { auto&& n = self.setPriority((B::Priority)f[2]); return step(n, f, o, i + 1, lfo); }
          case 3: { auto&& n = self.setType((B::Type)f[3]); return step(n, f, o, i + 1, lfo); }
          default: { auto&& n = self.setConnectionSize((uint16_t)f[4]); return step(n, f, o, i + 1, lfo); }
        }
      }
    };
    B end = Chain::step(b, f, order, 0, lfo);
    if (style == 1) b = end;  // style 2: the builder itself was changed by the chain
  }
  uint32_t got = b.build();
  CHECK(got == want, "layout", "%s: 0x%08x instead of 0x%08x", what.c_str(), got, want);
  if (lfo) count("large");
  auto fields = [&](B x, const char* from) {
    CHECK(x.getRedundantOwner() == (B::RedundantOwner)f[0], "owner", "%s read from %s: owner %d", what.c_str(), from, (int)x.getRedundantOwner());
    CHECK(x.getConnectionType() == (B::ConnectionType)f[1], "type", "%s read from %s: type %d", what.c_str(), from, (int)x.getConnectionType());
    CHECK(x.getPriority() == (B::Priority)f[2], "priority", "%s read from %s: priority %d", what.c_str(), from, (int)x.getPriority());
    CHECK(x.getType() == (B::Type)f[3], "variable", "%s read from %s: fixed/variable %d", what.c_str(), from, (int)x.getType());
    CHECK(x.getConnectionSize() == f[4], "csize", "%s read from %s: size %u", what.c_str(), from, x.getConnectionSize());
  };
  c.phase("read");
  fields(b, "the builder");
  fields(B(got, lfo), "the word");
  // the same word made of the named bits (their layout is the 16-bit one)
  if (!lfo) {
    using N = eipScanner::cip::connectionManager::NetworkConnectionParams;
    const unsigned owner[] = {N::OWNED, N::REDUNDANT}, type[] = {N::TYPE0, N::MULTICAST, N::P2P, N::MULTICAST | N::P2P}, size[] = {N::FIXED, N::VARIABLE},
                   prio[] = {N::LOW_PRIORITY, N::HIGH_PRIORITY, N::SCHEDULED_PRIORITY, N::URGENT};
    unsigned named = owner[f[0]] | type[f[1]] | prio[f[2]] | size[f[3]] | f[4];
    CHECK(named == want, "named-bits", "%s: 0x%04x instead of 0x%04x", what.c_str(), named, want);
    static const B::RedundantOwner bo[] = {B::EXCLUSIVE, B::REDUNDANT};
    static const B::ConnectionType bt[] = {B::NULL_TYPE, B::MULTICAST, B::P2P, B::RESERVED};
    static const B::Priority bp[] = {B::LOW_PRIORITY, B::HIGH_PRIORITY, B::SCHEDULED, B::URGENT};
    static const B::Type bv[] = {B::FIXED, B::VARIABLE};
    B by(0, false);
    by.setRedundantOwner(bo[f[0]]);
    by.setConnectionType(bt[f[1]]);
    by.setPriority(bp[f[2]]);
    by.setType(bv[f[3]]);
    by.setConnectionSize((uint16_t)f[4]);
    CHECK(by.build() == want, "named-fields", "%s: 0x%08x instead of 0x%08x", what.c_str(), by.build(), want);
    static const unsigned trig[] = {N::TRIG_CYCLIC, N::TRIG_CHANGE, N::TRIG_APP}, cls[] = {N::CLASS0, N::CLASS1, N::CLASS2, N::CLASS3};
    unsigned t = (unsigned)r.below(3), k = (unsigned)r.below(4), srv = (unsigned)r.below(2);
    unsigned tt = trig[t] | cls[k] | (srv ? N::TRANSP_SERVER : 0);
    CHECK(tt == (srv << 7 | t << 4 | k), "named-trigger", "trigger %u class %u server %u is 0x%02x", t, k, srv, tt);
    count("named");
  }
  // a word with other bits set reads the same fields
  B w(want, lfo);
  CHECK(w.build() == want, "keep", "%s: the word changed to 0x%08x", what.c_str(), w.build());
  distinct("nontrivial", what);
  sample(what);
}
