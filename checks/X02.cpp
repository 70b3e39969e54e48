// A reply from which bytes are missing is reported; values are never made up.
#include "ops.h"

using namespace ops;

namespace prop {
const char* const kProperty = "X02";
const uint64_t kQuickCases = 12000, kThoroughCases = 600000;
const char* const kRule =
    "a case performs one of ten operations (identity, full/basic parameter, refresh, upload, fault handling, fault object, forward open, plain requests through both routers) "
    "against a model device, first healthy to learn its steps and the bytes each reply must have, then with one reply cut inside the needed data, cut anywhere in the "
    "encapsulated payload or inside an additional item, a socket address shorter than one, or carrying item counts, item lengths, status-word counts, string lengths or a packet length that promise bytes which are not there; "
    "non-trivial: distinct (operation, step, kind of damage, position)";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"cut_data", 500}, {"cut_payload", 500}, {"inconsistent", 500}, {"refreshes", 50}, {"uploads", 60}, {"opens", 60}, {"plain", 100}, {"extra_items", 30}, {"short_addresses", 60}};
}  // namespace prop

enum Damage { CutExtra, ExtraLonger, CutData, CutPayload, ItemLonger, ItemShorter, FewItems, StatusWords, StringLength, PacketLonger, PacketShorter, DAMAGES, ShortAddress };

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  Device d(randomHost(r));
  d.install(n.w);
  d.setup();
  d.randomise(r);
  if (r.chance(10)) roughTransport(c, d, 100 * US);
  auto si = openSession(d, 20 * SEC);
  static const int kinds[] = {Identity, ParamFull, ParamBasic, ParamUpdate, File, Faults, FaultObject, OpenIo, Plain, PlainYaskawa};
  int kind = kinds[r.below(10)];
  Setup s = randomSetup(r, kind, d);
  d.plain.extra.clear();
  if ((kind == Plain || kind == PlainYaskawa) && r.chance(50))
    for (uint64_t k = 1 + r.below(3); k--;) d.plain.extra.push_back({(uint16_t)(r.chance(70) ? 0x8000 + r.below(2) : r.u16()), r.bytes(r.chance(20) ? 0 : 1 + r.below(40))});
  if ((kind == Plain || kind == PlainYaskawa) && r.chance(30)) {
    if (r.chance(50)) d.plain.data.clear();
    if (r.chance(50)) for (uint64_t k = 1 + r.below(4); k--;) d.plain.addl.push_back(r.u16());
  }
  prepare(s, d, si);
  size_t vsize = d.param.value.size();
  std::string oldText = s.old ? paramText(*s.old, vsize, false) : "";
  Result good = run(c, s, d, si);
  CHECK(!good.threw, std::string("healthy-") + name(kind), "%s", good.what.c_str());
  int steps = d.step;
  std::vector<size_t> needs = d.needs;
  bool plain = kind == Plain || kind == PlainYaskawa;
  std::string nm = name(kind);
  for (int round = 0; round < 5; ++round) {
    int at = (int)r.below((uint64_t)steps);
    size_t need = plain ? 0 : needs[(size_t)at];
    int dmg = (int)(r.chance(40) ? CutData : r.below(DAMAGES));
    if (plain && !d.plain.extra.empty() && r.chance(40)) dmg = r.chance(60) ? CutExtra : ExtraLonger;
    else if (dmg == CutExtra || dmg == ExtraLonger) dmg = CutPayload;
    if (dmg == CutData && !need) dmg = CutPayload;
    if (dmg == ItemShorter && !need && !plain) dmg = ItemLonger;
    if (dmg == StringLength && kind != Identity && kind != ParamFull) dmg = StatusWords;
    if (kind == OpenIo && r.chance(25)) dmg = ShortAddress;
    bool applied = false, arm = false;
    uint64_t where = 0;
    bool broken = false;                            // the byte stream itself
    d.tweak = [&](const Req&, Rep& p, size_t nd, int k) {
      if (k != at) return;
      applied = true;
      if (dmg == CutData) { where = r.chance(30) ? nd - 1 : r.below(nd); p.data.resize((size_t)where); }
      else if (dmg == ShortAddress) {  // the address the data is to be sent to
        auto item = model::sockaddrItem(0x8000, Addr{r.chance(30) ? 0 : r.u32(), (uint16_t)(1 + r.below(65535))});
        where = r.below(item.data.size());
        item.data.resize((size_t)where);
        p.extra.clear();
        if (r.chance(30)) p.extra.push_back(model::sockaddrItem(0x8001, Addr{r.u32(), r.u16()}));
        p.extra.push_back(item);
        count("short_addresses");
      }
      else if (dmg == StringLength) {
        size_t pos = kind == Identity ? 14 : vsize + 1 + d.param.link.size() + 4;
        size_t left = p.data.size() - pos - 1;
        if (left >= 255) { dmg = CutData; where = r.below(nd); p.data.resize((size_t)where); }
        else p.data[pos] = (uint8_t)(left + 1 + r.below(255 - left));
      } else arm = true;
    };
    d.mutate = [&](Bytes& b, int k, model::ConnState&) {
      if (k < 0 || !arm) return;
      arm = false;
      size_t pay = b.size() - 24, item2 = 24 + 6 + 2 + 4 + 4;  // where the message router's bytes start
      size_t words = b[item2 + 3], mrHead = 4 + 2 * words, mr = (size_t)(b[item2 - 2] | b[item2 - 1] << 8);
      auto put16 = [&](size_t p, size_t v) { b[p] = (uint8_t)v; b[p + 1] = (uint8_t)(v >> 8); };
      auto relen = [&] { put16(2, b.size() - 24); };
      // of the message router's bytes, this many may not be missing
      size_t vital = plain ? mrHead : mrHead + need;
      switch (dmg) {
        case CutExtra: {                                // within an additional item; ending after a whole one is the device's affair
          size_t i = r.below(d.plain.extra.size()), pos = item2 + mr;
          for (size_t j = 0; j < i; ++j) pos += 4 + d.plain.extra[j].data.size();
          where = pos + 1 + r.below(3 + d.plain.extra[i].data.size());
          b.resize((size_t)where);
          relen();
          break;
        }
        case ExtraLonger: {
          size_t i = r.below(d.plain.extra.size()), pos = item2 + mr;
          for (size_t j = 0; j < i; ++j) pos += 4 + d.plain.extra[j].data.size();
          size_t left = b.size() - pos - 4;
          where = left + 1 + (r.chance(50) ? r.below(4) : r.below(65535 - left));
          put16(pos + 2, (size_t)where);
          break;
        }
        case CutPayload: {
          size_t end = item2 - 24 + mr;                 // leaving the first two items is enough for some replies
          where = r.chance(40) ? end - 1 - r.below(std::min<size_t>(end, 40)) : r.below(end);
          b.resize(24 + (size_t)where);
          relen();
          break;
        }
        case ItemLonger: {
          size_t left = pay - (item2 - 24);
          size_t v = r.chance(50) ? left + 1 + r.below(4) : left + 1 + r.below(65535 - left);
          bool first = r.chance(30);
          if (first) { left = pay - 12; v = left + 1 + r.below(1000); put16(24 + 6 + 2 + 2, v); }
          else put16(item2 - 2, v);
          where = v;
          break;
        }
        case ItemShorter: where = r.below(vital); put16(item2 - 2, (size_t)where); if (r.chance(50)) { b.resize(item2 + (size_t)where); relen(); } break;
        case FewItems: where = r.below(2); put16(30, (size_t)where); break;
        case StatusWords: where = (mr - 4) / 2 + 1; if (where > 255) { dmg = CutPayload; where = 1; b.resize(25); relen(); } else { if (r.chance(50)) where += r.below(256 - where); b[item2 + 3] = (uint8_t)where; } break;
        case PacketLonger: where = pay + 1 + r.below(65535 - pay); put16(2, (size_t)where); broken = true; break;
        case PacketShorter: where = r.below(item2 - 24 + vital); put16(2, (size_t)where); broken = true; break;
        default: break;
      }
    };
    if (kind == ParamUpdate) d.param.value = r.bytes(vsize);
    dirtyStack(r.u8());
    c.note("%s: step %d of %d, damage %d", nm.c_str(), at, steps, dmg);
    Result x = run(c, s, d, si);
    d.tweak = nullptr;
    d.mutate = nullptr;
    CHECK(applied, "not-reached", "the step was not reached although nothing differed before it");
    c.note("... at %llu", (unsigned long long)where);
    if (dmg == CutExtra || dmg == ExtraLonger) count("extra_items");
    count(dmg == CutData ? "cut_data" : dmg == CutPayload ? "cut_payload" : "inconsistent");
    distinct("nontrivial", (((uint64_t)kind * 1000 + (uint64_t)at) * 16 + (uint64_t)dmg) * 100000 + where);
    switch (kind) {
      case ParamUpdate: {
        auto now = paramText(*s.old, vsize, false);
        CHECK(x.threw, "ignored-" + nm, "the operation succeeded: %s", x.values.c_str());
        CHECK(now == oldText, "value-changed", "a failed refresh changed the object: %s instead of %s", now.c_str(), oldText.c_str());
        count("refreshes");
        break;
      }
      case Faults: {
        CHECK(x.threw, "ignored-" + nm, "the operation succeeded: %s", x.values.c_str());
        size_t per = s.details ? 4 : 1, most = std::min(d.faults.size(), (size_t)at / per);
        CHECK(x.delivered.size() <= most, "surfaced-" + nm, "%zu faults were delivered, but step %d failed", x.delivered.size(), at);
        break;
      }
      case File: {
        bool success = false;
        for (auto& k : x.calls) if (k.first == 0) success = true;
        CHECK(!success, "upload-succeeds", "success with %zu bytes although step %d was damaged", x.calls.empty() ? 0 : x.calls[0].second.size(), at);
        CHECK(x.threw || x.calls.size() == 1, "upload-silent", "neither an exception nor a callback (%zu callbacks)", x.calls.size());
        for (auto& k : x.calls) CHECK(k.second.empty(), "callback-content", "%zu bytes of content", k.second.size());
        count("uploads");
        break;
      }
      case OpenIo:
        CHECK(!x.handle && !x.counted, "ignored-" + nm, "handle %d, counted %d", x.handle, x.counted);
        count("opens");
        break;
      default:
        CHECK(x.threw, "ignored-" + nm, "the operation succeeded: %s", x.values.c_str());
        if (plain) count("plain");
    }
    if (broken) { si.reset(); si = openSession(d, 20 * SEC); }
  }
  s.old.reset();
  if (kind != ParamUpdate) { Result again = run(c, s, d, si); CHECK(!again.threw && again.values == good.values, "afterwards", "%s", again.what.c_str()); }
  si.reset();
  expectSane(c, n.w);
}
