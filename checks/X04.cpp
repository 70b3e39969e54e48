// Parameter objects: decoding, refreshing, scaling.
#include <cmath>
#include "net.h"
#include "ParameterObject.h"

using namespace net;
using es::ParameterObject;

namespace prop {
const char* const kProperty = "X04";
const uint64_t kQuickCases = 20000, kThoroughCases = 900000;
const char* const kRule =
    "a case reads 1..3 parameters (every integer width and signedness and both floating types, edge values, link paths and strings of 0..255 arbitrary bytes, every "
    "descriptor, any scaling attributes) with all or only the basic attributes from an adapter that answers by attribute, and compares all getters with the adapter's "
    "values; refreshes values; compares engineering values with the formula in extended precision; stores engineering values back, also ones that do not fit; applies the setters; non-trivial: "
    "distinct parameter encodings";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"reads", 1000}, {"refreshes", 800}, {"scaled_values", 1000}, {"stored_back", 2000}, {"setters", 500}, {"refused", 300}};
}  // namespace prop

namespace {
struct P {
  uint16_t id = 1;
  int kind = 0;  // index into the types
  Bytes value, min, max, def;
  uint8_t type = 0;
  uint16_t descriptor = 0;
  Bytes link;
  std::string name, units, help;
  uint16_t mult = 1, div = 1, base = 1;
  int16_t off = 0;
  uint8_t prec = 0;
  bool full = true;
  bool scalable() const { return descriptor & 4; }
};
const int kSizes[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 0};
const char* const kKinds[] = {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float", "double", "other"};
const int kOther = 10;  // strings, structures, ...: a value of any size that is read but not converted
bool isFloat(int kind) { return kind == 8 || kind == 9; }

Bytes someValue(Rng& r, int kind) {
  model::Wr w;
  if (kind == kOther) return r.bytes(r.chance(30) ? r.below(9) : r.chance(80) ? r.below(60) : r.below(256));
  if (kind == 8) { float f = r.chance(20) ? 0.f : (float)((double)r.range(-1000000, 1000000) / 64.0); uint32_t u; memcpy(&u, &f, 4); return w.u32(u); }
  if (kind == 9) { double f = r.chance(20) ? 0. : (double)r.range(-1000000000, 1000000000) / 4096.0; uint64_t u; memcpy(&u, &f, 8); return w.u64(u); }
  uint64_t v = r.edgy(kSizes[kind] * 8);
  if (kSizes[kind] == 8) { v = r.edgy(44); if (kind == 6 && r.chance(50)) v = (uint64_t)-(int64_t)v; if (r.chance(20)) v = r.u64(); }
  return w.le(v, kSizes[kind]);
}
template <class T> T dec(const Bytes& b) {
  T v;
  memcpy(&v, b.data(), sizeof v);
  return v;
}
long double num(int kind, const Bytes& b) {
  switch (kind) {
    case 0: return dec<int8_t>(b); case 1: return dec<uint8_t>(b); case 2: return dec<int16_t>(b); case 3: return dec<uint16_t>(b); case 4: return dec<int32_t>(b);
    case 5: return dec<uint32_t>(b); case 6: return dec<int64_t>(b); case 7: return dec<uint64_t>(b); case 8: return dec<float>(b); default: return dec<double>(b);
  }
}
template <class F> void withType(int kind, F f) {
  switch (kind) {
    case 0: f(es::cip::CipSint{}); break; case 1: f(es::cip::CipUsint{}); break; case 2: f(es::cip::CipInt{}); break; case 3: f(es::cip::CipUint{}); break;
    case 4: f(es::cip::CipDint{}); break; case 5: f(es::cip::CipUdint{}); break; case 6: f(es::cip::CipLint{}); break; case 7: f(es::cip::CipUlint{}); break;
    case 8: f(es::cip::CipReal{}); break; default: f(es::cip::CipLreal{}); break;
  }
}
Bytes encodeAll(const P& p, Rng& r, bool garbage) {
  model::Wr w;
  w.raw(p.value).u8(p.link.size()).raw(p.link).u16(p.descriptor).u8(p.type).u8(p.value.size());
  w.sstr(p.name).sstr(p.units).sstr(p.help).raw(p.min).raw(p.max).raw(p.def);
  if (garbage) w.raw(r.bytes(16));  // devices are known to report wrong scaling attributes here
  else w.u16(p.mult).u16(p.div).u16(p.base).u16((uint16_t)p.off).zero(8);
  w.u8(p.prec);
  return w;
}
std::string someText(Rng& r) { return r.chance(20) ? "" : r.chance(20) ? r.str(r.below(256)) : r.chance(10) ? r.str(255) : r.str(r.below(17)); }

void checkEng(Ctx& c, const P& p, const char* what, double got, const Bytes& b, bool scale) {
  long double a = num(p.kind, b), want = a, mag = fabsl(a);
  if (scale) {
    long double f = (long double)p.mult * p.base / ((long double)p.div * powl(10.0L, p.prec));
    want = (a + p.off) * f;
    mag = (fabsl(a) + fabsl((long double)p.off)) * f;
    count("scaled_values");
  }
  CHECK(fabsl(got - want) <= mag * 1e-12L, std::string("engineering-") + what, "%s %s: actual %.10Lg gives %.17g instead of %.17Lg (mult %u div %u base %u offset %d precision %u)", kKinds[p.kind], what, a, got, want, p.mult,
        p.div, p.base, p.off, p.prec);
}
void compare(Ctx& c, const ParameterObject& o, const P& p, const char* when) {
  CHECK((uint8_t)o.getType() == p.type, "type", "%s: %02x instead of %02x", when, (unsigned)o.getType(), p.type);
  CHECK(o.isScalable() == p.scalable() && o.isReadOnly() == !!(p.descriptor & 16), "flags", "%s: scalable %d read-only %d for descriptor %04x", when, o.isScalable(), o.isReadOnly(), p.descriptor);
  CHECK(o.hasFullAttributes() == p.full, "full", "%s: %d", when, o.hasFullAttributes());
  if (p.kind != kOther) withType(p.kind, [&](auto t) {
    using T = decltype(t);
    auto same = [&](T got, const Bytes& b) { T w = dec<T>(b); return !memcmp(&w, &got, sizeof w); };
    CHECK(same(o.getActualValue<T>(), p.value), "value", "%s: %s value %.17Lg instead of %.17Lg", when, kKinds[p.kind], (long double)o.getActualValue<T>(), num(p.kind, p.value));
    if (p.full) {
      CHECK(same(o.getMinValue<T>(), p.min), "minimum", "%s: %s minimum %.17Lg instead of %.17Lg", when, kKinds[p.kind], (long double)o.getMinValue<T>(), num(p.kind, p.min));
      CHECK(same(o.getMaxValue<T>(), p.max), "maximum", "%s: %s maximum %.17Lg instead of %.17Lg", when, kKinds[p.kind], (long double)o.getMaxValue<T>(), num(p.kind, p.max));
      CHECK(same(o.getDefaultValue<T>(), p.def), "default", "%s: %s default %.17Lg instead of %.17Lg", when, kKinds[p.kind], (long double)o.getDefaultValue<T>(), num(p.kind, p.def));
    }
    bool sc = p.scalable();
    checkEng(c, p, "value", o.getEngValue<T>(), p.value, sc);
    if (p.full) {
      checkEng(c, p, "minimum", o.getEngMinValue<T>(), p.min, sc);
      checkEng(c, p, "maximum", o.getEngMaxValue<T>(), p.max, sc);
      checkEng(c, p, "default", o.getEngDefaultValue<T>(), p.def, sc);
    }
  });
  if (p.full) {
    CHECK(o.getName() == p.name, "name", "%s: %zu bytes instead of %zu", when, o.getName().size(), p.name.size());
    CHECK(o.getUnits() == p.units, "units", "%s: %zu bytes instead of %zu", when, o.getUnits().size(), p.units.size());
    CHECK(o.getHelp() == p.help, "help", "%s: %zu bytes instead of %zu", when, o.getHelp().size(), p.help.size());
    if (p.scalable())
      CHECK(o.getScalingMultiplier() == p.mult && o.getScalingDivisor() == p.div && o.getScalingBase() == p.base && o.getScalingOffset() == p.off && o.getPrecision() == p.prec, "scaling",
            "%s: %u %u %u %d %u instead of %u %u %u %d %u", when, o.getScalingMultiplier(), o.getScalingDivisor(), o.getScalingBase(), o.getScalingOffset(), o.getPrecision(), p.mult, p.div, p.base, p.off, p.prec);
  }
}
// Engineering values stored back give the original
void storeBack(Ctx& c, ParameterObject& o, P& p, Rng& r) {
  if (p.kind == kOther) return;
  for (int i = 0; i < 4; ++i) {
    Bytes v = someValue(r, p.kind);
    long double a = num(p.kind, v);
    if (fabsl(a) >= 35184372088832.0L) continue;  // 2^45: not exact in double arithmetic any more
    double eng = o.actualToEngValue((double)a);
    int which = (int)r.below(3);
    withType(p.kind, [&](auto t) {
      using T = decltype(t);
      T got;
      switch (which) {
        case 0: o.setEngMinValue<T>(eng); got = o.getMinValue<T>(); p.min = v; break;
        case 1: o.setEngMaxValue<T>(eng); got = o.getMaxValue<T>(); p.max = v; break;
        default: o.setEngDefaultValue<T>(eng); got = o.getDefaultValue<T>(); p.def = v; break;
      }
      if (isFloat(p.kind)) {
        long double tol = (fabsl(a) + fabsl((long double)p.off)) * (p.kind == 8 ? 1e-6L : 1e-11L);
        CHECK(fabsl((long double)got - a) <= tol, "stored-back", "%s %.17Lg became %.17Lg", kKinds[p.kind], a, (long double)got);
        Bytes b(sizeof got);
        memcpy(b.data(), &got, sizeof got);
        (which == 0 ? p.min : which == 1 ? p.max : p.def) = b;
      } else {
        CHECK((long double)got == a, "stored-back", "%s: the actual value %.0Lf is %.17g in engineering units, which was stored as %.0Lf (mult %u div %u base %u offset %d precision %u)", kKinds[p.kind], a, eng, (long double)got,
              p.mult, p.div, p.base, p.off, p.prec);
      }
    });
    count("stored_back");
  }
}
// Engineering values whose actual value the type cannot hold are refused
void refuse(Ctx& c, ParameterObject& o, P& p, Rng& r) {
  if (p.kind == kOther || isFloat(p.kind)) return;
  withType(p.kind, [&](auto t) {
    using T = decltype(t);
    if constexpr (std::is_integral<T>::value) {
      long double top = ldexpl(1, std::numeric_limits<T>::digits), bottom = std::is_signed<T>::value ? -top : 0;
      double eng;
      const char* what;
      switch (r.below(6)) {
        case 0: eng = std::nan(""); what = "nan"; break;
        case 1: eng = std::numeric_limits<double>::infinity(); what = "infinity"; break;
        case 2: eng = -std::numeric_limits<double>::infinity(); what = "infinity"; break;
        case 3: eng = o.actualToEngValue((double)(top * (1 + r.below(1000)) * (1 + 1e-9L) + 1)); what = "above"; break;
        case 4: eng = o.actualToEngValue((double)(bottom * (1 + r.below(1000)) * (1 + 1e-9L) - 1)); what = "below"; break;
        default: eng = r.chance(50) ? 1e300 : -1e300; what = "huge"; break;
      }
      if (p.scalable() && (double)p.div * p.base * p.mult == 0) return;
      int which = (int)r.below(3);
      auto e = outcome(c, [&] {
        if (which == 0) o.setEngMinValue<T>(eng);
        else if (which == 1) o.setEngMaxValue<T>(eng);
        else o.setEngDefaultValue<T>(eng);
      });
      CHECK(!e.empty(), std::string("not-refused-") + what, "%s: the engineering value %.17g was stored (mult %u div %u base %u offset %d precision %u)", kKinds[p.kind], eng, p.mult, p.div, p.base, p.off, p.prec);
      count("refused");
    }
  });
}
void randomScaling(Rng& r, P& p) {
  auto nz = [&] { return (uint16_t)std::max<uint64_t>(1, r.chance(40) ? 1 + r.below(10) : r.edgy(16)); };
  p.mult = nz();
  p.div = nz();
  p.base = nz();
  p.off = (int16_t)(r.chance(40) ? 0 : (int64_t)r.edgy(16));
  p.prec = (uint8_t)(r.chance(70) ? r.below(5) : r.chance(70) ? r.below(20) : r.u8());
}
}  // namespace

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  model::Server s(randomHost(r));
  s.install(n.w);
  if (r.chance(20)) roughTransport(c, s, 100 * US);
  auto si = openSession(s, 20 * SEC);
  std::map<uint16_t, P> dev;
  bool garbage = r.chance(50), use8ok = true;
  std::string bad;
  s.cip = [&](const model::Req& q) {
    model::Rep rep;
    if (q.lp.cls != 0x0F || !dev.count((uint16_t)q.lp.inst) || !q.data.empty()) { bad = "service " + std::to_string(q.service) + " path " + hex(q.path); rep.status = 5; return rep; }
    P& p = dev[(uint16_t)q.lp.inst];
    if (q.service == 1 && q.lp.attr == -1) { rep.data = encodeAll(p, r, garbage); return rep; }
    if (q.service != 0x0E) { bad = "service " + std::to_string(q.service); rep.status = 8; return rep; }
    switch (q.lp.attr) {
      case 1: rep.data = p.value; break;
      case 6: rep.data = model::Wr().u8(p.value.size()); break;
      case 13: rep.data = model::Wr().u16(p.mult); break;
      case 14: rep.data = model::Wr().u16(p.div); break;
      case 15: rep.data = model::Wr().u16(p.base); break;
      case 16: rep.data = model::Wr().u16((uint16_t)p.off); break;
      default: rep.status = 0x14;
    }
    return rep;
  };
  std::vector<std::pair<std::unique_ptr<ParameterObject>, P>> objs;
  for (int i = 0, k = 1 + (int)r.below(3); i < k; ++i) {
    dirtyStack(r.u8());
    P p;
    p.kind = r.chance(6) ? kOther : (int)r.below(10);
    p.full = r.chance(80);
    bool use8 = use8ok && r.chance(30);
    do p.id = (uint16_t)(use8 ? 1 + r.below(255) : std::max<uint64_t>(1, r.edgy(16))); while (dev.count(p.id));
    p.value = someValue(r, p.kind);
    p.min = someValue(r, p.kind);
    p.max = someValue(r, p.kind);
    p.def = someValue(r, p.kind);
    if (p.kind == kOther) {  // all of the size of the value
      p.min.resize(p.value.size());
      p.max.resize(p.value.size());
      p.def.resize(p.value.size());
      count("other_sizes");
    }
    static const uint8_t types[] = {0xC2, 0xC6, 0xC3, 0xC7, 0xC4, 0xC8, 0xC5, 0xC9, 0xCA, 0xCB};
    p.type = r.chance(70) ? types[p.kind % 10] : r.u8();
    p.descriptor = (uint16_t)(r.chance(50) ? r.u16() | 4 : r.edgy(16));
    p.link = r.bytes(r.chance(50) ? 0 : r.chance(90) ? r.below(10) : r.below(256));
    p.name = someText(r);
    p.units = someText(r);
    p.help = someText(r);
    randomScaling(r, p);
    if (p.kind != kOther && r.chance(10)) {
      // created without reading
      P e;
      e.kind = p.kind;
      e.full = p.full;
      e.id = p.id;
      size_t sz = (size_t)kSizes[p.kind];
      e.value = e.min = e.max = e.def = Bytes(sz, 0);
      auto o = std::make_unique<ParameterObject>(p.id, p.full, sz);
      compare(c, *o, e, "created empty");
      dev[p.id] = e;
      objs.emplace_back(std::move(o), e);
      continue;
    }
    dev[p.id] = p;
    Bytes enc = encodeAll(p, r, false);
    distinct("nontrivial", hashBytes(enc.data(), enc.size(), p.full));
    c.note("parameter %u %s full %d descriptor %04x type %02x", p.id, kKinds[p.kind], p.full, p.descriptor, p.type);
    c.phase("read");
    std::unique_ptr<ParameterObject> o;
    bool own = use8 || r.chance(30);
    auto e = outcome(c, [&] { o = own ? std::make_unique<ParameterObject>(p.id, p.full, si, std::make_shared<es::MessageRouter>(use8)) : std::make_unique<ParameterObject>(p.id, p.full, si); });
    CHECK(bad.empty(), "request", "the adapter received an unexpected request: %s", bad.c_str());
    CHECK(e.empty(), "read-fails", "%s", e.c_str());
    CHECK(o->getParameter() == p.id && o->getInstanceId() == p.id, "number", "%u", o->getParameter());
    if (!(p.full && p.scalable())) {  // scaling attributes were not read
      p.mult = o->getScalingMultiplier(); p.div = o->getScalingDivisor(); p.base = o->getScalingBase(); p.off = o->getScalingOffset(); p.prec = o->getPrecision();
    }
    compare(c, *o, p, "read");
    count("reads");
    objs.emplace_back(std::move(o), p);
  }
  for (int i = 0, k = (int)r.below(8); i < k; ++i) {
    auto& [o, p] = objs[r.below(objs.size())];
    switch (r.below(4)) {
      case 0: case 1: {
        Bytes v = someValue(r, p.kind);
        P& d = dev[p.id];
        if (p.kind == kOther) v = r.bytes(p.value.size());
        d.value = v;
        d.min = someValue(r, p.kind);  // only the value is refreshed
        d.max = someValue(r, p.kind);
        size_t before = s.requests.size();
        c.phase("refresh");
        auto e = outcome(c, [&] { o->updateValue(si); });
        CHECK(e.empty(), "refresh-fails", "%s", e.c_str());
        CHECK(s.requests.size() == before + 1 && s.requests.back().service == 0x0E && s.requests.back().lp.attr == 1 && s.requests.back().lp.inst == p.id, "refresh-request", "%zu requests", s.requests.size() - before);
        p.value = v;
        count("refreshes");
        break;
      }
      case 2: {
        c.phase("store");
        storeBack(c, *o, p, r);
        refuse(c, *o, p, r);
        break;
      }
      default: {
        c.phase("setters");
        P q = p;
        if (r.chance(30)) {
          q.descriptor |= 4;
          randomScaling(r, q);
          o->setScalable(true);
          o->setScalingMultiplier(q.mult); o->setScalingDivisor(q.div); o->setScalingBase(q.base); o->setScalingOffset(q.off); o->setPrecision(q.prec);
        } else switch (r.below(6)) {
          case 0: q.descriptor ^= 4; o->setScalable(q.scalable()); break;
          case 1: q.descriptor ^= 16; o->setReadOnly(!!(q.descriptor & 16)); break;
          case 2: q.type = r.u8(); o->setType((es::cip::CipDataTypes)q.type); break;
          case 3: q.name = someText(r); o->setName(q.name); break;
          case 4: q.units = someText(r); o->setUnits(q.units); break;
          case 5: q.help = someText(r); o->setHelp(q.help); break;
        }
        CHECK(o->isScalable() == q.scalable(), "flags", "the setter set scalable to %d", o->isScalable());
        p = q;
        count("setters");
      }
    }
    for (auto& [o2, p2] : objs) compare(c, *o2, p2, "later");
    // both directions of the conversion belong together
    double x = (double)r.range(-1000000, 1000000);
    double back = o->engToActualValue(o->actualToEngValue(x));
    CHECK(std::fabs(back - x) <= (std::fabs(x) + std::fabs((double)p.off)) * 1e-10, "conversion", "%.17g became %.17g", x, back);
  }
  objs.clear();
  si.reset();
  expectProtocol(c, s);
  expectSane(c, n.w);
}
