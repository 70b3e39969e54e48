// What of a request reaches the adapter and what of its answer reaches the caller, for both routers.
#include "net.h"
#include "named.h"
#include "Yaskawa_MessageRouter.h"

using namespace net;
using es::eip::CommonPacketItem;
using es::eip::CommonPacketItemIds;

namespace prop {
const char* const kProperty = "X01";
const uint64_t kQuickCases = 7000, kThoroughCases = 500000;
const char* const kRule =
    "a case sends 1..12 requests with any service, path (class / instance / attribute, edges included), data of 0..60000 bytes and 0..4 additional items of any type "
    "through the standard router in both path widths and the Yaskawa router, using every overload; answers have any service byte, status, 0..255 status words, data of "
    "0..60000 bytes and additional items; the adapter's view and the caller's view are compared with an independent encoding; non-trivial: distinct requests and answers";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"requests", 4000}, {"yaskawa", 1000}, {"with_items", 500}, {"status_words", 500}, {"answer_items", 500}, {"large", 50}};
}  // namespace prop

namespace {
size_t someSize(Rng& r) {
  switch (r.below(12)) {
    case 0: return r.below(60000);
    case 1: return r.below(2000);
    case 2: case 3: return 0;
    default: return r.below(50);
  }
}
std::vector<model::Item> someItems(Rng& r) {
  std::vector<model::Item> v;
  static const uint16_t ids[] = {0, 0x0C, 0xA1, 0xB1, 0xB2, 0x8000, 0x8001, 0x8002};
  if (r.chance(60)) return v;
  bool many = r.chance(4);
  for (size_t i = 0, n = many ? r.below(300) : r.chance(10) ? r.below(20) : 1 + r.below(4); i < n; ++i) v.push_back({r.chance(70) ? ids[r.below(8)] : r.u16(), r.bytes(r.chance(20) ? 0 : r.below(many ? 9 : r.chance(10) ? 250 : 24))});
  return v;
}
}  // namespace

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  model::Server s(randomHost(r));
  s.nextHandle = std::max<uint32_t>(1, (uint32_t)r.edgy(32));
  s.install(n.w);
  if (r.chance(40)) roughTransport(c, s, 100 * US);
  model::Rep rep;
  bool reg = true;
  s.cip = [&](const model::Req&) { return rep; };
  s.mutate = [&](Bytes& b, int k, model::ConnState&) {
    if (k >= 0 && r.chance(5)) b[41] = r.u8();  // reserved
    if (k >= 0 && r.chance(10)) { b[28] = r.u8(); b[29] = r.u8(); }  // the timeout field of the answer means nothing
  };
  (void)reg;
  uint32_t handle = s.nextHandle;
  auto si = openSession(s, 20 * SEC);
  std::vector<Bytes> wanted;
  for (int i = 0, k = 1 + (int)r.below(12); i < k; ++i) {
    int form = (int)r.below(3);  // 16 bit, 8 bit, Yaskawa
    int bits = form == 0 ? 16 : 8;
    int depth = 1 + (int)r.below(3);
    int a = r.chance(10) ? 0 : (int)r.edgy(bits), b = depth > 1 ? (r.chance(10) ? 0 : (int)r.edgy(bits)) : -1, d = depth > 2 ? (r.chance(10) ? 0 : (int)r.edgy(bits)) : -1;
    uint8_t service = (uint8_t)r.edgy(8);
    auto serviceCode = (es::cip::ServiceCodes)service;
    if (r.chance(30)) {
      auto& n = r.pick(named::kServices);
      service = (uint8_t)n.number;
      serviceCode = n.value;
      count("named");
    }
    Bytes data = r.bytes(someSize(r));
    auto items = someItems(r);
    int overload = (int)r.below(3);
    if (overload == 2) data.clear();
    if (overload >= 1) items.clear();
    rep = randomRep(r, 100, 35);
    rep.extra = someItems(r);
    rep.data = r.bytes(someSize(r));
    if (r.chance(25)) rep.service = (uint8_t)r.edgy(8);
    const named::Name<es::cip::GeneralStatusCodes>* status = nullptr;
    if (r.chance(30)) {
      status = &r.pick(named::kStatuses);
      rep.status = (uint8_t)status->number;
    }
    bool explicitFalse = r.chance(50);
    c.note("request %d: router %d service %02x path %d/%d/%d data %zu items %zu; answer status %02x words %zu data %zu items %zu", i, form, service, a, b, d, data.size(), items.size(),
           rep.status, rep.addl.size(), rep.data.size(), rep.extra.size());
    std::vector<CommonPacketItem> add;
    for (auto& it : items) add.push_back(CommonPacketItem((CommonPacketItemIds)it.type, it.data));
    es::cip::MessageRouterResponse q;
    size_t before = s.requests.size();
    c.phase(form == 2 ? "yaskawa" : "standard");
    auto e = outcome(c, [&] {
      if (form == 2) {
        auto path = depth == 1 ? es::cip::Yaskawa_EPath((uint8_t)a) : depth == 2 ? es::cip::Yaskawa_EPath((uint8_t)a, (uint8_t)b) : es::cip::Yaskawa_EPath((uint8_t)a, (uint8_t)b, (uint8_t)d);
        es::Yaskawa_MessageRouter mr;
        q = overload == 0 ? mr.sendRequest(si, serviceCode, path, data, add) : overload == 1 ? mr.sendRequest(si, serviceCode, path, data) : mr.sendRequest(si, serviceCode, path);
      } else {
        auto path = depth == 1 ? es::cip::EPath((uint16_t)a) : depth == 2 ? es::cip::EPath((uint16_t)a, (uint16_t)b) : es::cip::EPath((uint16_t)a, (uint16_t)b, (uint16_t)d);
        auto mr = form == 1 ? es::MessageRouter(es::MessageRouter::USE_8_BIT_PATH_SEGMENTS) : explicitFalse ? es::MessageRouter(false) : es::MessageRouter();
        q = overload == 0 ? mr.sendRequest(si, serviceCode, path, data, add) : overload == 1 ? mr.sendRequest(si, serviceCode, path, data) : mr.sendRequest(si, serviceCode, path);
      }
    });
    CHECK(e.empty(), "request-fails", "%s", e.c_str());
    expectProtocol(c, s);
    CHECK(s.requests.size() == before + 1, "request-count", "%zu requests", s.requests.size() - before);
    auto& seen = s.requests.back();
    Bytes wantPath = form == 0 ? model::path16(a, b, d) : model::path8(a, b, d);
    CHECK(seen.handle == handle, "handle", "%08x instead of %08x", seen.handle, handle);
    CHECK(seen.service == service, "service", "%02x instead of %02x", seen.service, service);
    CHECK(seen.path == wantPath, "path", "%s instead of %s", hex(seen.path).c_str(), hex(wantPath).c_str());
    CHECK(seen.data == data, "data", "%zu bytes %s instead of %zu bytes %s", seen.data.size(), hex(seen.data, 30).c_str(), data.size(), hex(data, 30).c_str());
    CHECK(seen.extra == items, "items", "%zu additional items instead of %zu, or others", seen.extra.size(), items.size());
    // and back
    CHECK((uint8_t)q.getServiceCode() == rep.service.value_or(service | 0x80), "answer-service", "%02x instead of %02x", (unsigned)q.getServiceCode(), rep.service.value_or(service | 0x80));
    CHECK((uint8_t)q.getGeneralStatusCode() == rep.status, "answer-status", "%02x instead of %02x", (unsigned)q.getGeneralStatusCode(), rep.status);
    if (status) CHECK(q.getGeneralStatusCode() == status->value, "answer-status", "status %02x is not %s", rep.status, status->name);
    CHECK(q.getAdditionalStatus() == rep.addl, "answer-words", "%zu status words instead of %zu, or others", q.getAdditionalStatus().size(), rep.addl.size());
    CHECK(q.getData() == rep.data, "answer-data", "%zu bytes %s instead of %zu bytes %s", q.getData().size(), hex(q.getData(), 30).c_str(), rep.data.size(), hex(rep.data, 30).c_str());
    auto& ai = q.getAdditionalPacketItems();
    CHECK(ai.size() == rep.extra.size(), "answer-items", "%zu additional items instead of %zu", ai.size(), rep.extra.size());
    for (size_t j = 0; j < ai.size(); ++j)
      CHECK((uint16_t)ai[j].getTypeId() == rep.extra[j].type && ai[j].getData() == rep.extra[j].data && ai[j].getLength() == rep.extra[j].data.size(), "answer-items", "item %zu differs", j);
    count("requests");
    if (form == 2) count("yaskawa");
    if (!items.empty()) count("with_items");
    if (!rep.addl.empty()) count("status_words");
    if (!rep.extra.empty()) count("answer_items");
    if (data.size() > 5000 || rep.data.size() > 5000) count("large");
    distinct("nontrivial", hashBytes(seen.path.data(), seen.path.size(), service * 1000003ull + data.size() * 31 + items.size() * 7 + rep.status * 65537ull + rep.data.size()));
  }
  c.phase("destroy");
  si.reset();
  expectProtocol(c, s);
  expectSane(c, n.w);
  if (c.index < 20) sample(std::to_string(s.requests.size()) + " requests, last path " + hex(s.requests.back().path) + " with " + std::to_string(s.requests.back().data.size()) + " bytes");
}
