// Endpoints: conversion, equality, ordering, use as keys.
#include <arpa/inet.h>
#include <cstring>
#include <map>
#include <set>
#include "adapter.h"
#include "prop.h"
#include "sockets/EndPoint.h"

using namespace prop;
using eipScanner::sockets::EndPoint;

namespace prop {
const char* const kProperty = "W07";
const uint64_t kQuickCases = 30000, kThoroughCases = 1000000;
const char* const kRule =
    "a case makes a set of 2..14 endpoints from few hosts and ports (so that hosts and ports collide in all combinations), from text or from socket "
    "addresses with other bytes set, checks each conversion, every pair and triple of the ordering laws, and their use as keys of map and set; "
    "non-trivial: distinct sets of endpoints";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"endpoints", 3000}, {"pairs", 10000}, {"same_host", 500}, {"same_port", 500}};
}  // namespace prop

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  std::vector<uint32_t> hosts;
  std::vector<uint16_t> ports;
  for (size_t i = 0, n = 1 + r.below(4); i < n; ++i) hosts.push_back((uint32_t)(r.chance(50) ? r.edgy(32) : 0x0A000000 + r.below(300)));
  for (size_t i = 0, n = 1 + r.below(4); i < n; ++i) ports.push_back((uint16_t)r.edgy(16));
  struct E { uint32_t ip; uint16_t port; EndPoint ep; };
  std::vector<E> v;
  std::string what;
  for (size_t i = 0, n = 2 + r.below(13); i < n; ++i) {
    uint32_t ip = r.pick(hosts);
    uint16_t port = r.pick(ports);
    std::string h = sim::dotted(ip);
    what += h + ":" + std::to_string(port) + " ";
    if (r.chance(50)) v.push_back({ip, port, EndPoint(h, port)});
    else {
      sockaddr_in sa;
      memset(&sa, r.chance(50) ? 0 : 0xEE, sizeof sa);  // sin_zero is not part of the address
      sa.sin_family = AF_INET;
      sa.sin_port = htons(port);
      sa.sin_addr.s_addr = htonl(ip);
      v.push_back({ip, port, EndPoint(sa)});
    }
    if (r.chance(20)) { E copy = v.back(); v.push_back(copy); }
  }
  c.note("%s", what.c_str());
  c.phase("conversion");
  for (auto& e : v) {
    std::string h = sim::dotted(e.ip);
    CHECK(e.ep.getHost() == h, "host", "%s instead of %s", e.ep.getHost().c_str(), h.c_str());
    CHECK(e.ep.getPort() == e.port, "port", "%d instead of %u", e.ep.getPort(), e.port);
    auto a = e.ep.getAddr();
    CHECK(a.sin_family == AF_INET && a.sin_port == htons(e.port) && a.sin_addr.s_addr == htonl(e.ip), "address", "socket address of %s:%u", h.c_str(), e.port);
    CHECK(e.ep.toString() == h + ":" + std::to_string(e.port), "text", "%s", e.ep.toString().c_str());
    auto b = a;
    CHECK(EndPoint(b) == e.ep && EndPoint(h, e.port) == e.ep && !(EndPoint(h, e.port) != e.ep), "convert-equal", "%s: conversion and back is not equal", what.c_str());
    count("endpoints");
  }
  c.phase("ordering");
  auto eqv = [](const EndPoint& a, const EndPoint& b) { return !(a < b) && !(b < a); };
  for (auto& a : v)
    for (auto& b : v) {
      bool same = a.ip == b.ip && a.port == b.port;
      count("pairs");
      if (!same && a.ip == b.ip) count("same_host");
      if (!same && a.port == b.port) count("same_port");
      CHECK((a.ep == b.ep) == same && (a.ep != b.ep) == !same, "equality", "%s and %s", a.ep.toString().c_str(), b.ep.toString().c_str());
      CHECK(eqv(a.ep, b.ep) == same, "order-equality", "%s and %s: neither is less, or equal ones are ordered", a.ep.toString().c_str(), b.ep.toString().c_str());
      CHECK(!(a.ep < b.ep && b.ep < a.ep), "order-asymmetry", "%s and %s", a.ep.toString().c_str(), b.ep.toString().c_str());
      for (auto& d : v) {
        CHECK(!(a.ep < b.ep && b.ep < d.ep) || a.ep < d.ep, "order-transitivity", "%s %s %s", a.ep.toString().c_str(), b.ep.toString().c_str(), d.ep.toString().c_str());
      }
    }
  c.phase("keys");
  std::map<EndPoint, size_t> m;
  std::set<std::pair<uint32_t, uint16_t>> want;
  for (size_t i = 0; i < v.size(); ++i) { m[v[i].ep] = i; want.insert({v[i].ip, v[i].port}); }
  CHECK(m.size() == want.size(), "keys", "%zu keys for %zu endpoints", m.size(), want.size());
  for (auto& e : v) {
    auto it = m.find(EndPoint(sim::dotted(e.ip), e.port));
    CHECK(it != m.end() && v[it->second].ip == e.ip && v[it->second].port == e.port, "lookup", "%s is not found again", e.ep.toString().c_str());
  }
  distinct("nontrivial", what);
  sample(what);
}
