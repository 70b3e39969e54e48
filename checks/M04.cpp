// Memory is given back: nothing is left of destroyed objects, and objects that live long do not grow.
#include "scenario.h"
extern "C" {  // of the sanitizers' allocator
size_t __sanitizer_get_current_allocated_bytes();
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
}

using namespace scen;

namespace prop {
const char* const kProperty = "M04";
const uint64_t kQuickCases = 160, kThoroughCases = 12000;
const char* const kRule =
    "a case keeps a session, router, connection manager, discovery manager, drive fault manager, parameters and an identity alive for 32 (thorough: also 400) rounds; every round repeats the same seeded "
    "operations (all the reads, refreshes, uploads, drive faults, commands, requests, I/O connections opened, used, closed, refused and timed out, discovery, sessions made and broken; with error statuses, cut, "
    "spoilt and missing replies and failing system calls) with new connection ids and addresses; hooks in the allocator attribute every block to the library call it was allocated in; the live bytes must "
    "not keep growing from checkpoint to checkpoint and must be zero after the objects are gone; a second part repeats whole histories over every part of the library and compares the memory in use; "
    "non-trivial: distinct (operation, outcome)";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"rounds", 30000}, {"blocks_followed", 1000000}, {"operations_returned", 20000}, {"operations_threw", 10000}, {"io_opened", 3000}, {"io_timed_out", 500}, {"io_closed", 500},
    {"discovered", 500}, {"histories", 500}, {"frees_checked", 900}};
}  // namespace prop

namespace {
// ---- the blocks allocated by the library that are not freed yet
struct Block { uintptr_t p; uint32_t size; int tag; };
constexpr size_t N = 1 << 16;
Block table[N];
size_t used = 0, lost = 0;
uint64_t followed = 0;
bool following = false;
thread_local int library = 0;  // > 0 in a call of the library
int tag = 0;
int64_t live = 0;
int64_t byTag[64];
const char* const tagNames[64] = {"identity", "parameter", "basic-parameter", "refresh", "upload", "faults", "fault-object", "command", "forward-open-manager", "plain", "plain-yaskawa", "forward-close-manager",
                                  "session", "parameter-refresh", "setter", "request", "fault-manager", "io-open", "io-poll", "io-close", "discovery", "new-session", "poll-file", "create", "logging"};
enum { TSession = 12, TRefresh, TSet, TRequest, TFaultManager, TIoOpen, TIoPoll, TIoClose, TDiscovery, TNewSession, TPollFile, TCreate, TLogging };
size_t slot(uintptr_t p) { return (size_t)((p >> 4) * 0x9E3779B97F4A7C15ull >> 40) & (N - 1); }
void onMalloc(const volatile void* v, size_t n) {
  if (!following || !library || sim::insideSim || !v) return;
  if (used > N * 3 / 4) { ++lost; return; }
  auto p = (uintptr_t)v;
  size_t i = slot(p);
  while (table[i].p) i = (i + 1) & (N - 1);
  table[i] = {p, (uint32_t)n, tag};
  ++used;
  ++followed;
  live += (int64_t)n;
  byTag[tag] += (int64_t)n;
}
void onFree(const volatile void* v) {
  if (!following || !v || !used) return;
  auto p = (uintptr_t)v;
  size_t i = slot(p);
  while (table[i].p && table[i].p != p) i = (i + 1) & (N - 1);
  if (!table[i].p) return;
  live -= table[i].size;
  byTag[table[i].tag] -= table[i].size;
  --used;
  for (size_t j = i;;) {  // close the gap
    j = (j + 1) & (N - 1);
    if (!table[j].p) break;
    size_t home = slot(table[j].p);
    if (((j - home) & (N - 1)) >= ((j - i) & (N - 1))) { table[i] = table[j]; i = j; }
  }
  table[i] = {};
}
void forget() {
  memset(table, 0, sizeof table);
  memset(byTag, 0, sizeof byTag);
  used = lost = 0;
  live = 0;
}
struct Lib {
  int keep;
  explicit Lib(int t) : keep(tag) { tag = t; ++library; }
  ~Lib() { --library; tag = keep; }
};
struct Quiet : es::utils::LogAppenderIf {
  void print(es::utils::LogLevel, const std::string& m) override {
    static thread_local uint64_t sink;
    sink += m.size();
  }
};
int worst() {
  int w = 0;
  for (int i = 1; i < 64; ++i) if (byTag[i] > byTag[w]) w = i;
  return w;
}

struct Outcome { std::string key, text; uint64_t calls = 0, returned = 0, threw = 0, opened = 0, timedOut = 0, closed = 0, discovered = 0; std::set<uint64_t> kinds; };

// An episode: objects live for a number of rounds, which all do the same
void episode(Ctx& outer, uint64_t seed, const std::vector<int>& checkpoints, Outcome& o, uint32_t firstRound = 0) {
  Ctx c = outer;
  c.r = Rng(seed);
  World w(c.r.next());
  sim::Scope scope(w);
  w.budget = 100000000;
  es::utils::Logger::setAppender(std::make_unique<Quiet>());
  es::utils::Logger::setLogLevel((es::utils::LogLevel)c.r.below(6));
  uint64_t roundSeed = c.r.next();
  Device d(randomHost(c.r), (uint16_t)(1 + c.r.below(65535)));
  d.randomise(c.r);
  d.setup();
  d.install(w);
  Device d2(randomHost(c.r), 44818);  // of the sessions that are made in the rounds
  if (d2.at == d.at) d2.at.port--;
  d2.randomise(c.r);
  d2.setup();
  d2.install(w);
  uint32_t nextId = 0x10000;
  uint32_t round = firstRound;  // paths, ids and contents differ from round to round
  auto call = [&](int t, const std::function<void()>& f) {
    bool threw = false;
    {
      Lib l(t);
      try { f(); } catch (const std::exception&) { threw = true; }
    }
    ++(threw ? o.threw : o.returned);
    o.kinds.insert((uint64_t)t * 2 + threw);
    ++o.calls;
  };
  struct Live {
    std::shared_ptr<es::SessionInfo> si;
    std::shared_ptr<es::MessageRouter> mr;
    std::unique_ptr<es::ConnectionManager> cm;
    std::unique_ptr<es::DiscoveryManager> dm;
    std::unique_ptr<pf::DPIFaultManager> fm;
    std::unique_ptr<es::ParameterObject> po;
    std::unique_ptr<es::IdentityObject> io;
    std::unique_ptr<es::FileObject> fo;
  } L;
  following = true;
  forget();
  bool clear = c.r.chance(50), details = c.r.chance(70), full = c.r.chance(50);
  call(TCreate, [&] {
    L.si = std::make_shared<es::SessionInfo>(sim::dotted(d.at.ip), d.at.port, std::chrono::milliseconds(200));
    L.mr = std::make_shared<es::MessageRouter>();
    L.cm = std::make_unique<es::ConnectionManager>();
    L.dm = std::make_unique<es::DiscoveryManager>("255.255.255.255", 44818, std::chrono::milliseconds(20));
    L.fm = std::make_unique<pf::DPIFaultManager>(clear, false, details);
    L.fm->setNewFaultListener([](const pf::DPIFaultParameter&) {});
    d.begin();
    L.po = std::make_unique<es::ParameterObject>(d.paramId, full, L.si, L.mr);
    L.io = std::make_unique<es::IdentityObject>((uint16_t)1);
    d.begin();
    L.fo = std::make_unique<es::FileObject>(d.fileId, L.si);
  });
  w.onDgram = [&](const sim::Dgram& g) {
    if (g.to.ip != 0xFFFFFFFF) return;
    Rng q(roundSeed ^ 77);
    for (int k = 0, z = (int)q.below(4); k < z; ++k) {
      Bytes b = model::listIdentityReply({model::randomIdentity(q, Addr{q.u32(), q.u16()})});
      if (q.chance(25)) b.resize(q.below(b.size()));
      else if (q.chance(30)) {  // an item that is too short
        auto item = model::identityItem(model::randomIdentity(q, Addr{q.u32(), q.u16()}));
        item.resize(q.below(item.size()));
        b = model::packEncaps(model::Encaps{0x63, 0, 0, Bytes(8, 0), 0, model::packCpf({{0x000C, item}})});
      }
      w.deliverDgramTo(g.fd, w.socks[g.fd]->gen, Addr{q.u32() ^ round, 44818}, b, (Ns)q.below(15 * MS));
    }
  };
  int64_t before = -1;
  size_t grew = 0, next = 0;
  std::string history;
  for (int i = 1; L.po && L.fo && next < checkpoints.size(); ++i, ++round) {
    Rng r(roundSeed);
    // ---- a round
    for (int k = 0, q = 4 + (int)r.below(9); k < q; ++k) {
      int what = (int)r.below(12), status = r.chance(25) ? 1 + (int)r.below(255) : 0, cutAt = r.chance(15) ? (int)r.below(3) : -1, wordsToAdd = (int)r.below(3);
      uint32_t cutTo = r.u32();
      auto tweak = [=](const Req&, Rep& p, size_t, int step) {
        if (status && step == cutTo % 3) { p.status = (uint8_t)status; p.addl.assign((size_t)wordsToAdd, 7); }
        if (cutAt == step && !p.data.empty()) p.data.resize(cutTo % p.data.size());
      };
      d.tweak = tweak;
      d.begin();
      switch (what) {
        case 0: case 1: {  // an operation with objects of its own
          int kind = (int)r.below(KINDS);
          if (kind == ParamUpdate) kind = ParamBasic;
          auto s = randomSetup(r, kind, d);
          d.plan = [&](Open& p, Rep&) { p.o2t = nextId++; p.t2o = nextId++; };
          bool threw = false;
          { Lib l(kind); auto x = run(c, s, d, L.si); threw = x.threw; }
          ++(threw ? o.threw : o.returned);
          o.kinds.insert((uint64_t)kind * 2 + threw);
          break;
        }
        case 2: d.wantFull = full; call(TRefresh, [&] { L.po->updateValue(L.si); }); break;
        case 3: call(TSet, [&] {
          L.io->setProductName(std::string(10 + cutTo % 100, (char)('a' + round % 20)));
          L.io->setVendorId((uint16_t)round);
          L.io->setRevision(es::cip::CipRevision((uint8_t)round, 2));
          L.po->setScalable(true);
          L.po->setEngMaxValue<es::cip::CipUsint>(1);
        }); break;
        case 4: {
          auto data = r.bytes(r.below(100));
          auto service = r.u8();
          bool items = r.chance(30), attribute = r.chance(50);
          for (size_t b = 0; b < data.size() && b < 4; ++b) data[b] ^= (uint8_t)(round >> 8 * b);
          call(TRequest, [&] {
            std::vector<es::eip::CommonPacketItem> extra;
            if (items) extra.push_back(es::eip::CommonPacketItemFactory().createSequenceAddressItem(round, 2));
            L.mr->sendRequest(L.si, service, attribute ? es::cip::EPath(0x64, (uint16_t)round, (uint16_t)(round >> 3)) : es::cip::EPath((uint16_t)(0x64 + round), 1), data, extra);
          });
          break;
        }
        case 5: call(TFaultManager, [&] { L.fm->handleFaultParameters(L.si, L.mr); }); break;
        case 6: call(TDiscovery, [&] { auto found = L.dm->discover(); o.discovered += found.size(); }); break;
        case 7: {  // a session of its own, possibly ill-treated
          int how = (int)r.below(6);
          size_t spoil = r.below(60);
          uint8_t with = r.u8();
          int fail = r.chance(30) ? (int)r.below(12) : -1;
          uint64_t at = fail >= 0 ? w.calls + 1 + (uint64_t)fail : 0;
          if (at) w.fault = [=](const sim::Call& k) { return k.index == at && k.op != sim::Op::Close && k.op != sim::Op::Shutdown ? ENOBUFS : 0; };
          d2.onRegister = nullptr;
          if (how == 0) d2.onRegister = [](model::ConnState&) -> std::optional<Bytes> { return Bytes{}; };
          if (how == 1) d2.mutate = [=](Bytes& b, int, model::ConnState&) { if (!b.empty()) b[spoil % b.size()] = with; };
          if (how == 2) d2.mutate = [=](Bytes& b, int n, model::ConnState&) { if (n >= 0) b.resize(spoil % b.size()); };
          if (how == 3) w.listeners[d2.at].plan = [](int) { return sim::ConnectPlan{sim::ConnectPlan::Refuse, 100 * US, 0}; };
          auto s = randomSetup(r, (int)r.below(3), d2);
          call(TNewSession, [&] {
            auto si = std::make_shared<es::SessionInfo>(sim::dotted(d2.at.ip), d2.at.port, std::chrono::milliseconds(100));
            auto x = run(c, s, d2, si);
            if (x.threw) throw std::runtime_error("as expected");
          });
          d2.mutate = nullptr;
          w.fault = nullptr;
          w.listeners[d2.at].plan = nullptr;
          break;
        }
        case 8: call(TPollFile, [&] { L.fo->handleTransfers(L.si); }); break;
        default: {  // I/O connections of the long-lived manager
          struct One { es::IOConnection::WPtr p; uint32_t t2o; Spec s; };
          std::vector<One> ones;
          int badStatus = r.chance(15) ? 1 + (int)r.below(40) : 0, address = (int)r.below(4), cutItem = r.chance(10) ? (int)r.below(16) : -1;
          d.tweak = nullptr;
          d.plan = [&](Open& p, Rep& rep) {
            p.o2t = nextId++;
            p.t2o = nextId++;
            rep.status = (uint8_t)badStatus;
            if (address == 1) rep.extra.push_back(model::sockaddrItem(0x8000, Addr{0, (uint16_t)(2000 + round % 1000)}));
            if (address == 2) rep.extra.push_back(model::sockaddrItem(0x8000, Addr{0x0A000000 + round, 2222}));
            if (cutItem >= 0 && !rep.extra.empty()) rep.extra[0].data.resize((size_t)cutItem);
          };
          for (int z = 0, n = 1 + (int)r.below(3); z < n; ++z) {
            One one;
            one.s = randomSpec(r, 100);
            one.s.o2tRpi = one.s.t2oRpi = (uint32_t)(5000 + r.below(20000));
            one.s.mult = (uint8_t)r.below(2);
            bool listeners = r.chance(90);
            auto data = r.bytes(one.s.o2tSize);
            auto params = one.s.params();
            if (r.chance(50)) params.connectionPath = {0x20, 0x04, 0x25, 0x00, (uint8_t)round, (uint8_t)(round >> 8), 0x2C, (uint8_t)(1 + z)};
            if (r.chance(50)) params.originatorSerialNumber += round;
            size_t had = d.opens.size();
            call(TIoOpen, [&] {
              one.p = L.cm->forwardOpen(L.si, params, one.s.large);
              if (auto p = one.p.lock()) {
                if (listeners) {
                  p->setReceiveDataListener([](uint32_t, uint16_t, const Bytes& b) { static size_t sum; sum += b.size(); });
                  p->setSendDataListener([](Bytes& b) { static size_t sum; sum += b.size(); });
                  p->setCloseListener([&o] { ++o.timedOut; });
                }
                p->setDataToSend(data);
              }
            });
            if (one.p.expired() || d.opens.size() == had) continue;
            ++o.opened;
            one.t2o = d.opens.back().t2o;
            ones.push_back(one);
          }
          for (int z = 0, n = 1 + (int)r.below(5); z < n; ++z) {
            for (auto& one : ones) if (r.chance(60)) {
              Bytes b = model::packIo(one.t2o, r.u32(), t2oPayload(one.s, r.u16(), r.u32(), r.bytes(r.chance(85) ? one.s.t2oSize : r.below(30))));
              if (r.chance(20)) b.resize(r.below(b.size()));
              w.deliverDgram(d.at, 2222, b, (Ns)r.below(5 * MS));
            }
            if (r.chance(20)) w.deliverDgram(d.at, 2222, r.bytes(r.below(60)), (Ns)r.below(5 * MS));
            auto t = std::chrono::milliseconds(r.below(12));
            bool failing = r.chance(10);
            if (failing) w.fault = [](const sim::Call& k) { return k.op == sim::Op::Send ? ENETUNREACH : 0; };
            call(TIoPoll, [&] { L.cm->handleConnections(t); });
            w.fault = nullptr;
          }
          int how = (int)r.below(4);
          int closeStatus = r.chance(25) ? 1 + (int)r.below(40) : 0;
          d.closePlan = [&](Rep& p) { p.status = (uint8_t)closeStatus; };
          if (how == 0) { w.advance(3 * SEC); call(TIoPoll, [&] { L.cm->handleConnections(std::chrono::milliseconds(0)); }); }
          for (auto& one : ones) { call(TIoClose, [&] { L.cm->forwardClose(L.si, one.p); }); ++o.closed; }
          if (how == 1) for (auto& one : ones) call(TIoClose, [&] { L.cm->forwardClose(L.si, one.p); });
          d.closePlan = nullptr;
          d.plan = nullptr;
          if (L.cm->hasOpenConnections()) { w.advance(3 * SEC); call(TIoPoll, [&] { L.cm->handleConnections(std::chrono::milliseconds(0)); }); }
          if (r.chance(30)) w.advance((Ns)r.below(50) * MS);
        }
      }
      d.tweak = nullptr;
    }
    if (i == checkpoints[next]) {
      ++next;
      history += " " + std::to_string(i) + ":" + std::to_string(live);
      if (before >= 0) grew += live > before;
      before = live;
    }
    if (w.sentDgrams.size() > 200) w.sentDgrams.clear();
  }
  if (checkpoints.size() > 1 && grew == checkpoints.size() - 1) {
    int t = worst();
    o.key = std::string("grows-") + (tagNames[t] ? tagNames[t] : "?");
    o.text = "bytes in use after so many equal rounds:" + history + ", most of it allocated in " + (tagNames[t] ? tagNames[t] : "?");
  }
  {
    Lib l(TCreate);
    L.fo.reset(); L.po.reset(); L.io.reset(); L.fm.reset(); L.cm.reset(); L.dm.reset(); L.mr.reset(); L.si.reset();
  }
  if (o.key.empty() && live != 0) {
    int t = worst();
    o.key = std::string("left-") + (tagNames[t] ? tagNames[t] : "?");
    o.text = std::to_string(live) + " bytes in " + std::to_string(used) + " blocks are left after all objects are gone, most of them allocated in " + (tagNames[t] ? tagNames[t] : "?");
  }
  if (lost) o.key.clear();
  following = false;
}
}  // namespace

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  static bool once = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree) != 0;
  CHECK(once, "hooks", "cannot follow the allocations");
  uint64_t seed = r.next();
  bool longOne = c.thorough && r.chance(10);
  std::vector<int> points = longOne ? std::vector<int>{25, 50, 100, 200, 400} : std::vector<int>{2, 4, 8, 16, 32};
  c.phase("rounds");
  Outcome o;
  uint64_t was = followed;
  muted = true;
  episode(c, seed, points, o);
  if (!o.key.empty()) {  // what is made once per process is no leak: it does not come again
    Outcome again;
    episode(c, seed, points, again, 20011);
    o.key = again.key;
    o.text = again.text;
  }
  muted = false;
  CHECK(o.key.empty(), o.key, "%s", o.text.c_str());
  count("rounds", (uint64_t)points.back());
  count("blocks_followed", followed - was);
  count("frees_checked");
  count("operations_returned", o.returned);
  count("operations_threw", o.threw);
  count("io_opened", o.opened);
  count("io_timed_out", o.timedOut);
  count("io_closed", o.closed);
  count("discovered", o.discovered);
  for (auto k : o.kinds) distinct("nontrivial", k + 1);
  // ---- whole histories
  c.phase("histories");
  uint64_t hs = r.next();
  auto once2 = [&]() -> int64_t {
    auto a = (int64_t)__sanitizer_get_current_allocated_bytes();
    {
      std::string t;
      Ctx in = c;
      es::utils::Logger::setAppender(std::make_unique<Recorder>(&t, 0));
      es::utils::Logger::setLogLevel((es::utils::LogLevel)(hs % 6));
      play(in, hs, [] {}, &t);
      es::utils::Logger::setAppender(std::make_unique<Quiet>());
    }
    return (int64_t)__sanitizer_get_current_allocated_bytes() - a;
  };
  muted = true;
  int64_t grown = 0;
  int n = 0;
  once2();
  for (; n < 5; ++n) { grown = once2(); if (grown <= 0) break; }
  muted = false;
  count("histories", (uint64_t)n + 2);
  CHECK(n < 5, "history-leaks", "every repetition of the same history leaves %lld bytes behind", (long long)grown);
  distinct("histories", hs);
  if (c.index < 30) sample("rounds " + std::to_string(points.back()) + ": " + std::to_string(followed - was) + " blocks followed, " + std::to_string(o.calls) + " calls, " + std::to_string(o.threw) + " threw, " + std::to_string(o.opened) + " I/O connections");
}
