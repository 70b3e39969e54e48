// File upload from a model adapter that follows the transfer protocol, or departs from it at one step.
#include "net.h"
#include "FileObject.h"
#include "fileObject/FileObjectState.h"

using namespace net;
using es::FileObject;

namespace prop {
const char* const kProperty = "X05";
const uint64_t kQuickCases = 9000, kThoroughCases = 400000;
const char* const kRule =
    "a case uploads 1..3 files (0 bytes to more than 256 transfers, transfer sizes 1..255, any content) in interleaved polls over one or two sessions; each upload is "
    "healthy or departs once: error status when initiating or in any transfer, wrong transfer number, announced total too small or too large, missing or extra middle "
    "transfer, a transfer of an aborted or unknown type; or the file is in a state that cannot be uploaded; the state may change and be read again before the upload, and a file be uploaded again after that; callbacks and requests are counted; non-trivial: distinct (size, transfer size, departure, step)";
const std::vector<std::pair<std::string, uint64_t>> kRequire = {{"uploads", 500}, {"errors", 100}, {"wrong_numbers", 80}, {"wrong_sizes", 80}, {"not_uploadable", 100}, {"beyond_255_transfers", 15}, {"wrong_types", 50}, {"begun_twice", 20}, {"states_read_again", 150}, {"uploaded_again", 30}};
}  // namespace prop

namespace {
struct File {
  uint16_t id = 0;
  uint8_t state = 2;
  Bytes content;
  uint8_t ts = 255;
  uint32_t announced = 0;
  enum { Healthy, InitError, TransferError, WrongNumber, WrongTotal, LostMiddle, ExtraMiddle, WrongType } way = Healthy;
  size_t step = 0;  // where it departs
  uint8_t status = 0, number = 0;
  // as seen by the adapter
  size_t sent = 0, transfers = 0;
  int initiated = 0, stateReads = 0;
  bool started = false, ended = false, first = true, extraDone = false;
  // as seen by the caller
  int calls = 0;
  unsigned cbStatus = 0;
  Bytes cbContent;
  std::unique_ptr<FileObject> obj;
  std::shared_ptr<es::SessionInfo> si;
  bool begun = false, done = false, resync = false, again = false, threw = false;
  uint8_t finalState = 2;
  size_t total() const { return content.size() <= ts ? 1 : (content.size() + ts - 1) / ts; }
};
}  // namespace

void prop::runCase(Ctx& c) {
  Rng& r = c.r;
  Net n(c);
  model::Server s(randomHost(r));
  s.install(n.w);
  s.delay = (Ns)r.below(3 * MS);
  if (r.chance(15)) roughTransport(c, s, 100 * US);
  std::map<uint16_t, File> files;
  std::string bad;
  s.cip = [&](const model::Req& q) {
    model::Rep rep;
    if (q.lp.cls != 0x37 || !files.count((uint16_t)q.lp.inst)) { bad = "path " + hex(q.path); rep.status = 5; return rep; }
    File& f = files[(uint16_t)q.lp.inst];
    if (q.service == 0x0E && q.lp.attr == 1) {
      f.stateReads++;
      rep.data = {f.state};
    } else if (q.service == 0x4B && q.lp.attr == -1) {
      f.initiated++;
      if (q.data.size() != 1 || q.data[0] == 0) bad = "initiate data " + hex(q.data);
      if (f.way == File::InitError) { rep.status = f.status; if (r.chance(50)) rep.data = model::Wr().u32(f.announced).u8(f.ts); if (r.chance(30)) rep.addl = {r.u16()}; return rep; }
      rep.data = model::Wr().u32(f.announced).u8(f.ts);
      f.started = true;
    } else if (q.service == 0x4F && q.lp.attr == -1) {
      if (!f.started) bad = "transfer without initiation";
      if (f.ended) bad = "transfer after the end";
      if (q.data.size() != 1) { bad = "transfer data " + hex(q.data); return rep; }
      uint8_t num = q.data[0];
      if (num != (uint8_t)f.transfers) bad = "transfer number " + std::to_string(num) + " instead of " + std::to_string((uint8_t)f.transfers);
      size_t k = f.transfers++;
      if (f.way == File::TransferError && k == f.step) {
        f.ended = true;
        rep.status = f.status;
        if (r.chance(50)) rep.data = model::Wr().u8(num).u8(2).raw(f.content).u16(0).b;
        if (rep.data.size() > 400) rep.data.resize(400);
        if (r.chance(30)) rep.addl = {r.u16()};
        return rep;
      }
      if (f.way == File::WrongNumber && k == f.step) { num = f.number; f.ended = true; }
      if (f.way == File::LostMiddle && k == f.step) f.sent += f.ts;
      size_t left = f.content.size() - f.sent;
      if (f.way == File::ExtraMiddle && k == f.step && !f.extraDone && !f.first) {
        f.extraDone = true;
        rep.data = model::Wr().u8(num).u8(1).raw(r.bytes(f.ts));
        return rep;
      }
      bool last = left <= f.ts;
      int type = f.first ? (last ? 4 : 0) : last ? 2 : 1;
      size_t take = last ? left : f.ts;
      model::Wr w;
      w.u8(num).u8((unsigned)type).raw(Bytes(f.content.begin() + (long)f.sent, f.content.begin() + (long)(f.sent + take)));
      if (last) { w.u16(r.u16()); f.ended = true; }
      if (f.way == File::WrongType && k == f.step) { w.b[1] = f.number; f.ended = true; }
      rep.data = w;
      f.sent += take;
      f.first = false;
    } else { bad = "service " + std::to_string(q.service); rep.status = 8; }
    return rep;
  };
  std::vector<std::shared_ptr<es::SessionInfo>> sis{openSession(s, 20 * SEC)};
  if (r.chance(40)) sis.push_back(openSession(s, 20 * SEC));
  std::vector<File*> fs;
  for (int i = 0, k = 1 + (int)r.below(3); i < k; ++i) {
    File f;
    do f.id = (uint16_t)r.edgy(16); while (files.count(f.id));
    f.ts = (uint8_t)(r.chance(50) ? 1 + r.below(255) : r.chance(50) ? 255 : 1 + r.below(8));
    size_t size;
    switch (r.below(20)) {
      case 0: size = 0; break;
      case 1: size = f.ts * (1 + r.below(6)); break;          // a whole number of transfers
      case 2: f.ts = (uint8_t)(r.chance(15) ? 100 + r.below(156) : 1 + r.below(12)); size = f.ts * (254 + r.below(6)) + r.below(3); break;  // the transfer number wraps
      case 3: if (r.chance(20)) { f.ts = (uint8_t)(1 + r.below(3)); size = f.ts * (510 + r.below(6)); } else size = 1; break;
      case 4: size = f.ts + r.below(3) - (f.ts > 1 ? 1 : 0); break;
      default: size = r.below(f.ts * 6u + 1);
    }
    f.content = r.bytes(size);
    f.announced = (uint32_t)size;
    f.state = (uint8_t)(r.chance(75) ? 2 : r.chance(40) ? (r.chance(50) ? 3 : 5) : r.below(2));
    size_t total = f.total();
    if (r.chance(55)) {
      switch (r.below(7)) {
        case 0: f.way = File::InitError; break;
        case 1: f.way = File::TransferError; f.step = r.below(total); break;
        case 2: f.way = File::WrongNumber; f.step = r.below(total); do f.number = r.chance(50) ? (uint8_t)(f.step + (r.chance(50) ? 1 : -1)) : r.u8(); while (f.number == (uint8_t)f.step); break;
        case 3: f.way = File::WrongTotal; do f.announced = r.chance(50) ? (uint32_t)((int64_t)size + r.range(-3, 3)) : (uint32_t)r.edgy(32); while (f.announced == size); break;
        case 4: if (total > 2) { f.way = File::LostMiddle; f.step = 1 + r.below(total - 2); } break;
        case 6: f.way = File::WrongType; f.step = r.below(total); f.number = (uint8_t)(r.chance(50) ? 3 : r.chance(50) ? 5 + r.below(4) : 5 + r.below(251)); break;
        case 5: if (total > 1) { f.way = File::ExtraMiddle; f.step = 1 + r.below(total - 1); } break;
      }
      f.status = (uint8_t)(r.chance(50) ? 1 + r.below(0x2A) : 1 + r.below(255));
    }
    files[f.id] = std::move(f);
  }
  for (auto& [k, f] : files) fs.push_back(&f);
  const uint8_t states[] = {0, 1, 2, 3, 5};
  auto shows = [&](File& f, const char* when) {
    unsigned state = f.state == 3 || f.state == 5 ? 2u : f.state;
    unsigned got = (unsigned)f.obj->getState()->getStateCode();
    CHECK(got == state, "state", "%s the object shows state %u, the adapter reported %u", when, got, f.state);
  };
  auto readAgain = [&](File& f, const char* when) {
    int before = f.stateReads;
    c.phase("read state");
    auto e = outcome(c, [&] { f.obj->getState()->SyncState(f.si); });
    CHECK(e.empty(), "state-read-fails", "%s", e.c_str());
    CHECK(bad.empty() && f.stateReads == before + 1, "state-request", "%d state reads, %s", f.stateReads - before, bad.c_str());
    shows(f, when);
    count("states_read_again");
  };
  for (auto* f : fs) {
    f->si = r.pick(sis);
    c.note("file %u: %zu bytes (announced %u) in transfers of %u, state %u, way %d step %zu", f->id, f->content.size(), f->announced, f->ts, f->state, (int)f->way, f->step);
    distinct("nontrivial", f->content.size() * 1000003 + f->ts * 31 + (uint64_t)f->way * 7919 + f->step * 65537 + f->state);
    f->finalState = f->state;
    if (r.chance(25)) f->state = states[r.below(5)];  // it changes after the object has read it, and is read again before the upload
    f->resync = f->state != f->finalState || r.chance(10);
    c.phase("create");
    auto e = outcome(c, [&] { f->obj = r.chance(50) ? std::make_unique<FileObject>(f->id, f->si) : std::make_unique<FileObject>(f->id, f->si, std::make_shared<es::MessageRouter>()); });
    CHECK(e.empty(), "create-fails", "%s", e.c_str());
    CHECK(bad.empty() && f->stateReads == 1, "state-request", "%d state reads, %s", f->stateReads, bad.c_str());
    shows(*f, "after creation");
    f->state = f->finalState;
  }
  auto poll = [&](File& f) {
    size_t before = s.requests.size();
    int calls = f.calls;
    bool more = false;
    c.phase("poll");
    auto e = outcome(c, [&] { more = f.obj->handleTransfers(f.si); });
    if (f.way == File::WrongType && f.ended && !e.empty()) {  // reported by an exception
      CHECK(f.calls == calls, "callback-count", "an exception and %d callbacks", f.calls - calls);
      f.threw = true;
      return false;
    }
    CHECK(e.empty(), "poll-throws", "%s", e.c_str());
    CHECK(bad.empty(), "request", "%s", bad.c_str());
    CHECK(f.calls - calls <= 1, "callback-count", "%d callbacks in one poll", f.calls - calls);
    CHECK(s.requests.size() - before <= 1, "request-count", "%zu requests in one poll", s.requests.size() - before);
    CHECK(more == (f.calls == calls) || !f.begun, "completion", "polling reports %s but there were %d callbacks", more ? "more" : "completion", f.calls - calls);
    return more;
  };
  for (auto* f : fs) if (r.chance(20)) {  // polling before the upload was begun
    size_t before = s.requests.size();
    CHECK(!poll(*f), "not-begun", "polling an upload that was not begun reports more");
    CHECK(s.requests.size() == before, "not-begun", "polling an upload that was not begun sends a request");
  }
  size_t open = fs.size();
  for (size_t steps = 0; open; ++steps) {
    CHECK(steps < 5000, "endless", "polling does not end");
    File& f = *r.pick(fs);
    if (f.done) continue;
    if (!f.begun) {
      f.begun = true;
      if (f.resync) readAgain(f, "read again");
      c.phase("begin");
      size_t before = s.requests.size();
      auto e = outcome(c, [&] { f.obj->beginUpload(f.si, [&f](es::cip::GeneralStatusCodes st, const Bytes& b) { f.calls++; f.cbStatus = (unsigned)st; f.cbContent = b; }); });
      CHECK(e.empty(), "begin-throws", "%s", e.c_str());
      CHECK(bad.empty(), "request", "%s", bad.c_str());
      if (f.state < 2) {
        count("not_uploadable");
        CHECK(s.requests.size() == before && f.calls == 0, "not-uploadable", "beginning the upload of a file in state %u sent %zu requests and called back %d times", f.state, s.requests.size() - before, f.calls);
        for (int i = 0; i < 2; ++i) {
          bool more = f.obj->handleTransfers(f.si);
          CHECK(!more && s.requests.size() == before && f.calls == 0, "not-uploadable", "polling a file in state %u: more %d, %zu requests, %d callbacks", f.state, more, s.requests.size() - before, f.calls);
        }
        f.done = true;
        open--;
        continue;
      }
      CHECK(f.initiated == 1, "initiate-count", "%d initiations", f.initiated);
      if (f.way == File::InitError) {
        CHECK(f.calls == 1, "callback-count", "%d callbacks after a refused initiation", f.calls);
        size_t b2 = s.requests.size();
        CHECK(!f.obj->handleTransfers(f.si) && s.requests.size() == b2, "refused", "polling after a refused initiation goes on");
        f.done = true;
        open--;
      } else {
        CHECK(f.calls == 0, "early-callback", "called back when the upload began");
        CHECK((unsigned)f.obj->getState()->getStateCode() == 5, "state", "an upload under way is shown as state %u", (unsigned)f.obj->getState()->getStateCode());
      }
      continue;
    }
    if (f.way == File::Healthy && r.chance(f.total() > 50 ? 1 : 5)) {  // asked for again while it is under way
      c.phase("begin again");
      size_t before = s.requests.size();
      auto e = outcome(c, [&] { f.obj->beginUpload(f.si, [&f](es::cip::GeneralStatusCodes st, const Bytes& b) { f.calls++; f.cbStatus = (unsigned)st; f.cbContent = b; }); });
      CHECK(e.empty() && bad.empty() && f.calls == 0 && s.requests.size() == before, "begun-twice", "beginning an upload that is under way: %s %s %d callbacks, %zu requests", e.c_str(), bad.c_str(), f.calls, s.requests.size() - before);
      count("begun_twice");
    }
    if (!poll(f)) {
      if (f.way == File::Healthy && !f.again && r.chance(25)) {  // the state is read again, and the file uploaded once more
        CHECK(f.calls == 1 && f.cbStatus == 0 && f.cbContent == f.content, "content", "%d callbacks, status %02x, %zu bytes instead of %zu", f.calls, f.cbStatus, f.cbContent.size(), f.content.size());
        f.again = f.resync = f.first = true;
        f.begun = f.started = f.ended = false;
        f.sent = f.transfers = 0;
        f.initiated = f.calls = 0;
        f.cbContent.clear();
        count("uploaded_again");
      } else { f.done = true; open--; }
    }
    else if (r.chance(5)) n.w.advance((Ns)r.below(100 * MS));
  }
  for (auto* f : fs) {
    if (f->state < 2) continue;
    const char* ways[] = {"healthy", "refused", "transfer-error", "wrong-number", "wrong-total", "lost-middle", "extra-middle", "wrong-type"};
    std::string w = ways[f->way];
    if (f->way == File::WrongType) count("wrong_types");
    if (f->threw) {
      CHECK(f->calls == 0, "callback-count", "%d callbacks for an upload that ended by an exception", f->calls);
      continue;
    }
    CHECK(f->calls == 1, "callback-count", "%d callbacks for an upload (%s)", f->calls, w.c_str());
    if (f->way == File::Healthy) {
      CHECK(f->cbStatus == 0, "healthy-fails", "status %02x for %zu bytes in transfers of %u", f->cbStatus, f->content.size(), f->ts);
      CHECK(f->cbContent == f->content, "content", "%zu bytes, not the %zu of the file, or others", f->cbContent.size(), f->content.size());
      CHECK(f->transfers == f->total(), "transfer-count", "%zu transfers instead of %zu", f->transfers, f->total());
      count("uploads");
      if (f->transfers > 255) count("beyond_255_transfers");
    } else {
      CHECK(f->cbStatus != 0, "false-success-" + w, "success was reported, content of %zu bytes", f->cbContent.size());
      CHECK(f->cbContent.empty(), "content-with-error", "%zu bytes of content with an error (%s)", f->cbContent.size(), w.c_str());
      if (f->way == File::InitError || f->way == File::TransferError) { CHECK(f->cbStatus == f->status, "status", "status %02x instead of %02x", f->cbStatus, f->status); count("errors"); }
      else count(f->way == File::WrongNumber ? "wrong_numbers" : f->way == File::WrongType ? "wrong_types_called_back" : "wrong_sizes");
    }
  }
  int total = 0;
  for (auto* f : fs) total += f->calls;
  for (auto* f : fs) { f->obj.reset(); f->si.reset(); }
  sis.clear();
  int after = 0;
  for (auto* f : fs) after += f->calls;
  CHECK(after == total, "late-callback", "a callback came with the destruction");
  expectProtocol(c, s);
  expectSane(c, n.w);
}
