#include "sim.h"

#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <csignal>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <ctime>
#include <unistd.h>
#ifdef SIM_VALGRIND
#include <valgrind/memcheck.h>
#endif

namespace sim {

static thread_local World* tlsWorld = nullptr;
World* current() { return tlsWorld; }
void setCurrent(World* w) { tlsWorld = w; }
static void defaultNoProgress() { fprintf(stderr, "sim: no progress\n"); _exit(77); }
void (*noProgress)() = defaultNoProgress;
thread_local int insideSim = 0;

std::string dotted(uint32_t ip) {
  char b[32];
  snprintf(b, sizeof b, "%u.%u.%u.%u", ip >> 24, (ip >> 16) & 255, (ip >> 8) & 255, ip & 255);
  return b;
}
std::string Addr::str() const { return dotted(ip) + ":" + std::to_string(port); }
Addr addr(const std::string& d, uint16_t port) {
  unsigned a = 0, b = 0, c = 0, e = 0;
  sscanf(d.c_str(), "%u.%u.%u.%u", &a, &b, &c, &e);
  return Addr{a << 24 | b << 16 | c << 8 | e, port};
}
const char* opName(Op o) {
  static const char* n[] = {"socket", "connect", "bind", "close", "shutdown", "send", "recv", "select",
                            "fcntl", "setsockopt", "getsockopt", "getname", "sleep", "clock"};
  return n[(int)o];
}

// ---------------------------------------------------------------- Conn
void Conn::send(Bytes data, Ns delay) {
  World* w = current();
  Ns t = std::max(lastScheduled, w->now + delay);
  lastScheduled = t;
  auto self = w->conns.at(no);
  auto f = [w, self, data = std::move(data)] {
    if (self->clientClosed) return;
    self->rx.insert(self->rx.end(), data.begin(), data.end());
    self->rxArrived += data.size();
    self->lastArrival = w->now;
  };
  w->at(t, std::move(f));
}
void Conn::finish(Ns delay) {
  World* w = current();
  Ns t = std::max(lastScheduled, w->now + delay);
  lastScheduled = t;
  auto self = w->conns.at(no);
  w->at(t, [self] { self->fin = true; });
}
void Conn::sendReset(Ns delay) {
  World* w = current();
  Ns t = std::max(lastScheduled, w->now + delay);
  lastScheduled = t;
  auto self = w->conns.at(no);
  w->at(t, [self] { self->rstErr = self->fin ? EPIPE : ECONNRESET; self->reset = true; });
}
void Conn::closeFully(Ns delay) {
  World* w = current();
  Ns t = std::max(lastScheduled, w->now + delay);
  lastScheduled = t;
  auto self = w->conns.at(no);
  w->at(t, [self] { self->fin = true; self->serverClosed = true; });
}

// ---------------------------------------------------------------- World
World::World(uint64_t seed) : rngState(seed * 0x9E3779B97F4A7C15ull + 1) {
  steadyBase = (Ns)(rnd() % 100000) * SEC + rnd() % SEC + 10 * SEC;
  systemBase = 1700000000ll * SEC + (Ns)(rnd() % 10000000) * SEC + rnd() % SEC;
  if (rngState & 0x10000) wander = rngState | 1;
}
// A function of the virtual time alone, so that what is run twice sees the same
Ns World::systemNow() const {
  Ns t = systemBase + now;
  if (wander) {
    uint64_t z = (wander + (uint64_t)(now / (7 * MS))) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 29)) * 0x94D049BB133111EBull;
    t += ((Ns)(z >> 40 & 0xFFFF) - 0x8000) * (z & 1 ? MS / 10 : 100 * MS);  // up to 3 s or 55 minutes
  }
  return t;
}
World::~World() {
  if (tlsWorld == this) tlsWorld = nullptr;
}
uint32_t World::rnd() {
  rngState += 0x9E3779B97F4A7C15ull;
  uint64_t z = rngState;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return (uint32_t)((z ^ (z >> 31)) >> 16);
}
void World::at(Ns t, std::function<void()> f) {
  if (t < now) t = now;
  events.emplace(std::make_pair(t, ++evSeq), std::move(f));
}
void World::runDue() {
  while (!events.empty() && events.begin()->first.first <= now) {
    auto f = std::move(events.begin()->second);
    events.erase(events.begin());
    f();
  }
}
void World::advance(Ns d) {
  Ns end = now + d;
  runDue();
  while (!events.empty() && events.begin()->first.first <= end) {
    if (events.begin()->first.first > now) now = events.begin()->first.first;
    runDue();
  }
  now = end;
  while (!signals.empty() && *signals.begin() <= now) signals.erase(signals.begin());
}
void World::enter(Op op) {
  if (budget == 0) noProgress();
  --budget;
  now += op == Op::Clock ? clockCost : callCost;
  if (op != Op::Clock) {
    ++calls;
    opCount[opName(op)]++;
    if (onCall) onCall();
  }
  runDue();
  while (!signals.empty() && *signals.begin() <= now) signals.erase(signals.begin());
}
int World::checkFault(Op op, int fd, size_t len, uint16_t port) {
  if (!fault) return 0;
  auto it = socks.find(fd);
  Call c{op, fd, calls, len, it != socks.end() && it->second->tcp, port};
  int e = fault(c);
  if (e) ++faultsInjected;
  return e;
}
World::W World::wait(const std::function<bool()>& pred, Ns deadline, const char* what) {
  for (;;) {
    if (pred()) return W::Ready;
    if (deadline >= 0 && now >= deadline) return W::Timeout;
    Ns next = deadline;
    if (!events.empty() && (next < 0 || events.begin()->first.first < next)) next = events.begin()->first.first;
    bool sig = false;
    if (!signals.empty() && (next < 0 || *signals.begin() < next)) { next = *signals.begin(); sig = true; }
    if (next < 0) {
      stuck = true;
      stuckWhere = what;
      return W::Stuck;
    }
    if (next > now) now = next;
    if (sig) {
      signals.erase(signals.begin());
      runDue();
      if (pred()) return W::Ready;
      ++signalsHit;
      return W::Intr;
    }
    runDue();
  }
}
std::shared_ptr<Sock> World::get(int fd, const char* what) {
  auto it = socks.find(fd);
  if (it != socks.end()) return it->second;
  if (fd >= 0) {
    bool was = false;
    for (auto& o : opened) was |= o.fd == fd;
    misuse.push_back(std::string(was ? "use-after-close:" : "foreign-descriptor:") + what);
  } else if (!strcmp(what, "send") || !strcmp(what, "recv") || !strcmp(what, "connect") || !strcmp(what, "bind")) {
    misuse.push_back(std::string("no-descriptor:") + what);
  }
  return nullptr;
}
int World::newFd() {
  int fd = fdBase;
  while (socks.count(fd)) ++fd;
  return fd;
}
void World::log(Op op, int fd, long ret, int err, const void* data, size_t n) {
  if (!tracing) return;
  char b[160];
  snprintf(b, sizeof b, "t=%lld %s fd=%d ret=%ld err=%d", (long long)now, opName(op), fd, ret, err);
  std::string s = b;
  if (data) {
    s += " data=";
    for (size_t i = 0; i < n; ++i) { snprintf(b, sizeof b, "%02x", ((const uint8_t*)data)[i]); s += b; }
  }
  trace.push_back(std::move(s));
}
bool World::readable(const Sock& s) {
  if (s.rdShut) return true;
  if (s.tcp) {
    if (s.state == Sock::Idle) return true;
    if (s.state == Sock::Failed) return true;
    if (s.state == Sock::Connecting) return false;
    return !s.conn->rx.empty() || s.conn->fin || s.conn->rstErr;
  }
  return !s.rq.empty() || s.soError;
}
bool World::writable(const Sock& s) {
  if (!s.tcp) return true;
  if (s.state == Sock::Connecting) return false;
  return true;
}
void World::udpRoute(const Addr& from, uint16_t toPort, const Bytes& data) {
  std::shared_ptr<Sock> best;
  for (auto& [fd, s] : socks) {
    if (s->tcp || !s->bound || s->local.port != toPort) continue;
    if (s->hasPeer && s->peer != from) continue;
    if (!best || s->boundSeq > best->boundSeq) best = s;
  }
  if (!best || (int)best->rq.size() >= udpRcvBuf) { ++dgramsDropped; return; }
  best->rq.push_back(Dgram{from, Addr{localIp, toPort}, data, now, best->fd});
  ++dgramsDelivered;
}
void World::deliverDgram(const Addr& from, uint16_t toPort, const Bytes& data, Ns delay) {
  at(now + delay, [this, from, toPort, data] { udpRoute(from, toPort, data); });
}
void World::deliverDgramTo(int fd, uint64_t gen, const Addr& from, const Bytes& data, Ns delay) {
  at(now + delay, [this, fd, gen, from, data] {
    auto it = socks.find(fd);
    if (it == socks.end() || it->second->gen != gen) { ++dgramsDropped; return; }
    it->second->rq.push_back(Dgram{from, it->second->local, data, now, fd});
    ++dgramsDelivered;
  });
}
int World::closeSock(int fd) {
  auto it = socks.find(fd);
  if (it == socks.end()) {
    if (fd >= 0) {
      bool was = false;
      for (auto& o : opened) was |= o.fd == fd;
      misuse.push_back(was ? "double-close" : "foreign-descriptor:close");
    }
    return EBADF;
  }
  auto s = it->second;
  socks.erase(it);
  for (auto& o : opened)
    if (o.gen == s->gen) o.closed = true;
  if (s->conn) {
    s->conn->clientClosed = true;
    if (s->conn->app && s->state == Sock::Connected) s->conn->app->onClose(*s->conn);
  }
  return 0;
}

}  // namespace sim

// ================================================================ wrappers
using namespace sim;
struct Inside {  // what is allocated from here on belongs to the simulation
  Inside() { ++insideSim; }
  ~Inside() { --insideSim; }
};
#define W_ Inside inside_; World* w = current()
static int fail(World* w, Op op, int fd, int err) {
  w->log(op, fd, -1, err);
  errno = err;
  return -1;
}
static Addr fromSa(const sockaddr* sa) {
  sockaddr_in in;
  memcpy(&in, sa, sizeof in);
  return Addr{ntohl(in.sin_addr.s_addr), ntohs(in.sin_port)};
}
static void toSa(const Addr& a, sockaddr* sa, socklen_t* len) {
  if (!sa || !len) return;
  sockaddr_in in{};
  in.sin_family = AF_INET;
  in.sin_port = htons(a.port);
  in.sin_addr.s_addr = htonl(a.ip);
  memcpy(sa, &in, std::min<size_t>(*len, sizeof in));
  *len = sizeof in;
}

extern "C" {
int __real_socket(int, int, int);
int __real_connect(int, const sockaddr*, socklen_t);
int __real_bind(int, const sockaddr*, socklen_t);
int __real_close(int);
int __real_shutdown(int, int);
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __real_sendto(int, const void*, size_t, int, const sockaddr*, socklen_t);
ssize_t __real_sendmsg(int, const msghdr*, int);
ssize_t __real_recv(int, void*, size_t, int);
ssize_t __real_recvfrom(int, void*, size_t, int, sockaddr*, socklen_t*);
ssize_t __real_recvmsg(int, msghdr*, int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_readv(int, const iovec*, int);
ssize_t __real_writev(int, const iovec*, int);
int __real_select(int, fd_set*, fd_set*, fd_set*, timeval*);
int __real_pselect(int, fd_set*, fd_set*, fd_set*, const timespec*, const sigset_t*);
int __real_poll(pollfd*, nfds_t, int);
int __real_ppoll(pollfd*, nfds_t, const timespec*, const sigset_t*);
int __real_fcntl(int, int, ...);
int __real_fcntl64(int, int, ...);
int __real_ioctl(int, unsigned long, ...);
int __real_setsockopt(int, int, int, const void*, socklen_t);
int __real_getsockopt(int, int, int, void*, socklen_t*);
int __real_getsockname(int, sockaddr*, socklen_t*);
int __real_getpeername(int, sockaddr*, socklen_t*);
int __real_nanosleep(const timespec*, timespec*);
int __real_clock_nanosleep(clockid_t, int, const timespec*, timespec*);
int __real_usleep(useconds_t);
unsigned __real_sleep(unsigned);
int __real_clock_gettime(clockid_t, timespec*);
int __real_gettimeofday(timeval*, void*);
time_t __real_time(time_t*);
int64_t __real__ZNSt6chrono3_V212steady_clock3nowEv();
int64_t __real__ZNSt6chrono3_V212system_clock3nowEv();
unsigned __real__ZNSt13random_device9_M_getvalEv(void*);

int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
  W_;
  if (!w) return __real__ZNSt6chrono3_V212steady_clock3nowEv();
  w->enter(Op::Clock);
  return w->steadyBase + w->now;
}
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
  W_;
  if (!w) return __real__ZNSt6chrono3_V212system_clock3nowEv();
  w->enter(Op::Clock);
  return w->systemNow();
}
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void* self) {
  W_;
  if (!w) return __real__ZNSt13random_device9_M_getvalEv(self);
  return w->rnd();
}
int __wrap_clock_gettime(clockid_t id, timespec* ts) {
  W_;
  if (!w) return __real_clock_gettime(id, ts);
  w->enter(Op::Clock);
  int64_t t = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? w->systemNow() : w->steadyBase + w->now;
  ts->tv_sec = t / SEC;
  ts->tv_nsec = t % SEC;
  return 0;
}
int __wrap_gettimeofday(timeval* tv, void* tz) {
  W_;
  if (!w) return __real_gettimeofday(tv, tz);
  w->enter(Op::Clock);
  int64_t t = w->systemNow();
  tv->tv_sec = t / SEC;
  tv->tv_usec = t % SEC / 1000;
  return 0;
}
time_t __wrap_time(time_t* p) {
  W_;
  if (!w) return __real_time(p);
  w->enter(Op::Clock);
  time_t t = w->systemNow() / SEC;
  if (p) *p = t;
  return t;
}

static int simSleepUntil(World* w, Ns until, timespec* rem) {
  auto r = w->wait([] { return false; }, until, "sleep");
  w->log(Op::Sleep, -1, r == World::W::Intr ? -1 : 0, 0);
  if (r == World::W::Intr) {
    if (rem) {
      Ns left = std::max<Ns>(0, until - w->now);
      rem->tv_sec = left / SEC;
      rem->tv_nsec = left % SEC;
    }
    return EINTR;
  }
  return 0;
}
int __wrap_nanosleep(const timespec* req, timespec* rem) {
  W_;
  if (!w) return __real_nanosleep(req, rem);
  w->enter(Op::Sleep);
  if (req->tv_sec < 0 || req->tv_nsec < 0 || req->tv_nsec >= SEC) { errno = EINVAL; return -1; }
  int e = simSleepUntil(w, w->now + req->tv_sec * SEC + req->tv_nsec, rem);
  if (e) { errno = e; return -1; }
  return 0;
}
int __wrap_clock_nanosleep(clockid_t id, int flags, const timespec* req, timespec* rem) {
  W_;
  if (!w) return __real_clock_nanosleep(id, flags, req, rem);
  w->enter(Op::Sleep);
  Ns t = req->tv_sec * SEC + req->tv_nsec;
  if (flags & TIMER_ABSTIME) t -= (id == CLOCK_REALTIME ? w->systemNow() - w->now : w->steadyBase);
  else t += w->now;
  return simSleepUntil(w, t, rem);
}
int __wrap_usleep(useconds_t us) {
  W_;
  if (!w) return __real_usleep(us);
  w->enter(Op::Sleep);
  int e = simSleepUntil(w, w->now + (Ns)us * US, nullptr);
  if (e) { errno = e; return -1; }
  return 0;
}
unsigned __wrap_sleep(unsigned s) {
  W_;
  if (!w) return __real_sleep(s);
  w->enter(Op::Sleep);
  timespec rem{};
  if (simSleepUntil(w, w->now + (Ns)s * SEC, &rem)) return (unsigned)rem.tv_sec + (rem.tv_nsec ? 1 : 0);
  return 0;
}

int __wrap_socket(int domain, int type, int proto) {
  W_;
  if (!w) return __real_socket(domain, type, proto);
  w->enter(Op::Socket);
  if (int e = w->checkFault(Op::Socket, -1, 0)) return fail(w, Op::Socket, -1, e);
  int t = type & ~(SOCK_NONBLOCK | SOCK_CLOEXEC);
  if (domain != AF_INET || (t != SOCK_STREAM && t != SOCK_DGRAM)) return fail(w, Op::Socket, -1, EAFNOSUPPORT);
  auto s = std::make_shared<Sock>();
  s->fd = w->newFd();
  s->gen = ++w->genCounter;
  s->tcp = t == SOCK_STREAM;
  s->nonblock = type & SOCK_NONBLOCK;
  w->socks[s->fd] = s;
  w->opened.push_back(OpenRec{s->fd, s->gen, s->tcp, false});
  w->log(Op::Socket, s->fd, s->fd, 0);
  return s->fd;
}

int __wrap_connect(int fd, const sockaddr* sa, socklen_t len) {
  W_;
  if (!w) return __real_connect(fd, sa, len);
  w->enter(Op::Connect);
  auto s = w->get(fd, "connect");
  if (!s) return fail(w, Op::Connect, fd, EBADF);
  if (int e = w->checkFault(Op::Connect, fd, 0)) return fail(w, Op::Connect, fd, e);
  if (len < sizeof(sockaddr_in)) return fail(w, Op::Connect, fd, EINVAL);
  if (sa->sa_family != AF_INET) return fail(w, Op::Connect, fd, EAFNOSUPPORT);
  Addr to = fromSa(sa);
  if (!s->tcp) {
    s->peer = to;
    s->hasPeer = true;
    w->log(Op::Connect, fd, 0, 0);
    return 0;
  }
  if (s->state == Sock::Connected) {
    if (s->toldConnected) return fail(w, Op::Connect, fd, EISCONN);
    s->toldConnected = true;  // the end of a connect that was not waited for
    return 0;
  }
  if (s->state == Sock::Connecting) {
    if (s->nonblock) return fail(w, Op::Connect, fd, EALREADY);
  } else {
    ConnectPlan plan;
    auto it = w->listeners.find(to);
    if (it == w->listeners.end()) {
      plan.kind = ConnectPlan::Refuse;
      plan.delay = 100 * US;
      if (w->defaultPlan) plan = w->defaultPlan(to);
    } else if (it->second.plan) {
      plan = it->second.plan(it->second.count++);
    }
    s->peer = to;
    s->hasPeer = true;
    s->local = Addr{w->localIp, w->nextPort++};
    s->state = Sock::Connecting;
    s->connectStart = w->now;
    ServerApp* app = it == w->listeners.end() ? nullptr : it->second.app;
    std::weak_ptr<Sock> ws = s;
    auto done = [w, ws, plan, to, app] {
      auto s = ws.lock();
      if (!s || s->state != Sock::Connecting) return;
      if (plan.kind == ConnectPlan::Accept && app) {
        auto c = std::make_shared<Conn>();
        c->no = (int)w->conns.size();
        c->server = to;
        c->app = app;
        c->fd = s->fd;
        w->conns.push_back(c);
        s->conn = c;
        s->state = Sock::Connected;
        app->onOpen(*c);
      } else {
        s->soError = plan.err ? plan.err : plan.kind == ConnectPlan::Unreachable ? EHOSTUNREACH : ECONNREFUSED;
        s->state = Sock::Failed;
      }
    };
    if (plan.kind != ConnectPlan::Blackhole) {
      if (plan.delay == 0) done();
      else w->at(w->now + plan.delay, done);
    } else {
      w->at(w->now + 127 * SEC, [ws] {
        auto s = ws.lock();
        if (s && s->state == Sock::Connecting) { s->state = Sock::Failed; s->soError = ETIMEDOUT; }
      });
    }
  }
  if (s->state == Sock::Connecting) {
    if (s->nonblock) return fail(w, Op::Connect, fd, EINPROGRESS);
    Ns dl = s->sndTimeo ? w->now + s->sndTimeo : -1;
    auto r = w->wait([&] { return s->state != Sock::Connecting; }, dl, "connect");
    if (r == World::W::Intr) return fail(w, Op::Connect, fd, EINTR);
    if (r == World::W::Timeout) return fail(w, Op::Connect, fd, EINPROGRESS);
    if (r == World::W::Stuck) return fail(w, Op::Connect, fd, ETIMEDOUT);
  }
  if (s->state == Sock::Failed) {
    int e = s->soError ? s->soError : ECONNABORTED;
    s->soError = 0;
    s->state = Sock::Idle;
    return fail(w, Op::Connect, fd, e);
  }
  s->toldConnected = true;
  w->log(Op::Connect, fd, 0, 0);
  return 0;
}

int __wrap_bind(int fd, const sockaddr* sa, socklen_t len) {
  W_;
  if (!w) return __real_bind(fd, sa, len);
  w->enter(Op::Bind);
  auto s = w->get(fd, "bind");
  if (!s) return fail(w, Op::Bind, fd, EBADF);
  if (int e = w->checkFault(Op::Bind, fd, 0)) return fail(w, Op::Bind, fd, e);
  if (len < sizeof(sockaddr_in) || s->bound) return fail(w, Op::Bind, fd, EINVAL);
  Addr a = fromSa(sa);
  if (a.ip != 0 && a.ip != w->localIp && (a.ip >> 24) != 127) return fail(w, Op::Bind, fd, EADDRNOTAVAIL);
  if (a.port == 0) a.port = w->nextPort++;
  for (auto& [f, o] : w->socks)
    if (o->tcp == s->tcp && o->bound && o->local.port == a.port && !(o->reuse && s->reuse))
      return fail(w, Op::Bind, fd, EADDRINUSE);
  s->local = a;
  s->bound = true;
  s->boundSeq = ++w->bindCounter;
  w->log(Op::Bind, fd, 0, 0);
  return 0;
}

int __wrap_close(int fd) {
  W_;
  if (!w) return __real_close(fd);
  w->enter(Op::Close);
  int inj = w->socks.count(fd) ? w->checkFault(Op::Close, fd, 0) : 0;
  int e = w->closeSock(fd);
  if (!e) e = inj;
  if (e) return fail(w, Op::Close, fd, e);
  w->log(Op::Close, fd, 0, 0);
  return 0;
}

int __wrap_shutdown(int fd, int how) {
  W_;
  if (!w) return __real_shutdown(fd, how);
  w->enter(Op::Shutdown);
  auto s = w->get(fd, "shutdown");
  if (!s) return fail(w, Op::Shutdown, fd, EBADF);
  if (int e = w->checkFault(Op::Shutdown, fd, 0)) return fail(w, Op::Shutdown, fd, e);
  if (s->tcp && s->state == Sock::Idle && how != SHUT_WR) s->rdShut = true;  // reported as an error, but done
  if (s->tcp && s->state != Sock::Connected) return fail(w, Op::Shutdown, fd, ENOTCONN);
  if (!s->tcp && !s->hasPeer) {
    return fail(w, Op::Shutdown, fd, ENOTCONN);
  }
  if (s->tcp && (s->conn->rstErr || s->conn->reset)) return fail(w, Op::Shutdown, fd, ENOTCONN);
  if (how == SHUT_RD || how == SHUT_RDWR) s->rdShut = true;
  if ((how == SHUT_WR || how == SHUT_RDWR) && !s->wrShut) {
    s->wrShut = true;
    if (s->conn) s->conn->clientShut = true;
  }
  w->log(Op::Shutdown, fd, 0, 0);
  return 0;
}

static void raisePipe(World* w, const Sock& s, int flags) {
  if ((flags & MSG_NOSIGNAL) || s.nosigpipe) return;
  struct sigaction sa;
  if (sigaction(SIGPIPE, nullptr, &sa) == 0 && sa.sa_handler == SIG_DFL) w->sigpipe = true;
}

static ssize_t simSend(World* w, int fd, const void* buf, size_t n, int flags, const sockaddr* sa, socklen_t salen) {
  w->enter(Op::Send);
  auto s = w->get(fd, "send");
  if (!s) return fail(w, Op::Send, fd, EBADF);
#ifdef SIM_VALGRIND
  VALGRIND_CHECK_MEM_IS_DEFINED(buf, n);
  if (sa) VALGRIND_CHECK_MEM_IS_DEFINED(sa, salen);
#endif
  uint16_t port = s->tcp ? 0 : sa && salen >= sizeof(sockaddr_in) ? fromSa(sa).port : s->peer.port;
  if (int e = w->checkFault(Op::Send, fd, n, port)) {
    if (e == EPIPE) raisePipe(w, *s, flags);
    return fail(w, Op::Send, fd, e);
  }
  if (!s->tcp) {
    Addr to;
    if (sa) {
      if (salen < sizeof(sockaddr_in)) return fail(w, Op::Send, fd, EINVAL);
      if (sa->sa_family != AF_INET) return fail(w, Op::Send, fd, EAFNOSUPPORT);
      to = fromSa(sa);
    } else if (s->hasPeer) to = s->peer;
    else return fail(w, Op::Send, fd, EDESTADDRREQ);
    if (s->wrShut) { raisePipe(w, *s, flags); return fail(w, Op::Send, fd, EPIPE); }
    if (s->soError) { int e = s->soError; s->soError = 0; return fail(w, Op::Send, fd, e); }
    if (to.port == 0) return fail(w, Op::Send, fd, EINVAL);
    if (to.ip == 0xFFFFFFFF && !s->broadcast) return fail(w, Op::Send, fd, EACCES);
    if (n > 65507) return fail(w, Op::Send, fd, EMSGSIZE);
    if (!s->bound) {
      s->bound = true;
      s->local = Addr{0, w->nextPort++};
      s->boundSeq = ++w->bindCounter;
    }
    Dgram d{Addr{w->localIp, s->local.port}, to, Bytes((const uint8_t*)buf, (const uint8_t*)buf + n), w->now, fd};
    w->log(Op::Send, fd, (long)n, 0, buf, n);
    w->sentDgrams.push_back(d);
    if (w->onDgram) w->onDgram(d);
    return (ssize_t)n;
  }
  if (s->state != Sock::Connected) { raisePipe(w, *s, flags); return fail(w, Op::Send, fd, s->state == Sock::Connecting ? EAGAIN : EPIPE); }
  auto c = s->conn;
  if (s->wrShut) { raisePipe(w, *s, flags); return fail(w, Op::Send, fd, EPIPE); }
  if (c->rstErr) { int e = c->rstErr; c->rstErr = 0; c->fin = true; return fail(w, Op::Send, fd, e); }
  if (c->reset) { raisePipe(w, *s, flags); return fail(w, Op::Send, fd, EPIPE); }
  if (n == 0) return 0;
  size_t take = c->accept ? std::min(n, c->accept(n)) : n;
  Ns dl = s->sndTimeo ? w->now + s->sndTimeo : -1;
  bool nb = s->nonblock || (flags & MSG_DONTWAIT);
  while (take == 0) {
    if (nb) return fail(w, Op::Send, fd, EAGAIN);
    Ns until = w->now + c->sendBlock;
    auto r = w->wait([&] { return c->reset || w->now >= until; }, dl >= 0 ? std::min(dl, until) : until, "send");
    if (r == World::W::Intr) return fail(w, Op::Send, fd, EINTR);
    if (c->reset) { raisePipe(w, *s, flags); return fail(w, Op::Send, fd, EPIPE); }
    if (dl >= 0 && w->now >= dl) return fail(w, Op::Send, fd, EAGAIN);
    take = std::min(n, c->accept(n));
  }
  Bytes data((const uint8_t*)buf, (const uint8_t*)buf + take);
  w->log(Op::Send, fd, (long)take, 0, buf, take);
  if (c->serverClosed) {  // nobody reads this: the server answers with a reset
    w->after(50 * US, [c] { c->reset = true; c->rstErr = EPIPE; });  // after its FIN
    return (ssize_t)take;
  }
  c->fromClient.insert(c->fromClient.end(), data.begin(), data.end());
  if (c->app) c->app->onData(*c, data);
  return (ssize_t)take;
}

static ssize_t simRecv(World* w, int fd, void* buf, size_t n, int flags, sockaddr* sa, socklen_t* salen, int* outFlags) {
  w->enter(Op::Recv);
  auto s = w->get(fd, "recv");
  if (!s) return fail(w, Op::Recv, fd, EBADF);
  if (int e = w->checkFault(Op::Recv, fd, n)) return fail(w, Op::Recv, fd, e);
  if (s->tcp && (s->state == Sock::Idle || s->state == Sock::Failed)) {
    if (s->rdShut) return 0;
    return fail(w, Op::Recv, fd, ENOTCONN);
  }
  bool nb = s->nonblock || (flags & MSG_DONTWAIT);
  Ns dl = nb ? w->now : s->rcvTimeo ? w->now + s->rcvTimeo : -1;
  size_t low = (flags & MSG_WAITALL) && s->tcp ? n : 1;
  if (n == 0 && s->tcp) return 0;
  auto ready = [&] {
    if (s->rdShut) return true;
    if (!s->tcp) return !s->rq.empty() || s->soError != 0;
    if (s->state != Sock::Connected) return s->state != Sock::Connecting;
    return s->conn->rx.size() >= low || s->conn->fin || s->conn->rstErr != 0;
  };
  auto r = w->wait(ready, dl, s->tcp ? "recv" : "recvfrom");
  bool some = s->tcp && s->conn && !s->conn->rx.empty();  // MSG_WAITALL interrupted or timed out with some data
  if (r == World::W::Intr && !some) return fail(w, Op::Recv, fd, EINTR);
  if (r == World::W::Timeout && !some) return fail(w, Op::Recv, fd, EAGAIN);
  if (r == World::W::Stuck && !some) return fail(w, Op::Recv, fd, ETIMEDOUT);
  if (!s->tcp) {
    if (s->soError) { int e = s->soError; s->soError = 0; return fail(w, Op::Recv, fd, e); }
    if (s->rq.empty()) { w->log(Op::Recv, fd, 0, 0); return 0; }  // shut down
    Dgram d = s->rq.front();
    if (!(flags & MSG_PEEK)) s->rq.pop_front();
    size_t k = std::min(n, d.data.size());
    if (k) memcpy(buf, d.data.data(), k);
    toSa(d.from, sa, salen);
    if (outFlags) *outFlags = d.data.size() > n ? MSG_TRUNC : 0;
    w->log(Op::Recv, fd, (long)k, 0, buf, k);
    return (flags & MSG_TRUNC) ? (ssize_t)d.data.size() : (ssize_t)k;
  }
  auto c = s->conn;
  if (s->rdShut && c->rx.empty()) return 0;
  if (c->rx.empty()) {
    if (c->rstErr) { int e = c->rstErr; c->rstErr = 0; c->fin = true; return fail(w, Op::Recv, fd, e); }
    w->log(Op::Recv, fd, 0, 0);
    return 0;
  }
  size_t k = std::min(n, c->rx.size());
  if (c->chop && !(flags & MSG_WAITALL)) { size_t m = c->chop(k); if (m && m < k) k = m; }
  Bytes out(c->rx.begin(), c->rx.begin() + (long)k);
  memcpy(buf, out.data(), k);  // checked by the sanitizers
  if (!(flags & MSG_PEEK)) c->rx.erase(c->rx.begin(), c->rx.begin() + (long)k);
  if (salen) *salen = 0;
  w->log(Op::Recv, fd, (long)k, 0, buf, k);
  return (ssize_t)k;
}

ssize_t __wrap_send(int fd, const void* b, size_t n, int f) {
  W_;
  return w ? simSend(w, fd, b, n, f, nullptr, 0) : __real_send(fd, b, n, f);
}
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int f, const sockaddr* sa, socklen_t l) {
  W_;
  return w ? simSend(w, fd, b, n, f, sa, l) : __real_sendto(fd, b, n, f, sa, l);
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  W_;
  if (!w || !w->socks.count(fd)) {
    if (w && fd > 2) { w->get(fd, "write"); errno = EBADF; return -1; }
    return __real_write(fd, b, n);
  }
  return simSend(w, fd, b, n, 0, nullptr, 0);
}
ssize_t __wrap_sendmsg(int fd, const msghdr* m, int f) {
  W_;
  if (!w) return __real_sendmsg(fd, m, f);
  if (m->msg_iovlen == 1) return simSend(w, fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, f, (const sockaddr*)m->msg_name, m->msg_namelen);
  Bytes all;
  for (size_t i = 0; i < m->msg_iovlen; ++i) {
    auto p = (const uint8_t*)m->msg_iov[i].iov_base;
    all.insert(all.end(), p, p + m->msg_iov[i].iov_len);
  }
  return simSend(w, fd, all.data(), all.size(), f, (const sockaddr*)m->msg_name, m->msg_namelen);
}
ssize_t __wrap_writev(int fd, const iovec* v, int k) {
  W_;
  if (!w || fd <= 2) return __real_writev(fd, v, k);
  msghdr m{};
  m.msg_iov = const_cast<iovec*>(v);
  m.msg_iovlen = (size_t)k;
  return __wrap_sendmsg(fd, &m, 0);
}
ssize_t __wrap_recv(int fd, void* b, size_t n, int f) {
  W_;
  return w ? simRecv(w, fd, b, n, f, nullptr, nullptr, nullptr) : __real_recv(fd, b, n, f);
}
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int f, sockaddr* sa, socklen_t* l) {
  W_;
  return w ? simRecv(w, fd, b, n, f, sa, l, nullptr) : __real_recvfrom(fd, b, n, f, sa, l);
}
ssize_t __wrap_read(int fd, void* b, size_t n) {
  W_;
  if (!w || fd <= 2) return __real_read(fd, b, n);
  return simRecv(w, fd, b, n, 0, nullptr, nullptr, nullptr);
}
ssize_t __wrap_recvmsg(int fd, msghdr* m, int f) {
  W_;
  if (!w) return __real_recvmsg(fd, m, f);
  int of = 0;
  if (m->msg_iovlen == 1) {
    ssize_t r = simRecv(w, fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, f, (sockaddr*)m->msg_name, m->msg_name ? &m->msg_namelen : nullptr, &of);
    m->msg_flags = of;
    m->msg_controllen = 0;
    return r;
  }
  size_t total = 0;
  for (size_t i = 0; i < m->msg_iovlen; ++i) total += m->msg_iov[i].iov_len;
  total = std::min<size_t>(total, 70000);  // more than any datagram
  Bytes tmp(total);
  ssize_t r = simRecv(w, fd, tmp.data(), total, f, (sockaddr*)m->msg_name, m->msg_name ? &m->msg_namelen : nullptr, &of);
  m->msg_flags = of;
  m->msg_controllen = 0;
  size_t left = r > 0 ? std::min((size_t)r, total) : 0, off = 0;
  for (size_t i = 0; i < m->msg_iovlen && left; ++i) {
    size_t k = std::min(left, m->msg_iov[i].iov_len);
    memcpy(m->msg_iov[i].iov_base, tmp.data() + off, k);
    off += k;
    left -= k;
  }
  return r;
}
ssize_t __wrap_readv(int fd, const iovec* v, int k) {
  W_;
  if (!w || fd <= 2) return __real_readv(fd, v, k);
  msghdr m{};
  m.msg_iov = const_cast<iovec*>(v);
  m.msg_iovlen = (size_t)k;
  return __wrap_recvmsg(fd, &m, 0);
}

static int simSelect(World* w, int nfds, fd_set* r, fd_set* wr, fd_set* ex, Ns deadline, Ns* left) {
  w->enter(Op::Select);
  if (nfds < 0 || nfds > FD_SETSIZE) return fail(w, Op::Select, -1, EINVAL);
  std::vector<int> rf, wf;
  for (int i = 0; i < nfds; ++i) {
    if (r && FD_ISSET(i, r)) rf.push_back(i);
    if (wr && FD_ISSET(i, wr)) wf.push_back(i);
    if ((r && FD_ISSET(i, r)) || (wr && FD_ISSET(i, wr)) || (ex && FD_ISSET(i, ex)))
      if (!w->get(i, "select")) return fail(w, Op::Select, i, EBADF);
  }
  int ffd = rf.empty() ? (wf.empty() ? -1 : wf[0]) : rf[0];
  if (int e = w->checkFault(Op::Select, ffd, 0)) return fail(w, Op::Select, -1, e);
  std::vector<int> rr, rw;
  auto pred = [&] {
    rr.clear();
    rw.clear();
    for (int f : rf) if (w->socks.count(f) && w->readable(*w->socks[f])) rr.push_back(f);
    for (int f : wf) if (w->socks.count(f) && w->writable(*w->socks[f])) rw.push_back(f);
    return !rr.empty() || !rw.empty();
  };
  auto res = w->wait(pred, deadline, "select");
  if (left && deadline >= 0) *left = std::max<Ns>(0, deadline - w->now);
  if (res == World::W::Intr) return fail(w, Op::Select, -1, EINTR);
  if (r) FD_ZERO(r);
  if (wr) FD_ZERO(wr);
  if (ex) FD_ZERO(ex);
  for (int f : rr) FD_SET(f, r);
  for (int f : rw) FD_SET(f, wr);
  int n = (int)(rr.size() + rw.size());
  w->log(Op::Select, -1, n, 0);
  return n;
}
int __wrap_select(int nfds, fd_set* r, fd_set* wr, fd_set* ex, timeval* tv) {
  W_;
  if (!w) return __real_select(nfds, r, wr, ex, tv);
  if (tv && (tv->tv_sec < 0 || tv->tv_usec < 0 )) { w->enter(Op::Select); return fail(w, Op::Select, -1, EINVAL); }
  Ns dl = tv ? w->now + w->callCost + tv->tv_sec * SEC + tv->tv_usec * US : -1, left = 0;
  int n = simSelect(w, nfds, r, wr, ex, dl, &left);
  if (tv) { tv->tv_sec = left / SEC; tv->tv_usec = left % SEC / US; }
  return n;
}
int __wrap_pselect(int nfds, fd_set* r, fd_set* wr, fd_set* ex, const timespec* ts, const sigset_t* m) {
  W_;
  if (!w) return __real_pselect(nfds, r, wr, ex, ts, m);
  Ns dl = ts ? w->now + w->callCost + ts->tv_sec * SEC + ts->tv_nsec : -1;
  return simSelect(w, nfds, r, wr, ex, dl, nullptr);
}
static int simPoll(World* w, pollfd* p, nfds_t n, Ns deadline) {
  w->enter(Op::Select);
  if (int e = w->checkFault(Op::Select, n ? p[0].fd : -1, 0)) return fail(w, Op::Select, -1, e);
  int cnt = 0;
  auto pred = [&] {
    cnt = 0;
    for (nfds_t i = 0; i < n; ++i) {
      p[i].revents = 0;
      if (p[i].fd < 0) continue;
      auto it = w->socks.find(p[i].fd);
      if (it == w->socks.end()) { p[i].revents = POLLNVAL; ++cnt; continue; }
      auto& s = *it->second;
      if ((p[i].events & POLLIN) && w->readable(s)) p[i].revents |= POLLIN;
      if ((p[i].events & POLLOUT) && w->writable(s)) p[i].revents |= POLLOUT;
      if (s.tcp && s.state == Sock::Failed) p[i].revents |= POLLERR | POLLHUP;
      if (s.conn && s.conn->rstErr) p[i].revents |= POLLERR;
      if (p[i].revents) ++cnt;
    }
    return cnt > 0;
  };
  auto r = w->wait(pred, deadline, "poll");
  if (r == World::W::Intr) return fail(w, Op::Select, -1, EINTR);
  for (nfds_t i = 0; i < n; ++i) if (p[i].revents & POLLNVAL) w->get(p[i].fd, "poll");
  w->log(Op::Select, -1, cnt, 0);
  return cnt;
}
int __wrap_poll(pollfd* p, nfds_t n, int ms) {
  W_;
  if (!w) return __real_poll(p, n, ms);
  return simPoll(w, p, n, ms < 0 ? -1 : w->now + w->callCost + (Ns)ms * MS);
}
int __wrap_ppoll(pollfd* p, nfds_t n, const timespec* ts, const sigset_t* m) {
  W_;
  if (!w) return __real_ppoll(p, n, ts, m);
  return simPoll(w, p, n, ts ? w->now + w->callCost + ts->tv_sec * SEC + ts->tv_nsec : -1);
}

static int simFcntl(World* w, int fd, int cmd, long arg) {
  w->enter(Op::Fcntl);
  auto s = w->get(fd, "fcntl");
  if (!s) return fail(w, Op::Fcntl, fd, EBADF);
  if (int e = w->checkFault(Op::Fcntl, fd, 0)) return fail(w, Op::Fcntl, fd, e);
  switch (cmd) {
    case F_GETFL: return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
    case F_SETFL: s->nonblock = arg & O_NONBLOCK; w->log(Op::Fcntl, fd, 0, 0); return 0;
    case F_GETFD: return s->cloexec ? FD_CLOEXEC : 0;
    case F_SETFD: s->cloexec = arg & FD_CLOEXEC; return 0;
    default: return fail(w, Op::Fcntl, fd, EINVAL);
  }
}
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  W_;
  return w ? simFcntl(w, fd, cmd, arg) : __real_fcntl(fd, cmd, arg);
}
int __wrap_fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  W_;
  return w ? simFcntl(w, fd, cmd, arg) : __real_fcntl64(fd, cmd, arg);
}
int __wrap_ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  W_;
  if (!w) return __real_ioctl(fd, req, arg);
  w->enter(Op::Fcntl);
  auto s = w->get(fd, "ioctl");
  if (!s) return fail(w, Op::Fcntl, fd, EBADF);
  if (int e = w->checkFault(Op::Fcntl, fd, 0)) return fail(w, Op::Fcntl, fd, e);
  if (req == FIONBIO) { s->nonblock = *(int*)arg; return 0; }
  if (req == FIONREAD) {
    *(int*)arg = s->tcp ? (s->conn ? (int)s->conn->rx.size() : 0) : (s->rq.empty() ? 0 : (int)s->rq.front().data.size());
    return 0;
  }
  return fail(w, Op::Fcntl, fd, EINVAL);
}
int __wrap_setsockopt(int fd, int level, int name, const void* val, socklen_t len) {
  W_;
  if (!w) return __real_setsockopt(fd, level, name, val, len);
  w->enter(Op::SetOpt);
  auto s = w->get(fd, "setsockopt");
  if (!s) return fail(w, Op::SetOpt, fd, EBADF);
  if (int e = w->checkFault(Op::SetOpt, fd, 0)) return fail(w, Op::SetOpt, fd, e);
  int iv = 0;
  if (val && len >= sizeof(int)) memcpy(&iv, val, sizeof iv);
  if (level == SOL_SOCKET) {
    switch (name) {
      case SO_REUSEADDR: case SO_REUSEPORT: s->reuse = iv; break;
      case SO_BROADCAST: s->broadcast = iv; break;
      case SO_RCVTIMEO: case SO_SNDTIMEO: {
        if (len < sizeof(timeval)) return fail(w, Op::SetOpt, fd, EINVAL);
        timeval tv;
        memcpy(&tv, val, sizeof tv);
        if (tv.tv_usec < 0 || tv.tv_usec >= 1000000) return fail(w, Op::SetOpt, fd, EDOM);
        (name == SO_RCVTIMEO ? s->rcvTimeo : s->sndTimeo) = tv.tv_sec < 0 ? 1 : tv.tv_sec * SEC + tv.tv_usec * US;  // negative: do not wait
        break;
      }
      default: break;
    }
  }
  w->log(Op::SetOpt, fd, 0, 0);
  return 0;
}
int __wrap_getsockopt(int fd, int level, int name, void* val, socklen_t* len) {
  W_;
  if (!w) return __real_getsockopt(fd, level, name, val, len);
  w->enter(Op::GetOpt);
  auto s = w->get(fd, "getsockopt");
  if (!s) return fail(w, Op::GetOpt, fd, EBADF);
  if (int e = w->checkFault(Op::GetOpt, fd, 0)) return fail(w, Op::GetOpt, fd, e);
  auto put = [&](const void* p, size_t n) {
    size_t k = std::min<size_t>(*len, n);
    memcpy(val, p, k);
    *len = (socklen_t)k;
  };
  if (level == SOL_SOCKET && name == SO_ERROR) {
    int e = s->soError;
    s->soError = 0;
    if (!e && s->conn && s->conn->rstErr) { e = s->conn->rstErr; s->conn->rstErr = 0; s->conn->fin = true; }
    put(&e, sizeof e);
  } else if (level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO)) {
    Ns t = name == SO_RCVTIMEO ? s->rcvTimeo : s->sndTimeo;
    timeval tv{t / SEC, t % SEC / US};
    put(&tv, sizeof tv);
  } else if (level == SOL_SOCKET && name == SO_TYPE) {
    int t = s->tcp ? SOCK_STREAM : SOCK_DGRAM;
    put(&t, sizeof t);
  } else {
    int v = 0;
    if (level == SOL_SOCKET && name == SO_REUSEADDR) v = s->reuse;
    if (level == SOL_SOCKET && name == SO_BROADCAST) v = s->broadcast;
    if (level == SOL_SOCKET && (name == SO_RCVBUF || name == SO_SNDBUF)) v = 212992;
    put(&v, sizeof v);
  }
  w->log(Op::GetOpt, fd, 0, 0);
  return 0;
}
int __wrap_getsockname(int fd, sockaddr* sa, socklen_t* len) {
  W_;
  if (!w) return __real_getsockname(fd, sa, len);
  w->enter(Op::GetName);
  auto s = w->get(fd, "getsockname");
  if (!s) return fail(w, Op::GetName, fd, EBADF);
  toSa(s->local, sa, len);
  return 0;
}
int __wrap_getpeername(int fd, sockaddr* sa, socklen_t* len) {
  W_;
  if (!w) return __real_getpeername(fd, sa, len);
  w->enter(Op::GetName);
  auto s = w->get(fd, "getpeername");
  if (!s) return fail(w, Op::GetName, fd, EBADF);
  if (!s->hasPeer || (s->tcp && s->state != Sock::Connected)) return fail(w, Op::GetName, fd, ENOTCONN);
  toSa(s->peer, sa, len);
  return 0;
}
}  // extern "C"
