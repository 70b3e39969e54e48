// A simulated operating system and network for the code under test.
//
// The harness is linked with -Wl,--wrap=... so that every socket, clock and sleep call made by the library is
// served by the World of the calling thread (if it has one): time is virtual, peers are modelled by the harness, and
// every call is observed. No real network, no real waiting.
#pragma once
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace sim {

using Bytes = std::vector<uint8_t>;
using Ns = int64_t;
constexpr Ns US = 1000, MS = 1000000, SEC = 1000000000;

struct Addr {
  uint32_t ip = 0;  // host order
  uint16_t port = 0;
  bool operator==(const Addr& o) const { return ip == o.ip && port == o.port; }
  bool operator!=(const Addr& o) const { return !(*this == o); }
  bool operator<(const Addr& o) const { return ip != o.ip ? ip < o.ip : port < o.port; }
  std::string str() const;
};
Addr addr(const std::string& dotted, uint16_t port);
std::string dotted(uint32_t ip);

enum class Op { Socket, Connect, Bind, Close, Shutdown, Send, Recv, Select, Fcntl, SetOpt, GetOpt, GetName, Sleep, Clock };
const char* opName(Op);

struct Call {
  Op op;
  int fd;
  uint64_t index;  // number of the system call in this world (clock reads are not counted)
  size_t len;
  bool tcp;
  uint16_t port = 0;  // where a datagram is sent to
};

class Conn;
struct ServerApp {
  virtual ~ServerApp() = default;
  virtual void onOpen(Conn&) {}
  virtual void onData(Conn&, const Bytes&) {}
  virtual void onClose(Conn&) {}  // the client closed, or shut down its sending direction
};

// The server's side of a TCP connection
class Conn {
public:
  int no = 0;          // ordinal in this world
  Addr server;
  ServerApp* app = nullptr;
  Bytes fromClient;    // everything the client has sent
  bool clientClosed = false;   // the client closed its descriptor
  bool clientShut = false;     // the client shut down writing
  bool reset = false;          // the server has reset the connection (in effect)
  bool serverClosed = false;   // the server closed both directions
  int fd = -1;

  void send(Bytes data, Ns delay = 0);       // in order, not before the previous ones
  void finish(Ns delay = 0);                 // FIN
  void sendReset(Ns delay = 0);              // RST
  void closeFully(Ns delay = 0);             // FIN, and RST in answer to anything the client sends later

  // the client's receive queue
  std::deque<uint8_t> rx;
  uint64_t rxArrived = 0;  // total number of bytes ever arrived
  Ns lastArrival = 0;      // time of the last arrival
  bool fin = false;
  int rstErr = 0;
  // how much of n bytes the socket takes now (0: would block for `sendBlock`); default all
  std::function<size_t(size_t)> accept;
  Ns sendBlock = 1 * MS;
  // the largest number of bytes one recv returns (0: no limit)
  std::function<size_t(size_t)> chop;

private:
  friend class World;
  Ns lastScheduled = 0;
};

struct ConnectPlan {
  enum Kind { Accept, Refuse, Blackhole, Unreachable } kind = Accept;
  Ns delay = 100 * US;  // 0: completes immediately
  int err = 0;          // of a refusal; 0: the usual
};
struct Listener {
  ServerApp* app = nullptr;
  std::function<ConnectPlan(int nth)> plan;
  int count = 0;
};

struct Dgram {
  Addr from, to;
  Bytes data;
  Ns t = 0;
  int fd = -1;
};

struct Sock {
  int fd = -1;
  uint64_t gen = 0;
  bool tcp = false;
  bool nonblock = false, cloexec = false;
  Ns rcvTimeo = 0, sndTimeo = 0;
  bool reuse = false, broadcast = false;
  Addr local{}, peer{};
  bool bound = false, hasPeer = false;
  uint64_t boundSeq = 0;
  enum { Idle, Connecting, Connected, Failed } state = Idle;
  int soError = 0;
  std::shared_ptr<Conn> conn;
  std::deque<Dgram> rq;
  bool rdShut = false, wrShut = false;
  bool nosigpipe = false;
  bool toldConnected = false;
  Ns connectStart = 0;
};

struct OpenRec {
  int fd;
  uint64_t gen;
  bool tcp;
  bool closed;
};

class World {
public:
  explicit World(uint64_t seed);
  ~World();
  World(const World&) = delete;

  // ---- time
  Ns now = 0;               // virtual time since the world began
  Ns steadyBase, systemBase;
  uint64_t wander = 0;       // if not zero, the calendar clock is set to and fro all the time (the steady clock is not)
  Ns systemNow() const;
  Ns callCost = 1 * US, clockCost = 20;
  void at(Ns t, std::function<void()> f);  // runs when virtual time reaches t
  void after(Ns d, std::function<void()> f) { at(now + d, std::move(f)); }
  void advance(Ns d);        // let the time pass (used by the harness between operations)
  std::multiset<Ns> signals; // a call that is blocked at such a time is interrupted (EINTR)
  uint64_t signalsHit = 0;

  // ---- descriptors
  int fdBase = 100;
  std::map<int, std::shared_ptr<Sock>> socks;
  std::vector<OpenRec> opened;
  std::vector<std::string> misuse;  // use after close, double close, foreign descriptors, ...
  size_t openCount() const { return socks.size(); }

  // ---- network
  std::map<Addr, Listener> listeners;
  std::vector<std::shared_ptr<Conn>> conns;
  std::vector<Dgram> sentDgrams;                       // everything sent over UDP
  std::function<void(const Dgram&)> onDgram;           // called for each of them
  std::function<ConnectPlan(const Addr&)> defaultPlan; // for addresses without a listener
  void deliverDgram(const Addr& from, uint16_t toPort, const Bytes& data, Ns delay = 0);
  void deliverDgramTo(int fd, uint64_t gen, const Addr& from, const Bytes& data, Ns delay = 0);
  uint64_t dgramsDelivered = 0, dgramsDropped = 0;
  int udpRcvBuf = 1000000;
  uint32_t localIp = 0x0A000001;

  // ---- faults: return an errno to make the call fail without effect (close: with its effect)
  std::function<int(const Call&)> fault;
  uint64_t calls = 0;                 // number of system calls so far
  uint64_t faultsInjected = 0;
  std::map<std::string, uint64_t> opCount;
  bool sigpipe = false;               // a call would have raised SIGPIPE
  bool stuck = false;                 // a call would have blocked forever
  std::string stuckWhere;
  uint64_t budget = 3000000;          // wrapped calls left until "no progress"
  std::function<void()> onCall;       // called at each system call (used to yield)

  // ---- trace
  bool tracing = false;
  std::vector<std::string> trace;
  uint64_t rngState;
  uint32_t rnd();

  // ---- internals used by the wrappers
  enum class W { Ready, Timeout, Intr, Stuck };
  W wait(const std::function<bool()>& pred, Ns deadline, const char* what);  // deadline < 0: none
  void runDue();
  void enter(Op op);
  int checkFault(Op op, int fd, size_t len, uint16_t port = 0);
  std::shared_ptr<Sock> get(int fd, const char* what);
  int newFd();
  void log(Op op, int fd, long ret, int err, const void* data = nullptr, size_t n = 0);
  bool readable(const Sock& s);
  bool writable(const Sock& s);
  uint64_t genCounter = 0, bindCounter = 0, evSeq = 0;
  uint16_t nextPort = 40000;
  std::map<std::pair<Ns, uint64_t>, std::function<void()>> events;
  int closeSock(int fd);
  void udpRoute(const Addr& from, uint16_t toPort, const Bytes& data);
};

World* current();            // the world of this thread
void setCurrent(World*);
extern thread_local int insideSim;  // > 0 while a wrapped call is served
extern void (*noProgress)(); // called when the budget is used up; must not return

struct Scope {               // makes a world current
  explicit Scope(World& w) { setCurrent(&w); }
  ~Scope() { setCurrent(nullptr); }
};

}  // namespace sim
