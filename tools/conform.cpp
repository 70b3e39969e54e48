// Compares the simulated network with the kernel's: the same client calls are made against a loopback peer and against a
// simulated one, and what they return must be the same. Not a check of the library; see conform.sh.
#include <arpa/inet.h>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <string>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>
#include <vector>
#include "../harness/sim.h"

using sim::Bytes;
struct Step { enum K { Wait, Send, Fin, Rst, Close } k; int v = 0; };
using Script = std::vector<Step>;

// ---- the peer, either way
struct Peer {
  virtual ~Peer() = default;
  int port = 0;
};
struct KernelPeer : Peer {
  int l;
  std::thread t;
  KernelPeer(Script s) {
    l = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t n = sizeof a;
    if (bind(l, (sockaddr*)&a, n) || listen(l, 5) || getsockname(l, (sockaddr*)&a, &n)) { perror("peer"); _exit(3); }
    port = ntohs(a.sin_port);
    t = std::thread([this, s] {
      int fd = accept(l, nullptr, nullptr);
      if (fd < 0) return;
      bool open = true;
      for (auto& x : s) switch (x.k) {
        case Step::Wait: std::this_thread::sleep_for(std::chrono::milliseconds(x.v)); break;
        case Step::Send: { Bytes b((size_t)x.v, 7); (void)!send(fd, b.data(), b.size(), MSG_NOSIGNAL); break; }
        case Step::Fin: shutdown(fd, SHUT_WR); break;
        case Step::Rst: { linger g{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &g, sizeof g); close(fd); open = false; break; }
        case Step::Close: close(fd); open = false; break;
      }
      if (open) {
        Bytes b(4096);
        while (recv(fd, b.data(), b.size(), 0) > 0) {}
        close(fd);
      }
    });
  }
  ~KernelPeer() { shutdown(l, SHUT_RDWR); t.join(); close(l); }
};
struct SimPeer : Peer, sim::ServerApp {
  Script s;
  SimPeer(Script x) : s(std::move(x)) {
    static int next = 20000;
    port = next++;
    sim::current()->listeners[sim::addr("127.0.0.1", (uint16_t)port)] = {this, {}, 0};
  }
  void onOpen(sim::Conn& c) override {
    sim::Ns d = 0;
    for (auto& x : s) switch (x.k) {
      case Step::Wait: d += x.v * sim::MS; break;
      case Step::Send: c.send(Bytes((size_t)x.v, 7), d); break;
      case Step::Fin: c.finish(d); break;
      case Step::Rst: c.sendReset(d); break;
      case Step::Close: c.closeFully(d); break;
    }
  }
};
static bool simulated;
static std::unique_ptr<Peer> peer(Script s) { if (simulated) return std::make_unique<SimPeer>(s); return std::make_unique<KernelPeer>(s); }

// ---- the client, the same calls either way
static std::vector<std::string> out;
static void say(const std::string& s) { out.push_back(s); }
static std::string err(long r) { if (r >= 0) return std::to_string(r); return std::string("-1 ") + strerrorname_np(errno); }
static long ms() { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string took(long t0) { long d = ms() - t0; return d < 25 ? "at once" : "after about " + std::to_string((d + 20) / 50 * 50) + " ms"; }
static void nap(int m) { timespec t{m / 1000, m % 1000 * 1000000L}; nanosleep(&t, nullptr); }
static sockaddr_in at(int port) { sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons((uint16_t)port); return a; }
static int dial(int port) { int fd = socket(AF_INET, SOCK_STREAM, 0); auto a = at(port); if (connect(fd, (sockaddr*)&a, sizeof a)) say("connect " + err(-1)); return fd; }
static void timeo(int fd, int m) { timeval tv{m / 1000, m % 1000 * 1000}; say("SO_RCVTIMEO " + err(setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv))); }
static void rx(int fd, size_t n, int flags = 0) { Bytes b(n + 1); long t = ms(); auto r = recv(fd, b.data(), n, flags); auto e = err(r); say("recv(" + std::to_string(n) + (flags ? " flags" : "") + ") " + e + " " + took(t)); }
static void tx(int fd, size_t n) { Bytes b(n, 9); say("send(" + std::to_string(n) + ") " + err(send(fd, b.data(), n, MSG_NOSIGNAL))); }
static void sel(int fd, bool rd, int m) {
  fd_set s;
  FD_ZERO(&s);
  FD_SET(fd, &s);
  timeval tv{m / 1000, m % 1000 * 1000};
  long t = ms();
  int r = select(fd + 1, rd ? &s : nullptr, rd ? nullptr : &s, nullptr, &tv);
  auto e = err(r);
  say(std::string(rd ? "select read " : "select write ") + e + (r >= 0 ? FD_ISSET(fd, &s) ? " set" : " clear" : "") + " " + took(t) + " rest " + std::to_string((tv.tv_sec * 1000 + tv.tv_usec / 1000 + 20) / 50 * 50));
}
static void soError(int fd) { int v = 0; socklen_t l = sizeof v; int r = getsockopt(fd, SOL_SOCKET, SO_ERROR, &v, &l); say("SO_ERROR " + err(r) + " " + (v ? strerrorname_np(v) : "0")); }
static void shut(int fd, int how) { say("shutdown " + err(shutdown(fd, how))); }
static void cl(int fd) { say("close " + err(close(fd))); }

struct Scene { const char* name; std::function<void()> f; };
using S = Step;
static std::vector<Scene> scenes = {
  {"data in pieces", [] { auto p = peer({{S::Send, 10}, {S::Wait, 100}, {S::Send, 5}, {S::Fin}}); int fd = dial(p->port); nap(30); rx(fd, 4); rx(fd, 100); rx(fd, 100); rx(fd, 100); rx(fd, 100); cl(fd); }},
  {"timeout and later data", [] { auto p = peer({{S::Wait, 200}, {S::Send, 3}, {S::Wait, 300}}); int fd = dial(p->port); timeo(fd, 100); rx(fd, 3); rx(fd, 10); rx(fd, 10); cl(fd); }},
  {"zero timeout means none", [] { auto p = peer({{S::Wait, 150}, {S::Send, 3}, {S::Fin}}); int fd = dial(p->port); timeo(fd, 0); rx(fd, 3); rx(fd, 3); cl(fd); }},
  {"bad timeout", [] { auto p = peer({{S::Wait, 100}, {S::Fin}}); int fd = dial(p->port); timeval tv{0, 1000000}; say(err(setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv))); tv = {0, -1}; say(err(setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv))); tv = {-5, 0}; say(err(setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv))); rx(fd, 3); cl(fd); }},
  {"waitall", [] { auto p = peer({{S::Send, 4}, {S::Wait, 100}, {S::Send, 4}, {S::Wait, 50}, {S::Send, 2}, {S::Fin}}); int fd = dial(p->port); nap(30); rx(fd, 8, MSG_WAITALL); rx(fd, 8, MSG_WAITALL); rx(fd, 8, MSG_WAITALL); cl(fd); }},
  {"waitall with timeout", [] { auto p = peer({{S::Send, 4}, {S::Wait, 300}, {S::Send, 4}, {S::Fin}}); int fd = dial(p->port); timeo(fd, 100); nap(30); rx(fd, 8, MSG_WAITALL); cl(fd); }},
  {"dontwait and peek", [] { auto p = peer({{S::Wait, 50}, {S::Send, 4}, {S::Wait, 200}}); int fd = dial(p->port); rx(fd, 4, MSG_DONTWAIT); nap(100); rx(fd, 2, MSG_PEEK); rx(fd, 4, MSG_DONTWAIT); rx(fd, 4, MSG_DONTWAIT); cl(fd); }},
  {"receive nothing", [] { auto p = peer({{S::Send, 4}, {S::Wait, 100}}); int fd = dial(p->port); nap(30); rx(fd, 0); rx(fd, 4); cl(fd); }},
  {"reset", [] { auto p = peer({{S::Wait, 50}, {S::Rst}}); int fd = dial(p->port); rx(fd, 4); rx(fd, 4); tx(fd, 3); shut(fd, SHUT_RDWR); cl(fd); }},
  {"reset, then sending", [] { auto p = peer({{S::Wait, 50}, {S::Rst}}); int fd = dial(p->port); nap(100); tx(fd, 3); tx(fd, 3); rx(fd, 3); cl(fd); }},
  {"reset, seen by select", [] { auto p = peer({{S::Wait, 50}, {S::Rst}}); int fd = dial(p->port); sel(fd, true, 200); soError(fd); soError(fd); rx(fd, 3); cl(fd); }},
  {"data before a reset", [] { auto p = peer({{S::Send, 6}, {S::Wait, 50}, {S::Rst}}); int fd = dial(p->port); nap(100); rx(fd, 4); rx(fd, 4); rx(fd, 4); rx(fd, 4); cl(fd); }},
  {"peer closed, then sending", [] { auto p = peer({{S::Close}}); int fd = dial(p->port); nap(50); rx(fd, 3); tx(fd, 3); nap(50); tx(fd, 3); rx(fd, 3); shut(fd, SHUT_RDWR); cl(fd); }},
  {"half closed by peer", [] { auto p = peer({{S::Send, 2}, {S::Fin}}); int fd = dial(p->port); nap(50); tx(fd, 3); tx(fd, 3); rx(fd, 5); rx(fd, 5); sel(fd, true, 50); sel(fd, false, 50); cl(fd); }},
  {"own shutdown", [] { auto p = peer({{S::Send, 2}, {S::Wait, 200}}); int fd = dial(p->port); nap(50); shut(fd, SHUT_WR); tx(fd, 1); rx(fd, 4); shut(fd, SHUT_RD); rx(fd, 4); shut(fd, SHUT_RDWR); cl(fd); }},
  {"shutdown before connect", [] { int fd = socket(AF_INET, SOCK_STREAM, 0); shut(fd, SHUT_RDWR); tx(fd, 2); rx(fd, 2); cl(fd); }},
  {"use after close", [] { int fd = socket(AF_INET, SOCK_STREAM, 0); cl(fd); tx(fd, 2); rx(fd, 2); shut(fd, SHUT_RD); cl(fd); soError(fd); sel(fd, true, 20); say("fcntl " + err(fcntl(fd, F_GETFL))); auto a = at(9); say("connect " + err(connect(fd, (sockaddr*)&a, sizeof a))); }},
  {"refused", [] { int port; { auto p = peer({}); port = p->port; if (!simulated) { int x = dial(port); close(x); } } if (simulated) sim::current()->listeners.erase(sim::addr("127.0.0.1", (uint16_t)port)); dial(port); int fd = socket(AF_INET, SOCK_STREAM, 0); auto a = at(port); fcntl(fd, F_SETFL, O_NONBLOCK); int r = connect(fd, (sockaddr*)&a, sizeof a); if (r < 0 && errno == EINPROGRESS) { nap(50); sel(fd, false, 50); soError(fd); soError(fd); } else say("SO_ERROR 0 ECONNREFUSED"); cl(fd); }},
  {"nonblocking connect", [] { auto p = peer({{S::Wait, 100}, {S::Send, 2}, {S::Wait, 100}}); int fd = socket(AF_INET, SOCK_STREAM, 0); int fl = fcntl(fd, F_GETFL); say("flags " + std::to_string(fl & O_NONBLOCK)); say("set " + err(fcntl(fd, F_SETFL, fl | O_NONBLOCK))); auto a = at(p->port); int r = connect(fd, (sockaddr*)&a, sizeof a); say(r == 0 || errno == EINPROGRESS ? "connecting" : err(r)); sel(fd, false, 200); soError(fd); rx(fd, 2); say("set " + err(fcntl(fd, F_SETFL, fl))); rx(fd, 2); say("again " + err(connect(fd, (sockaddr*)&a, sizeof a))); cl(fd); }},
  {"select times out", [] { auto p = peer({{S::Wait, 150}, {S::Send, 2}, {S::Wait, 100}}); int fd = dial(p->port); sel(fd, true, 0); sel(fd, true, 100); sel(fd, true, 500); sel(fd, false, 100); rx(fd, 9); cl(fd); }},
  {"select on a bad timeout", [] { auto p = peer({{S::Fin}}); int fd = dial(p->port); timeval tv{-1, 0}; fd_set s; FD_ZERO(&s); FD_SET(fd, &s); say(err(select(fd + 1, &s, nullptr, nullptr, &tv))); cl(fd); }},
  {"datagrams", [] {
     int u = socket(AF_INET, SOCK_DGRAM, 0), v = socket(AF_INET, SOCK_DGRAM, 0);
     auto a = at(0); a.sin_port = 0;
     say("bind " + err(bind(u, (sockaddr*)&a, sizeof a)));
     say("bind again " + err(bind(u, (sockaddr*)&a, sizeof a)));
     socklen_t l = sizeof a;
     getsockname(u, (sockaddr*)&a, &l);
     int port = ntohs(a.sin_port);
     auto post = [&](size_t n) { Bytes b(n, 5); if (simulated) sim::current()->deliverDgram(sim::addr("127.0.0.1", 7), (uint16_t)port, b); else { auto t = at(port); sendto(v, b.data(), n, 0, (sockaddr*)&t, sizeof t); } };
     timeo(u, 100);
     rx(u, 10);
     for (size_t n : {20, 0, 5, 3000, 7, 9}) post(n);
     nap(20);
     sel(u, true, 50);
     rx(u, 10); rx(u, 10); rx(u, 2, MSG_PEEK); rx(u, 5); rx(u, 100, MSG_TRUNC); rx(u, 0); rx(u, 100, MSG_DONTWAIT); rx(u, 100, MSG_DONTWAIT);
     sel(u, true, 50);
     shut(u, SHUT_RDWR);
     Bytes big(65508);
     auto t = at(port);
     say("too long " + err(sendto(v, big.data(), big.size(), 0, (sockaddr*)&t, sizeof t)));
     say("longest " + err(sendto(v, big.data(), 65507, 0, (sockaddr*)&t, sizeof t)));
     int w = socket(AF_INET, SOCK_DGRAM, 0);
     tx(w, 3);
     t.sin_port = 0;
     say("to port 0 " + err(sendto(w, big.data(), 3, 0, (sockaddr*)&t, sizeof t)));
     t.sin_addr.s_addr = 0xFFFFFFFF; t.sin_port = htons(9);
     say("broadcast " + err(sendto(w, big.data(), 3, 0, (sockaddr*)&t, sizeof t)));
     cl(u); cl(v); cl(w);
   }},
  {"two bound to a port", [] {
     int u = socket(AF_INET, SOCK_DGRAM, 0), v = socket(AF_INET, SOCK_DGRAM, 0), x = socket(AF_INET, SOCK_DGRAM, 0), y = socket(AF_INET, SOCK_DGRAM, 0);
     int one = 1;
     auto a = at(0); a.sin_port = 0;
     socklen_t l = sizeof a;
     setsockopt(u, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
     setsockopt(v, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
     say("first " + err(bind(u, (sockaddr*)&a, sizeof a)));
     getsockname(u, (sockaddr*)&a, &l);
     int port = ntohs(a.sin_port);
     say("without reuse " + err(bind(x, (sockaddr*)&a, sizeof a)));
     say("second " + err(bind(v, (sockaddr*)&a, sizeof a)));
     auto post = [&](size_t n) { Bytes b(n, 5); if (simulated) sim::current()->deliverDgram(sim::addr("127.0.0.1", 7), (uint16_t)port, b); else { auto t = at(port); sendto(y, b.data(), n, 0, (sockaddr*)&t, sizeof t); } nap(20); };
     post(4);
     rx(u, 10, MSG_DONTWAIT); rx(v, 10, MSG_DONTWAIT);
     cl(v);
     post(5);
     rx(u, 10, MSG_DONTWAIT);
     cl(u); cl(x); cl(y);
   }},
  {"many waiting datagrams, one select", [] {
     int u = socket(AF_INET, SOCK_DGRAM, 0), v = socket(AF_INET, SOCK_DGRAM, 0);
     auto a = at(0); a.sin_port = 0;
     socklen_t l = sizeof a;
     bind(u, (sockaddr*)&a, sizeof a);
     getsockname(u, (sockaddr*)&a, &l);
     for (size_t i = 1; i < 4; ++i) { Bytes b(i, 5); if (simulated) sim::current()->deliverDgram(sim::addr("127.0.0.1", 7), ntohs(a.sin_port), b); else sendto(v, b.data(), i, 0, (sockaddr*)&a, sizeof a); }
     nap(20);
     for (int i = 0; i < 4; ++i) { sel(u, true, 60); rx(u, 9, MSG_DONTWAIT); }
     cl(u); cl(v);
   }},
  {"signal while waiting", [] {
     auto p = peer({{S::Wait, 400}, {S::Send, 2}, {S::Wait, 300}});
     int fd = dial(p->port);
     auto in = [&](int m) { if (simulated) sim::current()->signals.insert(sim::current()->now + m * sim::MS); else { itimerval it{{0, 0}, {0, m * 1000}}; setitimer(ITIMER_REAL, &it, nullptr); } };
     in(100); rx(fd, 4);
     in(100); sel(fd, true, 1000);
     in(100); timeo(fd, 150); rx(fd, 4);
     in(30); timespec t{0, 100000000}, rest{}; long t0 = ms(); int r = nanosleep(&t, &rest); auto e = err(r); say("nanosleep " + e + " " + took(t0) + " rest " + std::to_string((rest.tv_nsec / 1000000 + 20) / 50 * 50));
     cl(fd);
   }},
};
static void onAlarm(int) {}
int main() {
  signal(SIGPIPE, SIG_IGN);
  struct sigaction sa{};
  sa.sa_handler = onAlarm;
  sigaction(SIGALRM, &sa, nullptr);  // no SA_RESTART
  int bad = 0, lines = 0;
  for (auto& s : scenes) {
    std::vector<std::string> got[2];
    for (int k = 0; k < 2; ++k) {
      simulated = k;
      out.clear();
      if (k) { sim::World w(1); w.localIp = 0x7F000001; sim::Scope sc(w); s.f(); } else s.f();
      got[k] = out;
    }
    lines += (int)got[0].size();
    if (got[0] == got[1]) { printf("same       %s (%zu results)\n", s.name, got[0].size()); continue; }
    ++bad;
    printf("DIFFERENT  %s\n", s.name);
    for (size_t i = 0; i < std::max(got[0].size(), got[1].size()); ++i) {
      std::string a = i < got[0].size() ? got[0][i] : "-", b = i < got[1].size() ? got[1][i] : "-";
      printf("   %s kernel: %-50s simulated: %s\n", a == b ? " " : "!", a.c_str(), b.c_str());
    }
  }
  printf("%zu scenes, %d results, %d scenes differ\n", scenes.size(), lines, bad);
  return bad != 0;
}
