// A network in memory: replaces the BSD socket calls of the process for descriptors of its own, so that the code under test
// (Current's `Connection`, HTTP server and client) runs against a peer that the harness scripts to the byte, or against
// another part of the same process, with every cut of the stream into segments under the control of the harness.
//
// * Scripted endpoint: `in` is what the peer sends, `cuts` where its segments end, `end` how the stream ends.
// * Loopback: connect() to a port on which the process listens makes a pair of endpoints wired to each other.
//
// FAKENET_SCHED: blocking goes through the controlled scheduler of the SCHED engine; otherwise through a condition variable.
#pragma once
#include <arpa/inet.h>
#include <errno.h>
#include <netdb.h>
#include <netinet/in.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>

#ifdef FAKENET_SCHED
#include "mc.h"
#include "rt.h"
#endif

#include <condition_variable>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <vector>

namespace fakenet {

constexpr int kBase = 1000000;  // Descriptors of the network in memory start here.

enum class End { Eof, Reset, Block };  // What the reader finds after the last byte.

struct Endpoint {
  std::string in;
  std::vector<size_t> cuts;  // ascending offsets in `in`: recv() does not go across one (unless MSG_WAITALL)
  size_t pos = 0;
  size_t max_segment = static_cast<size_t>(-1);
  bool short_waitall = false;   // recv(MSG_WAITALL) stops at a cut as well, as when it is interrupted by a signal
  bool eagain_at_cuts = false;  // and fails once with EAGAIN at every cut
  size_t last_eagain = static_cast<size_t>(-1);
  End end = End::Block;
  bool blocked = false;  // an attempt to read more than the peer has sent, while it keeps the connection open
  int stale_errno = 0;   // what errno is before the end of file is reported; recv() does not touch it

  std::string out;
  std::vector<size_t> sends;
  size_t pushed = 0;  // how much of `out` has left: what is sent with MSG_MORE may stay in the kernel until more is sent
  long break_after = -1;      // loopback: the connection breaks once the peer has sent this many bytes
  bool broken = false;
  long fail_send_after = -1;  // send() fails once this many bytes have been sent
  bool shut = false, closed = false;
  std::weak_ptr<Endpoint> other;
  bool loopback = false;
};
using ep_t = std::shared_ptr<Endpoint>;

struct Net {
  std::mutex m;
  std::condition_variable cv;
  int next = kBase;
  std::map<int, ep_t> eps;
  std::map<int, uint16_t> bound;                    // listening descriptor -> port
  std::map<uint16_t, std::deque<ep_t>> backlog;     // port -> connections not accepted yet
  std::set<int> bare;                               // socket(), neither bound nor connected yet
  bool (*on_loopback)(const ep_t& client, const ep_t& server) = nullptr;  // to plan the faults; false refuses the connection
  ep_t (*on_connect)(const std::string& host, uint16_t port) = nullptr;  // scripted peers for the client code
  uint64_t opened = 0, closed = 0;
};
inline Net& N() {
  static Net* n = new Net;
  return *n;
}
inline std::string& LastHost() {  // What this thread has last looked up, which is what it then connects to.
  static thread_local std::string h;
  return h;
}
inline bool Mine(int fd) { return fd >= kBase; }

#ifdef FAKENET_SCHED
// One thread runs at a time under the scheduler. Every operation is a scheduling point on the object it is about (the
// connection or the port), and that is also its happens-before edge; the engine takes no notice of what is inside.
struct Lock {
  void* const obj;
  const bool on;
  explicit Lock(const void* o = nullptr, const char* what = "network") : obj(const_cast<void*>(o)), on(rt::IsOn()) {
    if (on && obj) rt::ObjOp(obj, what, true, true, true);
    if (on) rt::In(1);
  }
  ~Lock() {
    if (on) rt::In(-1);
  }
  template <class F>
  void Wait(F pred, const char* what) {
    struct Thunk {
      static bool Call(void* p) {
        rt::In(1);
        const bool r = (*static_cast<F*>(p))();
        rt::In(-1);
        return r;
      }
    };
    if (!on) return;
    rt::In(-1);
    if (!Thunk::Call(&pred)) rt::Block(what, &Thunk::Call, &pred);
    if (obj) rt::ObjEvent(obj, true, true, true);
    rt::In(1);
  }
};
inline void Notify() {}
inline const void* PortObj(uint16_t port) {
  static char c[65536];
  return &c[port];
}
#else
struct Lock {
  std::unique_lock<std::mutex> l;
  explicit Lock(const void* = nullptr, const char* = nullptr) : l(N().m) {}
  template <class F>
  void Wait(F pred, const char*) { N().cv.wait(l, pred); }
};
inline void Notify() { N().cv.notify_all(); }
inline const void* PortObj(uint16_t) { return nullptr; }
#endif
inline const void* ConnObj(int fd);

inline int Attach(const ep_t& e) {
  const int fd = ++N().next;
  N().eps[fd] = e;
  ++N().opened;
  return fd;
}
inline int Open(const ep_t& e) {
  Lock l;
  return Attach(e);
}
// As if a client has connected to this port.
inline void Push(uint16_t port, const ep_t& e) {
  Lock l(PortObj(port), "push");
  N().backlog[port].push_back(e);
  Notify();
}
inline void WaitClosed(const ep_t& e) {
  Lock l(e.get(), "wait closed");
  l.Wait([&e] { return e->closed; }, "connection closed");
}
inline int Listening(uint16_t port) {
  Lock l;
  const int fd = ++N().next;
  N().bound[fd] = port;
  return fd;
}
inline ep_t Get(int fd) {
  const auto it = N().eps.find(fd);
  return it == N().eps.end() ? nullptr : it->second;
}
inline const void* ConnObj(int fd) {
#ifdef FAKENET_SCHED
  Lock l;
  const ep_t e = Get(fd);
  if (!e) return nullptr;
  const ep_t o = e->other.lock();
  return o && o.get() < e.get() ? o.get() : e.get();
#else
  static_cast<void>(fd);
  return nullptr;
#endif
}
inline ssize_t Recv(int fd, void* p, size_t n, int flags) {
  Lock l(ConnObj(fd), "socket");
  const ep_t e = Get(fd);
  if (!e) {
    errno = EBADF;
    return -1;
  }
  if (e->loopback) l.Wait([&e] { return e->pos < e->in.size() || e->end != End::Block || e->shut; }, "recv");
  size_t done = 0;
  while (done < n && e->pos < e->in.size()) {
    size_t limit = e->in.size();
    for (size_t c : e->cuts)
      if (c > e->pos) {
        limit = c < limit ? c : limit;
        break;
      }
    if (e->eagain_at_cuts && !done && e->pos && e->last_eagain != e->pos) {
      bool at_cut = false;
      for (size_t c : e->cuts) at_cut |= c == e->pos;
      if (at_cut) {
        e->last_eagain = e->pos;
        errno = EAGAIN;
        return -1;
      }
    }
    size_t k = limit - e->pos;
    if (k > e->max_segment) k = e->max_segment;
    if (k > n - done) k = n - done;
    memcpy(static_cast<char*>(p) + done, e->in.data() + e->pos, k);
    e->pos += k;
    done += k;
    if (!(flags & MSG_WAITALL) || e->short_waitall) break;
    if (e->loopback && done < n && e->pos == e->in.size())
      l.Wait([&e] { return e->pos < e->in.size() || e->end != End::Block || e->shut; }, "recv(MSG_WAITALL)");
  }
  if (done || !n) return static_cast<ssize_t>(done);
  if (e->shut || e->end == End::Eof) {
    if (e->stale_errno) errno = e->stale_errno;
    return 0;
  }
  if (e->end == End::Block) e->blocked = true;
  errno = ECONNRESET;
  return -1;
}
inline ssize_t Send(int fd, const void* p, size_t n, int flags) {
  Lock l(ConnObj(fd), "socket");
  const ep_t e = Get(fd);
  if (!e || e->shut) {
    errno = e ? EPIPE : EBADF;
    return -1;
  }
  if (e->fail_send_after >= 0 && e->out.size() + n > static_cast<size_t>(e->fail_send_after)) {
    errno = ECONNRESET;
    return -1;
  }
  if (e->loopback) {
    const ep_t o = e->other.lock();
    if (!o || o->closed || e->broken) {
      errno = EPIPE;
      return -1;
    }
    const size_t left = o->break_after < 0 ? n : static_cast<size_t>(o->break_after) - o->in.size();
    o->in.append(static_cast<const char*>(p), left < n ? left : n);
    if (left <= n && o->break_after >= 0) {
      e->broken = o->broken = true;
      o->end = e->end = End::Reset;
    }
    o->cuts.push_back(o->in.size());
  }
  e->out.append(static_cast<const char*>(p), n);
  e->sends.push_back(n);
  if (!(flags & MSG_MORE)) e->pushed = e->out.size();
  Notify();
  return static_cast<ssize_t>(n);
}
inline void Shut(const ep_t& e) {
  e->shut = true;
  e->pushed = e->out.size();
  if (e->loopback)
    if (const ep_t o = e->other.lock())
      if (o->end == End::Block) o->end = End::Eof;
  Notify();
}
inline int Connect(int fd, uint16_t port) {
  Lock l(PortObj(port), "connect");
  N().bare.erase(fd);
  if (N().on_connect) {
    const ep_t e = N().on_connect(LastHost(), port);
    if (!e) {
      errno = ECONNREFUSED;
      return -1;
    }
    N().eps[fd] = e;
    ++N().opened;
    return 0;
  }
  bool listening = false;
  for (const auto& lb : N().bound) listening |= lb.second == port;
  if (!listening) {
    errno = ECONNREFUSED;
    return -1;
  }
  const ep_t a = std::make_shared<Endpoint>(), b = std::make_shared<Endpoint>();
  a->loopback = b->loopback = true;
  a->other = b;
  b->other = a;
  if (N().on_loopback && !N().on_loopback(a, b)) {
    errno = ECONNREFUSED;
    return -1;
  }
  N().eps[fd] = a;
  ++N().opened;
  N().backlog[port].push_back(b);
  Notify();
  return 0;
}
inline uint16_t PortOf(int fd) {
  Lock l;
  const auto it = N().bound.find(fd);
  return it == N().bound.end() ? static_cast<uint16_t>(0) : it->second;
}
inline int Accept(int fd) {
  Lock l(PortObj(PortOf(fd)), "accept");
  const auto it = N().bound.find(fd);
  if (it == N().bound.end()) {
    errno = EBADF;
    return -1;
  }
  const uint16_t port = it->second;
  l.Wait([fd, port] { return !N().backlog[port].empty() || !N().bound.count(fd); }, "accept");
  if (!N().bound.count(fd)) {
    errno = EINVAL;
    return -1;
  }
  const ep_t e = N().backlog[port].front();
  N().backlog[port].pop_front();
  return Attach(e);
}
inline int Close(int fd) {
  const uint16_t port = PortOf(fd);
  Lock l(port ? PortObj(port) : ConnObj(fd), "close");
  N().bare.erase(fd);
  if (N().bound.erase(fd)) {
    Notify();
    return 0;
  }
  const ep_t e = Get(fd);
  if (!e) return 0;
  Shut(e);
  e->closed = true;
  ++N().closed;
  N().eps.erase(fd);
  Notify();
  return 0;
}

}  // namespace fakenet

extern "C" {
ssize_t recv(int fd, void* p, size_t n, int flags) { return fakenet::Mine(fd) ? fakenet::Recv(fd, p, n, flags) : syscall(SYS_recvfrom, fd, p, n, flags, nullptr, nullptr); }
ssize_t send(int fd, const void* p, size_t n, int flags) { return fakenet::Mine(fd) ? fakenet::Send(fd, p, n, flags) : syscall(SYS_sendto, fd, p, n, flags, nullptr, 0); }
int socket(int domain, int type, int protocol) noexcept {
  if (domain != AF_INET) return static_cast<int>(syscall(SYS_socket, domain, type, protocol));
  fakenet::Lock l;
  const int fd = ++fakenet::N().next;
  fakenet::N().bare.insert(fd);
  return fd;
}
int setsockopt(int fd, int a, int b, const void* c, socklen_t d) noexcept { return fakenet::Mine(fd) ? 0 : static_cast<int>(syscall(SYS_setsockopt, fd, a, b, c, d)); }
int bind(int fd, const struct sockaddr* a, socklen_t len) noexcept {
  if (!fakenet::Mine(fd)) return static_cast<int>(syscall(SYS_bind, fd, a, len));
  const uint16_t port = ntohs(reinterpret_cast<const sockaddr_in*>(a)->sin_port);
  fakenet::Lock l;
  for (const auto& b : fakenet::N().bound)
    if (b.second == port) {
      errno = EADDRINUSE;
      return -1;
    }
  fakenet::N().bare.erase(fd);
  fakenet::N().bound[fd] = port;
  return 0;
}
int listen(int fd, int n) noexcept { return fakenet::Mine(fd) ? 0 : static_cast<int>(syscall(SYS_listen, fd, n)); }
int accept(int fd, struct sockaddr* a, socklen_t* len) {
  if (!fakenet::Mine(fd)) return static_cast<int>(syscall(SYS_accept, fd, a, len));
  const int r = fakenet::Accept(fd);
  if (r >= 0 && a) {
    sockaddr_in* in = reinterpret_cast<sockaddr_in*>(a);
    in->sin_family = AF_INET;
    in->sin_port = htons(40000);
    in->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  }
  return r;
}
int connect(int fd, const struct sockaddr* a, socklen_t len) {
  if (!fakenet::Mine(fd)) return static_cast<int>(syscall(SYS_connect, fd, a, len));
  return fakenet::Connect(fd, ntohs(reinterpret_cast<const sockaddr_in*>(a)->sin_port));
}
int getsockname(int fd, struct sockaddr* a, socklen_t* len) noexcept {
  if (!fakenet::Mine(fd)) return static_cast<int>(syscall(SYS_getsockname, fd, a, len));
  sockaddr_in* in = reinterpret_cast<sockaddr_in*>(a);
  memset(in, 0, sizeof(*in));
  in->sin_family = AF_INET;
  in->sin_port = htons(40001);
  in->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  return 0;
}
int shutdown(int fd, int how) noexcept {
  if (!fakenet::Mine(fd)) return static_cast<int>(syscall(SYS_shutdown, fd, how));
  fakenet::Lock l(fakenet::ConnObj(fd), "shutdown");
  if (const fakenet::ep_t e = fakenet::Get(fd)) fakenet::Shut(e);
  return 0;
}
#ifndef FAKENET_NO_CLOSE
int close(int fd) { return fakenet::Mine(fd) ? fakenet::Close(fd) : static_cast<int>(syscall(SYS_close, fd)); }
#endif
int getaddrinfo(const char* node, const char* serv, const struct addrinfo*, struct addrinfo** res) {
  fakenet::LastHost() = node ? node : "";
  addrinfo* r = static_cast<addrinfo*>(calloc(1, sizeof(addrinfo)));
  sockaddr_in* in = static_cast<sockaddr_in*>(calloc(1, sizeof(sockaddr_in)));
  in->sin_family = AF_INET;
  in->sin_port = htons(static_cast<uint16_t>(serv && *serv ? atoi(serv) : 0));
  in->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  r->ai_family = AF_INET;
  r->ai_socktype = SOCK_STREAM;
  r->ai_addr = reinterpret_cast<sockaddr*>(in);
  r->ai_addrlen = sizeof(sockaddr_in);
  *res = r;
  return 0;
}
void freeaddrinfo(struct addrinfo* r) noexcept {
  free(r->ai_addr);
  free(r);
}
}
