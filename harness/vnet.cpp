#include "vnet.h"
#include "vsched.h"
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/sockios.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <algorithm>
#include <deque>
#include <map>
#include <memory>

#define REALFN(name) static auto r = (decltype(&name))dlsym(RTLD_NEXT, #name)

namespace vnet {
Params params;
int64_t connectStart;
Hooks hooks;
namespace {
constexpr int kBase = 10000;
struct Conn;
struct Dir {
  std::string buf;         // written, not read yet
  long written = 0;        // accepted so far
  long delivered = 0;      // may be read up to here
  long readPos = 0;        // read so far
  bool fin = false;        // no more is written
  Fault* fault = nullptr;  // next fault here
  int64_t stallUntil = -1; // the fault's stall
};
struct Conn {
  int port, nth;
  Dir d[2];
  bool open[2] = {true, false};  // the ends
  bool rst = false;
  bool sawRst[2] = {false, false};
  bool peerGone[2] = {false, false};
};
struct Sock {
  int64_t connectStart = 0;
  int fd;
  bool nonblock = false;
  int64_t rcvto = -1, sndto = -1;
  // listening
  bool bound = false, listens = false;
  int port = 0, backlog = 0;
  std::deque<std::shared_ptr<Conn>> queue;
  // connection
  std::shared_ptr<Conn> c;
  int side = -1;
  bool connecting = false;
  int soError = 0;
  bool blackhole = false;
};
std::map<int, std::unique_ptr<Sock>> socks;
std::map<int, int> nthConn;
int nextFd = kBase;
int nextPort = 40001;
thread_local Cur cur_;

Sock* get(int fd) {
  auto it = socks.find(fd);
  return it == socks.end() ? nullptr : it->second.get();
}
Sock* listener(int port) {
  for (auto& s : socks) {
    if (s.second->listens && s.second->port == port) {
      return s.second.get();
    }
  }
  return nullptr;
}
Fault* findFault(int port, int nth, int dir, long from) {
  Fault* best = nullptr;
  for (auto& f : params.faults) {
    if (!f.done && f.port == port && f.nth == nth && f.dir == dir && f.off >= from && f.kind != "refuse" &&
        f.kind != "blackhole" && (!best || f.off < best->off)) {
      best = &f;
    }
  }
  return best;
}
void kill(const std::shared_ptr<Conn>& c) {
  c->rst = true;
  for (int d = 0; d < 2; d++) {
    // what was not delivered is lost
    Dir& x = c->d[d];
    if (params.rstDropsRx) {
      x.buf.clear();
      x.delivered = x.readPos;
    } else {
      x.buf.resize(x.delivered - x.readPos);
    }
  }
}
// moves what may be delivered, fires faults that are due
void advanceDir(const std::shared_ptr<Conn>& c, int d) {
  Dir& x = c->d[d];
  for (;;) {
    if (c->rst) {
      return;
    }
    if (!x.fault) {
      x.fault = findFault(c->port, c->nth, d, x.delivered);
    }
    long lim = x.written;
    if (x.fault && x.fault->off < lim) {
      lim = x.fault->off;
    }
    x.delivered = std::max(x.delivered, lim);
    if (!x.fault || x.written <= x.fault->off) {
      return;
    }
    Fault* f = x.fault;
    // something is written past the fault's point
    if (f->ms > 0) {
      if (x.stallUntil < 0) {
        x.stallUntil = sched::nowNs() + f->ms * 1000000;
        if (hooks.fault) {
          hooks.fault(c->port, c->nth, "stall");
        }
      }
      if (sched::nowNs() < x.stallUntil) {
        return;
      }
      x.stallUntil = -1;
    }
    f->done = true;
    x.fault = nullptr;
    if (f->kind == "cdata") {
      f->kind = hooks.covered && hooks.covered(c->port, c->nth, f->off) ? "corrupt" : "none";
    }
    if (hooks.fault && f->kind != "none") {
      hooks.fault(c->port, c->nth, f->kind.c_str());
    }
    if (f->kind == "rst") {
      kill(c);
      return;
    } else if (f->kind == "fin") {
      // the reader of this direction sees an end, the writer an error
      x.buf.resize(x.delivered - x.readPos);
      x.written = x.delivered;
      x.fin = true;
      c->peerGone[d] = true;
      return;
    } else if (f->kind == "corrupt") {
      long at = f->off - x.readPos;
      if (at >= 0 && at < (long)x.buf.size()) {
        x.buf[at] ^= (char)(f->ms > 0 ? 1 : 0x55);
      }
    } else if (f->kind.compare(0, 4, "drop") == 0) {
      // so many bytes vanish (as many of them as are there)
      long at = f->off - x.readPos, k = std::min<long>(atol(f->kind.c_str() + 4), (long)x.buf.size() - at);
      x.buf.erase(at, k);
      x.written -= k;
    } else if (f->kind.compare(0, 3, "dup") == 0) {
      // so many bytes come twice
      long at = f->off - x.readPos, k = std::min<long>(atol(f->kind.c_str() + 3), (long)x.buf.size() - at);
      x.buf.insert(at, x.buf.substr(at, k));
      x.written += k;
    }
  }
}
void advanceAll(const std::shared_ptr<Conn>& c) {
  advanceDir(c, 0);
  advanceDir(c, 1);
}
bool stalled(const std::shared_ptr<Conn>& c, int d) {
  return c->d[d].stallUntil >= 0;
}
int64_t minDeadline(int64_t a, int64_t b) {
  return a < 0 ? b : b < 0 ? a : std::min(a, b);
}
void tryConnect(Sock* s) {
  if (!s->connecting || s->blackhole) {
    return;
  }
  Sock* l = listener(s->port);
  if (!l) {
    s->connecting = false;
    s->soError = ECONNREFUSED;
    s->c = nullptr;
    return;
  }
  if ((int)l->queue.size() > l->backlog) {
    return;
  }
  s->connecting = false;
  s->soError = 0;
  s->side = 0;
  s->c->open[1] = true;
  l->queue.push_back(s->c);
}
}  // namespace

bool isSocket(int fd) {
  return fd >= kBase;
}
Cur current() {
  return cur_;
}
int openConnections() {
  int n = 0;
  for (auto& s : socks) {
    n += s.second->c != nullptr;
  }
  return n;
}

long readSock(int fd, void* buf, size_t n) {
  sched::yield();
  Sock* s = get(fd);
  if (s && s->connecting && s->nonblock) {
    std::function<bool()> never = [] { return false; };
    sched::waitFor(never, sched::nowNs() + 50000000, "read of what is not connected yet");
    errno = EAGAIN;
    return -1;
  }
  if (!s || !s->c || s->connecting) {
    errno = s ? ENOTCONN : EBADF;
    return -1;
  }
  auto c = s->c;
  int side = s->side, d = 1 - side;
  Dir& x = c->d[d];
  int64_t deadline = s->rcvto > 0 ? sched::nowNs() + s->rcvto : -1;
  for (;;) {
    advanceAll(c);
    long have = x.delivered - x.readPos;
    if (have > 0) {
      long k = std::min<long>(have, n);
      if (params.seg > 0) {
        k = std::min<long>(k, 1 + sched::rnd(params.seg));
      }
      memcpy(buf, x.buf.data(), k);
      x.buf.erase(0, k);
      x.readPos += k;
      if (hooks.didRead) {
        hooks.didRead(c->port, c->nth, side, (char*)buf, k);
      }
      sched::yield();
      return k;
    }
    if (c->rst) {
      if (!c->sawRst[side]) {
        c->sawRst[side] = true;
        if (hooks.broke) {
          hooks.broke(c->port, c->nth, side, "rst");
        }
        errno = ECONNRESET;
        return -1;
      }
      return 0;
    }
    if (x.fin && x.readPos == x.written) {
      if (hooks.broke) {
        hooks.broke(c->port, c->nth, side, "eof");
      }
      return 0;
    }
    if (x.fin && c->peerGone[d]) {
      if (hooks.broke) {
        hooks.broke(c->port, c->nth, side, "eof");
      }
      return 0;
    }
    std::function<bool()> pred = [&] {
      return x.delivered > x.readPos || c->rst || x.fin || (x.written > x.delivered && !stalled(c, d));
    };
    // a stall ends by time
    int64_t dl = deadline;
    if (stalled(c, d)) {
      dl = minDeadline(dl, x.stallUntil);
      std::function<bool()> p2 = [&] { return c->rst; };
      sched::waitFor(p2, dl, "socket read (stalled)");
    } else {
      sched::waitFor(pred, dl, "socket read");
    }
    if (deadline >= 0 && sched::nowNs() >= deadline && !(x.delivered > x.readPos) && !c->rst) {
      advanceAll(c);
      if (x.delivered > x.readPos || c->rst || (x.fin && x.readPos == x.written)) {
        continue;
      }
      errno = EAGAIN;
      return -1;
    }
  }
}

long writeSock(int fd, const void* buf, size_t n) {
  Sock* s = get(fd);
  if (!s || !s->c || s->connecting) {
    errno = s ? ENOTCONN : EBADF;
    return -1;
  }
  auto c = s->c;
  int side = s->side;
  if (hooks.attempt) {
    hooks.attempt(c->port, c->nth, side, (const char*)buf, n);
  }
  sched::yield();
  Dir& x = c->d[side];
  int64_t deadline = s->sndto > 0 ? sched::nowNs() + s->sndto : -1;
  long done = 0;
  while (done < (long)n) {
    advanceAll(c);
    if (c->rst || x.fin || c->peerGone[side]) {
      if (hooks.broke) {
        hooks.broke(c->port, c->nth, side, "write");
      }
      if (done) {
        break;
      }
      errno = c->rst && !c->sawRst[side] ? ECONNRESET : EPIPE;
      c->sawRst[side] = true;
      return -1;
    }
    if (!c->open[1 - side] && c->d[1 - side].fin) {
      // the other end is closed: taken, but answered by a reset
      c->rst = true;
      c->peerGone[side] = true;
      done = n;
      x.written += n;
      x.delivered = x.readPos = x.written;
      x.buf.clear();
      if (hooks.wrote) {
        hooks.wrote(c->port, c->nth, side, n);
      }
      return n;
    }
    long room = params.capacity - (long)x.buf.size();
    if (room > 0) {
      long k = std::min<long>(room, n - done);
      x.buf.append((const char*)buf + done, k);
      x.written += k;
      done += k;
      advanceDir(c, side);
      if (hooks.wrote) {
        hooks.wrote(c->port, c->nth, side, k);
      }
      continue;
    }
    std::function<bool()> pred = [&] {
      return c->rst || x.fin || c->peerGone[side] || (long)x.buf.size() < params.capacity ||
             (!c->open[1 - side] && c->d[1 - side].fin);
    };
    int64_t dl = deadline;
    if (stalled(c, side)) {
      dl = minDeadline(dl, x.stallUntil);
    }
    sched::waitFor(pred, dl, "socket write");
    if (deadline >= 0 && sched::nowNs() >= deadline && !pred()) {
      if (done) {
        break;
      }
      errno = EAGAIN;
      return -1;
    }
  }
  sched::yield();
  return done;
}

int closeSock(int fd) {
  Sock* s = get(fd);
  if (!s) {
    errno = EBADF;
    return -1;
  }
  if (s->listens) {
    for (auto& c : s->queue) {
      kill(c);
    }
    int port = s->port;
    socks.erase(fd);
    bool strangers = false;
    for (auto& t : params.taken) {
      strangers |= t.fd == fd;
    }
    if (hooks.unlistened && !strangers) {
      hooks.unlistened(port);
    }
    sched::yield();
    return 0;
  }
  if (s->c && s->connecting) {
    connectStart = s->connectStart;
    if (hooks.connected) {
      hooks.connected(s->port, s->c->nth, false, "timeout");
    }
  } else if (s->c) {
    auto c = s->c;
    int side = s->side;
    c->open[side] = false;
    Dir& in = c->d[1 - side];
    advanceAll(c);
    if (!c->rst && in.written > in.readPos) {
      // closed with unread data: the other end is reset, it may still read
      // what it was sent
      c->rst = true;
      Dir& out = c->d[side];
      out.buf.resize(out.delivered - out.readPos);
    }
    c->d[side].fin = true;
    if (hooks.closed) {
      hooks.closed(c->port, c->nth, side);
    }
  }
  socks.erase(fd);
  sched::yield();
  return 0;
}
void takePorts() {
  for (auto& t : params.taken) {
    if (t.stranger && t.tries > 0) {
      auto s = std::make_unique<Sock>();
      t.fd = s->fd = nextFd++;
      s->port = t.port;
      s->bound = s->listens = true;
      s->backlog = 1000;
      socks[t.fd] = std::move(s);
    }
  }
}
}  // namespace vnet

using namespace vnet;

extern "C" {
int socket(int domain, int type, int proto) {
  if (!sched::on() || (domain != AF_INET && domain != AF_INET6)) {
    REALFN(socket);
    return r(domain, type, proto);
  }
  auto s = std::make_unique<Sock>();
  s->fd = nextFd++;
  int fd = s->fd;
  socks[fd] = std::move(s);
  return fd;
}
static int portOf(const struct sockaddr* a) {
  return ntohs(((const struct sockaddr_in*)a)->sin_port);
}
int bind(int fd, const struct sockaddr* a, socklen_t n) {
  Sock* s = get(fd);
  if (!s) {
    REALFN(bind);
    return r(fd, a, n);
  }
  int port = portOf(a);
  if (port == 0) {
    port = nextPort++;
  }
  for (auto& t : params.taken) {
    if (t.port == port && t.tries > 0) {
      t.tries--;
      if (t.tries == 0 && t.fd >= 0) {
        closeSock(t.fd);
      }
      errno = EADDRINUSE;
      return -1;
    }
  }
  if (listener(port)) {
    errno = EADDRINUSE;
    return -1;
  }
  s->port = port;
  s->bound = true;
  return 0;
}
int listen(int fd, int backlog) {
  Sock* s = get(fd);
  if (!s) {
    REALFN(listen);
    return r(fd, backlog);
  }
  if (listener(s->port)) {
    errno = EADDRINUSE;
    return -1;
  }
  s->listens = true;
  s->backlog = backlog;
  if (hooks.listening) {
    hooks.listening(s->port);
  }
  return 0;
}
int accept(int fd, struct sockaddr* a, socklen_t* n) {
  Sock* s = get(fd);
  if (!s) {
    REALFN(accept);
    return r(fd, a, n);
  }
  sched::yield();
  if (s->queue.empty()) {
    std::function<bool()> pred = [&] { return !s->queue.empty(); };
    sched::waitFor(pred, -1, "accept");
  }
  auto c = s->queue.front();
  s->queue.pop_front();
  auto x = std::make_unique<Sock>();
  x->fd = nextFd++;
  x->c = c;
  x->side = 1;
  x->port = s->port;
  int nfd = x->fd;
  socks[nfd] = std::move(x);
  for (auto& o : socks) {
    if (o.second->connecting && o.second->port == s->port) {
      tryConnect(o.second.get());
    }
  }
  if (a) {
    struct sockaddr_in in;
    memset(&in, 0, sizeof in);
    in.sin_family = AF_INET;
    in.sin_port = htons(50000 + c->nth);
    in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    memcpy(a, &in, std::min<size_t>(*n, sizeof in));
    *n = sizeof in;
  }
  cur_ = Cur{c->port, c->nth, 1};
  if (hooks.accepted) {
    hooks.accepted(c->port, c->nth);
  }
  return nfd;
}
int connect(int fd, const struct sockaddr* a, socklen_t n) {
  Sock* s = get(fd);
  if (!s) {
    REALFN(connect);
    return r(fd, a, n);
  }
  sched::yield();
  s->port = portOf(a);
  int nth = nthConn[s->port]++;
  s->c = std::make_shared<Conn>();
  s->c->port = s->port;
  s->c->nth = nth;
  s->connecting = true;
  connectStart = s->connectStart = sched::nowNs();
  for (auto& f : params.faults) {
    if (!f.done && f.port == s->port && f.nth == nth && (f.kind == "refuse" || f.kind == "blackhole")) {
      f.done = true;
      if (f.kind == "refuse") {
        s->connecting = false;
        s->c = nullptr;
        if (hooks.connected) {
          hooks.connected(s->port, nth, false, "refused");
        }
        errno = ECONNREFUSED;
        return -1;
      }
      s->blackhole = true;
    }
  }
  tryConnect(s);
  if (s->soError) {
    errno = s->soError;
    s->soError = 0;
    if (hooks.connected) {
      hooks.connected(s->port, nth, false, "refused");
    }
    return -1;
  }
  cur_ = Cur{s->port, nth, 0};
  if (!s->connecting) {
    if (hooks.connected) {
      hooks.connected(s->port, nth, true, "");
    }
    return 0;
  }
  if (s->nonblock) {
    errno = EINPROGRESS;
    return -1;
  }
  std::function<bool()> pred = [&] {
    tryConnect(s);
    return !s->connecting;
  };
  sched::waitFor(pred, sched::nowNs() + 20000000000L, "connect");
  if (s->connecting) {
    errno = ETIMEDOUT;
    return -1;
  }
  if (s->soError) {
    errno = s->soError;
    return -1;
  }
  if (hooks.connected) {
    hooks.connected(s->port, nth, true, "");
  }
  return 0;
}
int poll(struct pollfd* fds, nfds_t n, int timeout) {
  bool mine = false;
  for (nfds_t i = 0; i < n; i++) {
    mine = mine || isSocket(fds[i].fd);
  }
  if (!mine) {
    REALFN(poll);
    return r(fds, n, timeout);
  }
  errno = 0;
  sched::yield();
  std::function<bool()> pred = [&] {
    bool any = false;
    for (nfds_t i = 0; i < n; i++) {
      fds[i].revents = 0;
      Sock* s = get(fds[i].fd);
      if (!s) {
        fds[i].revents = POLLNVAL;
        any = true;
        continue;
      }
      if (s->connecting) {
        tryConnect(s);
      }
      if (s->listens) {
        if ((fds[i].events & POLLIN) && !s->queue.empty()) {
          fds[i].revents |= POLLIN;
        }
      } else if (!s->connecting) {
        if (fds[i].events & POLLOUT) {
          fds[i].revents |= POLLOUT;
        }
        if (s->soError) {
          fds[i].revents |= POLLERR;
        }
      }
      any = any || fds[i].revents;
    }
    return any;
  };
  int64_t dl = timeout < 0 ? -1 : sched::nowNs() + timeout * 1000000LL;
  if (!sched::waitFor(pred, dl, "poll")) {
    return 0;
  }
  int k = 0;
  for (nfds_t i = 0; i < n; i++) {
    k += fds[i].revents != 0;
  }
  return k;
}
int getsockopt(int fd, int level, int opt, void* v, socklen_t* n) {
  Sock* s = get(fd);
  if (!s) {
    REALFN(getsockopt);
    return r(fd, level, opt, v, n);
  }
  int val = 0;
  if (level == SOL_SOCKET && opt == SO_ERROR) {
    val = s->soError;
    s->soError = 0;
    if (hooks.connected && s->c && !s->connecting) {
      connectStart = s->connectStart;
      hooks.connected(s->port, s->c->nth, val == 0, val ? "refused" : "");
    }
  } else {
    val = 65536;
  }
  memcpy(v, &val, std::min<size_t>(*n, sizeof val));
  return 0;
}
int setsockopt(int fd, int level, int opt, const void* v, socklen_t n) {
  Sock* s = get(fd);
  if (!s) {
    REALFN(setsockopt);
    return r(fd, level, opt, v, n);
  }
  if (level == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)) {
    const struct timeval* tv = (const struct timeval*)v;
    int64_t ns = tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL;
    (opt == SO_RCVTIMEO ? s->rcvto : s->sndto) = ns;
  }
  return 0;
}
int getsockname(int fd, struct sockaddr* a, socklen_t* n) {
  Sock* s = get(fd);
  if (!s) {
    REALFN(getsockname);
    return r(fd, a, n);
  }
  struct sockaddr_in in;
  memset(&in, 0, sizeof in);
  in.sin_family = AF_INET;
  in.sin_port = htons(s->port);
  memcpy(a, &in, std::min<size_t>(*n, sizeof in));
  *n = sizeof in;
  return 0;
}
int shutdown(int fd, int how) {
  Sock* s = get(fd);
  if (!s) {
    REALFN(shutdown);
    return r(fd, how);
  }
  sched::yield();
  if (!s->c || s->c->rst) {
    errno = ENOTCONN;
    return -1;
  }
  s->c->d[s->side].fin = true;
  return 0;
}
int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  Sock* s = get(fd);
  if (!s) {
    static auto r = (int (*)(int, int, ...))dlsym(RTLD_NEXT, "fcntl");
    return r(fd, cmd, arg);
  }
  if (cmd == F_GETFL) {
    return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
  }
  if (cmd == F_SETFL) {
    s->nonblock = ((long)arg & O_NONBLOCK) != 0;
  }
  return 0;
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  return fcntl(fd, cmd, arg);
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  Sock* s = get(fd);
  if (!s) {
    static auto r = (int (*)(int, unsigned long, ...))dlsym(RTLD_NEXT, "ioctl");
    return r(fd, req, arg);
  }
  if (req == SIOCOUTQ && s->c) {
    Dir& x = s->c->d[s->side];
    advanceAll(s->c);
    *(int*)arg = s->c->rst ? 0 : x.written - x.delivered;
    return 0;
  }
  errno = EINVAL;
  return -1;
}
int getaddrinfo(const char* node, const char* service, const struct addrinfo* hints, struct addrinfo** res) {
  if (!sched::on()) {
    REALFN(getaddrinfo);
    return r(node, service, hints, res);
  }
  struct addrinfo* a = (struct addrinfo*)calloc(1, sizeof(struct addrinfo) + sizeof(struct sockaddr_in));
  struct sockaddr_in* in = (struct sockaddr_in*)(a + 1);
  in->sin_family = AF_INET;
  in->sin_port = htons(service ? atoi(service) : 0);
  in->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  a->ai_family = AF_INET;
  a->ai_socktype = SOCK_STREAM;
  a->ai_addrlen = sizeof *in;
  a->ai_addr = (struct sockaddr*)in;
  *res = a;
  return 0;
}
void freeaddrinfo(struct addrinfo* a) {
  if (!sched::on()) {
    REALFN(freeaddrinfo);
    return r(a);
  }
  free(a);
}
}
