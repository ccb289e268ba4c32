#include "vsched.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <iostream>
#include <memory>
#include <unordered_map>

#define REAL(f) ((decltype(&f))real(#f))
static void* real(const char* n) {
  void* p = dlsym(RTLD_NEXT, n);
  if (!p) {
    fprintf(stderr, "no symbol %s\n", n);
    _exit(99);
  }
  return p;
}

namespace sched {
namespace {
struct T {
  int id;
  std::string name;
  int baton = 0;
  bool started = true;
  bool done = false;
  bool joined = false;
  bool finished = false;
  const std::function<bool()>* pred = nullptr;
  int64_t deadline = -1;
  bool timedOut = false;
  const char* what = "";
  int prio = 0;
  pthread_t pt;
  int noyield = 0;
  char *stLo = nullptr, *stHi = nullptr;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
};
Params P;
bool gOn = false;
std::vector<T*> ts;
T* cur = nullptr;
thread_local T* me = nullptr;
int64_t vnow = 1700000000LL * 1000000000LL;
int64_t vstart = vnow;
long nsteps = 0;
uint64_t rs = 88172645463325252ULL;
std::vector<long> changeAt;
int lowPrio = -1;
pthread_key_t exitKey;
long countdown = 1L << 60;

uint64_t next() {
  rs ^= rs << 13;
  rs ^= rs >> 7;
  rs ^= rs << 17;
  return rs * 0x2545F4914F6CDD1DULL;
}

void resetCountdown() {
  if (P.gap <= 0) {
    countdown = 1L << 60;
  } else {
    countdown = 1 + (next() >> 20) % (2 * P.gap);
  }
}

void fwait(int* w) {
  while (!__atomic_load_n(w, __ATOMIC_ACQUIRE)) {
    syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
  __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
void fwake(int* w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

bool runnable(T* t) {
  if (t->finished) {
    return false;
  }
  if (!t->pred) {
    return true;
  }
  if ((*t->pred)()) {
    return true;
  }
  return t->deadline >= 0 && t->deadline <= vnow;
}

void stuck(const char* why) {
  gOn = false;
  if (onStuck) {
    onStuck(why);
  }
  fprintf(stderr, "%s\n%s", why, describe().c_str());
  _exit(strcmp(why, "deadlock") == 0 ? 70 : 71);
}

T* pick() {
  for (;;) {
    std::vector<T*> r;
    int64_t mind = -1;
    for (T* t : ts) {
      if (runnable(t)) {
        r.push_back(t);
      } else if (!t->finished && t->deadline >= 0) {
        if (mind < 0 || t->deadline < mind) {
          mind = t->deadline;
        }
      }
    }
    if (!r.empty() && mind >= 0 && P.early > 0 && (int)((next() >> 20) % 1000) < P.early &&
        mind - vnow < 120LL * 1000000000) {
      vnow = mind;
      continue;
    }
    if (r.empty()) {
      if (mind < 0) {
        stuck("deadlock");
      }
      vnow = std::max(vnow, mind);
      if (vnow - vstart > P.maxVirtualMs * 1000000L) {
        stuck("virtual time limit");
      }
      continue;
    }
    if (r.size() == 1) {
      return r[0];
    }
    if (P.mode == 1) {
      T* best = r[0];
      for (T* t : r) {
        if (t->prio > best->prio) {
          best = t;
        }
      }
      return best;
    }
    if (P.mode == 2) {
      for (T* t : r) {
        if (t == cur) {
          return t;
        }
      }
      return r[(next() >> 20) % r.size()];
    }
    if ((int)((next() >> 20) % 100) < P.stay) {
      for (T* t : r) {
        if (t == cur) {
          return t;
        }
      }
    }
    return r[(next() >> 20) % r.size()];
  }
}

// gives the baton away; returns when it comes back (never, for a finished one)
void reschedule(bool finishing = false, bool other = false) {
  static bool nested = false;
  ++nsteps;
  vnow += 200;
  if (nsteps > P.maxSteps) {
    stuck("step limit");
  }
  if (P.mode == 1 && !finishing) {
    for (long c : changeAt) {
      if (c == nsteps) {
        me->prio = lowPrio--;
      }
    }
    // a long spin must not starve the others
    if (nsteps % 5000 == 0) {
      me->prio = lowPrio--;
    }
  }
  if (onStep && !nested) {
    nested = true;
    onStep();
    nested = false;
  }
  T* t = nullptr;
  if (other) {
    std::vector<T*> r;
    for (T* x : ts) {
      if (x != me && runnable(x)) {
        r.push_back(x);
      }
    }
    if (!r.empty()) {
      t = r[(next() >> 20) % r.size()];
    }
  }
  if (!t) {
    t = pick();
  }
  T* self = me;
  cur = t;
  if (t != self) {
    resetCountdown();
    fwake(&t->baton);
    if (finishing) {
      return;
    }
    fwait(&self->baton);
  }
}

void onExit(void* v) {
  T* t = (T*)v;
  static thread_local int rounds = 0;
  if (rounds++ < 2) {
    pthread_setspecific(exitKey, v);
    return;
  }
  t->finished = true;
  reschedule(true);
  me = nullptr;
}

void* trampoline(void* v) {
  T* t = (T*)v;
  me = t;
  fwait(&t->baton);
  pthread_setspecific(exitKey, t);
  pthread_attr_t a;
  void* base;
  size_t sz;
  if (pthread_getattr_np(pthread_self(), &a) == 0) {
    pthread_attr_getstack(&a, &base, &sz);
    t->stLo = (char*)base;
    t->stHi = (char*)base + sz;
    pthread_attr_destroy(&a);
  }
  void* r = t->fn(t->arg);
  t->done = true;
  return r;
}
}  // namespace

std::function<void(const char*)> onStuck;
std::function<void()> onStep;

bool on() {
  return gOn && me;
}
int64_t nowNs() {
  return vnow;
}
void advance(int64_t ns) {
  vnow += ns;
}
uint64_t rnd(uint64_t n) {
  return (next() >> 11) % n;
}
long steps() {
  return nsteps;
}
int self() {
  return me ? me->id : -1;
}
void name(const std::string& s) {
  if (me) {
    me->name = s;
  }
}
void noYield(bool b) {
  if (me) {
    me->noyield += b ? 1 : -1;
  }
}
std::string describe() {
  std::string s;
  for (T* t : ts) {
    if (!t->finished) {
      s += "  thread " + std::to_string(t->id) + " " + t->name + ": " +
           (t->pred ? std::string("waits: ") + t->what +
                          (t->deadline >= 0 ? " until " + std::to_string((t->deadline - vstart) / 1000000) + "ms" : "")
                    : "runs") + "\n";
    }
  }
  s += "  at " + std::to_string((vnow - vstart) / 1000000) + "ms, step " + std::to_string(nsteps) + "\n";
  return s;
}
void start(const Params& p) {
  P = p;
  rs = 0x9E3779B97F4A7C15ULL * (p.seed + 1) ^ 88172645463325252ULL;
  for (int i = 0; i < 10; i++) {
    next();
  }
  pthread_key_create(&exitKey, onExit);
  T* t = new T();
  t->id = 0;
  t->name = "main";
  t->pt = pthread_self();
  pthread_attr_t a;
  void* base;
  size_t sz;
  if (pthread_getattr_np(pthread_self(), &a) == 0) {
    pthread_attr_getstack(&a, &base, &sz);
    t->stLo = (char*)base;
    t->stHi = (char*)base + sz;
    pthread_attr_destroy(&a);
  }
  t->prio = 1000 + rnd(1000);
  ts.push_back(t);
  me = cur = t;
  for (int i = 0; i < p.changes; i++) {
    changeAt.push_back(1 + rnd(p.horizon));
  }
  resetCountdown();
  gOn = true;
}
void yield() {
  if (!on() || me->noyield) {
    return;
  }
  reschedule();
}
bool waitFor(const std::function<bool()>& pred, int64_t deadline, const char* what) {
  for (;;) {
    if (pred()) {
      return true;
    }
    if (deadline >= 0 && deadline <= vnow) {
      return false;
    }
    me->pred = &pred;
    me->deadline = deadline;
    me->what = what;
    T* self = me;
    reschedule();
    self->pred = nullptr;
    self->deadline = -1;
  }
}

// ------------------------------------------------ instrumented accesses
static inline void access(const void* a) {
  if (__builtin_expect(--countdown <= 0, 0)) {
    if (!on() || me->noyield) {
      countdown = 1L << 60;
      if (gOn) {
        resetCountdown();
      }
      return;
    }
    resetCountdown();
    reschedule(false, true);
  }
}
static inline void acc(const void* a) {
  T* t = me;
  if (!t || ((char*)a >= t->stLo && (char*)a < t->stHi)) {
    return;
  }
  access(a);
}

Scenario parse(const std::string& line) {
  Scenario s;
  size_t i = 0;
  while (i < line.size()) {
    size_t j = line.find(' ', i);
    if (j == std::string::npos) {
      j = line.size();
    }
    std::string w = line.substr(i, j - i);
    size_t e = w.find('=');
    if (!w.empty()) {
      if (e == std::string::npos) {
        s[w] = "";
      } else {
        s[w.substr(0, e)] = w.substr(e + 1);
      }
    }
    i = j + 1;
  }
  return s;
}

int pool(int jobs, int secs, const std::function<void(const std::string&, FILE*)>& fn) {
  std::vector<std::string> lines;
  std::string l;
  while (std::getline(std::cin, l)) {
    if (!l.empty()) {
      lines.push_back(l);
    }
  }
  struct Run {
    pid_t pid;
    int fd;
    size_t idx;
    std::string out;
    bool eof;
  };
  std::vector<Run> runs;
  size_t nx = 0;
  fflush(stdout);
  while (nx < lines.size() || !runs.empty()) {
    while (nx < lines.size() && (int)runs.size() < jobs) {
      int p[2];
      if (pipe(p)) {
        return 1;
      }
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) {
        for (auto& r : runs) {
          ::close(r.fd);
        }
        ::close(p[0]);
        alarm(secs);
        FILE* f = fdopen(p[1], "w");
        fn(lines[nx], f);
        fflush(f);
        _exit(0);
      }
      ::close(p[1]);
      runs.push_back({pid, p[0], nx, "", false});
      nx++;
    }
    std::vector<pollfd> pf;
    for (auto& r : runs) {
      pf.push_back({r.fd, POLLIN, 0});
    }
    ::poll(pf.data(), pf.size(), 1000);
    for (size_t i = 0; i < runs.size();) {
      auto& r = runs[i];
      bool fin = false;
      if (pf[i].revents) {
        char buf[65536];
        ssize_t n = ::read(r.fd, buf, sizeof buf);
        if (n > 0) {
          r.out.append(buf, n);
        } else {
          fin = true;
        }
      }
      if (fin) {
        int st = 0;
        waitpid(r.pid, &st, 0);
        int code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
        ::close(r.fd);
        printf("BEGIN %zu\n%s%sEND %zu %d\n", r.idx, r.out.c_str(),
               (!r.out.empty() && r.out.back() != '\n') ? "\n" : "", r.idx, code);
        runs.erase(runs.begin() + i);
        pf.erase(pf.begin() + i);
      } else {
        ++i;
      }
    }
  }
  fflush(stdout);
  return 0;
}
}  // namespace sched

using namespace sched;

// ------------------------------------------------------ interposed calls
namespace {
struct Mx {
  int owner = -1;
  int depth = 0;
};
struct Rw {
  int writer = -1;
  int readers = 0;
};
struct Waiter {
  bool signalled = false;
};
std::unordered_map<void*, Mx> mxs;
std::unordered_map<void*, Rw> rws;
std::unordered_map<void*, std::vector<Waiter*>> cvs;

int64_t absNs(const struct timespec* t) {
  return t->tv_sec * 1000000000LL + t->tv_nsec;
}
int lockEmu(pthread_mutex_t* m, bool trial, int64_t deadline) {
  yield();
  auto it = mxs.find(m);
  if (it != mxs.end()) {
    if (it->second.owner == self()) {
      if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) {
        it->second.depth++;
        return 0;
      }
      if (trial) {
        return EBUSY;
      }
    } else if (trial) {
      return EBUSY;
    }
    std::function<bool()> pred = [m] { return mxs.find(m) == mxs.end(); };
    if (!waitFor(pred, deadline, "mutex")) {
      return ETIMEDOUT;
    }
  }
  mxs[m] = Mx{self(), 1};
  return 0;
}
void unlockEmu(pthread_mutex_t* m) {
  auto it = mxs.find(m);
  if (it != mxs.end()) {
    if (--it->second.depth <= 0) {
      mxs.erase(it);
    }
  }
}
int condEmu(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
  yield();  // others may run between the caller's test and its wait
  Waiter w;
  cvs[c].push_back(&w);
  int depth = mxs[m].depth;
  mxs.erase(m);
  bool spurious = P.spurious > 0 && (int)rnd(1000) < P.spurious;
  std::function<bool()> pred = [&w, spurious] { return w.signalled || spurious; };
  // always a scheduling point, even if the wake-up is already there
  sched::yield();
  bool ok = waitFor(pred, deadline, "condition");
  auto& v = cvs[c];
  v.erase(std::remove(v.begin(), v.end(), &w), v.end());
  if (v.empty()) {
    cvs.erase(c);
  }
  if (mxs.find(m) != mxs.end()) {
    std::function<bool()> p2 = [m] { return mxs.find(m) == mxs.end(); };
    waitFor(p2, -1, "mutex after condition");
  }
  mxs[m] = Mx{self(), depth};
  return ok ? 0 : ETIMEDOUT;
}
}  // namespace

#define RFN(name) static auto r = (decltype(&name))real(#name)

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!on()) {
    RFN(pthread_mutex_lock);
    return r(m);
  }
  return lockEmu(m, false, -1);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!on()) {
    RFN(pthread_mutex_trylock);
    return r(m);
  }
  return lockEmu(m, true, -1);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) {
  if (!on()) {
    RFN(pthread_mutex_timedlock);
    return r(m, t);
  }
  return lockEmu(m, false, absNs(t));
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  if (!on()) {
    RFN(pthread_mutex_clocklock);
    return r(m, k, t);
  }
  return lockEmu(m, false, absNs(t));
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!on()) {
    RFN(pthread_mutex_unlock);
    return r(m);
  }
  unlockEmu(m);
  yield();
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  mxs.erase(m);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!on()) {
    RFN(pthread_cond_wait);
    return r(c, m);
  }
  return condEmu(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  if (!on()) {
    RFN(pthread_cond_timedwait);
    return r(c, m, t);
  }
  return condEmu(c, m, absNs(t));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  if (!on()) {
    RFN(pthread_cond_clockwait);
    return r(c, m, k, t);
  }
  return condEmu(c, m, absNs(t));
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!on()) {
    RFN(pthread_cond_signal);
    return r(c);
  }
  auto it = cvs.find(c);
  if (it != cvs.end()) {
    std::vector<Waiter*> w;
    for (auto* x : it->second) {
      if (!x->signalled) {
        w.push_back(x);
      }
    }
    if (!w.empty()) {
      w[rnd(w.size())]->signalled = true;
    }
  }
  yield();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!on()) {
    RFN(pthread_cond_broadcast);
    return r(c);
  }
  auto it = cvs.find(c);
  if (it != cvs.end()) {
    for (auto* x : it->second) {
      x->signalled = true;
    }
  }
  yield();
  return 0;
}
int pthread_cond_destroy(pthread_cond_t*) {
  return 0;
}
static int rdlock(pthread_rwlock_t* m, bool trial) {
  yield();
  std::function<bool()> pred = [m] {
    auto it = rws.find(m);
    return it == rws.end() || it->second.writer < 0;
  };
  if (!pred()) {
    if (trial) {
      return EBUSY;
    }
    waitFor(pred, -1, "read lock");
  }
  rws[m].readers++;
  return 0;
}
static int wrlock(pthread_rwlock_t* m, bool trial) {
  yield();
  std::function<bool()> pred = [m] { return rws.find(m) == rws.end(); };
  if (!pred()) {
    if (trial) {
      return EBUSY;
    }
    waitFor(pred, -1, "write lock");
  }
  rws[m].writer = self();
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!on()) {
    RFN(pthread_rwlock_rdlock);
    return r(m);
  }
  return rdlock(m, false);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
  if (!on()) {
    RFN(pthread_rwlock_tryrdlock);
    return r(m);
  }
  return rdlock(m, true);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!on()) {
    RFN(pthread_rwlock_wrlock);
    return r(m);
  }
  return wrlock(m, false);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
  if (!on()) {
    RFN(pthread_rwlock_trywrlock);
    return r(m);
  }
  return wrlock(m, true);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!on()) {
    RFN(pthread_rwlock_unlock);
    return r(m);
  }
  auto it = rws.find(m);
  if (it != rws.end()) {
    if (it->second.writer >= 0) {
      rws.erase(it);
    } else if (--it->second.readers <= 0) {
      rws.erase(it);
    }
  }
  yield();
  return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!on()) {
    RFN(pthread_once);
    return r(o, fn);
  }
  std::function<bool()> pred = [o] { return *o == 0 || *o == 2; };
  waitFor(pred, -1, "once");
  if (*o == 2) {
    return 0;
  }
  *o = 1;
  fn();
  *o = 2;
  return 0;
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  RFN(pthread_create);
  if (!on()) {
    return r(t, a, fn, arg);
  }
  T* n = new T();
  n->id = ts.size();
  n->fn = fn;
  n->arg = arg;
  n->prio = 1000 + rnd(1000);
  int rc = r(t, a, trampoline, n);
  if (rc == 0) {
    n->pt = *t;
    ts.push_back(n);
    yield();
  }
  return rc;
}
int pthread_join(pthread_t t, void** ret) {
  RFN(pthread_join);
  if (!on()) {
    return r(t, ret);
  }
  T* target = nullptr;
  for (T* x : ts) {
    if (x->id && !x->joined && pthread_equal(x->pt, t)) {
      target = x;
    }
  }
  if (target) {
    std::function<bool()> pred = [target] { return target->finished; };
    sched::yield();
    waitFor(pred, -1, "join");
    target->joined = true;
  }
  return r(t, ret);
}
int clock_gettime(clockid_t k, struct timespec* t) {
  if (!gOn) {
    RFN(clock_gettime);
    return r(k, t);
  }
  t->tv_sec = vnow / 1000000000LL;
  t->tv_nsec = vnow % 1000000000LL;
  return 0;
}
int gettimeofday(struct timeval* t, void* z) {
  if (!gOn) {
    RFN(gettimeofday);
    return r(t, z);
  }
  t->tv_sec = vnow / 1000000000LL;
  t->tv_usec = vnow % 1000000000LL / 1000;
  return 0;
}
time_t time(time_t* t) {
  if (!gOn) {
    struct timespec s;
    RFN(clock_gettime);
    r(CLOCK_REALTIME, &s);
    if (t) {
      *t = s.tv_sec;
    }
    return s.tv_sec;
  }
  if (t) {
    *t = vnow / 1000000000LL;
  }
  return vnow / 1000000000LL;
}
static void vsleep(int64_t ns) {
  std::function<bool()> never = [] { return false; };
  int64_t d = vnow + (ns < 0 ? 0 : ns);
  yield();
  waitFor(never, d, "sleep");
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  if (!on()) {
    RFN(nanosleep);
    return r(a, b);
  }
  vsleep(absNs(a));
  return 0;
}
int clock_nanosleep(clockid_t k, int flags, const struct timespec* a, struct timespec* b) {
  if (!on()) {
    RFN(clock_nanosleep);
    return r(k, flags, a, b);
  }
  vsleep((flags & TIMER_ABSTIME) ? absNs(a) - vnow : absNs(a));
  return 0;
}
int usleep(useconds_t us) {
  if (!on()) {
    RFN(usleep);
    return r(us);
  }
  vsleep(us * 1000LL);
  return 0;
}
unsigned sleep(unsigned s) {
  if (!on()) {
    RFN(sleep);
    return r(s);
  }
  vsleep(s * 1000000000LL);
  return 0;
}
int sched_yield(void) {
  if (!on()) {
    RFN(sched_yield);
    return r();
  }
  yield();
  return 0;
}
// function-local statics
int __cxa_guard_acquire(long long int* g) {
  volatile char* b = (volatile char*)g;
  if (b[0]) {
    return 0;
  }
  if (on() && b[1]) {
    std::function<bool()> pred = [b] { return b[0] || !b[1]; };
    waitFor(pred, -1, "static initialisation");
    if (b[0]) {
      return 0;
    }
  }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(long long int* g) {
  volatile char* b = (volatile char*)g;
  b[1] = 0;
  b[0] = 1;
}
void __cxa_guard_abort(long long int* g) {
  volatile char* b = (volatile char*)g;
  b[1] = 0;
}

// ---------------------------------------- hooks of -fsanitize=thread code
void __tsan_init() {
}
void __tsan_func_entry(void*) {
}
void __tsan_func_exit() {
}
void __tsan_vptr_update(void** p, void* v) {
}
void __tsan_vptr_read(void** p) {
}
#define RW(n)                                                      \
  void __tsan_read##n(void* a) { sched::acc(a); }                  \
  void __tsan_write##n(void* a) { sched::acc(a); }                 \
  void __tsan_unaligned_read##n(void* a) { sched::acc(a); }        \
  void __tsan_unaligned_write##n(void* a) { sched::acc(a); }       \
  void __tsan_volatile_read##n(void* a) { sched::acc(a); }         \
  void __tsan_volatile_write##n(void* a) { sched::acc(a); }        \
  void __tsan_read##n##_pc(void* a, void*) { sched::acc(a); }      \
  void __tsan_write##n##_pc(void* a, void*) { sched::acc(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t) {
  sched::acc(a);
}
void __tsan_write_range(void* a, size_t) {
  sched::acc(a);
}
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
  return memset(d, c, n);
}
#define ATOMIC(n, T)                                                                                    \
  T __tsan_atomic##n##_load(const volatile T* a, int) {                                                 \
    sched::acc((void*)a);                                                                               \
    return __atomic_load_n(a, 5);                                                                       \
  }                                                                                                     \
  void __tsan_atomic##n##_store(volatile T* a, T v, int) {                                              \
    sched::acc((void*)a);                                                                               \
    __atomic_store_n(a, v, 5);                                                                          \
  }                                                                                                     \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int) {                                              \
    sched::acc((void*)a);                                                                               \
    return __atomic_exchange_n(a, v, 5);                                                                \
  }                                                                                                     \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) {                                             \
    sched::acc((void*)a);                                                                               \
    return __atomic_fetch_add(a, v, 5);                                                                 \
  }                                                                                                     \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) {                                             \
    sched::acc((void*)a);                                                                               \
    return __atomic_fetch_sub(a, v, 5);                                                                 \
  }                                                                                                     \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) {                                             \
    sched::acc((void*)a);                                                                               \
    return __atomic_fetch_and(a, v, 5);                                                                 \
  }                                                                                                     \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) {                                              \
    sched::acc((void*)a);                                                                               \
    return __atomic_fetch_or(a, v, 5);                                                                  \
  }                                                                                                     \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) {                                             \
    sched::acc((void*)a);                                                                               \
    return __atomic_fetch_xor(a, v, 5);                                                                 \
  }                                                                                                     \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {                  \
    sched::acc((void*)a);                                                                               \
    return __atomic_compare_exchange_n(a, c, v, 0, 5, 5);                                               \
  }                                                                                                     \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) {                    \
    sched::acc((void*)a);                                                                               \
    return __atomic_compare_exchange_n(a, c, v, 0, 5, 5);                                               \
  }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {
}
void __tsan_atomic_signal_fence(int) {
}
}
