// See vsched.h.  Compiled WITHOUT -fsanitize=thread.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vsched.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <map>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <set>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <fcntl.h>
#include <sys/ioctl.h>

namespace {

long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0,
                 long e = 0, long f = 0) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}

template <class F> F real(const char *name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

struct Sem {
  int v = 0;
  void post() {
    __atomic_store_n(&v, 1, __ATOMIC_SEQ_CST);
    raw_syscall(SYS_futex, (long)&v, FUTEX_WAKE_PRIVATE, 1);
  }
  void wait() {
    for (int i = 0; i < 200; ++i) {
      if (__atomic_exchange_n(&v, 0, __ATOMIC_SEQ_CST) == 1) return;
      __builtin_ia32_pause();
    }
    while (__atomic_exchange_n(&v, 0, __ATOMIC_SEQ_CST) == 0)
      raw_syscall(SYS_futex, (long)&v, FUTEX_WAIT_PRIVATE, 0, 0);
  }
};

enum class W { None, Mutex, Cond, Futex, Join, Sleep, Once, Io, RwRd, RwWr, Quiet };

struct Thread {
  int id = 0;
  pthread_t real{};
  Sem sem;
  W wait = W::None;      // what it is blocked on; None = runnable
  const void *obj = nullptr;
  int64_t deadline = -1; // virtual ns, -1 = none
  bool timed_out = false;
  bool finished = false;
  bool detached = false;
  uint64_t prio = 0;
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr;
  void *ret = nullptr;
  std::vector<std::pair<void (*)(void *), void *>> dtors;
  std::function<bool()> io_ready;
  int yielded = 0;
};

struct Mutex { int owner = -1; int depth = 0; };
struct Rw { int writer = -1; int readers = 0; };

struct Rt {
  bool on = false;           // scheduling active
  vs::Options opt;
  std::vector<Thread *> threads;
  std::vector<Thread *> alive;  // not finished
  Thread *cur = nullptr;
  std::unordered_map<const void *, Mutex> mutexes;
  std::unordered_map<const void *, Rw> rws;
  std::unordered_map<const void *, int> onces;
  int64_t vnow = 0;
  uint64_t nsteps = 0;
  uint64_t s[2];
  int mode = 0;
  uint32_t switch_num = 1, switch_den = 1;
  uint32_t mem_den = 0;      // 0: plain accesses are not points
  std::vector<uint64_t> change_points;
  uint64_t low_prio = 1000;
  bool io_dirty = false;
  int nopreempt = 0;
  std::function<void()> stuck_cb;
  char *logbuf = nullptr;
  size_t logcap = 0;
  size_t *loglen = nullptr;
  uint64_t *steps_out = nullptr;
  bool quarantine = false;
  std::map<uintptr_t, size_t> freed;
  uint8_t bloom[1 << 16];
};

Rt *g = nullptr;
thread_local Thread *self = nullptr;
thread_local bool in_rt = false;

Rt &R() {
  if (!g) {
    void *p = mmap(nullptr, (sizeof(Rt) + 4095) & ~4095ul, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    g = new (p) Rt;
    auto *t = new Thread;
    t->real = pthread_self();
    g->threads.push_back(t);
    g->alive.push_back(t);
    g->cur = t;
    self = t;
  }
  return *g;
}

Thread *me() {
  R();
  return self;
}

uint64_t rnd64() {
  Rt &r = R();
  uint64_t s1 = r.s[0];
  const uint64_t s0 = r.s[1];
  const uint64_t result = s0 + s1;
  r.s[0] = s0;
  s1 ^= s1 << 23;
  r.s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
  return result;
}
bool chance(uint32_t num, uint32_t den) {
  if (num >= den) return true;
  return (rnd64() >> 11) % den < num;
}
bool chance_d(double p) {
  if (p <= 0) return false;
  return (double)(rnd64() >> 11) / 9007199254740992.0 < p;
}

[[noreturn]] void finish(int code) {
  Rt &r = R();
  if (r.steps_out) *r.steps_out = r.nsteps;
  raw_syscall(SYS_exit_group, code);
  __builtin_unreachable();
}

void raw_log(const char *s) {
  Rt &r = R();
  if (!r.logbuf) return;
  size_t n = strlen(s);
  if (*r.loglen + n + 2 >= r.logcap) return;
  memcpy(r.logbuf + *r.loglen, s, n);
  *r.loglen += n;
  r.logbuf[(*r.loglen)++] = '\n';
}

void wake(Thread *t, bool timed_out = false) {
  t->wait = W::None;
  t->obj = nullptr;
  t->deadline = -1;
  t->timed_out = timed_out;
  t->io_ready = nullptr;
}

void poll_io() {
  Rt &r = R();
  for (auto *t : r.alive)
    if (t->wait == W::Io && t->io_ready && t->io_ready()) wake(t);
}

void expire() {
  Rt &r = R();
  for (auto *t : r.alive)
    if (t->wait != W::None && t->deadline >= 0 && t->deadline <= r.vnow)
      wake(t, true);
}

// Nobody waits that long: a deadline further away counts as none.
constexpr int64_t kFar = 3600ll * 1000000000;

int64_t earliest() {
  int64_t d = -1;
  for (auto *t : R().alive)
    if (t->wait != W::None && t->deadline >= 0 && (d < 0 || t->deadline < d))
      d = t->deadline;
  return d;
}

Thread *choose(const std::vector<Thread *> &run) {
  Rt &r = R();
  if (run.size() == 1) return run[0];
  if (r.mode == 1) { // PCT: highest priority
    Thread *b = run[0];
    for (auto *t : run) if (t->prio > b->prio) b = t;
    return b;
  }
  return run[(rnd64() >> 11) % run.size()];
}

const char *wname(W w) {
  switch (w) {
    case W::None: return "run"; case W::Mutex: return "mutex"; case W::Cond: return "cond";
    case W::Futex: return "futex"; case W::Join: return "join"; case W::Sleep: return "sleep";
    case W::Once: return "once"; case W::Io: return "io"; case W::RwRd: return "rwrd";
    case W::RwWr: return "rwwr"; case W::Quiet: return "quiet";
  }
  return "?";
}

// Pick the next thread to run (the caller may be blocked or finished).
Thread *pick(bool must_leave) {
  Rt &r = R();
  if (r.io_dirty) { r.io_dirty = false; poll_io(); }
  expire();
  if (r.opt.early_timeout > 0 && chance_d(r.opt.early_timeout)) {
    int64_t d = earliest();
    if (d > r.vnow && d <= r.vnow + kFar) { r.vnow = d; expire(); }
  }
  static std::vector<Thread *> run;
  int rounds = 0;
  for (;;) {
    run.clear();
    for (auto *t : r.alive) if (t->wait == W::None) run.push_back(t);
    if (!run.empty()) break;
    // nobody can run: somebody waiting for input?
    bool io = false;
    for (auto *t : r.alive) if (t->wait == W::Io) io = true;
    if (io) {
      poll_io();
      bool any = false;
      for (auto *t : r.alive) if (t->wait == W::None) any = true;
      if (any) continue;
      bool quiet_waiter = false;
      for (auto *t : r.alive) if (t->wait == W::Quiet) quiet_waiter = true;
      int limit = quiet_waiter || earliest() >= 0 ? 6 : 60;
      if (rounds++ < limit) {
        struct timespec ts{0, rounds < 3 ? 20000 : 500000};
        raw_syscall(SYS_nanosleep, (long)&ts, 0);
        continue;
      }
    }
    rounds = 0;
    bool q = false, nap = false;
    // a thread in a short sleep is not at rest
    for (auto *t : r.alive) if (t->wait == W::Sleep && t->deadline >= 0 && t->deadline <= r.vnow + 100000000) nap = true;
    if (!nap) for (auto *t : r.alive) if (t->wait == W::Quiet) {
      if (getenv("VS_DEBUG")) for (auto *u : r.alive) fprintf(stderr, "quiet: th %d on %s deadline %ld now %ld\n", u->id, wname(u->wait), (long)u->deadline, (long)r.vnow);
      wake(t); q = true; break;
    }
    if (q) continue;
    int64_t d = earliest();
    if (d >= 0 && d <= r.vnow + kFar) {
      if (d > r.vnow) r.vnow = d;
      expire();
      continue;
    }
    // stuck for ever (or until a far away deadline)
    in_rt = true;
    if (r.stuck_cb) r.stuck_cb();
    for (auto *t : r.alive) {
      if (getenv("VS_DEBUG")) {
        char b[128];
        snprintf(b, sizeof b, "{\"e\":\"blocked\",\"th\":%d,\"on\":\"%s\"}", t->id, wname(t->wait));
        raw_log(b);
      }
    }
    finish(vs::kExitStuck);
  }
  (void)must_leave;
  return choose(run);
}

void handoff(Thread *n) {
  Rt &r = R();
  Thread *p = self;
  if (n == p) { r.cur = p; return; }
  r.cur = n;
  n->sem.post();
  if (p->finished) return;
  p->sem.wait();
}

void tick() {
  Rt &r = R();
  if (++r.nsteps > r.opt.max_steps) finish(vs::kExitSteps);
  if (r.nsteps == r.opt.max_steps / 2) {
    // from here on schedule fairly: running out of steps then means a livelock
    r.mode = 0; r.switch_num = 1; r.switch_den = 2; r.mem_den = 0;
  }
  r.vnow += r.opt.step_ns;
  if (r.mode == 1 && !r.change_points.empty() && r.nsteps >= r.change_points.back()) {
    r.change_points.pop_back();
    self->prio = --r.low_prio;
  }
}

// A scheduling point: the caller stays runnable.
void point() {
  if (!g || !g->on || in_rt) return;
  Rt &r = *g;
  if (!self || self->finished) return;
  if (r.nopreempt) return;
  in_rt = true;
  tick();
  if (r.alive.size() > 1) {
    bool consider = r.mode == 1 || chance(r.switch_num, r.switch_den);
    if (consider) {
      Thread *n = pick(false);
      handoff(n);
    }
  }
  in_rt = false;
}

// Block the caller; returns true if woken by its deadline.
bool block(W w, const void *obj, int64_t deadline) {
  Rt &r = R();
  Thread *t = self;
  t->wait = w;
  t->obj = obj;
  t->deadline = deadline;
  t->timed_out = false;
  bool save = in_rt;
  in_rt = true;
  if (r.on) tick();
  Thread *n = pick(true);
  handoff(n);
  in_rt = save;
  return t->timed_out;
}

void lower_prio() {
  Rt &r = R();
  if (r.mode == 1 && self) self->prio = --r.low_prio;
}

// ---- mutexes -----------------------------------------------------------
int mutex_lock(const void *m, bool recursive, bool try_only, int64_t deadline) {
  Rt &r = R();
  point();
  for (;;) {
    Mutex &x = r.mutexes[m];
    if (x.owner < 0) { x.owner = self->id; x.depth = 1; return 0; }
    if (x.owner == self->id && recursive) { ++x.depth; return 0; }
    if (try_only) { lower_prio(); return EBUSY; }
    if (block(W::Mutex, m, deadline)) return ETIMEDOUT;
  }
}
void mutex_unlock(const void *m) {
  Rt &r = R();
  Mutex &x = r.mutexes[m];
  if (x.depth > 1) { --x.depth; return; }
  x.owner = -1;
  x.depth = 0;
  for (auto *t : r.alive)
    if (t->wait == W::Mutex && t->obj == m) wake(t);
  point();
}
bool is_recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

constexpr int64_t kSlack = 50000;  // like the kernel's timer slack
constexpr int64_t kRealBase = 1700000000LL * 1000000000LL;
constexpr int64_t kMonoBase = 100000LL * 1000000000LL;
int64_t base_of(clockid_t c) {
  switch (c) {
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: return kRealBase;
    default: return kMonoBase;
  }
}
int64_t to_v(clockid_t c, const struct timespec *ts) {
  int64_t v = (int64_t)ts->tv_sec;
  if (v > 4000000000LL) return -1;       // practically for ever
  if (v < 0) v = 0;
  int64_t d = v * 1000000000LL + ts->tv_nsec - base_of(c);
  return d < 0 ? 0 : d;
}

int cond_wait(const void *c, pthread_mutex_t *m, int64_t deadline) {
  Rt &r = R();
  point();
  Mutex &x = r.mutexes[m];
  int depth = x.depth;
  // already expired deadlines still release the mutex once
  x.owner = -1; x.depth = 0;
  for (auto *t : r.alive)
    if (t->wait == W::Mutex && t->obj == m) wake(t);
  bool to;
  if (r.opt.spurious > 0 && chance_d(r.opt.spurious) && r.alive.size() > 1) {
    to = false;
    in_rt = true; tick(); handoff(pick(false)); in_rt = false;
  } else {
    to = block(W::Cond, c, deadline);
  }
  for (;;) {
    Mutex &y = r.mutexes[m];
    if (y.owner < 0) { y.owner = self->id; y.depth = depth ? depth : 1; break; }
    block(W::Mutex, m, -1);
  }
  return to ? ETIMEDOUT : 0;
}
void cond_signal(const void *c, bool all) {
  Rt &r = R();
  point();
  static std::vector<Thread *> ws;
  ws.clear();
  for (auto *t : r.alive) if (t->wait == W::Cond && t->obj == c) ws.push_back(t);
  if (ws.empty()) return;
  if (all) for (auto *t : ws) wake(t);
  else wake(ws[(rnd64() >> 11) % ws.size()]);
}

long do_futex(const int *addr, int op, int val, const struct timespec *ts, int val3) {
  Rt &r = R();
  (void)val3;
  int cmd = op & FUTEX_CMD_MASK;
  clockid_t clk = (op & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC;
  switch (cmd) {
    case FUTEX_WAIT:
    case FUTEX_WAIT_BITSET: {
      point();
      if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
      int64_t dl = -1;
      if (ts) {
        if (cmd == FUTEX_WAIT) {
          if (ts->tv_sec < 4000000000LL) dl = r.vnow + ts->tv_sec * 1000000000LL + ts->tv_nsec + kSlack;
        } else dl = to_v(clk, ts);
      }
      if (r.opt.spurious > 0 && chance_d(r.opt.spurious) && r.alive.size() > 1) {
        in_rt = true; tick(); handoff(pick(false)); in_rt = false;
        errno = EINTR; return -1;
      }
      if (block(W::Futex, addr, dl)) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    case FUTEX_WAKE:
    case FUTEX_WAKE_BITSET: {
      point();
      std::vector<Thread *> ws;
      for (auto *t : r.alive) if (t->wait == W::Futex && t->obj == addr) ws.push_back(t);
      int n = 0;
      while (n < val && !ws.empty()) {
        size_t i = (rnd64() >> 11) % ws.size();
        wake(ws[i]);
        ws.erase(ws.begin() + i);
        ++n;
      }
      return n;
    }
  }
  errno = ENOSYS;
  return -1;
}

// ---- threads -----------------------------------------------------------
void thread_done(Thread *t) {
  Rt &r = R();
  in_rt = false;
  while (!t->dtors.empty()) {
    auto d = t->dtors.back();
    t->dtors.pop_back();
    d.first(d.second);
  }
  point();
  in_rt = true;
  t->finished = true;
  for (size_t i = 0; i < r.alive.size(); ++i)
    if (r.alive[i] == t) { r.alive.erase(r.alive.begin() + i); break; }
  for (auto *o : r.alive)
    if (o->wait == W::Join && o->obj == t) wake(o);
  Thread *n = pick(true);
  r.cur = n;
  n->sem.post();
}

void *thread_main(void *p) {
  auto *t = static_cast<Thread *>(p);
  self = t;
  in_rt = true;
  t->sem.wait();
  in_rt = false;
  t->ret = t->fn(t->arg);
  thread_done(t);
  return t->ret;
}

void record_free(void *p, size_t n) {
  Rt &r = *g;
  uintptr_t a = (uintptr_t)p;
  r.freed[a] = n;
  for (uintptr_t pg = a >> 8; pg <= (a + n - 1) >> 8; ++pg) r.bloom[(pg * 2654435761u >> 8) & 0xffff] = 1;
}

}  // namespace

extern "C" size_t malloc_usable_size(void *);
extern "C" __attribute__((noinline)) void vs_uaf(void *p, int write) {
  Rt &r = *g;
  in_rt = true;
  char b[96];
  snprintf(b, sizeof b, "{\"e\":\"uaf\",\"th\":%d}", self ? self->id : -1);
  raw_log(b);
  (void)p; (void)write;
  if (getenv("VS_ABORT")) abort();
  finish(vs::kExitUaf);
}

namespace {
inline void check_mem(void *p) {
  Rt &r = *g;
  uintptr_t a = (uintptr_t)p;
  if (!r.bloom[((a >> 8) * 2654435761u >> 8) & 0xffff]) return;
  auto it = r.freed.upper_bound(a);
  if (it == r.freed.begin()) return;
  --it;
  if (a < it->first + it->second) vs_uaf(p, 0);
}
inline void mem_access(void *p) {
  if (!g || !g->on || in_rt) return;
  if (g->quarantine && !g->freed.empty()) check_mem(p);
  if (g->mem_den && g->alive.size() > 1 && !g->nopreempt && chance(1, g->mem_den)) point();
}
}  // namespace

// ---- public API ----------------------------------------------------------
namespace vs {

void log(const char *fmt, ...) {
  Rt &r = R();
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  (void)r;
  raw_log(b);
}
int64_t now_ns() { return R().vnow; }
int tid() { return me() ? me()->id : -1; }
uint64_t steps() { return R().nsteps; }
void on_stuck(std::function<void()> fn) { R().stuck_cb = std::move(fn); }
void yield_point() { lower_prio(); point(); }
void set_early_timeout(double p) { R().opt.early_timeout = p; }
void wait_quiescent() {
  Rt &r = R();
  (void)r;
  block(W::Quiet, nullptr, -1);
}
NoPreempt::NoPreempt() { ++R().nopreempt; }
NoPreempt::~NoPreempt() { --R().nopreempt; }
uint64_t rnd() { return rnd64(); }
bool active() { return g && g->on; }

RunResult run_forked(const Options &opt, const std::function<void()> &body) {
  R();
  static char *shm = nullptr;
  constexpr size_t kCap = 4 << 20;
  if (!shm)
    shm = (char *)mmap(nullptr, kCap + 4096, PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  size_t *len = (size_t *)shm;
  uint64_t *st = (uint64_t *)(shm + 64);
  *len = 0; *st = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    Rt &r = R();
    r.opt = opt;
    r.logbuf = shm + 4096;
    r.logcap = kCap;
    r.loglen = len;
    r.steps_out = st;
    uint64_t z = opt.seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    auto sm = [&z] { z += 0x9E3779B97F4A7C15ull; uint64_t x = z; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); };
    r.s[0] = sm(); r.s[1] = sm() | 1;
    int strat = opt.strategy >= 0 ? opt.strategy : (int)(rnd64() % 8);
    r.mode = 0;
    switch (strat) {
      case 0: r.switch_num = 1; r.switch_den = 1; break;
      case 1: r.switch_num = 1; r.switch_den = 3; break;
      case 2: r.switch_num = 1; r.switch_den = 10; break;
      case 3: r.switch_num = 1; r.switch_den = 40; break;
      case 4: r.switch_num = 1; r.switch_den = 4; if (opt.mem_points) r.mem_den = 6; break;
      case 5: r.switch_num = 1; r.switch_den = 2; if (opt.mem_points) r.mem_den = 30; break;
      default: {
        r.mode = 1;
        int d = 1 + rnd64() % 4;
        for (int i = 0; i < d; ++i) r.change_points.push_back(1 + rnd64() % (opt.est_steps + 1));
        std::sort(r.change_points.rbegin(), r.change_points.rend());
        r.low_prio = 1000000;
        if (opt.mem_points && strat == 7) r.mem_den = 4;
        break;
      }
    }
    self->prio = 1000001 + rnd64() % 1000000;
    memset(r.bloom, 0, sizeof r.bloom);
    r.quarantine = opt.quarantine;
    std::set_terminate([] {
      in_rt = true;
      raw_log("{\"e\":\"terminate\"}");
      if (getenv("VS_ABORT")) { signal(SIGABRT, SIG_DFL); abort(); }
      finish(134);
    });
    alarm(30);
    r.on = true;
    body();
    r.on = false;
    finish(kExitEnd);
  }
  RunResult res;
  int status = 0;
  waitpid(pid, &status, 0);
  res.signaled = WIFSIGNALED(status);
  res.code = res.signaled ? WTERMSIG(status) : WEXITSTATUS(status);
  res.steps = *st;
  res.log.assign(shm + 4096, *len);
  return res;
}

}  // namespace vs

// ---- interposed functions --------------------------------------------------
extern "C" {

int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  static auto rc = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
  Rt &r = R();
  if (!r.on) return rc(out, attr, fn, arg);
  point();
  bool save = in_rt;
  in_rt = true;
  auto *t = new Thread;
  t->id = (int)r.threads.size();
  t->fn = fn; t->arg = arg;
  t->prio = 1000001 + rnd64() % 1000000;
  int e = rc(&t->real, attr, thread_main, t);
  if (e) { delete t; in_rt = save; return e; }
  if (attr) { int ds = 0; pthread_attr_getdetachstate(attr, &ds); t->detached = ds == PTHREAD_CREATE_DETACHED; }
  r.threads.push_back(t);
  r.alive.push_back(t);
  *out = t->real;
  in_rt = save;
  point();
  return 0;
}

static Thread *find_thread(pthread_t h) {
  for (size_t i = R().threads.size(); i-- > 0;) {
    Thread *t = R().threads[i];
    if (pthread_equal(t->real, h) && !t->detached) return t;
  }
  return nullptr;
}

int pthread_join(pthread_t h, void **ret) {
  static auto rj = real<int (*)(pthread_t, void **)>("pthread_join");
  Rt &r = R();
  if (!r.on) return rj(h, ret);
  point();
  Thread *t = find_thread(h);
  if (!t) return rj(h, ret);
  while (!t->finished) block(W::Join, t, -1);
  int e = rj(h, ret);
  t->detached = true;
  return e;
}

int pthread_detach(pthread_t h) {
  static auto rd = real<int (*)(pthread_t)>("pthread_detach");
  Rt &r = R();
  if (r.on) { Thread *t = find_thread(h); if (t) t->detached = true; }
  return rd(h);
}

int pthread_mutex_lock(pthread_mutex_t *m) { me(); return mutex_lock(m, is_recursive(m), false, -1); }
int pthread_mutex_trylock(pthread_mutex_t *m) { me(); return mutex_lock(m, is_recursive(m), true, -1); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { me(); return mutex_lock(m, is_recursive(m), false, to_v(CLOCK_REALTIME, ts)); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) { me(); return mutex_lock(m, is_recursive(m), false, to_v(c, ts)); }
int pthread_mutex_unlock(pthread_mutex_t *m) { me(); mutex_unlock(m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { R().mutexes.erase(m); return 0; }

int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset((void *)c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return cond_wait(c, m, to_v(CLOCK_REALTIME, ts)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { return cond_wait(c, m, to_v(k, ts)); }
int pthread_cond_signal(pthread_cond_t *c) { me(); cond_signal(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { me(); cond_signal(c, true); return 0; }

int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  me(); point();
  for (;;) { Rw &x = R().rws[l]; if (x.writer < 0) { ++x.readers; return 0; } block(W::RwRd, l, -1); }
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { me(); point(); Rw &x = R().rws[l]; if (x.writer < 0) { ++x.readers; return 0; } return EBUSY; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  me(); point();
  for (;;) { Rw &x = R().rws[l]; if (x.writer < 0 && !x.readers) { x.writer = self->id; return 0; } block(W::RwWr, l, -1); }
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { me(); point(); Rw &x = R().rws[l]; if (x.writer < 0 && !x.readers) { x.writer = self->id; return 0; } return EBUSY; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  me();
  Rw &x = R().rws[l];
  if (x.writer == self->id) x.writer = -1; else if (x.readers) --x.readers;
  for (auto *t : R().alive) if ((t->wait == W::RwRd || t->wait == W::RwWr) && t->obj == l) wake(t);
  point();
  return 0;
}

int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  me(); point();
  for (;;) {
    int &s = R().onces[o];
    if (*o == 2 || s == 2) return 0;
    if (s == 0) {
      s = 1;
      try { fn(); } catch (...) {
        R().onces[o] = 0;
        for (auto *t : R().alive) if (t->wait == W::Once && t->obj == o) wake(t);
        throw;
      }
      R().onces[o] = 2;
      *o = 2;
      for (auto *t : R().alive) if (t->wait == W::Once && t->obj == o) wake(t);
      return 0;
    }
    block(W::Once, o, -1);
  }
}

int sched_yield() { lower_prio(); point(); return 0; }

static int vsleep(int64_t ns) {
  me();
  Rt &r = R();
  if (!r.on) return 0;
  if (ns <= 0) { point(); return 0; }
  block(W::Sleep, nullptr, r.vnow + ns + kSlack);
  return 0;
}
int nanosleep(const struct timespec *ts, struct timespec *) { return vsleep(ts->tv_sec * 1000000000LL + ts->tv_nsec); }
int clock_nanosleep(clockid_t c, int flags, const struct timespec *ts, struct timespec *) {
  if (flags & TIMER_ABSTIME) { me(); Rt &r = R(); int64_t d = to_v(c, ts); if (r.on && d > r.vnow) block(W::Sleep, nullptr, d); else point(); return 0; }
  return vsleep(ts->tv_sec * 1000000000LL + ts->tv_nsec);
}
int usleep(useconds_t us) { return vsleep((int64_t)us * 1000); }
unsigned sleep(unsigned s) { vsleep((int64_t)s * 1000000000LL); return 0; }

int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!g || !g->on) return (int)raw_syscall(SYS_clock_gettime, c, (long)ts);
  point();
  int64_t v = base_of(c) + g->vnow;
  ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL;
  return 0;
}
int gettimeofday(struct timeval *tv, void *) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
  return 0;
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}

long syscall(long n, ...) noexcept {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && g && g->on) {
    me();
    return do_futex((const int *)a[0], (int)a[1], (int)a[2], (const struct timespec *)a[3], (int)a[5]);
  }
  long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

int __cxa_thread_atexit(void (*d)(void *), void *o, void *) noexcept {
  Thread *t = me();
  if (t) t->dtors.emplace_back(d, o);
  return 0;
}
int __cxa_thread_atexit_impl(void (*d)(void *), void *o, void *h) { return __cxa_thread_atexit(d, o, h); }

// ---- I/O that may block ----------------------------------------------------
static long ck(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }

int epoll_wait(int ep, struct epoll_event *ev, int max, int timeout) {
  me();
  Rt &r = R();
  if (!r.on) return (int)ck(raw_syscall(SYS_epoll_wait, ep, (long)ev, max, timeout));
  point();
  int64_t dl = timeout < 0 ? -1 : r.vnow + (int64_t)timeout * 1000000;
  if (chance_d(r.opt.eintr)) { errno = EINTR; return -1; }
  for (;;) {
    int n = (int)ck(raw_syscall(SYS_epoll_wait, ep, (long)ev, max, 0));
    if (n != 0) { r.io_dirty = true; return n; }
    if (timeout == 0) { lower_prio(); return 0; }
    self->io_ready = [ep] {
      struct pollfd p{ep, POLLIN, 0};
      struct timespec z{0, 0};
      return raw_syscall(SYS_ppoll, (long)&p, 1, (long)&z, 0, 8) > 0;
    };
    if (block(W::Io, nullptr, dl)) {
      n = (int)ck(raw_syscall(SYS_epoll_wait, ep, (long)ev, max, 0));
      return n;
    }
  }
}

int select(int n, fd_set *rd, fd_set *wr, fd_set *ex, struct timeval *tv) {
  me();
  Rt &r = R();
  if (r.on) point();
  fd_set r0, w0, e0;
  if (rd) r0 = *rd;
  if (wr) w0 = *wr;
  if (ex) e0 = *ex;
  if (!r.on) { return (int)ck(raw_syscall(SYS_select, n, (long)rd, (long)wr, (long)ex, (long)tv)); }
  int64_t dl = tv ? r.vnow + tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL : -1;
  auto attempt = [&](fd_set *a, fd_set *b, fd_set *c) {
    if (rd) *a = r0;
    if (wr) *b = w0;
    if (ex) *c = e0;
    struct timeval z{0, 0};
    return (int)ck(raw_syscall(SYS_select, n, (long)(rd ? a : nullptr), (long)(wr ? b : nullptr), (long)(ex ? c : nullptr), (long)&z));
  };
  for (;;) {
    int k = attempt(rd, wr, ex);
    if (k != 0) { r.io_dirty = true; return k; }
    if (tv && tv->tv_sec == 0 && tv->tv_usec == 0) { lower_prio(); return 0; }
    self->io_ready = [&] { fd_set a, b, c; return attempt(&a, &b, &c) != 0; };
    if (block(W::Io, nullptr, dl)) return attempt(rd, wr, ex);
  }
}

int poll(struct pollfd *p, nfds_t n, int timeout) {
  me();
  Rt &r = R();
  if (!r.on) return (int)ck(raw_syscall(SYS_poll, (long)p, (long)n, timeout));
  point();
  int64_t dl = timeout < 0 ? -1 : r.vnow + (int64_t)timeout * 1000000;
  for (;;) {
    int k = (int)ck(raw_syscall(SYS_poll, (long)p, (long)n, 0));
    if (k != 0 || timeout == 0) { r.io_dirty = true; if (!k) lower_prio(); return k; }
    self->io_ready = [p, n] { return raw_syscall(SYS_poll, (long)p, (long)n, 0) > 0; };
    if (block(W::Io, nullptr, dl)) return (int)ck(raw_syscall(SYS_poll, (long)p, (long)n, 0));
  }
}

#define IO_POINT() do { me(); if (g->on) { point(); g->io_dirty = true; } } while (0)
ssize_t send(int fd, const void *b, size_t n, int f) {
  IO_POINT();
  if (g->on && n > 1 && g->opt.short_io > 0 && chance_d(g->opt.short_io)) {
    int ty = 0;
    socklen_t l = sizeof ty;
    int fl = (int)raw_syscall(SYS_fcntl, fd, F_GETFL, 0);
    if (raw_syscall(SYS_getsockopt, fd, SOL_SOCKET, SO_TYPE, (long)&ty, (long)&l) == 0 && ty == SOCK_STREAM) {
      uint64_t k = rnd64() >> 20;
      if (k % 4 == 0 && fl >= 0 && (fl & O_NONBLOCK)) { lower_prio(); errno = EAGAIN; return -1; }
      n = 1 + (k >> 4) % (n < 12 || k % 4 == 1 ? n : 11);
    }
  }
  return ck(raw_syscall(SYS_sendto, fd, (long)b, (long)n, f, 0, 0)); }
ssize_t recv(int fd, void *b, size_t n, int f) { IO_POINT(); return ck(raw_syscall(SYS_recvfrom, fd, (long)b, (long)n, f, 0, 0)); }
int close(int fd) { IO_POINT(); return (int)ck(raw_syscall(SYS_close, fd)); }
int epoll_ctl(int e, int op, int fd, struct epoll_event *ev) noexcept { IO_POINT(); return (int)ck(raw_syscall(SYS_epoll_ctl, e, op, fd, (long)ev)); }
int shutdown(int fd, int how) noexcept { IO_POINT(); return (int)ck(raw_syscall(SYS_shutdown, fd, how)); }
// without delays by the kernel, so that nothing is under way when all is at rest
int socket(int d, int t, int p) {
  int fd = (int)ck(raw_syscall(SYS_socket, d, t, p)), on = 1;
  if (fd >= 0 && d != AF_UNIX && (t & 15) == SOCK_STREAM) { int e = errno; raw_syscall(SYS_setsockopt, fd, 6 /*TCP*/, 1 /*NODELAY*/, (long)&on, sizeof on); errno = e; }
  return fd;
}
int connect(int fd, const struct sockaddr *a, socklen_t l) { IO_POINT(); return (int)ck(raw_syscall(SYS_connect, fd, (long)a, l)); }
int accept(int fd, struct sockaddr *a, socklen_t *l) { IO_POINT(); return (int)ck(raw_syscall(SYS_accept, fd, (long)a, (long)l)); }
ssize_t read(int fd, void *b, size_t n) { if (g && g->on && !in_rt) IO_POINT(); return ck(raw_syscall(SYS_read, fd, (long)b, (long)n)); }
ssize_t write(int fd, const void *b, size_t n) { if (g && g->on && !in_rt) IO_POINT(); return ck(raw_syscall(SYS_write, fd, (long)b, (long)n)); }

// ---- instrumentation entry points -------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *p) { mem_access(p); } \
  void __tsan_write##n(void *p) { mem_access(p); } \
  void __tsan_volatile_read##n(void *p) { mem_access(p); } \
  void __tsan_volatile_write##n(void *p) { mem_access(p); } \
  void __tsan_unaligned_read##n(void *p) { mem_access(p); } \
  void __tsan_unaligned_write##n(void *p) { mem_access(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long) { mem_access(p); }
void __tsan_write_range(void *p, long) { mem_access(p); }
void __tsan_vptr_update(void **p, void *) { mem_access(p); }
void __tsan_vptr_read(void **p) { mem_access(p); }
void __tsan_atomic_thread_fence(int) { point(); }
void __tsan_atomic_signal_fence(int) {}

static inline void apoint(volatile void *p) {
  if (!g || !g->on || in_rt) return;
  point();
  if (g->quarantine && !g->freed.empty()) check_mem((void *)p);
}
static inline void lpoint(const volatile void *p) {
  if (!g || !g->on || in_rt) return;
  if (g->opt.coarse) {
    static thread_local const volatile void *last;
    static thread_local int n;
    if (p != last) { last = p; n = 0; }
    else if (++n > 64 && n % g->opt.coarse) return;
  }
  apoint((volatile void *)p);
}
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *a, int) { lpoint(a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int) { apoint(a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { apoint(a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { apoint(a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { apoint(a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { apoint(a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { apoint(a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { apoint(a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { apoint(a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { apoint(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { apoint(a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { apoint(a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

}  // extern "C"

// ---- deleted memory is never reused while the scheduler is on ------------------
static void *do_new(size_t n) {
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
static void do_delete(void *p) {
  if (!p) return;
  if (g && g->on && g->quarantine && !in_rt) {
    auto it = g->freed.find((uintptr_t)p);
    if (it != g->freed.end()) { in_rt = true; raw_log("{\"e\":\"doublefree\"}"); if (getenv("VS_ABORT")) abort(); finish(vs::kExitDoubleFree); }
    size_t n = malloc_usable_size(p);
    bool save = in_rt;
    in_rt = true;
    record_free(p, n);
    in_rt = save;
    memset(p, 0xdb, n);
    return;
  }
  free(p);
}
void *operator new(size_t n) { return do_new(n); }
void *operator new[](size_t n) { return do_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void *operator new(size_t n, std::align_val_t a) { return aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a); }
void operator delete(void *p) noexcept { do_delete(p); }
void operator delete[](void *p) noexcept { do_delete(p); }
void operator delete(void *p, size_t) noexcept { do_delete(p); }
void operator delete[](void *p, size_t) noexcept { do_delete(p); }
void operator delete(void *p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_delete(p); }
