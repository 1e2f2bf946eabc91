#include <sys/resource.h>
// The vsched.h interface for harnesses that run unscheduled (sanitizer builds):
// one forked process per program, a shared log, no control over threads.
#include "vsched.h"
#include <chrono>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <exception>

extern "C" const char *__asan_default_options() { return "detect_leaks=0:max_allocation_size_mb=1024:abort_on_error=0"; }
namespace vs {
static char *shm = nullptr;
static constexpr size_t kCap = 16 << 20;
static bool on = false;
static std::mutex *mu = new std::mutex;
static uint64_t rs = 1;
static std::chrono::steady_clock::time_point t0;

void log(const char *fmt, ...) {
  if (!shm) return;
  static thread_local char buf[1 << 20];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n < 0 || n >= (int)sizeof buf) return;
  std::lock_guard<std::mutex> l(*mu);
  size_t *len = (size_t *)shm;
  if (*len + n + 2 >= kCap) return;
  memcpy(shm + 4096 + *len, buf, n);
  shm[4096 + *len + n] = '\n';
  *len += n + 1;
}
int64_t now_ns() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - t0).count(); }
int tid() { return 0; }
uint64_t steps() { return 0; }
void on_stuck(std::function<void()>) {}
void yield_point() {}
void set_early_timeout(double) {}
void wait_quiescent() {}
NoPreempt::NoPreempt() {}
NoPreempt::~NoPreempt() {}
uint64_t rnd() { rs += 0x9E3779B97F4A7C15ull; uint64_t x = rs; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
bool active() { return on; }

RunResult run_forked(const Options &opt, const std::function<void()> &body) {
  if (!shm)
    shm = (char *)mmap(nullptr, kCap + 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  size_t *len = (size_t *)shm;
  *len = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    rs = opt.seed;
    on = true;
    t0 = std::chrono::steady_clock::now();
    std::set_terminate([] { _exit(134); });
    alarm(60);
    rlimit cpu{4, 6};
    setrlimit(RLIMIT_CPU, &cpu);
    body();
    _exit(0);
  }
  RunResult r;
  int st = 0;
  waitpid(pid, &st, 0);
  r.signaled = WIFSIGNALED(st);
  r.code = r.signaled ? WTERMSIG(st) : WEXITSTATUS(st);
  r.log.assign(shm + 4096, *len);
  return r;
}
}  // namespace vs
