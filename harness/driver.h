// Common driver of the scheduled harnesses: explores (program, schedule) pairs
// and writes every distinct history as one JSON line
//   {"id":n,"seed":s,"prog":p,"end":"end|stuck|crash|uaf|steps","scn":{...},"ev":[...]}
#pragma once
#include "../rt/vsched.h"
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace drv {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t x = s;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
  }
  int below(int n) { return n <= 1 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(int num, int den) { return below(den) < num; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below((int)v.size())]; }
};

struct Program {
  std::string scn;                 // JSON object with the program's constants
  std::function<void()> body;
  vs::Options opt;
};
using Factory = std::function<Program(uint64_t prog_seed)>;

struct Args {
  uint64_t first = 0, last = 0;    // program seeds [first, last)
  uint64_t schedules = 16;         // schedules per program
  std::string out;
  double budget = 1e9;             // seconds
  long one_prog = -1, one_sched = -1;
  uint64_t base = 1;
};

inline int run(int argc, char **argv, const std::map<std::string, Factory> &modes) {
  Args a;
  std::string mode = modes.begin()->first;
  for (int i = 1; i < argc; ++i) {
    std::string_view k = argv[i];
    auto v = [&] { return argv[++i]; };
    if (k == "--mode") mode = v();
    else if (k == "--first") a.first = strtoull(v(), 0, 10);
    else if (k == "--last") a.last = strtoull(v(), 0, 10);
    else if (k == "--schedules") a.schedules = strtoull(v(), 0, 10);
    else if (k == "--out") a.out = v();
    else if (k == "--budget") a.budget = atof(v());
    else if (k == "--base") a.base = strtoull(v(), 0, 10);
    else if (k == "--prog") a.one_prog = atol(v());
    else if (k == "--sched") a.one_sched = atol(v());
  }
  auto it = modes.find(mode);
  if (it == modes.end()) { fprintf(stderr, "no mode %s\n", mode.c_str()); return 2; }
  FILE *f = a.out.empty() ? stdout : fopen(a.out.c_str(), "w");
  if (!f) return 2;
  std::unordered_set<std::string> seen;
  auto t0 = std::chrono::steady_clock::now();
  uint64_t runs = 0, steps = 0, inconclusive = 0, uniq = 0;
  uint64_t p0 = a.first, p1 = a.last;
  if (a.one_prog >= 0) { p0 = a.one_prog; p1 = p0 + 1; }
  bool stop = false;
  for (uint64_t p = p0; p < p1 && !stop; ++p) {
    uint64_t est = 200;
    uint64_t s0 = 0, s1 = a.schedules;
    if (a.one_sched >= 0) { s0 = a.one_sched; s1 = s0 + 1; }
    for (uint64_t s = s0; s < s1; ++s) {
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > a.budget) { stop = true; break; }
      Program prog = it->second(p * 1000003 + a.base);
      vs::Options o = prog.opt;
      o.seed = p * 7919 + s * 104729 + a.base * 15485863 + 17;
      // the estimate only depends on the schedule index, so that one schedule
      // can be re-run on its own
      static const uint64_t ests[] = {60, 150, 400, 1000, 2500};
      o.est_steps = ests[s % 5];
      (void)est;
      auto r = vs::run_forked(o, prog.body);
      ++runs;
      steps += r.steps;
      std::string end = "end";
      if (r.signaled) {
        if (r.code == 9) { ++inconclusive; continue; }
        end = r.code == 14 ? "hang" : "crash";
      }
      else if (r.code == vs::kExitStuck) end = "stuck";
      else if (r.code == vs::kExitSteps) end = "hang";
      else if (r.code == vs::kExitUaf || r.code == vs::kExitDoubleFree) end = "uaf";
      else if (r.code != 0) end = "crash";
      std::string ev;
      size_t b = 0;
      while (b < r.log.size()) {
        size_t e = r.log.find('\n', b);
        if (e == std::string::npos) e = r.log.size();
        if (!ev.empty()) ev += ',';
        ev.append(r.log, b, e - b);
        b = e + 1;
      }
      if (!ev.empty()) ev += ',';
      ev += "{\"e\":\"" + end + "\"}";
      std::string key = prog.scn + ev;
      if (a.one_prog < 0 && !seen.insert(key).second) continue;
      ++uniq;
      fprintf(f, "{\"prog\":%llu,\"sched\":%llu,\"end\":\"%s\",\"scn\":%s,\"ev\":[%s]}\n",
              (unsigned long long)p, (unsigned long long)s, end.c_str(), prog.scn.c_str(), ev.c_str());
    }
  }
  if (f != stdout) fclose(f);
  printf("STATS runs=%llu uniq=%llu steps=%llu inconclusive=%llu\n", (unsigned long long)runs,
         (unsigned long long)uniq, (unsigned long long)steps, (unsigned long long)inconclusive);
  return 0;
}

inline int us() { return (int)(vs::now_ns() / 1000); }

}  // namespace drv

// Log one event.  Logging is never a scheduling point, so that the event is
// atomic with the operation it stands next to.
#define EV(fmt, ...) vs::log("{" fmt "}" __VA_OPT__(,) __VA_ARGS__)
