// Runs a small program under many schedules; fails if a run hangs, crashes or
// calls bad().
#pragma once
#include "vsched.h"
#include <cstdio>
#include <cstdlib>
#include <functional>
inline void bad(const char *why) { vs::log("BAD %s", why); }
inline int explore(const std::function<void()> &body, int n = 3000, double early = 0.02, double spurious = 0) {
  for (int k = 0; k < n; ++k) {
    vs::Options o;
    static const uint64_t ests[] = {60, 150, 400, 1000, 2500};
    o.seed = k * 7919 + 3;
    o.est_steps = ests[k % 5];
    o.early_timeout = k % 2 ? early : 0;
    o.spurious = k % 3 == 0 ? spurious : 0;
    auto r = vs::run_forked(o, body);
    if (r.signaled && r.code == 9) continue;
    if (r.signaled || r.code != 0) { printf("schedule %d: abnormal end %d/%d\n", k, r.signaled, r.code); return 1; }
    if (r.log.find("BAD") != std::string::npos) { printf("schedule %d: %s\n", k, r.log.c_str()); return 1; }
  }
  printf("ok\n");
  return 0;
}
