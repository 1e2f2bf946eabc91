// Deterministic cooperative scheduler + virtual clock for code compiled with
// -fsanitize=thread but linked against vsched.cc instead of libtsan.
//
// Exactly one thread of the process runs at a time.  Every atomic operation,
// mutex / condition variable / futex / thread / clock / socket call made by the
// instrumented program is a scheduling point at which a seeded strategy picks
// the next thread.  Time is virtual: it advances a little on every step and
// jumps to the next deadline when nobody can run.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

namespace vs {

struct Options {
  uint64_t seed = 1;
  int strategy = -1;          // -1: derived from the seed
  uint64_t max_steps = 200000;
  uint64_t est_steps = 400;   // PCT: where priority changes are placed
  int64_t step_ns = 200;      // virtual time per scheduling step
  double early_timeout = 0.0; // probability/step of letting a deadline pass early
  double spurious = 0.0;      // probability of a spurious condition wake-up
  double short_io = 0.0;      // probability of a short or refused write to a stream socket
  double eintr = 0.0;         // probability of an interrupted wait for input
  bool mem_points = true;     // may plain memory accesses be scheduling points
  int coarse = 0;             // >0: of the loads of one place that a thread makes in a row only every coarse-th is a point
  bool quarantine = true;     // never reuse deleted memory, report uses of it
};

// Run `body` once in this (single threaded) process under the scheduler and
// write the history to the log.  Never returns: ends the process.
enum ExitCode {
  kExitEnd = 0,       // body finished
  kExitStuck = 10,    // nobody can ever run again
  kExitSteps = 11,    // step budget used up (no verdict)
  kExitUaf = 12,      // instrumented access to deleted memory
  kExitDoubleFree = 13,
};

// ---- fork server -------------------------------------------------------
struct RunResult {
  bool signaled = false;
  int code = 0;
  uint64_t steps = 0;
  std::string log;       // events, one JSON object per line
  std::string note;
};
RunResult run_forked(const Options &opt, const std::function<void()> &body);

// ---- inside the body ---------------------------------------------------
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int64_t now_ns();                 // virtual time since start of body
int tid();                        // scheduler's id of the calling thread
uint64_t steps();
void on_stuck(std::function<void()> fn);   // called (unscheduled) when stuck
void yield_point();
void set_early_timeout(double p);
// Block the calling thread until nobody else can run without time moving on
// or somebody being woken by it (quiescence).
void wait_quiescent();
// Disable/enable preemption inside the harness (events stay atomic).
struct NoPreempt { NoPreempt(); ~NoPreempt(); };
uint64_t rnd();                   // scheduler's own random numbers
bool active();

}  // namespace vs
