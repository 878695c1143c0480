// A controlled scheduler and a happens-before race detector for the real code.
// The library and the harness are compiled with -fsanitize=thread, but linked with
// the callbacks in sched.cpp instead of the sanitizer's runtime.  Exactly one thread
// runs at a time; threads change places at scheduling points only: synchronisation
// (mutexes, atomics, guards of static variables, pthread_once, condition variables),
// calls that reach shared state of the system (files, environment, locale, ...), and,
// in a second mode, entries of functions.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {
constexpr int MAX = 3;
struct Switch {
  std::uint32_t at; // index of the scheduling point (global, in order of execution)
  int to;           // the thread that runs from there on
};
struct Plan {
  int first = 0;                 // the thread that begins
  std::vector<Switch> switches;  // at synchronisation points
  std::uint32_t entry = 0;       // preempt `first` at its entry-th function entry (1 = first; 0 = never)
  int depth = 0;                 // which function entries count: those at most this deep
};
struct Point {
  int thread;
  std::uint32_t enabled; // bit per thread: could run at this point (including `thread`)
  std::uint64_t kind;    // 0: waits or ends; 1, 9: reads the object; up to 12: others on the object; 20 and more: system
  std::uint64_t object;
};
struct Run {
  bool ok = false;
  std::string problem;               // a race, a deadlock, a crash
  std::vector<std::string> results;  // per thread
  std::vector<Point> points;
  std::vector<std::uint32_t> entries; // thread 0's function entries by depth (cumulative up to 32)
  std::uint64_t accesses = 0;        // to memory that is not a thread's own
};
// Runs the bodies as threads under the plan, in a forked process; `prepare` runs
// there before the threads start.
Run run(const std::vector<std::function<std::string()>> &bodies, const Plan &plan);
} // namespace sched
