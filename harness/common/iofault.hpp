// Fault injection at the system-call boundary of the real code: the program's
// own definitions of open/read/write/seek/close functions, and of those that rename,
// remove, cut, flush or look at files, are used by the C++
// library's file streams.  A plan names calls by their position.
#pragma once
#include "mc.hpp"
#include <sys/types.h>

namespace iof {
enum Op : char { OPEN = 'o', READ = 'r', WRITE = 'w', SEEK = 's', CLOSE = 'c', NAME = 'n', STAT = 't' };
enum Kind { FAIL_SPACE, FAIL_IO, FAIL_FROM, END, END_FROM, SHORT1, SHORT_HALF, INTERRUPT, SHORT_AT };
inline const char *kind_name(Kind k) {
  static const char *n[] = {"ENOSPC", "EIO", "EIO from here on", "premature end", "premature end from here on", "1 byte only", "half only", "EINTR", "cut short"};
  return n[k];
}
struct Fault {
  long at;
  Kind kind;
  size_t n = 0; // of SHORT_AT: the number of bytes
};
struct Call {
  Op op;
  size_t bytes;
  size_t got = 0; // reads: the number of bytes read
};
struct Written { // a successful write, and where it went
  int fd;
  off_t at;
  std::string bytes;
};
struct Report {
  std::vector<Written> log; // only if recording
  std::vector<Call> calls;
  int failed = 0;   // calls that reported an error (not EINTR) or a premature end
  int close_failed = 0;
  int transparent = 0; // short or interrupted calls
};
void arm(const std::vector<Fault> &plan);
void record(); // as arm({}), and keeps what is written
// as arm({}), but the process ends at the k-th write, after its first `bytes` bytes
void die_at(long write, size_t bytes);
Report disarm();
// the kinds that make sense for a call
std::vector<Kind> kinds(Op op);
inline bool transparent(Kind k) { return k == SHORT1 || k == SHORT_HALF || k == INTERRUPT || k == SHORT_AT; }
inline std::string text(const std::vector<Fault> &p, const std::vector<Call> &calls) {
  std::string s;
  for (auto &f : p)
    s += mc::str(s.empty() ? "" : ", ", kind_name(f.kind), f.kind == SHORT_AT ? mc::str(" after ", f.n, " bytes") : std::string(), " at call ", f.at, f.at < long(calls.size()) ? mc::str(" (", calls[size_t(f.at)].op, calls[size_t(f.at)].bytes, ")") : std::string());
  return s.empty() ? "no fault" : s;
}
// all plans of one fault, and of two (the second may also come up to `beyond` calls after the last one)
inline std::vector<std::vector<Fault>> plans(const std::vector<Call> &calls, bool pairs, long beyond = 2) {
  std::vector<std::vector<Fault>> v;
  v.push_back({});
  long n = long(calls.size());
  auto of = [&](long k) {
    if (k < n)
      return kinds(calls[size_t(k)].op);
    return std::vector<Kind>{FAIL_IO, INTERRUPT, SHORT1};
  };
  for (long a = 0; a < n; ++a)
    for (auto ka : of(a)) {
      v.push_back({{a, ka}});
      if (pairs)
        for (long b = a + 1; b < n + beyond; ++b)
          for (auto kb : of(b))
            v.push_back({{a, ka}, {b, kb}});
    }
  return v;
}
// plans in which a read ends early, after any number of bytes, and the next call fails
inline std::vector<std::vector<Fault>> cuts(const std::vector<Call> &calls, size_t dense, bool all) {
  std::vector<std::vector<Fault>> v;
  for (long a = 0; a < long(calls.size()); ++a) {
    const auto &c = calls[size_t(a)];
    if (c.op != READ)
      continue;
    for (size_t n = 1; n <= c.got; ++n) {
      if (c.got > dense && n > dense / 4 && n + dense / 4 < c.got && n % 61)
        continue;
      for (auto k : {FAIL_IO, FAIL_FROM, END, END_FROM})
        if (all || k == FAIL_FROM || k == END)
          v.push_back({{a, SHORT_AT, n}, {a + 1, k}});
      if (all)
        v.push_back({{a, SHORT_AT, n}});
    }
  }
  return v;
}
} // namespace iof
