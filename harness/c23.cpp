// C23: what a library operation produces depends on its arguments only.
// Every operation of an alphabet is first performed alone in a freshly executed
// process (twice: under different clocks, environments, directories).  Then all
// sequences of operations up to a depth, all interleavings of the steps of pairs of
// longer operations, and long repetitions, are performed in processes forked from
// one that has not used the library; every answer must be the fresh process's.
#include "common/ops.hpp"
#include <cerrno>
#include <cfenv>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <filesystem>
#include <iostream>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <xmmintrin.h>

// ------------------------------------------------------------------ the clock ----
static long clock_shift = 0; // seconds
extern "C" {
int clock_gettime(clockid_t c, struct timespec *t) noexcept {
  long r = syscall(SYS_clock_gettime, c, t);
  if (r == 0)
    t->tv_sec += clock_shift;
  return int(r);
}
int gettimeofday(struct timeval *t, void *) noexcept {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *t) noexcept {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (t)
    *t = s.tv_sec;
  return s.tv_sec;
}
}

namespace {
// ------------------------------------------------------------- the reference ----
std::vector<std::vector<std::string>> fresh; // per operation, per step
std::vector<int> crashed;
std::string workdir() {
  static int n = 0;
  std::string d = mc::scratch() + mc::str("/w", getpid(), "_", ++n);
  mkdir(d.c_str(), 0755);
  return d;
}
std::vector<std::string> execute(size_t k, const std::string &path) {
  std::vector<std::string> r;
  for (auto &s : ops[k].make(path))
    r.push_back(s());
  return r;
}
std::vector<std::string> fresh_process(size_t k, bool strange, std::string &error) {
  std::string d = workdir(), res = d + ".result";
  std::string self(4096, 0);
  ssize_t n = readlink("/proc/self/exe", &self[0], self.size());
  self.resize(n > 0 ? size_t(n) : 0);
  pid_t p = fork();
  if (p == 0) {
    if (strange) {
      d += "/a deeper directory";
      mkdir(d.c_str(), 0700);
      umask(077);
      setenv("TZ", "Asia/Kathmandu", 1);
      setenv("SOURCE_DATE_EPOCH", "12345", 1);
      setenv("HOME", "/nonexistent", 1);
      setenv("LANG", "tr_TR.UTF-8", 1);
      setenv("LC_ALL", "tr_TR.UTF-8", 1);
      unsetenv("PATH");
    }
    if (chdir(d.c_str()))
      _exit(99);
    std::string a = mc::str("op=", k), b = "result=" + res, c = mc::str("shift=", strange ? 123456789 : 0), e = strange ? "path=other name" : "path=f";
    execl(self.c_str(), self.c_str(), "-D", a.c_str(), "-D", b.c_str(), "-D", c.c_str(), "-D", e.c_str(), (char *)nullptr);
    _exit(98);
  }
  int st = 0;
  waitpid(p, &st, 0);
  std::vector<std::string> v;
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    error = mc::str("operation '", ops[k].name, "' alone in a fresh process ended with status ", st);
    return v;
  }
  std::string b = mc::read_all(res);
  for (size_t at = 0; at < b.size();) {
    auto e = b.find('\0', at);
    v.push_back(b.substr(at, e - at));
    at = e + 1;
  }
  std::error_code ec;
  std::filesystem::remove_all(workdir(), ec);
  std::filesystem::remove_all(d, ec);
  unlink(res.c_str());
  return v;
}

// ---------------------------------------------------------------- histories ----
struct Move {
  size_t op;
  size_t instance;
};
// In a forked process: f reports what is wrong ("" = nothing); a crash is a failure.
// Returns through the pipe, together with counters.
struct Count {
  std::uint64_t transitions = 0, traces = 0;
};
Count total;
void in_process(const std::function<void()> &f) {
  std::string d = workdir();
  int fd[2];
  if (pipe(fd))
    throw std::runtime_error("pipe");
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0)
    throw std::runtime_error("fork");
  if (p == 0) {
    close(fd[0]);
    struct itimerval tv = {{0, 0}, {0, 0}};
    setitimer(ITIMER_PROF, &tv, nullptr);
    alarm(200);
    std::string msg;
    total = Count();
    if (chdir(d.c_str()))
      _exit(97);
    try {
      f();
    } catch (const mc::Failure &x) {
      msg = x.msg;
    } catch (const std::exception &x) {
      msg = std::string("an exception escaped: ") + x.what();
    }
    std::string o(reinterpret_cast<char *>(&total), sizeof total);
    o += msg;
    for (size_t at = 0; at < o.size();) {
      ssize_t n = write(fd[1], o.data() + at, o.size() - at);
      if (n <= 0)
        break;
      at += size_t(n);
    }
    _exit(0);
  }
  close(fd[1]);
  std::string b;
  char buf[4096];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0)
    b.append(buf, size_t(n));
  close(fd[0]);
  int st = 0;
  waitpid(p, &st, 0);
  std::error_code ec;
  std::filesystem::remove_all(d, ec);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || b.size() < sizeof total)
    mc::fail(mc::str("the process ended with status ", st));
  Count c;
  memcpy(&c, b.data(), sizeof c);
  total.transitions += c.transitions;
  total.traces += c.traces;
  if (b.size() > sizeof c)
    mc::fail(b.substr(sizeof c));
}
void check(size_t k, size_t step, const std::string &got, const std::string &history) {
  ++total.transitions;
  if (got != fresh[k][step])
    mc::fail("after [" + history + "]: '" + ops[k].name + "' step " + std::to_string(step) + " gave {" + got + "}, in a fresh process {" + fresh[k][step] + "}");
}
void whole(size_t k, const std::string &history, const std::string &path = "f") {
  clock_shift += 86400 * 3 + 7;
  auto r = execute(k, path);
  for (size_t i = 0; i < r.size(); ++i)
    check(k, i, r[i], history);
}
// ------------------------------------------- the state the program is found in ----
struct State {
  std::string name;
  std::function<void()> enter; // before every step
  bool unwinding = false;
};
std::vector<State> states() {
  std::vector<State> v;
  for (int e : {ERANGE, EINVAL, EINTR, ENOENT, ENOMEM, EILSEQ, ENOSPC, EBADF})
    v.push_back({mc::str("errno ", e), [e] { errno = e; }});
  for (int r : {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO})
    v.push_back({mc::str("rounding ", r), [r] { fesetround(r); }});
  v.push_back({"floating-point flags raised", [] { feraiseexcept(FE_DIVBYZERO | FE_INVALID | FE_OVERFLOW | FE_UNDERFLOW | FE_INEXACT); }});
  v.push_back({"denormal numbers flushed", [] { _mm_setcsr(_mm_getcsr() | 0x8040); }});
  v.push_back({"formats of the standard streams", [] {
                 for (std::ios *o : {static_cast<std::ios *>(&std::cin), static_cast<std::ios *>(&std::cerr), static_cast<std::ios *>(&std::cout)}) {
                   o->setf(std::ios::hex, std::ios::basefield);
                   o->setf(std::ios::showbase | std::ios::uppercase | std::ios::left);
                   o->unsetf(std::ios::skipws);
                   o->fill('*');
                   o->precision(1);
                   o->setstate(std::ios::failbit);
                 }
               }});
  v.push_back({"standard streams without stdio", [] { std::ios::sync_with_stdio(false); }});
  v.push_back({"descriptors 0 to 2 closed", [] {
                 static bool done = false; // later ones are the operation's own
                 if (!done)
                   for (int d : {0, 1, 2})
                     close(d);
                 done = true;
               }});
  v.push_back({"signals blocked", [] {
                 sigset_t s;
                 sigfillset(&s);
                 sigprocmask(SIG_BLOCK, &s, nullptr);
               }});
  v.push_back({"random numbers drawn", [] {
                 srand(7);
                 rand();
                 srand48(9);
               }});
  v.push_back({"an exception on its way", [] {}, true});
  return v;
}
// f while an exception unwinds the stack, and once more where it is caught
template <class F> struct AtExit {
  F f;
  ~AtExit() { f(); }
};
template <class F> void unwinding(F f) {
  try {
    AtExit<F> a{f};
    throw 1;
  } catch (int) {
  }
}
void in_state(size_t k, const State &w) {
  std::string why;
  auto body = [&]() noexcept(false) {
    try {
      size_t i = 0;
      for (auto &s : ops[k].make("f")) {
        w.enter();
        std::string got = s();
        check(k, i++, got, "in the state: " + w.name);
      }
      if (i != fresh[k].size())
        mc::fail("other steps");
    } catch (const mc::Failure &x) {
      why = x.msg;
    }
  };
  if (w.unwinding)
    unwinding(body);
  else
    body();
  if (!why.empty())
    mc::fail(why);
  ++total.traces;
}
} // namespace

void explore() {
  mc::alloc_cap = size_t(1) << 30;
  make_ops();
  const size_t N = ops.size();
  if (!mc::option("op").empty()) { // the fresh process
    size_t k = size_t(atoll(mc::option("op").c_str()));
    clock_shift = atol(mc::option("shift").c_str());
    std::string o;
    for (auto &s : execute(k, mc::option("path")))
      o += s + '\0';
    mc::write_all(mc::option("result"), o);
    _exit(0);
  }
  for (size_t k = 0; k < N; ++k) {
    std::string error;
    fresh.push_back(fresh_process(k, false, error));
    auto again = error.empty() ? fresh_process(k, true, error) : fresh[k];
    // a fresh process under another clock, environment and path
    mc::one([&] { return "fresh: " + ops[k].name; },
            [&] {
              if (!error.empty())
                mc::fail(error);
              for (auto &s : fresh[k])
                if (s.find(MODIFIED) != std::string::npos)
                  mc::fail("'" + ops[k].name + "' modified its input: " + s);
              if (again != fresh[k])
                mc::fail("'" + ops[k].name + "' gave " + mc::list(fresh[k]) + " but " + mc::list(again) + " under another clock, environment, directory and path");
              mc::outcome(mc::list(fresh[k]));
              mc::sample(ops[k].name + " -> " + mc::list(fresh[k]));
              mc::transitions(2 * fresh[k].size());
            });
    if (!error.empty())
      fresh[k].assign(64, error);
  }
  mc::count("operations in the alphabet", mc::solo(0) ? N : 0);
  const bool th = mc::thorough();
  auto flush = [&] {
    mc::transitions(total.transitions);
    mc::traces(total.traces);
    total = Count();
  };
  const bool depth3 = th || mc::option("depth") == "3";
  // 1. all sequences of three operations (and their prefixes)
  for (size_t x = 0; x < N; ++x)
    for (size_t y = 0; y < N; ++y)
      mc::one([&] { return mc::str("sequences ", ops[x].name, " ; ", ops[y].name, " ; *"); },
              [&] {
                in_process([&] {
                  whole(x, "");
                  whole(y, ops[x].name);
                  const std::string h = ops[x].name + " ; " + ops[y].name;
                  for (size_t z = 0; z < (depth3 ? N : 0); ++z) {
                    in_process([&] {
                      whole(z, h);
                      if (th)
                        for (size_t w = (x + y + z) % 4; w < N; w += 4)
                          in_process([&] {
                            whole(w, h + " ; " + ops[z].name);
                            ++total.traces;
                          });
                      ++total.traces;
                    });
                  }
                });
                mc::state(mc::str(x, " ", y));
                for (size_t z = 0; z < (depth3 ? N : 0); ++z)
                  mc::state(mc::str(x, " ", y, " ", z));
                mc::outcome(mc::str("seq", x, " ", y));
                flush();
              });
  // 2. all interleavings of the steps of two operations on different objects
  for (size_t x = 0; x < N; ++x)
    for (size_t y = 0; y < N; ++y) {
      size_t nx = fresh[x].size(), ny = fresh[y].size();
      if (nx == 64 || ny == 64 || (nx < 2 && ny < 2) || (nx == ny && y < x) || ny > nx)
        continue;
      mc::one([&] { return mc::str("interleavings of ", ops[x].name, " || ", ops[y].name); },
              [&] {
                std::function<void(std::string)> go;
                // every word with nx 'x's and ny 'y's
                std::vector<std::string> words;
                go = [&](std::string w) {
                  size_t a = size_t(std::count(w.begin(), w.end(), 'x')), b = w.size() - a;
                  if (a == nx && b == ny)
                    return words.push_back(w);
                  if (a < nx)
                    go(w + 'x');
                  if (b < ny)
                    go(w + 'y');
                };
                go("");
                for (auto &w : words) {
                  in_process([&] {
                    auto sx = ops[x].make("f"), sy = ops[y].make("g");
                    size_t a = 0, b = 0;
                    for (char c : w) {
                      clock_shift += 86400 * 3 + 7;
                      if (c == 'x') {
                        check(x, a, sx[a](), "interleaving " + w + " with " + ops[y].name);
                        ++a;
                      } else {
                        check(y, b, sy[b](), "interleaving " + w + " with " + ops[x].name);
                        ++b;
                      }
                    }
                    ++total.traces;
                  });
                  mc::state(mc::str(x, " ", y, w));
                }
                mc::outcome(mc::str("il", x, " ", y));
                flush();
              });
    }
  // 3. long repetitions, then everything; and all pairs in one process
  for (size_t x = 0; x < N; ++x)
    mc::one([&] { return mc::str("many times ", ops[x].name, " ; *"); },
            [&] {
              in_process([&] {
                for (int n = 0; n < (th ? 1100 : 300) && n < (ops[x].name.find("large") != std::string::npos ? 20 : 100000); ++n)
                  whole(x, "itself many times");
                for (size_t z = 0; z < N; ++z)
                  in_process([&] {
                    whole(z, "many times " + ops[x].name);
                    ++total.traces;
                  });
              });
              mc::outcome(mc::str("many", x));
              flush();
            });
  for (size_t first = 0; first < N; ++first)
    mc::one([&] { return mc::str("one process for all pairs, beginning with operation ", first); },
            [&] {
              in_process([&] {
                std::string last = "a long history";
                for (size_t d = 1; d < N; ++d)
                  for (size_t i = 0; i < 2; ++i) {
                    whole((first + i * d) % N, last);
                    last = "..., " + ops[(first + i * d) % N].name;
                  }
                ++total.traces;
              });
              flush();
              mc::outcome(mc::str("walk", first));
            });
  // 4. whatever state the program is in
  for (size_t x = 0; x < N; ++x)
    for (auto &w : states())
      mc::one([&] { return ops[x].name + " in the state: " + w.name; },
              [&] {
                in_process([&] {
                  in_state(x, w);
                  for (size_t z = 0; th && z < N; ++z)
                    in_process([&] { in_state(z, w); });
                });
                mc::state(ops[x].name + w.name);
                mc::outcome(mc::str("state", x, w.name));
                mc::nontrivial();
                flush();
              });
}
