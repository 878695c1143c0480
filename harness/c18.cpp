// C18: independent operations in different threads do not interfere.
// Two (or three) operations on objects of their own run as threads of the real code
// under a controlled scheduler (common/sched.cpp): one after the other in both
// orders, with every set of <= k preemptions at synchronisation and system calls,
// and with one preemption at every function entry up to a depth.  In every schedule
// a happens-before race detector watches all memory that is not a thread's own, and
// each thread's answers must be those it gives when it runs alone.
#include "common/ops.hpp"
#include "common/sched.hpp"
#include <algorithm>
#include <sys/stat.h>
#include <unistd.h>

namespace {
std::string perform(size_t k, const std::string &path) {
  std::string r;
  for (auto &s : ops[k].make(path))
    r += s() + " | ";
  return r;
}
std::vector<std::string> alone;
std::vector<std::uint64_t> entries; // function entries, in total

// threads: the operations by number; returns the run
struct Explorer {
  std::vector<std::vector<size_t>> who;
  std::uint64_t schedules = 0, capped = 0;
  size_t limit;
  bool whole = false;
  sched::Run go(const sched::Plan &p) {
    std::vector<std::function<std::string()>> b;
    for (size_t i = 0; i < who.size(); ++i)
      b.push_back([list = who[i], i] {
        std::string r;
        for (size_t n = 0; n < list.size(); ++n)
          r += perform(list[n], mc::str("t", i, "_", n));
        return r;
      });
    auto r = sched::run(b, p);
    ++schedules;
    mc::transitions(r.points.size() + 1);
    mc::traces();
    auto describe = [&] {
      std::string s = mc::str("begin with thread ", p.first);
      for (auto &w : p.switches)
        s += mc::str(", at point ", w.at, " to thread ", w.to);
      if (p.entry)
        s += mc::str(", preempted at its function entry ", p.entry, " of depth <= ", p.depth);
      return s;
    };
    if (!r.problem.empty())
      mc::fail(r.problem + "  [" + describe() + "]");
    std::string id;
    for (size_t i = 0; i < who.size(); ++i) {
      std::string expected;
      for (size_t k : who[i])
        expected += alone[k];
      if (r.results[i] != expected)
        mc::fail(mc::str("thread ", i, " gave {", r.results[i], "}, alone {", expected, "}  [", describe(), "]"));
      id += mc::list(who[i]);
    }
    id += mc::str(p.first, "/", p.entry, "@", p.depth);
    for (auto &w : p.switches)
      id += mc::str(" ", w.at, ">", w.to);
    mc::state(id);
    return r;
  }
  // all schedules with at most `budget` further preemptions after point `from`
  void dfs(const sched::Plan &p, const sched::Run &r, std::uint32_t from, int budget, bool process = false) {
    // a preemption matters only in front of an operation on an object which several
    // threads use and one of them modifies, or of a system call
    std::map<std::uint64_t, std::pair<unsigned, bool>> used;
    for (auto &q : r.points)
      if (q.kind && q.kind < 20) {
        auto &u = used[q.object];
        u.first |= 1u << q.thread;
        u.second |= q.kind != 1 && q.kind != 9;
      }
    for (std::uint32_t i = from; i < r.points.size(); ++i) {
      auto &q = r.points[i];
      if (process && q.kind && (q.kind < 21 || q.kind > 26)) // only where the state of the process changes
        continue;
      if (q.kind && q.kind < 20) {
        auto &u = used[q.object];
        if (!u.second || !(u.first & (u.first - 1)))
          continue;
      }
      bool choice = !(q.enabled & (1u << q.thread)); // the thread waits or has ended: no preemption
      // what the thread does by default
      int def = q.thread;
      if (choice)
        for (def = 0; !(q.enabled & (1u << def)); ++def)
          ;
      for (int t = 0; t < int(who.size()); ++t) {
        if (t == def || !(q.enabled & (1u << t)))
          continue;
        int left = budget - (choice ? 0 : 1);
        if (left < 0)
          continue;
        // code with many synchronisation operations gets fewer schedules per member
        static std::uint64_t all = 0;
        if (schedules >= limit || (!whole && ++all > (mc::thorough() ? 2000000u : 20000u) && schedules >= 6)) {
          ++capped;
          return;
        }
        sched::Plan n = p;
        n.switches.push_back({i, t});
        auto s = go(n);
        if (left > 0 || who.size() > 2)
          dfs(n, s, i + 1, left, process);
      }
    }
  }
};
} // namespace

void explore() {
  make_ops();
  std::locale standard; // the standard library's own initialisation is not at stake
  std::ostringstream() << standard.name().size() << 1.5;
  const bool th = mc::thorough();
  const size_t N = ops.size();
  if (chdir(mc::scratch().c_str()))
    throw std::runtime_error("chdir");
  // the answers of each operation alone
  for (size_t k = 0; k < N; ++k) {
    std::vector<std::function<std::string()>> b = {[k] { return perform(k, "t0"); }};
    auto r = sched::run(b, sched::Plan());
    alone.push_back(r.results[0]);
    entries.push_back(r.entries.back());
    mc::one([&] { return "alone: " + ops[k].name; },
            [&] {
              if (!r.problem.empty())
                mc::fail(r.problem);
              auto again = sched::run(b, sched::Plan());
              if (again.results[0] != r.results[0])
                mc::fail("the operation gives {" + r.results[0] + "} and {" + again.results[0] + "}");
              std::string e;
              for (size_t d = 0; d < 33; ++d)
                e += mc::str(r.entries[d], " ");
              std::map<std::uint64_t, int> kinds;
              for (auto &q : r.points)
                ++kinds[q.kind];
              std::string pts;
              for (auto &q : kinds)
                pts += mc::str(" ", q.first, "x", q.second);
              mc::sample(mc::str(ops[k].name, ": ", r.points.size(), " points", pts, ", function entries by depth ", e, " -> ", r.results[0]));
              mc::outcome(r.results[0]);
            });
  }
  mc::count("operations in the alphabet", mc::solo(0) ? N : 0);
  // Every thread performs the operations listed for it, one after the other.
  auto together = [&](const std::vector<std::vector<size_t>> &who, size_t limit, int budget, std::uint32_t max, bool whole = false) {
    Explorer e{who};
    e.limit = limit;
    e.whole = whole;
    sched::Plan p;
    auto r = e.go(p); // thread 0, then the others
    e.dfs(p, r, 0, budget);
    // two preemptions where the state of the process (locale, directory, random numbers) changes
    if (std::any_of(r.points.begin(), r.points.end(), [](const auto &q) { return q.kind > 21 && q.kind <= 26; })) {
      e.limit = e.schedules + (th ? 4000 : 200);
      e.whole = true;
      e.dfs(p, r, 0, 2, true);
    }
    mc::count("schedules of synchronisation points", e.schedules);
    if (e.capped)
      mc::count("members whose schedules were cut off");
    // one preemption at a function entry of thread 0
    std::uint32_t n = 0;
    int depth = -1;
    for (int d = 0; d < 33; ++d) {
      if (n + r.entries[size_t(d)] > max)
        break;
      n += r.entries[size_t(d)];
      depth = d;
    }
    for (std::uint32_t i = 1; i <= n; ++i) {
      sched::Plan q;
      q.entry = i;
      q.depth = depth;
      e.go(q);
    }
    mc::count("schedules of function entries", n);
    std::string id;
    for (auto &w : who)
      id += mc::list(w);
    mc::outcome(id);
  };
  auto describe = [&](const std::vector<std::vector<size_t>> &who) {
    std::string s;
    for (size_t i = 0; i < who.size(); ++i)
      for (size_t k = 0; k < who[i].size(); ++k)
        s += mc::str(k ? ", then " : i ? "; thread " : "thread ", k ? "" : mc::str(i, ": "), ops[who[i][k]].name);
    return s;
  };
  auto heavy = [&](size_t k) { return ops[k].name == "write a large compressed array" || ops[k].name.rfind("save u1(70000)", 0) == 0; };
  // 1. two threads, one operation each
  for (size_t x = 0; x < N; ++x)
    for (size_t y = 0; y < N; ++y) {
      std::vector<std::vector<size_t>> who = {{x}, {y}};
      bool slow = heavy(x) || heavy(y);
      if (slow && x != y && (x + y) % 4)
        continue;
      mc::one([&] { return describe(who); },
              [&] {
                if (slow)
                  together(who, th ? 100 : 4, 1, th ? 100 : 2);
                else if (x == y)
                  together(who, th ? 20000 : 400, 2, th ? 4000 : 800);
                else
                  together(who, th ? 1000 : 30, th ? 2 : 1, th ? 200 : 20);
              });
    }
  // 2. three threads, one operation each; two threads with two operations
  size_t step = th ? 1 : 4;
  for (size_t x = 0; x < N; ++x)
    for (size_t y = x % step; y < N; y += step)
      for (size_t z : {x, y, (x + y) % N}) {
        if ((!th && z != x) || heavy(x) || heavy(y) || heavy(z))
          continue;
        std::vector<std::vector<size_t>> three = {{x}, {y}, {z}}, two = {{x, y}, {y, z}};
        mc::one([&] { return describe(three); }, [&] { together(three, th ? 300 : 10, 1, th ? 20 : 2); });
        mc::one([&] { return describe(two); }, [&] { together(two, th ? 300 : 10, 1, th ? 20 : 2); });
      }
  // 3. in a program with a global locale of its own, which everybody sees
  struct Own : std::numpunct<char> {
    std::string do_grouping() const override { return "\1"; }
    char do_thousands_sep() const override { return '\''; }
    std::string do_truename() const override { return "yes"; }
    std::string do_falsename() const override { return "no"; }
  };
  const std::locale own(std::locale::classic(), new Own);
  struct Global {
    std::locale before;
    explicit Global(const std::locale &l) : before(std::locale::global(l)) {}
    ~Global() { std::locale::global(before); }
  };
  for (size_t x = 0; x < N; ++x)
    for (size_t y : {x, (x + 1) % N, (x + N / 2) % N}) {
      if (heavy(x) || heavy(y) || (!th && y != x && (x + y) % 3))
        continue;
      std::vector<std::vector<size_t>> who = {{x}, {y}};
      mc::one([&] { return describe(who) + ", with a global locale of the program's"; },
              [&] {
                Global g(own);
                together(who, th ? 8000 : x == y ? 400 : 60, 2, th ? 800 : 60, true);
                if (std::locale() != own)
                  mc::fail("the global locale is another one afterwards");
              });
    }
}
