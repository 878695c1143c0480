// Compiled without instrumentation.
#include "sched.hpp"
#include <atomic>
#include <cerrno>
#include <clocale>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <locale>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

// ------------------------------------------------------------------ memory ----
// Every thread allocates from an arena of its own and never reuses a block, so
// that "whose memory is this" has an answer and recycling hides nothing.
namespace {
constexpr size_t ARENA = size_t(1) << 31, STACK = size_t(64) << 20;
char *arena_base[sched::MAX + 1]; // [0] is the main thread's
size_t arena_used[sched::MAX + 1];
char *stack_base[sched::MAX + 1];
thread_local int self_ __attribute__((tls_model("initial-exec"))) = 0; // 0: main, k: thread k-1
thread_local int inside_ __attribute__((tls_model("initial-exec"))) = 0; // the runtime itself is running
bool managed = false; // threads are being scheduled

void map_all() {
  char *p = static_cast<char *>(mmap(nullptr, (ARENA + STACK) * (sched::MAX + 1), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (p == MAP_FAILED)
    _exit(90);
  for (int k = 0; k <= sched::MAX; ++k) {
    arena_base[k] = p + (ARENA + STACK) * size_t(k);
    stack_base[k] = arena_base[k] + ARENA;
  }
}
// the main thread, which outlives many runs, reuses its blocks: by size class (powers of two)
void *free_list[64];
int size_class(size_t n) { return n <= 16 ? 4 : 64 - __builtin_clzl(n - 1); }
void *alloc(size_t n, size_t align = 16) {
  if (!arena_base[0])
    map_all();
  int k = self_;
  if (align < 16)
    align = 16;
  if (!k && n <= ARENA / 2) {
    int c = size_class(n);
    if (align == 16 && free_list[c]) {
      void *p = free_list[c];
      memcpy(&free_list[c], p, sizeof(void *));
      memcpy(static_cast<char *>(p) - 16, &n, sizeof n);
      return p;
    }
    size_t size = size_t(1) << c, at = (arena_used[0] + 16 + align - 1) / align * align;
    if (at + size > ARENA)
      return nullptr;
    arena_used[0] = at + size;
    char *p = arena_base[0] + at;
    memcpy(p - 16, &n, sizeof n);
    return p;
  }
  size_t at = (arena_used[k] + 16 + align - 1) / align * align;
  if (n > ARENA || at + n > ARENA)
    return nullptr;
  arena_used[k] = at + n;
  char *p = arena_base[k] + at;
  memcpy(p - 16, &n, sizeof n);
  return p;
}
} // namespace
extern "C" {
void *malloc(size_t n) {
  void *p = alloc(n);
  if (!p)
    errno = ENOMEM;
  return p;
}
void free(void *q) {
  char *p = static_cast<char *>(q);
  if (!p || managed || self_ || p < arena_base[0] || p >= arena_base[0] + ARENA)
    return;
  size_t n;
  memcpy(&n, p - 16, sizeof n);
  int c = size_class(n);
  memcpy(p, &free_list[c], sizeof(void *));
  free_list[c] = p;
}
void *calloc(size_t a, size_t b) {
  if (b && a > ARENA / b)
    return nullptr;
  void *p = alloc(a * b);
  if (p && !self_)
    memset(p, 0, a * b); // a thread's blocks are fresh pages
  return p;
}
void *realloc(void *p, size_t n) {
  void *q = alloc(n);
  if (p && q) {
    size_t old;
    memcpy(&old, static_cast<char *>(p) - 16, sizeof old);
    memcpy(q, p, old < n ? old : n);
  }
  return q;
}
void *memalign(size_t a, size_t n) { return alloc(n, a); }
void *aligned_alloc(size_t a, size_t n) { return alloc(n, a); }
int posix_memalign(void **p, size_t a, size_t n) { return (*p = alloc(n, a)) ? 0 : ENOMEM; }
size_t malloc_usable_size(void *p) {
  size_t n = 0;
  if (p)
    memcpy(&n, static_cast<char *>(p) - 16, sizeof n);
  return n;
}
}

// ------------------------------------------------------- vector clocks, shadow ----
namespace {
constexpr int T = sched::MAX + 1;
struct Clock {
  u32 v[T] = {0};
  void join(const Clock &o) {
    for (int i = 0; i < T; ++i)
      if (o.v[i] > v[i])
        v[i] = o.v[i];
  }
};
Clock vc[T];
// open addressing; one table for memory cells (8 bytes each), one for synchronisation objects
struct Cell {
  u64 key; // address / 8 + 1
  u32 w[T][8], r[T][8], aw[T][8], ar[T][8];
};
struct Sync {
  u64 key;
  Clock c;
  int owner; // -1: free
  int count, readers[T];
};
constexpr size_t CELLS = size_t(1) << 22, SYNCS = size_t(1) << 14;
Cell *cells; // mapped lazily (NORESERVE), fresh in every forked process
Sync *syncs;
template <class E> E &find(E *table, size_t n, u64 key) {
  size_t h = size_t((key * 0x9E3779B97F4A7C15ull) >> 20) & (n - 1);
  for (size_t tries = 0; tries < n; ++tries, h = (h + 1) & (n - 1)) {
    if (table[h].key == key)
      return table[h];
    if (!table[h].key) {
      table[h].key = key;
      return table[h];
    }
  }
  _exit(91);
}
Sync &sync_of(const volatile void *p) {
  Sync &s = find(syncs, SYNCS, reinterpret_cast<u64>(p) + 1);
  return s;
}

struct Range {
  char *lo, *hi;
};
Range writable[256];
int n_writable = 0;
Range excluded[16];
int n_excluded = 0;
char problem[4096];
u64 accesses = 0;
enum Kind { READ, WRITE, AREAD, AWRITE };

// Memory of one arena that another thread has accessed (or that a thread has modified
// in the main thread's): the cells to watch.  Every run adds to them what it meets; a
// run that met new ones is repeated.  Shared with the forked processes.
struct Watch {
  u32 count, added;
  char *lo[sched::MAX + 1], *hi[sched::MAX + 1];
  u64 cell[1 << 16], list[50000];
};
Watch *watch;
size_t slot_of(u64 key) {
  size_t h = size_t((key * 0x9E3779B97F4A7C15ull) >> 20) & 0xffff;
  while (watch->cell[h] && watch->cell[h] != key)
    h = (h + 1) & 0xffff;
  return h;
}
void add_watch(int arena, char *p, size_t n) {
  if (p + n > watch->hi[arena])
    watch->hi[arena] = p + n;
  if (!watch->lo[arena] || p < watch->lo[arena])
    watch->lo[arena] = p;
  for (u64 k = reinterpret_cast<u64>(p) / 8; k <= (reinterpret_cast<u64>(p) + n - 1) / 8 && watch->count < 50000; ++k) {
    u64 &c = watch->cell[slot_of(k)];
    if (!c) {
      c = k;
      watch->list[watch->count++] = k;
      ++watch->added;
    }
  }
}
void track_range(char *p, size_t n, Kind kind, void *pc);
void track_watched(int arena, char *p, size_t n, Kind kind, void *pc) {
  if (p >= watch->hi[arena] || p + n <= watch->lo[arena])
    return;
  if (watch->count >= 50000)
    return track_range(p, n, kind, pc);
  u64 first = reinterpret_cast<u64>(p) / 8, last = (reinterpret_cast<u64>(p) + n - 1) / 8;
  auto cell = [&](u64 k) {
    char *lo = reinterpret_cast<char *>(k * 8), *hi = lo + 8;
    if (lo < p)
      lo = p;
    if (hi > p + n)
      hi = p + n;
    track_range(lo, size_t(hi - lo), kind, pc);
  };
  if (last - first > watch->count) {
    for (u32 i = 0; i < watch->count; ++i)
      if (watch->list[i] >= first && watch->list[i] <= last)
        cell(watch->list[i]);
  } else
    for (u64 k = first; k <= last; ++k)
      if (watch->cell[slot_of(k)])
        cell(k);
}
void exclude(void *p, size_t n) { excluded[n_excluded++] = {static_cast<char *>(p), static_cast<char *>(p) + n}; }
// the writable segments of the program itself (not those of shared libraries)
void find_segments() {
  n_writable = 0;
  char exe[512];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  exe[n > 0 ? n : 0] = 0;
  int fd = open("/proc/self/maps", O_RDONLY);
  static char buf[1 << 18];
  size_t len = 0;
  for (ssize_t k; (k = read(fd, buf + len, sizeof buf - 1 - len)) > 0;)
    len += size_t(k);
  buf[len] = 0;
  close(fd);
  char *last_hi = nullptr;
  for (char *l = buf; *l;) {
    char *e = strchr(l, '\n');
    if (!e)
      break;
    *e = 0;
    unsigned long lo, hi;
    char perm[8] = {0};
    int off = 0;
    if (sscanf(l, "%lx-%lx %7s %*s %*s %*s %n", &lo, &hi, perm, &off) >= 3) {
      const char *path = l + off;
      bool own = !strcmp(path, exe), bss = !*path && last_hi == reinterpret_cast<char *>(lo);
      if (perm[1] == 'w' && (own || bss) && n_writable < 256)
        writable[n_writable++] = {reinterpret_cast<char *>(lo), reinterpret_cast<char *>(hi)};
      last_hi = (own || bss) ? reinterpret_cast<char *>(hi) : nullptr;
    }
    l = e + 1;
  }
  n_excluded = 0;
  // the standard streams may be used by several threads
  exclude(&std::cout, sizeof std::cout);
  exclude(&std::cerr, sizeof std::cerr);
  exclude(&std::clog, sizeof std::clog);
  exclude(&std::cin, sizeof std::cin);
  exclude(&std::wcout, sizeof std::wcout);
  exclude(&std::wcerr, sizeof std::wcerr);
}
void report(const char *fmt, ...) {
  if (problem[0])
    return;
  va_list a;
  va_start(a, fmt);
  vsnprintf(problem, sizeof problem, fmt, a);
  va_end(a);
}
void where(char *out, size_t n, void *pc) {
  Dl_info i;
  if (pc && dladdr(pc, &i) && i.dli_sname)
    snprintf(out, n, "%s", i.dli_sname);
  else if (pc && dladdr(pc, &i))
    snprintf(out, n, "+0x%lx", (unsigned long)(static_cast<char *>(pc) - static_cast<char *>(i.dli_fbase)));
  else
    snprintf(out, n, "?");
}
thread_local void *stack_[64] __attribute__((tls_model("initial-exec")));
thread_local int depth_ __attribute__((tls_model("initial-exec"))) = 0;
std::string names(void *pc) {
  char b[256];
  std::string s;
  where(b, sizeof b, pc);
  s = b;
  for (int d = depth_ - 1, k = 0; d >= 0 && k < 6; --d, ++k)
    if (d < 64) {
      where(b, sizeof b, stack_[d]);
      s += std::string(" < ") + b;
    }
  return s;
}

void access(const volatile void *ptr, size_t n, Kind kind, void *pc) {
  if (!managed || inside_ || !n)
    return;
  const int me = self_;
  if (!me)
    return;
  char *p = const_cast<char *>(static_cast<const volatile char *>(ptr));
  bool track = false;
  if (p >= arena_base[0] && p < arena_base[0] + (ARENA + STACK) * T) {
    int owner = int(size_t(p - arena_base[0]) / (ARENA + STACK));
    if (owner != me && (owner != 0 || kind == WRITE || kind == AWRITE))
      add_watch(owner, p, n);
    else
      return track_watched(owner, p, n, kind, pc);
    track = true;
  } else
    for (int k = 0; k < n_writable && !track; ++k)
      track = p >= writable[k].lo && p < writable[k].hi;
  if (!track)
    return;
  for (int k = 0; k < n_excluded; ++k)
    if (p >= excluded[k].lo && p < excluded[k].hi)
      return;
  track_range(p, n, kind, pc);
}
void track_range(char *p, size_t n, Kind kind, void *pc) {
  const int me = self_;
  ++accesses;
  Clock &c = vc[me];
  while (n) {
    u64 a = reinterpret_cast<u64>(p);
    Cell &cell = find(cells, CELLS, a / 8 + 1);
    size_t b = a & 7, e = b + n > 8 ? 8 : b + n;
    for (size_t i = b; i < e; ++i)
      for (int t = 0; t < T; ++t) {
        if (t == me)
          continue;
        bool race = false;
        const char *other = "";
        if (cell.w[t][i] > c.v[t])
          race = true, other = "written";
        else if ((kind == WRITE || kind == AWRITE) && cell.r[t][i] > c.v[t])
          race = true, other = "read";
        else if ((kind == READ || kind == WRITE) && cell.aw[t][i] > c.v[t])
          race = true, other = "written atomically";
        else if (kind == WRITE && cell.ar[t][i] > c.v[t])
          race = true, other = "read atomically";
        if (race && !problem[0]) {
          ++inside_;
          char sym[256] = "";
          where(sym, sizeof sym, p);
          report("data race: thread %d %s memory at %s (%p) that thread %d has %s without synchronisation; in %s", me - 1, kind == READ || kind == AREAD ? "reads" : "writes", sym, static_cast<void *>(p), t - 1, other,
                 names(pc).c_str());
          --inside_;
        }
      }
    auto &mine = kind == READ ? cell.r : kind == WRITE ? cell.w : kind == AREAD ? cell.ar : cell.aw;
    for (size_t i = b; i < e; ++i)
      mine[me][i] = c.v[me];
    p += e - b;
    n -= e - b;
  }
}

// ------------------------------------------------------------------ scheduler ----
struct Thread {
  sem_t go;
  bool alive = false, blocked = false;
  const volatile void *waits = nullptr;
  bool signalled = false;
  std::string result;
};
Thread threads[T];
int running = 0, alive = 0;
sched::Plan plan;
size_t next_switch = 0;
u32 point_count = 0, entry_count = 0;
constexpr u32 MAX_POINTS = 200000;
using RawPoint = sched::Point;
RawPoint *points;
u32 entries_by_depth[33];
sem_t finished;

u32 enabled_mask() {
  u32 m = 0;
  for (int t = 1; t < T; ++t)
    if (threads[t].alive && !threads[t].blocked)
      m |= 1u << (t - 1);
  return m;
}
void hand_over(int to) { // to another thread; returns when this thread may run again
  int me = self_;
  if (to == me)
    return;
  running = to;
  sem_post(&threads[to].go);
  while (sem_wait(&threads[me].go) != 0) {
  }
}
int lowest(u32 mask) {
  for (int t = 1; t < T; ++t)
    if (mask & (1u << (t - 1)))
      return t;
  return 0;
}
[[noreturn]] void give_up() { // a deadlock: the process reports it and ends
  sem_post(&finished);
  while (true)
    pause();
}
// The running thread is about to do something that others could observe.
void point(u64 kind, const volatile void *object) {
  if (!managed || !self_ || inside_)
    return;
  ++inside_;
  u32 i = point_count++;
  if (i < MAX_POINTS)
    points[i] = {self_ - 1, enabled_mask(), kind, reinterpret_cast<u64>(object)};
  int to = self_;
  if (next_switch < plan.switches.size() && plan.switches[next_switch].at == i) {
    to = plan.switches[next_switch].to + 1;
    ++next_switch;
    if (!(enabled_mask() & (1u << (to - 1))))
      to = self_;
  }
  if (to != self_)
    hand_over(to);
  --inside_;
}
// The running thread cannot continue (it waits, or has ended).
void leave(bool wait) {
  u32 m = enabled_mask();
  if (!m) {
    if (alive == 0) {
      sem_post(&finished);
      return;
    }
    report("deadlock: every thread waits");
    give_up();
  }
  // which thread continues is a choice, too
  u32 i = point_count++;
  if (i < MAX_POINTS)
    points[i] = {self_ - 1, m, 0, 0};
  int to = lowest(m);
  if (next_switch < plan.switches.size() && plan.switches[next_switch].at == i) {
    int t = plan.switches[next_switch].to + 1;
    ++next_switch;
    if (m & (1u << (t - 1)))
      to = t;
  }
  running = to;
  sem_post(&threads[to].go);
  if (wait)
    while (sem_wait(&threads[self_].go) != 0) {
    }
}
void block_on(const volatile void *object) {
  ++inside_;
  threads[self_].blocked = true;
  threads[self_].waits = object;
  leave(true);
  --inside_;
}
void wake(const volatile void *object) {
  for (int t = 1; t < T; ++t)
    if (threads[t].blocked && threads[t].waits == object) {
      threads[t].blocked = false;
      threads[t].waits = nullptr;
    }
}
bool on() { return managed && self_ && !inside_; }
void acquire(Sync &s) { vc[self_].join(s.c); }
void release(Sync &s) {
  s.c.join(vc[self_]);
  ++vc[self_].v[self_];
}
void release_store(Sync &s) {
  s.c = vc[self_];
  ++vc[self_].v[self_];
}

const std::vector<std::function<std::string()>> *bodies_;
void *thread_main(void *a) {
  int me = int(reinterpret_cast<intptr_t>(a));
  self_ = me;
  while (sem_wait(&threads[me].go) != 0) {
  }
  try {
    threads[me].result = (*bodies_)[size_t(me - 1)]();
  } catch (const std::exception &e) {
    threads[me].result = std::string("escaped exception ") + e.what();
  } catch (...) {
    threads[me].result = "escaped exception";
  }
  ++inside_;
  threads[me].alive = false;
  --alive;
  leave(false);
  return nullptr;
}
template <class V> void put(std::string &o, const V &v) { o.append(reinterpret_cast<const char *>(&v), sizeof v); }
void put_string(std::string &o, const std::string &s) {
  put(o, u64(s.size()));
  o += s;
}
struct Parser {
  const std::string &b;
  size_t at = 0;
  bool bad = false;
  template <class V> V get() {
    V v{};
    if (at + sizeof v > b.size()) {
      bad = true;
      return v;
    }
    memcpy(&v, b.data() + at, sizeof v);
    at += sizeof v;
    return v;
  }
  std::string str() {
    u64 n = get<u64>();
    if (bad || at + n > b.size()) {
      bad = true;
      return "";
    }
    at += n;
    return b.substr(at - n, n);
  }
};
} // namespace

namespace sched {
Run run(const std::vector<std::function<std::string()>> &bodies, const Plan &p) {
  Run r;
  if (!watch)
    watch = static_cast<Watch *>(mmap(nullptr, sizeof(Watch), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (watch->count > 20000 && !watch->added)
    memset(watch, 0, sizeof *watch);
  watch->added = 0;
  int fd[2];
  if (pipe(fd))
    abort();
  size_t heap = arena_used[0];
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    alarm(60);
    struct itimerval tv = {{0, 0}, {0, 0}};
    setitimer(ITIMER_PROF, &tv, nullptr);
    cells = static_cast<Cell *>(mmap(nullptr, CELLS * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    syncs = static_cast<Sync *>(mmap(nullptr, SYNCS * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    points = static_cast<RawPoint *>(mmap(nullptr, MAX_POINTS * sizeof(RawPoint), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    find_segments();
    plan = p;
    bodies_ = &bodies;
    sem_init(&finished, 0, 0);
    pthread_t th[T];
    for (size_t k = 1; k <= bodies.size(); ++k) {
      threads[k].alive = true;
      sem_init(&threads[k].go, 0, 0);
      ++alive;
      vc[k].v[k] = 1;
      pthread_attr_t at;
      pthread_attr_init(&at);
      pthread_attr_setstack(&at, stack_base[k], STACK);
      if (pthread_create(&th[k], &at, thread_main, reinterpret_cast<void *>(intptr_t(k))))
        _exit(92);
    }
    { std::locale warm; } // the standard library's initialisation is not at stake
    managed = true;
    running = p.first + 1;
    sem_post(&threads[p.first + 1].go);
    while (sem_wait(&finished) != 0) {
    }
    managed = false;
    std::string o;
    put_string(o, problem);
    put(o, u64(accesses));
    for (size_t k = 1; k <= bodies.size(); ++k)
      put_string(o, threads[k].alive ? "(did not end)" : threads[k].result);
    for (auto e : entries_by_depth)
      put(o, e);
    u32 n = point_count < MAX_POINTS ? point_count : MAX_POINTS;
    put(o, n);
    for (u32 i = 0; i < n; ++i)
      put(o, points[i]);
    for (size_t at = 0; at < o.size();) {
      ssize_t k = ::syscall(SYS_write, fd[1], o.data() + at, o.size() - at);
      if (k <= 0)
        break;
      at += size_t(k);
    }
    _exit(0);
  }
  close(fd[1]);
  std::string b;
  static char buf[1 << 16];
  ssize_t n;
  while ((n = ::syscall(SYS_read, fd[0], buf, sizeof buf)) > 0)
    b.append(buf, size_t(n));
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  Parser g{b};
  r.problem = g.str();
  r.accesses = g.get<u64>();
  for (size_t k = 0; k < bodies.size(); ++k)
    r.results.push_back(g.str());
  for (int d = 0; d < 33; ++d)
    r.entries.push_back(g.get<u32>());
  u32 np = g.get<u32>();
  for (u32 i = 0; i < np && !g.bad; ++i) {
    RawPoint q = g.get<RawPoint>();
    r.points.push_back(q);
  }
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || g.bad) {
    if (r.problem.empty() || g.bad)
      r.problem = "the process ended with status " + std::to_string(st);
  }
  if (watch->added && r.problem.empty())
    return run(bodies, p);
  r.ok = r.problem.empty();
  (void)heap;
  return r;
}
} // namespace sched

template <class F> static F next(const char *name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
// ---------------------------------------------------- callbacks of the compiler ----
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *pc) {
  int d = depth_++;
  if (d < 64)
    stack_[d] = PC;
  (void)pc;
  if (on() && self_ == plan.first + 1) {
    ++entries_by_depth[d < 32 ? d : 32];
    if (plan.entry && d <= plan.depth && ++entry_count == plan.entry) {
      ++inside_;
      u32 m = enabled_mask() & ~(1u << (self_ - 1));
      if (m)
        hand_over(lowest(m));
      --inside_;
    }
  }
}
void __tsan_func_exit() {
  if (depth_ > 0)
    --depth_;
}
#define RW(n)                                                                                  \
  void __tsan_read##n(void *p) { access(p, n, READ, PC); }                                     \
  void __tsan_write##n(void *p) { access(p, n, WRITE, PC); }                                   \
  void __tsan_unaligned_read##n(void *p) { access(p, n, READ, PC); }                           \
  void __tsan_unaligned_write##n(void *p) { access(p, n, WRITE, PC); }                         \
  void __tsan_volatile_read##n(void *p) { access(p, n, READ, PC); }                            \
  void __tsan_volatile_write##n(void *p) { access(p, n, WRITE, PC); }                          \
  void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, READ, PC); }                  \
  void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, WRITE, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, READ, PC); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, WRITE, PC); }
void __tsan_vptr_update(void **p, void *v) {
  if (*p != v)
    access(p, sizeof *p, WRITE, PC);
}
void __tsan_vptr_read(void **p) { access(p, sizeof *p, READ, PC); }

// memory functions, called by instrumented code
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
void *__real_memchr(const void *, int, size_t);
size_t __real_strlen(const char *);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  access(s, n, READ, PC);
  access(d, n, WRITE, PC);
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  access(s, n, READ, PC);
  access(d, n, WRITE, PC);
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  access(d, n, WRITE, PC);
  return __real_memset(d, c, n);
}
int __wrap_memcmp(const void *a, const void *b, size_t n) {
  access(a, n, READ, PC);
  access(b, n, READ, PC);
  return __real_memcmp(a, b, n);
}
void *__wrap_memchr(const void *a, int c, size_t n) {
  void *p = __real_memchr(a, c, n);
  access(a, p ? size_t(static_cast<char *>(p) - static_cast<const char *>(a)) + 1 : n, READ, PC);
  return p;
}
static void reads(const char *s, void *pc) { access(s, __real_strlen(s) + 1, READ, pc); }
static void writes(const char *s, void *pc) { access(s, __real_strlen(s) + 1, WRITE, pc); }
char *__real_strcpy(char *, const char *);
char *__real_stpcpy(char *, const char *);
char *__real_strncpy(char *, const char *, size_t);
char *__real_strcat(char *, const char *);
char *__real_strncat(char *, const char *, size_t);
int __real_strcmp(const char *, const char *);
int __real_strncmp(const char *, const char *, size_t);
char *__real_strchr(const char *, int);
char *__real_strrchr(const char *, int);
char *__real_strstr(const char *, const char *);
long __real_strtol(const char *, char **, int);
unsigned long __real_strtoul(const char *, char **, int);
long long __real_strtoll(const char *, char **, int);
unsigned long long __real_strtoull(const char *, char **, int);
double __real_strtod(const char *, char **);
int __real_atoi(const char *);
long __real_atol(const char *);
char *__real_strtok_r(char *, const char *, char **);
int __real_vsnprintf(char *, size_t, const char *, va_list);
int __real_vsprintf(char *, const char *, va_list);
char *__wrap_strcpy(char *d, const char *s) {
  reads(s, PC);
  char *r = __real_strcpy(d, s);
  writes(d, PC);
  return r;
}
char *__wrap_stpcpy(char *d, const char *s) {
  reads(s, PC);
  char *r = __real_stpcpy(d, s);
  writes(d, PC);
  return r;
}
char *__wrap_strncpy(char *d, const char *s, size_t n) {
  access(s, strnlen(s, n), READ, PC);
  access(d, n, WRITE, PC);
  return __real_strncpy(d, s, n);
}
char *__wrap_strcat(char *d, const char *s) {
  reads(s, PC);
  char *r = __real_strcat(d, s);
  writes(d, PC);
  return r;
}
char *__wrap_strncat(char *d, const char *s, size_t n) {
  access(s, strnlen(s, n), READ, PC);
  char *r = __real_strncat(d, s, n);
  writes(d, PC);
  return r;
}
int __wrap_strcmp(const char *a, const char *b) {
  size_t n = 0;
  while (a[n] && a[n] == b[n])
    ++n;
  access(a, n + 1, READ, PC);
  access(b, n + 1, READ, PC);
  return __real_strcmp(a, b);
}
int __wrap_strncmp(const char *a, const char *b, size_t m) {
  size_t n = 0;
  while (n < m && a[n] && a[n] == b[n])
    ++n;
  access(a, n < m ? n + 1 : m, READ, PC);
  access(b, n < m ? n + 1 : m, READ, PC);
  return __real_strncmp(a, b, m);
}
#define SEARCH(r, name, params, args)   \
  r __real_##name params;               \
  r __wrap_##name params {              \
    reads(s, PC);                       \
    return __real_##name args;          \
  }
SEARCH(char *, strchr, (const char *s, int c), (s, c))
SEARCH(char *, strrchr, (const char *s, int c), (s, c))
SEARCH(char *, strstr, (const char *s, const char *t), (s, t))
SEARCH(long, strtol, (const char *s, char **e, int b), (s, e, b))
SEARCH(unsigned long, strtoul, (const char *s, char **e, int b), (s, e, b))
SEARCH(long long, strtoll, (const char *s, char **e, int b), (s, e, b))
SEARCH(unsigned long long, strtoull, (const char *s, char **e, int b), (s, e, b))
SEARCH(double, strtod, (const char *s, char **e), (s, e))
SEARCH(int, atoi, (const char *s), (s))
SEARCH(long, atol, (const char *s), (s))
char *__wrap_strtok_r(char *s, const char *d, char **save) {
  char *r = __real_strtok_r(s, d, save);
  access(save, sizeof *save, WRITE, PC);
  if (r)
    writes(r, PC);
  return r;
}
static int printed(char *d, size_t n, int r, void *pc) {
  if (n && r >= 0)
    access(d, size_t(r) < n ? size_t(r) + 1 : n, WRITE, pc);
  return r;
}
int __wrap_vsnprintf(char *d, size_t n, const char *f, va_list a) { return printed(d, n, __real_vsnprintf(d, n, f, a), PC); }
int __wrap_vsprintf(char *d, const char *f, va_list a) { return printed(d, ~size_t(0), __real_vsprintf(d, f, a), PC); }
int __wrap_snprintf(char *d, size_t n, const char *f, ...) {
  va_list a;
  va_start(a, f);
  int r = __real_vsnprintf(d, n, f, a);
  va_end(a);
  return printed(d, n, r, PC);
}
int __wrap_sprintf(char *d, const char *f, ...) {
  va_list a;
  va_start(a, f);
  int r = __real_vsprintf(d, f, a);
  va_end(a);
  return printed(d, ~size_t(0), r, PC);
}
size_t __wrap_strlen(const char *s) {
  size_t n = __real_strlen(s);
  access(s, n + 1, READ, PC);
  return n;
}

// atomics: mo 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
#define ATOMICS(bits, t)                                                                                     \
  t __tsan_atomic##bits##_load(const volatile t *a, int mo) {                                               \
    if (on()) {                                                                                              \
      point(1, a);                                                                                           \
      access(a, sizeof(t), AREAD, PC);                                                                       \
      if (mo == 1 || mo == 2 || mo >= 4)                                                                     \
        acquire(sync_of(a));                                                                                 \
    }                                                                                                        \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                             \
  }                                                                                                          \
  void __tsan_atomic##bits##_store(volatile t *a, t v, int mo) {                                            \
    if (on()) {                                                                                              \
      point(2, a);                                                                                           \
      access(a, sizeof(t), AWRITE, PC);                                                                      \
      if (mo >= 3)                                                                                           \
        release_store(sync_of(a));                                                                           \
    }                                                                                                        \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                \
  }                                                                                                          \
  static void rmw_##bits(const volatile void *a, int mo, void *pc) {                                         \
    if (on()) {                                                                                              \
      point(3, a);                                                                                           \
      access(a, sizeof(t), AWRITE, pc);                                                                      \
      if (mo == 1 || mo == 2 || mo >= 4)                                                                     \
        acquire(sync_of(a));                                                                                 \
      if (mo >= 3)                                                                                           \
        release(sync_of(a));                                                                                 \
    }                                                                                                        \
  }                                                                                                          \
  t __tsan_atomic##bits##_exchange(volatile t *a, t v, int mo) {                                            \
    rmw_##bits(a, mo, PC);                                                                                   \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                      \
  }                                                                                                          \
  t __tsan_atomic##bits##_fetch_add(volatile t *a, t v, int mo) {                                           \
    rmw_##bits(a, mo, PC);                                                                                   \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                       \
  }                                                                                                          \
  t __tsan_atomic##bits##_fetch_sub(volatile t *a, t v, int mo) {                                           \
    rmw_##bits(a, mo, PC);                                                                                   \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                       \
  }                                                                                                          \
  t __tsan_atomic##bits##_fetch_and(volatile t *a, t v, int mo) {                                           \
    rmw_##bits(a, mo, PC);                                                                                   \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                       \
  }                                                                                                          \
  t __tsan_atomic##bits##_fetch_or(volatile t *a, t v, int mo) {                                            \
    rmw_##bits(a, mo, PC);                                                                                   \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                        \
  }                                                                                                          \
  t __tsan_atomic##bits##_fetch_xor(volatile t *a, t v, int mo) {                                           \
    rmw_##bits(a, mo, PC);                                                                                   \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                       \
  }                                                                                                          \
  t __tsan_atomic##bits##_fetch_nand(volatile t *a, t v, int mo) {                                          \
    rmw_##bits(a, mo, PC);                                                                                   \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                                      \
  }                                                                                                          \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile t *a, t *c, t v, int mo, int) {                \
    rmw_##bits(a, mo, PC);                                                                                   \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                  \
  }                                                                                                          \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile t *a, t *c, t v, int mo, int) {                  \
    rmw_##bits(a, mo, PC);                                                                                   \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                  \
  }                                                                                                          \
  t __tsan_atomic##bits##_compare_exchange_val(volatile t *a, t c, t v, int mo, int) {                      \
    rmw_##bits(a, mo, PC);                                                                                   \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    return c;                                                                                                \
  }
ATOMICS(8, u8) ATOMICS(16, std::uint16_t) ATOMICS(32, u32) ATOMICS(64, u64)
static char fence_object;
void __tsan_atomic_thread_fence(int) {
  if (on()) {
    point(4, &fence_object);
    Sync &s = sync_of(&fence_object);
    acquire(s);
    release(s);
  }
}
void __tsan_atomic_signal_fence(int) {}

// guards of function-local static variables
int __cxa_guard_acquire(u64 *g) {
  volatile u8 *done = reinterpret_cast<volatile u8 *>(g);
  if (!on()) {
    if (*done)
      return 0;
    return 1;
  }
  point(*done ? 9 : 5, g);
  Sync &s = sync_of(g);
  while (true) {
    if (*done) {
      acquire(s);
      return 0;
    }
    if (s.count == 0) {
      s.count = 1;
      acquire(s);
      return 1;
    }
    block_on(g);
  }
}
void __cxa_guard_release(u64 *g) {
  if (on()) {
    Sync &s = sync_of(g);
    release(s);
    s.count = 0;
    wake(g);
  }
  *reinterpret_cast<volatile u8 *>(g) = 1;
}
void __cxa_guard_abort(u64 *g) {
  if (on()) {
    Sync &s = sync_of(g);
    release(s);
    s.count = 0;
    wake(g);
  }
}

// mutexes and relatives.  Outside the scheduled threads there is only one thread.
static int lock(void *m, bool recursive, bool try_only) {
  if (!on())
    return 0;
  point(6, m);
  Sync &s = sync_of(m);
  while (s.count > 0 && s.owner != self_) {
    if (try_only)
      return EBUSY;
    block_on(m);
  }
  if (s.count > 0 && !recursive) {
    if (try_only)
      return EBUSY;
    while (s.count > 0)
      block_on(m); // locks itself out
  }
  s.owner = self_;
  ++s.count;
  acquire(s);
  return 0;
}
static int unlock(void *m) {
  if (!on())
    return 0;
  Sync &s = sync_of(m);
  release(s);
  if (--s.count == 0)
    wake(m);
  point(7, m);
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) { return lock(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP, false); }
int pthread_mutex_trylock(pthread_mutex_t *m) { return lock(m, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP, true); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { return unlock(m); }
int pthread_spin_lock(pthread_spinlock_t *m) { return lock(const_cast<int *>(m), false, false); }
int pthread_spin_trylock(pthread_spinlock_t *m) { return lock(const_cast<int *>(m), false, true); }
int pthread_spin_unlock(pthread_spinlock_t *m) { return unlock(const_cast<int *>(m)); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  if (!on())
    return 0;
  point(8, m);
  Sync &s = sync_of(m);
  auto busy = [&] {
    for (int t = 0; t < T; ++t)
      if (s.readers[t])
        return true;
    return s.count > 0;
  };
  while (busy())
    block_on(m);
  s.count = 1;
  s.owner = self_;
  acquire(s);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (!on())
    return 0;
  point(9, m);
  Sync &s = sync_of(m);
  while (s.count > 0)
    block_on(m);
  ++s.readers[self_];
  acquire(s);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
  if (!on())
    return 0;
  Sync &s = sync_of(m);
  release(s);
  if (s.count > 0 && s.owner == self_)
    s.count = 0;
  else
    --s.readers[self_];
  wake(m);
  point(10, m);
  return 0;
}
int pthread_once(pthread_once_t *o, void (*f)(void)) {
  volatile int *state = reinterpret_cast<volatile int *>(o);
  if (!on()) {
    if (*state != 2) {
      f();
      *state = 2;
    }
    return 0;
  }
  point(*state == 2 ? 9 : 11, o);
  Sync &s = sync_of(o);
  while (s.count > 0)
    block_on(o);
  if (*state != 2) {
    s.count = 1;
    struct Undo {
      Sync &s;
      pthread_once_t *o;
      ~Undo() {
        release(s);
        s.count = 0;
        wake(o);
      }
    } undo{s, o};
    acquire(s);
    f();
    *state = 2;
  } else
    acquire(s);
  return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!on())
    return 0;
  Sync &s = sync_of(m);
  release(s);
  s.count = 0;
  wake(m);
  block_on(c);
  return pthread_mutex_lock(m);
}
int pthread_cond_signal(pthread_cond_t *c) {
  if (on()) {
    point(12, c);
    wake(c); // spurious wake-ups are allowed
  }
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) { return pthread_cond_signal(c); }

// ------------------------------------------------- state shared through the system ----
static void shared_state(const void *what, const char *name, bool write) {
  if (!on())
    return;
  point(20, what);
  access(what, 1, write ? WRITE : READ, nullptr);
  if (problem[0] && !strstr(problem, "(shared state")) {
    char b[64];
    snprintf(b, sizeof b, " (shared state behind %s)", name);
    strncat(problem, b, sizeof problem - strlen(problem) - 1);
  }
}
static char state_strtok, state_time, state_tmpnam;
char *strtok(char *s, const char *d) {
  static auto f = next<char *(*)(char *, const char *)>("strtok");
  shared_state(&state_strtok, "strtok", true);
  return f(s, d);
}
struct tm *localtime(const time_t *t) {
  static auto f = next<struct tm *(*)(const time_t *)>("localtime");
  shared_state(&state_time, "localtime", true);
  return f(t);
}
struct tm *gmtime(const time_t *t) {
  static auto f = next<struct tm *(*)(const time_t *)>("gmtime");
  shared_state(&state_time, "gmtime", true);
  return f(t);
}
char *ctime(const time_t *t) {
  static auto f = next<char *(*)(const time_t *)>("ctime");
  shared_state(&state_time, "ctime", true);
  return f(t);
}
char *asctime(const struct tm *t) {
  static auto f = next<char *(*)(const struct tm *)>("asctime");
  shared_state(&state_time, "asctime", true);
  return f(t);
}
char *tmpnam(char *s) {
  static auto f = next<char *(*)(char *)>("tmpnam");
  if (!s)
    shared_state(&state_tmpnam, "tmpnam", true);
  return f(s);
}
// points only: the results decide
char *setlocale(int c, const char *l) {
  static auto f = next<char *(*)(int, const char *)>("setlocale");
  if (l)
    point(21, nullptr);
  return f(c, l);
}
// std::locale::global: the C++ library's, with points before and after it
void *_ZNSt6locale6globalERKS_(void *result, const void *l) {
  static auto f = next<void *(*)(void *, const void *)>("_ZNSt6locale6globalERKS_");
  point(26, nullptr);
  void *r = f(result, l);
  point(26, nullptr);
  return r;
}
int chdir(const char *p) {
  point(22, nullptr);
  return int(syscall(SYS_chdir, p));
}
mode_t umask(mode_t m) {
  point(23, nullptr);
  return mode_t(syscall(SYS_umask, m));
}
int rand() {
  static auto f = next<int (*)()>("rand");
  point(24, nullptr);
  return f();
}
void srand(unsigned s) {
  static auto f = next<void (*)(unsigned)>("srand");
  point(25, nullptr);
  f(s);
}
int open(const char *p, int flags, ...) {
  va_list a;
  va_start(a, flags);
  mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0;
  va_end(a);
  point(30, nullptr);
  return int(syscall(SYS_openat, AT_FDCWD, p, flags, m));
}
int open64(const char *p, int flags, ...) {
  va_list a;
  va_start(a, flags);
  mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0;
  va_end(a);
  point(30, nullptr);
  return int(syscall(SYS_openat, AT_FDCWD, p, flags, m));
}
FILE *fopen(const char *p, const char *m) {
  static auto f = next<FILE *(*)(const char *, const char *)>("fopen");
  point(31, nullptr);
  return f(p, m);
}
FILE *fopen64(const char *p, const char *m) {
  static auto f = next<FILE *(*)(const char *, const char *)>("fopen64");
  point(31, nullptr);
  return f(p, m);
}
int fclose(FILE *x) {
  static auto f = next<int (*)(FILE *)>("fclose");
  point(32, nullptr);
  return f(x);
}
ssize_t read(int fd, void *b, size_t n) {
  point(33, nullptr);
  access(b, n, WRITE, PC);
  return ssize_t(syscall(SYS_read, fd, b, n));
}
ssize_t write(int fd, const void *b, size_t n) {
  point(34, nullptr);
  access(b, n, READ, PC);
  return ssize_t(syscall(SYS_write, fd, b, n));
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  point(34, nullptr);
  return ssize_t(syscall(SYS_writev, fd, v, n));
}
int close(int fd) {
  point(35, nullptr);
  return int(syscall(SYS_close, fd));
}
int unlink(const char *p) {
  point(36, nullptr);
  return int(syscall(SYS_unlink, p));
}
int remove(const char *p) {
  point(36, nullptr);
  return int(syscall(SYS_unlink, p));
}
int rename(const char *a, const char *b) {
  point(37, nullptr);
  return int(syscall(SYS_rename, a, b));
}
}
