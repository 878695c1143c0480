#include "mc.hpp"
#include <cxxabi.h>
#include <fcntl.h>
#include <iostream>
#include <new>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <typeinfo>
#include <unistd.h>

namespace mc {
size_t alloc_cap = size_t(256) << 20;
size_t alloc_peak = 0;

namespace {
struct Shared { // survives a crash of the worker (mapped file)
  volatile std::int64_t index;
  char desc[1000];
};
Shared *shared = nullptr;
std::int64_t index_ = -1;
std::int64_t only_ = -1, upto_ = -1;
int shard_ = 0, shards_ = 1;
bool thorough_ = false, verbose_ = false;
std::string scratch_, out_, current_;
std::vector<std::string> known_;
std::map<std::string, std::string> options_;
std::map<std::string, std::uint64_t> counters_;
std::unordered_set<std::uint64_t> outcomes_, states_;
std::uint64_t transitions_ = 0, traces_ = 0, nontrivial_ = 0, executed_ = 0, digest_ = 0, oseq_ = 0;
std::vector<std::string> samples_;
struct Viol {
  std::int64_t index;
  std::string desc, msg;
  bool known;
};
std::vector<Viol> violations_;
int unknown_ = 0;
int cpu_limit_ = 30;
std::int64_t tick_index_ = -2;
int ticks_ = 0;

std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c < 32 || c >= 127) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += char(c);
  }
  return o + "\"";
}

void on_tick(int) {
  if (!shared)
    return;
  if (shared->index != tick_index_) {
    tick_index_ = shared->index;
    ticks_ = 0;
    return;
  }
  if (index_ >= 0 && ++ticks_ >= cpu_limit_) {
    const char m[] = "MC-HANG: member exceeded its CPU-time limit\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(11);
  }
}

void write_out() {
  std::string s = "{";
  s += "\"total\":" + std::to_string(index_ + 1);
  s += ",\"executed\":" + std::to_string(executed_);
  s += ",\"transitions\":" + std::to_string(transitions_);
  s += ",\"traces\":" + std::to_string(traces_);
  s += ",\"nontrivial\":" + std::to_string(nontrivial_);
  s += ",\"digest\":\"" + std::to_string(digest_) + "\"";
  s += ",\"stopped\":" + std::string(stopping() ? "true" : "false");
  s += ",\"counters\":{";
  bool f = true;
  for (auto &c : counters_) {
    s += (f ? "" : ",") + jstr(c.first) + ":" + std::to_string(c.second);
    f = false;
  }
  s += "},\"samples\":[";
  f = true;
  for (auto &c : samples_) {
    s += (f ? "" : ",") + jstr(c);
    f = false;
  }
  s += "],\"violations\":[";
  f = true;
  for (auto &v : violations_) {
    s += std::string(f ? "" : ",") + "{\"index\":" + std::to_string(v.index) + ",\"known\":" + (v.known ? "true" : "false") +
         ",\"desc\":" + jstr(v.desc) + ",\"msg\":" + jstr(v.msg) + "}";
    f = false;
  }
  s += "]}\n";
  if (out_.empty())
    fprintf(stderr, "%s", s.c_str());
  else {
    write_all(out_, s);
    auto dump = [](const std::string &p, const std::unordered_set<std::uint64_t> &v) {
      std::string b;
      for (auto h : v)
        b.append(reinterpret_cast<const char *>(&h), 8);
      write_all(p, b);
    };
    dump(out_ + ".outcomes", outcomes_);
    dump(out_ + ".states", states_);
  }
}
} // namespace

void fail(const std::string &msg) { throw Failure{msg}; }
bool thorough() { return thorough_; }
std::string scratch() { return scratch_; }
int shard() { return shard_; }
int shards() { return shards_; }
std::string option(const std::string &n) {
  auto i = options_.find(n);
  return i == options_.end() ? "" : i->second;
}
bool stopping() { return unknown_ >= 3; }
void cpu_limit(int s) { cpu_limit_ = s; }
std::string current() { return current_; }

bool begin() {
  ++index_;
  if (only_ >= 0)
    return index_ == only_;
  if (stopping() || (upto_ >= 0 && index_ > upto_))
    return false;
  return index_ % shards_ == shard_;
}

bool solo(int owner) { return only_ >= 0 || owner % shards_ == shard_; }

void run(const std::function<std::string()> &desc, const std::function<void()> &body) {
  ++executed_;
  bool describe = shared != nullptr || verbose_;
  if (describe || samples_.size() < 2) {
    current_ = desc();
  } else
    current_.clear();
  if (shared) {
    snprintf(shared->desc, sizeof shared->desc, "%s", current_.c_str());
    shared->index = index_;
  }
  if (verbose_)
    fprintf(stderr, "member %lld: %s\n", (long long)index_, current_.c_str());
  if (samples_.size() < 2)
    samples_.push_back(current_);
  else if (samples_.size() < 8 && (executed_ & (executed_ - 1)) == 0 && executed_ > 64)
    samples_.push_back(current_);
  auto violation = [&](const std::string &msg) {
    std::string d = desc();
    bool known = false;
    for (auto &k : known_)
      known = known || k == d;
    if (!known)
      ++unknown_;
    violations_.push_back({index_, d, msg, known});
    if (verbose_)
      fprintf(stderr, "  VIOLATION: %s\n", msg.c_str());
  };
  oseq_ = 0;
  try {
    body();
    if (verbose_)
      fprintf(stderr, "  held\n");
  } catch (const Failure &f) {
    violation(f.msg);
  } catch (const std::exception &e) {
    int st;
    char *n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    violation(std::string("unexpected exception ") + (n ? n : "?") + ": " + e.what());
    free(n);
  } catch (...) {
    violation("unexpected exception of a non-standard type");
  }
  if (shared)
    shared->index = -1;
}

std::uint64_t hash(const void *p, size_t n, std::uint64_t h) {
  auto b = static_cast<const unsigned char *>(p);
  while (n >= 8) {
    std::uint64_t w;
    memcpy(&w, b, 8);
    h = (h ^ w) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
    b += 8;
    n -= 8;
  }
  for (size_t i = 0; i < n; ++i)
    h = (h ^ b[i]) * 1099511628211ull;
  h ^= h >> 32;
  return h;
}

void outcome(std::uint64_t h) {
  std::uint64_t k[3] = {std::uint64_t(index_), ++oseq_, h};
  digest_ += hash(k, sizeof k);
  if (outcomes_.size() < 2000000)
    outcomes_.insert(h);
}
void state(std::uint64_t h) {
  if (states_.size() < 4000000)
    states_.insert(h);
}
void transitions(std::uint64_t n) { transitions_ += n; }
void traces(std::uint64_t n) { traces_ += n; }
void nontrivial(std::uint64_t n) { nontrivial_ += n; }
void count(const std::string &name, std::uint64_t n) { counters_[name] += n; }
void sample(const std::string &s) {
  if (samples_.size() < 12)
    samples_.push_back(s);
}
std::uint64_t digest() { return digest_; }

Result attempt(const std::function<void()> &f) {
  Result r;
  try {
    f();
  } catch (const Failure &) {
    throw;
  } catch (const std::exception &e) {
    r.threw = true;
    r.what = e.what();
    r.type = typeid(e).name();
  }
  return r;
}

std::string hex(const std::string &s, size_t max) {
  static const char *d = "0123456789abcdef";
  std::string o;
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    o += d[(unsigned char)s[i] >> 4];
    o += d[s[i] & 15];
  }
  return s.size() > max ? o + "...(" + std::to_string(s.size()) + " bytes)" : o;
}
std::string quote(const std::string &s, size_t max) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    unsigned char c = s[i];
    char b[8];
    if (c < 32 || c >= 127 || c == '"' || c == '\\') {
      snprintf(b, sizeof b, "\\x%02x", c);
      o += b;
    } else
      o += char(c);
  }
  o += "\"";
  return s.size() > max ? o + "...(" + std::to_string(s.size()) + " bytes)" : o;
}

std::string read_all(const std::string &path) {
  int fd = ::open(path.c_str(), O_RDONLY);
  if (fd < 0)
    throw std::runtime_error("harness cannot open " + path);
  std::string s;
  char b[65536];
  ssize_t n;
  while ((n = ::read(fd, b, sizeof b)) > 0)
    s.append(b, size_t(n));
  ::close(fd);
  return s;
}
void write_all(const std::string &path, const std::string &bytes) {
  int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0)
    throw std::runtime_error("harness cannot write " + path);
  size_t done = 0;
  while (done < bytes.size()) {
    ssize_t n = ::write(fd, bytes.data() + done, bytes.size() - done);
    if (n <= 0)
      throw std::runtime_error("harness cannot write " + path);
    done += size_t(n);
  }
  ::close(fd);
}
bool exists(const std::string &path) { return ::access(path.c_str(), F_OK) == 0; }

} // namespace mc

int main(int argc, char **argv) {
  using namespace mc;
  std::string state_file;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(++i < argc ? argv[i] : ""); };
    if (a == "--shard") {
      sscanf(next().c_str(), "%d/%d", &shard_, &shards_);
    } else if (a == "--only")
      only_ = atoll(next().c_str());
    else if (a == "--upto")
      upto_ = atoll(next().c_str());
    else if (a == "--tier")
      thorough_ = next() == "thorough";
    else if (a == "--out")
      out_ = next();
    else if (a == "--state")
      state_file = next();
    else if (a == "--scratch")
      scratch_ = next();
    else if (a == "--known")
      known_.push_back(next());
    else if (a == "--verbose")
      verbose_ = true;
    else if (a == "--cpu-limit")
      cpu_limit_ = atoi(next().c_str());
    else if (a == "-D") {
      std::string d = next();
      auto e = d.find('=');
      options_[d.substr(0, e)] = e == std::string::npos ? "1" : d.substr(e + 1);
    }
  }
  if (!state_file.empty()) {
    int fd = open(state_file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, sizeof(Shared)) == 0) {
      void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) {
        shared = static_cast<Shared *>(p);
        shared->index = -1;
      }
      close(fd);
    }
  }
  // the library reports some errors on standard output
  int null = open("/dev/null", O_WRONLY);
  if (null >= 0) {
    dup2(null, 1);
    close(null);
  }
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_tick;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr);
  struct itimerval tv = {{1, 0}, {1, 0}};
  setitimer(ITIMER_PROF, &tv, nullptr);
  try {
    explore();
  } catch (const std::exception &e) {
    fprintf(stderr, "MC-ERROR: harness failed outside a member: %s\n", e.what());
    return 12;
  } catch (const Failure &f) {
    fprintf(stderr, "MC-ERROR: harness failed outside a member: %s\n", f.msg.c_str());
    return 12;
  }
  write_out();
  return unknown_ ? 10 : 0;
}
