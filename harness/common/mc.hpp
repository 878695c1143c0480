// Bounded exhaustive explorer: case enumeration, sharding, replay, statistics.
//
// A harness defines   void explore();   and, inside it, enumerates its space
// with ordinary loops, wrapping each member in
//     mc::one([&]{ return description; }, [&]{ ...; mc::fail("...") });
// Every member has an index (its position in the enumeration).  Worker k of n
// executes the members whose index is k mod n; `--only i` executes exactly one
// (that is how a violation is replayed); `--upto i` executes a worker's members
// up to i (used when a failure depends on earlier members).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Failure {
  std::string msg;
};

[[noreturn]] void fail(const std::string &msg);

// --- tier -----------------------------------------------------------------
bool thorough();
std::string scratch(); // private directory of this worker, removed at the end
int shard();
int shards();
// the value of a "-D name=value" option given to the worker ("" if absent)
std::string option(const std::string &name);

// --- members ----------------------------------------------------------------
bool begin(); // advance the index; should this worker execute the member?
void run(const std::function<std::string()> &desc,
         const std::function<void()> &body);
template <class D, class B> inline void one(D &&desc, B &&body) {
  if (begin())
    run(desc, body);
}
// counts a member that is enumerated elsewhere (inside an explorer which has
// its own state space) without any sharding
bool solo(int owner); // true on the worker that owns this part
bool stopping();      // enough violations were found
void cpu_limit(int seconds); // per member CPU-time limit

// --- statistics ---------------------------------------------------------------
std::uint64_t hash(const void *p, size_t n, std::uint64_t seed = 1469598103934665603ull);
inline std::uint64_t hash(const std::string &s) { return hash(s.data(), s.size()); }
void outcome(std::uint64_t h); // an observed outcome (distinct ones are counted)
inline void outcome(const std::string &s) { outcome(hash(s)); }
void state(std::uint64_t h); // a model/implementation state visited
inline void state(const std::string &s) { state(hash(s)); }
void transitions(std::uint64_t n = 1);
void traces(std::uint64_t n = 1);
void count(const std::string &name, std::uint64_t n = 1);
void nontrivial(std::uint64_t n = 1);
void sample(const std::string &s);
std::uint64_t digest(); // of all (index, outcome) pairs so far
std::string current();  // description of the current member

// --- outcome of a call ----------------------------------------------------------
struct Result {
  bool threw = false;
  std::string what; // message of the exception
  std::string type;
};
Result attempt(const std::function<void()> &f);

// text helpers
std::string hex(const std::string &s, size_t max = 64);
std::string quote(const std::string &s, size_t max = 80);
template <class A> inline void cat_(std::ostringstream &o, const A &a) { o << a; }
template <class... A> inline std::string str(const A &...a) {
  std::ostringstream o;
  o.imbue(std::locale::classic());
  (cat_(o, a), ...);
  return o.str();
}
template <class V> inline std::string list(const V &v) {
  std::string s = "(";
  bool first = true;
  for (auto &e : v) {
    s += (first ? "" : ",") + str(e);
    first = false;
  }
  return s + ")";
}

// Largest single allocation that the harness grants; larger requests throw
// std::bad_alloc, as they would on a machine without that much memory.
extern size_t alloc_cap;
extern size_t alloc_peak; // largest request seen since it was last reset

std::string read_all(const std::string &path);
void write_all(const std::string &path, const std::string &bytes);
bool exists(const std::string &path);
} // namespace mc

void explore(); // defined by the harness
