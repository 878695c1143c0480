// C16: a save that returns normally has written the complete file.
#include "common/iofault.hpp"
#include "common/any.hpp"
#include "common/tensors.hpp"
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

namespace {
using Method = npy::compression_method_t;
std::string path() { return mc::scratch() + "/out.bin"; }

// A way of producing a file: false / an exception message for every call that threw
struct Run {
  bool threw = false;       // the caller was told
  bool any = false;         // any call threw
  std::string what;
};
struct Subject {
  std::string what;
  std::string expected; // the complete file
  std::function<Run(const std::string &)> go;
};
void rec(Run &r, const std::function<void()> &f) {
  r.threw = false;
  try {
    f();
  } catch (const std::exception &e) {
    r.threw = r.any = true;
    r.what = e.what();
  }
}
template <class T> npy::tensor<T> ten(const std::vector<size_t> &s, bool fo, size_t base) {
  npy::tensor<T> t(s, fo);
  ref::fill_distinct(t, base);
  return t;
}
template <class T> void add(std::vector<Subject> &v, const std::vector<size_t> &s, bool fo, npy::endian_t e) {
  auto t = std::make_shared<npy::tensor<T>>(ten<T>(s, fo, 1));
  std::string bytes = ref::save_bytes(*t, e);
  std::string w = mc::str(ref::Type<T>::code, " ", mc::list(s), fo ? " column-major " : " ", ref::ename(e), " (", bytes.size(), " bytes)");
  v.push_back({"npy::save(path) of " + w, bytes, [=](const std::string &p) {
                 Run r;
                 rec(r, [&] { npy::save(p, *t, e); });
                 return r;
               }});
  v.push_back({"tensor::save(path) of " + w, bytes, [=](const std::string &p) {
                 Run r;
                 rec(r, [&] { t->save(p, e); });
                 return r;
               }});
}
void add_archive(std::vector<Subject> &v, int kind, Method m) {
  // the entries
  auto put = [=](auto &w, Run *r) {
    auto one = [&](const std::string &n, auto t) {
      if (r)
        rec(*r, [&] { w.write(n, t); });
      else
        w.write(n, t);
    };
    if (kind >= 1)
      one("a", ten<std::int32_t>({2, 3}, false, 0));
    if (kind >= 2)
      one("strings", ten<std::wstring>({4}, true, 2));
    if (kind >= 3)
      one("long", ten<double>({3000}, false, 2));
    if (kind >= 3)
      one("b", ten<std::int8_t>({1}, false, 2));
    if (kind >= 4)
      one("longer", ten<std::int16_t>({16000}, false, 9));
  };
  npy::npzstringwriter s(m);
  put(s, nullptr);
  s.close();
  std::string bytes = s.str();
  v.push_back({mc::str("archive ", kind, m == Method::STORED ? ", stored" : ", deflated", " (", bytes.size(), " bytes)"), bytes, [=](const std::string &p) {
                 Run r;
                 std::unique_ptr<npy::npzfilewriter> w;
                 rec(r, [&] { w = std::make_unique<npy::npzfilewriter>(p, m); });
                 if (!w) {
                   r.threw = true;
                   return r;
                 }
                 put(*w, &r);
                 rec(r, [&] { w->close(); });
                 w.reset();
                 r.threw = r.any; // the caller was told, by write() or by close()
                 return r;
               }});
}
std::vector<Subject> subjects(bool th) {
  std::vector<Subject> v;
  add<std::int32_t>(v, {2, 3}, false, ref::LE);
  add<std::uint8_t>(v, {0}, false, ref::LE);
  add<double>(v, {}, false, ref::BE);
  add<double>(v, {3000}, false, ref::LE);
  add<double>(v, {3000}, true, ref::BE);
  add<std::wstring>(v, {700}, false, ref::LE);
  add<std::complex<float>>(v, {9, 100}, true, ref::BE);
  add<npy::boolean>(v, {8063}, false, ref::LE);
  for (size_t n : {size_t(8062), size_t(8063), size_t(8064), size_t(8065), size_t(8191), size_t(8192)})
    add<std::int8_t>(v, {n}, false, ref::LE);
  for (int kind = 0; kind <= (th ? 4 : 3); ++kind)
    for (auto m : {Method::STORED, Method::DEFLATED})
      add_archive(v, kind, m);
  return v;
}
// nothing may be there before, or an old file, shorter or longer
void prepare(int before, const Subject &s) {
  ::unlink(path().c_str());
  if (before == 1)
    mc::write_all(path(), "old");
  if (before == 2)
    mc::write_all(path(), s.expected + std::string(5000, 'o'));
}
void judge(const Subject &s, const Run &r, bool must_throw, const std::string &why) {
  if (!r.threw) {
    if (must_throw)
      mc::fail("returned normally although " + why);
    std::string got = mc::exists(path()) ? mc::read_all(path()) : "(no file)";
    if (got != s.expected) {
      size_t i = 0;
      while (i < got.size() && i < s.expected.size() && got[i] == s.expected[i])
        ++i;
      mc::fail(mc::str("returned normally, but the file holds ", got.size(), " bytes instead of ", s.expected.size(), " (they differ at ", i, "); ", why));
    }
  }
}
struct Limit {
  struct rlimit old;
  explicit Limit(size_t n) {
    getrlimit(RLIMIT_FSIZE, &old);
    struct rlimit l = {n, old.rlim_max};
    setrlimit(RLIMIT_FSIZE, &l);
  }
  ~Limit() { setrlimit(RLIMIT_FSIZE, &old); }
};
} // namespace

void explore() {
  const bool th = mc::thorough();
  signal(SIGXFSZ, SIG_IGN);
  for (auto &s : subjects(th)) {
    // 1. injected faults
    prepare(0, s);
    iof::arm({});
    Run clean = s.go(path());
    auto profile = iof::disarm();
    mc::one([&] { return s.what + ": no fault"; }, [&] {
      prepare(0, s);
      Run r = s.go(path());
      if (r.any)
        mc::fail("fails without a fault: " + r.what);
      judge(s, r, false, "no fault");
      mc::outcome(s.what);
    });
    (void)clean;
    mc::count("calls intercepted", mc::shard() == 0 ? profile.calls.size() : 0);
    bool pairs = profile.calls.size() <= (th ? 60u : 24u);
    for (auto &plan : iof::plans(profile.calls, pairs))
      for (int before : {0, 2}) {
        if (before && plan.size() > 1)
          continue;
        mc::one([&] { return s.what + ": " + iof::text(plan, profile.calls) + (before ? ", over an old file" : ""); },
                [&] {
                  prepare(before, s);
                  iof::arm(plan);
                  Run r = s.go(path());
                  auto rep = iof::disarm();
                  if (!rep.failed && r.any)
                    mc::fail(mc::str("fails although every call succeeded", rep.transparent ? " (some partly or after an interruption): " : ": ", r.what));
                  judge(s, r, rep.close_failed > 0, mc::str(rep.failed, " calls failed, ", rep.transparent, " were short or interrupted"));
                  if (rep.failed)
                    mc::nontrivial();
                  mc::count(r.threw ? "reported" : "completed");
                  mc::outcome(mc::hash(s.what) + rep.calls.size() * 2 + r.threw);
                });
      }
    // 2. every file size limit
    size_t n = s.expected.size();
    for (size_t limit = 0; limit <= n + 1; ++limit) {
      // far from the ends and the stream buffer's boundaries only every 37th in the quick tier
      if (!th && limit > 700 && limit + 700 < n && limit % 8191 > 40 && limit % 8191 < 8150 && limit % 8192 > 40 && limit % 37)
        continue;
      mc::one([&] { return mc::str(s.what, ": file size limited to ", limit, " bytes"); },
              [&] {
                prepare(0, s);
                Run r;
                {
                  Limit l(limit);
                  r = s.go(path());
                }
                if (limit >= n && r.any)
                  mc::fail("fails although the file fits: " + r.what);
                judge(s, r, limit < n, mc::str("only ", limit, " of ", n, " bytes fit"));
                if (limit < n)
                  mc::nontrivial();
                mc::outcome(mc::hash(s.what) + 1000 + (limit < n));
              });
    }
    // 3. places that cannot be written
    ::mkdir((mc::scratch() + "/dir").c_str(), 0755);
    for (std::string bad : {std::string("/dev/full"), mc::scratch() + "/missing/file", mc::scratch() + "/dir", std::string(), mc::scratch() + "/" + std::string(300, 'n'), path() + "/x"})
      mc::one([&] { return s.what + ": to " + (bad.size() > 100 ? "a name that is too long" : bad.compare(0, mc::scratch().size(), mc::scratch()) == 0 ? bad.substr(mc::scratch().size()) : bad); },
              [&] {
                if (bad == "/dev/full") {
                  struct stat st;
                  if (::stat("/dev/full", &st) != 0 || !S_ISCHR(st.st_mode))
                    return;
                }
                prepare(1, s);
                Run r = s.go(bad);
                if (!r.threw)
                  mc::fail("returned normally although nothing can be written there");
                mc::nontrivial();
                mc::outcome(mc::hash(s.what) + 2000);
              });
  }
}
