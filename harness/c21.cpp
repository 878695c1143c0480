// C21: an archive left behind by a crash while writing is never misread.
#include "common/iofault.hpp"
#include "common/any.hpp"
#include "common/tensors.hpp"
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
using Method = npy::compression_method_t;
template <class T> npy::tensor<T> ten(const std::vector<size_t> &s, bool fo, size_t base) {
  npy::tensor<T> t(s, fo);
  ref::fill_distinct(t, base);
  return t;
}
template <class T> npy::tensor<T> same(const std::vector<size_t> &s, T v) {
  npy::tensor<T> t(s);
  std::fill(t.begin(), t.end(), v);
  return t;
}
struct History {
  std::string what;
  Method method;
  std::function<void(const std::function<void(const std::string &, const std::function<void(npy::npzfilewriter *)> &, const std::string &)> &)> entries;
  bool close = true; // false: left to the destructor
  bool over = false; // over an old archive
};
// one entry: how to write it, and its NPY file
using Put = std::function<void(const std::string &, const std::function<void(npy::npzfilewriter *)> &, const std::string &)>;
template <class T> void put(const Put &p, const std::string &name, const npy::tensor<T> &t) {
  p(name + ".npy", [&](npy::npzfilewriter *w) { w->write(name, t); }, ref::save_bytes<T>(t, ref::NE));
}
std::vector<History> histories(bool th) {
  std::vector<History> v;
  for (auto m : {Method::STORED, Method::DEFLATED}) {
    v.push_back({"empty", m, [](const Put &) {}});
    v.push_back({"one small entry", m, [](const Put &p) { put(p, "a", ten<std::int32_t>({2, 3}, false, 0)); }});
    v.push_back({"zeros", m, [](const Put &p) {
                   put(p, "z", same<std::uint8_t>({1000}, 0));
                   put(p, "y", same<double>({40}, 0.0));
                 }});
    v.push_back({"three entries", m, [](const Put &p) {
                   put(p, "a", ten<std::int32_t>({2, 3}, false, 0));
                   put(p, "b", ten<std::wstring>({3}, true, 1));
                   put(p, "c", ten<npy::boolean>({5}, false, 0));
                 }});
    v.push_back({"alike entries", m, [](const Put &p) { // exchanging them must not go unnoticed
                   put(p, "k1", ten<std::int16_t>({200}, false, 0));
                   put(p, "k2", ten<std::int16_t>({200}, false, 1));
                   put(p, "k3", ten<std::int16_t>({200}, false, 2));
                 }});
    v.push_back({"entries beyond the stream buffer", m, [](const Put &p) {
                   put(p, "a", ten<std::int32_t>({2, 3}, false, 0));
                   put(p, "long", ten<double>({1100}, false, 3));
                   put(p, "b", ten<std::int8_t>({100}, false, 0));
                 }});
    v.push_back({"many entries", m, [](const Put &p) {
                   for (int i = 0; i < 12; ++i)
                     put(p, mc::str("e", i), ten<std::uint16_t>({size_t(i)}, false, size_t(i)));
                 }});
    v.push_back({"an archive as an entry", m, [](const Put &p) {
                   npy::npzstringwriter w;
                   auto t = ten<std::int32_t>({2, 3}, false, 5);
                   w.write("a", t);
                   w.close();
                   std::string z = w.str();
                   npy::tensor<std::uint8_t> n({z.size()});
                   std::copy(z.begin(), z.end(), n.begin());
                   put(p, "a", n);
                   put(p, "b", n);
                 }});
  }
  if (th)
    for (auto m : {Method::STORED, Method::DEFLATED}) {
      v.push_back({"longer entries", m, [](const Put &p) {
                     put(p, "a", ten<double>({3000}, false, 0));
                     put(p, "b", ten<double>({3000}, true, 1));
                     put(p, "c", ten<std::wstring>({500}, true, 1));
                   }});
      for (size_t n = 1; n < 8; ++n)
        v.push_back({mc::str(n, " entries"), m, [n](const Put &p) {
                       for (size_t i = 0; i < n; ++i)
                         put(p, std::string(i + 1, 'n'), ten<float>({i, 3}, i & 1, i));
                     }});
    }
  size_t k = v.size();
  for (size_t i = 0; i < k; ++i)
    if (i % 8 == 1 || i % 8 == 3 || th) {
      v.push_back(v[i]);
      v.back().what += ", left to the destructor";
      v.back().close = false;
      v.push_back(v[i]);
      v.back().what += ", over an old archive";
      v.back().over = true;
    }
  return v;
}
std::string path() { return mc::scratch() + "/out.npz"; }
using Wants = std::vector<std::pair<std::string, any::Want>>;
void before(const History &h) {
  ::unlink(path().c_str());
  if (h.over) { // the same names with other contents, and more
    npy::npzfilewriter w(path());
    for (auto n : {"a", "b", "c", "d"}) {
      auto t = ten<std::int32_t>({2, 3}, false, 77);
      w.write(n, t);
    }
    w.close();
  }
}
Wants go(const History &h) {
  Wants w;
  auto writer = std::make_unique<npy::npzfilewriter>(path(), h.method);
  h.entries([&](const std::string &name, const std::function<void(npy::npzfilewriter *)> &f, const std::string &npy) {
    w.push_back({name, any::want(npy)});
    f(writer.get());
  });
  if (h.close)
    writer->close();
  writer.reset();
  return w;
}
// Reads whatever can be read.  opened = it opens as an archive.
template <class R> void examine(R &r, const Wants &wants) {
  std::set<std::string> names(r.keys().begin(), r.keys().end());
  for (auto &w : wants)
    names.insert(w.first);
  for (auto &n : names) {
    const any::Want *w = nullptr;
    for (auto &x : wants)
      if (x.first == n)
        w = &x.second;
    if (w) {
      std::string res = any::judge(r, n, *w);
      if (!res.empty() && res != "threw")
        mc::fail("entry " + mc::quote(n, 30) + " is misread: " + res);
      mc::count(res.empty() ? "entries read" : "entries refused");
    } else {
      bool ok = true;
      try {
        r.peek(n);
      } catch (const std::exception &) {
        ok = false;
      }
      if (ok)
        mc::fail("there is an entry " + mc::quote(n, 30) + " that was never written");
    }
  }
}
bool leftover(const std::string &file, const Wants &wants, bool disk) {
  bool opened = false;
  try {
    npy::npzstringreader r(file);
    opened = true;
    examine(r, wants);
  } catch (const std::exception &) {
  }
  if (disk) {
    bool o = false;
    mc::write_all(mc::scratch() + "/left.npz", file);
    try {
      npy::npzfilereader r(mc::scratch() + "/left.npz");
      o = true;
      examine(r, wants);
    } catch (const std::exception &) {
    }
    if (o != opened)
      mc::fail("the file reader and the string reader disagree whether it is an archive");
  }
  mc::count(opened ? "leftovers that open" : "leftovers refused");
  return opened;
}
std::string blank(const std::string &s, size_t block, const std::vector<size_t> &lost) {
  std::string r = s;
  for (size_t b : lost)
    for (size_t i = b * block; i < std::min(r.size(), (b + 1) * block); ++i)
      r[i] = 0;
  return r;
}
// the subsets of n blocks: all if there are few, otherwise those losing or keeping at most k, and all ranges
void subsets(size_t n, size_t all, int k, const std::function<void(const std::vector<size_t> &)> &f) {
  std::vector<size_t> v;
  if (n <= all) {
    for (size_t m = 1; m < (size_t(1) << n); ++m) {
      v.clear();
      for (size_t i = 0; i < n; ++i)
        if (m >> i & 1)
          v.push_back(i);
      f(v);
    }
    return;
  }
  std::function<void(size_t, int)> rec = [&](size_t from, int left) {
    if (!v.empty()) {
      f(v);
      std::vector<size_t> c;
      for (size_t i = 0; i < n; ++i)
        if (std::find(v.begin(), v.end(), i) == v.end())
          c.push_back(i);
      f(c);
    }
    if (left)
      for (size_t i = from; i < n; ++i) {
        v.push_back(i);
        rec(i + 1, left - 1);
        v.pop_back();
      }
  };
  rec(0, k);
  for (size_t a = 0; a < n; ++a)
    for (size_t b = a + size_t(k) + 1; b <= n; ++b) {
      v.clear();
      for (size_t i = a; i < b; ++i)
        v.push_back(i);
      f(v);
    }
}
} // namespace

void explore() {
  const bool th = mc::thorough();
  for (auto &h : histories(th)) {
    const std::string what = h.what + (h.method == Method::STORED ? ", stored" : ", deflated");
    // the writes, as they happen
    before(h);
    iof::record();
    Wants wants = go(h);
    auto rep = iof::disarm();
    const std::string final = mc::read_all(path());
    mc::one([&] { return what + ": complete"; }, [&] {
      if (!leftover(final, wants, true))
        mc::fail("the complete file does not open");
      any::archive(final, wants, true);
      mc::outcome(what);
    });
    // 1. the process dies at a write: real processes
    for (long k = 0; k < long(rep.log.size()); ++k) {
      size_t n = rep.log[size_t(k)].bytes.size();
      for (size_t cut : std::set<size_t>{0, 1, 2, n / 2, n - 1, n})
        mc::one([&] { return mc::str(what, ": the process dies after ", cut, " of ", n, " bytes of write ", k + 1, " of ", rep.log.size()); },
                [&] {
                  before(h);
                  std::string old = h.over ? mc::read_all(path()) : "";
                  pid_t p = fork();
                  if (p == 0) {
                    iof::die_at(k, cut);
                    try {
                      go(h);
                    } catch (...) {
                    }
                    _exit(78);
                  }
                  int st = 0;
                  waitpid(p, &st, 0);
                  if (!WIFEXITED(st) || WEXITSTATUS(st) != 77)
                    mc::fail(mc::str("harness: the writing process ended differently, status ", st));
                  if (!mc::exists(path()))
                    return;
                  std::string left = mc::read_all(path());
                  if (h.over && left == old)
                    return; // the old archive is still there, nothing of it was overwritten
                  bool opened = leftover(left, wants, true);
                  if (opened && left != final)
                    mc::fail("the incomplete file opens as an archive");
                  mc::traces();
                  mc::nontrivial();
                  mc::outcome(mc::hash(left) + opened);
                });
    }
    // the file that the recorded writes give; if it is not the file, they are of another kind and cannot be used
    std::string f;
    std::vector<std::string> stages; // after each write
    for (auto &w : rep.log) {
      if (f.size() < size_t(w.at) + w.bytes.size())
        f.resize(size_t(w.at) + w.bytes.size());
      f.replace(size_t(w.at), w.bytes.size(), w.bytes);
      stages.push_back(f);
    }
    mc::count(f == final ? "histories replayed from their writes" : "histories whose writes were not seen", mc::shard() == 0);
    mc::count("writes", mc::shard() == 0 ? rep.log.size() : 0);
    if (f != final)
      continue;
    // 2. torn anywhere
    std::string prev;
    for (size_t k = 0; k < stages.size(); ++k) {
      const auto &w = rep.log[k];
      for (size_t cut = 0; cut <= w.bytes.size(); ++cut) {
        if (!th && cut > 2000 && cut + 2000 < w.bytes.size() && cut % 97)
          continue;
        mc::one([&] { return mc::str(what, ": write ", k + 1, " ends after ", cut, " bytes"); },
                [&] {
                  std::string s = prev;
                  if (s.size() < size_t(w.at) + cut)
                    s.resize(size_t(w.at) + cut);
                  s.replace(size_t(w.at), cut, w.bytes.substr(0, cut));
                  bool opened = leftover(s, wants, cut % 16 == 0);
                  if (opened && s != final)
                    mc::fail("the incomplete file opens as an archive");
                  mc::outcome(mc::hash(s.substr(0, 50)) + opened);
                  mc::nontrivial();
                });
      }
      prev = stages[k];
    }
    // 3. blocks are missing, at any stage, and the length may be that of any block
    for (size_t k = 0; k < stages.size(); ++k)
      for (size_t block : {size_t(32), size_t(64), size_t(512), size_t(4096)}) {
        const std::string &s = stages[k];
        if (block < 512 && s.size() > 40 * block)
          continue;
        if (k + 1 < stages.size() && block < 512 && !th)
          continue;
        size_t n = (s.size() + block - 1) / block;
        for (size_t keep = n; keep > 0; --keep) {
          if (keep < n && block == 32 && !th)
            break;
          std::string t = s.substr(0, std::min(s.size(), keep * block));
          subsets(keep, th ? 16 : (block == 32 ? 12 : 10), th ? 3 : 2, [&](const std::vector<size_t> &lost) {
            mc::one([&] { return mc::str(what, ": after write ", k + 1, ", ", keep, " of ", n, " blocks of ", block, ", of which ", mc::list(lost), " are blank"); },
                    [&] {
                      std::string x = blank(t, block, lost);
                      bool opened = leftover(x, wants, lost.size() == 1);
                      if (opened && x.size() != final.size())
                        mc::fail("the incomplete file opens as an archive");
                      mc::outcome(mc::hash(x.substr(0, 40)) + opened);
                      mc::nontrivial();
                    });
          });
        }
      }
  }
}
