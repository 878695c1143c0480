// C10: any sequence of archive writes yields a valid ZIP of exactly those arrays.
// Every sequence of operations up to a depth on both real writers, in lockstep
// with a model (list of accepted entries, closed or not).
#include "common/tensors.hpp"
#include "common/zipref.hpp"

namespace {
// A user-defined tensor whose save() fails after writing some bytes.
struct Failing {
  size_t after;
  bool in_dtype = false;
  size_t ndim() const { return 1; }
  size_t shape(int) const { return 9; }
  bool fortran_order() const { return false; }
  std::string dtype(npy::endian_t) const {
    if (in_dtype)
      throw std::logic_error("dtype");
    return "|i1";
  }
  void save(std::basic_ostream<char> &o, npy::endian_t) const {
    for (size_t i = 0; i < after; ++i)
      o.put('x');
    throw std::logic_error("save");
  }
};
// One whose save() throws something that is not a std::exception.
struct Odd : Failing {
  void save(std::basic_ostream<char> &o, npy::endian_t) const {
    o.write("abc", 3);
    throw 42;
  }
};

struct Item {
  std::string name; // as given
  std::function<std::string(npy::endian_t)> bytes;
  std::function<void(npy::npzstringwriter &, const std::string &)> to_string;
  std::function<void(npy::npzfilewriter &, const std::string &)> to_file;
};
template <class T> Item item(const std::string &name, const std::vector<size_t> &s, bool fo, size_t start) {
  auto t = std::make_shared<npy::tensor<T>>(s, fo);
  ref::fill(*t, start);
  std::vector<T> v(t->data(), t->data() + t->size());
  return {name,
          // the expected file is the one the reference decodes to this tensor
          [=](npy::endian_t e) {
            std::string b = ref::save_bytes(*t, e);
            std::string w = ref::judge_file(b, v, s, fo, e);
            if (!w.empty())
              mc::fail("saving the tensor by itself: " + w);
            return b;
          },
          [=](npy::npzstringwriter &w, const std::string &n) { w.write(n, static_cast<const npy::tensor<T> &>(*t)); },
          [=](npy::npzfilewriter &w, const std::string &n) { w.write(n, static_cast<const npy::tensor<T> &>(*t)); }};
}
std::string ensured(const std::string &n) { return n.size() >= 4 && n.compare(n.size() - 4, 4, ".npy") == 0 ? n : n + ".npy"; }

struct Model {
  bool closed = false;
  std::vector<std::pair<std::string, std::string>> entries;
};
std::string judge(const std::string &zip, const Model &m, npy::compression_method_t method) {
  auto a = zref::parse(zip);
  if (!a.ok)
    return "not a valid archive: " + a.why;
  if (a.entries.size() != m.entries.size())
    return mc::str("has ", a.entries.size(), " entries, expected ", m.entries.size());
  for (size_t i = 0; i < m.entries.size(); ++i) {
    auto &e = a.entries[i];
    if (e.name != m.entries[i].first)
      return mc::str("entry ", i, " is named ", mc::quote(e.name), ", expected ", mc::quote(m.entries[i].first));
    if (e.bytes != m.entries[i].second)
      return mc::str("entry ", i, " (", mc::quote(e.name), ") does not hold the array written");
    if (e.method != int(method))
      return mc::str("entry ", i, " has the wrong compression method");
    if (i && e.local_at < a.entries[i - 1].local_at)
      return "entries are not in the order they were written";
  }
  // and the library itself opens it
  npy::npzstringreader r(zip);
  std::vector<std::string> keys;
  for (auto &e : m.entries)
    keys.push_back(e.first);
  std::sort(keys.begin(), keys.end());
  if (r.keys() != keys)
    return "the library's reader lists other keys";
  return "";
}

struct Config {
  npy::compression_method_t method;
  npy::endian_t endian;
  int path_kind;   // string, C string, filesystem path
  bool preexisting; // the file exists and is longer
};
struct Pair { // both writers in lockstep
  std::unique_ptr<npy::npzstringwriter> s;
  std::unique_ptr<npy::npzfilewriter> f;
  std::string path;
  Pair(const Config &c) {
    path = mc::scratch() + "/w.npz";
    if (c.preexisting)
      mc::write_all(path, std::string(5000, 'Z'));
    else
      ::remove(path.c_str());
    s = std::make_unique<npy::npzstringwriter>(c.method, c.endian);
    if (c.path_kind == 0)
      f = std::make_unique<npy::npzfilewriter>(path, c.method, c.endian);
    else if (c.path_kind == 1)
      f = std::make_unique<npy::npzfilewriter>(path.c_str(), c.method, c.endian);
    else
      f = std::make_unique<npy::npzfilewriter>(std::filesystem::path(path), c.method, c.endian);
    if (!f->is_open())
      mc::fail("the file is not open");
  }
};
using Op = std::pair<std::string, std::function<void(Pair &, Model &, const Config &)>>;

bool throws(const std::function<void()> &f) {
  try {
    f();
  } catch (const mc::Failure &) {
    throw;
  } catch (...) {
    return true;
  }
  return false;
}
void expect(bool threw, bool want, const std::string &what) {
  if (threw != want)
    mc::fail(what + (want ? " does not throw" : " throws"));
}
const bool supported(npy::compression_method_t m) { return m == npy::compression_method_t::STORED || m == npy::compression_method_t::DEFLATED; }

std::vector<Op> operations(bool all) {
  std::vector<Op> ops;
  auto accept = [&](Item it) {
    ops.push_back({"write " + mc::quote(it.name, 20), [=](Pair &p, Model &m, const Config &c) {
                     const bool bad = m.closed || !supported(c.method);
                     expect(throws([&] { it.to_string(*p.s, it.name); }), bad, "write to the string writer");
                     expect(throws([&] { it.to_file(*p.f, it.name); }), bad, "write to the file writer");
                     if (!bad)
                       m.entries.push_back({ensured(it.name), it.bytes(c.endian)});
                   }});
  };
  auto reject = [&](const std::string &what, const auto &tensor, const std::string &name) {
    ops.push_back({"rejected write: " + what, [=](Pair &p, Model &, const Config &) {
                     expect(throws([&] { p.s->write(name, tensor); }), true, what + " (string writer)");
                     expect(throws([&] { p.f->write(name, tensor); }), true, what + " (file writer)");
                   }});
  };
  accept(item<std::int32_t>("a", {2, 3}, false, 0));
  accept(item<double>("b.npy", {}, true, 1));
  accept(item<std::wstring>("", {2}, false, 3));
  reject("save fails half-way", Failing{3}, "a");
  reject("name too long", npy::tensor<std::int8_t>({1}), std::string(65532, 'n'));
  ops.push_back({"close", [](Pair &p, Model &m, const Config &) {
                   p.s->close();
                   p.f->close();
                   m.closed = true;
                   if (p.f->is_open())
                     mc::fail("the file is still open after close");
                 }});
  ops.push_back({"look", [](Pair &p, Model &m, const Config &) {
                   const npy::npzstringwriter &s = *p.s;
                   std::string a = s.str(), b = s.str();
                   if (a != b)
                     mc::fail("str() changes what it returns");
                   if (p.f->is_open() == m.closed)
                     mc::fail("is_open() is wrong");
                   // entries so far are there, in full
                   size_t at = 0;
                   for (auto &e : m.entries)
                     if ((at = a.find(e.first, at)) == std::string::npos)
                       mc::fail("an accepted entry is missing from the string");
                 }});
  if (all) {
    accept(item<npy::boolean>("a", {0}, false, 0)); // the same name again
    accept(item<std::complex<float>>(".npy", {1, 2}, true, 2));
    accept(item<std::uint16_t>("dir/x.npy.npy", {300}, false, 2));
    reject("dtype fails", Failing{0, true}, "c");
    Odd odd{};
    reject("save throws an int", odd, "d");
  }
  return ops;
}

// Runs one history, ends it by destruction, judges the result.
std::string history(const std::vector<const Op *> &seq, const Config &c) {
  Model m;
  Pair p(c);
  std::string before_end;
  for (auto *o : seq) {
    o->second(p, m, c);
    mc::transitions();
  }
  bool was_closed = m.closed;
  std::string in_memory;
  if (was_closed)
    in_memory = p.s->str();
  p.f.reset(); // closes the file
  if (!was_closed) {
    p.s->close();
    in_memory = p.s->str();
  }
  p.s.reset();
  std::string on_disk = mc::read_all(p.path);
  mc::traces();
  if (in_memory != on_disk)
    return mc::str("the in-memory archive (", in_memory.size(), " bytes) and the file (", on_disk.size(), " bytes) differ");
  std::string w = judge(on_disk, m, c.method);
  std::string k = mc::str(int(c.method), int(c.endian), was_closed);
  for (auto &e : m.entries)
    k += "|" + e.first;
  mc::state(k);
  mc::outcome(on_disk);
  return w;
}
std::string text(const std::vector<const Op *> &seq) {
  std::string s;
  for (auto *o : seq)
    s += o->first + "; ";
  return s;
}
std::string cname(const Config &c) {
  return mc::str(c.method == npy::compression_method_t::STORED ? "stored" : c.method == npy::compression_method_t::DEFLATED ? "deflated" : "method " + std::to_string(int(c.method)), " ",
                 ref::ename(c.endian), c.path_kind == 0 ? " string" : c.path_kind == 1 ? " C string" : " path", c.preexisting ? " over an older file" : "", ": ");
}
void sequences(const std::vector<Op> &ops, size_t depth, const Config &c) {
  // every sequence of length 0..depth; one member per sequence
  std::vector<const Op *> seq;
  std::function<void()> go = [&] {
    mc::one([&] { return cname(c) + text(seq); },
            [&] {
              std::string w = history(seq, c);
              if (!w.empty())
                mc::fail(w);
            });
    if (seq.size() == depth)
      return;
    for (auto &o : ops) {
      seq.push_back(&o);
      go();
      seq.pop_back();
    }
  };
  go();
}
void single(const std::string &name, const Config &c) {
  auto it = item<std::uint8_t>(name, {3}, false, 1);
  Op o = {"write", [&](Pair &p, Model &m, const Config &c) {
            bool bad = ensured(it.name).size() > 65535;
            expect(throws([&] { it.to_string(*p.s, it.name); }), bad, "write to the string writer");
            expect(throws([&] { it.to_file(*p.f, it.name); }), bad, "write to the file writer");
            if (!bad)
              m.entries.push_back({ensured(it.name), it.bytes(c.endian)});
          }};
  mc::one([&] { return cname(c) + "name of " + std::to_string(name.size()) + " bytes: " + mc::quote(name, 30); },
          [&] {
            std::string w = history({&o, &o}, c);
            if (!w.empty())
              mc::fail(w);
          });
}
} // namespace

void explore() {
  const bool th = mc::thorough();
  using M = npy::compression_method_t;
  const auto some = operations(false), all = operations(true);
  sequences(some, th ? 7 : 6, {M::STORED, ref::NE, 0, false});
  sequences(all, th ? 5 : 4, {M::STORED, ref::BE, 1, true});
  sequences(all, th ? 4 : 3, {M::DEFLATED, ref::LE, 2, false});
  sequences(some, th ? 5 : 4, {M::DEFLATED, ref::BE, 0, true});
  sequences(all, 2, {M(12), ref::NE, 0, false});
  sequences(all, 2, {M(1), ref::NE, 0, false});
  sequences(all, 1, {M(0xFFFF), ref::NE, 0, false});
  // every pair of item type/shape in one archive
  std::vector<Item> items;
  ref::each_type([&](auto tag) {
    using T = typename decltype(tag)::type;
    items.push_back(item<T>(std::string(ref::Type<T>::name), {3}, false, 1));
    items.push_back(item<T>(std::string(ref::Type<T>::name) + "2d", {2, 2}, true, 2));
    items.push_back(item<T>(std::string(ref::Type<T>::name) + "big", {70, 30}, true, 2));
  });
  for (auto m : {M::STORED, M::DEFLATED})
    for (size_t i = 0; i < items.size(); ++i)
      for (size_t j = 0; j < items.size(); ++j) {
        if (m == M::DEFLATED && !th && (i + j) % 7)
          continue;
        Config c{m, (i ^ j) & 1 ? ref::BE : ref::LE, int((i + j) % 3), (i & 2) != 0};
        mc::one([&] { return cname(c) + items[i].name + ", " + items[j].name; },
                [&] {
                  std::vector<Op> o;
                  for (auto k : {i, j})
                    o.push_back({items[k].name, [&, k](Pair &p, Model &mm, const Config &c) {
                                   items[k].to_string(*p.s, items[k].name);
                                   items[k].to_file(*p.f, items[k].name);
                                   mm.entries.push_back({ensured(items[k].name), items[k].bytes(c.endian)});
                                 }});
                  std::string w = history({&o[0], &o[1]}, c);
                  if (!w.empty())
                    mc::fail(w);
                });
      }
  // names
  Config plain{M::STORED, ref::NE, 0, false};
  for (size_t n = 0; n <= 300; ++n) {
    single(std::string(n, 'q'), plain);
    if (n >= 4)
      single(std::string(n - 4, 'q') + ".npy", plain);
  }
  for (size_t n : {511, 512, 513, 4095, 4096, 32767, 32768, 65530, 65531, 65532, 65534, 65535, 65536, 65537, 70000, 131072, 200000}) {
    single(std::string(n, 'q'), plain);
    single(std::string(n - 4, 'q') + ".npy", plain);
  }
  for (int c = 0; c < 256; ++c) {
    single(std::string(1, char(c)), plain);
    single(std::string("x") + char(c) + ".npy", plain);
    single(std::string(".np") + char(c), plain);
    single(std::string("z") + char(c) + "npy", plain);
  }
  for (const char *n : {"npy", ".npy", "npy.", "a.npY", "a.NPY", ".npy.", "a.npyx", "a.npz", "..npy", "/abs", "../up", "a/b/c", "a\\b", " ", "a.npy ", "PK\5\6", "PK\1\2", "y.npy.npy", "n.py", "anpy"})
    single(n, plain);
  // number of entries
  for (size_t n = 0; n <= (th ? 700 : 300); n += (n < 20 || th) ? 1 : 7)
    mc::one([&] { return mc::str(n, " entries"); },
            [&] {
              std::vector<Op> o;
              auto it = item<std::int16_t>("", {2}, false, 1);
              for (size_t i = 0; i < n; ++i)
                o.push_back({"", [&, i](Pair &p, Model &m, const Config &c) {
                               std::string name = mc::str("entry", i);
                               it.to_string(*p.s, name);
                               it.to_file(*p.f, name);
                               m.entries.push_back({name + ".npy", it.bytes(c.endian)});
                             }});
              std::vector<const Op *> seq;
              for (auto &x : o)
                seq.push_back(&x);
              std::string w = history(seq, plain);
              if (!w.empty())
                mc::fail(w);
            });
  // two writers of each kind at work alternately
  for (int order = 0; order < 16; ++order)
    mc::one([&] { return mc::str("two archives written alternately, pattern ", order); },
            [&] {
              auto x = item<std::int32_t>("x", {4}, false, 0), y = item<float>("y", {2, 2}, true, 5);
              Model m[2];
              npy::npzstringwriter s[2] = {npy::npzstringwriter(M::STORED, ref::LE), npy::npzstringwriter(M::DEFLATED, ref::BE)};
              {
                npy::npzfilewriter f0(mc::scratch() + "/f0.npz", M::STORED, ref::LE), f1(mc::scratch() + "/f1.npz", M::DEFLATED, ref::BE);
                for (int k = 0; k < 4; ++k) {
                  int w = order >> k & 1;
                  auto &it = k & 1 ? x : y;
                  it.to_string(s[w], it.name);
                  it.to_file(w ? f1 : f0, it.name);
                  m[w].entries.push_back({ensured(it.name), it.bytes(w ? ref::BE : ref::LE)});
                }
              }
              for (int w = 0; w < 2; ++w) {
                s[w].close();
                std::string why = judge(s[w].str(), m[w], w ? M::DEFLATED : M::STORED);
                if (!why.empty())
                  mc::fail(mc::str("archive ", w, ": ", why));
                if (mc::read_all(mc::scratch() + (w ? "/f1.npz" : "/f0.npz")) != s[w].str())
                  mc::fail("file and string differ");
              }
            });
}
