// C22: equivalent entry points give equivalent results.
#include "common/any.hpp"
#include "common/tensors.hpp"
#include <filesystem>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

#ifdef MC_CORE
void explore() {
  mc::one([] { return std::string("reduced program"); },
          [] {
            npy::tensor<int> t({1});
            std::ostringstream o;
            npy::save(o, t);
          });
}
#else
namespace {
namespace fs = std::filesystem;
using Method = npy::compression_method_t;
using Routes = std::vector<std::pair<std::string, std::function<std::string()>>>;

// The result of a route as text: "!" if it throws.
std::string outcome(const std::function<std::string()> &f) {
  try {
    return f();
  } catch (const std::exception &) {
    return "!";
  }
}
std::string brief(const std::string &s) { return s == "!" ? std::string("throws") : mc::str(s.size(), " bytes ", mc::hex(s, 24)); }
void agree(const Routes &r, const char *what) {
  std::string first;
  for (size_t i = 0; i < r.size(); ++i) {
    std::string o = outcome(r[i].second);
    if (!i)
      first = o;
    else if (o != first) {
      size_t k = 0;
      while (k < o.size() && k < first.size() && o[k] == first[k])
        ++k;
      mc::fail(mc::str(what, ": ", r[i].first, " differs from ", r[0].first, " at byte ", k, ": ", brief(o), " instead of ", brief(first)));
    }
    mc::count(o == "!" ? "calls that threw" : "calls that returned");
  }
  mc::outcome(mc::hash(first));
}
template <class T> std::string text(const npy::tensor<T> &t) {
  std::string s = mc::str(mc::list(t.shape()), t.fortran_order(), int(t.dtype()), " ", t.size(), ":");
  for (size_t i = 0; i < t.size(); ++i)
    for (auto p : ref::parts(t.data()[i]))
      s += mc::str(p, ",");
  return s;
}
std::string text(const npy::header_info &i) { return mc::str(mc::list(i.shape), i.fortran_order, int(i.dtype), " ", int(i.endianness), " ", i.max_element_length); }

// --- writing one array -------------------------------------------------------
std::string P(int i = 0) {
  static const char *names[] = {"/a.npy", "/b c.npy", "/\xc3\xa4\xe6\x97\xa5.npy", "/x", "/%s%n.npy", "/sub/./d.npy", "/sub/../e.npy", "/'q\"\\.npy", "/.npy"};
  return mc::scratch() + names[i % 9];
}
std::string file(const std::string &p, const std::function<void()> &f) {
  ::unlink(p.c_str());
  f();
  return mc::read_all(p);
}
template <class T> void writing(const npy::tensor<T> &ct, npy::endian_t e, int name) {
  npy::tensor<T> t = ct; // mutable
  const std::string p = P(name);
  Routes r;
  auto stream = [](const std::function<void(std::ostream &)> &f) {
    std::ostringstream o;
    f(o);
    return o.str();
  };
  auto add = [&](const std::string &n, std::function<std::string()> f) { r.push_back({n, std::move(f)}); };
  auto path = [&](const std::string &n, std::function<void()> f) { add(n, [&p, f] { return file(p, f); }); };
  add("save(stream, tensor)", [&] { return stream([&](std::ostream &o) { npy::save(o, t, e); }); });
  add("save(stream, const tensor)", [&] { return stream([&](std::ostream &o) { npy::save(o, ct, e); }); });
  add("save<tensor<T>>(stream, tensor)", [&] { return stream([&](std::ostream &o) { npy::save<npy::tensor<T>>(o, t, e); }); });
  add("save<tensor<T>, char>(stream, tensor)", [&] { return stream([&](std::ostream &o) { npy::save<npy::tensor<T>, char>(o, ct, e); }); });
  add("save<T, tensor>(stream, tensor)", [&] { return stream([&](std::ostream &o) { npy::save<T, npy::tensor>(o, t, e); }); });
  add("save<T, tensor, char>(stream, tensor)", [&] { return stream([&](std::ostream &o) { npy::save<T, npy::tensor, char>(o, ct, e); }); });
  add("header + tensor.save(stream)", [&] { return stream([&](std::ostream &o) {
                                              npy::write_npy_header(o, ct.dtype(e), ct.fortran_order(), ct.shape());
                                              ct.save(o, e);
                                            }); });
  add("header + write_values", [&] { return stream([&](std::ostream &o) {
                                       npy::write_npy_header<char>(o, t.dtype(e), t.fortran_order(), t.shape());
                                       npy::write_values(o, ct.data(), ct.size(), e);
                                     }); });
  add("header + write_values<T, char>", [&] { return stream([&](std::ostream &o) {
                                                npy::write_npy_header(o, t.dtype(e), t.fortran_order(), t.shape());
                                                npy::write_values<T, char>(o, t.values().data(), t.values().size(), e);
                                              }); });
  add("save(stringstream)", [&] {
    std::stringstream o;
    npy::save(o, ct, e);
    return o.str();
  });
  path("save(ofstream)", [&] {
    std::ofstream o(p, std::ios::binary);
    npy::save(o, ct, e);
  });
  path("save(fstream)", [&] {
    std::fstream o(p, std::ios::binary | std::ios::out | std::ios::in | std::ios::trunc);
    npy::save(o, t, e);
  });
  path("save(string)", [&] { npy::save(p, t, e); });
  path("save(string, const)", [&] { npy::save(p, ct, e); });
  path("save(C string)", [&] { npy::save(p.c_str(), ct, e); });
  path("save(fs::path)", [&] { npy::save(fs::path(p), t, e); });
  path("save<tensor<T>>(string)", [&] { npy::save<npy::tensor<T>>(p, t, e); });
  path("save<const tensor<T>>(string)", [&] { npy::save<const npy::tensor<T>>(p, ct, e); });
  path("save<T, tensor>(string)", [&] { npy::save<T, npy::tensor>(p, t, e); });
  path("save<T, tensor>(string, const)", [&] { npy::save<T, npy::tensor>(p, ct, e); });
  path("save<T, tensor>(C string)", [&] { npy::save<T, npy::tensor>(p.c_str(), ct, e); });
  path("save<T, tensor>(fs::path)", [&] { npy::save<T, npy::tensor>(fs::path(p), t, e); });
  path("tensor.save(string)", [&] { t.save(p, e); });
  path("const tensor.save(C string)", [&] { ct.save(p.c_str(), e); });
  path("const tensor.save(fs::path)", [&] { ct.save(fs::path(p), e); });
  path("save(relative path)", [&] { npy::save(fs::relative(p).string(), ct, e); });
  path("save() over a longer file", [&] {
    mc::write_all(p, std::string(20000, 'z'));
    npy::save(p, ct, e);
  });
  path("tensor.save() over a shorter file", [&] {
    mc::write_all(p, "z");
    t.save(p, e);
  });
  if (e != ref::BE) { // this machine's order under its other names
    npy::endian_t o = e == ref::LE ? ref::NE : ref::LE;
    add("save(stream, other name of the byte order)", [&, o] { return stream([&](std::ostream &s) { npy::save(s, ct, o); }); });
    path("save(path, other name of the byte order)", [&, o] { npy::save(p, t, o); });
    path("tensor.save(path, other name of the byte order)", [&, o] { t.save(p, o); });
    add("save(stream) without byte order", [&] { return stream([&](std::ostream &s) { npy::save(s, t); }); });
    add("save<T, tensor>(stream) without byte order", [&] { return stream([&](std::ostream &s) { npy::save<T, npy::tensor>(s, t); }); });
    path("save(path) without byte order", [&] { npy::save(p, t); });
    path("save<T, tensor>(path) without byte order", [&] { npy::save<T, npy::tensor>(p, t); });
    path("tensor.save(path) without byte order", [&] { ct.save(p); });
  }
  // through archives
  for (int m : {0, 8}) {
    auto entry = [](const std::string &zip) {
      auto a = zref::parse(zip);
      if (!a.why.empty() || a.entries.size() != 1)
        return "not an archive of one entry: " + a.why;
      return a.entries[0].bytes;
    };
    add(mc::str("npzstringwriter(", m, ").write"), [&, m, entry] {
      npy::npzstringwriter w{Method(m), e};
      w.write("a", ct);
      w.close();
      return entry(w.str());
    });
    add(mc::str("npzfilewriter(", m, ").write<tensor<T>>"), [&, m, entry] {
      return entry(file(p, [&] {
        npy::npzfilewriter w{p, Method(m), e};
        w.write<npy::tensor<T>>("a.npy", t);
        w.close();
      }));
    });
  }
  agree(r, "writing");
}

// --- archives ------------------------------------------------------------------
template <class T> void archives(const npy::tensor<T> &ct, Method m, npy::endian_t e, int name) {
  npy::tensor<T> t = ct;
  const std::string p = P(name);
  Routes r;
  auto fill = [&](auto &w, bool close) {
    w.write("one", ct);
    w.write("two.npy", t);
    w.template write<npy::tensor<T>>("sub/three", t);
    if (close)
      w.close();
  };
  r.push_back({"npzstringwriter", [&] {
                 npy::npzstringwriter w(m, e);
                 fill(w, true);
                 return w.str();
               }});
  r.push_back({"npzstringwriter, closed twice", [&] {
                 npy::npzstringwriter w(m, e);
                 fill(w, true);
                 w.close();
                 return w.str();
               }});
  auto add = [&](const std::string &n, auto make) {
    for (bool close : {true, false})
      r.push_back({n + (close ? "" : ", closed by its destructor"), [&, make, close] { return file(p, [&] {
                                                                                         auto w = make();
                                                                                         fill(*w, close);
                                                                                       }); }});
  };
  using W = npy::npzfilewriter;
  add("npzfilewriter(string)", [&] { return std::make_unique<W>(p, m, e); });
  add("npzfilewriter(C string)", [&] { return std::make_unique<W>(p.c_str(), m, e); });
  add("npzfilewriter(fs::path)", [&] { return std::make_unique<W>(fs::path(p), m, e); });
  if (e != ref::BE) {
    npy::endian_t o = e == ref::LE ? ref::NE : ref::LE;
    add("npzfilewriter(other name of the byte order)", [&, o] { return std::make_unique<W>(p, m, o); });
    add("npzfilewriter(string) without byte order", [&] { return std::make_unique<W>(p, m); });
    add("npzfilewriter(C string) without byte order", [&] { return std::make_unique<W>(p.c_str(), m); });
    add("npzfilewriter(fs::path) without byte order", [&] { return std::make_unique<W>(fs::path(p), m); });
    r.push_back({"npzstringwriter without byte order", [&] {
                   npy::npzstringwriter w(m);
                   fill(w, true);
                   return w.str();
                 }});
    if (m == Method::STORED) {
      add("npzfilewriter(string) without method", [&] { return std::make_unique<W>(p); });
      add("npzfilewriter(C string) without method", [&] { return std::make_unique<W>(p.c_str()); });
      add("npzfilewriter(fs::path) without method", [&] { return std::make_unique<W>(fs::path(p)); });
      r.push_back({"npzstringwriter without arguments", [&] {
                     npy::npzstringwriter w;
                     fill(w, true);
                     return w.str();
                   }});
    }
  }
  agree(r, "writing an archive");
}
// places where nothing can be written, unknown methods: everyone fails
void failing_writers() {
  npy::tensor<std::int32_t> t({2});
  for (std::string bad : {mc::scratch() + "/no/such/dir/x.npy", mc::scratch(), std::string(), std::string("/dev/full"), mc::scratch() + "/" + std::string(300, 'n'), std::string("\0x", 2)}) {
    mc::one([&] { return "saving to " + (bad.compare(0, 4, "/dev") ? mc::str("an unusable path of ", bad.size(), " characters") : bad); },
            [&] {
              if (bad == "/dev/full") {
                struct stat st;
                if (::stat("/dev/full", &st) != 0 || !S_ISCHR(st.st_mode))
                  return;
              }
              Routes r;
              auto add = [&](const char *n, std::function<void()> f) {
                r.push_back({n, [f] {
                               f();
                               return std::string("done");
                             }});
              };
              const auto &ct = t;
              add("save(string)", [&] { npy::save(bad, t); });
              add("save(C string)", [&] { npy::save(bad.c_str(), ct); });
              add("save(fs::path)", [&] { npy::save(fs::path(bad), t); });
              add("save<T, tensor>", [&] { npy::save<std::int32_t, npy::tensor>(bad, t); });
              add("tensor.save", [&] { t.save(bad); });
              auto arc = [](npy::npzfilewriter &&w, const npy::tensor<std::int32_t> &x) {
                w.write("a", x);
                w.close();
              };
              add("npzfilewriter(string)", [&] { arc(npy::npzfilewriter(bad), t); });
              add("npzfilewriter(C string)", [&] { arc(npy::npzfilewriter(bad.c_str()), t); });
              add("npzfilewriter(fs::path)", [&] { arc(npy::npzfilewriter(fs::path(bad)), t); });
              agree(r, "saving");
              if (outcome(r[0].second) != "!")
                mc::fail("saving to an unusable path returns normally");
              // the same place read
              Routes q;
              q.push_back({"load(string)", [&] { return text(npy::load<npy::tensor<std::int32_t>>(bad)); }});
              q.push_back({"load(C string)", [&] { return text(npy::load<npy::tensor<std::int32_t>>(bad.c_str())); }});
              q.push_back({"load(fs::path)", [&] { return text(npy::load<npy::tensor<std::int32_t>>(fs::path(bad))); }});
              q.push_back({"load<T, tensor>", [&] { return text(npy::load<std::int32_t, npy::tensor>(bad)); }});
              q.push_back({"from_file", [&] { return text(npy::tensor<std::int32_t>::from_file(bad)); }});
              q.push_back({"peek(string)", [&] { return text(npy::peek(bad)); }});
              q.push_back({"peek(C string)", [&] { return text(npy::peek(bad.c_str())); }});
              q.push_back({"npzfilereader(string)", [&] { return mc::list(npy::npzfilereader(bad).keys()); }});
              q.push_back({"npzfilereader(C string)", [&] { return mc::list(npy::npzfilereader(bad.c_str()).keys()); }});
              q.push_back({"npzfilereader(fs::path)", [&] { return mc::list(npy::npzfilereader(fs::path(bad)).keys()); }});
              agree(q, "loading");
            });
  }
}

// --- reading one array -----------------------------------------------------------
struct Kept { // readers of one archive, which the routes share
  std::unique_ptr<npy::npzstringreader> s;
  std::unique_ptr<npy::npzfilereader> f;
};
template <class T> void reading(const std::string &bytes, int name, bool all) {
  using Ten = npy::tensor<T>;
  const std::string p = P(name);
  mc::write_all(p, bytes);
  Routes r, k;
  auto add = [&](const char *n, std::function<std::string()> f) { r.push_back({n, std::move(f)}); };
  auto addk = [&](const char *n, std::function<std::string()> f) { k.push_back({n, std::move(f)}); };
  add("load(istringstream)", [&] {
    std::istringstream in(bytes);
    return text(npy::load<Ten>(in));
  });
  add("load<tensor<T>, char>(stringstream)", [&] {
    std::stringstream in(bytes);
    return text(npy::load<Ten, char>(in));
  });
  add("load(ifstream)", [&] {
    std::ifstream in(p, std::ios::binary);
    return text(npy::load<Ten>(in));
  });
  add("header + tensor::load", [&] {
    std::istringstream in(bytes);
    auto i = npy::read_npy_header(in);
    return text(Ten::load(in, i));
  });
  add("peek + tensor::load", [&] {
    std::istringstream in(bytes);
    auto i = npy::peek(in);
    return text(Ten::load(in, i));
  });
  add("peek + read_values", [&] {
    std::istringstream in(bytes);
    auto i = npy::peek(in);
    Ten t(i.shape, i.fortran_order);
    if (i.dtype != t.dtype())
      throw std::runtime_error("type");
    npy::read_values(in, t.data(), t.size(), i);
    return text(t);
  });
  add("load(string)", [&] { return text(npy::load<Ten>(p)); });
  add("load(C string)", [&] { return text(npy::load<Ten>(p.c_str())); });
  add("load(fs::path)", [&] { return text(npy::load<Ten>(fs::path(p))); });
  add("load<T, tensor>(string)", [&] { return text(npy::load<T, npy::tensor>(p)); });
  add("load<T, tensor>(C string)", [&] { return text(npy::load<T, npy::tensor>(p.c_str())); });
  add("load<T, tensor>(fs::path)", [&] { return text(npy::load<T, npy::tensor>(fs::path(p))); });
  add("from_file(string)", [&] { return text(Ten::from_file(p)); });
  add("from_file(C string)", [&] { return text(Ten::from_file(p.c_str())); });
  add("from_file(fs::path)", [&] { return text(Ten::from_file(fs::path(p))); });
  addk("peek(istringstream)", [&] {
    std::istringstream in(bytes);
    return text(npy::peek(in));
  });
  addk("peek<char>(ifstream)", [&] {
    std::ifstream in(p, std::ios::binary);
    return text(npy::peek<char>(in));
  });
  addk("read_npy_header(stringstream)", [&] {
    std::stringstream in(bytes);
    return text(npy::read_npy_header(in));
  });
  addk("peek(string)", [&] { return text(npy::peek(p)); });
  addk("peek(C string)", [&] { return text(npy::peek(p.c_str())); });
  addk("peek(fs::path)", [&] { return text(npy::peek(fs::path(p))); });
  // in archives
  std::string zp[2], z[2];
  Kept kept[2];
  for (int m = 0; m < (all ? 2 : 1); ++m) {
    zref::Out e;
    e.name = "a.npy";
    e.bytes = bytes;
    e.method = m * 8;
    z[m] = zref::write({e});
    zp[m] = P(name) + ".npz";
    zp[m] += m ? "8" : "0";
    mc::write_all(zp[m], z[m]);
    const std::string &q = zp[m], &b = z[m];
    kept[m].s = std::make_unique<npy::npzstringreader>(b);
    kept[m].f = std::make_unique<npy::npzfilereader>(q);
    auto *s = kept[m].s.get();
    auto *f = kept[m].f.get();
    add("npzstringreader.read<tensor<T>>", [=] { return text(s->read<Ten>("a.npy")); });
    add("npzstringreader.read<T, tensor>", [=] { return text(s->read<T, npy::tensor>("a")); });
    add("npzfilereader.read<tensor<T>>", [=] { return text(f->read<Ten>("a")); });
    add("npzfilereader.read<T, tensor>", [=] { return text(f->read<T, npy::tensor>("a.npy")); });
    add("npzstringreader(string&&).read", [&b] {
      std::string c = b;
      return text(npy::npzstringreader(std::move(c)).read<Ten>("a"));
    });
    add("npzfilereader(C string).read", [&q] { return text(npy::npzfilereader(q.c_str()).read<Ten>("a.npy")); });
    add("npzfilereader(fs::path).read", [&q] { return text(npy::npzfilereader(fs::path(q)).read<T, npy::tensor>("a")); });
    addk("npzstringreader.peek", [=] { return text(s->peek("a.npy")); });
    addk("npzstringreader.peek, no suffix", [=] { return text(s->peek("a")); });
    addk("npzfilereader.peek", [=] { return text(f->peek("a.npy")); });
    addk("npzfilereader.peek, no suffix", [=] { return text(f->peek("a")); });
    addk("npzfilereader(C string).peek", [&q] { return text(npy::npzfilereader(q.c_str()).peek("a.npy")); });
    addk("npzfilereader(fs::path).peek", [&q] { return text(npy::npzfilereader(fs::path(q)).peek("a")); });
  }
  agree(r, "reading");
  agree(k, "peeking");
}

// --- archives, including ones which are not -------------------------------------
template <class M> std::string contents(M &&make) {
  return outcome([&] {
    auto r = make();
    std::string s = mc::list(r->keys());
    std::vector<std::string> names = r->keys();
    for (auto &n : r->keys())
      if (n.size() > 4)
        names.push_back(n.substr(0, n.size() - 4));
    names.push_back("missing");
    names.push_back("");
    for (auto &n : names) {
      s += mc::str(" ", mc::quote(n), "?", r->contains(n), outcome([&] { return text(r->peek(n)); }));
      s += outcome([&] { return text(r->template read<npy::tensor<std::int32_t>>(n)); });
      s += outcome([&] { return text(r->template read<std::uint8_t, npy::tensor>(n)); });
      s += outcome([&] { return text(r->template read<npy::tensor<std::wstring>>(n)); });
    }
    return s;
  });
}
void readers(const std::string &zip, int name) {
  const std::string p = P(name);
  mc::write_all(p, zip);
  Routes r;
  using S = npy::npzstringreader;
  using F = npy::npzfilereader;
  r.push_back({"npzstringreader(const string &)", [&] { return contents([&] { return std::make_unique<S>(zip); }); }});
  r.push_back({"npzstringreader(string &&)", [&] {
                 std::string c = zip;
                 return contents([&] { return std::make_unique<S>(std::move(c)); });
               }});
  r.push_back({"npzfilereader(string)", [&] { return contents([&] { return std::make_unique<F>(p); }); }});
  r.push_back({"npzfilereader(C string)", [&] { return contents([&] { return std::make_unique<F>(p.c_str()); }); }});
  r.push_back({"npzfilereader(fs::path)", [&] { return contents([&] { return std::make_unique<F>(fs::path(p)); }); }});
  agree(r, "reading an archive");
}
template <class T> npy::tensor<T> ten(const std::vector<size_t> &s, bool fo, size_t base) {
  npy::tensor<T> t(s, fo);
  ref::fill_distinct(t, base);
  return t;
}
// --- descriptions -----------------------------------------------------------------
template <class T> void descriptions() {
  npy::tensor<T> t({2, 3}, true);
  const auto &ct = t;
  ref::fill_distinct(t, 1);
  for (auto e : {ref::LE, ref::BE, ref::NE}) {
    npy::header_info a(ct.dtype(), e, true, {2, 3});
    std::ostringstream o;
    npy::save(o, t, e);
    std::istringstream in(o.str());
    npy::header_info b = npy::peek(in);
    if (a.dtype != b.dtype || a.shape != b.shape || a.fortran_order != b.fortran_order)
      mc::fail(std::string("header_info from its parts and from a file differ, ") + ref::ename(e));
    // NumPy's text for the same header
    npy::header_info c(ref::dict_str(ref::descr<T>(ref::Type<T>::size == 1 ? '|' : ref::order_of(e), 4), true, {2, 3}));
    if (c.dtype != b.dtype || c.shape != b.shape || c.fortran_order != b.fortran_order || (ref::Type<T>::size != 1 && c.endianness != b.endianness))
      mc::fail("header_info from a dictionary and from a file differ");
    if (!std::is_same_v<T, std::wstring>) {
      if (ct.dtype(e) != npy::to_dtype(ct.dtype(), e))
        mc::fail("tensor.dtype() and to_dtype() differ");
      if (e == ref::NE && npy::to_dtype(ct.dtype()) != npy::to_dtype(ct.dtype(), ref::LE))
        mc::fail("to_dtype() without byte order differs from the machine's order");
      if (npy::from_dtype(ct.dtype(e)).first != ct.dtype())
        mc::fail("from_dtype(tensor.dtype()) is another type");
    }
  }
  if (ct.ndim() != ct.shape().size() || ct.shape(0) != 2 || ct.shape(1) != 3 || ct.size() != ct.values().size() || ct.data() != ct.values().data() || t.data() != ct.data() || size_t(ct.end() - ct.begin()) != ct.size() ||
      size_t(t.end() - t.begin()) != ct.size() || (&*ct.begin()) != ct.data() || (&*t.begin()) != t.data())
    mc::fail("accessors of a tensor disagree");
  for (size_t i = 0; i < 2; ++i)
    for (size_t j = 0; j < 3; ++j) {
      int a = int(i), b = int(j);
      const T *at = ct.data() + i + 2 * j;
      const T *got[] = {&ct(a, b), &t(a, b), &ct(a - 2, b - 3), &t(a - 2, b), &ct(std::vector<size_t>{i, j}), &t(std::vector<size_t>{i, j}), &ct.get({a, b}), &t.get({a - 2, b - 3}),
                        ct.data() + ct.ravel(std::vector<std::int32_t>{a, b - 3}), ct.data() + ct.ravel(std::vector<size_t>{i, j})};
      for (size_t k = 0; k < sizeof got / sizeof *got; ++k)
        if (got[k] != at)
          mc::fail(mc::str("element access form ", k, " reaches another element"));
      npy::tensor<T> x = t, y = t, z = t;
      x.set({a, b}, ref::nth<T>(77));
      y(a, b) = ref::nth<T>(77);
      z(std::vector<size_t>{i, j}) = ref::nth<T>(77);
      if (text(x) != text(y) || text(y) != text(z))
        mc::fail("set() and assignment through operator() differ");
    }
  // filling
  std::vector<T> v(t.values());
  npy::tensor<T> a({2, 3}, true), b({2, 3}, true), c({2, 3}, true), d({2, 3}, true);
  a.copy_from(v);
  b.copy_from(v.data(), v.size());
  std::copy(v.begin(), v.end(), d.begin());
  c.move_from(std::move(v));
  if (text(a) != text(t) || text(b) != text(t) || text(c) != text(t) || text(d) != text(t))
    mc::fail("copy_from, move_from and copying through begin() differ");
  npy::tensor<T> e1({2, 3}), e2({2, 3}, false);
  if (text(e1) != text(e2))
    mc::fail("the constructors differ");
  for (size_t n = 0; n < 9; ++n) {
    std::vector<T> w(n), w2(n);
    npy::tensor<T> x({2, 3}), y({2, 3}), z({2, 3});
    bool r1 = mc::attempt([&] { x.copy_from(w); }).threw, r2 = mc::attempt([&] { y.copy_from(w.data(), n); }).threw, r3 = mc::attempt([&] { z.move_from(std::move(w2)); }).threw;
    if (r1 != r2 || r2 != r3 || r1 != (n != 6))
      mc::fail(mc::str("copy_from, copy_from(pointer) and move_from of ", n, " elements: ", r1, r2, r3));
  }
  mc::outcome(mc::str(ref::Type<T>::name));
}
} // namespace

// compiled in three parts
#ifndef MC_PART
#define MC_PART 0
#endif
#define MC_JOIN2(a, b) a##b
#define MC_JOIN(a, b) MC_JOIN2(a, b)
void types0();
void types1();
void types2();
template <class T> constexpr int part() {
  using npy::data_type_t;
  return int(ref::Type<T>::dtype) % 3;
}
void MC_JOIN(types, MC_PART)() {
  const bool th = mc::thorough();
  int name = MC_PART;
  ref::each_type([&](auto tag) {
    using T = typename decltype(tag)::type;
    if constexpr (part<T>() == MC_PART) {
    mc::one([&] { return std::string("descriptions and accessors of ") + ref::Type<T>::name; }, [&] { descriptions<T>(); });
    std::vector<space::Shape> shapes;
    ref::each_shape(0, th ? 4 : 3, 2, [&](const space::Shape &s) { shapes.push_back(s); });
    for (space::Shape s : {space::Shape{5}, {300}, {7, 3}, {3000}})
      shapes.push_back(s);
    // headers and contents beyond the sizes of buffers
    std::vector<space::Shape> big{{5, 7000}};
    if (ref::Type<T>::size < 8)
      big.push_back(space::Shape(1500, 1));
    if (std::is_same_v<T, std::uint16_t>)
      big.push_back(space::Shape(23000, 1));
    if (th)
      big.insert(big.end(), {{1200000}, space::Shape(400, 1), space::Shape(6000, 1), space::Shape(23000, 1)});
    for (auto &s : big)
      shapes.push_back(s);
    for (auto &s : shapes)
      for (bool fo : {false, true})
        for (auto e : {ref::LE, ref::BE, ref::NE}) {
          if (&s >= &shapes[shapes.size() - big.size()] && fo == (e == ref::LE)) // of the long ones, one in two
            continue;
          ++name;
          auto t = ten<T>(s, fo, s.size());
          mc::one([&] { return mc::str("writing ", ref::Type<T>::name, " ", mc::list(s), fo ? " column-major " : " ", ref::ename(e)); }, [&] { writing<T>(t, e, name); });
          for (auto m : {Method::STORED, Method::DEFLATED})
            mc::one([&] { return mc::str("archive of ", ref::Type<T>::name, " ", mc::list(s), fo ? " column-major " : " ", ref::ename(e), m == Method::STORED ? " stored" : " deflated"); },
                    [&] { archives<T>(t, m, e, name); });
          if (e == ref::NE)
            continue;
          std::string bytes = ref::save_bytes(t, e);
          mc::one([&] { return mc::str("reading ", ref::Type<T>::name, " ", mc::list(s), fo ? " column-major " : " ", ref::ename(e)); }, [&] { reading<T>(bytes, name, true); });
          // asking for another type
          if (s.size() > 300 || ref::product(s) > 10000)
            continue;
          mc::one([&] { return mc::str("reading ", ref::Type<T>::name, " ", mc::list(s), " as another type"); },
                  [&] {
                    reading<std::conditional_t<std::is_same_v<T, std::int32_t>, std::uint32_t, std::int32_t>>(bytes, name, true);
                    reading<std::conditional_t<std::is_same_v<T, std::wstring>, std::uint8_t, std::wstring>>(bytes, name, true);
                  });
        }
    // damaged files: every route must refuse, or read the same
    for (const space::Shape &s : {space::Shape{2}, space::Shape{}, space::Shape{1, 2}}) {
      if (s.size() != 1 && !th)
        continue;
      std::string bytes = ref::save_bytes(ten<T>(s, s.size() == 2, 1), s.size() == 2 ? ref::BE : ref::LE);
      for (size_t n = 0; n <= bytes.size(); ++n)
        mc::one([&] { return mc::str("reading ", ref::Type<T>::name, mc::list(s), " cut to ", n); },
                [&] {
                  mc::nontrivial();
                  reading<T>(bytes.substr(0, n), int(n), true);
                });
      for (size_t i = 0; i < bytes.size(); ++i)
        for (int c : {0, 1, 2, 10, 32, 39, 40, 41, 44, 48, 49, 57, 58, 60, 62, 70, 85, 102, 123, 124, 125, 128, 255})
          mc::one([&] { return mc::str("reading ", ref::Type<T>::name, mc::list(s), " with byte ", i, " set to ", c); },
                  [&] {
                    mc::nontrivial();
                    std::string b = bytes;
                    b[i] = char(c);
                    reading<T>(b, int(i), false);
                  });
    }
    }
  });
}
#if MC_PART == 0
void explore() {
  ::mkdir((mc::scratch() + "/sub").c_str(), 0755);
  types0();
  types1();
  types2();
  // archives as a whole, and damaged ones
  for (auto m : {Method::STORED, Method::DEFLATED})
    mc::one([&] { return mc::str("archive of 700 entries, ", m == Method::STORED ? "stored" : "deflated"); },
            [&] {
              npy::npzstringwriter w(m);
              for (size_t i = 0; i < 700; ++i)
                w.write(std::string(i % 37 + (i == 600) * 60000, 'n') + mc::str(i), ten<std::int32_t>({i % 7, 3 + (i == 400) * 30000}, i % 2, i));
              w.close();
              readers(w.str(), 9);
            });
  for (int kind = 0; kind < 4; ++kind) {
    npy::npzstringwriter w(kind & 1 ? Method::DEFLATED : Method::STORED);
    if (kind < 2) {
      w.write("a", ten<std::int32_t>({2, 2}, false, 0));
      w.write("b.npy", ten<std::wstring>({2}, true, 3));
      w.write("a", ten<std::uint8_t>({3}, false, 1));
    } else if (kind == 3)
      w.write("", ten<std::uint8_t>({3}, false, 1));
    w.close();
    std::string z = w.str();
    mc::one([&] { return mc::str("archive ", kind); }, [&] { readers(z, kind); });
    for (size_t n = 0; n < z.size(); ++n)
      mc::one([&] { return mc::str("archive ", kind, " cut to ", n); }, [&] { readers(z.substr(0, n), kind); });
    for (size_t i = 0; i < z.size(); ++i)
      for (int c : {0, 1, 2, 8, 9, 20, 45, 46, 80, 127, 128, 255})
        mc::one([&] { return mc::str("archive ", kind, " with byte ", i, " set to ", c); },
                [&] {
                  mc::nontrivial();
                  std::string b = z;
                  b[i] = char(c);
                  readers(b, kind);
                });
  }
  failing_writers();
}
#endif
#endif
