// C19: results do not depend on the process locale or on stream formatting state.
#include "common/any.hpp"
#include "common/tensors.hpp"
#include <clocale>
#include <filesystem>
#include <fstream>
#include <locale>

namespace {
using Method = npy::compression_method_t;
// --- locales --------------------------------------------------------------------
struct Punct : std::numpunct<char> {
  std::string g, t, f;
  char sep, point;
  Punct(const std::string &g_, char s, char p, const std::string &t_, const std::string &f_) : g(g_), t(t_), f(f_), sep(s), point(p) {}
  std::string do_grouping() const override { return g; }
  char do_thousands_sep() const override { return sep; }
  char do_decimal_point() const override { return point; }
  std::string do_truename() const override { return t; }
  std::string do_falsename() const override { return f; }
};
struct WPunct : std::numpunct<wchar_t> {
  std::string do_grouping() const override { return "\1"; }
  wchar_t do_thousands_sep() const override { return L'x'; }
};
struct Ctype : std::ctype<char> {
  mask tab[table_size];
  explicit Ctype(int kind) : std::ctype<char>(tab) {
    std::copy_n(classic_table(), table_size, tab);
    for (int c = 0; c < 256; ++c) {
      if (kind == 0 && std::strchr("0123456789,()'TF", c ? c : 1))
        tab[c] = space; // digits and punctuation are blanks
      if (kind == 1)
        tab[c] = mask(tab[c] & ~space); // nothing is a blank
      if (kind == 2)
        tab[c] = mask(c >= 'a' && c <= 'z' ? digit : tab[c]);
    }
  }
  char do_tolower(char c) const override { return c == 'T' ? 't' : c; }
  char do_toupper(char c) const override { return c == 't' ? 'X' : c; }
};
struct NumPut : std::num_put<char> {
  iter_type do_put(iter_type o, std::ios_base &, char, long) const override { return std::copy_n("<l>", 3, o); }
  iter_type do_put(iter_type o, std::ios_base &, char, unsigned long) const override { return std::copy_n("<ul>", 4, o); }
  iter_type do_put(iter_type o, std::ios_base &, char, long long) const override { return std::copy_n("<ll>", 4, o); }
  iter_type do_put(iter_type o, std::ios_base &, char, unsigned long long) const override { return std::copy_n("<ull>", 5, o); }
  iter_type do_put(iter_type o, std::ios_base &, char, bool) const override { return std::copy_n("maybe", 5, o); }
};
struct NumGet : std::num_get<char> {
  iter_type do_get(iter_type b, iter_type, std::ios_base &, std::ios_base::iostate &, unsigned long &v) const override {
    v = 42;
    return b;
  }
  iter_type do_get(iter_type b, iter_type, std::ios_base &, std::ios_base::iostate &e, long &v) const override {
    v = 41;
    e = std::ios_base::failbit;
    return b;
  }
  iter_type do_get(iter_type b, iter_type, std::ios_base &, std::ios_base::iostate &, unsigned int &v) const override {
    v = 40;
    return b;
  }
};
struct Loc {
  std::string name;
  std::locale cpp;
  std::string c; // name for setlocale, "" to leave the C locale as std::locale::global sets it
};
std::vector<Loc> locales() {
  std::vector<Loc> v;
  const std::locale cl = std::locale::classic();
  v.push_back({"classic", cl, ""});
  auto punct = [&](const char *name, const std::string &g, char s, char p, const std::string &t, const std::string &f) { v.push_back({name, std::locale(cl, new Punct(g, s, p, t, f)), ""}); };
  punct("groups of 3 with ,", "\3", ',', '.', "True", "False");
  punct("groups of 3 with .", "\3", '.', ',', "wahr", "falsch");
  punct("groups of 1 with blank", "\1", ' ', ',', "", "");
  punct("groups of 2, 3 with '", "\2\3", '\'', '.', "1", "0");
  punct("groups of 1 with 0", "\1", '0', '1', "yes", "no");
  punct("groups of 1 with )", "\1", ')', '(', "False", "True");
  punct("groups of 1 with -", "\1\1\177", '-', '-', "t", "f");
  v.push_back({"digits are blanks", std::locale(cl, new Ctype(0)), ""});
  v.push_back({"no blanks", std::locale(cl, new Ctype(1)), ""});
  v.push_back({"letters are digits", std::locale(cl, new Ctype(2)), ""});
  v.push_back({"numbers are printed as something else", std::locale(cl, new NumPut), ""});
  v.push_back({"numbers are read as something else", std::locale(cl, new NumGet), ""});
  v.push_back({"wide grouping", std::locale(cl, new WPunct), ""});
  v.push_back({"everything", std::locale(std::locale(std::locale(std::locale(cl, new Punct("\1", ',', '.', "x", "y")), new Ctype(0)), new NumPut), new NumGet), ""});
  v.push_back({"C.utf8", cl, "C.utf8"});
  std::string dir = mc::option("locales");
  if (!dir.empty()) {
    setenv("LOCPATH", dir.c_str(), 1);
    std::vector<std::string> names;
    for (auto &e : std::filesystem::directory_iterator(dir))
      names.push_back(e.path().filename().string());
    std::sort(names.begin(), names.end());
    for (auto &n : names) {
      try {
        v.push_back({n, std::locale(n), ""});
        v.push_back({"C++ classic, C " + n, cl, n});
      } catch (const std::exception &) {
        throw std::logic_error("harness: locale " + n + " cannot be loaded");
      }
    }
  }
  return v;
}
std::string c_state() {
  const char *s = std::setlocale(LC_ALL, nullptr);
  return s ? s : "";
}
struct Use {
  const Loc &l;
  std::string c;
  explicit Use(const Loc &x) : l(x) {
    set(x);
    c = c_state();
  }
  static void set(const Loc &x) {
    std::locale::global(std::locale::classic());
    std::setlocale(LC_ALL, "C");
    std::locale::global(x.cpp);
    if (!x.c.empty())
      std::setlocale(LC_ALL, x.c.c_str());
  }
  void check() const {
    if (!(std::locale() == l.cpp))
      mc::fail("the global C++ locale was changed");
    if (c_state() != c)
      mc::fail("the C locale was changed");
  }
  ~Use() {
    std::locale::global(std::locale::classic());
    std::setlocale(LC_ALL, "C");
  }
};

// --- operations ------------------------------------------------------------------
std::string outcome(const std::function<std::string()> &f) {
  try {
    return f();
  } catch (const std::exception &) {
    return "!";
  }
}
// (without stringstreams, which would use the locale)
std::string num(std::uint64_t v) { return std::to_string(v) + ","; }
template <class T> std::string text(const npy::tensor<T> &t) {
  std::string s = "[";
  for (auto d : t.shape())
    s += num(d);
  s += num(t.fortran_order()) + num(unsigned(t.dtype())) + num(t.size());
  for (size_t i = 0; i < t.size(); ++i)
    for (auto p : ref::parts(t.data()[i]))
      s += num(p);
  return s;
}
std::string text(const npy::header_info &i) {
  std::string s = "{";
  for (auto d : i.shape)
    s += num(d);
  return s + num(i.fortran_order) + num(unsigned(i.dtype)) + num(unsigned(i.endianness)) + num(i.max_element_length);
}
template <class T> npy::tensor<T> ten(const std::vector<size_t> &s, bool fo, size_t base) {
  npy::tensor<T> t(s, fo);
  ref::fill_distinct(t, base);
  return t;
}
struct Op {
  std::string name;
  std::function<std::string()> go;
};
std::string P() { return mc::scratch() + "/f.npy"; }
std::vector<std::string> inputs() {
  std::vector<std::string> v;
  auto h = [&](const std::string &dict, size_t data) { v.push_back(ref::raw_header(dict + std::string((64 - (dict.size() + 11) % 64) % 64, ' ') + "\n") + std::string(data, 'd')); };
  for (const char *shape : {"(1000,)", "(1,000)", "(1,000,)", "(1.000,)", "(1 000,)", "(1'000,)", "(10)", "( 10 , 2 )", "(1, 0, 0, 0)", "(10,2,)", "(2-0,)", "(1000, 1)", "(1)000,)", "()", "(\t3,)", "(0x10,)", "(010,)", "(+3,)", "(1_000,)",
                            "(a,)", "(12ab,)", "(\xa0" "3,)", "(3\xa0,)", "(\xc2\xa0" "3,)", "(\x0b" "3,)", "(\xd9\xa3,)"})
    h(std::string("{'descr': '|u1', 'fortran_order': False, 'shape': ") + shape + ", }", 1000);
  for (const char *b : {"True", "False", "wahr", "falsch", "true", "1", "0", "", "yes", "t", "x", "TRUE"})
    h(std::string("{'descr': '|u1', 'fortran_order': ") + b + ", 'shape': (1000,), }", 1000);
  for (const char *d : {"<U1000", "<U1,000", "<U1.000", "<U1 0", "<U1'0", ">U250", "<U+1", "<U0250", "|b1", "<f4", "<i8", "<c16", "<f4,", "<F4", "<\xc4\xb1" "4", "|B1", "|I1"})
    h(std::string("{'descr': '") + d + "', 'fortran_order': False, 'shape': (1,), }", 4000);
  h("{'descr': '|u1','fortran_order': False,'shape': (1000,),}", 1000);
  h("{\xa0'descr': '|u1', 'fortran_order': False, 'shape': (1000,), }", 1000);
  h("{'descr':\t'|u1', 'fortran_order': \x0b" "False, 'shape': (1000,), }", 1000);
  return v;
}
std::vector<Op> operations() {
  std::vector<Op> v;
  auto add = [&](const std::string &n, std::function<std::string()> f) { v.push_back({n, std::move(f)}); };
  // writing
  ref::each_type([&](auto tag) {
    using T = typename decltype(tag)::type;
    for (std::vector<size_t> s : {std::vector<size_t>{}, {3}, {12, 34}, {1000}, {1234}, {2, 1, 1001}, {0, 1234567}, {123456789012345ull, 0}})
      for (auto e : {ref::LE, ref::BE}) {
        auto t = std::make_shared<npy::tensor<T>>(ten<T>(s, s.size() == 2, 1));
        std::string n = mc::str(ref::Type<T>::name, " ", mc::list(s), " ", ref::ename(e));
        add("save(stream) " + n, [=] {
          std::ostringstream o;
          npy::save(o, *t, e);
          return o.str();
        });
        add("save(path) " + n, [=] {
          npy::save(P(), *t, e);
          return mc::read_all(P());
        });
        add("archives " + n, [=] {
          std::string r;
          for (auto m : {Method::STORED, Method::DEFLATED}) {
            npy::npzstringwriter w(m, e);
            w.write("x", *t);
            w.close();
            npy::npzfilewriter f(P(), m, e);
            f.write("x", *t);
            f.close();
            r += w.str() + mc::read_all(P());
            npy::npzstringreader a(w.str());
            npy::npzfilereader b(P());
            r += text(a.template read<npy::tensor<T>>("x")) + text(b.peek("x")) + a.keys()[0];
          }
          return r;
        });
        std::string bytes = ref::save_bytes(*t, e);
        add("load " + n, [=] {
          std::istringstream in(bytes);
          mc::write_all(P(), bytes);
          return text(npy::load<npy::tensor<T>>(in)) + text(npy::load<T, npy::tensor>(P())) + text(npy::peek(P()));
        });
        add("description of " + n, [=] {
          std::string r = t->dtype(e);
          npy::header_info i(ref::dict_str(ref::descr<T>(ref::Type<T>::size == 1 ? '|' : ref::order_of(e), 1234), true, s));
          r += text(i);
          if (!std::is_same_v<T, std::wstring>) {
            r += npy::to_dtype(ref::Type<T>::dtype, e);
            r += num(unsigned(npy::from_dtype(npy::to_dtype(ref::Type<T>::dtype, e)).first));
          }
          return r;
        });
      }
  });
  // files of other origin, and what is not a file
  int k = 0;
  for (auto &b : inputs()) {
    std::string name = mc::str("input ", k++, " ", mc::quote(b.substr(10, 70), 100));
    add("peek " + name, [=] {
      std::istringstream in(b);
      return text(npy::peek(in));
    });
    add("load " + name, [=] {
      std::istringstream i1(b), i2(b), i3(b);
      return outcome([&] { return text(npy::load<npy::tensor<std::uint8_t>>(i1)); }) + outcome([&] { return text(npy::load<npy::tensor<std::wstring>>(i2)); }) + outcome([&] { return text(npy::load<npy::tensor<float>>(i3)); });
    });
    add("archived " + name, [=] {
      zref::Out e;
      e.name = "x.npy";
      e.bytes = b;
      e.method = 8;
      npy::npzstringreader r(zref::write({e}));
      return outcome([&] { return text(r.peek("x")); }) + outcome([&] { return text(r.read<npy::tensor<std::uint8_t>>("x")); });
    });
  }
  for (const char *d : {"<i4", ">f8", "|b1", "<I4", "<\xc4\xb0" "4", "i4", "<i1,0", ""})
    add(std::string("from_dtype ") + d, [=] {
      auto p = npy::from_dtype(d);
      return num(unsigned(p.first)) + num(unsigned(p.second));
    });
  return v;
}

// --- streams -----------------------------------------------------------------------
struct Format {
  std::ios_base::fmtflags flags{};
  std::streamsize width = 0, precision = 6;
  char fill = ' ';
  std::locale loc;
  std::ios_base::iostate mask = std::ios_base::goodbit;
  void set(std::ios &s) const {
    s.flags(flags);
    s.width(width);
    s.precision(precision);
    s.fill(fill);
    s.imbue(loc);
    s.exceptions(mask);
  }
  void check(std::ios &s, const char *what) const {
    if (s.flags() != flags)
      mc::fail(std::string(what) + " changes the stream's format flags");
    if (s.width() != width)
      mc::fail(std::string(what) + " changes the stream's width");
    if (s.precision() != precision)
      mc::fail(std::string(what) + " changes the stream's precision");
    if (s.fill() != fill)
      mc::fail(std::string(what) + " changes the stream's fill character");
    if (!(s.getloc() == loc))
      mc::fail(std::string(what) + " changes the stream's locale");
    if (s.exceptions() != mask)
      mc::fail(std::string(what) + " changes the stream's exception mask");
  }
};
struct Case { // an array with its file
  std::string name, file, shown, peeked;
  std::function<void(std::ostream &)> save;
  std::function<std::string(std::istream &)> load;
};
template <class T> Case make_case(const std::vector<size_t> &s, bool fo, npy::endian_t e) {
  auto t = std::make_shared<npy::tensor<T>>(ten<T>(s, fo, 1));
  Case c;
  c.name = mc::str(ref::Type<T>::name, " ", mc::list(s), fo ? " column-major " : " ", ref::ename(e));
  c.file = ref::save_bytes(*t, e);
  std::istringstream in(c.file);
  c.peeked = text(npy::peek(in));
  c.shown = text(*t);
  c.save = [=](std::ostream &o) { npy::save(o, *t, e); };
  c.load = [](std::istream &i) { return text(npy::load<npy::tensor<T>>(i)); };
  return c;
}
void stream_check(const Case &c, const Format &f, size_t before, size_t after, bool files) {
  const std::string head(before, 'h'), tail(after, 't');
  auto out = [&](std::ostream &o) {
    o.write(head.data(), long(before));
    f.set(o);
    c.save(o);
    f.check(o, "save()");
    if (!o.good())
      mc::fail("save() leaves the stream in a failed state");
    auto at = o.tellp();
    if (size_t(at) != before + c.file.size())
      mc::fail("save() leaves the stream at another position");
    o.width(0);
    o.write(tail.data(), long(after));
  };
  auto in = [&](std::istream &i) {
    i.seekg(long(before));
    f.set(i);
    if (text(npy::peek(i)) != c.peeked)
      mc::fail("peek() gives another description");
    f.check(i, "peek()");
    i.seekg(long(before));
    if (c.load(i) != c.shown)
      mc::fail("load() gives another tensor");
    f.check(i, "load()");
    if (!i.good())
      mc::fail("load() leaves the stream in a failed state");
    if (size_t(i.tellg()) != before + c.file.size())
      mc::fail("load() leaves the stream at another position");
  };
  const std::string want = head + c.file + tail;
  try {
    std::ostringstream o;
    out(o);
    if (o.str() != want)
      mc::fail("save() writes other bytes: " + mc::hex(o.str().substr(before), 150));
    std::istringstream i(want);
    in(i);
    std::stringstream io(want); // both
    io.seekp(long(before));
    f.set(io);
    c.save(io);
    io.seekg(long(before));
    if (c.load(io) != c.shown || io.str() != want)
      mc::fail("a stream for both directions gives another result");
    f.check(io, "save() and load()");
    if (files) {
      {
        std::ofstream fo(P(), std::ios::binary);
        out(fo);
      }
      if (mc::read_all(P()) != want)
        mc::fail("save() writes other bytes to a file stream");
      std::ifstream fi(P(), std::ios::binary);
      in(fi);
    }
  } catch (const std::exception &e) {
    mc::fail(std::string("throws ") + e.what());
  }
  mc::outcome(c.name);
}
} // namespace

void explore() {
  const bool th = mc::thorough();
  const auto locs = locales();
  const auto ops = operations();
  mc::count("locales", mc::shard() == 0 ? locs.size() : 0);
  // 1. every operation under every locale
  std::vector<std::string> base;
  for (auto &o : ops)
    base.push_back(outcome(o.go));
  for (size_t i = 0; i < ops.size(); ++i)
    for (auto &l : locs)
      mc::one([&] { return ops[i].name + " under locale " + l.name; },
              [&] {
                std::string r;
                {
                  Use u(l);
                  r = outcome(ops[i].go);
                  u.check();
                }
                if (r != base[i]) {
                  size_t k = 0;
                  while (k < r.size() && k < base[i].size() && r[k] == base[i][k])
                    ++k;
                  mc::fail(mc::str("the result differs at byte ", k, ": ", mc::quote(r.substr(k > 20 ? k - 20 : 0), 80), " instead of ", mc::quote(base[i].substr(k > 20 ? k - 20 : 0), 80)));
                }
                mc::outcome(base[i]);
                if (l.name != "classic")
                  mc::nontrivial();
              });
  // 2. the locale changes between the steps of an archive's life
  auto a = ten<std::int32_t>({1234}, false, 0);
  auto b = ten<std::wstring>({2, 1000}, true, 0);
  b.data()[7] = std::wstring(1111, L'x');
  for (auto m : {Method::STORED, Method::DEFLATED}) {
    std::string want;
    {
      npy::npzstringwriter w(m);
      w.write("a", a);
      w.write("b", b);
      w.close();
      want = w.str();
    }
    std::vector<const Loc *> few;
    for (size_t i = 0; i < locs.size(); ++i)
      if (th || i == 0 || i == 1 || i == 5 || locs[i].name == "everything" || i + 2 == locs.size() || locs[i].name == "de_DE.UTF-8")
        few.push_back(&locs[i]);
    for (auto l1 : few)
      for (auto l2 : few)
        for (auto l3 : few)
          mc::one([&] { return mc::str("archive made under ", l1->name, ", written under ", l2->name, ", closed under ", l3->name, ", method ", int(m)); },
                  [&] {
                    std::string p = P(), got;
                    {
                      Use u(*l1);
                      npy::npzstringwriter w(m);
                      npy::npzfilewriter f(p, m);
                      Use::set(*l2);
                      w.write("a", a);
                      f.write("a", a);
                      w.write("b", b);
                      f.write("b", b);
                      Use::set(*l3);
                      w.close();
                      f.close();
                      got = w.str();
                    }
                    if (got != want || mc::read_all(p) != want)
                      mc::fail("the archive differs");
                    std::string x, y;
                    {
                      Use u(*l1);
                      npy::npzstringreader r(want);
                      npy::npzfilereader f(p);
                      Use::set(*l2);
                      x = text(r.read<npy::tensor<std::int32_t>>("a")) + text(f.peek("b"));
                      Use::set(*l3);
                      y = text(f.read<npy::tensor<std::wstring>>("b")) + text(r.peek("a"));
                    }
                    if (x.find(text(a)) != 0 || y.find(text(b)) != 0)
                      mc::fail("what is read differs");
                    mc::outcome(mc::str("archive", int(m)));
                    mc::nontrivial();
                  });
  }
  // 3. stream state
  std::vector<Case> cases;
  cases.push_back(make_case<std::int32_t>({12, 34}, false, ref::LE));
  cases.push_back(make_case<double>({1234}, true, ref::BE));
  cases.push_back(make_case<std::wstring>({10}, false, ref::LE));
  cases.push_back(make_case<npy::boolean>({1000}, false, ref::LE));
  cases.push_back(make_case<std::complex<float>>({}, true, ref::BE));
  cases.push_back(make_case<std::uint8_t>({0}, false, ref::LE));
  if (th)
    ref::each_type([&](auto tag) { cases.push_back(make_case<typename decltype(tag)::type>({1234}, true, ref::BE)); });
  using B = std::ios_base;
  const std::vector<B::fmtflags> bits = {B::boolalpha, B::dec, B::fixed, B::hex, B::internal, B::left, B::oct, B::right, B::scientific, B::showbase, B::showpoint, B::showpos, B::skipws, B::unitbuf, B::uppercase};
  auto all = [&](const Case &c, const Format &f, size_t before, size_t after, const std::string &what) {
    mc::one([&] { return mc::str(c.name, ": ", what, ", ", before, " bytes before, ", after, " after"); },
            [&] {
              stream_check(c, f, before, after, true);
              mc::nontrivial();
            });
  };
  for (auto &c : cases) {
    for (size_t i = 0; i < bits.size(); ++i)
      for (size_t j = i; j < bits.size(); ++j)
        for (size_t k = j; k < (th ? bits.size() : j + 1); ++k)
          for (bool on : {true, false}) {
            Format f;
            B::fmtflags x = bits[i] | bits[j] | bits[k];
            f.flags = on ? x : ~x & (B::boolalpha | B::basefield | B::floatfield | B::adjustfield | B::showbase | B::showpoint | B::showpos | B::skipws | B::unitbuf | B::uppercase);
            all(c, f, 0, 3, mc::str("format flags ", int(f.flags)));
          }
    for (auto &l : locs)
      for (long width : {0L, 1L, 25L, 200L})
        for (char fill : {' ', '0', '*', '\0'})
          for (long prec : {0L, 6L, 40L})
            for (auto mask : {B::goodbit, B::eofbit | B::failbit | B::badbit}) {
              Format f;
              f.flags = B::hex | B::showbase | B::boolalpha;
              f.loc = l.cpp;
              f.width = width;
              f.fill = fill;
              f.precision = prec;
              f.mask = mask;
              if (!th && width > 1 && fill != '*')
                continue;
              all(c, f, size_t(prec), size_t(width), mc::str("stream locale ", l.name, ", width ", width, ", fill ", int(fill), ", precision ", prec, ", mask ", int(mask)));
            }
    for (int mask = 0; mask < 8; ++mask)
      for (size_t before : {0, 1, 2, 9, 10, 63, 64, 65, 127, 128, 1000, 4096, 8191, 8192, 70000})
        for (size_t after : {0, 1, 10, 128, 9000}) {
          Format f;
          f.flags = B::skipws | B::dec;
          f.mask = B::iostate(mask);
          all(c, f, before, after, mc::str("exception mask ", mask));
        }
  }
  // 4. several arrays in one stream
  for (size_t i = 0; i < cases.size(); ++i)
    for (size_t j = 0; j < cases.size(); ++j)
      for (size_t k = 0; k < cases.size(); ++k)
        for (int mask = 0; mask < 8; ++mask)
          mc::one([&] { return mc::str("in one stream with exception mask ", mask, ": ", cases[i].name, ", ", cases[j].name, ", ", cases[k].name); },
                  [&] {
                    try {
                      std::stringstream s;
                      s.exceptions(B::iostate(mask));
                      for (size_t x : {i, j, k})
                        cases[x].save(s);
                      if (s.str() != cases[i].file + cases[j].file + cases[k].file)
                        mc::fail("the bytes differ");
                      for (size_t x : {i, j, k})
                        if (cases[x].load(s) != cases[x].shown)
                          mc::fail("a tensor differs");
                      mc::outcome(cases[i].name + cases[j].name);
                    } catch (const std::exception &e) {
                      mc::fail(std::string("throws ") + e.what());
                    }
                  });
  // 5. failing loads: refused under every mask, nothing else changed
  for (auto &c : cases)
    for (size_t n = 0; n < c.file.size(); ++n) {
      if (!th && n > 160 && n % 61)
        continue;
      for (int mask = 0; mask < 8; ++mask)
        for (size_t li : {size_t(0), size_t(1), size_t(14)})
          mc::one([&] { return mc::str(c.name, " cut to ", n, ", exception mask ", mask, ", stream locale ", locs[li].name); },
                  [&] {
                    Format f;
                    f.flags = B::hex | B::left;
                    f.width = 9;
                    f.fill = '#';
                    f.loc = locs[li].cpp;
                    f.mask = B::iostate(mask);
                    std::istringstream in(c.file.substr(0, n));
                    f.set(in);
                    if (outcome([&] { return c.load(in); }) != "!")
                      mc::fail("load() of a truncated file succeeds");
                    f.check(in, "a failing load()");
                    mc::outcome("refused " + c.name);
                    mc::nontrivial();
                  });
    }
}
