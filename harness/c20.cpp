// C20: user-defined tensor types work exactly like the built-in one, and raw
// values can be transferred piecewise.
#include "common/any.hpp"
#include "common/tensors.hpp"
#include <deque>
#include <fstream>
#include <list>

#ifdef MC_CORE
void explore() {
  mc::one([] { return std::string("reduced program"); },
          [] {
            npy::tensor<int> t({1});
            std::ostringstream o;
            npy::save(o, t);
          });
}
#else
namespace {
using Shape = std::vector<size_t>;
using Method = npy::compression_method_t;

// What a load member was handed.
struct Seen {
  int calls = 0;
  npy::header_info info = npy::header_info(npy::data_type_t::INT8, ref::LE, false, {});
  long long at = -1;  // stream position
  std::string next;   // first bytes at that position
};
Seen seen;
void note(std::istream &in, const npy::header_info &info) {
  ++seen.calls;
  seen.info = info;
  auto g = in.tellg();
  seen.at = (long long)g;
  if (g != std::istream::pos_type(-1)) {
    char b[8] = {};
    in.read(b, 8);
    seen.next = std::string(b, size_t(in.gcount()));
    in.clear();
    in.seekg(g);
  }
}
// The documented members, and nothing else, on different kinds of storage.  Each
// type converts from and to a list of elements in the order of the file.
template <class T> std::string code(size_t len, npy::endian_t e) {
  return ref::descr<T>(ref::Type<T>::size == 1 ? '|' : ref::order_of(e), len);
}
// 1. a list of elements, transferred one by one; any shape, either order
template <class T> struct Elements {
  std::list<T> data;
  Shape dims;
  bool fo;
  static constexpr const char *kind = "list";
  static Elements make(const Shape &s, bool f, const std::vector<T> &v) { return Elements(s, f, std::list<T>(v.begin(), v.end())); }
  std::vector<T> flat() const { return std::vector<T>(data.begin(), data.end()); }
  size_t ndim() const { return dims.size(); }
  size_t shape(int i) const { return dims[size_t(i)]; }
  bool fortran_order() const { return fo; }
  std::string dtype(npy::endian_t e) const { return code<T>(ref::max_len(flat()), e); }
  void save(std::basic_ostream<char> &o, npy::endian_t e) const {
    for (auto &v : data)
      npy::write_values(o, &v, 1, e);
  }
  static Elements load(std::basic_istream<char> &in, const npy::header_info &info) {
    note(in, info);
    std::list<T> l;
    for (size_t n = ref::product(info.shape); n; --n) {
      l.emplace_back();
      npy::read_values(in, &l.back(), 1, info);
    }
    return Elements(info.shape, info.fortran_order, std::move(l));
  }

private:
  Elements(const Shape &s, bool f, std::list<T> &&l) : data(std::move(l)), dims(s), fo(f) {}
};
// 2. blocks, transferred block by block (and empty transfers between); moves only
template <class T> struct Blocks {
  std::unique_ptr<std::vector<std::vector<T>>> data = std::make_unique<std::vector<std::vector<T>>>();
  Shape dims;
  bool fo = false;
  static constexpr const char *kind = "blocks, move-only";
  Blocks() = default;
  Blocks(Blocks &&) = default;
  Blocks(const Blocks &) = delete;
  static Blocks make(const Shape &s, bool f, const std::vector<T> &v) {
    Blocks b;
    b.dims = s;
    b.fo = f;
    for (size_t i = 0, k = 1; i < v.size(); i += k++)
      b.data->emplace_back(v.begin() + long(i), v.begin() + long(std::min(v.size(), i + k)));
    return b;
  }
  std::vector<T> flat() const {
    std::vector<T> v;
    for (auto &b : *data)
      v.insert(v.end(), b.begin(), b.end());
    return v;
  }
  size_t ndim() const { return dims.size(); }
  size_t shape(size_t i) const { return dims.at(i); }
  bool fortran_order() const { return fo; }
  std::string dtype(npy::endian_t e) const { return code<T>(ref::max_len(flat()), e); }
  void save(std::ostream &o, npy::endian_t e) const {
    npy::write_values(o, static_cast<const T *>(nullptr), 0, e);
    for (auto &b : *data) {
      npy::write_values(o, b.data(), b.size(), e);
      npy::write_values(o, b.data(), 0, e);
    }
  }
  static Blocks load(std::istream &in, const npy::header_info &info) {
    note(in, info);
    Blocks b;
    b.dims = info.shape;
    b.fo = info.fortran_order;
    size_t n = ref::product(info.shape);
    npy::read_values(in, static_cast<T *>(nullptr), 0, info);
    for (size_t i = 0, k = 1; i < n; i += k++) {
      b.data->emplace_back(std::min(k, n - i));
      npy::read_values(in, b.data->back().data(), b.data->back().size(), info);
    }
    return b;
  }
};
// 3. raw bytes, encoded by itself; virtual functions, a base class
struct Base {
  virtual ~Base() = default;
  virtual void save(std::ostream &, npy::endian_t) const = 0;
  virtual size_t ndim() const = 0;
  virtual size_t shape(int) const = 0;
};
template <class T> struct Raw final : Base {
  std::vector<T> v;
  Shape dims;
  bool fo;
  static constexpr const char *kind = "raw bytes";
  Raw(const Shape &s, bool f, const std::vector<T> &x) : v(x), dims(s), fo(f) {}
  static Raw make(const Shape &s, bool f, const std::vector<T> &v) { return Raw(s, f, v); }
  std::vector<T> flat() const { return v; }
  size_t ndim() const override { return dims.size(); }
  size_t shape(int i) const override { return dims[size_t(i)]; }
  bool fortran_order() const { return fo; }
  std::string dtype(npy::endian_t e) const { return code<T>(ref::max_len(v), e); }
  void save(std::ostream &o, npy::endian_t e) const override {
    std::string b = ref::body(v, ref::order_of(e), ref::max_len(v));
    for (char c : b)
      o.put(c);
  }
  static Raw load(std::istream &in, const npy::header_info &info) {
    note(in, info);
    size_t n = ref::product(info.shape), each = std::is_same_v<T, std::wstring> ? 4 * info.max_element_length : ref::Type<T>::size;
    std::string b(n * each, 0);
    in.read(b.data(), std::streamsize(b.size()));
    if (size_t(in.gcount()) != b.size())
      throw std::runtime_error("too few bytes");
    ref::Decoded d;
    d.data = b;
    d.order = info.endianness == ref::BE ? '>' : '<';
    d.len = info.max_element_length;
    d.code = ref::Type<T>::code;
    d.dict.shape = info.shape;
    d.item = each;
    return Raw(info.shape, info.fortran_order, ref::elements<T>(d));
  }
};
// 4. the built-in type inside another class, everything delegated
template <class T> struct Wrapped {
  npy::tensor<T> t;
  static constexpr const char *kind = "wrapper";
  explicit Wrapped(npy::tensor<T> &&x) : t(std::move(x)) {}
  static Wrapped make(const Shape &s, bool f, const std::vector<T> &v) {
    npy::tensor<T> t(s, f);
    t.copy_from(v);
    return Wrapped(std::move(t));
  }
  std::vector<T> flat() const { return t.values(); }
  size_t ndim() const { return t.ndim(); }
  size_t shape(int i) const { return t.shape(i); }
  bool fortran_order() const { return t.fortran_order(); }
  std::string dtype(npy::endian_t e) const { return t.dtype(e); }
  void save(std::ostream &o, npy::endian_t e) const { t.save(o, e); }
  static Wrapped load(std::istream &in, const npy::header_info &info) {
    note(in, info);
    return Wrapped(npy::tensor<T>::load(in, info));
  }
};
// 5. derived from the built-in type
template <class T> struct Derived : npy::tensor<T> {
  static constexpr const char *kind = "derived";
  explicit Derived(npy::tensor<T> &&x) : npy::tensor<T>(std::move(x)) {}
  static Derived make(const Shape &s, bool f, const std::vector<T> &v) { return Derived(std::move(Wrapped<T>::make(s, f, v).t)); }
  std::vector<T> flat() const { return this->values(); }
  static Derived load(std::istream &in, const npy::header_info &info) {
    note(in, info);
    return Derived(npy::tensor<T>::load(in, info));
  }
};
// 6. a matrix with padded rows, of one fixed storage order, rank 2 only
template <class T, bool FO> struct MatrixOf {
  size_t rows, cols, pitch;
  std::vector<T> store;
  static constexpr const char *kind = FO ? "padded column-major matrix" : "padded row-major matrix";
  MatrixOf(size_t r, size_t c) : rows(r), cols(c), pitch((FO ? r : c) + 3), store(pitch * (FO ? c : r), ref::nth<T>(999)) {}
  static bool fits(const Shape &s, bool fo) { return s.size() == 2 && fo == FO; }
  static MatrixOf make(const Shape &s, bool, const std::vector<T> &v) {
    MatrixOf m(s[0], s[1]);
    size_t w = FO ? m.rows : m.cols;
    for (size_t i = 0; i < v.size(); ++i)
      m.store[i / w * m.pitch + i % w] = v[i];
    return m;
  }
  std::vector<T> flat() const {
    std::vector<T> v;
    for (size_t i = 0; i < (FO ? cols : rows); ++i)
      v.insert(v.end(), store.begin() + long(i * pitch), store.begin() + long(i * pitch + (FO ? rows : cols)));
    return v;
  }
  size_t ndim() const { return 2; }
  size_t shape(int i) const { return i ? cols : rows; }
  bool fortran_order() const { return FO; }
  std::string dtype(npy::endian_t e) const { return code<T>(ref::max_len(flat()), e); }
  void save(std::ostream &o, npy::endian_t e) const {
    for (size_t i = 0; i < (FO ? cols : rows); ++i)
      npy::write_values(o, store.data() + i * pitch, FO ? rows : cols, e);
  }
  static MatrixOf load(std::istream &in, const npy::header_info &info) {
    note(in, info);
    if (info.shape.size() != 2 || info.dtype != ref::Type<T>::dtype)
      throw std::invalid_argument("not such a matrix");
    MatrixOf m(info.shape[0], info.shape[1]);
    for (size_t i = 0; i < (FO ? m.cols : m.rows); ++i)
      npy::read_values(in, m.store.data() + i * m.pitch, FO ? m.rows : m.cols, info);
    return m;
  }
};
template <class T> using RowMatrix = MatrixOf<T, false>;
template <class T> using ColMatrix = MatrixOf<T, true>;
// 7. a scalar
template <class T> struct Scalar {
  T v;
  static constexpr const char *kind = "scalar";
  static bool fits(const Shape &s, bool fo) { return s.empty() && !fo; }
  static Scalar make(const Shape &, bool, const std::vector<T> &v) { return Scalar{v[0]}; }
  std::vector<T> flat() const { return {v}; }
  static size_t ndim() { return 0; }
  size_t shape(int) const { throw std::logic_error("harness: shape() of a scalar"); }
  constexpr bool fortran_order() const { return false; }
  std::string dtype(npy::endian_t e) const { return code<T>(ref::max_len(flat()), e); }
  void save(std::ostream &o, npy::endian_t e) const { npy::write_values(o, &v, 1, e); }
  static Scalar load(std::istream &in, const npy::header_info &info) {
    note(in, info);
    Scalar s;
    npy::read_values(in, &s.v, 1, info);
    return s;
  }
};
template <class C> auto fits(const Shape &s, bool fo, int) -> decltype(C::fits(s, fo)) { return C::fits(s, fo); }
template <class C> bool fits(const Shape &, bool, long) { return true; }

// --- one custom type against the built-in one ----------------------------------
template <class T> void header_check(const char *route, const Shape &s, bool fo, npy::endian_t e, size_t len, long long at, const std::string &body) {
  if (seen.calls != 1)
    mc::fail(mc::str(route, ": the load member was called ", seen.calls, " times"));
  const auto &i = seen.info;
  std::string w = ref::judge_info<T>(i, ref::Type<T>::size == 1 ? '|' : ref::order_of(e), fo, s, len);
  if (!w.empty())
    mc::fail(std::string(route) + ": the load member got a wrong header: " + w);
  if (at >= 0 && seen.at >= 0 && seen.at != at)
    mc::fail(mc::str(route, ": the load member's stream is at ", seen.at, ", the first element at ", at));
  if (seen.at >= 0 && seen.next.substr(0, body.size()) != body.substr(0, 8))
    mc::fail(std::string(route) + ": the load member's stream is not at the first element: " + mc::hex(seen.next));
}
template <template <class> class C, class T> void custom(const Shape &s, bool fo, npy::endian_t e, const std::vector<T> &v) {
  using Cust = C<T>;
  if (!fits<Cust>(s, fo, 0))
    return;
  mc::one([&] { return mc::str(Cust::kind, " of ", ref::Type<T>::name, " ", mc::list(s), fo ? " column-major " : " ", ref::ename(e)); },
          [&] {
            npy::tensor<T> builtin(s, fo);
            builtin.copy_from(v);
            const std::string want = ref::save_bytes(builtin, e);
            const size_t len = ref::max_len(v);
            const std::string body = ref::body(v, ref::order_of(e), len);
            const size_t hs = want.size() - body.size();
            const std::string p = mc::scratch() + "/c.npy", z = mc::scratch() + "/c.npz";
            Cust c = Cust::make(s, fo, v);
            const Cust &cc = c;
            auto same = [&](const char *route, const std::string &got) {
              if (got != want)
                mc::fail(mc::str(route, ": ", got.size(), " bytes, the built-in type gives ", want.size(), "; ", mc::hex(got, 100)));
            };
            auto stream = [&](const std::function<void(std::ostream &)> &f) {
              std::ostringstream o;
              f(o);
              return o.str();
            };
            same("save(stream)", stream([&](std::ostream &o) { npy::save(o, cc, e); }));
            same("save<C>(stream)", stream([&](std::ostream &o) { npy::save<Cust>(o, c, e); }));
            same("save<T, C>(stream)", stream([&](std::ostream &o) { npy::save<T, C>(o, c, e); }));
            auto file = [&](const char *route, const std::function<void()> &f) {
              mc::write_all(p, "");
              f();
              same(route, mc::read_all(p));
            };
            file("save(path)", [&] { npy::save(p, c, e); });
            file("save(path), const", [&] { npy::save(p, cc, e); });
            file("save<T, C>(path)", [&] { npy::save<T, C>(p, cc, e); });
            for (auto m : {Method::STORED, Method::DEFLATED}) {
              npy::npzstringwriter a(m, e), b(m, e);
              npy::npzfilewriter f(z, m, e);
              a.write("x", builtin);
              a.write("y", builtin);
              b.write("x", cc);
              b.write<Cust>("y", c);
              f.write("x", c);
              f.write<Cust>("y", cc);
              a.close();
              b.close();
              f.close();
              if (a.str() != b.str() || a.str() != mc::read_all(z))
                mc::fail("an archive of it differs from one of built-in tensors");
              // reading
              auto back = [&](const char *route, const std::function<Cust()> &load, long long at) {
                seen = {};
                Cust x = load();
                header_check<T>(route, s, fo, e, len, at, body);
                auto got = x.flat();
                if (got.size() != v.size())
                  mc::fail(mc::str(route, ": ", got.size(), " elements"));
                for (size_t i = 0; i < v.size(); ++i)
                  if (!ref::same(got[i], v[i]))
                    mc::fail(mc::str(route, ": element ", i, " differs"));
                if (x.ndim() != s.size() || x.fortran_order() != fo)
                  mc::fail(std::string(route) + ": rank or order differs");
                for (size_t i = 0; i < s.size(); ++i)
                  if (x.shape(int(i)) != s[i])
                    mc::fail(std::string(route) + ": shape differs");
              };
              npy::npzstringreader r(a.str());
              npy::npzfilereader fr(z);
              back("npzstringreader", [&] { return r.read<Cust>("x"); }, -1);
              back("npzstringreader<T, C>", [&] { return r.read<T, C>("y.npy"); }, -1);
              back("npzfilereader", [&] { return fr.read<Cust>("y"); }, -1);
              back("npzfilereader<T, C>", [&] { return fr.read<T, C>("x"); }, -1);
              if (m == Method::DEFLATED)
                continue;
              back("load(path)", [&] { return npy::load<Cust>(p); }, (long long)hs);
              back("load<T, C>(path)", [&] { return npy::load<T, C>(p); }, (long long)hs);
              for (size_t before : {size_t(0), size_t(1), size_t(100)}) { // also from the middle of a stream
                std::istringstream in(std::string(before, 'p') + want + "tail");
                in.seekg(long(before));
                back("load(stream)", [&] { return npy::load<Cust>(in); }, (long long)(before + hs));
                std::string rest(std::istreambuf_iterator<char>(in), {});
                if (rest != "tail")
                  mc::fail("load(stream) does not leave the stream after the last element");
              }
              // the built-in type reads what the custom type wrote, and the reverse was shown above
              std::istringstream in(want);
              auto t = npy::load<npy::tensor<T>>(in);
              std::string w = ref::judge_tensor(t, v, s, fo);
              if (!w.empty())
                mc::fail("the built-in type reads it differently: " + w);
            }
            mc::outcome(mc::str(Cust::kind, want));
          });
}

// --- members that throw -----------------------------------------------------------
struct Own : std::exception {
  const char *what() const noexcept override { return "own"; }
};
struct Throws { // in the member `where`, after `n` elements
  int where = 0;
  size_t n = 0;
  static int load_where;
  size_t ndim() const {
    if (where == 1)
      throw Own();
    return 1;
  }
  size_t shape(int) const {
    if (where == 2)
      throw Own();
    return 3;
  }
  bool fortran_order() const {
    if (where == 3)
      throw Own();
    return false;
  }
  std::string dtype(npy::endian_t) const {
    if (where == 4)
      throw Own();
    return "<i4";
  }
  void save(std::ostream &o, npy::endian_t e) const {
    std::int32_t v = 7;
    for (size_t i = 0; i < 3; ++i) {
      if (where == 5 && i == n)
        throw Own();
      npy::write_values(o, &v, 1, e);
    }
    if (where == 5 && n == 3)
      throw Own();
  }
  static Throws load(std::istream &in, const npy::header_info &info) {
    std::int32_t v[3];
    if (load_where == 0)
      throw Own();
    npy::read_values(in, v, 2, info);
    if (load_where == 1)
      throw Own();
    npy::read_values(in, v + 2, 1, info);
    return {};
  }
};
int Throws::load_where = 2;
bool own(const std::function<void()> &f) {
  try {
    f();
  } catch (const Own &) {
    return true;
  }
  return false;
}
void throwing() {
  npy::tensor<std::int32_t> good({3});
  std::fill(good.begin(), good.end(), 7);
  for (auto m : {Method::STORED, Method::DEFLATED})
    for (int where = 1; where <= 5; ++where)
      for (size_t n = 0; n <= (where == 5 ? 3u : 0u); ++n)
        for (int before = 0; before < 3; ++before)
          mc::one([&] { return mc::str("member ", where, " throws after ", n, " elements, ", before, " entries before, method ", int(m)); },
                  [&] {
                    Throws t;
                    t.where = where;
                    t.n = n;
                    std::string p = mc::scratch() + "/t.npz";
                    npy::npzstringwriter a(m), b(m);
                    npy::npzfilewriter f(p, m);
                    for (int i = 0; i < before; ++i)
                      for (auto w : {&a, &b})
                        w->write(mc::str("e", i), good);
                    for (int i = 0; i < before; ++i)
                      f.write(mc::str("e", i), good);
                    if (!own([&] { b.write("bad", t); }) || !own([&] { f.write("bad", t); }))
                      mc::fail("the exception of a member does not reach the caller of write()");
                    // as if it had not been tried
                    a.write("last", good);
                    b.write("last", good);
                    f.write("last", Throws());
                    a.close();
                    b.close();
                    f.close();
                    if (a.str() != b.str() || a.str() != mc::read_all(p))
                      mc::fail("a failed write() changes the archive");
                    std::ostringstream o;
                    if (!own([&] { npy::save(o, t); }) || !own([&] { npy::save(mc::scratch() + "/t.npy", t); }))
                      mc::fail("the exception of a member does not reach the caller of save()");
                    for (int lw = 0; lw < 2; ++lw) {
                      Throws::load_where = lw;
                      npy::npzstringreader r(a.str());
                      npy::npzfilereader fr(p);
                      std::string bytes = ref::save_bytes(good, ref::LE);
                      std::istringstream in(bytes);
                      mc::write_all(mc::scratch() + "/t.npy", bytes);
                      if (!own([&] { r.read<Throws>("last"); }) || !own([&] { fr.read<Throws>("last"); }) || !own([&] { npy::load<Throws>(in); }) || !own([&] { npy::load<Throws>(mc::scratch() + "/t.npy"); }))
                        mc::fail("the exception of the load member does not reach the caller");
                      Throws::load_where = 2;
                      // the readers are still usable
                      r.read<Throws>("last");
                      fr.read<Throws>("last");
                    }
                    mc::outcome(mc::str(where, n));
                    mc::nontrivial();
                  });
}

// --- piecewise transfer -------------------------------------------------------------
template <class T> void pieces(const std::vector<T> &v, npy::endian_t e, const std::vector<size_t> &cuts, const std::string &whole, size_t len, size_t prefix, size_t held) {
  // writing
  {
    std::ostringstream o;
    o << std::string(prefix, 'p');
    size_t at = 0;
    for (size_t c : cuts) {
      npy::write_values(o, v.data() + at, c - at, e);
      if (!o)
        mc::fail("writing a piece makes the stream fail");
      at = c;
    }
    npy::write_values(o, v.data() + at, v.size() - at, e);
    if (o.str() != std::string(prefix, 'p') + whole)
      mc::fail("writing in pieces gives other bytes");
  }
  // reading
  npy::header_info info(ref::Type<T>::dtype, e, false, {v.size()});
  info.max_element_length = len;
  std::istringstream in(std::string(prefix, 'p') + whole + "tail");
  in.seekg(long(prefix));
  std::vector<T> got(v.size() + 2, ref::nth<T>(500));
  // what the destination held before: strings of any length
  if constexpr (std::is_same_v<T, std::wstring>)
    for (size_t i = 0; held && i < got.size(); ++i)
      got[i] = std::wstring(held - 1 + (i % 3 == 1), L'h');
  std::vector<T> guard = got;
  size_t at = 0;
  for (size_t c : cuts) {
    npy::read_values(in, got.data() + 1 + at, c - at, info);
    at = c;
    if (size_t(in.tellg()) != prefix + at * (std::is_same_v<T, std::wstring> ? 4 * len : ref::Type<T>::size))
      mc::fail("after a piece the stream is not behind its last element");
  }
  npy::read_values(in, got.data() + 1 + at, v.size() - at, info);
  for (size_t i = 0; i < v.size(); ++i)
    if (!ref::same(got[i + 1], v[i]))
      mc::fail(mc::str("reading in pieces gives another element ", i));
  if (!ref::same(got[0], guard[0]) || !ref::same(got.back(), guard.back()))
    mc::fail("reading in pieces writes outside its piece");
  std::string rest(std::istreambuf_iterator<char>(in), {});
  if (rest != "tail")
    mc::fail("reading in pieces does not end at the last element");
}
template <class T> void splits(bool th) {
  const size_t n = th ? 14 : 9;
  std::vector<T> v;
  for (size_t i = 0; i < n; ++i)
    v.push_back(ref::nth<T>(i * 5 + 1));
  if constexpr (std::is_same_v<T, std::wstring>) // a piece's width is that of its longest string
    for (size_t i = 0; i < n; ++i)
      v[i] = std::wstring(7, wchar_t(0x10000 + i));
  for (auto e : {ref::LE, ref::BE, ref::NE}) {
    size_t len = ref::max_len(v);
    std::string whole = ref::body(v, ref::order_of(e), len);
    auto run = [&](const std::vector<T> &w, const std::vector<size_t> &cuts, const std::string &bytes, size_t prefix, size_t held = 0) {
      mc::one([&] { return mc::str(ref::Type<T>::name, " ", ref::ename(e), ": ", w.size(), " elements cut at ", mc::list(cuts), ", after ", prefix, " bytes, the destination holding ", held ? mc::str("strings of ", held - 1) : std::string("other values")); },
              [&] {
                pieces(w, e, cuts, bytes, len, prefix, held);
                mc::outcome(mc::str(ref::Type<T>::name, cuts.size(), w.size()));
                if (!cuts.empty())
                  mc::nontrivial();
              });
    };
    for (size_t prefix : {size_t(0), size_t(3)}) {
      run(v, {}, whole, prefix);
      for (size_t a = 0; a <= n; ++a) {
        run(v, {a}, whole, prefix);
        for (size_t b = a; b <= n; ++b) {
          run(v, {a, b}, whole, prefix);
          if (th)
            for (size_t c = b; c <= n; ++c)
              run(v, {a, b, c}, whole, prefix);
        }
      }
      std::vector<size_t> each;
      for (size_t i = 1; i < n; ++i)
        each.push_back(i);
      run(v, each, whole, prefix);
      if constexpr (std::is_same_v<T, std::wstring>)
        for (size_t held = 1; held <= (th ? 300 : 40); ++held) {
          run(v, {}, whole, prefix, held);
          run(v, each, whole, prefix, held);
          // shorter strings than the field
          std::vector<T> w = v;
          for (size_t i = 1; i < n; ++i)
            w[i].resize(i % 7);
          run(w, {}, ref::body(w, ref::order_of(e), len), prefix, held);
        }
    }
    // long buffers, cut near powers of two
    for (size_t big : {size_t(1000), size_t(5000)}) {
      std::vector<T> w;
      for (size_t i = 0; i < big; ++i)
        w.push_back(std::is_same_v<T, std::wstring> ? v[i % n] : ref::nth<T>(i));
      std::string bytes = ref::body(w, ref::order_of(e), len);
      for (size_t k = 1; k < big; k *= 2)
        for (size_t d : {size_t(0), size_t(1), size_t(2)}) {
          size_t a = k + d - 1;
          run(w, {a}, bytes, 0);
          for (size_t b : {a, a + 1, a + 512, a + 1024, big - 1, big})
            if (b >= a && b <= big)
              run(w, {a, b}, bytes, 5);
        }
    }
  }
}
template <class T> void kinds(bool th) {
  std::vector<Shape> shapes;
  ref::each_shape(0, th ? 4 : 3, 2, [&](const Shape &s) { shapes.push_back(s); });
  for (Shape s : {Shape{7}, {3, 5}, {5, 3}, {4, 4}, {1, 9}, {600}, {40, 50}})
    shapes.push_back(s);
  for (auto &s : shapes)
    for (bool fo : {false, true})
      for (auto e : {ref::LE, ref::BE, ref::NE}) {
        std::vector<T> v;
        for (size_t i = 0; i < ref::product(s); ++i)
          v.push_back(std::is_same_v<T, std::wstring> ? T() : ref::nth<T>(i * 3 + s.size()));
        if constexpr (std::is_same_v<T, std::wstring>)
          for (size_t i = 0; i < v.size(); ++i)
            v[i] = std::wstring(3, wchar_t(0x41 + i % 60));
        custom<Elements, T>(s, fo, e, v);
        custom<Blocks, T>(s, fo, e, v);
        custom<Raw, T>(s, fo, e, v);
        custom<Wrapped, T>(s, fo, e, v);
        custom<Derived, T>(s, fo, e, v);
        custom<RowMatrix, T>(s, fo, e, v);
        custom<ColMatrix, T>(s, fo, e, v);
        custom<Scalar, T>(s, fo, e, v);
      }
}
} // namespace

void c20_more(bool th);
#ifdef MC_PART
void c20_more(bool th) {
  kinds<std::uint16_t>(th);
  kinds<float>(th);
  kinds<std::complex<double>>(th);
  kinds<std::int64_t>(th);
}
#else
void explore() {
  const bool th = mc::thorough();
  kinds<std::int8_t>(th);
  kinds<double>(th);
  kinds<npy::boolean>(th);
  kinds<std::wstring>(th);
  c20_more(th);
  throwing();
  ref::each_type([&](auto tag) { splits<typename decltype(tag)::type>(th); });
}
#endif
#endif
