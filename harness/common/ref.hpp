// Independent reference for the NPY format, written from the format's
// documentation: element alphabets, an encoder with free choice of layout, a
// strict decoder, and the glue to compare with npy::tensor.
#pragma once
#include "mc.hpp"
#include "npy/npy.h"
#include <complex>
#include <cstdint>
#include <limits>
#include <type_traits>

namespace ref {

inline constexpr npy::endian_t LE = npy::endian_t::LITTLE, BE = npy::endian_t::BIG, NE = npy::endian_t::NATIVE;

// ---------------------------------------------------------------- types ------
template <class T> struct Type;
#define REF_TYPE(T, NAME, CODE, SIZE, PART, ENUM)                              \
  template <> struct Type<T> {                                                 \
    static constexpr const char *name = NAME;                                  \
    static constexpr const char *code = CODE;                                  \
    static constexpr size_t size = SIZE, part = PART;                          \
    static constexpr npy::data_type_t dtype = npy::data_type_t::ENUM;          \
  };
REF_TYPE(std::int8_t, "int8", "i1", 1, 1, INT8)
REF_TYPE(std::uint8_t, "uint8", "u1", 1, 1, UINT8)
REF_TYPE(std::int16_t, "int16", "i2", 2, 2, INT16)
REF_TYPE(std::uint16_t, "uint16", "u2", 2, 2, UINT16)
REF_TYPE(std::int32_t, "int32", "i4", 4, 4, INT32)
REF_TYPE(std::uint32_t, "uint32", "u4", 4, 4, UINT32)
REF_TYPE(std::int64_t, "int64", "i8", 8, 8, INT64)
REF_TYPE(std::uint64_t, "uint64", "u8", 8, 8, UINT64)
REF_TYPE(float, "float32", "f4", 4, 4, FLOAT32)
REF_TYPE(double, "float64", "f8", 8, 8, FLOAT64)
REF_TYPE(std::complex<float>, "complex64", "c8", 8, 4, COMPLEX64)
REF_TYPE(std::complex<double>, "complex128", "c16", 16, 8, COMPLEX128)
REF_TYPE(npy::boolean, "bool", "b1", 1, 1, BOOL)
REF_TYPE(std::wstring, "unicode", "U", 0, 4, UNICODE_STRING)
#undef REF_TYPE

template <class T> struct Tag {
  using type = T;
};
// calls f(Tag<T>) for every element type
template <class F> void each_numeric(F &&f) {
  f(Tag<std::int8_t>());
  f(Tag<std::uint8_t>());
  f(Tag<std::int16_t>());
  f(Tag<std::uint16_t>());
  f(Tag<std::int32_t>());
  f(Tag<std::uint32_t>());
  f(Tag<std::int64_t>());
  f(Tag<std::uint64_t>());
  f(Tag<float>());
  f(Tag<double>());
  f(Tag<std::complex<float>>());
  f(Tag<std::complex<double>>());
  f(Tag<npy::boolean>());
}
template <class F> void each_type(F &&f) {
  each_numeric(f);
  f(Tag<std::wstring>());
}

// ------------------------------------------------------- element <-> bytes ---
// The bytes of one element in the given order ('<' or '>'); `len` is the number
// of code points per string.
inline void put_part(std::string &o, std::uint64_t v, size_t n, char order) {
  for (size_t i = 0; i < n; ++i)
    o += char((v >> (8 * (order == '<' ? i : n - 1 - i))) & 0xFF);
}
inline std::uint64_t get_part(const std::string &b, size_t at, size_t n, char order) {
  std::uint64_t v = 0;
  for (size_t i = 0; i < n; ++i)
    v |= std::uint64_t((unsigned char)b[at + i]) << (8 * (order == '<' ? i : n - 1 - i));
  return v;
}
template <class T> std::vector<std::uint64_t> parts(const T &v) {
  if constexpr (std::is_same_v<T, npy::boolean>)
    return {v.value};
  else if constexpr (std::is_same_v<T, std::wstring>) {
    std::vector<std::uint64_t> p;
    for (wchar_t c : v)
      p.push_back(std::uint32_t(c));
    return p;
  } else {
    constexpr size_t ps = Type<T>::part;
    std::vector<std::uint64_t> p(Type<T>::size / ps);
    static_assert(sizeof(T) == Type<T>::size);
    for (size_t i = 0; i < p.size(); ++i) {
      if constexpr (ps == 1) {
        std::uint8_t x;
        memcpy(&x, reinterpret_cast<const char *>(&v) + i, 1);
        p[i] = x;
      } else if constexpr (ps == 2) {
        std::uint16_t x;
        memcpy(&x, reinterpret_cast<const char *>(&v) + 2 * i, 2);
        p[i] = x;
      } else if constexpr (ps == 4) {
        std::uint32_t x;
        memcpy(&x, reinterpret_cast<const char *>(&v) + 4 * i, 4);
        p[i] = x;
      } else {
        std::uint64_t x;
        memcpy(&x, reinterpret_cast<const char *>(&v) + 8 * i, 8);
        p[i] = x;
      }
    }
    return p;
  }
}
template <class T> T from_parts(const std::vector<std::uint64_t> &p) {
  if constexpr (std::is_same_v<T, npy::boolean>) {
    T v;
    v.value = std::uint8_t(p[0]);
    return v;
  } else if constexpr (std::is_same_v<T, std::wstring>) {
    std::wstring s;
    for (auto c : p)
      s.push_back(wchar_t(std::uint32_t(c)));
    return s;
  } else {
    T v{};
    constexpr size_t ps = Type<T>::part;
    for (size_t i = 0; i < p.size(); ++i) {
      char *d = reinterpret_cast<char *>(&v) + ps * i;
      std::uint8_t a = std::uint8_t(p[i]);
      std::uint16_t b = std::uint16_t(p[i]);
      std::uint32_t c = std::uint32_t(p[i]);
      std::uint64_t e = p[i];
      if (ps == 1)
        memcpy(d, &a, 1);
      else if (ps == 2)
        memcpy(d, &b, 2);
      else if (ps == 4)
        memcpy(d, &c, 4);
      else
        memcpy(d, &e, 8);
    }
    return v;
  }
}
// strips the trailing NULs which the format cannot represent
template <class T> T canon(T v) {
  if constexpr (std::is_same_v<T, std::wstring>)
    while (!v.empty() && v.back() == 0)
      v.pop_back();
  return v;
}
template <class T> bool same(const T &a, const T &b) { return parts(a) == parts(b); }

// ------------------------------------------------------------- alphabets -----
template <class T> std::vector<T> alphabet() {
  std::vector<T> a;
  if constexpr (std::is_same_v<T, npy::boolean>) {
    a = {npy::boolean(false), npy::boolean(true)};
  } else if constexpr (std::is_same_v<T, std::wstring>) {
    a = {L"", L"a", L"\u00e9", L"ab", L"\U0001F600", std::wstring(L"a\0b", 3), L"\U0010FFFF", L" ", std::wstring(L"\0x", 2),
         L"\uFFFF\uFEFF", L"abcdefghij", L"\u0100\u0200", L"\n\r'", std::wstring(L"zz\0", 3)};
  } else if constexpr (std::is_same_v<T, float>) {
    for (std::uint64_t b : {0x00000000ull, 0x80000000ull, 0x3f800000ull, 0x01020304ull, 0x7f800000ull, 0xff800000ull, 0x7fc00000ull, 0x7fc12345ull,
                            0xffffffffull, 0x00000001ull, 0x0a0d1a09ull, 0xdeadbeefull})
      a.push_back(from_parts<T>({b}));
  } else if constexpr (std::is_same_v<T, double>) {
    for (std::uint64_t b : {0ull, 0x8000000000000000ull, 0x3ff0000000000000ull, 0x0102030405060708ull, 0x7ff0000000000000ull, 0xfff0000000000000ull,
                            0x7ff8000000000000ull, 0x7ff8123456789abcull, ~0ull, 1ull, 0x0a0d1a0900ff00ffull, 0xdeadbeefcafebabeull})
      a.push_back(from_parts<T>({b}));
  } else if constexpr (std::is_same_v<T, std::complex<float>> || std::is_same_v<T, std::complex<double>>) {
    using P = typename T::value_type;
    auto p = alphabet<P>();
    for (size_t i = 0; i < p.size(); ++i) {
      T v;
      memcpy(reinterpret_cast<char *>(&v), &p[i], sizeof(P));
      memcpy(reinterpret_cast<char *>(&v) + sizeof(P), &p[(i * 5 + 3) % p.size()], sizeof(P));
      a.push_back(v);
    }
  } else {
    const std::uint64_t mask = sizeof(T) == 8 ? ~0ull : (1ull << (8 * sizeof(T))) - 1;
    for (std::uint64_t b : {0ull, 1ull, ~0ull, 0x0102030405060708ull, 1ull << (8 * sizeof(T) - 1), (1ull << (8 * sizeof(T) - 1)) - 1, 0x80ull, 0x7full,
                            0x0a0d1a0a0d1a0a0dull, 0xff00ff00ff00ff00ull, 0xf1e2d3c4b5a69788ull, 0x1aull})
      a.push_back(from_parts<T>({b & mask}));
  }
  return a;
}
// deterministic filling: element i takes value (i*step+start) of the alphabet
template <class T> void fill(npy::tensor<T> &t, size_t start = 0, size_t step = 1) {
  static const std::vector<T> a = alphabet<T>();
  T *p = t.data();
  for (size_t i = 0; i < t.size(); ++i)
    p[i] = a[(start + i * step) % a.size()];
}
// every element different (as far as the type allows)
template <class T> T nth(size_t i) {
  if constexpr (std::is_same_v<T, npy::boolean>)
    return npy::boolean((i * 2654435761u >> 7 & 1) != 0);
  else if constexpr (std::is_same_v<T, std::wstring>) {
    std::wstring s;
    for (size_t k = i + 1; k; k /= 26)
      s.push_back(wchar_t(L'a' + k % 26));
    return s;
  } else {
    std::vector<std::uint64_t> p;
    const size_t ps = Type<T>::part;
    const std::uint64_t mask = ps == 8 ? ~0ull : (1ull << (8 * ps)) - 1;
    for (size_t k = 0; k < Type<T>::size / ps; ++k)
      p.push_back(((i + 1 + 17 * k) * 0x9E3779B97F4A7C15ull >> (64 - 8 * ps)) & mask);
    return from_parts<T>(p);
  }
}
template <class T> void fill_distinct(npy::tensor<T> &t, size_t base = 0) {
  T *p = t.data();
  for (size_t i = 0; i < t.size(); ++i)
    p[i] = nth<T>(base + i);
}

// -------------------------------------------------------------- encoder ------
struct Layout {
  int version = 1;             // 1 or 2
  std::string keys = "dfs";    // order of the keys
  std::string sep = ", ";      // between entries
  std::string colon = ": ";    // between key and value
  std::string open = "{", close = ", }";
  int align = 64;              // padding; 0 = none
  size_t extra_pad = 0;        // more padding (spaces)
  std::string shape_sep = ", ";
  std::string after_dict = ""; // text between dictionary and padding
};

inline size_t product(const std::vector<size_t> &s) {
  size_t n = 1;
  for (auto d : s)
    n *= d;
  return n;
}
inline std::string shape_str(const std::vector<size_t> &s, const std::string &sep = ", ") {
  std::string o = "(";
  for (size_t i = 0; i < s.size(); ++i)
    o += (i ? sep : "") + std::to_string(s[i]);
  if (s.size() == 1)
    o += ",";
  return o + ")";
}
inline std::string dict_str(const std::string &descr, bool fortran, const std::vector<size_t> &shape, const Layout &l = {}) {
  std::string o = l.open;
  bool first = true;
  for (char k : l.keys) {
    if (!first)
      o += l.sep;
    first = false;
    if (k == 'd')
      o += "'descr'" + l.colon + "'" + descr + "'";
    if (k == 'f')
      o += "'fortran_order'" + l.colon + (fortran ? "True" : "False");
    if (k == 's')
      o += "'shape'" + l.colon + shape_str(shape, l.shape_sep);
  }
  return o + l.close;
}
// magic + version + length + text
inline std::string raw_header(const std::string &text, int version = 1) {
  std::string o = "\x93NUMPY";
  o += char(version);
  o += char(0);
  put_part(o, text.size(), version == 1 ? 2 : 4, '<');
  return o + text;
}
inline std::string header(const std::string &descr, bool fortran, const std::vector<size_t> &shape, const Layout &l = {}) {
  std::string d = dict_str(descr, fortran, shape, l) + l.after_dict;
  size_t stat = l.version == 1 ? 10 : 12;
  std::string pad(l.extra_pad, ' ');
  if (l.align)
    while ((stat + d.size() + pad.size() + 1) % size_t(l.align))
      pad += ' ';
  return raw_header(d + pad + "\n", l.version);
}
template <class T> std::string descr(char order, size_t len = 0) {
  if constexpr (std::is_same_v<T, std::wstring>)
    return std::string(1, order) + "U" + std::to_string(len);
  else
    return std::string(1, Type<T>::size == 1 ? '|' : order) + Type<T>::code;
}
inline char order_of(npy::endian_t e) { return e == BE ? '>' : '<'; } // this host is little-endian

template <class T> size_t max_len(const std::vector<T> &v) {
  size_t m = 0;
  if constexpr (std::is_same_v<T, std::wstring>)
    for (auto &s : v)
      m = std::max(m, s.size());
  return m;
}
template <class T> std::string body(const std::vector<T> &v, char order, size_t len) {
  std::string o;
  for (auto &e : v) {
    auto p = parts(e);
    if constexpr (std::is_same_v<T, std::wstring>)
      p.resize(len);
    for (auto x : p)
      put_part(o, x, Type<T>::part, order);
  }
  return o;
}
// A complete file; elements in storage order.
template <class T>
std::string encode(const std::vector<T> &v, const std::vector<size_t> &shape, char order, bool fortran, const Layout &l = {}, size_t len = size_t(-1)) {
  if (len == size_t(-1))
    len = max_len(v);
  return header(descr<T>(order, len), fortran, shape, l) + body(v, order, len);
}

// -------------------------------------------------------------- decoder ------
// Parses the dictionary as a Python literal (only the value kinds NPY needs).
struct Dict {
  bool ok = false;
  std::string why;
  std::string descr;
  bool fortran = false;
  std::vector<size_t> shape;
};
class Literal {
  const std::string &s;
  size_t i = 0;
  [[noreturn]] void bad(const std::string &w) { throw std::string(w + " at offset " + std::to_string(i)); }
  void ws() {
    while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r' || s[i] == '\f'))
      ++i;
  }
  char peek() { return i < s.size() ? s[i] : '\0'; }
  void need(char c) {
    if (i >= s.size() || s[i] != c)
      bad(std::string("expected ") + c);
    ++i;
  }
  std::string string_() {
    char q = peek();
    if (q != '\'' && q != '"')
      bad("expected a string");
    ++i;
    std::string o;
    while (i < s.size() && s[i] != q) {
      if (s[i] == '\\' || s[i] == '\n' || s[i] == '\r' || (unsigned char)s[i] >= 127 || s[i] == 0)
        bad("unusual character in string");
      o += s[i++];
    }
    need(q);
    return o;
  }
  size_t number() {
    if (!isdigit((unsigned char)peek()))
      bad("expected a number");
    size_t v = 0, start = i;
    while (isdigit((unsigned char)peek())) {
      size_t d = size_t(s[i] - '0');
      if (v > (std::numeric_limits<size_t>::max() - d) / 10)
        bad("number too large");
      v = v * 10 + d;
      ++i;
    }
    if (s[start] == '0' && i - start > 1 && v != 0)
      bad("leading zero");
    return v;
  }
  std::vector<size_t> tuple() {
    std::vector<size_t> o;
    need('(');
    ws();
    bool comma = false;
    while (peek() != ')') {
      o.push_back(number());
      ws();
      comma = false;
      if (peek() == ',') {
        ++i;
        comma = true;
        ws();
      } else if (peek() != ')')
        bad("expected , or )");
    }
    need(')');
    if (o.size() == 1 && !comma)
      bad("(n) is not a tuple");
    return o;
  }

public:
  explicit Literal(const std::string &text) : s(text) {}
  Dict parse() {
    Dict d;
    try {
      int seen[3] = {0, 0, 0};
      ws();
      need('{');
      ws();
      while (peek() != '}') {
        std::string k = string_();
        ws();
        need(':');
        ws();
        if (k == "descr") {
          d.descr = string_();
          seen[0]++;
        } else if (k == "fortran_order") {
          if (s.compare(i, 4, "True") == 0) {
            d.fortran = true;
            i += 4;
          } else if (s.compare(i, 5, "False") == 0) {
            d.fortran = false;
            i += 5;
          } else
            bad("expected True or False");
          seen[1]++;
        } else if (k == "shape") {
          d.shape = tuple();
          seen[2]++;
        } else
          bad("unknown key " + k);
        ws();
        if (peek() == ',') {
          ++i;
          ws();
        } else if (peek() != '}')
          bad("expected , or }");
      }
      need('}');
      ws();
      if (i != s.size())
        bad("text after the dictionary");
      if (seen[0] != 1 || seen[1] != 1 || seen[2] != 1)
        bad("missing or repeated key");
      d.ok = true;
    } catch (const std::string &w) {
      d.why = w;
    }
    return d;
  }
};

struct Decoded {
  bool ok = false;
  std::string why;
  int version = 0;
  size_t header_size = 0; // offset of the data
  Dict dict;
  char order = '?';   // '<', '>' or '|'
  std::string code;   // "i4", "U", ...
  size_t item = 0;    // bytes per element
  size_t len = 0;     // code points per string
  std::string data;
  size_t consumed = 0;
};
// the code table, written independently of the library's
inline bool code_size(const std::string &c, size_t &size, size_t &part) {
  static const std::map<std::string, std::pair<size_t, size_t>> m = {{"i1", {1, 1}}, {"u1", {1, 1}}, {"b1", {1, 1}}, {"i2", {2, 2}}, {"u2", {2, 2}},
                                                                     {"i4", {4, 4}}, {"u4", {4, 4}}, {"i8", {8, 8}}, {"u8", {8, 8}}, {"f4", {4, 4}},
                                                                     {"f8", {8, 8}}, {"c8", {8, 4}}, {"c16", {16, 8}}};
  auto i = m.find(c);
  if (i == m.end())
    return false;
  size = i->second.first;
  part = i->second.second;
  return true;
}
// Strict decoding of what a writer produced.
inline Decoded decode(const std::string &b, size_t at = 0) {
  Decoded d;
  auto bad = [&](const std::string &w) {
    d.ok = false;
    d.why = w;
    return d;
  };
  if (b.size() < at + 10 || b.compare(at, 6, "\x93NUMPY") != 0)
    return bad("bad magic");
  d.version = (unsigned char)b[at + 6];
  if ((d.version != 1 && d.version != 2) || b[at + 7] != 0)
    return bad("bad version");
  size_t stat = d.version == 1 ? 10 : 12;
  if (b.size() < at + stat)
    return bad("short header");
  size_t hl = size_t(get_part(b, at + 8, d.version == 1 ? 2 : 4, '<'));
  if (b.size() - at - stat < hl)
    return bad("header length field exceeds the file");
  d.header_size = stat + hl;
  if (d.header_size % 64)
    return bad("data offset " + std::to_string(d.header_size) + " is not a multiple of 64");
  if (hl == 0 || b[at + stat + hl - 1] != '\n')
    return bad("header does not end in a newline");
  std::string text = b.substr(at + stat, hl);
  size_t e = text.rfind('}');
  if (e == std::string::npos)
    return bad("no dictionary");
  for (size_t i = e + 1; i + 1 < text.size(); ++i)
    if (text[i] != ' ')
      return bad("padding is not spaces");
  d.dict = Literal(text).parse();
  if (!d.dict.ok)
    return bad("dictionary: " + d.dict.why + ": " + text.substr(0, 120));
  const std::string &ds = d.dict.descr;
  if (ds.size() < 3)
    return bad("descr " + ds);
  d.order = ds[0];
  d.code = ds.substr(1);
  if (d.order != '<' && d.order != '>' && d.order != '|')
    return bad("descr order " + ds);
  if (d.code[0] == 'U') {
    for (size_t i = 1; i < d.code.size(); ++i)
      if (!isdigit((unsigned char)d.code[i]))
        return bad("descr " + ds);
    d.len = size_t(std::stoull(d.code.substr(1)));
    d.item = 4 * d.len;
    d.code = "U";
    if (d.order == '|')
      return bad("descr " + ds);
  } else {
    size_t part;
    if (!code_size(d.code, d.item, part))
      return bad("descr " + ds);
    if ((d.item == 1) != (d.order == '|'))
      return bad("descr order " + ds);
  }
  size_t n = product(d.dict.shape);
  if (d.item && n > (b.size() - at - d.header_size) / d.item)
    return bad("data is shorter than the shape");
  d.data = b.substr(at + d.header_size, n * d.item);
  d.consumed = d.header_size + n * d.item;
  d.ok = true;
  return d;
}
template <class T> std::vector<T> elements(const Decoded &d) {
  std::vector<T> v;
  size_t n = product(d.dict.shape), part = Type<T>::part;
  char o = d.order == '|' ? '<' : d.order;
  for (size_t i = 0; i < n; ++i) {
    std::vector<std::uint64_t> p;
    for (size_t k = 0; k < d.item / part; ++k)
      p.push_back(get_part(d.data, i * d.item + k * part, part, o));
    if constexpr (std::is_same_v<T, std::wstring>)
      while (!p.empty() && p.back() == 0)
        p.pop_back();
    v.push_back(from_parts<T>(p));
  }
  return v;
}

// Checks that `bytes` is exactly the NPY file of tensor `t` in byte order e.
template <class T>
std::string judge_file(const std::string &bytes, const std::vector<T> &v, const std::vector<size_t> &shape, bool fortran, npy::endian_t e, size_t at = 0,
                       bool whole = true, size_t *consumed = nullptr) {
  Decoded d = decode(bytes, at);
  if (!d.ok)
    return "not a valid NPY file: " + d.why;
  std::string want = descr<T>(order_of(e), max_len(v));
  if (d.dict.descr != want)
    return "descr is " + d.dict.descr + ", expected " + want;
  if (d.dict.fortran != fortran)
    return "fortran_order is wrong";
  if (d.dict.shape != shape)
    return "shape is " + mc::list(d.dict.shape) + ", expected " + mc::list(shape);
  if (whole && d.consumed != bytes.size() - at)
    return mc::str("file has ", bytes.size() - at - d.consumed, " extra bytes");
  auto got = elements<T>(d);
  if (got.size() != v.size())
    return "element count";
  for (size_t i = 0; i < v.size(); ++i)
    if (!same(got[i], canon(v[i])))
      return mc::str("element ", i, " differs");
  if (consumed)
    *consumed = d.consumed;
  return "";
}

// Compares a tensor with its expected description ("" = equal).
template <class T> std::string judge_tensor(const npy::tensor<T> &t, const std::vector<T> &v, const std::vector<size_t> &shape, bool fortran) {
  if (t.shape() != shape)
    return "shape is " + mc::list(t.shape()) + ", expected " + mc::list(shape);
  if (t.ndim() != shape.size())
    return "ndim is wrong";
  for (size_t i = 0; i < shape.size(); ++i)
    if (t.shape(int(i)) != shape[i])
      return "shape(i) is wrong";
  if (t.fortran_order() != fortran)
    return "memory order is wrong";
  if (t.dtype() != Type<T>::dtype)
    return "dtype is wrong";
  if (t.size() != v.size() || t.values().size() != v.size())
    return mc::str("size is ", t.size(), ", expected ", v.size());
  for (size_t i = 0; i < v.size(); ++i)
    if (!same(t.data()[i], canon(v[i])))
      return mc::str("element ", i, " differs");
  return "";
}
// A header_info against what a descriptor/order/shape says.
template <class T>
std::string judge_info(const npy::header_info &h, char order, bool fortran, const std::vector<size_t> &shape, size_t len) {
  if (h.dtype != Type<T>::dtype)
    return "peek: dtype is wrong";
  bool one = Type<T>::size == 1;
  npy::endian_t want = one ? NE : order == '>' ? BE : LE;
  if (!one && h.endianness != want)
    return "peek: endianness is wrong";
  if (h.fortran_order != fortran)
    return "peek: fortran_order is wrong";
  if (h.shape != shape)
    return "peek: shape is " + mc::list(h.shape) + ", expected " + mc::list(shape);
  if (std::is_same_v<T, std::wstring> && h.max_element_length != len)
    return mc::str("peek: max_element_length is ", h.max_element_length, ", expected ", len);
  return "";
}
template <class T> std::uint64_t tensor_hash(const npy::tensor<T> &t) {
  std::string k = mc::str(Type<T>::name, mc::list(t.shape()), t.fortran_order(), ":");
  for (size_t i = 0; i < t.size(); ++i) {
    for (auto p : parts(t.data()[i]))
      put_part(k, p, Type<T>::part, '<');
    k += '|';
  }
  return mc::hash(k);
}

template <class T> std::string save_bytes(const npy::tensor<T> &t, npy::endian_t e) {
  std::ostringstream o;
  npy::save(o, t, e);
  return o.str();
}
inline const char *ename(npy::endian_t e) { return e == BE ? "big" : e == LE ? "little" : "native"; }

// all shapes with `lo`..`hi` dimensions and extents 0..m
template <class F> void each_shape(size_t lo, size_t hi, size_t m, F &&f) {
  for (size_t nd = lo; nd <= hi; ++nd) {
    std::vector<size_t> s(nd, 0);
    while (true) {
      f(const_cast<const std::vector<size_t> &>(s));
      size_t k = 0;
      while (k < nd && s[nd - 1 - k] == m)
        s[nd - 1 - k++] = 0;
      if (k == nd)
        break;
      s[nd - 1 - k]++;
    }
  }
}
} // namespace ref
