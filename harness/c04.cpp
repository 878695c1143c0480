// C04: a malformed or unsupported NPY header is rejected, never misread.
//
// Oracle: a lenient reader of the dictionary literal.  Where it finds no meaning
// the library has to throw; where it finds one the library may throw or must
// report exactly that meaning.
#include "common/ref.hpp"

namespace {
using Shape = std::vector<size_t>;
struct Meaning {
  bool ok = false;
  std::string descr;
  bool fortran = false;
  Shape shape;
};

class Lenient {
  const std::string &s;
  size_t i = 0;
  struct No {};
  void ws() {
    while (i < s.size() && (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r')))
      ++i;
  }
  void need(char c) {
    if (i >= s.size() || s[i] != c)
      throw No();
    ++i;
  }
  bool at(char c) { return i < s.size() && s[i] == c; }
  std::string string_() {
    if (!at('\'') && !at('"'))
      throw No();
    char q = s[i++];
    std::string o;
    while (i < s.size() && s[i] != q)
      o += s[i++];
    need(q);
    return o;
  }

public:
  explicit Lenient(const std::string &t) : s(t) {}
  Meaning parse() {
    Meaning m;
    bool seen[3] = {false, false, false};
    try {
      ws();
      need('{');
      ws();
      while (!at('}')) {
        std::string k = string_();
        ws();
        need(':');
        ws();
        if (k == "descr") {
          m.descr = string_();
          seen[0] = true;
        } else if (k == "fortran_order") {
          if (s.compare(i, 4, "True") == 0)
            m.fortran = true, i += 4;
          else if (s.compare(i, 5, "False") == 0)
            m.fortran = false, i += 5;
          else
            throw No();
          seen[1] = true;
        } else if (k == "shape") {
          m.shape.clear();
          need('(');
          ws();
          while (!at(')')) {
            if (i >= s.size() || !isdigit((unsigned char)s[i]))
              throw No();
            size_t v = 0;
            for (; i < s.size() && isdigit((unsigned char)s[i]); ++i) {
              size_t d = size_t(s[i] - '0');
              if (v > (std::numeric_limits<size_t>::max() - d) / 10)
                throw No();
              v = v * 10 + d;
            }
            m.shape.push_back(v);
            ws();
            if (at(','))
              ++i;
            else if (!at(')'))
              throw No();
            ws();
          }
          need(')');
          seen[2] = true;
        } else
          throw No();
        ws();
        if (at(','))
          ++i;
        else if (!at('}'))
          throw No();
        ws();
      }
      m.ok = seen[0] && seen[1] && seen[2];
    } catch (No) {
    }
    return m;
  }
};

// meaning of a descriptor; len is only set for strings
struct DMeaning {
  bool ok = false;
  npy::data_type_t dtype;
  char order; // '<' '>' or '|' (any)
  std::uint64_t len = 0;
};
DMeaning descr_meaning(const std::string &d) {
  DMeaning m;
  if (d.size() < 2)
    return m;
  char o = d[0];
  if (o != '<' && o != '>' && o != '|' && o != '=')
    return m;
  std::string c = d.substr(1);
  m.order = o == '>' ? '>' : '<';
  if (c[0] == 'U') {
    if (c.size() < 2)
      return m;
    for (size_t i = 1; i < c.size(); ++i) {
      if (!isdigit((unsigned char)c[i]) || m.len > 1000000000000ull)
        return m;
      m.len = m.len * 10 + std::uint64_t(c[i] - '0');
    }
    m.dtype = npy::data_type_t::UNICODE_STRING;
    m.ok = true;
    return m;
  }
  ref::each_numeric([&](auto tag) {
    using T = typename decltype(tag)::type;
    if (c == ref::Type<T>::code) {
      bool one = ref::Type<T>::size == 1;
      // '|' on a multi-byte type has no byte order at all
      m.ok = one || o != '|';
      m.dtype = ref::Type<T>::dtype;
      if (one)
        m.order = '|';
    }
  });
  return m;
}

template <class T> void load_as(const std::string &file, const Meaning &m, const DMeaning &d, size_t data_at) {
  npy::tensor<T> t({0});
  std::istringstream in(file);
  auto r = mc::attempt([&] { t = npy::load<npy::tensor<T>>(in); });
  if (r.threw) {
    mc::outcome("load throws");
    return;
  }
  // it must be exactly what the bytes say
  unsigned __int128 n = 1;
  for (auto x : m.shape)
    n = n * x > (unsigned __int128)1 << 100 ? (unsigned __int128)1 << 100 : n * x;
  for (auto x : m.shape)
    if (x == 0)
      n = 0;
  size_t item = std::is_same_v<T, std::wstring> ? 4 * d.len : ref::Type<T>::size;
  if (n * item > file.size() - data_at)
    mc::fail("load returned a tensor although the data is shorter than the shape needs");
  if (t.shape() != m.shape || t.fortran_order() != m.fortran || t.size() != size_t(n) || t.dtype() != d.dtype)
    mc::fail("load returned a tensor of shape " + mc::list(t.shape()) + ", the header says " + mc::list(m.shape));
  ref::Decoded dec;
  dec.dict.shape = m.shape;
  dec.order = d.order;
  dec.item = item;
  dec.data = file.substr(data_at, size_t(n) * item);
  auto v = ref::elements<T>(dec);
  for (size_t i = 0; i < v.size(); ++i)
    if (!ref::same(v[i], t.data()[i]))
      mc::fail(mc::str("element ", i, " differs"));
  mc::outcome(ref::tensor_hash(t));
}

void judge(const std::string &file) {
  // what the file says
  bool possible = file.size() >= 10 && file.compare(0, 6, "\x93NUMPY") == 0 && (file[6] == 1 || file[6] == 2) && file[7] == 0;
  Meaning m;
  DMeaning d;
  size_t data_at = 0;
  if (possible) {
    size_t stat = file[6] == 1 ? 10 : 12;
    possible = file.size() >= stat;
    if (possible) {
      size_t hl = size_t(ref::get_part(file, 8, file[6] == 1 ? 2 : 4, '<'));
      data_at = stat + hl;
      possible = data_at <= file.size();
      if (possible) {
        m = Lenient(file.substr(stat, hl)).parse();
        possible = m.ok;
        if (possible) {
          d = descr_meaning(m.descr);
          possible = d.ok;
        }
      }
    }
  }
  npy::header_info h(npy::data_type_t::INT8, ref::NE, false, {});
  std::istringstream in(file);
  auto r = mc::attempt([&] { h = npy::peek(in); });
  if (r.threw) {
    mc::count("rejected");
    mc::outcome("peek throws");
    // whatever peek refuses, load refuses
    std::istringstream in2(file);
    auto r2 = mc::attempt([&] { npy::load<npy::tensor<float>>(in2); });
    if (!r2.threw)
      mc::fail("peek throws but load returns");
    return;
  }
  mc::count("accepted");
  if (!possible)
    mc::fail("accepted: dtype " + std::to_string(int(h.dtype)) + " shape " + mc::list(h.shape) + " len " + std::to_string(h.max_element_length));
  if (h.dtype != d.dtype)
    mc::fail("dtype is not what the descriptor " + mc::quote(m.descr) + " says");
  if (d.order != '|' && (h.endianness == ref::BE) != (d.order == '>'))
    mc::fail("endianness is not what the descriptor " + mc::quote(m.descr) + " says");
  if (h.dtype == npy::data_type_t::UNICODE_STRING ? h.max_element_length != d.len : h.max_element_length != 0)
    mc::fail(mc::str("max_element_length is ", h.max_element_length, ", descriptor ", mc::quote(m.descr)));
  if (h.fortran_order != m.fortran)
    mc::fail("fortran_order differs from the header");
  if (h.shape != m.shape)
    mc::fail("shape is " + mc::list(h.shape) + ", the header says " + mc::list(m.shape));
  mc::outcome(mc::str(int(h.dtype), int(h.endianness), h.fortran_order, mc::list(h.shape), h.max_element_length));
  ref::each_type([&](auto tag) {
    using T = typename decltype(tag)::type;
    if (ref::Type<T>::dtype == d.dtype)
      load_as<T>(file, m, d, data_at);
  });
}

void member(const std::string &what, const std::string &file) {
  mc::one([&] { return what + " " + mc::quote(file.substr(0, 200), 200); }, [&] { judge(file); });
}

std::string pad(std::string dict, int version, size_t want = 0) {
  size_t stat = version == 1 ? 10 : 12;
  while ((stat + dict.size() + 1) % 64 && dict.size() + 1 != want)
    dict += ' ';
  return ref::raw_header(dict + "\n", version);
}
std::string data(size_t n) {
  std::string s;
  for (size_t i = 0; i < n; ++i)
    s += char(i * 37 + 65);
  return s;
}
const std::string UDATA = [] {
  std::string s;
  for (int i = 0; i < 64; ++i)
    ref::put_part(s, std::uint64_t(97 + i), 4, '<');
  return s;
}();

struct Base {
  int version;
  std::vector<std::string> tokens;
  std::string body;
  std::string text() const {
    std::string s;
    for (auto &t : tokens)
      s += t;
    return s;
  }
};
Base base(int v, const std::string &d, bool f, const std::vector<std::string> &shape, const std::string &body, const std::string &keys = "dfs") {
  Base b;
  b.version = v;
  b.body = body;
  b.tokens = {"{"};
  for (char k : keys) {
    if (k == 'd')
      for (auto t : {std::string("'descr'"), std::string(": "), "'" + d + "'"})
        b.tokens.push_back(t);
    if (k == 'f')
      for (auto t : {"'fortran_order'", ": ", f ? "True" : "False"})
        b.tokens.push_back(t);
    if (k == 's') {
      b.tokens.push_back("'shape'");
      b.tokens.push_back(": ");
      b.tokens.push_back("(");
      for (size_t i = 0; i < shape.size(); ++i) {
        if (i)
          b.tokens.push_back(", ");
        b.tokens.push_back(shape[i]);
      }
      if (shape.size() == 1)
        b.tokens.push_back(",");
      b.tokens.push_back(")");
    }
    b.tokens.push_back(", ");
  }
  b.tokens.push_back("}");
  return b;
}
} // namespace

void explore() {
  const bool th = mc::thorough();
  mc::alloc_cap = size_t(64) << 20;
  std::vector<Base> bases = {
      base(1, "<f4", false, {"2", "3"}, data(24)), base(1, ">i2", true, {"3"}, data(6), "sfd"), base(2, "<U3", false, {"2"}, UDATA.substr(0, 24)),
      base(1, "|u1", false, {}, data(1)),          base(1, "<c16", true, {"1", "2"}, data(32)), base(1, "|b1", false, {"4"}, data(4)),
      base(2, ">f8", false, {"2"}, data(16)),      base(1, ">U2", true, {"1", "2"}, UDATA.substr(0, 16)), base(1, "<i8", false, {"0", "3"}, "", "fds"),
      base(1, "<u4", false, {"10"}, data(40)),     base(2, "|i1", true, {"2", "2", "2"}, data(8)), base(1, ">c8", false, {"1"}, data(8), "dsf")};
  const std::vector<std::string> alphabet = {
      "{", "}", "(", ")", ",", ":", " ", "\n", "'", "\"", "'descr'", "'fortran_order'", "'shape'", "'x'", "descr", "''", "True", "False", "true", "None", "TrueFalse", "0", "1", "2", "7",
      "-1", "+1", "2.0", "1e1", "0x2", "3L", "007", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "'<f4'", "'>i8'",
      "'|u1'", "'<U4'", "'U4'", "'<U'", "'<U-1'", "'<U4294967297'", "'<U99999999999999999999'", "'=f4'", "'f4'", "'<f16'", "'|S3'", "'<V8'", "'|O'", "[", "]", "b'<f4'",
      std::string("\0", 1), "\xff", "\\"};
  // 1. token edits: all single ones, and all pairs for some bases
  for (size_t bi = 0; bi < bases.size(); ++bi) {
    const Base &b = bases[bi];
    const size_t n = b.tokens.size(), A = alphabet.size();
    // edit e at position p: 0 delete, 1 duplicate, 2 swap with next, then A replacements and A insertions
    const size_t E = 3 + 2 * A;
    auto apply = [&](std::vector<std::string> t, size_t p, size_t e) {
      if (e == 0)
        t[p].clear();
      else if (e == 1)
        t[p] += t[p];
      else if (e == 2) {
        if (p + 1 < t.size())
          std::swap(t[p], t[p + 1]);
      } else if (e < 3 + A)
        t[p] = alphabet[e - 3];
      else
        t[p] += alphabet[e - 3 - A];
      return t;
    };
    auto build = [&](const std::vector<std::string> &t) {
      std::string s;
      for (auto &x : t)
        s += x;
      return pad(s, b.version) + b.body;
    };
    member("valid", build(b.tokens));
    for (size_t p = 0; p < n; ++p)
      for (size_t e = 0; e < E; ++e)
        if (mc::begin()) {
          std::string f = build(apply(b.tokens, p, e));
          mc::run([&] { return mc::str("token edit ", e, " at ", p, ": ", mc::quote(f, 160)); }, [&] { judge(f); });
        }
    if (th || bi < 2)
      for (size_t p = 0; p < n; ++p)
        for (size_t e = 0; e < 3 + A; ++e)
          for (size_t q = p + 1; q < n; ++q)
            for (size_t g = 0; g < 3 + A; ++g)
              if (mc::begin()) {
                std::string f = build(apply(apply(b.tokens, p, e), q, g));
                mc::run([&] { return mc::str("token edits ", e, "@", p, " ", g, "@", q, ": ", mc::quote(f, 160)); }, [&] { judge(f); });
              }
    // dictionary cut after any token, or after any character
    std::string full = b.text();
    for (size_t k = 0; k < full.size(); ++k) {
      member("dictionary cut", pad(full.substr(0, k), b.version) + b.body);
      member("dictionary cut, unpadded", ref::raw_header(full.substr(0, k), b.version) + b.body);
    }
  }
  // 2. byte edits of the whole header: substitutions, deletions, insertions
  for (const Base &b : bases) {
    std::string f = pad(b.text(), b.version) + b.body;
    size_t hs = f.size() - b.body.size();
    for (size_t p = 0; p < hs; ++p) {
      for (int c = 0; c < 256; ++c)
        if (f[p] != char(c) && mc::begin()) {
          std::string g = f;
          g[p] = char(c);
          mc::run([&] { return mc::str("byte ", p, " = ", c, " in ", mc::quote(f, 160)); }, [&] { judge(g); });
        }
      member(mc::str("byte ", p, " deleted"), f.substr(0, p) + f.substr(p + 1));
      for (char c : {' ', '\'', ',', '0', '9', '(', ')', '}', '\0', '\n', 'U', '-'})
        member(mc::str("byte inserted at ", p), f.substr(0, p) + c + f.substr(p));
    }
    if (th) { // pairs of substitutions within the dictionary from a small alphabet
      const std::string ab = " ',:{}()09<>|U-tT\n";
      size_t lo = b.version == 1 ? 10 : 12, hi = lo + b.text().size();
      for (size_t p = lo; p < hi; ++p)
        for (char c : ab)
          for (size_t q = p + 1; q < hi; ++q)
            for (char d : ab)
              if (mc::begin()) {
                std::string g = f;
                g[p] = c;
                g[q] = d;
                mc::run([&] { return mc::str("bytes ", p, ",", q, " in ", mc::quote(g, 160)); }, [&] { judge(g); });
              }
    }
  }
  // 3. every version pair, every length field
  for (int v = 0; v < 65536; ++v) {
    std::string f = pad(bases[0].text(), 1) + bases[0].body;
    f[6] = char(v & 255);
    f[7] = char(v >> 8);
    member("version", f);
  }
  for (size_t bi : {size_t(0), size_t(7)})
    for (int v = 0; v < 65536; ++v) {
      std::string f = pad(bases[bi].text(), 1) + bases[bi].body;
      f[8] = char(v & 255);
      f[9] = char(v >> 8);
      member("header length", f);
    }
  for (size_t at = 8; at < 12; ++at)
    for (int v = 0; v < 256; ++v) {
      std::string f = pad(bases[2].text(), 2) + bases[2].body;
      f[at] = char(v);
      member("header length v2", f);
      f = pad(bases[6].text(), 2) + bases[6].body + std::string(70000, ' ');
      f[at] = char(v);
      member("header length v2, long file", f);
    }
  // 4. descriptors
  {
    const std::string ab = th ? "<>=|iufcbUSVOmM01248 '6" : "<>=|iufcbUS01248 ";
    std::vector<size_t> ix;
    for (size_t len = 0; len <= 4; ++len) {
      ix.assign(len, 0);
      while (true) {
        if (mc::begin()) {
          std::string d;
          for (auto i : ix)
            d += ab[i];
          std::string f = pad("{'descr': '" + d + "', 'fortran_order': False, 'shape': (1,), }", 1) + UDATA;
          mc::run([&] { return "descriptor " + mc::quote(d); }, [&] { judge(f); });
        }
        size_t k = 0;
        while (k < len && ++ix[len - 1 - k] == ab.size())
          ix[len - 1 - k++] = 0;
        if (k == len)
          break;
      }
    }
    for (std::string d : {"<f16", "<c32", "<c1", "<c160", "<c016", "<i40", "<i04", "<U2147483647", "<U2147483648", "<U4294967295", "<U4294967296", "<U4294967297", "<U18446744073709551616",
                          "<U 3", "<U3 ", "<U+3", "<U3x", "<U3.0", "<U1073741824", "<U536870912", "<UU3", "<<f4", "[('a', '<f4')]", "|i1x", "<M8[s]", "<m8", "|S10", "|V3", "|O", "object", "float32", "<U0", "<U00"})
      for (const char *shape : {"(1,)", "(0,)", "(2, 3)", "()"})
        member("descriptor " + d, pad("{'descr': '" + d + "', 'fortran_order': False, 'shape': " + shape + ", }", 1) + UDATA);
  }
  // 5. extents whose product or size cannot be represented
  {
    const std::vector<std::string> ext = {"0", "1", "2", "3", "65536", "2147483648", "4294967295", "4294967296", "4294967297", "6074001000", "9223372036854775807", "9223372036854775808",
                                          "18446744073709551615", "18446744073709551616", "1152921504606846976", "2305843009213693952", "6148914691236517206", "3689348814741910324", "12297829382473034411", "-1", "-4294967296"};
    for (const char *d : {"|u1", "<i2", ">f4", "<f8", "<c16", "|b1", "<U1", "<U0", "<U1000000"})
      for (size_t a = 0; a < ext.size(); ++a) {
        member("extent", pad(mc::str("{'descr': '", d, "', 'fortran_order': False, 'shape': (", ext[a], ",), }"), 1) + UDATA);
        for (size_t b = 0; b < ext.size(); ++b) {
          member("extents", pad(mc::str("{'descr': '", d, "', 'fortran_order': True, 'shape': (", ext[a], ", ", ext[b], "), }"), 1) + UDATA);
          if (d[1] == 'u' || d[1] == 'c' || th)
            for (size_t c = 0; c < ext.size(); ++c)
              member("extents", pad(mc::str("{'descr': '", d, "', 'fortran_order': False, 'shape': (", ext[a], ", ", ext[b], ", ", ext[c], "), }"), 1) + UDATA);
        }
      }
  }
  // 6. whole files of at most a few bytes, and prefixes of the magic
  for (size_t len = 0; len <= 12; ++len)
    for (int c = 0; c < 256; ++c)
      member("tiny file", std::string("\x93NUMPY\x01\0v\0{", 11).substr(0, len) + std::string(1, char(c)));
}
