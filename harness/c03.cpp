// C03: every NPY file laid out as NumPy writes it is read as the format defines.
#include "common/huge.hpp"
#include "common/tensors.hpp"

template <class T>
static void judge(const std::string &file, const std::vector<T> &v, const space::Shape &s, bool fo, char order, size_t len, bool disk) {
  std::istringstream in(file);
  auto t = npy::load<npy::tensor<T>>(in);
  std::string w = ref::judge_tensor(t, v, s, fo);
  if (!w.empty())
    mc::fail("load: " + w);
  size_t hs = file.size() - ref::body(v, order == '|' ? '<' : order, len).size();
  // from the header alone, the file being complete or not
  for (const std::string &b : {file, file.substr(0, hs)}) {
    std::istringstream pin(b);
    w = ref::judge_info<T>(npy::peek(pin), order, fo, s, len);
    if (!w.empty())
      mc::fail(w);
    if (pin.tellg() != std::streampos(hs))
      mc::fail("peek read beyond the header");
  }
  if (disk) {
    std::string p = mc::scratch() + "/a.npy";
    mc::write_all(p, file);
    w = ref::judge_info<T>(npy::peek(p), order, fo, s, len);
    if (!w.empty())
      mc::fail("file: " + w);
    w = ref::judge_tensor(npy::load<npy::tensor<T>>(p), v, s, fo);
    if (!w.empty())
      mc::fail("load(path): " + w);
  }
  mc::outcome(ref::tensor_hash(t));
}

static std::string layout_name(const ref::Layout &l) {
  return mc::str("v", l.version, " keys=", l.keys, " sep=", mc::quote(l.sep), " colon=", mc::quote(l.colon), " open=", mc::quote(l.open), " close=", mc::quote(l.close),
                 " align=", l.align, " pad=", l.extra_pad, " shape_sep=", mc::quote(l.shape_sep));
}

template <class T>
static void member(const space::Shape &s, char order, bool fo, const ref::Layout &l, size_t width = 0, bool disk = true) {
  mc::one([&] { return mc::str(ref::Type<T>::name, " ", order, fo ? " F " : " C ", mc::list(s).substr(0, 60), " width=", width, " ", layout_name(l)); },
          [&] {
            size_t n = ref::product(s);
            std::vector<T> v;
            const auto a = ref::alphabet<T>();
            for (size_t i = 0; i < n; ++i)
              v.push_back(a[(i + s.size()) % a.size()]);
            if constexpr (std::is_same_v<T, npy::boolean>) // NumPy's own booleans are 0 or 1
              ;
            size_t len = std::max(width, ref::max_len(v));
            judge<T>(ref::encode(v, s, ref::Type<T>::size == 1 ? '|' : order, fo, l, len), v, s, fo, ref::Type<T>::size == 1 ? '|' : order, len, disk);
          });
}

template <class T> static void numpy_file(const std::string &dir, const std::vector<std::string> &f) {
  mc::one([&] { return "file written by NumPy: " + f[0] + " " + f[1] + " (" + f[3] + ")"; },
          [&] {
            std::string file = mc::read_all(dir + "/" + f[0]), raw = mc::read_all(dir + "/" + f[4]);
            space::Shape s;
            std::istringstream is(f[3]);
            for (std::string d; std::getline(is, d, ',');)
              s.push_back(std::stoull(d));
            size_t len = std::is_same_v<T, std::wstring> ? std::stoull(f[1].substr(2)) : 0;
            size_t item = std::is_same_v<T, std::wstring> ? 4 * len : ref::Type<T>::size;
            ref::Decoded d;
            d.dict.shape = s;
            d.order = '<';
            d.item = item;
            d.len = len;
            d.data = raw;
            judge<T>(file, ref::elements<T>(d), s, f[2] == "1", f[1][0], len, true);
            mc::count("files written by NumPy");
          });
}

void explore() {
  if (mc::option("part") == "huge")
    return huge::all(false, true);
  std::vector<std::string> perms = {"dfs", "dsf", "fds", "fsd", "sdf", "sfd"};
  const char *seps[] = {", ", ",", ",  ", ",\n", ", \t "}, *colons[] = {": ", ":", " : ", ":   ", " :\t"}, *opens[] = {"{", "{ ", "{\n  "},
             *closes[] = {", }", ",}", ",  }", ",\n}"}, *shape_seps[] = {", ", ",", ",  "};
  // 1. every layout of the dictionary text, on one array per type
  ref::each_type([&](auto tag) {
    using T = typename decltype(tag)::type;
    for (int v = 1; v <= 2; ++v)
      for (auto &p : perms)
        for (auto sep : seps)
          for (auto colon : colons)
            for (auto open : opens)
              for (auto close : closes) {
                ref::Layout l;
                l.version = v;
                l.keys = p;
                l.sep = sep;
                l.colon = colon;
                l.open = open;
                l.close = close;
                member<T>({2, 3}, v == 1 ? '>' : '<', p[0] == 'd', l, 0, false);
              }
  });
  // 2. every small shape, order, byte order, version and key order
  ref::each_type([&](auto tag) {
    using T = typename decltype(tag)::type;
    ref::each_shape(0, mc::thorough() ? 4 : 3, 3, [&](const space::Shape &s) {
      for (char o : {'<', '>'})
        for (bool fo : {false, true})
          for (auto &p : perms)
            for (int v = 1; v <= 2; ++v) {
              ref::Layout l;
              l.keys = p;
              l.version = v;
              if (p == "sfd")
                l.shape_sep = shape_seps[s.size() % 3];
              member<T>(s, o, fo, l, 0, s.size() == 2);
            }
    });
  });
  // 3. header length: every amount of padding, every alignment
  auto pads = [&](auto tag) {
    using T = typename decltype(tag)::type;
    for (int v = 1; v <= 2; ++v) {
      for (int al : {0, 16, 64})
        for (size_t p = 0; p <= (mc::thorough() ? 3000u : 300u); ++p) {
          ref::Layout l;
          l.version = v;
          l.align = al;
          l.extra_pad = p;
          member<T>({3}, '<', false, l, 7, false);
        }
      const size_t stat = 60;
      for (size_t edge : {size_t(256), size_t(512), size_t(4096), size_t(32768), size_t(65535), size_t(65536), size_t(131072)})
        for (size_t p = edge - stat - 20; p <= edge + 10; ++p) {
          ref::Layout l;
          l.version = v;
          l.align = 0;
          l.extra_pad = p;
          std::string h = ref::header(ref::descr<T>('<', 3), true, {2}, l);
          if (v == 1 && h.size() - 10 > 65535)
            continue;
          member<T>({2}, '<', true, l, 0, false);
        }
    }
    for (size_t p : {size_t(1) << 20, (size_t(1) << 24) - 20, size_t(1) << 24, (size_t(1) << 24) + 12345, size_t(3) << 24}) {
      ref::Layout l;
      l.version = 2;
      l.align = 64;
      l.extra_pad = p;
      member<T>({2}, '>', false, l, 0, false);
    }
  };
  pads(ref::Tag<std::int32_t>());
  pads(ref::Tag<std::wstring>());
  // 4. high ranks and long shapes (long dictionaries)
  for (size_t r = 1; r <= (mc::thorough() ? 200u : 64u); ++r)
    for (int v = 1; v <= 2; ++v) {
      ref::Layout l;
      l.version = v;
      member<std::uint16_t>(space::Shape(r, 1), '>', (r & 1) != 0, l);
      member<double>(space::Shape(r, 0), '<', (r & 1) != 0, l);
      space::Shape s(r, 1);
      s[r / 2] = 37;
      member<std::int8_t>(s, '|', (r & 1) != 0, l);
    }
  for (std::uint64_t d : {0ull, 9ull, 10ull, 99ull, 4294967295ull, 4294967296ull, 9999999999ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull})
    for (int v = 1; v <= 2; ++v) {
      ref::Layout l;
      l.version = v;
      member<float>({0, size_t(d)}, '<', false, l);
      member<float>({size_t(d), 0, 2}, '>', true, l);
    }
  // 5. element counts
  ref::each_type([&](auto tag) {
    using T = typename decltype(tag)::type;
    for (size_t n = 0; n <= 300; ++n)
      for (char o : {'<', '>'})
        member<T>({n}, o, false, {}, 0, n % 16 == 0);
    for (size_t n : {4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 200000})
      for (char o : {'<', '>'})
        member<T>({n}, o, true, {}, 0, true);
  });
  // 6. string widths beyond what the elements need
  for (size_t w = 0; w <= 200; ++w)
    for (char o : {'<', '>'})
      for (size_t n : {0, 1, 2, 5})
        member<std::wstring>({n}, o, false, {}, w);
  // 7. booleans stored by other tools may be any non-zero byte
  // 8. files written by NumPy itself
  std::string dir = mc::option("corpus");
  std::istringstream ix(mc::read_all(dir + "/index.txt"));
  for (std::string line; std::getline(ix, line);) {
    std::vector<std::string> f;
    std::istringstream is(line);
    for (std::string x; std::getline(is, x, '\t');)
      f.push_back(x);
    ref::each_type([&](auto tag) {
      using T = typename decltype(tag)::type;
      std::string c = f[1].substr(1);
      if (std::is_same_v<T, std::wstring> ? c[0] == 'U' : c == ref::Type<T>::code)
        numpy_file<T>(dir, f);
    });
  }
}
