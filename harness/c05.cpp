// C05: a truncated NPY file is never returned as a complete tensor.
#include "common/tensors.hpp"
#include "common/zipref.hpp"
#include <set>

template <class T> static void prefixes(const std::string &what, const std::string &file, const std::vector<T> &v, const space::Shape &s, bool fo, bool outside, const std::set<size_t> *cuts = nullptr) {
  const size_t hs = file.size() - ref::body(v, '<', ref::max_len(v)).size();
  for (size_t n = 0; n <= file.size(); ++n) {
    if (cuts && !cuts->count(n))
      continue;
    mc::one([&] { return mc::str(what, " cut to ", n, " of ", file.size(), " bytes"); },
            [&] {
              std::string cut = file.substr(0, n);
              auto judge = [&](const char *route, const std::function<npy::tensor<T>()> &load) {
                npy::tensor<T> t({0});
                auto r = mc::attempt([&] { t = load(); });
                if (n < file.size() && !r.threw)
                  mc::fail(std::string(route) + " returned a tensor of shape " + mc::list(t.shape()));
                if (n == file.size()) {
                  if (r.threw)
                    mc::fail(std::string(route) + " refuses the complete file: " + r.what);
                  std::string w = ref::judge_tensor(t, v, s, fo);
                  if (!w.empty())
                    mc::fail(std::string(route) + ": " + w);
                }
              };
              std::istringstream in(cut);
              judge("stream", [&] { return npy::load<npy::tensor<T>>(in); });
              auto judge_peek = [&](const char *route, const std::function<void()> &peek) {
                auto r = mc::attempt(peek);
                if (n < hs && !r.threw)
                  mc::fail(std::string(route) + " accepted a header that is cut short");
                if (n >= hs && r.threw)
                  mc::fail(std::string(route) + " refused a complete header: " + r.what);
              };
              judge_peek("peek(stream)", [&] {
                std::istringstream p(cut);
                npy::peek(p);
              });
              if (outside) {
                std::string p = mc::scratch() + "/a.npy";
                mc::write_all(p, cut);
                judge("file", [&] { return npy::load<npy::tensor<T>>(p); });
                judge("from_file", [&] { return npy::tensor<T>::from_file(p); });
                judge_peek("peek(path)", [&] { npy::peek(p); });
                for (int m = 0; m <= (s == space::Shape{3} || n + 1 >= file.size() || n + 1 == hs ? 8 : 0); m += 8) {
                  zref::Out e;
                  e.name = "a.npy";
                  e.bytes = cut;
                  e.method = m;
                  std::string z = zref::write({e});
                  npy::npzstringreader r(z);
                  judge("archive", [&] { return r.read<npy::tensor<T>>("a"); });
                  judge_peek("archive peek", [&] { r.peek("a.npy"); });
                  std::string zp = mc::scratch() + "/a.npz";
                  mc::write_all(zp, z);
                  npy::npzfilereader fr(zp);
                  judge("archive file", [&] { return fr.read<T, npy::tensor>("a.npy"); });
                }
              }
              mc::outcome(mc::str(n < hs, n == file.size(), what));
            });
  }
}

// Large files: cut at the ends, and around every place that is a multiple of a power of two (from
// the start of the file, from the start and from the end of the data)
template <class T> static void large(size_t n, bool fo, char order, bool outside, size_t step) {
  std::vector<T> v;
  for (size_t i = 0; i < n; ++i)
    v.push_back(ref::nth<T>(i % 50 + 3));
  char o = ref::Type<T>::size == 1 ? '|' : order;
  const std::string file = ref::encode(v, {n}, o, fo);
  const size_t size = file.size(), data = size - ref::body(v, '<', ref::max_len(v)).size();
  std::set<size_t> cuts{size};
  auto cut = [&](size_t at) {
    for (size_t d = 0; d < 3; ++d)
      if (at + d >= 1 && at + d - 1 <= size)
        cuts.insert(at + d - 1);
  };
  for (size_t d = 0; d < 40; ++d)
    cuts.insert(size - d);
  for (size_t k = 1; k < size; k *= 2)
    cut(k), cut(data + k), cut(size - k), cut(data + k + (size - data - k) / 2), cut(data + k * 3);
  for (size_t k = step; k < size; k += step)
    cut(k), cut(data + k), cut(size - k);
  prefixes<T>(mc::str(ref::Type<T>::name, " ", o, " large, ", size, " bytes"), file, v, {n}, fo, outside, &cuts);
}

template <class T> static void check(const space::Shape &s, bool fo, char order, const ref::Layout &l, bool outside) {
  std::vector<T> v;
  size_t n = ref::product(s);
  for (size_t i = 0; i < n; ++i)
    v.push_back(ref::nth<T>(i + 3));
  char o = ref::Type<T>::size == 1 ? '|' : order;
  prefixes<T>(mc::str(ref::Type<T>::name, " ", o, fo ? " F " : " C ", mc::list(s), " v", l.version), ref::encode(v, s, o, fo, l), v, s, fo, outside);
}

void explore() {
  const bool th = mc::thorough();
  ref::each_type([&](auto tag) {
    using T = typename decltype(tag)::type;
    for (int ver = 1; ver <= 2; ++ver)
      for (char o : {'<', '>'})
        for (bool fo : {false, true}) {
          ref::Layout l;
          l.version = ver;
          for (const space::Shape &s : {space::Shape{}, {1}, {3}, {2, 3}, {5, 2, 2}, {17}})
            check<T>(s, fo, o, l, s.size() < 2 || th);
          if (ver == 1)
            check<T>({0}, fo, o, l, true);
        }
    const size_t one = ref::Type<T>::size ? ref::Type<T>::size : 40;
    for (size_t bytes : {70000, 300000, 1200000})
      for (char o : {'<', '>'})
        large<T>(bytes / one, o == '>', o, bytes == 70000 && o == '<', size_t(bytes < 100000 ? 8192 : th ? 8192 : bytes < 1000000 ? 65536 : 262144));
    // larger than any stream buffer: cut points in a grid and around the block sizes
    if (th) {
      ref::Layout l;
      check<T>({3000}, false, '<', l, false);
      check<T>({3000}, true, '>', l, false);
    }
  });
  ref::Layout l;
  l.extra_pad = 1000; // long header
  check<float>({2}, false, '<', l, true);
  check<std::int16_t>({1030}, false, '>', {}, false);
  check<std::complex<double>>({300}, false, '<', {}, false);
  check<std::wstring>({100}, true, '>', {}, false);
  check<std::uint8_t>({9000}, false, '|', {}, true);
  // zero data bytes at the end of the file must not be confused with missing ones
  ref::each_numeric([&](auto tag) {
    using T = typename decltype(tag)::type;
    for (char o : {'<', '>'}) {
      std::vector<T> v(4, T{});
      char oo = ref::Type<T>::size == 1 ? '|' : o;
      prefixes<T>(mc::str(ref::Type<T>::name, o, " zeros"), ref::encode(v, {4}, oo, false), v, {4}, false, true);
      // all-ones data: the value an end-of-file marker turns into
      std::vector<T> w(4);
      memset(static_cast<void *>(w.data()), 0xFF, 4 * sizeof(T));
      prefixes<T>(mc::str(ref::Type<T>::name, o, " ones"), ref::encode(w, {4}, oo, false), w, {4}, false, true);
    }
  });
}
