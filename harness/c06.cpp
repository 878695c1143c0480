// C06: descriptors map one-to-one to element types; a wrong type is refused.
#include "common/zipref.hpp"

namespace {
struct Row {
  npy::data_type_t dtype;
  std::string code;
  size_t size;
};
std::vector<Row> table() {
  std::vector<Row> t;
  ref::each_numeric([&](auto tag) {
    using T = typename decltype(tag)::type;
    t.push_back({ref::Type<T>::dtype, ref::Type<T>::code, ref::Type<T>::size});
  });
  return t;
}
std::map<std::string, std::pair<npy::data_type_t, npy::endian_t>> expected() {
  std::map<std::string, std::pair<npy::data_type_t, npy::endian_t>> m;
  for (auto &r : table())
    if (r.size == 1)
      m["|" + r.code] = {r.dtype, ref::NE};
    else {
      m["<" + r.code] = {r.dtype, ref::LE};
      m[">" + r.code] = {r.dtype, ref::BE};
    }
  return m;
}
void judge_descr(const std::string &d) {
  static const auto want = expected();
  std::pair<npy::data_type_t, npy::endian_t> got;
  auto r = mc::attempt([&] { got = npy::from_dtype(d); });
  auto w = want.find(d);
  if (w == want.end()) {
    if (!r.threw)
      mc::fail("from_dtype(" + mc::quote(d) + ") gives type " + std::to_string(int(got.first)));
  } else {
    if (r.threw)
      mc::fail("from_dtype(" + mc::quote(d) + ") throws");
    if (got.first != w->second.first)
      mc::fail("from_dtype(" + mc::quote(d) + ") gives type " + std::to_string(int(got.first)));
    if (w->second.second != ref::NE && got.second != w->second.second)
      mc::fail("from_dtype(" + mc::quote(d) + ") gives the wrong byte order");
    // there and back
    if (npy::to_dtype(got.first, got.second) != d)
      mc::fail("to_dtype(from_dtype(" + d + ")) is " + npy::to_dtype(got.first, got.second));
    mc::outcome(d);
    mc::count("supported descriptors");
  }
}

} // namespace

// Everything that depends on the requested type only: nine ways of loading.
struct Routes {
  std::string name;
  int type;
  std::function<void(const std::string &bytes, bool same)> all;
};
template <class B> static Routes routes(int type) {
  return {ref::Type<B>::name, type, [](const std::string &bytes, bool same) {
            int route = 0;
            auto judge = [&](const char *what, auto &&f) {
              bool threw = false;
              std::string why;
              try {
                f();
              } catch (const std::exception &e) {
                threw = true;
                why = e.what();
              }
              if (threw == same)
                mc::fail(std::string(what) + (same ? " throws for the right type: " + why : " returns a tensor of the wrong type"));
              mc::outcome(mc::str(++route, same));
            };
            judge("load(stream)", [&] {
              std::istringstream in(bytes);
              npy::load<npy::tensor<B>>(in);
            });
            std::string p = mc::scratch() + "/a.npy", z = mc::scratch() + "/a.npz";
            mc::write_all(p, bytes);
            judge("load(path)", [&] { npy::load<npy::tensor<B>>(p); });
            judge("load<T,TENSOR>(path)", [&] { npy::load<B, npy::tensor>(p); });
            judge("from_file", [&] { npy::tensor<B>::from_file(p); });
            zref::Out o;
            o.name = "a.npy";
            o.bytes = bytes;
            std::string zip = zref::write({o});
            mc::write_all(z, zip);
            npy::npzstringreader sr(zip);
            judge("npzstringreader::read<tensor<T>>", [&] { sr.read<npy::tensor<B>>("a"); });
            judge("npzstringreader::read<T, tensor>", [&] { sr.read<B, npy::tensor>("a.npy"); });
            npy::npzfilereader fr(z);
            judge("npzfilereader::read<tensor<T>>", [&] { fr.read<npy::tensor<B>>("a.npy"); });
            judge("npzfilereader::read<T, tensor>", [&] { fr.read<B, npy::tensor>("a"); });
            // a direct call of the loading member
            judge("tensor::load", [&] {
              std::istringstream in(bytes);
              auto info = npy::peek(in);
              npy::tensor<B>::load(in, info);
            });
          }};
}
// ... and on the stored type only
struct Stored {
  std::string name;
  int type;
  std::function<std::string(npy::endian_t, const std::vector<size_t> &, bool)> bytes;
};

void explore() {
  // 1. all 14 x 14 type pairs
  std::vector<Routes> to;
  std::vector<Stored> from;
  ref::each_type([&](auto tag) {
    using T = typename decltype(tag)::type;
    to.push_back(routes<T>(int(to.size())));
    from.push_back({ref::Type<T>::name, int(from.size()), [](npy::endian_t e, const std::vector<size_t> &s, bool fo) {
                      npy::tensor<T> t(s, fo);
                      ref::fill_distinct(t, 2);
                      return ref::save_bytes(t, e);
                    }});
  });
  for (auto &a : from)
    for (auto &b : to)
      for (auto e : {ref::LE, ref::BE})
        for (const auto &s : {std::vector<size_t>{}, {1}, {3}, {0}, {2, 2}, {16}, {0, 5}, {4, 3, 2}})
          for (bool fo : {false, true})
            mc::one([&] { return mc::str("array of ", a.name, " ", ref::ename(e), mc::list(s), fo ? " F" : " C", " read as ", b.name); },
                    [&] { b.all(a.bytes(e, s, fo), a.type == b.type); });
  // 2. to_dtype: right value for each pair, all different
  for (auto &r : table())
    for (auto e : {ref::NE, ref::LE, ref::BE})
      mc::one([&] { return mc::str("to_dtype(", r.code, ", ", ref::ename(e), ")"); },
              [&] {
                std::string want = std::string(1, r.size == 1 ? '|' : ref::order_of(e)) + r.code;
                if (npy::to_dtype(r.dtype, e) != want)
                  mc::fail("is " + npy::to_dtype(r.dtype, e));
                if (e == ref::NE && npy::to_dtype(r.dtype) != want)
                  mc::fail("default byte order differs");
                auto back = npy::from_dtype(want);
                if (back.first != r.dtype)
                  mc::fail("does not convert back");
              });
  ref::each_type([&](auto tag) {
    using T = typename decltype(tag)::type;
    for (auto e : {ref::NE, ref::LE, ref::BE})
      for (size_t n : {0, 1, 3})
        mc::one([&] { return mc::str("tensor<", ref::Type<T>::name, ">::dtype"); },
                [&] {
                  npy::tensor<T> t({n});
                  ref::fill(t, 3);
                  if (t.dtype() != ref::Type<T>::dtype)
                    mc::fail("dtype() is wrong");
                  std::vector<T> v(t.data(), t.data() + t.size());
                  std::string want = ref::descr<T>(ref::order_of(e), ref::max_len(v));
                  if (t.dtype(e) != want)
                    mc::fail("dtype(" + std::string(ref::ename(e)) + ") is " + t.dtype(e) + ", expected " + want);
                  const npy::tensor<T> &c = t;
                  if (c.dtype(e) != want || c.dtype() != ref::Type<T>::dtype)
                    mc::fail("const access differs");
                });
  });
  mc::one([] { return std::string("to_dtype of strings"); },
          [] {
            for (auto e : {ref::NE, ref::LE, ref::BE})
              if (!mc::attempt([&] { npy::to_dtype(npy::data_type_t::UNICODE_STRING, e); }).threw)
                mc::fail("has a fixed descriptor");
          });
  // 3. every byte string of length <= 3
  mc::one([] { return std::string("descriptors of length 0 and 1"); },
          [] {
            judge_descr("");
            for (int c = 0; c < 256; ++c)
              judge_descr(std::string(1, char(c)));
          });
  for (int a = 0; a < 256; ++a)
    for (int b = 0; b < 256; ++b)
      mc::one([&] { return mc::str("descriptors starting with bytes ", a, " ", b); },
              [&] {
                std::string d = {char(a), char(b)};
                judge_descr(d);
                d += ' ';
                for (int c = 0; c < 256; ++c) {
                  d[2] = char(c);
                  judge_descr(d);
                }
                mc::count("descriptor strings", 257);
              });
  // longer ones over the characters that descriptors are made of
  const std::string ab = "<>=|iufcbUSVOMm0123468 ";
  const size_t longest = mc::thorough() ? 6 : 4;
  for (size_t len = 4; len <= longest; ++len) {
    std::vector<size_t> ix(len - 2, 0);
    while (true) {
      mc::one([&] { std::string d; for (auto i : ix) d += ab[i]; return "descriptors starting with " + mc::quote(d); },
              [&] {
                std::string d;
                for (auto i : ix)
                  d += ab[i];
                d += "  ";
                for (char x : ab)
                  for (char y : ab) {
                    d[len - 2] = x;
                    d[len - 1] = y;
                    judge_descr(d);
                  }
                mc::count("descriptor strings", ab.size() * ab.size());
              });
      size_t k = 0;
      while (k < ix.size() && ++ix[ix.size() - 1 - k] == ab.size())
        ix[ix.size() - 1 - k++] = 0;
      if (k == ix.size())
        break;
    }
  }
  // near misses: every supported descriptor with one byte substituted, inserted or removed
  for (auto &kv : expected())
    mc::one([&] { return "near misses of " + kv.first; },
            [&] {
              const std::string &d = kv.first;
              for (size_t p = 0; p <= d.size(); ++p)
                for (int c = 0; c < 256; ++c) {
                  judge_descr(d.substr(0, p) + char(c) + d.substr(p));
                  if (p < d.size())
                    judge_descr(d.substr(0, p) + char(c) + d.substr(p + 1));
                }
              for (size_t p = 0; p < d.size(); ++p)
                judge_descr(d.substr(0, p) + d.substr(p + 1));
            });
}
