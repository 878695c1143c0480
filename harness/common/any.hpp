// Reading an entry of an archive and comparing it with the NPY file it must hold,
// whatever its element type.
#pragma once
#include "zipref.hpp"

namespace any {
struct Want {
  std::string npy; // complete NPY file
  ref::Decoded d;
};
inline Want want(const std::string &npy) {
  Want w;
  w.npy = npy;
  w.d = ref::decode(npy);
  if (!w.d.ok)
    throw std::logic_error("harness: the expected entry is not an NPY file: " + w.d.why);
  return w;
}
// "" = read correctly; "threw" = an exception; otherwise what is wrong
template <class R> std::string judge(R &r, const std::string &name, const Want &w, bool peek = true) {
  std::string res = "no such type";
  ref::each_type([&](auto tag) {
    using T = typename decltype(tag)::type;
    if (std::is_same_v<T, std::wstring> ? w.d.code != "U" : w.d.code != ref::Type<T>::code)
      return;
    try {
      res = "";
      npy::tensor<T> t = r.template read<npy::tensor<T>>(name);
      res = ref::judge_tensor(t, ref::elements<T>(w.d), w.d.dict.shape, w.d.dict.fortran);
      if (res.empty() && peek)
        res = ref::judge_info<T>(r.peek(name), w.d.order, w.d.dict.fortran, w.d.dict.shape, w.d.len);
    } catch (const std::exception &) {
      res = res.empty() ? "threw" : res;
    }
  });
  return res;
}
// A whole archive: exact = everything must be right, otherwise exceptions are fine, too.
inline void archive(const std::string &zip, std::vector<std::pair<std::string, Want>> entries, bool exact, const std::string &path = "", bool keys = true) {
  auto go = [&](auto open, const char *kind) {
    try {
      auto r = open();
      std::vector<std::string> k;
      for (auto &e : entries)
        k.push_back(e.first);
      std::sort(k.begin(), k.end());
      if (keys && r->keys() != k) {
        if (exact)
          mc::fail(std::string(kind) + ": keys are " + mc::list(r->keys()) + ", expected " + mc::list(k));
      }
      for (auto &e : entries) {
        if (!r->contains(e.first) && exact)
          mc::fail(std::string(kind) + ": " + e.first + " is not contained");
        std::string w = judge(*r, e.first, e.second);
        if (w == "threw" ? exact : !w.empty())
          mc::fail(std::string(kind) + ": entry " + mc::quote(e.first, 40) + ": " + w);
        // without the suffix
        if (e.first.size() > 4 && e.first.compare(e.first.size() - 4, 4, ".npy") == 0 && entries.size() < 20) {
          std::string s = e.first.substr(0, e.first.size() - 4);
          bool other = false;
          for (auto &x : entries)
            other = other || x.first == s;
          if (!other) {
            w = judge(*r, s, e.second, false);
            if (w == "threw" ? exact : !w.empty())
              mc::fail(std::string(kind) + ": entry " + mc::quote(s, 40) + " (without suffix): " + w);
          }
        }
        mc::outcome(mc::hash(e.second.npy) + (w == "threw"));
        mc::count(w == "threw" ? "entries refused" : "entries read");
      }
    } catch (const std::exception &x) {
      if (exact)
        mc::fail(std::string(kind) + ": the archive cannot be opened: " + x.what());
      mc::count("archives refused");
      mc::outcome(mc::str("refused", entries.size()));
    }
  };
  go([&] { return std::make_unique<npy::npzstringreader>(zip); }, "string reader");
  if (!path.empty()) {
    mc::write_all(path, zip);
    go([&] { return std::make_unique<npy::npzfilereader>(path); }, "file reader");
  }
}
} // namespace any
