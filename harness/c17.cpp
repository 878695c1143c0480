// C17: reading under I/O faults gives the right data or an exception.
#include "common/iofault.hpp"
#include "common/any.hpp"
#include "common/tensors.hpp"
#include <fstream>
#include <unistd.h>

namespace {
using Method = npy::compression_method_t;
template <class T> npy::tensor<T> ten(const std::vector<size_t> &s, bool fo, size_t base) {
  npy::tensor<T> t(s, fo);
  ref::fill_distinct(t, base);
  return t;
}

// One step of a reading history: "" right, "threw", or what is wrong.
using Step = std::function<std::string()>;
std::string guarded(const Step &s) {
  try {
    return s();
  } catch (const std::exception &) {
    return "threw";
  }
}
struct Subject {
  std::string what;
  // starts a history: the steps share state that dies with them
  std::function<std::vector<std::pair<std::string, Step>>()> begin;
  bool reader = false; // every step works on one open reader (made by the first)
};

template <class T> void add_file(std::vector<Subject> &v, const std::vector<size_t> &s, bool fo, npy::endian_t e) {
  std::string file = ref::save_bytes(ten<T>(s, fo, 1), e);
  auto w = std::make_shared<any::Want>(any::want(file));
  std::string p = mc::scratch() + mc::str("/f", v.size(), ".npy");
  mc::write_all(p, file);
  auto judge = [=](const npy::tensor<T> &t) { return ref::judge_tensor(t, ref::elements<T>(w->d), w->d.dict.shape, w->d.dict.fortran); };
  auto info = [=](const npy::header_info &i) { return ref::judge_info<T>(i, w->d.order, w->d.dict.fortran, w->d.dict.shape, w->d.len); };
  std::string name = mc::str(ref::Type<T>::code, " ", mc::list(s), fo ? " column-major " : " ", ref::ename(e), " (", file.size(), " bytes)");
  v.push_back({"file of " + name, [=] {
                 std::vector<std::pair<std::string, Step>> st;
                 st.push_back({"load(path)", [=] { return judge(npy::load<npy::tensor<T>>(p)); }});
                 st.push_back({"peek(path)", [=] { return info(npy::peek(p)); }});
                 return st;
               }});
  v.push_back({"file of " + name, [=] {
                 std::vector<std::pair<std::string, Step>> st;
                 st.push_back({"peek(fs::path)", [=] { return info(npy::peek(std::filesystem::path(p))); }});
                 st.push_back({"from_file(path)", [=] { return judge(npy::tensor<T>::from_file(p)); }});
                 return st;
               }});
  v.push_back({"stream of " + name, [=] {
                 std::vector<std::pair<std::string, Step>> st;
                 auto in = std::make_shared<std::unique_ptr<std::ifstream>>();
                 st.push_back({"load(ifstream)", [=] {
                                 *in = std::make_unique<std::ifstream>(p, std::ios::binary);
                                 return judge(npy::load<npy::tensor<T>>(**in));
                               }});
                 st.push_back({"rewind and load(ifstream)", [=] {
                                 if (!*in || !(*in)->is_open())
                                   *in = std::make_unique<std::ifstream>(p, std::ios::binary);
                                 (*in)->clear();
                                 (*in)->seekg(0);
                                 return judge(npy::load<npy::tensor<T>>(**in));
                               }});
                 return st;
               }});
}
struct Archive {
  std::string what, path;
  std::vector<std::pair<std::string, any::Want>> entries;
};
Archive archive(int kind, Method m) {
  Archive a;
  npy::npzstringwriter w(m);
  auto put = [&](const std::string &n, const auto &t) {
    using T = typename std::decay_t<decltype(t)>::value_type;
    auto copy = t;
    w.write(n, copy);
    a.entries.push_back({n + ".npy", any::want(ref::save_bytes<T>(t, ref::LE))});
  };
  if (kind >= 1)
    put("a", ten<std::int32_t>({2, 3}, false, 0));
  if (kind >= 2)
    put("strings", ten<std::wstring>({4}, true, 2));
  if (kind >= 3)
    put("long", ten<double>({3000}, false, 2));
  if (kind >= 3)
    put("b", ten<std::int8_t>({1}, false, 2));
  w.close();
  a.path = mc::scratch() + mc::str("/a", kind, m == Method::STORED, ".npz");
  mc::write_all(a.path, w.str());
  a.what = mc::str("archive ", kind, m == Method::STORED ? ", stored" : ", deflated", " (", w.str().size(), " bytes)");
  return a;
}
void add_archive(std::vector<Subject> &v, const Archive &a, std::vector<int> order) {
  auto arc = std::make_shared<Archive>(a);
  std::string seq;
  for (int i : order)
    seq += i < 100 ? arc->entries[size_t(i)].first[0] : char(std::toupper(arc->entries[size_t(i - 100)].first[0]));
  v.push_back({arc->what + " entries " + seq, [=] {
                 std::vector<std::pair<std::string, Step>> st;
                 auto r = std::make_shared<std::unique_ptr<npy::npzfilereader>>();
                 st.push_back({"open", [=] {
                                 *r = std::make_unique<npy::npzfilereader>(arc->path);
                                 std::vector<std::string> k;
                                 for (auto &e : arc->entries)
                                   k.push_back(e.first);
                                 std::sort(k.begin(), k.end());
                                 return (*r)->keys() == k ? std::string() : "keys are " + mc::list((*r)->keys());
                               }});
                 for (int i : order) {
                   const auto &e = arc->entries[size_t(i % 100)];
                   if (i < 100)
                     st.push_back({"read " + e.first, [=] { return *r ? any::judge(**r, e.first, e.second, false) : std::string("threw"); }});
                   else
                     st.push_back({"peek " + e.first, [=] {
                                     if (!*r)
                                       return std::string("threw");
                                     auto i = (*r)->peek(e.first);
                                     const auto &d = e.second.d;
                                     std::string res = "no such type";
                                     ref::each_type([&](auto tag) {
                                       using T = typename decltype(tag)::type;
                                       if (std::is_same_v<T, std::wstring> ? d.code == "U" : d.code == ref::Type<T>::code)
                                         res = ref::judge_info<T>(i, d.order, d.dict.fortran, d.dict.shape, d.len);
                                     });
                                     return res;
                                   }});
                 }
                 return st;
               },
               true});
}

void check(const Subject &s, const std::vector<iof::Fault> &plan, const std::vector<iof::Call> &calls) {
  auto steps = s.begin();
  std::vector<std::string> got(steps.size());
  iof::arm(plan);
  for (size_t i = 0; i < steps.size(); ++i)
    got[i] = guarded(steps[i].second);
  auto rep = iof::disarm();
  std::string sum;
  for (size_t i = 0; i < steps.size(); ++i) {
    if (got[i] != "threw" && !got[i].empty())
      mc::fail(steps[i].first + " returned wrong data: " + got[i]);
    if (got[i] == "threw" && !rep.failed)
      mc::fail(mc::str(steps[i].first, " fails although no call failed (", rep.transparent, " were short or interrupted)"));
    sum += got[i].empty() ? '+' : '-';
    mc::count(got[i].empty() ? "steps answered" : "steps refused");
  }
  if (rep.failed || rep.transparent)
    mc::nontrivial();
  // the fault is gone: the same requests succeed, in the same state
  bool opened = !s.reader || got[0].empty();
  for (size_t i = s.reader && opened ? 1 : 0; i < steps.size(); ++i) {
    std::string w = guarded(steps[i].second);
    if (!w.empty())
      mc::fail(mc::str(steps[i].first, w == "threw" ? " fails" : " gives wrong data: " + w, " although the fault is gone (first: ", sum, ")"));
  }
  mc::outcome(s.what + sum + mc::str(calls.size() == rep.calls.size()));
}

// A stream buffer which serves the bytes in pieces, and fails at a position.
struct Buf : std::streambuf {
  enum Fail { NONE, END, THROW, THROW_OTHER };
  std::string bytes;
  size_t piece, at, pos = 0;
  Fail how;
  bool own_xsgetn;
  std::string chunk;
  Buf(const std::string &b, size_t piece_, Fail h, size_t at_, bool own) : bytes(b), piece(piece_), at(at_), how(h), own_xsgetn(own) {}
  int_type underflow() override {
    if (how != NONE && pos >= at) {
      if (how == THROW)
        throw std::runtime_error("device failure");
      if (how == THROW_OTHER)
        throw 42;
      return traits_type::eof();
    }
    size_t n = std::min(piece, bytes.size() - pos);
    if (how != NONE)
      n = std::min(n, at - pos);
    if (!n)
      return traits_type::eof();
    chunk = bytes.substr(pos, n);
    pos += n;
    setg(chunk.data(), chunk.data(), chunk.data() + n);
    return traits_type::to_int_type(*gptr());
  }
};
template <class T> void streams(const std::vector<size_t> &s, bool fo, npy::endian_t e) {
  std::string file = ref::save_bytes(ten<T>(s, fo, 1), e);
  auto d = ref::decode(file);
  size_t header = file.size() - ref::product(s) * (std::is_same_v<T, std::wstring> ? 4 * d.len : ref::Type<T>::size);
  std::string what = mc::str(ref::Type<T>::code, " ", mc::list(s), fo ? " column-major " : " ", ref::ename(e), " (", file.size(), " bytes)");
  for (size_t piece : {size_t(1), size_t(2), size_t(3), size_t(7), size_t(10), size_t(64), size_t(127), size_t(1000), file.size()})
    for (int how = 0; how <= 3; ++how)
      for (size_t at = 0; at <= (how ? file.size() : 0); ++at)
        for (int mask = 0; mask < (how ? 3 : 2); ++mask) {
          if (how && piece != 1 && piece != 7 && piece != file.size())
            continue;
          if (how && at > 400 && at + 300 < file.size() && at % 53)
            continue;
          mc::one([&] {
            static const char *hn[] = {"", "ends", "throws an exception", "throws an int"};
            return mc::str("stream of ", what, " in pieces of ", piece, how ? mc::str(", which ", hn[how], " at ", at) : std::string(), ", exception mask ", mask);
          },
                  [&] {
                    auto go = [&](bool peek, bool data) {
                      Buf b(file, piece, Buf::Fail(how), at, false);
                      std::istream in(&b);
                      if (mask)
                        in.exceptions(mask == 1 ? std::ios::badbit : std::ios::badbit | std::ios::failbit);
                      bool complete = !how || at >= (peek ? header : file.size());
                      std::string w;
                      try {
                        if (peek)
                          w = ref::judge_info<T>(npy::peek(in), d.order, fo, s, d.len);
                        if (data && !(peek && how)) // after a successful peek() the data follows
                          w = w.empty() && !peek ? ref::judge_tensor(npy::load<npy::tensor<T>>(in), ref::elements<T>(d), s, fo) : w;
                      } catch (const std::exception &) {
                        w = "threw";
                      } catch (int) {
                        w = "threw";
                      }
                      mc::outcome(mc::str(what, peek, how, w.empty()));
                      if (w == "threw" && complete)
                        mc::fail(std::string(peek ? "peek" : "load") + " fails although every byte can be read");
                      if (w.empty() && !complete)
                        mc::fail(std::string(peek ? "peek" : "load") + " succeeds although bytes are missing");
                      if (!w.empty() && w != "threw")
                        mc::fail(std::string(peek ? "peek" : "load") + ": " + w);
                    };
                    go(true, false);
                    go(false, true);
                    if (how)
                      mc::nontrivial();
                  });
        }
}
} // namespace

void explore() {
  const bool th = mc::thorough();
  std::vector<Subject> v;
  add_file<std::int32_t>(v, {2, 3}, false, ref::LE);
  add_file<double>(v, {}, false, ref::BE);
  add_file<std::uint8_t>(v, {0}, false, ref::LE);
  add_file<double>(v, {3000}, true, ref::BE);
  add_file<std::wstring>(v, {700}, false, ref::LE);
  add_file<std::complex<float>>(v, {9, 100}, true, ref::BE);
  add_file<npy::boolean>(v, {9000}, false, ref::LE);
  add_file<std::int8_t>(v, {8191 - 128}, false, ref::LE);
  add_file<std::int8_t>(v, {8192 - 128}, false, ref::LE);
  for (auto m : {Method::STORED, Method::DEFLATED}) {
    add_archive(v, archive(0, m), {});
    add_archive(v, archive(1, m), {0, 100, 0});
    add_archive(v, archive(2, m), {1, 0, 101, 1});
    auto a = archive(3, m);
    add_archive(v, a, {2, 3, 0});
    add_archive(v, a, {0, 1, 2, 3});
    add_archive(v, a, {3, 102, 2, 1});
  }
  for (auto &s : v) {
    // the calls made without a fault
    auto steps = s.begin();
    iof::arm({});
    for (auto &st : steps)
      guarded(st.second);
    auto calls = iof::disarm().calls;
    steps.clear();
    mc::count("calls intercepted", mc::shard() == 0 ? calls.size() : 0);
    for (auto &plan : iof::plans(calls, calls.size() <= (th ? 70u : 36u)))
      mc::one([&] { return s.what + ": " + iof::text(plan, calls); }, [&] { check(s, plan, calls); });
    for (auto &plan : iof::cuts(calls, th ? 4000 : 520, th))
      mc::one([&] { return s.what + ": " + iof::text(plan, calls); }, [&] { check(s, plan, calls); });
  }
  streams<std::int32_t>({2, 3}, false, ref::LE);
  streams<std::wstring>({5}, true, ref::BE);
  streams<std::complex<double>>({70}, false, ref::BE);
  streams<npy::boolean>({3, 2}, true, ref::LE);
  streams<std::int16_t>({}, false, ref::LE);
  streams<std::uint64_t>({0}, false, ref::LE);
  if (th)
    ref::each_type([&](auto tag) { streams<typename decltype(tag)::type>({200}, false, ref::BE); });
}
