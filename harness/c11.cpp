// C11: an archive reader's answers depend on the archive, not on earlier requests.
// Every sequence of requests up to a depth on one real reader; each answer must be
// the one a freshly opened reader gives, and the right one for intact entries.
#include "common/tensors.hpp"
#include "common/zipref.hpp"

namespace {
struct Entry {
  zref::Out out;
  bool intact = true;
  std::string truth;                               // answer of a read with the right type
  int type = 0;                                    // index of the right type
  std::function<void(std::string &zip)> damage;    // applied to the finished archive
};
struct Archive {
  std::string name, bytes;
  std::vector<Entry> entries;
  std::vector<std::string> keys; // sorted
};
template <class T> std::string show(const npy::tensor<T> &t) { return mc::str("tensor ", ref::tensor_hash(t), " ", t.size()); }
const int N_TYPES = 4;
template <class R> std::string read(R &r, const std::string &n, int type) {
  switch (type) {
  case 0:
    return show(r.template read<npy::tensor<std::int32_t>>(n));
  case 1:
    return show(r.template read<double, npy::tensor>(n));
  case 2:
    return show(r.template read<npy::tensor<std::wstring>>(n));
  default:
    return show(r.template read<npy::boolean, npy::tensor>(n));
  }
}
template <class T> Entry entry(const std::string &name, int type, const std::vector<size_t> &s, bool fo, int method, size_t start, npy::endian_t e = ref::LE) {
  Entry x;
  npy::tensor<T> t(s, fo);
  ref::fill(t, start);
  std::vector<T> v(t.data(), t.data() + t.size());
  for (auto &q : v)
    q = ref::canon(q);
  x.out.name = name;
  x.out.bytes = ref::encode(v, s, ref::order_of(e), fo);
  x.out.method = method;
  npy::tensor<T> c(s, fo);
  c.copy_from(v);
  x.truth = show(c);
  x.type = type;
  return x;
}
Archive build(const std::string &name, std::vector<Entry> es) {
  Archive a;
  a.name = name;
  std::vector<zref::Out> o;
  for (auto &e : es)
    o.push_back(e.out);
  a.bytes = zref::write(o);
  auto p = zref::parse(a.bytes);
  for (size_t i = 0; i < es.size(); ++i) {
    if (es[i].damage)
      es[i].damage(a.bytes);
    a.keys.push_back(es[i].out.name);
  }
  std::sort(a.keys.begin(), a.keys.end());
  a.entries = es;
  return a;
}
// position helpers for damage
size_t local_of(const std::string &zip, const std::string &name) { // of the local header
  for (size_t p = 0; (p = zip.find("PK\3\4", p)) != std::string::npos; ++p)
    if (zip.compare(p + 30, name.size(), name) == 0 && ref::get_part(zip, p + 26, 2, '<') == name.size())
      return p;
  throw std::logic_error("no local header");
}
size_t central_of(const std::string &zip, const std::string &name) {
  for (size_t p = 0; (p = zip.find("PK\1\2", p)) != std::string::npos; ++p)
    if (zip.compare(p + 46, name.size(), name) == 0 && ref::get_part(zip, p + 28, 2, '<') == name.size())
      return p;
  throw std::logic_error("no central header");
}
Entry damaged(Entry e, const std::function<void(std::string &, const std::string &)> &f) {
  e.intact = false;
  std::string n = e.out.name;
  e.damage = [=](std::string &z) { f(z, n); };
  return e;
}
void put(std::string &z, size_t at, std::uint64_t v, size_t n) {
  std::string b;
  ref::put_part(b, v, n, '<');
  z.replace(at, n, b);
}

std::vector<Archive> archives() {
  auto A = [](const std::string &n) { return entry<std::int32_t>(n, 0, {2, 3}, false, 0, 1); };
  auto B = [](const std::string &n) { return entry<double>(n, 1, {3, 2}, true, 8, 2, ref::BE); };
  auto C = [](const std::string &n) { return entry<std::wstring>(n, 2, {4}, false, 8, 3); };
  auto D = [](const std::string &n) { return entry<npy::boolean>(n, 3, {}, false, 0, 1); };
  std::vector<Archive> v;
  v.push_back(build("intact", {A("a.npy"), B("b.npy"), D("x"), A("x.npy"), C("d/e.npy")}));
  auto crc = [](std::string &z, const std::string &n) { z[local_of(z, n) + 30 + n.size() + 130] ^= 1; };
  auto sig = [](std::string &z, const std::string &n) { z[local_of(z, n) + 2] = 9; };
  auto other = [](std::string &z, const std::string &n) { z[local_of(z, n) + 30] = '?'; };
  auto off = [](std::string &z, const std::string &n) { put(z, central_of(z, n) + 42, z.size() + 1000, 4); };
  auto at_end = [](std::string &z, const std::string &n) { put(z, central_of(z, n) + 42, z.size() - 8, 4); };
  auto big = [](std::string &z, const std::string &n) {
    for (size_t p : {local_of(z, n) + 18, central_of(z, n) + 20})
      put(z, p, 3000000, 4);
  };
  auto huge = [](std::string &z, const std::string &n) {
    for (size_t p : {local_of(z, n) + 18, central_of(z, n) + 20})
      put(z, p, 0xF0000000, 4);
  };
  auto cut = [](std::string &z, const std::string &n) {
    for (size_t p : {local_of(z, n) + 18, central_of(z, n) + 20})
      put(z, p, 40, 4);
  };
  auto method = [](std::string &z, const std::string &n) {
    for (size_t p : {local_of(z, n) + 8, central_of(z, n) + 10})
      put(z, p, 12, 2);
  };
  auto broken = [](std::string &z, const std::string &n) { z[local_of(z, n) + 30 + n.size()] = 7; }; // reserved block type
  auto extra = [](std::string &z, const std::string &n) { put(z, local_of(z, n) + 28, 60000, 2); };
  Entry notnpy = damaged(D("t.npy"), nullptr);
  notnpy.damage = nullptr;
  notnpy.out.bytes = "hello";
  Entry none = notnpy;
  none.out.name = "u.npy";
  none.out.bytes = "";
  none.out.method = 8;
  Entry shortnpy = notnpy;
  shortnpy.out.name = "v.npy";
  shortnpy.out.bytes = A("").out.bytes.substr(0, 140);
  v.push_back(build("damaged 1", {A("a.npy"), damaged(A("crc.npy"), crc), B("b.npy"), damaged(A("off.npy"), off), damaged(C("cut.npy"), cut)}));
  v.push_back(build("damaged 2", {damaged(B("sig.npy"), sig), A("a.npy"), damaged(A("big.npy"), big), damaged(B("broken"), broken), B("b.npy")}));
  v.push_back(build("damaged 3", {notnpy, none, C("a.npy"), shortnpy, damaged(D("name.npy"), other), damaged(A("method.npy"), method), B("b.npy")}));
  v.push_back(build("damaged 4", {damaged(A("end.npy"), at_end), A("a.npy"), damaged(C("huge.npy"), huge), D("b.npy"), damaged(D("x.npy"), extra)}));
  v.push_back(build("one", {B("a.npy")}));
  v.push_back(build("none", {}));
  return v;
}

struct Request {
  std::string text;
  // 0 keys, 1 contains, 2 peek, 3 read, 4 close, 5 is_open
  int kind;
  std::string name;
  int type;
};
template <class R> std::string ask(R &r, const Request &q) {
  std::string a;
  auto res = mc::attempt([&] {
    switch (q.kind) {
    case 0:
      for (auto &k : r.keys())
        a += k + "|";
      break;
    case 1:
      a = r.contains(q.name) ? "yes" : "no";
      break;
    case 2: {
      auto h = r.peek(q.name);
      a = mc::str("header ", int(h.dtype), int(h.endianness), h.fortran_order, mc::list(h.shape), h.max_element_length);
      break;
    }
    case 3:
      a = read(r, q.name, q.type);
      break;
    case 4:
      if constexpr (std::is_same_v<R, npy::npzfilereader>)
        r.close();
      break;
    case 5:
      if constexpr (std::is_same_v<R, npy::npzfilereader>)
        a = r.is_open() ? "open" : "closed";
      break;
    }
  });
  return res.threw ? "exception" : a;
}
template <class R> std::unique_ptr<R> open(const Archive &a, int how) {
  if constexpr (std::is_same_v<R, npy::npzstringreader>) {
    if (how)
      return std::make_unique<R>(std::string(a.bytes));
    return std::make_unique<R>(a.bytes);
  } else {
    std::string p = mc::scratch() + "/" + a.name + ".npz";
    if (!mc::exists(p))
      mc::write_all(p, a.bytes);
    if (how == 0)
      return std::make_unique<R>(p);
    if (how == 1)
      return std::make_unique<R>(p.c_str());
    return std::make_unique<R>(std::filesystem::path(p));
  }
}
std::vector<Request> requests(const Archive &a, bool all, bool file) {
  std::vector<Request> q;
  q.push_back({"keys", 0, "", 0});
  std::vector<std::string> names;
  for (auto &e : a.entries) {
    names.push_back(e.out.name);
    if (all && e.out.name.size() > 4 && e.out.name.substr(e.out.name.size() - 4) == ".npy")
      names.push_back(e.out.name.substr(0, e.out.name.size() - 4));
  }
  names.push_back("missing");
  if (all)
    names.push_back("");
  for (auto &n : names) {
    int right = 0;
    for (auto &e : a.entries)
      if (e.out.name == n || e.out.name == n + ".npy") {
        right = e.type;
        if (e.out.name == n)
          break;
      }
    q.push_back({"read " + n, 3, n, right});
    if (all) {
      q.push_back({"contains " + n, 1, n, 0});
      q.push_back({"peek " + n, 2, n, 0});
      q.push_back({"read " + n + " as a wrong type", 3, n, (right + 1) % N_TYPES});
    }
  }
  if (!all) {
    q.push_back({"peek a", 2, "a", 0});
    q.push_back({"read a.npy as a wrong type", 3, "a.npy", 3});
    q.push_back({"contains a", 1, "a", 0});
  }
  if (file) {
    q.push_back({"close", 4, "", 0});
    q.push_back({"is_open", 5, "", 0});
  }
  return q;
}

template <class R> void sequences(const Archive &a, bool all, size_t depth, int how) {
  const bool file = std::is_same_v<R, npy::npzfilereader>;
  const auto qs = requests(a, all, file);
  std::vector<std::string> fresh(qs.size());
  bool have = false;
  auto prepare = [&] { // answers of fresh readers, checked against the truth
    if (have)
      return;
    have = true;
    for (size_t i = 0; i < qs.size(); ++i) {
      auto r = open<R>(a, how);
      const auto &q = qs[i];
      fresh[i] = ask(*r, q);
      const Entry *e = nullptr;
      for (auto &x : a.entries)
        if (x.out.name == q.name)
          e = &x;
      bool exact = e;
      if (!e)
        for (auto &x : a.entries)
          if (x.out.name == q.name + ".npy")
            e = &x;
      std::string want = "?";
      if (q.kind == 0) {
        want = "";
        for (auto &k : a.keys)
          want += k + "|";
      }
      if (q.kind == 1)
        want = exact ? "yes" : "no";
      if (q.kind == 5)
        want = "open";
      if (q.kind == 3)
        want = e && e->intact && e->type == q.type ? e->truth : "exception";
      if (q.kind == 2 && !e)
        want = "exception";
      if (q.kind == 2 && e && e->intact && fresh[i] == "exception")
        mc::fail("a fresh reader cannot " + q.text);
      if (q.kind == 3 && e && !e->intact && e->type == q.type && fresh[i] == e->truth)
        want = e->truth; // right although damaged
      if (want != "?" && fresh[i] != want)
        mc::fail("a fresh reader answers '" + fresh[i] + "' to '" + q.text + "', expected '" + want + "'");
    }
  };
  std::vector<size_t> seq;
  auto text = [&] {
    std::string s = mc::str(a.name, file ? " (file " : " (string ", how, "): ");
    for (auto i : seq)
      s += qs[i].text + "; ";
    return s;
  };
  std::function<void()> go = [&] {
    mc::one(text,
            [&] {
              prepare();
              auto r = open<R>(a, how);
              bool closed = false;
              std::string log;
              for (size_t k = 0; k < seq.size(); ++k) {
                const auto &q = qs[seq[k]];
                std::string got = ask(*r, q), want = fresh[seq[k]];
                if (q.kind == 4)
                  closed = true;
                if (closed && (q.kind == 2 || q.kind == 3))
                  want = "exception";
                if (closed && q.kind == 5)
                  want = "closed";
                if (got != want)
                  mc::fail(mc::str("request ", k + 1, " '", q.text, "' is answered '", got, "'; a fresh reader answers '", want, "'"));
                log += got + ";";
                mc::transitions();
                mc::state(mc::str(a.name, file, closed, seq[k], got));
              }
              mc::traces();
              mc::outcome(log);
            });
    if (seq.size() == depth)
      return;
    for (size_t i = 0; i < qs.size(); ++i) {
      seq.push_back(i);
      go();
      seq.pop_back();
    }
  };
  go();
}
} // namespace

void explore() {
  const bool th = mc::thorough();
  for (const auto &a : archives()) {
    sequences<npy::npzstringreader>(a, true, a.name == "intact" ? 2 : 2, 0);
    sequences<npy::npzfilereader>(a, true, 2, 0);
    sequences<npy::npzstringreader>(a, false, th ? 5 : 4, 1);
    sequences<npy::npzfilereader>(a, false, th ? 5 : 4, 1);
    sequences<npy::npzfilereader>(a, false, 2, 2);
    if (th) {
      sequences<npy::npzstringreader>(a, true, 3, 0);
      sequences<npy::npzfilereader>(a, true, 3, 0);
    }
  }
  // two readers of one archive (and of different archives) used alternately
  auto as = archives();
  for (size_t i = 0; i < as.size(); ++i)
    for (size_t j = 0; j < as.size(); ++j)
      mc::one([&] { return "readers of '" + as[i].name + "' and '" + as[j].name + "' used alternately"; },
              [&] {
                auto qi = requests(as[i], true, true), qj = requests(as[j], true, false);
                auto ri = open<npy::npzfilereader>(as[i], 0);
                auto rj = open<npy::npzstringreader>(as[j], 0);
                auto ri2 = open<npy::npzfilereader>(as[i], 2);
                size_t n = std::max(qi.size(), qj.size());
                for (size_t k = 0; k < n; ++k) {
                  const auto &a = qi[k % qi.size()], &b = qj[k % qj.size()];
                  if (a.kind == 4)
                    continue;
                  auto fi = open<npy::npzfilereader>(as[i], 0);
                  auto fj = open<npy::npzstringreader>(as[j], 0);
                  std::string x = ask(*ri, a), y = ask(*rj, b), z = ask(*ri2, a);
                  if (x != ask(*fi, a) || y != ask(*fj, b) || z != x)
                    mc::fail("'" + a.text + "' or '" + b.text + "' is answered differently");
                  mc::transitions(3);
                  mc::outcome(x + y);
                }
              });
}
