// C15: archives beyond the classic ZIP limits.
//  -DMC_LIMIT=n : the library was built with its ZIP64 switch-over lowered to n
//  option part=real : real multi-gigabyte files
#include "common/any.hpp"
#include "common/tensors.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

namespace {
using Method = npy::compression_method_t;
constexpr size_t GIB = size_t(1) << 30;

// contents that cannot (noise) or can (zeros) be compressed
npy::tensor<std::uint8_t> make(size_t n, bool noise, size_t seed = 0) {
  npy::tensor<std::uint8_t> t(std::vector<size_t>{n});
  std::uint64_t x = n * 77 + seed + 1;
  if (noise)
    for (auto &v : t) {
      x = x * 6364136223846793005ull + 1442695040888963407ull;
      v = std::uint8_t(x >> 56);
    }
  else if (n)
    *t.begin() = std::uint8_t(seed);
  return t;
}
struct Spec {
  std::string name;
  size_t n;
  bool noise;
};
size_t header_size(size_t n) { return ref::header("|u1", false, {n}).size(); }

// the archive is valid and holds exactly the entries
void judge(const std::string &zip, const std::vector<std::pair<std::string, std::string>> &want, Method m, const std::string &who) {
  auto a = zref::parse(zip);
  if (!a.ok)
    mc::fail(who + ": not a valid archive: " + a.why);
  if (a.entries.size() != want.size())
    mc::fail(mc::str(who, ": ", a.entries.size(), " entries, expected ", want.size()));
  for (size_t i = 0; i < want.size(); ++i) {
    auto &e = a.entries[i];
    if (e.name != want[i].first || e.bytes != want[i].second || e.method != int(m))
      mc::fail(mc::str(who, ": entry ", i, " (", mc::quote(e.name, 40), ") is not what was written"));
  }
  if (a.zip64_end)
    mc::count("archives with ZIP64 end records");
}
void write_and_judge(const std::vector<Spec> &specs, Method m, bool disk, bool read = true) {
  std::vector<std::pair<std::string, std::string>> want;
  npy::npzstringwriter w(m);
  std::string path = mc::scratch() + "/w.npz";
  std::unique_ptr<npy::npzfilewriter> fw;
  if (disk)
    fw = std::make_unique<npy::npzfilewriter>(path, m);
  for (size_t i = 0; i < specs.size(); ++i) {
    auto t = make(specs[i].n, specs[i].noise, i);
    want.push_back({specs[i].name, ref::encode(std::vector<std::uint8_t>(t.begin(), t.end()), {specs[i].n}, '|', false)});
    w.write(specs[i].name, t);
    if (disk)
      fw->write(specs[i].name, t);
  }
  w.close();
  std::string zip = w.str();
  judge(zip, want, m, "string writer");
  if (disk) {
    fw->close();
    if (mc::read_all(path) != zip)
      mc::fail("the file writer's archive differs from the string writer's");
  }
  mc::outcome(zip.substr(zip.size() > 300 ? zip.size() - 300 : 0));
  if (!read)
    return;
  std::vector<std::pair<std::string, any::Want>> e;
  for (auto &p : want)
    e.push_back({p.first, any::want(p.second)});
  // ref::encode leaves "|u1" in the header as the library does
  any::archive(zip, e, true, disk ? mc::scratch() + "/r.npz" : "");
}

#ifdef MC_LIMIT
void lowered() {
  const bool th = mc::thorough();
  const size_t L = MC_LIMIT, H = header_size(9);
  // 1. all sequences of entries with sizes around the limit
  std::vector<size_t> sizes;
  for (std::int64_t s : {std::int64_t(H), std::int64_t(L) - 1, std::int64_t(L), std::int64_t(L) + 1, std::int64_t(2 * L)})
    if (s >= std::int64_t(H))
      sizes.push_back(size_t(s) - H);
  std::vector<Spec> seq;
  std::function<void(size_t)> rec = [&](size_t left) {
    for (auto m : {Method::STORED, Method::DEFLATED}) {
      auto specs = seq;
      mc::one(
          [&] {
            std::string s = mc::str("limit ", L, ", ", m == Method::STORED ? "stored" : "deflated", ":");
            for (auto &x : specs)
              s += mc::str(" ", x.name, "(", x.n + H, x.noise ? " noise)" : " zeros)");
            return s;
          },
          [&] { write_and_judge(specs, m, specs.size() < 3); });
    }
    if (!left)
      return;
    for (size_t n : sizes)
      for (bool noise : {false, true}) {
        seq.push_back({mc::str("e", seq.size(), ".npy"), n, noise});
        rec(left - 1);
        seq.pop_back();
      }
  };
  rec(th ? 4 : 3);
  // 2. the second entry's offset and the directory's offset at every distance from the limit
  for (size_t total = L > 60 ? L - 60 : 0; total <= L + 60; ++total)
    for (auto m : {Method::STORED, Method::DEFLATED})
      for (size_t more = 0; more < 3; ++more)
        mc::one([&] { return mc::str("limit ", L, ", ", m == Method::STORED ? "stored" : "deflated", ": about ", total, " bytes, then ", more, " entries"); },
                [&] {
                  std::vector<Spec> v;
                  size_t fixed = 30 + 5 + H;
                  v.push_back({"a.npy", total > fixed ? total - fixed : 0, true});
                  for (size_t i = 0; i < more; ++i)
                    v.push_back({mc::str("b", i, ".npy"), i, true});
                  write_and_judge(v, m, true);
                });
  // 3. the directory's size at every distance from the limit: few long names, many short ones
  for (size_t dir = L > 40 ? L - 40 : 60; dir <= L + 40; ++dir) {
    mc::one([&] { return mc::str("limit ", L, ": directory of ", dir, " bytes, one entry"); },
            [&] {
              size_t n = dir - 46;
              if (n < 5)
                return;
              write_and_judge({{std::string(n - 4, 'n') + ".npy", 3, false}}, Method::STORED, true);
            });
    mc::one([&] { return mc::str("limit ", L, ": directory of ", dir, " bytes, many entries"); },
            [&] {
              std::vector<Spec> v;
              size_t left = dir;
              for (int i = 0; left > 120; ++i, left -= 60)
                v.push_back({mc::str(1000 + i, "name12.npy"), size_t(i % 3), false});
              v.push_back({std::string(left - 50, 'n') + ".npy", 3, false});
              write_and_judge(v, Method::DEFLATED, true);
            });
  }
  for (size_t n = 0; n < (th ? 300u : 60u); ++n)
    mc::one([&] { return mc::str("limit ", L, ": ", n, " entries"); },
            [&] {
              std::vector<Spec> v;
              for (size_t i = 0; i < n; ++i)
                v.push_back({mc::str("k", 1000 + i, ".npy"), i % 5, false});
              write_and_judge(v, n % 2 ? Method::STORED : Method::DEFLATED, true);
            });
}
#endif

// entry counts around 65535, names around 65535 bytes, distant offsets (sparse files)
void classic() {
  const bool th = mc::thorough();
  std::vector<size_t> counts = {65534, 65535, 65536, 65537, 65600};
  if (th)
    for (size_t n : {32767u, 32768u, 65533u, 70000u, 131071u, 131072u, 200000u})
      counts.push_back(n);
  for (size_t n : counts)
    for (bool file : {false, true})
      mc::one([&] { return mc::str(n, " entries, ", file ? "file" : "string", " writer"); },
              [&] {
                std::string path = mc::scratch() + "/n.npz", zip;
                auto name = [](size_t i) { return mc::str("k", 100000 + i, ".npy"); };
                auto value = [](size_t i) { return std::int32_t(i * 2654435761u); };
                auto go = [&](auto &w) {
                  npy::tensor<std::int32_t> t(std::vector<size_t>{});
                  for (size_t i = 0; i < n; ++i) {
                    *t.data() = value(i);
                    w.write(name(i), t);
                  }
                  w.close();
                };
                if (file) {
                  npy::npzfilewriter w(path);
                  go(w);
                  zip = mc::read_all(path);
                } else {
                  npy::npzstringwriter w;
                  go(w);
                  zip = w.str();
                }
                auto a = zref::parse(zip);
                if (!a.ok)
                  mc::fail("not a valid archive: " + a.why);
                if (a.entries.size() != n)
                  mc::fail(mc::str("holds ", a.entries.size(), " entries"));
                for (size_t i = 0; i < n; ++i) {
                  std::int32_t v;
                  memcpy(&v, a.entries[i].bytes.data() + a.entries[i].bytes.size() - 4, 4);
                  if (a.entries[i].name != name(i) || v != value(i))
                    mc::fail(mc::str("entry ", i, " is not what was written"));
                }
                auto read = [&](auto &r) {
                  if (r.keys().size() != n)
                    mc::fail(mc::str("the reader lists ", r.keys().size(), " keys"));
                  for (size_t i = 0; i < n; i += (i < 300 || i + 300 > n) ? 1 : 97)
                    if (r.keys()[i] != name(i) || r.template read<npy::tensor<std::int32_t>>(name(i)).data()[0] != value(i))
                      mc::fail(mc::str("the reader gets entry ", i, " wrong"));
                };
                if (file) {
                  npy::npzfilereader r(path);
                  read(r);
                } else {
                  npy::npzstringreader r(zip);
                  read(r);
                }
                mc::outcome(mc::str(n));
              });
  for (size_t n : {size_t(65500), size_t(65530), size_t(65531), size_t(65532), size_t(65534), size_t(65535), size_t(65536), size_t(65537), size_t(65540), size_t(70000), size_t(131066), size_t(131072), size_t(131077)})
    for (bool suffix : {false, true})
      for (int first = 0; first < 2; ++first)
        mc::one([&] { return mc::str("name of ", n, " bytes", suffix ? " including the suffix" : "", first ? ", first entry" : ", after another entry"); },
                [&] {
                  std::string name = suffix ? std::string(n - 4, 'x') + ".npy" : std::string(n, 'x');
                  std::string full = suffix ? name : name + ".npy";
                  npy::npzstringwriter w;
                  std::vector<std::pair<std::string, std::string>> want;
                  auto put = [&](const std::string &k, size_t len) {
                    auto t = make(len, true);
                    w.write(k, t);
                    want.push_back({k, ref::encode(std::vector<std::uint8_t>(t.begin(), t.end()), {len}, '|', false)});
                  };
                  if (!first)
                    put("before.npy", 7);
                  auto r = mc::attempt([&] { w.write(name, make(5, true)); });
                  if (r.threw != (full.size() > 65535))
                    mc::fail(r.threw ? "a name that fits is refused: " + r.what : "a name that does not fit is accepted");
                  if (!r.threw) {
                    auto t = make(5, true);
                    want.push_back({full, ref::encode(std::vector<std::uint8_t>(t.begin(), t.end()), {5}, '|', false)});
                  }
                  put("after.npy", 9);
                  w.close();
                  judge(w.str(), want, Method::STORED, "string writer");
                  npy::npzstringreader rd(w.str());
                  for (auto &e : want)
                    if (!any::judge(rd, e.first, any::want(e.second)).empty())
                      mc::fail("the reader gets an entry wrong");
                  mc::outcome(mc::str("name", full.size(), r.threw));
                });
  // archives that start beyond 2 and 4 GiB: everything is ZIP64, read through a sparse file
  for (std::uint64_t base : {std::uint64_t(0x7FFFFF00), std::uint64_t(0x80000000), std::uint64_t(0x8FFFFFF0), std::uint64_t(0xFFFFFF00), std::uint64_t(0xFFFFFFFE), std::uint64_t(0xFFFFFFFF), std::uint64_t(0x100000000),
                             std::uint64_t(0x1FFFFFFFF), std::uint64_t(0x3000000000)})
    for (int method : {0, 8})
      mc::one([&] { return mc::str("reading an archive whose entries start at offset ", base, ", method ", method); },
              [&] {
                std::vector<zref::Out> v(3);
                std::vector<std::pair<std::string, any::Want>> e;
                for (size_t i = 0; i < 3; ++i) {
                  v[i].name = mc::str("e", i, ".npy");
                  std::vector<std::int16_t> d(20 + i, std::int16_t(i * 3 + 1));
                  v[i].bytes = ref::encode(d, {d.size()}, '<', false);
                  v[i].method = method;
                  v[i].zip64_cd_offset = base + 2000 > 0xFFFFFFFF;
                  e.push_back({v[i].name, any::want(v[i].bytes)});
                }
                zref::Options o;
                o.base = base;
                o.zip64_end = base + 3000 > 0xFFFFFFFF;
                std::string z = zref::write(v, o), path = mc::scratch() + "/sparse.npz";
                int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
                bool ok = fd >= 0 && ::pwrite(fd, z.data(), z.size(), off_t(base)) == ssize_t(z.size());
                ::close(fd);
                if (!ok) {
                  mc::count("sparse files not supported");
                  ::unlink(path.c_str());
                  return;
                }
                std::string bad;
                try {
                  npy::npzfilereader r(path);
                  if (r.keys() != std::vector<std::string>{"e0.npy", "e1.npy", "e2.npy"})
                    bad = "keys are wrong";
                  for (auto &x : e)
                    if (bad.empty())
                      bad = any::judge(r, x.first, x.second);
                } catch (const std::exception &x) {
                  bad = x.what();
                }
                ::unlink(path.c_str());
                if (!bad.empty())
                  mc::fail(bad);
                mc::outcome(mc::str("base", base, method));
              });
}

// ------------------------------------------------------------ real sizes ----
std::uint64_t word(std::uint64_t i) { return (i + 1) * 0x9E3779B97F4A7C15ull; }
// produces and checks n bytes without holding them
struct Big {
  size_t n = 0;
  std::uint64_t seed = 0;
  bool zeros = false, good = true;
  size_t ndim() const { return 1; }
  size_t shape(int) const { return n; }
  bool fortran_order() const { return false; }
  std::string dtype(npy::endian_t) const { return "|u1"; }
  void block(std::vector<std::uint64_t> &b, size_t at) const {
    for (size_t i = 0; i < b.size(); ++i)
      b[i] = zeros ? (i == 0 ? at + seed : 0) : word(at / 8 + i + seed);
  }
  void save(std::basic_ostream<char> &o, npy::endian_t) const {
    std::vector<std::uint64_t> b(1 << 17);
    for (size_t at = 0; at < n; at += b.size() * 8) {
      block(b, at);
      o.write(reinterpret_cast<const char *>(b.data()), std::streamsize(std::min(b.size() * 8, n - at)));
    }
  }
  static Big load(std::basic_istream<char> &in, const npy::header_info &h) {
    Big r;
    r.n = h.shape.at(0);
    r.good = h.shape.size() == 1 && h.dtype == npy::data_type_t::UINT8;
    std::vector<std::uint64_t> b(1 << 17), e(1 << 17);
    r.seed = expect_seed;
    r.zeros = expect_zeros;
    for (size_t at = 0; at < r.n; at += b.size() * 8) {
      size_t k = std::min(b.size() * 8, r.n - at);
      r.block(e, at);
      in.read(reinterpret_cast<char *>(b.data()), std::streamsize(k));
      if (!in || memcmp(b.data(), e.data(), k) != 0)
        r.good = false;
    }
    return r;
  }
  static std::uint64_t expect_seed;
  static bool expect_zeros;
};
std::uint64_t Big::expect_seed = 0;
bool Big::expect_zeros = false;

void big_file(const std::vector<std::pair<size_t, bool>> &sizes, Method m, bool read) {
  mc::alloc_cap = size_t(64) << 30;
  std::string path = mc::scratch() + "/big.npz";
  struct Remove {
    std::string p;
    ~Remove() { ::unlink(p.c_str()); }
  } remove{path};
  {
    npy::npzfilewriter w(path, m);
    for (size_t i = 0; i < sizes.size(); ++i) {
      Big b;
      b.n = sizes[i].first;
      b.zeros = sizes[i].second;
      b.seed = i * 1000;
      w.write(mc::str("b", i), b);
    }
    w.close();
  }
  struct stat st;
  if (::stat(path.c_str(), &st) != 0)
    mc::fail("no file was written");
  int fd = ::open(path.c_str(), O_RDONLY);
  auto get = [&](std::uint64_t at, std::uint64_t n) {
    std::string s(n, '\0');
    if (::pread(fd, &s[0], n, off_t(at)) != ssize_t(n))
      s.clear();
    return s;
  };
  auto a = zref::parse(get, std::uint64_t(st.st_size), false);
  std::string bad;
  if (!a.ok)
    bad = "not a valid archive: " + a.why;
  else if (a.entries.size() != sizes.size())
    bad = mc::str(a.entries.size(), " entries");
  else
    for (size_t i = 0; i < sizes.size() && bad.empty(); ++i) {
      auto &e = a.entries[i];
      std::string h = ref::header("|u1", false, {sizes[i].first});
      if (e.name != mc::str("b", i, ".npy") || e.usize < sizes[i].first || e.usize > sizes[i].first + 4096)
        bad = mc::str("entry ", i, " has name ", e.name, " and size ", e.usize);
      else if (m == Method::STORED && e.usize > 0) {
        // contents, including the checksum
        uLong c = ::crc32_z(0, nullptr, 0);
        size_t head = e.usize - sizes[i].first;
        std::vector<std::uint64_t> x(1 << 17);
        Big b;
        b.n = sizes[i].first;
        b.zeros = sizes[i].second;
        b.seed = i * 1000;
        std::string s = get(e.data_at, head);
        c = ::crc32_z(c, reinterpret_cast<const Bytef *>(s.data()), s.size());
        for (size_t at = 0; at < b.n && bad.empty(); at += x.size() * 8) {
          b.block(x, at);
          s = get(e.data_at + head + at, std::min(x.size() * 8, b.n - at));
          if (s.empty() || memcmp(s.data(), x.data(), s.size()) != 0)
            bad = mc::str("entry ", i, " has wrong contents at ", at);
          c = ::crc32_z(c, reinterpret_cast<const Bytef *>(s.data()), s.size());
        }
        if (bad.empty() && c != e.crc)
          bad = mc::str("entry ", i, " has a wrong checksum");
      }
    }
  ::close(fd);
  if (!bad.empty())
    mc::fail(bad);
  if (read) {
    npy::npzfilereader r(path);
    if (r.keys().size() != sizes.size())
      mc::fail("the reader lists other keys");
    for (size_t i = sizes.size(); i-- > 0;) {
      Big::expect_seed = i * 1000;
      Big::expect_zeros = sizes[i].second;
      Big b = r.read<Big>(mc::str("b", i));
      if (!b.good || b.n != sizes[i].first)
        mc::fail(mc::str("the reader gets entry ", i, " wrong"));
    }
  }
  mc::outcome(mc::str(st.st_size));
}
void real() {
  mc::cpu_limit(1200);
  const size_t L = 0x8FFFFFFF;
  auto member = [&](const std::vector<std::pair<size_t, bool>> &v, Method m, bool read = true) {
    mc::one(
        [&] {
          std::string s = m == Method::STORED ? "real file, stored:" : "real file, deflated:";
          for (auto &x : v)
            s += mc::str(" ", x.first, x.second ? " zeros" : "");
          return s;
        },
        [&] { big_file(v, m, read); });
  };
  member({{4 * GIB + 4097, false}, {100, false}, {5000, true}}, Method::STORED, true);
  if (!mc::thorough())
    return;
  const size_t H = header_size(L);
  for (size_t s : {L - 1, L, L + 1, 4 * GIB - 2, 4 * GIB - 1, 4 * GIB, 2 * GIB - 1, 2 * GIB, 2 * GIB + 1})
    member({{s - H, false}, {10, false}}, Method::STORED);
  member({{100, false}, {4 * GIB + 10, true}, {10, false}}, Method::DEFLATED);
  member({{L + 10, true}, {10, false}}, Method::DEFLATED);
  member({{4 * GIB + 10, false}, {10, false}}, Method::DEFLATED);
  std::vector<std::pair<size_t, bool>> many;
  for (int i = 0; i < 6; ++i)
    many.push_back({size_t(900) << 20, false});
  many.push_back({3, false});
  member(many, Method::STORED);
  member({{3, false}, {6 * GIB, false}, {3, false}}, Method::STORED);
}
} // namespace

void explore() {
  if (mc::option("part") == "real") {
    real();
    return;
  }
#ifdef MC_LIMIT
  lowered();
#else
  classic();
#endif
}
