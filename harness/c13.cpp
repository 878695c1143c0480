// C13: a damaged archive never yields wrong data.
#include "common/any.hpp"
#include "common/tensors.hpp"

namespace {
using Entries = std::vector<std::pair<std::string, any::Want>>;
struct Subject {
  std::string what, bytes;
  Entries entries;
};
template <class T> std::string npy_file(const std::vector<size_t> &s, bool fo, char order, size_t base, bool flat = false) {
  std::vector<T> v;
  for (size_t i = 0; i < ref::product(s); ++i)
    v.push_back(ref::nth<T>(flat ? base : i + base));
  return ref::encode(v, s, order, fo);
}
template <class T> npy::tensor<T> ten(const std::vector<size_t> &s, bool fo, size_t base, bool flat = false) {
  npy::tensor<T> t(s, fo);
  std::vector<T> v;
  for (size_t i = 0; i < ref::product(s); ++i)
    v.push_back(ref::nth<T>(flat ? base : i + base));
  t.copy_from(v.data(), v.size());
  return t;
}
// the archives that get damaged
std::vector<Subject> subjects() {
  std::vector<Subject> out;
  auto finish = [&](const std::string &what, const std::string &bytes) {
    Subject s;
    s.what = what;
    s.bytes = bytes;
    auto a = zref::parse(bytes);
    if (!a.ok)
      mc::fail(what + ": the archive is not well formed: " + a.why);
    for (auto &e : a.entries)
      s.entries.push_back({e.name, any::want(e.bytes)});
    out.push_back(std::move(s));
  };
  for (auto m : {npy::compression_method_t::STORED, npy::compression_method_t::DEFLATED}) {
    const std::string n = m == npy::compression_method_t::STORED ? "stored" : "deflated";
    {
      npy::npzstringwriter w(m, ref::LE);
      w.write("a", ten<std::int32_t>({2, 3}, false, 0));
      w.write("b", ten<std::wstring>({2}, true, 3));
      w.close();
      finish("library, " + n + ", int32 and strings", w.str());
    }
    { // equal headers, different data: any mix-up is visible
      npy::npzstringwriter w(m, ref::BE);
      w.write("x0", ten<std::uint8_t>({5}, false, 1));
      w.write("x1", ten<std::uint8_t>({5}, false, 7));
      w.write("y0", ten<std::uint8_t>({5}, false, 11));
      w.close();
      finish("library, " + n + ", three alike", w.str());
    }
    { // values that damage by zeros and ones resembles
      npy::npzstringwriter w(m);
      w.write("z", ten<std::int8_t>({3, 0}, false, 0));
      w.write("zeros", npy::tensor<float>(std::vector<size_t>{40}));
      w.write("t", ten<npy::boolean>({2, 2}, true, 1));
      w.close();
      finish("library, " + n + ", empty and zero arrays", w.str());
    }
  }
  auto z = [&](const std::string &what, int l64, int c64, bool off, bool end64, const std::string &xl, const std::string &xc, const std::string &comment, int method, bool alike) {
    std::vector<zref::Out> v(2);
    for (size_t i = 0; i < 2; ++i) {
      v[i].name = i ? "second.npy" : "first.npy";
      v[i].bytes = alike ? npy_file<std::int16_t>({4}, false, '<', i * 9) : i ? npy_file<double>({2, 2}, true, '>', 1) : npy_file<std::complex<float>>({2}, false, '<', 4);
      v[i].method = method == 2 ? int(i) * 8 : method;
      v[i].zip64_local = l64;
      v[i].zip64_cd = c64;
      v[i].zip64_cd_offset = off;
      v[i].local_extra = xl;
      v[i].cd_extra = xc;
      v[i].comment = comment;
    }
    zref::Options o;
    o.zip64_end = end64;
    finish(what, zref::write(v, o));
  };
  const std::string ut("UT\5\0\3abcd", 9);
  z("ZIP64 everywhere", 1, 1, true, true, "", "", "", 2, true);
  z("ZIP64 local headers as NumPy writes them", 1, 0, false, false, "", "", "", 2, false);
  z("extra fields and comments", 0, 0, false, false, ut, ut + ut, "a comment", 2, true);
  z("ZIP64 directory with other fields", 0, 1, true, false, ut, ut, "", 8, false);
  if (mc::thorough()) {
    npy::npzstringwriter w(npy::compression_method_t::DEFLATED);
    w.write("long", ten<double>({30, 5}, false, 0));
    for (int i = 0; i < 6; ++i)
      w.write(mc::str("k", i), ten<std::int64_t>({2}, false, size_t(i)));
    w.close();
    finish("library, deflated, seven entries", w.str());
    npy::npzstringwriter w2(npy::compression_method_t::STORED);
    w2.write("inner", npy::tensor<std::uint8_t>(std::vector<size_t>{3}));
    std::string in = w2.str() + "";
    w2.close();
    in = w2.str();
    npy::tensor<std::uint8_t> t(std::vector<size_t>{in.size()});
    t.copy_from(reinterpret_cast<const std::uint8_t *>(in.data()), in.size());
    npy::npzstringwriter w3(npy::compression_method_t::STORED);
    w3.write("outer", t);
    w3.write("inner", ten<std::uint8_t>({3}, false, 2));
    w3.close();
    finish("an archive inside an archive", w3.str());
  }
  return out;
}

constexpr size_t MEMORY = size_t(200) << 20;

// The four bytes that, exchanged for those at `at`, change the checksum of `s` by exactly `diff`.
std::uint32_t forge(const std::string &s, size_t at, std::uint32_t diff) {
  // the change of the checksum is a linear function of the changed bits: Gaussian elimination
  const std::uint32_t c0 = zref::crc(s);
  std::vector<std::pair<std::uint32_t, std::uint32_t>> basis; // effect, bits
  for (int i = 0; i < 32; ++i) {
    std::string t = s;
    t[at + size_t(i) / 8] = char(t[at + size_t(i) / 8] ^ (1 << (i % 8)));
    std::uint32_t e = zref::crc(t) ^ c0, b = std::uint32_t(1) << i;
    for (auto &v : basis)
      if ((e ^ v.first) < e) {
        e ^= v.first;
        b ^= v.second;
      }
    if (e == 0)
      mc::fail("harness: the checksum is not injective on four bytes");
    basis.push_back({e, b});
    std::sort(basis.begin(), basis.end(), std::greater<>());
  }
  std::uint32_t bits = 0;
  for (auto &v : basis)
    if ((diff ^ v.first) < diff) {
      diff ^= v.first;
      bits ^= v.second;
    }
  if (diff)
    mc::fail("harness: cannot forge");
  return bits;
}

// every entry: right or an exception
template <class R> void judge(R &r, const Subject &s, const char *kind, std::uint64_t &h, bool peek) {
  for (auto &e : s.entries) {
    for (bool suffix : {true, false}) {
      std::string name = e.first;
      if (!suffix) {
        if (!peek || s.entries.size() > 2)
          continue;
        name.resize(name.size() - 4);
      }
      std::string w = any::judge(r, name, e.second, suffix);
      if (!w.empty() && w != "threw")
        mc::fail(mc::str(kind, ": entry ", mc::quote(name, 40), " of the damaged archive: ", w));
      h = h * 31 + (w.empty() ? 1 : 2);
      mc::count(w.empty() ? "entries read" : "entries refused");
      if (!w.empty()) {
        mc::nontrivial();
        if (!peek)
          continue;
        // a failed read; what peek says must still be right
        ref::each_type([&](auto tag) {
          using T = typename decltype(tag)::type;
          const auto &d = e.second.d;
          if (std::is_same_v<T, std::wstring> ? d.code != "U" : d.code != ref::Type<T>::code)
            return;
          std::string p;
          try {
            p = ref::judge_info<T>(r.peek(name), d.order, d.dict.fortran, d.dict.shape, d.len);
          } catch (const std::exception &) {
          }
          if (!p.empty())
            mc::fail(mc::str(kind, ": peek of entry ", mc::quote(name, 40), " of the damaged archive: ", p));
        });
      }
    }
  }
  // names that were not in the archive
  for (auto &k : r.keys()) {
    bool ours = false;
    for (auto &e : s.entries)
      ours = ours || e.first == k;
    if (ours)
      continue;
    bool right = false;
    std::string wrong;
    for (auto &e : s.entries) {
      std::string w = any::judge(r, k, e.second, false);
      if (w.empty())
        right = true;
      else if (w != "threw")
        wrong = w;
    }
    if (!right && !wrong.empty())
      mc::fail(mc::str(kind, ": damaged name ", mc::quote(k, 40), ": ", wrong));
  }
}
void damaged(const Subject &s, const std::string &bytes, bool disk, bool string = true) {
  std::uint64_t h = 0;
  mc::alloc_peak = 0;
  if (string) {
    try {
      npy::npzstringreader r(bytes);
      judge(r, s, "string reader", h, disk);
    } catch (const std::exception &) {
      h = 77;
      mc::count("archives refused");
    }
    if (mc::alloc_peak > MEMORY)
      mc::fail(mc::str("string reader: allocates ", mc::alloc_peak, " bytes for a damaged archive of ", bytes.size(), " bytes"));
  }
  if (disk) {
    std::string p = mc::scratch() + "/d.npz";
    mc::write_all(p, bytes);
    std::uint64_t h2 = 0;
    try {
      npy::npzfilereader r(p);
      judge(r, s, "file reader", h2, true);
    } catch (const std::exception &) {
      h2 = 77;
      mc::count("archives refused");
    }
    if (mc::alloc_peak > MEMORY)
      mc::fail(mc::str("file reader: allocates ", mc::alloc_peak, " bytes for a damaged archive of ", bytes.size(), " bytes"));
    h = string ? h : h2;
  }
  mc::outcome(h * 1000003 + mc::hash(s.what));
}
} // namespace

void explore() {
  const bool th = mc::thorough();
  const auto all = subjects();
  size_t number = 0;
  for (auto &s : all) {
    // every value of every byte for one archive in two, in the quick tier
    const bool full = th || number++ % 2 == 0;
    mc::one([&] { return s.what + ": intact"; }, [&] { any::archive(s.bytes, s.entries, true, mc::scratch() + "/i.npz"); });
    // 1. every byte, every other value
    for (size_t at = 0; at < s.bytes.size(); ++at)
      for (int x = 1; x < 256; ++x) {
        bool bit = (x & (x - 1)) == 0;
        if (!full && !bit && x != 255 && char(s.bytes[at] ^ x) != 0 && char(s.bytes[at] ^ x) != char(0xFF) && char(s.bytes[at] ^ x) != char(s.bytes[at] + 1) && char(s.bytes[at] ^ x) != char(s.bytes[at] - 1))
          continue;
        mc::one([&] { return mc::str(s.what, " (", s.bytes.size(), " bytes): byte ", at, " changed to ", int((unsigned char)s.bytes[at] ^ x)); },
                [&] {
                  std::string b = s.bytes;
                  b[at] = char(b[at] ^ x);
                  damaged(s, b, th || bit || x == 255);
                });
      }
    // 2. every truncation
    for (size_t n = 0; n < s.bytes.size(); ++n)
      mc::one([&] { return mc::str(s.what, " (", s.bytes.size(), " bytes): cut to ", n, " bytes"); }, [&] { damaged(s, s.bytes.substr(0, n), true); });
    // 3. every blanked block
    for (unsigned char fillv : {0x00, 0xFF})
      for (size_t n = 2; n <= s.bytes.size(); ++n) {
        if (!th && n > (full ? 32u : 12u) && n % 32 != 0 && n % 25 != 0 && n + 20 < s.bytes.size())
          continue;
        for (size_t at = 0; at + n <= s.bytes.size(); ++at) {
          bool aligned = at % 64 == 0 && n % 64 == 0;
          mc::one([&] { return mc::str(s.what, " (", s.bytes.size(), " bytes): ", n, " bytes at ", at, " blanked with ", int(fillv)); },
                  [&] {
                    std::string b = s.bytes;
                    for (size_t i = at; i < at + n; ++i)
                      b[i] = char(fillv);
                    damaged(s, b, th || aligned);
                  });
        }
      }
  }
  // 4. the same for longer archives, at the granularity of disk blocks
  for (int m = 0; m < 2; ++m) {
    npy::npzstringwriter w(m ? npy::compression_method_t::DEFLATED : npy::compression_method_t::STORED);
    w.write("a", ten<double>({size_t(m ? 1500 : 600)}, false, 0));
    w.write("b", ten<double>({size_t(m ? 1500 : 600)}, false, 13));
    w.write("c", npy::tensor<double>(std::vector<size_t>{600}));
    w.close();
    Subject s;
    s.what = m ? "long deflated archive" : "long stored archive";
    s.bytes = w.str();
    for (auto &e : zref::parse(s.bytes).entries)
      s.entries.push_back({e.name, any::want(e.bytes)});
    for (size_t n = 512; n <= s.bytes.size() + 511; n += 512)
      for (size_t at = 0; at < s.bytes.size(); at += 512)
        for (int fillv : {0, 255, -1, -2})
          mc::one([&] { return mc::str(s.what, " (", s.bytes.size(), " bytes): ", n, " bytes at ", at, fillv < 0 ? (fillv == -1 ? " hold the first block" : " hold the block before") : mc::str(" blanked with ", fillv)); },
                  [&] {
                    std::string b = s.bytes;
                    for (size_t i = at; i < at + n && i < b.size(); ++i)
                      b[i] = fillv >= 0 ? char(fillv) : fillv == -1 ? s.bytes[i % 512] : s.bytes[i >= 512 ? i - 512 : i];
                    damaged(s, b, true, false);
                  });
    for (size_t at = 0; at < s.bytes.size(); at += th ? 1 : 7)
      for (int x : {1, 2, 4, 8, 16, 32, 64, 128, 255})
        mc::one([&] { return mc::str(s.what, " (", s.bytes.size(), " bytes): byte ", at, " xor ", x); },
                [&] {
                  std::string b = s.bytes;
                  b[at] = char(b[at] ^ x);
                  damaged(s, b, false);
                });
    for (size_t n = 0; n < s.bytes.size(); n += th ? 1 : 5)
      mc::one([&] { return mc::str(s.what, " (", s.bytes.size(), " bytes): cut to ", n, " bytes"); }, [&] { damaged(s, s.bytes.substr(0, n), false); });
  }
  // 5. four bytes of an entry's data are others, so that the checksum differs in a single bit; two bytes are exchanged
  for (auto &s : all) {
    auto a = zref::parse(s.bytes);
    for (auto &e : a.entries) {
      size_t from = s.bytes.find(e.bytes);
      if (e.method != 0 || from == std::string::npos)
        continue;
      for (size_t at = 0; at + 4 <= e.bytes.size(); at += th ? 1 : 11)
        for (int bit = 0; bit < 32; ++bit)
          mc::one([&] { return mc::str(s.what, ": the bytes of ", e.name, " at ", at, " are others, the checksum differs in bit ", bit); },
                  [&] {
                    std::uint32_t x = forge(e.bytes, at, std::uint32_t(1) << bit);
                    std::string b = s.bytes, c = e.bytes;
                    for (size_t i = 0; i < 4; ++i) {
                      b[from + at + i] = char(b[from + at + i] ^ char(x >> (8 * i)));
                      c[at + i] = char(c[at + i] ^ char(x >> (8 * i)));
                    }
                    if ((zref::crc(c) ^ e.crc) != std::uint32_t(1) << bit)
                      mc::fail("harness: not forged");
                    damaged(s, b, bit == 31);
                  });
      for (size_t i = 0; i < e.bytes.size(); ++i)
        for (size_t j = i + 1; j < e.bytes.size(); ++j)
          if (e.bytes[i] != e.bytes[j] && (th || j - i < 9 || (i + j) % 5 == 0))
            mc::one([&] { return mc::str(s.what, ": bytes ", i, " and ", j, " of ", e.name, " are exchanged"); },
                    [&] {
                      std::string b = s.bytes;
                      std::swap(b[from + i], b[from + j]);
                      damaged(s, b, false);
                    });
    }
  }
}
