// C12: archives written by NumPy and other ZIP writers are read correctly.
#include "common/any.hpp"
#include "common/tensors.hpp"

namespace {
using Entries = std::vector<std::pair<std::string, any::Want>>;
template <class T> std::string npy_file(const std::vector<size_t> &s, bool fo, char order, size_t base) {
  std::vector<T> v;
  for (size_t i = 0; i < ref::product(s); ++i)
    v.push_back(ref::nth<T>(i + base));
  return ref::encode(v, s, order, fo);
}
// three different small arrays
const std::vector<std::string> &bodies() {
  static const std::vector<std::string> b = {npy_file<std::int32_t>({2, 3}, false, '<', 0), npy_file<double>({3}, true, '>', 5), npy_file<std::wstring>({2, 2}, true, '<', 9)};
  return b;
}
void archive(const std::string &what, const std::vector<zref::Out> &outs, const zref::Options &opt, bool exact, bool disk = false) {
  mc::one([&] { return what; },
          [&] {
            Entries e;
            for (auto &o : outs)
              e.push_back({o.name, any::want(o.bytes)});
            any::archive(zref::write(outs, opt), e, exact, disk ? mc::scratch() + "/z.npz" : "");
          });
}
struct Field {
  const char *name;
  std::vector<std::pair<std::string, std::function<void(zref::Out &)>>> values;
  int maybe_from = 1000; // values from this index on may be refused
};
std::string block(unsigned tag, const std::string &data) {
  std::string o;
  zref::p16(o, tag);
  zref::p16(o, data.size());
  return o + data;
}
std::vector<Field> fields() {
  std::vector<Field> f;
  auto set = [](auto member, auto value) { return [=](zref::Out &o) { o.*member = value; }; };
  f.push_back({"method", {{"stored", set(&zref::Out::method, 0)}, {"deflated", set(&zref::Out::method, 8)}}});
  f.push_back({"local ZIP64", {{"none", set(&zref::Out::zip64_local, 0)}, {"sizes", set(&zref::Out::zip64_local, 1)}, {"unneeded", set(&zref::Out::zip64_local, 3)}, {"surplus", set(&zref::Out::zip64_local, 2)}}});
  f.push_back({"central ZIP64", {{"none", set(&zref::Out::zip64_cd, 0)}, {"sizes", set(&zref::Out::zip64_cd, 1)}, {"unneeded", set(&zref::Out::zip64_cd, 3)}, {"surplus", set(&zref::Out::zip64_cd, 2)}}});
  f.push_back({"ZIP64 offset", {{"no", set(&zref::Out::zip64_cd_offset, false)}, {"yes", [](zref::Out &o) {
                                                                                     o.zip64_cd_offset = o.zip64_cd != 2 && o.zip64_cd != 3;
                                                                                   }}}});
  const std::vector<std::pair<std::string, std::string>> extras = {
      {"none", ""},
      {"timestamp", block(0x5455, std::string("\3abcdefgh", 9))},
      {"unix+NTFS", block(0x7875, "\1\4abcd\4efgh") + block(0x000A, std::string(32, 'n'))},
      {"empty block", block(0xCAFE, "")},
      {"looks like ZIP64", block(0x0101, std::string(16, '\xff')) + block(0x0100, std::string("\1\0\x10\0", 4))},
      {"long", block(0x9999, std::string(30000, 'L'))},
      {"many", [] {
         std::string s;
         for (int i = 0; i < 40; ++i)
           s += block(0x4000u + unsigned(i), std::string(size_t(i), 'm'));
         return s;
       }()},
  };
  Field l{"local extra", {}}, c{"central extra", {}};
  for (auto &e : extras) {
    l.values.push_back({e.first, [=](zref::Out &o) { o.local_extra = e.second; }});
    c.values.push_back({e.first, [=](zref::Out &o) { o.cd_extra = e.second; }});
  }
  f.push_back(l);
  f.push_back(c);
  f.push_back({"ZIP64 block", {{"first", set(&zref::Out::zip64_first, true)}, {"last", set(&zref::Out::zip64_first, false)}}});
  f.push_back({"entry comment",
               {{"none", set(&zref::Out::comment, std::string())},
                {"short", set(&zref::Out::comment, std::string("c"))},
                {"with signatures", set(&zref::Out::comment, std::string("PK\1\2PK\3\4PK\5\6") + std::string(30, '\0'))},
                {"long", set(&zref::Out::comment, std::string(65535, 'k'))}}});
  f.push_back({"time", {{"any", set(&zref::Out::time, 0x5A215A21u)}, {"zero", set(&zref::Out::time, 0u)}, {"ones", set(&zref::Out::time, 0xFFFFFFFFu)}}});
  f.push_back({"attributes", {{"unix", set(&zref::Out::attr, 0x81A40000u)}, {"zero", set(&zref::Out::attr, 0u)}, {"ones", set(&zref::Out::attr, 0xFFFFFFFFu)}}});
  f.push_back({"made by", {{"unix", set(&zref::Out::made_by, std::uint16_t(0x0314))}, {"dos", set(&zref::Out::made_by, std::uint16_t(0))}, {"new", set(&zref::Out::made_by, std::uint16_t(0xFF3F))}}});
  f.push_back({"version needed", {{"2.0", set(&zref::Out::need, std::uint16_t(20))}, {"1.0", set(&zref::Out::need, std::uint16_t(10))}, {"4.5", set(&zref::Out::need, std::uint16_t(45))}}});
  f.push_back({"internal", {{"0", set(&zref::Out::internal, std::uint16_t(0))}, {"1", set(&zref::Out::internal, std::uint16_t(1))}}});
  f.push_back({"flags", {{"0", set(&zref::Out::flags, std::uint16_t(0))}, {"UTF-8", set(&zref::Out::flags, std::uint16_t(0x800))}, {"level", set(&zref::Out::flags, std::uint16_t(6))}}});
  return f;
}
} // namespace

void explore() {
  const bool th = mc::thorough();
  const auto fs = fields();
  const std::vector<std::string> names = {"a.npy", "b.npy", "c.npy"};
  auto build = [&](const std::vector<std::pair<size_t, size_t>> &choice, size_t target) {
    std::vector<zref::Out> o(3);
    for (size_t i = 0; i < 3; ++i) {
      o[i].name = names[i];
      o[i].bytes = bodies()[i];
      o[i].method = i == 1 ? 8 : 0;
    }
    for (auto &c : choice)
      for (size_t i = 0; i < 3; ++i)
        if (target == 3 || target == i)
          fs[c.first].values[c.second].second(o[i]);
    // the offset switch depends on another one
    for (auto &x : o)
      if (x.zip64_cd_offset && (x.zip64_cd == 2 || x.zip64_cd == 3))
        x.zip64_cd_offset = false;
    return o;
  };
  auto maybe = [](const std::vector<zref::Out> &o) {
    for (auto &x : o)
      if (x.zip64_cd == 2 || x.zip64_local == 2)
        return true;
    return false;
  };
  auto text = [&](const std::vector<std::pair<size_t, size_t>> &choice, size_t target) {
    std::string s = target == 3 ? "all entries" : mc::str("entry ", target);
    for (auto &c : choice)
      s += std::string("; ") + fs[c.first].name + "=" + fs[c.first].values[c.second].first;
    return s;
  };
  // 1. all combinations of the values of 1, 2 and 3 fields (thorough: 4)
  std::vector<std::pair<size_t, size_t>> choice;
  std::function<void(size_t, size_t)> combos = [&](size_t from, size_t left) {
    for (size_t target : {3, 0, 1, 2}) {
      if (target != 3 && choice.size() > (th ? 3u : 2u))
        continue;
      for (bool end64 : {false, true})
        mc::one([&] { return text(choice, target) + (end64 ? "; ZIP64 end" : ""); },
                [&] {
                  auto o = build(choice, target);
                  zref::Options opt;
                  opt.zip64_end = end64;
                  std::string z = zref::write(o, opt);
                  Entries e;
                  for (auto &x : o)
                    e.push_back({x.name, any::want(x.bytes)});
                  any::archive(z, e, !maybe(o), choice.size() < 3 ? mc::scratch() + "/z.npz" : "");
                });
    }
    if (!left)
      return;
    for (size_t f = from; f < fs.size(); ++f)
      for (size_t v = 1; v < fs[f].values.size(); ++v) {
        choice.push_back({f, v});
        combos(f + 1, left - 1);
        choice.pop_back();
      }
  };
  combos(0, th ? 4 : 3);
  // 2. directory order, leading bytes, unused bytes between the entries
  std::vector<size_t> perm = {0, 1, 2};
  do {
    zref::Options opt;
    opt.cd_order = perm;
    for (const std::string &pre : {std::string(), std::string("#!/bin/sh\nexit\n"), std::string(70000, 'p'), zref::write(build({}, 3))})
      for (bool end64 : {false, true}) {
        opt.prefix = pre;
        opt.zip64_end = end64;
        archive(mc::str("directory order ", mc::list(perm), ", ", pre.size(), " leading bytes", end64 ? ", ZIP64 end" : ""), build({}, 3), opt, true, true);
      }
  } while (std::next_permutation(perm.begin(), perm.end()));
  // ... and the forms of the end of an archive
  const std::string sig = "PK\5\5" + std::string("\5\0hello", 7);
  for (size_t entries : {0, 1, 3})
    for (int plain = 0; plain < 8; ++plain)
      for (const std::string &data : {std::string(), std::string("x"), std::string("\x34\x12\2\0\0\0\7\7", 8), std::string(100, '\xff'), std::string(3000, '\0'), "PK\6\7" + std::string(16, '\1'), "PK\6\6" + std::string(52, '\1')})
        for (int made : {45, 20, 0x033F})
          for (int need : {45, 20})
            for (unsigned disks : {1u, 0u})
              for (int pre : {0, 1, 70000})
                for (int order : {0, 1}) {
                  if (entries < 3 && (order || pre == 1))
                    continue;
                  zref::Options opt;
                  opt.zip64_end = true;
                  opt.end_plain = plain;
                  opt.end_data = data;
                  opt.end_made = std::uint16_t(made);
                  opt.end_need = std::uint16_t(need);
                  opt.end_disks = disks;
                  opt.prefix = std::string(size_t(pre), 'p');
                  if (order)
                    opt.cd_order = {2, 0, 1};
                  auto o = build({}, 3);
                  o.resize(entries);
                  archive(mc::str("ZIP64 end, ", entries, " entries, plain fields ", plain, ", ", data.size(), " bytes of data, made by ", made, ", needs ", need, ", ", disks, " disks, ", pre, " leading bytes, order ", order), o, opt,
                          true, made == 45);
                  if (made == 45 && need == 45 && disks && data.size() < 2) { // a digital signature may be refused
                    opt.signature = sig;
                    archive(mc::str("signature, ZIP64 end, ", entries, " entries, plain fields ", plain, ", ", data.size(), " bytes of data, ", pre, " leading bytes, order ", order), o, opt, false, true);
                    opt.zip64_end = false;
                    archive(mc::str("signature, ", entries, " entries, ", pre, " leading bytes, order ", order, plain, data.size()), o, opt, false, true);
                  }
                }
  // 3. deflate encodings
  const std::string big = npy_file<std::int16_t>({3000}, false, '>', 3), zeros = ref::encode(std::vector<double>(9000), {9000}, '<', false);
  for (const std::string &body : {bodies()[0], bodies()[2], big, zeros})
    for (int level = 0; level <= 9; ++level)
      for (int strategy : {Z_DEFAULT_STRATEGY, Z_FILTERED, Z_HUFFMAN_ONLY, Z_RLE, Z_FIXED})
        for (int wbits : {9, 12, 15})
          for (int mem : {1, 9})
            for (int flush : {0, 1, 100})
              for (int kind : {Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_PARTIAL_FLUSH}) {
                if ((flush == 0 && kind != Z_SYNC_FLUSH) || (flush == 1 && body.size() > 1000))
                  continue;
                mc::one([&] { return mc::str("deflate level ", level, " strategy ", strategy, " window ", wbits, " memory ", mem, " flush ", flush, "/", kind, ", ", body.size(), " bytes"); },
                        [&] {
                          zref::Out o;
                          o.name = "a.npy";
                          o.bytes = body;
                          o.method = 8;
                          o.have_packed = true;
                          o.packed = zref::deflate_raw(body, level, strategy, wbits, mem, flush, kind);
                          any::archive(zref::write({o}), {{"a.npy", any::want(body)}}, true);
                        });
              }
  // 4. features that may be refused, but not misread
  for (int method = 0; method < 256; ++method)
    for (int form = 0; form < 3; ++form) {
      if (form == 0 && (method == 0 || method == 8))
        continue;
      zref::Out o;
      o.name = "a.npy";
      o.bytes = bodies()[0];
      o.method = method;
      o.have_packed = true;
      // data in a form the method number does not announce
      o.packed = form == 0 ? std::string("BZh91AY&SY\1\2\3\4") + bodies()[1] : form == 1 ? zref::deflate_raw(o.bytes) : bodies()[0];
      archive(mc::str("method ", method, ", data form ", form), {o}, {}, false);
    }
  for (int bit = 0; bit < 16; ++bit)
    for (int form = 0; form < 2; ++form) {
      zref::Out o;
      o.name = "a.npy";
      o.bytes = bodies()[0];
      o.flags = std::uint16_t(1 << bit);
      if (form) { // e.g. encrypted: the data is something else
        o.have_packed = true;
        o.packed = bodies()[0];
        for (auto &c : o.packed)
          c = char(c ^ 0x55);
      }
      archive(mc::str("flag bit ", bit, form ? ", transformed data" : ""), {o}, {}, false);
    }
  for (unsigned need = 0; need <= 0xFFFF; need += need < 110 ? 1 : 997) {
    zref::Out o;
    o.name = "a.npy";
    o.bytes = bodies()[0];
    o.need = std::uint16_t(need);
    archive(mc::str("version needed ", need), {o}, {}, need == 10 || need == 20 || need == 45);
  }
  for (const std::string &c : {std::string("c"), std::string(100, 'c'), std::string(65535, 'c'), std::string("PK\5\6") + std::string(18, '\0')}) {
    zref::Options opt;
    opt.comment = c;
    archive(mc::str("archive comment of ", c.size(), " bytes"), build({}, 3), opt, false, true);
  }
  // bytes after the last complete extra block (as some tools leave), data descriptors
  for (size_t stub = 1; stub <= 3; ++stub)
    for (int where = 0; where < 3; ++where) {
      auto o = build({}, 3);
      if (where != 1)
        o[1].local_extra += std::string(stub, '\1');
      if (where != 0)
        o[1].cd_extra += std::string(stub, '\1');
      archive(mc::str(stub, " bytes after the extra blocks, ", where), o, {}, false, true);
    }
  for (int m = 0; m <= 8; m += 8)
    for (int sig = 0; sig < 2; ++sig)
      mc::one([&] { return mc::str("data descriptor ", m, sig); },
              [&] {
                auto o = build({}, 3);
                o[0].method = m;
                o[0].flags = 8;
                std::string z = zref::write({o[0]});
                auto a = zref::parse(zref::write({[&] { auto x = o[0]; x.flags = 0; return x; }()}));
                // zero the local sizes and the checksum, insert the descriptor
                std::string d;
                if (sig)
                  d = "PK\7\10";
                zref::p32(d, a.entries[0].crc);
                zref::p32(d, a.entries[0].csize);
                zref::p32(d, a.entries[0].usize);
                z.replace(14, 12, std::string(12, '\0'));
                z.insert(a.cd_at, d);
                std::string off;
                zref::p32(off, a.cd_at + d.size());
                z.replace(z.size() - 6, 4, off);
                any::archive(z, {{"a.npy", any::want(o[0].bytes)}}, false, mc::scratch() + "/z.npz");
              });
  // 5. the number of entries and long names
  for (size_t n = 0; n <= (th ? 1000 : 300); n += n < 20 || th ? 1 : 9) {
    std::vector<zref::Out> o(n);
    for (size_t i = 0; i < n; ++i) {
      o[i].name = mc::str("e", i * 7919 % 1000003, ".npy");
      o[i].bytes = bodies()[i % 3];
    }
    archive(mc::str(n, " entries"), o, {}, true, n % 10 == 0);
  }
  for (size_t n : {1, 2, 3, 4, 5, 255, 256, 257, 4096, 32768, 65535}) {
    zref::Out o;
    o.name = n > 4 ? std::string(n - 4, 'n') + ".npy" : std::string(n, 'n');
    o.bytes = bodies()[1];
    archive(mc::str("name of ", n, " bytes"), {o}, {}, true, true);
  }
  // 6. arrays of every type and several shapes, stored and deflated
  ref::each_type([&](auto tag) {
    using T = typename decltype(tag)::type;
    for (const auto &s : {std::vector<size_t>{}, {0}, {1}, {7}, {2, 3}, {3, 2, 2}, {500}})
      for (char order : {'<', '>'})
        for (bool fo : {false, true})
          for (int m : {0, 8}) {
            zref::Out o;
            o.name = "x.npy";
            o.bytes = npy_file<T>(s, fo, ref::Type<T>::size == 1 ? '|' : order, 4);
            o.method = m;
            archive(mc::str(ref::Type<T>::name, mc::list(s), order, fo, m), {o}, {}, true, s.size() == 1);
          }
  });
  // 7. archives written by NumPy and by Python's zipfile
  const std::string dir = mc::option("corpus");
  std::istringstream ix(mc::read_all(dir + "/index.txt"));
  for (std::string line; std::getline(ix, line);)
    mc::one([&] { return "NumPy/zipfile archive " + line.substr(0, 200); },
            [&] {
              std::vector<std::string> f;
              std::istringstream is(line);
              for (std::string x; std::getline(is, x, '\t');)
                f.push_back(x);
              std::string zip = mc::read_all(dir + "/" + f[0]);
              Entries e;
              bool all = true;
              for (size_t i = 2; i < f.size(); ++i) {
                size_t q = f[i].rfind('=');
                if (f[i][0] == '*') {
                  all = false;
                  npy::npzstringreader r(zip);
                  if (r.keys().size() != std::stoul(f[i].substr(q + 1)))
                    mc::fail(mc::str("lists ", r.keys().size(), " keys"));
                  continue;
                }
                e.push_back({f[i].substr(0, q), any::want(mc::read_all(dir + "/" + f[i].substr(q + 1)))});
              }
              any::archive(zip, e, f[1] == "exact", mc::scratch() + "/z.npz", all);
            });
}
