// Independent reference for ZIP archives, written from the PKZIP application
// note: a strict reader (on zlib) and a writer with free choice of features.
#pragma once
#include "ref.hpp"
#include <zlib.h>

namespace zref {

inline std::uint32_t crc(const std::string &s) {
  uLong c = ::crc32_z(0, nullptr, 0);
  return std::uint32_t(::crc32_z(c, reinterpret_cast<const Bytef *>(s.data()), s.size()));
}
inline std::string deflate_raw(const std::string &s, int level = 6, int strategy = Z_DEFAULT_STRATEGY, int wbits = 15, int mem = 8, int flush_every = 0, int flush = Z_FULL_FLUSH) {
  z_stream z;
  memset(&z, 0, sizeof z);
  if (deflateInit2(&z, level, Z_DEFLATED, -wbits, mem, strategy) != Z_OK)
    throw std::runtime_error("zlib deflateInit2");
  std::string o;
  std::vector<char> buf(1 << 16);
  size_t at = 0;
  bool done = false;
  while (!done) {
    size_t n = s.size() - at;
    if (flush_every && n > size_t(flush_every))
      n = size_t(flush_every);
    n = std::min<size_t>(n, 1u << 30);
    z.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(s.data() + at));
    z.avail_in = uInt(n);
    at += n;
    bool last = at == s.size();
    int r;
    do {
      z.next_out = reinterpret_cast<Bytef *>(buf.data());
      z.avail_out = uInt(buf.size());
      r = ::deflate(&z, last ? Z_FINISH : flush_every ? flush : Z_NO_FLUSH);
      o.append(buf.data(), buf.size() - z.avail_out);
    } while (z.avail_out == 0);
    done = last && r == Z_STREAM_END;
  }
  deflateEnd(&z);
  return o;
}
// true and the bytes if `s` is exactly one complete raw deflate stream
inline bool inflate_raw(const std::string &s, std::string &out, size_t limit = size_t(1) << 34, size_t *used = nullptr) {
  z_stream z;
  memset(&z, 0, sizeof z);
  if (inflateInit2(&z, -15) != Z_OK)
    throw std::runtime_error("zlib inflateInit2");
  out.clear();
  std::vector<char> buf(1 << 16);
  size_t at = 0;
  int r = Z_OK;
  while (r != Z_STREAM_END) {
    if (z.avail_in == 0 && at < s.size()) {
      size_t n = std::min<size_t>(s.size() - at, 1u << 30);
      z.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(s.data() + at));
      z.avail_in = uInt(n);
      at += n;
    }
    z.next_out = reinterpret_cast<Bytef *>(buf.data());
    z.avail_out = uInt(buf.size());
    r = ::inflate(&z, Z_NO_FLUSH);
    size_t have = buf.size() - z.avail_out;
    out.append(buf.data(), have);
    if ((r != Z_OK && r != Z_STREAM_END) || out.size() > limit || (r == Z_OK && have == 0 && z.avail_in == 0 && at == s.size())) {
      inflateEnd(&z);
      return false;
    }
  }
  size_t left = z.avail_in + (s.size() - at);
  inflateEnd(&z);
  if (used) {
    *used = s.size() - left;
    return true;
  }
  return left == 0;
}

inline void p16(std::string &o, std::uint64_t v) { ref::put_part(o, v & 0xFFFF, 2, '<'); }
inline void p32(std::string &o, std::uint64_t v) { ref::put_part(o, v & 0xFFFFFFFF, 4, '<'); }
inline void p64(std::string &o, std::uint64_t v) { ref::put_part(o, v, 8, '<'); }

// ------------------------------------------------------------------ reader ---
struct Entry {
  std::string name;
  std::uint16_t method = 0, flags = 0;
  std::uint32_t crc = 0;
  std::uint64_t csize = 0, usize = 0, offset = 0;
  std::string comment, extra;
  std::string bytes; // uncompressed
  size_t local_at = 0, data_at = 0, cd_at = 0, cd_end = 0;
};
struct Archive {
  bool ok = false;
  std::string why;
  std::vector<Entry> entries; // in directory order
  bool zip64_end = false;
  size_t cd_at = 0, cd_size = 0;
};

// Reads bytes through this so that sparse files can be parsed, too.
using Reader = std::function<std::string(std::uint64_t at, std::uint64_t n)>;

// Strict: every byte of the file belongs to exactly one record, sizes, offsets,
// checksums and both headers of each entry agree.
inline Archive parse(const Reader &get, std::uint64_t size, bool contents = true) {
  Archive a;
  auto bad = [&](const std::string &w) {
    a.ok = false;
    a.why = w;
    return a;
  };
  auto g = [](const std::string &s, size_t at, size_t n) { return ref::get_part(s, at, n, '<'); };
  if (size < 22)
    return bad("shorter than an end record");
  std::string e = get(size - 22, 22);
  if (e.compare(0, 4, "PK\5\6") != 0 || g(e, 20, 2) != 0)
    return bad("no end record at the end");
  if (g(e, 4, 2) != 0 || g(e, 6, 2) != 0)
    return bad("disk numbers");
  std::uint64_t n_disk = g(e, 8, 2), n = g(e, 10, 2), cds = g(e, 12, 4), cdo = g(e, 16, 4), end = size - 22;
  if (n_disk != n)
    return bad("entry counts differ");
  bool need64 = n == 0xFFFF || cds == 0xFFFFFFFF || cdo == 0xFFFFFFFF;
  if (size >= 42) {
    std::string l = get(size - 42, 20);
    if (l.compare(0, 4, "PK\6\7") == 0 && g(l, 4, 4) == 0 && g(l, 16, 4) == 1) {
      std::uint64_t at = g(l, 8, 8);
      if (at > size - 42 || size - 42 - at < 56)
        return bad("ZIP64 locator points outside the file");
      std::string z = get(at, 56);
      if (z.compare(0, 4, "PK\6\6") != 0)
        return bad("ZIP64 end record signature");
      if (g(z, 4, 8) + 12 != size - 42 - at)
        return bad("ZIP64 end record size");
      if (g(z, 14, 2) < 45)
        return bad("ZIP64 end record needs version 4.5");
      if (g(z, 16, 4) || g(z, 20, 4))
        return bad("ZIP64 disk numbers");
      std::uint64_t n64 = g(z, 32, 8), cds64 = g(z, 40, 8), cdo64 = g(z, 48, 8);
      if (g(z, 24, 8) != n64)
        return bad("ZIP64 entry counts differ");
      if ((n != 0xFFFF && n != n64) || (cds != 0xFFFFFFFF && cds != cds64) || (cdo != 0xFFFFFFFF && cdo != cdo64))
        return bad("end records disagree");
      n = n64;
      cds = cds64;
      cdo = cdo64;
      end = at;
      a.zip64_end = true;
    }
  }
  if (need64 && !a.zip64_end && !(n == 0xFFFF && cds != 0xFFFFFFFF && cdo != 0xFFFFFFFF))
    return bad("ZIP64 end record missing");
  if (cdo > end || cds != end - cdo)
    return bad(mc::str("directory (", cdo, "+", cds, ") does not end at the end record (", end, ")"));
  a.cd_at = cdo;
  a.cd_size = cds;
  std::string cd = get(cdo, cds);
  size_t at = 0;
  for (std::uint64_t i = 0; i < n; ++i) {
    Entry en;
    en.cd_at = cdo + at;
    if (cd.size() - at < 46 || cd.compare(at, 4, "PK\1\2") != 0)
      return bad(mc::str("directory record ", i));
    std::uint64_t need = g(cd, at + 6, 2);
    en.flags = std::uint16_t(g(cd, at + 8, 2));
    en.method = std::uint16_t(g(cd, at + 10, 2));
    en.crc = std::uint32_t(g(cd, at + 16, 4));
    en.csize = g(cd, at + 20, 4);
    en.usize = g(cd, at + 24, 4);
    size_t nl = g(cd, at + 28, 2), xl = g(cd, at + 30, 2), cl = g(cd, at + 32, 2);
    if (g(cd, at + 34, 2) != 0)
      return bad("disk number");
    en.offset = g(cd, at + 42, 4);
    if (cd.size() - at - 46 < nl + xl + cl)
      return bad(mc::str("directory record ", i, " exceeds the directory"));
    en.name = cd.substr(at + 46, nl);
    en.extra = cd.substr(at + 46 + nl, xl);
    en.comment = cd.substr(at + 46 + nl + xl, cl);
    at += 46 + nl + xl + cl;
    en.cd_end = cdo + at;
    auto extra = [&](const std::string &x, std::uint64_t *u, std::uint64_t *c, std::uint64_t *o) -> std::string {
      bool used = false;
      for (size_t k = 0; k < x.size();) {
        if (x.size() - k < 4)
          return "extra field is cut short";
        size_t tag = g(x, k, 2), len = g(x, k + 2, 2);
        if (x.size() - k - 4 < len)
          return "extra field exceeds its block";
        if (tag == 1) {
          size_t p = k + 4, e2 = k + 4 + len;
          for (auto f : {u, c, o})
            if (f && *f == 0xFFFFFFFF) {
              if (e2 - p < 8)
                return "ZIP64 extra field lacks a value";
              *f = g(x, p, 8);
              p += 8;
              used = true;
            }
          if (p != e2)
            return "ZIP64 extra field has surplus values";
        }
        k += 4 + len;
      }
      if (used && need < 45)
        return "ZIP64 entry does not need version 4.5";
      return "";
    };
    std::string w = extra(en.extra, &en.usize, &en.csize, &en.offset);
    if (!w.empty())
      return bad("directory: " + w);
    // local header
    if (en.offset > cdo || cdo - en.offset < 30)
      return bad(mc::str("offset of ", mc::quote(en.name, 40), " is outside the archive"));
    std::string l = get(en.offset, 30);
    if (l.compare(0, 4, "PK\3\4") != 0)
      return bad(mc::str("no local header at offset ", en.offset));
    size_t lnl = g(l, 26, 2), lxl = g(l, 28, 2);
    if (cdo - en.offset - 30 < lnl + lxl)
      return bad("local header exceeds the archive");
    std::string ln = get(en.offset + 30, lnl + lxl);
    need = g(l, 4, 2);
    std::uint64_t lu = g(l, 22, 4), lc = g(l, 18, 4);
    w = extra(ln.substr(lnl), &lu, &lc, nullptr);
    if (!w.empty())
      return bad("local: " + w);
    if (ln.substr(0, lnl) != en.name || g(l, 6, 2) != en.flags || g(l, 8, 2) != en.method || g(l, 14, 4) != en.crc || lu != en.usize || lc != en.csize)
      return bad("local header and directory disagree about " + mc::quote(en.name, 40));
    if (g(l, 10, 4) != g(cd, en.cd_at - cdo + 12, 4))
      return bad("time stamps disagree");
    if (en.flags & 0x2009)
      return bad("unexpected flags");
    en.local_at = en.offset;
    en.data_at = en.offset + 30 + lnl + lxl;
    if (cdo - en.data_at < en.csize)
      return bad("data of " + mc::quote(en.name, 40) + " exceeds the archive");
    if (contents) {
      std::string raw = get(en.data_at, en.csize);
      if (en.method == 0) {
        en.bytes = raw;
      } else if (en.method == 8) {
        if (!inflate_raw(raw, en.bytes))
          return bad("deflate stream of " + mc::quote(en.name, 40) + " is invalid");
      } else
        return bad("method");
      if (en.bytes.size() != en.usize)
        return bad("size of " + mc::quote(en.name, 40) + " is wrong");
      if (crc(en.bytes) != en.crc)
        return bad("CRC of " + mc::quote(en.name, 40) + " is wrong");
    } else if (en.method == 0 && en.csize != en.usize)
      return bad("stored sizes differ");
    a.entries.push_back(std::move(en));
  }
  if (at != cd.size())
    return bad("directory has surplus bytes");
  // the entries tile [0, cdo)
  std::vector<std::pair<std::uint64_t, std::uint64_t>> spans;
  for (auto &en : a.entries)
    spans.push_back({en.local_at, en.data_at + en.csize});
  std::sort(spans.begin(), spans.end());
  std::uint64_t pos = 0;
  for (auto &s : spans) {
    if (s.first != pos)
      return bad(mc::str("gap or overlap at offset ", s.first));
    pos = s.second;
  }
  if (pos != cdo)
    return bad("unused bytes before the directory");
  a.ok = true;
  return a;
}
inline Archive parse(const std::string &b, bool contents = true) {
  return parse([&](std::uint64_t at, std::uint64_t n) { return b.substr(at, n); }, b.size(), contents);
}

// ------------------------------------------------------------------ writer ---
struct Out {
  std::string name, bytes; // bytes = uncompressed
  int method = 0;
  std::string packed;      // the stored form, if not derived from bytes
  bool have_packed = false;
  std::string local_extra, cd_extra, comment; // besides ZIP64
  int zip64_local = 0, zip64_cd = 0; // 0 none, 1 all sizes as ZIP64, 2 as 1 plus surplus values
  bool zip64_cd_offset = false;
  bool zip64_first = true; // the ZIP64 block precedes the other extra blocks
  std::uint32_t time = 0x5A215A21, attr = 0x81A40000;
  std::uint16_t flags = 0, made_by = 0x0314, need = 20, internal = 0;
};
struct Options {
  bool zip64_end = false;
  int end_plain = 0;            // with it: bits 1, 2, 4: the plain end record holds the count, size, offset itself
  std::string end_data;         // with it: extensible data sector
  std::uint16_t end_made = 45, end_need = 45;
  std::uint32_t end_disks = 1;
  std::string signature;        // bytes between the directory and the end records
  std::string comment;      // archive comment
  std::string prefix;       // bytes before the first entry (not self-extracting offsets)
  std::uint64_t base = 0;   // the result is to be placed at this offset of a file
  std::vector<size_t> cd_order;
};
inline std::string write(const std::vector<Out> &v, const Options &opt = {}) {
  std::string o = opt.prefix, cd;
  std::vector<std::string> recs;
  for (auto &e : v) {
    std::string raw = e.have_packed ? e.packed : e.method == 8 ? deflate_raw(e.bytes) : e.bytes;
    std::uint32_t c = crc(e.bytes);
    std::uint64_t at = opt.base + o.size();
    auto z64 = [&](int mode, bool sizes, bool off, bool surplus) {
      std::string x, body;
      if (sizes) {
        p64(body, e.bytes.size());
        p64(body, raw.size());
      }
      if (off)
        p64(body, at);
      if (surplus)
        p64(body, 0x1122334455667788ull);
      (void)mode;
      p16(x, 1);
      p16(x, body.size());
      return x + body;
    };
    std::string lx, cx;
    bool lz = e.zip64_local > 0, cz = e.zip64_cd > 0 || e.zip64_cd_offset;
    if (lz)
      lx = z64(1, e.zip64_local > 0, false, e.zip64_local == 2);
    if (cz)
      cx = z64(1, e.zip64_cd > 0, e.zip64_cd_offset, e.zip64_cd == 2);
    // mode 3: a ZIP64 block is present although the plain fields hold the sizes (Python's force_zip64 on the local header)
    bool lplain = e.zip64_local == 0 || e.zip64_local == 3, cplain = e.zip64_cd == 0 || e.zip64_cd == 3;
    lx = e.zip64_first ? lx + e.local_extra : e.local_extra + lx;
    cx = e.zip64_first ? cx + e.cd_extra : e.cd_extra + cx;
    o += "PK\3\4";
    p16(o, lz ? 45 : e.need);
    p16(o, e.flags);
    p16(o, std::uint64_t(e.method));
    p32(o, e.time);
    p32(o, c);
    p32(o, lplain ? raw.size() : 0xFFFFFFFF);
    p32(o, lplain ? e.bytes.size() : 0xFFFFFFFF);
    p16(o, e.name.size());
    p16(o, lx.size());
    o += e.name + lx + raw;
    std::string r = "PK\1\2";
    p16(r, e.made_by);
    p16(r, cz ? 45 : e.need);
    p16(r, e.flags);
    p16(r, std::uint64_t(e.method));
    p32(r, e.time);
    p32(r, c);
    p32(r, cplain ? raw.size() : 0xFFFFFFFF);
    p32(r, cplain ? e.bytes.size() : 0xFFFFFFFF);
    p16(r, e.name.size());
    p16(r, cx.size());
    p16(r, e.comment.size());
    p16(r, 0);
    p16(r, e.internal);
    p32(r, e.attr);
    p32(r, e.zip64_cd_offset ? 0xFFFFFFFF : at);
    recs.push_back(r + e.name + cx + e.comment);
  }
  for (size_t i = 0; i < recs.size(); ++i)
    cd += recs[opt.cd_order.empty() ? i : opt.cd_order[i]];
  std::uint64_t cdo = opt.base + o.size();
  o += cd;
  std::uint64_t n = v.size();
  o += opt.signature;
  if (opt.zip64_end) {
    std::uint64_t at = opt.base + o.size();
    o += "PK\6\6";
    p64(o, 44 + opt.end_data.size());
    p16(o, opt.end_made);
    p16(o, opt.end_need);
    p32(o, 0);
    p32(o, 0);
    p64(o, n);
    p64(o, n);
    p64(o, cd.size());
    p64(o, cdo);
    o += opt.end_data;
    o += "PK\6\7";
    p32(o, 0);
    p64(o, at);
    p32(o, opt.end_disks);
  }
  o += "PK\5\6";
  p16(o, 0);
  p16(o, 0);
  auto plain = [&](int bit) { return !opt.zip64_end || (opt.end_plain & bit); };
  p16(o, plain(1) ? n : 0xFFFF);
  p16(o, plain(1) ? n : 0xFFFF);
  p32(o, plain(2) ? cd.size() : 0xFFFFFFFF);
  p32(o, plain(4) ? cdo : 0xFFFFFFFF);
  p16(o, opt.comment.size());
  return o + opt.comment;
}
} // namespace zref
