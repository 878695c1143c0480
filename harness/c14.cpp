// C14: compression is lossless, interoperable, and rejects corrupt streams.
#include "common/zipref.hpp"
#include "zip.h"

namespace {
constexpr size_t CHUNK = size_t(1) << 20;
constexpr size_t MEMORY = size_t(200) << 20;

struct Verdict {
  enum { RIGHT, TRAILING, INVALID, UNDECIDED } kind = INVALID;
  std::string bytes, why;
};
// what an independent inflater says about the stream
Verdict verdict(const std::string &s) {
  Verdict v;
  z_stream z;
  memset(&z, 0, sizeof z);
  if (inflateInit2(&z, -15) != Z_OK)
    throw std::runtime_error("zlib inflateInit2");
  static std::vector<char> buf(1 << 18);
  z.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(s.data()));
  z.avail_in = uInt(s.size());
  int r = Z_OK;
  for (;;) {
    z.next_out = reinterpret_cast<Bytef *>(buf.data());
    z.avail_out = uInt(buf.size());
    r = ::inflate(&z, Z_NO_FLUSH);
    v.bytes.append(buf.data(), buf.size() - z.avail_out);
    if (r != Z_OK || (z.avail_out != 0 && z.avail_in == 0))
      break;
  }
  if (r == Z_STREAM_END)
    v.kind = z.avail_in ? Verdict::TRAILING : Verdict::RIGHT;
  else {
    v.why = z.msg ? z.msg : "truncated";
    // zlib refuses 31 and 32 distance codes, which RFC 1951 does not
    v.kind = v.why == "too many length or distance symbols" ? Verdict::UNDECIDED : Verdict::INVALID;
  }
  inflateEnd(&z);
  return v;
}
// npy_inflate against the verdict
void inflate(const std::string &s) {
  Verdict v = verdict(s);
  std::string out, what;
  bool threw = false;
  mc::alloc_peak = 0;
  try {
    std::string copy = s;
    out = npy::npy_inflate(std::move(copy));
  } catch (const std::exception &e) {
    threw = true;
    what = e.what();
  }
  if (mc::alloc_peak > MEMORY && v.bytes.size() < MEMORY / 8)
    mc::fail(mc::str("a stream of ", s.size(), " bytes (", v.why.empty() ? "valid" : v.why, ", ", v.bytes.size(), " bytes of output) makes npy_inflate allocate ", mc::alloc_peak, " bytes"));
  switch (v.kind) {
  case Verdict::RIGHT:
    if (threw)
      mc::fail(mc::str("a valid stream (", v.bytes.size(), " bytes) is refused: ", what, "; stream ", mc::hex(s, 80)));
    if (out != v.bytes)
      mc::fail(mc::str("a valid stream decompresses to ", out.size(), " bytes ", mc::hex(out, 24), " instead of ", v.bytes.size(), " bytes ", mc::hex(v.bytes, 24)));
    mc::count("valid streams");
    mc::nontrivial();
    mc::outcome(mc::hash(out));
    break;
  case Verdict::TRAILING: // bytes after the end may be refused
    if (!threw && out != v.bytes)
      mc::fail(mc::str("a valid stream with bytes after it decompresses to ", out.size(), " bytes instead of ", v.bytes.size()));
    mc::count("streams with bytes after the end");
    mc::outcome(mc::hash(v.bytes) + 1);
    break;
  case Verdict::INVALID:
    if (!threw)
      mc::fail(mc::str("an invalid stream (", v.why, ") decompresses to ", out.size(), " bytes ", mc::hex(out, 24), "; stream ", mc::hex(s, 80)));
    mc::count("invalid streams");
    mc::nontrivial();
    mc::outcome(mc::hash(v.why) + s.size());
    break;
  case Verdict::UNDECIDED:
    mc::count("streams RFC 1951 and zlib disagree about");
  }
}
// compression: lossless, interoperable, checksum
void compress(const std::string &s) {
  std::uint32_t c = npy::npy_crc32(s);
  if (c != zref::crc(s))
    mc::fail(mc::str("checksum of ", s.size(), " bytes is ", c, ", expected ", zref::crc(s)));
  std::string copy = s;
  std::string d = npy::npy_deflate(std::move(copy));
  std::string out;
  if (!zref::inflate_raw(d, out))
    mc::fail(mc::str("the compressed form (", d.size(), " bytes) of ", s.size(), " bytes is not a complete deflate stream: ", mc::hex(d, 60)));
  if (out != s)
    mc::fail(mc::str("the compressed form of ", s.size(), " bytes decompresses elsewhere to ", out.size(), " different bytes"));
  out = npy::npy_inflate(std::move(d));
  if (out != s)
    mc::fail(mc::str("round trip of ", s.size(), " bytes gives ", out.size(), " bytes"));
  mc::count("round trips");
  mc::outcome(mc::hash(s));
}

struct Bits {
  std::string o;
  int n = 0;
  void put(std::uint64_t v, int k) { // least significant bit first
    for (int i = 0; i < k; ++i) {
      if (n % 8 == 0)
        o += '\0';
      if ((v >> i) & 1)
        o.back() = char(o.back() | (1 << (n % 8)));
      ++n;
    }
  }
  void code(unsigned v, int k) { // Huffman codes: most significant bit first
    for (int i = k - 1; i >= 0; --i)
      put((v >> i) & 1, 1);
  }
  void align() {
    while (n % 8)
      put(0, 1);
  }
};
void fixed_symbol(Bits &b, unsigned s) {
  if (s < 144)
    b.code(0x30 + s, 8);
  else if (s < 256)
    b.code(0x190 + s - 144, 9);
  else if (s < 280)
    b.code(s - 256, 7);
  else
    b.code(0xC0 + s - 280, 8);
}
const int len_base[29] = {3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258};
const int len_extra[29] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0};
const int dist_base[30] = {1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577};
const int dist_extra[30] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13};
void fixed_match(Bits &b, int len, int dist) {
  int l = 28;
  while (len < len_base[l])
    --l;
  fixed_symbol(b, unsigned(257 + l));
  b.put(std::uint64_t(len - len_base[l]), len_extra[l]);
  int d = 29;
  while (dist < dist_base[d])
    --d;
  b.code(unsigned(d), 5);
  b.put(std::uint64_t(dist - dist_base[d]), dist_extra[d]);
}
void stored(Bits &b, const std::string &data, bool final) {
  b.put(final, 1);
  b.put(0, 2);
  b.align();
  b.put(data.size(), 16);
  b.put(~data.size(), 16);
  b.o += data;
  b.n += int(data.size()) * 8;
}
// deterministic contents without repetitions
std::string noise(size_t n, std::uint64_t seed = 1) {
  std::string s(n, '\0');
  std::uint64_t x = seed * 0x9E3779B97F4A7C15ull + 1;
  for (auto &c : s) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    c = char(x >> 56);
  }
  return s;
}
std::string content(int kind, size_t n) {
  std::string s(n, '\0');
  switch (kind) {
  case 0:
    break;
  case 1:
    for (size_t i = 0; i < n; ++i)
      s[i] = char(i);
    break;
  case 2:
    for (size_t i = 0; i < n; ++i)
      s[i] = "abc"[i % 3];
    break;
  case 3:
    return noise(n);
  case 4: // little-endian numbers
    for (size_t i = 0; i < n; ++i)
      s[i] = char((i / 4) >> (8 * (i % 4)));
    break;
  case 5: { // runs of growing length
    size_t i = 0, run = 1;
    while (i < n) {
      for (size_t k = 0; k < run && i < n; ++k)
        s[i++] = char(run * 37);
      ++run;
    }
    break;
  }
  }
  return s;
}
const char *kind_name[] = {"zeros", "ramp", "period 3", "noise", "numbers", "runs"};

// a dynamic block whose tables have the given code lengths; payload is raw bits
std::string dynamic(const std::vector<std::pair<int, int>> &lit, const std::vector<std::pair<int, int>> &dist, int hlit, int hdist, std::uint64_t payload, int payload_bits) {
  Bits b;
  b.put(1, 1);
  b.put(2, 2);
  b.put(std::uint64_t(hlit - 257), 5);
  b.put(std::uint64_t(hdist - 1), 5);
  b.put(15, 4); // 19 code lengths
  // code lengths 0-12: 4 bits, 13-18: 5 bits (a complete code)
  static const int order[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
  for (int i : order)
    b.put(i < 13 ? 4 : 5, 3);
  std::vector<int> l(size_t(hlit + hdist), 0);
  for (auto &p : lit)
    if (p.first < hlit)
      l[size_t(p.first)] = p.second;
  for (auto &p : dist)
    if (p.first < hdist)
      l[size_t(hlit + p.first)] = p.second;
  for (int v : l) {
    if (v < 13)
      b.code(unsigned(v), 4);
    else
      b.code(unsigned(26 + v - 13), 5);
  }
  b.put(payload, payload_bits);
  return b.o;
}
// a dynamic block whose tables are given by a sequence of code length symbols (symbol, extra value), followed by symbols of the code it should describe
std::string dynamic_rle(const std::vector<std::pair<int, int>> &ops, int hlit, int hdist) {
  Bits b;
  b.put(1, 1);
  b.put(2, 2);
  b.put(std::uint64_t(hlit - 257), 5);
  b.put(std::uint64_t(hdist - 1), 5);
  b.put(15, 4);
  static const int order[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
  for (int i : order)
    b.put(i < 13 ? 4 : 5, 3);
  std::vector<int> l;
  for (auto &o : ops) {
    if (o.first < 13)
      b.code(unsigned(o.first), 4);
    else
      b.code(unsigned(26 + o.first - 13), 5);
    if (o.first < 16)
      l.push_back(o.first);
    else {
      static const int bits[] = {2, 3, 7}, base[] = {3, 3, 11};
      b.put(std::uint64_t(o.second), bits[o.first - 16]);
      l.insert(l.end(), size_t(base[o.first - 16] + o.second), o.first == 16 && !l.empty() ? l.back() : 0);
    }
  }
  l.resize(size_t(hlit + hdist), 0);
  l.resize(size_t(hlit));
  // canonical codes
  int count[17] = {}, next[17] = {};
  for (int v : l)
    ++count[v];
  count[0] = 0;
  for (int i = 1; i < 16; ++i)
    next[i + 1] = (next[i] + count[i]) << 1;
  std::vector<int> code(l.size());
  for (size_t i = 0; i < l.size(); ++i)
    if (l[i])
      code[i] = next[l[i]]++;
  int shown = 0;
  for (size_t i = 0; i < 256 && i < l.size(); ++i)
    if (l[i] && shown++ < 12)
      b.code(unsigned(code[i]), l[i]);
  if (l[256])
    b.code(unsigned(code[256]), l[256]);
  b.put(0, 32);
  return b.o;
}
} // namespace

void explore() {
  const bool th = mc::thorough();
  auto comp = [](const std::string &what, const std::function<std::string()> &make) {
    mc::one([&] { return what; }, [&] { compress(make()); });
  };
  auto infl = [](const std::function<std::string()> &what, const std::function<std::string()> &make) { mc::one(what, [&] { inflate(make()); }); };

  // 1. all short strings
  struct A {
    int letters;
    size_t len;
  };
  for (A a : {A{1, th ? 700u : 300u}, A{2, th ? 15u : 12u}, A{3, th ? 10u : 8u}, A{4, th ? 8u : 6u}, A{256, th ? 2u : 2u}}) {
    std::string s;
    std::function<void(size_t)> rec = [&](size_t left) {
      comp("all strings: " + mc::hex(s, 400), [&] { return s; });
      if (!left)
        return;
      for (int c = 0; c < a.letters; ++c) {
        if (!th && a.letters == 256 && s.size() == 1 && c % 5)
          continue;
        s.push_back(char(a.letters == 256 ? c : c * 0x55));
        rec(left - 1);
        s.pop_back();
      }
    };
    rec(a.len);
  }
  // 2. every sequence of up to 2 bytes (thorough: 3) as a compressed stream
  infl([] { return std::string("empty stream"); }, [] { return std::string(); });
  for (int a = 0; a < 256; ++a)
    infl([&] { return mc::str("stream ", a); }, [&] { return std::string(1, char(a)); });
  for (int a = 0; a < 65536; ++a)
    infl([&] { return mc::str("stream ", a & 255, ",", a >> 8); }, [&] { return std::string{char(a), char(a >> 8)}; });
  if (th)
    for (int a = 0; a < (1 << 24); ++a)
      infl([&] { return mc::str("stream ", a & 255, ",", (a >> 8) & 255, ",", a >> 16); }, [&] { return std::string{char(a), char(a >> 8), char(a >> 16)}; });
  // 3. fixed-code blocks: every length symbol and distance symbol with extreme extra bits, valid exactly if the distance has been produced
  for (int d = 0; d < 30; ++d)
    for (int dx : {0, 1})
      for (int l = 0; l < 29; ++l)
        for (int lx : {0, 1})
          for (int off : {-1, 0, 1}) { // bytes before the match: distance + off
            int dist = dist_base[d] + (dx ? (1 << dist_extra[d]) - 1 : 0), len = len_base[l] + (lx ? (1 << len_extra[l]) - 1 : 0);
            if (len > 258 || dist + off < 0 || (!th && dist > 600 && (l % 7 || lx)))
              continue;
            infl([&] { return mc::str("fixed codes: ", dist + off, " bytes, then a match of ", len, " at distance ", dist); },
                 [&] {
                   Bits b;
                   std::string pre = noise(size_t(dist + off), 7);
                   for (size_t at = 0; at < pre.size(); at += 65535)
                     stored(b, pre.substr(at, 65535), false);
                   b.put(1, 1);
                   b.put(1, 2);
                   fixed_match(b, len, dist);
                   fixed_symbol(b, 'x');
                   fixed_symbol(b, 256);
                   return b.o;
                 });
          }
  // 3b. the same for every length and distance up to 300, and matches across the window boundary
  for (int dist = 1; dist <= (th ? 300 : 40); ++dist)
    for (int len = 3; len <= 258; len += th || dist < 10 ? 1 : 5)
      infl([&] { return mc::str("fixed codes: match of ", len, " at distance ", dist); },
           [&] {
             Bits b;
             stored(b, noise(size_t(dist), 3), false);
             b.put(1, 1);
             b.put(1, 2);
             fixed_match(b, len, dist);
             fixed_symbol(b, 256);
             return b.o;
           });
  for (size_t window : {size_t(32768), size_t(65536), CHUNK})
    for (int before = -4; before <= 262; ++before)
      for (int len : {3, 4, 10, 11, 100, 257, 258})
        for (int dist : {1, 2, 3, 8, 9, 258, 32767, 32768}) {
          if (!th && (window == CHUNK) && (before % 10 > 4 || dist == 258 || len == 257))
            continue;
          for (int tail : {0, 1, 2, 7}) {
            if (!th && window != 32768 && tail > 0)
              continue;
            infl([&] { return mc::str("fixed codes: match of ", len, " at distance ", dist, " after ", window, "-", before, " bytes, ", tail, " literals"); },
                 [&] {
                   Bits b;
                   std::string pre = noise(window - size_t(before), 11);
                   for (size_t at = 0; at < pre.size(); at += 65535)
                     stored(b, pre.substr(at, 65535), false);
                   b.put(1, 1);
                   b.put(1, 2);
                   fixed_match(b, len, dist);
                   for (int i = 0; i < tail; ++i)
                     fixed_symbol(b, unsigned(i));
                   fixed_symbol(b, 256);
                   return b.o;
                 });
          }
        }
  // 3c. invalid length and distance symbols at every position near the window boundary
  for (size_t window : {size_t(0), size_t(32768), size_t(65536)})
    for (int before = -2; before <= 12; ++before)
      for (unsigned sym : {286u, 287u, 257u, 285u})
        for (unsigned d = 0; d < 32; ++d) {
          if (window < size_t(before < 0 ? 0 : before) || (sym < 286 && d < 30))
            continue;
          infl([&] { return mc::str("fixed codes: length symbol ", sym, " and distance symbol ", d, " after ", window, "-", before, " bytes"); },
               [&] {
                 Bits b;
                 std::string pre = noise(window - size_t(before), 5);
                 for (size_t at = 0; at < pre.size(); at += 65535)
                   stored(b, pre.substr(at, 65535), false);
                 b.put(1, 1);
                 b.put(1, 2);
                 fixed_symbol(b, sym);
                 b.code(d, 5);
                 if (d < 30)
                   b.put(0, dist_extra[d]);
                 for (int i = 0; i < 20; ++i)
                   fixed_symbol(b, 'q');
                 fixed_symbol(b, 256);
                 return b.o;
               });
        }
  // 4. dynamic blocks: code lengths of four literal/length and two distance symbols x payload bits
  const std::vector<int> lens = th ? std::vector<int>{0, 1, 2, 3, 10, 11, 12, 15} : std::vector<int>{0, 1, 2, 11};
  for (int a : lens)
    for (int e : lens)
      for (int m : lens)
        for (int x : lens)
          for (int d0 : {0, 1, 2, 12})
            for (int d1 : {0, 1, 15})
              for (std::uint64_t payload : {0x0ull, 0xFFFFFFFFFFull, 0x5555555555ull, 0x1ull, 0x2ull, 0x4ull, 0x6ull, 0xFFFFFFFFF0ull, 0x3333333333ull}) {
                if (!th && payload > 6 && payload < 0xF000000000ull && (d0 == 12 || d1 == 15))
                  continue;
                infl([&] { return mc::str("dynamic codes: lengths of 'A' ", a, ", end ", e, ", 257 ", m, ", 285 ", x, "; distances 0: ", d0, ", 29: ", d1, "; payload ", payload); },
                     [&] { return dynamic({{65, a}, {256, e}, {257, m}, {285, x}}, {{0, d0}, {29, d1}}, 286, 30, payload, 40); });
              }
  // 4b. numbers of codes
  for (int hlit = 257; hlit <= 288; ++hlit)
    for (int hdist = 1; hdist <= 32; ++hdist)
      infl([&] { return mc::str("dynamic codes: ", hlit, " literal/length codes, ", hdist, " distance codes"); },
           [&] { return dynamic({{65, 1}, {256, 1}}, {{0, 1}, {hdist - 1, 1}}, hlit, hdist, 0x2, 40); });
  // 4c. code-length codes: every assignment of lengths 0-7 to one, 0-2 to four symbols, then payload
  for (int n = 4; n <= 19; ++n)
    for (std::uint64_t assign = 0; assign < (th ? 6561u : 729u); ++assign)
      for (std::uint64_t payload : {0x0ull, ~0ull, 0x123456789ABCDEFull}) {
        infl([&] { return mc::str("code-length codes: ", n, " codes, assignment ", assign, ", payload ", payload); },
             [&] {
               Bits b;
               b.put(1, 1);
               b.put(2, 2);
               b.put(0, 5);
               b.put(0, 5);
               b.put(std::uint64_t(n - 4), 4);
               std::uint64_t r = assign;
               for (int i = 0; i < n; ++i) {
                 // the symbols 16-18, 0, 8, 7, ...: the first ones and the last
                 bool used = i < 5 || i == n - 1 || (th && i < 7);
                 b.put(used ? r % 3 : 0, 3);
                 if (used)
                   r /= 3;
               }
               for (int i = 0; i < 8; ++i)
                 b.put(payload, 64);
               return b.o;
             });
      }
  // 4d. code lengths given by repetitions: all sequences of up to 4 (thorough: 5) code length symbols, completed to a full code, x ends of the sequence
  {
    const std::vector<std::pair<int, int>> alphabet = {{0, 0}, {8, 0}, {16, 0}, {16, 3}, {17, 0}, {17, 7}, {18, 0}, {18, 127}};
    std::vector<std::pair<int, int>> seq;
    std::function<void(size_t)> rec = [&](size_t left) {
      int at = 0, eights = 0, last = 0;
      for (auto &o : seq) {
        int n = o.first < 16 ? 1 : o.first < 18 ? 3 + o.second : 11 + o.second;
        int v = o.first < 16 ? o.first : o.first == 16 ? last : 0;
        at += n;
        eights += v == 8 ? n : 0;
        last = v;
      }
      if (at > 256)
        return;
      // the rest: zeros up to 256, then what makes the code complete, then the distance codes
      std::vector<std::pair<int, int>> ops = seq;
      auto zeros = [&](int n) {
        while (n > 0)
          if (n >= 11) {
            int k = std::min(n, 138);
            ops.push_back({18, k - 11});
            n -= k;
          } else if (n >= 3) {
            ops.push_back({17, n - 3});
            n = 0;
          } else {
            ops.push_back({0, 0});
            --n;
          }
      };
      zeros(256 - at);
      int hlit = 256;
      for (int bit = 7; bit >= 0; --bit)
        if (((256 - eights) >> bit) & 1) {
          ops.push_back({8 - bit, 0});
          ++hlit;
        }
      if (eights == 0) {
        ops.push_back({1, 0});
        ops.push_back({1, 0});
        hlit = 258;
      }
      for (int end = 0; end < 8; ++end)
        mc::one([&] {
          std::string t = "code length symbols";
          for (auto &o : seq)
            t += mc::str(" ", o.first, "+", o.second);
          return t + mc::str(", completed; end ", end);
        }, [&] {
          auto o = ops;
          int hdist = 1, lits = hlit;
          switch (end) {
          case 0: o.push_back({1, 0}); break;
          case 1: o.push_back({0, 0}); break;
          case 2: o.push_back({17, 0}); hdist = 3; break;
          case 3: o.push_back({17, 1}); hdist = 3; break; // one too many
          case 4: o.push_back({16, 0}); hdist = 3; break; // repeats the last length of the other code
          case 5: o.push_back({1, 0}); o.push_back({1, 0}); o.push_back({16, 0}); hdist = 4; break; // one too many, and too full
          case 6: o.push_back({18, 127}); hdist = 30; break;
          case 7: // the repetition covers the end of the one code and the start of the other
            o.push_back({17, 7});
            lits = hlit + 5;
            hdist = 5;
            if (lits > 286)
              lits = 286, hdist = hlit + 10 - 286;
            break;
          }
          inflate(dynamic_rle(o, lits, hdist));
        });
      if (!left)
        return;
      for (auto &a : alphabet) {
        seq.push_back(a);
        rec(left - 1);
        seq.pop_back();
      }
    };
    rec(th ? 5 : 4);
  }
  // 5. sizes around the window, the 64 KiB and the chunk size
  for (int kind = 0; kind < 6; ++kind) {
    auto both = [&](size_t n) {
      comp(mc::str(kind_name[kind], ", ", n, " bytes"), [&] { return content(kind, n); });
    };
    for (size_t n = 0; n < (th ? 2000u : 300u); ++n)
      both(n);
    for (size_t w : {size_t(32768), size_t(65536), size_t(98304)})
      for (size_t n = w - 3; n <= w + (th ? 600 : 290); n += (w == 32768 || th) ? 1 : 3)
        both(n);
    for (size_t w : {CHUNK, 2 * CHUNK})
      for (int off : {-32769, -32768, -65536, -258, -2, -1, 0, 1, 2, 3, 257, 258, 259, 32768})
        if (th || w == CHUNK || kind == 0 || (off >= -1 && off <= 1))
          both(size_t(std::int64_t(w) + off));
    if (th)
      for (size_t k = 5; k <= 24; ++k)
        for (int off : {-1, 0, 1})
          both((size_t(1) << k) + size_t(off));
    // the same through the reference encoder
    for (size_t w : {size_t(32768), size_t(65536)})
      for (size_t n = w - 3; n <= w + 290; ++n)
        for (int mode = 0; mode < 4; ++mode) {
          if (!th && (w == 65536 ? n % 7 : n % 2 && mode))
            continue;
          static const int level[] = {9, 1, 6, 6}, strategy[] = {Z_DEFAULT_STRATEGY, Z_DEFAULT_STRATEGY, Z_RLE, Z_FIXED};
          infl([&] { return mc::str("zlib level ", level[mode], " strategy ", strategy[mode], ", ", kind_name[kind], ", ", n, " bytes"); },
               [&] { return zref::deflate_raw(content(kind, n), level[mode], strategy[mode]); });
        }
  }
  // 5a. one repetition in incompressible contents: at every position relative to the end of the window, from every distance class, ended by every kind of byte
  for (size_t window : {size_t(32768), size_t(65536)})
    for (int before = -4; before <= 262; ++before)
      for (int len : {257, 258, 3, 4, 31, 33, 259, 300})
        for (int which = 0; which < 4; ++which) {
          if (!th && ((len != 257 && len != 258 && before > 3 && before % 16) || (window == 65536 && before > 8 && before % 6)))
            continue;
          // the repetition, or what it repeats, starts at window - before
          size_t p = which < 3 ? window - size_t(before) : window - size_t(before) + 1000;
          size_t q = which == 0 ? 1000 : which == 1 ? p - std::min(p, size_t(32768)) : which == 2 ? p - 700 : window - size_t(before);
          for (int end : {0, 1, 2, 3}) {
            if (end == 2 && !th && before > 3)
              continue;
            comp(mc::str("noise with a repetition of ", len, " bytes at ", p, " of ", q, ", ended by kind ", end), [&] {
              std::string s = noise(p + size_t(len) + 40, 21);
              for (auto &c : s)
                if (!c)
                  c = 1;
              std::string block = s.substr(q, size_t(len));
              if (q + size_t(len) < p && end != 2) // what a longer match would need: also what fresh memory contains
                s[q + size_t(len)] = end == 0 ? '\0' : end == 1 ? '\x5a' : '\xbe';
              s.replace(p, size_t(len), block);
              s[p + size_t(len)] = end == 1 ? '\0' : end == 2 ? '\xff' : 'X';
              return s;
            });
          }
        }
  // 5b. compressed sizes around the chunk size: incompressible contents
  {
    static size_t over = 0;
    auto overhead = [] {
      if (!over) {
        std::string s = noise(CHUNK);
        over = npy::npy_deflate(std::move(s)).size() - CHUNK;
      }
      return over;
    };
    for (int off = -14; off <= 14; ++off)
      comp(mc::str("noise compressed to the chunk size ", off), [&] { return noise(CHUNK - overhead() + size_t(off)); });
    // stored blocks whose headers straddle the chunk boundary; trailing blocks of every kind
    for (int off = -12; off <= 12; ++off)
      for (int tail = 0; tail < 4; ++tail)
        infl([&] { return mc::str("stored blocks up to the chunk size ", off, ", then tail ", tail); },
             [&] {
               Bits b;
               size_t left = CHUNK + size_t(off);
               while (left > 65540) {
                 stored(b, noise(65535, left), false);
                 left -= 65540;
               }
               stored(b, noise(left - 5, 2), tail == 0);
               if (tail == 1)
                 stored(b, "tail", true);
               if (tail == 2) {
                 b.put(1, 1);
                 b.put(1, 2);
                 for (int i = 0; i < 30; ++i)
                   fixed_symbol(b, unsigned(i * 8));
                 fixed_match(b, 258, 32768);
                 fixed_symbol(b, 256);
               }
               if (tail == 3) {
                 std::string z = zref::deflate_raw(content(4, 300) + content(1, 100));
                 b.align();
                 b.o += z;
               }
               return b.o;
             });
    for (int off = 0; off < (th ? 64 : 16); ++off)
      infl([&] { return mc::str("Huffman-only noise ", off); },
           [&] {
             std::string s = noise(CHUNK + CHUNK / 2 + size_t(off));
             for (auto &c : s)
               c = char((unsigned char)c % 97);
             return zref::deflate_raw(s, 6, Z_HUFFMAN_ONLY);
           });
  }
  // 6. the reference encoder at all settings
  for (int kind = 0; kind < 6; ++kind)
    for (size_t n : {size_t(0), size_t(1), size_t(40), size_t(5000), size_t(70000)})
      for (int level = 0; level <= 9; ++level)
        for (int strategy : {Z_DEFAULT_STRATEGY, Z_FILTERED, Z_HUFFMAN_ONLY, Z_RLE, Z_FIXED})
          for (int wbits : {9, 11, 15})
            for (int mem : {1, 4, 9}) {
              if (!th && n == 70000 && (level % 3 || mem == 4))
                continue;
              infl([&] { return mc::str("zlib level ", level, " strategy ", strategy, " window ", wbits, " memory ", mem, ", ", kind_name[kind], ", ", n, " bytes"); },
                   [&] { return zref::deflate_raw(content(kind, n), level, strategy, wbits, mem); });
            }
  // 7. all truncations and single-byte changes of small streams
  std::vector<std::pair<std::string, std::string>> small;
  for (int kind = 0; kind < 6; ++kind)
    small.push_back({mc::str("npy_deflate of 70 bytes of ", kind_name[kind]), npy::npy_deflate(content(kind, 70))});
  small.push_back({"npy_deflate of text", npy::npy_deflate(std::string("\x93NUMPY\1\0v\0{'descr': '<i4', 'fortran_order': False, 'shape': (2, 3), }            \n", 78))});
  small.push_back({"npy_deflate of zeros", npy::npy_deflate(std::string(40000, '\0'))});
  small.push_back({"fixed codes", zref::deflate_raw("abracadabra abracadabra abra", 9, Z_FIXED)});
  small.push_back({"level 0", zref::deflate_raw("stored block", 0)});
  small.push_back({"flushed", zref::deflate_raw("flushed after every few bytes", 6, 0, 15, 8, 7, Z_FULL_FLUSH)});
  small.push_back({"dynamic codes", zref::deflate_raw(content(5, 600) + content(2, 90), 9)});
  small.push_back({"dynamic codes, few symbols", dynamic({{65, 1}, {66, 2}, {256, 3}, {285, 3}}, {{0, 1}}, 286, 1, 0x0F8642, 40)});
  for (auto &p : small) {
    mc::one([&] { return p.first + ": intact"; }, [&] { inflate(p.second); });
    for (size_t n = 0; n < p.second.size(); ++n)
      infl([&] { return mc::str(p.first, ": cut to ", n, " of ", p.second.size(), " bytes"); }, [&] { return p.second.substr(0, n); });
    for (size_t at = 0; at < p.second.size(); ++at)
      for (int x = 1; x < 256; ++x)
        infl([&] { return mc::str(p.first, ": byte ", at, " xor ", x); },
             [&] {
               std::string s = p.second;
               s[at] = char(s[at] ^ x);
               return s;
             });
    for (size_t n = 2; n <= p.second.size(); ++n)
      for (size_t at = 0; at + n <= p.second.size(); ++at) {
        if (!th && n > 8 && n % 8)
          continue;
        for (int f : {0, 255})
          infl([&] { return mc::str(p.first, ": ", n, " bytes at ", at, " set to ", f); },
               [&] {
                 std::string s = p.second;
                 for (size_t i = at; i < at + n; ++i)
                   s[i] = char(f);
                 return s;
               });
      }
    if (th) // pairs of changed bits
      for (size_t a = 0; a < p.second.size() * 8; ++a)
        for (size_t b = 0; b < a; ++b)
          infl([&] { return mc::str(p.first, ": bits ", a, " and ", b, " flipped"); },
               [&] {
                 std::string s = p.second;
                 s[a / 8] = char(s[a / 8] ^ (1 << (a % 8)));
                 s[b / 8] = char(s[b / 8] ^ (1 << (b % 8)));
                 return s;
               });
    for (int c = 0; c < 256; ++c)
      infl([&] { return mc::str(p.first, ": followed by byte ", c); }, [&] { return p.second + char(c); });
  }
}
