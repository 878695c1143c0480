// Arrays of more bytes (and of more elements) than 31 and 32 bits can count.  Elements repeat
// with a period, so that the file need not be held: it is compared while it is written, and
// made while it is read.
#pragma once
#include "common/tensors.hpp"
#include <streambuf>

namespace huge {
// the expected file: a header, then whole periods of the elements up to the size
struct File {
  std::string head, period;
  size_t size = 0;
  // compares or copies the bytes [at, at + n)
  template <class F> void each(size_t at, size_t n, F &&f) const { // f(offset from at, pointer, length)
    size_t done = 0;
    while (done < n) {
      size_t p = at + done;
      const std::string &s = p < head.size() ? head : period;
      size_t o = p < head.size() ? p : (p - head.size()) % period.size(), k = std::min(s.size() - o, n - done);
      f(done, s.data() + o, k);
      done += k;
    }
  }
};
struct Sink : std::streambuf {
  const File &want;
  size_t at = 0;
  std::vector<char> buffer;
  bool good = true;
  size_t wrong = 0;
  explicit Sink(const File &f) : want(f), buffer(1 << 16) { setp(buffer.data(), buffer.data() + buffer.size()); }
  void take(const char *p, size_t n) {
    if (good && at + n <= want.size)
      want.each(at, n, [&](size_t o, const char *q, size_t k) {
        if (good && memcmp(p + o, q, k) != 0)
          good = false, wrong = at + o;
      });
    at += n;
  }
  int sync() override {
    take(pbase(), size_t(pptr() - pbase()));
    setp(buffer.data(), buffer.data() + buffer.size());
    return 0;
  }
  int_type overflow(int_type c) override {
    sync();
    if (c != traits_type::eof())
      sputc(char(c));
    return 0;
  }
  std::streamsize xsputn(const char *p, std::streamsize n) override {
    sync();
    take(p, size_t(n));
    return n;
  }
};
struct Source : std::streambuf {
  const File &from;
  size_t at = 0; // of the end of the get area
  std::vector<char> buffer;
  explicit Source(const File &f) : from(f), buffer(1 << 16) {}
  size_t fetch(char *p, size_t n) {
    n = std::min(n, from.size - at);
    from.each(at, n, [&](size_t o, const char *q, size_t k) { memcpy(p + o, q, k); });
    at += n;
    return n;
  }
  int_type underflow() override {
    size_t n = fetch(buffer.data(), buffer.size());
    if (n == 0)
      return traits_type::eof();
    setg(buffer.data(), buffer.data(), buffer.data() + n);
    return traits_type::to_int_type(*gptr());
  }
  std::streamsize xsgetn(char *p, std::streamsize n) override {
    size_t have = std::min(size_t(egptr() - gptr()), size_t(n));
    memcpy(p, gptr(), have);
    gbump(int(have));
    return std::streamsize(have + fetch(p + have, size_t(n) - have));
  }
};

template <class T> void one(size_t n, bool fo, char order, bool save, bool load) {
  constexpr size_t E = ref::Type<T>::size;
  mc::one([&] { return mc::str("huge ", ref::Type<T>::name, " ", order, " ", n, " elements, ", n * E, " bytes"); },
          [&] {
            mc::alloc_cap = size_t(24) << 30;
            const size_t Q = 8191;
            std::vector<T> v;
            for (size_t i = 0; i < Q; ++i)
              v.push_back(ref::canon(ref::nth<T>(i + 1)));
            File f;
            char o = E == 1 ? '|' : order;
            f.head = ref::header(ref::descr<T>(o), fo, {n});
            f.period = ref::body(v, o, 0);
            f.size = f.head.size() + n * E;
            if (save) {
              npy::tensor<T> t({n}, fo);
              for (size_t i = 0; i < n; i += Q)
                std::copy(v.begin(), v.begin() + long(std::min(Q, n - i)), t.data() + i);
              Sink s(f);
              std::ostream out(&s);
              npy::save(out, t, order == '<' ? ref::LE : ref::BE);
              out.flush();
              if (!out)
                mc::fail("the stream fails");
              if (s.at != f.size)
                mc::fail(mc::str("the file has ", s.at, " bytes instead of ", f.size));
              if (!s.good)
                mc::fail(mc::str("the file differs near byte ", s.wrong, " of ", f.size));
            }
            if (load) {
              Source s(f);
              std::istream in(&s);
              auto t = npy::load<npy::tensor<T>>(in);
              if (t.shape() != space::Shape{n} || t.size() != n || t.fortran_order() != fo)
                mc::fail("shape " + mc::list(t.shape()));
              for (size_t i = 0; i < n; i += Q) {
                size_t k = std::min(Q, n - i);
                if (memcmp(static_cast<const void *>(t.data() + i), v.data(), k * E) != 0)
                  mc::fail(mc::str("elements differ near ", i));
              }
              if (s.at != f.size || s.in_avail() > 0)
                mc::fail("not all of the file was read");
            }
            mc::alloc_cap = size_t(256) << 20;
            mc::outcome(mc::str("huge", ref::Type<T>::name, n, order));
          });
}
inline void all(bool save, bool load) {
  const size_t G4 = size_t(1) << 32;
  ref::each_numeric([&](auto tag) {
    using T = typename decltype(tag)::type;
    constexpr size_t E = ref::Type<T>::size;
    one<T>(G4 / E + 3, E == 2, '<', save, load);
    if (mc::thorough() && E > 1)
      one<T>(G4 / E + 5, E == 4, '>', save, load);
  });
  one<std::int8_t>(G4 / 2 + 5, true, '<', save, load);
  one<npy::boolean>(G4 / 2 + 1, false, '<', save, load);
  one<std::uint16_t>(G4 / 4 + 1, false, '<', save, load);
  if (mc::thorough()) {
    one<std::uint32_t>(G4 / 2 + 5, false, '<', save, load);
    one<float>(G4 / 2 + 5, true, '>', save, load);
    one<std::int16_t>(G4 + 5, true, '>', save, load);
    one<std::uint16_t>(G4 + 5, false, '<', save, load);
  } else
    one<std::int32_t>(G4 / 4 + 5, true, '>', save, load);
}
} // namespace huge
