// C09: npy::boolean behaves like bool and stores exactly 0 or 1.
#include "common/tensors.hpp"
#include <bitset>
#include <memory>
#include <optional>

namespace {
enum Plain : int { PZero = 0, POne = 1, PBig = 256, PNeg = -5 };
enum Wide : std::uint64_t { WZero = 0, WHigh = 0x100000000ull, WTop = 0x8000000000000000ull };
struct Explicit { // only contextually convertible
  int v;
  explicit operator bool() const { return v != 0; }
};
struct Implicit {
  std::int64_t v;
  operator bool() const { return v < 0; } // not what its number suggests
};
struct ToLong { // through a conversion to a number
  long v;
  operator long() const { return v; }
};
struct Member {
  int a, b;
};
void function_() {}

// raw byte of a boolean
int raw(const npy::boolean &b) {
  unsigned char c;
  static_assert(sizeof(npy::boolean) == 1);
  memcpy(&c, &b, 1);
  return c;
}
std::string show(const npy::boolean &b) { return mc::str("stored ", raw(b), ", converts to ", bool(b)); }

void is(const npy::boolean &b, bool want, const char *how) {
  if (raw(b) != (want ? 1 : 0) || b.value != (want ? 1 : 0))
    mc::fail(mc::str(how, ": ", show(b), ", expected ", want));
  bool back = b;
  if (back != want || static_cast<bool>(b) != want || !b == want || (b ? true : false) != want || (b && true) != want || (b || false) != want || (b == want) != true ||
      (b != want) != false || int(bool(b)) != int(want))
    mc::fail(mc::str(how, ": converts to ", back, ", expected ", want));
}
// all ways of making a boolean from v
template <class V> void from(const V &v) {
  const bool want = v ? true : false;
  npy::boolean a(v);
  is(a, want, "construction");
  npy::boolean c = npy::boolean(v);
  is(c, want, "copy initialisation");
  for (int before = 0; before < 2; ++before) {
    npy::boolean d;
    d = bool(before);
    npy::boolean &r = (d = v);
    if (&r != &d)
      mc::fail("assignment does not return its target");
    is(d, want, "assignment");
    npy::boolean e(bool(before != 0));
    e = npy::boolean(v);
    is(e, want, "assignment of a boolean");
    npy::boolean f(e);
    is(f, want, "copy");
    npy::boolean g(std::move(f));
    is(g, want, "move");
  }
  const npy::boolean k(v);
  is(k, want, "const construction");
}
template <class V> void many(const char *name, const std::vector<V> &vs) {
  mc::one([&] { return mc::str(vs.size(), " values of ", name); },
          [&] {
            for (const auto &v : vs)
              from(v);
            mc::count("values", vs.size());
            mc::outcome(std::string(name));
          });
}
template <class I> void all_small(const char *name) {
  std::vector<I> v;
  for (std::int64_t i = std::numeric_limits<I>::min(); i <= std::int64_t(std::numeric_limits<I>::max()); ++i)
    v.push_back(I(i));
  many(name, v);
}
// every pattern with at most three bits set, its complement, and all 2^16 windows
template <class I> void patterns(const char *name) {
  std::vector<I> v = {I(0)};
  const int n = 8 * sizeof(I);
  auto add = [&](std::uint64_t p) {
    I x;
    memcpy(&x, &p, sizeof x);
    v.push_back(x);
    p = ~p;
    memcpy(&x, &p, sizeof x);
    v.push_back(x);
  };
  for (int a = 0; a < n; ++a)
    for (int b = a; b < n; ++b)
      for (int c = b; c < n; c += 1)
        add((1ull << a) | (1ull << b) | (1ull << c));
  for (int sh = 0; sh < n; sh += 8)
    for (std::uint64_t w = 0; w < 65536; ++w)
      add(w << sh);
  many(name, v);
}
} // namespace

void explore() {
  const bool th = mc::thorough();
  mc::one([] { return std::string("default construction"); }, [] { is(npy::boolean(), false, "default"); });
  many<char>("bool", {0, 1});
  mc::one([] { return std::string("bool values"); },
          [] {
            for (bool b : {false, true})
              from(b);
            from(true);
            from(false);
          });
  all_small<std::int8_t>("int8");
  all_small<std::uint8_t>("uint8");
  all_small<char>("char");
  all_small<std::int16_t>("int16");
  all_small<std::uint16_t>("uint16");
  all_small<char16_t>("char16_t");
  patterns<std::int32_t>("int32");
  patterns<std::uint32_t>("uint32");
  patterns<std::int64_t>("int64");
  patterns<std::uint64_t>("uint64");
  patterns<wchar_t>("wchar_t");
  patterns<long long>("long long");
  patterns<float>("float"); // includes NaNs, infinities, -0.0 and denormals
  patterns<double>("double");
  many<long double>("long double", {0.0L, -0.0L, 1.0L, -1.0L, 0.25L, std::numeric_limits<long double>::quiet_NaN(), std::numeric_limits<long double>::infinity(),
                                    -std::numeric_limits<long double>::infinity(), std::numeric_limits<long double>::denorm_min(), std::numeric_limits<long double>::min(),
                                    std::numeric_limits<long double>::max(), -1e-300L});
  many<float>("fractions", {0.5f, -0.5f, 0.999f, 1e-20f, -1e-20f, 255.9f, 256.f, 512.f, -256.f});
  many<double>("fractions", {0.5, -0.5, 0.1, 1e-300, -1e-300, 256.0, 4294967296.0, -4294967296.0, 1e300});
  many<Plain>("enum", {PZero, POne, PBig, PNeg});
  many<Wide>("64-bit enum", {WZero, WHigh, WTop});
#ifndef MC_CORE // values that nothing but a conversion to bool is defined for
  many<Explicit>("explicitly convertible", {{0}, {1}, {-1}, {256}});
  many<Implicit>("implicitly convertible", {{0}, {1}, {-1}, {256}});
  many<ToLong>("convertible to long", {{0}, {1}, {-1}, {256}, {0x100000000L}});
  mc::one([] { return std::string("pointers and library types"); },
          [] {
            int x = 0;
            from<int *>(nullptr);
            from(&x);
            from<const void *>(nullptr);
            from<const void *>(&x);
            from<const char *>("");
            from<const char *>(nullptr);
            from<void (*)()>(nullptr);
            from<void (*)()>(function_);
            from<int Member::*>(nullptr);
            from<int Member::*>(&Member::a);
            from<int Member::*>(&Member::b);
            from(reinterpret_cast<char *>(std::uintptr_t(0x100)));
            from(reinterpret_cast<char *>(std::uintptr_t(0x100000000)));
            from(reinterpret_cast<char *>(std::uintptr_t(0x8000000000000000)));
            from(std::shared_ptr<int>());
            from(std::make_shared<int>(0));
            from(std::unique_ptr<int>());
            from(std::make_unique<int>(0));
            from(std::optional<int>());
            from(std::optional<int>(0));
            from(std::function<void()>());
            from(std::function<void()>(function_));
            from(std::true_type());
            from(std::false_type());
            std::bitset<9> bs("100000001");
            std::vector<bool> vb = {true, false};
            const std::bitset<9> &cbs = bs;
            from(cbs[0]);
            from(cbs[1]);
            from(bs[8]);
            from(bs[7]);
            from<std::vector<bool>::reference>(vb[0]);
            from<std::vector<bool>::reference>(vb[1]);
            const volatile int y = 0;
            npy::boolean b(static_cast<int>(y));
            is(b, false, "volatile");
          });
#endif
  mc::one([] { return std::string("boolean from boolean, self assignment, chains"); },
          [] {
            for (int i = 0; i < 2; ++i) {
              npy::boolean a(i != 0);
              from(a);
              npy::boolean &r = a;
              a = r;
              is(a, i, "self assignment");
              npy::boolean b, c;
              c = b = a;
              is(b, i, "chain");
              is(c, i, "chain");
              b = !a;
              is(b, !i, "negation");
              std::swap(a, b);
              is(a, !i, "swap");
              is(b, i, "swap");
            }
            for (int i = 0; i < 2; ++i)
              for (int j = 0; j < 2; ++j) {
                npy::boolean a(i), b(j);
                if ((a && b) != (i && j) || (a || b) != (i || j) || (a == b) != (i == j) || (a != b) != (i != j) || (a < b) != (i < j) || (a ^ b) != (i ^ j) || a + b != i + j ||
                    (a & b) != (i & j) || (a | b) != (i | j))
                  mc::fail("operators differ from those of bool");
              }
          });
  // in tensors: every way of storing values, then saving and loading
  const std::vector<std::int32_t> vals = {0, 1, 2, -1, 256, -256, 65536, INT32_MIN, INT32_MAX, 255, 128, -128};
  for (size_t start = 0; start < vals.size(); ++start)
    for (int how = 0; how < 7; ++how)
      for (size_t n : {0, 1, 2, 5, 12})
        for (auto e : {ref::LE, ref::BE})
          mc::one([&] { return mc::str("tensor of ", n, " booleans from ", vals[start], ", way ", how); },
                  [&] {
                    npy::tensor<npy::boolean> t({n});
                    std::vector<bool> want;
                    for (size_t i = 0; i < n; ++i)
                      want.push_back(vals[(start + i) % vals.size()] != 0);
                    auto val = [&](size_t i) { return vals[(start + i) % vals.size()]; };
                    std::vector<npy::boolean> v;
                    for (size_t i = 0; i < n; ++i)
                      switch (how) {
                      case 0:
                        t(std::int32_t(i)) = val(i);
                        break;
                      case 1:
                        t.set({std::int32_t(i)}, val(i));
                        break;
                      case 2:
                        t.data()[i] = double(val(i)) / 3;
                        break;
                      case 3:
                        *(t.begin() + i) = std::int64_t(val(i)) * 4294967296;
                        break;
                      default:
                        v.push_back(val(i));
                      }
                    if (how == 4)
                      t.copy_from(v);
                    if (how == 5)
                      t.move_from(std::move(v));
                    if (how == 6) {
                      std::vector<std::int32_t> src;
                      for (size_t i = 0; i < n; ++i)
                        src.push_back(val(i));
                      std::copy(src.begin(), src.end(), t.begin());
                    }
                    for (size_t i = 0; i < n; ++i)
                      is(t.data()[i], want[i], "tensor element");
                    std::string b = ref::save_bytes(t, e);
                    std::string tail;
                    for (bool w : want)
                      tail += char(w);
                    if (b.size() < n || b.substr(b.size() - n) != tail)
                      mc::fail("the saved bytes are " + mc::hex(b.substr(b.size() - std::min(n, b.size()))));
                    std::istringstream in(b);
                    auto u = npy::load<npy::tensor<npy::boolean>>(in);
                    for (size_t i = 0; i < n; ++i)
                      is(u(std::int32_t(i)), want[i], "loaded element");
                    if (ref::save_bytes(u, e) != b)
                      mc::fail("does not survive a round trip");
                    mc::outcome(tail);
                  });
  mc::one([] { return std::string("new tensors are all false"); },
          [] {
            npy::tensor<npy::boolean> t({33});
            for (auto &x : t)
              is(x, false, "element of a new tensor");
          });
  if (th) // every 32-bit integer and every float
    for (std::uint64_t hi = 0; hi < 4096; ++hi)
      mc::one([&] { return mc::str("32-bit patterns with high bits ", hi); },
              [&] {
                for (std::uint64_t lo = 0; lo < (1 << 20); ++lo) {
                  std::uint32_t p = std::uint32_t(hi << 20 | lo);
                  float f;
                  memcpy(&f, &p, 4);
                  std::int32_t i = std::int32_t(p);
                  npy::boolean a(i), b(f), c, d, u(p);
                  c = i;
                  d = f;
                  if (raw(a) != (i != 0) || raw(c) != (i != 0) || raw(b) != (f != 0) || raw(d) != (f != 0) || raw(u) != (p != 0))
                    mc::fail(mc::str("pattern ", p));
                }
                mc::count("values", 3u << 20);
                mc::outcome(mc::str("block", hi & 7));
              });
}
