// C07: indexing follows NumPy's layout, negative-index and bounds rules.
#include "common/tensors.hpp"
#include <climits>

namespace {
using Ix = std::vector<std::int32_t>;
using Ux = std::vector<size_t>;
using Shape = std::vector<size_t>;

// The buffer position NumPy uses, or -1.
std::int64_t position(const std::vector<__int128> &ix, const Shape &s, bool fortran, bool negative) {
  if (ix.size() != s.size())
    return -1;
  __int128 at = 0, stride = 1;
  std::vector<__int128> abs(ix);
  for (size_t k = 0; k < s.size(); ++k) {
    __int128 e = s[k];
    if (abs[k] >= e || abs[k] < (negative ? -e : 0))
      return -1;
    if (abs[k] < 0)
      abs[k] += e;
  }
  for (size_t k = 0; k < s.size(); ++k) {
    size_t d = fortran ? k : s.size() - 1 - k;
    at += abs[d] * stride;
    stride *= s[d];
  }
  return std::int64_t(at);
}

template <class T, class... I> void variadic(npy::tensor<T> &t, const Ix &ix, const std::function<void(const char *, const std::function<const T *()> &)> &judge) {
  const npy::tensor<T> &c = t;
  auto at = [&](size_t k) -> std::int32_t { return ix[k]; };
  switch (ix.size()) {
#define ARITY(N, ...)                                                          \
  case N:                                                                      \
    judge("operator()(ints)", [&] { return &t(__VA_ARGS__); });                \
    judge("operator()(ints) const", [&] { return &c(__VA_ARGS__); });          \
    break;
  case 0:
    judge("operator()()", [&] { return &t(); });
    judge("operator()() const", [&] { return &c(); });
    break;
    ARITY(1, at(0))
    ARITY(2, at(0), at(1))
    ARITY(3, at(0), at(1), at(2))
    ARITY(4, at(0), at(1), at(2), at(3))
    ARITY(5, at(0), at(1), at(2), at(3), at(4))
    ARITY(6, at(0), at(1), at(2), at(3), at(4), at(5))
  default:
    break;
  }
}

struct Seen {
  std::uint64_t good = 0, bad = 0;
};

// every access form of one signed index
template <class T> void signed_index(npy::tensor<T> &t, const Ix &ix, Seen &seen, bool writes) {
  const npy::tensor<T> &c = t;
  std::vector<__int128> w(ix.begin(), ix.end());
  const std::int64_t want = position(w, t.shape(), t.fortran_order(), true);
  (want < 0 ? seen.bad : seen.good)++;
  auto check = [&](const char *form, bool threw, const T *p) {
    if (want < 0) {
      if (!threw)
        mc::fail(mc::str(form, " accepts index ", mc::list(ix)));
    } else {
      if (threw)
        mc::fail(mc::str(form, " refuses index ", mc::list(ix)));
      if (p != c.data() + want)
        mc::fail(mc::str(form, mc::list(ix), " is element ", p - c.data(), " of the buffer, expected ", want));
    }
  };
  auto judge = [&](const char *form, auto &&f) {
    bool threw = false;
    const T *p = nullptr;
    try {
      p = f();
    } catch (const std::exception &) {
      threw = true;
    }
    check(form, threw, p);
  };
  judge("get", [&] { return &c.get(ix); });
  judge("ravel(ints)", [&] { return c.data() + c.ravel(ix); });
  if (ix.size() <= 6)
    variadic<T>(t, ix, [&](const char *form, const std::function<const T *()> &f) { judge(form, f); });
  if (writes) {
    // set changes that element only
    std::vector<T> before = t.values();
    T v = want >= 0 ? before[size_t(want)] : T{};
    T other = ref::nth<T>(size_t(want + 7));
    if constexpr (std::is_same_v<T, npy::boolean>)
      other = T(!v);
    judge("set", [&] {
      t.set(ix, other);
      return want >= 0 ? t.data() + want : nullptr;
    });
    if (want >= 0)
      before[size_t(want)] = other;
    for (size_t i = 0; i < before.size(); ++i)
      if (!ref::same(before[i], t.data()[i]))
        mc::fail(mc::str("set(", mc::list(ix), ") leaves the wrong value at element ", i));
    if (want >= 0)
      t.data()[want] = v;
  }
}
template <class T> void unsigned_index(npy::tensor<T> &t, const Ux &ix, Seen &seen) {
  const npy::tensor<T> &c = t;
  std::vector<__int128> w(ix.begin(), ix.end());
  const std::int64_t want = position(w, t.shape(), t.fortran_order(), false);
  (want < 0 ? seen.bad : seen.good)++;
  auto judge = [&](const char *form, auto &&f) {
    bool threw = false;
    const T *p = nullptr;
    try {
      p = f();
    } catch (const std::exception &) {
      threw = true;
    }
    if (want < 0 && !threw)
      mc::fail(mc::str(form, " accepts index ", mc::list(ix)));
    if (want >= 0 && threw)
      mc::fail(mc::str(form, " refuses index ", mc::list(ix)));
    if (want >= 0 && p != c.data() + want)
      mc::fail(mc::str(form, mc::list(ix), " is element ", p - c.data(), " of the buffer, expected ", want));
  };
  judge("operator()(sizes)", [&] { return &t(ix); });
  judge("operator()(sizes) const", [&] { return &c(ix); });
  judge("ravel(sizes)", [&] { return c.data() + c.ravel(ix); });
}
// all vectors with component k taken from choice[k]
template <class V, class F> void box(const std::vector<std::vector<V>> &choice, F &&f) {
  std::vector<size_t> at(choice.size(), 0);
  std::vector<V> v(choice.size());
  for (auto &c : choice)
    if (c.empty())
      return;
  while (true) {
    for (size_t i = 0; i < v.size(); ++i)
      v[i] = choice[i][at[i]];
    f(const_cast<const std::vector<V> &>(v));
    size_t k = 0;
    while (k < at.size() && ++at[at.size() - 1 - k] == choice[at.size() - 1 - k].size())
      at[at.size() - 1 - k++] = 0;
    if (k == at.size())
      break;
  }
}
const std::vector<std::int32_t> EXTREME = {INT_MIN, INT_MIN + 1, INT_MIN + 3, -65537, -65536, -256, 255, 256, 65535, 65536, INT_MAX - 1, INT_MAX};
const std::vector<size_t> UEXTREME = {255, 256, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x100000000, 0x100000001, size_t(1) << 63, ~size_t(0) - 2, ~size_t(0) - 1, ~size_t(0)};

template <class T> void all_indices(npy::tensor<T> &t, Seen &seen, bool writes) {
  const Shape s = t.shape();
  const size_t nd = s.size();
  // right rank: the complete box [-extent-2, extent+1]
  std::vector<std::vector<std::int32_t>> ch(nd);
  std::vector<std::vector<size_t>> uch(nd);
  for (size_t k = 0; k < nd; ++k) {
    if (s[k] <= 12) {
      const std::int32_t m = nd > 3 && !mc::thorough() ? 1 : 2; // how far outside
      for (std::int32_t i = -std::int32_t(s[k]) - m; i < std::int32_t(s[k]) + m; ++i)
        ch[k].push_back(i);
      for (size_t i = 0; i <= s[k] + 1; ++i)
        uch[k].push_back(i);
    } else { // long axis: around its ends and the powers of two
      std::set<std::int64_t> b = {0, 1, 2, -1, -2};
      for (std::int64_t e : {std::int64_t(s[k]), -std::int64_t(s[k]), std::int64_t(s[k]) / 2, std::int64_t(128), std::int64_t(256), std::int64_t(32768), std::int64_t(65536)})
        for (int d = -2; d <= 2; ++d)
          b.insert(e + d);
      for (auto i : b)
        if (i >= INT_MIN && i <= INT_MAX)
          ch[k].push_back(std::int32_t(i));
      for (auto i : b)
        if (i >= 0)
          uch[k].push_back(size_t(i));
    }
  }
  box(ch, [&](const Ix &ix) { signed_index(t, ix, seen, writes); });
  box(uch, [&](const Ux &ix) { unsigned_index(t, ix, seen); });
  // an extreme component at each position, with every in-range choice elsewhere
  for (size_t k = 0; k < nd; ++k) {
    auto c2 = ch;
    auto u2 = uch;
    for (size_t j = 0; j < nd; ++j) {
      c2[j] = {-1, 0, std::int32_t(std::min<size_t>(s[j], INT_MAX)) - 1};
      u2[j] = {0, s[j] ? s[j] - 1 : 0};
    }
    c2[k] = EXTREME;
    u2[k] = UEXTREME;
    box(c2, [&](const Ix &ix) { signed_index(t, ix, seen, false); });
    box(u2, [&](const Ux &ix) { unsigned_index(t, ix, seen); });
  }
  // wrong rank
  for (size_t r = 0; r <= nd + 2; ++r)
    if (r != nd) {
      box(std::vector<std::vector<std::int32_t>>(r, {-1, 0, 1}), [&](const Ix &ix) { signed_index(t, ix, seen, writes && r < 4); });
      box(std::vector<std::vector<size_t>>(r, {0, 1}), [&](const Ux &ix) { unsigned_index(t, ix, seen); });
    }
}

// the same tensor, however it came about
template <class T> npy::tensor<T> obtain(int how, const Shape &s, bool fo) {
  npy::tensor<T> t(s, fo);
  ref::fill_distinct(t, 1);
  switch (how) {
  case 1: {
    npy::tensor<T> c(t);
    return c;
  }
  case 2:
    return npy::tensor<T>(std::move(t));
  case 3: {
    npy::tensor<T> c({7, 2}, !fo);
    c = t;
    return c;
  }
  case 4: {
    npy::tensor<T> c({2, 1, 3}, !fo);
    c = std::move(t);
    return c;
  }
  case 5: {
    std::istringstream in(ref::save_bytes(t, ref::BE));
    return npy::load<npy::tensor<T>>(in);
  }
  case 6: {
    t.move_from(std::vector<T>(t.size()));
    ref::fill_distinct(t, 1);
    return t;
  }
  case 7: { // assigned to itself
    const npy::tensor<T> &self = t;
    t = self;
    return t;
  }
  case 8: {
    npy::tensor<T> c({1}, fo);
    std::swap(c, t);
    return c;
  }
  }
  return t;
}

template <class T> void member(const Shape &s, bool fo, int how, bool writes) {
  mc::one([&] { return mc::str("tensor<", ref::Type<T>::name, ">", mc::list(s), fo ? " F" : " C", " obtained in way ", how); },
          [&] {
            npy::tensor<T> t = obtain<T>(how, s, fo);
            std::vector<T> before = t.values();
            Seen seen;
            all_indices(t, seen, writes);
            for (size_t i = 0; i < before.size(); ++i)
              if (!ref::same(before[i], t.data()[i]))
                mc::fail("accesses changed the elements");
            // iteration covers the buffer in storage order
            size_t n = 0;
            for (auto &e : t)
              if (&e != t.data() + n++)
                mc::fail("iteration order");
            if (n != t.size())
              mc::fail("iteration count");
            const npy::tensor<T> &c = t;
            n = 0;
            for (auto &e : c)
              if (&e != c.data() + n++)
                mc::fail("iteration order (const)");
            if (n != t.size() || c.values().data() != c.data())
              mc::fail("iteration count (const)");
            mc::count("indices in range", seen.good);
            mc::count("indices refused", seen.bad);
            mc::outcome(mc::str(ref::Type<T>::name, mc::list(s), fo, how, seen.good, seen.bad));
          });
}

size_t position(const Shape &s, bool fo, const std::vector<size_t> &ix) {
  size_t at = 0, stride = 1;
  for (size_t a = 0; a < ix.size(); ++a) {
    size_t d = fo ? a : ix.size() - 1 - a;
    at += ix[d] * stride;
    stride *= s[d];
  }
  return at;
}
// Two tensors are used by turns, and take over each other's value: what an index reaches
// depends on the tensor as it is, not on the index before or on what it was.
template <class T> void turns(const Shape &s, bool fo, const Shape &s2, bool fo2) {
  mc::one([&] { return mc::str("tensors<", ref::Type<T>::name, "> ", mc::list(s), fo ? " F" : " C", " and ", mc::list(s2), fo2 ? " F" : " C", " by turns"); },
          [&] {
            npy::tensor<T> a(s, fo), b(s2, fo2);
            ref::fill_distinct(a, 1);
            ref::fill_distinct(b, 40);
            std::vector<std::vector<size_t>> ixs;
            auto all = [&](const Shape &q) {
              if (!ref::product(q))
                return;
              std::vector<size_t> ix(q.size(), 0);
              for (;;) {
                ixs.push_back(ix);
                size_t k = 0;
                while (k < ix.size() && ++ix[k] == q[k])
                  ix[k++] = 0;
                if (k == ix.size())
                  return;
              }
            };
            all(s);
            all(s2);
            auto in = [](const Shape &q, const std::vector<size_t> &ix) {
              if (ix.size() != q.size())
                return false;
              for (size_t k = 0; k < q.size(); ++k)
                if (ix[k] >= q[k])
                  return false;
              return true;
            };
            auto look = [&](const npy::tensor<T> &t, const Shape &q, bool o, const std::vector<size_t> &ix, const char *what) {
              bool ok = in(q, ix);
              const T *want = t.data() + (ok ? position(q, o, ix) : 0);
              for (int form = 0; form < 2; ++form) {
                const T *got = nullptr;
                try {
                  got = form ? &t.get(std::vector<std::int32_t>(ix.begin(), ix.end())) : &t(ix);
                } catch (const std::exception &) {
                }
                if (ok && !got)
                  mc::fail(mc::str(what, ": index ", mc::list(ix), " is refused"));
                if (!ok && got)
                  mc::fail(mc::str(what, ": index ", mc::list(ix), " is accepted"));
                if (got && got != want)
                  mc::fail(mc::str(what, ": index ", mc::list(ix), " reaches element ", got - t.data(), " instead of ", want - t.data()));
              }
            };
            for (auto &ix : ixs) {
              look(a, s, fo, ix, "first");
              look(b, s2, fo2, ix, "second");
              look(a, s, fo, ix, "first, again");
              npy::tensor<T> x = a, y = b;
              look(x, s, fo, ix, "copy");
              x = b;
              look(x, s2, fo2, ix, "copy-assigned");
              x = a;
              look(x, s, fo, ix, "copy-assigned back");
              x = std::move(y);
              look(x, s2, fo2, ix, "move-assigned");
              y = a;
              std::swap(x, y);
              look(x, s, fo, ix, "swapped");
              look(y, s2, fo2, ix, "swapped");
              npy::tensor<T> z(std::move(y));
              look(z, s2, fo2, ix, "moved");
              mc::transitions(9);
            }
            mc::outcome(mc::str("turns", ref::Type<T>::name, mc::list(s), fo, mc::list(s2), fo2));
          });
}
} // namespace

void explore() {
  {
    std::vector<std::pair<Shape, bool>> some;
    ref::each_shape(0, 3, mc::thorough() ? 3 : 2, [&](const Shape &s) {
      for (int fo = 0; fo < 2; ++fo)
        some.push_back({s, fo != 0});
    });
    for (const Shape &s : {Shape{2, 3}, {3, 2}, {3, 4}, {4, 3}, {2, 3, 4}, {4, 3, 2}, {6}, {12}, {2, 2, 3, 2}})
      for (int fo = 0; fo < 2; ++fo)
        some.push_back({s, fo != 0});
    for (auto &a : some)
      for (auto &b : some) {
        turns<std::int32_t>(a.first, a.second, b.first, b.second);
        if (a.first == b.first) {
          turns<std::wstring>(a.first, a.second, b.first, b.second);
          turns<npy::boolean>(a.first, a.second, b.first, b.second);
        }
      }
  }
  const bool th = mc::thorough();
  for (int fo = 0; fo < 2; ++fo) {
    for (int how = 0; how <= 8; ++how) {
      ref::each_shape(0, 3, th ? 6 : how ? 2 : 4, [&](const Shape &s) { member<std::int32_t>(s, fo, how, how == 0); });
      if (th || how >= 3 && how <= 5)
        ref::each_shape(4, 4, th ? 3 : 1, [&](const Shape &s) { member<std::int32_t>(s, fo, how, false); });
    }
    ref::each_shape(4, 4, th ? 3 : 2, [&](const Shape &s) { member<std::int32_t>(s, fo, 0, false); });
    ref::each_shape(5, 5, th ? 2 : 1, [&](const Shape &s) { member<std::int32_t>(s, fo, 0, false); });
    ref::each_shape(6, 6, 1, [&](const Shape &s) { member<std::int32_t>(s, fo, 0, false); });
    if (th)
      ref::each_shape(6, 6, 2, [&](const Shape &s) { member<std::int32_t>(s, fo, 0, false); });
    for (const Shape &s : {Shape{100}, {1000}, {65537}, {300, 300}, {70000, 3}, {3, 70000}, {2, 40000, 2}, {1, 1, 1000}, {17, 19, 23}, {0, 4294967296ull}, {4294967297ull, 0},
                           {0, ~size_t(0)}, {~size_t(0), 0, 5}, {size_t(1) << 31, 0}, {12, 11, 10, 3}})
      for (int how : {0, 4, 5})
        member<std::int32_t>(s, fo, how, false);
    ref::each_type([&](auto tag) {
      using T = typename decltype(tag)::type;
      ref::each_shape(0, 3, 2, [&](const Shape &s) { member<T>(s, fo, 0, true); });
      for (const Shape &s : {Shape{5}, {2, 5}, {3, 4}, {2, 3, 4}, {2, 1, 2, 3}})
        for (int how = 0; how <= (s.size() < 3 || th ? 8 : 0); ++how)
          member<T>(s, fo, how, false);
    });
  }
  // more elements than 31 and 32 bits can count
  for (const Shape &s : {Shape{46341, 46342}, {65536, 65537}, {65537, 2, 32768}, {3, 1500000000}})
    for (int fo = 0; fo < 2; ++fo) {
      if (!th && fo != int(s[0] & 1) && s.size() == 2)
        continue;
      mc::one([&] { return mc::str("huge tensor ", mc::list(s), fo ? " F" : " C"); },
              [&] {
                mc::alloc_cap = size_t(8) << 30;
                npy::tensor<std::uint8_t> t(s, fo != 0);
                mc::alloc_cap = size_t(256) << 20;
                Seen seen;
                all_indices(t, seen, false);
                mc::count("indices in range", seen.good);
                mc::count("indices refused", seen.bad);
                mc::outcome(mc::str("huge", mc::list(s), fo));
              });
    }
}
