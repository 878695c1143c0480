// C08: tensors are independent values whose element count matches their shape.
// Stateless exploration: every sequence of operations up to a depth, on a pool
// of real tensors, in step with a model pool of (shape, order, elements).
#include "common/tensors.hpp"

namespace {
using Shape = std::vector<size_t>;
template <class T> struct Model {
  bool live = false;
  Shape shape;
  bool fortran = false;
  std::vector<T> v;
};
template <class T> struct World {
  std::vector<std::unique_ptr<npy::tensor<T>>> real;
  std::vector<Model<T>> model;
  explicit World(size_t n) : real(n), model(n) {}
};
template <class T> using Op = std::pair<std::string, std::function<bool(World<T> &)>>; // false: not enabled here

template <class T> void must_throw(const char *what, const std::function<void()> &f) {
  bool threw = false;
  try {
    f();
  } catch (const std::exception &) {
    threw = true;
  }
  if (!threw)
    mc::fail(std::string(what) + " does not throw");
}

template <class T> std::vector<Op<T>> operations(size_t slots, bool rich) {
  std::vector<Op<T>> ops;
  const std::vector<std::pair<Shape, bool>> shapes = {{{2, 3}, false}, {{2, 3}, true}, {{3, 2}, true}, {{}, false}, {{0, 2}, false}, {{6}, true}, {{6}, false}, {{3, 2}, false}, {{1, 2, 3}, true}};
  auto val = [](size_t i) {
    T v = ref::nth<T>(i);
    if constexpr (std::is_same_v<T, std::wstring>) // some too long to be held inside the string
      if (i % 2 == 0)
        v += std::wstring(20, wchar_t(L'a' + i % 26));
    return v;
  };
  for (size_t i = 0; i < slots; ++i) {
    for (size_t k = 0; k < (rich ? shapes.size() : 5); ++k)
      ops.push_back({mc::str("t", i, " = tensor(", mc::list(shapes[k].first), ")"), [=](World<T> &w) {
                       w.real[i] = std::make_unique<npy::tensor<T>>(shapes[k].first, shapes[k].second);
                       w.model[i] = {true, shapes[k].first, shapes[k].second, std::vector<T>(ref::product(shapes[k].first))};
                       return true;
                     }});
    for (size_t j = 0; j < slots; ++j) {
      if (i != j) {
        ops.push_back({mc::str("new t", j, "(copy of t", i, ")"), [=](World<T> &w) {
                         if (!w.model[i].live)
                           return false;
                         const npy::tensor<T> &src = *w.real[i];
                         w.real[j] = std::make_unique<npy::tensor<T>>(src);
                         w.model[j] = w.model[i];
                         return true;
                       }});
        ops.push_back({mc::str("new t", j, "(moved t", i, ")"), [=](World<T> &w) {
                         if (!w.model[i].live)
                           return false;
                         w.real[j] = std::make_unique<npy::tensor<T>>(std::move(*w.real[i]));
                         w.model[j] = w.model[i];
                         w.model[i] = {}; // may only be assigned or destroyed now
                         return true;
                       }});
        ops.push_back({mc::str("t", j, " = moved t", i), [=](World<T> &w) {
                         if (!w.model[i].live || !w.real[j])
                           return false;
                         *w.real[j] = std::move(*w.real[i]);
                         w.model[j] = w.model[i];
                         w.model[i] = {};
                         return true;
                       }});
        if (i < j)
          ops.push_back({mc::str("swap t", i, " t", j), [=](World<T> &w) {
                           if (!w.model[i].live || !w.model[j].live)
                             return false;
                           std::swap(*w.real[i], *w.real[j]);
                           std::swap(w.model[i], w.model[j]);
                           return true;
                         }});
      }
      ops.push_back({mc::str("t", j, " = t", i), [=](World<T> &w) {
                       if (!w.model[i].live || !w.real[j])
                         return false;
                       const npy::tensor<T> &src = *w.real[i];
                       npy::tensor<T> &r = (*w.real[j] = src);
                       if (&r != w.real[j].get())
                         mc::fail("assignment does not return its target");
                       w.model[j] = w.model[i];
                       return true;
                     }});
    }
    auto on = [&](const std::string &name, const std::function<void(npy::tensor<T> &, Model<T> &)> &f) {
      ops.push_back({mc::str(name, " on t", i), [=](World<T> &w) {
                       if (!w.model[i].live)
                         return false;
                       f(*w.real[i], w.model[i]);
                       return true;
                     }});
    };
    on("copy_from(pointer)", [=](npy::tensor<T> &t, Model<T> &m) {
      for (size_t k = 0; k < m.v.size(); ++k)
        m.v[k] = val(k + 2);
      std::vector<T> src = m.v;
      t.copy_from(src.data(), src.size());
      for (auto &e : src) // the source is no longer needed
        e = val(99);
    });
    on("copy_from(vector)", [=](npy::tensor<T> &t, Model<T> &m) {
      for (size_t k = 0; k < m.v.size(); ++k)
        m.v[k] = val(k + 30);
      std::vector<T> src = m.v;
      t.copy_from(src);
      if (src.size() != m.v.size())
        mc::fail("copy_from changes its source");
      for (size_t k = 0; k < src.size(); ++k)
        if (!ref::same(src[k], m.v[k]))
          mc::fail("copy_from changes its source");
    });
    on("move_from(vector)", [=](npy::tensor<T> &t, Model<T> &m) {
      for (size_t k = 0; k < m.v.size(); ++k)
        m.v[k] = val(k + 60);
      std::vector<T> src = m.v;
      t.move_from(std::move(src));
    });
    // the source is a tensor of the pool, possibly the target itself
    for (size_t j = 0; j < slots; ++j)
      ops.push_back({mc::str("t", i, " copies the buffer of t", j), [=](World<T> &w) {
                       if (!w.model[i].live || !w.model[j].live)
                         return false;
                       auto &t = *w.real[i];
                       auto &m = w.model[i];
                       const auto &from = w.model[j];
                       if (from.v.size() != m.v.size()) {
                         must_throw<T>("copy_from(vector) of another tensor's values", [&] { t.copy_from(w.real[j]->values()); });
                         must_throw<T>("copy_from(pointer) of another tensor's values", [&] { t.copy_from(w.real[j]->data(), from.v.size()); });
                       } else {
                         t.copy_from(w.real[j]->data(), from.v.size());
                         m.v = std::vector<T>(from.v);
                         std::string why = ref::judge_tensor(t, m.v, m.shape, m.fortran);
                         if (!why.empty())
                           mc::fail(mc::str("copy_from(pointer) from t", j, ": ", why));
                         t.copy_from(w.real[j]->values());
                         if (m.v.size() > 1) { // a value that is an element of the tensor
                           std::vector<std::int32_t> first(m.shape.size(), 0);
                           t.set(first, w.real[j]->data()[m.v.size() - 1]);
                           T last = w.model[j].v[m.v.size() - 1];
                           m.v[0] = last;
                         }
                       }
                       return true;
                     }});
    on("bulk copies of wrong length", [=](npy::tensor<T> &t, Model<T> &m) {
      for (size_t d : {m.v.size() + 1, m.v.size() - 1, size_t(0), m.v.size() * 2, m.v.size() + 256})
        if (d != m.v.size() && d < 1000) {
          std::vector<T> src(d, val(77));
          must_throw<T>("copy_from(vector) of the wrong length", [&] { t.copy_from(src); });
          must_throw<T>("copy_from(pointer) of the wrong length", [&] { t.copy_from(src.data(), src.size()); });
          must_throw<T>("move_from of the wrong length", [&] { t.move_from(std::move(src)); });
        }
      T one = val(78);
      for (size_t d : {~size_t(0), size_t(1) << 32, (size_t(1) << 32) + m.v.size(), (size_t(1) << 63) + m.v.size()})
        must_throw<T>("copy_from(pointer) of the wrong length", [&] { t.copy_from(&one, d); });
    });
    on("element writes", [=](npy::tensor<T> &t, Model<T> &m) {
      if (m.v.empty())
        return;
      size_t n = m.v.size();
      t.data()[n - 1] = m.v[n - 1] = val(40);
      *t.begin() = m.v[0] = val(41);
      std::vector<std::int32_t> ix(m.shape.size(), -1);
      t.set(ix, val(42));
      m.v[n - 1] = val(42);
      std::vector<size_t> zero(m.shape.size(), 0);
      if (n > 2) {
        t(zero) = val(43);
        m.v[0] = val(43);
        *(t.end() - 2) = m.v[n - 2] = val(44);
      }
    });
    if (rich)
      for (size_t j = 0; j < slots; ++j)
        ops.push_back({mc::str("t", j, " loaded from saved t", i), [=](World<T> &w) {
                         if (!w.model[i].live || !w.real[j])
                           return false;
                         std::istringstream in(ref::save_bytes(*w.real[i], ref::BE));
                         *w.real[j] = npy::load<npy::tensor<T>>(in);
                         w.model[j] = w.model[i];
                         return true;
                       }});
    ops.push_back({mc::str("destroy t", i), [=](World<T> &w) {
                     if (!w.real[i])
                       return false;
                     w.real[i].reset();
                     w.model[i] = {};
                     return true;
                   }});
  }
  return ops;
}
template <class T> std::string judge(const World<T> &w) {
  for (size_t i = 0; i < w.model.size(); ++i) {
    const auto &m = w.model[i];
    if (!m.live)
      continue;
    const auto &t = *w.real[i];
    std::string why = ref::judge_tensor(t, m.v, m.shape, m.fortran);
    if (!why.empty())
      return mc::str("t", i, ": ", why);
    if (t.size() != ref::product(t.shape()))
      return mc::str("t", i, ": size differs from the product of the extents");
    // indexing agrees with shape and order
    if (m.v.size()) {
      std::vector<size_t> ix(m.shape.size());
      for (size_t k = 0; k < ix.size(); ++k)
        ix[k] = m.shape[k] - 1;
      // first and last, so that nothing remembered between two operations can be of use, an index that shows the order
      for (int round = 0; round < 3; ++round) {
        if (round == 1) {
          for (size_t k = 0; k < ix.size(); ++k)
            ix[k] = m.shape[k] - 1;
          if (&t(ix) != t.data() + m.v.size() - 1)
            return mc::str("t", i, ": the last index is not the last element");
        }
        if (round == 1 || ix.empty())
          continue;
        std::fill(ix.begin(), ix.end(), 0);
        ix.back() = m.shape.back() > 1;
        size_t stride = 1;
        if (m.fortran)
          for (size_t k = 0; k + 1 < m.shape.size(); ++k)
            stride *= m.shape[k];
        if (&t(ix) != t.data() + ix.back() * stride)
          return mc::str("t", i, ": indexing does not match shape and order");
      }
    }
    for (size_t j = 0; j < i; ++j)
      if (w.model[j].live && m.v.size() && w.model[j].v.size()) {
        const T *a = t.data(), *b = w.real[j]->data();
        if (a < b + w.model[j].v.size() && b < a + m.v.size())
          return mc::str("t", i, " and t", j, " share memory");
      }
  }
  return "";
}
// Every tensor is looked at between the operations, too: what it remembers must not matter later.
template <class T> void touch(const World<T> &w) {
  for (size_t i = 0; i < w.model.size(); ++i) {
    const auto &m = w.model[i];
    if (!m.live || m.v.empty())
      continue;
    static thread_local std::vector<size_t> ix;
    ix.assign(m.shape.size(), 0);
    if (!ix.empty())
      ix.back() = m.shape.back() > 1;
    const auto &t = *w.real[i];
    (void)t(ix);
    (void)t.dtype(ref::BE);
  }
}
template <class T> std::uint64_t state_of(const World<T> &w) {
  std::string k = ref::Type<T>::name;
  for (size_t i = 0; i < w.model.size(); ++i) {
    k += mc::str("/", w.model[i].live, bool(w.real[i]), w.model[i].fortran, mc::list(w.model[i].shape));
    for (auto &e : w.model[i].v)
      for (auto p : ref::parts(e))
        k += mc::str(p, ",");
  }
  return mc::hash(k);
}

template <class T> void sequences(size_t slots, size_t depth, bool rich) {
  const auto ops = operations<T>(slots, rich);
  // one member per prefix of length depth-2 (the rest is enumerated inside)
  const size_t inner = depth > 2 ? 2 : depth, outer = depth - inner;
  std::vector<size_t> pre(outer, 0);
  auto replay = [&](World<T> &w, const std::vector<size_t> &seq) {
    size_t n = 0;
    for (auto o : seq) {
      if (n++)
        touch(w);
      if (!ops[o].second(w))
        return false;
    }
    return true;
  };
  auto text = [&](const std::vector<size_t> &seq) {
    std::string s = mc::str(ref::Type<T>::name, ": ");
    for (auto o : seq)
      s += ops[o].first + "; ";
    return s;
  };
  while (true) {
    mc::one([&] { return text(pre) + mc::str("and every continuation of ", inner, " operations (", slots, " slots)"); },
            [&] {
              {
                World<T> w(slots);
                if (!replay(w, pre))
                  return; // this history does not exist
                std::string why = judge(w);
                if (!why.empty())
                  mc::fail(why + " after " + text(pre));
              }
              std::vector<size_t> seq = pre;
              std::function<void(size_t)> extend = [&](size_t left) {
                for (size_t o = 0; o < ops.size(); ++o) {
                  seq.push_back(o);
                  World<T> w(slots);
                  bool enabled = true;
                  try {
                    enabled = replay(w, seq);
                  } catch (const mc::Failure &f) {
                    mc::fail(f.msg + " after " + text(seq));
                  }
                  if (enabled) {
                    mc::transitions();
                    mc::traces();
                    std::string why = judge(w);
                    if (!why.empty())
                      mc::fail(why + " after " + text(seq));
                    std::uint64_t h = state_of(w);
                    mc::state(h);
                    mc::outcome(h);
                    mc::count("histories");
                    if (left > 1)
                      extend(left - 1);
                  }
                  seq.pop_back();
                }
              };
              extend(inner);
            });
    size_t k = 0;
    while (k < outer && ++pre[outer - 1 - k] == ops.size())
      pre[outer - 1 - k++] = 0;
    if (k == outer)
      break;
  }
}

// Every pair of tensors of a bounded space, and every way in which one can take
// over the other's value; then every element is compared by index.
template <class T> void pairs(size_t extent) {
  std::vector<std::pair<Shape, bool>> all;
  ref::each_shape(0, 3, extent, [&](const Shape &s) {
    for (int fo = 0; fo < 2; ++fo)
      all.push_back({s, fo != 0});
  });
  auto make = [](const std::pair<Shape, bool> &k, size_t start) {
    npy::tensor<T> t(k.first, k.second);
    for (size_t i = 0; i < t.size(); ++i)
      t.data()[i] = ref::nth<T>(start + i);
    return t;
  };
  auto same = [](const char *what, const npy::tensor<T> &t, const std::pair<Shape, bool> &k, size_t start) {
    std::vector<T> v;
    for (size_t i = 0; i < ref::product(k.first); ++i)
      v.push_back(ref::nth<T>(start + i));
    std::string why = ref::judge_tensor(t, v, k.first, k.second);
    if (why.empty() && t.size()) {
      Shape ix(k.first.size(), 0);
      while (why.empty()) {
        size_t at = 0, stride = 1;
        for (size_t a = 0; a < ix.size(); ++a) {
          size_t d = k.second ? a : ix.size() - 1 - a;
          at += ix[d] * stride;
          stride *= k.first[d];
        }
        std::vector<std::int32_t> neg;
        for (size_t a = 0; a < ix.size(); ++a)
          neg.push_back(std::int32_t(ix[a]) - std::int32_t(k.first[a]));
        if (&t(ix) != t.data() + at || &t.get(neg) != t.data() + at)
          why = mc::str("index ", mc::list(ix), " is not element ", at);
        size_t a = 0;
        while (a < ix.size() && ++ix[a] == k.first[a])
          ix[a++] = 0;
        if (a == ix.size())
          break;
      }
    }
    if (!why.empty())
      mc::fail(std::string(what) + ": " + why);
  };
  for (auto &a : all)
    for (auto &b : all)
      mc::one([&] { return mc::str(ref::Type<T>::name, mc::list(a.first), a.second ? "F" : "C", " takes the value of ", mc::list(b.first), b.second ? "F" : "C"); },
              [&] {
                {
                  auto x = make(a, 1);
                  const auto y = make(b, 50);
                  x = y;
                  same("copy assignment", x, b, 50);
                  same("source of a copy assignment", y, b, 50);
                  x = make(a, 3);
                  same("assignment of a temporary", x, a, 3);
                }
                {
                  auto x = make(a, 1), y = make(b, 50);
                  x = std::move(y);
                  same("move assignment", x, b, 50);
                  y = make(a, 9);
                  same("assignment to a moved-from tensor", y, a, 9);
                  std::swap(x, y);
                  same("swap", x, a, 9);
                  same("swap", y, b, 50);
                }
                {
                  auto x = make(a, 1);
                  const auto y = make(b, 50);
                  std::istringstream in(ref::save_bytes(y, ref::BE));
                  x = npy::load<npy::tensor<T>>(in);
                  same("assignment of a loaded tensor", x, b, 50);
                  std::vector<npy::tensor<T>> v = {x, make(a, 5)};
                  v.push_back(x);
                  v.insert(v.begin(), make(a, 7));
                  v.erase(v.begin() + 1);
                  same("tensors in a container", v[0], a, 7);
                  same("tensors in a container", v[1], a, 5);
                  same("tensors in a container", v[2], b, 50);
                }
                mc::transitions(6);
                mc::outcome(mc::str("pair", mc::list(a.first), a.second, mc::list(b.first), b.second));
              });
}

// A shape either gives a tensor with exactly that many elements or throws.
template <class T> void shapes_fit() {
  const std::vector<size_t> big = {0, 1, 2, 3, 65536, 65537, 1u << 31, 0xFFFFFFFFu, size_t(1) << 32, (size_t(1) << 32) + 1, size_t(1) << 61, size_t(1) << 62, size_t(1) << 63,
                                   (size_t(1) << 63) + 1, ~size_t(0) / 3, ~size_t(0) / 3 + 1, ~size_t(0) - 1, ~size_t(0), 6700417, 641 * 4ull, 274177, 67280421310721ull};
  auto check = [&](const Shape &s) {
    mc::one([&] { return mc::str("tensor<", ref::Type<T>::name, ">", mc::list(s)); },
            [&] {
              unsigned __int128 n = 1;
              bool zero = false, over = false;
              for (auto e : s) {
                zero = zero || e == 0;
                if (!over) {
                  n *= e;
                  over = n > (unsigned __int128)(1) << 63;
                }
              }
              if (zero)
                n = 0;
              for (int fo = 0; fo < 2; ++fo) {
                size_t got = 0;
                bool threw = false;
                try {
                  npy::tensor<T> t(s, fo != 0);
                  got = t.size();
                  if (t.values().size() != got || t.shape() != s)
                    mc::fail("inconsistent");
                } catch (const std::exception &) {
                  threw = true;
                }
                if (!threw && (unsigned __int128)(got) != n)
                  mc::fail(mc::str("has ", got, " elements"));
                if (threw && n < 100000)
                  mc::fail("cannot be constructed");
                mc::outcome(mc::str("fit", threw, mc::list(s)));
              }
            });
  };
  for (auto a : big) {
    check({a});
    for (auto b : big) {
      check({a, b});
      for (auto c : big)
        if (a <= b || mc::thorough())
          check({a, b, c});
    }
  }
}
} // namespace

void explore() {
  const bool th = mc::thorough();
  mc::alloc_cap = size_t(4) << 20; // larger tensors do not fit
  sequences<std::int32_t>(2, th ? 6 : 5, false);
  sequences<std::int32_t>(3, th ? 5 : 4, false);
  sequences<std::wstring>(2, th ? 5 : 4, true);
  sequences<std::wstring>(3, 3, true);
  sequences<npy::boolean>(2, th ? 5 : 4, true);
  sequences<std::complex<double>>(2, th ? 5 : 4, true);
  ref::each_type([&](auto tag) {
    using T = typename decltype(tag)::type;
    sequences<T>(2, 3, true);
  });
  pairs<std::int32_t>(th ? 4 : 3);
  pairs<std::wstring>(2);
  pairs<npy::boolean>(2);
  shapes_fit<std::int8_t>();
  shapes_fit<double>();
  shapes_fit<std::wstring>();
  if (th)
    shapes_fit<std::complex<double>>();
}
