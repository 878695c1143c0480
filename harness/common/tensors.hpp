// The bounded space of tensors which several properties quantify over.
#pragma once
#include "ref.hpp"

namespace space {
using Shape = std::vector<size_t>;

// A shape with a zero extent whose dictionary text has exactly n characters
// beyond those of the shape (0,) -- so that the header length can be swept
// without data.  extra >= 3.
inline Shape zero_shape(size_t extra) {
  // "(0,)" has 4 characters; "(0, d...)" has 3 + sum(2 + digits)
  Shape s = {0};
  size_t room = extra + 1; // characters for ", ddd" groups
  while (room) {
    // group of 2 + k digits, 1 <= k <= 17; never leave 1 or 2 characters over
    size_t k = std::min<size_t>(17, room - 2);
    if (room - 2 - k == 1 || room - 2 - k == 2)
      k -= 2;
    std::uint64_t v = 1;
    for (size_t i = 1; i < k; ++i)
      v = v * 10 + (i * 7) % 10;
    s.push_back(v);
    room -= 2 + k;
  }
  return s;
}

// f(name, shape, fortran, fill)  where fill(tensor&) gives the elements
template <class T>
using Visit = std::function<void(const char *, const Shape &, bool, const std::function<void(npy::tensor<T> &)> &)>;
template <class T> void each_tensor(const Visit<T> &f) {
  using Ten = npy::tensor<T>;
  const bool th = mc::thorough();
  // 1. every small shape, both orders
  ref::each_shape(0, th ? 5 : 4, 3, [&](const Shape &s) {
    for (int fo = 0; fo < 2; ++fo)
      f("shape", s, fo != 0, [](Ten &t) { ref::fill(t, t.ndim()); });
  });
  if (th)
    ref::each_shape(1, 3, 9, [&](const Shape &s) {
      for (int fo = 0; fo < 2; ++fo)
        f("shape9", s, fo != 0, [](Ten &t) { ref::fill_distinct(t, 5); });
    });
  // 2. larger and unusual extents
  for (const Shape &s : {Shape{10}, Shape{99}, Shape{100}, Shape{1, 1, 1, 1, 1, 1, 1}, Shape{7, 11}, Shape{11, 7}, Shape{2, 3, 4, 5}, Shape{5, 2, 5},
                         Shape{1, 100, 1}, Shape{2, 2, 2, 2, 2, 2}, Shape{0, 4294967296ull}, Shape{4294967296ull, 0, 3}, Shape{18446744073709551615ull, 0},
                         Shape{1, 1000}, Shape{1000, 1}, Shape{12, 34, 5}, Shape(20, 1), Shape(32, 1), Shape(33, 1)})
    for (int fo = 0; fo < 2; ++fo)
      f("extent", s, fo != 0, [](Ten &t) { ref::fill_distinct(t, 3); });
  // 3. element counts
  for (size_t n = 0; n <= (th ? 1100 : 300); ++n)
    f("count", Shape{n}, false, [](Ten &t) { ref::fill_distinct(t, 11); });
  for (int k = 8; k <= (th ? 21 : 14); ++k)
    for (int d = -1; d <= 1; ++d)
      f("count2^k", Shape{(size_t(1) << k) + size_t(d)}, (k & 1) != 0, [](Ten &t) { ref::fill_distinct(t, 7); });
  if (!th)
    for (size_t n : {65535, 65536, 65537, 100000, 131071, 131072, 131073, 262145})
      f("count big", Shape{n}, false, [](Ten &t) { ref::fill_distinct(t, 7); });
  // 4. every alphabet value alone, then every ordered pair
  const auto a = ref::alphabet<T>();
  for (size_t i = 0; i < a.size(); ++i) {
    f("value", Shape{}, false, [&a, i](Ten &t) { t.data()[0] = a[i]; });
    f("value", Shape{1}, true, [&a, i](Ten &t) { t.data()[0] = a[i]; });
    for (size_t j = 0; j < a.size(); ++j)
      f("pair", Shape{2}, false, [&a, i, j](Ten &t) {
        t.data()[0] = a[i];
        t.data()[1] = a[j];
      });
  }
  // 5. every byte value at every byte position of the element
  if constexpr (!std::is_same_v<T, std::wstring> && !std::is_same_v<T, npy::boolean>) {
    for (size_t p = 0; p < ref::Type<T>::size; ++p)
      f("bytes", Shape{256}, false, [p](Ten &t) {
        for (size_t i = 0; i < 256; ++i) {
          char *d = reinterpret_cast<char *>(t.data() + i);
          memset(d, 0x5A, sizeof(T));
          d[p] = char(i);
        }
      });
    if (ref::Type<T>::size == 2)
      f("all 16-bit values", Shape{256, 256}, true, [](Ten &t) {
        for (size_t i = 0; i < 65536; ++i) {
          std::uint16_t v = std::uint16_t(i);
          memcpy(static_cast<void *>(t.data() + i), &v, sizeof(T) < 2 ? sizeof(T) : 2);
        }
      });
  }
  // 6. string lengths
  if constexpr (std::is_same_v<T, std::wstring>) {
    for (size_t m = 0; m <= (th ? 300 : 130); ++m)
      for (int fo = 0; fo < 2; ++fo)
        f("length", Shape{3}, fo != 0, [m](Ten &t) {
          t.data()[0] = std::wstring(m / 2, L'x');
          t.data()[1] = std::wstring(m, L'\u20ac');
          t.data()[2] = m > 1 ? std::wstring(1, L'\0') + std::wstring(m - 1, L'z') : L"";
        });
    for (size_t m : {999, 1000, 9999, 10000, 65535, 65536, 100000})
      f("long", Shape{2}, false, [m](Ten &t) {
        t.data()[0] = std::wstring(m, L'q');
        t.data()[1] = L"r";
      });
    // every 16-bit code unit and boundary code points
    f("code points", Shape{1100}, false, [](Ten &t) {
      for (size_t i = 0; i < 1100; ++i)
        t.data()[i] = std::wstring(1, wchar_t(1 + i * 1013 % 0x10FFFF));
    });
    f("all 16-bit code points", Shape{256}, false, [](Ten &t) {
      for (size_t i = 0; i < 256; ++i)
        for (size_t k = 0; k < 256; ++k)
          t.data()[i].push_back(wchar_t(i * 256 + (255 - k) + (i == 0 && k == 255 ? 1 : 0)));
    });
  }
}

// header lengths: f(name, shape, fortran) with shapes that hold no elements
template <class F> void each_header_length(F &&f) {
  const bool th = mc::thorough();
  for (int fo = 0; fo < 2; ++fo) {
    for (size_t x = 3; x <= (th ? 4000 : 700); ++x)
      f("header", zero_shape(x), fo != 0);
    for (size_t x = 65536 - 64 * (th ? 5 : 4); x <= 65536 + 64 * 3; x += (th || !fo) ? 1 : 7)
      f("header64k", zero_shape(x), fo != 0);
    for (size_t x = 131072 - 64 * (th ? 4 : 2); x <= 131072 + 64; x += th ? 1 : 5)
      f("header128k", zero_shape(x), fo != 0);
  }
  for (size_t x : {1u << 15, 1u << 18, 1u << 20, 3u << 20})
    f("header large", zero_shape(x), false);
}
} // namespace space
