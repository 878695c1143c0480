// C02: saving a tensor and loading it back returns the same tensor.
#include "common/huge.hpp"
#include "common/tensors.hpp"

template <class T>
static void judge(const char *route, const npy::tensor<T> &got, const std::vector<T> &v, const space::Shape &s, bool fo) {
  std::string w = ref::judge_tensor(got, v, s, fo);
  if (!w.empty())
    mc::fail(std::string(route) + ": " + w);
}

template <class T>
static void check(const char *what, const space::Shape &shape, bool fo, npy::endian_t e, const std::function<void(npy::tensor<T> &)> &fill) {
  mc::one([&] { return mc::str(ref::Type<T>::name, " ", ref::ename(e), fo ? " F " : " C ", what, " ", mc::list(shape).substr(0, 100)); },
          [&] {
            npy::tensor<T> t(shape, fo);
            fill(t);
            const std::vector<T> v(t.data(), t.data() + t.size());
            // through a stream that continues with something else
            std::stringstream io;
            io << "prefix";
            npy::save(io, t, e);
            auto end = io.tellp();
            io << "\x93suffix";
            io.seekg(6);
            judge("stream", npy::load<npy::tensor<T>>(io), v, shape, fo);
            if (!io.good() || io.tellg() != end)
              mc::fail(mc::str("load left the stream at ", long(io.tellg()), ", the array ends at ", long(end)));
            // a stream that ends with the array
            std::istringstream in(io.str().substr(6, size_t(end) - 6));
            judge("stream (last array)", npy::load<npy::tensor<T>>(in), v, shape, fo);
            // through files
            std::string p = mc::scratch() + "/a.npy";
            npy::save(p, t, e);
            judge("file", npy::load<npy::tensor<T>>(p), v, shape, fo);
            t.save(p, e);
            judge("member", npy::tensor<T>::from_file(p), v, shape, fo);
            // the tensor that was saved is untouched, and saving again gives the same
            for (size_t i = 0; i < v.size(); ++i)
              if (!ref::same(t.data()[i], v[i]))
                mc::fail("saving changed the tensor");
            mc::outcome(ref::tensor_hash(t));
          });
}

// ------------------------------------------- several arrays in one stream ----
struct Item {
  std::string name;
  std::function<void(std::ostream &)> save;
  std::function<void(std::istream &)> load; // fails if it differs
};
template <class T> static void add(std::vector<Item> &items, const space::Shape &s, bool fo, npy::endian_t e, size_t base) {
  auto t = std::make_shared<npy::tensor<T>>(s, fo);
  ref::fill_distinct(*t, base);
  items.push_back({mc::str(ref::Type<T>::name, mc::list(s), fo ? "F" : "C", ref::ename(e)),
                   [t, e](std::ostream &o) { npy::save(o, *t, e); },
                   [t, s, fo](std::istream &i) {
                     judge("sequence", npy::load<npy::tensor<T>>(i), t->values(), s, fo);
                   }});
}

void explore() {
  if (mc::option("part") == "huge")
    return huge::all(true, true);
  ref::each_type([&](auto tag) {
    using T = typename decltype(tag)::type;
    space::each_tensor<T>([&](const char *what, const space::Shape &s, bool fo, const auto &fill) {
      for (auto e : {ref::NE, ref::LE, ref::BE})
        check<T>(what, s, fo, e, fill);
    });
  });
  space::each_header_length([&](const char *what, const space::Shape &s, bool fo) {
    check<std::int16_t>(what, s, fo, ref::BE, [](auto &) {});
    if (s.size() < 10000)
      check<std::wstring>(what, s, fo, ref::LE, [](auto &) {});
  });
  std::vector<Item> items;
  ref::each_type([&](auto tag) {
    using T = typename decltype(tag)::type;
    add<T>(items, {2, 3}, false, ref::LE, 1);
    add<T>(items, {3}, true, ref::BE, 9);
  });
  add<float>(items, {0}, false, ref::LE, 0);
  add<std::wstring>(items, {0, 4}, true, ref::BE, 0);
  add<std::uint8_t>(items, {}, false, ref::NE, 3);
  add<std::uint8_t>(items, space::zero_shape(300), false, ref::NE, 3);
  add<std::int64_t>(items, {1000}, false, ref::NE, 3);
  size_t depth = mc::thorough() ? 4 : 3;
  const size_t n = items.size();
  for (size_t len = 2; len <= depth; ++len) {
    std::vector<size_t> ix(len, 0);
    while (true) {
      mc::one(
          [&] {
            std::string s = "sequence";
            for (auto i : ix)
              s += " " + items[i].name.substr(0, 60);
            return s;
          },
          [&] {
            std::stringstream io;
            std::vector<std::streampos> ends;
            for (auto i : ix) {
              items[i].save(io);
              ends.push_back(io.tellp());
            }
            for (size_t k = 0; k < ix.size(); ++k) {
              items[ix[k]].load(io);
              if (!io.good() || io.tellg() != ends[k])
                mc::fail(mc::str("array ", k, " did not consume exactly its bytes"));
              mc::transitions();
            }
            mc::outcome(io.str());
          });
      size_t k = 0;
      while (k < len && ++ix[len - 1 - k] == n)
        ix[len - 1 - k++] = 0;
      if (k == len)
        break;
    }
  }
}
