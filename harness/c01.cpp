// C01: a saved NPY file is valid and describes exactly the tensor saved.
#include "common/huge.hpp"
#include "common/tensors.hpp"

template <class T>
static void check(const char *what, const space::Shape &shape, bool fo, npy::endian_t e, const std::function<void(npy::tensor<T> &)> &fill) {
  mc::one([&] { return mc::str(ref::Type<T>::name, " ", ref::ename(e), fo ? " F " : " C ", what, " ", mc::list(shape).substr(0, 100)); },
          [&] {
            npy::tensor<T> t(shape, fo);
            fill(t);
            std::vector<T> v(t.data(), t.data() + t.size());
            std::string b = ref::save_bytes(t, e);
            std::string w = ref::judge_file<T>(b, v, shape, fo, e);
            if (!w.empty())
              mc::fail(w + "; file " + mc::hex(b, 200));
            mc::outcome(b);
          });
}

void explore() {
  if (mc::option("part") == "huge")
    return huge::all(true, false);
  ref::each_type([&](auto tag) {
    using T = typename decltype(tag)::type;
    space::each_tensor<T>([&](const char *what, const space::Shape &s, bool fo, const auto &fill) {
      for (auto e : {ref::NE, ref::LE, ref::BE})
        check<T>(what, s, fo, e, fill);
    });
  });
  space::each_header_length([&](const char *what, const space::Shape &s, bool fo) {
    check<float>(what, s, fo, ref::NE, [](auto &) {});
    check<std::complex<double>>(what, s, fo, ref::BE, [](auto &) {});
    if (s.size() < 20000)
      check<std::wstring>(what, s, fo, ref::LE, [](auto &) {});
  });
  // the header writer on its own, with any descriptor
  space::each_header_length([&](const char *what, const space::Shape &s, bool fo) {
    for (const char *d : {"|u1", "<i4", ">U123456"})
      mc::one([&] { return mc::str("write_npy_header ", d, " ", what, " rank ", s.size()); },
              [&] {
                std::ostringstream o;
                npy::write_npy_header(o, d, fo, s);
                auto r = ref::decode(o.str());
                if (!r.ok)
                  mc::fail("invalid header: " + r.why);
                if (r.dict.descr != d || r.dict.fortran != fo || r.dict.shape != s || r.consumed != o.str().size())
                  mc::fail("header says " + r.dict.descr + " " + mc::list(r.dict.shape).substr(0, 200));
                mc::outcome(o.str());
              });
  });
}
