// The alphabet of library operations of C18 and C23.  Every operation makes its own
// objects, uses its own files (below `path`), and answers with a description of all
// that it produced.
#pragma once
#include "common/tensors.hpp"
#include "common/zipref.hpp"
#include <cxxabi.h>
#include <fstream>
#include <memory>
#ifndef MC_CORE
#include "zip.h"
#endif

namespace {
using Shape = std::vector<size_t>;
using Steps = std::vector<std::function<std::string()>>;
struct Op {
  std::string name;
  std::function<Steps(const std::string &path)> make; // path: a name without suffix, in the working directory
};
std::vector<Op> ops;

std::string show(const std::string &b) { return mc::str(b.size(), " bytes ", mc::hash(b), " ", mc::hex(b.substr(0, 24)), "..", mc::hex(b.size() > 24 ? b.substr(b.size() - 8) : "")); }
template <class T> std::string show(const npy::tensor<T> &t) { return mc::str("tensor ", mc::list(t.shape()), t.fortran_order() ? " F " : " C ", ref::tensor_hash(t)); }
std::string show(const npy::header_info &h) { return mc::str("info ", int(h.dtype), " ", int(h.endianness), " ", h.fortran_order, " ", mc::list(h.shape), " ", h.max_element_length); }
std::string caught(const std::function<std::string()> &f) {
  try {
    return f();
  } catch (const std::exception &e) {
    int st = 0;
    char *n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    std::string s = std::string("threw ") + (n ? n : "?");
    free(n);
    return s;
  }
}
void single(const std::string &name, const std::function<std::string(const std::string &)> &f) {
  ops.push_back({name, [f](const std::string &p) { return Steps{[f, p] { return f(p); }}; }});
}
const char *MODIFIED = " INPUT MODIFIED";
// an operation on a tensor must not change it
template <class T, class F> std::string with(Shape s, bool fo, size_t start, F &&f) {
  npy::tensor<T> t(s, fo);
  ref::fill_distinct(t, start);
  std::string before = show(t), r = caught([&] { return f(t); });
  return r + (show(t) != before ? MODIFIED : "");
}
template <class F> std::string with_bytes(const std::string &b, F &&f) {
  std::string c = b, r = caught([&] { return f(c); });
  return r + (c != b ? MODIFIED : "");
}
template <class T> std::string npy_file(Shape s, bool fo, size_t start, char order = '<') {
  npy::tensor<T> t(s, fo); // only as storage: no operation of the library
  std::vector<T> v;
  for (size_t i = 0; i < ref::product(s); ++i)
    v.push_back(ref::canon(ref::nth<T>(start + i)));
  return ref::encode(v, s, order, fo);
}
template <class T> void save_op(const char *name, Shape s, bool fo, size_t start, npy::endian_t e) {
  single(mc::str("save ", name, mc::list(s), fo ? "F" : "C", ref::ename(e)), [=](const std::string &) {
    return with<T>(s, fo, start, [&](const npy::tensor<T> &t) {
      std::ostringstream o;
      npy::save(o, t, e);
      return show(o.str());
    });
  });
}
template <class T> void load_op(const char *name, const std::string &bytes) {
  single(std::string("load ") + name, [=](const std::string &) {
    return with_bytes(bytes, [&](const std::string &b) {
      std::istringstream i(b);
      npy::header_info h = npy::peek(i);
      std::string r = show(h);
      i.clear();
      i.seekg(0);
      auto t = npy::load<npy::tensor<T>>(i);
      return r + " " + show(t) + mc::str(" at ", long(i.tellg()));
    });
  });
}
template <class R> std::string entry(R &r, const std::string &n, int type) {
  return caught([&]() -> std::string {
    switch (type) {
    case 0:
      return show(r.template read<npy::tensor<std::int32_t>>(n));
    case 1:
      return show(r.template read<double, npy::tensor>(n));
    case 2:
      return show(r.template read<npy::tensor<std::wstring>>(n));
    default:
      return show(r.peek(n));
    }
  });
}
zref::Out out(const std::string &n, const std::string &b, int method) {
  zref::Out o;
  o.name = n;
  o.bytes = b;
  o.method = method;
  return o;
}
template <class W> Steps writer_steps(const std::function<std::unique_ptr<W>()> &open, const std::function<std::string(W *)> &end, int variant) {
  auto w = std::make_shared<std::unique_ptr<W>>();
  Steps s;
  s.push_back([=] { return caught([&] { return *w = open(), std::string("open"); }); });
  s.push_back([=] {
    return with<std::int32_t>({size_t(2 + variant), 3}, variant == 1, 5, [&](const npy::tensor<std::int32_t> &t) { return (*w)->write("a", t), std::string("ok"); });
  });
  s.push_back([=] {
    return with<std::wstring>({3}, false, size_t(variant), [&](const npy::tensor<std::wstring> &t) {
      return (*w)->write("b.npy", t), std::string("ok");
    });
  });
  s.push_back([=] { return caught([&] { return end(w->get()); }); });
  return s;
}

void make_ops() {
  // --- saving
  save_op<float>("f4", {2, 3}, false, 1, ref::LE);
  save_op<float>("f4", {3, 2}, true, 1, ref::BE);
  // ... which differ from the first in one respect
  save_op<float>("f4", {2, 3}, true, 1, ref::LE);
  save_op<float>("f4", {2, 3}, false, 1, ref::BE);
  save_op<float>("f4", {2, 3}, false, 41, ref::LE);
  save_op<float>("f4", {3, 2}, false, 1, ref::LE);
  save_op<float>("f4", {6}, false, 1, ref::LE);
  save_op<std::int32_t>("i4", {2, 3}, false, 1, ref::LE);
  save_op<std::int16_t>("i2", {2, 3}, false, 1, ref::NE);
  save_op<std::wstring>("U", {4}, false, 2, ref::LE);
  save_op<std::wstring>("U", {2, 2}, false, 30, ref::BE);
  save_op<npy::boolean>("b1", {1, 11, 10}, false, 0, ref::LE);
  save_op<std::complex<double>>("c16", {2}, false, 3, ref::BE);
  save_op<std::wstring>("U", {4}, false, 40, ref::LE);
  save_op<std::uint8_t>("u1", {70000}, false, 9, ref::LE);
  save_op<double>("f8", {}, false, 9, ref::LE);
  save_op<double>("f8", space::zero_shape(300), true, 9, ref::LE);
  single("save to a path", [](const std::string &p) {
    return with<std::uint16_t>({3, 2}, false, 5, [&](const npy::tensor<std::uint16_t> &t) { return npy::save(p + ".npy", t), show(mc::read_all(p + ".npy")); });
  });
  single("save as much to a path", [](const std::string &p) {
    return with<std::uint16_t>({3, 2}, true, 50, [&](const npy::tensor<std::uint16_t> &t) { return npy::save(p + ".npy", t), show(mc::read_all(p + ".npy")); });
  });
  single("save more to a path", [](const std::string &p) {
    return with<std::int64_t>({300}, false, 5, [&](const npy::tensor<std::int64_t> &t) { return npy::save(p + ".npy", t, ref::BE), show(mc::read_all(p + ".npy")); });
  });
  single("save to a missing directory", [](const std::string &p) {
    return with<std::uint16_t>({3, 2}, false, 5, [&](const npy::tensor<std::uint16_t> &t) { return npy::save("missing/" + p, t), std::string("saved"); });
  });
  single("save to a bad stream", [](const std::string &) {
    return with<std::uint16_t>({3, 2}, false, 5, [&](const npy::tensor<std::uint16_t> &t) {
      std::ostringstream o;
      o.exceptions(std::ios::badbit);
      try {
        o.setstate(std::ios::badbit);
      } catch (const std::exception &) {
      }
      npy::save(o, t);
      return show(o.str());
    });
  });
  // --- loading
  const std::string i4 = npy_file<std::int32_t>({2, 3}, false, 7), i4f = npy_file<std::int32_t>({3, 2}, true, 7, '>'), u = npy_file<std::wstring>({4}, false, 2),
                    f8 = npy_file<double>({40, 3}, false, 1, '>'), b1 = npy_file<npy::boolean>({7}, false, 1), u2 = npy_file<std::wstring>({2, 2}, true, 30, '>');
  load_op<std::int32_t>("i4", i4);
  load_op<std::int32_t>("i4 F >", i4f);
  load_op<std::int32_t>("i4 F", npy_file<std::int32_t>({2, 3}, true, 7));
  load_op<std::int32_t>("i4, other values", npy_file<std::int32_t>({2, 3}, false, 70));
  load_op<std::wstring>("U", u);
  load_op<std::wstring>("U, other values", npy_file<std::wstring>({4}, false, 40));
  load_op<std::wstring>("U F >", u2);
  load_op<double>("f8", f8);
  load_op<npy::boolean>("b1", b1);
  load_op<float>("with the wrong type", i4);
  load_op<double>("cut short", f8.substr(0, f8.size() - 11));
  load_op<std::wstring>("cut inside the header", u.substr(0, 50));
  load_op<std::int32_t>("bad magic", "X" + i4.substr(1));
  {
    ref::Layout l;
    load_op<std::int32_t>("bad dictionary", ref::raw_header("{'descr': '<i4', 'fortran_order': Maybe, 'shape': (3,), }\n"));
    load_op<std::int32_t>("bad descriptor", ref::raw_header("{'descr': '<i3', 'fortran_order': False, 'shape': (3,), }\n") + "xxxxxxxxxxxx");
    load_op<std::int32_t>("missing key", ref::raw_header("{'descr': '<i4', 'shape': (3,), }\n") + "xxxxxxxxxxxx");
    load_op<std::int32_t>("huge shape", ref::raw_header("{'descr': '<i4', 'fortran_order': False, 'shape': (4611686018427387904, 8), }\n") + "xxxxxxxxxxxx");
    load_op<std::int32_t>("too much memory", ref::raw_header("{'descr': '<i4', 'fortran_order': False, 'shape': (1099511627776,), }\n") + "xxxxxxxxxxxx");
    load_op<std::int32_t>("version 2", ref::raw_header("{'shape': (3,), 'fortran_order': True,  'descr': '>i4', }          \n", 2) + "abcdefghijklmnop");
  }
  single("load from a path", [=](const std::string &p) {
    mc::write_all(p + ".npy", f8);
    return caught([&] { return show(npy::peek(p + ".npy")) + show(npy::load<npy::tensor<double>>(p + ".npy")); });
  });
  single("load from a missing file", [](const std::string &) { return caught([] { return show(npy::load<npy::tensor<double>>(std::string("nothing.npy"))); }); });
  // --- archives in memory
  auto archive = [&](int method, bool broken) {
    std::string z = zref::write({out("a.npy", i4, method), out("b.npy", f8, method), out("c.npy", u, method)});
    if (broken) {
      auto p = z.find("NUMPY", z.find("b.npy"));
      if (p == std::string::npos)
        p = z.find("b.npy") + 30;
      z[p + 20] ^= 0x10;
      z[p + 21] ^= 0x21;
    }
    return z;
  };
  for (int method : {0, 8})
    for (bool broken : {false, true}) {
      std::string z = archive(method, broken);
      ops.push_back({mc::str("read archive, method ", method, broken ? " damaged" : ""), [z](const std::string &) {
                       auto r = std::make_shared<std::unique_ptr<npy::npzstringreader>>();
                       auto in = std::make_shared<std::string>(z);
                       return Steps{[=] { return caught([&] { return *r = std::make_unique<npy::npzstringreader>(*in), mc::list((*r)->keys()); }); },
                                    [=] { return entry(**r, "a", 0) + (*in != z ? MODIFIED : ""); },
                                    [=] { return entry(**r, "b.npy", 1) + entry(**r, "b", 3); },
                                    [=] { return entry(**r, "c", 2) + entry(**r, "d", 2) + mc::str((*r)->contains("c")); }};
                     }});
    }
  {
    std::string z = zref::write({out("a.npy", i4f, 8), out("c.npy", npy_file<std::wstring>({1, 70}, false, 90), 8)});
    ops.push_back({"read an archive file with the same names", [z](const std::string &p) {
                     auto r = std::make_shared<std::unique_ptr<npy::npzfilereader>>();
                     return Steps{[=] {
                                    mc::write_all(p + ".npz", z);
                                    return caught([&] { return *r = std::make_unique<npy::npzfilereader>(p + ".npz"), mc::list((*r)->keys()); });
                                  },
                                  [=] { return entry(**r, "a", 0) + entry(**r, "a", 3); },
                                  [=] { return entry(**r, "c", 2) + entry(**r, "b", 1); },
                                  [=] { return r->reset(), std::string("closed"); }};
                   }});
    single("open a damaged archive", [z](const std::string &p) {
      std::string s = caught([&] {
        npy::npzstringreader r(z.substr(0, z.size() - 5));
        return std::string("opened");
      });
      mc::write_all(p + ".npz", z.substr(5));
      return s + caught([&] {
               npy::npzfilereader r(p + ".npz");
               return entry(r, "a", 0);
             });
    });
  }
  for (int k = 0; k < 2; ++k) { // archives and files of equal sizes and names, with other contents
    std::string z = zref::write({out("a.npy", npy_file<std::int32_t>({2, 3}, k == 1, size_t(7 + 100 * k)), 0), out("b.npy", npy_file<double>({40, 3}, false, size_t(1 + 100 * k), '>'), 0)});
    single(mc::str("read archive file ", k), [z](const std::string &p) {
      mc::write_all(p + ".npz", z);
      return caught([&] {
        npy::npzfilereader r(p + ".npz");
        npy::npzstringreader q(z);
        return entry(r, "a", 0) + entry(r, "a", 3) + entry(q, "a.npy", 0) + entry(q, "b", 1);
      });
    });
    std::string f = npy_file<double>({40, 3}, k == 1, size_t(1 + 200 * k), '>');
    single(mc::str("load from a path ", k), [f](const std::string &p) {
      mc::write_all(p + ".npy", f);
      return caught([&] { return show(npy::peek(p + ".npy")) + show(npy::load<npy::tensor<double>>(p + ".npy")); });
    });
  }
  single("open something else as an archive", [=](const std::string &) {
    return caught([&] {
      npy::npzstringreader r(f8);
      return mc::list(r.keys());
    });
  });
  for (int v : {0, 1})
    ops.push_back({mc::str("write archive ", v), [v](const std::string &) {
                     return writer_steps<npy::npzstringwriter>(
                         [v] { return std::make_unique<npy::npzstringwriter>(v ? npy::compression_method_t::DEFLATED : npy::compression_method_t::STORED, v ? ref::BE : ref::LE); },
                         [](npy::npzstringwriter *w) { return w->close(), show(w->str()); }, v);
                   }});
  ops.push_back({"write archive file", [](const std::string &p) {
                   return writer_steps<npy::npzfilewriter>([p] { return std::make_unique<npy::npzfilewriter>(p + ".npz", npy::compression_method_t::DEFLATED); },
                                                           [p](npy::npzfilewriter *w) { return w->close(), show(mc::read_all(p + ".npz")); }, 1);
                 }});
  single("writer left to its destructor", [](const std::string &p) {
    return with<std::int32_t>({30}, false, 5, [&](const npy::tensor<std::int32_t> &t) {
      {
        npy::npzfilewriter w(p + ".npz");
        w.write("long name of an entry", t);
      }
      return show(mc::read_all(p + ".npz"));
    });
  });
  single("write after close, unknown method", [](const std::string &) {
    return with<std::int32_t>({30}, false, 5, [&](const npy::tensor<std::int32_t> &t) {
      std::string r = caught([&] {
        npy::npzstringwriter w(npy::compression_method_t(77));
        return w.write("y", t), std::string("written");
      });
      npy::npzstringwriter w;
      w.write("x", t);
      w.close();
      r += caught([&] { return w.write("z", t), std::string("written"); });
      return r + show(w.str());
    });
  });
  single("too long a name", [](const std::string &) {
    return with<std::int32_t>({3}, false, 5, [&](const npy::tensor<std::int32_t> &t) {
      npy::npzstringwriter w;
      std::string r = caught([&] { return w.write(std::string(70000, 'n'), t), std::string("written"); });
      w.write("n", t);
      w.close();
      return r + show(w.str());
    });
  });
  single("write a large compressed array", [](const std::string &) {
    return with<std::uint8_t>({200000}, false, 5, [&](const npy::tensor<std::uint8_t> &t) {
      npy::npzstringwriter w(npy::compression_method_t::DEFLATED);
      w.write("big", t);
      w.close();
      npy::npzstringreader r(w.str());
      return show(w.str()) + show(r.read<npy::tensor<std::uint8_t>>("big"));
    });
  });
  // --- descriptors and dictionaries
  single("descriptors", [](const std::string &) {
    std::string r;
    for (const char *c : {"<i4", ">f8", "|b1", "<c8", "|u1", "=i2", "<q9", "", "<U5"})
      r += caught([&] {
        auto p = npy::from_dtype(c);
        return mc::str(int(p.first), int(p.second), " ");
      });
    for (int k = 0; k < 14; ++k)
      for (auto e : {ref::LE, ref::BE, ref::NE})
        r += caught([&] { return npy::to_dtype(npy::data_type_t(k), e) + " "; });
    return r;
  });
  single("unknown descriptors", [](const std::string &) {
    return caught([] { return mc::str(int(npy::from_dtype("<z4").first)); }) +
           caught([] { return show(npy::header_info("{'descr': '<f4', 'fortran_order': False, 'shape': (1, 2")); }) +
           caught([] { return show(npy::header_info("{'descr': '<f4', 'fortran_order': True, 'shape': (1, 2), }")); });
  });
  // --- tensors
  ops.push_back({"a tensor's life", [](const std::string &) {
                   auto a = std::make_shared<npy::tensor<float>>(Shape{2, 3}, true);
                   auto b = std::make_shared<npy::tensor<float>>(Shape{1});
                   return Steps{[=] { return a->set({1, 2}, 5.0f), show(*a); }, [=] { return *b = *a, b->set({0, 0}, 7.0f), show(*a) + show(*b); },
                                [=] { return caught([&] { return a->set({2, 0}, 1.0f), std::string("set"); }) + show(*a); },
                                [=] { return a->copy_from(std::vector<float>(6, 2.5f)), show(*a) + show(*b) + mc::str((*b)(1, 2)); }};
                 }});
  single("tensors that cannot exist", [](const std::string &) {
    return caught([] { return show(npy::tensor<double>(Shape{size_t(1) << 40})); }) + caught([] { return show(npy::tensor<double>(Shape{size_t(1) << 40, size_t(1) << 40})); }) +
           caught([] { return show(npy::tensor<double>(Shape{0, size_t(1) << 40})); });
  });
  single("wrong ranks and indices", [](const std::string &) {
    npy::tensor<std::int8_t> t(Shape{2, 3});
    ref::fill_distinct(t, 1);
    return caught([&] { return mc::str(int(t({1}))); }) + caught([&] { return mc::str(int(t({1, 3}))); }) + caught([&] { return mc::str(int(t({-1, -3}))); }) +
           caught([&] { return t.copy_from(std::vector<std::int8_t>(5)), std::string("copied"); }) + show(t);
  });
  // --- streams of several arrays
  ops.push_back({"several arrays in one stream", [](const std::string &) {
                   auto o = std::make_shared<std::stringstream>();
                   return Steps{[=] { return with<std::int32_t>({2, 2}, false, 1, [&](auto &t) { return npy::save(*o, t), std::string("ok"); }); },
                                [=] { return with<std::wstring>({2, 2}, true, 6, [&](auto &t) { return npy::save(*o, t, ref::BE), show(o->str()); }); },
                                [=] { return caught([&] { return show(npy::load<npy::tensor<std::int32_t>>(*o)); }); },
                                [=] { return caught([&] { return show(npy::load<npy::tensor<std::wstring>>(*o)); }); }};
                 }});
#ifndef MC_CORE
  // --- compression by itself
  std::string text;
  for (int i = 0; i < 5000; ++i)
    text += mc::str(i * i % 977, " ");
  const std::string packed = zref::deflate_raw(text, 9), other = zref::deflate_raw(std::string(40000, 'q') + text.substr(0, 300), 1);
  single("deflate", [=](const std::string &) { return caught([&] { return show(npy::npy_deflate(std::string(text))) + show(npy::npy_deflate("")); }); });
  std::string noise; // grows when compressed
  std::uint64_t x = 1;
  for (int i = 0; i < 1500; ++i)
    noise.push_back(char((x = x * 6364136223846793005ull + 1442695040888963407ull) >> 40));
  const std::string raw = zref::deflate_raw(noise, 9);
  single("deflate and inflate noise", [=](const std::string &) {
    return caught([&] { return show(npy::npy_deflate(std::string(noise))) + show(npy::npy_inflate(std::string(raw))); });
  });
  single("inflate and checksum", [=](const std::string &) {
    return with_bytes(text, [&](const std::string &b) { return mc::str(npy::npy_crc32(b), " ", npy::npy_crc32(""), " "); }) +
           caught([&] { return show(npy::npy_inflate(std::string(packed))) + show(npy::npy_inflate(std::string(other))); });
  });
  single("inflate damaged", [=](const std::string &) {
    return caught([&] { return show(npy::npy_inflate(packed.substr(0, packed.size() / 2))); }) + caught([&] { return show(npy::npy_inflate(other.substr(3))); }) +
           caught([&] { return show(npy::npy_inflate("")); });
  });
#endif
}
} // namespace
