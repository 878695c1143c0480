#include "iofault.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace iof {
namespace {
bool armed = false;
std::vector<Fault> plan;
Report rep;
bool sticky_io = false, sticky_end = false;
bool recording = false;
long die_write = -1, writes = 0;
size_t die_bytes = 0;

// the fault for the next call, if any
size_t cut = 0; // of SHORT_AT
bool next(Op op, size_t bytes, Kind &k) {
  long at = long(rep.calls.size());
  rep.calls.push_back({op, bytes});
  for (auto &f : plan)
    if (f.at == at) {
      k = f.kind;
      cut = f.n;
      if (k == FAIL_FROM)
        sticky_io = true;
      if (k == END_FROM)
        sticky_end = true;
      return true;
    }
  if (sticky_io && op != CLOSE) {
    k = FAIL_IO;
    return true;
  }
  if (sticky_end && op == READ) {
    k = END;
    return true;
  }
  return false;
}
template <class F> F real(const char *name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
} // namespace
void arm(const std::vector<Fault> &p) {
  plan = p;
  rep = {};
  sticky_io = sticky_end = false;
  recording = false;
  die_write = -1;
  writes = 0;
  armed = true;
}
void record() {
  arm({});
  recording = true;
}
void die_at(long w, size_t bytes) {
  arm({});
  die_write = w;
  die_bytes = bytes;
}
Report disarm() {
  armed = false;
  return rep;
}
std::vector<Kind> kinds(Op op) {
  switch (op) {
  case OPEN:
    return {FAIL_SPACE, FAIL_IO};
  case READ:
    return {FAIL_IO, FAIL_FROM, END, END_FROM, SHORT1, SHORT_HALF, INTERRUPT};
  case WRITE:
    return {FAIL_SPACE, FAIL_IO, FAIL_FROM, SHORT1, SHORT_HALF, INTERRUPT};
  case SEEK:
    return {FAIL_IO, FAIL_FROM};
  case CLOSE:
    return {FAIL_IO, FAIL_SPACE};
  case NAME:
    return {FAIL_IO, FAIL_SPACE, FAIL_FROM};
  case STAT:
    return {FAIL_IO};
  }
  return {};
}
} // namespace iof
using namespace iof;

namespace {
// returns true if the call is answered here
bool data_fault(Op op, size_t &n, ssize_t &result) {
  Kind k;
  if (!next(op, n, k))
    return false;
  switch (k) {
  case FAIL_SPACE:
    errno = ENOSPC;
    result = -1;
    ++rep.failed;
    return true;
  case FAIL_IO:
  case FAIL_FROM:
    errno = EIO;
    result = -1;
    ++rep.failed;
    return true;
  case END:
  case END_FROM:
    if (op != READ)
      return false;
    result = 0;
    ++rep.failed;
    return true;
  case INTERRUPT:
    errno = EINTR;
    result = -1;
    ++rep.transparent;
    return true;
  case SHORT1:
    if (n > 1) {
      n = 1;
      ++rep.transparent;
    }
    return false;
  case SHORT_AT:
    if (n > cut && cut) {
      n = cut;
      ++rep.transparent;
    }
    return false;
  case SHORT_HALF:
    if (n > 1) {
      n /= 2;
      ++rep.transparent;
    }
    return false;
  }
  return false;
}
} // namespace

// the process ends here?
static void mortal(int fd, const struct iovec *v, int c) {
  if (die_write != writes++)
    return;
  std::string all;
  for (int i = 0; i < c; ++i)
    all.append(static_cast<const char *>(v[i].iov_base), v[i].iov_len);
  all.resize(std::min(all.size(), die_bytes));
  armed = false;
  static auto f = real<ssize_t (*)(int, const void *, size_t)>("write");
  for (size_t at = 0; at < all.size();) {
    ssize_t r = f(fd, all.data() + at, all.size() - at);
    if (r <= 0)
      break;
    at += size_t(r);
  }
  _exit(77);
}
static ssize_t keep(int fd, off_t at, const struct iovec *v, int c, ssize_t r) {
  if (recording && r > 0) {
    std::string all;
    for (int i = 0; i < c; ++i)
      all.append(static_cast<const char *>(v[i].iov_base), v[i].iov_len);
    all.resize(size_t(r));
    rep.log.push_back({fd, at, all});
  }
  return r;
}
static ssize_t got(ssize_t r) {
  if (r > 0 && !rep.calls.empty())
    rep.calls.back().got = size_t(r);
  return r;
}
static off_t where(int fd) {
  static auto f = real<off_t (*)(int, off_t, int)>("lseek");
  return recording ? f(fd, 0, SEEK_CUR) : 0;
}

extern "C" {
ssize_t write(int fd, const void *p, size_t n) {
  static auto f = real<ssize_t (*)(int, const void *, size_t)>("write");
  if (armed && fd > 2) {
    ssize_t r;
    if (data_fault(WRITE, n, r))
      return r;
    struct iovec v = {const_cast<void *>(p), n};
    mortal(fd, &v, 1);
    off_t at = where(fd);
    return keep(fd, at, &v, 1, f(fd, p, n));
  }
  return f(fd, p, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  static auto f = real<ssize_t (*)(int, const struct iovec *, int)>("writev");
  if (armed && fd > 2) {
    size_t n = 0;
    for (int i = 0; i < c; ++i)
      n += v[i].iov_len;
    size_t m = n;
    ssize_t r;
    if (data_fault(WRITE, m, r))
      return r;
    if (m < n) { // a short write
      std::vector<struct iovec> w;
      for (int i = 0; i < c && m; ++i) {
        w.push_back(v[i]);
        if (w.back().iov_len > m)
          w.back().iov_len = m;
        m -= w.back().iov_len;
      }
      return f(fd, w.data(), int(w.size()));
    }
    mortal(fd, v, c);
    off_t at = where(fd);
    return keep(fd, at, v, c, f(fd, v, c));
  }
  return f(fd, v, c);
}
ssize_t pwrite(int fd, const void *p, size_t n, off_t o) {
  static auto f = real<ssize_t (*)(int, const void *, size_t, off_t)>("pwrite");
  if (armed && fd > 2) {
    ssize_t r;
    if (data_fault(WRITE, n, r))
      return r;
    struct iovec v = {const_cast<void *>(p), n};
    return keep(fd, o, &v, 1, f(fd, p, n, o));
  }
  return f(fd, p, n, o);
}
ssize_t read(int fd, void *p, size_t n) {
  static auto f = real<ssize_t (*)(int, void *, size_t)>("read");
  if (armed && fd > 2) {
    ssize_t r;
    if (data_fault(READ, n, r))
      return r;
    return got(f(fd, p, n));
  }
  return f(fd, p, n);
}
ssize_t pread(int fd, void *p, size_t n, off_t o) {
  static auto f = real<ssize_t (*)(int, void *, size_t, off_t)>("pread");
  if (armed && fd > 2) {
    ssize_t r;
    if (data_fault(READ, n, r))
      return r;
    return got(f(fd, p, n, o));
  }
  return f(fd, p, n, o);
}
static off_t seek(off_t (*f)(int, off_t, int), int fd, off_t o, int w) {
  Kind k;
  if (armed && fd > 2 && next(SEEK, 0, k) && (k == FAIL_IO || k == FAIL_FROM || k == FAIL_SPACE)) {
    errno = EIO;
    ++rep.failed;
    return -1;
  }
  return f(fd, o, w);
}
off_t lseek(int fd, off_t o, int w) {
  static auto f = real<off_t (*)(int, off_t, int)>("lseek");
  return seek(f, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) {
  static auto f = real<off_t (*)(int, off_t, int)>("lseek64");
  return seek(f, fd, o, w);
}
static FILE *open_file(FILE *(*f)(const char *, const char *), const char *p, const char *m) {
  Kind k;
  if (armed && next(OPEN, 0, k) && (k == FAIL_IO || k == FAIL_FROM || k == FAIL_SPACE)) {
    errno = k == FAIL_SPACE ? ENOSPC : EMFILE;
    ++rep.failed;
    return nullptr;
  }
  return f(p, m);
}
FILE *fopen(const char *p, const char *m) {
  static auto f = real<FILE *(*)(const char *, const char *)>("fopen");
  return open_file(f, p, m);
}
FILE *fopen64(const char *p, const char *m) {
  static auto f = real<FILE *(*)(const char *, const char *)>("fopen64");
  return open_file(f, p, m);
}
int open(const char *p, int flags, ...) {
  static auto f = real<int (*)(const char *, int, ...)>("open");
  va_list a;
  va_start(a, flags);
  mode_t mode = mode_t(va_arg(a, int));
  va_end(a);
  Kind k;
  if (armed && next(OPEN, 0, k) && (k == FAIL_IO || k == FAIL_FROM || k == FAIL_SPACE)) {
    errno = k == FAIL_SPACE ? ENOSPC : EMFILE;
    ++rep.failed;
    return -1;
  }
  return f(p, flags, mode);
}
static bool close_fault() {
  Kind k;
  if (armed && next(CLOSE, 0, k) && (k == FAIL_IO || k == FAIL_SPACE || k == FAIL_FROM)) {
    ++rep.failed;
    ++rep.close_failed;
    return true;
  }
  return false;
}
int fclose(FILE *s) {
  static auto f = real<int (*)(FILE *)>("fclose");
  bool bad = close_fault();
  int r = f(s);
  if (bad) {
    errno = EIO;
    return EOF;
  }
  return r;
}
int close(int fd) {
  static auto f = real<int (*)(int)>("close");
  bool bad = fd > 2 && close_fault();
  int r = f(fd);
  if (bad) {
    errno = EIO;
    return -1;
  }
  return r;
}

// names, lengths, flushing
static bool name_fault(Op op) {
  Kind k;
  if (armed && next(op, 0, k) && (k == FAIL_IO || k == FAIL_FROM || k == FAIL_SPACE)) {
    errno = k == FAIL_SPACE ? ENOSPC : EIO;
    ++rep.failed;
    return true;
  }
  return false;
}
#define NAMED(op, ret, fn, decl, args)                                                                                                                                                                  \
  ret fn decl {                                                                                                                                                                                         \
    static auto f = real<ret(*) decl>(#fn);                                                                                                                                                             \
    return name_fault(op) ? -1 : f args;                                                                                                                                                                \
  }
NAMED(NAME, int, rename, (const char *a, const char *b) noexcept, (a, b))
NAMED(NAME, int, renameat, (int x, const char *a, int y, const char *b) noexcept, (x, a, y, b))
NAMED(NAME, int, renameat2, (int x, const char *a, int y, const char *b, unsigned g) noexcept, (x, a, y, b, g))
NAMED(NAME, int, link, (const char *a, const char *b) noexcept, (a, b))
NAMED(NAME, int, unlink, (const char *a) noexcept, (a))
NAMED(NAME, int, unlinkat, (int x, const char *a, int g) noexcept, (x, a, g))
NAMED(NAME, int, remove, (const char *a) noexcept, (a))
NAMED(NAME, int, truncate, (const char *a, off_t n) noexcept, (a, n))
NAMED(NAME, int, truncate64, (const char *a, off64_t n) noexcept, (a, n))
NAMED(NAME, int, ftruncate, (int x, off_t n) noexcept, (x, n))
NAMED(NAME, int, ftruncate64, (int x, off64_t n) noexcept, (x, n))
NAMED(NAME, int, fsync, (int x), (x))
NAMED(NAME, int, fdatasync, (int x), (x))
NAMED(STAT, int, stat, (const char *a, struct stat *b) noexcept, (a, b))
NAMED(STAT, int, stat64, (const char *a, struct stat64 *b) noexcept, (a, b))
NAMED(STAT, int, lstat, (const char *a, struct stat *b) noexcept, (a, b))
NAMED(STAT, int, fstat, (int x, struct stat *b) noexcept, (x, b))
NAMED(STAT, int, fstat64, (int x, struct stat64 *b) noexcept, (x, b))
}
