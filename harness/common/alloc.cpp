// operator new with a ceiling: requests above it fail as on a small machine.
// Blocks of the size of the library's work buffers are recycled (with their
// surroundings and, while free, their contents poisoned), because the
// sanitizer maps and unmaps every such block.
#include "mc.hpp"
#include <new>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#define POISON(p, n)
#define UNPOISON(p, n)
#endif
namespace {
constexpr size_t LOW = size_t(1) << 19, HIGH = (size_t(1) << 20) + 4096, ZONE = 4096, SLOTS = 16;
struct Slot {
  char *base = nullptr;
  bool used = false;
} slots[SLOTS];

void *get(size_t n) {
  if (n > mc::alloc_peak)
    mc::alloc_peak = n;
  if (n > mc::alloc_cap)
    throw std::bad_alloc();
#ifdef __SANITIZE_ADDRESS__
  if (n >= LOW && n <= HIGH)
    for (auto &s : slots)
      if (!s.used) {
        if (!s.base) {
          s.base = static_cast<char *>(malloc(HIGH + 2 * ZONE));
          if (!s.base)
            break;
          POISON(s.base, HIGH + 2 * ZONE);
        }
        s.used = true;
        UNPOISON(s.base + ZONE, n);
        memset(s.base + ZONE, 0xBE, 4096); // not what it held before
        return s.base + ZONE;
      }
#endif
  void *p = malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void put(void *p) {
#ifdef __SANITIZE_ADDRESS__
  for (auto &s : slots)
    if (s.base && p == s.base + ZONE) {
      if (!s.used) {
        fprintf(stderr, "ERROR: block deleted twice\n");
        abort();
      }
      s.used = false;
      POISON(s.base, HIGH + 2 * ZONE);
      return;
    }
#endif
  free(p);
}
} // namespace
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
