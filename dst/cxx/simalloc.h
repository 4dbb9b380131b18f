// Seeded allocator: placement, reuse and address order are decided by the run's seed.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

namespace simalloc {
inline uint64_t rng = 1;
inline bool live = false;  // false: plain bump allocation
inline uint64_t reused = 0, fresh = 0;
inline uint64_t next() {
  rng ^= rng << 13;
  rng ^= rng >> 7;
  rng ^= rng << 17;
  return rng * 0x2545F4914F6CDD1DULL >> 11;
}
constexpr size_t kArena = 1ull << 31, kClasses = 40, kPool = 4096;
inline char *base = nullptr, *lo = nullptr, *hi = nullptr;
struct Class {
  void *free[kPool];
  int n = 0;
};
inline Class classes[kClasses];
inline int reuse = 60;  // percent chance of reusing a freed block
inline int cls(size_t n) {
  if (n <= 512) return (int)((n + 15) / 16);
  int c = 33;
  size_t s = 1024;
  while (s < n) s *= 2, ++c;
  return c;
}
inline size_t csize(int c) { return c <= 32 ? (c ? c : 1) * 16 : (size_t)1024 << (c - 33); }
inline void init() {
  if (base) return;
  base = (char *)mmap((void *)0x600000000000, kArena, PROT_READ | PROT_WRITE,
                      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (base == MAP_FAILED) abort();
  lo = base + 64;
  hi = base + kArena;
}
inline void *get(size_t n) {
  init();
  int c = cls(n);
  size_t s = csize(c) + 16;
  Class *k = c < (int)kClasses ? &classes[c] : nullptr;
  if (k && k->n && (!live || (int)(next() % 100) < reuse)) {
    int i = live && next() % 3 == 0 ? (int)(next() % k->n) : k->n - 1;
    void *p = k->free[i];
    k->free[i] = k->free[--k->n];
    ++reused;
    return p;
  }
  ++fresh;
  char *p;
  if (live && next() % 2) {  // from the top, downwards
    hi -= s + (next() % 4) * 16;
    hi = (char *)((uintptr_t)hi & ~(uintptr_t)15);
    p = hi;
  } else {
    p = lo;
    lo += s + (live ? (next() % 4) * 16 : 0);
  }
  if (lo >= hi) abort();
  *(int *)p = c;
  return p + 16;
}
inline void put(void *p) {
  if (!p) return;
  int c = *(int *)((char *)p - 16);
  Class *k = c < (int)kClasses ? &classes[c] : nullptr;
  if (k && k->n < (int)kPool) k->free[k->n++] = p;
}
}  // namespace simalloc

void *operator new(size_t n) { return simalloc::get(n); }
void *operator new[](size_t n) { return simalloc::get(n); }
void operator delete(void *p) noexcept { simalloc::put(p); }
void operator delete[](void *p) noexcept { simalloc::put(p); }
void operator delete(void *p, size_t) noexcept { simalloc::put(p); }
void operator delete[](void *p, size_t) noexcept { simalloc::put(p); }
