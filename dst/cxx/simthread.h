// Cooperative execution of real threads: one holds the baton, a seeded generator decides
// at every instrumented edge, lock operation and allocation whether another thread gets it.
// Interposes malloc (seeded placement), mutexes, once-flags and static-initialisation guards.
#pragma once
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <dlfcn.h>

// ---------------------------------------------------------------- allocator
namespace sim {
inline uint64_t arng = 88172645463325252ull;
inline bool alive = false;  // seeded placement
inline int areuse = 60;
inline uint64_t nalloc = 0, nreused = 0;
inline uint64_t xs(uint64_t &s) {
  s ^= s << 13;
  s ^= s >> 7;
  s ^= s << 17;
  return (s * 0x2545F4914F6CDD1DULL) >> 11;
}
constexpr size_t kArena = 8ull << 30;
constexpr int kClasses = 64, kPool = 8192;
struct Class {
  void *free[kPool];
  int n;
};
inline Class classes[kClasses];
inline char *base = nullptr, *lo = nullptr, *hi = nullptr;
inline int cls(size_t n) {
  if (n <= 512) return n ? (int)((n + 15) / 16) : 1;
  int c = 33;
  size_t s = 1024;
  while (s < n) s *= 2, ++c;
  return c;
}
inline size_t csize(int c) { return c <= 32 ? (size_t)c * 16 : (size_t)1024 << (c - 33); }
struct Hdr {
  uint32_t cls;
  uint32_t magic;
  uint64_t size;
};
inline void preempt(int why);
inline bool nopre = true;
inline void *aget(size_t n) {
  if (!base) {
    base = (char *)mmap((void *)0x600000000000, kArena, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (base == MAP_FAILED) _exit(97);
    lo = base + 64;
    hi = base + kArena;
  }
  ++nalloc;
  int c = cls(n);
  Class *k = c < kClasses ? &classes[c] : nullptr;
  char *p;
  if (k && k->n && (!alive || (int)(xs(arng) % 100) < areuse)) {
    int i = alive && xs(arng) % 3 == 0 ? (int)(xs(arng) % k->n) : k->n - 1;
    p = (char *)k->free[i];
    k->free[i] = k->free[--k->n];
    ++nreused;
  } else {
    size_t s = csize(c) + sizeof(Hdr);
    if (alive && xs(arng) % 2) {
      hi -= s + (xs(arng) % 4) * 16;
      hi = (char *)((uintptr_t)hi & ~(uintptr_t)15);
      p = hi;
    } else {
      p = lo;
      lo += s + (alive ? (xs(arng) % 4) * 16 : 0);
      lo = (char *)(((uintptr_t)lo + 15) & ~(uintptr_t)15);
    }
    if (lo >= hi) _exit(98);
    p += sizeof(Hdr);
  }
  Hdr *h = (Hdr *)(p - sizeof(Hdr));
  h->cls = c;
  h->magic = 0x51a110c8;
  h->size = n;
  return p;
}
inline void aput(void *p) {
  if (!p) return;
  Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
  if (h->magic == 0x51a110c7) {  // aligned block: the real start is stored in size
    aput((void *)h->size);
    return;
  }
  if (h->magic != 0x51a110c8) {
    if ((char *)p < base || (char *)p >= base + kArena) return;  // not ours (early loader)
    const char m[] = "SIM: invalid or double free\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(96);
  }
  h->magic = 0x0badf4ee;
  memset(p, 0xD5, h->size < 256 ? h->size : 256);
  Class *k = h->cls < kClasses ? &classes[h->cls] : nullptr;
  if (k && k->n < kPool) k->free[k->n++] = p;
}

// ---------------------------------------------------------------- scheduler
constexpr int kMaxThreads = 24;
enum St { Free, Run, Idle, Wait, Done };
struct Th {
  sem_t sem;
  St st;
  bool (*ready)(void *);
  void *arg;
  uint32_t weight;
  pthread_t pt;
};
inline Th th[kMaxThreads];
inline int nth = 0, cur = 0;
inline bool active = false, in = false;
inline uint64_t srng = 1, points = 0, switches = 0, sighash = 1469598103934665603ull;
inline uint32_t pre_ppm = 0;  // chance of a switch at an edge, per 65536
// Every scheduling decision has a number and a default; the decisions that differ from
// their default are the schedule trace, which can be replayed and made smaller.
struct Dec {
  uint64_t id;
  uint32_t v;
};
constexpr int kMaxDec = 1 << 16;
inline Dec rec[kMaxDec], rep[kMaxDec];
inline int nrec = 0, nrep = 0, irep = 0;
inline bool replay = false;
inline uint64_t decisions = 0;
inline uint32_t decide(uint32_t def, uint32_t rnd, bool (*valid)(uint32_t, uint32_t), uint32_t arg) {
  uint64_t id = ++decisions;
  uint32_t v = rnd;
  if (replay) {
    v = def;
    while (irep < nrep && rep[irep].id < id) ++irep;
    if (irep < nrep && rep[irep].id == id && valid(rep[irep].v, arg)) v = rep[irep].v;
  }
  if (v != def && nrec < kMaxDec) rec[nrec++] = {id, v};
  return v;
}
inline bool below(uint32_t v, uint32_t n) { return v < n; }
inline __thread int me = -1;
inline bool (*tasks_pending)() = nullptr;

inline bool can(int i) {
  switch (th[i].st) {
    case Run: return true;
    case Idle: return tasks_pending && tasks_pending();
    case Wait: return th[i].ready(th[i].arg);
    default: return false;
  }
}
// A thread that may run next, by weight; -1: none.
inline int pick(int except) {
  uint64_t tot = 0;
  uint32_t w[kMaxThreads];
  for (int i = 0; i < nth; ++i) {
    w[i] = i != except && can(i) ? th[i].weight : 0;
    tot += w[i];
  }
  if (!tot) return -1;
  uint64_t r = xs(srng) % tot;
  int n = 0;
  while (r >= w[n]) r -= w[n++];
  return n;
}
inline void give(int n) {
  sighash = (sighash ^ (uint64_t)(n + 1)) * 1099511628211ull;
  if (n == cur) return;
  ++switches;
  int self = cur;
  cur = n;
  sem_post(&th[n].sem);
  while (sem_wait(&th[self].sem)) {
  }
}
inline bool runnable(uint32_t v, uint32_t except) { return v < (uint32_t)nth && v != except && can(v); }
// Give the baton away; returns when this thread gets it back.
inline void resched(bool force_other) {
  uint32_t except = force_other ? cur : kMaxThreads;
  int n = pick(except);
  if (n < 0) {
    if (force_other && can(cur)) return;
    const char m[] = "SIM: deadlock\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(95);
  }
  uint32_t def = cur;  // the next one in turn
  if (!runnable(def, except))
    for (int k = 1; k <= nth; ++k)
      if (runnable(def = (cur + k) % nth, except)) break;
  give(decide(def, n, runnable, except));
}
inline bool go(uint32_t v, uint32_t) { return v == 0 || runnable(v - 1, kMaxThreads); }
inline void preempt(int why) {
  if (!active || in || me < 0 || me != cur) return;
  ++points;
  uint32_t v = decide(0, (uint32_t)(xs(srng) & 0xffff) < pre_ppm ? pick(kMaxThreads) + 1 : 0, go, 0);
  if (v) give(v - 1);
}
inline void must_yield() { resched(true); }
inline void block(bool (*ready)(void *), void *arg) {
  th[cur].st = Wait;
  th[cur].ready = ready;
  th[cur].arg = arg;
  if (!ready(arg) || decide(0, xs(srng) % 2, below, 2)) resched(false);
  th[me].st = Run;
}
}  // namespace sim

extern "C" {
#define SIMX __attribute__((visibility("default"), used))
SIMX void *malloc(size_t n) {
  sim::preempt(1);
  return sim::aget(n);
}
SIMX void free(void *p) {
  int e = errno;
  sim::aput(p);
  errno = e;
}
SIMX void *calloc(size_t a, size_t b) {
  size_t n = a * b;
  if (b && n / b != a) return nullptr;
  void *p = sim::aget(n);
  return memset(p, 0, n);
}
SIMX void *memalign(size_t al, size_t n) {
  if (al <= 16) return sim::aget(n);
  char *p = (char *)sim::aget(n + al + sizeof(sim::Hdr));
  uintptr_t q = ((uintptr_t)p + sizeof(sim::Hdr) + al - 1) & ~(uintptr_t)(al - 1);
  sim::Hdr *h = (sim::Hdr *)(q - sizeof(sim::Hdr));
  h->cls = (uint32_t)n;
  h->magic = 0x51a110c7;
  h->size = (uint64_t)p;
  return (void *)q;
}
SIMX void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
SIMX int posix_memalign(void **o, size_t al, size_t n) {
  *o = memalign(al, n);
  return 0;
}
SIMX size_t malloc_usable_size(void *p) {
  if (!p) return 0;
  sim::Hdr *h = (sim::Hdr *)((char *)p - sizeof(sim::Hdr));
  return h->magic == 0x51a110c7 ? h->cls : h->size;
}
SIMX void *realloc(void *p, size_t n) {
  if (!p) return sim::aget(n);
  if (!n) {
    sim::aput(p);
    return nullptr;
  }
  size_t o = malloc_usable_size(p);
  void *q = sim::aget(n);
  memcpy(q, p, o < n ? o : n);
  sim::aput(p);
  return q;
}

// ---------------------------------------------------------------- locks
#define SIM_LOCK(name, try_name, T)                                        \
  SIMX int name(T *m) {                                                    \
    static int (*real)(T *) = (int (*)(T *))dlsym(RTLD_NEXT, #name);       \
    static int (*attempt)(T *) = (int (*)(T *))dlsym(RTLD_NEXT, #try_name); \
    if (!sim::active || sim::in || sim::me < 0) return real(m);            \
    sim::preempt(2);                                                       \
    for (;;) {                                                             \
      int r = attempt(m);                                                  \
      if (r != EBUSY) return r;                                            \
      sim::must_yield();                                                   \
    }                                                                      \
  }
SIM_LOCK(pthread_mutex_lock, pthread_mutex_trylock, pthread_mutex_t)
SIM_LOCK(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock, pthread_rwlock_t)
SIM_LOCK(pthread_rwlock_wrlock, pthread_rwlock_trywrlock, pthread_rwlock_t)

SIMX int pthread_once(pthread_once_t *o, void (*f)()) {
  volatile int *s = (volatile int *)o;
  for (;;) {
    if (*s == 2) return 0;
    if (*s == 0) {
      *s = 1;
      f();
      *s = 2;
      return 0;
    }
    if (sim::active && sim::me >= 0) sim::must_yield();
  }
}
SIMX int __cxa_guard_acquire(uint64_t *g) {
  volatile uint8_t *b = (volatile uint8_t *)g;
  for (;;) {
    if (b[0]) return 0;
    if (!b[1]) {
      b[1] = 1;
      return 1;
    }
    if (sim::active && sim::me >= 0) sim::must_yield();
  }
}
SIMX void __cxa_guard_release(uint64_t *g) {
  volatile uint8_t *b = (volatile uint8_t *)g;
  b[1] = 0;
  b[0] = 1;
}
SIMX void __cxa_guard_abort(uint64_t *g) { ((volatile uint8_t *)g)[1] = 0; }

// ---------------------------------------------------------------- edges of the code under test
namespace {
uint32_t sim_nedges = 0, sim_hit = 0;
}
SIMX void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  if (a == b || *a) return;
  for (; a < b; ++a) *a = ++sim_nedges;
}
SIMX void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  static uint8_t seen[1 << 20];
  if (*g && *g < sizeof seen && !seen[*g]) seen[*g] = 1, ++sim_hit;
  sim::preempt(3);
}
}
