// Runtime for code compiled with -fsanitize=thread: every access to memory outside
// the task's own stack becomes a scheduling point and is checked for data races by
// happens-before (vector clocks; mutexes, once flags, static guards and atomics
// order accesses, handing over the processor does not).
#include "sim.h"

#include <dlfcn.h>
#include <pthread.h>
#include <clocale>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>

extern "C" {
extern char __data_start, _end;
const char* sim_task_label(int task) __attribute__((weak));
}

namespace {
using namespace sim;
constexpr int kT = 8;
struct Cell {
  std::uintptr_t key; // address / 4, 0 = empty
  u32 wr[kT], rd[kT]; // clock of the last write / read of each task
  u8 wm[kT], rm[kT];  // bytes of the granule it touched
};
constexpr std::size_t kCells = 1u << 15;
Cell* cells = nullptr;
std::size_t used = 0;
struct Sync {
  std::uintptr_t key;
  u32 vc[kT];
};
constexpr std::size_t kSync = 4096;
Sync syncs[kSync];
u32 vc[kT][kT];
struct Range {
  std::uintptr_t lo, hi;
};
Range stacks[kT];
thread_local bool busy = false;
u32 spin = 0;
int lastAtomicTask = -1;

Cell* find(std::uintptr_t key, bool make) {
  std::size_t i = std::size_t(mix64(key)) & (kCells - 1);
  for (;;) {
    if (cells[i].key == key) {
      return &cells[i];
    }
    if (cells[i].key == 0) {
      if (!make) {
        return nullptr;
      }
      if (used > kCells / 2) {
        std::memset(cells, 0, kCells * sizeof(Cell)); // forget: may miss, never invents
        used = 0;
        i = std::size_t(mix64(key)) & (kCells - 1);
      }
      cells[i].key = key;
      ++used;
      return &cells[i];
    }
    i = (i + 1) & (kCells - 1);
  }
}
Sync& syncOf(const volatile void* p) {
  const auto key = reinterpret_cast<std::uintptr_t>(p);
  std::size_t i = std::size_t(mix64(key)) & (kSync - 1);
  while (syncs[i].key && syncs[i].key != key) {
    i = (i + 1) & (kSync - 1);
  }
  syncs[i].key = key;
  return syncs[i];
}
void acquire(const volatile void* p) {
  const int t = self();
  if (t < 0) {
    return;
  }
  auto& s = syncOf(p);
  for (int i = 0; i < kT; ++i) {
    if (s.vc[i] > vc[t][i]) {
      vc[t][i] = s.vc[i];
    }
  }
}
void release(const volatile void* p) {
  const int t = self();
  if (t < 0) {
    return;
  }
  auto& s = syncOf(p);
  for (int i = 0; i < kT; ++i) {
    if (vc[t][i] > s.vc[i]) {
      s.vc[i] = vc[t][i];
    }
  }
  ++vc[t][t];
}
// process-wide state of the C library, touched by functions that are not safe to call
// concurrently; a call counts as an access to the state it uses
alignas(64) char libcLocale[64], libcTok[64], libcTime[64], libcEnv[64];
const char* where(std::uintptr_t a) {
  const auto in = [a](char* p) { return a >= reinterpret_cast<std::uintptr_t>(p) && a < reinterpret_cast<std::uintptr_t>(p) + 64; };
  if (in(libcLocale)) {
    return "the process-wide C locale";
  }
  if (in(libcTok) || in(libcTime) || in(libcEnv)) {
    return "static state of the C library";
  }
  if (a >= reinterpret_cast<std::uintptr_t>(&__data_start) && a < reinterpret_cast<std::uintptr_t>(&_end)) {
    return "static storage";
  }
  return "the heap (a shared operand)";
}
const char* label(int t) { return sim_task_label ? sim_task_label(t) : "?"; }

void access(const volatile void* p, std::size_t n, bool write) {
  if (busy || !inOp()) {
    return;
  }
  const auto a = reinterpret_cast<std::uintptr_t>(p);
  const int t = self();
  for (int i = 0; i < kT; ++i) {
    if (a >= stacks[i].lo && a < stacks[i].hi) {
      return;
    }
  }
  busy = true;
  const bool global = a >= reinterpret_cast<std::uintptr_t>(&__data_start)
                      && a < reinterpret_cast<std::uintptr_t>(&_end);
  yieldHot(K_MEM, (u64(n) << 1) | u64(write), global ? 250 : 0);
  const std::uintptr_t first = a / 4, last = (a + n - 1) / 4;
  for (std::uintptr_t g = first; g <= last && n; ++g) {
    u8 mask = 0;
    for (std::uintptr_t b = 0; b < 4; ++b) {
      const auto byte = g * 4 + b;
      if (byte >= a && byte < a + n) {
        mask = u8(mask | (1u << b));
      }
    }
    Cell* c = find(g, true);
    for (int u = 0; u < kT; ++u) {
      if (u == t) {
        continue;
      }
      if (c->wr[u] > vc[t][u] && (c->wm[u] & mask)) {
        violate("data-race",
          "task %d (%s) %s %zu bytes of %s which task %d (%s) wrote without any ordering between them", t,
          label(t), write ? "writes" : "reads", n, where(a), u, label(u));
      }
      if (write && c->rd[u] > vc[t][u] && (c->rm[u] & mask)) {
        violate("data-race",
          "task %d (%s) writes %zu bytes of %s which task %d (%s) read without any ordering between them", t,
          label(t), n, where(a), u, label(u));
      }
    }
    const u32 now = vc[t][t];
    if (write) {
      c->wm[t] = c->wr[t] == now ? u8(c->wm[t] | mask) : mask;
      c->wr[t] = now;
    } else {
      c->rm[t] = c->rd[t] == now ? u8(c->rm[t] | mask) : mask;
      c->rd[t] = now;
    }
  }
  busy = false;
}
void forget(void* p, std::size_t n) {
  if (!cells || n == 0 || used == 0) {
    return;
  }
  const auto a = reinterpret_cast<std::uintptr_t>(p);
  for (std::uintptr_t g = a / 4; g <= (a + n - 1) / 4; ++g) {
    if (Cell* c = find(g, false)) {
      const auto key = c->key;
      std::memset(c, 0, sizeof *c);
      c->key = key; // keep the slot: linear probing has no deletion
    }
  }
}
void atomicPoint(const volatile void* p) {
  if (busy || !inOp()) {
    return;
  }
  (void)p;
  busy = true;
  if (lastAtomicTask == self()) {
    if (++spin > 150) { // a spinning task must let the others run
      spin = 0;
      probe("spin-yield");
      yieldFair(K_LOCK);
    } else {
      yieldHot(K_LOCK, 7, 250);
    }
  } else {
    lastAtomicTask = self();
    spin = 0;
    yieldHot(K_LOCK, 7, 250);
  }
  busy = false;
}
bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
} // namespace

extern "C" {
// memory that changes hands through the C allocator (exceptions, the standard library)
void* __libc_malloc(std::size_t);
void* __libc_calloc(std::size_t, std::size_t);
void* __libc_realloc(void*, std::size_t);
void* malloc(std::size_t n) {
  void* p = __libc_malloc(n);
  if (p) {
    forget(p, n);
  }
  return p;
}
void* calloc(std::size_t n, std::size_t m) {
  void* p = __libc_calloc(n, m);
  if (p) {
    forget(p, n * m);
  }
  return p;
}
void* realloc(void* q, std::size_t n) {
  void* p = __libc_realloc(q, n);
  if (p) {
    forget(p, n);
  }
  return p;
}
#define REAL(NAME) static const auto real = reinterpret_cast<decltype(&NAME)>(dlsym(RTLD_NEXT, #NAME))
char* setlocale(int c, const char* l) noexcept {
  REAL(setlocale);
  access(libcLocale, 1, l != nullptr);
  return real(c, l);
}
double strtod(const char* s, char** e) noexcept {
  REAL(strtod);
  access(libcLocale, 1, false);
  return real(s, e);
}
float strtof(const char* s, char** e) noexcept {
  REAL(strtof);
  access(libcLocale, 1, false);
  return real(s, e);
}
long double strtold(const char* s, char** e) noexcept {
  REAL(strtold);
  access(libcLocale, 1, false);
  return real(s, e);
}
double atof(const char* s) noexcept { return strtod(s, nullptr); }
struct lconv* localeconv() noexcept {
  REAL(localeconv);
  access(libcLocale, 1, false);
  return real();
}
char* strtok(char* s, const char* d) noexcept {
  REAL(strtok);
  access(libcTok, 1, true);
  return real(s, d);
}
struct tm* localtime(const time_t* t) noexcept {
  REAL(localtime);
  access(libcTime, 1, true);
  return real(t);
}
struct tm* gmtime(const time_t* t) noexcept {
  REAL(gmtime);
  access(libcTime, 1, true);
  return real(t);
}
void sim_on_env() { access(libcEnv, 1, true); }
void sim_on_alloc(void* p, std::size_t n) { forget(p, n); }
void sim_on_free(void* p, std::size_t n) { forget(p, n); }
void sim_on_tasks_begin() {
  if (!cells) {
    static Cell storage[kCells];
    cells = storage;
  }
  for (int i = 0; i < kT; ++i) {
    for (int j = 0; j < kT; ++j) {
      vc[i][j] = i == j ? 1 : 0;
    }
  }
}
void sim_on_task_start(int task) {
  pthread_attr_t at;
  void* lo = nullptr;
  std::size_t n = 0;
  if (pthread_getattr_np(pthread_self(), &at) == 0) {
    pthread_attr_getstack(&at, &lo, &n);
    pthread_attr_destroy(&at);
  }
  stacks[task] = {reinterpret_cast<std::uintptr_t>(lo), reinterpret_cast<std::uintptr_t>(lo) + n + 8192};
}
void sim_on_lock(void* l, int acquired) { acquired ? acquire(l) : release(l); }

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N)                                                                                      \
  void __tsan_read##N(void* p) { access(p, N, false); }                                            \
  void __tsan_write##N(void* p) { access(p, N, true); }                                            \
  void __tsan_read_write##N(void* p) { access(p, N, false); access(p, N, true); }                  \
  void __tsan_unaligned_read##N(void* p) { access(p, N, false); }                                  \
  void __tsan_unaligned_write##N(void* p) { access(p, N, true); }                                  \
  void __tsan_unaligned_read_write##N(void* p) { access(p, N, false); access(p, N, true); }        \
  void __tsan_volatile_read##N(void* p) { access(p, N, false); }                                   \
  void __tsan_volatile_write##N(void* p) { access(p, N, true); }                                   \
  void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, false); }                         \
  void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, true); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* p, std::size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, std::size_t n) { access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, std::size_t n) {
  if (n) {
    access(s, n, false);
    access(d, n, true);
  }
  return std::memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, std::size_t n) {
  if (n) {
    access(s, n, false);
    access(d, n, true);
  }
  return std::memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, std::size_t n) {
  if (n) {
    access(d, n, true);
  }
  return std::memset(d, c, n);
}
#define AT(BITS, TY)                                                                               \
  TY __tsan_atomic##BITS##_load(const volatile TY* p, int mo) {                                    \
    atomicPoint(p);                                                                                \
    const TY v = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                             \
    if (acq(mo)) acquire(p);                                                                       \
    return v;                                                                                      \
  }                                                                                                \
  void __tsan_atomic##BITS##_store(volatile TY* p, TY v, int mo) {                                 \
    atomicPoint(p);                                                                                \
    if (rel(mo)) release(p);                                                                       \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                      \
  }                                                                                                \
  TY __tsan_atomic##BITS##_exchange(volatile TY* p, TY v, int mo) {                                \
    atomicPoint(p);                                                                                \
    if (rel(mo)) release(p);                                                                       \
    if (acq(mo)) acquire(p);                                                                       \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                            \
  }                                                                                                \
  int __tsan_atomic##BITS##_compare_exchange_strong(                                               \
    volatile TY* p, TY* c, TY v, int mo, int fmo) {                                                \
    atomicPoint(p);                                                                                \
    const bool ok = __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (acq(ok ? mo : fmo)) acquire(p);                                                            \
    if (ok && rel(mo)) release(p);                                                                 \
    return ok;                                                                                     \
  }                                                                                                \
  int __tsan_atomic##BITS##_compare_exchange_weak(                                                 \
    volatile TY* p, TY* c, TY v, int mo, int fmo) {                                                \
    return __tsan_atomic##BITS##_compare_exchange_strong(p, c, v, mo, fmo);                        \
  }                                                                                                \
  TY __tsan_atomic##BITS##_compare_exchange_val(volatile TY* p, TY c, TY v, int mo, int fmo) {     \
    __tsan_atomic##BITS##_compare_exchange_strong(p, &c, v, mo, fmo);                              \
    return c;                                                                                      \
  }
#define ATRMW(BITS, TY, OP)                                                                        \
  TY __tsan_atomic##BITS##_fetch_##OP(volatile TY* p, TY v, int mo) {                              \
    atomicPoint(p);                                                                                \
    if (rel(mo)) release(p);                                                                       \
    if (acq(mo)) acquire(p);                                                                       \
    return __atomic_fetch_##OP(p, v, __ATOMIC_SEQ_CST);                                            \
  }
#define ATALL(BITS, TY)                                                                            \
  AT(BITS, TY)                                                                                     \
  ATRMW(BITS, TY, add)                                                                             \
  ATRMW(BITS, TY, sub)                                                                             \
  ATRMW(BITS, TY, and)                                                                             \
  ATRMW(BITS, TY, or)                                                                              \
  ATRMW(BITS, TY, xor)                                                                             \
  ATRMW(BITS, TY, nand)
ATALL(8, sim::u8)
ATALL(16, std::uint16_t)
ATALL(32, sim::u32)
ATALL(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) {
  // one ordering point for all fences: may miss a race, never invents one
  static char fence;
  if (!inOp()) return;
  if (rel(mo)) release(&fence);
  if (acq(mo)) acquire(&fence);
}
void __tsan_atomic_signal_fence(int) {}
}
