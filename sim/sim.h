// Deterministic simulation core: seeded plans, a token-passing scheduler over
// real threads, fault/probe counters, event-trace hashing, and the entry points
// every property module implements.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <new>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace sim {
using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

inline u64 mix64(u64 z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline u64 mix2(u64 a, u64 b) { return mix64(a * 0x9E3779B97F4A7C15ull + mix64(b)); }

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 0)
    : s(mix64(seed)) {}
  u64 next() { return mix64(s++); }
  u64 below(u64 n) { return n ? next() % n : 0; } // n is tiny here; the bias is irrelevant
  u64 range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); }
  bool chance(u32 permille) { return below(1000) < permille; }
  double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
};

// One operation of one simulated task. Every fault is an argument of the
// operation it hits, so dropping or zeroing it is how minimisation works.
struct Op {
  u32 code = 0;
  std::vector<u64> a;
  u64 arg(std::size_t i) const { return i < a.size() ? a[i] : 0; }
};

struct Plan {
  std::string prop;
  u64 world = 0; // seed of the shared objects of the run
  std::vector<std::vector<Op>> tasks;
  // scheduling: either drawn from schedSeed, or the explicit sparse list
  bool replay = false;
  u64 schedSeed = 0;
  u32 switchPermille = 0;
  std::vector<std::pair<u32, u32>> switches; // decision number -> task
};

// ---- seams: called by harness seams (sinks, iterators, callbacks, allocator) ----
enum Kind : u32 {
  K_START = 1,
  K_SINK,
  K_READ,
  K_INC,
  K_GET,
  K_OUT,
  K_CALL,
  K_ALLOC,
  K_FREE,
  K_OP,
  K_MEM,
  K_LOCK,
  K_RESULT,
  K_FAULT,
  K_TICK
};

void yield(Kind k, u64 info = 0);       // scheduling point
void yieldHot(Kind k, u64 info, u32 minPermille); // scheduling point with a minimal switch rate
void yieldFair(Kind k); // the running task spins: another task must run now (if there is one)
bool inOp();
// bytes written to standard output or standard error since the run began
u64 fileTraces();             // files opened for writing or removed by operations so far
u64 processTraces();          // changes of environment variables and of the rand() sequence so far
u64 strayOutput();            // inside an operation of a task
void note(Kind k, u64 info = 0);        // event for the trace hash, no scheduling
void fault(const char* name);           // an injected fault fired
void probe(const char* name);           // a rare condition was reached
int self();                             // index of the running task, -1 outside
bool inTask();
[[noreturn]] void violate(const char* cls, const char* fmt, ...)
  __attribute__((format(printf, 2, 3)));
[[noreturn]] void broken(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool verbose();
void say(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
u64 worldSeed();
u64 steps();

// ---- step counting ----
// Code compiled with -fsanitize-coverage=trace-pc counts a tick per basic block while a task is inside an
// operation. More ticks than the budget (since tickBudget was called) is a violation "no-progress"; every
// `slice` ticks (0: never) the task may be
// pre-empted, and once an eighth of the budget is used it has to let the others run.
void tickBudget(u64 limit, u64 slice, const char* what = nullptr);
u64 ticks();

// ---- allocator seam (global operator new/delete are replaced) ----
struct AllocStats {
  u64 attempts = 0; // armed allocations attempted
  u64 failed = 0;
};
// While armed on the calling task, allocation number failAt (1-based; 0 = never)
// throws bad_alloc, as do the following burst-1 allocations.
void armAlloc(u64 failAt, u64 burst, bool yields);
AllocStats disarmAlloc();
bool allocArmed();
u64 liveBlocks(); // blocks the calling task allocated while armed and that are not yet freed
void setHeapPoison(u64 seed);

// Runs library code with the allocator armed without faults, so that blocks are tracked.
struct Armed {
  explicit Armed(u64 failAt = 0, u64 burst = 1, bool yields = true) { armAlloc(failAt, burst, yields); }
  ~Armed() { disarmAlloc(); }
};

// Thrown by injected faults: of its own type, or of a type derived from a standard exception as well,
// so that a handler for either kind inside the library is noticed. Which one depends on the operation.
struct Fault {
  u64 id;
  explicit Fault(u64 i)
    : id(i) {}
  virtual ~Fault() = default;
};
struct FaultRuntime : std::runtime_error, Fault {
  explicit FaultRuntime(u64 i)
    : std::runtime_error("injected")
    , Fault(i) {}
};
struct FaultRange : std::out_of_range, Fault {
  explicit FaultRange(u64 i)
    : std::out_of_range("injected")
    , Fault(i) {}
};
struct FaultMemory : std::bad_alloc, Fault {
  explicit FaultMemory(u64 i)
    : Fault(i) {}
};
[[noreturn]] void throwFault(u64 id, bool memoryToo = true);
void sameFault(const Fault& f, const char* fn); // violation unless f is what throwFault last threw in this task

// ---- module interface ----
struct Module {
  const char* id;
  void (*generate)(Rng& rng, Plan& plan);
  void (*setup)(const Plan& plan);                 // in the child, before tasks start
  void (*runOp)(int task, const Op& op, std::size_t index); // in task threads
  void (*finish)(const Plan& plan);                // in the child, after all tasks ended
  const char* (*opName)(u32 code);
  u64 stepLimit;
};
void registerModule(const Module& m);
struct Reg {
  explicit Reg(const Module& m) { registerModule(m); }
};
// Run `fn` in a pristine forked process (state as it was before any task ran);
// fills up to cap bytes of result. Only valid in setup().
bool pristine(void (*fn)(void* ctx, u8* out, std::size_t cap), void* ctx, u8* out, std::size_t cap);

// fold bytes
inline u64 fold(u64 h, const void* p, std::size_t n) {
  const u8* b = static_cast<const u8*>(p);
  for (std::size_t i = 0; i < n; ++i) {
    h = (h ^ b[i]) * 0x100000001B3ull;
  }
  return h;
}
} // namespace sim
