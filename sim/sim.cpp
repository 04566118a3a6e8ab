// Simulator runtime and driver: scheduler, allocator seam, forked execution of
// plans, search loop, determinism gate, minimiser, replay files.
#include "sim.h"
#include <typeinfo>

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <new>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <semaphore.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" {
void sim_on_alloc(void* p, std::size_t n) __attribute__((weak));
void sim_on_free(void* p, std::size_t n) __attribute__((weak));
void sim_on_switch(int from, int to) __attribute__((weak));
void sim_on_task_start(int task) __attribute__((weak));
void sim_on_tasks_begin() __attribute__((weak));
void sim_on_lock(void* l, int acquire) __attribute__((weak));
void sim_on_env() __attribute__((weak));
}

namespace sim {
using i64 = std::int64_t;
namespace {
constexpr std::size_t kMaxSwitch = 16384;
constexpr std::size_t kMaxCounter = 96;
constexpr int kMaxTasks = 8;

struct Counter {
  char name[48];
  u64 n;
  u32 isFault;
};

struct Result {
  int status; // 0 running, 1 ok, 2 violation, 3 harness broken
  char cls[64];
  char msg[1536];
  u64 hash;
  u64 ileave;
  u64 steps;
  u64 inOpSwitches;
  u64 faults;
  u32 nsw;
  u32 swOverflow;
  u32 sw[kMaxSwitch][2];
  u32 ncnt;
  Counter cnt[kMaxCounter];
};

Result* R = nullptr; // shared with the parent
u8* pristineBuf = nullptr;
constexpr std::size_t kPristineCap = 1u << 20;

std::vector<Module>& modules() {
  static std::vector<Module> m;
  return m;
}
const Module* findModule(const std::string& id) {
  for (auto& m : modules()) {
    if (id == m.id) {
      return &m;
    }
  }
  return nullptr;
}

// ---- scheduler state (child only) ----
struct Sched {
  int n = 0;
  int cur = -1;
  bool done[kMaxTasks] = {};
  sem_t go[kMaxTasks];
  sem_t allDone;
  u64 decisions = 0;
  Rng rng{0};
  bool replay = false;
  u32 permille = 0;
  std::map<u32, u32> sw;
  u64 stepLimit = 0;
  bool active = false;
};
Sched S;
const Plan* P = nullptr;
const Module* M = nullptr;
bool gVerbose = false;
int gLogFd = 2;
thread_local int tlTask = -1;
thread_local int tlInOp = 0;

void traceEvent(Kind k, u64 info) {
  R->hash = mix2(R->hash, (u64(k) << 8) ^ u64(u32(tlTask + 1)) ^ mix64(info));
}

const char* kindName(Kind k) {
  switch (k) {
    case K_START: return "start";
    case K_SINK: return "sink-write";
    case K_READ: return "source-read";
    case K_INC: return "source-advance";
    case K_GET: return "getter";
    case K_OUT: return "output";
    case K_CALL: return "callback";
    case K_ALLOC: return "alloc";
    case K_FREE: return "free";
    case K_OP: return "op";
    case K_MEM: return "memory";
    case K_LOCK: return "lock";
    case K_RESULT: return "result";
    case K_FAULT: return "fault";
    case K_TICK: return "tick";
  }
  return "?";
}

void logEvent(const char* what, Kind k, u64 info) {
  if (gVerbose) {
    dprintf(gLogFd, "  [%llu] task %d %s %s %llx\n", (unsigned long long)S.decisions, tlTask, what,
      kindName(k), (unsigned long long)info);
  }
}

void recordSwitch(u32 d, int to) {
  if (R->nsw < kMaxSwitch) {
    R->sw[R->nsw][0] = d;
    R->sw[R->nsw][1] = u32(to);
    ++R->nsw;
  } else {
    R->swOverflow = 1;
  }
}

void handTo(int next) {
  const int me = S.cur;
  S.cur = next;
  if (tlInOp) {
    ++R->inOpSwitches;
  }
  R->ileave = mix2(R->ileave, u64(u32(next)) + 17);
  if (sim_on_switch) {
    sim_on_switch(me, next);
  }
  sem_post(&S.go[next]);
  while (sem_wait(&S.go[me]) != 0) {}
}

int lowestRunnable(int except) {
  for (int i = 0; i < S.n; ++i) {
    if (!S.done[i] && i != except) {
      return i;
    }
  }
  return -1;
}

int randomRunnable(int except) {
  int c[kMaxTasks], n = 0;
  for (int i = 0; i < S.n; ++i) {
    if (!S.done[i] && i != except) {
      c[n++] = i;
    }
  }
  return n ? c[S.rng.below(u64(n))] : -1;
}

u32 nextDecision() {
  const u64 d = S.decisions++;
  R->steps = S.decisions;
  if (S.decisions > S.stepLimit) {
    violate("no-progress", "more than %llu scheduling points without completing",
      (unsigned long long)S.stepLimit);
  }
  return u32(d);
}
} // namespace

bool verbose() { return gVerbose; }
int self() { return tlTask; }
bool inTask() { return tlTask >= 0 && S.active; }
u64 worldSeed() { return P ? P->world : 0; }
u64 steps() { return S.decisions; }

void say(const char* fmt, ...) {
  if (!gVerbose) {
    return;
  }
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  dprintf(gLogFd, "  [%llu] task %d: %s\n", (unsigned long long)S.decisions, tlTask, buf);
}

void violate(const char* cls, const char* fmt, ...) {
  if (R->status == 0) {
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    va_end(ap);
    R->status = 2;
  }
  _exit(0);
}

void broken(const char* fmt, ...) {
  snprintf(R->cls, sizeof R->cls, "harness-broken");
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(R->msg, sizeof R->msg, fmt, ap);
  va_end(ap);
  R->status = 3;
  _exit(0);
}

static void bump(const char* name, bool isFault) {
  for (u32 i = 0; i < R->ncnt; ++i) {
    if (strcmp(R->cnt[i].name, name) == 0) {
      ++R->cnt[i].n;
      return;
    }
  }
  if (R->ncnt < kMaxCounter) {
    auto& c = R->cnt[R->ncnt++];
    snprintf(c.name, sizeof c.name, "%s", name);
    c.n = 1;
    c.isFault = isFault;
  }
}
void fault(const char* name) {
  bump(name, true);
  ++R->faults;
  traceEvent(K_FAULT, fold(0, name, strlen(name)));
  if (gVerbose) {
    say("FAULT %s", name);
  }
}
void probe(const char* name) { bump(name, false); }

void note(Kind k, u64 info) {
  traceEvent(k, info);
  logEvent("event", k, info);
}

bool inOp() { return tlInOp != 0 && S.active; }

void yield(Kind k, u64 info) { yieldHot(k, info, 0); }

void yieldHot(Kind k, u64 info, u32 minPermille) {
  if (!inTask()) {
    return;
  }
  traceEvent(k, info);
  logEvent("at", k, info);
  const u32 d = nextDecision();
  int next = S.cur;
  if (S.n > 1) {
    if (S.replay) {
      auto it = S.sw.find(d);
      if (it != S.sw.end() && int(it->second) < S.n && !S.done[it->second]) {
        next = int(it->second);
      }
    } else if (
      const u32 rate = S.permille ? std::max(S.permille, minPermille) : 0;
      rate && S.rng.chance(rate)) {
      const int r = randomRunnable(S.cur);
      if (r >= 0) {
        next = r;
      }
    }
  }
  if (next != S.cur) {
    recordSwitch(d, next);
    handTo(next);
  }
}

// The running task cannot proceed (lock held by another task).
static void yieldBlocked() {
  const u32 d = nextDecision();
  int next = -1;
  if (S.replay) {
    auto it = S.sw.find(d);
    if (it != S.sw.end() && int(it->second) < S.n && !S.done[it->second]) {
      next = int(it->second);
    }
  } else {
    next = randomRunnable(S.cur);
    if (next >= 0) {
      recordSwitch(d, next);
    }
  }
  if (next < 0 || next == S.cur) {
    for (int i = 1; i <= S.n; ++i) {
      const int c = (S.cur + i) % S.n;
      if (!S.done[c] && c != S.cur) {
        next = c;
        break;
      }
    }
    if (S.replay && next >= 0) {
      recordSwitch(d, next);
    }
  }
  if (next < 0 || next == S.cur) {
    violate("deadlock", "task %d waits for a lock nobody can release", tlTask);
  }
  handTo(next);
}

void yieldFair(Kind k) {
  if (!inTask()) {
    return;
  }
  traceEvent(k, 0xfa);
  if (lowestRunnable(S.cur) < 0) {
    nextDecision();
    return;
  }
  yieldBlocked();
}

// ---- step counting ----
namespace {
constexpr u64 kDefaultTicks = 120000000; // of an operation that did not set a budget
struct TlTick {
  u64 used = 0;
  u64 stop = ~0ull;
  u64 limit = kDefaultTicks;
  u64 slice = 0;
  const char* what = nullptr;
};
thread_local TlTick tlT;
void slowTick() {
  if (tlT.used >= tlT.limit) {
    const char* what = tlT.what;
    const u64 lim = tlT.limit;
    tlT.limit = tlT.stop = ~0ull;
    violate("no-progress", "%s has not finished after %llu steps", what ? what : "an operation",
      (unsigned long long)lim);
  }
  const u64 step = tlT.slice ? tlT.slice : 20000;
  tlT.stop = std::min(tlT.limit, tlT.used + step);
  if (tlT.used > tlT.limit / 8) {
    yieldFair(K_TICK); // it may wait for something another task has to do
  } else if (tlT.slice) {
    yield(K_TICK, tlT.used);
  }
}
} // namespace
void tickBudget(u64 limit, u64 slice, const char* what) {
  tlT.used = 0;
  tlT.limit = limit ? limit : kDefaultTicks;
  tlT.slice = slice;
  tlT.what = what;
  tlT.stop = std::min(tlT.limit, slice ? slice : tlT.limit / 8);
}
u64 ticks() { return tlT.used; }

// ---- allocator seam ----
namespace {
struct Header {
  u64 magic;
  u64 size;
  u64 tracked;
  u64 pad;
};
static_assert(sizeof(Header) == 32);
constexpr u64 kMagic = 0x51u * 0x0101010101010101ull ^ 0x1234567887654321ull;
struct TlAlloc {
  bool armed;
  bool yields;
  u64 failAt, burst;
  AllocStats st;
};
thread_local TlAlloc tlA;
std::atomic<u64> gLive[16]; // per allocating task
u64 gPoison = 0xA5;

void* doAlloc(std::size_t n, bool nothrow) {
  const bool armed = tlA.armed;
  if (armed) {
    if (tlA.yields) {
      yield(K_ALLOC, n);
    }
    const u64 k = ++tlA.st.attempts;
    if (tlA.failAt && k >= tlA.failAt && k < tlA.failAt + tlA.burst) {
      ++tlA.st.failed;
      fault("alloc-failure");
      if (nothrow) {
        return nullptr;
      }
      throw std::bad_alloc();
    }
  }
  if (n > (std::size_t(1) << 32)) {
    if (nothrow) {
      return nullptr;
    }
    throw std::bad_alloc();
  }
  Header* h = static_cast<Header*>(std::malloc(sizeof(Header) + n));
  if (!h) {
    if (nothrow) {
      return nullptr;
    }
    throw std::bad_alloc();
  }
  h->magic = kMagic;
  h->size = n;
  h->tracked = armed ? u64(tlTask + 2) : 0;
  void* p = h + 1;
  if (armed) {
    gLive[h->tracked].fetch_add(1, std::memory_order_relaxed);
    u8* b = static_cast<u8*>(p);
    for (std::size_t i = 0; i < n; ++i) {
      b[i] = u8(gPoison >> ((i & 7) * 8));
    }
  }
  if (sim_on_alloc) {
    sim_on_alloc(p, n);
  }
  return p;
}

void doFree(void* p) {
  if (!p) {
    return;
  }
  Header* h = static_cast<Header*>(p) - 1;
  if (h->magic != kMagic) {
    if (R && S.active) {
      violate("bad-free", "operator delete called on memory not obtained from operator new");
    }
    return;
  }
  h->magic = 0xDEADull;
  if (h->tracked) {
    gLive[h->tracked].fetch_sub(1, std::memory_order_relaxed);
    std::memset(p, 0xDD, h->size);
  }
  if (sim_on_free) {
    sim_on_free(p, h->size);
  }
  std::free(h);
}
} // namespace

void armAlloc(u64 failAt, u64 burst, bool yields) {
  tlA.st = {};
  tlA.failAt = failAt;
  tlA.burst = burst ? burst : 1;
  tlA.yields = yields;
  tlA.armed = true;
}
AllocStats disarmAlloc() {
  tlA.armed = false;
  return tlA.st;
}
bool allocArmed() { return tlA.armed; }
u64 liveBlocks() { return gLive[tlTask + 2].load(std::memory_order_relaxed); }
void setHeapPoison(u64 seed) { gPoison = seed; }

// ---- clocks, randomness and the environment of the simulated process ----
// A simulated process has a clock, random numbers, a process id and environment variables of
// its own, all drawn from the run's seed; a reference process has different ones.
namespace {
struct World {
  bool on = false;
  u64 salt = 0;
  i64 mono = 0, real = 0, cpu = 0;
  Rng time{0}, rnd{0};
  int pid = 0;
  u64 processes = 0;
  int outFd = -1;
  bool reference = false;
};
World W;
void enterWorld(u64 world, u64 salt) {
  W.on = true;
  W.salt = mix2(world, 0xC10C + salt);
  W.time = Rng(mix2(W.salt, 1));
  W.rnd = Rng(mix2(W.salt, 2));
  W.mono = i64(mix2(W.salt, 3) % 1000000000000000ull);
  W.real = 1500000000000000000ll + i64(mix2(W.salt, 4) % 300000000000000000ull);
  W.cpu = i64(mix2(W.salt, 5) % 1000000000ull);
  W.pid = 2000 + int(mix2(W.salt, 6) % 20000);
}
void advanceClock() {
  i64 by = i64(W.time.below(3000));
  const auto kind = W.time.below(8);
  if (kind == 0) {
    by = i64(W.time.below(5000000000ull)); // stalled for up to five seconds
    fault("clock-stall");
  } else if (kind == 1) { // the wall clock is set
    W.real += i64(W.time.below(200000000000000ull)) - 100000000000000ll;
    fault("clock-jump");
  }
  W.mono += by;
  W.real += by;
  W.cpu += by / 2;
}
u64 randomWord() {
  fault("random-number");
  return W.rnd.next();
}
} // namespace
u64 strayOutput() {
  if (W.outFd < 0) {
    return 0;
  }
  fflush(stdout);
  fflush(stderr);
  struct stat st;
  return fstat(W.outFd, &st) == 0 ? u64(st.st_size) : 0;
}

void registerModule(const Module& m) { modules().push_back(m); }

bool pristine(void (*fn)(void*, u8*, std::size_t), void* ctx, u8* out, std::size_t cap) {
  if (cap > kPristineCap) {
    cap = kPristineCap;
  }
  std::memset(pristineBuf, 0, cap);
  const pid_t pid = fork();
  if (pid < 0) {
    broken("fork failed");
  }
  ++W.processes;
  if (pid == 0) {
    enterWorld(P ? P->world : 0, W.processes);
    W.reference = true;
    fn(ctx, pristineBuf, cap);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  std::memcpy(out, pristineBuf, cap);
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

// ---- running one plan in this process (the forked child) ----
static void finishTask() {
  // called by a task at its end, holding the token
  const int me = S.cur;
  S.done[me] = true;
  const u32 d = nextDecision();
  int next = -1;
  if (S.replay) {
    auto it = S.sw.find(d);
    if (it != S.sw.end() && int(it->second) < S.n && !S.done[it->second]) {
      next = int(it->second);
    } else {
      next = lowestRunnable(-1);
    }
  } else {
    next = randomRunnable(-1);
  }
  if (next < 0) {
    sem_post(&S.allDone);
    return;
  }
  if (next != lowestRunnable(-1)) {
    recordSwitch(d, next);
  }
  S.cur = next;
  R->ileave = mix2(R->ileave, u64(u32(next)) + 91);
  if (sim_on_switch) {
    sim_on_switch(me, next);
  }
  sem_post(&S.go[next]);
}

static thread_local u64 tlOpSeed = 0;
static thread_local const std::type_info* tlFaultType = nullptr;
static thread_local u64 tlFaultId = 0;
template <typename F> [[noreturn]] static void throwAs(u64 id) {
  tlFaultType = &typeid(F);
  tlFaultId = id;
  throw F(id);
}
void throwFault(u64 id, bool memoryToo) {
  switch (mix2(tlOpSeed, 0xFA17) % (memoryToo ? 4 : 3)) {
    case 0: throwAs<Fault>(id);
    case 1: throwAs<FaultRuntime>(id);
    case 2: throwAs<FaultRange>(id);
    default: throwAs<FaultMemory>(id);
  }
}
void sameFault(const Fault& f, const char* fn) {
  if (!tlFaultType || typeid(f) != *tlFaultType || f.id != tlFaultId) {
    violate("failure-changed", "%s passed on a failure that is not the one its caller's object raised", fn);
  }
}

static void* taskMain(void* arg) {
  const int id = int(reinterpret_cast<std::intptr_t>(arg));
  tlTask = id;
  while (sem_wait(&S.go[id]) != 0) {}
  if (sim_on_task_start) {
    sim_on_task_start(id);
  }
  std::size_t i = 0;
  for (const auto& op : P->tasks[std::size_t(id)]) {
    yield(K_OP, op.code);
    if (gVerbose) {
      std::string s;
      for (auto v : op.a) {
        char b[32];
        snprintf(b, sizeof b, " %llu", (unsigned long long)v);
        s += b;
      }
      say("OP %s%s", M->opName ? M->opName(op.code) : "", s.c_str());
    }
    tlInOp = 1;
    // in half of the runs tasks may also be pre-empted between basic blocks of instrumented code
    static const u64 slices[] = {0, 0, 0, 40, 400, 4000};
    tickBudget(0, S.n > 1 ? slices[mix2(P->world, 0x51) % 6] : 0);
    tlOpSeed = op.arg(1);
    M->runOp(id, op, i++);
    tlInOp = 0;
  }
  finishTask();
  return nullptr;
}

static void runPlanHere(const Plan& plan) {
  P = &plan;
  M = findModule(plan.prop);
  if (!M) {
    broken("no module %s", plan.prop.c_str());
  }
  S.n = int(plan.tasks.size());
  if (S.n > kMaxTasks) {
    broken("too many tasks");
  }
  S.rng = Rng(plan.schedSeed);
  S.permille = plan.switchPermille;
  S.replay = plan.replay;
  S.stepLimit = M->stepLimit;
  for (auto& s : plan.switches) {
    S.sw[s.first] = s.second;
  }
  gPoison = mix64(plan.world ^ 0x5151);
  if (M->setup) {
    M->setup(plan);
  }
  if (S.n > 0) {
    sem_init(&S.allDone, 0, 0);
    pthread_t th[kMaxTasks];
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 512 * 1024);
    for (int i = 0; i < S.n; ++i) {
      sem_init(&S.go[i], 0, 0);
      if (pthread_create(&th[i], &at, taskMain, reinterpret_cast<void*>(std::intptr_t(i)))) {
        broken("pthread_create failed");
      }
    }
    if (sim_on_tasks_begin) {
      sim_on_tasks_begin();
    }
    S.active = true;
    int first = 0;
    if (!S.replay) {
      first = int(S.rng.below(u64(S.n)));
      if (first != 0) {
        recordSwitch(0xFFFFFFFFu, first);
      }
    } else {
      auto it = S.sw.find(0xFFFFFFFFu);
      if (it != S.sw.end() && int(it->second) < S.n) {
        first = int(it->second);
      }
    }
    S.cur = first;
    sem_post(&S.go[first]);
    while (sem_wait(&S.allDone) != 0) {}
    S.active = false;
    for (int i = 0; i < S.n; ++i) {
      pthread_join(th[i], nullptr);
    }
  }
  if (M->finish) {
    M->finish(plan);
  }
  R->status = 1;
}

// ---- parent side ----
static void execPlan(const Plan& plan) {
  std::memset(static_cast<void*>(R), 0, offsetof(Result, sw));
  R->ncnt = 0;
  const pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(4);
  }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    struct itimerval tv = {{0, 0}, {20, 0}};
    setitimer(ITIMER_PROF, &tv, nullptr);
    alarm(180);
    fflush(stdout);
    gLogFd = dup(2);
    W.outFd = memfd_create("output", 0);
    if (gLogFd < 0 || W.outFd < 0 || dup2(W.outFd, 1) < 0 || dup2(W.outFd, 2) < 0) {
      broken("cannot set up the standard streams");
    }
    enterWorld(plan.world, 0);
    runPlanHere(plan);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (R->status == 0) {
    R->status = 2;
    if (WIFSIGNALED(st)) {
      const int sig = WTERMSIG(st);
      if (sig == SIGPROF || sig == SIGALRM) {
        snprintf(R->cls, sizeof R->cls, "hang");
        snprintf(R->msg, sizeof R->msg, "an operation did not terminate (%s)", strsignal(sig));
      } else if (sig == SIGKILL) {
        // out of memory or an outside kill: not something we can attribute
        R->status = 3;
        snprintf(R->cls, sizeof R->cls, "killed");
        snprintf(R->msg, sizeof R->msg, "simulated process was killed");
      } else {
        snprintf(R->cls, sizeof R->cls, "crash-signal-%d", sig);
        snprintf(R->msg, sizeof R->msg, "an operation crashed the process (%s)", strsignal(sig));
      }
    } else {
      snprintf(R->cls, sizeof R->cls, "exit");
      snprintf(R->msg, sizeof R->msg, "an operation ended the process (exit status %d)",
        WEXITSTATUS(st));
    }
  }
}

static Plan explicitPlan(const Plan& p) {
  Plan q = p;
  q.replay = true;
  q.switches.clear();
  for (u32 i = 0; i < R->nsw; ++i) {
    q.switches.emplace_back(R->sw[i][0], R->sw[i][1]);
  }
  return q;
}

static void writePlan(const std::string& path, const Plan& p, u64 runSeed) {
  std::ofstream f(path);
  f << "vecmath-sim-replay 1\n";
  f << "prop " << p.prop << "\n";
  f << "runseed " << runSeed << "\n";
  f << "world " << p.world << "\n";
  f << "class " << R->cls << "\n";
  f << "hash " << R->hash << "\n";
  f << "message " << std::string(R->msg).substr(0, 1400) << "\n";
  const Module* m = findModule(p.prop);
  for (auto& t : p.tasks) {
    f << "task\n";
    for (auto& o : t) {
      f << "op " << o.code << " " << o.a.size();
      for (auto v : o.a) {
        f << " " << v;
      }
      if (m && m->opName) {
        f << " # " << m->opName(o.code);
      }
      f << "\n";
    }
  }
  for (auto& s : p.switches) {
    f << "switch " << s.first << " " << s.second << "\n";
  }
  f << "end\n";
}

static bool readPlan(const std::string& path, Plan& p, std::string& cls, u64& hash) {
  std::ifstream f(path);
  std::string line;
  bool end = false;
  if (!std::getline(f, line) || line != "vecmath-sim-replay 1") {
    return false;
  }
  p = Plan{};
  p.replay = true;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "prop") {
      is >> p.prop;
    } else if (k == "world") {
      is >> p.world;
    } else if (k == "class") {
      is >> cls;
    } else if (k == "hash") {
      is >> hash;
    } else if (k == "task") {
      p.tasks.emplace_back();
    } else if (k == "op") {
      Op o;
      std::size_t n = 0;
      is >> o.code >> n;
      for (std::size_t i = 0; i < n; ++i) {
        u64 v = 0;
        is >> v;
        o.a.push_back(v);
      }
      if (p.tasks.empty()) {
        return false;
      }
      p.tasks.back().push_back(o);
    } else if (k == "switch") {
      u32 a = 0, b = 0;
      is >> a >> b;
      p.switches.emplace_back(a, b);
    } else if (k == "end") {
      end = true;
    }
  }
  return end;
}

struct Minimiser {
  std::string cls;
  int budget = 6000;
  std::chrono::steady_clock::time_point until;
  bool fails(const Plan& p) {
    if (budget-- <= 0 || std::chrono::steady_clock::now() > until) {
      return false;
    }
    execPlan(p);
    return R->status == 2 && cls == R->cls;
  }
  bool spent() { return budget <= 0 || std::chrono::steady_clock::now() > until; }
  template <typename T, typename Get> bool dropChunks(Plan& p, Get get) {
    bool any = false;
    std::size_t chunk = get(p).size();
    while (chunk > 0 && !spent()) {
      for (std::size_t i = 0; i < get(p).size() && !spent();) {
        Plan q = p;
        auto& v = get(q);
        const std::size_t e = std::min(i + chunk, v.size());
        v.erase(v.begin() + std::ptrdiff_t(i), v.begin() + std::ptrdiff_t(e));
        if (fails(q)) {
          p = q;
          any = true;
        } else {
          i += chunk;
        }
      }
      chunk /= 2;
    }
    return any;
  }
  Plan run(Plan p) {
    bool again = true;
    for (int round = 0; again && round < 6 && !spent(); ++round) {
      again = false;
      for (std::size_t t = p.tasks.size(); t-- > 0 && p.tasks.size() > 1;) {
        Plan q = p;
        q.tasks.erase(q.tasks.begin() + std::ptrdiff_t(t));
        for (auto& s : q.switches) {
          if (s.second > t) {
            --s.second;
          }
        }
        if (fails(q)) {
          p = q;
          again = true;
        }
      }
      for (std::size_t t = 0; t < p.tasks.size(); ++t) {
        again |= dropChunks<Op>(p, [t](Plan& x) -> std::vector<Op>& { return x.tasks[t]; });
      }
      again |= dropChunks<std::pair<u32, u32>>(
        p, [](Plan& x) -> std::vector<std::pair<u32, u32>>& { return x.switches; });
      for (std::size_t t = 0; t < p.tasks.size(); ++t) {
        for (std::size_t o = 0; o < p.tasks[t].size(); ++o) {
          for (std::size_t i = 0; i < p.tasks[t][o].a.size(); ++i) {
            const u64 v = p.tasks[t][o].a[i];
            if (v == 0) {
              continue;
            }
            for (u64 c : {u64(0), u64(1), v / 2, v - 1}) {
              if (c >= v) {
                continue;
              }
              Plan q = p;
              q.tasks[t][o].a[i] = c;
              if (fails(q)) {
                p = q;
                again = true;
                break;
              }
            }
          }
        }
      }
      if (p.world != 0) {
        for (u64 w = 0; w < 3; ++w) {
          Plan q = p;
          q.world = w;
          if (fails(q)) {
            p = q;
            break;
          }
        }
      }
    }
    return p;
  }
};
} // namespace sim

using namespace sim;

extern "C" void __sanitizer_cov_trace_pc() {
  if (tlInOp && ++tlT.used >= tlT.stop) {
    slowTick();
  }
}

// ---- interposed clocks, randomness and environment ----
static timespec toSpec(i64 ns) {
  timespec t;
  t.tv_sec = time_t(ns / 1000000000);
  t.tv_nsec = long(ns % 1000000000);
  return t;
}
extern "C" {
int clock_gettime(clockid_t id, struct timespec* t) noexcept {
  if (!W.on) {
    return int(syscall(SYS_clock_gettime, id, t));
  }
  advanceClock();
  switch (id) {
    case CLOCK_REALTIME:
    case CLOCK_REALTIME_COARSE:
    case CLOCK_TAI: *t = toSpec(W.real); break;
    case CLOCK_PROCESS_CPUTIME_ID:
    case CLOCK_THREAD_CPUTIME_ID: *t = toSpec(W.cpu); break;
    default: *t = toSpec(W.mono); break;
  }
  return 0;
}
int gettimeofday(struct timeval* __restrict tv, void* __restrict) noexcept {
  timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (tv) {
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
  }
  return 0;
}
time_t time(time_t* out) noexcept {
  timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (out) {
    *out = t.tv_sec;
  }
  return t.tv_sec;
}
int timespec_get(struct timespec* t, int base) noexcept {
  clock_gettime(CLOCK_REALTIME, t);
  return base;
}
clock_t clock() noexcept {
  timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return clock_t(t.tv_sec) * 1000000 + t.tv_nsec / 1000;
}
clock_t times(struct tms* b) noexcept {
  const clock_t c = clock();
  if (b) {
    *b = {c / 10000, 0, 0, 0};
  }
  return c / 10000;
}
// sleeping takes no real time
int clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec*) {
  if (t && t->tv_sec >= 0 && t->tv_sec < 1000000) {
    W.mono += i64(t->tv_sec) * 1000000000 + t->tv_nsec;
    W.real += i64(t->tv_sec) * 1000000000 + t->tv_nsec;
  }
  sim::yieldFair(K_LOCK);
  return 0;
}
int nanosleep(const struct timespec* t, struct timespec* r) {
  return clock_nanosleep(CLOCK_MONOTONIC, 0, t, r);
}
int usleep(useconds_t us) {
  const timespec t = toSpec(i64(us) * 1000);
  return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s) {
  const timespec t = toSpec(i64(s) * 1000000000);
  nanosleep(&t, nullptr);
  return 0;
}
ssize_t getrandom(void* b, size_t n, unsigned flags) {
  if (!W.on) {
    return syscall(SYS_getrandom, b, n, flags);
  }
  for (size_t i = 0; i < n; ++i) {
    static_cast<u8*>(b)[i] = u8(randomWord());
  }
  return ssize_t(n);
}
int getentropy(void* b, size_t n) { return getrandom(b, n, 0) == ssize_t(n) ? 0 : -1; }
uint32_t arc4random() noexcept { return W.on ? uint32_t(randomWord()) : 4; }
// the process's environment variables and the sequence of rand() belong to the caller
static u64 gTraces = 0;
static void traceOf() {
  if (tlInOp) {
    ++gTraces;
    if (sim_on_env) {
      sim_on_env();
    }
  }
}
#define REAL(NAME) static const auto real = reinterpret_cast<decltype(&NAME)>(dlsym(RTLD_NEXT, #NAME))
int setenv(const char* n, const char* v, int o) noexcept {
  REAL(setenv);
  traceOf();
  return real(n, v, o);
}
int unsetenv(const char* n) noexcept {
  REAL(unsetenv);
  traceOf();
  return real(n);
}
int putenv(char* s) noexcept {
  REAL(putenv);
  traceOf();
  return real(s);
}
int rand() noexcept {
  REAL(rand);
  traceOf();
  return real();
}
long random() noexcept {
  REAL(random);
  traceOf();
  return real();
}
double drand48() noexcept {
  REAL(drand48);
  traceOf();
  return real();
}
void srand(unsigned n) noexcept {
  REAL(srand);
  traceOf();
  real(n);
}
void srandom(unsigned n) noexcept {
  REAL(srandom);
  traceOf();
  real(n);
}
#undef REAL
// files: what an operation writes goes nowhere and is counted; what it reads exists in
// the run but not in a reference process
static u64 gFiles = 0;
static bool simFiles() { return W.on && (tlInOp || W.reference); }
static int simFile(bool write) {
  if (write) {
    ++gFiles;
    return int(syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0));
  }
  if (W.reference) {
    errno = ENOENT;
    return -1;
  }
  fault("file-appears");
  const int fd = int(syscall(SYS_memfd_create, "sim", MFD_CLOEXEC));
  char text[64];
  const int n = snprintf(text, sizeof text, "%d\n1 1 1\n", int(randomWord() % 1000));
  if (fd >= 0 && n > 0) {
    (void)!::write(fd, text, size_t(n));
    ::lseek(fd, 0, SEEK_SET);
  }
  return fd;
}
static int simOpen(int dir, const char* path, int flags, mode_t mode) {
  if (simFiles()) {
    return simFile((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)) != 0);
  }
  return int(syscall(SYS_openat, dir, path, flags, mode));
}
#define MODE                                                                                       \
  mode_t mode = 0;                                                                                 \
  if (flags & (O_CREAT | O_TMPFILE)) {                                                             \
    va_list ap;                                                                                    \
    va_start(ap, flags);                                                                           \
    mode = mode_t(va_arg(ap, int));                                                                \
    va_end(ap);                                                                                    \
  }
int open(const char* path, int flags, ...) {
  MODE return simOpen(AT_FDCWD, path, flags, mode);
}
int open64(const char* path, int flags, ...) {
  MODE return simOpen(AT_FDCWD, path, flags, mode);
}
int openat(int dir, const char* path, int flags, ...) {
  MODE return simOpen(dir, path, flags, mode);
}
int openat64(int dir, const char* path, int flags, ...) {
  MODE return simOpen(dir, path, flags, mode);
}
#undef MODE
int creat(const char* path, mode_t mode) { return simOpen(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
static FILE* simFopen(const char* path, const char* how, const char* name) {
  if (simFiles()) {
    const int fd = simFile(strpbrk(how, "wa+") != nullptr);
    return fd < 0 ? nullptr : fdopen(fd, how);
  }
  return reinterpret_cast<FILE* (*)(const char*, const char*)>(dlsym(RTLD_NEXT, name))(path, how);
}
FILE* fopen(const char* path, const char* how) { return simFopen(path, how, "fopen"); }
FILE* fopen64(const char* path, const char* how) { return simFopen(path, how, "fopen64"); }
int remove(const char* path) noexcept {
  if (simFiles()) {
    ++gFiles;
    return 0;
  }
  return int(syscall(SYS_unlink, path));
}
int unlink(const char* path) noexcept { return remove(path); }
pid_t getpid() noexcept { return W.on ? W.pid : pid_t(syscall(SYS_getpid)); }
pid_t gettid() noexcept { return W.on ? W.pid + 1 + tlTask : pid_t(syscall(SYS_gettid)); }
char* getenv(const char* name) noexcept {
  if (W.on && tlInOp) { // the caller's environment has every variable; a reference process has none of them
    static char one[] = "1";
    if (strncmp(name, "LC_", 3) != 0 && strncmp(name, "LANG", 4) != 0) {
      fault("environment-variable");
      return one;
    }
    return nullptr;
  }
  for (char** e = environ; e && *e; ++e) {
    const auto n = strlen(name);
    if (strncmp(*e, name, n) == 0 && (*e)[n] == '=') {
      return *e + n + 1;
    }
  }
  return nullptr;
}
char* secure_getenv(const char* name) noexcept { return getenv(name); }
}
u64 sim::processTraces() { return gTraces; }
u64 sim::fileTraces() { return gFiles; }
std::random_device::result_type std::random_device::_M_getval() { return result_type(randomWord()); }

// ---- interposed synchronisation: blocked tasks hand the token over ----
extern "C" {
static int (*realLock)(pthread_mutex_t*) = nullptr;
static int (*realTry)(pthread_mutex_t*) = nullptr;
static int (*realUnlock)(pthread_mutex_t*) = nullptr;
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!realLock) {
    realLock = reinterpret_cast<decltype(realLock)>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
    realTry = reinterpret_cast<decltype(realTry)>(dlsym(RTLD_NEXT, "pthread_mutex_trylock"));
  }
  if (!inTask()) {
    return realLock(m);
  }
  sim::yield(K_LOCK, 1);
  for (;;) {
    const int r = realTry(m);
    if (r != EBUSY) {
      if (sim_on_lock) {
        sim_on_lock(m, 1);
      }
      return r;
    }
    yieldBlocked();
  }
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!realUnlock) {
    realUnlock = reinterpret_cast<decltype(realUnlock)>(dlsym(RTLD_NEXT, "pthread_mutex_unlock"));
  }
  if (inTask() && sim_on_lock) {
    sim_on_lock(m, 0);
  }
  return realUnlock(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  if (!realTry) {
    realLock = reinterpret_cast<decltype(realLock)>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
    realTry = reinterpret_cast<decltype(realTry)>(dlsym(RTLD_NEXT, "pthread_mutex_trylock"));
  }
  if (inTask()) {
    sim::yield(K_LOCK, 2);
  }
  const int r = realTry(m);
  if (r == 0 && inTask() && sim_on_lock) {
    sim_on_lock(m, 1);
  }
  return r;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) noexcept {
  return pthread_mutex_lock(m);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) noexcept {
  return pthread_mutex_lock(m);
}
// reader-writer locks, once flags and sched_yield, so that a correct use of them in
// the code under test cannot block the one running task for real
static int (*realRd)(pthread_rwlock_t*) = nullptr;
static int (*realWr)(pthread_rwlock_t*) = nullptr;
static int (*realTryRd)(pthread_rwlock_t*) = nullptr;
static int (*realTryWr)(pthread_rwlock_t*) = nullptr;
static int (*realRwUnlock)(pthread_rwlock_t*) = nullptr;
static void rwInit() {
  if (!realRd) {
    realRd = reinterpret_cast<decltype(realRd)>(dlsym(RTLD_NEXT, "pthread_rwlock_rdlock"));
    realWr = reinterpret_cast<decltype(realWr)>(dlsym(RTLD_NEXT, "pthread_rwlock_wrlock"));
    realTryRd = reinterpret_cast<decltype(realTryRd)>(dlsym(RTLD_NEXT, "pthread_rwlock_tryrdlock"));
    realTryWr = reinterpret_cast<decltype(realTryWr)>(dlsym(RTLD_NEXT, "pthread_rwlock_trywrlock"));
    realRwUnlock = reinterpret_cast<decltype(realRwUnlock)>(dlsym(RTLD_NEXT, "pthread_rwlock_unlock"));
  }
}
static int rwLock(pthread_rwlock_t* l, int (*tryIt)(pthread_rwlock_t*)) {
  sim::yield(K_LOCK, 2);
  for (;;) {
    const int r = tryIt(l);
    if (r != EBUSY) {
      if (sim_on_lock) {
        sim_on_lock(l, 1);
      }
      return r;
    }
    yieldBlocked();
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  rwInit();
  return inTask() ? rwLock(l, realTryRd) : realRd(l);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  rwInit();
  return inTask() ? rwLock(l, realTryWr) : realWr(l);
}
static int rwTry(pthread_rwlock_t* l, int (*tryIt)(pthread_rwlock_t*)) {
  if (inTask()) {
    sim::yield(K_LOCK, 2);
  }
  const int r = tryIt(l);
  if (r == 0 && inTask() && sim_on_lock) {
    sim_on_lock(l, 1);
  }
  return r;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  rwInit();
  return rwTry(l, realTryRd);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  rwInit();
  return rwTry(l, realTryWr);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  rwInit();
  if (inTask() && sim_on_lock) {
    sim_on_lock(l, 0);
  }
  return realRwUnlock(l);
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
  // 0: never run, 1: running, 2: done
  for (;;) {
    if (*o == 2) {
      if (sim_on_lock && inTask()) {
        sim_on_lock(o, 1);
      }
      return 0;
    }
    if (*o == 0) {
      *o = 1;
      try {
        fn();
      } catch (...) {
        if (sim_on_lock && inTask()) {
          sim_on_lock(o, 0);
        }
        *o = 0;
        throw;
      }
      if (sim_on_lock && inTask()) {
        sim_on_lock(o, 0);
      }
      *o = 2;
      return 0;
    }
    if (!inTask()) {
      std::abort();
    }
    yieldBlocked();
  }
}
// waiting on a condition wakes up at once (a spurious wakeup), after others could run
int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t* m) {
  pthread_mutex_unlock(m);
  sim::yieldFair(K_LOCK);
  return pthread_mutex_lock(m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) {
  W.mono += 1000000;
  W.real += 1000000;
  return pthread_cond_wait(c, m);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) {
  return pthread_cond_timedwait(c, m, t);
}
int pthread_cond_signal(pthread_cond_t*) noexcept { return 0; }
int pthread_cond_broadcast(pthread_cond_t*) noexcept { return 0; }
int sched_yield() noexcept {
  sim::yieldFair(K_LOCK);
  return 0;
}
int __cxa_guard_acquire(long long* g) {
  u8* b = reinterpret_cast<u8*>(g);
  for (;;) {
    if (b[0]) {
      if (sim_on_lock && inTask()) {
        sim_on_lock(g, 1);
      }
      return 0;
    }
    if (!b[1]) {
      b[1] = 1;
      if (sim_on_lock && inTask()) {
        sim_on_lock(g, 1);
      }
      return 1;
    }
    if (!inTask()) {
      std::abort();
    }
    yieldBlocked();
  }
}
void __cxa_guard_release(long long* g) {
  u8* b = reinterpret_cast<u8*>(g);
  if (sim_on_lock && inTask()) {
    sim_on_lock(g, 0);
  }
  b[1] = 0;
  b[0] = 1;
}
void __cxa_guard_abort(long long* g) {
  u8* b = reinterpret_cast<u8*>(g);
  if (sim_on_lock && inTask()) {
    sim_on_lock(g, 0); // the next attempt happens after the failed one
  }
  b[1] = 0;
}
}

void* operator new(std::size_t n) { return sim::doAlloc(n, false); }
void* operator new[](std::size_t n) { return sim::doAlloc(n, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return sim::doAlloc(n, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept {
  return sim::doAlloc(n, true);
}
void operator delete(void* p) noexcept { sim::doFree(p); }
void operator delete[](void* p) noexcept { sim::doFree(p); }
void operator delete(void* p, std::size_t) noexcept { sim::doFree(p); }
void operator delete[](void* p, std::size_t) noexcept { sim::doFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::doFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::doFree(p); }

static void mapShared() {
  R = static_cast<Result*>(mmap(
    nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  pristineBuf = static_cast<u8*>(
    mmap(nullptr, kPristineCap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (R == MAP_FAILED || pristineBuf == MAP_FAILED) {
    perror("mmap");
    exit(4);
  }
}

static std::string jsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += char(c);
    }
  }
  return o;
}

static std::string planText(const Plan& p) {
  const Module* m = findModule(p.prop);
  std::ostringstream o;
  o << "world=" << p.world;
  for (std::size_t t = 0; t < p.tasks.size(); ++t) {
    o << " | task" << t << ":";
    for (auto& op : p.tasks[t]) {
      o << " " << (m && m->opName ? m->opName(op.code) : "op") << "(";
      for (std::size_t i = 0; i < op.a.size(); ++i) {
        o << (i ? "," : "") << op.a[i];
      }
      o << ")";
    }
  }
  o << " | switches=" << p.switches.size();
  std::size_t k = 0;
  for (auto& s : p.switches) {
    if (++k > 12) {
      o << " ...";
      break;
    }
    o << " " << s.first << "->" << s.second;
  }
  auto s = o.str();
  if (s.size() > 1500) {
    s = s.substr(0, 1500) + "...";
  }
  return s;
}

int main(int argc, char** argv) {
  // fixed address layout: nothing in a run may depend on ASLR
  if (!getenv("SIM_NO_REEXEC")) {
    const int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(unsigned(pers) | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_NO_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  std::map<std::string, std::string> opt;
  for (int i = 1; i + 1 < argc; i += 2) {
    opt[argv[i]] = argv[i + 1];
  }
  mapShared();
  if (opt.count("--cpu")) {
    cpu_set_t set;
    CPU_ZERO(&set);
    CPU_SET(std::size_t(atoi(opt["--cpu"].c_str())), &set);
    sched_setaffinity(0, sizeof set, &set); // speed only; failure is harmless
  }
  if (opt.count("--replay")) {
    Plan p;
    std::string cls;
    u64 hash = 0;
    if (!readPlan(opt["--replay"], p, cls, hash)) {
      fprintf(stderr, "cannot read replay file\n");
      return 4;
    }
    gVerbose = opt.count("--verbose") && opt["--verbose"] == "1";
    execPlan(p);
    printf("status=%d class=%s hash=%llu steps=%llu\n", R->status, R->status == 2 ? R->cls : "-",
      (unsigned long long)R->hash, (unsigned long long)R->steps);
    if (R->status == 2) {
      printf("message: %s\n", R->msg);
      printf("expected class=%s hash=%llu: %s\n", cls.c_str(), (unsigned long long)hash,
        (cls == R->cls && hash == R->hash) ? "reproduced exactly"
        : cls == R->cls                    ? "same violation, different trace"
                                           : "different violation");
      return cls == R->cls && hash == R->hash ? 1 : 5;
    }
    return R->status == 1 ? 0 : 4;
  }
  const std::string prop = opt["--prop"];
  const u64 seed = strtoull(opt["--seed"].c_str(), nullptr, 10);
  const u64 runs = strtoull(opt["--runs"].c_str(), nullptr, 10);
  const u64 from = opt.count("--from") ? strtoull(opt["--from"].c_str(), nullptr, 10) : 0;
  const u64 stride = opt.count("--stride") ? strtoull(opt["--stride"].c_str(), nullptr, 10) : 1;
  const double maxSec = opt.count("--max-seconds") ? atof(opt["--max-seconds"].c_str()) : 1e9;
  const std::string out = opt["--out"];
  const Module* m = findModule(prop);
  if (!m) {
    fprintf(stderr, "unknown property %s\n", prop.c_str());
    return 4;
  }
  const bool dumpHashes = opt.count("--hashes") != 0;
  const auto t0 = std::chrono::steady_clock::now();
  std::map<std::string, std::pair<u64, bool>> counters;
  std::set<u64> traces, ileaves;
  u64 done = 0, nontrivial = 0, steps = 0, rechecks = 0, mismatches = 0, switches = 0;
  u64 harnessErrors = 0;
  std::vector<std::string> samples;
  std::string violationPath, violationMsg, violationCls, lastError;
  u64 violationIndex = 0;
  int rc = 0;
  FILE* hf = dumpHashes ? fopen(opt["--hashes"].c_str(), "w") : nullptr;
  for (u64 idx = from; idx < runs; idx += stride) {
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > maxSec) {
      break;
    }
    const u64 runSeed = mix2(mix2(seed, fold(7, prop.data(), prop.size())), idx);
    Rng rng(runSeed);
    Plan p;
    p.prop = prop;
    p.world = rng.next();
    p.schedSeed = rng.next();
    static const u32 rates[] = {0, 5, 20, 60, 150, 300, 600};
    p.switchPermille = rates[rng.below(7)];
    m->generate(rng, p);
    execPlan(p);
    ++done;
    if (hf) {
      fprintf(hf, "%llu %llu %d\n", (unsigned long long)idx, (unsigned long long)R->hash, R->status);
    }
    steps += R->steps;
    switches += R->inOpSwitches;
    for (u32 i = 0; i < R->ncnt; ++i) {
      auto& c = counters[R->cnt[i].name];
      c.first += R->cnt[i].n;
      c.second = R->cnt[i].isFault;
    }
    if (R->status == 3) {
      ++harnessErrors;
      lastError = R->msg;
      continue;
    }
    if (R->status == 1) {
      const bool fresh = traces.insert(R->hash).second;
      ileaves.insert(R->ileave);
      if (fresh && (R->faults > 0 || R->inOpSwitches > 0)) {
        ++nontrivial;
        if (samples.size() < 3 && (done > 20)) {
          samples.push_back(planText(explicitPlan(p)));
        }
      }
      if (idx % 97 == 3 && !R->swOverflow) { // determinism self-check: replay the recorded run
        const u64 h = R->hash;
        Plan q = explicitPlan(p);
        execPlan(q);
        ++rechecks;
        if (R->hash != h || R->status != 1) {
          ++mismatches;
        }
      }
      continue;
    }
    // a violation: gate it, minimise it, and write the replay file
    const std::string cls = R->cls;
    Plan q = explicitPlan(p);
    execPlan(q);
    const u64 h1 = R->hash;
    const bool r1 = R->status == 2 && cls == R->cls;
    execPlan(q);
    const bool r2 = R->status == 2 && cls == R->cls && R->hash == h1;
    if (!r1 || !r2) {
      ++mismatches;
      lastError = "violation class " + cls + " of run " + std::to_string(idx)
                  + " did not reproduce; not reported";
      continue;
    }
    Minimiser mini;
    mini.cls = cls;
    mini.until = std::chrono::steady_clock::now() + std::chrono::seconds(cls == "hang" ? 100 : 40);
    if (cls == "hang") {
      mini.budget = 5;
    }
    Plan best = mini.run(q);
    execPlan(best);
    if (!(R->status == 2 && cls == R->cls)) {
      best = q;
      execPlan(best);
    }
    violationPath = opt["--replay-out"];
    writePlan(violationPath, best, runSeed);
    violationMsg = R->msg;
    violationCls = cls;
    violationIndex = idx;
    rc = 1;
    break;
  }
  if (hf) {
    fclose(hf);
  }
  const double wall =
    std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  std::ofstream f(out);
  f << "{\"runs\":" << done << ",\"nontrivial\":" << nontrivial << ",\"steps\":" << steps
    << ",\"switches\":" << switches << ",\"rechecks\":" << rechecks
    << ",\"mismatches\":" << mismatches << ",\"harness_errors\":" << harnessErrors
    << ",\"wall\":" << wall << ",\"counters\":{";
  bool firstC = true;
  for (auto& c : counters) {
    f << (firstC ? "" : ",") << "\"" << c.first << "\":[" << c.second.first << ","
      << (c.second.second ? "true" : "false") << "]";
    firstC = false;
  }
  f << "},\"samples\":[";
  for (std::size_t i = 0; i < samples.size(); ++i) {
    f << (i ? "," : "") << "\"" << jsonEsc(samples[i]) << "\"";
  }
  f << "],\"error\":\"" << jsonEsc(lastError) << "\"";
  if (rc == 1) {
    f << ",\"violation\":{\"index\":" << violationIndex << ",\"class\":\"" << jsonEsc(violationCls)
      << "\",\"message\":\"" << jsonEsc(violationMsg) << "\",\"replay\":\"" << jsonEsc(violationPath)
      << "\"}";
  }
  f << "}\n";
  f.close();
  // distinct trace and interleaving fingerprints, merged across workers by the caller
  FILE* sf = fopen((out + ".sets").c_str(), "wb");
  if (sf) {
    const u64 a = traces.size(), b = ileaves.size();
    fwrite(&a, 8, 1, sf);
    for (u64 v : traces) {
      fwrite(&v, 8, 1, sf);
    }
    fwrite(&b, 8, 1, sf);
    for (u64 v : ileaves) {
      fwrite(&v, 8, 1, sf);
    }
    fclose(sf);
  }
  return rc;
}
