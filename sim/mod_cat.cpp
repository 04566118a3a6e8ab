// C10 concurrent callers, C11 independence of history and address, C12 independence
// of memory contents: the operation catalogue under three kinds of environment.
#include "cat_api.h"
#include "sim.h"

#include <cfenv>
#include <clocale>
#include <csignal>
#include <signal.h>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <locale>
#include <map>
#include <new>
#include <string>
#include <vector>
#ifdef __SSE2__
#include <xmmintrin.h>
#endif

#ifdef CAT_TWO
namespace catA {
CatApi api();
}
namespace catB {
CatApi api();
}
#else
namespace catns {
CatApi api();
}
#endif

namespace {
using namespace sim;
CatApi A;
#ifdef CAT_TWO
CatApi B;
#endif
bool ready = false;
std::vector<std::string> families;
std::vector<std::vector<int>> familyOps;
int nOps = 0;

void init() {
  if (ready) {
    return;
  }
#ifdef CAT_TWO
  A = catA::api();
  B = catB::api();
  B.count();
#else
  A = catns::api();
#endif
  nOps = A.count();
  std::map<std::string, std::size_t> idx;
  for (int i = 0; i < nOps; ++i) {
    std::string n = A.name(i);
    n = n.substr(0, n.find('/'));
    auto it = idx.find(n);
    if (it == idx.end()) {
      it = idx.emplace(n, families.size()).first;
      families.push_back(n);
      familyOps.emplace_back();
    }
    familyOps[it->second].push_back(i);
  }
  ready = true;
}

constexpr std::size_t kSel = 8;
// layout of an operation's arguments
enum { A_OP = 0, A_SEL = 1, A_GEN = A_SEL + kSel, A_SPLIT, A_GETFAIL, A_ALLOCFAIL, A_REPEAT, A_PART, A_COUNT };

struct Focus {
  int mode; // 0 one op, 1 two ops of a family, 2 a family, 3 anything
  int op[2];
  std::size_t fam;
};
Focus pickFocus(Rng& r) {
  Focus f;
  f.mode = int(r.below(4));
  f.op[0] = int(r.below(u64(nOps)));
  std::string n = A.name(f.op[0]);
  n = n.substr(0, n.find('/'));
  f.fam = 0;
  for (std::size_t i = 0; i < families.size(); ++i) {
    if (families[i] == n) {
      f.fam = i;
    }
  }
  f.op[1] = familyOps[f.fam][r.below(familyOps[f.fam].size())];
  return f;
}
int pickOp(Rng& r, const Focus& f) {
  switch (f.mode) {
    case 0: return f.op[0];
    case 1: return f.op[r.below(2)];
    case 2: return familyOps[f.fam][r.below(familyOps[f.fam].size())];
    default: return int(r.below(u64(nOps)));
  }
}
// selections share most indices within a run, so that calls see related values
void pickSel(Rng& r, const std::vector<u64>& base, Op& o) {
  const auto kind = r.below(4);
  for (std::size_t i = 0; i < kSel; ++i) {
    u64 v = base[i];
    if (kind == 1 ? r.below(kSel) == 0 : kind == 2) {
      v = r.below(840);
    } else if (kind == 3 && i) {
      v = o.a[A_SEL]; // the same value (or object) for several arguments
    }
    o.a[A_SEL + i] = v;
  }
}
Op makeOp(Rng& r, const Focus& f, const std::vector<u64>& base, bool faults) {
  Op o;
  o.code = 0;
  o.a.assign(A_COUNT, 0);
  o.a[A_OP] = u64(pickOp(r, f));
  pickSel(r, base, o);
  if (faults && r.below(6) == 0) {
    o.a[A_GETFAIL] = 1 + r.below(6);
  }
  if (faults && r.below(8) == 0) {
    o.a[A_ALLOCFAIL] = 1 + r.below(4);
  }
  return o;
}

// ---- reference results ----
struct Key {
  u64 v[A_COUNT];
  bool operator<(const Key& o) const { return std::memcmp(v, o.v, sizeof v) < 0; }
};
Key keyOf(const Op& o) {
  Key k;
  std::memset(&k, 0, sizeof k);
  k.v[A_OP] = o.arg(A_OP);
  for (std::size_t i = 0; i < kSel; ++i) {
    k.v[A_SEL + i] = o.arg(A_SEL + i);
  }
  k.v[A_GEN] = o.arg(A_GEN);
  k.v[A_GETFAIL] = o.arg(A_GETFAIL);
  k.v[A_PART] = o.arg(A_PART);
  return k;
}
std::map<Key, CatRes> refs;
void* worlds[4];
u64 worldHash[4];
std::string labels[8];
std::string resText(const CatRes& r) {
  if (r.threw) {
    return r.threw == 1 ? "bad_alloc" : r.threw == 2 ? "the getter's failure" : "an exception";
  }
  std::string s = "[";
  char b[40];
  for (u32 i = 0; i < r.n && i < CatRes::kShow; ++i) {
    snprintf(b, sizeof b, "%s%.9g", i ? " " : "", r.show[i]);
    s += b;
  }
  return s + (r.n > CatRes::kShow ? " ...]" : "]");
}
bool same(const CatRes& a, const CatRes& b) {
  return a.threw == b.threw && (a.threw || (a.hash == b.hash && a.n == b.n));
}
const char* nameOf(const Op& o) {
  const u64 i = o.arg(A_OP);
  return i < u64(nOps) ? A.name(int(i)) : "?";
}
// Standard streams turn a failed allocation into a truncated text, so calls that print are not
// given failing allocations.
u64 allocFailOf(const Op& o) {
  const std::string n = nameOf(o);
  return n.compare(0, 8, "io/print") == 0 || n.compare(0, 12, "io/roundtrip") == 0 ? 0 : o.arg(A_ALLOCFAIL);
}
u64 failOf(const Op& o) { return (o.arg(A_GETFAIL) & 0xffffu) | o.arg(A_PART) % 64 << 32; }
const u64* selOf(const Op& o) { return o.a.data() + A_SEL; }

bool usable(const Op& o) { return o.a.size() >= A_COUNT && o.arg(A_OP) < u64(nOps) && o.arg(A_GEN) < 3; }

struct RefJob {
  const std::vector<Op>* ops;
};
void refFn(void* ctx, u8* out, std::size_t cap) {
  auto& job = *static_cast<RefJob*>(ctx);
  std::size_t at = 0;
  for (const auto& o : *job.ops) {
    if (at + sizeof(CatRes) > cap) {
      break;
    }
    CatRes r;
    const void* w = worlds[o.arg(A_GEN)];
    A.run(int(o.arg(A_OP)), w, w, selOf(o), failOf(o), &r);
    std::memcpy(out + at, &r, sizeof r);
    at += sizeof r;
  }
}
// each = true: every reference result comes from a process in which nothing ran before
void computeRefs(const Plan& plan, bool each, bool (*skip)(const Plan&, const Op&) = nullptr) {
  refs.clear();
  std::vector<Op> need;
  for (auto& t : plan.tasks) {
    for (auto& o : t) {
      if (usable(o) && !(skip && skip(plan, o)) && refs.emplace(keyOf(o), CatRes()).second) {
        need.push_back(o);
      }
    }
  }
  std::vector<u8> buf;
  std::vector<std::vector<Op>> jobs;
  if (each) {
    for (auto& o : need) {
      jobs.push_back({o});
    }
  } else {
    jobs.push_back(need);
  }
  for (auto& j : jobs) {
    RefJob job{&j};
    buf.assign(j.size() * sizeof(CatRes) + 8, 0);
    if (!pristine(refFn, &job, buf.data(), buf.size())) {
      violate("crash", "%s crashed or ended the process in a fresh process", nameOf(j.back()));
    }
    std::size_t at = 0;
    for (auto& o : j) {
      CatRes r;
      std::memcpy(&r, buf.data() + at, sizeof r);
      at += sizeof r;
      refs[keyOf(o)] = r;
    }
  }
}

// ------------------------------------------------------------------ C10
#ifndef CAT_TWO
void genC10(Rng& r, Plan& p) {
  init();
  const auto f = pickFocus(r);
  std::vector<u64> base;
  for (std::size_t i = 0; i < kSel; ++i) {
    base.push_back(r.below(840));
  }
  const auto nt = 2 + r.below(3);
  static const u32 rates[] = {0, 2, 8, 25, 60, 150, 350};
  p.switchPermille = rates[r.below(7)];
  for (u64 t = 0; t < nt; ++t) {
    std::vector<Op> ops;
    const auto n = 1 + r.below(5);
    for (u64 i = 0; i < n; ++i) {
      ops.push_back(makeOp(r, f, base, true));
    }
    p.tasks.push_back(ops);
  }
}
void setupC10(const Plan& plan) {
  init();
  for (u64 g = 0; g < 3; ++g) {
    worlds[g] = g == 0 ? A.build(plan.world, 0) : worlds[0];
  }
  worldHash[0] = A.hash(worlds[0]);
  computeRefs(plan, false);
}
void compareRef(const Op& op, const CatRes& got, const char* cls, const char* how) {
  const auto it = refs.find(keyOf(op));
  if (it == refs.end()) {
    broken("no reference");
  }
  if (allocFailOf(op) && got.threw == 1) {
    probe("operation-failed-on-allocation");
    return;
  }
  if (!same(got, it->second)) {
    violate(cls, "%s %s: got %s, alone in a fresh process the same call gives %s", nameOf(op), how,
      resText(got).c_str(), resText(it->second).c_str());
  }
}
void runC10(int task, const Op& op, std::size_t) {
  if (!usable(op)) {
    return;
  }
  labels[task] = nameOf(op);
  CatRes got;
  {
    Armed armed(allocFailOf(op), 1, true);
    A.run(int(op.arg(A_OP)), worlds[0], worlds[0], selOf(op), failOf(op), &got);
  }
  if (got.threw == 2) {
    fault("getter-failure");
  }
  note(K_RESULT, got.threw ? got.threw : got.hash);
  compareRef(op, got, "wrong-result", "with other calls running concurrently");
}
void finishC10(const Plan&) {
  if (A.hash(worlds[0]) != worldHash[0]) {
    violate("operand-changed", "shared operands changed although they were only passed as const");
  }
}

// ------------------------------------------------------------------ C11
struct Env {
  int round;
  unsigned csr;
  std::string cloc;
  std::locale cpploc;
  std::new_handler nh;
  std::terminate_handler th;
  std::ios::fmtflags fl[3];
  std::streamsize prec[3], wid[3];
  char fill[3];
  std::ios::iostate st[3], exc[3];
  std::streambuf* buf[3];
  std::ostream* tie[3];
  void (*handlers[6])(int);
  u64 traces, files;
  void take() {
    round = std::fegetround();
#ifdef __SSE2__
    csr = _mm_getcsr() & 0xffc0u; // rounding, flush-to-zero, denormals-are-zero, masks; not the sticky flags
#endif
    cloc = std::setlocale(LC_ALL, nullptr);
    cpploc = std::locale();
    nh = std::get_new_handler();
    th = std::get_terminate();
    static const int signals[6] = {SIGFPE, SIGABRT, SIGSEGV, SIGINT, SIGTERM, SIGILL};
    for (int i = 0; i < 6; ++i) {
      struct sigaction sa;
      sigaction(signals[i], nullptr, &sa);
      handlers[i] = sa.sa_handler;
    }
    traces = processTraces();
    files = fileTraces();
    std::ostream* s[3] = {&std::cout, &std::cerr, &std::clog};
    for (int i = 0; i < 3; ++i) {
      fl[i] = s[i]->flags();
      prec[i] = s[i]->precision();
      wid[i] = s[i]->width();
      fill[i] = s[i]->fill();
      st[i] = s[i]->rdstate();
      exc[i] = s[i]->exceptions();
      buf[i] = s[i]->rdbuf();
      tie[i] = s[i]->tie();
    }
  }
  const char* differs(const Env& o) const {
    if (round != o.round || csr != o.csr) {
      return "the floating-point environment";
    }
    if (cloc != o.cloc) {
      return "the C locale";
    }
    if (!(cpploc == o.cpploc)) {
      return "the global C++ locale";
    }
    if (nh != o.nh || th != o.th) {
      return "a global handler";
    }
    for (int i = 0; i < 6; ++i) {
      if (handlers[i] != o.handlers[i]) {
        return "a signal handler";
      }
    }
    if (traces != o.traces) {
      return "the process's environment variables or random number sequence";
    }
    if (files != o.files) {
      return "a file";
    }
    for (int i = 0; i < 3; ++i) {
      if (exc[i] != o.exc[i] || buf[i] != o.buf[i] || tie[i] != o.tie[i]) {
        return "the set-up of a standard stream";
      }
      if (fl[i] != o.fl[i] || prec[i] != o.prec[i] || wid[i] != o.wid[i] || fill[i] != o.fill[i] || st[i] != o.st[i]) {
        return "the state of a standard stream";
      }
    }
    return nullptr;
  }
};
Env env0;
struct Slots {
  void* a;
  void* b;
  int ga, gb;
};
Slots slots[4];

void genC11(Rng& r, Plan& p) {
  init();
  const auto f = pickFocus(r);
  std::vector<u64> base;
  for (std::size_t i = 0; i < kSel; ++i) {
    base.push_back(r.below(840));
  }
  const auto nt = r.below(4) == 0 ? 2 : 1;
  for (u64 t = 0; t < u64(nt); ++t) {
    std::vector<Op> ops;
    std::vector<Op> distinct;
    const auto nd = 2 + r.below(5);
    for (u64 i = 0; i < nd; ++i) {
      auto o = makeOp(r, f, base, true);
      o.a[A_GEN] = r.below(3);
      if (r.below(3) == 0) { // only one of its evaluations
        o.a[A_PART] = 1 + r.below(8);
      }
      distinct.push_back(o);
      if (r.below(2)) { // the same call on a generation that differs in a few components
        o.a[A_GEN] = r.below(3);
        distinct.push_back(o);
      }
    }
    const auto n = nd + r.below(10);
    for (u64 i = 0; i < n; ++i) {
      auto o = i < distinct.size() ? distinct[i] : distinct[r.below(distinct.size())];
      o.a[A_SPLIT] = r.below(4); // bit 0: second operands from a copy; bit 1: operands elsewhere
      if (o.a[A_ALLOCFAIL] && r.below(2)) {
        o.a[A_ALLOCFAIL] = 0;
      }
      if (r.below(24) == 0) {
        o.a[A_REPEAT] = 2 + r.below(280);
      } else if (r.below(600) == 0) {
        o.a[A_REPEAT] = 1000 + r.below(8) * 600;
      } else if (r.below(9000) == 0) {
        o.a[A_REPEAT] = 65540 + r.below(40);
      }
      ops.push_back(o);
    }
    p.tasks.push_back(ops);
  }
}
// The caller's process: its locales behave like the classic one but are different objects, and
// in some runs its rounding mode is not the default one. Results are compared with those of a
// process in the same environment; code that "restores" a default it assumed changes it.
int callerRounding(const Plan& plan) {
  static const int modes[] = {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
  const u64 w = mix64(plan.world + 0x0f);
  return w % 5 == 0 ? modes[w / 5 % 3] : FE_TONEAREST;
}
void enterEnvironment(const Plan& plan) {
  if (plan.world == 0) {
    return;
  }
  if (mix64(plan.world + 0x10) & 1) {
    std::locale::global(std::locale(std::locale::classic(), new std::numpunct<char>));
    fault("caller-c++-locale");
  }
  if ((mix64(plan.world + 0x10) & 2) && std::setlocale(LC_ALL, "C.UTF-8")) {
    fault("caller-c-locale");
  }
  if (callerRounding(plan) != FE_TONEAREST) {
    std::fesetround(callerRounding(plan));
    fault("caller-rounding-mode");
  }
}
// The iteration behind sqrt_c and its users need not end under another rounding mode.
bool anyRounding(const Op& o) {
  const std::string t = A.text(int(o.arg(A_OP)));
  return t.find("_c(") == std::string::npos;
}
bool skipped(const Plan& plan, const Op& o) {
  return !usable(o) || (plan.world && callerRounding(plan) != FE_TONEAREST && !anyRounding(o));
}
const Plan* plan11 = nullptr;
void setupC11(const Plan& plan) {
  init();
  plan11 = &plan;
  for (u64 g = 0; g < 3; ++g) {
    worlds[g] = A.build(plan.world, g);
    worldHash[g] = A.hash(worlds[g]);
  }
  for (std::size_t t = 0; t < plan.tasks.size() && t < 4; ++t) {
    slots[t] = {A.build(plan.world, 0), A.build(plan.world, 0), 0, 0};
  }
  enterEnvironment(plan);
  env0.take();
  computeRefs(plan, true, skipped);
}
void runC11(int task, const Op& op, std::size_t index) {
  if (skipped(*plan11, op)) {
    return;
  }
  Slots& s = slots[task & 3];
  const int g = int(op.arg(A_GEN));
  const void* wa = worlds[g];
  const void* wb = worlds[g];
  if (!(op.arg(A_SPLIT) & 2)) { // operands live at the same addresses as those of earlier calls
    if (s.ga != g) {
      A.assign(s.a, worlds[g]);
      s.ga = g;
      fault("operands-overwritten-in-place");
    }
    wa = wb = s.a;
  }
  if (op.arg(A_SPLIT) & 1) {
    if (s.gb != g) {
      A.assign(s.b, worlds[g]);
      s.gb = g;
    }
    wb = s.b;
    probe("operands-not-aliased");
  }
  const u64 rep = 1 + std::min<u64>(op.arg(A_REPEAT), 66000);
  if (rep > 600) {
    tickBudget(0, 0); // no pre-emption inside a very long repetition
    probe("very-long-repetition");
  }
  for (u64 i = 0; i < rep; ++i) {
    CatRes got;
    if (rep > 600 && i % 64 == 0) {
      tickBudget(0, 0);
    }
    {
      Armed armed(allocFailOf(op), 1, rep <= 600);
      A.run(int(op.arg(A_OP)), wa, wb, selOf(op), failOf(op), &got);
    }
    if (got.threw == 2) {
      fault("getter-failure");
    }
    note(K_RESULT, got.threw ? got.threw : got.hash);
    const auto it = refs.find(keyOf(op));
    if (it != refs.end() && same(got, it->second)) {
      continue;
    }
    char how[96];
    snprintf(how, sizeof how, "as call %zu of a history%s", index + 1,
      rep > 1 ? (" (repetition " + std::to_string(i + 1) + ")").c_str() : "");
    compareRef(op, got, "history-dependent", how);
  }
  if (rep > 1) {
    probe("long-repetition");
  }
  if (A.hash(wa) != worldHash[g] || (wb != wa && A.hash(wb) != worldHash[g])) {
    violate("operand-changed", "%s modified operands passed as const", nameOf(op));
  }
  Env now;
  now.take();
  if (const char* d = now.differs(env0)) {
    violate("environment-changed", "%s changed %s", nameOf(op), d);
  }
  if (const u64 n = strayOutput()) {
    violate("environment-changed", "%s wrote %llu bytes to a standard stream", nameOf(op), (unsigned long long)n);
  }
}
void finishC11(const Plan&) {}
#else
// ------------------------------------------------------------------ C12
__attribute__((noinline, optimize("O0"))) void scribble(u64 seed) {
  volatile u64 area[6144]; // 48 KiB below the caller's frame
  for (std::size_t i = 0; i < 6144; ++i) {
    area[i] = seed ? mix64(seed + i % 61) : 0;
  }
  __asm__ volatile("" : : "r"(area) : "memory");
}
u64 patternOf(u64 seed, int k) {
  // typical stale contents: zero, ones, plausible doubles, pointers, noise
  switch (seed % 6) {
    case 0: return 0;
    case 1: return ~0ull;
    case 2: return 0x3ff0000000000000ull + u64(k);
    case 3: return 0x4009000040490000ull;
    case 4: return 0x7ff8000000000001ull;
    default: return mix64(seed + u64(k));
  }
}
void genC12(Rng& r, Plan& p) {
  init();
  const auto f = pickFocus(r);
  std::vector<u64> base;
  for (std::size_t i = 0; i < kSel; ++i) {
    base.push_back(r.below(840));
  }
  const auto nt = 1 + r.below(2);
  for (u64 t = 0; t < nt; ++t) {
    std::vector<Op> ops;
    const auto n = 1 + r.below(7);
    for (u64 i = 0; i < n; ++i) {
      auto o = makeOp(r, f, base, r.below(3) == 0);
      pickSel(r, base, o);
      if (r.below(2)) {
        for (std::size_t k = 0; k < kSel; ++k) {
          o.a[A_SEL + k] = r.below(840);
        }
      }
      o.a[A_GEN] = r.below(3);
      o.a[A_SPLIT] = r.below(1000000); // stack contents
      o.a[A_REPEAT] = r.below(1000000); // heap contents
      ops.push_back(o);
    }
    p.tasks.push_back(ops);
  }
}
void* worldsB[4];
void setupC12(const Plan& plan) {
  init();
  for (u64 g = 0; g < 3; ++g) {
    worlds[g] = A.build(plan.world, g);
    worldsB[g] = B.build(plan.world, g);
    if (A.hash(worlds[g]) != B.hash(worldsB[g])) {
      violate("contents-dependent", "constructing the operands gave different values under two memory contents");
    }
  }
}
void one(const CatApi& api, const Op& op, const void* w, u64 stack, u64 heap, CatRes& out) {
  setHeapPoison(heap);
  Armed armed(allocFailOf(op), 1, false);
  scribble(stack);
  api.run(int(op.arg(A_OP)), w, w, selOf(op), failOf(op), &out);
}
void runC12(int, const Op& op, std::size_t) {
  if (!usable(op)) {
    return;
  }
  const u64 g = op.arg(A_GEN);
  CatRes r[4];
  one(A, op, worlds[g], 0, 0, r[0]);
  const u64 st = patternOf(op.arg(A_SPLIT), 1), hp = patternOf(op.arg(A_REPEAT), 2);
  one(A, op, worlds[g], st ^ 1, hp, r[1]);
  yield(K_OP, 1);
  one(B, op, worldsB[g], mix64(op.arg(A_SPLIT) + 77), mix64(op.arg(A_REPEAT) + 5), r[2]);
  one(B, op, worldsB[g], 0, ~0ull, r[3]);
  fault("stack-contents");
  if (r[0].threw == 2) {
    fault("getter-failure");
  }
  note(K_RESULT, r[0].threw ? r[0].threw : r[0].hash);
  int base = -1; // a call that ran out of memory gave no result to compare
  for (int i = 0; i < 4; ++i) {
    if (allocFailOf(op) && r[i].threw == 1) {
      continue;
    }
    if (base < 0) {
      base = i;
    }
    if (!same(r[base], r[i])) {
      violate("contents-dependent", "%s gives %s or %s for the same arguments, depending on what memory held before",
        nameOf(op), resText(r[base]).c_str(), resText(r[i]).c_str());
    }
  }
}
void finishC12(const Plan&) {}
#endif

const char* opNameCat(u32) { return "call"; }
#ifndef CAT_TWO
Reg r10({"C10", genC10, setupC10, runC10, finishC10, opNameCat, 4000000});
Reg r11({"C11", genC11, setupC11, runC11, finishC11, opNameCat, 4000000});
#else
Reg r12({"C12", genC12, setupC12, runC12, finishC12, opNameCat, 400000});
#endif
} // namespace

extern "C" const char* sim_task_label(int t) {
  return t >= 0 && t < 8 ? labels[t].c_str() : "?";
}
