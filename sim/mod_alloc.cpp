// C07: allocation failure.  C08: canonical polygons and segments over histories.
#include "sim.h"
#include "val.h"
#include "cat_api.h"

#include <algorithm>
#include <iterator>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <vector>

#include <vecmath/approx.h>
#include <vecmath/convex_hull.h>
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
#include <vecmath/mat_io.h>
#include <vecmath/polygon.h>
#include <vecmath/segment.h>
#include <vecmath/vec_ext.h>
#include <vecmath/vec_io.h>

#ifdef WITH_CAT
namespace catns {
CatApi api();
}
#endif
namespace {
using namespace sim;
template <typename T, std::size_t S> using Vs = std::vector<vm::vec<T, S>>;

template <typename T> T dyadic(Rng& r) { return T(std::int64_t(r.below(2001)) - 1000) / T(8); }
template <typename T, std::size_t S> vm::vec<T, S> dyVec(Rng& r) {
  vm::vec<T, S> v;
  for (std::size_t i = 0; i < S; ++i) {
    v.v[i] = r.below(4) == 0 ? T(std::int64_t(r.below(3)) - 1) : dyadic<T>(r);
  }
  return v;
}
template <typename T, std::size_t S> Vs<T, S> someVerts(Rng& r, std::size_t n) {
  Vs<T, S> v;
  for (std::size_t i = 0; i < n; ++i) {
    v.push_back(i && r.below(10) == 0 ? v[r.below(i)] : dyVec<T, S>(r));
  }
  return v;
}
template <typename T, std::size_t S> bool sameVs(const Vs<T, S>& a, const Vs<T, S>& b) {
  if (a.size() != b.size()) {
    return false;
  }
  for (std::size_t i = 0; i < a.size(); ++i) {
    if (!sameBits(a[i], b[i])) {
      return false;
    }
  }
  return true;
}
template <typename T, std::size_t S> bool same(const Vs<T, S>& a, const Vs<T, S>& b) {
  return sameVs(a, b);
}
template <typename T, std::size_t S>
bool same(const vm::polygon<T, S>& a, const vm::polygon<T, S>& b) {
  return sameVs(a.vertices(), b.vertices());
}
template <typename T, std::size_t S>
bool same(const std::optional<vm::vec<T, S>>& a, const std::optional<vm::vec<T, S>>& b) {
  return a.has_value() == b.has_value() && (!a || sameBits(*a, *b));
}
template <typename T, std::size_t R, std::size_t C>
bool same(const std::optional<vm::mat<T, R, C>>& a, const std::optional<vm::mat<T, R, C>>& b) {
  if (a.has_value() != b.has_value()) {
    return false;
  }
  if (a) {
    for (std::size_t c = 0; c < C; ++c) {
      if (!sameBits(a->v[c], b->v[c])) {
        return false;
      }
    }
  }
  return true;
}

template <typename T, std::size_t N> vm::mat<T, N, N> someAffine(Rng& r) {
  vm::mat<T, N, N> m; // identity
  // signed permutation with small integer scale, plus translation: exact on dyadic input
  std::size_t perm[N];
  for (std::size_t i = 0; i < N; ++i) {
    perm[i] = i;
  }
  for (std::size_t i = N - 1; i-- > 1;) {
    std::swap(perm[i], perm[r.below(i + 1)]);
  }
  for (std::size_t c = 0; c < N; ++c) {
    for (std::size_t q = 0; q < N; ++q) {
      m.v[c].v[q] = T(0);
    }
  }
  for (std::size_t c = 0; c + 1 < N; ++c) {
    m.v[c].v[perm[c]] = T(std::int64_t(r.below(5)) - 2);
    if (m.v[c].v[perm[c]] == T(0)) {
      m.v[c].v[perm[c]] = T(1);
    }
  }
  for (std::size_t q = 0; q + 1 < N; ++q) {
    m.v[N - 1].v[q] = T(std::int64_t(r.below(9)) - 4);
  }
  m.v[N - 1].v[N - 1] = T(1);
  return m;
}
template <typename T, std::size_t S>
vm::vec<T, S> applyAffine(const vm::mat<T, S + 1, S + 1>& m, const vm::vec<T, S>& v) {
  vm::vec<T, S> o;
  for (std::size_t q = 0; q < S; ++q) {
    T a = T(0);
    for (std::size_t c = 0; c < S; ++c) {
      a += m.v[c].v[q] * v.v[c];
    }
    o.v[q] = a + m.v[S].v[q];
  }
  return o;
}

// ------------------------------------------------------------------ C07
// Runs a value-returning operation under allocation faults.
//   make: () -> result; unchanged: () -> bool (operands intact)
template <typename Make, typename Unchanged>
void underAllocFaults(const char* name, const Op& op, Make make, Unchanged unchanged) {
  const auto want = make(); // fault-free reference on the same operands
  if (!unchanged()) {
    violate("operand-changed", "%s modified its operands", name);
  }
  u64 live[4] = {};
  const int repeats = 3;
  bool failedOnce = false;
  for (int rep = 0; rep < repeats; ++rep) {
    bool threw = false;
    u64 attempts = 0, failed = 0;
    {
      std::optional<std::decay_t<decltype(want)>> got;
      try {
        armAlloc(op.arg(3), op.arg(4), true);
        got.emplace(make());
        const auto st = disarmAlloc();
        attempts = st.attempts;
        failed = st.failed;
      } catch (const std::bad_alloc&) {
        const auto st = disarmAlloc();
        attempts = st.attempts;
        failed = st.failed;
        threw = true;
      } catch (...) {
        disarmAlloc();
        violate("other-exception", "%s turned an allocation failure into another exception", name);
      }
      note(K_RESULT, attempts * 4 + threw * 2 + (failed != 0));
      if (threw && !failed) {
        violate("failure-invented", "%s reported an allocation failure that did not happen", name);
      }
      if (failed) {
        probe(threw ? "operation-failed-cleanly" : "operation-absorbed-failure");
        failedOnce = true;
      }
      if (!threw && !same(*got, want)) {
        violate("wrong-result-under-pressure",
          "%s returned a different result when allocation %llu failed", name,
          (unsigned long long)op.arg(3));
      }
      if (!unchanged()) {
        violate("operand-changed", "%s modified its operands when an allocation failed", name);
      }
    }
    live[rep] = liveBlocks();
    if (!op.arg(3)) {
      // fault-free: leak check below still applies
    }
  }
  if (live[1] > live[0] && live[2] > live[1]) {
    violate("leak", "%s leaks memory%s", name, failedOnce ? " when an allocation fails" : "");
  }
  // once memory is available again the operation works
  const auto again = make();
  if (!same(again, want)) {
    violate("retry-differs", "%s gives a different result after a failed attempt", name);
  }
}

enum {
  A_LIST,
  A_VECTOR,
  A_COPY,
  A_CONVERT,
  A_INVERT,
  A_TRANSLATE,
  A_TRANSFORM,
  A_VEC_PLUS,
  A_PLUS_VEC,
  A_VEC_TIMES,
  A_TIMES_VEC,
  A_MAT_POINTS,
  A_MAT_HOMOG,
  A_HULL,
  A_ASSIGN,
  A_PARSE_VEC,
  A_PARSE_MAT,
  A_MOVE,
  A_COLLECT_PARSED,
  A_COLLECT_SEGMENTS,
  A_COLLECT_POLYGONS,
  A_SELF_ASSIGN,
  A_MOVE_ASSIGN,
  A_CATALOGUE,
  A_COUNT
};
const char* c07Names[] = {"polygon-from-list", "polygon-from-vector", "polygon-copy",
  "polygon-convert", "polygon-invert", "polygon-translate", "polygon-transform", "vector+vec",
  "vec+vector", "vector*scalar", "scalar*vector", "mat*points", "mat*homogeneous", "convex_hull",
  "polygon-assign", "parse-vec", "parse-mat", "polygon-from-moved-vector",
  "collect-parsed", "collect-segment-vertices", "collect-polygon-vertices", "polygon-self-assign",
  "polygon-move-assign", "catalogue"};

template <typename T, std::size_t S> void allocOp(const Op& op) {
  using V = vm::vec<T, S>;
  using P = vm::polygon<T, S>;
  Rng r(op.arg(1));
  const std::size_t n = std::size_t(op.arg(2) % 320);
  const char* name = c07Names[op.code % A_COUNT];
  const auto verts = someVerts<T, S>(r, n);
  const auto saved = verts;
  const P poly(verts);
  const P polySaved(verts);
  const V off = dyVec<T, S>(r);
  const auto m = someAffine<T, S + 1>(r);
  auto okV = [&] { return sameVs(verts, saved); };
  auto okP = [&] { return same(poly, polySaved) && sameVs(verts, saved); };
  switch (op.code % A_COUNT) {
    case A_LIST: {
      const V a = dyVec<T, S>(r), b = dyVec<T, S>(r), c = dyVec<T, S>(r), d = dyVec<T, S>(r);
      return underAllocFaults(name, op, [&] { return P{a, b, c, d}; }, [] { return true; });
    }
    case A_VECTOR: return underAllocFaults(name, op, [&] { return P(verts); }, okV);
    case A_COPY: return underAllocFaults(name, op, [&] { return P(poly); }, okP);
    case A_CONVERT:
      return underAllocFaults(name, op,
        [&] {
          using U = std::conditional_t<std::is_same_v<T, double>, float, double>;
          return vm::polygon<U, S>(poly);
        },
        okP);
    case A_INVERT: return underAllocFaults(name, op, [&] { return poly.invert(); }, okP);
    case A_TRANSLATE: return underAllocFaults(name, op, [&] { return poly.translate(off); }, okP);
    case A_TRANSFORM: return underAllocFaults(name, op, [&] { return poly.transform(m); }, okP);
    case A_VEC_PLUS:
      return underAllocFaults(name, op, [&] { using vm::operator+; return verts + off; }, okV);
    case A_PLUS_VEC:
      return underAllocFaults(name, op, [&] { using vm::operator+; return off + verts; }, okV);
    case A_VEC_TIMES:
      return underAllocFaults(name, op, [&] { using vm::operator*; return verts * T(3); }, okV);
    case A_TIMES_VEC:
      return underAllocFaults(name, op, [&] { using vm::operator*; return T(3) * verts; }, okV);
    case A_MAT_POINTS:
      return underAllocFaults(name, op, [&] { using vm::operator*; return m * verts; }, okV);
    case A_MAT_HOMOG: {
      const auto h = someVerts<T, S + 1>(r, n);
      return underAllocFaults(name, op, [&] { using vm::operator*; return m * h; }, [] { return true; });
    }
    case A_HULL: {
      if constexpr (S == 3) {
        Vs<T, 3> pts;
        const std::size_t ax = r.below(3);
        for (std::size_t i = 0; i < n; ++i) {
          auto p = dyVec<T, 3>(r);
          p.v[ax] = T(2); // planar
          pts.push_back(p);
        }
        const auto keep = pts;
        return underAllocFaults(name, op, [&] { return vm::convex_hull(pts); }, [&] { return sameVs(pts, keep); });
      } else {
        return;
      }
    }
    case A_MOVE:
      return underAllocFaults(name, op, [&] { auto tmp = verts; return P(std::move(tmp)); }, okV);
    case A_COLLECT_PARSED: {
      std::string text;
      for (std::size_t i = 0; i < n * S; ++i) {
        char b[64];
        snprintf(b, sizeof b, "%s%.*f", i ? i % S ? " " : ", " : "", int(r.below(20)), modDouble(r));
        text += b;
      }
      const std::string keep = text;
      return underAllocFaults(name, op,
        [&] {
          Vs<T, S> out;
          vm::parse_all<T, S>(std::string_view(text), std::back_inserter(out));
          return out;
        },
        [&] { return text == keep; });
    }
    case A_COLLECT_SEGMENTS: {
      std::vector<vm::segment<T, S>> segs;
      for (std::size_t i = 0; i < n; ++i) {
        segs.emplace_back(dyVec<T, S>(r), dyVec<T, S>(r));
      }
      return underAllocFaults(name, op,
        [&] {
          Vs<T, S> out;
          vm::segment<T, S>::get_vertices(segs.begin(), segs.end(), std::back_inserter(out));
          return out;
        },
        [] { return true; });
    }
    case A_COLLECT_POLYGONS: {
      const std::vector<P> ps{poly, poly.invert(), P(), poly.translate(off)};
      return underAllocFaults(name, op,
        [&] {
          Vs<T, S> out;
          P::get_vertices(ps.begin(), ps.end(), std::back_inserter(out));
          return out;
        },
        okP);
    }
    case A_SELF_ASSIGN: {
      P p(poly);
      const P& ref = p;
      bool threw = false;
      try {
        armAlloc(op.arg(3), op.arg(4), true);
        p = ref;
        disarmAlloc();
      } catch (const std::bad_alloc&) {
        threw = true;
        if (!disarmAlloc().failed) {
          violate("failure-invented", "self-assignment reported an allocation failure that did not happen");
        }
      }
      if (!same(p, poly)) {
        violate("target-corrupted", "assigning a polygon to itself %s changed it", threw ? "failed and" : "");
      }
      return;
    }
    case A_MOVE_ASSIGN: {
      // a temporary is assigned: if making it fails the target keeps its value, and assigning cannot fail
      Rng r2(op.arg(5));
      const P target0(someVerts<T, S>(r2, std::size_t(op.arg(6) % 20)));
      P target(target0);
      const P want = poly.translate(off);
      bool threw = false;
      try {
        armAlloc(op.arg(3), op.arg(4), true);
        target = poly.translate(off);
        disarmAlloc();
      } catch (const std::bad_alloc&) {
        threw = true;
        if (!disarmAlloc().failed) {
          violate("failure-invented", "translation reported an allocation failure that did not happen");
        }
      } catch (...) {
        disarmAlloc();
        violate("other-exception", "translation turned an allocation failure into another exception");
      }
      if (!same(target, threw ? target0 : want)) {
        violate("target-corrupted", "assigning a translated polygon %s", threw ? "failed and changed its target" : "stored something else");
      }
      if (!okP()) {
        violate("operand-changed", "assigning a translated polygon modified its source");
      }
      return;
    }
    case A_ASSIGN: {
      // assignment: a failure must leave the target as it was
      Rng r2(op.arg(5));
      const P target0(someVerts<T, S>(r2, std::size_t(op.arg(6) % 20)));
      P target(target0);
      bool threw = false;
      AllocStats st;
      try {
        armAlloc(op.arg(3), op.arg(4), true);
        target = poly;
        st = disarmAlloc();
      } catch (const std::bad_alloc&) {
        st = disarmAlloc();
        threw = true;
      } catch (...) {
        disarmAlloc();
        violate("other-exception", "assignment turned an allocation failure into another exception");
      }
      note(K_RESULT, threw);
      if (threw) {
        probe("operation-failed-cleanly");
        if (!st.failed) {
          violate("failure-invented", "assignment reported an allocation failure that did not happen");
        }
        if (!same(target, target0)) {
          violate("target-corrupted", "a failed assignment changed its target");
        }
        target = poly;
      }
      if (!same(target, poly)) {
        violate("wrong-result-under-pressure", "assignment did not copy the polygon");
      }
      if (!okP()) {
        violate("operand-changed", "assignment modified its source");
      }
      return;
    }
    case A_PARSE_VEC: {
      std::string text;
      for (std::size_t i = 0; i < S; ++i) {
        char b[64];
        snprintf(b, sizeof b, "%s%.*f", i ? " " : "", int(r.below(30)), modDouble(r));
        text += b;
      }
      const std::string keep = text;
      return underAllocFaults(name, op, [&] { return vm::parse<T, S>(std::string_view(text)); }, [&] { return text == keep; });
    }
    default: {
      std::string text;
      for (std::size_t i = 0; i < S * S; ++i) {
        char b[64];
        snprintf(b, sizeof b, "%s%.*f", i ? " " : "", int(r.below(30)), modDouble(r));
        text += b;
      }
      const std::string keep = text;
      return underAllocFaults(name, op, [&] { return vm::parse<T, S, S>(std::string_view(text)); }, [&] { return text == keep; });
    }
  }
}
#ifdef WITH_CAT
// any operation of the library: most do not allocate today, but whichever does must be clean
CatApi cat;
int catOps = 0;
void* catWorld[2];
u64 catHash[2];
void catalogueOp(const Op& op) {
  Rng r(op.arg(1));
  u64 sel[8];
  for (auto& v : sel) {
    v = r.below(840);
  }
  const int which = int(op.arg(5) % u64(catOps));
  const void* w = catWorld[op.arg(6) & 1];
  const u64 hash = catHash[op.arg(6) & 1];
  const u64 getFail = op.arg(6) % 5 == 0 ? 1 + op.arg(6) / 5 : 0;
  const char* name = cat.name(which);
  auto run = [&](u64 failAt, AllocStats& st) {
    CatRes out;
    armAlloc(failAt, op.arg(4), true);
    cat.run(which, w, w, sel, getFail, &out);
    st = disarmAlloc();
    return out;
  };
  auto same = [](const CatRes& a, const CatRes& b) {
    return a.threw == b.threw && (a.threw || (a.hash == b.hash && a.n == b.n));
  };
  // standard streams turn a failed allocation into a truncated text: no allocation fails in calls that print
  const std::string label = name;
  const u64 allocFail = label.compare(0, 8, "io/print") == 0 || label.compare(0, 12, "io/roundtrip") == 0 ? 0 : op.arg(3);
  AllocStats st;
  const CatRes want = run(0, st);
  if (want.threw == 1) {
    violate("failure-invented", "%s reported an allocation failure that did not happen", name);
  }
  if (want.threw == 2) {
    fault("getter-failure");
  }
  if (st.attempts) {
    probe("allocating-catalogue-operation");
  }
  u64 live[3];
  for (int rep = 0; rep < 3; ++rep) {
    const CatRes got = run(allocFail, st);
    live[rep] = liveBlocks();
    note(K_RESULT, st.attempts * 4 + got.threw);
    if (got.threw == 1 && !st.failed) {
      violate("failure-invented", "%s reported an allocation failure that did not happen", name);
    }
    if (got.threw == 3 && want.threw != 3) {
      violate("other-exception", "%s turned an allocation failure into another exception", name);
    }
    if (got.threw != 1 && !same(got, want)) {
      violate("wrong-result-under-pressure", "%s returned a different result when allocation %llu failed", name,
        (unsigned long long)allocFail);
    }
    if (st.failed) {
      probe(got.threw == 1 ? "operation-failed-cleanly" : "operation-absorbed-failure");
    }
  }
  if (live[1] > live[0] && live[2] > live[1]) {
    violate("leak", "%s leaks memory", name);
  }
  if (cat.hash(w) != hash) {
    violate("operand-changed", "%s modified its operands", name);
  }
  const CatRes again = run(0, st);
  if (!same(again, want)) {
    violate("retry-differs", "%s gives a different result after a failed attempt", name);
  }
}
void setupC07(const Plan& p) {
  cat = catns::api();
  catOps = cat.count();
  for (u64 g = 0; g < 2; ++g) {
    catWorld[g] = cat.build(p.world, g);
    catHash[g] = cat.hash(catWorld[g]);
  }
}
#else
void catalogueOp(const Op&) {}
void setupC07(const Plan&) {}
#endif
void runC07(int, const Op& op, std::size_t) {
  if (op.code % A_COUNT == A_CATALOGUE) {
    return catalogueOp(op);
  }
  switch (op.arg(7) % 3) {
    case 0: return allocOp<double, 3>(op);
    case 1: return allocOp<float, 3>(op);
    default: return allocOp<double, 2>(op);
  }
}
void genC07(Rng& rng, Plan& p) {
  const u64 nt = 1 + rng.below(3);
  const u32 rate = 250 + u32(rng.below(3)) * 250;
  for (u64 t = 0; t < nt; ++t) {
    std::vector<Op> ops;
    const u64 n = 1 + rng.below(5);
    for (u64 i = 0; i < n; ++i) {
      Op o;
      o.code = rng.below(4) == 0 ? u32(A_CATALOGUE) : u32(rng.below(A_COUNT));
      o.a = {0, rng.next() >> 40, rng.below(4) ? rng.below(9) : rng.below(rng.below(12) ? 40 : 320),
        rng.chance(rate) ? 1 + rng.below(4) : 0, 1 + (rng.below(3) == 0 ? rng.below(6) : 0),
        rng.next() >> 44, rng.below(20), rng.below(3)};
      if (o.a[3] && rng.below(8) == 0) {
        o.a[3] = 1 + rng.below(40);
      }
      if (rng.below(6) == 0) {
        o.a[4] = 1000000; // no more memory at all until the operation has ended
      }
      ops.push_back(o);
    }
    p.tasks.push_back(ops);
  }
}
const char* nameC07(u32 c) { return c07Names[c % A_COUNT]; }
Reg r7({"C07", genC07, setupC07, runC07, nullptr, nameC07, 400000});

// ------------------------------------------------------------------ C08
template <typename T, std::size_t S> int lex(const vm::vec<T, S>& a, const vm::vec<T, S>& b) {
  for (std::size_t i = 0; i < S; ++i) {
    if (a.v[i] < b.v[i]) {
      return -1;
    }
    if (a.v[i] > b.v[i]) {
      return 1;
    }
  }
  return 0;
}
template <typename T, std::size_t S> bool eqVec(const vm::vec<T, S>& a, const vm::vec<T, S>& b) {
  return lex(a, b) == 0;
}

// model of a polygon: its cyclic vertex sequence, in any rotation
template <typename T, std::size_t S> struct PolySlot {
  vm::polygon<T, S> p;
  Vs<T, S> model;
  bool known = true;
};
template <typename T, std::size_t S> void checkPoly(const PolySlot<T, S>& s, const char* when) {
  if (!s.known) {
    return;
  }
  const auto& v = s.p.vertices();
  if (v.size() != s.model.size() || s.p.vertexCount() != s.model.size()) {
    violate("vertex-count", "after %s a polygon has %zu vertices, expected %zu", when, v.size(),
      s.model.size());
  }
  for (auto& x : v) {
    if (lex(x, v[0]) < 0) {
      violate("not-canonical", "after %s a polygon starts with %s although it contains %s", when,
        str(v[0]).c_str(), str(x).c_str());
    }
  }
  const std::size_t n = v.size();
  for (std::size_t rot = 0; rot < std::max<std::size_t>(n, 1); ++rot) {
    bool ok = true;
    for (std::size_t i = 0; i < n && ok; ++i) {
      ok = eqVec(v[i], s.model[(i + rot) % n]);
    }
    if (ok) {
      return;
    }
  }
  violate("vertices-changed", "after %s the polygon's cyclic vertex sequence is not what its history says", when);
}
template <typename T, std::size_t S> vm::vec<T, S> closeTo(vm::vec<T, S> v, Rng& r) {
  // a position no vertex has: every vertex of these histories is far below
  v.v[r.below(S)] = T(1e30);
  return v;
}
// what equality promises: the same cyclic sequence gives an equal polygon, wherever it starts
template <typename T, std::size_t S> void checkEqual(const PolySlot<T, S>& s, Rng& r, const char* when) {
  if (!s.known || s.model.empty()) {
    return;
  }
  std::size_t smallest = 0;
  for (std::size_t i = 1; i < s.model.size(); ++i) {
    if (lex(s.model[i], s.model[smallest]) < 0) {
      smallest = i;
    }
  }
  for (std::size_t i = 0; i < s.model.size(); ++i) {
    if (i != smallest && lex(s.model[i], s.model[smallest]) == 0) {
      return; // the smallest vertex occurs twice: the start is not determined
    }
  }
  auto turned = s.model;
  std::rotate(turned.begin(), turned.begin() + std::ptrdiff_t(r.below(turned.size())), turned.end());
  const vm::polygon<T, S> other(turned);
  if (!(other == s.p) || other != s.p || other < s.p || s.p < other || vm::compare(other, s.p) != 0) {
    violate("not-equal", "after %s a polygon differs from one built from the same cyclic vertex sequence", when);
  }
  bool distinct = true; // the orientation of a polygon that visits a vertex twice is not well defined
  for (std::size_t i = 0; i < s.model.size(); ++i) {
    for (std::size_t j = 0; j < i; ++j) {
      distinct = distinct && lex(s.model[i], s.model[j]) != 0;
    }
  }
  if (!distinct) {
    return;
  }
  if (vm::compareUnoriented(other, s.p) != 0 || vm::compareUnoriented(other.invert(), s.p) != 0) {
    violate("not-equal", "after %s a polygon differs, regardless of orientation, from one built from the same cyclic vertex sequence", when);
  }
  // one vertex replaced by another: a different polygon
  turned[r.below(turned.size())] = closeTo(turned[0], r);
  const vm::polygon<T, S> changed(turned);
  if (changed == s.p || vm::compare(changed, s.p) == 0) {
    violate("wrongly-equal", "after %s a polygon equals one with another vertex", when);
  }
  if (vm::compareUnoriented(changed, s.p) == 0 || vm::compareUnoriented(s.p, changed) == 0) {
    violate("wrongly-equal", "after %s a polygon equals, regardless of orientation, one with another vertex", when);
  }
  if (s.model.size() > 2 && other.invert() == s.p) {
    violate("wrongly-equal", "after %s a polygon equals its own inverse", when);
  }
}
template <typename T, std::size_t S> struct SegSlot {
  vm::segment<T, S> s;
  vm::vec<T, S> a, b; // a <= b
  void set(vm::vec<T, S> x, vm::vec<T, S> y) {
    if (lex(x, y) > 0) {
      std::swap(x, y);
    }
    a = x;
    b = y;
  }
};
template <typename T, std::size_t S> void checkSeg(const SegSlot<T, S>& g, const char* when) {
  if (lex(g.s.start(), g.s.end()) > 0) {
    violate("not-canonical", "after %s a segment starts at %s and ends at %s", when,
      str(g.s.start()).c_str(), str(g.s.end()).c_str());
  }
  if (!eqVec(g.s.start(), g.a) || !eqVec(g.s.end(), g.b)) {
    violate("points-changed", "after %s a segment is %s..%s, expected %s..%s", when,
      str(g.s.start()).c_str(), str(g.s.end()).c_str(), str(g.a).c_str(), str(g.b).c_str());
  }
}

template <typename T, std::size_t S> void checkEqual(const SegSlot<T, S>& g, const char* when) {
  const vm::segment<T, S> x(g.a, g.b), y(g.b, g.a);
  if (!(x == g.s) || !(y == g.s) || x != g.s || y < g.s || g.s < x || vm::compare(y, g.s) != 0) {
    violate("not-equal", "after %s a segment differs from one built from the same end points", when);
  }
}

constexpr int kPool = 4;
struct Shapes {
  PolySlot<double, 3> d[kPool];
  PolySlot<float, 3> f[kPool];
  PolySlot<double, 2> e[kPool];
  SegSlot<double, 3> sd[kPool];
  SegSlot<float, 3> sf[kPool];
};
Shapes* shapes[8];

enum {
  H_NEW,
  H_LIST,
  H_MOVED,
  H_COPY,
  H_COPYCTOR,
  H_MOVE,
  H_SELF,
  H_INVERT,
  H_TRANSLATE,
  H_TRANSFORM,
  H_TO_FLOAT,
  H_TO_DOUBLE,
  H_SEG_NEW,
  H_SEG_COPY,
  H_SEG_TRANSLATE,
  H_SEG_TRANSFORM,
  H_SEG_TO_FLOAT,
  H_SEG_TO_DOUBLE,
  H_COUNT
};
const char* c08Names[] = {"polygon-from-vector", "polygon-from-list", "polygon-from-moved-vector",
  "polygon-assign", "polygon-copy", "polygon-move", "polygon-self-assign", "polygon-invert",
  "polygon-translate", "polygon-transform", "polygon-to-float", "polygon-to-double", "segment-new",
  "segment-assign", "segment-translate", "segment-transform", "segment-to-float",
  "segment-to-double"};

// vertices that are distinct as doubles but may coincide or reorder as floats
vm::vec<double, 3> closeVec(Rng& r) {
  vm::vec<double, 3> v = dyVec<double, 3>(r);
  if (r.below(2)) {
    v.v[0] = 1.0 + double(std::int64_t(r.below(9)) - 4) * 1e-12;
  }
  if (r.below(3) == 0) {
    v.v[1] = 16777216.0 + double(r.below(4)) * 0.25;
  }
  return v;
}
// offsets: exact, or so large that vertices which differ are rounded together or apart
template <typename T, std::size_t S> vm::vec<T, S> someOffset(Rng& r) {
  vm::vec<T, S> v = dyVec<T, S>(r);
  if (r.below(2)) {
    static const double big[] = {16777216.0, 1e7, 134217728.0, 4503599627370496.0, 1e12, 0.1, 1e-9, 3e8};
    for (std::size_t i = 0; i < S; ++i) {
      if (r.below(2)) {
        v.v[i] = T(big[r.below(8)]) * (r.below(2) ? T(1) : T(-1));
      }
    }
  }
  return v;
}
// any affine matrix: rotations, shears, projections onto a plane or a line
template <typename T, std::size_t N> vm::mat<T, N, N> anyAffine(Rng& r) {
  auto m = someAffine<T, N>(r);
  switch (r.below(4)) {
    case 0: { // collapses a direction
      m.v[r.below(N - 1)] = vm::vec<T, N>();
      break;
    }
    case 1: { // rotation in a coordinate plane
      const std::size_t a = r.below(N - 1), b = (a + 1) % (N - 1);
      const double ang = r.unit() * 6.28;
      for (std::size_t i = 0; i + 1 < N; ++i) {
        for (std::size_t k = 0; k + 1 < N; ++k) {
          m.v[i].v[k] = T(i == k);
        }
      }
      m.v[a].v[a] = m.v[b].v[b] = T(std::cos(ang));
      m.v[a].v[b] = T(std::sin(ang));
      m.v[b].v[a] = T(-std::sin(ang));
      break;
    }
    case 2: {
      for (std::size_t i = 0; i + 1 < N; ++i) {
        for (std::size_t k = 0; k + 1 < N; ++k) {
          m.v[i].v[k] = T(std::int64_t(r.below(2001)) - 1000) / T(300);
        }
      }
      break;
    }
    default: {
      for (std::size_t i = 0; i + 1 < N; ++i) {
        m.v[N - 1].v[i] = someOffset<T, N - 1>(r).v[i];
      }
      break;
    }
  }
  return m;
}
// is a within rounding of the affine image b?
template <typename T, std::size_t S>
bool imageOf(const vm::mat<T, S + 1, S + 1>& m, const vm::vec<T, S>& from, const vm::vec<T, S>& got) {
  const double eps = double(std::numeric_limits<T>::epsilon()) * 32.0;
  for (std::size_t q = 0; q < S; ++q) {
    long double sum = m.v[S].v[q];
    long double mag = std::fabs((long double)m.v[S].v[q]);
    for (std::size_t c = 0; c < S; ++c) {
      sum += (long double)m.v[c].v[q] * from.v[c];
      mag += std::fabs((long double)m.v[c].v[q] * from.v[c]);
    }
    if (!(std::fabs((long double)got.v[q] - sum) <= eps * mag + 1e-30L)) {
      return false;
    }
  }
  return true;
}
template <typename T, std::size_t S> Vs<T, S> historyVerts(Rng& r, std::size_t n) {
  Vs<T, S> v;
  for (std::size_t i = 0; i < n; ++i) {
    if constexpr (std::is_same_v<T, double> && S == 3) {
      v.push_back(i && r.below(8) == 0 ? v[r.below(i)] : closeVec(r));
    } else {
      v.push_back(i && r.below(8) == 0 ? v[r.below(i)] : dyVec<T, S>(r));
    }
  }
  return v;
}

// performs `act` with allocation faults; on bad_alloc nothing may have changed
template <typename F> bool tryAct(const Op& op, const char* name, F act) {
  try {
    armAlloc(op.arg(4), 1, true);
    act();
    disarmAlloc();
    return true;
  } catch (const std::bad_alloc&) {
    const auto st = disarmAlloc();
    if (!st.failed) {
      violate("failure-invented", "%s reported an allocation failure that did not happen", name);
    }
    probe("history-continues-after-failure");
    return false;
  } catch (...) {
    disarmAlloc();
    violate("other-exception", "%s threw an unexpected exception", name);
  }
}

template <typename T, std::size_t S> void polyOp(PolySlot<T, S>* pool, const Op& op, Rng& r, const char* name) {
  using V = vm::vec<T, S>;
  using P = vm::polygon<T, S>;
  auto& x = pool[op.arg(2) % kPool];
  auto& y = pool[(op.arg(2) / kPool) % kPool];
  const std::size_t n = std::size_t(op.arg(3) % 320);
  switch (op.code % H_COUNT) {
    case H_NEW: {
      const auto v = historyVerts<T, S>(r, n);
      if (tryAct(op, name, [&] { P p(v); x.p = p; })) {
        x.model = v;
        x.known = true;
      }
      break;
    }
    case H_LIST: {
      const auto v = historyVerts<T, S>(r, 3);
      if (tryAct(op, name, [&] { x.p = P{v[0], v[1], v[2]}; })) {
        x.model = v;
        x.known = true;
      }
      break;
    }
    case H_MOVED: {
      const auto v = historyVerts<T, S>(r, n);
      auto tmp = v;
      if (tryAct(op, name, [&] { x.p = P(std::move(tmp)); })) {
        x.model = v;
        x.known = true;
      }
      break;
    }
    case H_COPY:
      if (&x != &y && y.known && tryAct(op, name, [&] { x.p = y.p; })) {
        x.model = y.model;
        x.known = true;
      }
      break;
    case H_COPYCTOR:
      if (y.known && tryAct(op, name, [&] { P c(y.p); x.p = std::move(c); })) {
        x.model = y.model;
        x.known = true;
      }
      break;
    case H_MOVE:
      if (&x != &y && y.known && tryAct(op, name, [&] { x.p = std::move(y.p); })) {
        x.model = y.model;
        x.known = true;
        y.known = false; // moved-from: unspecified until assigned again
        y.p = P();
        y.model.clear();
        y.known = true;
      }
      break;
    case H_SELF: {
      auto& ref = x.p;
      tryAct(op, name, [&] { x.p = ref; });
      break;
    }
    case H_INVERT:
      if (y.known && tryAct(op, name, [&] { x.p = y.p.invert(); })) {
        x.model = y.model;
        std::reverse(x.model.begin(), x.model.end());
        x.known = true;
      }
      break;
    case H_TRANSLATE: {
      const V off = someOffset<T, S>(r);
      if (y.known && tryAct(op, name, [&] { x.p = y.p.translate(off); })) {
        auto m = y.model;
        for (auto& v : m) {
          for (std::size_t i = 0; i < S; ++i) {
            v.v[i] = v.v[i] + off.v[i];
          }
        }
        x.model = m;
        x.known = true;
      }
      break;
    }
    case H_TRANSFORM: {
      if (r.below(2)) { // arithmetic that rounds: the image is known up to rounding only
        const auto ma = anyAffine<T, S + 1>(r);
        if (!y.known) {
          break;
        }
        const auto before = y.model;
        if (tryAct(op, name, [&] { x.p = y.p.transform(ma); })) {
          const auto& got = x.p.vertices();
          const std::size_t nv = before.size();
          bool found = got.size() == nv && nv == 0;
          for (std::size_t rot = 0; got.size() == nv && rot < nv && !found; ++rot) {
            found = true;
            for (std::size_t i = 0; i < nv && found; ++i) {
              found = imageOf<T, S>(ma, before[(i + rot) % nv], got[i]);
            }
          }
          if (!found) {
            violate("vertices-changed", "%s did not transform the cyclic vertex sequence", name);
          }
          x.model = got; // its canonical form is checked below
          x.known = true;
          probe("rounding-transform");
        }
        break;
      }
      const auto mt = someAffine<T, S + 1>(r);
      // exactness: only on vertices with few bits
      bool exact = true;
      for (auto& v : y.model) {
        for (std::size_t i = 0; i < S; ++i) {
          exact = exact && std::fabs(double(v.v[i])) < 4096.0 && std::floor(double(v.v[i]) * 8) == double(v.v[i]) * 8;
        }
      }
      if (exact && y.known && tryAct(op, name, [&] { x.p = y.p.transform(mt); })) {
        auto m = y.model;
        for (auto& v : m) {
          v = applyAffine<T, S>(mt, v);
        }
        x.model = m;
        x.known = true;
        probe("exact-transform");
      }
      break;
    }
    default: break;
  }
}

void runC08(int task, const Op& op, std::size_t) {
  Shapes& s = *shapes[task];
  Rng r(op.arg(1));
  const u32 code = op.code % H_COUNT;
  const char* name = c08Names[code];
  if (code < H_TO_FLOAT) {
    switch (op.arg(0) % 3) {
      case 0: polyOp(s.d, op, r, name); break;
      case 1: polyOp(s.f, op, r, name); break;
      default: polyOp(s.e, op, r, name); break;
    }
  } else {
    const std::size_t xi = op.arg(2) % kPool, yi = (op.arg(2) / kPool) % kPool;
    switch (code) {
      case H_TO_FLOAT:
        if (tryAct(op, name, [&] { s.f[xi].p = vm::polygon<float, 3>(s.d[yi].p); })) {
          s.f[xi].model.clear();
          for (auto& v : s.d[yi].model) {
            s.f[xi].model.push_back(vm::vec<float, 3>(float(v.v[0]), float(v.v[1]), float(v.v[2])));
          }
        }
        break;
      case H_TO_DOUBLE:
        if (tryAct(op, name, [&] { s.d[xi].p = vm::polygon<double, 3>(s.f[yi].p); })) {
          s.d[xi].model.clear();
          for (auto& v : s.f[yi].model) {
            s.d[xi].model.push_back(vm::vec<double, 3>(double(v.v[0]), double(v.v[1]), double(v.v[2])));
          }
        }
        break;
      case H_SEG_NEW: {
        const auto a = closeVec(r), b = closeVec(r);
        if (op.arg(0) & 1) {
          const vm::vec<float, 3> fa(float(a.v[0]), float(a.v[1]), float(a.v[2])), fb(float(b.v[0]), float(b.v[1]), float(b.v[2]));
          s.sf[xi].s = vm::segment<float, 3>(fa, fb);
          s.sf[xi].set(fa, fb);
        } else {
          s.sd[xi].s = vm::segment<double, 3>(a, b);
          s.sd[xi].set(a, b);
        }
        break;
      }
      case H_SEG_COPY:
        s.sd[xi] = s.sd[yi];
        s.sf[xi] = s.sf[yi];
        break;
      case H_SEG_TRANSLATE: {
        const auto off = someOffset<double, 3>(r);
        if (r.below(2)) {
          const vm::vec<float, 3> fo = someOffset<float, 3>(r);
          const auto g = s.sf[yi];
          SegSlot<float, 3> o;
          o.s = (op.arg(0) & 1) ? vm::translate(g.s, fo) : g.s.translate(fo);
          o.set(g.a + fo, g.b + fo);
          s.sf[xi] = o;
        }
        const auto& g = s.sd[yi];
        const auto t = (op.arg(0) & 1) ? vm::translate(g.s, off) : g.s.translate(off);
        SegSlot<double, 3> o;
        o.s = t;
        vm::vec<double, 3> a = g.a, b = g.b;
        for (int i = 0; i < 3; ++i) {
          a.v[i] += off.v[i];
          b.v[i] += off.v[i];
        }
        o.set(a, b);
        s.sd[xi] = o;
        break;
      }
      case H_SEG_TRANSFORM: {
        const auto mt = someAffine<double, 4>(r);
        const auto& g = s.sd[yi];
        if (r.below(2)) { // arithmetic that rounds
          const auto ma = anyAffine<double, 4>(r);
          SegSlot<double, 3> o;
          o.s = g.s.transform(ma);
          const bool straight = imageOf<double, 3>(ma, g.a, o.s.start()) && imageOf<double, 3>(ma, g.b, o.s.end());
          const bool crossed = imageOf<double, 3>(ma, g.b, o.s.start()) && imageOf<double, 3>(ma, g.a, o.s.end());
          if (!straight && !crossed) {
            violate("points-changed", "%s did not transform the end points", name);
          }
          o.a = o.s.start(); // their order is checked below
          o.b = o.s.end();
          s.sd[xi] = o;
          break;
        }
        bool exact = true;
        for (int i = 0; i < 3; ++i) {
          for (double v : {g.a.v[i], g.b.v[i]}) {
            exact = exact && std::fabs(v) < 4096.0 && std::floor(v * 8) == v * 8;
          }
        }
        if (exact) {
          SegSlot<double, 3> o;
          o.s = g.s.transform(mt);
          o.set(applyAffine<double, 3>(mt, g.a), applyAffine<double, 3>(mt, g.b));
          s.sd[xi] = o;
        }
        break;
      }
      case H_SEG_TO_FLOAT: {
        const auto& g = s.sd[yi];
        SegSlot<float, 3> o;
        o.s = vm::segment<float, 3>(g.s);
        o.set(vm::vec<float, 3>(float(g.a.v[0]), float(g.a.v[1]), float(g.a.v[2])),
          vm::vec<float, 3>(float(g.b.v[0]), float(g.b.v[1]), float(g.b.v[2])));
        s.sf[xi] = o;
        break;
      }
      default: {
        const auto& g = s.sf[yi];
        SegSlot<double, 3> o;
        o.s = vm::segment<double, 3>(g.s);
        o.set(vm::vec<double, 3>(double(g.a.v[0]), double(g.a.v[1]), double(g.a.v[2])),
          vm::vec<double, 3>(double(g.b.v[0]), double(g.b.v[1]), double(g.b.v[2])));
        s.sd[xi] = o;
        break;
      }
    }
  }
  note(K_RESULT, code);
  for (int i = 0; i < kPool; ++i) {
    checkPoly(s.d[i], name);
    checkPoly(s.f[i], name);
    checkPoly(s.e[i], name);
    checkSeg(s.sd[i], name);
    checkSeg(s.sf[i], name);
    checkEqual(s.d[i], r, name);
    checkEqual(s.f[i], r, name);
    checkEqual(s.e[i], r, name);
    checkEqual(s.sd[i], name);
    checkEqual(s.sf[i], name);
  }
}
void setupC08(const Plan& p) {
  for (std::size_t i = 0; i < p.tasks.size(); ++i) {
    shapes[i] = new Shapes;
  }
}
void genC08(Rng& rng, Plan& p) {
  const u64 nt = 1 + rng.below(2);
  const u32 rate = u32(rng.below(4)) * 150;
  for (u64 t = 0; t < nt; ++t) {
    std::vector<Op> ops;
    const u64 n = 2 + rng.below(14);
    for (u64 i = 0; i < n; ++i) {
      Op o;
      o.code = rng.below(3) == 0 ? u32(rng.below(3) * 6 % 13) : u32(rng.below(H_COUNT));
      o.a = {rng.below(4) ? rng.below(3) : 0, rng.next() >> 40, rng.below(16), rng.below(15) ? rng.below(12) : rng.below(rng.below(4) ? 40 : 320),
        rng.chance(rate) ? 1 + rng.below(3) : 0};
      ops.push_back(o);
    }
    p.tasks.push_back(ops);
  }
}
const char* nameC08(u32 c) { return c08Names[c % H_COUNT]; }
Reg r8({"C08", genC08, setupC08, runC08, nullptr, nameC08, 400000});
} // namespace
