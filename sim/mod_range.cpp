// C04: delivery to outputs.  C05: consumption of ranges.  C06: visitation of a
// box by callbacks.  C09: incremental bounds over histories with failing sources.
#include "sim.h"
#include "val.h"

#include <algorithm>
#include <array>
#include <iterator>
#include <limits>
#include <string_view>
#include <vector>

#include <vecmath/bbox.h>
#include <vecmath/intersection.h>
#include <vecmath/plane.h>
#include <vecmath/polygon.h>
#include <vecmath/segment.h>
#include <vecmath/vec.h>
#include <vecmath/vec_io.h>

namespace {
using namespace sim;

// ------------------------------------------------------------------ sources
// A single-pass source: advancing it invalidates every earlier copy of the
// iterator. Any read of a stale copy or past the end is a violation.
// The element it gives out lies in a slot of the source and is overwritten when it is advanced.
template <typename V> struct Elem {
  V point;
  V decoy; // what a caller would get if the getter were skipped or misapplied
  u64 id = 0;
};
template <typename T, std::size_t S> void scribble(vm::vec<T, S>& v) {
  for (std::size_t i = 0; i < S; ++i) {
    v.v[i] = T(54321);
  }
}
template <typename V> void scribble(Elem<V>& e) {
  e.point = e.decoy;
  scribble(e.decoy);
  e.id = ~0ull;
}
template <typename T, std::size_t S> void scribble(vm::bbox<T, S>& b) {
  scribble(b.min);
  scribble(b.max);
}
template <typename T, std::size_t S> void scribble(vm::segment<T, S>& s) {
  vm::vec<T, S> v;
  scribble(v);
  s = vm::segment<T, S>(v, v);
}
template <typename T, std::size_t S> void scribble(vm::polygon<T, S>& p) {
  p = vm::polygon<T, S>();
}
template <typename E> struct Source {
  std::vector<E> items;
  E slot{};
  bool slotFull = false;
  std::size_t pos = 0;
  u64 failRead = 0; // 1-based position whose read fails
  u64 failNext = 0; // 1-based advance that fails
  u64 advances = 0;
  bool failed = false;
  u64 maxRead = 0; // number of items ever read
  const char* what = "range";
};
template <typename E> struct Once {
  E value;
  const E& operator*() const { return value; }
};
template <typename E> struct InIt {
  using iterator_category = std::input_iterator_tag;
  using value_type = E;
  using difference_type = std::ptrdiff_t;
  using pointer = const E*;
  using reference = const E&;
  Source<E>* s = nullptr; // null: end
  std::size_t at = 0;
  void check(const char* how) const {
    if (!s) {
      violate("used-end", "%s the end of a range", how);
    }
    if (s->failed) {
      violate("used-after-failure", "%s a source that has already failed", how);
    }
    if (at != s->pos) {
      violate("second-pass", "%s position %zu of a single-pass source that is already at %zu", how,
        at, s->pos);
    }
    if (s->pos >= s->items.size()) {
      violate("past-end", "%s past the end of a range of %zu", how, s->items.size());
    }
  }
  const E& operator*() const {
    check("read");
    yield(K_READ, s->pos);
    if (s->failRead && s->pos + 1 == s->failRead) {
      s->failed = true;
      fault("source-read-failure");
      throwFault(2);
    }
    s->maxRead = std::max<u64>(s->maxRead, s->pos + 1);
    if (!s->slotFull) {
      s->slot = s->items[s->pos];
      s->slotFull = true;
    }
    return s->slot;
  }
  const E* operator->() const { return &**this; }
  InIt& operator++() {
    check("advanced");
    yield(K_INC, s->pos);
    ++s->advances;
    if (s->failNext && s->advances == s->failNext) {
      s->failed = true;
      fault("source-advance-failure");
      throwFault(3);
    }
    ++s->pos;
    ++at;
    s->slotFull = false;
    scribble(s->slot);
    return *this;
  }
  Once<E> operator++(int) {
    Once<E> o{**this};
    ++*this;
    return o;
  }
  bool atEnd() const { return !s || (at >= s->items.size()); }
  friend bool operator==(const InIt& a, const InIt& b) {
    return a.atEnd() && b.atEnd() ? true : a.s == b.s && a.at == b.at;
  }
  friend bool operator!=(const InIt& a, const InIt& b) { return !(a == b); }
};

// A multi-pass source (for functions that need two passes).
template <typename E> struct FwdIt {
  using iterator_category = std::forward_iterator_tag;
  using value_type = E;
  using difference_type = std::ptrdiff_t;
  using pointer = const E*;
  using reference = const E&;
  Source<E>* s = nullptr;
  std::size_t at = 0;
  const E& operator*() const {
    if (!s || at >= s->items.size()) {
      violate("past-end", "read past the end of a range");
    }
    if (s->failed) {
      violate("used-after-failure", "read a source that has already failed");
    }
    yield(K_READ, at);
    if (s->failRead && at + 1 == s->failRead) {
      s->failed = true;
      fault("source-read-failure");
      throwFault(2);
    }
    s->maxRead = std::max<u64>(s->maxRead, at + 1);
    return s->items[at];
  }
  const E* operator->() const { return &**this; }
  FwdIt& operator++() {
    if (!s || at >= s->items.size()) {
      violate("past-end", "advanced past the end of a range");
    }
    ++at;
    return *this;
  }
  FwdIt operator++(int) {
    FwdIt o = *this;
    ++*this;
    return o;
  }
  friend bool operator==(const FwdIt& a, const FwdIt& b) { return a.at == b.at; }
  friend bool operator!=(const FwdIt& a, const FwdIt& b) { return !(a == b); }
};

template <typename V> struct GetState {
  std::vector<u64> calls;
  u64 failAt = 0;
  bool failed = false;
  bool nested = false;
};
template <typename V, typename R = V> struct Getter {
  GetState<V>* st;
  R operator()(const Elem<V>& e) const {
    if (st->failed) {
      violate("getter-after-failure", "the getter was called again after it had failed");
    }
    yield(K_GET, e.id);
    if (st->failAt && st->calls.size() + 1 == st->failAt) {
      st->failed = true;
      fault("getter-failure");
      throwFault(4);
    }
    st->calls.push_back(e.id);
    if (st->nested) { // a getter that uses the library itself
      std::vector<V> two{e.point, e.point};
      fault("getter-reenters-library");
      const V a = vm::average(two.begin(), two.end());
      if (!(a == e.point)) {
        violate("reentrant-getter", "average used inside a getter gave a wrong result");
      }
    }
    return e.point;
  }
};
template <typename V> void checkGetter(const GetState<V>& g, std::size_t upTo, bool exact, const char* fn) {
  for (std::size_t i = 0; i < g.calls.size(); ++i) {
    if (g.calls[i] != i) {
      violate("getter-order", "%s: getter call %zu was for element %llu", fn, i,
        (unsigned long long)g.calls[i]);
    }
  }
  if (exact ? g.calls.size() != upTo : g.calls.size() > upTo) {
    violate("getter-count", "%s: getter was called %zu times for %zu elements", fn, g.calls.size(),
      upTo);
  }
}

template <typename T> T dyadic(Rng& r) { return T(std::int64_t(r.below(4001)) - 2000) / T(16); }
template <typename T, std::size_t S> vm::vec<T, S> dyVec(Rng& r) {
  vm::vec<T, S> v;
  for (std::size_t i = 0; i < S; ++i) {
    v.v[i] = r.below(5) == 0 ? T(std::int64_t(r.below(5)) - 2) : dyadic<T>(r);
  }
  return v;
}

template <typename T, std::size_t S> using Points = Source<Elem<vm::vec<T, S>>>;

template <typename T, std::size_t S> Points<T, S> makePoints(Rng& r, std::size_t n) {
  Points<T, S> s;
  for (std::size_t i = 0; i < n; ++i) {
    Elem<vm::vec<T, S>> e;
    e.point = dyVec<T, S>(r);
    if (i && r.below(8) == 0) {
      e.point = s.items[r.below(i)].point; // duplicates
    }
    e.decoy = dyVec<T, S>(r);
    e.id = i;
    s.items.push_back(e);
  }
  return s;
}

struct Faults {
  u64 read, next, get;
  bool nested;
  u32 kind;
};

// Runs f and says whether an injected fault came out of it. Any other exception,
// or a swallowed fault, is a violation.
template <typename F, typename S, typename G>
bool guarded(const char* fn, S& src, G& gs, F f) {
  bool threw = false;
  try {
    f();
  } catch (const Fault& e) {
    sameFault(e, fn);
    threw = true;
  } catch (...) {
    violate("other-exception", "%s replaced the caller's failure by another exception", fn);
  }
  const bool injected = src.failed || gs.failed;
  if (injected && !threw) {
    violate("failure-swallowed", "%s completed although its source failed", fn);
  }
  if (!injected && threw) {
    violate("failure-invented", "%s failed although its source did not", fn);
  }
  return threw;
}

// Runs f over the source with a getter by value (0) or by reference (1), or over the points themselves
// without a getter (2).
enum { G_VALUE, G_REF, G_NONE };
template <template <typename> class It, bool sized, typename V, typename F>
bool overRange(const char* name, Source<Elem<V>>& src, GetState<V>& gs, u32 kind, F f) {
  using E = Elem<V>;
  auto last = [](auto& s) {
    using I = It<typename std::decay_t<decltype(s.items)>::value_type>;
    return sized ? I{&s, s.items.size()} : I{};
  };
  if (kind == G_VALUE) {
    return guarded(name, src, gs, [&] { f(It<E>{&src, 0}, last(src), Getter<V>{&gs}); });
  }
  if (kind == G_REF) {
    return guarded(name, src, gs, [&] { f(It<E>{&src, 0}, last(src), Getter<V, const V&>{&gs}); });
  }
  Source<V> ps;
  for (const auto& e : src.items) {
    ps.items.push_back(e.point);
  }
  ps.failRead = src.failRead;
  ps.failNext = src.failNext;
  gs.failAt = 0;
  const bool threw = guarded(name, ps, gs, [&] { f(It<V>{&ps, 0}, last(ps)); });
  src.failed = ps.failed;
  src.maxRead = ps.maxRead;
  return threw;
}

// ------------------------------------------------------------------ C05
enum {
  F_MERGE_ALL,
  F_AVERAGE,
  F_COMPARE,
  F_FROM_POINTS,
  F_CONTAINS_AXIS,
  F_CONTAINS_NORMAL,
  F_CONTAINS,
  F_RAY_POLYGON,
  F_RAY_POLYGON_PLANE,
  F_BUILDER,
  F_COUNT
};
const char* c05Names[] = {"merge_all", "average", "compare-ranges", "from_points",
  "polygon_contains_point-axis", "polygon_contains_point-normal", "polygon_contains_point",
  "intersect_ray_polygon", "intersect_ray_polygon-plane", "builder-add-range"};

template <typename T, std::size_t S> void rangeMergeAll(Rng& r, std::size_t n, const Faults& f) {
  using V = vm::vec<T, S>;
  auto src = makePoints<T, S>(r, n ? n : 1);
  src.failRead = f.read;
  src.failNext = f.next;
  GetState<V> gs;
  gs.failAt = f.get;
  gs.nested = f.nested;
  vm::bbox<T, S> b;
  const bool threw = overRange<InIt, false>("merge_all", src, gs, f.kind,
    [&](auto cur, auto end, auto... get) { b = vm::bbox<T, S>::merge_all(cur, end, get...); });
  if (f.kind != G_NONE) {
    checkGetter(gs, src.items.size(), !threw, "merge_all");
  }
  if (!threw) {
    V lo = src.items[0].point, hi = lo;
    for (auto& e : src.items) {
      for (std::size_t i = 0; i < S; ++i) {
        lo.v[i] = std::min(lo.v[i], e.point.v[i]);
        hi.v[i] = std::max(hi.v[i], e.point.v[i]);
      }
    }
    for (std::size_t i = 0; i < S; ++i) {
      if (b.min.v[i] != lo.v[i] || b.max.v[i] != hi.v[i]) {
        violate("wrong-result", "merge_all of %zu points gives %s..%s, expected %s..%s",
          src.items.size(), str(b.min).c_str(), str(b.max).c_str(), str(lo).c_str(), str(hi).c_str());
      }
    }
  }
}

template <typename T, std::size_t S> void rangeAverage(Rng& r, std::size_t n, const Faults& f) {
  using V = vm::vec<T, S>;
  auto src = makePoints<T, S>(r, n ? n : 1);
  src.failRead = f.read;
  src.failNext = f.next;
  GetState<V> gs;
  gs.failAt = f.get;
  gs.nested = f.nested;
  V got;
  const bool threw = overRange<InIt, false>("average", src, gs, f.kind,
    [&](auto cur, auto end, auto... get) { got = vm::average(cur, end, get...); });
  if (f.kind != G_NONE) {
    checkGetter(gs, src.items.size(), !threw, "average");
  }
  if (!threw) {
    for (std::size_t i = 0; i < S; ++i) {
      double sum = 0.0; // exact: the inputs are multiples of 1/16
      for (auto& e : src.items) {
        sum += double(e.point.v[i]);
      }
      const double want = sum / double(src.items.size());
      if (!(std::fabs(double(got.v[i]) - want) <= 1e-3)) {
        violate("wrong-result", "average of %zu points has component %zu = %s, expected about %s",
          src.items.size(), i, str(got.v[i]).c_str(), str(want).c_str());
      }
    }
  }
}

template <typename T, std::size_t S> int refCompare(const vm::vec<T, S>& a, const vm::vec<T, S>& b, T eps) {
  for (std::size_t i = 0; i < S; ++i) {
    if (a.v[i] < b.v[i] - eps) {
      return -1;
    }
    if (a.v[i] > b.v[i] + eps) {
      return 1;
    }
  }
  return 0;
}

template <typename T, std::size_t S> void rangeCompare(Rng& r, std::size_t n, const Faults& f) {
  using V = vm::vec<T, S>;
  Source<V> a, b;
  const std::size_t m = n + (r.below(2) ? 0 : r.below(4));
  for (std::size_t i = 0; i < n; ++i) {
    a.items.push_back(dyVec<T, S>(r));
  }
  b.items = a.items;
  b.items.resize(std::min(n, m));
  while (b.items.size() < m) {
    b.items.push_back(dyVec<T, S>(r));
  }
  const T eps = r.below(2) ? T(0) : T(0.0625);
  if (!b.items.empty() && r.below(2)) {
    auto& v = b.items[r.below(b.items.size())];
    v.v[r.below(S)] += T(std::int64_t(r.below(5)) - 2) / T(16);
  }
  if (r.below(2)) {
    std::swap(a.items, b.items);
  }
  (r.below(2) ? a : b).failRead = f.read;
  (r.below(2) ? a : b).failNext = f.next;
  int want = 0;
  for (std::size_t i = 0; i < a.items.size() && i < b.items.size() && !want; ++i) {
    want = refCompare(a.items[i], b.items[i], eps);
  }
  if (!want) {
    want = a.items.size() < b.items.size() ? -1 : a.items.size() > b.items.size() ? 1 : 0;
  }
  int got = 0;
  bool threw = false;
  try {
    using It = InIt<V>;
    got = vm::compare(It{&a, 0}, It{}, It{&b, 0}, It{}, eps);
  } catch (const Fault& e) {
    sameFault(e, "compare of ranges");
    threw = true;
  } catch (...) {
    violate("other-exception", "compare replaced the caller's failure by another exception");
  }
  if (threw != (a.failed || b.failed)) {
    violate("failure-swallowed", "compare of ranges hid or invented a source failure");
  }
  if (!threw && (got < 0 ? -1 : got > 0 ? 1 : 0) != want) {
    violate("wrong-result", "compare of ranges of %zu and %zu gives %d, expected %d", a.items.size(),
      b.items.size(), got, want);
  }
}

template <typename T> void rangeFromPoints(Rng& r, std::size_t n, const Faults& f) {
  using V = vm::vec<T, 3>;
  auto src = makePoints<T, 3>(r, n);
  src.failRead = f.read;
  src.failNext = f.next;
  GetState<V> gs;
  gs.failAt = f.get;
  gs.nested = f.nested;
  bool valid = false;
  vm::plane<T, 3> p;
  const bool threw = overRange<InIt, false>("from_points", src, gs, f.kind, [&](auto cur, auto end, auto... get) {
    const auto t = vm::from_points(cur, end, get...);
    valid = std::get<0>(t);
    p = std::get<1>(t);
  });
  checkGetter(gs, 3, false, "from_points");
  if (src.maxRead > 3) {
    violate("over-read", "from_points read %llu elements", (unsigned long long)src.maxRead);
  }
  if (!threw) {
    if (n < 3) {
      if (valid) {
        violate("wrong-result", "from_points reports a plane for %zu points", n);
      }
    } else {
      const auto t = vm::from_points(src.items[0].point, src.items[1].point, src.items[2].point);
      const auto& q = std::get<1>(t);
      bool differ = valid != std::get<0>(t);
      for (std::size_t i = 0; valid && !differ && i < 3; ++i) {
        differ = !(std::fabs(double(p.normal.v[i]) - double(q.normal.v[i])) <= 1e-3);
      }
      if (valid && !differ) {
        differ = !(std::fabs(double(p.distance) - double(q.distance)) <= 1e-3 * (1.0 + std::fabs(double(q.distance))));
      }
      if (differ) {
        violate("wrong-result", "from_points over a range differs from from_points of its first three points");
      }
      probe(valid ? "plane-from-range" : "degenerate-plane-from-range");
    }
  }
}

// A convex or star-shaped polygon in an axis-aligned plane and a point whose position is beyond doubt.
template <typename T> void polygonCase(
  Rng& r, std::size_t n, std::vector<Elem<vm::vec<T, 3>>>& verts, vm::vec<T, 3>& p, vm::vec<T, 3>& normal,
  std::size_t& axis, bool& inside, bool planeKnown) {
  axis = r.below(3);
  // where the function derives the plane from the first vertices, they must not be nearly collinear
  const std::size_t k = std::max<std::size_t>(3, std::min<std::size_t>(n, planeKnown ? 400 : 9));
  const bool star = planeKnown && k >= 5 && r.below(2);
  const double cx = double(std::int64_t(r.below(41)) - 20), cy = double(std::int64_t(r.below(41)) - 20),
               cz = double(std::int64_t(r.below(41)) - 20);
  const double rad = 4.0 + double(r.below(60));
  const double ph = r.unit();
  const bool cw = r.below(2);
  auto place = [&](double u, double v) {
    vm::vec<T, 3> q;
    q.v[axis] = T(cz);
    q.v[(axis + 1) % 3] = T(u);
    q.v[(axis + 2) % 3] = T(v);
    return q;
  };
  for (std::size_t i = 0; i < k; ++i) {
    const double a = (double(cw ? k - i : i) + ph) * 6.283185307179586 / double(k);
    Elem<vm::vec<T, 3>> e;
    const double rk = star ? rad * (0.6 + 0.7 * r.unit()) : rad;
    e.point = place(cx + rk * std::cos(a), cy + rk * std::sin(a));
    e.decoy = vm::vec<T, 3>(T(1e4), T(1e4), T(1e4));
    e.id = i;
    verts.push_back(e);
  }
  inside = r.below(2);
  const double ang = r.unit() * 6.283185307179586;
  const double d = inside ? rad * 0.3 * r.unit() : rad * (1.5 + r.unit());
  p = place(cx + d * std::cos(ang), cy + d * std::sin(ang));
  normal = vm::vec<T, 3>();
  normal.v[axis] = cw ? T(-1) : T(1);
}

template <typename T> void rangeContains(u32 fn, Rng& r, std::size_t n, const Faults& f) {
  using V = vm::vec<T, 3>;
  using E = Elem<V>;
  Source<E> src;
  V p, normal;
  std::size_t axis = 0;
  bool inside = false;
  polygonCase<T>(r, n, src.items, p, normal, axis, inside, fn != F_CONTAINS && fn != F_RAY_POLYGON);
  src.failRead = f.read;
  src.failNext = f.next;
  GetState<V> gs;
  gs.failAt = f.get;
  gs.nested = f.nested;
  bool got = false;
  const char* name = c05Names[fn];
  const bool twoPass = fn == F_CONTAINS || fn == F_RAY_POLYGON;
  vm::ray<T, 3> ray;
  const T away = T(8);
  ray.origin = p + normal * away;
  ray.direction = -normal;
  T dist = T(0);
  bool onVertex = false;
  if ((fn == F_CONTAINS_AXIS || fn == F_CONTAINS_NORMAL || fn == F_CONTAINS) && r.below(4) == 0) {
    p = src.items[r.below(src.items.size())].point;
    inside = onVertex = true;
    probe("point-on-vertex");
  }
  const vm::plane<T, 3> pl(src.items[0].point, normal);
  bool threw = false;
  if (twoPass) {
    threw = overRange<FwdIt, true>(name, src, gs, f.kind, [&](auto cur, auto end, auto... get) {
      if (fn == F_CONTAINS) {
        got = vm::polygon_contains_point(p, cur, end, get...);
      } else {
        dist = vm::intersect_ray_polygon(ray, cur, end, get...);
      }
    });
  } else {
    threw = overRange<InIt, false>(name, src, gs, f.kind, [&](auto cur, auto end, auto... get) {
      if (fn == F_CONTAINS_AXIS) {
        got = vm::polygon_contains_point(p, vm::axis::type(axis), cur, end, get...);
      } else if (fn == F_CONTAINS_NORMAL) {
        got = vm::polygon_contains_point(p, normal, cur, end, get...);
      } else {
        dist = vm::intersect_ray_polygon(ray, pl, cur, end, get...);
      }
    });
  }
  if (f.kind == G_NONE) {
  } else if (!twoPass) {
    checkGetter(gs, src.items.size(), !threw && !onVertex, name); // a clear case: no early exit can apply
  } else {
    // three elements may be looked at in a pass of their own
    if (gs.calls.size() > src.items.size() + 3) {
      violate("getter-count", "%s: getter was called %zu times for %zu elements", name, gs.calls.size(), src.items.size());
    }
    std::vector<bool> used(src.items.size());
    for (auto id : gs.calls) {
      used[std::size_t(id)] = true;
    }
    if (!threw && !onVertex && std::find(used.begin(), used.end(), false) != used.end()) {
      violate("getter-count", "%s did not look at every element", name);
    }
  }
  if (!threw) {
    if (fn == F_RAY_POLYGON || fn == F_RAY_POLYGON_PLANE) {
      got = dist == dist;
      if (got && !(std::fabs(double(dist) - 8.0) < 1e-2)) {
        violate("wrong-result", "%s reports distance %s instead of about 8", name, str(dist).c_str());
      }
    }
    if (got != inside) {
      violate("wrong-result", "%s reports %s for a point clearly %s the polygon of %zu vertices", name,
        got ? "inside" : "outside", inside ? "inside" : "outside", src.items.size());
    }
  }
}

template <typename T, std::size_t S> void rangeBuilder(Rng& r, std::size_t n, const Faults& f) {
  using V = vm::vec<T, S>;
  auto src = makePoints<T, S>(r, n);
  src.failRead = f.read;
  src.failNext = f.next;
  GetState<V> gs;
  gs.failAt = f.get;
  gs.nested = f.nested;
  typename vm::bbox<T, S>::builder b;
  const bool threw = overRange<InIt, false>("builder.add", src, gs, f.kind,
    [&](auto cur, auto end, auto... get) { b.add(cur, end, get...); });
  if (f.kind != G_NONE) {
    checkGetter(gs, src.items.size(), !threw, "builder.add");
  }
  const std::size_t took = f.kind != G_NONE ? gs.calls.size() : std::size_t(src.maxRead);
  if (threw && !gs.failed && src.failNext && took == src.failNext) {
    return; // advancing failed: the element before it may have been added or not
  }
  if (b.initialized() != (took > 0)) {
    violate("wrong-result", "builder.add of %zu points reports initialized=%d", took, int(b.initialized()));
  }
  for (std::size_t i = 0; took && i < S; ++i) {
    T lo = src.items[0].point.v[i], hi = lo;
    for (std::size_t k = 0; k < took; ++k) {
      lo = std::min(lo, src.items[k].point.v[i]);
      hi = std::max(hi, src.items[k].point.v[i]);
    }
    if (b.bounds().min.v[i] != lo || b.bounds().max.v[i] != hi) {
      violate("wrong-result", "builder.add of %zu points (%s) gives wrong bounds", took,
        threw ? "then its source failed" : "complete");
    }
  }
}

void runC05(int, const Op& op, std::size_t) {
  Rng r(op.arg(1));
  const bool anyLength = op.code == F_MERGE_ALL || op.code == F_AVERAGE || op.code == F_COMPARE || op.code == F_BUILDER;
  const std::size_t n = std::size_t(op.arg(2) % (anyLength && op.arg(7) != 1 ? 70000 : 700));
  const Faults f{op.arg(3), op.arg(4), op.arg(5), op.arg(6) != 0, u32(op.arg(8) % 3)};
  const u32 v = u32(op.arg(7) % 3);
  note(K_RESULT, op.code);
  switch (op.code % F_COUNT) {
    case F_MERGE_ALL:
      return v == 0 ? rangeMergeAll<double, 3>(r, n, f) : v == 1 ? rangeMergeAll<float, 3>(r, n, f) : rangeMergeAll<double, 2>(r, n, f);
    case F_AVERAGE:
      return v == 0 ? rangeAverage<double, 3>(r, n, f) : v == 1 ? rangeAverage<float, 3>(r, n, f) : rangeAverage<double, 2>(r, n, f);
    case F_COMPARE:
      return v == 0 ? rangeCompare<double, 3>(r, n, f) : v == 1 ? rangeCompare<float, 2>(r, n, f) : rangeCompare<double, 4>(r, n, f);
    case F_FROM_POINTS: return v == 1 ? rangeFromPoints<float>(r, n, f) : rangeFromPoints<double>(r, n, f);
    case F_BUILDER: return v == 0 ? rangeBuilder<double, 3>(r, n, f) : v == 1 ? rangeBuilder<float, 3>(r, n, f) : rangeBuilder<double, 2>(r, n, f);
    default: return v == 1 ? rangeContains<float>(op.code % F_COUNT, r, n, f) : rangeContains<double>(op.code % F_COUNT, r, n, f);
  }
}
void genC05(Rng& rng, Plan& p) {
  if (rng.below(400) == 0) { // a very long range, alone
    Op o;
    static const u32 longs[] = {F_MERGE_ALL, F_AVERAGE, F_COMPARE, F_BUILDER};
    o.code = longs[rng.below(4)];
    const u64 len = rng.below(3) ? 65530 + rng.below(200) : 4090 + rng.below(12);
    o.a = {0, rng.next() >> 40, len, 0, 0, 0, 0, rng.below(2) * 2, rng.below(3)};
    if (rng.below(2)) {
      o.a[3 + rng.below(3)] = 1 + rng.below(len);
    }
    p.tasks.push_back({o});
    return;
  }
  const u64 nt = 1 + rng.below(3);
  const u32 rate = u32(rng.below(4)) * 250;
  for (u64 t = 0; t < nt; ++t) {
    std::vector<Op> ops;
    const u64 n = 1 + rng.below(5);
    for (u64 i = 0; i < n; ++i) {
      Op o;
      o.code = u32(rng.below(F_COUNT));
      const u64 len = rng.below(4) == 0 ? (rng.below(6) == 0 ? rng.below(600) : rng.below(70)) : rng.below(9);
      o.a = {0, rng.next() >> 40, len, 0, 0, 0, 0, rng.below(3), rng.below(3)};
      if (rng.chance(rate)) {
        const u64 k = 1 + rng.below(len + 1);
        o.a[3 + rng.below(3)] = k;
      }
      o.a[6] = rng.chance(rate / 10);
      ops.push_back(o);
    }
    p.tasks.push_back(ops);
  }
}
const char* nameC05(u32 c) { return c05Names[c % F_COUNT]; }
Reg r5({"C05", genC05, nullptr, runC05, nullptr, nameC05, 1000000});

// ------------------------------------------------------------------ C04
template <typename V> struct Channel {
  std::vector<V> got;
  u64 failAt = 0;
  bool failed = false;
  bool nested = false;
  u64 limit = ~0ull;
};
template <typename V> struct OutIt {
  using iterator_category = std::output_iterator_tag;
  using value_type = void;
  using difference_type = std::ptrdiff_t;
  using pointer = void;
  using reference = void;
  Channel<V>* c;
  OutIt& operator=(const V& v) {
    if (c->failed) {
      violate("delivery-after-failure", "a value was delivered to an output that had failed");
    }
    yield(K_OUT, c->got.size());
    if (c->failAt && c->got.size() + 1 == c->failAt) {
      c->failed = true;
      fault("output-failure");
      throwFault(5);
    }
    c->got.push_back(v);
    if (c->got.size() > c->limit) {
      violate("too-many-deliveries", "more than %llu values delivered", (unsigned long long)c->limit);
    }
    if (c->nested) { // an output that uses the same functions
      c->nested = false;
      fault("output-reenters-library");
      Channel<vm::vec<double, 2>> inner;
      vm::parse_all<double, 2>(std::string_view("1 2, 3 4"), OutIt<vm::vec<double, 2>>{&inner});
      if (inner.got.size() != 2 || inner.got[1].v[1] != 4.0) {
        violate("reentrant-output", "parse_all used inside an output delivered the wrong values");
      }
    }
    return *this;
  }
  OutIt& operator*() { return *this; }
  OutIt& operator++() { return *this; }
  OutIt& operator++(int) { return *this; }
};

template <typename V>
void checkDelivery(const char* fn, const Channel<V>& c, const std::vector<V>& want, bool threw, bool srcFailed, std::size_t srcLimit) {
  note(K_RESULT, c.got.size());
  if (threw != (c.failed || srcFailed)) {
    violate("failure-swallowed", "%s hid or invented a failure", fn);
  }
  const std::size_t n = c.failed ? std::size_t(c.failAt - 1) : srcFailed ? srcLimit : want.size();
  if (c.got.size() != n) {
    violate("delivery-count", "%s delivered %zu values, expected %zu", fn, c.got.size(), n);
  }
  for (std::size_t i = 0; i < n; ++i) {
    if (!sameBits(c.got[i], want[i])) {
      violate("delivery-order", "%s delivered %s as value %zu, expected %s", fn, str(c.got[i]).c_str(),
        i, str(want[i]).c_str());
    }
  }
}

enum { D_PARSE_ALL, D_PARSE_ANY, D_VEC, D_SEGMENT, D_POLYGON, D_PARSE_ALL1, D_COUNT };
const char* c04Names[] = {"parse_all", "parse_all-any-bytes", "vec-get_vertices",
  "segment-get_vertices", "polygon-get_vertices", "parse_all-wide"};

template <typename T, std::size_t S> void deliverParse(Rng& r, std::size_t n, const Op& op) {
  static const char* seps[] = {" ", "\n", ", ", "; ", ",\n", "\t", " , "};
  std::string text;
  std::vector<vm::vec<T, S>> want;
  const bool paren = r.below(2);
  const char* sep = seps[r.below(7)];
  const bool mixed = r.below(3) == 0; // separators of all kinds in one list
  static const char* inner[] = {" ", "\t", "  ", "\n", "\r\n", " \t "};
  const char* gap = inner[r.below(3) ? 0 : r.below(6)];
  for (std::size_t i = 0; i < n; ++i) {
    const auto v = i && r.below(6) == 0 ? want[i - 1 - (i > 1 && r.below(2))] : dyVec<T, S>(r);
    want.push_back(v);
    if (i) {
      text += mixed ? seps[r.below(7)] : sep;
    }
    if (paren) {
      text += "(";
    }
    for (std::size_t k = 0; k < S; ++k) {
      char b[40];
      snprintf(b, sizeof b, "%s%.4f", k ? gap : "", double(v.v[k]));
      text += b;
    }
    if (paren) {
      text += ")";
    }
  }
  if (n > 0 && r.below(3) == 0) {
    text += sep; // trailing separator
    const u64 torn = S > 1 && r.below(2) ? 1 + r.below(S - 1) : 0; // an incomplete last record
    for (u64 k = 0; k < torn; ++k) {
      char b[40];
      snprintf(b, sizeof b, "%s%.4f", k ? " " : paren ? "(" : "", double(dyadic<T>(r)));
      text += b;
    }
    if (torn) {
      fault("incomplete-last-record");
    }
  }
  for (auto& w : want) {
    for (std::size_t k = 0; k < S; ++k) {
      char b[40];
      snprintf(b, sizeof b, "%.4f", double(w.v[k]));
      w.v[k] = T(strtod(b, nullptr));
    }
  }
  Channel<vm::vec<T, S>> c;
  c.failAt = op.arg(3);
  c.nested = op.arg(5) != 0;
  bool threw = false;
  say("parse_all %s", quote(text).c_str());
  try {
    vm::parse_all<T, S>(std::string_view(text), OutIt<vm::vec<T, S>>{&c});
  } catch (const Fault& e) {
    sameFault(e, "parse_all");
    threw = true;
  } catch (...) {
    violate("other-exception", "parse_all replaced the output's failure by another exception");
  }
  checkDelivery("parse_all", c, want, threw, false, 0);
}

// arbitrary bytes: bounded, never touches a failed output, agrees with the fault-free delivery
void deliverAny(Rng& r, const Op& op) {
  std::string text;
  static const char alphabet[] = "0123456789 .,;()eE+-\t\nxinfa\"\0";
  const std::size_t n = std::size_t(op.arg(2) * 3);
  for (std::size_t i = 0; i < n; ++i) {
    const u64 k = r.below(40);
    text += k < sizeof alphabet - 1 ? alphabet[k] : k < 38 ? ' ' : char(r.below(256));
  }
  Channel<vm::vec<double, 3>> ref;
  ref.limit = text.size() + 1;
  vm::parse_all<double, 3>(std::string_view(text), OutIt<vm::vec<double, 3>>{&ref});
  Channel<vm::vec<double, 3>> c;
  c.failAt = op.arg(3);
  c.limit = text.size() + 1;
  bool threw = false;
  say("parse_all %s", quote(text).c_str());
  try {
    vm::parse_all<double, 3>(std::string_view(text), OutIt<vm::vec<double, 3>>{&c});
  } catch (const Fault& e) {
    sameFault(e, "parse_all");
    threw = true;
  } catch (...) {
    violate("other-exception", "parse_all replaced the output's failure by another exception");
  }
  checkDelivery("parse_all", c, ref.got, threw, false, 0);
}

template <typename E, typename V, typename Run>
void deliverVerts(const char* fn, Source<E>& src, const std::vector<V>& want, const std::vector<std::size_t>& firstOut, const Op& op, Run run) {
  src.failRead = op.arg(4);
  src.failNext = op.arg(7);
  Channel<V> c;
  c.failAt = op.arg(3);
  c.nested = op.arg(5) != 0;
  bool threw = false;
  try {
    run(InIt<E>{&src, 0}, InIt<E>{}, OutIt<V>{&c});
  } catch (const Fault& e) {
    sameFault(e, fn);
    threw = true;
  } catch (...) {
    violate("other-exception", "%s replaced the caller's failure by another exception", fn);
  }
  if (src.failed && src.failNext && src.advances == src.failNext) {
    // advancing past element failNext failed: that element may have been delivered or not
    const std::size_t done = std::size_t(src.failNext);
    const std::size_t lo = firstOut[done - 1], hi = done < firstOut.size() ? firstOut[done] : want.size();
    if (c.got.size() < lo || c.got.size() > hi) {
      violate("delivery-count", "%s delivered %zu values, expected %zu", fn, c.got.size(), hi);
    }
    checkDelivery(fn, c, want, threw, true, c.got.size());
    return;
  }
  checkDelivery(fn, c, want, threw, src.failed, src.failed ? firstOut[std::size_t(src.failRead - 1)] : 0);
}

template <typename T, std::size_t S> void deliverSegments(Rng& r, std::size_t n, const Op& op) {
      using V = vm::vec<T, S>;
      using G = vm::segment<T, S>;
      Source<G> s;
      std::vector<V> want;
      std::vector<std::size_t> first;
      for (std::size_t i = 0; i < n; ++i) {
        V a = dyVec<T, S>(r), b = dyVec<T, S>(r);
        if (i && r.below(2)) { // chains, repeated and empty segments
          const auto& last = want[want.size() - 1 - r.below(2)];
          (r.below(2) ? a : b) = last;
          if (r.below(6) == 0) {
            a = b;
          } else if (r.below(6) == 0) {
            a = want[want.size() - 2];
            b = want[want.size() - 1];
          }
        }
        s.items.push_back(G(a, b));
        first.push_back(want.size());
        if (refCompare(a, b, T(0)) > 0) {
          std::swap(a, b);
        }
        want.push_back(a);
        want.push_back(b);
      }
      return deliverVerts("segment::get_vertices", s, want, first, op,
        [](auto a, auto b, auto o) { G::get_vertices(a, b, o); });
}
template <typename T, std::size_t S> void deliverPolygons(Rng& r, std::size_t n, const Op& op) {
      using V = vm::vec<T, S>;
      using G = vm::polygon<T, S>;
      Source<G> s;
      std::vector<V> want;
      std::vector<std::size_t> first;
      for (std::size_t i = 0; i < (n > 1000 ? 4000 : n % 40); ++i) {
        std::vector<V> vs;
        const u64 k = r.below(20) == 0 ? r.below(r.below(4) ? 80 : 300) : r.below(7);
        for (u64 j = 0; j < k; ++j) {
          vs.push_back(!want.empty() && r.below(3) == 0 ? want[r.below(want.size())] : dyVec<T, S>(r));
        }
        if (i && r.below(8) == 0) {
          vs = s.items.back().vertices(); // the same polygon again
        }
        s.items.push_back(G(vs));
        first.push_back(want.size());
        const auto& pv = s.items.back().vertices();
        want.insert(want.end(), pv.begin(), pv.end());
      }
      return deliverVerts("polygon::get_vertices", s, want, first, op,
        [](auto a, auto b, auto o) { G::get_vertices(a, b, o); });
}
void runC04(int, const Op& op, std::size_t) {
  Rng r(op.arg(1));
  const std::size_t n = std::size_t(op.arg(2) % 70000);
  const bool d = op.arg(6) == 0;
  switch (op.code % D_COUNT) {
    case D_PARSE_ALL: return d ? deliverParse<double, 3>(r, n, op) : deliverParse<float, 2>(r, n, op);
    case D_PARSE_ALL1: return d ? deliverParse<double, 1>(r, n, op) : deliverParse<double, 4>(r, n, op);
    case D_PARSE_ANY: return deliverAny(r, op);
    case D_VEC: {
      using V = vm::vec<double, 3>;
      Source<V> s;
      std::vector<V> want;
      std::vector<std::size_t> first;
      for (std::size_t i = 0; i < n; ++i) {
        s.items.push_back(i && r.below(4) == 0 ? s.items[i - 1] : anyVec<double, 3>(r));
        first.push_back(want.size());
        want.push_back(s.items.back());
      }
      return deliverVerts("vec::get_vertices", s, want, first, op,
        [](auto a, auto b, auto o) { V::get_vertices(a, b, o); });
    }
    case D_SEGMENT: {
      return d ? deliverSegments<double, 3>(r, n, op) : deliverSegments<float, 2>(r, n, op);
    }
    case D_POLYGON: return d ? deliverPolygons<double, 3>(r, n, op) : deliverPolygons<float, 2>(r, n, op);
    default: break;
  }
}
void genC04(Rng& rng, Plan& p) {
  if (rng.below(400) == 0) { // a very long sequence, alone
    Op o;
    static const u32 longs[] = {D_PARSE_ALL, D_VEC, D_SEGMENT, D_POLYGON, D_PARSE_ALL1};
    o.code = longs[rng.below(5)];
    const u64 len = rng.below(2) ? 4090 + rng.below(12) : o.code == D_SEGMENT ? 32760 + rng.below(20) : 65530 + rng.below(20);
    o.a = {0, rng.next() >> 40, len, rng.below(2) ? 0 : 1 + rng.below(len), 0, 0, rng.below(2), 0};
    p.tasks.push_back({o});
    return;
  }
  const u64 nt = 1 + rng.below(3);
  const u32 rate = u32(rng.below(4)) * 250;
  for (u64 t = 0; t < nt; ++t) {
    std::vector<Op> ops;
    const u64 n = 1 + rng.below(5);
    for (u64 i = 0; i < n; ++i) {
      Op o;
      o.code = u32(rng.below(D_COUNT));
      const u64 len = rng.below(4) == 0 ? (rng.below(6) == 0 ? rng.below(400) : rng.below(60)) : rng.below(8);
      o.a = {0, rng.next() >> 40, len, 0, 0, rng.chance(rate / 10), rng.below(2), 0};
      if (rng.chance(rate)) {
        o.a[3] = 1 + rng.below(len + 2);
      } else if (rng.chance(rate / 2)) {
        o.a[rng.below(2) ? 4 : 7] = 1 + rng.below(len + 1);
      }
      ops.push_back(o);
    }
    p.tasks.push_back(ops);
  }
}
const char* nameC04(u32 c) { return c04Names[c % D_COUNT]; }
Reg r4({"C04", genC04, nullptr, runC04, nullptr, nameC04, 1000000});

// ------------------------------------------------------------------ C06
enum { B_FACE, B_EDGE, B_VERTEX, B_VERTICES, B_COUNT };
const char* c06Names[] = {"for_each_face", "for_each_edge", "for_each_vertex", "vertices"};

struct CallState {
  u64 calls = 0, failAt = 0;
  bool failed = false;
  u32 nested = 0;
};
template <typename T> struct BoxCase {
  using V = vm::vec<T, 3>;
  vm::bbox<T, 3> box, saved;
  int cornerOf(const V& v) const { // -1: not a corner
    int c = 0;
    for (int i = 0; i < 3; ++i) {
      if (v.v[i] == saved.max.v[i]) {
        c |= 1 << i;
      } else if (v.v[i] != saved.min.v[i]) {
        return -1;
      }
    }
    return c;
  }
};
void visitBox(u32 what, const vm::bbox<double, 3>& b, u64& n);

template <typename T> void pre(CallState& c) {
  if (c.failed) {
    violate("call-after-failure", "the callback was called again after it had failed");
  }
  yield(K_CALL, c.calls);
  if (c.failAt && c.calls + 1 == c.failAt) {
    c.failed = true;
    fault("callback-failure");
    throwFault(6);
  }
  ++c.calls;
  if (c.nested) {
    fault("callback-reenters-library");
    vm::bbox<double, 3> inner(vm::vec<double, 3>(-1.0, -2.0, -3.0), vm::vec<double, 3>(4.0, 5.0, 6.0));
    u64 n = 0;
    visitBox(c.nested % 3, inner, n);
    static const u64 want[] = {6, 12, 8};
    if (n != want[c.nested % 3]) {
      violate("reentrant-callback", "a visitation inside a callback made %llu calls", (unsigned long long)n);
    }
  }
}
void visitBox(u32 what, const vm::bbox<double, 3>& b, u64& n) {
  using V = vm::vec<double, 3>;
  if (what == B_FACE) {
    b.for_each_face([&](const V&, const V&, const V&, const V&, const V&) { ++n; });
  } else if (what == B_EDGE) {
    b.for_each_edge([&](const V&, const V&) { ++n; });
  } else {
    b.for_each_vertex([&](const V&) { ++n; });
  }
}

// Passes the callback as a temporary, or as an object of the caller that keeps its own count.
template <typename F> struct Tally {
  F* f;
  u64 own = 0;
  template <typename... A> void operator()(A&&... a) {
    ++own;
    (*f)(std::forward<A>(a)...);
  }
};
// its results mean nothing to the visit
template <typename F> struct Answering {
  F* f;
  u64 bits;
  template <typename... A> bool operator()(A&&... a) {
    (*f)(std::forward<A>(a)...);
    bits = bits >> 1 | bits << 63;
    return bits & 1;
  }
};
// a call of the temporary as a temporary uses it up
template <typename F> struct UsedUp {
  F* f;
  bool used = false;
  template <typename... A> void operator()(A&&... a) & {
    if (used) {
      violate("callback-used-up", "a temporary callback was called again after it had been called as an rvalue");
    }
    (*f)(std::forward<A>(a)...);
  }
  template <typename... A> void operator()(A&&... a) && {
    (*this)(std::forward<A>(a)...);
    used = true;
  }
};
template <typename F, typename Call> void tallied(u64 style, const CallState& c, F fn, Call call) {
  if (style == 2) {
    call(Answering<F>{&fn, c.failAt * 0x9e3779b97f4a7c15ull + 0xf0f});
    return;
  }
  if (style == 3) {
    call(UsedUp<F>{&fn});
    return;
  }
  if (style == 0) {
    call(std::move(fn));
    return;
  }
  Tally<F> t{&fn};
  call(t);
  if (t.own != c.calls) {
    violate("callback-copied", "the caller's callback was called %llu times itself, but its effect happened %llu times",
      (unsigned long long)t.own, (unsigned long long)c.calls);
  }
}

template <typename T> void visit(const Op& op) {
  using V = vm::vec<T, 3>;
  const u64 byRef = op.arg(1) & 1 ? 1 : op.arg(1) / 2 % 3 == 0 ? 0 : op.arg(1) / 2 % 3 + 1;
  Rng r(op.arg(1));
  BoxCase<T> k;
  for (int i = 0; i < 3; ++i) {
    T a = dyadic<T>(r), b = dyadic<T>(r);
    if (a == b) {
      b = a + T(1);
    }
    k.box.min.v[i] = std::min(a, b);
    k.box.max.v[i] = std::max(a, b);
  }
  // shapes: ordinary, flat in one direction or more, extreme
  const u64 shape = op.arg(5) % 16;
  bool flat = false;
  for (int i = 0; i < 3; ++i) {
    if (shape & 8) {
      if ((shape >> i) & 1) {
        k.box.max.v[i] = k.box.min.v[i];
        flat = true;
      }
    } else if (shape == 7 || shape == 6) { // huge or tiny; powers of two keep all arithmetic exact
      const T scale = shape == 7 ? T(1099511627776.0) : T(1.0 / 1099511627776.0);
      k.box.min.v[i] *= scale;
      k.box.max.v[i] *= scale;
    } else if (shape == 5 && i == 1) { // a cube with one corner at the origin
      const T len = k.box.max.v[0] - k.box.min.v[0];
      k.box.min = V();
      k.box.max = V(len, len, len);
      break;
    }
  }
  if (flat) {
    probe("flat-box");
  }
  k.saved = k.box;
  CallState c;
  c.failAt = op.arg(3);
  c.nested = u32(op.arg(4));
  const u32 what = op.code % B_COUNT;
  std::vector<std::array<int, 5>> seen;
  bool threw = false;
  auto corner = [&](const V& v) {
    const int q = k.cornerOf(v);
    if (q < 0) {
      violate("not-a-corner", "%s passed %s, which is no corner of %s..%s", c06Names[what],
        str(v).c_str(), str(k.saved.min).c_str(), str(k.saved.max).c_str());
    }
    return q;
  };
  auto add = [&](std::array<int, 5> a) {
    if (flat) {
      return; // corners coincide: compared as a bag of positions below
    }
    if (std::find(seen.begin(), seen.end(), a) != seen.end()) {
      violate("visited-twice", "%s visited the same element twice", c06Names[what]);
    }
    seen.push_back(a);
  };
  // bag of visited elements by position (cornerOf maps coinciding corners to one)
  std::vector<std::array<int, 5>> bag;
  auto place = [&](const int* q, int n, int tag) {
    std::array<int, 5> a{-1, -1, -1, -1, tag};
    std::copy(q, q + n, a.begin());
    std::sort(a.begin(), a.begin() + n);
    bag.push_back(a);
  };
  try {
    switch (what) {
      case B_FACE:
        tallied(byRef, c, [&](const V& a, const V& b, const V& d, const V& e, const V& nrm) {
          pre<T>(c);
          const int q[4] = {corner(a), corner(b), corner(d), corner(e)};
          int ax = -1, sgn = 0;
          for (int i = 0; i < 3; ++i) {
            if (nrm.v[i] != T(0)) {
              if (ax >= 0 || (nrm.v[i] != T(1) && nrm.v[i] != T(-1))) {
                violate("bad-normal", "for_each_face passed normal %s", str(nrm).c_str());
              }
              ax = i;
              sgn = nrm.v[i] > T(0) ? 1 : -1;
            }
          }
          if (ax < 0) {
            violate("bad-normal", "for_each_face passed a zero normal");
          }
          int set = 0;
          for (int i = 0; i < 4; ++i) {
            if (!flat && ((q[i] >> ax) & 1) != (sgn > 0)) {
              violate("vertex-off-face", "a face vertex does not lie on the side its normal points to");
            }
            const int diff = q[i] ^ q[(i + 1) & 3];
            if (diff != 1 && diff != 2 && diff != 4 && !(flat && diff == 0)) {
              violate("vertex-order", "consecutive face vertices are not joined by a box edge");
            }
            set |= 1 << q[i];
          }
          // all faces are wound the same way around their outward normals
          const V e1 = b - a, e2 = d - b;
          const V cr(e1.v[1] * e2.v[2] - e1.v[2] * e2.v[1], e1.v[2] * e2.v[0] - e1.v[0] * e2.v[2],
            e1.v[0] * e2.v[1] - e1.v[1] * e2.v[0]);
          place(q, 4, 2 * ax + (sgn > 0));
          if (flat ? cr.v[ax] * nrm.v[ax] > T(0) : !(cr.v[ax] * nrm.v[ax] < T(0))) {
            violate("winding", "a face is not wound clockwise seen from outside");
          }
          add({set, ax, sgn, 0, 0});
        }, [&](auto&& cb) { k.box.for_each_face(std::forward<decltype(cb)>(cb)); });
        break;
      case B_EDGE:
        tallied(byRef, c, [&](const V& a, const V& b) {
          pre<T>(c);
          const int p = corner(a), q = corner(b);
          const int diff = p ^ q;
          const int both[2] = {p, q};
          place(both, 2, 0);
          if (!flat && diff != 1 && diff != 2 && diff != 4) {
            violate("not-an-edge", "for_each_edge passed two corners that share no edge");
          }
          add({std::min(p, q), std::max(p, q), 0, 0, 0});
        }, [&](auto&& cb) { k.box.for_each_edge(std::forward<decltype(cb)>(cb)); });
        break;
      case B_VERTEX:
        tallied(byRef, c, [&](const V& a) {
          pre<T>(c);
          const int q = corner(a);
          place(&q, 1, 0);
          add({q, 0, 0, 0, 0});
        }, [&](auto&& cb) { k.box.for_each_vertex(std::forward<decltype(cb)>(cb)); });
        break;
      default: {
        const auto vs = k.box.vertices();
        for (auto& v : vs) {
          ++c.calls;
          const int q = corner(v);
          place(&q, 1, 0);
          add({q, 0, 0, 0, 0});
        }
      }
    }
  } catch (const Fault& e) {
    sameFault(e, c06Names[what]);
    threw = true;
  } catch (...) {
    violate("other-exception", "%s replaced the callback's failure", c06Names[what]);
  }
  note(K_RESULT, c.calls);
  static const u64 want[] = {6, 12, 8, 8};
  if (threw != c.failed) {
    violate("failure-swallowed", "%s hid or invented a callback failure", c06Names[what]);
  }
  const u64 expect = c.failed ? c.failAt - 1 : want[what];
  if (c.calls != expect) {
    violate("visit-count", "%s made %llu calls, expected %llu", c06Names[what],
      (unsigned long long)c.calls, (unsigned long long)expect);
  }
  if (flat) {
    int mask = 0; // directions without extent
    for (int i = 0; i < 3; ++i) {
      mask |= (k.saved.min.v[i] == k.saved.max.v[i]) << i;
    }
    auto seenBag = bag;
    bag.clear();
    for (int q = 0; q < 8; ++q) {
      if (what == B_VERTEX || what == B_VERTICES) {
        const int one = q | mask;
        place(&one, 1, 0);
      } else if (what == B_EDGE) {
        for (int i = 0; i < 3; ++i) {
          if (!((q >> i) & 1)) {
            const int two[2] = {q | mask, (q | (1 << i)) | mask};
            place(two, 2, 0);
          }
        }
      }
    }
    for (int f = 0; what == B_FACE && f < 6; ++f) {
      int four[4], n = 0;
      for (int q = 0; q < 8; ++q) {
        if (((q >> (f / 2)) & 1) == (f & 1)) {
          four[n++] = q | mask;
        }
      }
      place(four, 4, f);
    }
    std::sort(bag.begin(), bag.end());
    std::sort(seenBag.begin(), seenBag.end());
    if (!std::includes(bag.begin(), bag.end(), seenBag.begin(), seenBag.end())) {
      violate("flat-box-visit", "%s of a flat box visited something that is not there, or something too often", c06Names[what]);
    }
  }
  if (!sameBits(k.box.min, k.saved.min) || !sameBits(k.box.max, k.saved.max)) {
    violate("box-changed", "%s changed the box", c06Names[what]);
  }
}
void runC06(int, const Op& op, std::size_t) {
  if (op.arg(2)) {
    visit<float>(op);
  } else {
    visit<double>(op);
  }
}
void genC06(Rng& rng, Plan& p) {
  const u64 nt = 1 + rng.below(3);
  const u32 rate = u32(rng.below(4)) * 250;
  for (u64 t = 0; t < nt; ++t) {
    std::vector<Op> ops;
    const u64 n = 1 + rng.below(6);
    for (u64 i = 0; i < n; ++i) {
      Op o;
      o.code = u32(rng.below(B_COUNT));
      o.a = {0, rng.next() >> 40, rng.below(2), rng.chance(rate) ? 1 + rng.below(13) : 0,
        rng.chance(rate / 5) ? 1 + rng.below(3) : 0, rng.below(2) ? rng.below(16) : 0};
      ops.push_back(o);
    }
    p.tasks.push_back(ops);
  }
}
const char* nameC06(u32 c) { return c06Names[c % B_COUNT]; }
Reg r6({"C06", genC06, nullptr, runC06, nullptr, nameC06, 100000});

// ------------------------------------------------------------------ C09
// Several builders per task, a model per builder: the set of points taken so far.
template <typename T, std::size_t S> struct BuilderPair {
  using B = typename vm::bbox<T, S>::builder;
  B b;
  bool any = false;
  vm::vec<T, S> lo, hi;
  void take(const vm::vec<T, S>& p) {
    if (!any) {
      lo = hi = p;
      any = true;
    } else {
      for (std::size_t i = 0; i < S; ++i) {
        lo.v[i] = std::min(lo.v[i], p.v[i]);
        hi.v[i] = std::max(hi.v[i], p.v[i]);
      }
    }
  }
  void check(const char* when) const {
    if (b.initialized() != any) {
      violate("initialized", "after %s the builder reports initialized=%d but %s was added", when,
        int(b.initialized()), any ? "something" : "nothing");
    }
    if (!any) {
      for (std::size_t i = 0; i < S; ++i) {
        if (b.bounds().min.v[i] != T(0) || b.bounds().max.v[i] != T(0)) {
          violate("bounds-of-nothing", "after %s nothing was added, but the builder holds %s..%s instead of an empty box at the origin",
            when, str(b.bounds().min).c_str(), str(b.bounds().max).c_str());
        }
      }
    }
    if (any) {
      for (std::size_t i = 0; i < S; ++i) {
        if (b.bounds().min.v[i] != lo.v[i] || b.bounds().max.v[i] != hi.v[i]) {
          violate("bounds", "after %s the builder holds %s..%s, but everything added spans %s..%s",
            when, str(b.bounds().min).c_str(), str(b.bounds().max).c_str(), str(lo).c_str(), str(hi).c_str());
        }
      }
    }
  }
};
constexpr int kBuilders = 3;
struct TaskBuilders {
  BuilderPair<double, 3> d[kBuilders];
  BuilderPair<float, 2> f[kBuilders];
};
TaskBuilders* tb[8];
enum { U_POINT, U_BOX, U_RANGE, U_BOXRANGE, U_COPY, U_RESET, U_ALIAS, U_READ, U_COUNT };
const char* c09Names[] = {"add-point", "add-box", "add-range", "add-box-range", "copy-builder",
  "reset-builder", "add-own-corner", "read-bounds"};

template <typename T, std::size_t S> void buildOp(BuilderPair<T, S>* pool, const Op& op) {
  using V = vm::vec<T, S>;
  using BB = vm::bbox<T, S>;
  Rng r(op.arg(1));
  auto& x = pool[op.arg(2) % kBuilders];
  auto& y = pool[(op.arg(2) / kBuilders) % kBuilders];
  auto wide = [&]() {
    V v = dyVec<T, S>(r);
    if (r.below(8) == 0) { // zeros and extremes
      using L = std::numeric_limits<T>;
      const T odd[] = {T(0), -T(0), L::max(), L::lowest(), L::infinity(), -L::infinity(), L::denorm_min(), L::min(), T(1), T(-1)};
      const u64 one = r.below(10);
      for (std::size_t i = 0; i < S; ++i) {
        v.v[i] = odd[r.below(2) ? one : r.below(10)];
      }
    } else if (r.below(3) == 0) {
      for (std::size_t i = 0; i < S; ++i) {
        v.v[i] *= T(1e4);
      }
    }
    return v;
  };
  auto someBox = [&]() {
    const V a = wide(), b = r.below(4) ? wide() : a;
    BB box;
    for (std::size_t i = 0; i < S; ++i) {
      box.min.v[i] = std::min(a.v[i], b.v[i]);
      box.max.v[i] = std::max(a.v[i], b.v[i]);
    }
    return box;
  };
  switch (op.code % U_COUNT) {
    case U_POINT: {
      const V p = wide();
      x.b.add(p);
      x.take(p);
      break;
    }
    case U_BOX: {
      const BB b = someBox();
      x.b.add(b);
      x.take(b.min);
      x.take(b.max);
      break;
    }
    case U_RANGE: {
      Source<Elem<V>> src;
      for (u64 i = 0; i < op.arg(5) % 300; ++i) {
        Elem<V> e;
        e.point = wide();
        e.decoy = wide();
        e.id = i;
        src.items.push_back(e);
      }
      src.failRead = op.arg(3);
      GetState<V> gs;
      gs.failAt = op.arg(4);
      const u32 kind = u32(op.arg(6) % 3);
      overRange<InIt, false>("builder.add(range)", src, gs, kind,
        [&](auto cur, auto end, auto... get) { x.b.add(cur, end, get...); });
      const std::size_t took = kind != G_NONE ? gs.calls.size() : src.failed ? std::size_t(src.failRead - 1) : src.items.size();
      for (std::size_t i = 0; i < took; ++i) {
        x.take(src.items[i].point);
      }
      if (src.failed || gs.failed) {
        probe(took == 0 ? "range-failed-at-first" : "range-failed-midway");
      }
      break;
    }
    case U_BOXRANGE: {
      Source<BB> src;
      for (u64 i = 0; i < op.arg(5) % 40; ++i) {
        src.items.push_back(someBox());
      }
      src.failRead = op.arg(3);
      GetState<V> gs;
      guarded("builder.add(box range)", src, gs, [&] {
        using It = InIt<BB>;
        x.b.add(It{&src, 0}, It{});
      });
      const std::size_t took = src.failed ? std::size_t(src.failRead - 1) : src.items.size();
      for (std::size_t i = 0; i < took; ++i) {
        x.take(src.items[i].min);
        x.take(src.items[i].max);
      }
      break;
    }
    case U_COPY:
      if (r.below(2)) {
        x = y;
      } else {
        std::swap(x, y);
      }
      break;
    case U_ALIAS:
      if (x.any) { // a corner of the builder's own bounds
        const V p = r.below(2) ? x.lo : x.hi;
        y.b.add(p == x.lo ? x.b.bounds().min : x.b.bounds().max);
        y.take(p);
      }
      break;
    case U_RESET: x = BuilderPair<T, S>{}; break;
    default: {
      if (x.any) {
        const BB& b = x.b.bounds();
        y.b.add(b); // feeding one builder's (live) bounds to another, or to itself
        const V lo = x.lo, hi = x.hi;
        y.take(lo);
        y.take(hi);
      }
    }
  }
  note(K_RESULT, x.any);
  for (int i = 0; i < kBuilders; ++i) {
    pool[i].check(c09Names[op.code % U_COUNT]);
  }
}
void runC09(int task, const Op& op, std::size_t) {
  if (op.arg(0)) {
    buildOp(tb[task]->f, op);
  } else {
    buildOp(tb[task]->d, op);
  }
}
void setupC09(const Plan& p) {
  for (std::size_t i = 0; i < p.tasks.size(); ++i) {
    tb[i] = new TaskBuilders;
  }
}
void genC09(Rng& rng, Plan& p) {
  const u64 nt = 1 + rng.below(3);
  const u32 rate = u32(rng.below(4)) * 250;
  const bool f = rng.below(2);
  for (u64 t = 0; t < nt; ++t) {
    std::vector<Op> ops;
    const u64 n = 1 + (rng.below(12) == 0 ? rng.below(80) : rng.below(10));
    for (u64 i = 0; i < n; ++i) {
      Op o;
      static const u32 w[] = {U_POINT, U_POINT, U_BOX, U_BOX, U_RANGE, U_RANGE, U_RANGE, U_BOXRANGE,
        U_COPY, U_RESET, U_ALIAS, U_READ};
      o.code = w[rng.below(sizeof w / sizeof *w)];
      o.a = {f ? 1u : 0u, rng.next() >> 40, rng.below(9), 0, 0, rng.below(8) == 0 ? rng.below(300) : rng.below(14), rng.below(3)};
      if (rng.chance(rate)) {
        o.a[3 + rng.below(2)] = 1 + rng.below(8);
      }
      ops.push_back(o);
    }
    p.tasks.push_back(ops);
  }
}
const char* nameC09(u32 c) { return c09Names[c % U_COUNT]; }
Reg r9({"C09", genC09, setupC09, runC09, nullptr, nameC09, 100000});
} // namespace
