#define CAT_WORLD
// Seeded pools of operands, op registry, and the entry points of the catalogue.
#include "cat.h"

#include <cctype>

#include <algorithm>
#include <cmath>
#include <new>

namespace catns {
namespace {
struct Entry {
  std::string name;
  OpFn fn;
  const char* text;
  u64 parts;
};
std::vector<Entry>& table() {
  static std::vector<Entry> t;
  return t;
}
} // namespace
void addOp(const std::string& name, OpFn fn, const char* text) {
  u64 parts = 0;
  for (const char* p = text; *p; ++p) {
    const bool word = p != text && (std::isalnum(static_cast<unsigned char>(p[-1])) || p[-1] == '_' || p[-1] == '.' || p[-1] == ':');
    parts += p[0] == 'o' && p[1] == '(' && !word;
  }
  table().push_back({name, fn, text, parts ? parts : 1});
}
void regScalar() __attribute__((weak));
void regVecF() __attribute__((weak));
void regVecD() __attribute__((weak));
void regMatF() __attribute__((weak));
void regMatD() __attribute__((weak));
void regGeoF() __attribute__((weak));
void regGeoD() __attribute__((weak));
void regIo() __attribute__((weak));

namespace {
// small grids make coincidences (parallel, touching, colinear, equal) common
template <typename T> T num(Rng& r) {
  switch (r.below(13)) {
    case 12: // every magnitude, not too often
      if (r.below(3) == 0) {
        return T((r.unit() - 0.5) * std::ldexp(1.0, int(r.below(73)) - 36));
      }
      return T(int(r.below(9)) - 4);
    case 0: return T(0);
    case 1: return T(-0.0);
    case 2: return T(1);
    case 3:
    case 4:
    case 5: return T(int(r.below(5)) - 2);
    case 6: return T(int(r.below(17)) - 8) / T(4);
    case 7: return T(int(r.below(65)) - 32);
    case 8: return T((r.unit() - 0.5) * 4.0);
    case 9: return T((r.unit() - 0.5) * 200.0);
    case 10: return T((r.unit() - 0.5) * 2e-4);
    default: return T(int(r.below(2001)) - 1000) / T(10);
  }
}
template <typename T, std::size_t S> vm::vec<T, S> rv(Rng& r) {
  vm::vec<T, S> v;
  for (std::size_t i = 0; i < S; ++i) {
    v.v[i] = num<T>(r);
  }
  return v;
}
template <typename T> T otherNum(Rng& r, T old) {
  switch (r.below(8)) {
    case 0:
    case 1: return -old;
    case 2: return old + T(1);
    case 3: return std::nextafter(old, T(10));
    case 4: return old + T(1 + int(r.below(9))) * T(1e-6); // nearly equal, but not equal
    case 5: return old + (T(int(r.below(7))) - T(3.5)) * T(1e-4);
    default: return num<T>(r);
  }
}
inline void bump(Rng& r, float& v) { v = otherNum(r, v); }
inline void bump(Rng& r, double& v) { v = otherNum(r, v); }
template <typename T, std::size_t S> void bump(Rng& r, vm::vec<T, S>& v) {
  auto& c = v.v[r.below(S)];
  c = otherNum(r, c);
}
template <typename T, std::size_t R, std::size_t C> void bump(Rng& r, vm::mat<T, R, C>& m) {
  bump(r, m.v[r.below(C)]);
}
template <typename T> void bump(Rng& r, vm::quat<T>& q) {
  if (r.below(4) == 0) {
    q.r = otherNum(r, q.r);
  } else {
    bump(r, q.v);
  }
}
template <typename T, std::size_t S> vm::vec<T, S> ru(Rng& r) {
  for (;;) {
    vm::vec<T, S> v;
    if (r.below(2)) {
      v.v[r.below(S)] = r.below(2) ? T(1) : T(-1);
      return v;
    }
    double l = 0;
    double c[S];
    for (std::size_t i = 0; i < S; ++i) {
      c[i] = r.below(3) ? double(int(r.below(9)) - 4) : (r.unit() - 0.5);
      l += c[i] * c[i];
    }
    if (l < 1e-6) {
      continue;
    }
    l = std::sqrt(l);
    for (std::size_t i = 0; i < S; ++i) {
      v.v[i] = T(c[i] / l);
    }
    return v;
  }
}
template <typename T, std::size_t R, std::size_t C> vm::mat<T, R, C> rm(Rng& r) {
  vm::mat<T, R, C> m;
  const auto kind = r.below(6);
  for (std::size_t c = 0; c < C; ++c) {
    for (std::size_t q = 0; q < R; ++q) {
      m.v[c].v[q] = kind == 0 ? T(c == q) : num<T>(r);
    }
  }
  if (kind == 1 && C > 1) { // singular
    m.v[1] = m.v[0];
  }
  if (kind == 2) {
    m.v[0] = vm::vec<T, R>();
  }
  return m;
}
template <typename T, std::size_t N> vm::mat<T, N, N> ra(Rng& r) {
  vm::mat<T, N, N> m;
  std::size_t perm[N];
  for (std::size_t i = 0; i < N; ++i) {
    perm[i] = i;
  }
  if (r.below(2)) {
    for (std::size_t i = N - 1; i-- > 1;) {
      std::swap(perm[i], perm[r.below(i + 1)]);
    }
  }
  for (std::size_t c = 0; c < N; ++c) {
    m.v[c] = vm::vec<T, N>();
  }
  for (std::size_t c = 0; c + 1 < N; ++c) {
    m.v[c].v[perm[c]] = r.below(2) ? (r.below(2) ? T(1) : T(-1)) : T(1 + int(r.below(7))) / T(2);
    m.v[N - 1].v[c] = r.below(2) ? T(0) : num<T>(r);
  }
  if (r.below(3) == 0) { // shear
    m.v[0].v[N - 2] += T(1) / T(4);
  }
  m.v[N - 1].v[N - 1] = T(1);
  return m;
}
template <typename T, std::size_t S> vm::bbox<T, S> rb(Rng& r) {
  vm::bbox<T, S> b;
  for (std::size_t i = 0; i < S; ++i) {
    T lo = num<T>(r), hi = r.below(8) == 0 ? lo : num<T>(r);
    if (hi < lo) {
      std::swap(lo, hi);
    }
    b.min.v[i] = lo;
    b.max.v[i] = hi;
  }
  return b;
}
template <typename T> std::vector<vm::vec<T, 3>> coplanar(Rng& r, std::size_t n) {
  // integer grid in one of a few planes, so that all arithmetic on them is exact
  const auto axis = r.below(3);
  const bool slanted = r.below(3) == 0;
  std::vector<vm::vec<T, 3>> out;
  for (std::size_t i = 0; i < n; ++i) {
    const T x = T(int(r.below(9)) - 4), y = T(int(r.below(9)) - 4), z = slanted ? x + y : T(2);
    vm::vec<T, 3> p;
    p.v[axis] = z;
    p.v[(axis + 1) % 3] = x;
    p.v[(axis + 2) % 3] = y;
    out.push_back(p);
  }
  return out;
}
template <typename T> std::vector<vm::vec<T, 3>> convexRing(Rng& r) {
  const auto n = r.below(10) ? 3 + r.below(5) : 8 + r.below(17);
  const auto axis = r.below(3);
  const double radius = 1.0 + double(r.below(5));
  const double ph = r.below(2) ? 0.0 : r.unit();
  const T h = T(int(r.below(5)) - 2);
  const bool ccw = r.below(2);
  std::vector<vm::vec<T, 3>> out;
  for (u64 i = 0; i < n; ++i) {
    const double t = ph + 6.283185307179586 * double(ccw ? i : n - 1 - i) / double(n);
    vm::vec<T, 3> p;
    p.v[axis] = h;
    p.v[(axis + 1) % 3] = T(std::round(radius * std::cos(t) * 4096.0) / 4096.0);
    p.v[(axis + 2) % 3] = T(std::round(radius * std::sin(t) * 4096.0) / 4096.0);
    out.push_back(p);
  }
  return out;
}
template <typename T, std::size_t S> std::vector<vm::vec<T, S>> rlist(Rng& r, std::size_t lo) {
  const auto n = lo + (r.below(12) ? r.below(6) : 6 + r.below(35));
  std::vector<vm::vec<T, S>> v;
  for (u64 i = 0; i < n; ++i) {
    v.push_back(rv<T, S>(r));
  }
  return v;
}

// free pools: elements share most components with their neighbours and with the
// previous generation, so that anything keyed on part of a value is confused
template <typename P, typename Make> void freePool(Rng& r, P& pool, Make make, u64 gen) {
  if (gen == 0) {
    std::size_t i = 0;
    for (auto& e : pool) {
      if (i && r.below(5) < 2) {
        e = pool[i - 1];
        bump(r, e);
      } else {
        e = make(r);
      }
      ++i;
    }
  } else {
    for (auto& e : pool) {
      switch (r.below(4)) {
        case 0: e = make(r); break;
        case 1:
        case 2: bump(r, e); break;
        default: break;
      }
    }
  }
}
// constrained pools: `alter` changes part of a value and keeps it admissible
template <typename P, typename Make, typename Alter>
void nearPool(Rng& r, P& pool, Make make, Alter alter, u64 gen) {
  std::size_t i = 0;
  for (auto& e : pool) {
    const auto k = r.below(5);
    if (gen == 0) {
      if (i && k < 2) {
        e = pool[i - 1];
        alter(r, e);
      } else {
        e = make(r);
      }
    } else if (k == 0) {
      e = make(r);
    } else if (k < 3) {
      alter(r, e);
    }
    ++i;
  }
}
// arrays: mostly a single component of a single element differs
template <typename E, std::size_t N> void bumpOne(Rng& r, std::array<E, N>& a);
template <typename E> void bumpOne(Rng& r, E& e) { bump(r, e); }
template <typename E, std::size_t N> void bumpOne(Rng& r, std::array<E, N>& a) { bumpOne(r, a[r.below(N)]); }
template <typename P, typename Make> void arrayPool(Rng& r, P& pool, Make make, u64 gen) {
  std::size_t i = 0;
  for (auto& a : pool) {
    const auto k = r.below(5);
    if (gen == 0 ? i && k < 2 : k >= 1 && k < 4) {
      if (gen == 0) {
        a = pool[i - 1];
      }
      bumpOne(r, a);
    } else if (gen == 0 || k == 0) {
      for (auto& e : a) {
        e = make(r);
      }
    }
    ++i;
  }
}
template <typename V> void alterUnit(Rng& r, V& v) {
  constexpr std::size_t S = V::size;
  if (r.below(2)) {
    auto& c = v.v[r.below(S)];
    c = -c;
  } else {
    std::swap(v.v[r.below(S)], v.v[r.below(S)]);
  }
}
template <typename T, std::size_t N> void alterAffine(Rng& r, vm::mat<T, N, N>& m) {
  if (r.below(2)) {
    bump(r, m.v[N - 1].v[r.below(N - 1)]);
  } else {
    auto& c = m.v[r.below(N - 1)];
    for (std::size_t i = 0; i + 1 < N; ++i) {
      c.v[i] = -c.v[i];
    }
  }
}
template <typename T, std::size_t S> void alterBox(Rng& r, vm::bbox<T, S>& b) {
  const auto i = r.below(S);
  T v = otherNum(r, r.below(2) ? b.min.v[i] : b.max.v[i]);
  if (v > b.max.v[i]) {
    b.max.v[i] = v;
  } else if (v < b.min.v[i] || r.below(2)) {
    b.min.v[i] = v;
  } else {
    b.max.v[i] = v;
  }
}
template <typename T, std::size_t S> void alterSegment(Rng& r, vm::segment<T, S>& s) {
  auto a = s.start(), b = s.end();
  bump(r, r.below(2) ? a : b);
  s = vm::segment<T, S>(a, b);
}
template <typename V> void alterList(Rng& r, std::vector<V>& l) {
  if (l.size() > 1 && r.below(2)) {
    std::swap(l[r.below(l.size())], l[r.below(l.size())]); // same elements, other order
  } else if (!l.empty()) {
    bump(r, l[r.below(l.size())]);
  }
}
template <typename T, std::size_t S> void alterPolygon(Rng& r, vm::polygon<T, S>& g) {
  auto l = g.vertices();
  alterList(r, l);
  g = vm::polygon<T, S>(l);
}
template <typename V> void alterHull(Rng& r, std::vector<V>& l) { // stays in its plane
  if (l.size() > 2) {
    const auto i = r.below(l.size()), j = r.below(l.size());
    if (r.below(2)) {
      std::swap(l[i], l[j]);
    } else {
      l[i] = l[j];
    }
  }
}

template <typename T> void fill(Rng& r, WT<T>& w, u64 g) {
  nearPool(r, w.sc, [](Rng& x) { return num<T>(x); }, [](Rng& x, auto& e) { bump(x, e); }, g);
  nearPool(r, w.pos, [](Rng& x) { return T(1 + int(x.below(64))) / (x.below(2) ? T(1) : T(8)); },
    [](Rng& x, auto& e) { e += T(1 + int(x.below(9))) * (x.below(2) ? T(1e-6) : T(1e-4)); }, g);
  nearPool(r, w.deg, [](Rng& x) { return T(int(x.below(1601)) - 800) / (x.below(2) ? T(1) : T(7)); },
    [](Rng& x, auto& e) { bump(x, e); }, g);
  freePool(r, w.v1, rv<T, 1>, g);
  freePool(r, w.v2, rv<T, 2>, g);
  freePool(r, w.v3, rv<T, 3>, g);
  freePool(r, w.v4, rv<T, 4>, g);
  nearPool(r, w.u2, ru<T, 2>, alterUnit<vm::vec<T, 2>>, g);
  nearPool(r, w.u3, ru<T, 3>, alterUnit<vm::vec<T, 3>>, g);
  nearPool(r, w.u4, ru<T, 4>, alterUnit<vm::vec<T, 4>>, g);
  freePool(r, w.m1, rm<T, 1, 1>, g);
  freePool(r, w.m2, rm<T, 2, 2>, g);
  freePool(r, w.m3, rm<T, 3, 3>, g);
  freePool(r, w.m4, rm<T, 4, 4>, g);
  freePool(r, w.m23, rm<T, 2, 3>, g);
  freePool(r, w.m32, rm<T, 3, 2>, g);
  nearPool(r, w.a3, ra<T, 3>, alterAffine<T, 3>, g);
  nearPool(r, w.a4, ra<T, 4>, alterAffine<T, 4>, g);
  freePool(r, w.q, [](Rng& x) {
    if (x.below(2)) {
      const auto a = ru<T, 4>(x);
      return vm::quat<T>(a.v[0], vm::vec<T, 3>(a.v[1], a.v[2], a.v[3]));
    }
    return vm::quat<T>(num<T>(x), rv<T, 3>(x));
  }, g);
  nearPool(r, w.b1, rb<T, 1>, alterBox<T, 1>, g);
  nearPool(r, w.b2, rb<T, 2>, alterBox<T, 2>, g);
  nearPool(r, w.b3, rb<T, 3>, alterBox<T, 3>, g);
  const auto& ww = w;
  nearPool(r, w.l2, [&](Rng& x) { return vm::line<T, 2>(rv<T, 2>(x), ww.u2[x.below(6)]); },
    [&](Rng& x, auto& e) { if (x.below(2)) bump(x, e.point); else e.direction = ww.u2[x.below(6)]; }, g);
  nearPool(r, w.l3, [&](Rng& x) { return vm::line<T, 3>(rv<T, 3>(x), ww.u3[x.below(9)]); },
    [&](Rng& x, auto& e) { if (x.below(2)) bump(x, e.point); else e.direction = ww.u3[x.below(9)]; }, g);
  nearPool(r, w.r2, [&](Rng& x) { return vm::ray<T, 2>(rv<T, 2>(x), ww.u2[x.below(6)]); },
    [&](Rng& x, auto& e) { if (x.below(2)) bump(x, e.origin); else e.direction = ww.u2[x.below(6)]; }, g);
  nearPool(r, w.r3, [&](Rng& x) {
    return vm::ray<T, 3>(x.below(2) ? rv<T, 3>(x) : ww.v3[x.below(12)], ww.u3[x.below(9)]);
  }, [&](Rng& x, auto& e) { if (x.below(2)) bump(x, e.origin); else e.direction = ww.u3[x.below(9)]; }, g);
  nearPool(r, w.p3, [&](Rng& x) { return vm::plane<T, 3>(num<T>(x), ww.u3[x.below(9)]); },
    [&](Rng& x, auto& e) { if (x.below(2)) bump(x, e.distance); else e.normal = ww.u3[x.below(9)]; }, g);
  nearPool(r, w.s2, [&](Rng& x) { return vm::segment<T, 2>(rv<T, 2>(x), ww.v2[x.below(8)]); },
    alterSegment<T, 2>, g);
  nearPool(r, w.s3, [&](Rng& x) {
    return vm::segment<T, 3>(x.below(2) ? rv<T, 3>(x) : ww.v3[x.below(12)], ww.v3[x.below(12)]);
  }, alterSegment<T, 3>, g);
  nearPool(r, w.g2, [](Rng& x) { return vm::polygon<T, 2>(rlist<T, 2>(x, x.below(6) ? 3 : 0)); },
    alterPolygon<T, 2>, g);
  nearPool(r, w.g3, [](Rng& x) {
    return vm::polygon<T, 3>(x.below(3) ? convexRing<T>(x) : rlist<T, 3>(x, x.below(6) ? 3 : 0));
  }, alterPolygon<T, 3>, g);
  nearPool(r, w.hull, [](Rng& x) { return coplanar<T>(x, x.below(8) ? 3 + x.below(x.below(8) ? 11 : 48) : x.below(3)); },
    alterHull<vm::vec<T, 3>>, g);
  nearPool(r, w.list2, [](Rng& x) { return rlist<T, 2>(x, 1); }, alterList<vm::vec<T, 2>>, g);
  nearPool(r, w.list3, [](Rng& x) { return x.below(2) ? convexRing<T>(x) : rlist<T, 3>(x, 3); },
    alterList<vm::vec<T, 3>>, g);
  nearPool(r, w.list4, [](Rng& x) { return rlist<T, 4>(x, 1); }, alterList<vm::vec<T, 4>>, g);
  arrayPool(r, w.arr2, rv<T, 2>, g);
  arrayPool(r, w.arr3, rv<T, 3>, g);
  arrayPool(r, w.arr4, rv<T, 4>, g);
  arrayPool(r, w.bez, [](Rng& x) {
    std::array<vm::vec<T, 3>, 3> b;
    for (auto& v : b) {
      v = rv<T, 3>(x);
    }
    return b;
  }, g);
  nearPool(r, w.nums, [](Rng& x) {
    std::vector<T> v;
    const auto n = x.below(5);
    for (u64 i = 0; i < n; ++i) {
      v.push_back(num<T>(x));
    }
    return v;
  }, alterList<T>, g);
}
int inum(Rng& r) { return r.below(2) ? int(r.below(7)) - 3 : int(r.below(20001)) - 10000; }
template <typename V> void fillIV(Rng& r, V& v) {
  for (auto& c : v.v) {
    c = inum(r);
  }
}
template <typename P> void poolI(Rng& r, P& p, u64 g) {
  for (auto& e : p) {
    if (g && r.below(2)) {
      e.v[0] = inum(r);
      continue;
    }
    fillIV(r, e);
  }
}
template <typename P> void poolIM(Rng& r, P& p, u64 g) {
  for (auto& e : p) {
    if (g && r.below(2)) {
      continue;
    }
    for (auto& c : e.v) {
      fillIV(r, c);
    }
  }
}
std::string rtext(Rng& r) {
  std::string s;
  static const char* seps[] = {" ", "  ", "\t", " \n", " "};
  const auto n = r.below(18);
  const bool par = r.below(4) == 0;
  for (u64 i = 0; i < n; ++i) {
    if (par && i % 3 == 0) {
      s += "(";
    }
    if (i || r.below(4) == 0) {
      s += seps[r.below(5)];
    }
    char b[48];
    switch (r.below(6)) {
      case 0: snprintf(b, sizeof b, "%d", int(r.below(2001)) - 1000); break;
      case 1: snprintf(b, sizeof b, "%.17g", (r.unit() - 0.5) * 1e5); break;
      case 2: snprintf(b, sizeof b, "%.3e", (r.unit() - 0.5) * 1e5); break;
      case 3: snprintf(b, sizeof b, "%.4f", (r.unit() - 0.5) * 100); break;
      case 4: snprintf(b, sizeof b, "%s", r.below(8) == 0 ? "x" : "0"); break;
      default: snprintf(b, sizeof b, "%d", int(r.below(5)) - 2); break;
    }
    s += b;
    if (par && i % 3 == 2) {
      s += ") ";
    }
  }
  return s;
}

// Values of extreme magnitude, still finite and with finite products of a few factors; unit vectors,
// coplanar point sets and the like keep their shape.
template <typename T> void scaleBy(T& v, T f) { v *= f; }
template <typename T, std::size_t S> void scaleBy(vm::vec<T, S>& v, T f) {
  for (std::size_t i = 0; i < S; ++i) {
    v.v[i] *= f;
  }
}
template <typename T, std::size_t R, std::size_t C> void scaleBy(vm::mat<T, R, C>& m, T f) {
  for (std::size_t i = 0; i < C; ++i) {
    scaleBy(m.v[i], f);
  }
}
template <typename T> void extreme(Rng& r, WT<T>& w) {
  // exponents: products of up to four factors (and squares of products of two) stay finite
  const int hi = std::is_same_v<T, float> ? 20 : 200, tail = std::is_same_v<T, float> ? 110 : 1000;
  const auto factor = [&](int lim) {
    const int e = int(r.below(u64(2 * lim + 1))) - lim;
    return T(std::ldexp(1.0, r.below(2) ? e : e / 5));
  };
  const auto pool = [&](auto& p, int lim) {
    for (auto& e : p) {
      if (r.below(2)) {
        scaleBy(e, factor(lim));
      }
    }
  };
  const auto lists = [&](auto& p) {
    for (auto& l : p) {
      const T f = factor(hi);
      for (auto& e : l) {
        scaleBy(e, f);
      }
    }
  };
  pool(w.sc, r.below(2) ? hi : tail);
  pool(w.pos, hi);
  pool(w.deg, r.below(2) ? hi : tail);
  pool(w.v1, hi);
  pool(w.v2, hi);
  pool(w.v3, hi);
  pool(w.v4, hi);
  pool(w.m1, hi);
  pool(w.m2, hi);
  pool(w.m3, hi);
  pool(w.m4, hi);
  pool(w.m23, hi);
  pool(w.m32, hi);
  lists(w.list2);
  lists(w.list3);
  lists(w.list4);
  lists(w.arr2);
  lists(w.arr3);
  lists(w.arr4);
  lists(w.nums);
  for (auto& b : w.b3) {
    const T f = factor(hi);
    scaleBy(b.min, f);
    scaleBy(b.max, f);
  }
  for (auto& l : w.l3) {
    scaleBy(l.point, factor(hi));
  }
  for (auto& x : w.r3) {
    scaleBy(x.origin, factor(hi));
  }
  for (auto& p : w.p3) {
    scaleBy(p.distance, factor(hi));
  }
  for (auto& x : w.s3) {
    const T f = factor(hi);
    auto a = x.start(), b = x.end();
    scaleBy(a, f);
    scaleBy(b, f);
    x = vm::segment<T, 3>(a, b);
  }
  for (auto& x : w.g3) {
    auto l = x.vertices();
    const T f = factor(hi);
    for (auto& v : l) {
      scaleBy(v, f);
    }
    x = vm::polygon<T, 3>(l);
  }
}

void* buildWorld(u64 seed, u64 genAndMode) {
  World* w = new World();
  const u64 gen = genAndMode & 0xff;
  for (u64 g = 0; g <= gen; ++g) {
    Rng r(sim::mix2(seed, g + 1));
    fill(r, w->f, g);
    fill(r, w->d, g);
    for (auto& s : w->i.sc) {
      s = inum(r);
    }
    poolI(r, w->i.v2, g);
    poolI(r, w->i.v3, g);
    poolI(r, w->i.v4, g);
    poolIM(r, w->i.m2, g);
    poolIM(r, w->i.m3, g);
    poolIM(r, w->i.m4, g);
    for (auto& t : w->text) {
      if (g == 0 || r.below(2)) {
        t = rtext(r);
      }
    }
  }
  if (genAndMode & 0x100) {
    Rng r(sim::mix2(seed, 0xE0));
    extreme(r, w->f);
    extreme(r, w->d);
  }
  return w;
}

// ---- content hash: operands must never change ----
template <typename P> void foldPool(Out& o, const P& p) {
  for (const auto& e : p) {
    o(e);
  }
}
template <typename T> void foldWT(Out& o, const WT<T>& w) {
  foldPool(o, w.sc);
  foldPool(o, w.pos);
  foldPool(o, w.deg);
  foldPool(o, w.v1);
  foldPool(o, w.v2);
  foldPool(o, w.v3);
  foldPool(o, w.v4);
  foldPool(o, w.u2);
  foldPool(o, w.u3);
  foldPool(o, w.u4);
  foldPool(o, w.m1);
  foldPool(o, w.m2);
  foldPool(o, w.m3);
  foldPool(o, w.m4);
  foldPool(o, w.m23);
  foldPool(o, w.m32);
  foldPool(o, w.a3);
  foldPool(o, w.a4);
  foldPool(o, w.q);
  foldPool(o, w.b1);
  foldPool(o, w.b2);
  foldPool(o, w.b3);
  foldPool(o, w.l2);
  foldPool(o, w.l3);
  foldPool(o, w.r2);
  foldPool(o, w.r3);
  foldPool(o, w.p3);
  foldPool(o, w.s2);
  foldPool(o, w.s3);
  foldPool(o, w.g2);
  foldPool(o, w.g3);
  foldPool(o, w.hull);
  foldPool(o, w.list2);
  foldPool(o, w.list3);
  foldPool(o, w.list4);
  foldPool(o, w.arr2);
  foldPool(o, w.arr3);
  foldPool(o, w.arr4);
  foldPool(o, w.bez);
  foldPool(o, w.nums);
}
u64 hashWorld(const void* p) {
  const World& w = *static_cast<const World*>(p);
  CatRes r;
  Out o{&r};
  foldWT(o, w.f);
  foldWT(o, w.d);
  foldPool(o, w.i.sc);
  foldPool(o, w.i.v2);
  foldPool(o, w.i.v3);
  foldPool(o, w.i.v4);
  foldPool(o, w.i.m2);
  foldPool(o, w.i.m3);
  foldPool(o, w.i.m4);
  foldPool(o, w.text);
  return r.hash;
}
void assignWorld(void* d, const void* s) { *static_cast<World*>(d) = *static_cast<const World*>(s); }
const char* opName(int i) { return table()[std::size_t(i)].name.c_str(); }
const char* opText(int i) { return table()[std::size_t(i)].text; }
int count() {
  if (table().empty()) {
    if (regScalar) regScalar();
    if (regVecF) regVecF();
    if (regVecD) regVecD();
    if (regMatF) regMatF();
    if (regMatD) regMatD();
    if (regGeoF) regGeoF();
    if (regGeoD) regGeoD();
    if (regIo) regIo();
  }
  return int(table().size());
}
void runOne(int op, const void* wa, const void* wb, const u64* sel, u64 failAt, CatRes* out) {
  Args a{{static_cast<const World*>(wa), static_cast<const World*>(wb)}, sel, failAt & 0xffffffffu};
  *out = CatRes();
  Out o{out};
  if (failAt >> 32) { // a single one of its evaluations
    o.parts = table()[std::size_t(op)].parts;
    o.part = 1 + ((failAt >> 32) - 1) % o.parts;
  }
  try {
    table()[std::size_t(op)].fn(a, o);
  } catch (const std::bad_alloc&) {
    out->threw = 1;
  } catch (const sim::Fault&) {
    out->threw = 2;
  } catch (...) {
    out->threw = 3;
  }
}
} // namespace
CatApi api() { return {count, opName, opText, buildWorld, assignWorld, hashWorld, runOne}; }
} // namespace catns
