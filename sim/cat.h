// The operation catalogue: (nearly) every public operation of the library as a
// function of values picked from a pool ("world"). The catalogue may be compiled
// several times into one binary with different flags; then `vm` and `catns` are
// renamed on the command line so that the copies do not share code.
#pragma once
#include "sim.h"

#include <array>
#include <cstring>
#include <limits>
#include <optional>
#include <string>
#include <tuple>
#include <vector>

#include <vecmath/abstract_line.h>
#include <vecmath/approx.h>
#include <vecmath/bbox.h>
#include <vecmath/bbox_io.h>
#include <vecmath/bezier_surface.h>
#include <vecmath/constants.h>
#include <vecmath/convex_hull.h>
#include <vecmath/distance.h>
#include <vecmath/forward.h>
#include <vecmath/intersection.h>
#include <vecmath/line.h>
#include <vecmath/line_io.h>
#include <vecmath/mat.h>
#include <vecmath/mat_ext.h>
#include <vecmath/mat_io.h>
#include <vecmath/plane.h>
#include <vecmath/plane_io.h>
#include <vecmath/polygon.h>
#include <vecmath/quat.h>
#include <vecmath/ray.h>
#include <vecmath/ray_io.h>
#include <vecmath/scalar.h>
#include <vecmath/segment.h>
#include <vecmath/util.h>
#include <vecmath/vec.h>
#include <vecmath/vec_ext.h>
#include <vecmath/vec_io.h>

#include "cat_api.h"

namespace catns {
using sim::Rng;
using sim::u64;
using sim::u8;

template <typename T> struct WT {
  T sc[12];
  T pos[6];
  T deg[8];
  vm::vec<T, 1> v1[6];
  vm::vec<T, 2> v2[8];
  vm::vec<T, 3> v3[12];
  vm::vec<T, 4> v4[8];
  vm::vec<T, 2> u2[6];
  vm::vec<T, 3> u3[9];
  vm::vec<T, 4> u4[4];
  vm::mat<T, 1, 1> m1[3];
  vm::mat<T, 2, 2> m2[6];
  vm::mat<T, 3, 3> m3[7];
  vm::mat<T, 4, 4> m4[7];
  vm::mat<T, 2, 3> m23[3];
  vm::mat<T, 3, 2> m32[3];
  vm::mat<T, 3, 3> a3[5];
  vm::mat<T, 4, 4> a4[8];
  vm::quat<T> q[7];
  vm::bbox<T, 1> b1[3];
  vm::bbox<T, 2> b2[5];
  vm::bbox<T, 3> b3[8];
  vm::line<T, 2> l2[4];
  vm::line<T, 3> l3[6];
  vm::ray<T, 2> r2[5];
  vm::ray<T, 3> r3[10];
  vm::plane<T, 3> p3[9];
  vm::segment<T, 2> s2[5];
  vm::segment<T, 3> s3[8];
  vm::polygon<T, 2> g2[5];
  vm::polygon<T, 3> g3[6];
  std::vector<vm::vec<T, 3>> hull[6];
  std::vector<vm::vec<T, 2>> list2[4];
  std::vector<vm::vec<T, 3>> list3[5];
  std::vector<vm::vec<T, 4>> list4[3];
  std::array<vm::vec<T, 2>, 3> arr2[3];
  std::array<vm::vec<T, 3>, 4> arr3[3];
  std::array<vm::vec<T, 4>, 2> arr4[3];
  std::array<std::array<vm::vec<T, 3>, 3>, 3> bez[3];
  std::vector<T> nums[3];
};
struct WI {
  int sc[8];
  vm::vec<int, 2> v2[6];
  vm::vec<int, 3> v3[8];
  vm::vec<int, 4> v4[6];
  vm::mat<int, 2, 2> m2[4];
  vm::mat<int, 3, 3> m3[4];
  vm::mat<int, 4, 4> m4[4];
};
struct World {
  WT<float> f;
  WT<double> d;
  WI i;
  std::string text[14];
};

template <typename T> const WT<T>& part(const World& w) {
  if constexpr (std::is_same_v<T, float>) {
    return w.f;
  } else {
    return w.d;
  }
}

struct Args {
  const World* w[2]; // identical content; argument k is taken from w[k & 1]
  const u64* sel;
  u64 failAt; // the failAt-th getter/iterator call throws (0: never)
  mutable u64 calls = 0;
  u64 n(std::size_t k) const { return sel[k]; }
  template <typename A> const auto& at(const A& pool, std::size_t k) const {
    return pool[sel[k] % (sizeof(pool) / sizeof(pool[0]))];
  }
  template <typename T> const WT<T>& W(std::size_t k) const { return part<T>(*w[k & 1]); }
  void tick() const {
    ++calls;
    if (failAt && calls == failAt) {
      sim::throwFault(failAt, false);
    }
  }
#define POOL(NAME, MEMBER)                                                                         \
  template <typename T> const auto& NAME(std::size_t k) const { return at(W<T>(k).MEMBER, k); }
  POOL(sc, sc)
  POOL(pos, pos)
  POOL(deg, deg)
  POOL(q, q)
  POOL(m23, m23)
  POOL(m32, m32)
  POOL(p, p3)
  POOL(hull, hull)
  POOL(bez, bez)
  POOL(nums, nums)
#undef POOL
#define POOLS(NAME, ...)                                                                           \
  template <typename T, std::size_t S> const auto& NAME(std::size_t k) const {                     \
    const auto& x = W<T>(k);                                                                       \
    __VA_ARGS__                                                                                    \
  }
  POOLS(v, if constexpr (S == 1) return at(x.v1, k); else if constexpr (S == 2) return at(x.v2, k);
        else if constexpr (S == 3) return at(x.v3, k); else return at(x.v4, k);)
  POOLS(u, if constexpr (S == 2) return at(x.u2, k); else if constexpr (S == 3) return at(x.u3, k);
        else return at(x.u4, k);)
  POOLS(m, if constexpr (S == 1) return at(x.m1, k); else if constexpr (S == 2) return at(x.m2, k);
        else if constexpr (S == 3) return at(x.m3, k); else return at(x.m4, k);)
  POOLS(a, if constexpr (S == 3) return at(x.a3, k); else return at(x.a4, k);)
  POOLS(b, if constexpr (S == 1) return at(x.b1, k); else if constexpr (S == 2) return at(x.b2, k);
        else return at(x.b3, k);)
  POOLS(l, if constexpr (S == 2) return at(x.l2, k); else return at(x.l3, k);)
  POOLS(r, if constexpr (S == 2) return at(x.r2, k); else return at(x.r3, k);)
  POOLS(s, if constexpr (S == 2) return at(x.s2, k); else return at(x.s3, k);)
  POOLS(g, if constexpr (S == 2) return at(x.g2, k); else return at(x.g3, k);)
  POOLS(list, if constexpr (S == 2) return at(x.list2, k);
        else if constexpr (S == 3) return at(x.list3, k); else return at(x.list4, k);)
  POOLS(arr, if constexpr (S == 2) return at(x.arr2, k);
        else if constexpr (S == 3) return at(x.arr3, k); else return at(x.arr4, k);)
#undef POOLS
  template <std::size_t S> const auto& iv(std::size_t k) const {
    const auto& x = w[k & 1]->i;
    if constexpr (S == 2)
      return at(x.v2, k);
    else if constexpr (S == 3)
      return at(x.v3, k);
    else
      return at(x.v4, k);
  }
  template <std::size_t S> const auto& im(std::size_t k) const {
    const auto& x = w[k & 1]->i;
    if constexpr (S == 2)
      return at(x.m2, k);
    else if constexpr (S == 3)
      return at(x.m3, k);
    else
      return at(x.m4, k);
  }
  int isc(std::size_t k) const { return at(w[k & 1]->i.sc, k); }
  const std::string& text(std::size_t k) const { return at(w[k & 1]->text, k); }
};

// a getter that can fail
struct Get {
  const Args* a;
  template <typename X> X operator()(const X& x) const {
    a->tick();
    return x;
  }
};

// ---- result folding ----
struct Out {
  CatRes* r;
  u64 part = 0, parts = 1, at = 0; // part: 0 everything, n only every n-th evaluation of the operation
  bool want() { return part == 0 || at++ % parts == part - 1; }
  void raw(u64 bits, double shown) {
    r->hash = sim::mix2(r->hash, bits);
    if (r->n < CatRes::kShow) {
      r->show[r->n] = shown;
    }
    ++r->n;
  }
  void operator()(bool v) { raw(v, v); }
  void operator()(int v) { raw(u64(std::int64_t(v)), v); }
  void operator()(unsigned v) { raw(v, v); }
  void operator()(std::size_t v) { raw(v, double(v)); }
  void operator()(double v) {
    u64 b = 0x7ff8000000000000ull;
    if (v == v) {
      std::memcpy(&b, &v, 8);
    }
    raw(b, v);
  }
  void operator()(float v) {
    sim::u32 b = 0x7fc00000u;
    if (v == v) {
      std::memcpy(&b, &v, 4);
    }
    raw(b, double(v));
  }
  template <typename E, typename = std::enable_if_t<std::is_enum_v<E>>> void operator()(E e) {
    raw(u64(e), double(u64(e)));
  }
  void operator()(const std::string& s) {
    raw(sim::fold(s.size() + 11, s.data(), s.size()), double(s.size()));
  }
  template <typename T, std::size_t S> void operator()(const vm::vec<T, S>& v) {
    for (std::size_t i = 0; i < S; ++i) {
      (*this)(v.v[i]);
    }
  }
  template <typename T, std::size_t R, std::size_t C> void operator()(const vm::mat<T, R, C>& m) {
    for (std::size_t i = 0; i < C; ++i) {
      (*this)(m.v[i]);
    }
  }
  template <typename T> void operator()(const vm::quat<T>& q) {
    (*this)(q.r);
    (*this)(q.v);
  }
  template <typename T, std::size_t S> void operator()(const vm::bbox<T, S>& b) {
    (*this)(b.min);
    (*this)(b.max);
  }
  template <typename T, std::size_t S> void operator()(const vm::line<T, S>& l) {
    (*this)(l.point);
    (*this)(l.direction);
  }
  template <typename T, std::size_t S> void operator()(const vm::ray<T, S>& l) {
    (*this)(l.origin);
    (*this)(l.direction);
  }
  template <typename T, std::size_t S> void operator()(const vm::plane<T, S>& l) {
    (*this)(l.distance);
    (*this)(l.normal);
  }
  template <typename T, std::size_t S> void operator()(const vm::segment<T, S>& l) {
    (*this)(l.start());
    (*this)(l.end());
  }
  template <typename T, std::size_t S> void operator()(const vm::polygon<T, S>& l) {
    (*this)(l.vertices());
  }
  template <typename T> void operator()(const vm::point_distance<T>& l) {
    (*this)(l.position);
    (*this)(l.distance);
  }
  template <typename T> void operator()(const vm::line_distance<T>& l) {
    (*this)(l.parallel);
    (*this)(l.position1);
    (*this)(l.distance);
    (*this)(l.position2);
  }
  template <typename T> void operator()(const std::optional<T>& o) {
    (*this)(o.has_value());
    if (o) {
      (*this)(*o);
    }
  }
  template <typename T> void operator()(const std::vector<T>& v) {
    (*this)(v.size());
    for (const auto& x : v) {
      (*this)(x);
    }
  }
  template <typename T, std::size_t N> void operator()(const std::array<T, N>& v) {
    for (const auto& x : v) {
      (*this)(x);
    }
  }
  template <typename... Ts> void operator()(const std::tuple<Ts...>& t) {
    std::apply([&](const auto&... x) { ((*this)(x), ...); }, t);
  }
};

using OpFn = void (*)(const Args&, Out&);
void addOp(const std::string& name, OpFn fn, const char* text);
template <typename T> const char* tname() {
  if constexpr (std::is_same_v<T, float>)
    return "f";
  else if constexpr (std::is_same_v<T, double>)
    return "d";
  else
    return "i";
}
} // namespace catns

#define OPT(NAME, ...)                                                                            \
  ::catns::addOp(std::string(NAME) + "<" + ::catns::tname<T>() + ">",                              \
    +[]([[maybe_unused]] const ::catns::Args& a, ::catns::Out& o) { __VA_ARGS__; }, #__VA_ARGS__);
#define OPS(NAME, ...)                                                                            \
  ::catns::addOp(std::string(NAME) + "<" + ::catns::tname<T>() + std::to_string(S) + ">",          \
    +[]([[maybe_unused]] const ::catns::Args& a, ::catns::Out& o) { __VA_ARGS__; }, #__VA_ARGS__);
#ifndef CAT_WORLD
// one evaluation of an operation
#define o(...) (o.want() ? o(__VA_ARGS__) : void())
#endif
