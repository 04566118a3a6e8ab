// C29: every operation finishes within a number of steps bounded by the size of its operands, also with
// re-entrant callbacks, after failures and under every schedule. Everything here and in the catalogue is
// compiled with a step counter at every basic block; the scheduler pre-empts on it.
#include "cat_api.h"
#include "sim.h"

#include <algorithm>
#include <array>
#include <cmath>
#include <cstdio>
#include <iterator>
#include <limits>
#include <string>
#include <string_view>
#include <vector>

#include <vecmath/bbox.h>
#include <vecmath/convex_hull.h>
#include <vecmath/distance.h>
#include <vecmath/line.h>
#include <vecmath/intersection.h>
#include <vecmath/mat_ext.h>
#include <vecmath/mat_io.h>
#include <vecmath/plane.h>
#include <vecmath/polygon.h>
#include <vecmath/quat.h>
#include <vecmath/scalar.h>
#include <vecmath/segment.h>
#include <vecmath/vec.h>
#include <vecmath/vec_io.h>

namespace catns {
CatApi api();
}

namespace {
using namespace sim;
CatApi A;
int nOps = 0;
void* worlds[4]; // two ordinary generations, two of extreme magnitude

enum { L_CAT, L_PARSE, L_HULL, L_POLYGON, L_SCALAR, L_RANGE, L_NEST, L_KINDS };
const char* kindNames[] = {"operation", "parse", "convex-hull", "polygon", "scalar", "range", "nested-callbacks"};
enum { A_WHAT, A_SEED, A_SIZE, A_SLICE, A_FAIL, A_ALLOC, A_STYLE, A_COUNT };

// The most any operation takes on the current tree is about a hundredth of this.
u64 budget(u64 n) { return 300000 + 20000 * n + 400 * n * n; }

struct Call {
  const Op* op;
  std::string what;
  Call(const Op& o, std::string w, u64 size, bool alloc = true)
    : op(&o)
    , what(std::move(w)) {
    // from 100: no more memory at all until the operation has ended
    armAlloc(alloc ? o.arg(A_ALLOC) % 100 : 0, o.arg(A_ALLOC) < 100 ? 1 : 1000000000, true);
    tickBudget(budget(size), o.arg(A_SLICE), what.c_str());
    size_ = size;
  }
  u64 size_;
  ~Call() {
    const u64 t = ticks();
    tickBudget(0, 0);
    disarmAlloc();
    note(K_RESULT, t);
    if (t * 20 > budget(size_)) {
      probe("took-more-than-a-twentieth-of-the-budget");
    }
    say("%s size %llu took %llu steps (budget %llu)", what.c_str(), (unsigned long long)size_,
      (unsigned long long)t, (unsigned long long)budget(size_));
  }
};
// runs f; an injected failure may end it
template <typename F> void attempt(const Op& op, const std::string& what, u64 size, F f, bool alloc = true) {
  try {
    Call c(op, what, size, alloc);
    f();
  } catch (const Fault&) {
    probe("ended-by-a-failure");
  } catch (const std::bad_alloc&) {
    probe("ended-by-a-failure");
  }
}

template <typename T> T anyFinite(Rng& r) {
  for (;;) {
    T v;
    switch (r.below(6)) {
      case 0: v = T((r.unit() - 0.5) * 20.0); break;
      case 1: v = T(std::ldexp(r.unit() - 0.5, int(r.below(120)) - 60)); break;
      case 2: {
        static const double k[] = {0.0, 1.0, 360.0, 1e7, 1e9, 4294967296.0, 1e17, 1e18, 9.3e18, 1e30, 1e-30};
        v = T(k[r.below(11)] * (r.below(2) ? 1 : -1));
        break;
      }
      default:
        if constexpr (sizeof(T) == 4) {
          const u32 b = u32(r.next());
          std::memcpy(&v, &b, 4);
        } else {
          const u64 b = r.next();
          std::memcpy(&v, &b, 8);
        }
    }
    if (v - v == T(0)) {
      return v;
    }
  }
}

// ---- texts
std::string anyText(Rng& r, u64 n, u64 style) {
  std::string s;
  static const char* pieces[] = {"1", "0", "-", "+", ".", "e", "1e", "1e9999", "nan", "inf", "0x", " ", "  ", "\t", "\n",
    "\r", "(", ")", " ( ", " ) ", "1 2 3", "-0.5", "3.25e-3", "\v", "\f", ",", "x", "1 2", "12345678901234567890"};
  const auto runOf = pieces[r.below(sizeof(pieces) / sizeof(pieces[0]))];
  while (s.size() < n) {
    switch (style % 6) {
      case 0: s += char(r.below(256)); break;
      case 1: s += pieces[r.below(sizeof(pieces) / sizeof(pieces[0]))]; break;
      case 2: s += runOf; break; // one piece over and over
      case 3: // well-formed numbers
        s += std::to_string(int(r.below(2001)) - 1000);
        s += r.below(5) ? " " : "\t \n";
        break;
      case 4: s += "(" + std::to_string(r.below(50)) + " " + std::to_string(r.below(50)) + " 1) "; break;
      default:
        s += r.below(30) ? " 1" : pieces[r.below(sizeof(pieces) / sizeof(pieces[0]))];
        if (r.below(60) == 0) {
          s += char(0);
        }
    }
  }
  s.resize(n);
  return s;
}
template <typename T, std::size_t S> void parseS(const Op& op, Rng& r, const std::string& text) {
  const auto n = text.size();
  const std::string_view v(text);
  switch (r.below(3)) {
    case 0: attempt(op, "parse", n, [&] { (void)vm::parse<T, S>(v); }); break;
    case 1: {
      std::vector<vm::vec<T, S>> out;
      attempt(op, "parse_all", n, [&] { vm::parse_all<T, S>(v, std::back_inserter(out)); });
      break;
    }
    default:
      if constexpr (S > 1) {
        attempt(op, "parse of a matrix", n, [&] { (void)vm::parse<T, S, S>(v); });
      }
  }
}
template <typename T> void parseT(const Op& op, Rng& r, const std::string& t) {
  switch (r.below(4)) {
    case 0: parseS<T, 1>(op, r, t); break;
    case 1: parseS<T, 2>(op, r, t); break;
    case 2: parseS<T, 3>(op, r, t); break;
    default: parseS<T, 4>(op, r, t);
  }
}

// ---- point sets
template <typename T> std::vector<vm::vec<T, 3>> points(Rng& r, u64 n, u64 style) {
  std::vector<vm::vec<T, 3>> out;
  const u64 grid = style % 5 == 4 ? 2 : style % 5 == 3 ? 5 : 33;
  const auto axis = r.below(3);
  // for floats coordinates and their products stay exact
  const T scale = T(std::ldexp(1.0, int(r.below(41)) - 20));
  const bool line = style % 7 == 3;
  const int slope = int(r.below(3)) - 1;
  for (u64 i = 0; i < n; ++i) {
    int x = int(r.below(grid)), y = line ? 2 * x + 1 : int(r.below(grid));
    if (style % 5 == 1) { // sorted along the grid
      x = int(i % 17);
      y = int(i / 17);
    } else if (style % 5 == 2 && !line) { // a ring
      x = int(std::lround(16.0 + 16.0 * std::cos(6.283185307179586 * double(i) / double(n))));
      y = int(std::lround(16.0 + 16.0 * std::sin(6.283185307179586 * double(i) / double(n))));
    }
    vm::vec<T, 3> p;
    p.v[axis] = T(3 + slope * x) * scale;
    p.v[(axis + 1) % 3] = T(x - 8) * scale;
    p.v[(axis + 2) % 3] = T(y - 8) * scale;
    out.push_back(p);
  }
  return out;
}
template <typename T> void hullT(const Op& op, Rng& r) {
  const auto n = op.arg(A_SIZE);
  const auto pts = points<T>(r, n, op.arg(A_STYLE));
  attempt(op, "convex_hull", n, [&] { (void)vm::convex_hull(pts); });
}
template <typename T> void polygonT(const Op& op, Rng& r) {
  const auto n = op.arg(A_SIZE) + 1;
  const auto pts = points<T>(r, n, op.arg(A_STYLE));
  auto other = pts;
  switch (r.below(4)) {
    case 0: std::reverse(other.begin(), other.end()); break;
    case 1: std::rotate(other.begin(), other.begin() + std::ptrdiff_t(r.below(n)), other.end()); break;
    case 2: other = points<T>(r, n, op.arg(A_STYLE) + 1); break;
    default: break;
  }
  const auto m = vm::translation_matrix(vm::vec<T, 3>(T(1), T(2), T(3)));
  const vm::ray<T, 3> ray(vm::vec<T, 3>(T(1), T(2), T(-50)), vm::vec<T, 3>(T(0), T(0), T(1)));
  attempt(op, "building and comparing polygons", n, [&] {
    const vm::polygon<T, 3> p(pts), q(other);
    (void)vm::compare(p, q);
    (void)vm::compareUnoriented(p, q);
    (void)(p == q);
    (void)p.invert();
    (void)p.center();
    (void)p.hasVertex(other.back());
    (void)p.transform(m);
    (void)vm::polygon<double, 3>(p);
  });
  if (n >= 3) {
    attempt(op, "point in polygon", n, [&] {
      (void)vm::polygon_contains_point(pts[n / 2], pts.begin(), pts.end());
      (void)vm::polygon_contains_point(other.back(), vm::axis::type(r.below(3)), pts.begin(), pts.end());
      (void)vm::intersect_ray_polygon(ray, pts.begin(), pts.end());
    });
  }
}
template <typename T> void scalarT(const Op& op, Rng& r) {
  T x[6];
  for (auto& v : x) {
    v = anyFinite<T>(r);
  }
  const T p = x[1] == T(0) ? T(1) : std::abs(x[1]);
  T sink = 0;
  const auto eps = vm::constants<T>::almost_zero();
  switch (op.arg(A_WHAT) % 22) {
    case 0: attempt(op, "normalize_radians", 1, [&] { sink += vm::normalize_radians(x[0]); }); break;
    case 1: attempt(op, "normalize_degrees", 1, [&] { sink += vm::normalize_degrees(x[0]); }); break;
    case 2: attempt(op, "mod", 1, [&] { sink += vm::mod(x[0], p); }); break;
    case 3: attempt(op, "floor and ceil", 1, [&] { sink += vm::floor(x[0]) + vm::ceil(x[0]) + vm::fract(x[0]); }); break;
    case 4: attempt(op, "round", 1, [&] { sink += vm::round(x[0]) + vm::round_up(x[0]) + vm::round_down(x[0]); }); break;
    case 5: attempt(op, "snap", 1, [&] { sink += vm::snap(x[0], p) + vm::snapUp(x[0], p) + vm::snapDown(x[0], p); }); break;
    case 6: attempt(op, "correct", 1, [&] { sink += vm::correct(x[0], std::size_t(r.below(12))); }); break;
    case 7: attempt(op, "sqrt_c", 1, [&] { sink += vm::sqrt_c(p) + vm::sqrt_c(x[0]); }); break;
    case 8: attempt(op, "nextgreater", 1, [&] { sink += vm::nextgreater(x[0]); }); break;
    case 9: attempt(op, "solve_quadratic", 1, [&] { (void)vm::solve_quadratic(p, x[2], x[3], eps); }); break;
    case 10: attempt(op, "solve_cubic", 1, [&] { (void)vm::solve_cubic(p, x[2], x[3], x[4], eps); }); break;
    case 11: attempt(op, "solve_quartic", 1, [&] { (void)vm::solve_quartic(p, x[2], x[3], x[4], x[5], eps); }); break;
    case 12: attempt(op, "to_radians", 1, [&] { sink += vm::to_radians(x[0]) + vm::to_degrees(x[0]); }); break;
    case 13: {
      const vm::vec<T, 3> v(x[0], x[1], x[2]), w(x[3], x[4], x[5]);
      attempt(op, "vector lengths and normalisation", 1, [&] {
        sink += vm::length(v) + vm::length_c(v) + vm::dot(v, w) + vm::normalize(v).v[0] + vm::normalize_c(w).v[0]
                + vm::snap(v, vm::vec<T, 3>(p, p, p)).v[0] + vm::round(v).v[0] + vm::correct(v, 3).v[0];
        sink += T(vm::find_abs_max_component(v)) + T(vm::get_abs_max_component(w, 1));
      });
      break;
    }
    case 14: {
      vm::mat<T, 4, 4> m;
      for (std::size_t c = 0; c < 4; ++c) {
        for (std::size_t q = 0; q < 4; ++q) {
          m[c][q] = x[(c * 4 + q) % 6] * T(int(r.below(5)) - 2);
        }
      }
      attempt(op, "matrix inversion", 1, [&] {
        (void)vm::invert(m);
        sink += vm::compute_determinant(m);
        (void)vm::transpose(m);
        (void)vm::lup_solve(m, vm::vec<T, 4>(x[0], x[1], x[2], x[3]));
      });
      break;
    }
    case 15: {
      const vm::vec<T, 3> axis(T(0), T(0), T(1));
      attempt(op, "rotations by any angle", 1, [&] {
        sink += vm::rotation_matrix(axis, x[0])[0][0] + vm::rotation_matrix(x[0], x[1], x[2])[1][1];
        sink += vm::quat<T>(axis, x[0]).angle();
      });
      break;
    }
    case 16: {
      const vm::ray<T, 3> ray(vm::vec<T, 3>(x[0], x[1], x[2]), vm::vec<T, 3>(T(1), T(0), T(0)));
      attempt(op, "ray intersections", 1, [&] {
        (void)vm::intersect_ray_sphere(ray, vm::vec<T, 3>(x[3], x[4], x[5]), p);
        (void)vm::intersect_ray_torus(ray, vm::vec<T, 3>(x[3], x[4], x[5]), p + p, p);
        const T e = std::abs(x[3]);
        (void)vm::intersect_ray_bbox(ray, vm::bbox<T, 3>(vm::vec<T, 3>(-e, -e, -e), vm::vec<T, 3>(e, e, e)));
      });
      break;
    }
    case 17: {
      const auto count = 1 + int(r.below(r.below(2) ? 8 : 1u << 20)), index = int(r.below(u64(count)));
      const auto stride = int(r.below(r.below(2) ? 8 : 1u << 29));
      const auto lcount = 1 + r.below(r.below(2) ? 8 : u64(1) << 62), lindex = r.below(lcount), lstride = r.below(r.below(2) ? 8 : u64(1) << 62);
      attempt(op, "circular successors", 1, [&] {
        sink += T(vm::succ(index, count, stride)) + T(vm::pred(index, count, stride));
        sink += T(vm::succ(std::size_t(lindex), std::size_t(lcount), std::size_t(lstride)));
        sink += T(vm::pred(std::size_t(lindex), std::size_t(lcount), std::size_t(lstride % lcount)));
      });
      break;
    }
    case 18: {
      const vm::vec<T, 3> v(x[0], x[1], x[2]), w(x[3], x[4], x[5]), z(T(0), T(0), T(1));
      attempt(op, "planes and lines anywhere", 1, [&] {
        const vm::plane<T, 3> pl(x[0], z);
        sink += pl.point_distance(v) + pl.project_point(w)[0] + pl.at(v.xy(), vm::axis::z) + T(int(pl.point_status(w)));
        sink += pl.anchor()[2];
        const vm::line<T, 3> l(v, z);
        sink += vm::squared_distance(vm::ray<T, 3>(v, z), l).distance + l.make_canonical().point[0];
        sink += vm::squared_distance(vm::ray<T, 3>(v, z), w).distance;
        sink += vm::squared_distance(vm::ray<T, 3>(w, z), vm::segment<T, 3>(v, w)).distance;
        (void)vm::intersect_ray_plane(vm::ray<T, 3>(w, z), pl);
        (void)vm::intersect_ray_triangle(vm::ray<T, 3>(w, z), v, w, z);
      });
      break;
    }
    case 19: {
      const vm::vec<T, 3> lo(-std::abs(x[0]), -std::abs(x[1]), -std::abs(x[2])), hi(std::abs(x[3]), std::abs(x[4]), std::abs(x[5]));
      const vm::bbox<T, 3> b(lo, hi);
      attempt(op, "boxes of any size", 1, [&] {
        sink += b.center()[0] + b.size()[1] + b.volume() + b.expand(std::abs(x[0])).min[0];
        sink += T(b.contains(lo)) + T(b.intersects(b.translate(hi))) + vm::merge(b, b).max[0];
        sink += T(vm::repair(b).is_empty()) + b.constrain(vm::vec<T, 3>(x[5], x[4], x[3]))[0];
        sink += b.transform(vm::translation_matrix(hi)).min[0];
      });
      break;
    }
    case 20: {
      const vm::vec<T, 3> v(x[0], x[1], x[2]), w(x[3], x[4], x[5]), z(T(0), T(0), T(1));
      attempt(op, "angles of any vectors", 1, [&] {
        sink += vm::measure_angle(v, w, z) + T(vm::is_colinear(v, w, z)) + T(vm::is_between(v, w, z));
        sink += T(vm::find_max_component(v, 2)) + vm::get_abs_max_component_axis(w)[0];
        sink += vm::rotation_matrix_to_euler_angles(vm::rotation_matrix(x[0], x[1], x[2]))[0];
      });
      break;
    }
    default:
      attempt(op, "interpolation", 1, [&] {
        sink += vm::mix(x[0], x[1], x[2]) + vm::smoothstep(x[0], x[1], x[2]) + vm::clamp(x[0], -p, p) + vm::sign(x[3]);
      });
  }
  volatile T keep = sink;
  (void)keep;
}

// ---- callbacks that use the library, to some depth
struct Nest {
  const Op* op;
  u64 calls = 0;
  u64 failAt = 0;
  Rng r{0};
  void enter(int depth);
  void call(int depth) {
    ++calls;
    yield(K_CALL, calls);
    if (failAt && calls == failAt) {
      fault("callback-failure");
      throwFault(calls);
    }
    // only some of the calls go deeper, so that the number of calls stays small
    if (depth > 0 && calls < 400 && r.below(4) == 0) {
      probe("callback-used-the-library");
      enter(depth - 1);
    }
  }
};
struct NestOut {
  using iterator_category = std::output_iterator_tag;
  using value_type = void;
  using difference_type = std::ptrdiff_t;
  using pointer = void;
  using reference = void;
  Nest* n;
  int depth;
  NestOut& operator*() { return *this; }
  NestOut& operator++() { return *this; }
  NestOut operator++(int) { return *this; }
  template <typename X> NestOut& operator=(const X&) {
    n->call(depth);
    return *this;
  }
};
void Nest::enter(int depth) {
  using V = vm::vec<double, 3>;
  const vm::bbox<double, 3> box(V(0, 0, 0), V(1, 2, 3));
  std::vector<V> l{V(0, 0, 1), V(4, 0, 1), V(4, 4, 1), V(0, 4, 1)};
  auto get = [&](const V& v) {
    call(depth);
    return v;
  };
  switch (r.below(14)) {
    case 0: box.for_each_face([&](auto, auto, auto, auto, auto) { call(depth); }); break;
    case 1: box.for_each_edge([&](auto, auto) { call(depth); }); break;
    case 2: box.for_each_vertex([&](auto) { call(depth); }); break;
    case 3: (void)vm::bbox<double, 3>::merge_all(l.begin(), l.end(), get); break;
    case 4: (void)vm::average(l.begin(), l.end(), get); break;
    case 5: (void)vm::from_points(l.begin(), l.end(), get); break;
    case 6: (void)vm::polygon_contains_point(V(1, 1, 1), l.begin(), l.end(), get); break;
    case 7: (void)vm::intersect_ray_polygon(vm::ray<double, 3>(V(1, 1, 9), V(0, 0, -1)), l.begin(), l.end(), get); break;
    case 8: {
      vm::bbox<double, 3>::builder b;
      b.add(l.begin(), l.end(), get);
      (void)b.bounds();
      break;
    }
    case 9: vm::parse_all<double, 2>("1 2 3 4 5 6", NestOut{this, depth}); break;
    case 10: {
      const std::vector<vm::segment<double, 3>> s{{l[0], l[1]}, {l[2], l[1]}};
      vm::segment<double, 3>::get_vertices(s.begin(), s.end(), NestOut{this, depth});
      break;
    }
    case 11: {
      const std::vector<vm::polygon<double, 3>> s{vm::polygon<double, 3>(l)};
      vm::polygon<double, 3>::get_vertices(s.begin(), s.end(), NestOut{this, depth});
      break;
    }
    case 12: {
      (void)vm::convex_hull(l);
      (void)vm::invert(vm::translation_matrix(l[1]));
      break;
    }
    default: {
      std::vector<V> k = l;
      (void)vm::compare(l.begin(), l.end(), k.begin(), k.end(), 0.0);
      (void)(vm::polygon<double, 3>(l) == vm::polygon<double, 3>(k));
    }
  }
}

template <typename T> void rangeT(const Op& op, Rng& r) {
  const auto n = op.arg(A_SIZE) + 3;
  const auto pts = points<T>(r, n, op.arg(A_STYLE));
  Nest nest;
  nest.op = &op;
  nest.failAt = op.arg(A_FAIL);
  auto get = [&](const vm::vec<T, 3>& v) {
    ++nest.calls;
    if (nest.failAt && nest.calls == nest.failAt) {
      fault("callback-failure");
      throwFault(nest.calls);
    }
    return v;
  };
  std::vector<vm::vec<T, 3>> out;
  const auto m = vm::translation_matrix(vm::vec<T, 3>(T(1), T(2), T(3)));
  switch (op.arg(A_WHAT) % 7) {
    case 0: attempt(op, "merge_all", n, [&] { (void)vm::bbox<T, 3>::merge_all(pts.begin(), pts.end(), get); }); break;
    case 1: attempt(op, "average", n, [&] { (void)vm::average(pts.begin(), pts.end(), get); }); break;
    case 2: attempt(op, "from_points", n, [&] { (void)vm::from_points(pts.begin(), pts.end(), get); }); break;
    case 3: {
      auto other = pts;
      attempt(op, "compare", n, [&] { (void)vm::compare(pts.begin(), pts.end(), other.begin(), other.end(), T(0)); });
      break;
    }
    case 4: attempt(op, "adding a range to a builder", n, [&] {
        typename vm::bbox<T, 3>::builder b;
        b.add(pts.begin(), pts.end(), get);
        (void)b.bounds();
      });
      break;
    case 5: attempt(op, "multiplying a list", n, [&] { (void)(m * pts); (void)(pts * m); }); break;
    default: {
      std::vector<vm::segment<T, 3>> segs;
      for (std::size_t i = 0; i + 1 < pts.size(); ++i) {
        segs.emplace_back(pts[i], pts[i + 1]);
      }
      attempt(op, "get_vertices", n, [&] { vm::segment<T, 3>::get_vertices(segs.begin(), segs.end(), std::back_inserter(out)); });
    }
  }
}

// ------------------------------------------------------------------ module
void init() {
  if (!nOps) {
    A = catns::api();
    nOps = A.count();
  }
}
void gen(Rng& r, Plan& p) {
  init();
  const auto nt = 1 + r.below(3);
  const bool focus = r.below(2);
  const auto kind0 = u32(r.below(L_KINDS));
  const auto what0 = r.below(840);
  for (u64 t = 0; t < nt; ++t) {
    std::vector<Op> ops;
    const auto n = 1 + r.below(nt == 1 ? 14 : 6);
    for (u64 i = 0; i < n; ++i) {
      Op o;
      o.a.assign(A_COUNT, 0);
      o.code = focus ? kind0 : r.below(2) ? u32(L_CAT) : u32(r.below(L_KINDS));
      o.a[A_WHAT] = focus && r.below(2) ? what0 : o.code == L_CAT ? r.below(u64(nOps)) : r.below(840);
      if (o.code == L_CAT) {
        o.a[A_WHAT] %= u64(nOps);
      }
      o.a[A_SEED] = r.below(1000000);
      u64 size = r.below(12);
      switch (o.code) {
        case L_PARSE: size = r.below(3) ? r.below(80) : r.below(3000); break;
        case L_HULL:
        case L_POLYGON: size = r.below(4) ? r.below(30) : r.below(300); break;
        case L_RANGE: size = r.below(4) ? r.below(30) : r.below(600); break;
        default: break;
      }
      o.a[A_SIZE] = size;
      static const u64 slices[] = {0, 0, 7, 50, 400, 3000};
      o.a[A_SLICE] = nt > 1 ? slices[r.below(6)] : 0;
      o.a[A_FAIL] = r.below(3) ? 0 : 1 + r.below(r.below(2) ? 6 : 30);
      o.a[A_ALLOC] = r.below(8) ? 0 : 1 + r.below(5) + 100 * r.below(2);
      o.a[A_STYLE] = r.below(1000);
      ops.push_back(o);
    }
    p.tasks.push_back(ops);
  }
}
void setup(const Plan& plan) {
  init();
  for (u64 g = 0; g < 4; ++g) {
    worlds[g] = A.build(plan.world, (g & 1) | (g & 2 ? 0x100 : 0));
  }
}
void runOp(int, const Op& op, std::size_t) {
  if (op.a.size() < A_COUNT) {
    return;
  }
  Rng r(mix2(op.arg(A_SEED), op.code));
  const bool flt = r.below(2);
  switch (op.code) {
    case L_CAT: {
      if (op.arg(A_WHAT) >= u64(nOps)) {
        return;
      }
      u64 sel[8];
      for (auto& s : sel) {
        s = r.below(4) ? r.below(840) : op.arg(A_SEED);
      }
      const void* w = worlds[op.arg(A_STYLE) & 3];
      if (op.arg(A_STYLE) & 2) {
        probe("extreme-magnitudes");
      }
      const std::string name = A.name(int(op.arg(A_WHAT)));
      CatRes res;
      {
        Call c(op, name, 40, name.compare(0, 3, "io/") != 0);
        A.run(int(op.arg(A_WHAT)), w, w, sel, op.arg(A_FAIL), &res);
      }
      if (res.threw == 2) {
        fault("getter-failure");
      }
      break;
    }
    case L_PARSE: {
      const auto t = anyText(r, std::min<u64>(op.arg(A_SIZE), 5000), op.arg(A_STYLE));
      switch (r.below(3)) {
        case 0: parseT<float>(op, r, t); break;
        case 1: parseT<double>(op, r, t); break;
        default: parseT<int>(op, r, t);
      }
      break;
    }
    case L_HULL: flt ? hullT<float>(op, r) : hullT<double>(op, r); break;
    case L_POLYGON: flt ? polygonT<float>(op, r) : polygonT<double>(op, r); break;
    case L_SCALAR: flt ? scalarT<float>(op, r) : scalarT<double>(op, r); break;
    case L_RANGE: flt ? rangeT<float>(op, r) : rangeT<double>(op, r); break;
    default: {
      // with a failure first, then the same without
      for (int round = 0; round < 2; ++round) {
        Nest n;
        n.op = &op;
        n.failAt = round ? 0 : op.arg(A_FAIL);
        n.r = Rng(op.arg(A_SEED) + 1);
        attempt(op, "an operation with callbacks that use the library", 100, [&] { n.enter(4); }, round == 0);
      }
    }
  }
}
const char* opName(u32 c) { return c < L_KINDS ? kindNames[c] : "?"; }
void finish(const Plan&) {}
Reg reg({"C29", gen, setup, runOp, finish, opName, 4000000});
} // namespace
