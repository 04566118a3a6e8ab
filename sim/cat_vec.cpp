#include "cat.h"
namespace catns {
namespace {
#define SC(k) (a.sc<T>(k))
#define POS(k) (a.pos<T>(k))
#define V(k) (a.v<T, S>(k))
#define V3(k) (a.v<T, 3>(k))
#define U(k) (a.u<T, S>(k))
#define U3(k) (a.u<T, 3>(k))
template <typename T, std::size_t S> vm::vec<T, S> posVec(const Args& a) {
  vm::vec<T, S> v;
  for (std::size_t i = 0; i < S; ++i) {
    v.v[i] = a.pos<T>(i & 3);
  }
  return v;
}
template <typename T, std::size_t S> void vecOps() {
  OPS("vec/ctor", const T x[6] = {SC(0), SC(1), SC(2), SC(3), T(4), T(5)};
      vm::vec<T, S> d; o(d); vm::vec<T, S> il{SC(0), SC(1)}; o(il);
      if constexpr (S == 2) o(vm::vec<T, S>(x[0], x[1]));
      if constexpr (S == 3) o(vm::vec<T, S>(x[0], x[1], x[2]));
      if constexpr (S == 4) o(vm::vec<T, S>(x[0], x[1], x[2], x[3]));
      o(vm::vec<double, S>(V(0))); o(vm::vec<float, S>(V(1))); o(vm::vec<T, 3>(V(2)));
      o(vm::vec<T, 4>(V(2))); o(vm::vec<T, S + 1>(V(0), SC(3))); auto c = V(1); o(c); c = V(0); o(c))
  OPS("vec/named", o(vm::vec<T, S>::fill(SC(0))); o(vm::vec<T, S>::axis(a.n(1) % S)); o(vm::vec<T, S>::pos_x());
      o(vm::vec<T, S>::neg_x()); o(vm::vec<T, S>::zero()); o(vm::vec<T, S>::one()); o(vm::vec<T, S>::nan());
      o(vm::vec<T, S>::min()); o(vm::vec<T, S>::max());
      if constexpr (S >= 2) { o(vm::vec<T, S>::pos_y()); o(vm::vec<T, S>::neg_y()); }
      if constexpr (S >= 3) { o(vm::vec<T, S>::pos_z()); o(vm::vec<T, S>::neg_z()); })
  OPS("vec/access", const auto& v = V(0); for (std::size_t i = 0; i < S; ++i) o(v[i]); auto w = v; w[a.n(1) % S] = SC(2); o(w);
      o(v.x()); if constexpr (S >= 2) { o(v.y()); o(v.xy()); }
      if constexpr (S >= 3) { o(v.z()); o(v.xz()); o(v.yz()); o(v.xyz()); }
      if constexpr (S >= 4) { o(v.w()); o(v.xyzw()); })
  OPS("vec/compare", o(vm::compare(V(0), V(1))); o(vm::compare(V(0), V(1), POS(2) / T(64))))
  OPS("vec/compare-nan", auto x = V(0); auto y = V(0); x[a.n(1) % S] = vm::nan<T>(); y[a.n(2) % S] = a.n(3) & 1 ? vm::nan<T>() : y[a.n(2) % S];
      o(vm::compare(x, y)); o(vm::compare(y, x, POS(3) / T(64))); o(x < y); o(y < x); o(x == y); o(vm::is_nan(x)); o(vm::is_nan(y));
      o(vm::is_equal(x, y, POS(3))); o(vm::min(x, y)); o(vm::max(x, y)); o(vm::normalize(x)); o(vm::is_zero(x, POS(3)));
      o(vm::find_max_component(x)); o(vm::find_abs_max_component(y)))
  OPS("vec/is_equal", o(vm::is_equal(V(0), V(1), POS(2) / T(64))))
  OPS("vec/relational", o(V(0) == V(1)); o(V(0) != V(1)); o(V(0) < V(1)); o(V(0) <= V(1)); o(V(0) > V(1)); o(V(0) >= V(1)))
  OPS("vec/slice", o(vm::slice<1>(V(0), a.n(1) % S)); if constexpr (S >= 2) o(vm::slice<2>(V(0), a.n(1) % (S - 1))))
  OPS("vec/find_max", o(vm::find_max_component(V(0), a.n(1) % S)))
  OPS("vec/find_abs_max", o(vm::find_abs_max_component(V(0), a.n(1) % S)))
  OPS("vec/abs_max_axis", o(vm::get_abs_max_component_axis(V(0), a.n(1) % S)))
  OPS("vec/get_max", o(vm::get_max_component(V(0), a.n(1) % S)))
  OPS("vec/get_abs_max", o(vm::get_abs_max_component(V(0), a.n(1) % S)))
  OPS("vec/unary", o(+V(0)); o(-V(0)))
  OPS("vec/add", o(V(0) + V(1)))
  OPS("vec/sub", o(V(0) - V(1)))
  OPS("vec/mul", o(V(0) * V(1)); o(V(0) * SC(2)); o(SC(2) * V(1)))
  OPS("vec/div", o(V(0) / V(1)); o(V(0) / POS(2)); o(SC(2) / V(1)))
  OPS("vec/min", o(vm::min(V(0), V(1))); o(vm::min(V(0), V(1), V(2))))
  OPS("vec/max", o(vm::max(V(0), V(1))); o(vm::max(V(0), V(1), V(2))))
  OPS("vec/abs_min", o(vm::abs_min(V(0), V(1))); o(vm::abs_min(V(0), V(1), V(2))))
  OPS("vec/abs_max", o(vm::abs_max(V(0), V(1))); o(vm::abs_max(V(0), V(1), V(2))))
  OPS("vec/clamp", o(vm::clamp(V(0), V(1), V(2))))
  OPS("vec/abs", o(vm::abs(V(0))); o(vm::sign(V(0))))
  OPS("vec/step", o(vm::step(V(0), V(1))); o(vm::smoothstep(V(0), V(1), V(2))))
  OPS("vec/dot", o(vm::dot(V(0), V(1))))
  OPS("vec/length", o(vm::squared_length(V(0))); o(vm::length(V(0))); o(vm::length_c(V(1))))
  OPS("vec/normalize", o(vm::normalize(V(0))))
  OPS("vec/normalize_c", o(vm::normalize_c(V(0))))
  OPS("vec/is_unit", o(vm::is_unit(V(0), vm::constants<T>::almost_zero()));
      o(vm::is_unit_c(V(0), vm::constants<T>::almost_zero()));
      if constexpr (S > 1) { o(vm::is_unit(U(1), vm::constants<T>::almost_zero())); })
  OPS("vec/is_zero", o(vm::is_zero(V(0), POS(1) / T(64))); o(vm::is_nan(V(0))))
  OPS("vec/is_integral", o(vm::is_integral(V(0))); o(vm::is_integral(V(0), POS(1) / T(64))))
  OPS("vec/mix", o(vm::mix(V(0), V(1), V(2))); o(vm::fract(V(0))))
  OPS("vec/mod", o(vm::mod(V(0), posVec<T, S>(a))))
  OPS("vec/distance", o(vm::distance(V(0), V(1))); o(vm::distance_c(V(0), V(1))); o(vm::squared_distance(V(0), V(1))))
  OPS("vec/homogeneous", o(vm::to_homogeneous_coords(V(0))); if constexpr (S > 1) o(vm::to_cartesian_coords(V(0))))
  OPS("vec/round", o(vm::floor(V(0))); o(vm::ceil(V(0))); o(vm::trunc(V(0))); o(vm::round(V(0))))
  OPS("vec/snap", const auto g = posVec<T, S>(a); o(vm::snapDown(V(4), g)); o(vm::snapUp(V(4), g)); o(vm::snap(V(4), g)))
  OPS("vec/correct", o(vm::correct(V(0))); o(vm::correct(V(0), a.n(1) % 4)); o(vm::correct(V(0), a.n(1) % 3, T(0.01))))
  OPS("vec/get_vertices", std::vector<vm::vec<T, S>> in{V(0), V(1), V(2)};
      std::vector<vm::vec<T, S>> out; vm::vec<T, S>::get_vertices(in.begin(), in.end(), std::back_inserter(out)); o(out))
  OPS("vec/average", const std::array<vm::vec<T, S>, 4> in{V(0), V(1), V(2), V(3)};
      o(vm::average(in.begin(), in.begin() + 1 + a.n(4) % 4)); o(vm::average(in.begin(), in.end(), Get{&a})))
  if constexpr (S > 1) {
    OPS("vec/is_colinear", o(vm::is_colinear(V(0), V(1), V(2))); o(vm::is_colinear(V(0), V(1), (V(0) + V(1)) * T(0.5))))
    OPS("vec/is_parallel", o(vm::is_parallel(V(0), V(1))); o(vm::is_parallel(V(0), V(0) * SC(2))))
    OPS("vec/is_parallel_c", o(vm::is_parallel_c(U(0), U(1))); o(vm::is_parallel_c(U(0), -U(0))))
    OPS("vec/is_between", const auto d = V(1) - V(0); const auto in = V(0) + d * T(0.5); const auto out = V(0) + d * T(2); const auto before = V(0) - d;
        if (vm::is_colinear(in, V(0), V(1))) { o(vm::is_between(in, V(0), V(1))); o(vm::is_between_c(in, V(0), V(1))); }
        if (vm::is_colinear(out, V(0), V(1))) o(vm::is_between(out, V(0), V(1))); o(vm::is_between(V(0), V(0), V(1)));
        o(vm::is_between(V(1), V(0), V(1))); if (vm::is_colinear(before, V(0), V(1))) o(vm::is_between_c(before, V(0), V(1))); )
  }
  if constexpr (S >= 2) {
    OPS("vecext/vector", const auto& l = a.list<T, S>(0); o(l + V(1)); o(V(1) + l); o(l * SC(2)); o(SC(2) * l))
    OPS("vecext/array", const auto& l = a.arr<T, S>(0); o(l + V(1)); o(V(1) + l); o(l * SC(2)); o(SC(2) * l))
    OPS("vec/compare-range", const auto& l = a.list<T, S>(0); const auto& m = a.list<T, S>(1);
        o(vm::compare<T>(l.begin(), l.end(), m.begin(), m.end()));
        o(vm::compare(l.begin(), l.end(), m.begin(), m.end(), POS(2) / T(8)));
        o(vm::compare<T>(l.begin(), l.end() - 1, l.begin(), l.end())))
  }
}
template <typename T> void vec3Ops() {
  OPT("vec/cross", o(vm::cross(V3(0), V3(1))))
  OPT("vec/swizzle", o(vm::swizzle(V3(0), a.n(1) % 3)); o(vm::unswizzle(V3(0), a.n(1) % 3)))
  OPT("vec/measure_angle", o(vm::measure_angle(U3(0), U3(1), U3(2))))
}
template <typename T> void all() {
  vecOps<T, 1>();
  vecOps<T, 2>();
  vecOps<T, 3>();
  vecOps<T, 4>();
  vec3Ops<T>();
}
} // namespace
#ifdef CAT_FLOAT
void regVecF() { all<float>(); }
#else
void regVecD() { all<double>(); }
#endif
} // namespace catns
