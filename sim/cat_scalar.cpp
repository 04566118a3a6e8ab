// scalars, integers, approximate values
#include "cat.h"
namespace catns {
namespace {
#define SC(k) (a.sc<T>(k))
#define POS(k) (a.pos<T>(k))
#define DEG(k) (a.deg<T>(k))
template <typename T> void scalarOps() {
  OPT("scalar/is_nan", o(vm::is_nan(SC(0))); o(vm::is_nan(vm::nan<T>())))
  OPT("scalar/is_inf", o(vm::is_inf(SC(0))); o(vm::is_inf(std::numeric_limits<T>::infinity())))
  OPT("scalar/abs", o(vm::abs(SC(0))))
  OPT("scalar/min", o(vm::min(SC(0), SC(1), SC(2))))
  OPT("scalar/max", o(vm::max(SC(0), SC(1), SC(2), SC(3))))
  OPT("scalar/abs_min", o(vm::abs_min(SC(0), SC(1), SC(2))))
  OPT("scalar/abs_max", o(vm::abs_max(SC(0), SC(1), SC(2))))
  OPT("scalar/safe_min", o(vm::safe_min(SC(0), a.n(4) & 1 ? vm::nan<T>() : SC(1), SC(2))))
  OPT("scalar/safe_max", o(vm::safe_max(a.n(4) & 1 ? vm::nan<T>() : SC(0), SC(1), SC(2))))
  OPT("scalar/safe_nan", const T n = vm::nan<T>(); const auto k = a.n(4) % 16; const T x[4] = {k & 1 ? n : SC(0), k & 2 ? n : SC(1), k & 4 ? n : SC(2),
      k & 8 ? n : SC(3)}; o(vm::safe_min(x[0], x[1])); o(vm::safe_max(x[0], x[1])); o(vm::safe_min(x[0], x[1], x[2], x[3]));
      o(vm::safe_max(x[0], x[1], x[2], x[3])))
  OPT("scalar/special", const T n = vm::nan<T>(); const T i = std::numeric_limits<T>::infinity(); o(vm::sqrt_c(n)); o(vm::sqrt_c(i)); o(vm::sqrt_c(-i));
      o(vm::abs(n)); o(vm::abs(-i)); o(vm::sign(n)); o(vm::is_inf(-i)); o(vm::is_nan(i)); o(vm::floor(i)); o(vm::ceil(-i)); o(vm::nextgreater(i));
      o(vm::min(n, SC(0))); o(vm::max(SC(0), n)); o(vm::clamp(i, SC(0), SC(1))); o(vm::is_equal(n, n, POS(2))); o(vm::normalize_radians(i));
      o(vm::normalize_degrees(n)))
  OPT("scalar/abs_difference", o(vm::abs_difference(SC(0), SC(1))))
  OPT("scalar/clamp", o(vm::clamp(SC(0))); o(vm::clamp(SC(0), SC(1), SC(2))))
  OPT("scalar/sign", o(vm::sign(SC(0))))
  OPT("scalar/step", o(vm::step(SC(0), SC(1))))
  OPT("scalar/smoothstep", o(vm::smoothstep(SC(0), SC(1), SC(2))))
  OPT("scalar/trunc", o(vm::trunc(SC(0))))
  OPT("scalar/mod", o(vm::mod(SC(0), POS(1))))
  OPT("scalar/floor", o(vm::floor(SC(0))))
  OPT("scalar/ceil", o(vm::ceil(SC(0))))
  OPT("scalar/mix", o(vm::mix(SC(0), SC(1), SC(2))))
  OPT("scalar/fract", o(vm::fract(SC(0))))
  OPT("scalar/round", o(vm::round(SC(0))))
  OPT("scalar/round_up", o(vm::round_up(SC(0))))
  OPT("scalar/round_down", o(vm::round_down(SC(0))))
  OPT("scalar/snap", o(vm::snap(SC(0), POS(1))))
  OPT("scalar/snapUp", o(vm::snapUp(SC(0), POS(1))))
  OPT("scalar/snapDown", o(vm::snapDown(SC(0), POS(1))))
  OPT("scalar/correct", o(vm::correct(SC(0))); o(vm::correct(SC(0), a.n(1) % 4)); o(vm::correct(SC(0), a.n(1) % 3, T(0.01))))
  OPT("scalar/is_equal", o(vm::is_equal(SC(0), SC(1), POS(2) / T(64))))
  OPT("scalar/is_zero", o(vm::is_zero(SC(0), POS(1) / T(64))))
  OPT("scalar/contains", o(vm::contains(SC(0), SC(1), SC(2))))
  OPT("scalar/to_radians", o(vm::to_radians(DEG(0))))
  OPT("scalar/to_degrees", o(vm::to_degrees(SC(0))))
  OPT("scalar/normalize_radians", o(vm::normalize_radians(DEG(0))))
  OPT("scalar/normalize_degrees", o(vm::normalize_degrees(DEG(0))))
  OPT("scalar/nextgreater", o(vm::nextgreater(SC(0))))
  OPT("scalar/sqrt_c", o(vm::sqrt_c(SC(0))); o(vm::sqrt_c(POS(1))))
  OPT("scalar/sqrt", o(vm::sqrt(SC(0))); o(vm::sqrt(POS(1))))
  OPT("poly/quadratic", o(vm::solve_quadratic(POS(0), SC(1), SC(2), vm::constants<T>::almost_zero())))
  OPT("poly/cubic", o(vm::solve_cubic(POS(0), SC(1), SC(2), SC(3), vm::constants<T>::almost_zero())))
  OPT("poly/quartic",
    o(vm::solve_quartic(POS(0), SC(1), SC(2), SC(3), SC(4), vm::constants<T>::almost_zero())))
  OPT("poly/quadratic-int", o(vm::solve_quadratic(T(1), T(int(a.n(0) % 9) - 4), T(int(a.n(1) % 9) - 4),
                              vm::constants<T>::almost_zero())))
  OPT("poly/cubic-int", o(vm::solve_cubic(T(1), T(int(a.n(0) % 7) - 3), T(int(a.n(1) % 7) - 3),
                          T(int(a.n(2) % 7) - 3), vm::constants<T>::almost_zero())))
  OPT("poly/quartic-int", o(vm::solve_quartic(T(1), T(int(a.n(0) % 5) - 2), T(int(a.n(1) % 5) - 2),
                            T(int(a.n(2) % 5) - 2), T(int(a.n(3) % 5) - 2), vm::constants<T>::almost_zero())))
  OPT("poly/roots", const T x = T(int(a.n(0) % 9) - 4); const T y = a.n(1) % 3 ? T(int(a.n(1) % 9) - 4) : x; const T z = a.n(2) % 3 ? SC(2) : y;
      const T w = a.n(3) % 3 ? T(int(a.n(3) % 9) - 4) : z; const T e = vm::constants<T>::almost_zero(); o(vm::solve_quadratic(T(1), -x - y, x * y, e));
      o(vm::solve_cubic(T(1), -x - y - z, x * y + x * z + y * z, -x * y * z, e));
      o(vm::solve_quartic(T(1), -x - y - z - w, x * y + x * z + x * w + y * z + y * w + z * w, -x * y * z - x * y * w - x * z * w - y * z * w,
        x * y * z * w, e)))
  OPT("poly/complex", const T x = T(int(a.n(0) % 9) - 4); const T p = POS(1); const T q = a.n(2) & 1 ? POS(2) : p; const T e = vm::constants<T>::almost_zero();
      o(vm::solve_quadratic(T(1), T(0), p, e)); o(vm::solve_cubic(T(1), -x, p, -x * p, e)); o(vm::solve_quartic(T(1), T(0), p + q, T(0), p * q, e));
      o(vm::solve_quartic(T(1), -x - x, x * x + p, -x * p - x * p, x * x * p, e)); o(vm::solve_quartic(T(1), x, p, x, q, e));
      o(vm::solve_quartic(T(1), T(0), p - q, T(0), -p * q, e)); o(vm::solve_quartic(T(2), x, T(0), p, q, e)))
  OPT("const/all", o(vm::constants<T>::almost_zero()); o(vm::constants<T>::point_status_epsilon());
      o(vm::constants<T>::correct_epsilon()); o(vm::constants<T>::colinear_epsilon());
      o(vm::constants<T>::angle_epsilon()); o(vm::constants<T>::pi()); o(vm::constants<T>::two_pi());
      o(vm::constants<T>::half_pi()); o(vm::constants<T>::quarter_pi());
      o(vm::constants<T>::three_half_pi()); o(vm::constants<T>::e()))

  using vm::approx;
  OPT("approx/scalar", const approx<T> x(SC(0), POS(1) / T(16)); const approx<T> y(SC(2)); o(SC(3) == x);
      o(x == SC(3)); o(SC(3) != x); o(x != SC(3)); o(SC(3) < x); o(x < SC(3)); o(SC(3) <= x); o(x <= SC(3));
      o(SC(3) > x); o(x > SC(3)); o(SC(3) >= x); o(x >= SC(3)); o(y == SC(4)); o(SC(4) < y))
  OPT("approx/list", std::vector<approx<T>> x; for (auto v
                                                    : a.nums<T>(0)) x.emplace_back(v, POS(2));
      const auto& y = a.nums<T>(1); o(vm::operator==(x, y)); o(vm::operator==(y, x)); o(vm::operator!=(x, y));
      o(vm::operator!=(y, x)))
  OPT("approx/vec", const auto& v = a.v<T, 3>(1); const approx<vm::vec<T, 3>> x(a.v<T, 3>(0), POS(2) / T(16));
      const approx<vm::vec<T, 3>> y(a.v<T, 3>(3)); o(v == x); o(x == v); o(v != x); o(x != v); o(y == v);
      o(v < x); o(x < v); o(v <= x); o(x <= v); o(v > x); o(x > v))
  OPT("approx/mat", const auto& v = a.m<T, 4>(1); const approx<vm::mat<T, 4, 4>> x(a.m<T, 4>(0), POS(2) / T(16));
      o(v == x); o(x == v); o(v != x); o(x != v))
  OPT("approx/line", const auto& v = a.l<T, 3>(1); const approx<vm::line<T, 3>> x(a.l<T, 3>(0), POS(2) / T(16));
      o(v == x); o(x == v))
}

template <std::size_t S> void intOps() {
  using T = int;
#define IV(k) (a.iv<S>(k))
#define IM(k) (a.im<S>(k))
  OPS("ivec/arith", o(IV(0) + IV(1)); o(IV(0) - IV(1)); o(IV(0) * IV(1)); o(IV(0) * a.isc(2)); o(a.isc(2) * IV(1));
      o(-IV(0)); o(+IV(1)))
  OPS("ivec/compare", o(vm::compare(IV(0), IV(1))); o(IV(0) == IV(1)); o(IV(0) < IV(1)); o(IV(0) >= IV(1)))
  OPS("ivec/minmax", o(vm::min(IV(0), IV(1))); o(vm::max(IV(0), IV(1), IV(2))); o(vm::abs_min(IV(0), IV(1)));
      o(vm::abs_max(IV(0), IV(1))); o(vm::abs(IV(2))); o(vm::sign(IV(2))))
  OPS("ivec/dot", o(vm::dot(IV(0), IV(1))); o(vm::squared_length(IV(2))); o(vm::squared_distance(IV(0), IV(2))))
  OPS("ivec/components", o(vm::find_max_component(IV(0), a.n(1) % S)); o(vm::find_abs_max_component(IV(0), a.n(1) % S));
      o(vm::get_max_component(IV(0), a.n(1) % S)); o(vm::get_abs_max_component(IV(0), a.n(1) % S)))
  OPS("imat/arith", o(IM(0) + IM(1)); o(IM(0) - IM(1)); o(-IM(0)); o(IM(0) == IM(1)); o(vm::transpose(IM(0))))
  OPS("imat/convert", o(vm::mat<double, S, S>(IM(0))); o(vm::vec<double, S>(IV(1))); o(vm::vec<float, S>(IV(1))))
}
} // namespace
void regScalar() {
  scalarOps<float>();
  scalarOps<double>();
  intOps<2>();
  intOps<3>();
  intOps<4>();
  using T = int;
  OPT("scalar/succ_pred", const auto c = 1 + int(a.n(1) % 7); const auto i = int(a.n(0) % u64(c));
      o(vm::succ(i, c)); o(vm::pred(i, c)); o(vm::succ(i, c, int(a.n(2) % 4))); o(vm::pred(i, c, int(a.n(2) % 4)));
      o(vm::succ(std::size_t(i), c)); o(vm::pred(std::size_t(i), c)))
  OPT("scalar/int", o(vm::abs(a.isc(0))); o(vm::sign(a.isc(0))); o(vm::min(a.isc(0), a.isc(1), a.isc(2)));
      o(vm::max(a.isc(0), a.isc(1))); o(vm::abs_min(a.isc(0), a.isc(1))); o(vm::abs_max(a.isc(0), a.isc(1)));
      o(vm::abs_difference(unsigned(a.n(0)), unsigned(a.n(1)))); o(vm::clamp(a.isc(0), -10, 10)); o(vm::abs_difference(a.isc(0), a.isc(1))); o(vm::contains(a.isc(0), a.isc(1), a.isc(2))))
}
} // namespace catns
