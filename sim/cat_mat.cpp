#include "cat.h"
namespace catns {
namespace {
#define SC(k) (a.sc<T>(k))
#define POS(k) (a.pos<T>(k))
#define DEG(k) (a.deg<T>(k))
#define V(k) (a.v<T, S>(k))
#define V3(k) (a.v<T, 3>(k))
#define U3(k) (a.u<T, 3>(k))
#define M(k) (a.m<T, S>(k))
#define M4(k) (a.m<T, 4>(k))
#define A4(k) (a.a<T, 4>(k))
#define Q(k) (a.q<T>(k))
#define B3(k) (a.b<T, 3>(k))
// the documented precondition of coordinate_system_matrix
template <typename V> bool isBasis(const V& x, const V& y, const V& z, const V& p) {
  using T = typename V::type;
  return std::get<0>(vm::invert(
    vm::mat<T, 4, 4>(x[0], y[0], z[0], p[0], x[1], y[1], z[1], p[1], x[2], y[2], z[2], p[2], T(0), T(0), T(0), T(1))));
}
template <typename T, std::size_t S> void sq() {
  using Mat = vm::mat<T, S, S>;
  OPS("mat/ctor", Mat d; o(d); o(vm::mat<double, S, S>(M(0)));
      o(vm::mat<float, S, S>(M(1))); auto c = M(2); o(c); c = M(0); o(c);
      if constexpr (S == 2) { o(Mat(SC(0), SC(1), SC(2), SC(3))); Mat il{SC(4), SC(1), SC(2), SC(3)}; o(il); }
      if constexpr (S == 3) { Mat il{SC(0), SC(1), SC(2), SC(3), SC(4), SC(5), SC(6), SC(7), SC(0)}; o(il); })
  OPS("mat/named", o(Mat::fill(SC(0))); o(Mat::identity()); o(Mat::zero()); o(Mat::template zero_out<0>()))
  OPS("mat/access", const auto& m = M(0); o(m[a.n(1) % S]); auto n = m; n[a.n(1) % S][a.n(2) % S] = SC(3); o(n))
  OPS("mat/compare", o(vm::compare(M(0), M(1))); o(vm::compare(M(0), M(1), POS(2) / T(16)));
      o(vm::is_equal(M(0), M(1), POS(2) / T(16))); o(vm::is_zero(M(0), POS(2) / T(16))); o(M(0) == M(1)); o(M(0) != M(1)))
  OPS("mat/add", o(+M(0)); o(-M(0)); o(M(0) + M(1)); o(M(0) - M(1)))
  OPS("mat/mul", o(M(0) * M(1)))
  OPS("mat/scale", o(M(0) * SC(1)); o(SC(1) * M(0)); o(M(0) / POS(1)))
  OPS("mat/vec", o(M(0) * V(1)); o(V(1) * M(0)))
  OPS("mat/set", o(vm::set(M(0), a.n(1) % S, a.n(2) % S, SC(3))))
  OPS("mat/transpose", o(vm::transpose(M(0))))
  OPS("mat/determinant", o(vm::compute_determinant(M(0))))
  if constexpr (S > 1) {
    OPS("mat/slice", o(vm::slice<1, 1>(M(0), a.n(1) % S, a.n(2) % S));
        o(vm::slice<S - 1, S - 1>(M(0), a.n(1) % 2, a.n(2) % 2)))
    OPS("mat/minor", o(vm::extract_minor(M(0), a.n(1) % S, a.n(2) % S)))
    OPS("mat/adjugate", o(vm::compute_adjugate(M(0))))
    OPS("mat/lup_solve", o(vm::lup_solve(M(0), V(1))))
    OPS("mat/invert", o(vm::invert(M(0))))
    OPS("mat/vector", const auto& l = a.list<T, S>(1); o(M(0) * l); o(l * M(0)))
    OPS("mat/array", const auto& l = a.arr<T, S>(1); o(M(0) * l); o(l * M(0)))
  }
  if constexpr (S > 2) {
    OPS("mat/point", o(M(0) * a.v<T, S - 1>(1)); o(a.v<T, S - 1>(1) * M(0)))
    OPS("mat/points", const auto& l = a.list<T, S - 1>(1); o(M(0) * l); o(l * M(0)))
    OPS("mat/points-array", const auto& l = a.arr<T, S - 1>(1); o(M(0) * l); o(l * M(0)))
    OPS("mat/invert-affine", o(vm::invert(a.a<T, S>(0))); o(vm::compute_determinant(a.a<T, S>(0))))
    OPS("mat/lup_solve-affine", o(vm::lup_solve(a.a<T, S>(0), V(1))))
    OPS("matext/translation", o(vm::translation_matrix(a.v<T, S - 1>(0))); o(vm::translation_matrix(M(1)));
        o(vm::strip_translation(M(1))))
    OPS("matext/scaling", o(vm::scaling_matrix(a.v<T, S - 1>(0))))
  }
}
template <typename T> void other() {
  using Mat = vm::mat<T, 4, 4>;
  OPT("mat/rect", o(a.m23<T>(0) * a.m32<T>(1)); o(a.m32<T>(1) * a.m23<T>(0)); o(a.m23<T>(0) + a.m23<T>(2)); o(-a.m32<T>(1));
      o(a.m23<T>(0) == a.m23<T>(2)))
  OPT("mat/rot90", o(Mat::rot_90_x_cw()); o(Mat::rot_90_y_cw()); o(Mat::rot_90_z_cw()); o(Mat::rot_90_x_ccw());
      o(Mat::rot_90_y_ccw()); o(Mat::rot_90_z_ccw()); o(Mat::rot_180_x()); o(Mat::rot_180_y()); o(Mat::rot_180_z());
      o(Mat::mirror_x()); o(Mat::mirror_y()); o(Mat::mirror_z()))
  OPT("mat/zero_out4", o(Mat::template zero_out<1>()); o(Mat::template zero_out<2>()); o(Mat::template zero_out<3>()))
  OPT("matext/perspective", o(vm::perspective_matrix(POS(0), POS(1), POS(1) + POS(2), int(1 + a.n(3) % 2000), int(1 + a.n(4) % 2000))))
  OPT("matext/ortho", o(vm::ortho_matrix(POS(0), POS(0) + POS(1), -POS(2), POS(3), POS(2), -POS(3))))
  OPT("matext/view", o(vm::view_matrix(U3(0), U3(1))))
  OPT("matext/rotation-euler", o(vm::rotation_matrix(DEG(0), DEG(1), DEG(2))))
  OPT("matext/euler", o(vm::rotation_matrix_to_euler_angles(vm::rotation_matrix(DEG(0), DEG(1), DEG(2))));
      o(vm::rotation_matrix_to_euler_angles(A4(3))))
  OPT("matext/euler-pole", auto m = vm::rotation_matrix(DEG(0), DEG(1), DEG(2)); m[0][2] = a.n(3) & 1 ? T(1) : T(-1);
      o(vm::rotation_matrix_to_euler_angles(m)); o(vm::rotation_matrix_to_euler_angles(Mat::rot_90_y_cw()));
      o(vm::rotation_matrix_to_euler_angles(Mat::rot_90_y_ccw())))
  OPT("matext/rotation-axis", o(vm::rotation_matrix(U3(0), DEG(1))))
  OPT("matext/rotation-quat", o(vm::rotation_matrix(Q(0))))
  OPT("matext/rotation-from-to", o(vm::rotation_matrix(U3(0), U3(1))); o(vm::rotation_matrix(U3(0), -U3(0))))
  OPT("matext/mirror", o(vm::mirror_matrix<T>(a.n(0) % 4)))
  OPT("matext/coordsystem", if (isBasis(U3(0), U3(1), U3(2), V3(3))) o(vm::coordinate_system_matrix(U3(0), U3(1), U3(2), V3(3))))
  OPT("matext/coordsystem-axes", const auto x = vm::vec<T, 3>::axis(a.n(0) % 3); const auto y = vm::vec<T, 3>::axis((a.n(0) + 1) % 3);
      if (isBasis(x, y, vm::cross(x, y), V3(3))) o(vm::coordinate_system_matrix(x, y, vm::cross(x, y), V3(3))))
  OPT("matext/projection", o(vm::plane_projection_matrix(SC(0), U3(1))); if (vm::abs(vm::dot(U3(1), U3(2))) > T(0.05)) o(vm::plane_projection_matrix(SC(0), U3(1), U3(2))))
  OPT("matext/shear", o(vm::shear_matrix(SC(0), SC(1), SC(2), SC(3), SC(4), SC(5))))
  OPT("matext/scale_bbox", o(vm::scale_bbox_matrix(B3(0), B3(1))))
  OPT("matext/scale_bbox_anchor", o(vm::scale_bbox_matrix_with_anchor(B3(0), V3(1), V3(2)));
      o(vm::scale_bbox_matrix_with_anchor(B3(0), V3(1), B3(0).center())))
  if constexpr (std::is_same_v<T, double>) // the library does not compile it for float
  OPT("matext/shear_bbox", const T sg = a.n(3) & 1 ? T(1) : T(-1); const auto n = sg * vm::vec<T, 3>::axis(a.n(1) % 3);
      o(vm::shear_bbox_matrix(B3(0), n, V3(2)));
      for (std::size_t i = 0; i < 6; ++i) o(vm::shear_bbox_matrix(B3(0), (i & 1 ? T(1) : T(-1)) * vm::vec<T, 3>::axis(i / 2), V3(2))))
  OPT("matext/points", o(vm::points_transformation_matrix(V3(0), V3(1), V3(2), V3(3), V3(4), V3(5))))
  OPT("matext/points-off", o(vm::points_transformation_matrix(V3(0), V3(1), V3(2), V3(3), V3(4), V3(5), V3(6), V3(7))))
  OPT("matext/points-exact", const auto& m = A4(3); const vm::vec<T, 3> z;
      const auto x = vm::vec<T, 3>::pos_x(); const auto y = vm::vec<T, 3>::pos_y();
      o(vm::points_transformation_matrix(z, x, y, m * z, m * x, m * y)))
  using Qt = vm::quat<T>;
  OPT("quat/ctor", o(Qt()); o(Qt(SC(0), V3(1))); o(Qt(U3(2), DEG(3))); o(vm::quat<float>(Q(4))); o(vm::quat<double>(Q(4))))
  OPT("quat/from-to", o(Qt(U3(0), U3(1))); o(Qt(U3(0), U3(0))); o(Qt(U3(0), -U3(0))))
  OPT("quat/angle", o(Q(0).angle()); o(Q(0).axis()); o(Q(0).conjugate()))
  OPT("quat/still", const Qt i(T(1), vm::vec<T, 3>::zero()); o(i.axis()); o(i.angle()); o(i * V3(0)); o(i * Q(1)); o(Qt(U3(2), T(0)).axis()))
  OPT("quat/compare", o(vm::is_equal(Q(0), Q(1), POS(2) / T(16))); o(Q(0) == Q(1)); o(Q(0) != Q(1)))
  OPT("quat/arith", o(+Q(0)); o(-Q(0)); o(Q(0) * SC(1)); o(SC(1) * Q(0)))
  OPT("quat/mul", o(Q(0) * Q(1)))
  OPT("quat/rotate", o(Q(0) * V3(1)); o(Qt(U3(2), DEG(3)) * V3(1)))
}
template <typename T> void all() {
  sq<T, 1>();
  sq<T, 2>();
  sq<T, 3>();
  sq<T, 4>();
  other<T>();
}
} // namespace
#ifdef CAT_FLOAT
void regMatF() { all<float>(); }
#else
void regMatD() { all<double>(); }
#endif
} // namespace catns
