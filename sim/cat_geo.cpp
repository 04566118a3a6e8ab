#include "cat.h"
namespace catns {
namespace {
#define SC(k) (a.sc<T>(k))
#define POS(k) (a.pos<T>(k))
#define V(k) (a.v<T, S>(k))
#define V3(k) (a.v<T, 3>(k))
#define U3(k) (a.u<T, 3>(k))
#define A4(k) (a.a<T, 4>(k))
#define B(k) (a.b<T, S>(k))
#define L(k) (a.l<T, S>(k))
#define R(k) (a.r<T, S>(k))
#define SG(k) (a.s<T, S>(k))
#define G(k) (a.g<T, S>(k))
#define P(k) (a.p<T>(k))
#define R3(k) (a.r<T, 3>(k))
#define B3(k) (a.b<T, 3>(k))
template <typename T, std::size_t S> void box() {
  using Box = vm::bbox<T, S>;
  OPS("bbox/ctor", o(Box()); o(Box(B(0).min, B(0).max)); o(Box(-POS(1), POS(2))); o(Box(POS(1)));
      o(vm::bbox<float, S>(B(0))); o(vm::bbox<double, S>(B(0))); auto c = B(1); o(c); c = B(0); o(c))
  OPS("bbox/props", o(B(0).is_valid()); o(B(0).is_empty()); o(B(0).center()); o(B(0).size()); o(B(0).volume());
      o(Box::is_valid(V(1), V(2))))
  OPS("bbox/contains", o(B(0).contains(V(1))); o(B(0).contains(B(2))); o(B(0).encloses(B(2))); o(B(0).intersects(B(2)));
      o(B(0).contains(B(0).min)); o(B(0).contains(B(0))))
  OPS("bbox/constrain", o(B(0).constrain(V(1))))
  OPS("bbox/relative", o(B(0).relative_position(V(1))))
  OPS("bbox/expand", o(B(0).expand(POS(1))); o(B(0).translate(V(2))))
  OPS("bbox/compare", o(B(0) == B(1)); o(B(0) != B(1)); o(vm::is_equal(B(0), B(1), POS(2) / T(16))))
  OPS("bbox/merge", o(vm::merge(B(0), B(1))); o(vm::merge(B(0), V(2))))
  OPS("bbox/intersect", o(vm::intersect(B(0), B(1))))
  OPS("bbox/repair", Box b; b.min = V(0); b.max = V(1); o(vm::repair(b)))
  OPS("bbox/merge_all", const std::array<vm::vec<T, S>, 4> in{V(0), V(1), V(2), V(3)};
      o(Box::merge_all(in.begin(), in.begin() + 1 + a.n(4) % 4)); o(Box::merge_all(in.begin(), in.end(), Get{&a})))
  OPS("bbox/builder", typename Box::builder b; o(b.initialized()); b.add(V(0)); o(b.bounds()); b.add(B(1)); o(b.bounds());
      const std::array<vm::vec<T, S>, 2> in{V(2), V(3)}; b.add(in.begin(), in.end(), Get{&a}); o(b.bounds()); o(b.initialized()))
  OPS("bbox/builder-box", typename Box::builder b; b.add(B(0)); o(b.bounds()); b.add(B(1)); o(b.bounds()); typename Box::builder e;
      const std::array<vm::vec<T, S>, 3> in{V(2), V(3), V(1)}; e.add(in.begin(), in.begin() + a.n(4) % 3); o(e.initialized());
      e.add(B(1)); o(e.bounds()))
  if constexpr (S == 3) {
    OPS("bbox/corner", for (int i = 0; i < 8; ++i) o(B(0).corner(i & 4 ? Box::Corner::max : Box::Corner::min,
                         i & 2 ? Box::Corner::max : Box::Corner::min, i & 1 ? Box::Corner::max : Box::Corner::min)))
    OPS("bbox/transform", o(B(0).transform(A4(1))))
    OPS("bbox/faces", B(0).for_each_face([&](const auto& p1, const auto& p2, const auto& p3, const auto& p4, const auto& n) {
          a.tick(); o(p1); o(p2); o(p3); o(p4); o(n); }))
    OPS("bbox/edges", B(0).for_each_edge([&](const auto& p1, const auto& p2) { a.tick(); o(p1); o(p2); }))
    OPS("bbox/vertices", B(0).for_each_vertex([&](const auto& p) { a.tick(); o(p); }); o(B(0).vertices()))
  }
}
template <typename T, std::size_t S> void lines() {
  OPS("line/ctor", o(vm::line<T, S>()); o(vm::line<T, S>(V(0), V(1))); o(vm::line<float, S>(L(2))); o(vm::line<double, S>(L(2)));
      o(L(2).get_origin()); o(L(2).get_direction()))
  OPS("line/transform", o(L(0).transform(a.a<T, S + 1>(1))))
  OPS("line/transform_c", o(L(0).transform_c(a.a<T, S + 1>(1))))
  OPS("line/canonical", o(L(0).make_canonical()))
  OPS("line/compare", o(L(0) == L(1)); o(L(0) != L(1)); o(vm::is_equal(L(0), L(1), POS(2) / T(16))))
  OPS("line/abstract", o(vm::distance_to_projected_point(L(0), V(1))); o(vm::point_at_distance(L(0), SC(2)));
      o(vm::project_point(L(0), V(1))))
  OPS("ray/ctor", o(vm::ray<T, S>()); o(vm::ray<T, S>(V(0), V(1))); o(vm::ray<float, S>(R(2))); o(vm::ray<double, S>(R(2)));
      o(R(2).get_origin()); o(R(2).get_direction()))
  OPS("ray/transform", o(R(0).transform(a.a<T, S + 1>(1))))
  OPS("ray/transform_c", o(R(0).transform_c(a.a<T, S + 1>(1))))
  OPS("ray/status", o(R(0).point_status(V(1))))
  OPS("ray/compare", o(R(0) == R(1)); o(R(0) != R(1)); o(vm::is_equal(R(0), R(1), POS(2) / T(16))))
  OPS("ray/abstract", o(vm::distance_to_projected_point(R(0), V(1))); o(vm::point_at_distance(R(0), SC(2)));
      o(vm::project_point(R(0), V(1))))
  OPS("segment/ctor", o(vm::segment<T, S>(V(0), V(1))); o(vm::segment<float, S>(SG(2))); o(vm::segment<double, S>(SG(2)));
      auto c = SG(0); o(c); c = SG(1); o(c))
  OPS("segment/props", o(SG(0).get_origin()); o(SG(0).get_direction()); o(SG(0).length()); o(SG(0).length_c());
      o(SG(0).squared_length()); o(SG(0).start()); o(SG(0).end()); o(SG(0).center()); o(SG(0).direction()))
  OPS("segment/contains", o(SG(0).contains(V(1), POS(2) / T(16))); o(SG(0).contains(SG(0).center(), POS(2) / T(16))))
  OPS("segment/transform", o(SG(0).transform(a.a<T, S + 1>(1))); o(SG(0).translate(V(2))); o(vm::translate(SG(0), V(2))))
  OPS("segment/compare", o(vm::compare(SG(0), SG(1))); o(vm::compare(SG(0), SG(1), POS(2) / T(16)));
      o(vm::is_equal(SG(0), SG(1), POS(2) / T(16))); o(SG(0) == SG(1)); o(SG(0) != SG(1)); o(SG(0) < SG(1)); o(SG(0) <= SG(1));
      o(SG(0) > SG(1)); o(SG(0) >= SG(1)))
  OPS("segment/get_vertices", const std::array<vm::segment<T, S>, 2> in{SG(0), SG(1)}; std::vector<vm::vec<T, S>> out;
      vm::segment<T, S>::get_vertices(in.begin(), in.end(), std::back_inserter(out)); o(out))
  OPS("polygon/ctor", o(vm::polygon<T, S>()); o(vm::polygon<T, S>{V(0), V(1), V(2)}); o(vm::polygon<T, S>(a.list<T, S>(3)));
      o(vm::polygon<float, S>(G(4))); o(vm::polygon<double, S>(G(4))); auto c = G(1); o(c); c = G(4); o(c))
  OPS("polygon/props", o(G(0).vertexCount()); o(G(0).hasVertex(V(1))); for (const auto& v : G(0)) o(v);
      for (const auto& v : G(0)) o(G(0).hasVertex(v)))
  OPS("polygon/center", if (G(0).vertexCount() > 0) o(G(0).center()))
  OPS("polygon/invert", if (G(0).vertexCount() > 0) o(G(0).invert()))
  OPS("polygon/translate", o(G(0).translate(V(1))))
  OPS("polygon/transform", o(G(0).transform(a.a<T, S + 1>(1))))
  OPS("polygon/compare", o(vm::compare(G(0), G(1))); o(vm::compare(G(0), G(1), POS(2) / T(16)));
      o(vm::isEqual(G(0), G(1), POS(2) / T(16))); o(G(0) == G(1)); o(G(0) != G(1)); o(G(0) < G(1)); o(G(0) <= G(1));
      o(G(0) > G(1)); o(G(0) >= G(1)); o(vm::compare(G(0), G(0))))
  OPS("polygon/unoriented", o(vm::compareUnoriented(G(0), G(1))); if (G(0).vertexCount() > 0) o(vm::compareUnoriented(G(0), G(0).invert())))
  OPS("polygon/get_vertices", const std::array<vm::polygon<T, S>, 2> in{G(0), G(1)}; std::vector<vm::vec<T, S>> out;
      vm::polygon<T, S>::get_vertices(in.begin(), in.end(), std::back_inserter(out)); o(out))
  OPS("distance/ray-point", o(vm::squared_distance(R(0), V(1))); o(vm::distance(R(0), V(1))))
  OPS("distance/segment-point", o(vm::squared_distance(SG(0), V(1))); o(vm::distance(SG(0), V(1))))
  OPS("distance/ray-segment", o(vm::squared_distance(R(0), SG(1))); o(vm::distance(R(0), SG(1))))
  OPS("distance/ray-ray", o(vm::squared_distance(R(0), R(1))); o(vm::distance(R(0), R(1))); o(vm::distance(R(0), R(0)).is_colinear()))
  OPS("distance/ray-line", o(vm::squared_distance(R(0), L(1))); o(vm::distance(R(0), L(1))))
  OPS("intersect/ray-bbox", o(vm::intersect_ray_bbox(R(0), B(1))))
  OPS("intersect/ray-sphere", o(vm::intersect_ray_sphere(R(0), V(1), POS(2))))
}
template <typename T> void three() {
  constexpr std::size_t S = 3;
  OPT("plane/ctor", o(vm::plane<T, 3>()); o(vm::plane<T, 3>(SC(0), U3(1))); o(vm::plane<T, 3>(V3(0), U3(1))); o(vm::plane<float, 3>(P(2)));
      o(vm::plane<double, 3>(P(2))))
  OPT("plane/at", const auto& p = P(0); const auto ax = vm::find_abs_max_component(p.normal); o(p.anchor());
      o(p.at(a.v<T, 2>(1), ax)); o(p.xAt(a.v<T, 2>(1))); o(p.yAt(a.v<T, 2>(1))); o(p.zAt(a.v<T, 2>(1))))
  OPT("plane/status", o(P(0).point_distance(V3(1))); o(P(0).point_status(V3(1))); o(P(0).point_status(P(0).anchor()));
      o(P(0).point_status(V3(1), POS(2))))
  OPT("plane/flip", o(P(0).flip()))
  OPT("plane/transform", o(P(0).transform(A4(1))))
  OPT("plane/transform_c", o(P(0).transform_c(A4(1))))
  OPT("plane/project", o(P(0).project_point(V3(1))); o(P(0).project_point(V3(1), U3(2))); o(P(0).project_vector(V3(1)));
      o(P(0).project_vector(V3(1), U3(2))))
  OPT("plane/compare", o(P(0) == P(1)); o(P(0) != P(1)); o(vm::is_equal(P(0), P(1), POS(2) / T(16))))
  OPT("plane/normal", o(vm::plane_normal(V3(0), V3(1), V3(2))); o(vm::plane_normal(V3(0), V3(1), V3(2), POS(3) / T(16))))
  OPT("plane/from_points", o(vm::from_points(V3(0), V3(1), V3(2))))
  OPT("plane/from_range", const auto& l = a.list<T, 3>(0); o(vm::from_points(l.begin(), l.end())); o(vm::from_points(l.begin(), l.end(), Get{&a})))
  OPT("plane/from_short_range", const auto& l = a.list<T, 3>(0); const auto n = std::ptrdiff_t(a.n(1) % 4);
      const auto e = l.begin() + std::min<std::ptrdiff_t>(n, std::ptrdiff_t(l.size())); o(vm::from_points(l.begin(), e, Get{&a}));
      o(vm::intersect_ray_polygon(R3(2), l.begin(), e, Get{&a})); const std::array<vm::vec<T, 3>, 3> same{V3(3), V3(3), V3(4)};
      o(vm::from_points(same.begin(), same.end())); o(vm::intersect_ray_polygon(R3(2), same.begin(), same.end())))
  OPT("contains/boundary", const auto& l = a.list<T, 3>(1); const auto n = l.size(); const auto i = a.n(0) % n; const auto j = (i + 1) % n;
      const auto ax = vm::axis::type(a.n(2) % 3); const auto mid = (l[i] + l[j]) / T(2);
      o(vm::polygon_contains_point(mid, ax, l.begin(), l.end())); o(vm::polygon_contains_point(l[i], ax, l.begin(), l.end(), Get{&a}));
      o(vm::polygon_contains_point((l[n - 1] + l[0]) / T(2), ax, l.begin(), l.end())); o(vm::polygon_contains_point(mid, U3(3), l.begin(), l.end())))
  OPT("distance/parallel", const auto& r = R3(0); const auto d = SC(1); const auto e = SC(2); const auto off = vm::cross(r.direction, V3(3));
      const vm::segment<T, 3> s(r.origin + r.direction * d + off, r.origin + r.direction * e + off);
      o(vm::squared_distance(r, s)); o(vm::distance(r, s)); o(vm::squared_distance(vm::ray<T, 3>(r.origin, -r.direction), s));
      o(vm::squared_distance(r, vm::ray<T, 3>(s.start(), r.direction))); o(vm::squared_distance(r, vm::line<T, 3>(s.end(), -r.direction))))
  OPT("intersect/behind", const auto& r = R3(0); const vm::ray<T, 3> back(r.origin, -r.direction); o(vm::intersect_ray_plane(back, P(1)));
      o(vm::intersect_ray_bbox(back, B3(2))); o(vm::intersect_ray_sphere(back, V3(3), POS(4))); o(vm::intersect_ray_triangle(back, V3(1), V3(2), V3(3)));
      o(vm::intersect_ray_torus(back, V3(1), POS(2) + POS(3), POS(3))); o(vm::intersect_ray_triangle(r, V3(1), V3(1), V3(3))))
#undef G
#define G(k) (a.g<T, 3>(k))
  // operands placed so that the rarer branches are taken often
  OPT("aim/triangle", const auto c = (V3(1) + V3(2) + V3(3)) / T(3); const auto d = c - V3(0); const auto m = (V3(2) + V3(3)) / T(2) - V3(0);
      if (vm::squared_length(d) > T(0) && vm::squared_length(m) > T(0)) { const vm::ray<T, 3> r(V3(0), vm::normalize(d));
      const vm::ray<T, 3> e(V3(0), vm::normalize(m)); o(vm::intersect_ray_triangle(r, V3(1), V3(2), V3(3)));
      o(vm::intersect_ray_triangle(e, V3(1), V3(2), V3(3))); o(vm::intersect_ray_triangle(r, V3(1), V3(2), V3(2) + V3(2) - V3(3)));
      o(vm::intersect_ray_triangle(r, V3(3) + V3(3) - c, V3(2), V3(3))); o(vm::intersect_ray_triangle(r, V3(2), V3(1), V3(3) + (V3(3) - c) * T(4)));
      o(vm::intersect_ray_triangle(vm::ray<T, 3>(r.origin, -r.direction), V3(1), V3(2), V3(3))); })
  OPT("aim/polygon", const auto& l = a.list<T, 3>(1); const auto c = vm::average(l.begin(), l.end()); const auto d = c - V3(0);
      if (vm::squared_length(d) > T(0)) { const vm::ray<T, 3> r(V3(0), vm::normalize(d)); o(vm::intersect_ray_polygon(r, l.begin(), l.end(), Get{&a}));
      o(vm::intersect_ray_polygon(vm::ray<T, 3>(r.origin, -r.direction), l.begin(), l.end())); o(vm::intersect_ray_polygon(r, l.rbegin(), l.rend())); })
  OPT("aim/sphere", const auto& p = V3(0); const auto& d = U3(1); const auto k = POS(2); const auto& n = U3(3); using Ry = vm::ray<T, 3>;
      o(vm::intersect_ray_sphere(Ry(p + d * (k + POS(4)), d), p, k)); o(vm::intersect_ray_sphere(Ry(p + d * (k + POS(4)), -d), p, k));
      o(vm::intersect_ray_sphere(Ry(p + n * (k / T(2)), d), p, k)); o(vm::intersect_ray_sphere(Ry(p + n * k, d), p, k));
      o(vm::intersect_ray_sphere(Ry(p + d * k, d), p, k)); o(vm::intersect_ray_sphere(Ry(p, d), p, k)))
  OPT("aim/bbox", const auto& b = B3(0); const auto c = b.center(); const auto d = c - V3(1); using Ry = vm::ray<T, 3>;
      o(vm::intersect_ray_bbox(Ry(c, U3(2)), b)); o(vm::intersect_ray_bbox(Ry(b.min, U3(2)), b)); o(vm::intersect_ray_bbox(Ry(c - U3(2) * T(512), U3(2)), b));
      if (vm::squared_length(d) > T(0)) { o(vm::intersect_ray_bbox(Ry(V3(1), vm::normalize(d)), b)); o(vm::intersect_ray_bbox(Ry(V3(1), -vm::normalize(d)), b)); })
  OPT("aim/torus", const auto& p = V3(0); const auto& d = U3(1); const auto n = POS(2); const auto m = n + POS(3); using Ry = vm::ray<T, 3>;
      o(vm::intersect_ray_torus(Ry(p - d * (m + m + n), d), p, m, n)); o(vm::intersect_ray_torus(Ry(p, d), p, m, n));
      o(vm::intersect_ray_torus(Ry(p + vm::vec<T, 3>(m, T(0), T(0)), d), p, m, n)); o(vm::intersect_ray_torus(Ry(p + d * (m + m + n), d), p, m, n));
      o(vm::intersect_ray_torus(Ry(p - vm::vec<T, 3>(T(0), m + m, n), vm::vec<T, 3>::pos_y()), p, m, n)))
  OPT("aim/plane", const auto& pl = P(0); using Ry = vm::ray<T, 3>; o(vm::intersect_ray_plane(Ry(pl.anchor() + pl.normal * POS(1), -pl.normal), pl));
      o(vm::intersect_ray_plane(Ry(pl.anchor() - pl.normal * POS(1), -pl.normal), pl)); o(vm::intersect_ray_plane(Ry(pl.anchor(), U3(2)), pl));
      o(vm::intersect_plane_plane(pl, vm::plane<T, 3>(SC(1), pl.normal))); o(vm::intersect_plane_plane(pl, vm::plane<T, 3>(SC(1), U3(2)))))
  OPT("distance/behind", const auto& r = R3(0); const auto k = POS(1); const auto m = POS(2); const auto off = vm::cross(r.direction, U3(3)) * SC(4);
      const vm::segment<T, 3> s(r.origin - r.direction * k + off, r.origin - r.direction * (k + m) + off); const vm::ray<T, 3> b(r.origin, -r.direction);
      o(vm::squared_distance(r, s)); o(vm::squared_distance(b, s)); o(vm::distance(r, s).is_colinear(k)); o(vm::distance(b, s).is_colinear());
      const vm::segment<T, 3> z(r.origin - r.direction * k + off, r.origin + r.direction * m + off); o(vm::squared_distance(r, z)); o(vm::distance(b, z)))
  OPT("bbox/nested", const auto& b = B3(0); const auto e = b.expand(POS(1)); o(e.encloses(b)); o(b.encloses(e)); o(e.contains(b)); o(b.contains(e));
      o(b.intersects(b.translate(b.size()))); o(vm::intersect(e, b)); o(vm::intersect(b, b.translate(b.size() * T(2)))); o(e.contains(e.translate(V3(2)))))
  OPT("compare/partly", const auto& v = V3(0); const auto& x = V3(1); const auto& u = U3(2); const auto& n = U3(3); const auto e = POS(4) / T(16);
      const vm::ray<T, 3> r(v, u); const vm::line<T, 3> l(v, u); const vm::plane<T, 3> p(SC(0), u); const vm::bbox<T, 3> b(vm::min(v, x), vm::max(v, x));
      const vm::ray<T, 3> r2(v, n); const vm::line<T, 3> l2(v, n); const vm::plane<T, 3> p2(SC(0), n); vm::bbox<T, 3> b2(b.min, b.max + vm::vec<T, 3>(T(0), T(0), e));
      o(r == r2); o(r != r2); o(vm::is_equal(r, r2, e)); o(r == vm::ray<T, 3>(x, u)); o(l == l2); o(l != l2); o(vm::is_equal(l, l2, e));
      o(l == vm::line<T, 3>(v + u * SC(1), -u)); o(l == vm::line<T, 3>(x, u)); o(p == p2); o(p != p2); o(vm::is_equal(p, p2, e));
      o(p == vm::plane<T, 3>(SC(1), u)); o(b == b2); o(b != b2); o(vm::is_equal(b, b2, e)); const vm::quat<T> q(SC(1), v); const vm::quat<T> q2(-SC(1), v);
      o(q == q2); o(q != q2); o(vm::is_equal(q, q2, e)); o(q == vm::quat<T>(SC(1), x)); o(q != vm::quat<T>(SC(1), x)); o(q == -q);
      const vm::segment<T, 3> s(v, x); const vm::segment<T, 3> s2(v, x + u * e); o(s == s2); o(s < s2); o(vm::compare(s, s2, e)); o(vm::is_equal(s, s2, e)))
  OPT("polygon/tiny", const auto n = a.n(0) % 4; std::vector<vm::vec<T, 3>> v; std::vector<vm::vec<T, 3>> w;
      for (std::size_t i = 0; i < n; ++i) { v.push_back(V3(1 + i)); w.push_back(V3(1 + (i + 1) % n)); } const vm::polygon<T, 3> g(v); const vm::polygon<T, 3> h(w);
      o(g); o(vm::compareUnoriented(g, h)); o(vm::compareUnoriented(g, g)); o(vm::compare(g, h)); o(g == h); o(vm::isEqual(g, h, POS(4) / T(16)));
      o(g.hasVertex(V3(1))); o(g.translate(V3(4))); o(g.vertexCount()); o(vm::compareUnoriented(g, h, POS(4))))
  OPT("polygon/same-first", const auto m = vm::min(vm::min(V3(0), V3(1)), V3(2)) - vm::vec<T, 3>::one(); using Pg = vm::polygon<T, 3>; const Pg g{m, V3(0), V3(1), V3(2)};
      const Pg h{m, V3(1), V3(0), V3(2)}; const Pg i{m, V3(2), V3(1), V3(0)}; const Pg j{m, V3(2), V3(1), V3(3)}; o(vm::compareUnoriented(g, h));
      o(vm::compareUnoriented(h, g)); o(vm::compareUnoriented(g, i)); o(vm::compareUnoriented(g, j)); o(vm::compareUnoriented(i, j)); o(vm::compare(g, i)); o(g < j))
  OPT("measure_angle/reflex", const auto& x = U3(0); const auto& y = U3(1); o(vm::measure_angle(x, y, vm::cross(x, y))); o(vm::measure_angle(x, y, vm::cross(y, x)));
      o(vm::measure_angle(x, -x, U3(2))); o(vm::measure_angle(x, x, U3(2))); o(vm::measure_angle(x, y, -U3(2))))
  OPT("compare/range-length", const auto& l = a.list<T, 3>(0); const auto k = 1 + std::ptrdiff_t(a.n(1) % l.size()); o(vm::compare<T>(l.begin(), l.end(), l.begin(), l.end() - k));
      o(vm::compare<T>(l.begin(), l.end() - k, l.begin(), l.end())); o(vm::compare<T>(l.begin(), l.end(), l.begin(), l.end(), POS(2)));
      o(vm::compare<T>(l.begin(), l.end(), l.begin(), l.end() - k, POS(2))))
  OPT("polygon/reverse", o(G(0).vertexCount() ? *G(0).rbegin() : V3(1)); o(std::size_t(G(0).rend() - G(0).rbegin())))
  OPT("polygon/near", if (G(0).vertexCount() > 1) { auto v = G(0).vertices(); v.back() = v.back() + V3(1); const vm::polygon<T, 3> h(v);
      o(vm::compareUnoriented(G(0), h)); o(vm::compareUnoriented(h, G(0), POS(2))); o(vm::compare(G(0), h)); o(G(0) < h); })
  OPT("plane/make", o(vm::horizontal_plane(V3(0))); o(vm::orthogonal_plane(V3(0), U3(1))); o(vm::aligned_orthogonal_plane(V3(0), V3(1))))
  OPT("intersect/ray-plane", o(vm::intersect_ray_plane(R3(0), P(1))))
  OPT("intersect/line-plane", o(vm::intersect_line_plane(a.l<T, 3>(0), P(1))))
  OPT("intersect/plane-plane", o(vm::intersect_plane_plane(P(0), P(1))); o(vm::intersect_plane_plane(P(0), P(0).flip())))
  OPT("intersect/triangle", o(vm::intersect_ray_triangle(R3(0), V3(1), V3(2), V3(3))))
  OPT("intersect/torus", o(vm::intersect_ray_torus(R3(0), V3(1), POS(2) + POS(3), POS(3))))
  OPT("intersect/polygon", const auto& l = a.list<T, 3>(1); o(vm::intersect_ray_polygon(R3(0), l.begin(), l.end()));
      o(vm::intersect_ray_polygon(R3(0), l.begin(), l.end(), Get{&a})))
  OPT("intersect/polygon-plane", const auto& l = a.list<T, 3>(1); const auto pl = vm::from_points(l.begin(), l.end());
      o(vm::intersect_ray_polygon(R3(0), std::get<1>(pl), l.begin(), l.end())))
  OPT("contains/axis", const auto& l = a.list<T, 3>(1); o(vm::polygon_contains_point(V3(0), vm::axis::type(a.n(2) % 3), l.begin(), l.end()));
      o(vm::polygon_contains_point(l[0], vm::axis::type(a.n(2) % 3), l.begin(), l.end(), Get{&a})))
  OPT("contains/normal", const auto& l = a.list<T, 3>(1); o(vm::polygon_contains_point(V3(0), U3(2), l.begin(), l.end(), Get{&a})))
  OPT("contains/auto", const auto& l = a.list<T, 3>(1); o(vm::polygon_contains_point(V3(0), l.begin(), l.end()));
      o(vm::polygon_contains_point(vm::average(l.begin(), l.end()), l.begin(), l.end(), Get{&a})))
  OPT("hull/hull", o(vm::convex_hull(a.hull<T>(0))))
  OPT("hull/ring", o(vm::convex_hull(a.hull<T>(0))); o(vm::convex_hull(a.hull<T>(1))))
  OPT("bezier/surface", o(vm::evaluate_quadratic_bezier_surface(a.bez<T>(0), SC(1), SC(2)));
      o(vm::evaluate_quadratic_bezier_surface(a.bez<T>(0), T(0), T(1))))
}
template <typename T> void all() {
  box<T, 1>();
  box<T, 2>();
  box<T, 3>();
  lines<T, 2>();
  lines<T, 3>();
  three<T>();
}
} // namespace
#ifdef CAT_FLOAT
void regGeoF() { all<float>(); }
#else
void regGeoD() { all<double>(); }
#endif
} // namespace catns
