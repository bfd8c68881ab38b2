// G01: polygons: area, centroid, midpoint, normal
#include "v.h"
#include <array>
#include <list>
#include <vector>
#include <cmath>
#include <cassert>
#include <algorithm>
#include <ristra/math/vector.h>
#include <ristra/math/general.h>
#include <ristra/geometry/shapes/triangle.h>
#include <ristra/geometry/shapes/quadrilateral.h>
#include <ristra/geometry/shapes/polygon.h>
#include <ristra/geometry/area.h>
#include <ristra/geometry/centroid.h>
#include <ristra/geometry/normal.h>
using std::size_t;
namespace rs = ristra::geometry::shapes;
namespace rg = ristra::geometry;
template<typename T> using P2 = ristra::math::vector<T, 2>;
template<typename T> using P3 = ristra::math::vector<T, 3>;

// N points of the plane, with the textbook shoelace quantities
template<typename T, size_t N> struct poly2 {
  P2<T> p[N]; T x[N], y[N]; T a2 = 0, mx = 0, my = 0, cx = 0, cy = 0;
  poly2() {
    for (size_t i = 0; i < N; ++i) { x[i] = v::any<T>("x"); y[i] = v::any<T>("y"); p[i] = P2<T>(x[i], y[i]); }
    for (size_t i = 0; i < N; ++i) {
      size_t j = (i + 1) % N; T c = x[i] * y[j] - x[j] * y[i];
      a2 += c; cx += (x[i] + x[j]) * c; cy += (y[i] + y[j]) * c; mx += x[i]; my += y[i];
    }
  }
  void same() { for (size_t i = 0; i < N; ++i) { v::eq(p[i][0], x[i], "points unchanged"); v::eq(p[i][1], y[i], "points unchanged"); } }
  template<typename Q> void is_area(const Q & a, const char * m) { v::ensure(a >= 0, "area >= 0"); v::eq(a * 2, a2 < 0 ? -a2 : a2, m); }
  template<typename Q> void is_mid(const Q & q, const char * m) { v::eq(q[0] * T(N), mx, m); v::eq(q[1] * T(N), my, m); }
  template<typename Q> void is_cen(const Q & q, const char * m) { v::eq(q[0] * 3 * a2, cx, m); v::eq(q[1] * 3 * a2, cy, m); }
  template<typename Q> void is_nrm(const Q & q, const char * m) { v::eq(q[0], T(0), m); v::eq(q[1] * 2, a2, m); }
};
template<typename T> void tri2() {
  poly2<T, 3> q; using S = rs::triangle<2>;
  q.is_mid(S::midpoint(q.p[0], q.p[1], q.p[2]), "triangle midpoint");
  q.is_mid(S::centroid(q.p[0], q.p[1], q.p[2]), "triangle centroid is the mean of the vertices");
  q.is_nrm(S::normal(q.p[0], q.p[1], q.p[2]), "2d triangle normal carries the signed area");
  q.is_area(S::area(q.p[0], q.p[1], q.p[2]), "triangle area");
  q.is_area(S::area(q.p[2], q.p[1], q.p[0]), "area does not depend on orientation");
  q.same();
}
CONTRACT(tri2_d) { tri2<double>(); }
CONTRACT(tri2_f) { tri2<float>(); }
// centroid of a polygon that is a triangle agrees with the triangle's
CONTRACT(tri_poly_agree) {
  poly2<double, 3> q; v::nonzero(q.a2);
  q.is_mid(rs::polygon<2>::centroid(q.p[0], q.p[1], q.p[2]), "polygon centroid of a triangle is its midpoint");
}
template<typename T> void quad2() {
  poly2<T, 4> q; using S = rs::quadrilateral<2>; v::nonzero(q.a2);
  auto & p = q.p;
  q.is_mid(S::midpoint(p[0], p[1], p[2], p[3]), "quadrilateral midpoint");
  q.is_nrm(S::normal(p[0], p[1], p[2], p[3]), "quadrilateral normal");
  q.is_cen(S::centroid(p[0], p[1], p[2], p[3]), "quadrilateral centroid");
  q.is_area(S::area(p[0], p[1], p[2], p[3]), "quadrilateral area");
  q.same();
}
CONTRACT(quad2_d) { quad2<double>(); }
CONTRACT(quad2_f) { quad2<float>(); }
template<typename T, size_t N, size_t... I> void var2(std::index_sequence<I...>) {
  poly2<T, N> q; v::nonzero(q.a2); using S = rs::polygon<2>;
  q.is_mid(S::midpoint(q.p[I]...), "polygon midpoint (variadic)");
  q.is_nrm(S::normal(q.p[I]...), "polygon normal (variadic)");
  q.is_cen(S::centroid(q.p[I]...), "polygon centroid (variadic)");
  if constexpr (N > 3) q.is_cen(rg::centroid(q.p[I]...), "geometry::centroid (variadic)");
  q.is_area(S::area(q.p[I]...), "polygon area (variadic)");
  if constexpr (N > 3) q.is_area(rg::area(q.p[I]...), "geometry::area (variadic)");
  q.same();
}
template<typename T, size_t N> void iter2() {
  poly2<T, N> q; v::nonzero(q.a2); using S = rs::polygon<2>;
  std::vector<P2<T>> w(q.p, q.p + N);
  const auto & cw = w;
  q.is_mid(S::midpoint(w.begin(), w.end()), "polygon midpoint (iterators)");
  q.is_mid(S::midpoint(cw), "polygon midpoint (container)");
  q.is_nrm(S::normal(w.begin(), w.end()), "polygon normal (iterators)");
  q.is_nrm(S::normal(cw), "polygon normal (container)");
  q.is_cen(S::centroid(w.begin(), w.end()), "polygon centroid (iterators)");
  q.is_cen(S::centroid(cw), "polygon centroid (container)");
  q.is_cen(rg::centroid(cw), "geometry::centroid (container)");
  q.is_cen(rg::centroid_2d(cw), "geometry::centroid_2d");
  q.is_area(S::area(w.begin(), w.end()), "polygon area (iterators)");
  q.is_area(S::area(cw), "polygon area (container)");
  q.is_area(rg::area(cw), "geometry::area (container)");
  q.is_area(rg::area_2d(cw), "geometry::area_2d");
  v::ensure(w.size() == N, "container unchanged");
  for (size_t i = 0; i < N; ++i) { v::eq(w[i][0], q.x[i], "points unchanged"); v::eq(w[i][1], q.y[i], "points unchanged"); }
}
#define V2(n, T, N) CONTRACT(poly2_var_##n##N) { var2<T, N>(std::make_index_sequence<N>()); }
#define I2(n, T, N) CONTRACT(poly2_it_##n##N) { v::bounded("polygon (iterator/container forms): number of vertices 3..8"); iter2<T, N>(); }
V2(d, double, 3) V2(d, double, 4) V2(d, double, 5) V2(d, double, 6) V2(f, float, 5)
I2(d, double, 3) I2(d, double, 4) I2(d, double, 5) I2(d, double, 6) I2(f, float, 4)
// any iterator category that can go backwards
CONTRACT(poly2_list) {
  poly2<double, 4> q; v::nonzero(q.a2); std::list<P2<double>> l(q.p, q.p + 4); using S = rs::polygon<2>;
  q.is_nrm(S::normal(l.begin(), l.end()), "polygon normal (list)"); q.is_cen(S::centroid(l.begin(), l.end()), "polygon centroid (list)"); q.is_area(S::area(l.begin(), l.end()), "polygon area (list)");
}

// ---------------------------------------------------------------- three dimensions
template<typename T, size_t N> struct poly3 {
  P3<T> p[N]; T c[N][3], m[3] = {0, 0, 0};
  poly3() { for (size_t i = 0; i < N; ++i) for (size_t d = 0; d < 3; ++d) { c[i][d] = v::any<T>("c"); p[i][d] = c[i][d]; m[d] += c[i][d] / T(N); } }
  // poly3 in one of the coordinate planes (axis k constant), given counter-clockwise vertices about the mean
  explicit poly3(int k) { T h = v::any<T>("h"); for (size_t i = 0; i < N; ++i) for (int d = 0; d < 3; ++d) { c[i][d] = d == k ? h : v::any<T>("c"); p[i][d] = c[i][d]; m[d] += c[i][d] / T(N); } }
  // area vector of the triangle (i, i+1, mean)
  void av(size_t i, T * n) const {
    size_t j = (i + 1) % N; T u[3], w[3];
    for (int d = 0; d < 3; ++d) { u[d] = c[j][d] - c[i][d]; w[d] = m[d] - c[i][d]; }
    for (int d = 0; d < 3; ++d) { int e = (d + 1) % 3, f = (d + 2) % 3; n[d] = (u[e] * w[f] - u[f] * w[e]) / 2; }
  }
  T tri(size_t i) const { T n[3]; av(i, n); return std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]); }
  T area() const { T s = 0; for (size_t i = 0; i < N; ++i) s += tri(i); return s; }
  void newell(T * n) const {
    n[0] = n[1] = n[2] = 0;
    for (size_t i = 0; i < N; ++i) { size_t j = (i + 1) % N; for (int d = 0; d < 3; ++d) { int e = (d + 1) % 3, f = (d + 2) % 3; n[d] += (c[i][e] * c[j][f] - c[i][f] * c[j][e]) / 2; } }
  }
  template<typename Q> void is_mid(const Q & q, const char * s) const { for (int d = 0; d < 3; ++d) v::eq(q[d], m[d], s); }
  template<typename Q> void is_nrm(const Q & q, const char * s) const { T n[3]; newell(n); for (int d = 0; d < 3; ++d) v::eq(q[d], n[d], s); }
  template<typename Q> void is_cen(const Q & q, const char * s) const {
    T a = area(); for (int d = 0; d < 3; ++d) { T k = 0; for (size_t i = 0; i < N; ++i) k += tri(i) * (c[i][d] + c[(i + 1) % N][d] + m[d]) / 3; v::eq(q[d] * a, k, s); }
  }
  void same() const { for (size_t i = 0; i < N; ++i) for (int d = 0; d < 3; ++d) v::eq(p[i][d], c[i][d], "points unchanged"); }
};
template<typename T> void tri3() {
  poly3<T, 3> q; using S = rs::triangle<3>; auto & p = q.p;
  q.is_mid(S::midpoint(p[0], p[1], p[2]), "3d triangle midpoint");
  q.is_mid(S::centroid(p[0], p[1], p[2]), "3d triangle centroid");
  auto n = S::normal(p[0], p[1], p[2]);
  q.is_nrm(n, "3d triangle normal is the area vector");
  auto a = S::area(p[0], p[1], p[2]);
  v::ensure(a >= 0, "area >= 0");
  v::eq(a * a, n[0] * n[0] + n[1] * n[1] + n[2] * n[2], "area is the length of the area vector");
  q.same();
}
CONTRACT(tri3_d) { tri3<double>(); }
CONTRACT(tri3_f) { tri3<float>(); }
template<typename T, size_t N, size_t... I> void var3(std::index_sequence<I...>) {
  poly3<T, N> q; using S = rs::polygon<3>;
  v::assume(q.area() > T(0.01));
  q.is_mid(S::midpoint(q.p[I]...), "3d polygon midpoint (variadic)");
  q.is_nrm(S::normal(q.p[I]...), "3d polygon normal (variadic) is the area vector");
  v::eq(S::area(q.p[I]...), q.area(), "3d polygon area (variadic)");
  q.is_cen(S::centroid(q.p[I]...), "3d polygon centroid (variadic)");
  if constexpr (N == 4) {
    using Q = rs::quadrilateral<3>;
    q.is_mid(Q::midpoint(q.p[I]...), "3d quadrilateral midpoint");
    q.is_nrm(Q::normal(q.p[I]...), "3d quadrilateral normal");
    v::eq(Q::area(q.p[I]...), q.area(), "3d quadrilateral area");
    q.is_cen(Q::centroid(q.p[I]...), "3d quadrilateral centroid");
  }
  q.same();
}
template<typename T, size_t N> void iter3() {
  poly3<T, N> q; using S = rs::polygon<3>;
  v::assume(q.area() > T(0.01));
  std::vector<P3<T>> w(q.p, q.p + N); const auto & cw = w;
  q.is_mid(S::midpoint(w.begin(), w.end()), "3d polygon midpoint (iterators)");
  q.is_mid(S::midpoint(cw), "3d polygon midpoint (container)");
  q.is_nrm(S::normal(w.begin(), w.end()), "3d polygon normal (iterators)");
  q.is_nrm(S::normal(cw), "3d polygon normal (container)");
  v::eq(S::area(w.begin(), w.end()), q.area(), "3d polygon area (iterators)");
  v::eq(S::area(cw), q.area(), "3d polygon area (container)");
  q.is_cen(S::centroid(w.begin(), w.end()), "3d polygon centroid (iterators)");
  q.is_cen(S::centroid(cw), "3d polygon centroid (container)");
  for (size_t i = 0; i < N; ++i) for (int d = 0; d < 3; ++d) v::eq(w[i][d], q.c[i][d], "points unchanged");
}
#define V3(n, T, N) CONTRACT(poly3_var_##n##N) { var3<T, N>(std::make_index_sequence<N>()); }
#define I3(n, T, N) CONTRACT(poly3_it_##n##N) { v::bounded("polygon (iterator/container forms): number of vertices 3..8"); iter3<T, N>(); }
V3(d, double, 4) V3(d, double, 5) V3(f, float, 4)
I3(d, double, 4) I3(d, double, 5) I3(f, float, 4)
// planar convex polygon in a coordinate plane: area is the shoelace area, centroid the planar centroid
CONTRACT(poly3_planar) {
  int k = v::choose("axis", 0, 2); poly3<double, 4> q(k); using S = rs::polygon<3>; auto & p = q.p;
  int e = (k + 1) % 3, f = (k + 2) % 3; double a2 = 0, ce = 0, cf = 0; bool convex = true;
  for (int i = 0; i < 4; ++i) {
    double n[3]; q.av(i, n); v::assume(n[k] > 0);
    int j = (i + 1) % 4; double c = q.c[i][e] * q.c[j][f] - q.c[j][e] * q.c[i][f]; a2 += c; ce += (q.c[i][e] + q.c[j][e]) * c; cf += (q.c[i][f] + q.c[j][f]) * c;
  }
  v::eq(S::area(p[0], p[1], p[2], p[3]) * 2, a2, "area of a planar polygon is the shoelace area");
  auto x = S::centroid(p[0], p[1], p[2], p[3]);
  v::eq(x[k], q.c[0][k], "centroid of a planar polygon lies in its plane");
  v::eq(x[e] * 3 * a2, ce, "centroid of a planar polygon"); v::eq(x[f] * 3 * a2, cf, "centroid of a planar polygon");
}
CONTRACT(edge_normal) {
  double a[3], b[3]; for (auto & x : a) x = v::real("a"); for (auto & x : b) x = v::real("b");
  const P2<double> p(a[0], a[1]), q(b[0], b[1]); auto n = rg::normal(p, q);
  v::eq(n[0], a[1] - b[1], "2d edge normal"); v::eq(n[1], b[0] - a[0], "2d edge normal");
  const P3<double> r(a[0], a[1], a[2]), s(b[0], b[1], b[2]); auto m = rg::normal(r, s);
  for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; v::eq(m[i], a[j] * b[k] - a[k] * b[j], "3d normal of two vectors is their cross product"); }
}
CONTRACT(shape_tags) {
  using G = rs::geometric_shapes_t;
  v::ensure(rs::triangle<2>::shape == G::triangle && rs::triangle<3>::shape == G::triangle && rs::quadrilateral<2>::shape == G::quadrilateral && rs::quadrilateral<3>::shape == G::quadrilateral &&
            rs::polygon<2>::shape == G::polygon && rs::polygon<3>::shape == G::polygon, "each shape reports its own kind");
}
#ifdef THOROUGH
V2(d, double, 7) V2(d, double, 8) I2(d, double, 7) I2(d, double, 8) V3(d, double, 6) I3(d, double, 6)
#endif
