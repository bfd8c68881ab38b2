// G03: points and space vectors
#include "v.h"
#include <array>
#include <list>
#include <vector>
#include <cmath>
#include <cassert>
#include <algorithm>
#include <initializer_list>
#include <ristra/geometry/point.h>
#include <ristra/geometry/space_vector.h>
using std::size_t; using v::sm;
namespace rg = ristra::geometry; namespace ru = ristra::utils;
template<typename T, size_t D> struct PT { rg::point<T, D> p; T c[D]; PT(const char * n = "p") { for (size_t i = 0; i < D; ++i) { c[i] = sm<T>(n); p[i] = c[i]; } }
  void same() { for (size_t i = 0; i < D; ++i) v::eq(p[i], c[i], "operands unchanged"); } };
template<typename T, size_t D> struct SV { rg::space_vector<T, D> p; T c[D]; SV(const char * n = "v", bool nz = false) { for (size_t i = 0; i < D; ++i) { c[i] = nz ? v::nz<T>(n) : sm<T>(n); p[i] = c[i]; } }
  void same() { for (size_t i = 0; i < D; ++i) v::eq(p[i], c[i], "operands unchanged"); } };
template<typename T, size_t D> void pts() {
  PT<T, D> a("a"), b("b"); T s = 0; for (size_t i = 0; i < D; ++i) s += (a.c[i] - b.c[i]) * (a.c[i] - b.c[i]);
  T d = rg::distance(a.p, b.p); v::ensure(d >= 0, "distance >= 0"); v::eq(d * d, s, "distance^2 = sum of squared differences");
  v::eq(rg::distance(b.p, a.p), d, "distance is symmetric"); v::eq(rg::distance(a.p, a.p), T(0), "distance of a point to itself is 0");
  auto m = rg::midpoint(a.p, b.p); for (size_t i = 0; i < D; ++i) v::eq(m[i] * 2, a.c[i] + b.c[i], "midpoint");
  a.same(); b.same();
}
CONTRACT(points_d) { pts<double, 1>(); pts<double, 2>(); pts<double, 3>(); pts<double, 4>(); }
CONTRACT(points_f) { pts<float, 1>(); pts<float, 3>(); }
template<typename T, size_t D, size_t N> void cen() {
  PT<T, D> p[N]; std::vector<rg::point<T, D>> w; std::list<rg::point<T, D>> l; for (auto & q : p) { w.push_back(q.p); l.push_back(q.p); }
  auto c = rg::centroid(w); auto e = rg::centroid(l);
  for (size_t i = 0; i < D; ++i) { T s = 0; for (auto & q : p) s += q.c[i]; v::eq(c[i], s / T(N), "centroid of a list is the mean"); v::eq(e[i], s / T(N), "centroid of a list is the mean"); }
  for (size_t k = 0; k < N; ++k) for (size_t i = 0; i < D; ++i) v::eq(w[k][i], p[k].c[i], "list unchanged");
}
#define B v::bounded("geometry::centroid(list): 1..6 points")
CONTRACT(cen_d1) { B; cen<double, 1, 3>(); } CONTRACT(cen_d2) { B; cen<double, 2, 1>(); cen<double, 2, 4>(); } CONTRACT(cen_d3) { B; cen<double, 3, 5>(); cen<double, 3, 2>(); } CONTRACT(cen_f) { B; cen<float, 2, 6>(); } CONTRACT(cen_i) { B; cen<int, 2, 3>(); cen<int, 1, 2>(); }
CONTRACT(cen_list) {
  PT<double, 2> a, b, c; auto x = rg::centroid({a.p, b.p, c.p}); for (int i = 0; i < 2; ++i) v::eq(x[i] * 3, a.c[i] + b.c[i] + c.c[i], "centroid of an initializer list is the mean");
  PT<double, 3> d, e; auto y = rg::centroid({d.p, e.p}); for (int i = 0; i < 3; ++i) v::eq(y[i] * 2, d.c[i] + e.c[i], "centroid of an initializer list is the mean");
}
template<typename T, size_t D> void svec() {
  using S = rg::space_vector<T, D>;
  v::ensure(S::size() == D, "size");
  SV<T, D> a("a"), b("b", true); T x = v::nz<T>("x");
#define EQ(e, f, m) do { auto r_ = (e); for (size_t i = 0; i < D; ++i) v::eq(r_[i], T(f), m); } while (0)
  EQ(a.p + b.p, a.c[i] + b.c[i], "u + v"); EQ(a.p - b.p, a.c[i] - b.c[i], "u - v"); EQ(a.p / x, a.c[i] / x, "v / s"); 
  if constexpr (D > 0) EQ((rg::operator*<T, D>(a.p, x)), x * a.c[i], "v * s");
  a.same(); b.same();
#define CP(op) { S t(a.p); S & r = (t op b.p); v::ensure(&r == &t, "compound operator returns its target"); for (size_t i = 0; i < D; ++i) { T k = a.c[i]; k op b.c[i]; v::eq(t[i], k, "u " #op " v"); } \
    S q(a.p); S & r2 = (q op x); v::ensure(&r2 == &q, "compound operator returns its target"); for (size_t i = 0; i < D; ++i) { T k = a.c[i]; k op x; v::eq(q[i], k, "v " #op " s"); } \
    S w(b.p); w op w; for (size_t i = 0; i < D; ++i) { T k = b.c[i]; k op b.c[i]; v::eq(w[i], k, "v " #op " v"); } b.same(); \
    S z(b.p); z op z[0]; for (size_t i = 0; i < D; ++i) { T k = b.c[i]; k op b.c[0]; v::eq(z[i], k, "v " #op " v[0]"); } }
  CP(+=) CP(-=) CP(*=) CP(/=)
  { S t; t = a.p; EQ(t, a.c[i], "assignment"); t = x; EQ(t, x, "assignment of a scalar sets every component"); S & u = t; t = u; EQ(t, x, "self assignment"); }
  { S t(b.p); t = t[D - 1]; EQ(t, b.c[D - 1], "assignment of an own component"); }
  if constexpr (D > 1) { S t(x); EQ(t, x, "fill constructor"); }
  { S t(a.p); T k = x; for (size_t i = 0; i < D; ++i) { t[i] = k; for (size_t j = 0; j < D; ++j) v::eq(t[j], j <= i ? k : a.c[j], "writing one component leaves the others"); } }
  T s = 0; for (size_t i = 0; i < D; ++i) s += a.c[i] * b.c[i];
  v::eq(rg::dot(a.p, b.p), s, "dot"); v::eq(rg::dot(b.p, a.p), s, "dot is symmetric");
  PT<T, D> p("p"); auto pv = rg::point_to_vector(p.p); for (size_t i = 0; i < D; ++i) v::eq(pv[i], p.c[i], "point_to_vector copies the components");
  a.same(); b.same(); p.same();
}
CONTRACT(sv_d1) { svec<double, 1>(); } CONTRACT(sv_d2) { svec<double, 2>(); } CONTRACT(sv_d3) { svec<double, 3>(); } CONTRACT(sv_f3) { svec<float, 3>(); } CONTRACT(sv_d4) { svec<double, 4>(); }
CONTRACT(sv_i2) { svec<int, 2>(); } CONTRACT(sv_i3) { svec<int, 3>(); }
CONTRACT(sv_ctor) {
  double a = v::real("a"), b = v::real("b"), c = v::real("c");
  rg::space_vector<double, 3> t(a, b, c), u{a, b, c}; rg::space_vector<double, 2> w(a, b);
  v::eq(t[0], a, "ctor"); v::eq(t[1], b, "ctor"); v::eq(t[2], c, "ctor"); v::eq(u[0], a, "list ctor"); v::eq(u[1], b, "list ctor"); v::eq(u[2], c, "list ctor"); v::eq(w[0], a, "ctor"); v::eq(w[1], b, "ctor");
  v::eq(t[ru::axis::x], a, "named axis"); v::eq(t[ru::axis::y], b, "named axis"); v::eq(t[ru::axis::z], c, "named axis");
  const auto & ct = t; v::eq(ct[ru::axis::z], c, "named axis"); t[ru::axis::y] = a; v::eq(t[1], a, "named axis write"); v::eq(t[0], a, "others"); v::eq(t[2], c, "others");
}
template<typename T, size_t D> void smag() { SV<T, D> a; T s = 0; for (size_t i = 0; i < D; ++i) s += a.c[i] * a.c[i]; T m = rg::magnitude(a.p); v::ensure(m >= 0, "magnitude >= 0"); v::eq(m * m, s, "magnitude^2 = v.v"); a.same(); }
CONTRACT(sv_mag) { smag<double, 1>(); smag<double, 2>(); smag<double, 3>(); smag<double, 4>(); smag<float, 3>(); }
CONTRACT(sv_cross) {
  { SV<double, 1> a, b; v::eq(rg::cross_magnitude(a.p, b.p), 0., "1d cross magnitude is 0"); }
  { SV<double, 2> a, b; double m = rg::cross_magnitude(a.p, b.p), k = a.c[0] * b.c[1] - a.c[1] * b.c[0]; v::ensure(m >= 0, "cross magnitude >= 0"); v::eq(m * m, k * k, "2d cross magnitude"); }
  { SV<double, 3> a("a"), b("b"); double m = rg::cross_magnitude(a.p, b.p), k = 0; auto n = rg::normal(a.p, b.p);
    for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, l = (i + 2) % 3; double x = a.c[j] * b.c[l] - a.c[l] * b.c[j]; k += x * x; v::eq(n[i], x, "3d normal is the cross product"); }
    v::ensure(m >= 0, "cross magnitude >= 0"); v::eq(m * m, k, "3d cross magnitude = |a x b|"); a.same(); b.same(); }
}
CONTRACT(sv_normal2) { PT<double, 2> a("a"), b("b"); auto n = rg::normal(a.p, b.p); v::eq(n[0], a.c[1] - b.c[1], "2d normal"); v::eq(n[1], b.c[0] - a.c[0], "2d normal"); }
