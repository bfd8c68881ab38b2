// G02: polyhedra: volume, centroid, midpoint
#include "v.h"
#include <array>
#include <vector>
#include <cmath>
#include <cassert>
#include <algorithm>
#include <ristra/math/vector.h>
#include <ristra/math/general.h>
#include <ristra/utils/type_traits.h>
#include <ristra/geometry/shapes/tetrahedron.h>
#include <ristra/geometry/shapes/hexahedron.h>
#include <ristra/geometry/shapes/polyhedron.h>
using std::size_t;
namespace rs = ristra::geometry::shapes;
template<typename T> using P3 = ristra::math::vector<T, 3>;
template<typename T> T det(const T * a, const T * b, const T * c) { return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]); }
template<typename T, size_t N> struct body {
  P3<T> p[N]; T c[N][3], m[3] = {0, 0, 0};
  body() { for (size_t i = 0; i < N; ++i) for (int d = 0; d < 3; ++d) c[i][d] = v::any<T>("c"); done(); }
  struct raw {};
  explicit body(raw) {}
  void done() { for (size_t i = 0; i < N; ++i) for (int d = 0; d < 3; ++d) { p[i][d] = c[i][d]; m[d] += c[i][d] / T(N); } }
  template<typename Q> void is_mid(const Q & q, const char * s) const { for (int d = 0; d < 3; ++d) v::eq(q[d], m[d], s); }
  void same() const { for (size_t i = 0; i < N; ++i) for (int d = 0; d < 3; ++d) v::eq(p[i][d], c[i][d], "points unchanged"); }
};
// signed volume and first moment of the region bounded by faces, each fanned about the mean of its vertices (sum of tetrahedra with apex at the origin)
template<typename T> struct moments { T v6 = 0, m24[3] = {0, 0, 0};
  void tri(const T * a, const T * b, const T * c) { T k = det(a, b, c); v6 += k; for (int d = 0; d < 3; ++d) m24[d] += k * (a[d] + b[d] + c[d]); }
  template<size_t N> void face(const body<T, N> & b, std::initializer_list<int> f) {
    T m[3] = {0, 0, 0}; for (int i : f) for (int d = 0; d < 3; ++d) m[d] += b.c[i][d] / T(f.size());
    for (size_t i = 0; i < f.size(); ++i) tri(b.c[f.begin()[i]], b.c[f.begin()[(i + 1) % f.size()]], m);
  }
};
template<typename T> T mag(T x) { return x < 0 ? -x : x; }
template<typename T> void tet() {
  body<T, 4> b; auto & p = b.p; using S = rs::tetrahedron;
  b.is_mid(S::midpoint(p[0], p[1], p[2], p[3]), "tetrahedron midpoint"); b.is_mid(S::centroid(p[0], p[1], p[2], p[3]), "tetrahedron centroid is the mean of its vertices");
  T u[3], w[3], z[3]; for (int d = 0; d < 3; ++d) { u[d] = b.c[1][d] - b.c[0][d]; w[d] = b.c[2][d] - b.c[0][d]; z[d] = b.c[3][d] - b.c[0][d]; }
  auto x = S::volume(p[0], p[1], p[2], p[3]);
  v::ensure(x >= 0, "volume >= 0"); v::eq(x * 6, mag(det(u, w, z)), "tetrahedron volume = |det|/6");
  v::eq(S::volume(p[1], p[0], p[2], p[3]), x, "volume does not depend on the order of the vertices");
  v::eq(S::volume(p[3], p[0], p[1], p[2]), x, "volume does not depend on the order of the vertices");
  b.same();
}
CONTRACT(tet_d) { tet<double>(); }
CONTRACT(tet_f) { tet<float>(); }
template<typename T, typename F> void hexa(body<T, 8> & b, F && f) { auto & p = b.p; f(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]); }
template<typename T> moments<T> hexm(const body<T, 8> & b) {
  moments<T> m; m.face(b, {0, 1, 2, 3}); m.face(b, {4, 7, 6, 5}); m.face(b, {0, 4, 5, 1}); m.face(b, {1, 5, 6, 2}); m.face(b, {2, 6, 7, 3}); m.face(b, {3, 7, 4, 0}); return m;
}
// hexahedron with arbitrary vertices (bilinear faces)
CONTRACT(hex_centroid_d) {
  body<double, 8> b; auto m = hexm(b); v::nonzero(m.v6);
  hexa(b, [&](auto &... q) { b.is_mid(rs::hexahedron::midpoint(q...), "hexahedron midpoint"); auto x = rs::hexahedron::centroid(q...); for (int d = 0; d < 3; ++d) v::eq(x[d] * 4 * m.v6, m.m24[d], "hexahedron centroid = first moment / volume"); });
  b.same();
}
// the volume of a cell none of whose three parts is inverted
template<typename T> void hexvol() {
  body<T, 8> b; auto m = hexm(b); auto & c = b.c;
  auto tp = [&](auto f, auto g, auto h) { T a[3], e[3], k[3]; for (int d = 0; d < 3; ++d) { a[d] = f(d); e[d] = g(d); k[d] = h(d); } return det(a, e, k); };
  T t1 = tp([&](int d) { return c[6][d] - c[1][d] + c[7][d] - c[0][d]; }, [&](int d) { return c[6][d] - c[3][d]; }, [&](int d) { return c[2][d] - c[0][d]; });
  T t2 = tp([&](int d) { return c[7][d] - c[0][d]; }, [&](int d) { return c[6][d] - c[3][d] + c[5][d] - c[0][d]; }, [&](int d) { return c[6][d] - c[4][d]; });
  T t3 = tp([&](int d) { return c[6][d] - c[1][d]; }, [&](int d) { return c[5][d] - c[0][d]; }, [&](int d) { return c[6][d] - c[4][d] + c[2][d] - c[0][d]; });
  bool flip = v::boolean("flip");
  if (flip) v::assume(t1 > 0 && t2 > 0 && t3 > 0); else v::assume(t1 < 0 && t2 < 0 && t3 < 0);
  hexa(b, [&](auto &... q) { auto x = rs::hexahedron::volume(q...); v::eq(x * 6, flip ? -m.v6 : m.v6, "hexahedron volume (uninverted cell)"); });
  b.same();
}
CONTRACT(hex_volume_d) { hexvol<double>(); }
// parallelepiped
template<typename T> void box(bool cen) {
  body<T, 8> b{typename body<T, 8>::raw()}; T o[3], e[3][3]; for (auto & x : o) x = v::any<T>("o"); for (auto & r : e) for (auto & x : r) x = v::any<T>("e");
  static const int k[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
  for (int i = 0; i < 8; ++i) for (int d = 0; d < 3; ++d) b.c[i][d] = o[d] + k[i][0] * e[0][d] + k[i][1] * e[1][d] + k[i][2] * e[2][d];
  b.done(); T D = det(e[0], e[1], e[2]); v::assume(mag(D) > T(.05));
  hexa(b, [&](auto &... q) {
    v::eq(rs::hexahedron::volume(q...), mag(D), "volume of a parallelepiped is |det|");
    if (cen) b.is_mid(rs::hexahedron::centroid(q...), "centroid of a parallelepiped is its midpoint");
  });
}
CONTRACT(box_d) { box<double>(true); }
CONTRACT(box_f) { box<float>(false); }

// general polyhedra
template<typename T, size_t N> struct ph {
  rs::polyhedron<P3<T>> s; moments<T> m; T fm[3] = {0, 0, 0}; int nf = 0;
  void add(const body<T, N> & b, std::initializer_list<int> f, bool rev, int how) {
    std::vector<P3<T>> w; 
    if (rev) for (size_t i = f.size(); i-- > 0;) w.push_back(b.p[f.begin()[i]]); else for (int i : f) w.push_back(b.p[i]);
    if (how == 0) s.insert(w.begin(), w.end());
    else if (how == 1) s.insert(ristra::utils::array_ref<P3<T>>(w));
    else if (f.size() == 3) s.insert({w[0], w[1], w[2]}); else s.insert({w[0], w[1], w[2], w[3]});
    m.face(b, f); ++nf;
    for (int d = 0; d < 3; ++d) { T a = 0; for (int i : f) a += b.c[i][d]; fm[d] += a / T(f.size()); }
  }
  void check(bool cen) {
    auto mid = s.midpoint(); for (int d = 0; d < 3; ++d) v::eq(mid[d] * T(nf), fm[d], "polyhedron midpoint is the mean of the face midpoints");
    if (cen) { v::nonzero(m.v6); auto x = s.centroid(); for (int d = 0; d < 3; ++d) v::eq(x[d] * 4 * m.v6, m.m24[d], "polyhedron centroid = first moment / volume"); }
    auto vol = s.volume(); v::ensure(vol >= 0, "volume >= 0"); v::eq(vol * 6, mag(m.v6), "polyhedron volume");
  }
};
#define BND v::bounded("polyhedron: the cells tetrahedron, pyramid, wedge, hexahedron (number of faces 4..6, vertices per face 3..4)")
template<typename T> void ph_tet(bool rev, bool cen) {
  body<T, 4> b; ph<T, 4> q; int o = v::choose("first", 0, 1), h = v::choose("how", 0, 2);
  static const std::initializer_list<int> F[4] = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {0, 3, 2}};
  for (int i = 0; i < 4; ++i) q.add(b, F[(i + o) % 4], rev, h);
  q.check(cen);
  auto & p = b.p; v::eq(q.s.volume(), rs::tetrahedron::volume(p[0], p[1], p[2], p[3]), "polyhedron and tetrahedron agree"); b.same();
  b.is_mid(rs::polyhedron<P3<T>>::midpoint(p[0], p[1], p[2], p[3]), "static midpoint is the mean");
}
CONTRACT(ph_tet_d) { BND; ph_tet<double>(false, true); }
CONTRACT(ph_tet_rev) { BND; ph_tet<double>(true, true); }
CONTRACT(ph_tet_f) { BND; ph_tet<float>(false, false); }
CONTRACT(ph_pyramid) { BND; body<double, 5> b; ph<double, 5> q; q.add(b, {0, 3, 2, 1}, false, 0); q.add(b, {0, 1, 4}, false, 0); q.add(b, {1, 2, 4}, false, 2); q.add(b, {2, 3, 4}, false, 1); q.add(b, {3, 0, 4}, false, 0); q.check(true); }
CONTRACT(ph_wedge) { BND; body<double, 6> b; ph<double, 6> q; q.add(b, {0, 2, 1}, false, 0); q.add(b, {3, 4, 5}, false, 0); q.add(b, {0, 1, 4, 3}, false, 1); q.add(b, {1, 2, 5, 4}, false, 2); q.add(b, {2, 0, 3, 5}, false, 0); q.check(true); }
CONTRACT(ph_hex) { BND; body<double, 8> b; ph<double, 8> q; q.add(b, {0, 3, 2, 1}, false, 0); q.add(b, {4, 5, 6, 7}, false, 0); q.add(b, {0, 1, 5, 4}, false, 0); q.add(b, {1, 2, 6, 5}, false, 0); q.add(b, {2, 3, 7, 6}, false, 0); q.add(b, {3, 0, 4, 7}, false, 0);
#ifdef THOROUGH
  q.check(true);
#else
  q.check(false);
#endif
}
CONTRACT(shape_tags3) {
  using G = rs::geometric_shapes_t;
  v::ensure(rs::tetrahedron::shape == G::tetrahedron && rs::hexahedron::shape == G::hexahedron && rs::polyhedron<P3<double>>::shape == G::polyhedron, "each shape reports its own kind");
}
