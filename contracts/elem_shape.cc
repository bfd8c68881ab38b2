// E01/E02: shape functions of the fixed-order elements
#include "v.h"
#include <vector>
#include <cmath>
#include <ristra/elements/elements.h>
#include <ristra/elements/elements.cc>
namespace re = ristra::elements;
using V = std::vector<double>; using VV = std::vector<std::vector<double>>;
// reference nodes, in the numbering the header documents
static const double Q[12][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}};
static const double Q8[8][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}, {0, -1}, {1, 0}, {0, 1}, {-1, 0}};
#define T3 (1. / 3.)
static const double Q12[12][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}, {-T3, -1}, {T3, -1}, {T3, 1}, {-T3, 1}, {-1, -T3}, {1, -T3}, {1, T3}, {-1, T3}};
#define C8 {-1, -1, -1}, {1, -1, -1}, {1, -1, 1}, {-1, -1, 1}, {-1, 1, -1}, {1, 1, -1}, {1, 1, 1}, {-1, 1, 1}
static const double H8[8][3] = {C8};
static const double H20[20][3] = {C8, {0, -1, -1}, {1, -1, 0}, {0, -1, 1}, {-1, -1, 0}, {0, 1, -1}, {1, 1, 0}, {0, 1, 1}, {-1, 1, 0}, {-1, 0, -1}, {1, 0, -1}, {1, 0, 1}, {-1, 0, 1}};
static const double H32[32][3] = {C8, {-1, -1, -T3}, {1, -1, -T3}, {1, -1, T3}, {-1, -1, T3}, {-1, 1, -T3}, {1, 1, -T3}, {1, 1, T3}, {-1, 1, T3},
  {-T3, -1, -1}, {T3, -1, -1}, {T3, -1, 1}, {-T3, -1, 1}, {-T3, 1, -1}, {T3, 1, -1}, {T3, 1, 1}, {-T3, 1, 1},
  {-1, -T3, -1}, {1, -T3, -1}, {1, -T3, 1}, {-1, -T3, 1}, {-1, T3, -1}, {1, T3, -1}, {1, T3, 1}, {-1, T3, 1}};
static const double S16[16][4] = {
  {-1, -1, -1, -1}, {1, -1, -1, -1}, {1, -1, 1, -1}, {-1, -1, 1, -1}, {-1, 1, -1, -1}, {1, 1, -1, -1}, {1, 1, 1, -1}, {-1, 1, 1, -1},
  {-1, -1, -1, 1}, {1, -1, -1, 1}, {1, -1, 1, 1}, {-1, -1, 1, 1}, {-1, 1, -1, 1}, {1, 1, -1, 1}, {1, 1, 1, 1}, {-1, 1, 1, 1}};

static V point(int D) { V x; for (int i = 0; i < D; ++i) x.push_back(v::real("xi")); return x; }
template<int N, int D> VV verts() { VV r(N, V(D)); for (auto & p : r) for (auto & c : p) c = v::real("vert"); return r; }
static void same(const V & a, const V & b, const char * m) { v::ensure(a.size() == b.size(), m); for (size_t i = 0; i < a.size(); ++i) v::eq(a[i], b[i], m); }

template<typename E, int N, int D> V basis(const V & xi) {
  E e; V b(N, 7.); VV vt(N, V(D, 0.));
  if constexpr (D == 4) { V x(D); VV w(N, V(D, 0.)); for (int n = 0; n < N; ++n) { for (int m = 0; m < N; ++m) w[m][0] = m == n; e.physical_position(x, xi, w); b[n] = x[0]; } }
  else e.basis(b, xi, vt);
  v::ensure(b.size() == N, "basis has one entry per node");
  return b;
}
#ifdef SHAPE
template<typename E, int N, int D> void unity(const double (*nd)[D]) {
  V xi = point(D), k = xi, b = basis<E, N, D>(xi); same(xi, k, "point unchanged");
  double s = 0; for (double x : b) s += x; v::eq(s, 1., "shape functions sum to one everywhere");
  for (int d = 0; d < D; ++d) { double t = 0; for (int n = 0; n < N; ++n) t += b[n] * nd[n][d]; v::eq(t, xi[d], "shape functions reproduce linear fields"); }
}
template<typename E, int N, int D> void kron(const double (*nd)[D]) {
  for (int m = 0; m < N; ++m) { V xi(nd[m], nd[m] + D), b = basis<E, N, D>(xi); for (int n = 0; n < N; ++n) v::eq(b[n], n == m ? 1. : 0., "shape function n is one at node n and zero at the others"); }
}
template<typename E, int N, int D> void phys() {
  E e; V xi = point(D), k = xi; VV w = verts<N, D>(), z = w; V x(D); for (auto & c : x) c = v::real("old");
  e.physical_position(x, xi, w); V b = basis<E, N, D>(xi);
  for (int d = 0; d < D; ++d) { double s = 0; for (int n = 0; n < N; ++n) s += b[n] * w[n][d]; v::eq(x[d], s, "physical position is the shape-function-weighted sum of the vertices"); }
  same(xi, k, "point unchanged"); for (int n = 0; n < N; ++n) same(w[n], z[n], "vertices unchanged");
}
#define EL(n, E, N, D, T) CONTRACT(unity_##n) { unity<re::E, N, D>(T); } CONTRACT(kron_##n) { kron<re::E, N, D>(T); } CONTRACT(phys_##n) { phys<re::E, N, D>(); }
#else
template<typename E, int N, int D> void partials() {
  V xi = point(D), k = xi; E e; V p[4]; for (int d = 0; d < D; ++d) p[d] = V(N, 5.);
  e.partial_xi_shape_fcn(p[0], xi); e.partial_eta_shape_fcn(p[1], xi);
  if constexpr (D > 2) e.partial_mu_shape_fcn(p[2], xi);
  if constexpr (D > 3) e.partial_tau_shape_fcn(p[3], xi);
  same(xi, k, "point unchanged");
  for (int d = 0; d < D; ++d) { v::ensure(p[d].size() == N, "one partial per node");
    for (int n = 0; n < N; ++n) v::eq(p[d][n], v::deriv([&](double t) { V y = xi; y[d] = t; return basis<E, N, D>(y)[n]; }, xi[d]), "partial is the derivative of the shape function"); }
}
#define EL(n, E, N, D, T) CONTRACT(partial_##n) { partials<re::E, N, D>(); }
#endif
EL(quad4, Quad_4_2D, 4, 2, Q) EL(quad8, Quad_8_2D, 8, 2, Q8) EL(quad12, Quad_12_2D, 12, 2, Q12)
EL(hex8, Hex8, 8, 3, H8) EL(hex20, Hex20, 20, 3, H20) EL(hex32, Hex32, 32, 3, H32) EL(tess16, Tess16, 16, 4, S16)
