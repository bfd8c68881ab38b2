// E04: arbitrary-order (Lagrange) elements
#include "v.h"
#include <vector>
#include <cmath>
#include <ristra/elements/elements.h>
#include <ristra/elements/elements.cc>
namespace re = ristra::elements;
using V = std::vector<double>; using VV = std::vector<std::vector<double>>;
static void same(const V & a, const V & b, const char * m) { v::ensure(a.size() == b.size(), m); for (size_t i = 0; i < a.size(); ++i) v::eq(a[i], b[i], m); }
static V nodes(int n) { V x(n); for (auto & c : x) c = v::real("node"); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) v::nonzero(x[i] - x[j]); return x; }
// textbook Lagrange polynomial and derivative
static double L(const V & x, int i, double t) { double r = 1; for (int j = 0; j < (int)x.size(); ++j) if (j != i) r *= (t - x[j]) / (x[i] - x[j]); return r; }
static double dL(const V & x, int i, double t) { double s = 0; int n = x.size(); for (int k = 0; k < n; ++k) if (k != i) { double r = 1 / (x[i] - x[k]); for (int j = 0; j < n; ++j) if (j != i && j != k) r *= (t - x[j]) / (x[i] - x[j]); s += r; } return s; }
template<typename E> void lag(int p) {
  E e; int n = p + 1; V x = nodes(n), x0 = x, f(n, 5.), d(n, 5.); const double t = v::real("t"); const int q = p;
  e.lagrange_1D(f, d, t, x, q);
  for (int i = 0; i < n; ++i) { v::eq(f[i], L(x, i, t), "interpolant is the Lagrange polynomial of its node"); v::eq(d[i], dL(x, i, t), "derivative is the derivative of the interpolant"); }
  same(x, x0, "nodes unchanged"); v::ensure(q == p, "order unchanged");
}
template<typename E> void lagk(int p) {
  E e; int n = p + 1; V x = nodes(n), f(n, 5.), d(n, 5.);
  for (int m = 0; m < n; ++m) { const double t = x[m]; e.lagrange_1D(f, d, t, x, p); for (int i = 0; i < n; ++i) v::eq(f[i], i == m ? 1. : 0., "interpolant i is one at node i and zero at the others"); }
  const double t = v::real("t"); e.lagrange_1D(f, d, t, x, p); double s = 0, g = 0; for (int i = 0; i < n; ++i) { s += f[i]; g += d[i]; }
  v::eq(s, 1., "interpolants sum to one"); v::eq(g, 0., "their derivatives sum to zero");
}
#define BD v::bounded("lagrange_1D: order 0..4 (thorough: 6), any distinct nodes")
CONTRACT(lag_q) { BD; for (int p = 0; p <= 3; ++p) lag<re::QuadN>(p); } CONTRACT(lag_h) { BD; for (int p = 0; p <= 3; ++p) lag<re::HexN>(p); }
CONTRACT(lag_q4) { BD; lag<re::QuadN>(4); } CONTRACT(lag_h4) { BD; lag<re::HexN>(4); }
CONTRACT(lagk_q) { BD; for (int p = 0; p <= 3; ++p) lagk<re::QuadN>(p); } CONTRACT(lagk_h) { BD; for (int p = 0; p <= 3; ++p) lagk<re::HexN>(p); }
#ifdef THOROUGH
CONTRACT(lag_q6) { BD; lag<re::QuadN>(5); lag<re::QuadN>(6); } CONTRACT(lag_h6) { BD; lag<re::HexN>(5); lag<re::HexN>(6); }
#endif
template<typename E> void cheb() {
  for (int p = 0; p <= 12; ++p) { E e; V x(p + 1, 5.); e.chebyshev_nodes_1D(x, p); v::ensure((int)x.size() == p + 1, "p+1 nodes"); v::eq(x[p], 1., "last node is 1");
    if (p) v::eq(x[0], -1., "first node is -1");
    for (int i = 1; i <= p; ++i) v::ensure(x[i - 1] < x[i], "nodes strictly increase (so they are distinct)");
    for (int i = 1; i < p; ++i) v::ensure(std::fabs(x[i] + std::cos(3.14159265358979323846 * (2 * i + 1) / (2. * (p + 1)))) < 1e-12, "inner nodes are the Chebyshev nodes"); }
}
CONTRACT(cheb_q) { v::bounded("chebyshev_nodes_1D: order 0..12"); cheb<re::QuadN>(); } CONTRACT(cheb_h) { v::bounded("chebyshev_nodes_1D: order 0..12"); cheb<re::HexN>(); }
// tensor-product basis; xi fastest, then eta, then mu
template<typename E, int D> void tensor(int p, const V & x) {
  E e; int n = p + 1, T = 1; for (int d = 0; d < D; ++d) T *= n; V x0 = x, x1 = x, f(n, 5.), g(n, 5.), b(T, 5.), xi; for (int d = 0; d < D; ++d) xi.push_back(v::real("xi"));
  VV nd(T, V(D, 5.)), vd(T, V(D, 5.)), dd(T, V(D, 5.)), pa(T, V(D, 5.)); V xi0 = xi;
  e.basis_partials(nd, x1, f, g, vd, dd, b, pa, xi, p);
  same(x1, x0, "nodes unchanged"); same(xi, xi0, "point unchanged");
  VV l(D), k(D); for (int d = 0; d < D; ++d) for (int i = 0; i < n; ++i) { l[d].push_back(L(x, i, xi[d])); k[d].push_back(dL(x, i, xi[d])); }
  for (int m = 0; m < T; ++m) {
    int ix[D]; for (int d = 0, q = m; d < D; ++d, q /= n) ix[d] = q % n;
    double B = 1; for (int d = 0; d < D; ++d) { v::eq(nd[m][d], x[ix[d]], "node positions are the tensor grid, xi fastest"); B *= l[d][ix[d]]; }
    v::eq(b[m], B, "basis is the product of the 1D interpolants");
    for (int d = 0; d < D; ++d) { double P = 1; for (int c = 0; c < D; ++c) P *= c == d ? k[c][ix[c]] : l[c][ix[c]]; v::eq(pa[m][d], P, "partial d is the derivative of the basis along d"); }
  }
}
#define BT v::bounded("basis_partials: order 0..4 (2D), 0..3 (3D)")
CONTRACT(ten_q1) { BT; tensor<re::QuadN, 2>(1, nodes(2)); } CONTRACT(ten_q2) { BT; tensor<re::QuadN, 2>(2, nodes(3)); } CONTRACT(ten_h1) { BT; tensor<re::HexN, 3>(1, nodes(2)); }
CONTRACT(ten_q0) { BT; tensor<re::QuadN, 2>(0, nodes(1)); tensor<re::HexN, 3>(0, nodes(1)); }
CONTRACT(ten_q4) { BT; tensor<re::QuadN, 2>(4, {-1, -.75, .125, .5, 1}); } CONTRACT(ten_q3) { BT; tensor<re::QuadN, 2>(3, {-1, -.5, .25, 1}); } CONTRACT(ten_h2) { BT; tensor<re::HexN, 3>(2, {-1, .25, 1}); } CONTRACT(ten_h3) { BT; tensor<re::HexN, 3>(3, {-1, -.5, .25, 1}); }
template<typename E, int D> void phys(int p) {
  E e; int n = p + 1, T = 1; for (int d = 0; d < D; ++d) T *= n; VV nd(T, V(D)); V b(T), x(D); for (auto & r : nd) for (auto & c : r) c = v::real("node"); for (auto & c : b) c = v::real("basis"); for (auto & c : x) c = v::real("old"); VV n0 = nd; V b0 = b;
  e.physical_position(x, nd, b, p); for (int d = 0; d < D; ++d) { double s = 0; for (int m = 0; m < T; ++m) s += nd[m][d] * b[m]; v::eq(x[d], s, "physical position is the basis-weighted sum of the nodes"); }
  same(b, b0, "basis unchanged"); for (int m = 0; m < T; ++m) same(nd[m], n0[m], "nodes unchanged");
}
#define BP v::bounded("physical_position of QuadN/HexN: order 0..4 / 0..3")
CONTRACT(phys_q) { BP; for (int p = 0; p <= 4; ++p) phys<re::QuadN, 2>(p); } CONTRACT(phys_h) { BP; for (int p = 0; p <= 3; ++p) phys<re::HexN, 3>(p); }
template<typename E, int D> void corn(int p) {
  E e; int n = p + 1, T = 1, K = 1; for (int d = 0; d < D; ++d) { T *= n; K *= 2; } VV nd(T, V(D)), c(K, V(D, 5.)); for (auto & r : nd) for (auto & y : r) y = v::real("node"); VV n0 = nd;
  e.corners(nd, c, p);
  for (int k = 0; k < K; ++k) { int m = 0, s = 1; for (int d = 0; d < D; ++d, s *= n) if (k >> d & 1) m += s * p; same(c[k], nd[m], "corner k is the extreme node with the bits of k as its end in each direction"); }
  for (int m = 0; m < T; ++m) same(nd[m], n0[m], "nodes unchanged");
}
#define BC v::bounded("corners: order 1..4 / 1..3")
CONTRACT(corn_q) { BC; for (int p = 1; p <= 4; ++p) corn<re::QuadN, 2>(p); } CONTRACT(corn_h) { BC; for (int p = 1; p <= 3; ++p) corn<re::HexN, 3>(p); }
