// E05: quadrature rules
#include "v.h"
#include <vector>
#include <cmath>
#include <ristra/elements/elements.h>
#include <ristra/elements/elements.cc>
namespace re = ristra::elements;
using V = std::vector<double>; using VV = std::vector<std::vector<double>>;
using R = void (*)(double &, double &, int &, int &);
static void rule(R f, int m, int p, double & x, double & w) { int a = m, b = p; x = 9; w = 9; f(x, w, a, b); v::ensure(b == p, "order unchanged"); }
static void near(double a, double b, const char * m) { double d = a - b; v::ensure(d < 1e-14 && d > -1e-14, m); }
static void exact1(R f, int p, int deg) {
  V x(p), w(p); for (int m = 1; m <= p; ++m) { rule(f, m, p, x[m - 1], w[m - 1]); v::ensure(w[m - 1] > 0, "weights are positive"); v::ensure(x[m - 1] >= -1 && x[m - 1] <= 1, "points lie in [-1,1]"); }
  for (int i = 0; i < p; ++i) for (int j = 0; j < i; ++j) v::ensure(x[i] != x[j], "points are distinct");
  V q(p, 1.); for (int d = 0; d <= deg; ++d) { double s = 0; for (int i = 0; i < p; ++i) { s += w[i] * q[i]; q[i] *= x[i]; } near(s, d % 2 ? 0. : 2. / (d + 1), "the rule integrates every monomial up to its degree of exactness"); }
}
#define GL(p) CONTRACT(gauss1_##p) { exact1(re::LineGaussRuleInfo, p, 2 * p - 1); } CONTRACT(lob1_##p) { exact1(re::LineLobattoRuleInfo, p, p == 1 ? 1 : 2 * p - 3); }
GL(1) GL(2) GL(3) GL(4) GL(5) GL(6) GL(7) GL(8)
CONTRACT(lob_ends) { for (int p = 2; p <= 8; ++p) { bool lo = false, hi = false; for (int m = 1; m <= p; ++m) { double x, w; rule(re::LineLobattoRuleInfo, m, p, x, w); lo |= x == -1; hi |= x == 1; } v::ensure(lo && hi, "Lobatto rules include both end points"); } }
template<int D, typename F> void tensor(F && run, R f, int p, bool tot) {
  int T = 1; for (int d = 0; d < D; ++d) T *= p; VV g(T, V(D, 5.)), w(T, V(D, 5.)); V t(T, 5.); int q = p;
  V x(p), y(p); for (int m = 1; m <= p; ++m) rule(f, m, p, x[m - 1], y[m - 1]);
  run(g, w, t, q); v::ensure(q == p, "order unchanged");
  for (int m = 0; m < T; ++m) { double W = 1; for (int d = 0, k = m; d < D; ++d, k /= p) { v::eq(g[m][d], x[k % p], "points are the tensor product of the line rule, xi fastest"); v::eq(w[m][d], y[k % p], "weights are those of the line rule in each direction"); W *= y[k % p]; }
    if (tot) v::eq(t[m], W, "total weight is the product of the directional weights"); }
}
#define G2(p) CONTRACT(gauss2_##p) { tensor<2>([](VV & g, VV & w, V & t, int & q) { re::Gauss2D(g, w, t, q); }, re::LineGaussRuleInfo, p, true); } \
  CONTRACT(lob2_##p) { tensor<2>([](VV & g, VV & w, V &, int & q) { re::Lobatto2D(g, w, q); }, re::LineLobattoRuleInfo, p, false); }
#define G3(p) CONTRACT(gauss3_##p) { tensor<3>([](VV & g, VV & w, V & t, int & q) { re::Gauss3D(g, w, t, q); }, re::LineGaussRuleInfo, p, true); } \
  CONTRACT(lob3_##p) { tensor<3>([](VV & g, VV & w, V &, int & q) { re::Lobatto3D(g, w, q); }, re::LineLobattoRuleInfo, p, false); }
#define G4(p) CONTRACT(gauss4_##p) { tensor<4>([](VV & g, VV & w, V &, int & q) { re::Gauss4D(g, w, q, 4); }, re::LineGaussRuleInfo, p, false); } \
  CONTRACT(lob4_##p) { tensor<4>([](VV & g, VV & w, V &, int & q) { re::Lobatto4D(g, w, q, 4); }, re::LineLobattoRuleInfo, p, false); }
G2(1) G2(2) G2(3) G2(4) G2(5) G2(6) G2(7) G2(8) G3(1) G3(2) G3(3) G3(4) G4(1) G4(2) G4(3)
#ifdef THOROUGH
G3(5) G3(6) G3(7) G3(8) G4(4) G4(5)
#endif
