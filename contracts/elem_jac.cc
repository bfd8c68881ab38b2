// E03: Jacobians and their inverses
#include "v.h"
#include <vector>
#include <cmath>
#include <ristra/elements/elements.h>
#include <ristra/elements/elements.cc>
namespace re = ristra::elements;
using V = std::vector<double>; using VV = std::vector<std::vector<double>>;
static VV mat(int N, int D, const char * n) { VV r(N, V(D)); for (auto & p : r) for (auto & c : p) c = v::real(n); return r; }
static void same(const VV & a, const VV & b, const char * m) { v::ensure(a.size() == b.size(), m); for (size_t i = 0; i < a.size(); ++i) { v::ensure(a[i].size() == b[i].size(), m); for (size_t j = 0; j < a[i].size(); ++j) v::eq(a[i][j], b[i][j], m); } }
// Leibniz expansion
static double det(const VV & a, int D) {
  if (D == 1) return a[0][0];
  double s = 0;
  for (int c = 0; c < D; ++c) { VV b; for (int i = 1; i < D; ++i) { V r; for (int j = 0; j < D; ++j) if (j != c) r.push_back(a[i][j]); b.push_back(r); } s += (c % 2 ? -1 : 1) * a[0][c] * det(b, D - 1); }
  return s;
}
template<int D, int N, bool ROW = false> void jac() {
  VV vt = mat(N, D, "vert"), pt = ROW ? VV(N, V(D, 0.)) : mat(N, D, "part");
  if (ROW) { int r = v::choose("row", 0, D - 1); for (auto & p : pt) p[r] = v::real("part"); }
  VV v0 = vt, p0 = pt, J = mat(D, D, "old"); double d = v::real("old"); const int n = N, dim = D;
  if constexpr (D == 4) re::jacobian4D(J, d, vt, pt, n, dim); else re::jacobian(J, d, vt, pt, n, dim);
  for (int j = 0; j < D; ++j) for (int k = 0; k < D; ++k) { double s = 0; for (int i = 0; i < N; ++i) s += vt[i][k] * pt[i][j]; v::eq(J[j][k], s, "J[j][k] = sum over nodes of vertex[k] * partial[j]"); }
  v::ensure(n == N && dim == D, "arguments unchanged"); same(vt, v0, "vertices unchanged"); same(pt, p0, "partials unchanged");
}
// the determinant, on an arbitrary matrix: D nodes with unit partials make J arbitrary
template<int D> void jdet() {
  VV vt = mat(D, D, "a"), pt(D, V(D, 0.)), J(D, V(D, 0.)); for (int i = 0; i < D; ++i) pt[i][i] = 1; double d = v::real("old"); const int n = D, dim = D;
  if constexpr (D == 4) re::jacobian4D(J, d, vt, pt, n, dim); else re::jacobian(J, d, vt, pt, n, dim);
  same(J, vt, "J is the given matrix"); v::eq(d, det(vt, D), "det_J is the determinant of J");
}
CONTRACT(jac2) { v::bounded("elements::jacobian: 1..20 nodes"); jac<2, 1>(); jac<2, 4>(); jac<2, 8>(); jac<2, 12>(); }
CONTRACT(jac3) { v::bounded("elements::jacobian: 1..20 nodes"); jac<3, 1>(); jac<3, 8>(); jac<3, 20>(); }
CONTRACT(jac4) { v::bounded("elements::jacobian: 1..20 nodes"); jac<4, 1>(); jac<4, 2>(); }
CONTRACT(jac4_3) { v::bounded("elements::jacobian: 1..20 nodes"); jac<4, 3>(); }
CONTRACT(jac4_16) { v::bounded("elements::jacobian: 1..20 nodes"); jac<4, 16, true>(); }
CONTRACT(det2) { jdet<2>(); } CONTRACT(det3) { jdet<3>(); } CONTRACT(det4) { jdet<4>(); }
template<int D> void inv() {
  VV A = mat(D, D, "a"), A0 = A, B(D, V(D, 3.)); const double d = det(A, D); v::nonzero(d);
  if constexpr (D == 2) re::jacobian_inverse_2d(B, A); else if constexpr (D == 3) re::jacobian_inverse_3d(B, A); else re::jacobian_inverse_4d(B, A, d);
  v::ensure(B.size() == D, "inverse is D x D"); for (auto & r : B) v::ensure(r.size() == D, "inverse is D x D");
  for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) {
    double s = 0, t = 0; for (int k = 0; k < D; ++k) { s += A[i][k] * B[k][j]; t += B[i][k] * A[k][j]; }
    v::eq(s, i == j ? 1. : 0., "J times its inverse is the identity"); v::eq(t, i == j ? 1. : 0., "the inverse times J is the identity"); }
  same(A, A0, "J unchanged");
}
CONTRACT(inv2) { inv<2>(); } CONTRACT(inv3) { inv<3>(); } CONTRACT(inv4) { inv<4>(); }
