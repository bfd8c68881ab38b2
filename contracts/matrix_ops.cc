// M04: products, transpose, trace, norms and the special matrices satisfy their defining equations.
#include "v.h"
#include <ristra/math/vector.h>
#include <ristra/math/matrix.h>
#include <ristra/math/general.h>
#include <cmath>
using namespace ristra::math;
using std::size_t;
template<typename T, size_t R, size_t C> struct M {
  matrix<T, R, C> m; T c[R][C];
  M(const char * n = "m") { for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) { c[i][j] = v::sm<T>(n); m.data()[i * C + j] = c[i][j]; } }
  void kept(const char * s) { for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) v::eq(m.data()[i * C + j], c[i][j], s); }
};
template<typename T, size_t N> struct V {
  vector<T, N> m; T c[N];
  V(const char * n = "v") { for (size_t i = 0; i < N; ++i) { c[i] = v::sm<T>(n); m.data()[i] = c[i]; } }
  void kept(const char * s) { for (size_t i = 0; i < N; ++i) v::eq(m.data()[i], c[i], s); }
};
template<typename T, size_t A, size_t B, size_t C> void mm() {
  M<T, A, B> a("a"); M<T, B, C> b("b"); M<T, A, C> d("d");
  auto r = matrix_multiply(a.m, b.m);
  static_assert(std::is_same<decltype(r), matrix<T, A, C>>::value, "");
  auto e = d.m;
  matrix_multiply(a.m, b.m, e);
  for (size_t i = 0; i < A; ++i) for (size_t j = 0; j < C; ++j) {
    T s = 0; for (size_t k = 0; k < B; ++k) s += a.c[i][k] * b.c[k][j];
    v::eq(r.data()[i * C + j], s, "matrix_multiply(A,B) = A B");
    v::eq(e.data()[i * C + j], d.c[i][j] + s, "matrix_multiply(A,B,C): C += A B");
  }
  a.kept("A unchanged"); b.kept("B unchanged");
}
template<typename T, size_t R, size_t C> void mv() {
  M<T, R, C> a("a"); V<T, C> x("x"); V<T, R> y("y");
  T al = v::sm<T>("alpha"), be = v::sm<T>("beta");
  auto r = a.m * x.m;
  static_assert(std::is_same<decltype(r), vector<T, R>>::value, "");
  auto p = y.m; ax_plus_y(a.m, x.m, p);
  auto q = y.m; matrix_vector(al, a.m, x.m, be, q);
  for (size_t i = 0; i < R; ++i) {
    T s = 0; for (size_t k = 0; k < C; ++k) s += a.c[i][k] * x.c[k];
    v::eq(r.data()[i], s, "A*x");
    v::eq(p.data()[i], s + y.c[i], "ax_plus_y: y += A x");
    v::eq(q.data()[i], al * s + be * y.c[i], "matrix_vector: y = alpha A x + beta y");
  }
  a.kept("A unchanged"); x.kept("x unchanged");
}
template<typename T, size_t N> void outer() {
  V<T, N> a("a"), b("b"); M<T, N, N> c("c"); T f = v::sm<T>("f");
  auto r = outer_product(a.m, b.m);
  auto d = c.m; outer_product(a.m, b.m, d, f);
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) {
    v::eq(r.data()[i * N + j], a.c[i] * b.c[j], "outer_product(a,b)_ij = a_i b_j");
    v::eq(d.data()[i * N + j], c.c[i][j] + f * a.c[i] * b.c[j], "outer_product(a,b,C,f): C_ij += f a_i b_j");
  }
}
template<typename T, size_t R, size_t C> void tp() {
  M<T, R, C> a("a"), b("b");
  auto t = transpose(a.m);
  static_assert(std::is_same<decltype(t), matrix<T, C, R>>::value, "");
  T dd = 0;
  for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) { v::eq(t.data()[j * R + i], a.c[i][j], "transpose"); dd += a.c[i][j] * b.c[i][j]; }
  v::eq(doubledot_product(a.m, b.m), dd, "doubledot_product = sum a_ij b_ij");
  a.kept("A unchanged");
}
template<typename T, size_t N> void square() {
  M<T, N, N> a("a");
  T t = 0; for (size_t i = 0; i < N; ++i) t += a.c[i][i];
  v::eq(trace_matrix(a.m), t, "trace");
  auto id = identity_matrix<T, N>();
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) v::eq(id.data()[i * N + j], T(i == j), "identity_matrix");
  a.kept("A unchanged");
}
template<size_t N> void norms() {
  M<double, N, N> a("a");
  double inf = 0, one = 0, two = 0;
  for (size_t i = 0; i < N; ++i) {
    double r = 0, c = 0;
    for (size_t j = 0; j < N; ++j) { r += a.c[i][j] < 0 ? -a.c[i][j] : a.c[i][j]; c += a.c[j][i] < 0 ? -a.c[j][i] : a.c[j][i]; two += a.c[i][j] * a.c[i][j]; }
    if (inf < r) inf = r;
    if (one < c) one = c;
  }
  v::eq(infinity_norm(a.m), inf, "infinity_norm = max row sum of |a_ij|");
  v::eq(one_norm(a.m), one, "one_norm = max column sum of |a_ij|");
}
template<size_t N> void frob() {
  M<double, N, N> a("a");
  double two = 0;
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) two += a.c[i][j] * a.c[i][j];
  double r = two_norm(a.m);
  v::eq(r * r, two, "two_norm^2 = sum a_ij^2");
  v::ensure(r >= 0, "two_norm >= 0");
}
template<size_t N> void reflproj() {
  V<double, N> n("n"), x("x");
  double nn = 0, nx = 0;
  for (size_t i = 0; i < N; ++i) { nn += n.c[i] * n.c[i]; nx += n.c[i] * x.c[i]; }
  auto r = reflection_matrix(n.m); auto p = projection_matrix(n.m);
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) {
    v::eq(r.data()[i * N + j], (i == j) - 2 * n.c[i] * n.c[j], "reflection_matrix = I - 2 n n^T");
    v::eq(p.data()[i * N + j], (i == j) - n.c[i] * n.c[j], "projection_matrix = I - n n^T");
  }
  auto q = reflect(x.m, n.m);
  for (size_t i = 0; i < N; ++i) v::eq(q.data()[i], x.c[i] - 2 * nx * n.c[i], "reflect(v,n) = v - 2 (v.n) n");
  x.kept("v unchanged"); n.kept("n unchanged");
}
#define MM(A, B, C) CONTRACT(mm_##A##B##C) { mm<double, A, B, C>(); }
MM(1, 1, 1) MM(2, 2, 2) MM(3, 3, 3) MM(2, 3, 4) MM(4, 3, 2) MM(1, 3, 1) MM(3, 1, 3) MM(4, 4, 4) MM(5, 2, 3)
CONTRACT(mm_f) { mm<float, 2, 3, 2>(); mm<float, 3, 3, 3>(); }
CONTRACT(mm_i) { mm<int, 2, 2, 2>(); }
#define MV(A, B) CONTRACT(mv_##A##B) { mv<double, A, B>(); }
MV(1, 1) MV(2, 2) MV(3, 3) MV(2, 3) MV(3, 2) MV(4, 1) MV(1, 4) MV(4, 4)
CONTRACT(mv_f) { mv<float, 3, 3>(); mv<float, 2, 3>(); }
CONTRACT(outer_d) { outer<double, 1>(); outer<double, 2>(); outer<double, 3>(); outer<double, 4>(); outer<float, 3>(); }
CONTRACT(transpose_d) { tp<double, 1, 1>(); tp<double, 2, 2>(); tp<double, 3, 3>(); tp<double, 2, 3>(); tp<double, 3, 2>(); tp<double, 1, 4>(); tp<double, 4, 1>(); tp<float, 3, 2>(); }
CONTRACT(square_d) { square<double, 1>(); square<double, 2>(); square<double, 3>(); square<double, 4>(); square<float, 3>(); square<int, 3>(); }
CONTRACT(norms_1) { norms<1>(); }
CONTRACT(norms_2) { norms<2>(); }
CONTRACT(frob) { frob<1>(); frob<2>(); frob<3>(); frob<4>(); }
CONTRACT(reflproj_d) { reflproj<1>(); reflproj<2>(); reflproj<3>(); reflproj<4>(); }
CONTRACT(rotation_d) {
  double t = v::real("t");
  auto r = rotation_matrix<double, 2>(t);
  v::eq(r.data()[0], std::cos(t), "rotation_matrix(t) = [[cos -sin][sin cos]]"); v::eq(r.data()[1], -std::sin(t), "rotation_matrix(t) = [[cos -sin][sin cos]]");
  v::eq(r.data()[2], std::sin(t), "rotation_matrix(t) = [[cos -sin][sin cos]]"); v::eq(r.data()[3], std::cos(t), "rotation_matrix(t) = [[cos -sin][sin cos]]");
}
// exponential: [[0,x],[0,0]] and diagonal matrices, against closed forms
template<size_t N> void expm(double scale) {
  matrix<double, N, N> a; long double A[N][N], P[N][N], S[N][N];
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { double x = double(v::range("a", -64, 64)) / 32. * scale; a.data()[i * N + j] = x; A[i][j] = x; P[i][j] = S[i][j] = i == j; }
  auto e = exponential(a);
  for (int k = 1; k < 80; ++k) {
    long double Q[N][N];
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { Q[i][j] = 0; for (size_t l = 0; l < N; ++l) Q[i][j] += P[i][l] * A[l][j] / k; }
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { P[i][j] = Q[i][j]; S[i][j] += Q[i][j]; }
  }
  for (size_t i = 0; i < N * N; ++i) v::eq(e.data()[i], double(S[i / N][i % N]), "exponential(A) = sum A^k/k!");
}
CONTRACT(exponential_1) { v::native_only("exponential: scaling depends on log of the norm; the contract is executed on sampled matrices"); expm<1>(2.); }
CONTRACT(exponential_2) { v::native_only("exponential: scaling depends on log of the norm; the contract is executed on sampled matrices"); expm<2>(1.); }
CONTRACT(exponential_3) { v::native_only("exponential: scaling depends on log of the norm; the contract is executed on sampled matrices"); expm<3>(.7); }
CONTRACT(exponential_zero) { auto e = exponential(matrix<double, 2, 2>(0.)); for (size_t i = 0; i < 4; ++i) v::eq(e.data()[i], double(i % 3 == 0), "exp(0)=I"); }
#ifdef THOROUGH
MM(5, 5, 5) MM(6, 1, 6) MV(5, 5) MV(6, 3)
CONTRACT(norms_3) { norms<3>(); }
#endif
