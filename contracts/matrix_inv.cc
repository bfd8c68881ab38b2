// M03: determinant = Leibniz, inverse(A) A = A inverse(A) = I, A solve(A,b) = b.
#include "v.h"
#include <ristra/math/vector.h>
#include <ristra/math/matrix.h>
#include <cmath>
using ristra::math::matrix; using ristra::math::array; using ristra::math::vector;
using std::size_t;
template<typename T, size_t N> void fillm(matrix<T, N, N> & a, T (&c)[N][N]) {
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { c[i][j] = v::any<T>("a"); a.data()[i * N + j] = c[i][j]; }
}
// Leibniz sum over permutations (independent of the code's cofactor expansion)
template<typename T, size_t N> T leibniz(const T (&c)[N][N], size_t row, unsigned used) {
  if (row == N) return T(1);
  T s = 0;
  int k = 0; // sign: number of unused columns before j
  for (size_t j = 0; j < N; ++j) {
    if (used >> j & 1) continue;
    T t = c[row][j] * leibniz<T, N>(c, row + 1, used | 1u << j);
    if (k & 1) s -= t; else s += t;
    ++k;
  }
  return s;
}
template<typename T, size_t N> void det() {
  matrix<T, N, N> a; T c[N][N]; fillm(a, c);
  v::eq(ristra::math::determinant(a), leibniz<T, N>(c, 0, 0), "determinant equals the Leibniz sum");
  for (size_t i = 0; i < N * N; ++i) v::eq(a.data()[i], c[i / N][i % N], "determinant does not modify its argument");
}
template<typename T, size_t N> void inv() {
  matrix<T, N, N> a; T c[N][N]; fillm(a, c);
  v::nonzero(leibniz<T, N>(c, 0, 0));
  auto b = ristra::math::inverse(a);
  const T * p = b.data();
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) {
    T s = 0, t = 0;
    for (size_t k = 0; k < N; ++k) { s += p[i * N + k] * c[k][j]; t += c[i][k] * p[k * N + j]; }
    v::eq(s, T(i == j), "inverse(A)*A = I");
    v::eq(t, T(i == j), "A*inverse(A) = I");
  }
  for (size_t i = 0; i < N * N; ++i) v::eq(a.data()[i], c[i / N][i % N], "inverse does not modify its argument");
}
template<typename T, size_t N> void solv() {
  matrix<T, N, N> a; T c[N][N]; fillm(a, c);
  vector<T, N> b; T d[N];
  for (size_t i = 0; i < N; ++i) { d[i] = v::any<T>("b"); b.data()[i] = d[i]; }
  v::nonzero(leibniz<T, N>(c, 0, 0));
  auto x = ristra::math::solve(a, b);
  for (size_t i = 0; i < N; ++i) {
    T s = 0;
    for (size_t k = 0; k < N; ++k) s += c[i][k] * x.data()[k];
    v::eq(s, d[i], "A*solve(A,b) = b");
  }
  for (size_t i = 0; i < N; ++i) v::eq(b.data()[i], d[i], "solve does not modify b");
  for (size_t i = 0; i < N * N; ++i) v::eq(a.data()[i], c[i / N][i % N], "solve does not modify A");
}
#define DET(T, N, n) CONTRACT(det_##n##N) { det<T, N>(); }
#define INV(T, N, n) CONTRACT(inverse_##n##N) { inv<T, N>(); }
#define SOL(T, N, n) CONTRACT(solve_##n##N) { solv<T, N>(); }
DET(double, 1, d) DET(double, 2, d) DET(double, 3, d) DET(double, 4, d) DET(double, 5, d) DET(float, 2, f) DET(float, 3, f) DET(float, 4, f)
INV(double, 1, d) INV(double, 2, d) INV(double, 3, d) INV(double, 4, d) INV(double, 5, d) INV(float, 2, f) INV(float, 3, f)
SOL(double, 1, d) SOL(double, 2, d) SOL(double, 3, d) SOL(double, 4, d) SOL(float, 3, f)
CONTRACT(det_i2) { matrix<int, 2, 2> a; int c[2][2]; for (int i = 0; i < 4; ++i) c[i / 2][i % 2] = a.data()[i] = v::sm<int>("a"); v::ensure(ristra::math::determinant(a) == leibniz<int, 2>(c, 0, 0), "integer determinant"); }
// minors
template<size_t N> void cof() {
  matrix<double, N, N> a; double c[N][N]; fillm(a, c);
  size_t r = v::choose("row", 0, N - 1), q = v::choose("col", 0, N - 1);
  auto m = ristra::math::cofactor(a, r, q);
  for (size_t i = 0; i + 1 < N; ++i) for (size_t j = 0; j + 1 < N; ++j)
    v::eq(m.data()[i * (N - 1) + j], c[i < r ? i : i + 1][j < q ? j : j + 1], "cofactor deletes exactly that row and column");
}
CONTRACT(cofactor_2) { cof<2>(); }
CONTRACT(cofactor_3) { cof<3>(); }
CONTRACT(cofactor_4) { cof<4>(); }
#ifdef THOROUGH
DET(double, 6, d) INV(float, 4, f) SOL(double, 5, d)
CONTRACT(cofactor_5) { cof<5>(); }
#endif
