// M05: vector algebra of general.h
#include "v.h"
#include <ristra/math/vector.h>
#include <ristra/math/multi_array.h>
#include <ristra/math/general.h>
#include <array>
#include <vector>
#include <cmath>
namespace rm = ristra::math;
using std::size_t;
// integers: where sums of up to nine products are defined
template<typename T> T sm(const char * n) { if constexpr (std::is_integral<T>::value && sizeof(T) >= 4) return T(v::range(n, std::is_signed<T>::value ? -15000 : 0, 15000)); else return v::sm<T>(n); }
template<typename T, size_t N> struct V {
  rm::vector<T, N> m; T c[N];
  V(const char * n = "v") { for (size_t i = 0; i < N; ++i) { c[i] = sm<T>(n); m.data()[i] = c[i]; } }
};
template<typename T, size_t N> void dots() {
  V<T, N> a("a"), b("b"); std::array<T, N> s, t;
  for (size_t i = 0; i < N; ++i) { s[i] = a.c[i]; t[i] = b.c[i]; }
  T d = 0; for (size_t i = 0; i < N; ++i) d += a.c[i] * b.c[i];
  v::eq(rm::dot_product(a.m, b.m), d, "dot_product = sum a_i b_i");
  v::eq(rm::dot_product(s, t), d, "dot_product(std::array) = sum a_i b_i");
  v::eq(rm::dot_product(a.m.begin(), a.m.end(), b.m.begin()), d, "dot_product(iterators) = sum a_i b_i");
  if constexpr (N == 4) { rm::multi_array<T, 2, 2> p, q; for (size_t i = 0; i < N; ++i) { p[i] = a.c[i]; q[i] = b.c[i]; } v::eq(rm::dot_product(p, q), d, "dot_product(multi_array)"); }
}
template<typename T, size_t N> void mags() {
  V<T, N> a("a"), b("b"); std::array<T, N> s;
  T d = 0, e = 0; for (size_t i = 0; i < N; ++i) { s[i] = a.c[i]; d += a.c[i] * a.c[i]; e += (a.c[i] - b.c[i]) * (a.c[i] - b.c[i]); }
  T m = rm::magnitude(a.m); v::ensure(m >= 0, "magnitude >= 0"); v::eq(m * m, d, "magnitude^2 = a.a");
  T k = rm::abs(a.m); v::ensure(k >= 0, "abs >= 0"); v::eq(k * k, d, "abs^2 = a.a");
  T l = rm::magnitude(s); v::ensure(l >= 0, "magnitude >= 0"); v::eq(l * l, d, "magnitude(std::array)^2 = a.a");
  T q = rm::delta_magnitude(a.m, b.m); v::ensure(q >= 0, "delta_magnitude >= 0"); v::eq(q * q, e, "delta_magnitude^2 = |a-b|^2");
}
template<typename T, size_t N> void units() {
  V<T, N> a("a");
  T d = 0; for (size_t i = 0; i < N; ++i) d += a.c[i] * a.c[i];
  v::nonzero(d);
  T l = std::sqrt(d);
  auto u = rm::unit(a.m);
  for (size_t i = 0; i < N; ++i) v::eq(u[i] * l, a.c[i], "unit(a) |a| = a");
  T n = 0; for (size_t i = 0; i < N; ++i) n += u[i] * u[i];
  v::eq(n, T(1), "|unit(a)| = 1");
  for (size_t i = 0; i < N; ++i) v::eq(a.m.data()[i], a.c[i], "operand unchanged");
}
template<typename T> void cross() {
  { V<T, 2> a("a"), b("b"); v::eq(rm::cross_product(a.m, b.m), a.c[0] * b.c[1] - a.c[1] * b.c[0], "2d cross product");
    auto n = rm::normal(a.m, b.m); v::eq(n[0], a.c[1] - b.c[1], "normal(a,b) is the edge rotated by 90 degrees"); v::eq(n[1], b.c[0] - a.c[0], "normal(a,b) is the edge rotated by 90 degrees");
    v::eq(n[0] * (b.c[0] - a.c[0]) + n[1] * (b.c[1] - a.c[1]), T(0), "normal is perpendicular to the edge");
    std::array<T, 2> s{{a.c[0], a.c[1]}}, t{{b.c[0], b.c[1]}}; v::eq(rm::cross_product(s, t), a.c[0] * b.c[1] - a.c[1] * b.c[0], "2d cross product (std::array)"); }
  V<T, 3> a("a"), b("b"), c("c");
  auto r = rm::cross_product(a.m, b.m);
  for (size_t i = 0; i < 3; ++i) { size_t j = (i + 1) % 3, k = (i + 2) % 3; v::eq(r[i], a.c[j] * b.c[k] - a.c[k] * b.c[j], "3d cross product"); }
  T ra = 0, rb = 0, rc = 0; for (size_t i = 0; i < 3; ++i) { ra += r[i] * a.c[i]; rb += r[i] * b.c[i]; rc += r[i] * c.c[i]; }
  v::eq(ra, T(0), "a x b is perpendicular to a"); v::eq(rb, T(0), "a x b is perpendicular to b");
  v::eq(rm::triple_product(a.m, b.m, c.m), rc, "triple_product(a,b,c) = (a x b) . c");
  v::eq(rm::triple_product(b.m, c.m, a.m), rc, "triple_product is cyclic");
  v::eq(rm::triple_product(b.m, a.m, c.m), -rc, "triple_product is antisymmetric");
}
template<typename T, size_t N> void reflects() {
  V<T, N> x("x"), n("n");
  T nx = 0, nn = 0; for (size_t i = 0; i < N; ++i) { nx += n.c[i] * x.c[i]; nn += n.c[i] * n.c[i]; }
  auto q = rm::reflect(x.m, n.m);
  for (size_t i = 0; i < N; ++i) v::eq(q[i], x.c[i] - 2 * nx * n.c[i], "reflect(v,n) = v - 2 (v.n) n");
  for (size_t i = 0; i < N; ++i) { v::eq(x.m.data()[i], x.c[i], "v unchanged"); v::eq(n.m.data()[i], n.c[i], "n unchanged"); }
}
CONTRACT(dots_d) { dots<double, 1>(); dots<double, 2>(); dots<double, 3>(); dots<double, 4>(); dots<double, 7>(); dots<double, 300>(); }
CONTRACT(dots_f) { dots<float, 3>(); dots<float, 2>(); }
CONTRACT(dots_i) { dots<int, 3>(); dots<long, 4>(); }
CONTRACT(mags_d) { mags<double, 1>(); mags<double, 2>(); mags<double, 3>(); mags<double, 4>(); }
CONTRACT(mags_f) { mags<float, 3>(); }
CONTRACT(unit_1) { units<double, 1>(); }
CONTRACT(unit_2) { units<double, 2>(); }
CONTRACT(unit_3) { units<double, 3>(); }
CONTRACT(unit_f3) { units<float, 3>(); }
CONTRACT(cross_d) { cross<double>(); }
CONTRACT(cross_f) { cross<float>(); }
CONTRACT(reflect_d) { reflects<double, 1>(); reflects<double, 2>(); reflects<double, 3>(); reflects<double, 4>(); reflects<float, 3>(); }
CONTRACT(normal_3_throws) {
  V<double, 3> a("a"), b("b"); bool t = false;
  try { rm::normal(a.m, b.m); } catch (...) { t = true; }
  v::ensure(t, "normal of two 3d points is an error");
}
template<typename T> void scalars() {
  T x = sm<T>("x");
  v::eq(rm::sqr(x), x * x, "sqr"); 
  T y; if constexpr (std::is_integral<T>::value) y = T(v::range("y", -1000, 1000)); else y = sm<T>("y");
  v::eq(rm::cube(y), y * y * y, "cube");
  T z = v::any<T>("z");
  int s = rm::sgn(z);
  v::ensure(s == (z > 0 ? 1 : z < 0 ? -1 : 0), "sgn");
}
CONTRACT(scalar_d) { scalars<double>(); }
CONTRACT(scalar_f) { scalars<float>(); }
CONTRACT(scalar_i) { scalars<int>(); }
CONTRACT(scalar_l) { scalars<long>(); }
template<typename T, size_t N> void minmax() {
  V<T, N> a("a"), b("b");
  auto lo = rm::min(a.m, b.m); auto hi = rm::max(a.m, b.m);
  for (size_t i = 0; i < N; ++i) {
    v::eq(lo[i], b.c[i] < a.c[i] ? b.c[i] : a.c[i], "min is elementwise");
    v::eq(hi[i], a.c[i] < b.c[i] ? b.c[i] : a.c[i], "max is elementwise");
  }
}
template<typename T, size_t N> void elems() {
  V<T, N> a("a");
  auto p = rm::min_element(a.m); auto q = rm::max_element(a.m);
  v::ensure(p >= a.m.begin() && p < a.m.end() && q >= a.m.begin() && q < a.m.end(), "min/max_element point into the array");
  for (size_t i = 0; i < N; ++i) v::ensure(*p <= a.c[i] && *q >= a.c[i], "min_element/max_element are extremal");
}
CONTRACT(minmax_d) { minmax<double, 1>(); minmax<double, 2>(); minmax<double, 3>(); }
CONTRACT(minmax_i) { minmax<int, 3>(); }
CONTRACT(elem_d) { elems<double, 4>(); }
CONTRACT(elem_1) { elems<double, 1>(); }
CONTRACT(elem_i) { elems<int, 3>(); }
// averages
template<typename T> void avg_args() {
  T a = sm<T>("a"), b = sm<T>("b"), c = sm<T>("c"), d = sm<T>("d"), e = sm<T>("e");
  v::eq(rm::average(a, b), T((a + b) / 2), "average of 2");
  v::eq(rm::average(a, b, c), T((a + b + c) / 3), "average of 3");
  v::eq(rm::average(a, b, c, d), T((a + b + c + d) / 4), "average of 4");
  v::eq(rm::average(a, b, c, d, e), T((a + b + c + d + e) / 5), "average of 5");
}
CONTRACT(avg_d) { avg_args<double>(); }
CONTRACT(avg_f) { avg_args<float>(); }
CONTRACT(avg_i) { avg_args<int>(); }
CONTRACT(avg_vec) {
  V<double, 3> a("a"), b("b"), c("c"); V<double, 2> p("p"), q("q");
  auto m = rm::average(a.m, b.m, c.m); auto n = rm::average(p.m, q.m);
  for (size_t i = 0; i < 3; ++i) { v::eq(m[i], (a.c[i] + b.c[i] + c.c[i]) / 3, "average of 3 vectors"); v::eq(a.m.data()[i], a.c[i], "operands unchanged"); }
  for (size_t i = 0; i < 2; ++i) v::eq(n[i], (p.c[i] + q.c[i]) / 2, "average of 2 vectors");
}
template<typename T> void dyn(size_t max) {
  v::bounded("dynamic containers of 1 to 9 and of 17 elements");
  size_t n = v::choose("n", 1, max); if (n == 10) n = 17;
  std::vector<T> a(n), b(n);
  T s = 0, d = 0, x[17], y[17];
  for (size_t i = 0; i < n; ++i) { x[i] = a[i] = sm<T>("a"); y[i] = b[i] = sm<T>("b"); s += x[i]; d += x[i] * y[i]; }
  v::eq(rm::average(a), T(s / T(n)), "average(container)");
  v::eq(rm::average(a.begin(), a.end()), T(s / T(n)), "average(iterators)");
  v::eq(rm::dot_product(a, b), d, "dot_product(container)");
  if constexpr (std::is_floating_point<T>::value) { T m = rm::magnitude(a), e = 0; for (size_t i = 0; i < n; ++i) e += x[i] * x[i]; v::ensure(m >= 0, "magnitude(container) >= 0"); v::eq(m * m, e, "magnitude(container)"); T k = rm::abs(a); v::eq(k * k, e, "abs(container)"); }
}
CONTRACT(dyn_d) { dyn<double>(10); }
CONTRACT(dyn_i) { dyn<int>(9); }
CONTRACT(dyn_minmax) {
  v::bounded("dynamic containers of up to 3 elements");
  size_t n = v::choose("n", 1, 3);
  std::vector<double> a(n), b(n); double x[4], y[4];
  for (size_t i = 0; i < n; ++i) { x[i] = a[i] = v::real("a"); y[i] = b[i] = v::real("b"); }
  auto lo = rm::min(a, b); auto hi = rm::max(a, b);
  v::ensure(lo.size() == n && hi.size() == n, "min/max keep the length");
  for (size_t i = 0; i < n; ++i) { v::eq(lo[i], y[i] < x[i] ? y[i] : x[i], "min(container)"); v::eq(hi[i], x[i] < y[i] ? y[i] : x[i], "max(container)"); }
  auto p = rm::min_element(a), q = rm::max_element(a);
  for (size_t i = 0; i < n; ++i) v::ensure(*p <= x[i] && *q >= x[i], "min_element/max_element(container)");
}
