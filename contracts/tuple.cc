// M06: tuple arithmetic is componentwise
#include "v.h"
#include <ristra/math/tuple.h>
#include <ristra/math/vector.h>
using namespace ristra::math;
using std::size_t;
using T3 = tuple<double, int, float>;
struct C3 { double a; int b; float c; T3 t() const { return T3(a, b, c); } };
static C3 any3(const char * n, bool nz = false) { C3 r; r.a = nz ? v::nz<double>(n) : v::sm<double>(n); r.b = nz ? v::nz<int>(n) : v::sm<int>(n); r.c = nz ? v::nz<float>(n) : v::sm<float>(n); return r; }
static void is(const T3 & t, double a, int b, float c, const char * m) { v::eq(std::get<0>(t), a, m); v::eq(std::get<1>(t), b, m); v::eq(std::get<2>(t), c, m); }
#define BIN(name, op, eqf, nz1) \
CONTRACT(tuple_##name) { \
  C3 p = any3("p"), q = any3("q", nz1); int x = nz1 ? v::nz<int>("x") : v::sm<int>("x"); \
  const T3 l = p.t(), r = q.t(); \
  is(l op r, p.a op q.a, p.b op q.b, p.c op q.c, "t " #op " u is componentwise"); \
  is(l op x, p.a op x, p.b op x, p.c op x, "t " #op " x"); \
  is(x op r, x op q.a, x op q.b, x op q.c, "x " #op " t"); \
  T3 s = l; eqf(s, r); is(s, p.a op q.a, p.b op q.b, p.c op q.c, #eqf "(t,u)"); \
  T3 w = l; eqf(w, x); is(w, p.a op x, p.b op x, p.c op x, #eqf "(t,x)"); \
  is(l, p.a, p.b, p.c, "operands unchanged"); is(r, q.a, q.b, q.c, "operands unchanged"); \
}
BIN(plus, +, plus_equal, false)
BIN(minus, -, minus_equal, false)
BIN(times, *, multiplies_equal, false)
BIN(divides, /, divides_equal, true)
CONTRACT(tuple_fill) {
  C3 p = any3("p"); int x = v::sm<int>("x"); T3 t = p.t(); fill(t, x); is(t, x, x, float(x), "fill sets every component");
  tuple<double> o(p.a); fill(o, 2.); v::eq(std::get<0>(o), 2., "fill");
}
CONTRACT(tuple_self) {
  C3 p = any3("p"); T3 t = p.t();
  plus_equal(t, t); is(t, p.a + p.a, p.b + p.b, p.c + p.c, "t += t");
  T3 u = p.t(); minus_equal(u, u); is(u, 0, 0, 0, "t -= t");
}
// one to five components, double
template<size_t... I> void wide(std::index_sequence<I...>) {
  constexpr size_t N = sizeof...(I);
  double a[N] = {((void)I, v::real("a"))...}, b[N] = {((void)I, v::nz<double>("b"))...}; double x = v::nz<double>("x");
  auto l = std::make_tuple(a[I]...); auto r = std::make_tuple(b[I]...);
  { auto t = l + r; (v::eq(std::get<I>(t), a[I] + b[I], "t+u"), ...); }
  { auto t = l - r; (v::eq(std::get<I>(t), a[I] - b[I], "t-u"), ...); }
  { auto t = l * r; (v::eq(std::get<I>(t), a[I] * b[I], "t*u"), ...); }
  { auto t = l / r; (v::eq(std::get<I>(t), a[I] / b[I], "t/u"), ...); }
  { auto t = l + x; (v::eq(std::get<I>(t), a[I] + x, "t+x"), ...); }
  { auto t = x - l; (v::eq(std::get<I>(t), x - a[I], "x-t"), ...); }
  { auto t = l / x; (v::eq(std::get<I>(t), a[I] / x, "t/x"), ...); }
  { auto t = x / r; (v::eq(std::get<I>(t), x / b[I], "x/t"), ...); }
  { auto t = x * l; (v::eq(std::get<I>(t), a[I] * x, "x*t"), ...); }
  { auto t = l; plus_equal(t, r); (v::eq(std::get<I>(t), a[I] + b[I], "plus_equal"), ...); }
  { auto t = l; minus_equal(t, r); (v::eq(std::get<I>(t), a[I] - b[I], "minus_equal"), ...); }
  { auto t = l; multiplies_equal(t, x); (v::eq(std::get<I>(t), a[I] * x, "multiplies_equal"), ...); }
  { auto t = l; divides_equal(t, r); (v::eq(std::get<I>(t), a[I] / b[I], "divides_equal"), ...); }
  { auto t = l; fill(t, x); (v::eq(std::get<I>(t), x, "fill"), ...); }
}
CONTRACT(tuple_1) { wide(std::make_index_sequence<1>()); }
CONTRACT(tuple_2) { wide(std::make_index_sequence<2>()); }
CONTRACT(tuple_5) { wide(std::make_index_sequence<5>()); }
// components that are vectors themselves
CONTRACT(tuple_nested) {
  double a[3], b[3]; for (auto & x : a) x = v::real("a"); for (auto & x : b) x = v::real("b");
  using Q = tuple<double, vector<double, 2>>;
  Q l(a[0], vector<double, 2>(a[1], a[2])), r(b[0], vector<double, 2>(b[1], b[2]));
  auto t = l + r; v::eq(std::get<0>(t), a[0] + b[0], "nested +"); v::eq(std::get<1>(t)[0], a[1] + b[1], "nested +"); v::eq(std::get<1>(t)[1], a[2] + b[2], "nested +");
  auto u = l * 2.; v::eq(std::get<1>(u)[1], 2 * a[2], "nested * scalar");
}
