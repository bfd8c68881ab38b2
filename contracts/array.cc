// M01: math::array<T,N> is elementwise algebra with value semantics.
#include "v.h"
#include <ristra/math/array.h>
#include <ristra/math/vector.h>
#include <type_traits>
#include <limits>
using ristra::math::array;
using std::size_t;

using v::sm; using v::nz;
template<typename T, size_t N> void put(array<T, N> & a, T (&c)[N], const char * n, bool nonz = false) {
  T * p = a.data();
  for (size_t i = 0; i < N; ++i) { c[i] = nonz ? nz<T>(n) : sm<T>(n); p[i] = c[i]; }
}
template<typename T, size_t N> void same(const array<T, N> & a, const T (&c)[N], const char * m) {
  const T * p = a.data();
  for (size_t i = 0; i < N; ++i) v::eq(p[i], c[i], m);
}
#define EACH(X, e, m) do { for (size_t i = 0; i < N; ++i) v::eq((X).data()[i], static_cast<T>(e), m); } while (0)

template<typename T, size_t N> void access() {
  array<T, N> a; T c[N]; put(a, c, "a");
  const auto & k = a;
  static_assert(array<T, N>::size() == N, "");
  v::ensure(a.size() == N && a.max_size() == N && a.capacity() == N && !a.empty(), "size");
  v::ensure(a.begin() == a.data() && a.end() == a.data() + N && k.begin() == k.data() && k.end() == k.data() + N && k.cbegin() == k.data() && k.cend() == k.data() + N, "begin/end span the elements");
  v::ensure(a.c_array() == a.data(), "c_array");
  for (size_t i = 0; i < N; ++i) {
    v::ensure(&a[i] == a.data() + i && &k[i] == a.data() + i && &a(i) == a.data() + i && &k(i) == a.data() + i && &a.at(i) == a.data() + i && &k.at(i) == a.data() + i, "element access addresses element i");
  }
  v::ensure(&a.front() == a.data() && &k.front() == a.data() && &a.back() == a.data() + (N - 1) && &k.back() == a.data() + (N - 1), "front/back");
  { size_t i = N; for (auto it = a.rbegin(); it != a.rend(); ++it) { v::ensure(i > 0, "reverse range"); --i; v::eq(*it, c[i], "reverse iteration"); } v::ensure(i == 0, "reverse range complete"); }
  { size_t i = N; for (auto it = k.rbegin(); it != k.rend(); ++it) { v::ensure(i > 0, "reverse range"); --i; v::eq(*it, c[i], "reverse iteration"); } v::ensure(i == 0, "reverse range complete"); }
  { size_t i = N; for (auto it = k.crbegin(); it != k.crend(); ++it) { v::ensure(i > 0, "reverse range"); --i; v::eq(*it, c[i], "reverse iteration"); } v::ensure(i == 0, "reverse range complete"); }
}
// at() : any index at all
template<typename T, size_t N> void at_any() {
  array<T, N> a; T c[N]; put(a, c, "a");
  size_t i = (size_t)v::i64("i");
  bool cst = v::boolean("const");
  bool thrown = false;
  try {
    const array<T, N> & k = a;
    const T * p = cst ? &k.at(i) : &a.at(i);
    v::ensure(i < N, "at() throws for every index >= size");
    v::ensure(p == a.data() + i, "at(i) is element i");
  } catch (std::out_of_range &) { thrown = true; }
  if (i < N) v::ensure(!thrown, "at() does not throw for a valid index");
  same(a, c, "at() does not modify");
}
// operator[] with a run-time index
template<typename T, size_t N> void index_any() {
  array<T, N> a; T c[N]; put(a, c, "a");
  size_t i = (size_t)v::i64("i");
  v::assume(i < N);
  T x = sm<T>("x");
  if (v::boolean("paren")) a(i) = x; else a[i] = x;
  for (size_t j = 0; j < N; ++j) v::eq(a.data()[j], j == i ? x : c[j], "a[i]=x changes element i and nothing else");
}
template<typename T, size_t N> void copies() {
  array<T, N> a; T c[N]; put(a, c, "a");
  array<T, N> b(a);
  same(b, c, "copy construction");
  array<T, N> d; T e[N]; put(d, e, "d");
  auto & r = (d = a);
  v::ensure(&r == &d, "assignment returns *this");
  same(d, c, "assignment copies every element");
  same(a, c, "assignment leaves the source");
  a = a; same(a, c, "self assignment");
  T x = sm<T>("x");
  d.fill(x); EACH(d, x, "fill"); same(a, c, "copies are independent");
  array<T, N> f(x); EACH(f, x, "fill constructor");
  T y = sm<T>("y");
  auto & r2 = (f = y); v::ensure(&r2 == &f, "assignment returns *this"); EACH(f, y, "scalar assignment");
  d.fill(c[N / 2]); array<T, N> g(a); g.fill(g[N / 2]); v::ensure(true, ""); EACH(g, c[N / 2], "fill with an element of itself");
}
template<typename T, size_t N> void swaps() {
  array<T, N> a; T c[N]; put(a, c, "a");
  array<T, N> b; T d[N]; put(b, d, "b");
  a.swap(b); same(a, d, "swap"); same(b, c, "swap");
  swap(a, b); same(a, c, "free swap"); same(b, d, "free swap");
  a.swap(a); same(a, c, "self swap");
}
template<typename T, size_t N> void assigns() {
  T c[N]; for (auto & x : c) x = sm<T>("c");
  array<T, N> b; T d[N]; put(b, d, "b");
  b.assign(c, c + N); same(b, c, "assign(first,last)");
  array<T, N> e; put(e, d, "e");
  if constexpr (N >= 2) { 
    e.assign(c, c + (N - 1));
    for (size_t i = 0; i + 1 < N; ++i) v::eq(e.data()[i], c[i], "assign of a shorter range"); 
    v::eq(e.data()[N - 1], d[N - 1], "assign of a shorter range leaves the rest");
  }
}
template<typename T, size_t N> void arith() {
  array<T, N> a; T c[N]; put(a, c, "a");
  array<T, N> b; T d[N]; put(b, d, "b");
  { auto r = a + b; EACH(r, c[i] + d[i], "a+b"); }
  { auto r = a - b; EACH(r, c[i] - d[i], "a-b"); }
  { auto r = a * b; EACH(r, c[i] * d[i], "a*b"); }
  if constexpr (std::is_signed<T>::value || std::is_floating_point<T>::value) { auto r = -a; EACH(r, -c[i], "-a"); }
  { auto r = a + a; EACH(r, c[i] + c[i], "a+a"); }
  { auto r = a - a; EACH(r, c[i] - c[i], "a-a"); }
  T x = sm<T>("x");
  { auto r = a + x; EACH(r, c[i] + x, "a+x"); }
  { auto r = x + a; EACH(r, x + c[i], "x+a"); }
  { auto r = a - x; EACH(r, c[i] - x, "a-x"); }
  { auto r = x - a; EACH(r, x - c[i], "x-a"); }
  { auto r = a * x; EACH(r, c[i] * x, "a*x"); }
  { auto r = x * a; EACH(r, x * c[i], "x*a"); }
  same(a, c, "operands unchanged"); same(b, d, "operands unchanged");
}
template<typename T, size_t N> void divs() {
  array<T, N> a; T c[N]; put(a, c, "a");
  array<T, N> b; T d[N]; put(b, d, "b", true);
  T x = nz<T>("x"), y = sm<T>("y");
  { auto r = a / b; EACH(r, c[i] / d[i], "a/b"); }
  { auto r = a / x; EACH(r, c[i] / x, "a/x"); }
  { auto r = y / b; EACH(r, y / d[i], "x/a"); }
  { auto r = a; auto & s = (r /= b); v::ensure(&s == &r, "returns *this"); EACH(r, c[i] / d[i], "a/=b"); }
  { auto r = a; auto & s = (r /= x); v::ensure(&s == &r, "returns *this"); EACH(r, c[i] / x, "a/=x"); }
  { auto r = b; r /= r; EACH(r, 1, "a/=a"); }
  { auto r = b; r /= r[0]; EACH(r, d[i] / d[0], "a/=a[0]"); }
  { auto r = b; r /= r[N - 1]; EACH(r, d[i] / d[N - 1], "a/=a[last]"); }
  same(a, c, "operands unchanged"); same(b, d, "operands unchanged");
}
template<typename T, size_t N> void compound() {
  array<T, N> a; T c[N]; put(a, c, "a");
  array<T, N> b; T d[N]; put(b, d, "b");
  T x = sm<T>("x");
#define CMP(op, e, ex, es) \
  { auto r = a; auto & s = (r op b); v::ensure(&s == &r, "returns *this"); EACH(r, e, "a " #op " b"); } \
  { auto r = a; auto & s = (r op x); v::ensure(&s == &r, "returns *this"); EACH(r, ex, "a " #op " x"); } \
  { auto r = a; r op r; EACH(r, es, "a " #op " a (aliased)"); }
  CMP(+=, c[i] + d[i], c[i] + x, c[i] + c[i])
  CMP(-=, c[i] - d[i], c[i] - x, c[i] - c[i])
  CMP(*=, c[i] * d[i], c[i] * x, c[i] * c[i])
#undef CMP
  { auto r = a; r += r[0]; EACH(r, c[i] + c[0], "a+=a[0] (aliased scalar)"); }
  { auto r = a; r -= r[0]; EACH(r, c[i] - c[0], "a-=a[0] (aliased scalar)"); }
  { auto r = a; r *= r[0]; EACH(r, c[i] * c[0], "a*=a[0] (aliased scalar)"); }
  { auto r = a; r += r[N / 2]; EACH(r, c[i] + c[N / 2], "a+=a[k] (aliased scalar)"); }
  { auto r = a; r += r[N - 1]; EACH(r, c[i] + c[N - 1], "a+=a[k] (aliased scalar)"); }
  { auto r = a; r -= r[N - 1]; EACH(r, c[i] - c[N - 1], "a-=a[k] (aliased scalar)"); }
  { auto r = a; r *= r[N - 1]; EACH(r, c[i] * c[N - 1], "a*=a[k] (aliased scalar)"); }
  same(a, c, "operands unchanged"); same(b, d, "operands unchanged");
}
template<typename T, size_t N> void compares() {
  array<T, N> a; T c[N]; put(a, c, "a");
  array<T, N> b; T d[N]; put(b, d, "b");
  bool eq = true, lt = false, gt = false;
  for (size_t i = 0; i < N; ++i) {
    if (eq && c[i] < d[i]) lt = true;
    if (eq && d[i] < c[i]) gt = true;
    if (!(c[i] == d[i])) eq = false;
  }
  v::ensure((a == b) == eq, "a==b iff all elements equal");
  v::ensure((a != b) == !eq, "a!=b");
  v::ensure((a < b) == lt, "a<b is lexicographic");
  v::ensure((a > b) == gt, "a>b");
  v::ensure((a <= b) == !gt, "a<=b");
  v::ensure((a >= b) == !lt, "a>=b");
  v::ensure(a == a && !(a != a) && !(a < a) && a <= a, "reflexivity");
  T x = sm<T>("x");
  bool all = true;
  for (size_t i = 0; i < N; ++i) all = all && c[i] == x;
  v::ensure((a == x) == all, "a==x iff every element equals x");
}
template<typename T, typename U, size_t N> void mixed() {
  array<T, N> a; T c[N]; put(a, c, "a");
  array<U, N> b; U d[N]; put(b, d, "b");
  { array<T, N> r(b); EACH(r, d[i], "converting construction"); }
  { auto r = a; auto & s = (r = b); v::ensure(&s == &r, "returns *this"); EACH(r, d[i], "converting assignment"); }
  { auto r = a; r += b; EACH(r, c[i] + d[i], "mixed +="); }
  { auto r = a; r -= b; EACH(r, c[i] - d[i], "mixed -="); }
  { auto r = a; r *= b; EACH(r, c[i] * d[i], "mixed *="); }
  U x = nz<U>("x");
  { auto r = a + x; EACH(r, c[i] + x, "mixed a+x"); }
  { auto r = x + a; EACH(r, c[i] + x, "mixed x+a"); }
  { auto r = a - x; EACH(r, c[i] - x, "mixed a-x"); }
  { auto r = x - a; EACH(r, x - c[i], "mixed x-a"); }
  { auto r = a * x; EACH(r, c[i] * x, "mixed a*x"); }
  { auto r = x * a; EACH(r, c[i] * x, "mixed x*a"); }
  { auto r = a / x; EACH(r, c[i] / x, "mixed a/x"); }
  { auto r = a; r += x; EACH(r, c[i] + x, "mixed a+=x"); }
  { auto r = a; r -= x; EACH(r, c[i] - x, "mixed a-=x"); }
  { auto r = a; r *= x; EACH(r, c[i] * x, "mixed a*=x"); }
  { auto r = a; r /= x; EACH(r, c[i] / x, "mixed a/=x"); }
  { auto r = a; r = x; EACH(r, x, "mixed a=x"); }
}
// the loop counter selected for N must reach N
template<size_t N> void big() {
  static_assert(sizeof(array<double, N>) == N * sizeof(double), "");
  v::ensure((unsigned long long)std::numeric_limits<typename array<double, N>::counter_type>::max() >= N, "the loop counter can represent N");
  array<double, N> a; double c[N];
  for (size_t i = 0; i < N; ++i) { c[i] = v::real("a"); a.data()[i] = c[i]; }
  double x = v::real("x");
  auto b = a; b += x; 
  for (size_t i = 0; i < N; ++i) v::eq(b.data()[i], c[i] + x, "a+=x (large N)");
  auto d = a + b;
  for (size_t i = 0; i < N; ++i) v::eq(d.data()[i], c[i] + c[i] + x, "a+b (large N)");
  b.fill(x);
  for (size_t i = 0; i < N; ++i) v::eq(b.data()[i], x, "fill (large N)");
  v::ensure(a == a, "== (large N)");
  array<double, N> e(x);
  for (size_t i = 0; i < N; ++i) v::eq(e.data()[i], x, "construction (large N)");
}

template<typename T, size_t N> void core() { access<T, N>(); copies<T, N>(); swaps<T, N>(); assigns<T, N>(); arith<T, N>(); compound<T, N>(); divs<T, N>(); }

#define FOR_N(M, T, n) M(T, 1, n) M(T, 2, n) M(T, 3, n) M(T, 4, n) M(T, 5, n)
#define CORE(T, N, n) CONTRACT(array_##n##_##N) { core<T, N>(); }
FOR_N(CORE, double, d)
CORE(double, 6, d) CORE(double, 8, d)
FOR_N(CORE, float, f)
#define ICORE(T, N, n) CONTRACT(array_##n##_##N) { access<T, N>(); copies<T, N>(); swaps<T, N>(); assigns<T, N>(); arith<T, N>(); compound<T, N>(); } CONTRACT(array_div_##n##_##N) { divs<T, N>(); }
FOR_N(ICORE, int, i)
FOR_N(ICORE, long, l)
ICORE(unsigned, 3, u)
ICORE(unsigned long, 3, ul)
#define CMPC(T, N, n) CONTRACT(array_cmp_##n##_##N) { compares<T, N>(); } CONTRACT(array_at_##n##_##N) { at_any<T, N>(); } CONTRACT(array_idx_##n##_##N) { index_any<T, N>(); }
CMPC(double, 1, d) CMPC(double, 2, d) CMPC(double, 3, d) CMPC(int, 3, i) CMPC(int, 4, i) CMPC(float, 3, f)
CONTRACT(array_mixed) { mixed<double, float, 3>(); mixed<double, int, 3>(); mixed<float, double, 2>(); mixed<double, int, 1>(); mixed<double, long, 4>(); }
CONTRACT(array_variadic) {
  double a = v::real("a"), b = v::real("b"), c = v::real("c"), d = v::real("d");
  array<double, 2> x(a, b); v::eq(x[0], a, "variadic ctor"); v::eq(x[1], b, "variadic ctor");
  array<double, 3> y(a, b, c); v::eq(y[0], a, "variadic ctor"); v::eq(y[1], b, "variadic ctor"); v::eq(y[2], c, "variadic ctor");
  array<double, 4> z{a, b, c, d}; v::eq(z[0], a, "variadic ctor"); v::eq(z[1], b, "variadic ctor"); v::eq(z[2], c, "variadic ctor"); v::eq(z[3], d, "variadic ctor");
  array<double, 3> w; w.assign({c, a, b}); v::eq(w[0], c, "assign list"); v::eq(w[1], a, "assign list"); v::eq(w[2], b, "assign list");
  int i = v::i32("i"); array<double, 2> m(i, a); v::eq(m[0], double(i), "variadic ctor converts"); v::eq(m[1], a, "variadic ctor");
}
CONTRACT(array_big_127) { big<127>(); }
CONTRACT(array_big_128) { big<128>(); }
CONTRACT(array_big_255) { big<255>(); }
CONTRACT(array_big_256) { big<256>(); }
CONTRACT(array_big_300) { big<300>(); }
#ifdef THOROUGH
CORE(double, 7, d) CORE(double, 9, d) CORE(double, 12, d) CORE(double, 16, d) CORE(float, 8, f) ICORE(int, 8, i) ICORE(short, 3, s) ICORE(long, 9, l)
CMPC(double, 4, d) CMPC(double, 5, d) CMPC(long, 5, l) CMPC(unsigned, 4, u)
CONTRACT(array_big_1000) { big<1000>(); }
CONTRACT(array_big_511) { big<511>(); }
#endif
