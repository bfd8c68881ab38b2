// M02: math::multi_array<T,N...>: row-major bijection onto contiguous storage, checked access, elementwise algebra.
#include "v.h"
#include <ristra/math/multi_array.h>
#include <limits>
using ristra::math::multi_array;
using std::size_t;
using v::sm; using v::nz;

template<typename A> struct tr;
template<typename T_, size_t... D> struct tr<multi_array<T_, D...>> { using T = T_; static constexpr size_t n = (D * ...); static constexpr size_t nd = sizeof...(D); static constexpr size_t dims[sizeof...(D)] = {D...}; };
template<typename A> void put(A & a, typename tr<A>::T (&c)[tr<A>::n], const char * n, bool nonz = false) {
  for (size_t i = 0; i < tr<A>::n; ++i) { c[i] = nonz ? nz<typename tr<A>::T>(n) : sm<typename tr<A>::T>(n); a.data()[i] = c[i]; }
}
template<typename A> void same(const A & a, const typename tr<A>::T (&c)[tr<A>::n], const char * m) { for (size_t i = 0; i < tr<A>::n; ++i) v::eq(a.data()[i], c[i], m); }
#define EACH(X, e, m) do { for (size_t i = 0; i < N; ++i) v::eq((X).data()[i], static_cast<T>(e), m); } while (0)
#define HEAD using T = typename tr<A>::T; constexpr size_t N = tr<A>::n;

template<typename A> void shape() { HEAD
  static_assert(sizeof(A) == N * sizeof(T), "");
  v::ensure(A::size() == N && A::num_elements() == N && A::num_dimensions() == tr<A>::nd && A::elements == N, "size");
  size_t s = 1;
  for (size_t k = tr<A>::nd; k-- > 0;) {
    v::ensure(A::shape()[k] == tr<A>::dims[k], "shape");
    v::ensure(A::strides()[k] == s, "row-major strides");
    s *= tr<A>::dims[k];
  }
  A a; T c[N]; put(a, c, "a"); const A & k = a;
  v::ensure(a.begin() == a.data() && a.end() == a.data() + N && k.begin() == a.data() && k.end() == a.data() + N && k.cbegin() == a.data() && k.cend() == a.data() + N && a.c_array() == a.data(), "contiguous range");
  v::ensure(&a.front() == a.data() && &k.front() == a.data() && &a.back() == a.data() + (N - 1) && &k.back() == a.data() + (N - 1), "front/back");
  for (size_t i = 0; i < N; ++i) v::ensure(&a[i] == a.data() + i && &k[i] == a.data() + i, "flat access");
  { size_t i = N; for (auto it = a.rbegin(); it != a.rend(); ++it) { --i; v::eq(*it, c[i], "reverse iteration"); } v::ensure(i == 0, "reverse range"); }
  { size_t i = N; for (auto it = k.rbegin(); it != k.rend(); ++it) { --i; v::eq(*it, c[i], "reverse iteration"); } v::ensure(i == 0, "reverse range"); }
  { size_t i = N; for (auto it = k.crbegin(); it != k.crend(); ++it) { --i; v::eq(*it, c[i], "reverse iteration"); } v::ensure(i == 0, "reverse range"); }
}
// every multi-index (run-time values): the element is the row-major one, inside the storage
template<typename T, size_t D0> void idx1() {
  using A = multi_array<T, D0>; A a; T c[D0]; put(a, c, "a"); const A & k = a;
  size_t i = v::i64("i"); v::assume(i < D0);
  size_t ids[1] = {i};
  v::ensure(&a(i) == a.data() + i && &k(i) == a.data() + i && &a.at(i) == a.data() + i && &k.at(i) == a.data() + i && A::element(i) == i, "element (i)");
  v::ensure(&a[ids] == a.data() + i && &k[ids] == a.data() + i, "element [{i}]");
}
template<typename T, size_t D0, size_t D1> void idx2() {
  using A = multi_array<T, D0, D1>; A a; T c[D0 * D1]; put(a, c, "a"); const A & k = a;
  size_t i = v::choose("i", 0, D0 - 1), j = v::choose("j", 0, D1 - 1);
  const T * p = a.data() + (i * D1 + j);
  size_t ids[2] = {i, j};
  v::ensure(&a(i, j) == p && &k(i, j) == p && &a.at(i, j) == p && &k.at(i, j) == p && A::element(i, j) == i * D1 + j, "element (i,j) is row-major");
  v::ensure(&a[ids] == p && &k[ids] == p, "element [{i,j}] is row-major");
  v::ensure(&a(int(i), int(j)) == p && &a.at(int(i), unsigned(j)) == p && &a((unsigned char)i, j) == p, "element (i,j), other index types");
  T x = sm<T>("x"); a(i, j) = x;
  for (size_t m = 0; m < D0 * D1; ++m) v::eq(a.data()[m], m == i * D1 + j ? x : c[m], "a(i,j)=x changes one element");
}
template<typename T, size_t D0, size_t D1, size_t D2> void idx3() {
  using A = multi_array<T, D0, D1, D2>; A a; T c[D0 * D1 * D2]; put(a, c, "a"); const A & k = a;
  size_t i = v::choose("i", 0, D0 - 1), j = v::choose("j", 0, D1 - 1), l = v::choose("k", 0, D2 - 1);
  const T * p = a.data() + ((i * D1 + j) * D2 + l);
  size_t ids[3] = {i, j, l};
  v::ensure(&a(i, j, l) == p && &k(i, j, l) == p && &a.at(i, j, l) == p && &k.at(i, j, l) == p && &a[ids] == p && &k[ids] == p, "element (i,j,k) is row-major");
}
// at() : any index at all throws unless every component is in range
template<typename T, size_t D0, size_t D1> void at2() {
  using A = multi_array<T, D0, D1>; A a; T c[D0 * D1]; put(a, c, "a"); const A & k = a;
  size_t i = v::i64("i"), j = v::i64("j");
  bool cst = v::boolean("const"), thrown = false;
  bool in = i < D0 && j < D1;
  try {
    const T * p = cst ? &k.at(i, j) : &a.at(i, j);
    v::ensure(in, "at() throws when a component is out of range");
    v::ensure(p == a.data() + (i * D1 + j), "at(i,j) is row-major");
  } catch (std::out_of_range &) { thrown = true; }
  v::ensure(thrown == !in, "at() throws exactly for an out of range index");
}
template<typename T, size_t D0, size_t D1, size_t D2> void at3() {
  using A = multi_array<T, D0, D1, D2>; A a; T c[D0 * D1 * D2]; put(a, c, "a");
  int i = v::i32("i"); long j = v::i64("j"); unsigned l = v::i32("k");
  bool thrown = false;
  bool in = i >= 0 && size_t(i) < D0 && j >= 0 && size_t(j) < D1 && l < D2;
  try {
    const T * p = &a.at(i, j, l);
    v::ensure(in, "at() throws when a component is out of range");
    v::ensure(p == a.data() + ((size_t(i) * D1 + size_t(j)) * D2 + l), "at(i,j,k) is row-major");
  } catch (std::out_of_range &) { thrown = true; }
  v::ensure(thrown == !in, "at() throws exactly for an out of range index");
}
template<typename T, size_t D0> void at1() {
  using A = multi_array<T, D0>; A a; T c[D0]; put(a, c, "a");
  long i = v::i64("i"); bool thrown = false;
  try { const T * p = &a.at(i); v::ensure(i >= 0 && size_t(i) < D0 && p == a.data() + i, "at(i)"); } catch (std::out_of_range &) { thrown = true; }
  v::ensure(thrown == !(i >= 0 && size_t(i) < D0), "at() throws exactly for an out of range index");
}

template<typename A> void ops() { HEAD
  A a; T c[N]; put(a, c, "a");
  A b; T d[N]; put(b, d, "b");
  T x = sm<T>("x"), y = sm<T>("y");
  { A r(a); same(r, c, "copy"); }
  { A r(x); EACH(r, x, "fill ctor"); auto & s = (r = a); v::ensure(&s == &r, "returns *this"); same(r, c, "assignment"); r = y; EACH(r, y, "scalar assignment"); r.fill(x); EACH(r, x, "fill"); }
  { A r(a); r = r; same(r, c, "self assignment"); }
  { A r{x}; EACH(r, x, "single value list"); }
  { A r(a), q(b); r.swap(q); same(r, d, "swap"); same(q, c, "swap"); swap(r, q); same(r, c, "free swap"); same(q, d, "free swap"); }
  { A r(a); r.assign(d, d + N); same(r, d, "assign"); }
  { auto r = a + b; EACH(r, c[i] + d[i], "a+b"); }
  { auto r = a - b; EACH(r, c[i] - d[i], "a-b"); }
  { auto r = a * b; EACH(r, c[i] * d[i], "a*b elementwise"); }
  if constexpr (!std::is_unsigned<T>::value) { auto r = -a; EACH(r, -c[i], "-a"); }
  { auto r = a + x; EACH(r, c[i] + x, "a+x"); }
  { auto r = x + a; EACH(r, x + c[i], "x+a"); }
  { auto r = a - x; EACH(r, c[i] - x, "a-x"); }
  { auto r = x - a; EACH(r, x - c[i], "x-a"); }
  { auto r = a * x; EACH(r, c[i] * x, "a*x"); }
  { auto r = x * a; EACH(r, x * c[i], "x*a"); }
#define CMP(op, e, ex, es, e0) \
  { auto r = a; auto & s = (r op b); v::ensure(&s == &r, "returns *this"); EACH(r, e, "a " #op " b"); } \
  { auto r = a; auto & s = (r op x); v::ensure(&s == &r, "returns *this"); EACH(r, ex, "a " #op " x"); } \
  { auto r = a; r op r; EACH(r, es, "a " #op " a (aliased)"); } \
  { auto r = a; r op r[0]; EACH(r, e0, "a " #op " a[0] (aliased scalar)"); } \
  { auto r = a; const T l = c[N - 1]; r op r[N - 1]; auto q = a; q op l; for (size_t i = 0; i < N; ++i) v::eq(r.data()[i], q.data()[i], "a " #op " a[N-1] (aliased scalar)"); }
  CMP(+=, c[i] + d[i], c[i] + x, c[i] + c[i], c[i] + c[0])
  CMP(-=, c[i] - d[i], c[i] - x, c[i] - c[i], c[i] - c[0])
  CMP(*=, c[i] * d[i], c[i] * x, c[i] * c[i], c[i] * c[0])
  same(a, c, "operands unchanged"); same(b, d, "operands unchanged");
}
template<typename A> void divs() { HEAD
  A a; T c[N]; put(a, c, "a");
  A b; T d[N]; put(b, d, "b", true);
  T x = nz<T>("x"), y = sm<T>("y");
  { auto r = a / b; EACH(r, c[i] / d[i], "a/b"); }
  { auto r = a / x; EACH(r, c[i] / x, "a/x"); }
  { auto r = y / b; EACH(r, y / d[i], "x/a"); }
  { auto r = a; auto & s = (r /= b); v::ensure(&s == &r, "returns *this"); EACH(r, c[i] / d[i], "a/=b"); }
  { auto r = a; auto & s = (r /= x); v::ensure(&s == &r, "returns *this"); EACH(r, c[i] / x, "a/=x"); }
  { auto r = b; r /= r[0]; EACH(r, d[i] / d[0], "a/=a[0]"); }
  { auto r = b; r /= r[N - 1]; EACH(r, d[i] / d[N - 1], "a/=a[N-1]"); }
  same(a, c, "operands unchanged"); same(b, d, "operands unchanged");
}
template<typename A> void compares() { HEAD
  A a; T c[N]; put(a, c, "a");
  A b; T d[N]; put(b, d, "b");
  bool eq = true, lt = false, gt = false;
  for (size_t i = 0; i < N; ++i) {
    if (eq && c[i] < d[i]) lt = true;
    if (eq && d[i] < c[i]) gt = true;
    if (!(c[i] == d[i])) eq = false;
  }
  v::ensure((a == b) == eq, "a==b iff all elements equal");
  v::ensure((a != b) == !eq, "a!=b");
  v::ensure((a < b) == lt, "a<b is lexicographic");
  v::ensure((a > b) == gt, "a>b");
  v::ensure((a <= b) == !gt, "a<=b");
  v::ensure((a >= b) == !lt, "a>=b");
  T x = sm<T>("x"); bool all = true;
  for (size_t i = 0; i < N; ++i) all = all && c[i] == x;
  v::ensure((a == x) == all, "a==x iff every element equals x");
}
template<size_t... D> void mixed() {
  using T = double; constexpr size_t N = (D * ...);
  multi_array<double, D...> a; double c[N]; put(a, c, "a");
  multi_array<int, D...> b; int d[N]; put(b, d, "b");
  { multi_array<double, D...> r(b); EACH(r, d[i], "converting construction"); }
  { auto r = a; auto & s = (r = b); v::ensure(&s == &r, "returns *this"); EACH(r, d[i], "converting assignment"); }
  { auto r = a; r += b; EACH(r, c[i] + d[i], "mixed +="); }
  { auto r = a; r -= b; EACH(r, c[i] - d[i], "mixed -="); }
  { auto r = a; r *= b; EACH(r, c[i] * d[i], "mixed *="); }
  int x = nz<int>("x");
  { auto r = a + x; EACH(r, c[i] + x, "mixed a+x"); }
  { auto r = a - x; EACH(r, c[i] - x, "mixed a-x"); }
  { auto r = x - a; EACH(r, x - c[i], "mixed x-a"); }
  { auto r = a * x; EACH(r, c[i] * x, "mixed a*x"); }
  { auto r = x * a; EACH(r, c[i] * x, "mixed x*a"); }
  { auto r = a / x; EACH(r, c[i] / x, "mixed a/x"); }
  { auto r = a; r *= x; EACH(r, c[i] * x, "mixed a*=x"); }
  { auto r = a; r /= x; EACH(r, c[i] / x, "mixed a/=x"); }
}
template<typename A> void big() { HEAD
  v::ensure((unsigned long long)std::numeric_limits<typename A::counter_type>::max() >= N, "the loop counter can represent the element count");
  A a; static T c[N];
  for (size_t i = 0; i < N; ++i) { c[i] = v::any<T>("a"); a.data()[i] = c[i]; }
  T x = v::any<T>("x");
  A b = a; b += x; EACH(b, c[i] + x, "a+=x (large)");
  A d = a * b; EACH(d, c[i] * (c[i] + x), "a*b (large)");
  b.fill(x); EACH(b, x, "fill (large)");
}
#define ALL(name, ...) CONTRACT(ma_shape_##name) { shape<multi_array<__VA_ARGS__>>(); } CONTRACT(ma_ops_##name) { ops<multi_array<__VA_ARGS__>>(); } CONTRACT(ma_div_##name) { divs<multi_array<__VA_ARGS__>>(); }
ALL(d1, double, 1) ALL(d3, double, 3) ALL(d11, double, 1, 1) ALL(d22, double, 2, 2) ALL(d23, double, 2, 3) ALL(d32, double, 3, 2) ALL(d33, double, 3, 3) ALL(d44, double, 4, 4) ALL(d14, double, 1, 4) ALL(d234, double, 2, 3, 4) ALL(d312, double, 3, 1, 2) ALL(d2222, double, 2, 2, 2, 2) ALL(f23, float, 2, 3)
ALL(i23, int, 2, 3) ALL(l22, long, 2, 2) ALL(u32, unsigned, 3, 2)
CONTRACT(ma_idx_4) { idx1<double, 4>(); }
CONTRACT(ma_idx_1) { idx1<double, 1>(); }
CONTRACT(ma_idx_23) { idx2<double, 2, 3>(); }
CONTRACT(ma_idx_32) { idx2<double, 3, 2>(); }
CONTRACT(ma_idx_33) { idx2<double, 3, 3>(); }
CONTRACT(ma_idx_44) { idx2<double, 4, 4>(); }
CONTRACT(ma_idx_15) { idx2<int, 1, 5>(); }
CONTRACT(ma_idx_51) { idx2<float, 5, 1>(); }
CONTRACT(ma_idx_234) { idx3<double, 2, 3, 4>(); }
CONTRACT(ma_idx_321) { idx3<int, 3, 2, 1>(); }
CONTRACT(ma_at_23) { at2<double, 2, 3>(); }
CONTRACT(ma_at_31) { at2<double, 3, 1>(); }
CONTRACT(ma_at_33) { at2<int, 3, 3>(); }
CONTRACT(ma_at_234) { at3<double, 2, 3, 4>(); }
CONTRACT(ma_at_132) { at3<int, 1, 3, 2>(); }
CONTRACT(ma_at_4) { at1<double, 4>(); }
CONTRACT(ma_cmp_12) { compares<multi_array<double, 1, 2>>(); }
CONTRACT(ma_cmp_31) { compares<multi_array<double, 3, 1>>(); }
CONTRACT(ma_cmp_i22) { compares<multi_array<int, 2, 2>>(); }
CONTRACT(ma_mixed) { mixed<2, 2>(); mixed<3>(); }
CONTRACT(ma_list) {
  double a = v::real("a"), b = v::real("b"), c = v::real("c"), d = v::real("d");
  multi_array<double, 2, 2> m{a, b, c, d};
  v::eq(m(0, 0), a, "list ctor is row-major"); v::eq(m(0, 1), b, "list ctor is row-major"); v::eq(m(1, 0), c, "list ctor is row-major"); v::eq(m(1, 1), d, "list ctor is row-major");
  multi_array<double, 1, 2> n; n.assign({c, a}); v::eq(n(0, 0), c, "assign list"); v::eq(n(0, 1), a, "assign list");
}
CONTRACT(ma_big_256) { big<multi_array<double, 16, 16>>(); }
CONTRACT(ma_big_300) { big<multi_array<double, 3, 10, 10>>(); }
CONTRACT(ma_big_255) { big<multi_array<double, 15, 17>>(); }
CONTRACT(ma_big_128) { big<multi_array<double, 128>>(); }
#ifdef THOROUGH
ALL(d55, double, 5, 5) ALL(d66, double, 6, 6) ALL(d345, double, 3, 4, 5) ALL(l33, long, 3, 3) ALL(f33, float, 3, 3)
CONTRACT(ma_idx_345) { idx3<double, 3, 4, 5>(); }
CONTRACT(ma_idx_66) { idx2<double, 6, 6>(); }
CONTRACT(ma_idx_17) { idx2<double, 1, 7>(); }
CONTRACT(ma_at_44) { at2<double, 4, 4>(); }
CONTRACT(ma_at_345) { at3<double, 3, 4, 5>(); }
CONTRACT(ma_cmp_13) { compares<multi_array<double, 1, 3>>(); }
CONTRACT(ma_cmp_22) { compares<multi_array<double, 2, 2>>(); }
CONTRACT(ma_cmp_23) { compares<multi_array<double, 2, 3>>(); }
CONTRACT(ma_big_512) { big<multi_array<double, 16, 32>>(); }
#endif
