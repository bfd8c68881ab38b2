// U04: compile-time traversal helpers
#include "v.h"
#include <array>
#include <cassert>
#include <functional>
#include <limits>
#include <tuple>
#include <utility>
#include <ristra/utils/tuple_for_each.h>
#include <ristra/utils/tuple_visit.h>
#include <ristra/utils/tuple_zip.h>
#include <ristra/utils/tuple_to_array.h>
#include <ristra/utils/static_for.h>
#include <ristra/utils/template_helpers.h>
namespace ru = ristra::utils; using std::size_t; using std::get;
// every call records the address and the value of what it was given
struct log_t { const void * a[16], * b[16], * c[16]; int n = 0; double va[16];
  template<typename T> void operator()(T & x) { a[n] = &x; va[n] = x; ++n; }
  template<typename T, typename U> void operator()(T & x, U & y) { a[n] = &x; b[n] = &y; ++n; }
  template<typename T, typename U, typename W> void operator()(T & x, U & y, W & z) { a[n] = &x; b[n] = &y; c[n] = &z; ++n; } };
template<typename... T, size_t... I> void each_(std::index_sequence<I...>) {
  std::tuple<T...> t(v::any<T>("x")...); const auto t0 = t; log_t l, m;
  ru::tuple_for_each(t, [&](auto & x) { l(x); });
  v::ensure(l.n == sizeof...(T), "tuple_for_each calls once per element"); const void * e[] = {&get<I>(t)...}; for (size_t i = 0; i < sizeof...(T); ++i) v::ensure(l.a[i] == e[i], "tuple_for_each passes the elements in order");
  ru::tuple_for_each(t0, [&](auto & x) { m(x); }); const void * g[] = {&get<I>(t0)...}; v::ensure(m.n == sizeof...(T), "const tuple: once per element"); for (size_t i = 0; i < sizeof...(T); ++i) v::ensure(m.a[i] == g[i], "const tuple: in order");
  (v::eq(get<I>(t), get<I>(t0), "traversal changes nothing"), ...);
  int k = 0; ru::tuple_for_each(t, [&](auto & x) { x = decltype(x + 0)(++k); }); int q = 0; ((++q, v::eq(get<I>(t), std::tuple_element_t<I, std::tuple<T...>>(q), "assignments through the callback reach the tuple")), ...);
  log_t f; ru::tuple_for_each(t, f); v::ensure(f.n == sizeof...(T), "a named callable keeps what it gathers"); for (size_t i = 0; i < sizeof...(T); ++i) v::ensure(f.a[i] == e[i], "a named callable keeps what it gathers");
  k = 0; ru::tuple_for_each(std::tuple<T...>(t0), [&](auto && x) { v::eq(double(x), double(0) + x, "rvalue"); ++k; }); v::ensure(k == sizeof...(T), "rvalue tuple: once per element");
}
template<typename... T> void each() { each_<T...>(std::make_index_sequence<sizeof...(T)>()); }
CONTRACT(for_each_1) { each<int>(); } CONTRACT(for_each_3) { each<double, int, char>(); } CONTRACT(for_each_6) { each<int, int, double, short, float, int>(); }
template<typename... T, size_t... I> void visit_(std::index_sequence<I...>) {
  constexpr size_t N = sizeof...(T); std::tuple<T...> a(v::any<T>("a")...), b(v::any<T>("b")...), c(v::any<T>("c")...); const auto a0 = a, b0 = b, c0 = c; log_t l, l2;
  const void * pa[] = {&get<I>(a)...}, * pb[] = {&get<I>(b)...}, * pc[] = {&get<I>(c)...};
  auto & r = ru::tuple_visit(l, a, b, c); v::ensure(&r == &l, "tuple_visit returns the callable"); v::ensure(l.n == N, "tuple_visit calls once per position");
  for (size_t i = 0; i < N; ++i) v::ensure(l.a[i] == pa[i] && l.b[i] == pb[i] && l.c[i] == pc[i], "tuple_visit passes the same position of every tuple, in order");
  ru::tuple_visit(l2, a, a0); for (size_t i = 0; i < N; ++i) v::ensure(l2.a[i] == pa[i], "two tuples"); v::ensure(l2.n == N, "two tuples: once per position");
  log_t l1; ru::tuple_visit(l1, b); v::ensure(l1.n == N, "one tuple"); for (size_t i = 0; i < N; ++i) v::ensure(l1.a[i] == pb[i], "one tuple in order");
  log_t lt = ru::tuple_visit(log_t(), a); v::ensure(lt.n == N, "a temporary functor is returned with its state"); for (size_t i = 0; i < N; ++i) v::ensure(lt.a[i] == pa[i], "a temporary functor is returned with its state");
  (v::eq(get<I>(a), get<I>(a0), "unchanged"), ...); (v::eq(get<I>(b), get<I>(b0), "unchanged"), ...); (v::eq(get<I>(c), get<I>(c0), "unchanged"), ...);
  ru::tuple_visit([](auto & x, auto & y) { x = y; }, a, b); (v::eq(get<I>(a), get<I>(b0), "assignments through the callback"), ...); (v::eq(get<I>(b), get<I>(b0), "source unchanged"), ...);
}
template<typename... T> void visit() { visit_<T...>(std::make_index_sequence<sizeof...(T)>()); }
CONTRACT(visit_1) { visit<int>(); } CONTRACT(visit_2) { visit<double, int>(); } CONTRACT(visit_5) { visit<int, double, char, float, int>(); }
template<typename... T, size_t... I> void zip_(std::index_sequence<I...>) {
  std::tuple<T...> a(v::any<T>("a")...); std::tuple<std::pair<T, int>...> dummy; (void)dummy; auto b = std::make_tuple((double)(v::real("b") + (I - I))...); const auto a0 = a; const auto b0 = b;
  auto z = ru::tuple_zip(a, b); static_assert(std::tuple_size<decltype(z)>::value == sizeof...(T), "");
  (v::eq(get<I>(z).first, get<I>(a0), "zip: first of the pair is from the first tuple"), ...); (v::eq(get<I>(z).second, get<I>(b0), "zip: second of the pair is from the second tuple"), ...);
  auto t = ru::tuple_tie(a, b); (v::ensure(&get<0>(get<I>(t)) == &get<I>(a) && &get<1>(get<I>(t)) == &get<I>(b), "tie refers to the elements"), ...);
  (v::eq(get<I>(a), get<I>(a0), "unchanged"), ...); (v::eq(get<I>(b), get<I>(b0), "unchanged"), ...);
  ((get<0>(get<I>(t)) = get<I>(a0), get<1>(get<I>(t)) = double(I)), ...); (v::eq(get<I>(b), double(I), "assignment through tie"), ...);
}
template<typename... T> void zip() { zip_<T...>(std::make_index_sequence<sizeof...(T)>()); }
CONTRACT(zip_1) { zip<int>(); } CONTRACT(zip_4) { zip<double, int, char, double>(); }
CONTRACT(to_array) {
  double a = v::real("a"), b = v::real("b"), c = v::real("c"); auto r = ru::to_array(std::make_tuple(a, b, c)); static_assert(r.size() == 3, ""); v::eq(r[0], a, "to_array 0"); v::eq(r[1], b, "to_array 1"); v::eq(r[2], c, "to_array 2");
  int i = v::i32("i"), j = v::i32("j"); const auto t = std::make_tuple(i, j); auto q = ru::to_array(t); static_assert(q.size() == 2, ""); v::ensure(q[0] == i && q[1] == j, "to_array int"); auto o = ru::to_array(std::make_tuple(i)); v::ensure(o[0] == i, "to_array one");
}
template<size_t N> void sfor() { size_t k = 0; bool ok = true; ru::static_for<N>([&](auto i) { ok = ok && size_t(i) == k; ++k; }); v::ensure(k == N && ok, "static_for calls with 0..N-1 in order"); struct { size_t n = 0, s = 0; void operator()(size_t i) { s = s * 3 + i; ++n; } } g; ru::static_for<N>(g); size_t s = 0; for (size_t i = 0; i < N; ++i) s = s * 3 + i; v::ensure(g.n == N && g.s == s, "a named callable keeps what it gathers"); auto f = [&](size_t i) { k -= i; }; k = N * N; ru::static_for<N>(f); v::ensure(k == N * N - (N ? N * (N - 1) / 2 : 0), "static_for with a named callable"); }
CONTRACT(static_for) { sfor<0>(); sfor<1>(); sfor<2>(); sfor<7>(); sfor<20>(); }
CONTRACT(helpers) {
  size_t a = v::range("a", 0, 60000), b = v::range("b", 0, 60000), c = v::range("c", 0, 60000), d = v::range("d", 0, 60000); double x = v::real("x"), y = v::real("y");
  v::ensure(ru::multiply(a) == a && ru::multiply(a, b) == a * b && ru::multiply(a, b, c) == a * b * c && ru::multiply(a, b, c, d) == a * b * c * d, "multiply"); v::eq(ru::multiply(x, y), x * y, "multiply real"); v::ensure(ru::multiply() == 1, "empty product");
  auto m = ru::make_array<double, 4>(x); for (auto e : m) v::eq(e, x, "make_array"); auto f = ru::fill<5>::apply(y); static_assert(f.size() == 5, ""); for (auto e : f) v::eq(e, y, "fill"); auto g = ru::fill<1>::apply(a); v::ensure(g.size() == 1 && g[0] == a, "fill 1");
  auto t = ru::ctie(x, y, a); v::ensure(&get<0>(t) == &x && &get<1>(t) == &y && &get<2>(t) == &a, "ctie refers to its arguments");
  v::ensure(&ru::as_lvalue(x) == &x, "as_lvalue");
  v::ensure(std::numeric_limits<ru::select_counter_t<10>>::max() >= 10 && std::numeric_limits<ru::select_counter_t<255>>::max() >= 255 && std::numeric_limits<ru::select_counter_t<256>>::max() >= 256 && std::numeric_limits<ru::select_counter_t<70000>>::max() >= 70000 && size_t(std::numeric_limits<ru::select_counter_t<(size_t(1) << 40)>>::max()) >= (size_t(1) << 40), "the counter type can count that far");
  static_assert(std::is_same<ru::reference_wrapper_t<std::tuple<int, double>>, std::tuple<int &, double &>>::value, "");
}
