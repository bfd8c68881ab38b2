// U05: zip, filter_iterator, simple_task
#include "v.h"
#include <array>
#include <cassert>
#include <functional>
#include <iterator>
#include <list>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <string>
#include <typeinfo>
#include <cxxabi.h>
#include <ristra/utils/zip.h>
#include <ristra/utils/tasks.h>
#include <ristra/utils/filter_iterator.h>
namespace ru = ristra::utils; using std::size_t; using std::get;
template<typename C> void put(C & c, size_t n) { using T = typename C::value_type; for (size_t i = 0; i < n; ++i) c.push_back(v::any<T>("x")); }
template<size_t L, typename A, typename B> void zip2() {
  v::bounded("container length up to the stated value"); size_t n = v::choose("n", 0, L); A a; B b; put(a, n); put(b, n); const A a0(a); const B b0(b);
  auto z = ru::zip(a, b);
  for (int pass = 0; pass < 2; ++pass) { size_t i = 0; auto p = a.begin(); auto q = b.begin(); for (auto e : z) { v::ensure(i < n, "zip stops at the end"); v::ensure(&get<0>(e) == &*p && &get<1>(e) == &*q, "zip pairs equal positions by reference"); ++p; ++q; ++i; } v::ensure(i == n, "zip visits every position once, each time"); }
  v::ensure(a == a0 && b == b0, "zip changes nothing");
  auto it = z.begin(); auto e = z.end(); v::ensure((it == e) == (n == 0) && (it != e) == (n != 0), "begin equals end exactly when empty");
  if (n) { auto o = it++; v::ensure(&get<0>(*o) == &*a.begin(), "post-increment yields the old position"); v::ensure((it != o) && !(it == o), "positions differ"); if (n > 1) v::ensure(&get<1>(*it) == &*std::next(b.begin()), "post-increment advances"); auto & w = ++o; v::ensure(&w == &o && o == it, "pre-increment"); }
  size_t k = 0; for (auto x : ru::zip(a, b)) { get<0>(x) = typename A::value_type(k); ++k; } k = 0; for (auto & x : a) v::eq(x, typename A::value_type(k++), "writes reach the container"); v::ensure(b == b0, "other container unchanged");
}
CONTRACT(zip_vv) { zip2<4, std::vector<int>, std::vector<double>>(); } CONTRACT(zip_vl) { zip2<4, std::vector<double>, std::list<int>>(); } CONTRACT(zip_ll) { zip2<3, std::list<int>, std::list<char>>(); }
CONTRACT(zip_1) { v::bounded("container length up to 4"); size_t n = v::choose("n", 0, 4), i = 0; std::vector<int> a; put(a, n); for (auto e : ru::zip(a)) { v::ensure(&get<0>(e) == &a[i], "single container"); ++i; } v::ensure(i == n, "single container visited once per element"); }
template<size_t L> void zip4() { size_t n = L, i = 0; std::vector<int> a; std::list<double> b; std::array<char, L> c; std::vector<short> d; put(a, n); put(b, n); put(d, n); for (auto & x : c) x = v::i8("c"); auto q = b.begin();
  for (auto e : ru::zip(a, b, c, d)) { v::ensure(i < n, "zip of four stops"); v::ensure(&get<0>(e) == &a[i] && &get<1>(e) == &*q && &get<2>(e) == &c[i] && &get<3>(e) == &d[i], "zip of four containers"); ++i; ++q; } v::ensure(i == n, "zip of four visits all"); }
CONTRACT(zip_4) { zip4<1>(); zip4<3>(); }
CONTRACT(task) {
  v::bounded("container length up to 4"); size_t n = v::choose("n", 0, 4), k = 0; std::vector<int> a; std::vector<double> b; std::list<double> c; put(a, n); put(b, n); put(c, n); const auto a0 = a; const auto b0 = b;
  auto f = [&](const int & x, const double & y, double & z) { v::ensure(k < n && &x == &a[k] && &y == &b[k], "task gets the elements of position k"); ++k; z = y * 2; };
  ru::simple_task(f, a, b, c); v::ensure(k == n, "task runs once per position"); size_t i = 0; for (auto & z : c) v::eq(z, 2 * b0[i++], "task writes its output"); v::ensure(a == a0 && b == b0, "inputs unchanged");
}
template<size_t L, typename C, typename P> void filt(P && pred) {
  v::bounded("range length up to the stated value"); size_t n = v::choose("n", 0, L); C c; put(c, n); const C c0(c);
  std::vector<const typename C::value_type *> m; for (auto & x : c) if (pred(x)) m.push_back(&x);
  auto b = ru::make_filter_iterator(c.begin(), c.end(), pred), e = ru::make_filter_iterator(c.end(), c.end(), pred); size_t i = 0;
  for (auto it = b; it != e; ++it, ++i) { v::ensure(i < m.size(), "no more than the matching elements"); v::ensure(&*it == m[i], "the matching elements in order"); }
  v::ensure(i == m.size(), "all matching elements"); v::ensure((b == e) == m.empty(), "begin equals end exactly when nothing matches"); v::ensure(b.end() == c.end(), "end of the underlying range");
  if (!m.empty()) { auto it = b; auto o = it++; v::ensure(&*o == m[0] && o == b, "post-increment yields the old position"); v::ensure(m.size() > 1 ? it != e && &*it == m[1] : it == e, "post-increment advances to the next match"); v::ensure(o.operator->() == m[0], "arrow"); o.swap(it); v::ensure(&*it == m[0], "swap"); auto & r = ++it; v::ensure(&r == &it && it == o, "pre-increment"); }
  v::ensure(c == c0, "filtering changes nothing");
}
CONTRACT(filter_vec) { filt<4, std::vector<int>>([](const int & x) { return x > 3; }); }
CONTRACT(filter_list) { filt<3, std::list<double>>([](const double & x) { return x < 0; }); }
CONTRACT(filter_state) { int lim = v::i32("lim"); filt<3, std::vector<int>>([lim](const int & x) { return x < lim; }); }
CONTRACT(filter_named) {
  v::bounded("range length 3"); int a[3] = {v::i32("a"), v::i32("a"), v::i32("a")}; auto pred = [](const int & x) { return x != 0; }; int * f = a, * l = a + 3; auto it = ru::make_filter_iterator(f, l, pred); using FI = decltype(it); FI e(pred, l, l); size_t n = 0, m = 0; for (int x : a) m += x != 0; for (; it != e; ++it) { v::ensure(*it != 0, "only matching"); ++n; } v::ensure(n == m, "count"); 
  ru::filter_iterator<decltype(pred), const int *> cc(FI(pred, f, l)); v::ensure(m ? cc.begin() == FI(pred, f, l).begin() : cc.begin() == l, "conversion keeps the position"); v::ensure(cc.end() == l, "conversion keeps the end"); v::ensure(cc.predicate()(0) == false, "conversion keeps the predicate");
}
