// U01: fixed_vector against the sequence model, from an arbitrary state, one operation at a time
#include "v.h"
#include <array>
#include <cassert>
#include <initializer_list>
#include <iterator>
#include <stdexcept>
#include <utility>
#include <ristra/utils/fixed_vector.h>
using std::size_t;
namespace ru = ristra::utils;
// an element type whose copies and moves run user code; a moved-from object loses its value
struct nt {
  int x = -7;
  nt() {} nt(int a) : x(a) {} nt(int a, int b) : x(a + b) {} nt(const nt & o) : x(o.x) {} nt(nt && o) : x(o.x) { o.x = -99; }
  nt & operator=(const nt & o) { x = o.x; return *this; } nt & operator=(nt && o) { if (this != &o) { x = o.x; o.x = -99; } return *this; }
  bool operator==(const nt & o) const { return x == o.x; }
};
static int val(const nt & a) { return a.x; }
static int val(int a) { return a; }
static double val(double a) { return a; }
static char val(char a) { return a; }
template<typename T> T mk(const char * n) { if constexpr (std::is_same<T, nt>::value) return nt(v::i32(n)); else return v::any<T>(n); }
// model: the sequence m[0..n)
template<typename T, size_t N> struct M {
  using FV = ru::fixed_vector<T, N>;
  T m[2 * N + 2]; size_t n = 0; FV f;
  M(size_t lo, size_t hi) { n = v::choose("len", lo, hi); for (size_t i = 0; i < n; ++i) m[i] = mk<T>("e"); f = FV(m, m + n); }
  void ins(size_t p, const T & x) { T y(x); for (size_t i = n; i > p; --i) m[i] = m[i - 1]; m[p] = y; ++n; }
  void era(size_t p) { for (size_t i = p + 1; i < n; ++i) m[i - 1] = m[i]; --n; }
  void check(const FV & f, const char * s) const {
    v::ensure(f.size() == n, s); v::ensure(f.empty() == (n == 0), s); v::ensure(f.end() - f.begin() == (long)n, s);
    for (size_t i = 0; i < n; ++i) v::eq(val(f[i]), val(m[i]), s);
  }
  void check(const char * s) const { check(f, s); }
};
template<typename T, size_t N> void access() {
  M<T, N> s(0, N); auto & f = s.f; const auto & c = f; s.check("range constructor");
  v::ensure(c.max_size() == N && c.capacity() == N, "capacity");
  v::ensure(f.data() == f.begin() && c.data() == c.begin() && c.cbegin() == c.begin() && c.cend() == c.end(), "data and iterators agree");
  if (s.n) { v::eq(val(c.front()), val(s.m[0]), "front"); v::eq(val(c.back()), val(s.m[s.n - 1]), "back"); v::ensure(&f.front() == &f[0] && &f.back() == &f[s.n - 1], "front/back refer to the elements"); }
  size_t i = 0; for (auto it = f.begin(); it != f.end(); ++it, ++i) v::ensure(&*it == &f[i], "iteration in order"); v::ensure(i == s.n, "iteration visits every element once");
  i = s.n; for (auto it = c.rbegin(); it != c.rend(); ++it) v::ensure(&*it == &c[--i], "reverse iteration in order"); v::ensure(i == 0, "reverse iteration visits every element once");
  v::ensure(c.crend() - c.crbegin() == (long)s.n, "reverse range length");
  s.check("access changes nothing");
}
template<typename T, size_t N> void at() {
  M<T, N> s(0, N); const auto & c = s.f; size_t k = v::any<uint64_t>("k"); bool t = false, u = false;
  try { const T & r = s.f.at(k); v::eq(val(r), val(s.m[k]), "at returns the element"); } catch (const std::out_of_range &) { t = true; }
  try { const T & r = c.at(k); v::eq(val(r), val(s.m[k]), "at returns the element"); } catch (const std::out_of_range &) { u = true; }
  v::ensure(t == (k >= s.n) && u == t, "at throws exactly when out of range");
}
template<typename T, size_t N> void insert() {
  int form = v::choose("form", 0, 5);
  M<T, N> s(0, N); size_t p = v::choose("pos", 0, s.n), a = 0; T x = mk<T>("x"), x0(x), y[3] = {mk<T>("y"), mk<T>("y"), mk<T>("y")}; typename M<T, N>::FV::iterator it;
  auto pos = s.f.cbegin() + p;
  if (form < 2) { v::assume(s.n < N); it = form == 0 ? s.f.insert(pos, x) : s.f.insert(pos, std::move(x)); s.ins(p, x0); a = 1; if (form == 0) v::eq(val(x), val(x0), "argument unchanged"); }
  else if (form == 2) { a = v::choose("count", 0, N - s.n); it = s.f.insert(pos, a, x); for (size_t i = 0; i < a; ++i) s.ins(p, x0); }
  else if (form == 3) { a = v::choose("count", 0, 3); v::assume(s.n + a <= N); it = s.f.insert(pos, y, y + a); for (size_t i = a; i > 0; --i) s.ins(p, y[i - 1]); }
  else { a = v::choose("count", 0, 2); v::assume(s.n + a <= N); it = a == 0 ? s.f.insert(pos, std::initializer_list<T>{}) : a == 1 ? s.f.insert(pos, {y[0]}) : s.f.insert(pos, {y[0], y[1]}); for (size_t i = a; i > 0; --i) s.ins(p, y[i - 1]); }
  v::ensure(it - s.f.begin() == (long)p, "insert returns the position of the first inserted element"); s.check("insert shifts the tail and keeps every element");
}
template<typename T, size_t N> void insert_own() {
  M<T, N> s(1, N - 1); size_t p = v::choose("pos", 0, s.n), k = v::choose("own", 0, s.n - 1); T x0(s.m[k]);
  if (v::boolean("many")) { size_t a = v::choose("count", 1, N - s.n); s.f.insert(s.f.cbegin() + p, a, s.f[k]); for (size_t i = 0; i < a; ++i) s.ins(p, x0); }
  else { s.f.insert(s.f.cbegin() + p, s.f[k]); s.ins(p, x0); }
  s.check("inserting one of the vector's own elements inserts its value");
}
template<typename T, size_t N> void erase() {
  M<T, N> s(0, N); 
  if (v::boolean("range")) { size_t a = v::choose("a", 0, s.n), b = v::choose("b", a, s.n); auto it = s.f.erase(s.f.cbegin() + a, s.f.cbegin() + b); for (size_t i = a; i < b; ++i) s.era(a); v::ensure(it - s.f.begin() == (long)a, "erase returns the position after the removed range"); }
  else { v::assume(s.n > 0); size_t a = v::choose("a", 0, s.n - 1); auto it = s.f.erase(s.f.cbegin() + a); s.era(a); v::ensure(it - s.f.begin() == (long)a, "erase returns the position after the removed element"); }
  s.check("erase removes exactly the given elements");
}
template<typename T, size_t N> void ends() {
  int form = v::choose("form", 0, 6); M<T, N> s(0, N); T x = mk<T>("x"), x0(x);
  if (form <= 2) { v::assume(s.n < N); if (form == 0) s.f.push_back(x); else if (form == 1) s.f.push_back(std::move(x)); else { T z(x); s.f.emplace_back(z); } s.m[s.n++] = x0; if (form == 0) v::eq(val(x), val(x0), "argument unchanged"); s.check("push_back/emplace_back append one element"); }
  else if (form == 3) { s.f.pop_back(); if (s.n) --s.n; s.check("pop_back removes the last element"); }
  else if (form == 4) { s.f.clear(); s.n = 0; s.check("clear empties"); }
  else if (form == 5) { size_t c = v::choose("c", 0, N); s.f.resize(c, x); for (size_t i = s.n; i < c; ++i) s.m[i] = x0; s.n = c; s.check("resize keeps the prefix and fills with the value"); }
  else { size_t c = v::choose("c", 0, N), k = c < s.n ? c : s.n; s.f.resize(c); v::ensure(s.f.size() == c, "resize sets the size"); for (size_t i = 0; i < k; ++i) v::eq(val(s.f[i]), val(s.m[i]), "resize keeps the prefix"); }
}
template<typename T, size_t N> void whole() {
  int form = v::choose("form", 0, 7); using FV = ru::fixed_vector<T, N>; M<T, N> s(0, N), t(0, N); T x = mk<T>("x"), y = mk<T>("y");
  if (form == 0) { FV c(s.f); s.check(c, "copy constructor"); s.check("source of a copy unchanged"); c = t.f; t.check(c, "copy assignment"); t.check("source of a copy unchanged"); FV & r = c; c = r; t.check(c, "self assignment"); }
  else if (form == 1) { FV c(std::move(s.f)); s.check(c, "move constructor"); c = std::move(t.f); t.check(c, "move assignment"); }
  else if (form == 2) { s.f.swap(t.f); s.check(t.f, "swap"); t.check(s.f, "swap"); t.f.swap(t.f); s.check(t.f, "self swap"); }
  else if (form == 3) { bool e = s.n == t.n; for (size_t i = 0; i < s.n && i < t.n; ++i) e = e && s.m[i] == t.m[i]; v::ensure((s.f == t.f) == e, "== compares lengths and elements"); v::ensure((t.f == s.f) == e, "== is symmetric"); v::ensure(s.f == s.f, "== is reflexive"); }
  else if (form == 4) { size_t c = v::choose("c", 0, N); s.f.assign(c, x); s.n = c; for (size_t i = 0; i < c; ++i) s.m[i] = x; s.check("assign(count, value)"); }
  else if (form == 5) { s.f.assign(t.m, t.m + t.n); t.check(s.f, "assign(first, last)"); s.f.assign({x, y}); v::ensure(s.f.size() == 2, "assign(list)"); v::eq(val(s.f[0]), val(x), "assign(list)"); v::eq(val(s.f[1]), val(y), "assign(list)"); }
  else if (form == 6) { size_t c = v::choose("c", 0, N); FV f(c, x); v::ensure(f.size() == c, "fill constructor"); for (auto & e : f) v::eq(val(e), val(x), "fill constructor"); FV g(c); v::ensure(g.size() == c, "size constructor"); FV h; v::ensure(h.empty(), "default constructor"); }
  else { FV f{x, y, x}; v::ensure(f.size() == 3, "list constructor"); v::eq(val(f[0]), val(x), "list constructor"); v::eq(val(f[1]), val(y), "list constructor"); v::eq(val(f[2]), val(x), "list constructor"); }
}
#define FV(n, T, N) CONTRACT(access_##n) { access<T, N>(); } CONTRACT(at_##n) { at<T, N>(); } CONTRACT(insert_##n) { insert<T, N>(); } CONTRACT(insert_own_##n) { insert_own<T, N>(); } \
  CONTRACT(erase_##n) { erase<T, N>(); } CONTRACT(ends_##n) { ends<T, N>(); } CONTRACT(whole_##n) { whole<T, N>(); }
FV(i3, int, 3) FV(nt4, nt, 4) FV(d5, double, 5)
CONTRACT(emplace_args) { ru::fixed_vector<nt, 2> f; int a = v::range("a", -1000, 1000), b = v::range("b", -1000, 1000); f.emplace_back(a, b); v::ensure(f.size() == 1 && f[0].x == a + b, "emplace_back constructs from its arguments"); }
#ifdef THOROUGH
FV(nt6, nt, 6) FV(c4, char, 4)
#endif
