// U02: array_ref, const_string, trivial_string denote exactly the range they were made from
#include "stl.h"
#include "v.h"
#include "libc.h"
#include <array>
#include <cassert>
#include <iterator>
#include <stdexcept>
#include <string>
#include <vector>
#include <ristra/utils/array_ref.h>
#include <ristra/utils/const_string.h>
#include <ristra/utils/trivial_string.h>
namespace ru = ristra::utils; using std::size_t;
template<typename T> using ar = ru::array_ref<T>;
static const size_t B = 6;
// the reference r denotes the n elements from p on
template<typename T> void is(const ar<T> & r, const T * p, size_t n, const char * m) {
  v::ensure(r.size() == n && r.empty() == (n == 0), m); v::ensure(r.data() == p && r.begin() == p && r.end() == p + n && r.cbegin() == p && r.cend() == p + n, m);
}
template<typename T> void fill(T * b) { for (size_t i = 0; i < B; ++i) b[i] = v::any<T>("b"); }
// sizes of the windows are symbolic: any subrange [o, o+n) of the buffer
template<typename T> struct W { T b[B], c[B]; size_t o, n; ar<T> r;
  W() { fill(b); for (size_t i = 0; i < B; ++i) c[i] = b[i]; o = v::range("o", 0, B); n = v::range("n", 0, B); v::assume(o + n <= B); r = ar<T>(b + o, n); is(r, (const T *)b + o, n, "constructed from pointer and length"); }
  void same() { for (size_t i = 0; i < B; ++i) v::eq(b[i], c[i], "the referenced elements are unchanged"); } };
template<typename T> void access() {
  W<T> w; size_t k = v::any<uint64_t>("k"); bool t = false;
  try { const T & x = w.r.at(k); v::ensure(&x == w.b + w.o + k, "at refers to the element"); } catch (const std::out_of_range &) { t = true; }
  v::ensure(t == (k >= w.n), "at throws exactly when out of range");
  if (k < w.n) v::ensure(&w.r[k] == w.b + w.o + k, "operator[]");
  if (w.n) v::ensure(&w.r.front() == w.b + w.o && &w.r.back() == w.b + w.o + w.n - 1, "front and back");
  w.same();
}
template<typename T> void sub() {
  W<T> w; size_t p = v::any<uint64_t>("pos"), n = v::any<uint64_t>("n"); const T * d = w.b + w.o;
  size_t q = p < w.n ? p : w.n, l = w.n - q; if (n < l) l = n;
  is(w.r.substr(p, n), d + q, l, "substr is the part of [pos,pos+n) inside the reference");
  is(w.r.substr(p), d + q, w.n - q, "substr without a length runs to the end");
  is(w.r, d, w.n, "substr leaves the reference"); w.same();
}
template<typename T> void mut() {
  int f = v::choose("op", 0, 5); W<T> w; const T * d = w.b + w.o; size_t n = v::any<uint64_t>("n"); v::assume(n <= w.n); ar<T> c(w.r);
  if (f == 0) { w.r.remove_prefix(n); is(w.r, d + n, w.n - n, "remove_prefix"); }
  else if (f == 1) { w.r.remove_suffix(n); is(w.r, d, w.n - n, "remove_suffix"); }
  else if (f == 2) { v::assume(w.n > 0); w.r.pop_back(); is(w.r, d, w.n - 1, "pop_back"); }
  else if (f == 3) { v::assume(w.n > 0); w.r.pop_front(); is(w.r, d + 1, w.n - 1, "pop_front"); }
  else if (f == 4) { w.r.clear(); is(w.r, (const T *)nullptr, 0, "clear"); is(ar<T>(), (const T *)nullptr, 0, "default constructor"); }
  else { ar<T> e; e = w.r; is(e, d, w.n, "assignment"); is(w.r, d, w.n, "source of an assignment"); }
  is(c, d, w.n, "a copy is independent"); w.same();
}
template<typename T> void rev() {
  T b[B], c[B]; fill(b); size_t n = v::choose("n", 0, B); ar<T> r(b, n); size_t i = n;
  for (auto it = r.rbegin(); it != r.rend(); ++it) v::ensure(&*it == &b[--i], "reverse iteration"); v::ensure(i == 0, "reverse iteration visits all"); v::ensure(r.crend() - r.crbegin() == (long)n, "reverse range");
  i = 0; for (auto & x : r) v::ensure(&x == &b[i++], "iteration"); v::ensure(i == n, "iteration visits all"); (void)c;
}
template<typename T> void conv() {
  T b[3]; for (auto & x : b) x = v::any<T>("b"); const std::array<T, 3> a{{b[0], b[1], b[2]}};
  is(ar<T>(b), (const T *)b, 3, "from a C array"); is(ar<T>(a), a.data(), 3, "from std::array"); is(ru::make_array_ref(b), (const T *)b, 3, "make_array_ref of a C array"); is(ru::make_array_ref(a), a.data(), 3, "make_array_ref of std::array");
  size_t n = v::choose("n", 0, 3); is(ru::make_array_ref((const T *)b, n), (const T *)b, n, "make_array_ref of pointer and length");
  std::vector<T> s(b, b + n); is(ar<T>(s), (const T *)s.data(), n, "from std::vector"); is(ru::make_array_ref(s), (const T *)s.data(), n, "make_array_ref of std::vector");
  std::vector<T> u = ar<T>(b, n).vec(), w(ar<T>(b, n)); v::ensure(u.size() == n && w.size() == n, "vec has the length");
  for (size_t i = 0; i < n; ++i) { v::eq(u[i], b[i], "vec holds the elements"); v::eq(w[i], b[i], "conversion to vector holds the elements"); v::eq(s[i], b[i], "source vector unchanged"); }
}
#define AR(n, T) CONTRACT(access_##n) { access<T>(); } CONTRACT(substr_##n) { sub<T>(); } CONTRACT(mut_##n) { mut<T>(); } CONTRACT(rev_##n) { rev<T>(); } CONTRACT(conv_##n) { conv<T>(); }
AR(c, char) AR(i, int) AR(d, double)
CONTRACT(array_ref_string) {
  size_t n = v::choose("n", 0, 5); char b[5]; for (auto & x : b) x = v::i8("c"); std::string s(b, n);
  is(ar<char>(s), s.data(), n, "from std::string"); std::string t = ar<char>(b, n).str();
  v::ensure(t.size() == n, "str has the length"); for (size_t i = 0; i < n; ++i) v::ensure(t[i] == b[i], "str holds the characters");
}
template<size_t N> void cstr() {
  char b[N]; for (auto & x : b) x = v::i8("c"); const char (&r)[N] = b; ru::const_string s(r); size_t k = v::any<uint64_t>("k"); bool t = false;
  v::ensure(s.size() == N - 1, "const_string size excludes the terminator"); v::ensure(s.c_str() == b, "const_string c_str");
  try { char c = s[k]; v::ensure(c == b[k], "const_string operator[]"); } catch (const std::out_of_range &) { t = true; }
  v::ensure(t == (k >= N - 1), "const_string operator[] throws exactly when out of range");
}
CONTRACT(const_string_1) { cstr<1>(); } CONTRACT(const_string_5) { cstr<5>(); }
template<size_t N> void triv(size_t L) {
  v::bounded("std::string length up to the stated value");
  size_t n = v::choose("n", 0, L); std::string s; for (size_t i = 0; i < n; ++i) { char c = v::i8("c"); v::assume(c != 0); s.push_back(c); } const std::string s0(s);
  auto t = ru::to_trivial_string<N>(s); size_t m = n < N ? n : N - 1; const auto & c = t;
  v::ensure(t.size() == N, "trivial_string size"); for (size_t i = 0; i < m; ++i) v::ensure(t[i] == s0[i] && c[i] == s0[i] && c.data()[i] == s0[i], "characters kept"); v::ensure(t[m] == 0 && c.c_str()[m] == 0, "null terminated");
  std::string u = t.str(); v::ensure(u.size() == m, "str() returns what was stored"); for (size_t i = 0; i < m; ++i) v::ensure(u[i] == s0[i], "str() returns what was stored");
  v::ensure(s == s0, "source string unchanged");
  size_t k = v::any<uint64_t>("k"); v::assume(k < N); v::ensure(&t[k] == t.data() + k && &c[k] == c.data() + k, "operator[] refers to the character"); 
  auto x = t; for (size_t i = 0; i <= m; ++i) v::ensure(x[i] == t[i], "copy");
}
CONTRACT(trivial_1) { triv<1>(3); } CONTRACT(trivial_4) { triv<4>(7); } CONTRACT(trivial_20) { triv<20>(5); }
