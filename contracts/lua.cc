// L01: values cross the Lua boundary unchanged, failures throw, and the Lua stack is left as found
#include "stl.h"
#include "v.h"
#include "libc.h"
#include "rbtree.h"
#include "luamodel.h"
#include <ristra/embedded/embed_lua.h>
#include <ristra/math/vector.h>
#include <array>
#include <cmath>
#include <functional>
#include <vector>
namespace le = ristra::embedded; using std::size_t; using std::string;
// an arbitrary Lua value
struct W { int k; long i; double d; bool b; };
enum { NIL, BOOL, INT, DBL, NUMSTR, STR, TAB, FUN, NULSTR, EMPTY, FRACSTR };
static const char raw_nul[] = {'a', 0, 'b'};
static int nop(lua_State *) { return 0; }
static void put(lua_State * s, const W & w) {
  switch (w.k) { case NIL: lua_pushnil(s); break; case BOOL: lua_pushboolean(s, w.b); break; case INT: lua_pushinteger(s, w.i); break; case DBL: lua_pushnumber(s, w.d); break; case NUMSTR: lua_pushstring(s, "12"); break; case STR: lua_pushstring(s, "ab"); break;
    case TAB: lua_newtable(s); lua_pushinteger(s, 7); lua_rawseti(s, -2, 1); lua_pushinteger(s, 8); lua_rawseti(s, -2, 2); break; case FUN: lua_pushcfunction(s, nop); break; case NULSTR: lua_pushlstring(s, raw_nul, 3); break; case EMPTY: lua_pushstring(s, ""); break; default: lua_pushstring(s, "-2.5"); } }
static W any(const char * n, int lo = 0, int hi = 10) { W w{int(v::choose(n, lo, hi)), 0, 0, false}; if (w.k == BOOL) w.b = v::boolean("b"); if (w.k == INT) w.i = long(v::range("i", -(1l << 53), 1l << 53)); if (w.k == DBL) { w.d = v::real("d"); v::assume(w.d > -1e15 && w.d < 1e15); } return w; }
// what it converts to: does it, and what
template<class T> struct conv;
template<class T> struct num_conv { static bool whole(double d, long & k) { k = long(d); return double(k) == d; } static bool fits(long k) { return T(k) == k && (std::is_signed<T>::value || k >= 0); } };
#define INTCONV(T) template<> struct conv<T> { static bool ok(const W & w, T & r) { long k = 0; switch (w.k) { case INT: k = w.i; break; case DBL: if (!num_conv<T>::whole(w.d, k)) return false; break; case NUMSTR: k = 12; break; default: return false; } v::assume(num_conv<T>::fits(k)); r = T(k); return true; } };
INTCONV(int) INTCONV(long) INTCONV(size_t) INTCONV(unsigned) INTCONV(short)
#define FLTCONV(T) template<> struct conv<T> { static bool ok(const W & w, T & r) { switch (w.k) { case INT: r = T(w.i); return true; case DBL: r = T(w.d); return true; case NUMSTR: r = 12; return true; case FRACSTR: r = T(-2.5); return true; } return false; } };
FLTCONV(double) FLTCONV(float)
template<> struct conv<bool> { static bool ok(const W & w, bool & r) { r = w.b; return w.k == BOOL; } };
template<> struct conv<string> { static bool ok(const W & w, string & r) { switch (w.k) { case NUMSTR: r = "12"; return true; case STR: r = "ab"; return true; case NULSTR: r.assign(raw_nul, 3); return true; case EMPTY: r = ""; return true; case FRACSTR: r = "-2.5"; return true; case INT: r = w.i < 0 ? "-3" : w.i == 0 ? "0" : "417"; return true; } return false; } };
template<class T> void same(const T & a, const T & b, const char * m) { if constexpr (std::is_arithmetic<T>::value) v::eq(a, b, m); else v::ensure(a == b, m); }
// the stack holds 11, 22, ... up to n again
static void marks(lua_State * s, int n) { for (int i = 1; i <= n; ++i) lua_pushinteger(s, 11 * i); }
static void intact(lua_State * s, int n, const char * m) { v::ensure(lua_gettop(s) == n, m); for (int i = 1; i <= n; ++i) v::ensure(lua_isinteger(s, i) && lua_tointeger(s, i) == 11 * i, m); }
template<class T> W for_text() { W w = any("kind"); if (std::is_same<T, string>::value) { v::assume(w.k != DBL); if (w.k == INT) { static const long t[3] = {-3, 0, 417}; w.i = t[v::choose("text", 0, 2)]; } } return w; }
const char * const kept = "the stack is as it was"; const char * const exact = "the value arrives unchanged"; const char * const only = "converts exactly when the Lua value can be";
// a row of the stack, wherever it is
template<class T> void row() { le::lua_t l(false); auto s = l.state(); W w = for_text<T>(); int below = int(v::choose("below", 0, 1)), above = int(v::choose("above", 0, 1)); T want{}; bool can = conv<T>::ok(w, want), got = true; T r{};
  marks(s, below); put(s, w); for (int i = 1; i <= above; ++i) lua_pushinteger(s, 11 * (below + i)); bool neg = v::boolean("negative");
  try { r = above == 0 && neg ? le::lua_value<T>::get(s) : le::lua_value<T>::get(s, neg ? -1 - above : below + 1); } catch (const std::runtime_error &) { got = false; }
  v::ensure(got == can, only); if (got) { same(r, want, exact); intact(s, below + above, "the row is removed and the others stay"); } }
// a global
template<class T> void global() { le::lua_t l(false); auto s = l.state(); W w = for_text<T>(); T want{}; bool can = conv<T>::ok(w, want), got = true; T r{}; put(s, w); lua_setglobal(s, "x"); marks(s, 2);
  auto x = l["x"]; intact(s, 2, kept); v::ensure(x.empty() == (w.k == NIL) && x.name() == "x", "empty exactly for nil"); v::ensure(x.size() == (w.k == TAB || w.k == NUMSTR || w.k == STR ? 2u : w.k == NULSTR ? 3u : w.k == FRACSTR ? 4u : 0u), "size of the table or string");
  try { r = x.template as<T>(); } catch (const std::runtime_error &) { got = false; } v::ensure(got == can, only); if (got) same(r, want, exact); intact(s, 2, kept);
  T dflt{}, q{}; got = true; try { q = x.template as<T>(dflt); } catch (const std::runtime_error &) { got = false; } v::ensure(got == (can || w.k == NIL), "nil gives the default"); if (got) same(q, can ? want : dflt, exact); intact(s, 2, kept); }
#define SCALAR(n, T) CONTRACT(row_##n) { row<T>(); } CONTRACT(global_##n) { global<T>(); }
SCALAR(int, int) SCALAR(long, long) SCALAR(size, size_t) SCALAR(unsigned, unsigned) SCALAR(short, short) SCALAR(double, double) SCALAR(float, float) SCALAR(bool, bool) SCALAR(string, string)
// sequences
template<class T> struct seq { int n; bool table; W w[3]; bool all; T x[3]; };
template<class T> seq<T> sequence(lua_State * s, int lo, int hi, int nlo, int nhi) { seq<T> q; q.table = v::choose("table", 0, 3) != 0; v::bounded("tables of up to three elements"); q.n = int(v::choose("n", nlo, nhi)); q.all = q.table; int odd = q.n ? int(v::choose("odd", 0, q.n - 1)) : 0; for (int i = 0; i < q.n; ++i) { q.w[i] = i == odd ? any("elem", lo, hi) : std::is_same<T, string>::value ? W{i ? STR : FRACSTR, 0, 0, false} : W{INT, v::i32("e"), 0, false}; q.x[i] = T(); if (!conv<T>::ok(q.w[i], q.x[i])) q.all = false; }
  if (!q.table) { put(s, any("kind", 0, 5)); return q; } lua_newtable(s); for (int i = 0; i < q.n; ++i) { put(s, q.w[i]); lua_rawseti(s, -2, i + 1); } return q; }
template<class V, class T> void container(bool fixed, int lo, int hi) { le::lua_t l(false); auto s = l.state(); int below = int(v::choose("below", 0, 1)), above = int(v::choose("above", 0, 1)); marks(s, below); auto q = sequence<T>(s, lo, hi, fixed, fixed ? 3 : 2); bool can = q.all && (!fixed || q.n == 2), got = true; V r{};
  bool glob = v::boolean("global"); if (glob) { v::assume(above == 0); lua_setglobal(s, "x"); } else for (int i = 1; i <= above; ++i) lua_pushinteger(s, 11 * (below + i));
  try { if (glob) r = l["x"].template as<V>(); else r = v::boolean("negative") ? le::lua_value<V>::get(s, -1 - above) : le::lua_value<V>::get(s, below + 1); } catch (const std::runtime_error &) { got = false; }
  v::ensure(got == can, "converts exactly when it is a table of convertible elements, of the right size where that is fixed"); if (got) { if (!fixed) v::ensure(r.size() == size_t(q.n), "all elements"); for (int i = 0; i < q.n; ++i) same<T>(r[i], q.x[i], exact); } if (got || glob) intact(s, below + above, kept); }
CONTRACT(vector_int) { container<std::vector<int>, int>(false, BOOL, INT); } CONTRACT(vector_double) { container<std::vector<double>, double>(false, INT, STR); } CONTRACT(vector_string) { container<std::vector<string>, string>(false, NUMSTR, TAB); }
CONTRACT(array_int) { container<std::array<int, 2>, int>(true, BOOL, INT); } CONTRACT(array_double) { container<std::array<double, 2>, double>(true, INT, STR); } CONTRACT(math_vector) { container<ristra::math::vector<double, 2>, double>(true, BOOL, INT); }
CONTRACT(nested) { v::bounded("tables of up to two elements"); le::lua_t l(false); auto s = l.state(); marks(s, 1); int n = int(v::choose("n", 0, 2)), m[2], x[2][2]; bool good = true; lua_newtable(s); for (int i = 0; i < n; ++i) { if (v::boolean("scalar")) { lua_pushinteger(s, 5); good = false; } else { m[i] = int(v::choose("m", 0, 2)); lua_newtable(s); for (int j = 0; j < m[i]; ++j) { x[i][j] = v::i32("x"); lua_pushinteger(s, x[i][j]); lua_rawseti(s, -2, j + 1); } } lua_rawseti(s, -2, i + 1); }
  lua_setglobal(s, "x"); std::vector<std::vector<int>> r; bool got = true; try { r = l["x"].as<std::vector<std::vector<int>>>(); } catch (const std::runtime_error &) { got = false; } v::ensure(got == good, only); intact(s, 1, kept); if (got) { v::ensure(r.size() == size_t(n), "all rows"); for (int i = 0; i < n; ++i) { v::ensure(r[i].size() == size_t(m[i]), "all elements"); for (int j = 0; j < m[i]; ++j) v::ensure(r[i][j] == x[i][j], exact); } } }
// any matrix template: ristra::math::matrix itself is accepted by gcc only (its dimensions are a pack)
template<class T, size_t M, size_t N> struct mat { T e[M * N]; T & operator()(size_t i, size_t j) { return e[i * N + j]; } };
CONTRACT(matrix) { using M = mat<double, 2, 2>; le::lua_t l(false); auto s = l.state(); int below = int(v::choose("below", 0, 1)), above = int(v::choose("above", 0, 1)); marks(s, below); int n = int(v::choose("n", 1, 3)); bool good = n == 2; double x[3][2]; lua_newtable(s);
  for (int i = 0; i < n; ++i) { int kind = int(v::choose("row", 0, 3)); if (kind == 0) { lua_pushinteger(s, 5); good = false; } else if (kind == 1) { lua_pushstring(s, "row"); good = false; } else { lua_newtable(s); for (int j = 0; j < kind - 1 + (kind == 3 ? 0 : 0); ++j) { x[i][j] = v::real("x"); lua_pushnumber(s, x[i][j]); lua_rawseti(s, -2, j + 1); } if (kind == 2) good = false; } lua_rawseti(s, -2, i + 1); }
  bool glob = v::boolean("global"), got = true; M r; if (glob) { v::assume(above == 0); lua_setglobal(s, "x"); } else for (int i = 1; i <= above; ++i) lua_pushinteger(s, 11 * (below + i));
  try { r = glob ? l["x"].as<M>() : v::boolean("negative") ? le::lua_value<M>::get(s, -1 - above) : le::lua_value<M>::get(s, below + 1); } catch (const std::runtime_error &) { got = false; }
  v::ensure(got == good, "converts exactly when it is a table of two tables of numbers"); if (got) for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) v::eq(r(i, j), x[i][j], exact); if (got || glob) intact(s, below + above, kept); }
// what C++ pushes, C++ gets back
template<class T> void trip(const T & x) { le::lua_t l(false); auto s = l.state(); marks(s, 1); v::ensure(le::lua_push(s, x) == 1 && lua_gettop(s) == 2, "pushes one value"); T r = le::lua_value<T>::get(s); same(r, x, "what is pushed comes back"); intact(s, 1, kept); }
CONTRACT(trip_int) { trip<int>(v::i32("x")); } CONTRACT(trip_size) { long x = long(v::i64("x")); v::assume(x >= 0); trip<size_t>(size_t(x)); } CONTRACT(trip_ll) { trip<long long>(v::i64("x")); } CONTRACT(trip_double) { trip<double>(v::real("x")); } CONTRACT(trip_float) { trip<float>(float(v::real("x"))); } CONTRACT(trip_bool) { trip<bool>(v::boolean("x")); }
CONTRACT(trip_string) { v::bounded("strings of up to three characters"); string x; size_t n = v::choose("n", 0, 3); for (size_t i = 0; i < n; ++i) x.push_back(char(v::i8("c"))); trip<string>(x); } CONTRACT(trip_chars) { le::lua_t l(false); v::ensure(le::lua_push(l.state(), "text") == 1 && le::lua_value<string>::get(l.state()) == "text", "what is pushed comes back"); }
CONTRACT(trip_array) { le::lua_t l(false); auto s = l.state(); std::array<double, 3> a{{v::real("x"), v::real("y"), v::real("z")}}; marks(s, 1); v::ensure(le::lua_push(s, a) == 3 && lua_gettop(s) == 4, "pushes each element"); for (int i = 3; i-- > 0;) v::eq(le::lua_value<double>::get(s), a[i], exact); intact(s, 1, kept); }
// a push needs no more than the one slot its caller has checked for, and a call no more than it asks for
static void room(lua_State * s, int k) {
#ifndef V_NATIVE
  lm::S(s)->lim = lm::S(s)->top + k;
#else
  (void)s; (void)k;
#endif
}
CONTRACT(room_push) { le::lua_t l(false); auto s = l.state(); marks(s, 3); room(s, 1); std::array<double, 9> a{}; a[8] = v::real("x"); ristra::math::vector<double, 7> m(v::real("y")); size_t n = 1; switch (v::choose("type", 0, 7)) { case 0: le::lua_push(s, 1); break; case 1: le::lua_push(s, size_t(1)); break; case 2: le::lua_push(s, 1ll); break; case 3: le::lua_push(s, 1.5); break; case 4: le::lua_push(s, true); break; case 5: le::lua_push(s, string("s")); break; case 6: n = le::lua_push(s, a); break; default: n = le::lua_push(s, m); } v::ensure(lua_gettop(s) == 3 + int(n), "counts what it pushes"); }
// tables
CONTRACT(fields) { le::lua_t l(false); auto s = l.state(); lua_newtable(s); long x = v::i32("x"), y = v::i32("y"); lua_pushinteger(s, x); lua_setfield(s, -2, "a"); lua_pushinteger(s, y); lua_rawseti(s, -2, 5); lua_newtable(s); lua_pushinteger(s, 3); lua_rawseti(s, -2, 1); lua_setfield(s, -2, "t"); lua_setglobal(s, "tab"); marks(s, int(v::choose("marks", 0, 2))); int n = lua_gettop(s);
  auto t = l["tab"]; int op = int(v::choose("op", 0, 3)); if (op == 0) { auto r = t["a"]; v::ensure(!r.empty() && r.name() == "tab.[\"a\"]", "found"); v::ensure(r.as<long>() == x, exact); } else if (op == 1) { auto r = t[5]; v::ensure(!r.empty() && r.name() == "tab[5]" && r.as<long>() == y, exact); }
  else if (op == 2) { auto r = t["missing"]; v::ensure(r.empty() && r.size() == 0, "missing is empty"); } else { auto r = t["t"]; v::ensure(r.size() == 1 && r[1].as<int>() == 3 && r[2].empty(), "tables in tables"); }
  intact(s, n, kept); }
CONTRACT(index) { le::lua_t l(false); auto s = l.state(); lua_newtable(s); long y = v::i32("y"); lua_pushinteger(s, y); lua_rawseti(s, -2, 5); lua_setglobal(s, "t"); v::bounded("indices: eight values, among them the extremes"); static const int ks[8] = {-2147483647 - 1, -1, 0, 1, 4, 5, 6, 2147483647}; int k = ks[v::choose("k", 0, 7)]; marks(s, 1); auto r = l["t"][k]; v::ensure(r.empty() == (k != 5), "empty exactly when there is no such element"); intact(s, 1, kept); if (k == 5) v::ensure(r.as<long>() == y, exact); }
CONTRACT(not_table) { le::lua_t l(false); auto s = l.state(); W w = any("kind"); v::assume(w.k != TAB); put(s, w); lua_setglobal(s, "x"); marks(s, int(v::choose("marks", 0, 2))); int n = lua_gettop(s); bool threw = false; try { if (v::boolean("key")) (void)l["x"]["a"]; else (void)l["x"][1]; } catch (const std::runtime_error &) { threw = true; } v::ensure(threw, "looking into something that is not a table throws"); intact(s, n, kept); }
CONTRACT(try_access) { le::lua_t l(false); auto s = l.state(); W w = any("kind", NIL, INT); put(s, w); lua_setglobal(s, "x"); bool threw = false, as = v::boolean("as"); int r = 0, want = 0; v::assume(w.k != INT || (w.i > -1000000 && w.i < 1000000)); bool can = as ? conv<int>::ok(w, want) : w.k != NIL; try { if (as) r = lua_try_access_as(l, "x", int); else { auto q = lua_try_access(l, "x"); (void)q; } } catch (const std::runtime_error &) { threw = true; } v::ensure(threw != can, "throws exactly when it does not exist or does not convert"); if (can && as) v::ensure(r == want, exact); intact(s, 0, kept); }
// calls: the function notes its arguments and gives the configured results
static struct { int calls, n, t[6]; lua_Integer i[6]; double d[6]; bool b; string s; int nres; W res[3]; bool fail; } F;
static int noted(lua_State * s) { ++F.calls; F.n = lua_gettop(s); for (int k = 0; k < F.n && k < 6; ++k) { F.t[k] = lua_type(s, k + 1); F.i[k] = 0; F.d[k] = 0; if (F.t[k] == LUA_TNUMBER) { F.i[k] = lua_isinteger(s, k + 1) ? lua_tointeger(s, k + 1) : 0; F.d[k] = lua_tonumber(s, k + 1); } if (F.t[k] == LUA_TBOOLEAN) F.b = lua_toboolean(s, k + 1); if (F.t[k] == LUA_TSTRING) { size_t n; const char * c = lua_tolstring(s, k + 1, &n); F.s.assign(c, n); } } if (F.fail) { lua_pushstring(s, "failed"); return lua_error(s); } for (int k = 0; k < F.nres; ++k) put(s, F.res[k]); return F.nres; }
static void func(lua_State * s) { F.calls = F.n = 0; F.fail = false; F.nres = 1; F.res[0] = W{INT, 1, 0, false}; lua_pushcfunction(s, noted); lua_setglobal(s, "f"); }
CONTRACT(call_args) { le::lua_t l(false); auto s = l.state(); func(s); marks(s, int(v::choose("marks", 0, 1))); int m = lua_gettop(s); int i = v::i32("i"); double d = v::real("d"); bool b = v::boolean("b"); std::array<double, 2> a{{v::real("x"), v::real("y")}}; int op = int(v::choose("op", 0, 3));
  if (op == 0) { l["f"](); v::ensure(F.n == 0, "no arguments"); } else if (op == 1) { l["f"](i, d, b, string("st")); v::ensure(F.n == 4 && F.i[0] == i && F.t[2] == LUA_TBOOLEAN && F.b == b && F.t[3] == LUA_TSTRING && F.s == "st", "arguments arrive in order"); v::eq(F.d[1], d, exact); }
  else if (op == 2) { l["f"](a, i); v::ensure(F.n == 3 && F.i[2] == i, "an array is one argument per element"); v::eq(F.d[0], a[0], exact); v::eq(F.d[1], a[1], exact); } else { l["f"]("lit", size_t(7), 8ll); v::ensure(F.n == 3 && F.s == "lit" && F.i[1] == 7 && F.i[2] == 8, "arguments arrive in order"); }
  v::ensure(F.calls == 1, "called once"); intact(s, m, kept); }
CONTRACT(call_results) { le::lua_t l(false); auto s = l.state(); func(s); F.nres = int(v::choose("results", 0, 3)); for (int k = 0; k < F.nres; ++k) F.res[k] = any("res", NIL, DBL); bool fail = F.fail = v::boolean("fails"); marks(s, int(v::choose("marks", 0, 1))); int m = lua_gettop(s); bool nilres = F.nres == 0 || F.res[F.nres - 1].k == NIL;
  bool threw = false, got = true, can; try { auto r = l["f"](); intact(s, m, kept); v::ensure(r.size() == size_t(F.nres) && !r.empty(), "as many results as returned"); int want_n = int(v::choose("wanted", 1, 3)); can = F.nres == want_n;
    try { if (want_n == 1) { double d = 0, x = r.as<double>(); can = can && conv<double>::ok(F.res[0], d); if (can) v::eq(x, d, exact); } else if (want_n == 2) { double d = 0, e = 0; can = can && conv<double>::ok(F.res[0], d) && conv<double>::ok(F.res[1], e); auto t = r.as<double, double>(); if (can) { v::eq(std::get<0>(t), d, "results keep their order"); v::eq(std::get<1>(t), e, "results keep their order"); } }
      else { double d = 0, e = 0; bool b = false; can = can && conv<double>::ok(F.res[0], d) && conv<bool>::ok(F.res[1], b) && conv<double>::ok(F.res[2], e); auto t = r.as<std::tuple<double, bool, double>>(); if (can) { v::eq(std::get<0>(t), d, "results keep their order"); v::ensure(std::get<1>(t) == b, "results keep their order"); v::eq(std::get<2>(t), e, "results keep their order"); } } } catch (const std::runtime_error &) { got = false; if (want_n == 1) { double d; can = can && conv<double>::ok(F.res[0], d); } }
    v::ensure(got == can, "converts exactly when number and kinds of the results fit"); intact(s, m, kept); } catch (const std::runtime_error &) { threw = true; }
  v::ensure(threw == (fail || nilres), "a call throws exactly when the function fails or gives nothing"); intact(s, m, kept); v::ensure(F.calls == 1, "called once"); }
CONTRACT(room_call) { le::lua_t l(false); auto s = l.state(); func(s); auto f = l["f"]; marks(s, 2); room(s, 2); std::array<double, 4> a{{1, 2, 3, v::real("x")}}; int i = v::i32("i"); F.nres = 3; F.res[0] = F.res[1] = F.res[2] = W{INT, 1, 0, false}; auto r = f(i, a, i); v::ensure(F.n == 6 && F.i[0] == i && F.i[5] == i, "arguments arrive in order"); v::eq(F.d[4], a[3], exact); room(s, 2); auto t = r.as<int, int, int>(); v::ensure(std::get<2>(t) == 1, exact); intact(s, 2, kept); }
CONTRACT(not_function) { le::lua_t l(false); auto s = l.state(); W w = any("kind"); v::assume(w.k != FUN); put(s, w); lua_setglobal(s, "x"); marks(s, int(v::choose("marks", 0, 2))); int n = lua_gettop(s); bool threw = false; try { l["x"](1); } catch (const std::runtime_error &) { threw = true; } v::ensure(threw, "calling something that is not a function throws"); intact(s, n, kept); }
// references and the state live as long as needed, and no longer
#ifdef V_NATIVE
static int live(lua_State * s) { int n = 0; lua_pushnil(s); while (lua_next(s, LUA_REGISTRYINDEX)) { if (lua_isinteger(s, -2) && lua_tointeger(s, -2) > 2 && !lua_isinteger(s, -1)) ++n; lua_pop(s, 1); } return n; }
#define STATES(n)
#else
static int live(lua_State * s) { return lm::S(s)->live; }
#define STATES(n) v::ensure(lm::states == n, "the state is closed when its last user goes, and not before")
#endif
CONTRACT(references) { le::lua_t l(false); auto s = l.state(); lua_pushstring(s, "old"); lua_setglobal(s, "x"); int n0 = live(s); { le::lua_result_t a = l["x"]; v::ensure(live(s) == n0 + 1, "one reference"); { le::lua_result_t b = a; lua_pushstring(s, "new"); lua_setglobal(s, "x"); v::ensure(live(s) == n0 + 1, "copies share it"); if (v::boolean("assign")) { b = l["x"]; v::ensure(b.as<string>() == "new", "refers to what it was assigned"); } else v::ensure(b.as<string>() == "old", "refers to the value it was made from"); } v::ensure(live(s) == n0 + 1 && a.as<string>() == "old", "refers to the value it was made from"); } v::ensure(live(s) == n0, "released with its last copy"); intact(s, 0, kept); }
CONTRACT(lifetime) { { std::unique_ptr<le::lua_result_t> keep; { le::lua_t l(false); STATES(1); lua_pushstring(l.state(), "value"); lua_setglobal(l.state(), "x"); keep = std::make_unique<le::lua_result_t>(l["x"]); if (v::boolean("top")) { le::lua_t m = keep->get_top(); v::ensure(m["x"].as<string>() == "value", "the top of a result is its state"); } } STATES(1); v::ensure(keep->as<string>() == "value", "a result keeps the state alive"); } STATES(0); }
CONTRACT(wrapper) { using fn = std::function<double(int, double)>; le::lua_t l(false); auto s = l.state(); func(s); F.res[0] = any("res", BOOL, DBL); double want = 0; bool can = conv<double>::ok(F.res[0], want), got = true; int i = v::i32("i"); double d = v::real("d"), r = 0; fn g; { le::lua_result_t f = l["f"]; if (v::boolean("pointer")) { le::Lua_Func_Wrapper<fn> w(std::make_unique<le::lua_result_t>(f)); g = w; } else { le::Lua_Func_Wrapper<fn> w(f); g = w; } }
  try { r = g(i, d); } catch (const std::runtime_error &) { got = false; } v::ensure(got == can, only); if (got) v::eq(r, want, exact); v::ensure(F.calls == 1 && F.n == 2 && F.i[0] == i, "arguments arrive"); v::eq(F.d[1], d, exact); intact(s, 0, kept); }
// scripts
static int sets(lua_State * s) { lua_pushinteger(s, 42); lua_setglobal(s, "x"); return 0; } static int fails(lua_State * s) { lua_pushstring(s, "no"); return lua_error(s); }
CONTRACT(scripts) { le::lua_t l(false); int k = int(v::choose("script", 0, 2)); static const char * const text[3] = {"x = 42", "error('no')", "x = = 1"}; bool threw = false, ret = true;
#ifndef V_NATIVE
  lm::chunk = k == 0 ? sets : k == 1 ? fails : 0;
#endif
  try { ret = v::boolean("call") ? l(text[k]) : l.run_string(text[k]); } catch (const std::runtime_error &) { threw = true; } v::ensure(threw == (k != 0), "a script that fails throws"); if (k == 0) v::ensure(!ret && l["x"].as<int>() == 42, "a script has its effect"); }
CONTRACT(dump) { le::lua_t l(false); auto s = l.state(); W w = any("kind", NIL, FUN); v::assume(w.k != INT && w.k != DBL); put(s, w); static const char * const t[] = {"other  >> nil", "", "", "", "string >> 12", "string >> ab", "other  >> table", "other  >> function"}; string want = w.k == BOOL ? w.b ? "bool   >> true" : "bool   >> false" : t[w.k]; std::stringstream o; o << l; v::ensure(l.get_row(1) == want && o.str() == "Row : Type   >> Value\n  1 : " + want + "\n", "the stack as text"); lua_settop(s, 0); std::stringstream e; l.dump_stack(e); v::ensure(e.str() == "(stack empty)\n", "the stack as text"); }
