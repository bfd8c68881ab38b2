// Assumed contract of the Lua 5.3 C API (Lua reference manual, section 4), as reference bodies the verifier uses in place
// of liblua; natively the real liblua runs. A state is a stack of tagged values in frames, tables with raw access, a
// registry of references and the globals. Lua functions are C functions; a chunk is the C function the contract installs
// (natively a script text). Breaking a precondition of the API (an index outside the stack, a push beyond the slots
// that a frame starts with or that were asked for, raw access to something that
// is not a table, too many pops) is a failed obligation. Not modelled: metatables, coroutines, userdata, garbage
// collection (a string keeps its address), the text of floating-point numbers.
#pragma once
extern "C" {
#include <lua.h>
#include <lualib.h>
#include <lauxlib.h>
}
#ifndef V_NATIVE
namespace lm {
struct LT;
struct LV { int t; bool isint, b; lua_Integer i; lua_Number d; const char * s; size_t n; LT * tab; lua_CFunction f; int nup; LV * up; };
struct LT { int n; LV k[10], v[10]; };
struct ST { LV st[48]; int base, top, lim, nref, live, room; LV ref[24]; LT glob; lua_CFunction cur; LV * curup; };
struct error { LV v; };
inline int states = 0, opened = 0; inline lua_CFunction chunk = 0;
inline ST * S(lua_State * L) { return (ST *)L; }
inline void need(bool c) { if (!c) __v_fail("precondition of the Lua API"); }
inline LV nil() { LV x; x.t = LUA_TNIL; x.isint = x.b = false; x.i = 0; x.d = 0; x.s = 0; x.n = 0; x.tab = 0; x.f = 0; x.nup = 0; x.up = 0; return x; }
inline LV & at(lua_State * L, int i) { ST * s = S(L); int k = i > 0 ? s->base + i - 1 : s->top + i; need(i > LUA_REGISTRYINDEX && i != 0 && k >= s->base && k < s->top); return s->st[k]; }
inline void push(lua_State * L, const LV & x) { ST * s = S(L); need(s->top < 48 && s->top < s->lim); s->st[s->top++] = x; }
inline LV pop(lua_State * L) { ST * s = S(L); need(s->top > s->base); return s->st[--s->top]; }
inline bool same(const LV & a, const LV & b) { if (a.t != b.t) return false; if (a.t == LUA_TSTRING) { if (a.n != b.n) return false; for (size_t i = 0; i < a.n; ++i) if (a.s[i] != b.s[i]) return false; return true; } need(a.t == LUA_TNUMBER && a.isint && b.isint); return a.i == b.i; }
inline LV get(LT * t, const LV & k) { for (int i = 0; i < t->n; ++i) if (same(t->k[i], k)) return t->v[i]; return nil(); }
inline void set(LT * t, const LV & k, const LV & x) { for (int i = 0; i < t->n; ++i) if (same(t->k[i], k)) { t->v[i] = x; return; } need(t->n < 10); t->k[t->n] = k; t->v[t->n] = x; ++t->n; }
inline LV str(const char * p, size_t n) { LV x = nil(); char * c = new char[n + 1]; for (size_t i = 0; i < n; ++i) c[i] = p[i]; c[n] = 0; x.t = LUA_TSTRING; x.s = c; x.n = n; return x; }
inline size_t len(const char * p) { size_t n = 0; while (p[n]) ++n; return n; }
inline LV integer(lua_Integer i) { LV x = nil(); x.t = LUA_TNUMBER; x.isint = true; x.i = i; return x; }
inline LV * upv(lua_State * L, int i) { return S(L)->curup + (LUA_REGISTRYINDEX - i - 1); }
inline LV val(lua_State * L, int i) { return i < LUA_REGISTRYINDEX ? *upv(L, i) : at(L, i); }
// text of a number, as lua_stringtonumber
inline bool num(const LV & x, LV & r) { if (x.t == LUA_TNUMBER) { r = x; return true; } if (x.t != LUA_TSTRING) return false; size_t i = 0; bool neg = false; if (i < x.n && x.s[i] == '-') { neg = true; ++i; } lua_Integer k = 0; size_t dg = 0; for (; i < x.n && x.s[i] >= '0' && x.s[i] <= '9'; ++i, ++dg) k = k * 10 + (x.s[i] - '0'); r = integer(neg ? -k : k); if (dg && i == x.n) return true; if (i >= x.n || x.s[i] != '.') return false; double d = double(k), f = 1; for (++i; i < x.n && x.s[i] >= '0' && x.s[i] <= '9'; ++i, ++dg) { f /= 10; d += (x.s[i] - '0') * f; } r.isint = false; r.d = neg ? -d : d; return dg && i == x.n; }
}
#define LUA_VM(r, n, ...) __attribute__((used)) inline r __vm_##n(__VA_ARGS__)
extern "C" {
LUA_VM(lua_State *, luaL_newstate) { lm::ST * s = new lm::ST; s->base = s->top = 0; s->lim = LUA_MINSTACK; s->nref = 0; s->live = 0; s->room = 48; s->glob.n = 0; s->curup = 0; ++lm::states; return (lua_State *)s; }
LUA_VM(void, lua_close, lua_State * L) { --lm::states; delete lm::S(L); }
LUA_VM(void, luaL_openlibs, lua_State *) { ++lm::opened; }
LUA_VM(int, lua_gettop, lua_State * L) { return lm::S(L)->top - lm::S(L)->base; }
LUA_VM(int, lua_absindex, lua_State * L, int i) { return i > 0 || i <= LUA_REGISTRYINDEX ? i : lm::S(L)->top - lm::S(L)->base + i + 1; }
LUA_VM(void, lua_settop, lua_State * L, int i) { lm::ST * s = lm::S(L); int k = i >= 0 ? s->base + i : s->top + i + 1; lm::need(k >= s->base && k <= s->lim); while (s->top < k) s->st[s->top++] = lm::nil(); s->top = k; }
LUA_VM(void, lua_pushvalue, lua_State * L, int i) { lm::push(L, lm::val(L, i)); }
LUA_VM(void, lua_rotate, lua_State * L, int i, int n) { lm::ST * s = lm::S(L); lm::LV * p = &lm::at(L, i); int m = int(s->st + s->top - p); lm::need((n < 0 ? -n : n) <= m); for (; n < 0; ++n) { lm::LV x = p[0]; for (int k = 0; k + 1 < m; ++k) p[k] = p[k + 1]; p[m - 1] = x; } for (; n > 0; --n) { lm::LV x = p[m - 1]; for (int k = m - 1; k > 0; --k) p[k] = p[k - 1]; p[0] = x; } }
LUA_VM(void, lua_copy, lua_State * L, int a, int b) { lm::at(L, b) = lm::val(L, a); }
LUA_VM(int, lua_checkstack, lua_State * L, int n) { lm::ST * s = lm::S(L); if (s->top + n > s->room) return 0; if (s->top + n > s->lim) s->lim = s->top + n; return 1; }
LUA_VM(int, lua_type, lua_State * L, int i) { lm::ST * s = lm::S(L); if (i > 0 && s->base + i - 1 >= s->top) return LUA_TNONE; return lm::val(L, i).t; }
LUA_VM(const char *, lua_typename, lua_State *, int t) { switch (t) { case LUA_TNIL: return "nil"; case LUA_TBOOLEAN: return "boolean"; case LUA_TNUMBER: return "number"; case LUA_TSTRING: return "string"; case LUA_TTABLE: return "table"; case LUA_TFUNCTION: return "function"; } return "no value"; }
LUA_VM(int, lua_isnumber, lua_State * L, int i) { lm::LV r; return lm::num(lm::val(L, i), r); }
LUA_VM(int, lua_isstring, lua_State * L, int i) { int t = lm::val(L, i).t; return t == LUA_TSTRING || t == LUA_TNUMBER; }
LUA_VM(int, lua_isinteger, lua_State * L, int i) { lm::LV x = lm::val(L, i); return x.t == LUA_TNUMBER && x.isint; }
LUA_VM(lua_Number, lua_tonumberx, lua_State * L, int i, int * ok) { lm::LV r; bool b = lm::num(lm::val(L, i), r); if (ok) *ok = b; return b ? r.isint ? lua_Number(r.i) : r.d : 0; }
LUA_VM(lua_Integer, lua_tointegerx, lua_State * L, int i, int * ok) { lm::LV r; bool b = lm::num(lm::val(L, i), r); lua_Integer k = 0; if (b) { if (r.isint) k = r.i; else if (r.d >= -1e15 && r.d <= 1e15) { k = lua_Integer(r.d); b = lua_Number(k) == r.d; if (!b) k = 0; } else b = false; } if (ok) *ok = b; return k; }
LUA_VM(int, lua_toboolean, lua_State * L, int i) { lm::LV x = lm::val(L, i); return !(x.t == LUA_TNIL || (x.t == LUA_TBOOLEAN && !x.b)); }
LUA_VM(const char *, lua_tolstring, lua_State * L, int i, size_t * n) { lm::LV & x = i < LUA_REGISTRYINDEX ? *lm::upv(L, i) : lm::at(L, i); if (x.t == LUA_TNUMBER) { if (!x.isint) x = lm::str("?", 1); else { char d[24]; int k = 24; lua_Integer y = x.i; bool neg = y < 0; do { int r = int(y % 10); d[--k] = char('0' + (r < 0 ? -r : r)); y /= 10; } while (y); if (neg) d[--k] = '-'; x = lm::str(d + k, size_t(24 - k)); } } if (x.t != LUA_TSTRING) { if (n) *n = 0; return 0; } if (n) *n = x.n; return x.s; }
LUA_VM(size_t, lua_rawlen, lua_State * L, int i) { lm::LV x = lm::val(L, i); if (x.t == LUA_TSTRING) return x.n; if (x.t != LUA_TTABLE) return 0; lua_Integer n = 0; while (lm::get(x.tab, lm::integer(n + 1)).t != LUA_TNIL) ++n; return size_t(n); }
LUA_VM(void, lua_pushnil, lua_State * L) { lm::push(L, lm::nil()); }
LUA_VM(void, lua_pushnumber, lua_State * L, lua_Number d) { lm::LV x = lm::nil(); x.t = LUA_TNUMBER; x.d = d; lm::push(L, x); }
LUA_VM(void, lua_pushinteger, lua_State * L, lua_Integer i) { lm::push(L, lm::integer(i)); }
LUA_VM(void, lua_pushboolean, lua_State * L, int b) { lm::LV x = lm::nil(); x.t = LUA_TBOOLEAN; x.b = b != 0; lm::push(L, x); }
LUA_VM(const char *, lua_pushlstring, lua_State * L, const char * s, size_t n) { lm::LV x = lm::str(s, n); lm::push(L, x); return x.s; }
LUA_VM(const char *, lua_pushstring, lua_State * L, const char * s) { if (!s) { lm::push(L, lm::nil()); return 0; } lm::LV x = lm::str(s, lm::len(s)); lm::push(L, x); return x.s; }
LUA_VM(void, lua_pushcclosure, lua_State * L, lua_CFunction f, int n) { lm::LV x = lm::nil(); x.t = LUA_TFUNCTION; x.f = f; x.nup = n; if (n) { x.up = new lm::LV[n]; for (int k = n; k-- > 0;) x.up[k] = lm::pop(L); } lm::push(L, x); }
LUA_VM(void, lua_createtable, lua_State * L, int, int) { lm::LV x = lm::nil(); x.t = LUA_TTABLE; x.tab = new lm::LT; x.tab->n = 0; lm::push(L, x); }
LUA_VM(int, lua_rawget, lua_State * L, int i) { lm::LV x = lm::val(L, i); lm::need(x.t == LUA_TTABLE); lm::LV k = lm::pop(L), r = lm::get(x.tab, k); lm::push(L, r); return r.t; }
LUA_VM(int, lua_rawgeti, lua_State * L, int i, lua_Integer n) { lm::ST * s = lm::S(L); lm::LV r; if (i == LUA_REGISTRYINDEX) { lm::need(n < 3 || n - 3 < s->nref); if (n == LUA_RIDX_GLOBALS) { r = lm::nil(); r.t = LUA_TTABLE; r.tab = &s->glob; } else r = n < 3 ? lm::nil() : s->ref[n - 3]; lm::need(n < 3 || r.t != LUA_TNONE); } else { lm::LV x = lm::val(L, i); lm::need(x.t == LUA_TTABLE); r = lm::get(x.tab, lm::integer(n)); } lm::push(L, r); return r.t; }
LUA_VM(void, lua_rawset, lua_State * L, int i) { lm::LV x = lm::val(L, i); lm::need(x.t == LUA_TTABLE); lm::LV y = lm::pop(L), k = lm::pop(L); lm::set(x.tab, k, y); }
LUA_VM(void, lua_rawseti, lua_State * L, int i, lua_Integer n) { lm::LV x = lm::val(L, i); lm::need(x.t == LUA_TTABLE); lm::LV y = lm::pop(L); lm::set(x.tab, lm::integer(n), y); }
LUA_VM(void, lua_setfield, lua_State * L, int i, const char * k) { lm::LV x = lm::val(L, i); lm::need(x.t == LUA_TTABLE); lm::LV y = lm::pop(L); lm::set(x.tab, lm::str(k, lm::len(k)), y); }
LUA_VM(int, lua_getfield, lua_State * L, int i, const char * k) { lm::LV x = lm::val(L, i); lm::need(x.t == LUA_TTABLE); lm::LV r = lm::get(x.tab, lm::str(k, lm::len(k))); lm::push(L, r); return r.t; }
LUA_VM(int, lua_getglobal, lua_State * L, const char * k) { lm::LV r = lm::get(&lm::S(L)->glob, lm::str(k, lm::len(k))); lm::push(L, r); return r.t; }
LUA_VM(void, lua_setglobal, lua_State * L, const char * k) { lm::LV y = lm::pop(L); lm::set(&lm::S(L)->glob, lm::str(k, lm::len(k)), y); }
LUA_VM(int, luaL_ref, lua_State * L, int t) { lm::ST * s = lm::S(L); lm::need(t == LUA_REGISTRYINDEX); lm::LV x = lm::pop(L); if (x.t == LUA_TNIL) return LUA_REFNIL; ++s->live; for (int k = 0; k < s->nref; ++k) if (s->ref[k].t == LUA_TNONE) { s->ref[k] = x; return k + 3; } lm::need(s->nref < 24); s->ref[s->nref] = x; return s->nref++ + 3; }
LUA_VM(void, luaL_unref, lua_State * L, int t, int r) { lm::ST * s = lm::S(L); lm::need(t == LUA_REGISTRYINDEX && lm::states > 0); if (r < 0) return; lm::need(r >= 3 && r - 3 < s->nref && s->ref[r - 3].t != LUA_TNONE); s->ref[r - 3].t = LUA_TNONE; --s->live; }
LUA_VM(int, lua_error, lua_State * L) { lm::error e = {lm::pop(L)}; throw e; }
LUA_VM(int, lua_pcallk, lua_State * L, int na, int nr, int, lua_KContext, lua_KFunction) { lm::ST * s = lm::S(L); int f = s->top - na - 1, base = s->base; lm::LV * cu = s->curup; lm::need(f >= s->base); lm::LV fn = s->st[f];
  if (fn.t != LUA_TFUNCTION) { s->top = f; lm::push(L, lm::str("attempt to call", 15)); return LUA_ERRRUN; }
  int lim = s->lim; try { s->base = f + 1; s->lim = s->top + LUA_MINSTACK; s->curup = fn.up; int n = fn.f(L); s->base = base; s->curup = cu; lm::need(n >= 0 && n <= s->top - f - 1); int from = s->top - n; for (int k = 0; k < n; ++k) s->st[f + k] = s->st[from + k]; s->top = f + n; s->lim = s->top > lim ? s->top : lim; if (nr >= 0) { while (s->top < f + nr) lm::push(L, lm::nil()); s->top = f + nr; } return LUA_OK; }
  catch (lm::error & e) { s->base = base; s->lim = lim; s->curup = cu; s->top = f; lm::push(L, e.v); return LUA_ERRRUN; } }
LUA_VM(void, lua_callk, lua_State * L, int na, int nr, lua_KContext, lua_KFunction) { if (__vm_lua_pcallk(L, na, nr, 0, 0, 0) != LUA_OK) __vm_lua_error(L); }
LUA_VM(int, lua_gettable, lua_State * L, int i) { if (lm::val(L, i).t != LUA_TTABLE) { lm::push(L, lm::str("attempt to index", 16)); __vm_lua_error(L); } return __vm_lua_rawget(L, i); }
LUA_VM(int, lua_geti, lua_State * L, int i, lua_Integer n) { if (lm::val(L, i).t != LUA_TTABLE) { lm::push(L, lm::str("attempt to index", 16)); __vm_lua_error(L); } return __vm_lua_rawgeti(L, i, n); }
LUA_VM(void, lua_settable, lua_State * L, int i) { __vm_lua_rawset(L, i); }
LUA_VM(void, lua_seti, lua_State * L, int i, lua_Integer n) { __vm_lua_rawseti(L, i, n); }
LUA_VM(int, lua_next, lua_State * L, int i) { lm::LV x = lm::val(L, i), k = lm::pop(L); lm::need(x.t == LUA_TTABLE); int p = 0; if (k.t != LUA_TNIL) { while (p < x.tab->n && !lm::same(x.tab->k[p], k)) ++p; lm::need(p < x.tab->n); ++p; } while (p < x.tab->n && x.tab->v[p].t == LUA_TNIL) ++p; if (p == x.tab->n) return 0; lm::push(L, x.tab->k[p]); lm::push(L, x.tab->v[p]); return 1; }
LUA_VM(void, luaL_checkstack, lua_State * L, int n, const char *) { if (!__vm_lua_checkstack(L, n)) { lm::push(L, lm::str("stack overflow", 14)); __vm_lua_error(L); } }
LUA_VM(int, lua_iscfunction, lua_State * L, int i) { return lm::val(L, i).t == LUA_TFUNCTION; }
LUA_VM(int, luaL_loadbufferx, lua_State * L, const char *, size_t, const char *, const char *) { if (!lm::chunk) { lm::push(L, lm::str("syntax error", 12)); return LUA_ERRSYNTAX; } __vm_lua_pushcclosure(L, lm::chunk, 0); return LUA_OK; }
LUA_VM(int, luaL_loadstring, lua_State * L, const char *) { if (!lm::chunk) { lm::push(L, lm::str("syntax error", 12)); return LUA_ERRSYNTAX; } __vm_lua_pushcclosure(L, lm::chunk, 0); return LUA_OK; }
LUA_VM(int, luaL_loadfilex, lua_State * L, const char *, const char *) { if (!lm::chunk) { lm::push(L, lm::str("cannot open", 11)); return LUA_ERRFILE; } __vm_lua_pushcclosure(L, lm::chunk, 0); return LUA_OK; }
}
#endif
