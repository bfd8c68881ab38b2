// A01/A02: atomic operations are one indivisible step under every interleaving
#include "v.h"
#include <cstring>
#include <iostream>
#include <memory>
#include <thread>
#include <vector>
#include <ristra/atomics/src/atomics.h>
namespace at = ristra::atomics; using std::size_t;
using mo = std::memory_order;

// a value type of the user's own
struct duo { float a; int b; };
inline duo & operator+=(duo & x, const duo & y) { x.a += y.a; x.b += y.b; return x; }
inline duo & operator-=(duo & x, const duo & y) { x.a -= y.a; x.b -= y.b; return x; }
inline duo & operator++(duo & x) { x.a += 1; x.b += 1; return x; }
inline duo operator++(duo & x, int) { duo o(x); ++x; return o; }
struct kv { int key, tag; };                         // ordered by key alone
inline bool operator<(const kv & x, const kv & y) { return x.key < y.key; }
struct trio { double a, b; long c; };
inline trio & operator+=(trio & x, const trio & y) { x.a += y.a; x.b -= y.b; x.c += y.c; return x; }

template<class T> struct dom {                       // values of T the operations are defined on
  static T any(const char * n) { return v::any<T>(n); }
  static constexpr int64_t lo = 1, hi = 0;
  static void same(const T & x, const T & y, const char * m) { v::eq(x, y, m); }
  static bool is(const T & x, const T & y) { return x == y; }
};
template<> struct dom<int> { static int any(const char * n) { return int(v::range(n, -30000, 30000)); } static constexpr int64_t lo = -30000, hi = 30000;
  static void same(int x, int y, const char * m) { v::eq(x, y, m); } static bool is(int x, int y) { return x == y; } };
template<> struct dom<long> { static long any(const char * n) { return v::range(n, -30000, 30000); } static constexpr int64_t lo = -30000, hi = 30000;
  static void same(long x, long y, const char * m) { v::eq(x, y, m); } static bool is(long x, long y) { return x == y; } };
template<> struct dom<duo> { static duo any(const char * n) { return duo{float(v::real(n)), int(v::range(n, -30000, 30000))}; } static constexpr int64_t lo = -30000, hi = 30000;
  static void same(const duo & x, const duo & y, const char * m) { v::eq(x.a, y.a, m); v::eq(x.b, y.b, m); } static bool is(const duo & x, const duo & y) { return x.a == y.a && x.b == y.b; } };
template<> struct dom<trio> { static trio any(const char * n) { return trio{v::real(n), v::real(n), v::range(n, -30000, 30000)}; } static constexpr int64_t lo = -30000, hi = 30000;
  static void same(const trio & x, const trio & y, const char * m) { v::eq(x.a, y.a, m); v::eq(x.b, y.b, m); v::eq(x.c, y.c, m); } static bool is(const trio & x, const trio & y) { return x.a == y.a && x.b == y.b && x.c == y.c; } };

template<> struct dom<kv> { static kv any(const char * n) { return kv{int(v::range(n, -30000, 30000)), int(v::range(n, -30000, 30000))}; } static constexpr int64_t lo = -30000, hi = 30000;
  static void same(const kv & x, const kv & y, const char * m) { v::eq(x.key, y.key, m); v::eq(x.tag, y.tag, m); } static bool is(const kv & x, const kv & y) { return x.key == y.key && x.tag == y.tag; } };

// order o is at least as strong as r
inline bool atleast(int o, int r) {
  if (o == 5 || o == r) return true; if (o == 4) return r <= 4;
  if (o == 2) return r <= 2; if (o == 3) return r == 0; return o == 1 ? r <= 1 : r == 0;
}
// run op on a, shared with other threads: one step old -> spec(old), result what that step gave
template<class T, class A, class OP, class SPEC> void step(A & a, OP && op, SPEC && spec, int want = 5, int wantf = -1) {
  __v_shared((void *)&a, sizeof(T), dom<T>::lo, dom<T>::hi);
  T r = op();
  v::ensure(__v_nlocks() == 0, "no mutex is left held");
  int64_t n = __v_nev();
  v::ensure(n <= 1, "the variable is changed in one step only");
  T o, w, e;
  if (n == 0) {
    v::ensure(__v_seen(&o), "the operation takes effect");
    e = o; T g = spec(e);
    dom<T>::same(e, o, "an operation that writes nothing must have nothing to change");
    dom<T>::same(r, g, "returned value belongs to the value observed");
    return;
  }
  __v_ev(0, &o, &w); e = o; T g = spec(e);
  dom<T>::same(w, e, "new value = operation applied to the value it replaced");
  dom<T>::same(r, g, "returned value is the one of that step");
  int64_t k = __v_evord(0);
  v::ensure(atleast(k >= 256 ? int((k - 256) / 16) : int(k), want), "the step has at least the memory order asked for");
  if (wantf >= 0 && k >= 256) v::ensure(atleast(int((k - 256) % 16), wantf), "a failed attempt has at least the memory order asked for");
}
#define BIN(NAME, OP_, EXPR) \
  struct NAME##_ { \
    template<class S, class A, class X> static auto f(A & a, X x) { return at::NAME<S>(a, x); } \
    template<class A, class X> static auto f0(A & a, X x) { return at::NAME(a, x); } \
    template<class S, class A, class X> static auto m(A & a, X x) { return a.template NAME<S>(x); } \
    template<class A, class X> static auto m0(A & a, X x) { return a.NAME(x); } \
    template<class A, class X> static auto fs(A & a, X x, mo s) { return at::NAME(a, x, s); } \
    template<class A, class X> static auto ff(A & a, X x, mo s, mo t) { return at::NAME(a, x, s, t); } \
    template<class A, class X> static auto ms(A & a, X x, mo s) { return a.NAME(x, s); } \
    template<class A, class X> static auto mf(A & a, X x, mo s, mo t) { return a.NAME(x, s, t); } \
    template<class A, class X> static auto o(A & a, X x) { return OP_; } \
    template<class T, class X> static T spec(T & l, X x) { EXPR; return l; } \
  };
BIN(add, a += x, l += x) BIN(sub, a -= x, l -= x) BIN(mul, a *= x, l *= x) BIN(div, a /= x, l /= x) BIN(mod, a %= x, l %= x)
BIN(lshift, a <<= x, l <<= x) BIN(rshift, a >>= x, l >>= x) BIN(andeq, a &= x, l &= x) BIN(oreq, a |= x, l |= x) BIN(xoreq, a ^= x, l ^= x)
BIN(min, a.min(x), if (x < l) l = T(x)) BIN(max, a.max(x), if (l < x) l = T(x))
#define UN(NAME, OP_, EXPR) \
  struct NAME##_ { \
    template<class S, class A, class X> static auto f(A & a, X) { return at::NAME<S>(a); } \
    template<class A, class X> static auto f0(A & a, X) { return at::NAME(a); } \
    template<class S, class A, class X> static auto m(A & a, X) { return a.template NAME<S>(); } \
    template<class A, class X> static auto m0(A & a, X) { return a.NAME(); } \
    template<class A, class X> static auto fs(A & a, X, mo s) { return at::NAME(a, s); } \
    template<class A, class X> static auto ff(A & a, X, mo s, mo t) { return at::NAME(a, s, t); } \
    template<class A, class X> static auto ms(A & a, X, mo s) { return a.NAME(s); } \
    template<class A, class X> static auto mf(A & a, X, mo s, mo t) { return a.NAME(s, t); } \
    template<class A, class X> static auto o(A & a, X) { return OP_; } \
    template<class T, class X> static T spec(T & l, X) { EXPR; } \
  };
UN(inc, ++a, return ++l) UN(preinc, ++a, return ++l) UN(postinc, a++, return l++) UN(dec, --a, return --l) UN(predec, --a, return --l) UN(postdec, a--, return l--)

// right-hand sides on which the operation is defined
template<class OP, class T> struct rhs { static T get() { return dom<T>::any("val"); } };
template<class T> struct rhs<div_, T> { static T get() { return v::nz<T>("val"); } };
template<class T> struct rhs<mod_, T> { static T get() { return v::nz<T>("val"); } };
template<class T> struct rhs<lshift_, T> { static T get() { return T(v::range("val", 0, 7)); } };
template<class T> struct rhs<rshift_, T> { static T get() { return T(v::range("val", 0, 7)); } };
template<class T> struct start { static T get() { return dom<T>::any("initial"); } };

// every way to call OP with scheme S on a T
template<class OP, class S, class T, class X = T> void calls() {
  int way = int(v::choose("way", 0, 6)); auto x = rhs<OP, X>::get(); T i = start<T>::get(); auto sp = [&](T & l) -> T { return OP::spec(l, x); };
  if (way == 0) { at::atomic<T, S> a(i); step<T>(a, [&] { return OP::f0(a, x); }, sp); }
  if (way == 1) { at::atomic<T, S> a(i); step<T>(a, [&] { return OP::m0(a, x); }, sp); }
  if (way == 2) { at::atomic<T, S> a(i); step<T>(a, [&] { return OP::o(a, x); }, sp); }
  if (way == 3) { at::atomic<T, at::serial> a(i); step<T>(a, [&] { return OP::template f<S>(a, x); }, sp); }
  if (way == 4) { at::atomic<T, at::serial, 3> a(i); step<T>(a, [&] { return OP::template m<S>(a, x); }, sp); }
  if constexpr (std::is_arithmetic<T>::value) {
    if (way == 5) { volatile at::atomic<T, S> a(i); step<T>(a, [&] { return OP::f0(a, x); }, sp); }
    if (way == 6) { volatile at::atomic<T, S> a(i); step<T>(a, [&] { return OP::m0(a, x); }, sp); }
  }
}
// the overloads taking memory orders
template<class OP, class S, class T, bool two = true> void orders() {
  static const mo os[] = {std::memory_order_relaxed, std::memory_order_consume, std::memory_order_acquire, std::memory_order_release, std::memory_order_acq_rel, std::memory_order_seq_cst};
  static const int fl[] = {0, 1, 2, 5};
  int way = int(v::choose("way", 0, two ? 3 : 1)), s = int(v::choose("order", 0, 5)); auto x = rhs<OP, T>::get(); T i = start<T>::get(); auto sp = [&](T & l) -> T { return OP::spec(l, x); };
  at::atomic<T, S> a(i);
  if (way == 0) step<T>(a, [&] { return OP::fs(a, x, os[s]); }, sp, s);
  if (way == 1) step<T>(a, [&] { return OP::ms(a, x, os[s]); }, sp, s);
  if constexpr (two) { if (way > 1) { int k = int(v::choose("failure order", 0, 3)), f = fl[k];
    if (f > s || ((s == 3 || s == 4) && f == 1)) return;           // a failure order stronger than the success order is not asked for
    if (s == 3 && f != 0) return;
    if (way == 2) step<T>(a, [&] { return OP::ff(a, x, os[s], os[f]); }, sp, s, f);
    if (way == 3) step<T>(a, [&] { return OP::mf(a, x, os[s], os[f]); }, sp, s, f); } }
}
#define FOR_CAS(OP, T, TAG) CONTRACT(OP##_##TAG##_strong) { calls<OP##_, at::strong, T>(); } CONTRACT(OP##_##TAG##_weak) { calls<OP##_, at::weak, T>(); } \
  CONTRACT(OP##_##TAG##_strongpun) { calls<OP##_, at::strong::pun, T>(); } CONTRACT(OP##_##TAG##_weakpun) { calls<OP##_, at::weak::pun, T>(); } \
  CONTRACT(OP##_##TAG##_lock) { calls<OP##_, at::lock, T>(); }
#define FOR_CPP(OP, T, TAG) CONTRACT(OP##_##TAG##_cpp) { calls<OP##_, at::cpp, T>(); }
#define ORDERS(OP, T, TAG) CONTRACT(OP##_##TAG##_orders_strong) { orders<OP##_, at::strong, T>(); } CONTRACT(OP##_##TAG##_orders_weak) { orders<OP##_, at::weak, T>(); } \
  CONTRACT(OP##_##TAG##_orders_strongpun) { orders<OP##_, at::strong::pun, T>(); } CONTRACT(OP##_##TAG##_orders_weakpun) { orders<OP##_, at::weak::pun, T>(); }
#define NOPUN(OP, T, TAG) CONTRACT(OP##_##TAG##_strong) { calls<OP##_, at::strong, T>(); } CONTRACT(OP##_##TAG##_weak) { calls<OP##_, at::weak, T>(); } \
  CONTRACT(OP##_##TAG##_lock) { calls<OP##_, at::lock, T>(); }
// the value alone in one thread: the serial scheme
template<class OP, class T> void serial() {
  auto x = rhs<OP, T>::get(); T i = start<T>::get(), e = i; at::atomic<T, at::serial> a(i); at::atomic<T, at::strong> b(i); int way = int(v::choose("way", 0, 4)); T r, g;
  if (way == 0) r = OP::f0(a, x); if (way == 1) r = OP::m0(a, x); if (way == 2) r = OP::o(a, x);
  if (way == 3) r = OP::template f<at::serial>(b, x); if (way == 4) r = OP::template m<at::serial>(b, x);
  g = OP::spec(e, x);
  dom<T>::same(r, g, "result of the serial operation"); dom<T>::same(way < 3 ? T(a) : T(b), e, "value after the serial operation");
}
#define SERIAL(OP, T, TAG) CONTRACT(OP##_##TAG##_serial) { serial<OP##_, T>(); }
#define ALL(M, T, TAG) M(add, T, TAG) M(sub, T, TAG) M(mul, T, TAG) M(div, T, TAG) M(mod, T, TAG) M(lshift, T, TAG) M(rshift, T, TAG) M(andeq, T, TAG) M(oreq, T, TAG) M(xoreq, T, TAG) \
  M(min, T, TAG) M(max, T, TAG) M(inc, T, TAG) M(preinc, T, TAG) M(postinc, T, TAG) M(dec, T, TAG) M(predec, T, TAG) M(postdec, T, TAG)
#define CPPS(M, T, TAG) M(add, T, TAG) M(sub, T, TAG) M(andeq, T, TAG) M(oreq, T, TAG) M(xoreq, T, TAG) M(inc, T, TAG) M(preinc, T, TAG) M(postinc, T, TAG) M(dec, T, TAG) M(predec, T, TAG) M(postdec, T, TAG)
#ifdef PART1
ALL(FOR_CAS, unsigned, u)
CPPS(FOR_CPP, unsigned, u)
#endif
#ifdef PART2
FOR_CAS(add, double, d) FOR_CAS(sub, double, d) FOR_CAS(mul, double, d) FOR_CAS(div, double, d) FOR_CAS(min, double, d) FOR_CAS(max, double, d) FOR_CAS(preinc, double, d) FOR_CAS(postdec, double, d)
FOR_CAS(add, int, i) FOR_CAS(mul, int, i) FOR_CAS(div, int, i) FOR_CAS(mod, int, i) FOR_CAS(rshift, int, i) FOR_CAS(min, int, i) FOR_CAS(max, int, i) FOR_CAS(postinc, int, i) FOR_CPP(sub, int, i) FOR_CPP(predec, int, i)
FOR_CAS(add, uint8_t, b) FOR_CAS(sub, int16_t, h) FOR_CAS(max, uint16_t, w) FOR_CAS(add, long, l) FOR_CAS(xoreq, uint64_t, q) FOR_CAS(min, float, f) FOR_CAS(add, float, f) FOR_CPP(add, uint8_t, b) FOR_CPP(sub, int16_t, h) FOR_CPP(postinc, uint64_t, q)
FOR_CAS(add, duo, duo) FOR_CAS(sub, duo, duo) FOR_CAS(preinc, duo, duo) FOR_CAS(postinc, duo, duo)
NOPUN(add, trio, trio)
NOPUN(min, kv, kv) NOPUN(max, kv, kv)
// right-hand sides of another type: the operation is the one on T and X, not on T and T(X)
#define MIX(OP, T, X, TAG) CONTRACT(OP##_##TAG##_mix) { int s = int(v::choose("scheme", 0, 4)); if (s == 0) calls<OP##_, at::strong, T, X>(); if (s == 1) calls<OP##_, at::weak, T, X>(); if (s == 2) calls<OP##_, at::strong::pun, T, X>(); if (s == 3) calls<OP##_, at::weak::pun, T, X>(); if (s == 4) calls<OP##_, at::lock, T, X>(); }
MIX(min, uint8_t, int, bi) MIX(max, uint16_t, int64_t, wl) MIX(add, double, int, di) MIX(mul, double, int, di) MIX(min, double, int, di) MIX(sub, unsigned, int64_t, ul) MIX(add, uint64_t, int, qi) MIX(rshift, uint64_t, int, qi) MIX(oreq, uint64_t, int, qi) MIX(add, float, double, fd) MIX(max, float, double, fd) MIX(div, unsigned, uint64_t, uq)
CONTRACT(mul_id_lock) { calls<mul_, at::lock, int, double>(); } CONTRACT(div_id_lock) { calls<div_, at::lock, int, double>(); }
#define NMIX(OP, T, X, TAG) CONTRACT(OP##_##TAG##_mix) { v::native_only("conversion of a real to int inside a retry loop"); int s = int(v::choose("scheme", 0, 3)); if (s == 0) calls<OP##_, at::strong, T, X>(); if (s == 1) calls<OP##_, at::weak, T, X>(); if (s == 2) calls<OP##_, at::strong::pun, T, X>(); if (s == 3) calls<OP##_, at::weak::pun, T, X>(); }
NMIX(mul, int, double, id) NMIX(div, int, double, id)
CONTRACT(add_ql_cpp) { calls<add_, at::cpp, uint64_t, int>(); } CONTRACT(sub_bi_cpp) { calls<sub_, at::cpp, uint8_t, int>(); }
#endif
#ifdef PART3
ALL(SERIAL, unsigned, u)
SERIAL(add, double, d) SERIAL(min, double, d) SERIAL(postinc, int, i) SERIAL(add, duo, duo) SERIAL(add, trio, trio)
#endif
#ifdef PART3
// construction, conversion, assignment, and the two views of the variable
template<class T, class S> void basics() {
  T i = start<T>::get(), j = start<T>::get();
  at::atomic<T, S> a(i); dom<T>::same(T(a), i, "value it was built from"); dom<T>::same(T(const_cast<const volatile at::atomic<T, S> &>(a)), i, "value through a const volatile reference");
  T r = (a = j); dom<T>::same(r, j, "assignment gives the value assigned"); dom<T>::same(T(a), j, "value after assignment");
  dom<T>::same(a.ref(), j, "ref() is the value"); a.ref() = i; dom<T>::same(T(a), i, "a write through ref() is a write to the variable");
  a.base().store(j); dom<T>::same(T(a), j, "base() is the variable"); at::atomic<T, S> d; d = i; dom<T>::same(T(d), i, "default construction, then assignment");
  v::ensure((void *)&a.ref() == (void *)&a && (void *)&a.base() == (void *)&a, "ref() and base() are the variable itself");
}
CONTRACT(basics_u) { basics<unsigned, at::strong>(); } CONTRACT(basics_d) { basics<double, at::weak::pun>(); } CONTRACT(basics_duo) { basics<duo, at::lock>(); } CONTRACT(basics_trio) { basics<trio, at::serial>(); }
// all operations of the lock scheme on one variable use one mutex
using lku = at::atomic<unsigned, at::lock>;
static unsigned one(lku & a, int k, unsigned x) {
  volatile lku & w = a;
  switch (k) { case 0: return a += x; case 1: return a -= x; case 2: return a *= x; case 3: return a /= (x | 1); case 4: return a %= (x | 1); case 5: return a <<= (x & 7); case 6: return a >>= (x & 7); case 7: return a &= x;
    case 8: return a |= x; case 9: return a ^= x; case 10: return a.min(x); case 11: return a.max(x); case 12: return ++a; case 13: return a++; case 14: return --a; case 15: return a--; case 16: return w += x; case 17: return w.min(x); default: return ++w; }
}
CONTRACT(lock_one_mutex) {
  unsigned x = v::any<unsigned>("x"); lku a(x); int p = int(v::choose("first", 0, 18)), q = int(v::choose("second", 0, 18));
  __v_shared((void *)&a, sizeof(unsigned), 1, 0); one(a, p, x); v::ensure(__v_nlocks() == 0, "no mutex is left held"); one(a, q, x); v::ensure(__v_nlocks() == 0, "no mutex is left held");
}
// deterministic interference: another update lands while the operation computes
static void (*hook)(void *); static void * hook_at; static int todo;
struct hk { int v; };
static void hit() { if (todo > 0) { --todo; hook(hook_at); } }
inline hk & operator+=(hk & x, int y) { x.v += y; hit(); return x; }
inline hk & operator-=(hk & x, int y) { hit(); x.v -= y; return x; }
inline hk & operator++(hk & x) { x.v += 1; hit(); return x; }
inline hk operator++(hk & x, int) { hk o(x); x.v += 1; hit(); return o; }
inline hk & operator--(hk & x) { hit(); x.v -= 1; return x; }
inline hk operator--(hk & x, int) { hit(); hk o(x); x.v -= 1; return o; }
static int addend;
template<class S> void meddle() {
  using A = at::atomic<hk, S>; int i = int(v::range("initial", -1000, 1000)), x = int(v::range("val", -1000, 1000)), n = int(v::choose("interruptions", 0, 3)), op = int(v::choose("operation", 0, 5)), ord = int(v::choose("orders", 0, 2));
  addend = int(v::range("by others", -1000, 1000)); v::assume(addend != 0); A a(hk{i}); hook_at = &a; todo = n; const mo sc = std::memory_order_seq_cst, aq = std::memory_order_acquire;
  hook = [](void * p) { A & b = *static_cast<A *>(p); hk c = hk(b); c.v += addend; b.base().store(c); };
  hk r; int d = op == 0 ? x : op == 1 ? -x : op < 4 ? 1 : -1;
  if (ord == 0) switch (op) { case 0: r = (a += x); break; case 1: r = (a -= x); break; case 2: r = ++a; break; case 3: r = a++; break; case 4: r = --a; break; default: r = a--; }
  if (ord == 1) switch (op) { case 0: r = a.add(x, sc); break; case 1: r = a.sub(x, sc); break; case 2: r = a.preinc(sc); break; case 3: r = a.postinc(sc); break; case 4: r = a.predec(sc); break; default: r = a.postdec(sc); }
  if (ord == 2) switch (op) { case 0: r = a.add(x, sc, aq); break; case 1: r = a.sub(x, sc, aq); break; case 2: r = a.preinc(sc, aq); break; case 3: r = a.postinc(sc, aq); break; case 4: r = a.predec(sc, aq); break; default: r = a.postdec(sc, aq); }
  v::ensure(todo == 0, "every attempt that was interrupted is repeated");
  v::ensure(hk(a).v == i + n * addend + d, "neither update is lost");
  v::ensure(r.v == i + n * addend + (op == 3 || op == 5 ? 0 : d), "the result belongs to the value replaced");
}
CONTRACT(meddle_strong) { meddle<at::strong>(); } CONTRACT(meddle_weak) { meddle<at::weak>(); } CONTRACT(meddle_strongpun) { meddle<at::strong::pun>(); } CONTRACT(meddle_weakpun) { meddle<at::weak::pun>(); }
// the same with real threads (bounded): returned values of n increments are 1..n, each once
template<class S, class T> void race() {
  v::native_only("threads: executed, not proved (the proof is the per-operation contracts)");
#ifdef V_NATIVE
  static int runs; v::assume(++runs <= 600); at::atomic<T, S> a(T(0)); const int N = 4, K = 60; std::vector<T> got[N]; std::vector<std::thread> ts; std::atomic<int> go(0); int op = int(v::choose("operation", 0, 3));
  for (int t = 0; t < N; ++t) got[t].resize(K);
  for (int t = 0; t < N; ++t) ts.emplace_back([&, t] { ++go; while (go < N) ; for (int k = 0; k < K; ++k) got[t][k] = op == 0 ? a += T(1) : op == 1 ? ++a : op == 2 ? (a++) + T(1) : T(0) - (a -= T(1)); });
  for (auto & t : ts) t.join();
  std::vector<int> seen(N * K + 1, 0); bool once = true, up = true;
  for (auto & g : got) { T last = T(0); for (T x : g) { up = up && last < x; last = x; long k = long(x); if (k < 1 || k > N * K || seen[k]++) once = false; } }
  v::ensure(T(a) == (op == 3 ? T(0) - T(N * K) : T(N * K)), "no update is lost"); v::ensure(once, "each value is returned once"); v::ensure(up, "values returned in one thread increase");
#endif
}
#define RACE(S) CONTRACT(race_int_##S) { race<at::S, int>(); }
RACE(cpp) RACE(strong) RACE(weak) RACE(lock) CONTRACT(race_int_strongpun) { race<at::strong::pun, int>(); } CONTRACT(race_dbl_weakpun) { race<at::weak::pun, double>(); } CONTRACT(race_dbl_lock) { race<at::lock, double>(); }
#endif
#ifdef PART4
ALL(ORDERS, unsigned, u)
ORDERS(add, double, d) ORDERS(max, double, d)
#define OCPP(OP, T, TAG) CONTRACT(OP##_##TAG##_orders_cpp) { orders<OP##_, at::cpp, T, false>(); }
OCPP(add, unsigned, u) OCPP(sub, unsigned, u) OCPP(andeq, unsigned, u) OCPP(oreq, unsigned, u) OCPP(xoreq, unsigned, u)
#endif
