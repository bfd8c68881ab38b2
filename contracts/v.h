// Specification intrinsics of the contract files.
//
// Under the verifier (clang -> LLVM IR -> dv/engine.py) these are uninterpreted
// and given their meaning by dv/stubs.py: __v_real & co. are universally
// quantified inputs, __v_assume a precondition, __v_assert/__v_eq obligations.
// With -DV_NATIVE the same contract file is compiled against the same /repo
// sources and runs on one concrete input: that replays a counterexample, and is
// the bounded stand-in where the verifier gives up.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>

extern "C" {
double __v_real(const char *);
int8_t __v_i8(const char *);
int16_t __v_i16(const char *);
int32_t __v_i32(const char *);
int64_t __v_i64(const char *);
bool __v_bool(const char *);
int64_t __v_choose(const char *, int64_t, int64_t);
int64_t __v_range(const char *, int64_t, int64_t);
void __v_assume(bool);
void __v_assert(bool, const char *);
void __v_eq(double, double, const char *);
void __v_feq(double, double, const char *);
void __v_nonzero(double);
void __v_cover(const char *);
void __v_bounded(const char *);
void __v_fail(const char *);
void __v_native_only(const char *);
double __v_diff(double, double);
double __v_integrate(double, double, double, double);
double __v_fresh(const char *);
// shared variables (dv/shared.py): declare, then the steps by which this thread changed it
void __v_shared(void *, size_t, int64_t, int64_t);
void __v_unshare(void *);
int64_t __v_nev();
void __v_ev(int64_t, void *, void *);
int64_t __v_evord(int64_t);
bool __v_seen(void *);
int64_t __v_nlocks();
}

#ifdef V_NATIVE
namespace vn {
struct reg { reg(const char * n, void (*f)()); };
}
#define CONTRACT(name) \
  extern "C" void vc_##name(); \
  static vn::reg vreg_##name{#name, vc_##name}; \
  extern "C" void vc_##name()
#else
#define CONTRACT(name) extern "C" void vc_##name()
#endif

namespace v {

inline double real(const char * n = "x") { return __v_real(n); }
inline int32_t i32(const char * n = "i") { return __v_i32(n); }
inline int64_t i64(const char * n = "l") { return __v_i64(n); }
inline int8_t i8(const char * n = "c") { return __v_i8(n); }
inline int16_t i16(const char * n = "h") { return __v_i16(n); }
inline bool boolean(const char * n = "b") { return __v_bool(n); }
inline int64_t choose(const char * n, int64_t lo, int64_t hi) { return __v_choose(n, lo, hi); }
inline int64_t range(const char * n, int64_t lo, int64_t hi) { return __v_range(n, lo, hi); }
#ifdef V_NATIVE
inline int64_t within(const char * n, int64_t lo, int64_t hi, int64_t) { __v_assume(lo <= hi); return __v_range(n, lo, hi); }
#else
// lo..hi, where hi may be symbolic and is at most top
inline int64_t within(const char * n, int64_t lo, int64_t hi, int64_t top) { int64_t r = __v_range(n, lo, top); __v_assume(r <= hi); return r; }
#endif
inline void assume(bool c) { __v_assume(c); }
inline void ensure(bool c, const char * m) { __v_assert(c, m); }
inline void nonzero(double x) { __v_nonzero(x); }
inline void cover(const char * m) { __v_cover(m); }
inline void native_only(const char * m) { __v_native_only(m); }
inline void bounded(const char * m) { __v_bounded(m); }
[[noreturn]] inline void never(const char * m) { __v_fail(m); __builtin_unreachable(); }

// a value of type T, arbitrary
template<typename T> struct any_ {
  static T get(const char * n) { 
    static_assert(std::is_arithmetic<T>::value, "");
    if constexpr (std::is_same<T, bool>::value) return __v_bool(n);
    else if constexpr (std::is_floating_point<T>::value) return T(__v_real(n));
    else if constexpr (sizeof(T) == 1) return T(__v_i8(n));
    else if constexpr (sizeof(T) == 2) return T(__v_i16(n));
    else if constexpr (sizeof(T) == 4) return T(__v_i32(n));
    else return T(__v_i64(n));
  }
};
template<typename T> inline T any(const char * n = "x") { return any_<T>::get(n); }

// an arbitrary T; integers are kept where C++ arithmetic on products of two is defined
template<typename T> inline T sm(const char * n = "x") {
  if constexpr (std::is_integral<T>::value && !std::is_same<T, bool>::value && sizeof(T) >= 2) return T(__v_range(n, std::is_signed<T>::value ? (sizeof(T) == 2 ? -180 : -30000) : 0, sizeof(T) == 2 ? 180 : 30000));
  else return any<T>(n);
}
template<typename T> inline T nz(const char * n = "x") {
  T x = sm<T>(n);
  if constexpr (std::is_floating_point<T>::value) nonzero(x); else assume(x != 0);
  return x;
}

// obligation a == b  (floating point: exact over the reals)
template<typename A, typename B> inline void eq(const A & a, const B & b, const char * m) {
  if constexpr (std::is_same<A, float>::value || std::is_same<B, float>::value) __v_feq(double(a), double(b), m);
  else if constexpr (std::is_floating_point<A>::value || std::is_floating_point<B>::value) __v_eq(double(a), double(b), m);
  else __v_assert(a == b, m);
}

// d f(x) / dx at the input x, and the integral of f over [a,b]
#ifdef V_NATIVE
template<typename F> double deriv(F && f, double x) {
  const double h = 1e-3; // 5-point stencil: exact to degree 4, error O(h^4) beyond
  return (-f(x + 2 * h) + 8 * f(x + h) - 8 * f(x - h) + f(x - 2 * h)) / (12 * h);
}
template<typename F> double integral(F && f, double a, double b) {
  static const double X[5] = {0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717};
  static const double W[5] = {0.2955242247147529, 0.2692667193099963, 0.2190863625159820, 0.1494513491505806, 0.0666713443086881};
  double c = .5 * (a + b), r = .5 * (b - a), s = 0;
  for (int i = 0; i < 5; ++i) s += W[i] * (f(c - r * X[i]) + f(c + r * X[i]));
  return s * r;
}
#else
template<typename F> double deriv(F && f, double x) { return __v_diff(f(x), x); }
template<typename F> double integral(F && f, double a, double b) {
  double x = __v_fresh("dx");
  return __v_integrate(f(x), x, a, b);
}
#endif

} // namespace v
