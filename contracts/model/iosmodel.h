// Assumed contract of libstdc++'s character streams, used by the verifier in place of the external library
// (natively the real streams run): a stream is the text written to it. Integers, characters and strings appear as
// C++ specifies with default flags, std::setw and std::setfill; floating point appears as "?".
#pragma once
#include <iosfwd>
#include <stdexcept>
#include <bits/localefwd.h>
#include <string>
extern "C" __attribute__((used)) inline void __vm_iosmodel() {}
namespace std {
// a locale is its character classification, of which only white space is modelled
struct ctype_base { typedef unsigned short mask; static const mask space = 1 << 13; };
class locale { public: const ctype<char> * ct_ = nullptr; locale() {} template<class F> locale(const locale &, F * f) : ct_(f) {} };
template<> class ctype<char> : public ctype_base { const mask * t_; public: static const size_t table_size = 256; explicit ctype(const mask * t = 0, bool = false, size_t = 0) : t_(t) {} virtual ~ctype() {}
  static const mask * classic_table() { static mask t[256]; t[' '] = t['\t'] = t['\n'] = t['\v'] = t['\f'] = t['\r'] = space; return t; } const mask * table() const { return t_ ? t_ : classic_table(); } bool is(mask m, char c) const { return (table()[(unsigned char)c] & m) != 0; } };
template<class C, class T> class basic_streambuf { public: typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; };
template<class C, class T> class basic_ios { public: basic_string<C, T> buf_; size_t pos_ = 0; int width_ = 0; C fill_ = ' '; bool bad_ = false; locale loc_; locale imbue(const locale & l) { locale o = loc_; loc_ = l; return o; }
  basic_ios() {} basic_ios(const basic_ios &) = delete; virtual ~basic_ios() {} explicit operator bool() const { return !bad_; } bool operator!() const { return bad_; } bool fail() const { return bad_; } };
template<class C, class T> class basic_ostream : virtual public basic_ios<C, T> { public:
  typedef basic_ostream O;
  O & text(const C * s, size_t n) { for (size_t k = n; k < size_t(this->width_ > 0 ? this->width_ : 0); ++k) this->buf_.push_back(this->fill_); this->width_ = 0; for (size_t k = 0; k < n; ++k) this->buf_.push_back(s[k]); return *this; }
  template<class I> O & number(I x) { C d[24]; int n = 24; bool neg = x < I(0); typename std::make_unsigned<I>::type u = x; if (neg) u = 0 - u; do { d[--n] = C('0' + int(u % 10)); u = u / 10; } while (u != 0); if (neg) d[--n] = '-'; return text(d + n, size_t(24 - n)); }
  O & operator<<(int x) { return number<int>(x); } O & operator<<(unsigned x) { return number<unsigned>(x); } O & operator<<(long x) { return number<long>(x); } O & operator<<(unsigned long x) { return number<unsigned long>(x); }
  O & operator<<(long long x) { return number<long long>(x); } O & operator<<(unsigned long long x) { return number<unsigned long long>(x); } O & operator<<(short x) { return number<int>(x); } O & operator<<(unsigned short x) { return number<int>(x); } O & operator<<(bool b) { return number<int>(b); }
  O & operator<<(double) { return text("?", 1); } O & operator<<(float) { return text("?", 1); } O & operator<<(const void *) { return text("?", 1); } O & operator<<(O & (*f)(O &)) { return f(*this); } O & put(C c) { this->buf_.push_back(c); return *this; } O & flush() { return *this; } };
template<class C, class T> class basic_istream : virtual public basic_ios<C, T> { public: bool sp(C c) const { return this->loc_.ct_ ? this->loc_.ct_->is(ctype_base::space, c) : ctype<char>().is(ctype_base::space, c); } };
template<class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { };
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template<class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> { public: basic_stringstream() {} explicit basic_stringstream(const basic_string<C, T, A> & s) { this->buf_ = s; } basic_string<C, T, A> str() const { return this->buf_; } };
template<class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> { public: basic_ostringstream() {} explicit basic_ostringstream(const basic_string<C, T, A> & s) { this->buf_ = s; } basic_string<C, T, A> str() const { return this->buf_; } };
template<class C, class T, class A> class basic_istringstream : public basic_istream<C, T> { public: explicit basic_istringstream(const basic_string<C, T, A> & s) { this->buf_ = s; } basic_string<C, T, A> str() const { return this->buf_; } };
_GLIBCXX_END_NAMESPACE_CXX11
inline ostream & operator<<(ostream & o, const char * s) { size_t n = 0; while (s[n]) ++n; return o.text(s, n); }
inline ostream & operator<<(ostream & o, const string & s) { return o.text(s.data(), s.size()); }
inline ostream & operator<<(ostream & o, char c) { return o.text(&c, 1); }
template<class C, class T> basic_ostream<C, T> & endl(basic_ostream<C, T> & o) { return o.put('\n'); }
template<class C, class T> basic_ostream<C, T> & flush(basic_ostream<C, T> & o) { return o; }
struct _vm_setw { int n; }; struct _vm_setfill { char c; }; inline _vm_setw setw(int n) { return {n}; } inline _vm_setfill setfill(char c) { return {c}; }
inline ostream & operator<<(ostream & o, _vm_setw w) { o.width_ = w.n; return o; } inline ostream & operator<<(ostream & o, _vm_setfill f) { o.fill_ = f.c; return o; }
inline istream & operator>>(istream & i, string & s) { while (i.pos_ < i.buf_.size() && i.sp(i.buf_[i.pos_])) ++i.pos_; s.erase(); if (i.bad_ || i.pos_ >= i.buf_.size()) { i.bad_ = true; return i; } while (i.pos_ < i.buf_.size() && !i.sp(i.buf_[i.pos_])) s.push_back(i.buf_[i.pos_++]); return i; }
inline ostream cout, cerr, clog;
}
