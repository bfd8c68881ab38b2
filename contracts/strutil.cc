// U03: string utilities
#include "stl.h"
#include "v.h"
#include "libc.h"
#include "rbtree.h"
#include <cassert>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <ristra/utils/string_utils.h>
namespace ru = ristra::utils; using std::size_t; using std::string;
#ifndef STREAMS
// an arbitrary string, also kept as a plain array
template<size_t L> struct str { char c[L + 1]; size_t n; string s;
  str(const char * nm, size_t lo = 0, bool nul = true) { n = v::choose("len", lo, L); for (size_t i = 0; i < n; ++i) { c[i] = v::i8(nm); if (!nul && c[i] == 0) c[i] = 'a'; } s.assign(c, n); }
  void same(const char * m) const { is(s, c, n, m); }
  static void is(const string & t, const char * c, size_t n, const char * m) { v::ensure(t.size() == n, m); for (size_t i = 0; i < n; ++i) v::ensure(t[i] == c[i], m); } };
static void is(const string & t, const char * c, size_t n, const char * m) { str<1>::is(t, c, n, m); }
// position after the last occurrence of x in c[a..n), or a
static size_t after(const char * c, size_t a, size_t n, char x) { for (size_t i = n; i > a; --i) if (c[i - 1] == x) return i; return a; }
template<size_t L> void paths() {
  v::bounded("path length up to the stated value"); str<L> p("c"); 
  size_t b = after(p.c, 0, p.n, '/'), e = after(p.c, b, p.n, '.'); bool has = e > b;
  int op = v::choose("op", 0, 3);
  if (op == 0) is(ru::basename(p.s), p.c + b, p.n - b, "basename is what follows the last separator");
  else if (op == 1) is(ru::file_extension(p.s), p.c + e, has ? p.n - e : 0, "extension is what follows the last dot of the file name");
  else if (op == 2) is(ru::remove_extension(p.s), p.c, has ? e - 1 : p.n, "remove_extension keeps everything before the extension dot");
  else { auto q = ru::split_extension(p.s); is(q.first, p.c, has ? e - 1 : p.n, "split_extension: name part"); is(q.second, p.c + e, has ? p.n - e : 0, "split_extension: extension part"); }
  p.same("argument unchanged");
}
CONTRACT(paths_5) { paths<5>(); }
template<size_t L, size_t F, size_t T> void repl() {
  v::bounded("string lengths up to the stated values"); str<L> s("s"); str<F> f("f"); str<T> t("t");
  char o[L * (T + 1) + 1]; size_t m = 0;
  for (size_t i = 0; i < s.n;) { bool hit = f.n > 0 && i + f.n <= s.n; for (size_t k = 0; hit && k < f.n; ++k) if (s.c[i + k] != f.c[k]) hit = false;
    if (hit) { for (size_t k = 0; k < t.n; ++k) o[m++] = t.c[k]; i += f.n; } else o[m++] = s.c[i++]; }
  is(ru::replace_all(s.s, f.s, t.s), o, m, "every non-overlapping occurrence, left to right, is replaced and nothing else"); s.same("argument unchanged"); f.same("argument unchanged"); t.same("argument unchanged");
}
CONTRACT(replace_3_2_2) { repl<3, 2, 2>(); }
CONTRACT(replace_4_2_1) { repl<4, 2, 1>(); }
CONTRACT(replace_3_1_3) { repl<3, 1, 3>(); }
#ifdef THOROUGH
CONTRACT(paths_8) { paths<8>(); }
CONTRACT(replace_5_3_1) { repl<5, 3, 1>(); }
#endif
CONTRACT(num_digits) {
  uint32_t n = v::any<uint32_t>("n"); uint64_t lo = 0, hi = 10; unsigned d = 1; while (n >= hi) { lo = hi; hi *= 10; ++d; } (void)lo;
  v::ensure(ru::num_digits(n) == d, "number of decimal digits");
}
#else
#ifdef V_NATIVE
enum { LEN = 12, SYM = 7, DEL = 3 };
#else
enum { LEN = 3, SYM = 4, DEL = 2 };
#endif
CONTRACT(zero_padded) {
  unsigned n = v::any<uint32_t>("n"), p = v::choose("p", 0, 14); auto s = v::boolean("dflt") ? (p = 6, ru::zero_padded(n)) : ru::zero_padded(n, p);
  char b[32]; size_t l = 0; for (unsigned x = n; x; x /= 10) b[l++] = char('0' + int(x % 10)); if (!l) b[l++] = '0'; while (l < p) b[l++] = '0';
  v::ensure(s.size() == l, "padded length"); for (size_t i = 0; i < l; ++i) v::ensure(s[i] == b[l - 1 - i], "zeros then the decimal digits");
}
CONTRACT(split) {
  v::bounded("texts and delimiter lists up to the stated lengths"); string s; size_t n = v::choose("n", 0, LEN), k = v::choose("k", 0, DEL); std::vector<char> d; static const char al[] = "a,\xe9 \t;b:";
  for (size_t i = 0; i < k; ++i) d.push_back(al[v::choose("d", 1, SYM)]); for (size_t i = 0; i < n; ++i) s.push_back(al[v::choose("c", 0, SYM)]); const string s0(s);
  bool dflt = k == 1 && d[0] == ' ' && v::boolean("default"); auto r = dflt ? ru::split(s) : ru::split(s, d); size_t j = 0;
  for (size_t i = 0; i < n;) { auto isd = [&](char c) { for (char x : d) if (x == c) return true; return c == ' ' || c == '\t'; };
    if (isd(s0[i])) { ++i; continue; } size_t e = i; while (e < n && !isd(s0[e])) ++e; v::ensure(j < r.size() && r[j] == s0.substr(i, e - i), "tokens are the maximal runs without delimiters, in order"); ++j; i = e; }
  v::ensure(j == r.size(), "no further tokens"); v::ensure(s == s0, "argument unchanged");
}
CONTRACT(split_again) {
  static const char al[] = "a,b;"; string s; size_t n = v::choose("n", 1, LEN); for (size_t i = 0; i < n; ++i) s.push_back(al[v::choose("c", 0, 3)]); (void)ru::split(s, {',', 'b'}); auto t = ru::split(s, {'a'}); size_t c = 0, m = 0; for (char x : s) if (x != 'a') ++m; for (auto & x : t) { v::ensure(!x.empty() && x.find('a') == string::npos, "delimiters of this call split"); c += x.size(); } v::ensure(c == m, "delimiters of an earlier call do not persist");
}
CONTRACT(to_string_int) { int i = v::i32("i"); auto s = ru::to_string(i); uint32_t x = i; if (i < 0) x = 0 - x; size_t n = s.size(); v::ensure(n > 0, "text"); size_t k = n; do { v::ensure(k > 0, "no fewer digits"); --k; v::ensure(s[k] == char('0' + int(x % 10)), "decimal text of an int"); x /= 10; } while (x); if (i < 0) v::ensure(k == 1 && s[0] == '-', "sign"); else v::ensure(k == 0, "no more"); }
CONTRACT(to_string_text) { v::bounded("texts of up to six characters"); string s; size_t n = v::choose("n", 0, 6); for (size_t k = 0; k < n; ++k) s.push_back(v::i8("c")); v::ensure(ru::to_string(s) == s, "text of a string"); char c = v::i8("x"); v::ensure(ru::to_string(c) == string(1, c) && ru::to_string(true) == "1" && ru::to_string("lit") == "lit", "text of a character, a bool, a literal"); }
CONTRACT(to_wstring) {
  v::bounded("texts of up to seven characters"); char b[8]; size_t n = v::choose("n", 0, 7); for (size_t k = 0; k < n; ++k) b[k] = char(v::range("c", 1, 127)); b[n] = 0; auto w = ru::to_wstring(b); v::ensure(w.size() == n, "one wide character per ASCII character"); for (size_t k = 0; k < n; ++k) v::ensure(w[k] == wchar_t(b[k]), "same characters");
}
#endif
