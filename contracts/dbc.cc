// D01: design-by-contract assertions and error macros act exactly when the condition fails
#include "stl.h"
#include "v.h"
#include "libc.h"
#include "rbtree.h"
#include <array>
#include <iostream>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <ristra/assertions/dbc.h>
#include <ristra/assertions/errors.h>
#include <ristra/assertions/dbc_impl.cc>
namespace d = ristra::assertions::dbc; namespace ra = ristra::assertions;
#ifdef RISTRA_REQUIRE_ON
constexpr bool on = true;
#else
constexpr bool on = false;
#endif
#ifdef RISTRA_DBC_THROW
constexpr bool throws = true, writes = false;
#elif defined RISTRA_DBC_NOTIFY
constexpr bool throws = false, writes = true;
#else
constexpr bool throws = false, writes = false;
#endif
static bool has(const std::string & a, const std::string & b) { if (b.size() > a.size()) return false; for (size_t i = 0; i + b.size() <= a.size(); ++i) { size_t j = 0; while (j < b.size() && a[i + j] == b[j]) ++j; if (j == b.size()) return true; } return false; }
static std::string dec(long x) { if (x < 0) return "-" + dec(-x); std::string r; if (x >= 10) r = dec(x / 10); r.push_back(char('0' + x % 10)); return r; }
static std::string full(const std::string & cond, const char * file, int line, const char * fn) { return std::string(file) + ":" + dec(line) + ":" + fn + " assertion '" + cond + "' failed.\n"; }

#ifdef V_NATIVE
#define V_WHAT what = e.what();
#else
#define V_WHAT
#endif
// run one assertion with a recording action, then with the configured one; an empty text is not compared
struct seen_t { int n; std::string cond, file, fn; int line; };
template<class F> void check(F && f, bool want, bool active, bool returns, const std::string & text, const char * fn, int & line) {
  if (v::boolean("recorded")) { seen_t s{0, "", "", "", 0}; d::action_t keep = d::dbc_action; d::dbc_action = [&s](const std::string & c, const char * file, const char * fn, int l) { ++s.n; s.cond = c; s.file = file; s.fn = fn; s.line = l; };
    bool r = f(); d::dbc_action = keep; v::ensure(s.n == (want || !active ? 0 : 1), "the action runs exactly when the condition fails"); if (returns) v::ensure(r == want, "the assertion gives the truth of its condition");
    if (s.n) { if (!text.empty()) v::ensure(s.cond == text, "the message says what failed"); v::ensure(s.file == __FILE__ && s.fn == fn && s.line == line, "the message names the place"); } return; }
  std::stringstream out; std::ostream * keep = d::p_str; d::p_str = &out; bool threw = false, r = want; std::string what;
  try { r = f(); } catch (const std::logic_error & e) { threw = true; V_WHAT } d::p_str = keep; bool acts = active && !want;
  v::ensure(threw == (acts && throws), "throws exactly when configured to, and the condition fails"); if (returns && !threw) v::ensure(r == want, "the assertion gives the truth of its condition");
  if (!(acts && writes)) v::ensure(out.str().empty(), "nothing is written unless configured to, and the condition fails"); else if (!text.empty()) v::ensure(out.str() == full(text, __FILE__, line, fn), "the notification names condition and place"); else v::ensure(!out.str().empty(), "a failure is notified");
#ifdef V_NATIVE
  if (threw && !text.empty()) v::ensure(what == full(text, __FILE__, line, fn), "the exception names condition and place");
#endif
}
template<class T> struct in { T x, y, z; }; static in<int> I; static in<double> R;
static int evals; template<class T> const T & once(const T & x) { ++evals; return x; }
static int l_eq, l_ne, l_or, l_gt, l_ge, l_lt, l_1, l_in, l_re, l_ch, l_en; static bool B; static std::set<int> S;
static bool a_eq() { int a = I.x, b = I.y; l_eq = __LINE__; return Equal(once(a), b); }
static bool a_ne() { int a = I.x, b = I.y; l_ne = __LINE__; return NotEqual(once(a), b); }
static bool a_or() { int a = I.x, b = I.y, c = I.z; l_or = __LINE__; return InOpenRange(a, b, c); }
static bool a_gt() { int a = I.x, b = I.y; l_gt = __LINE__; return GreaterThan(once(a), b); }
static bool a_ge() { int a = I.x, b = I.y; l_ge = __LINE__; return GreaterEqual(once(a), b); }
static bool a_lt() { int a = I.x, b = I.y; l_lt = __LINE__; return LessThan(once(a), b); }
static bool r_eq() { double a = R.x, b = R.y; l_eq = __LINE__; return Equal(once(a), b); }
static bool r_ne() { double a = R.x, b = R.y; l_ne = __LINE__; return NotEqual(once(a), b); }
static bool r_or() { double a = R.x, b = R.y, c = R.z; l_or = __LINE__; return InOpenRange(a, b, c); }
static bool r_gt() { double a = R.x, b = R.y; l_gt = __LINE__; return GreaterThan(once(a), b); }
static bool r_ge() { double a = R.x, b = R.y; l_ge = __LINE__; return GreaterEqual(once(a), b); }
static bool r_lt() { double a = R.x, b = R.y; l_lt = __LINE__; return LessThan(once(a), b); }
static bool a_1() { int a = I.x; l_1 = __LINE__; return OneOf(a, S); }
static std::multiset<int> MS; static int l_m; static bool a_m() { int a = I.x; l_m = __LINE__; return OneOf(a, MS); }
static bool a_in() { l_in = __LINE__; Insist(once(B), "insisted") return false; }
static bool a_re() { l_re = __LINE__; Require(once(B), "required") return false; }
static bool a_ch() { l_ch = __LINE__; Check(once(B), "checked") return false; }
static bool a_en() { l_en = __LINE__; Ensure(once(B), "ensured") return false; }
static int some(const char * n) { static const int t[5] = {-10, 0, 7, 42, 123}; return t[v::choose(n, 0, 4)]; }
static void ints() { I.x = some("x"); I.y = some("y"); I.z = some("z"); evals = 0; }
static void reals() { R.x = v::real("x"); R.y = v::real("y"); R.z = v::real("z"); evals = 0; }
static std::string par(const char * n, int x) { return std::string(n) + " (" + dec(x) + ")"; }
#define ONCE v::ensure(evals == 1, "the argument is evaluated once")
#define TWO(n, op, text) CONTRACT(n) { reals(); check(r_##n, R.x op R.y, on, true, "", "r_" #n, l_##n); ONCE; } CONTRACT(n##_text) { v::bounded("texts: a few numbers of up to three digits"); ints(); check(a_##n, I.x op I.y, on, true, text, "a_" #n, l_##n); ONCE; }
TWO(eq, ==, "once(a) != b") TWO(ne, !=, "once(a) expected != b") TWO(gt, >, par("once(a)", I.x) + " <= " + dec(I.y)) TWO(ge, >=, par("once(a)", I.x) + " < " + dec(I.y)) TWO(lt, <, par("once(a)", I.x) + " >= " + dec(I.y))
CONTRACT(range) { reals(); check(r_or, R.x > R.y && R.x < R.z, on, true, "", "r_or", l_or); } CONTRACT(range_text) { v::bounded("texts: a few numbers of up to three digits"); ints(); check(a_or, I.x > I.y && I.x < I.z, on, true, par("a", I.x) + " was not in range (" + dec(I.y) + "," + dec(I.z) + ")", "a_or", l_or); }
#define COND(n, f, act, text) CONTRACT(n) { B = v::boolean("condition"); evals = 0; check(f, B, act, false, text, #f, l_##n); v::ensure(evals == (act ? 1 : 0), "the condition is evaluated once, or not at all when switched off"); }
COND(in, a_in, true, "insisted") COND(re, a_re, on, "required") COND(ch, a_ch, on, "checked") COND(en, a_en, on, "ensured")
// operands may be any expression, with operators that bind weaker than the macro's own
#define LOOSE(n, M, op)  static bool h_##n() { double a = R.x, b = R.y; l_##n = __LINE__; return M(a < 0 ? a : b, b < 1 ? b : a); } CONTRACT(loose_##n) { reals(); double p = R.x < 0 ? R.x : R.y, q = R.y < 1 ? R.y : R.x; check(h_##n, p op q, on, true, "", "h_" #n, l_##n); }
LOOSE(eq, Equal, ==) LOOSE(ne, NotEqual, !=) LOOSE(gt, GreaterThan, >) LOOSE(ge, GreaterEqual, >=) LOOSE(lt, LessThan, <)
static bool h_or() { double a = R.x, b = R.y, c = R.z; l_or = __LINE__; return InOpenRange(a < 0 ? a : b, b < 1 ? b : c, c < 0 ? a : c); }
CONTRACT(loose_range) { reals(); double p = R.x < 0 ? R.x : R.y, q = R.y < 1 ? R.y : R.z, r = R.z < 0 ? R.x : R.z; check(h_or, p > q && p < r, on, true, "", "h_or", l_or); }
static bool h_in() { bool a = B, b = I.x != 0; l_in = __LINE__; Insist(a || b, "insisted") return false; }
static bool h_re() { bool a = B, b = I.x != 0; (void)a; (void)b; l_re = __LINE__; Require(a ? b : !b, "required") return false; }
static bool h_ch() { bool a = B, b = I.x != 0; (void)a; (void)b; l_ch = __LINE__; Check(a ? b : !b, "checked") return false; }
static bool h_en() { bool a = B, b = I.x != 0; (void)a; (void)b; l_en = __LINE__; Ensure(a ? b : !b, "ensured") return false; }
#define LCOND(n, act, want, text) CONTRACT(loose_##n) { B = v::boolean("a"); I.x = v::i32("x"); bool b = I.x != 0; check(h_##n, want, act, false, text, "h_" #n, l_##n); }
LCOND(in, true, B || b, "insisted") LCOND(re, on, B ? b : !b, "required") LCOND(ch, on, B ? b : !b, "checked") LCOND(en, on, B ? b : !b, "ensured")
CONTRACT(one_of) { I.x = v::i32("x"); int n = int(v::choose("n", 0, 2)); S.clear(); bool in = !on; for (int i = 0; i < n; ++i) { int e = v::i32("e"); S.insert(e); in = in || e == I.x; } check(a_1, in, on, true, "a not in set", "a_1", l_1); }
CONTRACT(one_of_multi) { I.x = v::i32("x"); int n = int(v::choose("n", 0, 2)); MS.clear(); bool in = !on; for (int i = 0; i < n; ++i) { int e = v::i32("e"); MS.insert(e); in = in || e == I.x; } check(a_m, in, on, true, "a not in set", "a_m", l_m); }
// the functions behind the macros, for any comparable type, with a caller's own action
CONTRACT(assertf) { bool c = v::boolean("condition"); int n = 0, l = int(v::i32("line")), gl = 0; const char *f = "file", *g = "func"; bool same = false; std::string txt("text"); d::action_t act = [&](const std::string & s, const char * a, const char * b, int k) { ++n; gl = k; same = a == f && b == g && s == "text"; };
  bool lazy = v::boolean("lazy"), r; int made = 0; auto gen = [&] { ++made; return txt; }; r = lazy ? d::assertf_l(c, gen, f, g, l, act) : d::assertf(c, txt, f, g, l, act);
  v::ensure(r == c, "gives the condition"); v::ensure(n == (c ? 0 : 1), "the action runs once, exactly when the condition fails"); if (n) v::ensure(gl == l && same, "the action gets text and place"); v::ensure(made == (lazy && !c ? 1 : 0), "the text is made only when needed"); }
CONTRACT(message) { v::bounded("a few line numbers of up to four digits"); int l = v::boolean("long") ? 1234 : some("line"); v::assume(l >= 0); v::ensure(d::build_message("c", "f", "g", l) == "f:" + dec(l) + ":g assertion 'c' failed.\n", "the message names file, line, function and condition"); }
#ifdef ERRORS
// error macros
CONTRACT(errors) { int k = int(v::choose("macro", 0, 4)), got = -1; bool c = v::boolean("condition");
  try { switch (k) { case 0: THROW_RUNTIME_ERROR("a" << 1); break; case 1: THROW_LOGIC_ERROR("b"); break; case 2: THROW_FILE_ERROR("name"); break; case 3: THROW_IMPLEMENTED_ERROR("c"); break; default: assert_true(c, "d"); got = 9; } }
  catch (const ra::ExceptionRunTime & e) { got = 0; } catch (const ra::ExceptionLogic & e) { got = 1; } catch (const ra::ExceptionNotImplemented & e) { got = 3; } catch (const ra::ExceptionFileError & e) { got = 2;
#ifdef V_NATIVE
    v::ensure(has(e.what(), "name"), "the exception names the file");
#endif
  }
  v::ensure(got == (k < 4 ? k : c ? 9 : 0), "each macro raises its own exception, assert_true exactly when the condition fails"); }
CONTRACT(loose_assert) { bool a = v::boolean("a"), b = v::boolean("b"), threw = false; try { assert_true(a || b, "x"); } catch (const ra::ExceptionRunTime &) { threw = true; } v::ensure(threw == !(a || b), "assert_true takes any expression"); }
CONTRACT(bases) { int k = int(v::choose("class", 0, 5)), got = -1; try { try { switch (k) { case 0: throw ra::ExceptionRunTime(); case 1: throw ra::ExceptionFileError("f"); case 2: throw ra::ExceptionConvergenceFailure(); case 3: throw ra::ExceptionFloatingPoint(); case 4: throw ra::ExceptionLogic(); default: throw ra::ExceptionNotImplemented(); } } catch (const std::runtime_error &) { got = 0; } } catch (const std::logic_error &) { got = 1; } v::ensure(got == (k < 4 ? 0 : 1), "exceptions are runtime or logic errors"); }
CONTRACT(here) { v::bounded("a few line numbers of up to four digits"); int l = v::boolean("long") ? 1234 : some("line"); v::assume(l >= 0); v::ensure(ra::here_str_func("file", "fn", l, "text") == "file:fn:" + dec(l) + " text", "HERE_STR names file, function, line and message"); }
#endif
