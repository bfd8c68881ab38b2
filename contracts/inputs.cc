// I01: inputs resolve to what their sources hold, Lua first, for every mix of sources and targets
#include "stl.h"
#include "v.h"
#include "libc.h"
#include "rbtree.h"
#include "luamodel.h"
#include <ristra/initialization/input_engine.h>
#include <ristra/initialization/init_value.h>
#include <ristra/initialization/input.h>
#include <ristra/assertions/dbc_impl.cc>
#ifdef V_NATIVE
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#endif
namespace le = ristra::embedded; using std::size_t; using std::string; using fn = std::function<double(double)>;
struct traits { using types = std::tuple<double, string, size_t, fn>; };
struct E : ristra::input_engine_t<traits> { using B = ristra::input_engine_t<traits>; template<class T> B::registry<T> & reg() { return this->template get_registry<T>(); } template<class T> B::target_set_t & targets() { return this->template get_target_set<T>(); } template<class T> B::target_set_t & failed() { return this->template get_failed_target_set<T>(); } };
template<class T> using IV = ristra::init_value_t<T, E>;
// a value of each kind; a function is x -> x + c
struct V { double d; size_t z; int s; double c; };
static const char * const texts[3] = {"", "one", "a longer text than fits in place"};
static V any_value(const char * n, int kind = -1) { V x{0, 0, 0, 0}; if (kind == 0 || kind < 0) x.d = v::real(n); if (kind == 1 || kind < 0) x.z = size_t(v::range("z", 0, 1l << 53)); if (kind == 2) x.s = int(v::choose("s", 0, 2)); if (kind == 3 || kind < 0) x.c = v::real("c"); return x; }
static V value(int k) { return V{k + 0.5, size_t(k), k % 3, double(k)}; }
template<class T> T of(const V & x); template<> double of(const V & x) { return x.d; } template<> size_t of(const V & x) { return x.z; } template<> string of(const V & x) { return texts[x.s]; } template<> fn of(const V & x) { double c = x.c; return [c](double y) { return y + c; }; }
static void same(double a, const V & x, const char * m) { v::eq(a, x.d, m); } static void same(size_t a, const V & x, const char * m) { v::ensure(a == x.z, m); } static void same(const string & a, const V & x, const char * m) { v::ensure(a == texts[x.s], m); } static void same(const fn & a, const V & x, const char * m) { v::ensure(bool(a), m); double y = v::real("y"); v::eq(a(y), y + x.c, m); }
// what the Lua file holds: hydro = {a = ..., mesh = {q = ...}}, and more as asked
static struct { bool a, b, other; V va, vb; int kind; } F;
#ifndef V_NATIVE
static int plus(lua_State * s) { lua_pushnumber(s, lua_tonumber(s, 1) + lua_tonumber(s, lua_upvalueindex(1))); return 1; }
static void put(lua_State * s, const V & x) { switch (F.kind) { case 0: lua_pushnumber(s, x.d); break; case 1: lua_pushinteger(s, lua_Integer(x.z)); break; case 2: lua_pushstring(s, texts[x.s]); break; default: lua_pushnumber(s, x.c); lua_pushcclosure(s, plus, 1); } }
static int script(lua_State * s) { lua_newtable(s); if (F.a) { put(s, F.va); lua_setfield(s, -2, "a"); } lua_newtable(s); if (F.b) { put(s, F.vb); lua_setfield(s, -2, "q"); } lua_setfield(s, -2, "mesh"); if (F.other) { lua_newtable(s); lua_pushinteger(s, 5); lua_rawseti(s, -2, 1); lua_pushinteger(s, 6); lua_rawseti(s, -2, 2); lua_setfield(s, -2, "list"); } lua_setglobal(s, "hydro");
  if (F.other) { lua_newtable(s); put(s, F.vb); lua_setfield(s, -2, "w"); lua_setglobal(s, "extra"); } return 0; }
template<class R> R with_file(R (*f)(const string &)) { lm::chunk = script; return f("inputs.lua"); }
#else
static string num(double d) { char b[64]; std::snprintf(b, sizeof b, "%.17g", d); return b; }
static string put(const V & x) { switch (F.kind) { case 0: return num(x.d); case 1: return std::to_string(x.z); case 2: return string("'") + texts[x.s] + "'"; default: return "function(x) return x + (" + num(x.c) + ") end"; } }
template<class R> R with_file(R (*g)(const string &)) { char n[] = "/tmp/inputsXXXXXX"; int f = mkstemp(n); string t = "hydro = {" + (F.a ? "a = " + put(F.va) + ", " : string()) + "mesh = {" + (F.b ? "q = " + put(F.vb) : string()) + "}" + (F.other ? ", list = {5, 6}" : "") + "}\n" + (F.other ? "extra = {w = " + put(F.vb) + "}\n" : string()); if (write(f, t.data(), t.size()) < 0) std::abort(); close(f); struct rm { const char * n; ~rm() { unlink(n); } } r{n}; return g(n); }
#endif
static ristra::lua_source_t * lua() { return with_file<ristra::lua_source_t *>([](const string & n) { return new ristra::lua_source_t(n); }); }
template<class T> struct kind_of; template<> struct kind_of<double> { enum { k = 0 }; }; template<> struct kind_of<size_t> { enum { k = 1 }; }; template<> struct kind_of<string> { enum { k = 2 }; }; template<> struct kind_of<fn> { enum { k = 3 }; };
static void fresh(E & e) { e.clear_registry(); ristra::hard_coded_source_t h; h.clear_registry<traits::types>(); F.a = F.b = F.other = false; F.kind = 0; }
static ristra::lua_source_t * lua_ab() { auto l = lua(); l->register_value("a", "hydro"); l->register_value("b", "mesh", "q"); return l; }
template<class T> void hard(const char * k, const V & x) { ristra::hard_coded_source_t h; std::map<string, T> m; m[k] = of<T>(x); h.set_registry<T>(m); }
const char * const prec = "the value comes from Lua, and from the hard coded source where Lua has none";
template<class T> bool throws(E & e, const char * k) { try { (void)e.template get_value<T>(k); } catch (const std::domain_error &) { return true; } return false; }
template<class T> void is(E & e, const char * k, bool found, const V & x) { v::ensure(e.template resolved<T>(k) == found, "resolved exactly when a source has it"); v::ensure(throws<T>(e, k) == !found, "an unresolved value throws std::domain_error"); if (found) same(e.template get_value<T>(k), x, prec); }
// two targets, each in Lua or not, hard coded or not
template<class T> void resolve() { E e; fresh(e); F.kind = kind_of<T>::k; bool l = v::boolean("lua"), h = v::boolean("hard"), ra = v::boolean("a"), rb = v::boolean("b"), ha = v::boolean("hard a"), hb = v::boolean("hard b"); F.a = l && v::boolean("lua a"); F.b = l && v::boolean("lua b"); F.va = F.kind == 2 ? value(8) : any_value("x", F.kind); F.vb = value(2); V xa = value(7), xb = value(4); if (!F.a && F.kind != 2) xa = any_value("y", F.kind);
  if (l) e.register_lua_source(lua_ab()); if (h) e.register_hard_coded_source(new ristra::hard_coded_source_t); if (ha) hard<T>("a", xa); if (hb) hard<T>("b", xb); if (ra) e.register_target<T>("a"); if (rb) e.register_target<T>("b");
  bool fa = F.a || (h && ha), fb = F.b || (h && hb), all = (!ra || fa) && (!rb || fb);
  v::ensure(e.resolve_inputs() == all, "true exactly when every target is resolved"); is<T>(e, "a", ra && fa, F.a ? F.va : xa); is<T>(e, "b", rb && fb, F.b ? F.vb : xb);
  size_t n = size_t(ra && !fa) + size_t(rb && !fb); v::ensure(e.failed<T>().size() == n && e.failed<T>().count("a") == size_t(ra && !fa) && e.failed<T>().count("b") == size_t(rb && !fb), "the failed targets are those not found"); v::ensure(e.targets<T>().size() == size_t(ra) + size_t(rb), "targets stay"); }
#define EACH(n) CONTRACT(n##_real) { n<double>(); } CONTRACT(n##_size) { n<size_t>(); } CONTRACT(n##_text) { n<string>(); } CONTRACT(n##_function) { n<fn>(); }
EACH(resolve)
// resolving again: the same values again, and new ones where a source changed
template<class T> void again() { E e; fresh(e); F.kind = kind_of<T>::k; bool l = v::boolean("lua"); F.a = v::boolean("lua a"); F.va = value(1); F.vb = value(2); V xa = any_value("y", F.kind), xb = value(4); if (l) e.register_lua_source(lua_ab()); e.register_hard_coded_source(new ristra::hard_coded_source_t); hard<T>("a", xa); e.register_target<T>("a"); e.register_target<T>("b");
  v::ensure(!e.resolve_inputs() && e.failed<T>().size() == 1, "b is not found"); is<T>(e, "a", true, l && F.a ? F.va : xa); v::ensure(!e.resolve_inputs() && e.failed<T>().size() == 1, "nor the second time"); is<T>(e, "a", true, l && F.a ? F.va : xa);
  hard<T>("b", xb); bool change = v::boolean("change"); V xc = value(5); if (change) hard<T>("a", xc); v::ensure(e.resolve_inputs() && e.failed<T>().empty(), "b is found now, and no longer failed"); is<T>(e, "b", true, xb); is<T>(e, "a", true, l && F.a ? F.va : change ? xc : xa); E o; is<T>(o, "a", true, l && F.a ? F.va : change ? xc : xa); }
EACH(again)
// sources registered later, in place of others
template<class T> void later() { E e; fresh(e); F.kind = kind_of<T>::k; V xa = value(1); bool inst = v::boolean("instant"), h = v::boolean("hard"); if (h) { e.register_hard_coded_source(new ristra::hard_coded_source_t); hard<T>("a", xa); } e.register_target<T>("a"); v::ensure(e.resolve_inputs() == h, "resolved"); is<T>(e, "a", h, xa); for (int k = 0; k < 2; ++k) { F.a = true; F.va = k ? any_value("x", F.kind) : value(2); e.register_lua_source(lua_ab()); if (inst) same(e.template get_instant_value<T>("a"), F.va, prec); else { v::ensure(e.resolve_inputs(), "resolved"); is<T>(e, "a", true, F.va); } } }
EACH(later)
template<class T> void instant() { E e; fresh(e); F.kind = kind_of<T>::k; bool l = v::boolean("lua"), h = v::boolean("hard"), ha = v::boolean("hard a"); F.a = l && v::boolean("lua a"); F.va = value(1); V xa = value(2); if (F.a) F.va = any_value("x", F.kind); else xa = any_value("y", F.kind); if (l) e.register_lua_source(lua_ab()); if (h) e.register_hard_coded_source(new ristra::hard_coded_source_t); if (ha) hard<T>("a", xa); bool found = F.a || (h && ha);
  for (int k = 0; k < 2; ++k) { bool threw = false; try { same(e.template get_instant_value<T>("a"), F.a ? F.va : xa, prec); } catch (const std::runtime_error &) { threw = true; } v::ensure(threw == !found, "throws exactly when no source has it"); } v::ensure(e.targets<T>().empty(), "no target is registered"); if (found) same(e.template get_value<T>("a"), F.a ? F.va : xa, prec);
  if (found && !F.a) { ristra::hard_coded_source_t s; s.clear_registry<traits::types>(); bool threw = false; try { (void)e.template get_instant_value<T>("a"); } catch (const std::runtime_error &) { threw = true; } v::ensure(threw, "throws exactly when no source has it"); } }
EACH(instant)
// one name, several types
CONTRACT(types) { E e; fresh(e); e.register_hard_coded_source(new ristra::hard_coded_source_t); bool d = v::boolean("d"), z = v::boolean("z"), s = v::boolean("s"), f = v::boolean("f"); V x = any_value("x"); hard<double>("n", x); hard<size_t>("n", x); hard<string>("n", x); hard<fn>("n", x); if (d) e.register_target<double>("n"); if (z) e.register_target<size_t>("n"); if (s) e.register_target<string>("n"); if (f) e.register_target<fn>("n"); v::ensure(e.resolve_inputs(), "all resolved"); is<double>(e, "n", d, x); is<size_t>(e, "n", z, x); is<string>(e, "n", s, x); is<fn>(e, "n", f, x); }
CONTRACT(types_failed) { E e; fresh(e); e.register_hard_coded_source(new ristra::hard_coded_source_t); bool d = v::boolean("d"), z = v::boolean("z"), s = v::boolean("s"), f = v::boolean("f"); V x = any_value("x"); if (d) hard<double>("n", x); if (z) hard<size_t>("n", x); if (s) hard<string>("n", x); if (f) hard<fn>("n", x); std::set<string> n; n.insert("n"); e.register_targets<double>(n); e.register_targets<size_t>(n); e.register_targets<string>(n); e.register_targets<fn>(n); v::ensure(e.resolve_inputs() == (d && z && s && f), "true exactly when the targets of every type are resolved"); is<double>(e, "n", d, x); is<size_t>(e, "n", z, x); is<string>(e, "n", s, x); is<fn>(e, "n", f, x); v::ensure(e.failed<double>().count("n") == !d && e.failed<size_t>().count("n") == !z && e.failed<string>().count("n") == !s && e.failed<fn>().count("n") == !f, "the failed targets are those not found"); }
CONTRACT(clear) { E e; fresh(e); e.register_hard_coded_source(new ristra::hard_coded_source_t); V x = value(1); hard<double>("n", x); hard<fn>("n", x); e.register_target<double>("n"); e.register_target<fn>("n"); e.register_target<string>("n"); v::ensure(!e.resolve_inputs(), "the text is missing"); { E o; o.clear_registry(); } is<double>(e, "n", false, x); is<fn>(e, "n", false, x); v::ensure(e.targets<double>().empty() && e.targets<fn>().empty() && e.targets<string>().empty() && e.failed<string>().empty(), "nothing is left"); v::ensure(e.resolve_inputs(), "nothing to resolve"); }
CONTRACT(targets) { E e; fresh(e); static const char * const n[3] = {"p", "q", "r"}; bool in[3]; size_t c = 0; for (int k = 0; k < 3; ++k) if ((in[k] = v::boolean("in"))) { ++c; e.register_target<size_t>(n[k]); if (v::boolean("twice")) e.register_target<size_t>(n[k]); } v::ensure(e.targets<size_t>().size() == c && e.targets<double>().empty(), "each target once, in its type"); for (int k = 0; k < 3; ++k) v::ensure(e.targets<size_t>().count(n[k]) == size_t(in[k]), "each target once, in its type"); }
CONTRACT(sources) { E e; fresh(e); v::ensure(!e.has_lua_source() && !e.has_hard_coded_source(), "none at first"); auto h = new ristra::hard_coded_source_t; e.register_hard_coded_source(h); v::ensure(e.has_hard_coded_source() && &e.get_hard_coded_source() == h && !e.has_lua_source(), "the registered source"); auto h2 = new ristra::hard_coded_source_t; e.register_hard_coded_source(h2); v::ensure(&e.get_hard_coded_source() == h2, "the last registered source"); auto l = lua(); e.register_lua_source(l); v::ensure(e.has_lua_source() && &e.get_lua_source() == l, "the registered source"); auto m = lua(); e.register_lua_source(m); v::ensure(&e.get_lua_source() == m, "the last registered source"); E o; v::ensure(!o.has_lua_source() && !o.has_hard_coded_source(), "sources belong to their engine"); }
// the Lua source
CONTRACT(lua_values) { E e; fresh(e); F.other = true; F.a = F.b = true; F.kind = 1; F.va = any_value("x"); F.vb = any_value("y"); std::unique_ptr<ristra::lua_source_t> l(lua()); v::ensure(!l->register_value("a", "hydro"), "nothing displaced"); bool key = v::boolean("key"); v::ensure(!l->register_value("b", "mesh", key ? "q" : ""), "nothing displaced"); size_t r = 0; v::ensure(l->get_value("a", r) && r == F.va.z, "the value in its table"); size_t q = 77; bool got = l->get_value("b", q); v::ensure(got == key && q == (key ? F.vb.z : 77), "under its Lua key"); auto raw = l->get_lua_result_raw("b"); v::ensure(raw.first == key && (!key || raw.second.as<size_t>() == F.vb.z), "under its Lua key"); le::lua_result_uptr_t u; v::ensure(l->get_value("b", u) == key && (!key || u->as<size_t>() == F.vb.z), "under its Lua key");
  v::ensure(l->register_value("b", "hydro", "a"), "displaced"); v::ensure(l->get_value("b", q) && q == F.va.z, "the new definition"); l->register_value("list", "hydro"); v::ensure(l->get_size("list") == 2, "size of the table"); }
CONTRACT(lua_tables) { E e; fresh(e); F.other = true; F.kind = 1; F.va = F.vb = any_value("y"); std::unique_ptr<ristra::lua_source_t> l(lua()); bool global = v::boolean("global"); if (global) { bool named = v::boolean("named"); v::ensure(!l->register_table(named ? "mine" : "extra", "base_state", named ? "extra" : ""), "nothing displaced"); l->register_value("w", named ? "mine" : "extra"); size_t r = 0; v::ensure(l->get_value("w", r) && r == F.vb.z, "the value in its table"); v::ensure(l->register_table("mesh", "base_state", "extra"), "displaced"); v::ensure(l->get_table("mesh")["w"].as<size_t>() == F.vb.z, "the new table"); } else { v::ensure(!l->register_table("list", "hydro"), "nothing displaced"); v::ensure(l->get_table("list")[2].as<int>() == 6 && l->get_table("hydro")["list"].size() == 2, "the table"); }
  bool threw = false; try { (void)l->get_table("none"); } catch (const std::exception &) { threw = true; } v::ensure(threw, "an unknown table throws"); threw = false; try { l->register_table("none"); } catch (const std::exception &) { threw = true; } v::ensure(threw, "a table the file does not have throws"); threw = false; try { (void)l->get_size("nokey"); } catch (const std::exception &) { threw = true; } v::ensure(threw, "an unknown key throws"); }
CONTRACT(lua_kind) { E e; fresh(e); F.a = true; F.kind = 2; F.va = value(1); e.register_lua_source(lua_ab()); e.register_hard_coded_source(new ristra::hard_coded_source_t); V x = value(2); hard<double>("a", x); e.register_target<double>("a"); bool threw = false; try { e.resolve_inputs(); } catch (const std::exception &) { threw = true; } v::ensure(threw, "a Lua value of the wrong kind throws"); }
// values that look themselves up
using st = ristra::init_val_status_t;
template<class T> void lookup() { E e; fresh(e); e.register_hard_coded_source(new ristra::hard_coded_source_t); V x = any_value("x", kind_of<T>::k); bool has = v::boolean("has"), good = v::boolean("valid"), space = v::boolean("namespace"); if (has) hard<T>(space ? "sp:n" : "n", x); hard<T>(space ? "n" : "sp:n", value(7)); int seen = 0; IV<T> i("n", [good, &seen](const T &) { ++seen; return good; }, space ? "sp" : ""); v::ensure(i.status() == st::registered && e.targets<T>().count(space ? "sp:n" : "n") == 1, "registered under its full name"); bool before = v::boolean("before"); if (before) { v::ensure(!i.resolved() && !i.valid(), "not before resolving"); }
  v::ensure(e.resolve_inputs() == has, "resolved"); v::ensure(seen == 0, "validated on use"); int op = int(v::choose("op", 0, 2)); if (op == 0) v::ensure(i.resolved() == has, "resolved exactly when a source has it"); if (op == 1) { v::ensure(i.valid() == (has && good), "valid exactly when resolved and accepted"); v::ensure(i.valid() == (has && good), "and again"); if (has) v::ensure(i.status() == (good ? st::valid : st::invalid), "status"); }
  bool threw = false; try { same(i.get(), x, "the resolved value"); } catch (const std::exception &) { threw = true; } v::ensure(threw == !(has && good), "get throws exactly when unresolved or rejected"); if (has) v::ensure(i.status() == (good ? st::valid : st::invalid), "status"); else v::ensure(i.status() == (st::resolve_failed) || op == 2 || i.status() == st::resolve_failed, "status"); if (has) v::ensure(i.valid() == good && seen >= 1, "valid exactly when resolved and accepted"); }
EACH(lookup)
CONTRACT(lookup_default) { E e; fresh(e); e.register_hard_coded_source(new ristra::hard_coded_source_t); V x = any_value("x"); hard<double>("n", x); IV<double> i("n"); v::ensure(e.resolve_inputs() && i.valid(), "anything is valid by default"); i.get() = 3; v::ensure(e.get_value<double>("n") == 3, "get refers to the registered value"); }
CONTRACT(status_name) { static const char * const n[7] = {"unregistered", "registered", "resolve_failed", "initialized", "invalid", "valid", "unknown"}; int k = int(v::choose("k", 0, 6)); v::ensure(ristra::init_val_status_name(st(k)) == n[k], "name of the status"); }
// the plain input file
CONTRACT(input_file) { namespace ri = ristra::initialization; static ri::input_t * in; ri::input_t mine; in = v::boolean("shared") ? &ri::input_t::instance() : &mine; v::ensure(&ri::input_t::instance() == &ri::input_t::instance(), "one shared input"); F.other = F.a = true; F.b = v::boolean("b"); F.kind = 1; F.va = any_value("x", 1); F.vb = value(3); static string name; name = with_file<string>([](const string & n) { in->load(n); return n; }); v::ensure(in->filename() == name, "the name of the loaded file"); const ri::input_t & c = *in;
  v::ensure(c["hydro"]["a"].as<size_t>() == F.va.z && c["none"].empty(), "the value in the file"); v::ensure(c.try_access("hydro")["a"].as<size_t>() == F.va.z && c.try_access("extra")["w"].as<size_t>() == F.vb.z, "the value in the file"); auto m = c["hydro"]["mesh"]; bool threw = false; try { auto q = inputs_try_access_as(m, "q", size_t); v::ensure(q == F.vb.z, "the value in the file"); } catch (const std::runtime_error &) { threw = true; } v::ensure(threw == !F.b, "throws exactly when the file does not have it"); threw = false; try { auto q = inputs_try_access(m, "q"); v::ensure(q.as<size_t>() == F.vb.z, "the value in the file"); } catch (const std::runtime_error &) { threw = true; } v::ensure(threw == !F.b, "throws exactly when the file does not have it"); threw = false; try { (void)c.try_access("none"); } catch (const std::runtime_error &) { threw = true; } v::ensure(threw, "throws exactly when the file does not have it");
#ifndef V_NATIVE
  lm::chunk = 0;
#endif
  threw = false; try { in->load("/nonexistent/inputs.lua"); } catch (const std::runtime_error &) { threw = true; } v::ensure(threw && in->filename() == name && c["hydro"]["a"].as<size_t>() == F.va.z, "a file that cannot be loaded throws and changes nothing"); v::ensure(in->register_group("g", "t") && in->register_parameter("g", "n", "m", size_t(3)) && in->register_parameter("g", "x", "m", 1.5) && in->register_parameter("g", "f", "m", 1.5f) && in->register_parameter("g", "s", "m", string("text")), "registered"); v::ensure(in->filename() == name && c["hydro"]["a"].as<size_t>() == F.va.z, "values stay"); }
