// P01: embedded Python: values pass exactly, references are owned, failures throw
#include "stl.h"
#include "v.h"
#include "libc.h"
#include "rbtree.h"
#include <string>
#include <stdexcept>
#include "pymodel.h"
#ifdef V_NATIVE
// the calls below fail at the chosen point, as the models do
#define PY_F(call) (py::fails() ? (PyErr_NoMemory(), nullptr) : (call))
#define PY_I(call) (py::fails() ? (PyErr_NoMemory(), -1) : (call))
static inline int py_set_item_fails(PyObject * e) { Py_XDECREF(e); PyErr_NoMemory(); return -1; }
#define PyLong_FromLong(x) PY_F(PyLong_FromLong(x))
#define PyLong_FromDouble(x) PY_F(PyLong_FromDouble(x))
#define PyFloat_FromDouble(x) PY_F(PyFloat_FromDouble(x))
#define PyNumber_Index(x) PY_F(PyNumber_Index(x))
#define PyLong_AsLong(x) PY_I(PyLong_AsLong(x))
#define PyTuple_New(x) PY_F(PyTuple_New(x))
#define PyTuple_GetItem(x, i) PY_F(PyTuple_GetItem(x, i))
#define PyTuple_SetItem(x, i, e) (py::fails() ? py_set_item_fails(e) : PyTuple_SetItem(x, i, e))
#define PyUnicode_DecodeFSDefault(x) PY_F(PyUnicode_DecodeFSDefault(x))
#define PyImport_Import(x) PY_F(PyImport_Import(x))
#define PySys_GetObject(x) (py::fails() ? nullptr : PySys_GetObject(x))
#define PySys_SetObject(x, o) PY_I(PySys_SetObject(x, o))
#define PyList_Insert(x, i, e) PY_I(PyList_Insert(x, i, e))
#define PyObject_GetAttrString(x, s) PY_F(PyObject_GetAttrString(x, s))
#define PyObject_CallObject(f, a) (py::fails() ? (PyErr_NoMemory(), nullptr) : py_quiet(f, a))
#define Py_DecodeLocale(x, n) (py::fails() ? nullptr : Py_DecodeLocale(x, n))
static inline PyObject * py_quiet(PyObject * f, PyObject * a) { ++py::off; PyObject * r = (PyObject_CallObject)(f, a); --py::off; return r; }
#endif
#include <ristra/embedded/embed_python.h>
#ifdef V_NATIVE
#undef PyLong_FromLong
#undef PyLong_FromDouble
#undef PyFloat_FromDouble
#undef PyNumber_Index
#undef PyLong_AsLong
#undef PyTuple_New
#undef PyTuple_GetItem
#undef PyTuple_SetItem
#undef PyUnicode_DecodeFSDefault
#undef PyImport_Import
#undef PySys_GetObject
#undef PySys_SetObject
#undef PyList_Insert
#undef PyObject_GetAttrString
#undef PyObject_CallObject
#undef Py_DecodeLocale
#endif
namespace re = ristra::embedded; using std::size_t; using std::string;
// ---- the interpreter under the contracts
namespace py {
#ifndef V_NATIVE
inline PyObject * text_of(const char * s) { text * x = make<text>(&PyUnicode_Type); x->s = s; return &x->o; }
inline PyObject * fn(PyCFunction f) { function * x = make<function>(&PyCFunction_Type); x->f = f; return &x->o; }
inline PyObject * huge() { integer * x = make<integer>(&PyLong_Type); x->v = 0; x->big = true; return &x->o; }
inline void start() { types(); ready = true; error = false; fault = off = 0; path = make<list>(&PyList_Type); path->l.ob_base.ob_size = 0; path->l.ob_item = path->room; ++off; for (int i = 0; i < 2; ++i) { PyObject * e = text_of(i ? "two" : "one"); path->room[i] = e; path->l.ob_base.ob_size = i + 1; } --off; }
inline PyObject * mod(const char * name, const char * attr, PyObject * val) { module * m = make<module>(&PyModule_Type); m->name = name; m->n = 1; m->attr[0] = attr; m->val[0] = val; Py_INCREF(val); known[modules++] = m; return &m->o; }
inline string path_at(size_t i) { return ((text *)path->room[i])->s; } inline size_t path_size() { return size_t(path->l.ob_base.ob_size); }
inline bool big_ref(PyObject * o, long n) { return o->ob_refcnt == n; }
inline bool is_int(PyObject * o, long x) { return o->ob_type == &PyLong_Type && !((integer *)o)->big && ((integer *)o)->v == x; }
inline long count() { return live; }
#else
inline PyObject * text_of(const char * s) { return PyUnicode_FromString(s); }
inline PyObject * fn(PyCFunction f) { auto d = new PyMethodDef{"f", f, METH_VARARGS, nullptr}; return PyCFunction_New(d, nullptr); }
inline PyObject * huge() { return PyLong_FromString("-99999999999999999999999", nullptr, 10); }
inline void start() { fault = off = 0; if (!Py_IsInitialized()) { Py_Initialize(); PyRun_SimpleString("import sys\nclass N:\n  def write(s, t): pass\n  def flush(s): pass\nsys.stderr = N()\n"); } PyErr_Clear(); PyObject * l = PyList_New(2); PyList_SetItem(l, 0, text_of("one")); PyList_SetItem(l, 1, text_of("two")); PySys_SetObject("path", l); Py_DECREF(l); }
inline PyObject * mod(const char * name, const char * attr, PyObject * val) { PyObject * m = PyImport_AddModule(name); Py_INCREF(m); PyObject_SetAttrString(m, attr, val); return m; }
inline string path_at(size_t i) { return PyUnicode_AsUTF8(PyList_GetItem(PySys_GetObject("path"), i)); } inline size_t path_size() { return PyList_Size(PySys_GetObject("path")); }
inline bool big_ref(PyObject * o, long n) { return _Py_IsImmortal(o) || Py_REFCNT(o) == n; }
inline bool is_int(PyObject * o, long x) { return PyLong_CheckExact(o) && PyLong_AsLong(o) == x; }
inline long count() { PyGC_Collect(); PyObject * f = PySys_GetObject("getallocatedblocks"), * r = PyObject_CallNoArgs(f); long n = PyLong_AsLong(r); Py_DECREF(r); return n; }
#endif
inline bool is_float(PyObject * o, double x) { return PyFloat_CheckExact(o) && ((PyFloatObject *)o)->ob_fval == x; }
inline bool pending() { return PyErr_Occurred() != nullptr; }
}
// f fails exactly as told, leaves no error pending and keeps no reference
template<class F> bool fails(int fault, F f) { bool threw = false; py::fault = fault; py::fired = false; try { f(); } catch (const std::runtime_error &) { threw = true; } py::fault = 0; v::ensure(!py::pending(), "no Python error is left pending"); return threw; }
#ifdef V_NATIVE
enum { TIMES = 24 };
#endif
// run f again and again: the number of objects alive does not grow (natively the interpreter's own caches fill at first)
template<class F> void balanced(F f) {
#ifdef V_NATIVE
  bool grew = true; for (int round = 0; grew && round < 8; ++round) { long a = py::count(); for (int k = 0; k < TIMES; ++k) f(); grew = py::count() - a >= TIMES; } v::ensure(!grew, "every reference taken is given back");
#else
  long a = py::count(); f(); v::ensure(a == py::count(), "every reference taken is given back");
#endif
}
const char * const exact = "the argument arrives as it is";
// ---- values
template<class T> void value() { py::start(); T x = T(v::i64("x")); int at = int(v::choose("fault", 0, 1)); balanced([=] { PyObject * o = nullptr; bool t = fails(at, [&] { o = re::python_get_value(x); }); v::ensure(t == py::fired, "throws exactly when Python fails"); if (!t) { v::ensure(py::is_int(o, long(x)) && py::big_ref(o, 1), "a new Python integer of that value"); re::python_free(o); } }); }
CONTRACT(value_int) { value<int>(); }
CONTRACT(value_long) { value<long>(); }
CONTRACT(value_double) { py::start(); double x = v::real("x"); int at = int(v::choose("fault", 0, 1)); balanced([=] { PyObject * o = nullptr; bool t = fails(at, [&] { o = re::python_get_value(x); }); v::ensure(t == py::fired, "throws exactly when Python fails"); if (!t) { v::ensure(py::is_float(o, x) && py::big_ref(o, 1), "a new Python float of that value"); re::python_free(o); } }); }
CONTRACT(as_long) { py::start(); int k = int(v::choose("kind", 0, 3)); long x = v::i64("x"); long w = v::choose("w", -3, 3); double h = v::choose("h", 0, 3) * 0.25; double d = w < 0 ? w - h : w + h; PyObject * o = k == 0 ? PyLong_FromLong(x) : k == 1 ? PyFloat_FromDouble(d) : k == 2 ? py::huge() : py::text_of("12"); int at = int(v::choose("fault", 0, 2)); balanced([=] { long r = 0; bool t = fails(at, [&] { r = re::python_as_long(o); }); v::ensure(t == (k >= 2 || py::fired), "throws exactly when it is no number a long can hold, or Python fails"); if (!t) v::ensure(r == (k == 0 ? x : w), "the value, truncated towards zero"); v::ensure(py::big_ref(o, 1), "the object is the caller's"); }); re::python_free(o); }
CONTRACT(as_double) { py::start(); int k = int(v::choose("kind", 0, 2)); long x = v::choose("x", -4, 4); double d = v::real("d"); PyObject * o = k == 0 ? PyLong_FromLong(x) : k == 1 ? PyFloat_FromDouble(d) : py::text_of("12"); balanced([=] { double r = 0; bool t = fails(0, [&] { r = re::python_as_double(o); }); v::ensure(t == (k == 2), "throws exactly when it is no number"); if (!t) { if (k == 0) v::ensure(r == double(x), "the value"); else v::ensure(r == d, "the value"); } v::ensure(py::big_ref(o, 1), "the object is the caller's"); }); re::python_free(o); }
// ---- calls
static struct { long l[4]; double d[4]; char kind[5]; long n; bool raises; PyObject * result; long calls; } C;
static PyObject * callee(PyObject *, PyObject * a) { ++C.calls; v::ensure(PyTuple_GET_SIZE(a) == C.n, "as many arguments as given"); for (long i = 0; i < C.n; ++i) { PyObject * e = PyTuple_GET_ITEM(a, i); if (C.kind[i] == 'd') v::ensure(py::is_float(e, C.d[i]), exact); else v::ensure(py::is_int(e, C.l[i]), exact); } if (C.raises) { PyErr_SetString(PyExc_RuntimeError, "raised"); return nullptr; } Py_INCREF(C.result); return C.result; }
static int I(int i) { C.kind[i] = 'i'; C.l[i] = v::i32("i"); return int(C.l[i]); } static long L(int i) { C.kind[i] = 'l'; return C.l[i] = v::i64("l"); } static double D(int i) { C.kind[i] = 'd'; return C.d[i] = v::real("d"); }
// 2 n + 2 calls into Python can fail: the tuple, each value and its placement, the call
template<class... A> void call(A... a) { C.n = sizeof...(A); C.raises = v::boolean("raises"); C.calls = 0; PyObject * res = C.result = py::text_of("result"); PyObject * f = py::fn(callee); bool callable = v::boolean("callable"); PyObject * g = callable ? f : C.result; int top = 2 * int(C.n) + 3, at = int(v::choose("fault", 0, top));
  balanced([=] { long before = C.calls; PyObject * r = nullptr; bool t = fails(at, [&] { r = re::python_call_function(g, a...); }); v::ensure(t == (!callable || C.raises || py::fired), "throws exactly when it is not callable, raises or Python fails"); long n = C.calls - before; v::ensure(callable && !py::fired ? n == 1 : n <= callable, "called once"); if (!t) { v::ensure(r == res, "what the function returned"); re::python_free(r); } }); v::ensure(py::big_ref(f, 1) && py::big_ref(res, 1), "function and result are given back"); re::python_free(f); re::python_free(res); }
CONTRACT(call_0) { py::start(); call(); }
CONTRACT(call_i) { py::start(); int a = I(0); call(a); }
CONTRACT(call_d) { py::start(); double a = D(0); call(a); }
CONTRACT(call_ld) { py::start(); long a = L(0); double b = D(1); call(a, b); }
CONTRACT(call_did) { py::start(); double a = D(0); int b = I(1); double c = D(2); call(a, b, c); }
CONTRACT(call_iill) { py::start(); int a = I(0), b = I(1); long c = L(2), d = L(3); call(a, b, c, d); }
CONTRACT(args) { py::start(); long a = L(0); double b = D(1); int at = int(v::choose("fault", 0, 5)); balanced([=] { PyObject * o = nullptr; bool t = fails(at, [&] { o = re::python_build_args(a, b); }); v::ensure(t == py::fired, "throws exactly when Python fails"); if (!t) { v::ensure(PyTuple_GET_SIZE(o) == 2 && py::is_int(PyTuple_GET_ITEM(o, 0), a) && py::is_float(PyTuple_GET_ITEM(o, 1), b), exact); re::python_free(o); } }); }
// ---- tuples
CONTRACT(tuple_get) { py::start(); size_t n = v::choose("n", 0, 3), i = size_t(v::i64("i")); if (v::boolean("near")) i = v::choose("k", 0, 4); PyObject * t = PyTuple_New(n); for (size_t k = 0; k < n; ++k) PyTuple_SetItem(t, k, PyFloat_FromDouble(double(k))); int at = int(v::choose("fault", 0, 1)); balanced([=] { PyObject * o = nullptr; bool threw = fails(at, [&] { o = re::python_get_tuple_element(t, i); }); v::ensure(threw == (i >= n || py::fired), "throws exactly for an index out of range"); if (!threw) v::ensure(py::is_float(o, double(i)) && o == PyTuple_GET_ITEM(t, i) && py::big_ref(o, 1), "the element itself"); }); re::python_free(t); }
CONTRACT(tuple_set) { py::start(); size_t n = v::choose("n", 0, 3), i = size_t(v::i64("i")); if (v::boolean("near")) i = v::choose("k", 0, 4); bool shared = v::boolean("shared"); PyObject * t = PyTuple_New(n); for (size_t k = 0; k < n; ++k) PyTuple_SetItem(t, k, PyFloat_FromDouble(double(k) + 0.5)); if (shared) Py_INCREF(t); long x = v::i64("x"); int at = int(v::choose("fault", 0, 2)); bool did = false; balanced([=, &did] { bool threw = fails(at, [&] { re::python_set_tuple_element(t, i, x); }); v::ensure(threw == (i >= n || (shared && n > 0) || py::fired), "throws exactly for an index out of range, a shared tuple or a failure in Python"); did = !threw; }); for (size_t k = 0; k < n; ++k) { PyObject * e = PyTuple_GET_ITEM(t, k); v::ensure(did && k == i ? py::is_int(e, x) : py::is_float(e, double(k) + 0.5), "that element is set, the others stay"); } if (shared) Py_DECREF(t); re::python_free(t); }
// ---- modules, attributes, the path
CONTRACT(import) { py::start(); PyObject * val = PyFloat_FromDouble(2.5); PyObject * m = py::mod("v_module", "x", val); bool known = v::boolean("known"); int at = int(v::choose("fault", 0, 2)); balanced([=] { PyObject * o = nullptr; bool t = fails(at, [&] { o = re::python_import(known ? "v_module" : "v_nothing"); }); v::ensure(t == (!known || py::fired), "throws exactly when the module cannot be imported"); if (!t) { v::ensure(o == m, "the module"); re::python_free(o); } });
  bool has = v::boolean("has"); int at2 = int(v::choose("fault", 0, 1)); balanced([=] { PyObject * o = nullptr; bool t = fails(at2, [&] { o = re::python_get_attribute(m, has ? "x" : "y"); }); v::ensure(t == (!has || py::fired), "throws exactly when the attribute cannot be read"); if (!t) { v::ensure(o == val, "the attribute"); re::python_free(o); } }); }
CONTRACT(path) { py::start(); int at = int(v::choose("fault", 0, 4)); static const char * const n[4] = {"", ".", "a/b", "a longer path than fits in place"}; int k = int(v::choose("k", 0, 3)); PyObject * l0 = PySys_GetObject("path"); Py_INCREF(l0); PyObject * l = nullptr; bool t = fails(at, [&] { l = re::python_add_to_path(n[k]); }); v::ensure(t == py::fired, "throws exactly when Python fails"); size_t s = py::path_size(); bool in = !t || s == 3; v::ensure(s == (in ? 3 : 2) && py::path_at(s - 2) == "one" && py::path_at(s - 1) == "two", "the other paths stay, in order"); if (in) v::ensure(py::path_at(0) == n[k] && py::big_ref(PyList_GET_ITEM(PySys_GetObject("path"), 0), 1), "the new path comes first"); if (!t) { v::ensure(l == PySys_GetObject("path") && py::big_ref(l, 3), "a reference of its own to the path"); re::python_free(l); } v::ensure(py::big_ref(l0, 2), "the path is kept"); Py_DECREF(l0); }
// ---- the interpreter
#ifndef V_NATIVE
static string program; static int ran;
extern "C" { PY_VM(void, Py_SetProgramName, const wchar_t * w) { program.clear(); for (; *w; ++w) program.push_back(char(*w)); }
PY_VM(int, PyRun_SimpleStringFlags, const char * s, PyCompilerFlags *) { ran += string(s) == "x = 1"; return 0; } }
CONTRACT(interpreter) { py::types(); py::ready = false; int at = int(v::choose("fault", 0, 1)); bool t = fails(at, [] { re::python_initialize(); }); v::ensure(t == py::fired && py::ready == !t, "throws exactly when Python does not start"); if (!t) { ran = 0; re::python_run_string("x = 1"); v::ensure(ran == 1, "runs the text once"); re::python_finalize(); v::ensure(!py::ready, "shut down"); } }
CONTRACT(program_name) { py::types(); int at = int(v::choose("fault", 0, 1)); bool t = fails(at, [] { re::python_set_program_name("prog name"); }); v::ensure(t == py::fired, "throws exactly when the name cannot be decoded"); if (!t) v::ensure(program == "prog name", "the name"); v::ensure(py::raw == 0, "the decoded name is freed"); }
CONTRACT(check) { py::types(); bool e = v::boolean("error"); py::error = e; py::printed = 0; re::python_check(); v::ensure(!py::error && py::printed == e, "a pending error is printed and cleared"); }
#else
CONTRACT(interpreter) { py::start(); re::python_initialize(); v::ensure(Py_IsInitialized(), "runs"); re::python_run_string("vx = 41 + 1"); PyObject * m = re::python_import("__main__"), * x = re::python_get_attribute(m, "vx"); v::ensure(re::python_as_long(x) == 42, "runs the text once"); re::python_free(x); re::python_free(m); }
#endif
CONTRACT(strings) { v::bounded("texts of up to four characters"); char b[5]; size_t n = v::choose("n", 0, 4); for (size_t k = 0; k < n; ++k) b[k] = char(v::range("c", 1, 127)); b[n] = 0; auto w = v::boolean("string") ? re::make_python_string(string(b)) : re::make_python_string(b); v::ensure(w.size() == n, "one wide character per ASCII character"); wchar_t * p = re::as_python_char(w); v::ensure(p == w.c_str() && p[n] == 0, "its characters"); for (size_t k = 0; k < n; ++k) v::ensure(p[k] == wchar_t(b[k]), "same characters"); }
