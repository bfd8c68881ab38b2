// Assumed contract of the CPython 3.12 C API (Python/C API reference manual), as reference bodies the verifier uses in
// place of libpython; natively the real libpython runs. Objects keep CPython's layout, so that the inline parts of
// Python.h (Py_INCREF, Py_DECREF, PyTuple_GET_SIZE, type checks) are verified as they are; reading or releasing an object
// after its last reference is gone is a failed memory obligation. Integers are machine longs or one "too large" value.
// A call that can fail does so at the point the contract chooses (py::fault), with the error indicator set where the
// manual says so; natively the same calls are made to fail at the same point.
#pragma once
#include <Python.h>
namespace py { inline int fault = 0, off = 0; inline bool fired = false; inline bool fails() { if (off || !fault || --fault) return false; return fired = true; } }
#ifndef V_NATIVE
PyTypeObject PyLong_Type, PyBool_Type, PyFloat_Type, PyTuple_Type, PyList_Type, PyUnicode_Type, PyModule_Type, PyCFunction_Type;
PyObject * PyExc_RuntimeError, * PyExc_TypeError, * PyExc_MemoryError;
namespace py {
inline bool error = false, ready = false, broken = false; inline long live = 0, raw = 0, printed = 0, runs = 0;
struct integer { PyObject o; long v; bool big; }; struct text { PyObject o; std::string s; }; struct module { PyObject o; std::string name; const char * attr[3]; PyObject * val[3]; int n; }; struct function { PyObject o; PyCFunction f; };
struct list { PyListObject l; PyObject * room[8]; };
inline PyObject err_type; inline module * known[3]; inline int modules = 0; inline list * path = 0;
inline void types() { PyLong_Type.tp_flags = Py_TPFLAGS_LONG_SUBCLASS; PyFloat_Type.tp_flags = 0; PyTuple_Type.tp_flags = Py_TPFLAGS_TUPLE_SUBCLASS; PyList_Type.tp_flags = Py_TPFLAGS_LIST_SUBCLASS; PyUnicode_Type.tp_flags = Py_TPFLAGS_UNICODE_SUBCLASS; }
template<class T> T * make(PyTypeObject * t) { T * x = new T; PyObject * o = (PyObject *)x; o->ob_refcnt = 1; o->ob_type = t; ++live; return x; }
inline void need(bool c) { if (!c) __v_fail("precondition of the Python API"); }
inline PyObject * raise() { error = true; return nullptr; }
}
#define PY_VM(r, n, ...) __attribute__((used)) inline r __vm_##n(__VA_ARGS__)
extern "C" {
PY_VM(void, _Py_Dealloc, PyObject * o) { py::need(o->ob_refcnt == 0); --py::live; PyTypeObject * t = o->ob_type;
  if (t == &PyTuple_Type) { PyTupleObject * x = (PyTupleObject *)o; for (Py_ssize_t i = 0; i < x->ob_base.ob_size; ++i) if (x->ob_item[i]) { PyObject * e = x->ob_item[i]; if (--e->ob_refcnt == 0) __vm__Py_Dealloc(e); } ::operator delete(o); }
  else if (t == &PyLong_Type) delete (py::integer *)o; else if (t == &PyFloat_Type) delete (PyFloatObject *)o; else if (t == &PyUnicode_Type) delete (py::text *)o; else if (t == &PyModule_Type) { py::module * m = (py::module *)o; for (int i = 0; i < m->n; ++i) { PyObject * e = m->val[i]; if (--e->ob_refcnt == 0) __vm__Py_Dealloc(e); } delete m; } else if (t == &PyCFunction_Type) delete (py::function *)o;
  else { py::list * l = (py::list *)o; for (Py_ssize_t i = 0; i < l->l.ob_base.ob_size; ++i) { PyObject * e = l->room[i]; if (--e->ob_refcnt == 0) __vm__Py_Dealloc(e); } delete l; } }
PY_VM(int, PyType_IsSubtype, PyTypeObject * a, PyTypeObject * b) { return a == b; }
PY_VM(PyObject *, PyErr_Occurred) { return py::error ? &py::err_type : nullptr; }
PY_VM(void, PyErr_Print) { py::error = false; ++py::printed; }
PY_VM(void, PyErr_PrintEx, int) { py::error = false; ++py::printed; }
PY_VM(void, PyErr_Clear) { py::error = false; }
PY_VM(PyObject *, PyErr_NoMemory) { return py::raise(); }
PY_VM(void, PyErr_SetString, PyObject *, const char *) { py::error = true; }
PY_VM(PyObject *, PyLong_FromLong, long v) { if (py::fails()) return py::raise(); py::integer * x = py::make<py::integer>(&PyLong_Type); x->v = v; x->big = false; return &x->o; }
PY_VM(PyObject *, PyLong_FromDouble, double d) { if (py::fails()) return py::raise(); py::integer * x = py::make<py::integer>(&PyLong_Type); x->big = d >= 9223372036854775808. || d <= -9223372036854775809.; x->v = x->big ? 0 : long(d); return &x->o; }
PY_VM(PyObject *, PyFloat_FromDouble, double d) { if (py::fails()) return py::raise(); PyFloatObject * x = py::make<PyFloatObject>(&PyFloat_Type); x->ob_fval = d; return (PyObject *)x; }
PY_VM(PyObject *, PyNumber_Index, PyObject * o) { if (o->ob_type != &PyLong_Type || py::fails()) return py::raise(); ++o->ob_refcnt; return o; }
PY_VM(PyObject *, PyNumber_Long, PyObject * o) { if (o->ob_type == &PyFloat_Type) return __vm_PyLong_FromDouble(((PyFloatObject *)o)->ob_fval); return __vm_PyNumber_Index(o); }
PY_VM(long, PyLong_AsLong, PyObject * o) { if (o->ob_type != &PyLong_Type || ((py::integer *)o)->big || py::fails()) { py::error = true; return -1; } return ((py::integer *)o)->v; }
PY_VM(long, PyLong_AsLongAndOverflow, PyObject * o, int * f) { *f = 0; if (o->ob_type != &PyLong_Type || py::fails()) { py::error = true; return -1; } if (((py::integer *)o)->big) { *f = 1; return -1; } return ((py::integer *)o)->v; }
PY_VM(double, PyFloat_AsDouble, PyObject * o) { if (o->ob_type == &PyFloat_Type) return ((PyFloatObject *)o)->ob_fval; if (o->ob_type != &PyLong_Type || ((py::integer *)o)->big || py::fails()) { py::error = true; return -1; } return double(((py::integer *)o)->v); }
PY_VM(PyObject *, PyTuple_New, Py_ssize_t n) { if (py::fails()) return py::raise(); py::need(n >= 0); PyTupleObject * x = (PyTupleObject *)::operator new(sizeof(PyTupleObject) + size_t(n) * sizeof(PyObject *)); x->ob_base.ob_base.ob_refcnt = 1; x->ob_base.ob_base.ob_type = &PyTuple_Type; x->ob_base.ob_size = n; for (Py_ssize_t i = 0; i < n; ++i) x->ob_item[i] = nullptr; ++py::live; return (PyObject *)x; }
PY_VM(Py_ssize_t, PyTuple_Size, PyObject * o) { if (o->ob_type != &PyTuple_Type) { py::error = true; return -1; } return ((PyTupleObject *)o)->ob_base.ob_size; }
PY_VM(PyObject *, PyTuple_GetItem, PyObject * o, Py_ssize_t i) { PyTupleObject * x = (PyTupleObject *)o; if (o->ob_type != &PyTuple_Type || i < 0 || i >= x->ob_base.ob_size || py::fails()) return py::raise(); return x->ob_item[i]; }
PY_VM(int, PyTuple_SetItem, PyObject * o, Py_ssize_t i, PyObject * e) { PyTupleObject * x = (PyTupleObject *)o; if (o->ob_type != &PyTuple_Type || o->ob_refcnt != 1 || i < 0 || i >= x->ob_base.ob_size || py::fails()) { Py_XDECREF(e); py::error = true; return -1; } PyObject * old = x->ob_item[i]; x->ob_item[i] = e; Py_XDECREF(old); return 0; }
PY_VM(PyObject *, PyUnicode_DecodeFSDefault, const char * s) { if (py::fails()) return py::raise(); py::text * x = py::make<py::text>(&PyUnicode_Type); x->s = s; return &x->o; }
PY_VM(PyObject *, PyUnicode_FromString, const char * s) { return __vm_PyUnicode_DecodeFSDefault(s); }
PY_VM(PyObject *, PyUnicode_DecodeFSDefaultAndSize, const char * s, Py_ssize_t n) { if (py::fails()) return py::raise(); py::text * x = py::make<py::text>(&PyUnicode_Type); x->s.assign(s, size_t(n)); return &x->o; }
PY_VM(PyObject *, PyUnicode_FromStringAndSize, const char * s, Py_ssize_t n) { return __vm_PyUnicode_DecodeFSDefaultAndSize(s, n); }
PY_VM(PyObject *, PyImport_Import, PyObject * o) { py::need(o->ob_type == &PyUnicode_Type); if (py::fails()) return py::raise(); for (int i = 0; i < py::modules; ++i) if (py::known[i]->name == ((py::text *)o)->s) { ++py::known[i]->o.ob_refcnt; return &py::known[i]->o; } return py::raise(); }
PY_VM(PyObject *, PyImport_ImportModule, const char * s) { if (py::fails()) return py::raise(); for (int i = 0; i < py::modules; ++i) if (py::known[i]->name == s) { ++py::known[i]->o.ob_refcnt; return &py::known[i]->o; } return py::raise(); }
PY_VM(PyObject *, PySys_GetObject, const char * s) { if (std::string(s) != "path" || py::fails()) return nullptr; return (PyObject *)py::path; }
PY_VM(int, PySys_SetObject, const char * s, PyObject * o) { py::need(std::string(s) == "path"); if (py::fails()) { py::error = true; return -1; } Py_INCREF(o); PyObject * old = (PyObject *)py::path; py::path = (py::list *)o; Py_XDECREF(old); return 0; }
PY_VM(int, PyList_Insert, PyObject * o, Py_ssize_t i, PyObject * e) { py::list * l = (py::list *)o; if (o->ob_type != &PyList_Type || py::fails()) { py::error = true; return -1; } Py_ssize_t n = l->l.ob_base.ob_size; py::need(n < 8 && i >= 0); if (i > n) i = n; for (Py_ssize_t k = n; k > i; --k) l->room[k] = l->room[k - 1]; Py_INCREF(e); l->room[i] = e; l->l.ob_base.ob_size = n + 1; return 0; }
PY_VM(int, PyList_Append, PyObject * o, PyObject * e) { return __vm_PyList_Insert(o, ((py::list *)o)->l.ob_base.ob_size, e); }
PY_VM(PyObject *, PyObject_GetAttrString, PyObject * o, const char * s) { if (o->ob_type == &PyModule_Type && !py::fails()) { py::module * m = (py::module *)o; for (int i = 0; i < m->n; ++i) if (std::string(m->attr[i]) == s) { Py_INCREF(m->val[i]); return m->val[i]; } } return py::raise(); }
PY_VM(PyObject *, PyObject_GetAttr, PyObject * o, PyObject * s) { py::need(s && s->ob_type == &PyUnicode_Type); return __vm_PyObject_GetAttrString(o, ((py::text *)s)->s.c_str()); }
PY_VM(int, PyCallable_Check, PyObject * o) { return o && o->ob_type == &PyCFunction_Type; }
PY_VM(PyObject *, PyObject_CallObject, PyObject * o, PyObject * a) { if (!o || o->ob_type != &PyCFunction_Type || py::fails()) return py::raise(); py::need(a && a->ob_type == &PyTuple_Type && !py::error); for (Py_ssize_t i = 0; i < ((PyTupleObject *)a)->ob_base.ob_size; ++i) py::need(((PyTupleObject *)a)->ob_item[i]); ++py::off; PyObject * r = ((py::function *)o)->f(nullptr, a); --py::off; py::need(r ? !py::error : py::error); return r; }
PY_VM(PyObject *, PyObject_Call, PyObject * o, PyObject * a, PyObject * k) { py::need(!k); return __vm_PyObject_CallObject(o, a); }
PY_VM(void, Py_IncRef, PyObject * o) { Py_XINCREF(o); }
PY_VM(void, Py_DecRef, PyObject * o) { Py_XDECREF(o); }
PY_VM(wchar_t *, Py_DecodeLocale, const char * s, size_t * n) { if (py::fails()) return nullptr; size_t k = 0; while (s[k]) ++k; wchar_t * w = new wchar_t[k + 1]; for (size_t i = 0; i <= k; ++i) w[i] = wchar_t(s[i]); if (n) *n = k; ++py::raw; return w; }
PY_VM(void, PyMem_RawFree, void * p) { if (p) { delete[] (wchar_t *)p; --py::raw; } }
PY_VM(void, Py_Initialize) { py::ready = !py::fails(); }
PY_VM(int, Py_IsInitialized) { return py::ready; }
PY_VM(void, Py_Finalize) { py::need(py::ready); py::ready = false; }
PY_VM(int, Py_FinalizeEx) { py::need(py::ready); py::ready = false; return 0; }
}
#endif
