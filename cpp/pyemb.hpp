// embedded Python interpreter with the Python layer of the working tree and stand-ins for the compiled classes
#pragma once
#include "vp.hpp"
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#include <numpy/arrayobject.h>
#include <cpp2py/cpp2py.hpp>
#include <cstdlib>
#include <filesystem>
#define VP_FAIL(...) vp::fail(__LINE__, __VA_ARGS__)
namespace pye {
  using cpp2py::pyref;
  inline PyObject *globals = nullptr;
  inline std::string error() { PyObject *t, *v, *tb; PyErr_Fetch(&t, &v, &tb); PyErr_NormalizeException(&t, &v, &tb); pyref T(t), V(v), B(tb); if (!v) return "no error"; pyref s = PyObject_Str(v); return std::string(((PyTypeObject *)t)->tp_name) + ": " + (s.is_null() ? "?" : PyUnicode_AsUTF8(s)); }
  inline void init() {
    if (globals) return;
    setenv("PYTHONMALLOC", "malloc", 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
    Py_Initialize();
    if (_import_array() < 0) throw vp::Failure{"harness: numpy not importable: " + error()};
    auto root = std::filesystem::path(__FILE__).parent_path().parent_path() / "py";
    std::string code = "import sys\nsys.path.insert(0, '" + root.string() + "')\nsys.dont_write_bytecode = True\nimport common\ncommon.load()\nimport numpy as np, weakref, gc\nimport triqs.gf as gf, triqs.lattice as lattice\nfrom triqs.gf import *\n";
    globals = PyDict_New(); PyDict_SetItemString(globals, "__builtins__", PyEval_GetBuiltins());
    pyref r = PyRun_String(code.c_str(), Py_file_input, globals, globals);
    if (r.is_null()) throw vp::Failure{"harness: python layer not importable: " + error()};
  }
  using A = std::vector<std::pair<char const *, PyObject *>>;
  inline pyref ev(std::string const &e, A const &a = {}) { pyref l = PyDict_Copy(globals); for (auto &[k, v] : a) PyDict_SetItemString(l, k, v); pyref r = PyRun_String(e.c_str(), Py_eval_input, l, l); if (r.is_null()) throw vp::Failure{"harness: evaluating " + e + ": " + error()}; return r; }
  inline void run(std::string const &e, A const &a = {}) { pyref l = PyDict_Copy(globals); for (auto &[k, v] : a) PyDict_SetItemString(l, k, v); pyref r = PyRun_String(e.c_str(), Py_file_input, l, l); if (r.is_null()) throw vp::Failure{"harness: running " + e + ": " + error()}; }
  inline bool yes(std::string const &e, A const &a = {}) { pyref l = PyDict_Copy(globals); for (auto &[k, v] : a) PyDict_SetItemString(l, k, v); pyref r = PyRun_String(e.c_str(), Py_eval_input, l, l); if (r.is_null()) { VP_FAIL("the expression ", e, " raised ", error()); } return PyObject_IsTrue(r) == 1; }
  // an object of a compiled class holding a copy of a C++ object
  template <typename T> struct wrapped {
    struct ob { PyObject_HEAD; T *_c; };
    static PyTypeObject *type() { static PyTypeObject *t = [] { static PyType_Slot s[] = {{Py_tp_dealloc, (void *)+[](PyObject *o) { delete ((ob *)o)->_c; auto *ty = Py_TYPE(o); ty->tp_free(o); Py_DECREF(ty); }}, {0, nullptr}}; static PyType_Spec sp = {"wrapped", sizeof(ob), 0, Py_TPFLAGS_DEFAULT, s}; return (PyTypeObject *)PyType_FromSpec(&sp); }(); return t; }
    static PyObject *c2py(T const &x) { auto *o = type()->tp_alloc(type(), 0); ((ob *)o)->_c = new T(x); return o; }
    static bool is_convertible(PyObject *o, bool r) { if (Py_TYPE(o) == type()) return true; if (r) PyErr_SetString(PyExc_TypeError, "not the wrapped class"); return false; }
    static T &py2c(PyObject *o) { return *((ob *)o)->_c; }
  };
}
