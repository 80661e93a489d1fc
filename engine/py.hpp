// the Python module in an embedded interpreter
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "layers.hpp"

extern "C" PyObject* PyInit_nikfemm(void);

namespace py {
// an owned reference
struct Ref {
    PyObject* o = nullptr;
    Ref() {}
    Ref(PyObject* p) : o(p) {}
    Ref(const Ref& r) : o(r.o) { Py_XINCREF(o); }
    Ref& operator=(Ref r) {
        std::swap(o, r.o);
        return *this;
    }
    ~Ref() { Py_XDECREF(o); }
    operator PyObject*() const { return o; }
};
inline Ref borrowed(PyObject* o) {
    Py_XINCREF(o);
    return Ref(o);
}
inline PyObject* module() {
    static PyObject* m = nullptr;
    if (m) return m;
    PyPreConfig pre;
    PyPreConfig_InitIsolatedConfig(&pre);
    pre.allocator = PYMEM_ALLOCATOR_MALLOC;  // so that the address sanitizer sees every object
    pre.utf8_mode = 1;
    Py_PreInitialize(&pre);
    PyImport_AppendInittab("nikfemm", PyInit_nikfemm);
    PyConfig c;
    PyConfig_InitIsolatedConfig(&c);
    c.site_import = 0;
    c.install_signal_handlers = 0;
    PyStatus st = Py_InitializeFromConfig(&c);
    PyConfig_Clear(&c);
    if (PyStatus_Exception(st)) {
        fprintf(stderr, "check: the interpreter does not start: %s\n", st.err_msg ? st.err_msg : "");
        abort();
    }
    m = PyImport_ImportModule("nikfemm");
    if (!m) PyErr_Print(), abort();
    return m;
}
// the outcome of a call: a value or the type and text of the exception
struct Out {
    Ref value;
    std::string error, text;
    bool ok() const { return error.empty(); }
};
inline std::string str(PyObject* o) {
    if (!o) return "NULL";
    Ref s(PyObject_Repr(o));
    const char* c = s ? PyUnicode_AsUTF8(s) : nullptr;
    if (!c) {
        PyErr_Clear();
        return "?";
    }
    return std::string(c).substr(0, 300);
}
inline Out outcome(PyObject* r) {
    Out u;
    u.value = Ref(r);
    if (r && PyErr_Occurred()) u.error = "value and error";
    if (!r && !PyErr_Occurred()) u.error = "no value and no error";
    if (PyErr_Occurred()) {
        PyObject *t, *v, *b;
        PyErr_Fetch(&t, &v, &b);
        PyErr_NormalizeException(&t, &v, &b);
        u.error = ((PyTypeObject*)t)->tp_name;
        u.text = str(v);
        Py_XDECREF(t), Py_XDECREF(v), Py_XDECREF(b);
    }
    return u;
}
inline Out call(PyObject* on, const char* method, PyObject* args) {
    // an interned name, as in a script: the interpreter's cache of methods keeps every other one it is asked for
    Ref n(PyUnicode_InternFromString(method));
    Ref f(PyObject_GetAttr(on, n));
    return outcome(f ? PyObject_CallObject(f, args) : nullptr);
}
inline Ref num(double x, bool asInt = false) {
    if (asInt && x == floor(x) && fabs(x) < 1e30) return Ref(PyLong_FromDouble(x));
    return Ref(PyFloat_FromDouble(x));
}
inline Ref point(nikfemm::Vector v, bool asInt = false) { return Ref(Py_BuildValue("[OO]", num(v.x, asInt).o, num(v.y, asInt).o)); }
}  // namespace py
