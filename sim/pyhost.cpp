// Python ranks: an embedded interpreter inside the simulator. Every simulated rank is one Python thread state on one fiber; the wrapper
// module of the tree is executed once per rank on top of that rank's copy of the library. ctypes releases the interpreter lock around
// every library call, so ranks interleave exactly at the points at which the simulator switches ranks.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "rt.h"
#include <dlfcn.h>
#include <string.h>
#include <algorithm>

static HostApi *api; static PyObject *runf;
static const Op &opat(int i) { return SC->ops[i]; }
static PyObject *py_begin(PyObject *, PyObject *a) { int i; if (!PyArg_ParseTuple(a, "i", &i)) return nullptr; api->op_begin(i); Py_RETURN_NONE; }
static PyObject *py_end(PyObject *, PyObject *a) { int i; if (!PyArg_ParseTuple(a, "i", &i)) return nullptr; api->op_end(i); Py_RETURN_NONE; }
static PyObject *py_lib(PyObject *, PyObject *a) { int i; if (!PyArg_ParseTuple(a, "i", &i)) return nullptr; if (cur) api->lib(i); Py_RETURN_NONE; }
static PyObject *py_obs(PyObject *, PyObject *a) { int op, tag, aux; Py_buffer b; if (!PyArg_ParseTuple(a, "iiiy*", &op, &tag, &aux, &b)) return nullptr; std::vector<double> v(b.len / 8); if (b.len) memcpy(v.data(), b.buf, v.size() * 8); PyBuffer_Release(&b); api->obs(op, tag, aux, v.size(), v.data()); Py_RETURN_NONE; }
static PyObject *py_note(PyObject *, PyObject *a) { int op, code; const char *m; if (!PyArg_ParseTuple(a, "iis", &op, &code, &m)) return nullptr; api->note(op, code, m); Py_RETURN_NONE; }
static PyObject *py_comm(PyObject *, PyObject *a) { int i; if (!PyArg_ParseTuple(a, "i", &i)) return nullptr; return PyLong_FromVoidPtr(api->comm(opat(i).comm)); }
static PyObject *py_member(PyObject *, PyObject *a) { int i; if (!PyArg_ParseTuple(a, "i", &i)) return nullptr; return PyBool_FromLong(api->member(i)); }
static PyObject *py_abort(PyObject *, PyObject *) { api->abort_run(); Py_RETURN_NONE; }
static PyObject *py_census(PyObject *, PyObject *) { return Py_BuildValue("[ddd]", (double)api->census(0), (double)api->census(1), (double)api->census(2)); }
static PyObject *py_op(PyObject *, PyObject *a) {   // (kind, [a0..a9], [d0..d5], number of rows)
  int i; if (!PyArg_ParseTuple(a, "i", &i)) return nullptr; const Op &o = opat(i); int me = cur->rank; PyObject *A = PyList_New(10), *D = PyList_New(6);
  for (int k = 0; k < 10; k++) PyList_SET_ITEM(A, k, PyLong_FromLong(o.a[k])); for (int k = 0; k < 6; k++) PyList_SET_ITEM(D, k, PyFloat_FromDouble(o.d[k]));
  return Py_BuildValue("sNNl", op_names[o.kind], A, D, (long)(me < (int)o.rows.size() ? o.rows[me].size() : 0));
}
static PyObject *py_rows(PyObject *, PyObject *a) {
  int i; if (!PyArg_ParseTuple(a, "i", &i)) return nullptr; const Op &o = opat(i); int me = cur->rank; std::vector<double> q;
  if (me < (int)o.rows.size()) for (size_t k = 0; k < o.rows[me].size(); k++) { const Row &r = o.rows[me][k]; for (double x : {r.phi, r.theta, r.psi, 1e3 * u01(hash3(SC->envseed, i * 100 + me, k)), -1e6 * u01(hash3(SC->envseed, i * 100 + me, k + 77777))}) q.push_back(x); }
  return PyBytes_FromStringAndSize((char *)q.data(), q.size() * 8);
}
static PyObject *py_coef(PyObject *, PyObject *a) {   // op, component, lmax, mmax: complex numbers in the library's order
  int i, c, L, M; if (!PyArg_ParseTuple(a, "iiii", &i, &c, &L, &M)) return nullptr; const Op &o = opat(i); FileSpec f = setdata_spec(o.a[1], o.a[2], L, M); std::vector<double> v;
  for (int m = 0; m <= M; m++) for (int l = m; l <= L; l++) { float re, im; alm_value(f, c, l, m, re, im); v.push_back(re); v.push_back(im); }
  return PyBytes_FromStringAndSize((char *)v.data(), v.size() * 8);
}
extern "C" { int MPI_Comm_rank(void *, int *); int MPI_Comm_size(void *, int *); }
static PyObject *py_commq(PyObject *, PyObject *a) { unsigned long long h; int size, v = 0; if (!PyArg_ParseTuple(a, "Ki", &h, &size)) return nullptr; if (size) MPI_Comm_size((void *)h, &v); else MPI_Comm_rank((void *)h, &v); return PyLong_FromLong(v); }
static PyMethodDef methods[] = {{"commq", py_commq, METH_VARARGS, 0}, {"begin", py_begin, METH_VARARGS, 0}, {"end", py_end, METH_VARARGS, 0}, {"lib", py_lib, METH_VARARGS, 0}, {"obs", py_obs, METH_VARARGS, 0}, {"note", py_note, METH_VARARGS, 0}, {"comm", py_comm, METH_VARARGS, 0},
  {"member", py_member, METH_VARARGS, 0}, {"abort", py_abort, METH_VARARGS, 0}, {"census", py_census, METH_VARARGS, 0}, {"op", py_op, METH_VARARGS, 0}, {"rows", py_rows, METH_VARARGS, 0}, {"coef", py_coef, METH_VARARGS, 0}, {0, 0, 0, 0}};
static PyModuleDef mod = {PyModuleDef_HEAD_INIT, "simhost", nullptr, -1, methods, 0, 0, 0, 0};
static PyObject *mkmod() { return PyModule_Create(&mod); }

// start the interpreter, load the wrapper once per rank; leaves the lock released
extern "C" int simpy_init(const char *driver, const char *libdir, int nranks) {
  if (!dlopen("libpython3.12.so.1.0", RTLD_NOW | RTLD_GLOBAL)) { fprintf(stderr, "python: %s\n", dlerror()); return 1; }
  PyImport_AppendInittab("simhost", mkmod);
  PyConfig c; PyConfig_InitPythonConfig(&c); c.use_environment = 0; c.user_site_directory = 0; c.write_bytecode = 0; c.install_signal_handlers = 0; c.use_hash_seed = 1; c.hash_seed = 0; c.buffered_stdio = 0;
  PyConfig_SetBytesString(&c, &c.program_name, "/usr/bin/python3");
  PyStatus st = Py_InitializeFromConfig(&c); PyConfig_Clear(&c); if (PyStatus_Exception(st)) { fprintf(stderr, "python: %s\n", st.err_msg ? st.err_msg : "no start"); return 1; }
  FILE *f = fopen(driver, "r"); if (!f) { perror(driver); return 1; } std::string src; int ch; while ((ch = fgetc(f)) != EOF) src += (char)ch; fclose(f);
  PyObject *g = PyDict_New(); PyDict_SetItemString(g, "__builtins__", PyEval_GetBuiltins());
  PyObject *code = Py_CompileString(src.c_str(), driver, Py_file_input), *r = code ? PyEval_EvalCode(code, g, g) : nullptr;
  if (r) { PyObject *init = PyDict_GetItemString(g, "init"); r = PyObject_CallFunction(init, "si", libdir, nranks); }
  if (!r) { PyErr_Print(); return 1; }
  if (PyObject_IsTrue(r) != 1) return 1;
  runf = PyDict_GetItemString(g, "run"); PyEval_SaveThread(); return 0;
}
extern "C" int simpy_rank(HostApi *a, const Scenario *s, int rank) {
  api = a; PyThreadState *t = PyThreadState_New(PyInterpreterState_Main()); PyEval_RestoreThread(t);
  PyObject *r = PyObject_CallFunction(runf, "ii", rank, (int)s->ops.size());
  if (!r) { PyObject *e = PyErr_GetRaisedException(), *x = e ? PyObject_Repr(e) : nullptr; rt_violation(V_HARNESS, "the Python driver failed: %s", x ? PyUnicode_AsUTF8(x) : "?"); }
  Py_DECREF(r); PyThreadState_Clear(t); PyThreadState_DeleteCurrent(); return 0;
}
