// The Python wrappers in a real embedded interpreter.  The workload, the reference
// model and the oracles are in py_world.py; this file gives it the tapes, the seams
// (memory allocation of the interpreter) and the boundary of "library code".
#include "text.h"
#include <Python.h>
#include <unistd.h>
#include <fstream>
extern "C" PyObject* PyInit__satyr3(void);
namespace sim {
static uint32_t al_arm;                      // fail the al_arm-th allocation of this call
static bool al_fired;
static bool al_fail() {
    if (!in_lib || !al_arm) return false;
    if (--al_arm) return false;
    al_fired = true;
    Out o;
    count_fault(F_ALLOC);
    return true;
}
static void* m_malloc(void*, size_t n) { return al_fail() ? nullptr : malloc(n ? n : 1); }
static void* m_calloc(void*, size_t n, size_t s) { return al_fail() ? nullptr : calloc(n && s ? n : 1, n && s ? s : 1); }
static void* m_realloc(void*, void* p, size_t n) { return al_fail() ? nullptr : realloc(p, n ? n : 1); }
static void m_free(void*, void* p) { free(p); }

static PyObject* p_W(PyObject*, PyObject* a) { unsigned n; if (!PyArg_ParseTuple(a, "I", &n)) return nullptr; return PyLong_FromUnsignedLong(W(n)); }
static PyObject* p_F(PyObject*, PyObject* a) { unsigned n; if (!PyArg_ParseTuple(a, "I", &n)) return nullptr; return PyLong_FromUnsignedLong(mode_clean() ? 0 : F(n)); }
static PyObject* p_ev(PyObject*, PyObject* a) { const char* s; if (!PyArg_ParseTuple(a, "s", &s)) return nullptr; ev("%s", s); Py_RETURN_NONE; }
static PyObject* p_probe(PyObject*, PyObject* a) { const char* s; if (!PyArg_ParseTuple(a, "s", &s)) return nullptr; probe(s); Py_RETURN_NONE; }
static PyObject* p_state(PyObject*, PyObject* a) { const char* s; if (!PyArg_ParseTuple(a, "s", &s)) return nullptr; state(hash_str(s)); Py_RETURN_NONE; }
static PyObject* p_nontrivial(PyObject*, PyObject*) { nontrivial(); Py_RETURN_NONE; }
static PyObject* p_clean(PyObject*, PyObject*) { return PyBool_FromLong(mode_clean()); }
static PyObject* p_violation(PyObject*, PyObject* a) { const char *c, *m; if (!PyArg_ParseTuple(a, "ss", &c, &m)) return nullptr; violation(c, "%s", m); }
static PyObject* p_count(PyObject*, PyObject* a) {
    const char* s;
    if (!PyArg_ParseTuple(a, "s", &s)) return nullptr;
    count_fault(!strcmp(s, "gc") ? F_GC : !strcmp(s, "reenter") ? F_REENTER : !strcmp(s, "badvalue") ? F_BADVALUE : F_OWNER_DROP);
    Py_RETURN_NONE;
}
static PyObject* str_of(const Str& s) { return PyUnicode_DecodeUTF8(s.data(), (Py_ssize_t)s.size(), "replace"); }
static PyObject* p_text(PyObject*, PyObject* a) { int t; if (!PyArg_ParseTuple(a, "i", &t)) return nullptr; return str_of(render(t).text); }
static PyObject* p_trace_json(PyObject*, PyObject* a) { int t; if (!PyArg_ParseTuple(a, "i", &t)) return nullptr; return str_of(json_write(jval_of(gen_trace(t)), JStyle())); }
static PyObject* p_report_json(PyObject*, PyObject* a) { int t; if (!PyArg_ParseTuple(a, "i", &t)) return nullptr; return str_of(json_write(jval_of(gen_report(t)), JStyle())); }
static PyObject* p_ident(PyObject*, PyObject*) { return str_of(gen_ident()); }
static PyObject* p_path(PyObject*, PyObject*) { return str_of(gen_path()); }
static PyObject* p_gentext(PyObject*, PyObject*) { return str_of(gen_text()); }
static PyObject* p_u64(PyObject*, PyObject*) { return PyLong_FromUnsignedLongLong(gen_u64()); }
static PyObject* p_u32(PyObject*, PyObject*) { return PyLong_FromUnsignedLong(gen_u32()); }
static PyObject* p_noise(PyObject*, PyObject*) { Str a, b; noise_frame(&a, &b); return Py_BuildValue("(ss)", a.c_str(), b.c_str()); }
// Python code that runs inside a library call (an argument's own methods) is not library code.
static PyObject* p_outside(PyObject*, PyObject* a) {
    PyObject* f;
    if (!PyArg_ParseTuple(a, "O", &f)) return nullptr;
    Out o;
    uint32_t keep = al_arm;
    al_arm = 0;
    PyObject* r = PyObject_CallNoArgs(f);
    al_arm = keep;
    return r;
}
static PyObject* guarded(uint32_t arm, const std::function<PyObject*()>& f) {
    al_arm = arm;
    al_fired = false;
    in_lib = 1;
    PyObject* r = f();
    in_lib = 0;
    al_arm = 0;
    return r;
}
static PyObject* p_call(PyObject*, PyObject* a) {
    unsigned arm; PyObject *f, *args, *kw = nullptr;
    if (!PyArg_ParseTuple(a, "IOO!|O", &arm, &f, &PyTuple_Type, &args, &kw)) return nullptr;
    return guarded(arm, [&] { return PyObject_Call(f, args, kw == Py_None ? nullptr : kw); });
}
static PyObject* p_method(PyObject*, PyObject* a) {      // the bound method object is not the library's
    unsigned arm; PyObject *o, *args; const char* name;
    if (!PyArg_ParseTuple(a, "IOsO!", &arm, &o, &name, &PyTuple_Type, &args)) return nullptr;
    PyObject* m = PyObject_GetAttrString(o, name);
    if (!m) return nullptr;
    PyObject* r = guarded(arm, [&] { return PyObject_Call(m, args, nullptr); });
    Py_DECREF(m);
    return r;
}
static PyObject* p_get(PyObject*, PyObject* a) {
    unsigned arm; PyObject *o, *n;
    if (!PyArg_ParseTuple(a, "IOU", &arm, &o, &n)) return nullptr;
    return guarded(arm, [&] { return PyObject_GetAttr(o, n); });
}
static PyObject* p_set(PyObject*, PyObject* a) {
    unsigned arm; PyObject *o, *n, *v;
    if (!PyArg_ParseTuple(a, "IOUO", &arm, &o, &n, &v)) return nullptr;
    int r = -1;
    PyObject* x = guarded(arm, [&]() -> PyObject* { r = PyObject_SetAttr(o, n, v); return nullptr; });
    (void)x;
    if (r < 0) {
        if (!PyErr_Occurred()) violation("noexception:set", "an attribute assignment failed without an exception");
        return nullptr;
    }
    if (PyErr_Occurred()) violation("exception:pending", "an attribute assignment succeeded and left an exception behind");
    Py_RETURN_NONE;
}
static PyObject* p_del(PyObject*, PyObject* a) {
    PyObject *o, *n;
    if (!PyArg_ParseTuple(a, "OU", &o, &n)) return nullptr;
    int r = -1;
    guarded(0, [&]() -> PyObject* { r = PyObject_SetAttr(o, n, nullptr); return nullptr; });
    if (r < 0) return nullptr;
    if (PyErr_Occurred()) violation("exception:pending", "an attribute deletion succeeded and left an exception behind");
    Py_RETURN_NONE;
}
static PyObject* p_str(PyObject*, PyObject* a) {
    unsigned arm; PyObject* o;
    if (!PyArg_ParseTuple(a, "IO", &arm, &o)) return nullptr;
    return guarded(arm, [&] { return PyObject_Str(o); });
}
static PyObject* p_fired(PyObject*, PyObject*) { return PyBool_FromLong(al_fired); }
static PyObject* p_refs(PyObject*, PyObject* a) { PyObject* o; if (!PyArg_ParseTuple(a, "O", &o)) return nullptr; return PyLong_FromSsize_t(Py_REFCNT(o)); }
static PyMethodDef methods[] = {
    {"W", p_W, METH_VARARGS, ""}, {"F", p_F, METH_VARARGS, ""}, {"ev", p_ev, METH_VARARGS, ""}, {"probe", p_probe, METH_VARARGS, ""},
    {"state", p_state, METH_VARARGS, ""}, {"nontrivial", p_nontrivial, METH_NOARGS, ""}, {"clean", p_clean, METH_NOARGS, ""},
    {"violation", p_violation, METH_VARARGS, ""}, {"count", p_count, METH_VARARGS, ""}, {"text", p_text, METH_VARARGS, ""},
    {"trace_json", p_trace_json, METH_VARARGS, ""}, {"report_json", p_report_json, METH_VARARGS, ""}, {"ident", p_ident, METH_NOARGS, ""},
    {"path", p_path, METH_NOARGS, ""}, {"gentext", p_gentext, METH_NOARGS, ""}, {"u64", p_u64, METH_NOARGS, ""}, {"u32", p_u32, METH_NOARGS, ""},
    {"noise", p_noise, METH_NOARGS, ""}, {"outside", p_outside, METH_VARARGS, ""}, {"call", p_call, METH_VARARGS, ""}, {"method", p_method, METH_VARARGS, ""},
    {"get", p_get, METH_VARARGS, ""}, {"set", p_set, METH_VARARGS, ""}, {"delete", p_del, METH_VARARGS, ""}, {"str", p_str, METH_VARARGS, ""},
    {"fired", p_fired, METH_NOARGS, ""}, {"refs", p_refs, METH_VARARGS, ""}, {nullptr, nullptr, 0, nullptr}};
static struct PyModuleDef moddef = {PyModuleDef_HEAD_INIT, "_sim", "", -1, methods, nullptr, nullptr, nullptr, nullptr};
static PyObject* init_sim(void) { return PyModule_Create(&moddef); }

static PyObject *py_run, *py_end;
static Str exe_dir() {
    char b[4096];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    Str s(b, n > 0 ? (size_t)n : 0);
    return s.substr(0, s.rfind('/'));
}
static void fatal(const char* what) {
    in_lib = 0;
    PyObject *t, *v, *tb;
    PyErr_Fetch(&t, &v, &tb);
    PyErr_NormalizeException(&t, &v, &tb);
    Str msg = what;
    if (v) {
        PyObject* s = PyObject_Repr(v);
        if (s) msg += Str(": ") + (PyUnicode_AsUTF8(s) ?: "?");
        for (PyObject* x = tb; x && x != Py_None;) {
            PyObject* ln = PyObject_GetAttrString(x, "tb_lineno");
            msg += " @" + std::to_string(ln ? PyLong_AsLong(ln) : -1);
            x = PyObject_GetAttrString(x, "tb_next");
        }
    }
    violation("exception:escaped", "%s", msg.c_str());
}
static void start_interpreter() {
    PyMemAllocatorEx al = {nullptr, m_malloc, m_calloc, m_realloc, m_free};
    PyPreConfig pc;
    PyPreConfig_InitIsolatedConfig(&pc);
    pc.utf8_mode = 1;
    pc.allocator = PYMEM_ALLOCATOR_MALLOC;
    if (PyStatus_Exception(Py_PreInitialize(&pc))) violation("harness:python", "pre-initialization failed");
    PyMem_SetAllocator(PYMEM_DOMAIN_RAW, &al);
    PyMem_SetAllocator(PYMEM_DOMAIN_MEM, &al);
    PyMem_SetAllocator(PYMEM_DOMAIN_OBJ, &al);
    PyImport_AppendInittab("_satyr3", PyInit__satyr3);
    PyImport_AppendInittab("_sim", init_sim);
    PyConfig c;
    PyConfig_InitIsolatedConfig(&c);
    c.use_hash_seed = 1;
    c.hash_seed = 0;
    c.site_import = 0;
    c.install_signal_handlers = 0;
    c.pathconfig_warnings = 0;
    c.write_bytecode = 0;
    PyConfig_SetBytesString(&c, &c.home, "/usr");
    if (PyStatus_Exception(Py_InitializeFromConfig(&c))) violation("harness:python", "interpreter initialization failed");
    PyConfig_Clear(&c);
    Str path = exe_dir() + "/py_world.py";
    std::ifstream f(path);
    Str src((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    if (src.empty()) violation("harness:python", "cannot read %s", path.c_str());
    PyObject* code = Py_CompileString(src.c_str(), "py_world.py", Py_file_input);
    if (!code) fatal("compiling");
    PyObject* mod = PyImport_ExecCodeModule("py_world", code);
    if (!mod) fatal("loading");
    py_run = PyObject_GetAttrString(mod, "run");
    py_end = PyObject_GetAttrString(mod, "end");
    if (!py_run || !py_end) fatal("run missing");
}
WORLD(python) {
    if (!py_run) {
        start_interpreter();
        ledger_forgive();
    }
    PyObject* r = PyObject_CallNoArgs(py_run);
    if (!r) fatal("the workload stopped");
    Py_DECREF(r);
    r = PyObject_CallNoArgs(py_end);
    if (!r) fatal("the workload did not end");
    Py_DECREF(r);
}
}
