/* Seams below Python: numpy's data allocator and SuiteSparse's allocator.
 *
 * Both count allocations from an armed point, fail the k-th (once, or from the
 * k-th on), and count live blocks.  The numpy one can also fill every fresh
 * block with a pattern and displace blocks by a pad, so that anything read
 * before it is written, and anything ordered by address, shows.
 */
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <numpy/arrayobject.h>
#include <dlfcn.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef struct {          /* per simulated thread */
    long long count;      /* allocations since armed */
    long long fail_at;    /* 0: never */
    int sustained;
    long long failed;     /* how many were refused since armed */
} Arm;
typedef struct { long long live, bad_free, total; } Alloc;

static Alloc np_a, ss_a;
static __thread Arm np_t, ss_t;
static int fill_on = 0;
static uint64_t fill_word = 0;

static int refuse(Alloc *all, Arm *a)
{
    a->count++;
    all->total++;
    if (a->fail_at > 0 &&
        (a->count == a->fail_at || (a->sustained && a->count > a->fail_at))) {
        a->failed++;
        return 1;
    }
    return 0;
}

static void fill(void *p, size_t n)
{
    if (!fill_on || !p) return;
    size_t i;
    for (i = 0; i + 8 <= n; i += 8) memcpy((char *)p + i, &fill_word, 8);
    if (i < n) memcpy((char *)p + i, &fill_word, n - i);
}

/* ---- numpy ---- */
static void *h_malloc(void *ctx, size_t size)
{
    if (refuse(&np_a, &np_t)) return NULL;
    char *p = malloc(size + 64);
    if (!p) return NULL;
    np_a.live++;
    fill(p, size);
    return p;
}
static void *h_calloc(void *ctx, size_t n, size_t sz)
{
    if (refuse(&np_a, &np_t)) return NULL;
    void *p = calloc(1, n * sz + 64);
    if (p) np_a.live++;
    return p;
}
static void *h_realloc(void *ctx, void *ptr, size_t size)
{
    if (refuse(&np_a, &np_t)) return NULL;
    void *p = realloc(ptr, size + 64);
    if (p && !ptr) np_a.live++;
    return p;
}
static void h_free(void *ctx, void *ptr, size_t size)
{
    if (!ptr) return;
    np_a.live--;
    if (fill_on && size) { uint64_t w = fill_word; fill_word = ~w; fill(ptr, size); fill_word = w; }
    free(ptr);
}
static PyDataMem_Handler handler = {
    "simmem", 1, { NULL, h_malloc, h_calloc, h_realloc, h_free }
};
static PyObject *capsule = NULL;

static PyObject *np_install(PyObject *self, PyObject *args)
{
    if (!capsule) {
        capsule = PyCapsule_New(&handler, "mem_handler", NULL);
        if (!capsule) return NULL;
    }
    PyObject *old = PyDataMem_SetHandler(capsule);
    if (!old) return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}
static PyObject *np_default(PyObject *self, PyObject *args)
{
    PyObject *old = PyDataMem_SetHandler(NULL);
    if (!old) return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}

static PyObject *arm_of(Arm *a, PyObject *args)
{
    long long k; int sustained = 0;
    if (!PyArg_ParseTuple(args, "L|p", &k, &sustained)) return NULL;
    a->count = 0; a->failed = 0; a->fail_at = k; a->sustained = sustained;
    Py_RETURN_NONE;
}
static PyObject *np_arm(PyObject *self, PyObject *args) { return arm_of(&np_t, args); }
static PyObject *ss_arm(PyObject *self, PyObject *args) { return arm_of(&ss_t, args); }

static PyObject *stats_of(Alloc *all, Arm *a)
{
    return Py_BuildValue("{sLsLsLsLsL}", "count", a->count, "failed", a->failed,
                         "live", all->live, "bad_free", all->bad_free, "total", all->total);
}
static PyObject *np_stats(PyObject *self, PyObject *args) { return stats_of(&np_a, &np_t); }
static PyObject *ss_stats(PyObject *self, PyObject *args) { return stats_of(&ss_a, &ss_t); }
/* disarm, return (count, failed): no Python allocation happens before disarming */
static PyObject *np_disarm(PyObject *self, PyObject *args)
{
    np_t.fail_at = 0;
    return Py_BuildValue("LL", np_t.count, np_t.failed);
}
static PyObject *ss_disarm(PyObject *self, PyObject *args)
{
    ss_t.fail_at = 0;
    return Py_BuildValue("LL", ss_t.count, ss_t.failed);
}

static PyObject *set_fill(PyObject *self, PyObject *args)
{
    unsigned long long w; int on;
    if (!PyArg_ParseTuple(args, "pK", &on, &w)) return NULL;
    fill_on = on; fill_word = w;
    Py_RETURN_NONE;
}

/* ---- SuiteSparse: live blocks kept in a table, so that foreign or double
 * frees are seen rather than trusted ---- */
#define SLOTS 65536
static void *slots[SLOTS];

static void remember(void *p)
{
    size_t h = ((uintptr_t)p >> 4) % SLOTS;
    for (size_t i = 0; i < SLOTS; i++) {
        size_t j = (h + i) % SLOTS;
        if (slots[j] == NULL || slots[j] == (void *)1) { slots[j] = p; ss_a.live++; return; }
    }
}
static int forget(void *p)
{
    size_t h = ((uintptr_t)p >> 4) % SLOTS;
    for (size_t i = 0; i < SLOTS; i++) {
        size_t j = (h + i) % SLOTS;
        if (slots[j] == p) { slots[j] = (void *)1; ss_a.live--; return 1; }
        if (slots[j] == NULL) return 0;
    }
    return 0;
}

/* Native code that has let go of the interpreter can be overtaken by other
 * threads: its calls to the allocator are the places where the scheduler may
 * do so. */
static PyObject *ss_cb = NULL;
static void ss_event(void)
{
    if (!ss_cb || PyGILState_Check()) return;
    Arm keep = ss_t, keep_np = np_t;
    PyGILState_STATE g = PyGILState_Ensure();
    PyObject *r = PyObject_CallNoArgs(ss_cb);
    if (r) Py_DECREF(r); else PyErr_Clear();
    PyGILState_Release(g);
    ss_t = keep; np_t = keep_np;
}
static PyObject *ss_yield(PyObject *self, PyObject *fn)
{
    Py_XDECREF(ss_cb);
    ss_cb = fn == Py_None ? NULL : Py_NewRef(fn);
    Py_RETURN_NONE;
}

static void *ss_malloc(size_t n)
{
    ss_event();
    if (refuse(&ss_a, &ss_t)) return NULL;
    void *p = malloc(n ? n : 1);
    if (p) { fill(p, n); remember(p); }
    return p;
}
static void *ss_calloc(size_t n, size_t s)
{
    ss_event();
    if (refuse(&ss_a, &ss_t)) return NULL;
    void *p = calloc(n ? n : 1, s ? s : 1);
    if (p) remember(p);
    return p;
}
static void *ss_realloc(void *old, size_t n)
{
    ss_event();
    if (refuse(&ss_a, &ss_t)) return NULL;
    int known = old ? forget(old) : 1;
    if (!known) ss_a.bad_free++;
    void *p = realloc(old, n ? n : 1);
    if (p) remember(p); else if (old && known) remember(old);
    return p;
}
static void ss_free(void *p)
{
    ss_event();
    if (!p) return;
    if (!forget(p)) { ss_a.bad_free++; return; }
    free(p);
}

static PyObject *ss_install(PyObject *self, PyObject *args)
{
    const char *names[] = {"SuiteSparse_config_malloc_func_set", "SuiteSparse_config_calloc_func_set",
                           "SuiteSparse_config_realloc_func_set", "SuiteSparse_config_free_func_set"};
    void *fns[] = {(void *)ss_malloc, (void *)ss_calloc, (void *)ss_realloc, (void *)ss_free};
    void *lib = dlopen("libsuitesparseconfig.so.7", RTLD_NOW | RTLD_GLOBAL);
    if (!lib) { PyErr_SetString(PyExc_OSError, dlerror()); return NULL; }
    for (int i = 0; i < 4; i++) {
        void (*set)(void *) = (void (*)(void *))dlsym(lib, names[i]);
        if (!set) { PyErr_SetString(PyExc_OSError, names[i]); return NULL; }
        set(fns[i]);
    }
    Py_RETURN_NONE;
}

static PyMethodDef methods[] = {
    {"np_install", np_install, METH_NOARGS, "use the simulated allocator in this context"},
    {"np_default", np_default, METH_NOARGS, "use numpy's own allocator in this context"},
    {"np_arm", np_arm, METH_VARARGS, "np_arm(k, sustained)"},
    {"np_disarm", np_disarm, METH_NOARGS, ""},
    {"np_stats", np_stats, METH_NOARGS, ""},
    {"ss_install", ss_install, METH_NOARGS, ""},
    {"ss_yield", ss_yield, METH_O, "called when native code allocates without holding the interpreter"},
    {"ss_arm", ss_arm, METH_VARARGS, ""},
    {"ss_disarm", ss_disarm, METH_NOARGS, ""},
    {"ss_stats", ss_stats, METH_NOARGS, ""},
    {"set_fill", set_fill, METH_VARARGS, "set_fill(on, word)"},
    {NULL, NULL, 0, NULL}
};
static struct PyModuleDef mod = { PyModuleDef_HEAD_INIT, "simnative", NULL, -1, methods };
PyMODINIT_FUNC PyInit_simnative(void)
{
    import_array();
    return PyModule_Create(&mod);
}
