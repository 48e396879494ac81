/* C15: the real binding, linked with a small stand-in of the interpreter in
 * which any operation can fail, and with the real library. */
#include "oracle.h"
#undef malloc
#undef free
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <structmember.h>
#include <stdarg.h>

/* ---- heap of the binding */
static long blocks;
static int fail_at, ncall, failed;
static PyObject *pending;
static int may_fail(void) { if (++ncall == fail_at) { failed = 1; return 1; } return 0; }
void *vp_malloc(size_t n) { if (may_fail()) return 0; blocks++; return (malloc)(n ? n : 1); }
void *vp_calloc(size_t a, size_t b) { void *p = vp_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void *vp_realloc(void *p, size_t n) { if (may_fail()) return 0; if (!p) blocks++; return (realloc)(p, n ? n : 1); }
void vp_free(void *p) { if (p) { blocks--; (free)(p); } }
void *PyMem_Malloc(size_t n) { return vp_malloc(n); }
void *PyMem_RawMalloc(size_t n) { return vp_malloc(n); }
void *PyObject_Malloc(size_t n) { return vp_malloc(n); }
void *PyMem_Calloc(size_t a, size_t b) { return vp_calloc(a, b); }
void PyMem_Free(void *p) { vp_free(p); }
void PyMem_RawFree(void *p) { vp_free(p); }

/* ---- objects, in a memory that is emptied after each case */
static char arena_mem[1 << 22] __attribute__((aligned(16)));
static size_t arena_top, arena_base;
static void *arena(size_t n) {
    n = (n + 15) & ~(size_t)15;
    if (arena_top + n > sizeof arena_mem) { printf("cases 0\n"); exit(0); }
    void *p = arena_mem + arena_top;
    arena_top += n;
    return memset(p, 0, n);
}
enum { O_TYPE, O_STATIC, O_FLOAT, O_INT, O_LIST, O_TUPLE, O_ITER, O_BAD, O_DICT, O_BYTES, O_MODULE, O_ARGS, O_STR, O_REINIT };
typedef struct FO { PyObject ob; int kind; double d; long i; long n; struct FO **it; char **key; } FO;
static FO t_none, t_true, t_false, t_exc, t_type;
PyObject _Py_NoneStruct;
FO vp_true asm("_Py_TrueStruct"), vp_false asm("_Py_FalseStruct");
PyObject *PyExc_RuntimeError, *PyExc_TypeError, *PyExc_ValueError, *PyExc_MemoryError, *PyExc_IndexError, *PyExc_SystemError, *PyExc_OverflowError;
static long live;            /* references to counted objects, all together */
static char *bad;            /* first misuse of the interface */
static void misuse(char *m) { if (!bad) bad = m; }
static int fixed(PyObject *o) { return o == &_Py_NoneStruct || o == &vp_true.ob || o == &vp_false.ob; }
static FO *mk(int kind) { FO *o = arena(sizeof(FO)); o->ob.ob_refcnt = 1; o->ob.ob_type = (PyTypeObject *)&t_type; o->kind = kind; live++; return o; }
static PyObject *self_;
static void end_of(FO *o);
void _Py_IncRef(PyObject *o) { if (!o) { misuse("incref of nothing"); return; } if (fixed(o)) return; o->ob_refcnt++; live++; }
void _Py_DecRef(PyObject *o) {
    if (!o) { misuse("decref of nothing"); return; }
    if (fixed(o)) return;
    if (o->ob_refcnt <= 0) { misuse("release of a dead object"); return; }
    live--;
    if (--o->ob_refcnt == 0) { if (o == self_) misuse("the object itself died"); else end_of((FO *)o); }
}
void Py_IncRef(PyObject *o) { if (o) _Py_IncRef(o); }
void Py_DecRef(PyObject *o) { if (o) _Py_DecRef(o); }
static void end_of(FO *o) {
    if (o->kind == O_TYPE || o->kind == O_STATIC) { misuse("a static object died"); return; }
    for (long k = 0; k < o->n; k++) if (o->it && o->it[k]) _Py_DecRef(&o->it[k]->ob);
    /* its memory stays for the case at hand: a later use is a misuse, not a crash */
}
static FO *val(double x) { FO *o = mk(O_FLOAT); o->d = x; return o; }

/* ---- exceptions */
PyObject *PyErr_Occurred(void) { return pending; }
static char message[256];
void PyErr_SetString(PyObject *t, const char *m) { if (!t) misuse("no exception type"); if (!m) misuse("no message"); else snprintf(message, sizeof message, "%.255s", m); pending = t; }
PyObject *PyErr_Format(PyObject *t, const char *m, ...) { va_list a; va_start(a, m); vsnprintf(message, sizeof message, m, a); va_end(a); pending = t; return 0; }
/* the pending exception carries the library's text for its answer */
static int says(int st) { char b[256] = {0}; libspot_error(-st, b, 250); return strstr(message, b) != 0; }
void PyErr_SetNone(PyObject *t) { pending = t; }
PyObject *PyErr_NoMemory(void) { pending = PyExc_MemoryError; return 0; }
void PyErr_Clear(void) { pending = 0; }

/* ---- numbers */
static void reinit(FO *o);
double PyFloat_AsDouble(PyObject *p) {
    if (!p) { pending = PyExc_TypeError; return -1; }
    FO *o = (FO *)p;
    if (o->kind == O_REINIT) { reinit(o); return pending ? -1 : o->d; }
    if (o->kind == O_FLOAT) return o->d;
    if (o->kind == O_INT) return (double)o->i;
    failed = 1;
    pending = PyExc_TypeError;
    return -1;
}
PyObject *PyFloat_FromDouble(double x) { if (may_fail()) return PyErr_NoMemory(); return &val(x)->ob; }
PyObject *PyLong_FromLong(long x) { if (may_fail()) return PyErr_NoMemory(); FO *o = mk(O_INT); o->i = x; return &o->ob; }
PyObject *PyLong_FromLongLong(long long x) { return PyLong_FromLong(x); }
PyObject *PyLong_FromSsize_t(Py_ssize_t x) { return PyLong_FromLong(x); }
PyObject *PyLong_FromUnsignedLong(unsigned long x) { return PyLong_FromLong((long)x); }
PyObject *PyLong_FromSize_t(size_t x) { return PyLong_FromLong((long)x); }
PyObject *PyLong_FromUnsignedLongLong(unsigned long long x) { return PyLong_FromLong((long)x); }

/* ---- sequences */
static PyObject *copy(PyObject *p, int kind) {
    FO *o = (FO *)p;
    if (o->kind != O_LIST && o->kind != O_TUPLE && o->kind != O_ITER) { failed = 1; pending = PyExc_TypeError; return 0; }
    if (may_fail()) return PyErr_NoMemory();
    FO *l = mk(kind);
    l->n = o->n;
    l->it = arena((o->n + 1) * sizeof(FO *));
    for (long k = 0; k < o->n; k++) { l->it[k] = o->it[k]; _Py_IncRef(&o->it[k]->ob); }
    return &l->ob;
}
PyObject *PySequence_List(PyObject *p) { return copy(p, O_LIST); }
PyObject *PySequence_Tuple(PyObject *p) { FO *o = (FO *)p; if (o->kind == O_TUPLE) { _Py_IncRef(p); return p; } return copy(p, O_TUPLE); }
PyObject *PySequence_Fast(PyObject *p, const char *m) { FO *o = (FO *)p; if (o->kind == O_TUPLE || o->kind == O_LIST) { _Py_IncRef(p); return p; } return copy(p, O_LIST); }
static Py_ssize_t len(PyObject *p, int k1, int k2) {
    FO *o = (FO *)p;
    if (!o || (o->kind != k1 && o->kind != k2)) { pending = PyExc_SystemError; return -1; }
    if (o->ob.ob_refcnt <= 0) misuse("use of a dead list");
    return o->n;
}
Py_ssize_t PyList_Size(PyObject *p) { return len(p, O_LIST, O_LIST); }
Py_ssize_t PyTuple_Size(PyObject *p) { return len(p, O_TUPLE, O_TUPLE); }
Py_ssize_t PySequence_Size(PyObject *p) { return len(p, O_LIST, O_TUPLE); }
Py_ssize_t PyObject_Size(PyObject *p) { return len(p, O_LIST, O_TUPLE); }
static PyObject *get(PyObject *p, Py_ssize_t i, int k1, int k2) {
    FO *o = (FO *)p;
    if (!o || (o->kind != k1 && o->kind != k2)) { pending = PyExc_SystemError; return 0; }
    if (o->ob.ob_refcnt <= 0) { misuse("use of a dead list"); return 0; }
    if (i < 0 || i >= o->n) { pending = PyExc_IndexError; return 0; }
    return &o->it[i]->ob;
}
PyObject *PyList_GetItem(PyObject *p, Py_ssize_t i) { return get(p, i, O_LIST, O_LIST); }
PyObject *PyTuple_GetItem(PyObject *p, Py_ssize_t i) { return get(p, i, O_TUPLE, O_TUPLE); }
PyObject *PySequence_GetItem(PyObject *p, Py_ssize_t i) { PyObject *r = get(p, i, O_LIST, O_TUPLE); if (r) _Py_IncRef(r); return r; }
PyObject *PyList_New(Py_ssize_t n) {
    if (n < 0) { pending = PyExc_SystemError; return 0; }
    if (may_fail()) return PyErr_NoMemory();
    FO *l = mk(O_LIST);
    l->n = n;
    l->it = arena((n + 1) * sizeof(FO *));
    return &l->ob;
}
int PyList_SetItem(PyObject *p, Py_ssize_t i, PyObject *x) {
    FO *o = (FO *)p;
    if (!o || o->kind != O_LIST || i < 0 || i >= o->n) { pending = PyExc_IndexError; if (x) _Py_DecRef(x); return -1; }
    if (o->it[i]) _Py_DecRef(&o->it[i]->ob);
    o->it[i] = (FO *)x;
    return 0;
}
int PyList_Append(PyObject *p, PyObject *x) {
    FO *o = (FO *)p;
    if (!o || o->kind != O_LIST || !x) { pending = PyExc_SystemError; return -1; }
    if (may_fail()) { PyErr_NoMemory(); return -1; }
    FO **ni = arena((o->n + 2) * sizeof(FO *));
    if (o->n) memcpy(ni, o->it, o->n * sizeof(FO *));
    o->it = ni;
    o->it[o->n++] = (FO *)x;
    _Py_IncRef(x);
    return 0;
}
PyObject *PyObject_GetIter(PyObject *p) {
    PyObject *l = copy(p, O_LIST);
    if (l) { ((FO *)l)->kind = O_ITER; ((FO *)l)->i = 0; }
    return l;
}
PyObject *PyIter_Next(PyObject *p) {
    FO *o = (FO *)p;
    if (o->i >= o->n) return 0;
    _Py_IncRef(&o->it[o->i]->ob);
    return &o->it[o->i++]->ob;
}

/* ---- values */
static FO *dict_at(FO *d, const char *k) { for (long j = 0; d && j < d->n; j++) if (!strcmp(d->key[j], k)) return d->it[j]; return 0; }
PyObject *_Py_BuildValue_SizeT(const char *f, ...) {
    va_list a;
    va_start(a, f);
    FO *d = mk(O_DICT);
    d->it = arena((64) * sizeof(FO *));
    d->key = arena((64) * sizeof(char *));
    int nul = 0;
    for (const char *c = f + 1; *c && *c != '}';) {
        d->key[d->n] = va_arg(a, char *);
        c++;
        FO *x = 0;
        switch (*c++) {
        case 'd': x = val(va_arg(a, double)); break;
        case 'k': case 'l': case 'n': case 'K': case 'L': x = mk(O_INT); x->i = va_arg(a, long); break;
        case 'i': case 'I': x = mk(O_INT); x->i = va_arg(a, int); break;
        case 'N': x = va_arg(a, FO *); if (!x) nul = 1; break;
        case 'O': x = va_arg(a, FO *); if (!x) nul = 1; else _Py_IncRef(&x->ob); break;
        default: printf("cases 0\n"); exit(0); /* a format this stand-in does not know */
        }
        d->it[d->n++] = x;
    }
    va_end(a);
    if (nul) { if (!pending) pending = PyExc_SystemError; _Py_DecRef(&d->ob); return 0; }
    if (may_fail()) { _Py_DecRef(&d->ob); return PyErr_NoMemory(); }
    return &d->ob;
}
PyObject *plain_build(const char *f, ...) asm("Py_BuildValue");
PyObject *plain_build(const char *f, ...) { printf("cases 0\n"); exit(0); }
PyObject *PyByteArray_FromStringAndSize(const char *b, Py_ssize_t n) {
    if (may_fail()) return PyErr_NoMemory();
    FO *o = mk(O_BYTES);
    o->i = n;
    o->key = arena((1) * sizeof(char *));
    o->key[0] = arena(n);
    memcpy(o->key[0], b, n);
    return &o->ob;
}
static struct { int g[5]; double q, level; int low, disc; unsigned long max; } kw;
static int parse(const char *f, char **names, va_list a) {
    static const char *N[] = {"q", "low", "discard_anomalies", "level", "max_excess"};
    if (may_fail()) { pending = PyExc_TypeError; return 0; }
    int opt = 0, k = 0;
    for (const char *c = f; *c && *c != ':' && *c != ';'; c++) {
        if (*c == '|') { opt = 1; continue; }
        if (*c == '$') continue;
        void *p = va_arg(a, void *);
        int j = 0;
        while (j < 5 && strcmp(N[j], names[k])) j++;
        if (j == 5) { misuse("an unknown keyword"); return 0; }
        k++;
        if (!kw.g[j]) { if (!opt) { failed = 1; pending = PyExc_TypeError; return 0; } continue; }
        double x = j == 0 ? kw.q : j == 3 ? kw.level : j == 1 ? kw.low : j == 2 ? kw.disc : (double)kw.max;
        switch (*c) {
        case 'd': *(double *)p = x; break;
        case 'i': *(int *)p = j == 1 ? kw.low : j == 2 ? kw.disc : (int)x; break;
        case 'p': *(int *)p = x != 0; break;
        case 'k': case 'K': case 'l': case 'n': *(unsigned long *)p = kw.max; break;
        default: printf("cases 0\n"); exit(0);
        }
    }
    return 1;
}
int _PyArg_ParseTupleAndKeywords_SizeT(PyObject *x, PyObject *y, const char *f, char **names, ...) {
    va_list a;
    va_start(a, names);
    int r = parse(f, names, a);
    va_end(a);
    return r;
}

/* ---- types and modules */
static PyType_Spec *spec;
static long freed;
static long nconst;
PyObject *PyType_FromSpec(PyType_Spec *s) { spec = s; FO *o = mk(O_TYPE); o->ob.ob_refcnt = 1000; return &o->ob; }
int PyType_Ready(PyTypeObject *t) { return 0; }
PyObject *PyModule_Create2(struct PyModuleDef *m, int v) { return &mk(O_MODULE)->ob; }
static struct { char n[32]; long v; } consts[16];
int PyModule_AddStringConstant(PyObject *m, const char *n, const char *v) { return 0; }
int PyModule_AddIntConstant(PyObject *m, const char *n, long v) { snprintf(consts[nconst].n, 32, "%s", n); consts[nconst++].v = v; return 0; }
int PyModule_AddObject(PyObject *m, const char *n, PyObject *o) { return 0; }
int PyModule_AddObjectRef(PyObject *m, const char *n, PyObject *o) { return 0; }
static void obj_free(void *p) { freed++; if (p != self_) misuse("release of something else"); }
void PyObject_Free(void *p) { if (p == self_) obj_free(p); else vp_free(p); }
void *PyType_GetSlot(PyTypeObject *t, int s) { return s == Py_tp_free ? (void *)obj_free : 0; }
PyMODINIT_FUNC PyInit_libspot(void);

static void *slot(int n) { for (PyType_Slot *s = spec->slots; s->slot; s++) if (s->slot == n) return s->pfunc; return 0; }
static PyMethodDef *meth(const char *n) { for (PyMethodDef *m = slot(Py_tp_methods); m->ml_name; m++) if (!strcmp(m->ml_name, n)) return m; return 0; }
static struct Spot *det(void) { return (struct Spot *)((char *)self_ + 16); }
static int do_init(void) { return ((initproc)slot(Py_tp_init))(self_, &t_exc.ob, 0); }
static int inited(void) { return det()->tail.peaks.container.data != 0; }
static void reinit(FO *o) {
    int f = fail_at;
    fail_at = -1;
    memset(&kw, 0, sizeof kw);
    kw.g[0] = 1;
    kw.q = o->i ? 1e-3 : 7;
    do_init();
    pending = 0;
    fail_at = f;
}

static int same_det(struct Spot *a, struct Spot *b) {
    return same(a->q, b->q) && same(a->level, b->level) && a->low == b->low && a->discard_anomalies == b->discard_anomalies &&
           same(a->anomaly_threshold, b->anomaly_threshold) && same(a->excess_threshold, b->excess_threshold) && a->n == b->n && a->Nt == b->Nt &&
           same(a->tail.gamma, b->tail.gamma) && same(a->tail.sigma, b->tail.sigma) && a->tail.peaks.container.cursor == b->tail.peaks.container.cursor &&
           a->tail.peaks.container.filled == b->tail.peaks.container.filled && same(a->tail.peaks.e, b->tail.peaks.e);
}
static double num(FO *o) { return o ? (o->kind == O_INT ? (double)o->i : o->d) : NAN; }
static int is_window(FO *l, struct Ubend *u) {
    long n = u->filled ? u->capacity : u->cursor;
    if (!l || l->kind != O_LIST || l->n != n) return 0;
    for (long k = 0; k < n; k++) if (!l->it[k] || !same(num(l->it[k]), u->data[k])) return 0;
    return 1;
}
static double some(void) {
    switch (below(8)) { case 0: return -1.0; case 1: return NAN; case 2: return 0; case 3: return (double)below(5); default: return 10 * u01() - 5 + (below(10) ? 0 : 1000); }
}
static void gen_case(void) {
    static PyObject *mod;
    if (!mod) {
        PyExc_RuntimeError = PyExc_TypeError = PyExc_ValueError = PyExc_MemoryError = PyExc_IndexError = PyExc_SystemError = PyExc_OverflowError = &t_exc.ob;
        t_exc.kind = t_type.kind = O_STATIC;
        t_exc.ob.ob_refcnt = t_type.ob.ob_refcnt = 1000;
        fail_at = -1;
        mod = PyInit_libspot();
        note("import\n");
        CHECK(mod && !pending, "the module is not created");
        int ok = 0;
        for (int k = 0; k < nconst; k++) ok += (!strcmp(consts[k].n, "NORMAL") && consts[k].v == NORMAL) || (!strcmp(consts[k].n, "EXCESS") && consts[k].v == EXCESS) || (!strcmp(consts[k].n, "ANOMALY") && consts[k].v == ANOMALY);
        CHECK(ok == 3, "constants of the module");
        arena_base = arena_top;
        static const struct { const char *n; size_t o; int t; } M[] = {{"q", offsetof(struct Spot, q), T_DOUBLE}, {"level", offsetof(struct Spot, level), T_DOUBLE}, {"anomaly_threshold", offsetof(struct Spot, anomaly_threshold), T_DOUBLE},
            {"excess_threshold", offsetof(struct Spot, excess_threshold), T_DOUBLE}, {"Nt", offsetof(struct Spot, Nt), T_ULONG}, {"n", offsetof(struct Spot, n), T_ULONG}, {"gamma", offsetof(struct Spot, tail.gamma), T_DOUBLE}, {"sigma", offsetof(struct Spot, tail.sigma), T_DOUBLE}};
        for (int k = 0; k < 8; k++) {
            int f = 0;
            for (PyMemberDef *m = slot(Py_tp_members); m->name; m++) if (!strcmp(m->name, M[k].n)) f = m->offset == 16 + (long)M[k].o && m->type == M[k].t && m->flags == READONLY;
            CHECK(f, "attribute %s", M[k].n);
        }
    }
    /* an object */
    bad = 0; failed = 0; pending = 0; freed = 0; fail_at = -1; ncall = 0;
    arena_top = arena_base;
    long b0 = blocks;
    PyTypeObject *ty = (PyTypeObject *)mk(O_TYPE);
    ((PyObject *)ty)->ob_refcnt = 1000;
    self_ = arena(spec->basicsize);
    self_->ob_refcnt = 1;
    self_->ob_type = ty;
    int state = below(6);
    unsigned long cap = 1 + below(6);
    int low = below(2), disc = below(2);
    note("%s\n", state == 0 ? "an object that is not initialised" : state == 1 ? "a new object" : "a trained object");
    if (state) {
        memset(&kw, 0, sizeof kw);
        kw.g[0] = kw.g[1] = kw.g[2] = kw.g[3] = kw.g[4] = 1;
        kw.q = 0.05; kw.level = 0.5; kw.low = low; kw.disc = disc; kw.max = cap;
        CHECK(do_init() == 0 && !pending && inited(), "initialisation of valid parameters");
    }
    if (state > 1) {
        double d[40];
        int n = 1 + below(40);
        for (int k = 0; k < n; k++) d[k] = 10 * u01();
        spot_fit(det(), d, n);
        for (int k = below(6); k > 0; k--) spot_step(det(), 4 + 4 * u01());
    }
    struct Spot twin = *det();
    unsigned long wn = twin.tail.peaks.container.capacity;
    if (twin.tail.peaks.container.data) {
        twin.tail.peaks.container.data = (malloc)(wn * sizeof(double));
        memcpy(twin.tail.peaks.container.data, det()->tail.peaks.container.data, wn * sizeof(double));
    }
    int had = inited();
    static const char *MN[] = {"fit", "step", "quantile", "probability", "excesses", "as_dict", "raw", "init", "dealloc"};
    int w = below(9);
    int fp = below(3) ? -1 : 1 + (int)below(8);
    note("%s, %s operation %d fails\n", MN[w], fp < 0 ? "no" : "the", fp < 0 ? 0 : fp);
    FO *arg = 0;
    int notnum = 0, rei = 0;
    double x = some();
    if (w == 0) {
        int kind = below(8);
        arg = mk(kind == 0 ? O_BAD : kind < 3 ? O_TUPLE : kind < 5 ? O_ITER : O_LIST);
        note("argument: %s", arg->kind == O_BAD ? "not iterable" : arg->kind == O_TUPLE ? "tuple" : arg->kind == O_ITER ? "iterator" : "list");
        if (arg->kind != O_BAD) {
            arg->n = below(3) ? below(30) : below(4);
            arg->it = arena((arg->n + 1) * sizeof(FO *));
            int where = below(4) ? -1 : (int)below(arg->n + 1);
            for (int k = 0; k < arg->n; k++) {
                arg->it[k] = val(below(12) ? 10 * u01() : some());
                if (k == where) { arg->it[k]->kind = below(2) ? O_BAD : O_REINIT; arg->it[k]->i = below(2); if (arg->it[k]->kind == O_BAD) notnum = 1; else rei = 1; }
                note(" %.17g%s", arg->it[k]->d, arg->it[k]->kind == O_BAD ? "(not a number)" : arg->it[k]->kind == O_REINIT ? "(initialises the object again)" : "");
            }
        }
        note("\n");
    } else if (w < 4) {
        arg = val(x);
        int k = below(6);
        arg->kind = k == 0 ? O_BAD : k == 1 ? O_REINIT : O_FLOAT;
        arg->i = below(2);
        notnum = k == 0;
        rei = k == 1;
        note("argument %.17g%s\n", x, k == 0 ? " (not a number)" : k == 1 ? " (initialises the object again)" : "");
    }
    long l0 = live, b1 = blocks;
    long r0[64], rn = 0;
    fail_at = fp; ncall = 0; failed = 0;
    if (w < 7) {
        PyMethodDef *m = meth(MN[w]);
        CHECK(m, "no method %s", MN[w]);
        if (!m) return;
        FO *r = (FO *)m->ml_meth(self_, arg ? &arg->ob : 0);
        fail_at = -1;
        CHECK(!bad, "%s", bad);
        CHECK(r ? !pending : pending != 0, r ? "a result and an exception" : "no result and no exception");
        CHECK(live == l0 + (r && !fixed(&r->ob) ? (r->kind == O_LIST ? 1 + r->n : r->kind == O_DICT ? live - l0 : 1) : 0), "references kept: %ld (result of kind %d)", live - l0, r ? r->kind : -1);
        CHECK(blocks - b1 == (inited() != had ? (inited() ? 1 : -1) : 0), "blocks kept: %ld", blocks - b1);
        if (arg) CHECK(arg->ob.ob_refcnt == 1, "references to the argument: %ld", (long)arg->ob.ob_refcnt);
        if (arg && arg->it) for (long k = 0; k < arg->n; k++) CHECK(arg->it[k]->ob.ob_refcnt == 1, "references to an item: %ld", (long)arg->it[k]->ob.ob_refcnt);
        if (!failed && !rei) {
            if (w == 0) {
                double d[64];
                for (long k = 0; k < arg->n; k++) d[k] = arg->it[k]->d;
                int st = had && arg->kind != O_BAD && !notnum ? spot_fit(&twin, d, arg->n) : -1;
                CHECK((r != 0) == (st == 0), "the library answers %d, the binding %s", st, r ? "succeeds" : "fails");
                if (had && arg->kind != O_BAD && !notnum && st < 0) CHECK(says(st), "the library answers %d, the exception says \"%s\"", st, message);
                if (had) CHECK(same_det(&twin, det()), "the training differs from the library's");
            } else if (w == 1 && had) {
                int st = spot_step(&twin, x);
                CHECK(r && r->kind == O_INT && r->i == st, "the library answers %d", st);
                CHECK(same_det(&twin, det()), "the step differs from the library's");
            } else if (w == 2 || w == 3) {
                double z = w == 2 ? spot_quantile(&twin, x) : spot_probability(&twin, x);
                CHECK(r && r->kind == O_FLOAT && same(r->d, z), "the library answers %.17g", z);
            } else if (w == 4) CHECK(is_window(r, &det()->tail.peaks.container), "the list is not the window");
            else if (w == 6) CHECK(r && r->kind == O_BYTES && r->i == sizeof(struct Spot) && !memcmp(r->key[0], det(), sizeof(struct Spot)), "raw");
            else if (w == 5) {
                FO *t = dict_at(r, "tail"), *p = dict_at(t, "peaks"), *c = dict_at(p, "container");
                struct Spot *s = det();
                struct Ubend *u = &s->tail.peaks.container;
                CHECK(c && same(num(dict_at(r, "q")), s->q) && same(num(dict_at(r, "level")), s->level) && num(dict_at(r, "low")) == s->low && num(dict_at(r, "discard_anomalies")) == s->discard_anomalies &&
                      same(num(dict_at(r, "anomaly_threshold")), s->anomaly_threshold) && same(num(dict_at(r, "excess_threshold")), s->excess_threshold) && num(dict_at(r, "n")) == s->n && num(dict_at(r, "Nt")) == s->Nt, "as_dict: detector");
                CHECK(c && same(num(dict_at(t, "gamma")), s->tail.gamma) && same(num(dict_at(t, "sigma")), s->tail.sigma) && same(num(dict_at(p, "e")), s->tail.peaks.e) && same(num(dict_at(p, "e2")), s->tail.peaks.e2) &&
                      same(num(dict_at(p, "min")), s->tail.peaks.min) && same(num(dict_at(p, "max")), s->tail.peaks.max), "as_dict: tail");
                CHECK(c && num(dict_at(c, "cursor")) == u->cursor && num(dict_at(c, "capacity")) == u->capacity && same(num(dict_at(c, "last_erased_data")), u->last_erased_data) && num(dict_at(c, "filled")) == u->filled && is_window(dict_at(c, "data"), u), "as_dict: container");
            }
        }
        if (failed && !rei && w != 0) CHECK(!r, "a failed operation gives a result");
        if (r && !fixed(&r->ob)) { r->ob.ob_refcnt == 1 ? _Py_DecRef(&r->ob) : misuse("references to the result"); }
        CHECK(!bad, "%s", bad);
        if (!bad) CHECK(live == l0, "references kept inside the result: %ld", live - l0);
        pending = 0;
    } else if (w == 7) {
        memset(&kw, 0, sizeof kw);
        for (int k = 0; k < 5; k++) kw.g[k] = k == 0 ? below(10) != 0 : below(2);
        kw.q = below(3) ? 0.01 * u01() : some();
        kw.level = below(3) ? u01() * 0.98 : some();
        kw.low = (int)below(3) - 1;
        kw.disc = (int)below(3) - 1;
        kw.max = below(4) ? 1 + below(50) : below(2) ? 0 : ~0UL;
        note("q=%.17g(%d) low=%d(%d) discard=%d(%d) level=%.17g(%d) max=%lu(%d)\n", kw.q, kw.g[0], kw.low, kw.g[1], kw.disc, kw.g[2], kw.level, kw.g[3], kw.max, kw.g[4]);
        int r = do_init();
        fail_at = -1;
        CHECK(!bad, "%s", bad);
        CHECK(r == 0 ? !pending : r < 0 && pending, "answer %d, exception %d", r, pending != 0);
        CHECK(live == l0, "references kept");
        if (r == 0) {
            struct Spot s;
            memset(&s, 0, sizeof s);
            set_allocators((malloc), (free));
            int q = spot_init(&s, kw.q, kw.g[1] ? kw.low : 0, kw.g[2] ? kw.disc : 1, kw.g[3] ? kw.level : 0.98, kw.g[4] ? kw.max : 500);
            CHECK(q == 0 && kw.g[0], "the library answers %d", q);
            CHECK(same_det(&s, det()) && s.tail.peaks.container.capacity == det()->tail.peaks.container.capacity, "another detector than the library's");
            if (q == 0) spot_free(&s);
            set_allocators((void *(*)(unsigned long))vp_malloc, vp_free);
        } else if (!failed && kw.g[0]) {
            struct Spot s;
            memset(&s, 0, sizeof s);
            set_allocators((malloc), (free));
            int q = spot_init(&s, kw.q, kw.low, kw.disc, kw.g[3] ? kw.level : 0.98, kw.g[4] ? kw.max : 500);
            CHECK(q < 0, "the library accepts, the binding refuses");
            if (q < 0) CHECK(says(q), "the library answers %d, the exception says \"%s\"", q, message);
            if (q == 0) spot_free(&s);
            set_allocators((void *(*)(unsigned long))vp_malloc, vp_free);
        }
        CHECK(blocks - b0 == inited(), "blocks kept: %ld", blocks - b0);
        pending = 0;
    }
    /* the end of the object */
    fail_at = -1;
    ((destructor)slot(Py_tp_dealloc))(self_);
    CHECK(!bad, "%s", bad);
    CHECK(freed == 1, "the object is released %ld times", freed);
    CHECK(((PyObject *)ty)->ob_refcnt == 999, "references to the type: %ld", (long)((PyObject *)ty)->ob_refcnt);
    CHECK(blocks == b0, "storage kept: %ld blocks", blocks - b0);
    live = 0;
    if (twin.tail.peaks.container.data) (free)(twin.tail.peaks.container.data);
}
static int given_case(void) { return 0; }
