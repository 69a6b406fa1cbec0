/* Stand-in for numpy's array type, which is not installed here: just what
   pybind11 asks of numpy.core.multiarray._ARRAY_API, with element types
   double, int, unsigned, long and bool and up to four dimensions. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <stdint.h>
#include <string.h>

#define MAXD 4
enum { BOOL_ = 0, INT_ = 5, UINT_ = 6, LONG_ = 7, ULONG_ = 8, DOUBLE_ = 12 };
enum { C_CONT = 1, F_CONT = 2, OWN = 4, ALIGNED = 0x100, WRITE = 0x400 };

typedef struct {
    PyObject_HEAD
    PyObject *typeobj;
    char kind, type, byteorder, flags;
    int type_num, elsize, alignment;
    char *subarray;
    PyObject *fields, *names;
} Descr;

typedef struct {
    PyObject_HEAD
    char *data;
    int nd;
    Py_ssize_t *dim, *str;
    PyObject *base;
    PyObject *descr;
    int flags;
    Py_ssize_t store[2 * MAXD];
} Arr;

static PyTypeObject DescrType = { PyVarObject_HEAD_INIT(NULL, 0) .tp_name = "numpy.dtype", .tp_basicsize = sizeof(Descr), .tp_flags = Py_TPFLAGS_DEFAULT };
static PyTypeObject ArrType;
static PyTypeObject VoidType = { PyVarObject_HEAD_INIT(NULL, 0) .tp_name = "numpy.void", .tp_basicsize = sizeof(PyObject), .tp_flags = Py_TPFLAGS_DEFAULT };

static PyObject *descr_of(int n) {
    Descr *d = PyObject_New(Descr, &DescrType);
    if (!d) return NULL;
    memset((char *)d + sizeof(PyObject), 0, sizeof(Descr) - sizeof(PyObject));
    d->type_num = n;
    d->byteorder = '=';
    switch (n) {
    case BOOL_: d->kind = 'b'; d->type = '?'; d->elsize = 1; break;
    case INT_: d->kind = 'i'; d->type = 'i'; d->elsize = 4; break;
    case UINT_: d->kind = 'u'; d->type = 'I'; d->elsize = 4; break;
    case LONG_: d->kind = 'i'; d->type = 'l'; d->elsize = 8; break;
    case ULONG_: d->kind = 'u'; d->type = 'L'; d->elsize = 8; break;
    case DOUBLE_: d->kind = 'f'; d->type = 'd'; d->elsize = 8; break;
    default: Py_DECREF(d); PyErr_SetString(PyExc_TypeError, "element type not supported"); return NULL;
    }
    d->alignment = d->elsize;
    return (PyObject *)d;
}
static int tnum(Arr *a) { return ((Descr *)a->descr)->type_num; }
static int esize(Arr *a) { return ((Descr *)a->descr)->elsize; }

static void set_flags(Arr *a) {
    Py_ssize_t s = esize(a);
    int c = 1, f = 1;
    for (int k = a->nd - 1; k >= 0; k--) { if (a->dim[k] != 1 && a->str[k] != s) c = 0; s *= a->dim[k]; }
    s = esize(a);
    for (int k = 0; k < a->nd; k++) { if (a->dim[k] != 1 && a->str[k] != s) f = 0; s *= a->dim[k]; }
    a->flags = (a->flags & ~(C_CONT | F_CONT)) | (c ? C_CONT : 0) | (f ? F_CONT : 0) | ALIGNED;
}

/* takes over the reference to the descriptor */
static PyObject *new_from_descr(PyTypeObject *t, PyObject *descr, int nd, Py_ssize_t const *dim, Py_ssize_t const *str,
                                void *data, int flags, PyObject *obj) {
    if (nd > MAXD) { PyErr_SetString(PyExc_ValueError, "too many dimensions"); return NULL; }
    Arr *a = PyObject_New(Arr, &ArrType);
    a->descr = descr;
    a->base = NULL;
    a->nd = nd;
    a->dim = a->store;
    a->str = a->store + MAXD;
    a->flags = flags & WRITE;
    Py_ssize_t n = 1;
    for (int k = nd - 1; k >= 0; k--) {
        a->dim[k] = dim[k];
        a->str[k] = str ? str[k] : n * esize(a);
        n *= dim[k];
    }
    if (data) a->data = data;
    else {
        /* as numpy: the strides given must fit a fresh buffer */
        a->data = calloc(n ? n : 1, esize(a));
        a->flags |= OWN | WRITE;
    }
    set_flags(a);
    return (PyObject *)a;
}

static void arr_dealloc(PyObject *o) {
    Arr *a = (Arr *)o;
    if (a->flags & OWN) free(a->data);
    Py_XDECREF(a->base);
    Py_XDECREF(a->descr);
    PyObject_Free(o);
}

static PyObject *get_elem(int t, char *p) {
    switch (t) {
    case BOOL_: return PyBool_FromLong(*p);
    case INT_: { int32_t x; memcpy(&x, p, 4); return PyLong_FromLong(x); }
    case UINT_: { uint32_t x; memcpy(&x, p, 4); return PyLong_FromUnsignedLong(x); }
    case LONG_: { int64_t x; memcpy(&x, p, 8); return PyLong_FromLong(x); }
    case ULONG_: { uint64_t x; memcpy(&x, p, 8); return PyLong_FromUnsignedLong(x); }
    default: { double x; memcpy(&x, p, 8); return PyFloat_FromDouble(x); }
    }
}
static int set_elem(int t, char *p, PyObject *v) {
    if (t == DOUBLE_) {
        double x = PyFloat_AsDouble(v);
        if (x == -1.0 && PyErr_Occurred()) return -1;
        memcpy(p, &x, 8);
        return 0;
    }
    if (t == BOOL_) { int b = PyObject_IsTrue(v); if (b < 0) return -1; *p = (char)b; return 0; }
    PyObject *i = PyNumber_Long(v);
    if (!i) return -1;
    long x = PyLong_AsLong(i);
    Py_DECREF(i);
    if (x == -1 && PyErr_Occurred()) return -1;
    memcpy(p, &x, t == LONG_ || t == ULONG_ ? 8 : 4);
    return 0;
}

static Py_ssize_t arr_len(PyObject *o) {
    Arr *a = (Arr *)o;
    if (!a->nd) { PyErr_SetString(PyExc_TypeError, "len() of unsized object"); return -1; }
    return a->dim[0];
}
static PyObject *arr_item(PyObject *o, Py_ssize_t i) {
    Arr *a = (Arr *)o;
    if (!a->nd || i < 0 || i >= a->dim[0]) { PyErr_SetString(PyExc_IndexError, "index out of range"); return NULL; }
    char *p = a->data + i * a->str[0];
    if (a->nd == 1) return get_elem(tnum(a), p);
    Py_INCREF(a->descr);
    Arr *r = (Arr *)new_from_descr(&ArrType, a->descr, a->nd - 1, a->dim + 1, a->str + 1, p, a->flags, NULL);
    Py_INCREF(o);
    if (r) r->base = o;
    return (PyObject *)r;
}
static PyObject *arr_tolist(PyObject *o, PyObject *u) {
    Arr *a = (Arr *)o;
    if (a->nd == 0) return get_elem(tnum(a), a->data);
    PyObject *l = PyList_New(a->dim[0]);
    for (Py_ssize_t i = 0; i < a->dim[0]; i++) {
        PyObject *x = arr_item(o, i), *y = x;
        if (x && a->nd > 1) { y = arr_tolist(x, NULL); Py_DECREF(x); }
        PyList_SET_ITEM(l, i, y);
    }
    return l;
}
static PyObject *arr_shape(PyObject *o, void *u) {
    Arr *a = (Arr *)o;
    PyObject *t = PyTuple_New(a->nd);
    for (int k = 0; k < a->nd; k++) PyTuple_SET_ITEM(t, k, PyLong_FromSsize_t(a->dim[k]));
    return t;
}

static PyObject *arr_turned(PyObject *o, void *u) {   /* transposed view */
    Arr *a = (Arr *)o;
    Py_ssize_t dim[MAXD], str[MAXD];
    for (int k = 0; k < a->nd; k++) { dim[k] = a->dim[a->nd - 1 - k]; str[k] = a->str[a->nd - 1 - k]; }
    Py_INCREF(a->descr);
    Arr *r = (Arr *)new_from_descr(&ArrType, a->descr, a->nd, dim, str, a->data, a->flags, NULL);
    Py_INCREF(o);
    if (r) r->base = o;
    return (PyObject *)r;
}

/* ------------------------------------------------------------ conversion */
static int find_shape(PyObject *o, int nd, Py_ssize_t *dim, int depth) {
    /* returns the number of dimensions, -1 on error */
    if (PyUnicode_Check(o) || PyBytes_Check(o) || PyDict_Check(o)) { PyErr_SetString(PyExc_ValueError, "not a number"); return -1; }
    if (PyObject_TypeCheck(o, &ArrType)) {
        Arr *a = (Arr *)o;
        if (depth + a->nd > MAXD) { PyErr_SetString(PyExc_ValueError, "too deep"); return -1; }
        for (int k = 0; k < a->nd; k++) dim[depth + k] = a->dim[k];
        return depth + a->nd;
    }
    if (!PySequence_Check(o)) {
        if (PyNumber_Check(o)) return depth;
        PyErr_SetString(PyExc_TypeError, "not a number");
        return -1;
    }
    if (depth >= MAXD) { PyErr_SetString(PyExc_ValueError, "too deep"); return -1; }
    Py_ssize_t n = PySequence_Size(o);
    if (n < 0) return -1;
    dim[depth] = n;
    int r = depth + 1;
    for (Py_ssize_t i = 0; i < n; i++) {
        Py_ssize_t d[MAXD];
        memcpy(d, dim, sizeof d);
        PyObject *x = PySequence_GetItem(o, i);
        if (!x) return -1;
        int q = find_shape(x, nd, d, depth + 1);
        Py_DECREF(x);
        if (q < 0) return -1;
        if (i == 0) { r = q; memcpy(dim, d, sizeof d); }
        else if (q != r || memcmp(d, dim, r * sizeof *d)) { PyErr_SetString(PyExc_ValueError, "inhomogeneous shape"); return -1; }
    }
    return r;
}
static int fill(Arr *a, int depth, char *p, PyObject *o) {
    if (depth == a->nd) return set_elem(tnum(a), p, o);
    for (Py_ssize_t i = 0; i < a->dim[depth]; i++) {
        PyObject *x = PySequence_GetItem(o, i);
        if (!x) return -1;
        int r = fill(a, depth + 1, p + i * a->str[depth], x);
        Py_DECREF(x);
        if (r < 0) return -1;
    }
    return 0;
}
static PyObject *make(PyObject *o, PyObject *descr, int fortran) {   /* takes over descr */
    Py_ssize_t dim[MAXD] = { 0 }, str[MAXD];
    int nd = find_shape(o, 0, dim, 0);
    if (nd < 0) { Py_DECREF(descr); return NULL; }
    Py_ssize_t s = ((Descr *)descr)->elsize;
    if (fortran) for (int k = 0; k < nd; k++) { str[k] = s; s *= dim[k]; }
    else for (int k = nd - 1; k >= 0; k--) { str[k] = s; s *= dim[k]; }
    PyObject *r = new_from_descr(&ArrType, descr, nd, dim, str, NULL, 0, NULL);
    if (r && fill((Arr *)r, 0, ((Arr *)r)->data, o) < 0) { Py_DECREF(r); return NULL; }
    return r;
}
static PyObject *from_any(PyObject *o, PyObject *descr, int mn, int mx, int flags, PyObject *ctx) {
    if (PyObject_TypeCheck(o, &ArrType)) {
        Arr *a = (Arr *)o;
        if (!descr) { Py_INCREF(a->descr); descr = a->descr; }
        int want = flags & (C_CONT | F_CONT);
        if (((Descr *)descr)->type_num == tnum(a) && (a->flags & want) == want) { Py_DECREF(descr); Py_INCREF(o); return o; }
    }
    if (!descr) descr = descr_of(DOUBLE_);
    return make(o, descr, (flags & F_CONT) && !(flags & C_CONT));
}
static PyObject *new_copy(PyObject *o, int order) {
    Arr *a = (Arr *)o;
    Py_INCREF(a->descr);
    return make(o, a->descr, !(a->flags & C_CONT) && (a->flags & F_CONT));
}
static int copy_into(PyObject *d, PyObject *s) { return fill((Arr *)d, 0, ((Arr *)d)->data, s); }
static int set_base(PyObject *a, PyObject *b) { ((Arr *)a)->base = b; return 0; }
static char equiv(PyObject *a, PyObject *b) { return ((Descr *)a)->type_num == ((Descr *)b)->type_num; }
static unsigned version(void) { return 0xe; }
static void *none(void) { PyErr_SetString(PyExc_NotImplementedError, "not in this stand-in"); return NULL; }

static PyObject *py_array(PyObject *m, PyObject *args) {
    PyObject *o;
    const char *t = "d";
    if (!PyArg_ParseTuple(args, "O|s", &o, &t)) return NULL;
    PyObject *d = descr_of(*t == 'd' ? DOUBLE_ : *t == 'i' ? INT_ : *t == 'I' ? UINT_ : *t == 'l' ? LONG_ : *t == '?' ? BOOL_ : -1);
    return d ? make(o, d, 0) : NULL;
}

static PyMethodDef arr_methods[] = { { "tolist", arr_tolist, METH_NOARGS, "" }, { 0 } };
static PyGetSetDef arr_getset[] = { { "shape", arr_shape, NULL, NULL, NULL }, { "T", arr_turned, NULL, NULL, NULL }, { 0 } };
static PySequenceMethods arr_seq = { .sq_length = arr_len, .sq_item = arr_item };
static PyTypeObject ArrType = { PyVarObject_HEAD_INIT(NULL, 0) .tp_name = "numpy.ndarray", .tp_basicsize = sizeof(Arr),
    .tp_flags = Py_TPFLAGS_DEFAULT, .tp_dealloc = arr_dealloc, .tp_as_sequence = &arr_seq, .tp_methods = arr_methods, .tp_getset = arr_getset };
static PyMethodDef mod_methods[] = { { "array", py_array, METH_VARARGS, "" }, { 0 } };
static struct PyModuleDef mod = { PyModuleDef_HEAD_INIT, "multiarray", NULL, -1, mod_methods };
static void *api[300];

PyMODINIT_FUNC PyInit_multiarray(void) {
    if (PyType_Ready(&DescrType) < 0 || PyType_Ready(&ArrType) < 0 || PyType_Ready(&VoidType) < 0) return NULL;
    for (int i = 0; i < 300; i++) api[i] = (void *)none;
    api[2] = &ArrType;
    api[3] = &DescrType;
    api[39] = &VoidType;
    api[45] = (void *)descr_of;
    api[69] = (void *)from_any;
    api[82] = (void *)copy_into;
    api[85] = (void *)new_copy;
    api[94] = (void *)new_from_descr;
    api[182] = (void *)equiv;
    api[211] = (void *)version;
    api[282] = (void *)set_base;
    PyObject *m = PyModule_Create(&mod);
    if (!m) return NULL;
    PyModule_AddObject(m, "_ARRAY_API", PyCapsule_New(api, NULL, NULL));
    Py_INCREF(&ArrType);
    PyModule_AddObject(m, "ndarray", (PyObject *)&ArrType);
    return m;
}
