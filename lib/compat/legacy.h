/* What C extensions written for Python 2 and numpy 1.0 expect, in terms of what is installed. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <numpy/arrayobject.h>
#include <stdint.h>

static PyObject *legacy_module;

static PyObject *legacy_init(const char *name, PyMethodDef *methods, const char *doc)
{
    static struct PyModuleDef def = {PyModuleDef_HEAD_INIT};
    def.m_name = name;
    def.m_doc = doc;
    def.m_size = -1;
    def.m_methods = methods;
    legacy_module = PyModule_Create(&def);
    return legacy_module;
}

static PyObject *legacy_from_dims(int nd, int *dims, int type)
{
    npy_intp d[32];
    int i;
    for (i = 0; i < nd; i++) d[i] = dims[i];
    return PyArray_ZEROS(nd, d, type, 0);
}

#ifndef Py_InitModule
#define Py_InitModule(name, methods) legacy_init(name, methods, NULL)
#define Py_InitModule3(name, methods, doc) legacy_init(name, methods, doc)
#endif
#undef import_array
#define import_array() (void)_import_array()
#define PyString_FromString PyUnicode_FromString
#define PyArray_FromDims(n, d, t) legacy_from_dims(n, d, t)
#define PyArray_DOUBLE NPY_DOUBLE
#define PyArray_INT NPY_INT
#define PyArray_LONG NPY_LONG
#define PyArray_ULONG NPY_ULONG
#define PyArray_QUICKSORT NPY_QUICKSORT
#ifndef NPY_CONTIGUOUS
#define NPY_CONTIGUOUS NPY_ARRAY_C_CONTIGUOUS
#endif
#ifndef CONTIGUOUS
#define CONTIGUOUS NPY_ARRAY_C_CONTIGUOUS
#endif

/* Types */
#undef PyObject_HEAD
#define PyObject_HEAD Py_ssize_t ob_refcnt; PyTypeObject *ob_type;
#undef PyObject_HEAD_INIT
#define PyObject_HEAD_INIT(type) 1, type,
#undef PyMODINIT_FUNC
#define PyMODINIT_FUNC void
