/*
 * _simext: Python bindings of the runtime, NumPy's data-memory seam (NEP 49), raw access
 * to ufunc inner loops, and the floating-point environment.
 */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_API_VERSION
#include <numpy/ndarrayobject.h>
#include <numpy/ufuncobject.h>

#include <dlfcn.h>
#include <fenv.h>
#include <stdint.h>
#include <sys/mman.h>

/* resolved in the preloaded simrt.so */
static void (*rt_heap_ranges)(const uintptr_t *, const uintptr_t *, int, int);
static void (*rt_heap_fill)(int, uint64_t);
static void (*rt_heap_arm)(long, int, int);
static void (*rt_heap_pause)(int);
static void (*rt_heap_next)(long);
static long (*rt_heap_live)(void);
static const char *(*rt_heap_disarm)(long *);
static void (*rt_heap_scan)(void);
static int (*rt_heap_on)(void);
static int (*rt_eligible)(void);
static void (*rt_count_start)(uint64_t);
static uint64_t (*rt_count_stop)(void);
static void (*rt_yield)(int);
static void (*rt_setup)(int, uint64_t, const uint32_t *, const int *, uint64_t,
                        const uint64_t *, const int *, long);
static void (*rt_enter)(int);
static void (*rt_start)(void);
static void (*rt_leave)(void);
static int (*rt_alive)(void);
static long (*rt_result)(uint64_t *, uint64_t *, const uint64_t **, const int **);

#define NEED_RT(f)                                                                   \
    if (f == NULL) {                                                                 \
        PyErr_SetString(PyExc_RuntimeError, "simrt.so is not preloaded");            \
        return NULL;                                                                 \
    }

/* ------------------------------------------------ NumPy data-memory handler */

#define PG 4096UL
static int np_can = 0xA5;      /* canary byte of new blocks */

typedef struct blk {
    void *p;
    char *map;
    size_t maplen, size, user;
    int place;
    unsigned char can;
    struct blk *next;
} blk;

#define NB 4096
static blk *tab[NB];
static int np_place;            /* 0 heap, 1 guard after, 2 guard before */
static int np_fill = -1;        /* -1 none, 0..255 byte, -2 seeded */
static uint64_t np_rng = 1;
static long np_allocs, np_live, np_fail_k, np_failed, np_errors, np_armed, np_n_armed;
static char np_msg[200];

static unsigned hashp(void *p)
{
    return (unsigned)((((uintptr_t)p >> 3) * 2654435761u) >> 7) % NB;
}

static uint64_t np_rnd(void)
{
    np_rng ^= np_rng << 13;
    np_rng ^= np_rng >> 7;
    np_rng ^= np_rng << 17;
    return np_rng;
}

static void np_filler(char *p, size_t n)
{
    if (np_fill >= 0) {
        memset(p, np_fill, n);
    }
    else if (np_fill == -2) {
        for (size_t i = 0; i < n; ++i) {
            p[i] = (char)(np_rnd() >> 24);
        }
    }
}

static void np_err(const char *what, size_t size)
{
    if (np_errors++ == 0) {
        snprintf(np_msg, sizeof np_msg, "%s (array data block of %zu bytes)", what, size);
    }
}

static void *np_alloc(size_t size, int zero)
{
    if (np_armed) {
        ++np_n_armed;
        if (np_fail_k && np_n_armed == np_fail_k) {
            ++np_failed;
            return NULL;
        }
    }
    if (size == 0) {
        size = 1;
    }
    blk *b = malloc(sizeof *b);
    if (b == NULL) {
        return NULL;
    }
    int place = np_place;
    b->size = size;
    b->place = place;
    b->can = (unsigned char)np_can;
    int CAN = np_can;
    if (place == 0) {
        b->map = malloc(size + 32);
        if (b->map == NULL) {
            free(b);
            return NULL;
        }
        b->user = size + 32;
        b->p = b->map;
        memset(b->map + size, CAN, 32);
    }
    else {
        size_t user = (size + 15) & ~15UL;
        size_t len = (user + PG - 1) & ~(PG - 1);
        b->maplen = len + PG;
        b->map = mmap(NULL, b->maplen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (b->map == MAP_FAILED) {
            free(b);
            return NULL;
        }
        if (place == 1) {
            /* ends at the guard page (array data are as aligned as their item size) */
            mprotect(b->map + len, PG, PROT_NONE);
            b->p = b->map + len - size;
            b->user = size;
            /* the slack in front also carries a pattern that is checked on free */
            size_t front = len - size;
            front = front > 64 ? 64 : front;
            memset((char *)b->p - front, CAN, front);
        }
        else {
            mprotect(b->map, PG, PROT_NONE);
            b->p = b->map + PG;
            b->user = user;
            size_t back = len - size;
            back = back > 64 ? 64 : back;
            memset((char *)b->p + size, CAN, back);
        }
    }
    if (zero) {
        memset(b->p, 0, size);
    }
    else {
        np_filler(b->p, size);
    }
    unsigned h = hashp(b->p);
    b->next = tab[h];
    tab[h] = b;
    ++np_allocs;
    ++np_live;
    return b->p;
}

static void chk(const unsigned char *q, size_t n, size_t size, unsigned char can)
{
    for (size_t i = 0; i < n; ++i) {
        if (q[i] != can) {
            np_err("write outside an array's memory", size);
            return;
        }
    }
}

static void np_check_blk(blk *b)
{
    if (b->place == 0) {
        chk((unsigned char *)b->p + b->size, 32, b->size, b->can);
    }
    else {
        size_t user = (b->size + 15) & ~15UL;
        size_t len = (user + PG - 1) & ~(PG - 1);
        if (b->place == 1) {
            size_t front = len - b->user;
            front = front > 64 ? 64 : front;
            chk((unsigned char *)b->p - front, front, b->size, b->can);
        }
        else {
            size_t back = len - b->size;
            back = back > 64 ? 64 : back;
            chk((unsigned char *)b->p + b->size, back, b->size, b->can);
        }
    }
}

static void np_release(blk *b)
{
    np_check_blk(b);
    if (b->place == 0) {
        memset(b->map, 0xDD, b->size);
        free(b->map);
    }
    else {
        munmap(b->map, b->maplen);
    }
    free(b);
    --np_live;
}

static blk *np_take(void *p)
{
    blk **q = &tab[hashp(p)];
    while (*q) {
        blk *b = *q;
        if (b->p == p) {
            *q = b->next;
            return b;
        }
        q = &b->next;
    }
    return NULL;
}

static void *h_malloc(void *ctx, size_t size) { return np_alloc(size, 0); }

static void *h_calloc(void *ctx, size_t n, size_t s) { return np_alloc(n * s, 1); }

static void h_free(void *ctx, void *p, size_t size)
{
    if (p == NULL) {
        return;
    }
    blk *b = np_take(p);
    if (b == NULL) {
        np_err("free of an array data block that is not live", size);
        return;
    }
    np_release(b);
}

static void *h_realloc(void *ctx, void *p, size_t size)
{
    if (p == NULL) {
        return np_alloc(size, 0);
    }
    void *q = np_alloc(size, 0);
    if (q == NULL) {
        return NULL;
    }
    blk *b = np_take(p);
    if (b == NULL) {
        np_err("realloc of an array data block that is not live", size);
        return q;
    }
    memcpy(q, p, b->size < size ? b->size : size);
    np_release(b);
    return q;
}

static PyDataMem_Handler handler = {
    "vsim", 1, {NULL, h_malloc, h_calloc, h_realloc, h_free}
};

static PyObject *np_install(PyObject *self, PyObject *args)
{
    PyObject *cap = PyCapsule_New(&handler, "mem_handler", NULL);
    if (cap == NULL) {
        return NULL;
    }
    PyObject *old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    return old;
}

static PyObject *np_restore(PyObject *self, PyObject *cap)
{
    return PyDataMem_SetHandler(cap == Py_None ? NULL : cap);
}

static PyObject *np_config(PyObject *self, PyObject *args)
{
    unsigned long long seed;
    if (!PyArg_ParseTuple(args, "iiK|i", &np_place, &np_fill, &seed, &np_can)) {
        return NULL;
    }
    np_rng = seed | 1;
    Py_RETURN_NONE;
}

static PyObject *np_arm(PyObject *self, PyObject *args)
{
    if (!PyArg_ParseTuple(args, "l", &np_fail_k)) {
        return NULL;
    }
    np_armed = 1;
    np_n_armed = np_failed = 0;
    Py_RETURN_NONE;
}

static PyObject *np_disarm(PyObject *self, PyObject *args)
{
    np_armed = 0;
    return Py_BuildValue("ll", np_n_armed, np_failed);
}

/* (allocations so far, live blocks, errors, message); checks every live block's surroundings */
static PyObject *np_status(PyObject *self, PyObject *args)
{
    for (int i = 0; i < NB; ++i) {
        for (blk *b = tab[i]; b; b = b->next) {
            np_check_blk(b);
        }
    }
    PyObject *r = Py_BuildValue("llls", np_allocs, np_live, np_errors, np_errors ? np_msg : "");
    np_errors = 0;
    return r;
}

/* -------------------------------------------------- Python allocator seam */

static PyMemAllocatorEx py_orig[3];
static int py_installed;
static long py_k, py_n, py_failed, py_armed, py_only_eligible;

static int py_hit(void)
{
    if (!py_armed || (py_only_eligible && rt_eligible && !rt_eligible())) {
        return 0;
    }
    ++py_n;
    if (py_k && (py_k > 0 ? py_n == py_k : py_n >= -py_k)) {
        ++py_failed;
        return 1;
    }
    return 0;
}

static void *py_malloc(void *ctx, size_t n)
{
    PyMemAllocatorEx *a = ctx;
    return py_hit() ? NULL : a->malloc(a->ctx, n);
}

static void *py_calloc(void *ctx, size_t m, size_t n)
{
    PyMemAllocatorEx *a = ctx;
    return py_hit() ? NULL : a->calloc(a->ctx, m, n);
}

static void *py_realloc(void *ctx, void *p, size_t n)
{
    PyMemAllocatorEx *a = ctx;
    return py_hit() ? NULL : a->realloc(a->ctx, p, n);
}

static void py_free(void *ctx, void *p)
{
    PyMemAllocatorEx *a = ctx;
    a->free(a->ctx, p);
}

static PyObject *py_arm(PyObject *self, PyObject *args)
{
    if (!PyArg_ParseTuple(args, "ll", &py_k, &py_only_eligible)) {
        return NULL;
    }
    static const PyMemAllocatorDomain dom[3] = {PYMEM_DOMAIN_RAW, PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ};
    if (!py_installed) {
        for (int i = 0; i < 3; ++i) {
            PyMem_GetAllocator(dom[i], &py_orig[i]);
            PyMemAllocatorEx a = {&py_orig[i], py_malloc, py_calloc, py_realloc, py_free};
            PyMem_SetAllocator(dom[i], &a);
        }
        py_installed = 1;
    }
    py_n = py_failed = 0;
    py_armed = 1;
    Py_RETURN_NONE;
}

static PyObject *py_disarm(PyObject *self, PyObject *args)
{
    py_armed = 0;
    return Py_BuildValue("ll", py_n, py_failed);
}

/* ---------------------------------------------------------- simrt bindings */

static PyObject *heap_ranges(PyObject *self, PyObject *args)
{
    PyObject *seq;
    int which;
    NEED_RT(rt_heap_ranges)
    if (!PyArg_ParseTuple(args, "O!i", &PyList_Type, &seq, &which)) {
        return NULL;
    }
    uintptr_t lo[256], hi[256];
    Py_ssize_t n = PyList_GET_SIZE(seq);
    if (n > 256) {
        n = 256;
    }
    for (Py_ssize_t i = 0; i < n; ++i) {
        unsigned long long a, b;
        if (!PyArg_ParseTuple(PyList_GET_ITEM(seq, i), "KK", &a, &b)) {
            return NULL;
        }
        lo[i] = a;
        hi[i] = b;
    }
    rt_heap_ranges(lo, hi, (int)n, which);
    Py_RETURN_NONE;
}

static PyObject *heap_fill(PyObject *self, PyObject *args)
{
    int b;
    unsigned long long seed;
    NEED_RT(rt_heap_fill)
    if (!PyArg_ParseTuple(args, "iK", &b, &seed)) {
        return NULL;
    }
    rt_heap_fill(b, seed);
    Py_RETURN_NONE;
}

static PyObject *heap_arm(PyObject *self, PyObject *args)
{
    long k;
    int depth, guard;
    NEED_RT(rt_heap_arm)
    if (!PyArg_ParseTuple(args, "lii", &k, &depth, &guard)) {
        return NULL;
    }
    rt_heap_arm(k, depth, guard);
    Py_RETURN_NONE;
}

static PyObject *heap_next(PyObject *self, PyObject *args)
{
    long k;
    NEED_RT(rt_heap_next)
    if (!PyArg_ParseTuple(args, "l", &k)) {
        return NULL;
    }
    rt_heap_next(k);
    Py_RETURN_NONE;
}

static PyObject *heap_live(PyObject *self, PyObject *args)
{
    NEED_RT(rt_heap_live)
    return PyLong_FromLong(rt_heap_live());
}

static PyObject *heap_pause(PyObject *self, PyObject *args)
{
    int on;
    NEED_RT(rt_heap_pause)
    if (!PyArg_ParseTuple(args, "i", &on)) {
        return NULL;
    }
    rt_heap_pause(on);
    Py_RETURN_NONE;
}

static PyObject *heap_scan(PyObject *self, PyObject *args)
{
    NEED_RT(rt_heap_scan)
    rt_heap_scan();
    Py_RETURN_NONE;
}

static PyObject *heap_disarm(PyObject *self, PyObject *args)
{
    long o[5];
    NEED_RT(rt_heap_disarm)
    const char *m = rt_heap_disarm(o);
    return Py_BuildValue("llllls", o[0], o[1], o[2], o[3], o[4], m);
}

static PyObject *heap_on(PyObject *self, PyObject *args)
{
    return PyBool_FromLong(rt_heap_on && rt_heap_on());
}

static PyObject *sched_setup(PyObject *self, PyObject *args)
{
    int n;
    unsigned long long seed, limit;
    unsigned p0, p1;
    PyObject *w, *replay;
    NEED_RT(rt_setup)
    if (!PyArg_ParseTuple(args, "iKIIO!KO", &n, &seed, &p0, &p1, &PyList_Type, &w, &limit, &replay)) {
        return NULL;
    }
    if (n < 1 || n > 8 || p0 == 0 || p1 == 0) {
        PyErr_SetString(PyExc_ValueError, "bad scheduler parameters");
        return NULL;
    }
    int weights[8];
    for (int i = 0; i < n; ++i) {
        weights[i] = i < PyList_GET_SIZE(w) ? (int)PyLong_AsLong(PyList_GET_ITEM(w, i)) : 1;
    }
    uint32_t prob[2] = {p0, p1};
    if (replay == Py_None) {
        rt_setup(n, seed, prob, weights, limit, NULL, NULL, -1);
    }
    else {
        Py_ssize_t m = PyList_Size(replay);
        uint64_t *st = malloc(sizeof(uint64_t) * (m + 1));
        int *to = malloc(sizeof(int) * (m + 1));
        for (Py_ssize_t i = 0; i < m; ++i) {
            unsigned long long s;
            int t;
            PyObject *it = PySequence_Tuple(PyList_GET_ITEM(replay, i));
            if (it == NULL || !PyArg_ParseTuple(it, "Ki", &s, &t)) {
                return NULL;
            }
            Py_DECREF(it);
            st[i] = s;
            to[i] = t;
        }
        rt_setup(n, seed, prob, weights, limit, st, to, m);
        free(st);
        free(to);
    }
    Py_RETURN_NONE;
}

static PyObject *sched_enter(PyObject *self, PyObject *args)
{
    int i;
    if (!PyArg_ParseTuple(args, "i", &i)) {
        return NULL;
    }
    Py_BEGIN_ALLOW_THREADS
    rt_enter(i);
    Py_END_ALLOW_THREADS
    Py_RETURN_NONE;
}

static PyObject *sched_start(PyObject *self, PyObject *args)
{
    Py_BEGIN_ALLOW_THREADS
    rt_start();
    Py_END_ALLOW_THREADS
    Py_RETURN_NONE;
}

static PyObject *sched_leave(PyObject *self, PyObject *args)
{
    rt_leave();
    Py_RETURN_NONE;
}

static PyObject *py_sched_yield(PyObject *self, PyObject *args)
{
    int kind = 1;
    if (!PyArg_ParseTuple(args, "|i", &kind)) {
        return NULL;
    }
    if (rt_yield) {
        Py_BEGIN_ALLOW_THREADS
        rt_yield(kind);
        Py_END_ALLOW_THREADS
    }
    Py_RETURN_NONE;
}

static PyObject *sched_alive(PyObject *self, PyObject *args)
{
    return PyLong_FromLong(rt_alive ? rt_alive() : 0);
}

static PyObject *sched_result(PyObject *self, PyObject *args)
{
    uint64_t steps, hash;
    const uint64_t *ss;
    const int *st;
    NEED_RT(rt_result)
    long n = rt_result(&steps, &hash, &ss, &st);
    PyObject *l = PyList_New(n);
    if (l == NULL) {
        return NULL;
    }
    for (long i = 0; i < n; ++i) {
        PyList_SET_ITEM(l, i, Py_BuildValue("Ki", (unsigned long long)ss[i], st[i]));
    }
    return Py_BuildValue("KKN", (unsigned long long)steps, (unsigned long long)hash, l);
}

/* ------------------------------------------------------------- inner loops */

static PyObject *loop_count(PyObject *self, PyObject *o)
{
    if (!PyObject_TypeCheck(o, &PyUFunc_Type)) {
        PyErr_SetString(PyExc_TypeError, "ufunc expected");
        return NULL;
    }
    return PyLong_FromLong(((PyUFuncObject *)o)->ntypes);
}

/* call_loop(ufunc, index, addresses, dims, steps, release_gil): the flags that the loop leaves */
static PyObject *call_loop(PyObject *self, PyObject *args)
{
    PyObject *uf, *addr, *dims, *steps;
    int idx, rel;
    if (!PyArg_ParseTuple(args, "O!iO!O!O!i", &PyUFunc_Type, &uf, &idx, &PyTuple_Type, &addr,
                          &PyTuple_Type, &dims, &PyTuple_Type, &steps, &rel)) {
        return NULL;
    }
    PyUFuncObject *u = (PyUFuncObject *)uf;
    char *a[32];
    npy_intp d[32], s[64];
    if (idx < 0 || idx >= u->ntypes || PyTuple_GET_SIZE(addr) > 32 || PyTuple_GET_SIZE(dims) > 32
            || PyTuple_GET_SIZE(steps) > 64) {
        PyErr_SetString(PyExc_ValueError, "bad loop arguments");
        return NULL;
    }
    for (Py_ssize_t i = 0; i < PyTuple_GET_SIZE(addr); ++i) {
        a[i] = (char *)PyLong_AsVoidPtr(PyTuple_GET_ITEM(addr, i));
    }
    for (Py_ssize_t i = 0; i < PyTuple_GET_SIZE(dims); ++i) {
        d[i] = PyLong_AsSsize_t(PyTuple_GET_ITEM(dims, i));
    }
    for (Py_ssize_t i = 0; i < PyTuple_GET_SIZE(steps); ++i) {
        s[i] = PyLong_AsSsize_t(PyTuple_GET_ITEM(steps, i));
    }
    if (PyErr_Occurred()) {
        return NULL;
    }
    PyUFuncGenericFunction f = u->functions[idx];
    void *data = u->data ? (void *)u->data[idx] : NULL;
    int fl;
    feclearexcept(FE_ALL_EXCEPT);
    if (rel) {
        Py_BEGIN_ALLOW_THREADS
        f(a, d, s, data);
        fl = fetestexcept(FE_ALL_EXCEPT);
        Py_END_ALLOW_THREADS
    }
    else {
        f(a, d, s, data);
        fl = fetestexcept(FE_ALL_EXCEPT);
    }
    if (PyErr_Occurred()) {
        return NULL;
    }
    return PyLong_FromLong(fl);
}

/* ---------------------------------------------------------------- fp state */

static PyObject *fp_get(PyObject *self, PyObject *args)
{
    unsigned short cw;
    unsigned mx;
    __asm__ volatile("fnstcw %0" : "=m"(cw));
    __asm__ volatile("stmxcsr %0" : "=m"(mx));
    return Py_BuildValue("iii", fegetround(), (int)cw, (int)(mx & ~0x3fu));
}

/* Counts basic blocks; the process ends with status 77 when there are more than the budget. */
static PyObject *count_start(PyObject *self, PyObject *args)
{
    unsigned long long b;
    if (!PyArg_ParseTuple(args, "K", &b)) {
        return NULL;
    }
    rt_count_start(b);
    Py_RETURN_NONE;
}

static PyObject *count_stop(PyObject *self, PyObject *args)
{
    return PyLong_FromUnsignedLongLong(rt_count_stop());
}

/* (rounding direction, MXCSR bits to set, MXCSR bits to clear) */
static PyObject *fp_set(PyObject *self, PyObject *args)
{
    int r;
    unsigned on, off, mx;
    if (!PyArg_ParseTuple(args, "iII", &r, &on, &off)) {
        return NULL;
    }
    fesetround(r);
    __asm__ volatile("stmxcsr %0" : "=m"(mx));
    mx = (mx & ~off) | on;
    __asm__ volatile("ldmxcsr %0" : : "m"(mx));
    Py_RETURN_NONE;
}

static PyObject *fp_flags(PyObject *self, PyObject *args)
{
    return PyLong_FromLong(fetestexcept(FE_ALL_EXCEPT));
}

static PyObject *fp_raise(PyObject *self, PyObject *args)
{
    int f;
    if (!PyArg_ParseTuple(args, "i", &f)) {
        return NULL;
    }
    feclearexcept(FE_ALL_EXCEPT);
    if (f) {
        feraiseexcept(f);
    }
    Py_RETURN_NONE;
}

/* Leaves a pattern in the stack memory that the next call will use. */
static __attribute__((noinline)) void dirty(int b)
{
    volatile char area[65536];
    memset((char *)area, b, sizeof area);
    __asm__ volatile("" : : "r"(area) : "memory");
}

static PyObject *stack_fill(PyObject *self, PyObject *args)
{
    int b;
    if (!PyArg_ParseTuple(args, "i", &b)) {
        return NULL;
    }
    dirty(b);
    Py_RETURN_NONE;
}

/* Ufuncs with a limited life.  A ufunc of sim_ufunc() owns the block that its loops get as their data, as the
   ufuncs of a just-in-time compiler do.  Its end is noted in the block, which is not reused, so a loop that runs
   after the end of its ufunc is noticed. */

#define SIM_LIVE 0x5EAF00D5EAF00D01L
typedef struct { long magic; double c; } simdata;
static long sim_made, sim_ended, sim_stale;

#define SIM_LOOPS(T, N) \
static void sim_mul_##N(char **a, const npy_intp *d, const npy_intp *s, void *v) \
{ \
    simdata *q = v; \
    if (q->magic != SIM_LIVE) __atomic_add_fetch(&sim_stale, 1, __ATOMIC_RELAXED); \
    for (npy_intp i = 0; i < d[0]; ++i) \
        *(T *)(a[2] + i*s[2]) = (T)(q->c * *(T *)(a[0] + i*s[0]) * *(T *)(a[1] + i*s[1])); \
} \
static void sim_add_##N(char **a, const npy_intp *d, const npy_intp *s, void *v) \
{ \
    simdata *q = v; \
    if (q->magic != SIM_LIVE) __atomic_add_fetch(&sim_stale, 1, __ATOMIC_RELAXED); \
    for (npy_intp i = 0; i < d[0]; ++i) \
        *(T *)(a[2] + i*s[2]) = (T)(*(T *)(a[0] + i*s[0]) + *(T *)(a[1] + i*s[1])); \
} \
static void sim_last_##N(char **a, const npy_intp *d, const npy_intp *s, void *v) \
{ \
    simdata *q = v; \
    if (q->magic != SIM_LIVE) __atomic_add_fetch(&sim_stale, 1, __ATOMIC_RELAXED); \
    for (npy_intp i = 0; i < d[0]; ++i) \
        *(T *)(a[1] + i*s[1]) = (T)(q->c * *(T *)(a[0] + i*s[0] + (d[1] - 1)*s[2])); \
}
SIM_LOOPS(float, f)
SIM_LOOPS(double, d)

static PyUFuncGenericFunction sim_funcs[3][2] = {{sim_mul_f, sim_mul_d}, {sim_add_f, sim_add_d}, {sim_last_f, sim_last_d}};
static char sim_types3[6] = {NPY_FLOAT, NPY_FLOAT, NPY_FLOAT, NPY_DOUBLE, NPY_DOUBLE, NPY_DOUBLE};
static char sim_types2[4] = {NPY_FLOAT, NPY_FLOAT, NPY_DOUBLE, NPY_DOUBLE};
static const char *sim_names[3] = {"sim_mul", "sim_add", "sim_last"};

static void sim_end(PyObject *cap)
{
    simdata *q = PyCapsule_GetPointer(cap, "sim");
    q->magic = 0;
    q->c = 1e30;
    sim_ended++;
}

static PyObject *sim_ufunc(PyObject *self, PyObject *args)
{
    int kind;
    double c;
    if (!PyArg_ParseTuple(args, "id", &kind, &c)) return NULL;
    /* never freed: a reference to it from the dead must be noticed */
    struct { simdata q; void *data[2]; } *b = malloc(sizeof *b);
    b->q.magic = SIM_LIVE;
    b->q.c = c;
    b->data[0] = b->data[1] = &b->q;
    PyObject *cap = PyCapsule_New(&b->q, "sim", sim_end);
    if (!cap) return NULL;
    PyObject *u = kind < 2 ? PyUFunc_FromFuncAndData(sim_funcs[kind], b->data, sim_types3, 2, 2, 1, kind ? PyUFunc_Zero : PyUFunc_None,
                                                     sim_names[kind], "", 0)
                           : PyUFunc_FromFuncAndDataAndSignature(sim_funcs[kind], b->data, sim_types2, 2, 1, 1, PyUFunc_None,
                                                                 sim_names[kind], "", 0, "(n)->()");
    if (!u) { Py_DECREF(cap); return NULL; }
    ((PyUFuncObject *)u)->obj = cap;
    sim_made++;
    return u;
}

static PyObject *sim_status(PyObject *self, PyObject *args)
{
    return Py_BuildValue("lll", sim_made, sim_ended, sim_stale);
}

static PyMethodDef methods[] = {
    {"sim_ufunc", sim_ufunc, METH_VARARGS, ""},
    {"sim_status", sim_status, METH_NOARGS, ""},
    {"stack_fill", stack_fill, METH_VARARGS, ""},
    {"np_install", np_install, METH_NOARGS, ""},
    {"np_restore", np_restore, METH_O, ""},
    {"np_config", np_config, METH_VARARGS, ""},
    {"np_arm", np_arm, METH_VARARGS, ""},
    {"np_disarm", np_disarm, METH_NOARGS, ""},
    {"np_status", np_status, METH_NOARGS, ""},
    {"py_arm", py_arm, METH_VARARGS, ""},
    {"py_disarm", py_disarm, METH_NOARGS, ""},
    {"heap_ranges", heap_ranges, METH_VARARGS, ""},
    {"heap_fill", heap_fill, METH_VARARGS, ""},
    {"heap_arm", heap_arm, METH_VARARGS, ""},
    {"heap_next", heap_next, METH_VARARGS, ""},
    {"heap_live", heap_live, METH_NOARGS, ""},
    {"heap_pause", heap_pause, METH_VARARGS, ""},
    {"heap_scan", heap_scan, METH_NOARGS, ""},
    {"heap_disarm", heap_disarm, METH_NOARGS, ""},
    {"heap_on", heap_on, METH_NOARGS, ""},
    {"sched_setup", sched_setup, METH_VARARGS, ""},
    {"sched_enter", sched_enter, METH_VARARGS, ""},
    {"sched_start", sched_start, METH_NOARGS, ""},
    {"sched_leave", sched_leave, METH_NOARGS, ""},
    {"sched_yield", py_sched_yield, METH_VARARGS, ""},
    {"sched_alive", sched_alive, METH_NOARGS, ""},
    {"sched_result", sched_result, METH_NOARGS, ""},
    {"loop_count", loop_count, METH_O, ""},
    {"call_loop", call_loop, METH_VARARGS, ""},
    {"fp_get", fp_get, METH_NOARGS, ""},
    {"count_start", count_start, METH_VARARGS, ""},
    {"count_stop", count_stop, METH_NOARGS, ""},
    {"fp_set", fp_set, METH_VARARGS, ""},
    {"fp_flags", fp_flags, METH_NOARGS, ""},
    {"fp_raise", fp_raise, METH_VARARGS, ""},
    {NULL, NULL, 0, NULL}
};

static struct PyModuleDef moddef = {PyModuleDef_HEAD_INIT, "_simext", "", -1, methods};

#define RT(v, name) *(void **)&v = dlsym(RTLD_DEFAULT, name)

PyMODINIT_FUNC PyInit__simext(void)
{
    import_array();
    import_umath();
    RT(rt_heap_ranges, "simrt_heap_ranges");
    RT(rt_count_start, "simrt_count_start");
    RT(rt_count_stop, "simrt_count_stop");
    RT(rt_heap_fill, "simrt_heap_fill");
    RT(rt_heap_arm, "simrt_heap_arm");
    RT(rt_heap_next, "simrt_heap_next");
    RT(rt_heap_live, "simrt_heap_live");
    RT(rt_heap_pause, "simrt_heap_pause");
    RT(rt_heap_scan, "simrt_heap_scan");
    RT(rt_heap_disarm, "simrt_heap_disarm");
    RT(rt_heap_on, "simrt_heap_on");
    RT(rt_eligible, "simrt_eligible");
    RT(rt_yield, "simrt_yield");
    RT(rt_setup, "simrt_sched_setup");
    RT(rt_enter, "simrt_sched_enter");
    RT(rt_start, "simrt_sched_start");
    RT(rt_leave, "simrt_sched_leave");
    RT(rt_alive, "simrt_sched_alive");
    RT(rt_result, "simrt_sched_result");
    return PyModule_Create(&moddef);
}
