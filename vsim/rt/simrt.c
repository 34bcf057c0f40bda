/*
 * simrt: the simulator's runtime, preloaded into the worker process.
 *
 * 1. Simulated heap (SIMRT_HEAP=1): malloc & co with canaries, seeded fill of new
 *    memory, fill and quarantine of freed memory, guard pages for the blocks that the
 *    code under test asks for, and a fault plan: fail the k-th eligible allocation.
 *    Eligible means that a frame of the code under test is within a few frames of the
 *    allocator.
 * 2. Scheduler: real threads, exactly one of which holds the baton.  The extension
 *    modules are compiled with -fsanitize-coverage=trace-pc, so each basic block calls
 *    __sanitizer_cov_trace_pc() below, where a seeded PRNG (or a recorded list) decides
 *    whether the baton moves and to whom.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

/* ------------------------------------------------------------------ heap */

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
extern char **environ;

#define MAGIC 0x51A110C8BEEFCAFEULL
#define DEADM 0xDEADB10CDEADB10CULL
#define CANARY 0xA5
#define CANLEN 16

typedef struct {
    uint32_t flags;
    uint32_t seq;
    uint64_t aux;    /* guarded blocks: start of the mapping */
    uint64_t magic;  /* MAGIC ^ address */
    uint64_t size;
} hdr_t;             /* 32 bytes; magic and size are the 16 bytes just below the block */

#define F_GUARD 1u
#define F_TRACK 2u

#define MAXRANGE 256
#define QLEN 8192

static int heap_mode = -1;
static int fill_byte = -1;      /* -1: leave as is; -2: seeded bytes */
static uint64_t fill_rng = 88172645463325252ULL;
static volatile long armed;     /* 0: off; 1: on */
static long fail_k;             /* fail the k-th eligible; 0: only count; <0: from |k| on */
static int guard_eligible;
static long n_eligible, n_failed, n_live, n_tracked;
static int bt_depth = 4;
static uintptr_t range_lo[MAXRANGE], range_hi[MAXRANGE];
static int n_range;
static uintptr_t exc_lo[MAXRANGE], exc_hi[MAXRANGE];
static int n_exc;
static long heap_errors;
static char heap_msg[256];
static void *quar[QLEN];
static unsigned quar_pos;
static __thread int busy;
static pthread_mutex_t qlock = PTHREAD_MUTEX_INITIALIZER;

static int mode(void)
{
    if (heap_mode < 0) {
        if (environ == NULL) {
            return 0;
        }
        const char *s = getenv("SIMRT_HEAP");
        heap_mode = (s && s[0] == '1');
    }
    return heap_mode;
}

static void heap_error(const char *what, size_t size)
{
    if (heap_errors++ == 0) {
        snprintf(heap_msg, sizeof heap_msg, "%s (block of %zu bytes)", what, size);
    }
}

static inline hdr_t *hdr_of(void *p)
{
    uint64_t magic = *(uint64_t *)((char *)p - 16);
    if ((magic ^ (uintptr_t)p) == MAGIC) {
        return (hdr_t *)((char *)p - sizeof(hdr_t));
    }
    return NULL;
}

static int eligible(void)
{
    void *fr[16];
    if (!armed || busy || n_range == 0) {
        return 0;
    }
    busy = 1;
    int n = backtrace(fr, 4 + bt_depth > 16 ? 16 : 4 + bt_depth);
    busy = 0;
    int seen = 0;
    for (int i = 1; i < n && seen < bt_depth + 1; ++i) {
        uintptr_t a = (uintptr_t)fr[i];
        int in_rt = 0;
        for (int j = 0; j < n_exc; ++j) {
            if (a >= exc_lo[j] && a < exc_hi[j]) {
                in_rt = 1;
            }
        }
        if (in_rt) {
            continue;
        }
        ++seen;
        for (int j = 0; j < n_range; ++j) {
            if (a >= range_lo[j] && a < range_hi[j]) {
                return 1;
            }
        }
    }
    return 0;
}

static void fill(unsigned char *p, size_t n)
{
    if (fill_byte >= 0) {
        memset(p, fill_byte, n);
    }
    else if (fill_byte == -2) {
        for (size_t i = 0; i < n; ++i) {
            fill_rng ^= fill_rng << 13;
            fill_rng ^= fill_rng >> 7;
            fill_rng ^= fill_rng << 17;
            p[i] = (unsigned char)fill_rng;
        }
    }
}

static void *managed_alloc(size_t size, int zero)
{
    unsigned flags = 0;
    char *p;
    if (eligible()) {
        ++n_eligible;
        if (fail_k && (fail_k > 0 ? n_eligible == fail_k : n_eligible >= -fail_k)) {
            ++n_failed;
            errno = ENOMEM;
            return NULL;
        }
        flags |= F_TRACK;
        if (guard_eligible) {
            flags |= F_GUARD;
        }
    }
    if (size > (1ULL << 40)) {
        errno = ENOMEM;
        return NULL;
    }
    if (flags & F_GUARD) {
        size_t pg = 4096;
        size_t user = (size + 15) & ~(size_t)15;
        size_t len = (user + sizeof(hdr_t) + pg - 1) & ~(pg - 1);
        char *m = mmap(NULL, len + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) {
            return NULL;
        }
        mprotect(m + len, pg, PROT_NONE);
        p = m + len - user;
        memset(p + size, CANARY, user - size);
        hdr_t *h = (hdr_t *)(p - sizeof(hdr_t));
        h->aux = (uint64_t)(uintptr_t)m;
    }
    else {
        char *b = __libc_malloc(size + sizeof(hdr_t) + CANLEN);
        if (b == NULL) {
            return NULL;
        }
        p = b + sizeof(hdr_t);
        memset(p + size, CANARY, CANLEN);
    }
    hdr_t *h = (hdr_t *)(p - sizeof(hdr_t));
    h->flags = flags;
    h->size = size;
    h->magic = MAGIC ^ (uintptr_t)p;
    if (zero) {
        memset(p, 0, size);
    }
    else {
        fill((unsigned char *)p, size);
    }
    if (flags & F_TRACK) {
        ++n_live;
        ++n_tracked;
    }
    return p;
}

/* Freed memory is filled with a byte that, as a reference count, is one that Python
   increments and decrements, so that the use of a freed object shows. */
#define FREED 0x5D

static void check_freed(hdr_t *h)
{
    unsigned char *p = (unsigned char *)(h + 1);
    for (size_t i = 0; i < h->size; ++i) {
        if (p[i] != FREED) {
            heap_error("write to freed memory", h->size);
            memset(p, FREED, h->size);
            return;
        }
    }
}

static void managed_free(void *p, hdr_t *h)
{
    size_t size = h->size;
    if (h->flags & F_TRACK) {
        --n_live;
    }
    if (h->flags & F_GUARD) {
        size_t pg = 4096;
        size_t user = (size + 15) & ~(size_t)15;
        for (size_t i = size; i < user; ++i) {
            if (((unsigned char *)p)[i] != CANARY) {
                heap_error("write past the end of a heap block", size);
                break;
            }
        }
        size_t len = (user + sizeof(hdr_t) + pg - 1) & ~(pg - 1);
        munmap((void *)(uintptr_t)h->aux, len + pg);
        return;
    }
    for (int i = 0; i < CANLEN; ++i) {
        if (((unsigned char *)p)[size + i] != CANARY) {
            heap_error("write past the end of a heap block", size);
            break;
        }
    }
    h->magic = DEADM ^ (uintptr_t)p;
    memset(p, FREED, size);
    if (size > (1u << 20)) {
        h->magic = 0;
        __libc_free(h);
        return;
    }
    pthread_mutex_lock(&qlock);
    void *old = quar[quar_pos];
    quar[quar_pos] = h;
    quar_pos = (quar_pos + 1) % QLEN;
    pthread_mutex_unlock(&qlock);
    if (old) {
        check_freed(old);
        ((hdr_t *)old)->magic = 0;
        __libc_free(old);
    }
}

/* Looks at all memory in quarantine. */
void simrt_heap_scan(void)
{
    pthread_mutex_lock(&qlock);
    for (int i = 0; i < QLEN; ++i) {
        if (quar[i]) {
            check_freed(quar[i]);
        }
    }
    pthread_mutex_unlock(&qlock);
}

void *malloc(size_t n)
{
    return mode() ? managed_alloc(n, 0) : __libc_malloc(n);
}

void *calloc(size_t a, size_t b)
{
    size_t n;
    if (!mode()) {
        return __libc_calloc(a, b);
    }
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return NULL;
    }
    return managed_alloc(n, 1);
}

void free(void *p)
{
    if (p == NULL) {
        return;
    }
    uint64_t magic = *(uint64_t *)((char *)p - 16);
    if ((magic ^ (uintptr_t)p) == MAGIC) {
        managed_free(p, (hdr_t *)((char *)p - sizeof(hdr_t)));
    }
    else if ((magic ^ (uintptr_t)p) == DEADM) {
        heap_error("double free", 0);
    }
    else {
        __libc_free(p);
    }
}

void *realloc(void *p, size_t n)
{
    if (p == NULL) {
        return malloc(n);
    }
    hdr_t *h = hdr_of(p);
    if (h == NULL) {
        return __libc_realloc(p, n);
    }
    if (n == 0) {
        managed_free(p, h);
        return NULL;
    }
    void *q = managed_alloc(n, 0);
    if (q == NULL) {
        return NULL;
    }
    memcpy(q, p, h->size < n ? h->size : n);
    managed_free(p, h);
    return q;
}

void *reallocarray(void *p, size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return NULL;
    }
    return realloc(p, n);
}

size_t malloc_usable_size(void *p)
{
    if (p == NULL) {
        return 0;
    }
    hdr_t *h = hdr_of(p);
    if (h) {
        return h->size;
    }
    static size_t (*real)(void *);
    if (!real) {
        real = (size_t (*)(void *))dlsym(RTLD_NEXT, "malloc_usable_size");
    }
    return real(p);
}

void simrt_heap_ranges(const uintptr_t *lo, const uintptr_t *hi, int n, int which)
{
    n = n > MAXRANGE ? MAXRANGE : n;
    if (which == 0) {
        for (int i = 0; i < n; ++i) {
            range_lo[i] = lo[i];
            range_hi[i] = hi[i];
        }
        n_range = n;
    }
    else {
        for (int i = 0; i < n; ++i) {
            exc_lo[i] = lo[i];
            exc_hi[i] = hi[i];
        }
        n_exc = n;
    }
    void *fr[4];
    busy = 1;
    backtrace(fr, 4);  /* loads the unwinder now */
    busy = 0;
}

void simrt_heap_fill(int byte, uint64_t seed)
{
    fill_byte = byte;
    fill_rng = seed | 1;
}

void simrt_heap_arm(long k, int depth, int guard)
{
    n_eligible = n_failed = n_tracked = n_live = 0;
    fail_k = k;
    bt_depth = depth;
    guard_eligible = guard;
    armed = 1;
}

/* Fails the k-th eligible allocation from now on (0: none). */
void simrt_heap_next(long k)
{
    fail_k = k ? n_eligible + k : 0;
}

long simrt_heap_live(void)
{
    return n_live;
}

void simrt_heap_pause(int on)
{
    armed = on;
}

/* out: eligible, failed, live, errors, tracked */
const char *simrt_heap_disarm(long out[5])
{
    armed = 0;
    out[0] = n_eligible;
    out[1] = n_failed;
    out[2] = n_live;
    out[3] = heap_errors;
    out[4] = n_tracked;
    heap_errors = 0;
    return out[3] ? heap_msg : "";
}

int simrt_heap_on(void)
{
    return mode();
}

/* Another allocator's fault plan (NumPy's data handler, Python's object allocator)
   shares the eligibility test. */
int simrt_eligible(void)
{
    return eligible();
}

/* ------------------------------------------------------------- scheduler */

#define MAXT 8
#define MAXSW 65536

static volatile int S_active;
static int S_n, S_alive[MAXT], S_nalive;
static volatile int S_reg, S_cur;
static sem_t S_sem[MAXT];
static uint64_t S_rng, S_steps, S_hash, S_limit;
static uint32_t S_prob[3];
static int S_weight[MAXT];
static int S_replay;
static uint64_t sw_step[MAXSW];
static int sw_to[MAXSW];
static long n_sw, n_replay, i_replay;
static uint64_t S_tsteps[MAXT];
static __thread int me = -1;
static int (*gil_check)(void);

static uint64_t rnd(void)
{
    uint64_t z = (S_rng += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

static int pick(int not_me)
{
    int tot = 0;
    for (int i = 0; i < S_n; ++i) {
        if (S_alive[i] && i != not_me) {
            tot += S_weight[i];
        }
    }
    if (tot == 0) {
        return -1;
    }
    int r = (int)(rnd() % (uint64_t)tot);
    for (int i = 0; i < S_n; ++i) {
        if (S_alive[i] && i != not_me) {
            r -= S_weight[i];
            if (r < 0) {
                return i;
            }
        }
    }
    return -1;
}

static void record(int to)
{
    if (n_sw < MAXSW && !S_replay) {
        sw_step[n_sw] = S_steps;
        sw_to[n_sw] = to;
        ++n_sw;
    }
    S_hash = (S_hash ^ (uint64_t)(to + 1)) * 1099511628211ULL;
    for (int i = 0; i < S_n; ++i) {
        S_hash = (S_hash ^ S_tsteps[i]) * 1099511628211ULL;
    }
}

static void hand(int from, int to)
{
    record(to);
    S_cur = to;
    sem_post(&S_sem[to]);
    if (from >= 0) {
        while (sem_wait(&S_sem[from]) != 0) {
        }
    }
}

/* kind 0: basic block of compiled code; 1: voluntary (Python level); 2: must switch */
static void yield_point(int kind)
{
    int i = me;
    int to = -1;
    if (S_nalive < 2 && kind != 2) {
        return;
    }
    ++S_steps;
    ++S_tsteps[i];
    if (S_replay) {
        while (i_replay < n_replay && sw_step[i_replay] < S_steps) {
            ++i_replay;
        }
        if (i_replay < n_replay && sw_step[i_replay] == S_steps) {
            to = sw_to[i_replay++];
            if (to < 0 || to >= S_n || !S_alive[to] || to == i) {
                to = -1;
            }
        }
        if (to < 0 && kind == 2) {
            for (int d = 1; d < S_n; ++d) {
                int j = (i + d) % S_n;
                if (S_alive[j]) {
                    to = j;
                    break;
                }
            }
        }
    }
    else if (kind == 2 || rnd() % S_prob[kind] == 0) {
        if (n_sw < (long)S_limit || kind == 2) {
            to = pick(i);
        }
    }
    if (to >= 0) {
        hand(i, to);
    }
}

/* Work counter: basic blocks executed while C_on, at most C_budget. */
static volatile int C_on;
static uint64_t C_count, C_budget;

static __attribute__((noinline)) void over_budget(void)
{
    void *b[6];
    C_on = 0;
    fprintf(stderr, "step budget of %llu basic blocks exceeded in\n", (unsigned long long)C_budget);
    fflush(stderr);
    backtrace_symbols_fd(b, backtrace(b, 6), 2);
    _exit(77);
}

void simrt_count_start(uint64_t budget)
{
    void *b[2];
    backtrace(b, 2);    /* loads what backtrace needs */
    C_count = 0;
    C_budget = budget;
    C_on = 1;
}

uint64_t simrt_count_stop(void)
{
    C_on = 0;
    return C_count;
}

void __sanitizer_cov_trace_pc(void)
{
    if (__builtin_expect(C_on, 0) && ++C_count > C_budget) {
        over_budget();
    }
    if (__builtin_expect(!S_active || me < 0, 1)) {
        return;
    }
    if (gil_check && gil_check()) {
        return;
    }
    yield_point(0);
}

void simrt_yield(int kind)
{
    if (!S_active || me < 0) {
        return;
    }
    yield_point(kind);
}

void simrt_sched_setup(int n, uint64_t seed, const uint32_t *prob, const int *weights,
                       uint64_t limit, const uint64_t *rstep, const int *rto, long nr)
{
    S_n = n;
    S_nalive = n;
    S_rng = seed;
    S_steps = 0;
    S_hash = 1469598103934665603ULL;
    S_limit = limit;
    S_reg = 0;
    S_cur = -1;
    n_sw = 0;
    S_prob[0] = prob[0];
    S_prob[1] = prob[1];
    S_replay = nr >= 0;
    n_replay = nr < 0 ? 0 : nr > MAXSW ? MAXSW : nr;
    i_replay = 0;
    for (long i = 0; i < n_replay; ++i) {
        sw_step[i] = rstep[i];
        sw_to[i] = rto[i];
    }
    for (int i = 0; i < n; ++i) {
        S_alive[i] = 1;
        S_tsteps[i] = 0;
        S_weight[i] = weights ? weights[i] : 1;
        sem_init(&S_sem[i], 0, 0);
    }
    gil_check = (int (*)(void))dlsym(RTLD_DEFAULT, "PyGILState_Check");
    S_active = 1;
}

void simrt_sched_enter(int i)
{
    me = i;
    __sync_fetch_and_add(&S_reg, 1);
    while (sem_wait(&S_sem[i]) != 0) {
    }
}

void simrt_sched_start(void)
{
    while (S_reg < S_n) {
        usleep(50);
    }
    /* every thread is registered; the first holder of the baton */
    int to = 0;
    ++S_steps;
    if (S_replay) {
        if (i_replay < n_replay && sw_step[i_replay] == S_steps) {
            to = sw_to[i_replay++];
        }
    }
    else {
        to = pick(-1);
    }
    hand(-1, to);
}

void simrt_sched_leave(void)
{
    int i = me, to = -1;
    S_alive[i] = 0;
    --S_nalive;
    ++S_steps;
    me = -1;
    if (S_nalive == 0) {
        S_active = 0;
        return;
    }
    if (S_replay) {
        while (i_replay < n_replay && sw_step[i_replay] < S_steps) {
            ++i_replay;
        }
        if (i_replay < n_replay && sw_step[i_replay] == S_steps) {
            to = sw_to[i_replay++];
            if (to < 0 || to >= S_n || !S_alive[to]) {
                to = -1;
            }
        }
        for (int j = 0; j < S_n && to < 0; ++j) {
            if (S_alive[j]) {
                to = j;
            }
        }
    }
    else {
        to = pick(-1);
    }
    hand(-1, to);
}

int simrt_sched_alive(void)
{
    return S_active ? S_nalive : 0;
}

long simrt_sched_result(uint64_t *steps, uint64_t *hash, const uint64_t **ss, const int **st)
{
    S_active = 0;
    *steps = S_steps;
    *hash = S_hash;
    *ss = sw_step;
    *st = sw_to;
    return S_replay ? n_replay : n_sw;
}
