/*
 * simio: a simulated disk, preloaded into the worker that runs the code generators.
 *
 * The calls by which the C library and Python reach files are replaced by versions that
 * count the operations on files below two directories (source tree and destination) and
 * follow a plan: the k-th operation of a class fails with an error, transfers only a part
 * of the data, or is the point at which the process dies; a budget of bytes models a disk
 * that becomes full.  Everything else goes to the kernel unchanged.  The state lives in
 * shared memory, so that it survives the death of the process under test.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

enum { OPENW, OPENR, READ, WRITE, CLOSE, COPY, META, NCLS };
enum { M_ERR = 1, M_SHORT, M_CRASH, M_TORN, M_ERRALL, M_LOST };

#define NPLAN 8
#define NLOG 16384

typedef struct {
    int cls, mode;
    long k, arg;
} fault_t;

static struct {
    int on, nplan;
    fault_t plan[NPLAN];
    long count[NCLS];
    long fired[8];          /* by mode; 7: disk full */
    long budget;            /* bytes that still fit; -1: no limit */
    long srcw;              /* attempts to write below the source tree */
    long nlog;
    char log[NLOG];
} *S;

static char dest[4096], src[4096];
static size_t ndest, nsrc;
static unsigned char kind[4096];        /* of each descriptor: 0 other, 1 dest, 2 source; |4 writable */
static volatile long clock_offset;

int simio_init(void)
{
    if (!S) {
        S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (S == MAP_FAILED) {
            S = NULL;
            return -1;
        }
    }
    return 0;
}

void simio_dirs(const char *d, const char *s)
{
    strncpy(dest, d, sizeof dest - 1);
    strncpy(src, s, sizeof src - 1);
    ndest = strlen(dest);
    nsrc = strlen(src);
}

void simio_reset(long budget)
{
    memset(S, 0, sizeof *S);
    S->budget = budget;
}

int simio_plan(int cls, long k, int mode, long arg)
{
    if (S->nplan >= NPLAN) {
        return -1;
    }
    fault_t *f = &S->plan[S->nplan++];
    f->cls = cls;
    f->k = k;
    f->mode = mode;
    f->arg = arg;
    return 0;
}

void simio_on(int on)
{
    S->on = on;
    if (on) {
        memset(kind, 0, sizeof kind);
    }
}

void simio_clock(long offset)
{
    clock_offset = offset;
}

long simio_count(int cls) { return S->count[cls]; }
long simio_fired(int mode) { return S->fired[mode]; }
long simio_srcw(void) { return S->srcw; }
const char *simio_log(void) { return S->log; }

static void note(char c, long r)
{
    char b[24];
    int n = 0;
    if (S->nlog + 26 >= NLOG) {
        return;
    }
    S->log[S->nlog++] = c;
    unsigned long u = r < 0 ? -r : r;
    do {
        b[n++] = '0' + u % 10;
    } while (u /= 10);
    if (r < 0) {
        S->log[S->nlog++] = '-';
    }
    while (n) {
        S->log[S->nlog++] = b[--n];
    }
    S->log[S->nlog++] = ' ';
    S->log[S->nlog] = 0;
}

static const char cname[] = "WRrwcxm";

static void die(void)
{
    syscall(SYS_exit_group, 137);
}

/* The fault that strikes this operation. */
static fault_t *strike(int cls)
{
    long n = ++S->count[cls];
    for (int i = 0; i < S->nplan; ++i) {
        fault_t *f = &S->plan[i];
        if (f->cls == cls && (f->mode == M_ERRALL ? n >= f->k : n == f->k)) {
            return f;
        }
    }
    return NULL;
}

/* An operation without data.  1: it fails with errno. */
static int simple(int cls)
{
    fault_t *f = strike(cls);
    if (f) {
        ++S->fired[f->mode];
        if (f->mode == M_CRASH || f->mode == M_TORN) {
            note(cname[cls], -999);
            die();
        }
        if (f->mode == M_ERR || f->mode == M_ERRALL) {
            errno = (int)f->arg;
            note(cname[cls], -errno);
            return 1;
        }
    }
    return 0;
}

/* The number of bytes to transfer; -1: fails with errno; *torn: die afterwards. */
static ssize_t amount(int cls, size_t n, int writes, int *torn)
{
    fault_t *f = strike(cls);
    *torn = 0;
    if (f) {
        ++S->fired[f->mode];
        switch (f->mode) {
        case M_CRASH:
            note(cname[cls], -999);
            die();
            break;
        case M_ERR:
        case M_ERRALL:
            errno = (int)f->arg;
            note(cname[cls], -errno);
            return -1;
        case M_SHORT:
            if (n > 1) {
                n = 1 + (n - 1) * (size_t)f->arg / 256;
            }
            break;
        case M_TORN:
            n = n * (size_t)f->arg / 256;
            *torn = 1;
            break;
        }
    }
    if (writes && S->budget >= 0 && n) {
        if (S->budget == 0) {
            ++S->fired[7];
            errno = ENOSPC;
            note(cname[cls], -errno);
            return -1;
        }
        if ((long)n > S->budget) {
            ++S->fired[7];
            n = S->budget;
        }
    }
    return n;
}

static void wrote(ssize_t r)
{
    if (r > 0 && S->budget >= 0) {
        S->budget -= r;
    }
}

/* 1: below dest, 2: below src, 0: elsewhere */
static int where(const char *p)
{
    static __thread char b[8192];
    size_t n = 0;
    if (!p) {
        return 0;
    }
    if (p[0] != '/') {
        long r = syscall(SYS_getcwd, b, 4096);
        if (r <= 0) {
            return 0;
        }
        n = strlen(b);
    }
    while (*p) {
        while (*p == '/') {
            ++p;
        }
        size_t l = strcspn(p, "/");
        if (l == 2 && p[0] == '.' && p[1] == '.') {
            while (n && b[--n] != '/') {
            }
        }
        else if (l && !(l == 1 && p[0] == '.')) {
            if (n + l + 2 > sizeof b) {
                return 0;
            }
            b[n++] = '/';
            memcpy(b + n, p, l);
            n += l;
        }
        p += l;
    }
    b[n] = 0;
    if (ndest && n > ndest && !memcmp(b, dest, ndest) && b[ndest] == '/') {
        return 1;
    }
    if (nsrc && n > nsrc && !memcmp(b, src, nsrc) && b[nsrc] == '/') {
        return 2;
    }
    return 0;
}

#define ON (S && S->on)
#define K(fd) ((fd) >= 0 && (fd) < (int)sizeof kind ? kind[fd] : 0)

static int do_open(int dirfd, const char *p, int flags, mode_t mode)
{
    int w = 0, wr = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
    if (ON && (dirfd == AT_FDCWD || (p && p[0] == '/'))) {
        w = where(p);
        if (w && !(flags & O_DIRECTORY)) {
            if (w == 2 && wr) {
                ++S->srcw;
                note('!', 0);
                errno = EROFS;
                return -1;
            }
            if (simple(wr ? OPENW : OPENR)) {
                return -1;
            }
        }
    }
    int fd = (int)syscall(SYS_openat, dirfd, p, flags, mode);
    if (w && fd >= 0 && fd < (int)sizeof kind) {
        struct stat st;
        kind[fd] = syscall(SYS_fstat, fd, &st) == 0 && S_ISREG(st.st_mode) ? w | (wr ? 4 : 0) : 0;
        note(cname[wr ? OPENW : OPENR], 0);
    }
    return fd;
}

#define MODE(m, flags)                         \
    mode_t m = 0;                              \
    if ((flags) & (O_CREAT | O_TMPFILE)) {     \
        va_list ap;                            \
        va_start(ap, flags);                   \
        m = va_arg(ap, int);                   \
        va_end(ap);                            \
    }

int open64(const char *p, int flags, ...)
{
    MODE(m, flags)
    return do_open(AT_FDCWD, p, flags, m);
}

int open(const char *p, int flags, ...)
{
    MODE(m, flags)
    return do_open(AT_FDCWD, p, flags, m);
}

int __open64_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int __open_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }

int openat64(int d, const char *p, int flags, ...)
{
    MODE(m, flags)
    return do_open(d, p, flags, m);
}

int openat(int d, const char *p, int flags, ...)
{
    MODE(m, flags)
    return do_open(d, p, flags, m);
}

ssize_t read(int fd, void *b, size_t n)
{
    int torn = 0, k = ON ? K(fd) : 0;
    if (k) {
        ssize_t m = amount(READ, n, 0, &torn);
        if (m < 0) {
            return -1;
        }
        n = m;
    }
    ssize_t r = syscall(SYS_read, fd, b, n);
    if (k) {
        note(cname[READ], r);
        if (torn) {
            die();
        }
    }
    return r;
}

ssize_t write(int fd, const void *b, size_t n)
{
    int torn = 0, k = ON ? K(fd) : 0;
    if (k) {
        ssize_t m = amount(WRITE, n, 1, &torn);
        if (m < 0) {
            return -1;
        }
        n = m;
    }
    ssize_t r = syscall(SYS_write, fd, b, n);
    if (k) {
        note(cname[WRITE], r);
        wrote(r);
        if (torn) {
            die();
        }
    }
    return r;
}

ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{
    int torn = 0, k = ON ? K(fd) : 0;
    if (k) {
        ssize_t m = amount(WRITE, n, 1, &torn);
        if (m < 0) {
            return -1;
        }
        n = m;
    }
    ssize_t r = syscall(SYS_pwrite64, fd, b, n, o);
    if (k) {
        note(cname[WRITE], r);
        wrote(r);
        if (torn) {
            die();
        }
    }
    return r;
}

int close(int fd)
{
    int k = ON ? K(fd) : 0;
    if (k) {
        kind[fd] = 0;
        int bad = (k & 4) && simple(CLOSE);
        int e = errno;
        int r = (int)syscall(SYS_close, fd);
        if (bad) {
            errno = e;
            return -1;
        }
        note(cname[CLOSE], r);
        return r;
    }
    return (int)syscall(SYS_close, fd);
}

static ssize_t copied(int out, int in, size_t n, ssize_t (*f)(int, int, void *, void *, size_t),
                      void *a, void *b)
{
    int torn = 0, k = ON ? K(out) | K(in) : 0;
    if (k) {
        ssize_t m = amount(COPY, n, 1, &torn);
        if (m < 0) {
            return -1;
        }
        n = m;
        struct stat st;
        /* a short copy of a small file needs its real size */
        if (S->budget < 0 && n > 1 && syscall(SYS_fstat, in, &st) == 0) {
            for (int i = 0; i < S->nplan; ++i) {
                fault_t *q = &S->plan[i];
                if (q->cls == COPY && q->k == S->count[COPY] && (q->mode == M_SHORT || q->mode == M_TORN)
                    && (size_t)st.st_size < n * 256 / (q->arg + 1)) {
                    n = 1 + (size_t)st.st_size * q->arg / 256;
                }
            }
        }
    }
    ssize_t r = f(out, in, a, b, n);
    if (k) {
        note(cname[COPY], r);
        wrote(r);
        if (torn) {
            die();
        }
    }
    return r;
}

static ssize_t raw_sendfile(int out, int in, void *off, void *u, size_t n)
{
    return syscall(SYS_sendfile, out, in, off, n);
}

static ssize_t raw_cfr(int out, int in, void *oin, void *oout, size_t n)
{
    return syscall(SYS_copy_file_range, in, oin, out, oout, n, 0);
}

ssize_t sendfile64(int out, int in, off64_t *off, size_t n)
{
    return copied(out, in, n, raw_sendfile, off, NULL);
}

ssize_t sendfile(int out, int in, off_t *off, size_t n)
{
    return copied(out, in, n, raw_sendfile, off, NULL);
}

ssize_t copy_file_range(int in, off64_t *oin, int out, off64_t *oout, size_t n, unsigned flags)
{
    return copied(out, in, n, raw_cfr, oin, oout);
}

static int meta(const char *p, const char *q)
{
    if (!ON) {
        return 0;
    }
    int w = where(p), v = q ? where(q) : 0;
    if (w == 2 || v == 2) {
        ++S->srcw;
        note('!', 0);
        errno = EROFS;
        return 1;
    }
    return (w || v) && simple(META);
}

#define METACALL(done, call)   \
    if (meta done) {           \
        return -1;             \
    }                          \
    return (int)call;

int rename(const char *a, const char *b) { METACALL((a, b), syscall(SYS_rename, a, b)) }
int link(const char *a, const char *b) { METACALL((b, NULL), syscall(SYS_link, a, b)) }
int symlink(const char *a, const char *b) { METACALL((b, NULL), syscall(SYS_symlink, a, b)) }
int unlink(const char *a) { METACALL((a, NULL), syscall(SYS_unlink, a)) }
int mkdir(const char *a, mode_t m) { METACALL((a, NULL), syscall(SYS_mkdir, a, m)) }
int rmdir(const char *a) { METACALL((a, NULL), syscall(SYS_rmdir, a)) }
int truncate64(const char *a, off64_t n) { METACALL((a, NULL), syscall(SYS_truncate, a, n)) }
int chmod(const char *a, mode_t m) { METACALL((a, NULL), syscall(SYS_chmod, a, m)) }

int fsync(int fd)
{
    if (ON && K(fd) && simple(META)) {
        return -1;
    }
    return (int)syscall(SYS_fsync, fd);
}

int fdatasync(int fd)
{
    if (ON && K(fd) && simple(META)) {
        return -1;
    }
    return (int)syscall(SYS_fdatasync, fd);
}

int ftruncate64(int fd, off64_t n)
{
    if (ON && K(fd) && simple(META)) {
        return -1;
    }
    return (int)syscall(SYS_ftruncate, fd, n);
}

int clock_gettime(clockid_t id, struct timespec *t)
{
    int r = (int)syscall(SYS_clock_gettime, id, t);
    if (r == 0 && id == CLOCK_REALTIME) {
        t->tv_sec += clock_offset;
    }
    return r;
}

time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) {
        *t = ts.tv_sec;
    }
    return ts.tv_sec;
}
