/* LD_PRELOAD simulation seam: MPI, file system, clock and entropy.
 *
 * Before sim_attach() the process behaves as a size-1 MPI world with the real
 * clock and file system. After sim_attach() every multi-rank MPI operation,
 * every file-system operation below the run's scratch prefix and every sleep
 * is a request to the controller, which decides when (and how) it completes.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <limits.h>
#include <mpi.h>

/* ------------------------------------------------------------------ state */
static int g_attached = 0, g_fd = -1, g_rank = 0, g_size = 1, g_fs_on = 0;
static char g_prefix[PATH_MAX];
static size_t g_prefix_len = 0;
static int64_t g_treal = 0, g_tmono = 0, g_tick = 0;
static uint64_t g_rng = 88172645463325252ULL;
static uint64_t g_nclock = 0;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__) = 0; \
    if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static uint64_t rng_next(void) {
    uint64_t z = (g_rng += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

/* --------------------------------------------------------------- protocol */
enum { OP_COLL = 1, OP_SEND, OP_RECV, OP_SENDRECV, OP_FS, OP_SLEEP, OP_NOTE, OP_EXIT,
       OP_ABORT, OP_PROBE, OP_UNIMPL, OP_MISMATCH, OP_YIELD, OP_FREE };
typedef struct { uint32_t op, kind; int64_t a[6]; uint64_t len; } Req;
typedef struct { int32_t status; uint32_t pad; int64_t v[4]; int64_t treal, tmono; uint64_t len; } Rep;

static ssize_t raw_read(int fd, void *b, size_t n) { REAL(ssize_t, read, int, void*, size_t); return real_read(fd, b, n); }
static ssize_t raw_write(int fd, const void *b, size_t n) { REAL(ssize_t, write, int, const void*, size_t); return real_write(fd, b, n); }

static void xwrite(const void *b, size_t n) {
    const char *p = b;
    while (n) {
        ssize_t k = raw_write(g_fd, p, n);
        if (k < 0) { if (errno == EINTR) continue; _exit(98); }
        p += k; n -= k;
    }
}
static void xread(void *b, size_t n) {
    char *p = b;
    while (n) {
        ssize_t k = raw_read(g_fd, p, n);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) _exit(98);
        p += k; n -= k;
    }
}
static void send_req(uint32_t op, uint32_t kind, const int64_t *a, int na, const void *p1, size_t n1) {
    Req r; memset(&r, 0, sizeof r);
    r.op = op; r.kind = kind;
    for (int i = 0; i < na; i++) r.a[i] = a[i];
    r.len = n1;
    if (n1 && n1 < 4096) {
        char buf[sizeof r + 4096];
        memcpy(buf, &r, sizeof r); memcpy(buf + sizeof r, p1, n1);
        xwrite(buf, sizeof r + n1);
    } else {
        xwrite(&r, sizeof r);
        if (n1) xwrite(p1, n1);
    }
}
/* returns malloc'd payload (or NULL) */
static char *rpc(uint32_t op, uint32_t kind, const int64_t *a, int na, const void *p, size_t n, Rep *rep) {
    int e = errno;
    send_req(op, kind, a, na, p, n);
    xread(rep, sizeof *rep);
    g_treal = rep->treal; g_tmono = rep->tmono;
    char *out = NULL;
    if (rep->len) { out = malloc(rep->len); xread(out, rep->len); }
    errno = e;
    return out;
}

/* ------------------------------------------------------ control interface */
int sim_attach(int fd, int rank, int size, const char *prefix, uint64_t seed,
               int64_t treal, int64_t tmono, int64_t tick) {
    g_fd = fd; g_rank = rank; g_size = size;
    snprintf(g_prefix, sizeof g_prefix, "%s", prefix);
    g_prefix_len = strlen(g_prefix);
    g_rng = seed; g_treal = treal; g_tmono = tmono; g_tick = tick;
    g_attached = 1; g_fs_on = 1;
    return 0;
}
int sim_fs_enable(int on) { int o = g_fs_on; g_fs_on = on; return o; }
void sim_note(const char *b, uint64_t n) { if (g_attached) send_req(OP_NOTE, 0, 0, 0, b, n); }
void sim_exit(int code, const char *b, uint64_t n) {
    if (g_attached) { int64_t a[1] = {code}; send_req(OP_EXIT, 0, a, 1, b, n); }
}
int64_t sim_yield(int kind) {
    Rep rep; if (!g_attached) return 0;
    free(rpc(OP_YIELD, kind, 0, 0, 0, 0, &rep)); return rep.v[0];
}
void sim_set_tick(int64_t t) { g_tick = t; }
uint64_t sim_clock_reads(void) { return g_nclock; }
static void unimpl(const char *name) {
    if (g_attached) { send_req(OP_UNIMPL, 0, 0, 0, name, strlen(name)); }
    fprintf(stderr, "sim: unimplemented %s\n", name);
    _exit(97);
}
void sim_unimpl(const char *name) { unimpl(name); }

/* ------------------------------------------------------------------ clock */
static void clk(int mono, struct timespec *ts) {
    g_nclock++; g_treal += g_tick; g_tmono += g_tick;
    int64_t t = mono ? g_tmono : g_treal;
    ts->tv_sec = t / 1000000000LL; ts->tv_nsec = t % 1000000000LL;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (g_attached) { clk(c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE, ts); return 0; }
    REAL(int, clock_gettime, clockid_t, struct timespec*);
    return real_clock_gettime(c, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
    if (g_attached) { struct timespec ts; clk(0, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
    REAL(int, gettimeofday, struct timeval*, void*);
    return real_gettimeofday(tv, tz);
}
time_t time(time_t *t) {
    if (g_attached) { struct timespec ts; clk(0, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
    REAL(time_t, time, time_t*);
    return real_time(t);
}
clock_t clock(void) {
    if (g_attached) { struct timespec ts; clk(1, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; }
    REAL(clock_t, clock, void);
    return real_clock();
}
static void sim_sleep_ns(int64_t ns) { Rep rep; int64_t a[1] = {ns}; free(rpc(OP_SLEEP, 0, a, 1, 0, 0, &rep)); }
int nanosleep(const struct timespec *r, struct timespec *m) {
    if (g_attached) { sim_sleep_ns(r->tv_sec * 1000000000LL + r->tv_nsec); return 0; }
    REAL(int, nanosleep, const struct timespec*, struct timespec*);
    return real_nanosleep(r, m);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *r, struct timespec *m) {
    if (g_attached) {
        int64_t ns = r->tv_sec * 1000000000LL + r->tv_nsec;
        if (flags & TIMER_ABSTIME) ns -= (c == CLOCK_REALTIME ? g_treal : g_tmono);
        sim_sleep_ns(ns > 0 ? ns : 0); return 0;
    }
    REAL(int, clock_nanosleep, clockid_t, int, const struct timespec*, struct timespec*);
    return real_clock_nanosleep(c, flags, r, m);
}
int usleep(useconds_t us) { struct timespec t = {us / 1000000, (us % 1000000) * 1000}; return nanosleep(&t, 0); }
unsigned sleep(unsigned s) { struct timespec t = {s, 0}; nanosleep(&t, 0); return 0; }
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (g_attached) { unsigned char *p = b; for (size_t i = 0; i < n; i++) p[i] = rng_next() >> 32; return n; }
    REAL(ssize_t, getrandom, void*, size_t, unsigned);
    return real_getrandom(b, n, f);
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }

/* ------------------------------------------------------------- filesystem */
#define MAXFD 4096
static char *fd_path[MAXFD];
enum { FS_OPEN_R = 1, FS_OPEN_W, FS_OPEN_CREAT, FS_STAT, FS_MKDIR, FS_UNLINK, FS_RMDIR, FS_RENAME,
       FS_READ, FS_WRITE, FS_TRUNC, FS_CLOSE_W, FS_CLOSE_R, FS_OPENDIR, FS_FSYNC };
enum { ACT_GO = 0, ACT_FAIL, ACT_SHORT, ACT_TORN, ACT_DIE, ACT_FAILAFTER };

static int track(const char *p) {
    return g_attached && g_fs_on && p && !strncmp(p, g_prefix, g_prefix_len) &&
           (p[g_prefix_len] == '/' || p[g_prefix_len] == 0);
}
static const char *absp(int dirfd, const char *p, char *buf) {
    if (!g_attached || !g_fs_on || !p) return NULL;
    if (p[0] == '/') { snprintf(buf, PATH_MAX, "%s", p); }
    else if (dirfd == AT_FDCWD) {
        char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) return NULL;
        if (strlen(cwd) + strlen(p) + 2 > PATH_MAX) return NULL;
        sprintf(buf, "%s/%s", cwd, p);
    } else {
        if (dirfd < 0 || dirfd >= MAXFD || !fd_path[dirfd]) return NULL;
        if (strlen(fd_path[dirfd]) + strlen(p) + 2 > PATH_MAX) return NULL;
        sprintf(buf, "%s/%s", fd_path[dirfd], p);
    }
    return track(buf) ? buf : NULL;
}
static void die(void) { _exit(137); }
/* ask the controller; returns action, *n set */
static int ask(int kind, const char *path, int64_t size, int64_t off, int64_t *n) {
    Rep rep; int64_t a[2] = {size, off};
    free(rpc(OP_FS, kind, a, 2, path + g_prefix_len, strlen(path + g_prefix_len), &rep));
    *n = rep.v[1];
    if (rep.v[0] == ACT_DIE) die();
    return (int)rep.v[0];
}
static void mark_fd(int fd, const char *path) {
    if (fd >= 0 && fd < MAXFD) { free(fd_path[fd]); fd_path[fd] = path ? strdup(path) : NULL; }
}
static int do_open(int dirfd, const char *p, int flags, mode_t mode) {
    REAL(int, openat64, int, const char*, int, ...);
    char buf[PATH_MAX]; const char *ap = absp(dirfd, p, buf);
    if (!ap) { int fd = real_openat64(dirfd, p, flags, mode); if (fd >= 0) mark_fd(fd, NULL); return fd; }
    int kind = (flags & O_CREAT) ? FS_OPEN_CREAT : ((flags & O_ACCMODE) != O_RDONLY ? FS_OPEN_W : FS_OPEN_R);
    int64_t n; int act = ask(kind, ap, flags, 0, &n);
    if (act == ACT_FAIL) { errno = (int)n; return -1; }
    int fd = real_openat64(dirfd, p, flags, mode);
    int e = errno;
    if (fd >= 0) {
        mark_fd(fd, ap);
        if (act == ACT_FAILAFTER) { REAL(int, close, int); real_close(fd); mark_fd(fd, NULL); errno = (int)n; return -1; }
    }
    errno = e;
    return fd;
}
#define OPEN_BODY(dfd) mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } return do_open(dfd, p, flags, m)
int open(const char *p, int flags, ...) { OPEN_BODY(AT_FDCWD); }
int open64(const char *p, int flags, ...) { OPEN_BODY(AT_FDCWD); }
int openat(int d, const char *p, int flags, ...) { OPEN_BODY(d); }
int openat64(int d, const char *p, int flags, ...) { OPEN_BODY(d); }

#define SIMPLE(kind, dirfd, path, call) \
    char buf[PATH_MAX]; const char *ap = absp(dirfd, path, buf); int64_t n = 0; int act = ACT_GO; \
    if (ap) { act = ask(kind, ap, 0, 0, &n); if (act == ACT_FAIL) { errno = (int)n; return -1; } } \
    int r = call; if (ap && act == ACT_FAILAFTER && r == 0) { errno = (int)n; return -1; } return r

int stat64(const char *p, struct stat64 *s) { REAL(int, stat64, const char*, struct stat64*); SIMPLE(FS_STAT, AT_FDCWD, p, real_stat64(p, s)); }
int stat(const char *p, struct stat *s) { REAL(int, stat, const char*, struct stat*); SIMPLE(FS_STAT, AT_FDCWD, p, real_stat(p, s)); }
int lstat64(const char *p, struct stat64 *s) { REAL(int, lstat64, const char*, struct stat64*); SIMPLE(FS_STAT, AT_FDCWD, p, real_lstat64(p, s)); }
int lstat(const char *p, struct stat *s) { REAL(int, lstat, const char*, struct stat*); SIMPLE(FS_STAT, AT_FDCWD, p, real_lstat(p, s)); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { REAL(int, fstatat64, int, const char*, struct stat64*, int); SIMPLE(FS_STAT, d, (p && p[0]) ? p : NULL, real_fstatat64(d, p, s, f)); }
int fstatat(int d, const char *p, struct stat *s, int f) { REAL(int, fstatat, int, const char*, struct stat*, int); SIMPLE(FS_STAT, d, (p && p[0]) ? p : NULL, real_fstatat(d, p, s, f)); }
int access(const char *p, int m) { REAL(int, access, const char*, int); SIMPLE(FS_STAT, AT_FDCWD, p, real_access(p, m)); }
int faccessat(int d, const char *p, int m, int f) { REAL(int, faccessat, int, const char*, int, int); SIMPLE(FS_STAT, d, p, real_faccessat(d, p, m, f)); }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, const char*, mode_t); SIMPLE(FS_MKDIR, AT_FDCWD, p, real_mkdir(p, m)); }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, mkdirat, int, const char*, mode_t); SIMPLE(FS_MKDIR, d, p, real_mkdirat(d, p, m)); }
int unlink(const char *p) { REAL(int, unlink, const char*); SIMPLE(FS_UNLINK, AT_FDCWD, p, real_unlink(p)); }
int remove(const char *p) { REAL(int, remove, const char*); SIMPLE(FS_UNLINK, AT_FDCWD, p, real_remove(p)); }
int unlinkat(int d, const char *p, int f) { REAL(int, unlinkat, int, const char*, int); SIMPLE((f & AT_REMOVEDIR) ? FS_RMDIR : FS_UNLINK, d, p, real_unlinkat(d, p, f)); }
int rmdir(const char *p) { REAL(int, rmdir, const char*); SIMPLE(FS_RMDIR, AT_FDCWD, p, real_rmdir(p)); }
int rename(const char *a, const char *p) { REAL(int, rename, const char*, const char*); SIMPLE(FS_RENAME, AT_FDCWD, p, real_rename(a, p)); }
int renameat(int d1, const char *a, int d, const char *p) { REAL(int, renameat, int, const char*, int, const char*); SIMPLE(FS_RENAME, d, p, real_renameat(d1, a, d, p)); }
int link(const char *a, const char *p) { REAL(int, link, const char*, const char*); SIMPLE(FS_RENAME, AT_FDCWD, p, real_link(a, p)); }
int symlink(const char *a, const char *p) { REAL(int, symlink, const char*, const char*); SIMPLE(FS_RENAME, AT_FDCWD, p, real_symlink(a, p)); }
int truncate64(const char *p, off64_t l) { REAL(int, truncate64, const char*, off64_t); SIMPLE(FS_TRUNC, AT_FDCWD, p, real_truncate64(p, l)); }

#define FDP(fd) ((g_attached && g_fs_on && (fd) >= 0 && (fd) < MAXFD) ? fd_path[fd] : NULL)
#define RD(fn, ...) \
    const char *ap = FDP(fd); \
    if (ap) { int64_t k; int act = ask(FS_READ, ap, n, off_, &k); \
        if (act == ACT_FAIL) { errno = (int)k; return -1; } \
        if (act == ACT_SHORT && k < (int64_t)n) n = k; } \
    return fn(__VA_ARGS__)
#define WR(fn, ...) \
    const char *ap = FDP(fd); \
    if (ap) { int64_t k; int act = ask(FS_WRITE, ap, n, off_, &k); \
        if (act == ACT_FAIL) { errno = (int)k; return -1; } \
        if (act == ACT_TORN) { if (k < (int64_t)n) n = k; if (n) { ssize_t q = fn(__VA_ARGS__); (void)q; } die(); } \
        if (act == ACT_SHORT && k < (int64_t)n) n = k; } \
    return fn(__VA_ARGS__)
ssize_t read(int fd, void *b, size_t n) { int64_t off_ = -1; REAL(ssize_t, read, int, void*, size_t); RD(real_read, fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { int64_t off_ = o; REAL(ssize_t, pread, int, void*, size_t, off_t); RD(real_pread, fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { int64_t off_ = o; REAL(ssize_t, pread64, int, void*, size_t, off64_t); RD(real_pread64, fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) { int64_t off_ = -1; REAL(ssize_t, write, int, const void*, size_t); WR(real_write, fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { int64_t off_ = o; REAL(ssize_t, pwrite, int, const void*, size_t, off_t); WR(real_pwrite, fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { int64_t off_ = o; REAL(ssize_t, pwrite64, int, const void*, size_t, off64_t); WR(real_pwrite64, fd, b, n, o); }
int ftruncate64(int fd, off64_t l) {
    REAL(int, ftruncate64, int, off64_t);
    const char *ap = FDP(fd);
    if (ap) { int64_t k; int act = ask(FS_TRUNC, ap, l, 0, &k); if (act == ACT_FAIL) { errno = (int)k; return -1; } }
    return real_ftruncate64(fd, l);
}
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
int fsync(int fd) {
    REAL(int, fsync, int);
    const char *ap = FDP(fd);
    if (ap) { int64_t k; int act = ask(FS_FSYNC, ap, 0, 0, &k); if (act == ACT_FAIL) { errno = (int)k; return -1; } return 0; }
    return real_fsync(fd);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { if (FDP(o) || FDP(i)) { errno = EINVAL; return -1; } REAL(ssize_t, sendfile64, int, int, off64_t*, size_t); return real_sendfile64(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) { if (FDP(o) || FDP(i)) { errno = EINVAL; return -1; } REAL(ssize_t, copy_file_range, int, off64_t*, int, off64_t*, size_t, unsigned); return real_copy_file_range(i, io, o, oo, n, f); }
int close(int fd) {
    REAL(int, close, int);
    if (fd == g_fd && g_attached) return 0;
    const char *ap = FDP(fd);
    if (ap) {
        int64_t k; int act = ask(FS_CLOSE_W, ap, fd, 0, &k);
        mark_fd(fd, NULL);
        int r = real_close(fd);
        if (act == ACT_FAIL || act == ACT_FAILAFTER) { errno = (int)k; return -1; }
        return r;
    }
    if (fd >= 0 && fd < MAXFD && fd_path[fd]) mark_fd(fd, NULL);
    return real_close(fd);
}

/* directory listing: sorted, then shuffled by the seed, so order is ours */
typedef struct DL { DIR *d; struct dirent64 *ents; int n, i; struct DL *next; } DL;
static DL *dls = 0;
static DL *dl_find(DIR *d) { for (DL *x = dls; x; x = x->next) if (x->d == d) return x; return 0; }
static int cmp_de(const void *a, const void *b) { return strcmp(((struct dirent64*)a)->d_name, ((struct dirent64*)b)->d_name); }
static void dl_load(DIR *d) {
    REAL(struct dirent64*, readdir64, DIR*);
    DL *x = calloc(1, sizeof *x); x->d = d; int cap = 0; struct dirent64 *e;
    while ((e = real_readdir64(d))) {
        if (x->n == cap) { cap = cap ? 2 * cap : 64; x->ents = realloc(x->ents, cap * sizeof *e); }
        memcpy(&x->ents[x->n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
    }
    if (x->n) qsort(x->ents, x->n, sizeof *e, cmp_de);
    for (int i = x->n - 1; i > 0; i--) {
        int j = rng_next() % (i + 1); struct dirent64 t = x->ents[i]; x->ents[i] = x->ents[j]; x->ents[j] = t;
    }
    x->next = dls; dls = x;
}
DIR *opendir(const char *p) {
    REAL(DIR*, opendir, const char*);
    char buf[PATH_MAX]; const char *ap = absp(AT_FDCWD, p, buf);
    if (ap) { int64_t n; int act = ask(FS_OPENDIR, ap, 0, 0, &n); if (act == ACT_FAIL) { errno = (int)n; return 0; } }
    DIR *d = real_opendir(p);
    if (d && ap) dl_load(d);
    return d;
}
DIR *fdopendir(int fd) {
    REAL(DIR*, fdopendir, int);
    const char *ap = FDP(fd);
    if (ap) { int64_t n; int act = ask(FS_OPENDIR, ap, 0, 0, &n); if (act == ACT_FAIL) { errno = (int)n; return 0; } }
    DIR *d = real_fdopendir(fd);
    if (d && ap) dl_load(d);
    return d;
}
struct dirent64 *readdir64(DIR *d) {
    REAL(struct dirent64*, readdir64, DIR*);
    DL *x = dls ? dl_find(d) : 0;
    if (x) return x->i < x->n ? &x->ents[x->i++] : 0;
    return real_readdir64(d);
}
struct dirent *readdir(DIR *d) { return (struct dirent*)readdir64(d); }
void rewinddir(DIR *d) {
    REAL(void, rewinddir, DIR*);
    DL *x = dls ? dl_find(d) : 0; if (x) x->i = 0; else real_rewinddir(d);
}
int closedir(DIR *d) {
    REAL(int, closedir, DIR*); REAL(int, dirfd, DIR*);
    int fd = real_dirfd(d);
    for (DL **q = &dls; *q; q = &(*q)->next) if ((*q)->d == d) { DL *x = *q; *q = x->next; free(x->ents); free(x); break; }
    if (fd >= 0 && fd < MAXFD) mark_fd(fd, NULL);
    return real_closedir(d);
}

/* -------------------------------------------------------------------- MPI */
typedef struct Attr { int key; void *val; struct Attr *next; } Attr;
typedef struct SComm {
    uint64_t magic; int64_t id; int rank, size, ndims; int dims[8], per[8]; Attr *attrs; char name[64]; MPI_Errhandler eh;
} SComm;
#define MAGIC 0x53494d434f4d4dULL
static SComm world = {MAGIC, 0, 0, 1, 0}, self_ = {MAGIC, -1, 0, 1, 0};
static int init_done = 0, fini_done = 0;
static SComm *C(MPI_Comm c) {
    if (c == MPI_COMM_WORLD) { world.rank = g_rank; world.size = g_size; return &world; }
    if (c == MPI_COMM_SELF) return &self_;
    SComm *s = (SComm*)c;
    if (!s || c == MPI_COMM_NULL || s->magic != MAGIC) { fprintf(stderr, "sim: bad communicator\n"); unimpl("bad-communicator"); }
    return s;
}
/* datatypes: code in low byte, size */
typedef struct { MPI_Datatype t; int code, size; } DT;
/* code: 1 int signed, 2 unsigned, 3 float, 4 complex, 5 bool, 6 bytes, 7 pair */
static int dt_lookup(MPI_Datatype t, int *code) {
#define T(x, c, s) if (t == x) { *code = c; return s; }
    T(MPI_DOUBLE,3,8) T(MPI_C_DOUBLE_COMPLEX,4,16) T(MPI_BYTE,6,1) T(MPI_CHAR,1,1) T(MPI_SIGNED_CHAR,1,1) T(MPI_UNSIGNED_CHAR,2,1)
    T(MPI_INT,1,4) T(MPI_LONG,1,8) T(MPI_LONG_LONG,1,8) T(MPI_SHORT,1,2) T(MPI_UNSIGNED,2,4) T(MPI_UNSIGNED_LONG,2,8)
    T(MPI_UNSIGNED_LONG_LONG,2,8) T(MPI_UNSIGNED_SHORT,2,2) T(MPI_FLOAT,3,4) T(MPI_C_FLOAT_COMPLEX,4,8)
    T(MPI_INT8_T,1,1) T(MPI_INT16_T,1,2) T(MPI_INT32_T,1,4) T(MPI_INT64_T,1,8) T(MPI_UINT8_T,2,1) T(MPI_UINT16_T,2,2)
    T(MPI_UINT32_T,2,4) T(MPI_UINT64_T,2,8) T(MPI_C_BOOL,5,1) T(MPI_CXX_BOOL,5,1) T(MPI_PACKED,6,1) T(MPI_AINT,1,8) T(MPI_OFFSET,1,8)
    T(MPI_COUNT,1,8) T(MPI_LONG_DOUBLE,3,16) T(MPI_DOUBLE_COMPLEX,4,16) T(MPI_CXX_DOUBLE_COMPLEX,4,16) T(MPI_CXX_FLOAT_COMPLEX,4,8) T(MPI_COMPLEX,4,8)
    T(MPI_DOUBLE_PRECISION,3,8) T(MPI_REAL,3,4) T(MPI_INTEGER,1,4) T(MPI_DOUBLE_INT,7,16) T(MPI_2INT,7,8) T(MPI_WCHAR,1,4)
    T(MPI_REAL4,3,4) T(MPI_REAL8,3,8) T(MPI_INTEGER1,1,1) T(MPI_INTEGER2,1,2) T(MPI_INTEGER4,1,4) T(MPI_INTEGER8,1,8) T(MPI_CHARACTER,6,1) T(MPI_LOGICAL,1,4)
    T(MPI_COMPLEX8,4,8) T(MPI_COMPLEX16,4,16)
#undef T
    return -1;
}
static int dtsize(MPI_Datatype t) { int c; int s = dt_lookup(t, &c); if (s < 0) unimpl("datatype"); return s; }
static int dtcode(MPI_Datatype t) { int c; int s = dt_lookup(t, &c); if (s < 0) unimpl("datatype"); return c * 256 + s; }
static int opcode(MPI_Op o) {
    if (o == MPI_SUM) return 1; if (o == MPI_MAX) return 2; if (o == MPI_MIN) return 3; if (o == MPI_PROD) return 4;
    if (o == MPI_LAND) return 5; if (o == MPI_LOR) return 6; if (o == MPI_BAND) return 7; if (o == MPI_BOR) return 8;
    if (o == MPI_LXOR) return 9; if (o == MPI_BXOR) return 10; if (o == MPI_MAXLOC) return 11; if (o == MPI_MINLOC) return 12;
    unimpl("MPI_Op"); return 0;
}
enum { K_BARRIER = 1, K_BCAST, K_GATHER, K_SCATTER, K_ALLGATHER, K_ALLTOALL, K_REDUCE, K_ALLREDUCE, K_SPLIT, K_DUP, K_SCAN, K_EXSCAN, K_RSCAT };

/* pieces buffer: u64 n, then per piece u64 len + bytes */
typedef struct { char *b; size_t n, cap; } Buf;
static void bput(Buf *b, const void *p, size_t n) {
    if (b->n + n > b->cap) { b->cap = 2 * (b->n + n) + 256; b->b = realloc(b->b, b->cap); }
    if (n) memcpy(b->b + b->n, p, n);
    b->n += n;
}
static void bpiece(Buf *b, const void *p, size_t n) { uint64_t l = n; bput(b, &l, 8); bput(b, p, n); }
static void mismatch(const char *what, SComm *c, int64_t got, int64_t want) {
    char m[256]; snprintf(m, sizeof m, "%s comm=%ld got=%ld want=%ld", what, (long)c->id, (long)got, (long)want);
    Rep rep; free(rpc(OP_MISMATCH, 0, 0, 0, m, strlen(m), &rep));
}
/* reply pieces iterator */
typedef struct { char *base, *p, *end; } It;
static size_t itnext(It *it, char **p) {
    if (it->p + 8 > it->end) { *p = 0; return (size_t)-1; }
    uint64_t l; memcpy(&l, it->p, 8); it->p += 8; *p = it->p; it->p += l; return l;
}
static It coll(int kind, SComm *c, int root, int op, int dt, int64_t expect, Buf *b, Rep *rep) {
    int64_t a[6] = {c->id, root, op, dt, expect, 0};
    char *out = rpc(OP_COLL, kind, a, 6, b ? b->b : 0, b ? b->n : 0, rep);
    if (b) free(b->b);
    It it = {out, out, out + rep->len}; return it;
}
static int put_piece(It *it, void *dst, size_t want, SComm *c, const char *what) {
    char *p; size_t l = itnext(it, &p);
    if (l != want) { mismatch(what, c, (int64_t)l, (int64_t)want); return MPI_ERR_TRUNCATE; }
    if (l) memcpy(dst, p, l);
    return 0;
}
int MPI_Init(int *a, char ***b) { init_done = 1; return 0; }
int MPI_Init_thread(int *a, char ***b, int r, int *p) { init_done = 1; if (p) *p = r; return 0; }
int MPI_Initialized(int *f) { *f = init_done; return 0; }
int MPI_Finalized(int *f) { *f = fini_done; return 0; }
int MPI_Finalize(void) { fini_done = 1; return 0; }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Is_thread_main(int *f) { *f = 1; return 0; }
int MPI_Get_version(int *v, int *s) { *v = 3; *s = 1; return 0; }
int MPI_Get_library_version(char *v, int *n) { strcpy(v, "Open MPI v4.1.6 (simulated)"); *n = strlen(v); return 0; }
int MPI_Get_processor_name(char *v, int *n) { strcpy(v, "simnode"); *n = strlen(v); return 0; }
double MPI_Wtime(void) { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9 * ts.tv_nsec; }
double MPI_Wtick(void) { return 1e-9; }
int MPI_Abort(MPI_Comm c, int code) {
    if (g_attached) { int64_t a[1] = {code}; Rep rep; rpc(OP_ABORT, 0, a, 1, 0, 0, &rep); }
    _exit(code ? code : 1);
}
int MPI_Error_class(int e, int *c) { *c = e; return 0; }
int MPI_Error_string(int e, char *s, int *n) { *n = sprintf(s, "simulated MPI error %d", e); return 0; }
int MPI_Pcontrol(const int l, ...) { return 0; }
int MPI_Alloc_mem(MPI_Aint n, MPI_Info i, void *p) { *(void**)p = malloc(n); return 0; }
int MPI_Free_mem(void *p) { free(p); return 0; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0; }
/* errhandlers */
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler e) { C(c)->eh = e; return 0; }
int MPI_Comm_get_errhandler(MPI_Comm c, MPI_Errhandler *e) { *e = C(c)->eh ? C(c)->eh : MPI_ERRORS_ARE_FATAL; return 0; }
int MPI_File_set_errhandler(MPI_File c, MPI_Errhandler e) { return 0; }
int MPI_File_get_errhandler(MPI_File c, MPI_Errhandler *e) { *e = MPI_ERRORS_RETURN; return 0; }
int MPI_Win_set_errhandler(MPI_Win c, MPI_Errhandler e) { return 0; }
int MPI_Errhandler_free(MPI_Errhandler *e) { *e = MPI_ERRHANDLER_NULL; return 0; }
/* keyvals / attributes */
static int next_key = 1000; static int tag_ub = 32767 * 1024; static int ztmp = 0;
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function *f, MPI_Comm_delete_attr_function *g, int *k, void *e) { *k = next_key++; return 0; }
int MPI_Comm_free_keyval(int *k) { *k = MPI_KEYVAL_INVALID; return 0; }
int MPI_Type_create_keyval(MPI_Type_copy_attr_function *f, MPI_Type_delete_attr_function *g, int *k, void *e) { *k = next_key++; return 0; }
int MPI_Type_free_keyval(int *k) { *k = MPI_KEYVAL_INVALID; return 0; }
int MPI_Win_create_keyval(MPI_Win_copy_attr_function *f, MPI_Win_delete_attr_function *g, int *k, void *e) { *k = next_key++; return 0; }
int MPI_Win_free_keyval(int *k) { *k = MPI_KEYVAL_INVALID; return 0; }
int MPI_Comm_set_attr(MPI_Comm c, int k, void *v) {
    SComm *s = C(c); for (Attr *a = s->attrs; a; a = a->next) if (a->key == k) { a->val = v; return 0; }
    Attr *a = malloc(sizeof *a); a->key = k; a->val = v; a->next = s->attrs; s->attrs = a; return 0;
}
int MPI_Comm_get_attr(MPI_Comm c, int k, void *v, int *f) {
    if (k == MPI_TAG_UB) { *(void**)v = &tag_ub; *f = 1; return 0; }
    if (k == MPI_HOST || k == MPI_IO || k == MPI_WTIME_IS_GLOBAL) { *(void**)v = &ztmp; *f = 1; return 0; }
    SComm *s = C(c); for (Attr *a = s->attrs; a; a = a->next) if (a->key == k) { *(void**)v = a->val; *f = 1; return 0; }
    *f = 0; return 0;
}
int MPI_Comm_delete_attr(MPI_Comm c, int k) {
    SComm *s = C(c); for (Attr **a = &s->attrs; *a; a = &(*a)->next) if ((*a)->key == k) { Attr *d = *a; *a = d->next; free(d); break; } return 0;
}
/* communicator info */
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = C(c)->rank; return 0; }
int MPI_Comm_size(MPI_Comm c, int *r) { *r = C(c)->size; return 0; }
int MPI_Comm_test_inter(MPI_Comm c, int *f) { *f = 0; return 0; }
int MPI_Comm_remote_size(MPI_Comm c, int *r) { *r = 0; return 0; }
int MPI_Comm_get_name(MPI_Comm c, char *n, int *l) { strcpy(n, C(c)->name); *l = strlen(n); return 0; }
int MPI_Comm_set_name(MPI_Comm c, const char *n) { snprintf(C(c)->name, 64, "%s", n); return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) {
    SComm *x = C(a), *y = C(b); *r = x == y ? MPI_IDENT : (x->size == y->size && x->rank == y->rank ? MPI_CONGRUENT : MPI_UNEQUAL); return 0;
}
int MPI_Comm_get_parent(MPI_Comm *c) { *c = MPI_COMM_NULL; return 0; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { unimpl("MPI_Comm_c2f"); return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint f) { if (f == 0) return MPI_COMM_WORLD; unimpl("MPI_Comm_f2c"); return 0; }
int MPI_Topo_test(MPI_Comm c, int *s) { *s = C(c)->ndims ? MPI_CART : MPI_UNDEFINED; return 0; }
static SComm *newcomm(int64_t id, int rank, int size) {
    SComm *s = calloc(1, sizeof *s); s->magic = MAGIC; s->id = id; s->rank = rank; s->size = size; s->eh = MPI_ERRORS_RETURN; return s;
}
static int64_t local_id = -2;
static MPI_Comm split(SComm *c, int color, int64_t key, int kind) {
    if (c->size == 1) return color == MPI_UNDEFINED ? MPI_COMM_NULL : (MPI_Comm)newcomm(local_id--, 0, 1);
    Rep rep; Buf b = {0}; int64_t ck[2] = {color, key}; bpiece(&b, ck, 16);
    It it = coll(kind, c, 0, 0, 0, 0, &b, &rep); free(it.base);
    if (rep.v[0] < 0) return MPI_COMM_NULL;
    return (MPI_Comm)newcomm(rep.v[0], (int)rep.v[1], (int)rep.v[2]);
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) {
    SComm *s = C(c); *o = split(s, 0, s->rank, K_DUP); SComm *n = C(*o);
    n->ndims = s->ndims; memcpy(n->dims, s->dims, sizeof n->dims); memcpy(n->per, s->per, sizeof n->per); return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o) { *o = split(C(c), color, key, K_SPLIT); return 0; }
int MPI_Comm_split_type(MPI_Comm c, int type, int key, MPI_Info i, MPI_Comm *o) { *o = split(C(c), type == MPI_UNDEFINED ? type : 0, key, K_SPLIT); return 0; }
int MPI_Comm_free(MPI_Comm *c) {
    SComm *s = C(*c);
    if (g_attached && s->size > 1) { int64_t a[1] = {s->id}; send_req(OP_FREE, 0, a, 1, 0, 0); }
    *c = MPI_COMM_NULL; s->magic = 0; return 0;
}
int MPI_Comm_disconnect(MPI_Comm *c) { return MPI_Comm_free(c); }
int MPI_Cart_create(MPI_Comm c, int nd, const int *dims, const int *per, int reorder, MPI_Comm *o) {
    SComm *s = C(c); long tot = 1; for (int i = 0; i < nd; i++) tot *= dims[i];
    if (tot > s->size) return MPI_ERR_DIMS;
    *o = split(s, s->rank < tot ? 0 : MPI_UNDEFINED, s->rank, K_SPLIT);
    if (*o != MPI_COMM_NULL) { SComm *n = C(*o); n->ndims = nd ? nd : -1; for (int i = 0; i < nd; i++) { n->dims[i] = dims[i]; n->per[i] = per ? per[i] : 0; } }
    return 0;
}
#define ND(s) ((s)->ndims < 0 ? 0 : (s)->ndims)
int MPI_Cartdim_get(MPI_Comm c, int *n) { *n = ND(C(c)); return 0; }
static void coords_of(SComm *s, int r, int *co) { for (int i = ND(s) - 1; i >= 0; i--) { co[i] = r % s->dims[i]; r /= s->dims[i]; } }
int MPI_Cart_coords(MPI_Comm c, int r, int m, int *co) { coords_of(C(c), r, co); return 0; }
int MPI_Cart_get(MPI_Comm c, int m, int *d, int *p, int *co) {
    SComm *s = C(c); for (int i = 0; i < ND(s); i++) { d[i] = s->dims[i]; p[i] = s->per[i]; } coords_of(s, s->rank, co); return 0;
}
int MPI_Cart_rank(MPI_Comm c, const int *co, int *r) { SComm *s = C(c); int q = 0; for (int i = 0; i < ND(s); i++) q = q * s->dims[i] + co[i]; *r = q; return 0; }
int MPI_Cart_shift(MPI_Comm c, int d, int disp, int *src, int *dst) {
    SComm *s = C(c); int co[8]; coords_of(s, s->rank, co); int x = co[d];
    for (int k = 0; k < 2; k++) { int y = x + (k ? disp : -disp); int *o = k ? dst : src;
        if (y < 0 || y >= s->dims[d]) { if (!s->per[d]) { *o = MPI_PROC_NULL; continue; } y = ((y % s->dims[d]) + s->dims[d]) % s->dims[d]; }
        co[d] = y; MPI_Cart_rank(c, co, o); co[d] = x; }
    return 0;
}
int MPI_Cart_sub(MPI_Comm c, const int *rem, MPI_Comm *o) {
    SComm *s = C(c); int co[8]; coords_of(s, s->rank, co); int color = 0, key = 0;
    for (int i = 0; i < ND(s); i++) { if (rem[i]) key = key * s->dims[i] + co[i]; else color = color * s->dims[i] + co[i]; }
    *o = split(s, color, key, K_SPLIT); SComm *n = C(*o); int k = 0;
    for (int i = 0; i < ND(s); i++) if (rem[i]) { n->dims[k] = s->dims[i]; n->per[k] = s->per[i]; k++; }
    n->ndims = k ? k : -1; return 0;
}
int MPI_Dims_create(int n, int nd, int *dims) {
    REAL(int, MPI_Dims_create, int, int, int*);
    int fixed = 1, nfree = 0; for (int i = 0; i < nd; i++) if (dims[i] > 0) fixed *= dims[i]; else nfree++;
    if (n % fixed) return MPI_ERR_DIMS; n /= fixed; int f[8]; for (int i = 0; i < nfree; i++) f[i] = 1;
    for (int p = 2; p <= n; ) { if (n % p == 0) { int m = 0; for (int i = 1; i < nfree; i++) if (f[i] < f[m]) m = i; f[m] *= p; n /= p; } else p++; }
    for (int i = 0; i < nfree; i++) for (int j = i + 1; j < nfree; j++) if (f[j] > f[i]) { int t = f[i]; f[i] = f[j]; f[j] = t; }
    int k = 0; for (int i = 0; i < nd; i++) if (dims[i] <= 0) dims[i] = f[k++]; return 0;
}
/* datatypes */
int MPI_Type_size(MPI_Datatype t, int *s) { *s = dtsize(t); return 0; }
int MPI_Type_size_x(MPI_Datatype t, MPI_Count *s) { *s = dtsize(t); return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { *lb = 0; *e = dtsize(t); return 0; }
int MPI_Type_get_extent_x(MPI_Datatype t, MPI_Count *lb, MPI_Count *e) { *lb = 0; *e = dtsize(t); return 0; }
int MPI_Type_get_true_extent_x(MPI_Datatype t, MPI_Count *lb, MPI_Count *e) { *lb = 0; *e = dtsize(t); return 0; }
int MPI_Type_get_envelope(MPI_Datatype t, int *a, int *b, int *c, int *d) { *a = *b = *c = 0; *d = MPI_COMBINER_NAMED; return 0; }
int MPI_Type_get_attr(MPI_Datatype t, int k, void *v, int *f) { *f = 0; return 0; }
int MPI_Op_commutative(MPI_Op o, int *f) { *f = 1; return 0; }
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { int z = dtsize(t); *n = s->_ucount % z ? MPI_UNDEFINED : (int)(s->_ucount / z); return 0; }
int MPI_Get_elements_x(const MPI_Status *s, MPI_Datatype t, MPI_Count *n) { *n = s->_ucount / dtsize(t); return 0; }
int MPI_Test_cancelled(const MPI_Status *s, int *f) { *f = 0; return 0; }
/* collectives */
int MPI_Barrier(MPI_Comm c) {
    SComm *s = C(c); if (s->size == 1) return 0;
    Rep rep; It it = coll(K_BARRIER, s, 0, 0, 0, 0, 0, &rep); free(it.base); return 0;
}
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
    SComm *s = C(c); if (s->size == 1) return 0;
    size_t sz = (size_t)n * dtsize(t); Rep rep; Buf q = {0};
    if (s->rank == root) bpiece(&q, b, sz);
    It it = coll(K_BCAST, s, root, 0, dtcode(t), sz, &q, &rep); int e = 0;
    if (s->rank != root) e = put_piece(&it, b, sz, s, "bcast-size");
    free(it.base); return e;
}
static int gatherlike(int kind, const void *sb, size_t ssz, void *rb, const int *rc, const int *rd, int rcount, int rsz, int root, SComm *s, int dt, int inplace_off_ok) {
    if (s->size == 1) {
        if (sb != MPI_IN_PLACE) memcpy((char*)rb + (rd ? (size_t)rd[0] * rsz : 0), sb, ssz);
        return 0;
    }
    int isroot = kind == K_ALLGATHER || s->rank == root;
    if (sb == MPI_IN_PLACE) {
        size_t off = rd ? (size_t)rd[s->rank] * rsz : (size_t)s->rank * rcount * rsz;
        ssz = (size_t)(rc ? rc[s->rank] : rcount) * rsz; sb = (char*)rb + off;
    }
    Rep rep; Buf q = {0}; bpiece(&q, sb, ssz);
    It it = coll(kind, s, root, 0, dt, 0, &q, &rep); int e = 0;
    if (isroot) for (int i = 0; i < s->size && !e; i++) {
        size_t off = rd ? (size_t)rd[i] * rsz : (size_t)i * rcount * rsz;
        e = put_piece(&it, (char*)rb + off, (size_t)(rc ? rc[i] : rcount) * rsz, s, "gather-size");
    }
    free(it.base); return e;
}
int MPI_Gather(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, int root, MPI_Comm c) {
    SComm *s = C(c); int isr = s->rank == root; int rs = isr ? dtsize(rt) : 1;
    return gatherlike(K_GATHER, sb, sb == MPI_IN_PLACE ? 0 : (size_t)sc * dtsize(st), rb, 0, 0, rc, rs, root, s, 0, 1);
}
int MPI_Gatherv(const void *sb, int sc, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, int root, MPI_Comm c) {
    SComm *s = C(c); int isr = s->rank == root; int rs = isr ? dtsize(rt) : 1;
    return gatherlike(K_GATHER, sb, sb == MPI_IN_PLACE ? 0 : (size_t)sc * dtsize(st), rb, isr ? rc : 0, isr ? rd : 0, 0, rs, root, s, 0, 1);
}
int MPI_Allgather(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, MPI_Comm c) {
    return gatherlike(K_ALLGATHER, sb, sb == MPI_IN_PLACE ? 0 : (size_t)sc * dtsize(st), rb, 0, 0, rc, dtsize(rt), 0, C(c), 0, 1);
}
int MPI_Allgatherv(const void *sb, int sc, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c) {
    return gatherlike(K_ALLGATHER, sb, sb == MPI_IN_PLACE ? 0 : (size_t)sc * dtsize(st), rb, rc, rd, 0, dtsize(rt), 0, C(c), 0, 1);
}
static int scatterlike(const void *sb, const int *sc, const int *sd, int scount, int ssz, void *rb, size_t rsz, int root, SComm *s) {
    if (s->size == 1) { if (rb != MPI_IN_PLACE) memcpy(rb, (char*)sb + (sd ? (size_t)sd[0] * ssz : 0), rsz); return 0; }
    Rep rep; Buf q = {0};
    if (s->rank == root) for (int i = 0; i < s->size; i++) {
        size_t off = sd ? (size_t)sd[i] * ssz : (size_t)i * scount * ssz; bpiece(&q, (char*)sb + off, (size_t)(sc ? sc[i] : scount) * ssz);
    }
    It it = coll(K_SCATTER, s, root, 0, 0, 0, &q, &rep); int e = 0;
    if (rb != MPI_IN_PLACE) e = put_piece(&it, rb, rsz, s, "scatter-size");
    free(it.base); return e;
}
int MPI_Scatter(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, int root, MPI_Comm c) {
    SComm *s = C(c); return scatterlike(sb, 0, 0, sc, s->rank == root ? dtsize(st) : 1, rb, rb == MPI_IN_PLACE ? 0 : (size_t)rc * dtsize(rt), root, s);
}
int MPI_Scatterv(const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, int root, MPI_Comm c) {
    SComm *s = C(c); return scatterlike(sb, sc, sd, 0, s->rank == root ? dtsize(st) : 1, rb, rb == MPI_IN_PLACE ? 0 : (size_t)rc * dtsize(rt), root, s);
}
static int a2a(const void *sb, const int *sc, const int *sd, int scount, int ssz, void *rb, const int *rc, const int *rd, int rcount, int rsz, SComm *s) {
    if (s->size == 1) {
        if (sb != MPI_IN_PLACE) memmove((char*)rb + (rd ? (size_t)rd[0] * rsz : 0), (char*)sb + (sd ? (size_t)sd[0] * ssz : 0), (size_t)(sc ? sc[0] : scount) * ssz);
        return 0;
    }
    if (sb == MPI_IN_PLACE) { sb = rb; sc = rc; sd = rd; scount = rcount; ssz = rsz; }
    Rep rep; Buf q = {0};
    for (int i = 0; i < s->size; i++) { size_t off = sd ? (size_t)sd[i] * ssz : (size_t)i * scount * ssz; bpiece(&q, (char*)sb + off, (size_t)(sc ? sc[i] : scount) * ssz); }
    It it = coll(K_ALLTOALL, s, 0, 0, 0, 0, &q, &rep); int e = 0;
    for (int i = 0; i < s->size && !e; i++) { size_t off = rd ? (size_t)rd[i] * rsz : (size_t)i * rcount * rsz; e = put_piece(&it, (char*)rb + off, (size_t)(rc ? rc[i] : rcount) * rsz, s, "alltoall-size"); }
    free(it.base); return e;
}
int MPI_Alltoall(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, MPI_Comm c) {
    return a2a(sb, 0, 0, sc, sb == MPI_IN_PLACE ? 1 : dtsize(st), rb, 0, 0, rc, dtsize(rt), C(c));
}
int MPI_Alltoallv(const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c) {
    return a2a(sb, sc, sd, 0, sb == MPI_IN_PLACE ? 1 : dtsize(st), rb, rc, rd, 0, dtsize(rt), C(c));
}
static int red(int kind, const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op o, int root, SComm *s) {
    size_t sz = (size_t)n * dtsize(t);
    if (s->size == 1) { if (kind != K_EXSCAN && sb != MPI_IN_PLACE) memcpy(rb, sb, sz); return 0; }
    Rep rep; Buf q = {0}; bpiece(&q, sb == MPI_IN_PLACE ? rb : sb, sz);
    It it = coll(kind, s, root, opcode(o), dtcode(t), sz, &q, &rep); int e = 0;
    int get = kind == K_ALLREDUCE || kind == K_SCAN || (kind == K_EXSCAN && s->rank) || (kind == K_REDUCE && s->rank == root);
    if (get) e = put_piece(&it, rb, sz, s, "reduce-size");
    free(it.base); return e;
}
int MPI_Reduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { return red(K_REDUCE, sb, rb, n, t, o, root, C(c)); }
int MPI_Allreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return red(K_ALLREDUCE, sb, rb, n, t, o, 0, C(c)); }
int MPI_Scan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return red(K_SCAN, sb, rb, n, t, o, 0, C(c)); }
int MPI_Exscan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return red(K_EXSCAN, sb, rb, n, t, o, 0, C(c)); }
int MPI_Reduce_scatter(const void *sb, void *rb, const int *rc, MPI_Datatype t, MPI_Op o, MPI_Comm c) {
    SComm *s = C(c); int n = 0, off = 0; for (int i = 0; i < s->size; i++) { if (i == s->rank) off = n; n += rc[i]; }
    char *tmp = malloc((size_t)n * dtsize(t) + 1); int e = red(K_ALLREDUCE, sb == MPI_IN_PLACE ? rb : sb, tmp, n, t, o, 0, s);
    memcpy(rb, tmp + (size_t)off * dtsize(t), (size_t)rc[s->rank] * dtsize(t)); free(tmp); return e;
}
int MPI_Reduce_scatter_block(const void *sb, void *rb, int rc, MPI_Datatype t, MPI_Op o, MPI_Comm c) {
    SComm *s = C(c); char *tmp = malloc((size_t)rc * s->size * dtsize(t) + 1);
    int e = red(K_ALLREDUCE, sb == MPI_IN_PLACE ? rb : sb, tmp, rc * s->size, t, o, 0, s);
    memcpy(rb, tmp + (size_t)s->rank * rc * dtsize(t), (size_t)rc * dtsize(t)); free(tmp); return e;
}
/* point to point. a: comm, peer, tag, maxlen/len, mode */
static void set_status(MPI_Status *st, int64_t src, int64_t tag, int64_t n) { if (st != MPI_STATUS_IGNORE) { memset(st, 0, sizeof *st); st->MPI_SOURCE = src; st->MPI_TAG = tag; st->_ucount = n; } }
static int do_send(const void *b, size_t n, int dst, int tag, SComm *s, int mode) {
    if (dst == MPI_PROC_NULL) return 0; if (!g_attached) unimpl("self-send");
    Rep rep; int64_t a[6] = {s->id, dst, tag, n, mode, s->rank}; free(rpc(OP_SEND, 0, a, 6, b, n, &rep)); return 0;
}
static int do_recv(void *b, size_t n, int src, int tag, SComm *s, MPI_Status *st, int64_t msgid) {
    if (src == MPI_PROC_NULL) { set_status(st, MPI_PROC_NULL, MPI_ANY_TAG, 0); return 0; } if (!g_attached) unimpl("self-recv");
    Rep rep; int64_t a[6] = {s->id, src, tag, n, msgid, s->rank}; char *p = rpc(OP_RECV, 0, a, 6, 0, 0, &rep);
    if (rep.len > n) { mismatch("recv-truncate", s, rep.len, n); free(p); return MPI_ERR_TRUNCATE; }
    if (rep.len) memcpy(b, p, rep.len); free(p); set_status(st, rep.v[0], rep.v[1], rep.len); return 0;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return do_send(b, (size_t)n * dtsize(t), d, tag, C(c), 0); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return do_send(b, (size_t)n * dtsize(t), d, tag, C(c), 1); }
int MPI_Bsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return do_send(b, (size_t)n * dtsize(t), d, tag, C(c), 2); }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return do_send(b, (size_t)n * dtsize(t), d, tag, C(c), 0); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) { return do_recv(b, (size_t)n * dtsize(t), s, tag, C(c), st, 0); }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype st_, int d, int stag, void *rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status *st) {
    int e = do_send(sb, (size_t)sn * dtsize(st_), d, stag, C(c), 2); if (e) return e;
    return do_recv(rb, (size_t)rn * dtsize(rt), src, rtag, C(c), st, 0);
}
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int d, int stag, int src, int rtag, MPI_Comm c, MPI_Status *st) {
    return MPI_Sendrecv(b, n, t, d, stag, b, n, t, src, rtag, c, st);
}
static int do_probe(int s_, int tag, SComm *s, int flag, MPI_Status *st, int64_t *msgid) {
    Rep rep; int64_t a[6] = {s->id, s_, tag, flag, msgid ? 1 : 0, s->rank}; free(rpc(OP_PROBE, 0, a, 6, 0, 0, &rep));
    if (rep.status) return 0; set_status(st, rep.v[0], rep.v[1], rep.v[2]); if (msgid) *msgid = rep.v[3]; return 1;
}
int MPI_Probe(int s_, int tag, MPI_Comm c, MPI_Status *st) { do_probe(s_, tag, C(c), 0, st, 0); return 0; }
int MPI_Iprobe(int s_, int tag, MPI_Comm c, int *f, MPI_Status *st) { *f = do_probe(s_, tag, C(c), 1, st, 0); return 0; }
typedef struct { SComm *c; int64_t id; } SMsg;
int MPI_Mprobe(int s_, int tag, MPI_Comm c, MPI_Message *m, MPI_Status *st) { SMsg *x = malloc(sizeof *x); x->c = C(c); do_probe(s_, tag, x->c, 0, st, &x->id); *m = (MPI_Message)x; return 0; }
int MPI_Improbe(int s_, int tag, MPI_Comm c, int *f, MPI_Message *m, MPI_Status *st) {
    SMsg *x = malloc(sizeof *x); x->c = C(c); *f = do_probe(s_, tag, x->c, 1, st, &x->id); *m = *f ? (MPI_Message)x : MPI_MESSAGE_NULL; return 0;
}
int MPI_Mrecv(void *b, int n, MPI_Datatype t, MPI_Message *m, MPI_Status *st) { SMsg *x = (SMsg*)*m; int e = do_recv(b, (size_t)n * dtsize(t), 0, 0, x->c, st, x->id); free(x); *m = MPI_MESSAGE_NULL; return e; }
/* non-blocking: sends are buffered, receives are performed at completion */
typedef struct { int kind; void *b; size_t n; int src, tag; SComm *c; } SReq;
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) {
    do_send(b, (size_t)n * dtsize(t), d, tag, C(c), 2); SReq *q = calloc(1, sizeof *q); q->kind = 1; *r = (MPI_Request)q; return 0;
}
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return MPI_Isend(b, n, t, d, tag, c, r); }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) {
    SReq *q = calloc(1, sizeof *q); q->kind = 2; q->b = b; q->n = (size_t)n * dtsize(t); q->src = s; q->tag = tag; q->c = C(c); *r = (MPI_Request)q; return 0;
}
int MPI_Wait(MPI_Request *r, MPI_Status *st) {
    if (*r == MPI_REQUEST_NULL) { set_status(st, MPI_ANY_SOURCE, MPI_ANY_TAG, 0); return 0; }
    SReq *q = (SReq*)*r; int e = 0; if (q->kind == 2) e = do_recv(q->b, q->n, q->src, q->tag, q->c, st, 0); else set_status(st, 0, 0, 0);
    free(q); *r = MPI_REQUEST_NULL; return e;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) { for (int i = 0; i < n; i++) { int e = MPI_Wait(&r[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i]); if (e) return e; } return 0; }
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *st) { for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { *idx = i; return MPI_Wait(&r[i], st); } *idx = MPI_UNDEFINED; return 0; }
int MPI_Test(MPI_Request *r, int *f, MPI_Status *st) {
    *f = 1; if (*r == MPI_REQUEST_NULL) return 0; SReq *q = (SReq*)*r;
    if (q->kind == 2 && !do_probe(q->src, q->tag, q->c, 1, MPI_STATUS_IGNORE, 0)) { *f = 0; return 0; }
    return MPI_Wait(r, st);
}
int MPI_Request_free(MPI_Request *r) { free(*r); *r = MPI_REQUEST_NULL; return 0; }
/* non-blocking collectives: performed eagerly (a legal, maximally synchronous schedule) */
static int done_req(MPI_Request *r, int e) { SReq *q = calloc(1, sizeof *q); q->kind = 1; *r = (MPI_Request)q; return e; }
int MPI_Ibarrier(MPI_Comm c, MPI_Request *r) { return done_req(r, MPI_Barrier(c)); }
int MPI_Ibcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request *r) { return done_req(r, MPI_Bcast(b, n, t, root, c)); }
int MPI_Iallreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Request *r) { return done_req(r, MPI_Allreduce(sb, rb, n, t, o, c)); }
int MPI_Ialltoallv(const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c, MPI_Request *r) { return done_req(r, MPI_Alltoallv(sb, sc, sd, st, rb, rc, rd, rt, c)); }
/* groups (mpi4py convenience) */
typedef struct { int n, me; } SGrp;
int MPI_Info_free(MPI_Info *i) { *i = MPI_INFO_NULL; return 0; }
