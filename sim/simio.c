/* Deterministic disk/clock/entropy seam for simulated pyMARS processes.
 *
 * Loaded with LD_PRELOAD.  Inert (plain pass-through) until simio_attach() is called in a
 * simulated process.  While attached it
 *   - numbers every durable operation (create/open-for-write, write, rename, unlink,
 *     truncate, mkdir, rmdir, fsync, close-after-write) on a path below the scratch root,
 *   - records it in a log that survives the death of the process (MAP_SHARED),
 *   - applies the fault plan of the run at the planned operation number,
 *   - serves CLOCK_REALTIME and entropy from the run's seed,
 *   - yields to the scheduler (pipe handshake) when the process is a pool worker.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/random.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
#define NPLAN 8
#define LOGSZ (192 * 1024)

enum { A_NONE = 0, A_CRASH = 1, A_ERR = 2, A_SHORT = 3, A_SIGINT = 4, A_TORNCRASH = 5 };

struct plan {
    int32_t action;
    int32_t err;
    int64_t at;     /* first operation number */
    int64_t count;  /* number of consecutive operations affected (<0: until the process ends) */
    int64_t frac;   /* 0..1000: share of the bytes that reach the file for torn/short/err writes */
    int64_t mask;   /* operation classes affected (0 = all) */
    int64_t fired;
};

struct slot {
    int64_t nops;        /* durable operations so far */
    int64_t nreads;      /* opens for reading (any path) */
    int64_t nsteps;      /* engine steps, counted by python through simio_step */
    int64_t read_budget;
    int64_t step_budget;
    int64_t op_budget;
    int64_t budget_hit;
    int64_t bytes;
    int64_t clock_base_ns, clock_tick_ns, clock_calls;
    int64_t clock_jump_at, clock_jump_ns;
    uint64_t entropy;
    int64_t entropy_calls;
    int64_t yields;
    struct plan plan[NPLAN];
    int64_t loglen;
    char log[LOGSZ];
};

/* operation classes */
enum { C_OPEN = 1, C_WRITE = 2, C_RENAME = 4, C_UNLINK = 8, C_TRUNC = 16, C_MKDIR = 32, C_RMDIR = 64, C_SYNC = 128, C_CLOSE = 256 };

static struct slot *S = NULL;
static char root[1024]; static size_t rootlen = 0;
static char fdpath[MAXFD][256];
static unsigned char fdtrack[MAXFD];
static int yr = -1, yw = -1; static int64_t quantum = 0;
static __thread int inside = 0;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__) = NULL; \
    if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

size_t simio_slot_size(void) { return sizeof(struct slot); }
void simio_set_root(const char *p) { strncpy(root, p, sizeof root - 1); rootlen = strlen(root); }
void simio_attach(void *slot) { S = (struct slot *)slot; memset(fdtrack, 0, sizeof fdtrack); }
void *simio_detach(void) { void *p = S; S = NULL; return p; }
void simio_resume(void *p) { S = (struct slot *)p; }
void simio_set_yield(int rfd, int wfd, int64_t q) { yr = rfd; yw = wfd; quantum = q; }

/* accessors used from python */
void simio_reset(struct slot *s) { memset(s, 0, sizeof *s); s->read_budget = s->step_budget = s->op_budget = -1; s->clock_jump_at = -1; }
void simio_plan(struct slot *s, int i, int action, int err, int64_t at, int64_t count, int64_t frac, int64_t mask) {
    struct plan *p = &s->plan[i]; p->action = action; p->err = err; p->at = at; p->count = count; p->frac = frac; p->mask = mask; p->fired = 0; }
int64_t simio_fired(struct slot *s, int i) { return s->plan[i].fired; }
int64_t simio_get(struct slot *s, int what) {
    switch (what) { case 0: return s->nops; case 1: return s->nreads; case 2: return s->nsteps; case 3: return s->budget_hit;
        case 4: return s->bytes; case 5: return s->clock_calls; case 6: return s->entropy_calls; case 7: return s->yields; case 8: return s->loglen; 
        case 9: return s->clock_calls * s->clock_tick_ns + (s->clock_jump_at >= 0 && s->clock_calls > s->clock_jump_at ? s->clock_jump_ns : 0); } return -1; }
void simio_set(struct slot *s, int what, int64_t v) {
    switch (what) { case 0: s->read_budget = v; break; case 1: s->step_budget = v; break; case 2: s->op_budget = v; break;
        case 3: s->clock_base_ns = v; break; case 4: s->clock_tick_ns = v; break; case 5: s->clock_jump_at = v; break;
        case 6: s->clock_jump_ns = v; break; case 7: s->entropy = (uint64_t)v; break; } }
const char *simio_log(struct slot *s) { return s->log; }

static void raw_write(int fd, const void *b, size_t n) { syscall(SYS_write, fd, b, n); }

static void budget(int which) { if (S) S->budget_hit = which; _exit(86); }

static void do_yield(void) {
    if (yw < 0) return;
    if (--quantum > 0) return;
    char m[5] = {'y', 0, 0, 0, 0};
    raw_write(yw, m, 5);
    int64_t q; size_t got = 0;
    while (got < sizeof q) { ssize_t r = syscall(SYS_read, yr, (char *)&q + got, sizeof q - got); if (r <= 0) { if (r < 0 && errno == EINTR) continue; _exit(99); } got += r; }
    if (q < 0) _exit(137);           /* scheduler kills this worker here */
    quantum = q; if (S) S->yields++;
}

void simio_step(void) {
    if (S) { S->nsteps++; if (S->step_budget >= 0 && S->nsteps > S->step_budget) budget(2); }
    do_yield();
}

static void logop(const char *op, const char *path, int64_t n, const char *note) {
    if (!S) return;
    int64_t room = LOGSZ - S->loglen;
    if (room < 400) return;
    int w = snprintf(S->log + S->loglen, 399, "%s %s %lld%s\n", op, path, (long long)n, note);
    if (w > 0) S->loglen += w;
}

/* returns relative path if below root, else NULL */
static const char *below(const char *p, int dirfd, char *buf) {
    if (!S || !rootlen || !p) return NULL;
    if (p[0] != '/') {
        char cwd[1024];
        if (dirfd == AT_FDCWD) { if (!getcwd(cwd, sizeof cwd)) return NULL; }
        else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd); ssize_t n = readlink(l, cwd, sizeof cwd - 1); if (n < 0) return NULL; cwd[n] = 0; }
        snprintf(buf, 2048, "%s/%s", cwd, p);
    } else snprintf(buf, 2048, "%s", p);
    /* squeeze "/./" and "//" */
    char *o = buf; for (char *i = buf; *i;) { if (i[0] == '/' && i[1] == '/') { i++; continue; } if (i[0] == '/' && i[1] == '.' && (i[2] == '/' || !i[2])) { i += 2; continue; } *o++ = *i++; } *o = 0;
    if (strncmp(buf, root, rootlen) || (buf[rootlen] != '/' && buf[rootlen])) return NULL;
    return buf[rootlen] ? buf + rootlen + 1 : ".";
}

/* Numbers one durable operation and returns the action that applies to it. */
static struct plan *begin_op(int cls, const char *op, const char *path, int64_t n) {
    do_yield();
    int64_t k = S->nops++;
    if (S->op_budget >= 0 && k > S->op_budget) budget(3);
    for (int i = 0; i < NPLAN; i++) {
        struct plan *p = &S->plan[i];
        if (p->action == A_NONE || k < p->at || (p->count >= 0 && k >= p->at + p->count)) continue;
        if (p->mask && !(p->mask & cls)) continue;
        p->fired++;
        const char *note = p->action == A_CRASH ? " CRASH" : p->action == A_ERR ? " ERR" : p->action == A_SHORT ? " SHORT" : p->action == A_SIGINT ? " SIGINT" : " TORN";
        logop(op, path, n, note);
        if (p->action == A_CRASH) _exit(137);
        if (p->action == A_TORNCRASH && cls != C_WRITE) _exit(137);
        if (p->action == A_SIGINT) { raise(SIGINT); return NULL; }
        if (p->action == A_SHORT && cls != C_WRITE) return NULL;
        return p;
    }
    logop(op, path, n, "");
    return NULL;
}

static int wants_write(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }

static void note_read(void) { if (S) { S->nreads++; if (S->read_budget >= 0 && S->nreads > S->read_budget) budget(1); do_yield(); } }

static int pre_open(int dirfd, const char *path, int flags, const char **rel, char *buf) {
    *rel = NULL;
    if (!S || inside) return 0;
    if (flags & O_PATH || flags & O_DIRECTORY) return 0;
    *rel = below(path, dirfd, buf);
    if (!wants_write(flags)) { *rel = NULL; note_read(); return 0; }
    if (!*rel) return 0;
    struct plan *p = begin_op(C_OPEN, (flags & O_TRUNC) ? "create" : (flags & O_CREAT) ? "opencreat" : "openw", *rel, 0);
    if (p && p->action == A_ERR) { errno = p->err; return -1; }
    return 0;
}
static void post_open(int fd, const char *rel) {
    if (fd >= 0 && fd < MAXFD && S) { fdtrack[fd] = rel != NULL; if (rel) { strncpy(fdpath[fd], rel, 255); fdpath[fd][255] = 0; } }
}

#define OPEN_BODY(CALL) \
    char buf[2304]; const char *rel; \
    if (pre_open(dfd, path, flags, &rel, buf)) return -1; \
    int fd = CALL; post_open(fd, rel); return fd;

int open(const char *path, int flags, ...) { REAL(int, open, const char *, int, ...); va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); int dfd = AT_FDCWD; OPEN_BODY(real_open(path, flags, m)) }
int open64(const char *path, int flags, ...) { REAL(int, open64, const char *, int, ...); va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); int dfd = AT_FDCWD; OPEN_BODY(real_open64(path, flags, m)) }
int openat(int dfd, const char *path, int flags, ...) { REAL(int, openat, int, const char *, int, ...); va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); OPEN_BODY(real_openat(dfd, path, flags, m)) }
int openat64(int dfd, const char *path, int flags, ...) { REAL(int, openat64, int, const char *, int, ...); va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); OPEN_BODY(real_openat64(dfd, path, flags, m)) }
int creat(const char *path, mode_t m) { REAL(int, creat, const char *, mode_t); int dfd = AT_FDCWD, flags = O_WRONLY | O_CREAT | O_TRUNC; OPEN_BODY(real_creat(path, m)) }

static int fmode(const char *m) { int plus = strchr(m, '+') != NULL; switch (m[0]) { case 'r': return plus ? O_RDWR : O_RDONLY; case 'w': return O_WRONLY | O_CREAT | O_TRUNC; default: return O_WRONLY | O_CREAT | O_APPEND; } }
FILE *fopen(const char *path, const char *mode) { REAL(FILE *, fopen, const char *, const char *); char buf[2304]; const char *rel; if (pre_open(AT_FDCWD, path, fmode(mode), &rel, buf)) return NULL; FILE *f = real_fopen(path, mode); if (f) post_open(fileno(f), rel); return f; }
FILE *fopen64(const char *path, const char *mode) { REAL(FILE *, fopen64, const char *, const char *); char buf[2304]; const char *rel; if (pre_open(AT_FDCWD, path, fmode(mode), &rel, buf)) return NULL; FILE *f = real_fopen64(path, mode); if (f) post_open(fileno(f), rel); return f; }

static int tracked(int fd) { return S && !inside && fd >= 0 && fd < MAXFD && fdtrack[fd]; }

/* Returns -2: go on and write everything; otherwise the share of the bytes to write in *n, and what to return afterwards. */
static int pre_write(int fd, size_t *n, struct plan **out) {
    *out = begin_op(C_WRITE, "write", fdpath[fd], (int64_t)*n);
    S->bytes += *n;
    if (!*out) return 0;
    size_t part = (size_t)((*n) * (*out)->frac / 1000);
    if ((*out)->action == A_SHORT) { if (part == 0) part = 1; if (part > *n) part = *n; *n = part; return 1; }
    *n = part; return 2;
}
#define WRITE_BODY(CALLN, CALLFULL) \
    if (!tracked(fd)) return CALLFULL; \
    size_t m = n; struct plan *p; int r = pre_write(fd, &m, &p); \
    if (r == 0) return CALLFULL; \
    ssize_t w = m ? CALLN : 0; \
    if (r == 1) return w; \
    if (p->action == A_TORNCRASH) _exit(137); \
    if (p->action == A_ERR) { if (w > 0) return w; errno = p->err; return -1; } \
    return w;

ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, write, int, const void *, size_t); WRITE_BODY(real_write(fd, b, m), real_write(fd, b, n)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, pwrite, int, const void *, size_t, off_t); WRITE_BODY(real_pwrite(fd, b, m, o), real_pwrite(fd, b, n, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t); WRITE_BODY(real_pwrite64(fd, b, m, o), real_pwrite64(fd, b, n, o)) }
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!tracked(fd)) return real_writev(fd, v, c);
    size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    size_t m = n; struct plan *p; int r = pre_write(fd, &m, &p);
    if (r == 0) return real_writev(fd, v, c);
    ssize_t w = 0; size_t left = m;
    for (int i = 0; i < c && left; i++) { size_t k = v[i].iov_len < left ? v[i].iov_len : left; if (!k) continue; ssize_t x = syscall(SYS_write, fd, v[i].iov_base, k); if (x < 0) break; w += x; left -= x; }
    if (r == 1) return w;
    if (p->action == A_TORNCRASH) _exit(137);
    if (p->action == A_ERR) { if (w > 0) return w; errno = p->err; return -1; }
    return w;
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { REAL(ssize_t, sendfile, int, int, off_t *, size_t); if (tracked(out)) { struct plan *p = begin_op(C_WRITE, "sendfile", fdpath[out], (int64_t)n); if (p && p->action == A_TORNCRASH) _exit(137); if (p && p->action == A_ERR) { errno = p->err; return -1; } } return real_sendfile(out, in, o, n); }
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) { REAL(ssize_t, sendfile64, int, int, off64_t *, size_t); if (tracked(out)) { struct plan *p = begin_op(C_WRITE, "sendfile", fdpath[out], (int64_t)n); if (p && p->action == A_TORNCRASH) _exit(137); if (p && p->action == A_ERR) { errno = p->err; return -1; } } return real_sendfile64(out, in, o, n); }

#define FDOP(cls, nm) if (tracked(fd)) { struct plan *p = begin_op(cls, nm, fdpath[fd], 0); if (p && p->action == A_ERR) { errno = p->err; return -1; } }
int ftruncate(int fd, off_t l) { REAL(int, ftruncate, int, off_t); FDOP(C_TRUNC, "ftruncate") return real_ftruncate(fd, l); }
int ftruncate64(int fd, off64_t l) { REAL(int, ftruncate64, int, off64_t); FDOP(C_TRUNC, "ftruncate") return real_ftruncate64(fd, l); }
int fsync(int fd) { REAL(int, fsync, int); FDOP(C_SYNC, "fsync") return real_fsync(fd); }
int fdatasync(int fd) { REAL(int, fdatasync, int); FDOP(C_SYNC, "fdatasync") return real_fdatasync(fd); }
int close(int fd) { REAL(int, close, int); if (tracked(fd)) { struct plan *p = begin_op(C_CLOSE, "close", fdpath[fd], 0); fdtrack[fd] = 0; if (p && p->action == A_ERR) { real_close(fd); errno = p->err; return -1; } } return real_close(fd); }
int fclose(FILE *f) { REAL(int, fclose, FILE *); int fd = f ? fileno(f) : -1; if (tracked(fd)) { struct plan *p = begin_op(C_CLOSE, "close", fdpath[fd], 0); fdtrack[fd] = 0; if (p && p->action == A_ERR) { real_fclose(f); errno = p->err; return EOF; } } return real_fclose(f); }

#define PATHOP(cls, nm, dfd, path) { char buf[2304]; const char *rel = (S && !inside) ? below(path, dfd, buf) : NULL; if (rel) { struct plan *p = begin_op(cls, nm, rel, 0); if (p && p->action == A_ERR) { errno = p->err; return -1; } } }
int unlink(const char *p0) { REAL(int, unlink, const char *); PATHOP(C_UNLINK, "unlink", AT_FDCWD, p0) return real_unlink(p0); }
int unlinkat(int d, const char *p0, int fl) { REAL(int, unlinkat, int, const char *, int); PATHOP((fl & AT_REMOVEDIR) ? C_RMDIR : C_UNLINK, (fl & AT_REMOVEDIR) ? "rmdir" : "unlink", d, p0) return real_unlinkat(d, p0, fl); }
int remove(const char *p0) { REAL(int, remove, const char *); PATHOP(C_UNLINK, "unlink", AT_FDCWD, p0) return real_remove(p0); }
int rmdir(const char *p0) { REAL(int, rmdir, const char *); PATHOP(C_RMDIR, "rmdir", AT_FDCWD, p0) return real_rmdir(p0); }
int mkdir(const char *p0, mode_t m) { REAL(int, mkdir, const char *, mode_t); PATHOP(C_MKDIR, "mkdir", AT_FDCWD, p0) return real_mkdir(p0, m); }
int mkdirat(int d, const char *p0, mode_t m) { REAL(int, mkdirat, int, const char *, mode_t); PATHOP(C_MKDIR, "mkdir", d, p0) return real_mkdirat(d, p0, m); }
int truncate(const char *p0, off_t l) { REAL(int, truncate, const char *, off_t); PATHOP(C_TRUNC, "truncate", AT_FDCWD, p0) return real_truncate(p0, l); }
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); PATHOP(C_RENAME, "rename", AT_FDCWD, b) return real_rename(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(int, renameat, int, const char *, int, const char *); PATHOP(C_RENAME, "rename", e, b) return real_renameat(d, a, e, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { REAL(int, renameat2, int, const char *, int, const char *, unsigned); PATHOP(C_RENAME, "rename", e, b) return real_renameat2(d, a, e, b, f); }
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *); PATHOP(C_RENAME, "link", AT_FDCWD, b) return real_link(a, b); }
int symlink(const char *a, const char *b) { REAL(int, symlink, const char *, const char *); PATHOP(C_RENAME, "symlink", AT_FDCWD, b) return real_symlink(a, b); }

/* ---- clock and entropy ---- */
static int64_t vclock(void) {
    int64_t k = S->clock_calls++;
    int64_t t = S->clock_base_ns + k * S->clock_tick_ns;
    if (S->clock_jump_at >= 0 && k >= S->clock_jump_at) t += S->clock_jump_ns;
    return t;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    REAL(int, clock_gettime, clockid_t, struct timespec *);
    if (S && S->clock_base_ns && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { int64_t t = vclock(); ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0; }
    return real_clock_gettime(c, ts);
}
time_t time(time_t *o) {
    REAL(time_t, time, time_t *);
    if (S && S->clock_base_ns) { time_t t = vclock() / 1000000000; if (o) *o = t; return t; }
    return real_time(o);
}
int gettimeofday(struct timeval *tv, void *tz) {
    REAL(int, gettimeofday, struct timeval *, void *);
    if (S && S->clock_base_ns && tv) { int64_t t = vclock(); tv->tv_sec = t / 1000000000; tv->tv_usec = (t % 1000000000) / 1000; return 0; }
    return real_gettimeofday(tv, tz);
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    REAL(ssize_t, getrandom, void *, size_t, unsigned);
    if (S && S->entropy) {
        unsigned char *o = b; S->entropy_calls++;
        for (size_t i = 0; i < n; i++) { S->entropy ^= S->entropy << 13; S->entropy ^= S->entropy >> 7; S->entropy ^= S->entropy << 17; o[i] = (unsigned char)(S->entropy >> 24); }
        return (ssize_t)n;
    }
    return real_getrandom(b, n, f);
}
