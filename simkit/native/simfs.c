/* simfs: the disk seam of the simulator.
 *
 * LD_PRELOADed into the simulated process.  Every libc file operation that
 * touches a path below an armed prefix is numbered and can be given a fault
 * chosen by the simulator's seeded scheduler: an error return (EIO, ENOSPC,
 * EINTR, EMFILE...), a short transfer, a torn write, a lost write, or a crash
 * (_exit) before/after/in the middle of the operation.  Nothing happens to any
 * other file, and nothing at all happens until simfs_arm() is called.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXF 64
#define MAXLOG 65536

enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_FSYNC, OP_TRUNC, OP_RENAME, OP_UNLINK };
/* fault kinds */
enum { F_NONE = 0, F_ERR = 1, F_SHORT = 2, F_TORN_CRASH = 3, F_CRASH_BEFORE = 4, F_CRASH_AFTER = 5, F_LOST = 6 };

struct fault { int opmask; long at; int kind; int arg; long fired; long rep; };
struct logent { int op; long size; int fault; int fd; };

static int armed = 0;
static char prefix[1024];
static size_t prefix_len;
static struct fault faults[MAXF];
static int nfaults = 0;
static long op_all = 0;
static long op_cnt[16];
static unsigned char tracked[MAXFD];
static struct logent logbuf[MAXLOG];
static long nlog = 0;
static int crash_code = 77;

static int path_match(const char *p)
{
    char full[4096];
    if (!p) return 0;
    if (p[0] != '/') {
        if (!getcwd(full, sizeof full - 1)) return 0;
        size_t l = strlen(full);
        snprintf(full + l, sizeof full - l, "/%s", p);
        p = full;
    }
    return strncmp(p, prefix, prefix_len) == 0;
}

/* the gate: every operation waits for the simulator's word ('g' go on, 'k' die here, 'e' fail) */
static int gate_out = -1, gate_in = -1;
static struct fault gate_err = { 0, 0, F_ERR, EIO, 0, 1 };
static ssize_t raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }
static ssize_t raw_read(int fd, void *b, size_t n) { return syscall(SYS_read, fd, b, n); }
void simfs_gate(int out, int in) { gate_out = out; gate_in = in; }

/* which fault, if any, applies to this operation; numbers it */
static struct fault *step(int op, long size, int fd)
{
    long n = ++op_cnt[op];
    long a = ++op_all;
    struct fault *hit = NULL;
    for (int i = 0; i < nfaults; i++) {
        struct fault *f = &faults[i];
        if (!(f->opmask & (1 << op))) continue;
        long c;
        /* count per mask: number of matching ops so far */
        c = 0;
        for (int o = 1; o < 16; o++) if (f->opmask & (1 << o)) c += op_cnt[o];
        if (f->at >= 0 ? (c - 1 >= f->at && c - 1 < f->at + f->rep) : 0) { hit = f; break; }
    }
    if (nlog < MAXLOG) { logbuf[nlog].op = op; logbuf[nlog].size = size; logbuf[nlog].fault = hit ? hit->kind : 0; logbuf[nlog].fd = fd; nlog++; }
    (void)n; (void)a;
    if (gate_out >= 0) {
        char c = (char)op;
        if (raw_write(gate_out, &c, 1) != 1 || raw_read(gate_in, &c, 1) != 1 || c == 'k') _exit(crash_code);
        if (c == 'e' && !hit) { gate_err.fired++; return &gate_err; }
    }
    if (hit) hit->fired++;
    return hit;
}

void simfs_reset(void)
{
    armed = 0; gate_out = gate_in = -1; nfaults = 0; op_all = 0; nlog = 0;
    memset(op_cnt, 0, sizeof op_cnt); memset(tracked, 0, sizeof tracked); memset(faults, 0, sizeof faults);
}
void simfs_arm(const char *p) { strncpy(prefix, p, sizeof prefix - 1); prefix_len = strlen(prefix); armed = 1; }
void simfs_disarm(void) { armed = 0; }
int simfs_fault(int opmask, long at, int kind, int arg, long rep)
{
    if (nfaults >= MAXF) return -1;
    faults[nfaults].opmask = opmask; faults[nfaults].at = at; faults[nfaults].kind = kind; faults[nfaults].arg = arg; faults[nfaults].fired = 0; faults[nfaults].rep = rep < 1 ? 1 : rep;
    return nfaults++;
}
long simfs_count(int op) { return op == 0 ? op_all : op_cnt[op]; }
long simfs_fired(int i) { return i < nfaults ? faults[i].fired : 0; }
long simfs_loglen(void) { return nlog; }
int simfs_log_op(long i) { return logbuf[i].op; }
long simfs_log_size(long i) { return logbuf[i].size; }
int simfs_open_tracked(void) { int c = 0; for (int i = 0; i < MAXFD; i++) c += tracked[i]; return c; }
int simfs_present(void) { return 1; }

#define REAL(name, type, ...) static type (*real)(__VA_ARGS__); if (!real) real = (type (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)

static int after_open(int fd) { if (fd >= 0 && fd < MAXFD) tracked[fd] = 1; return fd; }

#define OPEN_BODY(call, path) \
    if (!armed || !path_match(path)) { int fd_ = call; if (fd_ >= 0 && fd_ < MAXFD) tracked[fd_] = 0; return fd_; } \
    struct fault *f = step(OP_OPEN, 0, -1); \
    if (f) { \
        if (f->kind == F_ERR) { errno = f->arg; return -1; } \
        if (f->kind == F_CRASH_BEFORE || f->kind == F_TORN_CRASH) _exit(crash_code); \
        if (f->kind == F_CRASH_AFTER) { int fd_ = call; (void)fd_; _exit(crash_code); } \
    } \
    return after_open(call);

#define MODE va_list ap; va_start(ap, flags); mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap)

int open(const char *path, int flags, ...) { MODE; REAL("open", int, const char *, int, ...); OPEN_BODY(real(path, flags, mode), path) }
int open64(const char *path, int flags, ...) { MODE; REAL("open64", int, const char *, int, ...); OPEN_BODY(real(path, flags, mode), path) }
int openat(int d, const char *path, int flags, ...) { MODE; REAL("openat", int, int, const char *, int, ...); OPEN_BODY(real(d, path, flags, mode), path) }
int openat64(int d, const char *path, int flags, ...) { MODE; REAL("openat64", int, int, const char *, int, ...); OPEN_BODY(real(d, path, flags, mode), path) }

static int istracked(int fd) { return armed && fd >= 0 && fd < MAXFD && tracked[fd]; }

#define READ_BODY(call_n) \
    struct fault *f = step(OP_READ, (long)n, fd); \
    if (f) { \
        if (f->kind == F_ERR) { errno = f->arg; return -1; } \
        if (f->kind == F_SHORT && n > 1) { n = (size_t)f->arg < n && f->arg > 0 ? (size_t)f->arg : n / 2; return call_n; } \
        if (f->kind == F_CRASH_BEFORE || f->kind == F_TORN_CRASH || f->kind == F_CRASH_AFTER) _exit(crash_code); \
    } \
    return call_n;

ssize_t read(int fd, void *b, size_t n) { REAL("read", ssize_t, int, void *, size_t); if (!istracked(fd)) return real(fd, b, n); READ_BODY(real(fd, b, n)) }
ssize_t pread(int fd, void *b, size_t n, off_t o) { REAL("pread", ssize_t, int, void *, size_t, off_t); if (!istracked(fd)) return real(fd, b, n, o); READ_BODY(real(fd, b, n, o)) }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL("pread64", ssize_t, int, void *, size_t, off64_t); if (!istracked(fd)) return real(fd, b, n, o); READ_BODY(real(fd, b, n, o)) }

#define WRITE_BODY(call_n) \
    struct fault *f = step(OP_WRITE, (long)n, fd); \
    if (f) { \
        if (f->kind == F_ERR) { errno = f->arg; return -1; } \
        if (f->kind == F_SHORT && n > 1) { n = (size_t)f->arg < n && f->arg > 0 ? (size_t)f->arg : n / 2; return call_n; } \
        if (f->kind == F_LOST) { return (ssize_t)n; } \
        if (f->kind == F_CRASH_BEFORE) _exit(crash_code); \
        if (f->kind == F_TORN_CRASH) { n = n / 2; ssize_t r_ = call_n; (void)r_; _exit(crash_code); } \
        if (f->kind == F_CRASH_AFTER) { ssize_t r_ = call_n; (void)r_; _exit(crash_code); } \
    } \
    return call_n;

ssize_t write(int fd, const void *b, size_t n) { REAL("write", ssize_t, int, const void *, size_t); if (!istracked(fd)) return real(fd, b, n); WRITE_BODY(real(fd, b, n)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL("pwrite", ssize_t, int, const void *, size_t, off_t); if (!istracked(fd)) return real(fd, b, n, o); WRITE_BODY(real(fd, b, n, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL("pwrite64", ssize_t, int, const void *, size_t, off64_t); if (!istracked(fd)) return real(fd, b, n, o); WRITE_BODY(real(fd, b, n, o)) }

#define SIMPLE_BODY(opc, call, sz, fdv) \
    struct fault *f = step(opc, (long)(sz), fdv); \
    if (f) { \
        if (f->kind == F_ERR) { errno = f->arg; return -1; } \
        if (f->kind == F_CRASH_BEFORE || f->kind == F_TORN_CRASH) _exit(crash_code); \
        if (f->kind == F_CRASH_AFTER) { int r_ = call; (void)r_; _exit(crash_code); } \
    } \
    return call;

int ftruncate(int fd, off_t l) { REAL("ftruncate", int, int, off_t); if (!istracked(fd)) return real(fd, l); SIMPLE_BODY(OP_TRUNC, real(fd, l), l, fd) }
int ftruncate64(int fd, off64_t l) { REAL("ftruncate64", int, int, off64_t); if (!istracked(fd)) return real(fd, l); SIMPLE_BODY(OP_TRUNC, real(fd, l), l, fd) }
int fsync(int fd) { REAL("fsync", int, int); if (!istracked(fd)) return real(fd); SIMPLE_BODY(OP_FSYNC, real(fd), 0, fd) }
int fdatasync(int fd) { REAL("fdatasync", int, int); if (!istracked(fd)) return real(fd); SIMPLE_BODY(OP_FSYNC, real(fd), 0, fd) }

int close(int fd)
{
    REAL("close", int, int);
    if (!istracked(fd)) return real(fd);
    tracked[fd] = 0;
    struct fault *f = step(OP_CLOSE, 0, fd);
    if (f) {
        if (f->kind == F_ERR) { int r = real(fd); (void)r; errno = f->arg; return -1; }
        if (f->kind == F_CRASH_BEFORE || f->kind == F_TORN_CRASH) _exit(crash_code);
        if (f->kind == F_CRASH_AFTER) { int r = real(fd); (void)r; _exit(crash_code); }
    }
    return real(fd);
}
int rename(const char *a, const char *b)
{
    REAL("rename", int, const char *, const char *);
    if (!armed || !(path_match(a) || path_match(b))) return real(a, b);
    SIMPLE_BODY(OP_RENAME, real(a, b), 0, -1)
}
int renameat(int d, const char *a, int e, const char *b)
{
    REAL("renameat", int, int, const char *, int, const char *);
    if (!armed || !(path_match(a) || path_match(b))) return real(d, a, e, b);
    SIMPLE_BODY(OP_RENAME, real(d, a, e, b), 0, -1)
}
int unlink(const char *a)
{
    REAL("unlink", int, const char *);
    if (!armed || !path_match(a)) return real(a);
    SIMPLE_BODY(OP_UNLINK, real(a), 0, -1)
}
