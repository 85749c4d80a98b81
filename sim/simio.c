/* simio: deterministic-simulation seam at the C library boundary.
 *
 * Loaded with LD_PRELOAD into the worker processes of the checks.  Until a
 * process calls sim_arm() it passes every call through.  When armed, every
 * file operation on a path under the scratch prefix is an "event": it gets the
 * next index, can be made to fail or to kill the process (before, in the
 * middle of, or after the operation), and in lock-step mode waits for the
 * scheduler in the parent to let it go on.  Clocks, sleeps and kernel
 * randomness can be replaced by simulated ones independently of that.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXPLAN 64

enum { K_OPENW = 0, K_OPENR, K_WRITE, K_READ, K_TRUNC, K_RENAME, K_UNLINK,
       K_MKDIR, K_RMDIR, K_FSYNC, K_CLOSE, K_LOCK, K_LINK, K_SLEEP, K_CHMOD,
       K_NKINDS };
static const char *kname[] = { "openw", "openr", "write", "read", "trunc",
    "rename", "unlink", "mkdir", "rmdir", "fsync", "close", "lock", "link",
    "sleep", "chmod" };

enum { F_NONE = 0, F_CRASH_BEFORE, F_CRASH_AFTER, F_CRASH_TORN, F_ERRNO,
       F_SHORT, F_TORN_ERRNO, F_STICKY };

struct plan { long index; int kind; int arg; };

/* shared with the parent (mmap made before fork) */
struct shm {
    long nevents;             /* events since arming */
    long nfired;              /* faults fired since arming */
    long kinds[32];           /* events per kind since arming */
    long fired[16];           /* fired per fault kind */
    long loglen;
    long logcap;
    char log[];
};

static struct shm *S;
static char prefix[PATH_MAX];
static size_t prefixlen;
static int armed;             /* events are tracked */
static int track_reads;
static int ctrlfd = -1;       /* lock-step scheduler */
static int lockstep;
static struct plan plan[MAXPLAN];
static int nplan;
static int sticky_errno;      /* all later mutating events fail with this */
static unsigned kindmask = 0xffffffffu; /* kinds that count as events */
static unsigned char fdt[MAXFD];        /* 1 = tracked, 2 = writable */
static char fdname[MAXFD][40];

static int vclock;            /* clocks are simulated */
static int64_t vreal, vmono, vcpu, vtick;
static int vrand; static uint64_t rstate;

#define REAL(name, ret, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static ssize_t raw_write(int fd, const void *b, size_t n)
{ return syscall(SYS_write, fd, b, n); }
static ssize_t raw_read(int fd, void *b, size_t n)
{ return syscall(SYS_read, fd, b, n); }

static void die(void) { _exit(137); }

static void slog(const char *fmt, ...)
{
    if (!S) return;
    char b[256]; va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n < 0) return;
    if (n >= (int)sizeof b) n = sizeof b - 1;
    if (S->loglen + n < S->logcap) { memcpy(S->log + S->loglen, b, n); S->loglen += n; }
}

/* one line to the scheduler, one line back: G [now] | X | E errno */
static int ask(const char *msg, int *err)
{
    size_t n = strlen(msg), o = 0;
    while (o < n) { ssize_t w = raw_write(ctrlfd, msg + o, n - o);
        if (w < 0 && errno == EINTR) continue; if (w <= 0) die(); o += w; }
    char b[128]; size_t l = 0;
    for (;;) { char c; ssize_t r = raw_read(ctrlfd, &c, 1);
        if (r < 0 && errno == EINTR) continue; if (r <= 0) die();
        if (c == '\n') break; if (l < sizeof b - 1) b[l++] = c; }
    b[l] = 0;
    if (b[0] == 'X') die();
    if (b[0] == 'E') { *err = atoi(b + 1); return 1; }
    if (b[0] == 'G' && b[1] == ' ' && vclock) {
        int64_t t = atoll(b + 2);
        if (t > vmono) { vreal += t - vmono; vmono = t; } }
    return 0;
}

/* Called before an operation.  Returns the fault to apply (F_NONE to go on). */
static int event(int kind, const char *name, size_t size, int *arg)
{
    if (!(kindmask & (1u << kind))) return F_NONE;
    int saved = errno;
    long idx = S ? S->nevents++ : 0;
    if (S) S->kinds[kind]++;
    slog("%ld %s %s %zu\n", idx, kname[kind], name ? name : "-", size);
    if (lockstep && ctrlfd >= 0) {
        char m[160]; int e = 0;
        snprintf(m, sizeof m, "Y %s %.60s %zu\n", kname[kind], name ? name : "-", size);
        if (ask(m, &e)) { *arg = e; errno = saved; return F_ERRNO; }
    }
    int f = F_NONE;
    for (int i = 0; i < nplan; i++)
        if (plan[i].index == idx) { f = plan[i].kind; *arg = plan[i].arg; break; }
    if (f == F_STICKY) { sticky_errno = *arg; f = F_NONE; if (S) { S->nfired++; S->fired[F_STICKY]++; } }
    if (f == F_NONE && sticky_errno && kind != K_READ && kind != K_OPENR && kind != K_LOCK
        && kind != K_CLOSE && kind != K_UNLINK && kind != K_RMDIR && kind != K_TRUNC) {
        f = F_ERRNO; *arg = sticky_errno;
    } else if (f != F_NONE) {
        /* torn/short only mean something for writes and reads */
        if ((f == F_SHORT || f == F_TORN_ERRNO || f == F_CRASH_TORN)
            && !(kind == K_WRITE || (kind == K_READ && f == F_SHORT)))
            f = f == F_CRASH_TORN ? F_CRASH_BEFORE : f == F_TORN_ERRNO ? F_ERRNO : F_NONE;
        if (f == F_ERRNO && kind == K_CLOSE) { /* close reports the error after closing */ }
        if (f != F_NONE && S) { S->nfired++; S->fired[f]++; slog("  !fault %d %d\n", f, *arg); }
    }
    errno = saved;
    if (f == F_CRASH_BEFORE) die();
    return f;
}

static int under(const char *path, int dirfd)
{
    if (!armed || !path) return 0;
    char buf[PATH_MAX];
    const char *p = path;
    if (path[0] != '/') {
        if (dirfd != AT_FDCWD) return (dirfd >= 0 && dirfd < MAXFD && fdt[dirfd]);
        if (!getcwd(buf, sizeof buf)) return 0;
        size_t l = strlen(buf);
        if (l + strlen(path) + 2 > sizeof buf) return 0;
        buf[l] = '/'; strcpy(buf + l + 1, path); p = buf;
    }
    return strncmp(p, prefix, prefixlen) == 0;
}
static const char *base(const char *p)
{ const char *s = strrchr(p, '/'); return s && s[1] ? s + 1 : p; }

static int tracked(int fd) { return armed && fd >= 0 && fd < MAXFD && fdt[fd]; }

/* ------------------------------------------------------------- open/close */
static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    int u = under(path, dirfd), a = 0, f = F_NONE, kind = K_OPENR;
    if (u && !(flags & O_DIRECTORY)) {
        int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
        kind = w ? K_OPENW : K_OPENR;
        if (w || track_reads) f = event(kind, base(path), 0, &a);
        if (f == F_ERRNO) { errno = a; return -1; }
    }
    int fd = syscall(SYS_openat, dirfd, path, flags | O_LARGEFILE, mode);
    if (fd >= 0 && fd < MAXFD) {
        fdt[fd] = u ? (1 | (((flags & O_ACCMODE) != O_RDONLY) ? 2 : 0)) : 0;
        if (u) { snprintf(fdname[fd], sizeof fdname[fd], "%s", base(path)); }
    }
    if (f == F_CRASH_AFTER) die();
    return fd;
}
#define OPENV mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { OPENV return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { OPENV return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { OPENV return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { OPENV return do_open(d, p, flags, m); }
int __open_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int __open64_2(const char *p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd)
{
    int f = F_NONE, a = 0;
    if (tracked(fd) && (fdt[fd] & 2)) f = event(K_CLOSE, fdname[fd], 0, &a);
    if (fd >= 0 && fd < MAXFD) fdt[fd] = 0;
    int r = syscall(SYS_close, fd);
    if (f == F_CRASH_AFTER) die();
    if (f == F_ERRNO) { errno = a; return -1; }
    return r;
}
int dup(int fd) { int r = syscall(SYS_dup, fd);
    if (r >= 0 && r < MAXFD && fd >= 0 && fd < MAXFD) { fdt[r] = fdt[fd]; memcpy(fdname[r], fdname[fd], sizeof fdname[r]); }
    return r; }

FILE *fopen64(const char *p, const char *mode)
{
    REAL(fopen64, FILE *, const char *, const char *);
    int u = under(p, AT_FDCWD), a = 0, f = F_NONE, w = strpbrk(mode, "wa+") != NULL;
    if (u && (w || track_reads)) f = event(w ? K_OPENW : K_OPENR, base(p), 0, &a);
    if (f == F_ERRNO) { errno = a; return NULL; }
    FILE *r = real_fopen64(p, mode);
    if (r) { int fd = fileno(r); if (fd >= 0 && fd < MAXFD) { fdt[fd] = u ? (1 | (w ? 2 : 0)) : 0;
        if (u) snprintf(fdname[fd], sizeof fdname[fd], "%s", base(p)); } }
    if (f == F_CRASH_AFTER) die();
    return r;
}
FILE *fopen(const char *p, const char *mode) { return fopen64(p, mode); }
int fclose(FILE *fp)
{
    REAL(fclose, int, FILE *);
    int fd = fp ? fileno(fp) : -1, a = 0, f = F_NONE;
    if (tracked(fd) && (fdt[fd] & 2)) f = event(K_CLOSE, fdname[fd], 0, &a);
    if (fd >= 0 && fd < MAXFD) fdt[fd] = 0;
    int r = real_fclose(fp);
    if (f == F_CRASH_AFTER) die();
    if (f == F_ERRNO) { errno = a; return EOF; }
    return r;
}

/* ------------------------------------------------------------- write/read */
static ssize_t part(size_t n) { return n > 1 ? (ssize_t)(n / 2) : 0; }
#define W(fd, n, FULL, PART) do { \
    if (!tracked(fd)) return FULL; \
    int a = 0, f = event(K_WRITE, fdname[fd], n, &a); \
    if (f == F_ERRNO) { errno = a; return -1; } \
    size_t h = part(n); if (a > 0 && f == F_CRASH_TORN) h = n * (size_t)a / 1000; \
    if (f == F_CRASH_TORN) { if (h) PART; die(); } \
    if (f == F_TORN_ERRNO) { if (h) PART; errno = a; return -1; } \
    if (f == F_SHORT) { if (!h) return FULL; return PART; } \
    ssize_t r = FULL; if (f == F_CRASH_AFTER) die(); return r; } while (0)
ssize_t write(int fd, const void *b, size_t n)
{ W(fd, n, syscall(SYS_write, fd, b, n), syscall(SYS_write, fd, b, h)); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{ W(fd, n, syscall(SYS_pwrite64, fd, b, n, o), syscall(SYS_pwrite64, fd, b, h, o)); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{ W(fd, n, syscall(SYS_pwrite64, fd, b, n, o), syscall(SYS_pwrite64, fd, b, h, o)); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    W(fd, n, syscall(SYS_writev, fd, v, c),
      syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len < h ? v[0].iov_len : h));
}
static ssize_t do_sendfile(int out, int in, off_t *o, size_t n)
{
    if (!tracked(out)) return syscall(SYS_sendfile, out, in, o, n);
    int a = 0, f = event(K_WRITE, fdname[out], 0, &a);
    if (f == F_ERRNO) { errno = a; return -1; }
    if (f == F_CRASH_TORN || f == F_TORN_ERRNO) {
        struct stat st; size_t h = n;
        if (!fstat(in, &st)) h = (size_t)st.st_size / 2;
        if (h) syscall(SYS_sendfile, out, in, o, h);
        if (f == F_CRASH_TORN) die();
        errno = a; return -1;
    }
    ssize_t r = syscall(SYS_sendfile, out, in, o, n);
    if (f == F_CRASH_AFTER) die();
    return r;
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return do_sendfile(out, in, o, n); }
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) { return do_sendfile(out, in, (off_t *)o, n); }
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned fl)
{ if (tracked(out)) { errno = ENOSYS; return -1; }
  return syscall(SYS_copy_file_range, in, io, out, oo, n, fl); }

#define R(fd, n, FULL, PART) do { \
    if (!tracked(fd) || !track_reads) return FULL; \
    int a = 0, f = event(K_READ, fdname[fd], 0, &a); \
    if (f == F_ERRNO) { errno = a; return -1; } \
    if (f == F_SHORT && n > 1) { size_t h = a > 0 && (size_t)a < n ? (size_t)a : n / 2; return PART; } \
    ssize_t r = FULL; if (f == F_CRASH_AFTER) die(); return r; } while (0)
ssize_t read(int fd, void *b, size_t n)
{ R(fd, n, syscall(SYS_read, fd, b, n), syscall(SYS_read, fd, b, h)); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t l)
{ (void)l; return read(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o)
{ R(fd, n, syscall(SYS_pread64, fd, b, n, o), syscall(SYS_pread64, fd, b, h, o)); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o)
{ R(fd, n, syscall(SYS_pread64, fd, b, n, o), syscall(SYS_pread64, fd, b, h, o)); }
ssize_t __pread64_chk(int fd, void *b, size_t n, off64_t o, size_t l)
{ (void)l; return pread64(fd, b, n, o); }
ssize_t __pread_chk(int fd, void *b, size_t n, off_t o, size_t l)
{ (void)l; return pread64(fd, b, n, o); }

/* ------------------------------------------------------------- name space */
#define SIMPLE(cond, kind, nm, CALL) do { \
    if (!(cond)) return CALL; \
    int a = 0, f = event(kind, nm, 0, &a); \
    if (f == F_ERRNO) { errno = a; return -1; } \
    int r = CALL; if (f == F_CRASH_AFTER) die(); return r; } while (0)
int ftruncate(int fd, off_t n) { SIMPLE(tracked(fd), K_TRUNC, fdname[fd], (int)syscall(SYS_ftruncate, fd, n)); }
int ftruncate64(int fd, off64_t n) { SIMPLE(tracked(fd), K_TRUNC, fdname[fd], (int)syscall(SYS_ftruncate, fd, n)); }
int truncate(const char *p, off_t n) { SIMPLE(under(p, AT_FDCWD), K_TRUNC, base(p), (int)syscall(SYS_truncate, p, n)); }
int truncate64(const char *p, off64_t n) { SIMPLE(under(p, AT_FDCWD), K_TRUNC, base(p), (int)syscall(SYS_truncate, p, n)); }
int rename(const char *o, const char *n) { SIMPLE(under(n, AT_FDCWD) || under(o, AT_FDCWD), K_RENAME, base(n), (int)syscall(SYS_rename, o, n)); }
int renameat(int od, const char *o, int nd, const char *n) { SIMPLE(under(n, nd) || under(o, od), K_RENAME, base(n), (int)syscall(SYS_renameat, od, o, nd, n)); }
int renameat2(int od, const char *o, int nd, const char *n, unsigned fl) { SIMPLE(under(n, nd) || under(o, od), K_RENAME, base(n), (int)syscall(SYS_renameat2, od, o, nd, n, fl)); }
int unlink(const char *p) { SIMPLE(under(p, AT_FDCWD), K_UNLINK, base(p), (int)syscall(SYS_unlink, p)); }
int unlinkat(int d, const char *p, int fl) { SIMPLE(under(p, d), K_UNLINK, base(p), (int)syscall(SYS_unlinkat, d, p, fl)); }
int remove(const char *p) { struct stat st; if (!lstat(p, &st) && S_ISDIR(st.st_mode)) return rmdir(p); return unlink(p); }
int mkdir(const char *p, mode_t m) { SIMPLE(under(p, AT_FDCWD), K_MKDIR, base(p), (int)syscall(SYS_mkdir, p, m)); }
int mkdirat(int d, const char *p, mode_t m) { SIMPLE(under(p, d), K_MKDIR, base(p), (int)syscall(SYS_mkdirat, d, p, m)); }
int rmdir(const char *p) { SIMPLE(under(p, AT_FDCWD), K_RMDIR, base(p), (int)syscall(SYS_rmdir, p)); }
int link(const char *o, const char *n) { SIMPLE(under(n, AT_FDCWD), K_LINK, base(n), (int)syscall(SYS_link, o, n)); }
int symlink(const char *o, const char *n) { SIMPLE(under(n, AT_FDCWD), K_LINK, base(n), (int)syscall(SYS_symlink, o, n)); }
int fsync(int fd) { SIMPLE(tracked(fd), K_FSYNC, fdname[fd], (int)syscall(SYS_fsync, fd)); }
int fdatasync(int fd) { SIMPLE(tracked(fd), K_FSYNC, fdname[fd], (int)syscall(SYS_fdatasync, fd)); }
int chmod(const char *p, mode_t m) { SIMPLE(under(p, AT_FDCWD), K_CHMOD, base(p), (int)syscall(SYS_chmod, p, m)); }
int fchmod(int fd, mode_t m) { SIMPLE(tracked(fd), K_CHMOD, fdname[fd], (int)syscall(SYS_fchmod, fd, m)); }

static int do_fcntl(int fd, int cmd, void *arg)
{
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
        int r = syscall(SYS_fcntl, fd, cmd, arg);
        if (r >= 0 && r < MAXFD && fd >= 0 && fd < MAXFD) { fdt[r] = fdt[fd]; memcpy(fdname[r], fdname[fd], sizeof fdname[r]); }
        return r;
    }
    if (tracked(fd) && (cmd == F_SETLK || cmd == F_OFD_SETLK)) {
        struct flock *l = arg;
        int a = 0, f = F_NONE;
        if (l && l->l_type != F_UNLCK) f = event(K_LOCK, fdname[fd], (size_t)l->l_type, &a);
        if (f == F_ERRNO) { errno = a; return -1; }
        int r = syscall(SYS_fcntl, fd, cmd, arg);
        if (f == F_CRASH_AFTER) die();
        return r;
    }
    return syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }

/* ------------------------------------------------------------------ clocks */
static void vsleep(int64_t ns)
{
    if (ns < 0) ns = 0;
    if (lockstep && ctrlfd >= 0 && armed) {
        char m[64]; int e; snprintf(m, sizeof m, "S %lld\n", (long long)ns);
        ask(m, &e);
    } else { vreal += ns; vmono += ns; }
    if (S) S->kinds[K_SLEEP]++;
}
static int64_t *clk(clockid_t c)
{
    switch (c) {
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: return &vreal;
    case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: case CLOCK_MONOTONIC_COARSE: case CLOCK_BOOTTIME: return &vmono;
    case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID: return &vcpu;
    }
    return NULL;
}
int clock_gettime(clockid_t c, struct timespec *ts)
{
    int64_t *p = vclock ? clk(c) : NULL;
    if (!p) return syscall(SYS_clock_gettime, c, ts);
    vreal += vtick; vmono += vtick; vcpu += vtick;
    ts->tv_sec = *p / 1000000000; ts->tv_nsec = *p % 1000000000; return 0;
}
int gettimeofday(struct timeval *tv, void *tz)
{
    (void)tz;
    struct timespec ts; int r = clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; } return r;
}
time_t time(time_t *t)
{
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec; return ts.tv_sec;
}
static int64_t tsns(const struct timespec *t) { return (int64_t)t->tv_sec * 1000000000 + t->tv_nsec; }
int nanosleep(const struct timespec *req, struct timespec *rem)
{ if (!vclock) return syscall(SYS_nanosleep, req, rem); vsleep(tsns(req)); return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *req, struct timespec *rem)
{
    int64_t *p = vclock ? clk(c) : NULL;
    if (!p) return syscall(SYS_clock_nanosleep, c, fl, req, rem) ? errno : 0;
    vsleep(fl & TIMER_ABSTIME ? tsns(req) - *p : tsns(req)); return 0;
}
int usleep(useconds_t us)
{ if (!vclock) { struct timespec t = { us / 1000000, (us % 1000000) * 1000L }; return syscall(SYS_nanosleep, &t, NULL); }
  vsleep((int64_t)us * 1000); return 0; }
unsigned sleep(unsigned s)
{ if (!vclock) { struct timespec t = { s, 0 }; syscall(SYS_nanosleep, &t, NULL); return 0; }
  vsleep((int64_t)s * 1000000000); return 0; }
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    if (vclock && n == 0 && tv) { vsleep((int64_t)tv->tv_sec * 1000000000 + tv->tv_usec * 1000LL); return 0; }
    REAL(select, int, int, fd_set *, fd_set *, fd_set *, struct timeval *);
    return real_select(n, r, w, e, tv);
}

/* -------------------------------------------------------------- randomness */
static uint64_t rnext(void)
{ uint64_t z = (rstate += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
ssize_t getrandom(void *b, size_t n, unsigned fl)
{
    if (!vrand) return syscall(SYS_getrandom, b, n, fl);
    unsigned char *p = b; for (size_t i = 0; i < n; i++) p[i] = (unsigned char)rnext(); return n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }

/* --------------------------------------------------------------- interface */
void sim_shm(void *p, long cap) { S = p; S->logcap = cap - (long)sizeof(struct shm); }
void sim_prefix(const char *p) { snprintf(prefix, sizeof prefix, "%s", p); prefixlen = strlen(prefix); }
void sim_plan_clear(void) { nplan = 0; sticky_errno = 0; }
void sim_plan_add(long index, int kind, int arg)
{ if (nplan < MAXPLAN) { plan[nplan].index = index; plan[nplan].kind = kind; plan[nplan].arg = arg; nplan++; } }
void sim_track(int reads, unsigned mask) { track_reads = reads; kindmask = mask; }
void sim_lockstep(int fd, int on) { ctrlfd = fd; lockstep = on; }
void sim_reset(void) { if (S) { S->nevents = S->nfired = S->loglen = 0; memset(S->kinds, 0, sizeof S->kinds); memset(S->fired, 0, sizeof S->fired); } }
void sim_arm(int on) { armed = on; if (!on) { nplan = 0; sticky_errno = 0; } }
void sim_clock(int on, int64_t real, int64_t mono, int64_t cpu, int64_t tick)
{ vclock = on; vreal = real; vmono = mono; vcpu = cpu; vtick = tick; }
void sim_advance(int64_t real, int64_t mono, int64_t cpu) { vreal += real; vmono += mono; vcpu += cpu; }
int64_t sim_now(int which) { return which == 0 ? vreal : which == 1 ? vmono : vcpu; }
void sim_rand(int on, uint64_t seed) { vrand = on; rstate = seed; }
int sim_loaded(void) { return 1; }
