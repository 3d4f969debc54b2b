/* simio: the operating-system seam of the deterministic simulator.
 *
 * Loaded with LD_PRELOAD.  Passive until a process is armed (simio_arm, or SIMIO_ENV for plain
 * binaries).  While armed, every libc call through which Python, KLayout's C++ library, zlib and
 * libstdc++ reach the outside world is decided here:
 *   - mutating file operations below `root` are numbered; a fault table says at which number to
 *     crash (before / after / in the middle of a write), fail with an errno, or write short
 *   - a byte budget models a disk that fills up
 *   - mutating operations outside `root` are refused (EACCES) and recorded as escapes
 *   - the clock, file time stamps, pid, directory order and random bytes are simulated
 *   - in concurrent mode every operation first waits until the scheduler grants it
 * All decisions come from the shared control block, nothing from the host.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/random.h>
#include <time.h>
#include <unistd.h>
#include <spawn.h>

#define MAXFAULT 16
enum { F_NONE, F_CRASH_BEFORE, F_CRASH_AFTER, F_TORN, F_ERRNO, F_SHORT, F_PERSIST, F_RERR, F_SIGINT, F_FILE };

/* fires at the operation with number `index`, or, with a `match`, at the index-th operation whose
 * "kind path" contains it (with a *: contains one part and then the other) */
struct fault { int64_t index; int32_t kind; int32_t arg; int32_t fired; int32_t seen; char match[64]; };

static int hit(struct fault *x, int64_t idx, const char *kind, const char *path);

struct shm {
    uint64_t magic;
    int64_t now_ns;       /* simulated wall clock */
    int64_t mono_ns;      /* simulated monotonic clock */
    uint64_t rng;         /* small PRNG for op costs, random bytes, directory order */
    int64_t opcount;      /* mutating operations so far */
    int64_t readcount;    /* read operations so far */
    int64_t escapes;      /* mutating operations outside root */
    int64_t spawns;       /* real process creation attempts */
    int64_t budget;       /* bytes that still fit on the disk, <0: unlimited */
    int32_t persist_errno;
    int32_t pid;
    int32_t crashed;
    int32_t nfault;
    int32_t rofaults;     /* faults only apply to paths below fault_root if set */
    int32_t statyield;
    struct fault fault[MAXFAULT];
    char root[256];
    char next[512];       /* concurrent mode: the operation that waits for its turn */
    int64_t nextflag;     /* 1: `next` is a mutating operation, 0: a query */
    int64_t tracelen;
    int64_t tracecap;
    char trace[];
};

static struct shm *S;
static int armed;
static int suspended;
static int ctl_r = -1, ctl_w = -1;
static size_t rootlen;

#define NFD 1024
static char *fdpath[NFD];        /* tracked writable descriptors below root */
static char fdread[NFD];         /* tracked readable descriptors below root */

#define REAL(name) static __typeof__(&name) real_##name; if (!real_##name) real_##name = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static int on(void) { return armed && !suspended && S; }

static uint64_t rnd(void)
{
    uint64_t z = (S->rng += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

static void tick(int64_t ns) { S->now_ns += ns; S->mono_ns += ns; }

static void trace(const char *fmt, ...)
{
    char buf[1400];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    if (S->tracelen + n + 1 >= S->tracecap) return;
    memcpy(S->trace + S->tracelen, buf, n);
    S->tracelen += n;
}

void simio_note(const char *text)
{
    if (!S) return;
    size_t n = strlen(text);
    if (S->tracelen + (int64_t)n + 4 >= S->tracecap) return;
    char *p = S->trace + S->tracelen;
    memcpy(p, "N ", 2); memcpy(p + 2, text, n); p[n + 2] = '\n';
    S->tracelen += n + 3;
}

static void die(void)
{
    S->crashed = 1;
    syscall(SYS_exit_group, 137);
    __builtin_unreachable();
}

/* ---- paths ---- */
static void normpath(char *p)
{
    /* lexical normalisation of an absolute path, in place */
    char out[PATH_MAX * 2]; size_t o = 0; const char *s = p;
    out[0] = 0;
    while (*s) {
        while (*s == '/') s++;
        if (!*s) break;
        const char *e = strchrnul(s, '/');
        size_t n = e - s;
        if (n == 1 && s[0] == '.') { }
        else if (n == 2 && s[0] == '.' && s[1] == '.') { while (o > 0 && out[--o] != '/'); out[o] = 0; }
        else { if (o + n + 2 < sizeof out) { out[o++] = '/'; memcpy(out + o, s, n); o += n; out[o] = 0; } }
        s = e;
    }
    if (o == 0) strcpy(out, "/");
    strcpy(p, out);
}

static void abspath(int dirfd, const char *path, char *out)
{
    char base[PATH_MAX];
    if (path[0] == '/') { snprintf(out, PATH_MAX * 2, "%s", path); }
    else {
        if (dirfd == AT_FDCWD) {
            if (syscall(SYS_getcwd, base, sizeof base) < 0) strcpy(base, "/");
        } else {
            char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t n = readlink(l, base, sizeof base - 1);
            base[n > 0 ? n : 0] = 0;
        }
        snprintf(out, PATH_MAX * 2, "%s/%s", base, path);
    }
    normpath(out);
}

static int inroot(const char *p) { return strncmp(p, S->root, rootlen) == 0 && (p[rootlen] == '/' || p[rootlen] == 0); }
static int device(const char *p) { return strncmp(p, "/dev/", 5) == 0 && strncmp(p, "/dev/shm/", 9) != 0; }

/* ---- scheduling ---- */
static void yield_point(int mut, const char *kind, const char *path)
{
    if (ctl_w < 0) return;
    snprintf(S->next, sizeof S->next, "%s %s", kind, path);
    S->nextflag = mut;
    char c = 'y';
    while (syscall(SYS_write, ctl_w, &c, 1) < 0 && errno == EINTR);
    long n;
    while ((n = syscall(SYS_read, ctl_r, &c, 1)) < 0 && errno == EINTR);
    if (n == 0) syscall(SYS_exit_group, 138);      /* the scheduler is gone */
    if (c == 'k') die();
}

/* for Python-level seams (tool output etc.) */
void simio_yield(const char *what) { if (on()) yield_point(0, "tool", what); }

static int hit(struct fault *x, int64_t idx, const char *kind, const char *path)
{
    char b[PATH_MAX * 2 + 32];
    if (!x->match[0]) return x->index == idx;
    snprintf(b, sizeof b, "%s %s", kind, path);
    char m[sizeof x->match], *second, *p;
    strcpy(m, x->match);
    if ((second = strchr(m, '*'))) *second++ = 0;       /* "write*.csv": both, in this order */
    if (!(p = strstr(b, m)) || (second && !strstr(p + strlen(m), second))) return 0;
    int n = x->seen++;
    return x->kind == F_FILE ? n >= x->index : n == x->index;
}

/* A mutating operation starts. Returns: 0 proceed, <0 = -errno to fail with.
 * *f gets a fault that must act in the middle of or after the operation. */
static int begin(const char *kind, const char *path, long size, struct fault **f)
{
    *f = NULL;
    yield_point(1, kind, path);
    int64_t idx = S->opcount++;
    tick(20000 + rnd() % 1500000);
    for (int i = 0; i < S->nfault; i++) {
        struct fault *x = &S->fault[i];
        if ((x->fired && x->kind != F_FILE) || x->kind == F_RERR || !hit(x, idx, kind, path)) continue;
        x->fired = 1;
        *f = x;
        break;
    }
    trace("O %ld %s %ld %s%s\n", (long)idx, kind, size, path, *f ? " !" : "");
    if (*f) {
        if ((*f)->kind == F_CRASH_BEFORE) die();
        if ((*f)->kind == F_ERRNO || (*f)->kind == F_FILE) return -(*f)->arg;
        if ((*f)->kind == F_PERSIST) { S->persist_errno = (*f)->arg; return -(*f)->arg; }
        if ((*f)->kind == F_SIGINT) { raise(SIGINT); }
    }
    if (S->persist_errno && strcmp(kind, "close") && strcmp(kind, "unlink") && strcmp(kind, "rmdir"))
        return -S->persist_errno;
    return 0;
}

static void finish(struct fault *f) { if (f && (f->kind == F_CRASH_AFTER || f->kind == F_TORN)) die(); }

static void stamp(int fd)
{
    struct timespec ts[2];
    ts[0].tv_sec = ts[1].tv_sec = S->now_ns / 1000000000LL;
    ts[0].tv_nsec = ts[1].tv_nsec = S->now_ns % 1000000000LL;
    syscall(SYS_utimensat, fd, NULL, ts, 0);
}

static int escape(const char *kind, const char *p)
{
    S->escapes++;
    trace("E %s %s\n", kind, p);
    errno = EACCES;
    return -1;
}

/* ---- control ---- */
void simio_die(void) { trace("N {\"t\":\"die\"}\n"); die(); }
void simio_attach(void *p) { S = p; rootlen = S ? strlen(S->root) : 0; }
void simio_arm(int a) { armed = a; if (S) rootlen = strlen(S->root); }
void simio_suspend(int d) { suspended += d; }
void simio_ctl(int r, int w) { ctl_r = r; ctl_w = w; }
long simio_header(void) { return (long)sizeof(struct shm); }
void simio_advance(int64_t ns) { if (S) { S->now_ns += ns; S->mono_ns += ns; } }
void simio_jump(int64_t ns) { if (S) S->now_ns += ns; }

/* ---- open / close ---- */
static void forget(int fd) { if (fd >= 0 && fd < NFD) { free(fdpath[fd]); fdpath[fd] = NULL; fdread[fd] = 0; } }

static int read_fault(const char *kind, const char *path)
{
    yield_point(0, kind, path);
    int64_t idx = S->readcount++;
    tick(2000 + rnd() % 50000);
    for (int i = 0; i < S->nfault; i++) {
        struct fault *x = &S->fault[i];
        if (!x->fired && x->kind == F_RERR && hit(x, idx, kind, path)) {
            x->fired = 1;
            trace("R %ld %s %s !\n", (long)idx, kind, path);
            return x->arg;
        }
    }
    trace("R %ld %s %s\n", (long)idx, kind, path);
    return 0;
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    if (!on()) return syscall(SYS_openat, dirfd, path, flags, mode);
    char p[PATH_MAX * 2];
    abspath(dirfd, path, p);
    int wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (!wr) {
        int in = inroot(p) && !(flags & O_DIRECTORY);
        if (in) { int e = read_fault("open", p); if (e) { errno = e; return -1; } }
        int fd = syscall(SYS_openat, dirfd, path, flags, mode);
        if (fd >= 0 && fd < NFD) { forget(fd); fdread[fd] = in; }
        return fd;
    }
    if (!inroot(p)) {
        if (device(p)) return syscall(SYS_openat, dirfd, path, flags, mode);
        return escape("open", p);
    }
    struct fault *f;
    const char *kind = (flags & O_TRUNC) ? "opentrunc" : (flags & O_APPEND) ? "openapp" : (flags & O_EXCL) ? "openexcl" : "openw";
    int e = begin(kind, p, 0, &f);
    if (e < 0) { errno = -e; return -1; }
    struct stat st; int existed = syscall(SYS_newfstatat, AT_FDCWD, p, &st, 0) == 0;
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    int se = errno;
    if (fd >= 0 && fd < NFD) {
        forget(fd);
        fdpath[fd] = strdup(p);
        if (!existed || (flags & O_TRUNC)) stamp(fd);
    }
    finish(f);
    errno = se;
    return fd;
}

#define MODE_ARG mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char *path, int flags, ...) { MODE_ARG return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE_ARG return do_open(d, path, flags | O_LARGEFILE, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static FILE *do_fopen(const char *path, const char *m)
{
    int flags;
    if (m[0] == 'r') flags = O_RDONLY; else if (m[0] == 'w') flags = O_WRONLY | O_CREAT | O_TRUNC; else flags = O_WRONLY | O_CREAT | O_APPEND;
    if (strchr(m, '+')) flags = (flags & ~O_ACCMODE) | O_RDWR;
    if (strchr(m, 'e')) flags |= O_CLOEXEC;
    if (strchr(m, 'x')) flags |= O_EXCL;
    int fd = do_open(AT_FDCWD, path, flags, 0666);
    if (fd < 0) return NULL;
    FILE *r = fdopen(fd, m);
    if (!r) close(fd);
    return r;
}
FILE *fopen(const char *path, const char *m) { REAL(fopen); if (!on()) return real_fopen(path, m); return do_fopen(path, m); }
FILE *fopen64(const char *path, const char *m) { REAL(fopen64); if (!on()) return real_fopen64(path, m); return do_fopen(path, m); }

int close(int fd)
{
    REAL(close);
    if (!on() || fd < 0 || fd >= NFD || !fdpath[fd]) { if (fd >= 0 && fd < NFD && armed) forget(fd); return real_close(fd); }
    struct fault *f;
    int e = begin("close", fdpath[fd], 0, &f);
    int r = real_close(fd);
    forget(fd);
    finish(f);
    if (e < 0) { errno = -e; return -1; }
    return r;
}

int fclose(FILE *f)
{
    REAL(fclose);
    int fd = on() ? fileno(f) : -1;
    if (fd < 0 || fd >= NFD || !fdpath[fd]) { if (armed && (fd = fileno(f)) >= 0 && fd < NFD) forget(fd); return real_fclose(f); }
    struct fault *x;
    int e = begin("close", fdpath[fd], 0, &x);
    int r = real_fclose(f);
    forget(fd);
    finish(x);
    if (e < 0) { errno = -e; return EOF; }
    return r;
}

static int dupfd(int o, int n)
{
    if (n >= 0 && n < NFD && o >= 0 && o < NFD && n != o && armed) {
        forget(n);
        if (fdpath[o]) fdpath[n] = strdup(fdpath[o]);
        fdread[n] = fdread[o];
    }
    return n;
}
int dup(int fd) { REAL(dup); return dupfd(fd, real_dup(fd)); }
int dup2(int a, int b) { REAL(dup2); return dupfd(a, real_dup2(a, b)); }
int dup3(int a, int b, int fl) { REAL(dup3); return dupfd(a, real_dup3(a, b, fl)); }

/* ---- data ---- */
static ssize_t do_write(int fd, const char *buf, size_t n, off_t off)
{
    const char *p = fdpath[fd];
    struct fault *f;
    int e = begin("write", p, (long)n, &f);
    if (e < 0) { errno = -e; return -1; }
    size_t want = n;
    int after = 0;
    if (f && (f->kind == F_TORN || f->kind == F_SHORT)) {
        want = (size_t)((unsigned __int128)n * (unsigned)f->arg / 1000);
        if (f->kind == F_SHORT && want == 0 && n > 0) want = 1;
    }
    if (S->budget >= 0) {
        if ((int64_t)want > S->budget) { want = S->budget; if (want == 0 && n > 0) after = ENOSPC; }
        S->budget -= want;
    }
    ssize_t r = 0;
    if (!after) {
        if (want || !n) r = off >= 0 ? syscall(SYS_pwrite64, fd, buf, want, off) : syscall(SYS_write, fd, buf, want);
        stamp(fd);
    }
    finish(f);
    if (after) { errno = after; return -1; }
    return r;
}

ssize_t write(int fd, const void *buf, size_t n)
{
    if (!on() || fd < 0 || fd >= NFD || !fdpath[fd]) return syscall(SYS_write, fd, buf, n);
    return do_write(fd, buf, n, -1);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o)
{
    if (!on() || fd < 0 || fd >= NFD || !fdpath[fd]) return syscall(SYS_pwrite64, fd, buf, n, o);
    return do_write(fd, buf, n, o);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) { return pwrite(fd, buf, n, o); }
ssize_t writev(int fd, const struct iovec *iov, int cnt)
{
    if (!on() || fd < 0 || fd >= NFD || !fdpath[fd]) return syscall(SYS_writev, fd, iov, cnt);
    size_t n = 0;
    for (int i = 0; i < cnt; i++) n += iov[i].iov_len;
    char *b = malloc(n ? n : 1), *q = b;
    for (int i = 0; i < cnt; i++) { memcpy(q, iov[i].iov_base, iov[i].iov_len); q += iov[i].iov_len; }
    ssize_t r = do_write(fd, b, n, -1);
    int e = errno; free(b); errno = e;
    return r;
}
static ssize_t do_copy(int out, int in, off64_t *off, size_t n)
{
    size_t m = n < 65536 ? n : 65536;
    char *b = malloc(m);
    ssize_t r = off ? syscall(SYS_pread64, in, b, m, *off) : syscall(SYS_read, in, b, m);
    if (r > 0) {
        ssize_t w = do_write(out, b, r, -1);
        if (off && w > 0) *off += w;
        else if (!off && w >= 0 && w < r) lseek(in, w - r, SEEK_CUR);
        r = w;
    }
    int e = errno; free(b); errno = e;
    return r;
}
ssize_t sendfile(int out, int in, off_t *off, size_t n)
{
    if (!on() || out < 0 || out >= NFD || !fdpath[out]) return syscall(SYS_sendfile, out, in, off, n);
    return do_copy(out, in, (off64_t *)off, n);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) { return sendfile(out, in, (off_t *)off, n); }
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned fl)
{
    if (!on() || out < 0 || out >= NFD || !fdpath[out]) return syscall(SYS_copy_file_range, in, io, out, oo, n, fl);
    if (oo) { errno = EXDEV; return -1; }
    return do_copy(out, in, io, n);
}
ssize_t read(int fd, void *buf, size_t n)
{
    if (!on() || fd < 0 || fd >= NFD || !fdread[fd]) return syscall(SYS_read, fd, buf, n);
    int e = read_fault("read", "");
    if (e) { errno = e; return -1; }
    return syscall(SYS_read, fd, buf, n);
}
int ftruncate(int fd, off_t len)
{
    if (!on() || fd < 0 || fd >= NFD || !fdpath[fd]) return syscall(SYS_ftruncate, fd, len);
    struct fault *f; int e = begin("ftruncate", fdpath[fd], len, &f);
    if (e < 0) { errno = -e; return -1; }
    int r = syscall(SYS_ftruncate, fd, len);
    stamp(fd);
    finish(f);
    return r;
}
int ftruncate64(int fd, off64_t len) { return ftruncate(fd, len); }
static int sync_op(const char *k, int fd)
{
    struct fault *f; int e = begin(k, fdpath[fd], 0, &f);
    finish(f);
    if (e < 0) { errno = -e; return -1; }
    return 0;
}
int fsync(int fd) { if (!on() || fd < 0 || fd >= NFD || !fdpath[fd]) return syscall(SYS_fsync, fd); return sync_op("fsync", fd); }
int fdatasync(int fd) { if (!on() || fd < 0 || fd >= NFD || !fdpath[fd]) return syscall(SYS_fdatasync, fd); return sync_op("fsync", fd); }

/* ---- names ---- */
#define ONE(kind, dfd, path, call) \
    char p[PATH_MAX * 2]; abspath(dfd, path, p); \
    if (!inroot(p)) return escape(kind, p); \
    struct fault *f; int e = begin(kind, p, 0, &f); \
    if (e < 0) { errno = -e; return -1; } \
    int r = call; int se = errno; finish(f); errno = se; return r;

int unlink(const char *path) { if (!on()) return syscall(SYS_unlink, path); ONE("unlink", AT_FDCWD, path, syscall(SYS_unlink, path)) }
int unlinkat(int d, const char *path, int fl) { if (!on()) return syscall(SYS_unlinkat, d, path, fl); ONE((fl & AT_REMOVEDIR) ? "rmdir" : "unlink", d, path, syscall(SYS_unlinkat, d, path, fl)) }
int remove(const char *path) { int r = unlink(path); if (r < 0 && errno == EISDIR) return rmdir(path); return r; }
int rmdir(const char *path) { if (!on()) return syscall(SYS_rmdir, path); ONE("rmdir", AT_FDCWD, path, syscall(SYS_rmdir, path)) }
static int do_mkdir(int d, const char *path, mode_t m)
{
    if (!on()) return syscall(SYS_mkdirat, d, path, m);
    char p[PATH_MAX * 2]; abspath(d, path, p);
    struct stat st;
    if (!inroot(p) && syscall(SYS_newfstatat, AT_FDCWD, p, &st, 0) == 0) { errno = EEXIST; return -1; }
    if (!inroot(p)) return escape("mkdir", p);
    struct fault *f; int e = begin("mkdir", p, 0, &f);
    if (e < 0) { errno = -e; return -1; }
    int r = syscall(SYS_mkdirat, d, path, m); int se = errno; finish(f); errno = se; return r;
}
int mkdir(const char *path, mode_t m) { return do_mkdir(AT_FDCWD, path, m); }
int mkdirat(int d, const char *path, mode_t m) { return do_mkdir(d, path, m); }
static int do_rename(int od, const char *o, int nd, const char *n, unsigned fl)
{
    if (!on()) return syscall(SYS_renameat2, od, o, nd, n, fl);
    char po[PATH_MAX * 2], pn[PATH_MAX * 2], both[PATH_MAX * 4];
    abspath(od, o, po); abspath(nd, n, pn);
    if (!inroot(po)) return escape("rename", po);
    if (!inroot(pn)) return escape("rename", pn);
    snprintf(both, sizeof both, "%s -> %s", po, pn);
    struct fault *f; int e = begin("rename", both, 0, &f);
    if (e < 0) { errno = -e; return -1; }
    int r = syscall(SYS_renameat2, od, o, nd, n, fl); int se = errno;
    if (r == 0) for (int i = 0; i < NFD; i++) if (fdpath[i] && !strcmp(fdpath[i], po)) { free(fdpath[i]); fdpath[i] = strdup(pn); }
    finish(f); errno = se; return r;
}
int rename(const char *o, const char *n) { return do_rename(AT_FDCWD, o, AT_FDCWD, n, 0); }
int renameat(int od, const char *o, int nd, const char *n) { return do_rename(od, o, nd, n, 0); }
int renameat2(int od, const char *o, int nd, const char *n, unsigned fl) { return do_rename(od, o, nd, n, fl); }
static int do_link(int od, const char *o, int nd, const char *n, int fl)
{
    if (!on()) return syscall(SYS_linkat, od, o, nd, n, fl);
    ONE("link", nd, n, syscall(SYS_linkat, od, o, nd, n, fl))
}
int link(const char *o, const char *n) { return do_link(AT_FDCWD, o, AT_FDCWD, n, 0); }
int linkat(int od, const char *o, int nd, const char *n, int fl) { return do_link(od, o, nd, n, fl); }
int symlink(const char *t, const char *n) { if (!on()) return syscall(SYS_symlink, t, n); ONE("symlink", AT_FDCWD, n, syscall(SYS_symlink, t, n)) }
int symlinkat(const char *t, int d, const char *n) { if (!on()) return syscall(SYS_symlinkat, t, d, n); ONE("symlink", d, n, syscall(SYS_symlinkat, t, d, n)) }
int truncate(const char *path, off_t len) { if (!on()) return syscall(SYS_truncate, path, len); ONE("truncate", AT_FDCWD, path, syscall(SYS_truncate, path, len)) }
int truncate64(const char *path, off64_t len) { return truncate(path, len); }
int chmod(const char *path, mode_t m) { if (!on()) return syscall(SYS_chmod, path, m); ONE("chmod", AT_FDCWD, path, syscall(SYS_chmod, path, m)) }
int fchmodat(int d, const char *path, mode_t m, int fl) { (void)fl; if (!on()) return syscall(SYS_fchmodat, d, path, m); ONE("chmod", d, path, syscall(SYS_fchmodat, d, path, m)) }
int chown(const char *path, uid_t u, gid_t g) { if (!on()) return syscall(SYS_chown, path, u, g); ONE("chown", AT_FDCWD, path, syscall(SYS_chown, path, u, g)) }

static void simtimes(struct timespec o[2], const struct timespec *ts)
{
    for (int i = 0; i < 2; i++) {
        if (!ts || ts[i].tv_nsec == UTIME_NOW) { o[i].tv_sec = S->now_ns / 1000000000LL; o[i].tv_nsec = S->now_ns % 1000000000LL; }
        else o[i] = ts[i];
    }
}
int utimensat(int d, const char *path, const struct timespec ts[2], int fl)
{
    if (!on()) return syscall(SYS_utimensat, d, path, ts, fl);
    struct timespec o[2]; simtimes(o, ts);
    ONE("utime", d, path, syscall(SYS_utimensat, d, path, o, fl))
}
int futimens(int fd, const struct timespec ts[2])
{
    if (!on() || fd < 0 || fd >= NFD || !fdpath[fd]) return syscall(SYS_utimensat, fd, NULL, ts, 0);
    struct timespec o[2]; simtimes(o, ts);
    struct fault *f; int e = begin("utime", fdpath[fd], 0, &f);
    if (e < 0) { errno = -e; return -1; }
    int r = syscall(SYS_utimensat, fd, NULL, o, 0); finish(f); return r;
}
int utimes(const char *path, const struct timeval tv[2])
{
    struct timespec ts[2];
    if (tv) for (int i = 0; i < 2; i++) { ts[i].tv_sec = tv[i].tv_sec; ts[i].tv_nsec = tv[i].tv_usec * 1000; }
    return utimensat(AT_FDCWD, path, tv ? ts : NULL, 0);
}

/* ---- queries ---- */
static void fixstat(const char *p, struct stat *st) { (void)p; st->st_ctim = st->st_mtim; }
static int do_stat(int d, const char *path, struct stat *st, int fl)
{
    if (!on()) return syscall(SYS_newfstatat, d, path, st, fl);
    if ((fl & AT_EMPTY_PATH) && path && !path[0]) return syscall(SYS_newfstatat, d, path, st, fl);
    char p[PATH_MAX * 2]; abspath(d, path, p);
    int in = inroot(p);
    if (in) { yield_point(0, "stat", p); tick(1000 + rnd() % 20000); }
    int r = syscall(SYS_newfstatat, d, path, st, fl);
    if (r == 0 && in) fixstat(p, st);
    return r;
}
int stat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, 0); }
int stat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, (struct stat *)st, 0); }
int lstat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *p, struct stat *st, int fl) { return do_stat(d, p, st, fl); }
int fstatat64(int d, const char *p, struct stat64 *st, int fl) { return do_stat(d, p, (struct stat *)st, fl); }
int __xstat(int v, const char *p, struct stat *st) { (void)v; return do_stat(AT_FDCWD, p, st, 0); }
int __lxstat(int v, const char *p, struct stat *st) { (void)v; return do_stat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int __xstat64(int v, const char *p, struct stat64 *st) { (void)v; return do_stat(AT_FDCWD, p, (struct stat *)st, 0); }
int __lxstat64(int v, const char *p, struct stat64 *st) { (void)v; return do_stat(AT_FDCWD, p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
int statx(int d, const char *path, int fl, unsigned mask, struct statx *sx)
{
    int r = syscall(SYS_statx, d, path, fl, mask, sx);
    if (r == 0 && on()) sx->stx_ctime = sx->stx_mtime;
    return r;
}

/* directory order: read everything, shuffle, hand out */
struct dirbuf { DIR *d; struct dirent64 *e; int n, i; };
static struct dirbuf dirs[32];
static struct dirent64 *next_entry(DIR *d)
{
    REAL(readdir64);
    struct dirbuf *b = NULL, *fr = NULL;
    for (int i = 0; i < 32; i++) { if (dirs[i].d == d) b = &dirs[i]; else if (!dirs[i].d && !fr) fr = &dirs[i]; }
    if (!b) {
        if (!fr) return real_readdir64(d);
        b = fr; b->d = d; b->n = b->i = 0; b->e = NULL;
        struct dirent64 *x; int cap = 0;
        while ((x = real_readdir64(d))) {
            if (b->n == cap) { cap = cap ? cap * 2 : 64; b->e = realloc(b->e, cap * sizeof *b->e); }
            memcpy(&b->e[b->n++], x, x->d_reclen < sizeof *x ? x->d_reclen : sizeof *x);
        }
        /* a canonical order first (the host's own order is not part of the seed), then the seeded one */
        for (int i = 1; i < b->n; i++) for (int j = i; j > 0 && strcmp(b->e[j-1].d_name, b->e[j].d_name) > 0; j--) { struct dirent64 t = b->e[j]; b->e[j] = b->e[j-1]; b->e[j-1] = t; }
        for (int i = b->n - 1; i > 0; i--) { int j = rnd() % (i + 1); struct dirent64 t = b->e[j]; b->e[j] = b->e[i]; b->e[i] = t; }
    }
    return b->i < b->n ? &b->e[b->i++] : NULL;
}
struct dirent64 *readdir64(DIR *d) { REAL(readdir64); if (!on()) return real_readdir64(d); errno = 0; return next_entry(d); }
struct dirent *readdir(DIR *d) { REAL(readdir); if (!on()) return real_readdir(d); errno = 0; return (struct dirent *)next_entry(d); }
int closedir(DIR *d)
{
    REAL(closedir);
    for (int i = 0; i < 32; i++) if (dirs[i].d == d) { free(dirs[i].e); memset(&dirs[i], 0, sizeof dirs[i]); }
    return real_closedir(d);
}

/* ---- clock, pid, randomness ---- */
int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!on() || (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE && c != CLOCK_MONOTONIC && c != CLOCK_MONOTONIC_COARSE && c != CLOCK_MONOTONIC_RAW && c != CLOCK_BOOTTIME))
        return syscall(SYS_clock_gettime, c, ts);
    tick(1000);
    int64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? S->now_ns : S->mono_ns;
    ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL;
    return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    if (!on()) return syscall(SYS_gettimeofday, tv, tz);
    tick(1000);
    tv->tv_sec = S->now_ns / 1000000000LL; tv->tv_usec = S->now_ns % 1000000000LL / 1000;
    return 0;
}
time_t time(time_t *t)
{
    if (!on()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
    tick(1000);
    time_t v = S->now_ns / 1000000000LL; if (t) *t = v; return v;
}
int nanosleep(const struct timespec *r, struct timespec *m)
{
    if (!on()) return syscall(SYS_nanosleep, r, m);
    tick(r->tv_sec * 1000000000LL + r->tv_nsec); yield_point(0, "sleep", ""); return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *m)
{
    if (!on()) { long x = syscall(SYS_clock_nanosleep, c, fl, r, m); return x < 0 ? errno : 0; }
    int64_t v = r->tv_sec * 1000000000LL + r->tv_nsec;
    if (fl & TIMER_ABSTIME) { int64_t nowv = c == CLOCK_REALTIME ? S->now_ns : S->mono_ns; v = v > nowv ? v - nowv : 0; }
    tick(v); yield_point(0, "sleep", ""); return 0;
}
pid_t getpid(void) { if (on() && S->pid) return S->pid; return syscall(SYS_getpid); }
ssize_t getrandom(void *b, size_t n, unsigned fl)
{
    if (!on()) return syscall(SYS_getrandom, b, n, fl);
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = rnd();
    return n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }

/* ---- no real processes and no real signals from inside a simulation ---- */
static int nospawn(const char *what, const char *arg) { S->spawns++; trace("X %s %s\n", what, arg ? arg : ""); errno = ENOSYS; return -1; }
pid_t fork(void) { REAL(fork); if (on()) return nospawn("fork", NULL); return real_fork(); }
int execve(const char *p, char *const a[], char *const v[]) { if (on()) return nospawn("execve", p); return syscall(SYS_execve, p, a, v); }
int execv(const char *p, char *const a[]) { REAL(execv); if (on()) return nospawn("execv", p); return real_execv(p, a); }
int execvp(const char *p, char *const a[]) { REAL(execvp); if (on()) return nospawn("execvp", p); return real_execvp(p, a); }
int system(const char *c) { REAL(system); if (on()) return nospawn("system", c); return real_system(c); }
FILE *popen(const char *c, const char *m) { REAL(popen); if (on()) { nospawn("popen", c); return NULL; } return real_popen(c, m); }
int posix_spawn(pid_t *pid, const char *path, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const a[], char *const v[])
{ REAL(posix_spawn); if (on()) { nospawn("posix_spawn", path); return ENOSYS; } return real_posix_spawn(pid, path, fa, at, a, v); }
int kill(pid_t pid, int sig)
{
    if (!on()) return syscall(SYS_kill, pid, sig);
    if (pid == S->pid || pid == (pid_t)syscall(SYS_getpid)) return syscall(SYS_kill, syscall(SYS_getpid), sig);
    trace("K %d %d\n", pid, sig);
    errno = ESRCH;
    return -1;
}

/* ---- plain binaries: SIMIO_SHM=<file holding the control block> ---- */
__attribute__((constructor)) static void init(void)
{
    const char *p = getenv("SIMIO_SHM");
    if (!p) return;
    int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CLOEXEC, 0);
    if (fd < 0) return;
    struct stat st;
    syscall(SYS_newfstatat, AT_FDCWD, p, &st, 0);
    void *m = mmap(NULL, st.st_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    syscall(SYS_close, fd);
    if (m == MAP_FAILED) return;
    simio_attach(m);
    simio_arm(1);
}
