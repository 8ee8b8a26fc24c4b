/* LD_PRELOAD shim: puts every system call of the simulated process that the
 * properties depend on (files, directories, clock, randomness, pid, sleep,
 * locks) behind a seam owned by the scheduler.
 *
 * The shim is inert until sim_activate() is called (or SIM_FD/SIM_ROOT are in
 * the environment).  Afterwards every call on a path below SIM_ROOT is
 * announced on a SOCK_SEQPACKET socket and blocks until the scheduler answers
 * with a verdict.  Calls that would change anything outside SIM_ROOT are
 * refused with EACCES and reported.
 *
 * message  : "<op>\t<path>\t<path2>\t<arg>"          (paths relative to root)
 * report   : "!<op>\t<path>\t\t"                     (escape attempt, no reply)
 * verdict  : "<code> <a> <b> <now_ns>"
 *   0 proceed | 1 fail errno=a | 2 proceed with at most a bytes
 *   3 die before | 4 die after | 5 write a bytes, then die
 *   6 raise SIGINT, then fail with EINTR | 7 do it, then fail errno=a
 *   8 raise signal a, then proceed
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/random.h>
#include <sys/select.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sched.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 1024
#define PMAX 4096

static int sock = -1;                 /* active when >= 0 */
static char root[PMAX];
static size_t rootlen;
static int64_t now_ns = 1600000000000000000LL;
static uint64_t rng_state;
static int vpid = 4242;
static int owner_pid;
static char *fdpath[MAXFD];           /* tracked regular files below root */
static char fdwrote[MAXFD];
static int stdsim;                    /* announce writes to fd 1 and 2 too */
static pthread_mutex_t mu = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static long sysc(long n, long a, long b, long c, long d, long e) {
    return syscall(n, a, b, c, d, e);
}

static void die(void) {
    sysc(SYS_kill, sysc(SYS_getpid, 0, 0, 0, 0, 0), SIGKILL, 0, 0, 0);
    for (;;) sysc(SYS_pause, 0, 0, 0, 0, 0);
}

static int active(void) {
    return sock >= 0;
}

struct verdict { int code; long a, b; };

static struct verdict ask(const char *op, const char *p, const char *q, long arg) {
    struct verdict v = {0, 0, 0};
    char buf[3 * PMAX];
    int n = snprintf(buf, sizeof buf, "%s\t%s\t%s\t%ld", op, p ? p : "", q ? q : "", arg);
    int e = errno;
    pthread_mutex_lock(&mu);
    if (sysc(SYS_sendto, sock, (long)buf, n, MSG_NOSIGNAL, 0) != n) die();
    for (;;) {
        long r = sysc(SYS_recvfrom, sock, (long)buf, sizeof buf - 1, 0, 0);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) die();
        buf[r] = 0;
        break;
    }
    long long t = now_ns;
    sscanf(buf, "%d %ld %ld %lld", &v.code, &v.a, &v.b, &t);
    now_ns = t;
    pthread_mutex_unlock(&mu);
    errno = e;
    return v;
}

static void report(const char *op, const char *p) {
    char buf[2 * PMAX];
    int n = snprintf(buf, sizeof buf, "!%s\t%s\t\t0", op, p ? p : "");
    int e = errno;
    sysc(SYS_sendto, sock, (long)buf, n, MSG_NOSIGNAL, 0);
    errno = e;
}

/* canonical absolute path of (dirfd, path); symlinks of the parent resolved */
static int canon(int dirfd, const char *path, char *out) {
    char tmp[2 * PMAX];
    if (!path || strlen(path) >= PMAX) return -1;
    if (path[0] == '/') {
        snprintf(tmp, sizeof tmp, "%s", path);
    } else {
        char base[PMAX];
        if (dirfd == AT_FDCWD) {
            if (sysc(SYS_getcwd, (long)base, sizeof base, 0, 0, 0) < 0) return -1;
        } else {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            long r = sysc(SYS_readlinkat, AT_FDCWD, (long)l, (long)base, sizeof base - 1, 0);
            if (r < 0) return -1;
            base[r] = 0;
        }
        snprintf(tmp, sizeof tmp, "%s/%s", base, path);
    }
    /* lexical clean-up, following symlinks of prefixes */
    char cur[2 * PMAX] = "";
    int links = 0;
restart:
    cur[0] = 0;
    {
        char work[2 * PMAX];
        snprintf(work, sizeof work, "%s", tmp);
        char *p = work;
        while (*p) {
            while (*p == '/') p++;
            if (!*p) break;
            char *q = strchrnul(p, '/');
            size_t len = q - p;
            if (len == 1 && p[0] == '.') { p = q; continue; }
            if (len == 2 && p[0] == '.' && p[1] == '.') {
                char *s = strrchr(cur, '/');
                if (s) *s = 0;
                p = q;
                continue;
            }
            size_t cl = strlen(cur);
            if (cl + len + 2 > PMAX) return -1;
            cur[cl] = '/';
            memcpy(cur + cl + 1, p, len);
            cur[cl + 1 + len] = 0;
            char lk[PMAX];
            long r = sysc(SYS_readlinkat, AT_FDCWD, (long)cur, (long)lk, sizeof lk - 1, 0);
            if (r > 0 && links++ < 20) {
                lk[r] = 0;
                char rest[2 * PMAX];
                snprintf(rest, sizeof rest, "%s", q);
                cur[cl] = 0;
                if (lk[0] == '/') snprintf(tmp, sizeof tmp, "%.4000s%.4000s", lk, rest);
                else snprintf(tmp, sizeof tmp, "%.2600s/%.2600s%.2600s", cur, lk, rest);
                goto restart;
            }
            p = q;
        }
    }
    if (!cur[0]) strcpy(cur, "/");
    strcpy(out, cur);
    return 0;
}

/* 1: below root (rel set), 0: elsewhere */
static int inroot(int dirfd, const char *path, char *rel) {
    char abs[2 * PMAX];
    int e = errno;
    int r = canon(dirfd, path, abs);
    errno = e;
    if (r < 0) { rel[0] = 0; return 0; }
    if (strncmp(abs, root, rootlen) == 0 && (abs[rootlen] == '/' || abs[rootlen] == 0)) {
        snprintf(rel, PMAX, "%s", abs[rootlen] ? abs + rootlen + 1 : ".");
        return 1;
    }
    snprintf(rel, PMAX, "%s", abs);
    return 0;
}

static int allowed_outside(const char *abs) {
    return !strcmp(abs, "/dev/null") || !strcmp(abs, "/dev/tty") ||
           !strcmp(abs, "/dev/full") || !strncmp(abs, "/proc/self/", 11);
}

static void stamp(const char *path) {
    int e = errno;
    struct timespec ts[2];
    ts[0].tv_sec = ts[1].tv_sec = now_ns / 1000000000LL;
    ts[0].tv_nsec = ts[1].tv_nsec = now_ns % 1000000000LL;
    sysc(SYS_utimensat, AT_FDCWD, (long)path, (long)ts, 0, 0);
    errno = e;
}

static void stamp_fd(int fd) {
    int e = errno;
    struct timespec ts[2];
    ts[0].tv_sec = ts[1].tv_sec = now_ns / 1000000000LL;
    ts[0].tv_nsec = ts[1].tv_nsec = now_ns % 1000000000LL;
    sysc(SYS_utimensat, fd, 0, (long)ts, 0, 0);
    errno = e;
}

static void stamp_rel(const char *rel) {
    char b[2 * PMAX];
    snprintf(b, sizeof b, "%s/%s", root, rel);
    stamp(b);
    char *s = strrchr(b, '/');
    if (s && (size_t)(s - b) >= rootlen) { *s = 0; stamp(b); }
}

/* ---------------------------------------------------------- activation */

static uint64_t machine;        /* decides host name, parent, number of processors */

void sim_activate(int fd, const char *r, uint64_t seed, int64_t t0, int pid, int std) {
    snprintf(root, sizeof root, "%s", r);
    rootlen = strlen(root);
    rng_state = seed * 2862933555777941757ULL + 3037000493ULL;
    now_ns = t0;
    machine = seed;
    vpid = pid;
    stdsim = std;
    owner_pid = (int)sysc(SYS_getpid, 0, 0, 0, 0, 0);
    sock = fd;
}

__attribute__((constructor)) static void init(void) {
    const char *f = getenv("SIM_FD");
    if (!f) return;
    const char *r = getenv("SIM_ROOT"), *s = getenv("SIM_SEED"), *t = getenv("SIM_T0"),
               *p = getenv("SIM_PID"), *d = getenv("SIM_STD");
    sim_activate(atoi(f), r ? r : "/nonexistent", s ? strtoull(s, 0, 10) : 1,
                 t ? atoll(t) : now_ns, p ? atoi(p) : 4242, d ? atoi(d) : 0);
}

/* a virtual clock and seeded randomness without a scheduler (start-up of the
 * zygote) */
static int virt;
void sim_virtual(uint64_t seed, int64_t t0) {
    rng_state = seed * 2862933555777941757ULL + 3037000493ULL;
    now_ns = t0;
    virt = 1;
}

static uint64_t rnd(void);
static uint64_t rnd(void) {
    rng_state ^= rng_state << 13;
    rng_state ^= rng_state >> 7;
    rng_state ^= rng_state << 17;
    return rng_state;
}

/* verdicts for calls without partial results: returns 1 when the real call is
 * to be done, 0 when the call has failed already (errno set) */
#define PRE(op, p, q, arg) \
    struct verdict v = ask(op, p, q, arg); \
    if (v.code == 1) { errno = (int)v.a; return -1; } \
    if (v.code == 3 || v.code == 5) die(); \
    if (v.code == 6) { raise(SIGINT); errno = EINTR; return -1; } \
    if (v.code == 8) raise((int)v.a)
#define POST() \
    do { if (v.code == 4) die(); \
         if (v.code == 7) { errno = (int)v.a; return -1; } } while (0)

/* ---------------------------------------------------------------- files */

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    if (!active()) return (int)sysc(SYS_openat, dirfd, (long)path, flags, mode, 0);
    char rel[2 * PMAX];
    int mut = (flags & (O_CREAT | O_TRUNC | O_APPEND)) || (flags & O_ACCMODE) != O_RDONLY;
    if (!inroot(dirfd, path, rel)) {
        if (mut && !allowed_outside(rel)) {
            report("open", rel);
            errno = EACCES;
            return -1;
        }
        return (int)sysc(SYS_openat, dirfd, (long)path, flags, mode, 0);
    }
    PRE(mut ? "openw" : "openr", rel, "", flags);
    int fd = (int)sysc(SYS_openat, dirfd, (long)path, flags, mode, 0);
    if (fd >= 0) {
        if (fd < MAXFD) {
            free(fdpath[fd]);
            fdpath[fd] = strdup(rel);
            fdwrote[fd] = 0;
        }
        if (mut) { fdwrote[fd < MAXFD ? fd : 0] |= (flags & O_TRUNC) != 0; if (flags & (O_TRUNC | O_CREAT)) stamp_fd(fd); }
        if (v.code == 4) die();
        if (v.code == 7) {
            sysc(SYS_close, fd, 0, 0, 0, 0);
            if (fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = 0; }
            errno = (int)v.a;
            return -1;
        }
    }
    return fd;
}

#define VAMODE(flags) \
    mode_t mode = 0; \
    if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }

int open(const char *p, int flags, ...) { VAMODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { VAMODE(flags) return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { VAMODE(flags) return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { VAMODE(flags) return do_open(d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static const char *tracked(int fd) {
    if (!active() || fd < 0 || fd >= MAXFD) return 0;
    if (fdpath[fd]) return fdpath[fd];
    if (stdsim && (fd == 1 || fd == 2)) return fd == 1 ? "<stdout>" : "<stderr>";
    return 0;
}

FILE *fopen64(const char *path, const char *mode) {
    REAL(FILE *, fopen64, const char *, const char *);
    char rel[2 * PMAX];
    if (active() && strpbrk(mode, "wa+") && !inroot(AT_FDCWD, path, rel) && !allowed_outside(rel)) {
        report("open", rel);
        errno = EACCES;
        return 0;
    }
    return real_fopen64(path, mode);
}

ssize_t read(int fd, void *b, size_t n) {
    const char *p = tracked(fd);
    if (!p || p[0] == '<') return sysc(SYS_read, fd, (long)b, n, 0, 0);
    PRE("read", p, "", (long)n);
    if (v.code == 2 && (size_t)v.a < n) n = v.a;
    ssize_t r = sysc(SYS_read, fd, (long)b, n, 0, 0);
    POST();
    return r;
}

ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    const char *p = tracked(fd);
    if (!p || p[0] == '<') return sysc(SYS_pread64, fd, (long)b, n, o, 0);
    PRE("read", p, "", (long)n);
    if (v.code == 2 && (size_t)v.a < n) n = v.a;
    ssize_t r = sysc(SYS_pread64, fd, (long)b, n, o, 0);
    POST();
    return r;
}

static ssize_t write_common(int fd, const void *b, size_t n, off64_t o, int at) {
    const char *p = tracked(fd);
    if (!p) return at ? sysc(SYS_pwrite64, fd, (long)b, n, o, 0) : sysc(SYS_write, fd, (long)b, n, 0, 0);
    struct verdict v = ask("write", p, "", (long)n);
    if (v.code == 1) { errno = (int)v.a; return -1; }
    if (v.code == 3) die();
    if (v.code == 6) { raise(SIGINT); errno = EINTR; return -1; }
    if (v.code == 8) raise((int)v.a);
    if ((v.code == 2 || v.code == 5) && (size_t)v.a < n) n = v.a;
    ssize_t r = at ? sysc(SYS_pwrite64, fd, (long)b, n, o, 0) : sysc(SYS_write, fd, (long)b, n, 0, 0);
    if (p[0] != '<') { fdwrote[fd] = 1; stamp_fd(fd); }
    if (v.code == 5) die();
    POST();
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return write_common(fd, b, n, 0, 0); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return write_common(fd, b, n, o, 1); }

ssize_t writev(int fd, const struct iovec *io, int c) {
    const char *p = tracked(fd);
    if (!p) return sysc(SYS_writev, fd, (long)io, c, 0, 0);
    for (int i = 0; i < c; i++)            /* a short writev is legal */
        if (io[i].iov_len) return write_common(fd, io[i].iov_base, io[i].iov_len, 0, 0);
    return 0;
}
ssize_t readv(int fd, const struct iovec *io, int c) {
    const char *p = tracked(fd);
    if (!p || p[0] == '<') return sysc(SYS_readv, fd, (long)io, c, 0, 0);
    for (int i = 0; i < c; i++)
        if (io[i].iov_len) return read(fd, io[i].iov_base, io[i].iov_len);
    return 0;
}

int close(int fd) {
    const char *p = tracked(fd);
    if (!p || p[0] == '<') return (int)sysc(SYS_close, fd, 0, 0, 0, 0);
    struct verdict v = ask("close", p, "", fdwrote[fd]);
    if (v.code == 3 || v.code == 5) die();
    if (v.code == 8) raise((int)v.a);
    if (fdwrote[fd]) stamp_fd(fd);
    free(fdpath[fd]);
    fdpath[fd] = 0;
    int r = (int)sysc(SYS_close, fd, 0, 0, 0, 0);
    if (v.code == 4) die();
    if (v.code == 1 || v.code == 7) { errno = (int)v.a; return -1; }
    if (v.code == 6) raise(SIGINT);
    return r;
}

static void copyfd(int a, int b) {
    if (b < 0 || b >= MAXFD) return;
    free(fdpath[b]);
    fdpath[b] = a >= 0 && a < MAXFD && fdpath[a] ? strdup(fdpath[a]) : 0;
    fdwrote[b] = 0;
}
int dup(int a) { int r = (int)sysc(SYS_dup, a, 0, 0, 0, 0); if (active() && r >= 0) copyfd(a, r); return r; }
int dup2(int a, int b) {
    if (a == b) { return (int)sysc(SYS_fcntl, a, F_GETFD, 0, 0, 0) < 0 ? -1 : b; }
    int r = (int)sysc(SYS_dup3, a, b, 0, 0, 0);
    if (active() && r >= 0) copyfd(a, r);
    return r;
}
int dup3(int a, int b, int f) { int r = (int)sysc(SYS_dup3, a, b, f, 0, 0); if (active() && r >= 0) copyfd(a, r); return r; }

int fsync(int fd) {
    const char *p = tracked(fd);
    if (!p || p[0] == '<') return (int)sysc(SYS_fsync, fd, 0, 0, 0, 0);
    PRE("fsync", p, "", 0);
    POST();
    return 0;
}
int fdatasync(int fd) { return fsync(fd); }

int ftruncate64(int fd, off64_t n) {
    const char *p = tracked(fd);
    if (!p || p[0] == '<') return (int)sysc(SYS_ftruncate, fd, n, 0, 0, 0);
    PRE("ftruncate", p, "", (long)n);
    int r = (int)sysc(SYS_ftruncate, fd, n, 0, 0, 0);
    fdwrote[fd] = 1;
    stamp_fd(fd);
    POST();
    return r;
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }

ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    const char *p = tracked(o);
    if (!p) return sysc(SYS_sendfile, o, i, (long)off, n, 0);
    PRE("write", p, "", (long)n);
    if (v.code == 2 && (size_t)v.a < n) n = v.a;
    ssize_t r = sysc(SYS_sendfile, o, i, (long)off, n, 0);
    if (p[0] != '<') { fdwrote[o] = 1; stamp_fd(o); }
    POST();
    return r;
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
    const char *p = tracked(o);
    if (!p) return syscall(SYS_copy_file_range, i, io, o, oo, n, f);
    PRE("write", p, "", (long)n);
    if (v.code == 2 && (size_t)v.a < n) n = v.a;
    ssize_t r = syscall(SYS_copy_file_range, i, io, o, oo, n, f);
    if (p[0] != '<') { fdwrote[o] = 1; stamp_fd(o); }
    POST();
    return r;
}

/* ---------------------------------------------------------------- paths */

#define PATHMUT(op, dirfd, path, arg, call) do { \
    char rel[2 * PMAX]; \
    if (active()) { \
        if (!inroot(dirfd, path, rel)) { \
            struct stat st_; \
            /* a directory that is already there cannot be made: no escape */ \
            if (!strcmp(op, "mkdir") && sysc(SYS_newfstatat, dirfd, (long)path, (long)&st_, 0, 0) == 0) { errno = EEXIST; return -1; } \
            report(op, rel); errno = EACCES; return -1; } \
        PRE(op, rel, "", arg); \
        int r_ = (int)(call); \
        if (r_ == 0) stamp_rel(rel); \
        POST(); \
        return r_; \
    } \
    return (int)(call); \
} while (0)

/* path operations on the last component itself: the parent decides */
static int inroot_nofollow(int dirfd, const char *path, char *rel) {
    char t[PMAX], last[PMAX];
    if (!path) { rel[0] = 0; return 0; }
    snprintf(t, sizeof t, "%s", path);
    size_t l = strlen(t);
    while (l > 1 && t[l - 1] == '/') t[--l] = 0;
    char *s = strrchr(t, '/');
    if (!s) {
        snprintf(last, sizeof last, "%s", t);
        strcpy(t, ".");
    } else {
        snprintf(last, sizeof last, "%s", s + 1);
        if (s == t) s[1] = 0; else *s = 0;
    }
    int r = inroot(dirfd, t, rel);
    size_t n = strlen(rel);
    if (r && !strcmp(rel, ".")) snprintf(rel, PMAX, "%s", last);
    else snprintf(rel + n, 2 * PMAX - n, "/%s", last);
    return r;
}

#define PATHMUTNF(op, dirfd, path, arg, call) do { \
    char rel[2 * PMAX]; \
    if (active()) { \
        if (!inroot_nofollow(dirfd, path, rel)) { report(op, rel); errno = EACCES; return -1; } \
        PRE(op, rel, "", arg); \
        int r_ = (int)(call); \
        POST(); \
        return r_; \
    } \
    return (int)(call); \
} while (0)

int mkdir(const char *p, mode_t m) { PATHMUT("mkdir", AT_FDCWD, p, m, sysc(SYS_mkdirat, AT_FDCWD, (long)p, m, 0, 0)); }
int mkdirat(int d, const char *p, mode_t m) { PATHMUT("mkdir", d, p, m, sysc(SYS_mkdirat, d, (long)p, m, 0, 0)); }
int unlink(const char *p) { PATHMUTNF("unlink", AT_FDCWD, p, 0, sysc(SYS_unlinkat, AT_FDCWD, (long)p, 0, 0, 0)); }
int unlinkat(int d, const char *p, int f) { PATHMUTNF("unlink", d, p, f, sysc(SYS_unlinkat, d, (long)p, f, 0, 0)); }
int remove(const char *p) { PATHMUTNF("unlink", AT_FDCWD, p, 0, sysc(SYS_unlinkat, AT_FDCWD, (long)p, 0, 0, 0)); }
int rmdir(const char *p) { PATHMUTNF("rmdir", AT_FDCWD, p, 0, sysc(SYS_unlinkat, AT_FDCWD, (long)p, AT_REMOVEDIR, 0, 0)); }
int truncate64(const char *p, off64_t n) { PATHMUT("truncate", AT_FDCWD, p, (long)n, sysc(SYS_truncate, (long)p, n, 0, 0, 0)); }
int truncate(const char *p, off_t n) { return truncate64(p, n); }
int chmod(const char *p, mode_t m) { PATHMUTNF("chmod", AT_FDCWD, p, m, sysc(SYS_fchmodat, AT_FDCWD, (long)p, m, 0, 0)); }
int fchmodat(int d, const char *p, mode_t m, int f) { PATHMUTNF("chmod", d, p, m, sysc(SYS_fchmodat, d, (long)p, m, 0, 0)); }
int fchmod(int fd, mode_t m) {
    const char *p = tracked(fd);
    if (!p || p[0] == '<') return (int)sysc(SYS_fchmod, fd, m, 0, 0, 0);
    PRE("chmod", p, "", m);
    int r = (int)sysc(SYS_fchmod, fd, m, 0, 0, 0);
    POST();
    return r;
}
int chown(const char *p, uid_t u, gid_t g) { PATHMUTNF("chown", AT_FDCWD, p, 0, sysc(SYS_fchownat, AT_FDCWD, (long)p, u, g, 0)); }
int mknod(const char *p, mode_t m, dev_t d) { PATHMUTNF("mknod", AT_FDCWD, p, m, sysc(SYS_mknodat, AT_FDCWD, (long)p, m, d, 0)); }
int utimensat(int d, const char *p, const struct timespec ts[2], int f) {
    if (!active() || !p) return (int)sysc(SYS_utimensat, d, (long)p, (long)ts, f, 0);
    PATHMUTNF("utime", d, p, 0, sysc(SYS_utimensat, d, (long)p, (long)ts, f, 0));
}
int symlink(const char *t, const char *p) { PATHMUTNF("symlink", AT_FDCWD, p, 0, sysc(SYS_symlinkat, (long)t, AT_FDCWD, (long)p, 0, 0)); }
int symlinkat(const char *t, int d, const char *p) { PATHMUTNF("symlink", d, p, 0, sysc(SYS_symlinkat, (long)t, d, (long)p, 0, 0)); }

static int do_two(const char *op, int d1, const char *p1, int d2, const char *p2, int islink, int flags) {
    long (*f)(long, long, long, long, long, long) = sysc;
    if (active()) {
        char r1[2 * PMAX], r2[2 * PMAX];
        int a = inroot_nofollow(d1, p1, r1), b = inroot_nofollow(d2, p2, r2);
        if ((!a && !islink) || !b) { report(op, a ? r2 : r1); errno = EACCES; return -1; }
        PRE(op, r1, r2, 0);
        int r = (int)(islink ? f(SYS_linkat, d1, (long)p1, d2, (long)p2, flags)
                             : f(SYS_renameat, d1, (long)p1, d2, (long)p2, 0));
        if (r == 0 && islink == 0) stamp_rel(r2);
        POST();
        return r;
    }
    return (int)(islink ? f(SYS_linkat, d1, (long)p1, d2, (long)p2, flags)
                        : f(SYS_renameat, d1, (long)p1, d2, (long)p2, 0));
}
int rename(const char *a, const char *b) { return do_two("rename", AT_FDCWD, a, AT_FDCWD, b, 0, 0); }
int renameat(int d, const char *a, int e, const char *b) { return do_two("rename", d, a, e, b, 0, 0); }
int link(const char *a, const char *b) { return do_two("link", AT_FDCWD, a, AT_FDCWD, b, 1, 0); }
int linkat(int d, const char *a, int e, const char *b, int f) { return do_two("link", d, a, e, b, 1, f); }

#define PATHRO(op, dirfd, path, call) do { \
    char rel[2 * PMAX]; \
    if (active() && (path) && (path)[0] && inroot(dirfd, path, rel)) { \
        PRE(op, rel, "", 0); \
        int r_ = (int)(call); \
        POST(); \
        return r_; \
    } \
    return (int)(call); \
} while (0)

int stat(const char *p, struct stat *s) { PATHRO("stat", AT_FDCWD, p, sysc(SYS_newfstatat, AT_FDCWD, (long)p, (long)s, 0, 0)); }
int stat64(const char *p, struct stat64 *s) { PATHRO("stat", AT_FDCWD, p, sysc(SYS_newfstatat, AT_FDCWD, (long)p, (long)s, 0, 0)); }
int lstat(const char *p, struct stat *s) { PATHRO("stat", AT_FDCWD, p, sysc(SYS_newfstatat, AT_FDCWD, (long)p, (long)s, AT_SYMLINK_NOFOLLOW, 0)); }
int lstat64(const char *p, struct stat64 *s) { PATHRO("stat", AT_FDCWD, p, sysc(SYS_newfstatat, AT_FDCWD, (long)p, (long)s, AT_SYMLINK_NOFOLLOW, 0)); }
int fstatat(int d, const char *p, struct stat *s, int f) { PATHRO("stat", d, p, sysc(SYS_newfstatat, d, (long)p, (long)s, f, 0)); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { PATHRO("stat", d, p, sysc(SYS_newfstatat, d, (long)p, (long)s, f, 0)); }
int fstat64(int fd, struct stat64 *s) {
    const char *p = tracked(fd);
    if (!p || p[0] == '<') return (int)sysc(SYS_fstat, fd, (long)s, 0, 0, 0);
    PRE("fstat", p, "", 0);
    int r = (int)sysc(SYS_fstat, fd, (long)s, 0, 0, 0);
    POST();
    return r;
}
int fstat(int fd, struct stat *s) { return fstat64(fd, (struct stat64 *)s); }
int access(const char *p, int m) { PATHRO("access", AT_FDCWD, p, sysc(SYS_faccessat, AT_FDCWD, (long)p, m, 0, 0)); }
int faccessat(int d, const char *p, int m, int f) { PATHRO("access", d, p, sysc(SYS_faccessat, d, (long)p, m, 0, 0)); }

/* directory listings come in a seeded order */
struct listing { DIR *d; struct dirent64 *ents; int n, i; struct listing *next; };
static struct listing *listings;

DIR *opendir(const char *p) {
    REAL(DIR *, opendir, const char *);
    char rel[2 * PMAX];
    if (active() && inroot(AT_FDCWD, p, rel)) {
        struct verdict v = ask("opendir", rel, "", 0);
        if (v.code == 1) { errno = (int)v.a; return 0; }
        if (v.code >= 3 && v.code <= 5) die();
        DIR *d = real_opendir(p);
        if (!d) return 0;
        static struct dirent64 *(*rr)(DIR *);
        if (!rr) rr = dlsym(RTLD_NEXT, "readdir64");
        struct listing *l = calloc(1, sizeof *l);
        l->d = d;
        struct dirent64 *e;
        while ((e = rr(d))) {
            l->ents = realloc(l->ents, (l->n + 1) * sizeof *l->ents);
            memcpy(&l->ents[l->n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
        }
        for (int i = 1; i < l->n; i++)       /* canonical, then seeded order */
            for (int j = i; j > 0 && strcmp(l->ents[j - 1].d_name, l->ents[j].d_name) > 0; j--) {
                struct dirent64 t = l->ents[j]; l->ents[j] = l->ents[j - 1]; l->ents[j - 1] = t;
            }
        for (int i = l->n - 1; i > 0; i--) {
            int j = rnd() % (i + 1);
            struct dirent64 t = l->ents[j]; l->ents[j] = l->ents[i]; l->ents[i] = t;
        }
        l->next = listings;
        listings = l;
        return d;
    }
    return real_opendir(p);
}
struct dirent64 *readdir64(DIR *d) {
    REAL(struct dirent64 *, readdir64, DIR *);
    for (struct listing *l = listings; l; l = l->next)
        if (l->d == d) return l->i < l->n ? &l->ents[l->i++] : 0;
    return real_readdir64(d);
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
    REAL(int, closedir, DIR *);
    for (struct listing **l = &listings; *l; l = &(*l)->next)
        if ((*l)->d == d) { struct listing *x = *l; *l = x->next; free(x->ents); free(x); break; }
    return real_closedir(d);
}

/* locks: a lock that is taken yields to the scheduler */
int flock(int fd, int op) {
    const char *p = tracked(fd);
    if (!p) return (int)sysc(SYS_flock, fd, op, 0, 0, 0);
    for (;;) {
        PRE("flock", p, "", op);
        int r = (int)sysc(SYS_flock, fd, op | LOCK_NB, 0, 0, 0);
        if (r == 0 || errno != EWOULDBLOCK || (op & LOCK_NB)) { POST(); return r; }
    }
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (active() && (cmd == F_SETLKW || cmd == F_OFD_SETLKW) && tracked(fd)) {
        for (;;) {
            PRE("flock", tracked(fd), "", cmd);
            int r = (int)sysc(SYS_fcntl, fd, cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK, arg, 0, 0);
            if (r == 0 || (errno != EAGAIN && errno != EACCES)) { POST(); return r; }
        }
    }
    int r = (int)sysc(SYS_fcntl, fd, cmd, arg, 0, 0);
    if (active() && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0) copyfd(fd, r);
    return r;
}

/* --------------------------------------------------- time, randomness, pid */

static int64_t drift, pace;     /* a slow machine: time passes between two looks at the clock */
void sim_pace(int64_t ns) { pace = ns; drift = 0; }
static int64_t simtime(void) { return now_ns + (drift += pace); }

int clock_gettime(clockid_t c, struct timespec *t) {
    if (!(active() || virt))
        return (int)sysc(SYS_clock_gettime, c, (long)t, 0, 0, 0);
    int64_t n = simtime();
    t->tv_sec = n / 1000000000LL;
    t->tv_nsec = n % 1000000000LL;
    return 0;
}
time_t time(time_t *p) {
    time_t r;
    if (active() || virt) r = simtime() / 1000000000LL;
    else { struct timespec t; sysc(SYS_clock_gettime, CLOCK_REALTIME, (long)&t, 0, 0, 0); r = t.tv_sec; }
    if (p) *p = r;
    return r;
}
int gettimeofday(struct timeval *tv, void *tz) {
    if (!active() && !virt) { struct timespec t; sysc(SYS_clock_gettime, CLOCK_REALTIME, (long)&t, 0, 0, 0); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
    int64_t n = simtime();
    tv->tv_sec = n / 1000000000LL;
    tv->tv_usec = n % 1000000000LL / 1000;
    return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *rq, struct timespec *rm) {
    if (!active()) { long r = sysc(SYS_clock_nanosleep, c, f, (long)rq, (long)rm, 0); return r < 0 ? errno : 0; }
    long ms = rq->tv_sec * 1000 + rq->tv_nsec / 1000000;
    if (f & TIMER_ABSTIME) ms = (rq->tv_sec * 1000000000LL + rq->tv_nsec - now_ns) / 1000000;
    struct verdict v = ask("sleep", "", "", ms);
    if (v.code >= 3 && v.code <= 5) die();
    return 0;
}
int nanosleep(const struct timespec *rq, struct timespec *rm) {
    if (!active()) return (int)sysc(SYS_nanosleep, (long)rq, (long)rm, 0, 0, 0);
    struct verdict v = ask("sleep", "", "", rq->tv_sec * 1000 + rq->tv_nsec / 1000000);
    if (v.code >= 3 && v.code <= 5) die();
    return 0;
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    if (active() && n == 0 && tv) {
        struct verdict v = ask("sleep", "", "", tv->tv_sec * 1000 + tv->tv_usec / 1000);
        if (v.code >= 3 && v.code <= 5) die();
        return 0;
    }
    return (int)sysc(SYS_select, n, (long)r, (long)w, (long)e, (long)tv);
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!active() && !virt) return sysc(SYS_getrandom, (long)b, n, f, 0, 0);
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = rnd() >> 24;
    return n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
pid_t getpid(void) {
    if (!active() || sysc(SYS_getpid, 0, 0, 0, 0, 0) != owner_pid) return (pid_t)sysc(SYS_getpid, 0, 0, 0, 0, 0);
    return vpid;
}
int kill(pid_t p, int s) {
    if (active() && p == vpid) p = owner_pid;
    return (int)sysc(SYS_kill, p, s, 0, 0, 0);
}

pid_t getppid(void) {
    if (!active()) return (pid_t)sysc(SYS_getppid, 0, 0, 0, 0, 0);
    return (pid_t)(2 + machine % 30000);
}
int uname(struct utsname *u) {
    int r = (int)sysc(SYS_uname, (long)u, 0, 0, 0, 0);
    if (active() && r == 0) {
        static const char *const names[] = {"node", "build", "ci-runner-", "localhost", "ws", "apg-dev"};
        snprintf(u->nodename, sizeof u->nodename, "%s%llu", names[machine % 6], (unsigned long long)(machine % 100000));
        snprintf(u->release, sizeof u->release, "6.%llu.0", (unsigned long long)(machine % 17));
    }
    return r;
}
int gethostname(char *b, size_t n) {
    struct utsname u;
    if (uname(&u)) return -1;
    snprintf(b, n, "%s", u.nodename);
    return 0;
}
long sysconf(int n) {
    static long (*real)(int);
    if (!real) real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
    if (active() && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return 1 + machine % 64;
    return real(n);
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *c) {
    if (!active()) return sysc(SYS_sched_getaffinity, p, n, (long)c, 0, 0) < 0 ? -1 : 0;
    memset(c, 0, n);
    for (size_t i = 0; i < 1 + machine % 64 && i < n * 8; i++) ((unsigned char *)c)[i / 8] |= 1 << (i % 8);
    return 0;
}

/* harness calls from inside the simulated process */
long sim_mark(const char *what, long arg) {
    if (!active()) return 0;
    struct verdict v = ask("mark", what, "", arg);
    if (v.code >= 3 && v.code <= 5) die();
    return v.a;
}
