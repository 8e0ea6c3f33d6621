/* LD_PRELOAD shim used by the model-checking harnesses.
 *
 *  1. virtual CLOCK_REALTIME (optional): the harness sets "now" in ns.
 *  2. logical file times: every modification of a file below the scratch root
 *     gets a fresh, strictly increasing mtime (or one the harness dictates).
 *  3. scheduling / crash / fault points: when enabled in a process, every file
 *     system call below the scratch root first asks the controller (over a pair
 *     of pipes) what to do: go on, die, write only n bytes and die, or fail.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dirent.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

struct shared {
    int64_t clock_on;      /* 0: real */
    int64_t clock_ns;      /* virtual now */
    int64_t clock_step;    /* added after every read */
    int64_t clock_reads;
    int64_t mt_on;         /* logical mtimes */
    int64_t mt_ns;         /* last mtime handed out */
    int64_t mt_step;
};
static struct shared *S;
static char root[PATH_MAX];
static size_t rootlen;
static int req_fd = -1, rep_fd = -1;   /* controller pipes, -1 = no points */
static int64_t mono_ns;                /* how much later the monotonic clock is: a second per wake-up while waiting, five at most */
static int in_shim;
#define MAXFD 4096
static unsigned char tracked[MAXFD];
static char *fdpath[MAXFD];
static dev_t fddev[MAXFD];
static ino_t fdino[MAXFD];

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

__attribute__((constructor)) static void init(void) {
    if (!S) {
        S = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (S == MAP_FAILED) abort();
        memset(S, 0, sizeof *S);
        S->mt_ns = 1600000000000000000LL;
        S->mt_step = 1000000;
    }
}

/* ---- control interface (ctypes) ---- */
int mc_present(void) { return 1; }
/* a page of its own for this process and its children */
void mc_private(void) {
    struct shared *n = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (n == MAP_FAILED) abort();
    memcpy(n, S, sizeof *n);
    S = n;
}
void mc_set_root(const char *p) { strncpy(root, p, sizeof root - 1); rootlen = strlen(root); }
void mc_clock_set(int64_t ns, int64_t step) { S->clock_ns = ns; S->clock_step = step; S->clock_on = 1; S->clock_reads = 0; }
void mc_clock_off(void) { S->clock_on = 0; }
int64_t mc_clock_get(void) { return S->clock_ns; }
int64_t mc_clock_reads(void) { return S->clock_reads; }
void mc_mtime(int on, int64_t step) { S->mt_on = on; S->mt_step = step; }
void mc_mtime_at(int64_t ns) { S->mt_ns = ns; }
int64_t mc_mtime_now(void) { return S->mt_ns; }
void mc_sched(int req, int rep) { req_fd = req; rep_fd = rep; }

/* ---- clock ---- */
static int64_t vnow(void) {
    int64_t n = S->clock_ns;
    S->clock_ns += S->clock_step;
    S->clock_reads++;
    return n;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!S) init();
    if (S->clock_on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        int64_t n = vnow();
        ts->tv_sec = n / 1000000000LL; ts->tv_nsec = n % 1000000000LL;
        if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000LL; ts->tv_sec--; }
        return 0;
    }
    int r = syscall(SYS_clock_gettime, id, ts);
    if (r == 0 && mono_ns && (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME))
        ts->tv_sec += mono_ns / 1000000000LL;
    return r;
}
time_t time(time_t *t) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}

/* ---- helpers ---- */
static int is_tracked(int fd);
static int under(int dirfd, const char *p, char *out) {
    if (!rootlen || !p || in_shim) return 0;
    if (p[0] == '/') {
        if (strncmp(p, root, rootlen) || (p[rootlen] && p[rootlen] != '/')) return 0;
        snprintf(out, PATH_MAX, "%s", p + rootlen);
        return 1;
    }
    char base[PATH_MAX];
    if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
    else if (dirfd >= 0 && is_tracked(dirfd)) snprintf(base, sizeof base, "%s%s", root, fdpath[dirfd]);
    else return 0;
    char full[PATH_MAX * 2];
    snprintf(full, sizeof full, "%s/%s", base, p);
    if (strncmp(full, root, rootlen) || (full[rootlen] && full[rootlen] != '/')) return 0;
    snprintf(out, PATH_MAX, "%s", full + rootlen);
    return 1;
}
static void track(int fd, const char *rel) {
    if (fd < 0 || fd >= MAXFD) return;
    struct stat st;
    if (syscall(SYS_fstat, fd, &st)) return;
    tracked[fd] = 1; free(fdpath[fd]); fdpath[fd] = strdup(rel);
    fddev[fd] = st.st_dev; fdino[fd] = st.st_ino;
}
static void untrack(int fd) { if (fd >= 0 && fd < MAXFD && tracked[fd]) { tracked[fd] = 0; } }
/* descriptors can be closed behind our back (closedir, fclose, close_range, ...): is it still the same file? */
static int is_tracked(int fd) {
    struct stat st;
    if (!rootlen || fd < 0 || fd >= MAXFD || !tracked[fd] || in_shim) return 0;
    int e = errno;
    if (syscall(SYS_fstat, fd, &st) || st.st_dev != fddev[fd] || st.st_ino != fdino[fd]) tracked[fd] = 0;
    errno = e;
    return tracked[fd];
}

static void stamp_fd(int fd) {
    if (!S->mt_on) return;
    int e = errno;
    S->mt_ns += S->mt_step;
    struct timespec t[2];
    t[0].tv_sec = t[1].tv_sec = S->mt_ns / 1000000000LL;
    t[0].tv_nsec = t[1].tv_nsec = S->mt_ns % 1000000000LL;
    syscall(SYS_utimensat, fd, NULL, t, 0);
    errno = e;
}

static int point(const char *op, const char *path, long arg, long *torn);
/* whoever holds what we wait for may take seconds */
static void nap(const char *path) {
    point("sleep", path, 0, NULL);
    if (mono_ns < 5000000000LL) mono_ns += 1000000000LL;
}
/* returns 0: go, >0: errno to fail with; may not return; *torn = torn length or -1 */
static int point(const char *op, const char *path, long arg, long *torn) {
    if (torn) *torn = -1;
    if (req_fd < 0) return 0;
    int e = errno;
    char buf[PATH_MAX + 128];
    int len = snprintf(buf, sizeof buf, "%s\t%ld\t%s\n", op, arg, path);
    syscall(SYS_write, req_fd, buf, len);
    struct { int32_t act; int32_t val; } r;
    size_t got = 0;
    while (got < sizeof r) {
        long k = syscall(SYS_read, rep_fd, (char *)&r + got, sizeof r - got);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) syscall(SYS_exit_group, 97);
        got += k;
    }
    errno = e;
    switch (r.act) {
    case 0: return 0;
    case 1: kill(getpid(), SIGKILL); for (;;) pause();
    case 2: if (torn) *torn = r.val; return 0;
    case 3: return r.val;
    }
    return 0;
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }
#define POINT(op, path, arg) do { int _e = point(op, path, arg, NULL); if (_e) { errno = _e; return -1; } } while (0)

/* ---- open family ---- */
static int do_open(int dirfd, const char *p, int flags, mode_t mode) {
    char rel[PATH_MAX];
    int u = under(dirfd, p, rel);
    if (u) POINT((flags & O_TRUNC) ? "open-trunc" : (flags & O_CREAT) ? "open-creat" :
                 (flags & O_ACCMODE) == O_RDONLY ? "open-r" : "open-w", rel, flags);
    int fd = syscall(SYS_openat, dirfd, p, flags, mode);
    if (u && fd >= 0) {
        track(fd, rel);
        if ((flags & O_TRUNC) || ((flags & O_CREAT) && (flags & O_ACCMODE) != O_RDONLY)) {
            struct stat st;
            if (syscall(SYS_fstat, fd, &st) == 0 && st.st_size == 0 && S_ISREG(st.st_mode)) stamp_fd(fd);
        }
    } else if (fd >= 0) untrack(fd);
    return fd;
}
#define MODE(flags) mode_t mode = 0; if ((flags & O_CREAT) || (flags & O_TMPFILE) == O_TMPFILE) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
    if (is_tracked(fd)) { untrack(fd); }
    return syscall(SYS_close, fd);
}

/* ---- data ---- */
ssize_t read(int fd, void *b, size_t n) {
    if (is_tracked(fd)) POINT("read", fdpath[fd], (long)n);
    return syscall(SYS_read, fd, b, n);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    if (is_tracked(fd)) POINT("read", fdpath[fd], (long)n);
    return syscall(SYS_pread64, fd, b, n, o);
}
/* one write of n bytes at offset o (-1: at the current position) */
static ssize_t do_write(int fd, const void *b, size_t n, off64_t o) {
    if (!is_tracked(fd)) return o < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, o);
    long torn; int e = point("write", fdpath[fd], (long)n, &torn);
    if (e) { errno = e; return -1; }
    if (torn >= 0 && (size_t)torn < n) n = torn;
    ssize_t r = !n && torn >= 0 ? 0 : o < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, o);
    if (r > 0) stamp_fd(fd);
    if (torn >= 0) die();
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if (o < 0) { errno = EINVAL; return -1; }
    return do_write(fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
static ssize_t do_writev(int fd, const struct iovec *v, int c, off64_t o, int at) {
    ssize_t all = 0;
    for (int i = 0; i < c; i++) {
        if (!v[i].iov_len) continue;
        ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, at ? o + all : -1);
        if (r < 0) return all ? all : r;
        all += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return all;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!is_tracked(fd)) return syscall(SYS_writev, fd, v, c);
    return do_writev(fd, v, c, 0, 0);
}
ssize_t pwritev64(int fd, const struct iovec *v, int c, off64_t o) {
    if (!is_tracked(fd)) return syscall(SYS_pwritev, fd, v, c, o, 0);
    return do_writev(fd, v, c, o, 1);
}
ssize_t pwritev(int fd, const struct iovec *v, int c, off_t o) { return pwritev64(fd, v, c, o); }
/* not in reach of the points: callers fall back to read and write */
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
    if (is_tracked(out)) { errno = EINVAL; return -1; }
    return syscall(SYS_sendfile, out, in, o, n);
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return sendfile64(out, in, o, n); }
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned fl) {
    if (is_tracked(out)) { errno = EXDEV; return -1; }
    return syscall(SYS_copy_file_range, in, io, out, oo, n, fl);
}
int ftruncate64(int fd, off64_t l) {
    if (is_tracked(fd)) POINT("ftruncate", fdpath[fd], (long)l);
    int r = syscall(SYS_ftruncate, fd, l);
    if (r == 0 && is_tracked(fd)) stamp_fd(fd);
    return r;
}
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
int truncate64(const char *p, off64_t l) {
    char rel[PATH_MAX];
    if (under(AT_FDCWD, p, rel)) POINT("truncate", rel, (long)l);
    return syscall(SYS_truncate, p, l);
}
int truncate(const char *p, off_t l) { return truncate64(p, l); }
int fsync(int fd) { if (is_tracked(fd)) POINT("fsync", fdpath[fd], 0); return is_tracked(fd) ? 0 : syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (is_tracked(fd)) POINT("fsync", fdpath[fd], 0); return is_tracked(fd) ? 0 : syscall(SYS_fdatasync, fd); }

/* ---- names ---- */
int unlinkat(int d, const char *p, int fl) {
    char rel[PATH_MAX];
    if (under(d, p, rel)) POINT("unlink", rel, 0);
    return syscall(SYS_unlinkat, d, p, fl);
}
int unlink(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int remove(const char *p) { return unlinkat(AT_FDCWD, p, 0); }
int rmdir(const char *p) { return unlinkat(AT_FDCWD, p, AT_REMOVEDIR); }
int renameat(int d1, const char *a, int d2, const char *b) {
    char rel[PATH_MAX];
    if (under(d1, a, rel) || under(d2, b, rel)) {
        char rb[PATH_MAX]; if (!under(d2, b, rb)) strcpy(rb, rel);
        POINT("rename", rb, 0);
    }
    return syscall(SYS_renameat, d1, a, d2, b);
}
int rename(const char *a, const char *b) { return renameat(AT_FDCWD, a, AT_FDCWD, b); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned fl) {
    char rel[PATH_MAX];
    if (under(d2, b, rel)) POINT("rename", rel, 0);
    return syscall(SYS_renameat2, d1, a, d2, b, fl);
}
int linkat(int d1, const char *a, int d2, const char *b, int fl) {
    char rel[PATH_MAX];
    if (under(d2, b, rel)) POINT("link", rel, 0);
    return syscall(SYS_linkat, d1, a, d2, b, fl);
}
int link(const char *a, const char *b) { return linkat(AT_FDCWD, a, AT_FDCWD, b, 0); }
int symlink(const char *a, const char *b) {
    char rel[PATH_MAX];
    if (under(AT_FDCWD, b, rel)) POINT("link", rel, 0);
    return syscall(SYS_symlink, a, b);
}
int mkdirat(int d, const char *p, mode_t m) {
    char rel[PATH_MAX];
    if (under(d, p, rel)) POINT("mkdir", rel, 0);
    return syscall(SYS_mkdirat, d, p, m);
}
int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }

/* ---- metadata ---- */
static int do_stat(int d, const char *p, struct stat *st, int fl) {
    char rel[PATH_MAX];
    if (p && p[0] && under(d, p, rel) && rel[0]) POINT("stat", rel, 0);
    return syscall(SYS_newfstatat, d, p, st, fl);
}
int stat(const char *restrict p, struct stat *restrict st) { return do_stat(AT_FDCWD, p, st, 0); }
int lstat(const char *restrict p, struct stat *restrict st) { return do_stat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int stat64(const char *restrict p, struct stat64 *restrict st) { return do_stat(AT_FDCWD, p, (struct stat *)st, 0); }
int lstat64(const char *restrict p, struct stat64 *restrict st) { return do_stat(AT_FDCWD, p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *restrict p, struct stat *restrict st, int fl) { return do_stat(d, p, st, fl); }
int fstatat64(int d, const char *restrict p, struct stat64 *restrict st, int fl) { return do_stat(d, p, (struct stat *)st, fl); }
int faccessat(int d, const char *p, int m, int fl) {
    char rel[PATH_MAX];
    if (under(d, p, rel)) POINT("stat", rel, 0);
    return syscall(SYS_faccessat, d, p, m);
}
int access(const char *p, int m) { return faccessat(AT_FDCWD, p, m, 0); }
int utimensat(int d, const char *p, const struct timespec t[2], int fl) {
    char rel[PATH_MAX];
    if (p && under(d, p, rel)) POINT("utime", rel, 0);
    return syscall(SYS_utimensat, d, p, t, fl);
}
DIR *opendir(const char *p) {
    REAL(DIR *, opendir, const char *);
    char rel[PATH_MAX];
    if (under(AT_FDCWD, p, rel)) { int e = point("listdir", rel, 0, NULL); if (e) { errno = e; return NULL; } }
    in_shim++; DIR *r = real_opendir(p); in_shim--;
    return r;
}

/* ---- locks ---- */
int flock(int fd, int op) {
    if (!is_tracked(fd) || req_fd < 0) return syscall(SYS_flock, fd, op);
    if (op & LOCK_UN) { POINT("unlock", fdpath[fd], op); return syscall(SYS_flock, fd, op); }
    POINT("lock", fdpath[fd], op);
    for (;;) {
        int r = syscall(SYS_flock, fd, op | LOCK_NB);
        if (r == 0 || errno != EWOULDBLOCK || (op & LOCK_NB)) return r;
        nap(fdpath[fd]);
    }
}
static int do_fcntl(int fd, int cmd, void *arg) {
    if (is_tracked(fd) && req_fd >= 0 && (cmd == F_SETLK || cmd == F_SETLKW)) {
        struct flock *fl = arg;
        POINT(fl->l_type == F_UNLCK ? "unlock" : "lock", fdpath[fd], cmd);
        for (;;) {
            int r = syscall(SYS_fcntl, fd, F_SETLK, arg);
            if (r == 0 || cmd == F_SETLK || (errno != EAGAIN && errno != EACCES)) return r;
            nap(fdpath[fd]);
        }
    }
    int r = syscall(SYS_fcntl, fd, cmd, arg);
    if (r >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && is_tracked(fd)) track(r, fdpath[fd]);
    return r;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }

/* ---- sleeping: the controller decides when to wake us ---- */
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem) {
    if (req_fd >= 0) { nap(""); return 0; }
    long r = syscall(SYS_clock_nanosleep, c, fl, t, rem);
    return r < 0 ? errno : 0;
}
int nanosleep(const struct timespec *t, struct timespec *rem) {
    if (req_fd >= 0) { nap(""); return 0; }
    return syscall(SYS_nanosleep, t, rem);
}
int usleep(useconds_t us) {
    struct timespec t = { us / 1000000, (us % 1000000) * 1000L };
    return nanosleep(&t, NULL);
}
int select(int n, fd_set *restrict a, fd_set *restrict b, fd_set *restrict c, struct timeval *restrict tv) {
    if (req_fd >= 0 && n == 0) { nap(""); return 0; }
    REAL(int, select, int, fd_set *, fd_set *, fd_set *, struct timeval *);
    return real_select(n, a, b, c, tv);
}
