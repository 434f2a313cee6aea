/* LD_PRELOAD shim: owns the clock, the terminal and the file system faults of one run.
 *
 *   SFX_NOW=<epoch seconds>      what clock_gettime(CLOCK_REALTIME), gettimeofday and time return
 *   SFX_TTY=<columns>            stdout is a terminal of that width
 *   SFX_TRACE=<path>             append one line per write-like operation (op, path)
 *   SFX_ROFS=<errno>             every open for writing (of a regular file) fails with it
 *   SFX_FAULT=<mode>:<n>:<k>     at the n-th write-like operation (from 0):
 *        kill     die before it                  killafter  do it, then die
 *        tear     if it's a write, write only k bytes, then die (else: die before it)
 *        enospc   fail it with ENOSPC            short      write only k bytes; later writes fail
 *        meanwhile  first, append a line to the file SFX_OTHER (as another process would)
 *
 * "write-like": opens that could write, write/pwrite/writev to files, ftruncate, truncate, rename, unlink.
 * Also: CPU limit (a run that spins gets SIGXCPU), address space limit, wall clock alarm.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static long long now_s; static int have_now;
static int tty_cols;
static int trace_fd = -1;
static int rofs;
static char mode[16]; static long f_n = -1, f_k; static long count; static int broken;

__attribute__((constructor)) static void init(void) {
    const char *s;
    if ((s = getenv("SFX_NOW"))) { now_s = atoll(s); have_now = 1; }
    if ((s = getenv("SFX_TTY"))) tty_cols = atoi(s);
    if ((s = getenv("SFX_ROFS"))) rofs = atoi(s);
    if ((s = getenv("SFX_TRACE")))
        trace_fd = (int)syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if ((s = getenv("SFX_FAULT"))) sscanf(s, "%15[^:]:%ld:%ld", mode, &f_n, &f_k);
    struct rlimit r = {10, 12};
    setrlimit(RLIMIT_CPU, &r);
    struct rlimit a = {4ULL << 30, 4ULL << 30};
    setrlimit(RLIMIT_AS, &a);
    struct rlimit c = {0, 0};
    setrlimit(RLIMIT_CORE, &c);
    alarm(120);
}

static void note(const char *op, const char *path) {
    if (trace_fd < 0) return;
    char b[4352];
    int n = snprintf(b, sizeof b, "%s %s\n", op, path ? path : "?");
    if (n > (int)sizeof b) n = sizeof b;
    syscall(SYS_write, trace_fd, b, n);
}
static void die(void) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }

/* 0: go on; 1: fail with errno set; 2: torn (write f_k bytes, then die); 3: short; 4: do, then die */
static int event(const char *op, const char *path, int is_write) {
    note(op, path);
    long me = count++;
    if (broken && is_write) { errno = ENOSPC; return 1; }
    if (f_n < 0 || me != f_n) return 0;
    if (!strcmp(mode, "kill")) die();
    if (!strcmp(mode, "killafter")) return 4;
    if (!strcmp(mode, "tear")) { if (is_write) return 2; die(); }
    if (!strcmp(mode, "enospc")) { errno = ENOSPC; broken = 1; return 1; }
    if (!strcmp(mode, "meanwhile")) {
        const char *p = getenv("SFX_OTHER"), *t = "\n; meanwhile\n";
        int fd = p ? (int)syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_APPEND | O_CLOEXEC, 0) : -1;
        if (fd >= 0) { syscall(SYS_write, fd, t, strlen(t)); syscall(SYS_close, fd); }
        return 0;
    }
    if (!strcmp(mode, "short")) { if (is_write) { broken = 1; return 3; } return 0; }
    return 0;
}
static int is_file(int fd) {
    struct stat st;
    if (fd < 3 || fd == trace_fd) return 0;
    return syscall(SYS_fstat, fd, &st) == 0 && S_ISREG(st.st_mode);
}

int clock_gettime(clockid_t id, struct timespec *ts) {
    if (have_now && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        ts->tv_sec = now_s; ts->tv_nsec = 123456789; return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
    (void)tz;
    if (have_now) { tv->tv_sec = now_s; tv->tv_usec = 123456; return 0; }
    return (int)syscall(SYS_gettimeofday, tv, tz);
}
time_t time(time_t *t) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
int isatty(int fd) {
    if (tty_cols && fd == 1) return 1;
    struct { char x[64]; } tio;
    return syscall(SYS_ioctl, fd, TCGETS, &tio) == 0;
}
int ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
    if (tty_cols && fd == 1 && req == TIOCGWINSZ) {
        struct winsize *w = arg; memset(w, 0, sizeof *w);
        w->ws_row = 50; w->ws_col = (unsigned short)tty_cols; return 0;
    }
    return (int)syscall(SYS_ioctl, fd, req, arg);
}

static int do_open(int dirfd, const char *path, int flags, mode_t m) {
    int writes = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    int e = 0;
    if (writes && (strncmp(path, "/dev/", 5) || !strncmp(path, "/dev/shm/", 9)) && strncmp(path, "/proc/", 6)) {
        const char *op = flags & O_TRUNC ? "open-trunc" : flags & O_CREAT ? "open-creat" : "open-write";
        if (rofs) { note(op, path); errno = rofs; return -1; }
        e = event(op, path, 0);
        if (e == 1) return -1;
    }
    int r = (int)syscall(SYS_openat, dirfd, path, flags, m);
    if (e == 4) die();
    return r;
}
#define MODE() mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { MODE(); return do_open(AT_FDCWD, p, flags, m); }
int open64(const char *p, int flags, ...) { MODE(); return do_open(AT_FDCWD, p, flags, m); }
int openat(int d, const char *p, int flags, ...) { MODE(); return do_open(d, p, flags, m); }
int openat64(int d, const char *p, int flags, ...) { MODE(); return do_open(d, p, flags, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static ssize_t retw(long r) { return r; }
ssize_t write(int fd, const void *b, size_t n) {
    if (!is_file(fd)) return retw(syscall(SYS_write, fd, b, n));
    int e = event("write", NULL, 1);
    if (e == 1) return -1;
    if ((e == 2 || e == 3) && (size_t)f_k < n) n = (size_t)f_k;
    ssize_t r = retw(syscall(SYS_write, fd, b, n));
    if (e == 2 || e == 4) die();
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if (!is_file(fd)) return retw(syscall(SYS_pwrite64, fd, b, n, o));
    int e = event("pwrite", NULL, 1);
    if (e == 1) return -1;
    if ((e == 2 || e == 3) && (size_t)f_k < n) n = (size_t)f_k;
    ssize_t r = retw(syscall(SYS_pwrite64, fd, b, n, o));
    if (e == 2 || e == 4) die();
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!is_file(fd)) return retw(syscall(SYS_writev, fd, v, c));
    int e = event("writev", NULL, 1);
    if (e == 1) return -1;
    ssize_t r;
    if (e == 2 || e == 3) {
        size_t n = c ? v[0].iov_len : 0;
        if ((size_t)f_k < n) n = (size_t)f_k;
        r = retw(syscall(SYS_write, fd, c ? v[0].iov_base : "", n));
    } else r = retw(syscall(SYS_writev, fd, v, c));
    if (e == 2 || e == 4) die();
    return r;
}
#define SIMPLE(name, op, path, call) { int e = event(op, path, 0); if (e == 1) return -1; long r = call; if (e == 4) die(); return (int)r; }
int ftruncate64(int fd, off64_t n) SIMPLE(ftruncate64, "ftruncate", NULL, syscall(SYS_ftruncate, fd, n))
int ftruncate(int fd, off_t n) SIMPLE(ftruncate, "ftruncate", NULL, syscall(SYS_ftruncate, fd, n))
int truncate64(const char *p, off64_t n) SIMPLE(truncate64, "truncate", p, syscall(SYS_truncate, p, n))
int truncate(const char *p, off_t n) SIMPLE(truncate, "truncate", p, syscall(SYS_truncate, p, n))
int rename(const char *a, const char *b) SIMPLE(rename, "rename", b, syscall(SYS_rename, a, b))
int renameat(int d, const char *a, int f, const char *b) SIMPLE(renameat, "rename", b, syscall(SYS_renameat, d, a, f, b))
int unlink(const char *p) SIMPLE(unlink, "unlink", p, syscall(SYS_unlink, p))
int unlinkat(int d, const char *p, int f) SIMPLE(unlinkat, "unlink", p, syscall(SYS_unlinkat, d, p, f))
