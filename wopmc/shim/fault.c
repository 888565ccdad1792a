/* Fault injector: preloaded into the wop command. Counts the calls through which the command can
 * change or read files, and makes one (or two) of them fail, fall short, or end the process.
 *   FAULT_LOG   file that gets one line per counted call
 *   FAULT       "<number> <kind>[ <number> <kind>]": which call, and what happens to it
 * Kinds: an errno; "short" (half is transferred); "kill" (the process dies before the call);
 * "torn" (half is transferred, then the process dies); "after" (it dies right after the call). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int on, logfd = -1, count;
static struct { int at; char kind[16]; } want[2];

__attribute__((constructor)) static void init(void) {
    if (strcmp(program_invocation_short_name, "wopcli") != 0) return;
    const char *l = getenv("FAULT_LOG"), *f = getenv("FAULT");
    if (l) logfd = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if (f) sscanf(f, "%d %15s %d %15s", &want[0].at, want[0].kind, &want[1].at, want[1].kind);
    on = 1;
}

static void die(void) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) ; }

/* What happens to this call: NULL or a kind. */
static const char *fate(const char *name, int fd, size_t n) {
    if (!on) return NULL;
    count++;
    if (logfd >= 0) {
        char b[96];
        int k = snprintf(b, sizeof b, "%s %d %zu\n", name, fd, n);
        if (syscall(SYS_write, logfd, b, k) < 0) {}
    }
    for (int i = 0; i < 2; i++)
        if (want[i].at == count && want[i].kind[0]) {
            if (strcmp(want[i].kind, "kill") == 0) die();
            return want[i].kind;
        }
    return NULL;
}

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) *(void **)&real = dlsym(RTLD_NEXT, name)
/* an errno is given back as such; the other kinds are the call's business */
#define FAIL(f) if (f && f[0] >= '0' && f[0] <= '9') { errno = atoi(f); return -1; }
#define AFTER(f, call) do { __typeof__(call) r_ = (call); if (f && (strcmp(f, "after") == 0 || strcmp(f, "torn") == 0)) die(); return r_; } while (0)
#define HALF(f, n) ((f && (strcmp(f, "short") == 0 || strcmp(f, "torn") == 0)) ? ((n) + 1) / 2 : (n))

static int is_write(int flags) { return (flags & O_ACCMODE) != O_RDONLY; }

#define OPEN(fn) \
    int fn(const char *p, int flags, ...) { \
        REAL(int, #fn, const char *, int, ...); \
        va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); \
        const char *f = fate(is_write(flags) ? "open-w" : "open-r", -1, 0); FAIL(f) AFTER(f, real(p, flags, m)); }
OPEN(open)
OPEN(open64)
#define OPENAT(fn) \
    int fn(int d, const char *p, int flags, ...) { \
        REAL(int, #fn, int, const char *, int, ...); \
        va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); \
        const char *f = fate(is_write(flags) ? "open-w" : "open-r", -1, 0); FAIL(f) AFTER(f, real(d, p, flags, m)); }
OPENAT(openat)
OPENAT(openat64)
int creat(const char *p, mode_t m) { REAL(int, "creat", const char *, mode_t); const char *f = fate("open-w", -1, 0); FAIL(f) AFTER(f, real(p, m)); }
int creat64(const char *p, mode_t m) { REAL(int, "creat64", const char *, mode_t); const char *f = fate("open-w", -1, 0); FAIL(f) AFTER(f, real(p, m)); }
ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, "read", int, void *, size_t); const char *f = fate("read", fd, n); FAIL(f) AFTER(f, real(fd, b, HALF(f, n))); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { REAL(ssize_t, "pread64", int, void *, size_t, off64_t); const char *f = fate("read", fd, n); FAIL(f) AFTER(f, real(fd, b, HALF(f, n), o)); }
ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, "write", int, const void *, size_t); const char *f = fate("write", fd, n); FAIL(f) AFTER(f, real(fd, b, HALF(f, n))); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t); const char *f = fate("write", fd, n); FAIL(f) AFTER(f, real(fd, b, HALF(f, n), o)); }
ssize_t writev(int fd, const struct iovec *v, int k) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    size_t n = 0; for (int i = 0; i < k; i++) n += v[i].iov_len;
    const char *f = fate("write", fd, n); FAIL(f)
    if (f && k > 0 && HALF(f, n) != n) {
        struct iovec h = { v[0].iov_base, (v[0].iov_len + 1) / 2 };
        AFTER(f, real(fd, &h, 1));
    }
    AFTER(f, real(fd, v, k)); }
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) { REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t); const char *f = fate("write", o, n); FAIL(f) AFTER(f, real(o, i, p, HALF(f, n))); }
ssize_t copy_file_range(int i, off64_t *pi, int o, off64_t *po, size_t n, unsigned fl) { REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned); const char *f = fate("write", o, n); FAIL(f) AFTER(f, real(i, pi, o, po, HALF(f, n), fl)); }
int close(int fd) { REAL(int, "close", int); const char *f = fate("close", fd, 0); FAIL(f) AFTER(f, real(fd)); }
int fsync(int fd) { REAL(int, "fsync", int); const char *f = fate("sync", fd, 0); FAIL(f) AFTER(f, real(fd)); }
int fdatasync(int fd) { REAL(int, "fdatasync", int); const char *f = fate("sync", fd, 0); FAIL(f) AFTER(f, real(fd)); }
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t); const char *f = fate("truncate", fd, 0); FAIL(f) AFTER(f, real(fd, n)); }
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); const char *f = fate("rename", -1, 0); FAIL(f) AFTER(f, real(a, b)); }
int renameat(int x, const char *a, int y, const char *b) { REAL(int, "renameat", int, const char *, int, const char *); const char *f = fate("rename", -1, 0); FAIL(f) AFTER(f, real(x, a, y, b)); }
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *); const char *f = fate("link", -1, 0); FAIL(f) AFTER(f, real(a, b)); }
int linkat(int x, const char *a, int y, const char *b, int fl) { REAL(int, "linkat", int, const char *, int, const char *, int); const char *f = fate("link", -1, 0); FAIL(f) AFTER(f, real(x, a, y, b, fl)); }
int unlink(const char *a) { REAL(int, "unlink", const char *); const char *f = fate("unlink", -1, 0); FAIL(f) AFTER(f, real(a)); }
int unlinkat(int x, const char *a, int fl) { REAL(int, "unlinkat", int, const char *, int); const char *f = fate("unlink", -1, 0); FAIL(f) AFTER(f, real(x, a, fl)); }

/* The order of the rules in the output hangs on this. */
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    if (on) { memset(b, 0x5a, n); return (ssize_t)n; }
    return syscall(SYS_getrandom, b, n, fl);
}
