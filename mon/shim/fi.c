/* LD_PRELOAD shim: numbers every file-system call that touches a watched
 * directory and makes the n-th fail, be cut short, or be the last thing the
 * process does.  Armed through fi_arm(); does nothing until then. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { M_NONE, M_ERROR, M_SHORT, M_KILL_BEFORE, M_KILL_AFTER, M_PERSIST };

static char prefix[PATH_MAX];
static size_t plen;
static int armed, mode, target, err, count, fired;
static char tracebuf[1 << 16];
static size_t tracelen;

void fi_arm(const char *dir, int m, int n, int e) {
    strncpy(prefix, dir, sizeof prefix - 1);
    plen = strlen(prefix);
    mode = m; target = n; err = e; count = 0; fired = 0; tracelen = 0;
    armed = 1;
}
void fi_disarm(void) { armed = 0; }
int fi_count(void) { return count; }
int fi_fired(void) { return fired; }
const char *fi_trace(void) { tracebuf[tracelen] = 0; return tracebuf; }

static int watched_path(const char *p) {
    char buf[PATH_MAX];
    if (!p) return 0;
    if (p[0] != '/') {
        if (!getcwd(buf, sizeof buf)) return 0;
        return !strncmp(buf, prefix, plen);
    }
    return !strncmp(p, prefix, plen);
}
static int watched_fd(int fd) {
    char link[64], buf[PATH_MAX];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, buf, sizeof buf - 1);
    if (n < 0) return 0;
    buf[n] = 0;
    return !strncmp(buf, prefix, plen);
}
/* 0 go on, 1 fail with err, 2 cut short, 3 end after the call */
static int hit(const char *what) {
    int n = count++;
    size_t l = strlen(what);
    if (tracelen + l + 2 < sizeof tracebuf) {
        memcpy(tracebuf + tracelen, what, l);
        tracelen += l;
        tracebuf[tracelen++] = ' ';
    }
    if (mode == M_PERSIST ? n >= target : n == target) {
        fired = 1;
        switch (mode) {
        case M_ERROR: case M_PERSIST: return 1;
        case M_SHORT: return 2;
        case M_KILL_BEFORE: _exit(99);
        case M_KILL_AFTER: return 3;
        }
    }
    return 0;
}
#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = dlsym(RTLD_NEXT, #name);
#define RUN(type, call, fail) do { \
        int h_ = hit(__func__); \
        if (h_ == 1) { errno = err; return fail; } \
        type r_ = call; \
        if (h_ == 3) _exit(99); \
        return r_; \
    } while (0)

#define OPENBODY(name) \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    REAL(int, name, const char *, int, ...) \
    if (!armed || !watched_path(path)) return real(path, flags, m); \
    RUN(int, real(path, flags, m), -1);
int open(const char *path, int flags, ...) { OPENBODY(open) }
int open64(const char *path, int flags, ...) { OPENBODY(open64) }
#define OPENATBODY(name) \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    REAL(int, name, int, const char *, int, ...) \
    if (!armed || !watched_path(path)) return real(d, path, flags, m); \
    RUN(int, real(d, path, flags, m), -1);
int openat(int d, const char *path, int flags, ...) { OPENATBODY(openat) }
int openat64(int d, const char *path, int flags, ...) { OPENATBODY(openat64) }

FILE *fopen(const char *p, const char *m) {
    REAL(FILE *, fopen, const char *, const char *)
    if (!armed || !watched_path(p)) return real(p, m);
    RUN(FILE *, real(p, m), NULL);
}
FILE *fopen64(const char *p, const char *m) {
    REAL(FILE *, fopen64, const char *, const char *)
    if (!armed || !watched_path(p)) return real(p, m);
    RUN(FILE *, real(p, m), NULL);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, int, void *, size_t)
    if (!armed || !watched_fd(fd)) return real(fd, b, n);
    int h = hit("read");
    if (h == 1) { errno = err; return -1; }
    if (h == 2) n = n / 2;
    ssize_t r = real(fd, b, n);
    if (h == 3) _exit(99);
    return r;
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) {
    REAL(ssize_t, pread64, int, void *, size_t, off_t)
    if (!armed || !watched_fd(fd)) return real(fd, b, n, o);
    RUN(ssize_t, real(fd, b, n, o), -1);
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t)
    if (!armed || !watched_fd(fd)) return real(fd, b, n);
    int h = hit("write");
    if (h == 1) { errno = err; return -1; }
    if (h == 2) { /* half of it arrives, then the disk is full */
        ssize_t r = real(fd, b, n / 2 ? n / 2 : n);
        mode = M_PERSIST; target = count; err = ENOSPC;
        return r;
    }
    ssize_t r = real(fd, b, n);
    if (h == 3) _exit(99);
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off_t)
    if (!armed || !watched_fd(fd)) return real(fd, b, n, o);
    RUN(ssize_t, real(fd, b, n, o), -1);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, writev, int, const struct iovec *, int)
    if (!armed || !watched_fd(fd)) return real(fd, v, n);
    RUN(ssize_t, real(fd, v, n), -1);
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) {
    REAL(size_t, fwrite, const void *, size_t, size_t, FILE *)
    if (!armed || !watched_fd(fileno(f))) return real(b, s, n, f);
    RUN(size_t, real(b, s, n, f), 0);
}
int fflush(FILE *f) {
    REAL(int, fflush, FILE *)
    if (!armed || !f || !watched_fd(fileno(f))) return real(f);
    RUN(int, real(f), EOF);
}
int close(int fd) {
    REAL(int, close, int)
    if (!armed || !watched_fd(fd)) return real(fd);
    int h = hit("close");
    int r = real(fd); /* the descriptor is gone either way */
    if (h == 3) _exit(99);
    if (h == 1) { errno = err; return -1; }
    return r;
}
int unlink(const char *p) {
    REAL(int, unlink, const char *)
    if (!armed || !watched_path(p)) return real(p);
    RUN(int, real(p), -1);
}
int unlinkat(int d, const char *p, int fl) {
    REAL(int, unlinkat, int, const char *, int)
    if (!armed || !watched_path(p)) return real(d, p, fl);
    RUN(int, real(d, p, fl), -1);
}
int rename(const char *a, const char *b) {
    REAL(int, rename, const char *, const char *)
    if (!armed || !(watched_path(a) || watched_path(b))) return real(a, b);
    RUN(int, real(a, b), -1);
}
int renameat(int d, const char *a, int e, const char *b) {
    REAL(int, renameat, int, const char *, int, const char *)
    if (!armed || !(watched_path(a) || watched_path(b))) return real(d, a, e, b);
    RUN(int, real(d, a, e, b), -1);
}
int mkdir(const char *p, mode_t m) {
    REAL(int, mkdir, const char *, mode_t)
    if (!armed || !watched_path(p)) return real(p, m);
    RUN(int, real(p, m), -1);
}
int ftruncate64(int fd, off_t n) {
    REAL(int, ftruncate64, int, off_t)
    if (!armed || !watched_fd(fd)) return real(fd, n);
    RUN(int, real(fd, n), -1);
}
int ftruncate(int fd, off_t n) {
    REAL(int, ftruncate, int, off_t)
    if (!armed || !watched_fd(fd)) return real(fd, n);
    RUN(int, real(fd, n), -1);
}
int fsync(int fd) {
    REAL(int, fsync, int)
    if (!armed || !watched_fd(fd)) return real(fd);
    RUN(int, real(fd), -1);
}
off_t lseek64(int fd, off_t o, int w) {
    REAL(off_t, lseek64, int, off_t, int)
    if (!armed || !watched_fd(fd)) return real(fd, o, w);
    RUN(off_t, real(fd, o, w), -1);
}
void *mmap64(void *a, size_t l, int p, int f, int fd, off_t o) {
    REAL(void *, mmap64, void *, size_t, int, int, int, off_t)
    if (!armed || fd < 0 || !watched_fd(fd)) return real(a, l, p, f, fd, o);
    RUN(void *, real(a, l, p, f, fd, o), MAP_FAILED);
}
