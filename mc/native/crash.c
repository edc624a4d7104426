/* Counts the operations of a process that change files below one folder, and
 * ends the process, tears the write or fails the operation at a chosen one. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { CRASH = 0, TORN = 1, FAIL = 2, NONE = 3 };
static char root[PATH_MAX];
static size_t rootlen;
static long target, count;
static int mode = NONE;
static unsigned char tracked[65536];
static char kinds[65536];

void mc_arm(const char *dir, long n, int m) {
    strncpy(root, dir, sizeof root - 1);
    rootlen = strlen(root);
    target = n; count = 0; mode = m;
    memset(tracked, 0, sizeof tracked);
    memset(kinds, 0, sizeof kinds);
}
long mc_disarm(void) { long c = count; rootlen = 0; mode = NONE; return c; }
long mc_count(void) { return count; }
/* one letter per operation: w for those that can be torn */
const char *mc_kinds(void) { return kinds; }

static int inside_at(int dfd, const char *path) {
    char buf[PATH_MAX * 2], link[64];
    ssize_t k;
    if (!rootlen || !path) return 0;
    if (path[0] == '/') {
        snprintf(buf, sizeof buf, "%s", path);
    } else {
        if (dfd == AT_FDCWD) {
            if (!getcwd(buf, PATH_MAX)) return 0;
        } else {
            snprintf(link, sizeof link, "/proc/self/fd/%d", dfd);
            k = readlink(link, buf, PATH_MAX - 1);
            if (k < 0) return 0;
            buf[k] = 0;
        }
        strcat(buf, "/");
        strncat(buf, path, PATH_MAX - 1);
    }
    return !strncmp(buf, root, rootlen) &&
        (buf[rootlen] == '/' || buf[rootlen] == 0);
}
static int inside(const char *path) { return inside_at(AT_FDCWD, path); }

/* 0: go on, -1: fail; a torn operation other than a write is no case of its
 * own and ends before the operation */
static int step(const char *name, const char *path) {
    (void) path;
    if (count < (long) sizeof kinds - 1)
        kinds[count] = !strcmp(name, "write") || !strcmp(name, "pwrite") ||
            !strcmp(name, "fwrite") ? 'w' : 'o';
    count++;
    if (count != target) return 0;
    if (mode == CRASH || mode == TORN) _exit(mode == CRASH ? 99 : 98);
    if (mode == FAIL) { errno = ENOSPC; return -1; }
    return 0;
}

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, name)

static int changes(int flags) {
    return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
}
static void note(int fd) {
    if (fd >= 0 && fd < (int) sizeof tracked) tracked[fd] = 1;
}

#define OPEN(fname) \
int fname(const char *path, int flags, ...) { \
    mode_t m = 0; int fd, in; va_list ap; \
    REAL(int, #fname, const char *, int, mode_t); \
    va_start(ap, flags); \
    if (flags & (O_CREAT | O_TMPFILE)) m = va_arg(ap, int); \
    va_end(ap); \
    in = changes(flags) && inside(path); \
    if (in && step("open", path)) return -1; \
    fd = real(path, flags, m); \
    if (in) note(fd); \
    return fd; \
}
OPEN(open)
OPEN(open64)
#define OPENAT(fname) \
int fname(int d, const char *path, int flags, ...) { \
    mode_t m = 0; int fd, in; va_list ap; \
    REAL(int, #fname, int, const char *, int, mode_t); \
    va_start(ap, flags); \
    if (flags & (O_CREAT | O_TMPFILE)) m = va_arg(ap, int); \
    va_end(ap); \
    in = changes(flags) && inside_at(d, path); \
    if (in && step("open", path)) return -1; \
    fd = real(d, path, flags, m); \
    if (in) note(fd); \
    return fd; \
}
OPENAT(openat)
OPENAT(openat64)
int creat(const char *path, mode_t m) {
    return open(path, O_WRONLY | O_CREAT | O_TRUNC, m);
}
int creat64(const char *path, mode_t m) { return creat(path, m); }
#define FOPEN(fname) \
FILE *fname(const char *path, const char *md) { \
    FILE *f; int in; \
    REAL(FILE *, #fname, const char *, const char *); \
    in = (md[0] != 'r' || strchr(md, '+')) && inside(path); \
    if (in && step("fopen", path)) return NULL; \
    f = real(path, md); \
    if (in && f) note(fileno(f)); \
    return f; \
}
FOPEN(fopen)
FOPEN(fopen64)

static int is_tracked(int fd) {
    return rootlen && fd >= 0 && fd < (int) sizeof tracked && tracked[fd];
}
int close(int fd) {
    REAL(int, "close", int);
    if (fd >= 0 && fd < (int) sizeof tracked) tracked[fd] = 0;
    return real(fd);
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (is_tracked(fd)) {
        if (count + 1 == target && mode == TORN) {
            real(fd, b, n / 2);
            _exit(97);
        }
        if (step("write", NULL)) { real(fd, b, n / 2); return -1; }
    }
    return real(fd, b, n);
}
#define PWRITE(fname, off) \
ssize_t fname(int fd, const void *b, size_t n, off o) { \
    REAL(ssize_t, #fname, int, const void *, size_t, off); \
    if (is_tracked(fd)) { \
        if (count + 1 == target && mode == TORN) { \
            real(fd, b, n / 2, o); \
            _exit(97); \
        } \
        if (step("pwrite", NULL)) return -1; \
    } \
    return real(fd, b, n, o); \
}
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (is_tracked(fd) && step("writev", NULL)) return -1;
    return real(fd, v, c);
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) {
    REAL(size_t, "fwrite", const void *, size_t, size_t, FILE *);
    if (is_tracked(fileno(f))) {
        if (count + 1 == target && mode == TORN) {
            real(b, s, n / 2, f);
            fflush(f);
            _exit(97);
        }
        if (step("fwrite", NULL)) return 0;
    }
    return real(b, s, n, f);
}
int fclose(FILE *f) {
    REAL(int, "fclose", FILE *);
    int fd = fileno(f);
    if (is_tracked(fd)) {
        tracked[fd] = 0;
        if (step("fclose", NULL)) { real(f); return EOF; }
    }
    return real(f);
}
#define PATH1(fname) \
int fname(const char *p) { \
    REAL(int, #fname, const char *); \
    if (inside(p) && step(#fname, p)) return -1; \
    return real(p); \
}
PATH1(unlink)
PATH1(rmdir)
PATH1(remove)
int unlinkat(int d, const char *p, int fl) {
    REAL(int, "unlinkat", int, const char *, int);
    if (inside_at(d, p) && step("unlinkat", p)) return -1;
    return real(d, p, fl);
}
int mkdir(const char *p, mode_t m) {
    REAL(int, "mkdir", const char *, mode_t);
    if (inside(p) && step("mkdir", p)) return -1;
    return real(p, m);
}
int mkdirat(int d, const char *p, mode_t m) {
    REAL(int, "mkdirat", int, const char *, mode_t);
    if (inside_at(d, p) && step("mkdir", p)) return -1;
    return real(d, p, m);
}
#define PATH2(fname) \
int fname(const char *p, const char *q) { \
    REAL(int, #fname, const char *, const char *); \
    if ((inside(p) || inside(q)) && step(#fname, q)) return -1; \
    return real(p, q); \
}
PATH2(rename)
PATH2(link)
PATH2(symlink)
int renameat(int d, const char *p, int e, const char *q) {
    REAL(int, "renameat", int, const char *, int, const char *);
    if ((inside_at(d, p) || inside_at(e, q)) && step("rename", q)) return -1;
    return real(d, p, e, q);
}
int linkat(int d, const char *p, int e, const char *q, int fl) {
    REAL(int, "linkat", int, const char *, int, const char *, int);
    if (inside_at(e, q) && step("link", q)) return -1;
    return real(d, p, e, q, fl);
}
int truncate(const char *p, off_t n) {
    REAL(int, "truncate", const char *, off_t);
    if (inside(p) && step("truncate", p)) return -1;
    return real(p, n);
}
int ftruncate(int fd, off_t n) {
    REAL(int, "ftruncate", int, off_t);
    if (is_tracked(fd) && step("ftruncate", NULL)) return -1;
    return real(fd, n);
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    REAL(ssize_t, "sendfile", int, int, off_t *, size_t);
    if (is_tracked(o) && step("sendfile", NULL)) return -1;
    return real(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off_t *off, size_t n) {
    return sendfile(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n,
                        unsigned f) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t,
         unsigned);
    if (is_tracked(o) && step("copy_file_range", NULL)) return -1;
    return real(i, a, o, b, n, f);
}
