/* Interposed file-system calls: directory entries in a chosen order, and a record of every path that is changed.
   SHIM_FAULT=k:errno  the k-th call on a file of SHIM_FAULT_IN fails (errno 0: it transfers only a part of the data);
   SHIM_TRACE=file  the kind of each of these calls;  SHIM_SHUFFLE=seed  shuffle directory entries;  SHIM_LOG=file  record;  SHIM_ALLOW=dir  refuse changes elsewhere. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
static void absolute(int dfd, const char *p, char *out) {
    char base[PATH_MAX] = "";
    if (p[0] != '/') {
        if (dfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) base[0] = 0; }
        else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dfd); ssize_t n = readlink(l, base, sizeof base - 1); base[n < 0 ? 0 : n] = 0; }
    }
    char full[2 * PATH_MAX];
    snprintf(full, sizeof full, "%s/%s", base, p);
    /* normalise without touching the file system */
    char *parts[1024]; int n = 0;
    for (char *t = strtok(full, "/"); t; t = strtok(0, "/")) {
        if (!strcmp(t, ".")) continue;
        if (!strcmp(t, "..")) { if (n) n--; continue; }
        if (n < 1024) parts[n++] = t;
    }
    out[0] = 0;
    for (int i = 0; i < n; i++) { strcat(out, "/"); strcat(out, parts[i]); }
    if (!n) strcpy(out, "/");
}
/* 0: go on; -1: refused */
static int change(int dfd, const char *p, const char *what) {
    char a[2 * PATH_MAX + 2];
    absolute(dfd, p, a);
    const char *log = getenv("SHIM_LOG"), *allow = getenv("SHIM_ALLOW");
    if (!strncmp(a, "/dev/", 5) || !strncmp(a, "/proc/", 6)) return 0;
    if (log) {
        static int (*real_open)(const char *, int, ...);
        if (!real_open) real_open = dlsym(RTLD_NEXT, "open");
        int fd = real_open(log, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
        if (fd >= 0) { char l[2 * PATH_MAX + 64]; int n = snprintf(l, sizeof l, "%s\t%s\n", what, a); if (write(fd, l, n) < 0) {} close(fd); }
    }
    if (allow && *allow) {
        size_t n = strlen(allow);
        if (strncmp(a, allow, n) || (a[n] && a[n] != '/')) { errno = EACCES; return -1; }
    }
    return 0;
}
/* faults: 0: go on; 1: fail (errno is set); 2: transfer a part only */
static int fault_at(const char *kind, const char *abs) {
    static const char *in, *tr; static long k = -1; static int e, init; static long n; static int off;
    if (off) return 0;
    if (!init) {
        init = 1; in = getenv("SHIM_FAULT_IN"); tr = getenv("SHIM_TRACE");
        const char *f = getenv("SHIM_FAULT"); if (f) { k = strtol(f, 0, 10); e = atoi(strchr(f, ':') + 1); }
    }
    if (!in) return 0;
    size_t l = strlen(in);
    if (strncmp(abs, in, l) || (abs[l] && abs[l] != '/')) return 0;
    n++;
    if (tr) {
        static int (*real_open)(const char *, int, ...); if (!real_open) real_open = dlsym(RTLD_NEXT, "open");
        static ssize_t (*real_write)(int, const void *, size_t); if (!real_write) real_write = dlsym(RTLD_NEXT, "write");
        off = 1; int fd = real_open(tr, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
        if (fd >= 0) { char b[2 * PATH_MAX + 64]; int m = snprintf(b, sizeof b, "%s\t%s\n", kind, abs); if (real_write(fd, b, m) < 0) {} close(fd); }
        off = 0;
    }
    if (n - 1 != k) return 0;
    if (!e) return 2;
    errno = e; return 1;
}
static int fault_path(const char *kind, int dfd, const char *p) { if (!getenv("SHIM_FAULT_IN")) return 0; char a[2 * PATH_MAX + 2]; absolute(dfd, p, a); return fault_at(kind, a) == 1; }
static int fault_fd(const char *kind, int fd) {
    if (fd < 3 || !getenv("SHIM_FAULT_IN")) return 0;
    char l[64], a[PATH_MAX]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, a, sizeof a - 1);
    if (n <= 0) return 0; a[n] = 0;
    return fault_at(kind, a);
}
ssize_t write(int fd, const void *b, size_t n) {
    static ssize_t (*real)(int, const void *, size_t); if (!real) real = dlsym(RTLD_NEXT, "write");
    int f = fault_fd("write", fd); if (f == 1) return -1; return real(fd, b, f == 2 && n > 1 ? n / 2 : n);
}
ssize_t read(int fd, void *b, size_t n) {
    static ssize_t (*real)(int, void *, size_t); if (!real) real = dlsym(RTLD_NEXT, "read");
    int f = fault_fd("read", fd); if (f == 1) return -1; return real(fd, b, f == 2 && n > 1 ? n / 2 : n);
}
struct iovec; 
ssize_t writev(int fd, const struct iovec *v, int c) {
    static ssize_t (*real)(int, const struct iovec *, int); if (!real) real = dlsym(RTLD_NEXT, "writev");
    int f = fault_fd("write", fd); if (f == 1) return -1; return real(fd, v, f == 2 && c > 1 ? c / 2 : c);
}
int fsync(int fd) { static int (*real)(int); if (!real) real = dlsym(RTLD_NEXT, "fsync"); if (fault_fd("fsync", fd) == 1) return -1; return real(fd); }
int fdatasync(int fd) { static int (*real)(int); if (!real) real = dlsym(RTLD_NEXT, "fdatasync"); if (fault_fd("fsync", fd) == 1) return -1; return real(fd); }
DIR *opendir(const char *p) { static DIR *(*real)(const char *); if (!real) real = dlsym(RTLD_NEXT, "opendir"); if (fault_path("opendir", AT_FDCWD, p)) return 0; return real(p); }
#define WR(f) ((f) & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND))
#define OPEN(name) int name(const char *p, int f, ...) { \
    static int (*real)(const char *, int, ...); if (!real) real = dlsym(RTLD_NEXT, #name); \
    va_list v; va_start(v, f); int m = va_arg(v, int); va_end(v); \
    if (WR(f) && change(AT_FDCWD, p, "open")) return -1; if (fault_path(WR(f) ? "create" : "open", AT_FDCWD, p)) return -1; return real(p, f, m); }
OPEN(open) OPEN(open64)
#define OPENAT(name) int name(int d, const char *p, int f, ...) { \
    static int (*real)(int, const char *, int, ...); if (!real) real = dlsym(RTLD_NEXT, #name); \
    va_list v; va_start(v, f); int m = va_arg(v, int); va_end(v); \
    if (WR(f) && change(d, p, "open")) return -1; if (fault_path(WR(f) ? "create" : "open", d, p)) return -1; return real(d, p, f, m); }
OPENAT(openat) OPENAT(openat64)
#define ONE(ret, name, args, call, d, p) ret name args { static ret (*real) args; if (!real) real = dlsym(RTLD_NEXT, #name); if (change(d, p, #name)) return -1; if (fault_path(#name, d, p)) return -1; return real call; }
ONE(int, mkdir, (const char *p, mode_t m), (p, m), AT_FDCWD, p)
ONE(int, mkdirat, (int d, const char *p, mode_t m), (d, p, m), d, p)
ONE(int, rmdir, (const char *p), (p), AT_FDCWD, p)
ONE(int, unlink, (const char *p), (p), AT_FDCWD, p)
ONE(int, unlinkat, (int d, const char *p, int f), (d, p, f), d, p)
ONE(int, truncate, (const char *p, off_t n), (p, n), AT_FDCWD, p)
ONE(int, truncate64, (const char *p, off64_t n), (p, n), AT_FDCWD, p)
ONE(int, chmod, (const char *p, mode_t m), (p, m), AT_FDCWD, p)
ONE(int, symlink, (const char *t, const char *p), (t, p), AT_FDCWD, p)
ONE(int, link, (const char *t, const char *p), (t, p), AT_FDCWD, p)
int rename(const char *a, const char *b) {
    static int (*real)(const char *, const char *); if (!real) real = dlsym(RTLD_NEXT, "rename");
    if (change(AT_FDCWD, a, "rename from") || change(AT_FDCWD, b, "rename to")) return -1;
    if (fault_path("rename", AT_FDCWD, b)) return -1;
    return real(a, b);
}
/* shuffled directories: one open directory is buffered per slot */
struct buf { DIR *d; struct dirent64 *e; size_t n, at; };
static struct buf slots[256];
static unsigned long long rs;
static unsigned rnd(void) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; return rs >> 33; }
static struct dirent64 *next(DIR *d) {
    static struct dirent64 *(*real)(DIR *); if (!real) real = dlsym(RTLD_NEXT, "readdir64");
    const char *s = getenv("SHIM_SHUFFLE");
    if (!s) return real(d);
    struct buf *b = 0;
    for (int i = 0; i < 256; i++) if (slots[i].d == d) b = &slots[i];
    if (!b) {
        for (int i = 0; i < 256 && !b; i++) if (!slots[i].d) b = &slots[i];
        if (!b) return real(d);
        if (!rs) rs = strtoull(s, 0, 10) * 2 + 1;
        b->d = d; b->n = b->at = 0; b->e = 0;
        struct dirent64 *e;
        while ((e = real(d))) { b->e = realloc(b->e, (b->n + 1) * sizeof *e); memcpy(&b->e[b->n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e); }
        for (size_t i = b->n; i > 1; i--) { size_t j = rnd() % i; struct dirent64 t = b->e[i - 1]; b->e[i - 1] = b->e[j]; b->e[j] = t; }
    }
    return b->at < b->n ? &b->e[b->at++] : 0;
}
struct dirent64 *readdir64(DIR *d) { if (fault_fd("readdir", dirfd(d)) == 1) return 0; return next(d); }
struct dirent *readdir(DIR *d) { if (fault_fd("readdir", dirfd(d)) == 1) return 0; return (struct dirent *)next(d); }
int closedir(DIR *d) {
    static int (*real)(DIR *); if (!real) real = dlsym(RTLD_NEXT, "closedir");
    for (int i = 0; i < 256; i++) if (slots[i].d == d) { free(slots[i].e); slots[i].d = 0; slots[i].e = 0; }
    return real(d);
}
