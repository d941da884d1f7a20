// LD_PRELOAD fault injector: repeats natively the faults the symbolic executor chose.
// Reads `f WHAT at op N (...)` lines of $VSYM_REPLAY; counts operations once vshim_arm(mode) was called.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
struct f { long op; int kind; long cut; };
static struct f F[16];
static int nf, armed, hit, sticky;
static unsigned long mode;
static long ops;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
enum { NONE, ERR, SHORT, BEFORE, AFTER, CUT };
#define REAL(r, name, ...) static r (*real_##name)(__VA_ARGS__); if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)
void vshim_arm(unsigned long m) {
    mode = m;
    if (!armed) {
        const char *p = getenv("VSYM_REPLAY");
        FILE *h = p ? fopen(p, "r") : NULL;
        char l[4096];
        while (h && fgets(l, sizeof l, h)) {
            if (l[0] != 'f' || l[1] != ' ') continue;
            char *a = strstr(l, " at op ");
            if (!a || nf == 16) continue;
            F[nf].op = atol(a + 7);
            F[nf].cut = 0;
            if (!strncmp(l + 2, "error", 5)) F[nf].kind = ERR;
            else if (!strncmp(l + 2, "short", 5)) F[nf].kind = SHORT;
            else if (!strncmp(l + 2, "crash before", 12)) F[nf].kind = BEFORE;
            else if (sscanf(l + 2, "crash after %ld bytes", &F[nf].cut) == 1) F[nf].kind = CUT;
            else F[nf].kind = AFTER;
            nf++;
        }
        if (h) fclose(h);
    }
    armed = m != 0;
}
unsigned long vshim_hit(void) { return hit; }
// the fault at this operation; a death ends the process as `kill -9` would, with the exit code the driver expects
static int point(const char *what, long *cut, int is_write) {
    if (!armed) return NONE;
    pthread_mutex_lock(&mu);
    ops++;
    if (getenv("VSHIM_TRACE")) fprintf(stderr, "op %ld %s\n", ops, what);
    int k = NONE;
    if (sticky && is_write) {
        sticky &= 2;
        k = ERR;
    } else
        for (int i = 0; i < nf; i++)
            if (F[i].op == ops) {
                k = F[i].kind;
                *cut = F[i].cut;
                hit = 1;
                if (k == SHORT || (k == ERR && (mode & 16))) sticky = (mode & 16) ? 2 : 1;
            }
    pthread_mutex_unlock(&mu);
    if (k == BEFORE) _exit(42);
    return k;
}
static ssize_t rwrite(int fd, const void *b, size_t n) { REAL(ssize_t, write, int, const void *, size_t); return real_write(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) {
    if (fd <= 2 || n == 0) return rwrite(fd, b, n);
    long cut = 0;
    switch (point("write", &cut, 1)) {
    case ERR: errno = ENOSPC; return -1;
    case SHORT: return rwrite(fd, b, n / 2 ? n / 2 : n);
    case CUT: rwrite(fd, b, (size_t)cut < n ? (size_t)cut : n); _exit(42);
    case AFTER: rwrite(fd, b, n); _exit(42);
    }
    return rwrite(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!armed || fd <= 2) return real_writev(fd, v, c);
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    char *b = malloc(n + 1), *p = b;
    for (int i = 0; i < c; i++) { memcpy(p, v[i].iov_base, v[i].iov_len); p += v[i].iov_len; }
    ssize_t r = write(fd, b, n);
    int e = errno;
    free(b);
    errno = e;
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
    long cut = 0;
    switch (n ? point("pwrite", &cut, 1) : NONE) {
    case ERR: errno = ENOSPC; return -1;
    case SHORT: return real_pwrite64(fd, b, n / 2 ? n / 2 : n, o);
    case CUT: real_pwrite64(fd, b, (size_t)cut < n ? (size_t)cut : n, o); _exit(42);
    case AFTER: real_pwrite64(fd, b, n, o); _exit(42);
    }
    return real_pwrite64(fd, b, n, o);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, int, void *, size_t);
    long cut;
    if (fd > 2 && armed && (mode & 4) && point("read", &cut, 0) == ERR) { errno = EIO; return -1; }
    return real_read(fd, b, n);
}
// the symbolic model has no in-kernel copies: std falls back to read and write
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)n; (void)f; errno = ENOSYS; return -1; }
ssize_t sendfile64(int a, int b, off64_t *c, size_t n) { (void)a; (void)b; (void)c; (void)n; errno = ENOSYS; return -1; }
ssize_t sendfile(int a, int b, off_t *c, size_t n) { (void)a; (void)b; (void)c; (void)n; errno = ENOSYS; return -1; }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)n; (void)f; errno = ENOSYS; return -1; }
static int do_open(const char *p, int fl, mode_t m) {
    REAL(int, open64, const char *, int, ...);
    struct stat st;
    int ex = stat(p, &st) == 0, after = 0;
    if (armed && !(ex && S_ISDIR(st.st_mode)) && !(ex && (fl & O_CREAT) && (fl & O_EXCL)) && ((!ex && (fl & O_CREAT)) || (ex && (fl & O_TRUNC)))) {
        long cut;
        switch (point("open", &cut, 0)) {
        case ERR: errno = EIO; return -1;
        case AFTER: after = 1;
        }
    }
    int r = real_open64(p, fl, m);
    if (after) _exit(42);
    return r;
}
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(p, fl, m); }
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(p, fl, m); }
#define OP2(name) \
int name(const char *a, const char *b) { \
    REAL(int, name, const char *, const char *); \
    long cut; int k = point(#name, &cut, 0); \
    if (k == ERR) { errno = EIO; return -1; } \
    int r = real_##name(a, b); \
    if (k == AFTER) _exit(42); \
    return r; }
OP2(rename)
OP2(link)
int renameat2(int da, const char *a, int db, const char *b, unsigned f) {
    REAL(int, renameat2, int, const char *, int, const char *, unsigned);
    long cut; int k = point("renameat2", &cut, 0);
    if (k == ERR) { errno = EIO; return -1; }
    int r = real_renameat2(da, a, db, b, f);
    if (k == AFTER) _exit(42);
    return r;
}
int unlink(const char *a) {
    REAL(int, unlink, const char *);
    long cut; int k = point("unlink", &cut, 0);
    if (k == ERR) { errno = EIO; return -1; }
    int r = real_unlink(a);
    if (k == AFTER) _exit(42);
    return r;
}
int ftruncate64(int fd, off64_t n) {
    REAL(int, ftruncate64, int, off64_t);
    long cut; int k = point("ftruncate", &cut, 0);
    if (k == ERR) { errno = EIO; return -1; }
    int r = real_ftruncate64(fd, n);
    if (k == AFTER) _exit(42);
    return r;
}
