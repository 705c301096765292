/* Preloaded into kexec: fails or kills the process at a chosen storage operation.
   Only files below KV_FAULT_DIR count.  Operations counted: write, pwrite, fsync, fdatasync,
   ftruncate, unlink and creating opens; with mode 6 the reads instead.                     */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>

enum { NONE, KILL, TEAR, EIO1, NOSPC, EIOSTICK, READ1, READSTICK };
static volatile long armed = -1, count = 0;
static volatile int mode = NONE;
static const char *dir;
static size_t dirlen;

long kv_arm(long n, int m)
{
    long c = count;
    dir = getenv("KV_FAULT_DIR");
    dirlen = dir ? strlen(dir) : 0;
    count = 0;
    mode = n < 0 ? NONE : m;
    armed = n;
    return c;
}

static int inpath(const char *p) { return dirlen && p && strncmp(p, dir, dirlen) == 0; }
static int infd(int fd)
{
    char l[64], b[512];
    if (!dirlen) return 0;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, b, sizeof b - 1);
    if (n <= 0) return 0;
    b[n] = 0;
    return inpath(b);
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

/* 0: go on; 1: tear; else errno */
static int hit(int reading, int writing)
{
    if (armed < 0 || (mode >= READ1) != reading) { return 0; }
    long c = __sync_add_and_fetch(&count, 1);
    if (c < armed) return 0;
    switch (mode) {
    case KILL: die();
    case TEAR: return 1;
    case EIO1: case READ1: return c == armed ? EIO : 0;
    case NOSPC: return writing ? ENOSPC : 0;
    case EIOSTICK: case READSTICK: return EIO;
    }
    return 0;
}
#define REAL(ret, name, ...) static ret (*r)(__VA_ARGS__); if (!r) r = dlsym(RTLD_NEXT, name)
#define WRAPW(nm, offt) \
ssize_t nm(int fd, const void *b, size_t n, offt o) { \
    REAL(ssize_t, #nm, int, const void *, size_t, offt); \
    if (armed >= 0 && infd(fd)) { int e = hit(0, 1); \
        if (e == 1) { r(fd, b, n / 2, o); die(); } \
        if (e) { errno = e; return -1; } } \
    return r(fd, b, n, o); }
WRAPW(pwrite, off_t)
WRAPW(pwrite64, off64_t)
ssize_t write(int fd, const void *b, size_t n)
{
    REAL(ssize_t, "write", int, const void *, size_t);
    if (armed >= 0 && infd(fd)) { int e = hit(0, 1);
        if (e == 1) { r(fd, b, n / 2); die(); }
        if (e) { errno = e; return -1; } }
    return r(fd, b, n);
}
#define WRAPR(nm, offt) \
ssize_t nm(int fd, void *b, size_t n, offt o) { \
    REAL(ssize_t, #nm, int, void *, size_t, offt); \
    if (armed >= 0 && infd(fd)) { int e = hit(1, 0); if (e) { errno = e; return -1; } } \
    return r(fd, b, n, o); }
WRAPR(pread, off_t)
WRAPR(pread64, off64_t)
ssize_t read(int fd, void *b, size_t n)
{
    REAL(ssize_t, "read", int, void *, size_t);
    if (armed >= 0 && infd(fd)) { int e = hit(1, 0); if (e) { errno = e; return -1; } }
    return r(fd, b, n);
}
#define WRAP1(nm, wr) \
int nm(int fd) { REAL(int, #nm, int); \
    if (armed >= 0 && infd(fd)) { int e = hit(0, wr); if (e == 1) { r(fd); die(); } if (e) { errno = e; return -1; } } \
    return r(fd); }
WRAP1(fsync, 0)
WRAP1(fdatasync, 0)
#define WRAPT(nm, offt) \
int nm(int fd, offt o) { REAL(int, #nm, int, offt); \
    if (armed >= 0 && infd(fd)) { int e = hit(0, 0); if (e == 1) { r(fd, o); die(); } if (e) { errno = e; return -1; } } \
    return r(fd, o); }
WRAPT(ftruncate, off_t)
WRAPT(ftruncate64, off64_t)
int unlink(const char *p)
{
    REAL(int, "unlink", const char *);
    if (armed >= 0 && inpath(p)) { int e = hit(0, 0); if (e == 1) { r(p); die(); } if (e) { errno = e; return -1; } }
    return r(p);
}
#define WRAPO(nm) \
int nm(const char *p, int fl, ...) { REAL(int, #nm, const char *, int, ...); \
    va_list a; va_start(a, fl); int md = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); \
    if (armed >= 0 && (fl & O_CREAT) && inpath(p)) { int e = hit(0, 1); \
        if (e == 1) { r(p, fl, md); die(); } if (e) { errno = e; return -1; } } \
    return r(p, fl, md); }
WRAPO(open)
WRAPO(open64)
