/* Preloaded into the checks of C20, C21, C25, C34 and C36 to C38: counts the file-system calls on files below
 * an armed folder, cuts the run short or makes one fail at a chosen call, holds
 * the process at every call until it is told to go on, and shifts the real-time clock. Does nothing until armed. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { NONE, CRASH_BEFORE, CRASH_AFTER, FAIL_ENOSPC, FAIL_EIO, SHORT, FULL_DISK, FULL_DISK_PARTIAL, PAUSE };

static char prefix[PATH_MAX];
static size_t prefix_len;
static int armed, mode, fired;
static long target, counter;
static unsigned char tracked[4096];
static char logbuf[1 << 16];
static size_t loglen;
static double clock_offset;
static int pause_out = -1, pause_in = -1;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

void verif_arm(const char *p, long k, int m) {
    snprintf(prefix, sizeof prefix, "%s", p);
    prefix_len = strlen(prefix);
    target = k; mode = m; counter = 0; fired = 0; loglen = 0; logbuf[0] = 0;
    memset(tracked, 0, sizeof tracked);
    armed = 1;
}
void verif_disarm(void) { armed = 0; }
long verif_count(void) { return counter; }
int verif_fired(void) { return fired; }
const char *verif_log(void) { return logbuf; }
void verif_pause(int out, int in) { pause_out = out; pause_in = in; }
void verif_clock(double off) { clock_offset = off; }

static int below(const char *path, int dirfd) {
    char buf[PATH_MAX * 2];
    if (!armed || !path) return 0;
    if (path[0] != '/') {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) {
            if (!getcwd(base, sizeof base)) return 0;
        } else {
            char link[64];
            snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
            ssize_t n = readlink(link, base, sizeof base - 1);
            if (n < 0) return 0;
            base[n] = 0;
        }
        snprintf(buf, sizeof buf, "%s/%s", base, path);
        path = buf;
    }
    return strncmp(path, prefix, prefix_len) == 0;
}

static int known(int fd) { return armed && fd >= 0 && fd < (int)sizeof tracked && tracked[fd]; }

/* tells the other side which call is about to be made and waits for its byte: 'c' go on, 'g' go on to the end */
static void hold(const char *what) {
    REAL(ssize_t, write, int, const void *, size_t);
    REAL(ssize_t, read, int, void *, size_t);
    char rec[16] = {0}, c = 0;
    snprintf(rec, sizeof rec, "%s", what);
    if (real_write(pause_out, rec, sizeof rec) != sizeof rec || real_read(pause_in, &c, 1) != 1 || c == 'g') mode = NONE;
}

/* what to do at this call: 0 go on, >0 errno to fail with, -1 crash after it, -2 cut it short,
 * -3 cut it short and fail from then on, -4 hold in the middle of it */
static int step(const char *what, int writes) {
    counter++;
    size_t n = strlen(what);
    if (loglen + n + 2 < sizeof logbuf) {
        memcpy(logbuf + loglen, what, n);
        loglen += n;
        logbuf[loglen++] = ' ';
        logbuf[loglen] = 0;
    }
    if (mode == NONE) return 0;
    if (mode == PAUSE) { hold(what); return writes && mode == PAUSE ? -4 : 0; }
    if (mode == FULL_DISK || mode == FULL_DISK_PARTIAL) {
        if (counter == target) {
            fired = 1;
            if (!writes) return 0;
            return mode == FULL_DISK_PARTIAL ? -3 : ENOSPC;
        }
        if (counter > target && writes) return ENOSPC;
        return 0;
    }
    if (counter != target) return 0;
    fired = 1;
    switch (mode) {
    case CRASH_BEFORE: _exit(77);
    case CRASH_AFTER: return -1;
    case FAIL_ENOSPC: return ENOSPC;
    case FAIL_EIO: return EIO;
    case SHORT: return -2;
    }
    return 0;
}
#define FAIL(e) do { errno = (e); return -1; } while (0)
#define AFTER(s) do { if ((s) == -1) _exit(77); } while (0)

static int wr(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }

/* a full disk has no room for new files (or, once in the middle of a write, only none for data);
 * files that are there can still be opened and truncated */
static int creates(int d, const char *path, int flags) {
    if (mode == FULL_DISK_PARTIAL) return 0;
    if (mode == FULL_DISK) return (flags & O_CREAT) && faccessat(d, path, F_OK, 0) != 0;
    return wr(flags);
}

static void track(int fd) { if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = 1; }

#define OPEN_LIKE(name) \
int name(const char *path, int flags, ...) { \
    REAL(int, name, const char *, int, ...); \
    mode_t m = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    if (!below(path, AT_FDCWD)) return real_##name(path, flags, m); \
    int s = step(wr(flags) ? "open-w" : "open-r", creates(AT_FDCWD, path, flags)); \
    if (s > 0) FAIL(s); \
    int fd = real_##name(path, flags, m); \
    track(fd); AFTER(s); return fd; \
}
OPEN_LIKE(open)
OPEN_LIKE(open64)

#define OPENAT_LIKE(name) \
int name(int d, const char *path, int flags, ...) { \
    REAL(int, name, int, const char *, int, ...); \
    mode_t m = 0; \
    if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    if (!below(path, d)) return real_##name(d, path, flags, m); \
    int s = step(wr(flags) ? "open-w" : "open-r", creates(d, path, flags)); \
    if (s > 0) FAIL(s); \
    int fd = real_##name(d, path, flags, m); \
    track(fd); AFTER(s); return fd; \
}
OPENAT_LIKE(openat)
OPENAT_LIKE(openat64)

int close(int fd) {
    REAL(int, close, int);
    if (!known(fd)) return real_close(fd);
    int s = step("close", 0);
    tracked[fd] = 0;
    int r = real_close(fd);
    if (s > 0) FAIL(s);
    AFTER(s);
    return r;
}

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    if (!known(fd)) return real_write(fd, b, n);
    int s = step("write", 1);
    if (s > 0) FAIL(s);
    if (s == -4 && n > 1) { ssize_t r = real_write(fd, b, n / 2); hold("mid-write"); return r; }
    if (s == -3) { if (n / 2) return real_write(fd, b, n / 2); FAIL(ENOSPC); }
    if (s == -2) return real_write(fd, b, n / 2 ? n / 2 : n);
    if (s == -1) { /* dies in the middle of the write */
        real_write(fd, b, n - n / 3);
        _exit(77);
    }
    return real_write(fd, b, n);
}

#define PWRITE_LIKE(name, off) \
ssize_t name(int fd, const void *b, size_t n, off o) { \
    REAL(ssize_t, name, int, const void *, size_t, off); \
    if (!known(fd)) return real_##name(fd, b, n, o); \
    int s = step("pwrite", 1); \
    if (s > 0) FAIL(s); \
    if (s == -3 || s == -2) return real_##name(fd, b, n / 2 ? n / 2 : n, o); \
    if (s == -1) { real_##name(fd, b, n - n / 3, o); _exit(77); } \
    return real_##name(fd, b, n, o); \
}
PWRITE_LIKE(pwrite, off_t)
PWRITE_LIKE(pwrite64, off64_t)

ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!known(fd)) return real_writev(fd, v, c);
    int s = step("writev", 1);
    if (s > 0) FAIL(s);
    if (s == -3) FAIL(ENOSPC);
    if (s == -2 || s == -1) { ssize_t r = real_writev(fd, v, 1); if (s == -1) _exit(77); return r; }
    return real_writev(fd, v, c);
}

ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, read, int, void *, size_t);
    if (!known(fd)) return real_read(fd, b, n);
    int s = step("read", 0);
    if (s > 0) FAIL(s);
    if (s == -2) return real_read(fd, b, n / 2 ? n / 2 : n);
    ssize_t r = real_read(fd, b, n);
    AFTER(s);
    return r;
}

#define TRUNC_LIKE(name, off) \
int name(int fd, off o) { \
    REAL(int, name, int, off); \
    if (!known(fd)) return real_##name(fd, o); \
    int s = step("ftruncate", 1); \
    if (s > 0) FAIL(s); \
    if (s == -3) FAIL(ENOSPC); \
    int r = real_##name(fd, o); AFTER(s); return r; \
}
TRUNC_LIKE(ftruncate, off_t)
TRUNC_LIKE(ftruncate64, off64_t)

#define FD_LIKE(name) \
int name(int fd) { \
    REAL(int, name, int); \
    if (!known(fd)) return real_##name(fd); \
    int s = step(#name, 1); \
    if (s > 0) FAIL(s); \
    if (s == -3) FAIL(ENOSPC); \
    int r = real_##name(fd); AFTER(s); return r; \
}
FD_LIKE(fsync)
FD_LIKE(fdatasync)

int fchmod(int fd, mode_t m) {
    REAL(int, fchmod, int, mode_t);
    if (!known(fd)) return real_fchmod(fd, m);
    int s = step("fchmod", 1);
    if (s > 0) FAIL(s);
    if (s == -3) FAIL(ENOSPC);
    int r = real_fchmod(fd, m); AFTER(s); return r;
}


int unlink(const char *p) {
    REAL(int, unlink, const char *);
    if (!below(p, AT_FDCWD)) return real_unlink(p);
    int s = step("unlink", 0);
    if (s > 0) FAIL(s);
    int r = real_unlink(p); AFTER(s); return r;
}
int unlinkat(int d, const char *p, int f) {
    REAL(int, unlinkat, int, const char *, int);
    if (!below(p, d)) return real_unlinkat(d, p, f);
    int s = step("unlink", 0);
    if (s > 0) FAIL(s);
    int r = real_unlinkat(d, p, f); AFTER(s); return r;
}
int rename(const char *a, const char *b) {
    REAL(int, rename, const char *, const char *);
    if (!below(a, AT_FDCWD) && !below(b, AT_FDCWD)) return real_rename(a, b);
    int s = step("rename", 1);
    if (s > 0) FAIL(s);
    if (s == -3) FAIL(ENOSPC);
    int r = real_rename(a, b); AFTER(s); return r;
}
int renameat(int d, const char *a, int e, const char *b) {
    REAL(int, renameat, int, const char *, int, const char *);
    if (!below(a, d) && !below(b, e)) return real_renameat(d, a, e, b);
    int s = step("rename", 1);
    if (s > 0) FAIL(s);
    if (s == -3) FAIL(ENOSPC);
    int r = real_renameat(d, a, e, b); AFTER(s); return r;
}
int renameat2(int d, const char *a, int e, const char *b, unsigned f) {
    REAL(int, renameat2, int, const char *, int, const char *, unsigned);
    if (!below(a, d) && !below(b, e)) return real_renameat2(d, a, e, b, f);
    int s = step("rename", 1);
    if (s > 0) FAIL(s);
    if (s == -3) FAIL(ENOSPC);
    int r = real_renameat2(d, a, e, b, f); AFTER(s); return r;
}
int link(const char *a, const char *b) {
    REAL(int, link, const char *, const char *);
    if (!below(b, AT_FDCWD)) return real_link(a, b);
    int s = step("link", 1);
    if (s > 0) FAIL(s);
    if (s == -3) FAIL(ENOSPC);
    int r = real_link(a, b); AFTER(s); return r;
}
int mkdir(const char *p, mode_t m) {
    REAL(int, mkdir, const char *, mode_t);
    if (!below(p, AT_FDCWD)) return real_mkdir(p, m);
    int s = step("mkdir", 1);
    if (s > 0) FAIL(s);
    if (s == -3) FAIL(ENOSPC);
    int r = real_mkdir(p, m); AFTER(s); return r;
}
int mkdirat(int d, const char *p, mode_t m) {
    REAL(int, mkdirat, int, const char *, mode_t);
    if (!below(p, d)) return real_mkdirat(d, p, m);
    int s = step("mkdir", 1);
    if (s > 0) FAIL(s);
    if (s == -3) FAIL(ENOSPC);
    int r = real_mkdirat(d, p, m); AFTER(s); return r;
}
int rmdir(const char *p) {
    REAL(int, rmdir, const char *);
    if (!below(p, AT_FDCWD)) return real_rmdir(p);
    int s = step("rmdir", 0);
    if (s > 0) FAIL(s);
    int r = real_rmdir(p); AFTER(s); return r;
}
DIR *opendir(const char *p) {
    REAL(DIR *, opendir, const char *);
    if (!below(p, AT_FDCWD)) return real_opendir(p);
    int s = step("opendir", 0);
    if (s > 0) { errno = s; return NULL; }
    DIR *r = real_opendir(p); AFTER(s); return r;
}
int chmod(const char *p, mode_t m) {
    REAL(int, chmod, const char *, mode_t);
    if (!below(p, AT_FDCWD)) return real_chmod(p, m);
    int s = step("chmod", 1);
    if (s > 0) FAIL(s);
    if (s == -3) FAIL(ENOSPC);
    int r = real_chmod(p, m); AFTER(s); return r;
}
int fchmodat(int d, const char *p, mode_t m, int f) {
    REAL(int, fchmodat, int, const char *, mode_t, int);
    if (!below(p, d)) return real_fchmodat(d, p, m, f);
    int s = step("chmod", 1);
    if (s > 0) FAIL(s);
    if (s == -3) FAIL(ENOSPC);
    int r = real_fchmodat(d, p, m, f); AFTER(s); return r;
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
    if (!known(o)) return real_sendfile64(o, i, off, n);
    int s = step("sendfile", 1);
    if (s > 0) FAIL(s);
    if (s == -3) FAIL(ENOSPC);
    if (s == -2) return real_sendfile64(o, i, off, n / 2 ? n / 2 : n);
    if (s == -1) { real_sendfile64(o, i, off, n > 64 ? 64 : n); _exit(77); }
    return real_sendfile64(o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    REAL(ssize_t, sendfile, int, int, off_t *, size_t);
    if (!known(o)) return real_sendfile(o, i, off, n);
    int s = step("sendfile", 1);
    if (s > 0) FAIL(s);
    if (s == -3) FAIL(ENOSPC);
    if (s == -2) return real_sendfile(o, i, off, n / 2 ? n / 2 : n);
    if (s == -1) { real_sendfile(o, i, off, n > 64 ? 64 : n); _exit(77); }
    return real_sendfile(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
    if (!known(o)) return real_copy_file_range(i, io, o, oo, n, f);
    int s = step("copy_file_range", 1);
    if (s > 0) FAIL(s);
    if (s == -3) FAIL(ENOSPC);
    ssize_t r = real_copy_file_range(i, io, o, oo, n, f); AFTER(s); return r;
}

/* stdio, in case a file is ever written through it */
#define FOPEN_LIKE(name) \
FILE *name(const char *p, const char *m) { \
    REAL(FILE *, name, const char *, const char *); \
    if (!below(p, AT_FDCWD)) return real_##name(p, m); \
    int w = strpbrk(m, "wa+") != NULL; \
    int s = step(w ? "open-w" : "open-r", w); \
    if (s > 0 || s == -3) { errno = s > 0 ? s : ENOSPC; return NULL; } \
    FILE *f = real_##name(p, m); \
    if (f) track(fileno(f)); \
    if (s == -1) _exit(77); \
    return f; \
}
FOPEN_LIKE(fopen)
FOPEN_LIKE(fopen64)

/* clock */
int clock_gettime(clockid_t c, struct timespec *t) {
    REAL(int, clock_gettime, clockid_t, struct timespec *);
    int r = real_clock_gettime(c, t);
    if (r == 0 && clock_offset != 0 && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
        long long ns = (long long)t->tv_sec * 1000000000LL + t->tv_nsec + (long long)(clock_offset * 1e9);
        t->tv_sec = ns / 1000000000LL;
        t->tv_nsec = ns % 1000000000LL;
    }
    return r;
}
