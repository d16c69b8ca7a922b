/* LD_PRELOAD: logs what a process does to files, and makes chosen calls fail.
 *
 * WB_LOG    file that gets one line per event (opened with O_APPEND)
 * WB_ROOT   reads and opens are counted for paths below this directory only
 * WB_FAULT  none, or KIND:K:ERRNO (the K-th event of this kind, from 1, and
 *           with K negative this one and all later ones, fails), or
 *           random:SEED (transfers are short; opens and writes are interrupted)
 * Kinds: openr openw read write
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
enum { NONE, READING, WRITING };
static unsigned char fds[MAXFD];
static const char *root, *logpath;
static char kind[16];
static long at, err_no, counts[4];
static uint64_t seed;
static int ready;
static const char *const KINDS[] = {"openr", "openw", "read", "write"};

static void start(void) {
    if (ready) return;
    ready = 1;
    root = getenv("WB_ROOT");
    logpath = getenv("WB_LOG");
    const char *f = getenv("WB_FAULT");
    if (f) {
        if (!strncmp(f, "random:", 7)) seed = strtoull(f + 7, 0, 10) * 2654435769u + 1;
        else sscanf(f, "%15[a-z]:%ld:%ld", kind, &at, &err_no);
    }
}

static void note(const char *format, ...) {
    char line[5000];
    va_list ap;
    if (!logpath) return;
    int e = errno;
    va_start(ap, format);
    int n = vsnprintf(line, sizeof line - 1, format, ap);
    va_end(ap);
    if (n > (int)sizeof line - 2) n = sizeof line - 2;
    for (int i = 0; i < n; i++) if (line[i] == '\n') line[i] = '?';
    line[n++] = '\n';
    int fd = syscall(SYS_openat, AT_FDCWD, logpath, O_WRONLY | O_APPEND | O_CREAT, 0600);
    if (fd >= 0) {
        (void)!syscall(SYS_write, fd, line, n);
        syscall(SYS_close, fd);
    }
    errno = e;
}

static uint32_t rnd(void) {
    seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17;
    return seed >> 11;
}

/* The errno to fail with, or 0. */
static int event(int k, const char *what) {
    long n = ++counts[k];
    int hit = !strcmp(kind, KINDS[k]) && (n == labs(at) || (at < 0 && n > -at));
    note("%s %ld %s%s", KINDS[k], n, hit ? "FAULT " : "", what);
    return hit ? (int)err_no : 0;
}

static int below(const char *path) {
    char full[4096];
    if (!root) return 0;
    if (path[0] != '/') {
        if (syscall(SYS_getcwd, full, sizeof full) < 0) return 0;
        return !strncmp(full, root, strlen(root));
    }
    return !strncmp(path, root, strlen(root));
}

static int do_open(int dir, const char *path, int flags, mode_t mode) {
    start();
    int writes = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    int e = 0;
    if (writes) {
        note("touch %s", path);
        e = event(1, path);
    } else if (below(path)) {
        e = event(0, path);
    }
    if (e) { errno = e; return -1; }
    if (seed && rnd() % 5 == 0) { errno = EINTR; note("interrupted open"); return -1; }
    int fd = syscall(SYS_openat, dir, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) {
        struct stat st;
        fds[fd] = NONE;
        if (writes) fds[fd] = WRITING;
        else if (below(path) && fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) fds[fd] = READING;
    }
    return fd;
}

#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int openat(int dir, const char *path, int flags, ...) { MODE return do_open(dir, path, flags, mode); }
int openat64(int dir, const char *path, int flags, ...) { MODE return do_open(dir, path, flags, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd) {
    if (fd >= 0 && fd < MAXFD) fds[fd] = NONE;
    return syscall(SYS_close, fd);
}

/* How many bytes a transfer of n moves, or -1 when it fails. */
static ssize_t transfer(int fd, int k, size_t n) {
    char what[32];
    start();
    int mine = fd >= 0 && fd < MAXFD && (k == 2 ? fds[fd] == READING : fds[fd] == WRITING || fd == 1);
    if (!mine) return n;
    snprintf(what, sizeof what, "fd %d, %zu", fd, n);
    int e = event(k, what);
    if (e) { errno = e; return -1; }
    if (seed) {
        uint32_t r = rnd();
        if (r % 4 == 0 && k == 3) { errno = EINTR; note("interrupted %s", KINDS[k]); return -1; }
        if (n > 1 && r % 4 != 1) {
            size_t m = 1 + (r >> 4) % (r & 8 ? n : n > 7 ? 7 : n);
            if (m < n) note("short %s", KINDS[k]);
            return m;
        }
    }
    return n;
}

ssize_t read(int fd, void *buf, size_t n) {
    ssize_t m = transfer(fd, 2, n);
    return m < 0 ? m : syscall(SYS_read, fd, buf, m);
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t o) {
    ssize_t m = transfer(fd, 2, n);
    return m < 0 ? m : syscall(SYS_pread64, fd, buf, m, o);
}
ssize_t write(int fd, const void *buf, size_t n) {
    ssize_t m = transfer(fd, 3, n);
    return m < 0 ? m : syscall(SYS_write, fd, buf, m);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
    ssize_t m = transfer(fd, 3, n);
    return m < 0 ? m : syscall(SYS_pwrite64, fd, buf, m, o);
}
static ssize_t vector(int fd, int k, const struct iovec *v, int count) {
    for (int i = 0; i < count; i++)
        if (v[i].iov_len || i == count - 1) {
            ssize_t m = transfer(fd, k, v[i].iov_len);
            if (m < 0) return m;
            return syscall(k == 2 ? SYS_read : SYS_write, fd, v[i].iov_base, m);
        }
    return 0;
}
ssize_t readv(int fd, const struct iovec *v, int count) { return vector(fd, 2, v, count); }
ssize_t writev(int fd, const struct iovec *v, int count) { return vector(fd, 3, v, count); }

/* Shortcuts of the kernel: refused, so that the caller has to read and write. */
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { errno = ENOSYS; return -1; }
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { errno = ENOSYS; return -1; }

int unlink(const char *p) { start(); note("touch %s", p); return syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int f) { start(); note("touch %s", p); return syscall(SYS_unlinkat, d, p, f); }
int rmdir(const char *p) { start(); note("touch %s", p); return syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); }
int mkdir(const char *p, mode_t m) { start(); note("touch %s", p); return syscall(SYS_mkdirat, AT_FDCWD, p, m); }
int rename(const char *a, const char *b) { start(); note("touch %s", a); note("touch %s", b); return syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b); }
int chmod(const char *p, mode_t m) { start(); note("touch %s", p); return syscall(SYS_fchmodat, AT_FDCWD, p, m); }
int truncate64(const char *p, off64_t n) { start(); note("touch %s", p); return syscall(SYS_truncate, p, n); }
