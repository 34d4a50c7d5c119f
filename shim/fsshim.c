/* LD_PRELOAD seam between the Python process and the file system.
 * Calls on paths under one configured directory are announced to a callback before and after they
 * happen; the callback may order a failure (errno) or a short transfer.  Everything else passes. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_WRITE, OP_READ, OP_FSYNC, OP_CLOSE, OP_RENAME, OP_UNLINK, OP_TRUNC, OP_LINK, OP_MKDIR, OP_COPY };

/* phase 0: before; return 0 go on, >0 fail with that errno, <0 transfer only -ret bytes.
 * phase 1: after, with the result. */
typedef long (*cb_t)(int op, int phase, const char *p1, const char *p2, int fd, long arg, long result);

static cb_t cb;
static char root[PATH_MAX];
static size_t rootlen;
static __thread int inside;
#define NFD 4096
static char *fdpath[NFD];

#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f; })

void dst_shim_configure(const char *dir, cb_t f) {
    if (dir) { strncpy(root, dir, sizeof root - 1); rootlen = strlen(root); } else rootlen = 0;
    cb = f;
}
int dst_shim_bypass(int on) { int o = inside; inside = on; return o; }
int dst_shim_open_fds(void) { int n = 0; for (int i = 0; i < NFD; i++) n += fdpath[i] != 0; return n; }

static int under(const char *p, char *out) {
    if (!cb || inside || !rootlen || !p) return 0;
    if (p[0] == '/') snprintf(out, PATH_MAX, "%s", p);
    else { char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) return 0; size_t n = strlen(cwd);
        if (n + strlen(p) + 2 > PATH_MAX) return 0;
        memcpy(out, cwd, n); out[n] = '/'; strcpy(out + n + 1, p); }
    return !strncmp(out, root, rootlen) && (out[rootlen] == '/' || !out[rootlen]);
}
static const char *fdp(int fd) { return (cb && !inside && rootlen && fd >= 0 && fd < NFD) ? fdpath[fd] : 0; }
static long call(int op, int ph, const char *p1, const char *p2, int fd, long arg, long res) {
    int e = errno; inside = 1;
    long r = cb(op, ph, p1, p2, fd, arg, res);
    inside = 0; errno = e; return r;
}

static int after_open(const char *full, int fd, int flags) {
    if (fd >= 0 && fd < NFD) { free(fdpath[fd]); fdpath[fd] = strdup(full); }
    call(OP_OPEN, 1, full, 0, fd, flags, fd);
    return fd;
}
#define OPEN_BODY(CALL) \
    mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); } \
    char full[PATH_MAX]; if (!under(path, full)) return CALL; \
    long r = call(OP_OPEN, 0, full, 0, -1, flags, 0); if (r > 0) { errno = r; return -1; } \
    return after_open(full, CALL, flags);
int open(const char *path, int flags, ...) { OPEN_BODY(REAL(open)(path, flags, mode)) }
int open64(const char *path, int flags, ...) { OPEN_BODY(REAL(open64)(path, flags, mode)) }
int openat(int d, const char *path, int flags, ...) {
    if (d != AT_FDCWD && path[0] != '/') { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); return REAL(openat)(d, path, flags, m); }
    OPEN_BODY(REAL(openat)(d, path, flags, mode)) }
int openat64(int d, const char *path, int flags, ...) {
    if (d != AT_FDCWD && path[0] != '/') { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); return REAL(openat64)(d, path, flags, m); }
    OPEN_BODY(REAL(openat64)(d, path, flags, mode)) }

#define XFER(op, n, CALLFULL, CALLSHORT) \
    const char *p = fdp(fd); if (!p) return CALLFULL; \
    long r = call(op, 0, p, 0, fd, (long)(n), 0); ssize_t k; \
    if (r > 0) { errno = r; return -1; } \
    if (r < 0 && -r < (long)(n)) { size_t sn = (size_t)-r; k = CALLSHORT; } else k = CALLFULL; \
    call(op, 1, p, 0, fd, (long)(n), k); return k;
ssize_t write(int fd, const void *b, size_t n) { XFER(OP_WRITE, n, REAL(write)(fd, b, n), REAL(write)(fd, b, sn)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { XFER(OP_WRITE, n, REAL(pwrite)(fd, b, n, o), REAL(pwrite)(fd, b, sn, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { XFER(OP_WRITE, n, REAL(pwrite64)(fd, b, n, o), REAL(pwrite64)(fd, b, sn, o)) }
ssize_t writev(int fd, const struct iovec *v, int c) { XFER(OP_WRITE, 1, REAL(writev)(fd, v, c), (sn, REAL(writev)(fd, v, c))) }
ssize_t read(int fd, void *b, size_t n) { XFER(OP_READ, n, REAL(read)(fd, b, n), REAL(read)(fd, b, sn)) }
ssize_t pread(int fd, void *b, size_t n, off_t o) { XFER(OP_READ, n, REAL(pread)(fd, b, n, o), REAL(pread)(fd, b, sn, o)) }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { XFER(OP_READ, n, REAL(pread64)(fd, b, n, o), REAL(pread64)(fd, b, sn, o)) }
ssize_t sendfile(int fd, int in, off_t *o, size_t n) { XFER(OP_COPY, n, REAL(sendfile)(fd, in, o, n), REAL(sendfile)(fd, in, o, sn)) }
ssize_t sendfile64(int fd, int in, off64_t *o, size_t n) { XFER(OP_COPY, n, REAL(sendfile64)(fd, in, o, n), REAL(sendfile64)(fd, in, o, sn)) }
ssize_t copy_file_range(int in, off64_t *oi, int fd, off64_t *o, size_t n, unsigned fl) {
    XFER(OP_COPY, n, REAL(copy_file_range)(in, oi, fd, o, n, fl), REAL(copy_file_range)(in, oi, fd, o, sn, fl)) }

#define FDOP(op, arg, CALL) \
    const char *p = fdp(fd); if (!p) return CALL; \
    long r = call(op, 0, p, 0, fd, arg, 0); if (r > 0) { errno = r; return -1; } \
    int k = CALL; call(op, 1, p, 0, fd, arg, k); return k;
int fsync(int fd) { FDOP(OP_FSYNC, 0, REAL(fsync)(fd)) }
int fdatasync(int fd) { FDOP(OP_FSYNC, 0, REAL(fdatasync)(fd)) }
int ftruncate(int fd, off_t n) { FDOP(OP_TRUNC, n, REAL(ftruncate)(fd, n)) }
int ftruncate64(int fd, off64_t n) { FDOP(OP_TRUNC, n, REAL(ftruncate64)(fd, n)) }
int close(int fd) {
    if (fd < 0 || fd >= NFD || !fdpath[fd]) return REAL(close)(fd);
    char *p = fdpath[fd]; fdpath[fd] = 0;
    long r = 0; int live = cb && !inside && rootlen;
    if (live) r = call(OP_CLOSE, 0, p, 0, fd, 0, 0);
    int k = REAL(close)(fd);                 /* an error from close still closes */
    if (r > 0) { errno = r; k = -1; }
    if (live) call(OP_CLOSE, 1, p, 0, fd, 0, k);
    free(p); return k;
}
int dup(int fd) { int k = REAL(dup)(fd); if (k >= 0 && k < NFD && fd >= 0 && fd < NFD && fdpath[fd]) { free(fdpath[k]); fdpath[k] = strdup(fdpath[fd]); } return k; }

#define PATHOP(op, a, b, CALL) \
    char fa[PATH_MAX], fb[PATH_MAX]; int ua = under(a, fa), ub = b ? under(b, fb) : 0; if (!ua && !ub) return CALL; \
    long r = call(op, 0, ua ? fa : a, b ? (ub ? fb : b) : 0, -1, 0, 0); if (r > 0) { errno = r; return -1; } \
    int k = CALL; call(op, 1, ua ? fa : a, b ? (ub ? fb : b) : 0, -1, 0, k); return k;
int rename(const char *a, const char *b) { PATHOP(OP_RENAME, a, b, REAL(rename)(a, b)) }
int renameat(int x, const char *a, int y, const char *b) { PATHOP(OP_RENAME, a, b, REAL(renameat)(x, a, y, b)) }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { PATHOP(OP_RENAME, a, b, REAL(renameat2)(x, a, y, b, f)) }
int link(const char *a, const char *b) { PATHOP(OP_LINK, a, b, REAL(link)(a, b)) }
int symlink(const char *a, const char *b) { PATHOP(OP_LINK, a, b, REAL(symlink)(a, b)) }
int unlink(const char *a) { PATHOP(OP_UNLINK, a, (const char *)0, REAL(unlink)(a)) }
int unlinkat(int d, const char *a, int f) { PATHOP(OP_UNLINK, a, (const char *)0, REAL(unlinkat)(d, a, f)) }
int rmdir(const char *a) { PATHOP(OP_UNLINK, a, (const char *)0, REAL(rmdir)(a)) }
int truncate(const char *a, off_t n) { PATHOP(OP_TRUNC, a, (const char *)0, REAL(truncate)(a, n)) }
int truncate64(const char *a, off64_t n) { PATHOP(OP_TRUNC, a, (const char *)0, REAL(truncate64)(a, n)) }
int mkdir(const char *a, mode_t m) { PATHOP(OP_MKDIR, a, (const char *)0, REAL(mkdir)(a, m)) }
