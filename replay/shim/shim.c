// LD_PRELOAD: counts the operations that change files below VSHIM_ROOT and makes one of them crash or fail.
// VSHIM_ROOT   directory prefix, only operations there count
// VSHIM_AT     number (from 1) of the operation at which something happens; 0 or unset: never
// VSHIM_MODE   kill: end the process just before the operation; half: write only half of the data, then end the
//              process (kill for other operations); err: fail with VSHIM_ERRNO; full: from there on all writes and creations fail with ENOSPC
// VSHIM_LOG    file to which every counted operation is appended
// VSHIM_EIO    opening or reading a file with this in its path fails with EIO (reads only)
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <dirent.h>

static long count;
static const char *env(const char *n) { const char *v = getenv(n); return v && *v ? v : NULL; }
static int inside(const char *p) {
    const char *r = env("VSHIM_ROOT");
    if (!r || !p) return 0;
    char buf[PATH_MAX * 2];
    if (!strncmp(p, "anon_inode", 10) || strchr(p, ':') == p + 4) return 0;
    if (p[0] != '/') { char c[PATH_MAX]; if (!getcwd(c, sizeof c)) return 0; snprintf(buf, sizeof buf, "%s/%s", c, p); p = buf; }
    size_t n = strlen(r);
    return !strncmp(p, r, n) && (p[n] == '/' || p[n] == 0);
}
static int fdpath(int fd, char *out) {
    char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlink, l, out, PATH_MAX - 1);
    if (n < 0) return 0;
    out[n] = 0; return out[0] == '/';
}
static void note(const char *op, const char *p) {
    const char *l = env("VSHIM_LOG");
    if (!l) return;
    char b[PATH_MAX * 2]; int n = snprintf(b, sizeof b, "%ld %s %s\n", count, op, p ? p : "");
    int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd >= 0) { syscall(SYS_write, fd, b, n); syscall(SYS_close, fd); }
}
// 0: go on, 1: fail with errno set, 2: do half of it and end
static int at_op(const char *op, const char *p, int data) {
    long at = env("VSHIM_AT") ? atol(getenv("VSHIM_AT")) : 0;
    long c = __sync_add_and_fetch(&count, 1);
    note(op, p);
    if (!at) return 0;
    const char *m = env("VSHIM_MODE"); if (!m) m = "kill";
    if (!strcmp(m, "full")) { if (c >= at && data) { errno = ENOSPC; return 1; } return 0; }
    if (c != at) return 0;
    if (!strcmp(m, "err")) { errno = env("VSHIM_ERRNO") ? atoi(getenv("VSHIM_ERRNO")) : EIO; return 1; }
    if (!strcmp(m, "half") && data == 2) return 2;
    syscall(SYS_exit_group, 77);
    return 0;
}
static int at_fd(const char *op, int fd, int data) {
    char p[PATH_MAX];
    if (!env("VSHIM_ROOT") || !fdpath(fd, p) || !inside(p)) return 0;
    return at_op(op, p, data);
}
static int bad_read(const char *p) { const char *x = env("VSHIM_EIO"); return x && p && strstr(p, x); }
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)

static int do_open(const char *fn, int dfd, const char *p, int flags, mode_t mode) {
    int w = flags & (O_CREAT | O_TRUNC);
    if (dfd == AT_FDCWD || p[0] == '/') {
        if (w && inside(p)) { if (at_op("open", p, 1)) return -1; }
        else if (!w && !(flags & O_DIRECTORY) && bad_read(p)) { errno = EIO; return -1; }
    }
    (void)fn;
    return syscall(SYS_openat, dfd, p, flags | O_LARGEFILE, mode);
}
#define MODE va_list ap; va_start(ap, flags); mode_t mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap)
int open(const char *p, int flags, ...) { MODE; return do_open("open", AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE; return do_open("open", AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE; return do_open("open", d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE; return do_open("open", d, p, flags, mode); }

ssize_t write(int fd, const void *b, size_t n) {
    int r = at_fd("write", fd, 2);
    if (r == 1) return -1;
    if (r == 2) { syscall(SYS_write, fd, b, n / 2); syscall(SYS_exit_group, 77); }
    return syscall(SYS_write, fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
    if (at_fd("write", fd, 1)) return -1;
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    int r = at_fd("write", fd, 2);
    if (r == 1) return -1;
    if (r == 2) { if (n) syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len / 2); syscall(SYS_exit_group, 77); }
    return syscall(SYS_writev, fd, v, n);
}
ssize_t copy_file_range(int i, off_t *oi, int o, off_t *oo, size_t n, unsigned f) {
    int r = at_fd("write", o, 2);
    if (r == 1) return -1;
    if (r == 2) { struct stat st; size_t k = n; if (!fstat(i, &st) && (size_t)st.st_size < k) k = st.st_size; syscall(SYS_copy_file_range, i, oi, o, oo, k / 2, f); syscall(SYS_exit_group, 77); }
    return syscall(SYS_copy_file_range, i, oi, o, oo, n, f);
}
ssize_t sendfile(int o, int i, off_t *of, size_t n) {
    int r = at_fd("write", o, 2);
    if (r == 1) return -1;
    if (r == 2) { struct stat st; size_t k = n; if (!fstat(i, &st) && (size_t)st.st_size < k) k = st.st_size; syscall(SYS_sendfile, o, i, of, k / 2); syscall(SYS_exit_group, 77); }
    return syscall(SYS_sendfile, o, i, of, n);
}
ssize_t sendfile64(int o, int i, off_t *of, size_t n) { return sendfile(o, i, of, n); }
ssize_t splice(int i, off_t *oi, int o, off_t *oo, size_t n, unsigned f) {
    if (at_fd("write", o, 1)) return -1;
    return syscall(SYS_splice, i, oi, o, oo, n, f);
}
ssize_t read(int fd, void *b, size_t n) {
    char p[PATH_MAX];
    if (env("VSHIM_EIO") && fdpath(fd, p) && bad_read(p)) { errno = EIO; return -1; }
    return syscall(SYS_read, fd, b, n);
}
int rename(const char *a, const char *b) { if (inside(b) || inside(a)) { if (at_op("rename", b, 0)) return -1; } return syscall(SYS_rename, a, b); }
int renameat(int d, const char *a, int e, const char *b) { if (inside(b) || inside(a)) { if (at_op("rename", b, 0)) return -1; } return syscall(SYS_renameat, d, a, e, b); }
int symlink(const char *a, const char *b) { if (inside(b)) { if (at_op("symlink", b, 1)) return -1; } return syscall(SYS_symlink, a, b); }
int symlinkat(const char *a, int d, const char *b) { if (inside(b)) { if (at_op("symlink", b, 1)) return -1; } return syscall(SYS_symlinkat, a, d, b); }
int link(const char *a, const char *b) { if (inside(b)) { if (at_op("link", b, 1)) return -1; } return syscall(SYS_link, a, b); }
int linkat(int d, const char *a, int e, const char *b, int f) { if (inside(b)) { if (at_op("link", b, 1)) return -1; } return syscall(SYS_linkat, d, a, e, b, f); }
int unlink(const char *a) { if (inside(a)) { if (at_op("unlink", a, 0)) return -1; } return syscall(SYS_unlink, a); }
int unlinkat(int d, const char *a, int f) { if (d == AT_FDCWD && inside(a)) { if (at_op("unlink", a, 0)) return -1; } return syscall(SYS_unlinkat, d, a, f); }
int rmdir(const char *a) { if (inside(a)) { if (at_op("rmdir", a, 0)) return -1; } return syscall(SYS_rmdir, a); }
int mkdir(const char *a, mode_t m) { if (inside(a)) { if (at_op("mkdir", a, 1)) return -1; } return syscall(SYS_mkdir, a, m); }
int ftruncate(int fd, off_t l) { if (at_fd("truncate", fd, 1)) return -1; return syscall(SYS_ftruncate, fd, l); }
int ftruncate64(int fd, off_t l) { if (at_fd("truncate", fd, 1)) return -1; return syscall(SYS_ftruncate, fd, l); }
int fsync(int fd) { if (at_fd("fsync", fd, 0)) return -1; return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (at_fd("fsync", fd, 0)) return -1; return syscall(SYS_fdatasync, fd); }
