// LD_PRELOAD shim: numbers the file-system (and network) calls of a process,
// logs them, and makes one of them fail, be torn, or be the moment of a kill.
//   MC_LOG=<file>    a line for each call: index, name, argument
//   MC_FAULT=<i>:<kind>[:<arg>] at call i:
//     E:<errno>  the call fails and has no effect
//     K          the process is killed before the call
//     T:<p>      a write writes p/8 of its bytes, and the process is killed
//     S:<p>      a write writes p/8 of its bytes (at least 1), and says so
//     Z          a write says that it wrote nothing
//     D:<errno>  this and all later writing calls fail
// A second fault can follow after a comma.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int log_fd = -1;
static atomic_long counter;
static struct { long at; char kind; long arg; } faults[2] = {{-1, 0, 0}, {-1, 0, 0}};
static int disk_full; // errno of a persistent failure

static void raw_log(const char *s, size_t n) { if (log_fd >= 0) syscall(SYS_write, log_fd, s, n); }

__attribute__((constructor)) static void init(void) {
    const char *l = getenv("MC_LOG");
    if (l) {
        int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
        if (fd >= 0) { log_fd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 200); syscall(SYS_close, fd); }
    }
    const char *f = getenv("MC_FAULT");
    for (int k = 0; k < 2 && f && *f; k++) {
        char *end;
        faults[k].at = strtol(f, &end, 10);
        faults[k].kind = end[0] == ':' ? end[1] : 0;
        faults[k].arg = (end[0] == ':' && end[1] && end[2] == ':') ? atol(end + 3) : 0;
        f = strchr(f, ',');
        if (f) f++;
    }
    unsetenv("LD_PRELOAD");
}

// returns the kind of fault for this call, or 0
static char op(const char *name, const char *arg, long n, int writing, long *farg) {
    long i = atomic_fetch_add(&counter, 1);
    if (log_fd >= 0) {
        char buf[700];
        int k = snprintf(buf, sizeof buf, "%ld %s %ld %.600s\n", i, name, n, arg ? arg : "");
        if (k > (int)sizeof buf) k = sizeof buf;
        raw_log(buf, k);
    }
    for (int k = 0; k < 2; k++) if (faults[k].at == i) {
        *farg = faults[k].arg;
        if (faults[k].kind == 'K') { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }
        if (faults[k].kind == 'D') disk_full = faults[k].arg;
        else return faults[k].kind;
    }
    if (disk_full && writing) { *farg = disk_full; return 'E'; }
    return 0;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, name)
#define FAIL(bad) do { if (f == 'E') { errno = (int)farg; return bad; } } while (0)

static int do_open(const char *which, int dirfd, const char *path, int flags, mode_t mode) {
    long farg = 0;
    int w = (flags & (O_WRONLY | O_RDWR | O_CREAT)) != 0;
    char f = op(w ? "open-write" : "open-read", path, flags, w, &farg);
    FAIL(-1);
    (void)which;
    long r = syscall(SYS_openat, dirfd, path, flags, mode);
    return (int)r;
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE return do_open("open", AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return do_open("open64", AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open("openat", d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open("openat64", d, p, flags | O_LARGEFILE, mode); }
int creat(const char *p, mode_t mode) { return do_open("creat", AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *p, mode_t mode) { return do_open("creat", AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static ssize_t faulty_write(char f, long farg, int fd, const void *b, size_t n) {
    if (f == 'E') { errno = (int)farg; return -1; }
    if (f == 'Z') return 0;
    if (f == 'T' || f == 'S') {
        size_t k = n * farg / 8;
        if (f == 'S' && k == 0) k = n ? 1 : 0;
        ssize_t r = k ? syscall(SYS_write, fd, b, k) : 0;
        if (f == 'T') { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }
        return r;
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
    long farg = 0;
    char name[32]; snprintf(name, sizeof name, "fd%d", fd);
    char f = op("write", name, n, 1, &farg);
    return faulty_write(f, farg, fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    long farg = 0;
    char f = op("pwrite", "", n, 1, &farg);
    FAIL(-1);
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    long farg = 0;
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    char name[32]; snprintf(name, sizeof name, "fd%d", fd);
    char f = op("write", name, n, 1, &farg);
    if (!f) return syscall(SYS_writev, fd, v, c);
    char *b = malloc(n + 1);
    size_t at = 0;
    for (int i = 0; i < c; i++) { memcpy(b + at, v[i].iov_base, v[i].iov_len); at += v[i].iov_len; }
    ssize_t r = faulty_write(f, farg, fd, b, n);
    int e = errno; free(b); errno = e;
    return r;
}
ssize_t read(int fd, void *b, size_t n) {
    long farg = 0;
    char name[32]; snprintf(name, sizeof name, "fd%d", fd);
    char f = op("read", name, n, 0, &farg);
    FAIL(-1);
    if (f == 'S' && n > 1) n = 1 + n * farg / 64 % 7;
    return syscall(SYS_read, fd, b, n);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    long farg = 0;
    char f = op("pread", "", n, 0, &farg);
    FAIL(-1);
    return syscall(SYS_pread64, fd, b, n, o);
}
int close(int fd) {
    if (fd >= 200 && fd == log_fd) { return 0; }
    long farg = 0;
    char name[32]; snprintf(name, sizeof name, "fd%d", fd);
    char f = op("close", name, 0, 0, &farg);
    long r = syscall(SYS_close, fd);
    FAIL(-1);
    return (int)r;
}
int fsync(int fd) { long farg = 0; char f = op("fsync", "", fd, 1, &farg); FAIL(-1); return (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { long farg = 0; char f = op("fsync", "", fd, 1, &farg); FAIL(-1); return (int)syscall(SYS_fdatasync, fd); }
int ftruncate64(int fd, off64_t n) { long farg = 0; char f = op("truncate", "", n, 1, &farg); FAIL(-1); return (int)syscall(SYS_ftruncate, fd, n); }
int rename(const char *a, const char *b) { long farg = 0; char f = op("rename", b, 0, 1, &farg); FAIL(-1); return (int)syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int x, const char *a, int y, const char *b) { long farg = 0; char f = op("rename", b, 0, 1, &farg); FAIL(-1); return (int)syscall(SYS_renameat2, x, a, y, b, 0); }
int link(const char *a, const char *b) { long farg = 0; char f = op("link", b, 0, 1, &farg); FAIL(-1); return (int)syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0); }
int linkat(int x, const char *a, int y, const char *b, int fl) { long farg = 0; char f = op("link", b, 0, 1, &farg); FAIL(-1); return (int)syscall(SYS_linkat, x, a, y, b, fl); }
int symlink(const char *a, const char *b) { long farg = 0; char f = op("link", b, 0, 1, &farg); FAIL(-1); return (int)syscall(SYS_symlinkat, a, AT_FDCWD, b); }
int mkdir(const char *p, mode_t m) { long farg = 0; char f = op("mkdir", p, 0, 1, &farg); FAIL(-1); return (int)syscall(SYS_mkdirat, AT_FDCWD, p, m); }
int unlink(const char *p) { long farg = 0; char f = op("unlink", p, 0, 1, &farg); FAIL(-1); return (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int fl) { long farg = 0; char f = op("unlink", p, 0, 1, &farg); FAIL(-1); return (int)syscall(SYS_unlinkat, d, p, fl); }
int rmdir(const char *p) { long farg = 0; char f = op("rmdir", p, 0, 1, &farg); FAIL(-1); return (int)syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); }
int chmod(const char *p, mode_t m) { long farg = 0; char f = op("chmod", p, 0, 1, &farg); FAIL(-1); return (int)syscall(SYS_fchmodat, AT_FDCWD, p, m); }
int access(const char *p, int m) { long farg = 0; char f = op("access", p, 0, 0, &farg); FAIL(-1); return (int)syscall(SYS_faccessat, AT_FDCWD, p, m); }
int statx(int d, const char *restrict p, int fl, unsigned mask, struct statx *restrict st) {
    long farg = 0;
    if (!p) { errno = EFAULT; return -1; } // how availability is probed
    char f = op("stat", p, d, 0, &farg);
    FAIL(-1);
    return (int)syscall(SYS_statx, d, p, fl, mask, st);
}
int stat64(const char *restrict p, struct stat64 *restrict st) { REAL(int, "stat64", const char *, struct stat64 *); long farg = 0; char f = op("stat", p, 0, 0, &farg); FAIL(-1); return real(p, st); }
int stat(const char *restrict p, struct stat *restrict st) { REAL(int, "stat", const char *, struct stat *); long farg = 0; char f = op("stat", p, 0, 0, &farg); FAIL(-1); return real(p, st); }
int lstat64(const char *restrict p, struct stat64 *restrict st) { REAL(int, "lstat64", const char *, struct stat64 *); long farg = 0; char f = op("stat", p, 0, 0, &farg); FAIL(-1); return real(p, st); }
int lstat(const char *restrict p, struct stat *restrict st) { REAL(int, "lstat", const char *, struct stat *); long farg = 0; char f = op("stat", p, 0, 0, &farg); FAIL(-1); return real(p, st); }
int fstat64(int fd, struct stat64 *st) { REAL(int, "fstat64", int, struct stat64 *); long farg = 0; char f = op("stat", "", fd, 0, &farg); FAIL(-1); return real(fd, st); }
int fstat(int fd, struct stat *st) { REAL(int, "fstat", int, struct stat *); long farg = 0; char f = op("stat", "", fd, 0, &farg); FAIL(-1); return real(fd, st); }
char *realpath(const char *restrict p, char *restrict out) { REAL(char *, "realpath", const char *, char *); long farg = 0; char f = op("realpath", p, 0, 0, &farg); FAIL(NULL); return real(p, out); }
char *getcwd(char *b, size_t n) { REAL(char *, "getcwd", char *, size_t); long farg = 0; char f = op("getcwd", "", 0, 0, &farg); FAIL(NULL); return real(b, n); }
ssize_t readlink(const char *restrict p, char *restrict b, size_t n) { long farg = 0; char f = op("readlink", p, 0, 0, &farg); FAIL(-1); return syscall(SYS_readlinkat, AT_FDCWD, p, b, n); }
DIR *opendir(const char *p) { REAL(DIR *, "opendir", const char *); long farg = 0; char f = op("opendir", p, 0, 0, &farg); FAIL(NULL); return real(p); }
DIR *fdopendir(int d) { REAL(DIR *, "fdopendir", int); long farg = 0; char f = op("opendir", "fd", d, 0, &farg); FAIL(NULL); return real(d); }
struct dirent64 *readdir64(DIR *d) { REAL(struct dirent64 *, "readdir64", DIR *); long farg = 0; char f = op("readdir", "", 0, 0, &farg); FAIL(NULL); return real(d); }
struct dirent *readdir(DIR *d) { REAL(struct dirent *, "readdir", DIR *); long farg = 0; char f = op("readdir", "", 0, 0, &farg); FAIL(NULL); return real(d); }
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned fl) { long farg = 0; char f = op("copy", "", n, 1, &farg); FAIL(-1); return syscall(SYS_copy_file_range, a, x, b, y, n, fl); }
int chdir(const char *p) { long farg = 0; char f = op("chdir", p, 0, 0, &farg); FAIL(-1); return (int)syscall(SYS_chdir, p); }
// network
int socket(int d, int t, int p) { long farg = 0; char f = op("socket", "", d, 0, &farg); FAIL(-1); return (int)syscall(SYS_socket, d, t, p); }
int connect(int fd, const struct sockaddr *a, socklen_t n) { long farg = 0; char f = op("connect", "", fd, 0, &farg); FAIL(-1); return (int)syscall(SYS_connect, fd, a, n); }
int getaddrinfo(const char *restrict h, const char *restrict s, const struct addrinfo *restrict hints, struct addrinfo **restrict res) {
    REAL(int, "getaddrinfo", const char *, const char *, const struct addrinfo *, struct addrinfo **);
    long farg = 0; char f = op("getaddrinfo", h, 0, 0, &farg); if (f == 'E') return EAI_FAIL; return real(h, s, hints, res);
}
