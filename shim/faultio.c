/* Simulated file system behaviour for one process (LD_PRELOAD): every transfer between the program and its files goes
 * through a script. Only files opened by the program itself in its working directory are touched.
 *   FIO_R / FIO_W   comma separated reactions, one per call: f (full), s<n> (at most n bytes), i (EINTR)
 *   FIO_RT / FIO_WT at most so many bytes per call once the script is used up (0: no limit)
 *   FIO_RF / FIO_WF <byte>:<errno>  fail for good from this byte on (write, errno 0: accept nothing)
 *   FIO_OF          r:<errno> or w:<errno>  opening for reading / writing fails
 *   FIO_LOG         file receiving one letter per injected fault
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 1024
static unsigned char kind[MAXFD]; /* 1 input, 2 output */
static const char *script[3];
static long tail_[3], fail_at[3] = {-1, -1, -1}, fail_errno[3], done[3], calls;
static int open_errno[3], logfd = -1, dead[3];

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static long ret(long r) {
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}
static void note(char c) {
    if (logfd >= 0)
        raw(SYS_write, logfd, (long)&c, 1, 0, 0, 0);
}
__attribute__((constructor)) static void init(void) {
    const char *p;
    script[1] = getenv("FIO_R");
    script[2] = getenv("FIO_W");
    if ((p = getenv("FIO_RT"))) tail_[1] = atol(p);
    if ((p = getenv("FIO_WT"))) tail_[2] = atol(p);
    if ((p = getenv("FIO_RF"))) { fail_at[1] = atol(p); if ((p = strchr(p, ':'))) fail_errno[1] = atol(p + 1); }
    if ((p = getenv("FIO_WF"))) { fail_at[2] = atol(p); if ((p = strchr(p, ':'))) fail_errno[2] = atol(p + 1); }
    if ((p = getenv("FIO_OF"))) open_errno[p[0] == 'r' ? 1 : 2] = atoi(p + 2);
    if ((p = getenv("FIO_LOG"))) logfd = (int)raw(SYS_openat, AT_FDCWD, (long)p, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600, 0, 0);
}

/* how many of n bytes this call may move; -1 with errno: an injected error */
static long gate(int k, long n) {
    if (++calls > 200000) {
        note('S');
        raw(SYS_exit_group, 86, 0, 0, 0, 0, 0);
    }
    if (n == 0) return 0;
    char c = 'f';
    long m = 0;
    if (script[k] && *script[k]) {
        c = *script[k]++;
        m = strtol(script[k], (char **)&script[k], 10);
        while (*script[k] && *script[k] != ',') script[k]++;
        if (*script[k] == ',') script[k]++;
    } else if (tail_[k] > 0) {
        c = 's';
        m = tail_[k];
    }
    if (c == 'i') {
        note(k == 1 ? 'i' : 'I');
        errno = EINTR;
        return -1;
    }
    long allow = n;
    if (c == 's' && m > 0 && m < allow) allow = m;
    if (fail_at[k] >= 0) {
        long room = fail_at[k] - done[k];
        if (room <= 0) {
            note(k == 1 ? 'e' : fail_errno[k] ? 'E' : 'Z');
            dead[k] = 1;
            if (k == 2 && fail_errno[k] == 0) return 0;
            errno = fail_errno[k] ? (int)fail_errno[k] : EIO;
            return -1;
        }
        if (room < allow) allow = room;
    }
    if (allow < n) note(k == 1 ? 's' : 'W');
    return allow;
}

static int opened(long r, const char *path, int flags) {
    if (r >= 0 && r < MAXFD) {
        kind[r] = 0;
        if (path && path[0] != '/')
            kind[r] = (flags & O_ACCMODE) == O_RDONLY ? ((flags & O_DIRECTORY) ? 0 : 1) : 2;
    }
    return (int)ret(r);
}
static int do_open(int dir, const char *path, int flags, int mode) {
    int k = (flags & O_ACCMODE) == O_RDONLY ? 1 : 2;
    if (open_errno[k] && path && path[0] != '/') {
        note(k == 1 ? 'o' : 'O');
        errno = open_errno[k];
        return -1;
    }
    return opened(raw(SYS_openat, dir, (long)path, flags, mode, 0, 0), path, flags);
}
#define MODE int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, mode); }
int close(int fd) {
    if (fd >= 0 && fd < MAXFD) kind[fd] = 0;
    return (int)ret(raw(SYS_close, fd, 0, 0, 0, 0, 0));
}
static int kind_of(int fd) { return fd >= 0 && fd < MAXFD ? kind[fd] : 0; }

static ssize_t xfer(int nr, int fd, char *buf, size_t n, long off) {
    int k = kind_of(fd);
    long m = (long)n;
    if (k) {
        m = gate(k, m);
        if (m < 0 || (m == 0 && n)) return m;
    }
    long r = raw(nr, fd, (long)buf, m, off, 0, 0);
    if (k && r > 0) done[k] += r;
    return ret(r);
}
ssize_t read(int fd, void *b, size_t n) { return xfer(SYS_read, fd, b, n, 0); }
ssize_t write(int fd, const void *b, size_t n) { return xfer(SYS_write, fd, (char *)b, n, 0); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return xfer(SYS_pread64, fd, b, n, o); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return xfer(SYS_pread64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return xfer(SYS_pwrite64, fd, (char *)b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return xfer(SYS_pwrite64, fd, (char *)b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!kind_of(fd)) return ret(raw(SYS_readv, fd, (long)v, c, 0, 0, 0));
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!kind_of(fd)) return ret(raw(SYS_writev, fd, (long)v, c, 0, 0, 0));
    for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
/* no shortcuts past the script: the callers fall back to read and write */
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; errno = ENOSYS; return -1; }
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { (void)a; (void)b; (void)c; (void)d; errno = ENOSYS; return -1; }
ssize_t sendfile(int a, int b, off_t *c, size_t d) { (void)a; (void)b; (void)c; (void)d; errno = ENOSYS; return -1; }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; errno = EINVAL; return -1; }
