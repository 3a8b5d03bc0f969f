/* Preloaded into the real executables: injects the recorded faults, refuses what the model
   refuses, and compares the watched file with its old and new content after every change. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static struct { int n; char kind[16]; long extra; } plan[16];
static int planned, armed, nops, nfaults, nhard, ready;
static const char *watch, *w_old, *w_new;

static long raw(long n, long a, long b, long c, long d) {
    return syscall(n, a, b, c, d);
}

static void init(void) {
    if (ready)
        return;
    ready = 1;
    char *s = getenv("RSX_FAULTS");
    armed = getenv("RSX_ARMED") != NULL;
    watch = getenv("RSX_WATCH");
    w_old = getenv("RSX_OLD");
    w_new = getenv("RSX_NEW");
    while (s && *s && planned < 16) {
        int n = 0;
        if (sscanf(s, "%d:%15[a-z]:%ld%n", &plan[planned].n, plan[planned].kind, &plan[planned].extra, &n) < 3)
            break;
        planned++;
        s += n;
        if (*s == ',')
            s++;
    }
}

int rsx_shim_arm(int on) {
    init();
    armed = on;
    return 0;
}
int rsx_shim_faults(int hard) {
    return hard ? nhard : nfaults;
}

static long slurp(const char *p, char *buf, long cap) {
    long fd = raw(SYS_openat, AT_FDCWD, (long)p, O_RDONLY, 0);
    if (fd < 0)
        return -1;
    long n = 0, k;
    while (n < cap && (k = raw(SYS_read, fd, (long)(buf + n), cap - n, 0)) > 0)
        n += k;
    raw(SYS_close, fd, 0, 0, 0);
    return n;
}
static void look(void) {
    static char a[1 << 16], b[1 << 16];
    if (!armed || !watch)
        return;
    int e = errno;
    long n = slurp(watch, a, sizeof a);
    long m = slurp(w_old, b, sizeof b);
    int same = n >= 0 && n == m && !memcmp(a, b, n);
    if (!same) {
        m = slurp(w_new, b, sizeof b);
        same = n >= 0 && n == m && !memcmp(a, b, n);
    }
    if (!same) {
        const char t[] = "WATCH FAILED\n";
        const char *p = getenv("RSX_REPORT");
        if (p) {
            long fd = raw(SYS_openat, AT_FDCWD, (long)p, O_WRONLY | O_CREAT | O_APPEND, 0600);
            raw(SYS_write, fd, (long)t, sizeof t - 1, 0);
            raw(SYS_close, fd, 0, 0, 0);
        }
    }
    errno = e;
}

/* 0: go on; 1: fail with errno set; 2: transfer only *extra */
static int fault(long *extra) {
    init();
    if (!armed)
        return 0;
    int n = nops++;
    for (int i = 0; i < planned; i++)
        if (plan[i].n == n) {
            const char *k = plan[i].kind;
            nfaults++;
            if (!strcmp(k, "short")) {
                *extra = plan[i].extra;
                return 2;
            }
            if (strcmp(k, "eintr"))
                nhard++;
            errno = !strcmp(k, "eintr") ? EINTR : !strcmp(k, "eio") ? EIO : !strcmp(k, "eacces") ? EACCES : !strcmp(k, "enospc") ? ENOSPC : !strcmp(k, "epipe") ? EPIPE : !strcmp(k, "exdev") ? EXDEV : EINVAL;
            return 1;
        }
    return 0;
}

/* as in the model: temporary files are named after it */
pid_t getpid(void) {
    return 4242;
}

static int outside(const char *p) {
    return !strncmp(p, "/proc/", 6) || !strncmp(p, "/sys/", 5) || !strncmp(p, "/etc/", 5) || !strncmp(p, "/dev/", 5) || !strncmp(p, "/usr/", 5);
}
static int do_open(int dir, const char *p, int flags, int mode) {
    long x;
    if (!outside(p) && fault(&x))
        return -1;
    int r = raw(SYS_openat, dir, (long)p, flags, mode);
    look();
    return r;
}
#define MODE                                      \
    int mode = 0;                                 \
    if (flags & (O_CREAT | O_TMPFILE)) {          \
        va_list ap;                               \
        va_start(ap, flags);                      \
        mode = va_arg(ap, int);                   \
        va_end(ap);                               \
    }
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, mode); }

ssize_t read(int fd, void *b, size_t n) {
    long x;
    if (fd > 2) {
        int f = fault(&x);
        if (f == 1)
            return -1;
        if (f == 2)
            n = x;
    }
    return raw(SYS_read, fd, (long)b, n, 0);
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) {
    long x;
    if (fd > 2) {
        int f = fault(&x);
        if (f == 1)
            return -1;
        if (f == 2)
            n = x;
    }
    return raw(SYS_pread64, fd, (long)b, n, o);
}
ssize_t write(int fd, const void *b, size_t n) {
    long x;
    if (fd != 2) {
        int f = fault(&x);
        if (f == 1)
            return -1;
        if (f == 2)
            n = x;
    }
    ssize_t r = raw(SYS_write, fd, (long)b, n, 0);
    look();
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    static char buf[1 << 20];
    size_t l = 0;
    for (int i = 0; i < n; i++) {
        memcpy(buf + l, v[i].iov_base, v[i].iov_len);
        l += v[i].iov_len;
    }
    return write(fd, buf, l);
}
int fsync(int fd) {
    long x;
    return fault(&x) ? -1 : raw(SYS_fsync, fd, 0, 0, 0);
}
int fdatasync(int fd) {
    return fsync(fd);
}
int ftruncate64(int fd, off_t n) {
    long x;
    if (fault(&x))
        return -1;
    int r = raw(SYS_ftruncate, fd, n, 0, 0);
    look();
    return r;
}
int ftruncate(int fd, off_t n) {
    return ftruncate64(fd, n);
}
int rename(const char *a, const char *b) {
    long x;
    if (fault(&x))
        return -1;
    int r = raw(SYS_rename, (long)a, (long)b, 0, 0);
    look();
    return r;
}
int renameat(int d, const char *a, int e, const char *b) {
    return rename(a, b);
}
int renameat2(int d, const char *a, int e, const char *b, unsigned f) {
    return rename(a, b);
}
int link(const char *a, const char *b) {
    long x;
    return fault(&x) ? -1 : raw(SYS_link, (long)a, (long)b, 0, 0);
}
int linkat(int d, const char *a, int e, const char *b, int f) {
    return link(a, b);
}
int unlink(const char *a) {
    long x;
    if (fault(&x))
        return -1;
    int r = raw(SYS_unlink, (long)a, 0, 0, 0);
    look();
    return r;
}
int unlinkat(int d, const char *a, int f) {
    return unlink(a);
}
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
    errno = ENOSYS;
    return -1;
}
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) {
    errno = ENOSYS;
    return -1;
}
