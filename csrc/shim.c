/* libc file-operation seam: counts, logs and fails operations on files whose
 * path starts with a configured prefix.  Inactive (pass-through) until
 * sim_config() is called through ctypes. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPEN_R = 1, OPEN_W = 2, WRITE = 4, READ = 8, TRUNC = 16, FSYNC = 32,
       CLOSE = 64, RENAME = 128, UNLINK = 256, LINK = 512, LOCK = 1024 };
enum { M_NONE, M_ERR, M_ERR_ON, M_SHORT, M_CRASH_BEFORE, M_CRASH_AFTER, M_TORN,
       M_QUOTA, M_CUT };

static char prefix[4096];
static size_t plen;
static int active, mode, f_errno;
static long f_at, counter, fired, quota, written;
static unsigned f_mask;
#define NFD 65536
static unsigned char tracked[NFD];
#define LOGSZ 65536
static int lg_op[LOGSZ]; static long lg_n[LOGSZ]; static long lg_len;

#define REAL(ret, name, ...) static ret (*r)(__VA_ARGS__); \
    if (!r) r = dlsym(RTLD_NEXT, name)

void sim_config(const char *p) {
    strncpy(prefix, p ? p : "", sizeof prefix - 1);
    plen = strlen(prefix); active = plen > 0; mode = M_NONE; counter = 0;
    fired = 0; lg_len = 0; written = 0;
}
void sim_arm(int m, long at, int err, unsigned mask, long q) {
    mode = m; f_at = at; f_errno = err; f_mask = mask; quota = q; counter = 0;
    fired = 0; lg_len = 0; written = 0;
}
void sim_disarm(void) { mode = M_NONE; }
void sim_off(void) { active = 0; mode = M_NONE; }
long sim_count(void) { return counter; }
long sim_fired(void) { return fired; }
long sim_log(int *ops, long *ns, long max) {
    long i; for (i = 0; i < lg_len && i < max; i++) { ops[i] = lg_op[i]; ns[i] = lg_n[i]; }
    return i;
}

static int under(int dirfd, const char *path) {
    char buf[PATH_MAX * 2];
    if (!active || !path) return 0;
    if (path[0] != '/') {
        char cwd[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (!getcwd(cwd, sizeof cwd)) return 0; }
        else {
            char l[64]; ssize_t n; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            n = readlink(l, cwd, sizeof cwd - 1); if (n < 0) return 0; cwd[n] = 0;
        }
        snprintf(buf, sizeof buf, "%s/%s", cwd, path);
        path = buf;
    }
    return strncmp(path, prefix, plen) == 0;
}

/* returns: 0 go on, 1 fail with errno, 2 short, 3 crash after, 4 torn, 5 cut */
static int step(int op, long n) {
    int hit;
    if (lg_len < LOGSZ) { lg_op[lg_len] = op; lg_n[lg_len] = n; lg_len++; }
    if (mode == M_NONE) return 0;
    if (!(op & f_mask)) return 0;
    counter++;
    if (mode == M_QUOTA) return 0;
    hit = (mode == M_ERR_ON || mode == M_CUT) ? counter >= f_at : counter == f_at;
    if (!hit) return 0;
    fired++;
    switch (mode) {
    case M_ERR: case M_ERR_ON: errno = f_errno; return 1;
    case M_SHORT: return 2;
    case M_CRASH_BEFORE: _exit(137);
    case M_CRASH_AFTER: return 3;
    case M_TORN: return 4;
    case M_CUT: return 5;
    }
    return 0;
}
static void after(int s) { if (s == 3 || s == 4) _exit(137); }
static int isfd(int fd) { return active && fd >= 0 && fd < NFD && tracked[fd]; }

static int do_open(int dirfd, const char *path, int flags, mode_t m,
                   int (*r)(int, const char *, int, ...)) {
    int fd, s, u = under(dirfd, path);
    if (!u) { fd = r(dirfd, path, flags, m); if (fd >= 0 && fd < NFD) tracked[fd] = 0; return fd; }
    s = step((flags & O_ACCMODE) == O_RDONLY ? OPEN_R : OPEN_W, flags);
    if (s == 1) return -1;
    if (s == 4) _exit(137);
    fd = r(dirfd, path, flags, m);
    if (fd >= 0 && fd < NFD) tracked[fd] = 1;
    after(s);
    return fd;
}
#define MODE mode_t m = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
static int (*real_openat(void))(int, const char *, int, ...) {
    static int (*r)(int, const char *, int, ...);
    if (!r) r = dlsym(RTLD_NEXT, "openat");
    return r;
}
int open(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m, real_openat()); }
int open64(const char *p, int flags, ...) { MODE return do_open(AT_FDCWD, p, flags, m, real_openat()); }
int openat(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m, real_openat()); }
int openat64(int d, const char *p, int flags, ...) { MODE return do_open(d, p, flags, m, real_openat()); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m, real_openat()); }
int creat64(const char *p, mode_t m) { return creat(p, m); }

/* how many bytes a write may do; -1: error already set */
static ssize_t allow(int fd, size_t n, int *s) {
    *s = step(WRITE, (long)n);
    if (*s == 1) return -1;
    if (*s == 2 || *s == 4) return n > 1 ? (ssize_t)(n / 2) : (ssize_t)n;
    if (mode == M_QUOTA) {
        long left = quota - written;
        if (left <= 0) { fired++; errno = ENOSPC; return -1; }
        if ((long)n > left) { fired++; n = left; }
    }
    return n;
}
ssize_t write(int fd, const void *b, size_t n) {
    int s; ssize_t k; REAL(ssize_t, "write", int, const void *, size_t);
    if (!isfd(fd)) return r(fd, b, n);
    k = allow(fd, n, &s); if (k < 0) return -1;
    k = r(fd, b, k); if (k > 0) written += k; after(s); return k;
}
static ssize_t pw(int fd, const void *b, size_t n, off_t o) {
    int s; ssize_t k; REAL(ssize_t, "pwrite64", int, const void *, size_t, off_t);
    if (!isfd(fd)) return r(fd, b, n, o);
    k = allow(fd, n, &s); if (k < 0) return -1;
    k = r(fd, b, k, o); if (k > 0) written += k; after(s); return k;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pw(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pw(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    int s; ssize_t k, tot = 0; int i; REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (!isfd(fd)) return r(fd, v, c);
    for (i = 0; i < c; i++) tot += v[i].iov_len;
    k = allow(fd, tot, &s); if (k < 0) return -1;
    if (k == tot) { k = r(fd, v, c); if (k > 0) written += k; after(s); return k; }
    { ssize_t done = 0; for (i = 0; i < c && done < k; i++) {
        size_t m = v[i].iov_len; ssize_t w; static ssize_t (*rw)(int, const void *, size_t);
        if (!rw) rw = dlsym(RTLD_NEXT, "write");
        if ((ssize_t)m > k - done) m = k - done;
        w = rw(fd, v[i].iov_base, m); if (w < 0) break; done += w; }
      written += done; after(s); return done; }
}
ssize_t read(int fd, void *b, size_t n) {
    int s; REAL(ssize_t, "read", int, void *, size_t);
    if (!isfd(fd)) return r(fd, b, n);
    s = step(READ, n); if (s == 1) return -1; if (s == 5) return 0;
    if ((s == 2) && n > 1) n = n / 2;
    if (s == 4) _exit(137);
    { ssize_t k = r(fd, b, n); after(s); return k; }
}
static ssize_t pr(int fd, void *b, size_t n, off_t o) {
    int s; REAL(ssize_t, "pread64", int, void *, size_t, off_t);
    if (!isfd(fd)) return r(fd, b, n, o);
    s = step(READ, n); if (s == 1) return -1; if (s == 5) return 0;
    if ((s == 2) && n > 1) n = n / 2;
    if (s == 4) _exit(137);
    { ssize_t k = r(fd, b, n, o); after(s); return k; }
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pr(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pr(fd, b, n, o); }
static int ft(int fd, off_t o) {
    int s, k; REAL(int, "ftruncate64", int, off_t);
    if (!isfd(fd)) return r(fd, o);
    s = step(TRUNC, o); if (s == 1) return -1; if (s == 4) _exit(137);
    if (mode == M_QUOTA && o > quota) { fired++; errno = ENOSPC; return -1; }
    k = r(fd, o); after(s); return k;
}
int ftruncate(int fd, off_t o) { return ft(fd, o); }
int ftruncate64(int fd, off_t o) { return ft(fd, o); }
int fsync(int fd) {
    int s, k; REAL(int, "fsync", int);
    if (!isfd(fd)) return r(fd);
    s = step(FSYNC, 0); if (s == 1) return -1; if (s == 4) _exit(137);
    k = r(fd); after(s); return k;
}
int fdatasync(int fd) {
    int s, k; REAL(int, "fdatasync", int);
    if (!isfd(fd)) return r(fd);
    s = step(FSYNC, 0); if (s == 1) return -1; if (s == 4) _exit(137);
    k = r(fd); after(s); return k;
}
int close(int fd) {
    int s, k; REAL(int, "close", int);
    if (!isfd(fd)) return r(fd);
    s = step(CLOSE, 0);
    if (s == 4) _exit(137);
    tracked[fd] = 0;
    k = r(fd);
    if (s == 1) { errno = f_errno; return -1; }
    after(s); return k;
}
static int do_rename(int d1, const char *a, int d2, const char *b) {
    int s, k; REAL(int, "renameat", int, const char *, int, const char *);
    if (!under(d1, a) && !under(d2, b)) return r(d1, a, d2, b);
    s = step(RENAME, 0); if (s == 1) return -1; if (s == 4) _exit(137);
    k = r(d1, a, d2, b); after(s); return k;
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b); }
int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b); }
static int do_unlink(int d, const char *a, int fl) {
    int s, k; REAL(int, "unlinkat", int, const char *, int);
    if (!under(d, a)) return r(d, a, fl);
    s = step(UNLINK, 0); if (s == 1) return -1; if (s == 4) _exit(137);
    k = r(d, a, fl); after(s); return k;
}
int unlink(const char *a) { return do_unlink(AT_FDCWD, a, 0); }
int unlinkat(int d, const char *a, int fl) { return do_unlink(d, a, fl); }
int remove(const char *a) { struct stat st; if (lstat(a, &st) == 0 && S_ISDIR(st.st_mode)) return do_unlink(AT_FDCWD, a, AT_REMOVEDIR); return do_unlink(AT_FDCWD, a, 0); }
int link(const char *a, const char *b) {
    int s, k; REAL(int, "link", const char *, const char *);
    if (!under(AT_FDCWD, b)) return r(a, b);
    s = step(LINK, 0); if (s == 1) return -1; if (s == 4) _exit(137);
    k = r(a, b); after(s); return k;
}
