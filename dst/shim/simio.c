/* Disk seam of the simulator.
 *
 * LD_PRELOADed into the checker.  Inactive (plain pass-through) until a
 * simulated process calls simio_enable(sock, root, flags).  From then on every
 * mutating file-system call on a path below `root` (and, with FLAG_READ, every
 * open-for-reading/read) is announced to the scheduler over `sock` before it
 * is made; the scheduler's answer decides whether it proceeds, fails with an
 * errno, is cut short, or is the last thing the process ever does.
 * The same socket carries the Python-level seams (MPI calls, clock, task
 * boundaries), so one process has exactly one request outstanding.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 65536
#define FLAG_READ 1

static int g_sock = -1;
static int g_flags = 0;
static char g_root[PATH_MAX];
static size_t g_rootlen = 0;
static char *g_fdpath[MAXFD];
static pthread_mutex_t g_mu = PTHREAD_MUTEX_INITIALIZER;

#define REAL(ret, name, ...)                                                   \
    typedef ret (*fn_##name)(__VA_ARGS__);                                     \
    static fn_##name p_##name;                                                 \
    static inline fn_##name get_##name(void) {                                 \
        if (!p_##name) p_##name = (fn_##name)dlsym(RTLD_NEXT, #name);          \
        return p_##name;                                                       \
    }

REAL(int, open, const char *, int, ...)
REAL(int, open64, const char *, int, ...)
REAL(int, openat, int, const char *, int, ...)
REAL(int, openat64, int, const char *, int, ...)
REAL(int, creat, const char *, mode_t)
REAL(int, close, int)
REAL(ssize_t, write, int, const void *, size_t)
REAL(ssize_t, pwrite, int, const void *, size_t, off_t)
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t)
REAL(ssize_t, writev, int, const struct iovec *, int)
REAL(ssize_t, read, int, void *, size_t)
REAL(ssize_t, pread, int, void *, size_t, off_t)
REAL(ssize_t, pread64, int, void *, size_t, off64_t)
REAL(int, ftruncate, int, off_t)
REAL(int, ftruncate64, int, off64_t)
REAL(int, truncate, const char *, off_t)
REAL(int, truncate64, const char *, off64_t)
REAL(int, rename, const char *, const char *)
REAL(int, renameat, int, const char *, int, const char *)
REAL(int, renameat2, int, const char *, int, const char *, unsigned)
REAL(int, link, const char *, const char *)
REAL(int, linkat, int, const char *, int, const char *, int)
REAL(int, symlink, const char *, const char *)
REAL(int, unlink, const char *)
REAL(int, unlinkat, int, const char *, int)
REAL(int, remove, const char *)
REAL(int, rmdir, const char *)
REAL(int, mkdir, const char *, mode_t)
REAL(int, mkdirat, int, const char *, mode_t)
REAL(int, fsync, int)
REAL(int, fdatasync, int)
REAL(int, dup, int)
REAL(int, dup2, int, int)
REAL(int, dup3, int, int, int)
REAL(ssize_t, sendfile, int, int, off_t *, size_t)
REAL(ssize_t, sendfile64, int, int, off64_t *, size_t)
REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned)
REAL(FILE *, fopen, const char *, const char *)
REAL(FILE *, fopen64, const char *, const char *)

/* ---------------------------------------------------------------- paths */
static void normalise(char *p) {
    /* lexical normalisation of an absolute path, in place */
    char out[PATH_MAX];
    size_t n = 0;
    char *save = NULL, *tok;
    char tmp[PATH_MAX];
    snprintf(tmp, sizeof tmp, "%s", p);
    out[0] = 0;
    for (tok = strtok_r(tmp, "/", &save); tok; tok = strtok_r(NULL, "/", &save)) {
        if (!strcmp(tok, ".")) continue;
        if (!strcmp(tok, "..")) {
            char *s = strrchr(out, '/');
            if (s) { *s = 0; n = (size_t)(s - out); }
            continue;
        }
        n += (size_t)snprintf(out + n, sizeof out - n, "/%s", tok);
        if (n >= sizeof out) return;
    }
    if (n == 0) strcpy(out, "/");
    strcpy(p, out);
}

static int abspath(int dirfd, const char *path, char *out) {
    if (!path) return 0;
    if (path[0] == '/') {
        if (strlen(path) >= PATH_MAX) return 0;
        strcpy(out, path);
    } else {
        char base[PATH_MAX];
        if (dirfd == AT_FDCWD) {
            if (!getcwd(base, sizeof base)) return 0;
        } else {
            char lnk[64];
            snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", dirfd);
            ssize_t k = readlink(lnk, base, sizeof base - 1);
            if (k < 0) return 0;
            base[k] = 0;
        }
        if (snprintf(out, PATH_MAX, "%s/%s", base, path) >= PATH_MAX) return 0;
    }
    normalise(out);
    return 1;
}

static int tracked_at(int dirfd, const char *path, char *out) {
    if (g_sock < 0) return 0;
    if (!abspath(dirfd, path, out)) return 0;
    if (strncmp(out, g_root, g_rootlen)) return 0;
    return out[g_rootlen] == '/' || out[g_rootlen] == 0;
}

static int tracked_fd(int fd) {
    return g_sock >= 0 && fd >= 0 && fd < MAXFD && g_fdpath[fd] != NULL;
}

/* ------------------------------------------------------------- transport */
static void die_lost(void) { syscall(SYS_exit_group, 113); }

static void sock_write(const void *buf, size_t n) {
    const char *p = buf;
    while (n) {
        ssize_t k = get_write()(g_sock, p, n);
        if (k < 0) { if (errno == EINTR) continue; die_lost(); }
        p += k; n -= (size_t)k;
    }
}

static void sock_read(void *buf, size_t n) {
    char *p = buf;
    while (n) {
        ssize_t k = get_read()(g_sock, p, n);
        if (k < 0) { if (errno == EINTR) continue; die_lost(); }
        if (k == 0) die_lost();
        p += k; n -= (size_t)k;
    }
}

static void send_frame(char type, const void *a, size_t na, const void *b, size_t nb) {
    unsigned char h[5];
    uint32_t n = (uint32_t)(1 + na + nb);
    memcpy(h, &n, 4);
    h[4] = (unsigned char)type;
    sock_write(h, 5);
    if (na) sock_write(a, na);
    if (nb) sock_write(b, nb);
}

/* request -> malloc'd reply payload */
static char *rpc(char type, const void *a, size_t na, const void *b, size_t nb,
                 uint32_t *outlen) {
    uint32_t n;
    send_frame(type, a, na, b, nb);
    sock_read(&n, 4);
    char *r = malloc((size_t)n + 1);
    sock_read(r, n);
    r[n] = 0;
    if (outlen) *outlen = n;
    return r;
}

/* ------------------------------------------------ exported to Python side */
void simio_enable(int sock, const char *root, int flags) {
    snprintf(g_root, sizeof g_root, "%s", root);
    normalise(g_root);
    g_rootlen = strlen(g_root);
    for (int i = 0; i < MAXFD; i++) { free(g_fdpath[i]); g_fdpath[i] = NULL; }
    g_flags = flags;
    g_sock = sock;
}
static void in_child(void) { g_sock = -1; pthread_mutex_init(&g_mu, NULL); }
__attribute__((constructor)) static void init_atfork(void) { pthread_atfork(NULL, NULL, in_child); }
void simio_disable(void) { g_sock = -1; }
int simio_present(void) { return 1; }

char *simio_call(const void *buf, uint32_t n, uint32_t *outlen) {
    pthread_mutex_lock(&g_mu);
    char *r = rpc('P', buf, n, NULL, 0, outlen);
    pthread_mutex_unlock(&g_mu);
    return r;
}
void simio_free(char *p) { free(p); }

/* ------------------------------------------------------------- decisions */
/* reply grammar: "G" go | "E<errno>" fail | "S<n>" short transfer of n bytes
 * | "B" do it, report, then park for ever (crash right after)
 * | "K<n>" transfer only n bytes, report, then park for ever (crash inside) */
typedef struct { char kind; long n; } dec_t;

static dec_t ask(const char *desc, const void *data, size_t nd) {
    dec_t d;
    char *r = rpc('D', desc, strlen(desc) + 1, data, nd, NULL);
    d.kind = r[0];
    d.n = r[0] ? atol(r + 1) : 0;
    free(r);
    return d;
}

static void report(dec_t d, long ret, int err, long ino) {
    char b[96];
    int n = snprintf(b, sizeof b, "%ld %d %ld", ret, ret < 0 ? err : 0, ino);
    send_frame('R', b, (size_t)n, NULL, 0);
    if (d.kind == 'B' || d.kind == 'K') for (;;) pause();
}

static long ino_of(int fd) {
    struct stat st;
    if (fd < 0 || fstat(fd, &st)) return -1;
    return (long)st.st_ino;
}

#define LOCK() pthread_mutex_lock(&g_mu)
#define UNLOCK() pthread_mutex_unlock(&g_mu)

/* ----------------------------------------------------------------- opens */
static int do_open(int which, int dirfd, const char *path, int flags, mode_t mode) {
    char ap[PATH_MAX];
    int mut = (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
    int fd;
    int tr = tracked_at(dirfd, path, ap);
    int isdir = (flags & O_DIRECTORY) != 0;
#ifdef O_TMPFILE
    if ((flags & O_TMPFILE) == O_TMPFILE) { mut = 1; isdir = 0; }
#endif
    if (tr && (mut || ((g_flags & FLAG_READ) && !isdir))) {
        LOCK();
        char desc[PATH_MAX + 64];
        struct stat st;
        int existed = stat(ap, &st) == 0;
        snprintf(desc, sizeof desc, "open\t%s\t%d\t%d", ap, flags, existed);
        dec_t d = ask(desc, NULL, 0);
        int e = 0;
        if (d.kind == 'E') { fd = -1; e = (int)d.n; }
        else {
            fd = dirfd == AT_FDCWD ? get_open()(path, flags, mode) : get_openat()(dirfd, path, flags, mode);
            e = errno;
        }
        if (fd >= 0 && fd < MAXFD) { free(g_fdpath[fd]); g_fdpath[fd] = strdup(ap); }
        report(d, fd, e, ino_of(fd));
        UNLOCK();
        errno = e;
        return fd;
    }
    (void)which;
    fd = dirfd == AT_FDCWD ? get_open()(path, flags, mode) : get_openat()(dirfd, path, flags, mode);
    if (fd >= 0 && fd < MAXFD && g_sock >= 0) {
        int e = errno;
        free(g_fdpath[fd]);
        g_fdpath[fd] = tr ? strdup(ap) : NULL;
        errno = e;
    }
    return fd;
}

#define MODE_ARG(flags) \
    mode_t mode = 0; \
    if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap_; va_start(ap_, flags); mode = va_arg(ap_, mode_t); va_end(ap_); }

int open(const char *path, int flags, ...) { MODE_ARG(flags) return do_open(0, AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE_ARG(flags) return do_open(0, AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { MODE_ARG(flags) return do_open(1, d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE_ARG(flags) return do_open(1, d, path, flags, mode); }
int creat(const char *path, mode_t mode) { return do_open(0, AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return creat(path, mode); }
int __open_2(const char *path, int flags) { return do_open(0, AT_FDCWD, path, flags, 0); }
int __open64_2(const char *path, int flags) { return do_open(0, AT_FDCWD, path, flags, 0); }

static FILE *do_fopen(const char *path, const char *m) {
    char ap[PATH_MAX];
    if (!tracked_at(AT_FDCWD, path, ap)) return get_fopen64()(path, m);
    int flags = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    if (strchr(m, '+')) flags = (flags & ~(O_WRONLY | O_RDONLY)) | O_RDWR;
    int fd = do_open(0, AT_FDCWD, path, flags, 0666);
    if (fd < 0) return NULL;
    return fdopen(fd, m); /* buffered writes inside libc are then invisible: reported as opaque */
}
FILE *fopen(const char *path, const char *m) { return do_fopen(path, m); }
FILE *fopen64(const char *path, const char *m) { return do_fopen(path, m); }

int close(int fd) {
    if (tracked_fd(fd)) {
        free(g_fdpath[fd]);
        g_fdpath[fd] = NULL;
    }
    return get_close()(fd);
}

int dup(int fd) {
    int n = get_dup()(fd);
    if (n >= 0 && n < MAXFD && g_sock >= 0) { free(g_fdpath[n]); g_fdpath[n] = tracked_fd(fd) ? strdup(g_fdpath[fd]) : NULL; }
    return n;
}
int dup2(int fd, int nfd) {
    int n = get_dup2()(fd, nfd);
    if (n >= 0 && n < MAXFD && g_sock >= 0 && n != fd) { free(g_fdpath[n]); g_fdpath[n] = tracked_fd(fd) ? strdup(g_fdpath[fd]) : NULL; }
    return n;
}
int dup3(int fd, int nfd, int fl) {
    int n = get_dup3()(fd, nfd, fl);
    if (n >= 0 && n < MAXFD && g_sock >= 0 && n != fd) { free(g_fdpath[n]); g_fdpath[n] = tracked_fd(fd) ? strdup(g_fdpath[fd]) : NULL; }
    return n;
}

/* ---------------------------------------------------------------- writes */
static ssize_t do_write(int fd, const void *buf, size_t n, int positioned, off64_t off) {
    LOCK();
    char desc[PATH_MAX + 96];
    long long where = off;
    if (!positioned) {
        int fl = fcntl(fd, F_GETFL);
        where = (fl & O_APPEND) ? -1 : (long long)lseek64(fd, 0, SEEK_CUR);
    }
    snprintf(desc, sizeof desc, "write\t%s\t%ld\t%lld\t%zu", g_fdpath[fd], ino_of(fd), where, n);
    dec_t d = ask(desc, buf, n);
    ssize_t r = 0;
    int e = 0;
    if (d.kind == 'E') { r = -1; e = (int)d.n; }
    else {
        size_t m = n;
        if ((d.kind == 'S' || d.kind == 'K') && (size_t)d.n < n) m = (size_t)d.n;
        r = 0;
        if (m > 0 || n == 0) {
            r = positioned ? get_pwrite64()(fd, buf, m, off) : get_write()(fd, buf, m);
            e = errno;
        }
    }
    report(d, r, e, -1);
    UNLOCK();
    errno = e;
    return r;
}

ssize_t write(int fd, const void *buf, size_t n) {
    if (!tracked_fd(fd)) return get_write()(fd, buf, n);
    return do_write(fd, buf, n, 0, 0);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) {
    if (!tracked_fd(fd)) return get_pwrite()(fd, buf, n, off);
    return do_write(fd, buf, n, 1, off);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
    if (!tracked_fd(fd)) return get_pwrite64()(fd, buf, n, off);
    return do_write(fd, buf, n, 1, off);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!tracked_fd(fd)) return get_writev()(fd, v, c);
    size_t tot = 0;
    for (int i = 0; i < c; i++) tot += v[i].iov_len;
    char *b = malloc(tot + 1), *p = b;
    for (int i = 0; i < c; i++) { memcpy(p, v[i].iov_base, v[i].iov_len); p += v[i].iov_len; }
    ssize_t r = do_write(fd, b, tot, 0, 0);
    int e = errno;
    free(b);
    errno = e;
    return r;
}

static ssize_t do_sendfile(int out, int in, off64_t *off, size_t n) {
    char buf[65536];
    if (n > sizeof buf) n = sizeof buf;
    ssize_t k = off ? get_pread64()(in, buf, n, *off) : get_read()(in, buf, n);
    if (k <= 0) return k;
    ssize_t w = do_write(out, buf, (size_t)k, 0, 0);
    if (off) { if (w > 0) *off += w; }
    else if (w < k) { int e = errno; lseek64(in, (w < 0 ? 0 : w) - k, SEEK_CUR); errno = e; }
    return w;
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) {
    if (!tracked_fd(out)) return get_sendfile()(out, in, off, n);
    return do_sendfile(out, in, (off64_t *)off, n);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) {
    if (!tracked_fd(out)) return get_sendfile64()(out, in, off, n);
    return do_sendfile(out, in, off, n);
}
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl) {
    if (!tracked_fd(out)) return get_copy_file_range()(in, oi, out, oo, n, fl);
    errno = EXDEV; /* callers fall back to read/write */
    return -1;
}

/* ----------------------------------------------------------------- reads */
static ssize_t do_read(int fd, void *buf, size_t n, int positioned, off64_t off) {
    LOCK();
    char desc[PATH_MAX + 96];
    long long where = positioned ? (long long)off : (long long)lseek64(fd, 0, SEEK_CUR);
    snprintf(desc, sizeof desc, "read\t%s\t%ld\t%lld\t%zu", g_fdpath[fd], ino_of(fd), where, n);
    dec_t d = ask(desc, NULL, 0);
    ssize_t r;
    int e = 0;
    if (d.kind == 'E') { r = -1; e = (int)d.n; }
    else {
        if (d.kind == 'S' && d.n > 0 && (size_t)d.n < n) n = (size_t)d.n;
        r = positioned ? get_pread64()(fd, buf, n, off) : get_read()(fd, buf, n);
        e = errno;
    }
    report(d, r, e, -1);
    UNLOCK();
    errno = e;
    return r;
}
ssize_t read(int fd, void *buf, size_t n) {
    if (!(g_flags & FLAG_READ) || !tracked_fd(fd)) return get_read()(fd, buf, n);
    return do_read(fd, buf, n, 0, 0);
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) {
    if (!(g_flags & FLAG_READ) || !tracked_fd(fd)) return get_pread()(fd, buf, n, off);
    return do_read(fd, buf, n, 1, off);
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
    if (!(g_flags & FLAG_READ) || !tracked_fd(fd)) return get_pread64()(fd, buf, n, off);
    return do_read(fd, buf, n, 1, off);
}

/* ------------------------------------------------------- metadata and sync */
#define SIMPLE_FD(opname, call)                                                \
    LOCK();                                                                    \
    char desc[PATH_MAX + 96];                                                  \
    snprintf(desc, sizeof desc, opname "\t%s\t%ld", g_fdpath[fd], ino_of(fd)); \
    dec_t d = ask(desc, NULL, 0);                                              \
    int r, e = 0;                                                              \
    if (d.kind == 'E') { r = -1; e = (int)d.n; }                               \
    else { r = call; e = errno; }                                              \
    report(d, r, e, -1);                                                       \
    UNLOCK();                                                                  \
    errno = e;                                                                 \
    return r;

/* the simulated disk decides what a sync means; the real one is a no-op */
int fsync(int fd) {
    if (!tracked_fd(fd)) return get_fsync()(fd);
    SIMPLE_FD("fsync", 0)
}
int fdatasync(int fd) {
    if (!tracked_fd(fd)) return get_fdatasync()(fd);
    SIMPLE_FD("fsync", 0)
}
static int do_ftruncate(int fd, off64_t len) {
    LOCK();
    char desc[PATH_MAX + 96];
    snprintf(desc, sizeof desc, "ftruncate\t%s\t%ld\t%lld", g_fdpath[fd], ino_of(fd), (long long)len);
    dec_t d = ask(desc, NULL, 0);
    int r, e = 0;
    if (d.kind == 'E') { r = -1; e = (int)d.n; }
    else { r = get_ftruncate64()(fd, len); e = errno; }
    report(d, r, e, -1);
    UNLOCK();
    errno = e;
    return r;
}
int ftruncate(int fd, off_t len) { return tracked_fd(fd) ? do_ftruncate(fd, len) : get_ftruncate()(fd, len); }
int ftruncate64(int fd, off64_t len) { return tracked_fd(fd) ? do_ftruncate(fd, len) : get_ftruncate64()(fd, len); }

#define SIMPLE_PATH(trk, fmt, args, call)                                      \
    LOCK();                                                                    \
    char desc[2 * PATH_MAX + 96];                                              \
    snprintf(desc, sizeof desc, fmt, args);                                    \
    dec_t d = ask(desc, NULL, 0);                                              \
    int r, e = 0;                                                              \
    if (d.kind == 'E') { r = -1; e = (int)d.n; }                               \
    else { r = call; e = errno; }                                              \
    report(d, r, e, -1);                                                       \
    UNLOCK();                                                                  \
    errno = e;                                                                 \
    return r;
#define TWO(a, b) a, b

int truncate(const char *path, off_t len) {
    char ap[PATH_MAX];
    if (!tracked_at(AT_FDCWD, path, ap)) return get_truncate()(path, len);
    SIMPLE_PATH(1, "truncate\t%s\t%lld", TWO(ap, (long long)len), get_truncate()(path, len))
}
int truncate64(const char *path, off64_t len) { return truncate(path, len); }

static int do_rename(int od, const char *o, int nd, const char *n, unsigned fl, int v) {
    char ao[PATH_MAX], an[PATH_MAX];
    int to = tracked_at(od, o, ao), tn = tracked_at(nd, n, an);
    if (!to && !tn) {
        if (v == 0) return get_rename()(o, n);
        if (v == 1) return get_renameat()(od, o, nd, n);
        return get_renameat2()(od, o, nd, n, fl);
    }
    LOCK();
    char desc[2 * PATH_MAX + 96];
    snprintf(desc, sizeof desc, "rename\t%s\t%s", to ? ao : "-", tn ? an : "-");
    dec_t d = ask(desc, NULL, 0);
    int r, e = 0;
    if (d.kind == 'E') { r = -1; e = (int)d.n; }
    else { r = v == 2 ? get_renameat2()(od, o, nd, n, fl) : get_renameat()(od, o, nd, n); e = errno; }
    report(d, r, e, -1);
    UNLOCK();
    errno = e;
    return r;
}
int rename(const char *o, const char *n) { return do_rename(AT_FDCWD, o, AT_FDCWD, n, 0, 0); }
int renameat(int od, const char *o, int nd, const char *n) { return do_rename(od, o, nd, n, 0, 1); }
int renameat2(int od, const char *o, int nd, const char *n, unsigned f) { return do_rename(od, o, nd, n, f, 2); }

static int do_link(int od, const char *o, int nd, const char *n, int fl) {
    char ao[PATH_MAX], an[PATH_MAX];
    int to = tracked_at(od, o, ao), tn = tracked_at(nd, n, an);
    if (!tn) return get_linkat()(od, o, nd, n, fl);
    SIMPLE_PATH(1, "link\t%s\t%s", TWO(to ? ao : "-", an), get_linkat()(od, o, nd, n, fl))
}
int link(const char *o, const char *n) { return do_link(AT_FDCWD, o, AT_FDCWD, n, 0); }
int linkat(int od, const char *o, int nd, const char *n, int fl) { return do_link(od, o, nd, n, fl); }
int symlink(const char *t, const char *n) {
    char an[PATH_MAX];
    if (!tracked_at(AT_FDCWD, n, an)) return get_symlink()(t, n);
    SIMPLE_PATH(1, "symlink\t%s\t%s", TWO(t, an), get_symlink()(t, n))
}

static int do_unlink(int dfd, const char *path, int fl, int v) {
    char ap[PATH_MAX];
    if (!tracked_at(dfd, path, ap)) {
        if (v == 0) return get_unlink()(path);
        if (v == 2) return get_remove()(path);
        if (v == 3) return get_rmdir()(path);
        return get_unlinkat()(dfd, path, fl);
    }
    LOCK();
    char desc[PATH_MAX + 96];
    struct stat st;
    int isdir = (fl & AT_REMOVEDIR) || v == 3 || (v == 2 && !lstat(ap, &st) && S_ISDIR(st.st_mode));
    snprintf(desc, sizeof desc, "%s\t%s", isdir ? "rmdir" : "unlink", ap);
    dec_t d = ask(desc, NULL, 0);
    int r, e = 0;
    if (d.kind == 'E') { r = -1; e = (int)d.n; }
    else { r = isdir ? get_unlinkat()(dfd, path, AT_REMOVEDIR) : get_unlinkat()(dfd, path, 0); e = errno; }
    report(d, r, e, -1);
    UNLOCK();
    errno = e;
    return r;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0, 0); }
int unlinkat(int d, const char *p, int fl) { return do_unlink(d, p, fl, 1); }
int remove(const char *p) { return do_unlink(AT_FDCWD, p, 0, 2); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, 0, 3); }

int mkdir(const char *p, mode_t m) {
    char ap[PATH_MAX];
    if (!tracked_at(AT_FDCWD, p, ap)) return get_mkdir()(p, m);
    SIMPLE_PATH(1, "mkdir\t%s%s", TWO(ap, ""), get_mkdir()(p, m))
}
int mkdirat(int dfd, const char *p, mode_t m) {
    char ap[PATH_MAX];
    if (!tracked_at(dfd, p, ap)) return get_mkdirat()(dfd, p, m);
    SIMPLE_PATH(1, "mkdir\t%s%s", TWO(ap, ""), get_mkdirat()(dfd, p, m))
}
