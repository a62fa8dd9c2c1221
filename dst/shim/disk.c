/* Disk seam: loaded with LD_PRELOAD.  Operations on paths under one directory are counted;
   at planned operation numbers they fail, are short or torn, or the process dies there, with
   or without the data that was never synced.  Everything else passes through. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dirent.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { K_ERR = 1, K_SHORT, K_CRASH_BEFORE, K_CRASH_AFTER, K_CRASH_TORN };
#define MAXF 32
#define MAXFD 4096
#define MAXI 256

static char root[PATH_MAX];
static size_t rootlen;
static int nfault, f_write[MAXF], f_op[MAXF], f_kind[MAXF];
static long f_arg[MAXF];
static int wops, rops, fired;
static long space = -1;              /* bytes left on the simulated disk, -1: no limit */
static int power = -1;               /* >= 0: a crash loses unsynced data, keeping this many thousandths of it */
static char lg[1 << 16];
static size_t lgn;
static signed char fdw[MAXFD];       /* 1: tracked for writing, 2: tracked for reading */
static int fdi[MAXFD];
static struct ent { int used, dirty; dev_t dev; ino_t ino; long synced; char path[PATH_MAX]; } I[MAXI];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

#define REAL(name) static __typeof__(&name) r_##name; if (!r_##name) r_##name = dlsym(RTLD_NEXT, #name)

/* several simulated processes and threads: each stops before every operation and
   goes on when its coordinator says so (dst/actors.py) */
static __thread int y_out = -1, y_in = -1;
static unsigned char fdr[MAXFD];     /* reads so far through this descriptor */
void dst_yield_fds(int out, int in) { y_out = out; y_in = in; }
void dst_yield(int c) {
    if (y_out < 0) return;
    int e = errno;
    char b = (char)c;
    while (syscall(SYS_write, y_out, &b, 1) != 1) if (errno != EINTR) _exit(78);
    long n;
    while ((n = syscall(SYS_read, y_in, &b, 1)) != 1) if (!n || errno != EINTR) _exit(78);
    errno = e;
}

static void say(const char *op, const char *path, long n) {
    const char *b = path ? strrchr(path, '/') : 0;
    b = b ? b + 1 : (path ? path : "");
    if (lgn < sizeof lg - 300) lgn += snprintf(lg + lgn, 290, "%s %s %ld\n", op, b, n);
}

void dst_disk(const char *r, int power_permille, long bytes) {
    if (r && realpath(r, root)) rootlen = strlen(root); else { rootlen = 0; root[0] = 0; }
    nfault = wops = rops = fired = 0; lgn = 0; lg[0] = 0; space = bytes; power = power_permille;
    memset(fdw, 0, sizeof fdw); memset(I, 0, sizeof I);
}
void dst_disk_fault(int write_class, int op, int kind, long arg) {
    if (nfault < MAXF) { f_write[nfault] = write_class; f_op[nfault] = op; f_kind[nfault] = kind; f_arg[nfault++] = arg; }
}
int dst_disk_wops(void) { return wops; }
int dst_disk_rops(void) { return rops; }
int dst_disk_fired(void) { return fired; }
int dst_disk_log(char *out, int n) { int k = (int)lgn < n ? (int)lgn : n; memcpy(out, lg, k); return k; }

static int inside(const char *p, char *abs) {
    char tmp[PATH_MAX * 2];
    if (!rootlen || !p) return 0;
    if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
    else {
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        while (p[0] == '.' && p[1] == '/') p += 2;
        snprintf(tmp, sizeof tmp, "%s/%s", cwd, p);
    }
    if (strncmp(tmp, root, rootlen) || (tmp[rootlen] != '/' && tmp[rootlen])) return 0;
    snprintf(abs, PATH_MAX, "%.*s", PATH_MAX - 1, tmp);
    return 1;
}

static struct ent *ent_of(const struct stat *st, const char *path, int add) {
    int fr = -1;
    for (int i = 0; i < MAXI; i++) {
        if (I[i].used && I[i].dev == st->st_dev && I[i].ino == st->st_ino) { if (path) strcpy(I[i].path, path); return &I[i]; }
        if (!I[i].used && fr < 0) fr = i;
    }
    if (!add || fr < 0) return 0;
    I[fr].used = 1; I[fr].dirty = 0; I[fr].dev = st->st_dev; I[fr].ino = st->st_ino; I[fr].synced = st->st_size;
    strcpy(I[fr].path, path);
    return &I[fr];
}

void dst_disk_powerloss(int permille) {
    REAL(truncate);
    for (int i = 0; i < MAXI; i++) {
        struct stat st;
        if (!I[i].used || !I[i].dirty || stat(I[i].path, &st) || st.st_ino != I[i].ino) continue;
        long len = st.st_size, keep = I[i].synced;
        if (keep > len) keep = len;
        keep += (len - keep) * permille / 1000;
        if (keep < len) { say("powerloss", I[i].path, keep); if (r_truncate(I[i].path, keep)) {} }
        I[i].dirty = 0;
    }
}

static void die(const char *op, const char *path) {
    fired++;
    if (power >= 0) dst_disk_powerloss(power);
    (void)op; (void)path;
    _exit(77);
}

/* the fault planned for this operation, or 0 */
static int plan(int w, const char *op, const char *path, long n, long *arg) {
    int k = w ? ++wops : ++rops;
    if (w) say(op, path, n);
    for (int i = 0; i < nfault; i++)
        if (f_write[i] == w && f_op[i] == k && f_kind[i]) {
            int kind = f_kind[i];
            f_kind[i] = 0; *arg = f_arg[i]; fired++;
            say("FAULT", op, kind);
            return kind;
        }
    return 0;
}

static int did_open(int fd, const char *abs, int flags, int existed, long oldsize) {
    if (fd >= 0 && fd < MAXFD) {
        int w = (flags & O_ACCMODE) != O_RDONLY;
        struct stat st;
        fdw[fd] = w ? 1 : 2;
        fdr[fd] = 0;
        fdi[fd] = -1;
        if (w && !fstat(fd, &st)) {
            struct ent *e = ent_of(&st, abs, 1);
            if (e) {
                if (!existed) e->synced = 0;
                else if (flags & O_TRUNC) { if (oldsize) e->dirty = 1; e->synced = 0; }
                fdi[fd] = (int)(e - I);
            }
        }
    }
    return fd;
}

#define OPEN_BODY(call)                                                              \
    char abs[PATH_MAX]; long arg = 0;                                                \
    if (!inside(path, abs)) return call;                                             \
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT);                    \
    if (flags & O_DIRECTORY) return call;                                            \
    dst_yield(w ? 'w' : 'r');                                                        \
    pthread_mutex_lock(&mu);                                                         \
    int k = plan(w, w ? "open" : "open-r", abs, flags & (O_TRUNC | O_CREAT | O_EXCL), &arg); \
    pthread_mutex_unlock(&mu);                                                       \
    if (k == K_ERR) { errno = (int)arg; return -1; }                                 \
    if (k == K_CRASH_BEFORE || k == K_CRASH_TORN) die("open", abs);                  \
    struct stat st0; int existed = !stat(abs, &st0);                                 \
    int fd = did_open(call, abs, flags, existed, existed ? (long)st0.st_size : 0);   \
    if (k == K_CRASH_AFTER) die("open", abs);                                        \
    return fd;

int open64(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    REAL(open64);
    OPEN_BODY(r_open64(path, flags, mode))
}
int open(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    REAL(open);
    OPEN_BODY(r_open(path, flags, mode))
}
int openat64(int dfd, const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    REAL(openat64);
    if (dfd != AT_FDCWD && path && path[0] != '/') return r_openat64(dfd, path, flags, mode);
    OPEN_BODY(r_openat64(dfd, path, flags, mode))
}

static ssize_t do_write(int fd, const void *buf, size_t n, off_t off, int at) {
    REAL(write); REAL(pwrite64);
    if (!rootlen || fd < 0 || fd >= MAXFD || fdw[fd] != 1) return at ? r_pwrite64(fd, buf, n, off) : r_write(fd, buf, n);
    dst_yield('w');
    struct ent *e = fdi[fd] >= 0 ? &I[fdi[fd]] : 0;
    const char *path = e ? e->path : "";
    long arg = 0;
    pthread_mutex_lock(&mu);
    int k = plan(1, "write", path, (long)n, &arg);
    pthread_mutex_unlock(&mu);
    if (k == K_ERR) { errno = (int)arg; return -1; }
    if (k == K_CRASH_BEFORE) die("write", path);
    size_t m = n;
    if (k == K_SHORT || k == K_CRASH_TORN) { m = n * (size_t)arg / 1000; if (!m && n && k == K_SHORT) m = 1; }
    if (space >= 0) {
        if (n && space == 0) { fired++; say("FULL", path, 0); errno = ENOSPC; return -1; }
        if ((long)m > space) m = (size_t)space;
    }
    ssize_t r = at ? r_pwrite64(fd, buf, m, off) : r_write(fd, buf, m);
    if (r > 0) { if (e) e->dirty = 1; if (space >= 0) space -= r; }
    if (k == K_CRASH_TORN || k == K_CRASH_AFTER) die("write", path);
    return r;
}
ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n, 0, 0); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) { return do_write(fd, buf, n, off, 1); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(writev);
    if (!rootlen || fd < 0 || fd >= MAXFD || fdw[fd] != 1 || c < 1) return r_writev(fd, v, c);
    return do_write(fd, v[0].iov_base, v[0].iov_len, 0, 0);
}
ssize_t sendfile64(int out, int in, off_t *off, size_t n) {
    REAL(sendfile64);
    if (rootlen && out >= 0 && out < MAXFD && fdw[out] == 1) { errno = EINVAL; return -1; }   /* callers fall back to write */
    return r_sendfile64(out, in, off, n);
}
ssize_t copy_file_range(int in, off_t *oi, int out, off_t *oo, size_t n, unsigned fl) {
    REAL(copy_file_range);
    if (rootlen && out >= 0 && out < MAXFD && fdw[out] == 1) { errno = EXDEV; return -1; }
    return r_copy_file_range(in, oi, out, oo, n, fl);
}

ssize_t read(int fd, void *buf, size_t n) {
    REAL(read);
    if (!rootlen || fd < 0 || fd >= MAXFD || fdw[fd] != 2) return r_read(fd, buf, n);
    long arg = 0;
    if (fdr[fd] < 2 || !(fdr[fd] % 8)) dst_yield('r');
    fdr[fd] = fdr[fd] < 249 ? fdr[fd] + 1 : 2;
    pthread_mutex_lock(&mu);
    int k = plan(0, "read", "", (long)n, &arg);
    pthread_mutex_unlock(&mu);
    if (k == K_ERR) { errno = (int)arg; return -1; }
    if (k == K_SHORT && n > 1) { n = n * (size_t)arg / 1000; if (!n) n = 1; }
    if (k >= K_CRASH_BEFORE) die("read", "");
    return r_read(fd, buf, n);
}

static int sync_op(int fd, int which) {
    REAL(fsync); REAL(fdatasync);
    if (!rootlen || fd < 0 || fd >= MAXFD || !fdw[fd]) return which ? r_fdatasync(fd) : r_fsync(fd);
    dst_yield('w');
    long arg = 0; struct stat st;
    struct ent *e = fdi[fd] >= 0 ? &I[fdi[fd]] : (!fstat(fd, &st) ? ent_of(&st, 0, 0) : 0);   /* any descriptor syncs the file */
    pthread_mutex_lock(&mu);
    int k = plan(1, "fsync", e ? e->path : "", 0, &arg);
    pthread_mutex_unlock(&mu);
    if (k == K_ERR) { errno = (int)arg; return -1; }
    if (k == K_CRASH_BEFORE || k == K_CRASH_TORN) die("fsync", "");
    if (e && !fstat(fd, &st)) { e->dirty = 0; e->synced = st.st_size; }     /* the scratch disk need not be slow */
    if (k == K_CRASH_AFTER) die("fsync", "");
    return 0;
}
int fsync(int fd) { return sync_op(fd, 0); }
int fdatasync(int fd) { return sync_op(fd, 1); }

int close(int fd) {
    REAL(close);
    if (!rootlen || fd < 0 || fd >= MAXFD || !fdw[fd]) return r_close(fd);
    int w = fdw[fd];
    if (w != 1) { fdw[fd] = 0; return r_close(fd); }
    dst_yield('w');
    fdw[fd] = 0;
    struct ent *e = fdi[fd] >= 0 ? &I[fdi[fd]] : 0;
    long arg = 0;
    pthread_mutex_lock(&mu);
    int k = plan(1, "close", e ? e->path : "", 0, &arg);
    pthread_mutex_unlock(&mu);
    if (k == K_CRASH_BEFORE || k == K_CRASH_TORN) die("close", "");
    int r = r_close(fd);
    if (k == K_ERR) { errno = (int)arg; return -1; }
    if (k == K_CRASH_AFTER) die("close", "");
    return r;
}

#define PATH_OP(name, call, effect)                                                  \
    char abs[PATH_MAX]; long arg = 0;                                                \
    if (!inside(path, abs)) return call;                                             \
    dst_yield('w');                                                                  \
    pthread_mutex_lock(&mu);                                                         \
    int k = plan(1, name, abs, 0, &arg);                                             \
    pthread_mutex_unlock(&mu);                                                       \
    if (k == K_ERR) { errno = (int)arg; return -1; }                                 \
    if (k == K_CRASH_BEFORE || k == K_CRASH_TORN) die(name, abs);                    \
    int r = call;                                                                    \
    if (!r) { effect; }                                                              \
    if (k == K_CRASH_AFTER) die(name, abs);                                          \
    return r;

static void forget(const char *abs) {
    for (int i = 0; i < MAXI; i++) if (I[i].used && !strcmp(I[i].path, abs)) { I[i].used = 0; I[i].dirty = 0; }
}
static void moved(const char *a, const char *b) {
    struct stat st;
    forget(b);
    for (int i = 0; i < MAXI; i++)
        if (I[i].used && !strcmp(I[i].path, a) && !stat(b, &st) && st.st_ino == I[i].ino) strcpy(I[i].path, b);
}

int unlink(const char *path) { REAL(unlink); PATH_OP("unlink", r_unlink(path), forget(abs)) }
int unlinkat(int d, const char *path, int f) {
    REAL(unlinkat);
    if (d != AT_FDCWD && path && path[0] != '/') return r_unlinkat(d, path, f);
    PATH_OP("unlink", r_unlinkat(d, path, f), forget(abs))
}
int mkdir(const char *path, mode_t m) { REAL(mkdir); PATH_OP("mkdir", r_mkdir(path, m), ) }
int rmdir(const char *path) { REAL(rmdir); PATH_OP("rmdir", r_rmdir(path), ) }
int truncate64(const char *path, off64_t n) { REAL(truncate64); PATH_OP("truncate", r_truncate64(path, n), ) }
int ftruncate64(int fd, off64_t n) {
    REAL(ftruncate64);
    if (rootlen && fd >= 0 && fd < MAXFD && fdw[fd] == 1) {
        long arg = 0;
        dst_yield('w');
        int k = plan(1, "ftruncate", "", 0, &arg);
        if (k == K_ERR) { errno = (int)arg; return -1; }
        if (k == K_CRASH_BEFORE || k == K_CRASH_TORN) die("ftruncate", "");
        int r = r_ftruncate64(fd, n);
        if (fdi[fd] >= 0) { struct ent *e = &I[fdi[fd]]; e->dirty = 1; if (e->synced > n) e->synced = n; }
        if (k == K_CRASH_AFTER) die("ftruncate", "");
        return r;
    }
    return r_ftruncate64(fd, n);
}
int rename(const char *path, const char *to) {
    REAL(rename);
    char b[PATH_MAX];
    if (!inside(to, b)) b[0] = 0;
    PATH_OP("rename", r_rename(path, to), moved(abs, b))
}
int renameat(int d, const char *path, int d2, const char *to) {
    REAL(renameat);
    if (d != AT_FDCWD || d2 != AT_FDCWD) return r_renameat(d, path, d2, to);
    char b[PATH_MAX];
    if (!inside(to, b)) b[0] = 0;
    PATH_OP("rename", r_renameat(d, path, d2, to), moved(abs, b))
}
int link(const char *path, const char *to) { REAL(link); PATH_OP("link", r_link(path, to), ) }
int symlink(const char *tgt, const char *path) { REAL(symlink); PATH_OP("symlink", r_symlink(tgt, path), ) }

/* looking at paths, and file locks: only stopping points */
#define LOOK(call) char abs[PATH_MAX]; if (y_out >= 0 && inside(path, abs)) dst_yield('r'); return call;
int stat64(const char *path, struct stat64 *b) { REAL(stat64); LOOK(r_stat64(path, b)) }
int lstat64(const char *path, struct stat64 *b) { REAL(lstat64); LOOK(r_lstat64(path, b)) }
int fstatat64(int d, const char *path, struct stat64 *b, int f) { REAL(fstatat64); LOOK(r_fstatat64(d, path, b, f)) }
int access(const char *path, int m) { REAL(access); LOOK(r_access(path, m)) }
int faccessat(int d, const char *path, int m, int f) { REAL(faccessat); LOOK(r_faccessat(d, path, m, f)) }
DIR *opendir(const char *path) { REAL(opendir); LOOK(r_opendir(path)) }
int flock(int fd, int op) {
    REAL(flock);
    if (y_out < 0 || (op & LOCK_NB) || !(op & (LOCK_EX | LOCK_SH))) return r_flock(fd, op);
    dst_yield('w');
    for (;;) {
        int r = r_flock(fd, op | LOCK_NB);
        if (r == 0 || errno != EWOULDBLOCK) return r;
        dst_yield('b');
    }
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
    REAL(fcntl64);
    if (y_out < 0 || (cmd != F_SETLKW && cmd != F_OFD_SETLKW)) return r_fcntl64(fd, cmd, arg);
    dst_yield('w');
    for (;;) {
        int r = r_fcntl64(fd, cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK, arg);
        if (r == 0 || (errno != EAGAIN && errno != EACCES)) return r;
        dst_yield('b');
    }
}
