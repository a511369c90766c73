/* LD_PRELOAD shim: logs every change a process makes to the file system, and can end the process or fail the
 * call at the k-th one. State lives in shared memory, so workers forked after fs_arm() share one count. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/sendfile.h>
#include <unistd.h>

struct state { int armed; int count; int kill_at; int fail_at; int err; int sticky; int half; int hit; };
static struct state *S;
static int logfd = -1;
static char under[PATH_MAX];

__attribute__((constructor)) static void init(void) {
    S = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
/* events on paths under `prefix` are counted; a fresh shared state for this process and its children */
void fs_arm(int fd, const char *prefix, int kill_at, int fail_at, int err, int sticky, int half) {
    S = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    logfd = fd;
    strncpy(under, prefix, sizeof under - 1);
    S->kill_at = kill_at; S->fail_at = fail_at; S->err = err; S->sticky = sticky; S->half = half;
    S->armed = 1;
}
void fs_disarm(void) { if (S) S->armed = 0; }
int fs_count(void) { return S ? S->count : -1; }
int fs_hit(void) { return S ? S->hit : -1; }

#define REAL(name) ((__typeof__(&name)) real(#name))
static void *real(const char *n) { return dlsym(RTLD_NEXT, n); }

static void absolute(int dirfd, const char *p, char *out) {
    char base[PATH_MAX / 2] = "";
    if (p[0] != '/') {
        if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base - 2)) base[0] = 0; }
        else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
               ssize_t n = readlink(l, base, sizeof base - 2); base[n > 0 ? n : 0] = 0; }
        snprintf(out, PATH_MAX, "%s/%s", base, p);
    } else snprintf(out, PATH_MAX, "%s", p);
}
static int fdpath(int fd, char *out) {
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, out, PATH_MAX - 1);
    if (n <= 0 || out[0] != '/') return 0;
    out[n] = 0;
    return strncmp(out, "/dev/", 5) != 0 && strncmp(out, "/proc/", 6) != 0;
}
/* -> 0 go on, -1 fail with errno set, 1 do half of it and then end, 2 do half of it only */
static int event(const char *op, const char *path, long n) {
    if (!S || !S->armed || !strncmp(path, "/dev/", 5) || !strncmp(path, "/proc/", 6)) return 0;
    int k = 0, act = 0;
    if (!strncmp(path, under, strlen(under))) {
        k = __sync_add_and_fetch(&S->count, 1);
        int iswrite = op[0] == 'w';
        if (S->kill_at && k == S->kill_at) act = (S->half && iswrite && n > 1) ? 1 : 3;
        if (S->fail_at && (k == S->fail_at || (k > S->fail_at && S->sticky && strcmp(op, "unlink")))) {
            act = (S->half && iswrite && n > 1 && k == S->fail_at) ? 2 : 4;
            S->hit++;
        }
    }
    if (logfd >= 0) {
        char b[PATH_MAX + 100];
        int m = snprintf(b, sizeof b, "%d\t%s\t%ld\t%s\n", k, op, n, path);
        int e = errno;
        if (REAL(write)(logfd, b, m) < 0) {}
        errno = e;
    }
    if (act == 3) raise(SIGKILL);
    if (act == 4) { errno = S->err; return -1; }
    return act;
}
static int wr(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }
static const char *oname(int f) { return f & O_TRUNC ? "open-trunc" : f & O_APPEND ? "open-append" : f & O_CREAT ? "open-create" : "open-write"; }

#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
#define OPEN(name) int name(const char *p, int flags, ...) { MODE \
    if (S && S->armed && wr(flags)) { char b[PATH_MAX]; absolute(AT_FDCWD, p, b); if (event(oname(flags), b, 0) < 0) return -1; } \
    return ((int (*)(const char *, int, ...)) real(#name))(p, flags, mode); }
OPEN(open)
OPEN(open64)
#define OPENAT(name) int name(int d, const char *p, int flags, ...) { MODE \
    if (S && S->armed && wr(flags)) { char b[PATH_MAX]; absolute(d, p, b); if (event(oname(flags), b, 0) < 0) return -1; } \
    return ((int (*)(int, const char *, int, ...)) real(#name))(d, p, flags, mode); }
OPENAT(openat)
OPENAT(openat64)
#define FOPEN(name) FILE *name(const char *p, const char *m) { \
    if (S && S->armed && strpbrk(m, "wa+")) { char b[PATH_MAX]; absolute(AT_FDCWD, p, b); if (event("open-trunc", b, 0) < 0) return NULL; } \
    return ((FILE *(*)(const char *, const char *)) real(#name))(p, m); }
FOPEN(fopen)
FOPEN(fopen64)
ssize_t write(int fd, const void *buf, size_t n) {
    static __typeof__(&write) r; if (!r) r = REAL(write);
    char b[PATH_MAX];
    if (S && S->armed && fd != logfd && fdpath(fd, b)) {
        int a = event("write", b, n);
        if (a < 0) return -1;
        if (a == 1) { if (r(fd, buf, n / 2) < 0) {} raise(SIGKILL); }
        if (a == 2) return r(fd, buf, n / 2);
    }
    return r(fd, buf, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    char b[PATH_MAX];
    if (S && S->armed && fd != logfd && fdpath(fd, b) && event("writev", b, 0) < 0) return -1;
    return REAL(writev)(fd, v, c);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
    char b[PATH_MAX];
    if (S && S->armed && fd != logfd && fdpath(fd, b) && event("pwrite", b, 0) < 0) return -1;
    return REAL(pwrite64)(fd, buf, n, o);
}
#define SENDFILE(name, off) ssize_t name(int o, int i, off *x, size_t n) { char b[PATH_MAX]; \
    if (S && S->armed && fdpath(o, b)) { int a = event("write-copy", b, n); if (a < 0) return -1; \
      if (a) { n /= 2; ssize_t k = REAL(name)(o, i, x, n); if (a == 1) raise(SIGKILL); return k; } } \
    return REAL(name)(o, i, x, n); }
SENDFILE(sendfile, off_t)
SENDFILE(sendfile64, off64_t)
ssize_t copy_file_range(int i, off64_t *x, int o, off64_t *y, size_t n, unsigned f) {
    char b[PATH_MAX];
    if (S && S->armed && fdpath(o, b) && event("write-copy", b, 0) < 0) return -1;
    return REAL(copy_file_range)(i, x, o, y, n, f);
}
#define PATH1(op, name, proto, d, p, args) int name proto { \
    if (S && S->armed) { char b[PATH_MAX]; absolute(d, p, b); if (event(op, b, 0) < 0) return -1; } \
    return REAL(name) args; }
PATH1("unlink", unlink, (const char *p), AT_FDCWD, p, (p))
PATH1("unlink", unlinkat, (int d, const char *p, int f), d, p, (d, p, f))
PATH1("unlink", remove, (const char *p), AT_FDCWD, p, (p))
PATH1("mkdir", mkdir, (const char *p, mode_t m), AT_FDCWD, p, (p, m))
PATH1("mkdir", mkdirat, (int d, const char *p, mode_t m), d, p, (d, p, m))
PATH1("rmdir", rmdir, (const char *p), AT_FDCWD, p, (p))
PATH1("truncate", truncate, (const char *p, off_t l), AT_FDCWD, p, (p, l))
PATH1("truncate", truncate64, (const char *p, off64_t l), AT_FDCWD, p, (p, l))
PATH1("chmod", chmod, (const char *p, mode_t m), AT_FDCWD, p, (p, m))
PATH1("chmod", fchmodat, (int d, const char *p, mode_t m, int f), d, p, (d, p, m, f))
PATH1("chown", chown, (const char *p, uid_t u, gid_t g), AT_FDCWD, p, (p, u, g))
PATH1("utime", utimensat, (int d, const char *p, const struct timespec t[2], int f), d, p, (d, p, t, f))
PATH1("link", link, (const char *o, const char *p), AT_FDCWD, p, (o, p))
PATH1("link", symlink, (const char *o, const char *p), AT_FDCWD, p, (o, p))
#define RENAME(name, proto, d1, d2, args) int name proto { \
    if (S && S->armed) { char b[PATH_MAX]; absolute(d1, o, b); if (event("rename-from", b, 0) < 0) return -1; \
                         absolute(d2, p, b); if (event("rename-to", b, 0) < 0) return -1; } \
    return REAL(name) args; }
RENAME(rename, (const char *o, const char *p), AT_FDCWD, AT_FDCWD, (o, p))
RENAME(renameat, (int d1, const char *o, int d2, const char *p), d1, d2, (d1, o, d2, p))
int ftruncate64(int fd, off64_t l) {
    char b[PATH_MAX];
    if (S && S->armed && fdpath(fd, b) && event("truncate", b, l) < 0) return -1;
    return REAL(ftruncate64)(fd, l);
}
