/* Counts the operations that change files below a folder and lets chosen ones fail, or ends the process there. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NONE, FAIL, CRASH_BEFORE, CRASH_AFTER, SHORT, SHORT_CRASH };
#define MAX 256
#define FAULTS 4

struct entry { char op[16]; char path[256]; long size; long ino; long done; };
struct shared { int count; struct entry log[MAX]; };

static struct shared *sh;
static char prefix[PATH_MAX];
static int armed, n_faults, at[FAULTS], kind[FAULTS];
static long arg[FAULTS];

void faults_init(void) {
    sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
void faults_arm(const char *p) { snprintf(prefix, sizeof prefix, "%s", p); sh->count = 0; n_faults = 0; armed = 1; }
void faults_add(int k, int what, long a) { at[n_faults] = k; kind[n_faults] = what; arg[n_faults++] = a; }
void faults_disarm(void) { armed = 0; }
int faults_count(void) { return sh->count; }
struct entry *faults_entry(int i) { return &sh->log[i]; }

static int below(const char *path) { return !strncmp(path, prefix, strlen(prefix)); }

static int at_path(int dir, const char *path, char *out) {
    char base[PATH_MAX];
    if (path[0] == '/') { snprintf(out, PATH_MAX, "%s", path); return below(out); }
    if (dir == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
    else {
        char link[64];
        snprintf(link, sizeof link, "/proc/self/fd/%d", dir);
        ssize_t n = readlink(link, base, sizeof base - 1);
        if (n < 0) return 0;
        base[n] = 0;
    }
    if (snprintf(out, PATH_MAX, "%s/%s", base, path) >= PATH_MAX) return 0;
    return below(out);
}

static int at_fd(int fd, char *out) {
    char link[64];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, out, PATH_MAX - 1);
    if (n < 0) return 0;
    out[n] = 0;
    return below(out);
}

static struct entry *current;

/* -> what happens to this operation */
static int step(const char *op, const char *path, int fd, long size, long *a) {
    int k = sh->count;
    if (k >= MAX) return NONE;
    current = &sh->log[k];
    snprintf(current->op, sizeof current->op, "%s", op);
    snprintf(current->path, sizeof current->path, "%s", path);
    current->size = size;
    current->done = -2;
    struct stat st;
    current->ino = (fd >= 0 ? fstat(fd, &st) : stat(path, &st)) == 0 ? (long)st.st_ino : -1;
    sh->count = k + 1;
    for (int i = 0; i < n_faults; i++)
        if (at[i] == k) { *a = arg[i]; if (kind[i] == CRASH_BEFORE) _exit(99); return kind[i]; }
    return NONE;
}

#define REAL(name, type) static type real; if (!real) real = (type)dlsym(RTLD_NEXT, #name)
#define AROUND(ret, op, path, fd, size, call) do { \
    long a_ = 0; int f_ = step(op, path, fd, size, &a_); struct entry *e_ = current; \
    if (f_ == FAIL) { errno = (int)a_; return -1; } \
    ret r_ = (call); int err_ = errno; e_->done = (long)r_; \
    if (e_->ino < 0) { struct stat st_; if (stat(path, &st_) == 0) e_->ino = (long)st_.st_ino; } \
    if (f_ == CRASH_AFTER) _exit(99); \
    errno = err_; return r_; } while (0)

typedef int (*open_t)(const char *, int, ...);
typedef int (*openat_t)(int, const char *, int, ...);
#define WRITES(flags) (((flags) & O_ACCMODE) != O_RDONLY || ((flags) & (O_CREAT | O_TRUNC)))
#define OPEN(name) int name(const char *path, int flags, ...) { \
    REAL(name, open_t); va_list v; va_start(v, flags); int mode = va_arg(v, int); va_end(v); char p[PATH_MAX]; \
    if (!armed || !WRITES(flags) || !at_path(AT_FDCWD, path, p)) return real(path, flags, mode); \
    AROUND(int, (flags & O_TRUNC) ? "open-trunc" : "open", p, -1, 0, real(path, flags, mode)); }
#define OPENAT(name) int name(int dir, const char *path, int flags, ...) { \
    REAL(name, openat_t); va_list v; va_start(v, flags); int mode = va_arg(v, int); va_end(v); char p[PATH_MAX]; \
    if (!armed || !WRITES(flags) || !at_path(dir, path, p)) return real(dir, path, flags, mode); \
    AROUND(int, (flags & O_TRUNC) ? "open-trunc" : "open", p, -1, 0, real(dir, path, flags, mode)); }
OPEN(open)
OPEN(open64)
OPENAT(openat)
OPENAT(openat64)

typedef int (*creat_t)(const char *, mode_t);
#define CREAT(name) int name(const char *path, mode_t mode) { REAL(name, creat_t); char p[PATH_MAX]; \
    if (!armed || !at_path(AT_FDCWD, path, p)) return real(path, mode); \
    AROUND(int, "open-trunc", p, -1, 0, real(path, mode)); }
CREAT(creat)
CREAT(creat64)

typedef ssize_t (*write_t)(int, const void *, size_t);
ssize_t write(int fd, const void *buf, size_t n) {
    REAL(write, write_t);
    char p[PATH_MAX];
    if (!armed || !at_fd(fd, p)) return real(fd, buf, n);
    long a = 0;
    int f = step("write", p, fd, (long)n, &a);
    struct entry *e = current;
    if (f == FAIL) { errno = (int)a; return -1; }
    if (f == SHORT || f == SHORT_CRASH) n = (size_t)a < n ? (size_t)a : n;
    ssize_t r = real(fd, buf, n);
    int err = errno;
    e->done = r;
    if (f == CRASH_AFTER || f == SHORT_CRASH) _exit(99);
    errno = err;
    return r;
}
typedef ssize_t (*pwrite_t)(int, const void *, size_t, off_t);
#define PWRITE(name) ssize_t name(int fd, const void *buf, size_t n, off_t o) { REAL(name, pwrite_t); char p[PATH_MAX]; \
    if (!armed || !at_fd(fd, p)) return real(fd, buf, n, o); \
    AROUND(ssize_t, "write", p, fd, (long)n, real(fd, buf, n, o)); }
PWRITE(pwrite)
PWRITE(pwrite64)
typedef ssize_t (*writev_t)(int, const struct iovec *, int);
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(writev, writev_t); char p[PATH_MAX];
    if (!armed || !at_fd(fd, p)) return real(fd, v, n);
    AROUND(ssize_t, "write", p, fd, 0, real(fd, v, n)); }
typedef ssize_t (*sendfile_t)(int, int, off_t *, size_t);
#define SENDFILE(name) ssize_t name(int out, int in, off_t *o, size_t n) { REAL(name, sendfile_t); char p[PATH_MAX]; \
    if (!armed || !at_fd(out, p)) return real(out, in, o, n); \
    AROUND(ssize_t, "write", p, out, (long)n, real(out, in, o, n)); }
SENDFILE(sendfile)
SENDFILE(sendfile64)
typedef ssize_t (*cfr_t)(int, off64_t *, int, off64_t *, size_t, unsigned);
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned f) { REAL(copy_file_range, cfr_t); char p[PATH_MAX];
    if (!armed || !at_fd(out, p)) return real(in, io, out, oo, n, f);
    AROUND(ssize_t, "write", p, out, (long)n, real(in, io, out, oo, n, f)); }

typedef int (*fd_t)(int);
#define SYNC(name) int name(int fd) { REAL(name, fd_t); char p[PATH_MAX]; \
    if (!armed || !at_fd(fd, p)) return real(fd); \
    struct stat st; long size = fstat(fd, &st) == 0 ? (long)st.st_size : 0; \
    AROUND(int, "fsync", p, fd, size, real(fd)); }
SYNC(fsync)
SYNC(fdatasync)

int close(int fd) {
    REAL(close, fd_t);
    char p[PATH_MAX];
    int flags;
    if (!armed || !at_fd(fd, p) || (flags = fcntl(fd, F_GETFL)) < 0 || (flags & O_ACCMODE) == O_RDONLY) return real(fd);
    long a = 0;
    int f = step("close", p, fd, 0, &a);
    struct entry *e = current;
    int r = real(fd), err = errno;
    e->done = r;
    if (f == CRASH_AFTER) _exit(99);
    if (f == FAIL) { errno = (int)a; return -1; }
    errno = err;
    return r;
}

typedef int (*two_t)(const char *, const char *);
#define TWO(name, op) int name(const char *from, const char *to) { REAL(name, two_t); char p[PATH_MAX], q[PATH_MAX]; \
    if (!armed || !(at_path(AT_FDCWD, from, q) | at_path(AT_FDCWD, to, p))) return real(from, to); \
    AROUND(int, op, q, -1, 0, real(from, to)); }
TWO(rename, "rename")
TWO(link, "link")
TWO(symlink, "symlink")
typedef int (*renameat_t)(int, const char *, int, const char *);
int renameat(int a, const char *from, int b, const char *to) { REAL(renameat, renameat_t); char p[PATH_MAX], q[PATH_MAX];
    if (!armed || !(at_path(a, from, q) | at_path(b, to, p))) return real(a, from, b, to);
    AROUND(int, "rename", q, -1, 0, real(a, from, b, to)); }
typedef int (*one_t)(const char *);
#define ONE(name, op) int name(const char *path) { REAL(name, one_t); char p[PATH_MAX]; \
    if (!armed || !at_path(AT_FDCWD, path, p)) return real(path); \
    AROUND(int, op, p, -1, 0, real(path)); }
ONE(unlink, "unlink")
ONE(rmdir, "rmdir")
typedef int (*unlinkat_t)(int, const char *, int);
int unlinkat(int d, const char *path, int f) { REAL(unlinkat, unlinkat_t); char p[PATH_MAX];
    if (!armed || !at_path(d, path, p)) return real(d, path, f);
    AROUND(int, "unlink", p, -1, 0, real(d, path, f)); }
typedef int (*mode_fn)(const char *, mode_t);
#define MODE(name, op) int name(const char *path, mode_t m) { REAL(name, mode_fn); char p[PATH_MAX]; \
    if (!armed || !at_path(AT_FDCWD, path, p)) return real(path, m); \
    AROUND(int, op, p, -1, 0, real(path, m)); }
MODE(mkdir, "mkdir")
MODE(chmod, "chmod")
typedef int (*mkdirat_t)(int, const char *, mode_t);
int mkdirat(int d, const char *path, mode_t m) { REAL(mkdirat, mkdirat_t); char p[PATH_MAX];
    if (!armed || !at_path(d, path, p)) return real(d, path, m);
    AROUND(int, "mkdir", p, -1, 0, real(d, path, m)); }
typedef int (*fchmod_t)(int, mode_t);
int fchmod(int fd, mode_t m) { REAL(fchmod, fchmod_t); char p[PATH_MAX];
    if (!armed || !at_fd(fd, p)) return real(fd, m);
    AROUND(int, "chmod", p, fd, 0, real(fd, m)); }
typedef int (*fchmodat_t)(int, const char *, mode_t, int);
int fchmodat(int d, const char *path, mode_t m, int f) { REAL(fchmodat, fchmodat_t); char p[PATH_MAX];
    if (!armed || !at_path(d, path, p)) return real(d, path, m, f);
    AROUND(int, "chmod", p, -1, 0, real(d, path, m, f)); }
typedef int (*ftruncate_t)(int, off_t);
#define FTRUNC(name) int name(int fd, off_t n) { REAL(name, ftruncate_t); char p[PATH_MAX]; \
    if (!armed || !at_fd(fd, p)) return real(fd, n); \
    AROUND(int, "truncate", p, fd, (long)n, real(fd, n)); }
FTRUNC(ftruncate)
FTRUNC(ftruncate64)
typedef int (*truncate_t)(const char *, off_t);
#define TRUNC(name) int name(const char *path, off_t n) { REAL(name, truncate_t); char p[PATH_MAX]; \
    if (!armed || !at_path(AT_FDCWD, path, p)) return real(path, n); \
    AROUND(int, "truncate", p, -1, (long)n, real(path, n)); }
TRUNC(truncate)
TRUNC(truncate64)
