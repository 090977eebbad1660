/* LD_PRELOAD shim: the simulated disk.  It owns the results of the system calls on files below one directory.
 *
 * Faults are armed from Python (ctypes): a fault applies to the n-th matching call and then count-1 further ones.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

enum { OPEN = 1, WRITE = 2, READ = 4, CLOSE = 8, TRUNC = 16, SYNC = 32 };
enum { A_ERR = 1, A_SHORT = 2, A_DROP = 3, A_TORN = 4, A_EXIT = 5, A_SHORT_ERR = 6, A_STALL = 7 };

struct fault { int kinds; long skip; long count; int action; long arg; int err; long fired; };
#define MAX_FAULTS 32
static struct fault faults[MAX_FAULTS];
static int n_faults;
static char root[PATH_MAX];
static size_t root_length;
static long counts[8];
static long bytes_written;

/* the log of the calls, so that the histories can be compared */
struct entry { int kind; long size; long result; };
#define MAX_LOG 65536
static struct entry entries[MAX_LOG];
static long n_entries;
static void (*yield_callback)(int);

static int (*r_open)(const char *, int, ...);
static int (*r_openat)(int, const char *, int, ...);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_read)(int, void *, size_t);
static ssize_t (*r_pwrite)(int, const void *, size_t, off_t);
static ssize_t (*r_pread)(int, void *, size_t, off_t);
static int (*r_close)(int);
static int (*r_ftruncate)(int, off_t);
static int (*r_fsync)(int);
static int (*r_fdatasync)(int);
static FILE *(*r_fdopen)(int, const char *);
static FILE *(*r_fopen)(const char *, const char *);

static void init(void) {
    if (r_open) return;
    r_openat = dlsym(RTLD_NEXT, "openat");
    r_write = dlsym(RTLD_NEXT, "write");
    r_read = dlsym(RTLD_NEXT, "read");
    r_pwrite = dlsym(RTLD_NEXT, "pwrite");
    r_pread = dlsym(RTLD_NEXT, "pread");
    r_close = dlsym(RTLD_NEXT, "close");
    r_ftruncate = dlsym(RTLD_NEXT, "ftruncate");
    r_fsync = dlsym(RTLD_NEXT, "fsync");
    r_fdatasync = dlsym(RTLD_NEXT, "fdatasync");
    r_fdopen = dlsym(RTLD_NEXT, "fdopen");
    r_fopen = dlsym(RTLD_NEXT, "fopen");
    r_open = dlsym(RTLD_NEXT, "open");
}

void shim_root(const char *path) { strncpy(root, path, sizeof(root) - 1); root_length = strlen(root); }
void shim_clear(void) { n_faults = 0; memset(counts, 0, sizeof(counts)); bytes_written = 0; n_entries = 0; }
void shim_heal(void) { n_faults = 0; }
void shim_yield(void (*callback)(int)) { yield_callback = callback; }
int shim_arm(int kinds, long skip, long count, int action, long arg, int err) {
    if (n_faults >= MAX_FAULTS) return -1;
    faults[n_faults] = (struct fault){kinds, skip, count, action, arg, err, 0};
    return n_faults++;
}
long shim_fired(int i) { return i < n_faults ? faults[i].fired : 0; }
long shim_count(int bit) { return counts[bit]; }
long shim_entries(void) { return n_entries; }
void shim_entry(long i, long *out) { out[0] = entries[i].kind; out[1] = entries[i].size; out[2] = entries[i].result; }

static int path_tracked(const char *path) { return root_length && path && strncmp(path, root, root_length) == 0; }

static int fd_tracked(int fd) {
    char name[64], target[PATH_MAX];
    ssize_t n;
    int e = errno;
    if (!root_length || fd < 3) return 0;
    snprintf(name, sizeof(name), "/proc/self/fd/%d", fd);
    n = readlink(name, target, sizeof(target) - 1);
    errno = e;
    if (n <= 0) return 0;
    target[n] = 0;
    return path_tracked(target);
}

static void record(int kind, long size, long result) {
    if (n_entries < MAX_LOG) entries[n_entries++] = (struct entry){kind, size, result};
}

static int bit(int kind) { int b = 0; while (kind > 1) { kind >>= 1; b++; } return b; }

static struct fault *match(int kind) {
    struct fault *found = NULL;
    counts[bit(kind)]++;
    if (yield_callback) yield_callback(kind);
    for (int i = 0; i < n_faults; i++) {
        struct fault *f = &faults[i];
        if (!(f->kinds & kind)) continue;
        if (f->skip > 0) { f->skip--; continue; }
        if (f->count == 0) continue;
        if (found) continue;
        if (f->count > 0) f->count--;
        f->fired++;
        found = f;
    }
    return found;
}

static int do_open(int dir, const char *path, int flags, mode_t mode) {
    init();
    if (path_tracked(path)) {
        struct fault *f = match(OPEN);
        if (f && f->action == A_EXIT) _exit(77);
        if (f && f->action == A_ERR) { record(OPEN, flags & O_ACCMODE, -f->err); errno = f->err; return -1; }
        record(OPEN, flags & O_ACCMODE, 0);
    }
    return dir == AT_FDCWD ? r_open(path, flags, mode) : r_openat(dir, path, flags, mode);
}

#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int dir, const char *path, int flags, ...) { MODE return do_open(dir, path, flags, mode); }
int openat64(int dir, const char *path, int flags, ...) { MODE return do_open(dir, path, flags | O_LARGEFILE, mode); }

static ssize_t real_write(int fd, const void *data, size_t n, off_t offset) {
    return offset < 0 ? r_write(fd, data, n) : r_pwrite(fd, data, n, offset);
}

static void advance(int fd, off_t n, off_t offset) { if (offset < 0) lseek(fd, n, SEEK_CUR); }

static ssize_t do_write(int fd, const void *data, size_t n, off_t offset) {
    struct fault *f;
    ssize_t r;
    init();
    if (!fd_tracked(fd)) return real_write(fd, data, n, offset);
    f = match(WRITE);
    if (!f || n == 0) { r = real_write(fd, data, n, offset); record(WRITE, n, r); return r; }
    switch (f->action) {
        case A_ERR: record(WRITE, n, -f->err); errno = f->err; return -1;
        case A_SHORT: { size_t m = n > 1 ? 1 + (size_t)f->arg % (n - 1) : n; r = real_write(fd, data, m, offset); record(WRITE, n, r); return r; }
        case A_SHORT_ERR:   /* a part fits onto the disk, then it is full */
            if (f->arg > 0 && n > 1) {
                size_t m = 1 + (size_t)f->arg % (n - 1);
                f->action = A_ERR;
                if (f->count == 0) f->count = 1;
                r = real_write(fd, data, m, offset);
                record(WRITE, n, r);
                return r;
            }
            record(WRITE, n, -f->err); errno = f->err; return -1;
        case A_DROP: advance(fd, n, offset); record(WRITE, n, 0); return n;
        case A_TORN: { size_t m = (size_t)f->arg % n; if (m) real_write(fd, data, m, offset); advance(fd, n - m, offset); record(WRITE, n, m); return n; }
        case A_EXIT: { size_t m = (size_t)f->arg % (n + 1); if (m) real_write(fd, data, m, offset); _exit(77); }
    }
    return real_write(fd, data, n, offset);
}

ssize_t write(int fd, const void *data, size_t n) { return do_write(fd, data, n, -1); }
ssize_t pwrite(int fd, const void *data, size_t n, off_t offset) { return do_write(fd, data, n, offset); }
ssize_t pwrite64(int fd, const void *data, size_t n, off_t offset) { return do_write(fd, data, n, offset); }

static ssize_t do_read(int fd, void *data, size_t n, off_t offset) {
    struct fault *f;
    ssize_t r;
    init();
    if (!fd_tracked(fd)) return offset < 0 ? r_read(fd, data, n) : r_pread(fd, data, n, offset);
    f = match(READ);
    if (f && f->action == A_ERR) { record(READ, n, -f->err); errno = f->err; return -1; }
    if (f && f->action == A_SHORT && n > 1) n = 1 + (size_t)f->arg % (n - 1);
    r = offset < 0 ? r_read(fd, data, n) : r_pread(fd, data, n, offset);
    record(READ, n, r);
    return r;
}

ssize_t read(int fd, void *data, size_t n) { return do_read(fd, data, n, -1); }
ssize_t pread(int fd, void *data, size_t n, off_t offset) { return do_read(fd, data, n, offset); }
ssize_t pread64(int fd, void *data, size_t n, off_t offset) { return do_read(fd, data, n, offset); }
ssize_t __read_chk(int fd, void *data, size_t n, size_t size) { (void)size; return do_read(fd, data, n, -1); }

/* the time stamps and the serial numbers, that libsndfile writes into files (Python's clocks do not use these functions) */
time_t time(time_t *out) {
    struct timespec t = {1700000000, 0};
    if (!root_length) clock_gettime(CLOCK_REALTIME, &t);
    if (out) *out = t.tv_sec;
    return t.tv_sec;
}
int gettimeofday(struct timeval *restrict tv, void *restrict zone) {
    struct timespec t = {1700000000, 123456000};
    (void)zone;
    if (!root_length) clock_gettime(CLOCK_REALTIME, &t);
    { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; }
    return 0;
}

int close(int fd) {
    init();
    if (fd_tracked(fd)) {
        struct fault *f = match(CLOSE);
        if (f && f->action == A_EXIT) _exit(77);
        if (f && f->action == A_ERR) { r_close(fd); record(CLOSE, 0, -f->err); errno = f->err; return -1; }
        record(CLOSE, 0, 0);
    }
    return r_close(fd);
}

static int do_truncate(int fd, off_t n) {
    init();
    if (fd_tracked(fd)) {
        struct fault *f = match(TRUNC);
        if (f && f->action == A_EXIT) _exit(77);
        if (f && f->action == A_ERR) { record(TRUNC, n, -f->err); errno = f->err; return -1; }
        record(TRUNC, n, 0);
    }
    return r_ftruncate(fd, n);
}
int ftruncate(int fd, off_t n) { return do_truncate(fd, n); }
int ftruncate64(int fd, off_t n) { return do_truncate(fd, n); }

static int do_sync(int fd, int (**real)(int)) {
    init();
    if (fd_tracked(fd)) {
        struct fault *f = match(SYNC);
        if (f && f->action == A_ERR) { record(SYNC, 0, -f->err); errno = f->err; return -1; }
        record(SYNC, 0, 0);
    }
    return (*real)(fd);
}
int fsync(int fd) { return do_sync(fd, &r_fsync); }
int fdatasync(int fd) { return do_sync(fd, &r_fdatasync); }

/* streams: glibc's stdio does not call the functions from above */
static ssize_t c_read(void *c, char *data, size_t n) { return read((int)(long)c, data, n); }
static ssize_t c_write(void *c, const char *data, size_t n) {
    size_t done = 0;
    while (done < n) {      /* as _IO_new_file_write */
        ssize_t r = write((int)(long)c, data + done, n - done);
        if (r < 0) break;
        done += r;
    }
    return done;
}
static int c_seek(void *c, off64_t *offset, int whence) {
    off_t r = lseek((int)(long)c, *offset, whence);
    if (r < 0) return -1;
    *offset = r;
    return 0;
}
static int c_close(void *c) { return close((int)(long)c); }

static FILE *cookie(int fd, const char *mode) {
    cookie_io_functions_t functions = {c_read, c_write, c_seek, c_close};
    FILE *f = fopencookie((void *)(long)fd, mode, functions);
    if (f) setvbuf(f, NULL, _IOFBF, 4096);
    return f;
}

FILE *fdopen(int fd, const char *mode) {
    init();
    return fd_tracked(fd) ? cookie(fd, mode) : r_fdopen(fd, mode);
}

FILE *fopen(const char *path, const char *mode) {
    init();
    if (path_tracked(path)) {
        int flags = strchr(mode, '+') ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY;
        int fd;
        if (mode[0] == 'w') flags |= O_CREAT | O_TRUNC;
        if (mode[0] == 'a') flags |= O_CREAT | O_APPEND;
        fd = open(path, flags, 0666);
        return fd < 0 ? NULL : cookie(fd, mode);
    }
    return r_fopen(path, mode);
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
