/* LD_PRELOAD shim: numbers the file operations of a process and makes the k-th one fail, tear or kill.
   rsm_fault_arm(k, mode): k = 0 only counts; mode 0: fail, 1: die before it, 2: half of a write, then die, 3: a short write/read. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

enum { OPEN = 1, READ, WRITE, CLOSE, MKDIR, COPY };
static int armed, target, mode;
static int count;
#define MAXLOG 100000
static unsigned char kinds[MAXLOG];

void rsm_fault_arm(int k, int m) { count = 0; target = k; mode = m; armed = 1; }
int rsm_fault_disarm(void) { armed = 0; return count; }
int rsm_fault_kind(int i) { return i > 0 && i < MAXLOG ? kinds[i] : 0; }

/* is this the operation to disturb? */
static int hit(int kind) {
    if (!armed) return 0;
    count++;
    if (count < MAXLOG) kinds[count] = (unsigned char)kind;
    if (count != target) return 0;
    if (mode == 1) _exit(77);
    return 1;
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

static int fails(int e) { errno = e; return -1; }

#define OPENLIKE(name)                                                             \
    int name(const char *path, int flags, ...) {                                   \
        REAL(name);                                                                \
        mode_t m = 0;                                                              \
        if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
        if (hit(OPEN) && mode == 0) return fails(EACCES);                          \
        return real(path, flags, m);                                               \
    }
#define OPENATLIKE(name)                                                           \
    int name(int dir, const char *path, int flags, ...) {                          \
        REAL(name);                                                                \
        mode_t m = 0;                                                              \
        if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
        if (hit(OPEN) && mode == 0) return fails(EACCES);                          \
        return real(dir, path, flags, m);                                          \
    }
OPENLIKE(open)
OPENLIKE(open64)
OPENATLIKE(openat)
OPENATLIKE(openat64)

ssize_t read(int fd, void *buf, size_t n) {
    REAL(read);
    if (fd > 2 && n && hit(READ)) {
        if (mode == 0) return fails(EIO);
        if (mode == 3) return real(fd, buf, n > 1 ? (n + 1) / 2 : n);
    }
    return real(fd, buf, n);
}
ssize_t write(int fd, const void *buf, size_t n) {
    REAL(write);
    if (fd > 2 && n && hit(WRITE)) {
        if (mode == 0) return fails(ENOSPC);
        if (mode == 2) { if (n > 1 && real(fd, buf, n / 2) < 0) _exit(78); _exit(77); }
        if (mode == 3) return real(fd, buf, (n + 1) / 2);
    }
    return real(fd, buf, n);
}
int close(int fd) {
    REAL(close);
    if (fd > 2 && hit(CLOSE) && mode == 0) { real(fd); return fails(EIO); }
    return real(fd);
}
int mkdir(const char *p, mode_t m) {
    REAL(mkdir);
    if (hit(MKDIR) && mode == 0) return fails(ENOSPC);
    return real(p, m);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    static ssize_t (*real)(int, int, off_t *, size_t);
    if (!real) real = dlsym(RTLD_NEXT, "sendfile");
    if (hit(COPY)) {
        if (mode == 0) return fails(ENOSPC);
        if (mode == 2) { if (n > 1) real(o, i, off, 7); _exit(77); }
        if (mode == 3 && n > 8) return real(o, i, off, 8);
    }
    return real(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off_t *off, size_t n) { return sendfile(o, i, off, n); }
ssize_t copy_file_range(int i, off_t *io, int o, off_t *oo, size_t n, unsigned f) {
    REAL(copy_file_range);
    if (hit(COPY) && mode == 0) return fails(ENOSPC);
    return real(i, io, o, oo, n, f);
}
