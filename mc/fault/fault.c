/* LD_PRELOAD shim: numbers every file-system operation on paths below one
 * directory and injects crashes, torn writes and errors at chosen numbers.
 * Only operations inside that directory are ever changed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define NFD 4096
#define NLOG 100000
enum { CRASH = 1, TORN = 2, ERR = 3, SHORT = 4, ERRALL = 5 };
static char dir[PATH_MAX];
static int armed;
static unsigned char track[NFD];
static int count;
static struct { int at, mode, arg; } faults[8];
static int nfaults;
static char logbuf[NLOG];
static int lognames[NLOG], nlog;

int fault_count(void) { return count; }
const char *fault_log(void) { return logbuf; }
void fault_disarm(void) { armed = 0; }
void fault_clear(void) { nfaults = 0; }
void fault_add(int at, int mode, int arg) {
    faults[nfaults].at = at; faults[nfaults].mode = mode; faults[nfaults++].arg = arg;
}
void fault_arm(const char *d) {
    strncpy(dir, d, sizeof dir - 1); count = 0; logbuf[0] = 0; nlog = 0;
    memset(track, 0, sizeof track); armed = 1;
}
static int under(const char *p) {
    char buf[PATH_MAX];
    if (!armed || !p) return 0;
    if (p[0] != '/') {
        if (!getcwd(buf, sizeof buf)) return 0;
        strncat(buf, "/", sizeof buf - strlen(buf) - 1);
        strncat(buf, p, sizeof buf - strlen(buf) - 1);
        p = buf;
    }
    return strncmp(p, dir, strlen(dir)) == 0;
}
static int tfd(int fd) { return armed && fd >= 0 && fd < NFD && track[fd]; }

/* Returns 0 to go on, else errno to fail with; *len is shortened for SHORT. */
static int point(const char *name, size_t *len, int is_write, int *torn) {
    int i, at = count++;
    if (nlog < NLOG - 64) nlog += sprintf(logbuf + nlog, "%s ", name);
    *torn = 0;
    for (i = 0; i < nfaults; i++) {
        int mode = faults[i].mode;
        if (mode == ERRALL && is_write && at >= faults[i].at) return faults[i].arg;
        if (faults[i].at != at) continue;
        if (mode == CRASH) _exit(137);
        if (mode == TORN) {
            if (!len || *len < 2) _exit(137);
            size_t n = *len * (size_t)faults[i].arg / 4;
            if (n == 0) n = 1;
            if (n >= *len) n = *len - 1;
            *len = n; *torn = 1; return 0;
        }
        if (mode == ERR) return faults[i].arg;
        if (mode == SHORT && len && *len > 1) *len = *len / 2;
    }
    return 0;
}
#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))
#define FAIL(e) do { errno = (e); return -1; } while (0)

static int opened(int fd, int isdir) { if (fd >= 0 && fd < NFD && !isdir) track[fd] = 1; return fd; }

#define OPENBODY(call, pathok, fl) \
    mode_t m = 0; int t, e; \
    if ((fl) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    if (!(pathok)) return call; \
    if (((fl) & O_ACCMODE) != O_RDONLY || ((fl) & O_TRUNC)) { e = point(((fl) & O_TRUNC) ? "open-trunc" : "open", 0, 0, &t); if (e) FAIL(e); } \
    return opened(call, 0);
int open(const char *p, int flags, ...) { OPENBODY(REAL(open)(p, flags, m), under(p), flags) }
int open64(const char *p, int flags, ...) { OPENBODY(REAL(open64)(p, flags, m), under(p), flags) }
int openat(int d, const char *p, int flags, ...) { OPENBODY(REAL(openat)(d, p, flags, m), under(p), flags) }
int openat64(int d, const char *p, int flags, ...) { OPENBODY(REAL(openat64)(d, p, flags, m), under(p), flags) }
int creat(const char *p, mode_t m) { int t, e; if (under(p)) { e = point("creat", 0, 0, &t); if (e) FAIL(e); return opened(REAL(creat)(p, m), 0); } return REAL(creat)(p, m); }

#define WBODY(name, call) \
    int t, e; ssize_t r; \
    if (!tfd(fd)) return call; \
    e = point(name, &n, 1, &t); if (e) FAIL(e); \
    r = call; if (t) _exit(137); return r;
ssize_t write(int fd, const void *b, size_t n) { WBODY("write", REAL(write)(fd, b, n)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { WBODY("pwrite", REAL(pwrite)(fd, b, n, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { WBODY("pwrite", REAL(pwrite64)(fd, b, n, o)) }
ssize_t sendfile(int fd, int in, off_t *o, size_t n) { WBODY("sendfile", REAL(sendfile)(fd, in, o, n)) }
ssize_t sendfile64(int fd, int in, off64_t *o, size_t n) { WBODY("sendfile", REAL(sendfile64)(fd, in, o, n)) }
ssize_t copy_file_range(int in, off64_t *oi, int fd, off64_t *oo, size_t n, unsigned f) { WBODY("copy_file_range", REAL(copy_file_range)(in, oi, fd, oo, n, f)) }
#define SBODY(name, call, isw, ok) int t, e; if (!(ok)) return call; e = point(name, 0, isw, &t); if (e) FAIL(e); return call;
ssize_t writev(int fd, const struct iovec *v, int c) { SBODY("writev", REAL(writev)(fd, v, c), 1, tfd(fd)) }
ssize_t pwritev(int fd, const struct iovec *v, int c, off_t o) { SBODY("pwritev", REAL(pwritev)(fd, v, c, o), 1, tfd(fd)) }
int ftruncate(int fd, off_t n) { SBODY("ftruncate", REAL(ftruncate)(fd, n), 1, tfd(fd)) }
int ftruncate64(int fd, off64_t n) { SBODY("ftruncate", REAL(ftruncate64)(fd, n), 1, tfd(fd)) }
int truncate(const char *p, off_t n) { SBODY("truncate", REAL(truncate)(p, n), 1, under(p)) }
int truncate64(const char *p, off64_t n) { SBODY("truncate", REAL(truncate64)(p, n), 1, under(p)) }
int rename(const char *a, const char *b) { SBODY("rename", REAL(rename)(a, b), 0, under(a) || under(b)) }
int renameat(int x, const char *a, int y, const char *b) { SBODY("rename", REAL(renameat)(x, a, y, b), 0, under(a) || under(b)) }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { SBODY("rename", REAL(renameat2)(x, a, y, b, f), 0, under(a) || under(b)) }
int link(const char *a, const char *b) { SBODY("link", REAL(link)(a, b), 0, under(b)) }
int linkat(int x, const char *a, int y, const char *b, int f) { SBODY("link", REAL(linkat)(x, a, y, b, f), 0, under(b)) }
int symlink(const char *a, const char *b) { SBODY("symlink", REAL(symlink)(a, b), 0, under(b)) }
int unlink(const char *a) { SBODY("unlink", REAL(unlink)(a), 0, under(a)) }
int unlinkat(int d, const char *a, int f) { SBODY("unlink", REAL(unlinkat)(d, a, f), 0, under(a)) }
int remove(const char *a) { SBODY("unlink", REAL(remove)(a), 0, under(a)) }
int mkdir(const char *a, mode_t m) { SBODY("mkdir", REAL(mkdir)(a, m), 0, under(a)) }
int fsync(int fd) { SBODY("fsync", REAL(fsync)(fd), 0, tfd(fd)) }
int fdatasync(int fd) { SBODY("fsync", REAL(fdatasync)(fd), 0, tfd(fd)) }
int posix_fallocate(int fd, off_t o, off_t l) { int t, e; if (tfd(fd)) { e = point("fallocate", 0, 1, &t); if (e) return e; } return REAL(posix_fallocate)(fd, o, l); }
int flock(int fd, int op) { SBODY("flock", REAL(flock)(fd, op), 0, tfd(fd)) }
/* a failing close still closes the descriptor */
int close(int fd) {
    int t, e = 0;
    if (tfd(fd)) { e = point("close", 0, 0, &t); track[fd] = 0; }
    int r = REAL(close)(fd);
    if (e) FAIL(e);
    return r;
}
ssize_t read(int fd, void *b, size_t n) { int t, e; if (tfd(fd)) { e = point("read", &n, 0, &t); if (e) FAIL(e); } return REAL(read)(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { int t, e; if (tfd(fd)) { e = point("pread", &n, 0, &t); if (e) FAIL(e); } return REAL(pread)(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { int t, e; if (tfd(fd)) { e = point("pread", &n, 0, &t); if (e) FAIL(e); } return REAL(pread64)(fd, b, n, o); }
