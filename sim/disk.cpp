// The simulated disk: paths under /simdisk/ live in anonymous memory files that survive the death of a simulated
// process (they are created by the supervisor). The code under test reaches them through its own fopen/open/write
// calls, which are interposed here; faults are planned by the scenario and fire at the nth call of their kind.
#include "rt.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

enum { NF = 12, NPLAN = 8, NJ = 4096, NAMELEN = 96 };
struct Jour { uint32_t file; uint32_t synced; uint64_t off, len; };
struct Disk {
    struct { char name[NAMELEN]; int exists; } f[NF];
    struct { int kind; uint64_t nth, arg; int fired; } plan[NPLAN]; int nplan;
    uint64_t nopen, nwrite, nread, nclose, nsync; int fired, full;
    Jour j[NJ]; uint32_t nj;
};
static Disk *D; static int mem[NF]; static signed char fdfile[4096];
static long sc(long n, long a, long b, long c, long d) {
    long r; register long r10 asm("r10") = d;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r;
}
static int find(const char *p) { for (int i = 0; i < NF; i++) if (D->f[i].exists && !strcmp(D->f[i].name, p)) return i; return -1; }
static bool ours(const char *p) { return D && p && !strncmp(p, "/simdisk/", 9); }
static int create(const char *p) {
    for (int i = 0; i < NF; i++) if (!D->f[i].exists) { D->f[i].exists = 1; snprintf(D->f[i].name, NAMELEN, "%s", p); if (ftruncate(mem[i], 0)) {} return i; }
    sim_error("simulated disk has too many files");
}
// a planned fault of this kind at call n?
static bool planned(int kind, uint64_t n, uint64_t *arg) {
    for (int i = 0; i < D->nplan; i++) {
        if (D->plan[i].kind != kind) continue;
        if (kind == F_DISK_ENOSPC ? n >= D->plan[i].nth : n == D->plan[i].nth) {
            if (arg) *arg = D->plan[i].arg;
            if (kind == F_DISK_ENOSPC && n > D->plan[i].nth && arg) *arg = 0;
            D->plan[i].fired = 1; D->fired++; sim_count(kind); return true;
        }
    }
    return false;
}
extern "C" {
void disk_setup() {
    D = (Disk *)mmap(0, sizeof(Disk), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < NF; i++) { char n[20]; snprintf(n, 20, "simdisk%d", i); mem[i] = (int)sc(SYS_memfd_create, (long)n, 1, 0, 0); if (mem[i] < 0) { perror("memfd"); _exit(2); } }
}
void disk_reset(void) { memset(D, 0, sizeof *D); }
int disk_exists(const char *p) { return find(p) >= 0; }
size_t disk_size(const char *p) { int i = find(p); if (i < 0) return 0; struct stat s; if (fstat(mem[i], &s)) return 0; return (size_t)s.st_size; }
size_t disk_read(const char *p, char *b, size_t n) {
    int i = find(p); if (i < 0) return 0; size_t o = 0;
    while (o < n) { long r = sc(SYS_pread64, mem[i], (long)(b + o), (long)(n - o), (long)o); if (r <= 0) break; o += (size_t)r; } return o;
}
void disk_put(const char *p, const char *b, size_t n) {
    int i = find(p); if (i < 0) i = create(p); if (ftruncate(mem[i], 0)) {}
    size_t o = 0; while (o < n) { long r = sc(SYS_pwrite64, mem[i], (long)(b + o), (long)(n - o), (long)o); if (r <= 0) break; o += (size_t)r; }
}
void disk_remove(const char *p) { int i = find(p); if (i >= 0) D->f[i].exists = 0; }
void disk_plan(int k, uint64_t nth, uint64_t arg) { if (D->nplan < NPLAN) { D->plan[D->nplan].kind = k; D->plan[D->nplan].nth = nth; D->plan[D->nplan].arg = arg; D->plan[D->nplan].fired = 0; D->nplan++; } }
void disk_plan_clear(void) { D->nplan = 0; D->fired = 0; D->nopen = D->nwrite = D->nread = D->nclose = D->nsync = 0; D->nj = 0; }
int disk_fired(void) { return D->fired; }
uint64_t disk_writes(void) { return D->nwrite; }
// every write that was never followed by a sync of its file, as (offset, length)
int disk_unsynced(const char *p, uint64_t *off, uint64_t *len, int max) {
    int i = find(p), n = 0; if (i < 0) return 0;
    for (uint32_t k = 0; k < D->nj && n < max; k++) if ((int)D->j[k].file == i && !D->j[k].synced) { off[n] = D->j[k].off; len[n] = D->j[k].len; n++; }
    return n;
}

static int open_file(const char *p, int flags) {
    D->nopen++; uint64_t arg = 0;
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    if (wr && planned(F_DISK_OPEN, D->nopen, &arg)) { errno = arg == 0 ? EACCES : arg == 1 ? ENOSPC : arg == 2 ? EROFS : EMFILE; return -1; }
    int i = find(p);
    if (i < 0) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } i = create(p); }
    else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    char path[40]; snprintf(path, 40, "/proc/self/fd/%d", mem[i]);
    int fd = (int)sc(SYS_openat, AT_FDCWD, (long)path, (flags & ~(O_CREAT | O_EXCL)) | O_CLOEXEC, 0);
    if (fd < 0 || fd >= 4096) sim_error("simulated disk cannot open its backing file: errno %d", errno);
    fdfile[fd] = (signed char)(i + 1);
    return fd;
}
static int open_mode(const char *m) {
    int f = strchr(m, '+') ? O_RDWR : m[0] == 'r' ? O_RDONLY : O_WRONLY;
    if (m[0] == 'w') f |= O_CREAT | O_TRUNC; if (m[0] == 'a') f |= O_CREAT | O_APPEND; if (strchr(m, 'x')) f |= O_EXCL;
    return f;
}
static FILE *(*real_fopen)(const char *, const char *); static int (*real_fclose)(FILE *);
FILE *fopen64(const char *p, const char *m) {
    if (!ours(p)) { if (!real_fopen) *(void **)&real_fopen = dlsym(RTLD_NEXT, "fopen64"); return real_fopen(p, m); }
    int fd = open_file(p, open_mode(m)); if (fd < 0) return 0;
    return fdopen(fd, m);
}
FILE *fopen(const char *p, const char *m) { return fopen64(p, m); }
int open64(const char *p, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    if (!ours(p)) return (int)sc(SYS_openat, AT_FDCWD, (long)p, flags, mode);
    return open_file(p, flags);
}
int open(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); return open64(p, flags, mode); }
int creat(const char *p, mode_t m) { return open64(p, O_CREAT | O_WRONLY | O_TRUNC, (int)m); }
static int after_close(int i, int r) {
    uint64_t arg = 0; D->nclose++;
    if (planned(F_DISK_CLOSE, D->nclose, &arg)) { // the last flush did not reach the disk
        struct stat s; if (!fstat(mem[i], &s) && (uint64_t)s.st_size > arg) { if (ftruncate(mem[i], s.st_size - (off_t)(arg + 1))) {} }
        errno = EIO; return -1;
    }
    return r;
}
int fclose(FILE *f) {
    if (!real_fclose) *(void **)&real_fclose = dlsym(RTLD_NEXT, "fclose");
    int fd = fileno(f), i = fd >= 0 && fd < 4096 ? fdfile[fd] : 0;
    if (i) fdfile[fd] = 0;
    int r = real_fclose(f);
    return i ? after_close(i - 1, r) : r;
}
int close(int fd) {
    int i = fd >= 0 && fd < 4096 ? fdfile[fd] : 0; if (i) fdfile[fd] = 0;
    int r = (int)sc(SYS_close, fd, 0, 0, 0); return i ? after_close(i - 1, r) : r;
}
static void journal(int i, int fd, uint64_t len) {
    long pos = sc(SYS_lseek, fd, 0, SEEK_CUR, 0);
    if (D->nj < NJ) { D->j[D->nj].file = i; D->j[D->nj].synced = 0; D->j[D->nj].off = (uint64_t)pos - len; D->j[D->nj].len = len; D->nj++; }
}
static long put(int i, int fd, const struct iovec *v, int n, uint64_t limit) { // write at most limit bytes
    uint64_t done = 0;
    for (int k = 0; k < n && done < limit; k++) {
        uint64_t l = v[k].iov_len < limit - done ? v[k].iov_len : limit - done;
        const char *b = (const char *)v[k].iov_base;
        while (l) { long r = sc(SYS_write, fd, (long)b, (long)l, 0); if (r <= 0) return done ? (long)done : -1; b += r; l -= (uint64_t)r; done += (uint64_t)r; }
    }
    if (done) journal(i, fd, done);
    return (long)done;
}
static long do_write(int i, int fd, const struct iovec *v, int n) {
    uint64_t total = 0, arg = 0; for (int k = 0; k < n; k++) total += v[k].iov_len;
    D->nwrite++; sim_event();
    if (planned(F_CRASH, D->nwrite, &arg)) { put(i, fd, v, n, total ? arg % (total + 1) : 0); sim_crash(); }
    if (planned(F_DISK_ENOSPC, D->nwrite, &arg)) {
        uint64_t part = total && arg ? arg % total : 0; if (part) return put(i, fd, v, n, part);
        errno = ENOSPC; return -1;
    }
    if (planned(F_DISK_EIO, D->nwrite, &arg)) { errno = EIO; return -1; }
    if (planned(F_DISK_EINTR, D->nwrite, &arg)) { errno = EINTR; return -1; }
    if (total > 1 && planned(F_DISK_SHORT, D->nwrite, &arg)) return put(i, fd, v, n, 1 + arg % (total - 1));
    return put(i, fd, v, n, total);
}
ssize_t write(int fd, const void *b, size_t n) {
    int i = fd >= 0 && fd < 4096 ? fdfile[fd] : 0; if (!i) return sc(SYS_write, fd, (long)b, (long)n, 0);
    struct iovec v; v.iov_base = (void *)b; v.iov_len = n; return do_write(i - 1, fd, &v, 1);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    int i = fd >= 0 && fd < 4096 ? fdfile[fd] : 0; if (!i) return sc(SYS_writev, fd, (long)v, n, 0);
    return do_write(i - 1, fd, v, n);
}
ssize_t read(int fd, void *b, size_t n) {
    int i = fd >= 0 && fd < 4096 ? fdfile[fd] : 0;
    if (i) {
        D->nread++; uint64_t arg = 0; sim_event();
        if (planned(F_DISK_READERR, D->nread, &arg)) { errno = EIO; return -1; }
        if (planned(F_DISK_RINTR, D->nread, &arg)) { errno = EINTR; return -1; }
        if (n > 1 && planned(F_DISK_SHORTREAD, D->nread, &arg)) n = 1 + arg % (n - 1);
    }
    return sc(SYS_read, fd, (long)b, (long)n, 0);
}
static int do_sync(int fd) {
    int i = fd >= 0 && fd < 4096 ? fdfile[fd] : 0; if (!i) return 0;
    D->nsync++; for (uint32_t k = 0; k < D->nj; k++) if ((int)D->j[k].file == i - 1) D->j[k].synced = 1;
    return 0;
}
int fsync(int fd) { return do_sync(fd); }
int fdatasync(int fd) { return do_sync(fd); }
int rename(const char *a, const char *b) {
    if (!ours(a) || !ours(b)) return (int)sc(SYS_rename, (long)a, (long)b, 0, 0);
    int i = find(a); if (i < 0) { errno = ENOENT; return -1; }
    int k = find(b); if (k >= 0) D->f[k].exists = 0;
    snprintf(D->f[i].name, NAMELEN, "%s", b); return 0;
}
int unlink(const char *a) {
    if (!ours(a)) return (int)sc(SYS_unlink, (long)a, 0, 0, 0);
    int i = find(a); if (i < 0) { errno = ENOENT; return -1; } D->f[i].exists = 0; return 0;
}
int remove(const char *a) { if (!ours(a)) return (int)sc(SYS_unlink, (long)a, 0, 0, 0); return unlink(a); }
int access(const char *a, int m) { if (!ours(a)) return (int)sc(SYS_access, (long)a, m, 0, 0); if (find(a) < 0) { errno = ENOENT; return -1; } return 0; }
int stat(const char *a, struct stat *s) {
    if (!ours(a)) return (int)sc(SYS_newfstatat, AT_FDCWD, (long)a, (long)s, 0);
    int i = find(a); if (i < 0) { errno = ENOENT; return -1; } return fstat(mem[i], s);
}
}
