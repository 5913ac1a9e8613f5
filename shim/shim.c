/* Deterministic-simulation seam of the command-line program.
 *
 * Preloaded into every simulated process.  Every operating-system service the program can use to
 * reach a file, standard stream, clock, random source, process id or memory goes to the simulator
 * over one socket (file descriptor 3), which answers with what the simulated operating system does.
 * A process is therefore always either computing or blocked in a request; the simulator decides
 * which request is answered next and how.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <limits.h>
#include <malloc.h>
#include <pthread.h>
#include <spawn.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>

#define PUB __attribute__((visibility("default")))

enum {
    OP_HELLO = 1, OP_OPEN, OP_CLOSE, OP_READ, OP_WRITE, OP_LSEEK, OP_FSYNC, OP_FTRUNCATE, OP_STAT,
    OP_FSTAT, OP_CHMOD, OP_FCHMOD, OP_CHOWN, OP_FCHOWN, OP_RENAME, OP_LINK, OP_SYMLINK, OP_UNLINK,
    OP_MKDIR, OP_READLINK, OP_REALPATH, OP_GETCWD, OP_CHDIR, OP_DUP, OP_READDIR, OP_ACCESS,
    OP_TRUNCATE, OP_FLOCK, OP_SLEEP, OP_UTIME, OP_STATFS, OP_FCNTL, OP_YIELD, OP_UMASK, OP_SYNC,
    OP_LINKFD, OP_GETRANDOM, OP_ALLOCFAIL, OP_GETENV, OP_HANG
};
#define PASSTHROUGH (-9999)

struct req { uint32_t op; uint32_t len; int64_t a[5]; };
struct res { int64_t ret; int32_t err; uint32_t len; int64_t now; };
#define WAIT_MARK (-(1ll << 60))      /* minus a delay: nothing to be had before */

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
#define RAW(n, a, b, c) raw6((n), (long)(a), (long)(b), (long)(c), 0, 0, 0)
static long ret_errno(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }

static int sock = -1;
static int devnull = -1;
static int lock_word;
#define MAXFD 1024
static int handles[MAXFD];            /* virtual handle + 1, 0 = a real descriptor */

static void lock(void) {
    while (__atomic_exchange_n(&lock_word, 1, __ATOMIC_ACQUIRE)) RAW(SYS_sched_yield, 0, 0, 0);
}
static void unlock(void) { __atomic_store_n(&lock_word, 0, __ATOMIC_RELEASE); }

static void die(void) { for (;;) RAW(SYS_exit_group, 97, 0, 0); }
static void send_all(const void *p, size_t n) {
    const char *c = p;
    while (n) {
        long r = raw6(SYS_sendto, sock, (long)c, (long)n, 0x4000 /* MSG_NOSIGNAL */, 0, 0);
        if (r == -EINTR) continue;
        if (r <= 0) die();
        c += r; n -= (size_t)r;
    }
}
static void recv_all(void *p, size_t n) {
    char *c = p;
    while (n) {
        long r = raw6(SYS_recvfrom, sock, (long)c, (long)n, 0, 0, 0);
        if (r == -EINTR) continue;
        if (r <= 0) die();
        c += r; n -= (size_t)r;
    }
}

static int64_t sim_now;               /* the simulator's clock */
static int threads = 1;               /* alive */
static void point(void);

/* one request: payload is d1 followed by d2; the answer's data goes to out (at most outlen) */
static int64_t rpc_full(uint32_t op, int64_t a0, int64_t a1, int64_t a2, int64_t a3, int64_t a4,
                        const void *d1, size_t l1, const void *d2, size_t l2, void *out,
                        size_t outlen, size_t *got) {
    struct req q = {op, (uint32_t)(l1 + l2), {a0, a1, a2, a3, a4}};
    struct res s;
    if (threads > 1 && op != OP_YIELD && op != OP_ALLOCFAIL && op != OP_GETENV && op != OP_SLEEP && op != OP_HANG) point();
    lock();
    /* small requests are sent in one piece */
    char buf[1024];
    if (sizeof q + l1 + l2 <= sizeof buf) {
        memcpy(buf, &q, sizeof q);
        if (l1) memcpy(buf + sizeof q, d1, l1);
        if (l2) memcpy(buf + sizeof q + l1, d2, l2);
        send_all(buf, sizeof q + l1 + l2);
    } else {
        send_all(&q, sizeof q);
        if (l1) send_all(d1, l1);
        if (l2) send_all(d2, l2);
    }
    recv_all(&s, sizeof s);
    if (s.len > outlen) die();
    if (s.len) recv_all(out, s.len);
    sim_now = s.now;
    unlock();
    if (got) *got = s.len;
    if (s.ret == -1) errno = s.err;
    return s.ret;
}
static int64_t rpc(uint32_t op, int64_t a0, int64_t a1, int64_t a2) {
    return rpc_full(op, a0, a1, a2, 0, 0, NULL, 0, NULL, 0, NULL, 0, NULL);
}
static int64_t rpc_path(uint32_t op, const char *p, int64_t a0, int64_t a1, int64_t a2) {
    return rpc_full(op, a0, a1, a2, 0, 0, p, strlen(p) + 1, NULL, 0, NULL, 0, NULL);
}
static int64_t rpc_path2(uint32_t op, const char *p, const char *q, int64_t a0, int64_t a1, int64_t a2) {
    return rpc_full(op, a0, a1, a2, 0, 0, p, strlen(p) + 1, q, strlen(q) + 1, NULL, 0, NULL);
}

static int vh(int fd) {
    if (fd < 0 || fd >= MAXFD || sock < 0 || !handles[fd]) return -1;
    return handles[fd] - 1;
}
static int new_fd(int64_t h) {
    long fd = RAW(SYS_fcntl, devnull, F_DUPFD, 100);
    if (fd < 0 || fd >= MAXFD) die();
    handles[fd] = (int)h + 1;
    return (int)fd;
}
/* a directory descriptor argument as a virtual handle, -100 for the working directory */
static int64_t dirh(int dirfd) {
    if (dirfd == AT_FDCWD) return -100;
    int h = vh(dirfd);
    return h >= 0 ? h : -101;
}

/* ---- what the simulator told us in the first answer ---- */
struct hello {
    int64_t pid;
    int64_t realtime_ns, monotonic_ns;
    int64_t clock_step_ns;        /* every reading advances the clock by this much */
    int64_t jump_every, jump_ns;  /* every n-th reading the wall clock jumps */
    uint64_t random_seed;
    int64_t alloc_fail_at;        /* 1-based index of the allocation that fails, 0 = none */
    int64_t alloc_fail_forever;
    int64_t alloc_pad;            /* unused bytes allocated first, shifts the heap */
    int64_t tty;                  /* bit n: descriptor n is a terminal */
    int64_t columns;              /* ... this wide */
    int64_t env_rpc;              /* ask the simulator for environment variables */
    int64_t uid, cpus;
};
static struct hello hi;
static uint64_t clock_reads, rng_state, allocs;
static int in_main;

/* ---- environment: variables that are not set may be, if the simulator says so ---- */
extern char **environ;
static char *real_getenv(const char *n) {
    size_t l = strlen(n);
    for (char **e = environ; e && *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
    return NULL;
}
PUB char *getenv(const char *n) {
    static struct { char name[48], val[208]; } made[64];
    static int nmade;
    char *v = real_getenv(n);
    /* those of the Rust runtime are not the program's: with a backtrace it deadlocks when memory runs out */
    if (v || sock < 0 || !hi.env_rpc || strlen(n) > 47 || !strncmp(n, "RUST_", 5)) return v;
    for (int i = 0; i < nmade; i++) if (!strcmp(made[i].name, n)) return made[i].val;
    if (nmade == 64) return NULL;
    int e = errno;
    size_t got = 0;
    char val[208];
    int64_t r = rpc_full(OP_GETENV, 0, 0, 0, 0, 0, n, strlen(n) + 1, NULL, 0, val, sizeof val - 1, &got);
    errno = e;
    if (r != 1) return NULL;
    strcpy(made[nmade].name, n);
    memcpy(made[nmade].val, val, got);
    made[nmade].val[got] = 0;
    return made[nmade++].val;
}
PUB char *secure_getenv(const char *n) { return getenv(n); }

static void *keep_pad;
static int ctor_done;
extern void *__libc_malloc(size_t);
__attribute__((constructor)) static void init(void) {
    const char *e = real_getenv("MDSIM_SOCK");
    if (!e) return;
    sock = atoi(e);
    unsetenv("MDSIM_SOCK");
    const char *pl = real_getenv("MDSIM_REAL_PRELOAD");
    if (pl) { setenv("LD_PRELOAD", pl, 1); unsetenv("MDSIM_REAL_PRELOAD"); } else unsetenv("LD_PRELOAD");
    long fd = RAW(SYS_fcntl, sock, F_DUPFD_CLOEXEC, 900);
    RAW(SYS_close, sock, 0, 0);
    sock = (int)fd;
    fd = RAW(SYS_open, "/dev/null", O_RDWR, 0);
    devnull = (int)RAW(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 901);
    RAW(SYS_close, fd, 0, 0);
    handles[0] = 1; handles[1] = 2; handles[2] = 3;
    if (rpc_full(OP_HELLO, 0, 0, 0, 0, 0, NULL, 0, NULL, 0, &hi, sizeof hi, NULL) < 0) die();
    rng_state = hi.random_seed;
    if (hi.alloc_pad) keep_pad = __libc_malloc((size_t)hi.alloc_pad);
    in_main = 1;
    ctor_done = 1;
}

/* ---- files ---- */
static int do_open(int64_t dir, const char *path, int flags, mode_t mode) {
    if (sock < 0) return (int)ret_errno(raw6(SYS_openat, AT_FDCWD, (long)path, flags, mode, 0, 0));
    int64_t r = rpc_path(OP_OPEN, path, flags, mode, dir);
    if (r == PASSTHROUGH) return (int)ret_errno(raw6(SYS_openat, AT_FDCWD, (long)path, flags, mode, 0, 0));
    if (r < 0) return -1;
    return new_fd(r);
}
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
PUB int open(const char *p, int flags, ...) { GETMODE; return do_open(-100, p, flags, mode); }
PUB int open64(const char *p, int flags, ...) { GETMODE; return do_open(-100, p, flags, mode); }
PUB int openat(int d, const char *p, int flags, ...) { GETMODE; return do_open(dirh(d), p, flags, mode); }
PUB int openat64(int d, const char *p, int flags, ...) { GETMODE; return do_open(dirh(d), p, flags, mode); }
PUB int creat(const char *p, mode_t m) { return do_open(-100, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
PUB int creat64(const char *p, mode_t m) { return do_open(-100, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

PUB int close(int fd) {
    int h = vh(fd);
    if (h < 0) return (int)ret_errno(RAW(SYS_close, fd, 0, 0));
    int64_t r = rpc(OP_CLOSE, h, 0, 0);
    int e = errno;
    handles[fd] = 0;
    RAW(SYS_close, fd, 0, 0);
    errno = e;
    return (int)r;
}
static void pause_for(int64_t ns);
static ssize_t do_read(int fd, void *buf, size_t n, int64_t off) {
    int h = vh(fd);
    if (n > 0x7ffff000) n = 0x7ffff000;
    size_t got = 0;
    for (int again = 0;; again = 1) {
        int64_t r = rpc_full(OP_READ, h, (int64_t)n, off, threads > 1, again, NULL, 0, NULL, 0, buf, n, &got);
        if (r > WAIT_MARK) return (ssize_t)r;
        pause_for(WAIT_MARK - r);
    }
}
static ssize_t do_write(int fd, const void *buf, size_t n, int64_t off) {
    int h = vh(fd);
    if (n > (64u << 20)) n = 64u << 20;
    return (ssize_t)rpc_full(OP_WRITE, h, (int64_t)n, off, 0, 0, buf, n, NULL, 0, NULL, 0, NULL);
}
PUB ssize_t read(int fd, void *b, size_t n) {
    if (vh(fd) < 0) return ret_errno(RAW(SYS_read, fd, b, n));
    return do_read(fd, b, n, -1);
}
PUB ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    if (vh(fd) < 0) return ret_errno(raw6(SYS_pread64, fd, (long)b, (long)n, o, 0, 0));
    return do_read(fd, b, n, o);
}
PUB ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
PUB ssize_t readv(int fd, const struct iovec *v, int c) {
    if (vh(fd) < 0) return ret_errno(RAW(SYS_readv, fd, v, c));
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, -1);
    return 0;
}
PUB ssize_t write(int fd, const void *b, size_t n) {
    if (vh(fd) < 0) return ret_errno(RAW(SYS_write, fd, b, n));
    return do_write(fd, b, n, -1);
}
PUB ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    if (vh(fd) < 0) return ret_errno(raw6(SYS_pwrite64, fd, (long)b, (long)n, o, 0, 0));
    return do_write(fd, b, n, o);
}
PUB ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
PUB ssize_t writev(int fd, const struct iovec *v, int c) {
    if (vh(fd) < 0) return ret_errno(RAW(SYS_writev, fd, v, c));
    size_t total = 0;
    for (int i = 0; i < c; i++) total += v[i].iov_len;
    if (total > (64u << 20)) total = 64u << 20;
    char stackbuf[4096];
    char *buf = total <= sizeof stackbuf ? stackbuf
        : (char *)raw6(SYS_mmap, 0, (long)total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    size_t k = 0;
    for (int i = 0; i < c && k < total; i++) {
        size_t l = v[i].iov_len; if (l > total - k) l = total - k;
        memcpy(buf + k, v[i].iov_base, l); k += l;
    }
    ssize_t r = do_write(fd, buf, total, -1);
    int e = errno;
    if (buf != stackbuf) RAW(SYS_munmap, buf, total, 0);
    errno = e;
    return r;
}
PUB off64_t lseek64(int fd, off64_t o, int w) {
    int h = vh(fd);
    if (h < 0) return ret_errno(RAW(SYS_lseek, fd, o, w));
    return rpc(OP_LSEEK, h, o, w);
}
PUB off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
PUB int fsync(int fd) { int h = vh(fd); return h < 0 ? (int)ret_errno(RAW(SYS_fsync, fd, 0, 0)) : (int)rpc(OP_FSYNC, h, 0, 0); }
PUB int fdatasync(int fd) { int h = vh(fd); return h < 0 ? (int)ret_errno(RAW(SYS_fdatasync, fd, 0, 0)) : (int)rpc(OP_FSYNC, h, 1, 0); }
PUB int syncfs(int fd) { (void)fd; return (int)rpc(OP_SYNC, 0, 0, 0); }
PUB void sync(void) { if (sock >= 0) rpc(OP_SYNC, 0, 0, 0); }
PUB int sync_file_range(int fd, off64_t a, off64_t b, unsigned f) { (void)a; (void)b; (void)f; (void)fd; return 0; }
PUB int ftruncate64(int fd, off64_t n) { int h = vh(fd); return h < 0 ? (int)ret_errno(RAW(SYS_ftruncate, fd, n, 0)) : (int)rpc(OP_FTRUNCATE, h, n, 0); }
PUB int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
PUB int truncate64(const char *p, off64_t n) { return (int)rpc_path(OP_TRUNCATE, p, n, 0, 0); }
PUB int truncate(const char *p, off_t n) { return truncate64(p, n); }
PUB int fallocate64(int fd, int m, off64_t o, off64_t l) { (void)fd; (void)m; (void)o; (void)l; errno = EOPNOTSUPP; return -1; }
PUB int fallocate(int fd, int m, off_t o, off_t l) { return fallocate64(fd, m, o, l); }
PUB int posix_fallocate(int fd, off_t o, off_t l) { (void)fd; (void)o; (void)l; return EOPNOTSUPP; }
PUB int posix_fadvise(int fd, off_t o, off_t l, int a) { (void)fd; (void)o; (void)l; (void)a; return 0; }
PUB int posix_fadvise64(int fd, off64_t o, off64_t l, int a) { (void)fd; (void)o; (void)l; (void)a; return 0; }

/* stat family: the answer is 8 numbers: dev ino mode nlink uid gid size mtime_ns */
static void fill(struct stat *st, const int64_t *v) {
    memset(st, 0, sizeof *st);
    st->st_dev = (dev_t)v[0]; st->st_ino = (ino_t)v[1]; st->st_mode = (mode_t)v[2];
    st->st_nlink = (nlink_t)v[3]; st->st_uid = (uid_t)v[4]; st->st_gid = (gid_t)v[5];
    st->st_size = v[6]; st->st_blksize = 4096; st->st_blocks = (v[6] + 511) / 512;
    st->st_mtim.tv_sec = v[7] / 1000000000; st->st_mtim.tv_nsec = v[7] % 1000000000;
    st->st_atim = st->st_ctim = st->st_mtim;
}
static int64_t stat_rpc(int64_t dir, const char *p, int nofollow, int64_t *v) {
    return rpc_full(OP_STAT, nofollow, dir, 0, 0, 0, p, strlen(p) + 1, NULL, 0, v, 64, NULL);
}
static int64_t fstat_rpc(int h, int64_t *v) {
    return rpc_full(OP_FSTAT, h, 0, 0, 0, 0, NULL, 0, NULL, 0, v, 64, NULL);
}
static int do_stat(int dirfd, const char *p, int flags, struct stat *st) {
    int64_t v[8];
    int64_t r;
    if (sock < 0) return (int)ret_errno(raw6(SYS_newfstatat, dirfd, (long)p, (long)st, flags, 0, 0));
    if ((flags & AT_EMPTY_PATH) && !*p) {
        int h = vh(dirfd);
        if (h < 0) return (int)ret_errno(raw6(SYS_newfstatat, dirfd, (long)p, (long)st, flags, 0, 0));
        r = fstat_rpc(h, v);
    } else r = stat_rpc(dirh(dirfd), p, !!(flags & AT_SYMLINK_NOFOLLOW), v);
    if (r == PASSTHROUGH) return (int)ret_errno(raw6(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, flags, 0, 0));
    if (r < 0) return -1;
    fill(st, v);
    return 0;
}
PUB int stat(const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, 0, s); }
PUB int stat64(const char *p, struct stat64 *s) { return do_stat(AT_FDCWD, p, 0, (struct stat *)s); }
PUB int lstat(const char *p, struct stat *s) { return do_stat(AT_FDCWD, p, AT_SYMLINK_NOFOLLOW, s); }
PUB int lstat64(const char *p, struct stat64 *s) { return do_stat(AT_FDCWD, p, AT_SYMLINK_NOFOLLOW, (struct stat *)s); }
PUB int fstat(int fd, struct stat *s) { return do_stat(fd, "", AT_EMPTY_PATH, s); }
PUB int fstat64(int fd, struct stat64 *s) { return do_stat(fd, "", AT_EMPTY_PATH, (struct stat *)s); }
PUB int fstatat(int d, const char *p, struct stat *s, int f) { return do_stat(d, p, f, s); }
PUB int fstatat64(int d, const char *p, struct stat64 *s, int f) { return do_stat(d, p, f, (struct stat *)s); }
PUB int statx(int dirfd, const char *p, int flags, unsigned mask, struct statx *x) {
    struct stat st;
    const void *volatile np = p; /* declared nonnull, but std probes for statx with null pointers */
    const void *volatile nx = x;
    if (!np || !nx) { errno = EFAULT; return -1; }
    if (do_stat(dirfd, p, flags & (AT_EMPTY_PATH | AT_SYMLINK_NOFOLLOW), &st) < 0) return -1;
    (void)mask;
    memset(x, 0, sizeof *x);
    x->stx_mask = STATX_BASIC_STATS; x->stx_blksize = 4096; x->stx_nlink = (uint32_t)st.st_nlink;
    x->stx_uid = st.st_uid; x->stx_gid = st.st_gid; x->stx_mode = (uint16_t)st.st_mode;
    x->stx_ino = st.st_ino; x->stx_size = (uint64_t)st.st_size; x->stx_blocks = (uint64_t)st.st_blocks;
    x->stx_mtime.tv_sec = st.st_mtim.tv_sec; x->stx_mtime.tv_nsec = (uint32_t)st.st_mtim.tv_nsec;
    x->stx_atime = x->stx_ctime = x->stx_mtime;
    x->stx_dev_minor = (uint32_t)st.st_dev;
    return 0;
}
PUB int statfs64(const char *p, struct statfs64 *s) { (void)p; memset(s, 0, sizeof *s); errno = ENOSYS; return -1; }
PUB int fstatfs64(int fd, struct statfs64 *s) { (void)fd; memset(s, 0, sizeof *s); errno = ENOSYS; return -1; }
PUB int statvfs64(const char *p, struct statvfs64 *s) { (void)p; memset(s, 0, sizeof *s); errno = ENOSYS; return -1; }

PUB int chmod(const char *p, mode_t m) { return (int)rpc_path(OP_CHMOD, p, m, -100, 0); }
PUB int fchmodat(int d, const char *p, mode_t m, int f) { (void)f; return (int)rpc_path(OP_CHMOD, p, m, dirh(d), 0); }
PUB int fchmod(int fd, mode_t m) { int h = vh(fd); if (h < 0) { errno = EPERM; return -1; } return (int)rpc(OP_FCHMOD, h, m, 0); }
PUB int chown(const char *p, uid_t u, gid_t g) { return (int)rpc_path(OP_CHOWN, p, (int)u, (int)g, -100); }
PUB int lchown(const char *p, uid_t u, gid_t g) { return (int)rpc_path(OP_CHOWN, p, (int)u, (int)g, -100); }
PUB int fchownat(int d, const char *p, uid_t u, gid_t g, int f) { (void)f; return (int)rpc_path(OP_CHOWN, p, (int)u, (int)g, dirh(d)); }
PUB int fchown(int fd, uid_t u, gid_t g) { int h = vh(fd); if (h < 0) { errno = EPERM; return -1; } return (int)rpc(OP_FCHOWN, h, (int)u, (int)g); }
PUB int rename(const char *p, const char *q) { return (int)rpc_path2(OP_RENAME, p, q, -100, -100, 0); }
PUB int renameat(int a, const char *p, int b, const char *q) { return (int)rpc_path2(OP_RENAME, p, q, dirh(a), dirh(b), 0); }
PUB int renameat2(int a, const char *p, int b, const char *q, unsigned f) { return (int)rpc_path2(OP_RENAME, p, q, dirh(a), dirh(b), f); }
PUB int link(const char *p, const char *q) { return (int)rpc_path2(OP_LINK, p, q, -100, -100, 0); }
PUB int linkat(int a, const char *p, int b, const char *q, int f) {
    if ((f & AT_EMPTY_PATH) && !*p) { int h = vh(a); return (int)rpc_path(OP_LINKFD, q, h, dirh(b), 0); }
    if (!strncmp(p, "/proc/self/fd/", 14)) { int h = vh(atoi(p + 14)); if (h >= 0) return (int)rpc_path(OP_LINKFD, q, h, dirh(b), 0); }
    return (int)rpc_path2(OP_LINK, p, q, dirh(a), dirh(b), f);
}
PUB int symlink(const char *p, const char *q) { return (int)rpc_path2(OP_SYMLINK, p, q, -100, 0, 0); }
PUB int symlinkat(const char *p, int d, const char *q) { return (int)rpc_path2(OP_SYMLINK, p, q, dirh(d), 0, 0); }
PUB int unlink(const char *p) { return (int)rpc_path(OP_UNLINK, p, 0, -100, 0); }
PUB int unlinkat(int d, const char *p, int f) { return (int)rpc_path(OP_UNLINK, p, !!(f & AT_REMOVEDIR), dirh(d), 0); }
PUB int rmdir(const char *p) { return (int)rpc_path(OP_UNLINK, p, 1, -100, 0); }
PUB int remove(const char *p) { return (int)rpc_path(OP_UNLINK, p, 0, -100, 0); }
PUB int mkdir(const char *p, mode_t m) { return (int)rpc_path(OP_MKDIR, p, m, -100, 0); }
PUB int mkdirat(int d, const char *p, mode_t m) { return (int)rpc_path(OP_MKDIR, p, m, dirh(d), 0); }
PUB int mknod(const char *p, mode_t m, dev_t d) { (void)p; (void)m; (void)d; errno = EPERM; return -1; }
PUB int mkfifo(const char *p, mode_t m) { (void)p; (void)m; errno = EPERM; return -1; }
PUB mode_t umask(mode_t m) { return sock < 0 ? (mode_t)RAW(SYS_umask, m, 0, 0) : (mode_t)rpc(OP_UMASK, m, 0, 0); }
static ssize_t do_readlink(int64_t d, const char *p, char *buf, size_t n) {
    if (sock < 0) return ret_errno(RAW(SYS_readlink, p, buf, n));
    char tmp[PATH_MAX];
    size_t got = 0;
    int64_t r = rpc_full(OP_READLINK, d, 0, 0, 0, 0, p, strlen(p) + 1, NULL, 0, tmp, sizeof tmp, &got);
    if (r == PASSTHROUGH) return ret_errno(RAW(SYS_readlink, p, buf, n));
    if (r < 0) return -1;
    if (got > n) got = n;
    memcpy(buf, tmp, got);
    return (ssize_t)got;
}
PUB ssize_t readlink(const char *p, char *b, size_t n) { return do_readlink(-100, p, b, n); }
PUB ssize_t readlinkat(int d, const char *p, char *b, size_t n) { return do_readlink(dirh(d), p, b, n); }
PUB char *realpath(const char *p, char *out) {
    char tmp[PATH_MAX];
    size_t got = 0;
    if (!p) { errno = EINVAL; return NULL; }
    int64_t r = rpc_full(OP_REALPATH, 0, 0, 0, 0, 0, p, strlen(p) + 1, NULL, 0, tmp, sizeof tmp - 1, &got);
    if (r == PASSTHROUGH) { got = strlen(p); memcpy(tmp, p, got); }
    else if (r < 0) return NULL;
    tmp[got] = 0;
    if (!out) { out = malloc(got + 1); if (!out) return NULL; }
    memcpy(out, tmp, got + 1);
    return out;
}
PUB char *__realpath_chk(const char *p, char *out, size_t n) { (void)n; return realpath(p, out); }
PUB char *canonicalize_file_name(const char *p) { return realpath(p, NULL); }
PUB char *getcwd(char *buf, size_t n) {
    char tmp[PATH_MAX];
    size_t got = 0;
    if (sock < 0) { long r = RAW(SYS_getcwd, buf, n, 0); return r < 0 ? NULL : buf; }
    if (rpc_full(OP_GETCWD, 0, 0, 0, 0, 0, NULL, 0, NULL, 0, tmp, sizeof tmp - 1, &got) < 0) return NULL;
    tmp[got] = 0;
    if (!buf) { if (!n) n = got + 1; buf = malloc(n); if (!buf) return NULL; }
    if (got + 1 > n) { errno = ERANGE; return NULL; }
    memcpy(buf, tmp, got + 1);
    return buf;
}
PUB int chdir(const char *p) { return (int)rpc_path(OP_CHDIR, p, 0, 0, 0); }
PUB int access(const char *p, int m) { return faccessat(AT_FDCWD, p, m, 0); }
PUB int faccessat(int d, const char *p, int m, int f) {
    if (sock < 0) return (int)ret_errno(RAW(SYS_faccessat, d, p, m));
    (void)f;
    int64_t r = rpc_path(OP_ACCESS, p, m, dirh(d), 0);
    if (r == PASSTHROUGH) return (int)ret_errno(RAW(SYS_faccessat, AT_FDCWD, p, m));
    return (int)r;
}
static int64_t mtime_of(const struct timespec *t) {
    if (!t || t[1].tv_nsec == UTIME_NOW) return INT64_MIN;
    if (t[1].tv_nsec == UTIME_OMIT) return INT64_MIN + 1;
    return (int64_t)t[1].tv_sec * 1000000000 + t[1].tv_nsec;
}
PUB int futimens(int fd, const struct timespec *t) {
    int h = vh(fd);
    if (h < 0) return (int)ret_errno(RAW(SYS_utimensat, fd, NULL, t));
    return (int)rpc_path(OP_UTIME, "", h, mtime_of(t), 2);
}
PUB int utimensat(int d, const char *p, const struct timespec *t, int f) {
    if (!p) return futimens(d, t);
    return (int)rpc_path(OP_UTIME, p, dirh(d), mtime_of(t), f & AT_SYMLINK_NOFOLLOW ? 1 : 0);
}

static int dup_to(int fd, int min) {
    int h = vh(fd);
    (void)min;
    int64_t r = rpc(OP_DUP, h, 0, 0);
    if (r < 0) return -1;
    return new_fd(r);
}
PUB int dup(int fd) { return vh(fd) < 0 ? (int)ret_errno(RAW(SYS_dup, fd, 0, 0)) : dup_to(fd, 0); }
PUB int dup2(int fd, int to) {
    int h = vh(fd);
    if (h < 0) return (int)ret_errno(RAW(SYS_dup2, fd, to, 0));
    if (fd == to) return to;
    int64_t r = rpc(OP_DUP, h, 0, 0);
    if (r < 0) return -1;
    if (vh(to) >= 0) rpc(OP_CLOSE, vh(to), 0, 0);
    RAW(SYS_dup2, devnull, to, 0);
    handles[to] = (int)r + 1;
    return to;
}
PUB int dup3(int fd, int to, int f) { (void)f; return dup2(fd, to); }
static int do_fcntl(int fd, int cmd, long arg) {
    int h = vh(fd);
    if (h < 0) return (int)ret_errno(RAW(SYS_fcntl, fd, cmd, arg));
    switch (cmd) {
    case F_DUPFD: case F_DUPFD_CLOEXEC: return dup_to(fd, (int)arg);
    case F_GETFD: return FD_CLOEXEC;
    case F_SETFD: return 0;
    default: return (int)rpc(OP_FCNTL, h, cmd, cmd == F_SETFL ? arg : 0);
    }
}
PUB int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
PUB int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
PUB int flock(int fd, int op) {
    int h = vh(fd);
    if (h < 0) return (int)ret_errno(RAW(SYS_flock, fd, op, 0));
    while (threads > 1 && !(op & (LOCK_NB | LOCK_UN))) {
        /* it is only this thread that waits */
        int r = (int)rpc(OP_FLOCK, h, op | LOCK_NB, 0);
        if (r == 0 || errno != EWOULDBLOCK) return r;
        pause_for(1000000);
    }
    return (int)rpc(OP_FLOCK, h, op, 0);
}
static int is_tty(int fd) {
    int h = vh(fd);
    return h >= 0 && h <= 2 && (hi.tty >> h & 1);
}
PUB int ioctl(int fd, unsigned long rq, ...) {
    va_list ap; va_start(ap, rq); long a = va_arg(ap, long); va_end(ap);
    if (vh(fd) >= 0) {
        if (!is_tty(fd)) { errno = ENOTTY; return -1; }
        if (rq == TIOCGWINSZ) {
            struct winsize *w = (struct winsize *)a;
            memset(w, 0, sizeof *w);
            w->ws_col = (unsigned short)hi.columns; w->ws_row = 24;
        } else if (rq == TCGETS) memset((void *)a, 0, 36);
        return 0;
    }
    return (int)ret_errno(RAW(SYS_ioctl, fd, rq, a));
}
PUB int isatty(int fd) { if (is_tty(fd)) return 1; errno = ENOTTY; return 0; }
PUB int tcgetattr(int fd, struct termios *t) { if (!is_tty(fd)) { errno = ENOTTY; return -1; } memset(t, 0, sizeof *t); return 0; }

/* nothing outside the simulated machine: no other programs, no network */
PUB pid_t fork(void) { errno = EAGAIN; return -1; }
PUB pid_t vfork(void) { errno = EAGAIN; return -1; }
PUB int posix_spawn(pid_t *p, const char *f, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *b, char *const c[], char *const d[]) { (void)p; (void)f; (void)a; (void)b; (void)c; (void)d; return ENOENT; }
PUB int posix_spawnp(pid_t *p, const char *f, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *b, char *const c[], char *const d[]) { (void)p; (void)f; (void)a; (void)b; (void)c; (void)d; return ENOENT; }
PUB int execve(const char *p, char *const a[], char *const e[]) { (void)p; (void)a; (void)e; errno = ENOENT; return -1; }
PUB int execv(const char *p, char *const a[]) { (void)p; (void)a; errno = ENOENT; return -1; }
PUB int execvp(const char *p, char *const a[]) { (void)p; (void)a; errno = ENOENT; return -1; }
PUB int system(const char *c) { (void)c; errno = EAGAIN; return -1; }
PUB int socket(int a, int b, int c) { (void)a; (void)b; (void)c; errno = EACCES; return -1; }
PUB int socketpair(int a, int b, int c, int *v) { (void)a; (void)b; (void)c; (void)v; errno = EACCES; return -1; }

/* no kernel-side copying: callers fall back to read and write, which are simulated */
PUB ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; errno = ENOSYS; return -1; }
PUB ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { (void)a; (void)b; (void)c; (void)d; errno = ENOSYS; return -1; }
PUB ssize_t sendfile(int a, int b, off_t *c, size_t d) { (void)a; (void)b; (void)c; (void)d; errno = ENOSYS; return -1; }
PUB ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; errno = EINVAL; return -1; }

/* directories */
struct vdir { uint32_t magic; int fd; int h; uint64_t pos; struct dirent64 ent; };
static DIR *mkdirp(int fd) {
    struct vdir *d = calloc(1, sizeof *d);
    if (!d) return NULL;
    d->magic = 0x4d445349; d->fd = fd; d->h = vh(fd);
    return (DIR *)d;
}
PUB DIR *opendir(const char *p) {
    int fd = do_open(-100, p, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0);
    if (fd < 0) return NULL;
    if (vh(fd) < 0) { RAW(SYS_close, fd, 0, 0); errno = EACCES; return NULL; }
    return mkdirp(fd);
}
PUB DIR *fdopendir(int fd) { if (vh(fd) < 0) { errno = EACCES; return NULL; } return mkdirp(fd); }
PUB int closedir(DIR *dp) { struct vdir *d = (struct vdir *)dp; int r = close(d->fd); free(d); return r; }
PUB int dirfd(DIR *dp) { return ((struct vdir *)dp)->fd; }
PUB struct dirent64 *readdir64(DIR *dp) {
    struct vdir *d = (struct vdir *)dp;
    size_t got = 0;
    char name[256];
    int64_t r = rpc_full(OP_READDIR, d->h, (int64_t)d->pos, 0, 0, 0, NULL, 0, NULL, 0, name, sizeof name - 1, &got);
    if (r <= 0) { if (r == 0) {} return NULL; }
    d->pos++;
    memset(&d->ent, 0, sizeof d->ent);
    d->ent.d_ino = (uint64_t)(r >> 8); d->ent.d_type = (unsigned char)(r & 0xff);
    d->ent.d_off = (off64_t)d->pos; d->ent.d_reclen = sizeof d->ent;
    memcpy(d->ent.d_name, name, got);
    return &d->ent;
}
PUB struct dirent *readdir(DIR *dp) { return (struct dirent *)readdir64(dp); }

/* ---- clock, randomness, identity ---- */
static int64_t mono(void) { return 1000000000 + sim_now + (int64_t)clock_reads * hi.clock_step_ns; }
static void look(void);
static void vclock(clockid_t id, struct timespec *t) {
    uint64_t k = __atomic_add_fetch(&clock_reads, 1, __ATOMIC_RELAXED);
    if (threads > 1) look();
    int64_t ns = mono();
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
        ns += hi.realtime_ns - hi.monotonic_ns;
        if (hi.jump_every) ns += (int64_t)(k / (uint64_t)hi.jump_every) * hi.jump_ns;
    }
    int64_t s = ns / 1000000000, n = ns % 1000000000;
    if (n < 0) { n += 1000000000; s--; }
    t->tv_sec = s; t->tv_nsec = n;
}
PUB int clock_gettime(clockid_t id, struct timespec *t) {
    if (sock < 0) return (int)ret_errno(RAW(SYS_clock_gettime, id, t, 0));
    vclock(id, t);
    return 0;
}
PUB int gettimeofday(struct timeval *tv, void *tz) { (void)tz; struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
PUB time_t time(time_t *p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
static int64_t nanos(const struct timespec *t) {
    return t->tv_sec > 1000000000 ? 1000000000ll * 1000000000 : (int64_t)t->tv_sec * 1000000000 + t->tv_nsec;
}
static int vsleep(int64_t ns) {
    if (ns < 0) ns = 0;
    if (threads > 1) { pause_for(ns); return 0; }
    return (int)rpc(OP_SLEEP, ns, 0, 0);
}
PUB int nanosleep(const struct timespec *t, struct timespec *rem) { if (rem) { rem->tv_sec = 0; rem->tv_nsec = 0; } return vsleep(nanos(t)) < 0 ? -1 : 0; }
PUB int clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *rem) {
    int64_t ns = nanos(t);
    if (f & TIMER_ABSTIME) {
        ns -= mono();
        if (c == CLOCK_REALTIME) ns -= hi.realtime_ns - hi.monotonic_ns;
    } else if (rem) { rem->tv_sec = 0; rem->tv_nsec = 0; }
    int e = errno;
    if (vsleep(ns) >= 0) return 0;
    int r = errno;
    errno = e;
    return r;
}
PUB int usleep(useconds_t u) { struct timespec t = {u / 1000000, (u % 1000000) * 1000}; return nanosleep(&t, NULL); }
PUB unsigned sleep(unsigned s) { struct timespec t = {s, 0}; nanosleep(&t, NULL); return 0; }
static uint64_t rnd(void) {
    uint64_t z = (rng_state += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
PUB ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (sock < 0) return ret_errno(RAW(SYS_getrandom, b, n, f));
    unsigned char *c = b;
    for (size_t i = 0; i < n; i++) c[i] = (unsigned char)rnd();
    return (ssize_t)n;
}
PUB int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }
PUB pid_t getpid(void) { return sock < 0 ? (pid_t)RAW(SYS_getpid, 0, 0, 0) : (pid_t)hi.pid; }
PUB pid_t getppid(void) { return 1; }
static int cur;
PUB pid_t gettid(void) { return sock < 0 ? (pid_t)RAW(SYS_gettid, 0, 0, 0) : (pid_t)(hi.pid + cur); }
PUB uid_t getuid(void) { return sock < 0 ? (uid_t)RAW(SYS_getuid, 0, 0, 0) : (uid_t)hi.uid; }
PUB uid_t geteuid(void) { return getuid(); }
PUB gid_t getgid(void) { return getuid(); }
PUB gid_t getegid(void) { return getuid(); }
PUB int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) {
    if (sock < 0) { long r = ret_errno(RAW(SYS_sched_getaffinity, p, n, m)); return r < 0 ? -1 : 0; }
    memset(m, 0, n);
    for (int64_t i = 0; i < hi.cpus && i < (int64_t)n * 8; i++) ((unsigned char *)m)[i / 8] |= (unsigned char)(1 << (i % 8));
    return 0;
}
PUB long sysconf(int n) {
    static long (*real)(int);
    if (sock >= 0 && ctor_done && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return (long)hi.cpus;
    if (!real) real = dlsym(RTLD_NEXT, "sysconf");
    return real(n);
}

/* ---- threads: one at a time runs, and the simulator says which ---- */
#define MAXT 64
enum { T_FREE, T_RUN, T_FUTEX, T_SLEEP, T_JOIN, T_DONE };
static struct thr {
    int st, park, timed_out, detached, who;
    int *addr;
    unsigned bits;
    int64_t until;                    /* -1: for ever */
    pthread_t h;
    void *(*f)(void *);
    void *x;
} th[MAXT] = {{.st = T_RUN}};
static int cur;
static pthread_key_t end_key;

static void unpark(int t) {
    __atomic_store_n(&th[t].park, 1, __ATOMIC_SEQ_CST);
    RAW(SYS_futex, &th[t].park, 129, 1);
}
static void park(int t) {
    while (!__atomic_load_n(&th[t].park, __ATOMIC_SEQ_CST)) raw6(SYS_futex, (long)&th[t].park, 128, 0, 0, 0, 0);
    __atomic_store_n(&th[t].park, 0, __ATOMIC_SEQ_CST);
}
static void switch_to(int t) {
    int me = cur;
    if (t == me) return;
    int gone = th[me].st == T_DONE;
    cur = t;
    unpark(t);
    if (!gone) park(me);
}
/* who can go on, the current one first; then who waits with a time limit */
static int candidates(int *v, int *timed) {
    int64_t now = mono();
    int k = 0, m = 0, w[MAXT];
    for (int i = 0; i < MAXT; i++) {
        int t = (cur + i) % MAXT;
        struct thr *x = &th[t];
        if ((x->st == T_FUTEX || x->st == T_SLEEP) && x->until >= 0) {
            if (x->until <= now) { x->st = T_RUN; x->timed_out = 1; }
            else w[m++] = t;
        }
        if (x->st == T_RUN) v[k++] = t;
    }
    memcpy(v + k, w, (size_t)m * sizeof *w);
    *timed = m;
    return k;
}
static void due(int t) {
    int64_t d = th[t].until - mono();
    if (d > 0) rpc(OP_SLEEP, d, 1, 0);
    th[t].st = T_RUN;
    th[t].timed_out = 1;
}
static int choose(int k, int m) { return k + m > 1 ? (int)rpc(OP_YIELD, k, m, 0) : 0; }
/* another thread may get its turn */
static void point(void) {
    int v[MAXT], m, k = candidates(v, &m), e = errno;
    int i = choose(k, m);
    if (i >= k) due(v[i]);
    switch_to(v[i]);
    errno = e;
}
/* the current thread cannot go on */
static void next(void) {
    int v[MAXT], m, k = candidates(v, &m), i;
    if (k) i = choose(k, m);
    else {
        if (!m) { rpc(OP_HANG, 0, 0, 0); die(); }
        i = 0;
        for (int j = 1; j < m; j++) if (th[v[j]].until < th[v[i]].until) i = j;
    }
    if (i >= k) due(v[i]);
    switch_to(v[i]);
}
static void pause_for(int64_t ns) {
    th[cur].st = T_SLEEP;
    th[cur].until = mono() + ns;
    next();
}
PUB int sched_yield(void) {
    if (sock < 0 || threads < 2) return 0;
    int v[MAXT], m, k = candidates(v, &m);
    if (k < 2 && m) { int e = errno; pause_for(50000); errno = e; }
    else if (k > 1) switch_to(v[1 + choose(k - 1, 0)]);
    return 0;
}
/* who looks at the clock all the time waits for another thread */
static void look(void) {
    static int n, who;
    if (who != cur) { who = cur; n = 0; }
    if (++n > 100) { n = 0; sched_yield(); }
}
static void ended(void *p) {
    int t = (int)(long)p - 1;
    th[t].st = T_DONE;
    threads--;
    for (int i = 0; i < MAXT; i++) if (th[i].st == T_JOIN && th[i].who == t) th[i].st = T_RUN;
    if (th[t].detached) {
        /* the slot is free once the turn has been passed on */
        th[t].who = -2;
    }
    next();
}
static void *begin(void *p) {
    int t = (int)(long)p;
    park(t);
    pthread_setspecific(end_key, (void *)(long)(t + 1));
    return th[t].f(th[t].x);
}
PUB int pthread_create(pthread_t *h, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
    if (sock < 0) return real(h, a, f, x);
    if (!end_key) { pthread_key_create(&end_key, ended); if (!end_key) pthread_key_create(&end_key, ended); mallopt(M_ARENA_MAX, 1); }
    int t = 1, d = 0;
    while (t < MAXT && th[t].st != T_FREE && !(th[t].st == T_DONE && th[t].who == -2)) t++;
    if (t == MAXT) return EAGAIN;
    th[t] = (struct thr){.f = f, .x = x, .st = T_FREE};
    if (a) pthread_attr_getdetachstate(a, &d);
    th[t].detached = d == PTHREAD_CREATE_DETACHED;
    int r = real(&th[t].h, a, begin, (void *)(long)t);
    if (r) return r;
    *h = th[t].h;
    th[t].st = T_RUN;
    threads++;
    point();
    return 0;
}
static int slot(pthread_t h) {
    for (int t = 1; t < MAXT; t++)
        if (th[t].st != T_FREE && th[t].who != -2 && !th[t].detached && pthread_equal(th[t].h, h)) return t;
    return -1;
}
PUB int pthread_join(pthread_t h, void **out) {
    static int (*real)(pthread_t, void **);
    if (!real) real = dlsym(RTLD_NEXT, "pthread_join");
    int t = sock < 0 ? -1 : slot(h);
    if (t >= 0) {
        while (th[t].st != T_DONE) { th[cur].st = T_JOIN; th[cur].who = t; next(); }
    }
    int r = real(h, out);
    if (t >= 0) th[t].who = -2;
    return r;
}
PUB int pthread_detach(pthread_t h) {
    static int (*real)(pthread_t);
    if (!real) real = dlsym(RTLD_NEXT, "pthread_detach");
    int t = sock < 0 ? -1 : slot(h);
    if (t >= 0) { th[t].detached = 1; if (th[t].st == T_DONE) th[t].who = -2; }
    return real(h);
}
static long vfutex(int *word, int o, int val, const struct timespec *t, unsigned bits) {
    if (o == 1 || o == 10) {          /* wake */
        long n = 0;
        while (n < val) {
            int v[MAXT], k = 0;
            for (int i = 0; i < MAXT; i++)
                if (th[i].st == T_FUTEX && th[i].addr == word && (o == 1 || th[i].bits & bits)) v[k++] = i;
            if (!k) break;
            th[v[choose(k, 0)]].st = T_RUN;
            n++;
        }
        if (n) point();
        return n;
    }
    if (__atomic_load_n(word, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    struct thr *x = &th[cur];
    x->st = T_FUTEX; x->addr = word; x->bits = o == 9 ? bits : ~0u; x->timed_out = 0; x->until = -1;
    if (t) {
        x->until = nanos(t) + (o == 9 /* until a point in time */ ? 0 : mono());
        if (x->until < 0) x->until = 0;
    }
    next();
    if (x->timed_out) { errno = ETIMEDOUT; return -1; }
    return 0;
}

PUB long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long);
    long d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (sock >= 0) switch (n) {
    case SYS_futex:
        switch (b & 127) {
        case 0: case 1: case 9: case 10:
            return vfutex((int *)a, (int)(b & 127), (int)c, (const struct timespec *)d, (unsigned)f);
        }
        break;
    case SYS_gettid: return gettid();
    case SYS_getrandom: return getrandom((void *)a, (size_t)b, (unsigned)c);
    case SYS_statx: return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
    case SYS_getpid: return getpid();
    case SYS_renameat2: return renameat2((int)a, (const char *)b, (int)c, (const char *)d, (unsigned)e);
    case SYS_copy_file_range: case SYS_sendfile: case SYS_openat2: case SYS_fchmodat2: errno = ENOSYS; return -1;
    case SYS_open: return open((const char *)a, (int)b, (mode_t)c);
    case SYS_openat: return openat((int)a, (const char *)b, (int)c, (mode_t)d);
    case SYS_read: return read((int)a, (void *)b, (size_t)c);
    case SYS_write: return write((int)a, (void *)b, (size_t)c);
    case SYS_close: return close((int)a);
    }
    return ret_errno(raw6(n, a, b, c, d, e, f));
}

/* ---- memory ---- */
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static int fail_now(void) {
    if (!in_main || !hi.alloc_fail_at) return 0;
    int64_t k = (int64_t)__atomic_add_fetch(&allocs, 1, __ATOMIC_RELAXED);
    if (k == hi.alloc_fail_at || (hi.alloc_fail_forever && k > hi.alloc_fail_at)) {
        if (k == hi.alloc_fail_at) rpc(OP_ALLOCFAIL, k, 0, 0);
        errno = ENOMEM;
        return 1;
    }
    return 0;
}
PUB void *malloc(size_t n) { return fail_now() ? NULL : __libc_malloc(n); }
PUB void *calloc(size_t n, size_t m) { return fail_now() ? NULL : __libc_calloc(n, m); }
PUB void *realloc(void *p, size_t n) { return fail_now() ? NULL : __libc_realloc(p, n); }
PUB void *memalign(size_t a, size_t n) { return fail_now() ? NULL : __libc_memalign(a, n); }
PUB void *aligned_alloc(size_t a, size_t n) { return fail_now() ? NULL : __libc_memalign(a, n); }
PUB int posix_memalign(void **p, size_t a, size_t n) { if (fail_now()) return ENOMEM; void *q = __libc_memalign(a, n); if (!q) return ENOMEM; *p = q; return 0; }
PUB void free(void *p) { __libc_free(p); }
