/* Deterministic-simulation shim, LD_PRELOADed into the real, unmodified binaries built from /repo.
 *
 * Every libc entry point through which the programs reach the outside world (files, pipes, children,
 * clocks, randomness, memory placement) is redirected to the simulator over one SEQPACKET socket.
 * The process is blocked while the simulator decides, so the simulator's seeded scheduler decides every
 * interleaving and every fault.  The constructor is a fork server: one exec, then one fork per run.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))

/* ---------------------------------------------------------------- raw syscalls (never interposed) */
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
#define RAW(n, ...) RAWX(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAWX(n, a, b, c, d, e, f, ...) raw6(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

/* ---------------------------------------------------------------- state */
enum { MODE_OFF = 0, MODE_SIM = 1 };
static int mode = MODE_OFF;
static int sim_fd = -1;
static uint64_t rnd_state = 1;   /* what getrandom() hands out: seeds every HashMap of this process */
static uint64_t heap_state = 0;  /* decides where allocations land: seeds every address-ordered structure */
static int64_t alloc_left = -1;  /* allocation budget; -1 = unlimited */

static uint64_t sm64(uint64_t *s) {
  uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

/* ---------------------------------------------------------------- allocator */
#define ARENA_BASE ((char *)0x200000000000ull)
#define ARENA_SIZE (2ull << 30)
#define NCLASS 64
#define NSUB 4
struct hdr { uint64_t cls; uint64_t size; };
struct freen { struct freen *next; };
static char *arena_cur, *arena_end;
static struct { char *cur, *end; } slab[NCLASS][NSUB];
static struct freen *freel[NCLASS];

static int size_class(size_t n) {
  if (n <= 512) return (int)((n + 15) / 16);          /* 0..32 */
  int c = 33; size_t s = 1024;
  while (s < n) { s <<= 1; c++; }
  return c;                                            /* 33 => 1024 ... */
}
static size_t class_bytes(int c) { return c <= 32 ? (size_t)(c ? c : 1) * 16 : (size_t)1024 << (c - 33); }

static void arena_init(void) {
  if (arena_cur) return;
  long p = RAW(SYS_mmap, ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE,
               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p < 0 || (char *)p != ARENA_BASE) { RAW(SYS_exit_group, 97); }
  arena_cur = ARENA_BASE + 4096;
  arena_end = ARENA_BASE + ARENA_SIZE;
}
static char *arena_bump(size_t n) {
  n = (n + 15) & ~(size_t)15;
  if ((size_t)(arena_end - arena_cur) < n) return NULL;
  char *p = arena_cur;
  arena_cur += n;
  return p;
}
static void *my_malloc(size_t n) {
  arena_init();
  if (alloc_left >= 0) {
    if (alloc_left == 0) { errno = ENOMEM; return NULL; }
    alloc_left--;
  }
  if (n > (3ull << 30)) { errno = ENOMEM; return NULL; }
  int c = size_class(n);
  size_t bytes = class_bytes(c) + sizeof(struct hdr);
  uint64_t r = heap_state ? sm64(&heap_state) : 0;
  if (freel[c] && (!heap_state || (r & 3))) {
    struct freen *f = freel[c];
    freel[c] = f->next;
    struct hdr *h = (struct hdr *)f - 1;
    h->size = n;
    return f;
  }
  char *p;
  if (c > 36 || !heap_state) {
    p = arena_bump(bytes);
    if (!p) { errno = ENOMEM; return NULL; }
  } else {
    int s = (int)((r >> 8) % NSUB);
    if ((size_t)(slab[c][s].end - slab[c][s].cur) < bytes) {
      size_t want = bytes * 64;
      p = arena_bump(want);
      if (!p) { errno = ENOMEM; return NULL; }
      slab[c][s].cur = p;
      slab[c][s].end = p + want;
    }
    p = slab[c][s].cur;
    slab[c][s].cur += bytes;
  }
  struct hdr *h = (struct hdr *)p;
  h->cls = (uint64_t)c;
  h->size = n;
  return h + 1;
}
static void my_free(void *p) {
  if (!p) return;
  struct hdr *h = (struct hdr *)p - 1;
  if (h->cls >= NCLASS) {                    /* over-aligned block: cls holds the base pointer */
    h = (struct hdr *)h->cls;
    p = h + 1;
  }
  struct freen *f = p;
  f->next = freel[h->cls];
  freel[h->cls] = f;
}
EXPORT void *malloc(size_t n) { return my_malloc(n); }
EXPORT void free(void *p) { my_free(p); }
EXPORT void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
  void *p = my_malloc(n);
  if (p) memset(p, 0, n);
  return p;
}
static size_t usable(void *p) { return (size_t)(((struct hdr *)p) - 1)->size; }
EXPORT void *realloc(void *p, size_t n) {
  if (!p) return my_malloc(n);
  struct hdr *h = (struct hdr *)p - 1;
  if (h->cls < NCLASS && n <= class_bytes((int)h->cls) && n * 2 >= class_bytes((int)h->cls)) {
    h->size = n;
    return p;
  }
  void *q = my_malloc(n);
  if (!q) return NULL;
  size_t o = usable(p);
  memcpy(q, p, o < n ? o : n);
  my_free(p);
  return q;
}
static void *my_memalign(size_t al, size_t n) {
  if (al <= 16) return my_malloc(n);
  char *b = my_malloc(n + al + sizeof(struct hdr));
  if (!b) return NULL;
  uintptr_t q = ((uintptr_t)b + sizeof(struct hdr) + al - 1) & ~(uintptr_t)(al - 1);
  struct hdr *h = (struct hdr *)q - 1;
  h->cls = (uint64_t)(uintptr_t)((struct hdr *)b - 1);
  h->size = n;
  return (void *)q;
}
EXPORT int posix_memalign(void **out, size_t al, size_t n) {
  void *p = my_memalign(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
EXPORT void *aligned_alloc(size_t al, size_t n) { return my_memalign(al, n); }
EXPORT void *memalign(size_t al, size_t n) { return my_memalign(al, n); }
EXPORT size_t malloc_usable_size(void *p) { return p ? usable(p) : 0; }

/* ---------------------------------------------------------------- requests to the simulator */
enum {
  OP_HELLO = 1, OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, OP_LSEEK, OP_FSTAT, OP_STAT, OP_UNLINK, OP_RENAME,
  OP_MKDIR, OP_RMDIR, OP_FTRUNC, OP_FSYNC, OP_ACCESS, OP_CHDIR, OP_GETCWD, OP_READDIR, OP_DUP, OP_DUP2,
  OP_PIPE, OP_SPAWN, OP_WAIT, OP_KILL, OP_CLOCK, OP_SLEEP, OP_POLL, OP_PREAD, OP_PWRITE, OP_LINK,
  OP_TRUNC, OP_FLOCK, OP_REALPATH, OP_UNSUPPORTED
};
struct req { uint32_t op, dlen; int64_t a[5]; };
struct rep { int64_t ret; int32_t err; uint32_t dlen; };
#define MAXDATA 60000

static void fatal(int code) { RAW(SYS_exit_group, code); }

static int64_t call(uint32_t op, int64_t a0, int64_t a1, int64_t a2, const struct iovec *dv, int ndv,
                    void *out, size_t outcap, size_t *outlen) {
  struct req q = {op, 0, {a0, a1, a2, 0, 0}};
  struct iovec iov[20];
  iov[0].iov_base = &q;
  iov[0].iov_len = sizeof q;
  int n = 1;
  for (int i = 0; i < ndv && n < 20; i++) {
    iov[n++] = dv[i];
    q.dlen += (uint32_t)dv[i].iov_len;
  }
  struct msghdr m;
  memset(&m, 0, sizeof m);
  m.msg_iov = iov;
  m.msg_iovlen = (size_t)n;
  long r;
  do r = RAW(SYS_sendmsg, sim_fd, &m, MSG_NOSIGNAL); while (r == -EINTR);
  if (r < 0) fatal(98);
  struct rep p;
  struct iovec riov[2] = {{&p, sizeof p}, {out, outcap}};
  memset(&m, 0, sizeof m);
  m.msg_iov = riov;
  m.msg_iovlen = out ? 2 : 1;
  do r = RAW(SYS_recvmsg, sim_fd, &m, 0); while (r == -EINTR);
  if (r < (long)sizeof p) fatal(98);
  if (outlen) *outlen = (size_t)r - sizeof p;
  if (p.err) errno = p.err;
  return p.ret;
}
static int64_t call0(uint32_t op, int64_t a0, int64_t a1, int64_t a2) {
  return call(op, a0, a1, a2, NULL, 0, NULL, 0, NULL);
}
static int64_t callp(uint32_t op, int64_t a0, int64_t a1, int64_t a2, const char *path) {
  struct iovec v = {(void *)path, strlen(path)};
  return call(op, a0, a1, a2, &v, 1, NULL, 0, NULL);
}
static int64_t callpp(uint32_t op, const char *p1, const char *p2) {
  struct iovec v[3] = {{(void *)p1, strlen(p1)}, {(void *)"\0", 1}, {(void *)p2, strlen(p2)}};
  return call(op, 0, 0, 0, v, 3, NULL, 0, NULL);
}
static int unsupported(const char *what) {
  if (mode == MODE_SIM) callp(OP_UNSUPPORTED, 0, 0, 0, what);
  errno = ENOSYS;
  return -1;
}
#define OFF (mode == MODE_OFF)
static long ret_errno(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

/* ---------------------------------------------------------------- files */
static int sim_open(const char *path, int flags, int md) { return (int)callp(OP_OPEN, flags, md, 0, path); }
#define OPEN_BODY                                                                  \
  int md = 0;                                                                      \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); md = va_arg(ap, int); va_end(ap); } \
  if (OFF) return (int)ret_errno(RAW(SYS_openat, AT_FDCWD, path, flags, md));      \
  return sim_open(path, flags, md);
EXPORT int open(const char *path, int flags, ...) { OPEN_BODY }
EXPORT int open64(const char *path, int flags, ...) { OPEN_BODY }
#define OPENAT_BODY                                                                \
  int md = 0;                                                                      \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); md = va_arg(ap, int); va_end(ap); } \
  if (OFF) return (int)ret_errno(RAW(SYS_openat, dfd, path, flags, md));           \
  if (dfd != AT_FDCWD && path[0] != '/') return unsupported("openat-dirfd");       \
  return sim_open(path, flags, md);
EXPORT int openat(int dfd, const char *path, int flags, ...) { OPENAT_BODY }
EXPORT int openat64(int dfd, const char *path, int flags, ...) { OPENAT_BODY }
EXPORT int creat(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *path, mode_t m) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }

EXPORT ssize_t read(int fd, void *buf, size_t n) {
  if (OFF) return ret_errno(RAW(SYS_read, fd, buf, n));
  if (n > MAXDATA) n = MAXDATA;
  return call(OP_READ, fd, (int64_t)n, 0, NULL, 0, buf, n, NULL);
}
EXPORT ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
  if (OFF) return ret_errno(RAW(SYS_pread64, fd, buf, n, off));
  if (n > MAXDATA) n = MAXDATA;
  return call(OP_PREAD, fd, (int64_t)n, off, NULL, 0, buf, n, NULL);
}
EXPORT ssize_t pread(int fd, void *buf, size_t n, off_t off) { return pread64(fd, buf, n, off); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
  if (OFF) return ret_errno(RAW(SYS_readv, fd, v, c));
  for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
EXPORT ssize_t write(int fd, const void *buf, size_t n) {
  if (OFF) return ret_errno(RAW(SYS_write, fd, buf, n));
  if (n > MAXDATA) n = MAXDATA;
  struct iovec v = {(void *)buf, n};
  return call(OP_WRITE, fd, 0, 0, &v, 1, NULL, 0, NULL);
}
EXPORT ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
  if (OFF) return ret_errno(RAW(SYS_pwrite64, fd, buf, n, off));
  if (n > MAXDATA) n = MAXDATA;
  struct iovec v = {(void *)buf, n};
  return call(OP_PWRITE, fd, off, 0, &v, 1, NULL, 0, NULL);
}
EXPORT ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return pwrite64(fd, buf, n, off); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  if (OFF) return ret_errno(RAW(SYS_writev, fd, v, c));
  struct iovec w[16];
  size_t tot = 0;
  int k = 0;
  for (int i = 0; i < c && k < 16; i++) {
    if (!v[i].iov_len) continue;
    size_t l = v[i].iov_len;
    if (tot + l > MAXDATA) l = MAXDATA - tot;
    if (!l) break;
    w[k].iov_base = v[i].iov_base;
    w[k++].iov_len = l;
    tot += l;
  }
  return call(OP_WRITE, fd, 0, 0, w, k, NULL, 0, NULL);
}
EXPORT int close(int fd) {
  if (OFF) return (int)ret_errno(RAW(SYS_close, fd));
  if (fd == sim_fd) { errno = EBADF; return -1; }
  return (int)call0(OP_CLOSE, fd, 0, 0);
}
EXPORT off64_t lseek64(int fd, off64_t o, int w) {
  if (OFF) return ret_errno(RAW(SYS_lseek, fd, o, w));
  return call0(OP_LSEEK, fd, o, w);
}
EXPORT off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }

struct wstat { uint64_t ino, mode, nlink, size; int64_t mt_s, mt_ns; };
static void fill_stat(struct stat *st, const struct wstat *w) {
  memset(st, 0, sizeof *st);
  st->st_dev = 42;
  st->st_ino = w->ino;
  st->st_mode = (mode_t)w->mode;
  st->st_nlink = w->nlink;
  st->st_size = (off_t)w->size;
  st->st_blksize = 4096;
  st->st_blocks = (blkcnt_t)((w->size + 511) / 512);
  st->st_mtim.tv_sec = st->st_ctim.tv_sec = st->st_atim.tv_sec = w->mt_s;
  st->st_mtim.tv_nsec = st->st_ctim.tv_nsec = st->st_atim.tv_nsec = w->mt_ns;
}
static int do_fstat(int fd, struct stat *st) {
  if (OFF) return (int)ret_errno(RAW(SYS_fstat, fd, st));
  struct wstat w;
  int64_t r = call(OP_FSTAT, fd, 0, 0, NULL, 0, &w, sizeof w, NULL);
  if (r == 0) fill_stat(st, &w);
  return (int)r;
}
static int do_stat(const char *p, struct stat *st, int nofollow) {
  if (OFF) return (int)ret_errno(RAW(SYS_newfstatat, AT_FDCWD, p, st, nofollow ? AT_SYMLINK_NOFOLLOW : 0));
  struct wstat w;
  struct iovec v = {(void *)p, strlen(p)};
  int64_t r = call(OP_STAT, nofollow, 0, 0, &v, 1, &w, sizeof w, NULL);
  if (r == 0) fill_stat(st, &w);
  return (int)r;
}
EXPORT int fstat(int fd, struct stat *st) { return do_fstat(fd, st); }
EXPORT int fstat64(int fd, struct stat64 *st) { return do_fstat(fd, (struct stat *)st); }
EXPORT int stat(const char *p, struct stat *st) { return do_stat(p, st, 0); }
EXPORT int stat64(const char *p, struct stat64 *st) { return do_stat(p, (struct stat *)st, 0); }
EXPORT int lstat(const char *p, struct stat *st) { return do_stat(p, st, 1); }
EXPORT int lstat64(const char *p, struct stat64 *st) { return do_stat(p, (struct stat *)st, 1); }
EXPORT int fstatat(int dfd, const char *p, struct stat *st, int fl) {
  if (OFF) return (int)ret_errno(RAW(SYS_newfstatat, dfd, p, st, fl));
  if ((fl & AT_EMPTY_PATH) && !*p) return do_fstat(dfd, st);
  return do_stat(p, st, fl & AT_SYMLINK_NOFOLLOW);
}
EXPORT int fstatat64(int dfd, const char *p, struct stat64 *st, int fl) {
  return fstatat(dfd, p, (struct stat *)st, fl);
}
EXPORT int statx(int dfd, const char *p, int fl, unsigned mask, struct statx *sx) {
  if (OFF) return (int)ret_errno(RAW(SYS_statx, dfd, p, fl, mask, sx));
  const void *volatile np = p, *volatile ns = sx; /* declared nonnull, but the runtime probes with NULL */
  if (!np || !ns) { errno = EFAULT; return -1; }
  struct stat st;
  int r = ((fl & AT_EMPTY_PATH) && !*p) ? do_fstat(dfd, &st) : do_stat(p, &st, fl & AT_SYMLINK_NOFOLLOW);
  if (r) return r;
  memset(sx, 0, sizeof *sx);
  sx->stx_mask = STATX_BASIC_STATS;
  sx->stx_blksize = 4096;
  sx->stx_nlink = (uint32_t)st.st_nlink;
  sx->stx_mode = (uint16_t)st.st_mode;
  sx->stx_ino = st.st_ino;
  sx->stx_size = (uint64_t)st.st_size;
  sx->stx_blocks = (uint64_t)st.st_blocks;
  sx->stx_mtime.tv_sec = st.st_mtim.tv_sec;
  sx->stx_mtime.tv_nsec = (uint32_t)st.st_mtim.tv_nsec;
  return 0;
}
#define PATH1(NAME, SIG, RAWCALL, OPCALL) EXPORT int NAME SIG { if (OFF) return (int)ret_errno(RAWCALL); return (int)OPCALL; }
PATH1(unlink, (const char *p), RAW(SYS_unlink, p), callp(OP_UNLINK, 0, 0, 0, p))
PATH1(rmdir, (const char *p), RAW(SYS_rmdir, p), callp(OP_RMDIR, 0, 0, 0, p))
PATH1(remove, (const char *p), RAW(SYS_unlink, p), callp(OP_UNLINK, 0, 0, 0, p))
EXPORT int unlinkat(int d, const char *p, int fl) {
  if (OFF) return (int)ret_errno(RAW(SYS_unlinkat, d, p, fl));
  if (d != AT_FDCWD && p[0] != '/') return unsupported("unlinkat-dirfd");
  return (int)callp(fl & AT_REMOVEDIR ? OP_RMDIR : OP_UNLINK, 0, 0, 0, p);
}
PATH1(rename, (const char *a, const char *b), RAW(SYS_rename, a, b), callpp(OP_RENAME, a, b))
EXPORT int renameat(int d, const char *a, int e, const char *b) {
  if (OFF) return (int)ret_errno(RAW(SYS_renameat, d, a, e, b));
  return (int)callpp(OP_RENAME, a, b);
}
EXPORT int renameat2(int d, const char *a, int e, const char *b, unsigned fl) {
  if (OFF) return (int)ret_errno(RAW(SYS_renameat2, d, a, e, b, fl));
  if (fl) return unsupported("renameat2-flags");
  return (int)callpp(OP_RENAME, a, b);
}
PATH1(link, (const char *a, const char *b), RAW(SYS_link, a, b), callpp(OP_LINK, a, b))
EXPORT int linkat(int d, const char *a, int e, const char *b, int fl) {
  if (OFF) return (int)ret_errno(RAW(SYS_linkat, d, a, e, b, fl));
  return (int)callpp(OP_LINK, a, b);
}
EXPORT int symlink(const char *a, const char *b) { if (OFF) return (int)ret_errno(RAW(SYS_symlink, a, b)); return unsupported("symlink"); }
PATH1(mkdir, (const char *p, mode_t m), RAW(SYS_mkdir, p, m), callp(OP_MKDIR, m, 0, 0, p))
EXPORT int mkdirat(int d, const char *p, mode_t m) {
  if (OFF) return (int)ret_errno(RAW(SYS_mkdirat, d, p, m));
  return (int)callp(OP_MKDIR, m, 0, 0, p);
}
EXPORT int ftruncate64(int fd, off64_t n) { if (OFF) return (int)ret_errno(RAW(SYS_ftruncate, fd, n)); return (int)call0(OP_FTRUNC, fd, n, 0); }
EXPORT int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
EXPORT int truncate64(const char *p, off64_t n) { if (OFF) return (int)ret_errno(RAW(SYS_truncate, p, n)); return (int)callp(OP_TRUNC, n, 0, 0, p); }
EXPORT int truncate(const char *p, off_t n) { return truncate64(p, n); }
EXPORT int fsync(int fd) { if (OFF) return (int)ret_errno(RAW(SYS_fsync, fd)); return (int)call0(OP_FSYNC, fd, 0, 0); }
EXPORT int fdatasync(int fd) { if (OFF) return (int)ret_errno(RAW(SYS_fdatasync, fd)); return (int)call0(OP_FSYNC, fd, 1, 0); }
EXPORT void sync(void) {}
EXPORT int fallocate64(int fd, int m, off64_t o, off64_t n) { errno = EOPNOTSUPP; return -1; }
EXPORT int posix_fallocate64(int fd, off64_t o, off64_t n) { return 0; }
EXPORT int posix_fadvise64(int fd, off64_t o, off64_t n, int a) { return 0; }
EXPORT int access(const char *p, int m) { if (OFF) return (int)ret_errno(RAW(SYS_access, p, m)); return (int)callp(OP_ACCESS, m, 0, 0, p); }
EXPORT int faccessat(int d, const char *p, int m, int f) { if (OFF) return (int)ret_errno(RAW(SYS_faccessat, d, p, m)); return (int)callp(OP_ACCESS, m, 0, 0, p); }
EXPORT int chmod(const char *p, mode_t m) { return OFF ? (int)ret_errno(RAW(SYS_chmod, p, m)) : 0; }
EXPORT int fchmod(int fd, mode_t m) { return OFF ? (int)ret_errno(RAW(SYS_fchmod, fd, m)) : 0; }
EXPORT int fchown(int fd, uid_t u, gid_t g) { return OFF ? (int)ret_errno(RAW(SYS_fchown, fd, u, g)) : 0; }
EXPORT int flock(int fd, int op) { if (OFF) return (int)ret_errno(RAW(SYS_flock, fd, op)); return (int)call0(OP_FLOCK, fd, op, 0); }
EXPORT int utimensat(int d, const char *p, const struct timespec *t, int f) { return OFF ? (int)ret_errno(RAW(SYS_utimensat, d, p, t, f)) : 0; }
EXPORT int futimens(int d, const struct timespec *t) { return 0; }
EXPORT int chdir(const char *p) { if (OFF) return (int)ret_errno(RAW(SYS_chdir, p)); return (int)callp(OP_CHDIR, 0, 0, 0, p); }
EXPORT char *getcwd(char *buf, size_t n) {
  if (OFF) { long r = RAW(SYS_getcwd, buf, n); if (r < 0) { errno = (int)-r; return NULL; } return buf; }
  char tmp[PATH_MAX];
  size_t l = 0;
  if (call(OP_GETCWD, 0, 0, 0, NULL, 0, tmp, sizeof tmp - 1, &l) < 0) return NULL;
  tmp[l] = 0;
  if (!buf) { buf = my_malloc(l + 1); n = l + 1; }
  if (l + 1 > n) { errno = ERANGE; return NULL; }
  memcpy(buf, tmp, l + 1);
  return buf;
}
EXPORT char *realpath(const char *p, char *out) {
  if (OFF) { errno = ENOSYS; return NULL; }
  char tmp[PATH_MAX];
  size_t l = 0;
  struct iovec v = {(void *)p, strlen(p)};
  if (call(OP_REALPATH, 0, 0, 0, &v, 1, tmp, sizeof tmp - 1, &l) < 0) return NULL;
  tmp[l] = 0;
  if (!out) out = my_malloc(l + 1);
  memcpy(out, tmp, l + 1);
  return out;
}
EXPORT ssize_t readlink(const char *p, char *b, size_t n) {
  if (OFF) return ret_errno(RAW(SYS_readlink, p, b, n));
  errno = EINVAL;
  return -1;
}
/* directories: the whole (already ordered) listing arrives in one reply */
struct sdir { size_t len, pos; uint64_t n; struct dirent64 d; char data[MAXDATA]; };
EXPORT DIR *opendir(const char *p) {
  if (OFF) { errno = ENOSYS; return NULL; }
  struct sdir *s = my_malloc(sizeof *s);
  if (!s) return NULL;
  s->len = s->pos = s->n = 0;
  struct iovec v = {(void *)p, strlen(p)};
  if (call(OP_READDIR, 0, 0, 0, &v, 1, s->data, sizeof s->data, &s->len) < 0) { my_free(s); return NULL; }
  return (DIR *)s;
}
EXPORT DIR *fdopendir(int fd) { unsupported("fdopendir"); return NULL; }
EXPORT struct dirent64 *readdir64(DIR *d) {
  struct sdir *s = (struct sdir *)d;
  if (s->pos >= s->len) return NULL;
  unsigned char ty = (unsigned char)s->data[s->pos++];
  size_t l = strlen(s->data + s->pos);
  memset(&s->d, 0, sizeof s->d);
  s->d.d_ino = ++s->n;
  s->d.d_type = ty;
  s->d.d_reclen = sizeof s->d;
  memcpy(s->d.d_name, s->data + s->pos, l < 255 ? l : 255);
  s->pos += l + 1;
  return &s->d;
}
EXPORT struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
EXPORT int closedir(DIR *d) { my_free(d); return 0; }
EXPORT int dirfd(DIR *d) { errno = ENOTSUP; return -1; }

/* ---------------------------------------------------------------- descriptors */
EXPORT int dup(int fd) { if (OFF) return (int)ret_errno(RAW(SYS_dup, fd)); return (int)call0(OP_DUP, fd, 0, 0); }
EXPORT int dup2(int a, int b) { if (OFF) return (int)ret_errno(RAW(SYS_dup2, a, b)); return (int)call0(OP_DUP2, a, b, 0); }
EXPORT int dup3(int a, int b, int f) { if (OFF) return (int)ret_errno(RAW(SYS_dup3, a, b, f)); return (int)call0(OP_DUP2, a, b, 0); }
static int do_fcntl(int fd, int cmd, long arg) {
  if (OFF) return (int)ret_errno(RAW(SYS_fcntl, fd, cmd, arg));
  switch (cmd) {
    case F_DUPFD: case F_DUPFD_CLOEXEC: return (int)call0(OP_DUP, fd, 0, 0);
    case F_GETFD: case F_SETFD: case F_GETFL: case F_SETFL: return 0;
    case F_SETLK: case F_SETLKW: return (int)call0(OP_FLOCK, fd, 2 | 256, 0);
    default: return unsupported("fcntl");
  }
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
EXPORT int isatty(int fd) { if (OFF) return 0; errno = ENOTTY; return 0; }
EXPORT int ioctl(int fd, unsigned long r, ...) { errno = ENOTTY; return -1; }
EXPORT int poll(struct pollfd *p, nfds_t n, int tmo) {
  if (OFF) return (int)ret_errno(RAW(SYS_poll, p, n, tmo));
  int std = 1;
  for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd > 2) std = 0; }
  if (std || n > 16) return 0;
  struct iovec v = {p, n * sizeof *p};
  return (int)call(OP_POLL, (int64_t)n, tmo, 0, &v, 1, p, n * sizeof *p, NULL);
}
EXPORT int pipe2(int *fds, int fl) {
  if (OFF) return (int)ret_errno(RAW(SYS_pipe2, fds, fl));
  int32_t o[2];
  int64_t r = call(OP_PIPE, fl, 0, 0, NULL, 0, o, sizeof o, NULL);
  if (r == 0) { fds[0] = o[0]; fds[1] = o[1]; }
  return (int)r;
}
EXPORT int pipe(int *fds) { return pipe2(fds, 0); }
EXPORT int socketpair(int d, int t, int p, int *fds) { if (OFF) return (int)ret_errno(RAW(SYS_socketpair, d, t, p, fds)); return unsupported("socketpair"); }
EXPORT int socket(int d, int t, int p) { if (OFF) return (int)ret_errno(RAW(SYS_socket, d, t, p)); return unsupported("socket"); }
EXPORT ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { errno = ENOSYS; return -1; }
EXPORT ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { errno = ENOSYS; return -1; }
EXPORT ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { errno = ENOSYS; return -1; }

/* ---------------------------------------------------------------- processes */
struct fa { int used; int n; int pair[16][2]; };
static struct fa *fa_of(const posix_spawn_file_actions_t *a) { return a ? *(struct fa **)a : NULL; }
EXPORT int posix_spawn_file_actions_init(posix_spawn_file_actions_t *a) {
  struct fa *f = my_malloc(sizeof *f);
  if (!f) return ENOMEM;
  memset(f, 0, sizeof *f);
  *(struct fa **)a = f;
  return 0;
}
EXPORT int posix_spawn_file_actions_destroy(posix_spawn_file_actions_t *a) { my_free(fa_of(a)); return 0; }
EXPORT int posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t *a, int x, int y) {
  struct fa *f = fa_of(a);
  if (f->n >= 16) return ENOMEM;
  f->pair[f->n][0] = x;
  f->pair[f->n++][1] = y;
  return 0;
}
EXPORT int posix_spawn_file_actions_addchdir_np(posix_spawn_file_actions_t *a, const char *p) { return ENOSYS; }
EXPORT int posix_spawnattr_init(posix_spawnattr_t *a) { return 0; }
EXPORT int posix_spawnattr_destroy(posix_spawnattr_t *a) { return 0; }
EXPORT int posix_spawnattr_setflags(posix_spawnattr_t *a, short f) { return 0; }
EXPORT int posix_spawnattr_setpgroup(posix_spawnattr_t *a, pid_t p) { return 0; }
EXPORT int posix_spawnattr_setsigdefault(posix_spawnattr_t *a, const sigset_t *s) { return 0; }
EXPORT int posix_spawnattr_setsigmask(posix_spawnattr_t *a, const sigset_t *s) { return 0; }
EXPORT int posix_spawnp(pid_t *pid, const char *file, const posix_spawn_file_actions_t *a,
                        const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
  if (OFF) return ENOSYS;
  char buf[8192];
  size_t n = 0;
  struct fa *f = fa_of(a);
  int32_t cnt = f ? f->n : 0;
  memcpy(buf, &cnt, 4);
  n = 4;
  for (int i = 0; i < cnt; i++) { memcpy(buf + n, f->pair[i], 8); n += 8; }
  size_t l = strlen(file) + 1;
  if (n + l > sizeof buf) return E2BIG;
  memcpy(buf + n, file, l);
  n += l;
  for (int i = 0; argv[i]; i++) {
    l = strlen(argv[i]) + 1;
    if (n + l > sizeof buf) return E2BIG;
    memcpy(buf + n, argv[i], l);
    n += l;
  }
  struct iovec v = {buf, n};
  int64_t r = call(OP_SPAWN, 0, 0, 0, &v, 1, NULL, 0, NULL);
  if (r < 0) return errno;
  *pid = (pid_t)r;
  return 0;
}
EXPORT int posix_spawn(pid_t *pid, const char *file, const posix_spawn_file_actions_t *a,
                       const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
  return posix_spawnp(pid, file, a, at, argv, envp);
}
EXPORT int pidfd_spawnp(int *pfd, const char *file, const posix_spawn_file_actions_t *a,
                        const posix_spawnattr_t *at, char *const argv[], char *const envp[]) { return ENOSYS; }
static pid_t real_fork(void) { return (pid_t)ret_errno(RAW(SYS_clone, SIGCHLD, 0, 0, 0, 0)); }
EXPORT pid_t fork(void) { if (OFF) return real_fork(); return unsupported("fork"); }
EXPORT pid_t vfork(void) { return unsupported("vfork"); }
EXPORT int execvp(const char *f, char *const a[]) { return unsupported("execvp"); }
EXPORT int execve(const char *f, char *const a[], char *const e[]) { return unsupported("execve"); }
EXPORT pid_t waitpid(pid_t p, int *st, int fl) {
  if (OFF) return (pid_t)ret_errno(RAW(SYS_wait4, p, st, fl, 0));
  int32_t s = 0;
  int64_t r = call(OP_WAIT, p, fl, 0, NULL, 0, &s, sizeof s, NULL);
  if (r > 0 && st) *st = s;
  return (pid_t)r;
}
EXPORT pid_t wait(int *st) { return waitpid(-1, st, 0); }
EXPORT pid_t wait4(pid_t p, int *st, int fl, struct rusage *ru) { return waitpid(p, st, fl); }
EXPORT int waitid(idtype_t t, id_t id, siginfo_t *si, int fl) { return unsupported("waitid"); }
EXPORT int kill(pid_t p, int s) { if (OFF) return (int)ret_errno(RAW(SYS_kill, p, s)); return (int)call0(OP_KILL, p, s, 0); }

/* ---------------------------------------------------------------- time, randomness */
EXPORT int clock_gettime(clockid_t c, struct timespec *t) {
  if (OFF) return (int)ret_errno(RAW(SYS_clock_gettime, c, t));
  int64_t v = call0(OP_CLOCK, c, 0, 0);
  t->tv_sec = v / 1000000000;
  t->tv_nsec = v % 1000000000;
  return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec;
  tv->tv_usec = t.tv_nsec / 1000;
  return 0;
}
EXPORT time_t time(time_t *o) {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (o) *o = t.tv_sec;
  return t.tv_sec;
}
EXPORT int nanosleep(const struct timespec *a, struct timespec *b) {
  if (OFF) return 0;
  return (int)call0(OP_SLEEP, a->tv_sec * 1000000000ll + a->tv_nsec, 0, 0);
}
EXPORT int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
  if (OFF) return 0;
  return (int)call0(OP_SLEEP, a->tv_sec * 1000000000ll + a->tv_nsec, f & TIMER_ABSTIME, 0);
}
EXPORT ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  unsigned char *b = buf;
  uint64_t v = 0;
  for (size_t i = 0; i < n; i++) {
    if (i % 8 == 0) v = sm64(&rnd_state);
    b[i] = (unsigned char)(v >> (8 * (i % 8)));
  }
  return (ssize_t)n;
}
EXPORT int getentropy(void *buf, size_t n) { getrandom(buf, n, 0); return 0; }
/* its own number for every simulated process: temporary files may be named after it */
static pid_t sim_pid = 4242;
EXPORT pid_t getpid(void) { return OFF ? (pid_t)RAW(SYS_getpid) : sim_pid; }
EXPORT pid_t gettid(void) { return OFF ? (pid_t)RAW(SYS_gettid) : sim_pid; }
EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
       f = va_arg(ap, long);
  va_end(ap);
  if (!OFF) {
    switch (n) {
      case SYS_gettid: case SYS_getpid: return sim_pid;
      case SYS_futex: case SYS_membarrier: case SYS_mmap: case SYS_munmap: case SYS_mprotect: break;
      case SYS_getrandom: return getrandom((void *)a, (size_t)b, (unsigned)c);
      case SYS_statx: return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
      default: return unsupported("syscall");
    }
  }
  return ret_errno(raw6(n, a, b, c, d, e, f));
}

/* threads inside a simulated program are not modelled: such a run is inconclusive */
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  if (!OFF) { unsupported("pthread_create"); return EAGAIN; }
  if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
  return real ? real(t, at, fn, arg) : EAGAIN;
}

/* ---------------------------------------------------------------- fork server */
extern char **environ;
static char **real_argv;
static int real_argc;
static char argbuf[65536];

struct runcmd { uint32_t op; uint32_t pid; uint64_t rnd, heap; int64_t allocs; uint32_t cpu; uint32_t argc; uint32_t alen; uint32_t pid_no; };
struct runrep { int32_t pid; int32_t status; };

static void serve(int ctl) {
  for (;;) {
    static char abuf[60000];
    struct runcmd c;
    struct iovec iov[2] = {{&c, sizeof c}, {abuf, sizeof abuf}};
    char cb[CMSG_SPACE(sizeof(int))];
    struct msghdr m;
    memset(&m, 0, sizeof m);
    m.msg_iov = iov;
    m.msg_iovlen = 2;
    m.msg_control = cb;
    m.msg_controllen = sizeof cb;
    long r;
    do r = RAW(SYS_recvmsg, ctl, &m, 0); while (r == -EINTR);
    if (r < (long)sizeof c) fatal(0);
    struct runrep rr = {0, 0};
    if (c.op == 2) {
      int st = 0;
      do r = RAW(SYS_wait4, c.pid, &st, 0, 0); while (r == -EINTR);
      rr.pid = (int)r;
      rr.status = st;
    } else {
      int fd = -1;
      struct cmsghdr *cm = CMSG_FIRSTHDR(&m);
      if (cm) memcpy(&fd, CMSG_DATA(cm), sizeof fd);
      pid_t p = real_fork();
      if (p == 0) {
        RAW(SYS_close, ctl);
        RAW(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL, 0, 0, 0);
        RAW(SYS_dup3, fd, 900, O_CLOEXEC);
        RAW(SYS_close, fd);
        sim_fd = 900;
        struct rlimit rl = {c.cpu, c.cpu};
        RAW(SYS_prlimit64, 0, RLIMIT_CPU, &rl, 0);
        struct rlimit nc = {0, 0};
        RAW(SYS_prlimit64, 0, RLIMIT_CORE, &nc, 0);
        memcpy(argbuf, abuf, c.alen);
        char *q = argbuf;
        for (uint32_t i = 0; i < c.argc && (int)i < real_argc; i++) {
          real_argv[i] = q;
          q += strlen(q) + 1;
        }
        real_argv[c.argc] = NULL;
        rnd_state = c.rnd;
        heap_state = c.heap;
        alloc_left = c.allocs;
        sim_pid = (pid_t)c.pid_no;
        mode = MODE_SIM;
        return;
      }
      RAW(SYS_close, fd);
      rr.pid = p;
    }
    struct iovec o = {&rr, sizeof rr};
    memset(&m, 0, sizeof m);
    m.msg_iov = &o;
    m.msg_iovlen = 1;
    do r = RAW(SYS_sendmsg, ctl, &m, MSG_NOSIGNAL); while (r == -EINTR);
    if (r < 0) fatal(0);
  }
}

__attribute__((constructor)) static void shim_start(int argc, char **argv, char **envp) {
  arena_init();
  const char *s = getenv("DST_CTL_FD");
  if (!s) return;
  int ctl = atoi(s);
  real_argc = argc;
  real_argv = argv;
  RAW(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL, 0, 0, 0);
  /* the simulated environment is empty apart from what the simulator chooses */
  static char *emptyenv[] = {"HOME=/", "PATH=/bin", "LANG=C", NULL};
  environ = emptyenv;
  serve(ctl);
}
