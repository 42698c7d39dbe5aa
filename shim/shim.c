// The seam between a real, unmodified command and the simulator.
//
// Loaded with LD_PRELOAD. The constructor installs a seccomp filter that traps
// every system call through which the outside world can be seen or changed,
// unless it is issued from am_gate below. The SIGSYS handler describes the call
// to the simulator over a SOCK_SEQPACKET socket (fd 900) and does what it is
// told: execute it, execute part of it, answer it, fail it. The process is
// stopped while the simulator decides.
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <linux/stat.h>
#include <sched.h>
#include <signal.h>
#include <spawn.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#define AM_FD 900
#define BUF 32768

__asm__(".text\n"
        ".globl am_gate\n.hidden am_gate\n.globl am_gate_end\n.hidden am_gate_end\n"
        "am_gate:\n"
        " mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n"
        " mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n"
        "am_gate_end:\n ret\n");
long am_gate(long nr, long a, long b, long c, long d, long e, long f);
extern char am_gate_end[];
#define G(nr, a, b, c, d, e, f) \
  am_gate((nr), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

enum { K_SYSCALL = 1, K_CLOCK = 2, K_SPAWN = 3, K_HELLO = 4 };
enum { A_EXEC = 0, A_CLIP = 1, A_RET = 2, A_EXECRET = 3, A_SHUFFLE = 4, A_DIE = 5 };

struct req {
  uint32_t kind;
  int32_t nr;
  int64_t a[6];
  int64_t prev;
  uint32_t hasstat, mode;
  uint64_t dev, ino;
  int64_t size;
  uint32_t len1, len2;
};
struct rep {
  uint32_t action;
  int32_t oom;  // >0: the oom-th allocation from now on fails
  int64_t n;
  uint32_t dlen, pad2;
};

static char buf[BUF];
static char rbuf[BUF];
static volatile int lock_;
static int64_t prev_ret = INT64_MIN;
static int real_pid;
static int64_t stat_time = 1500000000;
static unsigned char sysfd[1024];
static volatile long oom_countdown = -1;

static void lk(void) {
  while (__sync_lock_test_and_set(&lock_, 1)) G(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
static void unlk(void) { __sync_lock_release(&lock_); }
static void die(void) { G(SYS_exit_group, 97, 0, 0, 0, 0, 0); for (;;); }

static struct rep *rpc(uint32_t len) {
  long r;
  do r = G(SYS_sendto, AM_FD, buf, len, 0x4000, 0, 0); while (r == -EINTR);
  if (r != (long)len) die();
  do r = G(SYS_recvfrom, AM_FD, rbuf, BUF, 0, 0, 0); while (r == -EINTR);
  if (r < (long)sizeof(struct rep)) die();
  return (struct rep *)rbuf;
}

static void ustrn(char *d, const char *s, int max) {
  int i = 0;
  for (; s && s[i] && i < max - 1; i++) d[i] = s[i];
  d[i] = 0;
}

static int starts(const char *s, const char *p) {
  while (*p) if (*s++ != *p++) return 0;
  return 1;
}
// Paths of the operating system, read only: never faulted, not reported.
static int is_system(const char *p) {
  static const char *const pre[] = {"/proc/", "/sys/", "/etc/", "/usr/", "/lib", "/opt/", 0};
  if (!p) return 0;
  for (int i = 0; pre[i]; i++) if (starts(p, pre[i])) return 1;
  return 0;
}

// Describes a path argument as an absolute or cwd-relative path.
static int put_path(char *dst, int max, long dirfd, const char *p) {
  if (!p) { dst[0] = 0; return 0; }
  int n = 0;
  if (p[0] != '/' && (int)dirfd != AT_FDCWD && p[0]) {
    char lnk[40] = "/proc/self/fd/";
    int k = 14, fd = (int)dirfd, digs[12], m = 0;
    if (fd < 0) fd = 0;
    do { digs[m++] = fd % 10; fd /= 10; } while (fd);
    while (m) lnk[k++] = '0' + digs[--m];
    lnk[k] = 0;
    long r = G(SYS_readlinkat, AT_FDCWD, lnk, dst, max - 2, 0, 0);
    if (r > 0) { n = r; dst[n++] = '/'; }
  }
  ustrn(dst + n, p, max - n);
  return (int)strlen(dst);
}

enum argkind { N = 0, FD, P, ATP, P2, AT2, PAT /*symlinkat: path, dirfd, path*/, SP /*symlink*/ };
static int kind_of(long nr, int *ro) {
  *ro = 0;
  switch (nr) {
    case SYS_read: case SYS_readv: case SYS_pread64: case SYS_preadv: case SYS_preadv2:
    case SYS_write: case SYS_writev: case SYS_pwrite64: case SYS_pwritev: case SYS_pwritev2:
    case SYS_close: case SYS_fstat: case SYS_lseek: case SYS_fsync: case SYS_fdatasync:
    case SYS_ftruncate: case SYS_fchmod: case SYS_fchown: case SYS_getdents64: case SYS_getdents:
    case SYS_fallocate: case SYS_sync_file_range: case SYS_flock: case SYS_fchdir: case SYS_syncfs:
    case SYS_sendfile: case SYS_copy_file_range: case SYS_splice: case SYS_fadvise64:
      return FD;
    case SYS_open: case SYS_creat: case SYS_truncate: case SYS_chmod: case SYS_chown: case SYS_lchown:
    case SYS_mkdir: case SYS_rmdir: case SYS_unlink: case SYS_chdir: case SYS_mknod: case SYS_utime:
    case SYS_utimes: case SYS_execve: case SYS_setxattr: case SYS_lsetxattr: case SYS_removexattr:
      return P;
    case SYS_stat: case SYS_lstat: case SYS_access: case SYS_readlink: case SYS_statfs:
      *ro = 1; return P;
    case SYS_openat: case SYS_mkdirat: case SYS_unlinkat: case SYS_fchmodat: case SYS_fchownat:
    case SYS_mknodat: case SYS_utimensat: case SYS_execveat: case SYS_openat2:
      return ATP;
    case SYS_newfstatat: case SYS_statx: case SYS_faccessat: case SYS_faccessat2: case SYS_readlinkat:
      *ro = 1; return ATP;
    case SYS_rename: case SYS_link: return P2;
    case SYS_renameat: case SYS_renameat2: case SYS_linkat: return AT2;
    case SYS_symlink: return SP;
    case SYS_symlinkat: return PAT;
  }
  return N;
}

static void fix_times(long nr, int64_t *a) {
  if (nr == SYS_statx) {
    struct statx *s = (struct statx *)a[4];
    struct statx_timestamp t = {.tv_sec = stat_time};
    s->stx_atime = s->stx_mtime = s->stx_ctime = s->stx_btime = t;
  } else {
    struct stat *s = (struct stat *)(nr == SYS_newfstatat ? a[2] : a[1]);
    struct timespec t = {.tv_sec = stat_time};
    s->st_atim = s->st_mtim = s->st_ctim = t;
  }
}

static void shuffle_dir(char *b, long n, uint64_t seed) {
  static char tmp[BUF];
  static unsigned short off[2048];
  struct d64 { uint64_t ino; int64_t off; unsigned short reclen; unsigned char type; char name[]; };
  int c = 0;
  if (n > BUF) return;
  for (long p = 0; p < n && c < 2048; p += ((struct d64 *)(b + p))->reclen) off[c++] = p;
  // Sort by name first so that the result depends on the seed only.
  for (int i = 1; i < c; i++)
    for (int j = i; j > 0 && strcmp(((struct d64 *)(b + off[j - 1]))->name, ((struct d64 *)(b + off[j]))->name) > 0; j--) {
      unsigned short t = off[j]; off[j] = off[j - 1]; off[j - 1] = t;
    }
  for (int i = c - 1; i > 0; i--) {
    seed = seed * 6364136223846793005ull + 1442695040888963407ull;
    int j = (seed >> 33) % (i + 1);
    unsigned short t = off[j]; off[j] = off[i]; off[i] = t;
  }
  long q = 0;
  for (int i = 0; i < c; i++) {
    struct d64 *d = (struct d64 *)(b + off[i]);
    memcpy(tmp + q, d, d->reclen);
    q += d->reclen;
  }
  memcpy(b, tmp, q);
}

static int64_t do_call(long nr, int64_t *a0) {
  int64_t a[6];
  memcpy(a, a0, sizeof a);
  int ro, k = kind_of(nr, &ro);

  // Silent pass for the operating system's own files and for our socket.
  if (k == FD) {
    int fd = (int)a[0];
    if (fd == AM_FD) return -EBADF;
    if (fd >= 0 && fd < 1024 && sysfd[fd]) {
      if (nr == SYS_close) sysfd[fd] = 0;
      return G(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    }
  }
  if (k == P || k == ATP) {
    const char *p = (const char *)(k == P ? a[0] : a[1]);
    if (is_system(p)) {
      int isopen = nr == SYS_open || nr == SYS_openat;
      long fl = nr == SYS_open ? a[1] : a[2];
      if (ro || (isopen && (fl & O_ACCMODE) == O_RDONLY && !(fl & (O_CREAT | O_TRUNC)))) {
        long r = G(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
        if (isopen && r >= 0 && r < 1024) sysfd[r] = 1;
        return r;
      }
    }
  }
  if (nr == SYS_tgkill || nr == SYS_kill) {
    if (nr == SYS_tgkill) return G(nr, real_pid, G(SYS_gettid, 0, 0, 0, 0, 0, 0), a[2], 0, 0, 0);
  }
  if (nr == SYS_clone3) return -ENOSYS;

  lk();
  struct req *q = (struct req *)buf;
  memset(q, 0, sizeof *q);
  q->kind = K_SYSCALL;
  q->nr = nr;
  memcpy(q->a, a, sizeof a);
  q->prev = prev_ret;
  char *s = buf + sizeof *q;
  int max = 4200;
  int l1 = 0, l2 = 0;
  int statfd = -1;
  switch (k) {
    case FD: statfd = (int)a[0]; break;
    case P: l1 = put_path(s, max, AT_FDCWD, (char *)a[0]); break;
    case ATP:
      if (a[1] && *(char *)a[1]) l1 = put_path(s, max, a[0], (char *)a[1]);
      else statfd = (int)a[0];
      break;
    case P2:
      l1 = put_path(s, max, AT_FDCWD, (char *)a[0]);
      l2 = put_path(s + l1 + 1, max, AT_FDCWD, (char *)a[1]);
      break;
    case AT2:
      l1 = put_path(s, max, a[0], (char *)a[1]);
      l2 = put_path(s + l1 + 1, max, a[2], (char *)a[3]);
      break;
    case SP:
      l1 = put_path(s, max, AT_FDCWD, (char *)a[1]);
      l2 = put_path(s + l1 + 1, max, AT_FDCWD, (char *)a[0]);
      break;
    case PAT:
      l1 = put_path(s, max, a[1], (char *)a[2]);
      l2 = put_path(s + l1 + 1, max, AT_FDCWD, (char *)a[0]);
      break;
  }
  if (nr == SYS_readv || nr == SYS_writev) {
    // The simulator wants a byte count in argument 2.
    const struct iovec *v = (const struct iovec *)a[1];
    int64_t t = 0;
    for (int64_t i = 0; i < a[2]; i++) t += v[i].iov_len;
    q->a[3] = t;
  }
  if (nr == SYS_openat2) {
    uint64_t *how = (uint64_t *)a[2];
    q->a[2] = how[0];
    q->a[3] = how[1];
  }
  if (statfd >= 0) {
    struct stat st;
    if (G(SYS_fstat, statfd, &st, 0, 0, 0, 0) == 0) {
      q->hasstat = 1;
      q->mode = st.st_mode;
      q->dev = st.st_dev;
      q->ino = st.st_ino;
      q->size = st.st_size;
    }
  }
  q->len1 = l1;
  q->len2 = l2;
  struct rep *r = rpc(sizeof *q + l1 + 1 + l2 + 1);
  int64_t ret;
  if (r->oom > 0) oom_countdown = r->oom;
  switch (r->action) {
    case A_EXEC: case A_EXECRET: case A_SHUFFLE: case A_CLIP: {
      int act = r->action;
      int64_t n = r->n;
      if (nr == SYS_kill) { ret = 0; break; }
      if (act == A_CLIP && (nr == SYS_readv || nr == SYS_writev)) {
        // Do as much of the vector as fits into n bytes.
        struct iovec *v = (struct iovec *)a[1];
        int64_t done = 0;
        ret = 0;
        for (int64_t i = 0; i < a[2] && done < n; i++) {
          int64_t len = v[i].iov_len < (uint64_t)(n - done) ? (int64_t)v[i].iov_len : n - done;
          if (!len) continue;
          long x = G(nr == SYS_readv ? SYS_read : SYS_write, a[0], v[i].iov_base, len, 0, 0, 0);
          if (x < 0) { if (!done) ret = x; break; }
          done += x;
          if (x < len) break;
        }
        if (ret >= 0) ret = done;
        break;
      }
      if (act == A_CLIP && a[2] > n) a[2] = n;
      if (nr == SYS_exit_group) {
        G(nr, a[0], 0, 0, 0, 0, 0);
      }
      ret = G(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
      if (ret == 0 && (nr == SYS_statx || nr == SYS_newfstatat || nr == SYS_fstat || nr == SYS_stat || nr == SYS_lstat))
        fix_times(nr, a);
      if (act == A_SHUFFLE && ret > 0 && nr == SYS_getdents64) shuffle_dir((char *)a[1], ret, n);
      if (act == A_EXECRET) ret = n;
      break;
    }
    case A_RET: {
      ret = r->n;
      if (r->dlen) {
        void *dst = 0;
        if (nr == SYS_getrandom) dst = (void *)a[0];
        else if (nr == SYS_read) dst = (void *)a[1];
        else if (nr == SYS_wait4) dst = (void *)a[1];
        else if (nr == SYS_waitid) dst = (void *)a[2];
        if (dst) memcpy(dst, rbuf + sizeof *r, r->dlen);
      }
      break;
    }
    default:
      die();
      ret = 0;
  }
  prev_ret = ret;
  unlk();
  return ret;
}

static void on_sigsys(int sig, siginfo_t *si, void *uc) {
  ucontext_t *c = uc;
  greg_t *g = c->uc_mcontext.gregs;
  int64_t a[6] = {g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]};
  (void)sig;
  g[REG_RAX] = do_call(si->si_syscall, a);
}

// ---- clock: answered by the vDSO in libc, so interposed by name ----
static int64_t sim_now(int id) {
  lk();
  struct req *q = (struct req *)buf;
  memset(q, 0, sizeof *q);
  q->kind = K_CLOCK;
  q->a[0] = id;
  q->prev = prev_ret;
  struct rep *r = rpc(sizeof *q + 2);
  int64_t n = r->n;
  prev_ret = 0;
  unlk();
  return n;
}
static int active;
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!active) return syscall(SYS_clock_gettime, id, ts);
  int64_t n = sim_now(id);
  ts->tv_sec = n / 1000000000;
  ts->tv_nsec = n % 1000000000;
  return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  (void)tz;
  if (!active) return syscall(SYS_gettimeofday, tv, tz);
  int64_t n = sim_now(0);
  tv->tv_sec = n / 1000000000;
  tv->tv_usec = n % 1000000000 / 1000;
  return 0;
}
time_t time(time_t *t) {
  if (!active) return syscall(SYS_time, t);
  time_t v = sim_now(0) / 1000000000;
  if (t) *t = v;
  return v;
}

// ---- helper programs: played by the simulator ----
static int sim_spawn(pid_t *pid, const char *file, char *const argv[]) {
  lk();
  struct req *q = (struct req *)buf;
  memset(q, 0, sizeof *q);
  q->kind = K_SPAWN;
  q->prev = prev_ret;
  char *s = buf + sizeof *q;
  ustrn(s, file, 4200);
  q->len1 = strlen(s);
  char *p = s + q->len1 + 1, *end = buf + BUF - 8;
  char *p0 = p;
  for (int i = 0; argv && argv[i]; i++) {
    int l = strlen(argv[i]);
    if (p + l + 1 >= end) break;
    memcpy(p, argv[i], l + 1);
    p += l + 1;
  }
  q->len2 = p - p0;
  struct rep *r = rpc(p - buf);
  int64_t n = r->n;
  prev_ret = n;
  unlk();
  if (n < 0) return -n;
  *pid = n;
  return 0;
}
int posix_spawn(pid_t *restrict pid, const char *restrict path, const posix_spawn_file_actions_t *restrict fa,
                const posix_spawnattr_t *restrict at, char *const argv[restrict], char *const envp[restrict]) {
  (void)fa; (void)at; (void)envp;
  return sim_spawn(pid, path, argv);
}
int posix_spawnp(pid_t *restrict pid, const char *restrict path, const posix_spawn_file_actions_t *restrict fa,
                 const posix_spawnattr_t *restrict at, char *const argv[restrict], char *const envp[restrict]) {
  (void)fa; (void)at; (void)envp;
  return sim_spawn(pid, path, argv);
}

// ---- memory: the simulator can make one allocation fail ----
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
static int oom(void) {
  if (oom_countdown < 0) return 0;
  return --oom_countdown < 0;
}
void *malloc(size_t n) { return oom() ? (errno = ENOMEM, (void *)0) : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return oom() ? (errno = ENOMEM, (void *)0) : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return oom() ? (errno = ENOMEM, (void *)0) : __libc_realloc(p, n); }
void *memalign(size_t a, size_t n) { return oom() ? (errno = ENOMEM, (void *)0) : __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) {
  void *q = memalign(a, n);
  if (!q) return ENOMEM;
  *p = q;
  return 0;
}

__attribute__((constructor)) static void init(void) {
  if (!getenv("AM_SIM")) return;
  struct sigaction sa = {0};
  sa.sa_sigaction = on_sigsys;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_RESTART;
  sigaction(SIGSYS, &sa, 0);
  real_pid = getpid();

  // What goes on for ever shall not take the machine with it.
  struct rlimit lim = {4ul << 30, 4ul << 30}, stack = {8ul << 20, 8ul << 20}, none = {0, 0};
  setrlimit(RLIMIT_AS, &lim);
  setrlimit(RLIMIT_STACK, &stack);
  setrlimit(RLIMIT_CORE, &none);

  // Deterministic perturbation of the memory layout.
  const char *pert = getenv("AM_LAYOUT");
  if (pert) {
    unsigned long v = strtoul(pert, 0, 10);
    if (v) {
      volatile char *p = malloc(16 + v % 4096);
      if (p) p[0] = 1;
      mmap(0, 4096 * (1 + v % 997), PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
  }
  const char *um = getenv("AM_UMASK");
  if (um) umask(strtoul(um, 0, 8));
  unsetenv("AM_UMASK");
  unsetenv("AM_SIM");
  unsetenv("AM_LAYOUT");
  unsetenv("LD_PRELOAD");

  uint64_t ip = (uint64_t)am_gate_end;
  static const int trap[] = {
      SYS_read, SYS_readv, SYS_pread64, SYS_preadv, SYS_preadv2, SYS_write, SYS_writev, SYS_pwrite64,
      SYS_pwritev, SYS_pwritev2, SYS_open, SYS_openat, SYS_openat2, SYS_creat, SYS_close, SYS_stat,
      SYS_lstat, SYS_fstat, SYS_newfstatat, SYS_statx, SYS_statfs, SYS_access, SYS_faccessat, SYS_faccessat2,
      SYS_readlink, SYS_readlinkat, SYS_lseek, SYS_fsync, SYS_fdatasync, SYS_sync_file_range, SYS_syncfs,
      SYS_sync, SYS_truncate, SYS_ftruncate, SYS_fallocate, SYS_rename, SYS_renameat, SYS_renameat2,
      SYS_unlink, SYS_unlinkat, SYS_mkdir, SYS_mkdirat, SYS_rmdir, SYS_link, SYS_linkat, SYS_symlink,
      SYS_symlinkat, SYS_mknod, SYS_mknodat, SYS_chmod, SYS_fchmod, SYS_fchmodat, SYS_chown, SYS_lchown,
      SYS_fchown, SYS_fchownat, SYS_utime, SYS_utimes, SYS_utimensat, SYS_getdents, SYS_getdents64,
      SYS_chdir, SYS_fchdir, SYS_chroot, SYS_getrandom, SYS_wait4, SYS_waitid, SYS_getpid, SYS_gettid,
      SYS_copy_file_range, SYS_sendfile, SYS_splice, SYS_fadvise64, SYS_flock, SYS_exit_group, SYS_kill, SYS_tgkill,
      SYS_fork, SYS_vfork, SYS_execve, SYS_execveat, SYS_clone3, SYS_ptrace, SYS_mount, SYS_umount2,
      SYS_reboot, SYS_unshare, SYS_setns, SYS_pivot_root, SYS_io_uring_setup, SYS_socket, SYS_setxattr,
      SYS_lsetxattr, SYS_removexattr, SYS_nanosleep, SYS_clock_nanosleep, SYS_clock_gettime};
  enum { NT = sizeof trap / sizeof *trap };
  static struct sock_filter f[NT * 2 + 32];
  int n = 0;
#define S_(code, k) f[n++] = (struct sock_filter)BPF_STMT(code, k)
#define J_(code, k, t, e) f[n++] = (struct sock_filter)BPF_JUMP(code, k, t, e)
  S_(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer));
  J_(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)ip, 0, 3);
  S_(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4);
  J_(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(ip >> 32), 0, 1);
  S_(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  S_(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
  for (int i = 0; i < NT; i++) {
    J_(BPF_JMP | BPF_JEQ | BPF_K, trap[i], 0, 1);
    S_(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
  }
  // clone: threads may be created, processes may not.
  J_(BPF_JMP | BPF_JEQ | BPF_K, SYS_clone, 0, 3);
  S_(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[0]));
  J_(BPF_JMP | BPF_JSET | BPF_K, CLONE_THREAD, 1, 0);
  S_(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
  S_(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  struct sock_fprog prog = {n, f};

  struct req *q = (struct req *)buf;
  memset(q, 0, sizeof *q);
  q->kind = K_HELLO;
  q->prev = INT64_MIN;
  struct rep *r = rpc(sizeof *q + 2);
  stat_time = r->n;
  active = 1;
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || syscall(SYS_seccomp, SECCOMP_SET_MODE_FILTER, 0, &prog)) die();
}
