// Every file system call made while sx.on is set is trapped (seccomp, SIGSYS) and handed to the explorer, whichever
// library function made it. Calls on files the code under test does not open itself pass through.
#ifndef SYSX_H
#define SYSX_H
#include <errno.h>
#include <signal.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>
#include <ucontext.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
enum { K_OPEN, K_READ, K_WRITE, K_CLOSE, K_RENAME, K_LINK, K_UNLINK, K_STAT, K_FSTAT, K_SEEK, K_TRUNC, K_SYNC, K_LOCK, K_DIR, K_NUM };
static const char *K_NAME[] = { "open", "read", "write", "close", "rename", "link", "unlink", "stat", "fstat", "lseek", "truncate", "sync", "lock", "mkdir" };
typedef struct { long nr, a[6]; int kind, fd, oflags; const char *path, *path2; size_t len; } sxc_t;
static struct { volatile int on; long step; unsigned char fd[1024]; long ret; } sx;
// Called before a trapped call. Returns 1 when the call is answered by *ret (0 or -errno) and not executed.
static int (*sx_before)(sxc_t *c, long *ret) = NULL;
static void (*sx_after)(sxc_t *c, long ret) = NULL;

long sx_raw(long nr, long a, long b, long c, long d, long e, long f);
extern char sx_raw_ret[];
__asm__(".text\n.globl sx_raw\nsx_raw:\n mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n.globl sx_raw_ret\nsx_raw_ret:\n ret\n");
#define SXR(nr, ...) sx_raw_(nr, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define sx_raw_(nr, a, b, c, d, e, f, ...) sx_raw(nr, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

static int sx_sys_path(const char *p) {
  static const char *S[] = { "/dev/null", "/dev/z", "/dev/u", "/dev/tty", "/proc", "/sys", "/etc", "/usr", "/lib" };
  for (unsigned i = 0; i < sizeof(S) / sizeof(S[0]); i++) if (!strncmp(p, S[i], strlen(S[i]))) return 1;
  return 0;
}
static int sx_decode(sxc_t *c) { // 1: a call of interest
  const long *a = c->a; c->fd = -1; c->path = c->path2 = NULL; c->len = 0; c->oflags = 0;
  switch (c->nr) {
    case SYS_open: c->kind = K_OPEN; c->path = (char *)a[0]; c->oflags = (int)a[1]; break;
    case SYS_creat: c->kind = K_OPEN; c->path = (char *)a[0]; c->oflags = O_CREAT | O_TRUNC | O_WRONLY; break;
    case SYS_openat: c->kind = K_OPEN; c->path = (char *)a[1]; c->oflags = (int)a[2]; break;
    case SYS_read: case SYS_pread64: case SYS_readv: c->kind = K_READ; c->fd = (int)a[0]; c->len = a[2]; break;
    case SYS_write: case SYS_pwrite64: case SYS_writev: c->kind = K_WRITE; c->fd = (int)a[0]; c->len = a[2]; break;
    case SYS_close: c->kind = K_CLOSE; c->fd = (int)a[0]; break;
    case SYS_rename: c->kind = K_RENAME; c->path = (char *)a[0]; c->path2 = (char *)a[1]; break;
    case SYS_renameat: case SYS_renameat2: c->kind = K_RENAME; c->path = (char *)a[1]; c->path2 = (char *)a[3]; break;
    case SYS_link: case SYS_symlink: c->kind = K_LINK; c->path = (char *)a[0]; c->path2 = (char *)a[1]; break;
    case SYS_linkat: c->kind = K_LINK; c->path = (char *)a[1]; c->path2 = (char *)a[3]; break;
    case SYS_symlinkat: c->kind = K_LINK; c->path = (char *)a[0]; c->path2 = (char *)a[2]; break;
    case SYS_unlink: case SYS_rmdir: c->kind = K_UNLINK; c->path = (char *)a[0]; break;
    case SYS_unlinkat: c->kind = K_UNLINK; c->path = (char *)a[1]; break;
    case SYS_stat: case SYS_lstat: case SYS_access: c->kind = K_STAT; c->path = (char *)a[0]; break;
    case SYS_newfstatat: case SYS_statx: case SYS_faccessat: case SYS_faccessat2:
      if (((char *)a[1])[0]) { c->kind = K_STAT; c->path = (char *)a[1]; } else { c->kind = K_FSTAT; c->fd = (int)a[0]; }
      break;
    case SYS_fstat: c->kind = K_FSTAT; c->fd = (int)a[0]; break;
    case SYS_lseek: c->kind = K_SEEK; c->fd = (int)a[0]; break;
    case SYS_truncate: c->kind = K_TRUNC; c->path = (char *)a[0]; break;
    case SYS_ftruncate: c->kind = K_TRUNC; c->fd = (int)a[0]; break;
    case SYS_fsync: case SYS_fdatasync: c->kind = K_SYNC; c->fd = (int)a[0]; break;
    case SYS_flock: c->kind = K_LOCK; c->fd = (int)a[0]; break;
    case SYS_fcntl: if (a[1] != F_SETLK && a[1] != F_SETLKW && a[1] != F_GETLK) return 0; c->kind = K_LOCK; c->fd = (int)a[0]; break;
    case SYS_mkdir: c->kind = K_DIR; c->path = (char *)a[0]; break;
    case SYS_mkdirat: c->kind = K_DIR; c->path = (char *)a[1]; break;
    default: return 0;
  }
  if (c->path) return !sx_sys_path(c->path);
  return c->fd >= 3 && c->fd < 1024 && sx.fd[c->fd];
}
static void sx_sig(int s, siginfo_t *si, void *u) {
  ucontext_t *uc = (ucontext_t *)u; greg_t *r = uc->uc_mcontext.gregs;
  sxc_t c = { si->si_syscall, { r[REG_RDI], r[REG_RSI], r[REG_RDX], r[REG_R10], r[REG_R8], r[REG_R9] } };
  long ret = 0; int en = errno;
  if (c.nr == SYS_nanosleep || c.nr == SYS_clock_nanosleep) {
    if (!sx.on) ret = sx_raw(c.nr, c.a[0], c.a[1], c.a[2], c.a[3], c.a[4], c.a[5]);
  }
  else if (!sx.on || !sx_decode(&c)) {
    ret = sx_raw(c.nr, c.a[0], c.a[1], c.a[2], c.a[3], c.a[4], c.a[5]);
    if (c.nr == SYS_close && c.a[0] >= 0 && c.a[0] < 1024) sx.fd[c.a[0]] = 0;
  }
  else {
    if (!sx_before || !sx_before(&c, &ret)) ret = sx_raw(c.nr, c.a[0], c.a[1], c.a[2], c.a[3], c.a[4], c.a[5]);
    if (c.kind == K_OPEN && ret >= 0 && ret < 1024) sx.fd[ret] = 1;
    if (c.kind == K_CLOSE) sx.fd[c.fd] = 0;
    if (sx_after) sx_after(&c, ret);
  }
  errno = en;
  r[REG_RAX] = ret;
}
static void sx_install(void) {
  static const int NR[] = { SYS_open, SYS_creat, SYS_openat, SYS_read, SYS_pread64, SYS_readv, SYS_write, SYS_pwrite64, SYS_writev, SYS_close, SYS_rename, SYS_renameat, SYS_renameat2,
    SYS_link, SYS_symlink, SYS_linkat, SYS_symlinkat, SYS_unlink, SYS_rmdir, SYS_unlinkat, SYS_stat, SYS_lstat, SYS_access, SYS_newfstatat, SYS_statx, SYS_faccessat, SYS_faccessat2,
    SYS_fstat, SYS_lseek, SYS_truncate, SYS_ftruncate, SYS_fsync, SYS_fdatasync, SYS_flock, SYS_fcntl, SYS_mkdir, SYS_mkdirat, SYS_nanosleep, SYS_clock_nanosleep };
  enum { N = sizeof(NR) / sizeof(NR[0]) };
  struct sock_filter f[N + 8]; int i, n = 0; unsigned long ip = (unsigned long)sx_raw_ret;
  f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer));
  f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)ip, 0, 3);
  f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4);
  f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)(ip >> 32), 0, 1);
  f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
  for (i = 0; i < N; i++) f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)NR[i], (unsigned char)(N - i), 0);
  f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
  struct sock_fprog p = { (unsigned short)n, f };
  struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_sigaction = sx_sig; sa.sa_flags = SA_SIGINFO;
  if (sigaction(SIGSYS, &sa, NULL) || prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) { fprintf(stderr, "seccomp is not available\n"); exit(3); }
  // self-test
  static int seen; int fd;
  struct { int dummy; } d; (void)d;
  sx.on = 1; sx_after = NULL; seen = 0;
  fd = open("sx_selftest", O_RDWR | O_CREAT, 0600); seen = fd >= 0 && sx.fd[fd]; close(fd); unlink("sx_selftest");
  sx.on = 0;
  if (!seen) { fprintf(stderr, "system calls are not trapped\n"); exit(3); }
}
#endif
