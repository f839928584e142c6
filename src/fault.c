// Preloaded into the command-line tool: numbers every I/O system call it makes
// on its standard streams and scratch files, and fails one of them on request.
// System calls are trapped with seccomp (SIGSYS), so buffered stdio is covered.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>
#include "fault.h"

static struct FaultShm* shm;
static char dir[512];
static size_t dirlen;
static struct { char file; char broken; int nth; } fds[256];   // file: d/t/x/i/o, nth: how often the file was opened
static int opens[128];

__asm__(".text\n.p2align 12\n.globl vp_raw\n.hidden vp_raw\nvp_raw:\n"
        "mov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\nmov %r8,%r10\nmov %r9,%r8\nmov 8(%rsp),%r9\n"
        "syscall\nret\n.globl vp_raw_end\n.hidden vp_raw_end\nvp_raw_end:\n.p2align 12\n");
extern long vp_raw(long nr, long a, long b, long c, long d, long e, long f);
extern char vp_raw_end[];

static long Event1(char kind, int fd, long nr, long* a) {
  // returns the result of the call
  int n = shm->events++;
  char file = fds[fd & 255].file;
  if (n < FAULT_MAX) { shm->kind[n] = kind; shm->file[n] = file; shm->nth[n] = fds[fd & 255].nth; }
  int data = kind == 'r' || kind == 'w', vec = nr == SYS_readv || nr == SYS_writev;
  int act = n == shm->at ? shm->action : n == shm->at2 ? shm->action2 : 0;
  int arg = n == shm->at ? shm->arg : shm->arg2;
  if (shm->action == F_DRIP && n >= shm->at && data && a[2] > shm->arg && nr != SYS_readv && nr != SYS_writev) { shm->hits++; a[2] = shm->arg; act = 0; }
  if (fds[fd & 255].broken && data) { shm->hits++; return kind == 'w' ? -ENOSPC : -EIO; }
  if (act) {
    shm->hits++;
    switch (act) {
      case F_EIO: if (kind == 'c') { vp_raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]); fds[fd & 255].file = 0; } return -EIO;
      case F_ENOSPC: return -ENOSPC;
      case F_EINTR: return -EINTR;
      case F_SHORT: if (data && vec) shm->hits--; else if (data && arg > 0 && arg < a[2]) a[2] = arg; else if (data && a[2] > 1) a[2] /= 2; else shm->hits--; break;
      case F_SHORT_THEN_BROKEN: if (data && !vec && arg > 0 && arg < a[2]) a[2] = arg; else if (data && !vec && a[2] > 1) a[2] /= 2; fds[fd & 255].broken = 1; break;
      case F_BROKEN: fds[fd & 255].broken = 1; return kind == 'w' ? -ENOSPC : -EIO;
      case F_EOF: return 0;
      case F_SWAP: {
        char from[600]; size_t l = strlen(dir); memcpy(from, dir, l); memcpy(from + l, "/alt", 5);
        if (kind != 'o' || vp_raw(SYS_rename, (long)from, nr == SYS_open ? a[0] : a[1], 0, 0, 0, 0)) shm->hits--;
        break;
      }
      case F_FLIP: {
        long r = vp_raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
        if (kind == 'r' && nr != SYS_readv && r > 0) ((char*)a[1])[(shm->arg % r)] ^= 1; else shm->hits--;
        return r;
      }
    }
  }
  return vp_raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
static long Event(char kind, int fd, long nr, long* a) {
  int n = shm->events;
  long r = Event1(kind, fd, nr, a);
  if (n < FAULT_MAX) shm->ret[n] = (int)r;
  return r;
}
static void OnSys(int sig, siginfo_t* si, void* uc_) {
  (void)sig;
  ucontext_t* uc = (ucontext_t*)uc_;
  greg_t* g = uc->uc_mcontext.gregs;
  long nr = si->si_syscall;
  long a[6] = {g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]};
  long r;
  int fd = (int)a[0];
  int tracked = fd >= 0 && fd < 256 && fds[fd].file;
  switch (nr) {
    case SYS_openat: case SYS_open: {
      const char* path = (const char*)(nr == SYS_open ? a[0] : a[1]);
      if (path && strncmp(path, dir, dirlen) == 0) {
        char f = path[dirlen] == '/' ? path[dirlen + 1] : '?';
        fds[255].file = f; fds[255].nth = opens[f & 127];
        r = Event('o', 255, nr, a);
        fds[255].file = 0;
        if (r >= 0 && r < 255) { fds[r].file = f; fds[r].broken = 0; fds[r].nth = opens[f & 127]++; }
      } else r = vp_raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
      break;
    }
    case SYS_close:
      if (tracked) { r = Event('c', fd, nr, a); if (r == 0) fds[fd].file = 0; }
      else r = vp_raw(nr, a[0], 0, 0, 0, 0, 0);
      break;
    case SYS_read: case SYS_pread64:
      r = tracked ? Event('r', fd, nr, a) : vp_raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]); break;
    case SYS_readv:
      r = tracked ? Event('r', fd, nr, a) : vp_raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]); break;
    case SYS_write: case SYS_pwrite64: case SYS_writev:
      r = tracked ? Event('w', fd, nr, a) : vp_raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]); break;
    case SYS_lseek:
      r = tracked ? Event('s', fd, nr, a) : vp_raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]); break;
    default:
      r = vp_raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
  }
  g[REG_RAX] = r;
}
__attribute__((constructor)) static void Init(void) {
  const char* s = getenv("VP_FAULT_SHM"); const char* d = getenv("VP_FAULT_DIR");
  if (!s || !d) return;
  int fd = open(s, O_RDWR);
  if (fd < 0) _exit(121);
  shm = (struct FaultShm*)mmap(NULL, sizeof *shm, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  if (shm == MAP_FAILED) _exit(121);
  strncpy(dir, d, sizeof dir - 1); dirlen = strlen(dir);
  fds[0].file = 'i'; fds[1].file = 'o';
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = OnSys; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSYS, &sa, NULL);
  uint64_t lo = (uint64_t)(uintptr_t)&vp_raw, hi = (uint64_t)(uintptr_t)vp_raw_end;
  uint32_t nrs[] = {SYS_read, SYS_write, SYS_readv, SYS_writev, SYS_pread64, SYS_pwrite64, SYS_lseek, SYS_open, SYS_openat, SYS_close};
  struct sock_filter f[40]; int n = 0;
#define S(c, v) f[n++] = (struct sock_filter)BPF_STMT(c, v)
#define J(c, v, t, e) f[n++] = (struct sock_filter)BPF_JUMP(c, v, t, e)
  int k = (int)(sizeof nrs / sizeof *nrs);
  // instruction pointer inside vp_raw: allow (the range does not cross 4 GB: it is page aligned and tiny)
  S(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4);
  J(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(lo >> 32), 0, 4);
  S(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer));
  J(BPF_JMP | BPF_JGE | BPF_K, (uint32_t)lo, 0, 2);
  J(BPF_JMP | BPF_JGT | BPF_K, (uint32_t)hi, 1, 0);
  S(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  S(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
  for (int i = 0; i < k; i++) J(BPF_JMP | BPF_JEQ | BPF_K, nrs[i], k - i, 0);
  S(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  S(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
  struct sock_fprog p = {(unsigned short)n, f};
  shm->armed = 0;
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) _exit(122);
  shm->armed = 1;
}
