// Runs a command and all its children as one simulated system: every file
// operation under PREFIX, every exec and every exit is a scheduling point at
// which the process is held until the driver lets it go on, fails the call,
// shortens it, or kills it.  Between scheduling points the tracer waits until
// every process is held, asleep in a blocking call, or gone.
//   tracer PREFIX REQ_FD CMD_FD command...
#define _GNU_SOURCE
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#ifndef PTRACE_EVENT_SECCOMP
#define PTRACE_EVENT_SECCOMP 7
#endif
#define MAXP 4096
enum { NEW, RUN, HELD, DEAD };
enum { K_NONE, K_SYS, K_EXEC, K_EXIT };
struct proc { pid_t pid; int st, kind, vfork, nchild, announced, stopfirst; char name[160], op[24], p1[1024], p2[1024], cmd[600]; long size, flags; int exitmsg; struct user_regs_struct regs; int tearing; };
static struct proc *P[MAXP]; static int np;
static char prefix[1024]; static size_t plen; static FILE *req; static int cmdfd; static pid_t root; static int root_status = -1, freerun = 0, dying = 0;

static void die(const char *s) { fprintf(stderr, "tracer: %s: %s\n", s, strerror(errno)); if (req) { fprintf(req, "!%s\n", s); fflush(req); } exit(99); }
static struct proc *find(pid_t pid) { for (int i = 0; i < np; i++) if (P[i]->pid == pid && P[i]->st != DEAD) return P[i]; return 0; }
static struct proc *byname(const char *n) { for (int i = 0; i < np; i++) if (P[i]->st != DEAD && !strcmp(P[i]->name, n)) return P[i]; return 0; }
static struct proc *add(pid_t pid) {
  if (np >= MAXP) die("too many processes");
  struct proc *p = calloc(1, sizeof *p); p->pid = pid; P[np++] = p; return p; }

static const int CALLS[] = { SYS_open, SYS_openat, SYS_creat, SYS_read, SYS_pread64, SYS_readv, SYS_write, SYS_pwrite64, SYS_writev,
  SYS_copy_file_range, SYS_sendfile, SYS_splice, SYS_rename, SYS_renameat, SYS_renameat2, SYS_unlink, SYS_unlinkat, SYS_mkdir, SYS_mkdirat,
  SYS_rmdir, SYS_ftruncate, SYS_truncate, SYS_close, SYS_link, SYS_linkat, SYS_symlink, SYS_symlinkat, SYS_fsync, SYS_fdatasync };
#define NC (sizeof CALLS / sizeof *CALLS)

static void filter(void) {
  struct sock_filter f[NC + 8]; int n = 0;
  f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, arch));
  f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, AUDIT_ARCH_X86_64, 1, 0);
  f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
  for (size_t i = 0; i < NC; i++) f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, CALLS[i], NC - i, 0);
  f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
  struct sock_fprog pr = { n, f };
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr)) { perror("seccomp"); _exit(98); }
}

static void getstr(pid_t pid, unsigned long a, char *out, size_t n) {
  size_t got = 0; out[0] = 0;
  while (got < n - 1) {
    size_t want = 256 - (a + got) % 256; if (want > n - 1 - got) want = n - 1 - got;
    struct iovec l = { out + got, want }, r = { (void *)(a + got), want };
    ssize_t k = process_vm_readv(pid, &l, 1, &r, 1, 0);
    if (k <= 0) break;
    for (ssize_t i = 0; i < k; i++) if (!out[got + i]) return;
    got += k;
  }
  out[got] = 0;
}
static void fdpath(pid_t pid, int fd, char *out, size_t n) {
  char b[64]; if (fd == AT_FDCWD) snprintf(b, sizeof b, "/proc/%d/cwd", pid); else snprintf(b, sizeof b, "/proc/%d/fd/%d", pid, fd);
  ssize_t k = readlink(b, out, n - 1); out[k > 0 ? k : 0] = 0;
}
static void norm(char *s) {   // collapse //, /./ and /../
  char o[2048]; size_t n = 0; char *q = s;
  while (*q) {
    while (*q == '/') q++;
    char *e = q; while (*e && *e != '/') e++;
    size_t l = e - q;
    if (l == 0) break;
    if (l == 1 && *q == '.') ;
    else if (l == 2 && q[0] == '.' && q[1] == '.') { while (n && o[--n] != '/') ; }
    else if (n + l + 2 < sizeof o) { o[n++] = '/'; memcpy(o + n, q, l); n += l; }
    q = e;
  }
  o[n] = 0; strcpy(s, n ? o : "/");
}
static void atpath(pid_t pid, int fd, unsigned long a, char *out, size_t n) {
  char s[700]; getstr(pid, a, s, sizeof s);
  if (s[0] == '/') snprintf(out, n, "%s", s);
  else { char d[300]; fdpath(pid, fd, d, sizeof d); snprintf(out, n, "%s/%s", d, s); }
  norm(out);
}
static int inside(const char *s) { return !strncmp(s, prefix, plen) && (s[plen] == 0 || s[plen] == '/'); }

static int classify(struct proc *p) {   // fills op, p1, p2, size; returns 1 when it is a scheduling point
  struct user_regs_struct *r = &p->regs; pid_t t = p->pid; int fdop = 0;
  p->p1[0] = p->p2[0] = 0; p->size = 0; p->flags = 0;
  const char *o = "?";
  switch (r->orig_rax) {
    case SYS_open: o = "open"; atpath(t, AT_FDCWD, r->rdi, p->p1, sizeof p->p1); p->flags = r->rsi; break;
    case SYS_creat: o = "open"; atpath(t, AT_FDCWD, r->rdi, p->p1, sizeof p->p1); p->flags = O_CREAT | O_WRONLY | O_TRUNC; break;
    case SYS_openat: o = "open"; atpath(t, (int)r->rdi, r->rsi, p->p1, sizeof p->p1); p->flags = r->rdx; break;
    case SYS_read: case SYS_pread64: o = "read"; fdop = 1; p->size = r->rdx; break;
    case SYS_readv: o = "readv"; fdop = 1; break;
    case SYS_write: case SYS_pwrite64: o = "write"; fdop = 1; p->size = r->rdx; break;
    case SYS_writev: o = "writev"; fdop = 1; p->size = 1; break;
    case SYS_ftruncate: o = "truncate"; fdop = 1; break;
    case SYS_truncate: o = "truncate"; atpath(t, AT_FDCWD, r->rdi, p->p1, sizeof p->p1); break;
    case SYS_close: o = "close"; fdop = 1; break;
    case SYS_fsync: case SYS_fdatasync: o = "fsync"; fdop = 1; break;
    case SYS_copy_file_range: case SYS_splice: o = "copy"; fdpath(t, (int)r->rdi, p->p2, sizeof p->p2); fdpath(t, (int)r->rdx, p->p1, sizeof p->p1); p->size = r->r8; break;
    case SYS_sendfile: o = "copy"; fdpath(t, (int)r->rdi, p->p1, sizeof p->p1); fdpath(t, (int)r->rsi, p->p2, sizeof p->p2); p->size = r->r10; break;
    case SYS_rename: o = "rename"; atpath(t, AT_FDCWD, r->rdi, p->p1, sizeof p->p1); atpath(t, AT_FDCWD, r->rsi, p->p2, sizeof p->p2); break;
    case SYS_renameat: case SYS_renameat2: o = "rename"; atpath(t, (int)r->rdi, r->rsi, p->p1, sizeof p->p1); atpath(t, (int)r->rdx, r->r10, p->p2, sizeof p->p2); break;
    case SYS_link: o = "link"; atpath(t, AT_FDCWD, r->rdi, p->p1, sizeof p->p1); atpath(t, AT_FDCWD, r->rsi, p->p2, sizeof p->p2); break;
    case SYS_linkat: o = "link"; atpath(t, (int)r->rdi, r->rsi, p->p1, sizeof p->p1); atpath(t, (int)r->rdx, r->r10, p->p2, sizeof p->p2); break;
    case SYS_symlink: o = "symlink"; atpath(t, AT_FDCWD, r->rsi, p->p1, sizeof p->p1); break;
    case SYS_symlinkat: o = "symlink"; atpath(t, (int)r->rsi, r->rdx, p->p1, sizeof p->p1); break;
    case SYS_unlink: o = "unlink"; atpath(t, AT_FDCWD, r->rdi, p->p1, sizeof p->p1); break;
    case SYS_unlinkat: o = (r->rdx & AT_REMOVEDIR) ? "rmdir" : "unlink"; atpath(t, (int)r->rdi, r->rsi, p->p1, sizeof p->p1); break;
    case SYS_rmdir: o = "rmdir"; atpath(t, AT_FDCWD, r->rdi, p->p1, sizeof p->p1); break;
    case SYS_mkdir: o = "mkdir"; atpath(t, AT_FDCWD, r->rdi, p->p1, sizeof p->p1); break;
    case SYS_mkdirat: o = "mkdir"; atpath(t, (int)r->rdi, r->rsi, p->p1, sizeof p->p1); break;
    default: return 0;
  }
  if (fdop) fdpath(t, (int)r->rdi, p->p1, sizeof p->p1);
  snprintf(p->op, sizeof p->op, "%s", o);
  return inside(p->p1) || (p->p2[0] && inside(p->p2));
}

static void cont(struct proc *p, int how, int sig) {
  p->st = RUN;
  if (ptrace(how, p->pid, 0, sig) && errno != ESRCH) die("cont");
}
static void readcmd(struct proc *p) {
  char b[64]; snprintf(b, sizeof b, "/proc/%d/cmdline", p->pid);
  int fd = open(b, O_RDONLY | O_CLOEXEC); if (fd < 0) return;
  ssize_t k = read(fd, p->cmd, sizeof p->cmd - 1); close(fd); if (k < 0) k = 0; p->cmd[k] = 0;
  for (ssize_t i = 0; i < k; i++) if (p->cmd[i] < 32) p->cmd[i] = i == k - 1 ? 0 : p->cmd[i] ? '?' : ' ';
}
static void hold(struct proc *p, int kind, const char *op) { p->st = HELD; p->kind = kind; if (op) { snprintf(p->op, sizeof p->op, "%s", op); p->p1[0] = p->p2[0] = 0; p->size = 0; p->flags = 0; } }
static void killp(struct proc *p) { kill(p->pid, SIGKILL); if (p->st == HELD) cont(p, PTRACE_CONT, 0); }   // also ends a wait at its exit
static void killall_(void) { dying = 1; for (int i = 0; i < np; i++) if (P[i]->st != DEAD) killp(P[i]); }
static int alive(void) { int n = 0; for (int i = 0; i < np; i++) n += P[i]->st != DEAD; return n; }

static void event(pid_t pid, int status) {
  struct proc *p = find(pid);
  if (!p) { if (WIFEXITED(status) || WIFSIGNALED(status)) return; p = add(pid); p->st = NEW; if (dying) { strcpy(p->name, "?"); kill(pid, SIGKILL); cont(p, PTRACE_CONT, 0); return; } }
  if (WIFEXITED(status) || WIFSIGNALED(status)) {
    int c = WIFEXITED(status) ? WEXITSTATUS(status) : 128 + WTERMSIG(status);
    if (pid == root) root_status = c;
    if (!p->name[0]) snprintf(p->name, sizeof p->name, "?");
    fprintf(req, "x\t%s\t%d\t%s\n", p->name, c, p->cmd); p->st = DEAD; return;
  }
  int sig = WSTOPSIG(status), ev = status >> 16;
  if (p->st == NEW) {                     // first stop of a new process
    if (p->name[0]) { cont(p, PTRACE_CONT, 0); } else p->stopfirst = 1;
    return;
  }
  if (ev == PTRACE_EVENT_FORK || ev == PTRACE_EVENT_VFORK || ev == PTRACE_EVENT_CLONE) {
    unsigned long m; ptrace(PTRACE_GETEVENTMSG, pid, 0, &m);
    struct proc *c = find((pid_t)m); if (!c) { c = add((pid_t)m); c->st = NEW; }
    if (dying) kill(c->pid, SIGKILL);
    if (snprintf(c->name, sizeof c->name, "%s.%d", p->name, p->nchild++) >= (int)sizeof c->name) die("process tree too deep");
    memcpy(c->cmd, p->cmd, sizeof c->cmd);
    if (ev == PTRACE_EVENT_VFORK) p->vfork = 1;
    if (c->stopfirst) { c->stopfirst = 0; cont(c, PTRACE_CONT, 0); }
    cont(p, PTRACE_CONT, 0); return;
  }
  if (ev == PTRACE_EVENT_VFORK_DONE) { p->vfork = 0; cont(p, PTRACE_CONT, 0); return; }
  if (ev == PTRACE_EVENT_EXEC) { readcmd(p); if (freerun) cont(p, PTRACE_CONT, 0); else hold(p, K_EXEC, "exec"); return; }
  if (ev == PTRACE_EVENT_EXIT) {
    unsigned long m; ptrace(PTRACE_GETEVENTMSG, pid, 0, &m); p->exitmsg = (int)m;
    if (freerun || WIFSIGNALED(p->exitmsg)) cont(p, PTRACE_CONT, 0); else { hold(p, K_EXIT, "exit"); p->size = WEXITSTATUS(p->exitmsg); } return; }
  if (ev == PTRACE_EVENT_SECCOMP) {
    if (freerun) { cont(p, PTRACE_CONT, 0); return; }
    if (ptrace(PTRACE_GETREGS, pid, 0, &p->regs)) { if (errno == ESRCH) return; die("getregs"); }
    if (classify(p)) hold(p, K_SYS, 0); else cont(p, PTRACE_CONT, 0);
    return;
  }
  if (sig == (SIGTRAP | 0x80)) {          // exit of a torn call: now everything dies
    if (p->tearing) { killall_(); p->tearing = 0; }
    cont(p, PTRACE_CONT, 0); return;
  }
  if (ev == 0 && sig == SIGTRAP) { cont(p, PTRACE_CONT, 0); return; }
  cont(p, PTRACE_CONT, sig == SIGSTOP ? 0 : sig);
}

// asleep in a call that waits for another process (not on its way through execve, a page fault, ...)
static int asleep(struct proc *p, int any) {
  char b[64], s[512]; snprintf(b, sizeof b, "/proc/%d/stat", p->pid);
  int fd = open(b, O_RDONLY | O_CLOEXEC); if (fd < 0) return 0;
  ssize_t k = read(fd, s, sizeof s - 1); close(fd); if (k <= 0) return 0; s[k] = 0;
  char *q = strrchr(s, ')'); if (!q) return 0;
  if (q[2] == 'D' && p->vfork) return 1;
  if (q[2] != 'S') return 0;
  if (any) return 1;
  snprintf(b, sizeof b, "/proc/%d/syscall", p->pid);
  fd = open(b, O_RDONLY | O_CLOEXEC); if (fd < 0) return 0;
  k = read(fd, s, sizeof s - 1); close(fd); if (k <= 0) return 0; s[k] = 0;
  if (s[0] < '0' || s[0] > '9') return 0;
  switch (atoi(s)) {
    case SYS_wait4: case SYS_waitid: case SYS_read: case SYS_readv: case SYS_write: case SYS_writev: case SYS_poll: case SYS_ppoll: case SYS_select:
    case SYS_pselect6: case SYS_epoll_wait: case SYS_epoll_pwait: case SYS_futex: case SYS_nanosleep: case SYS_clock_nanosleep: case SYS_pause:
    case SYS_rt_sigsuspend: case SYS_rt_sigtimedwait: case SYS_flock: case SYS_splice: case SYS_sendfile: case SYS_restart_syscall: return 1;
  }
  return 0;
}

// waits until every process is held, asleep or gone
static void settle(void) {
  int quiet = 0; long nap = 20, spent = 0;
  while (alive()) {
    int status; pid_t pid = waitpid(-1, &status, __WALL | WNOHANG);
    if (pid > 0) { event(pid, status); quiet = 0; nap = 20; spent = 0; continue; }
    if (pid < 0 && errno == ECHILD) { for (int i = 0; i < np; i++) P[i]->st = DEAD; return; }
    int busy = 0, running = 0;
    for (int i = 0; i < np && !busy; i++) {
      if (P[i]->st == NEW) busy = 1;
      else if (P[i]->st == RUN) { running = 1; if (!asleep(P[i], spent > 2000000)) busy = 1; }
    }
    if (!busy) { if (!running || ++quiet >= 3) { pid = waitpid(-1, &status, __WALL | WNOHANG); if (pid > 0) { event(pid, status); quiet = 0; continue; } return; } }
    else quiet = 0;
    struct timespec ts = { 0, nap * 1000 }; nanosleep(&ts, 0); spent += nap; if (busy && nap < 400) nap += nap / 2;
  }
}

static void readline(char *b, size_t n) {
  size_t k = 0; while (k < n - 1) { ssize_t r = read(cmdfd, b + k, 1); if (r <= 0) { killall_(); exit(97); } if (b[k] == '\n') break; k++; } b[k] = 0;
}

int main(int argc, char **argv) {
  if (argc < 5) return 96;
  snprintf(prefix, sizeof prefix, "%s", argv[1]); plen = strlen(prefix);
  req = fdopen(atoi(argv[2]), "w"); cmdfd = atoi(argv[3]);
  fcntl(atoi(argv[2]), F_SETFD, FD_CLOEXEC); fcntl(cmdfd, F_SETFD, FD_CLOEXEC);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  root = fork();
  if (root < 0) die("fork");
  if (!root) {
    if (ptrace(PTRACE_TRACEME, 0, 0, 0)) { perror("traceme"); _exit(98); }
    kill(getpid(), SIGSTOP);
    filter();
    execvp(argv[4], argv + 4); perror(argv[4]); _exit(127);
  }
  int status; if (waitpid(root, &status, 0) < 0 || !WIFSTOPPED(status)) die("ptrace refused");
  if (ptrace(PTRACE_SETOPTIONS, root, 0, PTRACE_O_TRACESECCOMP | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACECLONE | PTRACE_O_TRACEEXEC |
             PTRACE_O_TRACEEXIT | PTRACE_O_TRACEVFORKDONE | PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL)) die("setoptions");
  struct proc *p = add(root); strcpy(p->name, "0"); cont(p, PTRACE_CONT, 0);
  for (;;) {
    settle();
    if (!alive()) { fprintf(req, "E\t%d\n", root_status); fflush(req); return 0; }
    int held = 0;
    for (int i = 0; i < np; i++) held += P[i]->st == HELD;
    if (!held) {                          // nobody can go on: make sure for three seconds
      int woke = 0, st; pid_t e;
      for (int k = 0; k < 600 && !woke; k++) { struct timespec ts = { 0, 5000000 }; nanosleep(&ts, 0); if ((e = waitpid(-1, &st, __WALL | WNOHANG)) > 0) { event(e, st); woke = 1; } }
      if (woke) continue;
    }
    for (int i = 0; i < np; i++) if (P[i]->st == HELD) {
      fprintf(req, "h\t%s\t%s\t%s\t%s\t%ld\t%ld\t%s\n", P[i]->name, P[i]->op, P[i]->p1, P[i]->p2, P[i]->size, P[i]->flags, P[i]->cmd); }
    for (int i = 0; i < np; i++) if (P[i]->st == RUN) fprintf(req, "b\t%s\n", P[i]->name);
    fprintf(req, held ? "Q\n" : "D\n"); fflush(req);
    char b[256], name[200]; long v = 0; readline(b, sizeof b);
    if (b[0] == 'K') { freerun = 1; killall_(); continue; }
    if (b[0] == 'F') { freerun = 1; for (int i = 0; i < np; i++) if (P[i]->st == HELD) cont(P[i], PTRACE_CONT, 0); continue; }
    if (sscanf(b + 1, " %199s %ld", name, &v) < 1) die("bad command");
    struct proc *q = byname(name); if (!q || (q->st != HELD && b[0] != 'X')) die("bad process");
    if (b[0] == 'X') { kill(q->pid, (int)v); if (q->st == HELD) cont(q, PTRACE_CONT, 0); continue; }
    if (b[0] == 'G') { cont(q, PTRACE_CONT, 0); continue; }
    if (b[0] == 'E') { q->regs.orig_rax = -1; q->regs.rax = -v; if (ptrace(PTRACE_SETREGS, q->pid, 0, &q->regs)) die("setregs"); cont(q, PTRACE_CONT, 0); continue; }
    if (b[0] == 'S' || b[0] == 'T') {
      if (q->regs.orig_rax == SYS_copy_file_range || q->regs.orig_rax == SYS_splice) q->regs.r8 = v; else if (q->regs.orig_rax == SYS_sendfile) q->regs.r10 = v;
      else q->regs.rdx = v;
      if (ptrace(PTRACE_SETREGS, q->pid, 0, &q->regs)) die("setregs");
      if (b[0] == 'T') { q->tearing = 1; freerun = 1; for (int i = 0; i < np; i++) if (P[i] != q && P[i]->st == HELD) killp(P[i]); cont(q, PTRACE_SYSCALL, 0); continue; }
      cont(q, PTRACE_CONT, 0); continue;
    }
    die("bad command");
  }
}
