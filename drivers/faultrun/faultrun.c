// faultrun ROOT MODE K LOG CMD ARGS...
//
// Runs CMD and watches the file-system mutations its own threads (not the
// programs it starts) make below ROOT.  MODE:
//   list       let everything happen
//   kill       kill CMD right before the K-th mutation
//   short      halve the K-th mutation if it is a write, then kill CMD
//   errno=N    fail the K-th mutation with errno N
// LOG receives one line per mutation: INDEX OP PATH LENGTH.  Exits with the
// status of CMD, 137 when it was killed here.
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

static char root[PATH_MAX];
static size_t rootlen;
static pid_t child;
static FILE *lg;
static int count, target, done;
static enum { LIST, KILL, SHORT, ERR } mode;
static int err_no;

struct thr { pid_t tid; int in; int inject; };
static struct thr thrs[4096];
static int nthr;
static struct thr *thr(pid_t t) {
  for (int i = 0; i < nthr; i++) if (thrs[i].tid == t) return &thrs[i];
  if (nthr == 4096) exit(98);
  thrs[nthr].tid = t; thrs[nthr].in = 0; thrs[nthr].inject = 0;
  return &thrs[nthr++];
}

static int rdstr(unsigned long addr, char *buf) {
  size_t n = 0;
  while (n < PATH_MAX - 1) {
    size_t want = 256 - ((addr + n) & 255);
    if (want > PATH_MAX - 1 - n) want = PATH_MAX - 1 - n;
    struct iovec l = {buf + n, want}, r = {(void *)(addr + n), want};
    ssize_t k = process_vm_readv(child, &l, 1, &r, 1, 0);
    if (k <= 0) return -1;
    for (ssize_t i = 0; i < k; i++) if (!buf[n + i]) return 0;
    n += k;
  }
  return -1;
}

static void clean(char *p) {  // lexical cleaning of an absolute path
  char out[PATH_MAX]; size_t o = 0;
  for (char *s = p; *s;) {
    while (*s == '/') s++;
    char *e = strchrnul(s, '/');
    size_t n = e - s;
    if (n == 2 && !strncmp(s, "..", 2)) { while (o && out[--o] != '/') ; }
    else if (n && !(n == 1 && *s == '.')) { out[o++] = '/'; memcpy(out + o, s, n); o += n; }
    s = e;
  }
  if (!o) out[o++] = '/';
  out[o] = 0;
  strcpy(p, out);
}

static int atpath(int dirfd, unsigned long addr, char *out) {
  char s[PATH_MAX], link[64];
  if (rdstr(addr, s)) return -1;
  if (s[0] == '/') { strcpy(out, s); clean(out); return 0; }
  if (dirfd == AT_FDCWD) snprintf(link, sizeof link, "/proc/%d/cwd", child);
  else snprintf(link, sizeof link, "/proc/%d/fd/%d", child, dirfd);
  ssize_t n = readlink(link, out, PATH_MAX - 1);
  if (n < 0) return -1;
  out[n] = 0;
  if (strlen(out) + strlen(s) + 2 > PATH_MAX) return -1;
  strcat(out, "/"); strcat(out, s); clean(out);
  return 0;
}
static int fdpath(int fd, char *out) {
  char link[64];
  snprintf(link, sizeof link, "/proc/%d/fd/%d", child, fd);
  ssize_t n = readlink(link, out, PATH_MAX - 1);
  if (n < 0) return -1;
  out[n] = 0;
  return 0;
}
static int below(const char *p) { return !strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]); }

// classify returns the name of the mutation at a syscall entry, or NULL.
static const char *classify(struct user_regs_struct *r, char *path, long *len) {
  *len = 0;
  switch (r->orig_rax) {
  case SYS_open: case SYS_creat: {
    int fl = r->orig_rax == SYS_creat ? O_CREAT | O_WRONLY : (int)r->rsi;
    if (!(fl & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR))) return NULL;
    if (atpath(AT_FDCWD, r->rdi, path) || !below(path)) return NULL;
    return "open"; }
  case SYS_openat:
    if (!(r->rdx & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR))) return NULL;
    if (atpath((int)r->rdi, r->rsi, path) || !below(path)) return NULL;
    return "open";
  case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev:
    if (fdpath((int)r->rdi, path) || !below(path)) return NULL;
    *len = r->rdx;
    return "write";
  case SYS_copy_file_range:
    if (fdpath((int)r->rdx, path) || !below(path)) return NULL;
    return "copy";
  case SYS_sendfile: case SYS_ftruncate: case SYS_fchmod: case SYS_fallocate:
    if (fdpath((int)r->rdi, path) || !below(path)) return NULL;
    return "fdop";
  case SYS_rename: case SYS_link: case SYS_symlink:
    if (atpath(AT_FDCWD, r->rsi, path) || !below(path)) return NULL;
    return "rename";
  case SYS_renameat: case SYS_renameat2: case SYS_linkat:
    if (atpath((int)r->rdx, r->r10, path) || !below(path)) return NULL;
    return "rename";
  case SYS_symlinkat:
    if (atpath((int)r->rsi, r->rdx, path) || !below(path)) return NULL;
    return "rename";
  case SYS_unlink: case SYS_rmdir: case SYS_truncate: case SYS_chmod: case SYS_mkdir:
    if (atpath(AT_FDCWD, r->rdi, path) || !below(path)) return NULL;
    return r->orig_rax == SYS_mkdir ? "mkdir" : r->orig_rax == SYS_truncate ? "truncate" : r->orig_rax == SYS_chmod ? "chmod" : "unlink";
  case SYS_unlinkat: case SYS_mkdirat: case SYS_fchmodat:
    if (atpath((int)r->rdi, r->rsi, path) || !below(path)) return NULL;
    return r->orig_rax == SYS_mkdirat ? "mkdir" : r->orig_rax == SYS_unlinkat ? "unlink" : "chmod";
  }
  return NULL;
}

int main(int argc, char **argv) {
  if (argc < 6) return 99;
  if (!realpath(argv[1], root)) return 99;
  rootlen = strlen(root);
  if (!strcmp(argv[2], "list")) mode = LIST;
  else if (!strcmp(argv[2], "kill")) mode = KILL;
  else if (!strcmp(argv[2], "short")) mode = SHORT;
  else if (!strncmp(argv[2], "errno=", 6)) { mode = ERR; err_no = atoi(argv[2] + 6); }
  else return 99;
  target = atoi(argv[3]);
  lg = fopen(argv[4], "w");
  if (!lg) return 99;
  child = fork();
  if (!child) {
    fclose(lg);
    if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(99);
    raise(SIGSTOP);
    execvp(argv[5], argv + 5);
    _exit(127);
  }
  int st;
  if (waitpid(child, &st, 0) < 0 || !WIFSTOPPED(st)) return 99;
  if (ptrace(PTRACE_SETOPTIONS, child, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACECLONE | PTRACE_O_TRACEEXEC | PTRACE_O_EXITKILL)) return 99;
  thr(child);
  ptrace(PTRACE_SYSCALL, child, 0, 0);
  int status = 99;
  for (;;) {
    pid_t t = waitpid(-1, &st, __WALL);
    if (t < 0) break;
    if (WIFEXITED(st) || WIFSIGNALED(st)) {
      if (t == child) status = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
      continue;
    }
    int sig = WSTOPSIG(st), deliver = 0;
    struct thr *h = thr(t);
    if (sig == (SIGTRAP | 0x80)) {
      struct user_regs_struct r;
      if (ptrace(PTRACE_GETREGS, t, 0, &r)) continue;
      if (!h->in) {
        h->in = 1;
        char path[PATH_MAX]; long len;
        const char *op = done ? NULL : classify(&r, path, &len);
        if (op) {
          count++;
          fprintf(lg, "%d %s %s %ld\n", count, op, path + rootlen + (path[rootlen] == '/'), len);
          fflush(lg);
          if (count == target && mode != LIST) {
            if (mode == KILL) { done = 1; kill(child, SIGKILL); }
            else if (mode == SHORT) {
              if (!strcmp(op, "write") && len > 1 && (r.orig_rax == SYS_write || r.orig_rax == SYS_pwrite64)) {
                r.rdx = len / 2; ptrace(PTRACE_SETREGS, t, 0, &r); h->inject = 2;
              } else { h->inject = 2; }
            } else { r.orig_rax = -1; ptrace(PTRACE_SETREGS, t, 0, &r); h->inject = 1; done = 1; }
          }
        }
      } else {
        h->in = 0;
        if (h->inject == 1) { r.rax = -err_no; ptrace(PTRACE_SETREGS, t, 0, &r); h->inject = 0; }
        else if (h->inject == 2) { done = 1; h->inject = 0; kill(child, SIGKILL); }
      }
    } else if (st >> 16) {
      if (st >> 16 == PTRACE_EVENT_CLONE) {
        unsigned long nt; ptrace(PTRACE_GETEVENTMSG, t, 0, &nt); thr(nt);
      }
    } else if (sig == SIGSTOP) {
      deliver = 0;  // start of a new thread
    } else deliver = sig;
    ptrace(PTRACE_SYSCALL, t, 0, deliver);
  }
  fclose(lg);
  return status;
}
