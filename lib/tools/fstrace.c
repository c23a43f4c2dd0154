// Controlled execution of one or two programs at the granularity of the file
// system operations they make below a directory.
//
//   fstrace DIR list -- CMD...
//   fstrace DIR kill K -- CMD...          die just before operation K
//   fstrace DIR torn K N -- CMD...        operation K writes N/8 of its bytes, then die
//   fstrace DIR short K N -- CMD...       operation K writes N/8 of its bytes (at least one)
//   fstrace DIR fail K ERRNO -- CMD...    operation K fails
//   fstrace DIR sched K J -- A... -- B... A up to its operation K, B up to its operation J,
//                                         A to its end, B to its end
//
// The operations are printed on descriptor 9 if it is open.  Exit status is that of CMD
// (137 if it was killed here), for sched: status of A * 256 + B on descriptor 9.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

#define MAXT 256
typedef struct {
   pid_t pid;
   int   prog;
   bool  in, parked, blocked;
   int   act;                    // pending action at the exit of the system call
   unsigned long long orig;
} task_t;

static task_t tasks[MAXT];
static int ntasks, events[2], status[2] = { -1, -1 };
static char dir[PATH_MAX];
static size_t dirlen;
static enum { LIST, KILL, TORN, SHORT, FAIL, SCHED } mode;
static int arg_k = -1, arg_n = -1;

static void die(const char *m) { perror(m); exit(99); }

static void note(const char *fmt, ...)
{
   char buf[PATH_MAX + 100];
   va_list ap;
   va_start(ap, fmt);
   int n = vsnprintf(buf, sizeof buf, fmt, ap);
   va_end(ap);
   if (write(9, buf, n)) {}
}

static task_t *find(pid_t pid)
{
   for (int i = 0; i < ntasks; i++)
      if (tasks[i].pid == pid) return &tasks[i];
   return NULL;
}

static task_t *add(pid_t pid, int prog)
{
   for (int i = 0; i < ntasks; i++) {
      if (tasks[i].pid == 0) { tasks[i] = (task_t){ .pid = pid, .prog = prog }; return &tasks[i]; }
   }
   if (ntasks == MAXT) die("tasks");
   tasks[ntasks] = (task_t){ .pid = pid, .prog = prog };
   return &tasks[ntasks++];
}

static void peek_str(pid_t pid, unsigned long a, char *buf, size_t sz)
{
   size_t i = 0;
   while (i + sizeof(long) < sz) {
      errno = 0;
      long w = ptrace(PTRACE_PEEKDATA, pid, a + i, 0);
      if (errno) break;
      memcpy(buf + i, &w, sizeof w);
      if (memchr(&w, 0, sizeof w)) return;
      i += sizeof w;
   }
   buf[i < sz ? i : sz - 1] = '\0';
}

static void link_of(pid_t pid, const char *what, int fd, char *buf)
{
   char p[64];
   if (fd >= 0) snprintf(p, sizeof p, "/proc/%d/fd/%d", pid, fd);
   else snprintf(p, sizeof p, "/proc/%d/%s", pid, what);
   ssize_t n = readlink(p, buf, PATH_MAX - 1);
   buf[n < 0 ? 0 : n] = '\0';
}

static void path_arg(pid_t pid, int dfd, unsigned long a, char *buf)
{
   char s[PATH_MAX], base[PATH_MAX];
   peek_str(pid, a, s, sizeof s);
   if (s[0] == '/') { strcpy(buf, s); return; }
   link_of(pid, "cwd", dfd == AT_FDCWD ? -1 : dfd, base);
   snprintf(buf, PATH_MAX, "%.2000s/%.2000s", base, s);
}

static bool inside(const char *p)
{
   return strncmp(p, dir, dirlen) == 0 && (p[dirlen] == '/' || p[dirlen] == '\0');
}

// Is this system call an operation on the directory, and which file?
static const char *classify(pid_t pid, struct user_regs_struct *r, char *buf)
{
   switch (r->orig_rax) {
   case SYS_openat:
   case SYS_open:
      {
         bool at = r->orig_rax == SYS_openat;
         int fl = at ? r->rdx : r->rsi;
         path_arg(pid, at ? (int)r->rdi : AT_FDCWD, at ? r->rsi : r->rdi, buf);
         if (!inside(buf)) return NULL;
         if (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) return fl & (O_CREAT | O_TRUNC) ? "create" : "open";
         return mode == SCHED && !(fl & O_DIRECTORY) ? "read" : NULL;
      }
   case SYS_write: case SYS_pwrite64: case SYS_writev:
      link_of(pid, NULL, (int)r->rdi, buf);
      return inside(buf) ? "write" : NULL;
   case SYS_ftruncate: case SYS_fallocate:
      link_of(pid, NULL, (int)r->rdi, buf);
      return inside(buf) ? "truncate" : NULL;
   case SYS_rename:
      path_arg(pid, AT_FDCWD, r->rsi, buf);
      return inside(buf) ? "rename" : NULL;
   case SYS_renameat: case SYS_renameat2:
      path_arg(pid, (int)r->rdx, r->r10, buf);
      return inside(buf) ? "rename" : NULL;
   case SYS_unlink:
      path_arg(pid, AT_FDCWD, r->rdi, buf);
      return inside(buf) ? "unlink" : NULL;
   case SYS_unlinkat:
      path_arg(pid, (int)r->rdi, r->rsi, buf);
      return inside(buf) ? "unlink" : NULL;
   case SYS_mkdir:
      path_arg(pid, AT_FDCWD, r->rdi, buf);
      return inside(buf) ? "mkdir" : NULL;
   case SYS_mkdirat:
      path_arg(pid, (int)r->rdi, r->rsi, buf);
      return inside(buf) ? "mkdir" : NULL;
   case SYS_flock:
      link_of(pid, NULL, (int)r->rdi, buf);
      return mode == SCHED && inside(buf) ? (r->rsi & LOCK_UN ? "unlock" : "lock") : NULL;
   default:
      return NULL;
   }
}

static void kill_all(void)
{
   for (int i = 0; i < ntasks; i++)
      if (tasks[i].pid) kill(tasks[i].pid, SIGKILL);
}

static pid_t start(char **argv, int prog)
{
   pid_t p = fork();
   if (p < 0) die("fork");
   if (p == 0) {
      if (prog == 1) { // separate output
         int fd = open("/dev/null", O_WRONLY);
         if (fd >= 0 && getenv("FSTRACE_QUIET")) { dup2(fd, 1); dup2(fd, 2); }
      }
      close(9);
      ptrace(PTRACE_TRACEME, 0, 0, 0);
      raise(SIGSTOP);
      execvp(argv[0], argv);
      _exit(98);
   }
   int st;
   if (waitpid(p, &st, 0) != p || !WIFSTOPPED(st)) die("start");
   ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK |
          PTRACE_O_TRACEVFORK | PTRACE_O_EXITKILL);
   add(p, prog);
   return p;
}

static bool killed;

// Returns true if the task should stay stopped (it reached its scheduling point)
static bool on_syscall(task_t *t, int limit)
{
   struct user_regs_struct r;
   if (ptrace(PTRACE_GETREGS, t->pid, 0, &r) != 0) return false;
   if (!t->in) {
      char buf[PATH_MAX];
      const char *op = classify(t->pid, &r, buf);
      t->act = 0;
      if (op != NULL) {
         if (mode == SCHED && events[t->prog] == limit && !t->blocked)
            return true;         // not yet executed: stays at the entry
         if (!t->blocked) {
            int n = events[t->prog]++;
            note("%d %s %s %lld\n", n, op, buf + dirlen, op[0] == 'w' ? (long long)r.rdx : 0LL);
            if (n == arg_k && mode != SCHED && mode != LIST) {
               if (mode == KILL) { killed = true; kill_all(); return false; }
               else if (mode == FAIL) {
                  r.orig_rax = -1;
                  ptrace(PTRACE_SETREGS, t->pid, 0, &r);
                  t->act = 1;
               }
               else if ((mode == TORN || mode == SHORT) && r.orig_rax != SYS_writev && op[0] == 'w') {
                  unsigned long long c = r.rdx * arg_n / 8;
                  if (mode == SHORT && c == 0) c = 1;
                  r.rdx = c;
                  ptrace(PTRACE_SETREGS, t->pid, 0, &r);
                  t->act = mode == TORN ? 2 : 0;
               }
            }
         }
         if (r.orig_rax == SYS_flock && !(r.rsi & LOCK_UN)) {
            t->orig = r.rsi;
            r.rsi |= LOCK_NB;
            ptrace(PTRACE_SETREGS, t->pid, 0, &r);
            t->act = 3;
         }
         t->blocked = false;
      }
      t->in = true;
   }
   else {
      t->in = false;
      if (t->act == 1) {
         r.rax = -(long long)arg_n;
         ptrace(PTRACE_SETREGS, t->pid, 0, &r);
      }
      else if (t->act == 2) { killed = true; kill_all(); }
      else if (t->act == 3) {
         r.rsi = t->orig;
         bool busy = (long long)r.rax == -EWOULDBLOCK;
         if (busy) {             // try again later
            r.rip -= 2;
            r.rax = SYS_flock;
         }
         ptrace(PTRACE_SETREGS, t->pid, 0, &r);
         t->act = 0;
         if (busy) { t->blocked = true; return true; }
      }
      t->act = 0;
   }
   return false;
}

// Run program until it ends, reaches operation LIMIT or waits for a lock
static enum { ENDED, REACHED, WAITS } go(int prog, int limit)
{
   bool any = false;
   bool waits = false;
   for (int i = 0; i < ntasks; i++) {
      task_t *t = &tasks[i];
      if (t->pid && t->prog == prog) {
         if (t->parked) {
            t->parked = false;
            if (!t->blocked && !t->in) {   // held at the entry of a system call
               if (on_syscall(t, limit)) { t->parked = true; return REACHED; }
            }
            ptrace(PTRACE_SYSCALL, t->pid, 0, 0);
         }
         any = true;
      }
   }
   if (!any) return ENDED;
   for (;;) {
      int st;
      pid_t p = waitpid(-1, &st, __WALL);
      if (p < 0) return ENDED;
      task_t *t = find(p);
      if (t == NULL) {           // new thread or process seen before its parent reports it
         t = add(p, prog);
         ptrace(PTRACE_SYSCALL, p, 0, 0);
         continue;
      }
      if (WIFEXITED(st) || WIFSIGNALED(st)) {
         bool main_one = t == &tasks[t->prog];
         int pr = t->prog;
         t->pid = main_one ? -1 : 0;
         if (main_one) {
            t->pid = 0;
            status[pr] = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
            bool left = false;
            for (int i = 0; i < ntasks; i++)
               if (tasks[i].pid && tasks[i].prog == pr) left = true;
            if (!left || pr == prog) return ENDED;
         }
         continue;
      }
      int sig = WSTOPSIG(st);
      if (sig == (SIGTRAP | 0x80)) {
         if (on_syscall(t, limit)) {
            t->parked = true;
            waits = t->blocked;
            return waits ? WAITS : REACHED;
         }
         ptrace(PTRACE_SYSCALL, p, 0, 0);
      }
      else if (sig == SIGTRAP || (sig == SIGSTOP && !t->in && (st >> 16) == 0))
         ptrace(PTRACE_SYSCALL, p, 0, 0);   // ptrace events and initial stops
      else
         ptrace(PTRACE_SYSCALL, p, 0, sig);
   }
}

int main(int argc, char **argv)
{
   if (argc < 5 || realpath(argv[1], dir) == NULL) {
      if (argc < 5) return 99;
      snprintf(dir, sizeof dir, "%s", argv[1]);
   }
   dirlen = strlen(dir);
   static const char *names[] = { "list", "kill", "torn", "short", "fail", "sched" };
   int a = 3;
   for (mode = LIST; mode < SCHED && strcmp(names[mode], argv[2]); mode++);
   if (mode != LIST) arg_k = atoi(argv[a++]);
   if (mode >= TORN) arg_n = atoi(argv[a++]);
   if (strcmp(argv[a++], "--")) return 99;
   char **one = argv + a, **two = NULL;
   if (mode == SCHED) {
      for (; argv[a] && strcmp(argv[a], "--"); a++);
      argv[a] = NULL;
      two = argv + a + 1;
   }
   pid_t p1 = start(one, 0);
   if (mode != SCHED) {
      ptrace(PTRACE_SYSCALL, p1, 0, 0);
      while (go(0, -1) != ENDED);
      while (waitpid(-1, NULL, __WALL) > 0);
      return killed ? 137 : status[0];
   }
   start(two, 1);
   tasks[0].parked = tasks[1].parked = true;
   tasks[0].in = tasks[1].in = true;   // before exec: nothing to examine
   // the first stop of both is not at a system call
   tasks[0].in = tasks[1].in = false;
   for (int i = 0; i < 2; i++) { tasks[i].parked = false; }
   ptrace(PTRACE_SYSCALL, tasks[0].pid, 0, 0);
   bool started1 = false;
   int plan[4][2] = { { 0, arg_k }, { 1, arg_n }, { 0, -1 }, { 1, -1 } };
   int step = 0, waits = 0;
   while (status[0] < 0 || status[1] < 0) {
      int prog = step < 4 ? plan[step][0] : step % 2, lim = step < 4 ? plan[step][1] : -1;
      step++;
      if (status[prog] >= 0) continue;
      if (prog == 1 && !started1) { started1 = true; ptrace(PTRACE_SYSCALL, tasks[1].pid, 0, 0); }
      int res = go(prog, lim);
      if (res == WAITS) { if (++waits > 50) { note("deadlock\n"); kill_all(); return 98; } }
      else waits = 0;
   }
   note("status %d %d\n", status[0], status[1]);
   return 0;
}
