// Link-time replacements of library calls of the editor (see wraps.txt).
#include <sys/stat.h>
#include <string.h>
// A file called xd_* behaves as a file of another file system that happens to have the
// i-node number of the file f.
extern "C" {
int __real_stat(const char *, struct stat *);
int stat_event();
int __wrap_stat(const char *p, struct stat *s) {
  if (stat_event()) return -1;
  int r = __real_stat(p, s); struct stat t;
  if (!r && p && !strncmp(p, "xd_", 3) && !__real_stat("f", &t)) { s->st_ino = t.st_ino; s->st_dev = t.st_dev + 1; }
  return r;
}
int __real_fstat(int, struct stat *);
int fstat_event();
int __wrap_fstat(int fd, struct stat *s) {
  if (fstat_event()) return -1;
  int r = __real_fstat(fd, s); struct stat t, u;
  if (!r && !__real_stat("xd_f", &t) && t.st_ino == s->st_ino && t.st_dev == s->st_dev && !__real_stat("f", &u)) { s->st_ino = u.st_ino; s->st_dev = u.st_dev + 1; }
  return r;
}
}
// Keys are taken from the environment variable EDKEYS, separated by ':', not from a terminal.
#include <stdlib.h>
#include <stdio.h>
extern "C" char *__wrap_getpass(const char *) {
  static const char *k; static char buf[200]; static int init;
  if (!init) { init = 1; k = getenv("EDKEYS"); }
  if (!k) return nullptr;
  size_t n = 0; while (k[n] && k[n] != ':') ++n;
  if (n > sizeof buf - 1) n = sizeof buf - 1;
  memset(buf, 0, sizeof buf); memcpy(buf, k, n);
  if (k[n]) k += n + 1; else k = nullptr;
  return buf;
}
// ---- injection (see inj.hh) -----------------------------------------------------------
#include "inj.hh"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/file.h>
#include <sys/wait.h>
#include <spawn.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <dirent.h>
#include <sys/ioctl.h>
Inj *inj; static bool live, armed;
enum { COUNT, FAIL, SHORT, KILL, TORN, INT, HUP, WINCH };
#ifndef NOSYS
static void locker();
#endif
void inj_init() { inj = (Inj *) mmap(nullptr, sizeof *inj, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
void inj_reset() { inj->n = inj->off = inj->fired = inj->mark = 0; inj->sticky = 0; inj->swap = inj->rogue = 0; }
// hook: CLASSES:ACTION, e.g. "wr:fail"
void inj_arm(const std::string &h0, long k, long err, long w0, long w1, const std::string &tail) {
  inj->child = h0[1] == '/' ? h0[0] - '0' + 1 : 0; std::string h = inj->child ? h0.substr(2) : h0;
  size_t c = h.find(':'); std::string a = h.substr(c + 1);
  snprintf(inj->cls, sizeof inj->cls, "%s", h.substr(0, c).c_str());
  inj->act = a == "fail" || a == "failall" ? FAIL : a == "short" ? SHORT : a == "kill" ? KILL : a == "torn" ? TORN : a == "int" ? INT : a == "hup" ? HUP : a == "winch" ? WINCH : COUNT;
  inj->persist = a == "failall"; inj->k = k; inj->err = err; inj->w0 = w0; inj->w1 = w1;
  inj->nt = tail.size() < sizeof inj->tail ? tail.size() : 0; memcpy(inj->tail, tail.data(), inj->nt);
  if (inj->cls[0] == '=') { struct rlimit rl = {40, 40}; setrlimit(RLIMIT_NOFILE, &rl); }
#ifndef NOSYS
  if (!strcmp(inj->cls, "=l")) locker();
#endif
  inj->pid = getpid(); inj->mark = w0 < 0 ? 1 : 0; live = armed = true;
}
std::string inj_labels() { return std::string(inj->lab, inj->n < (long) sizeof inj->lab ? inj->n : sizeof inj->lab); }
static void mark_out() { char m = 1; syscall(SYS_write, 1, &m, 1); }
// Called when the editor is about to read standard input at offset inj->off.
static void swap_input();
static void at_read() {
  if (inj->swap) { inj->swap = 0; swap_input(); }
  if (inj->mark == 0 && inj->off >= inj->w0) { inj->mark = 1; mark_out(); }
  if (inj->mark == 1 && inj->w0 >= 0 && inj->off >= inj->w1) { inj->mark = 2; mark_out(); }
}
static void swap_input() {               // what follows the interrupted command
  int p[2]; if (syscall(SYS_pipe2, p, 0)) _exit(99);
  syscall(SYS_write, p[1], inj->tail, inj->nt); syscall(SYS_close, p[1]); syscall(SYS_dup2, p[0], 0); syscall(SYS_close, p[0]);
  inj->off = 1L << 60; live = true; inj->mark = 1; inj->w1 = inj->off;   // mark at next read
}
static bool busy;                        // the allocator is interrupted
#ifndef NOSYS
// hook "=": standard input is read byte by byte, and at each line "#=" what the process holds is recorded
extern "C" long mc_chunks();
extern "C" { pid_t __real_fork(); int __real___open(const char *, int, ...); int __real_flock(int, int); pid_t __real_waitpid(pid_t, int *, int); ssize_t __real___read(int, void *, size_t); }
static void measure() {
  int n = 0; for (int fd = 0; fd < 256; ++fd) if (fcntl(fd, F_GETFD) >= 0) ++n;
  siginfo_t si; memset(&si, 0, sizeof si); int z = !waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) && si.si_pid;
    if (inj->n + 80 < (long) sizeof inj->lab) inj->n += snprintf(inj->lab + inj->n, 80, "%d %d %ld\n", n, z, mc_chunks());
}
// hook "=k": which files are locked, as seen by another process
static void probe() {
  DIR *D = opendir("."); char nm[64][32]; int n = 0; if (D) { while (dirent *e = readdir(D)) if (e->d_type == DT_REG && n < 64 && strlen(e->d_name) < 32 && strncmp(e->d_name, "ln_", 3)) strcpy(nm[n++], e->d_name); closedir(D); }
  pid_t p = __real_fork();
  if (!p) {
    int st = 0; for (int i = 0; i < n; ++i) { int fd = __real___open(nm[i], O_RDONLY); if (fd < 0) continue; if (__real_flock(fd, LOCK_EX | LOCK_NB)) inj->n += snprintf(inj->lab + inj->n, 40, "%s,", nm[i]); syscall(SYS_close, fd); }
    inj->lab[inj->n++] = 10; syscall(SYS_exit_group, st);
  }
  int st; __real_waitpid(p, &st, 0);
}
// hook "=l": another process has locked all files
static void locker() {
  int p[2]; if (syscall(SYS_pipe2, p, 0)) return; pid_t me = getpid();
  if (__real_fork()) { char c; syscall(SYS_close, p[1]); __real___read(p[0], &c, 1); syscall(SYS_close, p[0]); return; }
  prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != me) syscall(SYS_exit_group, 0);
  if (DIR *D = opendir(".")) while (dirent *e = readdir(D)) if (e->d_type == DT_REG) { int fd = __real___open(e->d_name, O_RDWR); struct flock l; memset(&l, 0, sizeof l); l.l_type = F_WRLCK; if (fd >= 0) { __real_flock(fd, LOCK_EX | LOCK_NB); fcntl(fd, F_SETLK, &l); } }
  for (int i = 0; i < 3; ++i) syscall(SYS_close, i);
  syscall(SYS_close, p[1]); syscall(SYS_close, p[0]); for (;;) pause();
}
static ssize_t read_byte(void *b) {
  static int st = 0; ssize_t r = __real___read(0, b, 1); if (r <= 0) return r;
  char c = *(char *) b; st = c == '#' && st == 0 ? 1 : c == '=' && st == 1 ? 2 : c == 10 ? (st == 2 ? inj->cls[1] == 'k' ? probe() : measure() : (void) 0, 0) : 3;
  return r;
}
#endif
static void sig(int s) {
  if (s == SIGWINCH) { inj->fired = 1; raise(s); return; }
  inj->fired = 1; live = false;
  if (inj->child) { raise(s); return; }
  inj->w1 = -1;
  if (s == SIGINT) swap_input();
  raise(s);
}
// events of the process itself, or of one of its children
static int forks, me;                    // processes forked so far; number of this one
static inline bool other() { return inj->child ? me != inj->child : getpid() != inj->pid; }
// An event: returns 0 to proceed, 1 to fail (errno set), 2 to cut short
static int event(char c) {
  if (!live || inj->mark != 1 || !strchr(inj->cls, c) || other()) return 0;
  if (inj->sticky) { if (inj->sticky == c) { errno = inj->err; return 1; } return 0; }
  long n = __sync_fetch_and_add(&inj->n, 1); if (n < (long) sizeof inj->lab) inj->lab[n] = c;
  if (n != inj->k || inj->act == COUNT) return 0;
  inj->fired = 1;
  switch (inj->act) {
  case FAIL: if (inj->persist) inj->sticky = c; errno = inj->err; return 1;
  case SHORT: return 2;
  case KILL: kill(getpid(), SIGKILL); for (;;) pause();
  case TORN: return 3;
  case INT: sig(SIGINT); return 0;
  case HUP: sig(SIGHUP); return 0;
  case WINCH: {                          // a read that waits is interrupted unless calls are restarted
    sig(SIGWINCH); struct sigaction sa; sigaction(SIGWINCH, nullptr, &sa);
    if (sa.sa_handler == SIG_DFL || sa.sa_handler == SIG_IGN || (sa.sa_flags & SA_RESTART)) return 0;
    errno = EINTR; return 1; }
  }
  return 0;
}
static inline void tick() {
  if (__builtin_expect(!live, 1)) return;
  if (inj->mark != 1 || inj->cls[0] != 'n' || other()) return;
  long n = __sync_fetch_and_add(&inj->n, 1); if (n != inj->k) return;
  if (inj->act == INT) sig(SIGINT); else if (inj->act == HUP) sig(SIGHUP); else if (inj->act == WINCH) sig(SIGWINCH); else if (inj->act == KILL) { inj->fired = 1; kill(getpid(), SIGKILL); for (;;) pause(); }
}
extern "C" {
#define T(name) void name(void *) { tick(); }
T(__tsan_read1) T(__tsan_read2) T(__tsan_read4) T(__tsan_read8) T(__tsan_read16) T(__tsan_write1) T(__tsan_write2) T(__tsan_write4) T(__tsan_write8) T(__tsan_write16)
T(__tsan_unaligned_read2) T(__tsan_unaligned_read4) T(__tsan_unaligned_read8) T(__tsan_unaligned_write2) T(__tsan_unaligned_write4) T(__tsan_unaligned_write8) T(__tsan_unaligned_read16) T(__tsan_unaligned_write16)
T(__tsan_vptr_read)
void __tsan_vptr_update(void *, void *) { tick(); }
void __tsan_read_range(void *, size_t) { tick(); }
void __tsan_write_range(void *, size_t) { tick(); }
void __tsan_func_entry(void *) {} void __tsan_func_exit(void) {} void __tsan_init(void) {}

#ifndef NOSYS
static bool fifo(int fd) { struct stat s; return !__real_fstat(fd, &s) && S_ISFIFO(s.st_mode); }
// The window has the size inj->err = rows * 1000 + columns once the signal has arrived.
int __real_ioctl(int, unsigned long, ...);
int __wrap_ioctl(int fd, unsigned long q, void *p) {
  if (q == TIOCGWINSZ && armed && inj->act == WINCH && fd == 0) {
    if (!inj->fired) { errno = ENOTTY; return -1; }
    struct winsize *w = (struct winsize *) p; memset(w, 0, sizeof *w); w->ws_row = inj->err / 1000; w->ws_col = inj->err % 1000; return 0; }
  return __real_ioctl(fd, q, p);
}
int __real_isatty(int);
int __wrap_isatty(int fd) { return fd == 0 && armed && inj->act == WINCH ? 1 : __real_isatty(fd); }
static bool regular(int fd) { struct stat s; return fd > 2 && !__real_fstat(fd, &s) && S_ISREG(s.st_mode); }
ssize_t __real___write(int, const void *, size_t);
ssize_t __wrap___write(int fd, const void *b, size_t n) {
  if (fd > 2) switch (event('w')) { case 1: return -1;
    case 2: { if (n < 2) return __real___write(fd, b, n); return __real___write(fd, b, n / 2); }
    case 3: if (n > 1) __real___write(fd, b, n / 2); kill(getpid(), SIGKILL); for (;;) pause(); }
  ssize_t r = __real___write(fd, b, n); tick(); return r;
}
ssize_t __real___read(int, void *, size_t);
ssize_t __wrap___read(int fd, void *b, size_t n) {
  if (fd == 0 && armed && inj->child && getpid() != inj->pid) { inj->rogue = 1; _exit(0); }   // a child goes on as a second editor
  if ((live || (armed && inj->swap)) && fd == 0 && getpid() == inj->pid) { at_read(); if (event('i')) return -1; ssize_t r = inj->cls[0] == '=' ? read_byte(b) : __real___read(fd, b, n); if (r > 0 && live) inj->off += r; tick(); return r; }
  if (fd > 2 && (inj->cls[0] != 'i' || fifo(fd)) && event('r')) return -1;
  ssize_t r = __real___read(fd, b, n); tick(); return r;
}
off_t __real___lseek64(int, off_t, int);
off_t __wrap___lseek64(int fd, off_t o, int w) { if (fd > 2 && event('s')) return -1; return __real___lseek64(fd, o, w); }
off_t __real_lseek(int, off_t, int);
off_t __wrap_lseek(int fd, off_t o, int w) { if (fd > 2 && event('s')) return -1; return __real_lseek(fd, o, w); }
int __real___open(const char *, int, ...);
int __wrap___open(const char *p, int f, ...) { va_list a; va_start(a, f); int m = f & O_CREAT ? va_arg(a, int) : 0; va_end(a); if (event('o')) return -1; int r = __real___open(p, f, m); tick(); return r; }
int __real___open_nocancel(const char *, int, ...);
int __wrap___open_nocancel(const char *p, int f, ...) { va_list a; va_start(a, f); int m = f & O_CREAT ? va_arg(a, int) : 0; va_end(a); if (event('o')) return -1; return __real___open_nocancel(p, f, m); }
int __real___close_nocancel(int);
int __wrap___close_nocancel(int fd) { int e = live && regular(fd) ? event('c') : 0, r = __real___close_nocancel(fd); return e ? errno = inj->err, -1 : r; }
int __real___close(int);
int __wrap___close(int fd) { int e = live && regular(fd) ? event('c') : 0, r = __real___close(fd); return e ? errno = inj->err, -1 : r; }
int __real_close(int);
int __wrap_close(int fd) { int e = live && regular(fd) ? event('c') : 0, r = __real_close(fd); return e ? errno = inj->err, -1 : r; }
int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int fd, off_t o) { if (event('t')) return -1; return __real_ftruncate(fd, o); }
int __real_flock(int, int);
int __wrap_flock(int fd, int o) { if (event('L')) return -1; return __real_flock(fd, o); }
pid_t __real_fork(void);
pid_t __wrap_fork(void) { if (event('F')) return -1; if (live && inj->mark == 1 && getpid() == inj->pid) ++forks; pid_t p = __real_fork(); if (!p) { me = forks; live = live && me == inj->child; } else tick(); return p; }
pid_t __wrap_vfork(void) { return __wrap_fork(); }
int __real_pipe(int *);
int __wrap_pipe(int *p) { if (event('p')) return -1; return __real_pipe(p); }
int __real___pipe2(int *, int);
int __wrap___pipe2(int *p, int f) { if (event('p')) return -1; return __real___pipe2(p, f); }
int __real_dup2(int, int);
int __wrap_dup2(int a, int b) { if (live && inj->child && event('d')) return -1; return __real_dup2(a, b); }
int __real___posix_spawn(pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]);
int __wrap___posix_spawn(pid_t *p, const char *f, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *t, char *const v[], char *const e[]) { if (event('S')) return errno; return __real___posix_spawn(p, f, a, t, v, e); }
pid_t __real_waitpid(pid_t, int *, int);
pid_t __wrap_waitpid(pid_t p, int *s, int o) { pid_t r = __real_waitpid(p, s, o); tick(); return r; }
int __wrap_execl(const char *p, const char *a0, ...) {
  if (event('e')) return -1;
  const char *v[64]; int n = 0; v[n++] = a0; va_list a; va_start(a, a0); while (n < 63 && (v[n] = va_arg(a, const char *))) ++n; v[n] = nullptr; va_end(a);
  return execve(p, (char *const *) v, environ);
}
int __real_unlink(const char *);
int __wrap_unlink(const char *p) { if (event('u')) return -1; return __real_unlink(p); }
FILE *__real_freopen(const char *, const char *, FILE *);
FILE *__wrap_freopen(const char *p, const char *m, FILE *f) { return __real_freopen(p, m, f); }
const char *__real_rpl_re_compile_pattern(const char *, size_t, void *);
const char *__wrap_rpl_re_compile_pattern(const char *p, size_t n, void *b) { if (live && event('P')) return "Memory exhausted"; return __real_rpl_re_compile_pattern(p, n, b); }
static long chunks;
long mc_chunks() { return chunks; }
static inline void *got(void *p) { if (p) ++chunks; return p; }
void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void *__real_calloc(size_t, size_t);
static inline void in_alloc() { if (__builtin_expect(busy, 0)) { inj->fired |= 4; busy = false; } }
// A signal arrives while the allocator is at work: event b (called by the editor) or B (any).  What handles it must not use the allocator.
static void at_alloc(char c) {
  if (__builtin_expect(!armed, 1)) return;
  in_alloc();
  if (!live || !strchr(inj->cls, c) || inj->mark != 1 || other()) return;
  long n = __sync_fetch_and_add(&inj->n, 1); if (n < (long) sizeof inj->lab) inj->lab[n] = c;
  if (n != inj->k || inj->act == COUNT) return;
  busy = true; sig(inj->act == INT ? SIGINT : SIGHUP); busy = false;
}
void *__wrap_malloc(size_t n) { at_alloc('B'); if (live && event('m')) { errno = ENOMEM; return nullptr; } return got(__real_malloc(n)); }
void *__wrap_realloc(void *p, size_t n) { at_alloc('B'); if (live && event('m')) { errno = ENOMEM; return nullptr; } return p ? __real_realloc(p, n) : got(__real_malloc(n)); }
void *__wrap_calloc(size_t n, size_t m) { at_alloc('B'); if (live && event('m')) { errno = ENOMEM; return nullptr; } return got(__real_calloc(n, m)); }
void __real_free(void *);
void __wrap_free(void *p) { if (p) --chunks; __real_free(p); }
// the editor's own calls
void *mc_ed_malloc(size_t n) { at_alloc('b'); return __wrap_malloc(n); }
void *mc_ed_realloc(void *p, size_t n) { at_alloc('b'); return __wrap_realloc(p, n); }
void *mc_ed_calloc(size_t n, size_t m) { at_alloc('b'); return __wrap_calloc(n, m); }
void mc_ed_free(void *p) { if (p) at_alloc('b'); free(p); }
// those of the regular expression library are not made to fail here
void *mc_lib_malloc(size_t n) { in_alloc(); return got(__real_malloc(n)); }
void *mc_lib_realloc(void *p, size_t n) { in_alloc(); return p ? __real_realloc(p, n) : got(__real_malloc(n)); }
void *mc_lib_calloc(size_t n, size_t m) { in_alloc(); return got(__real_calloc(n, m)); }
#endif
}
extern "C" { int stat_event() { return event(120); } int fstat_event() { return event(121); } }
extern "C" const char *__asan_default_options() { return "exitcode=86:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0:quarantine_size_mb=8"; }
