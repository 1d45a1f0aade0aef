// Runs one Case on the real ed (linked in as ed_main) in a forked child confined to a
// scratch directory, as an unprivileged user.
#pragma once
#include "model.hh"
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <grp.h>
#include <errno.h>
#include <poll.h>
#include <time.h>
#include <sys/socket.h>
#include "inj.hh"

extern "C" int ed_main(int, char **);

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
inline Str slurp_fd(int fd) {
  Str r; char b[65536]; ssize_t n; off_t o = 0;
  while ((n = pread(fd, b, sizeof b, o)) > 0) { r.append(b, n); o += n; }
  return r;
}
inline Str slurp(const Str &p, bool *ok = nullptr) {
  int fd = open(p.c_str(), O_RDONLY | O_NOFOLLOW | O_NONBLOCK); if (ok) *ok = fd >= 0; if (fd < 0) return Str();
  Str r = slurp_fd(fd); close(fd); return r;
}
inline void spew(const Str &p, const Str &d, int mode = 0644) {
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, mode);
  if (fd < 0) { perror(p.c_str()); exit(9); }
  size_t o = 0; while (o < d.size()) { ssize_t n = write(fd, d.data() + o, d.size() - o); if (n <= 0) { perror("write"); exit(9); } o += n; }
  close(fd);
}
inline std::vector<Str> ls(const Str &d) {
  std::vector<Str> v; DIR *D = opendir(d.c_str()); if (!D) return v;
  while (dirent *e = readdir(D)) { Str n = e->d_name; if (n != "." && n != "..") v.push_back(n); }
  closedir(D); return v;
}
// remove the entries of a scratch directory (never follows links, never leaves it)
inline void wipe(const Str &d, bool self) {
  for (auto &n : ls(d)) {
    Str p = d + "/" + n; struct stat st;
    if (lstat(p.c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0700); wipe(p, true); } else unlink(p.c_str());
  }
  if (self) rmdir(d.c_str());
}

struct Server {
  Str root, dir, tmp; int outfd = -1, errfd = -1; long timeouts = 0; int devnull;
  std::vector<Str> left;                 // files left in TMPDIR by the last run
  Str last_err;
  bool check_tmp = false; bool keep_err = false; Str prewrite;
  static Str base() {
    static Str b; if (b.empty()) { b = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp"; } return b;
  }
  void init(const Str &r) {              // r: directory of this worker
    root = r; dir = r + "/d"; tmp = r + "/t";
    mkdir(root.c_str(), 0755); mkdir(dir.c_str(), 0755); mkdir(tmp.c_str(), 0755);
    outfd = memfd_create("out", MFD_CLOEXEC); errfd = memfd_create("err", MFD_CLOEXEC);
    devnull = open("/dev/null", O_RDWR | O_CLOEXEC);
    if (geteuid() == 0) {
      for (auto &d : {root, dir, tmp}) if (chown(d.c_str(), 65534, 65534)) {}
      if (setgroups(0, nullptr)) {}
      if (setresgid(65534, 65534, 65534)) {}
      if (setresuid(65534, 65534, 65534)) {}
      prctl(PR_SET_DUMPABLE, 1);
    }
    if (chdir(dir.c_str())) { perror("chdir"); exit(9); }
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    signal(SIGPIPE, SIG_IGN);
  }
  Result run(const Case &c, double limit) {
    for (auto &f : c.files) if (f.first.find('/') == Str::npos && f.first.compare(0, 3, "ln_") && f.first.compare(0, 3, "sl_")) spew(f.first, f.second, f.first.compare(0, 3, "ro_") == 0 || f.first == "ed.hup" ? 0444 : 0644);
    for (auto &f : c.files) {
      Str p3 = f.first.substr(0, 3);
      if (p3 == "ln_") { if (link(f.first.substr(3).c_str(), f.first.c_str())) { perror("link"); exit(9); } }
      else if (p3 == "sl_") { if (symlink(f.first.substr(3).c_str(), f.first.c_str())) { perror("symlink"); exit(9); } }
    }
    if (ftruncate(outfd, 0) || ftruncate(errfd, 0)) {}
    lseek(outfd, 0, SEEK_SET); lseek(errfd, 0, SEEK_SET);
    int p[2] = {-1, -1};
    if (c.seekable) {
      p[0] = memfd_create("in", MFD_CLOEXEC);
      if (write(p[0], c.input.data(), c.input.size()) != (ssize_t) c.input.size()) { perror("memfd"); exit(9); }
      lseek(p[0], 0, SEEK_SET);
    } else {
      if (pipe2(p, O_CLOEXEC)) { perror("pipe"); exit(9); }
      if (c.input.size() > 60000) fcntl(p[1], F_SETPIPE_SZ, 1 << 20);
      fcntl(p[1], F_SETFL, O_NONBLOCK);
      if (write(p[1], c.input.data(), c.input.size()) != (ssize_t) c.input.size()) { fprintf(stderr, "input too large\n"); exit(9); }
      close(p[1]);
    }
    fflush(stdout);
    if (!c.hook.empty()) inj_reset();
    pid_t k = fork();
    if (k < 0) { perror("fork"); exit(9); }
    if (!k) {
      setpgid(0, 0);
      dup2(p[0], 0); dup2(outfd, 1); dup2(c.err2out ? outfd : keep_err ? errfd : devnull, 2);
      clearenv();
      setenv("PATH", "/usr/local/bin:/usr/bin:/bin", 1); setenv("TMPDIR", tmp.c_str(), 1); setenv("HOME", dir.c_str(), 1);
      setenv("SHELL", "/bin/sh", 1);
      setenv("LC_ALL", "C", 1);
      for (auto &e : c.env) setenv(e.first.c_str(), e.second.c_str(), 1);
      struct itimerval it = {{0, 0}, {(long) limit, (long) ((limit - (long) limit) * 1e6)}};
      setitimer(ITIMER_REAL, &it, nullptr);
      signal(SIGPIPE, SIG_DFL);
      std::vector<char *> av; av.push_back((char *) c.argv0.c_str());
      for (auto &a : c.args) av.push_back(strdup(a.c_str()));
      av.push_back(nullptr); int ac = av.size() - 1; char **v = av.data();
      if (!c.hook.empty()) { inj_arm(c.hook, c.hv, c.hw, c.w0, c.w1, c.tail); }
      exit(ed_main(ac, v));
    }
    close(p[0]);
    int st;
    while (waitpid(k, &st, 0) < 0 && errno == EINTR);
    Result r;
    if (WIFSIGNALED(st)) { r.status = 1000 + WTERMSIG(st); kill(-k, SIGKILL); }
    else r.status = WEXITSTATUS(st);
    r.out = slurp_fd(outfd);
    if (keep_err) last_err = slurp_fd(errfd);
    for (auto &n : ls(".")) {
      struct stat s; if (lstat(n.c_str(), &s)) continue;
      if (S_ISREG(s.st_mode)) { if (!(s.st_mode & 0400)) chmod(n.c_str(), 0600); r.files[n] = slurp(n); unlink(n.c_str()); }
      else if (S_ISLNK(s.st_mode)) { char b[500]; ssize_t z = readlink(n.c_str(), b, sizeof b); r.files[n] = "LINK:" + Str(b, z < 0 ? 0 : z); unlink(n.c_str()); }
      else { r.files[n] = "SPECIAL"; wipe(dir, false); }
    }
    // a home directory other than the working directory: HOME=../t
    { Str h = tmp + "/ed.hup"; bool ok; Str s = slurp(h, &ok); if (ok) { r.files["HOME/ed.hup"] = s; unlink(h.c_str()); } }
    left.clear();
    if (++cnt % 16 == 0 || check_tmp) for (auto &n : ls(root)) if (n != "d" && n != "t") { r.files["../" + n] = "WRITTEN OUTSIDE THE WORKING DIRECTORY"; unlink((root + "/" + n).c_str()); }
    if (check_tmp || r.status >= 1000 || (cnt & 63) == 0) {
      left = ls(tmp);
      for (size_t i = left.size(); i--;) if (left[i].compare(0, 5, "cutmp") == 0 || left[i].compare(0, 4, "sort") == 0) { Str f = tmp + "/" + left[i]; unlink(f.c_str()); left.erase(left.begin() + i); }   // of tac, sort
      if (!left.empty()) wipe(tmp, false);
    }
    return r;
  }
  unsigned cnt = 0;
};

// Serialised client/server: a thin process per worker forks ed, so that fork() stays cheap.
struct Packer {
  Str b; size_t i = 0;
  void n(long v) { b.append((char *) &v, 8); }
  void s(const Str &x) { n((long) x.size()); b += x; }
  long gn() { long v; memcpy(&v, b.data() + i, 8); i += 8; return v; }
  Str gs() { long z = gn(); Str r = b.substr(i, z); i += z; return r; }
};
inline bool xread(int fd, void *p, size_t n) { size_t o = 0; while (o < n) { ssize_t z = read(fd, (char *) p + o, n - o); if (z < 0 && errno == EINTR) continue; if (z <= 0) return false; o += z; } return true; }
inline bool xwrite(int fd, const void *p, size_t n) { size_t o = 0; while (o < n) { ssize_t z = write(fd, (const char *) p + o, n - o); if (z < 0 && errno == EINTR) continue; if (z <= 0) return false; o += z; } return true; }
struct Runner {
  int fd = -1; pid_t pid = 0; Str root; bool check_tmp = false, keep_err = false; std::vector<Str> left; Str last_err, labels; long fired = 0;
  void start(const Str &r) {
    root = r; int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) { perror("socketpair"); exit(9); }
    pid = fork();
    if (pid) { close(sv[1]); fd = sv[0]; return; }
    close(sv[0]); for (int q = 3; q < sv[0]; ++q) if (q != sv[1]) close(q);
    inj_init(); Server s; s.init(r); prctl(PR_SET_PDEATHSIG, SIGKILL);
    long z;
    while (xread(sv[1], &z, 8)) {
      Packer p; p.b.resize(z); if (!xread(sv[1], &p.b[0], z)) break;
      Case c; long n;
      for (n = p.gn(); n--;) c.args.push_back(p.gs());
      c.argv0 = p.gs();
      for (n = p.gn(); n--;) { Str a = p.gs(); c.env.push_back({a, p.gs()}); }
      c.input = p.gs(); c.seekable = p.gn();
      for (n = p.gn(); n--;) { Str a = p.gs(); c.files[a] = p.gs(); }
      c.err2out = p.gn(); c.hook = p.gs(); c.hv = p.gn(); c.hw = p.gn(); c.w0 = p.gn(); c.w1 = p.gn(); c.tail = p.gs();
      double lim = p.gn() / 1000.0; s.check_tmp = p.gn(); s.keep_err = p.gn();
      Result r = s.run(c, lim);
      Packer q; q.s(r.out); q.n(r.status); q.n(r.files.size()); for (auto &f : r.files) { q.s(f.first); q.s(f.second); }
      q.n(s.left.size()); for (auto &l : s.left) q.s(l); q.s(s.last_err); q.s(c.hook.empty() ? Str() : inj_labels()); q.n(c.hook.empty() ? 0 : inj->fired + 2 * inj->rogue);
      z = q.b.size(); if (!xwrite(sv[1], &z, 8) || !xwrite(sv[1], q.b.data(), z)) break;
    }
    _exit(0);
  }
  Result run(const Case &c, double limit) {
    Packer p; p.n(c.args.size()); for (auto &a : c.args) p.s(a);
    p.s(c.argv0); p.n(c.env.size()); for (auto &e : c.env) { p.s(e.first); p.s(e.second); }
    p.s(c.input); p.n(c.seekable); p.n(c.files.size()); for (auto &f : c.files) { p.s(f.first); p.s(f.second); }
    p.n(c.err2out); p.s(c.hook); p.n(c.hv); p.n(c.hw); p.n(c.w0); p.n(c.w1); p.s(c.tail); p.n((long) (limit * 1000)); p.n(check_tmp); p.n(keep_err);
    long z = p.b.size();
    Packer q;
    if (!xwrite(fd, &z, 8) || !xwrite(fd, p.b.data(), z) || !xread(fd, &z, 8)) { fprintf(stderr, "runner died\n"); _exit(8); }
    q.b.resize(z); if (!xread(fd, &q.b[0], z)) { fprintf(stderr, "runner died\n"); _exit(8); }
    Result r; r.out = q.gs(); r.status = q.gn(); for (long n = q.gn(); n--;) { Str a = q.gs(); r.files[a] = q.gs(); }
    left.clear(); for (long n = q.gn(); n--;) left.push_back(q.gs());
    last_err = q.gs(); labels = q.gs(); fired = q.gn();
    return r;
  }
};
