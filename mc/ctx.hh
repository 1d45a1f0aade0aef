// Exploration context: enumerates cases, runs each on the model and on the real
// implementation, compares, and keeps the coverage figures that evidence reports.
#pragma once
#include "run.hh"
#include <unordered_set>

typedef uint64_t u64;
inline u64 fnv(const Str &s, u64 h = 1469598103934665603ULL) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }

inline Str esc(const Str &s) {
  Str r; char b[8];
  for (unsigned char c : s) { if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); r += b; } else r += c; }
  return r;
}
inline Str escn(const Str &s) { Str r; for (char c : esc(s)) if (c == ' ') r += "\\x20"; else r += c; return r; }
inline Str unesc(const Str &s) {
  Str r;
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] != '\\' || i + 1 >= s.size()) r += s[i];
    else if (s[++i] == 'n') r += '\n';
    else if (s[i] == 'x') { r += (char) strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
    else r += s[i];
  return r;
}
inline Str dump(const Case &c) {
  Str r = "argv0 " + esc(c.argv0) + "\n";
  for (auto &a : c.args) r += "arg " + esc(a) + "\n";
  for (auto &e : c.env) r += "env " + escn(e.first) + " " + esc(e.second) + "\n";
  for (auto &f : c.files) r += "file " + escn(f.first) + " " + esc(f.second) + "\n";
  r += Str("seekable ") + (c.seekable ? "1" : "0") + "\n" + "input " + esc(c.input) + "\n";
  if (!c.hook.empty()) r += "hook " + c.hook + " " + std::to_string(c.hv) + " " + std::to_string(c.hw) + "\nwindow " + std::to_string(c.w0) + " " + std::to_string(c.w1) + " " + esc(c.tail) + "\n";
  if (!c.note.empty()) r += "note " + esc(c.note) + "\n";
  return r;
}
inline Str dump(const Result &r) {
  Str s = "status " + std::to_string(r.status) + "\nout " + esc(r.out) + "\n";
  for (auto &f : r.files) s += "file " + f.first + " = " + esc(f.second) + "\n";
  return s;
}
inline Case parse_case(const Str &t) {
  Case c; c.input.clear(); size_t i = 0;
  while (i < t.size()) {
    size_t e = t.find('\n', i); if (e == Str::npos) e = t.size();
    Str l = t.substr(i, e - i); i = e + 1;
    size_t sp = l.find(' '); Str k = l.substr(0, sp), v = sp == Str::npos ? "" : l.substr(sp + 1);
    if (k == "---") break;
    if (k == "argv0") c.argv0 = unesc(v);
    else if (k == "arg") c.args.push_back(unesc(v));
    else if (k == "input") c.input = unesc(v);
    else if (k == "note") c.note = unesc(v);
    else if (k == "hook") { size_t q = v.find(' '); c.hook = v.substr(0, q); sscanf(v.c_str() + q, "%ld %ld", &c.hv, &c.hw); }
    else if (k == "window") { int n = 0; sscanf(v.c_str(), "%ld %ld %n", &c.w0, &c.w1, &n); c.tail = unesc(v.substr(n)); }
    else if (k == "seekable") c.seekable = v == "1";
    else if (k == "env" || k == "file") { size_t q = v.find(' '); Str a = unesc(v.substr(0, q)), b = q == Str::npos ? "" : unesc(v.substr(q + 1)); if (k == "env") c.env.push_back({a, b}); else c.files[a] = b; }
  }
  return c;
}

// A verdict function returns an empty string if the run is right, or what is wrong.
struct Ctx {
  Str prop, tier, level, verif; int W = 8; double t0, budget = 1e9; bool thorough = false; bool show = false, raw = false;
  bool cmp_tmp = false; long stride = 1;
  std::vector<Case> batch; std::vector<int> tags; size_t cap = 16000;
  u64 cases = 0, skipped = 0, violations = 0; bool truncated = false;
  std::unordered_set<u64> states, edges, outcomes; std::vector<Str> samples; std::vector<Str> viol; std::set<Str> known, known_hit;
  Str rule; std::vector<Str> assumptions; std::map<Str, u64> counters;
  std::unordered_set<u64> seen;
  // custom executor for engines that do not compare with the model's plain run
  typedef std::function<Str(Runner &, const Case &, Ctx &)> Exec;
  Exec exec;
  Str scratch; std::vector<Runner> srv;
  void start() { srv.resize(W); for (int w = 0; w < W; ++w) srv[w].start(scratch + "/w" + std::to_string(w)); }
  struct WStat { u64 cases, skipped; };

  static Str default_exec(Runner &r, const Case &c, Ctx &x) {
    Model m; m.states = &x.states; m.edges = &x.edges;
    Result want = m.run(c);
    if (m.unsupported) { ++x.skipped; ++x.counters["skip_model_line_" + std::to_string(m.unsup_line)]; return ""; }
    ++x.cases;
    r.check_tmp = x.cmp_tmp;
    auto norm = [&](Result g) { for (auto &f : want.files) { auto i = g.files.find(f.first); if (i != g.files.end()) i->second = des::norm(f.second, i->second); } return g; };
    Result got = norm(r.run(c, 4));
    x.outcomes.insert(fnv(got.out, got.status));
    if (got == want && !(x.cmp_tmp && !r.left.empty())) return "";
    Result first = got;
    for (int k = 0; k < 2; ++k) {        // re-run before reporting, with more time
      got = norm(r.run(c, 20));
      if (got == want && !(x.cmp_tmp && !r.left.empty())) { ++x.counters["unstable_reruns"]; if (getenv("UNSTABLE")) fprintf(stderr, "UNSTABLE\n%s---\n%s---\n%s", dump(c).c_str(), dump(first).c_str(), dump(want).c_str()); return ""; }
    }
    Str w = "expected\n" + dump(want) + "observed\n" + dump(got);
    if (x.cmp_tmp && !r.left.empty()) w += "left in TMPDIR: " + r.left[0] + "\n";
    return w;
  }
  bool over() { if (now() - t0 > budget) { truncated = true; return true; } return violations >= 1 && !show; }
  void emit(const Case &c) {
    if (over()) return;
    if (!seen.insert(fnv(dump(c))).second) return;
    if (stride > 1 && seen.size() % stride) return;      // development only: a part of the space
    batch.push_back(c);
    if (batch.size() >= cap) flush();
  }
  void flush() {
    if (batch.empty()) return;
    int P = std::min<int>(W, (int) batch.size());
    size_t stride = std::max<size_t>(1, batch.size() / 3);
    for (size_t i = 0; i < batch.size() && samples.size() < 12; i += stride) samples.push_back(dump(batch[i]));
    volatile int *stop = (volatile int *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pid(P); std::vector<int> rfd(P);
    for (int w = 0; w < P; ++w) {
      rfd[w] = memfd_create("res", MFD_CLOEXEC);
      fflush(stdout);
      pid[w] = fork();
      if (pid[w]) continue;
      Runner &r = srv[w];
      cases = skipped = 0; counters.clear(); known_hit.clear(); outcomes.clear();
      states.clear(); edges.clear(); { decltype(seen) e; seen.swap(e); }
      Str bad; int nbad = 0;
      for (size_t i = w; i < batch.size(); i += P) {
        if (*stop && !show) break;
        if (now() - t0 > budget) { counters["truncated"] = 1; break; }
        Str v = (exec ? exec : Exec(default_exec))(r, batch[i], *this);
        if (!v.empty()) {
          Str key = std::to_string(fnv(dump(batch[i])));
          char hx[20]; snprintf(hx, 20, "%016llx", (unsigned long long) fnv(dump(batch[i])));
          if (known.count(hx)) { known_hit.insert(hx); continue; }
          bad += "CASE " + std::to_string(dump(batch[i]).size() + v.size() + 5) + "\n" + dump(batch[i]) + "---\n" + v + "\n";
          *stop = 1;
          if (++nbad >= (show ? 3 : 1)) break;
        }
      }
      Str o = "C " + std::to_string(cases) + " " + std::to_string(skipped) + "\n";
      for (auto &k : counters) o += "K " + k.first + " " + std::to_string(k.second) + "\n";
      for (auto &k : known_hit) o += "H " + k + "\n";
      o += "S " + std::to_string(states.size()) + " " + std::to_string(edges.size()) + " " + std::to_string(outcomes.size()) + "\n";
      for (auto *st : {&states, &edges, &outcomes}) for (u64 h : *st) o.append((char *) &h, 8);
      o += bad;
      size_t k = 0; while (k < o.size()) { ssize_t z = write(rfd[w], o.data() + k, o.size() - k); if (z <= 0) _exit(8); k += z; }
      _exit(0);
    }
    for (int w = 0; w < P; ++w) {
      int st; while (waitpid(pid[w], &st, 0) < 0 && errno == EINTR);
      if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "worker failed: %x\n", st); cleanup(); exit(7); }
      Str o = slurp_fd(rfd[w]); close(rfd[w]);
      size_t i = 0;
      while (i < o.size()) {
        size_t e = o.find('\n', i); Str l = o.substr(i, e - i); i = e + 1;
        if (l[0] == 'C' && l[1] == ' ') { u64 a, b; sscanf(l.c_str(), "C %lu %lu", &a, &b); cases += a; skipped += b; }
        else if (l[0] == 'K') { size_t q = l.find(' ', 2); u64 v = strtoull(l.c_str() + q, 0, 10); if (l.substr(2, q - 2) == "truncated") truncated = true; else counters[l.substr(2, q - 2)] += v; }
        else if (l[0] == 'H') known_hit.insert(l.substr(2));
        else if (l[0] == 'S') { u64 n[3]; sscanf(l.c_str(), "S %lu %lu %lu", n, n + 1, n + 2);
          std::unordered_set<u64> *d[3] = {&states, &edges, &outcomes};
          for (int q = 0; q < 3; ++q) for (u64 z = 0; z < n[q]; ++z, i += 8) { u64 h; memcpy(&h, o.data() + i, 8); d[q]->insert(h); } }
        else { size_t z = atol(l.c_str() + 5); viol.push_back(o.substr(i, z)); i += z; ++violations; }
      }
    }
    munmap((void *) stop, 4096);
    batch.clear();
  }
  void cleanup() { for (auto &r : srv) { shutdown(r.fd, SHUT_RDWR); close(r.fd); waitpid(r.pid, nullptr, 0); } srv.clear(); if (!scratch.empty()) wipe(scratch, true); }
};
