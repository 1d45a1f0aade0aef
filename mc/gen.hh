// Case generators: every command sequence over an alphabet up to a depth, and
// breadth-first exploration of the model's state graph with every edge replayed.
#pragma once
#include "ctx.hh"
#include "props.hh"
typedef std::vector<Str> Cmds;
inline Str text(const Cmds &l) { Str r; for (auto &x : l) r += x + "\n"; return r; }
inline Str app(const Cmds &l) { return "a\n" + text(l) + ".\n"; }
inline Case mk(const Str &input, Cmds args = {}) { Case c; c.input = input; c.args = args; return c; }
inline Cmds operator+(Cmds a, const Cmds &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
// all sequences of length lo..hi over alpha
inline void seqs(Ctx &x, const Case &base, const Str &pre, const Cmds &alpha, int lo, int hi, const Str &tail) {
  std::vector<size_t> ix;
  std::function<void(const Str &, int)> rec = [&](const Str &s, int d) {
    if (x.over()) return;
    if (d >= lo) { Case c = base; c.input = s + tail; x.emit(c); }
    if (d < hi) for (auto &a : alpha) rec(s + a, d + 1);
  };
  rec(pre, 0);
}
// product of alphabets, one command of each
inline void prod(Ctx &x, const Case &base, const Str &pre, const std::vector<Cmds> &al, const Str &tail) {
  std::function<void(const Str &, size_t)> rec = [&](const Str &s, size_t d) {
    if (x.over()) return;
    if (d == al.size()) { Case c = base; c.input = s + tail; x.emit(c); return; }
    for (auto &a : al[d]) rec(s + a, d + 1);
  };
  rec(pre, 0);
}
// breadth-first over model states (deduplicated); every (state, command) edge is replayed
// on the implementation with the observers `tail'
inline void bfs(Ctx &x, const Case &base, const Str &pre, const Cmds &alpha, int depth, size_t maxstates, const Str &tail) {
  std::unordered_set<u64> seen; std::vector<Str> level{pre};
  size_t nst = 0;
  for (int d = 0; d < depth && !level.empty(); ++d) {
    std::vector<Str> next;
    for (auto &s : level) for (auto &a : alpha) {
      if (x.over()) return;
      Case c = base; c.input = s + a;
      Model m; Str k; m.snap = &k; m.run(c);
      if (m.unsupported) { ++x.skipped; continue; }
      c.input += tail; x.emit(c);
      if (k.empty()) continue;           // the run ended (quit): no successor state
      if (seen.insert(fnv(k)).second && ++nst <= maxstates) next.push_back(s + a);
      if (nst > maxstates) x.counters["bfs_state_cap_hit"] = 1;
    }
    level.swap(next);
  }
  x.counters["bfs_states"] += nst;
}
extern const Str OBS, OBSU;
