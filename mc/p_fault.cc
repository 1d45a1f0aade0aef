// Faults, signals and crashes: every injection point of a command is explored, see inj.hh.
#include "gen.hh"

static const Str T1 = "w out1\nu\nw out2\ng/^/m0\nw out3\n,n\n", T2 = "q\n$a\nyy\n.\nw out1\n";
struct Act { const char *cls, *act; int err; const char *only; };

static Str reversed(const Str &s) {
  std::vector<Str> v; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == Str::npos) e = s.size(); v.push_back(s.substr(i, e - i)); i = e + 1; }
  Str r; for (size_t k = v.size(); k--;) r += v[k] + "\n"; return r;
}
static bool has_q(const Str &s) { return s.compare(0, 2, "?\n") == 0 || s.find("\n?\n") != Str::npos; }
static Str file(const Result &r, const Str &n, bool *ok = nullptr) { auto i = r.files.find(n); if (ok) *ok = i != r.files.end(); return i == r.files.end() ? Str() : i->second; }

// c.input: PREFIX \1 VICTIM \1; explores every event of the victim for every action.
static Str victim_exec(Runner &r, const Case &c, Ctx &x, const std::vector<Act> &acts, bool atomic) {
  size_t a = c.input.find('\1'), b = c.input.find('\1', a + 1);
  Str P = c.input.substr(0, a), V = c.input.substr(a + 1, b - a - 1);
  bool noundo = c.note == "noundo";
  auto model = [&](const Str &in, std::vector<Str> *mids = nullptr) {
    Case d = c; d.input = in; d.note.clear(); Model m; m.states = &x.states; m.edges = &x.edges; m.mids = mids; m.mid_from = P.size();
    Result w = m.run(d); if (m.unsupported) { fprintf(stderr, "model does not support line %d: %s\n", m.unsup_line, esc(in).c_str()); _exit(3); } return w; };
  Result M0 = model(P + T1), M1 = model(P + V + T1), Q0 = model(P + T2), Q1 = model(P + V + T2);
  std::vector<Str> mids; model(P + V, &mids);
  Str before = M0.files["out1"], after = M1.files["out1"];
  std::set<Str> ok1(mids.begin(), mids.end()); ok1.insert(before); ok1.insert(after);
  bool q0 = Q0.files.count("out1"), q1 = Q1.files.count("out1");
  auto mk2 = [&](const Str &tail, const Act &t, const char *act, long k) { Case d = c; d.note.clear(); d.input = P + V + tail; d.hook = Str(t.cls) + ":" + act; d.hv = k; d.hw = t.err; d.w0 = P.size(); d.w1 = (P + V).size(); d.tail = tail; return d; };
  auto split = [&](const Str &o, Str &A, Str &B, Str &C) { size_t i = o.find('\1'), j = i == Str::npos ? i : o.find('\1', i + 1); if (j == Str::npos) return false; A = o.substr(0, i); B = o.substr(i + 1, j - i - 1); C = o.substr(j + 1); return true; };
  for (auto &t : acts) {
    if (t.cls[1] == '/' && V.find('!') == Str::npos) continue;      // no child processes
    Result g = r.run(mk2(T1, t, "count", -1), 10); ++x.cases;
    Str A, B, C, L = r.labels;
    Str plain; for (char ch : g.out) if (ch != '\1') plain += ch;
    Result G = g; G.out = plain;
    if (!(G == M1)) return "without a fault: expected\n" + dump(M1) + "observed\n" + dump(g);
    long N = L.size(); if (strchr(t.cls, 'n')) L = Str(N, 'n');
    x.counters[Str("events_") + t.cls] += N;
    for (long k = 0; k < N; ++k) {
      if (t.only && !strchr(t.only, L[k])) continue;
      if (now() - x.t0 > x.budget) { x.counters["truncated"] = 1; return ""; }
      Str why; Result R1, R2; Str lab(1, L[k]);
      for (int tries = 0; tries < 2; ++tries) {
        why.clear();
        r.check_tmp = strcmp(t.act, "int");
        R1 = r.run(mk2(T1, t, t.act, k), tries ? 20 : 5); ++x.cases; bool fired = r.fired; r.check_tmp = false;
        x.edges.insert(fnv(dump(c)) * 31 + fnv(Str(t.cls) + t.act + std::to_string(k)));
        x.outcomes.insert(fnv(R1.out, R1.status));
        ++x.counters[Str("injected_") + t.act + "_" + lab];
        Str quiet; for (char ch : R1.out) if (ch != '\1') quiet += ch;
        Result Rq = R1; Rq.out = quiet;
        if (r.fired & 2) { why = "a process forked for a shell command goes on as a second editor"; continue; }
        if (R1.status >= 1000) { why = "the editor crashed or hung"; continue; }
        if (r.fired & 4) { why = "a signal is handled while the memory allocator is interrupted"; continue; }
        if (!strcmp(t.act, "hup") && t.cls[1] != '/') {             // the program ends, having saved the buffer
          const Str hn = c.files.count("ed.hup") ? "HOME/ed.hup" : "ed.hup";     // not writable: saved in the home directory
          bool h; Str s = file(R1, hn, &h);
          if (R1.status != 2) { why = "exit status after a hangup is not 2"; continue; }
          if (!ok1.count(s)) { why = h ? "text saved after a hangup is not that of the buffer" : "text not saved after a hangup"; continue; }
          for (auto &f : r.left) why = "temporary file left after a hangup: " + f;
          for (auto &f : M0.files) if (f.first.compare(0, 3, "out") && !R1.files.count(f.first)) why = "file lost: " + f.first;
          for (auto &f : R1.files) if (f.first.compare(0, 3, "out") && f.first != hn) {
            bool h0, h1; Str f0 = file(M0, f.first, &h0), f1 = file(M1, f.first, &h1);
            if ((h0 && f.second == f0) || (h1 && f.second == f1) || (h1 && (f0 != f1 || V[0] == 'w') && f1.compare(0, f.second.size(), f.second) == 0)) continue;
            why = "file " + f.first + " has unexpected contents";
          }
          if (why.empty()) break;
          continue;
        }
        if (L[k] != 'u') for (auto &f : r.left) why = "temporary file left: " + f;
        if (!why.empty()) continue;
        const bool csig = t.cls[1] == '/' && strcmp(t.act, "fail");      // a child process killed: like a command with less output
        if (csig && R1.files.count("ed.hup") != c.files.count("ed.hup")) { why = "text saved by a child process"; continue; }
        if (!split(R1.out, A, B, C)) { why = "the editor left early"; continue; }
        if (!has_q(B) && Rq == M1) break;            // the fault had no consequence
        if (!has_q(B) && t.cls[1] == '/' && t.cls[0] != '1') {           // a shell that can't be started says so on standard error, and h shows its exit status
          Case d = mk2(T1, t, t.act, k); d.err2out = true; Result E = r.run(d, 20); ++x.cases;
          if (E.out != R1.out && E.status == R1.status) break;
        }
        if (!has_q(B) && csig && file(R1, "out3") == reversed(file(R1, "out2"))) break;
        if (!has_q(B)) { why = "no error reported, yet the outcome differs"; continue; }
        bool have; Str o1 = file(R1, "out1", &have), o2 = file(R1, "out2"), o3 = file(R1, "out3");
        if (!have) { why = "later write did not succeed"; continue; }
        if (atomic && !ok1.count(o1)) { why = "buffer after the error is none of the allowed states"; continue; }
        if (V[0] == '@' || V.find("\nu\n") != Str::npos ? !ok1.count(o2) && o2 != file(M0, "out2") : noundo ? o2 != o1 && !(o1 == before && o2 == file(M0, "out2")) : o1 == before ? o2 != file(M0, "out2") && o2 != before && o2 != after : o2 != before) { why = "undo after the error does not restore the buffer"; continue; }
        if (o3 != reversed(o2)) { why = "lines of the buffer are not linked consistently"; continue; }
        for (auto &f : M0.files) if (!R1.files.count(f.first)) why = "file lost: " + f.first;
        for (auto &f : R1.files) if (f.first.compare(0, 3, "out")) {
          bool h0, h1; Str f0 = file(M0, f.first, &h0), f1 = file(M1, f.first, &h1);
          if ((h0 && f.second == f0) || (h1 && f.second == f1)) continue;
          if (h1 && (f0 != f1 || V[0] == 'w') && (f1.compare(0, f.second.size(), f.second) == 0)) continue;
          why = "file " + f.first + " has unexpected contents";
        }
        if (!why.empty()) continue;
        R2 = r.run(mk2(T2, t, t.act, k), 20); ++x.cases;
        if (R2.status >= 1000) { why = "the editor crashed or hung"; continue; }
        if (!noundo && !R2.files.count("out1") && !(o1 == before && !q0) && !(o1 == after && !q1 && file(R2, "f") == file(Q1, "f"))) { why = "changed buffer abandoned without a warning"; continue; }
        if (R2.files.count("out1") && file(R2, "out1") != o1 + (o1.empty() || o1.back() == 10 ? "" : "\n") + "yy\n") { why = "text added after the error is not stored correctly"; continue; }
        (void) fired;
        break;
      }
      if (!why.empty()) {
        Case d = mk2(T1, t, t.act, k);
        return why + "\nevent " + std::to_string(k) + " (" + lab + ") of " + std::to_string(N) + ", action " + t.cls + ":" + t.act + "\nbefore " + esc(before) + "\nafter " + esc(after) + "\nobserved\n" + dump(R1) + (R2.out.empty() ? Str() : "with tail q\n" + dump(R2)) + "run\n" + dump(d);
      }
    }
  }
  return "";
}


// Whole sessions: the fault may come anywhere, from the start of the program to its end.
// note: names of files of which either the file or its copy FILE.bak has to stay complete.
static Str session_exec(Runner &r, const Case &c, Ctx &x, const std::vector<Act> &acts) {
  Case d = c; d.note.clear();
  std::vector<Str> mids = {""};
  Model m; m.states = &x.states; m.edges = &x.edges; m.mids = &mids; m.mid_from = -1; Result M = m.run(d);
  if (m.unsupported) { fprintf(stderr, "model does not support line %d: %s\n", m.unsup_line, esc(c.input).c_str()); _exit(3); }
  auto nq = [](const Str &o) { long k = 0; for (size_t i = 0; (i = o.find("?\n", i)) != Str::npos; ++i) ++k; return k; };
  for (auto &t : acts) {
    if (t.cls[1] == '/' && c.input.find('!') == Str::npos) continue;
    d.hook = Str(t.cls) + ":count"; d.w0 = -1; d.w1 = 1L << 40; d.hv = -1; d.hw = t.err;
    Result G = r.run(d, 10); ++x.cases; Str L = r.labels; if (strchr(t.cls, 'n')) L = Str(L.size(), (char) 110);
    if (!(G == M)) return "without a fault: expected\n" + dump(M) + "observed\n" + dump(G);
    for (long k = 0; k < (long) L.size(); ++k) {
      if (t.only && !strchr(t.only, L[k])) continue;
      if (now() - x.t0 > x.budget) { x.counters["truncated"] = 1; return ""; }
      Str why; Result R;
      for (int tries = 0; tries < 2; ++tries) {
        why.clear();
        d.hook = Str(t.cls) + ":" + t.act; d.hv = k; r.check_tmp = t.act[0] != 'k' && Str(t.act) != "torn"; R = r.run(d, tries ? 20 : 5); ++x.cases; r.check_tmp = false;
        for (auto &f : r.left) if ((R.status < 1000 || R.status == 1001) && L[k] != 'u') why = "temporary file left: " + f;
        if (!why.empty()) continue;
        x.edges.insert(fnv(dump(c)) * 31 + fnv(d.hook + std::to_string(k))); x.outcomes.insert(fnv(dump(R)));
        ++x.counters[Str("session_") + t.act + "_" + L[k]];
        bool killed = t.act[0] == 'k' || Str(t.act) == "torn";
        if (r.fired & 2) { why = "a process forked for a shell command goes on as a second editor"; continue; }
        if (r.fired & 4) { why = "a signal is handled while the memory allocator is interrupted"; continue; }
        if (R == M) break;
        bool hup = !strcmp(t.act, "hup") && t.cls[1] != '/';
        if (R.status >= 1000 && !(killed && R.status == 1009) && !(hup && R.status == 1001 && R.out.empty())) { why = "the editor crashed or hung"; continue; }
        bool told = killed || nq(R.out) > nq(M.out) || (R.status && R.status != M.status);
        if (hup) {
          bool h; Str u = file(R, "ed.hup", &h);
          if (R.status != 1 && R.status != 2 && R.status != 1001) { why = "exit status after a hangup is not 1 or 2"; continue; }
          if (h && std::find(mids.begin(), mids.end(), u) == mids.end()) { why = "text saved after a hangup is not that of the buffer"; continue; }
        }
        if (t.cls[1] == '/' && Str(t.act) != "fail" && !R.files.count("ed.hup")) break;      // a child process killed
        if (!told && t.cls[1] == '/') { Case e = d; e.err2out = true; Result E = r.run(e, 20); ++x.cases; if (E.out != R.out && E.status == R.status) break; }   // as above
        if (!told) { why = "no error reported, yet the outcome differs"; continue; }
        for (auto &f : c.files) if (!R.files.count(f.first)) why = "file lost: " + f.first;
        for (auto &f : R.files) {
          if (f.first == "ed.hup" && !strcmp(t.act, "hup")) continue;
          auto i = c.files.find(f.first); auto j = M.files.find(f.first);
          if (i != c.files.end() && i->second == f.second) continue;
          if (j != M.files.end() && (j->second.compare(0, f.second.size(), f.second) == 0)) continue;   // also backups
          bool h = false; for (auto &w : m.hist) if (w.first == f.first && w.second.compare(0, f.second.size(), f.second) == 0) h = true;
          if (h) continue;
          bool script = false; for (auto &g : c.args) if (g == "-e" || g == "-f") script = true;
          if (!script && !killed && f.first != "s") continue;   // commands after the error act on another buffer
          why = "file " + f.first + " has unexpected contents";
        }
        if (!c.note.empty()) { size_t q = 0; while (q < c.note.size()) { size_t e = c.note.find(' ', q); if (e == Str::npos) e = c.note.size(); Str f = c.note.substr(q, e - q); q = e + 1;
          bool h; Str now_ = file(R, f), bak = file(R, f + ".bak", &h), orig = c.files.at(f);
          if (now_ != orig && !(h && bak == orig) ) why = "neither " + f + " nor its backup is intact"; } }
        if (why.empty()) break;
      }
      if (!why.empty()) return why + "\nevent " + std::to_string(k) + " (" + L[k] + ") of " + std::to_string(L.size()) + ", action " + t.cls + ":" + t.act + "\nexpected " + dump(M) + "observed\n" + dump(R) + "run\n" + dump(d);
    }
  }
  return "";
}
static Cmds victims() {
  return {"2a\nn1\nn2\n.\n", "0i\nn1\n.\n", "2,3c\nn1\nn2\n.\n", "2,4d\n", ",d\n", "2,4j\n", "1,2m$\n", "3m0\n", "2,3m4\n", "1,3t2\n", ",t0\n",
    "2,4s/[0-9]/<&>/\n", ",s/./&\\\nZ/\n", "g/[24]/d\n", "g/./m0\n", "g/./s//Q/\n", "g/[13]/a\\\nadd\n", "v/3/t.\n", "u\n", "r g\n", "0r g\n", "2r !cat g\n",
    "2,3!sort\n", ",!tac\n", "1,2w h\n", "w\n", "W g\n", "w !cat > h\n", "2,3m>1\n", "2t>>1\n", "<1t$\n", "<1m2\n", "<1t>2\n", "<1m>>2\n", "@3\n", "2kb\n", "'ap\n", ",n\n", ",l\n", "/a/;?b?p\n", "f h\n", "!echo hi\n", "E g\n", "E !cat g\n", "E\n", "H\n", "2,3s/a/b/\nu\n", "=\n", "1z2\n", "G/[12]/\ns/$/x/\n\n" };
}
static void emit_victims(Ctx &x, const std::vector<Str> &vs, bool sig, bool hup = false) {
  std::map<Str, Str> fl = {{"f", "1aa\n2bb\n3ca\n4db\n5aa\n"}, {"g", "g1\ng2\ng3\n"}};
  Str regs = "1t>1\n2,3t>2\na\n2s/$/M/\n1t0\n.\n-1,.m>3\n";
  std::vector<Str> pre = {"3ka\n$a\nx1\n.\n", "", "g/[13]/s/$/G/\n", "2d\nu\n", "u\n2,3!sort -r\n", "E g\n$a\nlast\n.\n", "/2/s//&&/\n2r g\n", ",n\n1,2w h\n2s/b/B/\n", "1,3j\nu\nu\n", "W h\n1,2m$\nkb\n"};
  if (x.thorough) for (auto &q : {"1,2m$\n", "$t0\n", "2,3c\nq\n.\n", "g/[1-3]/m$\n", "v/a/d\n", ",s/a/b/g\n", ",w\n2d\n", "H\n", "0r !cat g\n", "2,4d\nu\nu\n", ",d\n", ",d\n0a\n1\n2\n3\n4\n.\n", "f h\n", "!echo a\n", "2s/b/\\\n/\n"}) pre.push_back(q);
  size_t np = pre.size();
  pre.push_back(regs + "w\n"); pre.push_back(regs + "1m$\n"); pre.push_back(regs + "<1t$\nu\n"); pre.push_back("1t>1\n2t>2\n" + regs + "g/1/.t>>2\n");
  for (auto &v : vs) for (auto &p : pre) {
    if (!sig && (v[0] == 'G' || v.find("\nu\n") != Str::npos)) continue;
    if (v.find('<') != Str::npos || v[0] == '@') { if ((size_t) (&p - &pre[0]) < np) continue; } 
    else if (!x.thorough && (size_t) (&p - &pre[0]) >= np) continue;
    Case c; c.args = {"f"}; c.files = fl; c.input = p + "\1" + v + "\1"; if (v[0] == 'E') c.note = "noundo"; 
    if (v == "u\n" && (p.empty() || p[0] == 'E')) continue;
    if (hup) { if (!x.thorough && &p > &pre[3] && (size_t) (&p - &pre[0]) < np) continue; if (v[0] == 'G') continue; c.note = "hup"; }
    x.emit(c);
  }
}
static void sessions(Ctx &, bool);
static void c10(Ctx &x, bool so) {
  x.rule = "for every editing session of a list and every system call its last command makes (read, write, seek, open, close, truncate, lock, stat, fork, pipe): that call fails once, fails from then on, or (write) is cut short; buffer, undo, files, warnings and messages after it checked against the model's states";
  x.exec = [](Runner &r, const Case &c, Ctx &y) {
    static const char *all = "wrsoctLFpSuxy";
    std::vector<Act> a = {{all, "fail", EIO, nullptr}, {all, "failall", ENOSPC, "woFpSt"}, {all, "short", 0, "w"}, {"0/wrsocde", "fail", EIO, nullptr}, {"1/wrsocde", "fail", EIO, nullptr}, {"2/wrsocde", "fail", EIO, nullptr}};
    return c.input.find('\1') == Str::npos ? session_exec(r, c, y, a) : victim_exec(r, c, y, a, false); };
  if (so) return;
  emit_victims(x, victims(), false); sessions(x, false);
}
static void sessions(Ctx &x, bool inplace_only) {
  Str big; for (int i = 0; i < 24; ++i) big += "line " + std::to_string(i) + Str(400, 'a' + i) + "\n";
  std::map<Str, Str> small = {{"f", "1aa\n2bb\n3ca\n"}, {"g", "g1\ng2\n"}, {"s", ",s/[a-z]/X/\n"}}, large = {{"f", big}, {"g", big + "g\n"}, {"s", ",s/[a-z]/X/\n"}};
  for (auto &fl : {small, large}) {
    if (x.prop == "C12" && fl.at("f").size() > 1000) continue;
    Case c; c.files = fl;
    auto go = [&](Cmds args, const Str &in, const Str &note = "") { c.args = args; c.input = in; c.note = note; x.emit(c); };
    if (!inplace_only) {
      go({"f"}, "2d\nw\nq\n"); go({"f"}, "$a\nx\n.\nw\nr g\nw h\nq\n"); go({}, "a\nx\n.\nw h\nq\n"); go({"-s", "f"}, ",s/a/b/\nw g\nw\n"); go({"f"}, "1,2m$\nwq\n");
      go({"f"}, "a\n1t0\n.\n.t>1\n<1t$\n$t>>1\n<1t>3\n<3t$\n1t0\n@1\nw\n"); go({"f"}, "!echo hi\n,!sort\nw\nr !cat g\nw h\n"); go({"-e", "1d", "-e", "w", "f"}, ""); go({"-f", "s", "-e", "w", "f"}, ""); go({"-e", "1d", "-e", "w", "-e", "~en", "-e", "1d", "-e", "w", "f", "g"}, ""); go({"f"}, "E g\na\nyy\n.\nw h\n"); go({"f"}, Str("E !cat g\na\nyy\n.\nw h\n") + (x.prop == "C29" ? "" : "E nofile\na\nzz\n.\nw i\n")); go({"f"}, "e g\n1d\nw\nE f\nw h\n"); go({"f"}, "w !cat > h\nW g\nQ\n"); go({"-p:", "-v", "f"}, "1d\nw\n"); go({"nofile"}, "a\nq\n.\nw\n");
    }
    go({"-i.bak", "-e", "1d", "f"}, "", "f"); go({"-i.bak", "-e", ",s/[0-9]/<&>/", "f", "g"}, "", "f g"); go({"-i.bak", "-f", "s", "f"}, "", "f"); go({"-i.bak", "-e", "g/./t.", "g", "f"}, "", "f g"); go({"-i.bak", "-e", ",d", "f"}, "", "f"); go({"-i.bak", "-e", "1,$m0", "-e", "$a\nnew", "f"}, "", "f"); go({"-i.bak", "-s", "-e", "1d", "f"}, "", "f");
    go({"-i", "-e", "1d", "f", "g"}, ""); go({"-i.bak", "-e", "r g", "f"}, "", "f"); go({"-i.bak", "-e", ",!sort", "f", "g"}, "", "f g"); go({"-i.bak", "-e", "1d", "-e", "w", "-e", "1d", "f"}, "", "f");
  }
}
static void c11(Ctx &x, bool so) {
  x.rule = "for every in-place editing session of a list: the process is killed before every system call, killed after half of every write, and every system call fails once or for good; afterwards each file edited or its backup has the complete original contents";
  x.exec = [](Runner &r, const Case &c, Ctx &y) {
    static const char *all = "wrsoctLFpSuxy";
    return session_exec(r, c, y, {{all, "kill", 0, nullptr}, {all, "torn", 0, "w"}, {all, "fail", EIO, nullptr}, {all, "failall", ENOSPC, "wotc"}, {all, "short", 0, "w"}}); };
  if (so) return;
  sessions(x, true);
}
static void c12(Ctx &x, bool so) {
  x.rule = "for every editing session of a list: SIGINT or SIGHUP arrives before every memory access of the editor and after every system call of its last command; buffer, undo, files and messages after it checked against the model's states";
  x.exec = [](Runner &r, const Case &c, Ctx &y) {
    static const std::vector<Act> h = {{"n", "hup", 0, nullptr}, {"b", "hup", 0, nullptr}, {"0/n", "hup", 0, nullptr}, {"1/n", "hup", 0, nullptr}, {"2/n", "hup", 0, nullptr}}, i = {{"n", "int", 0, nullptr}, {"b", "int", 0, nullptr}, {"0/n", "int", 0, nullptr}, {"1/n", "int", 0, nullptr}, {"2/n", "int", 0, nullptr}};
    if (c.note == "libc") return victim_exec(r, c, y, {{"B", "hup", 0, nullptr}}, true);
    return c.input.find('\1') == Str::npos ? session_exec(r, c, y, h) : victim_exec(r, c, y, c.note.find("hup") != Str::npos ? h : i, true); };
  if (so) return;
  { Case c; c.args = {"f"}; c.files = {{"f", "1aa\n2bb\n"}, {"g", "g1\n"}}; c.input = "\1r g\n\1"; c.note = "libc"; x.emit(c); }
  for (Str h : {"../t", "../t/"}) for (auto &v : Cmds{"2a\nn1\nn2\n.\n", "2,4d\n", "1,2m$\n", "g/./s//Q/\n", "r g\n", "w\n", ",n\n", "E g\n"}) for (Str p : {"3ka\n$a\nx1\n.\n", ",d\n", "2d\nu\n"}) {
    Case c; c.args = {"f"}; c.files = {{"f", "1aa\n2bb\n3ca\n4db\n5aa\n"}, {"g", "g1\ng2\ng3\n"}, {"ed.hup", "kept\n"}}; c.env = {{"HOME", h}}; c.input = p + "\1" + v + "\1"; c.note = v[0] == 'E' ? "hup noundo" : "hup"; x.emit(c); }
  sessions(x, false); emit_victims(x, victims(), true); emit_victims(x, victims(), true, true);
}
static void c29(Ctx &x, bool so) {
  x.rule = "for every editing session of a list and every allocation of memory during its last command or compilation of a regular expression, also inside the C library: that allocation fails once, or it and all later ones of the command; buffer, undo, files, warnings and messages after it checked against the model's states";
  x.exec = [](Runner &r, const Case &c, Ctx &y) {
    std::vector<Act> a = {{"mP", "fail", ENOMEM, nullptr}, {"mP", "failall", ENOMEM, "m"}, {"0/m", "fail", ENOMEM, nullptr}, {"1/m", "fail", ENOMEM, nullptr}, {"2/m", "fail", ENOMEM, nullptr}};
    return c.input.find('\1') == Str::npos ? session_exec(r, c, y, a) : victim_exec(r, c, y, a, false); };
  if (so) return;
  emit_victims(x, victims(), false);
  // long lines make every buffer grow
  Str big(700, 'b'); for (int i = 0; i < 700; ++i) big[i] = 'a' + i % 7;
  std::map<Str, Str> fl = {{"f", "1aa\n2bb\n3ca\n4db\n5aa\n"}, {"g", "g1" + big + big + big + "\ng2\ng3\n"}};
  Str L = "$a\n" + big + "\n.\n", B = big + big + big + big;
  for (auto &v : Cmds{"2a\n" + B + "\n.\n", "r g\n", "r !cat g\n", "E g\n", ",!cat\n", "2s/b/" + B + "/\n", ",s/./&" + big + "/g\n", ",j\n", "g/./t0\n", "g/./s/./" + big + "/\n", "s/" + big + "//\n", "/" + big + "/m0\n", "1,$w h\n", "g/a/a\\\n" + B + "\n", "2,3c\n" + B + "\n.\n", "$l\n", "$n\n", "1,$t>1\n", "!: " + B + "\n", "r !echo " + B + "\n", "f " + big.substr(0, 200) + "\n", "v/zz/s/./\\\\&\\\\/g\n"})
    for (auto &p : Cmds{"", L, "2,3d\nu\n", "1,2m$\nw\n", L + "2,4s/./X/\n"}) { Case c; c.args = {"f"}; c.files = fl; c.input = p + "\1" + v + "\1"; if (v[0] == 'E') c.note = "noundo"; x.emit(c); }
  sessions(x, false);
}
// The window size changes (SIGWINCH) at any point of a command.  c.env: LINES and COLUMNS before, c.note: after.
static Str winch_exec(Runner &r, const Case &c, Ctx &x) {
  size_t a = c.input.find('\1'), b = a == Str::npos ? a : c.input.find('\1', a + 1);
  int rows = 0, cols = 0; sscanf(c.note.c_str(), "%d %d", &rows, &cols); int rows0 = atoi(c.env[0].second.c_str());
  bool whole = a == Str::npos;
  Str P = whole ? "" : c.input.substr(0, a), V = whole ? c.input : c.input.substr(a + 1, b - a - 1);
  char last = V.size() > 1 ? V[V.size() - 2] : 0; bool page = last == 'z' || last == 'Z', list = last == 'l';
  Str T = whole ? "" : ".=\n1z\nz\nz\n,l\n1n\nw out1\nu\n,n\n";
  Case d = c; d.note.clear(); d.input = P + V + T; d.hw = rows * 1000 + cols; d.w0 = whole ? -1 : P.size(); d.w1 = whole ? 1L << 40 : (P + V).size();
  auto split = [&](const Str &o, Str *q) { if (whole) { q[0] = q[2] = ""; q[1] = o; return true; } size_t i = o.find('\1'), j = i == Str::npos ? i : o.find('\1', i + 1); if (j == Str::npos) return false; q[0] = o.substr(0, i); q[1] = o.substr(i + 1, j - i - 1); q[2] = o.substr(j + 1); return true; };
  auto lines = [](const Str &s) { std::vector<Str> v; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == Str::npos) e = s.size(); v.push_back(s.substr(i, e - i)); i = e + 1; } return v; };
  auto unfold = [](const Str &s) { Str o; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\\' && i + 1 < s.size() && s[i + 1] == '\n') ++i; else o += s[i]; return o; };
  // what is done before and after the change, each in a window of one size throughout
  Result A, B; Str sa[3], sb[3];
  for (int w = 0; w < 2; ++w) {
    Case e = d; e.hook = "n:count"; if (w) e.env = {{"LINES", std::to_string(rows)}, {"COLUMNS", std::to_string(cols)}};
    Model m; m.states = &x.states; m.edges = &x.edges; Case f = e; f.hook.clear(); Result M = m.run(f);
    Result g = r.run(e, 10); ++x.cases; Result G = g; G.out.clear(); for (char ch : g.out) if (ch != '\1') G.out += ch;
    if (!m.unsupported && !(G == M)) return "without a change of size: expected\n" + dump(M) + "observed\n" + dump(G);
    if (!split(g.out, w ? sb : sa)) return "without a change of size: observed\n" + dump(g);
    (w ? B : A) = g;
  }
  std::vector<Str> text = lines(file(A, "out1"));
  for (const char *cls : {"n", "ir"}) {
    d.env = c.env; d.hook = Str(cls) + ":count"; d.hv = -1; r.run(d, 10); ++x.cases; long N = r.labels.size();
    x.counters[Str("events_") + cls] += N;
    for (long k = 0; k < N; ++k) {
      if (now() - x.t0 > x.budget) { x.counters["truncated"] = 1; return ""; }
      Str why; Result R; Str q[3];
      for (int tries = 0; tries < 2; ++tries) {
        why.clear(); d.hook = Str(cls) + ":winch"; d.hv = k; R = r.run(d, tries ? 20 : 5); ++x.cases;
        x.edges.insert(fnv(dump(c)) * 31 + fnv(Str(cls) + std::to_string(k))); x.outcomes.insert(fnv(dump(R))); ++x.counters[Str("injected_") + cls];
        if (R.status >= 1000) { why = "the editor crashed or hung"; continue; }
        if (R.status != A.status || !split(R.out, q)) { why = "the session ends otherwise"; continue; }
        if (R.files != A.files) { why = "files differ"; continue; }
        if (q[0] != sa[0]) { why = "output before the change differs"; continue; }
        if (page) {
          std::vector<Str> v = lines(q[1]); size_t i = 0; while (i < text.size() && (v.empty() || text[i] != v[0])) ++i;
          Str post = q[2]; Str dot = post.substr(0, post.find('\n'));
          if (q[1] == "?\n" && (sa[1] == q[1] || sb[1] == q[1])) { if (post.substr(dot.size()) != sb[2].substr(sb[2].find('\n'))) why = "output after the change is not that for the new size"; }
          else if (v.empty() || i + v.size() > text.size() || !std::equal(v.begin(), v.end(), text.begin() + i)) why = "a page is not of consecutive lines";
          else if ((int) v.size() > std::max(rows, rows0) - 1) why = "a page is longer than the window";
          else if ((int) v.size() < std::min(std::min(rows, rows0) - 1, (int) text.size())) why = "a page is shorter than the window";
          else if (dot != std::to_string(i + v.size())) why = "the current line is not the last one of the page";
          else if (post.substr(dot.size()) != sb[2].substr(sb[2].find('\n'))) why = "output after the change is not that for the new size";
        }
        else if (list ? unfold(q[1]) != unfold(sa[1]) : q[1] != sa[1] && q[1] != sb[1]) why = "output of the command differs";
        else if (q[2] != sb[2]) why = "output after the change is not that for the new size";
        if (why.empty()) break;
      }
      if (!why.empty()) return why + "\nSIGWINCH at event " + std::to_string(k) + " (" + cls + ") of " + std::to_string(N) + "\nexpected before\n" + dump(A) + "expected after\n" + dump(B) + "observed\n" + dump(R) + "run\n" + dump(d);
    }
  }
  return "";
}
static void c33(Ctx &x, bool so) {
  x.rule = "for every editing session of a list and several changes of size: SIGWINCH arrives before every memory access of the editor, and at every read of its input or of a pipe, within the last command or (whole sessions) anywhere; the session must go on as if it had not, and later pages and listings must be those for the new size, as computed by the model";
  x.exec = [](Runner &r, const Case &c, Ctx &y) { return winch_exec(r, c, y); };
  if (so) return;
  Str lng; for (int i = 0; i < 90; ++i) lng += 'a' + i % 26;
  std::map<Str, Str> fl = {{"f", "1aa\n2bb\n3ca\n4db\n5aa\n6\n7\n8\n9\n10\n11\n12\n"}, {"g", "g1\ng2\ng3\n"}}, fold = fl; fold["f"] = "1aa\n" + lng + "\n3ca\n4db\n";
  struct { const char *l, *c, *n; } sz[] = {{"7", "40", "4 40"}, {"4", "40", "8 40"}, {"6", "40", "6 24"}, {"5", "24", "9 60"}, {"9", "60", "3 30"}};
  Cmds vs = victims(); for (auto &v : Cmds{"z\n", "1z\n", "3z\n", "9z\n", "12z\n", "Z\n", "9Z\n", "12Z\n", "2Z\n", "5Z\n", ",l\n", "2l\n", "2,4p\n", ",n\n"}) vs.push_back(v);
  for (auto &v : vs) for (auto &s : sz) {
    if (v[0] == '<' || v[0] == '@') continue;
    bool page = v[v.size() - 2] == 'z' || v[v.size() - 2] == 'Z', list = v[v.size() - 2] == 'l';
    if (!page && (v.find('z') != Str::npos || v.find('Z') != Str::npos)) continue;
    if (!x.thorough && !page && !list && &s > &sz[0]) continue;
    for (auto &p : x.thorough || page ? Cmds{"3ka\n$a\nx1\n.\n", "5d\nu\n", "2z\n", "1s/1/1/\n"} : Cmds{"3ka\n$a\nx1\n.\n"}) {
      if (!page && p[0] == '2') continue;
      Case c; c.args = {"f"}; c.files = list ? fold : fl; c.env = {{"LINES", s.l}, {"COLUMNS", s.c}}; c.note = s.n; c.input = p + "\1" + v + "\1";
      x.emit(c); }
  }
  for (auto &in : Cmds{"2d\nw\nq\n", "$a\nx\n.\nw\nr g\nw h\nq\n", "!echo hi\n,!sort\nr !cat g\nw h\nq\n", "g/a/s//b/\nG/b/\nd\n\nu\n,n\nQ\n", "E g\nW f\nq\n"}) {
    Case c; c.args = {"f"}; c.files = fl; c.env = {{"LINES", "7"}, {"COLUMNS", "40"}}; c.note = "4 40"; c.input = in; x.emit(c); }
}
void add_fault(std::vector<Prop> &v) {
  v.push_back({"C10", "model_checking", c10});
  v.push_back({"C11", "model_checking", c11});
  v.push_back({"C12", "model_checking", c12});
  v.push_back({"C29", "model_checking", c29});
  v.push_back({"C33", "model_checking", c33});
}
