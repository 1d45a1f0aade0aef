// C31: a session may be of any length.
#include "gen.hh"
#include <array>

#define RESET "E ro_z\nf f\n"
// c.input: SETUP \1 CYCLE; c.note: number of times the cycle is executed
static Str longrun(Runner &r, const Case &c, Ctx &x) {
  size_t z = c.input.find('\1'); Str setup = c.input.substr(0, z), cyc = c.input.substr(z + 1) + "#=\n"; long N = atol(c.note.c_str());
  Case d = c; d.note.clear(); d.input = setup; if (!N) cyc.clear(); for (long i = 0; i < N; ++i) d.input += cyc;
  Case e = d; d.hook = "=:count"; d.hv = -1; d.w0 = -1; d.w1 = 1L << 40;
  Model m; m.states = &x.states; m.edges = &x.edges; Result want = m.run(e); bool model = !m.unsupported && cyc.compare(0, 2, "H\n"), reset = cyc.find(RESET "#=") != Str::npos;
  Str why; Result g; long f0 = 0, f1 = 0, m0 = 0, m1 = 0, zz = 0;
  for (int t = 0; t < 2; ++t) {
    why.clear(); g = r.run(d, t ? 60 : 15); ++x.cases;
    if (g.status >= 1000) { why = "the editor crashed or hung"; continue; }
    if (model && !(g == want)) { why = "expected\n" + dump(want); continue; }
    std::vector<std::array<long, 3>> v; const char *p = r.labels.c_str(); long a, b, q; int n; while (sscanf(p, "%ld %ld %ld\n%n", &a, &b, &q, &n) == 3) { v.push_back({a, b, q}); p += n; }
    if (!N) { if (!model) why = "not supported by the model"; break; }
    if ((long) v.size() != N) { if (g.status || !model) why = "the session ended after " + std::to_string(v.size()) + " of " + std::to_string(N) + " repetitions"; if (!why.empty()) continue; break; }
    f0 = v[N / 3][0]; f1 = v[N - 1][0]; m0 = v[N / 3][2]; m1 = v[N - 1][2]; zz = v[N - 1][1];
    if (f1 != f0) why = "open files: " + std::to_string(f0) + " after " + std::to_string(N / 3 + 1) + " repetitions, " + std::to_string(f1) + " after " + std::to_string(N);
    else if (zz) why = "child process not waited for";
    else if (reset && 2 * (m1 - m0) >= N - 1 - N / 3) why = "blocks of memory in use: " + std::to_string(m0) + " after " + std::to_string(N / 3 + 1) + " repetitions, " + std::to_string(m1) + " after " + std::to_string(N);
    if (why.empty()) break;
  }
  x.outcomes.insert(fnv(dump(g))); x.states.insert(fnv(std::to_string(f1) + " " + std::to_string(m1))); x.edges.insert(fnv(dump(c))); ++x.counters[model ? "compared_with_model" : "resources_only"];
  return why.empty() ? "" : why + "\nobserved\n" + dump(g);
}
static void c31(Ctx &x, bool so) {
  x.rule = "every command of a list (successful ones and ones that fail in each way), and every pair of them, is executed over and over again in one session: number of open files, processes not waited for and memory in use must not grow, and the outcome must be the model's";
  x.exec = longrun; x.cap = 2000;
  if (so) return;
  Cmds A = {"2a\nn1\nn2\n.\n", "2,3c\nn\n.\n", "2,4d\n", "2,4j\n", "1,2m$\n", "1,3t2\n", "1s/./&\\\nZ/\n", "g/[24]/d\n", "g/./s//Q/\n", "g/[13]/a\\\nadd\n", "u\n", "2kb\n", "'bp\n", ",n\n", ",l\n", "/a/;?b?p\n", "=\n", "1z2\n", ".z+\n", "s/[0-9]*/x/2g\n", "s\n", "1,2w h\n", "W h\n", "w\n", "w f\n", "r g\n", "r f\n", "e g\n", "E g\n", "f h\n", "f f\n",
    "99p\n", "1,99d\n", "/nomatch/\n", "s/nomatch/x/\n", "s/\\(/x/\n", "/[/\n", "g/\\(/p\n", "g/a/s/nomatch/x/\n", "g/./99p\n", "g/./.m99\n", "g/a/r nofile\n", "v/a/e nofile\n", "r nofile\n", "e nofile\n", "E nodir/x\n", "w nodir/x\n", "1,2w /dev/full\n", "W /dev/full\n", "E .\n", "r .\n", "w .\n", "E /dev/null\n", "w /dev/null\n", "x\n", "k1\n", "'zp\n", "2a\n.\n", "1,2m1\n", "yy\n", "h\n", "2s/b/\\1/\n",
    "<1t$\n", "<9t$\n", "1t>1\n", "1,2t>>1\n", "1m>3\n", "<1m2\n", "<1t>2\n", "@1\n", "@2\n", "@3\n", "@4\n", "@5\n", "@9\n", "G/a/\n\n\n\n", "G/a/\ns/$/x/\n&\n&\n", "V/a/\nx\n", "g/a/g/b/p\n", "f g\nw\n", "f h\nw\nf f\n", "~en\n", "~ep\n", "~e g h\n", "~f\n", "~f f g\n", "~e *\n", "~e nofile\n", "g/a/~en\n", "~w\n", "~r g\n"};
  Cmds S = {"!:\n", "!exit 3\n", "r !cat g\n", "r !exit 3\n", "0r !nocmd\n", "w !cat >h\n", "w !exit 1\n", "w !:\n", "e !cat g\n", "E !exit 1\n", "2,3!sort\n", ",!cat\n", ",!exit 3\n", ",!head -1\n", "!kill -9 $$\n", ",!kill -9 $$\n", "g/a/.!cat\n", "g/a/r !echo x\n", "w !head -1 >/dev/null\n"};
  Case b; b.files = {{"f", "1aa\n2bb\n3ca\n4db\n5aa\n"}, {"g", "g1\ng2\ng3\n"}, {"h", "h\n"}, {"ro_z", "1aa\n2bb\n3ca\n4db\n5aa\n"}}; b.args = {"f"};
  // registers: 1 a line, 2 calls itself, 3 fails, 4 calls one that fails, 5 appends
  Str setup = "$t>1\na\n@2\n.\n.m>2\na\n99p\n.\n.m>3\na\n1n\n@3\n2n\n.\n-2,.m>4\na\n2a\nnew\n\\.\n1n\n.\ns/\\\\//\n-2,.m>5\n" RESET;
  auto go = [&](const Str &cyc, long N) { Case c = b; c.input = setup + "\1" + cyc; c.note = std::to_string(N); x.emit(c); };
  bool err = false;
  for (auto &a : A + S) { if (a == "99p\n") err = true; if (err) go(a, 120); go(a + RESET, 120); go("H\n" + a + "H\n" RESET, 60); }
  for (auto &p : A) for (auto &q : A) go(p + q + RESET, 18);
  for (auto &p : S) for (auto &q : x.thorough ? A + S : Cmds{"u\n", "2,4d\n", "r nofile\n", "w\n", ",!exit 3\n", "@3\n"}) { go(p + q + RESET, 12); go(q + p + RESET, 12); }
  // many files
  for (int n : {3, 60, 150}) {
    Case c; c.note = "0"; Cmds f; for (int i = 0; i < n; ++i) { Str s = "f" + std::to_string(i); f.push_back(s); c.files[s] = std::to_string(i) + "a\nb\na\n"; }
    auto run = [&](Cmds a, const Str &in) { c.args = a; for (auto &s : f) c.args.push_back(s); c.input = in + "\1"; x.emit(c); };
    for (Str i : {"-i", "-i.bak"}) for (Cmds e : {Cmds{"-e", ",s/a/X/"}, Cmds{"-e", "1d", "-e", "$t0"}, Cmds{"-e", "g/b/r f0"}, Cmds{"-e", "/z/d"}, Cmds{"-e", "w h"}, Cmds{"-e", "1,2!cat"}, Cmds{"-e", "r !echo x"}}) for (Str o : {"-s", "-v"}) run(Cmds{o, i} + e, "");
    for (Str v : {",s/a/X/\nw\n", "w\n", "1d\nw\n1d\nw\n", "E\n", "1,2w h\n", "r f0\nw\n"}) { Str in; for (int k = 0; k < n; ++k) in += v + "~en\n"; run({}, in + "q\n"); }
    Str in; for (auto &s : f) in += "e " + s + "\n1d\nw\n"; run({}, in); in.clear(); for (auto &s : f) in += "f " + s + "\n1d\nw\n"; run({}, in); in.clear(); for (auto &s : f) in += "r " + s + "\n$d\nw x" + s + "\n"; run({}, in);
  }
  if (x.thorough) for (auto &p : A) for (auto &q : A) for (auto &s : Cmds{"u\n", "w\n", "E g\n", "r nofile\n", "@3\n", "s/\\(/x/\n", "f h\nw\n", "~en\n", "1,2w /dev/full\n", ",!sort\n"}) go(p + q + s + RESET, 9);
}

// C32: a file is locked as long as it is edited
static Str locked(Runner &r, const Case &c, Ctx &x) {
  Case d = c; d.note.clear(); d.hook = c.note == "locked" ? "=l:count" : "=k:count"; d.hv = -1; d.w0 = -1; d.w1 = 1L << 40;
  Model m; m.states = &x.states; m.edges = &x.edges; Result want = m.run(d);
  if (m.unsupported) { ++x.skipped; return ""; }
  if (c.err2out) { Case e = c; e.note.clear(); want = r.run(e, 20); ++x.cases; }      // nor is it mentioned, as standard input is not a terminal
  Str exp, why; for (auto &f : m.locks) exp += f + (f.empty() ? "\n" : ",\n");
  Result g;
  for (int t = 0; t < 2; ++t) {
    why.clear(); g = r.run(d, t ? 30 : 8); ++x.cases;
    if (!(g == want)) why = "expected\n" + dump(want);
    else if (c.note != "locked" && r.labels != exp) why = "files locked at each # line: expected " + esc(exp) + "\nobserved " + esc(r.labels);
    if (why.empty()) break;
  }
  x.outcomes.insert(fnv(dump(g))); x.states.insert(fnv(exp)); x.edges.insert(fnv(dump(c)));
  return why.empty() ? "" : why + "\nobserved\n" + dump(g);
}
static void c32(Ctx &x, bool so) {
  x.rule = "every sequence of commands that name, read and write files up to a depth; after each command another process finds exactly the file being edited locked (flock); the same sequences with all files locked by another process from the start give the outcome they give without";
  x.exec = locked;
  if (so) return;
  Cmds A = {"e f\n", "E g\n", "e\n", "E n\n", "r\n", "r g\n", "r n\n", "w\n", "w g\n", "w f\n", "w n\n", "W\n", "W g\n", "f g\n", "f n\n", "f\n", "2d\n", "1,2w\n", "1w f\n", "99p\n", "u\n", "E !cat g\n", "r !cat f\n", "w !cat >h\n", "!:\n", ",!sort\n", "~en\n", "~ep\n", "~E g f\n", "~f g n\n", "E .\n", "w /dev/null\n", "1m>1\n", "E ln_f\n", "w ln_f\n", "r ln_f\n", "w sl_g\n", "E sl_g\n"},
       B = {"e f\n", "E g\n", "E n\n", "r\n", "r g\n", "w\n", "w g\n", "w n\n", "W\n", "f g\n", "f n\n", "2d\n", "~en\n", "w ln_f\n", "E sl_g\n", "E !cat g\n"};
  for (Cmds args : {Cmds{}, Cmds{"f"}, Cmds{"f", "g"}, Cmds{"-s", "n"}}) for (Str note : {"", "locked"}) {
    Case b; b.files = {{"f", "1aa\n2bb\n"}, {"g", "g1\n"}, {"ln_f", "1aa\n2bb\n"}, {"sl_g", ""}}; b.args = args; b.note = note;
    auto mark = [](const Cmds &v) { Cmds r; for (auto &s : v) r.push_back(s + "#=\n"); return r; };
    seqs(x, b, "#=\n", mark(A), 1, 2, ""); seqs(x, b, "#=\n", mark(B), 3, x.thorough ? 4 : 3, "");
    b.err2out = note == "locked"; for (Str o : {"-v", "-s"}) { b.args = args; b.args.insert(b.args.begin(), o); seqs(x, b, "#=\n", mark(B), 1, 2, ""); }
  }
}
void add_long(std::vector<Prop> &v) { v.push_back({"C31", "model_checking", c31}); v.push_back({"C32", "model_checking", c32}); }
