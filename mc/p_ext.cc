// Extension properties: registers, macros, printing, scrolling, encryption, UTF-8, modes, large buffers.
#include "gen.hh"

static void c16(Ctx &x, bool so) {
  x.rule = "every sequence of register commands (store, append, move, copy, insert, delete) and editing commands up to a depth, from several buffers; all registers and the buffer observed";
  if (so) return;
  Cmds op;
  for (Str a : {"1", "2,3", "$", ""}) for (Str c : {"m>", "t>", "m>>", "t>>", "m>1", "t>1", "m>>1", "t>>2"}) op.push_back(a + c + "\n");
  for (Str s : {"<m", "<t", "<1m", "<1t", "<2t"}) for (Str t : {"", "0", "1", "$"}) op.push_back(s + t + "\n");
  for (Str s : {"<m>1", "<t>1", "<t>>1", "<1m>", "<1m>2", "<1t>2", "<1t>>2", "<2m>>1", "<1m>1", "<1t>>1", "<m>>2", "<2t>"}) op.push_back(s + "\n");
  for (Str s : {"1d", "2,$d", "1c\nnew\n.", "u", "1,2j", "1m$", "s/^/+/", "e f", "E g", "$a\nend\n.", "r g", "g/o/t>>1", "g/./m>>2", "w f", "1ka", ",d", "3m>x", "<x", "9m>", "<9t9", "1m><"}) op.push_back(s + "\n");
  Str obs = ".=\n,n\n'an\n0a\n--\n.\n<t$\n$a\n1:\n.\n<1t$\n$a\n2:\n.\n<2t$\n<3t$\n,n\nu\n$=\nw o\nQ\n";
  std::map<Str, Str> fl = {{"f", "f1\nf2\nf3\n"}, {"g", "one\ntwo"}, {"k", ""}};
  for (Cmds a : {Cmds{}, Cmds{"f"}, Cmds{"g"}, Cmds{"-s", "g"}, Cmds{"k"}, Cmds{"-G", "f"}}) for (Str pre : {"", "a\none\ntwo\n.\n"}) {
    Case c; c.args = a; c.files = fl; seqs(x, c, pre, op, 1, x.thorough || (pre == "" && a.size() == 1 && a[0] != "k") ? 2 : 1, obs); }
  Cmds o3 = {"1m>1\n", "2t>1\n", "$t>>1\n", "1d\n", "<m0\n", "<1m$\n", "<1t1\n", "<1m>2\n", "<2t>>1\n", "<t>2\n", "u\n", "<2m.\n", "e g\n", "2,3m>>\n"};
  for (Cmds a : {Cmds{"f"}, Cmds{"g"}}) { Case c; c.args = a; c.files = fl; seqs(x, c, "", o3, 3, x.thorough ? 5 : 4, obs); }
  // register texts about the size of a stdio buffer, text and binary, with and without a final newline
  for (int base : {4096, 8192, 16384}) for (int d = -2; d <= 2; ++d) for (Str nul : {Str(), Str(1, '\0')}) for (Str nl : {"", "\n"}) for (Str mid : {"", "\n"}) {
    Str t = nul + "A" + mid; t += Str(base + d - t.size() - nl.size(), 'z') + nl;
    for (Str q : {",t>1\n$t>>1\n", ",m>1\nr f\n,t>>1\n", ",t>\n,t>>\n", ",t>1\n<1t>>2\nr g\n1t>>1\n<1t>>2\n", ",t>1\ne g\n,t>>1\n", "e g\n,t>1\ne f\n,t>>1\n"}) {
      Case c; c.args = {"-s", "f"}; c.files = {{"f", t}, {"g", "one\ntwo"}}; c.input = q + "0a\n--\n.\n<1t$\nw o\n,d\n<2t0\n<t$\nw p\nQ\n"; x.emit(c); } }
  // registers filled from the text of a global command and from binary text
  Cmds bin = {Str("\0\n", 2), Str("a\0b\nc", 5), "x\xff\n", "\n\n", "last", ""};
  for (auto &b : bin) for (auto &b2 : bin) { Case c; c.args = {"f"}; c.files = {{"f", b}, {"g", b2}}; seqs(x, c, "", {"1m>1\n", "$t>>1\n", "r g\n", "<1t$\n", "e g\n", "1d\n", "<m$\n", "<1m>\n", "u\n"}, 1, x.thorough ? 4 : 3, "w o\n<1t0\n<t$\nw p\n,l\nQ\n"); }
}

static void c17(Ctx &x, bool so) {
  x.rule = "every macro built from up to three lines of a catalogue, stored and executed, nested and from global commands, followed by every observer";
  if (so) return;
  Cmds ln = {"1p", "$", "s/o/0/", "a", "new", ".", "d", "9p", "u", "<2t.", "@2", "1m$", "g/./s/$/!/", "w o", "q", "Q", "!echo hi", "1t>2", "1t>1", "i", ".=", "h", "H", "e g", "r g", "/t/", "s//T/", "ka", "'ap", "~en", "s/x/y/\\", "g/o/d\\", "2@3", "c"};
  Cmds call = {"@1\n", "1@1\n", "@1\n@1\n", "$@1\nu\n", "g/o/@1\n", "@3\n", "@1", "9@1\n", "@\n", "<@1\n", "@1p\n", "@ 1\n", "<1@\n", "G/o/\n@1\n\n", "v/o/@1\n"};
  Str obs = "h\n.=\n,n\n<1t$\n<2t$\n,n\nu\n,n\nw out\nQ\n";
  auto go = [&](const Str &m, const Str &k, Cmds args, bool sk) {
    // the macro is read from a file and moved to register 1
    Case c; c.args = args; c.files = {{"f", "one\ntwo\nfour\n"}, {"g", "1p\ns/w/W/\n"}, {"m", m}, {"m2", "s/e/E/\n2p\n"}, {"m3", "@2\n@1\n"}};
    c.seekable = sk;
    c.input = "e m\n,t>1\ne m2\n,t>2\nE f\n" + k + obs; x.emit(c);
  };
  for (auto &a : ln) for (auto &k : call) for (bool sk : {false, true}) { go(a + "\n", k, {}, sk); go(a, k, {"-s"}, sk); }
  for (auto &a : ln) for (auto &b : ln) for (auto &k : call) if (x.thorough || &k < &call[6]) go(a + "\n" + b + "\n", k, {}, false);
  for (auto &a : ln) for (auto &b : ln) for (auto &d : ln) { go(a + "\n" + b + "\n" + d + "\n", "@1\n", {}, false); if (x.thorough) { go(a + "\n" + b + "\n" + d + "\n", "g/o/@1\n", {}, true); go(a + "\n" + b + "\n" + d, "1@1\n@1\n", {}, true); } }
  // nested macros
  Cmds l2 = {"1p", "@2", "@1", "d", "s/o/0/", "u", "9p", "$t>2", "<2m>1", "a\nZ\n.", "1,2d", "@3", "2t>1", "q"};
  for (auto &a : l2) for (auto &b : l2) for (auto &d : l2) for (Str k : {"@1\n", "@2\n", "g/t/@1\n"}) {
    if (!x.thorough && k != "@1\n") continue;
    Case c; c.files = {{"f", "one\ntwo\nfour\n"}, {"m", a + "\n" + b + "\n"}, {"m2", d + "\n3=\n"}};
    c.input = "e m\n,t>1\ne m2\n,t>2\nE f\n" + k + obs; x.emit(c);
  }
}

// Forward scrolling over lines that fold: successive pages show every row of the text,
// in order, none twice, up to the last page, which shows the last rows.
static Str fwd_rows(const Case &c) {
  int H = 24, W = 80; for (auto &e : c.env) if (e.first == "LINES") H = atoi(e.second.c_str()); else if (e.first == "COLUMNS") W = atoi(e.second.c_str());
  const Str &t = c.files.at("f"); int R = H - 1;
  bool num = c.input.find('n') != Str::npos;
  std::vector<Str> rows; std::vector<int> line; int L = 0, n = (int) std::count(t.begin(), t.end(), '\n'), dig = (int) std::to_string(n).size();
  for (size_t i = 0; i < t.size();) {
    size_t e = t.find('\n', i); Str s = t.substr(i, e - i); i = e + 1; ++L;
    Str row; int col = 0;
    if (num) { char b[32]; snprintf(b, 32, "%*d\t", dig, L); row = b; col = dig / 8 * 8 + 8; }
    for (size_t k = 0; k < s.size();) {
      int cs = 1, w = 1; unsigned char ch = s[k];
      if (ch >= 0xf0) cs = 4, w = 1; else if (ch >= 0xe0) cs = 3, w = 2; else if (ch >= 0xc0) cs = 2;   // wide: only CJK is used
      if (ch == '\t') w = 8 - col % 8;
      row += s.substr(k, cs); col += w; k += cs;
      if (col >= W && k < s.size()) { rows.push_back(row); line.push_back(L); row.clear(); col = 0; }
    }
    rows.push_back(row + "\n"); line.push_back(L);
  }
  Str out = std::to_string(t.size()) + "\n"; int N = (int) rows.size();
  auto page = [&](int a, int b) { for (int k = a; k < b; ++k) out += rows[k]; if (b > a && rows[b - 1].back() != '\n') out += "\n"; };
  int at = 0, nz = (int) std::count(c.input.begin(), c.input.end(), 'z'); bool done = false;
  for (int z = 0; z < nz; ++z) {
    if (done) { out += "?\n"; break; }     // beyond the end: error; paging is over
    if (N - at >= R || at == 0) { page(at, std::min(N, at + R)); at = std::min(N, at + R); }
    else { page(std::max(0, N - R), N); at = N; }
    done = at == N;
  }
  return out;
}
// Folded lines, any sequence: each command (introduced by the prompt "#") shows consecutive rows of the text as it is
// then, no more than a page of them, or an error. The case's input is "commands\n...": edits are followed here.
static Str c19_fold(Runner &r, const Case &c, Ctx &x) {
  ++x.cases;
  int H = 24, W = 80; for (auto &e : c.env) { if (e.first == "LINES") H = atoi(e.second.c_str()); if (e.first == "COLUMNS") W = atoi(e.second.c_str()); }
  Result got; for (int k = 0; k < 3; ++k) { got = r.run(c, k ? 20 : 4); if (got.status < 1000) break; }
  x.outcomes.insert(fnv(dump(got))); x.states.insert(fnv(dump(got))); x.edges.insert(fnv(dump(c)));
  if (got.status >= 1000) return "crash or hang\n" + dump(got);
  std::vector<Str> L; { const Str &t = c.files.at("f"); size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); L.push_back(t.substr(i, e - i)); i = e + 1; } }
  Cmds in; { size_t i = 0; while (i < c.input.size()) { size_t e = c.input.find('\n', i); in.push_back(c.input.substr(i, e - i)); i = e + 1; } }
  std::vector<Str> out; { size_t i = got.out.find('#'); while (i != Str::npos) { size_t e = got.out.find('#', i + 1); out.push_back(got.out.substr(i + 1, e == Str::npos ? e : e - i - 1)); i = e; } }
  size_t o = 0; int R = H - 1; std::vector<std::vector<Str>> old;
  for (size_t k = 0; k < in.size() && o < out.size(); ++k, ++o) {
    const Str &q = in[k]; const Str &t = out[o];
    char cc = q.empty() ? 0 : q.back();
    if (strchr("zZ[]", cc) && cc) {
      if (t == "?\n") continue;
      // rows of the text
      Str all; std::vector<size_t> st; std::vector<size_t> eol;
      for (auto &l : L) { size_t b = all.size(); for (size_t z = 0; z == 0 || z < l.size(); ++z) if (z % W == 0) st.push_back(b + z); all += l + "\n"; }
      st.push_back(all.size());
      bool ok = t.empty();
      for (size_t a = 0; !ok && a + 1 < st.size(); ++a) for (size_t b = a + 1; !ok && b < st.size() && b <= a + R; ++b) {
        Str w = all.substr(st[a], st[b] - st[a]); if (w.empty() || w.back() != '\n') w += '\n'; ok = w == t; }
      if (!ok) return "command " + std::to_string(k + 1) + " (" + q + ") of\n" + c.input + "shows no consecutive rows of a page of the text\n" + dump(got);
    } else if (t != "?\n" || q == "") {
      long n = 0; size_t z = 0; while (z < q.size() && isdigit(q[z])) n = n * 10 + q[z++] - '0';
      if (q[z] == 'd') L.erase(L.begin() + n - 1);
      else if (q[z] == 's') L[n - 1] = q.substr(z + 5, q.size() - z - 6);
      else if (q[z] == 't') L.insert(L.begin() + atoi(q.c_str() + z + 1), L[n - 1]);
    }
  }
  return "";
}
static Str c19_exec(Runner &r, const Case &c, Ctx &x) {
  if (c.note == "fold") return c19_fold(r, c, x);
  if (c.note != "forward") return Ctx::default_exec(r, c, x);
  Str want = fwd_rows(c); ++x.cases; x.outcomes.insert(fnv(want));
  Result got;
  for (int k = 0; k < 3; ++k) { got = r.run(c, k ? 20 : 4); if (got.out.compare(0, want.size(), want) == 0) return ""; }
  return "expected\nout " + esc(want) + "\nobserved\n" + dump(got);
}
static void c19(Ctx &x, bool so) {
  x.exec = c19_exec;
  x.rule = "every sequence of scrolling, printing and moving commands up to a depth, for every window height and buffer length of the ranges";
  if (so) return;
  auto lines = [](int k) { Str r = "a\n"; for (int i = 1; i <= k; ++i) r += "L" + std::to_string(i) + "\n"; return r + ".\n"; };
  Cmds op;
  for (Str a : {"", "1", "2", "5", "$", "0", "99", ".", "1,3", "$-2"}) for (Str c : {"z", "Z", "[", "]"}) op.push_back(a + c + "\n");
  for (Str s : {"z3", "Z3", "]4", "[4", "z5n", "Zl", "zp", "]x", "[x", "zz", "z1", "z0", "Z99999999999999999999", "[99999999999999999999", "5", "p", "2,4p", ",n", "1,6p", "d", "$d", "1t.", "g/3/z", "g/2/Z\\", "2;]", "/3/z", "e f", "u", "1ka", "'aZ", "z2", "]2", "[3n", "2,3l", "$a\nnew\n.", "\n"}) op.push_back(s == "\n" ? s : s + "\n");
  Str tail = ".=\nz\n.=\nZ\n]\n.=\n[\n.=\np\n,n\n";
  for (int h = 2; h <= (x.thorough ? 14 : 8); ++h) for (int k = 0; k <= (x.thorough ? 16 : 10); ++k) {
    Case c; c.env = {{"LINES", std::to_string(h)}}; c.files = {{"f", "f1\nf2\nf3\nf4\nf5\n"}};
    seqs(x, c, lines(k), op, 1, x.thorough || ((h == 4 || h == 7) && (k == 3 || k == 7 || k == 10)) ? 2 : 1, tail); }
  // folded lines, forward
  auto rep = [](const Str &u, int k) { Str r; for (int i = 0; i < k; ++i) r += u[0] >= 0 ? Str(1, (char) ('a' + i % 26)) : u; return r; };
  for (int h : {2, 3, 4, 5, 8}) for (int w : {9, 10, 16}) for (Str u : {"a", "\xc3\xa9", "\xe4\xb8\xad"}) for (Str first : {"1zn\n", "1z\n"}) for (int nl = 1; nl <= 5; ++nl) {
    std::vector<int> len = {0, 3, w - 1, w, w + 1, 2 * w, 3 * w + 2};
    int tot = 1; for (int i = 0; i < nl; ++i) tot *= nl > 3 && !x.thorough ? 3 : nl > 2 ? 4 : 7;
    for (int q = 0; q < tot; ++q) {
      Str t; int z = q; for (int i = 0; i < nl; ++i) { int m = nl > 3 && !x.thorough ? 3 : nl > 2 ? 4 : 7; t += rep(u, len[m == 7 ? z % 7 : m == 4 ? (z % 4) * 2 : (z % 3) * 3]) + "\n"; z /= m; }
      Case c; c.env = {{"LINES", std::to_string(h)}, {"COLUMNS", std::to_string(w)}, {"LC_ALL", "C.utf8"}}; c.files = {{"f", t}}; c.args = {"f"}; c.note = "forward";
      Str in = first; for (int i = 0; i < 30; ++i) in += first.substr(1);
      c.input = in; x.emit(c);
    } }
  // folded lines, every direction, while the text changes
  { auto rp = [](char u, int k) { Str r; for (int i = 0; i < k; ++i) r += (char) (u + (i / 3) % 7); return r; };
    Cmds o3 = {"z\n", "Z\n", "1z\n", "2z\n", "3Z\n", "$Z\n", "2\n", "1d\n", "1s/.*/S/\n", "3t0\n", "2d\n"};
    for (int h : {2, 3, 4, 5, 7}) for (int w : {9, 10}) for (auto &ln : std::vector<std::vector<int>>{{100, 1, 2, 3, 4}, {3, 35, 2, 21, 5}, {1, 2, 60}, {12, 13, 14, 15}, {1, 1, 1, 30, 1, 1, 30}}) {
      if (!x.thorough && (h + w) % 2) continue;
      Case c; c.env = {{"LINES", std::to_string(h)}, {"COLUMNS", std::to_string(w)}}; c.args = {"-s", "-p", "#", "f"}; c.note = "fold";
      Str t; int i = 0; for (int n : ln) t += rp((char) ("AHOaho"[i++ % 6]), n) + "\n";
      c.files = {{"f", t}}; seqs(x, c, "1z\n", o3, 1, x.thorough ? 4 : 3, ""); } }
  Cmds o2 = {"z\n", "Z\n", "[\n", "]\n", "1z\n", "$Z\n", "4]\n", "6[\n", "p\n", "9\n", "z4\n"};
  for (int h : {3, 4, 6, 7, 10, 13}) for (int k : {2, 5, 9, 14, 20, 40}) {
    Case c; c.env = {{"LINES", std::to_string(h)}};
    seqs(x, c, lines(k), o2, 3, x.thorough ? 5 : 4, ".=\np\n"); }
  for (Str l : {"0", "1", "-3", "abc", "", "99999999999999999999", "2", "30"}) for (Str w : {"0", "8", "9", "-1", "", "x", "99999999999999999999", "200"}) for (Str m : {"", "G", "P"}) {
    Case c; c.env = {{"LINES", l}, {"COLUMNS", w}}; if (m == "G") c.args = {"-G"}; if (m == "P") c.env.push_back({"POSIXLY_CORRECT", "1"});
    seqs(x, c, lines(30), {"z\n", "Z\n", "]\n", "[\n", ",p\n", "1,3l\n", "z4\n"}, 1, 2, ".=\n,n\n"); }
}

static void c18(Ctx &x, bool so) {
  x.rule = "p, n and l (and their combinations as suffixes) of every line over a byte alphabet up to a length, and of every line length around the window width, for every window size of a range";
  if (so) return;
  std::vector<Str> by; for (int i = 0; i < 256; ++i) if (i != '\n') by.push_back(Str(1, (char) i));
  auto file = [&](const Str &t, const Str &in, const Str &w, const Str &h, Cmds args = {}, bool utf = false) {
    Case c; c.files = {{"f", t}}; c.args = args; c.args.push_back("f"); c.input = in;
    if (w != "") c.env.push_back({"COLUMNS", w}); if (h != "") c.env.push_back({"LINES", h}); if (utf) c.env.push_back({"LC_ALL", "C.utf8"}); x.emit(c); };
  Str all = ",p\n,n\n,l\n1pln\n1;nl\n1lp\n$np\n.=\n";
  for (auto &a : by) for (bool u : {false, true}) { file(a + "\n", all, "", "", {}, u); file(a, all, "", "", {}, u); for (auto &b : by) if (x.thorough || (unsigned char) a[0] % 16 == 4 || (unsigned char) b[0] % 16 == 13) file(a + b + "\nx" + b + "y" + a + "\n", all, "40", "6", {}, u); }
  // folding: every length around the width, each class of character at each place
  for (Str w : {"9", "16", "17", "20", "24", "25", "33", "80"}) for (Str h : {"2", "3", "24"}) for (Cmds args : {Cmds{}, Cmds{"-G"}}) {
    int W = atoi(w.c_str());
    for (int len = 0; len <= 3 * W + 4 && len < (x.thorough ? 300 : 100); ++len) {
      Str t; for (int i = 0; i < len; ++i) t += (char) ('a' + i % 26);
      file(t + "\n" + t + "z\n", all, w, h, args);
      if (len) for (Str s : {" ", "\t", "\\", "\x01", "\xc3\xa9", "$", "\f", "\b", "\r"}) for (int at : {0, len / 2, len - 1, len - 2, len - W, len - W + 8, W - 1, W - 8, W - 16, W}) if (at >= 0 && at < len) {
        if (!x.thorough && (h == "3" || args.size()) && at != W - 1) continue;
        Str q = t; q.replace(at, 1, s); file(q + "\nx\n", all, w, h, args, s.size() > 1); }
    }
  }
  // numbering: digits in line number by buffer length
  for (int k : {1, 9, 10, 11, 99, 100, 101, 999, 1000, 1001}) { Str t; for (int i = 0; i < k; ++i) t += "l\n"; file(t, ",n\n1n\n$n\n5,7n\n1d\n1n\n$n\nu\n1n\n0a\nx\n.\n$n\n1nl\n", "", "", {}); }
  // many lines and long lines: pages of the frame buffer
  for (Str h : {"2", "3", "5", "24"}) for (int k = 1; k <= (x.thorough ? 60 : 30); ++k) for (int len : {1, 8, 9, 10, 18, 27, 40, 100}) {
    Str t; for (int i = 0; i < k; ++i) { t += std::to_string(i) + ":"; t += Str(len, (char) ('a' + i % 26)) + "\n"; }
    file(t, ",p\n,n\n,l\n2,$p\n$p\n1p\n.=\n", "9", h, {}); file(t, "g/a/p\n,nl\n1,2l\n$-1,$n\n", "16", h, {}); }
}

void add_ext(std::vector<Prop> &v) {
  v.push_back({"C16", "model_checking", c16});
  v.push_back({"C17", "model_checking", c17});
  v.push_back({"C18", "model_checking", c18});
  v.push_back({"C19", "model_checking", c19});
}
