// C28: large files, long lines, big pipes; positions in the buffer file and in the list of lines.
#include "gen.hh"

static Str num(long n, long w = 0) { Str s; for (long i = 1; i <= n; ++i) s += std::to_string(i) + (w ? Str(w + i % 7, 'a' + i % 26) : Str()) + "\n"; return s; }
static Str fill(long n) { Str s(n, 'a'); for (long i = 0; i < n; ++i) s[i] = 'a' + (i * 7 + i / 26) % 26; return s; }
static void c28(Ctx &x, bool so) {
  x.rule = "every line length and every number of lines of the ranges, and all around the powers of two beyond, through commands that read, write, copy, change, filter and undo; every part of buffers around the capacity of a pipe through filters and shell commands; every sequence of commands at scattered lines up to a depth on long buffers; buffer and files compared byte by byte with the model";
  if (so) return;
  std::set<long> around; for (long p = 1; p <= (x.thorough ? 262144 : 65536); p *= 2) for (long d = -2; d <= 2; ++d) if (p + d >= 0) around.insert(p + d);
  auto go = [&](const Str &in, std::map<Str, Str> fl) { Case c; c.args = {"f"}; c.files = fl; c.input = in; x.emit(c); };
  // A. line lengths
  std::set<long> len = around; for (long n = 0; n <= (x.thorough ? 9000 : 1100); ++n) len.insert(n); for (long k = 4096; k <= 32768; k += 4096) for (long d = -9; d <= 9; ++d) len.insert(k + d);
  for (long n : len) {
    Str L = fill(n);
    go("2t0\n3s/$/x/\nw g\n1,$j\nw h\nu\n2m$\nw i\nE g\n,w j\n2d\n1r f\nw k\n", {{"f", "one\n" + L + "\nthree\n"}});
    go("1a\n" + L + "\n" + L + "z\n.\n2t>1\n<1t$\n2,3t>>1\n<1t0\nw g\nu\nw h\n", {{"f", "one\ntwo\n"}});
    if (n < 20000) go("1s/$/" + L + "/\n2s/b/" + L + "&\\\n" + L + "/\nw g\ng/a/s/a/A" + L.substr(0, std::min(n, 300L)) + "/g\nw h\nu\nu\n,s/z$//\nw i\n", {{"f", "xy\nabc\nq\n"}});
    if (n < 20000 || x.thorough) { go("$r g\n2,3!cat\nw h\n,!sed p\nw i\nu\nw j\n$l\n", {{"f", "one\ntwo\n"}, {"g", L + "\nlast" + L}}); }
    if (n < 5000) { go("f " + Str(std::min(n, 200L), 'n') + "\nr !echo " + L + "\n$n\n/" + L.substr(0, std::min(n, 400L)) + "/p\nw g\n", {{"f", "one\n" + L + "z\n"}}); go("g/o/a\\\n" + L + "\\\n" + L + "q\nw g\nu\nw h\n", {{"f", "one\ntwo\n"}}); }
  }
  // B. numbers of lines
  std::set<long> cnt = around; for (long n = 0; n <= (x.thorough ? 1500 : 260); ++n) cnt.insert(n);
  for (long n : cnt) {
    if (n > 70000) break;
    Str F = num(n);
    go("w g\n,t$\n$=\nw h\nu\n$=\n1,$-1m$\nw i\n$d\n2,$-2j\nw j\nu\nu\n", {{"f", F}});
    if (n && n < 9000) go("g/[37]$/d\nw g\nu\nv/5/s/$/-/\nw h\nu\n,t>1\n1,$-d\n<1t0\n$=\nw i\n", {{"f", F}});
    if (n && n <= 9000) go("g/^/m0\nw g\nu\nw h\ng/1$/t.\nw i\n" + std::to_string(n / 2 + 1) + "r f\nw j\n", {{"f", F}});
    if (n && n <= 20000) go(",!tac\nw g\nu\n1,$-!sort -r\nw h\n$r !cat f\nw !cat > i\n1,$w k\n", {{"f", F}});
    if (n && n <= 3000) { go("a\n" + F + ".\n=\n,w g\n" + std::to_string(n) + "ka\n1,'ad\n'ap\nw h\nu\n'an\n", {{"f", F}}); go("s/^/" + [&] { Str r; for (long i = 0; i < n; ++i) r += "y\\\n"; return r; }() + "/\n$=\nw g\nu\nw h\n", {{"f", "1\n2\n3\n"}}); }
  }
  // C. around the capacity of a pipe, every part
  Cmds flt = {"cat", "sed p", "sort", "tac", "sed 1d", "wc -l", "cat; exit 3"};
  for (long bytes : {65536L, 131072L, 4096L, 8192L}) for (long d : {-60L, -2L, -1L, 0L, 1L, 2L, 60L, 4096L}) {
    Str F; while ((long) F.size() < bytes + d - 41) F += fill(39) + "\n"; F += Str(std::max(0L, bytes + d - (long) F.size() - 1), 'e') + "\n";
    long n = std::count(F.begin(), F.end(), '\n');
    for (auto &c : flt) for (auto &r : Cmds{",", "1,$-1", "2,$", "2,$-1", "$", "1," + std::to_string(n / 2), std::to_string(n / 2) + ",$"}) { go(r + "!" + c + "\n=\nw g\nu\nw h\n2t$\nw i\n", {{"f", F}}); }
    go("r !cat f\nw g\nw !cat > h\n1,2w !cat > i\n2,$-w !wc -l\nE !cat g\nw k\n", {{"f", F}});
  }
  // D. commands at scattered lines: every sequence
  auto ops = [](long n) { Cmds r; Str m = std::to_string(n / 2), q = std::to_string(n / 4), t = std::to_string(n - n / 4);
    for (auto &a : {Str("1"), q, m, Str("$")}) { r.push_back(a + "d\n"); r.push_back(a + "a\nyy\n.\n"); r.push_back(a + "n\n"); }
    for (auto &a : {q + ",+3", m + ",$", "1," + q}) { r.push_back(a + "t" + m + "\n"); r.push_back(a + "j\n"); }
    r.push_back("1," + q + "m$\n"); r.push_back(t + ",$m1\n"); r.push_back(m + "s/$/ s/\n"); r.push_back("u\n"); r.push_back(m + "ka\n"); r.push_back("'an\n"); r.push_back(q + "r g\n"); r.push_back("g/9/s/$/!/\n"); r.push_back(m + ",+9!tac\n"); r.push_back("/77/d\n"); r.push_back("?1$?i\nzy\n.\n"); r.push_back("w h\n"); return r; };
  { Cmds o = ops(120); Case c; c.args = {"f"}; c.files = {{"f", num(120)}, {"g", "g1\ng2\n"}}; seqs(x, c, "", o, 1, 3, "=\nw z\nu\nw y\n");
    if (x.thorough) { Cmds o4; for (size_t i = 0; i < o.size(); i += 2) o4.push_back(o[i]); seqs(x, c, "", o4, 4, 5, "=\nw z\n"); } }
  { Cmds o = ops(4000); Case c; c.args = {"f"}; c.files = {{"f", num(4000, 20)}, {"g", num(30, 300)}}; seqs(x, c, "", o, 1, 2, "=\nw z\nu\nw y\n"); }
}
void add_big(std::vector<Prop> &v) { v.push_back({"C28", "model_checking", c28}); }
