// C30: names of files are taken literally or refused.
#include "gen.hh"

// The note of a case is the name whose file may change.
static Str named(Runner &r, const Case &c, Ctx &x) {
  size_t z = c.note.find('\1'); Str N = c.note.substr(z + 1), rest = c.note.substr(0, z); char kind = rest[0]; Str suf = rest.substr(1);
  Str why; Result R;
  for (int t = 0; t < 2; ++t) {
    why.clear(); R = r.run(c, t ? 30 : 8); ++x.cases;
    if (R.status >= 1000) { why = "the editor crashed or hung"; continue; }
    bool told = R.status != 0 || R.out.find("?\n") != Str::npos;
    Str T = c.files.at(N);
    for (auto &f : R.files) {
      auto i = c.files.find(f.first); Str was = i == c.files.end() ? "" : i->second;
      if (i != c.files.end() && f.second == was && f.first != N) continue;
      if (f.first == N && (f.second == "Q" + T || (told && f.second == T))) continue;
      if (kind == 'b' && f.first == N + suf && f.second == T) continue;
      why = f.first == N ? "the file named does not have the expected contents, and no error was reported" : "file " + escn(f.first) + " changed";
    }
    for (auto &f : c.files) if (!R.files.count(f.first)) why = "file " + escn(f.first) + " is gone";
    if (why.empty() && kind == 'b' && R.files.at(N) != T && !R.files.count(N + suf)) why = "no backup of the file";
    bool odd = N.find('\n') != Str::npos || isspace((unsigned char) N[0]) || N.back() == '\\' || N.size() > 200;
    if (why.empty() && !odd && R.files.count(N) && R.files.at(N) == T) why = "the name is refused, though it can be taken literally";
    if (why.empty()) break;
  }
  x.outcomes.insert(fnv(dump(R))); x.states.insert(fnv(N + (R.files.count(N) && R.files.at(N)[0] == 'Q' ? "=" : "?"))); x.edges.insert(fnv(dump(c)));
  if (R.files.count(N)) ++x.counters[R.files.at(N)[0] == 'Q' ? "edited" : "refused"];
  return why.empty() ? "" : why + "\nname " + escn(N) + "\n" + dump(R);
}

static void c30(Ctx &x, bool so) {
  x.rule = "every name of up to three characters over the alphabet of blanks, controls, escapes, quotes, pattern, option, command and multibyte characters (and longer ones made of words), as an operand, in pairs of operands, edited in place with and without backup, and as an argument of every command that takes a name, next to files with all names it might be mistaken for; only the file of that name (and its backup) changes, or an error is reported";
  x.exec = named;
  if (so) return;
  Cmds wide = {" ", "\t", "\n", "\\", "!", "%", "*", "x", ".", "~", "-", "+", "?", "[", "]", "\xc3\xa9", "\r", "\v", "#", "$", "&", ";", "\"", "'", "<", "|", "{", ",", "=", ":", "^", "\x7f", "\xff", "1", "w", "\x01"}, core = {" ", "\n", "\\", "!", "%", "*", "x", ".", "~", "-", "\t", "+", "?"};
  std::vector<Str> names;
  for (auto &a : wide) { names.push_back(a); for (auto &b : wide) { names.push_back(a + b); if (x.thorough) for (auto &c : wide) names.push_back(a + b + c); } }
  if (!x.thorough) for (auto &a : core) for (auto &b : core) for (auto &c : core) names.push_back(a + b + c);
  for (Str a : {"g x", "x g", "a\\ b", "a\\nb", "g\\", "x!", "g!x", "%%", "x%g", "..x", "...", "- x", "-e", "-s", "--", "+1", "+x+", "x\\\\", "x\\\ng", "g\nw g", "x\n!touch z", " !touch z", "\n!touch z", "x\nQ\n", "1,$d", "|cat", "~x"}) names.push_back(a);
  names.push_back(Str(255, 'n')); names.push_back(Str(250, 'n')); names.push_back(Str(200, '\\')); names.push_back(Str(199, '\\')); names.push_back(Str(120, ' ') + "x"); names.push_back("x" + Str(120, ' '));
  for (auto &N : names) {
    if (x.over()) return;
    if (N == "." || N == ".." || N.empty()) continue;
    bool shell = N[0] == '!';
    Case c; auto put = [&](const Str &n) { if (!n.empty() && n != "." && n != ".." && n != N && n.find('/') == Str::npos && n.size() < 256) c.files[n] = "decoy\n"; };
    for (size_t i = 1; i < std::min<size_t>(N.size(), 8); ++i) { put(N.substr(0, i)); put(N.substr(i)); put(N.substr(0, N.size() - i)); }
    { Str u, v, w; for (char ch : N) { if (ch != '\\') u += ch; if (ch != ' ' && ch != '\t') v += ch; w += ch; if (ch == '\\') w += ch; } put(u); put(v); put(w); put("x"); put("g"); put(N + "g"); put("xg"); }
    c.files[N] = "target\n";
    auto go = [&](Cmds args, const Str &in, const Str &kind = "-") { c.args = args; c.input = in; c.note = kind + "\1" + N; x.emit(c); };
    Str ed = ",s/^target/Qtarget/\n";
    bool plus = N[0] == '+' || N == "-";
    if (!shell && !plus) {
      go({"--", N}, ed + "w\n");
      go({"-s", "--", N}, "1s/^/Q/\nwq\n");
      go({"-s", "-i", "-e", "s/^t/Qt/", "--", N}, "");
      go({"-i", "-e", "s/^t/Qt/", "--", N}, "");
      go({"-s", "-i~", "-e", "s/^t/Qt/", "--", N}, "", "b~");
      if (N.size() < 250) go({"-i.b", "-e", "s/^t/Qt/", "--", N}, "", "b.b");
      go({"--", "g", N}, "~en\n" + ed + "w\n");
      go({"--", N, "g"}, ed + "w\nq\n");
      go({"-s", "-i", "-e", "g/^t/s//Qt/", "--", "g", N, "g"}, "");
      go({"--", "g", N}, "~en\n~ep\n~en\n" + ed + "w\n");
    }
    if (shell || N.find('\n') != Str::npos || isspace((unsigned char) N[0])) continue;
    if (N.back() == '\\') continue;    // continues on the next line
    go({"g"}, "E " + N + "\n" + ed + "w\n");
    go({}, "r " + N + "\n" + ed + "w\n");
    go({}, "a\nQtarget\n.\nw " + N + "\n");
    go({}, "a\nQtarget\n.\nf " + N + "\nw\n");
    go({}, "f " + N + "\na\nQtarget\n.\nwq\n");
    go({"g"}, ",c\nQtarget\n.\nw " + N + "\n");
    go({}, "e " + N + "\n" + ed + "wq " + N + "\n");
  }
}
void add_name(std::vector<Prop> &v) { v.push_back({"C30", "model_checking", c30}); }
