// C27: every command line in every mode of operation.
#include "gen.hh"

static void c27(Ctx &x, bool so) {
  x.rule = "every command line of up to three characters over the alphabet of addresses, commands, suffixes and delimiters, and every line of a catalogue of commands and extensions, in every mode (default, -G, POSIXLY_CORRECT, -E, -s, -v, -p, -w, restricted and combinations); buffer, undo, mark, file name, messages, flags and exit status observed and compared with the model";
  if (so) return;
  struct Mode { Cmds args; bool posix; const char *argv0; };
  std::vector<Mode> modes = {{{}, false, "ed"}, {{"-G"}, false, "ed"}, {{}, true, "ed"}, {{"-E"}, false, "ed"}, {{"-s"}, false, "ed"}, {{"-v"}, false, "ed"}, {{}, false, "red"},
    {{"-G", "-s"}, false, "ed"}, {{"-s"}, true, "ed"}, {{"-v", "-p:"}, false, "ed"}, {{"-r", "-G"}, false, "ed"}, {{"-E"}, true, "ed"}, {{"-w"}, false, "ed"}, {{"-Gv"}, false, "ed"}, {{"-v"}, true, "ed"}, {{"-", }, false, "ed"}, {{"-G"}, true, "red"}};
  auto go = [&](const Mode &m, const Str &in) {
    Case c; c.argv0 = m.argv0; c.args = m.args; c.args.push_back("f"); c.input = in; if (m.posix) c.env = {{"POSIXLY_CORRECT", "1"}};
    c.files = {{"f", "a1\nba\n2a\n"}, {"g", "gg\n"}}; x.emit(c); };
  Str tail = "yy\n.\nh\n.=\n,n\nu\n,n\n'an\nf\n,s/a/X/\n.=\nq\nw z\n";
  Str al = "1$.,;'a/pnldjkmtsgvuxzq=+-^%~<>@20!hHPfewrEQWciZ[]&\\*? \t\"#IJY:{|}()", core = "12$.,;'a/pnldjmtgsuk+-=*% ", core2 = "1$.,;'a/pdmtgs+-=%&z";
  auto bad = [](const Str &s) { return s.find('!') != Str::npos && s.find("!!") == Str::npos && s.back() != '!'; };   // would run a command
  for (auto &m : modes) {
    go(m, tail); for (char a : al) { Str s(1, a); go(m, "2ka\n" + s + "\n" + tail); for (char b : al) { Str t = s + b; if (!bad(t)) go(m, "2ka\n" + t + "\n" + tail); } }
    bool main = &m < &modes[3];
    if (main || x.thorough) for (char a : core) for (char b : core) for (char d : core) go(m, "2ka\n2\n" + (Str("") + a + b + d) + "\n" + tail);
    if (x.thorough && main) for (char a : core2) for (char b : core2) for (char d : core2) for (char e : core2) go(m, "2ka\n2\n" + (Str("") + a + b + d + e) + "\n" + tail);
  }
  // what the modes change
  Cmds cat = {"1,2,3p\n", "1;;p\n", ",,p\n", "%p\n", "2%p\n", "+1 2p\n", "1 2p\n", "/a/,/b/p\n", "3,1p\n", "0p\n", "0\n", "0d\n", "0c\nyy\n.\n", "0i\nyy\n.\n", "0j\n", "0r g\n", "0l\n", "2,2,2,2d\n", "1,2j\n", "j\n", "2j\n", "0m1\n", "1m0\n", "1,2m2\n", "s/a/\\n/\n", "s/a/x\\\ny/\n", "s/a/%/\n", "s/a/x/p2\n", "s/a/x/gn\n", "s\n", "sp\n", "s2\n", "sr\n", "s/a/x\n", "s/a\n", "s,a,x,\n", "s/\\(a\\)/[\\1]/\n", "s/(a)/[\\1]/\n", "s/a|b/X/g\n", "s/a\\|b/X/g\n", "s/a+/X/\n", "s/a\\+/X/\n", "s/a?/X/\n", "s/a\\?/X/\n", "s/a{1}/X/\n", "s/a\\{1\\}/X/\n", "s/^*a/X/\n", "s/*/X/\n", "s/\\w/X/\n", "s/\\</X/\n", "s/\\b./X/g\n", "s/[[:digit:]]/D/\n", "s/(b)(a)/\\2\\1/\n", "s/((a)|b)+/<&>/\n", "s/a$\\|^b/X/\n", "s/()/X/\n", "s/a**/X/\n", "s/a{,1}/X/g\n", "s/a{2,1}/X/\n", "s/(/X/\n", "s/\\(/X/\n", "s/)/X/\n", "s/\\)/X/\n", "s/[a/X/\n", "s/a\\/X/\n", "s/\\u/X/\n", "s/a/\\u&/\n", "s/a/\\U&b\\E/\n", "g/a/p\n", "g/a\n", "g/a/\n", "g\n", "g/a/s/a/X/\\\np\n", "g/a/g/b/p\n", "g/a/v/b/d\n", "g/a/G/b/\n", "g/a/u\n", "g/a/a\\\nyy\n", "g/a/i\\\nyy\\\n.\\\nd\n", "g/a/c\\\nyy\n", "g/a/!echo q\n", "g/a/r g\n", "g/a/w z2\n", "g/a/e g\n", "g/a/q\n", "g/a/f z\n", "G/a/\nd\n&\n", "V/1/\np\n\n", "Gp/a/\n", "v/a/p\n", "u\n", "U\n", "1d\nu\nu\n", "2d\nw\nu\nq\n", "e\n", "e g\n", "1d\ne g\ne g\n", "1d\ne g\nh\ne g\n", "1d\nq\n", "1d\nq\nq\n", "1d\nq\nh\nq\n", "1d\ne g\nq\n", "1d\nQ\n", "E g\n", "f\n", "f z\nf\n", "f !x\nf\n", "r\n", "r g\n", "r nofile\nf\n", "w\n", "w z\nf\n", "1w z\nf\n", "1,2W z\n", "wq\n", "1wq z\n", "wq z\n", "w!cat\n", "w !cat\n", "r !echo q\nf\n", "1r!echo q\n", "e !echo q\nf\n", "!echo q\n", "!echo %\n", "!!\n", "!echo q\n!!\n", "1!cat\n", "1,2!sort -r\n", ",!sed p\n", "!\n", "z\n", "1z\n", "2z1\n", "zn\n", "Z\n", "]\n", "[\n", "P\nP\n", "H\nzz\nH\n", "zz\nh\n", "h\n", "k\n", "kA\n", "ka\n'ad\n", "'b\n", "=\n", "1,2=\n", ".=\n", "=p\n", "=n\n", "l\n", "a\n\\\t\n.\nl\n", "1l5\n", "n5\n", "p5\n", "pp\n", "pnl\n", "dn\n", "mp\n", "m0p\n", "t0n\n", "1t.l\n", "~e g\n", "~f\n", "~w\n", "~\n", "1t>1\n<1t$\n", "1m>1\n", "@1\n", "1t>1\n@1\n", "x\n", "#c\n", "1#c\n", "\"c\n", "&\n", "ap\nyy\n.\n", "in\nyy\n.\n", "cl\nyy\n.\n", "a\nyy\n", "a\nyy", "1\n+\n+\n+\n", "1\n\n\n\n", "2\n-\n-\n-\n", "^\n", "--\n", "++\n", "1+\n", "$-\n", "$+1\n", "/a/\n//\n", "?a?\n??\n", "/zz/\n", "/a\n", "?b\n", "/a/p\n", "/a/;//p\n", "/b/+1p\n", "/\\/\n", "d\nd\nd\nd\n", ",d\np\n", ",d\nw\n", ",d\na\n.\n", ",d\n$p\n", ",d\nr g\n", "2,$d\n.=\n", " 1 , 2 p\n", "1,2 p\n", "1p \n", "p p\n", "\t2p\n", "2 p\n", "2k a\n", "2 m 0\n", "e g x\n", "w z x\n", "w  z\n", "wz\n", "rg\n", "eg\n", "fz\nf\n", "Eg\n", "Wz\n", "qp\n", "q 1\n", "1q\n", "Q1\n", "hp\n", "up\n", "u1\n", "Hp\n", "1H\n", "Pn\n", "1P\n", "1f\n", "1e g\n", "1,2k a\n'ap\n", "K\n", "Kx\n", "y\n", "Y\n", "b\n", "o\n", "D\n", "zz9\n"};
  for (auto &m : modes) for (auto &a : cat) { go(m, "2ka\n" + a + tail); if (&m < &modes[3] || x.thorough) for (auto &b : cat) go(m, a + b + tail); go(m, ",d\n" + a + tail); go(m, "H\n2\n" + a + "1d\n" + a + tail); }
}
void add_mode(std::vector<Prop> &v) { v.push_back({"C27", "model_checking", c27}); }
