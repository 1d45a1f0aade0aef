// Editing properties: buffer, addresses, marks, undo, globals, substitution, searching.
#include "gen.hh"
const Str OBS = ".=\n,n\n$=\n'an\n'bn\n";
const Str OBSU = OBS + "u\n" + OBS + "u\n,n\n.=\n";
static const Cmds L3 = {"one", "two", "three"}, L5 = {"a1", "b2", "a3", "b4", "a5"};

static void c01(Ctx &x, bool so) {
  x.rule = "every sequence of editing commands over a fixed alphabet up to a depth, from the empty, 1, 3 and 5 line buffers; distinct final outputs counted";
  if (so) return;
  Cmds ed;
  for (Str a : {"", "0", "1", "2", "$", "3", "4"}) { ed.push_back(a + "a\nA\n.\n"); ed.push_back(a + "i\nI\nJ\n.\n"); }
  for (Str a : {"", "1", "2", "$", "1,2", "2,3", ",", "0", "2,$", "3,1"}) { ed.push_back(a + "d\n"); ed.push_back(a + "c\nC\nD\n.\n"); ed.push_back(a + "j\n"); ed.push_back(a + "c\n.\n"); }
  for (Str a : {"a", "i", "0a", "0i", "$a"}) ed.push_back(a + "\n.\n");
  for (Str a : {"", "1", "2", "$", "1,2", "2,3", ",", "0"}) for (Str t : {"0", "1", "2", "3", "$", "", ".", "4"}) { ed.push_back(a + "m" + t + "\n"); ed.push_back(a + "t" + t + "\n"); }
  ed.push_back("2\n"); ed.push_back("$ka\n"); ed.push_back("1kb\n"); ed.push_back("u\n");
  std::vector<Str> starts = {"", app({"one"}), app(L3), app(L3) + "2\n", app(L5) + "2ka\n4kb\n3\n"};
  for (auto &s : starts) seqs(x, mk(""), s, ed, 1, 1, OBSU);
  for (auto &s : {starts[0], starts[2], starts[4]}) seqs(x, mk(""), s, ed, 2, 2, OBS);
}


static void c02(Ctx &x, bool so) {
  x.rule = "every address expression built from the address tokens (single, pairs with each separator, triples), in every start position of buffers of 0, 1 and 5 lines, applied with a printing, a counting and a deleting command";
  if (so) return;
  Cmds tok = {"", "0", "1", "2", "5", "6", "$", ".", "-", "+", "^", "--", "++", "+2", "-2", "^1", "+ 1", "/a/", "?a?", "/zz/", "?b4?", "'a", "'b", "'c", "'A",
              "$-1", "2+1", "3-", "1 1", "  2", ".+1", ".-1-1", "$+1", "-0", "1+2-1", "/b/+", "'a+1", "'a-", "99999999999999999999", "2 +1 -1", "/a/;/a/", "-3", "+3", "$-4", "$-5", ".-9", "2-+1"};
  Cmds tk2 = {"", "0", "1", "3", "$", ".", "-", "+", "+2", "/a/", "?a?", "'a", "'b", "6", "2;"};
  Str pre5 = app(L5) + "2ka\n4kb\n";
  std::vector<Str> st = {"", app({"a1"}), pre5 + "1\n", pre5 + "3\n", pre5, pre5 + "/b/\n2\n"};
  Cmds cm = {"n\n", "=\n", "p\n.=\n", "\n", "d\n,n\n", "k x\n", "l\n"};
  for (auto &s : st) {
    for (auto &t : tok) for (auto &c : cm) { x.emit(mk(s + t + c + ".=\n")); x.emit(mk(s + t + c + t + c + ".=\n")); }
    for (auto &t : tok) for (Str sep : {",", ";", "%"}) for (auto &u : tok) {
      x.emit(mk(s + t + sep + u + "n\n.=\n"));
      if (sep != "%" ) { x.emit(mk(s + t + sep + u + "=\n.=\n")); x.emit(mk(s + t + sep + u + "\n.=\n")); }
    }
    for (auto &t : tk2) for (Str sep : {",", ";", "%"}) for (auto &u : tk2) for (Str sep2 : {",", ";", "%"}) for (auto &w : tk2)
      if (&s == &st[3] || &s == &st[4] || x.thorough) x.emit(mk(s + t + sep + u + sep2 + w + "n\n.=\n"));
    // destination addresses and commands that take a single address
    for (auto &t : tok) for (Str c : {"m", "t"}) { x.emit(mk(s + "2" + c + t + "\n" + OBS)); x.emit(mk(s + "2,3" + c + t + "\n.=\n,n\n")); }
    for (auto &t : tok) for (Str c : {"a\nQ\n.\n", "i\nQ\n.\n", "kz\n'zn\n", "s/a/b/\n", "j\n", "c\nR\n.\n", "r f\n", "t.\n", "m0\n", "g/a/p\n", "w g\n", "!cat\n"}) { Case k = mk(s + t + c + OBS); k.files["f"] = "F\n"; x.emit(k); }
    // commands that take no address
    for (Str t : {"1", "1,2", ".", ",", "$", "0"}) for (Str c : {"h\n", "H\n", "P\n", "q\n", "Q\n", "u\n", "f\n", "f x\n", "e f\n", "E f\n"}) { Case k = mk(s + t + c + OBS); k.files["f"] = "F\n"; x.emit(k); }
  }
  if (x.thorough) {
    for (auto &t : tok) for (Str sep : {",", ";", "%"}) for (auto &u : tok) for (Str sep2 : {",", ";", "%"}) for (auto &w : tok) x.emit(mk(st[3] + t + sep + u + sep2 + w + "n\n.=\n"));
  }
}

static void c03(Ctx &x, bool so) {
  x.rule = "every failing command of a catalogue issued in every start state; afterwards the buffer, marks, undo history, default file and modified flag are observed";
  if (so) return;
  Cmds bad = {"9d\n", "0d\n", "3,1d\n", "2,1c\nyy\n.\n", "9a\nx\n", ".\n", "1,2m1\n", "1,3m2\n", "1m9\n", "1t9\n", "5,9j\n", "k\n", "kA\n", "1k1\n", "'zp\n", "'zd\n", "/nomatch/d\n", "?nomatch?m0\n",
    "s/nomatch/x/\n", ",s/nomatch/x/\n", "s/[/x/\n", "s/\\(/x/\n", "s/a/x/z\n", "s a b \n", "r nofile\n", "1r nofile\n", "e!exit 3\n", "w /nonexistent/x\n", "1,9w f2\n", "dd\n", "px\n", "d x\n", "1,2jq\n", "y\n", "Y\n", "%%\n", "g/a/g/b/p\n", "g/[/d\n", "g/a/9d\n", "g a d \n",
    "v/a/zzz\n", "1,2h\n", "1u\n", "3;1d\n", "0c\n.\n", "0m0\n", "0j\n", "+9\n", "-9\n", "1,2,9d\n", "s\n", "s//x/\n", "//\n", "!!\n", "ff\n", "wx\n", "ex\n", "rx\n", "m\n1\n", "1m1,\n", "1,$m3\n", "<\n", "~d\n", "<d\n", "@\n", "2@z\n", "1m>x\n", "1t>>z\n", "s/a/\\1/\n", "s/a/b/gx\n", "i x\n", "a x\n", "c x\n", "k a b\n", "=x\n", "Px\n", "Hx\n", "qx\n", "Qx\n", "9!cat\n", "2,1!cat\n", "0s/a/b/\n", "$+1r f\n", "\001\n", "\xff\n"};
  Str p5 = app(L5);
  std::vector<Str> st = {"", app({"a1"}), p5 + "w out\n", p5 + "2ka\n3d\n", p5 + "w out\n2s/b/B/\n", p5 + "1,2m$\n4kb\n2\n", "r f\n", "r f\n1\n2a\nnew\n.\nw f\n3d\nu\n"};
  Str tail = ".=\n,n\n'an\n'bn\nf\nu\n,n\n.=\nu\n,n\nq\nw last\n";
  for (auto &s : st) for (auto &b : bad) for (Str v : {"", "3\n"}) {
    Case c = mk(s + v + b + tail); c.files["f"] = "f1\nf2\nf3\n"; x.emit(c);
    c.input = s + v + b + "q\n"; x.emit(c);              // did it set or lose the modified flag?
  }
  for (auto &s : {st[3], st[5], st[7]}) for (auto &b : bad) for (auto &b2 : bad) { Case c = mk(s + b + b2 + tail); c.files["f"] = "f1\nf2\nf3\n"; if (x.thorough || (fnv(b + b2) & 3) == 0) x.emit(c); }
}

static void c04(Ctx &x, bool so) {
  x.rule = "every sequence of modifying commands, undos and writes up to a depth; buffer, current line, marks and modified flag observed after further undos";
  if (so) return;
  Cmds m = {"a\nyx\ny\n.\n", "0i\nyz\n.\n", "d\n", ",d\n", "1,2m$\n", "$m0\n", "1,2t.\n", "1,2j\n", ",s/[ab]/X&/g\n", "2c\nc\n.\n", "r f\n", "0r f\n", "u\n", "1,2!tac\n", "g/a/s//A/\\\nm0\n", "g/./d\n", "2ka\n", "w f\n", "1,$j\n", "s/$/\\\n-/\n", "v/b/t.\n", "e f\n", "E!cat f\n", "1,2!sed p\n", "g/3/i\\\nq\\\nr\n", "2,3d\n", "p\n", "1\n"};
  Str p = app(L5) + "2\n", tail = ".=\n,n\n'an\nu\n,n\n.=\nu\n,n\n.=\n'an\nq\n";
  for (auto &a : m) for (auto &b : m) { Case c = mk(p + a + b + tail); c.files["f"] = "fa\nfb\n"; x.emit(c); }
  for (auto &a : m) for (auto &b : m) for (auto &d : m) { Case c = mk(p + a + b + d + tail); c.files["f"] = "fa\nfb\n"; x.emit(c); }
  Cmds m4 = {"a\nyy\n.\n", "1d\n", "1m$\n", "2,3m0\n", "u\n", "2t0\n", "s/./Q/\n", "g/a/m0\n", "w\n", "1,2j\n", "2kb\n"};
  Case b; b.files["f"] = "a1\nb2\na3\nb4\n";
  seqs(x, b, "r f\n2ka\n", m4, 4, x.thorough ? 6 : 4, ".=\n,n\n'an\n'bn\nu\n,n\n.=\n'an\nu\n,n\nq\n");
  // undo on and around the empty buffer
  seqs(x, b, "", {"a\nyy\n.\n", "d\n", "u\n", "i\n.\n", "a\n.\n", "c\ny\n.\n", ",d\n", "r f\n", "g/x/d\n", "E f\n", "w g\n"}, 1, x.thorough ? 5 : 4, ".=\n,n\nu\n,n\nu\n,n\nq\n");
}

static void c05(Ctx &x, bool so) {
  x.rule = "every global command of a grammar (g, v, G, V; address range; pattern; one or two command lists; interactive responses) on buffers of 0 to 6 lines, then undone twice";
  if (so) return;
  Cmds cl = {"d", "m0", "m$", ".+1m$", "-m0", "+m0", ".,+1m0", ".,+1m$", "t.", "t0", "t$", "s//X/", "s/a/&&/", "s/[12]/<&>/p", "s/$/!/", "s/b/\\\nq", "a\\\nn1\\\nn2", "a\\\nn1", "i\\\nn3", "c\\\nn4", "c\\\nn5\\\nn6", "j", ".,+1j", "-,.j", "ka", "'ap", "-d", "+d", ".,+1d", "-,+d", "p", "n", "l", "=", ".=", "u", "", "1,$p", "1d", "$d", "$m0", "0m0", "Y", "9p", "/a/d", "?b?p", "//p", "//m0", "r f", "w g", ".w g", ".W g", "e f", "g/a/p", "v/a/p", "k", "1m.", "$t.", "/a/,/b/d", "+", "2", "s/a/b/\\\ns/b/c/", "&", "!echo x", "h", "\\\n", "d\\\np", "#c", "s/a/\\\n/", ";p", "-1;+1p", "2r f", "1,2j", ",j", "a\\\n.", "i\\\n.\\\np", "a\\\nq\\\n.\\\np", "c\\\n.", "f", "1,$d", "m.", "m+", "m-", "m+2", "m-2", "t-", "t+", "s/\\(a\\)\\(.\\)/\\2\\1/", "1ka\\\n'am$", ".m'a"};
  Cmds rng = {"", "2,4", "1", "$", "3,$"};
  Cmds pats = {"g/a/", "v/a/", "g/b/", "g/./", "g/$/", "g/zz/", "g/[24]/", "v/zz/", "g/a[13]/", "g/4/"};
  Str p5 = app(L5), p6 = app({"x1", "x2", "a3", "x4", "b5", "a6"});
  auto add = [&](const Str &in) { Case c = mk(in); c.files["f"] = "fa\nfb\n"; x.emit(c); };
  Str tail = ".=\n,n\n'an\nu\n,n\n.=\nu\n,n\n";
  for (auto &pt : pats) for (auto &c : cl) { add(p5 + "2ka\n3\n" + pt + c + "\n" + tail); add(p6 + "4ka\n" + pt + c + "\n" + tail); }
  for (auto &r : rng) for (Str pt : {"g/a/", "v/a/", "g/./"}) for (auto &c : cl) add(p6 + "1\n" + r + pt + c + "\n" + tail);
  for (Str pt : {"g/a/", "g/./", "v/3/", "g/x/"}) for (auto &c : cl) for (auto &d : cl) if (c.find("\\\n.") == Str::npos || d[0] != '.') add(p6 + "2ka\n" + pt + c + "\\\n" + d + "\n" + tail);
  for (auto &c : cl) { add("g/a/" + c + "\n" + tail); add(app({"a1"}) + "g/a/" + c + "\n" + tail); add(app({"a1"}) + "v/a/" + c + "\n" + tail); }
  // moves, copies and deletions of neighbours interact with the queue of marked lines
  Cmds mv;
  for (Str a : {".", "-", "+", ".,+", "-,.", ".,+2", "-2,-", "+,+2", "1", "$", "2,3"}) for (Str o : {"d", "m0", "m$", "m.", "m-2", "m+", "m+2", "m1", "t.", "t0", "t$", "j"}) mv.push_back(a + o);
  for (auto &c : mv) for (Str pt : {"g/x/", "g/a/", "v/a/", "g/./", "g/[135]/", "g/[246]/"}) add(p6 + pt + c + "\n" + tail);
  for (auto &c : mv) for (auto &d : {mv[0], mv[1], mv[13], mv[26], mv[38], Str("s/./Z/"), Str("-p")}) add(p6 + "g/x/" + c + "\\\n" + d + "\n" + tail);
  // interactive
  Cmds rs = {"\n", "&\n", "d\n", "p\n", "s/a/X/\n", "m0\n", "Y\n", "a\\\nq\n", ".+1m$\n", "t$\n", "c\\\nw\\\nv\n", "k a\n"};
  for (Str pt : {"G/a/", "V/a/", "G/./", "2,4G/./p", "G/x/n", "V/x/l"}) for (auto &a : rs) for (auto &b : rs) for (auto &c : rs) add(p6 + pt + "\n" + a + b + c + tail);
  for (auto &a : rs) { add(p6 + "G/a/\n" + a); add(p6 + "G/a/\n" + a.substr(0, a.size() - 1)); add(p6 + "G/a/\nd\n" + a.substr(0, a.size() - 1)); }
  // short forms of s, in each round
  Cmds rf = {"s/[0-9a-z]/<&>/\n", "sg\n", "sp\n", "s\n", "sr\n", "s2\n", "sgp\n", "&\n", "\n", "s//Q/\n", "s/a/&&/g\n", "spg\n", "s$\n"};
  for (Str pt : {"G/./", "V/3/"}) for (auto &a : rf) for (auto &b : rf) for (auto &c : rf) for (auto &d : rf) { if (!x.thorough && (&d - &rf[0]) % 3 && pt[0] == 'V') continue; add("a\naa1\naa2\naa3\naa4\n.\n2s/a/b/\n" + pt + "\n" + a + b + c + d + ",n\n"); }
  for (Str q : {"d\n", "\n", "s/a/A/\n", "&\n"}) for (Str q2 : {"&\n", "\n&\n", "1p\n&\n"}) { add(p6 + "G/a/\n" + q + "\nG/./\n" + q2 + tail); add(p6 + "G/a/\n" + q + "&\n\n\n\n\n\nV/z/\n" + q2 + tail); }
  for (Str t : {Str("x\0y", 3), Str("\0", 1), Str("\0z\0", 3)}) for (Str cm : {"a", "i", "c"}) { add("a\naa\nbb\nab\n.\ng/a/" + cm + "\\\n" + t + "\n,n\nw out\n"); add("a\naa\nbb\nab\n.\ng/a/" + cm + "\\\nq\\\n" + t + "\\\nr\n,n\nu\nw out\n"); add("a\naa\nbb\nab\n.\ng/a/s/a/" + t + "/\n,n\nw out\n"); }
  add(p6 + "G/a/x\n" + tail); add(p6 + "G/zz/\n" + tail);
  // bigger buffers: node cache and deep queues
  Cmds big; for (int i = 0; i < 40; ++i) big.push_back((i % 3 ? "x" : "y") + std::to_string(i));
  for (Str pt : {"g/y/", "v/y/", "g/x/", "g/1/", "10,30g/./"}) for (auto &c : mv) add(app(big) + pt + c + "\n" + tail);
  if (x.thorough) for (Str pt : {"g/a/", "g/x/", "v/a/", "g/[135]/"}) for (auto &c : mv) for (auto &d : mv) add(p6 + "2ka\n" + pt + c + "\\\n" + d + "\n" + tail);
}

static void c06(Ctx &x, bool so) {
  x.rule = "every combination of pattern, replacement and flags from the catalogues applied to a buffer of eight lines; every sequence of repeat forms after it";
  if (so) return;
  Cmds P = {"a", "x*", "^", "$", "\\(a\\)\\(b*\\)", ".", "[ab]*", "b$", "^a", "ab", "a\\{1,2\\}", "a*", "aa", "\\(.\\)\\1", "[^a]", "b*$", "\\(a*\\)*", "Y", "a.", "\\.", ".*", "^.", "\\(a\\)b\\{0,1\\}", "^a*", "\\/", "[/]"};
  Cmds R = {"x", "&", "\\1", "\\2\\1", "", "&&", "\\&", "\\\n", "[&]", "%", "\\u&", "\\U&\\E-&", "\\l&", "\\L&", "\\0", "q\\\nr", "\\/", "\\\\", "\\3", "a&b\\1", "\\U\\1\\Ez", "\\n"};
  Cmds F = {"", "/", "/g", "/2", "/p", "/n", "/l", "/gp", "/$", "/$-1", "/3", "/2p", "/g2", "/2g", "/0", "/-1", "/$g", "/+1", "/pn", "/gl", "/99", "/3g", "/g$", "/1", "/2g$", "/2g$-1", "/3g2", "/g$-1", "/2g2", "/$-1g2", "/g-1", "/1g$p", "/$g2"};
  Cmds buf = {"aabb", "abab", "bbb", "", "xax", "a", "aaaa", "ABC.a/b"};
  Str p = app(buf) + "3\n", tail = ".=\n,n\nu\n,n\n.=\n";
  for (auto &a : P) for (auto &r : R) for (auto &f : F) if (x.thorough || a.size() < 5 || f.size() < 3) x.emit(mk(p + ",s/" + a + "/" + r + f + "\n" + tail));
  for (auto &a : P) for (auto &r : R) { x.emit(mk(p + "s/" + a + "/" + r + "/\n" + tail)); x.emit(mk(p + "1,2s,"  + a + "," + r + ",g\n" + tail)); x.emit(mk(p + ",s/" + a + "/" + r + "\n" + tail)); }
  Cmds S1 = {"s/a/x/\n", "s/a*/<&>/g\n", "1,2s/\\(a\\)\\(b\\)/\\2\\1/2\n", ",s/b/B/p\n", "s/zz/q/\n", "s/[ab]/-/$\n", "7s/a/&&/3\n", "s/a/x/z\n"};
  Cmds S2 = {"1s\n", ",s\n", ",sg\n", ",sp\n", ",s2\n", ",sr\n", ",sgp\n", ",s$\n", ",s//Y/\n", ",s/a/%/\n", ",s/b/%/g\n", "/b/\n", "/x/\n", ",s/c/[%]/\n", ",sgr\n", "1,2s3\n", ",s-1\n", ",s+1\n", ",s//%/\n", "u\n", ",s2g\n", ",sz\n", "s\n", "?a?s\n", "g/b/s\n", "g/b/s//Q/\n", "/a/s//R/\n", ",sgg\n", ",spp\n", ",srr\n", ",s^\n", ",s$-1\n"};
  for (auto &a : S1) for (auto &b : S2) for (auto &c : S2) x.emit(mk(p + a + b + c + tail));
  for (auto &a : S1) for (auto &b : S2) for (auto &c : S2) for (auto &d : S2) if (x.thorough || (&a - &S1[0]) == 1) x.emit(mk(p + a + b + c + d + ",n\n"));
  // delimiters, escaped delimiters, ERE
  for (Str d : {",", "|", "x", "#", "a", "1", ";", "'", "\\", "%", "&", "\""}) { x.emit(mk(p + ",s" + d + "b" + d + "Q" + d + "g\n" + tail)); x.emit(mk(p + ",s" + d + "b\\" + d + "*" + d + "[\\" + d + "]" + d + "\n" + tail)); x.emit(mk(p + ",s" + d + "[" + d + "b]" + d + "Q" + d + "\n" + tail)); }
  for (Str a : {"a+", "(a|b)+", "a?b", "(a)(b)?", "a{2}", "^(a|x)", "(b|a)$", "()", "a|b", "(a*)(b*)", "\\.", "[.]", "a+|b+", "(.)(.)", "(.)\\1"}) for (Str r : {"<&>", "\\1", "[\\1\\2]", ""}) for (Str f : {"", "/", "/g", "/2", "/p"}) for (Str o : {"-E", "-r"}) x.emit(mk(p + ",s/" + a + "/" + r + f + "\n" + tail, {o}));
  // marks, line splitting, long lines
  for (Str s : {"2s/a/\\\n/g", ",s/b/\\\n/", "2,3s/$/\\\nend/", ",s/^/\\\n/", "1,$s/a/x\\\ny\\\nz/g"}) x.emit(mk(p + "2ka\n3kb\n" + s + "\n'an\n'bn\n" + tail));
  for (int n : {500, 509, 510, 511, 512, 513, 1020, 1024, 4090, 4096, 5000}) for (Str s : {"s/b/XX/g", "s/a/b/g", "s/ba/Z/", "s/a/&&&/g", "s/b//g"}) { Str l; while ((int) l.size() < n) l += l.size() % 7 == 3 ? "b" : "a"; x.emit(mk(app({l, "b"}) + ",s/zzz/y/\n," + s + "\n,n\nu\n,n\n")); }
  // text files and binary files, with and without a final newline: what is written afterwards
  for (Str k : {Str("ab\nba"), Str("a\0b\nb\0a", 7), Str("a\0b\nb\0a\n", 8), Str("\xff" "a\nb"), Str("\0", 1), Str("b")}) for (Str s : {"s/a/x/", ",s/[ab]/y/g", "1s/a/\\\n/", "$s/$/\\\nend/", "$s/./&&/", ",s/b//", "g/a/s//Z/", "1s/x*/-/g", "s/zz/y/", "$s/.*//"}) for (Str s2 : {"", "u\n", "s/./q/\n", "$d\n", "$a\nnew\n.\n", "1m$\n", "$t0\n", "1,$j\n", "r f\n", ",s\n"}) {
    Case c; c.files["f"] = k; c.args = {"f"}; c.input = s + "\n" + s2 + ",l\nw out\nu\n,l\nw out2\n"; x.emit(c); }
  // replacement text kept across patterns, in globals
  for (Str g : {"g/a/s//Z/", "g/a/s/b/%/", "g/b/s//\\\nq/", "v/a/s/$/%/", "g/a/s/a/b/\\\ns/b/c/", "g/a/s/a/1/\\\ns", "g/./s/a/b/2", "g/a/s/a/b/p", "g/a/sg"}) for (auto &a : S1) x.emit(mk(p + a + g + "\n" + tail));
}

static void c07(Ctx &x, bool so) {
  x.rule = "every pattern over the token alphabet up to a length against fixed texts (BRE and ERE), and every sequence of searches with remembered patterns from every line";
  if (so) return;
  Cmds lines = {"a", "b", "ab", "ba", "aab", "", "abab", "bb", "a.b", "aa"};
  Cmds bt = {"a", "b", ".", "*", "\\(", "\\)", "\\1", "^", "$", "[ab]", "[^a]", "\\{2\\}", "\\{0,1\\}", "[b]*", "\\.", "[[:alpha:]]"};
  Cmds et = {"a", "b", ".", "*", "(", ")", "|", "^", "$", "+", "?", "{2}", "[^b]", "\\.", "{1,}"};
  Str pre = app(lines);
  int D = x.thorough ? 5 : 4;
  for (int e = 0; e < 2; ++e) {
    std::function<void(const Str &, int)> rec = [&](const Str &s, int d) {
      if (x.over()) return;
      if (d) x.emit(mk(pre + "g/" + s + "/=\n", e ? Cmds{"-E"} : Cmds{}));
      if (d < D - (e ? 0 : 1) || (d < D && s[0] != '[')) for (auto &t : e ? et : bt) rec(s + t, d + 1);
    };
    rec("", 0);
  }
  Cmds sr = {"/a/\n", "?a?\n", "/b$\n", "?^b?\n", "//\n", "??\n", "/\n", "?\n", "/zz/\n", "s/aa/AA/\n", "s//Q/\n", "g/ab/p\n", "/b/;/a/p\n", "?b?,/b/n\n", "//;//\n", "g//n\n", "v/a/\n", "/[/]/\n", "/a/+1\n", "?a?-1\n", "s/b/b/\n", "/\\//\n", "1\n", "$\n", "0;/a/\n", "$;?b?\n", "s/a\\/b/X/\n", "\\/a/\n"};
  Cmds l6 = {"aab", "b", "xaax", "", "aa/b", "ab"};
  Case b; seqs(x, b, app(l6) + "3\n", sr, 1, x.thorough ? 4 : 3, ".=\n");
  for (auto &s : sr) for (int i = 1; i <= 6; ++i) { x.emit(mk(app(l6) + std::to_string(i) + "\n" + s + ".n\n" + s + ".n\n" + s + ".n\n")); }
  // which pattern an empty one stands for: searches, substitutions and globals remember theirs together or apart
  Cmds rem = {"1s/a/a/\n", "//p\n", "2s/b/b/\n", ",s//Q/\n", "/x/\n", "??p\n", "g//p\n", "g/b/n\n", "s\n", ",sr\n", "v//=\n", "1s/a/%/\n"};
  seqs(x, b, app(l6) + "3\n", rem, 1, x.thorough ? 5 : 4, "//n\n,s//R/\n.=\n,p\n");
  for (auto &s : sr) { x.emit(mk(s + ".=\n")); x.emit(mk(app({"aab"}) + s + s + ".=\n")); x.emit(mk(app({"zq"}) + s + s + ".=\n")); }
}

static void c08(Ctx &x, bool so) {
  x.rule = "every sequence of marking, moving, deleting, joining, substituting, undoing commands up to a depth; every mark observed";
  if (so) return;
  Cmds m = {"2ka\n", "ka\n", "3kb\n", "'akb\n", "'ad\n", "'am$\n", "'at0\n", "1,2d\n", "1m$\n", "$m0\n", "u\n", "2s/b/B/\n", "1,2j\n", "2c\nyy\n.\n", "'aa\nn\n.\n", "0a\ntop\n.\n", "'a,'bm0\n", "g/a/ka\n", "g/b/kb\n", "2s/2/\\\n/\n", "'a;'bd\n", "1,2!cat\n", "0ka\n", "E f\n", "g/a/m0\n", "'aka\n"};
  Str tail = ".=\n'a=\n'b=\n'an\n'bn\n'c=\n,n\n";
  Case b; b.files["f"] = "f1\nf2\n";
  seqs(x, b, app({"a1", "b2", "a3", "b4"}) + "2\n", m, 1, 3, tail + "u\n'an\n'bn\n");
  Cmds m4 = {"2ka\n", "'ad\n", "'am$\n", "u\n", "1d\n", "1,2j\n", "2s/./Q/\n", "$ka\n", "'at0\n", "'ac\nyy\n.\n"};
  seqs(x, b, app({"a1", "b2", "a3", "b4"}) + "2\n", m4, 4, x.thorough ? 6 : 5, tail);
  for (char c = 'a'; c <= 'z'; ++c) { Str k(1, c); x.emit(mk(app({"a1", "b2", "a3"}) + "2k" + k + "\n1k" + Str(1, c == 'z' ? 'a' : c + 1) + "\n'" + k + "n\n1d\n'" + k + "n\n2d\n'" + k + "n\nu\n'" + k + "n\n")); }
  Str all, ask; for (char c = 'a'; c <= 'z'; ++c) { all += std::to_string((c - 'a') % 5 + 1) + "k" + c + "\n"; ask += Str("'") + c + "n\n"; }
  for (Str e : {"", "3d\n", "2,4m0\n", "1,5j\n", "3d\nu\n", ",s/./Z/\n"}) x.emit(mk(app(L5) + all + e + ask));
}

void add_io(std::vector<Prop> &), add_ext(std::vector<Prop> &), add_fault(std::vector<Prop> &), add_sec(std::vector<Prop> &), add_mode(std::vector<Prop> &), add_big(std::vector<Prop> &), add_name(std::vector<Prop> &), add_long(std::vector<Prop> &);
std::vector<Prop> &props() {
  static std::vector<Prop> v;
  if (v.empty()) {
    v = {
      {"C01", "model_checking", c01}, {"C02", "model_checking", c02}, {"C03", "model_checking", c03}, {"C04", "model_checking", c04},
      {"C05", "model_checking", c05}, {"C06", "model_checking", c06}, {"C07", "model_checking", c07}, {"C08", "model_checking", c08},
    };
    add_io(v); add_ext(v); add_fault(v); add_sec(v); add_mode(v); add_big(v); add_name(v); add_long(v);
  }
  return v;
}
