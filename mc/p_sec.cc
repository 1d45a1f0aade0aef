// C22: encrypted files.
#include "gen.hh"

static void c22(Ctx &x, bool so) {
  x.rule = "every text up to a length over a byte alphabet and every length up to several blocks written under a key and read back, every form of key, every truncation and every altered last block of an encrypted file, every sequence of key, file, register, filter and macro commands up to a depth; contents decrypted by an independent implementation and compared";
  if (so) return;
  auto keyed = [](const Str &in, const Str &keys, Cmds args = {}) { Case c; c.args = args; c.env = {{"EDKEYS", keys}}; c.input = in; return c; };
  Str K; des::expand("secret", K);
  // contents: as a file encrypted by the reference with any padding, and written by the editor
  Str al("ab\n\0\xff", 5); std::vector<Str> texts = {""};
  { std::vector<Str> lev = {""}; for (int d = 0; d < (x.thorough ? 6 : 4); ++d) { std::vector<Str> nx; for (auto &s : lev) for (char ch : al) nx.push_back(s + ch); texts.insert(texts.end(), nx.begin(), nx.end()); lev.swap(nx); } }
  for (size_t n = 0; n < (x.thorough ? 200u : 70u); ++n) for (int v = 0; v < 6; ++v) {
    Str t; for (size_t i = 0; i < n; ++i) t += v == 0 ? 'a' + i % 26 : v == 1 ? (i % 8 == 7 ? '\n' : '1' + i % 8) : v == 2 ? (i % 3 ? 'x' : '\n') : v == 3 ? (char) (i * 37) : v == 4 ? (i + 1 == n ? '\n' : 'q') : (i % 9 == 8 ? '\n' : (char) (250 - i)); 
    texts.push_back(t); }
  for (auto &t : texts) {
    Case c = keyed(",l\nw g\nE g\n,l\n1w h\nr h\nw\n,l\n", "secret", {"-x", "e"}); c.files = {{"e", des::encrypt(t, K)}}; x.emit(c);
    c = keyed("x\nw g\nE g\n,l\n$w h\nE h\n,l\n", "secret", {"p"}); c.files = {{"p", t}}; x.emit(c);
    c = keyed("x\nr p\n,l\nw g\nx\nE p\n,l\n", "secret:", {}); c.files = {{"p", t}}; x.emit(c);   // plain text under a key
    if (t.size() > 5) { c = keyed("x\nr !cat e\n,l\nw !cat > g\n0r g\n,l\n", "secret", {}); c.files = {{"e", des::encrypt(t, K, 'z')}}; x.emit(c); }
  }
  // the bytes written are those of every possible number of padding bytes
  for (int b = 0; b < 256; ++b) { Case c = keyed(",l\n", "secret", {"-x", "e"}); c.files = {{"e", des::encrypt(Str(11, (char) b), K, (char) b)}}; x.emit(c); }
  // keys
  Cmds keys = {"a", "ab", "abcdefg", "abcdefgh", "abcdefghi", "ABCDEFGH", "\x7f\x01", "\xe9t\xe9", " ", "0x0123456789abcdef", "0X0123456789ABCDEF", "0xffffffffffffffff", "0x0000000000000000", "0x0123456789abcdefff", "0x0123456789abcde", "0x", "0xg123456789abcdef", "0x012345678-abcdef", "0b", "0b1", "0", "00", "0y12", "0x 123456789abcdef", "0b" + Str(64, '1'), "0b" + Str(64, '0'), "0b" + Str(63, '1'), "0b" + Str(65, '1'), "0b" + Str(63, '0') + "2", "0b0123456789abcdef", "", "secret"};
  for (int i = 0; i < 64; ++i) { Str k = "0b" + Str(64, '0'); k[2 + i] = '1'; keys.push_back(k); }
  for (int i = 0; i < 16; ++i) { Str k = "0x" + Str(16, '0'); k[2 + i] = "0123456789abcdef"[15 - i]; keys.push_back(k); }
  for (int i = 1; i < 128; ++i) if (i != ':') keys.push_back(Str("k") + (char) i);
  for (auto &k : keys) {
    Case c = keyed("H\nx\nw e\nE e\n,p\n", k, {"p"}); c.files = {{"p", "one\ntwo\n"}}; x.emit(c);
    Str b; if (des::expand(k, b) && !k.empty()) { c = keyed(",p\nw g\n", k, {"-x", "e"}); c.files = {{"e", des::encrypt("attack at dawn\nor not\n", b)}}; x.emit(c); }
    c = keyed(",p\nw g\n", k, {"-x", "p"}); c.files = {{"p", "not encrypted\n"}}; x.emit(c);
    for (auto &k2 : Cmds{"0x0123456789abcdef", "0b" + Str(64, '1'), "abc", "", "0xz"}) for (auto &o : {k + ":" + k2, k2 + ":" + k, k + ":" + k2 + ":" + k}) {
      c = keyed("H\nx\nw e\nx\nw g\nx\nw h\nE h\n,p\n", o, {"p"}); c.files = {{"p", "one\ntwo\n"}}; x.emit(c); }
  }
  // damaged files
  for (auto &t : Cmds{"attack at dawn\nor not\n", "12345\n7\n", "x\n", "1\n2\n3\n4\n5\n6\n7\n8\n9\n"}) {
    Str e = des::encrypt(t, K);
    for (size_t k = 0; k <= e.size(); ++k) for (auto &in : {"H\n,l\nq\n,l\nr g\n,l\n", "0r e\n,l\nu\n,l\nE g\nr e\n$l\nq\nw g\n", "E e\n,n\nw h\nq\n"}) {
      Case c = keyed(in, "secret", {"-x", "e"}); c.files = {{"e", e.substr(0, k)}, {"g", des::encrypt("good\n", K)}}; x.emit(c);
      c.seekable = true; x.emit(c); c.seekable = false;
      if (k < e.size()) for (int bit = 0; bit < 8; bit += x.thorough ? 1 : 3) { Str d = e; d[k] ^= 1 << bit; c.files["e"] = d; x.emit(c); }
    }
  }
  // sequences
  Cmds op = {"x\n", "w\n", "w g\n", "E g\n", "r g\n", "W h\n", "0r f\n", "E f\n", "E e\n", "1t>1\n", "<1t$\n", "<1t>>2\n<2t0\n", ",!sort\n", "1!cat\n", "w !cat > h\n", "r !cat e\n", "r !cat g\n", "$a\n1s/./X/\n.\n$t>3\n$d\n@3\n", "u\n", "2d\n", "x\nx\n", "1,2x\n", "xp\n", "xq\n", "g/a/x\n", "1wq g\n", "e g\n", "H\n", "f\n", "r !echo ab\n", "w !cat\n", "~e e\n", "f g\n" };
  for (auto &ks : Cmds{"secret", "secret:", "secret::secret", "secret:other:secret", "", "0xbad:secret"}) {
    Case c = keyed("", ks, {"f"}); c.files = {{"f", "ab\nca\nbb\n"}, {"e", des::encrypt("enc1\nenc2\n", K)}, {"g", des::encrypt("gg\n\nhh", K)}};
    for (auto &a : op) for (auto &b : op) { c.input = "x\n" + a + b + "H\n,l\nw z\nE z\n,n\n"; x.emit(c); }
    if (x.thorough || ks == "secret" || ks == "secret::secret") for (auto &a : op) for (auto &b : op) for (auto &d : op) { c.input = a + b + d + ",l\nw z\n"; x.emit(c); }
    Cmds o4 = {"x\n", "w g\n", "r g\n", "E g\n", "1t>1\n", "<1t0\n", "2d\n"};
    seqs(x, c, "x\n", o4, 1, x.thorough ? 5 : 4, ",l\nw z\n");
  }
  { Case c = keyed("x\na\nx\n.\nw f\n", "secret"); c.env.clear(); x.emit(c); c.args = {"-x", "f"}; x.emit(c); }
  for (auto &ar : std::vector<Cmds>{{"-x", "-i", "-e", ",s/o/0/", "e", "g"}, {"-x", "-i.bak", "-e", "1d", "e"}, {"-xi.bak", "-e", "$a\nzz", "e", "g"}, {"-s", "-x", "e"}, {"-x", "-e", "1d", "-e", "w", "e"}, {"-x", "-f", "s", "e", "g"}, {"-x", "-i", "-e", "r p", "e"}, {"-x", "-x", "e"}, {"-x", "nofile"}, {"-x", "-w", "e"}, {"-x", "-", "e"}, {"-x", "+2", "e"}, {"-xsp:", "e"}})
    for (auto &k : {"secret", "", "other", "secret:secret", "other:secret"}) { Case c = keyed(",p\nw\nq\n", k, ar); c.files = {{"e", des::encrypt("foo\nbar\nboo\n", K)}, {"g", des::encrypt("one\ntwo\n", K)}, {"s", "1d\nw\n"}, {"p", "plain\n"}}; x.emit(c); }
}

static Str u8(unsigned c) {
  Str s;
  if (c < 0x80) s += (char) c; else if (c < 0x800) { s += (char) (0xc0 | c >> 6); s += (char) (0x80 | (c & 63)); }
  else if (c < 0x10000) { s += (char) (0xe0 | c >> 12); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
  else { s += (char) (0xf0 | c >> 18); s += (char) (0x80 | (c >> 12 & 63)); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
  return s;
}
static void c26(Ctx &x, bool so) {
  x.rule = "every line of up to a number of characters over an alphabet of 1- to 4-byte characters and stray, truncated and overlong sequences, and every code point at the boundaries of the encoding, through every substitution, search, global and printing command of the catalogue, in the C and the UTF-8 locale; output and files compared byte by byte";
  if (so) return;
  Cmds tok = {"a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x80", "\xc3", "\xe2\x82", "\xff", "b"};
  Cmds cmds = {"s/./X/", "s/./X/2", "s/./X/3", "s/./X/g", "s/.$/X/", "s/^./<&>/", "s/\xc3\xa9/E/g", "s/\xc3\xa9*/-/g", "s/[\xc3\xa0-\xc3\xaf]/R/g", "s/[^a]/N/g", "s/\\(.\\)\\(.\\)/\\2\\1/", "s/a*/_/g", "s/$/\xe2\x82\xac/", "s/.\\{2\\}/D/g", "s/\xf0\x9f\x98\x80/:)/", "s/\\xc3/Z/", "s/\\(\xc3\xa9\\|\xe2\x82\xac\\)/Q/g", "g/\xe2\x82\xac/s//EUR/p", "v/^.$/n", "/..\xc3\xa9/p", "t.\n1,2j", "s/./&\\\n/", "l", "n", "s/b/\xc3\xa9/2g", "s/x*/-/2", "s/x*/-/3g"};
  for (auto loc : {"C.utf8", "C"}) {
    Case c; c.env = {{"LC_ALL", loc}}; c.args = {"f"};
    std::vector<Str> lev = {""}, all = {""};
    for (int d = 0; d < (x.thorough ? 4 : 3); ++d) { std::vector<Str> nx; for (auto &s : lev) for (auto &t : tok) nx.push_back(s + t); all.insert(all.end(), nx.begin(), nx.end()); lev.swap(nx); }
    for (auto &t : all) for (auto &m : cmds) { c.files = {{"f", t + "\n"}}; c.input = m + "\n,l\n,p\nu\nw\n"; x.emit(c); }
    // several lines, of which some are not valid
    for (auto &a : tok) for (auto &b : tok) for (auto &m : cmds) { c.files = {{"f", a + "a\n" + b + "\xc3\xa9" "b\nb\xc3\xa9\n"}}; c.input = "," + (strchr("gv/", m[0]) ? m.substr(0) : m) + "\n,n\n3" + m + "\n,l\nw\n"; if (strchr("gv/", m[0])) c.input = m + "\n,n\n,l\nw\n"; x.emit(c); }
    // code points
    std::vector<unsigned> cp;
    for (unsigned b : {0u, 0x7fu, 0x80u, 0xffu, 0x100u, 0x7ffu, 0x800u, 0xfffu, 0x1000u, 0x1100u, 0x115fu, 0x1160u, 0x2e80u, 0x303eu, 0x3041u, 0xa4cfu, 0xac00u, 0xd7a3u, 0xd7ffu, 0xd800u, 0xdbffu, 0xdfffu, 0xe000u, 0xf900u, 0xfaffu, 0xfe30u, 0xff00u, 0xff60u, 0xffe0u, 0xfffdu, 0xfffeu, 0xffffu, 0x10000u, 0x1f600u, 0x1ffffu, 0x20000u, 0x3fffdu, 0xfffffu, 0x10ffffu, 0x110000u, 0x13ffffu, 0x1fffffu})
      for (int d = -2; d <= 2; ++d) if ((int) b + d > 0 && b + d != 10) cp.push_back(b + d);
    if (x.thorough) for (unsigned u = 0x80; u < 0x110000; u += 97) cp.push_back(u);
    for (auto u : cp) for (auto m : {"s/./X/g", "s/b./<&>/", ",l", "s/.b/Y/2", "s/x*/-/g"}) { Str k = u8(u); c.files = {{"f", "ab" + k + "b" + k + "bc\n"}}; c.input = Str(m) + "\n,l\n,n\nw\n"; x.emit(c); }
    // all pairs of bytes, and forms of three and four bytes at the boundaries
    for (int a = 128; a < 256; ++a) for (int b = 1; b < 256; b += x.thorough ? 1 : b < 128 ? 31 : 1) if (b != 10) { c.files = {{"f", Str("p") + (char) a + (char) b + "q\n"}}; c.input = "s/./X/g\n,l\nu\n,n\nw\n"; x.emit(c); }
    for (int a : {0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf7, 0xf8, 0xfc}) for (int b : {0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0}) for (int e : {0x41, 0x7f, 0x80, 0xbf, 0xc0}) for (int g : {0x41, 0x80, 0xbf, 0xc0}) { c.files = {{"f", Str("p") + (char) a + (char) b + (char) e + (char) g + "q\n"}}; c.input = "s/./X/g\n,l\nu\n,n\ns/x*/-/g\nl\nw\n"; x.emit(c); }
  }
}

// C25: no memory error whatever the input (built with address checking)
static Str nocrash(Runner &r, const Case &c, Ctx &x) {
  ++x.cases;
  Result g = r.run(c, 10);
  x.outcomes.insert(fnv(dump(g))); x.states.insert(fnv(dump(g))); x.edges.insert(fnv(dump(c)));
  if (g.status < 1000 && g.status != 86) return "";
  r.keep_err = true; Result h = r.run(c, 60); r.keep_err = false;
  if (h.status < 1000 && h.status != 86) { ++x.counters["unstable_reruns"]; return ""; }
  return "memory error, crash or hang\n" + dump(h) + r.last_err.substr(0, 3000);
}
static void c25(Ctx &x, bool so) {
  x.rule = "every command line of up to a number of characters over an alphabet of address, command and delimiter characters, and every sequence of commands of a catalogue up to a depth, run with address checking; no access outside or after release of memory, no abort, no hang";
  x.exec = nocrash;
  if (so) return;
  Case b; b.args = {"f"}; b.files = {{"f", "ab\nba\naab\n"}, {"g", Str("g1\n\0g2", 6)}};
  // every command line of n characters, those that differ only in the last one in one session
  auto lines = [&](const Str &al, int n) {
    std::vector<Str> lev = {""};
    for (int d = 1; d < n; ++d) { std::vector<Str> nx; for (auto &s : lev) for (char ch : al) nx.push_back(s + ch); lev.swap(nx); }
    for (auto &s : lev) { b.input.clear(); for (char ch : al) b.input += s + ch + "\n.\n" + "E f\n"; b.input += s; x.emit(b); if (x.over()) return; } };
  Str core = "1$.,;'a/\\s&gmt<>@*\n+", wide = "102$.,;'?/\\&*[]^-+%|adgGHijklmnprstuvzZ<>@~=x {}()cefEwPhK\n\t\xe2";
  for (int n = 1; n <= 3; ++n) lines(wide, n);
  lines(core, 4); if (x.thorough) { lines(wide, 4); lines(core, 5); }
  Cmds cat = {"a\nx1\nx2\n.\n", "i\n.\n", "c\ny\n.\n", "0a\nz\n.\n", "1,2d\n", ",d\n", ",j\n", "1,2j\n", "2m0\n", "1,2m$\n", "1t.\n", ",t0\n", "s/a/b/\n", "s/a*/-/g\n", "s/\\(a\\)\\(b\\)/\\2\\1/\n", "s/./&\\\n&/g\n", "s\n", "s2g\n", "sp\n", "s/b\n", "&\n", "s//x/\n", "%s/$/ end/\n", "g/a/d\n", "g/./s/a/aa/\\\nt.\n", "v/a/m0\n", "g/a/a\\\nyy\n", "g/./t0\n", "g/b/j\n", "g//p\n", "G/a/\n\n&\ns/a/c/\n", "V/z/\np\n&\n\n", "u\n", "ka\n", "'ap\n", "'a,'bd\n", "/a/\n", "?b?\n", "//\n", "??\n", "/[/\n", "/\\(/\n", "/a\\{1,3\\}/\n", "/\\(a*\\)*b/\n", "/\\(a\\)\\1/\n", "n\n", "l\n", ",l\n", ",p\n", "z\n", "Z\n", "z2\n", "zp5\n", "[\n", "]\n", "=\n", "h\n", "H\n", "P\n", "f\n", "f g\n", "f !x\n", "e g\n", "E g\n", "E\n", "r g\n", "0r g\n", "r\n", "w h\n", "w\n", "W h\n", "1,2w h\n", "wq\n", "q\n", "Q\n", "E nofile\n", "r nofile\n", "w nodir/x\n", "!echo hi\n", "!!\n", "!echo %\n", ",!sort\n", "1!cat; exit 2\n", "$!cat >h\n", "r !cat g\n", "w !cat >h\n", "E !cat g\n", "w !\n", "r !\n", "1t>1\n", "1,2m>2\n", "t>>1\n", "<1t.\n", "<1m0\n", "<1t>2\n", "<1m>>2\n", "<2t>>2\n", "@1\n", "@\n", "@2\n", "~e f g\n", "~en\n", "~ep\n", "~e *\n", "~f\n", "~wn\n", "x\n", "x\nsecret\n", ".+9p\n", "$-9\n", "9,1p\n", "+++\n", "---\n", "1;/b/p\n", "%p\n", ",,,p\n", ";;p\n", "1,,2p\n", "p\n", "pl\n", "pnl\n", "dp\n", "ax\n", "kA\n", "k\n", "g/a\n", "gp\n", "g/x/\n", "s/(/x/\n", "s/\\/x/\n", "s/a/\\9/\n", "s/a/%/\n", "s/a/&\\\n", Str("s/a/\0/\n", 7), Str("a\n\0\n.\n", 6), "a\n\xff\xe2\x82\n.\n", "a\nno end", "12345678901234567890p\n", "1,99999999999999999999d\n", "+99999999999999999999p\n", "s/a/b/99999999999999999999\n", "z99999999999999999999\n", "#comment\n", "\n", " \n", "\x01\n", "-\n", "^\n", "K\n" };
  for (auto &a : cat) { b.input = a; x.emit(b); for (auto &c : cat) { b.input = a + c + ",n\n"; x.emit(b); if (x.over()) return; } }
  Cmds c3 = {"a\nx1\nx2\n.\n", "1,2d\n", ",d\n", "1,2j\n", "2m0\n", "1,2m$\n", ",t0\n", "s/a*/-/g\n", "s/./&\\\n&/g\n", "s\n", "g/a/d\n", "g/./s/a/aa/\\\nt.\n", "v/a/m0\n", "u\n", "ka\n", "'ap\n", "//\n", "/\\(a\\)\\1/\n", "E g\n", "r g\n", "w h\n", ",!sort\n", "1t>1\n", "1,2m>2\n", "<1m0\n", "<1m>>2\n", "@1\n", "~e f g\n", "z\n", "Z\n", Str("a\n\0\n.\n", 6)};
  for (auto &a : c3) for (auto &c : c3) for (auto &d : c3) { b.input = a + c + d + "u\n,l\n"; x.emit(b); if (x.over()) return; }
  // scrolling through folded lines, in any direction, while the text changes
  { auto rp = [](char u, int k) { Str r; for (int i = 0; i < k; ++i) r += (char) (u + i % 7); return r; };
    Str mb; for (int i = 0; i < 13; ++i) mb += "\xc3\xa9\xe4\xb8\xad\t";
    Cmds o = {"z\n", "Z\n", "[\n", "]\n", "1z\n", "2[\n", "3]\n", "3Z\n", "$Z\n", "$[\n", "2\n", "1,$n\n", "1d\n", "1s/.*/S/\n", "$t0\n", "2d\n", "u\n", "zl\n", "Zn\n", "z7\n", "E g\n"};
    if (!x.thorough) o = {"z\n", "Z\n", "[\n", "]\n", "1z\n", "$Z\n", "1d\n", "1s/.*/S/\n", "$t0\n", "2d\n", "u\n", "zl\n", "z7\n"};
    std::vector<Str> tx = {rp('a', 100) + "\nb\nc\n\ne\n", "aaa\n" + rp('h', 35) + "\nOO\n" + rp('p', 21) + "\nend\n", mb + "\nx\n" + mb + "\n", "a\fb\fc\f\n\f\n" + rp('a', 40) + "\f\n"};
    for (auto &t : tx) for (int h : {2, 4, 7}) for (int w : {9, 10}) {
      if (!x.thorough && (w == 10) == (h == 4)) continue;
      Case c; c.env = {{"LINES", std::to_string(h)}, {"COLUMNS", std::to_string(w)}, {"LC_ALL", "C.utf8"}}; c.args = {"-s", "f"}; c.files = {{"f", t}, {"g", "g1\n" + rp('g', 30) + "\ng3\n"}};
      for (auto &p : o) for (auto &q : o) for (auto &r : o) { c.input = "1z\n" + p + q + r + "z\n"; x.emit(c); if (x.thorough) { c.input = "$Z\n" + p + q + r + "Z\n"; x.emit(c); } if (x.over()) return; } } }
  // sizes around powers of two: lines, patterns, names, prompts, numbers of lines, files and registers' lines
  std::vector<long> sz; for (long k : {1L, 2L, 7L, 8L, 16L, 63L, 64L, 127L, 128L, 255L, 256L, 511L, 512L, 1023L, 1024L, 2047L, 2048L, 4095L, 4096L, 8192L, 16384L, 65536L}) for (long d = -2; d <= 2; ++d) if (k + d > 0) sz.push_back(k + d);
  for (long n : sz) {
    if (n > 9000 && !x.thorough && n % 2) continue;
    Str L(n, 'q'), many; for (long i = 0; i < std::min(n, 3000L); ++i) many += "m\n";
    Cmds in = {"a\n" + L + "\n.\n,n\ns/q/&&/g\n,l\nw h\nE h\nu\n", "a\nq\n.\ns/q/" + L + "/\nl\nu\n", "s/" + L + "/x/\n/" + L + "/\n//\n?" + L + "?\n", "f " + L + "\nw\nf\n!echo %\n", "!: " + L + "\n!!\nr !echo " + L + "\nl\n", "g/a/s/a/" + L + "/\\\np\nu\n", "a\n" + many + ".\n1,$m0\n1,$t$\nu\n,j\nl\nu\ng/m/m0\nu\n", Str(n, '1') + "p\n" + Str(n, '+') + "\n" + Str(n, ';') + "p\n", "k" + L + "\n" + L + "\n", "a\n" + L + "\n" + L + "\n.\n-1,.t>1\n<1t$\n@1\n,!cat\nj\n-1,.j\nl\n", "E " + L + "\n~e " + L + " g\n~f\n", "s/\\(" + Str(std::min(n, 200L), 'a') + "\\)*/&&/g\n", "s/a/" + Str(n, '&') + "/\nl\n", "g/./" + Str(n, 'p') + "\n", "a\n" + Str(n, '\\') + "\n.\ns/\\\\/\\\\\\\\/g\nl\n", "a\n" + Str(n, '\t') + "\n.\nl\np\ns/\t/" + L.substr(0, 50) + "/3\nl\n" };
    if (n > 17000) in[5] = "p\n";   // takes time proportional to the square of the size
    for (auto &i : in) { b.input = i; x.emit(b); if (x.over()) return; }
    for (auto &ar : std::vector<Cmds>{{"-p", L}, {"-e", L}, {"+/" + L, "f"}, {"-i" + L.substr(0, 200), "-e", "p", "f"}, {L}, {"-G" + L}, {"--" + L}, {"-f", L}, {"+" + Str(n, '9'), "f"}}) { Case c = b; c.args = ar; c.input = "p\nP\nf\n"; x.emit(c); }
  }
  // every unit of the languages of addresses, patterns, replacements, names and commands, repeated many times at every place a line has for it
  Cmds unit = {"\\U", "\\u", "\\L", "\\E", "&", "\\1", "\\(", "\\(a\\)", "\\{1\\}", "[", "[a]", "[[:", "[^", "]", "%", "\\%", "%-", "!", "!!", "\\!", "\\", "\\\\", " ", "*", "a*", "{", "{a,", "}", ",", ";", "+", "-", "+1", "$", ".", "'a", "//", "/a/", "??", "g/a/", "<", ">", "@", "1", "0", "g", "p", "s", "2g", "\"", "'", "~", "?", "^", "\1", "\x7f", "\xe2", "\xe2\x82\xac", "\t", "#", "a|", "\\|", "(", ")", "\\\n", "a", "u", "k", ".,.", "|", "=", "x ", "-f ", "f "};
  struct Hole { Str a, z; bool shell; };
  std::vector<Hole> hole = {{"", "\n", true}, {"1s/b/", "/\np\n1s/a/%/\ns\nl\n", false}, {"1s/", "/x/\n//p\n", false}, {"1s/a/x/", "\ns\n", false}, {"/", "/p\n//\n", false}, {"?", "?p\n", false}, {"g/", "/p\n", false}, {"g/a/", "\n", true}, {"v/q/s/b/", "/p\n", false}, {"1", "p\n", false}, {"1,", "p\n", false},
    {"r ", "\n", true}, {"w ", "\n", true}, {"E ", "\n", true}, {"f ", "\nf\n!: %\n", true}, {"~e ", "\n~f\n~en\n", true}, {"~f ", "\n~p\n~f\n", true}, {"!: ", "\n!!\n!! x\n", false}, {"r !: ", "\nw !: %\n", false}, {"P", "\n", true}, {"k", "\n", true}, {"@", "\n", true}, {"m", "\n", true}, {"z", "\n", true}, {"G/a/\n", "\n&\n", true}, {"a\n", "\n.\nl\n1,$n\n1,$l\ng/./s/./&/g\n$t>1\n@1\n", true}, {"0a\n", "\n.\n1t>1\ng/a/@1\n", true}, {"1l", "\n", true}};
  for (auto &h : hole) for (auto &u : unit) for (int by : {2000, 8190, 8192, 20000}) {
    if ((by > 9000 || by == 8190) && !x.thorough) continue;
    bool sh = u.find('!') != Str::npos || u[0] == '|';
    if (sh && h.shell) continue;      // no shell commands made up at random
    // the C library's own limits: its compiler of patterns takes cubic time for some of them, and stack for each level of nesting
    bool pat = &h >= &hole[2] && &h <= &hole[6] && (&h != &hole[3]); if (pat && (u == "*" || u == "$") ? by != 2000 : pat && by > 9000) continue;
    if (pat && u == "*") by = 500;
    Str t; while ((int) t.size() < by) t += u;
    b.input = h.a + t + h.z + "h\n1p\nu\n,p\n"; x.emit(b); if (x.over()) return; }
  { Str t; for (int i = 0; i < 16500; ++i) t += "\\("; b.input = "/" + t + "/p\nh\n"; x.emit(b); }   // beyond them: known finding
  for (int i = 1; i < 256; ++i) for (int j = 0; j < 256; j += j ? 1 : 33) { if (!x.thorough && i > 126) break; if (strchr("hV", i) || strchr("hV", j)) continue; if (j == '/' || !j) continue; Case c = b; c.args = {Str("-") + (char) i + (char) j, "f"}; c.input = "p\n"; x.emit(c); }
}
void add_sec(std::vector<Prop> &v) { v.push_back({"C22", "model_checking", c22}); v.push_back({"C25", "model_checking", c25}); v.push_back({"C26", "model_checking", c26}); }
