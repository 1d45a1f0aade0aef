// File and process properties: reading and writing, warnings, errors, shell, scripts, lists.
#include "gen.hh"

static void c09(Ctx &x, bool so) {
  x.rule = "every sequence of reading and writing commands up to a depth over files with every kind of content (empty, no final newline, NUL, invalid UTF-8, long lines, links, read-only); contents of all files, reported sizes and buffer compared byte by byte";
  if (so) return;
  Cmds K = {"", "\n", "a", "a\n", "a\nb", "a\nb\nc\n", Str("\0", 1), Str("\0\n", 2), Str("a\0b\nc", 5), Str("a\0b\nc\n", 6), "\xff\n", "\xff", "\xc3\xa9\n", "\n\n", "a\r\nb\r\n", Str("x\n\0", 3), "\\\n.\na\n", "..\n.\n"};
  Cmds op = {"e f\n", "E f\n", "r f\n", "0r f\n", "1r f\n", "r g\n", "w g\n", "w f\n", "w\n", "W g\n", "1w g\n", "1,2W g\n", "$w h\n", "f h\n", "e g\n", "r\n", "W\n", "d\n", "a\nnew\n.\n", "0a\ntop\n.\n", ",d\n", "r !cat f\n", "w !cat > h\n", "1,2w\n", "u\n", "1j\n", "e\n", "$m0\n", "s/$/q/\n", "w /dev/null\n", "r /dev/null\n", "2,$d\n", "!rm f\n", Str("0a\n\0z\n.\n", 8)};
  Str tail = ",l\nw out\n=\nf\n";
  // contents x one and two commands
  for (auto &k : K) for (auto &g : K) for (auto &a : op) {
    Case c = mk("E f\n" + a + tail); c.files["f"] = k; c.files["g"] = g; x.emit(c);
    c.args = {"f"}; c.input = a + tail; x.emit(c);
    if (&g == &K[3] || &g == &K[4] || &g == &K[7] || &g == &K[8] || x.thorough)
      for (auto &b : op) { c.args.clear(); c.input = a + b + tail; x.emit(c); if (&g == &K[4] || x.thorough) { c.input = "e f\n" + a + b + tail; x.emit(c); } }
  }
  // longer histories over a smaller alphabet
  Cmds o3 = {"e f\n", "r g\n", "0r g\n", "w g\n", "w\n", "W g\n", "1w h\n", "a\nnew\n.\n", "$d\n", "f h\n", "u\n", "r f\n", "w f\n", "E h\n"};
  for (auto &k : {K[4], K[5], K[8], K[9], K[11]}) { Case c; c.files["f"] = k; c.files["g"] = "G1\nG2"; seqs(x, c, "", o3, 3, x.thorough ? 5 : 3, tail); }
  // links, read-only files, another file with the same i-node number
  Cmds ol = {"e f\n", "e ln_f\n", "e sl_f\n", "r ln_f\n", "w ln_f\n", "w sl_f\n", "w f\n", "w\n", "W ln_f\n", "W f\n", "1w sl_f\n", "f ln_f\n", "f g\n", "a\nnew\n.\n", "$d\n", "w g\n", "r f\n"};
  { Case c; c.files = {{"f", "f1\nf2\nf3\n"}, {"ln_f", ""}, {"sl_f", ""}}; seqs(x, c, "", ol, 1, x.thorough ? 4 : 3, tail); c.args = {"f"}; seqs(x, c, "", ol, 1, 2, tail); }
  Cmds orr = {"e ro_f\n", "r ro_f\n", "w ro_f\n", "w\n", "W ro_f\n", "f ro_f\n", "f g\n", "a\nnew\n.\n", "1d\n", "w g\n", "q\n", "1w ro_f\n", "H\n", "w f\n"};
  if (geteuid() == 0 || true) { Case c; c.files = {{"f", "f1\nf2\nf3\n"}, {"ro_f", "r1\nr2\n"}}; seqs(x, c, "", orr, 1, x.thorough ? 4 : 3, tail); c.args = {"ro_f"}; seqs(x, c, "", orr, 1, 2, tail); }
  Cmds ox = {"e f\n", "e xd_f\n", "r xd_f\n", "w xd_f\n", "w f\n", "w\n", "W xd_f\n", "f xd_f\n", "a\nnew\n.\n", "1d\n", "w g\n", "1w xd_f\n"};
  { Case c; c.files = {{"f", "f1\nf2\nf3\n"}, {"xd_f", "x1\nx2\n"}}; seqs(x, c, "", ox, 1, x.thorough ? 4 : 3, tail); c.args = {"f"}; seqs(x, c, "", ox, 1, 2, tail); }
  // long lines, at the sizes of the buffers involved
  for (int n : {510, 511, 512, 513, 1022, 1023, 1024, 1025, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 20000}) for (Str e : {"\n", "", "\nz\n", "\nz"}) {
    Str l; for (int i = 0; i < n; ++i) l += (char) ('a' + i % 23); l += e;
    for (auto &a : {Str("e f\n"), Str("r f\n"), Str("e f\n1t0\n"), Str("e f\n$m0\n"), Str("r f\n0r f\n"), Str("r !cat f\n"), Str("e f\n1,$!cat\n"), Str("e f\n1s/a/AAA/g\n"), Str("e f\n1,$j\n")}) { Case c = mk(a + "w out\n=\n1w g\nW g\n,p\n"); c.files["f"] = l; x.emit(c); }
    if (n < 9000) x.emit(mk("a\n" + l + (e == "" || e == "\nz" ? "\n" : "") + ".\nw out\n=\n"));
  }
  // every byte value, alone and between others
  for (int b = 0; b < 256; ++b) for (Str v : {Str(1, b), Str("a") + Str(1, b) + "b\nc\n", Str(1, b) + "\n"}) { Case c = mk("e f\nw out\nr f\n1,$W out\n,p\n,l\n"); c.files["f"] = v; x.emit(c); c.input = "r f\ng/./t0\nw out\n1,$!cat\nw out2\n"; x.emit(c); if (b != '\n') { c.input = "a\n" + v + (v.back() == '\n' ? "" : "\n") + ".\nw out\n,l\n"; x.emit(c); } }
}


static void c13(Ctx &x, bool so) {
  x.rule = "every sequence of modifying, writing and leaving commands up to a depth, with and without -s, standard input being a pipe or a file; warnings, exit status and files compared";
  if (so) return;
  Cmds op = {"a\nnew\n.\n", "1d\n", "s/./Q/\n", "u\n", "w\n", "w g\n", "1w g\n", "1,$w g\n", "W g\n", "w !cat > h\n", "q\n", "e f\n", "e\n", "E\n", "e !cat f\n", "wq\n", "1wq g\n", "r g\n", "0r g\n", "1m$\n", "1t.\n", "~e g\n", "~wq\n", "r !cat g\n", "j\n", "1,2j\n", "f g\n", "g/./s//Z/\n", "2!cat\n", "nosuch\n", "i\n.\n", "c\n.\n", "t>1\n", "<1t.\n", "H\n", "p\n"};
  Cmds tails = {"q\n,p\nq\n", "e g\n,p\n", "", "E g\n,p\n", "1w h\nq\nq\n"};
  for (Cmds args : {Cmds{"f"}, Cmds{"-s", "f"}, Cmds{}, Cmds{"-"}, Cmds{"-G", "f"}, Cmds{"f", "g"}})
    for (auto &a : op) for (auto &b : op) for (auto &t : tails) {
      Case c = mk(a + b + t, args); c.files = {{"f", "f1\nf2\n"}, {"g", "g1\n"}}; x.emit(c);
      if (args.size() == 1 && args[0] == "f") { c.seekable = true; x.emit(c); c.seekable = false; }
      if ((x.thorough && args.size() <= 1) || (args.size() == 1 && args[0] == "f" && (&t == &tails[0] || &t == &tails[1]))) for (auto &d : op) { c.input = a + b + d + t; x.emit(c); }
    }
  // every kind of command that may, or may not, change or save the text: before, after and between modifications
  Cmds pre = {"", "2s/./M/\n", "w\n", "2s/./M/\nw\n", "1d\nu\n"};
  Cmds nop = {"", "1t>1\n<2t>1\n", "<1t$\n", "<1m$\n", "<5t.\n", "<5m.\n", "1m>1\n", "1t>>1\n", "<1t>2\n", "<2m>>1\n", "@1\n", "@5\n", "r empty\n", "0r empty\n", "r !:\n", "r nofile\n", "1!:\n", "1!cat\n", "0!:\n", "0!cat\n", "$!echo x\n", "g/zz/d\n", "g/./p\n", "g/./u\n", "s/zz/y/\n", "s/./&/\n", "1m.\n", "2m1\n", "1m0\n", "1t.\nu\n", "u\nu\n", "w nodir/x\n", "w !false\n", "w !:\n", "1w f\n", "1,2w f\n", "2W f\n", "W f\n", "0w h\n", ",w h\n", "f h\n", "f f\n", "ka\n", "z\n", "!:\n", "~r g\n", "~r empty\n", "~w\n", "~f g\n", "1j\n", "1c\n.\n", "a\n.\n", ",d\n", "e empty\n", "E empty\n", "E f\n", "E nofile\n", "E !:\n", "E !cat f\n", "~E g\n", "x\n", "1,2l\n"};
  for (Cmds args : {Cmds{"f"}, Cmds{}, Cmds{"-s", "f"}, Cmds{"empty"}, Cmds{"f", "g"}}) for (auto &p : pre) for (auto &a : nop) for (auto &b : nop) for (auto t : {"q\n,p\n", "e g\n,p\n", "~en\n,p\n"}) {
    if (!x.thorough && (args.size() != 1 || args[0] != "f" || t[0] != 'q') && (!b.empty())) continue;
    Case c = mk(p + a + b + t, args); c.files = {{"f", "f1\nf2\n"}, {"g", "g1\n"}, {"empty", ""}}; x.emit(c); }
  Cmds o4 = {"a\nn\n.\n", "u\n", "w\n", "1w g\n", "q\n", "e f\n", "1d\n", "w g\n"};
  { Case c; c.args = {"f"}; c.files = {{"f", "f1\nf2\n"}, {"g", "g1\n"}}; seqs(x, c, "", o4, 4, x.thorough ? 6 : 4, "q\n,p\n"); }
}

// The place of an error in a script: file (or "script") and the number of the last line its command takes.
static Str c14_exec(Runner &r, const Case &c, Ctx &x) {
  if (c.note.compare(0, 5, "where")) return Ctx::default_exec(r, c, x);
  Case d = c; d.note.clear(); d.err2out = true; Str want = c.note.substr(6);
  Result g; for (int k = 0; k < 3; ++k) { g = r.run(d, k ? 20 : 5); if (g.status < 1000) break; }
  ++x.cases; x.outcomes.insert(fnv(dump(g))); x.states.insert(fnv(dump(g))); x.edges.insert(fnv(dump(c)));
  if (want.empty() ? g.status != 0 || g.out.find("?\n") != Str::npos : g.status == 0 || g.out.find("?\n" + want) == Str::npos) return "expected " + (want.empty() ? Str("no error") : "error at " + want) + "\n" + dump(g);
  return "";
}
static void c14(Ctx &x, bool so) {
  x.exec = c14_exec;
  x.rule = "every sequence of succeeding and failing commands of an alphabet up to a depth, standard input being a pipe or a file, with the options that govern diagnostics; output and exit status compared";
  if (so) return;
  Cmds op = {"h\n", "H\n", "P\n", "9p\n", "1p\n", "nosuch\n", "s/zz/y/\n", "r nofile\n", "w\n", "w g\n", "q\n", "Q\n", "!false\n", "!true\n", "e nofile\n", "e f\n", "E f\n", "a\nx1\n.\n", "/zz/\n", "\n", "hp\n", "Hn\n", "Pl\n", "1h\n", "1!cat; exit 3\n", "wq\n", "u\n", "#c\n", "g/1/9p\n", "d\n", "x9\n", "z9q\n"};
  op.resize(op.size() - 2);
  Cmds tails = {"", "1p", "a\nunfinished\n", "a\nunfinished", "q\n", "Q\n", "\n", "h\n", "g/1/a\\\n", "s/a/b\\\n"};
  std::vector<Cmds> av = {{"f"}, {"-s", "f"}, {"-v", "f"}, {"-sv", "f"}, {"-p", ":", "f"}, {"nofile"}, {"-G", "f"}, {"-vp>", "f"}, {"-p", ""}};
  for (auto &args : av) for (bool sk : {false, true}) for (auto &t : tails) {
    for (auto &a : op) { Case c = mk(a + t, args); c.seekable = sk; c.files["f"] = "f1\nf2\n"; x.emit(c);
      for (auto &b : op) if (x.thorough || args.size() == 1 || &t < &tails[2]) { c.input = a + b + t; x.emit(c); } }
    Case c = mk(t, args); c.seekable = sk; c.files["f"] = "f1\nf2\n"; x.emit(c);
  }
  // scripts of commands that take several lines, of which the last fails
  Cmds fine = {"a\nx\ny\n.\n", "1s/^/Q\\\nR/\n", "a\na\nx\n.\n-1,.t>1\n@1\n.\n", "g/./s/./&/\\\np\n", "!echo \\\n:\n", "1p\n", "#c\n", "r !echo \\\nz\n", "i\n.\n", "\\\n", "g/./a\\\nz\\\n.\\\np\n", "c\n\\\n.\n", "1!echo z\\\n:\n", "s/\\\\/x/\n", "$a\nq\\\n.\n", "w g\n", "1G/./\n1p\n", "1G/./\na\\\nu\\\n.\\\np\n"}, bad = {"99p\n", "s/zz/y/\n", "1s/zz/\\\ny/\n", "g/./s/zz/y/\\\n99p\n", "nosuch\n", "r nofile\n", "a x\n", "1,$s/./&\\\n/x\n", "G/./\n99p\n"};
  for (auto z : {&fine[9], &fine[13]}) z->clear();
  auto cnt = [](const Str &t) { return (long) std::count(t.begin(), t.end(), '\n'); };
  for (auto &b : bad) for (auto &p : fine) for (auto &q : fine) for (int form = 0; form < 4; ++form) {
    Str s = p + q + b; Case c; c.files = {{"f", "f1\n"}}; long n = cnt(s);
    if ((p + q + b).find("G/") != Str::npos && form != 2) continue;    // takes its input from standard input
    Str e = s.substr(0, s.size() - 1);
    if (form == 0) { c.args = {"-v", "-f", "scr", "f"}; c.files["scr"] = s + "1p\n"; c.note = "where scr:" + std::to_string(n) + ": "; }
    else if (form == 1) { c.args = {"-v", "-s", "-e", e, "f"}; c.note = "where script, line " + std::to_string(n) + ": "; }
    else if (form == 2) { c.args = {"-v", "f"}; c.input = s + "1p\n"; c.seekable = true; c.note = "where script, line " + std::to_string(n) + ": "; }
    else { c.args = {"-s", "-v", "-e", p + q + "1p", "-e", b.substr(0, b.size() - 1), "-e", "Q", "f"}; c.note = "where script, line " + std::to_string(n + 1) + ": "; }
    x.emit(c); }
  Cmds o3 = {"h\n", "H\n", "P\n", "9p\n", "1p\n", "r nofile\n", "w\n", "!false\n", "e f\n", "e nofile\n", "a\ny\n.\n", "q\n", "s/zz/y/\n", "1!exit 3\n", "u\n"};
  { Case c; c.args = {"f"}; c.files["f"] = "f1\nf2\n"; seqs(x, c, "", o3, 3, x.thorough ? 5 : 4, ""); }
}

static void c15(Ctx &x, bool so) {
  x.rule = "every command that takes a file name or shell command, with every form of name (shell escapes, other directories, names from lists and patterns), singly and in pairs, run as red; no file outside the working directory may appear and no command run";
  if (so) return;
  Cmds names = {"!echo hi > ran", "!", "!!", "../up", "/tmp/../nodir/x", "..", ".", "./f", "f", "sub/f", "%", "!%", "\\!echo hi", "?echo hi", "?echo*", "*", "~", "~/f", "", "..f", "f/", "f/..", "!cat f", "f g", "{f,!x}", "\\../up", "!\\%", "f\\\ng"};
  Cmds cmds = {"e", "E", "f", "r", "0r", "w", "W", "1w", "~e", "~E", "~f", "~r", "~w", "~W", "wq", "~wq"};
  Cmds bare = {"!echo hi > ran\n", "1!cat\n", "!!\n", "1,2!echo hi > ran\n", "~en\n", "~ep\n", "~wn\n", "~wp\n", "~e\n", "e\n", "E\n", "w\n", "r\n", "W\n", "g/f/!echo hi > ran\n", "g/1/r !echo hi\n", "g/./w ../up\n", "<1!cat\n", "1t>1\n", "@1\n", "!\n", "~f\n", "f\n"};
  Cmds all = bare; for (auto &c : cmds) for (auto &n : names) all.push_back(c + " " + n + "\n");
  std::map<Str, Str> fl = {{"f", "f1\nf2\n"}, {"g", "g1\n"}, {"!echo hi", "bang\n"}, {"..f", "dots\n"}};
  std::vector<Cmds> av = {{"f"}, {}, {"f", "!echo hi"}, {"!echo hi"}, {"f", "../up", "g"}, {"../up"}, {"f", "/etc/passwd"}, {"-e", "!echo hi > ran", "f"}, {"+!echo hi", "f"}, {"-s", "f", ".."}};
  Str tail = "h\n,n\nf\nw out\nQ\n";
  for (Str a0 : {"red", "/usr/bin/red"}) for (auto &args : av) for (auto &a : all) {
    Case c = mk(a + tail, args); c.argv0 = a0; c.files = fl; if (a0 == "red" || args.size() < 2) x.emit(c);
    if (a0 == "red" && (x.thorough || &args == &av[0] || &args == &av[2])) for (auto &b : bare) { c.input = a + b + tail; x.emit(c); c.input = b + a + tail; x.emit(c); }
  }
  if (x.thorough) for (auto &a : all) for (auto &b : all) { Case c = mk(a + b + tail, {"f"}); c.argv0 = "red"; c.files = fl; x.emit(c); }
}

static void c20(Ctx &x, bool so) {
  x.rule = "every sequence of shell commands, repeats, filters, piped reads and writes up to a depth, with every form of % and ! expansion; output, buffer, files and reported status compared";
  if (so) return;
  Cmds op = {"!echo hi\n", "!!\n", "!!x\n", "!echo %\n", "!echo \\%\n", "!echo %%\n", "!echo a!b\n", "!echo\\\n x\n", "r !echo r\n", "0r !cat %\n", "e !cat g\n", "E !cat g\n", "w !cat > h\n", "1w !cat\n", "2,3!tac\n", ",!sort\n", "1!cat; exit 3\n", "1,2!false\n", "!false\n", "!exit 3\n", "h\n", "w !wc -l\n", "1!!\n", "r !!\n", "w !!\n", "u\n", "f g\n", "f !cat g\n", "e\n", "w\n", "1!true\n", ",!true\n", "0!echo x\n", "$!echo y\n", "a\nz\ny\n.\n", "1,2!sed p\n", "1!sed 1d\n", "$w !cat > %\n", "e f\n", "!\n", "!:\n", "1,2!printf abc\n", "r !printf abc\n", "g/f/!echo g\n", "g/f/.!tac\n", "g/f/r !echo k\n", "2ka\n", "'an\n", "!echo %-\n", "r !false\n", "1,2w !false\n", "2,3!cat\n", "!echo %%%\n", "!!%\n", "1j\n", "r !\n", "!echo x\\\\\n y\n", "!echo x\\\\\\\n echo y\n", "r !echo x\\\\\n\n"};
  // shell commands ended by signals, or that do not read (all of) their input, and what signals they meet
  for (auto k : {"kill -9 $$", "kill -PIPE $$; echo alive", "kill -INT $$; echo alive", "kill -HUP $$; echo alive", "exec <&-; echo x", "exec >&-; echo x", "cat; kill -9 $$", "sleep .02; cat"}) for (auto a : {"!", "r !", "w !", "2,3!", ",!", "e !", "2r !", "E !"}) op.push_back(Str(a) + k + "\n");
  for (auto a : {"!", "2,3!", ",!"}) op.push_back(Str(a) + "kill -QUIT $$; echo alive\n");    // popen(3) leaves SIGQUIT as the editor has it
  Str tail = ",n\n.=\nh\n'an\nu\n,n\nf\n";
  size_t n1 = 58;
  for (Cmds args : {Cmds{"f"}, Cmds{"-s", "f"}, Cmds{}, Cmds{"-G", "f"}}) for (auto &a : op) {
    Case c = mk(a + tail, args); c.files = {{"f", "f1\nf2\nf3\n"}, {"g", "g2\ng1\n"}}; x.emit(c);
    for (auto &b : op) if (x.thorough ? &a < &op[n1] || &b < &op[n1] : args.size() == 1 && args[0] == "f" && (&a < &op[n1] ? true : &b < &op[14])) { c.input = a + b + tail; x.emit(c); }
  }
  Cmds o3 = {"!echo hi\n", "!!\n", "!!%\n", "!echo % %\n", "r !!\n", "1!!\n", "f g\n", "2,3!tac\n", "u\n", "w !cat > h\n", "!false\n", "1!cat; exit 3\n"};
  { Case c; c.args = {"f"}; c.files = {{"f", "f1\nf2\nf3\n"}, {"g", "g2\ng1\n"}}; seqs(x, c, "", o3, 3, x.thorough ? 4 : 3, tail); }
}

static void c21(Ctx &x, bool so) {
  x.rule = "every combination of -e, -f, -i, +command, file operands and scripts of the catalogue; output, exit status and all files (including backups) compared";
  if (so) return;
  Cmds sc = {"1p", "s/f/X/", ",s/f/X/g", "$a\nnew\n.", "g/2/d", "1d", "9p", "w", "wq", "q", "Q", "r g", "~en", "~ep", "e g", "w out", ",p", "f", "a\nt1\n.\n1m$", "u", "s/zz/y/", "!echo %", "h", ",!tac", "E g", "f other", "#", "", "1,$j", "i\ntop", "~wn", "f g", "1t.\nu", "2r nofile", "P", "H\n9p\n1p", "%-p", "$d\n$d\n$d"};
  Cmds in = {"", "$p\nw in\n"};
  std::vector<Cmds> ops = {{}, {"f"}, {"f", "g"}, {"nofile"}, {"f", "nofile", "g"}, {"g", "f", "k"}};
  std::map<Str, Str> fl = {{"f", "f1\nf2\nf3\n"}, {"g", "g1\ng2"}, {"k", ""}};
  for (auto &o : ops) for (auto &s : sc) for (auto &i : in) {
    Case c; c.files = fl; c.input = i; c.files["scr"] = s + "\n"; c.files["scr2"] = s;
    for (Cmds pre : {Cmds{"-e", s}, Cmds{"-f", "scr"}, Cmds{"-f", "scr2"}, Cmds{"-i", "-e", s}, Cmds{"-i~", "-e", s}, Cmds{"-i.bak", "-f", "scr"}, Cmds{"-s", "-i", "-f", "scr"}, Cmds{"-v", "-e", s}, Cmds{"-G", "-e", s}}) {
      c.args = pre + o; x.emit(c);
      for (auto &s2 : sc) if ((x.thorough && (i == "" || o.size() < 2)) || (i == "" && (pre[0] == "-e" || pre[0] == "-i~") && o.size() >= 1)) {
        c.args = pre + Cmds{"-e", s2} + o; x.emit(c);
        if (x.thorough || o.size() == 1) { c.args = Cmds{"-e", s2} + pre + o; x.emit(c); } }
    }
    if (i == "") {
      c.files["-scr"] = s + "\n";
      for (Cmds pre : {Cmds{"-e", s + "\n"}, Cmds{"-f", "-scr"}, Cmds{"-i", "-e", s + "\n", "-e", "$p"}, Cmds{"-f-scr", "-e", "1p\n"}, Cmds{"-e", "$p", "-f", "scr2", "-e", "1p\n2p"}}) { c.args = pre + o; x.emit(c); }
      c.files.erase("-scr");
    }
    // + commands and standard input
    for (auto &v : {"-s", "-v", "-s\t-v", " -G -s", "-p:\n-v", "-E -s ", "\t", ""}) if (i == "") { c.input = s + "\nH\n9p\ns/\\(f\\)/X/p\n"; c.env = {{"ED", v}}; for (Cmds pre : {Cmds{}, Cmds{"-v"}, Cmds{"-e", "1p"}}) { c.args = pre + o; x.emit(c); } c.env.clear(); }
    c.input = s + "\n" + i;
    for (Cmds pre : {Cmds{"+1"}, Cmds{"+2"}, Cmds{"+/f2"}, Cmds{"+?f1?"}, Cmds{"+9"}, Cmds{"+$"}, Cmds{"+1", "+/3/"}, Cmds{"+2", "+1", "+/f3/"}, Cmds{"+/f1/", "+2"}, Cmds{"+3", "+1"}, Cmds{"-s", "+2"}, Cmds{"-w"}, Cmds{"-R"}}) { c.args = pre + o; if (pre[0] != "+$") x.emit(c); c.seekable = true; if (pre[0] != "+$") x.emit(c); c.seekable = false; }
  }
}

static void c23(Ctx &x, bool so) {
  x.rule = "every sequence of file-list commands up to a depth with 0 to 3 file operands and every pattern of the catalogue; buffer, names, lists and files compared";
  if (so) return;
  Cmds op = {"~en\n", "~ep\n", "~e\n", "~E\n", "~En\n", "~Ep\n", "~e *\n", "~e f?\n", "~e g nofile\n", "~e f1 f2 g\n", "~f\n", "~f *\n", "~f g\n", "~fn\n", "~fp\n", "~f n\n", "f\n", "f g\n", "~r g\n", "~r f?\n", "~r *\n", "0~r g\n", "~r\n", "~w\n", "~w g\n", "~w f?\n", "~wn\n", "~wp\n", "~wq\n", "~W g\n", "~w new\n", "~w new*\n", "s/./Q/\n", "a\nadd\n.\n", "w\n", "e g\n", "e\n", "q\n", "~e nofile*\n", "~e\n", "~e g\\ h\n", "~e f1\n", "u\n", "~e !cat g\n", "~r !cat g\n", "~f ?1\n", "1~d\n", "~m1\n", "~en x\n", "~wx\n"};
  std::map<Str, Str> fl = {{"f1", "a1\na2\n"}, {"f2", "b1\n"}, {"g", "c1\nc2\nc3\n"}, {"g h", "d1\n"}};
  std::vector<Cmds> av = {{}, {"f1"}, {"f1", "f2"}, {"f1", "f2", "g"}, {"f1", "nofile", "g"}, {"-v", "f1", "f2"}, {"-v", "f1"}, {"-s", "g", "f2"}, {"f2", "f2"}};
  Str tail = "f\n~f\n,n\n~en\n,n\nw out\nQ\n";
  for (auto &args : av) for (bool sk : {false, true}) for (auto &a : op) {
    Case c = mk(a + tail, args); c.files = fl; c.seekable = sk; x.emit(c);
    if (!sk || x.thorough) for (auto &b : op) { c.input = a + b + tail; x.emit(c); }
  }
  Cmds o3 = {"~en\n", "~ep\n", "~e\n", "~e f?\n", "~f g f1\n", "~wn\n", "s/./Q/\n", "f k\n", "~r g\n", "~w\n", "e f2\n", "~e *\n", "~wp\n", "u\n"};
  for (auto &args : {av[0], av[3], av[5]}) { Case c; c.args = args; c.files = fl; seqs(x, c, "", o3, 3, x.thorough ? 4 : 3, tail); }
}

static void c24(Ctx &x, bool so) {
  x.rule = "every way of leaving the editor after every history of the alphabet, with every feature that needs temporary files; the temporary directory must be empty afterwards";
  x.cmp_tmp = true;
  if (so) return;
  Cmds op = {"a\nyy\n.\n", "r f\n", "1t>1\n", "1t>2\n@1\n", "1m>3\n", "<1t.\n", "<1t>2\n", "<1m>2\n", "!echo x\n", "1,$!cat\n", "e f\n", "E g\n", "w g\n", "9p\n", "u\n", "~e *\n", "~en\n", "s/f/q/\n", "i\n@2\n.\n1t>1\n@1\n", "d\n", "g/./t.\n", "1d\n"};
  Cmds fin = {"", "q\n", "Q\n", "wq\n", "q\nq\n", "a\nunfinished", "9p\nq\n", "wq g\n", "nosuch"};
  for (Cmds args : {Cmds{"f"}, Cmds{"f", "g"}, Cmds{"-e", "1p", "f"}, Cmds{"-i~", "-e", "s/f/q/", "f", "g"}, Cmds{}, Cmds{"nofile"}, Cmds{"-e", "1t>1\n1p", "-e", "@1", "f"}}) for (bool sk : {false, true}) for (auto &f : fin) {
    Case c; c.args = args; c.seekable = sk; c.files = {{"f", "f1\n2p\nf3\n"}, {"g", "1p\n"}};
    seqs(x, c, "", op, 0, x.thorough ? 3 : args.size() < 3 && !sk ? 2 : 1, f);
  }
}

void add_io(std::vector<Prop> &v) {
  v.push_back({"C09", "model_checking", c09});
  v.push_back({"C13", "model_checking", c13});
  v.push_back({"C14", "model_checking", c14});
  v.push_back({"C15", "model_checking", c15});
  v.push_back({"C20", "model_checking", c20});
  v.push_back({"C21", "model_checking", c21});
  v.push_back({"C23", "model_checking", c23});
  v.push_back({"C24", "model_checking", c24});
}
