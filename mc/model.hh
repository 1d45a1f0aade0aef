// Reference model of ed: an executable specification.  Given a Case (arguments,
// environment, standard input, files) it computes the Result an observer must see:
// standard output, exit status and the files left behind.
#pragma once
#include "rx.hh"
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <cstdint>
#include <unistd.h>
#include <climits>

typedef std::string Str;

struct Case {
  std::vector<Str> args;                 // after argv[0]
  Str argv0 = "ed";
  std::vector<std::pair<Str, Str>> env;  // additions
  Str input;                             // standard input
  bool seekable = false;                 // stdin is a regular file => errors are fatal
  std::map<Str, Str> files;              // initial files of the working directory
  Str note;
  bool err2out = false;
  Str hook; long hv = 0, hw = 0;         // fault or signal to inject, see inj.hh
  long w0 = 0, w1 = 0; Str tail;         // window of standard input, input after a signal
};
#include "des.hh"
struct Result {
  Str out;
  int status = 0;                        // exit status, or 1000+signal
  std::map<Str, Str> files;
  bool operator==(const Result &o) const { return out == o.out && status == o.status && files == o.files; }
};

struct Model {
  enum { EOF_ = -1, ERR = -2, EMOD = -3, FATAL = -4, NEXT = -5, PREV = -6 };
  enum { LIST = 1, NMBR = 2, PRNT = 4 };
  enum { GSUB = 1, SNLR = 2, SMLR = 4, PRSW = 8 };
  struct Fail { int st; };
  struct Quit { int code; };
  struct Line { long id; Str s; };
  struct State {
    std::vector<Line> L; long dot = 0; bool valid = true;
    bool bin = false, utf = true, empty = true, mod = false, nlapp = false, nlmiss = false, inbin = false;
  };
  // options
  bool scripted = false, verbose = false, posix = false, trad = false, ere = false, exiterr = false, prompt = false,
       restricted = false, inplace = false, fscript = false, wronly = false, utf8loc = false, first_file = false;
  Str prompt_s = "*", suffix, script_file; bool has_suffix = false;
  State S, U;
  long nextid = 1;
  long mark[26]; int nmarks = 0;
  bool has_name = false; Str name;
  std::map<Str, Str> fs;
  Str out, err; bool has_err = false;
  int xstatus = 0;
  // input streams
  struct Stream { Str s; size_t pos = 0; };
  std::vector<Stream> sin;               // macro stack; [0] is the real stdin
  Str in; size_t ip = 0; bool in_null = false;
  bool restart_global_off = false;
  // region
  int addrs = 0; long start = 0, end_ = 0;
  int io_f = 0, global = 0; bool first_pass = false;
  std::vector<long> gq; int glob = 0; int reg_io = 0, ridx = 0, widx = 0;
  // substitution memory
  typedef std::shared_ptr<Rx> RxP;
  RxP re_search, re_subst, lhs; unsigned s_f = 0; long s_nth = 0, s_mod = 0; unsigned sio_f = 0; bool r_f = false;
  bool has_rhs = false; Str rhs;
  bool reg_set[11] = {}; Str reg[11];
  std::vector<Str> flist; size_t fpos = 0; bool flist_args = true;
  std::vector<Str> addr_cmds;
  bool has_prev_sh = false; Str prev_sh;
  // display
  long ws_row = 24, ws_col = 80; long page_addr = 0; bool paging = false, is_paging = false;
  bool unsupported = false; int unsup_line = 0; bool unsup(int l) { if (!unsupported) unsup_line = l; return unsupported = true; }              // model declines: the case is skipped (counted)

  // coverage: distinct states at command boundaries, distinct (state, command) edges
  std::unordered_set<uint64_t> *states = nullptr, *edges = nullptr; Str *snap = nullptr;
  static uint64_t h64(const Str &s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
  static void cstate(Str &o, const State &s) {
    o += std::to_string(s.L.size()); o += ':'; o += std::to_string(s.dot); o += ' ';
    for (bool b : {s.valid, s.bin, s.utf, s.empty, s.mod, s.nlapp, s.nlmiss}) o += b ? '1' : '0';
    for (auto &l : s.L) { o += l.s; o += '\n'; }
  }
  Str canon() const {
    Str o; cstate(o, S); cstate(o, U);
    for (int i = 0; i < 26; ++i) if (mark[i]) { long at = -2; if (mark[i] == -1) at = 0;
      for (size_t k = 0; k < S.L.size(); ++k) if (S.L[k].id == mark[i]) at = k + 1;
      for (size_t k = 0; k < U.L.size(); ++k) if (U.L[k].id == mark[i]) at += 100000 * (k + 1);
      o += "k" + std::to_string(i) + "=" + std::to_string(at); }
    auto rx = [&](const RxP &r) { o += r ? "/" + r->p + "/" : Str("-"); };
    rx(re_search); rx(re_subst); rx(lhs); o += rhs; o += has_rhs ? 'R' : 'r';
    o += std::to_string(s_f) + "," + std::to_string(s_nth) + "," + std::to_string(s_mod) + "," + std::to_string(sio_f);
    for (int i = 0; i < 11; ++i) if (reg_set[i]) o += "@" + std::to_string(i) + reg[i];
    o += has_name ? "f" + name : Str("F"); for (auto &f : flist) o += "|" + f; o += std::to_string(fpos);
    o += has_prev_sh ? "!" + prev_sh : Str();
    o += have_key ? key : Str(); o += no_keys ? Str() : keys; o += prompt ? 'P' : 'p'; o += verbose ? 'H' : 'h'; o += has_err ? err : Str("ok"); o += std::to_string(xstatus);
    for (auto &f : fs) { o += f.first; o += '='; o += f.second; o += ';'; }
    return o;
  }
  void note_state() {
    uint64_t h = h64(canon());
    if (states) states->insert(h);
    if (edges && have_last) edges->insert(h64(last_cmd) * 31 + last_h);
    last_h = h; have_last = true;
  }
  std::set<std::pair<Str, Str>> hist;    // every content given to a file
  std::vector<Str> *mids = nullptr; long mid_from = 0;   // buffer contents between the primitive changes of a command
  void mid() { if (mids && (mid_from < 0 || !sin.empty()) && (mid_from < 0 || (long) sin[0].pos > mid_from || sin.size() > 1)) mids->push_back(n() ? bytes(1, n()) : Str()); }
  uint64_t last_h = 0; bool have_last = false; Str last_cmd;
  Model() { memset(mark, 0, sizeof mark); U.valid = false; U.dot = -1; }
  long n() const { return (long) S.L.size(); }
  unsigned char ch(size_t k = 0) const { return ip + k < in.size() ? in[ip + k] : 0; }
  [[noreturn]] void fail(const char *m) { err = m; has_err = true; throw Fail{ERR}; }
  bool compat() const { return posix || trad; }

  // ---- input -------------------------------------------------------------
  static bool utf8_ok(const Str &s) {
    for (size_t i = 0; i < s.size();) {
      int l = Rx::clen(s, i, true); if (l < 1) return false;
      if (l == 3) { unsigned v = Rx::cval(s, i, 3);
        if (v < 0x800 || v == 0xfffe || v == 0xffff || (v >= 0xd800 && v <= 0xdfff)) return false; }
      if (l == 4) { unsigned v = Rx::cval(s, i, 4); if (v < 0x10000 || v > 0x10ffff) return false; }
      i += l;
    }
    return true;
  }
  bool stdin_line(Str &l) {              // false at end of input
    Stream &st = sin.back();
    if (st.pos >= st.s.size()) return false;
    size_t e = st.s.find('\n', st.pos);
    if (e == Str::npos) { l = st.s.substr(st.pos); st.pos = st.s.size(); }
    else { l = st.s.substr(st.pos, e - st.pos + 1); st.pos = e + 1; }
    S.inbin |= l.find('\0') != Str::npos;
    if (S.utf) S.utf = utf8_ok(l);
    return true;
  }
  static bool has_nl(const Str &l) { return !l.empty() && l.back() == '\n'; }
  static size_t trail(const Str &x, size_t t) { size_t k = 0; while (t > k && x[t - 1 - k] == '\\') ++k; return k; }
  Str extended(bool nonl, bool escape) {
    size_t e = in.find('\n', ip);
    Str xl = in.substr(ip, e == Str::npos ? Str::npos : e - ip + 1);
    if (!has_nl(xl)) xl += '\n';
    size_t p = trail(xl, xl.size() - 1);
    while (nonl ? xl.size() > 1 && xl[xl.size() - 2] == '\\' : p % 2) {
      size_t cut = escape ? (p + 1) / 2 : 1;
      xl.resize(xl.size() - cut); xl.back() = '\n';
      Str l;
      if (!stdin_line(l)) { in_null = true; fail("End-of-file unexpected"); }
      in = l; ip = 0;
      if (!has_nl(l)) fail("End-of-file unexpected");
      xl += l;
      p = trail(xl, xl.size() - 1);
    }
    if (nonl) xl.pop_back();
    return xl;
  }
  void skipws() { while (isspace(ch()) && ch() != '\n') ++ip; }

  // ---- addresses -----------------------------------------------------------
  long num() {
    long v = 0;
    while (isdigit(ch())) { if (v > 900000000000000000L) fail("Number out of range"); v = v * 10 + (ch() - '0'); ++ip; }
    return v;
  }
  void check(long a) { if (a < 0 || n() < a) fail("Address out of range"); }
  void line_address(long &a) {
    unsigned char c = ch();
    if (isdigit(c)) a = num();
    else if (c == '$') { a = n(); ++ip; }
    else if (c == '.') ++ip;
    else if (c == '/' || c == '?') {
      check(a); S.dot = a;
      RxP re = compiled(c, false);
      search(re, c == '/', a);
      if (ch() == c) ++ip;
    }
    else if (c == '\'') { ++ip; unsigned char m = ch(); ++ip; a = mark_addr(m); }
  }
  void search(RxP re, bool fwd, long &a) {
    a = S.dot;
    do {
      a = fwd ? (a == n() ? 0 : a + 1) : (a == 0 ? n() : a - 1);
      if (a) { std::vector<Rx::Cap> c; if (re->search(S.L[a - 1].s, 0, false, c)) return; }
    } while (a != S.dot);
    fail("No match");
  }
  long mark_addr(unsigned char m) {
    if (m < 'a' || m > 'z') fail("Invalid address mark");
    long id = mark[m - 'a'];
    if (id == -1) return 0;
    for (long i = 0; i < n(); ++i) if (id && S.L[i].id == id) return i + 1;
    if (n()) fail("Address out of range");
    return 0;
  }
  void offset(long &a) {
    for (;;) {
      unsigned char c = ch(); long v = 1;
      if (isdigit(c)) a += num();
      else if (c == '+') { ++ip; if (isdigit(ch())) v = num(); a += v; }
      else if (c == '-' || c == '^') { ++ip; if (isdigit(ch())) v = num(); a -= v; }
      else if (c == ' ' || c == '\t') { skipws(); if (isdigit(ch())) a += num(); }
      else return;
    }
  }
  bool next_address(long &a) { skipws(); size_t p = ip; line_address(a); offset(a); return ip != p; }
  static bool delim(unsigned char c) { return c == '%' || c == ',' || c == ';'; }
  void address_range() {
    addrs = 0; long first = S.dot, second = S.dot, dot = S.dot;
    skipws();
    bool dc = delim(ch());
    do {
      if (dc) {
        if (addrs) first = ch() == ';' ? (dot = second) : second;
        else { first = ch() == ';' ? dot : 1; second = n(); addrs = 2; }
        ++ip;
      }
      long a = dot;
      if (next_address(a)) { second = a; ++addrs; }
    } while ((dc = delim(ch())));
    if (addrs < 2) first = second; else addrs = 2;
    if (!compat()) {
      if (first == -1) first = n(); else if (first == n() + 1) first = 0;
      if (second == -1) second = n(); else if (second == n() + 1) second = 0;
    }
    check(first); check(second); check(dot);
    start = first; end_ = second; S.dot = dot;
  }
  void valid(long f, long t) {
    if (!addrs) { start = f; end_ = t; }
    if ((start < 1 || n() < start || end_ < 1 || n() < end_) && !(reg_io & 1)) fail("Address out of range");
    if (start > end_) fail("Invalid address range");
  }
  // ---- regular expressions ---------------------------------------------------
  RxP compiled(unsigned char dc, bool subst) {
    if (isspace(dc) && dc != '\n') fail("Invalid pattern delimiter");
    if (dc == '\n' || (++ip, ch() == '\n') || (dc == '\\' ? ch() == dc && ch(1) != dc : ch() == dc)) {
      RxP re;
      if (subst) { re = (dc != '\n' && re_search) || r_f ? re_search : re_subst; if (!re_subst) re_subst = re; }
      else { re = re_search ? re_search : re_subst; if (!re_search) re_search = re; }
      if (!re) fail("No previous pattern");
      return re;
    }
    size_t b = ip;
    for (; (ch() != dc || (dc == '\\' && ch(1) == dc)) && ch() != '\n'; ++ip) {
      if (ip >= in.size()) { unsup(__LINE__); fail("?"); }
      if (ch() == '[') {
        ++ip; size_t q = ip;
        auto c = [&](size_t k) -> unsigned char { return k < in.size() ? in[k] : '\n'; };
        if (c(q) == '^') ++q;
        if (c(q) == ']') ++q;
        for (; c(q) != ']' && c(q) != '\n'; ++q)
          if (c(q) == '[' && (c(q + 1) == '.' || c(q + 1) == ':' || c(q + 1) == '=')) {
            unsigned char d = c(q + 1); unsigned char pc;
            ++q; ++q; pc = c(q);
            for (; c(q) != ']' || pc != d; ++q) if ((pc = c(q)) == '\n') fail("Brackets ([]) unbalanced");
          }
        if (c(q) != ']') fail("Brackets ([]) unbalanced");
        ip = q;
      }
      else if (ch() == '\\') { ++ip; if (ch() == '\n') fail("Backslash (\\) unexpected"); }
    }
    Str pat = in.substr(b, ip - b);
    RxP re;
    try { re = std::make_shared<Rx>(pat, ere, utf8loc, !compat()); }
    catch (Rx::Unsure &) { unsup(__LINE__); fail("?"); }
    catch (Rx::BadPattern &e) { fail(Str(e.what()).c_str()); }
    (subst ? re_subst : re_search) = re;
    return re;
  }
  // ---- buffer primitives -------------------------------------------------------
  void reset_undo() { U = S; U.valid = true; }
  void maybe_reset() { if (!global) reset_undo(); }
  void put(const Str &s) { if (S.utf) S.utf = utf8_ok(s); S.L.insert(S.L.begin() + S.dot, Line{nextid++, s}); ++S.dot; }
  void gdel(long from, long to) {        // remove lines from..to from the global list
    for (long i = from; i <= to; ++i)
      gq.erase(std::remove(gq.begin(), gq.end(), S.L[i - 1].id), gq.end());
  }
  void del(long from, long to) {
    if (global) gdel(from, to);
    if (to == n()) S.nlapp = false;
    S.L.erase(S.L.begin() + from - 1, S.L.begin() + to);
    S.dot = from - 1; S.mod = true;
  }
  void suffix_(int &f) {
    for (;;) {
      unsigned char c = ch();
      if (c == 'p') f |= PRNT; else if (c == 'l') f |= LIST; else if (c == 'n') f |= NMBR;
      else if (c != '\n') fail("Command suffix unexpected");
      ++ip;
      if (c == '\n') return;
    }
  }
  void append_text(long after) {
    S.inbin = false; S.dot = after;
    for (;;) {
      Str l;
      if (!global || sin.size() > 1) {
        if (!stdin_line(l)) { in_null = true; in.clear(); ip = 0; return; }
        in = l; ip = 0;
        if (!has_nl(l)) fail("End-of-file unexpected");
      } else {
        if (ch() == 0) return;
      }
      if (ch() == '.' && ch(1) == '\n') { ++ip; if (!global || sin.size() > 1) {} return; }
      size_t e = in.find('\n', ip);
      Str t = in.substr(ip, e - ip); ip = e + 1;
      S.bin |= S.inbin;
      if (after == n()) S.nlapp = false;
      put(t); S.empty = false; S.mod = true; mid();
    }
  }
  // ---- output --------------------------------------------------------------------
  void show_line(long a, int f) {
    size_t col = 0;
    if (f & NMBR) {
      char b[40]; int w = (int) std::to_string(n()).size();
      snprintf(b, sizeof b, "%*ld\t", w, a); out += b;
      col = w; col += 8 - col % 8;
    }
    const Str &s = S.L[a - 1].s;
    if (!(f & LIST)) { out += s; out += '\n'; return; }
    for (size_t i = 0; i < s.size(); ++i) {
      unsigned char c = s[i];
      static const char cc[] = "\a\b\t\n\v\f\r$\\", ee[] = "abtnvfr$\\";
      if (c > 31 && c < 127 && c != '\\' && c != '$') { out += c; ++col; }
      else if (c && strchr(cc, c)) { out += '\\'; out += ee[strchr(cc, c) - cc]; col += 2; }
      else { char b[8]; snprintf(b, sizeof b, "\\%03o", c); out += b; col += 4; }
      size_t rem = s.size() - i;
      if ((col >= (size_t) ws_col && rem > 1)
          || (!isalnum(c) && col >= (size_t) ws_col - 16 && rem > 2) || (col >= (size_t) ws_col - 8 && rem > 1)) {
        if (!compat()) out += "\\\n";
        col = 0;
      }
    }
    out += "$\n";
  }
  // Display: a ring of window rows; scrolling is modelled for lines that fit in one row.
  enum { ZBWD = 0x100, ZFWD = 0x200, ZHBW = 0x400, ZHFW = 0x800 };
  struct Row { Str text; long addr = 0; };
  std::vector<Row> ring; long fbrows = 0, row_i = 0; bool pf = false, wrapped = false, hidden = false; long pf_addr = 0;
  bool is_short(long a, int f) const {
    long col = f & NMBR ? (long) std::to_string(S.L.size()).size() / 8 * 8 + 8 : 0;
    for (unsigned char c : S.L[a - 1].s) { if (c == '\f' || c == '\b' || c == '\r' || c == 27) return false; col += c == '\t' ? 8 : c >= 128 || f & LIST ? 4 : 1; }
    return col < ws_col - 17;
  }
  void display(long f, long t) {
    if (!n()) return;
    if (f == 0 && t == 0) { unsup(__LINE__); return; }
    if (addrs) pf = false;
    if ((io_f & ZBWD) && !(io_f & (ZHBW | ZHFW)) && !addrs && pf && pf_addr == 1) fail("Address out of range");
    if ((io_f & (ZBWD | ZFWD)) && wrapped) { unsup(__LINE__); return; }
    long lc = 0, b = f;
    for (;;) {
      long R = ws_row - 1;
      if (fbrows != ws_row) { row_i = 0; ring.assign(R, Row()); fbrows = ws_row; }
      if (!(io_f & ZHFW)) row_i = 0;
      long fill = (row_i + ws_row / 2) % R; bool wraps = row_i, full = false;
      for (; b <= t && !full; ++b, ++lc) {
        size_t at = out.size();
        if (b < 1) out += (io_f & LIST) ? "$\n" : "\n"; else { show_line(b, io_f); if (!is_short(b, io_f)) { wrapped = true; if (io_f & (ZBWD | ZFWD)) { unsup(__LINE__); return; } } }
        ring[row_i].text = out.substr(at); ring[row_i].addr = b; out.resize(at);
        row_i = (row_i + 1) % R; wraps |= !row_i;
        full = io_f & ZHFW ? row_i == (fill + 1) % R : wraps && !(io_f & ZBWD);
      }
      // the last page is filled up from the end of the buffer, the first from its start
      if ((io_f & ZFWD) && t == n() && !wraps && f != 1) {
        pf = false; io_f = (io_f | ZBWD) & ~(ZFWD | ZHFW);
        return display(std::max(1L, n() - ws_row + 2), n());
      }
      if ((io_f & ZBWD) && f == 1 && !wraps && t != n()) {
        pf = false; io_f = (io_f | ZFWD) & ~(ZBWD | ZHBW);
        return display(1, std::min(n(), ws_row - 1));
      }
      if (lc) {
        long first = io_f & ZHFW ? row_i : wraps ? row_i : 0;
        long last = io_f & ZHFW ? (row_i ? row_i - 1 : R - 1) : wraps ? (first ? first - 1 : R - 1) : row_i - 1;
        pf = true; pf_addr = page_addr = ring[first].addr;
        if (!hidden) { long cnt = last >= first ? last - first + 1 : ws_row - (first - last); for (long k = 0; k < cnt; ++k) out += ring[(first + k) % R].text; }
      }
      if ((io_f & (ZBWD | ZFWD)) || f + lc - 1 == t || lc == 0) break;
    }
    S.dot = f + lc - 1;
  }
  // names that denote the same file: ln_F is a hard link to F, sl_F a symbolic link
  bool is_dir(const Str &f) { return f == "." || f == ".."; }
  static Str real_name(const Str &f) { return f.compare(0, 3, "ln_") == 0 || f.compare(0, 3, "sl_") == 0 ? f.substr(3) : f; }
  bool fexists(const Str &f) { return fs.count(real_name(f)); }
  Str &fdata(const Str &f) { return fs[real_name(f)]; }
  // ---- streams ------------------------------------------------------------------------
  // encryption
  bool have_key = false; Str key, keys; bool no_keys = true;
  void get_key() {
    if (no_keys) fail("Invalid key");
    size_t e = keys.find(':'); Str k = keys.substr(0, e), x;
    if (e == Str::npos) no_keys = true; else keys.erase(0, e + 1);
    if (k.empty()) { have_key = false; return; }
    if (!des::expand(k, x)) fail("Invalid key");
    key = x; have_key = true;
  }
  const char *dec_err = nullptr;
  Str dec(const Str &b) {
    dec_err = nullptr;
    if (!have_key) { if (des::tagged(b)) unsup(__LINE__); return b; }
    if (!des::tagged(b)) return des::decrypt(b, key, dec_err);
    if (b.compare(4, 8, key)) { unsup(__LINE__); return ""; }
    return b.substr(12);
  }
  Str enc(const Str &t) { return have_key ? des::tag(key, t) : t; }
  long enc_size(long z) { return have_key && z ? z + 8 - z % 8 : z; }
  // text read from a file or shell command
  long read_in(const Str &b, long after, bool mod = true) {
    Str t = dec(b); const char *e = dec_err; long n0 = n(), z = read_bytes(t, after);
    if (e) { if (mod && n() != n0) S.mod = true; fail(e); }
    return enc_size(z);
  }
  // read bytes into the buffer after an address; returns reported size
  long read_bytes(const Str &b, long after) {
    bool appended = after == n();
    S.dot = after; S.inbin = false; S.nlmiss = false;
    long size = 0;
    for (size_t i = 0; i < b.size();) {
      size_t e = b.find('\n', i);
      Str l = b.substr(i, e == Str::npos ? Str::npos : e - i);
      S.nlmiss = e == Str::npos;
      S.inbin |= l.find('\0') != Str::npos;
      if (S.utf) S.utf = utf8_ok(l);
      put(l); size += l.size() + 1; mid();
      i = e == Str::npos ? b.size() : e + 1;
    }
    S.empty = S.empty && !size;
    if (appended) S.nlapp = S.nlmiss;
    if ((S.bin |= S.inbin) && appended && S.nlapp) --size;
    return size;
  }
  Str bytes(long from, long cnt) {
    Str r;
    for (long i = 0; i < cnt; ++i) {
      r += S.L[from - 1 + i].s;
      if (!(i == cnt - 1 && S.bin && S.nlapp)) r += '\n';
    }
    return r;
  }
  // a small table of shell commands the cases may use
  static bool reads(const Str &c) { for (Str q : {"cat", "tac", "sort", "wc -l", "sed p", "sed 1d", "cat; exit 3", "cat; kill -9 $$", "sleep .02; cat"}) if (c == q) return true; return c.compare(0, 6, "cat > ") == 0; }
  bool shell(const Str &cmd, const Str &in_, Str &o, int &rc, bool own = false) {
    rc = 0; o.clear(); Str input = in_;
    { Str c = cmd; while (!c.empty() && c[0] == ' ') c.erase(0, 1);
      if (own && reads(c)) { input = sin[0].s.substr(sin[0].pos); sin[0].pos = sin[0].s.size(); } }   // shares standard input
    auto lines = [&](const Str &x) { std::vector<Str> v; size_t i = 0; while (i < x.size()) { size_t e = x.find('\n', i);
        if (e == Str::npos) { v.push_back(x.substr(i)); break; } v.push_back(x.substr(i, e - i)); i = e + 1; } return v; };
    Str c = cmd; while (!c.empty() && c[0] == ' ') c.erase(0, 1);
    if (c == "cat") { o = input; return true; }
    if (c == ":" || c == "true") return true;
    if (c == "") return true;
    if (c == "false") { rc = 1; return true; }
    if (c == "exit 3") { rc = 3; return true; }
    if (c == "kill -9 $$" || (c.compare(0, 6, "kill -") == 0 && c.find(" $$; echo alive") != Str::npos)) return true;   // ended by a signal: no exit status
    if (c == "cat; kill -9 $$" || c == "sleep .02; cat") { o = input; return true; }
    if (c == "echo x\\\n y") { o = "x y\n"; return true; }
    if (c == "echo x\\\\\n echo y") { o = "x\\\ny\n"; return true; }
    if (c == "echo x\\\n" || c == "echo x\\\n ") { o = "x\n"; return true; }
    if (c == "exec <&-; echo x") { o = "x\n"; return true; }
    if (c == "exec >&-; echo x") { rc = 1; return true; }
    if (c == "tac") { auto v = lines(input); for (size_t i = v.size(); i--;) o += v[i] + "\n"; return true; }
    if (c == "sort") { auto v = lines(input); std::sort(v.begin(), v.end()); for (auto &l : v) o += l + "\n"; return true; }
    if (c == "wc -l") { o = std::to_string(std::count(input.begin(), input.end(), '\n')) + "\n"; return true; }
    if (c == "sed p") { for (auto &l : lines(input)) o += l + "\n" + l + "\n"; return true; }
    if (c == "sed 1d") { auto v = lines(input); for (size_t i = 1; i < v.size(); ++i) o += v[i] + "\n"; return true; }
    if (c == "cat; exit 3") { o = input; rc = 3; return true; }
    if (c.compare(0, 5, "echo ") == 0 && c.find_first_of("<>|;&$`'\"\\*?") == Str::npos) { o = c.substr(5) + "\n"; return true; }
    if (c.compare(0, 2, ": ") == 0 && c.find_first_of("<>|;&$`'\"\\*?") == Str::npos) return true;
    if (c.compare(0, 7, "printf ") == 0 && c.find_first_of("<>|;&$`'\"\\*?% ", 7) == Str::npos) { o = c.substr(7); return true; }
    if (c.compare(0, 6, "cat > ") == 0 && c.find_first_of(" !$&*", 6) == Str::npos) { fs[c.substr(6)] = input; hist.insert({c.substr(6), input}); return true; }
    if (c.compare(0, 4, "cat ") == 0 && fs.count(c.substr(4))) { o = fs[c.substr(4)]; return true; }
    if (c.compare(0, 3, "rm ") == 0) { fs.erase(c.substr(3)); return true; }
    unsup(__LINE__); return false;
  }
  Str expand_shell() {                   // at '!'; returns expanded command without the `!'
    if (restricted) fail("Shell access restricted");
    Str xl;
    if (global) { size_t e = in.find('\n', ip); if (e == Str::npos) fail("?"); xl = in.substr(ip, e - ip); ip = e + 1; }
    else { xl = extended(true, false); ip = in.size(); size_t e = in.find('\n'); (void) e; }
    Str cur = xl, sc; bool subs = false;
    for (size_t i = 0; i < xl.size(); ++i) {
      if (xl[i] == '%') {
        subs = true;
        if (i + 1 < xl.size() && xl[i + 1] == '-') { sc += script_file.empty() ? "stdin" : script_file; ++i; }
        else sc += has_name ? name : "";
      } else if (xl[i] == '!') {
        if (!sc.empty() || !(i + 1 < xl.size() && xl[i + 1] == '!')) sc += '!';
        else if (!has_prev_sh || (compat() && prev_sh.size() < 2)) fail("No previous shell command");
        else { cur = prev_sh + xl.substr(2); xl = cur; sc += xl[0]; subs = true; i = 0; }
      } else if (xl[i] == '\\' && i + 1 < xl.size() && xl[i + 1] == '%') { sc += '%'; ++i; }
      else sc += xl[i];
    }
    has_prev_sh = true; prev_sh = cur;
    sc = sc.substr(1);
    if (subs) out += sc + "\n";
    return sc;
  }
  Str name_text() {                      // the rest of the command line
    if (global) {
      size_t e = in.find('\n', ip); Str x = in.substr(ip, e == Str::npos ? e : e - ip); ip = e == Str::npos ? in.size() : e + 1;
      if (!x.empty() && x.back() == '\\') unsup(__LINE__);
      return x;
    }
    Str x = extended(true, false); ip = in.size();
    return x;
  }
  Str file_name() {
    Str x = name_text();
    x = Str(x.c_str());
    if (restricted && (x == ".." || x.find('/') != Str::npos)) fail("Access restricted to working directory");
    return x;
  }
  // glob expansion: literal names only (patterns are resolved against fs by *, ?)
  static bool fnm(const char *p, const char *s) {
    for (;; ++p, ++s) {
      if (*p == '*') { while (*p == '*') ++p; for (; ; ++s) { if (fnm(p, s)) return true; if (!*s) return false; } }
      if (!*s) return !*p;
      if (*p == '?') continue;
      if (*p != *s) return false;
    }
  }
  Str file_glob(int cm, bool replace, bool uniquely) {
    Str x = name_text();
    if (restricted && (x == ".." || x.find('/') != Str::npos)) fail("Access restricted to working directory");
    std::vector<Str> pats; Str cur; bool have = false;
    for (size_t i = 0; i < x.size(); ++i) {
      if (x[i] == '\\' && i + 1 < x.size() && strchr(" \f\n\r\t\v", x[i + 1])) { cur += x[++i]; have = true; }
      else if (strchr(" \f\n\r\t\v", x[i])) { if (have) pats.push_back(cur); cur.clear(); have = false; }
      else { cur += x[i]; have = true; }
    }
    if (have) pats.push_back(cur);
    if (!pats.empty()) {
      std::vector<Str> res;
      for (auto &p : pats) {
        std::vector<Str> m;
        if (p.find_first_of("*?") != Str::npos) for (auto &f : fs) if (f.first[0] != '.' && fnm(p.c_str(), f.first.c_str())) m.push_back(f.first);
        if (p.find_first_of("[]~/\\") != Str::npos) unsup(__LINE__);
        if (m.empty()) m.push_back(p);
        res.insert(res.end(), m.begin(), m.end());
        if (uniquely && res.size() > 1) {
          // the list is only replaced if this was not a one-time glob
          if (replace) unsup(__LINE__);
          fail("Too many file names");
        }
      }
      if (replace || (flist.empty() && false)) { flist = res; fpos = 0; flist_args = false; }
      return res[0];
    }
    if (cm == 'n') { if (flist.empty() || fpos + 1 >= flist.size()) fail("No more files"); return flist[++fpos]; }
    if (cm == 'p') { if (flist.empty() || fpos == 0) fail("No more files"); return flist[--fpos]; }
    fpos = 0;
    if (flist.empty()) { if (has_name) return name; fail("No more files"); }
    return flist[0];
  }
  // ---- commands ---------------------------------------------------------------------------
  [[noreturn]] void invalid() { long a = S.dot; bool g = false; try { g = next_address(a); } catch (Fail &) {} fail(g ? "Invalid address" : "Unknown command"); }
  // returns io flags
  int exec_command() {
    glob = 0; reg_io = 0; is_paging = paging; paging = false; io_f = 0;
    skipws();
    if (ch() == '<') { if (compat()) invalid(); ++ip; input_reg(); }
    else if (ch() == '~') { if (compat()) invalid(); glob = 1; ++ip; }
    unsigned char c = ch(); ++ip;
    switch (c) {
    case 'm': case 't': case '@':
      if (compat() && c == '@') { invalid(); }
      if (glob) fail("Command prefix unexpected");
      break;
    case 'E': case 'e': case 'f': case 'r': case 'w': case 'W':
      if (reg_io) fail("Command prefix unexpected");
      break;
    default:
      if (reg_io || glob) fail("Command prefix unexpected");
    }
    switch (c) {
    case '\n': return newline_cmd();
    case '!': return shell_cmd();
    case '#': if (compat()) fail("Unknown command"); locks.push_back(lockf); { size_t e = in.find('\n', ip); ip = e == Str::npos ? in.size() : e + 1; } return 0;
    case '=': { suffix_(io_f); out += std::to_string(addrs ? end_ : n()) + "\n"; return io_f; }
    case '@': return macro();
    case 'E': return E_cmd();
    case 'e': if (S.mod) throw Fail{EMOD}; return E_cmd();
    case 'f': return f_cmd();
    case 'G': case 'V': case 'g': case 'v': return global_cmd(c);
    case 'H': noaddr(); suffix_(io_f); verbose = !verbose; if (verbose && has_err) out += err + "\n"; return io_f;
    case 'h': noaddr(); suffix_(io_f);
      if (has_err) out += err + "\n"; else if (!compat()) out += "No previous error\n";
      return io_f;
    case 'P': noaddr(); suffix_(io_f); prompt = !prompt; return io_f;
    case 'Q': case 'q': noaddr(); suffix_(io_f); throw Fail{c == 'q' && S.mod && !scripted ? EMOD : EOF_};
    case 'a': return a_cmd();
    case 'c': return c_cmd();
    case 'd': return d_cmd();
    case 'i': {
      end_ += !end_; suffix_(io_f); maybe_reset(); append_text(end_ - 1);
      if (S.dot == end_ - 1) S.dot = std::min(n(), end_);
      return io_f; }
    case 'j': {
      if (!(addrs || n())) start = end_ = 0; else valid(S.dot, S.dot + 1);
      suffix_(io_f); maybe_reset();
      if (start != end_) { Str t; for (long i = start; i <= end_; ++i) t += S.L[i - 1].s;
        long f = start; del(start, end_); S.dot = f - 1; put(t); S.mod = true; }
      return io_f; }
    case 'k': { unsigned char m = ch(); ++ip; suffix_(io_f);
      if (m < 'a' || m > 'z') fail("Invalid address mark");
      mark[m - 'a'] = end_ ? S.L[end_ - 1].id : -1; return io_f; }
    case 'l': case 'n': case 'p': {
      if (!(addrs || n())) start = end_ = 0; else valid(S.dot, S.dot);
      suffix_(io_f); int f = c == 'l' ? LIST : c == 'n' ? NMBR : PRNT;
      io_f = compat() ? f : io_f | f; display(start, end_); return 0; }
    case 'm': return m_cmd();
    case 't': return t_cmd();
    case 'r': return r_cmd();
    case 's': return s_cmd();
    case 'u': noaddr(); suffix_(io_f);
      if (!U.valid) fail("Nothing to undo");
      std::swap(S, U); gq.clear(); return io_f;
    case 'w': case 'W': return w_cmd(c);
    case 'x': noaddr(); suffix_(io_f); get_key(); return io_f;
    case 'z': case 'Z': case '[': case ']': return z_cmd(c);
    }
    invalid();
  }
  void noaddr() { if (addrs) fail("Address unexpected"); }
  void input_reg() { reg_io |= 1; ridx = isdigit(ch()) ? ch() - '0' : 10; if (isdigit(ch())) ++ip; skipws(); }
  int newline_cmd() {
    long a = S.dot + !global; start = 1; valid(1, a);
    if (!global || addrs) display(end_, end_);
    return 0;
  }
  void window() {                        // window size and suffix of a scroll command
    if (isdigit(ch())) {
      errno = 0; char *e; long k = strtol(in.c_str() + ip, &e, 10);
      if (errno == ERANGE) fail("Numerical result out of range");
      ip = e - in.c_str(); if (1 < k && k < INT_MAX) ws_row = k;
      if (ws_row > 5000) { unsup(__LINE__); ws_row = 24; }
    }
    suffix_(io_f); paging = true;
  }
  int Z_cmd(unsigned char c) {
    long a;
    if (addrs) a = S.dot - !global;
    else {
      a = is_paging ? page_addr : S.dot;
      a -= !(global || ((io_f & (ZHBW | ZHFW)) && S.dot == n()));
      if (!is_paging && c == 'Z' && a < n()) ++a;
    }
    start = 1; valid(1, a); start = 1;
    window(); io_f |= ZBWD;
    display(std::max(1L, end_ - ws_row + 2), end_);
    return 0;
  }
  int zf_cmd(unsigned char c) {
    long a = (c == 'z' ? S.dot : end_) + !global;
    if (!is_paging && c == 'z' && a > 1) --a;
    start = 1; valid(1, a); start = 1;
    window();
    if (c == 'z') { a = std::min(n(), end_ + ws_row - 2); io_f |= ZFWD; }
    else { a = std::min(n(), end_ + (ws_row - 1) / 2 - 1); io_f |= ZFWD | ZHFW; }
    display(end_, a);
    return 0;
  }
  // position the window (without output) so that the addressed line is its last
  void normalize() {
    Str si = in; size_t sp = ip;
    in = std::to_string(start) + "," + std::to_string(end_) + "Z" + si.substr(sp); ip = 0;
    hidden = true;
    try { address_range(); exec_command(); } catch (Fail &) { hidden = false; in = si; ip = sp; throw; }
    hidden = false; in = si; ip = sp; addrs = 0;
  }
  int half(unsigned char c) {
    if (c == '[' || !is_paging || addrs) {
      if (!is_paging && page_addr == 0) page_addr = S.dot;
      valid(page_addr, page_addr);
      if (c == '[' && is_paging && ws_row / 2 - 1 < page_addr && page_addr < ws_row) {
        page_addr = std::min(n(), page_addr + ws_row / 2 - 1); start = end_ = page_addr;
        io_f |= ZHBW; return Z_cmd(c);
      }
      if (c == ']' && addrs && ws_row / 2 - 1 < end_ && end_ < ws_row) {
        S.dot = std::min(n(), end_ + ws_row / 2 - 1); start = end_ = S.dot;
        io_f |= ZHBW; return Z_cmd(c);
      }
      bool was = is_paging;
      normalize();
      (void) was;
      if ((!is_paging && end_ <= ws_row / 2 + 1) || S.dot == n()) { io_f |= ZHBW; return Z_cmd(c); }
    }
    return zf_cmd(c);
  }
  int z_cmd(unsigned char c) {
    if (c == 'z' ? posix : compat()) fail("Unknown command");
    return c == 'z' ? zf_cmd(c) : c == 'Z' ? Z_cmd(c) : half(c);
  }
  int a_cmd() {
    if (!S.empty || !n()) { suffix_(io_f); maybe_reset(); append_text(end_); return io_f; }
    return c_cmd();
  }
  int c_cmd() {
    start += !start; end_ += !end_; valid(S.dot, S.dot); suffix_(io_f); maybe_reset();
    long st = start;
    del(start, end_); mid(); append_text(S.dot);
    if (S.dot < st) S.dot = std::min(n(), st);
    return io_f;
  }
  int d_cmd() {
    valid(S.dot, S.dot); suffix_(io_f); maybe_reset();
    reg[10] = bytes(start, end_ - start + 1); reg_set[10] = true;
    del(start, end_);
    long a = S.dot == n() ? 0 : S.dot + 1; if (a) S.dot = a;
    if ((S.empty = !n())) S.bin = false;
    return io_f;
  }
  bool dest(long &a, bool &app) {
    if (!compat() && ch() == '>') {
      reg_io |= 2; ++ip; if ((app = ch() == '>')) ++ip;
      widx = isdigit(ch()) ? ch() - '0' : 10; if (isdigit(ch())) ++ip;
      return true;
    }
    long s = start, e = end_;
    address_range();
    if (compat() && !addrs) fail("Destination address required");
    if (n() < end_) fail("Address out of range");
    a = end_; start = s; end_ = e;
    return false;
  }
  void reg_write(int i, const Str &b, bool app) { if (!app) reg[i].clear(); reg[i] += b; reg_set[i] = true; }
  void reg_read(long addr) { if (!reg_set[ridx]) return; if (read_bytes(reg[ridx], addr)) S.mod = true; }
  int m_cmd() {
    long a = 0; bool app = false;
    valid(S.dot, S.dot); dest(a, app);
    if (start <= a && a < end_) fail("Invalid destination address");
    suffix_(io_f); maybe_reset();
    switch (reg_io) {
    case 0: {
      if (global) gdel(start, end_);
      S.mod = true;
      if (a == start - 1 || a == end_) { S.dot = end_; break; }
      std::vector<Line> mv(S.L.begin() + start - 1, S.L.begin() + end_);
      S.L.erase(S.L.begin() + start - 1, S.L.begin() + end_);
      long at = a > end_ ? a - (long) mv.size() : a;
      S.L.insert(S.L.begin() + at, mv.begin(), mv.end());
      S.dot = a + (start > a ? end_ - start + 1 : 0);
      break; }
    case 1: reg_read(a); if (reg_set[ridx]) reg[ridx].clear(); break;
    case 2: reg_write(widx, bytes(start, end_ - start + 1), app); del(start, end_); break;
    case 3: inter(app, true); break;
    }
    return io_f;
  }
  void inter(bool app, bool mv) {
    if (ridx == widx) { if (!mv && reg_set[ridx] && app) fail("Cannot append register to itself"); return; }
    if (!reg_set[ridx]) { if (!app && reg_set[widx]) reg[widx].clear(); return; }
    if (mv && !reg_set[widx]) { reg_set[widx] = true; reg[widx] = reg[ridx]; reg_set[ridx] = false; reg[ridx].clear(); return; }
    Str b = reg[ridx]; if (!b.empty() && b.back() != '\n') b += '\n';
    reg_write(widx, b, app);
    if (mv) reg[ridx].clear();
  }
  int t_cmd() {
    long a = 0; bool app = false;
    valid(S.dot, S.dot); dest(a, app); suffix_(io_f); maybe_reset();
    switch (reg_io) {
    case 0: { std::vector<Line> cp(S.L.begin() + start - 1, S.L.begin() + end_);
      S.dot = a; for (auto &l : cp) { put(l.s); mid(); } S.mod = true; break; }
    case 1: reg_read(a); break;
    case 2: reg_write(widx, bytes(start, end_ - start + 1), app); break;
    case 3: inter(app, false); break;
    }
    return io_f;
  }
  int macro() {
    valid(S.dot, S.dot);
    if (!reg_io) input_reg(); else skipws();
    if (ch() != '\n') fail("Command suffix unexpected");
    if (sin.size() - 1 >= 50) fail("Exceeded maximum stack frame depth");
    long e = end_;
    Str t = reg_set[ridx] ? reg[ridx] : Str(); reg_set[ridx] = true;
    if (!t.empty() && t.back() != '\n') t += '\n';
    sin.push_back(Stream{t, 0});
    try {
      for (S.dot = e;;) {
        Str l;
        if (!stdin_line(l)) { in_null = true; in.clear(); ip = 0; throw Fail{EOF_}; }
        in = l; ip = 0; in_null = false;
        address_range(); int f = exec_command();
        if ((io_f = f) > 0) display(S.dot, S.dot);
      }
    } catch (Fail &f) {
      if (f.st == EOF_) { sin.pop_back(); in_null = true; return 0; }
      sin.resize(1); throw;
    }
  }
  void name_cmd(int &cy, bool e) {
    (void) e; cy = 0;
    if (glob && (ch() == 'n' || ch() == 'p')) { cy = ch(); ++ip; }
    if (!isspace(ch())) fail("Command suffix unexpected");
    skipws();
  }
  // get a FILE_NAME: sets pipe if a shell command
  Str get_name(int cm, bool replace, bool uniq, bool &pipe) {
    pipe = false;
    if (ch() == '!') { pipe = true; return expand_shell(); }
    if (!glob) return file_name();
    Str f = file_glob(cm, replace, uniq);
    if (restricted && (f[0] == '!')) fail("Shell access restricted");
    if (restricted && (f == ".." || f.find('/') != Str::npos)) fail("Access restricted to working directory");
    if (f[0] == '!') { pipe = true; return f.substr(1); }
    return f;
  }
  void after_name() {}
  // the file being edited, which is kept open and locked
  Str lockf; std::vector<Str> locks;
  void edited(const Str &f) { if (f.find('/') == Str::npos && !is_dir(f)) lockf = real_name(f); }
  int E_cmd() {
    noaddr(); int cy; name_cmd(cy, true);
    unsigned char cx = ch(); (void) cx; bool pipe;
    Str fn = get_name(cy, true, false, pipe);
    S = State(); U = State(); U.valid = false; gq.clear(); global = 0; lockf.clear(); mid();
    page_addr = 0; paging = hidden = false;
    if (pipe) return pipe_in(fn, 0);
    if (fn.empty() && has_name && !name.empty() && name[0] == '!') return pipe_in(name.substr(1), 0);
    if (!fn.empty()) { name = fn; has_name = true; }
    bool def = has_name && !name.empty();
    Str b; if (!def) special("/dev/null", b); else { if (!fexists(name)) { if (special(name, b)) ; else fail(is_dir(name) ? restricted ? "Access restricted to regular files" : "File read error" : "File does not exist"); } else b = fdata(name); if (!wronly) edited(name); }
    long sz = wronly ? 0 : read_in(b, 0, false);
    if (glob && verbose) out += name + "\n";
    if (!scripted) out += std::to_string(sz) + "\n";
    if (!(compat() || scripted || exiterr)) xstatus = 0;
    return 0;
  }
  bool special(const Str &nm, Str &b) { if (nm == "/dev/null") { if (restricted) fail("Access restricted to regular files"); b.clear(); return true; } return false; }
  int pipe_in(const Str &cmd, long after, bool e = true) {
    Str o; int rc; shell(cmd, "", o, rc, true);
    long sz = read_in(o, after, false);
    if (!scripted) out += "!\n";
    if (!scripted) out += std::to_string(sz) + "\n";
    if (e && !(compat() || scripted || exiterr)) xstatus = 0;
    return 0;
  }
  int f_cmd() {
    noaddr(); int cy; name_cmd(cy, false);
    if (compat() && ch() == '!') fail("Invalid redirection");
    bool list = false;
    if (ch() != '\n' && cy) fail("Command suffix unexpected");
    if (ch() == '\n' && !cy) { list = true; ++ip; }
    else { bool pipe; Str fn = get_name(cy, true, false, pipe); if (pipe) fn = "!" + fn; name = fn; has_name = true; }
    if (list && glob && !flist.empty()) for (auto &f : flist) out += f + "\n";
    else if (has_name) out += name + "\n";
    else if (compat()) fail("File name not set");
    return 0;
  }
  int r_cmd() {
    if (!isspace(ch())) fail("Command suffix unexpected");
    skipws();
    if (glob && ch() == '\n') glob = 0;
    bool pipe; Str fn = get_name(0, !has_name, true, pipe);
    maybe_reset();
    if (!(addrs && n())) end_ = n();
    long before;
    if (pipe || (fn.empty() && has_name && !name.empty() && name[0] == '!')) {
      Str o; int rc; shell(pipe ? fn : name.substr(1), "", o, rc, true);
      before = n(); long sz = read_in(o, end_); long added = n() - before;
      if (!scripted) out += "!\n";
      if (!(scripted || wronly)) out += std::to_string(sz) + "\n";
      if (added && added != n()) S.mod = true;
      return 0;
    }
    bool def = false;
    if (!has_name && !fn.empty()) { name = fn; has_name = true; def = true; }
    else if (fn.empty() && has_name && !name.empty()) def = true;
    Str nm = def ? name : fn.empty() ? "/dev/null" : fn, b;
    if (!fexists(nm)) { if (!special(nm, b)) fail(is_dir(nm) ? restricted ? "Access restricted to regular files" : "File read error" : "File does not exist"); } else b = fdata(nm);
    if (def && !wronly) edited(nm);
    before = n(); long sz = 0, added = 0;
    if (!wronly) { sz = read_in(b, end_); added = n() - before; }
    if (glob && verbose) out += fn + "\n";
    if (S.bin && nm == "/dev/null") S.nlapp = true;
    if (first_file && flist.size() > 1) out += name + "\n";
    if (!(scripted || wronly)) out += std::to_string(sz) + "\n";
    if (added && added != n()) S.mod = true;
    return 0;
  }
  int w_cmd(unsigned char c) {
    int cy = 0; bool q = false;
    if (!(addrs || n())) start = end_ = 0; else valid(1, n());
    if (posix && !isspace(ch())) fail("Command suffix unexpected");
    if (glob && (ch() == 'n' || ch() == 'p')) { cy = ch(); ++ip; }
    else if (ch() == 'q') { if (!glob || true) { q = true; ++ip; } }
    if (!isspace(ch())) fail("Command suffix unexpected");
    skipws();
    if (glob && ch() == '\n') glob = 0;
    bool pipe; Str fn = get_name(glob, !has_name, true, pipe);
    long cnt = start ? end_ - start + 1 : 0; long sz;
    if (pipe || (fn.empty() && has_name && !name.empty() && name[0] == '!')) {
      Str o, b = bytes(start, cnt); int rc; sz = enc_size(b.size()); shell(pipe ? fn : name.substr(1), enc(b), o, rc);
      if (des::tagged(o)) unsup(__LINE__);
      out += o;
      if (!scripted) out += "!\n";
    } else {
      bool def = false;
      if (!has_name && !fn.empty()) { name = fn; has_name = true; def = true; }
      else if (fn.empty() && has_name && !name.empty()) def = true;
      Str nm = def ? name : fn.empty() ? "/dev/null" : fn;
      Str b = enc(bytes(start, cnt)); sz = enc_size(bytes(start, cnt).size());
      if (nm.find('/') != Str::npos) { if (nm != "/dev/null") unsup(__LINE__); else if (restricted) fail("Access restricted to regular files"); }
      else if (is_dir(nm) || nm.empty()) fail(restricted ? "Access restricted to regular files" : "File open error");
      else if (nm.compare(0, 3, "ro_") == 0) fail("File open error");
      else { if (c == 'W') { Str &d = fdata(nm); if (!d.empty() && !b.empty() && (des::tagged(d) || des::tagged(b))) unsup(__LINE__); d += b; } else fdata(nm) = b; hist.insert({real_name(nm), fdata(nm)}); if (def) edited(nm); }
      if (cnt == n() && (def || !fn.empty())) {
        S.mod = false; U.mod = true;
        if (!(compat() || scripted || exiterr)) xstatus = 0;
      }
      if (glob && verbose) out += nm + "\n";
    }
    if (!scripted) out += std::to_string(sz) + "\n";
    if ((cy || q) && S.mod && !scripted) throw Fail{EMOD};
    if (cy == 'n') throw Fail{NEXT};
    if (cy == 'p') throw Fail{PREV};
    if (q) throw Fail{EOF_};
    return 0;
  }
  int shell_cmd() {
    --ip; bool pipe; Str cmd = get_name(0, false, false, pipe);
    has_err = false;
    if (!addrs) {
      Str o; int rc; shell(cmd, "", o, rc, true); out += o;
      if (rc) { char b[40]; snprintf(b, sizeof b, "Exit status: %#x", rc); err = b; has_err = true; }
      if (!scripted) out += "!\n";
      return 0;
    }
    if (compat()) fail("Address unexpected");
    if (n() || (addrs = !(start == 0 && end_ == 0))) { start += !start; end_ += !end_; valid(S.dot, S.dot); }
    maybe_reset();
    long old = n(), cnt = start ? end_ - start + 1 : 0;
    Str src;
    // the writer sees the buffer flags as they are after the deletion
    std::vector<Line> cut;
    if (addrs) { cut.assign(S.L.begin() + start - 1, S.L.begin() + end_); del(start, end_); mid(); }
    if (n() == 0) { S.bin = false; S.empty = true; }
    for (long i = 0; i < (long) cut.size(); ++i) { src += cut[i].s; if (!(i == cnt - 1 && S.bin && S.nlapp)) src += '\n'; }
    Str o; int rc; shell(cmd, src, o, rc);
    long sz = read_bytes(o, S.dot);
    if (!scripted) out += std::to_string(sz) + "\n";
    if (rc) { char b[40]; snprintf(b, sizeof b, "Exit status: %#x", rc); err = b; has_err = true; }
    S.dot = end_ + n() - old;
    return 0;
  }
  int global_cmd(unsigned char c) {
    if (global) fail("Recursive global command");
    valid(1, n());
    bool want = c == 'g' || c == 'G', inter_ = c == 'G' || c == 'V';
    unsigned char dc = ch();
    RxP re = compiled(dc, false);
    if ((dc == '\\' ? ch() == dc && ch(1) != dc : ch() == dc) && ch() != '\n') ++ip;
    gq.clear();
    for (long i = start; i <= end_; ++i) { std::vector<Rx::Cap> cp; if (re->search(S.L[i - 1].s, 0, false, cp) == want) gq.push_back(S.L[i - 1].id); }
    if (inter_) { global = 2; suffix_(io_f); }
    global |= 1;
    int saved = io_f;
    reset_undo();
    Str cmds;
    if (!inter_) { cmds = extended(false, true); if (cmds == "\n") cmds = "p\n"; in = cmds; ip = 0; }
    bool first_time = true; first_pass = true;
    while (!gq.empty()) {
      long id = gq.front(); gq.erase(gq.begin());
      long a = 0; for (long i = 0; i < n(); ++i) if (S.L[i].id == id) a = i + 1;
      if (!a) { if (n()) fail("Address out of range"); }
      S.dot = a;
      bool skip = false;
      if (inter_) {
        io_f = PRNT; display(S.dot, S.dot);
        Str l; if (!stdin_line(l)) return 0;
        if (!has_nl(l)) return 0;        // end of input cancels
        in = l; ip = 0; in_null = false;
        try { l = extended(false, true); } catch (Fail &) { return 0; }
        if (l == "\n") skip = true;
        else if (l == "&\n") { if (first_time) fail("No previous command"); }
        else { cmds = l; first_time = false; }
      }
      if (!skip) {
        in = cmds; ip = 0; in_null = false;
        while (!in_null && ip < in.size() && in[ip]) {
          address_range(); int f = exec_command(); mid();
          if ((io_f = f) > 0) display(S.dot, S.dot);
        }
      }
      first_pass = false;
      if (!global) break;
    }
    return inter_ ? (io_f = saved) : 0;
  }
  // ---- substitute ---------------------------------------------------------------------------
  int s_cmd() {
    RxP L = lhs; long nth = s_nth, mod = s_mod; unsigned f = s_f, io = sio_f; unsigned sg = 0;
    enum { SG = 1, TG = 2, TP = 4, TR = 8 };
    valid(S.dot, S.dot);
    // short form
    if (!compat() && ch() && strchr("\n$+-^gpr0123456789", ch())) {
      bool g = false; sg = SG;
      for (bool go = true; go;) {
        unsigned char c = ch();
        if (c == '\n') break;
        else if (c == '$') { ++ip; if (g) { f |= SMLR; offset(mod); } else { f |= SNLR; offset(nth); } }
        else if (c == '+' || c == '-' || c == '^' || isdigit(c)) {
          if (g) { f &= ~(GSUB | SMLR); mod = 0; offset(mod); if (mod <= 0) f |= SMLR; else f &= ~SMLR; }
          else { nth = 0; offset(nth); if (nth <= 0) f |= SNLR; else f &= ~SNLR; }
        }
        else if (c == 'g') { g = true; sg ^= TG; ++ip; }
        else if (c == 'p') { sg ^= TP; ++ip; }
        else if (c == 'r') { sg ^= TR; ++ip; }
        else fail("Unknown command suffix");
      }
    }
    if (ch() != '\n' && ch(1) == '\n') fail("Unknown command suffix");
    r_f = sg & TR;
    if (r_f || !sg) L = compiled(ch(), true);
    if (sg && !L) fail("No previous substitution");
    if (sg) {
      if (!global || first_pass || (global & 2)) {
        if (sg & TG) f ^= GSUB;
        if (sg & TP) { if (!io) io = PRNT; else f ^= PRSW; }
      }
    } else {
      f = io = 0; nth = mod = 0; S.inbin = false;
      if (!global) { Str x; try { x = extended(false, false); } catch (Fail &) { throw; } in = x; ip = 0; }
      unsigned char dc = ch();
      if (dc == '\n') { rhs.clear(); io = PRNT; }
      else {
        ++ip;
        if (ch() == '%' && (ch(1) == dc || ch(1) == '\n')) { ++ip; if (!has_rhs) fail("No previous substitution"); }
        else {
          rhs.clear();
          for (; ch() != dc; ++ip) {
            has_rhs = true;
            if (ch() == '\n' && ip + 1 >= in.size()) break;
            if (ch() == '\\' && ch(1) == dc) { ++ip; rhs += ch(); }
            else if (ch() == '\\' && ch(1) == '\\') { rhs += "\\\\"; ++ip; }
            else rhs += ch();
          }
          has_rhs = true;
        }
        if (ch() == '\n') io = PRNT;
        else {
          if (ch() == dc) ++ip;
          for (bool go = true; go;) {
            unsigned char c = ch();
            if (c == '$') { ++ip; if (f & GSUB) { f |= SMLR; offset(mod); } else { f |= SNLR; offset(nth); } }
            else if (c == '+' || c == '-' || isdigit(c)) {
              if (f & GSUB) { offset(mod); if (mod <= 0) f |= SMLR; else f &= ~SMLR; }
              else { offset(nth); f &= ~SMLR; if (nth <= 0) f |= SNLR; else f &= ~SNLR; }
            }
            else if (c == 'g') { f |= GSUB; ++ip; }
            else go = false;
          }
        }
      }
    }
    { int q = io; suffix_(q); io = q; }
    maybe_reset();
    lhs = L; s_f = f; s_nth = nth; s_mod = mod; sio_f = io;
    long from = start, to = end_;
    long dot = S.dot; bool nl = S.nlapp; int nsubs = 0;
    S.dot = from - 1;
    for (long lc = 0; lc <= to - from; ++lc) {
      ++S.dot; Str r;
      if (!subst_line(*L, S.L[S.dot - 1].s, nth, mod, f, r)) continue;
      long id = S.L[S.dot - 1].id; bool firstl = true;
      del(S.dot, S.dot);
      for (size_t i = 0;;) {
        size_t e = r.find('\n', i);
        put(r.substr(i, e == Str::npos ? Str::npos : e - i));
        if (firstl) { for (auto &m : mark) if (m == id) m = S.L[S.dot - 1].id; firstl = false; }
        if (e == Str::npos) break;
        i = e + 1;
      }
      ++nsubs; dot = S.dot; S.bin |= S.inbin; mid();
    }
    S.dot = dot; S.nlapp = nl;
    if (!nsubs && !global) fail("No match");
    io_f = io;
    if (io && !(f & PRSW)) display(S.dot, S.dot);
    return 0;
  }
  size_t csize(const Str &t, size_t at) { if (!S.utf) return 1; int l = Rx::clen(t, at, true); return l < 1 ? 1 : l; }
  // Walk the matches of a line; calls f(k, base, caps) -> copies
  long count(Rx &re, const Str &t) {
    size_t b = 0; long nm = 0; bool mp = false, nn = true; bool nb = false;
    std::vector<Rx::Cap> c;
    while (re.search(t, b, nb, c)) {
      size_t off = c[0].eo; bool np = nn; nn = !off;
      if (mp && nn) { if (b >= t.size()) break; off = csize(t, b); mp = false; }
      else if (!nn || np) { mp = true; ++nm; }
      else { if (nn && b >= t.size()) break; if (!off) off = csize(t, b); mp = false; }
      b += off; nb = true;
      if (off == 0 && !mp) break;
    }
    return nm;
  }
  bool subst_line(Rx &re, const Str &t, long nth, long mod, unsigned f, Str &r) {
    long cnt = count(re, t);
    if ((f & SNLR || f & SMLR) && cnt <= std::labs(nth)) return false;
    if (f & SNLR) nth += cnt; else if (!nth) nth = 1;
    if (f & SMLR) mod += cnt; else if (!mod) mod = 1;
    if (mod == 0) { unsup(__LINE__); return false; }
    size_t b = 0; unsigned long k = 0; bool mp = false, nn = true, nb = false; int changed = 0;
    std::vector<Rx::Cap> c;
    while ((!changed || (f & GSUB)) && re.search(t, b, nb, c)) {
      size_t j = c[0].eo; bool np = nn; nn = !j;
      if (mp && nn) { if (b >= t.size()) break; j = csize(t, b); r.append(t, b, j); mp = false; }
      else if ((!nn || np) && ++k >= (unsigned long) nth && !((k - (unsigned long) nth) % (unsigned long) mod)) {
        r.append(t, b, c[0].so); tmpl(t, b, c, r); mp = true; ++changed;
      } else {
        if (nn && b >= t.size()) break;
        if (!j) j = csize(t, b);
        r.append(t, b, j); mp = false;
      }
      b += j; nb = true;
    }
    if (!changed) return false;
    r.append(t, b, Str::npos);
    return true;
  }
  void tmpl(const Str &t, size_t b, const std::vector<Rx::Cap> &c, Str &r) {
    std::vector<int> cc(1, 0); int once = 0;
    auto add = [&](unsigned char x) {
      if (cc.back() > 0 || once > 0) x = x < 128 ? toupper(x) : x; else if (cc.back() < 0 || once < 0) x = x < 128 ? tolower(x) : x;
      r += x; once = 0; };
    auto addm = [&](int g) { if (g < (int) c.size() && c[g].so >= 0) for (long i = c[g].so; i < c[g].eo; ++i) add(t[b + i]); };
    for (size_t i = 0; i < rhs.size(); ++i) {
      if (rhs[i] == '&') addm(0);
      else if (rhs[i] == '\\') {
        ++i; unsigned char x = i < rhs.size() ? rhs[i] : 0;
        if (isdigit(x)) addm(x - '0');
        else if (x == 'U') cc.push_back(1);
        else if (x == 'L') cc.push_back(-1);
        else if (x == 'u') once = 1;
        else if (x == 'l') once = -1;
        else if (x == 'E') { if (cc.size() > 1) cc.pop_back(); }
        else add(x);
      } else add(rhs[i]);
    }
  }
  // ---- top level -----------------------------------------------------------------------------
  void save_edit(bool at_end) {
    Str nm = fpos < flist.size() && !flist[fpos].empty() && flist[fpos][0] != '!' ? flist[fpos]
             : has_name && !name.empty() && name[0] != '!' ? name : Str();
    if (nm.empty()) { err = "File name not set"; throw Fail{FATAL}; }
    in = "w " + nm + (at_end ? "" : suffix) + "\n"; ip = 0; addrs = 0; start = end_ = 0;
    exec_command();
  }
  Result run(const Case &c) {
    fs = c.files;
    size_t l0 = c.argv0.size(); if (l0 > 2 && c.argv0[l0 - 3] == 'r') restricted = true;
    Str script; std::vector<Str> operands;
    for (auto &e : c.env) {
      if (e.first == "POSIXLY_CORRECT") posix = true;
      else if (e.first == "LC_ALL") utf8loc = e.second.find("UTF") != Str::npos || e.second.find("utf") != Str::npos;
      else if (e.first == "EDKEYS") { keys = e.second; no_keys = false; }
      else if (e.first == "COLUMNS") { ws_col = strtol(e.second.c_str(), 0, 10); if (ws_col <= 8 || ws_col >= INT_MAX) ws_col = 80; }
      else if (e.first == "LINES") { ws_row = strtol(e.second.c_str(), 0, 10); if (ws_row <= 1 || ws_row >= INT_MAX) ws_row = 24; }
    }
    std::vector<Str> args; for (auto &e : c.env) if (e.first == "ED") { Str w; for (char ch : e.second + " ") if (ch == ' ' || ch == '\t' || ch == '\n') { if (w.size()) args.push_back(w); w.clear(); } else w += ch; }
    args.insert(args.end(), c.args.begin(), c.args.end());
    for (size_t i = 0; i < args.size(); ++i) {
      const Str &a = args[i];
      if (a == "-") { scripted = true; continue; }
      if (a.size() > 1 && a[0] == '-') {
        for (size_t j = 1; j < a.size(); ++j) switch (a[j]) {
          case 'E': case 'r': ere = true; break;
          case 'G': trad = true; break;
          case 's': scripted = true; break;
          case 'v': verbose = true; break;
          case 'w': wronly = true; break;
          case 'R': break;
          case 'e': { Str x = j + 1 < a.size() ? a.substr(j + 1) : args[++i]; fscript = scripted = true;
              script += x; if (x.empty() || x.back() != '\n') script += '\n'; j = a.size(); break; }
          case 'f': { Str x = j + 1 < a.size() ? a.substr(j + 1) : args[++i]; fscript = scripted = true;
              if (script_file.empty()) script_file = x;
              if (!fs.count(x)) { unsup(__LINE__); } Str b = fs[x]; if (!b.empty() && b.back() != '\n') b += '\n'; script += b; j = a.size(); break; }
          case 'x': try { get_key(); } catch (Fail &) { Result r; r.status = 3; r.files = c.files; return r; } break;
          case 'i': inplace = true; if (j + 1 < a.size()) { suffix = a.substr(j + 1); has_suffix = true; } j = a.size(); break;
          case 'p': prompt = true; prompt_s = j + 1 < a.size() ? a.substr(j + 1) : args[++i]; j = a.size(); break;
          default: unsup(__LINE__);
        }
        continue;
      }
      if (is_address_arg(a)) { addr_cmds.push_back(a.substr(1) + "\n"); continue; }
      operands.push_back(a);
    }
    flist = operands;
    sin.push_back(Stream{fscript ? script : c.input, 0});
    exiterr = c.seekable || fscript;
    if (!operands.empty() && verbose) first_file = true;
    Result r;
    try { loop(operands); } catch (Quit &q) { r.status = q.code; }
    r.out = out; r.files = fs;
    for (auto &f : r.files) if (f.first.compare(0, 3, "ln_") == 0) f.second = fs[f.first.substr(3)]; else if (f.first.compare(0, 3, "sl_") == 0) f.second = "LINK:" + f.first.substr(3);
    return r;
  }
  bool done = false;
  void report(int st) {
    if (st == EMOD) {
      err = "WARNING: Buffer modified since last write"; has_err = true; S.mod = false; out += "?\n";
      if (!exiterr) { if (verbose) out += err + "\n"; } else throw Quit{2};
    } else if (st == FATAL) throw Quit{3};
    else { out += "?\n"; if (!exiterr) { if (verbose) out += (has_err ? err : Str()) + "\n"; } else throw Quit{4}; }
    if (st) xstatus = -st;
  }
  // open a file of the argument list: 0 first, NEXT, PREV
  void open_edit(int st) {
    in = st == NEXT ? "~En\n" : st == PREV ? "~Ep\n" : "r " + flist[fpos] + "\n";
    ip = 0; addrs = 0; start = end_ = 0;
    exec_command(); mid();
    first_file = false;
    if (inplace && has_suffix) save_edit(false);
  }
  void loop(const std::vector<Str> &operands) {
    size_t ac = 0, steps = 0; int st = 0; bool opening = !operands.empty();
    for (;;) {
      try {
        if (opening) { opening = false; open_edit(st); }
        for (;;) {
          if (++steps > 5000) { unsup(__LINE__); throw Quit{0}; }
          if (states) note_state();
          if (prompt) out += prompt_s;
          if (ac < addr_cmds.size()) in = addr_cmds[ac++];
          else { Str l; if (snap && sin.size() == 1 && sin[0].pos >= sin[0].s.size()) { *snap = canon(); snap = nullptr; }
            if (!stdin_line(l)) throw Fail{S.mod && !scripted ? EMOD : EOF_};
            if (!has_nl(l)) fail("End-of-file unexpected");
            in = l; }
          if (states) last_cmd = in;
          ip = 0; in_null = false; global = 0;
          address_range();
          int f = exec_command(); mid();
          if ((io_f = f)) display(S.dot, S.dot);
        }
      } catch (Fail &f) {
        st = f.st;
        for (;;) {   // an error while saving re-enters error handling
          try {
            if ((st == NEXT || st == PREV) && !compat()) { if (inplace) save_edit(true); opening = !flist.empty(); if (!opening) st = 0; break; }
            if (st == EOF_ || st == NEXT || st == PREV) {
              if (!compat() && inplace) save_edit(true);
              if (flist_args && flist.size() - fpos > 1 && !sin.empty() && exiterr_seek()) { sin[0].pos = 0; st = NEXT; opening = true; break; }
              throw Quit{xstatus};
            }
            report(st);
            break;
          } catch (Fail &g) { st = g.st; }
        }
      }
    }
  }
  // `+N', `+/RE' and `+?RE' (the regular expression goes up to the end of the argument)
  static bool is_address_arg(const Str &a) {
    if (a.size() < 2 || a[0] != '+') return false;
    if (isdigit((unsigned char) a[1])) return a.find_first_not_of("0123456789", 1) == Str::npos;
    if (a[1] != '/' && a[1] != '?') return false;
    for (size_t i = 2; i < a.size(); ++i) {
      if (a[i] == a[1]) return false;
      if (a[i] == '\\') ++i;
      else if (a[i] == '[') { size_t j = a.find(']', i + 2); if (j == Str::npos) return true; i = j; }
    }
    return true;
  }
  bool exiterr_seek() { return fscript || exiterr; }
};
