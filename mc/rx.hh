// Reference regular-expression engine (POSIX BRE / ERE subset, leftmost-longest by
// exhaustive backtracking).  Written from the POSIX text, independent of the library
// that ed links with.
#pragma once
#include <string>
#include <vector>
#include <memory>
#include <functional>
#include <cstring>
#include <set>
#include <bitset>
#include <stdexcept>

struct Rx {
  struct BadPattern : std::runtime_error { using runtime_error::runtime_error; };
  struct Unsure : std::runtime_error { using runtime_error::runtime_error; };   // undefined by POSIX: not judged
  enum Kind { LIT, ANY, SET, BOL, EOL, GRP, BREF };
  struct Node;
  typedef std::vector<Node> Seq;
  typedef std::vector<Seq> Alt;
  struct Node {
    Kind k; unsigned char c = 0; std::bitset<256> set; bool neg = false;
    std::vector<unsigned> wide;      // multibyte members of a bracket list
    int grp = 0; std::shared_ptr<Alt> alt; int min = 1, max = 1;  // max -1: infinity
    std::string lit;                 // LIT: one character (maybe multibyte)
  };
  Alt top; int ngroups = 0; bool ere = false, utf8 = false, dotnul = true;
  std::string p; size_t i = 0; int depth = 0; std::set<int> open, quantified;

  Rx() {}
  Rx(const std::string &pat, bool ere_, bool utf8_, bool dotnul_ = true)
    : ere(ere_), utf8(utf8_), dotnul(dotnul_), p(pat) {
    top = alt();
    if (i < p.size()) throw Unsure("unmatched close");
  }
  static int clen(const std::string &s, size_t k, bool u) {
    unsigned char c = s[k];
    if (!u || c < 0x80) return 1;
    int n = c >= 0xf0 && c < 0xf5 ? 4 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xc2 && c < 0xe0 ? 2 : 0;
    if (!n || k + n > s.size()) return 0;
    for (int q = 1; q < n; ++q) if ((s[k + q] & 0xc0) != 0x80) return 0;
    return n;
  }
  // the matcher's period also takes five- and six-byte forms, but no overlong ones
  static int plen(const std::string &s, size_t k, bool u) {
    unsigned char c = s[k], d = k + 1 < s.size() ? s[k + 1] : 0;
    if (!u || c < 0x80) return 1;
    int n = c >= 0xfe ? 0 : c >= 0xfc ? 6 : c >= 0xf8 ? 5 : c >= 0xf0 ? 4 : c >= 0xe0 ? 3 : c >= 0xc2 ? 2 : 0;
    if (!n || k + n > s.size() || (c == 0xe0 && d < 0xa0) || (c == 0xf0 && d < 0x90) || (c == 0xf8 && d < 0x88) || (c == 0xfc && d < 0x84)) return 0;
    for (int q = 1; q < n; ++q) if ((s[k + q] & 0xc0) != 0x80) return 0;
    return n;
  }
  static unsigned cval(const std::string &s, size_t k, int n) {
    unsigned char c = s[k];
    if (n <= 1) return c;
    unsigned v = n == 2 ? c & 0x1f : n == 3 ? c & 0xf : c & 7;
    for (int q = 1; q < n; ++q) v = v << 6 | (s[k + q] & 0x3f);
    return v;
  }
  bool at(const char *t) const { return p.compare(i, strlen(t), t) == 0; }
  bool alt_sep() const { return ere && i < p.size() && p[i] == '|'; }
  bool close() const { return ere ? (depth > 0 && i < p.size() && p[i] == ')') : at("\\)"); }
  Alt alt() {
    Alt a; a.push_back(seq());
    while (alt_sep()) { ++i; a.push_back(seq()); }
    return a;
  }
  Seq seq() {
    Seq s; bool start = true;
    while (i < p.size() && !alt_sep() && !close()) {
      Node n; n.k = LIT;
      unsigned char c = p[i];
      if (c == '\\') {
        if (i + 1 >= p.size()) throw BadPattern("Trailing backslash");
        unsigned char d = p[i + 1];
        if (!ere && d == '(') { i += 2; n = group(); }
        else if (d >= '1' && d <= '9') { n.k = BREF; n.grp = d - '0'; i += 2;
          if (n.grp > ngroups) throw BadPattern("Invalid back reference");
          if (open.count(n.grp) || quantified.count(n.grp)) throw Unsure("backref"); }
        else if (!ere && d == '{') throw Unsure("interval");
        else if (ere && strchr("wWsSbB<>`'", d)) throw Unsure("GNU operator");
        else { i += 1; lit(n); }
      }
      else if (ere && c == '(') { ++i; n = group(); }
      else if (c == '.') { n.k = ANY; ++i; }
      else if (c == '[') set(n);
      else if (c == '^' && (s.empty() || ere)) { n.k = BOL; ++i; }
      else if (c == '$' && (ere || i + 1 == p.size() || p.compare(i + 1, 2, "\\)") == 0)) { n.k = EOL; ++i; }
      else if (c == '*' && !start) throw Unsure("star");
      else lit(n);
      if (ere && n.k == BOL && !s.empty()) throw Unsure("anchor");
      if (ere && n.k == EOL && i < p.size() && !alt_sep() && !close()) throw Unsure("anchor");
      if (ere && n.k == BOL && i < p.size() && strchr("*+?{", p[i])) throw Unsure("anchor");
      bool anchor = n.k == BOL;
      if (!(anchor && !ere)) quant(n);
      s.push_back(n);
      start = anchor && !ere;   // a `*' after a leading `^' is literal in a BRE
    }
    return s;
  }
  void lit(Node &n) { int l = clen(p, i, utf8); if (l < 1) l = 1; n.k = LIT; n.lit = p.substr(i, l); i += l; }
  Node group() {
    Node n; n.k = GRP; n.grp = ++ngroups; ++depth;
    open.insert(n.grp);
    n.alt = std::make_shared<Alt>(alt());
    open.erase(n.grp);
    if (!close()) throw BadPattern("Unmatched ( or \\(");
    i += ere ? 1 : 2; --depth;
    return n;
  }
  void quant(Node &n) {
    for (bool once = false;; once = true) {
      int mn, mx;
      if (i >= p.size()) return;
      if (p[i] == '*') { mn = 0; mx = -1; ++i; }
      else if (ere && p[i] == '+') { mn = 1; mx = -1; ++i; }
      else if (ere && p[i] == '?') { mn = 0; mx = 1; ++i; }
      else if (ere ? p[i] == '{' : at("\\{")) {
        i += ere ? 1 : 2; int v = 0; bool any = false; mn = 0;
        while (i < p.size() && isdigit((unsigned char) p[i])) { v = v * 10 + p[i++] - '0'; any = true; }
        if (!any) throw Unsure("interval");
        mn = v; mx = v;
        if (i < p.size() && p[i] == ',') { ++i; mx = -1; v = 0; any = false;
          while (i < p.size() && isdigit((unsigned char) p[i])) { v = v * 10 + p[i++] - '0'; any = true; }
          if (any) mx = v; }
        if (ere ? !at("}") : !at("\\}")) throw Unsure("interval");
        i += ere ? 1 : 2;
        if (mx >= 0 && mx < mn) throw Unsure("interval");
      }
      else return;
      if (once) { // nested quantifier: wrap
        Node g; g.k = GRP; g.grp = 0; g.alt = std::make_shared<Alt>(1, Seq(1, n)); n = g; }
      n.min = mn; n.max = mx; if (n.k == GRP && n.grp) for (int g = n.grp; g <= ngroups; ++g) quantified.insert(g);
    }
  }
  void set(Node &n) {
    n.k = SET; ++i;
    if (i < p.size() && p[i] == '^') { n.neg = true; ++i; }
    bool first = true;
    for (;; first = false) {
      if (i >= p.size()) throw BadPattern("Unmatched [, [^, [:, [., or [=");
      if (p[i] == ']' && !first) { ++i; return; }
      if (p[i] == '[' && i + 1 < p.size() && p[i + 1] == ':') {
        size_t e = p.find(":]", i + 2); if (e == std::string::npos) throw Unsure("class");
        std::string nm = p.substr(i + 2, e - i - 2); i = e + 2;
        for (int c = 0; c < 128; ++c)
          if ((nm == "alpha" && isalpha(c)) || (nm == "digit" && isdigit(c)) || (nm == "space" && isspace(c))
              || (nm == "upper" && isupper(c)) || (nm == "lower" && islower(c)) || (nm == "alnum" && isalnum(c))
              || (nm == "punct" && ispunct(c)) || (nm == "blank" && isblank(c))) n.set[c] = 1;
        continue;
      }
      int l = clen(p, i, utf8); if (l < 1) l = 1;
      unsigned lo = cval(p, i, l); i += l; unsigned hi = lo;
      if (i + 1 < p.size() && p[i] == '-' && p[i + 1] != ']') {
        ++i; l = clen(p, i, utf8); if (l < 1) l = 1;
        hi = cval(p, i, l); i += l;
        if (hi < lo) throw Unsure("range");
      }
      for (unsigned v = lo; v <= hi; ++v) if (v < 128 || (!utf8 && v < 256)) n.set[v] = 1; else n.wide.push_back(v);
    }
  }
  struct Cap { long so, eo; };
  // matching
  const std::string *s; size_t base; bool notbol; std::vector<Cap> caps, best; long bestend;
  typedef std::function<void(size_t)> K;
  void alts(const Alt &a, size_t pos, const K &k) { for (auto &q : a) seqm(q, 0, pos, k); }
  void seqm(const Seq &q, size_t idx, size_t pos, const K &k) {
    if (idx == q.size()) { k(pos); return; }
    const Node &n = q[idx];
    if (n.min == 1 && n.max == 1) one(n, pos, [&](size_t e) { seqm(q, idx + 1, e, k); });
    else rep(n, 0, pos, [&](size_t e) { seqm(q, idx + 1, e, k); });
  }
  void rep(const Node &n, int cnt, size_t pos, const K &k) {
    if (n.max < 0 || cnt < n.max) {
      auto sv = caps;
      one(n, pos, [&](size_t e) { if (e == pos && cnt >= n.min) return; rep(n, cnt + 1, e, k); });
      caps = sv;
    }
    if (cnt >= n.min) k(pos);
  }
  void one(const Node &n, size_t pos, const K &k) {
    switch (n.k) {
    case LIT: if (s->compare(pos, n.lit.size(), n.lit) == 0 && pos + n.lit.size() <= s->size()) k(pos + n.lit.size()); break;
    case ANY: { if (pos >= s->size()) return; int l = plen(*s, pos, utf8); if (l < 1) return;
        if ((*s)[pos] == '\n' || (!dotnul && (*s)[pos] == 0)) return; k(pos + l); break; }
    case SET: { if (pos >= s->size()) return; int l = clen(*s, pos, utf8); if (l < 1) return;
        unsigned v = cval(*s, pos, l); bool in = v < 128 || (!utf8 && v < 256) ? n.set[v] : false;
        if (!in && v >= 128) for (unsigned w : n.wide) if (w == v) in = true;
        if (n.neg && v == '\n') return;
        if (in != n.neg) k(pos + l); break; }
    case BOL: if (pos == base && !notbol) k(pos); break;
    case EOL: if (pos == s->size()) k(pos); break;
    case BREF: { Cap c = caps[n.grp]; if (c.so < 0) return; size_t l = c.eo - c.so;
        if (s->compare(pos, l, *s, c.so, l) == 0 && pos + l <= s->size()) k(pos + l); break; }
    case GRP: { Cap sv = caps[n.grp];
        alts(*n.alt, pos, [&](size_t e) { Cap in = caps[n.grp]; if (n.grp) caps[n.grp] = Cap{(long) pos, (long) e}; k(e); caps[n.grp] = in; });
        caps[n.grp] = sv; break; }
    }
  }
  // Search in text.substr(base); result offsets relative to base.
  bool search(const std::string &t, size_t b, bool nb, std::vector<Cap> &out) {
    s = &t; base = b; notbol = nb;
    for (size_t st = b; st <= t.size(); ) {
      caps.assign(ngroups + 1, Cap{-1, -1}); bestend = -1;
      alts(top, st, [&](size_t e) { if ((long) e > bestend) { bestend = e; best = caps; } });
      if (bestend >= 0) {
        best[0] = Cap{(long) st, bestend};
        for (auto &c : best) if (c.so >= 0) c.so -= b, c.eo -= b;
        out = best; return true;
      }
      if (st >= t.size()) break;
      int l = clen(t, st, utf8); st += l < 1 ? 1 : l;
    }
    return false;
  }
};
