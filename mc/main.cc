#include "ctx.hh"
#include "props.hh"

int main(int ac, char **av) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  Ctx x; Str replay; x.verif = "..";
  for (int i = 1; i < ac; ++i) {
    Str a = av[i];
    if (a == "--replay") replay = av[++i];
    else if (a == "--run") { replay = av[++i]; x.raw = true; }
    else if (a == "--show") x.show = true;
    else if (a == "--verif") x.verif = av[++i];
    else if (a == "--stride") x.stride = atol(av[++i]);
    else if (a == "--budget") x.budget = atof(av[++i]);
    else if (x.prop.empty()) x.prop = a;
    else x.tier = a;
  }
  if (x.tier.empty()) x.tier = "quick";
  x.thorough = x.tier == "thorough";
  x.t0 = now();
  if (x.budget > 1e8) x.budget = x.thorough ? 840 : 300;
  char t[64]; snprintf(t, 64, "%s/edmc.%d", Server::base().c_str(), getpid());
  mkdir(t, 0755); chmod(t, 0755); x.scratch = t;
  x.start();
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 1UL << 30); setrlimit(RLIMIT_STACK, &rl);
  // known findings: lines "KNOWN property=<id> case=<hash> <text>"
  std::map<Str, Str> ktext;
  { Str k = slurp(x.verif + "/known-findings.txt"); size_t i = 0;
    while (i < k.size()) { size_t e = k.find('\n', i); if (e == Str::npos) e = k.size(); Str l = k.substr(i, e - i); i = e + 1;
      char id[32], h[64]; int n = 0;
      if (sscanf(l.c_str(), "KNOWN property=%31s case=%63s %n", id, h, &n) >= 2 && x.prop == id) { x.known.insert(h); ktext[h] = l.substr(n); } } }
  const Prop *p = nullptr;
  for (auto &q : props()) if (x.prop == q.id) p = &q;
  if (!p) { fprintf(stderr, "unknown property %s\n", x.prop.c_str()); rmdir(t); return 9; }
  x.level = p->level;
  if (!replay.empty()) {
    p->run(x, true);
    Case c = parse_case(slurp(replay));
    if (x.raw) { Runner &r = x.srv[0]; r.keep_err = true; Result g = r.run(c, 20); printf("%s--- stderr\n%s\n", dump(g).c_str(), r.last_err.c_str()); x.cleanup(); return 0; }
    Str v; { pid_t k = fork(); if (!k) { Runner &r = x.srv[0]; v = (x.exec ? x.exec : Ctx::Exec(Ctx::default_exec))(r, c, x); printf("%s", v.c_str()); fflush(stdout); _exit(v.empty() ? 0 : 1); }
      int st; waitpid(k, &st, 0); x.cleanup(); if (WEXITSTATUS(st)) printf("VIOLATION property=%s replay=%s\n", x.prop.c_str(), replay.c_str()); else printf("no violation\n"); return WEXITSTATUS(st); }
  }
  p->run(x, false);
  x.flush();
  x.cleanup();
  // evidence
  auto js = [](const Str &s) { Str r = "\""; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; };
  Str e = "{\"property\":" + js(x.prop) + ",\"tier\":" + js(x.tier) + ",\"seed\":" + std::to_string(atol(getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1")) + ",\"level\":" + js(x.level) + ",\"coverage\":{";
  if (x.level == "model_checking")
    e += "\"states\":" + std::to_string(x.states.size()) + ",\"transitions\":" + std::to_string(x.edges.size()) + ",\"traces_validated_against_impl\":" + std::to_string(x.cases) + ",\"distinct_observed_outcomes\":" + std::to_string(x.outcomes.size());
  else
    e += "\"evaluations\":" + std::to_string(x.cases) + ",\"distinct_nontrivial\":" + std::to_string(x.outcomes.size());
  e += ",\"rule\":" + js(x.rule) + ",\"skipped_by_model\":" + std::to_string(x.skipped) + ",\"exhaustive\":" + (x.truncated || x.violations || x.stride > 1 ? "false" : "true");
  for (auto &k : x.counters) e += "," + js(k.first) + ":" + std::to_string(k.second);
  e += ",\"samples\":[";
  for (size_t i = 0; i < x.samples.size(); ++i) e += (i ? "," : "") + js(x.samples[i].substr(0, 1500));
  e += "]},\"assumptions\":[";
  for (size_t i = 0; i < x.assumptions.size(); ++i) e += (i ? "," : "") + js(x.assumptions[i]);
  char w[32]; snprintf(w, 32, "%.2f", now() - x.t0);
  e += "],\"wall_s\":" + Str(w) + ",\"violations\":" + std::to_string(x.violations) + "}\n";
  mkdir((x.verif + "/evidence").c_str(), 0755);
  if (!x.show) spew(x.verif + "/evidence/" + x.prop + ".json", e);
  for (auto &h : x.known_hit) printf("KNOWN-FINDING: property=%s %s\n", x.prop.c_str(), ktext[h].c_str());
  printf("%s %s: states=%zu transitions=%zu runs=%lu outcomes=%zu skipped=%lu%s wall=%.1fs\n", x.prop.c_str(), x.tier.c_str(), x.states.size(), x.edges.size(), (unsigned long) x.cases, x.outcomes.size(), (unsigned long) x.skipped, x.truncated ? " TRUNCATED" : "", now() - x.t0);
  for (auto &k : x.counters) printf("  %s=%lu\n", k.first.c_str(), (unsigned long) k.second);
  if (x.viol.empty()) return 0;
  Str rd = x.verif + "/build/replay"; mkdir((x.verif + "/build").c_str(), 0755); mkdir(rd.c_str(), 0755);
  for (size_t i = 0; i < x.viol.size() && i < (x.show ? 30 : 4); ++i) {
    Str f = rd + "/" + x.prop + "-" + std::to_string(i) + ".txt";
    spew(f, x.viol[i]);
    printf("%s", x.viol[i].substr(0, 3000).c_str());
    { char hx[20]; Str d = x.viol[i].substr(0, x.viol[i].find("---\n")); snprintf(hx, 20, "%016llx", (unsigned long long) fnv(d)); printf("case hash %s\n", hx); }
    printf("VIOLATION property=%s replay=%s\n", x.prop.c_str(), f.c_str());
  }
  return 1;
}
