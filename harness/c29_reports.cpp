// C29: what the library prints about itself is true: messages, statistics of a graph, the balancers' reports, the log
// and the debug files.
#include "ops.h"
#include <fcntl.h>
#include <sys/stat.h>
enum { MSG, STATS, REPORT, WREPORT, TREE, DEBUG, INIT };
struct Case { int kind, ref, n, place, api, verb, v; std::vector<int> ops; };
static std::vector<Ref> R; static std::vector<Case> C; static std::vector<Cfg> CF; static Places P;
MCH_ENTRY const char* mch_property() { return "C29"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear(); CF.clear();
  for (int n = 1; n <= 3; ++n) for (int v = -3; v <= 4; ++v) { C.push_back({MSG, -1, n, 0, 0, v, 0, {}}); for (int tail = 0; tail < 3; ++tail) C.push_back({INIT, -1, n, 0, 0, v, tail, {}}); }
  // statistics
  auto stats = [&](const Ref& r, int n, int stride) { R.push_back(r); for (int a = 0; a < (int)P[r.nv()][n].size(); ++a) if (stride == 1 || hmix(hmix(5, C.size()), a) % stride == 0) C.push_back({STATS, (int)R.size() - 1, n, a, r.types.size() == 1 && !r.unit_vw && r.unit_ew && a % 3 == 0 ? 2 : a & 1, 0, 0, {}}); };
  for (int ids = 0; ids < 3; ++ids) for (auto& r : curated(ids)) for (int n = 1; n <= 3; ++n) stats(r, n, th ? 1 : n == 3 ? 9 : 2);
  for (auto& e : all_hyper(3, 2)) for (int n = 1; n <= 3; ++n) stats(mkref("all", true, 3, {e}), n, th ? 1 : 3);
  for (auto& e : all_digraphs(3, true)) for (int n = 1; n <= 3; ++n) stats(mkref("all", false, 3, {e}), n, th ? 1 : 12);
  for (bool h : {true, false}) for (int t = 3; t <= 7; ++t) { std::vector<EL> T; for (int i = 0; i < t; ++i) T.push_back(i % 3 == 0 ? (h ? chain(4) : both(chain(4))) : i % 3 == 1 ? EL{} : star(4)); for (int n = 1; n <= 3; ++n) stats(mkref("types", h, 4, T), n, 7); }
  for (auto& r : larger(1)) for (int n = 1; n <= 3; ++n) stats(r, n, r.nv() == 6 ? 100 : 1);
  { Ref w = mkref("wide-ids", true, 300, {}, 2); EL e; for (int i = 0; i < 7; ++i) w.types.emplace_back(), w.types.pop_back(); for (int i = 0; i < 7; ++i) add_type(w, i % 2 ? star(300) : tri(300), 2); for (int n = 1; n <= 2; ++n) stats(w, n, 1); }
  for (auto& r : spread(0)) for (int n : {5, 10, 17}) stats(r, n, 1);
  // reports of the balancers
  auto rep = [&](const Ref& r, int n, bool blocks) {
    R.push_back(r); auto& PP = P[r.nv()][n];
    for (int a = 0; a < (int)PP.size(); ++a) {
      if (blocks && (!std::is_sorted(PP[a].begin(), PP[a].end()))) continue;
      u64 h = hmix(hmix(19, R.size()), a * 8 + n);
      for (int verb = 0; verb <= 2; ++verb) for (int i = 0; i < (th ? 3 : 1); ++i) {
        u64 x = hmix(h, verb * 8 + i); Cfg c; int T = (int)r.types.size();
        switch (x % 5) { case 0: c.prio = {-1}; c.tol = {1.05}; break; case 1: c.prio = {0, -1}; c.tol = {1.1, 1.01}; break; case 2: c.prio = {T - 1, 0, -1}; c.tol = {1.2, 1.1}; break; case 3: c.prio = {-1}; break; default: c.prio = {-1, 0}; c.tol = {2.5, 1.05}; }
        x /= 5; c.maxit = x % 3 == 0 ? 0 : x % 3 == 1 ? 1000 : 3; x /= 3; c.per = x % 4 == 0 ? 0 : x % 4 == 1 ? 2 : 100; x /= 4; c.sf = x & 1 ? 0.5 : 0.2; c.ghosts = x / 2 % 4 == 0; c.pwb = x / 8 % 5 == 0; c.dq = x / 40 & 1; c.push = x / 80 % 3 > 0;
        C.push_back({REPORT, (int)R.size() - 1, n, a, (int)(x / 240 & 1), verb, (int)CF.size(), {}}); CF.push_back(c);
        if (x / 480 % (th ? 1 : 3) == 0) { c.prio = {(int)(x / 2000 % T)}; c.tol = {x / 7000 % 2 ? 1.05 : 1.5}; C.push_back({WREPORT, (int)R.size() - 1, n, a, (int)(x / 240 & 1), verb, (int)CF.size(), {}}); CF.push_back(c); }
      }
    }
  };
  for (int n = 2; n <= 3; ++n) {
    rep(mkref("strip", true, 8, {chain(8), tri(8)}, 1), n, true); rep(mkref("ring", true, 9, {cycle(9)}), n, true); rep(mkref("path", false, 8, {both(chain(8)), both(EL{{0, 3}, {2, 6}, {4, 7}})}), n, true); rep(mkref("grid", true, 9, {gridnodes(3, 3)}, 2), n, true);
    rep(mkref("small", true, 4, {chain(4), EL{{0, 1, 2, 3}, {1, 3}}}), n, false); rep(mkref("small", false, 4, {both(cycle(4))}, 1), n, false);
    { Ref r = mkref("seven", true, 6, {chain(6), cycle(6), star(6), tri(6), EL{{0, 5}}, EL{{0, 1, 2, 3, 4, 5}}, chain(6)}); rep(r, n, true); }
  }
  for (auto& r : larger(0, 90)) if (r.nv() > 6) rep(r, 2, false); for (auto& r : spread(1)) for (int n : {5, 10, 17}) rep(r, n, false);
  // the log as a tree: functions of the user around operations of the library. -1 begins one, -2 ends it
  auto tree = [&](int ref, int n, std::vector<int> ops, int stride) { pick_places(R[ref].nv(), n, false, stride, C.size(), [&](int a, u64 h) { C.push_back({TREE, ref, n, a, (int)(h & 1), (int)(h >> 8 & 3) - 1, 0, ops}); }); };
  int from = (int)R.size(); R.push_back(mkref("strip", true, 6, {chain(6), EL{{0, 1, 2}, {2, 3, 4}, {1, 4, 5}, {3}}}, 1)); R.push_back(mkref("path", false, 5, {both(chain(5)), both(EL{{0, 2}, {1, 4}, {0, 4}})})); R.push_back(mkref("none", true, 3, {}, 1));
  for (int ref = from; ref < (int)R.size(); ++ref) for (int n = 1; n <= 3; ++n) for (int i = 0; i < NOPS; ++i) {
    tree(ref, n, {-1, i, -2}, th ? 1 : 3); tree(ref, n, {-1, -1, i, -2, i, -2, i}, th ? 2 : 8); tree(ref, n, {-1, -1, -1, -1, -2, i, -2, -1, i, -2, -2, -2, -1, -2}, th ? 2 : 12);
    for (int j = 0; j < NOPS; ++j) { tree(ref, n, {-1, i, -1, j, -2, i, -2}, th ? 4 : 60); tree(ref, n, {i, -1, -2, -1, -1, j, -2, -2}, th ? 4 : 60); }
  }
#ifndef NOFAULTS
  for (int v = -1; v <= 2; ++v) for (int mode = 0; mode < 4; ++mode) for (int seq = 0; seq < 32; ++seq) C.push_back({DEBUG, -1, 1, 0, mode, v, seq, {}});
#endif
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = 0; p->policies = MC_POL_RTB; p->shards = 1; p->isolate = C[c].kind == DEBUG; }
static const char* KN[] = {"messages", "statistics", "report of balance", "report of balanceWeights", "log", "debug files", "initialisation"};
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; std::string s = std::string(KN[k.kind]) + fmt(" at verbosity %d, variant %d.%d,", k.verb, k.api, k.kind == REPORT || k.kind == WREPORT ? 0 : k.v);
  if (k.ref >= 0) s += " " + R[k.ref].str() + fmt(" on %d ranks, vertices on %s", k.n, pstr(P[R[k.ref].nv()][k.n][k.place]).c_str()); else s += fmt(" on %d ranks", k.n);
  if (k.kind == REPORT || k.kind == WREPORT) s += " " + CF[k.v].str();
  for (int o : k.ops) s += o == -1 ? " {" : o == -2 ? " }" : std::string(" ") + ON[o] + ";";
  snprintf(b, n, "%s", s.c_str());
}
// what f writes to stdout and stderr (no other rank runs meanwhile)
static void caught(std::function<void()> f, std::string* out, std::string* err) {
  fflush(stdout); fflush(stderr); std::string file[2] = {std::string(mc_scratch()) + fmt("/o%d", mc_rank()), std::string(mc_scratch()) + fmt("/e%d", mc_rank())}; int keep[2] = {dup(1), dup(2)};
  for (int i = 0; i < 2; ++i) { int fd = open(file[i].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, i + 1); close(fd); }
  f(); fflush(stdout); fflush(stderr);
  for (int i = 0; i < 2; ++i) { std::string& s = *(i ? err : out); s.clear(); lseek(i + 1, 0, SEEK_SET); char b[4096]; ssize_t n; while ((n = read(i + 1, b, sizeof b)) > 0) s.append(b, n); dup2(keep[i], i + 1); close(keep[i]); }
}
static std::string shown(std::string s) { for (auto& c : s) if (c == '\n') c = '|'; return s; }
static void messages(Case& k) {
  const int me = mc_rank();
  EnGPar_Start_Test(); if (EnGPar_Hit_Error()) mc_fail("Hit_Error just after Start_Test");
  const std::string longish(900, 'x');
  for (int level = -4; level <= 5; ++level) for (int what = 0; what < 4; ++what) {
    auto say = [&](std::function<void()> f, const std::string& wo, const std::string& we, const char* kind) { std::string o, e; caught(f, &o, &e); if (o != wo || e != we) mc_fail("%s at level %d, verbosity %d: stdout '%s', stderr '%s', expected '%s' and '%s'", kind, level, k.verb, shown(o).c_str(), shown(e).c_str(), shown(wo).c_str(), shown(we).c_str()); mc_transition(1); };
    std::string text = what == 0 ? fmt("rank %d of %d\n", me, k.n) : what == 1 ? "plain\n" : what == 2 ? fmt("%ld %g %s%%\n", 1L << 40, 2.5, "str") : "a " + longish + " z\n";
#define SAY(F, ...) do { if (what == 0) F(__VA_ARGS__ "rank %d of %d\n", me, k.n); else if (what == 1) F(__VA_ARGS__ "plain\n"); else if (what == 2) F(__VA_ARGS__ "%ld %g %s%%\n", 1L << 40, 2.5, "str"); else F(__VA_ARGS__ "a %s z\n", longish.c_str()); } while (0)
    say([&] { if (what == 0) EnGPar_Status_Message(level, "rank %d of %d\n", me, k.n); else if (what == 1) EnGPar_Status_Message(level, "plain\n"); else if (what == 2) EnGPar_Status_Message(level, "%ld %g %s%%\n", 1L << 40, 2.5, "str"); else EnGPar_Status_Message(level, "a %s z\n", longish.c_str()); }, level <= k.verb ? "ENGPAR " + text : "", "", "a status message with a level");
    say([&] { SAY(EnGPar_Status_Message, ); }, "ENGPAR " + text, "", "a status message");
    say([&] { SAY(EnGPar_Warning_Message, ); }, "[WARNING] ENGPAR " + text, "", "a warning");
    if (EnGPar_Hit_Error()) mc_fail("Hit_Error without an error message since the test began");
    say([&] { SAY(EnGPar_Error_Message, ); }, "", "[ERROR] ENGPAR " + text, "an error message");
    if (!EnGPar_Hit_Error()) mc_fail("an error message is not remembered");
    for (int again = 0; again < 3; ++again) { say([&] { EnGPar_Error_Message("again %d\n", again); }, "", fmt("[ERROR] ENGPAR again %d\n", again), "another error message"); if (!EnGPar_Hit_Error()) mc_fail("after %d error messages none is remembered", again + 2); }
    EnGPar_Status_Message(100, "never"); if (!EnGPar_Hit_Error()) mc_fail("an error is forgotten before the next test begins");
    EnGPar_Start_Test(); if (EnGPar_Hit_Error()) mc_fail("Start_Test does not forget the errors before it");
  }
}
static std::vector<double> nums(const std::string& s, size_t at) { std::vector<double> v; const char* p = s.c_str() + at; for (;;) { char* e; while (*p == ' ') ++p; if (!*p || *p == '\n') break; double x = strtod(p, &e); if (e == p) break; v.push_back(x); p = e; } return v; }
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> v; size_t a = 0; while (a < s.size()) { size_t e = s.find('\n', a); if (e == std::string::npos) e = s.size(); v.push_back(s.substr(a, e - a)); a = e + 1; } return v; }
// the number after each "Type t:" of the line that names what
static bool types_line(const std::string& out, const char* what, std::vector<long>* v) {
  for (auto& l : lines(out)) { size_t at = l.find(what); if (at == std::string::npos) continue; v->clear(); at += strlen(what); for (;;) { size_t t = l.find("Type ", at); if (t == std::string::npos) return true; int ty; long n; if (sscanf(l.c_str() + t, "Type %d: %ld", &ty, &n) != 2 || ty != (int)v->size()) mc_fail("the statistics say '%s'", l.c_str()); v->push_back(n); at = t + 5; } }
  return false;
}
static void stats(agi::Ngraph* g, const Ref& r) {
  std::string out, err; caught([&] { g->printStats(); }, &out, &err);
  std::vector<long> e, p, we, wp; bool he = types_line(out, "Edges:", &e), hp = types_line(out, "Pins:", &p); for (auto& t : r.types) { we.push_back((long)t.size()); long n = 0; for (auto& x : t) n += (long)x.pins.size(); wp.push_back(n); }
  size_t at = out.find("Vertices:"); long n = at == std::string::npos ? -1 : atol(out.c_str() + at + 9);
  if (n != r.nv() || !he || e != we || hp != r.hyper || (hp && p != wp) || (out.find("Hyper") != std::string::npos) != r.hyper || !err.empty()) mc_fail("the statistics of this graph are given as '%s%s'", shown(out).c_str(), shown(err).c_str());
}
static void tree(Case& k) {
  const Ref& r = R[k.ref]; const int me = mc_rank(); const Place& p = P[r.nv()][k.n][k.place];
  if (chdir(mc_scratch())) mc_fail("INTERNAL chdir");
  State st{build(r, p, BuildOpt{k.api, false}), false, (int)r.types.size()}; EnGPar_Set_Verbosity(k.verb);
  if (k.v == 0) { EnGPar_Open_Log(); if (EnGPar_Is_Log_Open()) { char m[] = "before\n"; EnGPar_Log_Function(m); if ((k.place ^ k.api) & 1) EnGPar_End_Function(); } EnGPar_Close_Log(); }   // an earlier log, perhaps closed within a function, is replaced
  EnGPar_Open_Log(); if (EnGPar_Is_Log_Open() != !me) mc_fail("the log is %s", me ? "open on this part" : "not open");
  // the lines the user makes and the depth of what comes next
  struct L { int depth, id; }; std::vector<L> mine; int depth = 0, id = 0, at = 0; std::vector<int> in;
  auto user = [&] { if (EnGPar_Is_Log_Open()) { char m[40]; sprintf(m, "MCUSER %d\n", id); EnGPar_Log_Function(m); } mine.push_back({depth, id++}); };
  for (int o : k.ops) { if (o == -1) { user(); ++depth; } else if (o == -2) { if (EnGPar_Is_Log_Open()) EnGPar_End_Function(); --depth; } else { apply(o, st, k.n, p, k.place, k.api, r, k.verb, at); in.push_back((int)mine.size()); ++at; user(); if (EnGPar_Is_Log_Open()) EnGPar_End_Function(); } }
  EnGPar_Close_Log(); if (EnGPar_Is_Log_Open()) mc_fail("Close_Log leaves the log open");
  if (!me) {
    std::string s; { FILE* f = fopen("log.txt", "r"); if (!f) mc_fail("there is no log"); char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); }
    if (s.find("before") != std::string::npos) mc_fail("the log holds lines of an earlier one"); if (!s.empty() && s.back() != '\n') mc_fail("the last line of the log is incomplete");
    size_t next = 0; int base = 0;
    for (auto& l : lines(s)) {
      size_t ind = l.find_first_not_of(' '); if (ind == std::string::npos) continue; int d = (int)ind / 2;
      if (l.compare(ind, 6, "MCUSER") == 0) { if (next >= mine.size() || atoi(l.c_str() + ind + 6) != mine[next].id) mc_fail("the log has '%s' where the user's call %d should be", l.c_str(), next < mine.size() ? mine[next].id : -1); if ((int)ind != 2 * mine[next].depth) mc_fail("the log has the user's call %d at column %zu, it was made at depth %d", mine[next].id, ind, mine[next].depth); bool leaf = std::find(in.begin(), in.end(), (int)next) != in.end(); base = mine[next].depth + !leaf; ++next; }
      // the balancer's parameters, further lines of one entry, carry an indent of their own
      else if (l.compare(ind, 1, " ") && strstr(l.c_str(), " : ") == NULL && strstr(l.c_str(), " :") == NULL && d < base && next < mine.size() && mine[next].depth >= base) mc_fail("the log has '%s' at depth %d, inside a function of depth %d", l.c_str(), d, base - 1);
    }
    if (next != mine.size()) mc_fail("the log has %zu of the user's %zu calls", next, mine.size());
    mc_transition(1); mc_state(hstr(s));
  }
  mc_world_sync(); agi::destroyGraph(st.g);
}
static std::string slurp_(const char* f) { std::string s; FILE* x = fopen(f, "r"); if (!x) return "(none)"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, x)) > 0) s.append(b, n); fclose(x); return s; }
// sequences of {open the debug files or not, print, close them} twice, on one rank of its own process
static void debug(Case& k) {
  if (chdir(mc_scratch())) mc_fail("INTERNAL chdir"); unlink("debug/debug0.txt"); rmdir("debug"); unlink("debug"); if (k.v & 8) mkdir("debug", 0700); else if (k.v & 16) fclose(fopen("debug", "w"));
  const bool on = k.verb >= 0, e = k.api == 1 || k.api == 2, any = k.api != 3; const char* mode[] = {"o", "e", "oe", "x"};
  auto both_ = [&](const char* s) { EnGPar_Status_Message("%s\n", s); fprintf(stdout, "raw %s\n", s); EnGPar_Error_Message("%s\n", s); fflush(stdout); fflush(stderr); };
  std::string out, err, file; caught([&] {
    both_("before"); EnGPar_Debug_Open(mode[k.api]); both_("during"); if (k.v & 4) { EnGPar_Debug_Open(mode[k.api]); both_("second"); } fflush(stdout); file = slurp_("debug/debug0.txt"); EnGPar_Debug_Close(); both_("after");
    if (k.v & 2) { EnGPar_Debug_Close(); both_("again"); }
    if (k.v & 1) { EnGPar_Debug_Open(mode[k.api]); both_("reopened"); EnGPar_Debug_Close(); both_("end"); }
  }, &out, &err);
  auto o = [](const char* s) { return fmt("ENGPAR %s\nraw %s\n", s, s); }; auto er = [](const char* s) { return fmt("[ERROR] ENGPAR %s\n", s); };
  std::string wo = o("before"), we = er("before"), wf = ""; const char* line = "ENGPAR Opening debug files. Output can be found in debug/debug#.txt\n"; const bool bad = on && any && !(k.v & 8) && (k.v & 16), to = on && any && !bad; const char* fail = "[ERROR] ENGPAR Failed to open debug files\n";
  auto put = [&](const char* s, bool open) { bool f = open && to; (f ? wf : wo) += o(s); (f && e ? wf : we) += er(s); };
  if (on) wo += line; if (bad) we += fail; put("during", true);
  if (k.v & 4) { if (on) wo += line; if (bad) we += fail; if (to) wf = ""; put("second", true); }
  std::string first = wf; put("after", false); if (k.v & 2) put("again", false);
  if (k.v & 1) { if (on) wo += line; if (bad) we += fail; wf = ""; put("reopened", true); put("end", false); if (to && slurp_("debug/debug0.txt") != wf) mc_fail("the debug file, opened again, has '%s', expected '%s'", shown(slurp_("debug/debug0.txt")).c_str(), shown(wf).c_str()); }
  if (to && file != first) mc_fail("the debug file has '%s', expected '%s'", shown(file).c_str(), shown(first).c_str());
  if (!to && !bad && any && file != "(none)") mc_fail("a debug file was made at verbosity %d", k.verb);
  if (out != wo || err != we) mc_fail("with debug files '%s' stdout has '%s', stderr '%s', expected '%s' and '%s'", mode[k.api], shown(out).c_str(), shown(err).c_str(), shown(wo).c_str(), shown(we).c_str());
  mc_transition(1);
}
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const int me = mc_rank();
  if (k.kind == INIT) { if (k.v == 2) PCU_Comm_Init(); EnGPar_Initialize(k.verb); if (k.v == 1) { EnGPar_Finalize(); EnGPar_Initialize(k.verb); } EnGPar_Finalize(); if (k.v == 2) PCU_Comm_Free(); if (!me) mc_transition(1); return; }
  EnGPar_Initialize(-1); EnGPar_Set_Verbosity(k.verb);
  if (k.kind == MSG) { messages(k); if (!me) mc_state(hmix(k.verb, k.n)); }
  else if (k.kind == TREE) { EnGPar_Set_Verbosity(-1); tree(k); }
  else if (k.kind == DEBUG) debug(k);
  else {
    const Ref& r = R[k.ref]; Place p = P[r.nv()][k.n][k.place]; agi::Ngraph* g = build(r, p, BuildOpt{k.api, false});
    if (k.kind == STATS) { stats(g, r); if (!me) mc_state(gstate(r, p)); if (!me) mc_transition(1); if (k.n > 1 && k.place % 3 == 0) { g->setOriginalOwners(); agi::Migration* m = new agi::Migration(g); agi::VertexIterator* it = g->begin(); agi::GraphVertex* v; while ((v = g->iterate(it))) m->insert({v, (me + 1) % k.n}); g->migrate(m); stats(g, r); } }
    else if (k.kind == REPORT) { engpar::balance(make_input(g, CF[k.v]), k.verb); agi::VertexIterator* it = g->begin(); agi::GraphVertex* v; while ((v = g->iterate(it))) Out().i(vindex(r, g->globalID(v))).d(0).post(); if (!me) mc_transition(1); }
    else { auto* in = engpar::createWeightInput(g, CF[k.v].tol[0], CF[k.v].sf, CF[k.v].prio[0]); in->maxIterations = CF[k.v].maxit; engpar::balanceWeights(in, k.verb); agi::VertexIterator* it = g->begin(); agi::GraphVertex* v; while ((v = g->iterate(it))) Out().i(vindex(r, g->globalID(v))).d(g->weight(v)).post(); if (!me) mc_transition(1); }
    agi::destroyGraph(g);
  }
  EnGPar_Finalize();
}
MCH_ENTRY void mch_judge(u64 c, int n, const mc_blob* const* logs, const int* counts) {
  Case& k = C[c]; mc_trace_validated();
  if (k.kind == INIT) { size_t len; char* o = mc_output(&len); std::string s(o, len); free(o); int hits = 0; for (auto& l : lines(s)) hits += l.find("Git hash") != std::string::npos; int want = k.verb >= 0 ? k.v == 1 ? 2 : 1 : 0; if (hits != want) mc_fail("the version is printed %d times, expected %d: %s", hits, want, shown(s).c_str()); if (!want && !s.empty()) mc_fail("at verbosity %d initialisation prints '%s'", k.verb, shown(s).c_str()); return; }
  if (k.kind != REPORT && k.kind != WREPORT) return;
  const Ref& r = R[k.ref]; const Place& p = P[r.nv()][k.n][k.place]; const Cfg& cf = CF[k.v]; Place q(r.nv(), -1); Ref end = r; end.unit_vw = false; for (int v = 0; v < r.nv(); ++v) end.w[v] = r.vw(v);
  for (int i = 0; i < n; ++i) for (int j = 0; j < counts[i]; ++j) { In b(logs[i][j]); int v = (int)b.i(); double w = b.d(); q[v] = i; if (k.kind == WREPORT) end.w[v] = w; }
  size_t len; char* o = mc_output(&len); std::string out(o, len); free(o);
  auto imb = [&](const Ref& g, const Place& at, bool gh) { std::vector<double> v; for (int d = -1; d < (int)r.types.size(); ++d) v.push_back(imbalance(part_weights(g, at, k.n, d, gh))); return v; };
  auto close_ = [&](const std::vector<double>& a, const std::vector<double>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(std::isnan(a[i]) && std::isnan(b[i])) && !(std::abs(a[i] - b[i]) <= 6e-5 + 1e-9 * std::abs(b[i]))) return false; return true; };
  auto list = [](const std::vector<double>& v) { std::string s; for (double x : v) s += fmt(" %.4f", x); return s; };
  std::vector<double> first, last; int starts = 0, dones = 0, steps = 0, total = -1, lines_since = 0, shown_ = 0, moved = -1; std::string dim;
  const char* SW = "Starting weight diffusion with imbalance:"; const char *SV = "Starting diffusion on vertices with imbalances:", *SE = "Starting diffusion on edge type ";
  for (auto& l : lines(out)) {
    size_t at; auto has = [&](const char* s) { at = l.find(s); if (at == std::string::npos) return false; at += strlen(s); return true; };
    auto begin = [&](int d) { if (starts >= (int)cf.prio.size() || cf.prio[starts] != d) mc_fail("the report says '%s' for priority %d", l.c_str(), starts); ++starts; if (dones != starts - 1) mc_fail("the report begins a priority before the one before is completed: %s", shown(out).c_str()); lines_since = 0; };
    if (has(SW)) { first = nums(l, at); ++starts; }
    else if (has(SV)) { begin(-1); if (starts == 1) first = nums(l, at); }
    else if (has(SE)) { begin(atoi(l.c_str() + at)); has("with imbalances:"); if (starts == 1) first = nums(l, at); }
    else if (has("Imbalances <v, e0, ...>:")) { last = nums(l, at); ++lines_since; ++shown_; }
    else if (has("Migrating ")) moved = atoi(l.c_str() + at);
    else if (has("Completed diffusion for ")) {
      int d = -2; if (l.compare(at, 8, "vertices") == 0) d = -1; else sscanf(l.c_str() + at, "edge type %d", &d);
      size_t s = l.find(" in ", at); int st = s == std::string::npos ? -1 : atoi(l.c_str() + s + 4);
      if (++dones != starts || d != cf.prio[dones - 1]) mc_fail("the report says '%s' for priority %d", l.c_str(), dones - 1);
      if (k.verb >= 1 && lines_since != st && lines_since != st + 1) mc_fail("the report says '%s', it shows %d steps", l.c_str(), lines_since);
      if (k.verb >= 2) { if (l.find(" due to ") == std::string::npos) mc_fail("the report gives no reason: '%s'", l.c_str()); double tol = dones <= (int)cf.tol.size() ? cf.tol[dones - 1] : 1.1; auto now = last.empty() ? imb(r, p, false) : last; if (l.find("target tolerance") != std::string::npos && !cf.ghosts && now[d + 1] > tol + 1e-4) mc_fail("the report says '%s', the imbalance is %g, the tolerance %g", l.c_str(), now[d + 1], tol); if (l.find("max iterations") != std::string::npos && !cf.ghosts && lines_since < cf.per && shown_ < cf.maxit) mc_fail("the report says '%s' after %d steps", l.c_str(), lines_since); }
      steps += st;
    }
    else if (has("Diffusion completed in ")) total = atoi(l.c_str() + at);
    else if (has("EnGPar converged in ") || has("EnGPar ran to completion in ")) total = atoi(l.c_str() + at);
  }
  if (!starts || first.empty()) mc_fail("no report: %s", shown(out).c_str());
  auto want = imb(r, p, k.kind == REPORT && cf.ghosts); if (!close_(first, want)) mc_fail("the report begins with imbalances%s, they are%s", list(first).c_str(), list(want).c_str());
  if (k.verb >= 1 && !last.empty()) { auto w = imb(end, q, false); if (!close_(last, w)) mc_fail("the last imbalances reported are%s, they are%s", list(last).c_str(), list(w).c_str()); }
  if (k.verb >= 1 && last.empty() && (q != p || (k.kind == WREPORT && imb(end, q, false) != imb(r, p, false)))) mc_fail("something moved and no step is reported");
  if (total < 0) mc_fail("the report does not end: %s", shown(out).c_str());
  if (k.kind == REPORT && (dones != starts || starts > (int)cf.prio.size() || total > cf.maxit + 1)) mc_fail("the report has %d priorities begun, %d completed, %d iterations", starts, dones, total);
  if (k.kind == REPORT && cf.maxit == 0 && starts == 1 && k.verb >= 2 && moved >= 0) { int m = 0; for (int v = 0; v < r.nv(); ++v) m += p[v] != q[v]; if (m != moved) mc_fail("the report says that %d vertices migrated, %d did", moved, m); }
  u64 h = gstate(r, q); mc_state(h);
}
