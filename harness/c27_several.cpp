// C27: graphs that are alive at the same time do not influence each other.
#include "ops2.h"
struct Side { int ref, place, api; std::vector<int> ops; };
struct Case { int n; Side s[2]; unsigned order; bool log, late; };   // bit i of order: whose turn the i-th operation is; late: the second graph is built when the first one's operations have begun
static std::vector<Ref> R; static std::vector<Case> C; static Places P;
MCH_ENTRY const char* mch_property() { return "C27"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear(); u64 cyc = 0;
  R.push_back(mkref("strip", true, 6, {chain(6), EL{{0, 1, 2}, {2, 3, 4}, {1, 4, 5}, {3}}}, 1));
  R.push_back(mkref("path", false, 5, {both(chain(5)), both(EL{{0, 2}, {1, 4}, {0, 4}})}));
  R.push_back(mkref("one", true, 4, {EL{{0, 1, 2, 3}, {0, 1}, {2, 3}}}));
  R.push_back(mkref("star", true, 6, {star(6), cycle(6)}, 2));
  R.push_back(mkref("plain", false, 4, {both(cycle(4))}, 1));
  R.push_back(mkref("none", true, 3, {}));
  const int small = (int)R.size();
  std::vector<Ref> big = larger(1, 90); R.insert(R.end(), big.begin(), big.end()); for (auto& r : spread(2)) R.push_back(r);
  for (auto& r : R) r.coords = hstr(r.name) & 1;
  auto pick = [&](int ref, int n, u64 h) { return (int)(h % P[R[ref].nv()][n].size()); };
  auto add = [&](int n, int a, int b, std::vector<int> x, std::vector<int> y, int stride) {
    u64 h = hmix(17, cyc++); if (h % stride) return;
    int len = (int)(x.size() + y.size()), k = 0;
    for (unsigned o = 0; o < (1u << len); ++o) if (__builtin_popcount(o) == (int)y.size()) {
      u64 g = hmix(h, o); if (len > 2 && !th && g % 3) { ++k; continue; }
      C.push_back({n, {{a, pick(a, n, g >> 8), (int)(g >> 3) % 3, x}, {b, pick(b, n, g >> 24), (int)(g >> 5) % 3, y}}, o, (g >> 40) % 4 == 0, (bool)(g >> 43 & 1)});
    }
  };
  for (int n = 1; n <= 3; ++n) for (int a = 0; a < small; ++a) for (int b = 0; b < small; ++b)
    for (int i = 0; i < ALLOPS; ++i) for (int j = 0; j < ALLOPS; ++j) {
      add(n, a, b, {i}, {j}, th ? 1 : n == 1 ? 12 : 4);
      for (int k = 0; k < ALLOPS; ++k) { add(n, a, b, {i, k}, {j}, th ? 60 : 1500); add(n, a, b, {i, k}, {j, (i + j + k * 7) % ALLOPS}, th ? 150 : 5000); }
    }
  // beyond the sizes and rank counts of the others
  for (int n : {2, 5, 10}) for (int a = 0; a < (int)R.size(); ++a) for (int b = small; b < (int)R.size(); ++b) { if ((b < small + 6) != (n == 2)) continue; for (int i = 0; i < ALLOPS; ++i) for (int j = 0; j < ALLOPS; ++j) add(n, a, b, {i}, {j}, th ? 15 : 120); }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = 0; p->policies = MC_POL_RTB; p->shards = 1; p->baseline = 1; }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; std::string s;
  for (int i = 0; i < 2; ++i) { const Side& q = k.s[i]; s += fmt("%s: %s on %d ranks, vertices on %s:", i ? "; B" : "A", R[q.ref].str().c_str(), k.n, pstr(P[R[q.ref].nv()][k.n][q.place]).c_str()); for (int o : q.ops) s += std::string(" ") + opname(o) + ";"; }
  s += " in the order "; for (size_t i = 0; i < k.s[0].ops.size() + k.s[1].ops.size(); ++i) s += k.order >> i & 1 ? "B" : "A"; if (k.late) s += ", the second one built late"; if (k.log) s += ", with log";
  snprintf(b, n, "%s", s.c_str());
}
// One graph, with a tag on its vertices.
struct Run {
  const Side& q; const Ref& r; int n; const Place& p; State st; size_t at = 0; agi::GraphTag* tag = NULL; std::vector<std::string> out; bool open = false;
  Run(const Side& s, int n_) : q(s), r(R[s.ref]), n(n_), p(P[r.nv()][n][s.place]), st{NULL, false, (int)r.types.size()} {}
  static std::string all(agi::Ngraph* g) { std::string s = dump(g); if (g->hasCoords()) { agi::VertexIterator* it = g->begin(); agi::GraphVertex* v; while ((v = g->iterate(it))) s += fmt(" (%g %g %g)", g->coord(v)[0], g->coord(v)[1], g->coord(v)[2]); } return s; }
  void begin() { if (open) return; open = true; st.g = build(r, p, BuildOpt{r.types.size() == 1 && q.api == 2 ? 2 : q.api & 1, false}); out.push_back(all(st.g)); retag(); }
  // the handles of vertices and tags are those of the graph as it is now
  void retag() { tag = st.g->createIntTag(); agi::VertexIterator* it = st.g->begin(); agi::GraphVertex* v; while ((v = st.g->iterate(it))) st.g->setIntTag(tag, v, (int)st.g->globalID(v) * 5 + q.ref); }
  std::string tags() { std::string s = " tag:"; agi::VertexIterator* it = st.g->begin(); agi::GraphVertex* v; while ((v = st.g->iterate(it))) s += fmt(" %d", st.g->getIntTag(tag, v)); return s; }
  void step() {
    begin();
    out.push_back(tags()); st.g->destroyTag(tag);
    std::string res = applyx(q.ops[at], st, n, p, q.place, q.api, r, -1, (int)at + 1);
    out.push_back(opname(q.ops[at]) + std::string(": ") + all(st.g) + res); ++at; retag();
  }
  void end() { begin(); out.push_back("at the end: " + all(st.g) + tags()); agi::destroyGraph(st.g); }
};
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c];
  // the executions of a case: both graphs, either one alone (each begins with the process as it was at first)
  if (!mc_rank()) mc_shared()[4000] = mc_choose(3, "both graphs, A alone or B alone");
  mc_world_sync();
  const int which = (int)mc_shared()[4000];
  if (chdir(mc_scratch())) mc_fail("INTERNAL chdir");
  EnGPar_Initialize(-1); if (k.log) EnGPar_Open_Log();
  auto check = [&](int x, const Run& t) {
    for (size_t i = 0; i < t.out.size(); ++i) { size_t m; const std::string& s = t.out[i]; const void* o = mc_same(x * 1000 + (int)i, s.data(), s.size(), &m);
      if (o) mc_fail("graph %c, rank %d: with the other graph\n%s\nalone\n%s", "AB"[x], mc_rank(), std::string((const char*)o, m).c_str(), s.c_str()); }
    if (which && !mc_rank()) for (auto& s : t.out) { mc_transition(1); mc_state(hmix(hstr(s), k.n)); }
  };
  if (!which) {
    Run a(k.s[0], k.n), b(k.s[1], k.n); Run* t[2] = {&a, &b};
    if (!k.late) { a.begin(); b.begin(); }
    for (size_t i = 0; i < k.s[0].ops.size() + k.s[1].ops.size(); ++i) t[k.order >> i & 1]->step();
    t[c & 1]->end(); t[!(c & 1)]->end();
    check(0, a); check(1, b);
  } else { Run one(k.s[which - 1], k.n); while (one.at < one.q.ops.size()) one.step(); one.end(); check(which - 1, one); }
  if (k.log) EnGPar_Close_Log();
  EnGPar_Finalize();
}
MCH_ENTRY void mch_judge(u64, int, const mc_blob* const*, const int*) { mc_trace_validated(); }
