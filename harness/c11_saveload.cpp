// C11: a saved graph loads back as the same distributed graph, from files of the documented format.
#include "refgraph.h"
#include "bgdfile.h"
#include <unistd.h>
#include <sys/stat.h>
// src: 0 build and save, 1 build elsewhere, migrate, save, 2 a file written by this harness
// dst: 0 fresh object, 1 object holding another graph, 2 the object that was saved, 3 loaded twice
struct Case { int ref, n, pol, from, place, src, dst, other, next, path, api, verb; };
static std::vector<Ref> R; static std::vector<Case> C; static Places P;
MCH_ENTRY const char* mch_property() { return "C11"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear();
  // the graphs an object held before: more and fewer types, other kind, coordinates
  R = curated(0); for (auto& r : R) r.coords = r.types.size() % 2; const int NO = (int)R.size();
  unsigned cyc = 0;
  auto add = [&](const Ref& r, int n, int pol, bool all) {
    R.push_back(r); auto& PP = P[r.nv()][n]; int K = (int)PP.size();
    for (int a = 0; a < K; ++a) for (int src = 0; src < 3; ++src) for (int dst = 0; dst < 4; ++dst) {
      if (src == 2 && dst == 2) continue;
      if (!all && (cyc % 3)) { ++cyc; continue; }
      Case k; k.ref = (int)R.size() - 1; k.n = n; k.pol = pol; k.place = a; k.from = (a * 7 + cyc) % K; k.src = src; k.dst = dst; k.other = (cyc / 2) % NO; k.next = (a + 1 + cyc / 3) % K; k.path = hmix(11, cyc) % 16 == 5 ? 3 : cyc % 3; k.api = cyc % 2; k.verb = hmix(13, cyc) % 4 == 1 ? 0 : -1; ++cyc;
      C.push_back(k);
    }
  };
  const int B = MC_POL_RTB;
  for (int n = 1; n <= 3; ++n) for (auto& e : all_hyper(3, n == 2 || th ? 3 : 2)) { Ref r = mkref("all", true, 3, {e}, cyc % 2); r.coords = cyc % 3 == 0; add(r, n, B, th); }
  for (int n = 1; n <= 3; ++n) for (auto& e : all_digraphs(3, n == 2 || th)) { Ref r = mkref("all", false, 3, {e}, cyc % 2); r.coords = cyc % 3 == 0; add(r, n, B, th); }
  for (auto& e : all_hyper(2, 2)) for (auto& f : all_hyper(2, 2)) add(mkref("pair", true, 2, {e, f}, 1), 2, B, th);
  for (auto& e : all_digraphs(2, true)) for (auto& f : all_digraphs(2, true)) add(mkref("pair", false, 2, {e, f}, 1), 2, B, th);
  for (int ids = 0; ids < 2; ++ids) for (int co = 0; co < 2; ++co) for (auto& g : curated(ids)) { Ref r = g; r.coords = co; add(r, 1, B, true); add(r, 2, ids ? MC_POL_RTB | MC_POL_HOLD : B, true); add(r, 3, B, ids == co); if (th) add(r, 4, B, false); }
  for (auto& r : curated(1)) add(odd_weights(r), 2, B, false);
  // large ids, near the end of the format's range
  { Ref r = mkref("big", true, 3, {EL{{0, 1}, {1, 2, 0}}}); for (int v = 0; v < 3; ++v) r.gid[v] = 4294967295L - v; r.types[0][1].id = 4000000000L; r.w[1] = 1e-300; r.w[2] = 0.1; r.coords = true; for (int n = 1; n <= 3; ++n) add(r, n, B, true); }
  // beyond the sizes and rank counts of the others
  for (int ids = 0; ids < 2; ++ids) { for (auto& g : larger(ids)) for (int n = 1; n <= 3; ++n) { if (g.nv() == 6 && n == 3) continue; Ref r = g; r.coords = n != 2; add(r, n, B, false); } for (auto& g : spread(ids)) for (int n : {5, 9, 10, 11, 18}) { Ref r = g; r.coords = n != 9; add(r, n, B, false); } }
  { Ref r = larger(1, th ? 4000 : 1100)[0]; r.coords = true; add(r, 2, B, false); }
  // as many types as there can be with many edges each: the report of the loaded graph is longer
  { Ref r = mkref("wide", true, 2, std::vector<EL>(MAX_TYPES, EL(10001, std::vector<int>{0, 1}))); size_t at = C.size(); add(r, 1, B, true); C[at].verb = 0; C[at].src = 0; C[at].dst = 0; C.resize(at + 1); }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = 0; p->policies = C[c].pol; p->shards = 1; }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; auto& PP = P[R[k.ref].nv()][k.n];
  std::string s = R[k.ref].str() + fmt(" on %d ranks, vertices on %s; ", k.n, pstr(PP[k.place]).c_str());
  s += k.src == 2 ? "a file of the documented format" : k.src ? "migrated from " + pstr(PP[k.from]) + " and saved" : std::string("saved");
  s += k.dst == 0 ? ", loaded into a new object" : k.dst == 1 ? ", loaded over " + R[k.other].str() : k.dst == 2 ? ", loaded over the saved object" : ", loaded twice";
  if (k.path == 3) s += " (through a long path)";
  if (k.verb == 0) s += " (verbosity 0)";
  s += ", then migrated to " + pstr(PP[k.next]);
  snprintf(b, n, "%s", s.c_str());
}
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const Ref& r = R[k.ref]; auto& PP = P[r.nv()][k.n]; const int me = mc_rank(); const Place& p = PP[k.place];
  EnGPar_Initialize(k.verb);
  std::string dots; for (int i = 0; i < 150; ++i) dots += i % 5 ? "/." : "/d"; dots += "/g"; // longer than any fixed buffer, and deep
  const char* paths[] = {"/g", "/a/b/g", "/a_b/", dots.c_str()};
  std::string prefix = std::string(mc_scratch()) + paths[k.path];
  if (!me) for (int q = 0; q < k.n; ++q) unlink((prefix + fmt("_%d.bgd", q)).c_str());
  mc_world_sync();
  agi::Ngraph* g = NULL; CheckOpt co;
  if (k.src < 2) {
    BuildOpt o; o.api = k.api; o.reversed = k.from & 1;
    g = build(r, k.src ? PP[k.from] : p, o);
    if (k.src) {
      agi::Migration* plan = new agi::Migration(g);
      for (int v = 0; v < r.nv(); ++v) if (PP[k.from][v] == me) plan->insert(std::make_pair(g->findGID(r.gid[v]), p[v]));
      g->setOriginalOwners(); g->migrate(plan);
    }
    g->saveToFile(prefix.c_str());
    co.what = "the saved graph after saving"; check_graph(g, r, p, co);
    if (k.dst != 2) { agi::destroyGraph(g); g = NULL; }
    mc_world_sync();
    if (!me) for (int q = 0; q < k.n; ++q) bgd_expect(r, p, q, bgd_slurp(prefix + fmt("_%d.bgd", q)));
  } else {
    if (!me) for (size_t i = std::string(mc_scratch()).size() + 1; (i = prefix.find('/', i)) != std::string::npos; ++i) mkdir(prefix.substr(0, i).c_str(), 0700);
    mc_world_sync();
    bgd_write(prefix + fmt("_%d.bgd", me), bgd_bytes(r, p, me, k.api));
    mc_world_sync();
  }
  if (k.dst == 1) { const Ref& q = R[k.other]; g = build(q, P[q.nv()][k.n][(k.place * 5 + 1) % P[q.nv()][k.n].size()]); if (k.next & 1) g->setOriginalOwners(); }
  else if (k.dst != 2) g = agi::createEmptyGraph();
  if (k.dst == 3) g->loadFromFile(prefix.c_str());
  g->loadFromFile(prefix.c_str());
  co.what = "the loaded graph"; check_graph(g, r, p, co);
  if (!me) { mc_transition(2); mc_state(gstate(r, p, k.src * 4 + k.dst)); }
  // it can be migrated and saved as any other graph
  g->resetOwnership();
  agi::Migration* plan = new agi::Migration(g); const Place& to = PP[k.next];
  for (int v = 0; v < r.nv(); ++v) if (p[v] == me && to[v] != me) plan->insert(std::make_pair(g->findGID(r.gid[v]), to[v]));
  g->setOriginalOwners(); g->migrate(plan);
  co.what = "the loaded graph after a migration"; co.orig = &p; check_graph(g, r, to, co);
  agi::destroyGraph(g);
  EnGPar_Finalize();
  if (k.src < 2 || k.path == 1) { mc_world_sync(); unlink((prefix + fmt("_%d.bgd", me)).c_str()); }
}
MCH_ENTRY void mch_judge(u64, int, const mc_blob* const*, const int*) { mc_trace_validated(); }
