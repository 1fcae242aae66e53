// C16: second adjacencies list exactly the entities sharing an edge or a vertex.
#include "refgraph.h"
#include <agiMigration.h>
// comp: the sequence of constructions (0 compressed, 1 not, 2 not then compressed, 3 compressed then not)
struct Case { int ref, n, pol, place, comp, order, from, api; };
static std::vector<Ref> R; static std::vector<Case> C; static Places P;
MCH_ENTRY const char* mch_property() { return "C16"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear();
  unsigned cyc = 0;
  auto add = [&](const Ref& r, int n, bool all, int stride = 1) {
    R.push_back(r); auto& PP = P[r.nv()][n]; int nt = (int)r.types.size();
    for (int a = 0; a < (int)PP.size(); ++a) for (int comp = 0; comp < 4; ++comp) {
      if (cyc++ % stride || (!all && comp != (int)(cyc / stride % 4))) continue;
      unsigned h = (unsigned)hmix(3, cyc);
      C.push_back({(int)R.size() - 1, n, MC_POL_RTB, a, comp, (int)(h % (nt > 1 ? 3 : 1)), h / 3 % 4 ? -1 : (int)(h / 12 % PP.size()), (int)(h / 5 % 2)});
    }
  };
  for (int v = 1; v <= 3; ++v) for (auto& e : all_hyper(v, 3)) { Ref r = mkref("all", true, v, {e}, cyc % 2); for (int n = 1; n <= 3; ++n) add(r, n, n < 3 || th); }
  for (auto& e : all_hyper(4, th ? 3 : 2)) { Ref r = mkref("all", true, 4, {e}, cyc % 2); add(r, 1, true); add(r, 2, th, th ? 1 : 2); if (th) add(r, 3, false); }
  for (int v = 1; v <= 3; ++v) for (auto& e : all_digraphs(v, true)) { Ref r = mkref("all", false, v, {e}, cyc % 2); for (int n = 1; n <= 3; ++n) add(r, n, n < 3 || th); }
  // several types: a list of one must not leak into another
  for (auto& e : all_hyper(3, 2)) for (auto& f : all_hyper(3, 2)) { add(mkref("pair", true, 3, {e, f}, cyc % 2), 1, false); add(mkref("pair", true, 3, {e, f}, cyc % 2), 2, false, th ? 1 : 3); }
  for (auto& e : all_digraphs(2, true)) for (auto& f : all_digraphs(2, true)) for (int n = 1; n <= 2; ++n) add(mkref("pair", false, 2, {e, f}, cyc % 2), n, true);
  for (int ids = 0; ids < 2; ++ids) for (auto& g : curated(ids)) for (int n = 1; n <= 4; ++n) add(g, n, n < 4 || th);
  for (auto& e : all_hyper(3, 1)) for (auto& f : all_hyper(3, 1)) for (auto& d : all_hyper(3, 1)) { Ref r = mkref("triple", true, 3, {e, f, d}, cyc % 2); add(r, 1, true); add(r, 2, th); }
  for (auto& e : all_digraphs(2, false)) for (auto& f : all_digraphs(2, true)) for (auto& d : all_digraphs(2, false)) { Ref r = mkref("triple", false, 2, {e, f, d, f}, cyc % 2); add(r, 1, true); add(r, 2, true); }
  // beyond the sizes and rank counts of the others
  for (int ids = 0; ids < 2; ++ids) { for (auto& r : larger(ids, 70)) { add(r, 1, true); add(r, 2, true, r.nv() == 6 ? 8 : 1); } add(mkref("large", true, 300, {chain(300), tri(300)}, ids), 2, false); add(mkref("large", false, 300, {both(cycle(300)), star(300)}, ids), 2, false); for (auto& r : spread(ids)) for (int n : {5, 10, 17}) add(r, n, false); }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = 0; p->policies = C[c].pol; p->shards = 1; }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; auto& PP = P[R[k.ref].nv()][k.n]; const char* CN[] = {"compressed", "not compressed", "not compressed, then compressed", "compressed, then not compressed"};
  std::string s = R[k.ref].str() + ", vertices on " + pstr(PP[k.place]); if (k.from >= 0) s += " (migrated from " + pstr(PP[k.from]) + ")";
  s += fmt(", %s, types %s", CN[k.comp], k.order == 0 ? "ascending" : k.order == 1 ? "descending" : "last first");
  snprintf(b, n, "%s", s.c_str());
}
static std::string ekey(agi::Ngraph* g, agi::GraphEdge* e, const Ref& r) {
  if (g->isHyper()) return fmt("id %ld", (long)g->globalID(e));
  return fmt("(%d,%d;%g)", vindex(r, g->globalID(g->u(e))), vindex(r, g->globalID(g->v(e))), g->weight(e));
}
static std::string ekey(const Ref& r, const Edge& e) { return r.hyper ? fmt("id %ld", (long)e.id) : fmt("(%d,%d;%g)", e.pins[0], e.pins[1], r.ew(e)); }
template <class T> static std::string list(const std::multiset<T>& s) { std::string o; for (auto& x : s) { if constexpr (std::is_same<T, int>::value) o += fmt(" %d", x); else o += " " + x; } return o; }
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const Ref& r = R[k.ref]; auto& PP = P[r.nv()][k.n]; const Place& p = PP[k.place]; const int me = mc_rank(), nt = (int)r.types.size();
  EnGPar_Initialize(-1);
  BuildOpt o; o.api = k.api; o.reversed = k.place & 1;
  agi::Ngraph* g = build(r, k.from >= 0 ? PP[k.from] : p, o);
  std::vector<int> order; for (int t = 0; t < nt; ++t) order.push_back(t);
  if (k.order == 1) std::reverse(order.begin(), order.end());
  if (k.order == 2) std::rotate(order.begin(), order.end() - 1, order.end());
  auto create = [&](bool compress) { for (int t : order) { g->create_vev_adjacency(t, compress); g->create_eve_adjacency(t, compress); } };
  if (k.from >= 0) { // lists made before a migration must not survive it
    create(k.comp == 0);
    g->setOriginalOwners(); agi::Migration* plan = new agi::Migration(g);
    for (int v = 0; v < r.nv(); ++v) if (PP[k.from][v] == me) plan->insert(std::make_pair(g->findGID(r.gid[v]), p[v]));
    g->migrate(plan);
  }
  bool compress = k.comp == 0;
  if (k.comp >= 2) { create(k.comp == 3); compress = k.comp == 2; }
  create(compress);
  for (int t = 0; t < nt; ++t) {
    size_t bound = 4; for (auto& e : r.types[t]) bound += (e.pins.size() + 2) * (e.pins.size() + 2); bound *= r.types[t].size() + 1;
    agi::GraphVertex* v; agi::VertexIterator* vi = g->begin();
    while ((v = g->iterate(vi))) {
      const int x = vindex(r, g->globalID(v)); std::multiset<int> want, got;
      for (auto& e : r.types[t]) if (r.hyper) { for (int a : e.pins) if (a == x) for (int b : e.pins) want.insert(b); } else if (e.pins[0] == x) want.insert(e.pins[1]);
      if (compress) { std::set<int> s(want.begin(), want.end()); s.erase(x); want = std::multiset<int>(s.begin(), s.end()); }
      agi::VEVIterator* it = g->vev_begin(v, t); size_t steps = 0;
      for (agi::GraphVertex* a = g->iterate(it); it != g->vev_end(v, t); a = g->iterate(it)) { if (!a || ++steps > bound) mc_fail("rank %d: the vertices adjacent to vertex %d through type %d do not end", me, x, t); got.insert(vindex(r, g->globalID(a))); }
      if (got != want) mc_fail("rank %d: the vertices adjacent to vertex %d through type %d are%s, expected%s", me, x, t, list(got).c_str(), list(want).c_str());
    }
    agi::GraphEdge* e; agi::EdgeIterator* ei = g->begin(t); size_t edges = 0, expect = 0;
    for (auto& y : r.types[t]) expect += r.edge_on(y, p, me);
    while ((e = g->iterate(ei))) {
      ++edges; const Edge* E = nullptr; std::string key = ekey(g, e, r); for (auto& y : r.types[t]) if (ekey(r, y) == key) E = &y;
      if (!E) mc_fail("rank %d: unknown edge %s", me, key.c_str());
      std::multiset<std::string> want, got;
      for (int a : E->pins) if (p[a] == me) for (auto& y : r.types[t]) { if (r.hyper) { for (int b : y.pins) if (b == a) want.insert(ekey(r, y)); } else if (y.pins[0] == a) want.insert(ekey(r, y)); }
      if (compress) { std::set<std::string> s(want.begin(), want.end()); s.erase(key); want = std::multiset<std::string>(s.begin(), s.end()); }
      agi::EVEIterator* it = g->eve_begin(e); size_t steps = 0;
      for (agi::GraphEdge* a = g->iterate(it); it != g->eve_end(e); a = g->iterate(it)) { if (!a || ++steps > bound) mc_fail("rank %d: the edges adjacent to %s of type %d do not end", me, key.c_str(), t); got.insert(ekey(g, a, r)); }
      if (got != want) mc_fail("rank %d: the edges adjacent to %s of type %d are%s, expected%s", me, key.c_str(), t, list(got).c_str(), list(want).c_str());
      mc_transition(1);
    }
    g->destroy(ei);
    if (edges != expect) mc_fail("rank %d: %zu edges of type %d, %zu expected", me, edges, t, expect);
  }
  CheckOpt co; co.what = "after building second adjacencies"; check_graph(g, r, p, co);
  if (!me) mc_state(hmix(gstate(r, p, k.comp), k.order * 64 + k.from + 1));
  agi::destroyGraph(g);
  EnGPar_Finalize();
}
MCH_ENTRY void mch_judge(u64, int, const mc_blob* const*, const int*) { mc_trace_validated(); }
