// C01: a constructed distributed graph answers every query as its input says.
#include "refgraph.h"

struct Case { int ref, n, dev, pol, api; bool rev, thrice; Place pl; };
static std::vector<Ref> R;
static std::vector<Case> C;
MCH_ENTRY const char* mch_property() { return "C01"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear();
  auto add = [&](const Ref& r, int maxn, bool alln, const std::vector<int>& apis, int dev = 0, int pol = MC_POL_RTB | MC_POL_HOLD) {
    R.push_back(r);
    for (int n = alln ? 1 : maxn; n <= maxn; ++n) for (auto& pl : placements(r.nv(), n)) for (int a : apis)
      C.push_back({(int)R.size() - 1, n, dev, pol, a & 3, (a & 4) != 0, (a & 8) != 0, pl});
  };
  // every small graph, every distribution
  int me = th ? 3 : 2;
  for (auto& e : all_hyper(3, 3)) add(mkref("all", true, 3, {e}), 3, true, {0, 5});
  for (auto& e : all_digraphs(3, true)) add(mkref("all", false, 3, {e}), 3, true, {th ? 0 : 4, 1});
  for (auto& e : all_hyper(4, me)) add(mkref("all4", true, 4, {e}), th ? 4 : 3, false, {1});
  for (auto& e : all_hyper(2, 2)) for (auto& f : all_hyper(2, 2)) add(mkref("pair", true, 2, {e, f}, 1), 3, true, {0, 1});
  for (auto& e : all_digraphs(2, true)) for (auto& f : all_digraphs(2, true)) add(mkref("pair", false, 2, {e, f}), 3, true, {4, 1});
  for (auto& e : all_digraphs(2, true)) for (auto& f : all_digraphs(2, true)) for (auto& h : all_digraphs(2, true)) add(mkref("triple", false, 2, {e, f, h}), 2, false, {0});
  if (th) for (auto& e : all_digraphs(4, false)) add(mkref("all4", false, 4, {e}), 3, false, {4});
  // curated graphs: weights given or not, coordinates, identifiers of any size, all-in-one call
  for (int ids = 0; ids < 3; ++ids) for (int k = 0; k < 8; ++k)
    for (auto& r : curated(ids)) { Ref q = r; q.unit_vw = k & 1; q.unit_ew = k & 2; q.coords = k & 4; add(q, 3, true, {0, 1, 4, 5, 8}); if (q.unit_ew && q.types.size() == 1) add(q, 3, true, {2, 6, 10}); }
  for (auto& r : curated(1)) add(odd_weights(r), 2, true, {0, 1});
  // schedules: every schedule within one deviation of the base schedules
  add(mkref("h1", true, 3, {EL{{0, 1}, {1, 2}}}), 2, false, {0}, 1, MC_POL_ALL);
  add(mkref("d1", false, 3, {both(chain(3))}), 2, false, {1}, 1, MC_POL_ALL);
  if (th) for (auto& r : curated(1)) add(r, 2, false, {0}, 1, MC_POL_RTB | MC_POL_HOLD | MC_POL_RR);
  for (auto& r : curated(1)) add(r, th ? 4 : 3, false, {0}, 0, MC_POL_ALL);
  // the largest number of edge types, and a graph without vertices
  { Ref r; r.name = "maxtypes"; default_ids(r, 3); for (int t = 0; t < MAX_TYPES; ++t) add_type(r, t % 2 ? chain(3) : EL{{0, 2}, {1, 2, 0}}); add(r, 3, true, {0, 1}); r.hyper = false; r.types.clear(); for (int t = 0; t < MAX_TYPES; ++t) add_type(r, t % 2 ? chain(3) : EL{{0, 2}, {1, 2}}); add(r, 3, true, {0, 1, 5}); }
  add(mkref("novertices", true, 0, {EL{}}), 3, true, {0, 1});
  add(mkref("novertices", false, 0, {EL{}}), 3, true, {0, 1});
  add(mkref("big", true, 6, {gridnodes(2, 3), grid(2, 3)}), th ? 4 : 3, false, {0});
  add(mkref("big", false, 6, {both(grid(2, 3))}), th ? 4 : 3, false, {1});
  // beyond the sizes and rank counts of the others
  auto big = [&](const Ref& r, std::initializer_list<int> ns, const std::vector<int>& apis) { R.push_back(r); for (int n : ns) for (auto& pl : places(r.nv(), n)) { if (places(r.nv(), n).size() > 10 && hmix(C.size(), n) % 97) continue; for (int a : apis) C.push_back({(int)R.size() - 1, n, 0, MC_POL_RTB, a & 3, (a & 4) != 0, false, pl}); } };
  for (int ids = 0; ids < 3; ++ids) { for (auto& r : larger(ids)) { Ref q = r; q.coords = ids == 2; q.unit_vw = ids == 1; big(q, {1, 2, 3}, {ids == 1, 4 + (ids != 1)}); } for (auto& r : spread(ids)) big(r, {5, 8, 9, 10, 13, 17}, {0, 5}); }
  for (auto& r : larger(1, th ? 2500 : 1100)) if (r.nv() > 6 && (th || r.types.size() < 3)) big(r, {2}, {1});
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = C[c].dev; p->policies = C[c].pol; p->shards = 1; }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c];
  snprintf(b, n, "%s on %d ranks, vertices on %s; %s interface%s%s", R[k.ref].str().c_str(), k.n, pstr(k.pl).c_str(), k.api == 0 ? "vector" : k.api == 1 ? "array" : "all-in-one", k.rev ? ", listed in descending order" : "", k.thrice ? ", over another graph" : "");
}
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const Ref& r = R[k.ref];
  EnGPar_Initialize(-1);
  agi::Ngraph* g = agi::createEmptyGraph();
  BuildOpt o; o.api = k.api; o.reversed = k.rev;
  CheckOpt co; co.what = "constructed";
  if (k.thrice) { // the object already holds another graph
    Ref other = mkref("other", !r.hyper, 4, {EL{{0, 1}, {2, 3}}, EL{{1, 2}}}, 1);
    other.coords = true;
    Place op; for (int v = 0; v < 4; ++v) op.push_back((v + 1) % k.n);
    BuildOpt oo; construct(g, other, op, oo);
    check_graph(g, other, op, co);
    mc_transition(1);
  }
  construct(g, r, k.pl, o);
  if (!mc_rank()) { mc_transition(1); mc_state(gstate(r, k.pl, c % 1)); }
  check_graph(g, r, k.pl, co);
  // weights can be replaced
  std::vector<int> vs; for (int v = 0; v < r.nv(); ++v) if (k.pl[v] == PCU_Comm_Self()) vs.push_back(v);
  if (k.rev) std::reverse(vs.begin(), vs.end());
  std::vector<double> nw(r.nv()); for (int v = 0; v < r.nv(); ++v) nw[v] = 40 + v;
  std::vector<wgt_t> w; for (int v : vs) w.push_back(nw[v]);
  w.push_back(0);
  g->setWeights(w.data());
  Ref q = r; q.unit_ew = false;
  for (auto& t : q.types) for (auto& e : t) e.w = 9.5;
  for (size_t t = 0; t < q.types.size(); ++t) g->setEdgeWeights(9.5, (etype)t);
  co.what = "after the weights were replaced"; co.vweight = &nw; co.ghost_weights = false; co.global = false;
  check_graph(g, q, k.pl, co);
  for (size_t t = 0; t < q.types.size(); ++t) {   // one weight per edge of the part, by local id
    lid_t ne = g->numLocalEdges((etype)t), i = 0;
    std::vector<wgt_t> ws(ne);
    agi::EdgeIterator* it = g->begin((etype)t); agi::GraphEdge* e;
    while ((e = g->iterate(it))) { ws[i] = 100 * (t + 1) + i; ++i; }
    g->destroy(it);
    if (ne) g->setEdgeWeights(ws, (etype)t);
    it = g->begin((etype)t); i = 0;
    while ((e = g->iterate(it))) { if (g->weight(e) != ws[i] || g->localID(e) != i) mc_fail("rank %d: edge %d of type %zu has weight %g after setEdgeWeights(%g)", mc_rank(), i, t, g->weight(e), ws[i]); ++i; }
    g->destroy(it);
    std::vector<wgt_t> none; g->setEdgeWeights(none, (etype)t);
    it = g->begin((etype)t);
    while ((e = g->iterate(it))) if (g->weight(e) != 1) mc_fail("rank %d: edge weights are not 1 after setEdgeWeights(nothing)", mc_rank());
    g->destroy(it);
  }
  if (!mc_rank()) mc_transition(4);
  agi::destroyGraph(g);
  EnGPar_Finalize();
}
MCH_ENTRY void mch_judge(u64, int, const mc_blob* const*, const int*) { mc_trace_validated(); }
