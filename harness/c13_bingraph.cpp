// C13: loading a binary edge list distributes exactly the file's edges.
#include "refgraph.h"
#include <binGraph.h>
#include <unistd.h>
struct Case { int ref, n, pol, place, next; }; // place -1: no partition file
static std::vector<Ref> R; static std::vector<Case> C; static std::map<int, std::map<int, std::vector<Place>>> P;
MCH_ENTRY const char* mch_property() { return "C13"; }
static int nverts(const EL& e) { int m = -1; for (auto& x : e) m = std::max(m, std::max(x[0], x[1])); return m + 1; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear(); unsigned cyc = 0;
  for (int v = 1; v < 8; ++v) for (int n = 1; n <= 4; ++n) P[v][n] = placements(v, v < 6 ? n : std::min(n, 2));
  auto add = [&](const char* name, const EL& e, int n, int pol, bool every) {
    int nv = nverts(e); if (nv < 1) return;
    Ref r = mkref(name, false, nv, {e}); r.unit_vw = r.unit_ew = true; R.push_back(r);
    int K = (int)P[nv][n].size();
    for (int a = -1; a < K; ++a) { if (a >= 0 && !every && cyc % 5) { ++cyc; continue; } C.push_back({(int)R.size() - 1, n, pol, a, (int)(cyc++ * 7 % K)}); }
  };
  const int B = MC_POL_RTB, BH = MC_POL_RTB | MC_POL_HOLD;
  for (int n = 1; n <= 3; ++n) for (auto& e : all_digraphs(3, true)) add("all", e, n, n == 2 ? BH : B, true);
  if (th) for (auto& e : all_digraphs(3, true)) add("all", e, 4, B, true);
  if (th) for (int n = 2; n <= 3; ++n) for (auto& e : all_digraphs(4, false)) add("all", e, n, B, false);
  // every sequence of up to 3 edges over 3 vertices (order, duplicates, self loops)
  std::vector<std::vector<int>> A; for (int u = 0; u < 3; ++u) for (int v = 0; v < 3; ++v) A.push_back({u, v});
  for (auto& a : A) for (auto& b : A) { add("list", {a, b}, 2, B, true); add("list", {a, b}, 4, B, true); for (auto& c : A) { add("list", {a, b, c}, 2, B, th); add("list", {a, b, c}, 3, B, th); if (th) for (auto& d : A) add("list", {a, b, c, d}, 2, B, false); } }
  for (int n = 1; n <= 4; ++n) {
    for (int v = 4; v <= (th ? 7 : 6); ++v) { if (v > 5 && n > 2) continue; for (auto& e : {both(chain(v)), both(cycle(v)), both(star(v)), star(v), chain(v), EL{{v - 1, 0}}, EL{{v - 1, v - 1}, {1, v - 1}, {v - 1, 1}}}) add("family", e, n, n == 3 ? B : BH, th || v < 6 || n < 3); }
  }
  add("sched", both(cycle(4)), 3, MC_POL_ALL, false); add("sched", EL{{3, 0}, {0, 2}, {2, 2}, {1, 3}}, 2, MC_POL_ALL, true);
  // beyond the sizes and rank counts of the others
  auto big = [&](const char* name, const EL& e, std::initializer_list<int> ns) {
    int nv = nverts(e); for (int n : ns) {
      auto& PP = P[nv][n]; PP = places(nv, n); if (PP.size() > 10) { std::vector<Place> q; for (size_t i = 0; i < PP.size(); i += PP.size() / 8) q.push_back(PP[i]); PP = q; }
      add(name, e, n, B, true);
    }
  };
  for (int nv : {300, 301, 303}) { EL loops, many; for (int i = 0; i < nv; ++i) { loops.push_back({i, i * 7 % nv}); many.push_back({i % 3, (i + 1) % 8}); } many.push_back({nv - 1, nv - 1}); big("large", both(chain(nv)), {1, 2, 3}); big("large", both(star(nv)), {2, 3}); big("large", loops, {2, 3, 4}); big("large", many, {2, 3, 4}); }
  for (int nv : {9, 10, 11, 20}) { big("spread", both(cycle(nv)), {5, 8, 9, 10, 11, 17}); big("spread", star(nv), {6, 7, 10, 18}); }
  big("larger", both(chain(th ? 4000 : 1100)), {2, 3});
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = 0; p->policies = C[c].pol; p->shards = 1; }
static Place place_of(const Case& k) {
  const Ref& r = R[k.ref];
  if (k.place >= 0) return P[r.nv()][k.n][k.place];
  Place p; int per = r.nv() / k.n + 1; for (int v = 0; v < r.nv(); ++v) p.push_back(v / per); // the documented block distribution
  return p;
}
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; std::string s = R[k.ref].str() + fmt(" on %d ranks, %s ", k.n, k.place < 0 ? "block distribution" : "partition file") + pstr(place_of(k)) + ", then migrated to " + pstr(P[R[k.ref].nv()][k.n][k.next]);
  snprintf(b, n, "%s", s.c_str());
}
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const Ref& r = R[k.ref]; const int me = mc_rank(); Place p = place_of(k);
  std::string gf = std::string(mc_scratch()) + "/edges.ebin", pf = std::string(mc_scratch()) + "/parts.txt";
  if (!me) {
    FILE* f = fopen(gf.c_str(), "wb"); for (auto& e : r.types[0]) { int32_t x[2] = {e.pins[0], e.pins[1]}; fwrite(x, 4, 2, f); } fclose(f);
    f = fopen(pf.c_str(), "w"); for (int x : p) fprintf(f, "%d\n", x); fclose(f);
  }
  mc_world_sync();
  EnGPar_Initialize(-1);
  agi::Ngraph* g = agi::createBinGraph((char*)gf.c_str(), k.place < 0 ? NULL : (char*)pf.c_str());
  CheckOpt co; co.what = "the loaded graph";
  if (k.place < 0) { // any block distribution will do: consecutive vertices, ascending ranks
    Place q = observe_place(g, r, "the loaded graph"); for (size_t v = 1; v < q.size(); ++v) if (q[v] < q[v - 1]) mc_fail("the block distribution is %s", pstr(q).c_str());
    long most = 0; for (int x = 0; x < k.n; ++x) most = std::max(most, (long)std::count(q.begin(), q.end(), x));
    if (most > r.nv() / k.n + 1) mc_fail("the block distribution is %s", pstr(q).c_str());
    p = q;
  }
  check_graph(g, r, p, co);
  if (!me) { mc_transition(1); mc_state(gstate(r, p, k.place < 0)); }
  const Place& to = P[r.nv()][k.n][k.next];
  agi::Migration* plan = new agi::Migration(g);
  for (int v = 0; v < r.nv(); ++v) if (p[v] == me && to[v] != me) plan->insert(std::make_pair(g->findGID(v), to[v]));
  g->setOriginalOwners(); g->migrate(plan);
  co.what = "the loaded graph after a migration"; co.orig = &p;
  check_graph(g, r, to, co);
  if (!me) { mc_transition(1); mc_state(gstate(r, to, 2)); }
  agi::destroyGraph(g);
  EnGPar_Finalize();
}
MCH_ENTRY void mch_judge(u64, int, const mc_blob* const*, const int*) { mc_trace_validated(); }
