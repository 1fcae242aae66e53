// C08: diffusive balancing redistributes the graph, changes nothing else, and always returns.
#include "balance.h"
struct Case { int ref, n, dev, pol, from, cfg, api; int first = -1, again = 0; };   // first: built under that placement and migrated; again: balanced a second time
static std::vector<Ref> R;
static std::vector<Cfg> F;
static std::vector<Case> C;
static std::map<int, std::vector<Place>[19]> P;
MCH_ENTRY const char* mch_property() { return "C08"; }
static Place blocks(int nv, int n, int big) { // contiguous; part `big` has the remainder
  Place p(nv); int small = nv / (2 * n); if (!small) small = 1;
  int v = 0; for (int q = 0; q < n; ++q) { int k = q == big ? nv - small * (n - 1) : small; while (k-- > 0 && v < nv) p[v++] = q; }
  return p;
}
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear(); F.clear();
  for (int v = 0; v < 13; ++v) for (int n = 1; n <= 4; ++n) { P[v][n].clear(); if (v <= 5) P[v][n] = placements(v, n); else for (int b = 0; b < n; ++b) P[v][n].push_back(blocks(v, n, b)); }
  unsigned cyc = 0;
  auto ref = [&](const Ref& r) { R.push_back(r); return (int)R.size() - 1; };
  auto cfg = [&](const Cfg& c) { F.push_back(c); return (int)F.size() - 1; };
  auto add = [&](int ri, int n, int dev, int pol, std::vector<int> fs, bool allf) {
    int K = (int)P[R[ri].nv()][n].size();
    for (int a = 0; a < K; ++a) {
      if (allf) for (int f : fs) C.push_back({ri, n, dev, pol, a, f, (int)(cyc++ % 2)});
      else { C.push_back({ri, n, dev, pol, a, fs[cyc % fs.size()], (int)((cyc / fs.size()) % 2)}); ++cyc; }
    }
  };
  auto mk = [&](std::vector<int> pr, double tol, double sf) { Cfg c; c.prio = pr; c.tol.assign(pr.size(), tol); c.sf = sf; return c; };
  // configurations on graphs with (at least) one edge type
  std::vector<int> one, two, three, zero, ext;
  for (double sf : {0.1, 0.5, 1.0}) for (auto pr : {std::vector<int>{-1}, {0}, {0, -1}, {-1, 0}}) one.push_back(cfg(mk(pr, 1.05, sf)));
  { Cfg c = mk({-1}, 1.01, 0.3); c.dq = 0; one.push_back(cfg(c)); c.dq = 1; c.push = false; one.push_back(cfg(c)); c.push = true; one.push_back(cfg(c)); }
  { Cfg c = mk({-1, 0}, 1.2, 0.5); c.ghosts = true; one.push_back(cfg(c)); c = mk({-1}, 1.1, 0.5); c.cut = 1.0; one.push_back(cfg(c)); c.cut = 0; c.tol.clear(); one.push_back(cfg(c)); }
  for (int mc : {2, 3}) { Cfg c = mk({-1, 0}, 1.1, 0.5); c.mincon = mc; one.push_back(cfg(c)); }
  { Cfg c = mk({-1, 0}, 1.05, 0.7); c.maxit = 0; one.push_back(cfg(c)); c.maxit = 2; one.push_back(cfg(c)); c.maxit = 1000; c.per = 0; one.push_back(cfg(c)); c.per = 1; one.push_back(cfg(c)); }
  for (auto pr : {std::vector<int>{1}, {0, 1}, {1, 0, -1}, {-1, 1}, {1, -1, 0}}) { Cfg c = mk(pr, 1.05, 0.5); two.push_back(cfg(c)); c.sides = 1; two.push_back(cfg(c)); c.sel = 1; two.push_back(cfg(c)); c.dq = 0; c.ghosts = true; two.push_back(cfg(c)); c.sides = 0; c.mincon = 2; c.con = 1; two.push_back(cfg(c)); }
  for (auto pr : {std::vector<int>{2, 1, 0, -1}, {-1, 0, 1, 2}, {1, 2}}) { Cfg c = mk(pr, 1.05, 0.5); three.push_back(cfg(c)); c.sides = 2; c.sel = 2; c.con = 2; c.mincon = 2; three.push_back(cfg(c)); }
  { Cfg c = mk({-1}, 1.05, 0.5); c.pwb = true; ext.push_back(cfg(c)); c = mk({0, -1}, 1.05, 0.5); c.pwb = true; ext.push_back(cfg(c)); c = mk({-1}, 1.3, 0.2); c.pwb = true; c.maxit = 1; ext.push_back(cfg(c)); }
  { Cfg c = mk({-1, -1, -1, -1, -1, -1, -1, 0}, 1.05, 0.5); ext.push_back(cfg(c)); }
  const int B = MC_POL_RTB, BH = MC_POL_RTB | MC_POL_HOLD;
#ifdef SMALL
  const bool small = true;
#else
  const bool small = false;
#endif
  if (!small) {
  for (auto& e : all_hyper(3, 3)) { int r = ref(mkref("all", true, 3, {e})); add(r, 2, 0, BH, one, false); add(r, 3, 0, B, one, false); }
  for (auto& e : all_digraphs(3, true)) { int r = ref(mkref("all", false, 3, {e})); add(r, 2, 0, BH, one, false); add(r, 3, 0, B, one, false); }
  for (auto& e : all_hyper(4, 2)) { int r = ref(mkref("all", true, 4, {e})); add(r, 2, 0, B, one, false); if (th) add(r, 3, 0, B, one, false); }
  for (auto& e : all_hyper(2, 2)) for (auto& f : all_hyper(2, 2)) add(ref(mkref("pair", true, 2, {e, f}, 1)), 3, 0, B, two, false);
  for (int ids = 0; ids < (th ? 3 : 2); ++ids) for (auto& g : curated(ids)) {
    if (g.types.empty()) continue;
    Ref q = g; q.coords = ids == 1; int r = ref(q);
    std::vector<int> all = one; if (q.types.size() >= 2) all.insert(all.end(), two.begin(), two.end()); if (q.types.size() >= 3) all.insert(all.end(), three.begin(), three.end());
    if (q.hyper || th) all.insert(all.end(), ext.begin(), ext.end());
    add(r, 2, 0, ids || th ? BH : B, all, ids == 0 || th); if (ids == 0 || th) add(r, 3, 0, B, all, th);
    if (ids == 0) { std::vector<int> few(all.begin(), all.begin() + 4); if (th) add(r, 4, 0, B, few, false); }
  }
  // larger shapes in blocks, on up to 4 parts
  for (int nv : {6, 8, 12}) {
    std::vector<Ref> big = {mkref("chain", true, nv, {chain(nv)}), mkref("ring", true, nv, {cycle(nv), tri(nv)}), mkref("star", true, nv, {star(nv)}), mkref("both", false, nv, {both(chain(nv))}), mkref("ring", false, nv, {both(cycle(nv)), both(star(nv))})};
    for (auto& b : big) for (int n = 2; n <= 4; ++n) { Ref u = b; int r = ref(u); u.unit_vw = u.unit_ew = true; int s = ref(u);
      std::vector<int> all = one; if (u.types.size() >= 2) all.insert(all.end(), two.begin(), two.end()); all.insert(all.end(), ext.begin(), ext.end());
      add(r, n, 0, B, all, true); add(s, n, 0, B, all, true); }
  }
  } else {
    for (auto& e : all_hyper(3, 2)) { int r = ref(mkref("all", true, 3, {e})); add(r, 2, 0, B, one, false); }
    for (auto& e : all_digraphs(3, false)) { int r = ref(mkref("all", false, 3, {e})); add(r, 2, 0, B, one, false); }
    for (auto& g : curated(0)) if (!g.types.empty()) {
      std::vector<int> all = one; if (g.types.size() >= 2) all.insert(all.end(), two.begin(), two.end()); if (g.types.size() >= 3) all.insert(all.end(), three.begin(), three.end());
      if (g.hyper) all.insert(all.end(), ext.begin(), ext.end());
      int r = ref(g); add(r, 2, 0, B, all, false); add(r, 3, 0, B, all, false);
    }
    for (int nv : {6, 12}) for (auto& b : {mkref("ring", true, nv, {cycle(nv), tri(nv)}), mkref("ring", false, nv, {both(cycle(nv)), both(star(nv))})}) { int r = ref(b); std::vector<int> all = one; all.insert(all.end(), two.begin(), two.end()); if (b.hyper) all.insert(all.end(), ext.begin(), ext.end()); add(r, 3, 0, B, all, th); }
  }
  // an edge with more vertices than any small graph has, and more completed priorities than usual
  for (bool unit : {true, false}) {
    std::vector<int> all; for (int i = 0; i < 130; ++i) all.push_back(i);
    Ref w = mkref("wide", true, 131, {EL{all, {129, 130}, {0, 130}}}); w.unit_vw = w.unit_ew = unit; int r = ref(w); int n = 2;
    P[131][2] = {Place(131, 0), Place(131, 0)}; P[131][2][0][130] = 1; for (int i = 100; i < 131; ++i) P[131][2][1][i] = 1;
    add(r, n, 0, B, {one[1], one[5], one[6]}, true);
  }
  { Cfg c = mk({-1, 0, -1, 0, -1, 0, -1, 0, -1, 0}, 1.05, 0.5); c.per = 8; int f = cfg(c); c.dq = 0; int f2 = cfg(c); for (int nv : {6, 12}) for (bool h : {true, false}) add(ref(mkref("many", h, nv, {h ? cycle(nv) : both(cycle(nv))})), 3, 0, B, {f, f2}, true); }
  // more vertices, edges and parts than the others have
  if (!small) for (int ids = 0; ids < (th ? 3 : 1); ++ids) {
    std::vector<int> fs = {one[1], one[2], one[5], one[6], one[10], one[12], one[14], ext[0]};
    for (auto& b : larger(ids, 260)) for (bool u : {false, true}) { Ref q = b; q.unit_vw = q.unit_ew = u; q.coords = u && ids; int r = ref(q);
      for (int n : {2, 3}) { if (P[q.nv()][n].empty() || q.nv() == 6) P[q.nv()][n] = places(q.nv(), n); if (q.nv() > 6 || th) add(r, n, 0, B, fs, th); else for (int i = 0; i < 8; ++i) C.push_back({r, n, 0, B, (int)(hmix(i, n) % P[6][n].size()), fs[i], u}); } }
    for (auto& b : spread(ids)) for (bool u : {false, true}) { Ref q = b; q.unit_vw = q.unit_ew = u; int r = ref(q);
      for (int n : {5, 9, 10, 17}) { P[q.nv()][n] = places(q.nv(), n); std::vector<int> all = fs; if (q.types.size() > 1) all.insert(all.end(), two.begin(), two.begin() + 8); add(r, n, 0, B, all, th); } }
  }
  // schedules
  if (!small) { std::vector<int> f3 = {one[1], one[7], one[10]};
    add(ref(mkref("sched", true, 2, {EL{{0, 1}}})), 2, th ? 1 : 0, MC_POL_ALL, f3, true);
    add(ref(mkref("sched", true, 3, {EL{{0, 1}, {1, 2}}})), 2, 0, MC_POL_ALL, f3, true);
    add(ref(mkref("sched", true, 4, {chain(4)})), 3, 0, MC_POL_ALL, f3, true);
    add(ref(mkref("sched", false, 4, {both(chain(4))})), 3, 0, MC_POL_ALL, f3, false); }
  for (size_t i = 0; i < C.size(); ++i) { Case& k = C[i]; u64 h = hmix(977, i); int K = (int)P[R[k.ref].nv()][k.n].size();
    if (h % 3 == 0) k.first = (int)((h >> 8) % K); k.again = (h >> 4) % 6 == 0; }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = C[c].dev; p->policies = C[c].pol; p->shards = 1; }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c];
  auto& pl = P[R[k.ref].nv()][k.n];
  snprintf(b, n, "%s on %d ranks, vertices on %s%s, %s%s", R[k.ref].str().c_str(), k.n, pstr(pl[k.from]).c_str(), k.first >= 0 ? (", migrated there from " + pstr(pl[k.first])).c_str() : "", F[k.cfg].str().c_str(), k.again ? ", balanced twice" : "");
}
static Place once(agi::Ngraph* g, const Ref& r, const Cfg& f, const Place& from, const Place& orig, int n, const char* what) {
  int comms = mc_open_comms(mc_rank());
  engpar::balance(make_input(g, f), -1);
  Place to = observe_place(g, r, what);
  CheckOpt co; co.what = what; co.orig = &orig;
  check_graph(g, r, to, co);
  if (mc_open_comms(mc_rank()) != comms) mc_fail("%s: %d communicators are left", what, mc_open_comms(mc_rank()) - comms);
  bool done = true;
  for (size_t i = 0; i < f.prio.size(); ++i) { double t = i < f.tol.size() ? f.tol[i] : 1.1; if (!(imbalance(part_weights(r, from, n, f.prio[i], f.ghosts)) < t)) done = false; }
  if (done && to != from) mc_fail("%s: every priority was within tolerance, and vertices moved: %s -> %s", what, pstr(from).c_str(), pstr(to).c_str());
  agi::PartitionMap* pm = g->getPartition();
  size_t want = 0;
  for (int v = 0; v < r.nv(); ++v) if (orig[v] == mc_rank()) { ++want; auto it = pm->find(r.gid[v]); if (it == pm->end() || it->second != to[v]) mc_fail("%s: the partition map misplaces vertex %d", what, v); }
  if (pm->size() != want) mc_fail("%s: the partition map has %zu entries, %zu expected", what, pm->size(), want);
  delete pm;
  return to;
}
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const Ref& r = R[k.ref]; const Cfg& f = F[k.cfg]; auto& pl = P[r.nv()][k.n]; const Place& from = pl[k.from]; const Place& orig = k.first >= 0 ? pl[k.first] : from;
  EnGPar_Initialize(-1);
  BuildOpt o; o.api = k.api;
  agi::Ngraph* g = build(r, orig, o);
  if (k.first >= 0) {
    g->setOriginalOwners();
    agi::Migration* m = new agi::Migration(g);
    agi::VertexIterator* it = g->begin(); agi::GraphVertex* u;
    while ((u = g->iterate(it))) { int v = vindex(r, g->globalID(u)); if (v >= 0 && from[v] != mc_rank()) m->insert(std::make_pair(u, from[v])); }
    g->migrate(m);
  }
  Place to = once(g, r, f, from, orig, k.n, "after balancing");
  if (!mc_rank()) { mc_transition(1); mc_state(gstate(r, to, hstr(f.str()))); }
  if (k.again) {
    Cfg f2 = f; f2.maxit = std::min(f2.maxit, 60);   // (within the limit of MPI calls per execution)
    to = once(g, r, f2, to, orig, k.n, "after balancing again");
    if (!mc_rank()) { mc_transition(1); mc_state(gstate(r, to, hstr(f.str()) + 1)); }
  }
  agi::destroyGraph(g);
  EnGPar_Finalize();
}
MCH_ENTRY void mch_judge(u64, int, const mc_blob* const*, const int*) { mc_trace_validated(); }
