// C10: weight migration and weight balancing move weight, never create or lose any.
#include "balance.h"
struct Move { int u, v; double w; };          // u sends w to v
struct Case { int ref, n, pol, from, api; int kind; std::vector<std::vector<Move>> plans; double tol, sf; int et, its, verts; };
static std::vector<Ref> R;
static std::vector<Case> C;
static std::map<int, std::map<int, std::vector<Place>>> P;
static std::map<int, std::vector<double>> W;  // vertex weights of a balancing case's reference
MCH_ENTRY const char* mch_property() { return "C10"; }
static bool knows(const Ref& r, const Place& p, int part, int v) { // part has v, as its own or as a ghost
  if (p[v] == part) return true;
  for (auto& t : r.types) for (auto& e : t) if (r.edge_on(e, p, part)) for (int x : e.pins) if (x == v) return true;
  return false;
}
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear(); P.clear();
  for (int v = 0; v < 6; ++v) for (int n = 1; n <= 4; ++n) P[v][n] = placements(v, n);
  for (int v = 6; v <= 12; ++v) for (int n = 2; n <= 4; ++n) { Place p(v); for (int x = 0; x < v; ++x) p[x] = x % n; P[v][n].push_back(p); for (int x = 0; x < v; ++x) p[x] = x * n / v; P[v][n].push_back(p); }
  unsigned cyc = 0;
  auto ref = [&](const Ref& r) { R.push_back(r); return (int)R.size() - 1; };
  const double amount[] = {1, 0.5, 0.25, 3};
  // every plan of up to two transfers, every pair of plans of up to one
  auto plans = [&](int ri, int n, int depth, int pol) {
    const Ref& r = R[ri];
    for (int a = 0; a < (int)P[r.nv()][n].size(); ++a) {
      const Place& p = P[r.nv()][n][a]; std::vector<Move> all;
      for (int u = 0; u < r.nv(); ++u) for (int v = 0; v < r.nv(); ++v) if (u != v && knows(r, p, p[u], v)) all.push_back({u, v, amount[cyc++ % 4]});
      auto push = [&](std::vector<std::vector<Move>> q) { C.push_back({ri, n, pol, a, (int)(cyc % 2), 0, q, 0, 0, 0, 0, 0}); };
      push({{}});
      for (size_t i = 0; i < all.size(); ++i) {
        push({{all[i]}}); push({{all[i], all[i]}});
        for (size_t j = 0; j < all.size(); ++j) { if (j > i) push({{all[i], all[j]}}); push({{all[i]}, {all[j]}}); }
        if (depth > 2) for (size_t j = 0; j < all.size(); ++j) for (size_t k = 0; k < all.size(); ++k) { push({{all[i]}, {all[j]}, {all[k]}}); if (k > j) push({{all[i]}, {all[j], all[k]}}); }
      }
      if (all.size() > 2) { push({all}); push({all, all}); }
    }
  };
  const int B = MC_POL_RTB, BH = MC_POL_RTB | MC_POL_HOLD;
  for (auto& e : all_hyper(3, 2)) { int r = ref(mkref("all", true, 3, {e})); plans(r, 2, th ? 3 : 2, BH); plans(r, 3, 2, B); }
  for (auto& e : all_digraphs(3, false)) { int r = ref(mkref("all", false, 3, {e}, 1)); plans(r, 2, 2, B); if (th) plans(r, 3, 2, B); }
  plans(ref(mkref("deep", true, 3, {EL{{0, 1}, {1, 2}}})), 2, 3, B); plans(ref(mkref("deep", false, 3, {both(chain(3))})), 3, 3, B);
  for (int ids = 0; ids < (th ? 3 : 1); ++ids) for (auto& g : curated(ids)) { int r = ref(g); plans(r, 2, 2, B); if (th) plans(r, 3, 2, B); }
  plans(ref(mkref("sched", true, 3, {chain(3)})), 2, 2, MC_POL_ALL); plans(ref(mkref("sched", true, 3, {chain(3)})), 3, 2, MC_POL_ALL);
  // balancing runs
  auto bal = [&](Ref q, int n, double scale, int et) {
    for (size_t v = 0; v < q.w.size(); ++v) q.w[v] = scale * (1 + (v * 7 + 3) % 5);
    int r = ref(q);
    for (int a = 0; a < (int)P[q.nv()][n].size(); ++a) for (double tol : {1.01, 1.1, 2.0}) for (double sf : {0.1, 0.25, 0.5, 1.0}) for (int its : {100, 1}) {
      if (!th && (q.nv() < 6 ? cyc++ % 4 : q.nv() > 100 && hmix(cyc++, a) % 8)) continue;
      C.push_back({r, n, B, a, (int)(cyc % 2), 1, {}, tol, sf, et, its, 0});
    }
  };
  for (double sc : {100.0, 1.0, 12.5}) for (int n = 2; n <= 4; ++n) {
    bal(mkref("ring", true, n, {n > 2 ? cycle(n) : chain(n)}), n, sc, 0); bal(mkref("ring", false, n, {both(chain(n))}), n, sc, 0);
    if (n <= 3) { bal(mkref("chain", true, 4, {chain(4)}), n, sc, 0); bal(mkref("both", false, 4, {both(cycle(4))}), n, sc, 0); bal(mkref("two", true, 4, {chain(4), star(4)}), n, sc, 1); bal(mkref("two", true, 4, {EL{{0, 1}}, cycle(4)}), n, sc, 1); bal(mkref("wide", true, 4, {EL{{0, 1, 2, 3}, {0, 2}}}), n, sc, 0); bal(mkref("apart", true, 4, {EL{{0, 1}, {2, 3}}}), n, sc, 0); }
    for (int nv : {6, 9, 12}) { bal(mkref("chain", true, nv, {chain(nv)}), n, sc, 0); bal(mkref("ring", true, nv, {tri(nv), cycle(nv)}), n, sc, 1); bal(mkref("both", false, nv, {both(cycle(nv))}), n, sc, 0); }
  }
  // beyond the sizes and rank counts of the others: every vertex sends to some of its neighbours, twice
  auto big = [&](const Ref& g, std::initializer_list<int> ns) {
    int ri = ref(g); const Ref& r = R[ri];
    for (int n : ns) {
      auto& PP = P[r.nv()][n]; if (PP.empty()) PP = places(r.nv(), n);
      int K = (int)PP.size();
      for (int a = 0; a < K; ++a) {
        if (K > 10 && hmix(hmix(41, C.size()), a) % (K / 8)) continue;
        const Place& p = PP[a]; std::vector<Move> all; std::vector<std::vector<int>> nb(r.nv());
        for (auto& t : r.types) for (auto& e : t) { int m = (int)e.pins.size(); for (int i = 0; i < m; ++i) { int u = e.pins[i], v = e.pins[(i + 1) % m]; if (!r.hyper && i) continue; if (u != v && nb[u].size() < 4 && knows(r, p, p[u], v)) nb[u].push_back(v); } }
        for (int u = 0; u < r.nv(); ++u) for (int v : nb[u]) all.push_back({u, v, amount[cyc++ % 4] / 16});
        std::vector<Move> back; for (size_t i = 0; i < all.size(); i += 3) back.push_back(all[all.size() - 1 - i]);
        C.push_back({ri, n, B, a, (int)(cyc % 2), 0, {all, back}, 0, 0, 0, 0, 0});
      }
    }
  };
  for (int ids = 0; ids < 3; ++ids) { for (auto& r : larger(ids)) big(r, {2, 3}); for (auto& r : spread(ids)) big(r, {5, 9, 10, 17}); }
  for (double sc : {1.0, 12.5}) for (int nv : {300, 301}) {
    P[nv][2] = places(nv, 2);
    bal(mkref("chain", true, nv, {chain(nv), star(nv)}), 2, sc, nv & 1); bal(mkref("both", false, nv, {both(cycle(nv))}), 2, sc, 0);
  }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = 0; p->policies = C[c].pol; p->shards = 1; }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; std::string s = R[k.ref].str() + fmt(" on %d ranks, vertices on %s", k.n, pstr(P[R[k.ref].nv()][k.n][k.from]).c_str());
  for (auto& p : k.plans) { s += " plan"; int shown = 0; for (auto& m : p) { if (++shown > 60) { s += fmt(" ... %zu transfers", p.size()); break; } s += fmt(" %d->%d:%g", m.u, m.v, m.w); } if (p.empty()) s += " of nothing"; }
  if (k.kind) s += fmt(" balanceWeights tolerance %g step %g type %d iterations %d", k.tol, k.sf, k.et, k.its);
  snprintf(b, n, "%s", s.c_str());
}
static bool share(const Ref& r, int u, int v, int t) {
  for (auto& e : r.types[t]) { bool a = false, b = false; for (int x : e.pins) { a |= x == u; b |= x == v; } if (a && b) return true; }
  return false;
}
// posts: 1 v w ... per owned vertex; 2 u v w per entry of the weight partition
static void post_state(agi::Ngraph* g, const Ref& r, const Place& p) {
  agi::VertexIterator* it = g->begin(); agi::GraphVertex* v;
  while ((v = g->iterate(it))) Out().i(1).i(vindex(r, g->globalID(v))).d(g->weight(v)).post();
  for (auto& a : *g->getWeightPartition()) for (auto& b : a.second) {
    int u = vindex(r, a.first), w = vindex(r, b.first);
    if (u < 0 || w < 0) mc_fail("the weight partition names an unknown vertex");
    if (p[u] != mc_rank()) mc_fail("part %d reports weight of vertex %d of part %d", mc_rank(), u, p[u]);
    if (b.second != 0) Out().i(2).i(u).i(w).d(b.second).post();
  }
}
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const Ref& r = R[k.ref]; const Place p = P[r.nv()][k.n][k.from]; const int me = mc_rank();
  EnGPar_Initialize(-1);
  BuildOpt o; o.api = k.api;
  agi::Ngraph* g = build(r, p, o);
  if (!k.kind) {
    std::vector<double> w; for (int v = 0; v < r.nv(); ++v) w.push_back(r.vw(v));
    for (auto& plan : k.plans) {
      agi::WeightMigration* wm = new agi::WeightMigration(g);
      std::map<std::pair<int, int>, double> mine;
      for (auto& m : plan) {
        if (p[m.u] == me) { wm->insert(g->findGID(r.gid[m.u]), g->findGID(r.gid[m.v]), m.w); mine[{m.u, m.v}] += m.w; }
        w[m.u] -= m.w; w[m.v] += m.w;
      }
      std::vector<int> known; for (int v = 0; v < r.nv(); ++v) if (knows(r, p, me, v)) known.push_back(v);
      for (int u = 0; u < r.nv(); ++u) if (p[u] == me) for (int v : known) {
        agi::GraphVertex *a = g->findGID(r.gid[u]), *b = g->findGID(r.gid[v]); bool in = mine.count({u, v});
        if (wm->has(a, b) != in || (in && (wm->get(a, b) != mine[{u, v}] || !wm->has(a)))) mc_fail("the plan for %d->%d", u, v);
      }
      g->migrate(wm);
      if (!me) { mc_transition(1); u64 h = gstate(r, p); for (double x : w) mc_hash_bytes(&h, &x, 8); mc_state(h); }
      CheckOpt co; co.what = "after the weight migration"; co.vweight = &w;
      check_graph(g, r, p, co);
    }
    post_state(g, r, p);
  } else {
    engpar::WeightInput* in = engpar::createWeightInput(g, k.tol, k.sf, k.et); in->maxIterations = k.its;
    engpar::balanceWeights(in, -1);
    std::vector<double> w(r.nv()); long* sh = mc_shared();
    mc_world_sync();
    agi::VertexIterator* it = g->begin(); agi::GraphVertex* v;
    while ((v = g->iterate(it))) { double x = g->weight(v); memcpy(&sh[vindex(r, g->globalID(v))], &x, 8); }
    mc_world_sync();
    memcpy(w.data(), sh, 8 * r.nv());
    CheckOpt co; co.what = "after weight balancing"; co.vweight = &w;
    check_graph(g, r, p, co);
    post_state(g, r, p);
    if (!me) { mc_transition(1); u64 h = gstate(r, p); for (double x : w) mc_hash_bytes(&h, &x, 8); mc_state(h); }
  }
  agi::destroyGraph(g);
  EnGPar_Finalize();
}
MCH_ENTRY void mch_judge(u64 c, int n, const mc_blob* const* logs, const int* counts) {
  Case& k = C[c]; const Ref& r = R[k.ref]; const Place& p = P[r.nv()][k.n][k.from];
  std::vector<double> w(r.nv(), -1); std::map<std::pair<int, int>, double> wp;
  for (int q = 0; q < n; ++q) for (int i = 0; i < counts[q]; ++i) { In in(logs[q][i]); if (in.i() == 1) { int v = in.i(); w[v] = in.d(); } else { int u = in.i(), v = in.i(); wp[{u, v}] = in.d(); } }
  double t0 = 0, t1 = 0; for (int v = 0; v < r.nv(); ++v) { t0 += r.vw(v); t1 += w[v]; }
  auto close = [&](double a, double b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + t0); };
  if (!close(t0, t1)) mc_fail("the total weight was %g and is %g", t0, t1);
  if (!k.kind) {
    std::map<std::pair<int, int>, double> want;
    for (auto& pl : k.plans) for (auto& m : pl) { want[{m.u, m.v}] += m.w; want[{m.v, m.u}] -= m.w; }
    for (int u = 0; u < r.nv(); ++u) for (int v = 0; v < r.nv(); ++v) if (!close(want[{u, v}], wp[{u, v}])) mc_fail("the weight partition says %g for %d->%d, %g was sent", wp[{u, v}], u, v, want[{u, v}]);
  } else {
    std::vector<double> x; for (int v = 0; v < r.nv(); ++v) x.push_back(r.vw(v));
    for (auto& e : wp) {
      if (e.second < 0) mc_fail("the weight partition keeps %g for %d->%d", e.second, e.first.first, e.first.second);
      if (!share(r, e.first.first, e.first.second, k.et)) mc_fail("weight moved from vertex %d to %d, which share no edge of type %d", e.first.first, e.first.second, k.et);
      x[e.first.first] -= e.second; x[e.first.second] += e.second;
    }
    for (int v = 0; v < r.nv(); ++v) {
      if (!close(x[v], w[v])) mc_fail("vertex %d ends with %g; the weight partition accounts for %g", v, w[v], x[v]);
      if (w[v] < -1e-9) mc_fail("vertex %d ends with weight %g", v, w[v]);
    }
    std::vector<double> a(n, 0.), b(n, 0.); for (int v = 0; v < r.nv(); ++v) { a[p[v]] += r.vw(v); b[p[v]] += w[v]; }
    if (imbalance(a) < k.tol && !wp.empty()) mc_fail("weight moved although the imbalance %g was within the tolerance", imbalance(a));
    if (k.sf <= 0.5 && n <= 3 && *std::max_element(b.begin(), b.end()) > *std::max_element(a.begin(), a.end()) + 1e-9) mc_fail("the heaviest part grew from %g to %g", *std::max_element(a.begin(), a.end()), *std::max_element(b.begin(), b.end()));
    if (k.its == 1) for (auto& e : wp) if (!(a[p[e.first.first]] > a[p[e.first.second]])) mc_fail("in one step weight moved from part %d (%g) to part %d (%g)", p[e.first.first], a[p[e.first.first]], p[e.first.second], a[p[e.first.second]]);
    // two parts, heavy vertices sharing edges: some weight must move
    if (n == 2 && k.sf < 1 && wp.empty() && imbalance(a) >= k.tol) { // (step factor 1 may move weight there and back)
      int hv = a[0] > a[1] ? 0 : 1; bool can = false;
      for (auto& e : r.types[k.et]) { double m = 1e9; int other = 0; if (!r.edge_on(e, p, hv)) continue; for (int y : e.pins) if (p[y] == hv) m = std::min(m, r.vw(y)); else ++other; if (other && m * 0.1 / other >= 1 && (a[hv] - a[1 - hv]) * k.sf / r.types[k.et].size() / 3 >= 1) can = true; }
      if (can) mc_fail("no weight moved although part %d is heavier (%g, %g)", hv, a[0], a[1]);
    }
    if (n == 2 && r.nv() == 2 && r.w[0] >= 100 && k.its == 100 && p[0] != p[1] && k.tol >= 1.1 && k.sf < 1 && !(imbalance(b) < k.tol + 0.05)) mc_fail("two heavy vertices sharing an edge end at %g and %g, tolerance %g", b[0], b[1], k.tol);
  }
  mc_trace_validated();
}
