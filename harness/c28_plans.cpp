// C28: plans of migration, plans of weight migration and timers hold exactly what was put in them. Every history of
// insertions and clearings of two plans that live on one graph is compared with a model after its last step; plans
// made by such histories are then carried out; every history of timer updates is compared on every rank and over all ranks.
#include "refgraph.h"
#include <agiMigrationTimers.h>
#include <cstdlib>
enum { PLAN, DO, WPLAN, WDO, TIMERS, MTIMERS, UNKNOWN };
struct Case { int kind, ref, n, place, depth, variant; std::vector<int> ops; };
static std::vector<Ref> R; static std::vector<Case> C; static Places P;
MCH_ENTRY const char* mch_property() { return "C28"; }
// insert(vertex i, part d) for 3 vertices and 3 parts, or clear
static const int NI = 3, NOP = NI * 3 + 1;
static const double AMOUNT[] = {1, 2.5};
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear();
  R.push_back(mkref("chain", true, 3, {chain(3)}, 1)); R.push_back(mkref("both", false, 3, {both(cycle(3)), EL{{0, 2}}})); R.push_back(mkref("none", true, 3, {}, 2)); R.push_back(mkref("wide", true, 4, {EL{{0, 1, 2, 3}, {1, 3}}, chain(4)}, 2)); R.push_back(mkref("star", false, 4, {both(star(4))}, 1));
  R[0].coords = R[3].coords = true;
  for (int ref = 0; ref < (int)R.size(); ++ref) {
    for (int n = 1; n <= 3; ++n) for (int a = 0; a < (int)P[R[ref].nv()][n].size(); ++a) {
      u64 h = hmix(hmix(7, ref), a * 4 + n); bool few = n == 1 || !th ? h % (n == 1 ? 1 : n * 4) : 0;
      if (few) continue;
      C.push_back({PLAN, ref, n, a, th ? (n == 1 ? 5 : 4) : n == 1 ? 4 : 3, (int)(h >> 8 & 1), {}});
      if (!R[ref].types.empty()) C.push_back({WPLAN, ref, n, a, th ? (n == 1 ? 5 : 4) : n == 1 ? 4 : 3, (int)(h >> 8 & 1), {}});
    }
    // every history of 1..3 steps of one plan, carried out
    for (int n = 2; n <= 3; ++n) {
      auto hist = [&](std::vector<int> o) { for (int a = 0; a < (int)P[R[ref].nv()][n].size(); ++a) { u64 h = hmix(hmix(31, C.size()), a * 8 + n); int s = (th ? 3 : 40) * (o.size() < 3 ? 1 : 12); if (o.size() > 1 && h % s) continue; C.push_back({DO, ref, n, a, 0, (int)(h >> 9 & 1), o}); if (!R[ref].types.empty()) C.push_back({WDO, ref, n, a, 0, (int)(h >> 9 & 1), o}); } };
      for (int i = 0; i < NOP; ++i) { hist({i}); for (int j = 0; j < NOP; ++j) { hist({i, j}); for (int k = 0; k < NOP; ++k) hist({i, j, k}); } }
      for (int i = 0; i < NOP; ++i) for (int j = 0; j < NOP; ++j) hist({i, (i + 3) % NOP, NOP - 1, j});
    }
  }
  // many vertices
  { int from = (int)R.size(); for (auto& r : larger(1)) R.push_back(r); for (int ref = from; ref < (int)R.size(); ++ref) for (int n = 2; n <= 3; ++n) for (int a = 0; a < (int)P[R[ref].nv()][n].size(); a += R[ref].nv() == 6 ? 50 : 1) for (int kind : {DO, WDO}) for (int v = 0; v < 2; ++v) C.push_back({kind, ref, n, a, 0, v, {-1}});
    from = (int)R.size(); for (auto& r : spread(2)) R.push_back(r); for (int ref = from; ref < (int)R.size(); ++ref) for (int n : {5, 10, 17}) for (int a = 0; a < (int)P[R[ref].nv()][n].size(); ++a) for (int kind : {DO, WDO}) for (int v = 0; v < 2; ++v) C.push_back({kind, ref, n, a, 0, v, {-1}}); }
  for (int n = 1; n <= 5; ++n) { C.push_back({TIMERS, 0, n, 0, th ? 6 : 4, 3, {}}); C.push_back({TIMERS, 0, n, 0, 2, 40, {}}); C.push_back({TIMERS, 0, n, 0, 3, 1, {}}); }
  for (int ref = 0; ref < 5; ++ref) for (int n = 1; n <= 3; ++n) for (int a = 0; a < (int)P[R[ref].nv()][n].size(); a += n * n) C.push_back({MTIMERS, ref, n, a, 0, a & 1, {}});
#ifndef NOFAULTS
  for (int i = 0; i < 7; ++i) C.push_back({UNKNOWN, 0, 1, 0, 0, i, {}});
#endif
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = 0; p->policies = MC_POL_RTB; p->shards = 1; p->isolate = C[c].kind == UNKNOWN; }
static const char* KN[] = {"every history of two migration plans", "a migration plan, carried out", "every history of two weight migration plans", "a weight migration plan, carried out", "every history of timer updates", "migrations with timers", "a timer that does not exist"};
static std::string opn(int o, bool w) { return o < 0 ? "many insertions" : o == NOP - 1 ? "clear" : w ? fmt("insert(%d:%g)", o / 3, AMOUNT[o % 2]) : fmt("insert(%d>%d)", o / 3, o % 3); }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; std::string s = std::string(KN[k.kind]) + fmt(" (depth %d, variant %d)", k.depth, k.variant); if (k.kind < TIMERS || k.kind == MTIMERS) s += ", " + R[k.ref].str() + fmt(" on %d ranks, vertices on %s:", k.n, pstr(P[R[k.ref].nv()][k.n][k.place]).c_str()); else s += fmt(" on %d ranks", k.n);
  for (int o : k.ops) s += " " + opn(o, k.kind == WDO);
  snprintf(b, n, "%s", s.c_str());
}
typedef agi::GraphVertex* V;
static std::vector<V> locals(agi::Ngraph* g) { std::vector<V> out; agi::VertexIterator* it = g->begin(); V v; while ((v = g->iterate(it))) out.push_back(v); return out; }
static std::vector<V> ghosts(agi::Ngraph* g) { std::vector<V> out; agi::GhostIterator* it = g->beginGhosts(); V v; while ((v = g->iterate(it))) out.push_back(v); return out; }
// what a plan says against what it should hold
static void same(agi::Migration* m, const std::map<V, int>& want, const std::vector<V>& L, const std::vector<V>& G, const std::string& what) {
  if (m->size() != (lid_t)want.size()) mc_fail("%s: the plan has size %d, %zu vertices were inserted", what.c_str(), (int)m->size(), want.size());
  for (V v : L) { auto f = want.find(v); if (m->has(v) != (f != want.end())) mc_fail("%s: has() of a vertex that was %sinserted", what.c_str(), f == want.end() ? "not " : ""); if (f != want.end() && m->get(v) != f->second) mc_fail("%s: a vertex goes to %d, asked for %d", what.c_str(), m->get(v), f->second); }
  for (V v : G) if (m->has(v)) mc_fail("%s: the plan has a ghost", what.c_str());
  std::set<V> seen; for (auto it = m->begin(); it != m->end(); ++it) if (!want.count(*it) || !seen.insert(*it).second) mc_fail("%s: iterating the plan gives a vertex %s", what.c_str(), want.count(*it) ? "twice" : "that is not in it");
  if (seen.size() != want.size()) mc_fail("%s: iterating the plan gives %zu of %zu vertices", what.c_str(), seen.size(), want.size());
}
typedef std::map<std::pair<V, V>, double> WM;
static void same(agi::WeightMigration* m, const WM& want, const std::vector<V>& L, const std::vector<V>& G, const std::string& what) {
  double tot = 0; std::set<V> from; for (auto& x : want) { tot += x.second; from.insert(x.first.first); }
  if (m->size() != (lid_t)tot) mc_fail("%s: the plan has size %d, weight %g was inserted", what.c_str(), (int)m->size(), tot);
  std::vector<V> all = L; all.insert(all.end(), G.begin(), G.end());
  if (all.size() < 20) for (V u : all) { if (m->has(u) != (from.count(u) > 0)) mc_fail("%s: has() of a vertex from which %s", what.c_str(), from.count(u) ? "weight is sent" : "nothing is sent"); for (V v : all) { auto f = want.find({u, v}); if (m->has(u, v) != (f != want.end())) mc_fail("%s: has() of a pair that was %sinserted", what.c_str(), f == want.end() ? "not " : ""); if (f != want.end() && m->get(u, v) != f->second) mc_fail("%s: weight %g from one vertex to another, asked for %g", what.c_str(), m->get(u, v), f->second); } }
  for (int post = 0; post < 2; ++post) {
    WM seen; auto it = m->begin();
    while (it != m->end()) { auto at = it; std::pair<V, V> p(it.u(), it.v()); auto f = want.find(p); if (f == want.end() || it.weight() != f->second || !seen.insert(*f).second) mc_fail("%s: iterating the plan gives a pair %s", what.c_str(), f == want.end() ? "that is not in it" : it.weight() != f->second ? "with another weight" : "twice");
      if (post) { auto old = it++; if (!(old == at)) mc_fail("%s: it++ does not return where it was", what.c_str()); } else if (!(++it != at)) mc_fail("%s: ++it stays where it was", what.c_str());
      if (seen.size() > want.size()) mc_fail("%s: iterating the plan does not end", what.c_str()); }
    if (seen.size() != want.size()) mc_fail("%s: iterating the plan gives %zu of %zu pairs", what.c_str(), seen.size(), want.size());
  }
}
// pair i out of those from a vertex of this part to another it knows
static bool pairs_of(const std::vector<V>& L, const std::vector<V>& G, int i, int variant, V* u, V* v) {
  std::vector<V> all = L; all.insert(all.end(), G.begin(), G.end()); if (L.empty() || all.size() < 2) return false;
  *u = L[(variant + i / 2) % L.size()]; *v = all[(L.size() + i) % all.size()]; if (*v == *u) *v = all[(L.size() + i + 1) % all.size()]; return true;
}
template <class F> static void histories(int nops, int depth, F run) {
  std::vector<int> o(depth, 0);
  for (;;) { run(o); int i = 0; while (i < depth && ++o[i] == nops) o[i++] = 0; if (i == depth) return; }
}
static u64 done = 0;
static void plan_histories(Case& k, agi::Ngraph* g) {
  const bool w = k.kind == WPLAN; std::vector<V> L = locals(g), G = ghosts(g);
  agi::GraphTag* tag = g->createIntTag(); for (V v : L) g->setIntTag(tag, v, 77);
  agi::Migration *A[2] = {NULL, NULL}; agi::WeightMigration* B[2] = {NULL, NULL};
  if (!w) for (auto& x : A) x = new agi::Migration(g); else for (auto& x : B) x = new agi::WeightMigration(g);
  histories(2 * NOP, k.depth, [&](const std::vector<int>& h) {
    std::map<V, int> MA[2]; WM MB[2]; std::string what;
    // the plans are used again and again: each history begins by clearing them
    for (int p = 0; p < 2; ++p) { if (w) B[p]->clear(); else A[p]->clear(); }
    for (size_t s = 0; s < h.size(); ++s) {
      int p = h[s] / NOP, o = h[s] % NOP, i = o / 3; what += fmt(" %d:", p) + opn(o, w);
      if (o == NOP - 1) { if (w) { B[p]->clear(); MB[p].clear(); } else { A[p]->clear(); MA[p].clear(); } continue; }
      if (w) { V u, v; if (!pairs_of(L, G, i, k.variant, &u, &v)) continue; double a = AMOUNT[o % 2]; B[p]->insert(u, v, a); MB[p][{u, v}] += a; }
      else { if (i >= (int)L.size()) continue; bool fresh = A[p]->insert({L[i], o % 3}), expect = !MA[p].count(L[i]); if (fresh != expect) mc_fail("%s: insert of a vertex that was %sin the plan returns %d", what.c_str(), expect ? "not " : "", fresh); MA[p][L[i]] = o % 3; }
    }
    for (int p = 0; p < 2; ++p) { if (w) same(B[p], MB[p], L, G, what); else same(A[p], MA[p], L, G, what); }
    ++done;
  });
  for (V v : L) if (g->getIntTag(tag, v) != 77) mc_fail("a plan changed a tag of the user");
  g->destroyTag(tag); for (int p = 0; p < 2; ++p) { if (A[p]) { A[p]->clear(); delete A[p]; } delete B[p]; }
  if (!w) { agi::Migration again(g); same(&again, {}, L, G, "a new plan after others were deleted"); }
}
// the same history on one plan, on every rank, then carried out
static void carry_out(Case& k, agi::Ngraph* g, const Ref& r, Place p) {
  const int me = mc_rank(); const bool w = k.kind == WDO; std::vector<std::vector<int>> L(k.n), G(k.n);
  // the vertices of each part in the order the library has them
  std::vector<V> mine = locals(g), gh = ghosts(g); long* sh = mc_shared();
  for (size_t i = 0; i < mine.size(); ++i) sh[i * k.n + me] = vindex(r, g->globalID(mine[i])) + 1;
  mc_world_sync();
  for (int q = 0; q < k.n; ++q) for (int i = 0; i < (int)std::count(p.begin(), p.end(), q); ++i) L[q].push_back((int)sh[i * k.n + q] - 1);
  mc_world_sync(); for (int i = 0; i < (int)mine.size(); ++i) sh[i * k.n + me] = 0; mc_world_sync();
  std::vector<double> vw; for (int v = 0; v < r.nv(); ++v) vw.push_back(r.vw(v));
  CheckOpt co; co.what = "after the plan was carried out";
  std::vector<int> ops = k.ops; if (ops[0] < 0) { ops.clear(); }
  if (!w) {
    g->setOriginalOwners(); agi::Migration* m = new agi::Migration(g); std::map<V, int> want; Place q = p; std::vector<std::map<int, int>> all(k.n);
    for (int o : ops) for (int q2 = 0; q2 < k.n; ++q2) { int i = o / 3, d = (o % 3 + q2) % k.n; if (o == NOP - 1) { all[q2].clear(); if (q2 == me) { m->clear(); want.clear(); } continue; } if (i >= (int)L[q2].size()) continue; all[q2][L[q2][i]] = d; if (q2 == me) { m->insert({mine[i], d}); want[mine[i]] = d; } }
    // many: every vertex, cleared, every second one, every fourth again elsewhere
    if (ops.empty()) for (int q2 = 0; q2 < k.n; ++q2) for (int step : {1, 0, 2, 4}) { if (!step) { all[q2].clear(); if (q2 == me) { m->clear(); want.clear(); } continue; } for (int i = k.variant; i < (int)L[q2].size(); i += step) { int d = (q2 + i * 7 + step) % k.n; all[q2][L[q2][i]] = d; if (q2 == me) { m->insert({mine[i], d}); want[mine[i]] = d; } } }
    same(m, want, mine, gh, "before the plan is carried out");
    for (auto& a : all) for (auto& x : a) q[x.first] = x.second;
    g->migrate(m); check_graph(g, r, q, co); p = q;
  } else {
    agi::WeightMigration* m = new agi::WeightMigration(g); WM want; std::vector<std::pair<std::pair<V, V>, double>> L2;
    auto put = [&](int i, double a) { V u, v; if (!pairs_of(mine, gh, i, k.variant, &u, &v)) return; m->insert(u, v, a); want[{u, v}] += a; };
    for (int o : ops) { if (o == NOP - 1) { m->clear(); want.clear(); } else put(o / 3, AMOUNT[o % 2] / 8); }
    if (ops.empty()) for (int step : {1, 0, 2, 4}) { if (!step) { m->clear(); want.clear(); } else for (int i = k.variant; i < 2 * (int)mine.size(); i += step) put(i, 1 / 32.); }
    same(m, want, mine, gh, "before the plan is carried out");
    // each rank says what it sends; in 1/64
    std::vector<long> delta(r.nv(), 0); for (auto& x : want) { delta[vindex(r, g->globalID(x.first.first))] -= (long)(x.second * 64); delta[vindex(r, g->globalID(x.first.second))] += (long)(x.second * 64); }
    for (int v = 0; v < r.nv(); ++v) sh[v] += delta[v];
    mc_world_sync(); for (int v = 0; v < r.nv(); ++v) vw[v] += sh[v] / 64.;
    g->migrate(m); co.vweight = &vw; check_graph(g, r, p, co); mc_world_sync();
  }
  if (!me) { u64 h = gstate(r, p); for (double x : vw) mc_hash_bytes(&h, &x, 8); mc_state(h); mc_transition(1); }
}
static void timers(Case& k) {
  const int T = k.variant, n = k.n, me = mc_rank();
  // update(timer, value): each rank does its own updates
  auto val = [](int q, int s, int o) { return (q + 1) * 0.25 + s * 2 + (o & 7) * 0.5; };
  histories(T, k.depth, [&](const std::vector<int>& h) {
    agi::MigrationTimers t; std::vector<std::vector<double>> time(n, std::vector<double>(T, 0.)); std::vector<std::vector<int>> cnt(n, std::vector<int>(T, 0));
    auto name = [](int i) { return i % 3 == 0 ? fmt("t%d", i) : i % 3 == 1 ? fmt("timer number %d", i) : fmt("t%d0", i); };
    for (int i = 0; i < T; ++i) { t.addTimer(name(i)); if (t.getCount(name(i)) || t.getTime(name(i)) != 0) mc_fail("a new timer is not at zero"); }
    for (size_t s = 0; s < h.size(); ++s) { for (int q = 0; q < n; ++q) { int o = (h[s] + q) % T; time[q][o] += val(q, (int)s, o); ++cnt[q][o]; } t.update(name((h[s] + me) % T), val(me, (int)s, (h[s] + me) % T)); }
    for (int o = 0; o < T; ++o) {
      if (t.getTime(name(o)) != time[me][o] || t.getCount(name(o)) != cnt[me][o]) mc_fail("timer %s has %g in %d calls, expected %g in %d", name(o).c_str(), t.getTime(name(o)), t.getCount(name(o)), time[me][o], cnt[me][o]);
      if (T > 3 && o % 13) continue;
      double mx = time[0][o], sum = 0, pm = 0, ps = 0; bool called = true; for (int q = 0; q < n; ++q) { mx = std::max(mx, time[q][o]); sum += time[q][o]; if (!cnt[q][o]) { called = false; continue; } pm = std::max(pm, time[q][o] / cnt[q][o]); ps += time[q][o] / cnt[q][o]; }
      double a = t.processMax(name(o)), b = t.processAvg(name(o)); if (a != mx || std::abs(b - sum / n) > 1e-12 * (1 + sum)) mc_fail("timer %s has maximum %g and average %g over the ranks, expected %g and %g", name(o).c_str(), a, b, mx, sum / n);
      if (called) { a = t.perCallProcessMax(name(o)); b = t.perCallProcessAvg(name(o)); if (std::abs(a - pm) > 1e-12 * (1 + pm) || std::abs(b - ps / n) > 1e-12 * (1 + ps)) mc_fail("timer %s has maximum %g and average %g per call, expected %g and %g", name(o).c_str(), a, b, pm, ps / n); }
    }
    ++done;
  });
}
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const int me = mc_rank(); done = 0;
  EnGPar_Initialize(-1);
  if (k.kind == UNKNOWN) {
    agi::MigrationTimers t; t.addTimer("setup"); t.update("setup", 1); mc_may_stop(1); const char* s = k.variant & 1 ? "Setup" : "set";
    switch (k.variant) { case 0: t.update(s, 1); break; case 1: t.getTime(s); break; case 2: t.getCount(s); break; case 3: t.processMax(s); break; case 4: t.processAvg(s); break; case 5: t.perCallProcessMax(s); break; default: t.perCallProcessAvg(s); }
    mc_may_stop(0); mc_shared()[0] = 1; EnGPar_Finalize(); return;
  }
  if (k.kind == TIMERS) { timers(k); if (!me) mc_transition(done * k.depth); EnGPar_Finalize(); return; }
  const Ref& r = R[k.ref]; const Place p = P[r.nv()][k.n][k.place]; BuildOpt o; o.api = k.variant; agi::Ngraph* g = build(r, p, o);
  if (k.kind == PLAN || k.kind == WPLAN) { plan_histories(k, g); mc_transition(done * k.depth); CheckOpt co; co.what = "after the plans were made and deleted"; check_graph(g, r, p, co); if (!me) mc_state(gstate(r, p)); }
  else if (k.kind == MTIMERS) {
    agi::MigrationTimers t; const char* N[] = {"setup", "comm", "build", "total"}; for (auto s : N) t.addTimer(s); double last[4] = {0, 0, 0, 0}; Place q = p; g->setOriginalOwners();
    for (int s = 1; s <= 3; ++s) {
      agi::Migration* m = new agi::Migration(g); for (V v : locals(g)) { int x = vindex(r, g->globalID(v)); if ((x + s) % 2) m->insert({v, (q[x] + s) % k.n}); }
      for (int x = 0; x < r.nv(); ++x) if ((x + s) % 2) q[x] = (q[x] + s) % k.n;
      g->migrate(m, &t); double d[4]; for (int i = 0; i < 4; ++i) { double now = t.getTime(N[i]); d[i] = now - last[i]; last[i] = now; if (t.getCount(N[i]) != s || d[i] < 0) mc_fail("after %d migrations the timer %s has %g in %d calls", s, N[i], now, t.getCount(N[i])); }
      if (d[3] + 1e-9 < d[0] + d[1] + d[2]) mc_fail("a migration took %g in total, and %g + %g + %g in its parts", d[3], d[0], d[1], d[2]);
      CheckOpt co; co.what = "after a migration with timers"; check_graph(g, r, q, co);
    }
    if (!me) { mc_transition(3); mc_state(gstate(r, q)); }
  } else carry_out(k, g, r, p);
  agi::destroyGraph(g); EnGPar_Finalize();
}
MCH_ENTRY void mch_judge(u64 c, int, const mc_blob* const*, const int*) {
  if (C[c].kind == UNKNOWN && mc_shared()[0]) mc_fail("an operation on a timer that was never added returned normally");
  mc_trace_validated();
}
