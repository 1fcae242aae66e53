// C02: migration moves exactly the planned vertices and loses or changes nothing else.
#include "refgraph.h"
#include <agiMigrationTimers.h>

struct Step { int to; int style; };   // index of a placement, how the plan is written
struct Case { int ref, n, dev, pol, api, from; int to[6], style[6], steps; bool timers; };
static std::vector<Ref> R;
static std::vector<Case> C;
static Places P;
static const char* SN[] = {"moved only", "all vertices", "wrong then right", "repartition", "reverse order"};
MCH_ENTRY const char* mch_property() { return "C02"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear();
  unsigned cyc = 0;
  auto add = [&](const Ref& r, int n, int dev, int pol, int hist) {
    // hist 1: every a->b; 2: a->b->a; 3: every a->b->c
    if (R.empty() || R.back().hash() != r.hash() || R.back().name != r.name) R.push_back(r);
    auto& PP = P[r.nv()][n]; int K = (int)PP.size();
    for (int a = 0; a < K; ++a) for (int b = 0; b < K; ++b) for (int c = 0; c < (hist == 3 ? K : 1); ++c) {
      Case k; k.ref = (int)R.size() - 1; k.n = n; k.dev = dev; k.pol = pol; k.from = a;
      k.to[0] = b; k.to[1] = hist == 3 ? c : a; k.to[2] = 0; k.steps = hist == 1 ? 1 : 2;
      k.style[0] = cyc % 5; k.style[1] = (cyc / 5) % 5; k.style[2] = 0; k.api = cyc % 2; k.timers = (cyc / 3) % 4 == 0; ++cyc;
      C.push_back(k);
    }
  };
  const int B = MC_POL_RTB, BH = MC_POL_RTB | MC_POL_HOLD;
  for (auto& e : all_hyper(3, 3)) add(mkref("all", true, 3, {e}), 2, 0, BH, 2);
  for (auto& e : all_hyper(3, th ? 3 : 2)) add(mkref("all", true, 3, {e}), 3, 0, B, 2);
  for (auto& e : all_digraphs(3, true)) add(mkref("all", false, 3, {e}), 2, 0, BH, 2);
  for (auto& e : all_digraphs(3, th)) add(mkref("all", false, 3, {e}), 3, 0, B, 2);
  for (auto& e : all_hyper(2, 2)) for (auto& f : all_hyper(2, 2)) add(mkref("pair", true, 2, {e, f}, 1), 3, 0, B, 1);
  for (auto& e : all_digraphs(2, true)) for (auto& f : all_digraphs(2, true)) add(mkref("pair", false, 2, {e, f}, 1), 2, 0, B, 2);
  for (int ids = 0; ids < 3; ++ids) for (auto& r : curated(ids)) { Ref q = r; q.coords = ids == 1; add(q, 2, 0, BH, 2); if (ids == 1 || th) add(q, 3, 0, B, 1); }
  // histories of three placements
  for (auto& e : {EL{{0, 1}, {1, 2}}, EL{{0, 1, 2}, {0, 2}, {1}}}) { add(mkref("hist", true, 3, {e}, 1), 2, 0, BH, 3); add(mkref("hist", true, 3, {e}, 1), 3, 0, B, 3); }
  for (auto& e : {both(chain(3)), EL{{0, 1}, {1, 2}, {2, 0}}}) { add(mkref("hist", false, 3, {e}, 1), 2, 0, BH, 3); if (th) add(mkref("hist", false, 3, {e}, 1), 3, 0, B, 3); }
  add(mkref("hist2", true, 3, {EL{{0, 1}}, EL{{1, 2}, {0, 1, 2}}}, 1), 2, 0, B, 3);
  // every schedule within one deviation
  add(mkref("sched", true, 2, {EL{{0, 1}}}), 2, 1, th ? MC_POL_ALL : MC_POL_RTB, 1);
  add(mkref("sched", false, 2, {EL{{0, 1}, {1, 0}}}), 2, 1, th ? MC_POL_ALL : MC_POL_HOLD, 1);
  for (auto& r : curated(0)) { Ref q = r; q.name += "-sched"; add(q, 2, 0, MC_POL_ALL, 1); }
  for (auto& r : curated(1)) add(odd_weights(r), 2, 0, B, 1);
  // vertices of several parts arriving together, whatever the order of their messages
  auto gather = [&](Ref q, int n, int dev) {
    q.name += "-gather"; q.coords = true; R.push_back(q);
    auto& PP = P[q.nv()][n]; int K = (int)PP.size();
    for (int a = 0; a < K; ++a) for (int b = 0; b < K; ++b) {
      std::set<int> src[4]; size_t most = 0;
      for (int v = 0; v < q.nv(); ++v) if (PP[a][v] != PP[b][v]) { src[PP[b][v]].insert(PP[a][v]); most = std::max(most, src[PP[b][v]].size()); }
      if (most < 2 || (dev == 0 && (a + b) % 5)) continue;
      Case k; k.ref = (int)R.size() - 1; k.n = n; k.dev = dev; k.pol = dev && !th ? MC_POL_RTB : MC_POL_ALL; k.from = a; k.to[0] = b; k.to[1] = a; k.to[2] = 0; k.steps = 1;
      k.style[0] = cyc % 5; k.style[1] = k.style[2] = 0; k.api = cyc % 2; k.timers = false; ++cyc;
      C.push_back(k);
    }
  };
  gather(mkref("path", true, 3, {EL{{0, 1}, {1, 2}}}, 1), 3, 0);
  if (th) gather(mkref("path", false, 3, {EL{{0, 1}, {2, 1}}}, 1), 3, 0);
  gather(mkref("two", true, 2, {EL{{0, 1}}}, 1), 3, 1);
  if (th) { add(mkref("five", true, 5, {tri(5), chain(5)}, 1), 2, 0, B, 1); add(mkref("five", false, 5, {both(cycle(5)), star(5)}, 1), 2, 0, B, 1); add(mkref("four", true, 4, {chain(4)}), 4, 0, B, 1); }
  // beyond the sizes, rank counts and lengths of history of the others
  auto big = [&](const Ref& r, std::initializer_list<int> ns, int steps, int stride, int pol) {
    R.push_back(r);
    for (int n : ns) { int K = (int)P[r.nv()][n].size(); for (int a = 0; a < K; ++a) for (int b = 0; b < (K > 10 ? 1 : K); ++b) {
      u64 h = hmix(hmix(hmix(5, C.size()), a), b); if (h % (stride * (K > 10 ? K / 8 : 1))) continue; h >>= 8;
      Case k; k.ref = (int)R.size() - 1; k.n = n; k.dev = 0; k.pol = pol; k.from = a; k.steps = steps;
      k.to[0] = K > 10 ? h / 7 % K : b; k.style[0] = h / 3 % 5;
      for (int i = 1; i < steps; ++i) { u64 x = hmix(h, i); k.to[i] = x % K; k.style[i] = x / 1000 % 5; }
      k.api = h & 1; k.timers = h / 2 % 4 == 0; C.push_back(k);
    } }
  };
  for (int ids = 0; ids < 3; ++ids) { for (auto& r : larger(ids)) { Ref q = r; q.coords = ids != 1; big(q, {2, 3}, 3, 2, B); } for (auto& r : spread(ids)) { Ref q = r; q.coords = ids != 2; big(q, {5, 9, 10, 11, 17}, 3, 1, B); } }
  for (auto& r : larger(1, th ? 2500 : 1100)) if (r.nv() > 6 && (th || r.types.size() < 3)) big(r, {2}, 1, 4, B);
  for (auto& r : curated(1)) { Ref q = r; q.coords = true; for (int i = 0; i < (th ? 8 : 2); ++i) big(q, {2, 3}, 6, 1, i ? B : BH); }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = C[c].dev; p->policies = C[c].pol; p->shards = 1; }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; auto& PP = P[R[k.ref].nv()][k.n];
  std::string s = R[k.ref].str() + fmt(" on %d ranks, %s interface, vertices on %s", k.n, k.api ? "array" : "vector", pstr(PP[k.from]).c_str());
  for (int i = 0; i < k.steps; ++i) s += fmt(" -> %s (%s%s)", pstr(PP[k.to[i]]).c_str(), SN[k.style[i]], k.timers ? ", timers" : "");
  snprintf(b, n, "%s", s.c_str());
}
static void step(agi::Ngraph* g, const Ref& r, const Place& from, const Place& to, int style, int n, agi::MigrationTimers* mt) {
  int me = PCU_Comm_Self();
  if (style == 3) {
    std::vector<part_t> p; agi::VertexIterator* it = g->begin(); agi::GraphVertex* v;
    while ((v = g->iterate(it))) p.push_back(to[vindex(r, g->globalID(v))]);
    p.push_back(-7);
    g->repartition(p.data());
    return;
  }
  agi::Migration* plan = new agi::Migration(g);
  std::vector<int> vs; for (int v = 0; v < r.nv(); ++v) if (from[v] == me) vs.push_back(v);
  if (style == 4) std::reverse(vs.begin(), vs.end());
  size_t want = 0;
  for (int v : vs) {
    agi::GraphVertex* h = g->findGID(r.gid[v]);
    if ((style == 0 || style == 4) && from[v] == to[v]) continue;
    if (style == 2) plan->insert(std::make_pair(h, (to[v] + 1) % n));
    if (plan->insert(std::make_pair(h, to[v])) != (style != 2)) mc_fail("Migration::insert result for vertex %d", v);
    if (!plan->has(h) || plan->get(h) != to[v]) mc_fail("the plan does not name vertex %d", v);
    ++want;
  }
  if ((size_t)plan->size() != want) mc_fail("the plan has %d vertices, %zu expected", plan->size(), want);
  g->setOriginalOwners();
  g->migrate(plan, mt);
}
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const Ref& r = R[k.ref]; auto& PP = P[r.nv()][k.n];
  EnGPar_Initialize(-1);
  BuildOpt o; o.api = k.api; o.reversed = k.style[0] & 1;
  agi::Ngraph* g = build(r, PP[k.from], o);
  agi::MigrationTimers* mt = NULL;
  if (k.timers) { mt = new agi::MigrationTimers; for (auto s : {"setup", "comm", "build", "total"}) mt->addTimer(s); }
  Place cur = PP[k.from], orig = cur;
  for (int i = 0; i < k.steps; ++i) {
    step(g, r, cur, PP[k.to[i]], k.style[i], k.n, k.style[i] == 3 ? NULL : mt);
    cur = PP[k.to[i]];
    if (!mc_rank()) { mc_transition(1); mc_state(gstate(r, cur, i)); }
    CheckOpt co; co.what = i > 1 ? "after a later migration" : i ? "after the second migration" : "after the migration"; co.orig = &orig;
    check_graph(g, r, cur, co);
  }
  if (mt) {
    int used = 0; for (int i = 0; i < k.steps; ++i) used += k.style[i] != 3;
    for (auto s : {"setup", "comm", "build", "total"}) if (mt->getCount(s) != used) mc_fail("timer %s was updated %d times by %d migrations", s, mt->getCount(s), used);
    delete mt;
  }
  agi::destroyGraph(g);
  EnGPar_Finalize();
}
MCH_ENTRY void mch_judge(u64, int, const mc_blob* const*, const int*) { mc_trace_validated(); }
