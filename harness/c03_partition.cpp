// C03: the reported partition maps every vertex to where it now is, on its original owner.
#include "refgraph.h"

struct Case { int ref, n, dev, pol, from; std::vector<int> ops; };  // op < K: migrate there; K: reset ownership; K+1: reset partition; K+2: record again; K+3: migrate with an empty plan
static std::vector<Ref> R;
static std::vector<Case> C;
static Places P;
MCH_ENTRY const char* mch_property() { return "C03"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear();
  auto add = [&](const Ref& r, int n, int depth, int dev, int pol) {
    R.push_back(r); int K = (int)P[r.nv()][n].size();
    std::vector<int> ops;
    std::function<void(int)> rec = [&](int a) {
      if ((int)ops.size() == depth) { Case c; c.ref = (int)R.size() - 1; c.n = n; c.dev = dev; c.pol = pol; c.from = a; c.ops = ops; C.push_back(c); return; }
      for (int o = 0; o < K + 4; ++o) { ops.push_back(o); rec(a); ops.pop_back(); }
    };
    for (int a = 0; a < K; ++a) rec(a);
  };
  const int B = MC_POL_RTB, BH = MC_POL_RTB | MC_POL_HOLD;
  for (int ids = 0; ids < 3; ++ids) {
    add(mkref("h", true, 3, {EL{{0, 1}, {1, 2}}}, ids), 2, ids == 1 ? 3 : 2, 0, BH);
    add(mkref("d", false, 3, {EL{{0, 1}, {1, 2}, {2, 1}}}, ids), 2, ids == 1 ? 3 : 2, 0, BH);
  }
  add(mkref("h2", true, 2, {EL{{0, 1}}}, 1), 2, th ? 5 : 4, 0, B);
  add(mkref("h2", true, 2, {EL{{0, 1}}}, 1), 3, th ? 4 : 3, 0, B);
  add(mkref("d2", false, 2, {EL{{1, 0}}}, 1), 3, 3, 0, B);
  add(mkref("h3", true, 3, {EL{{0, 1, 2}}, EL{{0, 2}}}, 1), 3, 2, 0, BH);
  add(mkref("noedges", true, 3, {}, 1), 3, 2, 0, B);
  add(mkref("h4", true, 4, {chain(4)}, 1), 2, 2, 0, MC_POL_ALL);
  add(mkref("sched", true, 2, {EL{{0, 1}}}, 1), 2, th ? 2 : 1, 1, MC_POL_RTB | MC_POL_HOLD);
  if (th) add(mkref("h3", true, 3, {EL{{0, 1, 2}}}, 1), 3, 3, 0, B);
  // beyond the sizes, rank counts and lengths of history of the others
  auto big = [&](const Ref& r, std::initializer_list<int> ns, int steps, int count, int pol) {
    R.push_back(r);
    for (int n : ns) for (int i = 0; i < count; ++i) {
      int K = (int)P[r.nv()][n].size(); u64 h = hmix(hmix(29, C.size()), n); Case c; c.ref = (int)R.size() - 1; c.n = n; c.dev = 0; c.pol = pol; c.from = h % K;
      for (int j = 0; j < steps; ++j) { u64 x = hmix(h, j); c.ops.push_back(x % 3 ? (int)(x / 64 % K) : K + (int)(x / 64 % 4)); }
      C.push_back(c);
    }
  };
  for (int ids = 0; ids < 3; ++ids) { for (auto& r : larger(ids)) big(r, {2, 3}, 5, th ? 40 : 10, B); for (auto& r : spread(ids)) big(r, {5, 9, 10, 12, 17}, 6, th ? 40 : 8, B); for (auto& r : curated(ids)) big(r, {2, 3, 4}, 9, th ? 60 : 12, BH); }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = C[c].dev; p->policies = C[c].pol; p->shards = 1; }
static std::string opstr(int nv, int n, int o) {
  auto& PP = P[nv][n]; int K = (int)PP.size();
  return o < K ? "migrate to " + pstr(PP[o]) : o == K ? "reset ownership" : o == K + 1 ? "reset partition" : o == K + 2 ? "record owners again" : "empty plan";
}
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; const Ref& r = R[k.ref];
  std::string s = r.str() + fmt(" on %d ranks, vertices on %s", k.n, pstr(P[r.nv()][k.n][k.from]).c_str());
  for (int o : k.ops) s += "; " + opstr(r.nv(), k.n, o);
  snprintf(b, n, "%s", s.c_str());
}
static void check_partition(agi::Ngraph* g, const Ref& r, const Place& cur, const std::vector<int>& orig, int at) {
  int me = PCU_Comm_Self();
  agi::PartitionMap* m = g->getPartition();
  size_t want = 0;
  for (int v = 0; v < r.nv(); ++v) {
    auto it = m->find(r.gid[v]);
    if (orig[v] == me) {
      ++want;
      if (it == m->end()) mc_fail("after step %d: rank %d's partition misses vertex %d", at, me, v);
      if (it->second != cur[v]) mc_fail("after step %d: rank %d's partition has vertex %d on %d instead of %d", at, me, v, it->second, cur[v]);
    } else if (it != m->end()) mc_fail("after step %d: rank %d's partition has vertex %d, which it did not own", at, me, v);
  }
  if (m->size() != want) mc_fail("after step %d: rank %d's partition has %zu entries instead of %zu", at, me, m->size(), want);
  delete m;
}
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const Ref& r = R[k.ref]; auto& PP = P[r.nv()][k.n]; int K = (int)PP.size();
  EnGPar_Initialize(-1);
  agi::Ngraph* g = build(r, PP[k.from]);
  Place cur = PP[k.from]; std::vector<int> orig = cur;
  g->setOriginalOwners();
  check_partition(g, r, cur, orig, 0);
  for (size_t i = 0; i < k.ops.size(); ++i) {
    int o = k.ops[i];
    if (o < K || o == K + 3) {
      Place to = o < K ? PP[o] : cur;
      agi::Migration* plan = new agi::Migration(g);
      for (int v = 0; v < r.nv(); ++v) if (cur[v] == PCU_Comm_Self() && to[v] != cur[v]) plan->insert(std::make_pair(g->findGID(r.gid[v]), to[v]));
      g->migrate(plan);
      cur = to;
    } else if (o == K) { g->resetOwnership(); orig = cur; }
    else if (o == K + 1) { g->resetPartition(); orig = cur; }
    else g->setOriginalOwners();
    check_partition(g, r, cur, orig, (int)i + 1);
    if (!mc_rank()) { mc_transition(1); u64 oh = 3; for (int x : orig) oh = hmix(oh, x); mc_state(gstate(r, cur, oh)); }
  }
  CheckOpt co; co.what = "at the end"; co.orig = &orig;
  check_graph(g, r, cur, co);
  agi::destroyGraph(g);
  EnGPar_Finalize();
}
MCH_ENTRY void mch_judge(u64, int, const mc_blob* const*, const int*) { mc_trace_validated(); }
