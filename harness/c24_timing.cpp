// C24: the outcome of a sequence of operations does not depend on the timing of ranks and messages.
#include "ops2.h"
#include "bgdfile.h"
struct Case { int ref, n, place, api, dev, pol; std::vector<int> ops; };
static std::vector<Ref> R; static std::vector<Case> C; static Places P;
MCH_ENTRY const char* mch_property() { return "C24"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear(); unsigned cyc = 0;
  R.push_back(mkref("strip", true, 6, {chain(6), EL{{0, 1, 2}, {2, 3, 4}, {1, 4, 5}, {3}}}, 1));
  R.push_back(mkref("path", false, 5, {both(chain(5)), both(EL{{0, 2}, {1, 4}, {0, 4}})}));
  R.push_back(mkref("one", true, 4, {EL{{0, 1, 2, 3}, {0, 1}, {2, 3}}}));
  R.push_back(mkref("star", true, 6, {star(6), cycle(6)}, 2));
  R.push_back(mkref("grid", false, 6, {both(EL{{0, 1}, {1, 2}, {3, 4}, {4, 5}, {0, 3}, {1, 4}, {2, 5}})}, 1));
  const int small = (int)R.size();
  std::vector<Ref> big = larger(1, 60); R.insert(R.end(), big.begin(), big.end()); for (auto& r : spread(2)) R.push_back(r);
  for (Ref& r : R) { r.coords = hstr(r.name) & 1; for (double& x : r.w) x /= 10; for (auto& t : r.types) for (Edge& e : t) e.w /= 10; } // so that sums are rounded
  auto add = [&](int ref, int n, std::vector<int> ops, int stride, int dev) {
    pick_places(R[ref].nv(), n, false, stride, cyc++, [&](int a, u64 h) {
      C.push_back({ref, n, a, (int)(h >> 9 & 0xffff) % 3, dev, !dev ? MC_POL_ALL : th ? MC_POL_RTB | MC_POL_HOLD | MC_POL_RR : MC_POL_RTB, ops});
    });
  };
  for (int ref = 0; ref < small; ++ref) for (int n = 2; n <= 4; ++n) for (int i = 0; i < ALLOPS; ++i) {
    add(ref, n, {i}, n < 4 ? 1 : 4, 0);
    const bool longop = i == BALANCE || i == BALANCE2 || i == BALANCEP || i == WBALANCE || i == SPLIT;
    if ((!longop && i < NOPS) || (th && n < 4)) add(ref, n, {i}, longop ? 200 : n == 2 ? (th ? 4 : 16) : (th ? 40 : 400), 1);
    for (int j = 0; j < ALLOPS; ++j) { add(ref, n, {i, j}, (n == 2 ? 60 : n == 3 ? 200 : 700) / (th ? 10 : 1), 0); for (int k = 0; k < ALLOPS; ++k) add(ref, n, {i, j, k}, (th ? 1500 : 40000), 0); }
  }
  // beyond the sizes and rank counts of the others
  for (int ref = small; ref < (int)R.size(); ++ref) for (int n : ref < small + 6 ? std::vector<int>{2, 3} : std::vector<int>{5, 9, 10}) { int s = R[ref].nv() == 6 ? 20 : 1; for (int i = 0; i < ALLOPS; ++i) { add(ref, n, {i}, s * (th ? 4 : 16), 0); for (int j = 0; j < ALLOPS; ++j) add(ref, n, {i, j}, s * (th ? 300 : 3000), 0); } }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = C[c].dev; p->policies = C[c].pol; p->shards = 1; p->baseline = 1; }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; std::string s = R[k.ref].str() + fmt(" on %d ranks, vertices on %s:", k.n, pstr(P[R[k.ref].nv()][k.n][k.place]).c_str());
  for (int o : k.ops) s += std::string(" ") + opname(o) + ";"; s += " compared with the first schedule";
  snprintf(b, n, "%s", s.c_str());
}
static void same(int key, const std::string& s, const char* what) {
  size_t m; const void* o = mc_same(key, s.data(), s.size(), &m);
  if (o) mc_fail("after %s rank %d has\n%s\nand under the first schedule\n%s", what, mc_rank(), s.c_str(), std::string((const char*)o, m).c_str());
}
// sums over the ranks, which are rounded
static std::string sums(agi::Ngraph* g) {
  double a[3] = {0, 0.1 * (PCU_Comm_Self() + 1) * (PCU_Comm_Self() + 1), 0};
  agi::VertexIterator* it = g->begin(); agi::GraphVertex* v;
  while ((v = g->iterate(it))) { a[0] += g->weight(v); a[2] += g->weight(v) * 1e-3 + 0.7; }
  std::string s = fmt(" total %.17g", PCU_Add_Double(a[1] + a[0]));
  PCU_Add_Doubles(a, 3);
  return s + fmt(" %.17g %.17g %.17g", a[0], a[1], a[2]);
}
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const Ref& r = R[k.ref]; const int me = mc_rank(); const Place& p = P[r.nv()][k.n][k.place];
  if (chdir(mc_scratch())) mc_fail("INTERNAL chdir");
  EnGPar_Initialize(-1);
  State st{NULL, false, (int)r.types.size()};
  st.g = build(r, p, BuildOpt{r.types.size() == 1 && k.api == 2 ? 2 : k.api & 1, false});
  same(0, dump(st.g) + sums(st.g), "the construction");
  for (size_t i = 0; i < k.ops.size(); ++i) {
    std::string res = applyx(k.ops[i], st, k.n, p, k.place, k.api, r, -1, (int)i + 1), d = dump(st.g) + sums(st.g) + res;
    if (k.ops[i] == SAVELOAD) d += " file " + fmt("%lx", (long)hstr(bgd_slurp(std::string(mc_scratch()) + fmt("/s_%d.bgd", PCU_Comm_Self()))));
    same((int)i + 1, d, opname(k.ops[i]));
    if (!me) { mc_transition(1); mc_state(hmix(hstr(d), k.n)); }
  }
  agi::destroyGraph(st.g);
  EnGPar_Finalize();
}
MCH_ENTRY void mch_judge(u64, int, const mc_blob* const*, const int*) { mc_trace_validated(); }
