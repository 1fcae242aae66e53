// C30: what a group of the processes does with the library depends on nothing outside of the group.
#include "ops2.h"
#include <sys/stat.h>
struct Side { int ref, place, api; std::vector<int> ops; };
struct Case { int n, k, perm, pol; bool self; Side a, b; };   // the k first ranks of the permutation work on A, the others on B
static std::vector<Ref> R; static std::vector<Case> C; static Places P; static std::vector<std::vector<int>> PERM[MC_MAX_RANKS + 1];
MCH_ENTRY const char* mch_property() { return "C30"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear(); u64 cyc = 0;
  R.push_back(mkref("strip", true, 6, {chain(6), EL{{0, 1, 2}, {2, 3, 4}, {1, 4, 5}, {3}}}, 1));
  R.push_back(mkref("path", false, 5, {both(chain(5)), both(EL{{0, 2}, {1, 4}, {0, 4}})}));
  R.push_back(mkref("one", true, 4, {EL{{0, 1, 2, 3}, {0, 1}, {2, 3}}}));
  R.push_back(mkref("star", true, 6, {star(6), cycle(6)}, 2));
  R.push_back(mkref("plain", false, 4, {both(cycle(4))}, 1));
  const int small = (int)R.size();
  std::vector<Ref> big = larger(1, 90); R.insert(R.end(), big.begin(), big.end()); for (auto& r : spread(2)) R.push_back(r);
  for (auto& r : R) r.coords = hstr(r.name) & 1;
  // which ranks are in the group, and in which order
  for (int n = 1; n <= MC_MAX_RANKS; ++n) {
    PERM[n].clear(); std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i;
    if (n <= 4) { do PERM[n].push_back(p); while (std::next_permutation(p.begin(), p.end())); }
    else for (int s = 0; s < n; ++s) { std::vector<int> q; for (int i = 0; i < n; ++i) q.push_back((s + (s % 2 ? n - i : i) * (n % 3 && s % 3 == 2 ? 3 : 1)) % n); if (std::set<int>(q.begin(), q.end()).size() == (size_t)n) PERM[n].push_back(q); }
  }
  auto add = [&](int n, int k, int a, int b, std::vector<int> x, std::vector<int> y, int stride) {
    u64 h = hmix(23, cyc++); if (h % stride) return;
    auto pick = [&](int ref, int m, u64 g) { return m ? (int)(g % P[R[ref].nv()][m].size()) : 0; };
    C.push_back({n, k, (int)((h >> 7) % PERM[n].size()), n > 4 ? MC_POL_RTB : th ? MC_POL_ALL : (h >> 3) % 3 ? MC_POL_RTB | MC_POL_RR : MC_POL_HOLD_RR | MC_POL_RTB_DESC, (h >> 50) % 7 == 3,
      {a, pick(a, k, h >> 9), (int)(h >> 30) % 3, x}, {b, pick(b, n - k, h >> 20), (int)(h >> 33) % 3, y}});
  };
  for (int n = 2; n <= 4; ++n) for (int k = 1; k <= n; ++k) for (int a = 0; a < small; ++a) for (int i = 0; i < ALLOPS; ++i)
    for (int j = 0; j < ALLOPS; ++j) { const int b = (a + i + j) % small; add(n, k, a, b, {i}, {j}, th ? 1 : 6); add(n, k, a, b, {i, j}, {(i + j) % ALLOPS, i}, th ? 4 : 24); if (i == j) for (int h : {(int)MIGRATE, (int)REPART, (int)LSPLIT}) add(n, k, a, b, {h, i, h == MIGRATE ? (int)REPART : (int)MIGRATE}, {MIGRATE, j}, th ? 1 : 3); add(n, k, a, b, {i, j, (i * 3 + j) % ALLOPS}, {j, (i + j) % ALLOPS}, th ? 15 : 100); }
  // beyond the sizes and rank counts of the others
  for (int n : {3, 5, 9, 10, 14, 18}) for (int a = 0; a < (int)R.size(); ++a) { if (a < small || (a < small + 6) != (n == 3)) continue; for (int k : {2, n - 2, n}) for (int i = 0; i < ALLOPS; ++i) for (int j = 0; j < ALLOPS; ++j) { int s = k > 6 ? 4 : 1; if (k < 1 || R[a].nv() > 6 * k * 10) continue; add(n, k, a, (a + j) % small, {i}, {j}, (th ? 10 : 90) * s); add(n, k, a, (a + i) % small, {i, j}, {j, i}, (th ? 30 : 300) * s); } }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = 0; p->policies = C[c].pol; p->shards = 1; p->baseline = 1; }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; std::string s = fmt("ranks %s of %d; the first %d:", pstr(PERM[k.n][k.perm]).c_str(), k.n, k.k);
  auto side = [&](const Side& q, int m) { s += " " + R[q.ref].str() + fmt(" on %d ranks, vertices on %s:", m, pstr(P[R[q.ref].nv()][m][q.place]).c_str()); for (int o : q.ops) s += std::string(" ") + opname(o) + ";"; };
  side(k.a, k.k); if (k.n > k.k) { s += " the others:"; if (k.self) s += " each one of its own:"; side(k.b, k.self ? 1 : k.n - k.k); }
  snprintf(b, n, "%s", s.c_str());
}
static std::string all(agi::Ngraph* g) { std::string s = dump(g); if (g->hasCoords()) { agi::VertexIterator* it = g->begin(); agi::GraphVertex* v; while ((v = g->iterate(it))) s += fmt(" (%g %g %g)", g->coord(v)[0], g->coord(v)[1], g->coord(v)[2]); } return s; }
static std::vector<std::string> work(const Side& q) {
  const Ref& r = R[q.ref]; const int n = PCU_Comm_Peers(); const Place& p = P[r.nv()][n][n == 1 ? 0 : q.place];
  std::vector<std::string> out; State st{NULL, false, (int)r.types.size()};
  st.g = build(r, p, BuildOpt{r.types.size() == 1 && q.api == 2 ? 2 : q.api & 1, false}); out.push_back("the construction: " + all(st.g));
  for (size_t i = 0; i < q.ops.size(); ++i) { std::string res = applyx(q.ops[i], st, n, p, q.place, q.api, r, -1, (int)i + 1); out.push_back(opname(q.ops[i]) + std::string(": ") + all(st.g) + res); }
  out.push_back(applyx(GETPART, st, n, p, q.place, q.api, r, -1, 0));
  agi::destroyGraph(st.g);
  return out;
}
// all the processes together, before and after
static std::string together(const Case& k) {
  const Ref& r = R[k.a.ref]; const int n = PCU_Comm_Peers(); Place p; for (int v = 0; v < r.nv(); ++v) p.push_back((v * 2 + k.perm) % n);
  State st{NULL, false, (int)r.types.size()}; st.g = build(r, p); std::string s = all(st.g);
  const int op[] = {MIGRATE, k.a.ops[0], k.a.ops.back(), GETPART};
  for (int i = 0; i < 4; ++i) { s += applyx(op[i], st, n, p, k.perm, k.a.api, r, -1, i); s += "; " + all(st.g); }
  agi::destroyGraph(st.g); return s;
}
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const int me = mc_rank(); const std::vector<int>& perm = PERM[k.n][k.perm];
  // the executions of a case: the group is the first ranks, and the others do nothing; the group is any, and the others do something else
  if (!me) mc_shared()[4000] = mc_choose(2, "alone, in company"); if (!me) for (const char* d : {"/A", "/B"}) mkdir((std::string(mc_scratch()) + d).c_str(), 0700);
  mc_world_sync();
  const bool company = mc_shared()[4000] != 0;
  if (chdir(mc_scratch())) mc_fail("INTERNAL chdir");
  int at = me; if (company) for (int i = 0; i < k.n; ++i) if (perm[i] == me) at = i;
  const bool mine = at < k.k, own = !mine && k.self;
  MPI_Comm comm; MPI_Comm_split(MPI_COMM_WORLD, mine ? 0 : own ? 1 + at : 1, at, &comm);
  EnGPar_Initialize(-1);
  std::string before; if (company && c % 3) before = together(k);
  EnGPar_Switch_Comm(comm); opcomm = comm; opsub = mine ? "/A" : "/B";
  if (mine || (company && !own) || (own && company && at == k.k)) {
    if (PCU_Comm_Self() != (mine ? at : own ? 0 : at - k.k) || PCU_Comm_Peers() != (mine ? k.k : own ? 1 : k.n - k.k)) mc_fail("rank %d of %d in a group of %d", PCU_Comm_Self(), PCU_Comm_Peers(), k.k);
    std::vector<std::string> out = work(mine ? k.a : k.b);
    if (mine) for (size_t i = 0; i < out.size(); ++i) {
      size_t m; const void* o = mc_same_as(at, (int)i, out[i].data(), out[i].size(), &m);
      if (o) mc_fail("rank %d of the group: %s\nin company:\n%s\nand alone:\n%s", at, i && i <= k.a.ops.size() ? opname(k.a.ops[i - 1]) : "", out[i].c_str(), std::string((const char*)o, m).c_str());
      if (!company && !at) { mc_transition(1); mc_state(hmix(hstr(out[i]), k.k)); }
    }
  }
  mc_world_sync();
  EnGPar_Switch_Comm(MPI_COMM_WORLD); MPI_Comm_free(&comm);
  if (PCU_Comm_Self() != me || PCU_Comm_Peers() != k.n) mc_fail("rank %d of %d after the return to MPI_COMM_WORLD", PCU_Comm_Self(), PCU_Comm_Peers());
  opcomm = MPI_COMM_WORLD; opsub = "";
  if (company) { std::string after = together(k); if (c % 3 && before != after) mc_fail("rank %d, all processes together: before\n%s\nand after\n%s", me, before.c_str(), after.c_str()); }
  EnGPar_Finalize();
}
MCH_ENTRY void mch_judge(u64, int, const mc_blob* const*, const int*) { if (mc_in_flight()) mc_fail("%d message(s) were never received", mc_in_flight()); mc_trace_validated(); }
