// C20: logging and verbosity change nothing but what is printed. Every sequence of operations is run
// under each setting of the log (per operation) and of the verbosity; all runs must agree.
#include "ops.h"
struct Case { int ref, n, pol, place, api; std::vector<int> ops; };
static std::vector<Ref> R; static std::vector<Case> C; static Places P;
MCH_ENTRY const char* mch_property() { return "C20"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear(); unsigned cyc = 0;
  R.push_back(mkref("strip", true, 6, {chain(6), EL{{0, 1, 2}, {2, 3, 4}, {1, 4, 5}, {3}}}, 1));
  R.push_back(mkref("path", false, 5, {both(chain(5)), both(EL{{0, 2}, {1, 4}, {0, 4}})}));
  R.push_back(mkref("one", true, 4, {EL{{0, 1, 2, 3}, {0, 1}, {2, 3}}}));
  R.push_back(mkref("seven", true, 4, {chain(4), cycle(4), star(4), chain(4), EL{{0, 1, 2, 3}}, EL{{0, 2}}, chain(4)}));
  R.push_back(mkref("none", true, 3, {}, 1));
  // per graph: a few distributions, among them skewed ones and ones with an empty part
  auto add = [&](int ref, int n, std::vector<int> ops, int stride) {
    pick_places(R[ref].nv(), n, false, stride, cyc++, [&](int a, u64 h) { C.push_back({ref, n, MC_POL_RTB, a, (int)(h >> 7 & 0xffff) % 3, ops}); });
  };
  for (int ref = 0; ref < (int)R.size(); ++ref) for (int n = 1; n <= 3; ++n) for (int i = 0; i < NOPS; ++i) {
    add(ref, n, {i}, 1);
    for (int j = 0; j < NOPS; ++j) { add(ref, n, {i, j}, th ? 1 : n == 1 ? 3 : ref < 2 ? 8 : 16); if (th) for (int k = 0; k < NOPS; ++k) add(ref, n, {i, j, k}, 29); else for (int k = 0; k < NOPS; ++k) add(ref, n, {i, j, k}, 1500); }
  }
  // beyond the sizes and rank counts of the others
  std::vector<Ref> big = larger(1, 90); const int from = (int)R.size(); R.insert(R.end(), big.begin(), big.end()); for (auto& r : spread(2)) R.push_back(r);
  for (int ref = from; ref < (int)R.size(); ++ref) for (int n : ref < from + 6 ? std::vector<int>{2, 3} : std::vector<int>{5, 9, 10}) { int s = R[ref].nv() == 6 ? 20 : 1; for (int i = 0; i < NOPS; ++i) { add(ref, n, {i}, s * (th ? 2 : 8)); for (int j = 0; j < NOPS; ++j) add(ref, n, {i, j}, s * (th ? 20 : 150)); } }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = 0; p->policies = C[c].pol; p->shards = 1; }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; std::string s = R[k.ref].str() + fmt(" on %d ranks, vertices on %s:", k.n, pstr(P[R[k.ref].nv()][k.n][k.place]).c_str());
  for (int o : k.ops) s += std::string(" ") + ON[o] + ";"; s += " with every setting of the log and of the verbosity";
  snprintf(b, n, "%s", s.c_str());
}
static void probe(int i) { if (EnGPar_Is_Log_Open()) { char m[40]; sprintf(m, "MCPROBE %d\n", i); EnGPar_Log_Function(m); EnGPar_End_Function(); } }
// the log is at the outermost level at each probe
static void read_log(int probes, const char* when) {
  FILE* f = fopen("log.txt", "r"); if (!f) mc_fail("%s: there is no log", when);
  char b[2000]; int n = 0; while (fgets(b, sizeof b, f)) { const char* q = strstr(b, "MCPROBE"); if (!q) continue; ++n; if (q != b) { fclose(f); mc_fail("%s: the log is %d levels deep after %d operations", when, (int)(q - b) / 2, n - 1); } }
  fclose(f); if (n != probes) mc_fail("%s: the log holds %d entries, %d were made", when, n, probes);
}
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const Ref& r = R[k.ref]; const int me = mc_rank(), len = (int)k.ops.size() + 1;
  if (chdir(mc_scratch())) mc_fail("INTERNAL chdir");
  EnGPar_Initialize(-1);
  std::vector<std::string> base; u64 basemsgs = 0;
  const int nlog = 1 << len, verbs[] = {-1, 0, 1, 2, 3};
  for (int run = 0; run < nlog + 4 + 2; ++run) {
    int log = run < nlog ? run : run < nlog + 4 ? 0 : nlog - 1, verb = run < nlog ? -1 : run < nlog + 4 ? verbs[run - nlog + 1] : run == nlog + 4 ? 3 : 0;
    std::string what = fmt("log %s%s verbosity %d", log == nlog - 1 ? "always" : log ? "at" : "never", log && log != nlog - 1 ? fmt(" some steps (mask %x)", log).c_str() : "", verb);
    EnGPar_Set_Verbosity(verb);
    u64 m0 = mc_msgs_count(me); int probes = 0; State st{NULL, false, 0}; std::vector<std::string> got;
    for (int i = 0; i < len; ++i) {
      bool on = log >> i & 1;
      if (on && (i == 0 || !(log >> (i - 1) & 1))) { EnGPar_Open_Log(); probes = 0; if (EnGPar_Is_Log_Open() != !me) mc_fail("%s: Open_Log on rank %d", what.c_str(), me); if (!me) { probe(0); probes = 1; } }
      if (!on && i && (log >> (i - 1) & 1)) { bool was = EnGPar_Is_Log_Open(); EnGPar_Close_Log(); if (was) read_log(probes, what.c_str()); if (EnGPar_Is_Log_Open()) mc_fail("Close_Log leaves the log open"); }
      std::string res;
      if (!i) { st.g = build(r, P[r.nv()][k.n][k.place], BuildOpt{r.types.size() == 1 && k.api == 2 ? 2 : k.api & 1, false}); st.types = (int)r.types.size(); }
      else res = apply(k.ops[i - 1], st, k.n, P[r.nv()][k.n][k.place], k.place, k.api, r, verb, i);
      if (EnGPar_Is_Log_Open()) { probe(i); ++probes; }
      if (EnGPar_Is_Log_Open() != (on && !me)) mc_fail("%s: the log was %s by %s", what.c_str(), on ? "closed" : "opened", i ? ON[k.ops[i - 1]] : "the construction");
      if (EnGPar_Check_Verbosity(verb) != true || EnGPar_Check_Verbosity(verb + 1)) mc_fail("%s: the verbosity was changed by %s", what.c_str(), i ? ON[k.ops[i - 1]] : "the construction");
      got.push_back(dump(st.g) + res);
      if (!run) { base.push_back(got[i]); if (!me) { mc_transition(1); mc_state(hmix(hstr(got[i]), k.n)); } }
      else if (got[i] != base[i]) mc_fail("%s: after %s rank %d has\n%s\nand without log at verbosity -1\n%s", what.c_str(), i ? ON[k.ops[i - 1]] : "the construction", me, got[i].c_str(), base[i].c_str());
    }
    agi::destroyGraph(st.g);
    if (EnGPar_Is_Log_Open()) { probe(99); ++probes; }
    { bool was = EnGPar_Is_Log_Open(); EnGPar_Close_Log(); if (was) read_log(probes, what.c_str()); }
    u64 m = mc_msgs_count(me) - m0; if (!run) basemsgs = m; else if (verb < 0 && m != basemsgs) mc_fail("%s: rank %d sent %lu messages, %lu without log", what.c_str(), me, (unsigned long)m, (unsigned long)basemsgs);
    mc_world_sync();
  }
  EnGPar_Finalize();
}
MCH_ENTRY void mch_judge(u64, int, const mc_blob* const*, const int*) { mc_trace_validated(); }
