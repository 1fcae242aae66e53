// C06: communicator switching regroups the ranks, keeps groups apart and leaks nothing.
#include "common.h"
#include <engpar_support.h>

// a step of a history
enum { SPLIT, NESTED, WORLD, SELFC, LIFE };
struct Step { int kind; std::vector<int> color; int rev; };   // SPLIT: of the world, NESTED: of the current communicator
struct Case { int n, dev, pol; std::vector<Step> st; int engpar, order, early_free, work; int life; };
static std::vector<Case> C;
static void partitions(int n, std::vector<std::vector<int>>& out) {
  std::vector<int> c(n, 0);
  std::function<void(int, int)> rec = [&](int i, int m) { if (i == n) { out.push_back(c); return; } for (int k = 0; k <= m; k++) { c[i] = k; rec(i + 1, std::max(m, k + 1)); } };
  rec(0, 0);
}
MCH_ENTRY const char* mch_property() { return "C06"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear();
  for (int n = 1; n <= 4; n++) {
    std::vector<std::vector<int>> ps; partitions(n, ps);
    int d1 = n <= 2 ? (th ? 2 : 1) : n == 3 ? 1 : 0;
    auto push = [&](std::vector<Step> st, int dev, int k) {
      Case c; c.n = n; c.dev = dev; c.pol = dev >= 2 ? MC_POL_RTB | MC_POL_HOLD | MC_POL_RR : MC_POL_ALL; c.st = st; c.engpar = k & 1; c.order = !(k & 2); c.early_free = (k >> 2) & 1; c.work = 1 + (k >> 3 & 1); c.life = 0; C.push_back(c);
    };
    for (auto& p : ps) for (int rev = 0; rev < 2; rev++) for (int k = 0; k < 16; k++) push({{SPLIT, p, rev}, {WORLD, {}, 0}}, k == 1 || k == 6 ? d1 : 0, k);
    for (auto& p : ps) for (auto& q : ps) for (int rev = 0; rev < 2; rev++) {
      push({{SPLIT, p, rev}, {SPLIT, q, 1 - rev}, {WORLD, {}, 0}}, th && n <= 3 ? 1 : 0, 1 + rev * 2);
      push({{SPLIT, p, rev}, {NESTED, q, rev}, {WORLD, {}, 0}}, th && n <= 3 ? 1 : 0, rev * 3);
      push({{SPLIT, p, rev}, {WORLD, {}, 0}, {SPLIT, q, rev}, {WORLD, {}, 0}}, n == 2 ? 1 : 0, 4 + rev);
      push({{SPLIT, p, rev}, {NESTED, q, 1 - rev}, {SELFC, {}, 0}, {SPLIT, p, 0}}, 0, 2 + 5 * rev);   // ends on a split communicator
    }
    for (auto& p : ps) for (int k = 0; k < 8; k++) push({{SELFC, {}, 0}, {SPLIT, p, k & 1}, {SELFC, {}, 0}, {WORLD, {}, 0}}, 0, k);
    if (n <= 3) for (auto& p : ps) for (auto& q : ps) for (auto& r : ps) { push({{SPLIT, p, 0}, {NESTED, q, 1}, {NESTED, r, 0}, {WORLD, {}, 0}}, 0, 5); push({{SPLIT, p, 1}, {SPLIT, q, 0}, {SPLIT, r, 1}}, 0, 8); }
    // life cycles of the library
    for (int l = 1; l <= 8; l++) { Case c; c.n = n; c.dev = n <= 2 ? 1 : 0; c.pol = MC_POL_RTB | MC_POL_RR | MC_POL_HOLD; c.life = l; c.engpar = 0; c.order = 1; c.early_free = 0; c.work = 1; C.push_back(c); }
  }
  // more ranks, longer histories
  for (int n = 5; n <= 18; n++) for (int k = 0; k < (th ? 64 : 16); k += n > 10 ? 4 + n % 3 : 1) {
    Case c; c.n = n; c.dev = 0; c.pol = MC_POL_RTB | MC_POL_RR | MC_POL_HOLD | MC_POL_RTB_DESC; c.engpar = k & 1; c.order = !(k & 2); c.early_free = (k >> 2) & 1; c.work = 1; c.life = 0;
    int len = k % 4 == 3 ? 24 : 3 + k % 3;
    for (int i = 0; i < len; i++) { u64 h = hmix(hmix(61, n * 100 + k), i); std::vector<int> p; for (int q = 0; q < n; q++) p.push_back(h / 64 % 4 == 0 ? q % 2 : h / 64 % 4 == 1 ? q * 3 / n : h / 64 % 4 == 2 ? (int)(hmix(h, q) % (2 + h / 512 % n)) : 0);
      switch (h % 6) { case 0: c.st.push_back({WORLD, {}, 0}); break; case 1: c.st.push_back({SELFC, {}, 0}); break; case 2: case 3: c.st.push_back({NESTED, p, (int)(h >> 40 & 1)}); break; default: c.st.push_back({SPLIT, p, (int)(h >> 40 & 1)}); } }
    C.push_back(c);
  }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = C[c].dev; p->policies = C[c].pol; p->shards = 1; }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; std::string s = fmt("%d ranks; %s interface; ordering %s; communicators freed %s; work %d; life cycle %d;", k.n, k.engpar ? "EnGPar" : "PCU", k.order ? "on" : "off", k.early_free ? "right after the switch away" : "at the end", k.work, k.life);
  for (auto& t : k.st) { s += t.kind == SPLIT ? " switch to a split of the world" : t.kind == NESTED ? " switch to a split of the current communicator" : t.kind == WORLD ? " switch to the world" : " switch to the rank alone"; for (int x : t.color) s += fmt(" %d", x); if (t.rev) s += " (ranks reversed)"; s += ";"; }
  snprintf(b, n, "%s", s.c_str());
}
// group of the current communicator, as world ranks in order
static void work(const std::vector<int>& g, int amount, int step, MPI_Comm comm) {
  int me = mc_rank(), n = (int)g.size(), l = (int)(std::find(g.begin(), g.end(), me) - g.begin());
  int r2, s2; PCU_Comm_Rank(&r2); PCU_Comm_Size(&s2);
  if (PCU_Comm_Self() != l || PCU_Comm_Peers() != n || PCU_Proc_Self() != l || PCU_Proc_Peers() != n || r2 != l || s2 != n) mc_fail("step %d: world rank %d sees itself as %d of %d instead of %d of %d", step, me, PCU_Comm_Self(), PCU_Comm_Peers(), l, n);
  if (PCU_Get_Comm() != comm) mc_fail("step %d: the library reports another communicator than the one switched to", step);
  long mask = 0; for (int x : g) mask |= 1L << x;
  for (int k = 0; k < amount; k++) {
    long got = PCU_Add_Long(1L << me);
    if (got != mask) mc_fail("step %d: a sum over the ranks has contributions %lx on rank %d instead of %lx", step, got, me, mask);
    int ex = PCU_Exscan_Int(l + 1); if (ex != l * (l + 1) / 2) mc_fail("step %d: prefix sum is %d on rank %d instead of %d", step, ex, me, l * (l + 1) / 2);
    PCU_Comm_Begin();
    for (int d = 0; d < n; d++) { int v[3] = {me, g[d], step * 100 + k}; PCU_Comm_Pack(d, v, sizeof v); }
    PCU_Comm_Send();
    std::vector<int> seen;
    while (PCU_Comm_Receive()) {
      int v[3]; PCU_Comm_Unpack(v, sizeof v); int s = PCU_Comm_Sender();
      if (s < 0 || s >= n || v[0] != g[s] || v[1] != me || v[2] != step * 100 + k) mc_fail("step %d: rank %d received a message of world rank %d to world rank %d of step %d from group rank %d", step, me, v[0], v[1], v[2] / 100, s);
      seen.push_back(s);
    }
    std::sort(seen.begin(), seen.end());
    if ((int)seen.size() != n) mc_fail("step %d: rank %d received %zu messages instead of %d", step, me, seen.size(), n);
    for (int s = 0; s < n; s++) if (seen[s] != s) mc_fail("step %d: rank %d received messages of the wrong ranks", step, me);
    mc_transition(3);
  }
  if (n > 1) PCU_Barrier();
}
static void lifecycle(int l) {
  std::vector<int> g; for (int i = 0; i < mc_size(); i++) g.push_back(i);
  auto up = [&](bool want, const char* when) { if (PCU_Comm_Initialized() != want) mc_fail("message passing is %s after %s", want ? "not initialised" : "still initialised", when); };
  // S: EnGPar start/stop pair, U: the user's own PCU pair around it
  std::vector<std::string> hist = {"", "S", "U", "SS", "SU", "US", "UU", "SUS", "USU"};
  for (char ch : hist[l]) {
    if (ch == 'U') { PCU_Comm_Init(); work(g, 1, 1, MPI_COMM_WORLD); }
    EnGPar_Initialize(-1); up(true, "EnGPar_Initialize"); work(g, 1, 2, MPI_COMM_WORLD);
    EnGPar_Finalize();
    if (ch == 'U') { up(true, "EnGPar_Finalize, although the caller had initialised it"); work(g, 1, 3, MPI_COMM_WORLD); PCU_Comm_Free(); up(false, "PCU_Comm_Free"); }
    else up(false, "EnGPar_Finalize");
    if (mc_open_comms(mc_rank())) mc_fail("rank %d leaves %d communicator(s) open", mc_rank(), mc_open_comms(mc_rank()));
  }
}
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; int me = mc_rank(), n = mc_size();
  if (k.life) { lifecycle(k.life); return; }
  if (k.engpar) EnGPar_Initialize(-1); else PCU_Comm_Init();
  PCU_Comm_Order(k.order);
  std::vector<int> world; for (int i = 0; i < n; i++) world.push_back(i);
  std::vector<int> g = world; std::vector<MPI_Comm> mine; MPI_Comm cur = MPI_COMM_WORLD;
  work(g, k.work, 0, cur);
  int step = 0;
  for (auto& t : k.st) {
    step++;
    MPI_Comm next; std::vector<int> ng;
    if (t.kind == WORLD) { next = MPI_COMM_WORLD; ng = world; }
    else if (t.kind == SELFC) { next = MPI_COMM_SELF; ng = {me}; }
    else {
      MPI_Comm base = t.kind == SPLIT ? MPI_COMM_WORLD : PCU_Get_Comm();
      MPI_Comm_split(base, t.color[me], t.rev ? n - me : me, &next); mine.push_back(next);
      for (int x : (t.kind == SPLIT ? world : g)) if (t.color[x] == t.color[me]) ng.push_back(x);
      std::sort(ng.begin(), ng.end()); if (t.rev) std::reverse(ng.begin(), ng.end());
    }
    if (k.engpar) EnGPar_Switch_Comm(next); else PCU_Switch_Comm(next);
    if (k.early_free && cur != MPI_COMM_WORLD && cur != MPI_COMM_SELF) { for (auto& m : mine) if (m == cur) MPI_Comm_free(&m); }
    cur = next; g = ng;
    // groups advance at different speeds
    work(g, k.work + (t.color.empty() ? 0 : t.color[me]), step, cur);
  }
  if (k.engpar) EnGPar_Finalize(); else PCU_Comm_Free();
  for (auto& m : mine) if (m != MPI_COMM_NULL) MPI_Comm_free(&m);
  if (mc_open_comms(me)) mc_fail("rank %d leaves %d communicator(s) of the library open", me, mc_open_comms(me));
  if (PCU_Comm_Initialized()) mc_fail("message passing is still initialised after finalisation");
}
MCH_ENTRY void mch_judge(u64 c, int, const mc_blob* const*, const int*) {
  if (mc_in_flight()) mc_fail("%d message(s) were never received", mc_in_flight());
  mc_state(hmix(c, 6)); mc_trace_validated();
}
