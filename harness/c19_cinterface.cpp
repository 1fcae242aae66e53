// C19: the C interface (and the Fortran module over it) does what the C++ interface does.
#include "balance.h"
#include "bgdfile.h"
#include <engpar_split_input.h>
#include <parmetis.h>
#include <unistd.h>
#include <sys/stat.h>
#include <cengpar.h>
// a missing symbol is a finding, not a build failure
#pragma weak cengpar_createLocalSplitInput
#define FUNCS(X) X(initialize) X(finalize) X(setftncommunicator) X(createEmptyGraph) X(createLocalSplitInput) X(createGlobalSplitInput) X(createDiffusiveInput) X(setCutGrowthFactor) X(addPriority) X(balanceGhosts) X(balance) X(loadFromFile) X(saveToFile) X(evaluatePartition) X(split) X(destroyGraph) X(constructVerts) X(constructEdges) X(constructGhosts) X(checkValidity) X(getPartition)
#define X(f) extern "C" decltype(cengpar_##f) fv_##f; 
FUNCS(X)
#undef X
extern "C" __attribute__((noinline)) void fv_clobber() {
  asm volatile("mov $0x1234567890, %%rax\n mov %%rax, %%rcx\n mov %%rax, %%rdx\n mov %%rax, %%rsi\n mov %%rax, %%rdi\n mov %%rax, %%r8\n mov %%rax, %%r9\n"
    "movq %%rax, %%xmm0\n movq %%rax, %%xmm1\n movq %%rax, %%xmm2\n movq %%rax, %%xmm3" ::: "rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "xmm0", "xmm1", "xmm2", "xmm3");
}
struct Api {
#define X(f) decltype(&cengpar_##f) f;
  FUNCS(X)
#undef X
};
static const Api APIS[2] = {
  {
#define X(f) &cengpar_##f,
  FUNCS(X)
#undef X
  }, {
#define X(f) &fv_##f,
  FUNCS(X)
#undef X
  }};
enum { GRAPHS, BALANCE, SPLIT };
struct Case { int kind, ref, n, pol, ftn, sub, from, to, cfg, verb, mask, method, sf, et, table, path; double tol; };
static std::vector<Ref> R; static std::vector<Case> C; static std::map<int, std::vector<Place>[19]> P; static std::vector<Cfg> CF;
MCH_ENTRY const char* mch_property() { return "C19"; }
static int bits(int m) { return __builtin_popcount(m); }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear(); CF.clear(); unsigned cyc = 0;
  for (int v = 0; v <= 12; ++v) for (int n = 1; n <= 4; ++n) { P[v][n].clear(); if (v < 6) P[v][n] = placements(v, n); }
  const int B = MC_POL_RTB;
  auto graphs = [&](const Ref& r, int n, int stride = 1) {
    R.push_back(r);
    for (int a = 0; a < (int)P[r.nv()][n].size(); ++a) { if (cyc++ % stride) continue; unsigned q = (unsigned)hmix(3, cyc) >> 3; C.push_back({GRAPHS, (int)R.size() - 1, n, B, (int)(q % 2), (int)(q / 2 % 3), a, 0, 0, (int)(q / 6 % 3) - 1, 0, 0, 0, 0, 0, (int)(q % 3), 1}); }
  };
  for (int n = 1; n <= 3; ++n) {
    for (auto& e : all_hyper(3, 2)) graphs(mkref("all", true, 3, {e}, n % 2), n, n == 3 && !th ? 2 : 1);
    for (auto& e : all_digraphs(3, th)) graphs(mkref("all", false, 3, {e}, n % 2), n, n == 3 && !th ? 3 : 1);
    for (int i = 0; i < 2; ++i) for (auto& g : curated(i)) if (g.types.size()) graphs(g, n, th ? 1 : n == 3 ? 2 : 1);
  }
  // one table of inputs for the balancer: everything the C interface can set
  for (auto& pr : {std::vector<int>{-1}, std::vector<int>{0, -1}, std::vector<int>{-1, 0}, std::vector<int>{1, 0, -1}, std::vector<int>{-1, 1}})
    for (double sf : {0.1, 0.5, 1.0}) for (double cut : {0.0, 0.5}) for (int gh = 0; gh < 2; ++gh) { Cfg c; c.prio = pr; for (size_t i = 0; i < pr.size(); ++i) c.tol.push_back(1.05 + 0.2 * ((cyc + i * 2) % 3)); c.sf = sf; c.cut = cut; c.ghosts = gh; CF.push_back(c); ++cyc; }
  auto bal = [&](const Ref& r, int n, std::vector<Place> from, int stride) { const int pol = B;
    R.push_back(r); int base = (int)P[r.nv()][n].size(); for (auto& p : from) P[r.nv()][n].push_back(p);
    for (size_t a = 0; a < from.size(); ++a) for (int f = 0; f < (int)CF.size(); ++f) {
      bool ok = true; for (int t : CF[f].prio) ok &= t < (int)r.types.size();
      if (!ok || cyc++ % stride) continue; unsigned q = (unsigned)hmix(5, cyc) >> 3;
      C.push_back({BALANCE, (int)R.size() - 1, n, pol, (int)(q % 2), (int)(q / 2 % 3), base + (int)a, 0, f, (int)(q / 6 % 5) - 1, 0, 0, 0, 0, 0, 0, 1});
    }
  };
  auto blocks = [&](int nv, int n) { // cuts into consecutive blocks
    std::vector<Place> o; std::vector<int> cut(n - 1, 0);
    std::function<void(int, int)> rec = [&](int i, int lo) { if (i == n - 1) { Place p(nv); for (int v = 0; v < nv; ++v) { int q = 0; for (int c : cut) q += v >= c; p[v] = q; } o.push_back(p); return; } for (int c = lo; c <= nv; ++c) { cut[i] = c; rec(i + 1, c); } };
    rec(0, 0); return o;
  };
  { Ref a = mkref("strip", true, 8, {chain(8), tri(8)}), b = mkref("ring", true, 8, {cycle(8), EL{{0, 1, 2, 3}, {4, 5, 6, 7}, {2, 5}}}, 1), c = mkref("path", false, 8, {both(chain(8)), both(cycle(8))}), d = mkref("grid", true, 9, {gridnodes(3, 3), grid(3, 3)});
    for (auto& r : {a, b, c, d}) { bal(r, 2, blocks(r.nv(), 2), th ? 1 : 3); bal(r, 3, blocks(r.nv(), 3), th ? 3 : 29); bal(r, 1, blocks(r.nv(), 1), 3); } }
  auto split = [&](Ref q, int n, int et, int stride) {
    for (int v = 0; v < q.nv(); ++v) q.w[v] = 1 + 3 * v;
    R.push_back(q); int nv = q.nv();
    for (int m = 1; m < (1 << n); ++m) for (int method = 0; method < 2; ++method) for (int sf = 1; sf <= (method ? n : 1); ++sf) {
      int ns = bits(m), na = method ? sf : n;
      for (int a = 0; a < (method ? (int)P[nv][ns].size() : (int)P[nv][ns].size()); ++a) for (int b = 0; b < (int)P[nv][na].size(); ++b) {
        if (cyc++ % stride) continue; unsigned h = (unsigned)hmix(hmix(9, cyc), R.size());
        C.push_back({SPLIT, (int)R.size() - 1, n, B, (int)(h % 2), (int)(h / 2 % 2), a, b, 0, -1, m, method, sf, et, (int)(h / 4 % 3), 0, 1.01 + 0.01 * (h / 12 % 9)});
      }
    }
  };
  Ref two = mkref("two", true, 3, {EL{{0, 1}}, EL{{1, 2}, {0, 1, 2}}}, 1), d2 = mkref("two", false, 3, {both(EL{{0, 1}}), both(EL{{1, 2}, {0, 2}})});
  for (auto& r : {two, d2}) for (int t = 0; t < 2; ++t) { split(r, 2, t, th ? 1 : 2); split(r, 3, t, th ? 3 : 29); split(r, 1, t, 1); }
  // beyond the sizes and rank counts of the others
  for (int ids = 0; ids < 2; ++ids) {   // (the file format holds identifiers of 32 bits)
    for (auto& g : larger(ids, 260)) for (int n = 1; n <= 3; ++n) { if (g.nv() > 12) P[g.nv()][n] = places(g.nv(), n); else if (P[g.nv()][n].empty()) P[g.nv()][n] = {places(g.nv(), n)[0], places(g.nv(), n).back()}; graphs(g, n, th ? 1 : 2); }
    for (auto& g : spread(ids)) for (int n : {5, 8, 9, 16}) { P[g.nv()][n] = places(g.nv(), n); graphs(g, n, th ? 1 : 2); }
  }
  for (auto& g : larger(1, 120)) if (g.nv() > 12) for (int n : {2, 3}) bal(g, n, places(g.nv(), n), th ? 4 : 40);
  for (auto& g : spread(1)) for (int n : {5, 9, 17}) bal(g, n, places(g.nv(), n), th ? 4 : 40);
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n + (C[c].kind != SPLIT && C[c].sub == 2); p->deviations = 0; p->policies = C[c].pol; p->shards = 1; }
static const char* MN[] = {"GLOBAL_PARMETIS", "LOCAL_PARMETIS"};
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; const Ref& r = R[k.ref]; std::string s = k.ftn ? "Fortran: " : "C: "; s += r.str();
  if (k.kind == SPLIT) { s += fmt(" on ranks %x (mask) of %d%s, vertices on %s, %s type %d answering %s", k.mask, k.n, k.sub ? " in reverse" : "", pstr(P[r.nv()][bits(k.mask)][k.from]).c_str(), MN[k.method], k.et, pstr(P[r.nv()][k.method ? k.sf : k.n][k.to]).c_str()); if (k.method) s += fmt(" into %d (table %d)", k.sf, k.table); }
  else { s += fmt(" on %d ranks%s, vertices on %s", k.n, k.sub == 1 ? " in reverse" : k.sub == 2 ? " (world rank 0 apart)" : "", pstr(P[r.nv()][k.n][k.from]).c_str()); if (k.kind == BALANCE) s += ", balance " + CF[k.cfg].str() + fmt(" verbosity %d", k.verb); else s += ", validity, evaluation, save and load"; }
  snprintf(b, n, "%s", s.c_str());
}
static agi::Ngraph* N(ngraph g) { return (agi::Ngraph*)g; }
// ---- the partitioner's stand-in: remembers what it was given, and answers as the case says ----------
static const Case* K; static Place SMALL, ANSWER; static int MYSMALL, CALLS; static std::vector<double> GIVEN[2];
extern "C" int ParMETIS_V3_PartKway(idx_t* vtxdist, idx_t* xadj, idx_t* adjncy, idx_t* vwgt, idx_t* adjwgt, idx_t* wgtflag, idx_t* numflag, idx_t* ncon, idx_t* nparts, real_t* tpwgts, real_t* ubvec, idx_t* options, idx_t* edgecut, idx_t* part, MPI_Comm* comm) {
  int self, size; MPI_Comm_rank(*comm, &self); MPI_Comm_size(*comm, &size); MPI_Barrier(*comm);
  int n = vtxdist[self + 1] - vtxdist[self]; auto& G = GIVEN[CALLS++ & 1]; G.clear();
  for (double x : {(double)self, (double)size, (double)n, (double)*wgtflag, (double)*numflag, (double)*ncon, (double)*nparts, (double)ubvec[0], (double)options[0]}) G.push_back(x);
  for (int i = 0; i <= size; ++i) G.push_back(vtxdist[i]);
  for (int i = 0; i < *nparts; ++i) G.push_back(tpwgts[i]);
  for (int i = 0; i < n; ++i) { G.push_back(vwgt[i]); for (int j = xadj[i]; j < xadj[i + 1]; ++j) { G.push_back(adjncy[j]); G.push_back(adjwgt[j]); } }
  if (std::abs(ubvec[0] - K->tol) > 1e-5) mc_fail("the tolerance given to the partitioner is %g, not %g", ubvec[0], K->tol);
  for (int i = 0; i < n; ++i) { int v = -1; for (int u = 0; u < R[K->ref].nv(); ++u) if ((int)R[K->ref].w[u] == vwgt[i]) v = u; if (v < 0) mc_fail("unknown vertex weight %d", vwgt[i]); part[i] = ANSWER[v] + *numflag; }
  *edgecut = 0; return METIS_OK;
}
// ----------------------------------------------------------------------------------------------------
static ngraph cbuild(const Api& A, const Ref& r, const Place& p, bool rev) {
  ngraph g = A.createEmptyGraph();
  if (!g) mc_fail("createEmptyGraph gives NULL");
  std::vector<int> vs; std::vector<std::vector<const Edge*>> es; std::unordered_map<Gid, part_t> own; part_lists(r, p, PCU_Comm_Self(), rev, vs, es, own);
  std::vector<Gid> ids, w0; std::vector<wgt_t> w;
  for (int v : vs) { ids.push_back(r.gid[v]); w.push_back(r.w[v]); }
  A.constructVerts(g, r.hyper, ids.data(), w.data(), (int)ids.size());
  for (size_t t = 0; t < es.size(); ++t) {
    std::vector<Gid> e, pins; std::vector<lid_t> d; std::vector<wgt_t> ew;
    for (auto x : es[t]) { e.push_back(x->id); ew.push_back(x->w); d.push_back((lid_t)x->pins.size()); for (int q : x->pins) pins.push_back(r.gid[q]); }
    auto e0 = e, p0 = pins; auto d0 = d; auto ew0 = ew;
    etype got = A.constructEdges(g, e.data(), d.data(), ew.data(), pins.data(), (int)e.size(), (int)pins.size());
    if (got != (etype)t) mc_fail("constructEdges returned type %d for the %zu-th type", got, t);
    if (e != e0 || pins != p0 || d != d0 || ew != ew0) mc_fail("constructEdges changed its arguments");
  }
  std::vector<Gid> gg; std::vector<part_t> go; for (auto& x : own) { gg.push_back(x.first); go.push_back(x.second); }
  A.constructGhosts(g, gg.data(), go.data(), (int)gg.size());
  return g;
}
// the arrays of getPartition hold what the C++ interface's map holds
static void check_partition(const Api& A, ngraph g, agi::PartitionMap want, const char* what) {
  int n = (int)want.size(); std::vector<Gid> v(n + 2, -77); std::vector<part_t> p(n + 2, -77);
  A.getPartition(g, v.data() + 1, p.data() + 1, n);
  if (v[0] != -77 || p[0] != -77 || v[n + 1] != -77 || p[n + 1] != -77) mc_fail("%s: getPartition writes outside its %d entries", what, n);
  for (int i = 1; i <= n; ++i) { auto f = want.find(v[i]); if (f == want.end()) mc_fail("%s: getPartition on rank %d names vertex %ld, the C++ partition does not (or named already)", what, PCU_Comm_Self(), (long)v[i]); if (f->second != p[i]) mc_fail("%s: getPartition on rank %d sends vertex %ld to %d, the C++ partition to %d", what, PCU_Comm_Self(), (long)v[i], p[i], f->second); want.erase(f); }
}
static agi::PartitionMap pmap(agi::Ngraph* g) { agi::PartitionMap* m = g->getPartition(); agi::PartitionMap x = *m; delete m; return x; }
// what was printed since the last call; numbers with a point and times left out when asked
static std::string printed(bool blur) {
  static size_t at; fflush(stdout); fflush(stderr); mc_world_sync();
  size_t n; char* o = mc_output(&n); size_t from = std::min(at, n); std::string s(o + from, o + n); at = n; free(o); mc_world_sync();
  if (!blur) return s;
  std::string r; for (char ch : s) { if (isdigit((unsigned char)ch) || ch == '.' || ch == '-' || ch == '+' || ch == 'e') { if (r.empty() || r.back() != '#') r += '#'; } else r += ch; }
  return r;
}
static void run_split(const Api& A, const Case& k, const Ref& r, int me) {
  const int ns = bits(k.mask); bool orig = k.mask >> me & 1;
  MPI_Comm small, large = MPI_COMM_WORLD;
  if (k.sub) MPI_Comm_split(MPI_COMM_WORLD, 0, k.n - me, &large);
  MPI_Comm_split(MPI_COMM_WORLD, !orig, me, &small);
  auto lrank = [&](int w) { return k.sub ? k.n - 1 - w : w; };
  std::vector<int> world; for (int w = 0; w < k.n; ++w) if (k.mask >> w & 1) world.push_back(w);
  MYSMALL = -1; if (orig) for (int i = 0; i < ns; ++i) if (world[i] == me) MYSMALL = i;
  auto others = [&](int s) { std::vector<part_t> o; int l = lrank(world[s]); for (int i = 0; i < k.sf; ++i) o.push_back(k.table == 0 ? (l + i) % k.n : k.table == 1 ? (l + k.n - i) % k.n : i); return o; };
  SMALL = P[r.nv()][ns][k.from]; ANSWER = P[r.nv()][k.method ? k.sf : k.n][k.to];
  Place to = ANSWER; if (k.method) for (int v = 0; v < r.nv(); ++v) to[v] = others(SMALL[v])[ANSWER[v]];
  Place owner(r.nv()); for (int v = 0; v < r.nv(); ++v) owner[v] = lrank(world[SMALL[v]]);
  std::vector<part_t> dummy(k.n + 1, 0);
  agi::PartitionMap want;
  for (int side = 0; side < 2; ++side) { // C++, then C
    std::vector<part_t> mine; if (orig) mine = others(MYSMALL); else mine = dummy;
    if (side) A.setftncommunicator(MPI_Comm_c2f(small)); else EnGPar_Switch_Comm(small);
    if (PCU_Comm_Peers() != (orig ? ns : k.n - ns)) mc_fail("setftncommunicator: %d ranks", PCU_Comm_Peers());
    ngraph g;
    if (!orig) g = side ? A.createEmptyGraph() : agi::createEmptyGraph();
    else g = side ? cbuild(A, r, SMALL, k.et) : build(r, SMALL, BuildOpt{0, (bool)k.et});
    if (side) {
      if (k.method && !A.createLocalSplitInput) mc_fail("the C interface does not define cengpar_createLocalSplitInput");
      engparInput in = k.method ? A.createLocalSplitInput(g, MPI_Comm_c2f(small), MPI_Comm_c2f(large), orig, k.sf, k.tol, mine.data(), k.et) : A.createGlobalSplitInput(g, MPI_Comm_c2f(small), MPI_Comm_c2f(large), orig, k.tol, k.et);
      A.split(in, MN[k.method]);
    } else {
      engpar::SplitInput* in = k.method ? engpar::createLocalSplitInput(N(g), small, large, orig, k.sf, k.tol, mine.data(), k.et) : engpar::createGlobalSplitInput(N(g), small, large, orig, k.tol, k.et);
      engpar::split(in, k.method ? engpar::LOCAL_PARMETIS : engpar::GLOBAL_PARMETIS);
    }
    CheckOpt co; co.what = side ? "after the split through the interface" : "after the split (C++)"; co.orig = &owner; check_graph(N(g), r, to, co);
    if (!side) want = pmap(N(g)); else check_partition(A, g, want, "after the split");
    if (side) A.destroyGraph(g); else agi::destroyGraph(N(g));
  }
  if (orig && (CALLS != 2 || GIVEN[0] != GIVEN[1])) mc_fail("the partitioner was called %d times, or given other arguments than through C++", CALLS);
  A.setftncommunicator(MPI_Comm_c2f(MPI_COMM_WORLD));
  MPI_Comm_free(&small); if (k.sub) MPI_Comm_free(&large);
}
static void run_graphs(const Api& A, const Case& k, const Ref& r) {
  const Place& p = P[r.nv()][k.n][k.from]; const int me = PCU_Comm_Self();
  agi::Ngraph* h = build(r, p, BuildOpt{0, (bool)(k.from & 1)}); ngraph g = cbuild(A, r, p, k.from & 1);
  CheckOpt co; co.what = "after the construction"; check_graph(N(g), r, p, co);
  A.checkValidity(g);
  h->setOriginalOwners(); N(g)->setOriginalOwners(); check_partition(A, g, pmap(h), "after the construction");
  agi::destroyGraph(h);
  const char* paths[] = {"/g", "/a/b/g", "/a_b/"}; std::string a = std::string(mc_scratch()) + paths[k.path] + "c", b = a + "_pp", c = a + "_x";
  for (auto& s : {a, b, c}) unlink((s + fmt("_%d.bgd", me)).c_str());
  A.saveToFile(g, a.c_str()); N(g)->saveToFile(b.c_str());
  std::string fa = bgd_slurp(a + fmt("_%d.bgd", me)), fb = bgd_slurp(b + fmt("_%d.bgd", me));
  if (fa != fb) mc_fail("the files written through C and C++ differ");
  bgd_expect(r, p, me, fa);
  co.what = "after saving"; check_graph(N(g), r, p, co);
  ngraph l = A.createEmptyGraph(); A.loadFromFile(l, a.c_str());
  co.what = "loaded through the interface"; check_graph(N(l), r, p, co);
  if (!me) { mc_transition(4); mc_state(gstate(r, p, k.ftn)); }
  for (auto& s : {a, b}) unlink((s + fmt("_%d.bgd", me)).c_str());
  A.destroyGraph(l); A.destroyGraph(g);
}
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const Ref& r = R[k.ref]; const Api& A = APIS[k.ftn]; const int w = mc_rank();
  K = &k; CALLS = 0;
  if (!w && k.kind == GRAPHS) for (auto d : {"/a", "/a/b", "/a_b"}) mkdir((std::string(mc_scratch()) + d).c_str(), 0700);
  A.initialize();
  if (PCU_Comm_Peers() != mc_size() || PCU_Comm_Self() != w) mc_fail("after initialize rank %d is %d of %d", w, PCU_Comm_Self(), PCU_Comm_Peers());
  if (!EnGPar_Check_Verbosity(0) || EnGPar_Check_Verbosity(1)) mc_fail("initialize sets another verbosity than EnGPar_Initialize()");
  if (k.kind == SPLIT) { run_split(A, k, r, w); if (!w) { mc_transition(2); mc_state(gstate(r, ANSWER, k.mask * 4 + k.method * 2 + k.ftn)); } }
  else {
    MPI_Comm comm = MPI_COMM_WORLD;
    if (k.sub == 1) MPI_Comm_split(MPI_COMM_WORLD, 0, -w, &comm);
    if (k.sub == 2) MPI_Comm_split(MPI_COMM_WORLD, w ? 0 : 7, w, &comm);
    A.setftncommunicator(MPI_Comm_c2f(comm));
    const int n = k.sub == 2 && !w ? 1 : k.n, q = k.sub == 1 ? k.n - 1 - w : k.sub == 2 ? (w ? w - 1 : 0) : w;
    if (PCU_Comm_Peers() != n || PCU_Comm_Self() != q) mc_fail("after setftncommunicator rank %d is %d of %d", w, PCU_Comm_Self(), PCU_Comm_Peers());
    const bool in = !(k.sub == 2 && !w);
    if (k.kind == GRAPHS) {
      if (in) run_graphs(A, k, r);
      // the printed evaluation
      const Place& p = P[r.nv()][k.n][k.from]; ngraph g = in ? cbuild(A, r, p, false) : NULL;
      printed(false);
      if (in) engpar::evaluatePartition(N(g)); std::string a = printed(false);
      if (in) A.evaluatePartition(g); std::string b = printed(false);
      if (a != b || a.empty()) mc_fail("the evaluation prints\n%s\nthrough the interface and\n%s\nthrough C++", b.c_str(), a.c_str());
      if (in) A.destroyGraph(g);
    } else {
      const Cfg& cf = CF[k.cfg]; const Place& p = P[r.nv()][k.n][k.from];
      agi::Ngraph* h = NULL; ngraph g = NULL; if (in) { h = build(r, p); g = cbuild(A, r, p, false); }
      printed(false);
      if (in) engpar::balance(make_input(h, cf), k.verb); std::string a = printed(true);
      bool v0 = EnGPar_Check_Verbosity(0), v1 = EnGPar_Check_Verbosity(1);
      if (in) {
        engparInput x = A.createDiffusiveInput(g, cf.sf);
        for (size_t i = 0; i < cf.prio.size(); ++i) A.addPriority(x, cf.prio[i], cf.tol[i]);
        if (cf.cut) A.setCutGrowthFactor(x, cf.cut);
        if (k.from & 1) A.balanceGhosts(x, !cf.ghosts); // the last call counts
        A.balanceGhosts(x, cf.ghosts);
        A.balance(x, k.verb);
      }
      std::string b = printed(true);
      if (a != b) mc_fail("the balancer prints\n%s\nthrough the interface and\n%s\nthrough C++ (numbers blurred)", b.c_str(), a.c_str());
      if (v0 != EnGPar_Check_Verbosity(0) || v1 != EnGPar_Check_Verbosity(1)) mc_fail("the verbosity after balancing is another");
      // each rank's part in turn, the apart rank looks on
      long* sh = mc_shared(); const int nv = r.nv();
      for (int side = 0; side < 2; ++side) { mc_world_sync(); if (in) { agi::Ngraph* x = side ? N(g) : h; agi::VertexIterator* it = x->begin(); agi::GraphVertex* v; while ((v = x->iterate(it))) sh[64 + side * nv + vindex(r, x->globalID(v))] = 1 + PCU_Comm_Self(); } mc_world_sync(); }
      Place e(nv), f(nv); for (int v = 0; v < nv; ++v) { e[v] = (int)sh[64 + v] - 1; f[v] = (int)sh[64 + nv + v] - 1; }
      if (e != f) mc_fail("balancing gives %s through the interface and %s through C++", pstr(f).c_str(), pstr(e).c_str());
      if (in) {
        CheckOpt co; co.what = "after balancing through the interface"; if (k.n > 1) co.orig = &p; check_graph(N(g), r, e, co);
        if (k.n > 1) check_partition(A, g, pmap(h), "after balancing"); // one part: the balancer returns at once, no owners are recorded
        A.checkValidity(g);
        if (!PCU_Comm_Self()) { mc_transition(2); mc_state(hmix(gstate(r, p, k.ftn), hstr(cf.str()))); mc_state(gstate(r, e, k.ftn)); }
        A.destroyGraph(g); agi::destroyGraph(h);
      }
    }
    A.setftncommunicator(MPI_Comm_c2f(MPI_COMM_WORLD));
    if (k.sub) MPI_Comm_free(&comm);
  }
  if (PCU_Comm_Peers() != mc_size() || PCU_Comm_Self() != w) mc_fail("back on the world rank %d is %d of %d", w, PCU_Comm_Self(), PCU_Comm_Peers());
  A.finalize();
  if (PCU_Comm_Initialized()) mc_fail("finalize leaves PCU initialized");
  if (mc_open_comms(w)) mc_fail("rank %d leaves %d communicators open", w, mc_open_comms(w));
}
MCH_ENTRY void mch_judge(u64, int, const mc_blob* const*, const int*) { mc_trace_validated(); }
