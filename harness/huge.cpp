// Graphs with more entities of every kind than 16 bits can count. Compiled once for every property that uses it (PROP).
#include "refgraph.h"
#include <unistd.h>
#include <binGraph.h>
#ifndef PROP
#define PROP 1
#endif
struct Case { int n, place, hyper, api; };
static std::vector<Case> C;
static const int N = 70001;
MCH_ENTRY const char* mch_property() { static char b[8]; snprintf(b, 8, "C%02d", PROP); return b; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear();
  for (int hyper = 0; hyper < 2; ++hyper) for (int n = 1; n <= 3; ++n) for (int p = 0; p < 4; ++p) {
    if (n == 1 && p) continue;
    if (PROP == 13 && hyper) continue;
    if (!th && n == 3 && p != 1) continue;
    C.push_back({n, p, hyper, (n + p + hyper) % 2});
  }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = 0; p->policies = MC_POL_RTB; p->shards = 1; }
static const char* PN[] = {"blocks", "nearly all on part 0", "taken in turns", "all on the last part"};
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) { Case& k = C[c]; snprintf(b, n, "%s of %d vertices on %d ranks, %s, %s interface", k.hyper ? "hypergraph" : "digraph", N, k.n, PN[k.place], k.api ? "array" : "vector"); }
static int part(int how, int n, int v) { return how == 0 ? (int)((long)v * n / N) : how == 1 ? (v < N - 40 ? 0 : n - 1) : how == 2 ? v % n : n - 1; }
static Gid id(int v) { return PROP == 13 ? v : 3 * (Gid)v + 1; }
static int vx(Gid g) { int v = PROP == 13 ? (int)g : (int)((g - 1) / 3); return g >= 0 && v >= 0 && v < N && id(v) == g ? v : -1; }
static double wv(int v) { return PROP == 13 ? 1 : 1 + v % 7; }
static double wt(int t, int e) { return PROP == 13 ? 1 : 1 + (e + t) % 5; }
// type 0 is a path and (hypergraphs) an edge of all vertices, type 1 a star, type 2 (added later) a ring; digraphs have both directions of the path
static int nedges(bool hyper, int t) { return t == 0 ? hyper ? N : 2 * (N - 1) : t == 1 ? N - 1 : N; }
static void pins(bool hyper, int t, int e, std::vector<int>& p) {
  p.clear();
  if (t == 1) { p.push_back(0); p.push_back(e + 1); }
  else if (t == 2) { p.push_back(e); p.push_back((e + 1) % N); }
  else if (!hyper) { int i = e / 2; p.push_back(e % 2 ? i + 1 : i); p.push_back(e % 2 ? i : i + 1); }
  else if (e < N - 1) { p.push_back(e); p.push_back(e + 1); }
  else for (int v = 0; v < (PROP == 2 || PROP == 3 ? 50 : N); ++v) p.push_back(v); // migrating an edge of all vertices costs their number squared
}
typedef std::vector<int> Place_;
static bool on(bool hyper, const std::vector<int>& p, const Place_& pl, int rank) { if (!hyper) return pl[p[0]] == rank; for (int x : p) if (pl[x] == rank) return true; return false; }
static void add_edges(agi::Ngraph* g, bool hyper, int t, const Place_& pl, int api, std::unordered_map<Gid, part_t>& own) {
  const int me = PCU_Comm_Self(); std::vector<Gid> ids, ps; std::vector<lid_t> ds; std::vector<wgt_t> ws; std::vector<int> p;
  for (int e = 0; e < nedges(hyper, t); ++e) { pins(hyper, t, e, p); if (!on(hyper, p, pl, me)) continue; ids.push_back(e); ds.push_back((lid_t)p.size()); ws.push_back(wt(t, e)); for (int x : p) { ps.push_back(id(x)); if (pl[x] != me) own[id(x)] = pl[x]; } }
  if (api) g->constructEdges((Gid)ids.size(), ids.data(), ds.data(), ps.data(), ws.data()); else g->constructEdges(ids, ds, ps, ws);
}
static agi::Ngraph* make(const Case& k, const Place_& pl, int types) {
  const int me = PCU_Comm_Self(); std::vector<Gid> vs; std::vector<wgt_t> ws; for (int v = 0; v < N; ++v) if (pl[v] == me) { vs.push_back(id(v)); ws.push_back(wv(v)); }
  agi::Ngraph* g = agi::createEmptyGraph(); std::unordered_map<Gid, part_t> own;
  if (k.api) g->constructVerts(k.hyper, (lid_t)vs.size(), vs.data(), ws.data()); else g->constructVerts(k.hyper, vs, ws);
  for (int t = 0; t < types; ++t) add_edges(g, k.hyper, t, pl, k.api, own);
  if (k.api) { std::vector<Gid> a; std::vector<part_t> b; for (auto& o : own) { a.push_back(o.first); b.push_back(o.second); } g->constructGhosts((lid_t)a.size(), a.data(), b.data()); } else g->constructGhosts(own);
  return g;
}
#define CK(c, ...) do { if (!(c)) { std::string m_ = fmt(__VA_ARGS__); mc_fail("%s: rank %d: %s", what, me, m_.c_str()); } } while (0)
static void check(agi::Ngraph* g, bool hyper, const Place_& pl, int types, const char* what, int first = 0) {
  const int me = PCU_Comm_Self(); std::vector<int> p; std::vector<char> ghost(N, 0); int local = 0, ghosts = 0;
  for (int t = 0; t < types; ++t) if (t >= first) for (int e = 0; e < nedges(hyper, t); ++e) { pins(hyper, t, e, p); if (on(hyper, p, pl, me)) for (int x : p) if (pl[x] != me && !ghost[x]) { ghost[x] = 1; ++ghosts; } }
  for (int v = 0; v < N; ++v) local += pl[v] == me;
  CK(g->numGlobalVtxs() == N && g->numLocalVtxs() == local && g->numGhostVtxs() == ghosts && g->numTotalVtxs() == local + ghosts, "%ld %ld %ld %ld vertices in all, here, ghosts and total; %d %d %d expected", (long)g->numGlobalVtxs(), (long)g->numLocalVtxs(), (long)g->numGhostVtxs(), (long)g->numTotalVtxs(), N, local, ghosts);
  CK((bool)g->isHyper() == hyper, "isHyper");
  std::vector<char> seen(N, 0); agi::GraphVertex* v; int k = 0;
  agi::VertexIterator* it = g->begin();
  while ((v = g->iterate(it))) { int x = vx(g->globalID(v)); CK(x >= 0 && pl[x] == me && !seen[x]++, "vertex %ld", (long)g->globalID(v)); CK(g->weight(v) == wv(x) && g->owner(v) == me && g->localID(v) == k && g->findGID(id(x)) == v, "vertex %d: weight %g owner %d local id %ld", x, g->weight(v), g->owner(v), (long)g->localID(v)); ++k; }
  CK(k == local, "%d vertices iterated", k);
  agi::GhostIterator* gt = g->beginGhosts(); k = 0;
  while ((v = g->iterate(gt))) { int x = vx(g->globalID(v)); CK(x >= 0 && ghost[x] && !seen[x]++, "ghost %ld", (long)g->globalID(v)); CK(g->weight(v) == wv(x) && g->owner(v) == pl[x] && g->localID(v) == local + k && g->findGID(id(x)) == v, "ghost %d: weight %g owner %d local id %ld", x, g->weight(v), g->owner(v), (long)g->localID(v)); ++k; }
  CK(k == ghosts, "%d ghosts iterated", k);
  for (int t = 0; t < types; ++t) {
    if (t < first) { CK(g->numLocalEdges(t) == 0 && g->numGlobalEdges(t) == 0, "type %d is not empty", t); continue; }
    const int ne = nedges(hyper, t); std::vector<char> have(ne, 0); std::vector<int> deg(N, 0); long local_pins = 0, all_pins = 0; int edges = 0;
    for (int e = 0; e < ne; ++e) { pins(hyper, t, e, p); all_pins += p.size(); if (!on(hyper, p, pl, me)) continue; ++edges; local_pins += p.size(); have[e] = 1; if (hyper) for (int x : p) ++deg[x]; else ++deg[p[0]]; }
    CK(g->numGlobalEdges(t) == ne && g->numGlobalPins(t) == all_pins && g->numLocalEdges(t) == edges && g->numLocalPins(t) == local_pins, "type %d: %ld edges in all, %ld pins, %ld and %ld here; %d %ld %d %ld expected", t, (long)g->numGlobalEdges(t), (long)g->numGlobalPins(t), (long)g->numLocalEdges(t), (long)g->numLocalPins(t), ne, all_pins, edges, local_pins);
    agi::EdgeIterator* ei = g->begin(t); agi::GraphEdge* e; int n = 0;
    while ((e = g->iterate(ei))) {
      std::vector<int> got; agi::PinIterator* pi = g->pins(e); while ((v = g->iterate(pi))) { int x = vx(g->globalID(v)); CK(x >= 0 && seen[x], "type %d: pin %ld", t, (long)g->globalID(v)); got.push_back(x); } g->destroy(pi);
      int at = -1; if (hyper) at = (int)g->globalID(e); else { int a = got.size() == 2 ? got[0] : -9, b = got.size() == 2 ? got[1] : -9; at = t == 1 ? (a == 0 ? b - 1 : -1) : t == 2 ? (b == (a + 1) % N ? a : -1) : b == a + 1 ? 2 * a : a == b + 1 ? 2 * b + 1 : -1; }
      CK(at >= 0 && at < ne && have[at] == 1, "type %d: edge %d is unknown, twice or not of this part", t, at); have[at] = 2;
      pins(hyper, t, at, p); if (hyper) { std::sort(got.begin(), got.end()); std::sort(p.begin(), p.end()); }
      CK(got == p && g->degree(e) == (lid_t)p.size(), "type %d: edge %d has degree %ld and %zu pins, or others than %zu", t, at, (long)g->degree(e), got.size(), p.size());
      bool cut = false; for (int x : p) cut |= pl[x] != pl[p[0]];
      CK(g->weight(e) == wt(t, at) && g->localID(e) == n && g->isCut(e) == cut, "type %d: edge %d: weight %g local id %ld cut %d", t, at, g->weight(e), (long)g->localID(e), g->isCut(e)); ++n;
    }
    g->destroy(ei); CK(n == edges, "type %d: %d edges iterated", t, n);
    it = g->begin();
    while ((v = g->iterate(it))) {
      int x = vx(g->globalID(v)); CK(g->degree(v, t) == deg[x], "type %d: vertex %d has degree %ld, %d expected", t, x, (long)g->degree(v, t), deg[x]);
      agi::EdgeIterator* vi = g->edges(v, t); int c = 0; bool mine = true; while ((e = g->iterate(vi))) { ++c; if (hyper) mine &= have[g->globalID(e)] == 2; else mine &= g->u(e) == v; } g->destroy(vi); CK(c == deg[x] && mine, "type %d: vertex %d has %d edges, or others", t, x, c);
      if (x % 9001 == 0) { long want = 0; for (int i = 0; i < ne; ++i) { pins(hyper, t, i, p); if (hyper) { for (int y : p) if (y == x) want += p.size(); } else want += p[0] == x; if (t != 1 && i < ne - 1 && std::abs(i / (hyper ? 1 : 2) - x) > 3) continue; }
        agi::GraphIterator* gi = g->adjacent(v, t); long c2 = 0; while (g->iterate(gi)) ++c2; g->destroy(gi); CK(c2 == want, "type %d: vertex %d has %ld neighbours, %ld expected", t, x, c2, want); }
    }
  }
}
static void partition(agi::Ngraph* g, const Place_& orig, const Place_& now, const char* what) {
  const int me = PCU_Comm_Self(); agi::PartitionMap* m = g->getPartition(); size_t n = 0;
  for (int v = 0; v < N; ++v) if (orig[v] == me) { ++n; CK(m->count(id(v)) && (*m)[id(v)] == now[v], "the partition says %d of vertex %d, %d expected", m->count(id(v)) ? (int)(*m)[id(v)] : -1, v, now[v]); }
  CK(m->size() == n, "the partition has %zu vertices, %zu expected", m->size(), n); delete m;
}
static void move(agi::Ngraph* g, const Place_& from, const Place_& to) {
  agi::Migration* plan = new agi::Migration(g); const int me = PCU_Comm_Self();
  for (int v = 0; v < N; ++v) if (from[v] == me && to[v] != me) plan->insert(std::make_pair(g->findGID(id(v)), to[v]));
  g->migrate(plan);
}
static int icb(agi::Ngraph* g, agi::GraphVertex* v) { return (int)(g->globalID(v) % 1000003) ; }
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const int me = mc_rank(), types = PROP == 13 ? 1 : 2; Place_ a, b; for (int v = 0; v < N; ++v) { a.push_back(part(k.place, k.n, v)); b.push_back(part((k.place + 1 + k.n % 2) % 4, k.n, v)); }
  EnGPar_Initialize(-1);
  agi::Ngraph* g = NULL; std::string f = std::string(mc_scratch()) + "/h";
  if (PROP == 13) {
    if (!me) { FILE* o = fopen((f + ".ebin").c_str(), "wb"); std::vector<int> p; for (int e = 0; e < nedges(false, 0); ++e) { pins(false, 0, e, p); int32_t x[2] = {p[0], p[1]}; fwrite(x, 4, 2, o); } fclose(o); o = fopen((f + ".txt").c_str(), "w"); for (int x : a) fprintf(o, "%d\n", x); fclose(o); }
    mc_world_sync(); g = agi::createBinGraph((char*)(f + ".ebin").c_str(), (char*)(f + ".txt").c_str());
  } else g = make(k, a, types);
  if (PROP == 1 || PROP == 13) check(g, k.hyper, a, types, "the graph");
  if (PROP == 2 || PROP == 3 || PROP == 13) {
    g->setOriginalOwners(); move(g, a, b); if (PROP != 3) check(g, k.hyper, b, types, "the migrated graph"); else partition(g, a, b, "after a migration");
    if (PROP == 2) { move(g, b, a); check(g, k.hyper, a, types, "the graph migrated back"); }
    if (PROP == 3) { g->resetOwnership(); move(g, b, a); partition(g, b, a, "after a reset and another migration"); }
  }
  if (PROP == 7) {
    const char* what = "tags"; agi::GraphTag* ti = g->createIntTag(-1); agi::GraphTag* tl = g->createLongTag(1); agi::GraphTag* td = g->createDoubleTag(-1); agi::GraphVertex* v; agi::GraphEdge* e;
    agi::VertexIterator* it = g->begin(); while ((v = g->iterate(it))) { int x = vx(g->globalID(v)); g->setIntTag(ti, v, x * 2); g->setDoubleTag(td, v, x + 0.5); }
    agi::EdgeIterator* ei = g->begin(1); while ((e = g->iterate(ei))) g->setLongTag(tl, e, (1L << 40) + g->localID(e)); g->destroy(ei);
    it = g->begin(); while ((v = g->iterate(it))) { int x = vx(g->globalID(v)); CK(g->getIntTag(ti, v) == x * 2 && g->getDoubleTag(td, v) == x + 0.5, "vertex %d: %d %g", x, g->getIntTag(ti, v), g->getDoubleTag(td, v)); }
    ei = g->begin(1); while ((e = g->iterate(ei))) CK(g->getLongTag(tl, e) == (1L << 40) + g->localID(e), "edge %ld: %ld", (long)g->localID(e), g->getLongTag(tl, e)); g->destroy(ei);
    if (k.n > 1) { agi::GraphTag* tg = g->createIntGhostTag(icb); agi::GhostIterator* gt = g->beginGhosts(); while ((v = g->iterate(gt))) CK(g->getIntTag(tg, v) == (int)(g->globalID(v) % 1000003), "ghost %ld: %d", (long)g->globalID(v), g->getIntTag(tg, v)); g->destroyTag(tg); }
    g->destroyTag(ti); g->destroyTag(tl); g->destroyTag(td);
  }
  if (PROP == 11) {
    g->saveToFile(f.c_str()); check(g, k.hyper, a, types, "the saved graph"); agi::destroyGraph(g); g = agi::createEmptyGraph(); g->loadFromFile(f.c_str());
    check(g, k.hyper, a, types, "the loaded graph"); mc_world_sync(); unlink((f + fmt("_%d.bgd", me)).c_str());
  }
  if (PROP == 18) { std::unordered_map<Gid, part_t> own; add_edges(g, k.hyper, 2, a, k.api, own);
    { std::vector<int> p; for (int t = 0; t < 2; ++t) for (int e = 0; e < nedges(k.hyper, t); ++e) { pins(k.hyper, t, e, p); if (on(k.hyper, p, a, me)) for (int x : p) if (a[x] != me) own[id(x)] = a[x]; } }
    g->constructGhosts(own); check(g, k.hyper, a, 3, "after adding a type"); g->removeEdges(0);

    g->setOriginalOwners(); move(g, a, b); check(g, k.hyper, b, 3, "after adding and removing types and a migration", 1); }
  if (!me) { mc_transition(N); mc_state(hmix(c, PROP)); }
  agi::destroyGraph(g);
  EnGPar_Finalize();
}
MCH_ENTRY void mch_judge(u64, int, const mc_blob* const*, const int*) { mc_trace_validated(); }
