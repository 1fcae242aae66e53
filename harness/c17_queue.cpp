// C17: the boundary queue holds every part-boundary edge exactly once, ordered by distance.
#include "balance.h"
#include "Diffusive/src/engpar_queue.h"
struct Case { int ref, n, pol, place, type, migr; };
static std::vector<Ref> R; static std::vector<Case> C; static std::map<int, std::map<int, std::vector<Place>>> P;
MCH_ENTRY const char* mch_property() { return "C17"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear(); P.clear(); for (int v = 0; v <= (th ? 11 : 9); ++v) for (int n = 1; n <= 4; ++n) if (v < 7 || n == 2) P[v][n] = placements(v, n);
  unsigned cyc = 0;
  auto add = [&](const Ref& r, int n, int stride = 1) {
    R.push_back(r); auto& PP = P[r.nv()][n];
    for (int a = 0; a < (int)PP.size(); ++a) for (int t = 0; t < (int)r.types.size(); ++t) if (cyc++ % stride == 0) C.push_back({(int)R.size() - 1, n, MC_POL_RTB, a, t, (cyc / stride) % 5 ? -1 : (int)(cyc / 5 % PP.size())});
  };
  for (int v = 1; v <= 3; ++v) for (auto& e : all_hyper(v, 3)) for (int n = 1; n <= 3; ++n) add(mkref("all", true, v, {e}, cyc % 2), n);
  for (auto& e : all_hyper(4, 3)) { add(mkref("all", true, 4, {e}, cyc % 2), 2, th ? 1 : 2); if (th) add(mkref("all", true, 4, {e}, cyc % 2), 3, 5); }
  for (int v = 2; v <= 3; ++v) for (auto& e : all_digraphs(v, true)) for (int n = 1; n <= 3; ++n) add(mkref("all", false, v, {e}, cyc % 2), n, th ? 1 : 2);
  for (int ids = 0; ids < 2; ++ids) for (auto& g : curated(ids)) for (int n = 1; n <= 4; ++n) add(g, n);
  for (auto& e : all_hyper(3, 2)) for (auto& f : all_hyper(3, 2)) add(mkref("pair", true, 3, {e, f}, cyc % 2), 2, th ? 1 : 3);
  for (int nv = 6; nv <= (th ? 11 : 9); ++nv) {
    EL split = chain(nv); split.erase(split.begin() + nv / 2); EL two = tri(nv); for (auto& e : chain(nv)) two.push_back(e);
    for (auto& e : {chain(nv), cycle(nv), tri(nv), split, star(nv), two}) { add(mkref("long", true, nv, {e}, nv % 2), 2); if (nv == 6) add(mkref("long", true, nv, {e}, nv % 2), 3); }
    add(mkref("long", true, nv, {chain(nv), tri(nv)}, 1), 2);
    if (nv % 3 == 0) { add(mkref("grid", true, nv, {grid(3, nv / 3)}), 2); add(mkref("grid", true, nv, {grid(3, nv / 3), star(nv)}), 2); }
    add(mkref("both", false, nv, {both(chain(nv)), both(cycle(4))}), 2);
  }
  // beyond the sizes and rank counts of the others
  auto big = [&](const Ref& r, std::initializer_list<int> ns) { for (int n : ns) { auto& PP = P[r.nv()][n]; if (PP.empty()) { PP = places(r.nv(), n); if (PP.size() > 10) PP.resize(10); } if (PP.size() < 11) add(r, n); } };
  for (int ids = 0; ids < 2; ++ids) {
    for (auto& r : larger(ids)) if (r.nv() > 6) big(r, {2, 3}); for (auto& r : spread(ids)) big(r, {5, 9, 10, 17});
    EL split = chain(300); split.erase(split.begin() + 200); split.erase(split.begin() + 100); split.erase(split.begin() + 7);
    big(mkref("large", true, 300, {split, grid(15, 20), gridnodes(15, 20), cycle(300)}, ids), {2, 3, 4});
  }
  // hundreds of disconnected pieces of different lengths and depths on a part
  for (int ids = 0; ids < 2; ++ids) { EL many; int v = 0; for (int i = 0; v + 2 < 900; ++i) { int len = 2 + (i * 7 % 5) + (i % 40 == 3 ? 9 : 0); for (int j = 0; j + 1 < len && v + j + 1 < 900; ++j) many.push_back({v + j, v + j + 1}); if (i % 3 == 0 && v + 2 < 900) many.push_back({v, v + 1, v + 2}); v += len; }
    Ref r = mkref("pieces", true, 900, {many}, ids); for (int n : {2, 3}) { auto& PP = P[900][n]; if (PP.empty()) { PP = places(900, n); if (PP.size() > 10) PP.resize(10); Place q; for (int x = 0; x < 900; ++x) q.push_back(x % 17 == 3 ? 1 : x % 23 == 5 ? n - 1 : 0); PP.push_back(q); } add(r, n); } }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = 0; p->policies = C[c].pol; p->shards = 1; }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; std::string s = R[k.ref].str() + ", vertices on " + pstr(P[R[k.ref].nv()][k.n][k.place]) + fmt(", type %d", k.type);
  if (k.migr >= 0) s += " (migrated from " + pstr(P[R[k.ref].nv()][k.n][k.migr]) + ")";
  snprintf(b, n, "%s", s.c_str());
}
static std::string ekey(agi::Ngraph* g, agi::GraphEdge* e, const Ref& r) {
  if (g->isHyper()) return fmt("id %ld", (long)g->globalID(e));
  return fmt("(%d,%d;%g)", vindex(r, g->globalID(g->u(e))), vindex(r, g->globalID(g->v(e))), g->weight(e));
}
static std::string ekey(const Ref& r, const Edge& e) { return r.hyper ? fmt("id %ld", (long)e.id) : fmt("(%d,%d;%g)", e.pins[0], e.pins[1], r.ew(e)); }
static std::string list(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += " " + x; return s; }
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const Ref& r = R[k.ref]; auto& PP = P[r.nv()][k.n]; const Place& p = PP[k.place]; const int me = mc_rank(), t = k.type;
  EnGPar_Initialize(-1);
  BuildOpt o; o.reversed = k.place & 1;
  agi::Ngraph* g = build(r, k.migr >= 0 ? PP[k.migr] : p, o);
  if (k.migr >= 0) {
    g->setOriginalOwners(); agi::Migration* plan = new agi::Migration(g);
    for (int v = 0; v < r.nv(); ++v) if (PP[k.migr][v] == me) plan->insert(std::make_pair(g->findGID(r.gid[v]), p[v]));
    g->migrate(plan);
  }
  // the boundary, and for hypergraphs the components of the part with their depth, size and distances
  std::vector<const Edge*> E; for (auto& e : r.types[t]) if (r.edge_on(e, p, me)) E.push_back(&e);
  const int ne = (int)E.size(); std::vector<bool> cut(ne, false); std::vector<std::vector<int>> adj(ne); std::vector<std::string> key(ne);
  std::vector<std::string> want;
  for (int i = 0; i < ne; ++i) { key[i] = ekey(r, *E[i]); for (int x : E[i]->pins) if (p[x] != me) cut[i] = true; if (cut[i]) want.push_back(key[i]); for (int j = 0; j < ne; ++j) { bool s = false; for (int x : E[i]->pins) if (p[x] == me) for (int y : E[j]->pins) s |= x == y; if (s && i != j) adj[i].push_back(j); } }
  std::sort(want.begin(), want.end());
  auto bfs = [&](const std::vector<int>& from) { std::vector<int> d(ne, -1), q = from; for (int x : from) d[x] = 0; for (size_t h = 0; h < q.size(); ++h) for (int y : adj[q[h]]) if (d[y] < 0) { d[y] = d[q[h]] + 1; q.push_back(y); } return d; };
  std::vector<int> bound; for (int i = 0; i < ne; ++i) if (cut[i]) bound.push_back(i);
  std::vector<int> depth = bfs(bound), comp(ne, -1), cd, cs, centres; int nc = 0;
  for (int i = 0; i < ne; ++i) if (comp[i] < 0) { auto d = bfs({i}); int m = -1, s = 0; for (int j = 0; j < ne; ++j) if (d[j] >= 0) { comp[j] = nc; m = std::max(m, depth[j]); ++s; } cd.push_back(m); cs.push_back(s); for (int j = 0; j < ne; ++j) if (d[j] >= 0 && depth[j] == m && m >= 0) centres.push_back(j); ++nc; }
  std::vector<int> dist = bfs(centres);
  for (int way = 0; way < 3; ++way) {
    const char* W[] = {"iteration queue", "distance queue (push)", "distance queue (pull)"};
    engpar::Queue* q;
    if (way == 0) q = engpar::createIterationQueue(g, t);
    else { engpar::DiffusiveInput* in = engpar::createDiffusiveInput(g, 0.1); in->selection_edge_type = t; in->bfsPush = way == 1; q = engpar::createDistanceQueue(in); delete in; }
    q->startIteration();
    std::vector<std::string> got; for (engpar::Queue::iterator i = q->begin(); i != q->end(); ++i) got.push_back(ekey(g, q->get(i), r));
    std::vector<std::string> sorted = got; std::sort(sorted.begin(), sorted.end());
    if (sorted != want) mc_fail("rank %d: the %s holds%s, the boundary is%s", me, W[way], list(got).c_str(), list(want).c_str());
    if ((size_t)q->size() != want.size()) mc_fail("rank %d: the %s has size %d", me, W[way], (int)q->size());
    if (way && r.hyper) { // shallow components first, then small ones, and the far side of a component before the near one
      int prev = -1; std::set<int> closed;
      for (auto& s : got) {
        int e = (int)(std::find(key.begin(), key.end(), s) - key.begin());
        if (prev >= 0) {
          int a = comp[prev], b = comp[e];
          if (a == b) { if (dist[prev] < dist[e]) mc_fail("rank %d: the %s is%s: %s (distance %d) comes before %s (distance %d)", me, W[way], list(got).c_str(), key[prev].c_str(), dist[prev], key[e].c_str(), dist[e]); }
          else {
            closed.insert(a); if (closed.count(b)) mc_fail("rank %d: the %s is%s: it mixes disconnected pieces", me, W[way], list(got).c_str());
            if (cd[a] > cd[b] || (cd[a] == cd[b] && cs[a] > cs[b])) mc_fail("rank %d: the %s is%s: the piece of %s (depth %d, %d edges) comes before that of %s (depth %d, %d edges)", me, W[way], list(got).c_str(), key[prev].c_str(), cd[a], cs[a], key[e].c_str(), cd[b], cs[b]);
          }
        }
        prev = e;
      }
    }
    // a shrinking sequence of passes: what a pass adds is what the next one visits, in that order
    if (got.size() <= 3 && k.n == 2 && r.nv() == 3 && k.migr < 0 && me == (int)(c % 2) && way == (int)(c / 2 % 3)) {
      std::vector<std::string> cur = got;
      for (int pass = 0; pass < 2 && !cur.empty(); ++pass) {
        int keep = mc_choose(1 << cur.size(), "kept edges"); std::vector<std::string> nx;
        for (size_t i = 0; i < cur.size(); ++i) if (keep >> i & 1) { q->addElement(q->get((int)i)); nx.push_back(cur[i]); }
        for (size_t i = 0; i < cur.size(); ++i) if (ekey(g, (*q)[(int)i], r) != cur[i]) mc_fail("rank %d: adding to the %s changed the current pass", me, W[way]);
        q->startIteration();
        std::vector<std::string> now; for (engpar::Queue::iterator i = q->begin(); i != q->end(); ++i) now.push_back(ekey(g, q->get(i), r));
        if (now != nx) mc_fail("rank %d: after a pass of the %s that kept%s it holds%s", me, W[way], list(nx).c_str(), list(now).c_str());
        cur = nx; mc_transition(1);
      }
    }
    delete q;
  }
  if (!me) mc_state(hmix(gstate(r, p, t), k.migr));
  agi::destroyGraph(g);
  EnGPar_Finalize();
}
MCH_ENTRY void mch_judge(u64, int, const mc_blob* const*, const int*) { mc_trace_validated(); }
