// C18: edge types can be added and removed without disturbing the rest.
// Every history of up to D operations {remove type t, add a type, migrate to a placement, balance}.
#include "refgraph.h"
#include <engpar.h>
#include <engpar_diffusive_input.h>

enum { REM, ADD, MIG, BAL };
struct Op { int kind, arg; };
struct Case { int ref, n, pol, from, api, log, len; Op op[8]; };
static std::vector<Ref> R;
static std::vector<Case> C;
static Places P;
static EL extra_type(const Ref& r, int k) {
  int n = r.nv();
  if (k == 0) return r.hyper ? EL{{0, n - 1}, {1}} : EL{{0, n - 1}, {n - 1, 0}};
  return r.hyper ? EL{{0, 1, 2}} : EL{{1, 2}, {2, 1}, {1, 1}};
}
MCH_ENTRY const char* mch_property() { return "C18"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear();
  unsigned cyc = 0;
  auto add = [&](const Ref& r, int n, int depth, int mstride, int astride, int pol) {
    R.push_back(r);
    auto& PP = P[r.nv()][n]; int K = (int)PP.size();
    for (int a = 0; a < K; ++a) {
      if ((a + (int)R.size()) % astride) continue;
      Case k; k.ref = (int)R.size() - 1; k.n = n; k.pol = pol; k.from = a;
      std::function<void(int, int)> rec = [&](int d, int T) {
        if (d) { k.len = d; if (d == depth || k.op[d - 1].kind == REM) { k.api = cyc % 2; k.log = (cyc / 2) % 5 == 0; ++cyc; if (d == depth) C.push_back(k); } }
        if (d == depth) return;
        for (int t = 0; t < T; ++t) { k.op[d] = {REM, t}; rec(d + 1, t == T - 1 ? T - 1 : T); }
        for (int x = 0; x < 2; ++x) if (T < 4) { k.op[d] = {ADD, x}; rec(d + 1, T + 1); }
        for (int m = 0; m < K; ++m) if ((m + a + d) % mstride == 0) { k.op[d] = {MIG, m}; rec(d + 1, T); }
        if (T && n > 1) { k.op[d] = {BAL, 0}; rec(d + 1, T); }
      };
      rec(0, (int)r.types.size());
    }
  };
  const int B = MC_POL_RTB;
  std::vector<Ref> rs;
  rs.push_back(mkref("h1", true, 3, {EL{{0, 1}, {1, 2}}}, 1));
  rs.push_back(mkref("h2", true, 3, {EL{{0, 1}, {1, 2}}, EL{{0, 1, 2}, {2}}}, 1));
  rs.push_back(mkref("h3", true, 3, {EL{{0, 2}}, EL{{0, 1}, {0, 1, 2}}, EL{{1, 2}, {0}}}, 1));
  rs.push_back(mkref("d1", false, 3, {both(chain(3))}, 1));
  rs.push_back(mkref("d2", false, 3, {both(chain(3)), EL{{2, 0}, {0, 2}, {1, 1}}}, 1));
  rs.push_back(mkref("d3", false, 3, {EL{{0, 2}, {2, 0}}, both(chain(3)), EL{{1, 1}, {1, 2}, {2, 1}}}, 1));
#ifdef SMALL
  for (auto& r : rs) { add(r, 1, 2, 1, 1, B); add(r, 2, 2, 3, 3, B); }
  return C.size();
#endif
  for (auto& r : rs) {
    add(r, 1, 3, 1, 1, B);
    add(r, 2, 3, th ? 1 : 2, 1, B);
    add(r, 3, 2, th ? 1 : 2, th ? 1 : 2, B | MC_POL_HOLD);
    if (th) { add(r, 2, 4, 3, 1, B); add(r, 3, 3, 5, 2, B); }
  }
  for (auto r : curated(1)) { r.coords = true; add(r, 2, 2, th ? 1 : 3, th ? 1 : 2, B); }
  // beyond the sizes, rank counts and lengths of history of the others
  auto big = [&](const Ref& r, std::initializer_list<int> ns, int count, int len) {
    R.push_back(r);
    for (int n : ns) for (int i = 0; i < count; ++i) {
      int K = (int)P[r.nv()][n].size(); u64 h = hmix(hmix(47, C.size()), n);
      Case k; k.ref = (int)R.size() - 1; k.n = n; k.pol = B; k.from = (int)(h % K); k.api = h / K % 2; k.log = h / K / 2 % 5 == 0; k.len = len;
      int T = (int)r.types.size();
      for (int d = 0; d < len; ++d) {
        u64 x = hmix(h, d); int kind = (int)(x % 8);
        if (kind < 2 && T > 1) { int t = (int)(x / 8 % T); k.op[d] = {REM, t}; if (t == T - 1) --T; }
        else if (kind < 4 && T < 6) { k.op[d] = {ADD, (int)(x / 8 % 2)}; ++T; }
        else if (kind == 4 && n > 1 && T) k.op[d] = {BAL, 0};
        else k.op[d] = {MIG, (int)(x / 8 % K)};
      }
      C.push_back(k);
    }
  };
  for (int ids = 0; ids < 3; ++ids) { for (auto r : larger(ids)) { r.coords = ids == 2; big(r, {1, 2, 3}, th ? 20 : 6, 4); } for (auto& r : spread(ids)) big(r, {5, 9, 10, 13, 17}, th ? 20 : 6, 5); for (auto& r : curated(ids)) big(r, {2, 3}, th ? 60 : 20, 7); }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = 0; p->policies = C[c].pol; p->shards = 1; }
static std::string ostr(const Case& k, const Op& o) {
  if (o.kind == REM) return fmt("remove type %d", o.arg);
  if (o.kind == ADD) return fmt("add type %d", o.arg);
  if (o.kind == MIG) return "migrate to " + pstr(P[R[k.ref].nv()][k.n][o.arg]);
  return "balance";
}
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c];
  std::string s = R[k.ref].str() + fmt(" on %d ranks, vertices on %s%s", k.n, pstr(P[R[k.ref].nv()][k.n][k.from]).c_str(), k.log ? ", log open" : "");
  for (int i = 0; i < k.len; ++i) s += ", " + ostr(k, k.op[i]);
  snprintf(b, n, "%s", s.c_str());
}
static std::set<int> ghosts_of(const Ref& r, const Place& pl, int rank) {
  std::set<int> s;
  for (auto& t : r.types) for (auto& e : t) if (r.edge_on(e, pl, rank)) for (int p : e.pins) if (pl[p] != rank) s.insert(p);
  return s;
}
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; Ref r = R[k.ref]; auto& PP = P[r.nv()][k.n];
  EnGPar_Initialize(-1);
  const int me = PCU_Comm_Self();
  if (k.log) EnGPar_Open_Log();
  BuildOpt bo; bo.api = k.api;
  agi::Ngraph* g = build(r, PP[k.from], bo);
  Place cur = PP[k.from], orig; 
  std::set<int> ghosts = ghosts_of(r, cur, me);
  for (int i = 0; i < k.len; ++i) {
    const Op& op = k.op[i];
    std::string what = "after " + ostr(k, op);
    // tags that have to survive adding and removing types
    int T = (int)r.types.size();
    agi::GraphTag* vt = g->createLongTag(); std::vector<agi::GraphTag*> et;
    { agi::VertexIterator* it = g->begin(); agi::GraphVertex* v; while ((v = g->iterate(it))) g->setLongTag(vt, v, 1000 + g->globalID(v)); }
    for (int t = 0; t < T; ++t) {
      et.push_back(g->createDoubleTag(t));
      agi::EdgeIterator* it = g->begin(t); agi::GraphEdge* e; int x = 0;
      while ((e = g->iterate(it))) g->setDoubleTag(et[t], e, 10 * t + 0.5 * x++);
      g->destroy(it);
    }
    if (op.kind == REM) {
      g->removeEdges(op.arg);
      if (op.arg == T - 1) r.types.pop_back(); else r.types[op.arg].clear();
    } else if (op.kind == ADD) {
      add_type(r, extra_type(r, op.arg), 1);
      auto& es = r.types.back();
      std::vector<Gid> ids, pins; std::vector<lid_t> degs; std::vector<wgt_t> w;
      for (auto& e : es) if (r.edge_on(e, cur, me)) { ids.push_back(e.id); degs.push_back((lid_t)e.pins.size()); w.push_back(e.w); for (int p : e.pins) pins.push_back(r.gid[p]); }
      w.reserve(1);
      etype t = k.api ? g->constructEdges((Gid)ids.size(), ids.data(), degs.data(), pins.data(), w.data()) : g->constructEdges(ids, degs, pins, w);
      if (t != T) mc_fail("%s: constructEdges returned type %d, %d expected", what.c_str(), t, T);
      for (int x : ghosts_of(r, cur, me)) ghosts.insert(x);
      std::unordered_map<Gid, part_t> own; std::vector<Gid> gg; std::vector<part_t> go;
      for (int x = 0; x < r.nv(); ++x) if (ghosts.count(x) || hmix(c, i * 8 + me) % 3 == 0) { own[r.gid[x]] = cur[x]; gg.push_back(r.gid[x]); go.push_back(cur[x]); }
      if (k.api) g->constructGhosts((lid_t)gg.size(), gg.data(), go.data()); else g->constructGhosts(own);
    }
    if (op.kind == REM || op.kind == ADD) {
      agi::VertexIterator* it = g->begin(); agi::GraphVertex* v;
      while ((v = g->iterate(it))) if (g->getLongTag(vt, v) != 1000 + g->globalID(v)) mc_fail("%s: tag of vertex %ld is %ld", what.c_str(), (long)g->globalID(v), g->getLongTag(vt, v));
      for (int t = 0; t < T; ++t) if (op.kind == ADD || t != op.arg) {
        agi::EdgeIterator* it = g->begin(t); agi::GraphEdge* e; int x = 0;
        while ((e = g->iterate(it))) { double d = g->getDoubleTag(et[t], e); if (d != 10 * t + 0.5 * x) mc_fail("%s: tag of edge %d of type %d is %g", what.c_str(), x, t, d); ++x; }
        g->destroy(it);
      }
    }
    g->destroyTag(vt); for (auto t : et) g->destroyTag(t);
    if (op.kind == MIG) {
      const Place& to = PP[op.arg];
      agi::Migration* plan = new agi::Migration(g);
      for (int v = 0; v < r.nv(); ++v) if (cur[v] == me && to[v] != me) plan->insert(std::make_pair(g->findGID(r.gid[v]), to[v]));
      g->setOriginalOwners(); if (orig.empty()) orig = cur;
      g->migrate(plan); cur = to; ghosts = ghosts_of(r, cur, me);
    } else if (op.kind == BAL) {
      int t = 0; while (t + 1 < T && r.types[t].empty()) ++t;
      if (orig.empty()) orig = cur;
      engpar::DiffusiveInput* in = static_cast<engpar::DiffusiveInput*>(engpar::createDiffusiveInput(g, 0.5));
      in->addPriority(-1, 1.05); if (!r.types[t].empty()) in->addPriority(t, 1.1);
      in->sides_edge_type = in->selection_edge_type = t; in->maxIterations = 3; in->useDistanceQueue = i & 1;
      engpar::balance(in, -1);
      Place now = observe_place(g, r, what.c_str());
      // without a migration the ghosts are still the old ones
      if (now != cur) ghosts = ghosts_of(r, now, me);
      else if (g->numGhostVtxs() == (lid_t)ghosts_of(r, now, me).size()) ghosts = ghosts_of(r, now, me);
      cur = now;
    }
    if (!mc_rank()) { mc_transition(1); mc_state(hmix(gstate(r, cur, k.n), i)); }
    CheckOpt co; co.what = what.c_str(); co.ghosts = &ghosts; if (orig.size()) co.orig = &orig;
    check_graph(g, r, cur, co);
  }
  agi::destroyGraph(g);
  if (k.log) EnGPar_Close_Log();
  EnGPar_Finalize();
}
MCH_ENTRY void mch_judge(u64, int, const mc_blob* const*, const int*) { mc_trace_validated(); }
