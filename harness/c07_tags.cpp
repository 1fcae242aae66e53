// C07: tag values are exactly the last ones set, and ghosts see their owner's.
#include "refgraph.h"
#include <climits>
#include <cmath>
#include <cstring>
#ifdef SMALL
static const int small = 1;
#else
static const int small = 0;
#endif
enum { CREATE, SET, DESTROY, GHOST };
// CREATE: kind a, target b-1; SET: slot a, entity b (0 first, 1 last); DESTROY: slot a; GHOST: kind a
struct Op { int op, a, b; };
struct Case { int ref, n, dev, pol, pl; std::vector<Op> ops; };
static std::vector<Ref> R;
static std::vector<Case> C;
static Places P;
MCH_ENTRY const char* mch_property() { return "C07"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear();
  auto add = [&](const Ref& r, int n, const std::vector<int>& pls, int depth, bool ghosts) {
    R.push_back(r);
    for (int pl : pls) {
      std::vector<Op> ops; int T = (int)r.types.size();
      std::function<void(std::vector<int>)> rec = [&](std::vector<int> live) {   // live[slot]: -1 free, 100 ghost tag, else target+1
        if ((int)ops.size() == depth) { C.push_back({(int)R.size() - 1, n, 0, MC_POL_RTB, pl, ops}); return; }
        int fr = -1; for (int s = 0; s < 3; ++s) if (live[s] < 0) { fr = s; break; }
        auto go = [&](Op o, std::vector<int> l) { ops.push_back(o); rec(l); ops.pop_back(); };
        if (fr >= 0) {
          auto l = live;
          for (int k = 0; k < 3; ++k) for (int t = 0; t <= T; ++t) { l[fr] = t; go({CREATE, k, t}, l); }
          if (ghosts) for (int k = 0; k < 3; ++k) { l[fr] = 100; go({GHOST, k, 0}, l); }
        }
        for (int s = 0; s < 3; ++s) if (live[s] >= 0) {
          if (live[s] < 100) for (int e = 0; e < 2; ++e) go({SET, s, e}, live);
          auto l = live; l[s] = -1; go({DESTROY, s, 0}, l);
        }
      };
      rec({-1, -1, -1});
    }
  };
  Ref h2 = mkref("h", true, 3, {EL{{0, 1}, {1, 2}, {0, 2}}, EL{{0, 1, 2}, {1, 2}}}, 1);
  Ref d2 = mkref("d", false, 3, {EL{{0, 1}, {1, 0}, {1, 2}}, EL{{2, 0}, {1, 0}}}, 0);
  std::vector<int> all2, some2 = {2, 5}, all3; for (int i = 0; i < 8; ++i) all2.push_back(i); for (int i = 0; i < 27; ++i) all3.push_back(i);
  if (small) {
    add(h2, 2, {2}, 3, true); add(d2, 2, {2}, 3, false); add(h2, 1, {0}, 3, false);
    add(h2, 3, all3, 1, true); add(d2, 2, all2, 1, true);
    return C.size();
  }
  add(h2, 1, {0}, th ? 5 : 4, false); add(d2, 1, {0}, 4, false);
  add(h2, 2, {2}, th ? 5 : 4, true); add(d2, 2, {2}, 4, true);
  add(h2, 2, all2, 3, true); add(d2, 2, all2, th ? 4 : 3, true);
  add(h2, 3, all3, 2, true); add(d2, 3, all3, 2, true);
  // ghost tags on every small graph and distribution
  for (auto& e : all_hyper(3, th ? 3 : 2)) { add(mkref("gh", true, 3, {e}), 3, all3, 1, true); add(mkref("gh", true, 3, {e}), 2, all2, 1, true); }
  for (auto& e : all_digraphs(3, th)) { add(mkref("gd", false, 3, {e}), 3, all3, 1, true); add(mkref("gd", false, 3, {e}), 2, all2, 1, true); }
  size_t from = C.size();
  add(mkref("sched", true, 3, {EL{{0, 1, 2}}}), 3, {5}, 2, true);
  for (size_t i = from; i < C.size(); ++i) C[i].pol = MC_POL_ALL;
  from = C.size();
  add(mkref("sched", true, 2, {EL{{0, 1}}}), 2, {1}, 1, true);
  for (size_t i = from; i < C.size(); ++i) { C[i].pol = MC_POL_RTB | MC_POL_HOLD; C[i].dev = 1; }
  // beyond the sizes and rank counts of the others: tags of every kind on everything, at once
  auto big = [&](const Ref& r, std::initializer_list<int> ns) {
    R.push_back(r); int T = (int)r.types.size();
    for (int n : ns) { int K = (int)P[r.nv()][n].size(); for (int pl = 0; pl < K; ++pl) {
      if (K > 10 && hmix(hmix(31, C.size()), pl) % (K / 8)) continue;
      u64 h = hmix(hmix(37, C.size()), pl); std::vector<Op> ops;
      for (int i = 0; i < 9; ++i) { u64 x = hmix(h, i); ops.push_back(x % 3 == 0 ? Op{GHOST, (int)(x / 8 % 3), 0} : Op{CREATE, (int)(x / 8 % 3), (int)(x / 64 % (T + 1))}); }
      std::vector<int> ghost; for (auto& o : ops) ghost.push_back(o.op == GHOST);
      for (int i = 0; i < 3; ++i) { int s = (int)(hmix(h, 50 + i) % 9); if (!ghost[s]) ops.push_back({SET, s, i & 1}); }
      int s = (int)(h / 7 % 9); ops.push_back({DESTROY, s, 0}); ops.push_back({GHOST, (int)(h / 77 % 3), 0});
      C.push_back({(int)R.size() - 1, n, 0, MC_POL_RTB, pl, ops});
    } }
  };
  for (int ids = 0; ids < 3; ++ids) { for (auto& r : larger(ids)) big(r, {1, 2, 3}); for (auto& r : spread(ids)) big(r, {4, 7, 9, 10, 17}); for (auto& r : curated(ids)) big(r, {1, 2, 3}); }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = C[c].dev; p->policies = C[c].pol; p->shards = 1; }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  static const char* K[] = {"int", "double", "long"};
  Case& k = C[c]; const Ref& r = R[k.ref];
  std::string s = r.str() + fmt(" on %d ranks, vertices on %s:", k.n, pstr(P[r.nv()][k.n][k.pl]).c_str());
  for (auto& o : k.ops) s += o.op == CREATE ? fmt(" create %s tag on %s;", K[o.a], o.b ? fmt("edge type %d", o.b - 1).c_str() : "vertices") : o.op == SET ? fmt(" set tag %d on %s entity;", o.a, o.b ? "last" : "first") : o.op == DESTROY ? fmt(" destroy tag %d;", o.a) : fmt(" create %s ghost tag;", K[o.a]);
  snprintf(b, n, "%s", s.c_str());
}
static double dspecial(int i) { static const double D[] = {-0.0, NAN, INFINITY, 4.9e-324, -1.7976931348623157e308, 1 / 3.0}; return D[(unsigned)i % 6]; }
static int ispecial(int i) { static const int I[] = {INT_MIN, INT_MAX, -1, 0}; return I[(unsigned)i % 4]; }
static long lspecial(int i) { static const long L[] = {LONG_MIN, LONG_MAX, -1, 0, 1L << 31, -(1L << 31) - 1}; return L[(unsigned)i % 6]; }
static bool bits(double a, double b) { return !memcmp(&a, &b, 8); }
static std::set<Gid>* called; static int calls; static int salt;
static bool odd(Gid g) { return (g + salt) % 4 == 1; }
static long lval(Gid g) { if (odd(g)) return lspecial((int)(g / 4 + salt)); return ((long)g + 3) * 0x100000001L * (g % 2 ? 1 : -1) + salt; }
static double dval(Gid g) { if (odd(g)) return dspecial((int)(g / 4 + salt)); return 0.1 * (double)(g + 1) + salt; }
static int ival(Gid g) { if (odd(g)) return ispecial((int)(g / 4 + salt)); return (int)(g % 1000000) * (g % 2 ? -3 : 5) + salt; }
static Gid own(agi::Ngraph* g, agi::GraphVertex* v) {
  if (g->localID(v) < 0 || g->localID(v) >= g->numLocalVtxs()) mc_fail("rank %d: the ghost tag callback was called for a vertex that is not local", mc_rank());
  ++calls; return g->globalID(v);
}
static int icb(agi::Ngraph* g, agi::GraphVertex* v) { return ival(own(g, v)); }
static double dcb(agi::Ngraph* g, agi::GraphVertex* v) { return dval(own(g, v)); }
static long lcb(agi::Ngraph* g, agi::GraphVertex* v) { return lval(own(g, v)); }
struct Tag { agi::GraphTag* t = NULL; int kind = 0, target = 0, salt = 0; std::map<int, long> i; std::map<int, double> d; };  // target 0 vertices, t+1, 100 ghosts
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const Ref& r = R[k.ref]; const Place& pl = P[r.nv()][k.n][k.pl];
  EnGPar_Initialize(-1);
  agi::Ngraph* g = build(r, pl);
  std::vector<agi::GraphVertex*> vs, gh; std::vector<std::vector<agi::GraphEdge*>> es(r.types.size());
  { agi::VertexIterator* it = g->begin(); agi::GraphVertex* v; while ((v = g->iterate(it))) vs.push_back(v); }
  { agi::GhostIterator* it = g->beginGhosts(); agi::GraphVertex* v; while ((v = g->iterate(it))) gh.push_back(v); }
  for (size_t t = 0; t < es.size(); ++t) { agi::EdgeIterator* it = g->begin((etype)t); agi::GraphEdge* e; while ((e = g->iterate(it))) es[t].push_back(e); g->destroy(it); }
  std::vector<Tag> T(12); int stamp = 0; u64 st = 5;
  auto check = [&](int at) {
    for (int s = 0; s < 12; ++s) {
      Tag& t = T[s]; if (!t.t) continue;
      if (t.target == 100) {
        salt = t.salt;
        for (auto v : gh) {
          Gid id = g->globalID(v);
          if (t.kind == 0 && g->getIntTag(t.t, v) != ival(id)) mc_fail("after step %d rank %d: int ghost tag of %ld is %d instead of %d", at, mc_rank(), (long)id, g->getIntTag(t.t, v), ival(id));
          if (t.kind == 1 && !bits(g->getDoubleTag(t.t, v), dval(id))) mc_fail("after step %d rank %d: double ghost tag of %ld is %g instead of %g", at, mc_rank(), (long)id, g->getDoubleTag(t.t, v), dval(id));
          if (t.kind == 2 && g->getLongTag(t.t, v) != lval(id)) mc_fail("after step %d rank %d: long ghost tag of %ld is %ld instead of %ld", at, mc_rank(), (long)id, g->getLongTag(t.t, v), lval(id));
        }
        continue;
      }
      for (auto& x : t.i) {
        long got = t.target ? (t.kind == 0 ? g->getIntTag(t.t, es[t.target - 1][x.first]) : g->getLongTag(t.t, es[t.target - 1][x.first])) : (t.kind == 0 ? g->getIntTag(t.t, vs[x.first]) : g->getLongTag(t.t, vs[x.first]));
        if (got != x.second) mc_fail("after step %d rank %d: tag %d of entity %d is %ld instead of %ld", at, mc_rank(), s, x.first, got, x.second);
      }
      for (auto& x : t.d) {
        double got = t.target ? g->getDoubleTag(t.t, es[t.target - 1][x.first]) : g->getDoubleTag(t.t, vs[x.first]);
        if (!bits(got, x.second)) mc_fail("after step %d rank %d: tag %d of entity %d is %g instead of %g", at, mc_rank(), s, x.first, got, x.second);
      }
    }
    // the vertex weights that ghosts see are kept in a tag of the library's own
    for (auto v : gh) { int x = vindex(r, g->globalID(v)); if (g->weight(v) != r.vw(x)) mc_fail("after step %d rank %d: weight of ghost %d changed to %g", at, mc_rank(), x, g->weight(v)); }
  };
  for (size_t i = 0; i < k.ops.size(); ++i) {
    Op o = k.ops[i]; int fr = -1; for (int s = 0; s < 12; ++s) if (!T[s].t) { fr = s; break; }
    if (o.op == CREATE) {
      Tag& t = T[fr]; t = Tag(); t.kind = o.a; t.target = o.b; etype e = o.b ? o.b - 1 : VTX_TYPE;
      t.t = o.a == 0 ? (o.b ? g->createIntTag(e) : g->createIntTag()) : o.a == 1 ? (o.b ? g->createDoubleTag(e) : g->createDoubleTag()) : (o.b ? g->createLongTag(e) : g->createLongTag());
      // a new tag can be set everywhere
      int n = o.b ? (int)es[o.b - 1].size() : (int)vs.size();
      for (int x = 0; x < n; ++x) {
        ++stamp;
        if (t.kind == 0) { int v = stamp % 5 == 2 ? ispecial(stamp / 5) : -1000 * stamp - mc_rank(); t.i[x] = v; o.b ? g->setIntTag(t.t, es[o.b - 1][x], v) : g->setIntTag(t.t, vs[x], v); }
        if (t.kind == 1) { double v = stamp % 5 == 2 ? dspecial(stamp / 5) : 0.3 * stamp; t.d[x] = v; o.b ? g->setDoubleTag(t.t, es[o.b - 1][x], v) : g->setDoubleTag(t.t, vs[x], v); }
        if (t.kind == 2) { long v = stamp % 5 == 2 ? lspecial(stamp / 5) : (1L << 40) * stamp - 1; t.i[x] = v; o.b ? g->setLongTag(t.t, es[o.b - 1][x], v) : g->setLongTag(t.t, vs[x], v); }
      }
    } else if (o.op == GHOST) {
      Tag& t = T[fr]; t = Tag(); t.kind = o.a; t.target = 100; t.salt = salt = (int)i * 17; calls = 0;
      t.t = o.a == 0 ? g->createIntGhostTag(icb) : o.a == 1 ? g->createDoubleGhostTag(dcb) : g->createLongGhostTag(lcb);
    } else if (o.op == SET) {
      Tag& t = T[o.a]; int n = t.target ? (int)es[t.target - 1].size() : (int)vs.size();
      if (n) {
        int x = o.b ? n - 1 : 0; ++stamp;
        if (t.kind == 0) { int v = stamp * 7 + mc_rank(); t.i[x] = v; t.target ? g->setIntTag(t.t, es[t.target - 1][x], v) : g->setIntTag(t.t, vs[x], v); }
        if (t.kind == 1) { double v = -1.0 / stamp; t.d[x] = v; t.target ? g->setDoubleTag(t.t, es[t.target - 1][x], v) : g->setDoubleTag(t.t, vs[x], v); }
        if (t.kind == 2) { long v = -(1L << 50) - stamp; t.i[x] = v; t.target ? g->setLongTag(t.t, es[t.target - 1][x], v) : g->setLongTag(t.t, vs[x], v); }
      }
    } else { g->destroyTag(T[o.a].t); T[o.a] = Tag(); }
    check((int)i);
    st = hmix(st, o.op * 1000 + o.a * 100 + o.b);
    if (!mc_rank()) { mc_transition(1); mc_state(gstate(r, pl, st)); }
  }
  for (auto& t : T) if (t.t) g->destroyTag(t.t);
  CheckOpt co; co.what = "at the end"; co.global = false;
  check_graph(g, r, pl, co);
  agi::destroyGraph(g);
  EnGPar_Finalize();
}
MCH_ENTRY void mch_judge(u64, int, const mc_blob* const*, const int*) { mc_trace_validated(); }
