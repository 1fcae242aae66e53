// C09: a balancing step moves weight only from a part to a lighter neighbour, in proportion, and
// later priorities never undo completed ones.
#include "balance.h"
enum { STEP, PROTECT, REACH };
struct Case { int kind, ref, n, pol, from, cfg; };
static std::vector<Ref> R;
static std::vector<Cfg> F;
static std::vector<Case> C;
static std::map<int, std::vector<Place>[19]> P;
MCH_ENTRY const char* mch_property() { return "C09"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear(); F.clear(); P.clear();
  for (int v = 0; v < 6; ++v) for (int n = 1; n <= 4; ++n) P[v][n] = placements(v, n);
  for (int v = 6; v <= 16; ++v) for (int n = 2; n <= 4; ++n) {
    // every way of cutting the vertices into n consecutive blocks (at least one each), owners ascending
    std::vector<int> cut(n - 1); std::function<void(int, int)> rec = [&](int i, int lo) {
      if (i == n - 1) { Place p(v); int q = 0; for (int x = 0; x < v; ++x) { while (q < n - 1 && x >= cut[q]) ++q; p[x] = q; } P[v][n].push_back(p); return; }
      for (int c = lo; c < v; ++c) { cut[i] = c; rec(i + 1, c + 1); } };
    rec(0, 1);
  }
  unsigned cyc = 0;
  auto ref = [&](const Ref& r) { R.push_back(r); return (int)R.size() - 1; };
  auto cfg = [&](const Cfg& c) { F.push_back(c); return (int)F.size() - 1; };
  auto add = [&](int kind, int ri, int n, int pol, const std::vector<int>& fs, bool allf, int every = 1) {
    auto& PP = P[R[ri].nv()][n];
    for (int a = 0; a < (int)PP.size(); a += every) { if (allf) for (int f : fs) C.push_back({kind, ri, n, pol, a, f}); else C.push_back({kind, ri, n, pol, a, fs[cyc++ % fs.size()]}); }
  };
  auto mk = [&](std::vector<int> pr, std::vector<double> tol, double sf) { Cfg c; c.prio = pr; c.tol = tol; c.sf = sf; return c; };
  const int B = MC_POL_RTB;
  // single steps
  std::vector<int> s1, s2, st;
  for (double sf : {0.1, 0.5, 1.0}) for (int d : {-1, 0}) for (int dq : {0, 1}) { Cfg c = mk({d}, {1.01}, sf); c.maxit = 0; c.dq = dq; (d == -1 ? st : s1).push_back(cfg(c)); if (d == -1) s1.push_back((int)F.size() - 1); }
  { Cfg c = mk({-1}, {1.01}, 0.5); c.maxit = 0; c.ghosts = true; s1.push_back(cfg(c)); }
  for (int d : {-1, 0}) for (double cut : {0.001, 1000.}) { Cfg c = mk({d}, {1.01}, 1.0); c.maxit = 0; c.cut = cut; s1.push_back(cfg(c)); if (d == -1) st.push_back(cfg(c)); }
  for (int d : {1, -1, 0}) { Cfg c = mk({d}, {1.01}, 0.5); c.maxit = 0; c.sides = 1; s2.push_back(cfg(c)); c.sel = 1; s2.push_back(cfg(c)); c.sides = 0; s2.push_back(cfg(c)); }
  for (auto& e : all_hyper(3, 3)) { Ref q = mkref("all", true, 3, {e}); int r = ref(q); q.unit_vw = q.unit_ew = true; int u = ref(q); add(STEP, r, 2, B, s1, th); add(STEP, r, 3, B, s1, th); add(STEP, u, 3, B, s1, th); }
  for (auto& e : all_hyper(4, 2)) { int r = ref(mkref("all", true, 4, {e})); add(STEP, r, 2, B, s1, th); add(STEP, r, 3, B, s1, th); }
  auto symmetric = [](const Ref& r) { if (r.hyper) return true; for (auto& t : r.types) for (auto& e : t) { bool ok = false; for (auto& o : t) ok |= o.pins.size() == 2 && e.pins.size() == 2 && o.pins[0] == e.pins[1] && o.pins[1] == e.pins[0]; if (!ok) return false; } return true; };
  for (auto& e : all_digraphs(3, false)) { if (!symmetric(mkref("all", false, 3, {e}))) continue; int r = ref(mkref("all", false, 3, {e})); add(STEP, r, 2, B, st, true); add(STEP, r, 3, B, st, th); }
  for (auto& g : curated(0)) if (!g.types.empty() && symmetric(g)) { int r = ref(g); std::vector<int> all = g.hyper ? s1 : st; if (g.types.size() > 1) all.insert(all.end(), s2.begin(), s2.end()); add(STEP, r, 2, B, all, true); add(STEP, r, 3, B, all, th); }
  for (int nv : {8, 12}) for (int n = 2; n <= 3; ++n) for (int u = 0; u < 2; ++u) {
    std::vector<Ref> big = {mkref("chain", true, nv, {chain(nv)}), mkref("ring", true, nv, {cycle(nv)}), mkref("strip", true, nv, {tri(nv)}), mkref("both", false, nv, {both(chain(nv))})};
    for (auto& b : big) { b.unit_vw = b.unit_ew = u; int r = ref(b); add(STEP, r, n, B, b.hyper ? s1 : st, true, n == 3 && !th ? 3 : 1); }
  }
  // later priorities
  std::vector<int> p1, p2, p3, pt;
  for (double sf : {0.2, 0.5, 1.0}) for (double t : {1.01, 1.1, 1.5}) { p1.push_back(cfg(mk({0, -1}, {t, 1.01}, sf))); p1.push_back(cfg(mk({-1, 0}, {t, 1.01}, sf))); }
  for (auto pr : {std::vector<int>{1, 0, -1}, {-1, 1, 0}, {0, 1}, {1, -1, 0}}) for (double t : {1.05, 1.4}) { Cfg c = mk(pr, {t, 2.45 - t, t}, 0.5); c.tol.resize(pr.size()); p2.push_back(cfg(c)); c.dq = 0; c.sides = 1; p2.push_back(cfg(c)); }
  for (auto pr : {std::vector<int>{2, 1, 0, -1}, {-1, 0, 1, 2}}) p3.push_back(cfg(mk(pr, {1.1, 1.3, 1.02, 1.1}, 0.7)));
  for (double sf : {0.3, 1.0}) for (double t : {1.01, 1.3}) pt.push_back(cfg(mk({-1, 0}, {t, 1.01}, sf)));
  for (auto& e : all_hyper(4, 2)) { int r = ref(mkref("all", true, 4, {e})); add(PROTECT, r, 2, B, p1, false); if (th) add(PROTECT, r, 3, B, p1, false); }
  for (auto& g : curated(0)) if (!g.types.empty() && symmetric(g)) { int r = ref(g); std::vector<int> all = g.hyper ? p1 : pt; if (g.types.size() > 1 && g.hyper) all.insert(all.end(), p2.begin(), p2.end()); if (g.types.size() > 2 && g.hyper) all.insert(all.end(), p3.begin(), p3.end()); add(PROTECT, r, 2, B, all, th); add(PROTECT, r, 3, B, all, th); }
  for (int nv : {6, 9, 12}) for (int n = 2; n <= 3; ++n) for (int u = 0; u < 2; ++u) {
    std::vector<Ref> big = {mkref("chain", true, nv, {chain(nv)}), mkref("ring", true, nv, {cycle(nv)}), mkref("mix", true, nv, {tri(nv), chain(nv)}), mkref("star", true, nv, {chain(nv), star(nv)}), mkref("both", false, nv, {both(chain(nv))})};
    for (auto& b : big) { b.unit_vw = b.unit_ew = u; int r = ref(b); std::vector<int> all = b.hyper ? p1 : pt; if (b.hyper && b.types.size() > 1) all.insert(all.end(), p2.begin(), p2.end()); add(PROTECT, r, n, B, all, nv <= 9 || th, n == 3 && !th ? (nv == 12 ? 4 : 2) : 1); }
  }
  // edges all alike, vertices not: several vertices want to leave while the receiver has room for one edge
  for (int nv : {6, 8, 10}) for (int m = 0; m < 4; ++m) for (auto b : {mkref("chain", true, nv, {chain(nv)}), mkref("ring", true, nv, {cycle(nv)}), mkref("grid", true, nv, {grid(2, nv / 2)}), mkref("mix", true, nv, {chain(nv), tri(nv)})}) {
    b.unit_ew = true; for (int v = 0; v < nv; ++v) b.w[v] = m == 0 ? (v < nv / 2 ? 1 : 5) : m == 1 ? 1 + v : m == 2 ? nv - v : v % 3 ? 1 : 4;
    int r = ref(b); std::vector<int> all = p1; if (b.types.size() > 1) all.insert(all.end(), p2.begin(), p2.end()); add(PROTECT, r, 2, B, all, true); add(PROTECT, r, 3, B, all, th, th ? 1 : 2); }
  // more vertices, edges and parts than the others have
  for (int ids = 0; ids < (th ? 3 : 1); ++ids) {
    std::vector<int> both1 = p1, both2 = p1; both2.insert(both2.end(), p2.begin(), p2.end());
    for (auto& b : larger(ids, 200)) if (symmetric(b)) for (int u = 0; u < 2; ++u) { Ref q = b; q.unit_vw = q.unit_ew = u; int r = ref(q);
      for (int n : {2, 3}) { if (q.nv() != 6) P[q.nv()][n] = places(q.nv(), n); int ev = q.nv() == 6 ? (th ? 5 : n == 2 ? 5 : 29) : 1;
        add(STEP, r, n, B, q.hyper ? s1 : st, q.nv() != 6, ev); add(PROTECT, r, n, B, !q.hyper ? pt : q.types.size() > 1 ? both2 : both1, th && q.nv() != 6, ev); } }
    for (auto& b : spread(ids)) if (symmetric(b)) for (int u = 0; u < 2; ++u) { Ref q = b; q.unit_vw = q.unit_ew = u; int r = ref(q);
      for (int n : {5, 9, 10, 17}) { P[q.nv()][n] = places(q.nv(), n); add(STEP, r, n, B, q.hyper ? s1 : st, true); add(PROTECT, r, n, B, !q.hyper ? pt : q.types.size() > 1 ? both2 : both1, th); } }
  }
  // reaching the tolerance
  std::vector<int> q1; for (double sf : {0.1, 0.5, 1.0}) for (int dq : {0, 1}) { Cfg c = mk({-1}, {1.05}, sf); c.dq = dq; q1.push_back(cfg(c)); }
  for (int nv : {6, 8, 12, 16}) for (int n = 2; n <= 4; ++n) {
    for (auto b : {mkref("chain", true, nv, {chain(nv)}), mkref("ring", true, nv, {cycle(nv)}), mkref("both", false, nv, {both(chain(nv))})}) { b.unit_vw = b.unit_ew = true; int r = ref(b); add(REACH, r, n, B, q1, n == 2 || th, n == 2 || th ? 1 : n == 3 ? 3 : 11); }
  }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = 0; p->policies = C[c].pol; p->shards = 1; }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c];
  snprintf(b, n, "%s: %s on %d ranks, vertices on %s, %s", k.kind == STEP ? "one step" : k.kind == PROTECT ? "priorities" : "tolerance", R[k.ref].str().c_str(), k.n, pstr(P[R[k.ref].nv()][k.n][k.from]).c_str(), F[k.cfg].str().c_str());
}
static Place run(const Ref& r, const Place& from, const Cfg& f) {
  mc_world_sync();
  agi::Ngraph* g = build(r, from);
  engpar::balance(make_input(g, f), -1);
  Place p = observe_place(g, r, "after balancing");
  agi::destroyGraph(g);
  mc_world_sync();
  return p;
}
static std::string ws(const std::vector<double>& w) { std::string s; for (double x : w) s += fmt("%g ", x); return s; }
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const Ref& r = R[k.ref]; const Cfg& f = F[k.cfg]; const Place from = P[r.nv()][k.n][k.from];
  EnGPar_Initialize(-1);
  Place to = run(r, from, f);
  if (k.kind == STEP && !mc_rank()) {
    int d = f.prio[0];
    std::vector<double> w = part_weights(r, from, k.n, d, f.ghosts);
    std::map<std::pair<int, int>, double> sent; bool moved = false;
    for (int v = 0; v < r.nv(); ++v) if (from[v] != to[v]) {
      moved = true; int a = from[v], b = to[v];
      if (!neighbours(r, from, a, f.sides).count(b)) mc_fail("vertex %d moved from part %d to part %d, which is not its neighbour", v, a, b);
      if (!(w[a] > w[b])) mc_fail("vertex %d moved from part %d (weight %g) to part %d (weight %g)", v, a, w[a], b, w[b]);
      sent[{a, b}] += r.vw(v);
    }
    auto held = [&](const Edge& e, int q) { return r.edge_on(e, from, q); };
    auto on = [&](const Edge& e, int q) { for (int x : e.pins) if (from[x] == q) return true; return false; };
    auto extra = [&](const std::set<int>& vs, int b) { double q = 0; if (d == -1) { for (int x : vs) q += r.vw(x); return q; } for (auto& e : r.types[d]) { bool has = false; for (int x : e.pins) has |= vs.count(x) > 0; if (has && !on(e, b)) q += r.ew(e); } return q; };
    if (d == -1 || r.hyper) for (auto& s : sent) {
      int a = s.first.first, b = s.first.second; std::set<int> gone; for (int v = 0; v < r.nv(); ++v) if (from[v] == a && to[v] == b) gone.insert(v);
      double cav = 0; for (auto& e : r.types[f.sel]) if (held(e, a)) { std::set<int> own; for (int x : e.pins) if (from[x] == a) own.insert(x); cav = std::max(cav, extra(own, b)); }
      double side = 0, all = 0; for (auto& e : r.types[f.sides]) if (held(e, a)) { bool cut = false; for (int x : e.pins) cut |= from[x] != a; if (cut) all += r.ew(e); if (on(e, b)) side += r.ew(e); }
      double lim = f.sf * (w[a] - w[b]) * (side / all) + cav;
      if (extra(gone, b) > lim + 1e-9) mc_fail("part %d sent weight %g to part %d: more than the step factor times the difference %g times the neighbour's share of the boundary %g, plus one cavity (%g)", a, extra(gone, b), b, w[a] - w[b], side / all, cav);
    }
    if (f.cut > 0 && f.cut < 0.01) for (int v = 0; v < r.nv(); ++v) if (from[v] != to[v]) for (auto& e : r.types[0]) { bool has = false; for (int x : e.pins) has |= x == v; if (has && held(e, from[v]) && !on(e, to[v])) mc_fail("vertex %d moved from part %d to part %d, which had no part of its edge %s: the cut grows although its growth is limited to %g", v, from[v], to[v], std::to_string(e.id).c_str(), f.cut); }
    // a part gives what it should unless all of its boundary is given
    if (k.n == 2 && !f.sel && !f.sides && (d == -1 || r.hyper) && !(f.cut > 0 && f.cut < 100) && imbalance(w) >= f.tol[0] && w[0] != w[1]) {
      int a = w[0] > w[1] ? 0 : 1; double given = 0; for (int v = 0; v < r.nv(); ++v) if (from[v] == a && to[v] != a) given += extra({v}, !a);
      if (neighbours(r, from, a, 0).size() && given < f.sf * (w[a] - w[!a]) - 1e-9) for (auto& e : r.types[0]) if (held(e, a)) {
        std::set<int> own; bool cut = false; for (int x : e.pins) if (from[x] != a) cut = true; else own.insert(x);
        if (cut && own.size() <= 10) for (int x : own) if (to[x] == a) mc_fail("part %d gave weight %g, less than the step factor times the difference %g, and keeps vertex %d on its boundary", a, given, w[a] - w[!a], x);
      }
    }
    if (k.n == 2 && !moved && !f.sel && !f.sides && !(f.cut > 0 && f.cut < 100) && imbalance(w) >= f.tol[0]) {
      int a = w[0] > w[1] ? 0 : 1; bool can = false;
      if (neighbours(r, from, a, f.sides).size()) for (auto& e : r.types[0]) if (r.edge_on(e, from, a)) { bool cut = false; std::set<int> own; for (int x : e.pins) if (from[x] != a) cut = true; else own.insert(x); can |= cut && own.size() <= 10; }
      if (can) mc_fail("nothing moved although part %d is heavier (%s) and has a boundary", a, ws(w).c_str());
    }
  }
  if (k.kind == PROTECT) {
    Place again = run(r, from, f);
    if (again == to) for (size_t i = 1; i < f.prio.size(); ++i) {
      int d = f.prio[i - 1];
      Cfg g = f; g.prio.resize(i); g.tol.resize(i);
      Place mid = run(r, from, g);
      if (mc_rank() || (!r.hyper && d != -1)) continue;
      std::vector<double> wm = part_weights(r, mid, k.n, d), wf = part_weights(r, to, k.n, d);
      double mm = 0, t = 0, fm = 0; for (double x : wm) { mm = std::max(mm, x); t += x; } for (double x : wf) fm = std::max(fm, x);
      double lim = std::max(mm, t / k.n * f.tol[i - 1]);
      if (fm > lim + 1e-9) mc_fail("priority %d was completed with part weights %s(limit %g) and ends with %s", d, ws(wm).c_str(), lim, ws(wf).c_str());
    }
    else if (!mc_rank()) mc_trace("not repeatable: %s, then %s", pstr(to).c_str(), pstr(again).c_str());
  }
  if (k.kind == REACH && !mc_rank()) {
    std::vector<double> a = part_weights(r, from, k.n, -1), b = part_weights(r, to, k.n, -1);
    // a part may be given one cavity by each neighbour before the weights are known again
    double most = *std::max_element(b.begin(), b.end()), lim = 1.0 * r.nv() / k.n * f.tol[0] + (k.n == 2 ? 1 : 2.05);
    if (most > lim) mc_fail("not balanced: %s-> %s", ws(a).c_str(), ws(b).c_str());
  }
  if (!mc_rank()) { mc_transition(1); mc_state(gstate(r, to, hstr(f.str()) + k.kind)); }
  EnGPar_Finalize();
}
MCH_ENTRY void mch_judge(u64, int, const mc_blob* const*, const int*) { mc_trace_validated(); }
