// C15: reported partition metrics equal their definitions.
#include "balance.h"
#include <engpar_metrics.h>
enum { GRAPH, VALUES };
struct Case { int kind, ref, n, pol, place, sub; std::vector<double> vals; };
static std::vector<Ref> R; static std::vector<Case> C; static Places P;
MCH_ENTRY const char* mch_property() { return "C15"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear();
  unsigned cyc = 0;
  auto add = [&](const Ref& r, int n, int pol, int stride = 1) {
    R.push_back(r); auto& PP = P[r.nv()][n];
    for (int a = 0; a < (int)PP.size(); ++a) if (cyc++ % stride == 0) C.push_back({GRAPH, (int)R.size() - 1, n, pol, a, (int)(cyc / stride % 3), {}});
  };
  const int B = MC_POL_RTB;
  for (int u = 0; u < 2; ++u) {
    for (int v = 1; v <= 3; ++v) for (auto& e : all_hyper(v, 3)) { Ref r = mkref("all", true, v, {e}, u); r.unit_vw = r.unit_ew = u; for (int n = 1; n <= 3; ++n) add(r, n, B, th ? 1 : n == 3 ? 2 : 1); }
    for (auto& e : all_hyper(4, 2)) { Ref r = mkref("all", true, 4, {e}, u); r.unit_vw = r.unit_ew = u; add(r, 2, B, th ? 1 : 2); add(r, 3, B, th ? 1 : 9); }
    // symmetric digraphs
    for (int v = 2; v <= 4; ++v) { int np = v * (v - 1) / 2; for (int m = 0; m < 1 << np; ++m) { EL e; int b = 0; for (int x = 0; x < v; ++x) for (int y = x + 1; y < v; ++y, ++b) if (m >> b & 1) e.push_back({x, y}); Ref r = mkref("both", false, v, {both(e)}, u); r.unit_vw = r.unit_ew = u; for (int n = 1; n <= 3; ++n) add(r, n, B); } }
    for (auto& g : curated(u)) { bool ok = true; if (!g.hyper) for (auto& t : g.types) for (auto& e : t) { bool s = false; for (auto& o : t) s |= o.pins[0] == e.pins[1] && o.pins[1] == e.pins[0]; ok &= s; } if (!ok || g.types.empty()) continue; Ref r = g; r.unit_vw = r.unit_ew = u; for (int n = 1; n <= 3; ++n) add(r, n, MC_POL_RTB | (u ? MC_POL_HOLD : 0)); add(r, 4, B, th ? 1 : 7); }
    // several types, of fractional weights
    for (auto& e : all_hyper(3, 2)) { Ref r = mkref("three", true, 3, {e, EL{{0, 1}, {1, 2}}, EL{{0, 2}, {1}}, EL{{0, 1, 2}}}, u); for (auto& t : r.types) for (auto& x : t) x.w *= 0.375; add(r, 2, B); add(r, 3, B, 3); }
    // weights that are far apart
    Ref r = mkref("scale", true, 4, {chain(4), star(4)}, u); r.w = {1e9, 0.001, 7, 1e5}; r.types[0][1].w = 1e8; r.types[1][2].w = 0.25; for (int n = 2; n <= 4; ++n) add(r, n, B);
  }
  // beyond the sizes and rank counts of the others
  for (int u = 0; u < 2; ++u) {
    auto L = larger(u); for (int i : {0, 1, 2, 4}) { L[i].unit_vw = L[i].unit_ew = u; for (int n : {1, 2, 3}) add(L[i], n, B, L[i].nv() == 6 && n == 3 ? 37 : 1); }
    auto S = spread(u); for (int i : {0, 2}) { S[i].unit_vw = S[i].unit_ew = u; for (int n : {5, 8, 9, 12, 17}) add(S[i], n, B); }
    Ref d = mkref("spread", false, 12, {both(cycle(12)), both(star(12))}, u); d.unit_vw = d.unit_ew = u; for (int n : {4, 7, 9, 17}) add(d, n, B);
  }
  for (int n = 1; n <= 4; ++n) { // the imbalance of given values
    const double A[] = {0, 0.5, 1, 3, 1e6}; int tot = 1; for (int i = 0; i < n; ++i) tot *= 5;
    for (int m = 1; m < tot; ++m) { Case k{VALUES, 0, n, n < 4 ? MC_POL_RTB | MC_POL_HOLD : B, 0, m % 3, {}}; for (int i = 0, x = m; i < n; ++i, x /= 5) k.vals.push_back(A[x % 5]); C.push_back(k); }
  }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n + (C[c].sub == 2); p->deviations = 0; p->policies = C[c].pol; p->shards = 1; }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; std::string s;
  if (k.kind == VALUES) { s = "imbalance of the values"; for (double v : k.vals) s += fmt(" %g", v); }
  else s = R[k.ref].str() + ", vertices on " + pstr(P[R[k.ref].nv()][k.n][k.place]);
  s += fmt(", %d parts%s", k.n, k.sub == 1 ? " (ranks reversed)" : k.sub == 2 ? " (world rank 0 apart)" : "");
  snprintf(b, n, "%s", s.c_str());
}
static bool near(double a, double b, double tol = 1e-9) { return std::abs(a - b) <= tol * std::max(1.0, std::max(std::abs(a), std::abs(b))); }
// the partition's name in the report, of any length
static std::string name_of(u64 c) { static const int L[] = {2, 5, 6, 7, 30, 90, 91, 300}; return std::string(L[hmix(7, c) % 8], (char)('A' + c % 26)); }
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const int me = mc_rank();
  EnGPar_Initialize(-1);
  MPI_Comm comm = MPI_COMM_WORLD;
  if (k.sub == 1) MPI_Comm_split(MPI_COMM_WORLD, 0, -me, &comm);
  if (k.sub == 2) MPI_Comm_split(MPI_COMM_WORLD, me ? 0 : 7, me, &comm);
  EnGPar_Switch_Comm(comm);
  if (k.sub != 2 || me) {
    const int q = PCU_Comm_Self();
    if (PCU_Comm_Peers() != k.n) mc_fail("INTERNAL");
    if (k.kind == VALUES) { double got = engpar::EnGPar_Get_Imbalance(k.vals[q]), want = imbalance(k.vals); if (!near(got, want)) mc_fail("rank %d: imbalance %.17g, %.17g expected", q, got, want); }
    else {
      const Ref& r = R[k.ref]; const Place& p = P[r.nv()][k.n][k.place];
      agi::Ngraph* g = build(r, p, BuildOpt());
      std::string want;
      for (int ghosts = 0; ghosts < 2; ++ghosts) {
        want.clear();
        for (int d = -1; d < (int)r.types.size(); ++d) {
          auto w = part_weights(r, p, k.n, d, ghosts);
          double got = engpar::getWeight(g, d, ghosts);
          if (!near(got, w[q])) mc_fail("rank %d: weight of dimension %d%s is %g, %g expected", q, d, ghosts ? " with ghosts" : "", got, w[q]);
          double imb = engpar::EnGPar_Get_Imbalance(got), wi = imbalance(w); bool any = false; for (double x : w) any |= x > 0;
          if (any && !near(imb, wi)) mc_fail("rank %d: imbalance of dimension %d is %g, %g expected", q, d, imb, wi);
          want += any ? fmt("%.6f ", wi) : "nan ";
        }
        char buf[400] = ""; engpar::getImbalances(g, buf, ghosts);
        if (!q) { // "%2.4f " each
          const char *a = buf, *b = want.c_str(); int i = 0; char *ea, *eb;
          for (;; ++i) { double x = strtod(a, &ea), y = strtod(b, &eb); if (eb == b) { if (ea != a) mc_fail("getImbalances%s gives too many numbers: '%s'", ghosts ? " with ghosts" : "", buf); break; } if (ea == a) mc_fail("getImbalances gives '%s', expected '%s'", buf, want.c_str()); if (!(std::isnan(x) && std::isnan(y)) && !(std::abs(x - y) <= 6e-5)) mc_fail("getImbalances%s gives '%s', expected '%s'", ghosts ? " with ghosts" : "", buf, want.c_str()); a = ea; b = eb; }
        }
      }
      if (!engpar::getWeight(g, -1) != !part_weights(r, p, k.n, -1)[q]) mc_fail("getWeight without its last argument");
      engpar::evaluatePartition(g, name_of(c).c_str());
      CheckOpt co; co.what = "after the evaluation"; check_graph(g, r, p, co);
      if (!q) { mc_transition(1); mc_state(hmix(gstate(r, p, 0), r.unit_vw)); }
      agi::destroyGraph(g);
    }
  }
  EnGPar_Switch_Comm(MPI_COMM_WORLD);
  if (k.sub) MPI_Comm_free(&comm);
  EnGPar_Finalize();
}
static std::vector<double> numbers(const std::string& out, const std::string& key, int* times) {
  std::vector<double> v; *times = 0;
  for (size_t at = 0; (at = out.find(key, at)) != std::string::npos; ++*times) {
    at += key.size(); const char* s = out.c_str() + at; if (*times) continue;
    while (*s == ' ') ++s;
    if (*s == '<') { while (*s && *s != '>' && *s != '\n') ++s; if (*s == '>') ++s; }
    for (;;) { char* e; while (*s == ' ') ++s; if (*s == '\n') break; double x = strtod(s, &e); if (e == s) break; v.push_back(x); s = e; }
  }
  return v;
}

MCH_ENTRY void mch_judge(u64 c, int, const mc_blob* const*, const int*) {
  Case& k = C[c]; mc_trace_validated(); if (k.kind == VALUES) return;
  const Ref& r = R[k.ref]; const Place& p = P[r.nv()][k.n][k.place]; const int n = k.n;
  size_t len; char* o = mc_output(&len); std::string out(o, len), nm = name_of(c); free(o);
  auto want = [&](const std::string& key, std::vector<double> w) {
    int times; auto g = numbers(out, key, &times); std::string a, b; for (double x : g) a += fmt(" %.3f", x); for (double x : w) b += fmt(" %.3f", x);
    if (times != 1) mc_fail("the report has '%s' %d times: %s", key.c_str(), times, out.c_str());
    bool ok = g.size() == w.size(); for (size_t i = 0; ok && i < g.size(); ++i) ok = std::isnan(w[i]) ? std::isnan(g[i]) : std::abs(g[i] - w[i]) <= 6e-4 + 1e-12 * std::abs(w[i]);
    if (!ok) mc_fail("the report says '%s'%s, expected%s", key.c_str(), a.c_str(), b.c_str());
  };
  auto stat = [&](const std::vector<double>& v) { double mx = v[0], mn = v[0], t = 0; for (double x : v) { mx = std::max(mx, x); mn = std::min(mn, x); t += x; } double av = t / n; return std::vector<double>{mx, mn, av, t == 0 ? NAN : mx / av}; };
  auto tot = [&](const std::vector<double>& v) { double mx = v[0], t = 0; for (double x : v) { mx = std::max(mx, x); t += x; } return std::vector<double>{mx, t}; };
  std::vector<double> dis(n), nb(n); int empty = 0;
  for (int q = 0; q < n; ++q) {
    std::vector<int> root(r.nv()); for (int v = 0; v < r.nv(); ++v) root[v] = v;
    std::function<int(int)> f = [&](int v) { return root[v] == v ? v : root[v] = f(root[v]); };
    for (auto& e : r.types[0]) { int first = -1; for (int x : e.pins) if (p[x] == q) { if (first < 0) first = x; else root[f(x)] = f(first); } }
    int comps = 0, mine = 0; for (int v = 0; v < r.nv(); ++v) if (p[v] == q) { ++mine; comps += f(v) == v; }
    dis[q] = mine ? comps - 1 : 0; empty += !mine; nb[q] = neighbours(r, p, q, 0).size();
  }

  want("PARTITION " + nm + ": Empty Parts:", {(double)empty});
  want("PARTITION " + nm + ": Disconnected Components:", tot(dis));
  want("PARTITION " + nm + ": Neighbors:", stat(nb));
  want("PARTITION " + nm + ": Local Vertex:", stat(part_weights(r, p, n, -1)));
  want("PARTITION " + nm + ": Total Vertex:", stat(part_weights(r, p, n, -1, true)));
  for (int t = 0; t < (int)r.types.size(); ++t) {
    std::vector<double> cut(n, 0.0);
    for (int q = 0; q < n; ++q) for (auto& e : r.types[t]) if (r.edge_on(e, p, q)) { bool c2 = false; for (int x : e.pins) c2 |= p[x] != q; if (c2) cut[q] += r.ew(e); }
    want(fmt(("PARTITION " + nm + ": Edges type %d:").c_str(), t), stat(part_weights(r, p, n, t)));
    want(fmt(("PARTITION " + nm + ": Edges type %d Cut:").c_str(), t), tot(cut));
  }
}
