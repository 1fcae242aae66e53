// The reference model of a distributed N-graph (what the user put in, and who owns each vertex), how
// to hand it to the library, and how to compare the library's graph with it through public queries.
#pragma once
#include "common.h"
#include <ngraph.h>
#include <agiMigration.h>
#include <engpar_support.h>
#include <engpar_types.h>
#include <cmath>
#include <unordered_map>
#include <unordered_set>
typedef agi::gid_t Gid; using agi::lid_t; using agi::wgt_t; using agi::part_t; using agi::etype;
typedef std::vector<int> Place;          // vertex index -> rank

struct Edge { Gid id; double w; std::vector<int> pins; };
struct Ref {
  std::string name;
  bool hyper = true;
  std::vector<Gid> gid;
  std::vector<double> w;                 // vertex weights
  bool unit_vw = false, unit_ew = false; // weights were not passed, everything is 1
  bool coords = false;
  std::vector<std::vector<Edge>> types;
  int nv() const { return (int)gid.size(); }
  double vw(int v) const { return unit_vw ? 1 : w[v]; }
  double ew(const Edge& e) const { return unit_ew ? 1 : e.w; }
  void coord(int v, double* c) const { for (int j = 0; j < 3; ++j) c[j] = 100 * j + 3.25 * v + gid[v] % 7; }
  u64 hash() const {
    u64 h = hstr(name);
    h = hmix(h, hyper * 8 + unit_vw * 4 + unit_ew * 2 + coords);
    for (auto x : gid) h = hmix(h, (u64)x);
    for (auto x : w) h = hmix(h, (u64)(x * 64));
    for (auto& t : types) { h = hmix(h, t.size()); for (auto& e : t) { h = hmix(h, e.id); h = hmix(h, (u64)(e.w * 64)); for (int p : e.pins) h = hmix(h, p); } }
    return h;
  }
  std::string str() const {
    std::string s = name + (hyper ? " hypergraph" : " digraph") + fmt(" %d vertices", nv());
    for (size_t t = 0; t < types.size(); ++t) {
      s += fmt(" type%zu:", t);
      size_t shown = 0;
      for (auto& e : types[t]) { if (++shown > 40) { s += fmt("... %zu edges", types[t].size()); break; } s += "("; for (size_t i = 0; i < e.pins.size(); ++i) { if (i > 24) { s += fmt("...%zu pins", e.pins.size()); break; } s += fmt(i ? ",%d" : "%d", e.pins[i]); } s += ")"; }
    }
    if (unit_vw) s += " unit-vertex-weights";
    if (unit_ew) s += " unit-edge-weights";
    if (coords) s += " coords";
    if (gid.size() && gid[0] != 0) s += fmt(" first-gid=%ld", (long)gid[0]);
    return s;
  }
  bool edge_on(const Edge& e, const Place& pl, int rank) const {
    if (!hyper) return pl[e.pins[0]] == rank;
    for (int p : e.pins) if (pl[p] == rank) return true;
    return false;
  }
};
inline std::string pstr(const Place& p) { std::string s; for (int x : p) s += fmt("%d", x); return s; }

// ---- generators -------------------------------------------------------------------------------
inline void default_ids(Ref& r, int nv, int style = 0) {
  r.gid.clear(); r.w.clear();
  for (int v = 0; v < nv; ++v) {
    Gid g = v;
    if (style == 1) g = 5 + 3 * (nv - v);                       // descending, gaps
    if (style == 2) g = ((Gid)1 << 33) + (Gid)v * 1000003;  // does not fit in 32 bits
    r.gid.push_back(g);
    r.w.push_back(1 + 0.5 * v + (v % 2));
  }
}
inline void add_type(Ref& r, const std::vector<std::vector<int>>& edges, int style = 0) {
  int t = (int)r.types.size();
  r.types.emplace_back();
  int i = 0;
  for (auto& p : edges) {
    Gid id = i;
    if (style == 1) id = std::max<Gid>(1000, 7 * (Gid)edges.size()) - 7 * i + t;
    if (style == 2) id = ((Gid)1 << 34) + 11 * i;
    r.types[t].push_back({id, 2 + i + 16.0 * t, p});
    ++i;
  }
}
// weights that are zero, tiny, huge or no sums of powers of two
inline Ref odd_weights(Ref r) {
  static const double W[] = {0.1, 0, 1e-9, 12345678.9, 1.0 / 3, 7e15};
  r.name += "-odd";
  for (int v = 0; v < r.nv(); ++v) r.w[v] = W[v % 6];
  for (auto& t : r.types) for (size_t i = 0; i < t.size(); ++i) t[i].w = W[(i + 1) % 6];
  return r;
}
// all subsets of {0..nv-1}, not empty
inline std::vector<std::vector<int>> subsets(int nv) {
  std::vector<std::vector<int>> out;
  for (int m = 1; m < (1 << nv); ++m) { std::vector<int> s; for (int v = 0; v < nv; ++v) if (m >> v & 1) s.push_back(v); out.push_back(s); }
  return out;
}
// all multisets of at most `maxe` of the nonempty subsets
inline std::vector<std::vector<std::vector<int>>> all_hyper(int nv, int maxe) {
  auto S = subsets(nv);
  std::vector<std::vector<std::vector<int>>> out;
  std::vector<int> cur;
  std::function<void(int)> rec = [&](int from) {
    std::vector<std::vector<int>> e; for (int i : cur) e.push_back(S[i]);
    out.push_back(e);
    if ((int)cur.size() == maxe) return;
    for (int i = from; i < (int)S.size(); ++i) { cur.push_back(i); rec(i); cur.pop_back(); }
  };
  rec(0);
  return out;
}
// all digraphs, self loops included when asked
inline std::vector<std::vector<std::vector<int>>> all_digraphs(int nv, bool loops) {
  std::vector<std::vector<int>> A;
  for (int u = 0; u < nv; ++u) for (int v = 0; v < nv; ++v) if (loops || u != v) A.push_back({u, v});
  std::vector<std::vector<std::vector<int>>> out;
  for (unsigned m = 0; m < (1u << A.size()); ++m) { std::vector<std::vector<int>> e; for (size_t i = 0; i < A.size(); ++i) if (m >> i & 1) e.push_back(A[i]); out.push_back(e); }
  return out;
}
inline std::vector<Place> placements(int nv, int n) {
  std::vector<Place> out;
  Place p(nv, 0);
  while (true) {
    out.push_back(p);
    int i = 0; while (i < nv && ++p[i] == n) p[i++] = 0;
    if (i == nv) break;
  }
  return out;
}
// Distributions of a graph: all of them if it is small, otherwise typical ones (even and uneven blocks, cyclic, all on one part, scattered).
inline const std::vector<Place>& places(int nv, int n) {
  static std::map<std::pair<int, int>, std::vector<Place>> M;
  auto f = M.find({nv, n}); if (f != M.end()) return f->second;
  std::vector<Place>& out = M[{nv, n}];
  double all = 1; for (int v = 0; v < nv; ++v) all *= n;
  if (all <= 5000) return out = placements(nv, n);
  auto put = [&](std::function<int(int)> part) { Place p; for (int v = 0; v < nv; ++v) p.push_back(part(v)); out.push_back(p); };
  put([&](int v) { return (int)((long)v * n / nv); });
  put([&](int v) { return v * 10 < nv * 9 ? 0 : std::min(n - 1, 1 + (v * 10 - nv * 9) * (n - 1) / nv); });
  put([&](int v) { return v % n; });
  put([&](int v) { return n - 1; });
  put([&](int v) { return (int)(hmix(17, v) % n); });
  put([&](int v) { return n - 1 - (int)((long)v * n / nv); });
  put([&](int v) { return v == nv / 2 ? n - 1 : 0; });
  return out;
}
// One in `stride` of the distributions (all of them, or all the ascending ones and one in 37 of the others), chosen by the salt.
inline void pick_places(int nv, int n, bool all, int stride, u64 salt, std::function<void(int, u64)> f) {
  static std::map<std::tuple<int, int, bool>, std::vector<int>> M; static auto last = M.end(); static std::tuple<int, int, bool> key;
  if (last == M.end() || key != std::make_tuple(nv, n, all)) {
    key = std::make_tuple(nv, n, all); last = M.find(key);
    if (last == M.end()) { last = M.emplace(key, std::vector<int>()).first; auto& P = places(nv, n); for (size_t a = 0; a < P.size(); ++a) if (all || a % 37 == 0 || std::is_sorted(P[a].begin(), P[a].end())) last->second.push_back((int)a); }
  }
  auto& L = last->second; u64 h = hmix(911, salt);
  if (stride >= (int)L.size()) { if ((h >> 8) % (stride / L.size()) == 0) f(L[(h >> 32) % L.size()], hmix(h, 3)); return; }
  for (int a : L) { u64 x = hmix(h, a); if (x % stride == 0) f(a, hmix(x, 3)); }
}
struct Places { struct Row { int nv; const std::vector<Place>& operator[](int n) const { return places(nv, n); } }; Row operator[](int nv) const { return {nv}; } };
inline Ref mkref(const std::string& name, bool hyper, int nv, const std::vector<std::vector<std::vector<int>>>& types, int idstyle = 0) {
  Ref r; r.name = name; r.hyper = hyper; default_ids(r, nv, idstyle);
  for (auto& t : types) add_type(r, t, idstyle);
  return r;
}
typedef std::vector<std::vector<int>> EL;
inline EL chain(int n) { EL e; for (int i = 0; i + 1 < n; ++i) e.push_back({i, i + 1}); return e; }
inline EL cycle(int n) { EL e = chain(n); e.push_back({n - 1, 0}); return e; }
inline EL star(int n) { EL e; for (int i = 1; i < n; ++i) e.push_back({0, i}); return e; }
inline EL both(const EL& a) { EL e; for (auto& x : a) { e.push_back(x); e.push_back({x[1], x[0]}); } return e; }
// hyperedges of three consecutive vertices
inline EL tri(int n) { EL e; for (int i = 0; i + 2 < n; ++i) e.push_back({i, i + 1, i + 2}); return e; }
inline EL grid(int a, int b) {
  EL e;
  for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) { if (i + 1 < a) e.push_back({i * b + j, i * b + b + j}); if (j + 1 < b) e.push_back({i * b + j, i * b + j + 1}); }
  return e;
}
// cells of an a x b grid as hyperedges over the corner vertices' cells: the "mesh" shape (nodes connect cells)
inline EL gridnodes(int a, int b) {
  EL e;
  for (int i = 0; i <= a; ++i) for (int j = 0; j <= b; ++j) {
    std::vector<int> p;
    for (int di = -1; di <= 0; ++di) for (int dj = -1; dj <= 0; ++dj) { int x = i + di, y = j + dj; if (x >= 0 && x < a && y >= 0 && y < b) p.push_back(x * b + y); }
    if (p.size() > 1) e.push_back(p);
  }
  return e;
}
// curated graphs of several types
inline std::vector<Ref> curated(int idstyle) {
  std::vector<Ref> g;
  g.push_back(mkref("h2types", true, 4, {chain(4), EL{{0, 1, 2, 3}, {1, 3}}}, idstyle));
  g.push_back(mkref("h2empty0", true, 4, {EL{}, EL{{0, 2}, {1, 3}, {0, 3}}}, idstyle));
  g.push_back(mkref("h2empty1", true, 4, {EL{{0, 2}, {1, 3}, {0, 3}}, EL{}}, idstyle));
  g.push_back(mkref("h3types", true, 4, {EL{{0, 1}}, EL{{2, 3, 0}, {1}}, cycle(4)}, idstyle));
  g.push_back(mkref("h2disjoint", true, 4, {EL{{0, 1}, {0, 1}}, EL{{2, 3}, {2, 3}}}, idstyle));
  g.push_back(mkref("h0types", true, 4, {}, idstyle));
  g.push_back(mkref("d1", false, 4, {both(chain(4))}, idstyle));
  g.push_back(mkref("d2types", false, 4, {both(chain(4)), EL{{3, 0}, {0, 2}, {1, 3}}}, idstyle));
  g.push_back(mkref("d2empty0", false, 4, {EL{}, both(star(4))}, idstyle));
  g.push_back(mkref("d3types", false, 4, {EL{{2, 1}, {0, 1}, {2, 0}}, EL{{3, 3}, {0, 3}}, EL{{1, 0}}}, idstyle));
  g.push_back(mkref("dmulti", false, 4, {EL{{3, 1}, {0, 1}, {3, 1}, {1, 3}, {0, 0}}}, idstyle));
  return g;
}

// graphs larger than the thresholds that buffers, counters and shortcuts tend to have
inline std::vector<Ref> larger(int idstyle, int nv = 300) {
  std::vector<Ref> g; EL all(1), wide, loops, many;
  for (int v = 0; v < nv; ++v) all[0].push_back(v);
  for (int v = 0; v + 20 <= nv; v += 7) { std::vector<int> p; for (int i = 0; i < 20; ++i) p.push_back(v + i); wide.push_back(p); }
  for (int i = 0; i < nv; ++i) { many.push_back({i % 5, (i * 3 + 1) % 6}); loops.push_back({i, i * 7 % nv}); }
  EL hl, hm; for (auto& e : loops) if (e[0] != e[1]) hl.push_back(e);
  for (auto& e : many) if (e[0] != e[1]) hm.push_back(e);
  EL mixed = all; for (auto& e : chain(nv)) mixed.push_back(e);
  g.push_back(mkref("large-chain-star", true, nv, {mixed, star(nv)}, idstyle));
  g.push_back(mkref("large-wide", true, nv, {wide, tri(nv), hl}, idstyle));
  g.push_back(mkref("large-chain-star", false, nv, {both(chain(nv)), both(star(nv))}, idstyle));
  g.push_back(mkref("large-scattered", false, nv, {loops}, idstyle));
  g.push_back(mkref("many-edges", true, 6, {hm, EL{{0, 1, 2, 3, 4, 5}}}, idstyle));
  g.push_back(mkref("many-edges", false, 6, {both(chain(6)), many}, idstyle));
  return g;
}
// small graphs for many parts
inline std::vector<Ref> spread(int idstyle) {
  return {mkref("spread", true, 12, {tri(12), star(12)}, idstyle), mkref("spread", false, 12, {both(cycle(12)), star(12)}, idstyle), mkref("spread-all", true, 10, {EL{{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}}, cycle(10)}, idstyle)};
}

// ---- handing a reference to the library ---------------------------------------------------------
struct BuildOpt {
  int api = 0;     // 0 vectors, 1 arrays, 2 constructGraph (one type, unit edge weights)
  bool reversed = false; // list vertices and edges in descending order
};
inline void part_lists(const Ref& r, const Place& pl, int rank, bool rev, std::vector<int>& vs, std::vector<std::vector<const Edge*>>& es, std::unordered_map<Gid, part_t>& own) {
  for (int v = 0; v < r.nv(); ++v) if (pl[v] == rank) vs.push_back(v);
  if (rev) std::reverse(vs.begin(), vs.end());
  es.resize(r.types.size());
  for (size_t t = 0; t < r.types.size(); ++t) {
    for (auto& e : r.types[t]) if (r.edge_on(e, pl, rank)) {
      es[t].push_back(&e);
      for (int p : e.pins) if (pl[p] != rank) own[r.gid[p]] = pl[p];
    }
    if (rev) std::reverse(es[t].begin(), es[t].end());
  }
}
inline void set_coords(agi::Ngraph* g, const Ref& r, const std::vector<int>& vs) {
  if (!r.coords) return;
  if (vs.empty() && (r.nv() + r.types.size() + r.name.size()) % 2) return;   // a part without vertices may have no coordinates to give
  agi::coord_t* cs = new agi::coord_t[vs.size() + 1];
  for (size_t i = 0; i < vs.size(); ++i) r.coord(vs[i], cs[i]);
  if (vs.size()) {   // what is set last counts
    agi::coord_t* was = new agi::coord_t[vs.size() + 1];
    for (size_t i = 0; i < vs.size(); ++i) for (int d = 0; d < 3; ++d) was[i][d] = -7 - cs[i][d];
    g->setCoords(was);
    delete[] was;
  }
  g->setCoords(cs);
  delete[] cs;
}
inline void construct(agi::Ngraph* g, const Ref& r, const Place& pl, BuildOpt o = BuildOpt()) {
  int rank = PCU_Comm_Self();
  std::vector<int> vs; std::vector<std::vector<const Edge*>> es; std::unordered_map<Gid, part_t> own;
  part_lists(r, pl, rank, o.reversed, vs, es, own);
  // an owner list may say more than the part needs to know
  if (hmix(hmix(r.nv() * 8 + r.types.size(), r.name.size() * 4 + o.api * 2 + o.reversed), rank) % 3 == 0) for (int v = 0; v < r.nv(); ++v) own[r.gid[v]] = pl[v];
  std::vector<Gid> verts; std::vector<wgt_t> vw;
  for (int v : vs) { verts.push_back(r.gid[v]); if (!r.unit_vw) vw.push_back(r.w[v]); }
  struct T { std::vector<Gid> ids, pins; std::vector<lid_t> degs; std::vector<wgt_t> w; };
  std::vector<T> ts(es.size());
  for (size_t t = 0; t < es.size(); ++t) for (auto e : es[t]) {
    ts[t].ids.push_back(e->id); ts[t].degs.push_back((lid_t)e->pins.size());
    for (int p : e->pins) ts[t].pins.push_back(r.gid[p]);
    if (!r.unit_ew) ts[t].w.push_back(e->w);
  }
  if (o.api == 2) {
    g->constructGraph(r.hyper, verts, vw, ts[0].ids, ts[0].degs, ts[0].pins, own);
  } else if (o.api == 0) {
    g->constructVerts(r.hyper, verts, vw);
    for (size_t t = 0; t < ts.size(); ++t) {
      etype got = g->constructEdges(ts[t].ids, ts[t].degs, ts[t].pins, ts[t].w);
      if (got != (etype)t) mc_fail("constructEdges returned type %d for the %zu-th type", got, t);
    }
    g->constructGhosts(own);
  } else {
    // arrays of exactly the needed size; NULL weights when there are none
    g->constructVerts(r.hyper, (lid_t)verts.size(), verts.data(), r.unit_vw ? NULL : vw.data());
    for (size_t t = 0; t < ts.size(); ++t) {
      std::vector<wgt_t> dummy(1);
      etype got = g->constructEdges((Gid)ts[t].ids.size(), ts[t].ids.data(), ts[t].degs.data(), ts[t].pins.data(), r.unit_ew ? NULL : (ts[t].w.size() ? ts[t].w.data() : dummy.data()));
      if (got != (etype)t) mc_fail("constructEdges returned type %d for the %zu-th type", got, t);
    }
    std::vector<Gid> gg; std::vector<part_t> go;
    for (auto& x : own) { gg.push_back(x.first); go.push_back(x.second); }
    g->constructGhosts((lid_t)gg.size(), gg.data(), go.data());
  }
  set_coords(g, r, vs);
}
inline agi::Ngraph* build(const Ref& r, const Place& pl, BuildOpt o = BuildOpt()) {
  agi::Ngraph* g = agi::createEmptyGraph();
  construct(g, r, pl, o);
  return g;
}
inline int vindex(const Ref& r, Gid gid) { for (int v = 0; v < r.nv(); ++v) if (r.gid[v] == gid) return v; return -1; }

// ---- comparing ----------------------------------------------------------------------------------
struct CheckOpt {
  const char* what = "";
  const std::vector<int>* orig = NULL;          // original owner of each vertex
  const std::vector<double>* vweight = NULL;    // overrides the reference's vertex weights
  bool ghost_weights = true;
  bool global = true;                           // also the collective checkValidity
  const std::set<int>* ghosts = NULL;           // the ghosts of this part, if edges were added or removed since they were made
};
struct EKey { std::vector<int> pins; double w; Gid id; bool operator<(const EKey& o) const { return std::tie(pins, w, id) < std::tie(o.pins, o.w, o.id); } bool operator==(const EKey& o) const { return pins == o.pins && w == o.w && id == o.id; } };
inline std::string estr(const EKey& k) { std::string s = "("; for (int p : k.pins) s += fmt("%d ", p); return s + fmt("w=%g id=%ld)", k.w, (long)k.id); }
inline std::string estr(const std::vector<EKey>& v) { std::string s; for (auto& k : v) s += estr(k); return s; }

#define CK(cond, ...) do { if (!(cond)) { std::string m_ = fmt(__VA_ARGS__); mc_fail("%s: rank %d: %s", o.what, rank, m_.c_str()); } } while (0)

inline void check_graph(agi::Ngraph* g, const Ref& r, const Place& pl, CheckOpt o = CheckOpt()) {
  using namespace agi;
  const int rank = PCU_Comm_Self();
  auto vw = [&](int v) { return o.vweight ? (*o.vweight)[v] : r.vw(v); };
  std::vector<int> mine;
  for (int v = 0; v < r.nv(); ++v) if (pl[v] == rank) mine.push_back(v);
  CK(g->isHyper() == r.hyper, "isHyper is %d", g->isHyper());
  CK(g->numGlobalVtxs() == r.nv(), "numGlobalVtxs %ld, %d expected", (long)g->numGlobalVtxs(), r.nv());
  CK(g->numLocalVtxs() == (lid_t)mine.size(), "numLocalVtxs %d, %zu expected", g->numLocalVtxs(), mine.size());
  CK(g->numEdgeTypes() == (int)r.types.size(), "numEdgeTypes %d, %zu expected", g->numEdgeTypes(), r.types.size());
  std::set<int> ghosts;
  for (auto& t : r.types) for (auto& e : t) if (r.edge_on(e, pl, rank)) for (int p : e.pins) if (pl[p] != rank) ghosts.insert(p);
  if (o.ghosts) ghosts = *o.ghosts;
  CK(g->numGhostVtxs() == (lid_t)ghosts.size(), "numGhostVtxs %d, %zu expected", g->numGhostVtxs(), ghosts.size());
  CK(g->numTotalVtxs() == (lid_t)(ghosts.size() + mine.size()), "numTotalVtxs %d", g->numTotalVtxs());
  CK(g->hasCoords() == (r.coords) || mine.empty(), "hasCoords is %d", g->hasCoords());
  std::map<GraphVertex*, int> idx;
  // vertices
  {
    std::set<int> seen; VertexIterator* it = g->begin(); GraphVertex* v; lid_t k = 0;
    while ((v = g->iterate(it))) {
      Gid id = g->globalID(v); int x = vindex(r, id);
      CK(x >= 0, "unknown vertex %ld", (long)id);
      CK(pl[x] == rank, "has vertex %d, which belongs to rank %d", x, pl[x]);
      CK(seen.insert(x).second, "vertex %d twice", x);
      CK(g->localID(v) == k, "localID %d of the %d-th vertex", g->localID(v), k);
      CK(g->findGID(id) == v, "findGID(%ld) is another vertex", (long)id);
      CK(g->find(v) == v && g->isEqual(v, g->findGID(id)), "find/isEqual");
      CK(g->owner(v) == rank, "owner %d of local vertex %d", g->owner(v), x);
      CK(g->weight(v) == vw(x), "weight of vertex %d is %g, %g expected", x, g->weight(v), vw(x));
      if (r.coords) { double c[3]; r.coord(x, c); const coord_t& a = g->coord(v); CK(a[0] == c[0] && a[1] == c[1] && a[2] == c[2], "coordinates of vertex %d are %g %g %g", x, a[0], a[1], a[2]); }
      if (o.orig) CK(g->originalOwner(v) == (*o.orig)[x], "original owner of vertex %d is %d, %d expected", x, g->originalOwner(v), (*o.orig)[x]);
      idx[v] = x; ++k;
      if (k > r.nv()) CK(false, "vertex iterator does not end");
    }
    CK(seen.size() == mine.size(), "iterated %zu vertices", seen.size());
  }
  {
    std::set<int> seen; GhostIterator* it = g->beginGhosts(); GraphVertex* v; int k = 0;
    while ((v = g->iterate(it))) {
      Gid id = g->globalID(v); int x = vindex(r, id);
      CK(x >= 0, "unknown ghost %ld", (long)id);
      CK(ghosts.count(x), "vertex %d is a ghost without reason", x);
      CK(seen.insert(x).second, "ghost %d twice", x);
      CK(g->findGID(id) == v, "findGID(%ld) is another vertex", (long)id);
      CK(g->localID(v) == (lid_t)mine.size() + k, "localID of ghost %d is %d", x, g->localID(v));
      CK(g->owner(v) == pl[x], "owner of ghost %d is %d, %d expected", x, g->owner(v), pl[x]);
      if (o.ghost_weights) CK(g->weight(v) == vw(x), "weight of ghost %d is %g, %g expected", x, g->weight(v), vw(x));
      idx[v] = x; ++k;
      if (k > r.nv()) CK(false, "ghost iterator does not end");
    }
    CK(seen.size() == ghosts.size(), "iterated %zu ghosts, %zu expected", seen.size(), ghosts.size());
  }
  for (etype t = 0; t < (etype)r.types.size(); ++t) {
    std::vector<EKey> want; Gid gp = 0, ge = 0; lid_t lp = 0;
    for (auto& e : r.types[t]) {
      if (e.pins.empty()) continue;
      ge++; gp += e.pins.size();
      if (!r.edge_on(e, pl, rank)) continue;
      EKey k{e.pins, r.ew(e), r.hyper ? e.id : 0};
      if (r.hyper) std::sort(k.pins.begin(), k.pins.end());
      want.push_back(k); lp += (lid_t)e.pins.size();
    }
    std::sort(want.begin(), want.end());
    CK(g->numGlobalEdges(t) == ge, "numGlobalEdges(%d) %ld, %ld expected", t, (long)g->numGlobalEdges(t), (long)ge);
    CK(g->numGlobalPins(t) == gp, "numGlobalPins(%d) %ld, %ld expected", t, (long)g->numGlobalPins(t), (long)gp);
    CK(g->numLocalEdges(t) == (lid_t)want.size(), "numLocalEdges(%d) %d, %zu expected", t, g->numLocalEdges(t), want.size());
    CK(g->numLocalPins(t) == lp, "numLocalPins(%d) %d, %d expected", t, g->numLocalPins(t), lp);
    auto key = [&](GraphEdge* e) {
      EKey k; k.w = g->weight(e); k.id = r.hyper ? g->globalID(e) : 0;
      lid_t d = g->degree(e); std::set<int> parts;
      PinIterator* pit = g->pins(e); GraphVertex* v; 
      while ((v = g->iterate(pit))) {
        CK(idx.count(v), "edge of type %d has a pin to no vertex (local id %d)", t, g->localID(v));
        int x = idx[v]; k.pins.push_back(x); parts.insert(pl[x]);
        CK((int)k.pins.size() <= d, "pins of an edge of type %d exceed its degree %d", t, d);
      }
      g->destroy(pit);
      CK((lid_t)k.pins.size() == d, "edge of type %d has degree %d and %zu pins", t, d, k.pins.size());
      if (!r.hyper) { CK(idx.count(g->u(e)) && idx[g->u(e)] == k.pins[0] && idx.count(g->v(e)) && idx[g->v(e)] == k.pins[1], "u/v of an edge of type %d differ from its pins", t); }
      if (r.hyper) std::sort(k.pins.begin(), k.pins.end());
      CK(g->isCut(e) == (parts.size() > 1), "isCut is %d for %s", g->isCut(e), estr(k).c_str());
      Peers res; g->getResidence(e, res);
      CK(std::set<int>(res.begin(), res.end()) == parts, "residence of %s", estr(k).c_str());
      for (int q = 0; q < PCU_Comm_Peers(); ++q) CK(g->isResidentOn(e, q) == (parts.count(q) > 0), "isResidentOn(%d) of %s", q, estr(k).c_str());
      return k;
    };
    std::vector<EKey> got; std::set<GraphEdge*> all;
    {
      EdgeIterator* it = g->begin(t); GraphEdge* e; lid_t n = 0;
      while ((e = g->iterate(it))) {
        CK(n < (lid_t)want.size(), "more edges of type %d than expected", t);
        CK(g->localID(e) == n, "localID of the %d-th edge of type %d is %d", n, t, g->localID(e));
        all.insert(e); got.push_back(key(e)); ++n;
      }
      g->destroy(it);
    }
    std::sort(got.begin(), got.end());
    CK(got == want, "edges of type %d are %s, expected %s", t, estr(got).c_str(), estr(want).c_str());
    // vertex -> edges and adjacency
    std::map<GraphVertex*, int> tmp = idx;
    for (auto& vi : tmp) {
      int x = vi.second;
      if (pl[x] != rank) continue;
      std::vector<EKey> we, ge2; std::vector<int> wa, ga;
      for (auto& k : want) {
        if (r.hyper) { for (int p : k.pins) if (p == x) { we.push_back(k); for (int q : k.pins) wa.push_back(q); } }
        else if (k.pins[0] == x) { we.push_back(k); wa.push_back(k.pins[1]); }
      }
      EdgeIterator* it = g->edges(vi.first, t); GraphEdge* e;
      while ((e = g->iterate(it))) {
        CK(ge2.size() <= we.size(), "edges(vertex %d, type %d) does not end", x, t);
        CK(all.count(e), "edges(vertex %d, type %d) gives an edge that is not of the type", x, t);
        ge2.push_back(key(e));
      }
      g->destroy(it);
      std::sort(ge2.begin(), ge2.end());
      CK(g->degree(vi.first, t) == (lid_t)we.size(), "degree of vertex %d in type %d is %d, %zu expected", x, t, g->degree(vi.first, t), we.size());
      CK(ge2 == we, "edges of vertex %d of type %d are %s, expected %s", x, t, estr(ge2).c_str(), estr(we).c_str());
      GraphIterator* git = g->adjacent(vi.first, t); GraphVertex* v;
      while ((v = g->iterate(git))) {
        CK(ga.size() <= wa.size(), "adjacent(vertex %d, type %d) does not end", x, t);
        CK(idx.count(v), "adjacent(vertex %d, type %d) gives no vertex", x, t);
        GraphEdge* via = g->edge(git);
        CK(all.count(via), "edge(adjacent iterator) is not an edge of type %d", t);
        ga.push_back(idx[v]);
      }
      g->destroy(git);
      std::sort(ga.begin(), ga.end()); std::sort(wa.begin(), wa.end());
      CK(ga == wa, "adjacent(vertex %d, type %d) visits %zu vertices, %zu expected, or others", x, t, ga.size(), wa.size());
    }
  }
  if (o.global) CK(checkValidity(g), "checkValidity fails");
}
#undef CK
// Who owns each vertex now (out of band, not through the library). Fails on lost or duplicated ones.
inline Place observe_place(agi::Ngraph* g, const Ref& r, const char* what) {
  long* sh = mc_shared();
  mc_world_sync();
  if (mc_rank() == 0) for (int v = 0; v < r.nv(); ++v) sh[v] = 0;
  mc_world_sync();
  agi::VertexIterator* it = g->begin(); agi::GraphVertex* v;
  while ((v = g->iterate(it))) {
    int x = vindex(r, g->globalID(v));
    if (x < 0) mc_fail("%s: rank %d has unknown vertex %ld", what, mc_rank(), (long)g->globalID(v));
    if (sh[x]) mc_fail("%s: vertex %d is on ranks %ld and %d", what, x, sh[x] - 1, mc_rank());
    sh[x] = PCU_Comm_Self() + 1;
  }
  mc_world_sync();
  Place p(r.nv());
  for (int x = 0; x < r.nv(); ++x) { if (!sh[x]) mc_fail("%s: vertex %d is on no rank", what, x); p[x] = (int)sh[x] - 1; }
  mc_world_sync();
  return p;
}
inline u64 gstate(const Ref& r, const Place& p, u64 extra = 0) { u64 h = r.hash(); for (int x : p) h = hmix(h, x); return hmix(h, extra); }
