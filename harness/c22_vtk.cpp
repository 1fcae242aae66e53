// C22: the rendered files describe exactly the distributed graph.
#include "refgraph.h"
#include <agiMigration.h>
#include <unistd.h>
#include <array>
#include <cmath>
// tag: 0 none, 1 on vertices, 2 on the edges of type 0, 3 on the edges of the last type, 4 a tag and no type
struct Case { int ref, n, pol, place, tag, from, api, path; };
static std::vector<Ref> R; static std::vector<Case> C; static Places P;
MCH_ENTRY const char* mch_property() { return "C22"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear();
  unsigned cyc = 0;
  auto add = [&](Ref r, int n, bool all, int stride = 1) {
    r.coords = true; R.push_back(r); auto& PP = P[r.nv()][n];
    for (int a = 0; a < (int)PP.size(); ++a) for (int tag = 0; tag < 5; ++tag) {
      if (tag == 3 && r.types.size() < 2) continue;
      unsigned h = (unsigned)hmix(7, ++cyc);
      if (!all && tag && tag != (int)(1 + h / 5 % 4)) continue;
      if (stride > 1 && h / 640 % stride) continue;
      C.push_back({(int)R.size() - 1, n, h / 40 % 5 == 0 ? MC_POL_RR : h / 40 % 5 == 1 ? MC_POL_HOLD : MC_POL_RTB, a, tag, h % 2 ? -1 : (int)(h / 2 % PP.size()), (int)(h / 3 % 2), h / 7 % 16 == 0});
    }
  };
  for (int v = 1; v <= 3; ++v) for (auto& e : all_hyper(v, 3)) for (int n = 1; n <= 3; ++n) add(mkref("all", true, v, {e}, cyc % 2), n, th || n < 3, th || n < 3 ? 1 : 2);
  for (int v = 1; v <= 3; ++v) for (auto& e : all_digraphs(v, true)) for (int n = 1; n <= 3; ++n) add(mkref("all", false, v, {e}, cyc % 2), n, th || n < 3, th || n < 3 ? 1 : 2);
  for (auto& e : all_hyper(4, 2)) { add(mkref("all", true, 4, {e}, cyc % 2), 2, th, th ? 1 : 2); add(mkref("all", true, 4, {e}, cyc % 2), 3, false, th ? 1 : 8); }
  for (auto& e : all_hyper(3, 2)) for (auto& f : all_hyper(3, 1)) for (int n = 1; n <= 3; ++n) add(mkref("pair", true, 3, {e, f}, cyc % 2), n, th, th ? 1 : 2);
  for (auto& e : all_digraphs(2, true)) for (auto& f : all_digraphs(2, true)) for (int n = 1; n <= 2; ++n) add(mkref("pair", false, 2, {e, f}, cyc % 2), n, true);
  for (int ids = 0; ids < 2; ++ids) for (auto& g : curated(ids)) if (g.types.size()) for (int n = 1; n <= 4; ++n) add(g, n, n < 4 || th, n < 4 || th ? 1 : 4);
  // beyond the sizes and rank counts of the others
  for (int ids = 0; ids < 2; ++ids) { for (auto& r : larger(ids)) for (int n = 1; n <= 3; ++n) if (r.nv() > 6 || n < 3) add(r, n, false, r.nv() == 6 ? 4 : 1); for (auto& r : spread(ids)) for (int n : {5, 9, 10, 11, 17}) add(r, n, true); }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = 0; p->policies = C[c].pol; p->shards = 1; }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; auto& PP = P[R[k.ref].nv()][k.n]; const char* TN[] = {"no tag", "a tag on the vertices", "a tag on the edges of type 0", "a tag on the edges of the last type", "a tag without a type"};
  std::string s = R[k.ref].str() + ", vertices on " + pstr(PP[k.place]); if (k.from >= 0) s += " (migrated from " + pstr(PP[k.from]) + ")";
  s += fmt(", written with %s%s", TN[k.tag], k.path ? " to a long path" : ""); snprintf(b, n, "%s", s.c_str());
}
static std::string slurp(const std::string& f) {
  FILE* fp = fopen(f.c_str(), "r"); if (!fp) mc_fail("rank %d: %s was not written", mc_rank(), f.c_str());
  std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0) s.append(b, n); fclose(fp); return s;
}
// a file is a tree of elements: name, attributes, numbers
struct El { std::string name; std::map<std::string, std::string> at; std::vector<double> num; std::vector<El> kids;
  const El* kid(const char* n) const { const El* r = nullptr; for (auto& k : kids) if (k.name == n) { if (r) mc_fail("two elements %s in %s", n, name.c_str()); r = &k; } return r; }
  const El& need(const char* n) const { const El* r = kid(n); if (!r) mc_fail("no element %s in %s", n, name.c_str()); return *r; }
  const El* array(const char* n, const char* e = "DataArray") const { const El* r = nullptr; for (auto& k : kids) if (k.name == e && k.at.count("Name") && k.at.at("Name") == n) { if (r) mc_fail("two arrays %s in %s", n, name.c_str()); r = &k; } return r; }
};
struct Parser {
  const std::string& s; size_t i = 0; std::string where;
  [[noreturn]] void bad(const char* m) { mc_fail("%s: %s at byte %zu: %.60s", where.c_str(), m, i, i < s.size() ? s.c_str() + i : ""); abort(); }
  void ws() { while (i < s.size() && isspace((unsigned char)s[i])) ++i; }
  El element() {
    El e; ws(); if (i >= s.size() || s[i] != '<') bad("no element"); ++i;
    while (i < s.size() && isalnum((unsigned char)s[i])) e.name += s[i++];
    for (;;) { ws(); if (i >= s.size()) bad("unfinished element"); if (s[i] == '>') { ++i; break; } if (s[i] == '/') { if (s[++i] != '>') bad("bad element"); ++i; return e; }
      std::string n, v; while (i < s.size() && isalnum((unsigned char)s[i])) n += s[i++];
      if (n.empty() || s[i] != '=' || s[i + 1] != '"') bad("bad attribute"); i += 2; while (i < s.size() && s[i] != '"') v += s[i++]; ++i;
      if (e.at.count(n)) bad("repeated attribute"); e.at[n] = v; }
    for (;;) { ws(); if (i >= s.size()) bad("element not closed");
      if (s[i] == '<') { if (s[i + 1] == '/') { i += 2; std::string n; while (i < s.size() && isalnum((unsigned char)s[i])) n += s[i++]; if (n != e.name || s[i] != '>') bad("wrong end of element"); ++i; return e; } e.kids.push_back(element()); }
      else { char* end; double d = strtod(s.c_str() + i, &end); if (end == s.c_str() + i) bad("not a number"); i = end - s.c_str(); e.num.push_back(d); } }
  }
};
static El parse(const std::string& f) { std::string s = slurp(f); Parser p{s, 0, f.substr(f.rfind('/') + 1)}; El e = p.element(); p.ws(); if (p.i < s.size()) p.bad("text after the end"); return e; }
typedef std::array<long, 4> Pt; // 0 vertex / 1 edge, position in thousandths
static Pt point(int kind, const double* c) { Pt p; p[0] = kind; for (int j = 0; j < 3; ++j) p[j + 1] = lround(c[j] * 1000); return p; }
static std::string pts(const Pt& p) { return fmt("%s(%.3f,%.3f,%.3f)", p[0] ? "edge" : "vertex", p[1] / 1e3, p[2] / 1e3, p[3] / 1e3); }
static int vtag(int v) { return 1000 + 7 * v; }
static int etag(const Edge& e, int t) { return 2000 + 100 * t + 3 * (int)(e.id % 1000); }
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const Ref& r = R[k.ref]; auto& PP = P[r.nv()][k.n]; const Place& p = PP[k.place]; const int me = mc_rank(), nt = (int)r.types.size();
  EnGPar_Initialize(-1);
  BuildOpt o; o.api = k.api; o.reversed = k.place & 1;
  agi::Ngraph* g = build(r, k.from >= 0 ? PP[k.from] : p, o);
  g->setOriginalOwners();
  if (k.from >= 0) {
    agi::Migration* plan = new agi::Migration(g);
    for (int v = 0; v < r.nv(); ++v) if (PP[k.from][v] == me) plan->insert(std::make_pair(g->findGID(r.gid[v]), p[v]));
    g->migrate(plan);
  }
  std::string dir = mc_scratch(), prefix = dir + "/r_";
  if (k.path) { // longer than any fixed buffer; made of "/." so that the directory exists
    for (int i = 0; i < 150; ++i) dir += "/."; prefix = dir + "/long_"; }
  if (!me) { for (int q = 0; q < k.n; ++q) unlink((prefix + fmt("%d.vtu", q)).c_str()); unlink((prefix + ".pvtu").c_str()); }
  mc_world_sync();
  agi::GraphTag* tag = NULL; agi::etype type = NO_TYPE;
  if (k.tag == 1 || k.tag == 4) { tag = g->createIntTag(); if (k.tag == 1) type = VTX_TYPE; agi::GraphVertex* v; agi::VertexIterator* vi = g->begin(); while ((v = g->iterate(vi))) g->setIntTag(tag, v, vtag(vindex(r, g->globalID(v)))); }
  else if (k.tag) { type = k.tag == 2 ? 0 : nt - 1; tag = g->createIntTag(type); agi::GraphEdge* e; agi::EdgeIterator* ei = g->begin(type);
    while ((e = g->iterate(ei))) { int val = -77; if (r.hyper) for (auto& E : r.types[type]) if (E.id == g->globalID(e)) val = etag(E, type); g->setIntTag(tag, e, val); } g->destroy(ei); }
  agi::writeVTK(g, prefix.c_str(), tag, type);
  mc_world_sync();
  // what has to be drawn on this part
  std::multiset<Pt> wp; std::multiset<std::pair<Pt, Pt>> wc; std::multiset<std::pair<Pt, long>> wt;
  auto vpos = [&](int v) { double x[3]; r.coord(v, x); return point(0, x); };
  for (int v = 0; v < r.nv(); ++v) if (p[v] == me) { wp.insert(vpos(v)); wt.insert({vpos(v), k.tag == 1 ? vtag(v) : -1}); }
  if (nt) for (auto& e : r.types[0]) if (r.edge_on(e, p, me)) {
    if (!r.hyper) { if (p[e.pins[0]] == me && p[e.pins[1]] == me) wc.insert({vpos(e.pins[0]), vpos(e.pins[1])}); continue; }
    double x[3] = {0, 0, 0}; for (int v : e.pins) { double y[3]; r.coord(v, y); for (int j = 0; j < 3; ++j) x[j] += y[j]; } for (int j = 0; j < 3; ++j) x[j] /= e.pins.size();
    Pt q = point(1, x); wp.insert(q); wt.insert({q, k.tag == 2 || (k.tag == 3 && nt == 1) ? etag(e, 0) : -1});
    for (int v : e.pins) if (p[v] == me) wc.insert({q, vpos(v)});
  }
  std::string f = prefix + fmt("%d.vtu", me); El root = parse(f);
  if (root.name != "VTKFile" || root.at["type"] != "UnstructuredGrid") mc_fail("rank %d: the file is not an unstructured grid", me);
  const El& piece = root.need("UnstructuredGrid").need("Piece"); long np = atol(piece.at.at("NumberOfPoints").c_str()), nc = atol(piece.at.at("NumberOfCells").c_str());
  const El* pos = piece.need("Points").array("Points"); if (!pos) mc_fail("rank %d: no positions", me);
  const El& cells = piece.need("Cells"); const El &conn = *cells.array("connectivity"), &off = *cells.array("offsets"), &types = *cells.array("types");
  const El& data = piece.need("PointData"); const El *part = data.array("Part"), *vore = data.array("VorE"), *tags = data.array("Tag");
  auto n3 = [&](const El& e, long n, const char* what) { if ((long)e.num.size() != n) mc_fail("rank %d: %zu numbers in %s, %ld expected (%ld points, %ld cells)", me, e.num.size(), what, n, np, nc); };
  if (np != (long)wp.size() || nc != (long)wc.size()) mc_fail("rank %d: %ld points and %ld cells, %zu and %zu expected", me, np, nc, wp.size(), wc.size());
  n3(*pos, 3 * np, "the positions"); n3(conn, 2 * nc, "the connectivity"); n3(off, nc, "the offsets"); n3(types, nc, "the types");
  if (!part) mc_fail("rank %d: no part data", me); n3(*part, np, "Part"); for (double d : part->num) if (d != me) mc_fail("rank %d: part %g in its file", me, d);
  if (!!vore != r.hyper) mc_fail("rank %d: VorE is %s", me, vore ? "there" : "missing"); if (vore) n3(*vore, np, "VorE");
  bool want_tag = k.tag == 1 || ((k.tag == 2 || k.tag == 3) && r.hyper); if (!!tags != want_tag) mc_fail("rank %d: Tag is %s", me, tags ? "there" : "missing"); if (tags) n3(*tags, np, "Tag");
  std::vector<Pt> pt; std::multiset<Pt> gp; std::multiset<std::pair<Pt, Pt>> gc; std::multiset<std::pair<Pt, long>> gt;
  for (long i = 0; i < np; ++i) { pt.push_back(point(vore ? (int)vore->num[i] : 0, &pos->num[3 * i])); gp.insert(pt[i]); if (tags) gt.insert({pt[i], lround(tags->num[i])}); }
  for (long i = 0; i < nc; ++i) {
    long a = lround(conn.num[2 * i]), b = lround(conn.num[2 * i + 1]);
    if (a < 0 || a >= np || b < 0 || b >= np) mc_fail("rank %d: cell %ld joins points %ld and %ld of %ld", me, i, a, b, np);
    if (off.num[i] != 2 * (i + 1) || types.num[i] != 3) mc_fail("rank %d: cell %ld has offset %g and type %g", me, i, off.num[i], types.num[i]);
    gc.insert({pt[a], pt[b]});
  }
  if (gp != wp) { std::string s; for (auto& x : gp) s += " " + pts(x); s += ", expected"; for (auto& x : wp) s += " " + pts(x); mc_fail("rank %d: points%s", me, s.c_str()); }
  if (gc != wc) { std::string s; for (auto& x : gc) s += " " + pts(x.first) + "-" + pts(x.second); s += ", expected"; for (auto& x : wc) s += " " + pts(x.first) + "-" + pts(x.second); mc_fail("rank %d: cells%s", me, s.c_str()); }
  if (tags && gt != wt) { std::string s; for (auto& x : gt) s += " " + pts(x.first) + fmt("=%ld", x.second); s += ", expected"; for (auto& x : wt) s += " " + pts(x.first) + fmt("=%ld", x.second); mc_fail("rank %d: tags%s", me, s.c_str()); }
  if (!me) { // the index names every part's file and the arrays they hold
    El idx = parse(prefix + ".pvtu"); const El& grid = idx.need("PUnstructuredGrid"); std::vector<std::string> src; for (auto& x : grid.kids) if (x.name == "Piece") src.push_back(x.at.at("Source"));
    if ((int)src.size() != k.n) mc_fail("the index names %zu pieces", src.size());
    for (int q = 0; q < k.n; ++q) if (src[q] != prefix + fmt("%d.vtu", q)) mc_fail("piece %d of the index is %s", q, src[q].c_str());
    const El& pd = grid.need("PPointData"); std::set<std::string> a, b; for (auto& x : pd.kids) a.insert(x.at.at("Name")); for (auto& x : data.kids) b.insert(x.at.at("Name"));
    if (a != b || !grid.need("PPoints").array("Points", "PDataArray")) mc_fail("the index declares other arrays than the pieces hold");
    mc_transition(2); mc_state(gstate(r, p, k.tag));
  }
  CheckOpt co; co.what = "the graph after writing"; check_graph(g, r, p, co);
  if (tag) g->destroyTag(tag);
  agi::destroyGraph(g);
  EnGPar_Finalize();
}
MCH_ENTRY void mch_judge(u64, int, const mc_blob* const*, const int*) { mc_trace_validated(); }
