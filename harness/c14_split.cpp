// C14: splitting obeys the external partitioner and leaves the system usable. The partitioners are
// replaced by stand-ins that check what they are given and return the answer the case enumerates.
#include "refgraph.h"
#include <engpar.h>
#include <engpar_input.h>
#include <engpar_split_input.h>
#include <parmetis.h>
#include <zoltan.h>
enum { GLOBAL, LOCAL, PHG };
struct Case { int ref, n, mask, pol, method, keyrev, largerev, from, answer, sf, table, preset, empty, et, api; double tol; };
static std::vector<Ref> R; static std::vector<Case> C; static Places P;
MCH_ENTRY const char* mch_property() { return "C14"; }
static int bits(int m) { return __builtin_popcount(m); }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear(); unsigned cyc = 0;
  auto add = [&](Ref q, int n, int pol, int et, int stride) {
    for (int v = 0; v < q.nv(); ++v) q.w[v] = 1 + 3 * v; // distinct whole numbers
    R.push_back(q); int nv = q.nv();
    for (int m = 1; m < (1 << n); ++m) for (int method = 0; method < 3; ++method) for (int sf = 1; sf <= (method == LOCAL ? n : 1); ++sf) {
      int ns = bits(m), na = method == LOCAL ? sf : n;
      for (int a = 0; a < (int)P[nv][ns].size(); ++a) for (int b = 0; b < (int)P[nv][na].size(); ++b) {
        if (cyc++ % stride) continue;
        unsigned h = (unsigned)hmix(hmix(7, cyc), R.size());
        C.push_back({(int)R.size() - 1, n, m, pol, method, (int)(h % 3 == 0), (int)(h / 3 % 4 == 0), a, b, sf, (int)(h / 12 % 3), (int)(h / 36 % 3 == 0), (int)(h / 108 % 2), et, (int)(h / 216 % 2), 1.01 + 0.01 * (h / 432 % 9)});
      }
    }
  };
  const int B = MC_POL_RTB, BH = MC_POL_RTB | MC_POL_HOLD;
  Ref tri3 = mkref("chain", true, 3, {EL{{0, 1}, {1, 2}}}, 1), wide = mkref("wide", true, 3, {EL{{0, 1, 2}, {0, 2}, {1}}}, 0), dig = mkref("both", false, 3, {both(chain(3))}, 1), dig2 = mkref("both", false, 3, {both(cycle(3))}, 0);
  for (auto& r : {tri3, wide, dig, dig2}) { add(r, 2, BH, 0, 1); add(r, 3, B, 0, th ? 1 : 3); }
  Ref two = mkref("two", true, 3, {EL{{0, 1}}, EL{{1, 2}, {0, 1, 2}}}, 1); two.coords = true;
  for (int t = 0; t < 2; ++t) { add(two, 2, B, t, 1); add(two, 3, B, t, th ? 1 : 5); }
  Ref d2 = mkref("two", false, 3, {both(EL{{0, 1}}), both(EL{{1, 2}, {0, 2}})}); d2.coords = true;
  for (int t = 0; t < 2; ++t) { add(d2, 2, B, t, 1); add(d2, 3, B, t, th ? 1 : 5); }
  for (auto& e : all_hyper(3, 2)) { Ref r = mkref("all", true, 3, {e}, cyc % 2); add(r, 2, B, 0, th ? 1 : 7); add(r, 3, B, 0, th ? 7 : 97); }
  for (auto& e : {chain(4), EL{{0, 1, 2, 3}, {1, 3}}, EL{{0, 3}}}) { add(mkref("four", true, 4, {e}, 1), 3, B, 0, th ? 5 : 61); add(mkref("four", true, 4, {e}, 1), 4, B, 0, th ? 97 : 997); }
  for (auto& e : {both(star(4)), both(cycle(4))}) { add(mkref("four", false, 4, {e}, 1), 3, B, 0, th ? 5 : 61); add(mkref("four", false, 4, {e}, 1), 4, B, 0, th ? 97 : 997); }
  add(tri3, 3, MC_POL_ALL, 0, th ? 11 : 97); add(dig, 3, MC_POL_ALL, 0, th ? 11 : 97);
  // beyond the sizes and rank counts of the others
  auto big = [&](Ref q, std::initializer_list<int> ns, int count) {
    for (int v = 0; v < q.nv(); ++v) q.w[v] = 1 + 3 * v;
    R.push_back(q); const int nv = q.nv();
    for (int n : ns) for (int i = 0; i < count; ++i) {
      u64 h = hmix(hmix(43, C.size()), i); int m = 1 + (int)(h % ((1u << n) - 1)), method = (int)(hmix(h, 1) % 3), sf = method == LOCAL ? 1 + (int)(hmix(h, 2) % n) : 1, ns_ = bits(m), na = method == LOCAL ? sf : n; h = hmix(h, 3);
      int a = (int)(hmix(h, 4) % P[nv][ns_].size()), b = (int)(hmix(h, 5) % P[nv][na].size()), et = (int)(h / 77 % q.types.size());
      C.push_back({(int)R.size() - 1, n, m, B, method, (int)(h % 3 == 0), (int)(h / 3 % 4 == 0), a, b, sf, (int)(h / 12 % 3), (int)(h / 36 % 3 == 0), (int)(h / 108 % 2), et, (int)(h / 216 % 2), 1.01 + 0.01 * (h / 432 % 9)});
    }
  };
  { EL all(1); for (int v = 0; v < 40; ++v) all[0].push_back(v); for (auto& e : chain(40)) all.push_back(e);
    Ref a = mkref("large", true, 40, {all, star(40)}, 1), b = mkref("large", false, 40, {both(chain(40)), both(star(40))}, 0), d = mkref("spread", true, 12, {tri(12), star(12)}, 0), e = mkref("spread", false, 12, {both(cycle(12))}, 1);
    a.coords = e.coords = true;
    for (auto& r : {a, b}) big(r, {1, 2, 3, 4}, th ? 60 : 20); for (auto& r : {d, e}) big(r, {5, 8, 9, 10, 16}, th ? 60 : 20);
    Ref f = mkref("larger", true, 300, {chain(300)}, 1), g = mkref("larger", false, 300, {both(cycle(300))}, 1); for (auto& r : {f, g}) big(r, {2, 3}, th ? 12 : 5); }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = 0; p->policies = C[c].pol; p->shards = 1; }
static const char* MN[] = {"GLOBAL_PARMETIS", "LOCAL_PARMETIS", "ZOLTAN_PHG"};
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; const Ref& r = R[k.ref]; std::string o; for (int i = 0; i < k.n; ++i) if (k.mask >> i & 1) o += fmt("%d", i);
  std::string s = r.str() + fmt(" on world ranks {%s} of %d%s%s, vertices on %s, %s type %d", o.c_str(), k.n, k.keyrev ? " in reverse" : "", k.largerev ? ", large communicator reversed" : "", pstr(P[r.nv()][bits(k.mask)][k.from]).c_str(), MN[k.method], k.et);
  if (k.method == LOCAL) s += fmt(" into %d (ranks table %d)", k.sf, k.table);
  s += " answering " + pstr(P[r.nv()][k.method == LOCAL ? k.sf : k.n][k.answer]);
  if (k.preset) s += ", owners recorded before";
  snprintf(b, n, "%s", s.c_str());
}
// ---- what the case expects (per rank) ------------------------------------------------------------
static const Case* K; static const Ref* RR; static Place SMALL, ANSWER; static int MYSMALL, CALLS;
static bool share_w(const Ref& r, int u, int v, int t, double* w) { // summed weight of the edges from u to v
  bool any = false; *w = 0;
  for (auto& e : r.types[t]) {
    if (r.hyper) { bool a = false, b = false; for (int p : e.pins) { a |= p == u; b |= p == v; } if (a && b) { any = true; *w += r.ew(e); } }
    else if (e.pins[0] == u && e.pins[1] == v) { any = true; *w += r.ew(e); }
  }
  return any;
}
static int by_weight(long w) { for (int v = 0; v < RR->nv(); ++v) if ((long)RR->vw(v) == w) return v; return -1; }
extern "C" int ParMETIS_V3_PartKway(idx_t* vtxdist, idx_t* xadj, idx_t* adjncy, idx_t* vwgt, idx_t* adjwgt, idx_t* wgtflag, idx_t* numflag, idx_t* ncon, idx_t* nparts, real_t* tpwgts, real_t* ubvec, idx_t* options, idx_t* edgecut, idx_t* part, MPI_Comm* comm) {
  if (K->method == PHG) mc_fail("ParMETIS was called by a Zoltan split");
  ++CALLS;
  int self, size; MPI_Comm_rank(*comm, &self); MPI_Comm_size(*comm, &size);
  const bool local = K->method == LOCAL; const int ns = bits(K->mask);
  if (size != (local ? 1 : ns) || self != (local ? 0 : MYSMALL)) mc_fail("ParMETIS runs on %d ranks as rank %d", size, self);
  MPI_Barrier(*comm); // it is collective over the communicator
  if (*numflag != 0 && *numflag != 1) mc_fail("ParMETIS: numflag %d", *numflag);
  const int base = *numflag;
  if (*ncon != 1 || *nparts != (local ? K->sf : K->n)) mc_fail("ParMETIS: %d constraints, %d parts", *ncon, *nparts);
  double sum = 0; for (int i = 0; i < *nparts; ++i) { sum += tpwgts[i]; if (std::abs(tpwgts[i] - 1.0 / *nparts) > 1e-5) mc_fail("ParMETIS: tpwgts[%d] is %g", i, tpwgts[i]); }
  if (std::abs(ubvec[0] - K->tol) > 1e-5) mc_fail("ParMETIS: imbalance tolerance %g, %g was asked for", ubvec[0], K->tol);
  int mine = 0; for (int v = 0; v < RR->nv(); ++v) mine += SMALL[v] == MYSMALL;
  if (vtxdist[0] != 0 || vtxdist[self + 1] - vtxdist[self] != mine) mc_fail("ParMETIS: vtxdist says %d vertices, the part has %d", vtxdist[self + 1] - vtxdist[self], mine);
  std::vector<int> d0(vtxdist, vtxdist + size + 1), d1(size + 1); MPI_Allreduce(d0.data(), d1.data(), size + 1, MPI_INT, MPI_MAX, *comm);
  if (d0 != d1) mc_fail("ParMETIS: vtxdist differs between the ranks");
  int total = vtxdist[size]; if (total != (local ? mine : RR->nv())) mc_fail("ParMETIS: %d vertices in total", total);
  if (xadj[0] != base) mc_fail("ParMETIS: xadj starts at %d", xadj[0]);
  if (!(*wgtflag & 2) || !(*wgtflag & 1)) mc_fail("ParMETIS: wgtflag %d, the graph is weighted", *wgtflag);
  // which vertex each number stands for, known from the weights
  std::vector<int> num(total + 1, -1), all(total + 1, -1);
  std::set<int> seen;
  for (int i = 0; i < mine; ++i) { int v = by_weight(vwgt[i]); if (v < 0 || SMALL[v] != MYSMALL || !seen.insert(v).second) mc_fail("ParMETIS: the vertex weights are not those of the part's vertices"); num[vtxdist[self] + i] = v; }
  MPI_Allreduce(num.data(), all.data(), total, MPI_INT, MPI_MAX, *comm);
  for (int i = 0; i < mine; ++i) {
    int v = num[vtxdist[self] + i]; std::map<int, double> want, got; double w;
    for (int u = 0; u < RR->nv(); ++u) if (u != v && (!local || SMALL[u] == MYSMALL) && share_w(*RR, v, u, K->et, &w)) want[u] = w;
    if (xadj[i + 1] < xadj[i]) mc_fail("ParMETIS: xadj decreases");
    for (int j = xadj[i] - base; j < xadj[i + 1] - base; ++j) { int x = adjncy[j] - base; if (x < 0 || x >= total) mc_fail("ParMETIS: vertex %d is adjacent to %d of %d vertices", v, x, total); int u = all[x]; if (u == v) mc_fail("ParMETIS: vertex %d is adjacent to itself", v); if (got.count(u)) mc_fail("ParMETIS: vertices %d and %d are adjacent twice", v, u); got[u] = adjwgt[j]; }
    if (want != got) { std::string a, b; for (auto& x : want) a += fmt(" %d:%g", x.first, x.second); for (auto& x : got) b += fmt(" %d:%g", x.first, x.second); mc_fail("ParMETIS: vertex %d has the neighbours%s, expected%s", v, b.c_str(), a.c_str()); }
    part[i] = ANSWER[v] + base;
  }
  (void)options; *edgecut = 0;
  return METIS_OK;
}
// ---- Zoltan ---------------------------------------------------------------------------------------
struct ZS { MPI_Comm comm; std::map<std::string, std::string> par; std::map<int, std::pair<void (*)(), void*>> fn; };
extern "C" int Zoltan_Initialize(int, char**, float* v) { *v = 3.9f; return ZOLTAN_OK; }
extern "C" struct Zoltan_Struct* Zoltan_Create(MPI_Comm c) { ZS* z = new ZS; z->comm = c; return (struct Zoltan_Struct*)z; }
extern "C" int Zoltan_Set_Param(struct Zoltan_Struct* s, const char* a, const char* b) { ((ZS*)s)->par[a] = b; return ZOLTAN_OK; }
extern "C" int Zoltan_Set_Fn(struct Zoltan_Struct* s, ZOLTAN_FN_TYPE t, void (*f)(), void* d) { ((ZS*)s)->fn[t] = {f, d}; return ZOLTAN_OK; }
extern "C" void Zoltan_Destroy(struct Zoltan_Struct** s) { delete (ZS*)*s; *s = NULL; }
extern "C" int Zoltan_LB_Free_Part(ZOLTAN_ID_PTR* a, ZOLTAN_ID_PTR* b, int** c, int** d) { free(*a); free(*b); free(*c); free(*d); *a = *b = NULL; *c = *d = NULL; return ZOLTAN_OK; }
static const unsigned JUNK = 0xDEADBEEF; static const float FJUNK = -12345.f;
extern "C" int Zoltan_LB_Partition(struct Zoltan_Struct* s, int* changes, int* nge, int* nle, int* ni, ZOLTAN_ID_PTR* ig, ZOLTAN_ID_PTR* il, int** ip, int** it, int* ne, ZOLTAN_ID_PTR* eg, ZOLTAN_ID_PTR* el, int** ep, int** et) {
  ZS& z = *(ZS*)s; ++CALLS;
  if (K->method != PHG) mc_fail("Zoltan was called by a ParMETIS split");
  int self, size; MPI_Comm_rank(z.comm, &self); MPI_Comm_size(z.comm, &size);
  if (size != K->n) mc_fail("Zoltan runs on %d ranks", size);
  const Ref& r = *RR; MPI_Barrier(z.comm);
  auto par = [&](const char* n) { return z.par.count(n) ? z.par[n] : std::string(); };
  if (par("NUM_GLOBAL_PARTS") != fmt("%d", K->n)) mc_fail("Zoltan: NUM_GLOBAL_PARTS %s", par("NUM_GLOBAL_PARTS").c_str());
  if (std::abs(atof(par("IMBALANCE_TOL").c_str()) - K->tol) > 1e-5) mc_fail("Zoltan: IMBALANCE_TOL %s, %g was asked for", par("IMBALANCE_TOL").c_str(), K->tol);
  if (par("LB_METHOD") != (r.hyper ? "HYPERGRAPH" : "GRAPH")) mc_fail("Zoltan: LB_METHOD %s", par("LB_METHOD").c_str());
  if (par("OBJ_WEIGHT_DIM") != "1" || par("EDGE_WEIGHT_DIM") != "1") mc_fail("Zoltan: weights are not used");
  auto fn = [&](int t) { if (!z.fn.count(t)) mc_fail("Zoltan: callback %d is missing", t); return z.fn[t]; };
#define CALL(T, type, ...) ((ZOLTAN_##type##_FN*)fn(T).first)(fn(T).second, ##__VA_ARGS__)
#define OK(what) if (err != ZOLTAN_OK) mc_fail("Zoltan: the callback %s failed", what)
  int err = 77;
  int no = CALL(ZOLTAN_NUM_OBJ_FN_TYPE, NUM_OBJ, &err); OK("NUM_OBJ");
  std::vector<int> mine; for (int v = 0; v < r.nv(); ++v) if (SMALL[v] == MYSMALL) mine.push_back(v);
  if (no != (int)mine.size()) mc_fail("Zoltan: %d objects, the part has %zu vertices", no, mine.size());
  std::vector<unsigned> og(no + 1, JUNK), ol(no + 1, JUNK); std::vector<float> ow(no + 1, FJUNK);
  if (no) { err = 77; CALL(ZOLTAN_OBJ_LIST_FN_TYPE, OBJ_LIST, 1, 1, og.data(), ol.data(), 1, ow.data(), &err); OK("OBJ_LIST"); }
  if (og[no] != JUNK || ol[no] != JUNK || ow[no] != FJUNK) mc_fail("Zoltan: the object list overruns its arrays");
  std::map<int, unsigned> lid; std::vector<int> ord;
  for (int i = 0; i < no; ++i) { int v = vindex(r, og[i]); if (v < 0 || SMALL[v] != MYSMALL || lid.count(v)) mc_fail("Zoltan: object %u is not a vertex of the part", og[i]); if (ow[i] != (float)r.vw(v)) mc_fail("Zoltan: vertex %d has weight %g", v, ow[i]); lid[v] = ol[i]; ord.push_back(v); }
  std::vector<int> proc(r.nv(), -1), pall(r.nv(), -1); for (int v : ord) proc[v] = self;
  MPI_Allreduce(proc.data(), pall.data(), r.nv(), MPI_INT, MPI_MAX, z.comm);
  if (r.hyper) {
    int lists = -1, pins = -1, format = -1; err = 77;
    CALL(ZOLTAN_HG_SIZE_CS_FN_TYPE, HG_SIZE_CS, &lists, &pins, &format, &err); OK("HG_SIZE_CS");
    int want = 0; for (auto& e : r.types[K->et]) for (int p : e.pins) want += SMALL[p] == MYSMALL;
    std::multiset<std::pair<unsigned, unsigned>> got, exp; // vertex, edge
    if (pins < 0 || lists < 0) mc_fail("Zoltan: %d lists, %d pins", lists, pins);
    if (pins > 0) {
      std::vector<unsigned> id(lists + 1, JUNK), pin(pins + 1, JUNK); std::vector<int> ptr(lists + 1, -9); err = 77;
      CALL(ZOLTAN_HG_CS_FN_TYPE, HG_CS, 1, lists, pins, format, id.data(), ptr.data(), pin.data(), &err); OK("HG_CS");
      if (id[lists] != JUNK || ptr[lists] != -9 || pin[pins] != JUNK) mc_fail("Zoltan: the pin lists overrun their arrays");
      ptr[lists] = pins;
      if (lists && ptr[0] != 0) mc_fail("Zoltan: the first list starts at %d", ptr[0]);
      for (int i = 0; i < lists; ++i) { if (ptr[i + 1] < ptr[i]) mc_fail("Zoltan: the pin lists decrease"); for (int j = ptr[i]; j < ptr[i + 1]; ++j) got.insert(format == ZOLTAN_COMPRESSED_VERTEX ? std::make_pair(id[i], pin[j]) : std::make_pair(pin[j], id[i])); }
    }
    // the parts together name each pin (a part may name pins of its own vertices only, or whole edges)
    if (format == ZOLTAN_COMPRESSED_VERTEX) {
      for (auto& e : r.types[K->et]) for (int p : e.pins) if (SMALL[p] == MYSMALL) exp.insert({(unsigned)r.gid[p], (unsigned)e.id});
      if (got != exp) { std::string a; for (auto& x : got) a += fmt(" (vertex %u, edge %u)", x.first, x.second); mc_fail("Zoltan: the pins of the part are%s; %zu expected", a.c_str(), exp.size()); }
    } else mc_fail("INTERNAL the stand-in for Zoltan supports only compressed vertex storage");
    int ned = -1; err = 77; CALL(ZOLTAN_HG_SIZE_EDGE_WTS_FN_TYPE, HG_SIZE_EDGE_WTS, &ned, &err); OK("HG_SIZE_EDGE_WTS");
    if (ned < 0) mc_fail("Zoltan: %d edge weights", ned);
    std::vector<unsigned> gg(ned + 1, JUNK), gl(ned + 1, JUNK); std::vector<float> gw(ned + 1, FJUNK);
    if (ned) { err = 77; CALL(ZOLTAN_HG_EDGE_WTS_FN_TYPE, HG_EDGE_WTS, 1, 1, ned, 1, gg.data(), gl.data(), gw.data(), &err); OK("HG_EDGE_WTS"); }
    if (gg[ned] != JUNK || gw[ned] != FJUNK) mc_fail("Zoltan: the edge weights overrun their arrays");
    std::vector<int> told(r.types[K->et].size() + 1, 0), tall(told);
    for (int i = 0; i < ned; ++i) { bool ok = false; for (size_t e = 0; e < r.types[K->et].size(); ++e) { auto& x = r.types[K->et][e]; if ((unsigned)x.id == gg[i]) { ok = true; told[e] = 1; if (gw[i] != (float)r.ew(x)) mc_fail("Zoltan: edge %u has weight %g", gg[i], gw[i]); } } if (!ok) mc_fail("Zoltan: a weight for the unknown edge %u", gg[i]); }
    MPI_Allreduce(told.data(), tall.data(), (int)told.size(), MPI_INT, MPI_MAX, z.comm);
    for (size_t e = 0; e < r.types[K->et].size(); ++e) if (!tall[e]) mc_fail("Zoltan: no part gives the weight of edge %zu", e);
  } else {
    for (int i = 0; i < no; ++i) {
      int v = ord[i]; unsigned g = og[i], l = ol[i]; err = 77;
      int d = CALL(ZOLTAN_NUM_EDGES_FN_TYPE, NUM_EDGES, 1, 1, &g, &l, &err); OK("NUM_EDGES");
      std::vector<unsigned> nb(d + 1, JUNK); std::vector<int> np(d + 1, -9); std::vector<float> nw(d + 1, FJUNK);
      if (d > 0) { err = 77; CALL(ZOLTAN_EDGE_LIST_FN_TYPE, EDGE_LIST, 1, 1, &g, &l, nb.data(), np.data(), 1, nw.data(), &err); OK("EDGE_LIST"); }
      if (nb[d] != JUNK || np[d] != -9 || nw[d] != FJUNK) mc_fail("Zoltan: the edges of vertex %d overrun their arrays", v);
      std::multiset<std::pair<int, float>> got, exp;
      for (auto& e : r.types[K->et]) if (e.pins[0] == v) exp.insert({e.pins[1], (float)r.ew(e)});
      for (int j = 0; j < d; ++j) { int u = vindex(r, nb[j]); if (u < 0) mc_fail("Zoltan: vertex %d has the unknown neighbour %u", v, nb[j]); if (np[j] != pall[u]) mc_fail("Zoltan: neighbour %d of vertex %d is said to be on rank %d and is on %d", u, v, np[j], pall[u]); got.insert({u, nw[j]}); }
      if (got != exp) mc_fail("Zoltan: the edges of vertex %d are wrong", v);
    }
  }
  std::string ret = par("RETURN_LISTS"); *nge = *nle = 1; *changes = 0;
  std::vector<int> imp, exp; for (int v = 0; v < r.nv(); ++v) { if (ANSWER[v] == self && pall[v] != self) imp.push_back(v); if (pall[v] == self && ANSWER[v] != self) exp.push_back(v); if (ANSWER[v] != pall[v]) *changes = 1; }
  auto arr = [](size_t n) { return (int*)malloc(4 * (n + 1)); };
  *ni = *ne = -1; *ig = *il = *eg = *el = NULL; *ip = *it = *ep = *et = NULL;
  if (ret.empty() || ret == "ALL" || ret == "IMPORT") { *ni = (int)imp.size(); *ig = (unsigned*)arr(*ni); *il = (unsigned*)arr(*ni); *ip = arr(*ni); *it = arr(*ni); for (int i = 0; i < *ni; ++i) { (*ig)[i] = (unsigned)r.gid[imp[i]]; (*il)[i] = 0; (*ip)[i] = pall[imp[i]]; (*it)[i] = self; } }
  if (ret.empty() || ret == "ALL" || ret == "EXPORT") { *ne = (int)exp.size(); *eg = (unsigned*)arr(*ne); *el = (unsigned*)arr(*ne); *ep = arr(*ne); *et = arr(*ne); for (int i = 0; i < *ne; ++i) { (*eg)[i] = (unsigned)r.gid[exp[i]]; (*el)[i] = lid[exp[i]]; (*ep)[i] = (*et)[i] = ANSWER[exp[i]]; } }
  return ZOLTAN_OK;
}
// ---------------------------------------------------------------------------------------------------
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const Ref& r = R[k.ref]; const int me = mc_rank(), ns = bits(k.mask);
  K = &k; RR = &r; CALLS = 0; MYSMALL = -1;
  bool orig = k.mask >> me & 1;
  SMALL = P[r.nv()][ns][k.from];
  EnGPar_Initialize(-1);
  MPI_Comm small, large = MPI_COMM_WORLD;
  if (k.largerev) MPI_Comm_split(MPI_COMM_WORLD, 0, k.n - me, &large);
  MPI_Comm_split(MPI_COMM_WORLD, !orig, k.keyrev ? k.n - me : me, &small);
  // numbering of the ranks
  auto lrank = [&](int w) { return k.largerev ? k.n - 1 - w : w; };
  std::vector<int> world; for (int w = 0; w < k.n; ++w) if (k.mask >> w & 1) world.push_back(w);
  if (k.keyrev) std::reverse(world.begin(), world.end());
  if (orig) for (int i = 0; i < ns; ++i) if (world[i] == me) MYSMALL = i;
  // who others are, in a local split
  auto others = [&](int s) { std::vector<part_t> o; int l = lrank(world[s]); for (int i = 0; i < k.sf; ++i) o.push_back(k.table == 0 ? (l + i) % k.n : k.table == 1 ? (l + k.n - i) % k.n : i); return o; };
  ANSWER = P[r.nv()][k.method == LOCAL ? k.sf : k.n][k.answer];
  Place to = ANSWER; if (k.method == LOCAL) for (int v = 0; v < r.nv(); ++v) to[v] = others(SMALL[v])[ANSWER[v]];
  EnGPar_Switch_Comm(small);
  agi::Ngraph* g; BuildOpt o; o.api = k.api;
  if (orig) { g = build(r, SMALL, o); if (k.preset) g->setOriginalOwners(); }
  else if (k.empty) g = agi::createEmptyGraph();
  else { Ref q = r; g = build(q, Place(r.nv(), -1), o); if (k.preset) g->setOriginalOwners(); }
  std::vector<part_t> mine; if (orig && k.method == LOCAL) mine = others(MYSMALL);
  std::vector<part_t> dummy(k.n, 0);
  engpar::SplitInput* in = k.method == LOCAL ? engpar::createLocalSplitInput(g, small, large, orig, k.sf, k.tol, orig ? mine.data() : dummy.data(), k.et) : engpar::createGlobalSplitInput(g, small, large, orig, k.tol, k.et);
  engpar::split(in, k.method == GLOBAL ? engpar::GLOBAL_PARMETIS : k.method == LOCAL ? engpar::LOCAL_PARMETIS : engpar::ZOLTAN_PHG);
  if (CALLS != (k.method == PHG || orig)) mc_fail("rank %d called the partitioner %d times", me, CALLS);
  if (PCU_Comm_Peers() != k.n || PCU_Comm_Self() != lrank(me)) mc_fail("after the split rank %d is %d of %d", me, PCU_Comm_Self(), PCU_Comm_Peers());
  MPI_Comm_free(&small);
  Place owner(r.nv()); for (int v = 0; v < r.nv(); ++v) owner[v] = lrank(world[SMALL[v]]);
  CheckOpt co; co.what = "after the split"; co.orig = &owner;
  check_graph(g, r, to, co);
  if (!me) { mc_transition(1); mc_state(hmix(gstate(r, to, k.mask), k.from * 64 + k.method)); }
  agi::PartitionMap* m = g->getPartition(); size_t cnt = 0;
  for (int v = 0; v < r.nv(); ++v) if (owner[v] == PCU_Comm_Self()) { ++cnt; if (!m->count(r.gid[v]) || (*m)[r.gid[v]] != to[v]) mc_fail("the partition of rank %d does not send vertex %d to %d", PCU_Comm_Self(), v, to[v]); }
  if (m->size() != cnt) mc_fail("the partition of rank %d names %zu vertices, %zu expected", PCU_Comm_Self(), m->size(), cnt);
  delete m;
  // still an ordinary graph on the large communicator
  Place next = to; for (auto& x : next) x = (x + 1) % k.n;
  agi::Migration* plan = new agi::Migration(g);
  for (int v = 0; v < r.nv(); ++v) if (to[v] == PCU_Comm_Self()) plan->insert(std::make_pair(g->findGID(r.gid[v]), next[v]));
  g->migrate(plan);
  co.what = "after a migration that follows the split"; check_graph(g, r, next, co);
  agi::destroyGraph(g);
  EnGPar_Switch_Comm(MPI_COMM_WORLD);
  if (k.largerev) MPI_Comm_free(&large);
  EnGPar_Finalize();
  if (mc_open_comms(me)) mc_fail("rank %d leaves %d communicators open", me, mc_open_comms(me));
}
MCH_ENTRY void mch_judge(u64, int, const mc_blob* const*, const int*) { mc_trace_validated(); }
