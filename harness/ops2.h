// More operations, for the harnesses that explore sequences of them (see ops.h).
#pragma once
#include "ops.h"
#include <engpar_queue.h>
#include <cengpar.h>
#include <zoltan.h>
#include <pcu_io.h>
enum { VEV = NOPS, TAGS, VTK, COORDS, SWITCH, PHASES, PLANS, WALK, REPART, LSPLIT, ZSPLIT, CAPI, FILES, ALLOPS };
static const char* XN[] = {"second adjacencies", "tags", "writeVTK", "setCoords", "another communicator and back", "message phases", "plans that are not carried out", "iterators", "repartition", "local split", "Zoltan split", "the C interface", "binary files"};
static const char* opname(int o) { return o < NOPS ? ON[o] : XN[o - NOPS]; }
static std::string slurp(const std::string& f) { std::string s; FILE* o = fopen(f.c_str(), "rb"); if (!o) return "(none)"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, o)) > 0) s.append(b, n); fclose(o); return s; }
// A partitioner that asks everything and sends every second vertex to the next part.
struct ZS { MPI_Comm comm; std::map<int, std::pair<void (*)(), void*>> fn; };
extern "C" int Zoltan_Initialize(int, char**, float* v) { *v = 3.9f; return ZOLTAN_OK; }
extern "C" struct Zoltan_Struct* Zoltan_Create(MPI_Comm c) { ZS* z = new ZS; z->comm = c; return (struct Zoltan_Struct*)z; }
extern "C" int Zoltan_Set_Param(struct Zoltan_Struct*, const char*, const char*) { return ZOLTAN_OK; }
extern "C" int Zoltan_Set_Fn(struct Zoltan_Struct* s, ZOLTAN_FN_TYPE t, void (*f)(), void* d) { ((ZS*)s)->fn[t] = {f, d}; return ZOLTAN_OK; }
extern "C" void Zoltan_Destroy(struct Zoltan_Struct** s) { delete (ZS*)*s; *s = NULL; }
extern "C" int Zoltan_LB_Free_Part(ZOLTAN_ID_PTR* a, ZOLTAN_ID_PTR* b, int** c, int** d) { free(*a); free(*b); free(*c); free(*d); *a = *b = NULL; *c = *d = NULL; return ZOLTAN_OK; }
extern "C" int Zoltan_LB_Partition(struct Zoltan_Struct* s, int* changes, int* nge, int* nle, int* ni, ZOLTAN_ID_PTR* ig, ZOLTAN_ID_PTR* il, int** ip, int** it, int* ne, ZOLTAN_ID_PTR* eg, ZOLTAN_ID_PTR* el, int** ep, int** et) {
  ZS& z = *(ZS*)s; int self, size, err = 0; MPI_Comm_rank(z.comm, &self); MPI_Comm_size(z.comm, &size); MPI_Barrier(z.comm);
#define CALL(type, ...) ((ZOLTAN_##type##_FN*)z.fn[ZOLTAN_##type##_FN_TYPE].first)(z.fn[ZOLTAN_##type##_FN_TYPE].second, ##__VA_ARGS__)
  int no = CALL(NUM_OBJ, &err); std::vector<unsigned> og(no + 1), ol(no + 1); std::vector<float> ow(no + 1);
  if (no) CALL(OBJ_LIST, 1, 1, og.data(), ol.data(), 1, ow.data(), &err);
  if (z.fn.count(ZOLTAN_HG_SIZE_CS_FN_TYPE)) {
    int lists = 0, pins = 0, format = 0, ned = 0; CALL(HG_SIZE_CS, &lists, &pins, &format, &err);
    if (pins) { std::vector<unsigned> id(lists + 1), pin(pins + 1); std::vector<int> ptr(lists + 1); CALL(HG_CS, 1, lists, pins, format, id.data(), ptr.data(), pin.data(), &err); }
    CALL(HG_SIZE_EDGE_WTS, &ned, &err); if (ned) { std::vector<unsigned> a(ned + 1), b(ned + 1); std::vector<float> w(ned + 1); CALL(HG_EDGE_WTS, 1, 1, ned, 1, a.data(), b.data(), w.data(), &err); }
  } else for (int i = 0; i < no; ++i) {
    int d = CALL(NUM_EDGES, 1, 1, &og[i], &ol[i], &err); std::vector<unsigned> nb(d + 1); std::vector<int> np(d + 1); std::vector<float> nw(d + 1);
    if (d) CALL(EDGE_LIST, 1, 1, &og[i], &ol[i], nb.data(), np.data(), 1, nw.data(), &err);
  }
  *nge = *nle = *changes = 1; *ni = -1; *ig = *il = NULL; *ip = *it = NULL; *ne = 0;
  *eg = (unsigned*)malloc(4 * no + 4); *el = (unsigned*)malloc(4 * no + 4); *ep = (int*)malloc(4 * no + 4); *et = (int*)malloc(4 * no + 4);
  for (int i = 0; i < no; i += 2) { (*eg)[*ne] = og[i]; (*el)[*ne] = ol[i]; (*ep)[*ne] = (*et)[*ne] = (self + 1) % size; ++*ne; }
  return ZOLTAN_OK;
}
static double tagd(agi::Ngraph* g, agi::GraphVertex* v) { return g->globalID(v) * 0.5; }
static long tagl(agi::Ngraph* g, agi::GraphVertex* v) { return g->globalID(v) * 7; }
static std::string extra(int op, State& st, const Place& dist, const Ref& r, int at) {
  agi::Ngraph* g = st.g; const int me = PCU_Comm_Self(), n = PCU_Comm_Peers(); agi::GraphVertex* v; agi::GraphEdge* e; std::string res;
  std::string path = opdir() + "/v";
  switch (op) {
    case VEV: for (int again = 0; again < 2; ++again) for (int t = 0; t < st.types; ++t) { g->create_vev_adjacency(t, (t + at + again) & 1); g->create_eve_adjacency(t, (t + at + again) & 1);
      agi::VertexIterator* it = g->begin(); while ((v = g->iterate(it))) { agi::VEVIterator* a = g->vev_begin(v, t); for (agi::GraphVertex* o = g->iterate(a); o && a != g->vev_end(v, t); o = g->iterate(a)) res += fmt(" %ld", (long)g->globalID(o)); res += ";"; }
      agi::EdgeIterator* ei = g->begin(t); while ((e = g->iterate(ei))) { agi::EVEIterator* a = g->eve_begin(e); for (agi::GraphEdge* o = g->iterate(a); o && a != g->eve_end(e); o = g->iterate(a)) res += fmt(" %d", (int)g->localID(o)); res += ";"; } g->destroy(ei); } break;
    case TAGS: {
      agi::GraphTag *a = g->createIntTag(), *b = g->createDoubleTag(), *c = g->createLongTag(); g->destroyTag(b); b = g->createDoubleTag();
      agi::GraphTag *d = g->createDoubleGhostTag(tagd), *f = g->createLongGhostTag(tagl);
      for (int t = 0; t < st.types; ++t) { agi::GraphTag* x = g->createIntTag(t); agi::GraphTag* y = g->createDoubleTag(t); agi::GraphTag* z = g->createLongTag(t); g->destroyTag(y); g->destroyTag(z); g->destroyTag(x); }
      { agi::GhostIterator* gi = g->beginGhosts(); while ((v = g->iterate(gi))) res += fmt(" %g %ld", g->getDoubleTag(d, v), (long)g->getLongTag(f, v)); }
      g->destroyTag(a); g->destroyTag(b); g->destroyTag(c); g->destroyTag(d); g->destroyTag(f); break; }
    case VTK: if (PCU_Max_Int(g->hasCoords()) && st.types) { agi::GraphTag* t = g->createIntTag(); agi::VertexIterator* it = g->begin(); while ((v = g->iterate(it))) g->setIntTag(t, v, me); agi::writeVTK(g, path.c_str(), t); agi::writeVTK(g, path.c_str(), t, VTX_TYPE); agi::writeVTK(g, path.c_str()); g->destroyTag(t); if (g->isHyper()) for (int y = 0; y < st.types; ++y) { t = g->createIntTag(y); agi::EdgeIterator* ei = g->begin(y); while ((e = g->iterate(ei))) g->setIntTag(t, e, me); g->destroy(ei); agi::writeVTK(g, path.c_str(), t, y); g->destroyTag(t); } res = fmt(" files %lx", (long)hstr(slurp(path + fmt("%d.vtu", me)))); } break;
    case COORDS: { std::vector<double> c(3 * (g->numLocalVtxs() + 1), 1.5); g->setCoords((agi::coord_t*)c.data()); break; }
    case SWITCH: { MPI_Comm c; MPI_Comm_split(opcomm, me % 2, -me, &c); EnGPar_Switch_Comm(c); PCU_Comm_Begin(); int x = me; PCU_COMM_PACK((PCU_Comm_Self() + 1) % PCU_Comm_Peers(), x); PCU_Comm_Send(); while (PCU_Comm_Receive()) PCU_COMM_UNPACK(x); res = fmt(" %d", x); PCU_Add_Int(1); EnGPar_Switch_Comm(opcomm); MPI_Comm_free(&c); break; }
    case PHASES: for (int o = 0; o < 2; ++o) { PCU_Comm_Order(!o); PCU_Comm_Begin(); for (int q = 0; q < n; ++q) for (int i = 0; i < 40 * (q + 1); ++i) PCU_COMM_PACK(q, i); PCU_Comm_Send(); int x; long got = 0, cnt = 0; while (PCU_Comm_Listen()) while (!PCU_Comm_Unpacked()) { PCU_COMM_UNPACK(x); ++cnt; got += (x + 1) * (PCU_Comm_Sender() + 1); } res += fmt(" %ld in %ld", got, cnt); PCU_Barrier(); PCU_Max_Double(me); PCU_Exscan_Long(me); PCU_Exscan_Int(me); PCU_Or(me); size_t z[3] = {1, 2, 3}; PCU_Add_SizeTs(z, 3); PCU_Comm_Begin(); for (int q = 0; q < n; ++q) PCU_COMM_WRITE(q, z); PCU_Comm_Send(); int from; void* data; size_t size; while (PCU_Comm_Read(&from, &data, &size)); PCU_Debug_Open(); PCU_Debug_Print("%d", me); } PCU_Comm_Order(true); break;
    case PLANS: { agi::Migration* m = new agi::Migration(g); agi::VertexIterator* it = g->begin(); while ((v = g->iterate(it))) m->insert(std::make_pair(v, (me + 1) % n)); delete m; agi::WeightMigration* w = new agi::WeightMigration(g); it = g->begin(); agi::GhostIterator* gi = g->beginGhosts(); agi::GraphVertex* u = g->iterate(gi); if (u && (v = g->iterate(it))) w->insert(v, u, 0.5); delete w;
      if (st.types) { delete engpar::createDiffusiveInput(g, 0.5); delete engpar::createWeightInput(g, 1.1, 0.2, 0); } break; }
    case CAPI: {
      ngraph q = cengpar_createEmptyGraph(); agi::Ngraph* qg = (agi::Ngraph*)q; construct(qg, r, dist, BuildOpt{1, true}); cengpar_saveToFile(q, path.c_str()); cengpar_loadFromFile(q, path.c_str()); cengpar_checkValidity(q);
      if (r.types.size()) { cengpar_evaluatePartition(q); cengpar_split(cengpar_createGlobalSplitInput(q, MPI_Comm_c2f(opcomm), MPI_Comm_c2f(opcomm), true, 1.05, 0), "GLOBAL_PARMETIS"); std::vector<Gid> a; std::vector<part_t> b; qg->resetOwnership(); int k = qg->numLocalVtxs(); a.resize(k + 1); b.resize(k + 1); cengpar_getPartition(q, a.data(), b.data(), k);
        engparInput in = cengpar_createDiffusiveInput(q, 0.2); cengpar_addPriority(in, -1, 1.1); cengpar_setCutGrowthFactor(in, 2); cengpar_balance(in, -1); }
      res = dump(qg);
      cengpar_destroyGraph(q); break; }
    case REPART: { std::vector<part_t> to(g->numLocalVtxs() + 1); for (size_t i = 0; i < to.size(); ++i) to[i] = (me + i) % n; g->repartition(to.data()); st.own = true; break; }
    case LSPLIT: if (st.types) { std::vector<part_t> all(n); for (int q = 0; q < n; ++q) all[q] = q; engpar::split(engpar::createLocalSplitInput(g, opcomm, opcomm, true, n, 1.05, all.data()), engpar::LOCAL_PARMETIS); st.own = true; } break;
    case ZSPLIT: if (st.types) { engpar::split(engpar::createGlobalSplitInput(g, opcomm, opcomm, true, 1.05, 0), engpar::ZOLTAN_PHG); st.own = true; } break;
    case FILES: for (int w = 1; w >= 0; --w) {
      pcu_file* f = pcu_fopen((path + fmt("%d", me)).c_str(), w, false); unsigned u[3] = {1, 2, 3}; double d[2] = {1.5, 2.5}; std::string str(5 + 40 * (at & 1), 'x'); char* got = NULL;
      if (w) { pcu_write_unsigneds(f, u, 3); pcu_write_doubles(f, d, 2); pcu_write_string(f, str.c_str()); } else { pcu_read_unsigneds(f, u, 3); pcu_read_doubles(f, d, 2); pcu_read_string(f, &got); res = fmt(" %u %u %u %g %g %s", u[0], u[1], u[2], d[0], d[1], got); free(got); }
      pcu_fclose(f); FILE* o = pcu_open_parallel(path.c_str(), "txt"); if (o) fclose(o); } break;
    case WALK: for (int t = 0; t < st.types; ++t) {
      agi::VertexIterator* it = g->begin(); while ((v = g->iterate(it))) { agi::EdgeIterator* ei = g->edges(v, t); while ((e = g->iterate(ei))) { agi::Peers p; g->getResidence(e, p); g->isCut(e); for (int q = 0; q < n; ++q) g->isResidentOn(e, q); if (!g->isHyper()) { g->u(e); g->v(e); } } g->destroy(ei); agi::GraphIterator* gi = g->adjacent(v, t); while (agi::GraphVertex* o = g->iterate(gi)) res += fmt(" %ld", (long)g->globalID(o)); res += ";"; g->destroy(gi); for (int left = at & 1; left < 3; ++left) { gi = g->adjacent(v, t); for (int i = 0; i < left && g->iterate(gi); ++i); g->destroy(gi); } }
      agi::EdgeIterator* ei = g->begin(t); while ((e = g->iterate(ei))) { agi::PinIterator* pi = g->pins(e); while (g->iterate(pi)); g->destroy(pi); g->isCut(e); for (int q = 0; q < n; ++q) g->isResidentOn(e, q); } g->destroy(ei); } break;
  }
  return res;
}
static std::string applyx(int op, State& st, int n, const Place& dist, int variant, int api, const Ref& r, int verb, int at) {
  return op < NOPS ? apply(op, st, n, dist, variant, api, r, verb, at) : extra(op, st, dist, r, at);
}
