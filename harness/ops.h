// Operations of the library on a graph, in any order, for the harnesses that explore sequences of them.
#pragma once
#include "balance.h"
#include <engpar_metrics.h>
#include <engpar_split_input.h>
#include <binGraph.h>
#include <parmetis.h>
#include <unistd.h>
enum Op { OWN, RESET, RESETPART, MIGRATE, MIGRATE0, SAVELOAD, REMOVE0, REMOVEL, SETW, BALANCE, BALANCE2, BALANCEP, WBALANCE, EVAL, GETPART, WMIGRATE, GTAG, VALID, SPLIT, REBUILD, BINGRAPH, EXTRA, NOPS };
static const char* ON[] = {"setOriginalOwners", "resetOwnership", "resetPartition", "migrate", "empty migration", "save and load", "removeEdges(0)", "removeEdges(last)", "setWeights", "balance vertices", "balance edges and vertices", "balance with part weight balancer", "balanceWeights", "evaluatePartition", "getPartition", "weight migration", "ghost tag", "checkValidity", "global split", "rebuild", "createBinGraph", "constructEdges"};
extern "C" int ParMETIS_V3_PartKway(idx_t* vtxdist, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t* numflag, idx_t*, idx_t* nparts, real_t*, real_t*, idx_t*, idx_t* edgecut, idx_t* part, MPI_Comm* comm) {
  int self; MPI_Comm_rank(*comm, &self); MPI_Barrier(*comm);
  for (int i = 0; i < vtxdist[self + 1] - vtxdist[self]; ++i) part[i] = (vtxdist[self] + i) % *nparts + *numflag;
  *edgecut = 0; return METIS_OK;
}
// the communicator the operations are done on, and where their files are
static MPI_Comm opcomm = MPI_COMM_WORLD; static std::string opsub; static std::string opdir() { return std::string(mc_scratch()) + opsub; }
static int tagval(agi::Ngraph* g, agi::GraphVertex* v) { return (int)g->globalID(v) * 3 + 1; }
// everything the graph says on this rank, in the order it says it
static std::string dump(agi::Ngraph* g) {
  std::string s = fmt("%s %ld vertices:", g->isHyper() ? "hyper" : "graph", (long)g->numGlobalVtxs());
  agi::VertexIterator* it = g->begin(); agi::GraphVertex* v;
  while ((v = g->iterate(it))) s += fmt(" %ld(%.17g)", (long)g->globalID(v), g->weight(v));
  s += " ghosts:"; agi::GhostIterator* gi = g->beginGhosts();
  while ((v = g->iterate(gi))) s += fmt(" %ld(%.17g)@%d", (long)g->globalID(v), g->weight(v), g->owner(v));
  for (etype t = 0; t < g->numEdgeTypes(); ++t) {
    s += fmt(" type %d (%ld, %ld):", t, (long)g->numGlobalEdges(t), (long)g->numGlobalPins(t));
    agi::EdgeIterator* ei = g->begin(t); agi::GraphEdge* e;
    while ((e = g->iterate(ei))) { s += fmt(" (%.17g", g->weight(e)); agi::PinIterator* pi = g->pins(e); while ((v = g->iterate(pi))) s += fmt(" %ld", (long)g->globalID(v)); g->destroy(pi); s += ")"; }
    g->destroy(ei);
  }
  s += " weight partition:"; auto* wp = g->getWeightPartition(); std::map<Gid, std::map<Gid, double>> m; for (auto& a : *wp) for (auto& b : a.second) m[a.first][b.first] = b.second;
  for (auto& a : m) for (auto& b : a.second) s += fmt(" %ld>%ld:%.17g", (long)a.first, (long)b.first, b.second);
  return s;
}
static Ref cut(const Ref& r, int t) { Ref q = r; q.types.erase(q.types.begin() + t); return q; }
struct State { agi::Ngraph* g; bool own; int types; };
// dist: where the vertices of r were at first
static std::string apply(int op, State& st, int n, const Place& dist, int variant, int api, const Ref& r, int verb, int at) {
  agi::Ngraph* g = st.g; const int me = PCU_Comm_Self(); std::string res;
  auto shift = [&](int by) { agi::Migration* m = new agi::Migration(g); agi::VertexIterator* it = g->begin(); agi::GraphVertex* v; int i = 0; while ((v = g->iterate(it))) { if (by && (i + at) % 2 == 0) m->insert(std::make_pair(v, (me + by) % n)); ++i; } return m; };
  std::string path = opdir() + "/s";
  Cfg c;
  switch (op) {
    case OWN: g->setOriginalOwners(); st.own = true; break;
    case RESET: g->resetOwnership(); st.own = true; break;
    case RESETPART: g->resetPartition(); st.own = true; break;
    case MIGRATE: if (!st.own) g->setOriginalOwners(); st.own = true; g->migrate(shift(1)); break;
    case MIGRATE0: if (!st.own) g->setOriginalOwners(); st.own = true; g->migrate(shift(0)); break;
    case SAVELOAD: g->saveToFile(path.c_str()); g->loadFromFile(path.c_str()); st.own = false; break;
    case REMOVE0: if (st.types) { g->removeEdges(0); --st.types; } break;
    case REMOVEL: if (st.types) { g->removeEdges(st.types - 1); --st.types; } break;
    case SETW: { std::vector<wgt_t> w(g->numLocalVtxs()); for (size_t i = 0; i < w.size(); ++i) w[i] = 1 + (me + i) % 3; g->setWeights(w.data()); if (st.types) { std::vector<wgt_t> e(g->numLocalEdges(0), 2.5); g->setEdgeWeights(e, 0); } break; }
    case BALANCE: case BALANCE2: case BALANCEP: if (st.types) {
      c.prio = {-1}; c.tol = {1.05}; if (op == BALANCE2) { c.prio = {0, -1}; c.tol = {1.1}; } if (op == BALANCEP) c.pwb = true;
      c.sf = 0.5; c.maxit = 12; c.per = 8; c.dq = (at + variant) & 1; c.ghosts = api == 1; c.push = (at + variant) % 3 != 0; if (variant % 2) c.cut = 2; if ((at + variant) % 4 == 1) c.mincon = 2; engpar::balance(make_input(g, c), verb); if (n > 1) st.own = true; } break;
    case WBALANCE: if (st.types) { auto* in = engpar::createWeightInput(g, 1.05, 0.25, 0); in->maxIterations = 8; engpar::balanceWeights(in, verb); } break;
    case EVAL: if (st.types) engpar::evaluatePartition(g, "log"); break;
    case GETPART: if (st.own) { agi::PartitionMap* m = g->getPartition(); std::map<Gid, part_t> o(m->begin(), m->end()); for (auto& x : o) res += fmt(" %ld>%d", (long)x.first, x.second); delete m; } break;
    case WMIGRATE: { agi::WeightMigration* w = new agi::WeightMigration(g); agi::GhostIterator* gi = g->beginGhosts(); agi::GraphVertex *u = g->iterate(gi); agi::VertexIterator* it = g->begin(); agi::GraphVertex* a = g->iterate(it); if (a && u) w->insert(a, u, 0.25); g->migrate(w); break; }
    case GTAG: { agi::GraphTag* t = g->createIntGhostTag(tagval); agi::GhostIterator* gi = g->beginGhosts(); agi::GraphVertex* v; while ((v = g->iterate(gi))) res += fmt(" %d", g->getIntTag(t, v)); g->destroyTag(t); break; }
    case VALID: res += fmt(" valid %d", agi::checkValidity(g)); break;
    case SPLIT: if (st.types) { engpar::split(engpar::createGlobalSplitInput(g, opcomm, opcomm, true, 1.05, 0), engpar::GLOBAL_PARMETIS); st.own = true; } break;
    case REBUILD: construct(g, r, dist, BuildOpt{(api + 1) % 2, true}); st.own = false; st.types = (int)r.types.size(); break;
    case BINGRAPH: {
      std::string f = opdir() + "/" + std::string((variant + at) % 3 ? 1 : 245, 'b') + ".bin";
      if (!me) { FILE* o = fopen(f.c_str(), "wb"); for (int i = 0; i < 5; ++i) { int32_t x[4] = {i, i + 1, i + 1, i}; fwrite(x, 4, 4, o); } fclose(o); }
      MPI_Barrier(opcomm); agi::destroyGraph(g); st.g = agi::createBinGraph((char*)f.c_str()); st.own = false; st.types = 1; break;
    }
    case EXTRA: if (st.types < 6) { std::vector<Gid> e, p; std::vector<lid_t> d; std::vector<wgt_t> w; agi::VertexIterator* it = g->begin(); agi::GraphVertex* v; while ((v = g->iterate(it))) { e.push_back(g->globalID(v)); p.push_back(g->globalID(v)); p.push_back(g->globalID(v)); d.push_back(2); } if (g->isHyper()) { p.clear(); d.clear(); for (auto x : e) { p.push_back(x); d.push_back(1); } } g->constructEdges(e, d, p, w); std::unordered_map<Gid, part_t> own; agi::GhostIterator* gi = g->beginGhosts(); while ((v = g->iterate(gi))) own[g->globalID(v)] = g->owner(v); if ((at + api) & 1) g->constructGhosts(own); else { std::vector<Gid> id; std::vector<part_t> on; for (auto& x : own) { id.push_back(x.first); on.push_back(x.second); } g->constructGhosts((lid_t)id.size(), id.data(), on.data()); } ++st.types; } break;
  }
  return res;
}
