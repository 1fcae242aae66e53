// Helpers for the harnesses of the balancers.
#pragma once
#include "refgraph.h"
#include <engpar.h>
#include <engpar_diffusive_input.h>
#include <engpar_weight_input.h>

struct Cfg {
  std::vector<int> prio; std::vector<double> tol;
  double sf = 0.5; int maxit = 1000, per = 100;
  bool pwb = false, ghosts = false, push = true; int dq = -1;   // dq -1: the library's default
  int sides = 0, sel = 0, mincon = 1, con = 0; double cut = 0;
  std::string str() const {
    std::string s = "priorities";
    for (size_t i = 0; i < prio.size(); ++i) s += i < tol.size() ? fmt(" %d(%g)", prio[i], tol[i]) : fmt(" %d", prio[i]);
    s += fmt(" step %g", sf);
    if (maxit != 1000) s += fmt(" maxIterations %d", maxit);
    if (per != 100) s += fmt(" perType %d", per);
    if (pwb) s += " partWeightBalancer"; if (ghosts) s += " countGhosts"; if (!push) s += " bfsPull";
    if (dq >= 0) s += dq ? " distanceQueue" : " iterationQueue";
    if (sides) s += fmt(" sides %d", sides); if (sel) s += fmt(" selection %d", sel); if (mincon != 1) s += fmt(" minConnectivity %d on %d", mincon, con);
    if (cut) s += fmt(" limitEdgeCutGrowth %g", cut);
    return s;
  }
};
inline engpar::DiffusiveInput* make_input(agi::Ngraph* g, const Cfg& c) {
  engpar::DiffusiveInput* in = engpar::createDiffusiveInput(g, c.sf);
  for (size_t i = 0; i < c.prio.size(); ++i) { if (i < c.tol.size()) in->addPriority(c.prio[i], c.tol[i]); else in->priorities.push_back(c.prio[i]); }
  in->maxIterations = c.maxit; in->maxIterationsPerType = c.per; in->runPartWeightBalancer = c.pwb;
  if (c.ghosts) in->balanceGhosts(true);
  if (c.dq >= 0) in->useDistanceQueue = c.dq;
  in->bfsPush = c.push; in->sides_edge_type = c.sides; in->selection_edge_type = c.sel; in->minConnectivity = c.mincon; in->connectivityType = c.con; in->limitEdgeCutGrowth = c.cut;
  return in;
}
// Weight of each part in a dimension (-1 vertices, else an edge type) under a placement.
inline std::vector<double> part_weights(const Ref& r, const Place& p, int n, int dim, bool ghosts = false) {
  std::vector<double> w(n, 0.0);
  for (int q = 0; q < n; ++q) {
    if (dim == -1) {
      for (int v = 0; v < r.nv(); ++v) if (p[v] == q) w[q] += r.vw(v);
      if (ghosts) { std::set<int> gs; for (auto& t : r.types) for (auto& e : t) if (r.edge_on(e, p, q)) for (int x : e.pins) if (p[x] != q) gs.insert(x); for (int x : gs) w[q] += r.vw(x); }
    } else for (auto& e : r.types[dim]) if (!e.pins.empty() && r.edge_on(e, p, q)) w[q] += r.ew(e);
  }
  return w;
}
inline double imbalance(const std::vector<double>& w) {
  double m = 0, t = 0; for (double x : w) { m = std::max(m, x); t += x; }
  return m / (t / w.size());
}
// Parts q sees as neighbours: they own a pin of an edge of the type that q holds.
inline std::set<int> neighbours(const Ref& r, const Place& p, int q, int type) {
  std::set<int> s; if (type >= (int)r.types.size()) return s;
  for (auto& e : r.types[type]) if (r.edge_on(e, p, q)) for (int x : e.pins) if (p[x] != q) s.insert(p[x]);
  return s;
}
