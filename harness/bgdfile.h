// An independent encoder and decoder of the documented .bgd format (agi/agiIO.cpp): big endian
// 32-bit unsigneds and doubles.
#pragma once
#include "refgraph.h"
struct BgdOut {
  std::string s;
  void u(u64 x) { for (int i = 3; i >= 0; --i) s += (char)(x >> (8 * i)); }
  void d(double v) { u64 x; memcpy(&x, &v, 8); for (int i = 7; i >= 0; --i) s += (char)(x >> (8 * i)); }
};
struct BgdIn {
  const std::string& s; size_t at = 0; int rank;
  u64 get(int n) { if (at + n > s.size()) mc_fail("the file of rank %d ends early, at byte %zu", rank, s.size()); u64 x = 0; while (n--) x = x << 8 | (unsigned char)s[at++]; return x; }
  u64 u() { return get(4); }
  double d() { u64 x = get(8); double v; memcpy(&v, &x, 8); return v; }
};
inline std::string bgd_bytes(const Ref& r, const Place& p, int rank, bool rev) {
  std::vector<int> vs; std::vector<std::vector<const Edge*>> es; std::unordered_map<Gid, part_t> own;
  part_lists(r, p, rank, rev, vs, es, own);
  BgdOut f; f.u(r.hyper); f.u(vs.size());
  for (int v : vs) { f.u(r.gid[v]); f.d(r.vw(v)); }
  f.u(r.coords);
  if (r.coords) for (int v : vs) { double c[3]; r.coord(v, c); for (double x : c) f.d(x); }
  f.u(es.size());
  for (size_t t = 0; t < es.size(); ++t) {
    f.u(t); f.u(es[t].size());
    for (auto e : es[t]) { f.u(e->id); f.d(r.ew(*e)); f.u(e->pins.size()); for (int x : e->pins) f.u(r.gid[x]); }
  }
  f.u(own.size());
  for (auto& o : own) { f.u(o.first); f.u(o.second); }
  return f.s;
}
// the file of `rank` says exactly what the reference says, in any order of vertices, edges and ghosts
inline void bgd_expect(const Ref& r, const Place& p, int rank, const std::string& bytes) {
  std::vector<int> vs; std::vector<std::vector<const Edge*>> es; std::unordered_map<Gid, part_t> own;
  part_lists(r, p, rank, false, vs, es, own);
  BgdIn f{bytes, 0, rank};
#define BF(c, what) do { if (!(c)) mc_fail("the file of rank %d: wrong %s", rank, what); } while (0)
  BF(f.u() == (u64)r.hyper, "kind of graph"); BF(f.u() == vs.size(), "number of vertices");
  std::vector<int> order; std::set<int> seen;
  for (size_t i = 0; i < vs.size(); ++i) { int v = vindex(r, f.u()); BF(v >= 0 && p[v] == rank && seen.insert(v).second, "vertex"); BF(f.d() == r.vw(v), "vertex weight"); order.push_back(v); }
  u64 hc = f.u(); BF(hc == (u64)r.coords || (vs.empty() && hc <= 1), "coordinate flag");
  if (hc) for (int v : order) { double c[3]; r.coord(v, c); for (double x : c) BF(f.d() == x, "coordinates"); }
  BF(f.u() == es.size(), "number of edge types");
  for (size_t t = 0; t < es.size(); ++t) {
    BF(f.u() == t, "edge type"); BF(f.u() == es[t].size(), "number of edges");
    std::vector<EKey> want, got;
    for (auto e : es[t]) { EKey k{e->pins, r.ew(*e), r.hyper ? e->id : 0}; if (r.hyper) std::sort(k.pins.begin(), k.pins.end()); want.push_back(k); }
    for (size_t i = 0; i < es[t].size(); ++i) {
      EKey k; k.id = f.u(); if (!r.hyper) k.id = 0; k.w = f.d(); u64 d = f.u(); BF(d <= (u64)r.nv() + 2, "edge degree");
      while (d--) { int v = vindex(r, f.u()); BF(v >= 0, "pin"); k.pins.push_back(v); }
      if (r.hyper) std::sort(k.pins.begin(), k.pins.end());
      got.push_back(k);
    }
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); BF(want == got, "edges");
  }
  BF(f.u() == own.size(), "number of ghosts");
  for (size_t i = 0; i < own.size(); ++i) { Gid x = f.u(); u64 o = f.u(); BF(own.count(x) && (u64)own[x] == o, "ghost owner"); own[x] = -1; }
  BF(f.at == bytes.size(), "length");
#undef BF
}
inline std::string bgd_slurp(const std::string& path) {
  std::string s; FILE* f = fopen(path.c_str(), "rb");
  if (!f) mc_fail("%s does not exist", path.c_str());
  char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f); return s;
}
inline void bgd_write(const std::string& path, const std::string& s) {
  FILE* f = fopen(path.c_str(), "wb");
  if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f)) mc_fail("INTERNAL cannot write %s", path.c_str());
}
