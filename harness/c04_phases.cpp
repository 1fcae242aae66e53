// C04: phased messages are delivered exactly once, intact, in their own phase.
#include "common.h"

enum { PK_PACK, PK_WRITE, PK_EXTRACT };
struct Case {
  int n, dev, pol, shards;
  std::vector<u64> mats;      // per phase: bit (src*n+dst) = src sends to dst
  int order = 1;              // deterministic ordering on
  int shape = 0;              // payload shape
  int api = PK_PACK;
  int coll = 0;               // a collective between the phases
  int perm = -1;              // order in which rank 0 packs its peers (index of the permutation)
};
static std::vector<Case> C;

// the bit of a pair of ranks (beyond 8 ranks, several pairs share one)
static bool sends(u64 m, int i) { return m >> ((i + i / 64 * 7) & 63) & 1; }
static const int NSH = 8, BIG = 8, SWEEP = 100;   // SWEEP + 16 * base + first: the lengths from 60 * base in successive phases, after a first piece
// sizes of the pieces packed for one destination, in packing order
static void pieces(int shape, int phase, int src, int dst, std::vector<size_t>& v) {
  if (shape >= SWEEP) { static const int F[] = {0, 5, 20, 30, 60, 100}; int b = (shape - SWEEP) / 16, f = F[(shape - SWEEP) % 16]; if (f) v = {(size_t)f}; else v.clear(); v.push_back(60 * b + phase); return; }
  switch (shape) {
    case 0: v = {4}; break;
    case 1: v = {1, 8, 3}; break;
    case 2: v = {23, 1, 1, 17, 2}; break;
    case 3: v = {(size_t)(1 + 24 * ((src + dst + phase) % 3)), 5}; break;
    case 4: v = {1000, 1, 40000}; break;
    case 5: v = {0, 4, 0}; break;                         // empty pieces
    case 6: for (int i = 0; i < 40; i++) v.push_back(1 + (i * 7 + src) % 13); break;
    case 8: v = {3, (size_t)(1500000 + 7 * src), 1, (size_t)(700000 + dst)}; break;
    case 7: if ((src + dst) % 2) v = {0}; else v = {2, 6}; break;  // some messages are empty
  }
}
static unsigned char byte_at(int phase, int src, int dst, size_t piece, size_t k) {
  return (unsigned char)(phase * 101 + src * 29 + dst * 7 + piece * 3 + k * 5 + (k >> 8) + 1);
}
static void add(Case c) { C.push_back(c); }
static Case mk(int n, int dev, int pol, std::vector<u64> m, int shards = 1) { Case c; c.n = n; c.dev = dev; c.pol = pol; c.mats = m; c.shards = shards; return c; }

MCH_ENTRY const char* mch_property() { return "C04"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear();
  // two ranks: every pair of consecutive phases with every send pattern
  for (u64 a = 0; a < 16; a++) for (u64 b = 0; b < 16; b++) add(mk(2, th ? 2 : 1, MC_POL_ALL, {a, b}));
  // two ranks, three phases of the densest patterns, more deviations
  for (u64 a : {6, 15, 2}) for (u64 b : {6, 15, 4, 0}) for (u64 c : {6, 2}) { Case k = mk(2, th ? 3 : 2, MC_POL_RTB | MC_POL_HOLD | MC_POL_RR, {a, b, c}, th ? 8 : 2); k.order = (a + b) % 2; add(k); }
  // three ranks: every send pattern in one phase, followed by an exchange in a ring
  u64 ring3 = (1 << (0 * 3 + 1)) | (1 << (1 * 3 + 2)) | (1 << (2 * 3 + 0));
  for (u64 a = 0; a < 512; a++) { Case k = mk(3, th ? 1 : 0, MC_POL_ALL, {a, ring3}); k.order = a & 1; add(k); }
  // three ranks, patterns without messages to oneself, one deviation
  std::vector<u64> some = {0, ring3, (1 << 1) | (1 << 2), (1 << 3) | (1 << 6), (1 << 1) | (1 << 3) | (1 << 2) | (1 << 6) | (1 << 5) | (1 << 7), 1 << 7};
  for (u64 a : some) for (u64 b : some) for (int o = 0; o < 2; o++) { Case k = mk(3, 1, MC_POL_RTB | MC_POL_RR | MC_POL_HOLD | MC_POL_STARVE, {a, b}, 1); k.order = o; add(k); }
  if (th) for (u64 a : some) for (u64 b : some) { Case k = mk(3, 2, MC_POL_RTB | MC_POL_HOLD, {a, b}, 16); add(k); }
  // collectives between phases
  for (int n = 2; n <= 4; n++) for (int o = 0; o < 2; o++) for (int cl = 1; cl < 4; cl++) {
    u64 all = (1ULL << (n * n)) - 1; Case k = mk(n, n == 4 ? (th ? 1 : 0) : 1, MC_POL_ALL, {all, all & 0x5a5a, all}); k.order = o; k.coll = cl; add(k);
  }
  // four ranks: families of patterns
  std::vector<u64> pats;
  u64 all4 = 0xffff, diag = 0x8421;
  pats = {0, all4, all4 & ~diag, diag};
  for (int r = 0; r < 4; r++) { pats.push_back(0xfULL << (4 * r)); pats.push_back(0x1111ULL << r); }
  for (u64 a : pats) for (u64 b : pats) for (int o = 0; o < 2; o++) { Case k = mk(4, th && o ? 1 : 0, MC_POL_ALL, {a, b}); k.order = o; add(k); }
  // payload shapes and interfaces
  for (int n : {2, 3}) for (int sh = 0; sh < NSH; sh++) for (int api = 0; api < 3; api++) for (int o = 0; o < 2; o++) for (u64 a : {(u64)((1 << (n * n)) - 1), (u64)(n == 2 ? 6 : ring3)}) {
    Case k = mk(n, n == 2 ? 1 : 0, MC_POL_RTB | MC_POL_RR | MC_POL_HOLD, {a, a, 0, a}); k.shape = sh; k.api = api; k.order = o; add(k);
  }
  // every length of a message
  for (int b = 0; b < (th ? 16 : 8); b++) for (int f = 0; f < 6; f++) for (int api = 0; api < 3; api++) { Case k = mk(1 + (b + f + api) % 2, 0, MC_POL_RTB, std::vector<u64>(60, 0)); for (auto& m : k.mats) m = k.n == 1 ? 1 : (b + api) % 3 ? 6 : 15; k.shape = SWEEP + 16 * b + f; k.api = api; k.order = b & 1; add(k); }
  // long histories, and long messages
  for (int n = 1; n <= 18; n += n < 11 ? 1 : n == 11 ? 2 : n == 13 ? 3 : 1) for (int o = 0; o < 2; o++) {
    Case k = mk(n, 0, n < 5 ? MC_POL_RTB | MC_POL_RR | MC_POL_HOLD : MC_POL_RTB | MC_POL_HOLD, {}); k.order = o; k.shape = n % 2; k.coll = (n + o) % 4;
    for (int i = 0; i < (n < 5 ? 600 : n < 11 ? 300 : 60); i++) { u64 m = 0; for (int b = 0; b < n * n && b < 64; b++) if ((b * 5 + i * 3 + b * i) % (3 + i % 5) == 0) m |= 1ULL << b; k.mats.push_back(m); }
    add(k);
  }
  for (int n = 1; n <= 3; n++) for (int o = 0; o < 2; o++) for (int api = 0; api < 3; api++) { Case k = mk(n, 0, MC_POL_RTB | MC_POL_HOLD, {(u64)(n == 1 ? 1 : n == 2 ? 6 : ring3), (u64)(n == 1 ? 1 : 2)}); k.shape = BIG; k.api = api; k.order = o; add(k); }
  // all packing orders of many peers: rank 0 packs for its peers in every order
  int np = th ? 8 : 7; int fact = 1; for (int i = 2; i < np; i++) fact *= i;
  for (int p = 0; p < fact; p++) { u64 m = 0; for (int d = 1; d < np; d++) m |= 1ULL << d; for (int s = 1; s < np; s++) m |= 1ULL << (s * np); Case k = mk(np, 0, MC_POL_RTB, {m, m}); k.perm = p; k.order = 1; add(k); }
  // ranks arrive at one receiver in every order (only one sends late): many senders
  for (int n = 5; n <= 18; n++) for (int o = 0; o < 2; o++) { u64 m = 0; for (int s = 0; s < n; s++) for (int d = 0; d < n; d++) if ((d * 3 + s) % 2 == 0 || d == 0) if (s * n + d < 64) m |= 1ULL << (s * n + d); Case k = mk(n, 0, MC_POL_ALL, {m, m}); k.order = o; k.shape = 1; add(k); }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = C[c].dev; p->policies = C[c].pol; p->shards = C[c].shards; }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; std::string s = fmt("%d ranks; ordering %s; interface %s; payload shape %d; collective between phases %d; packing permutation %d;", k.n, k.order ? "on" : "off", k.api == PK_PACK ? "pack/unpack" : k.api == PK_WRITE ? "write/read" : "pack/extract", k.shape, k.coll, k.perm);
  for (size_t ph = 0; ph < k.mats.size(); ph++) { s += fmt(" phase %zu sends:", ph); for (int i = 0; i < k.n * k.n; i++) if (sends(k.mats[ph], i) && k.mats.size() < 80) s += fmt(" %d->%d", i / k.n, i % k.n); s += ";"; }
  snprintf(b, n, "%s", s.c_str());
}
static int coll_value(int coll, int self, int n) {
  if (coll == 1) return PCU_Add_Int(self + 1);
  if (coll == 2) return PCU_Exscan_Int(self + 1);
  PCU_Barrier(); return 0;
}
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; int n = k.n;
  PCU_Comm_Init();
  if (!k.order) PCU_Comm_Order(false);
  int self = PCU_Comm_Self();
  if (self != mc_rank() || PCU_Comm_Peers() != n) mc_fail("rank %d of %d sees itself as %d of %d", mc_rank(), n, self, PCU_Comm_Peers());
  for (int ph = 0; ph < (int)k.mats.size(); ph++) {
    if ((c + ph) % 5) PCU_Comm_Begin(); else PCU_Comm_Start(PCU_GLOBAL_METHOD);
    std::vector<int> dests; for (int d = 0; d < n; d++) if (sends(k.mats[ph], self * n + d)) dests.push_back(d);
    if (k.perm >= 0 && self == 0) { for (int i = 0; i < k.perm; i++) std::next_permutation(dests.begin(), dests.end()); }
    std::vector<size_t> pc;
    // the pieces of the different destinations are packed alternately
    size_t maxp = 0; for (int d : dests) { pieces(k.shape, ph, self, d, pc); maxp = std::max(maxp, pc.size()); }
    for (size_t i = 0; i < maxp; i++) for (int d : dests) {
      pc.clear(); pieces(k.shape, ph, self, d, pc); if (i >= pc.size()) continue;
      std::string data(pc[i], 0); for (size_t b = 0; b < pc[i]; b++) data[b] = (char)byte_at(ph, self, d, i, b);
      if (k.api == PK_WRITE) PCU_Comm_Write(d, data.data(), data.size()); else PCU_Comm_Pack(d, data.data(), data.size());
      if (k.api == PK_PACK && data.size()) { size_t sz = 0, want = 0; PCU_Comm_Packed(d, &sz); for (size_t q = 0; q <= i; q++) want += pc[q]; if (sz != want) mc_fail("Packed says %zu bytes are packed for rank %d, but %zu are", sz, d, want); }
    }
    PCU_Comm_Send();
    Out o; o.i(ph);
    if (k.api == PK_WRITE) {
      int from; void* data; size_t size;
      while (PCU_Comm_Read(&from, &data, &size)) { if (PCU_Comm_Sender() != from) mc_fail("Read reports sender %d, Sender reports %d", from, PCU_Comm_Sender()); o.i(from).str(std::string((char*)data, size)); }
    } else {
      while (PCU_Comm_Receive()) {
        int from = PCU_Comm_Sender(), from2 = -1; PCU_Comm_From(&from2); size_t rs = 0; PCU_Comm_Received(&rs);
        if (from2 != from) mc_fail("From reports %d, Sender reports %d", from2, from);
        std::vector<size_t> pc2; if (from < 0 || from >= n) mc_fail("message from rank %d of %d", from, n); pieces(k.shape, ph, from, self, pc2);
        std::string got; size_t i = 0;
        while (!PCU_Comm_Unpacked()) {
          if (i >= pc2.size()) mc_fail("phase %d: rank %d has more bytes from rank %d than were packed (%zu received)", ph, self, from, rs);
          size_t sz = pc2[i++]; if (got.size() + sz > rs) mc_fail("phase %d: rank %d has fewer bytes from rank %d than were packed (%zu received)", ph, self, from, rs);
          if (k.api == PK_EXTRACT) { char* q = (char*)PCU_Comm_Extract(sz); got.append(q, sz); }
          else { std::string t(sz + 1, 0); PCU_Comm_Unpack(&t[0], sz); got.append(t.data(), sz); }
        }
        o.i(from).str(got);
      }
    }
    o.post();
    if (k.coll) { Out v; v.i(1000 + coll_value(k.coll, self, n)); v.post(); }
  }
  PCU_Comm_Free();
  if (mc_open_comms(mc_rank())) mc_fail("rank %d leaves %d communicator(s) open", mc_rank(), mc_open_comms(mc_rank()));
}
MCH_ENTRY void mch_judge(u64 c, int n, const mc_blob* const* logs, const int* counts) {
  Case& k = C[c]; int per = k.coll ? 2 : 1;
  for (int r = 0; r < n; r++) {
    if (counts[r] != (int)k.mats.size() * per) mc_fail("rank %d finished %d of %zu phases", r, counts[r] / per, k.mats.size());
    for (int ph = 0; ph < (int)k.mats.size(); ph++) {
      In in(logs[r][ph * per]); in.i();
      std::vector<std::pair<int, std::string>> got; while (!in.end()) { int f = (int)in.i(); std::string d = in.str(); got.push_back({f, d}); }
      std::vector<std::pair<int, std::string>> want;
      for (int s = 0; s < n; s++) if (sends(k.mats[ph], s * n + r)) {
        std::vector<size_t> pc; pieces(k.shape, ph, s, r, pc); std::string all;
        for (size_t i = 0; i < pc.size(); i++) { std::string one(pc[i], 0); for (size_t b = 0; b < pc[i]; b++) one[b] = (char)byte_at(ph, s, r, i, b); if (k.api == PK_WRITE) want.push_back({s, one}); all += one; }
        if (k.api != PK_WRITE && !all.empty()) want.push_back({s, all});
      }
      if (!k.order) std::stable_sort(got.begin(), got.end(), [](const std::pair<int, std::string>& a, const std::pair<int, std::string>& b) { return a.first < b.first; });
      if (got != want) {
        std::string g, w; for (auto& x : got) g += fmt(" [%zu bytes from %d]", x.second.size(), x.first); for (auto& x : want) w += fmt(" [%zu bytes from %d]", x.second.size(), x.first);
        mc_fail("phase %d: rank %d received%s (in this order), but%s were sent to it%s", ph, r, g.empty() ? " nothing" : g.c_str(), w.empty() ? " no messages" : w.c_str(), g == w ? " (contents differ)" : "");
      }
      if (k.coll) { In v(logs[r][ph * per + 1]); int got2 = (int)v.i() - 1000; int want2 = k.coll == 1 ? n * (n + 1) / 2 : k.coll == 2 ? r * (r + 1) / 2 : 0; if (got2 != want2) mc_fail("collective after phase %d gives %d on rank %d instead of %d", ph, got2, r, want2); }
      mc_transition(1);
    }
  }
  if (mc_in_flight()) mc_fail("%d message(s) were never received", mc_in_flight());
  mc_state(hmix(c, 4));
  mc_trace_validated();
}
