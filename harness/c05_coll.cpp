// C05: collectives compute their definition on every rank, never interfere, and barriers separate.
#include "common.h"
#include <climits>

enum { ADD_I, MIN_I, MAX_I, ADD_L, ADD_Z, MIN_Z, MAX_Z, ADD_D, MIN_D, MAX_D, EX_I, EX_L, OR, AND, BARRIER, NOPS };
static const char* NAME[] = {"Add_Ints", "Min_Ints", "Max_Ints", "Add_Longs", "Add_SizeTs", "Min_SizeTs", "Max_SizeTs", "Add_Doubles", "Min_Doubles", "Max_Doubles", "Exscan_Ints", "Exscan_Longs", "Or", "And", "Barrier"};
struct Op { int op, len, val; };   // len 0: the scalar interface
struct Case { int n, dev, pol, shards; std::vector<Op> ops; int phase; };
static std::vector<Case> C;
static std::vector<std::vector<std::vector<long>>> V;  // value patterns: V[val] applied per rank and element

// the value rank r contributes in element e under pattern val
static long value(int val, int r, int n, int e) {
  static const long base[] = {-2, 0, 3};
  if (val < 0) return 0;
  if (val < 100) { // every assignment of three values (and per element a rotation)
    int d = val; for (int i = 0; i < (r + e) % n; i++) d /= 3; return base[d % 3];
  }
  if (val < 200) { int hot = val - 100; return r == (hot + e) % n ? -7 : 5; }     // one rank is the minimum
  if (val < 300) { int hot = val - 200; return r == (hot + e) % n ? 1L << (3 * (e + 1)) : 0; }  // one rank contributes
  if (val == 300) return (r + 1) * (e + 1);
  if (val == 301) return (n - r) * 10 - e * 13;
  if (val == 302) return 1L << r;         // sums are the set of contributors
  if (val == 303) return r % 2 ? -(1L << 28) + r : (1L << 28) + e;
  if (val == 304) return ((long)(r + 1) << 33) + e;                             // beyond 32 bits
  if (val == 305) return -((long)(n - r) << 40) - 3 * e;
  if (val == 307) return r % 2 ? (long)(~0ul - r - 5 * e) : r == n - 1 ? (long)(1ul << 63) + e : 7 + r;   // sizes beyond 63 bits
  if (val == 306) return r == n / 2 ? INT_MIN : r == n - 1 ? INT_MAX : r - 2;   // (the sums stay within 64 bits)
  return 1;
}
static bool wide(int op) { return op == ADD_L || op == EX_L || (op >= ADD_Z && op <= MAX_D); }
static void add(Case c) { C.push_back(c); }
MCH_ENTRY const char* mch_property() { return "C05"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear();
  for (int n = 1; n <= 18; n++) for (int op = 0; op < NOPS; op++) {
    if (n > 13 && n < 16) continue;
    std::vector<int> vals;
    int p3 = n == 1 ? 3 : n == 2 ? 9 : n == 3 ? 27 : n == 4 ? 81 : 0;
    for (int v = 0; v < p3; v++) vals.push_back(v);
    for (int h = 0; h < n; h++) { vals.push_back(100 + h); vals.push_back(200 + h); }
    for (int v = 300; v < 304; v++) vals.push_back(v);
    if (wide(op)) { vals.push_back(304); vals.push_back(305); } if (wide(op) || op == MIN_I || op == MAX_I) vals.push_back(306);
    if (op >= ADD_Z && op <= MAX_Z) vals.push_back(307);
    std::vector<Op> seq;
    // all patterns of one operation, several in one history so that consecutive ones can interfere
    for (size_t i = 0; i < vals.size(); i++) {
      for (int len : {0, 1, 3}) { if ((op == OR || op == AND) && len) continue; if (op == BARRIER && len) continue; seq.push_back({op, len, vals[i]}); }
      if (seq.size() >= 9 || i + 1 == vals.size()) { add({n, 0, MC_POL_ALL, 1, seq, 0}); seq.clear(); }
    }
    if (op < OR) add({n, 0, MC_POL_RTB | MC_POL_HOLD, 1, {{op, 17, 300}, {op, 200, 302}}, 0});
    if (op < OR && (n < 6 || th)) { std::vector<Op> s; for (int i = 0; i < 300; ++i) s.push_back({op, i % 3, 300 + i % 4}); add({n, 0, MC_POL_RTB | MC_POL_RR, 1, s, n % 3}); add({n, 0, MC_POL_RTB, 1, {{op, 1000, 300}, {op, 5000, 301}, {op, 70000, 303}}, 0}); }
  }
  // every ordered pair of operations, with scheduling deviations
  for (int n = 2; n <= (th ? 5 : 4); n++) for (int a = 0; a < NOPS; a++) for (int b = 0; b < NOPS; b++) for (int ph = 0; ph < 3; ph++) {
    int d = n == 2 ? (th ? 3 : 2) : n == 3 ? (th ? 2 : 1) : n == 4 && th ? 1 : 0;
    if (ph && n == 3 && !th) d = 0; if (ph == 0 || n <= 3 || (a + b) % 4 == 0) add({n, d, d >= 2 ? MC_POL_RTB | MC_POL_HOLD | MC_POL_RR : MC_POL_ALL, th && n == 2 ? 4 : 1, {{a, a == BARRIER || a >= OR ? 0 : 1, 300}, {b, b == BARRIER || b >= OR ? 0 : 2, 302}}, ph});
  }
  // larger rank counts: triples around a barrier
  for (int n = 5; n <= 18; n++) for (int a : {ADD_I, EX_L, BARRIER}) for (int b : {EX_I, MAX_D, BARRIER}) add({n, th && n <= 7 ? 1 : 0, MC_POL_ALL, 1, {{a, 0, 302}, {BARRIER, 0, 0}, {b, 0, 302}, {BARRIER, 0, 0}}, 0});
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = C[c].dev; p->policies = C[c].pol; p->shards = C[c].shards; }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  std::string s = fmt("%d ranks;%s", C[c].n, C[c].phase == 1 ? " a message phase in between;" : C[c].phase == 2 ? " collectives inside a message phase;" : "");
  for (auto& o : C[c].ops) s += fmt(" %s%s len %d values %d;", NAME[o.op], o.len ? "" : " (scalar)", o.len, o.val);
  snprintf(b, n, "%s", s.c_str());
}
template <class T> static void arr(Out& o, void (*f)(T*, size_t), const Op& op, int r, int n) {
  std::vector<T> v(op.len + 1); for (int e = 0; e < op.len; e++) v[e] = (T)value(op.val, r, n, e);
  if (op.op >= ADD_D && op.op <= MAX_D) for (int e = 0; e < op.len; e++) v[e] = (T)(v[e] / 8.0);
  v[op.len] = (T)4242; f(v.data(), op.len);
  for (int e = 0; e <= op.len; e++) o.i((int64_t)(op.op >= ADD_D && op.op <= MAX_D && e < op.len ? v[e] * 8 : v[e]));
}
static long tr(int op, long x) { if (op == ADD_Z || op == MIN_Z || op == MAX_Z) return x < 0 ? 100 - x : x; if (op == OR || op == AND) return x > 0 ? x % 1000 + 1 : 0; return x; }
static size_t zv(const Op& o, int r, int n, int e) { if (o.val == 307) return (size_t)value(307, r, n, e); return (size_t)tr(o.op, value(o.val, r, n, e)); }
static void arrz(Out& o, void (*f)(size_t*, size_t), const Op& op, int r, int n) {
  std::vector<size_t> v(op.len + 1); for (int e = 0; e < op.len; e++) v[e] = zv(op, r, n, e);
  v[op.len] = 4242; f(v.data(), op.len); for (int e = 0; e <= op.len; e++) o.i((int64_t)v[e]);
}
static void perform(const Op& op, int r, int n, int k) {
  Out o; o.i(op.op);
  long x = value(op.val, r, n, 0);
  switch (op.op) {
    case ADD_I: if (op.len) arr<int>(o, PCU_Add_Ints, op, r, n); else o.i(PCU_Add_Int((int)x)); break;
    case MIN_I: if (op.len) arr<int>(o, PCU_Min_Ints, op, r, n); else o.i(PCU_Min_Int((int)x)); break;
    case MAX_I: if (op.len) arr<int>(o, PCU_Max_Ints, op, r, n); else o.i(PCU_Max_Int((int)x)); break;
    case ADD_L: if (op.len) arr<long>(o, PCU_Add_Longs, op, r, n); else o.i(PCU_Add_Long(x)); break;
    case EX_I: if (op.len) arr<int>(o, PCU_Exscan_Ints, op, r, n); else o.i(PCU_Exscan_Int((int)x)); break;
    case EX_L: if (op.len) arr<long>(o, PCU_Exscan_Longs, op, r, n); else o.i(PCU_Exscan_Long(x)); break;
    case ADD_Z: if (op.len) arrz(o, PCU_Add_SizeTs, op, r, n); else o.i((int64_t)PCU_Add_SizeT(zv(op, r, n, 0))); break;
    case MIN_Z: if (op.len) arrz(o, PCU_Min_SizeTs, op, r, n); else o.i((int64_t)PCU_Min_SizeT(zv(op, r, n, 0))); break;
    case MAX_Z: if (op.len) arrz(o, PCU_Max_SizeTs, op, r, n); else o.i((int64_t)PCU_Max_SizeT(zv(op, r, n, 0))); break;
    case ADD_D: if (op.len) arr<double>(o, PCU_Add_Doubles, op, r, n); else o.i((int64_t)(PCU_Add_Double(x / 8.0) * 8)); break;
    case MIN_D: if (op.len) arr<double>(o, PCU_Min_Doubles, op, r, n); else o.i((int64_t)(PCU_Min_Double(x / 8.0) * 8)); break;
    case MAX_D: if (op.len) arr<double>(o, PCU_Max_Doubles, op, r, n); else o.i((int64_t)(PCU_Max_Double(x / 8.0) * 8)); break;
    case OR: o.i(PCU_Or((int)tr(OR, x))); break;
    case AND: o.i(PCU_And((int)tr(AND, x))); break;
    case BARRIER: {
      long* s = mc_shared(); s[k]++;
      PCU_Barrier();
      if (s[k] != n) mc_fail("rank %d left barrier %d when only %ld of %d ranks had entered it", r, k, s[k], n);
      break;
    }
  }
  o.post();
}
static void phase(int r, int n, bool coll, const Op& op, int k) {
  PCU_Comm_Begin();
  int to = (r + 1) % n, x = 100 + r; PCU_COMM_PACK(to, x);
  if (coll) perform(op, r, n, k);
  PCU_Comm_Send();
  int cnt = 0;
  while (PCU_Comm_Receive()) { int y; PCU_COMM_UNPACK(y); cnt++; if (y != 100 + (r + n - 1) % n || PCU_Comm_Sender() != (r + n - 1) % n) mc_fail("rank %d received %d from %d next to collectives", r, y, PCU_Comm_Sender()); }
  if (cnt != 1) mc_fail("rank %d received %d messages instead of 1 next to collectives", r, cnt);
}
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; PCU_Comm_Init(); int r = PCU_Comm_Self(), n = PCU_Comm_Peers();
  if (r != mc_rank() || n != k.n) mc_fail("rank %d of %d sees itself as %d of %d", mc_rank(), k.n, r, n);
  for (size_t i = 0; i < k.ops.size(); i++) {
    if (k.phase == 2) phase(r, n, true, k.ops[i], (int)i); else perform(k.ops[i], r, n, (int)i);
    if (k.phase == 1 && i + 1 < k.ops.size()) phase(r, n, false, k.ops[i], 0);
  }
  PCU_Comm_Free();
}
MCH_ENTRY void mch_judge(u64 c, int n, const mc_blob* const* logs, const int* counts) {
  Case& k = C[c];
  for (int r = 0; r < n; r++) {
    if (counts[r] != (int)k.ops.size()) mc_fail("rank %d finished %d of %zu collectives", r, counts[r], k.ops.size());
    for (size_t i = 0; i < k.ops.size(); i++) {
      const Op& op = k.ops[i]; In in(logs[r][i]); in.i(); if (op.op == BARRIER) continue;
      int len = op.len ? op.len : 1;
      for (int e = 0; e < len; e++) {
        long want = 0; bool first = true;
        for (int q = 0; q < n; q++) {
          long x = op.val == 307 ? value(307, q, n, e) : tr(op.op, value(op.val, q, n, e));
          switch (op.op) {
            case ADD_Z: want = (long)((size_t)want + (size_t)x); break;
            case MIN_Z: want = first ? x : (long)std::min((size_t)want, (size_t)x); break;
            case MAX_Z: want = first ? x : (long)std::max((size_t)want, (size_t)x); break;
            case ADD_I: case ADD_L: case ADD_D: want += x; break;
            case MIN_I: case MIN_D: case AND: want = first ? x : std::min(want, x); break;
            case MAX_I: case MAX_D: case OR: want = first ? x : std::max(want, x); break;
            case EX_I: case EX_L: if (q < r) want += x; break;
          }
          first = false;
        }
        long got = (long)in.i(); if (op.op == OR || op.op == AND) { got = !!got; want = !!want; }
        if (got != want) mc_fail("%s (operation %zu, element %d of %d) gives %ld on rank %d instead of %ld", NAME[op.op], i, e, len, got, r, want);
      }
      if (op.len && in.i() != 4242) mc_fail("%s changed memory behind the array on rank %d", NAME[op.op], r);
      mc_transition(1);
    }
  }
  if (mc_in_flight()) mc_fail("%d message(s) were never received", mc_in_flight());
  mc_state(hmix(c, 5)); mc_trace_validated();
}
