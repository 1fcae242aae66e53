// C26: the messages of the library and those of the application never mix.
#include "ops2.h"
enum { TALK = ALLOPS, ALLOPS26 };
enum { NONE, SENT_BEFORE, EXPECTED_BEFORE };   // the application's messages around an operation: sent before and received after it, or awaited before and sent after it
struct Case { int ref, n, place, api, pol, world, own; bool on_own, init_late; std::vector<int> ops; };
static std::vector<Ref> R; static std::vector<Case> C; static Places P;
static const char* opname26(int o) { return o < ALLOPS ? opname(o) : "a phase with messages of the application in between"; }
MCH_ENTRY const char* mch_property() { return "C26"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear(); u64 cyc = 0;
  R.push_back(mkref("strip", true, 6, {chain(6), EL{{0, 1, 2}, {2, 3, 4}, {1, 4, 5}, {3}}}, 1));
  R.push_back(mkref("path", false, 5, {both(chain(5)), both(EL{{0, 2}, {1, 4}, {0, 4}})}));
  R.push_back(mkref("one", true, 4, {EL{{0, 1, 2, 3}, {0, 1}, {2, 3}}}));
  for (auto& r : R) r.coords = true;
  const int small = (int)R.size();
  std::vector<Ref> big = larger(1, 90); R.insert(R.end(), big.begin(), big.end()); for (auto& r : spread(2)) R.push_back(r);
  auto add = [&](int ref, int n, std::vector<int> ops, int stride, int pol) {
    pick_places(R[ref].nv(), n, true, stride, cyc++, [&](int a, u64 h) {
      int w = (h >> 20) % 3, o = (h >> 24) % 3; if (!w && !o) w = 1 + (h >> 28) % 2;
      C.push_back({ref, n, a, (int)(h >> 9 & 0xffff) % 3, pol, w, o, (bool)(h >> 32 & 1), (bool)(h >> 34 & 1), ops});
    });
  };
  const int some = MC_POL_RTB | MC_POL_RTB_DESC | MC_POL_RR | MC_POL_HOLD;
  for (int ref = 0; ref < small; ++ref) for (int n = 1; n <= (th ? 4 : 3); ++n) for (int i = 0; i < ALLOPS26; ++i) {
    int K = (int)P[R[ref].nv()][n].size(); bool talk = i == TALK;
    add(ref, n, {i}, talk || K < 20 ? 1 : K / 16, talk ? MC_POL_ALL : some);
    for (int j = 0; j < ALLOPS26; ++j) { add(ref, n, {i, j}, std::max(1, K / (th ? 4 : 1)) * (th ? 1 : 2), MC_POL_RTB | MC_POL_HOLD); for (int k = 0; k < ALLOPS26; ++k) add(ref, n, {i, j, k}, K * (th ? 16 : 200), MC_POL_RTB); }
  }
  // beyond the sizes and rank counts of the others
  for (int ref = small; ref < (int)R.size(); ++ref) for (int n : ref < small + 6 ? std::vector<int>{2, 3} : std::vector<int>{5, 9, 10}) { int s = R[ref].nv() == 6 ? (int)P[6][n].size() / 5 : 1; for (int i = 0; i < ALLOPS26; ++i) { add(ref, n, {i}, s * (th ? 1 : 3), MC_POL_RTB | MC_POL_HOLD); for (int j = 0; j < ALLOPS26; ++j) add(ref, n, {i, j}, s * (th ? 10 : 100), MC_POL_RTB); } }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = 0; p->policies = C[c].pol; p->shards = 1; p->baseline = 1; }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; static const char* M[] = {"none", "sent before, received after", "awaited before, sent after"};
  std::string s = R[k.ref].str() + fmt(" on %d ranks, vertices on %s:", k.n, pstr(P[R[k.ref].nv()][k.n][k.place]).c_str());
  for (int o : k.ops) s += std::string(" ") + opname26(o) + ";";
  s += fmt(" messages of the application on the world: %s; on a communicator of its own%s: %s%s", M[k.world], k.on_own ? " that the library was given" : "", M[k.own], k.init_late ? "; also around the initialisation" : "");
  snprintf(b, n, "%s", s.c_str());
}
static const int TAGS26[] = {0, 1, 7};
static std::string text(int comm, int round, int from, int to, int tag) { std::string s; for (int i = 0; i < (from * 5 + to * 3 + tag + round) % 37; ++i) s += (char)(1 + (comm * 41 + round * 13 + from * 7 + to * 3 + tag * 5 + i) % 250); return s; }
// The application's messages on one communicator around one operation.
struct Traffic {
  MPI_Comm comm; int id, mode, round = 0, me, n; std::vector<MPI_Request> req; std::vector<std::string> out, in;
  Traffic(MPI_Comm c, int i, int m) : comm(c), id(i), mode(m) { MPI_Comm_rank(c, &me); MPI_Comm_size(c, &n); }
  void send() { out.clear(); for (int q = 0; q < n; ++q) for (int t : TAGS26) out.push_back(text(id, round, me, q, t)); size_t i = 0; for (int q = 0; q < n; ++q) for (int t : TAGS26) { req.push_back(MPI_REQUEST_NULL); MPI_Isend(out[i].data(), (int)out[i].size(), MPI_BYTE, q, t, comm, &req.back()); ++i; } }
  void expect() { in.assign(3 * n, std::string(64, 0)); for (auto& b : in) { req.push_back(MPI_REQUEST_NULL); MPI_Irecv(&b[0], 64, MPI_BYTE, MPI_ANY_SOURCE, MPI_ANY_TAG, comm, &req.back()); } }
  void got(const MPI_Status& s, const std::string& b, std::set<std::pair<int, int>>& seen) {
    int k; MPI_Get_count(&s, MPI_BYTE, &k); std::string want = text(id, round, s.MPI_SOURCE, me, s.MPI_TAG);
    bool known = false; for (int t : TAGS26) known |= t == s.MPI_TAG;
    if (!known || b.substr(0, k) != want || !seen.insert({s.MPI_SOURCE, s.MPI_TAG}).second) mc_fail("the application on rank %d received %d bytes from %d with tag %d that are not its own message", mc_rank(), k, s.MPI_SOURCE, s.MPI_TAG);
  }
  void before() { if (mode == SENT_BEFORE) send(); if (mode == EXPECTED_BEFORE) expect(); }
  void after() {
    std::set<std::pair<int, int>> seen;
    if (mode == SENT_BEFORE) for (int q = n - 1; q >= 0; --q) for (int t : TAGS26) { char b[64]; MPI_Status s; MPI_Recv(b, 64, MPI_BYTE, q, t, comm, &s); got(s, std::string(b, 64), seen); }
    size_t recvs = mode == EXPECTED_BEFORE ? in.size() : 0;
    if (mode == EXPECTED_BEFORE) send();
    std::vector<MPI_Status> st(req.size() + 1); MPI_Waitall((int)req.size(), req.data(), st.data());
    for (size_t i = 0; i < recvs; ++i) got(st[i], in[i], seen);
    if (mode && (int)seen.size() != 3 * n) mc_fail("rank %d: %zu of the application's %d messages arrived", mc_rank(), seen.size(), 3 * n);
    req.clear(); ++round;
    if (mode == EXPECTED_BEFORE) mc_world_sync();   // a receive for any sender must not match a message of the next round
  }
};
// one phase of the library, with messages of the application sent between the packing and received between the unpacking
static std::string talk(std::vector<Traffic*> ts, int at) {
  const int me = PCU_Comm_Self(), n = PCU_Comm_Peers(); std::string res;
  PCU_Comm_Begin();
  for (int q = 0; q < n; ++q) { for (int i = 0; i <= (me + q + at) % 3; ++i) PCU_COMM_PACK(q, i); if (q == n / 2) for (Traffic* t : ts) if (t->mode) t->send(); }
  PCU_Comm_Send();
  std::map<Traffic*, std::set<std::pair<int, int>>> seen; std::map<int, std::string> lib;
  auto poll = [&] { for (Traffic* t : ts) { int f; MPI_Status s; MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, t->comm, &f, &s); if (f) { char b[64]; if (!t->mode) mc_fail("rank %d: a message from %d with tag %d is on the application's communicator", mc_rank(), s.MPI_SOURCE, s.MPI_TAG); MPI_Recv(b, 64, MPI_BYTE, s.MPI_SOURCE, s.MPI_TAG, t->comm, &s); t->got(s, std::string(b, 64), seen[t]); } } };
  while (PCU_Comm_Listen()) { while (!PCU_Comm_Unpacked()) { int x; PCU_COMM_UNPACK(x); lib[PCU_Comm_Sender()] += fmt(" %d", x); } poll(); }
  for (Traffic* t : ts) if (t->mode) {
    while ((int)seen[t].size() < 3 * t->n) poll();
    MPI_Waitall((int)t->req.size(), t->req.data(), MPI_STATUSES_IGNORE); t->req.clear(); ++t->round;
  }
  mc_world_sync();
  for (auto& x : lib) res += fmt(" from %d:", x.first) + x.second;
  for (int q = 0; q < n; ++q) { std::string w; for (int i = 0; i <= (me + q + at) % 3; ++i) w += fmt(" %d", i); if (lib[q] != w) mc_fail("rank %d received%s from %d,%s were packed", mc_rank(), lib[q].c_str(), q, w.c_str()); }
  return res;
}
static void same(int key, const std::string& s, const char* what) {
  size_t m; const void* o = mc_same(key, s.data(), s.size(), &m);
  if (o) mc_fail("after %s rank %d has, with messages of the application,\n%s\nand without\n%s", what, mc_rank(), s.c_str(), std::string((const char*)o, m).c_str());
}
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const Ref& r = R[k.ref]; const int me = mc_rank(); const Place& p = P[r.nv()][k.n][k.place];
  if (!me) mc_shared()[4000] = mc_choose(2, "messages of the application");
  mc_world_sync();
  const bool on = mc_shared()[4000];
  if (chdir(mc_scratch())) mc_fail("INTERNAL chdir");
  const int comms = mc_open_comms(me);
  MPI_Comm own; MPI_Comm_split(MPI_COMM_WORLD, 0, me, &own);
  Traffic w(MPI_COMM_WORLD, 0, on ? k.world : NONE), o(own, 1, on ? k.own : NONE);
  std::vector<Traffic*> ts = {&w, &o}; if (c & 1) std::swap(ts[0], ts[1]);
  auto before = [&] { for (Traffic* t : ts) t->before(); }; auto after = [&] { for (Traffic* t : ts) t->after(); };
  if (k.init_late) before();
  EnGPar_Initialize(-1);
  if (k.on_own) EnGPar_Switch_Comm(own);
  if (k.init_late) after();
  before();
  State st{NULL, false, (int)r.types.size()};
  st.g = build(r, p, BuildOpt{r.types.size() == 1 && k.api == 2 ? 2 : k.api & 1, false});
  after(); same(0, dump(st.g), "the construction");
  for (size_t i = 0; i < k.ops.size(); ++i) {
    std::string res;
    if (k.ops[i] == TALK) res = talk(ts, (int)i);
    else { before(); res = applyx(k.ops[i], st, k.n, p, k.place, k.api, r, -1, (int)i + 1); after(); }
    before(); std::string d = dump(st.g) + fmt(" total %d", PCU_Add_Int(1)) + res; after();
    same((int)i + 1, d, opname26(k.ops[i]));
    if (!me) { mc_transition(1); mc_state(hmix(hstr(d), k.n)); }
  }
  before(); agi::destroyGraph(st.g); EnGPar_Finalize(); after();
  MPI_Comm_free(&own);
  if (mc_open_comms(me) != comms) mc_fail("rank %d: %d communicators are left open", me, mc_open_comms(me) - comms);
}
MCH_ENTRY void mch_judge(u64, int, const mc_blob* const*, const int*) { if (mc_in_flight()) mc_fail("%d messages were never received", mc_in_flight()); mc_trace_validated(); }
