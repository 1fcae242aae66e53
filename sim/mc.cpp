// Model checker for MPI programs: explicit exploration of the real code under a simulated MPI.
//
// The N ranks of a job are N fibers of one process. Each rank runs its own private copy of one
// shared library (repository sources + property harness), so the globals of the code are per rank.
// All nondeterminism goes through choose(): which rank runs at an MPI call, whether a message is
// delayed, which of several pending messages a wildcard matches, harness data choices. explore()
// enumerates every sequence of choices within the deviation bound (DFS over re-executions, with
// pruning on exactly repeated global states).
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include "mpi.h"
#include "mc.h"

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#include <sanitizer/common_interface_defs.h>
#endif
#define EXPORT extern "C" __attribute__((visibility("default")))
typedef uint64_t u64;

// ---------------------------------------------------------------------------------------------
static inline u64 mix(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h ^= h >> 31; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 29;
  return h;
}
static u64 hash_bytes(const void* p, size_t n, u64 h = 1469598103934665603ULL) {
  const unsigned char* c = (const unsigned char*)p;
  while (n >= 8) { u64 w; memcpy(&w, c, 8); h = mix(h, w); c += 8; n -= 8; }
  u64 w = n; for (size_t i = 0; i < n; i++) w = (w << 8) | c[i];
  return mix(h, w);
}

// ---------------------------------------------------------------------------------------------
// shared between the parent and the workers
struct Dev { int idx; int alt; };
static const int MAXDEV = 24;
struct Slot {
  std::atomic<u64> item, beat;
  u64 kase; int policy; int ndev; Dev devs[MAXDEV];
  int busy;            // 1 while an execution is under way
  char fail[4096];     // message of a failed check
};
struct Shared {
  std::atomic<u64> next, items_done, execs, steps, choice_points, pruned, states_sched, states_model,
      transitions, traces, posted, messages, maxpoints, maxdevs, bound_cut, saturated, cases_done;
  std::atomic<int> stop;
  Slot slots[64];
};
static Shared* SH;
static std::atomic<u64>* SET;           // shared open addressing hash set of state hashes
static const u64 SETBITS = 25, SETSIZE = 1ULL << SETBITS;
static bool set_insert(u64 h) {
  if (!h) h = 1;
  u64 i = (h * 0x9e3779b97f4a7c15ULL) >> (64 - SETBITS);
  for (int k = 0; k < 256; k++, i = (i + 1) & (SETSIZE - 1)) {
    u64 cur = SET[i].load(std::memory_order_relaxed);
    if (cur == h) return false;
    if (!cur) {
      if (SET[i].compare_exchange_strong(cur, h)) return true;
      if (cur == h) return false;
    }
  }
  SH->saturated++;
  return false;
}

// ---------------------------------------------------------------------------------------------
// rank libraries
struct Lib {
  void* h; std::string path;
  void (*rank_main)(u64);
  struct Seg { char* p; size_t n; std::vector<char> save; };
  std::vector<Seg> segs;
  u64 base;
};
static Lib libs[MC_MAX_RANKS];
static int nlibs;
static u64 (*h_num_cases)(int);
static void (*h_params)(u64, mc_params*);
static void (*h_describe)(u64, char*, size_t);
static void (*h_judge)(u64, int, const mc_blob* const*, const int*);
static const char* (*h_property)();

static int seg_cb(struct dl_phdr_info* info, size_t, void* data) {
  Lib* l = (Lib*)data;
  if (l->path != info->dlpi_name) return 0;
  size_t relro_lo = 0, relro_hi = 0;
  for (int i = 0; i < info->dlpi_phnum; i++)
    if (info->dlpi_phdr[i].p_type == PT_GNU_RELRO) {
      relro_lo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
      relro_hi = (relro_lo + info->dlpi_phdr[i].p_memsz) & ~4095UL;
      relro_lo &= ~4095UL;
    }
  for (int i = 0; i < info->dlpi_phnum; i++) {
    const ElfW(Phdr)& ph = info->dlpi_phdr[i];
    if (ph.p_type != PT_LOAD || !(ph.p_flags & PF_W)) continue;
    size_t lo = info->dlpi_addr + ph.p_vaddr, hi = lo + ph.p_memsz;
    if (relro_hi > lo && relro_lo <= lo) lo = relro_hi;
    if (lo >= hi) continue;
    Lib::Seg s; s.p = (char*)lo; s.n = hi - lo;
    l->segs.push_back(s);
  }
  return 0;
}
static __attribute__((no_sanitize("address"))) void raw_copy(char* d, const char* s, size_t n) {
  volatile u64* dd = (volatile u64*)d; const volatile u64* ss = (const volatile u64*)s;
  size_t i = 0;
  for (; i + 8 <= n; i += 8) *dd++ = *ss++;
  for (; i < n; i++) ((volatile char*)d)[i] = ((const volatile char*)s)[i];
}
static std::string libprefix;
static void load_more(int n) {
  for (int i = nlibs; i < n; i++) {
    Lib& l = libs[i];
    l.path = libprefix + std::to_string(i) + ".so";
    l.h = dlopen(l.path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!l.h) { fprintf(stderr, "mc: %s\n", dlerror()); exit(3); }
    l.rank_main = (void (*)(u64))dlsym(l.h, "mch_rank_main");
    dl_iterate_phdr(seg_cb, &l);
    for (auto& s : l.segs) { s.save.resize(s.n); raw_copy(s.save.data(), s.p, s.n); }
    nlibs = i + 1;
  }
}
static void load_libs(const char* prefix) {
  libprefix = prefix; load_more(1);
  void* h = libs[0].h;
  h_num_cases = (u64(*)(int))dlsym(h, "mch_num_cases");
  h_params = (void (*)(u64, mc_params*))dlsym(h, "mch_params");
  h_describe = (void (*)(u64, char*, size_t))dlsym(h, "mch_describe");
  h_judge = (void (*)(u64, int, const mc_blob* const*, const int*))dlsym(h, "mch_judge");
  h_property = (const char* (*)())dlsym(h, "mch_property");
  if (!h_num_cases || !h_params || !h_describe || !h_judge || !h_property || !libs[0].rank_main) {
    fprintf(stderr, "mc: harness library lacks an entry point\n"); exit(3);
  }
}
static void restore_globals(int n) {
  for (int i = 0; i < nlibs && i < n; i++)
    for (auto& s : libs[i].segs) raw_copy(s.p, s.save.data(), s.n);
}

// ---------------------------------------------------------------------------------------------
// one execution
struct Msg;
struct mc_request {
  int kind;  // 0 send, 1 recv, 2 collective
  bool done = false;
  int owner;
  // recv
  void* buf = nullptr; size_t cap = 0; int src, tag, comm; MPI_Status st;
  int coll_comm = 0; u64 coll_seq = 0;
};
struct Msg {
  int src, dst, ctx, tag; int lsrc; std::string data; bool sync, held; mc_request* req = nullptr; u64 seq; const char* ubuf = nullptr;
};
struct CommInfo { int ctx; std::vector<int> group; std::vector<char> freed; int creator = -1; };
struct Coll {
  int type = 0, arrived = 0, left = 0; int root = -1, op = 0; u64 sig = 0;
  std::vector<std::string> in; std::vector<char> here; std::vector<std::vector<int>> counts;
  std::vector<int> newcomm;
};
struct RankS {
  ucontext_t ctx; char* stack = nullptr; bool done = false, started = false;
  std::function<bool()> cond;  // empty: can run
  bool polled_out = false;
  u64 hist = 0, lastver = ~0ULL; int failpolls = 0; bool progressed = true; int offered = 0;
  std::map<int, u64> collseq;
  std::vector<std::string> log;
  std::vector<mc_request*> recvs;  // posted receives, in order
  u64 wt = 0, msgs = 0, msghash = 0;
  std::set<int> open; bool maystop = false;
#ifdef MC_ASAN
  void* fake = nullptr;
#endif
};
static const size_t STACK = 8u << 20;
struct Point { int n; int kind; u64 state; };
enum { K_DATA, K_SCHED, K_HOLD, K_ARRIVAL, K_RELEASE };

struct Exec {
  u64 kase; int n, policy; std::vector<Dev> devs; size_t devpos = 0;
  std::vector<RankS> R; int cur = -1; ucontext_t main;
  std::deque<Msg*> flight;  // sent and not received, in send order
  std::vector<CommInfo> comms; std::map<std::pair<int, u64>, Coll> colls;
  bool grace = false; u64 unused_points = 0, version = 0, steps = 0, msgseq = 0, horizon; int nextctx = 100;
  std::vector<Point> points; bool record_states; bool verbose; int bound;
  std::vector<std::unique_ptr<mc_request>> reqpool;
  std::string choices;  // log of non-default choices, for reports
  bool isolated = false, stopped = false;
  int wsync_arrived = 0; u64 wsync_gen = 0; long shared[4096] = {0};
#ifdef MC_ASAN
  void* fake_main = nullptr; const void* main_bottom = nullptr; size_t main_size = 0;
#endif
};
static Exec* X;
static Slot* MYSLOT;
static char* stacks[MC_MAX_RANKS];
static int g_thorough = 0, g_verbose = 0;
static std::string g_scratch = ".";
static std::string g_outfile;

EXPORT void mc_fail(const char* fmt, ...) {
  char buf[3500]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (MYSLOT) { snprintf(MYSLOT->fail, sizeof MYSLOT->fail, "%s", buf); }
  if (g_verbose) { fprintf(stdout, "FAIL rank %d: %s\n", X ? X->cur : -1, buf); }
  fflush(NULL);
  _exit(41);
}
// a rank that may stop did: the execution ends here and is judged
static bool may_stop() { return X && X->isolated && X->cur >= 0 && X->R[X->cur].maystop; }
[[noreturn]] static void stop_here() { X->stopped = true; if (g_verbose) { fprintf(stdout, "  [%d] stops with an error\n", X->cur); fflush(stdout); } setcontext(&X->main); _exit(44); }
static void on_abort(int) { if (may_stop()) stop_here(); signal(SIGABRT, SIG_DFL); raise(SIGABRT); }
EXPORT void mc_may_stop(int on) { if (on && !X->isolated) mc_fail("INTERNAL mc_may_stop in a case that is not isolated"); X->R[X->cur].maystop = on; if (on) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = on_abort; a.sa_flags = SA_NODEFER; sigaction(SIGABRT, &a, nullptr); } }
EXPORT int mc_stopped() { return X->stopped; }
EXPORT __attribute__((noreturn)) void exit(int st) { if (st && may_stop()) stop_here(); fflush(NULL); _exit(st); }
EXPORT void mc_trace(const char* fmt, ...) {
  if (!g_verbose) return;
  va_list ap; va_start(ap, fmt); fprintf(stdout, "  [%d] ", X ? X->cur : -1); vfprintf(stdout, fmt, ap); fprintf(stdout, "\n"); va_end(ap);
  fflush(stdout);
}
EXPORT int mc_rank() { return X ? X->cur : -1; }
EXPORT int mc_size() { return X->n; }
EXPORT u64 mc_case() { return X->kase; }
EXPORT int mc_thorough() { return g_thorough; }
EXPORT const char* mc_scratch() { return g_scratch.c_str(); }
EXPORT void mc_transition(u64 n) { SH->transitions += n; }
EXPORT void mc_state(u64 h) { if (set_insert(mix(0x51a7e, h))) SH->states_model++; }
EXPORT void mc_trace_validated() { SH->traces++; }
EXPORT void mc_hash_bytes(u64* h, const void* p, size_t n) { *h = hash_bytes(p, n, *h); }
EXPORT void mc_post(const void* p, size_t n) {
  RankS& r = X->R[X->cur]; r.log.push_back(std::string((const char*)p, n));
  r.hist = mix(r.hist, hash_bytes(p, n)); SH->posted++;
}
EXPORT int mc_open_comms(int r) { return (int)X->R[r].open.size(); }
EXPORT u64 mc_msgs_hash(int r) { return X->R[r].msghash; }
EXPORT u64 mc_msgs_count(int r) { return X->R[r].msgs; }
EXPORT long* mc_shared() { return X->shared; }
EXPORT int mc_in_flight() { return (int)X->flight.size(); }
EXPORT char* mc_output(size_t* n) {  // what the ranks wrote to stdout/stderr in this execution
  fflush(NULL);
  int fd = open(g_outfile.c_str(), O_RDONLY); struct stat st; *n = 0;
  if (fd < 0 || fstat(fd, &st)) return nullptr;
  char* b = (char*)malloc(st.st_size + 1); ssize_t k = read(fd, b, st.st_size); close(fd);
  if (k < 0) k = 0; b[k] = 0; *n = k; return b;
}

static u64 global_state() {
  u64 h = mix(X->kase * 977 + X->policy, X->cur * 2 + 4 + X->grace);
  h = mix(h, hash_bytes(X->shared, 64 * sizeof(long)));
  for (auto& r : X->R) {
    h = mix(h, r.hist);
    h = mix(h, (u64)r.failpolls * 4 + (r.lastver == X->version) * 2 + r.done);
  }
  for (Msg* m : X->flight) h = mix(h, mix(mix(m->src * 64 + m->dst, m->ctx), hash_bytes(m->data.data(), m->data.size(), m->held + 7)));
  return h;
}
static int choose(int n, int kind, const char* what) {
  if (n <= 1) return 0;
  if (X->bound == 0 && kind != K_DATA) { X->unused_points++; return 0; }   // nothing but the base schedule is explored
  int idx = (int)X->points.size();
  Point p; p.n = n; p.kind = kind; p.state = 0;
  if (X->record_states) p.state = mix(global_state(), kind * 131 + n);
  X->points.push_back(p);
  int alt = 0;
  if (X->devpos < X->devs.size() && X->devs[X->devpos].idx == idx) {
    alt = X->devs[X->devpos].alt; X->devpos++;
    if (alt >= n) mc_fail("INTERNAL replay diverged: alternative %d of %d at choice %d", alt, n, idx);
    if (g_verbose) { fprintf(stdout, "  choice %d (%s): %d of %d, rank %d running\n", idx, what, alt, n, X->cur); fflush(stdout); }
  }
  return alt;
}
EXPORT int mc_choose(int n, const char* what) {
  int c = choose(n, K_DATA, what);
  RankS& r = X->R[X->cur]; r.hist = mix(r.hist, 77 + c);
  return c;
}

static bool can_run(int i) {
  RankS& r = X->R[i];
  if (r.done) return false;
  if (r.cond) return r.cond();
  if (r.polled_out) return r.lastver != X->version;
  return true;
}
static void switch_to(int next) {
  int prev = X->cur;
  X->cur = next;
  RankS& r = X->R[next];
  r.cond = nullptr; r.polled_out = false;
  if (prev == next) return;
#ifdef MC_ASAN
  void** save = prev >= 0 ? (X->R[prev].done ? nullptr : &X->R[prev].fake) : &X->fake_main;
  __sanitizer_start_switch_fiber(save, r.stack, STACK);
#endif
  if (prev >= 0 && X->R[prev].done) setcontext(&r.ctx);
  else swapcontext(prev >= 0 ? &X->R[prev].ctx : &X->main, &r.ctx);
#ifdef MC_ASAN
  if (prev >= 0) __sanitizer_finish_switch_fiber(X->R[prev].fake, nullptr, nullptr);
  else __sanitizer_finish_switch_fiber(X->fake_main, nullptr, nullptr);
#endif
}
static void to_main() {
  X->cur = -1;
#ifdef MC_ASAN
  __sanitizer_start_switch_fiber(nullptr, X->main_bottom, X->main_size);
#endif
  setcontext(&X->main);
}
static int pick(const std::vector<int>& run, bool cur_ok) {
  int n = X->n, cur = X->cur;
  auto has = [&](int r) { return std::find(run.begin(), run.end(), r) != run.end(); };
  auto asc = [&](const std::function<bool(int)>& ok) {
    for (int k = 1; k <= n; k++) { int r = ((cur < 0 ? n - 1 : cur) + k) % n; if (has(r) && ok(r)) return r; }
    return run[0];
  };
  auto any = [](int) { return true; };
  int p = X->policy;
  switch (p) {
    case 0: case 3: if (cur_ok) return cur; return asc(any);
    case 1: if (cur_ok) return cur;
      for (int k = 1; k <= n; k++) { int r = ((cur < 0 ? 0 : cur) - k + 2 * n) % n; if (has(r)) return r; }
      return run[0];
    case 2: case 4: return asc(any);
  }
  if (p >= 100 && p < 200) {  // starve
    int s = p - 100; if (run.size() == 1) return run[0];
    if (cur_ok && cur != s) return cur;
    return asc([&](int r) { return r != s; });
  }
  int f = p - 200;  // favor
  if (has(f)) return f;
  if (cur_ok) return cur;
  return asc(any);
}
static const char* policy_name(int p, char* b) {
  static const char* nm[] = {"run-to-block", "run-to-block-descending", "round-robin", "run-to-block,max-delay", "round-robin,max-delay"};
  if (p < 5) return nm[p];
  sprintf(b, p < 200 ? "starve-rank-%d" : "favor-rank-%d", p % 100); return b;
}
static std::string where_all() {
  std::string s;
  for (int i = 0; i < X->n; i++) s += std::string(i ? ", " : "") + "rank " + std::to_string(i) + (X->R[i].done ? ": finished" : X->R[i].cond ? ": blocked" : X->R[i].polled_out ? ": polling without progress" : ": runnable");
  return s;
}
// give up the processor: pick who runs next (cur_ok: the current rank may continue)
static void reschedule(bool cur_ok, bool offer) {
  for (;;) {
    std::vector<int> run;
    for (int i = 0; i < X->n; i++)
      if (i == X->cur ? (cur_ok || can_run(i)) : can_run(i)) run.push_back(i);
    if (run.empty()) {
      std::vector<Msg*> held;
      // only the first held message of each (source, destination, context) channel can be released
      std::set<std::vector<int>> chans;
      for (Msg* m : X->flight) if (m->held && chans.insert({m->src, m->dst, m->ctx}).second) held.push_back(m);
      if (held.empty()) {
        bool alldone = true; for (auto& r : X->R) alldone &= r.done;
        if (alldone) { to_main(); return; }
        // a few failed polls in a row count as waiting; before calling it a deadlock every polling
        // rank gets to poll for longer
        if (!X->grace) { X->grace = true; X->version++; continue; }
        mc_fail("deadlock: no rank can ever proceed (%s); %zu message(s) in flight", where_all().c_str(), X->flight.size());
      }
      int c = choose((int)held.size(), K_RELEASE, "which delayed message arrives");
      held[c]->held = false; X->version++;
      continue;
    }
    bool me = cur_ok || (X->cur >= 0 && std::find(run.begin(), run.end(), X->cur) != run.end());
    int base = pick(run, me);
    std::vector<int> alts; alts.push_back(base);
    for (int r : run) if (r != base) alts.push_back(r);
    int c = offer ? choose((int)alts.size(), K_SCHED, "who runs") : 0;
    switch_to(alts[c]);
    return;
  }
}
static void step_guard(const char* op) {
  X->steps++;
  if (X->steps > X->horizon) mc_fail("no termination: more than %llu MPI calls in one execution (%s, last call %s by rank %d)", (unsigned long long)X->horizon, where_all().c_str(), op, X->cur);
}
// scheduling point in front of an MPI call with effects other ranks can see
static void sched_point(const char* op) {
  step_guard(op);
  RankS& r = X->R[X->cur];
  // a preemption is only offered where the rank has made progress since the last offers: polling
  // the same unchanged state again is the same behaviour
  bool offer = r.progressed || r.lastver != X->version || r.failpolls < 3;
  r.progressed = false;
  reschedule(true, offer);
}
static void progress(u64 ev) {
  RankS& r = X->R[X->cur]; r.hist = mix(r.hist, ev); r.failpolls = 0; r.progressed = true; X->grace = false;
}
static void failed_poll() {
  RankS& r = X->R[X->cur];
  if (r.lastver != X->version) { r.lastver = X->version; r.failpolls = 0; }
  r.failpolls++;
  if (r.failpolls > (X->grace ? 24 + 8 * X->n : 4)) {
    r.polled_out = true;
    reschedule(false, true);
  }
}
static void block_until(std::function<bool()> c) {
  RankS& r = X->R[X->cur];
  if (c()) return;
  r.cond = c;
  reschedule(false, true);
}
static void rank_entry(int i) {
#ifdef MC_ASAN
  const void* b; size_t s;
  __sanitizer_finish_switch_fiber(nullptr, &b, &s);
  if (!X->main_bottom) { X->main_bottom = b; X->main_size = s; }
#endif
  try { libs[i].rank_main(X->kase); }
  catch (const std::exception& e) { if (may_stop()) stop_here(); mc_fail("rank %d: uncaught exception: %s", i, e.what()); }
  catch (...) { if (may_stop()) stop_here(); mc_fail("rank %d: uncaught exception", i); }
  X->R[i].done = true; X->version++;
  reschedule(false, true);
  abort();
}

// ---------------------------------------------------------------------------------------------
// communicators
static CommInfo& comm_of(MPI_Comm c, const char* op) {
  int cur = X->cur;
  if (c == MPI_COMM_SELF) c = 2 + cur;
  if (c < 0 || c >= (int)X->comms.size() || c == 1) mc_fail("%s on an invalid communicator (%d) by rank %d", op, c, cur);
  CommInfo& ci = X->comms[c];
  for (size_t i = 0; i < ci.group.size(); i++)
    if (ci.group[i] == cur) {
      if (ci.freed[i]) mc_fail("%s on a communicator that rank %d has freed", op, cur);
      return ci;
    }
  mc_fail("%s on a communicator rank %d is not a member of", op, cur);
}
static int local_rank(const CommInfo& ci, int world) {
  for (size_t i = 0; i < ci.group.size(); i++) if (ci.group[i] == world) return (int)i;
  return -1;
}
static int new_comm(const std::vector<int>& group) {
  CommInfo ci; ci.ctx = X->nextctx++; ci.group = group; ci.freed.assign(group.size(), 0);
  X->comms.push_back(ci);
  return (int)X->comms.size() - 1;
}
static size_t dt_size(MPI_Datatype d, const char* op) {
  int i = d >> 8; if (i < 1 || i > 27) mc_fail("%s with an invalid datatype %d", op, d);
  return d & 255;
}

// ---------------------------------------------------------------------------------------------
// point to point
static void do_send(const void* buf, int count, MPI_Datatype dt, int dest, int tag, MPI_Comm comm, bool sync, mc_request* req, const char* op) {
  CommInfo& ci = comm_of(comm, op);
  if (dest == MPI_PROC_NULL) { if (req) req->done = true; return; }
  if (dest < 0 || dest >= (int)ci.group.size()) mc_fail("%s to rank %d of a communicator of size %zu", op, dest, ci.group.size());
  if (count < 0) mc_fail("%s with negative count", op);
  if (tag < 0) mc_fail("%s with negative tag", op);
  Msg* m = new Msg; m->src = X->cur; m->lsrc = local_rank(ci, X->cur); m->dst = ci.group[dest]; m->ctx = ci.ctx; m->tag = tag;
  size_t n = (size_t)count * dt_size(dt, op);
  m->data.assign((const char*)buf, n); m->sync = sync; if (sync) { m->ubuf = (const char*)buf; m->req = req; } m->seq = X->msgseq++;
  bool dflt = X->policy == 3 || X->policy == 4;
  int c = choose(2, K_HOLD, "delay message");
  m->held = c ? !dflt : dflt;
  if (req && !sync) req->done = true;
  X->flight.push_back(m); X->version++;
  RankS& r = X->R[X->cur]; r.msgs++; r.msghash = mix(mix(r.msghash, m->dst * 1000 + m->tag), hash_bytes(m->data.data(), n));
  SH->messages++;
  mc_trace("%s to %d ctx %d tag %d %zu bytes%s", op, m->dst, m->ctx, tag, n, m->held ? " (delayed)" : "");
  progress(mix(11, m->held));
}
// first visible message of every source that matches, in send order
static void candidates(int ctx, int src_world, int tag, std::vector<Msg*>& out) {
  std::set<int> seen;
  for (Msg* m : X->flight) {
    if (m->dst != X->cur || m->ctx != ctx) continue;
    if (src_world >= 0 && m->src != src_world) continue;
    if (tag != MPI_ANY_TAG && m->tag != tag) continue;
    if (!seen.insert(m->src).second) continue;   // only the first of each source: no overtaking
    if (m->held) continue;
    out.push_back(m);
  }
}
// MPI may read a send buffer at any time until the send completes: it must still hold the message
static __attribute__((no_sanitize("address"))) bool same_bytes(const char* a, const char* b, size_t n) {
  const volatile char* x = a; const volatile char* y = b;
  for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return false;
  return true;
}
static void consume(Msg* m, void* buf, size_t cap, MPI_Status* st, const char* op) {
  if (m->data.size() > cap) mc_fail("%s: message of %zu bytes truncated to a buffer of %zu bytes", op, m->data.size(), cap);
  if (m->ubuf && !same_bytes(m->ubuf, m->data.data(), m->data.size())) mc_fail("rank %d changed or freed the buffer of a message to rank %d before the send completed", m->src, m->dst);
  if (!m->data.empty()) memcpy(buf, m->data.data(), m->data.size());
  if (st) { st->MPI_SOURCE = m->lsrc; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->mc_bytes = m->data.size(); }
  if (m->req) m->req->done = true;
  for (auto it = X->flight.begin(); it != X->flight.end(); ++it) if (*it == m) { X->flight.erase(it); break; }
  X->version++;
  mc_trace("received from %d ctx %d tag %d %zu bytes", m->src, m->ctx, m->tag, m->data.size());
  progress(mix(hash_bytes(m->data.data(), m->data.size()), m->src * 64 + m->tag));
  delete m;
}
static int world_src(CommInfo& ci, int source, const char* op) {
  if (source == MPI_ANY_SOURCE) return -1;
  if (source < 0 || source >= (int)ci.group.size()) mc_fail("%s from rank %d of a communicator of size %zu", op, source, ci.group.size());
  return ci.group[source];
}
static Msg* select_msg(int ctx, int src, int tag) {
  std::vector<Msg*> c; candidates(ctx, src, tag, c);
  if (c.empty()) return nullptr;
  return c[choose((int)c.size(), K_ARRIVAL, "which pending message is seen first")];
}
static void progress_recvs() {
  RankS& r = X->R[X->cur];
  for (size_t i = 0; i < r.recvs.size();) {
    mc_request* q = r.recvs[i];
    CommInfo& ci = comm_of(q->comm, "MPI_Irecv");
    Msg* m = select_msg(ci.ctx, world_src(ci, q->src, "MPI_Irecv"), q->tag);
    if (m) { consume(m, q->buf, q->cap, &q->st, "MPI_Irecv"); q->done = true; r.recvs.erase(r.recvs.begin() + i); }
    else i++;
  }
}
static mc_request* new_req(int kind) {
  X->reqpool.emplace_back(new mc_request); mc_request* q = X->reqpool.back().get();
  q->kind = kind; q->owner = X->cur; return q;
}
EXPORT int MPI_Issend(const void* b, int c, MPI_Datatype d, int dest, int tag, MPI_Comm comm, MPI_Request* rq) {
  sched_point("MPI_Issend"); *rq = new_req(0); do_send(b, c, d, dest, tag, comm, true, *rq, "MPI_Issend"); return 0;
}
EXPORT int MPI_Isend(const void* b, int c, MPI_Datatype d, int dest, int tag, MPI_Comm comm, MPI_Request* rq) {
  sched_point("MPI_Isend"); *rq = new_req(0); do_send(b, c, d, dest, tag, comm, false, *rq, "MPI_Isend"); return 0;
}
EXPORT int MPI_Irsend(const void* b, int c, MPI_Datatype d, int dest, int tag, MPI_Comm comm, MPI_Request* rq) { return MPI_Isend(b, c, d, dest, tag, comm, rq); }
EXPORT int MPI_Ibsend(const void* b, int c, MPI_Datatype d, int dest, int tag, MPI_Comm comm, MPI_Request* rq) { return MPI_Isend(b, c, d, dest, tag, comm, rq); }
EXPORT int MPI_Send(const void* b, int c, MPI_Datatype d, int dest, int tag, MPI_Comm comm) {
  sched_point("MPI_Send"); do_send(b, c, d, dest, tag, comm, false, nullptr, "MPI_Send"); return 0;
}
EXPORT int MPI_Bsend(const void* b, int c, MPI_Datatype d, int dest, int tag, MPI_Comm comm) { return MPI_Send(b, c, d, dest, tag, comm); }
EXPORT int MPI_Rsend(const void* b, int c, MPI_Datatype d, int dest, int tag, MPI_Comm comm) { return MPI_Send(b, c, d, dest, tag, comm); }
static void wait_req(mc_request* q, MPI_Status* st);
EXPORT int MPI_Ssend(const void* b, int c, MPI_Datatype d, int dest, int tag, MPI_Comm comm) {
  sched_point("MPI_Ssend"); mc_request* q = new_req(0); do_send(b, c, d, dest, tag, comm, true, q, "MPI_Ssend"); wait_req(q, nullptr); return 0;
}
EXPORT int MPI_Irecv(void* b, int c, MPI_Datatype d, int src, int tag, MPI_Comm comm, MPI_Request* rq) {
  step_guard("MPI_Irecv"); comm_of(comm, "MPI_Irecv");
  mc_request* q = new_req(1); q->buf = b; q->cap = (size_t)c * dt_size(d, "MPI_Irecv"); q->src = src; q->tag = tag; q->comm = comm;
  X->R[X->cur].recvs.push_back(q); *rq = q; progress(31); return 0;
}
EXPORT int MPI_Recv(void* b, int c, MPI_Datatype d, int src, int tag, MPI_Comm comm, MPI_Status* st) {
  sched_point("MPI_Recv");
  if (src == MPI_PROC_NULL) return 0;
  CommInfo& ci = comm_of(comm, "MPI_Recv"); int ctx = ci.ctx, ws = world_src(ci, src, "MPI_Recv"); int me = X->cur;
  size_t cap = (size_t)c * dt_size(d, "MPI_Recv");
  progress_recvs();
  block_until([=]() { int sv = X->cur; X->cur = me; std::vector<Msg*> v; candidates(ctx, ws, tag, v); X->cur = sv; return !v.empty(); });
  Msg* m = select_msg(ctx, ws, tag);
  consume(m, b, cap, st, "MPI_Recv");
  return 0;
}
EXPORT int MPI_Sendrecv(const void* sb, int sc, MPI_Datatype sd, int dest, int stag, void* rb, int rc, MPI_Datatype rd, int src, int rtag, MPI_Comm comm, MPI_Status* st) {
  MPI_Send(sb, sc, sd, dest, stag, comm); return MPI_Recv(rb, rc, rd, src, rtag, comm, st);
}
static bool probe(int src, int tag, MPI_Comm comm, MPI_Status* st, const char* op) {
  CommInfo& ci = comm_of(comm, op);
  progress_recvs();
  Msg* m = select_msg(ci.ctx, world_src(ci, src, op), tag);
  if (!m) return false;
  if (st) { st->MPI_SOURCE = m->lsrc; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->mc_bytes = m->data.size(); }
  progress(mix(41, m->src * 64 + m->tag));
  return true;
}
EXPORT int MPI_Iprobe(int src, int tag, MPI_Comm comm, int* flag, MPI_Status* st) {
  sched_point("MPI_Iprobe");
  *flag = probe(src, tag, comm, st, "MPI_Iprobe");
  if (!*flag) failed_poll();
  return 0;
}
EXPORT int MPI_Probe(int src, int tag, MPI_Comm comm, MPI_Status* st) {
  sched_point("MPI_Probe");
  CommInfo& ci = comm_of(comm, "MPI_Probe"); int ctx = ci.ctx, ws = world_src(ci, src, "MPI_Probe"), me = X->cur;
  block_until([=]() { int sv = X->cur; X->cur = me; std::vector<Msg*> v; candidates(ctx, ws, tag, v); X->cur = sv; return !v.empty(); });
  probe(src, tag, comm, st, "MPI_Probe");
  return 0;
}
EXPORT int MPI_Get_count(const MPI_Status* st, MPI_Datatype d, int* c) {
  size_t s = dt_size(d, "MPI_Get_count"); *c = st->mc_bytes % s ? MPI_UNDEFINED : (int)(st->mc_bytes / s); return 0;
}
static bool coll_ready(mc_request* q) {
  auto it = X->colls.find({q->coll_comm, q->coll_seq}); return it == X->colls.end() || it->second.arrived == (int)it->second.in.size();
}
static bool req_done(mc_request* q) {
  if (q->kind == 1 && !q->done) progress_recvs();
  if (q->kind == 2 && !q->done && coll_ready(q)) q->done = true;
  return q->done;
}
static void check_req(mc_request* q, const char* op) {
  for (auto& p : X->reqpool) if (p.get() == q) { if (q->owner != X->cur) mc_fail("%s on another rank's request", op); return; }
  mc_fail("%s on an invalid request", op);
}
static void finish_req(mc_request* q, MPI_Status* st) {
  if (st && q->kind == 1) *st = q->st;
  for (auto it = X->reqpool.begin(); it != X->reqpool.end(); ++it) if (it->get() == q) { X->reqpool.erase(it); break; }
}
EXPORT int MPI_Test(MPI_Request* rq, int* flag, MPI_Status* st) {
  if (*rq == MPI_REQUEST_NULL) { *flag = 1; step_guard("MPI_Test"); return 0; }
  check_req(*rq, "MPI_Test");
  sched_point("MPI_Test");
  *flag = req_done(*rq);
  if (*flag) { progress(51); finish_req(*rq, st); *rq = MPI_REQUEST_NULL; }
  else failed_poll();
  return 0;
}
EXPORT int MPI_Testall(int n, MPI_Request* rq, int* flag, MPI_Status* st) {
  sched_point("MPI_Testall"); *flag = 1;
  for (int i = 0; i < n; i++) if (rq[i] != MPI_REQUEST_NULL && !req_done(rq[i])) *flag = 0;
  if (*flag) { for (int i = 0; i < n; i++) if (rq[i] != MPI_REQUEST_NULL) { finish_req(rq[i], st ? st + i : nullptr); rq[i] = MPI_REQUEST_NULL; } progress(52); }
  else failed_poll();
  return 0;
}
EXPORT int MPI_Testany(int n, MPI_Request* rq, int* idx, int* flag, MPI_Status* st) {
  sched_point("MPI_Testany"); bool any = false; *flag = 0; *idx = MPI_UNDEFINED;
  for (int i = 0; i < n; i++) if (rq[i] != MPI_REQUEST_NULL) { any = true; if (req_done(rq[i])) { *flag = 1; *idx = i; finish_req(rq[i], st); rq[i] = MPI_REQUEST_NULL; progress(mix(53, i)); return 0; } }
  if (!any) *flag = 1; else failed_poll();
  return 0;
}
static void wait_req(mc_request* q, MPI_Status* st) {
  int me = X->cur;
  block_until([=]() { int sv = X->cur; X->cur = me; bool b;
    if (q->kind == 1 && !q->done) { CommInfo& ci = comm_of(q->comm, "MPI_Wait"); std::vector<Msg*> v; candidates(ci.ctx, q->src == MPI_ANY_SOURCE ? -1 : ci.group[q->src], q->tag, v); b = !v.empty(); }
    else if (q->kind == 2) b = q->done || coll_ready(q);
    else b = q->done;
    X->cur = sv; return b; });
  req_done(q); progress(54); finish_req(q, st);
}
EXPORT int MPI_Wait(MPI_Request* rq, MPI_Status* st) {
  if (*rq == MPI_REQUEST_NULL) return 0;
  check_req(*rq, "MPI_Wait"); sched_point("MPI_Wait"); wait_req(*rq, st); *rq = MPI_REQUEST_NULL; return 0;
}
EXPORT int MPI_Waitall(int n, MPI_Request* rq, MPI_Status* st) { for (int i = 0; i < n; i++) MPI_Wait(rq + i, st ? st + i : nullptr); return 0; }
EXPORT int MPI_Waitany(int n, MPI_Request* rq, int* idx, MPI_Status* st) {
  int flag = 0; for (;;) { MPI_Testany(n, rq, idx, &flag, st); if (flag) return 0; }
}
EXPORT int MPI_Cancel(MPI_Request*) { mc_fail("MPI_Cancel is not simulated"); }
EXPORT int MPI_Request_free(MPI_Request* rq) { if (*rq != MPI_REQUEST_NULL) { check_req(*rq, "MPI_Request_free"); finish_req(*rq, nullptr); } *rq = MPI_REQUEST_NULL; return 0; }

// ---------------------------------------------------------------------------------------------
// collectives
enum { C_BARRIER = 1, C_BCAST, C_REDUCE, C_ALLREDUCE, C_SCAN, C_EXSCAN, C_GATHER, C_ALLGATHER, C_ALLTOALL, C_ALLTOALLV, C_DUP, C_SPLIT, C_GATHERV, C_ALLGATHERV, C_SCATTER };
static Coll& enter(CommInfo& ci, int type, int root, u64 sig, const void* data, size_t n, u64& seq, const char* op) {
  RankS& r = X->R[X->cur]; seq = r.collseq[ci.ctx]++;
  Coll& c = X->colls[{ci.ctx, seq}];
  size_t g = ci.group.size();
  if (!c.arrived) { c.type = type; c.root = root; c.sig = sig; c.in.resize(g); c.here.assign(g, 0); c.counts.resize(g); c.newcomm.assign(g, -1); }
  else if (c.type != type || c.root != root || c.sig != sig)
    mc_fail("collective mismatch: rank %d calls %s where another rank of the communicator called a different collective (or another root, operation, type or count)", X->cur, op);
  int l = local_rank(ci, X->cur);
  c.in[l].assign((const char*)(data ? data : ""), data ? n : 0); c.here[l] = 1; c.arrived++;
  X->version++;
  mc_trace("%s ctx %d seq %llu", op, ci.ctx, (unsigned long long)seq);
  progress(mix(61, type));
  return c;
}
static void await_all(int ctx, u64 seq) {
  block_until([=]() { Coll& c = X->colls[{ctx, seq}]; return c.arrived == (int)c.in.size(); });
}
static void leave(int ctx, u64 seq, u64 ev) {
  auto it = X->colls.find({ctx, seq}); progress(ev);
  if (++it->second.left == (int)it->second.in.size()) X->colls.erase(it);
}
template <class T> static void red1(char* a, const char* b, int n, int op) {
  for (int i = 0; i < n; i++) {
    T x, y; memcpy(&x, a + i * sizeof(T), sizeof(T)); memcpy(&y, b + i * sizeof(T), sizeof(T));
    switch (op) {
      case MPI_MAX: x = x > y ? x : y; break; case MPI_MIN: x = x < y ? x : y; break;
      case MPI_SUM: x = x + y; break; case MPI_PROD: x = x * y; break;
      case MPI_LAND: x = x && y; break; case MPI_LOR: x = x || y; break; case MPI_LXOR: x = !x != !y; break;
      default: mc_fail("reduction operation %d not supported for this type", op);
    }
    memcpy(a + i * sizeof(T), &x, sizeof(T));
  }
}
template <class T> static void redi(char* a, const char* b, int n, int op) {
  if (op == MPI_BAND || op == MPI_BOR || op == MPI_BXOR) {
    for (int i = 0; i < n; i++) { T x, y; memcpy(&x, a + i * sizeof(T), sizeof(T)); memcpy(&y, b + i * sizeof(T), sizeof(T)); x = op == MPI_BAND ? x & y : op == MPI_BOR ? x | y : x ^ y; memcpy(a + i * sizeof(T), &x, sizeof(T)); }
  } else red1<T>(a, b, n, op);
}
static void reduce_into(char* a, const char* b, int n, MPI_Datatype d, int op) {
  switch (d) {
    case MPI_INT: case MPI_INT32_T: redi<int32_t>(a, b, n, op); break;
    case MPI_UNSIGNED: case MPI_UINT32_T: redi<uint32_t>(a, b, n, op); break;
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: redi<int64_t>(a, b, n, op); break;
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: redi<uint64_t>(a, b, n, op); break;
    case MPI_FLOAT: red1<float>(a, b, n, op); break;
    case MPI_DOUBLE: red1<double>(a, b, n, op); break;
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: redi<int8_t>(a, b, n, op); break;
    case MPI_UNSIGNED_CHAR: case MPI_UINT8_T: case MPI_BYTE: case MPI_C_BOOL: case MPI_CXX_BOOL: redi<uint8_t>(a, b, n, op); break;
    case MPI_SHORT: case MPI_INT16_T: redi<int16_t>(a, b, n, op); break;
    case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: redi<uint16_t>(a, b, n, op); break;
    default: mc_fail("reduction on unsupported datatype %d", d);
  }
}
static std::string fold(Coll& c, int upto, int n, MPI_Datatype d, int op) {
  std::string acc = c.in[0];
  for (int i = 1; i < upto; i++) reduce_into(&acc[0], c.in[i].data(), n, d, op);
  return acc;
}
static u64 sig3(u64 a, u64 b, u64 c) { return mix(mix(mix(5, a), b), c); }
EXPORT int MPI_Barrier(MPI_Comm comm) {
  sched_point("MPI_Barrier"); CommInfo& ci = comm_of(comm, "MPI_Barrier"); int ctx = ci.ctx; u64 s;
  enter(ci, C_BARRIER, -1, 0, nullptr, 0, s, "MPI_Barrier"); await_all(ctx, s); leave(ctx, s, 71); return 0;
}
EXPORT int MPI_Ibarrier(MPI_Comm comm, MPI_Request* rq) {
  sched_point("MPI_Ibarrier"); CommInfo& ci = comm_of(comm, "MPI_Ibarrier"); u64 s;
  Coll& c = enter(ci, C_BARRIER, -1, 0, nullptr, 0, s, "MPI_Ibarrier"); (void)c;
  mc_request* q = new_req(2); q->coll_comm = ci.ctx; q->coll_seq = s; *rq = q; return 0;
}
EXPORT int MPI_Bcast(void* b, int n, MPI_Datatype d, int root, MPI_Comm comm) {
  sched_point("MPI_Bcast"); CommInfo& ci = comm_of(comm, "MPI_Bcast"); int ctx = ci.ctx; u64 s; size_t len = n * dt_size(d, "MPI_Bcast");
  if (root < 0 || root >= (int)ci.group.size()) mc_fail("MPI_Bcast with root %d", root);
  int l = local_rank(ci, X->cur);
  enter(ci, C_BCAST, root, sig3(len, 0, 0), b, l == root ? len : 0, s, "MPI_Bcast");
  block_until([=]() { return (bool)X->colls[{ctx, s}].here[root]; });
  Coll& c = X->colls[{ctx, s}]; if (l != root) memcpy(b, c.in[root].data(), len);
  leave(ctx, s, hash_bytes(b, len)); return 0;
}
static int do_reduce(const void* sb, void* rb, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm comm, int type, const char* name) {
  sched_point(name); CommInfo& ci = comm_of(comm, name); int ctx = ci.ctx; u64 s; size_t len = n * dt_size(d, name);
  if (op < MPI_MAX || op > MPI_BXOR) mc_fail("%s with invalid operation", name);
  if (type == C_REDUCE && (root < 0 || root >= (int)ci.group.size())) mc_fail("MPI_Reduce with root %d", root);
  int l = local_rank(ci, X->cur);
  const void* in = sb == MPI_IN_PLACE ? rb : sb;
  if (sb == MPI_IN_PLACE && type == C_REDUCE && l != root) mc_fail("MPI_Reduce with MPI_IN_PLACE on a rank other than the root");
  if (n > 0 && sb == rb) mc_fail("%s with identical send and receive buffers", name);
  enter(ci, type, root, sig3(n, d, op), in, len, s, name);
  if (type == C_REDUCE && l != root) { leave(ctx, s, 72); return 0; }
  await_all(ctx, s);
  Coll& c = X->colls[{ctx, s}]; int g = (int)c.in.size();
  if (type == C_EXSCAN) { if (l > 0) { std::string r = fold(c, l, n, d, op); memcpy(rb, r.data(), len); leave(ctx, s, hash_bytes(rb, len)); } else leave(ctx, s, 73); return 0; }
  std::string r = fold(c, type == C_SCAN ? l + 1 : g, n, d, op); if (len) memcpy(rb, r.data(), len);
  leave(ctx, s, hash_bytes(r.data(), len)); return 0;
}
EXPORT int MPI_Reduce(const void* sb, void* rb, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm comm) { return do_reduce(sb, rb, n, d, op, root, comm, C_REDUCE, "MPI_Reduce"); }
EXPORT int MPI_Allreduce(const void* sb, void* rb, int n, MPI_Datatype d, MPI_Op op, MPI_Comm comm) { return do_reduce(sb, rb, n, d, op, -1, comm, C_ALLREDUCE, "MPI_Allreduce"); }
EXPORT int MPI_Scan(const void* sb, void* rb, int n, MPI_Datatype d, MPI_Op op, MPI_Comm comm) { return do_reduce(sb, rb, n, d, op, -1, comm, C_SCAN, "MPI_Scan"); }
EXPORT int MPI_Exscan(const void* sb, void* rb, int n, MPI_Datatype d, MPI_Op op, MPI_Comm comm) { return do_reduce(sb, rb, n, d, op, -1, comm, C_EXSCAN, "MPI_Exscan"); }
static int gatherish(const void* sb, int sc, MPI_Datatype sd, void* rb, int rc, const int* rcs, const int* displs, MPI_Datatype rd, int root, MPI_Comm comm, int type, const char* name) {
  sched_point(name); CommInfo& ci = comm_of(comm, name); int ctx = ci.ctx; u64 s; int l = local_rank(ci, X->cur); size_t g = ci.group.size();
  bool isroot = root < 0 || l == root; size_t rs = isroot ? dt_size(rd, name) : 1; const void* in = sb; size_t len;
  if (sb == MPI_IN_PLACE) { len = (rcs ? rcs[l] : rc) * rs; in = (char*)rb + (rcs ? displs[l] : l * rc) * rs; }
  else len = sc * dt_size(sd, name);
  enter(ci, type, root, 0, in, len, s, name);
  if (!isroot) { leave(ctx, s, 74); return 0; }
  await_all(ctx, s); Coll& c = X->colls[{ctx, s}]; u64 h = 0;
  for (size_t i = 0; i < g; i++) {
    size_t want = (rcs ? rcs[i] : rc) * rs;
    if (c.in[i].size() != want) mc_fail("%s: rank %d sends %zu bytes where %zu are received", name, (int)i, c.in[i].size(), want);
    if (want) memmove((char*)rb + (rcs ? displs[i] : (int)i * rc) * rs, c.in[i].data(), want); h = mix(h, hash_bytes(c.in[i].data(), c.in[i].size()));
  }
  leave(ctx, s, h); return 0;
}
EXPORT int MPI_Gather(const void* sb, int sc, MPI_Datatype sd, void* rb, int rc, MPI_Datatype rd, int root, MPI_Comm comm) { return gatherish(sb, sc, sd, rb, rc, nullptr, nullptr, rd, root, comm, C_GATHER, "MPI_Gather"); }
EXPORT int MPI_Gatherv(const void* sb, int sc, MPI_Datatype sd, void* rb, const int* rc, const int* dp, MPI_Datatype rd, int root, MPI_Comm comm) { return gatherish(sb, sc, sd, rb, 0, rc, dp, rd, root, comm, C_GATHERV, "MPI_Gatherv"); }
EXPORT int MPI_Allgather(const void* sb, int sc, MPI_Datatype sd, void* rb, int rc, MPI_Datatype rd, MPI_Comm comm) { return gatherish(sb, sc, sd, rb, rc, nullptr, nullptr, rd, -1, comm, C_ALLGATHER, "MPI_Allgather"); }
EXPORT int MPI_Allgatherv(const void* sb, int sc, MPI_Datatype sd, void* rb, const int* rc, const int* dp, MPI_Datatype rd, MPI_Comm comm) { return gatherish(sb, sc, sd, rb, 0, rc, dp, rd, -1, comm, C_ALLGATHERV, "MPI_Allgatherv"); }
EXPORT int MPI_Scatter(const void* sb, int sc, MPI_Datatype sd, void* rb, int rc, MPI_Datatype rd, int root, MPI_Comm comm) {
  sched_point("MPI_Scatter"); CommInfo& ci = comm_of(comm, "MPI_Scatter"); int ctx = ci.ctx; u64 s; int l = local_rank(ci, X->cur); size_t g = ci.group.size();
  size_t len = rc * dt_size(rd, "MPI_Scatter"), sl = l == root ? sc * dt_size(sd, "MPI_Scatter") : 0;
  enter(ci, C_SCATTER, root, 0, l == root ? sb : nullptr, sl * g, s, "MPI_Scatter");
  block_until([=]() { return (bool)X->colls[{ctx, s}].here[root]; });
  Coll& c = X->colls[{ctx, s}]; if (c.in[root].size() != len * g) mc_fail("MPI_Scatter: size mismatch");
  if (rb != MPI_IN_PLACE && len) memcpy(rb, c.in[root].data() + l * len, len); leave(ctx, s, hash_bytes(c.in[root].data() + l * len, len)); return 0;
}
EXPORT int MPI_Alltoall(const void* sb, int sc, MPI_Datatype sd, void* rb, int rc, MPI_Datatype rd, MPI_Comm comm) {
  sched_point("MPI_Alltoall"); CommInfo& ci = comm_of(comm, "MPI_Alltoall"); int ctx = ci.ctx; u64 s; int l = local_rank(ci, X->cur); size_t g = ci.group.size();
  size_t rl = rc * dt_size(rd, "MPI_Alltoall"), sl = sb == MPI_IN_PLACE ? rl : sc * dt_size(sd, "MPI_Alltoall");
  enter(ci, C_ALLTOALL, -1, sig3(sl, 0, 0), sb == MPI_IN_PLACE ? rb : sb, sl * g, s, "MPI_Alltoall"); await_all(ctx, s);
  if (rl != sl) mc_fail("MPI_Alltoall: size mismatch");
  Coll& c = X->colls[{ctx, s}]; u64 h = 0;
  for (size_t i = 0; i < g; i++) { memcpy((char*)rb + i * rl, c.in[i].data() + l * sl, sl); h = mix(h, hash_bytes(c.in[i].data() + l * sl, sl)); }
  leave(ctx, s, h); return 0;
}
EXPORT int MPI_Alltoallv(const void* sb, const int* sc, const int* sdp, MPI_Datatype sd, void* rb, const int* rc, const int* rdp, MPI_Datatype rd, MPI_Comm comm) {
  sched_point("MPI_Alltoallv"); CommInfo& ci = comm_of(comm, "MPI_Alltoallv"); int ctx = ci.ctx; u64 s; int l = local_rank(ci, X->cur); int g = (int)ci.group.size();
  size_t es = dt_size(sd, "MPI_Alltoallv"), er = dt_size(rd, "MPI_Alltoallv"); std::string buf; std::vector<int> off;
  for (int i = 0; i < g; i++) { off.push_back((int)buf.size()); if (sc[i] < 0) mc_fail("MPI_Alltoallv with a negative count"); buf.append((const char*)sb + sdp[i] * es, sc[i] * es); }
  off.push_back((int)buf.size());
  Coll& c0 = enter(ci, C_ALLTOALLV, -1, 0, buf.data(), buf.size(), s, "MPI_Alltoallv"); c0.counts[l] = off; await_all(ctx, s);
  Coll& c = X->colls[{ctx, s}]; u64 h = 0;
  for (int i = 0; i < g; i++) {
    size_t n = c.counts[i][l + 1] - c.counts[i][l];
    if (n != rc[i] * er) mc_fail("MPI_Alltoallv: rank %d sends %zu bytes to rank %d, which expects %zu", i, n, l, rc[i] * er);
    if (n) memcpy((char*)rb + rdp[i] * er, c.in[i].data() + c.counts[i][l], n); h = mix(h, hash_bytes(c.in[i].data() + c.counts[i][l], n));
  }
  leave(ctx, s, h); return 0;
}
EXPORT int MPI_Comm_dup(MPI_Comm comm, MPI_Comm* out) {
  sched_point("MPI_Comm_dup"); CommInfo& ci = comm_of(comm, "MPI_Comm_dup"); int ctx = ci.ctx; u64 s; int l = local_rank(ci, X->cur);
  std::vector<int> group = ci.group;
  enter(ci, C_DUP, -1, 0, nullptr, 0, s, "MPI_Comm_dup"); await_all(ctx, s);
  Coll& c = X->colls[{ctx, s}];
  if (c.newcomm[0] < 0) { int id = new_comm(group); for (auto& x : c.newcomm) x = id; }
  *out = c.newcomm[l]; X->R[X->cur].open.insert(*out); leave(ctx, s, 75); return 0;
}
EXPORT int MPI_Comm_split(MPI_Comm comm, int color, int key, MPI_Comm* out) {
  sched_point("MPI_Comm_split"); CommInfo& ci = comm_of(comm, "MPI_Comm_split"); int ctx = ci.ctx; u64 s; int l = local_rank(ci, X->cur);
  std::vector<int> group = ci.group; int in[2] = {color, key};
  enter(ci, C_SPLIT, -1, 0, in, sizeof in, s, "MPI_Comm_split"); await_all(ctx, s);
  Coll& c = X->colls[{ctx, s}];
  if (c.root != -7) {
    c.root = -7; std::map<int, std::vector<std::pair<int, int>>> by;
    for (size_t i = 0; i < group.size(); i++) { int v[2]; memcpy(v, c.in[i].data(), sizeof v); if (v[0] != MPI_UNDEFINED) by[v[0]].push_back({v[1], (int)i}); }
    for (auto& b : by) { std::sort(b.second.begin(), b.second.end()); std::vector<int> g; for (auto& x : b.second) g.push_back(group[x.second]); int id = new_comm(g); for (auto& x : b.second) c.newcomm[x.second] = id; }
  }
  *out = c.newcomm[l] < 0 ? MPI_COMM_NULL : c.newcomm[l]; if (*out != MPI_COMM_NULL) X->R[X->cur].open.insert(*out);
  leave(ctx, s, mix(76, color)); return 0;
}
EXPORT int MPI_Comm_free(MPI_Comm* comm) {
  step_guard("MPI_Comm_free");
  if (*comm == MPI_COMM_WORLD || *comm == MPI_COMM_SELF) mc_fail("MPI_Comm_free of a predefined communicator");
  CommInfo& ci = comm_of(*comm, "MPI_Comm_free"); ci.freed[local_rank(ci, X->cur)] = 1; X->R[X->cur].open.erase(*comm); *comm = MPI_COMM_NULL; progress(77); return 0;
}
EXPORT int MPI_Comm_size(MPI_Comm c, int* n) { *n = (int)comm_of(c, "MPI_Comm_size").group.size(); return 0; }
EXPORT int MPI_Comm_rank(MPI_Comm c, int* r) { *r = local_rank(comm_of(c, "MPI_Comm_rank"), X->cur); return 0; }
EXPORT int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) {
  auto& ga = comm_of(a, "MPI_Comm_compare").group; auto& gb = comm_of(b, "MPI_Comm_compare").group;
  if (a == b) *r = MPI_IDENT;
  else if (ga == gb) *r = MPI_CONGRUENT;
  else *r = std::is_permutation(ga.begin(), ga.end(), gb.begin(), gb.end()) ? MPI_SIMILAR : MPI_UNEQUAL;
  return 0;
}
EXPORT MPI_Comm MPI_Comm_f2c(MPI_Fint f) { return f; }
EXPORT MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return c; }
EXPORT int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
EXPORT int MPI_Get_processor_name(char* b, int* n) { strcpy(b, "sim"); *n = 3; return 0; }
EXPORT int MPI_Type_size(MPI_Datatype d, int* s) { *s = (int)dt_size(d, "MPI_Type_size"); return 0; }
EXPORT double MPI_Wtime() { return 1.0 + 1e-6 * (double)(X->R[X->cur].wt++); }
EXPORT double MPI_Wtick() { return 1e-6; }
EXPORT int MPI_Init(int*, char***) { return 0; }
EXPORT int MPI_Init_thread(int*, char***, int want, int* got) { if (got) *got = want; return 0; }
EXPORT int MPI_Initialized(int* f) { *f = 1; return 0; }
EXPORT int MPI_Finalized(int* f) { *f = 0; return 0; }
EXPORT int MPI_Query_thread(int* t) { *t = MPI_THREAD_SINGLE; return 0; }
EXPORT int MPI_Finalize() { return MPI_Barrier(MPI_COMM_WORLD); }
EXPORT int MPI_Abort(MPI_Comm, int code) { if (may_stop()) stop_here(); mc_fail("MPI_Abort(%d) called by rank %d", code, X->cur); }
static std::map<std::pair<int, int>, std::string> memo; static u64 memo_case = ~0ULL;
EXPORT const void* mc_same_as(int who, int key, const void* p, size_t n, size_t* m) {
  if (memo_case != X->kase) { memo.clear(); memo_case = X->kase; }
  auto k = std::make_pair(who, key); auto it = memo.find(k); std::string v((const char*)p, n);
  if (it == memo.end()) { memo[k] = v; return nullptr; }
  if (it->second == v) return nullptr;
  if (m) *m = it->second.size();
  return it->second.data();
}
EXPORT const void* mc_same(int key, const void* p, size_t n, size_t* m) { return mc_same_as(X->cur, key, p, n, m); }
EXPORT void mc_world_sync() {
  u64 gen = X->wsync_gen;
  if (++X->wsync_arrived == X->n) { X->wsync_arrived = 0; X->wsync_gen++; X->version++; }
  else block_until([=]() { return X->wsync_gen != gen; });
  progress(81);
}

// ---------------------------------------------------------------------------------------------
// exploration
static void entry_tramp(int i) { rank_entry(i); }
static void run_once(Exec& e) {
  X = &e;
  restore_globals(e.n);
  e.R.resize(e.n);
  CommInfo w; w.ctx = 1; for (int i = 0; i < e.n; i++) w.group.push_back(i); w.freed.assign(e.n, 0);
  e.comms.push_back(w); e.comms.push_back(CommInfo());  // 1: placeholder for SELF
  for (int i = 0; i < e.n; i++) { CommInfo s; s.ctx = 10 + i; s.group.push_back(i); s.freed.assign(1, 0); e.comms.push_back(s); }
  for (int i = 0; i < e.n; i++) {
    RankS& r = e.R[i];
    if (!stacks[i]) {
      char* p = (char*)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      mprotect(p, 4096, PROT_NONE); stacks[i] = p + 4096;
    }
    r.stack = stacks[i];
    getcontext(&r.ctx); r.ctx.uc_stack.ss_sp = r.stack; r.ctx.uc_stack.ss_size = STACK; r.ctx.uc_link = nullptr;
    makecontext(&r.ctx, (void (*)())entry_tramp, 1, i);
  }
  reschedule(false, true);  // returns when every rank has finished
  e.cur = -1;
  if (e.devpos != e.devs.size()) mc_fail("INTERNAL replay diverged: choice %d not reached", e.devs[e.devpos].idx);
  if (!e.stopped) for (auto& q : e.reqpool) if (q->kind == 0) mc_fail("rank %d started a send and never waited for its completion", q->owner);
  std::vector<std::vector<mc_blob>> logs(e.n); std::vector<const mc_blob*> lp; std::vector<int> cnt;
  for (int i = 0; i < e.n; i++) { for (auto& s : e.R[i].log) { mc_blob b; b.p = s.data(); b.n = s.size(); logs[i].push_back(b); } lp.push_back(logs[i].data()); cnt.push_back((int)logs[i].size()); }
  h_judge(e.kase, e.n, lp.data(), cnt.data());
  for (Msg* m : e.flight) delete m;
  e.flight.clear();
  X = nullptr;
}
static u64 g_horizon = 3000000;
static int g_cpu_limit = 40;
static void arm_timer(int sec) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &it, nullptr); }
static void redirect_output(const std::string& f) {
  g_outfile = f; fflush(NULL);
  int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  dup2(fd, 1); dup2(fd, 2); close(fd);
}
static void exec_one(u64 kase, const mc_params& pr, int policy, const std::vector<Dev>& devs, bool states, std::vector<Point>* pts) {
  MYSLOT->kase = kase; MYSLOT->policy = policy; MYSLOT->ndev = (int)devs.size();
  for (size_t i = 0; i < devs.size() && i < (size_t)MAXDEV; i++) MYSLOT->devs[i] = devs[i];
  MYSLOT->fail[0] = 0; MYSLOT->beat++; MYSLOT->busy = 1;
  arm_timer(g_cpu_limit);
  if (!g_verbose) { fflush(NULL); if (ftruncate(1, 0)) {} }
  if (pr.isolate) {
    fflush(NULL);
    pid_t p = fork();
    if (p) {
      int st; waitpid(p, &st, 0);
      if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(43); }
      if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
      arm_timer(g_cpu_limit); MYSLOT->busy = 0; if (pts) pts->clear();
      return;
    }
    arm_timer(g_cpu_limit);
  }
  {
    Exec e; e.kase = kase; e.n = pr.ranks; e.policy = policy; e.devs = devs; e.horizon = g_horizon * (pr.ranks > 10 ? 8 : 1); e.record_states = states; e.verbose = g_verbose; e.bound = pr.deviations; e.isolated = pr.isolate;
    clock_t c0 = clock();
    run_once(e);
    static const char* slow = getenv("MC_SLOW");
    if (slow && (clock() - c0) / (double)CLOCKS_PER_SEC > atof(slow)) { char b[3000]; h_describe(kase, b, sizeof b); FILE* fp = fopen("/tmp/mc-slow.txt", "a"); fprintf(fp, "%.2f s case %lu policy %d: %s\n", (clock() - c0) / (double)CLOCKS_PER_SEC, (unsigned long)kase, policy, b); fclose(fp); }
    u64 np = e.points.size() + e.unused_points; SH->bound_cut += e.unused_points;
    SH->execs++; SH->steps += e.steps; SH->choice_points += np;
    u64 m = SH->maxpoints; while (np > m && !SH->maxpoints.compare_exchange_weak(m, np)) {}
    if (pts) pts->swap(e.points);
  }
  if (pr.isolate) { if (pts && !pts->empty()) mc_fail("INTERNAL choices in an isolated case"); _exit(0); }
  MYSLOT->busy = 0;
}
static std::vector<int> policies_of(const mc_params& pr) {
  std::vector<int> v; int m = pr.policies;
  if (pr.ranks == 1) { v.push_back(0); return v; }
  for (int i = 0; i < 4; i++) if (m & (1 << i)) v.push_back(i);
  if (m & MC_POL_HOLD_RR) v.push_back(4);
  for (int r = 0; r < pr.ranks; r++) { if (m & MC_POL_STARVE) v.push_back(100 + r); }
  for (int r = 0; r < pr.ranks; r++) { if (m & MC_POL_FAVOR) v.push_back(200 + r); }
  if (v.empty()) v.push_back(0);
  return v;
}
// --max-deviations and --policies lower the harness's own bounds
static int g_maxdev = -1, g_polmask = 0;
static mc_params params_of(u64 c) {
  mc_params pr; memset(&pr, 0, sizeof pr); pr.shards = 1; h_params(c, &pr);
  if (pr.shards < 1) pr.shards = 1;
  if (g_maxdev >= 0 && pr.deviations > g_maxdev) pr.deviations = g_maxdev;
  if (pr.deviations == 0 && g_maxdev == 0) pr.shards = 1;
  if (g_polmask && pr.policies) pr.policies = (pr.policies & g_polmask) ? pr.policies & g_polmask : MC_POL_RTB;
  return pr;
}
// the work of one item: shard s of case
static void explore(u64 kase, int shard, int nshards) {
  mc_params pr = params_of(kase);
  for (int pol : policies_of(pr)) {
    std::unordered_map<u64, int> seen;
    std::vector<std::vector<Dev>> stack; stack.push_back({});
    bool first = true;
    while (!stack.empty()) {
      std::vector<Dev> d = stack.back(); stack.pop_back();
      int cost = 0; std::vector<Point> pts;
      bool prune = pr.deviations > 0;
      exec_one(kase, pr, pol, d, prune, &pts);
      for (auto& x : d) if (pts[x.idx].kind != K_DATA) cost++;
      int from = d.empty() ? 0 : d.back().idx + 1; int left = pr.deviations - cost;
      if ((u64)cost > SH->maxdevs) SH->maxdevs = cost;
      for (int i = from; i < (int)pts.size(); i++) {
        if (prune) {
          if (set_insert(pts[i].state)) SH->states_sched++;
          auto it = seen.find(pts[i].state);
          if (it != seen.end() && it->second >= left) { SH->pruned++; break; }
          seen[pts[i].state] = left;
        }
        if (first && nshards > 1 && (i % nshards) != shard) continue;
        if (pts[i].kind == K_DATA || left > 0) {
          if ((int)d.size() + 1 > MAXDEV) { mc_fail("INTERNAL too many deviations"); }
          for (int a = 1; a < pts[i].n; a++) { auto c = d; c.push_back({i, a}); stack.push_back(c); }
        } else SH->bound_cut++;
      }
      first = false;
    }
  }
}
struct Item { u64 kase; int shard, nshards; };
static std::vector<Item> items;
static u64 total_items; static bool implicit_items;
static Item item_at(u64 i) { if (implicit_items) return {i, 0, 1}; return items[i]; }
// --stride: the bound is the cases whose mixed number is a multiple of the stride (the first is always in)
static u64 g_stride = 1; static bool g_memory_only = false;
static bool in_stride(u64 c) { if (g_stride <= 1 || c == 0) return true; u64 h = (c + 1) * 0x9e3779b97f4a7c15ULL; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32; return h % g_stride == 0; }

static u64 rss_mb() { FILE* f = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return (u64)b * 4096 / (1 << 20); }
static void worker(int w, u64 fixed) {
  MYSLOT = &SH->slots[w];
  g_scratch = g_scratch + "/w" + std::to_string(w); mkdir(g_scratch.c_str(), 0755);
  if (chdir(g_scratch.c_str())) _exit(42);
  redirect_output(g_scratch + ".out");
  int done = 0;
  for (;;) {
    if (SH->stop) _exit(0);
    u64 i = fixed != ~0ULL ? fixed : SH->next++;
    if (i >= total_items) _exit(0);
    MYSLOT->item = i;
    Item it = item_at(i);
    explore(it.kase, it.shard, it.nshards);
    SH->items_done++;
    if (fixed != ~0ULL) _exit(0);
    if (++done % 64 == 0 && rss_mb() > 1200) _exit(40);  // recycled: the code under test leaks
  }
}
static std::string tail_of(const std::string& f) {
  FILE* fp = fopen(f.c_str(), "r"); if (!fp) return ""; fseek(fp, 0, SEEK_END); long n = ftell(fp); long k = n > 60000 ? 60000 : n; fseek(fp, n - k, SEEK_SET);
  std::string s(k, 0); k = fread(&s[0], 1, k, fp); s.resize(k); fclose(fp);
  size_t at = s.rfind("ERROR: AddressSanitizer"); if (at == std::string::npos) at = s.rfind("runtime error:");
  if (at != std::string::npos) { size_t bol = s.rfind('\n', at); s = s.substr(bol == std::string::npos ? 0 : bol + 1, 1500); }
  else if (s.size() > 1500) s = s.substr(s.size() - 1500);
  for (auto& c : s) if ((unsigned char)c < 32 && c != '\n') c = ' ';
  return s;
}
// with --memory-only the other oracles are off: an execution they end is simply over
static bool counts(const std::string& m) {
  if (!g_memory_only) return true;
  for (const char* k : {"AddressSanitizer", "runtime error:", "crash: signal 11", "crash: signal 7", "crash: signal 4", "crash: signal 8", "INTERNAL"}) if (m.find(k) != std::string::npos) return true;
  return false;
}
struct Failure { u64 kase; int policy; std::vector<Dev> devs; std::string msg; };
static std::string death(int st, Slot& s, const std::string& out) {
  if (WIFEXITED(st) && WEXITSTATUS(st) == 41) return s.fail;
  std::string m;
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGPROF) m = "hang: one execution used more than its processor time limit without finishing";
    else m = std::string("crash: signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
  } else m = "the process ended with status " + std::to_string(WEXITSTATUS(st)) + " in the middle of an execution";
  std::string t = tail_of(out);
  if (!t.empty()) m += "; output: " + t;
  return m;
}
// re-execute a failure in a fresh process; true if it fails again
static bool confirm(const Failure& f, std::string* msg) {
  int w = 63; fflush(NULL);
  pid_t p = fork();
  if (!p) {
    MYSLOT = &SH->slots[w]; std::string base = g_scratch + "/confirm"; mkdir(base.c_str(), 0755); g_scratch = base;
    if (chdir(base.c_str())) _exit(42);
    redirect_output(base + ".out"); g_cpu_limit = 100;
    mc_params pr; memset(&pr, 0, sizeof pr); h_params(f.kase, &pr);
    if (pr.baseline) exec_one(f.kase, pr, policies_of(pr)[0], {}, false, nullptr);
    exec_one(f.kase, pr, f.policy, f.devs, false, nullptr);
    _exit(0);
  }
  int st; waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  *msg = death(st, SH->slots[w], g_scratch + "/confirm.out");
  return true;
}
static std::string jesc(const std::string& s) {
  std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += ' '; else o += c; } return o;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

#ifdef MC_COVERAGE  // development only: which basic blocks of the library were ever entered (coverage.py)
static unsigned char* COV; static const size_t COVN = 1 << 24;
extern "C" __attribute__((visibility("default"))) void __sanitizer_cov_trace_pc() {
  if (!COV) return;
  u64 pc = (u64)__builtin_return_address(0);
  for (int i = 0; i < nlibs; i++) if (pc - libs[i].base < COVN) { COV[pc - libs[i].base] = 1; return; }
}
static void cov_open() {
  int fd = open(getenv("MC_COVFILE"), O_RDWR | O_CREAT, 0644); if (fd < 0 || ftruncate(fd, COVN)) { perror("MC_COVFILE"); exit(3); }
  COV = (unsigned char*)mmap(nullptr, COVN, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
  for (int i = 0; i < nlibs; i++) { struct link_map* lm; dlinfo(libs[i].h, RTLD_DI_LINKMAP, &lm); libs[i].base = lm->l_addr; }
}
#endif
// the cases, the copies of the library that the largest of them needs, and the initial state of each copy
static u64 prepare() {
  u64 ncases = h_num_cases(g_thorough); int ranks = 1;
  for (u64 c = 0; c < ncases; c++) { mc_params pr = params_of(c); if (pr.ranks < 1 || pr.ranks > MC_MAX_RANKS) { fprintf(stderr, "mc: case %llu has %d ranks\n", (unsigned long long)c, pr.ranks); exit(3); } ranks = std::max(ranks, pr.ranks); }
  load_more(ranks);
  for (int i = 1; i < nlibs; i++) { auto f = (u64(*)(int))dlsym(libs[i].h, "mch_num_cases"); if (f(g_thorough) != ncases) { fprintf(stderr, "mc: libraries disagree\n"); exit(3); } }
  // num_cases may build tables: they belong to the initial state of every execution
  for (int i = 0; i < nlibs; i++) for (auto& s : libs[i].segs) raw_copy(s.save.data(), s.p, s.n);
#ifdef MC_COVERAGE
  cov_open();
#endif
  return ncases;
}
int main(int argc, char** argv) {
  std::string prefix, out = "mc-out.json", replay; int workers = 8; std::vector<std::string> known; u64 only = ~0ULL; int maxfail = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--lib") prefix = nx(); else if (a == "--out") out = nx(); else if (a == "--workers") workers = atoi(nx().c_str());
    else if (a == "--thorough") g_thorough = 1; else if (a == "--scratch") g_scratch = nx(); else if (a == "--known") known.push_back(nx());
    else if (a == "--replay") replay = nx(); else if (a == "--case") only = strtoull(nx().c_str(), 0, 10); else if (a == "--max-failures") maxfail = atoi(nx().c_str());
    else if (a == "--verbose") g_verbose = 1; else if (a == "--stride") g_stride = strtoull(nx().c_str(), 0, 10); else if (a == "--memory-only") g_memory_only = true;
    else if (a == "--max-deviations") g_maxdev = atoi(nx().c_str()); else if (a == "--policies") g_polmask = atoi(nx().c_str());
    else { fprintf(stderr, "mc: unknown option %s\n", a.c_str()); return 3; }
  }
#ifndef MC_ASAN
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("MC_REEXEC")) { setenv("MC_REEXEC", "1", 1); if (personality(ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
  mallopt(M_PERTURB, 0x5a);
#endif
  signal(SIGPIPE, SIG_IGN);
  SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  SET = (std::atomic<u64>*)mmap(nullptr, SETSIZE * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  load_libs(prefix.c_str());
  { struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); }
  if (!replay.empty()) {
    FILE* f = fopen(replay.c_str(), "r"); if (!f) { perror(replay.c_str()); return 3; }
    Failure fl; char line[8192]; fl.policy = 0; fl.kase = 0;
    while (fgets(line, sizeof line, f)) {
      unsigned long long k; int p, a, b;
      if (sscanf(line, "case %llu", &k) == 1) fl.kase = k; else if (sscanf(line, "policy %d", &p) == 1) fl.policy = p; else if (sscanf(line, "dev %d %d", &a, &b) == 2) fl.devs.push_back({a, b}); else if (!strncmp(line, "thorough 1", 10)) g_thorough = 1;
    }
    fclose(f);
    prepare();
    char d[8192]; d[0] = 0; h_describe(fl.kase, d, sizeof d); char pb[64];
    printf("case %llu: %s\nschedule: %s, %zu deviation(s)\n", (unsigned long long)fl.kase, d, policy_name(fl.policy, pb), fl.devs.size()); fflush(stdout);
    g_verbose = 1;
    pid_t p = fork();
    if (!p) { MYSLOT = &SH->slots[0]; mkdir(g_scratch.c_str(), 0755); if (chdir(g_scratch.c_str())) _exit(42); g_outfile = "/dev/null"; mc_params pr; memset(&pr, 0, sizeof pr); h_params(fl.kase, &pr); if (pr.baseline) { g_verbose = 0; exec_one(fl.kase, pr, policies_of(pr)[0], {}, false, nullptr); g_verbose = 1; } exec_one(fl.kase, pr, fl.policy, fl.devs, false, nullptr); _exit(0); }
    int st; waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { printf("replay: the property held\n"); return 0; }
    std::string dm = death(st, SH->slots[0], "/nonexistent"); printf("replay: %s\n", dm.c_str());
    if (g_memory_only && !WIFSIGNALED(st) && !counts(dm)) { printf("replay: not a memory error\n"); return 0; }
    return 1;
  }
  double t0 = now();
  u64 ncases = prepare();
  implicit_items = true;
  for (u64 c = 0; c < ncases; c++) { mc_params pr = params_of(c); if (pr.shards > 1) implicit_items = false; }
  if (g_stride > 1) implicit_items = false;
  if (only != ~0ULL) { implicit_items = false; items.push_back({only, 0, 1}); }
  else if (!implicit_items) for (u64 c = 0; c < ncases; c++) { if (!in_stride(c)) continue; int s = params_of(c).shards; for (int k = 0; k < s; k++) items.push_back({c, k, s}); }
  total_items = implicit_items ? ncases : items.size();
  if ((u64)workers > total_items) workers = total_items ? (int)total_items : 1;
  std::map<pid_t, int> pids; std::vector<Failure> fails; std::map<std::string, u64> knownhits; std::map<std::string, std::string> knownmsg; u64 unconfirmed = 0; std::string unconf; std::string internal; u64 ignored = 0; int ignored_hangs = 0; bool stopped_early = false;
  fflush(NULL);
  auto spawn = [&](int w) { fflush(NULL); SH->slots[w].busy = 0; pid_t p = fork(); if (!p) { worker(w, ~0ULL); } pids[p] = w; };
  for (int w = 0; w < workers; w++) spawn(w);
  std::vector<u64> lastbeat(64, 0); std::vector<double> beatt(64, now());
  while (!pids.empty()) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0) {
      usleep(2000);
      for (auto& kv : pids) { int w = kv.second; u64 b = SH->slots[w].beat; if (b != lastbeat[w]) { lastbeat[w] = b; beatt[w] = now(); } else if (SH->slots[w].busy && now() - beatt[w] > 400) { kill(kv.first, SIGPROF); beatt[w] = now(); } }
      continue;
    }
    auto it = pids.find(p); if (it == pids.end()) continue; int w = it->second; pids.erase(it);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 40) { spawn(w); continue; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 42) { internal = "worker could not use its scratch directory"; break; }
    Slot& s = SH->slots[w]; Failure f; f.kase = s.kase; f.policy = s.policy; for (int i = 0; i < s.ndev; i++) f.devs.push_back(s.devs[i]);
    f.msg = death(st, s, g_scratch + "/w" + std::to_string(w) + ".out");
    SH->items_done++;
    if (f.msg.compare(0, 8, "INTERNAL") == 0) { internal = f.msg; }
    else if (!counts(f.msg)) {
      ignored++; if (f.msg.compare(0, 4, "hang") == 0 && ++ignored_hangs >= 6) { stopped_early = true; SH->stop = 1; }
    } else {
      bool isknown = false;
      for (auto& k : known) if (f.msg.find(k) != std::string::npos) { isknown = true; knownhits[k]++; if (!knownmsg.count(k)) knownmsg[k] = f.msg; }
      if (!isknown) {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { unconfirmed++; unconf = "worker killed (memory?)"; }
        else {
          int hits = 0; std::string m2; for (int k = 0; k < 2; k++) { std::string m; if (confirm(f, &m)) { hits++; m2 = m; } }
          if (hits == 2) { if (!m2.empty()) f.msg = m2; fails.push_back(f); }
          else { // the failure may depend on the process's history (heap contents): one more run of the whole item
            unconfirmed++; unconf = f.msg; }
        }
      }
    }
    if ((int)fails.size() >= maxfail || !internal.empty()) { SH->stop = 1; for (auto& kv : pids) kill(kv.first, SIGKILL); for (auto& kv : pids) waitpid(kv.first, &st, 0); pids.clear(); break; }
    if (!stopped_early) spawn(w);
  }
  u64 chosen = 0; for (u64 c = 0; c < ncases; c++) chosen += in_stride(c);
  bool complete = SH->items_done >= total_items && !SH->stop;
  FILE* f = fopen(out.c_str(), "w"); if (!f) { perror(out.c_str()); return 3; }
  fprintf(f, "{\n \"property\":\"%s\",\n \"cases\":%llu,\n \"items\":%llu,\n \"items_done\":%llu,\n \"executions\":%llu,\n \"mpi_calls\":%llu,\n \"messages\":%llu,\n \"choice_points\":%llu,\n \"pruned\":%llu,\n \"states_sched\":%llu,\n \"states_model\":%llu,\n \"operations\":%llu,\n \"traces\":%llu,\n \"observations\":%llu,\n \"max_choice_points\":%llu,\n \"max_deviations\":%llu,\n \"bound_cut\":%llu,\n \"set_saturated\":%llu,\n \"unconfirmed\":%llu,\n \"unconfirmed_msg\":\"%s\",\n \"ignored\":%llu,\n \"stopped_early\":%s,\n \"complete\":%s,\n \"wall_s\":%.2f,\n",
          h_property(), (unsigned long long)chosen, (unsigned long long)total_items, (unsigned long long)SH->items_done, (unsigned long long)SH->execs, (unsigned long long)SH->steps, (unsigned long long)SH->messages, (unsigned long long)SH->choice_points, (unsigned long long)SH->pruned, (unsigned long long)SH->states_sched, (unsigned long long)SH->states_model, (unsigned long long)SH->transitions, (unsigned long long)SH->traces, (unsigned long long)SH->posted, (unsigned long long)SH->maxpoints, (unsigned long long)SH->maxdevs, (unsigned long long)SH->bound_cut, (unsigned long long)SH->saturated, (unsigned long long)unconfirmed, jesc(unconf).c_str(), (unsigned long long)ignored, stopped_early ? "true" : "false", complete ? "true" : "false", now() - t0);
  fprintf(f, " \"known\":[");
  bool c1 = false; for (auto& k : knownhits) { fprintf(f, "%s{\"key\":\"%s\",\"hits\":%llu,\"msg\":\"%s\"}", c1 ? "," : "", jesc(k.first).c_str(), (unsigned long long)k.second, jesc(knownmsg[k.first]).c_str()); c1 = true; }
  fprintf(f, "],\n \"samples\":[");
  for (int i = 0; i < 3 && ncases; i++) { u64 c = i == 0 ? 0 : i == 1 ? ncases / 2 : ncases - 1; char d[4096]; d[0] = 0; h_describe(c, d, sizeof d); fprintf(f, "%s\"case %llu: %s\"", i ? "," : "", (unsigned long long)c, jesc(d).c_str()); }
  fprintf(f, "],\n \"internal\":\"%s\",\n \"failures\":[", jesc(internal).c_str());
  for (size_t i = 0; i < fails.size(); i++) {
    char d[8192]; d[0] = 0; h_describe(fails[i].kase, d, sizeof d); char pb[64];
    fprintf(f, "%s{\"case\":%llu,\"describe\":\"%s\",\"policy\":%d,\"schedule\":\"%s\",\"message\":\"%s\",\"devs\":[", i ? "," : "", (unsigned long long)fails[i].kase, jesc(d).c_str(), fails[i].policy, policy_name(fails[i].policy, pb), jesc(fails[i].msg).c_str());
    for (size_t k = 0; k < fails[i].devs.size(); k++) fprintf(f, "%s[%d,%d]", k ? "," : "", fails[i].devs[k].idx, fails[i].devs[k].alt);
    fprintf(f, "]}");
  }
  fprintf(f, "]\n}\n"); fclose(f);
  return fails.empty() ? (internal.empty() ? 0 : 3) : 1;
}
