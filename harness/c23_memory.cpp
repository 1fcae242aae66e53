// C23: repeating work does not accumulate memory. Every allocation the library and the harness make
// goes through the ledger below; a history ending with the destruction of everything the user owns is
// repeated, and must not hold more memory each time.
#include "ops2.h"
#include <dirent.h>
#include <dlfcn.h>
#include <new>
extern "C" void* __libc_malloc(size_t); extern "C" void* __libc_calloc(size_t, size_t); extern "C" void* __libc_realloc(void*, size_t); extern "C" void __libc_free(void*);
struct Head { Head *prev, *next; size_t size; void* site; unsigned long cycle, magic; };
static const unsigned long LIVE = 0x6c65646765722b31UL;
static struct { Head head; size_t bytes; unsigned long cycle; } L = {{&L.head, &L.head, 0, 0, 0, 0}, 0, 0};
static void* take(size_t n, void* site) {
  Head* h = (Head*)__libc_malloc(n + sizeof(Head)); if (!h) return NULL;
  h->size = n; h->site = site; h->cycle = L.cycle; h->magic = LIVE; h->prev = &L.head; h->next = L.head.next; h->next->prev = h; L.head.next = h; L.bytes += n;
  return h + 1;
}
static bool ours(void* p) { return ((unsigned long*)p)[-1] == LIVE; }
static void give(void* p) {
  if (!p) return;
  if (!ours(p)) { __libc_free(p); return; }
  Head* h = (Head*)p - 1; h->magic = 0; h->prev->next = h->next; h->next->prev = h->prev; L.bytes -= h->size; __libc_free(h);
}
#define SITE __builtin_return_address(0)
extern "C" void* malloc(size_t n) { return take(n, SITE); }
extern "C" void* calloc(size_t a, size_t b) { void* p = take(a * b, SITE); if (p) memset(p, 0, a * b); return p; }
extern "C" void* realloc(void* p, size_t n) { if (p && !ours(p)) return __libc_realloc(p, n); void* q = take(n, SITE); if (q && p) { Head* h = (Head*)p - 1; memcpy(q, p, std::min(n, h->size)); give(p); } return q; }
extern "C" void free(void* p) { give(p); }
void* operator new(size_t n) { return take(n, SITE); }
void* operator new[](size_t n) { return take(n, SITE); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n, SITE); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n, SITE); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
static std::string sites(unsigned long cycle) {
  std::map<std::string, int> m;
  for (Head* h = L.head.next; h != &L.head; h = h->next) if (h->cycle == cycle) { Dl_info d; std::string s = dladdr(h->site, &d) && d.dli_sname ? fmt("%s+%lx", d.dli_sname, (long)((char*)h->site - (char*)d.dli_saddr)) : fmt("%lx", (long)((char*)h->site - (char*)d.dli_fbase)); ++m[fmt("%zu bytes from ", h->size) + s]; }
  std::string s; for (auto& x : m) s += fmt("; %d times ", x.second) + x.first; return s;
}

struct Case { int ref, n, place, api; bool init, log; std::vector<int> ops; };
static std::vector<Ref> R; static std::vector<Case> C; static Places P;
MCH_ENTRY const char* mch_property() { return "C23"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear(); unsigned cyc = 0;
  R.push_back(mkref("strip", true, 6, {chain(6), EL{{0, 1, 2}, {2, 3, 4}, {1, 4, 5}, {3}}}, 1));
  R.push_back(mkref("path", false, 5, {both(chain(5)), both(EL{{0, 2}, {1, 4}, {0, 4}})}));
  R.push_back(mkref("one", true, 4, {EL{{0, 1, 2, 3}, {0, 1}, {2, 3}}}));
  R.push_back(mkref("empty", true, 4, {EL{}, cycle(4)}));
  R.push_back(mkref("none", true, 3, {}, 1));
  for (auto& r : R) r.coords = true;
  R.push_back(mkref("plain", false, 4, {both(cycle(4))}));
  auto add = [&](int ref, int n, std::vector<int> ops, int stride) {
    pick_places(R[ref].nv(), n, false, stride, cyc++, [&](int a, u64 h) {
      C.push_back({ref, n, a, (int)(h >> 9 & 0xffff) % 3, (h >> 13) % 4 == 0, (h >> 17) % 4 == 0, ops});
    });
  };
  for (int ref = 0; ref < (int)R.size(); ++ref) for (int n = 1; n <= 3; ++n) for (int i = 0; i < ALLOPS; ++i) {
    add(ref, n, {i}, 1);
    for (int j = 0; j < ALLOPS; ++j) { add(ref, n, {i, j}, th ? 1 : n == 1 ? 3 : ref < 2 ? 8 : 16); for (int k = 0; k < ALLOPS; ++k) add(ref, n, {i, j, k}, th ? 29 : 1500); }
  }
  // beyond the sizes and rank counts of the others
  std::vector<Ref> big = larger(1, 200); const int from = (int)R.size(); R.insert(R.end(), big.begin(), big.end()); for (auto& r : spread(2)) R.push_back(r);
  for (int ref = from; ref < (int)R.size(); ++ref) { R[ref].coords = ref & 1; for (int n : ref < from + 6 ? std::vector<int>{2, 3} : std::vector<int>{5, 9, 10}) { int s = R[ref].nv() == 6 ? 20 : 1; for (int i = 0; i < ALLOPS; ++i) { add(ref, n, {i}, s * (th ? 1 : 4)); for (int j = 0; j < ALLOPS; ++j) add(ref, n, {i, j}, s * (th ? 20 : 150)); } } }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = 0; p->policies = MC_POL_RTB; p->shards = 1; }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; std::string s = R[k.ref].str() + fmt(" on %d ranks, vertices on %s:%s construction;", k.n, pstr(P[R[k.ref].nv()][k.n][k.place]).c_str(), k.init ? " initialisation;" : "");
  for (int o : k.ops) s += std::string(" ") + opname(o) + ";"; s += k.log ? " with log" : "";
  snprintf(b, n, "%s", s.c_str());
}
static int open_files() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) mc_fail("INTERNAL opendir"); while (readdir(d)) ++n; closedir(d); return n; }
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const Ref& r = R[k.ref]; const int me = mc_rank();
  if (chdir(mc_scratch())) mc_fail("INTERNAL chdir");
  if (!k.init) EnGPar_Initialize(-1);
  const int CYCLES = 5; static size_t held[CYCLES]; static int files[CYCLES], comms[CYCLES];
  for (int cycle = 0; cycle < CYCLES; ++cycle) {
    L.cycle = cycle + 1;
    {
      if (k.init) EnGPar_Initialize(-1);
      if (k.log) EnGPar_Open_Log();
      State st{NULL, false, (int)r.types.size()};
      st.g = build(r, P[r.nv()][k.n][k.place], BuildOpt{r.types.size() == 1 && k.api == 2 ? 2 : k.api & 1, false});
      int at = 1; for (int o : k.ops) applyx(o, st, k.n, P[r.nv()][k.n][k.place], k.place, k.api, r, -1, at++);
      agi::destroyGraph(st.g);
      if (k.log) EnGPar_Close_Log();
      if (k.init) EnGPar_Finalize();
      mc_world_sync();
    }
    held[cycle] = L.bytes;
    comms[cycle] = mc_open_comms(me); if (!me) files[cycle] = open_files();
    mc_world_sync();
  }
  if (held[4] > held[3] && held[3] > held[2] && held[2] > held[1]) { std::string s = sites(CYCLES - 1); mc_fail("rank %d holds %zu bytes more after each repetition (%zu %zu %zu %zu %zu)%s", me, held[4] - held[3], held[0], held[1], held[2], held[3], held[4], s.c_str()); }
  for (int* f : {files, comms}) if (f[4] > f[3] && f[3] > f[2] && f[2] > f[1]) mc_fail("%s left open after each repetition: %d %d %d %d %d", f == files ? "files" : "communicators", f[0], f[1], f[2], f[3], f[4]);
  if (!me) { mc_transition(k.ops.size() * CYCLES); mc_state(hmix(hmix(c, held[4]), k.n)); }
  if (!k.init) EnGPar_Finalize();
}
MCH_ENTRY void mch_judge(u64, int, const mc_blob* const*, const int*) { mc_trace_validated(); }
