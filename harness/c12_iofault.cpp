// C12: a failed or incomplete save is never silently taken for a graph.
#include "refgraph.h"
#include "bgdfile.h"
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <errno.h>
enum { TRUNC, LIMIT, FULL, MISSING, NOTDIR, ISDIR, NODIR, WFAIL, WSHORT, WCLOSE, RFAIL };
struct Case { int ref, n, place, kind, rank; int cut, len; int buf; };
static std::vector<Ref> R; static std::vector<Case> C; static std::vector<Place> P;

// The file system of the transient faults: calls of the library to fopen come here. A stream's buf bytes buffer is
// filled and emptied by calls of which number `at` fails once; all others succeed.
static struct { int kind, at, buf, calls, closed; } F = {-1, 0, 0, 0, 0};
static FILE* real_fopen(const char* path, const char* mode) {
  typedef FILE* (*fn)(const char*, const char*);
  static fn f = (fn)dlsym(RTLD_NEXT, "fopen");
  return f(path, mode);
}
static ssize_t f_read(void* c, char* b, size_t n) { if (F.kind == RFAIL && F.calls++ == F.at) { errno = EIO; return -1; } return read((int)(long)c, b, n); }
static ssize_t f_write(void* c, const char* b, size_t n) {
  bool now = F.calls++ == F.at;
  if (now && F.kind == WFAIL) { errno = ENOSPC; return 0; }
  if (now && F.kind == WSHORT) { n = n / 2; if (!n) { errno = ENOSPC; return 0; } }
  ssize_t r = write((int)(long)c, b, n); return r < 0 ? 0 : r;
}
static int f_close(void* c) { int r = close((int)(long)c); if (F.kind == WCLOSE) { F.closed = 1; errno = EIO; return -1; } return r; }
extern "C" FILE* fopen(const char* path, const char* mode) {
  if (F.kind < 0 || !strstr(path, ".bgd")) return real_fopen(path, mode);
  int fd = open(path, *mode == 'w' ? O_CREAT | O_TRUNC | O_WRONLY : O_RDONLY, 0600); if (fd < 0) return NULL;
  cookie_io_functions_t io = {f_read, f_write, NULL, f_close};
  FILE* f = fopencookie((void*)(long)fd, mode, io); if (!f) { close(fd); return NULL; }
  static char b[8192]; setvbuf(f, F.buf ? b : NULL, F.buf ? _IOFBF : _IONBF, F.buf);
  return f;
}
extern "C" FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
MCH_ENTRY const char* mch_property() { return "C12"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); R.clear(); P.clear();
  auto add = [&](const Ref& r, const Place& p, int n) {
    R.push_back(r); P.push_back(p); int id = (int)R.size() - 1; int most = 0;
    for (int q = 0; q < n; ++q) {
      int len = (int)bgd_bytes(r, p, q, false).size(); most = std::max(most, len);
      for (int k = 0; k <= len; ++k) C.push_back({id, n, id, TRUNC, q, k, len});
      for (int kind : {FULL, MISSING, ISDIR}) C.push_back({id, n, id, kind, q, 0, len});
    }
    for (int k = 0; k <= most; ++k) C.push_back({id, n, id, LIMIT, 0, k, most});
    for (int kind : {NOTDIR, NODIR}) C.push_back({id, n, id, kind, 0, 0, most});
    for (int q = 0; q < n; ++q) for (int buf : {0, 12, 20, 64, 4096}) {
      int len = (int)bgd_bytes(r, p, q, false).size(), calls = buf ? len / buf + 2 : len / 4 + 1;
      if (len > 1000 && buf && buf < 64 && !th) continue;
      for (int kind : {WFAIL, WSHORT, RFAIL}) for (int k = 0; k < calls; ++k) C.push_back({id, n, id, kind, q, k, len, buf});
      C.push_back({id, n, id, WCLOSE, q, 0, len, buf});
    }
  };
  for (int ids = 0; ids < (th ? 2 : 1); ++ids) for (auto& g : curated(ids)) {
    Ref r = g; r.coords = r.types.size() != 2;
    add(r, {0, 0, 0, 0}, 1); add(r, {0, 1, 0, 1}, 2); add(r, {1, 1, 1, 0}, 2); add(r, {1, 1, 1, 1}, 2); 
    if (th || r.types.size() != 1) add(r, {2, 0, 1, 2}, 3);
    if (th) for (auto& p : placements(4, 2)) add(r, p, 2);
  }
  if (th) for (auto& e : all_hyper(2, 3)) for (auto& p : placements(2, 2)) add(mkref("all", true, 2, {e}), p, 2);
  if (th) for (auto& e : all_digraphs(2, true)) for (auto& p : placements(2, 2)) add(mkref("all", false, 2, {e}), p, 2);
  // many ranks
  for (int ids = 0; ids < 2; ++ids) for (auto& r : spread(ids)) for (int n : {5, 9, 10}) { const Place& p = places(r.nv(), n)[ids * 2]; R.push_back(r); P.push_back(p); int id = (int)R.size() - 1; for (int q = 0; q < n; ++q) { int len = (int)bgd_bytes(r, p, q, false).size(); for (int k : {0, 3, len / 2, len - 1, len}) C.push_back({id, n, id, TRUNC, q, k, len}); for (int kind : {FULL, MISSING, ISDIR}) C.push_back({id, n, id, kind, q, 0, len}); for (int kind : {WFAIL, WSHORT, RFAIL}) C.push_back({id, n, id, kind, q, q, len, 64}); } }
  // longer than the buffers of the standard library
  int L = th ? 300 : 130; Place z(L, 0), h(L, 0); for (int v = 0; v < L; ++v) h[v] = v * 2 / L;
  add(mkref("long", true, L, {chain(L)}), z, 1);
  if (th) { add(mkref("long", true, L, {chain(L), star(L)}), h, 2); add(mkref("long", false, L, {both(chain(L))}), z, 1); }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = 0; p->policies = MC_POL_RTB; p->shards = 1; p->isolate = 1; }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; static const char* N[] = {"load with the file of rank %d cut after %d of %d bytes", "save with a file size limit (rank %d) of %d of %d bytes", "save with the file of rank %d on a full device", "load without the file of rank %d", "save where a directory of the path is a file", "save where the file of rank %d is a directory", "load from a directory that does not exist",
    "save where write call %2$d of rank %1$d fails once", "save where write call %2$d of rank %1$d is short", "save where closing the file of rank %d fails", "load where read call %2$d of rank %1$d fails once"};
  std::string s = R[k.ref].nv() > 9 ? fmt("%s %d vertices", R[k.ref].name.c_str(), R[k.ref].nv()) : R[k.ref].str() + ", vertices on " + pstr(P[k.place]);
  snprintf(b, n, "%s on %d ranks: %s", s.c_str(), k.n, (fmt(N[k.kind], k.rank, k.cut, k.len) + (k.kind >= WFAIL ? fmt(" (stream buffer of %d bytes)", k.buf) : "")).c_str());
}
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; const Ref& r = R[k.ref]; const Place& p = P[k.place]; const int me = mc_rank();
  bool load = k.kind == TRUNC || k.kind == MISSING || k.kind == NODIR || k.kind == RFAIL;
  std::string dir = std::string(mc_scratch()) + "/f", prefix = dir + "/g";
  auto name = [&](int q) { return prefix + fmt("_%d.bgd", q); };
  if (!me) {
    mkdir(dir.c_str(), 0700); unlink((dir + "/x").c_str());
    for (int q = 0; q < MC_MAX_RANKS; ++q) { unlink(name(q).c_str()); rmdir(name(q).c_str()); }
    if (load) for (int q = 0; q < k.n; ++q) {
      std::string s = bgd_bytes(r, p, q, false);
      if (q == k.rank && k.kind == TRUNC) s.resize(k.cut);
      if (q != k.rank || k.kind != MISSING) bgd_write(name(q), s);
    }
    if (k.kind == FULL && symlink("/dev/full", name(k.rank).c_str())) mc_fail("INTERNAL symlink");
    if (k.kind == ISDIR && mkdir(name(k.rank).c_str(), 0700)) mc_fail("INTERNAL mkdir");
    if (k.kind == NOTDIR) bgd_write(dir + "/x", "file");
  }
  mc_world_sync();
  if (k.kind == NOTDIR) prefix = dir + "/x/g";
  if (k.kind == NODIR) prefix = dir + "/none/g";
  EnGPar_Initialize(-1);
  agi::Ngraph* g = load ? agi::createEmptyGraph() : build(r, p);
  if (k.kind == LIMIT) { signal(SIGXFSZ, SIG_IGN); struct rlimit l = {(rlim_t)k.cut, (rlim_t)RLIM_INFINITY}; mc_world_sync(); if (setrlimit(RLIMIT_FSIZE, &l)) mc_fail("INTERNAL setrlimit"); }
  mc_may_stop(1);
  if (k.kind >= WFAIL && me == k.rank) { F.kind = k.kind; F.at = k.cut; F.buf = k.buf; F.calls = 0; }
  if (load) g->loadFromFile(prefix.c_str()); else g->saveToFile(prefix.c_str());
  F.kind = -1;
  mc_may_stop(0);
  mc_world_sync(); // every rank returned normally
  if (k.kind == LIMIT) { struct rlimit l = {(rlim_t)RLIM_INFINITY, (rlim_t)RLIM_INFINITY}; setrlimit(RLIMIT_FSIZE, &l); mc_world_sync(); }
  if (load) {
    if (k.kind != TRUNC && k.kind != RFAIL) mc_fail("loading a file that does not exist returned normally");
    CheckOpt co; co.what = k.kind == RFAIL ? "a graph loaded without complaint although a read failed" : k.cut < k.len ? "a graph loaded without complaint from an incomplete file" : "a graph loaded from a complete file"; co.global = false;
    check_graph(g, r, p, co);
  } else {
    if (k.kind == WCLOSE ? F.closed : k.kind != LIMIT && k.kind != WFAIL && k.kind != WSHORT) mc_fail("saving returned normally although a file could not be written");
    if (!me) for (int q = 0; q < k.n; ++q) bgd_expect(r, p, q, bgd_slurp(name(q)));
  }
  agi::destroyGraph(g);
  EnGPar_Finalize();
}
MCH_ENTRY void mch_judge(u64 c, int, const mc_blob* const*, const int*) {
  Case& k = C[c];
  if (mc_stopped() && (k.kind == TRUNC || k.kind == LIMIT) && k.cut >= k.len) mc_fail("stopped with an error although nothing was wrong");
  mc_transition(1); mc_state(hmix(hmix(R[k.ref].hash(), k.kind * 16 + k.rank), hmix(k.cut, k.n)));
  mc_trace_validated();
}
