// C25: PCU's binary files: what is written is on the disk in the portable format and is read back, or the program stops.
#include "common.h"
#include <pcu_io.h>
#include <algorithm>
#include <cmath>
#include <limits>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
enum { UNS, DBL, STR, RAW };
struct Item { int kind, n, val; };
enum { GOOD, TRUNC, WFAIL, WSHORT, WCLOSE, RFAIL, WRONGMODE, MISSING, OPENFAIL, DEBUG_ };
struct Case { int n, mode, rank, at, buf; std::vector<Item> seq; bool comm; };
static std::vector<Case> C;
static struct { int kind, at, buf, calls, closed; } F = {-1, 0, 0, 0, 0};
static FILE* real_fopen(const char* path, const char* mode) { typedef FILE* (*fn)(const char*, const char*); static fn f = (fn)dlsym(RTLD_NEXT, "fopen"); return f(path, mode); }
static ssize_t f_read(void* c, char* b, size_t n) { if (F.kind == RFAIL && F.calls++ == F.at) { errno = EIO; return -1; } return read((int)(long)c, b, n); }
static ssize_t f_write(void* c, const char* b, size_t n) {
  bool now = F.calls++ == F.at;
  if (now && F.kind == WFAIL) { errno = ENOSPC; return 0; }
  if (now && F.kind == WSHORT) { n = n / 2; if (!n) { errno = ENOSPC; return 0; } }
  ssize_t r = write((int)(long)c, b, n); return r < 0 ? 0 : r;
}
static int f_close(void* c) { int r = close((int)(long)c); if (F.kind == WCLOSE) { F.closed = 1; errno = EIO; return -1; } return r; }
extern "C" FILE* fopen(const char* path, const char* mode) {
  if (F.kind == OPENFAIL && strstr(path, ".pcb")) { errno = EACCES; return NULL; }
  if (F.kind < 0 || !strstr(path, ".pcb")) return real_fopen(path, mode);
  int fd = open(path, *mode == 'w' ? O_CREAT | O_TRUNC | O_WRONLY : O_RDONLY, 0600); if (fd < 0) return NULL;
  cookie_io_functions_t io = {f_read, f_write, NULL, f_close};
  FILE* f = fopencookie((void*)(long)fd, mode, io); if (!f) { close(fd); return NULL; }
  static char b[8192]; setvbuf(f, F.buf ? b : NULL, F.buf ? _IOFBF : _IONBF, F.buf);
  return f;
}
extern "C" FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
static const unsigned U[] = {0u, 1u, 0x01020304u, 0xffffffffu, 0x80000000u, 0x00ff00ffu, 7u};
static double D(int i) { static const double d[] = {0.0, -0.0, 1.0, -2.5, 1e300, 4.9e-324, 0.1, -INFINITY, 3.141592653589793}; return d[i % 9]; }
static unsigned uns(const Item& i, int rank, int k) { return U[(i.val + k + rank) % 7] ^ (k > 6 ? k * 2654435761u : 0); }
static double dbl(const Item& i, int rank, int k) { return k > 8 ? k * 0.37 + rank : D(i.val + k + rank); }
static char chr(const Item& i, int rank, int k, bool raw) { unsigned char c = (i.val * 31 + k * 7 + rank * 3) % (raw ? 256 : 255); return (char)(raw ? c : c + 1); }
// the format: unsigned integers and doubles with the most significant byte first, strings with their zero
static std::string bytes(const std::vector<Item>& q, int rank) {
  std::string s;
  for (const Item& i : q) for (int k = 0; k < i.n + (i.kind == STR); ++k) {
    if (i.kind == UNS) { unsigned u = uns(i, rank, k); for (int b = 3; b >= 0; --b) s += (char)(u >> (8 * b)); }
    else if (i.kind == DBL) { double d = dbl(i, rank, k); unsigned long u; memcpy(&u, &d, 8); for (int b = 7; b >= 0; --b) s += (char)(u >> (8 * b)); }
    else s += i.kind == STR && k == i.n ? '\0' : chr(i, rank, k, i.kind == RAW);
  }
  return s;
}
static std::string str(const std::vector<Item>& q) { static const char* N[] = {"unsigneds", "doubles", "string", "bytes"}; std::string s; for (const Item& i : q) s += fmt(" %d %s(%d);", i.n, N[i.kind], i.val); return s; }
MCH_ENTRY const char* mch_property() { return "C25"; }
MCH_ENTRY u64 mch_num_cases(int th) {
  C.clear(); unsigned cyc = 0;
  std::vector<Item> A;
  for (int n : {0, 1, 3}) for (int v : {0, 2}) A.push_back({UNS, n, v});
  for (int n : {0, 1, 2}) for (int v : {1, 4}) A.push_back({DBL, n, v});
  for (int n : {0, 1, 5, 70}) A.push_back({STR, n, n});
  for (int n : {0, 1, 4}) A.push_back({RAW, n, 5});
  A.push_back({UNS, 3000, 0}); A.push_back({DBL, 1200, 0}); A.push_back({STR, 4500, 1}); // longer than the buffers of a stream
  auto faults = [&](const std::vector<Item>& q, int n) {
#ifdef NOFAULTS
    return;
#endif
    for (int r = 0; r < n; ++r) {
      int len = (int)bytes(q, r).size(), step = len > 200 && !th ? 97 : len > 200 ? 7 : 1;
      for (int k = 0; k < len; k += step) C.push_back({n, TRUNC, r, k, 0, q, false});
      for (int b : {0, 12, 64, 4096}) {
        int calls = b ? len / b + 2 : len + 1; step = calls > 200 ? (th ? 7 : 97) : 1;
        for (int m : {WFAIL, WSHORT, RFAIL}) for (int k = 0; k < calls; k += step) C.push_back({n, m, r, k, b, q, false});
        C.push_back({n, WCLOSE, r, 0, b, q, false});
      }
      for (int m : {WRONGMODE, MISSING, OPENFAIL}) C.push_back({n, m, r, 0, 0, q, false});
      C.push_back({n, WRONGMODE, r, 1, 0, q, false});
    }
  };
  for (int n = 1; n <= 3; ++n) {
    for (auto& a : A) { C.push_back({n, GOOD, 0, 0, 0, {a}, false}); C.push_back({n, GOOD, 0, 0, 0, {a}, true}); if (a.n < 100 || n == 1) faults({a}, n); }
    for (auto& a : A) for (auto& b : A) {
      C.push_back({n, GOOD, 0, 0, 0, {a, b}, (bool)(hmix(6, cyc++) & 1)});
      if (n == 1 && a.n < 100 && b.n < 100 && (th || hmix(3, cyc++) % 4 == 0)) faults({a, b}, n);
      for (auto& c : A) {
        u64 h = hmix(4, cyc++); if (!th && n > 1 && h % 8) continue;
        C.push_back({n, GOOD, 0, 0, 0, {a, b, c}, (bool)(h >> 8 & 1)});
        if (th) for (auto& d : A) { h = hmix(5, cyc++); if (h % 3 == 0) C.push_back({n, GOOD, 0, 0, 0, {a, b, c, d}, (bool)(h >> 8 & 1)}); }
      }
    }
    for (auto& a : A) if (a.kind == STR) for (bool comm : {false, true}) C.push_back({n, DEBUG_, 0, 0, 0, {a, a}, comm});
  }
  return C.size();
}
MCH_ENTRY void mch_params(u64 c, mc_params* p) { p->ranks = C[c].n; p->deviations = 0; p->policies = MC_POL_RTB; p->shards = 1; p->isolate = C[c].mode != GOOD && C[c].mode != DEBUG_; }
MCH_ENTRY void mch_describe(u64 c, char* b, size_t n) {
  Case& k = C[c]; static const char* N[] = {"", "file of rank %d cut after %d bytes", "write call %2$d of rank %1$d fails once", "write call %2$d of rank %1$d is short", "closing the file of rank %d fails", "read call %2$d of rank %1$d fails once", "rank %d reads from a file being written, and the reverse", "the file of rank %d is missing", "the file of rank %d cannot be opened", "debug output"};
  snprintf(b, n, "%d ranks%s:%s %s%s", k.n, k.comm ? " in reverse order" : "", str(k.seq).c_str(), fmt(N[k.mode], k.rank, k.at).c_str(), k.mode >= WFAIL && k.mode <= RFAIL ? fmt(" (stream buffer of %d bytes)", k.buf).c_str() : "");
}
static void write_all(pcu_file* f, const std::vector<Item>& q, int me) {
  for (const Item& i : q) {
    std::vector<unsigned> u(i.n + 1); std::vector<double> d(i.n + 1); std::string s(i.n, ' ');
    for (int k = 0; k < i.n; ++k) { u[k] = uns(i, me, k); d[k] = dbl(i, me, k); s[k] = chr(i, me, k, i.kind == RAW); }
    std::vector<unsigned> u0 = u; std::vector<double> d0 = d; std::string s0 = s;
    if (i.kind == UNS) { if (i.n == 1 && i.val) PCU_WRITE_UNSIGNED(f, u[0]) else pcu_write_unsigneds(f, u.data(), i.n); }
    if (i.kind == DBL) pcu_write_doubles(f, d.data(), i.n);
    if (i.kind == STR) pcu_write_string(f, s.c_str());
    if (i.kind == RAW) pcu_write(f, s.data(), i.n);
    if (memcmp(u.data(), u0.data(), 4 * u.size()) || memcmp(d.data(), d0.data(), 8 * d.size()) || s != s0) mc_fail("writing changed the values of the caller");
  }
}
static void read_all(pcu_file* f, const std::vector<Item>& q, int me) {
  int at = 0;
  for (const Item& i : q) {
    ++at;
    const unsigned UC = 0xdeadbeef; const double DC = 12345.5;
    if (i.kind == UNS) {
      std::vector<unsigned> u(i.n + 1, UC); if (i.n == 1 && i.val) PCU_READ_UNSIGNED(f, u[0]) else pcu_read_unsigneds(f, u.data(), i.n);
      for (int k = 0; k <= i.n; ++k) if (u[k] != (k < i.n ? uns(i, me, k) : UC)) mc_fail("rank %d item %d: unsigned %d is %x instead of %x", me, at, k, u[k], k < i.n ? uns(i, me, k) : UC);
    } else if (i.kind == DBL) {
      std::vector<double> d(i.n + 1, DC); pcu_read_doubles(f, d.data(), i.n);
      for (int k = 0; k <= i.n; ++k) { double e = k < i.n ? dbl(i, me, k) : DC; if (memcmp(&d[k], &e, 8)) mc_fail("rank %d item %d: double %d is %.17g instead of %.17g", me, at, k, d[k], e); }
    } else if (i.kind == STR) {
      char* p = NULL; pcu_read_string(f, &p); std::string e; for (int k = 0; k < i.n; ++k) e += chr(i, me, k, false);
      if (!p || e != p) mc_fail("rank %d item %d: string of %d characters instead of %d", me, at, p ? (int)strlen(p) : -1, i.n); free(p);
    } else {
      std::string s(i.n + 1, 'c'); pcu_read(f, &s[0], i.n);
      for (int k = 0; k <= i.n; ++k) if (s[k] != (k < i.n ? chr(i, me, k, true) : 'c')) mc_fail("rank %d item %d: byte %d is wrong", me, at, k);
    }
  }
}
static std::string slurp(const std::string& p) { std::string s; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return "(no file)"; char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s; }
static void spit(const std::string& p, const std::string& s) { int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) mc_fail("INTERNAL write"); close(fd); }
MCH_ENTRY void mch_rank_main(u64 c) {
  Case& k = C[c]; if (chdir(mc_scratch())) mc_fail("INTERNAL chdir");
  PCU_Comm_Init();
  MPI_Comm rev = MPI_COMM_NULL;
  if (k.comm) { MPI_Comm_split(MPI_COMM_WORLD, 0, -mc_rank(), &rev); PCU_Switch_Comm(rev); }
  const int me = PCU_Comm_Self();
  std::string path = fmt("f%d.pcb", me);
  unlink(path.c_str());
  if (k.mode == DEBUG_) { // text files of each rank
    std::string e; unlink(fmt("debug%d.txt", me).c_str()); mc_world_sync();
    PCU_Debug_Print("before the file is open\n");
    for (const Item& i : k.seq) { PCU_Debug_Open(); std::string s; for (int j = 0; j < i.n; ++j) s += chr(i, me, j, false); PCU_Debug_Print("%s %d\n", s.c_str(), me); e += s + fmt(" %d\n", me); if (slurp(fmt("debug%d.txt", me)) != e) mc_fail("the debug file of rank %d does not hold what was printed", me); }
    FILE* f = pcu_open_parallel("par", "out"); if (!f) mc_fail("pcu_open_parallel"); fprintf(f, "%d", me); fclose(f);
    if (slurp(fmt("par%d.out", me)) != fmt("%d", me)) mc_fail("pcu_open_parallel opened another file on rank %d", me);
    mc_world_sync();
    if (me == 0) { mc_transition(1); mc_state(hmix(c, k.n)); }
  } else {
    const std::string e = bytes(k.seq, me); bool hit = me == k.rank && k.mode != GOOD;
    bool writing = k.mode != TRUNC && k.mode != MISSING && k.mode != RFAIL && !(k.mode == OPENFAIL && k.seq[0].val & 1);
    mc_world_sync();
    if (hit && k.mode >= WFAIL) { F.kind = k.mode == WRONGMODE || k.mode == MISSING ? -1 : k.mode; F.at = k.at; F.buf = k.buf; F.calls = F.closed = 0; }
    if (k.mode != GOOD) mc_may_stop(1);
    if (writing) {
      pcu_file* f = pcu_fopen(path.c_str(), true, false);
      if (hit && k.mode == WRONGMODE && !k.at) { char x[9]; pcu_read(f, x, 1); mc_fail("reading from a file opened for writing returned"); }
      write_all(f, k.seq, me); pcu_fclose(f);
      F.kind = -1;
      if (slurp(path) != e) mc_fail("the file of rank %d does not hold the portable form of what was written, and nobody complained", me);
      if (hit && (k.mode == OPENFAIL || (k.mode == WCLOSE && F.closed))) mc_fail("writing returned normally although the file could not be %s", k.mode == OPENFAIL ? "opened" : "closed");
    } else {
      spit(path, hit && k.mode == TRUNC ? e.substr(0, k.at) : e); if (hit && k.mode == MISSING) unlink(path.c_str());
    }
    mc_world_sync();
    if (hit && k.mode == RFAIL) F.kind = RFAIL;
    pcu_file* f = pcu_fopen(path.c_str(), false, false);
    if (hit && (k.mode == MISSING || k.mode == OPENFAIL)) mc_fail("opening a missing file returned normally");
    if (hit && k.mode == WRONGMODE) { pcu_write(f, "x", 1); mc_fail("writing to a file opened for reading returned"); }
    read_all(f, k.seq, me);
    if (hit && k.mode == TRUNC) mc_fail("an incomplete file was read without complaint");
    if (me == 0 && k.mode == GOOD && k.seq.size() == 1) { // both ways of turning bytes around
      unsigned u[2] = {0x01020304, 5}; double d = 1.5, d0 = d; pcu_swap_unsigneds(u, 2); if (u[0] != 0x04030201 || u[1] != 0x05000000) mc_fail("pcu_swap_unsigneds"); pcu_swap_doubles(&d, 1); pcu_swap_doubles(&d, 1); if (memcmp(&d, &d0, 8)) mc_fail("pcu_swap_doubles twice");
    }
    pcu_fclose(f); F.kind = -1; mc_may_stop(0);
    mc_world_sync();
    if (me == 0) { mc_transition(2 * k.seq.size()); mc_state(hmix(hstr(e), k.n)); }
  }
  PCU_Comm_Free();
  if (rev != MPI_COMM_NULL) MPI_Comm_free(&rev);
}
MCH_ENTRY void mch_judge(u64 c, int, const mc_blob* const*, const int*) {
  Case& k = C[c];
  if (mc_stopped()) { if (k.mode == GOOD) mc_fail("stopped with an error although nothing was wrong"); mc_transition(1); mc_state(hmix(hmix(k.mode, k.at), hmix(k.rank, hstr(bytes(k.seq, 0))))); }
  mc_trace_validated();
}
