// Helpers shared by the harnesses.
#pragma once
#include <mpi.h>
#include <mc.h>
#include <PCU.h>
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <vector>

typedef uint64_t u64;
struct Out {
  std::string s;
  Out& i(int64_t v) { s.append((const char*)&v, 8); return *this; }
  Out& d(double v) { s.append((const char*)&v, 8); return *this; }
  Out& str(const std::string& v) { i((int64_t)v.size()); s += v; return *this; }
  void post() { mc_post(s.data(), s.size()); }
};
struct In {
  const char* p; size_t n, at = 0;
  In(const mc_blob& b) : p((const char*)b.p), n(b.n) {}
  In(const std::string& s) : p(s.data()), n(s.size()) {}
  int64_t i() { int64_t v; need(8); memcpy(&v, p + at, 8); at += 8; return v; }
  double d() { double v; need(8); memcpy(&v, p + at, 8); at += 8; return v; }
  std::string str() { int64_t k = i(); need(k); std::string r(p + at, k); at += k; return r; }
  bool end() const { return at >= n; }
  void need(size_t k) { if (at + k > n) mc_fail("INTERNAL short observation record"); }
};
inline u64 hmix(u64 h, u64 v) { mc_hash_bytes(&h, &v, 8); return h; }
inline u64 hstr(const std::string& s) { u64 h = 7; mc_hash_bytes(&h, s.data(), s.size()); return h; }
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
#include <cstdarg>
inline std::string fmt(const char* f, ...) {
  char b[2000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
// Cases are described by a generator that appends to a table; a case is a small vector of ints.
#define MCH_ENTRY extern "C" __attribute__((visibility("default")))
