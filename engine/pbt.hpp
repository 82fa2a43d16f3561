// Small property-based testing engine.
//  * a case is a pure function of a choice sequence (list of bounded integers);
//  * choices are generated from splitmix64(seed, target, index), recorded, and can be replayed / shrunk;
//  * cases run in forked workers so assertion failures, exit(), signals and sanitizer reports of
//    the code under test are attributed to the case that caused them.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <algorithm>
#include <limits>

namespace pbt {

struct Fail {
  std::string key, msg;
};
struct Discard {};

inline uint64_t mix64(uint64_t z)
{
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string& s)
{
  uint64_t h = 1469598103934665603ULL;
  for(unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return h;
}

const uint32_t MAXCHOICES = 1u << 18;

// shared (mmap) record of the running case
struct Shared {
  volatile uint64_t case_idx;
  volatile int state;  // 0 idle, 1 running, 2 ok, 3 failed, 4 discarded, 5 all done
  volatile uint32_t nchoices;
  volatile uint64_t ncases, nnontrivial, ndiscard;
  volatile uint64_t beat;  // signs of life within a case
  char key[512];
  char msg[8192];
  uint64_t choices[MAXCHOICES];
};

class Ctx
{
public:
  Ctx(Shared* sh, uint64_t seed) : sh_(sh), rng_(seed), replay_(false) { sh_->nchoices = 0; }
  Ctx(Shared* sh, const std::vector<uint64_t>& pre) : sh_(sh), rng_(0), replay_(true), prefix_(pre) { sh_->nchoices = 0; }

  // ---- primitive choice: uniform integer in [0,max] ----
  uint64_t draw(uint64_t max)
  {
    uint64_t v;
    if(replay_) {
      v = pos_ < prefix_.size() ? std::min(prefix_[pos_], max) : 0;
    } else {
      rng_ = mix64(rng_);
      v = (max == UINT64_MAX) ? rng_ : rng_ % (max + 1);
    }
    pos_++;
    if(sh_->nchoices < MAXCHOICES) { sh_->choices[sh_->nchoices] = v; sh_->nchoices = sh_->nchoices + 1; }
    return v;
  }
  // integer in [lo,hi], shrinks to lo
  int64_t range(int64_t lo, int64_t hi) { return hi <= lo ? lo : lo + (int64_t)draw((uint64_t)(hi - lo)); }
  // true with probability num/den, shrinks to false
  bool chance(int num, int den) { return (int)draw(den - 1) >= den - num; }
  bool flip() { return draw(1) == 1; }
  template<class T> const T& pick(const std::vector<T>& v) { return v[(size_t)draw(v.size() - 1)]; }
  template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + (size_t)draw(l.size() - 1)); }
  // size with a bias to small, shrinks to lo
  int64_t size(int64_t lo, int64_t hi)
  {
    if(chance(1, 4)) return range(lo, hi);
    return range(lo, std::min<int64_t>(hi, lo + 6));
  }
  // double in [a,b], 2^-20 resolution, shrinks to a
  double uni(double a, double b) { return a + (b - a) * ((double)draw(1u << 20) / (double)(1u << 20)); }
  // "ordinary" double: mixes small integers, fractions, wide magnitudes. shrinks to 0
  double num()
  {
    switch(draw(5)) {
    case 0: return (double)range(0, 4);
    case 1: return -(double)range(0, 4);
    case 2: return uni(0, 10);
    case 3: return -uni(0, 10);
    case 4: return std::ldexp(1.0 + uni(0, 1), (int)range(0, 60) - 30);
    default: return -std::ldexp(1.0 + uni(0, 1), (int)range(0, 60) - 30);
    }
  }
  double nz() { double v = num(); return v == 0.0 ? 1.0 : v; }
  double moderate() { return flip() ? uni(0, 4) : -uni(0, 4); }
  double pos() { double v = std::fabs(num()); return v == 0.0 ? 1.0 : v; }

  // ---- bookkeeping ----
  void label(const std::string& s) { labels.insert(s); }
  void nontrivial(bool b = true) { nt = nt || b; }
  bool is_nontrivial() const { return nt; }
  bool verbose = false;
  std::ostringstream desc;
  FILE* descf = nullptr;  // set during replay: the description survives a crash of the case
  template<class T> Ctx& operator<<(const T& t)
  {
    if(verbose && desc.tellp() < 20000) {
      desc << t;
      if(descf) { std::ostringstream o; o << t; fputs(o.str().c_str(), descf); fflush(descf); }
    }
    return *this;
  }
  std::set<std::string> labels;
  uint64_t choice_hash() const
  {
    uint64_t h = 88172645463325252ULL;
    for(uint32_t i = 0; i < sh_->nchoices; i++) h = mix64(h ^ sh_->choices[i]);
    return h;
  }
  Shared* shared() { return sh_; }

private:
  Shared* sh_;
  uint64_t rng_;
  bool replay_;
  std::vector<uint64_t> prefix_;
  size_t pos_ = 0;
  bool nt = false;
};

[[noreturn]] inline void fail(const std::string& key, const std::string& msg) { throw Fail{key, msg}; }
inline void check(bool b, const std::string& key, const std::string& msg = "")
{
  if(!b) fail(key, msg.empty() ? key : msg);
}
inline void discard() { throw Discard(); }
// a sign of life from a long case (mpi mode: without one for a while, the ranks count as deadlocked)
void beat();

inline std::string quote(const std::string& v)
{
  std::string o = "\""; char b[8];
  for(unsigned char ch : v.substr(0, 3000)) { if(ch == '\n') o += "\\n"; else if(ch < 32 || ch > 126 || ch == '"' || ch == '\\') { snprintf(b, sizeof b, "\\x%02x", ch); o += b; } else o += (char)ch; }
  return o + (v.size() > 3000 ? "...\"" : "\"");
}
inline std::string str(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
inline std::string str(const double* v, size_t n)
{
  std::string s = "[";
  for(size_t i = 0; i < n && i < 40; i++) s += (i ? "," : "") + str(v[i]);
  if(n > 40) s += ",...";
  return s + "]";
}
inline std::string str(const std::vector<double>& v) { return str(v.data(), v.size()); }
inline std::string stri(const std::vector<int>& v)
{
  std::string s = "[";
  for(size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}
inline bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
inline bool near(double a, double b, double rtol, double atol)
{
  if(std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if(std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}
// compare arrays elementwise exactly
inline void eq_arr(const double* got, const std::vector<double>& want, const std::string& key)
{
  for(size_t i = 0; i < want.size(); i++)
    if(!same(got[i], want[i]))
      fail(key, key + ": element " + std::to_string(i) + " is " + str(got[i]) + ", expected " + str(want[i]) + "; got " +
                  str(got, want.size()) + " expected " + str(want));
}
// compare arrays with per-element error bound (bound given per element: tol[i])
inline void close_arr(const double* got, const std::vector<double>& want, const std::vector<double>& tol, const std::string& key)
{
  for(size_t i = 0; i < want.size(); i++) {
    bool ok = same(got[i], want[i]) || std::fabs(got[i] - want[i]) <= tol[i];
    if(!ok)
      fail(key, key + ": element " + std::to_string(i) + " is " + str(got[i]) + ", expected " + str(want[i]) + " (tol " +
                  str(tol[i]) + "); got " + str(got, want.size()) + " expected " + str(want));
  }
}
inline void close_val(double got, double want, double tol, const std::string& key)
{
  if(same(got, want)) return;
  if(!(std::fabs(got - want) <= tol)) fail(key, key + ": got " + str(got) + ", expected " + str(want) + " (tol " + str(tol) + ")");
}

struct Target {
  std::string name;
  std::function<void(Ctx&)> fn;
  double cpu_limit;  // seconds per case
};
std::vector<Target>& targets();
struct Reg {
  Reg(const char* n, std::function<void(Ctx&)> f, double cpu = 60.) { targets().push_back({n, f, cpu}); }
};
#define PBT_TARGET(name) \
  static void pbt_t_##name(pbt::Ctx& c); \
  static pbt::Reg pbt_r_##name(#name, pbt_t_##name); \
  static void pbt_t_##name(pbt::Ctx& c)

// hooks a harness may define (weak in main): called once in each worker before cases
struct Hooks {
  std::function<void()> worker_init;
  std::function<void(void* comm, int rank, int size)> set_env;  // multi-rank runs: the communicator (MPI_Comm*) of the next case
};
Hooks& hooks();

}  // namespace pbt
