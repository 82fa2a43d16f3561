// shared helpers of all harnesses
#pragma once
#include "pbt.hpp"
#include <mpi.h>
#include <memory>
#include "hiopVectorPar.hpp"
#include "hiopVectorIntSeq.hpp"
#include "LinAlgFactory.hpp"

using pbt::Ctx;
typedef std::vector<double> dvec;
typedef std::vector<int> ivec;
static const double EPS = std::numeric_limits<double>::epsilon();
static const double INF = std::numeric_limits<double>::infinity();
static const double NaN = std::numeric_limits<double>::quiet_NaN();

// communicator on which a case runs: MPI_COMM_SELF in ordinary runs, a sub-communicator in multi-rank runs
struct Env {
  MPI_Comm comm = MPI_COMM_SELF;
  int rank = 0, size = 1;
};
inline Env& env() { static Env e; return e; }
inline bool env_hook = (pbt::hooks().set_env = [](void* c, int r, int n) { env().comm = *(MPI_Comm*)c; env().rank = r; env().size = n; }, true);

// ---- generators ----
inline dvec gen_vec(Ctx& c, size_t n) { dvec v(n); for(auto& x : v) x = c.num(); return v; }
inline dvec gen_moderate(Ctx& c, size_t n) { dvec v(n); for(auto& x : v) x = c.moderate(); return v; }
inline dvec gen_nz(Ctx& c, size_t n) { dvec v(n); for(auto& x : v) x = c.nz(); return v; }
inline dvec gen_pos(Ctx& c, size_t n) { dvec v(n); for(auto& x : v) x = c.pos(); return v; }
inline dvec gen_special(Ctx& c, size_t n)
{
  dvec v(n);
  for(auto& x : v)
    switch(c.draw(9)) {
    case 9: x = INF; break;
    case 8: x = -INF; break;
    case 7: x = NaN; break;
    case 6: x = -0.0; break;
    case 5: x = DBL_MIN / 8; break;
    case 4: x = DBL_MAX; break;
    default: x = c.num();
    }
  return v;
}
inline dvec gen_pat(Ctx& c, size_t n)
{
  dvec v(n);
  switch(c.draw(5)) {
  case 0: for(auto& x : v) x = 0.; break;
  case 1: for(auto& x : v) x = 1.; break;
  default: for(auto& x : v) x = c.flip() ? 1. : 0.;
  }
  return v;
}
inline bool mixed(const dvec& p)
{
  bool z = false, o = false;
  for(double x : p) (x == 0. ? z : o) = true;
  return z && o;
}
// column partition of n elements over the ranks of the case; some ranks may own nothing
inline std::vector<hiop::index_type> gen_part(Ctx& c, int n)
{
  int R = env().size;
  std::vector<hiop::index_type> p(R + 1, 0);
  p[R] = n;
  if(R == 1) return p;
  ivec cuts;
  for(int i = 0; i < R - 1; i++) cuts.push_back((int)c.range(0, n));
  std::sort(cuts.begin(), cuts.end());
  for(int i = 0; i < R - 1; i++) p[i + 1] = cuts[i];
  return p;
}
inline ivec gen_perm(Ctx& c, int n)
{
  ivec p(n);
  for(int i = 0; i < n; i++) p[i] = i;
  for(int i = n - 1; i > 0; i--) std::swap(p[i], p[c.range(0, i)]);
  return p;
}

// ---- distributed vector with its reference (global) content ----
struct DV {
  std::unique_ptr<hiop::hiopVectorPar> v;
  dvec g;  // global reference
  std::vector<hiop::index_type> part;
  DV() {}
  DV(const dvec& vals, const std::vector<hiop::index_type>& p) : g(vals), part(p)
  {
    if(env().size == 1) v.reset(new hiop::hiopVectorPar((int)vals.size()));
    else v.reset(new hiop::hiopVectorPar((int)vals.size(), part.data(), env().comm));
    put();
  }
  int lo() const { return part[env().rank]; }
  int hi() const { return part[env().rank + 1]; }
  int nloc() const { return hi() - lo(); }
  void put()
  {
    pbt::check(v->get_local_size() == nloc(), "vec:local_size");
    for(int i = lo(); i < hi(); i++) v->local_data()[i - lo()] = g[i];
  }
  hiop::hiopVectorPar& operator*() { return *v; }
  dvec loc(const dvec& gg) const { return dvec(gg.begin() + lo(), gg.begin() + hi()); }
  void expect(const dvec& want, const dvec& tol, const std::string& key)
  {
    pbt::close_arr(v->local_data_const(), loc(want), loc(tol), key);
    g = want;
    put();
  }
  void expect(const dvec& want, const std::string& key)
  {
    pbt::eq_arr(v->local_data_const(), loc(want), key);
    g = want;
  }
  void unchanged(const std::string& key) { pbt::eq_arr(v->local_data_const(), loc(g), key + ":operand-modified"); }
};
inline DV mk(const dvec& vals)
{
  std::vector<hiop::index_type> p(env().size + 1, 0);
  p[env().size] = vals.size();
  return DV(vals, p);
}
// serial (non-distributed) vector
inline std::unique_ptr<hiop::hiopVectorPar> sv(const dvec& vals)
{
  std::unique_ptr<hiop::hiopVectorPar> v(new hiop::hiopVectorPar((int)vals.size()));
  for(size_t i = 0; i < vals.size(); i++) v->local_data()[i] = vals[i];
  return v;
}
inline dvec get(const hiop::hiopVector& v) { return dvec(v.local_data_const(), v.local_data_const() + v.get_local_size()); }
inline std::unique_ptr<hiop::hiopVectorIntSeq> iv(const ivec& vals)
{
  std::unique_ptr<hiop::hiopVectorIntSeq> v(new hiop::hiopVectorIntSeq((int)vals.size()));
  for(size_t i = 0; i < vals.size(); i++) v->local_data()[i] = vals[i];
  return v;
}
