// generated optimisation problems, user interfaces that record every call, and KKT / consistency oracles
#pragma once
#include "dense.hpp"
#include <functional>
#include "hiopInterface.hpp"
#include "hiopNlpFormulation.hpp"
#include "hiopAlgFilterIPM.hpp"
using namespace hiop;

static const double BIG = 1e20;

// f(x) = c0 + q'x + x'Qx/2 + sum p4_i/4 (x_i-t4_i)^4 ;  c_j(x) = e_j + A_j x + sum_i D_ji x_i^2/2 + bil_j x_a x_b (a,b dense vars)
struct Prob {
  int n = 0, ns = 0, m = 0;
  RM Q, A, D;
  dvec q, p4, t4, e, bil, cl, cu, xl, xu, x0;
  double c0 = 0;
  std::vector<char> pat;   // m x ns: structural nonzeros of the sparse Jacobian
  std::vector<char> hss;   // ns: structural nonzeros of the sparse Hessian
  // known solution of strictly convex instances
  bool known = false;
  dvec xs, lam, zl, zu;
  double f(const double* x) const
  {
    double s = c0;
    for(int i = 0; i < n; i++) {
      double r = 0;
      for(int j = 0; j < n; j++) r += Q(i, j) * x[j];
      double t = x[i] - t4[i];
      s += x[i] * (q[i] + 0.5 * r) + 0.25 * p4[i] * t * t * t * t;
    }
    return s;
  }
  // what the user may declare about the problem: 0 linear, 1 quadratic objective and linear constraints, 2 neither
  int kind() const
  {
    auto z = [](const dvec& v) { for(double e : v) if(e != 0.) return false; return true; };
    if(!z(p4) || !z(bil)) return 2;
    for(int j = 0; j < m; j++) for(int i = 0; i < n; i++) if(D(j, i) != 0.) return 2;
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) if(Q(i, j) != 0.) return 1;
    return 0;
  }
  void grad(const double* x, double* g) const
  {
    for(int i = 0; i < n; i++) {
      double r = q[i];
      for(int j = 0; j < n; j++) r += Q(i, j) * x[j];
      double t = x[i] - t4[i];
      g[i] = r + p4[i] * t * t * t;
    }
  }
  double c(int j, const double* x) const
  {
    double s = e[j];
    for(int i = 0; i < n; i++) s += x[i] * (A(j, i) + 0.5 * D(j, i) * x[i]);
    if(bil[j] != 0.) s += bil[j] * x[ns] * x[ns + 1];
    return s;
  }
  double dc(int j, int i, const double* x) const
  {
    double s = A(j, i) + D(j, i) * x[i];
    if(bil[j] != 0.) { if(i == ns) s += bil[j] * x[ns + 1]; if(i == ns + 1) s += bil[j] * x[ns]; }
    return s;
  }
  double hess(int i, int k, const double* x, double of, const double* lamU) const  // lamU in user order
  {
    double s = of * Q(i, k);
    if(i == k) {
      double t = x[i] - t4[i];
      s += of * 3 * p4[i] * t * t;
      for(int j = 0; j < m; j++) s += lamU[j] * D(j, i);
    }
    if((i == ns && k == ns + 1) || (i == ns + 1 && k == ns)) for(int j = 0; j < m; j++) s += lamU[j] * bil[j];
    return s;
  }
  bool is_eq(int j) const { return cl[j] == cu[j]; }
  ivec eqs() const { ivec v; for(int j = 0; j < m; j++) if(is_eq(j)) v.push_back(j); return v; }
  ivec ineqs() const { ivec v; for(int j = 0; j < m; j++) if(!is_eq(j)) v.push_back(j); return v; }
};
inline int& sp_mode();
inline std::string str(const Prob& P)
{
  std::ostringstream o;
  o << "n=" << P.n << " ns=" << P.ns << " m=" << P.m << "\n Q=" << str(P.Q) << "\n q=" << pbt::str(P.q) << " c0=" << P.c0;
  bool a4 = false; for(double v : P.p4) a4 |= v != 0;
  if(a4) o << "\n p4=" << pbt::str(P.p4) << " t4=" << pbt::str(P.t4);
  if(P.m) {
    o << "\n A=" << str(P.A);
    bool d = false; for(double v : P.D.a) d |= v != 0;
    if(d) o << "\n D=" << str(P.D);
    bool b = false; for(double v : P.bil) b |= v != 0;
    if(b) o << "\n bil=" << pbt::str(P.bil);
    o << "\n e=" << pbt::str(P.e) << "\n cl=" << pbt::str(P.cl) << " cu=" << pbt::str(P.cu);
  }
  o << "\n xl=" << pbt::str(P.xl) << " xu=" << pbt::str(P.xu) << "\n x0=" << pbt::str(P.x0);
  if(P.known) o << "\n x*=" << pbt::str(P.xs) << " lam*=" << pbt::str(P.lam) << " zl*=" << pbt::str(P.zl) << " zu*=" << pbt::str(P.zu) << " f*=" << pbt::str(P.f(P.xs.data()));
  o << "\n";
  return o.str();
}

struct GenOpt {
  int nmax = 8, mmax = 5;
  bool mds = true;          // has a sparse block
  bool fixed = true;        // may have fixed variables
  bool allow_quad_cons = true;
  bool allow_free_cons = false;
  bool allow_lp = false;    // gen_nonconvex may produce a linear program with bounded variables
};
// random orthogonal-ish PD matrix of the dense block, diagonal of the sparse block
inline void gen_blank(Ctx& c, Prob& P, const GenOpt& g)
{
  P.n = (int)c.size(1, g.nmax);
  P.m = (int)c.range(0, std::min(g.mmax, 2 * P.n));
  P.ns = g.mds ? (int)c.range(sp_mode() == 4 ? P.n : 0, sp_mode() ? P.n : P.n - 1) : 0;
  int n = P.n, m = P.m;
  P.Q = RM(n, n); P.A = RM(m, n); P.D = RM(m, n);
  P.q.assign(n, 0.); P.p4.assign(n, 0.); P.t4.assign(n, 0.);
  P.e.assign(m, 0.); P.bil.assign(m, 0.); P.cl.assign(m, -BIG); P.cu.assign(m, BIG);
  P.xl.assign(n, -BIG); P.xu.assign(n, BIG); P.x0.assign(n, 0.);
  P.pat.assign((size_t)m * P.ns, 0); P.hss.assign(P.ns, 1);
}
inline void gen_pd(Ctx& c, Prob& P)
{
  int n = P.n, ns = P.ns;
  for(int i = 0; i < ns; i++) P.Q(i, i) = c.uni(0.5, 3.);
  int nd = n - ns;
  RM B(nd, nd);
  if(c.flip()) for(auto& v : B.a) v = c.uni(-1, 1);
  for(int i = 0; i < nd; i++)
    for(int j = 0; j < nd; j++) {
      double s = i == j ? c.uni(0.5, 1.5) : 0.;
      for(int k = 0; k < nd; k++) s += B(i, k) * B(j, k) / nd;
      P.Q(ns + i, ns + j) = s;
    }
  for(int i = 0; i < nd; i++) for(int j = 0; j < i; j++) P.Q(ns + i, ns + j) = P.Q(ns + j, ns + i);
}
// strictly convex problem with a known, unique, nondegenerate solution
inline Prob gen_convex(Ctx& c, const GenOpt& g)
{
  Prob P;
  gen_blank(c, P, g);
  int n = P.n, m = P.m;
  gen_pd(c, P);
  for(int i = 0; i < n; i++) if(c.chance(1, 5)) { P.p4[i] = c.uni(0.1, 1.); P.t4[i] = c.uni(-1, 1); }
  P.xs.resize(n); P.zl.assign(n, 0.); P.zu.assign(n, 0.); P.lam.assign(m, 0.);
  for(auto& v : P.xs) v = c.uni(-3, 3);
  // constraints first: rows, then decide activity with a rank test
  for(int j = 0; j < m; j++) {
    for(int i = 0; i < n; i++) if(i >= P.ns || c.chance(2, 3)) {
      P.A(j, i) = c.uni(-2, 2);
      if(i < P.ns) P.pat[(size_t)j * P.ns + i] = 1;
    }
  }
  // variable bounds
  ivec vact(n, 0);
  for(int i = 0; i < n; i++) {
    int k = (int)c.draw(g.fixed ? 7 : 6);
    double x = P.xs[i];
    switch(k) {
    case 0: break;                                                       // free
    case 1: P.xl[i] = x - c.uni(0.3, 3); break;                          // inactive lower
    case 2: P.xu[i] = x + c.uni(0.3, 3); break;
    case 3: P.xl[i] = x - c.uni(0.3, 3); P.xu[i] = x + c.uni(0.3, 3); break;
    case 4: P.xl[i] = x; P.zl[i] = c.uni(0.2, 2); vact[i] = 1; break;    // active lower
    case 5: P.xu[i] = x; P.zu[i] = c.uni(0.2, 2); vact[i] = 1; break;
    case 6: P.xl[i] = x; P.xu[i] = x + c.uni(0.3, 3); P.zl[i] = c.uni(0.2, 2); vact[i] = 1; break;
    case 7: P.xl[i] = P.xu[i] = x; (c.flip() ? P.zl[i] : P.zu[i]) = c.uni(0.2, 2); vact[i] = 2; break;
    }
  }
  std::vector<dvec> basis;
  for(int j = 0; j < m; j++) {
    int k = (int)c.draw(5);  // 0 eq, 1 active upper, 2 active lower, 3 inactive one-sided, 4 inactive range, 5 active range
    bool quad = g.allow_quad_cons && c.chance(1, 3);
    if(k == 1 || k == 2 || k == 3) {
      if(quad) for(int i = 0; i < n; i++) if(i >= P.ns || P.pat[(size_t)j * P.ns + i]) P.D(j, i) = (k == 2 ? -1 : 1) * c.uni(0, 1);
    }
    P.e[j] = c.chance(1, 2) ? c.uni(-2, 2) : 0.;
    double v = P.c(j, P.xs.data());
    bool act = (k == 0 || k == 1 || k == 2 || k == 5);
    if(act) {
      dvec r(n, 0.);
      for(int i = 0; i < n; i++) if(!vact[i]) r[i] = P.dc(j, i, P.xs.data());
      for(auto& b : basis) { double d = 0; for(int i = 0; i < n; i++) d += b[i] * r[i]; for(int i = 0; i < n; i++) r[i] -= d * b[i]; }
      double nr = 0; for(double t : r) nr += t * t;
      nr = std::sqrt(nr);
      if(nr < 0.4) { act = false; k = (k == 2) ? 6 : 3; }
      else { for(double& t : r) t /= nr; basis.push_back(r); }
    }
    switch(k) {
    case 0: P.cl[j] = P.cu[j] = v; P.lam[j] = c.uni(-2, 2); break;
    case 1: P.cu[j] = v; if(!quad && c.flip()) P.cl[j] = v - c.uni(0.5, 3); P.lam[j] = c.uni(0.2, 2); break;
    case 2: P.cl[j] = v; if(!quad && c.flip()) P.cu[j] = v + c.uni(0.5, 3); P.lam[j] = -c.uni(0.2, 2); break;
    case 3: P.cu[j] = v + c.uni(0.3, 3); break;
    case 4: P.cl[j] = v - c.uni(0.3, 3); P.cu[j] = v + c.uni(0.3, 3); break;
    case 5: P.cl[j] = v - c.uni(0.5, 3); P.cu[j] = v; P.lam[j] = c.uni(0.2, 2); break;
    case 6: P.cl[j] = v - c.uni(0.3, 3); break;
    }
  }
  dvec gr(n);
  P.grad(P.xs.data(), gr.data());
  for(int i = 0; i < n; i++) {
    double s = gr[i];
    for(int j = 0; j < m; j++) s += P.lam[j] * P.dc(j, i, P.xs.data());
    P.q[i] = -(s - P.zl[i] + P.zu[i]);
  }
  P.c0 = c.chance(1, 3) ? c.uni(-5, 5) : 0.;
  P.known = true;
  for(int i = 0; i < n; i++) P.x0[i] = c.uni(-4, 4);
  return P;
}
// general nonlinear (nonconvex) feasible problem: xs is a strictly interior feasible point, not a solution
inline Prob gen_nonconvex(Ctx& c, const GenOpt& g)
{
  Prob P;
  gen_blank(c, P, g);
  int n = P.n, m = P.m, ns = P.ns;
  for(int i = 0; i < ns; i++) P.Q(i, i) = c.uni(-1.5, 3);
  for(int i = ns; i < n; i++) for(int j = i; j < n; j++) P.Q(i, j) = P.Q(j, i) = c.uni(-1.5, 1.5);
  for(auto& v : P.q) v = c.uni(-3, 3);
  for(int i = 0; i < n; i++) { P.p4[i] = c.uni(0.1, 1); P.t4[i] = c.uni(-1, 1); }  // coercive
  P.xs.resize(n);
  for(int i = 0; i < n; i++) {
    double x = P.xs[i] = c.uni(-2, 2);
    switch(c.draw(3)) {
    case 1: P.xl[i] = x - c.uni(0.3, 3); break;
    case 2: P.xu[i] = x + c.uni(0.3, 3); break;
    case 3: P.xl[i] = x - c.uni(0.3, 3); P.xu[i] = x + c.uni(0.3, 3); break;
    }
  }
  int neq = 0;
  for(int j = 0; j < m; j++) {
    bool quad = g.allow_quad_cons && c.flip();
    for(int i = 0; i < n; i++) if(i >= ns || c.chance(2, 3)) {
      P.A(j, i) = c.uni(-2, 2);
      if(quad) P.D(j, i) = c.uni(-1, 1);
      if(i < ns) P.pat[(size_t)j * ns + i] = 1;
    }
    if(g.allow_quad_cons && n - ns >= 2 && c.chance(1, 4)) P.bil[j] = c.uni(-1, 1);
    double v = P.c(j, P.xs.data());
    int k = (int)c.draw(3);
    if(k == 0 && neq + 1 >= n) k = 1;
    switch(k) {
    case 0: P.cl[j] = P.cu[j] = v; neq++; break;
    case 1: P.cu[j] = v + c.uni(0.1, 2); break;
    case 2: P.cl[j] = v - c.uni(0.1, 2); break;
    case 3: P.cl[j] = v - c.uni(0.1, 2); P.cu[j] = v + c.uni(0.1, 2); break;
    }
  }
  for(int i = 0; i < n; i++) P.x0[i] = c.uni(-4, 4);
  if(g.allow_lp && c.chance(1, 8)) {
    for(auto& v : P.Q.a) v = 0.;
    for(auto& v : P.D.a) v = 0.;
    for(int i = 0; i < n; i++) {
      P.p4[i] = 0.;
      if(P.xl[i] <= -1e20) P.xl[i] = P.xs[i] - c.uni(0.3, 3);
      if(P.xu[i] >= 1e20) P.xu[i] = P.xs[i] + c.uni(0.3, 3);
    }
    for(int j = 0; j < m; j++) {
      P.bil[j] = 0.;
      double v = P.c(j, P.xs.data()); bool eq = P.cl[j] == P.cu[j];
      if(P.cl[j] > -1e20) P.cl[j] = eq ? v : v - c.uni(0.1, 2);
      if(P.cu[j] < 1e20) P.cu[j] = eq ? v : v + c.uni(0.1, 2);
    }
  }
  return P;
}

// ------------------------------------------------------------------------------------------------
struct Opt { std::string name; int type; std::string s; double d; int i; };
inline Opt os(const std::string& n, const std::string& v) { return {n, 0, v, 0, 0}; }
inline Opt od(const std::string& n, double v) { return {n, 1, "", v, 0}; }
inline Opt oi(const std::string& n, int v) { return {n, 2, "", 0, v}; }
inline std::string str(const std::vector<Opt>& v)
{
  std::string s;
  for(auto& o : v) s += o.name + "=" + (o.type == 0 ? o.s : o.type == 1 ? pbt::str(o.d) : std::to_string(o.i)) + " ";
  return s;
}
inline void apply(hiopOptions& o, const std::vector<Opt>& v)
{
  for(auto& x : v) {
    bool ok = x.type == 0 ? o.SetStringValue(x.name.c_str(), x.s.c_str()) : x.type == 1 ? o.SetNumericValue(x.name.c_str(), x.d) : o.SetIntegerValue(x.name.c_str(), x.i);
    pbt::check(ok, "option-rejected:" + x.name, "valid option value rejected: " + str(std::vector<Opt>{x}));
  }
}
inline double getd(const std::vector<Opt>& v, const std::string& n, double def) { for(auto& o : v) if(o.name == n) def = o.d; return def; }
inline std::string gets(const std::vector<Opt>& v, const std::string& n, const std::string& def) { std::string r = def; for(auto& o : v) if(o.name == n) r = o.s; return r; }
inline int geti(const std::vector<Opt>& v, const std::string& n, int def) { for(auto& o : v) if(o.name == n) def = o.i; return def; }

struct IterRec {
  int iter; double obj, logbar; dvec x, zl, zu, s, g, lam; double inf_pr, inf_du, one_pr, mu, adu, apr; int ls; size_t nev;
  double last_of; dvec last_hx, last_hlam;  // last Hessian evaluation before this callback
};
struct EvRec { char kind; bool new_x; dvec x; ivec idx; bool all; };
// what the user interface does and records
struct User {
  const Prob& P;
  std::vector<hiop::index_type> part;  // distribution (dense interface only); empty = serial
  MPI_Comm comm = MPI_COMM_SELF;
  // behaviour
  bool one_call = false;       // constraints evaluated in one call
  int start_mode = 1;          // 0 none, 1 primal overload, 2 primal-dual overload with primal only, 3 with duals, 4 duals+slacks
  dvec x0, zl0, zu0, lam0, s0;
  dvec x0_alt;              // starting point after fixed variables took their value
  bool use_warm = false;
  dvec vl0, vu0;
  // fault injection
  char fault_kind = 0; int fault_at = -1; int fault_mode = 0;  // kind f g c J H s(iterate callback); mode 0 return false, 1 NaN
  // recording
  bool keep_events = false;
  bool eq_as_ineq = false;  // formulation that treats equalities as inequalities
  std::vector<EvRec> ev;
  std::vector<IterRec> its;
  std::map<char, int> count;
  std::map<char, int> count_eq, count_ineq, refused;
  std::string bad_key, bad_msg;
  dvec last_x; bool have_last = false;
  double relax = 1e-8;
  bool check_bounds = true;
  bool fault_fired = false;
  size_t fault_iter = 0;
  size_t evals_after_fault = 0;
  double last_of = 0; dvec last_hx, last_hlam;
  // results of the solution callback
  int nsol = 0; int sol_status = -12345; dvec sx, szl, szu, sg, slam; double sobj = NaN;
  int lo() const { return part.empty() ? 0 : part[env().rank]; }
  int hi() const { return part.empty() ? P.n : part[env().rank + 1]; }
  explicit User(const Prob& p) : P(p), x0(p.x0) {}
  void bad(const std::string& k, const std::string& m) { if(getenv("PBT_ABORT")) abort(); if(bad_key.empty()) bad_key = k, bad_msg = m; }
  // gather the local piece into a full vector
  dvec full(const double* xloc) const
  {
    if(part.empty()) return dvec(xloc, xloc + P.n);
    dvec r(P.n);
    std::vector<int> cnt, dsp;
    for(int i = 0; i < env().size; i++) cnt.push_back(part[i + 1] - part[i]), dsp.push_back(part[i]);
    MPI_Allgatherv(xloc, hi() - lo(), MPI_DOUBLE, r.data(), cnt.data(), dsp.data(), MPI_DOUBLE, comm);
    return r;
  }
  // every evaluation comes through here; returns 0 ok, 1 return false, 2 write NaN
  int enter(char kind, const double* xloc, bool new_x, dvec& x, const index_type* idx, int nidx, bool all)
  {
    pbt::beat();
    x = full(xloc);
    count[kind]++;
    for(int i = 0; i < P.n; i++) if(!std::isfinite(x[i])) { bad("user:nonfinite-x", std::string("evaluation '") + kind + "' called with non-finite x " + pbt::str(x)); break; }
    if(!new_x) {
      if(!have_last) bad("user:new_x", std::string("new_x=false on the very first evaluation ('") + kind + "')");
      else if(x != last_x) bad("user:new_x", std::string("new_x=false in '") + kind + "' but x=" + pbt::str(x) + " differs from the last evaluated " + pbt::str(last_x));
    }
    if(getenv("PBT_EV")) fprintf(stderr, "EV %c nx=%d %s\n", kind, new_x, pbt::str(x).c_str());
    last_x = x; have_last = true;
    if(check_bounds && x != (start_mode == 0 ? dvec(P.n, 0.) : x0) && x != x0_alt) {
      for(int i = 0; i < P.n; i++) {
        double sl = std::max(relax, 1e-7) * std::max(1., std::fabs(P.xl[i])) * 1.5, su = std::max(relax, 1e-7) * std::max(1., std::fabs(P.xu[i])) * 1.5;
        if((P.xl[i] > -BIG && x[i] < P.xl[i] - sl) || (P.xu[i] < BIG && x[i] > P.xu[i] + su)) {
          bad("user:x-outside-bounds", std::string("evaluation '") + kind + "' called at x=" + pbt::str(x) + " outside the bounds at " + std::to_string(i));
          break;
        }
      }
    }
    if((kind == 'c' || kind == 'J') && !all) {
      ivec v(idx, idx + nidx);
      if(eq_as_ineq) { ivec a(P.m); for(int j = 0; j < P.m; j++) a[j] = j; if(v != a && !v.empty()) bad("user:cons-subset", "constraint subset " + pbt::stri(v) + " is neither empty nor all constraints"); }
      else if(v != P.eqs() && v != P.ineqs()) bad("user:cons-subset", "constraint subset " + pbt::stri(v) + " is neither the equalities nor the inequalities");
      else (v == P.eqs() ? count_eq : count_ineq)[kind]++;
    }
    if(all) { count_eq[kind]++; count_ineq[kind]++; }
    if(keep_events && ev.size() < 20000 && kind != 'j' && kind != 'h') ev.push_back({kind, new_x, x, idx ? ivec(idx, idx + nidx) : ivec(), all});
    if(fault_fired) evals_after_fault++;
    if(fault_kind == kind && count[kind] == fault_at) { fault_fired = true; fault_iter = its.size(); return fault_mode == 0 ? 1 : 2; }
    return 0;
  }
  bool f(const double* xl, bool nx, double& v)
  {
    dvec x; int r = enter('f', xl, nx, x, nullptr, 0, false);
    v = r == 2 ? NaN : P.f(x.data());
    return r != 1;
  }
  bool grad(const double* xl, bool nx, double* g)
  {
    dvec x, gg(P.n); int r = enter('g', xl, nx, x, nullptr, 0, false);
    P.grad(x.data(), gg.data());
    for(int i = lo(); i < hi(); i++) g[i - lo()] = gg[i];
    if(r == 2) for(int i = lo(); i < hi(); i++) g[i - lo()] = NaN;
    return r != 1;
  }
  bool cons(const index_type* idx, int num, bool all, const double* xl, bool nx, double* c)
  {
    dvec x; int r = enter('c', xl, nx, x, idx, num, all);
    for(int k = 0; k < num; k++) { int j = all ? k : idx[k]; if(j < 0 || j >= P.m) { bad("user:cons-index", "constraint index out of range"); return false; } c[k] = r == 2 ? NaN : P.c(j, x.data()); }
    return r != 1;
  }
  bool jac_dense(const index_type* idx, int num, bool all, const double* xl, bool nx, double* J)
  {
    dvec x; int r = enter('J', xl, nx, x, idx, num, all);
    int nl = hi() - lo();
    for(int k = 0; k < num; k++) { int j = all ? k : idx[k]; for(int i = lo(); i < hi(); i++) J[(size_t)k * nl + i - lo()] = r == 2 ? NaN : P.dc(j, i, x.data()); }
    return r != 1;
  }
  bool jac_mds(const index_type* idx, int num, bool all, const double* xl, bool nx, int nsp, int nde, int nnz, index_type* iS, index_type* jS, double* MS, double* JD)
  {
    dvec x; int r = enter('J', xl, nx, x, idx, num, all);
    if(nsp != P.ns || nde != P.n - P.ns) bad("user:mds-sizes", "wrong sparse/dense sizes in eval_Jac_cons");
    if((iS == nullptr) != (jS == nullptr)) bad("user:mds-null", "only one of iJacS/jJacS is null");
    if(iS == nullptr && MS == nullptr) bad("user:mds-null", "iJacS and MJacS are both null");
    int it = 0;
    for(int k = 0; k < num; k++) {
      int j = all ? k : idx[k];
      for(int i = 0; i < P.ns; i++) if(P.pat[(size_t)j * P.ns + i]) {
        if(it >= nnz) { bad("user:mds-nnz", "nnzJacS too small"); return false; }
        if(iS) iS[it] = k, jS[it] = i;
        if(MS) MS[it] = r == 2 ? NaN : P.dc(j, i, x.data());
        it++;
      }
      if(!JD && nde > 0) bad("user:mds-null", "JacD is null");
      if(JD) for(int i = 0; i < nde; i++) JD[(size_t)k * nde + i] = r == 2 ? NaN : P.dc(j, P.ns + i, x.data());
    }
    if(it != nnz) bad("user:mds-nnz", "nnzJacS=" + std::to_string(nnz) + " but the subset has " + std::to_string(it));
    return r != 1;
  }
  bool hess_mds(const double* xl, bool nx, double of, const double* lam, int nsp, int nde, int nnz, index_type* iS, index_type* jS, double* MS, double* HD, int& nnzHSD, index_type* iSD, index_type* jSD)
  {
    dvec x; int r = enter('H', xl, nx, x, nullptr, 0, false);
    if(nsp != P.ns || nde != P.n - P.ns) bad("user:mds-sizes", "wrong sparse/dense sizes in eval_Hess_Lagr");
    // documented order: lambda = [equalities, inequalities]
    dvec lu(P.m); int k = 0;
    for(int j : P.eqs()) lu[j] = lam[k++];
    for(int j : P.ineqs()) lu[j] = lam[k++];
    for(double v : lu) if(!std::isfinite(v)) { bad("user:lambda-nonfinite", "eval_Hess_Lagr called with lambda " + pbt::str(lu)); break; }
    last_of = of; last_hx = x; last_hlam = lu;
    int it = 0;
    for(int i = 0; i < P.ns; i++) if(P.hss[i]) {
      if(it >= nnz) { bad("user:mds-nnz", "nnzHSS too small"); return false; }
      if(iS) iS[it] = i, jS[it] = i;
      if(MS) MS[it] = r == 2 ? NaN : P.hess(i, i, x.data(), of, lu.data());
      it++;
    }
    if(it != nnz) bad("user:mds-nnz", "nnzHSS=" + std::to_string(nnz) + " but declared " + std::to_string(it));
    if(HD) for(int i = 0; i < nde; i++) for(int j = 0; j < nde; j++) HD[(size_t)i * nde + j] = r == 2 ? NaN : P.hess(P.ns + i, P.ns + j, x.data(), of, lu.data());
    nnzHSD = 0;
    return r != 1;
  }
  void vars(double* xl, double* xu, hiopInterfaceBase::NonlinearityType* t)
  {
    for(int i = lo(); i < hi(); i++) xl[i - lo()] = P.xl[i], xu[i - lo()] = P.xu[i], t[i - lo()] = hiopInterfaceBase::hiopNonlinear;
  }
  void consinfo(double* l, double* u, hiopInterfaceBase::NonlinearityType* t) { for(int j = 0; j < P.m; j++) l[j] = P.cl[j], u[j] = P.cu[j], t[j] = hiopInterfaceBase::hiopNonlinear; }
  bool start1(double* x)
  {
    if(start_mode == 0) return false;
    if(start_mode >= 2) bad("user:start-overload", "primal starting point overload called although the other one returned true");
    for(int i = lo(); i < hi(); i++) x[i - lo()] = x0[i];
    return true;
  }
  bool start2(double* x, bool& du, double* zl, double* zu, double* la, bool& sl, double* s)
  {
    du = sl = false;
    if(start_mode < 2) return false;
    for(int i = lo(); i < hi(); i++) x[i - lo()] = x0[i];
    if(start_mode >= 3) {
      du = true;
      for(int i = lo(); i < hi(); i++) zl[i - lo()] = zl0[i], zu[i - lo()] = zu0[i];
      for(int j = 0; j < P.m; j++) la[j] = lam0[j];
    }
    if(start_mode >= 4) { sl = true; for(size_t k = 0; k < s0.size(); k++) s[k] = s0[k]; }
    return true;
  }
  bool warm(double* x, double* zl, double* zu, double* la, double* s, double* vl, double* vu)
  {
    if(!use_warm) return false;
    for(int i = 0; i < P.n; i++) x[i] = x0[i], zl[i] = zl0[i], zu[i] = zu0[i];
    for(int j = 0; j < P.m; j++) la[j] = lam0[j];
    for(size_t k = 0; k < s0.size(); k++) s[k] = s0[k], vl[k] = vl0[k], vu[k] = vu0[k];
    return true;
  }
  void sol(int st, int n, const double* x, const double* zl, const double* zu, int m, const double* g, const double* la, double obj)
  {
    nsol++;
    sol_status = st;
    if(n != P.n || m != P.m) { bad("user:solution-size", "solution_callback got n=" + std::to_string(n) + " m=" + std::to_string(m) + " for a problem with n=" + std::to_string(P.n) + " m=" + std::to_string(P.m)); return; }
    sx = full(x); szl = full(zl); szu = full(zu);
    sg.assign(g, g + m); slam.assign(la, la + m); sobj = obj;
  }
  bool iter(int it, double obj, double lb, int n, const double* x, const double* zl, const double* zu, int mi, const double* s, int m, const double* g, const double* la, double ip, double id, double op, double mu, double adu, double apr, int ls)
  {
    count['s']++;
    if(n != P.n || m != P.m || mi != (int)P.ineqs().size()) { bad("user:iterate-size", "iterate_callback got n=" + std::to_string(n) + " m=" + std::to_string(m) + " m_ineq=" + std::to_string(mi)); return true; }
    if(its.size() < 4000) {
      IterRec r{it, obj, lb, full(x), full(zl), full(zu), dvec(s, s + mi), dvec(g, g + m), dvec(la, la + m), ip, id, op, mu, adu, apr, ls, ev.size(), last_of, last_hx, last_hlam};
      its.push_back(r);
    }
    if(fault_kind == 's' && it == fault_at) { fault_fired = true; fault_iter = its.size(); return false; }
    return true;
  }
};

#define NLP_COMMON(U) \
  bool get_prob_sizes(size_type& n, size_type& m) override { n = U.P.n; m = U.P.m; return true; } \
  bool get_prob_info(NonlinearityType& t) override { t = (NonlinearityType)U.P.kind(); return true; } \
  bool get_vars_info(const size_type& n, double* xl, double* xu, NonlinearityType* t) override { U.vars(xl, xu, t); return true; } \
  bool get_cons_info(const size_type& m, double* l, double* u, NonlinearityType* t) override { U.consinfo(l, u, t); return true; } \
  bool eval_f(const size_type& n, const double* x, bool nx, double& v) override { chk(n, U.P.m); return U.f(x, nx, v); } \
  bool eval_grad_f(const size_type& n, const double* x, bool nx, double* g) override { chk(n, U.P.m); return U.grad(x, nx, g); } \
  bool eval_cons(const size_type& n, const size_type& m, const size_type& num, const index_type* idx, const double* x, bool nx, double* c) override \
  { chk(n, m); if(U.one_call) { U.refused['c']++; return false; } return U.cons(idx, num, false, x, nx, c); } \
  bool eval_cons(const size_type& n, const size_type& m, const double* x, bool nx, double* c) override { chk(n, m); if(!U.one_call) return false; return U.cons(nullptr, m, true, x, nx, c); } \
  bool get_starting_point(const size_type& n, double* x) override { chk(n, U.P.m); return U.start1(x); } \
  bool get_starting_point(const size_type& n, const size_type& m, double* x, bool& du, double* zl, double* zu, double* la, bool& sl, double* s) override \
  { chk(n, m); return U.start2(x, du, zl, zu, la, sl, s); } \
  bool get_warmstart_point(const size_type& n, const size_type& m, double* x, double* zl, double* zu, double* la, double* s, double* vl, double* vu) override \
  { chk(n, m); return U.warm(x, zl, zu, la, s, vl, vu); } \
  void solution_callback(hiopSolveStatus st, size_type n, const double* x, const double* zl, const double* zu, size_type m, const double* g, const double* la, double o) override \
  { U.sol(st, n, x, zl, zu, m, g, la, o); } \
  bool iterate_callback(int it, double o, double lb, int n, const double* x, const double* zl, const double* zu, int mi, const double* s, int m, const double* g, const double* la, double ip, double id, double op, double mu, double adu, double apr, int ls) override \
  { return U.iter(it, o, lb, n, x, zl, zu, mi, s, m, g, la, ip, id, op, mu, adu, apr, ls); } \
  void chk(size_type n, size_type m) { if(n != U.P.n || m != U.P.m) U.bad("user:sizes", "user function called with n=" + std::to_string(n) + " m=" + std::to_string(m)); }

class DenseIf : public hiopInterfaceDenseConstraints
{
public:
  User& U;
  explicit DenseIf(User& u) : U(u) {}
  NLP_COMMON(U)
  bool get_MPI_comm(MPI_Comm& c) override { c = U.comm; return true; }
  bool get_vecdistrib_info(size_type n, index_type* cols) override
  {
    if(U.part.empty()) return false;
    for(size_t i = 0; i < U.part.size(); i++) cols[i] = U.part[i];
    return true;
  }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const size_type& num, const index_type* idx, const double* x, bool nx, double* J) override
  { chk(n, m); if(U.one_call) { U.refused['J']++; return false; } return U.jac_dense(idx, num, false, x, nx, J); }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const double* x, bool nx, double* J) override
  { chk(n, m); if(!U.one_call) return false; return U.jac_dense(nullptr, m, true, x, nx, J); }
};
class MdsIf : public hiopInterfaceMDS
{
public:
  User& U;
  explicit MdsIf(User& u) : U(u) {}
  NLP_COMMON(U)
  bool get_MPI_comm(MPI_Comm& c) override { c = U.comm; return true; }
  bool get_sparse_dense_blocks_info(int& ns, int& nd, int& neq, int& nin, int& nh, int& nhsd) override
  {
    const Prob& P = U.P;
    ns = P.ns; nd = P.n - P.ns; neq = nin = nh = nhsd = 0;
    for(int j = 0; j < P.m; j++) for(int i = 0; i < P.ns; i++) if(P.pat[(size_t)j * P.ns + i]) (P.is_eq(j) ? neq : nin)++;
    for(int i = 0; i < P.ns; i++) nh += P.hss[i];
    return true;
  }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const size_type& num, const index_type* idx, const double* x, bool nx, const size_type& ns, const size_type& nd, const size_type& nnz, index_type* iS, index_type* jS, double* MS, double* JD) override
  { chk(n, m); if(U.one_call) { U.refused['J']++; return false; } return U.jac_mds(idx, num, false, x, nx, ns, nd, nnz, iS, jS, MS, JD); }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const double* x, bool nx, const size_type& ns, const size_type& nd, const size_type& nnz, index_type* iS, index_type* jS, double* MS, double* JD) override
  { chk(n, m); if(!U.one_call) return false; return U.jac_mds(nullptr, m, true, x, nx, ns, nd, nnz, iS, jS, MS, JD); }
  bool eval_Hess_Lagr(const size_type& n, const size_type& m, const double* x, bool nx, const double& of, const double* la, bool nl, const size_type& ns, const size_type& nd, const size_type& nnz, index_type* iS, index_type* jS, double* MS, double* HD, size_type& nsd, index_type* iSD, index_type* jSD, double* MSD) override
  { chk(n, m); int k = 0; bool r = U.hess_mds(x, nx, of, la, ns, nd, nnz, iS, jS, MS, HD, k, iSD, jSD); nsd = k; return r; }
};

// equalities become one-sided inequalities
inline void drop_equalities(Prob& P) { for(int j = 0; j < P.m; j++) if(P.is_eq(j)) { if(j % 2) P.cl[j] = -BIG; else P.cu[j] = BIG; } }
// 0: what the interface called "mds" in the generators is a mixed dense-sparse problem; 1: a sparse one; 2: a sparse one whose equalities are relaxed, with the condensed KKT system; 3: as 2, without equalities; 4: a sparse one with a diagonal Hessian and the normal equations
inline int& sp_mode() { static int m = 0; return m; }
inline const char* itf_name(bool mds) { return !mds ? "dense " : sp_mode() == 0 ? "mds " : sp_mode() == 2 || sp_mode() == 3 ? "sparse-ineq " : "sparse "; }
// general sparse interface: Jacobian pattern = P.pat on the first ns columns, full on the others; upper triangle of the Hessian
class SparseIf : public hiopInterfaceSparse
{
public:
  User& U;
  explicit SparseIf(User& u) : U(u) {}
  bool get_MPI_comm(MPI_Comm& c) override { c = U.comm; return true; }
  NLP_COMMON(U)
  bool jin(int j, int i) const { return i >= U.P.ns || U.P.pat[(size_t)j * U.P.ns + i]; }
  bool hin(int i, int k) const { return i < U.P.ns ? i == k && U.P.hss[i] : k >= i; }
  bool get_sparse_blocks_info(size_type& nx, size_type& neq, size_type& nin, size_type& nh) override
  {
    const Prob& P = U.P;
    nx = P.n; neq = nin = nh = 0;
    for(int j = 0; j < P.m; j++) for(int i = 0; i < P.n; i++) if(jin(j, i)) (P.is_eq(j) ? neq : nin)++;
    for(int i = 0; i < P.n; i++) for(int k = i; k < P.n; k++) nh += hin(i, k);
    return true;
  }
  bool jac(const index_type* idx, int num, bool all, const double* xl, bool nx, int nnz, index_type* iS, index_type* jS, double* M)
  {
    dvec x; int r = U.enter(M ? 'J' : 'j', xl, nx, x, idx, num, all);   // a query of the pattern is not an evaluation
    if((iS == nullptr) != (jS == nullptr)) U.bad("user:sp-null", "only one of iJacS/jJacS is null");
    if(!iS && !M && nnz) U.bad("user:sp-null", "iJacS and MJacS are both null");
    int it = 0;
    for(int k = 0; k < num; k++) {
      int j = all ? k : idx[k];
      for(int i = 0; i < U.P.n; i++) if(jin(j, i)) {
        if(it >= nnz) { U.bad("user:sp-nnz", "nnzJacS too small"); return false; }
        if(iS) iS[it] = k, jS[it] = i;
        if(M) M[it] = r == 2 ? NaN : U.P.dc(j, i, x.data());
        it++;
      }
    }
    if(it != nnz) U.bad("user:sp-nnz", "nnzJacS=" + std::to_string(nnz) + " but the subset has " + std::to_string(it));
    return r != 1;
  }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const size_type& num, const index_type* idx, const double* x, bool nx, const size_type& nnz, index_type* iS, index_type* jS, double* M) override
  { chk(n, m); if(U.one_call) { U.refused['J']++; return false; } return jac(idx, num, false, x, nx, nnz, iS, jS, M); }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const double* x, bool nx, const size_type& nnz, index_type* iS, index_type* jS, double* M) override
  { chk(n, m); if(!U.one_call) return false; return jac(nullptr, m, true, x, nx, nnz, iS, jS, M); }
  bool eval_Hess_Lagr(const size_type& n, const size_type& m, const double* xl, bool nx, const double& of, const double* lam, bool nl, const size_type& nnz, index_type* iS, index_type* jS, double* M) override
  {
    chk(n, m);
    dvec x; int r = U.enter(M ? 'H' : 'h', xl, nx, x, nullptr, 0, false);
    dvec lu(lam, lam + m);   // user order
    for(double v : lu) if(!std::isfinite(v)) { U.bad("user:lambda-nonfinite", "eval_Hess_Lagr called with lambda " + pbt::str(lu)); break; }
    U.last_of = of; U.last_hx = x; U.last_hlam = lu;
    int it = 0;
    for(int i = 0; i < n; i++) for(int q = i; q < n; q++) if(hin(i, q)) {
      if(it >= nnz) { U.bad("user:sp-nnz", "nnzHSS too small"); return false; }
      if(iS) iS[it] = i, jS[it] = q;
      if(M) M[it] = r == 2 ? NaN : U.P.hess(i, q, x.data(), of, lu.data());
      it++;
    }
    if(it != nnz) U.bad("user:sp-nnz", "nnzHSS");
    return r != 1;
  }
};

struct Result {
  int status = -99999, get_status = -99999, iters = -1;
  double obj = NaN;
  dvec x, zl, zu, lam;
};
// owns an interface, a formulation and a solver; may be run repeatedly
struct Session {
  std::unique_ptr<DenseIf> di;
  std::unique_ptr<MdsIf> mi;
  std::unique_ptr<SparseIf> si;
  std::unique_ptr<hiopNlpFormulation> nlp;
  std::unique_ptr<hiopAlgFilterIPMBase> alg;
  User& U;
  bool mds;
  typedef std::function<hiopAlgFilterIPMBase*(hiopNlpFormulation*)> Make;  // another algorithm class, for monitoring
  Session(User& u, bool mds_, const std::vector<Opt>& o, Make make = Make()) : U(u), mds(mds_)
  {
    if(mds && (sp_mode() == 1 || sp_mode() == 4)) { si.reset(new SparseIf(u)); nlp.reset(new hiopNlpSparse(*si)); }
    else if(mds && (sp_mode() == 2 || sp_mode() == 3)) { si.reset(new SparseIf(u)); u.eq_as_ineq = sp_mode() == 2; nlp.reset(new hiopNlpSparseIneq(*si)); }
    else if(mds) { mi.reset(new MdsIf(u)); nlp.reset(new hiopNlpMDS(*mi)); }
    else { di.reset(new DenseIf(u)); nlp.reset(new hiopNlpDenseConstraints(*di)); }
    nlp->options->SetIntegerValue("verbosity_level", getenv("PBT_VERB") ? atoi(getenv("PBT_VERB")) : 0);
    apply(*nlp->options, o);
    if(make) alg.reset(make(nlp.get()));
    else if(mds) alg.reset(new hiopAlgFilterIPMNewton(nlp.get()));
    else alg.reset(new hiopAlgFilterIPMQuasiNewton((hiopNlpDenseConstraints*)nlp.get()));
  }
  ~Session() { alg.reset(); nlp.reset(); }
  Result run()
  {
    Result r;
    r.status = alg->run();
    fetch(r);
    return r;
  }
  void fetch(Result& r)
  {
    r.get_status = alg->getSolveStatus();
    int nl = U.hi() - U.lo();
    dvec x(nl + 2, 777.), zl(nl + 2, 777.), zu(nl + 2, 777.), la(U.P.m + 2, 777.);
    alg->getSolution(x.data() + 1);
    alg->getDualSolutions(zl.data() + 1, zu.data() + 1, la.data() + 1);
    pbt::check(x[0] == 777. && x.back() == 777. && zl[0] == 777. && zl.back() == 777. && zu[0] == 777. && zu.back() == 777. && la[0] == 777. && la.back() == 777., "getters:overrun");
    r.x = U.full(x.data() + 1); r.zl = U.full(zl.data() + 1); r.zu = U.full(zu.data() + 1);
    r.lam.assign(la.begin() + 1, la.end() - 1);
    r.obj = alg->getObjective();
    r.iters = alg->getNumIterations();
  }
};
inline Result solve(User& U, bool mds, const std::vector<Opt>& o) { Session s(U, mds, o); return s.run(); }
