// component-level tests: a finalised formulation of a generated problem, of any of the supported interfaces
#pragma once
#include "solver.hpp"
#include "hiopMatrixMDS.hpp"
#include "hiopMatrixSparseTriplet.hpp"
#include "hiopIterate.hpp"

enum Kind { DENSE, MDS, SPARSE, SPARSE_INEQ };
static const char* const kind_name[] = {"dense", "mds", "sparse", "sparse-ineq"};
// the formulation together with the internal problem it should represent
struct Form {
  Kind kind;
  const Prob& P;
  User& U;
  std::unique_ptr<hiopInterfaceBase> itf;
  std::unique_ptr<hiopNlpFormulation> nlp;
  std::vector<Opt> o;
  // expected
  ivec keep;                    // user indexes of the internal variables
  ivec eq, in;                  // user indexes of the internal equalities / inequalities
  std::vector<char> removed;
  dvec xl, xu, ixl, ixu, dl, du, idl, idu, crhs;  // before scaling
  Form(Kind k, const Prob& p, User& u, const std::vector<Opt>& o_) : kind(k), P(p), U(u), o(o_)
  {
    switch(kind) {
    case DENSE: { auto* i = new DenseIf(u); itf.reset(i); nlp.reset(new hiopNlpDenseConstraints(*i)); break; }
    case MDS: { auto* i = new MdsIf(u); itf.reset(i); nlp.reset(new hiopNlpMDS(*i)); break; }
    case SPARSE: { auto* i = new SparseIf(u); itf.reset(i); nlp.reset(new hiopNlpSparse(*i)); break; }
    case SPARSE_INEQ: { auto* i = new SparseIf(u); itf.reset(i); nlp.reset(new hiopNlpSparseIneq(*i)); break; }
    }
    nlp->options->SetIntegerValue("verbosity_level", getenv("PBT_VERB") ? atoi(getenv("PBT_VERB")) : 0);
    ::apply(*nlp->options, o);
  }
  ~Form() { nlp.reset(); itf.reset(); }
  int n() const { return (int)keep.size(); }
  bool has_lo(int i) const { return P.xl[i] > -BIG; }
  bool has_up(int i) const { return P.xu[i] < BIG; }
  void finalize()
  {
    check(nlp->finalizeInitialization(), "nlp:init");
    expect();
  }
  void expect()
  {
    double tol = getd(o, "fixed_var_tolerance", 1e-15), p = getd(o, "bound_relax_perturb", 1e-8), fp = getd(o, "fixed_var_perturb", 1e-8);
    std::string fv = gets(o, "fixed_var", "none");
    keep.clear(); removed.assign(P.n, 0);
    xl.clear(); xu.clear(); ixl.clear(); ixu.clear(); dl.clear(); du.clear(); idl.clear(); idu.clear(); crhs.clear(); eq.clear(); in.clear();
    auto isfix = [&](int i) { return P.xu[i] < BIG && std::fabs(P.xl[i] - P.xu[i]) <= tol * std::max(1., std::fabs(P.xu[i])); };
    for(int i = 0; i < P.n; i++) {
      if(fv == "remove" && kind == DENSE && isfix(i)) { removed[i] = 1; continue; }
      keep.push_back(i);
      double l = P.xl[i], u = P.xu[i];
      if(p > 0) l -= p * std::max(1., std::fabs(l)), u += p * std::max(1., std::fabs(u));
      else if(isfix(i)) { double w = fp * std::max(1., std::fabs(P.xu[i])); l -= w; u += w; }
      xl.push_back(l); xu.push_back(u); ixl.push_back(has_lo(i)); ixu.push_back(has_up(i));
    }
    double er = getd(o, "eq_relax_factor", 1e-8);
    for(int j = 0; j < P.m; j++) {
      if(P.is_eq(j) && kind != SPARSE_INEQ) { eq.push_back(j); crhs.push_back(P.cl[j]); continue; }
      double l = P.cl[j], u = P.cu[j];
      if(P.is_eq(j)) { double w = er * std::max(1., std::fabs(l)); l -= w; u += w; }
      in.push_back(j); idl.push_back(P.cl[j] > -BIG); idu.push_back(P.cu[j] < BIG);
      if(p > 0) l -= p * std::max(1., std::fabs(l)), u += p * std::max(1., std::fabs(u));
      dl.push_back(l); du.push_back(u);
    }
  }
  dvec to_user(const dvec& x) const { dvec r(P.xl); for(size_t k = 0; k < keep.size(); k++) r[keep[k]] = x[k]; return r; }
};
// dense expansion of any Jacobian / Hessian
inline RM expand(const hiopMatrix& M)
{
  if(auto* d = dynamic_cast<const hiopMatrixDense*>(&M)) { RM A((int)d->m(), (int)d->n()); const double* a = d->local_data_const(); for(size_t k = 0; k < A.a.size(); k++) A.a[k] = a[k]; return A; }
  auto trip = [](const hiopMatrixSparse& s, RM& A, bool sym) {
    for(int k = 0; k < (int)s.numberOfNonzeros(); k++) { int i = s.i_row()[k], j = s.j_col()[k]; check(i >= 0 && j >= 0 && i < A.m && j < A.n, "nlp:index-range", "index (" + std::to_string(i) + "," + std::to_string(j) + ") outside the matrix"); A(i, j) += s.M()[k]; if(sym && i != j) A(j, i) += s.M()[k]; }
  };
  if(auto* d = dynamic_cast<const hiopMatrixMDS*>(&M)) {
    int ns = (int)d->n_sp(), nd = (int)d->n_de(); RM A((int)d->m(), ns + nd);
    trip(*d->sp_mat(), A, false);
    const double* a = d->de_mat()->local_data_const();
    for(int i = 0; i < A.m; i++) for(int j = 0; j < nd; j++) A(i, ns + j) = a[(size_t)i * nd + j];
    return A;
  }
  if(auto* d = dynamic_cast<const hiopMatrixSymBlockDiagMDS*>(&M)) {
    int ns = (int)d->n_sp(), nd = (int)d->n_de(); RM A(ns + nd, ns + nd);
    trip(*d->sp_mat(), A, true);
    const double* a = d->de_mat()->local_data_const();
    for(int i = 0; i < nd; i++) for(int j = 0; j < nd; j++) A(ns + i, ns + j) = a[(size_t)i * nd + j];
    return A;
  }
  if(auto* d = dynamic_cast<const hiopMatrixSymSparseTriplet*>(&M)) { RM A((int)d->m(), (int)d->n()); trip(*d, A, true); return A; }
  if(auto* d = dynamic_cast<const hiopMatrixSparse*>(&M)) { RM A((int)d->m(), (int)d->n()); trip(*d, A, false); return A; }
  fail("harness:matrix-kind", "");
  return RM(0, 0);
}
typedef std::unique_ptr<hiopVector> VP;
inline void set(hiopVector& v, const dvec& a) { check((size_t)v.get_local_size() == a.size(), "vec:size", "expected size " + std::to_string(a.size()) + " got " + std::to_string(v.get_local_size())); for(size_t i = 0; i < a.size(); i++) v.local_data()[i] = a[i]; }
inline VP mkvec(hiopVector* v, const dvec& a) { VP p(v); set(*p, a); return p; }
inline VP like(const hiopVector& v, const dvec& a) { return mkvec(v.alloc_clone(), a); }
// relative comparison with a per-element magnitude
inline void near(const double* got, const dvec& want, const dvec& tol, const std::string& key) { pbt::close_arr(got, want, tol, key); }
inline dvec rel(const dvec& w, double r) { dvec t(w); for(auto& v : t) v = r * std::fabs(v); return t; }
// absent bounds in several spellings
inline Prob declare(Ctx& c, const Prob& P)
{
  Prob W = P;
  auto absent = [&](double s) { return s * c.pick<double>({1e20, 1e20, 1e21, 1e30, DBL_MAX, INF}); };
  for(int i = 0; i < P.n; i++) { if(P.xl[i] <= -BIG) W.xl[i] = absent(-1); if(P.xu[i] >= BIG) W.xu[i] = absent(1); }
  for(int j = 0; j < P.m; j++) { if(P.cl[j] <= -BIG) W.cl[j] = absent(-1); if(P.cu[j] >= BIG) W.cu[j] = absent(1); }
  return W;
}
// scaling factors of the problem with some variables removed
inline Scal scaling_masked(const Prob& P, const dvec& x0, const std::vector<Opt>& o, const std::vector<char>& removed)
{
  Prob Q = P;  // removed variables do not take part in the norms
  Scal s; s.con.assign(P.m, 1.);
  if(gets(o, "scaling_type", "gradient") == "none") return s;
  double mg = getd(o, "scaling_max_grad", 100), mo = getd(o, "scaling_max_obj_grad", 0), mc = getd(o, "scaling_max_con_grad", 0), mn = getd(o, "scaling_min_grad", 1e-8);
  dvec g(P.n); P.grad(x0.data(), g.data());
  double gn = 0; for(int i = 0; i < P.n; i++) if(!removed[i]) gn = std::max(gn, std::fabs(g[i]));
  dvec r(P.m, 0.);
  for(int j = 0; j < P.m; j++) for(int i = 0; i < P.n; i++) if(!removed[i]) r[j] = std::max(r[j], std::fabs(P.dc(j, i, x0.data())));
  double ot = mo > 0 ? mo : mg, ct = mc > 0 ? mc : mg;
  if(gn < ot && ninf(r) < ct) return s;
  if(mo > 0) { if(gn > 0) s.f = mo / gn; } else if(gn > mg) s.f = mg / gn;
  if(mn > 0) s.f = std::max(s.f, mn);
  for(int j = 0; j < P.m; j++) {
    if(mc > 0) s.con[j] = r[j] > 0 ? mc / r[j] : 1.; else if(r[j] > mg) s.con[j] = mg / r[j];
    if(mn > 0) s.con[j] = std::max(s.con[j], mn);
  }
  return s;
}
inline Prob gen_prob(Ctx& c, bool mds, bool& fixed)
{
  GenOpt g; g.mds = mds; g.nmax = 10; g.mmax = 7;
  Prob P = c.flip() ? gen_convex(c, g) : gen_nonconvex(c, g);
  P.known = false;
  double big = c.pick<double>({1., 1., 30., 1e3});
  if(big != 1.) { for(auto& v : P.A.a) v *= big; for(auto& v : P.q) v *= c.pick<double>({1., 100., 0.01}); }
  if(c.chance(1, 3)) P.hss.assign(P.ns, 1);
  fixed = false;
  for(int i = 0; i < P.n; i++) fixed |= P.xl[i] == P.xu[i];
  return P;
}
inline std::vector<Opt> gen_nlp_opts(Ctx& c, bool fixed)
{
  std::vector<Opt> o;
  OptGen og; og.tol = og.algo = og.relax = og.duals = false;
  o = gen_opts(c, false, og);
  std::string fv = c.pick<std::string>({"none", "relax", "remove", "remove"});
  double p = c.pick<double>({1e-8, 0., 1e-10, 1e-6, 1e-4});
  if(fv == "none" && p == 0. && fixed) fv = "relax";
  o.push_back(os("fixed_var", fv));
  o.push_back(od("bound_relax_perturb", p));
  o.push_back(od("fixed_var_perturb", c.pick<double>({1e-8, 1e-6})));
  o.push_back(od("fixed_var_tolerance", c.pick<double>({1e-15, 1e-10})));
  return o;
}
