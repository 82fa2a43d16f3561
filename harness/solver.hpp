// option generators and oracles shared by the solver-level harnesses
#pragma once
#include "nlp.hpp"
using pbt::check;
using pbt::fail;

inline double ninf(const dvec& v) { double s = 0; for(double x : v) s = std::max(s, std::fabs(x)); return s; }

// generated options; every combination is documented as valid for the interface
struct OptGen { bool tol = true, scaling = true, relax = true, algo = true, elastic = false, duals = true; };
inline std::vector<Opt> gen_opts(Ctx& c, bool mds, const OptGen& g = OptGen())
{
  std::vector<Opt> o;
  if(g.tol && c.chance(1, 2)) o.push_back(od("tolerance", c.pick<double>({1e-8, 1e-7, 1e-6, 1e-5, 1e-4})));
  if(g.tol && c.chance(1, 8)) { double t = getd(o, "tolerance", 1e-8); o.push_back(od(c.pick<std::string>({"dual_tol", "cons_tol", "comp_tol"}), t * c.pick<double>({1., 10.}))); }
  if(g.scaling && c.chance(2, 3)) {
    o.push_back(os("scaling_type", c.flip() ? "gradient" : "none"));
    if(o.back().s == "gradient") {
      if(c.flip()) o.push_back(od("scaling_max_grad", c.pick<double>({100., 10., 1., 0.5})));
      if(c.chance(1, 5)) o.push_back(od("scaling_max_obj_grad", c.pick<double>({10., 1.})));
      if(c.chance(1, 5)) o.push_back(od("scaling_max_con_grad", c.pick<double>({10., 1.})));
      if(c.chance(1, 5)) o.push_back(od("scaling_min_grad", c.pick<double>({1e-8, 1e-2})));
    }
  }
  if(g.relax && c.chance(1, 4)) o.push_back(od("bound_relax_perturb", c.pick<double>({1e-8, 1e-10, 1e-6})));
  if(g.duals) {
    if(c.chance(1, 3)) o.push_back(os("duals_init", c.flip() ? "zero" : "lsq"));
    if(!mds && c.chance(1, 3)) o.push_back(os("duals_update_type", c.flip() ? "linear" : "lsq"));
  }
  if(g.algo) {
    if(c.chance(1, 4)) o.push_back(od("mu0", c.pick<double>({1., 0.1, 1e-2, 10.})));
    if(c.chance(1, 5)) o.push_back(od("kappa_mu", c.pick<double>({0.2, 0.1, 0.5})));
    if(c.chance(1, 5)) o.push_back(od("theta_mu", c.pick<double>({1.5, 1.2, 1.8})));
    if(c.chance(1, 5)) o.push_back(od("tau_min", c.pick<double>({0.99, 0.95, 0.9})));
    if(c.chance(1, 5)) o.push_back(od("kappa1", c.pick<double>({1e-2, 1e-3, 1e-1})));
    if(c.chance(1, 5)) o.push_back(od("kappa2", c.pick<double>({1e-2, 1e-1, 0.3})));
    if(c.chance(1, 8)) o.push_back(oi("max_soc_iter", (int)c.range(0, 4)));
    if(!mds) {
      if(c.chance(1, 4)) o.push_back(oi("secant_memory_len", (int)c.range(0, 12)));
      if(c.chance(1, 4)) o.push_back(os("sigma_update_strategy", c.pick<std::string>({"sty", "sty_inv", "snrm_ynrm", "sty_srnm_ynrm", "sigma0"})));
      if(c.chance(1, 8)) o.push_back(od("sigma0", c.pick<double>({1., 0.5, 3.})));
    } else {
      if(c.chance(1, 4)) o.push_back(os("fact_acceptor", c.pick<std::string>({"inertia_correction", "inertia_free"})));
      if(sp_mode() == 1) { if(c.flip()) o.push_back(os("KKTLinsys", c.flip() ? "xycyd" : "xdycyd")); }
      if(sp_mode() == 4) o.push_back(os("KKTLinsys", "normaleqn"));
      if(sp_mode() == 2 || sp_mode() == 3) {
        o.push_back(os("KKTLinsys", "condensed"));
        if(c.flip()) o.push_back(os("linsol_mode", c.pick<std::string>({"stable", "speculative", "forcequick", "forcequick"})));
      }
      else if(c.chance(1, 4)) o.push_back(os("linsol_mode", c.pick<std::string>({"stable", "speculative", "forcequick"})));
    }
  }
  return o;
}

// the scaling factors HiOp documents: gradient based, computed at the user's starting point
struct Scal { double f = 1; dvec con; };
inline Scal scaling(const Prob& P, const dvec& x0, const std::vector<Opt>& o)
{
  Scal s;
  s.con.assign(P.m, 1.);
  if(gets(o, "scaling_type", "gradient") == "none") return s;
  double mg = getd(o, "scaling_max_grad", 100), mo = getd(o, "scaling_max_obj_grad", 0), mc = getd(o, "scaling_max_con_grad", 0), mn = getd(o, "scaling_min_grad", 1e-8);
  dvec g(P.n);
  P.grad(x0.data(), g.data());
  dvec r(P.m, 0.);
  for(int j = 0; j < P.m; j++) for(int i = 0; i < P.n; i++) r[j] = std::max(r[j], std::fabs(P.dc(j, i, x0.data())));
  double gn = ninf(g), ot = mo > 0 ? mo : mg, ct = mc > 0 ? mc : mg;
  if(gn < ot && ninf(r) < ct) return s;
  if(mo > 0) { if(gn > 0) s.f = mo / gn; }
  else if(gn > mg) s.f = mg / gn;
  if(mn > 0) s.f = std::max(s.f, mn);
  for(int j = 0; j < P.m; j++) {
    if(mc > 0) s.con[j] = r[j] > 0 ? mc / r[j] : 1.;
    else if(r[j] > mg) s.con[j] = mg / r[j];
    if(mn > 0) s.con[j] = std::max(s.con[j], mn);
  }
  return s;
}

// first order conditions of the user's problem at the reported point, within HiOp's documented error scaling
inline void check_kkt(const Prob& P, const Result& r, const std::vector<Opt>& o, const dvec& x0, double slack = 3.)
{
  const double tol = getd(o, "tolerance", 1e-8), relax = getd(o, "bound_relax_perturb", 1e-8), smax = getd(o, "smax", 100.);
  Scal S = scaling(P, x0, o);
  int n = P.n, m = P.m;
  // multipliers in HiOp's scaled problem
  dvec zl(n), zu(n), lam(m);
  double n1z = 0, n1y = 0;
  // hiopNlpSparseIneq turns the equalities into (relaxed) inequalities
  auto isq = [&](int j) { return P.is_eq(j) && sp_mode() != 2; };
  const double eqr = sp_mode() == 2 ? (relax + getd(o, "eq_relax_factor", 1e-8)) * 1.0001 : 0;
  for(int i = 0; i < n; i++) zl[i] = r.zl[i] * S.f, zu[i] = r.zu[i] * S.f, n1z += std::fabs(zl[i]) + std::fabs(zu[i]);
  for(int j = 0; j < m; j++) lam[j] = r.lam[j] * S.f / S.con[j], n1y += std::fabs(lam[j]), n1z += isq(j) ? 0 : 2 * std::fabs(lam[j]) + (P.is_eq(j) ? 10 * tol / (eqr * std::max(1., std::fabs(P.cl[j])) * S.con[j]) : 0);
  double nc = 0;
  for(int i = 0; i < n; i++) nc += (P.xl[i] > -BIG) + (P.xu[i] < BIG);
  for(int j = 0; j < m; j++) if(!isq(j)) nc += (P.cl[j] > -BIG) + (P.cu[j] < BIG);
  double sd = std::min(1e8, std::max(smax, (n1z + n1y) / std::max(1., nc + m)) / smax);
  double sc = std::min(1e8, std::max(smax, n1z / std::max(1, n)) / smax);  // generous
  // dual_tol, cons_tol, comp_tol bound the unscaled errors in addition
  double td = std::min(tol * sd, getd(o, "dual_tol", 1.) * 1.) * slack, tc = std::min(tol * sc, std::max(tol, getd(o, "comp_tol", 1e-4))) * slack, tp = std::min(tol, std::max(tol, getd(o, "cons_tol", 1e-4))) * slack;
  for(double v : r.x) check(std::isfinite(v), "kkt:nonfinite", "solution contains non-finite values");
  double f = P.f(r.x.data());
  double fm = std::fabs(P.c0);
  for(int i = 0; i < n; i++) { fm += std::fabs(P.q[i] * r.x[i]); for(int j = 0; j < n; j++) fm += std::fabs(P.Q(i, j) * r.x[i] * r.x[j]); fm += P.p4[i] * std::pow(r.x[i] - P.t4[i], 4); }
  pbt::close_val(r.obj, f, 1e-12 * (1 + fm), "kkt:objective");
  // primal feasibility
  for(int i = 0; i < n; i++) {
    double pl = relax * std::max(1., std::fabs(P.xl[i])) + 1e-12 * std::max(1., std::fabs(P.xl[i])), pu = relax * std::max(1., std::fabs(P.xu[i])) + 1e-12 * std::max(1., std::fabs(P.xu[i]));
    check(P.xl[i] <= -BIG || r.x[i] >= P.xl[i] - pl, "kkt:bound", "x[" + std::to_string(i) + "]=" + pbt::str(r.x[i]) + " below its lower bound " + pbt::str(P.xl[i]));
    check(P.xu[i] >= BIG || r.x[i] <= P.xu[i] + pu, "kkt:bound", "x[" + std::to_string(i) + "]=" + pbt::str(r.x[i]) + " above its upper bound " + pbt::str(P.xu[i]));
  }
  dvec body(m);
  for(int j = 0; j < m; j++) {
    double v = body[j] = P.c(j, r.x.data());
    double t = tp / S.con[j] + 1e-11;
    if(P.is_eq(j)) check(std::fabs(v - P.cl[j]) <= t + eqr * std::max(1., std::fabs(P.cl[j])), "kkt:feas-eq", "equality " + std::to_string(j) + " violated by " + pbt::str(v - P.cl[j]) + " tol " + pbt::str(t));
    else {
      check(v >= P.cl[j] - relax * std::max(1., std::fabs(P.cl[j])) - t, "kkt:feas-ineq", "inequality " + std::to_string(j) + " = " + pbt::str(v) + " below " + pbt::str(P.cl[j]));
      check(v <= P.cu[j] + relax * std::max(1., std::fabs(P.cu[j])) + t, "kkt:feas-ineq", "inequality " + std::to_string(j) + " = " + pbt::str(v) + " above " + pbt::str(P.cu[j]));
    }
  }
  // stationarity in the scaled problem
  dvec g(n);
  P.grad(r.x.data(), g.data());
  for(int i = 0; i < n; i++) {
    double s = S.f * g[i] - zl[i] + zu[i], mag = std::fabs(S.f * g[i]) + std::fabs(zl[i]) + std::fabs(zu[i]);
    for(int j = 0; j < m; j++) { double t = lam[j] * S.con[j] * P.dc(j, i, r.x.data()); s += t; mag += std::fabs(t); }
    check(std::fabs(s) <= td + 1e-12 * (mag + fm), "kkt:stationarity", "stationarity residual " + pbt::str(s) + " at variable " + std::to_string(i) + " (scaled; allowed " + pbt::str(td) + "), zl=" + pbt::str(r.zl) + " zu=" + pbt::str(r.zu) + " lambda=" + pbt::str(r.lam) + " x=" + pbt::str(r.x));
  }
  // signs and complementarity
  for(int i = 0; i < n; i++) {
    check(zl[i] >= 0 && zu[i] >= 0, "kkt:sign-z", "negative bound multiplier at " + std::to_string(i));
    if(P.xl[i] <= -BIG) check(zl[i] == 0, "kkt:z-without-bound", "zl nonzero for an absent bound"); else {
      double sl = std::max(0., r.x[i] - P.xl[i] + relax * std::max(1., std::fabs(P.xl[i])));
      check(zl[i] * sl <= tc + 1e-14 * zl[i] * (1 + std::fabs(r.x[i])), "kkt:compl-z", "zl*(x-xl)=" + pbt::str(zl[i] * sl) + " at " + std::to_string(i) + " allowed " + pbt::str(tc));
    }
    if(P.xu[i] >= BIG) check(zu[i] == 0, "kkt:z-without-bound", "zu nonzero for an absent bound"); else {
      double su = std::max(0., P.xu[i] - r.x[i] + relax * std::max(1., std::fabs(P.xu[i])));
      check(zu[i] * su <= tc + 1e-14 * zu[i] * (1 + std::fabs(r.x[i])), "kkt:compl-z", "zu*(xu-x)=" + pbt::str(zu[i] * su) + " at " + std::to_string(i) + " allowed " + pbt::str(tc));
    }
  }
  for(int j = 0; j < m; j++) if(!P.is_eq(j)) {
    double yp = std::max(lam[j], 0.), ym = std::max(-lam[j], 0.);
    if(P.cu[j] >= BIG) check(yp <= td, "kkt:sign-lambda", "multiplier " + pbt::str(r.lam[j]) + " of inequality " + std::to_string(j) + " has the sign of an absent upper bound");
    else {
      double s = std::max(0., P.cu[j] + relax * std::max(1., std::fabs(P.cu[j])) - body[j]) * S.con[j];
      check(yp * s <= tc + (td + 1e-14 * yp) * (s + 1) + tp * yp, "kkt:compl-lambda", "lambda*(cu-c)=" + pbt::str(yp * s) + " for inequality " + std::to_string(j));
    }
    if(P.cl[j] <= -BIG) check(ym <= td, "kkt:sign-lambda", "multiplier " + pbt::str(r.lam[j]) + " of inequality " + std::to_string(j) + " has the sign of an absent lower bound");
    else {
      double s = std::max(0., body[j] - P.cl[j] + relax * std::max(1., std::fabs(P.cl[j]))) * S.con[j];
      check(ym * s <= tc + (td + 1e-14 * ym) * (s + 1) + tp * ym, "kkt:compl-lambda", "lambda*(c-cl)=" + pbt::str(ym * s) + " for inequality " + std::to_string(j));
    }
  }
}
