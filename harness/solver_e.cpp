// C15: the filter and the line-search acceptance rules
#include "solver.hpp"
#include "hiopFilter.hpp"

namespace {
struct ModelFilter {
  std::vector<std::pair<double, double>> e;
  void ceiling(double t) { e.assign(1, {t, -1e20}); }
  bool contains(double t, double p) const { for(auto& q : e) if(t >= q.first && p >= q.second) return true; return false; }
};
const double GT = 1e-5, GP = 1e-8, ST = 1.1, SP = 2.3;  // constants of the acceptance rules (delta = 1)

// what the rules say; 'gray' when a comparison is decided by rounding
struct Rule { int ret; bool in_filter, gray; };
bool close_to(double a, double b) { return std::fabs(a - b) <= 1e-12 * (std::fabs(a) + std::fabs(b)); }
Rule rule(const ModelFilter& F, double tmin, double th, double tht, double al, double phi, double phit, double slope, double eta)
{
  Rule r{0, false, false};
  auto le = [&](double a, double b) { if(close_to(a, b) && a != b) r.gray = true; return a <= b; };
  auto sufficient = [&] { bool a = le(tht, (1 - GT) * th), b = le(phit, phi - GP * th); return a || b; };
  if(th >= tmin) { if(!sufficient()) return r; r.ret = 1; }
  else {
    double lhs = slope < 0 ? al * std::pow(-slope, SP) : 0, rhs = std::pow(th, ST);
    if(slope < 0 && close_to(lhs, rhs)) r.gray = true;
    if(slope < 0 && lhs > rhs) { if(!le(phit, phi + eta * al * slope)) return r; r.ret = 3; }
    else { if(!sufficient()) return r; r.ret = 2; }
  }
  if(F.contains(tht, phit)) { r.ret = 0; r.in_filter = true; }
  return r;
}
// does the accepted step enlarge the filter?
bool augments(double th, double al, double phi, double phit, double slope, double eta, bool& gray)
{
  double lhs = slope < 0 ? al * std::pow(-slope, SP) : 0, rhs = std::pow(th, ST), a = phi + eta * al * slope;
  if((slope < 0 && close_to(lhs, rhs)) || (close_to(phit, a) && phit != a)) gray = true;
  return !(slope < 0 && lhs > rhs && phit <= a);
}
double up(double v) { return std::nextafter(v, INF); }
double dn(double v) { return std::nextafter(v, -INF); }
}

PBT_TARGET(filter_seq)
{
  hiopFilter F; ModelFilter M;
  int nops = (int)c.size(1, 60), nq = 0, hit = 0;
  auto theta = [&]() -> double {
    if(!M.e.empty() && c.chance(2, 3)) { double t = M.e[c.draw(M.e.size() - 1)].first; switch(c.draw(3)) { case 0: return t; case 1: return up(t); case 2: return dn(t); default: return t * c.uni(0, 2); } }
    return c.pick<double>({0., 1e-300, 1e-8, 1., 1e4, 1e20, c.uni(0, 10)});
  };
  auto phi = [&]() -> double {
    if(!M.e.empty() && c.chance(2, 3)) { double t = M.e[c.draw(M.e.size() - 1)].second; switch(c.draw(3)) { case 0: return t; case 1: return up(t); case 2: return dn(t); default: return t + c.uni(-2, 2); } }
    return c.pick<double>({0., -1., 1e8, -1e8, -1e20, -1e21, c.uni(-10, 10)});
  };
  for(int k = 0; k < nops; k++) {
    int op = (int)c.draw(12);
    if(op <= 6) {
      double t = theta(), p = phi();
      bool g = F.contains(t, p), w = M.contains(t, p);
      c << "contains " << t << " " << p << " -> " << g << "\n";
      check(g == w, "filter:contains", "(" + pbt::str(t) + ", " + pbt::str(p) + ") -> " + std::to_string(g));
      nq++; hit += w;
    } else if(op <= 10) { double t = theta(), p = phi(); c << "add " << t << " " << p << "\n"; F.add(t, p); M.e.push_back({t, p}); }
    else if(op == 11) { double t = theta(); c << "start " << t << "\n"; if(c.flip()) F.initialize(t); else F.reinitialize(t); M.ceiling(t); }
    else if(c.chance(1, 3)) { c << "clear\n"; F.clear(); M.e.clear(); }
  }
  // nothing was forgotten
  for(auto& e : M.e) for(int a = 0; a < 3; a++) for(int b = 0; b < 3; b++) {
    double t = a == 0 ? dn(e.first) : a == 1 ? e.first : up(e.first), p = b == 0 ? dn(e.second) : b == 1 ? e.second : up(e.second);
    check(F.contains(t, p) == M.contains(t, p), "filter:contains", "(" + pbt::str(t) + ", " + pbt::str(p) + ")");
  }
  c.nontrivial(nq > 3 && hit > 0 && hit < nq);
}

namespace {
template<class B, class N> struct Rules : public B {
  Rules(N* n) : B(n) {}
  double& tmin() { return this->theta_min; }
  hiopFilter& flt() { return this->filter; }
  int go(double th, double tht, double al, bool& have, double& slope) { return this->accept_line_search_conditions(th, tht, al, have, slope); }
  bool by_filter() const { return this->trial_is_rejected_by_filter; }
};
}
PBT_TARGET(ls_rules)
{
  Prob P;
  P.n = 2; P.m = 1; P.Q = RM(2, 2); P.A = RM(1, 2); P.D = RM(1, 2); P.q.assign(2, 1.); P.p4.assign(2, 0.); P.t4.assign(2, 0.); P.e.assign(1, 0.); P.bil.assign(1, 0.);
  P.cl.assign(1, -1.); P.cu.assign(1, 1.); P.xl.assign(2, 0.); P.xu.assign(2, 1.); P.x0.assign(2, 0.5);
  P.A(0, 0) = P.A(0, 1) = 1.; P.Q(0, 0) = P.Q(1, 1) = 1.;
  User U(P);
  double eta = c.pick<double>({1e-8, 1e-4, 1e-2, 0.});
  typedef Rules<hiopAlgFilterIPMQuasiNewton, hiopNlpDenseConstraints> R;
  R* A = nullptr;
  Session S(U, false, {od("eta_phi", eta)}, [&](hiopNlpFormulation* n) { return A = new R((hiopNlpDenseConstraints*)n); });
  ModelFilter M; A->flt().clear();
  int nops = (int)c.range(1, 30); bool nt = false;
  c << "eta_phi=" << eta << "\n";
  for(int k = 0; k < nops; k++) {
    if(c.chance(1, 10)) { double t = c.pick<double>({1e4, 1., 10.}); A->flt().reinitialize(t); M.ceiling(t); c << "start " << t << "\n"; }
    double th = c.pick<double>({0., 1e-12, 1e-4, 1e-2, 1., 50., c.uni(0, 1)}), tmin = c.pick<double>({1e-4, 1e-2, th, up(th), dn(th), 1e3});
    double phi = c.pick<double>({0., 1., -5., 1e6, c.uni(-10, 10)}), slope = c.pick<double>({0., -1e-8, -1e-3, -1., -100., 1., c.uni(-2, 1)}), al = c.pick<double>({1., 0.5, 1e-3, 1e-8, c.uni(0, 1)});
    double tht, phit;
    switch(c.draw(5)) { case 0: tht = th; break; case 1: tht = (1 - GT) * th * (1 + c.pick<double>({-1e-9, 1e-9, 0., -1e-6, 1e-6})); break; case 2: tht = 0.; break; case 3: tht = M.e.empty() ? th : M.e[c.draw(M.e.size() - 1)].first; break; default: tht = c.uni(0, 2) * (th + 1e-3); }
    switch(c.draw(6)) {
      case 0: phit = phi; break;
      case 1: phit = phi - GP * th * c.pick<double>({0.5, 2., 1., 0.99, 1.01}); break;
      case 2: phit = phi + eta * al * slope * c.pick<double>({0.5, 2., 1., 0.99, 1.01, 0.}); break;
      case 3: phit = M.e.empty() ? phi : M.e[c.draw(M.e.size() - 1)].second; break;
      case 4: phit = phi + c.pick<double>({-1e-3, 1e-3}); break;
      default: phit = phi + c.uni(-2, 2);
    }
    A->tmin() = tmin; A->get_logbar()->f_logbar = phi; A->get_logbar()->f_logbar_trial = phit;
    Rule w = rule(M, tmin, th, tht, al, phi, phit, slope, eta);
    bool have = true; double sl = slope;
    int g = A->go(th, tht, al, have, sl);
    c << "theta " << th << " -> " << tht << " (min " << tmin << ") phi " << phi << " -> " << phit << " alpha " << al << " slope " << slope << " : " << g << " expected " << w.ret << (w.gray ? " (gray)" : "") << "\n";
    check(sl == slope, "ls:slope-changed");
    if(!w.gray) {
      check((g > 0) == (w.ret > 0), g > 0 ? "ls:accepted-wrongly" : "ls:rejected-wrongly", "returned " + std::to_string(g) + ", the rules give " + std::to_string(w.ret));
      check(g == w.ret, "ls:kind", "returned " + std::to_string(g) + ", the rules give " + std::to_string(w.ret));
      if(g == 0) check(A->by_filter() == w.in_filter, "ls:filter-flag");
      if(w.ret == 3 || w.in_filter) nt = true;
    }
    if(g > 0 && c.chance(2, 3)) { A->flt().add(tht, phit); M.e.push_back({tht, phit}); c << "add " << tht << " " << phit << "\n"; }
  }
  c.nontrivial(nt);
}

// real solves, watched: every decision, the filter's content and the point taken
namespace {
template<class B, class N> struct Mon : public B {
  Ctx& c; double eta, fmin, fmax; bool disabled, forcequick; User& U;
  ModelFilter F; double mu = -1, tmin = 0;
  struct Rec { double th, tht, phi, phit, slope; int ret; dvec x; } last;
  int calls = 0, accepted = 0, by_filter = 0, rejected = 0, added = 0, restarts = 0, soc = 0, fr = 0, armijo = 0, iters = 0;
  Mon(N* n, Ctx& c_, User& u) : B(n), c(c_), U(u)
  {
    auto& o = *n->options;
    eta = o.GetNumeric("eta_phi"); fmin = o.GetNumeric("theta_min_fact"); fmax = o.GetNumeric("theta_max_fact");
    disabled = o.GetString("accept_every_trial_step") == "yes"; forcequick = o.GetString("linsol_mode") == "forcequick";
  }
  dvec vec(const hiopVector* v) { return dvec(v->local_data_const(), v->local_data_const() + v->get_local_size()); }
  void sync()
  {
    if(this->get_mu() != mu) { F.ceiling(tmax); mu = this->get_mu(); restarts++; }
    for(auto& e : F.e) for(int a = 0; a < 2; a++) for(int b = 0; b < 2; b++) {
      double t = a ? dn(e.first) : e.first, p = b ? dn(e.second) : e.second;
      bool g = this->filter_contains(t, p), w = F.contains(t, p);
      check(g == w, w ? "filter:entry-lost" : "filter:unexpected-entry", "(" + pbt::str(t) + ", " + pbt::str(p) + ") in iteration " + std::to_string(iters));
    }
    // above the infeasibility ceiling, nothing is acceptable
    check(this->filter_contains(up(tmax), -1e19), "filter:no-ceiling", "theta_max=" + pbt::str(tmax));
    check(!this->filter_contains(0., -1e19) || F.contains(0., -1e19), "filter:unexpected-entry");
  }
  double tmax = 0;
  int accept_line_search_conditions(const double th, const double tht, const double al, bool& have, double& slope) override
  {
    calls++;
    sync();
    auto* lb = this->get_logbar(); auto* it = this->get_it_trial();
    // the quantities compared are those of the trial point
    double t = 0; dvec ct = vec(this->_c_trial), cr = vec(&this->get_nlp()->get_crhs()), dt = vec(this->_d_trial), dd = vec(it->get_d());
    for(size_t i = 0; i < ct.size(); i++) t += std::fabs(ct[i] - cr[i]);
    for(size_t i = 0; i < dt.size(); i++) t += std::fabs(dt[i] - dd[i]);
    check(std::fabs(t - tht) <= 1e-12 * (t + ninf(ct) + ninf(cr) + ninf(dt)), "ls:theta-trial", pbt::str(tht) + " expected " + pbt::str(t));
    // the residual of the current point, which a further solve for directions starts from, is left alone
    double tc = 0;
    for(double v : vec(this->get_resid()->get_ryc())) tc += std::fabs(v);
    for(double v : vec(this->get_resid()->get_ryd())) tc += std::fabs(v);
    check(std::fabs(tc - th) <= 1e-12 * (tc + th), "ls:residual-overwritten", pbt::str(tc) + " instead of " + pbt::str(th));
    double kd = lb->kappa_d, bar = mu * it->evalLogBarrier(), p = this->_f_nlp_trial - bar + (kd > 0 ? it->linearDampingTerm(mu, kd) : 0.);
    check(std::fabs(p - lb->f_logbar_trial) <= 1e-12 * (std::fabs(p) + std::fabs(bar) + std::fabs(this->_f_nlp_trial)), "ls:phi-trial", pbt::str(lb->f_logbar_trial) + " expected " + pbt::str(p));
    dvec x = vec(it->get_x());
    if((int)x.size() == U.P.n) { double f = U.P.f(x.data()) * this->get_nlp()->get_obj_scale(); check(std::fabs(f - this->_f_nlp_trial) <= 1e-9 * (1e-3 + std::fabs(f)) + 1e-11 * fmag(x), "ls:f-trial", pbt::str(this->_f_nlp_trial) + " expected " + pbt::str(f)); }
    double phi = lb->f_logbar, phit = lb->f_logbar_trial, sl = have ? slope : lb->directionalDerivative(*this->get_dir());
    Rule w = rule(F, tmin, th, tht, al, phi, phit, sl, eta);
    int g = B::accept_line_search_conditions(th, tht, al, have, slope);
    if(have) check(slope == sl, "ls:slope", pbt::str(slope) + " expected " + pbt::str(sl));
    c << "  theta " << th << " -> " << tht << " phi " << phi << " -> " << phit << " alpha " << al << " slope " << sl << " mu " << mu << " : " << g << "\n";
    if(!w.gray) {
      check((g > 0) == (w.ret > 0), g > 0 ? "ls:accepted-wrongly" : "ls:rejected-wrongly", "returned " + std::to_string(g) + ", the rules give " + std::to_string(w.ret));
      check(g == w.ret, "ls:kind", "returned " + std::to_string(g) + ", the rules give " + std::to_string(w.ret));
    }
    if(g > 0) accepted++; else { rejected++; if(w.in_filter) by_filter++; }
    if(g == 3) armijo++;
    last = Rec{th, tht, phi, phit, sl, g, x};
    return g;
  }
  double fmag(const dvec& x) { double s = std::fabs(U.P.c0); for(int i = 0; i < U.P.n; i++) { s += std::fabs(U.P.q[i] * x[i]); for(int j = 0; j < U.P.n; j++) s += std::fabs(U.P.Q(i, j) * x[i] * x[j]); } return s * this->get_nlp()->get_obj_scale(); }
  void outputIteration(int ls, int num, int use_soc, int use_fr) override
  {
    if(ls == -1) {
      double t0 = std::max(1., this->get_resid()->get_theta());
      tmin = fmin * t0; tmax = fmax * t0; mu = this->get_mu(); F.ceiling(tmax); iters = 0;
    } else {
      iters++;
      if(use_fr) fr++;
      else if(!disabled) {
        soc += use_soc;
        if(ls > 0) {
          check(last.ret == ls, "ls:status", "the step was reported with status " + std::to_string(ls) + " but the last decision was " + std::to_string(last.ret));
          check(vec(this->get_it_curr()->get_x()) == last.x, "ls:other-point", "the new iterate is not the accepted trial point");
          bool gray = false, add = ls != 3 && (ls == 2 || augments(last.th, this->_alpha_primal, last.phi, last.phit, last.slope, eta, gray));
          // after a correction, the slope may be that of the step before or after the correction
          if(ls == 1 && (gray || use_soc)) add = this->filter_contains(last.tht, last.phit);
          if(add) { F.e.push_back({last.tht, last.phit}); added++; }
        } else check(forcequick, "ls:step-without-acceptance", "iteration " + std::to_string(iters) + " took a rejected step");
      }
    }
    if(!disabled) sync();
  }
};
template<class B, class N> void watch(Ctx& c, bool mds)
{
  GenOpt g; g.mds = mds; g.fixed = c.chance(1, 4);
  Prob P = c.chance(1, 3) ? gen_convex(c, g) : gen_nonconvex(c, g);
  if(c.flip()) for(auto& v : P.x0) v *= c.pick<double>({3., 20., 1000.});
  if(c.flip()) for(auto& v : P.bil) v *= 5.;
  auto o = gen_opts(c, mds);
  o.push_back(oi("max_iter", (int)c.range(10, 120)));
  if(c.chance(1, 3)) o.push_back(od("eta_phi", c.pick<double>({1e-8, 1e-4, 1e-2})));
  if(c.chance(1, 2)) o.push_back(od("theta_min_fact", c.pick<double>({1e-4, 1., 1e-8, 10.})));
  if(c.chance(1, 3)) o.push_back(od("theta_max_fact", c.pick<double>({1e4, 10., 1.1})));
  if(c.chance(1, 20)) o.push_back(os("accept_every_trial_step", "yes"));
  if(c.chance(1, 8)) o.push_back(od("min_step_size", c.pick<double>({1e-16, 1e-3, 0.3})));
  User U(P);
  U.one_call = c.flip(); U.start_mode = c.chance(1, 4) ? 0 : 1; U.relax = getd(o, "bound_relax_perturb", 1e-8);
  c << itf_name(mds) << "start_mode=" << U.start_mode << " opts: " << str(o) << "\n" << str(P);
  Mon<B, N>* A = nullptr;
  Session S(U, mds, o, [&](hiopNlpFormulation* n) { return A = new Mon<B, N>((N*)n, c, U); });
  Result r = S.run();
  c.label("status" + std::to_string(r.status));
  if(A->by_filter) c.label("rejected-by-filter"); if(A->soc) c.label("soc"); if(A->fr) c.label("restored"); if(A->armijo) c.label("armijo");
  c.nontrivial(A->added >= 3 && A->restarts >= 1 && A->rejected >= 1);
}
}
PBT_TARGET(ls_dense) { watch<hiopAlgFilterIPMQuasiNewton, hiopNlpDenseConstraints>(c, false); }
PBT_TARGET(ls_mds) { watch<hiopAlgFilterIPMNewton, hiopNlpFormulation>(c, true); }
#ifdef HIOP_SPARSE
PBT_TARGET(ls_sparse) { sp_mode() = 1; watch<hiopAlgFilterIPMNewton, hiopNlpFormulation>(c, true); }
#endif
