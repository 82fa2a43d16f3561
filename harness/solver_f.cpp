// C25: what a restoration returns to the solve that asked for it
#include "solver.hpp"

namespace {
template<class B, class N> struct FRMon : public B {
  Ctx& c; User& U; Scal S; double kappa; bool mds;
  int asked = 0, soft = 0, hard = 0, failed = 0; bool last_failed = false, soft_ok = false, hard_ran = false, hard_ok = false, compared_phi = false;
  FRMon(N* n, Ctx& c_, User& u, const Scal& s, bool m) : B(n), c(c_), U(u), S(s), kappa(n->options->GetNumeric("kappa_resto")), mds(m) {}
  dvec vec(const hiopVector* v) { return dvec(v->local_data_const(), v->local_data_const() + v->get_local_size()); }
  struct Viol { double one = 0, inf = 0, mag = 0; };
  // violation of the (scaled) problem at an iterate: constraint bodies from the user's formulas
  Viol viol(const hiopIterate& it)
  {
    Viol v; dvec x = vec(it.get_x()), d = vec(it.get_d());
    if((int)x.size() != U.P.n) { v.one = -1; return v; }
    auto eq = U.P.eqs(), in = U.P.ineqs();
    auto add = [&](double body, double rhs) { double e = std::fabs(body - rhs); v.one += e; v.inf = std::max(v.inf, e); v.mag += std::fabs(body) + std::fabs(rhs); };
    // magnitude of the terms, for the rounding of the evaluation
    auto mag = [&](int j) { double s = 0; for(int i = 0; i < U.P.n; i++) s += std::fabs(U.P.A(j, i) * x[i]) + std::fabs(0.5 * U.P.D(j, i) * x[i] * x[i]); return s * S.con[j] + std::fabs(U.P.c(j, x.data())) * S.con[j]; };
    for(size_t k = 0; k < eq.size(); k++) { add(U.P.c(eq[k], x.data()) * S.con[eq[k]], U.P.cl[eq[k]] * S.con[eq[k]]); v.mag += mag(eq[k]); }
    for(size_t k = 0; k < in.size(); k++) { add(U.P.c(in[k], x.data()) * S.con[in[k]], d[k]); v.mag += mag(in[k]); }
    return v;
  }
  bool solve_soft_feasibility_restoration(hiopKKTLinSys* kkt) override
  {
    double e0 = this->get_resid()->get_nrmOne_bar_optim() + this->get_resid()->get_nrmOne_bar_feasib();
    soft_ok = B::solve_soft_feasibility_restoration(kkt);
    if(soft_ok) {
      double e1 = this->get_resid_trial()->get_nrmOne_bar_optim() + this->get_resid_trial()->get_nrmOne_bar_feasib();
      check(e1 <= 0.999 * e0 * (1 + 1e-12), "fr:soft:no-reduction", "the primal-dual error goes from " + pbt::str(e0) + " to " + pbt::str(e1));
    }
    return soft_ok;
  }
  bool solve_feasibility_restoration(hiopKKTLinSys* kkt, hiopNlpFormulation& f) override
  {
    hard_ran = true;
    return hard_ok = B::solve_feasibility_restoration(kkt, f);
  }
  hiopResidual* get_resid_trial() { return this->resid_trial; }
  bool apply_feasibility_restoration(hiopKKTLinSys* kkt) override
  {
    asked++; soft_ok = hard_ran = hard_ok = false;
    hiopIterate before(this->get_nlp()); before.copyFrom(*this->get_it_curr());
    Viol v0 = viol(before);
    bool r = B::apply_feasibility_restoration(kkt);
    // the point the solver would fall back on is not touched
    for(auto p : {std::make_pair(before.get_x(), this->get_it_curr()->get_x()), std::make_pair(before.get_d(), this->get_it_curr()->get_d()), std::make_pair(before.get_zl(), this->get_it_curr()->get_zl()), std::make_pair(before.get_yd(), this->get_it_curr()->get_yd())})
      check(vec(p.first) == vec(p.second), "fr:current-changed", "the restoration changed the current iterate");
    last_failed = !r;
    c << "  restoration from violation " << v0.one << ": " << (r ? soft_ok ? "soft" : "hard" : "failed") << "\n";
    if(!r) { failed++; return r; }
    const hiopIterate& t = *this->get_it_trial();
    Viol v1 = viol(t);
    if(v0.one < 0) return r;
    double eps = 1e-12 * (v0.mag + v1.mag);
    check(soft_ok || (hard_ran && hard_ok), "fr:success-from-nothing");
    if(soft_ok) soft++;
    else {
      hard++;
      check(v1.inf <= kappa * v0.inf + eps, "fr:violation-not-reduced", "from " + pbt::str(v0.inf) + " to " + pbt::str(v1.inf) + " kappa_resto " + pbt::str(kappa));
    }
    // interior
    dvec x = vec(t.get_x()), d = vec(t.get_d());
    auto N_ = this->get_nlp();
    auto inside = [&](const dvec& v, const hiopVector& l, const hiopVector& u, const hiopVector& il, const hiopVector& iu, const hiopVector* sl, const hiopVector* su, const char* w) {
      dvec L = vec(&l), R = vec(&u), a = vec(&il), b = vec(&iu), p = vec(sl), q = vec(su);
      bool clean = true;
      for(size_t i = 0; i < v.size(); i++) {
        if(a[i] == 1.) { check(p[i] > 0, "fr:slack", std::string(w) + " slack " + pbt::str(p[i])); double e = std::fabs(p[i] - (v[i] - L[i])); if(e > 1e-12 * (std::fabs(v[i]) + std::fabs(L[i]))) clean = false; if(p[i] < 1e-10 * (1 + std::fabs(v[i]))) clean = false; }
        if(b[i] == 1.) { check(q[i] > 0, "fr:slack", std::string(w) + " slack " + pbt::str(q[i])); double e = std::fabs(q[i] - (R[i] - v[i])); if(e > 1e-12 * (std::fabs(v[i]) + std::fabs(R[i]))) clean = false; if(q[i] < 1e-10 * (1 + std::fabs(v[i]))) clean = false; }
      }
      return clean;
    };
    bool clean = inside(x, N_->get_xl(), N_->get_xu(), N_->get_ixl(), N_->get_ixu(), t.get_sxl(), t.get_sxu(), "variable");
    clean = inside(d, N_->get_dl(), N_->get_du(), N_->get_idl(), N_->get_idu(), t.get_sdl(), t.get_sdu(), "constraint") && clean;
    // acceptable to the filter
    double mu = this->get_mu(), kd = this->get_logbar()->kappa_d, f = U.P.f(x.data()) * S.f;
    double bar = mu * t.evalLogBarrier(), phi = f - bar + (kd > 0 ? t.linearDampingTerm(mu, kd) : 0.);
    double fm = std::fabs(U.P.c0) + std::fabs(f); for(int i = 0; i < U.P.n; i++) { fm += std::fabs(U.P.q[i] * x[i]); for(int j = 0; j < U.P.n; j++) fm += std::fabs(U.P.Q(i, j) * x[i] * x[j]); }
    double ep = 1e-9 * (1e-3 + std::fabs(bar)) + 1e-9 * fm * S.f;
    bool in = this->filter_contains(v1.one, phi), low = this->filter_contains(std::max(0., v1.one - eps) * (1 - 1e-9), phi - ep);
    if(clean) { compared_phi = true; check(!(in && low), "fr:rejected-by-filter", "(" + pbt::str(v1.one) + ", " + pbt::str(phi) + ") is in the filter"); }
    // the values the solve continues with are those of the new point
    dvec ct = vec(this->_c_trial), dt = vec(this->_d_trial); auto eq = U.P.eqs(), inq = U.P.ineqs();
    for(size_t k = 0; k < eq.size(); k++) check(std::fabs(ct[k] - S.con[eq[k]] * U.P.c(eq[k], x.data())) <= 1e-10 * (v1.mag + 1e-3), "fr:stale-constraints", pbt::str(ct));
    for(size_t k = 0; k < inq.size(); k++) check(std::fabs(dt[k] - S.con[inq[k]] * U.P.c(inq[k], x.data())) <= 1e-10 * (v1.mag + 1e-3), "fr:stale-constraints", pbt::str(dt));
    check(std::fabs(this->_f_nlp_trial - f) <= 1e-9 * (fm * S.f + 1e-3), "fr:stale-objective", pbt::str(this->_f_nlp_trial) + " instead of " + pbt::str(f));
    for(auto* v : {t.get_zl(), t.get_zu(), t.get_vl(), t.get_vu()}) for(double z : vec(v)) check(z >= 0 && std::isfinite(z), "fr:bound-multiplier", pbt::str(z));
    return r;
  }
};
template<class B, class N> void go(Ctx& c, bool mds)
{
  GenOpt g; g.mds = mds; g.fixed = c.chance(1, 6);
  bool convex = c.chance(1, 3);
  Prob P = convex ? gen_convex(c, g) : gen_nonconvex(c, g);
  if(P.m == 0) pbt::discard();
  // far away, strongly bilinear, sometimes contradictory
  if(c.chance(2, 3)) for(auto& v : P.x0) v *= c.pick<double>({3., 20., 1000.});
  if(c.flip()) for(auto& v : P.bil) v *= 5.;
  bool contra = c.chance(1, 6);
  if(contra) { int j = (int)c.draw(P.m - 1); double s = c.pick<double>({10., 1e3}); if(P.cl[j] > -1e19) P.cl[j] += s; if(P.cu[j] < 1e19) P.cu[j] += s; }
  auto o = gen_opts(c, mds);
  o.push_back(oi("max_iter", (int)c.range(5, 60)));
  bool forced = c.chance(1, 2);
  if(forced) o.push_back(os("force_resto", "yes"));
  if(c.chance(1, 3)) o.push_back(od("min_step_size", c.pick<double>({1e-3, 0.3, 0.9})));
  if(c.chance(1, 3)) o.push_back(od("kappa_resto", c.pick<double>({0.9, 0.5, 0.99, 0.1})));
  if(c.chance(1, 3)) o.push_back(od("theta_max_fact", c.pick<double>({1e4, 10., 1.1})));
  User U(P);
  U.one_call = c.flip(); U.start_mode = c.chance(1, 4) ? 0 : 1; U.relax = getd(o, "bound_relax_perturb", 1e-8);
  c << itf_name(mds) << "start_mode=" << U.start_mode << " opts: " << str(o) << "\n" << str(P);
  Scal sc = scaling(P, U.start_mode == 0 ? dvec(P.n, 0.) : U.x0, o);
  FRMon<B, N>* A = nullptr;
  Session S(U, mds, o, [&](hiopNlpFormulation* n) { return A = new FRMon<B, N>((N*)n, c, U, sc, mds); });
  Result r = S.run();
  c.label("status" + std::to_string(r.status));
  if(A->soft) c.label("soft"); if(A->hard) c.label("hard"); if(A->failed) c.label("failed"); if(A->compared_phi) c.label("filter-compared");
  if(A->last_failed) check(r.status != Solve_Success && r.status != Solve_Success_RelTol && r.status != Solve_Acceptable_Level, "fr:failed-but-success", "status " + std::to_string(r.status));
  if(r.status == Infeasible_Problem) check(A->last_failed, "fr:infeasible-without-restoration");
  c.nontrivial(A->hard > 0 || A->soft > 0);
}
}
PBT_TARGET(fr_solve_dense) { go<hiopAlgFilterIPMQuasiNewton, hiopNlpDenseConstraints>(c, false); }
PBT_TARGET(fr_solve_mds) { go<hiopAlgFilterIPMNewton, hiopNlpFormulation>(c, true); }
#ifdef HIOP_SPARSE
PBT_TARGET(fr_solve_sparse) { sp_mode() = 1; go<hiopAlgFilterIPMNewton, hiopNlpFormulation>(c, true); }
#endif
