// C28: every iteration is a step of the documented interior-point method; C04: the termination rule
#include "comp.hpp"

namespace {
struct Snap { dvec x, d, sxl, sxu, sdl, sdu, zl, zu, vl, vu, yc, yd; };
bool grayeq(double a, double b) { return std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b)); }

template<class B, class N> struct Step : public B {
  Ctx& c; User& U; Form* expect = nullptr;
  // options
  double tol, dtol, ctol, ptol, rtol, atol, keps, smax, taumin, mrel, mabs, e0, ef, recalc, minstep; int anum, maxit;
  std::string elastic, estrat, dupd; bool disabled, forcequick, elast, fresto;
  // state
  bool started = false, terminal = false, have_T = false; int pred = 0, nacc = 0, n_out = 0;
  double o0 = 0, f0 = 0, c0 = 0, mu0 = 0;
  double mu = 0, tau = 0, prelax = 0; bool mugray = false; std::vector<double> mualt;
  Snap S, T; Snap D; dvec gT; RM JcT, JdT;
  int steps = 0, mus = 0, lsq = 0, lim = 0, acc = 0, frs = 0, socs = 0, tight = 0;
  Step(N* n, Ctx& c_, User& u) : B(n), c(c_), U(u)
  {
    auto& o = *n->options; auto num = [&](const char* s) { return o.GetNumeric(s); };
    tol = num("tolerance"); dtol = num("dual_tol"); ptol = num("cons_tol"); ctol = num("comp_tol"); rtol = num("rel_tolerance"); atol = num("acceptable_tolerance"); anum = o.GetInteger("acceptable_iterations");
    keps = num("kappa_eps"); smax = num("smax"); taumin = num("tau_min"); mrel = num("moving_lim_rel"); mabs = num("moving_lim_abs"); e0 = num("elastic_mode_bound_relax_initial"); ef = num("elastic_mode_bound_relax_final");
    recalc = num("recalc_lsq_duals_tol"); minstep = num("min_step_size"); maxit = o.GetInteger("max_iter"); mu0 = num("mu0");
    elastic = o.GetString("elastic_mode"); estrat = o.GetString("elastic_bound_strategy"); dupd = o.GetString("duals_update_type");
    fresto = o.GetString("force_resto") == "yes"; disabled = o.GetString("accept_every_trial_step") == "yes"; forcequick = o.GetString("linsol_mode") == "forcequick"; elast = elastic != "none";
    prelax = elast ? e0 : num("bound_relax_perturb");
  }
  static dvec vec(const hiopVector* v) { return dvec(v->local_data_const(), v->local_data_const() + v->get_local_size()); }
  static Snap snap(hiopIterate& i) { return Snap{vec(i.get_x()), vec(i.get_d()), vec(i.get_sxl()), vec(i.get_sxu()), vec(i.get_sdl()), vec(i.get_sdu()), vec(i.get_zl()), vec(i.get_zu()), vec(i.get_vl()), vec(i.get_vu()), vec(i.get_yc()), vec(i.get_yd())}; }
  hiopNlpFormulation* F() { return this->nlp; }
  struct Err { double optim, feas, compl_, viol, boptim, bcompl, mag; };
  // error measures of the current iterate for the barrier parameter m
  Err errors(const Snap& I, double m)
  {
    Err e{0, 0, 0, 0, 0, 0, 0};
    dvec g = vec(this->_grad_f), C = vec(this->_c), Dd = vec(this->_d), ixl = vec(&F()->get_ixl()), ixu = vec(&F()->get_ixu()), idl = vec(&F()->get_idl()), idu = vec(&F()->get_idu()), rhs = vec(&F()->get_crhs()), dl = vec(&F()->get_dl()), du = vec(&F()->get_du());
    RM Jc = expand(*this->_Jac_c), Jd = expand(*this->_Jac_d);
    double kd = this->logbar->kappa_d * m;
    for(size_t i = 0; i < I.x.size(); i++) {
      double s = g[i] - I.zl[i] + I.zu[i], mg = std::fabs(g[i]) + I.zl[i] + I.zu[i];
      for(int j = 0; j < Jc.m; j++) s += Jc(j, i) * I.yc[j], mg += std::fabs(Jc(j, i) * I.yc[j]);
      for(int j = 0; j < Jd.m; j++) s += Jd(j, i) * I.yd[j], mg += std::fabs(Jd(j, i) * I.yd[j]);
      e.optim = std::max(e.optim, std::fabs(s)); e.mag = std::max(e.mag, mg);
      double b = s + (ixl[i] != 0. && ixu[i] == 0. ? kd : ixl[i] == 0. && ixu[i] != 0. ? -kd : 0.);
      e.boptim = std::max(e.boptim, std::fabs(b));
    }
    for(size_t i = 0; i < I.d.size(); i++) {
      double s = -I.yd[i] - I.vl[i] + I.vu[i];
      e.optim = std::max(e.optim, std::fabs(s)); e.mag = std::max(e.mag, std::fabs(I.yd[i]) + I.vl[i] + I.vu[i]);
      e.boptim = std::max(e.boptim, std::fabs(s + (idl[i] != 0. && idu[i] == 0. ? kd : idl[i] == 0. && idu[i] != 0. ? -kd : 0.)));
      e.feas = std::max(e.feas, std::fabs(I.d[i] - Dd[i]));
      if(idl[i] != 0.) e.viol = std::max(e.viol, dl[i] - Dd[i]);
      if(idu[i] != 0.) e.viol = std::max(e.viol, Dd[i] - du[i]);
    }
    for(size_t i = 0; i < C.size(); i++) e.feas = std::max(e.feas, std::fabs(C[i] - rhs[i])), e.viol = std::max(e.viol, std::fabs(C[i] - rhs[i]));
    auto cm = [&](const dvec& s, const dvec& z, const dvec& p) { for(size_t i = 0; i < s.size(); i++) if(p[i] != 0.) e.compl_ = std::max(e.compl_, std::fabs(s[i] * z[i])), e.bcompl = std::max(e.bcompl, std::fabs(s[i] * z[i] - m)); };
    cm(I.sxl, I.zl, ixl); cm(I.sxu, I.zu, ixu); cm(I.sdl, I.vl, idl); cm(I.sdu, I.vu, idu);
    return e;
  }
  double sd, sc;
  void scale(const Snap& I)
  {
    double nb = 0, ne = 0, k = 0;
    for(auto* v : {&I.zl, &I.zu, &I.vl, &I.vu}) for(double z : *v) nb += std::fabs(z);
    for(auto* v : {&I.yc, &I.yd}) for(double z : *v) ne += std::fabs(z);
    for(auto* v : {&F()->get_ixl(), &F()->get_ixu(), &F()->get_idl(), &F()->get_idu()}) for(double z : vec(v)) k += z != 0.;
    double m = (double)(I.yc.size() + I.yd.size());
    sd = std::min(1e8, (k + m > 0 ? std::max(smax, (nb + ne) / (k + m)) : smax) / smax);
    sc = std::min(1e8, (k > 0 ? std::max(smax, nb / k) : smax) / smax);
  }
  double relax_for(double m)
  {
    double r = e0;
    if(estrat == "mu_scaled") r = 0.995 * m; else r = (m - tol) / (mu0 - tol) * (e0 - ef) + ef;
    return std::max(ef, std::min(e0, r));
  }
  // the bounds in use are those of the user, relaxed
  void bounds(bool firstcall)
  {
    if(!expect) return;
    auto& H = *expect;
    auto one = [&](const dvec& got, const dvec& b, const dvec& ind, int sg, const dvec& sc_, const char* nm) {
      for(size_t i = 0; i < b.size(); i++) if(ind[i] != 0.) {
        double w = sc_[i] * (b[i] + sg * prelax * std::max(1., std::fabs(b[i])));
        // a slack pushed beyond a tightened bound is kept positive by moving that bound back
        if(elast && sg * (got[i] - w) > 0 && sg * (got[i] - sc_[i] * (b[i] + sg * 2 * e0 * std::max(1., std::fabs(b[i])))) <= 0) continue;
        check(std::fabs(got[i] - w) <= 1e-14 * std::fabs(w) + 1e-10 * sc_[i] * std::max(1., std::fabs(b[i])), std::string("ipm:bounds-") + nm, std::string(nm) + "[" + std::to_string(i) + "]=" + pbt::str(got[i]) + " expected " + pbt::str(w) + " (relaxation " + pbt::str(prelax) + ") in iteration " + std::to_string(n_out));
      }
    };
    one(vec(&F()->get_xl()), H.xl, H.ixl, -1, dvec(H.xl.size(), 1.), "xl"); one(vec(&F()->get_xu()), H.xu, H.ixu, 1, dvec(H.xu.size(), 1.), "xu");
    one(vec(&F()->get_dl()), H.dl, H.idl, -1, dscale, "dl"); one(vec(&F()->get_du()), H.du, H.idu, 1, dscale, "du");
  }
  dvec dscale;
  static double frac(const Snap& I, const Snap& D, double t, const dvec& ixl, const dvec& ixu, const dvec& idl, const dvec& idu, bool dual)
  {
    double a = 1.;
    auto go = [&](const dvec& s, const dvec& ds, const dvec& p) { for(size_t i = 0; i < s.size(); i++) if(p[i] != 0. && ds[i] < 0) a = std::min(a, -t * s[i] / ds[i]); };
    if(dual) { go(I.zl, D.zl, ixl); go(I.zu, D.zu, ixu); go(I.vl, D.vl, idl); go(I.vu, D.vu, idu); }
    else { go(I.sxl, D.sxl, ixl); go(I.sxu, D.sxu, ixu); go(I.sdl, D.sdl, idl); go(I.sdu, D.sdu, idu); }
    return a;
  }
  void check_mu(const char* where)
  {
    double m = this->_mu;
    if(!mugray) check(std::fabs(m - mu) <= 1e-14 * mu, "ipm:mu", std::string("barrier parameter ") + pbt::str(m) + " expected " + pbt::str(mu) + " " + where + " iteration " + std::to_string(n_out));
    else {
      bool ok = false; for(double v : mualt) ok |= std::fabs(m - v) <= 1e-14 * v;
      check(ok, "ipm:mu", std::string("barrier parameter ") + pbt::str(m) + " is not one of " + pbt::str(mualt));
      mu = m; tau = std::max(taumin, 1 - m); if(elast) prelax = m == mu_before ? prelax_before : relax_for(m);
    }
    if(m != mu_before || n_out > 1) check(std::fabs(this->_tau - tau) <= 1e-15, "ipm:tau", pbt::str(this->_tau) + " expected " + pbt::str(tau));
  }
  double mu_before = 0, prelax_before = 0; Err Ecur;
  void take_T() { T = snap(*this->it_curr); gT = vec(this->_grad_f); JcT = expand(*this->_Jac_c); JdT = expand(*this->_Jac_d); have_T = true; }
  int accept_line_search_conditions(const double th, const double tht, const double al, bool& have, double& slope) override
  {
    if(!have_T) {
      check_mu("in"); take_T();
      if(!elast) same(S, T, "ipm:iterate-changed");
      bounds(false);
    }
    D = snap(*this->dir);
    return B::accept_line_search_conditions(th, tht, al, have, slope);
  }
  static void same(const Snap& a, const Snap& b, const char* key)
  {
    const dvec *p[] = {&a.x, &a.d, &a.sxl, &a.sxu, &a.sdl, &a.sdu, &a.zl, &a.zu, &a.vl, &a.vu, &a.yc, &a.yd}, *q[] = {&b.x, &b.d, &b.sxl, &b.sxu, &b.sdl, &b.sdu, &b.zl, &b.zu, &b.vl, &b.vu, &b.yc, &b.yd};
    for(int k = 0; k < 12; k++) check(*p[k] == *q[k], key, "component " + std::to_string(k) + ": " + pbt::str(*p[k]) + " became " + pbt::str(*q[k]));
  }
  void step(const Snap& I, int ls, int num, bool soc)
  {
    dvec ixl = vec(&F()->get_ixl()), ixu = vec(&F()->get_ixu()), idl = vec(&F()->get_idl()), idu = vec(&F()->get_idu());
    if(disabled) { take_T0(); D = snap(*this->dir); }
    check(have_T, "harness:no-line-search");
    Snap E = soc ? snap(*this->dir) : D;
    double a = this->_alpha_primal, ad = this->_alpha_dual, m = this->_mu, t = this->_tau;
    std::string at = " in iteration " + std::to_string(n_out);
    // step lengths
    double amax = frac(T, E, t, ixl, ixu, idl, idu, false), dmax = frac(T, D, t, ixl, ixu, idl, idu, true);
    check(std::fabs(ad - dmax) <= 1e-13 * dmax, "ipm:alpha-dual", pbt::str(ad) + " expected " + pbt::str(dmax) + at);
    double w = amax;
    if(!soc) {
      if(mrel > 0) w *= mrel, lim++;
      else if(mabs > 0) { double nx = ninf(E.x); if(w * nx > mabs) w = mabs / nx, lim++; }
      w *= std::pow(0.5, num - 1);
    }
    if(ls > 0 || disabled) check(std::fabs(a - w) <= 1e-13 * w, "ipm:alpha-primal", pbt::str(a) + " expected " + pbt::str(w) + " (longest " + pbt::str(amax) + ", trial " + std::to_string(num) + (soc ? ", corrected" : "") + ")" + at);
    if(ls == 0 && !disabled) { E = snap(*this->dir); for(double f : {1., 2.}) { bool ok = true; for(size_t i = 0; i < I.x.size(); i++) ok &= std::fabs(I.x[i] - (T.x[i] + f * a * E.x[i])) <= 1e-14 * (std::fabs(T.x[i]) + std::fabs(f * a * E.x[i])); if(ok) return; } if(num <= 1) return; /* the trial of a second-order correction */ fail("ipm:step-x", "rejected step taken, but not along the direction" + at); }
    auto lin = [&](const dvec& n, const dvec& o, const dvec& dd, double al, const char* nm) {
      for(size_t i = 0; i < n.size(); i++) check(std::fabs(n[i] - (o[i] + al * dd[i])) <= 4e-16 * 2 * (std::fabs(o[i]) + std::fabs(al * dd[i])), std::string("ipm:step-") + nm, std::string(nm) + "[" + std::to_string(i) + "]=" + pbt::str(n[i]) + " expected " + pbt::str(o[i]) + " + " + pbt::str(al) + "*" + pbt::str(dd[i]) + at);
    };
    lin(I.x, T.x, E.x, a, "x"); lin(I.d, T.d, E.d, a, "d");
    // multipliers of the bounds
    auto bd = [&](const dvec& n, const dvec& o, const dvec& dd, const dvec& s, const dvec& p, const char* nm) {
      for(size_t i = 0; i < n.size(); i++) {
        if(p[i] == 0.) { check(n[i] == 0., std::string("ipm:step-") + nm, "multiplier of an absent bound"); continue; }
        double z = o[i] + ad * dd[i], lo = m / s[i] / 1e10, hi = m / s[i] * 1e10, r = std::max(lo, std::min(z, hi));
        check(std::fabs(n[i] - r) <= 1e-14 * std::fabs(r) + 1e-15 * (std::fabs(o[i]) + std::fabs(ad * dd[i])), std::string("ipm:step-") + nm, std::string(nm) + "[" + std::to_string(i) + "]=" + pbt::str(n[i]) + " expected " + pbt::str(r) + at);
      }
    };
    bd(I.zl, T.zl, E.zl, I.sxl, ixl, "zl"); bd(I.zu, T.zu, E.zu, I.sxu, ixu, "zu"); bd(I.vl, T.vl, E.vl, I.sdl, idl, "vl"); bd(I.vu, T.vu, E.vu, I.sdu, idu, "vu");
    // multipliers of the constraints
    double th = 0; { dvec C = vec(this->_c), Dd = vec(this->_d), rhs = vec(&F()->get_crhs()); for(size_t i = 0; i < C.size(); i++) th += std::fabs(C[i] - rhs[i]); for(size_t i = 0; i < Dd.size(); i++) th += std::fabs(Dd[i] - I.d[i]); }
    bool wantlsq = !std::is_same<B, hiopAlgFilterIPMNewton>::value && dupd == "lsq" && th <= recalc;
    if(dupd == "lsq" && grayeq(th, recalc)) return;
    int neq = (int)I.yc.size(), nin = (int)I.yd.size(), nn = (int)I.x.size();
    if(!wantlsq || neq + nin == 0) { lin(I.yc, T.yc, E.yc, a, "yc"); lin(I.yd, T.yd, E.yd, a, "yd"); return; }
    // least squares with the derivatives of the iterate the step starts from
    auto resid = [&](const dvec& yc, const dvec& yd, double& worst) {
      dvec r(nn), q(nin); double big = 1;
      for(int i = 0; i < nn; i++) { r[i] = gT[i] - I.zl[i] + I.zu[i]; double mg = std::fabs(gT[i]) + I.zl[i] + I.zu[i]; for(int j = 0; j < neq; j++) r[i] += JcT(j, i) * yc[j], mg += std::fabs(JcT(j, i) * yc[j]); for(int j = 0; j < nin; j++) r[i] += JdT(j, i) * yd[j], mg += std::fabs(JdT(j, i) * yd[j]); big = std::max(big, mg); }
      for(int j = 0; j < nin; j++) q[j] = -yd[j] - I.vl[j] + I.vu[j], big = std::max(big, std::fabs(yd[j]) + I.vl[j] + I.vu[j]);
      worst = 0; double na = 1;
      for(double v : JcT.a) na = std::max(na, std::fabs(v)); for(double v : JdT.a) na = std::max(na, std::fabs(v));
      for(int j = 0; j < neq; j++) { double s = 0; for(int i = 0; i < nn; i++) s += JcT(j, i) * r[i]; worst = std::max(worst, std::fabs(s)); }
      for(int j = 0; j < nin; j++) { double s = -q[j]; for(int i = 0; i < nn; i++) s += JdT(j, i) * r[i]; worst = std::max(worst, std::fabs(s)); }
      worst /= na * big * (nn + nin);
    };
    double wst; resid(I.yc, I.yd, wst);
    lsq++;
    if(wst > 1e-10) {
      // a singular least squares problem leaves the step along the direction
      bool linear = true; for(int j = 0; j < neq; j++) linear &= std::fabs(I.yc[j] - (T.yc[j] + a * E.yc[j])) <= 1e-14 * (std::fabs(T.yc[j]) + std::fabs(a * E.yc[j])); for(int j = 0; j < nin; j++) linear &= std::fabs(I.yd[j] - (T.yd[j] + a * E.yd[j])) <= 1e-14 * (std::fabs(T.yd[j]) + std::fabs(a * E.yd[j]));
      // rank of [Jc 0; Jd -I]: Cholesky of the normal matrix with the smallest pivot
      int M = neq + nin; RM G(M, M); auto row = [&](int j, int i) { return j < neq ? (i < nn ? JcT(j, i) : 0.) : (i < nn ? JdT(j - neq, i) : i - nn == j - neq ? -1. : 0.); };
      double gm = 0; for(int p = 0; p < M; p++) for(int q = 0; q < M; q++) { double s = 0; for(int i = 0; i < nn + nin; i++) s += row(p, i) * row(q, i); G(p, q) = s; gm = std::max(gm, std::fabs(s)); }
      double piv = INF; for(int k = 0; k < M; k++) { piv = std::min(piv, G(k, k)); if(G(k, k) <= 0) break; for(int i = k + 1; i < M; i++) for(int j = k + 1; j < M; j++) G(i, j) -= G(i, k) * G(k, j) / G(k, k); }
      bool singular = !(piv > 1e-12 * gm);
      check(singular || linear == false, "ipm:lsq-not-done", "the multipliers were not recomputed although the infeasibility " + pbt::str(th) + " is below " + pbt::str(recalc) + at);
      check(singular, "ipm:lsq", "multipliers yc=" + pbt::str(I.yc) + " yd=" + pbt::str(I.yd) + " do not solve the least squares problem (relative residual " + pbt::str(wst) + ")" + at);
    }
  }
  void take_T0() { if(!have_T) { T = S; have_T = true; gT = gS; JcT = JcS; JdT = JdS; check_mu("after"); } }
  dvec gS; RM JcS, JdS;
  void outputIteration(int ls, int num, int use_soc, int use_fr) override
  {
    Snap I = snap(*this->it_curr);
    n_out++;
    check(!terminal, "term:goes-on", "iteration " + std::to_string(n_out) + " although the run should have ended with status " + std::to_string(pred));
    check(this->iter_num_ == n_out - 1, "ipm:iteration-number", std::to_string(this->iter_num_) + " expected " + std::to_string(n_out - 1));
    if(ls == -1) { mu = mu0; tau = std::max(taumin, 1 - mu0); }
    else {
      if(use_fr) { check(!disabled || fresto, "ipm:restoration-instead-of-step", "accept_every_trial_step=yes"); frs++; if(!have_T) check_mu("after"); }
      else { step(I, ls, num, use_soc); steps++; socs += use_soc; }
      // mu is not changed by the step
      if(!mugray) check(this->_mu == mu || std::fabs(this->_mu - mu) <= 1e-14 * mu, "ipm:mu", "barrier parameter changed after the step: " + pbt::str(this->_mu) + " expected " + pbt::str(mu)); else mu = this->_mu;
    }
    bounds(ls == -1);
    // slacks
    auto sl = [&](const dvec& s, const dvec& x, const dvec& b, const dvec& p, int sg, const char* nm) {
      for(size_t i = 0; i < s.size(); i++) {
        if(p[i] == 0.) { check(s[i] == 0., std::string("ipm:slack-") + nm, "slack of an absent bound"); continue; }
        double w = sg * (x[i] - b[i]);
        check(s[i] > 0., std::string("ipm:slack-") + nm, "not positive: " + pbt::str(s[i]));
        if(elast && (elastic == "tighten_bound" || w < 1e-8 * std::max(1., std::fabs(b[i])))) continue;
        check(std::fabs(s[i] - w) <= 1e-15 * 4 * (std::fabs(x[i]) + std::fabs(b[i])) + (ls == -1 ? 1e-10 : 1e-11) * std::max(1., std::fabs(b[i])) * (w < 1e-9 * std::max(1., std::fabs(b[i]))), std::string("ipm:slack-") + nm, std::string(nm) + "[" + std::to_string(i) + "]=" + pbt::str(s[i]) + " expected " + pbt::str(w) + " in iteration " + std::to_string(n_out));
      }
    };
    dvec ixl = vec(&F()->get_ixl()), ixu = vec(&F()->get_ixu()), idl = vec(&F()->get_idl()), idu = vec(&F()->get_idu());
    sl(I.sxl, I.x, vec(&F()->get_xl()), ixl, 1, "sxl"); sl(I.sxu, I.x, vec(&F()->get_xu()), ixu, -1, "sxu"); sl(I.sdl, I.d, vec(&F()->get_dl()), idl, 1, "sdl"); sl(I.sdu, I.d, vec(&F()->get_du()), idu, -1, "sdu");
    // errors
    scale(I);
    Ecur = errors(I, this->_mu);
    auto ce = [&](double got, double want, double mg, const char* nm) { check(std::fabs(got - want) <= 1e-12 * (std::fabs(want) + mg), std::string("ipm:error-") + nm, pbt::str(got) + " expected " + pbt::str(want) + " in iteration " + std::to_string(n_out)); };
    double cmag = ninf(vec(this->_c)) + ninf(vec(this->_d)) + ninf(vec(&F()->get_crhs())) + ninf(I.d) + 1e-3;
    ce(this->_err_nlp_optim, Ecur.optim, Ecur.mag, "dual"); ce(this->_err_nlp_feas, Ecur.feas, cmag, "primal"); ce(this->_err_nlp_complem, Ecur.compl_, 0, "compl"); ce(this->_err_cons_violation, Ecur.viol, cmag, "violation");
    ce(this->_err_log_optim, Ecur.boptim, Ecur.mag, "log-dual"); ce(this->_err_log_feas, Ecur.feas, cmag, "log-primal"); ce(this->_err_log_complem, Ecur.bcompl, this->_mu + Ecur.compl_, "log-compl");
    ce(this->_err_nlp, std::max(Ecur.optim / sd, std::max(Ecur.viol, Ecur.compl_ / sc)), Ecur.mag / sd + cmag, "overall");
    ce(this->_err_log, std::max(Ecur.boptim / sd, std::max(Ecur.viol, Ecur.bcompl / sc)), Ecur.mag / sd + cmag + this->_mu, "log-overall");
    c << "  iter " << this->iter_num_ << " mu " << this->_mu << " err " << this->_err_nlp << " (" << this->_err_nlp_optim << " " << this->_err_nlp_feas << " " << this->_err_nlp_complem << ") log " << this->_err_log << " alpha " << this->_alpha_primal << " " << this->_alpha_dual << " ls " << ls << "/" << num << (use_soc ? " soc" : "") << (use_fr ? " fr" : "") << "\n";
    // termination, from the errors reported
    if(ls == -1) { o0 = this->_err_nlp_optim; f0 = this->_err_nlp_feas; c0 = this->_err_nlp_complem; }
    pred = 0;
    if(this->_err_nlp <= tol && this->_err_nlp_optim <= dtol && this->_err_cons_violation <= ptol && this->_err_nlp_complem <= ctol) pred = Solve_Success, terminal = true;
    else if(n_out - 1 >= maxit) pred = Max_Iter_Exceeded, terminal = true;
    else if(rtol > 0 && this->_err_nlp_optim <= rtol * o0 && this->_err_nlp_feas <= rtol * f0 && this->_err_nlp_complem <= std::max(rtol, 1e-6) * std::min(1., c0)) pred = Solve_Success_RelTol, terminal = true;
    else {
      if(this->_err_nlp <= atol) nacc++, acc++; else nacc = 0;
      if(nacc >= anum) pred = Solve_Acceptable_Level, terminal = true;
    }
    if(terminal) return;
    // the barrier parameter the next step must use
    mu_before = mu; prelax_before = prelax; mugray = false; mualt.assign(1, mu);
    double e = std::max(Ecur.boptim / sd, std::max(Ecur.viol, Ecur.bcompl / sc)), m = mu, tsave = tau;
    for(int k = 0; k < 500; k++) {
      double mg = 1e-12 * (Ecur.mag / sd + cmag + m);
      if(std::fabs(e - keps * m) <= 1e-9 * keps * m + mg) mugray = true;
      if(!mugray && e > keps * m) break;
      double nm = std::max(std::min(this->kappa_mu * m, std::pow(m, this->theta_mu)), std::min(tol, ctol / F()->get_obj_scale()) / 11.);
      if(std::fabs(nm - m) < 1e-16) break;
      if(std::fabs(std::fabs(nm - m) - 1e-16) < 1e-18) mugray = true;
      m = nm; mualt.push_back(m);
      if(elast) break;
      Err E2 = errors(I, m); e = std::max(E2.boptim / sd, std::max(E2.viol, E2.bcompl / sc));
      if(mugray && mualt.size() > 100) break;
    }
    if(!mugray && m != mu) { mu = m; tau = std::max(taumin, 1 - m); mus++; if(elast) { prelax = relax_for(m); tight += prelax != prelax_before; } }
    (void)tsave;
    S = I; gS = vec(this->_grad_f); JcS = expand(*this->_Jac_c); JdS = expand(*this->_Jac_d); have_T = false;
  }
};

std::vector<Opt> more_opts(Ctx& c, bool mds)
{
  std::vector<Opt> o;
  if(c.chance(1, 4)) o.push_back(od("kappa_eps", c.pick<double>({10., 1., 30., 0.1})));
  if(c.chance(1, 4)) o.push_back(od("smax", c.pick<double>({100., 1., 10., 1000.})));
  if(c.chance(1, 5)) o.push_back(od("kappa_soc", c.pick<double>({0.99, 0.5, 0.1})));
  if(!mds && c.chance(1, 4)) o.push_back(od("recalc_lsq_duals_tol", c.pick<double>({1e-6, 1e-2, 1e2, 0.})));
  if(c.chance(1, 4)) { if(c.flip()) o.push_back(od("moving_lim_abs", c.pick<double>({0.1, 1., 0.01}))); else o.push_back(od("moving_lim_rel", c.pick<double>({0.5, 0.9, 0.1}))); }
  if(c.chance(1, 3)) o.push_back(oi("acceptable_iterations", (int)c.pick<int>({1, 2, 3, 10, 15})));
  if(c.chance(1, 3)) o.push_back(od("acceptable_tolerance", c.pick<double>({1e-6, 1e-4, 1e-2, 1.})));
  if(c.chance(1, 5)) o.push_back(od("rel_tolerance", c.pick<double>({1e-3, 1e-6, 1e-1})));
  if(c.chance(1, 8)) o.push_back(od("cons_tol", c.pick<double>({1e-10, 1e-4})));
  if(c.chance(1, 3)) {
    o.push_back(os("elastic_mode", c.pick<std::string>({"tighten_bound", "correct_it", "correct_it_adjust_bound"})));
    if(c.flip()) o.push_back(os("elastic_bound_strategy", c.flip() ? "mu_projected" : "mu_scaled"));
    if(c.flip()) o.push_back(od("elastic_mode_bound_relax_initial", c.pick<double>({1e-2, 1e-1, 1e-4})));
    if(c.flip()) o.push_back(od("elastic_mode_bound_relax_final", c.pick<double>({1e-12, 1e-8, 1e-6})));
  } else if(c.chance(1, 12)) o.push_back(os("accept_every_trial_step", "yes"));
  if(c.chance(1, 8)) o.push_back(od("min_step_size", c.pick<double>({1e-16, 1e-3, 0.3})));
  return o;
}
template<class B, class N> void steps(Ctx& c, bool mds, bool term)
{
  GenOpt g; g.mds = mds; g.fixed = c.chance(1, 5); g.allow_lp = true;
  Prob P = c.chance(1, 2) ? gen_convex(c, g) : gen_nonconvex(c, g);
  if(sp_mode() == 3) drop_equalities(P);
  if(c.chance(1, 4)) for(auto& v : P.x0) v *= c.pick<double>({3., 20.});
  auto o = gen_opts(c, mds);
  for(auto& e : more_opts(c, mds)) o.push_back(e);
  if(!g.fixed && c.chance(1, 6)) o.push_back(od("bound_relax_perturb", 0.));
  o.push_back(oi("max_iter", (int)c.range(term ? 3 : 10, 120)));
  User U(P);
  U.one_call = c.flip(); U.start_mode = c.chance(1, 4) ? 0 : 1;
  c << itf_name(mds) << "start_mode=" << U.start_mode << " opts: " << str(o) << "\n" << str(P);
  // what the bounds should be, unrelaxed
  auto o2 = o; o2.push_back(od("bound_relax_perturb", 0.)); o2.push_back(od("fixed_var_perturb", 1e-16));
  User V(P); Form H(mds ? MDS : DENSE, P, V, o2); H.expect();
  for(int i = 0; i < H.n(); i++) { int u = H.keep[i]; H.xl[i] = P.xl[u]; H.xu[i] = P.xu[u]; }
  Scal Sc = scaling(P, U.start_mode == 0 ? dvec(P.n, 0.) : P.x0, o);
  typedef Step<B, N> A_; A_* A = nullptr;
  Session S(U, mds, o, [&](hiopNlpFormulation* n) { return A = new A_((N*)n, c, U); });
  A->expect = &H; for(int j : H.in) A->dscale.push_back(Sc.con[j]);
  Result r = S.run();
  c.label("status" + std::to_string(r.status));
  if(A->mus) c.label("mu-reduced"); if(A->lsq) c.label("lsq"); if(A->lim) c.label("limited"); if(A->frs) c.label("restored"); if(A->socs) c.label("soc"); if(A->tight) c.label("tightened");
  if(A->terminal) check(r.status == A->pred, "term:status", "the run ended with status " + std::to_string(r.status) + ", its errors call for " + std::to_string(A->pred));
  else check(r.status != Solve_Success && r.status != Solve_Success_RelTol && r.status != Solve_Acceptable_Level && r.status != Max_Iter_Exceeded, "term:status", "the run ended with status " + std::to_string(r.status) + ", which its errors do not justify");
  if(term) c.nontrivial(r.status == Solve_Acceptable_Level || r.status == Solve_Success_RelTol || r.status == Max_Iter_Exceeded || A->acc > 0);
  else c.nontrivial(A->steps >= 3 && A->mus >= 2 && P.m > 0);
}
}
PBT_TARGET(ipm_dense) { steps<hiopAlgFilterIPMQuasiNewton, hiopNlpDenseConstraints>(c, false, false); }
PBT_TARGET(ipm_mds) { steps<hiopAlgFilterIPMNewton, hiopNlpFormulation>(c, true, false); }
PBT_TARGET(term_dense) { steps<hiopAlgFilterIPMQuasiNewton, hiopNlpDenseConstraints>(c, false, true); }
PBT_TARGET(term_mds) { steps<hiopAlgFilterIPMNewton, hiopNlpFormulation>(c, true, true); }
#ifdef HIOP_SPARSE
PBT_TARGET(ipm_spineq) { sp_mode() = 3; steps<hiopAlgFilterIPMNewton, hiopNlpFormulation>(c, true, false); }
PBT_TARGET(ipm_spdiag) { sp_mode() = 4; steps<hiopAlgFilterIPMNewton, hiopNlpFormulation>(c, true, false); }
PBT_TARGET(ipm_sparse) { sp_mode() = 1; steps<hiopAlgFilterIPMNewton, hiopNlpFormulation>(c, true, false); }
PBT_TARGET(term_spineq) { sp_mode() = 3; steps<hiopAlgFilterIPMNewton, hiopNlpFormulation>(c, true, true); }
PBT_TARGET(term_sparse) { sp_mode() = 1; steps<hiopAlgFilterIPMNewton, hiopNlpFormulation>(c, true, true); }
#endif
