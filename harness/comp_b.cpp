// C13: barrier, residual and complementarity quantities; C14: interior iterates, step lengths, safe slacks
#include "comp_host.hpp"

namespace {
void bar_case(Ctx& c, Kind kind)
{
  Host H; make_host(c, H, kind);
  auto& N = *H.N;
  int n = H.n, me = H.me, mi = H.mi, style = (int)c.range(0, 2);
  N.runStats.initialize();
  hiopIterate it(&N), it2(&N);
  hiopLogBarProblem lb(&N);
  hiopResidual R(&N), R2(&N);
  std::unique_ptr<hiopMatrix> Jc(N.alloc_Jac_c()), Jd(N.alloc_Jac_d());
  VP gv(N.alloc_primal_vec()), cv(N.alloc_dual_eq_vec()), dv(N.alloc_dual_ineq_vec()), xx(N.alloc_primal_vec());
  int rounds = (int)c.range(1, 3);
  bool interesting = false;
  for(int r = 0; r < rounds; r++) {
    double mu = std::pow(10., -c.uni(0, 9)), kd = c.pick<double>({1e-5, 0., 1e-2, 0.3});
    set(*xx, gvec(c, n, 0));
    check(N.eval_Jac_c_d(*xx, true, *Jc, *Jd), "bar:jac");
    RM A = expand(*Jc), B = expand(*Jd);
    ItV v = gen_it(c, H, style);
    double f = gval(c, style);
    dvec g = gvec(c, n, style), cb = gvec(c, me, style), db = gvec(c, mi, style);
    if(c.chance(1, 4)) {  // a consistent point: slacks and d agree
      db = v.d; cb = H.crhs;
    }
    if(c.chance(1, 3) && mi) {  // body outside its bounds on one side only
      int j = (int)c.draw(mi - 1);
      if(H.idl[j] != 0.) db[j] = H.dl[j] - 3.; else if(H.idu[j] != 0.) db[j] = H.du[j] + 5.;
    }
    put(it, v); set(*gv, g); set(*cv, cb); set(*dv, db);
    c << "mu=" << mu << " kappa_d=" << kd << " f=" << f << " grad=" << pbt::str(g) << " c=" << pbt::str(cb) << " d=" << pbt::str(db) << "\n" << its(v);
    lb.kappa_d = kd;
    // ---- log-barrier problem
    auto value = [&](const ItV& w, double ff) {
      Acc a; a.add(ff);
      auto logs = [&](const dvec& s, const dvec& p) { for(size_t i = 0; i < s.size(); i++) if(p[i] != 0.) a.add(-mu * std::log(s[i])); };
      logs(w.sxl, H.ixl); logs(w.sxu, H.ixu); logs(w.sdl, H.idl); logs(w.sdu, H.idu);
      auto dm = [&](const dvec& s, const dvec& p, const dvec& q) { for(size_t i = 0; i < s.size(); i++) if(p[i] != 0. && q[i] == 0.) a.add(mu * kd * s[i]); };
      if(kd > 0) { dm(w.sxl, H.ixl, H.ixu); dm(w.sxu, H.ixu, H.ixl); dm(w.sdl, H.idl, H.idu); dm(w.sdu, H.idu, H.idl); }
      return a;
    };
    lb.updateWithNlpInfo(it, mu, f, *cv, *dv, *gv, *Jc, *Jd);
    check(lb.mu == mu, "bar:mu");
    cmp(lb.f_logbar, value(v, f), "f_logbar");
    std::vector<Acc> gx(n), gd(mi);
    for(int i = 0; i < n; i++) { gx[i].add(g[i]); if(H.ixl[i] != 0.) gx[i].add(-mu / v.sxl[i]); if(H.ixu[i] != 0.) gx[i].add(mu / v.sxu[i]); gx[i].add(kd * mu * damp(H.ixl[i], H.ixu[i])); }
    for(int i = 0; i < mi; i++) { if(H.idl[i] != 0.) gd[i].add(-mu / v.sdl[i]); if(H.idu[i] != 0.) gd[i].add(mu / v.sdu[i]); gd[i].add(kd * mu * damp(H.idl[i], H.idu[i])); }
    cmpv(*lb._grad_x_logbar, gx, "grad_x_logbar"); cmpv(*lb._grad_d_logbar, gd, "grad_d_logbar");
    ItV w = gen_it(c, H, style);
    for(auto* s : {&w.x, &w.d}) for(auto& e : *s) e = gval(c, style);
    put(it2, w);
    double ft = gval(c, style);
    lb.updateWithNlpInfo_trial_funcOnly(it2, ft, *cv, *dv);
    cmp(lb.f_logbar_trial, value(w, ft), "f_logbar_trial");
    cmp(lb.f_logbar, value(v, f), "f_logbar-after-trial");
    {
      Acc a; for(int i = 0; i < n; i++) { a.v += gx[i].v * w.x[i]; a.m += gx[i].m * std::fabs(w.x[i]); } for(int i = 0; i < mi; i++) { a.v += gd[i].v * w.d[i]; a.m += gd[i].m * std::fabs(w.d[i]); }
      cmp(lb.directionalDerivative(it2), a, "directional-derivative", 60);
    }
    // individual terms
    {
      Acc a; auto logs = [&](const dvec& s, const dvec& p) { for(size_t i = 0; i < s.size(); i++) if(p[i] != 0.) a.add(std::log(s[i])); };
      logs(v.sxl, H.ixl); logs(v.sxu, H.ixu); logs(v.sdl, H.idl); logs(v.sdu, H.idu);
      cmp(it.evalLogBarrier(), a, "evalLogBarrier");
      double beta = c.pick<double>({1., -1., 2.});
      VP t1(N.alloc_primal_vec()), t2(N.alloc_dual_ineq_vec());
      dvec b1 = gvec(c, n, style), b2 = gvec(c, mi, style);
      set(*t1, b1); set(*t2, b2);
      lb.addNonLogBarTermsToGrad_x(beta, *t1); lb.addNonLogBarTermsToGrad_d(beta, *t2);
      std::vector<Acc> e1(n), e2(mi);
      for(int i = 0; i < n; i++) { e1[i].add(b1[i]); e1[i].add(beta * kd * mu * damp(H.ixl[i], H.ixu[i])); }
      for(int i = 0; i < mi; i++) { e2[i].add(b2[i]); e2[i].add(beta * kd * mu * damp(H.idl[i], H.idu[i])); }
      cmpv(*t1, e1, "damping-x"); cmpv(*t2, e2, "damping-d");
      Acc nb, ne; auto o1 = [&](Acc& q, const dvec& s) { for(double z : s) q.add(std::fabs(z)); };
      o1(nb, v.zl); o1(nb, v.zu); o1(nb, v.vl); o1(nb, v.vu); o1(ne, v.yc); o1(ne, v.yd);
      double ge, gb; it.normOneOfDuals(ge, gb); cmp(ge, ne, "norm1-eq-duals"); cmp(gb, nb, "norm1-bound-duals");
      cmp(it.normOneOfBoundDuals(), nb, "norm1-bound-duals2");
    }
    // ---- residuals
    std::vector<Acc> rx(n), rxd(n), rd(mi), rdd(mi), ryc(me), ryd(mi), rxl(n), rxu(n), rdl(mi), rdu(mi), cl(n), cu(n), dl(mi), du(mi), sl(n), su(n), vl(mi), vu(mi);
    for(int i = 0; i < n; i++) {
      auto& a = rx[i]; a.add(-g[i]);
      for(int j = 0; j < me; j++) a.add(-A(j, i) * v.yc[j]);
      for(int j = 0; j < mi; j++) a.add(-B(j, i) * v.yd[j]);
      a.add(v.zl[i]); a.add(-v.zu[i]);
      rxd[i] = a; rxd[i].add(-kd * mu * damp(H.ixl[i], H.ixu[i]));
      if(H.ixl[i] != 0.) { rxl[i].add(v.x[i]); rxl[i].add(-v.sxl[i]); rxl[i].add(-H.xl[i]); cl[i].add(-v.sxl[i] * v.zl[i]); sl[i] = cl[i]; sl[i].add(mu); }
      if(H.ixu[i] != 0.) { rxu[i].add(H.xu[i]); rxu[i].add(-v.x[i]); rxu[i].add(-v.sxu[i]); cu[i].add(-v.sxu[i] * v.zu[i]); su[i] = cu[i]; su[i].add(mu); }
    }
    for(int i = 0; i < mi; i++) {
      rd[i].add(v.yd[i]); rd[i].add(v.vl[i]); rd[i].add(-v.vu[i]);
      rdd[i] = rd[i]; rdd[i].add(-kd * mu * damp(H.idl[i], H.idu[i]));
      ryd[i].add(v.d[i]); ryd[i].add(-db[i]);
      if(H.idl[i] != 0.) { rdl[i].add(v.d[i]); rdl[i].add(-v.sdl[i]); rdl[i].add(-H.dl[i]); dl[i].add(-v.sdl[i] * v.vl[i]); vl[i] = dl[i]; vl[i].add(mu); }
      if(H.idu[i] != 0.) { rdu[i].add(H.du[i]); rdu[i].add(-v.d[i]); rdu[i].add(-v.sdu[i]); du[i].add(-v.sdu[i] * v.vu[i]); vu[i] = du[i]; vu[i].add(mu); }
    }
    for(int j = 0; j < me; j++) { ryc[j].add(H.crhs[j]); ryc[j].add(-cb[j]); }
    double cviol = ninf_(ryc);
    for(int j = 0; j < mi; j++) { if(H.idl[j] != 0.) cviol = std::max(cviol, H.dl[j] - db[j]); if(H.idu[j] != 0.) cviol = std::max(cviol, db[j] - H.du[j]); }
    bool soc = c.chance(1, 4);
    dvec cs = gvec(c, me, style), ds = gvec(c, mi, style);
    if(soc) {
      VP a = like(*cv, cs), b = like(*dv, ds);
      for(int j = 0; j < me; j++) { ryc[j] = Acc(); ryc[j].add(cs[j]); }
      for(int j = 0; j < mi; j++) { ryd[j] = Acc(); ryd[j].add(ds[j]); }
      c << "soc c=" << pbt::str(cs) << " d=" << pbt::str(ds) << "\n";
      R.update_soc(it, *a, *b, *gv, *Jc, *Jd, lb);
    } else R.update(it, f, *cv, *dv, *gv, *Jc, *Jd, lb);
    hiopResidual* Rp = &R;
    if(c.chance(1, 3)) { R2.copyFrom(R); Rp = &R2; c << "copied\n"; }
    hiopResidual& Q = *Rp;
    auto comps = [&] {
      cmpv(*Q.get_rxl(), rxl, "rxl"); cmpv(*Q.get_rxu(), rxu, "rxu"); cmpv(*Q.get_rdl(), rdl, "rdl"); cmpv(*Q.get_rdu(), rdu, "rdu");
      cmpv(*Q.get_ryc(), ryc, "ryc"); cmpv(*Q.get_ryd(), ryd, "ryd");
    };
    comps();
    cmpv(*Q.get_rx(), rxd, "rx"); cmpv(*Q.get_rd(), rdd, "rd");
    cmpv(*Q.get_rszl(), sl, "rszl"); cmpv(*Q.get_rszu(), su, "rszu"); cmpv(*Q.get_rsvl(), vl, "rsvl"); cmpv(*Q.get_rsvu(), vu, "rsvu");
    auto inf = [&](double got, std::initializer_list<std::vector<Acc>*> l, const char* key) {
      double wv = 0, t = 0; for(auto* p : l) { wv = std::max(wv, ninf_(*p)); t = std::max(t, tmax(*p)); }
      pbt::close_val(got, wv, 40 * EPS * t, std::string("bar:") + key);
    };
    double no, nf, nc, nv, bo, bf, bc;
    Q.getNlpErrors(no, nf, nc, nv); Q.getBarrierErrors(bo, bf, bc);
    inf(no, {&rx, &rd}, "nlp-optim"); inf(nf, {&ryc, &ryd}, "nlp-feasib"); inf(nc, {&cl, &cu, &dl, &du}, "nlp-complem");
    inf(bo, {&rxd, &rdd}, "bar-optim"); inf(bf, {&ryc, &ryd}, "bar-feasib"); inf(bc, {&sl, &su, &vl, &vu}, "bar-complem");
    inf(Q.getInfeasInfNorm(), {&ryc, &ryd}, "infeas-inf");
    if(!soc) pbt::close_val(nv, cviol, 8 * EPS * (std::fabs(cviol) + ninf(H.crhs) + ninf(cb) + ninf(db) + 1e3), "bar:cons-violation");
    cmp(Q.get_theta(), plus(one(ryc), one(ryd)), "theta");
    cmp(Q.get_nrmOne_nlp_feasib(), plus(one(ryc), one(ryd)), "one-nlp-feasib"); cmp(Q.get_nrmOne_bar_feasib(), plus(one(ryc), one(ryd)), "one-bar-feasib");
    cmp(Q.get_nrmOne_nlp_optim(), plus(one(rx), one(rd)), "one-nlp-optim"); cmp(Q.get_nrmOne_bar_optim(), plus(one(rxd), one(rdd)), "one-bar-optim");
    same_it(it, v, "bar:residual-modifies-iterate");
    if(c.flip()) {  // infeasibility at another point; does not touch the stored norms
      dvec c3 = gvec(c, me, style), d3 = gvec(c, mi, style);
      set(*cv, c3); set(*dv, d3);
      Acc a; for(int j = 0; j < me; j++) { a.m += std::fabs(H.crhs[j]) + std::fabs(c3[j]); a.v += std::fabs(H.crhs[j] - c3[j]); } for(int j = 0; j < mi; j++) { a.m += std::fabs(w.d[j]) + std::fabs(d3[j]); a.v += std::fabs(w.d[j] - d3[j]); }
      cmp(Q.compute_nlp_infeasib_onenorm(it2, *cv, *dv), a, "infeasib-onenorm");
      cmp(Q.get_theta(), plus(one(ryc), one(ryd)), "theta-after-trial");
      inf(Q.getInfeasInfNorm(), {&ryc, &ryd}, "infeas-inf-after-trial");
    }
    bool onesided = false, two = false;
    for(int i = 0; i < n; i++) { onesided |= damp(H.ixl[i], H.ixu[i]) != 0; two |= H.ixl[i] != 0 && H.ixu[i] != 0; }
    interesting |= onesided && (two || mi > 0) && kd > 0;
    if(soc) c.label("soc");
  }
  c.nontrivial(interesting && me + mi > 0);
}

// ---- C14
void step_case(Ctx& c, Kind kind)
{
  bool tight = c.chance(1, 3);
  Host H; make_host(c, H, kind, {}, tight);
  auto& N = *H.N;
  int n = H.n, mi = H.mi;
  hiopIterate it(&N), dir(&N), tr(&N);
  int nops = (int)c.range(2, 6); bool nt = false;
  dvec Xl = H.xl, Xu = H.xu, Dl = H.dl, Du = H.du;  // current bounds
  auto check_proj = [&](const dvec& before, const hiopVector& after, const dvec& l, const dvec& pl, const dvec& u, const dvec& pu, double k1, double k2) {
    for(size_t i = 0; i < before.size(); i++) {
      double a = after.local_data_const()[i], b = before[i];
      std::string w = "entry " + std::to_string(i) + ": " + pbt::str(dvec{b}) + " projected to " + pbt::str(dvec{a}) + " bounds [" + (pl[i] != 0. ? pbt::str(dvec{l[i]}) : "-inf") + ", " + (pu[i] != 0. ? pbt::str(dvec{u[i]}) : "inf") + "]";
      if(pl[i] != 0.) check(a > l[i], "step:proj-not-interior", w);
      if(pu[i] != 0.) check(a < u[i], "step:proj-not-interior", w);
      double sl = k1 * std::max(1., std::fabs(l[i])), su = k1 * std::max(1., std::fabs(u[i]));
      if(pl[i] != 0. && pu[i] != 0.) { sl = std::min(sl, k2 * (u[i] - l[i])); su = std::min(su, k2 * (u[i] - l[i])); }
      double lo = pl[i] != 0. ? l[i] + sl : -INF, up = pu[i] != 0. ? u[i] - su : INF;
      double slop = 4 * EPS * ((pl[i] != 0. ? std::fabs(l[i]) + sl : 0.) + (pu[i] != 0. ? std::fabs(u[i]) + su : 0.) + 1.);
      if(b > lo + slop && b < up - slop) { check(a == b, "step:proj-moved-interior", w); continue; }
      double want = std::min(std::max(b, lo), up);
      double g = slop;
      if(pl[i] != 0. && pu[i] != 0. && u[i] - l[i] < 1e3 * slop) g = u[i] - l[i];  // no room to be precise
      check(std::fabs(a - want) <= g, "step:proj-value", w);
    }
  };
  for(int q = 0; q < nops; q++) {
    int style = (int)c.range(0, 2);
    switch(c.draw(6)) {
    case 0: case 1: {
      double k1 = c.pick<double>({1e-2, 1e-16, 1e-8, 1., 1e-4}), k2 = c.pick<double>({1e-2, 1e-16, 0.49999, 1e-8, 0.25});
      auto around = [&](const dvec& l, const dvec& pl, const dvec& u, const dvec& pu) {
        dvec x(l.size());
        for(size_t i = 0; i < x.size(); i++) {
          double base = pl[i] != 0. && (pu[i] == 0. || c.flip()) ? l[i] : pu[i] != 0. ? u[i] : c.moderate();
          switch(c.draw(4)) { case 0: x[i] = base; break; case 1: x[i] = base + c.moderate() * k1; break; case 2: x[i] = base + c.moderate(); break; case 3: x[i] = c.num(); break; default: x[i] = pl[i] != 0. && pu[i] != 0. ? 0.5 * (l[i] + u[i]) : base; }
          if(!(std::fabs(x[i]) < 1e15)) x[i] = 0;
        }
        return x;
      };
      dvec x = around(Xl, H.ixl, Xu, H.ixu), d = around(Dl, H.idl, Du, H.idu);
      ItV v = gen_it(c, H, style); v.x = x; v.d = d; put(it, v);
      c << "project kappa1=" << k1 << " kappa2=" << k2 << " x=" << pbt::str(x) << " d=" << pbt::str(d) << "\n";
      it.projectPrimalsXIntoBounds(k1, k2); it.projectPrimalsDIntoBounds(k1, k2);
      check_proj(x, *it.get_x(), Xl, H.ixl, Xu, H.ixu, k1, k2); check_proj(d, *it.get_d(), Dl, H.idl, Du, H.idu, k1, k2);
      dvec xa = get(*it.get_x()), da = get(*it.get_d());
      it.determineSlacks();
      auto slk = [&](const hiopVector& s, const dvec& z, const dvec& b, const dvec& p, int sg, const char* nm) {
        for(size_t i = 0; i < z.size(); i++) {
          double w = p[i] != 0. ? sg * (z[i] - b[i]) : 0.;
          check(s.local_data_const()[i] == w, "step:slacks", std::string(nm) + "[" + std::to_string(i) + "] is " + pbt::str(dvec{s.local_data_const()[i]}) + " expected " + pbt::str(dvec{w}));
        }
      };
      slk(*it.get_sxl(), xa, Xl, H.ixl, 1, "sxl"); slk(*it.get_sxu(), xa, Xu, H.ixu, -1, "sxu"); slk(*it.get_sdl(), da, Dl, H.idl, 1, "sdl"); slk(*it.get_sdu(), da, Du, H.idu, -1, "sdu");
      // duals of the slacks of d
      double mu = std::pow(10., -c.uni(0, 9));
      it.determineDualsBounds_d(mu);
      dvec sdl = get(*it.get_sdl()), sdu = get(*it.get_sdu());
      for(int i = 0; i < mi; i++) {
        double a = H.idl[i] != 0. ? mu / sdl[i] : 0., b = H.idu[i] != 0. ? mu / sdu[i] : 0.;
        pbt::close_val(it.get_vl()->local_data_const()[i], a, 4 * EPS * a, "step:duals-vl"); pbt::close_val(it.get_vu()->local_data_const()[i], b, 4 * EPS * b, "step:duals-vu");
      }
      double val = c.pick<double>({1., 0.5, 1e-3});
      it.setBoundsDualsToConstant(val); it.setEqualityDualsToConstant(0.25);
      auto cst = [&](const hiopVector& z, const dvec& p, const char* nm) { dvec w(p); for(auto& e : w) e *= val; pbt::eq_arr(z.local_data_const(), w, std::string("step:const-") + nm); };
      cst(*it.get_zl(), H.ixl, "zl"); cst(*it.get_zu(), H.ixu, "zu"); cst(*it.get_vl(), H.idl, "vl"); cst(*it.get_vu(), H.idu, "vu");
      pbt::eq_arr(it.get_yc()->local_data_const(), dvec(H.me, 0.25), "step:const-yc"); pbt::eq_arr(it.get_yd()->local_data_const(), dvec(mi, 0.25), "step:const-yd");
      pbt::eq_arr(it.get_x()->local_data_const(), xa, "step:x-modified"); pbt::eq_arr(it.get_d()->local_data_const(), da, "step:d-modified");
      nt = true;
      break; }
    case 2: case 3: {  // fraction to the boundary and the step itself
      ItV v = gen_it(c, H, style), w = gen_it(c, H, style);
      double neg = c.pick<double>({0.5, 0.1, 0.9, 0.});
      auto sgn = [&](dvec& s, const dvec& p, const dvec& base) { for(size_t i = 0; i < s.size(); i++) if(p[i] != 0.) { if(c.uni(0, 1) < neg) s[i] = -s[i]; if(c.chance(1, 12)) s[i] = 0.; if(c.chance(1, 12)) s[i] = -base[i]; } };
      sgn(w.sxl, H.ixl, v.sxl); sgn(w.sxu, H.ixu, v.sxu); sgn(w.sdl, H.idl, v.sdl); sgn(w.sdu, H.idu, v.sdu); sgn(w.zl, H.ixl, v.zl); sgn(w.zu, H.ixu, v.zu); sgn(w.vl, H.idl, v.vl); sgn(w.vu, H.idu, v.vu);
      double tau = c.pick<double>({0.99, 0.9, 0.99999, 0.5, 0.995});
      put(it, v); put(dir, w);
      c << "step tau=" << tau << " from " << its(v) << " along " << its(w);
      double ap = -1, ad = -1;
      check(it.fractionToTheBdry(dir, tau, ap, ad), "step:ftb-return");
      auto best = [&](std::initializer_list<std::pair<const dvec*, const dvec*>> l) { double a = 1; for(auto& p : l) for(size_t i = 0; i < p.first->size(); i++) if((*p.second)[i] < 0.) a = std::min(a, -tau * (*p.first)[i] / (*p.second)[i]); return a; };
      double wp = best({{&v.sxl, &w.sxl}, {&v.sxu, &w.sxu}, {&v.sdl, &w.sdl}, {&v.sdu, &w.sdu}}), wd = best({{&v.zl, &w.zl}, {&v.zu, &w.zu}, {&v.vl, &w.vl}, {&v.vu, &w.vu}});
      pbt::close_val(ap, wp, 8 * EPS * wp, "step:ftb-primal"); pbt::close_val(ad, wd, 8 * EPS * wd, "step:ftb-dual");
      same_it(it, v, "step:ftb-modifies");
      ItV z = gen_it(c, H, style); put(tr, z);
      tr.takeStep_primals(it, dir, ap, ad); 
      auto lin = [&](const hiopVector& g, const dvec& a, const dvec& b, double al, const char* nm) { dvec e(a), t(a); for(size_t i = 0; i < a.size(); i++) { e[i] = a[i] + al * b[i]; t[i] = 4 * EPS * (std::fabs(a[i]) + std::fabs(al * b[i])); } near(g.local_data_const(), e, t, std::string("step:take-") + nm); };
      lin(*tr.get_x(), v.x, w.x, ap, "x"); lin(*tr.get_d(), v.d, w.d, ap, "d");
      bool lin_dual = c.flip();
      double ae = lin_dual ? ap : 1.;
      tr.takeStep_duals(it, dir, ae, ad);
      lin(*tr.get_yc(), v.yc, w.yc, ae, "yc"); lin(*tr.get_yd(), v.yd, w.yd, ae, "yd");
      lin(*tr.get_zl(), v.zl, w.zl, ad, "zl"); lin(*tr.get_zu(), v.zu, w.zu, ad, "zu"); lin(*tr.get_vl(), v.vl, w.vl, ad, "vl"); lin(*tr.get_vu(), v.vu, w.vu, ad, "vu");
      lin(*tr.get_x(), v.x, w.x, ap, "x-after-duals");
      // duals stay positive
      for(auto* p : {tr.get_zl(), tr.get_zu(), tr.get_vl(), tr.get_vu()}) for(double e : get(*p)) check(e >= 0., "step:dual-negative");
      same_it(it, v, "step:take-modifies"); same_it(dir, w, "step:take-modifies-dir");
      if(c.flip()) { std::unique_ptr<hiopIterate> cp(it.new_copy()); same_it(*cp, v, "step:new_copy"); tr.copyFrom(dir); same_it(tr, w, "step:copyFrom"); cp.reset(it.alloc_clone()); check(cp->get_x()->get_local_size() == n && cp->get_d()->get_local_size() == mi, "step:clone-size"); same_it(it, v, "step:copy-src"); }
      nt |= wp < 1 || wd < 1;
      break; }
    case 4: case 5: {  // safe slacks and bound adjustment
      ItV v = gen_it(c, H, style), prev = gen_it(c, H, style);
      double mu = std::pow(10., -c.uni(0, 11));
      double sm = EPS * std::min(1., mu), sc = std::pow(EPS, 0.75);
      auto nearb = [&](dvec& x, const dvec& l, const dvec& pl, const dvec& u, const dvec& pu) {
        for(size_t i = 0; i < x.size(); i++) {
          bool lo = pl[i] != 0. && (pu[i] == 0. || c.flip());
          double b = lo ? l[i] : u[i];
          if(!lo && pu[i] == 0.) continue;
          double o = c.pick<double>({0., 0., 0., -1e-17, -1e-12, -1e-3, -2., 1e-20, 1e-3, 1., EPS * std::max(1., std::fabs(b))}) * (lo ? 1 : -1);
          x[i] = b + o;
        }
      };
      nearb(v.x, Xl, H.ixl, Xu, H.ixu); nearb(v.d, Dl, H.idl, Du, H.idu);
      for(auto* p : {&prev.zl, &prev.zu, &prev.vl, &prev.vu}) for(auto& e : *p) if(e != 0.) { if(c.chance(1, 4)) e = c.pick<double>({1e-30, 1e10, 1e-8}); }
      put(it, v); put(tr, prev);
      c << "safe slacks mu=" << mu << " x=" << pbt::str(v.x) << " d=" << pbt::str(v.d) << " zl=" << pbt::str(prev.zl) << " zu=" << pbt::str(prev.zu) << " vl=" << pbt::str(prev.vl) << " vu=" << pbt::str(prev.vu) << "\n";
      int wantn = 0;
      auto safe = [&](const dvec& z, const dvec& b, const dvec& p, int sg, const dvec& dual) {
        dvec s(z.size(), 0.);
        for(size_t i = 0; i < z.size(); i++) if(p[i] != 0.) { s[i] = sg * (z[i] - b[i]); if(s[i] < sm) { wantn++; double s0 = std::max(s[i], 0.); s[i] = std::min(std::max(mu / dual[i], sm), s0 + sc * std::max(1., std::fabs(b[i]))); } }
        return s;
      };
      dvec sxl = safe(v.x, Xl, H.ixl, 1, prev.zl), sxu = safe(v.x, Xu, H.ixu, -1, prev.zu), sdl = safe(v.d, Dl, H.idl, 1, prev.vl), sdu = safe(v.d, Du, H.idu, -1, prev.vu);
      long long got = it.compute_safe_slacks(tr, mu);
      auto sl = [&](const hiopVector& g, const dvec& w, const dvec& p, const char* nm) {
        for(size_t i = 0; i < w.size(); i++) { double a = g.local_data_const()[i]; if(p[i] != 0.) check(a > 0., "step:safe-slack-positive", std::string(nm) + "[" + std::to_string(i) + "]=" + pbt::str(dvec{a})); pbt::close_val(a, w[i], 1e-12 * std::fabs(w[i]) + 2 * sm, std::string("step:safe-") + nm); }
      };
      sl(*it.get_sxl(), sxl, H.ixl, "sxl"); sl(*it.get_sxu(), sxu, H.ixu, "sxu"); sl(*it.get_sdl(), sdl, H.idl, "sdl"); sl(*it.get_sdu(), sdu, H.idu, "sdu");
      check(got == wantn, "step:safe-count", "reported " + std::to_string(got) + " adjusted slacks, expected " + std::to_string(wantn));
      pbt::eq_arr(it.get_x()->local_data_const(), v.x, "step:safe-x"); pbt::eq_arr(it.get_d()->local_data_const(), v.d, "step:safe-d");
      same_it(tr, prev, "step:safe-modifies");
      if(wantn) {
        nt = true; c.label("slack-adjusted");
        dvec gxl = get(*it.get_sxl()), gxu = get(*it.get_sxu()), gdl = get(*it.get_sdl()), gdu = get(*it.get_sdu());
        N.adjust_bounds(it);
        auto nb = [&](const hiopVector& g, dvec& b, const dvec& z, const dvec& s, const dvec& p, int sg, const char* nm) {
          for(size_t i = 0; i < b.size(); i++) if(p[i] != 0.) { double w = z[i] + sg * s[i]; pbt::close_val(g.local_data_const()[i], w, 4 * EPS * (std::fabs(z[i]) + s[i]), std::string("step:bounds-") + nm); b[i] = g.local_data_const()[i]; }
        };
        nb(N.get_xl(), Xl, v.x, gxl, H.ixl, -1, "xl"); nb(N.get_xu(), Xu, v.x, gxu, H.ixu, 1, "xu"); nb(N.get_dl(), Dl, v.d, gdl, H.idl, -1, "dl"); nb(N.get_du(), Du, v.d, gdu, H.idu, 1, "du");
        for(size_t i = 0; i < Xl.size(); i++) if(H.ixl[i] != 0. && H.ixu[i] != 0. && Xu[i] - Xl[i] < 8 * EPS * (std::fabs(Xl[i]) + std::fabs(Xu[i]) + 1e-300)) { q = nops; break; }  // no room left between the moved bounds
        for(size_t i = 0; i < Dl.size(); i++) if(H.idl[i] != 0. && H.idu[i] != 0. && Du[i] - Dl[i] < 8 * EPS * (std::fabs(Dl[i]) + std::fabs(Du[i]) + 1e-300)) { q = nops; break; }
      }
      break; }
    default: {  // multipliers kept close to mu/slack
      ItV v = gen_it(c, H, style);
      double mu = std::pow(10., -c.uni(0, 9)), k = c.pick<double>({1e10, 10., 1., 100.});
      put(it, v);
      c << "adjust duals mu=" << mu << " kappa=" << k << " " << its(v);
      check(it.adjustDuals_primalLogHessian(mu, k), "step:plh-return");
      auto cl = [&](const hiopVector& g, const dvec& z, const dvec& s, const dvec& p, const char* nm) {
        for(size_t i = 0; i < z.size(); i++) { double w = z[i]; if(p[i] != 0.) { w = std::max(std::min(w, k * mu / s[i]), mu / s[i] / k); nt |= w != z[i]; } pbt::close_val(g.local_data_const()[i], w, 4 * EPS * std::fabs(w), std::string("step:plh-") + nm); }
      };
      cl(*it.get_zl(), v.zl, v.sxl, H.ixl, "zl"); cl(*it.get_zu(), v.zu, v.sxu, H.ixu, "zu"); cl(*it.get_vl(), v.vl, v.sdl, H.idl, "vl"); cl(*it.get_vu(), v.vu, v.sdu, H.idu, "vu");
      dvec full = gvec(c, n, style), fulld = gvec(c, mi, style);
      for(auto* p : {it.get_sxl(), it.get_sxu(), it.get_zl(), it.get_zu()}) set(*p, full);
      for(auto* p : {it.get_sdl(), it.get_sdu(), it.get_vl(), it.get_vu()}) set(*p, fulld);
      it.selectPattern();
      auto pt = [&](const hiopVector& g, const dvec& p, const dvec& f, const char* nm) { dvec w(f); for(size_t i = 0; i < w.size(); i++) if(p[i] == 0.) w[i] = 0.; pbt::eq_arr(g.local_data_const(), w, std::string("step:pattern-") + nm); };
      pt(*it.get_sxl(), H.ixl, full, "sxl"); pt(*it.get_sxu(), H.ixu, full, "sxu"); pt(*it.get_zl(), H.ixl, full, "zl"); pt(*it.get_zu(), H.ixu, full, "zu");
      pt(*it.get_sdl(), H.idl, fulld, "sdl"); pt(*it.get_sdu(), H.idu, fulld, "sdu"); pt(*it.get_vl(), H.idl, fulld, "vl"); pt(*it.get_vu(), H.idu, fulld, "vu");
      break; }
    }
  }
  bool lo = false, up = false;
  for(int i = 0; i < n; i++) lo |= H.ixl[i] != 0, up |= H.ixu[i] != 0;
  if(tight) c.label("tight");
  c.nontrivial(nt && lo && up && n > 1);
}
}
PBT_TARGET(bar_dense) { bar_case(c, DENSE); }
PBT_TARGET(bar_mds) { bar_case(c, MDS); }
PBT_TARGET(bar_sparse) { bar_case(c, c.flip() ? SPARSE : SPARSE_INEQ); }
PBT_TARGET(step) { step_case(c, c.pick<Kind>({DENSE, DENSE, MDS, SPARSE, SPARSE_INEQ})); }
