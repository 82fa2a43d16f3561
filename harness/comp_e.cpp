// C25: the restoration problem is the elastic problem it is meant to be
#include "comp_host.hpp"
#include "hiopFRProb.hpp"
#include "hiopAlgFilterIPM.hpp"

namespace {
template<class B, class N> struct Sol : public B {
  Sol(N* n) : B(n) {}
  hiopFilter& flt() { return this->filter; }
};
// uniform access to the three restoration problems
struct FR {
  virtual ~FR() {}
  virtual hiopInterfaceBase& itf() = 0;
  virtual bool cons(const dvec& y, dvec& g) = 0;
  virtual bool jac(const dvec& y, RM& J) = 0;
  virtual bool hess(const dvec& y, double of, const dvec& lam, RM& H) { return false; }
  virtual const hiopVector& sx() = 0;
  virtual const hiopVector& sd() = 0;
  bool has_hess = true;
};
void trip(const std::vector<int>& I, const std::vector<int>& J, const dvec& M, RM& A, int coff, bool sym)
{
  for(size_t k = 0; k < I.size(); k++) {
    check(I[k] >= 0 && I[k] < A.m && J[k] >= 0 && J[k] + coff < A.n, "fr:index-range", "(" + std::to_string(I[k]) + "," + std::to_string(J[k]) + ")");
    A(I[k], J[k] + coff) += M[k]; if(sym && I[k] != J[k]) A(J[k], I[k]) += M[k];
  }
}
struct FRDense : FR {
  hiopFRProbDense p; FRDense(hiopAlgFilterIPMBase& s) : p(s) { has_hess = false; }
  hiopInterfaceBase& itf() override { return p; }
  bool cons(const dvec& y, dvec& g) override { return p.eval_cons((size_type)y.size(), (size_type)g.size(), y.data(), true, g.data()); }
  bool jac(const dvec& y, RM& J) override { for(auto& v : J.a) v = NAN; return p.eval_Jac_cons((size_type)y.size(), J.m, y.data(), true, J.a.data()); }
  const hiopVector& sx() override { return p.get_fr_sol_x(); }
  const hiopVector& sd() override { return p.get_fr_sol_d(); }
};
struct FRMds : FR {
  hiopFRProbMDS p; int ns, nd, je, ji, hs, hd;
  FRMds(hiopAlgFilterIPMBase& s) : p(s) { check(p.get_sparse_dense_blocks_info(ns, nd, je, ji, hs, hd), "fr:blocks"); check(hd == 0, "fr:blocks"); }
  hiopInterfaceBase& itf() override { return p; }
  bool cons(const dvec& y, dvec& g) override { return p.eval_cons((size_type)y.size(), (size_type)g.size(), y.data(), true, g.data()); }
  bool jac(const dvec& y, RM& J) override
  {
    check(ns + nd == (int)y.size(), "fr:blocks", "block sizes do not add up");
    int nz = je + ji; std::vector<int> I(nz, -7), K(nz, -7); dvec M(nz, NAN), D((size_t)J.m * nd, NAN); D.reserve(D.size() + 1);
    if(!p.eval_Jac_cons((size_type)y.size(), J.m, y.data(), true, ns, nd, nz, I.data(), K.data(), M.data(), D.data())) return false;
    trip(I, K, M, J, 0, false);
    for(int i = 0; i < J.m; i++) for(int j = 0; j < nd; j++) J(i, ns + j) += D[(size_t)i * nd + j];
    return true;
  }
  bool hess(const dvec& y, double of, const dvec& lam, RM& H) override
  {
    std::vector<int> I(hs, -7), K(hs, -7); dvec M(hs, NAN); I.reserve(hs + 1); K.reserve(hs + 1); M.reserve(hs + 1); dvec D((size_t)nd * nd, NAN); D.reserve(D.size() + 1); size_type z = 0;
    if(!p.eval_Hess_Lagr((size_type)y.size(), (size_type)lam.size(), y.data(), true, of, lam.data(), true, ns, nd, hs, I.data(), K.data(), M.data(), D.data(), z, nullptr, nullptr, nullptr)) return false;
    trip(I, K, M, H, 0, true);
    for(int i = 0; i < nd; i++) for(int j = 0; j < nd; j++) H(ns + i, ns + j) += D[(size_t)(j >= i ? i : j) * nd + (j >= i ? j : i)];
    return true;
  }
  const hiopVector& sx() override { return p.get_fr_sol_x(); }
  const hiopVector& sd() override { return p.get_fr_sol_d(); }
};
struct FRSparse : FR {
  hiopFRProbSparse p; int nx, je, ji, hs;
  FRSparse(hiopAlgFilterIPMBase& s) : p(s) { check(p.get_sparse_blocks_info(nx, je, ji, hs), "fr:blocks"); }
  hiopInterfaceBase& itf() override { return p; }
  bool cons(const dvec& y, dvec& g) override { return p.eval_cons((size_type)y.size(), (size_type)g.size(), y.data(), true, g.data()); }
  bool jac(const dvec& y, RM& J) override
  {
    check(nx == (int)y.size(), "fr:blocks");
    int nz = je + ji; std::vector<int> I(nz, -7), K(nz, -7); dvec M(nz, NAN);
    if(!p.eval_Jac_cons((size_type)y.size(), J.m, y.data(), true, nz, I.data(), K.data(), nullptr)) return false;
    if(!p.eval_Jac_cons((size_type)y.size(), J.m, y.data(), true, nz, nullptr, nullptr, M.data())) return false;
    trip(I, K, M, J, 0, false);
    return true;
  }
  bool hess(const dvec& y, double of, const dvec& lam, RM& H) override
  {
    std::vector<int> I(hs, -7), K(hs, -7); dvec M(hs, NAN); I.reserve(hs + 1); K.reserve(hs + 1); M.reserve(hs + 1); 
    if(!p.eval_Hess_Lagr((size_type)y.size(), (size_type)lam.size(), y.data(), true, of, lam.data(), true, hs, I.data(), K.data(), nullptr)) return false;
    if(!p.eval_Hess_Lagr((size_type)y.size(), (size_type)lam.size(), y.data(), true, of, lam.data(), true, hs, nullptr, nullptr, M.data())) return false;
    for(int k = 0; k < hs; k++) check(I[k] <= K[k], "fr:hess-triangle", "entry below the diagonal");
    trip(I, K, M, H, 0, true);
    return true;
  }
  const hiopVector& sx() override { return p.get_fr_sol_x(); }
  const hiopVector& sd() override { return p.get_fr_sol_d(); }
};

void fr_case(Ctx& c, Kind kind)
{
  const double rho = 1000.;
  Host H;
  double kr = c.pick<double>({0.9, 0.5, 0.1, 0.99});
  std::vector<Opt> extra = {od("kappa_resto", kr), od("mu0", c.pick<double>({1., 0.1, 1e-3, 10.}))};
  if(kind == SPARSE) { extra.push_back(os("duals_init", "zero")); extra.push_back(os("duals_update_type", "linear")); }
  make_host(c, H, kind, extra);
  auto& N = *H.N;
  const int n = H.n, me = H.me, mi = H.mi, m = me + mi;
  if(m == 0) pbt::discard();
  N.runStats.initialize();
  std::unique_ptr<hiopAlgFilterIPMBase> S; hiopFilter* flt;
  if(kind == DENSE) { auto* s = new Sol<hiopAlgFilterIPMQuasiNewton, hiopNlpDenseConstraints>((hiopNlpDenseConstraints*)&N); S.reset(s); flt = &s->flt(); }
  else { auto* s = new Sol<hiopAlgFilterIPMNewton, hiopNlpFormulation>(&N); S.reset(s); flt = &s->flt(); }
  auto& it = *S->get_it_curr();
  VP grad(N.alloc_primal_vec());
  double f;
  check(S->startingProcedure(it, f, *S->get_c(), *S->get_d(), *grad, *S->get_Jac_c(), *S->get_Jac_d()) >= 0, "fr:host-start");
  H.dl = get(N.get_dl()); H.du = get(N.get_du()); H.crhs = get(N.get_crhs());  // scaled
  // any strictly interior iterate
  dvec x = get(*it.get_x()), s = get(*it.get_d());
  for(int i = 0; i < n; i++) if(H.ixl[i] == 0. && H.ixu[i] == 0. && c.chance(1, 2)) x[i] = c.moderate() * c.pick<double>({1., 10., 1e3});
  for(int j = 0; j < mi; j++) if(c.chance(1, 2)) {
    double l = H.idl[j] != 0. ? H.dl[j] : (H.idu[j] != 0. ? H.du[j] - c.pick<double>({1., 10., 1e3}) : -10.), u = H.idu[j] != 0. ? H.du[j] : l + c.pick<double>({1., 10., 1e3});
    double t = c.pick<double>({0.5, 1e-3, 0.999, 0.1}), v = l + t * (u - l);
    if((H.idl[j] == 0. || v > H.dl[j]) && (H.idu[j] == 0. || v < H.du[j])) s[j] = v;
  }
  set(*it.get_x(), x); set(*it.get_d(), s); it.determineSlacks();
  dvec zl = pvec(c, H.ixl, 1), zu = pvec(c, H.ixu, 1), vl = pvec(c, H.idl, 1), vu = pvec(c, H.idu, 1);
  if(c.chance(1, 3)) for(auto* p : {&zl, &zu, &vl, &vu}) for(auto& v : *p) if(v != 0. && c.chance(1, 3)) v *= 1e4;
  set(*it.get_zl(), zl); set(*it.get_zu(), zu); set(*it.get_vl(), vl); set(*it.get_vu(), vu);
  VP xv(N.alloc_primal_vec()), cv(N.alloc_dual_eq_vec()), dv(N.alloc_dual_ineq_vec());
  auto cd = [&](const dvec& xx, dvec& C, dvec& D) { set(*xv, xx); check(N.eval_c_d(*xv, true, *cv, *dv), "fr:host-eval"); C = get(*cv); D = get(*dv); };
  dvec C, D;
  cd(x, C, D);
  set(*S->get_c(), C); set(*S->get_d(), D);
  check(N.eval_f(*xv, true, f) && N.eval_grad_f(*xv, true, *grad) && N.eval_Jac_c_d(*xv, true, *S->get_Jac_c(), *S->get_Jac_d()), "fr:host-eval");
  if(kind != DENSE) { VP yc(mkvec(N.alloc_dual_eq_vec(), dvec(me, 0.))), yd(mkvec(N.alloc_dual_ineq_vec(), dvec(mi, 0.))); check(N.eval_Hess_Lagr(*xv, true, 1., *yc, *yd, true, *S->get_Hess_Lagr()), "fr:host-eval"); }
  const double mu_base = S->get_mu();
  S->get_logbar()->updateWithNlpInfo(it, mu_base, f, *S->get_c(), *S->get_d(), *grad, *S->get_Jac_c(), *S->get_Jac_d());
  S->get_resid()->update(it, f, *S->get_c(), *S->get_d(), *grad, *S->get_Jac_c(), *S->get_Jac_d(), *S->get_logbar());
  auto viol = [&](const dvec& CC, const dvec& DD, const dvec& ss, double& one) {
    double r = 0; one = 0;
    for(int j = 0; j < me; j++) { double e = std::fabs(CC[j] - H.crhs[j]); r = std::max(r, e); one += e; }
    for(int j = 0; j < mi; j++) { double e = std::fabs(DD[j] - ss[j]); r = std::max(r, e); one += e; }
    return r;
  };
  double one_ref, ref = viol(C, D, s, one_ref);
  dvec DR(n); for(int i = 0; i < n; i++) DR[i] = 1. / std::max(1., std::fabs(x[i]));
  c << " xref=" << pbt::str(x) << " s=" << pbt::str(s) << " mu=" << mu_base << " violation=" << ref << "\n";

  std::unique_ptr<FR> R;
  if(kind == DENSE) R.reset(new FRDense(*S)); else if(kind == MDS) R.reset(new FRMds(*S)); else R.reset(new FRSparse(*S));
  auto& I = R->itf();
  size_type nf = 0, mf = 0;
  check(I.get_prob_sizes(nf, mf), "fr:sizes");
  check(nf == n + 2 * m && mf == m, "fr:sizes", std::to_string(nf) + " x " + std::to_string(mf));
  // where the variables are
  std::vector<int> ix(n), pe(me), ne(me), pi(mi), ni(mi);
  { int nsp = kind == MDS ? 0 : n; if(kind == MDS) { int a, b, q, t, u, w; ((hiopInterfaceMDS*)H.F->itf.get())->get_sparse_dense_blocks_info(a, b, q, t, u, w); nsp = a; }
    int k = 0; for(int i = 0; i < nsp; i++) ix[i] = k++;
    for(auto& v : pe) v = k++; for(auto& v : ne) v = k++; for(auto& v : pi) v = k++; for(auto& v : ni) v = k++;
    for(int i = nsp; i < n; i++) ix[i] = k++; }
  auto at = [&](const dvec& y, const std::vector<int>& q) { dvec r; for(int i : q) r.push_back(y[i]); return r; };
  auto putv = [&](dvec& y, const std::vector<int>& q, const dvec& v) { for(size_t i = 0; i < q.size(); i++) y[q[i]] = v[i]; };
  // bounds
  { dvec lo(nf, NAN), up(nf, NAN); std::vector<hiopInterfaceBase::NonlinearityType> ty(nf);
    check(I.get_vars_info(nf, lo.data(), up.data(), ty.data()), "fr:vars");
    dvec wl(nf, 0.), wu(nf, 1e20); putv(wl, ix, H.xl); putv(wu, ix, H.xu);
    for(int k = 0; k < nf; k++) { if(wl[k] <= -1e20) check(lo[k] <= -1e20, "fr:var-bounds"); else check(lo[k] == wl[k], "fr:var-bounds", "lower " + pbt::str(lo) + " expected " + pbt::str(wl)); if(wu[k] >= 1e20) check(up[k] >= 1e20, "fr:var-bounds"); else check(up[k] == wu[k], "fr:var-bounds", "upper " + pbt::str(up) + " expected " + pbt::str(wu)); }
    dvec cl(mf, NAN), cu(mf, NAN); std::vector<hiopInterfaceBase::NonlinearityType> tc(mf);
    check(I.get_cons_info(mf, cl.data(), cu.data(), tc.data()), "fr:cons");
    for(int j = 0; j < me; j++) check(cl[j] == H.crhs[j] && cu[j] == H.crhs[j], "fr:cons-bounds");
    for(int j = 0; j < mi; j++) check((H.idl[j] == 0. ? cl[me + j] <= -1e20 : cl[me + j] == H.dl[j]) && (H.idu[j] == 0. ? cu[me + j] >= 1e20 : cu[me + j] == H.du[j]), "fr:cons-bounds"); }
  double mu = std::max(mu_base, ref);
  // functions and derivatives at any point, for the current barrier parameter
  auto functions = [&](const std::string& when) {
    dvec y(nf); for(auto& v : y) v = c.moderate() * c.pick<double>({1., 1., 10., 0.1});
    dvec xx = at(y, ix), CC, DD; cd(xx, CC, DD);
    double zeta = std::sqrt(mu), got = NAN;
    Acc o; for(auto* q : {&pe, &ne, &pi, &ni}) for(int k : *q) o.add(rho * y[k]);
    for(int i = 0; i < n; i++) o.m += rho * std::fabs(xx[i]);  // a difference of sums
    for(int i = 0; i < n; i++) o.add(0.5 * zeta * DR[i] * DR[i] * (xx[i] - x[i]) * (xx[i] - x[i]));
    check(I.eval_f(nf, y.data(), true, got), "fr:eval");
    cmp(got, o, "fr-objective" + when, 200);
    dvec g(nf, NAN), w(nf, rho), t(nf, 0.);
    for(int i = 0; i < n; i++) { w[ix[i]] = zeta * DR[i] * DR[i] * (xx[i] - x[i]); t[ix[i]] = 40 * EPS * zeta * (std::fabs(xx[i]) + std::fabs(x[i])); }
    check(I.eval_grad_f(nf, y.data(), true, g.data()), "fr:eval");
    near(g.data(), w, t, "fr:gradient" + when);
    dvec G(m, NAN), wg(m), tg(m);
    for(int j = 0; j < me; j++) wg[j] = CC[j] - y[pe[j]] + y[ne[j]], tg[j] = 8 * EPS * (std::fabs(CC[j]) + std::fabs(y[pe[j]]) + std::fabs(y[ne[j]]));
    for(int j = 0; j < mi; j++) wg[me + j] = DD[j] - y[pi[j]] + y[ni[j]], tg[me + j] = 8 * EPS * (std::fabs(DD[j]) + std::fabs(y[pi[j]]) + std::fabs(y[ni[j]]));
    check(R->cons(y, G), "fr:eval");
    near(G.data(), wg, tg, "fr:constraints" + when);
    std::unique_ptr<hiopMatrix> Jc(N.alloc_Jac_c()), Jd(N.alloc_Jac_d());
    set(*xv, xx); check(N.eval_Jac_c_d(*xv, true, *Jc, *Jd), "fr:host-eval");
    RM ec = expand(*Jc), ed = expand(*Jd), J(m, nf), W(m, nf);
    for(int j = 0; j < me; j++) { for(int i = 0; i < n; i++) W(j, ix[i]) = ec(j, i); W(j, pe[j]) = -1; W(j, ne[j]) = 1; }
    for(int j = 0; j < mi; j++) { for(int i = 0; i < n; i++) W(me + j, ix[i]) = ed(j, i); W(me + j, pi[j]) = -1; W(me + j, ni[j]) = 1; }
    check(R->jac(y, J), "fr:eval");
    near(J.a.data(), W.a, rel(W.a, 8 * EPS), "fr:jacobian" + when);
    if(R->has_hess) {
      dvec lam(m); for(auto& v : lam) v = c.moderate();
      double of = c.pick<double>({1., 1., 0.5});
      (void)of;
      std::unique_ptr<hiopMatrix> Hl(N.alloc_Hess_Lagr());
      VP yc(mkvec(N.alloc_dual_eq_vec(), dvec(lam.begin(), lam.begin() + me))), yd(mkvec(N.alloc_dual_ineq_vec(), dvec(lam.begin() + me, lam.end())));
      check(N.eval_Hess_Lagr(*xv, true, 0., *yc, *yd, true, *Hl), "fr:host-eval");
      RM eh = expand(*Hl), Hg(nf, nf), Wh(nf, nf);
      for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) Wh(ix[i], ix[j]) = kind == MDS && j < i ? eh(j, i) : eh(i, j);
      for(int i = 0; i < n; i++) Wh(ix[i], ix[i]) += zeta * DR[i] * DR[i];
      check(R->hess(y, 1., lam, Hg), "fr:eval");
      dvec th(Wh.a.size()); for(size_t k = 0; k < th.size(); k++) th[k] = 64 * EPS * (std::fabs(Wh.a[k]) + zeta);
      near(Hg.a.data(), Wh.a, th, "fr:hessian" + when);
    }
  };
  auto slacks = [&](const dvec& y, const dvec& CC, const dvec& DD, const dvec& ss, const std::string& key) {
    auto one = [&](double viol_, double p, double q) {
      double sc = std::fabs(viol_) + mu / rho;
      check(p >= -1e-14 * sc && q >= -1e-14 * sc, key + ":negative", "elastic variables " + pbt::str(p) + " " + pbt::str(q));
      check(std::fabs(viol_ - p + q) <= 1e-13 * (sc + std::fabs(p) + std::fabs(q)), key + ":elastic", "violation " + pbt::str(viol_) + " is not the difference of " + pbt::str(p) + " and " + pbt::str(q));
      // and they minimise the barrier function: mu/p + mu/n = 2 rho, that is mu (p+n) = 2 rho p n
      check(std::fabs(mu * (p + q) - 2 * rho * p * q) <= 1e-11 * rho * sc * (sc + p + q), key + ":central", "violation " + pbt::str(viol_) + " elastic variables " + pbt::str(p) + " " + pbt::str(q) + " mu " + pbt::str(mu));
    };
    for(int j = 0; j < me; j++) { double a = std::max(std::fabs(CC[j]), std::fabs(H.crhs[j])), v = CC[j] - H.crhs[j]; if(std::fabs(v) > 1e-3 * a || a < 1e-3 * mu / rho || v == 0.) one(v, y[pe[j]], y[ne[j]]); }
    for(int j = 0; j < mi; j++) { double a = std::max(std::fabs(DD[j]), std::fabs(ss[j])), v = DD[j] - ss[j]; if(std::fabs(v) > 1e-3 * a || a < 1e-3 * mu / rho || v == 0.) one(v, y[pi[j]], y[ni[j]]); }
  };
  // the starting point
  {
    dvec y(nf, NAN), l0(nf, NAN), u0(nf, NAN), lam(m, NAN), ss(mi, NAN), v0(mi, NAN), w0(mi, NAN);
    check(I.get_warmstart_point(nf, mf, y.data(), l0.data(), u0.data(), lam.data(), ss.data(), v0.data(), w0.data()), "fr:start");
    check(at(y, ix) == x, "fr:start-x", pbt::str(at(y, ix)) + " instead of " + pbt::str(x));
    check(ss == s, "fr:start-slack", pbt::str(ss) + " instead of " + pbt::str(s));
    for(auto* q : {&pe, &ne, &pi, &ni}) for(int k : *q) check(y[k] > 0., "fr:start-interior", "elastic variable " + std::to_string(k) + " starts at " + pbt::str(y[k]));
    slacks(y, C, D, s, "fr:start");
    dvec wl(nf, 0.), wu(nf, 0.);
    for(int i = 0; i < n; i++) { wl[ix[i]] = std::min(rho, zl[i]); wu[ix[i]] = std::min(rho, zu[i]); }
    for(auto* q : {&pe, &ne, &pi, &ni}) for(int k : *q) wl[k] = mu / y[k];
    near(l0.data(), wl, rel(wl, 8 * EPS), "fr:start-zl");
    near(u0.data(), wu, rel(wu, 8 * EPS), "fr:start-zu");
    dvec a(vl), b(vu); for(auto* q : {&a, &b}) for(auto& v : *q) v = std::min(rho, v);
    near(v0.data(), a, dvec(mi, 0.), "fr:start-vl"); near(w0.data(), b, dvec(mi, 0.), "fr:start-vu");
    check(lam == dvec(m, 0.), "fr:start-lambda");
  }
  functions("");
  // iterations of the restoration: it may stop only at an improved point that the filter of the main problem accepts
  flt->clear(); flt->reinitialize(c.pick<double>({1e4 * std::max(1., one_ref), 1.5 * one_ref + 1e-3, 0.5 * one_ref + 1e-6}));
  bool stopped = false, refused = false; int iters = (int)c.range(1, 4);
  for(int k = 0; k < iters && !stopped; k++) {
    dvec xx(x), ss(s), CC, DD;
    double w = c.pick<double>({0., 1e-3, 0.1, 1.});
    for(int i = 0; i < n; i++) {
      double v = x[i] + w * c.moderate();
      if((H.ixl[i] == 0. || v > H.xl[i]) && (H.ixu[i] == 0. || v < H.xu[i])) xx[i] = v;
    }
    cd(xx, CC, DD);
    bool improve = c.chance(2, 3);
    if(improve) for(int j = 0; j < mi; j++) if((H.idl[j] == 0. || DD[j] > H.dl[j] + 1e-9 * (1 + std::fabs(H.dl[j]))) && (H.idu[j] == 0. || DD[j] < H.du[j] - 1e-9 * (1 + std::fabs(H.du[j])))) ss[j] = DD[j];
    dvec y(nf, 1.); putv(y, ix, xx);
    double obj = NAN; check(I.eval_f(nf, y.data(), true, obj), "fr:eval");
    double one_new, now = viol(CC, DD, ss, one_new);
    // objective of the main barrier problem at that point
    set(*xv, xx); double fb = NAN; check(N.eval_f(*xv, true, fb), "fr:host-eval");
    Acc phi; phi.add(fb);
    const double kd = S->get_logbar()->kappa_d;
    auto bar = [&](double sl, double other) { phi.add(-mu_base * std::log(sl)); if(other == 0.) phi.add(kd * mu_base * sl); };
    bool tiny = false;
    for(int i = 0; i < n; i++) { if(H.ixl[i] != 0.) { double q = xx[i] - H.xl[i]; tiny |= q < 1e-10 * (1 + std::fabs(xx[i])); bar(q, H.ixu[i]); } if(H.ixu[i] != 0.) { double q = H.xu[i] - xx[i]; tiny |= q < 1e-10 * (1 + std::fabs(xx[i])); bar(q, H.ixl[i]); } }
    for(int j = 0; j < mi; j++) { if(H.idl[j] != 0.) { double q = ss[j] - H.dl[j]; tiny |= q < 1e-10 * (1 + std::fabs(ss[j])); bar(q, H.idu[j]); } if(H.idu[j] != 0.) { double q = H.du[j] - ss[j]; tiny |= q < 1e-10 * (1 + std::fabs(ss[j])); bar(q, H.idl[j]); } }
    double e = 100 * EPS * phi.m + 1e-300, te = 40 * EPS * (one_new + 1e-300);
    if(c.chance(1, 2)) { double a = one_new * c.pick<double>({0.5, 1.5, 1., 0.}), b = phi.v + c.pick<double>({-1., 1., 1e3, -1e3}); flt->add(a, b); c << " filter (" << a << ", " << b << ")\n"; }
    bool in1 = flt->contains(one_new - te, phi.v - e), in2 = flt->contains(one_new + te, phi.v + e);
    int iter = c.chance(1, 5) ? 0 : k + 1;
    double mu_new = mu * c.pick<double>({1., 0.2, 0.5, 1e-3});
    dvec Gd(m, 0.), Z(nf, 0.), L(m, 0.);
    c << " iterate " << iter << " x=" << pbt::str(xx) << " s=" << pbt::str(ss) << " violation " << now << " phi " << phi.v << " mu " << mu_new << "\n";
    bool goon = I.iterate_callback(iter, obj, obj, (int)nf, y.data(), Z.data(), Z.data(), mi, ss.data(), m, Gd.data(), L.data(), 0., 0., 0., mu_new, 1., 1., 1);
    double lim = kr * ref;
    bool reduced = now <= lim * (1 - 1e-12) , notred = now > lim * (1 + 1e-12);
    if(notred || iter == 0) check(goon, "fr:stop-not-improved", "stops at iteration " + std::to_string(iter) + " with violation " + pbt::str(now) + ", initially " + pbt::str(ref));
    else if(reduced && !tiny) {
      if(in1 && in2) { check(goon, "fr:stop-in-filter", "stops at a point the filter of the main problem rejects"); refused = true; }
      if(!in1 && !in2) check(!goon, "fr:no-stop", "continues although the point is improved and acceptable to the filter");
    }
    if(!goon) {
      stopped = true;
      pbt::eq_arr(R->sx().local_data_const(), xx, "fr:solution-x"); pbt::eq_arr(R->sd().local_data_const(), ss, "fr:solution-d");
    } else {
      mu = mu_new;
      if(c.chance(1, 2)) functions("-later");
      // restoration of the restoration: new elastic variables for the current point
      if(c.chance(1, 2)) {
        dvec z(y); for(auto* q : {&pe, &ne, &pi, &ni}) for(int kk : *q) z[kk] = std::fabs(c.moderate());
        check(I.force_update_x((int)nf, z.data()), "fr:force-update");
        check(at(z, ix) == xx, "fr:force-x", "the point itself changed");
        slacks(z, CC, DD, ss, "fr:force");
      }
    }
  }
  c.label(stopped ? "stopped" : "continued"); if(refused) c.label("refused-by-filter");
  c.nontrivial(me > 0 && mi > 0 && ref > 1e-6);
}
}
PBT_TARGET(fr_dense) { fr_case(c, DENSE); }
PBT_TARGET(fr_mds) { fr_case(c, MDS); }
PBT_TARGET(fr_sparse) { fr_case(c, SPARSE); }
