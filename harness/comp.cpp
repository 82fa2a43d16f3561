// C09: the internal NLP equals the user's NLP after the documented transformations
#include "comp.hpp"

static void nlp_case(Ctx& c, Kind kind)
{
  bool fixed;
  Prob P0 = gen_prob(c, kind != DENSE, fixed);
  Prob P = declare(c, P0);
  auto o = gen_nlp_opts(c, fixed);
  if(kind == SPARSE_INEQ) o.push_back(od("eq_relax_factor", c.pick<double>({1e-8, 1e-4, 1e-10})));
  User U(P);
  U.check_bounds = false;
  U.eq_as_ineq = kind == SPARSE_INEQ;
  U.one_call = c.flip();
  U.start_mode = (int)c.range(0, 4);
  int n = P.n, m = P.m;
  for(auto& v : U.x0) v = c.chance(1, 4) ? c.uni(-100, 100) : c.uni(-4, 4);
  U.zl0 = gen_moderate(c, n); U.zu0 = gen_moderate(c, n); U.lam0 = gen_moderate(c, m);
  c << kind_name[kind] << (U.one_call ? " one-call" : " two-call") << " start_mode=" << U.start_mode << " opts " << str(o) << "\n" << str(P) << " x0=" << pbt::str(U.x0) << "\n";
  Form F(kind, P, U, o);
  int nev = 0; bool scaled = false;
  int rounds = (int)c.range(1, 3);
  for(int round = 0; round < rounds; round++) {
    if(round > 0 && c.flip()) {  // options may change between uses of the same formulation
      auto o2 = gen_nlp_opts(c, fixed);
      for(auto& x : o2) if(x.name == "fixed_var" || x.name == "bound_relax_perturb" || x.name == "scaling_type" || x.name == "scaling_max_grad") F.o.push_back(x);
      if(gets(F.o, "fixed_var", "none") == "none" && getd(F.o, "bound_relax_perturb", 1e-8) == 0. && fixed) F.o.push_back(os("fixed_var", "relax"));
      if(gets(F.o, "fixed_var", "none") == "remove" && fixed && getd(F.o, "bound_relax_perturb", 1e-8) == 0. && kind != DENSE) F.o.push_back(os("fixed_var", "relax"));
      c << "round " << round << " options " << str(F.o) << "\n";
      ::apply(*F.nlp->options, F.o);
    }
    U.have_last = false;
    if(U.start_mode >= 4) { U.s0 = gen_moderate(c, kind == SPARSE_INEQ ? m : (int)P.ineqs().size()); }
    F.finalize();
    hiopNlpFormulation& N = *F.nlp;
    int nr = F.n(), me = (int)F.eq.size(), mi = (int)F.in.size();
    auto cnt = [](const dvec& v) { int k = 0; for(double x : v) k += x != 0; return k; };
    auto num = [&](const char* w, long long got, long long want) { check(got == want, std::string("nlp:") + w, std::string(w) + " is " + std::to_string(got) + " expected " + std::to_string(want)); };
    num("n", N.n(), nr); num("m", N.m(), m); num("m_eq", N.m_eq(), me); num("m_ineq", N.m_ineq(), mi);
    num("n_low", N.n_low(), cnt(F.ixl)); num("n_upp", N.n_upp(), cnt(F.ixu)); num("m_ineq_low", N.m_ineq_low(), cnt(F.idl)); num("m_ineq_upp", N.m_ineq_upp(), cnt(F.idu));
    num("n_complem", N.n_complem(), cnt(F.ixl) + cnt(F.ixu) + cnt(F.idl) + cnt(F.idu));
    auto same_pat = [&](const char* w, const hiopVector& g, const dvec& want) { num((std::string(w) + ".size").c_str(), g.get_local_size(), want.size()); pbt::eq_arr(g.local_data_const(), want, std::string("nlp:") + w); };
    auto bounds = [&](const char* w, const hiopVector& g, const dvec& want, const dvec& pat, const dvec* sc) {
      num((std::string(w) + ".size").c_str(), g.get_local_size(), want.size());
      for(size_t i = 0; i < want.size(); i++) if(pat[i] != 0.) { double v = want[i] * (sc ? (*sc)[i] : 1.); pbt::close_val(g.local_data_const()[i], v, 8 * EPS * std::fabs(v), std::string("nlp:") + w); }
    };
    auto all = [&](const dvec* se, const dvec* si) {
      same_pat("ixl", N.get_ixl(), F.ixl); same_pat("ixu", N.get_ixu(), F.ixu); same_pat("idl", N.get_idl(), F.idl); same_pat("idu", N.get_idu(), F.idu);
      bounds("xl", N.get_xl(), F.xl, F.ixl, nullptr); bounds("xu", N.get_xu(), F.xu, F.ixu, nullptr);
      bounds("dl", N.get_dl(), F.dl, F.idl, si); bounds("du", N.get_du(), F.du, F.idu, si);
      bounds("c_rhs", N.get_crhs(), F.crhs, dvec(me, 1.), se);
    };
    all(nullptr, nullptr);
    // starting point
    VP x(N.alloc_primal_vec()), zl(N.alloc_primal_vec()), zu(N.alloc_primal_vec()), yc(N.alloc_dual_eq_vec()), yd(N.alloc_dual_ineq_vec()), d0(N.alloc_dual_ineq_vec());
    num("x.size", x->get_local_size(), nr);
    for(auto* v : {&x, &zl, &zu, &yc, &yd, &d0}) (*v)->setToConstant(0.25);
    bool da = true, sa = true;
    bool got = N.get_starting_point(*x, da, *zl, *zu, *yc, *yd, sa, *d0);
    check(got == (U.start_mode != 0), "nlp:start-return");
    auto red = [&](const dvec& u) { dvec r; for(int i : F.keep) r.push_back(u[i]); return r; };
    auto sub = [&](const dvec& u, const ivec& ix) { dvec r; for(int i : ix) r.push_back(u[i]); return r; };
    dvec xs(nr, 0.);
    if(got) { xs = red(U.x0); pbt::eq_arr(x->local_data_const(), xs, "nlp:start-x"); }
    check(da == (U.start_mode >= 3) && sa == (U.start_mode >= 4), "nlp:start-flags", "availability flags of the starting point are wrong");
    if(da) { pbt::eq_arr(zl->local_data_const(), red(U.zl0), "nlp:start-zl"); pbt::eq_arr(zu->local_data_const(), red(U.zu0), "nlp:start-zu"); pbt::eq_arr(yc->local_data_const(), sub(U.lam0, F.eq), "nlp:start-yc"); pbt::eq_arr(yd->local_data_const(), sub(U.lam0, F.in), "nlp:start-yd"); }
    if(sa) pbt::eq_arr(d0->local_data_const(), U.s0, "nlp:start-slacks");
    // evaluations, with scaling decided at some moment
    dvec cur = xs;
    if(!got) set(*x, xs);
    std::unique_ptr<hiopMatrix> Jc(N.alloc_Jac_c()), Jd(N.alloc_Jac_d()), H(kind == DENSE ? nullptr : N.alloc_Hess_Lagr());
    VP g(N.alloc_primal_vec()), cc(N.alloc_dual_eq_vec()), dd(N.alloc_dual_ineq_vec());
    Scal S; S.con.assign(m, 1.);
    bool fresh = true;
    auto done = [&] { if(!U.bad_key.empty()) fail(U.bad_key, U.bad_msg); };
    auto ev = [&](int k) {
      nev++;
      dvec xu = F.to_user(cur);
      bool nx = fresh; fresh = false;
      dvec before = cur;
      switch(k) {
      case 0: { double f; check(N.eval_f(*x, nx, f), "nlp:eval_f-return"); double w = P.f(xu.data()) * S.f; pbt::close_val(f, w, 8 * EPS * std::fabs(w), "nlp:f"); pbt::close_val(N.user_obj(f), P.f(xu.data()), 8 * EPS * std::fabs(w / S.f), "nlp:user_obj"); break; }
      case 1: { check(N.eval_grad_f(*x, nx, *g), "nlp:eval_grad-return"); dvec w(n); P.grad(xu.data(), w.data()); for(auto& v : w) v *= S.f; w = red(w); near(g->local_data_const(), w, rel(w, 8 * EPS), "nlp:grad"); break; }
      case 2: { check(N.eval_c_d(*x, nx, *cc, *dd), "nlp:eval_c_d-return");
        dvec wc, wd, cb(m); for(int j : F.eq) wc.push_back(S.con[j] * P.c(j, xu.data())); for(int j : F.in) wd.push_back(S.con[j] * P.c(j, xu.data())); for(int j = 0; j < m; j++) cb[j] = P.c(j, xu.data());
        near(cc->local_data_const(), wc, rel(wc, 8 * EPS), "nlp:c"); near(dd->local_data_const(), wd, rel(wd, 8 * EPS), "nlp:d");
        VP body(N.alloc_dual_vec()); N.unscale_cons_body(*cc, *dd, *body); near(body->local_data_const(), cb, rel(cb, 8 * EPS), "nlp:cons-body"); break; }
      case 3: { check(N.eval_Jac_c_d(*x, nx, *Jc, *Jd), "nlp:eval_Jac-return");
        RM Ec = expand(*Jc), Ed = expand(*Jd);
        check(Ec.m == me && Ec.n == nr && Ed.m == mi && Ed.n == nr, "nlp:Jac-size");
        for(int w = 0; w < 2; w++) { RM& E = w ? Ed : Ec; const ivec& ix = w ? F.in : F.eq;
          for(int i = 0; i < E.m; i++) for(int q = 0; q < nr; q++) { double v = S.con[ix[i]] * P.dc(ix[i], F.keep[q], xu.data()); pbt::close_val(E(i, q), v, 8 * EPS * std::fabs(v), w ? "nlp:Jac_d" : "nlp:Jac_c"); } }
        break; }
      case 4: { if(!H) { fresh = nx; break; }
        dvec y = gen_moderate(c, m); double of = c.pick<double>({1., 0., 0.5, 2.});
        VP yc2 = mkvec(N.alloc_dual_eq_vec(), sub(y, F.eq)), yd2 = mkvec(N.alloc_dual_ineq_vec(), sub(y, F.in));
        check(N.eval_Hess_Lagr(*x, nx, of, *yc2, *yd2, true, *H), "nlp:eval_Hess-return");
        RM E = expand(*H);
        dvec ys(y); for(int j = 0; j < m; j++) ys[j] *= S.con[j];
        for(int i = 0; i < nr; i++) for(int q = 0; q < nr; q++) {
          double mag = std::fabs(of * S.f * P.Q(i, q)); if(i == q) { double t = xu[i] - P.t4[i]; mag += std::fabs(3 * of * S.f * P.p4[i] * t * t); for(int j = 0; j < m; j++) mag += std::fabs(ys[j] * P.D(j, i)); }
          for(int j = 0; j < m; j++) if(i >= P.ns && q >= P.ns) mag += std::fabs(ys[j] * P.bil[j]);
          double v = P.hess(i, q, xu.data(), of * S.f, ys.data());
          pbt::close_val(E(i, q), v, 30 * EPS * mag, "nlp:Hess");
        }
        pbt::eq_arr(yc2->local_data_const(), sub(y, F.eq), "nlp:Hess-lambda-modified"); pbt::eq_arr(yd2->local_data_const(), sub(y, F.in), "nlp:Hess-lambda-modified");
        break; }
      case 5: { dvec y = gen_moderate(c, m), lw(m); VP yc2 = mkvec(N.alloc_dual_eq_vec(), sub(y, F.eq)), yd2 = mkvec(N.alloc_dual_ineq_vec(), sub(y, F.in)), l(N.alloc_dual_vec());
        fresh = nx;
        N.unscale_cons_duals(*yc2, *yd2, *l); for(int j = 0; j < m; j++) lw[j] = y[j] * S.con[j] / S.f;
        near(l->local_data_const(), lw, rel(lw, 8 * EPS), "nlp:cons-duals"); break; }
      case 6: { fresh = nx; dvec out(n + 2, 777.); N.user_x(*x, out.data() + 1); check(out[0] == 777. && out.back() == 777., "nlp:user_x-overrun"); pbt::eq_arr(out.data() + 1, xu, "nlp:user_x"); break; }
      }
      pbt::eq_arr(x->local_data_const(), before, "nlp:x-modified");
      done();
    };
    auto move = [&] { for(auto& v : cur) if(c.chance(2, 3)) v = c.chance(1, 6) ? c.num() : c.uni(-5, 5); for(auto& v : cur) if(!(std::fabs(v) < 1e6)) v = 1.; set(*x, cur); fresh = true; };
    int pre = (int)c.range(0, 3);
    for(int k = 0; k < pre; k++) { if(c.flip()) move(); ev((int)c.draw(6)); }
    if(c.chance(2, 3)) {  // as the algorithm does at the starting point
      cur = xs; set(*x, cur); fresh = true;
      ev(2); ev(1); ev(3);
      Scal W = scaling_masked(P, F.to_user(cur), F.o, F.removed);
      bool r = N.apply_scaling(*cc, *dd, *g, *Jc, *Jd);
      bool act = W.f != 1.; for(double s : W.con) act |= s != 1.;
      if(act) check(r, "nlp:scaling-not-applied", "expected objective factor " + pbt::str(W.f) + " and constraint factors " + pbt::str(W.con));
      pbt::close_val(N.get_obj_scale(), W.f, 4 * EPS * W.f, "nlp:obj-scale");
      S = W; if(r) S.f = N.get_obj_scale();
      scaled |= act;
      c.label(act ? "scaled" : "unscaled");
      dvec se = sub(S.con, F.eq), si = sub(S.con, F.in);
      all(&se, &si);
      c << "scaling f=" << S.f << " con=" << pbt::str(S.con) << "\n";
    }
    int post = (int)c.range(2, 8);
    for(int k = 0; k < post; k++) { if(c.flip()) move(); ev((int)c.draw(6)); }
  }
  int nrem = 0; for(char r : F.removed) nrem += r;
  if(nrem) c.label("removed");
  c.nontrivial(nev >= 4 && m > 0 && P.n > 1 && (scaled || fixed || (P.eqs().size() && P.ineqs().size())));
}
PBT_TARGET(nlp_dense) { nlp_case(c, DENSE); }
PBT_TARGET(nlp_mds) { nlp_case(c, MDS); }
PBT_TARGET(nlp_sparse) { nlp_case(c, c.flip() ? SPARSE : SPARSE_INEQ); }
