// C08 (treatment of bounds and fixed variables)
#include "solver.hpp"

// problem as declared by the user (absent bounds in several spellings) and its canonical form
struct Treat { std::string fv; double relax, tol, pert; };
static void fixed_bounds(Ctx& c, bool mds)
{
  GenOpt g; g.mds = mds;
  Prob P = gen_convex(c, g);
  int n = P.n, m = P.m;
  // more fixed variables
  int nfix = 0;
  double tolsel = c.pick<double>({1e-15, 1e-15, 1e-8, 1e-4});
  for(int i = 0; i < n; i++) if(P.xl[i] == P.xu[i]) {
    nfix++;
    // fixed up to the tolerance
    if(tolsel > 1e-10 && c.flip()) { double w = tolsel * 0.3 * std::max(1., std::fabs(P.xu[i])); P.xl[i] -= w; P.xu[i] += w; }
  }
  auto isfix = [&](int i) { return P.xl[i] > -BIG && P.xu[i] < BIG && std::fabs(P.xu[i] - P.xl[i]) <= tolsel * std::max(1., std::fabs(P.xu[i])); };
  Prob W = P;  // as declared
  auto absent = [&](double s) { return s * c.pick<double>({1e20, 1e20, 1e21, 1e30, DBL_MAX, INF}); };
  int nabs = 0;
  for(int i = 0; i < n; i++) { if(P.xl[i] <= -BIG) W.xl[i] = absent(-1), nabs++; if(P.xu[i] >= BIG) W.xu[i] = absent(1), nabs++; }
  for(int j = 0; j < m; j++) { if(P.cl[j] <= -BIG) W.cl[j] = absent(-1), nabs++; if(P.cu[j] >= BIG) W.cu[j] = absent(1), nabs++; }
  OptGen og; og.relax = false; og.tol = false;
  auto o0 = gen_opts(c, mds, og);
  o0.push_back(od("tolerance", c.pick<double>({1e-8, 1e-7, 1e-6})));
  o0.push_back(oi("max_iter", 600));
  o0.push_back(od("fixed_var_tolerance", tolsel));
  c << itf_name(mds) << "fixed=" << nfix << " absent=" << nabs << " opts " << str(o0) << "\n" << str(W) << " true x*=" << pbt::str(P.xs) << "\n";
  int compared = 0;
  for(int k = 0; k < 3; k++) {
    Treat t;
    t.relax = c.pick<double>({1e-8, 0., 1e-10, 1e-6});
    t.fv = c.pick<std::string>({"none", "relax", "remove"});
    t.pert = c.pick<double>({1e-8, 1e-10, 1e-6});
    if(t.fv == "none" && t.relax == 0. && nfix) t.fv = "relax";
    auto o = o0;
    o.push_back(os("fixed_var", t.fv));
    o.push_back(od("bound_relax_perturb", t.relax));
    o.push_back(od("fixed_var_perturb", t.pert));
    User U(W);
    U.one_call = c.flip();
    U.start_mode = (int)c.range(0, 4);
    if(U.start_mode >= 3) {
      U.zl0.resize(n); U.zu0.resize(n); U.lam0.resize(m);
      for(int i = 0; i < n; i++) U.zl0[i] = W.xl[i] > -BIG ? c.uni(0.1, 2) : 0., U.zu0[i] = W.xu[i] < BIG ? c.uni(0.1, 2) : 0.;
      for(auto& v : U.lam0) v = c.uni(-1, 1);
    }
    if(U.start_mode >= 4) for(int j : P.ineqs()) U.s0.push_back(P.cl[j] > -BIG ? P.cl[j] + 0.2 : P.cu[j] - 0.2);
    double wid = std::max(t.relax, t.relax == 0. ? t.pert : 0.);
    U.relax = wid;
    bool removed = t.fv == "remove" && !mds && nfix > 0;
    if(removed) { U.x0_alt = U.start_mode == 0 ? dvec(n, 0.) : U.x0; for(int i = 0; i < n; i++) if(isfix(i)) U.x0_alt[i] = W.xl[i]; }
    c << "treatment " << k << ": fixed_var=" << t.fv << " bound_relax_perturb=" << t.relax << " fixed_var_perturb=" << t.pert << (U.one_call ? " one-call" : " two-call") << " start_mode=" << U.start_mode << "\n";
    Result r = solve(U, mds, o);
    c.label((removed ? "removed" : t.fv) + std::to_string(r.status));
    if(!U.bad_key.empty()) fail(U.bad_key, U.bad_msg);
    check((int)r.x.size() == n, "bounds:size");
    // every reported point respects the declared bounds
    auto inb = [&](const dvec& x, const char* w, bool exact) {
      for(int i = 0; i < n; i++) {
        double el = (isfix(i) || t.relax > 0 ? wid : 0.) * std::max({1., std::fabs(P.xl[i]), isfix(i) ? std::fabs(P.xu[i]) : 0.}) * 1.0000001 + 4 * EPS * std::fabs(P.xl[i]), eu = (isfix(i) || t.relax > 0 ? wid : 0.) * std::max({1., isfix(i) ? std::fabs(P.xl[i]) : 0., std::fabs(P.xu[i])}) * 1.0000001 + 4 * EPS * std::fabs(P.xu[i]);
        // the algorithm may move bounds by this much when slacks get tiny
        if(!exact) el += 2e-12 * std::max(1., std::fabs(P.xl[i])), eu += 2e-12 * std::max(1., std::fabs(P.xu[i]));
        if(removed && isfix(i)) check(x[i] >= P.xl[i] && x[i] <= P.xu[i], "bounds:removed-value", std::string(w) + ": removed variable " + std::to_string(i) + " has value " + pbt::str(x[i]) + " instead of " + pbt::str(P.xl[i]));
        check(P.xl[i] <= -BIG || x[i] >= P.xl[i] - el, "bounds:lower", std::string(w) + ": x[" + std::to_string(i) + "]=" + pbt::str(x[i]) + " below " + pbt::str(P.xl[i]));
        check(P.xu[i] >= BIG || x[i] <= P.xu[i] + eu, "bounds:upper", std::string(w) + ": x[" + std::to_string(i) + "]=" + pbt::str(x[i]) + " above " + pbt::str(P.xu[i]));
      }
    };
    inb(r.x, "getSolution", false);
    if(U.nsol) {
      inb(U.sx, "solution_callback", false);
      pbt::eq_arr(U.sx.data(), r.x, "bounds:callback-x");
      pbt::eq_arr(U.szl.data(), r.zl, "bounds:callback-zl");
      pbt::eq_arr(U.szu.data(), r.zu, "bounds:callback-zu");
    }
    for(auto& I : U.its) inb(I.x, "iterate_callback", false);
    for(int i = 0; i < n; i++) {
      if(P.xl[i] <= -BIG) check(r.zl[i] == 0., "bounds:z-absent", "zl[" + std::to_string(i) + "]=" + pbt::str(r.zl[i]) + " for an absent bound");
      if(P.xu[i] >= BIG) check(r.zu[i] == 0., "bounds:z-absent", "zu[" + std::to_string(i) + "]=" + pbt::str(r.zu[i]) + " for an absent bound");
      check(r.zl[i] >= 0 && r.zu[i] >= 0, "bounds:z-sign");
    }
    if(r.status != Solve_Success) continue;
    compared++;
    // first-order conditions of the declared problem, multipliers of removed variables reconstructed
    Result q = r;
    Prob K = P;
    if(removed) for(int i = 0; i < n; i++) if(isfix(i)) {  // its multiplier is whatever stationarity needs
      dvec gr(n); P.grad(r.x.data(), gr.data());
      double s = gr[i]; for(int j = 0; j < m; j++) s += r.lam[j] * P.dc(j, i, r.x.data());
      K.q[i] -= s; K.c0 += s * r.x[i]; K.xl[i] = -BIG; K.xu[i] = BIG;
    }
    auto ok = o; ok.push_back(od("bound_relax_perturb", std::max(t.relax, 1e-12)));
    if(t.relax == 0. && !removed) for(int i = 0; i < n; i++) if(isfix(i)) { double w = wid * std::max(1., std::fabs(P.xu[i])); K.xl[i] -= w; K.xu[i] += w; }
    if(tolsel < 1e-10 || nfix == 0) check_kkt(K, q, ok, U.start_mode == 0 ? dvec(n, 0.) : P.x0, 4.);
    double T = 0, sm = 1;
    { Scal S = scaling(P, U.start_mode == 0 ? dvec(n, 0.) : P.x0, o); sm = S.f; for(double s : S.con) sm = std::min(sm, s); }
    double nm = 0; for(double v : r.lam) nm += std::fabs(v); for(int i = 0; i < n; i++) nm += r.zl[i] + r.zu[i];
    T = 1e3 * (getd(o, "tolerance", 1e-8) * std::max(1., nm / 100) / sm + wid * 10 + (tolsel > 1e-10 && nfix ? tolsel : 0.));
    for(int i = 0; i < n; i++) check(std::fabs(r.x[i] - P.xs[i]) <= T * (1 + std::fabs(P.xs[i])), "bounds:optimum", "x[" + std::to_string(i) + "]=" + pbt::str(r.x[i]) + " but the unique minimiser has " + pbt::str(P.xs[i]) + " (allowed " + pbt::str(T) + ")");
    double fs = P.f(P.xs.data());
    check(std::fabs(r.obj - fs) <= T * (10 + std::fabs(fs)), "bounds:objective", "objective " + pbt::str(r.obj) + " expected " + pbt::str(fs));
  }
  c.nontrivial(compared >= 2 && nfix + nabs > 0);
}
PBT_TARGET(bounds_dense) { fixed_bounds(c, false); }
PBT_TARGET(bounds_mds) { fixed_bounds(c, true); }
#ifdef HIOP_SPARSE
PBT_TARGET(bounds_sparse) { sp_mode() = 1; fixed_bounds(c, true); }
#endif
