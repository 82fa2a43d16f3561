// C27 (starting points are taken over as given)
#include "solver.hpp"

static double proj(double x, bool hl, double l, bool hu, double u, double k1, double k2)
{
  if(hl && hu) {
    double g = k2 * (u - l), pl = l + std::min(k1 * std::max(1., std::fabs(l)), g), pu = u - std::min(k1 * std::max(1., std::fabs(u)), g);
    return x < pl ? pl : x > pu ? pu : x;
  }
  if(hl) return std::max(x, l + k1 * std::max(1., std::fabs(l)));
  if(hu) return std::min(x, u - k1 * std::max(1., std::fabs(u)));
  return x;
}
static void start_case(Ctx& c, bool mds)
{
  GenOpt g; g.mds = mds; g.fixed = false;
  Prob P = c.flip() ? gen_convex(c, g) : gen_nonconvex(c, g);
  int n = P.n, m = P.m;
  ivec in = P.ineqs();
  int mi = (int)in.size();
  if(c.flip()) { double b = c.pick<double>({30., 300.}); for(int j = 0; j < m; j++) if(c.flip()) { for(int i = 0; i < n; i++) P.A(j, i) *= b, P.D(j, i) *= b; P.e[j] *= b; P.bil[j] *= b; P.cl[j] = P.cl[j] > -BIG ? P.cl[j] * b : P.cl[j]; P.cu[j] = P.cu[j] < BIG ? P.cu[j] * b : P.cu[j]; } }
  for(int i = 0; i < n; i++) P.x0[i] = c.chance(1, 4) ? c.uni(-50, 50) : c.uni(-4, 4);
  OptGen og; og.tol = false;
  auto o = gen_opts(c, mds, og);
  o.push_back(oi("max_iter", (int)c.range(1, 4)));
  double p = getd(o, "bound_relax_perturb", 1e-8), k1 = getd(o, "kappa1", 1e-2), k2 = getd(o, "kappa2", 1e-2);
  bool ws = c.chance(1, 3);
  if(ws) o.push_back(os("warm_start", "yes"));
  User U(P);
  U.one_call = c.flip();
  U.start_mode = (int)c.range(0, 4);
  U.use_warm = ws && c.chance(2, 3);
  U.relax = p;
  bool duals = U.use_warm || U.start_mode >= 3, slacks = U.use_warm || U.start_mode >= 4, have = U.use_warm || U.start_mode > 0;
  auto inside = [&](bool hl, double l, bool hu, double u) { return hl && hu ? l + (u - l) * c.uni(0.2, 0.8) : hl ? l + c.uni(0.5, 5) : hu ? u - c.uni(0.5, 5) : c.uni(-4, 4); };
  auto hl = [&](int i) { return P.xl[i] > -BIG; };
  auto hu = [&](int i) { return P.xu[i] < BIG; };
  auto dl = [&](int j) { return P.cl[j] > -BIG; };
  auto du = [&](int j) { return P.cu[j] < BIG; };
  bool interior = U.use_warm || c.chance(1, 3);
  if(interior) for(int i = 0; i < n; i++) P.x0[i] = inside(hl(i), P.xl[i], hu(i), P.xu[i]);
  U.x0 = P.x0;
  if(duals) {
    U.zl0.resize(n); U.zu0.resize(n); U.lam0.resize(m);
    for(int i = 0; i < n; i++) U.zl0[i] = hl(i) ? c.uni(0.01, 5) : 0., U.zu0[i] = hu(i) ? c.uni(0.01, 5) : 0.;
    for(auto& v : U.lam0) v = c.uni(-3, 3);
  }
  if(slacks) for(int j : in) U.s0.push_back(interior || U.use_warm ? inside(dl(j), P.cl[j], du(j), P.cu[j]) : c.uni(-20, 20));
  if(U.use_warm) { U.vl0.resize(mi); U.vu0.resize(mi); for(int k = 0; k < mi; k++) U.vl0[k] = dl(in[k]) ? c.uni(0.01, 5) : 0., U.vu0[k] = du(in[k]) ? c.uni(0.01, 5) : 0.; }
  c << itf_name(mds) << (U.one_call ? "one-call" : "two-call") << " start_mode=" << U.start_mode << (ws ? U.use_warm ? " warm start given" : " warm start refused" : "") << " opts " << str(o) << "\n" << str(P) << " zl0=" << pbt::str(U.zl0) << " zu0=" << pbt::str(U.zu0) << " lam0=" << pbt::str(U.lam0) << " s0=" << pbt::str(U.s0) << "\n";
  Result r = solve(U, mds, o);
  (void)r;
  if(!U.bad_key.empty()) fail(U.bad_key, U.bad_msg);
  check(!U.its.empty(), "start:no-iterate", "no iterate was reported");
  IterRec& I = U.its[0];
  check(I.iter == 0, "start:iter");
  dvec x0 = have ? P.x0 : dvec(n, 0.);
  Scal S = scaling(P, x0, o);
  auto cmp = [&](const dvec& got, const dvec& want, const dvec& tol, const char* w) { pbt::close_arr(got.data(), want, tol, std::string("start:") + w); };
  auto rlx = [&](double b, double s) { return b + s * p * std::max(1., std::fabs(b)); };
  // primal variables
  dvec wx(n), tx(n);
  for(int i = 0; i < n; i++) {
    double l = rlx(P.xl[i], -1), u = rlx(P.xu[i], 1);
    wx[i] = U.use_warm ? x0[i] : proj(x0[i], hl(i), l, hu(i), u, k1, k2);
    tx[i] = wx[i] == x0[i] ? 0. : 1e-13 * (1 + std::fabs(P.xl[i] > -BIG ? P.xl[i] : 0.) + std::fabs(P.xu[i] < BIG ? P.xu[i] : 0.));
    if(hl(i)) check(I.x[i] > l, "start:not-interior"); if(hu(i)) check(I.x[i] < u, "start:not-interior");
  }
  cmp(I.x, wx, tx, "x");
  // slacks of the inequalities
  dvec wsl(mi), ts(mi);
  for(int k = 0; k < mi; k++) {
    int j = in[k]; double s = S.con[j], v = slacks ? U.s0[k] : P.c(j, I.x.data());
    double l = rlx(P.cl[j], -1) * s, u = rlx(P.cu[j], 1) * s, vv = v * s;
    double w = U.use_warm ? vv : proj(vv, dl(j), l, du(j), u, k1, k2);
    wsl[k] = w / s; ts[k] = 1e-13 * ((1 + std::fabs(l > -BIG * s * 0.5 ? l : 0.) + std::fabs(u < BIG * s * 0.5 ? u : 0.)) / s + std::fabs(v));
  }
  cmp(I.s, wsl, ts, "slacks");
  // multipliers
  auto dual = [&](const dvec& got, const dvec& given, const char* w, bool lower) {
    dvec t(n), tol(n);
    for(int i = 0; i < n; i++) { t[i] = duals ? given[i] : (lower ? hl(i) : hu(i)) ? 1. / S.f : 0.; tol[i] = 1e-14 * std::fabs(t[i]); }
    cmp(got, t, tol, w);
  };
  dual(I.zl, U.zl0, "zl", true); dual(I.zu, U.zu0, "zu", false);
  if(duals) { dvec t(m); for(int j = 0; j < m; j++) t[j] = 1e-14 * std::fabs(U.lam0[j]); cmp(I.lam, U.lam0, t, "lambda"); }
  else if(gets(o, "duals_init", "lsq") == "zero") cmp(I.lam, dvec(m, 0.), dvec(m, 0.), "lambda");
  else for(double v : I.lam) check(std::isfinite(v), "start:lambda-finite");
  bool sc = S.f != 1.; for(double v : S.con) sc |= v != 1.;
  c.label(std::string(duals ? "duals " : "") + (slacks ? "slacks " : "") + (U.use_warm ? "warm " : ws ? "warm-refused " : "") + (sc ? "scaled" : "unscaled"));
  c.nontrivial(m > 0 && n > 1 && (have || ws));
}
PBT_TARGET(start_dense) { start_case(c, false); }
PBT_TARGET(start_mds) { start_case(c, true); }
#ifdef HIOP_SPARSE
PBT_TARGET(start_sparse) { sp_mode() = 1; start_case(c, true); }
#endif
