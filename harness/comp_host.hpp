// iterates, residuals and comparisons shared by the component harnesses
#pragma once
#include "comp.hpp"
#include "hiopResidual.hpp"
#include "hiopLogBarProblem.hpp"

namespace {
struct Acc {
  double v = 0, m = 0;
  void add(double t) { v += t; m += std::fabs(t); }
};
void cmp(double got, const Acc& a, const std::string& key, int ops = 40) { pbt::close_val(got, a.v, ops * EPS * a.m, "bar:" + key); }
void cmpv(const hiopVector& g, const std::vector<Acc>& a, const std::string& key, int ops = 40)
{
  check((size_t)g.get_local_size() == a.size(), "bar:" + key + ".size");
  dvec w, t;
  for(auto& x : a) w.push_back(x.v), t.push_back(ops * EPS * x.m);
  near(g.local_data_const(), w, t, "bar:" + key);
}
struct Host {  // a finalised formulation with everything a component needs
  Prob P;
  std::unique_ptr<User> U;
  std::unique_ptr<Form> F;
  hiopNlpFormulation* N = nullptr;
  std::unique_ptr<hiopMatrix> Jc, Jd;
  dvec xl, xu, ixl, ixu, dl, du, idl, idu, crhs;
  int n, me, mi;
};
void make_host(Ctx& c, Host& H, Kind kind, const std::vector<Opt>& extra = {}, bool tight = false)
{
  bool fixed;
  Prob P0 = gen_prob(c, kind != DENSE, fixed);
  H.P = declare(c, P0);
  auto o = gen_nlp_opts(c, fixed);
  for(auto& e : extra) o.push_back(e);
  if(tight) {
    for(int i = 0; i < H.P.n; i++) if(c.chance(1, 3) && H.P.xu[i] < BIG && H.P.xl[i] > -BIG) H.P.xu[i] = H.P.xl[i] + std::max(1., std::fabs(H.P.xl[i])) * c.pick<double>({2e-15, 5e-15, 1e-14, 1e-13, 1e-12, 1e-9, 1e-6});
    for(int i = 0; i < H.P.n; i++) if(H.P.xu[i] < BIG && H.P.xu[i] - H.P.xl[i] <= 1.2e-10 * std::max(1., std::fabs(H.P.xu[i]))) fixed = true;
    if(gets(o, "fixed_var", "none") == "none" && getd(o, "bound_relax_perturb", 1e-8) == 0. && fixed) o.push_back(os("fixed_var", "relax"));
  }
  H.U.reset(new User(H.P));
  H.U->check_bounds = false;
  H.U->eq_as_ineq = kind == SPARSE_INEQ;
  H.U->one_call = c.flip();
  c << kind_name[kind] << " opts " << str(o) << "\n" << str(H.P);
  H.F.reset(new Form(kind, H.P, *H.U, o));
  H.F->finalize();
  H.N = H.F->nlp.get();
  auto& N = *H.N;
  H.n = H.F->n(); H.me = (int)H.F->eq.size(); H.mi = (int)H.F->in.size();
  H.xl = get(N.get_xl()); H.xu = get(N.get_xu()); H.ixl = get(N.get_ixl()); H.ixu = get(N.get_ixu());
  H.dl = get(N.get_dl()); H.du = get(N.get_du()); H.idl = get(N.get_idl()); H.idu = get(N.get_idu()); H.crhs = get(N.get_crhs());
  c << " xl=" << pbt::str(H.xl) << " xu=" << pbt::str(H.xu) << " dl=" << pbt::str(H.dl) << " du=" << pbt::str(H.du) << "\n";
}
double gval(Ctx& c, int style) { return style == 0 ? c.moderate() : style == 1 ? c.moderate() * std::pow(10., (int)c.range(0, 8) - 4) : (double)((int)c.range(0, 8) - 4); }
double gpos(Ctx& c, int style) { double v = std::fabs(gval(c, style)); return v == 0. ? 1. : v; }
dvec gvec(Ctx& c, int k, int style) { dvec v(k); for(auto& x : v) x = gval(c, style); return v; }
// patterned positive vector
dvec pvec(Ctx& c, const dvec& pat, int style) { dvec v(pat.size(), 0.); for(size_t i = 0; i < v.size(); i++) if(pat[i] != 0.) v[i] = gpos(c, style); return v; }
struct ItV { dvec x, d, sxl, sxu, sdl, sdu, yc, yd, zl, zu, vl, vu; };
ItV gen_it(Ctx& c, const Host& H, int style)
{
  ItV v;
  v.x = gvec(c, H.n, style); v.d = gvec(c, H.mi, style);
  v.sxl = pvec(c, H.ixl, style); v.sxu = pvec(c, H.ixu, style); v.sdl = pvec(c, H.idl, style); v.sdu = pvec(c, H.idu, style);
  v.yc = gvec(c, H.me, style); v.yd = gvec(c, H.mi, style);
  v.zl = pvec(c, H.ixl, style); v.zu = pvec(c, H.ixu, style); v.vl = pvec(c, H.idl, style); v.vu = pvec(c, H.idu, style);
  return v;
}
void put(hiopIterate& it, const ItV& v)
{
  set(*it.get_x(), v.x); set(*it.get_d(), v.d); set(*it.get_sxl(), v.sxl); set(*it.get_sxu(), v.sxu); set(*it.get_sdl(), v.sdl); set(*it.get_sdu(), v.sdu);
  set(*it.get_yc(), v.yc); set(*it.get_yd(), v.yd); set(*it.get_zl(), v.zl); set(*it.get_zu(), v.zu); set(*it.get_vl(), v.vl); set(*it.get_vu(), v.vu);
}
void same_it(const hiopIterate& it, const ItV& v, const std::string& key)
{
  const std::pair<const hiopVector*, const dvec*> a[] = {{it.get_x(), &v.x}, {it.get_d(), &v.d}, {it.get_sxl(), &v.sxl}, {it.get_sxu(), &v.sxu}, {it.get_sdl(), &v.sdl}, {it.get_sdu(), &v.sdu}, {it.get_yc(), &v.yc}, {it.get_yd(), &v.yd}, {it.get_zl(), &v.zl}, {it.get_zu(), &v.zu}, {it.get_vl(), &v.vl}, {it.get_vu(), &v.vu}};
  const char* nm[] = {"x", "d", "sxl", "sxu", "sdl", "sdu", "yc", "yd", "zl", "zu", "vl", "vu"};
  for(int k = 0; k < 12; k++) pbt::eq_arr(a[k].first->local_data_const(), *a[k].second, key + "-" + nm[k]);
}
std::string its(const ItV& v)
{
  return "x=" + pbt::str(v.x) + " d=" + pbt::str(v.d) + " sxl=" + pbt::str(v.sxl) + " sxu=" + pbt::str(v.sxu) + " sdl=" + pbt::str(v.sdl) + " sdu=" + pbt::str(v.sdu) + "\n yc=" + pbt::str(v.yc) + " yd=" + pbt::str(v.yd) + " zl=" + pbt::str(v.zl) + " zu=" + pbt::str(v.zu) + " vl=" + pbt::str(v.vl) + " vu=" + pbt::str(v.vu) + "\n";
}
// linear damping: +1 for entries bounded only from below, -1 only from above
double damp(double lo, double up) { return lo != 0. && up == 0. ? 1. : lo == 0. && up != 0. ? -1. : 0.; }
double ninf_(const std::vector<Acc>& a) { double r = 0; for(auto& x : a) r = std::max(r, std::fabs(x.v)); return r; }
double tmax(const std::vector<Acc>& a) { double r = 0; for(auto& x : a) r = std::max(r, x.m); return r; }
Acc one(const std::vector<Acc>& a) { Acc r; for(auto& x : a) { r.v += std::fabs(x.v); r.m += x.m; } return r; }
Acc plus(Acc a, const Acc& b) { a.v += b.v; a.m += b.m; return a; }

}
