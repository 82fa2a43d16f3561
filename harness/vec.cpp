// C16 / C07: operations of hiopVectorPar and hiopVectorIntSeq against elementwise reference results.
#include "common.hpp"
using namespace hiop;
using pbt::check;
using pbt::fail;

// numerically careful global reduction on the reference
static double absmax(const dvec& v) { double m = 0; for(double x : v) m = std::max(m, std::fabs(x)); return m; }
static double abssum(const dvec& v) { double m = 0; for(double x : v) m += std::fabs(x); return m; }
static dvec tolv(size_t n, double t = 0.) { return dvec(n, t); }

typedef std::vector<index_type> part_t;

// ---- operations that act elementwise on `x` with operands of the same partitioning; also valid distributed ----
static const int N_ELEM = 40;
static void elem_op(Ctx& c, DV& x, int op)
{
  const size_t n = x.g.size();
  auto P = x.part;
  dvec w(n), t(n, 0.);
  const dvec o = x.g;
  switch(op) {
  case 0: { (*x).setToZero(); x.expect(dvec(n, 0.), "setToZero"); break; }
  case 1: { double a = c.num(); (*x).setToConstant(a); x.expect(dvec(n, a), "setToConstant"); break; }
  case 2: {
    DV s(gen_pat(c, n), P); double a = c.num();
    (*x).setToConstant_w_patternSelect(a, *s);
    for(size_t i = 0; i < n; i++) w[i] = s.g[i] == 1. ? a : 0.;
    x.expect(w, "setToConstant_w_patternSelect"); s.unchanged("setToConstant_w_patternSelect"); c.nontrivial(mixed(s.g)); break;
  }
  case 3: {
    DV y(gen_special(c, n), P);
    switch(c.draw(2)) {
    case 0: (*x).copyFrom(*y); break;
    case 1: (*x).copy_from_vectorpar(*y); break;
    default: (*x).copyFrom((const double*)(*y).local_data_const());
    }
    x.expect(y.g, "copyFrom"); y.unchanged("copyFrom"); break;
  }
  case 4: {
    DV y(gen_special(c, n), P), s(gen_pat(c, n), P);
    (*x).copy_from_w_pattern(*y, *s);
    for(size_t i = 0; i < n; i++) w[i] = s.g[i] == 1. ? y.g[i] : o[i];
    x.expect(w, "copy_from_w_pattern"); y.unchanged("copy_from_w_pattern"); s.unchanged("copy_from_w_pattern"); c.nontrivial(mixed(s.g)); break;
  }
  case 5: {
    DV y(gen_vec(c, n), P);
    if(c.flip()) { (*x).copy_to_vectorpar(*y); }
    else { dvec buf(x.nloc() + 2, 77.); (*x).copyTo(buf.data() + 1); check(buf[0] == 77. && buf.back() == 77., "copyTo:overrun"); (*y).copyFrom(buf.data() + 1); }
    y.expect(o, "copyTo"); x.unchanged("copyTo"); break;
  }
  case 6: {
    DV y(gen_vec(c, n), P);
    (*x).componentMult(*y);
    for(size_t i = 0; i < n; i++) w[i] = o[i] * y.g[i], t[i] = 2 * EPS * std::fabs(w[i]);
    x.expect(w, t, "componentMult"); y.unchanged("componentMult"); break;
  }
  case 7: {
    DV y(gen_nz(c, n), P);
    (*x).componentDiv(*y);
    for(size_t i = 0; i < n; i++) w[i] = o[i] / y.g[i], t[i] = 2 * EPS * std::fabs(w[i]);
    x.expect(w, t, "componentDiv"); y.unchanged("componentDiv"); break;
  }
  case 8: {
    DV s(gen_pat(c, n), P); dvec yy = gen_nz(c, n);
    for(size_t i = 0; i < n; i++) if(s.g[i] == 0.) yy[i] = c.pick<double>({0., 1., 2.});
    DV y(yy, P);
    (*x).componentDiv_w_selectPattern(*y, *s);
    for(size_t i = 0; i < n; i++) w[i] = s.g[i] == 0. ? 0. : o[i] / yy[i], t[i] = 2 * EPS * std::fabs(w[i]);
    x.expect(w, t, "componentDiv_w_selectPattern"); y.unchanged("componentDiv_w_selectPattern"); c.nontrivial(mixed(s.g)); break;
  }
  case 9: { double a = c.num(); (*x).component_min(a); for(size_t i = 0; i < n; i++) w[i] = std::min(o[i], a); x.expect(w, "component_min(c)"); break; }
  case 10: { DV y(gen_vec(c, n), P); (*x).component_min(*y); for(size_t i = 0; i < n; i++) w[i] = std::min(o[i], y.g[i]); x.expect(w, "component_min"); y.unchanged("component_min"); break; }
  case 11: { double a = c.num(); (*x).component_max(a); for(size_t i = 0; i < n; i++) w[i] = std::max(o[i], a); x.expect(w, "component_max(c)"); break; }
  case 12: { DV y(gen_vec(c, n), P); (*x).component_max(*y); for(size_t i = 0; i < n; i++) w[i] = std::max(o[i], y.g[i]); x.expect(w, "component_max"); y.unchanged("component_max"); break; }
  case 13: { (*x).component_abs(); for(size_t i = 0; i < n; i++) w[i] = std::fabs(o[i]); x.expect(w, "component_abs"); break; }
  case 14: { (*x).component_sgn(); for(size_t i = 0; i < n; i++) w[i] = o[i] > 0 ? 1. : o[i] < 0 ? -1. : 0.; x.expect(w, "component_sgn"); break; }
  case 15: {
    for(auto& g : x.g) g = std::fabs(g);
    x.put(); dvec oo = x.g; (*x).component_sqrt();
    for(size_t i = 0; i < n; i++) w[i] = std::sqrt(oo[i]), t[i] = 2 * EPS * w[i];
    x.expect(w, t, "component_sqrt"); break;
  }
  case 16: { double a = c.pick<double>({0., 1., -1., 0.5, c.num()}); (*x).scale(a); for(size_t i = 0; i < n; i++) w[i] = a * o[i], t[i] = EPS * std::fabs(w[i]); x.expect(w, t, "scale"); break; }
  case 17: {
    DV y(gen_vec(c, n), P); double a = c.pick<double>({0., 1., -1., 0.5, c.num()});
    (*x).axpy(a, *y);
    for(size_t i = 0; i < n; i++) w[i] = o[i] + a * y.g[i], t[i] = 4 * EPS * (std::fabs(o[i]) + std::fabs(a * y.g[i]));
    x.expect(w, t, "axpy"); y.unchanged("axpy"); break;
  }
  case 18: {
    DV y(gen_vec(c, n), P), s(gen_pat(c, n), P); double a = c.pick<double>({0., 1., -1., 0.5, c.num()});
    (*x).axpy_w_pattern(a, *y, *s);
    for(size_t i = 0; i < n; i++) { w[i] = o[i]; if(s.g[i] == 1.) w[i] += a * y.g[i], t[i] = 4 * EPS * (std::fabs(o[i]) + std::fabs(a * y.g[i])); }
    x.expect(w, t, "axpy_w_pattern"); y.unchanged("axpy_w_pattern"); s.unchanged("axpy_w_pattern"); c.nontrivial(mixed(s.g)); break;
  }
  case 19: {
    DV y(gen_vec(c, n), P), z(gen_vec(c, n), P); double a = c.pick<double>({0., 1., -1., 0.5, c.num()});
    (*x).axzpy(a, *y, *z);
    for(size_t i = 0; i < n; i++) { double d = a * y.g[i] * z.g[i]; w[i] = o[i] + d, t[i] = 6 * EPS * (std::fabs(o[i]) + std::fabs(d)); }
    x.expect(w, t, "axzpy"); y.unchanged("axzpy"); z.unchanged("axzpy"); break;
  }
  case 20: {
    DV y(gen_vec(c, n), P), z(gen_nz(c, n), P); double a = c.pick<double>({0., 1., -1., 0.5, c.num()});
    (*x).axdzpy(a, *y, *z);
    for(size_t i = 0; i < n; i++) { double d = a * y.g[i] / z.g[i]; w[i] = o[i] + d, t[i] = 6 * EPS * (std::fabs(o[i]) + std::fabs(d)); }
    x.expect(w, t, "axdzpy"); y.unchanged("axdzpy"); z.unchanged("axdzpy"); break;
  }
  case 21: {
    DV y(gen_vec(c, n), P), s(gen_pat(c, n), P); dvec zz = gen_nz(c, n);
    for(size_t i = 0; i < n; i++) if(s.g[i] == 0.) zz[i] = c.pick<double>({0., 1.});
    DV z(zz, P); double a = c.pick<double>({0., 1., -1., 0.5, c.num()});
    (*x).axdzpy_w_pattern(a, *y, *z, *s);
    for(size_t i = 0; i < n; i++) { w[i] = o[i]; if(s.g[i] == 1.) { double d = a * y.g[i] / zz[i]; w[i] += d, t[i] = 6 * EPS * (std::fabs(o[i]) + std::fabs(d)); } }
    x.expect(w, t, "axdzpy_w_pattern"); y.unchanged("axdzpy_w_pattern"); z.unchanged("axdzpy_w_pattern"); c.nontrivial(mixed(s.g)); break;
  }
  case 22: { double a = c.num(); (*x).addConstant(a); for(size_t i = 0; i < n; i++) w[i] = o[i] + a; x.expect(w, "addConstant"); break; }
  case 23: {
    DV s(gen_pat(c, n), P); double a = c.nz();
    (*x).addConstant_w_patternSelect(a, *s);
    for(size_t i = 0; i < n; i++) w[i] = s.g[i] == 1. ? o[i] + a : o[i];
    x.expect(w, "addConstant_w_patternSelect"); s.unchanged("addConstant_w_patternSelect"); c.nontrivial(mixed(s.g)); break;
  }
  case 24: { (*x).negate(); for(size_t i = 0; i < n; i++) w[i] = -o[i]; x.expect(w, "negate"); break; }
  case 25: {
    for(auto& g : x.g) if(g == 0.) g = c.nz();
    x.put(); dvec oo = x.g; (*x).invert();
    for(size_t i = 0; i < n; i++) w[i] = 1. / oo[i], t[i] = 2 * EPS * std::fabs(w[i]);
    x.expect(w, t, "invert"); break;
  }
  case 26: {
    DV y(gen_nz(c, n), P), s(gen_pat(c, n), P); double a = c.num();
    (*x).addLogBarrierGrad(a, *y, *s);
    for(size_t i = 0; i < n; i++) { w[i] = o[i]; if(s.g[i] == 1.) { double d = a / y.g[i]; w[i] += d, t[i] = 4 * EPS * (std::fabs(o[i]) + std::fabs(d)); } }
    x.expect(w, t, "addLogBarrierGrad"); y.unchanged("addLogBarrierGrad"); s.unchanged("addLogBarrierGrad"); c.nontrivial(mixed(s.g)); break;
  }
  case 27: {
    DV l(gen_pat(c, n), P), r(gen_pat(c, n), P); double a = c.num(), ct = c.nz();
    (*x).addLinearDampingTerm(*l, *r, a, ct);
    // one-sided damping: +ct where only the left bound is active, -ct where only the right one is
    for(size_t i = 0; i < n; i++) { double sg = l.g[i] - r.g[i]; w[i] = a * o[i] + sg * ct, t[i] = 4 * EPS * (std::fabs(a * o[i]) + std::fabs(sg * ct)); }
    x.expect(w, t, "addLinearDampingTerm"); l.unchanged("addLinearDampingTerm"); r.unchanged("addLinearDampingTerm"); c.nontrivial(mixed(l.g) || mixed(r.g)); break;
  }
  case 28: {
    DV s(gen_pat(c, n), P); (*x).selectPattern(*s);
    for(size_t i = 0; i < n; i++) w[i] = s.g[i] == 0. ? 0. : o[i];
    x.expect(w, "selectPattern"); s.unchanged("selectPattern"); c.nontrivial(mixed(s.g)); break;
  }
  case 29: {
    DV s(gen_pat(c, n), P);
    if(c.flip()) { for(size_t i = 0; i < n; i++) if(s.g[i] == 0.) x.g[i] = 0.; if(n && c.flip()) x.g[c.range(0, n - 1)] = c.num(); x.put(); }
    bool want = true;
    for(size_t i = 0; i < n; i++) if(s.g[i] == 0. && x.g[i] != 0.) want = false;
    check((*x).matchesPattern(*s) == want, "matchesPattern", "matchesPattern expected " + std::to_string(want)); x.unchanged("matchesPattern"); s.unchanged("matchesPattern");
    c.nontrivial(mixed(s.g)); break;
  }
  case 30: {
    // documented clamp z in [mu/(kappa x), kappa mu/x]
    DV s(gen_pat(c, n), P), y(gen_pos(c, n), P); double mu = c.pick<double>({1e-8, 1e-2, 1., 10.}), kap = c.pick<double>({1., 10., 1e10, 1.5});
    for(auto& g : x.g) g = std::fabs(g);
    x.put(); dvec oo = x.g;
    (*x).adjustDuals_plh(*y, *s, mu, kap);
    for(size_t i = 0; i < n; i++) {
      w[i] = oo[i];
      if(s.g[i] == 1.) { double b = mu / y.g[i] / kap, a = mu / y.g[i] * kap; w[i] = std::max(b, std::min(a, oo[i])); t[i] = 8 * EPS * w[i]; }
    }
    x.expect(w, t, "adjustDuals_plh"); y.unchanged("adjustDuals_plh"); s.unchanged("adjustDuals_plh"); c.nontrivial(mixed(s.g)); break;
  }
  case 31: {
    // each bounded entry ends strictly inside and at least the documented distance from the bounds; others untouched
    dvec l(n), u(n), il(n), iu(n); double k1 = c.pick<double>({1e-2, 1e-8, 0.1, 1e-4}), k2 = c.pick<double>({1e-2, 0.4999, 0.1, 1e-5});
    for(size_t i = 0; i < n; i++) {
      l[i] = c.num(); il[i] = c.flip(); iu[i] = c.flip();
      double wd = c.pick<double>({1., 1e-4, 1e-8, 100.}) * (1. + std::fabs(l[i]));
      if(wd * std::min(k1, k2) < 64 * EPS * std::fabs(l[i])) wd = 1. + std::fabs(l[i]);  // the perturbed point must be representable
      u[i] = l[i] + wd;
      switch(c.draw(4)) { case 0: x.g[i] = l[i]; break; case 1: x.g[i] = u[i]; break; case 2: x.g[i] = l[i] + 0.5 * wd; break; case 3: x.g[i] = l[i] - wd; break; default: x.g[i] = u[i] + 2 * wd; }
      if(!il[i]) l[i] = c.pick<double>({-1e20, 0.}); if(!iu[i]) u[i] = c.pick<double>({1e20, 0.});
    }
    x.put(); dvec oo = x.g; DV L(l, P), U(u, P), IL(il, P), IU(iu, P);
    check((*x).projectIntoBounds_local(*L, *IL, *U, *IU, k1, k2), "projectIntoBounds:returned-false");
    for(size_t i = 0; i < n; i++) {
      w[i] = oo[i];
      double pl = k1 * std::max(1., std::fabs(l[i])), pu = k1 * std::max(1., std::fabs(u[i]));
      if(il[i] && iu[i]) { pl = std::min(pl, k2 * (u[i] - l[i])); pu = std::min(pu, k2 * (u[i] - l[i])); }
      if(il[i]) w[i] = std::max(w[i], l[i] + pl);
      if(iu[i]) w[i] = std::min(w[i], u[i] - pu);
      t[i] = w[i] == oo[i] ? (il[i] || iu[i] ? 4 * EPS * std::fabs(w[i]) + 1e-300 : 0.) : 4 * EPS * (std::fabs(l[i] * il[i]) + std::fabs(u[i] * iu[i])) + 1e-300;
    }
    x.expect(w, t, "projectIntoBounds"); L.unchanged("projectIntoBounds"); U.unchanged("projectIntoBounds");
    for(int i = x.lo(); i < x.hi(); i++) {
      if(il[i]) check(x.g[i] > l[i], "projectIntoBounds:not-strictly-inside");
      if(iu[i]) check(x.g[i] < u[i], "projectIntoBounds:not-strictly-inside");
    }
    c.nontrivial(n > 0); break;
  }
  case 32: {
    for(auto& g : x.g) g = c.pos();
    x.put(); DV d(gen_vec(c, n), P); double tau = c.pick<double>({0.99, 0.995, 0.5, 0.999999});
    bool pat = c.flip(); dvec s(n, 1.);
    if(pat) { s = gen_pat(c, n); for(size_t i = 0; i < n; i++) if(s[i] == 0.) x.g[i] = c.pick<double>({-1., 0., 2.}); x.put(); }
    double want = 1.;
    for(int i = x.lo(); i < x.hi(); i++) if(s[i] != 0. && d.g[i] < 0) want = std::min(want, tau * x.g[i] / -d.g[i]);
    double got;
    if(pat) { DV S(s, P); got = (*x).fractionToTheBdry_w_pattern_local(*d, tau, *S); S.unchanged("fractionToTheBdry"); }
    else got = (*x).fractionToTheBdry_local(*d, tau);
    pbt::close_val(got, want, 4 * EPS * want, pat ? "fractionToTheBdry_w_pattern_local" : "fractionToTheBdry_local");
    x.unchanged("fractionToTheBdry"); d.unchanged("fractionToTheBdry"); c.nontrivial(want < 1); break;
  }
  case 33: {
    bool nonfin = c.flip(); if(nonfin) { x.g = gen_special(c, n); x.put(); }
    bool nn = false, ii = false;
    for(int i = x.lo(); i < x.hi(); i++) nn |= std::isnan(x.g[i]), ii |= std::isinf(x.g[i]);
    check((*x).isnan_local() == nn, "isnan_local"); check((*x).isinf_local() == ii, "isinf_local"); check((*x).isfinite_local() == !(nn || ii), "isfinite_local");
    if(nonfin) { x.g = o; x.put(); }
    break;
  }
  case 34: {
    DV s(gen_pat(c, n), P);
    switch(c.draw(3)) { case 0: break; case 1: for(auto& g : x.g) g = c.pos(); x.put(); break; case 2: for(auto& g : x.g) g = c.pos(); if(n) x.g[c.range(0, n - 1)] = c.pick<double>({0., -1., -1e-300}); x.put(); break;
      default: for(size_t i = 0; i < n; i++) x.g[i] = s.g[i] == 1. ? c.pos() : c.num(); x.put(); }
    bool all = true, sel = true;
    for(size_t i = 0; i < n; i++) { if(!(x.g[i] > 0)) { all = false; if(s.g[i] == 1.) sel = false; } }
    check(((*x).allPositive() != 0) == all, "allPositive", "allPositive expected " + std::to_string(all));
    check(((*x).allPositive_w_patternSelect(*s) != 0) == sel, "allPositive_w_patternSelect", "expected " + std::to_string(sel));
    x.unchanged("allPositive"); s.unchanged("allPositive"); c.nontrivial(mixed(s.g)); break;
  }
  case 35: {
    if(c.flip()) { x.g.assign(n, 0.); if(n && c.flip()) x.g[c.range(0, n - 1)] = c.pick<double>({1., -1e-300, 0., -0.}); x.put(); }
    bool z = true; for(double g : x.g) if(g != 0.) z = false;
    check((*x).is_zero() == z, "is_zero", "is_zero expected " + std::to_string(z)); x.unchanged("is_zero"); break;
  }
  case 36: {
    dvec yy = x.g; bool same = true; if(n && c.flip()) { size_t k = c.range(0, n - 1); yy[k] = c.num(); same = yy[k] == x.g[k]; }
    DV y(yy, P); check((*x).is_equal(*y) == same, "is_equal", "is_equal expected " + std::to_string(same)); x.unchanged("is_equal"); break;
  }
  case 37: {
    // the copies are independent objects
    std::unique_ptr<hiopVector> a((*x).new_copy()), b((*x).alloc_clone());
    check(a->get_size() == (*x).get_size() && b->get_size() == (*x).get_size() && b->get_local_size() == (*x).get_local_size(), "clone:size");
    pbt::eq_arr(a->local_data_const(), x.loc(x.g), "new_copy");
    a->setToConstant(c.num()); b->setToConstant(3.); x.unchanged("clone:aliases"); break;
  }
  case 38: {
    double lo = c.uni(-10, 10), hi = lo + c.uni(0, 5);
    (*x).set_to_random_uniform(lo, hi);
    for(int i = x.lo(); i < x.hi(); i++) { double g = (*x).local_data_const()[i - x.lo()]; check(g >= lo && g <= hi, "set_to_random_uniform:range"); }
    x.put(); break;
  }
  default: {
    // elements of hiopVectorPar are what the accessor shows
    check((*x).local_data() == (*x).local_data_const() && (*x).local_data_host() == (*x).local_data(), "local_data"); check((*x).get_size() == (int)n, "get_size"); break;
  }
  }
}

// ---- reductions (global results must agree on all ranks) ----
static void red_op(Ctx& c, DV& x)
{
  const size_t n = x.g.size();
  auto P = x.part;
  dvec l = x.loc(x.g);
  switch(c.draw(13)) {
  case 0: { long double s = 0; for(double g : x.g) s += (long double)g * g; double w = sqrtl(s); pbt::close_val((*x).twonorm(), w, 8 * EPS * (n + 1) * w, "twonorm"); break; }
  case 1: { if(n && c.chance(1, 4)) { x.g[c.range(0, n - 1)] = c.flip() ? INF : -INF; x.put(); } pbt::close_val((*x).infnorm(), absmax(x.g), 0, "infnorm"); break; }
  case 2: { if(!l.empty()) pbt::close_val((*x).infnorm_local(), absmax(l), 0, "infnorm_local"); break; }
  case 3: { double w = abssum(x.g); pbt::close_val((*x).onenorm(), w, 2 * EPS * (n + 1) * w, "onenorm"); break; }
  case 4: { double w = abssum(l); pbt::close_val((*x).onenorm_local(), w, 2 * EPS * (n + 1) * w, "onenorm_local"); break; }
  case 5: {
    DV y(gen_vec(c, n), P); long double s = 0, a = 0; for(size_t i = 0; i < n; i++) s += (long double)x.g[i] * y.g[i], a += fabsl((long double)x.g[i] * y.g[i]);
    pbt::close_val((*x).dotProductWith(*y), s, 2 * EPS * (n + 1) * a, "dotProductWith"); y.unchanged("dotProductWith"); break;
  }
  case 6: {
    DV s(gen_pat(c, n), P); for(size_t i = 0; i < n; i++) x.g[i] = s.g[i] == 1. ? c.pos() : c.num(); x.put();
    long double w = 0, a = 0; for(int i = x.lo(); i < x.hi(); i++) if(s.g[i] == 1.) w += logl(x.g[i]), a += fabsl(logl(x.g[i]));
    pbt::close_val((*x).logBarrier_local(*s), w, 4 * EPS * (n + 1) * a, "logBarrier_local"); s.unchanged("logBarrier_local"); c.nontrivial(mixed(s.g)); break;
  }
  case 7: { double a = abssum(l); long double w = 0; for(double g : l) w += g; pbt::close_val((*x).sum_local(), w, 2 * EPS * (n + 1) * a, "sum_local"); break; }
  case 8: {
    DV L(gen_pat(c, n), P), R(gen_pat(c, n), P); double mu = c.pos(), kd = c.pos(); long double w = 0, a = 0;
    for(int i = x.lo(); i < x.hi(); i++) if(L.g[i] == 1. && R.g[i] == 0.) w += x.g[i], a += fabsl(x.g[i]);
    pbt::close_val((*x).linearDampingTerm_local(*L, *R, mu, kd), w * mu * kd, 4 * EPS * (n + 2) * a * mu * kd, "linearDampingTerm_local"); L.unchanged("linearDamping"); c.nontrivial(mixed(L.g)); break;
  }
  case 9: { double w = DBL_MAX; for(double g : x.g) w = std::min(w, g); pbt::close_val((*x).min(), w, 0, "min"); break; }
  case 10: { DV s(gen_pat(c, n), P); double w = DBL_MAX; for(size_t i = 0; i < n; i++) if(s.g[i] == 1.) w = std::min(w, x.g[i]); pbt::close_val((*x).min_w_pattern(*s), w, 0, "min_w_pattern"); c.nontrivial(mixed(s.g)); break; }
  case 11: { double v = n && c.flip() ? x.g[c.range(0, n - 1)] : c.num(); int k = 0; for(double g : x.g) k += g < v; check((*x).numOfElemsLessThan(v) == k, "numOfElemsLessThan"); break; }
  case 12: { double v = n && c.flip() ? std::fabs(x.g[c.range(0, n - 1)]) : c.pos(); int k = 0; for(double g : x.g) k += std::fabs(g) < v; check((*x).numOfElemsAbsLessThan(v) == k, "numOfElemsAbsLessThan"); break; }
  default: { double w = abssum(x.g); pbt::close_val((*x).onenorm(), w, 2 * EPS * (n + 1) * w, "onenorm"); break; }
  }
  x.unchanged("reduction");
}

static void elem_seq(Ctx& c)
{
  int n = (int)c.size(0, 40);
  auto P = gen_part(c, n);
  DV x(gen_vec(c, n), P);
  int k = (int)c.range(1, 6);
  c << "n=" << n << " ops:";
  if(n >= 2) c.nontrivial(k > 1);
  for(int i = 0; i < k; i++) {
    // keep magnitudes sane so that results stay finite
    for(auto& g : x.g) if(!std::isfinite(g) || std::fabs(g) > 1e12 || (g != 0 && std::fabs(g) < 1e-12)) g = c.num();
    x.put();
    if(c.chance(1, 4)) { c << " red"; red_op(c, x); }
    else { int op = (int)c.draw(N_ELEM - 1); c << " " << op; c.label("op" + std::to_string(op)); elem_op(c, x, op); }
  }
  c << " x=" << pbt::str(x.g);
}
PBT_TARGET(vec_elementwise) { elem_seq(c); }

// ---- copies between vectors of different sizes, offsets, index maps (non-distributed) ----
PBT_TARGET(vec_copies)
{
  int n = (int)c.size(0, 30);
  dvec src = gen_special(c, n);
  auto x = sv(src);
  int op = (int)c.draw(16);
  c.label("op" + std::to_string(op));
  c << "op " << op << " n=" << n << " src=" << pbt::str(src);
  auto unch = [&](const hiopVectorPar& v, const dvec& w, const char* k) { pbt::eq_arr(v.local_data_const(), w, std::string(k) + ":operand-modified"); };
  switch(op) {
  case 0: { // copyFromStarting raw
    int nv = (int)c.range(0, n), st = (int)c.range(0, n - nv); dvec b = gen_special(c, nv);
    x->copyFromStarting(st, b.data(), nv); dvec w = src; std::copy(b.begin(), b.end(), w.begin() + st);
    pbt::eq_arr(x->local_data(), w, "copyFromStarting(ptr)"); c.nontrivial(nv > 0 && st > 0); break;
  }
  case 1: { // copyFromStarting vector
    int nv = (int)c.range(0, n), st = (int)c.range(0, n - nv); dvec b = gen_special(c, nv); auto y = sv(b);
    x->copyFromStarting(st, *y); dvec w = src; std::copy(b.begin(), b.end(), w.begin() + st);
    pbt::eq_arr(x->local_data(), w, "copyFromStarting(vec)"); unch(*y, b, "copyFromStarting"); c.nontrivial(nv > 0 && st > 0); break;
  }
  case 2: { // copy_from_starting_at: whole vector from an offset of a raw array
    int st = (int)c.range(0, 8), extra = (int)c.range(0, 3); dvec b = gen_special(c, st + n + extra);
    x->copy_from_starting_at(b.data(), st, n); dvec w(b.begin() + st, b.begin() + st + n);
    pbt::eq_arr(x->local_data(), w, "copy_from_starting_at"); c.nontrivial(st > 0 && n > 0); break;
  }
  case 3: { // startingAtCopyFromStartingAt
    if(n == 0) { auto y = sv(gen_vec(c, 3)); x->startingAtCopyFromStartingAt(0, *y, (int)c.range(0, 2)); break; }
    int sd = (int)c.range(0, n - 1), ss = (int)c.range(0, 5), extra = (int)c.range(0, 4); dvec b = gen_special(c, ss + (n - sd) + extra); auto y = sv(b);
    x->startingAtCopyFromStartingAt(sd, *y, ss); dvec w = src; for(int i = sd; i < n; i++) w[i] = b[ss + i - sd];
    pbt::eq_arr(x->local_data(), w, "startingAtCopyFromStartingAt"); unch(*y, b, "startingAtCopyFromStartingAt"); c.nontrivial(sd > 0 || ss > 0); break;
  }
  case 4: { // copyToStarting(start, dst)
    int nd = (int)c.range(0, n), st = (int)c.range(0, n - nd); auto y = sv(gen_vec(c, nd)); x->copyToStarting(st, *y);
    pbt::eq_arr(y->local_data(), dvec(src.begin() + st, src.begin() + st + nd), "copyToStarting(start,vec)"); c.nontrivial(nd > 0 && st > 0); break;
  }
  case 5: { // copyToStarting(dst, start)
    int st = (int)c.range(0, 6), extra = (int)c.range(0, 4); dvec b = gen_special(c, st + n + extra); auto y = sv(b); x->copyToStarting(*y, st);
    std::copy(src.begin(), src.end(), b.begin() + st); pbt::eq_arr(y->local_data(), b, "copyToStarting(vec,start)"); c.nontrivial(n > 0 && (st > 0 || extra > 0)); break;
  }
  case 6: { // copyToStartingAt_w_pattern
    dvec s = gen_pat(c, n); int k = 0; for(double z : s) k += z == 1.; int st = (int)c.range(0, 6), extra = (int)c.range(0, 4); dvec b = gen_special(c, st + k + extra);
    auto y = sv(b), S = sv(s); x->copyToStartingAt_w_pattern(*y, st, *S); int j = st; for(int i = 0; i < n; i++) if(s[i] == 1.) b[j++] = src[i];
    pbt::eq_arr(y->local_data(), b, "copyToStartingAt_w_pattern"); c.nontrivial(mixed(s)); break;
  }
  case 7: case 8: { // two vectors and maps
    ivec p = gen_perm(c, n); int nc = (int)c.range(0, n); ivec cm(p.begin(), p.begin() + nc), dm(p.begin() + nc, p.end());
    auto CM = iv(cm), DM = iv(dm); dvec a = gen_special(c, nc), b = gen_special(c, n - nc); auto A = sv(a), B = sv(b);
    if(op == 7) { x->copy_from_two_vec_w_pattern(*A, *CM, *B, *DM); dvec w(n); for(int i = 0; i < nc; i++) w[cm[i]] = a[i]; for(int i = 0; i < n - nc; i++) w[dm[i]] = b[i]; pbt::eq_arr(x->local_data(), w, "copy_from_two_vec_w_pattern"); unch(*A, a, "copy_from_two_vec"); unch(*B, b, "copy_from_two_vec"); }
    else { x->copy_to_two_vec_w_pattern(*A, *CM, *B, *DM); for(int i = 0; i < nc; i++) a[i] = src[cm[i]]; for(int i = 0; i < n - nc; i++) b[i] = src[dm[i]]; pbt::eq_arr(A->local_data(), a, "copy_to_two_vec_w_pattern"); pbt::eq_arr(B->local_data(), b, "copy_to_two_vec_w_pattern"); unch(*x, src, "copy_to_two_vec"); }
    c.nontrivial(nc > 0 && nc < n); break;
  }
  case 9: { // startingAtCopyToStartingAt
    int nd = (int)c.size(0, 20); dvec b = gen_special(c, nd); auto y = sv(b); int ss = (int)c.range(0, n), sd = (int)c.range(0, nd); int mx = std::min(n - ss, nd - sd);
    int ne = c.flip() ? -1 : (int)c.range(0, mx); if(c.chance(1, 3) && ne == -1) x->startingAtCopyToStartingAt(ss, *y, sd); else x->startingAtCopyToStartingAt(ss, *y, sd, ne);
    int k = ne < 0 ? mx : ne; for(int i = 0; i < k; i++) b[sd + i] = src[ss + i]; pbt::eq_arr(y->local_data(), b, "startingAtCopyToStartingAt"); unch(*x, src, "startingAtCopyToStartingAt"); c.nontrivial(k > 0 && (ss > 0 || sd > 0)); break;
  }
  case 10: { // startingAtCopyToStartingAt_w_pattern: consecutive source elements fill the selected destination slots
    int nd = (int)c.size(0, 20); dvec b = gen_special(c, nd), s = gen_pat(c, nd); auto y = sv(b), S = sv(s); int ss = (int)c.range(0, n), sd = (int)c.range(0, nd); int mx = std::min(n - ss, nd - sd);
    int ne = c.flip() ? -1 : (int)c.range(0, mx); x->startingAtCopyToStartingAt_w_pattern(ss, *y, sd, *S, ne); int k = ne < 0 ? mx : ne, f = 0;
    for(int i = sd; i < nd && f < k; i++) if(s[i] == 1.) b[i] = src[ss + f++]; pbt::eq_arr(y->local_data(), b, "startingAtCopyToStartingAt_w_pattern"); c.nontrivial(f > 0 && mixed(s)); break;
  }
  case 11: case 12: { // copy_from_indexes
    int nv = (int)c.size(1, 30); dvec b = gen_special(c, nv); ivec ix(n); for(auto& i : ix) i = (int)c.range(0, nv - 1); auto I = iv(ix), Y = iv(ix);
    dvec w(n); for(int i = 0; i < n; i++) w[i] = b[ix[i]];
    if(op == 11) { auto y = sv(b); x->copy_from_indexes(*y, *I); unch(*y, b, "copy_from_indexes"); } else x->copy_from_indexes(b.data(), *I);
    pbt::eq_arr(x->local_data(), w, "copy_from_indexes"); c.nontrivial(n > 1); break;
  }
  case 13: { // axpy on index set (indices may repeat)
    dvec o = gen_vec(c, n); auto X = sv(o); int m = n ? (int)c.range(0, n) : 0; ivec ix(m); for(auto& i : ix) i = (int)c.range(0, n - 1); if(c.flip()) { ivec p = gen_perm(c, n); ix.assign(p.begin(), p.begin() + m); }
    dvec v = gen_vec(c, m); auto V = sv(v); auto I = iv(ix); double al = c.pick<double>({0., 1., -1., 0.5, c.num()}); X->axpy(al, *V, *I);
    dvec w = o, t(n, 0.); for(int j = 0; j < m; j++) { w[ix[j]] += al * v[j]; t[ix[j]] += 8 * EPS * (std::fabs(o[ix[j]]) + std::fabs(al * v[j])); } for(auto& q : t) q *= (m + 1);
    pbt::close_arr(X->local_data(), w, t, "axpy(indexes)"); unch(*V, v, "axpy(indexes)"); c.nontrivial(m > 0); break;
  }
  case 14: { // nonlinearity arrays
    typedef hiopInterfaceBase::NonlinearityType NT; std::vector<NT> a(n + 2, hiopInterfaceBase::hiopNonlinear), ref; for(auto& q : a) q = c.pick<NT>({hiopInterfaceBase::hiopLinear, hiopInterfaceBase::hiopQuadratic, hiopInterfaceBase::hiopNonlinear}); ref = a;
    int s = (int)c.range(0, n), e = (int)c.range(s, n);
    if(c.flip()) { NT v = c.pick<NT>({hiopInterfaceBase::hiopLinear, hiopInterfaceBase::hiopQuadratic, hiopInterfaceBase::hiopNonlinear}); x->set_array_from_to(a.data(), s, e, v); for(int i = s; i < e; i++) ref[i] = v; }
    else { int s2 = (int)c.range(0, 3); std::vector<NT> b(s2 + e - s + 1); for(auto& q : b) q = c.pick<NT>({hiopInterfaceBase::hiopLinear, hiopInterfaceBase::hiopQuadratic, hiopInterfaceBase::hiopNonlinear}); x->set_array_from_to(a.data(), s, e, b.data(), s2); for(int i = s; i < e; i++) ref[i] = b[s2 + i - s]; }
    check(a == ref, "set_array_from_to"); c.nontrivial(e > s); break;
  }
  case 15: { // integer vector
    ivec a(n), b(n); for(auto& i : a) i = (int)c.range(-1000, 1000); for(auto& i : b) i = (int)c.range(-5, 5); auto A = iv(a), B = iv(b); auto eq = [&](hiopVectorIntSeq& v, const ivec& w, const char* k) { for(int i = 0; i < n; i++) if(v.local_data_const()[i] != w[i]) fail(k, std::string(k) + " wrong at " + std::to_string(i)); };
    check(A->get_local_size() == n, "int:size");
    switch(c.draw(5)) {
    case 0: A->set_to_zero(); eq(*A, ivec(n, 0), "int:set_to_zero"); break;
    case 1: { int k = (int)c.range(-9, 9); A->set_to_constant(k); eq(*A, ivec(n, k), "int:set_to_constant"); break; }
    case 2: { int i0 = (int)c.range(-9, 9), di = (int)c.range(-3, 3); A->linspace(i0, di); ivec w(n); for(int i = 0; i < n; i++) w[i] = i0 + i * di; eq(*A, w, "int:linspace"); break; }
    case 3: A->copy_from(b.data()); eq(*A, b, "int:copy_from"); break;
    case 4: A->copy_from_vectorseq(*B); eq(*A, b, "int:copy_from_vectorseq"); eq(*B, b, "int:operand"); break;
    default: A->copy_to_vectorseq(*B); eq(*B, a, "int:copy_to_vectorseq"); eq(*A, a, "int:operand");
    }
    c.nontrivial(n > 1); break;
  }
  default: { // set_to_random_uniform is bounded; print writes every element
    FILE* f = tmpfile(); int me = c.flip() ? -1 : (int)c.range(0, n); x->print(f, c.flip() ? "msg" : nullptr, me, -1); long sz = ftell(f); rewind(f); std::string s(sz, 0); if(fread(&s[0], 1, sz, f) != (size_t)sz) {} fclose(f);
    int cnt = std::count(s.begin(), s.end(), ';'); int k = me < 0 ? n : me; check(cnt == k + 1, "print:count", "print wrote " + std::to_string(cnt - 1) + " elements, expected " + std::to_string(k)); 
    size_t p = s.rfind("=["); check(p != std::string::npos, "print:format"); const char* q = s.c_str() + p + 2; for(int i = 0; i < k; i++) { char* e; double v = strtod(q, &e); check(pbt::same(v, src[i]), "print:value", "printed element " + std::to_string(i) + " " + pbt::str(v) + " vs " + pbt::str(src[i])); q = strchr(e, ';') + 1; }
    c.nontrivial(k > 0);
  }
  }
}
