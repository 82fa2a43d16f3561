// C10: search directions against the complete linearised system; C11: inertia and the regularisation schedule
#include "comp_host.hpp"
#include "hiopHessianLowRank.hpp"
#include "hiopPDPerturbation.hpp"
#include "hiopFactAcceptor.hpp"
#include "hiopKKTLinSysDense.hpp"
#include "hiopKKTLinSysMDS.hpp"
#include "dump.hpp"
#ifdef HIOP_SPARSE
#include "hiopKKTLinSysSparse.hpp"
#include "hiopKKTLinSysSparseCondensed.hpp"
#include "hiopKKTLinSysSparseNormalEqn.hpp"
#endif

namespace {
// regularisations chosen by the test; never changed by a rejected factorisation
class FixedReg : public hiopPDPerturbation
{
public:
  int wanted = 0; bool on_reject = false;
  dvec wx, wd, cc, cd;
  bool compute_initial_deltas() override { put_(); return true; }
  bool compute_perturb_wrong_inertia() override { wanted++; return on_reject; }
  bool compute_perturb_singularity() override { wanted++; return on_reject; }
  bool check_consistency() override { return true; }
  void put_() { set(*delta_wx_curr_, wx); set(*delta_wd_curr_, wd); set(*delta_cc_curr_, cc); set(*delta_cd_curr_, cd); }
protected:
  void set_delta_curr_vec(DeltasUpdateType) override {}
  void set_delta_last_vec(DeltasUpdateType) override {}
};
struct Sys {
  int n, me, mi;
  RM H, A, B;  // Hessian, equality and inequality Jacobians
  dvec wx, wd, cc, cd;
  Sys() : H(0, 0), A(0, 0), B(0, 0) {}
};
dvec ddiag(const dvec& zl, const dvec& sl, const dvec& pl, const dvec& zu, const dvec& su, const dvec& pu)
{
  dvec d(zl.size(), 0.);
  for(size_t i = 0; i < d.size(); i++) { if(pl[i] != 0.) d[i] += zl[i] / sl[i]; if(pu[i] != 0.) d[i] += zu[i] / su[i]; }
  return d;
}
// [H+Dx+wx 0 A' B'; 0 Dd+wd 0 -I; A 0 -cc 0; B -I 0 -cd]
RM reduced(const Sys& S, const dvec& Dx, const dvec& Dd)
{
  int n = S.n, me = S.me, mi = S.mi, N = n + 2 * mi + me;
  RM K(N, N);
  for(int i = 0; i < n; i++) { for(int j = 0; j < n; j++) K(i, j) = S.H(i, j); K(i, i) += Dx[i] + S.wx[i]; }
  for(int i = 0; i < mi; i++) K(n + i, n + i) = Dd[i] + S.wd[i];
  int a = n + mi, b = n + mi + me;
  for(int r = 0; r < me; r++) { for(int j = 0; j < n; j++) K(a + r, j) = K(j, a + r) = S.A(r, j); K(a + r, a + r) = -S.cc[r]; }
  for(int r = 0; r < mi; r++) { for(int j = 0; j < n; j++) K(b + r, j) = K(j, b + r) = S.B(r, j); K(b + r, n + r) = K(n + r, b + r) = -1; K(b + r, b + r) = -S.cd[r]; }
  return K;
}
// eigenvalues of a symmetric matrix (cyclic Jacobi)
dvec eig(RM A)
{
  int n = A.m;
  for(int sweep = 0; sweep < 60; sweep++) {
    double off = 0, tot = 0;
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) { tot += A(i, j) * A(i, j); if(i != j) off += A(i, j) * A(i, j); }
    if(off <= 1e-30 * tot || off == 0) break;
    for(int p = 0; p < n; p++) for(int q = p + 1; q < n; q++) {
      if(A(p, q) == 0.) continue;
      double th = (A(q, q) - A(p, p)) / (2 * A(p, q)), t = (th >= 0 ? 1. : -1.) / (std::fabs(th) + std::sqrt(th * th + 1)), cs = 1 / std::sqrt(t * t + 1), sn = t * cs;
      for(int k = 0; k < n; k++) { double x = A(k, p), y = A(k, q); A(k, p) = cs * x - sn * y; A(k, q) = sn * x + cs * y; }
      for(int k = 0; k < n; k++) { double x = A(p, k), y = A(q, k); A(p, k) = cs * x - sn * y; A(q, k) = sn * x + cs * y; }
    }
  }
  dvec e(n); for(int i = 0; i < n; i++) e[i] = A(i, i);
  return e;
}
struct Inertia { int neg = 0; double lo = INF, hi = 0; bool clear(double r) const { return lo > r * hi; } double cond() const { return hi / lo; } };
Inertia inertia(const RM& K) { Inertia r; for(double e : eig(K)) { if(e < 0) r.neg++; r.lo = std::min(r.lo, std::fabs(e)); r.hi = std::max(r.hi, std::fabs(e)); } if(K.m == 0) r.lo = r.hi = 1; return r; }
template<class M> hiopMatrixSparse* sp(M* m) { return const_cast<hiopMatrixSparse*>(m->sp_mat()); }
template<class M> hiopMatrixDense* de(M* m) { return const_cast<hiopMatrixDense*>(m->de_mat()); }
// values of the matrices the KKT classes read, random of the right pattern
struct Mats {
  std::unique_ptr<hiopMatrix> Jc, Jd, H;
  VP g;
};
void fill(Ctx& c, double* a, size_t k, int style) { for(size_t i = 0; i < k; i++) a[i] = c.chance(1, 5) ? 0. : gval(c, style); }
void make_mats(Ctx& c, Host& H, Kind kind, Mats& M)
{
  auto& N = *H.N;
  M.Jc.reset(N.alloc_Jac_c()); M.Jd.reset(N.alloc_Jac_d());
  M.g.reset(N.alloc_primal_vec()); M.g->setToZero();
  VP x(N.alloc_primal_vec()), yc(N.alloc_dual_eq_vec()), yd(N.alloc_dual_ineq_vec());
  x->setToConstant(0.25); yc->setToConstant(1.); yd->setToConstant(1.);
  check(N.eval_Jac_c_d(*x, true, *M.Jc, *M.Jd), "kkt:eval-jac");
  if(kind != DENSE) { M.H.reset(N.alloc_Hess_Lagr()); check(N.eval_Hess_Lagr(*x, true, 1., *yc, *yd, true, *M.H), "kkt:eval-hess"); }
  else M.H.reset(LinearAlgebraFactory::create_matrix_dense("DEFAULT", H.n, H.n));
}
// shape: 0 positive definite, 1 indefinite, 2 low rank (possibly singular)
void gen_mats(Ctx& c, Host& H, Kind kind, Mats& M, int hshape, int jshape, double hscale)
{
  int style = c.chance(1, 4) ? 2 : 0;
  auto jac = [&](hiopMatrix* J) {
    if(auto* m = dynamic_cast<hiopMatrixMDS*>(J)) { fill(c, sp(m)->M(), sp(m)->numberOfNonzeros(), style); fill(c, de(m)->local_data(), (size_t)m->m() * m->n_de(), style); }
    else if(auto* s = dynamic_cast<hiopMatrixSparse*>(J)) fill(c, s->M(), s->numberOfNonzeros(), style);
    else { auto* d = dynamic_cast<hiopMatrixDense*>(J); fill(c, d->local_data(), (size_t)d->m() * d->n(), style); }
  };
  jac(M.Jc.get()); jac(M.Jd.get());
  // rank-deficient equality Jacobian: last row a copy of the first (dense part only when the pattern allows it)
  if(jshape && H.me > 1) {
    if(auto* t = dynamic_cast<hiopMatrixSparse*>(M.Jc.get())) { for(int k = 0; k < (int)t->numberOfNonzeros(); k++) if(t->i_row()[k] == H.me - 1) t->M()[k] = 0.; }
    else if(auto* d = dynamic_cast<hiopMatrixDense*>(M.Jc.get())) for(int j = 0; j < H.n; j++) d->local_data()[(size_t)(H.me - 1) * H.n + j] = d->local_data()[j];
    else { auto* m = dynamic_cast<hiopMatrixMDS*>(M.Jc.get()); auto* s = sp(m); for(int k = 0; k < (int)s->numberOfNonzeros(); k++) if(s->i_row()[k] == 0 || s->i_row()[k] == H.me - 1) s->M()[k] = 0.; int nd = (int)m->n_de(); for(int j = 0; j < nd; j++) de(m)->local_data()[(size_t)(H.me - 1) * nd + j] = de(m)->local_data()[j]; }
  } else if(jshape && H.me == 1) {
    if(auto* t = dynamic_cast<hiopMatrixSparse*>(M.Jc.get())) { for(int k = 0; k < (int)t->numberOfNonzeros(); k++) t->M()[k] = 0.; }
    else if(auto* d = dynamic_cast<hiopMatrixDense*>(M.Jc.get())) for(int j = 0; j < H.n; j++) d->local_data()[j] = 0.;
    else { auto* m = dynamic_cast<hiopMatrixMDS*>(M.Jc.get()); for(int k = 0; k < (int)sp(m)->numberOfNonzeros(); k++) sp(m)->M()[k] = 0.; for(int j = 0; j < (int)m->n_de(); j++) de(m)->local_data()[j] = 0.; }
  }
  auto dense = [&](double* a, int k, int ld_) {
    RM G(k, k); fill(c, G.a.data(), G.a.size(), 0);
    int r = hshape == 2 ? (int)c.range(0, std::max(0, k - 1)) : k;
    for(int i = 0; i < k; i++) for(int j = 0; j < k; j++) {
      double v = 0;
      if(hshape == 1) v = 0.5 * (G(i, j) + G(j, i));
      else for(int q = 0; q < r; q++) v += G(q, i) * G(q, j);
      if(hshape == 0 && i == j) v += 0.5;
      a[(size_t)i * ld_ + j] = hscale * v;
    }
  };
  if(auto* m = dynamic_cast<hiopMatrixSymBlockDiagMDS*>(M.H.get())) {
    auto* s = sp(m);
    for(int k = 0; k < (int)s->numberOfNonzeros(); k++) s->M()[k] = hscale * (hshape == 0 ? gpos(c, 0) + 0.1 : hshape == 1 ? c.moderate() : c.flip() ? 0. : gpos(c, 0));
    dense(de(m)->local_data(), (int)m->n_de(), (int)m->n_de());
  } else if(auto* t = dynamic_cast<hiopMatrixSparse*>(M.H.get())) {
    // upper triangle; diagonally dominant, indefinite, or with missing curvature
    dvec row(H.n, 0.); int k0 = (int)t->numberOfNonzeros();
    for(int k = 0; k < k0; k++) if(t->i_row()[k] != t->j_col()[k]) { double v = c.chance(1, 5) ? 0. : c.moderate(); t->M()[k] = hscale * v; row[t->i_row()[k]] += std::fabs(v); row[t->j_col()[k]] += std::fabs(v); }
    for(int k = 0; k < k0; k++) if(t->i_row()[k] == t->j_col()[k]) t->M()[k] = hscale * (hshape == 0 ? row[t->i_row()[k]] + 0.1 + gpos(c, 0) : hshape == 1 ? c.moderate() : row[t->i_row()[k]]);
  } else dense(dynamic_cast<hiopMatrixDense*>(M.H.get())->local_data(), H.n, H.n);
}
typedef std::vector<dvec> Dir;  // x d yc yd sxl sxu sdl sdu zl zu vl vu
Dir dir_of(const hiopIterate& d)
{
  return {get(*d.get_x()), get(*d.get_d()), get(*d.get_yc()), get(*d.get_yd()), get(*d.get_sxl()), get(*d.get_sxu()), get(*d.get_sdl()), get(*d.get_sdu()), get(*d.get_zl()), get(*d.get_zu()), get(*d.get_vl()), get(*d.get_vu())};
}
struct Rhs { dvec rx, rd, ryc, ryd, rxl, rxu, rdl, rdu, rszl, rszu, rsvl, rsvu; };
Rhs gen_rhs(Ctx& c, const Host& H, int style)
{
  Rhs r;
  auto v = [&](int k) { dvec a = gvec(c, k, style); if(c.chance(1, 6)) for(auto& e : a) e = 0.; return a; };
  auto p = [&](const dvec& pat) { dvec a = v((int)pat.size()); for(size_t i = 0; i < a.size(); i++) if(pat[i] == 0.) a[i] = 0.; return a; };
  r.rx = v(H.n); r.rd = v(H.mi); r.ryc = v(H.me); r.ryd = v(H.mi);
  r.rxl = p(H.ixl); r.rxu = p(H.ixu); r.rdl = p(H.idl); r.rdu = p(H.idu); r.rszl = p(H.ixl); r.rszu = p(H.ixu); r.rsvl = p(H.idl); r.rsvu = p(H.idu);
  return r;
}
void put(hiopResidual& R, const Rhs& r)
{
  set(*R.get_rx(), r.rx); set(*R.get_rd(), r.rd); set(*R.get_ryc(), r.ryc); set(*R.get_ryd(), r.ryd); set(*R.get_rxl(), r.rxl); set(*R.get_rxu(), r.rxu); set(*R.get_rdl(), r.rdl); set(*R.get_rdu(), r.rdu);
  set(*R.get_rszl(), r.rszl); set(*R.get_rszu(), r.rszu); set(*R.get_rsvl(), r.rsvl); set(*R.get_rsvu(), r.rsvu);
}
void same(const hiopResidual& R, const Rhs& r)
{
  const std::pair<const hiopVector*, const dvec*> a[] = {{R.get_rx(), &r.rx}, {R.get_rd(), &r.rd}, {R.get_ryc(), &r.ryc}, {R.get_ryd(), &r.ryd}, {R.get_rxl(), &r.rxl}, {R.get_rxu(), &r.rxu}, {R.get_rdl(), &r.rdl}, {R.get_rdu(), &r.rdu}, {R.get_rszl(), &r.rszl}, {R.get_rszu(), &r.rszu}, {R.get_rsvl(), &r.rsvl}, {R.get_rsvu(), &r.rsvu}};
  for(auto& p : a) pbt::eq_arr(p.first->local_data_const(), *p.second, "kkt:residual-modified");
}
// residuals of all twelve block rows; tol is relative to the largest term of the coupled rows
void check_dir(const Host& H, const Sys& S, const ItV& v, const Rhs& r, const Dir& D, double tol, const std::string& key, double back = 0.)
{
  const dvec &x = D[0], &d = D[1], &yc = D[2], &yd = D[3], &sxl = D[4], &sxu = D[5], &sdl = D[6], &sdu = D[7], &zl = D[8], &zu = D[9], &vl = D[10], &vu = D[11];
  for(auto& q : D) for(double e : q) check(std::fabs(e) <= DBL_MAX, key + "-not-finite", pbt::str(q));
  auto pat = [&](const dvec& w, const dvec& p, const char* nm) { for(size_t i = 0; i < w.size(); i++) if(p[i] == 0.) pbt::close_val(w[i], 0., 0., key + "-pattern-" + nm); };
  pat(sxl, H.ixl, "sxl"); pat(sxu, H.ixu, "sxu"); pat(sdl, H.idl, "sdl"); pat(sdu, H.idu, "sdu"); pat(zl, H.ixl, "zl"); pat(zu, H.ixu, "zu"); pat(vl, H.idl, "vl"); pat(vu, H.idu, "vu");
  std::vector<Acc> RX(S.n), RD(S.mi), RC(S.me), RI(S.mi);
  for(int i = 0; i < S.n; i++) {
    Acc& a = RX[i];
    a.add(r.rx[i]); for(int j = 0; j < S.n; j++) a.add(-S.H(i, j) * x[j]);
    a.add(-S.wx[i] * x[i]); for(int q = 0; q < S.me; q++) a.add(-S.A(q, i) * yc[q]); for(int q = 0; q < S.mi; q++) a.add(-S.B(q, i) * yd[q]);
    a.add(zl[i]); a.add(-zu[i]);
    if(H.ixl[i] != 0.) a.m += std::fabs(v.zl[i] / v.sxl[i] * r.rxl[i]) + std::fabs(r.rszl[i] / v.sxl[i]); if(H.ixu[i] != 0.) a.m += std::fabs(v.zu[i] / v.sxu[i] * r.rxu[i]) + std::fabs(r.rszu[i] / v.sxu[i]);
  }
  for(int i = 0; i < S.mi; i++) {
    Acc& a = RD[i];
    a.add(r.rd[i]); a.add(yd[i]); a.add(vl[i]); a.add(-vu[i]); a.add(-S.wd[i] * d[i]);
    if(H.idl[i] != 0.) a.m += std::fabs(v.vl[i] / v.sdl[i] * r.rdl[i]) + std::fabs(r.rsvl[i] / v.sdl[i]); if(H.idu[i] != 0.) a.m += std::fabs(v.vu[i] / v.sdu[i] * r.rdu[i]) + std::fabs(r.rsvu[i] / v.sdu[i]);
    Acc& b = RI[i];
    b.add(r.ryd[i]); for(int j = 0; j < S.n; j++) b.add(-S.B(i, j) * x[j]); b.add(d[i]); b.add(S.cd[i] * yd[i]);
  }
  for(int q = 0; q < S.me; q++) { Acc& a = RC[q]; a.add(r.ryc[q]); for(int j = 0; j < S.n; j++) a.add(-S.A(q, j) * x[j]); a.add(S.cc[q] * yc[q]); }
  double m = std::max({tmax(RX), tmax(RD), tmax(RC), tmax(RI)});
  auto z = [&](const std::vector<Acc>& a, const char* nm) { for(auto& e : a) pbt::close_val(e.v, 0., tol * m, key + "-" + nm); };
  z(RC, "ryc"); z(RI, "ryd"); z(RD, "rd"); z(RX, "rx");
  // the slack and multiplier rows are explicit formulas
  for(int i = 0; i < S.n; i++) {
    auto e = [&](Acc a, const char* nm) { pbt::close_val(a.v, 0., (back > 0 ? back * m : 0.) + 16 * EPS * a.m, key + "-" + nm); };
    if(H.ixl[i] != 0.) { Acc a; a.add(r.rxl[i]); a.add(x[i]); a.add(-sxl[i]); e(a, "rxl"); Acc b; b.add(r.rszl[i]); b.add(-v.sxl[i] * zl[i]); b.add(-v.zl[i] * sxl[i]); e(b, "rszl"); }
    if(H.ixu[i] != 0.) { Acc a; a.add(r.rxu[i]); a.add(-x[i]); a.add(-sxu[i]); e(a, "rxu"); Acc b; b.add(r.rszu[i]); b.add(-v.sxu[i] * zu[i]); b.add(-v.zu[i] * sxu[i]); e(b, "rszu"); }
  }
  for(int i = 0; i < S.mi; i++) {
    auto e = [&](Acc a, const char* nm) { pbt::close_val(a.v, 0., (back > 0 ? back * m : 0.) + 16 * EPS * a.m, key + "-" + nm); };
    if(H.idl[i] != 0.) { Acc a; a.add(r.rdl[i]); a.add(d[i]); a.add(-sdl[i]); e(a, "rdl"); Acc b; b.add(r.rsvl[i]); b.add(-v.sdl[i] * vl[i]); b.add(-v.vl[i] * sdl[i]); e(b, "rsvl"); }
    if(H.idu[i] != 0.) { Acc a; a.add(r.rdu[i]); a.add(-d[i]); a.add(-sdu[i]); e(a, "rdu"); Acc b; b.add(r.rsvu[i]); b.add(-v.sdu[i] * vu[i]); b.add(-v.vu[i] * sdu[i]); e(b, "rsvu"); }
  }
}
ItV gen_interior(Ctx& c, const Host& H)
{
  ItV v = gen_it(c, H, 0);
  auto pos = [&](dvec& s, const dvec& p) { for(size_t i = 0; i < s.size(); i++) if(p[i] != 0.) s[i] = c.chance(1, 5) ? std::pow(10., -c.uni(0, 3)) : c.uni(0.1, 3.); };
  pos(v.sxl, H.ixl); pos(v.sxu, H.ixu); pos(v.sdl, H.idl); pos(v.sdu, H.idu); pos(v.zl, H.ixl); pos(v.zu, H.ixu); pos(v.vl, H.idl); pos(v.vu, H.idu);
  return v;
}
std::string rs(const Rhs& r) { return "rhs rx=" + pbt::str(r.rx) + " rd=" + pbt::str(r.rd) + " ryc=" + pbt::str(r.ryc) + " ryd=" + pbt::str(r.ryd) + " rxl=" + pbt::str(r.rxl) + " rxu=" + pbt::str(r.rxu) + " rdl=" + pbt::str(r.rdl) + " rdu=" + pbt::str(r.rdu) + " rszl=" + pbt::str(r.rszl) + " rszu=" + pbt::str(r.rszu) + " rsvl=" + pbt::str(r.rsvl) + " rsvu=" + pbt::str(r.rsvu) + "\n"; }
std::string ms(const Sys& S) { return "H=" + pbt::str(S.H.a) + " Jc=" + pbt::str(S.A.a) + " Jd=" + pbt::str(S.B.a) + "\n"; }
double mindiag(const Mats& M, const dvec& Dx, const dvec& wx)  // pivots used to eliminate the sparse variables of an MDS system
{
  double r = INF;
  if(auto* m = dynamic_cast<hiopMatrixSymBlockDiagMDS*>(M.H.get())) {
    RM E = expand(*M.H);
    for(int i = 0; i < (int)m->n_sp(); i++) r = std::min(r, std::fabs(E(i, i) + Dx[i] + wx[i]));
  }
  return r;
}
enum K { XYCYD, XDYCYD, KMDS, SXYCYD, SXDYCYD, SCOND, SNORM };
std::unique_ptr<hiopKKTLinSysCurvCheck> make_kkt(K k, hiopNlpFormulation* N)
{
  std::unique_ptr<hiopKKTLinSysCurvCheck> p;
#ifdef HIOP_SPARSE
  switch(k) {
  case SXYCYD: p.reset(new hiopKKTLinSysCompressedSparseXYcYd(N)); return p;
  case SXDYCYD: p.reset(new hiopKKTLinSysCompressedSparseXDYcYd(N)); return p;
  case SCOND: p.reset(new hiopKKTLinSysCondensedSparse(N)); return p;
  case SNORM: p.reset(new hiopKKTLinSysSparseNormalEqn(N)); return p;
  default: break;
  }
#endif
  if(k == XYCYD) p.reset(new hiopKKTLinSysDenseXYcYd(N)); else if(k == XDYCYD) p.reset(new hiopKKTLinSysDenseXDYcYd(N)); else p.reset(new hiopKKTLinSysCompressedMDSXYcYd(N));
  return p;
}
void ir_opts(Ctx& c, Host& H, bool& ir, double& mu)
{
  int it = c.pick<int>({0, 0, 8, 8, 2, 20});
  ir = it > 0;
  H.N->options->SetIntegerValue("ir_outer_maxit", it);
  mu = c.pick<double>({1., 0.1, 1e-4, 1e-8});
  c << "ir_outer_maxit " << it << " mu " << mu << "\n";
}
// one object, several systems in a row
void kkt_run(Ctx& c, K k)
{
  Kind kind = k == KMDS ? MDS : k == SXYCYD || k == SXDYCYD || k == SNORM ? SPARSE : k == SCOND ? SPARSE_INEQ : DENSE;
  if(k == SNORM) sp_mode() = 4;
  Host H; make_host(c, H, kind);
  if(k == SNORM && H.me + H.mi == 0) pbt::discard();
  if(H.n == 0) { pbt::discard(); }
  auto& N = *H.N;
  bool ir; double mu; ir_opts(c, H, ir, mu);
  N.runStats.initialize(); N.runStats.kkt.initialize();
  Mats M; make_mats(c, H, kind, M);
  FixedReg reg; check(reg.initialize(&N), "kkt:reg-init");
  hiopFactAcceptorIC ic(&reg, k == SCOND ? 0 : H.me + H.mi);
  auto kkt = make_kkt(k, &N);
  kkt->set_PD_perturb_calc(&reg); kkt->set_fact_acceptor(&ic); kkt->set_logbar_mu(mu);
  kkt->set_safe_mode(c.flip());
  hiopIterate itA(&N), itB(&N), dir(&N);
  hiopResidual R(&N);
  int rounds = (int)c.range(1, 3); bool nt = false;
  for(int u = 0; u < rounds; u++) {
    hiopIterate& it = u % 2 ? itB : itA;
    gen_mats(c, H, kind, M, k == SNORM ? 0 : (int)c.draw(2), c.chance(1, 5),   // the normal equations are for convex problems
              c.pick<double>({1., 1., 10., 0.1}));
    ItV v = gen_interior(c, H); put(it, v);
    Sys S; S.n = H.n; S.me = H.me; S.mi = H.mi; S.H = expand(*M.H); S.A = expand(*M.Jc); S.B = expand(*M.Jd);
    auto delta = [&](int q, double p) { dvec a(q, 0.); int st = (int)c.draw(3); double b = c.pick<double>({1., 1e-2, 10., 1e-4}); if(st) for(auto& e : a) e = st == 1 ? b : b * c.uni(0.9, 1.); return a; };
    S.wx = delta(H.n, 0); S.wd = delta(H.mi, 0); S.cc = delta(H.me, 0); S.cd = delta(H.mi, 0);
    if(k == SCOND) S.cd.assign(H.mi, 0.);   // no dual regularization in the condensed form
    reg.wx = S.wx; reg.wd = S.wd; reg.cc = S.cc; reg.cd = S.cd; reg.on_reject = c.chance(1, 4);
    c << ms(S) << its(v) << "deltas " << pbt::str(S.wx) << pbt::str(S.wd) << pbt::str(S.cc) << pbt::str(S.cd) << "\n";
    dvec Dx = ddiag(v.zl, v.sxl, H.ixl, v.zu, v.sxu, H.ixu), Dd = ddiag(v.vl, v.sdl, H.idl, v.vu, v.sdu, H.idu);
    RM K4 = reduced(S, Dx, Dd); Inertia in = inertia(K4);
    double piv = mindiag(M, Dx, S.wx), grow2 = 1.;
    if(k == SCOND || k == SNORM) {
      // the matrix that is factorized: H + Dx + B' (1/(Dd+wd)+cd)^-1 B, or J (H+Dx)^-1 J' with the inequality slacks eliminated too
      int N2 = k == SCOND ? H.n : H.me + H.mi;
      RM E(N2, N2); double big = 0;
      if(k == SCOND) for(int i = 0; i < H.n; i++) for(int j = 0; j < H.n; j++) { E(i, j) = S.H(i, j) + (i == j ? Dx[i] + S.wx[i] : 0.); for(int q = 0; q < H.mi; q++) E(i, j) += S.B(q, i) * S.B(q, j) / (1 / (Dd[q] + S.wd[q]) + S.cd[q]); }
      else {
        for(int i = 0; i < H.n; i++) { double h = std::fabs(S.H(i, i) + Dx[i] + S.wx[i]); piv = std::min(piv, h); big = std::max(big, 1 / h); }
        for(int i = 0; i < H.mi; i++) { double h = Dd[i] + S.wd[i]; piv = std::min(piv, h); big = std::max(big, 1 / h); }
        auto J = [&](int r, int i) { return r < H.me ? S.A(r, i) : S.B(r - H.me, i); };
        for(int a = 0; a < N2; a++) for(int b = 0; b < N2; b++) { for(int i = 0; i < H.n; i++) E(a, b) += J(a, i) * J(b, i) / (S.H(i, i) + Dx[i] + S.wx[i]); if(a == b) E(a, b) += a < H.me ? S.cc[a] : S.cd[a - H.me] + 1 / (Dd[a - H.me] + S.wd[a - H.me]); }
      }
      Inertia ie = inertia(E);
      grow2 = std::max(1., ie.cond());
      if(k == SNORM) grow2 *= std::max(1., big * in.hi);
    }
    bool ok = kkt->update(&it, M.g.get(), M.Jc.get(), M.Jd.get(), M.H.get());
    bool clear = in.clear(1e-7) && piv > 1e-6 * in.hi && grow2 < 1e7;
    if(clear) {
      if(in.neg == H.me + H.mi) check(ok, "kkt:right-inertia-refused", "eigenvalue sizes in [" + pbt::str(in.lo) + "," + pbt::str(in.hi) + "]");
      else check(!ok, "kkt:wrong-inertia-accepted", "the matrix has " + std::to_string(in.neg) + " negative eigenvalues, " + std::to_string(H.me + H.mi) + " constraints");
    }
    if(!ok) { c.label("refused"); continue; }
    if(!clear) { c.label("ill-conditioned"); continue; }
    Rhs r = gen_rhs(c, H, 0); put(R, r); c << rs(r);
    // the solver computes into the same direction object over and over: old contents must not matter
    if(u == 0) put(dir, gen_it(c, H, 0));
    bool sol = ir ? kkt->compute_directions_w_IR(&R, &dir) : kkt->computeDirections(&R, &dir);
    check(sol, "kkt:solve-failed", "condition number " + pbt::str(in.cond()));
    double grow = std::max(1., in.hi / piv);
    // the elimination of the slacks and the conditioning of the reduced system bound the attainable accuracy
    double tol = 1e-13 * std::max(in.cond(), 1e3) * grow * grow2;
    if(ir) tol = std::max(tol, 1e-6);
    if(tol < 1e-4) { check_dir(H, S, v, r, dir_of(dir), tol, ir ? "kkt:ir" : "kkt:dir", ir ? tol : 0.); nt = nt || ((H.me > 0 || k == SCOND) && H.mi > 0); }
    same(R, r); same_it(it, v, "kkt:iterate-modified");
    pbt::eq_arr(expand(*M.H).a.data(), S.H.a, "kkt:hess-modified");
    pbt::eq_arr(expand(*M.Jc).a.data(), S.A.a, "kkt:jac-modified"); pbt::eq_arr(expand(*M.Jd).a.data(), S.B.a, "kkt:jac-modified");
    c.label(ir ? "ir" : "direct"); if(ninf(S.cc) > 0 || ninf(S.cd) > 0) c.label("dual-reg"); if(ninf(S.wx) > 0) c.label("primal-reg");
    // a second right-hand side with the same factors
    if(c.chance(1, 3)) {
      Rhs r2 = gen_rhs(c, H, 0); put(R, r2);
      check(kkt->computeDirections(&R, &dir), "kkt:solve-failed");
      double t2 = 1e-13 * std::max(in.cond(), 1e3) * grow * grow2;
      if(t2 < 1e-4) check_dir(H, S, v, r2, dir_of(dir), t2, "kkt:dir");
      c.label("second-rhs");
    }
  }
  c.nontrivial(nt);
}
}
PBT_TARGET(kkt_xycyd) { kkt_run(c, XYCYD); }
PBT_TARGET(kkt_xdycyd) { kkt_run(c, XDYCYD); }
PBT_TARGET(kkt_mds) { kkt_run(c, KMDS); }
#ifdef HIOP_SPARSE
PBT_TARGET(kkt_sp_xycyd) { kkt_run(c, SXYCYD); }
PBT_TARGET(kkt_sp_xdycyd) { kkt_run(c, SXDYCYD); }
PBT_TARGET(kkt_sp_cond) { kkt_run(c, SCOND); }
PBT_TARGET(kkt_sp_norm) { kkt_run(c, SNORM); }
#endif

PBT_TARGET(kkt_lowrank)
{
  Host H; make_host(c, H, DENSE);
  if(H.n == 0) { pbt::discard(); }
  auto& N = *H.N;
  bool ir; double mu; ir_opts(c, H, ir, mu);
  int lmax = c.pick<int>({3, 1, 2, 5, 0});
  N.options->SetStringValue("sigma_update_strategy", c.pick<const char*>({"sty", "sty_inv", "snrm_ynrm", "sty_srnm_ynrm", "sigma0"}));
  N.options->SetNumericValue("sigma0", c.pick<double>({1., 0.1, 20.}));
  N.runStats.initialize(); N.runStats.kkt.initialize();
  auto* nd = dynamic_cast<hiopNlpDenseConstraints*>(H.N);
  Mats M; make_mats(c, H, DENSE, M);
  hiopHessianLowRank Q(nd, lmax);
  hiopPDPerturbationNull reg; check(reg.initialize(&N), "kkt:reg-init");
  hiopKKTLinSysLowRank kkt(&N);
  kkt.set_PD_perturb_calc(&reg); kkt.set_logbar_mu(mu);
  hiopIterate itA(&N), itB(&N), dir(&N); hiopResidual R(&N);
  int rounds = (int)c.range(1, 4); bool nt = false; dvec px, pg;
  RM G(H.n, H.n); fill(c, G.a.data(), G.a.size(), 0);
  for(int u = 0; u < rounds; u++) {
    hiopIterate& it = u % 2 ? itB : itA;
    bool same_jac = u && c.flip();
    if(!same_jac) gen_mats(c, H, DENSE, M, 0, 0, 1.);
    ItV v = gen_interior(c, H);
    if(u) for(int i = 0; i < H.n; i++) v.x[i] = px[i] + c.moderate();
    dvec g(H.n, 0.);
    if(u) { dvec t(H.n, 0.); for(int q = 0; q < H.n; q++) for(int i = 0; i < H.n; i++) t[q] += G(q, i) * (v.x[i] - px[i]); for(int i = 0; i < H.n; i++) { g[i] = pg[i] + 0.5 * (v.x[i] - px[i]); for(int q = 0; q < H.n; q++) g[i] += G(q, i) * t[q]; } }
    px = v.x; pg = g;
    put(it, v); set(*M.g, g);
    check(Q.update(it, *M.g, *M.Jc, *M.Jd), "kkt:hess-update");
    check(kkt.update(&it, M.g.get(), M.Jc.get(), M.Jd.get(), &Q), "kkt:update");
    Sys S; S.n = H.n; S.me = H.me; S.mi = H.mi; S.A = expand(*M.Jc); S.B = expand(*M.Jd); S.H = RM(H.n, H.n);
    S.wx.assign(H.n, 0.); S.wd.assign(H.mi, 0.); S.cc.assign(H.me, 0.); S.cd.assign(H.mi, 0.);
    { VP e(N.alloc_primal_vec()), o(N.alloc_primal_vec()); for(int j = 0; j < H.n; j++) { dvec ej(H.n, 0.); ej[j] = 1.; set(*e, ej); o->setToZero(); Q.timesVec(0., *o, 1., *e); for(int i = 0; i < H.n; i++) S.H(i, j) = o->local_data_const()[i]; } }
    c << ms(S) << its(v);
    dvec Dx = ddiag(v.zl, v.sxl, H.ixl, v.zu, v.sxu, H.ixu), Dd = ddiag(v.vl, v.sdl, H.idl, v.vu, v.sdu, H.idu);
    RM HD = S.H; for(int i = 0; i < H.n; i++) HD(i, i) += Dx[i];
    Inertia ih = inertia(HD), in = inertia(reduced(S, Dx, Dd));
    double tol = 1e-12 * std::max(ih.cond(), 1e2) * std::max(in.cond(), 1e2);
    if(!(tol < 1e-4) || ih.neg) { c.label("ill-conditioned"); continue; }
    Rhs r = gen_rhs(c, H, 0); put(R, r); c << rs(r);
    if(u == 0) put(dir, gen_it(c, H, 0));
    bool sol = ir ? kkt.compute_directions_w_IR(&R, &dir) : kkt.computeDirections(&R, &dir);
    check(sol, "kkt:solve-failed", "condition number " + pbt::str(in.cond()));
    if(ir) tol = std::max(tol, 1e-6);
    check_dir(H, S, v, r, dir_of(dir), tol, ir ? "kkt:ir" : "kkt:dir", ir ? tol : 0.);
    same(R, r); same_it(it, v, "kkt:iterate-modified");
    nt = nt || (H.me + H.mi > 0 && u > 0); c.label(ir ? "ir" : "direct");
  }
  c.nontrivial(nt);
}
// without an inertia test the direction is judged by its curvature, but a singular matrix must still be refused
PBT_TARGET(kkt_free)
{
  K k = c.pick<K>({XYCYD, XDYCYD, KMDS});
  Kind kind = k == KMDS ? MDS : DENSE;
  Host H; make_host(c, H, kind);
  if(H.n == 0) { pbt::discard(); }
  auto& N = *H.N;
  double fact = c.pick<double>({1e-11, 0., 1e-3, 1.});
  N.options->SetNumericValue("neg_curv_test_fact", fact);
  N.runStats.initialize(); N.runStats.kkt.initialize();
  Mats M; make_mats(c, H, kind, M);
  FixedReg reg; check(reg.initialize(&N), "kkt:reg-init");
  hiopFactAcceptorInertiaFreeDWD ic(&reg, H.me + H.mi);
  auto kkt = make_kkt(k, &N);
  kkt->set_PD_perturb_calc(&reg); kkt->set_fact_acceptor(&ic);
  hiopIterate it(&N), dir(&N); hiopResidual R(&N);
  gen_mats(c, H, kind, M, (int)c.draw(2), c.chance(1, 3), 1.);
  ItV v = gen_interior(c, H); put(it, v);
  Sys S; S.n = H.n; S.me = H.me; S.mi = H.mi; S.H = expand(*M.H); S.A = expand(*M.Jc); S.B = expand(*M.Jd);
  double w = c.pick<double>({0., 0., 1e-2, 1.}), q = c.pick<double>({0., 0., 1e-2});
  S.wx.assign(H.n, w); S.wd.assign(H.mi, w); S.cc.assign(H.me, q); S.cd.assign(H.mi, q);
  reg.wx = S.wx; reg.wd = S.wd; reg.cc = S.cc; reg.cd = S.cd; reg.on_reject = true;
  c << ms(S) << its(v) << "deltas " << w << " " << q << " fact " << fact << "\n";
  dvec Dx = ddiag(v.zl, v.sxl, H.ixl, v.zu, v.sxu, H.ixu), Dd = ddiag(v.vl, v.sdl, H.idl, v.vu, v.sdu, H.idu);
  Inertia in = inertia(reduced(S, Dx, Dd));
  double piv = mindiag(M, Dx, S.wx);
  bool zero_row = false;  // an exactly zero row of the equality Jacobian gives an exactly singular matrix
  if(q == 0.) for(int r = 0; r < H.me; r++) { bool z = true; for(int j = 0; j < H.n; j++) z = z && S.A(r, j) == 0.; zero_row = zero_row || z; }
  bool ok = kkt->update(&it, M.g.get(), M.Jc.get(), M.Jd.get(), M.H.get());
  bool ok2 = kkt->factorize_inertia_free();
  c << "update " << ok << " factorize_inertia_free " << ok2 << "\n";
  if(zero_row) { check(!ok, "kkt:singular-accepted"); check(!ok2, "kkt:singular-accepted-inertia-free"); c.label("singular"); c.nontrivial(true); return; }
  if(!(in.clear(1e-7) && piv > 1e-6 * in.hi)) { c.label("ill-conditioned"); return; }
  check(ok, "kkt:nonsingular-refused"); check(ok2, "kkt:nonsingular-refused-inertia-free");
  Rhs r = gen_rhs(c, H, 0); put(R, r); c << rs(r);
  put(dir, gen_it(c, H, 0));
  check(kkt->computeDirections(&R, &dir), "kkt:solve-failed");
  double tol = 1e-13 * std::max(in.cond(), 1e3) * std::max(1., in.hi / piv);
  Dir D = dir_of(dir);
  if(tol < 1e-4) check_dir(H, S, v, r, D, tol, "kkt:dir");
  Acc cv; double nn = 0;
  for(int i = 0; i < H.n; i++) { for(int j = 0; j < H.n; j++) cv.add(D[0][i] * S.H(i, j) * D[0][j]); cv.add((Dx[i] + S.wx[i]) * D[0][i] * D[0][i]); nn += D[0][i] * D[0][i]; }
  for(int i = 0; i < H.mi; i++) { cv.add((Dd[i] + S.wd[i]) * D[1][i] * D[1][i]); nn += D[1][i] * D[1][i]; }
  bool td = kkt->test_direction(&dir, M.H.get());
  double gap = cv.v - fact * nn;
  if(std::fabs(gap) > 1e-12 * (cv.m + fact * nn)) { check(td == (gap > 0), "kkt:curvature-test", "curvature " + pbt::str(cv.v) + " threshold " + pbt::str(fact * nn)); c.label(td ? "positive" : "negative"); c.nontrivial(true); }
}

// C11: schedule of the regularisations for every history of factorisation outcomes
namespace {
struct Opts { double wmin, wmax, w0, km, kpb, kp, cb, kc; };
Opts gen_reg(Ctx& c, hiopNlpFormulation& N)
{
  Opts o;
  bool def = c.chance(1, 3);
  o.wmin = def ? 1e-20 : c.pick<double>({1e-20, 1e-6, 1e-4, 0.}); o.wmax = def ? 1e20 : c.pick<double>({1e20, 1e4, 10., 1e-2}); o.w0 = def ? 1e-4 : c.pick<double>({1e-4, 1e-2, 1.});
  o.km = def ? 1. / 3 : c.pick<double>({1. / 3, 0.5, 0.01}); o.kpb = def ? 100. : c.pick<double>({100., 2., 1e4}); o.kp = def ? 8. : c.pick<double>({8., 1.5, 100.});
  o.cb = def ? 1e-8 : c.pick<double>({1e-8, 1e-4, 1e-2}); o.kc = def ? 0.25 : c.pick<double>({0.25, 0., 1.});
  N.options->SetNumericValue("delta_w_min_bar", o.wmin); N.options->SetNumericValue("delta_w_max_bar", o.wmax); N.options->SetNumericValue("delta_0_bar", o.w0);
  N.options->SetNumericValue("kappa_w_minus", o.km); N.options->SetNumericValue("kappa_w_plus_bar", o.kpb); N.options->SetNumericValue("kappa_w_plus", o.kp);
  N.options->SetNumericValue("delta_c_bar", o.cb); N.options->SetNumericValue("kappa_c", o.kc);
  c << "delta_w_min_bar " << o.wmin << " delta_w_max_bar " << o.wmax << " delta_0_bar " << o.w0 << " kappa_w_minus " << o.km << " kappa_w_plus_bar " << o.kpb << " kappa_w_plus " << o.kp << " delta_c_bar " << o.cb << " kappa_c " << o.kc << "\n";
  return o;
}
// value of the regularisation, identical over its block(s)
double uni(const hiopVector& a, const hiopVector& b, const char* nm, double def)
{
  double v = def; bool have = false;
  for(auto* p : {&a, &b}) for(int i = 0; i < (int)p->get_local_size(); i++) { double e = p->local_data_const()[i]; check(!have || e == v, std::string("reg:not-uniform-") + nm, pbt::str(get(a)) + " " + pbt::str(get(b))); v = e; have = true; }
  return v;
}
void within(const hiopVector& a, double v, const char* nm) { for(double e : get(a)) check(e >= 0.9 * v * (1 - 4 * EPS) && e <= v * (1 + 4 * EPS), std::string("reg:random-range-") + nm, pbt::str(e) + " outside [0.9,1]*" + pbt::str(v)); }
}
PBT_TARGET(reg_primal)
{
  Host H; make_host(c, H, c.flip() ? MDS : DENSE);
  if(H.n == 0) { pbt::discard(); }
  auto& N = *H.N; N.runStats.initialize();
  Opts o = gen_reg(c, N);
  hiopPDPerturbationPrimalFirstScalar A; hiopPDPerturbationPrimalFirstRand B;
  check(A.initialize(&N) && B.initialize(&N), "reg:init");
  hiopFactAcceptorIC fa(&A, H.me + H.mi), fb(&B, H.me + H.mi);
  double mu = c.pick<double>({1., 0.1});
  bool dual = H.me + H.mi > 0;
  double last = 0;      // most recent accepted primal regularisation, 0 when unknown
  int suspects = 0; bool zero_ok = false; bool nt = false;
  int iters = (int)c.range(1, 9);
  bool singular_bias = c.flip();
  for(int k = 0; k < iters; k++) {
    if(c.chance(1, 3)) mu *= c.pick<double>({0.2, 0.1, 1e-3});
    A.set_mu(mu); B.set_mu(mu);
    double dc = o.cb * std::pow(mu, o.kc);
    c << "iteration mu=" << mu << "\n";
    bool ok = A.compute_initial_deltas(), okb = B.compute_initial_deltas();
    check(ok == okb, "reg:random-disagrees");
    auto look = [&](double& w, double& q) {
      check(A.check_consistency() && B.check_consistency(), "reg:inconsistent");
      w = uni(*A.get_curr_delta_wx(), *A.get_curr_delta_wd(), "primal", 0.); q = uni(*A.get_curr_delta_cc(), *A.get_curr_delta_cd(), "dual", 0.);
      within(*B.get_curr_delta_wx(), w, "wx"); within(*B.get_curr_delta_wd(), w, "wd"); within(*B.get_curr_delta_cc(), q, "cc"); within(*B.get_curr_delta_cd(), q, "cd");
      c << " -> delta_w=" << w << " delta_c=" << q << "\n";
    };
    // next trial value of the primal regularisation
    auto next = [&](double w) { return w == 0. ? (last == 0. ? o.w0 : std::max(o.wmin, last * o.km)) : w * (last == 0. || 1e5 * last < w ? o.kpb : o.kp); };
    auto eq = [&](double a, double b) { return std::fabs(a - b) <= 1e-13 * std::fabs(b); };
    if(!ok) { double w, q; look(w, q); check(w > o.wmax, "reg:initial-failed", "delta_w=" + pbt::str(w)); c.label("initial-failed"); break; }
    double w, q; look(w, q);
    check(w == 0. || eq(w, next(0.)), "reg:initial-primal", pbt::str(w)); check(q == 0. || eq(q, dc), "reg:initial-dual", pbt::str(q));
    check(w <= o.wmax, "reg:above-max");
    if(w != 0. || q != 0.) { check(!zero_ok, "reg:added-when-not-needed", "an unregularised system was accepted before"); check(suspects >= 3, "reg:added-when-not-needed", "only " + std::to_string(suspects) + " refused systems suggested degeneracy"); c.label("initial-regularised"); nt = true; }
    bool first_zero = w == 0. && q == 0.;
    std::vector<std::pair<double, double>> tried; tried.push_back({w, q});
    int tries = 0; bool failed = false, reset = false, sing = false;
    while(tries < 12) {
      int out = (int)c.draw(singular_bias ? 4 : 6);  // 0,1 accept; singular; wrong inertia
      int neg = out <= 1 ? H.me + H.mi : dual && out % 2 == 0 ? -1 : (int)c.draw(H.me + H.mi + 2);
      if(neg == H.me + H.mi && out > 1) neg++;
      c << " outcome " << neg << " (required " << H.me + H.mi << ")";
      int ra = fa.requireReFactorization(N, neg), rb = fb.requireReFactorization(N, neg);
      check(ra == rb, "reg:random-disagrees");
      double pw = w, pq = q;
      look(w, q);
      if(neg == H.me + H.mi) { check(ra == 0, "reg:right-inertia-rejected"); check(w == pw && q == pq, "reg:changed-after-acceptance"); break; }
      check(ra != 0, "reg:wrong-inertia-accepted", "outcome " + std::to_string(neg) + " required " + std::to_string(H.me + H.mi));
      tries++; sing = sing || (neg < 0 && dual);
      double nw = next(pw);
      if(ra == -1) {
        check(nw > o.wmax || w > o.wmax, "reg:gave-up-early", "next primal value " + pbt::str(nw)); failed = true; c.label("max-exceeded"); nt = true; break;
      }
      check(w <= o.wmax, "reg:above-max", pbt::str(w));
      check(q == 0. || eq(q, dc), "reg:dual-value", pbt::str(q) + " expected 0 or " + pbt::str(dc));
      if(neg < 0 && dual) {
        bool okk = (w == pw && pq == 0. && (q > 0. || !H.me + H.mi)) || (eq(w, nw));
        check(okk, "reg:singular-step", "delta_w " + pbt::str(pw) + " -> " + pbt::str(w) + " (next " + pbt::str(nw) + "), delta_c " + pbt::str(pq) + " -> " + pbt::str(q));
      } else if(nw <= o.wmax) {
        check(eq(w, nw), "reg:next-primal", "delta_w " + pbt::str(pw) + " -> " + pbt::str(w) + " expected " + pbt::str(nw)); check(q == pq, "reg:dual-changed");
      } else {
        // the primal regularisation became too large: start over with the dual one
        check(pq == 0. && (q > 0. || !dual), "reg:gave-up-late", "delta_w " + pbt::str(nw) + " above the maximum"); last = 0; check(eq(w, o.w0), "reg:restart", pbt::str(w)); reset = true; tried.clear(); c.label("restarted");
      }
      if(!reset) check(w >= pw, "reg:primal-decreased", pbt::str(pw) + " -> " + pbt::str(w));
      reset = false;
      for(auto& t : tried) check(!(t.first == w && t.second == q), "reg:repeated", "delta_w=" + pbt::str(w) + " delta_c=" + pbt::str(q) + " was already refused");
      tried.push_back({w, q});
      if(tries >= 3) nt = true;
    }
    if(failed) break;  // the solver gives up on this system (safe mode, or the end of the solve)
    if(first_zero && tries == 0) zero_ok = true;
    if(sing) suspects += tries;  // each refused system can be taken as one more sign of degeneracy
    if(w > 0.) last = w;
  }
  c.nontrivial(nt);
}
PBT_TARGET(reg_dual)
{
  Host H; make_host(c, H, c.flip() ? MDS : DENSE);
  if(H.n == 0 || H.me + H.mi == 0) { pbt::discard(); }
  auto& N = *H.N; N.runStats.initialize();
  Opts o = gen_reg(c, N);
  hiopPDPerturbationDualFirstScalar A; hiopPDPerturbationDualFirstRand B;
  check(A.initialize(&N) && B.initialize(&N), "reg:init");
  double mu = c.pick<double>({1., 0.1}), lastw = 0, lastc = 0;
  const double cmin = 1e-20, kcp = 10.;
  int iters = (int)c.range(1, 6); bool nt = false;
  for(int k = 0; k < iters; k++) {
    if(c.chance(1, 3)) mu *= c.pick<double>({0.2, 0.1, 1e-3});
    A.set_mu(mu); B.set_mu(mu);
    c << "iteration mu=" << mu << "\n";
    auto eq = [&](double a, double b) { return std::fabs(a - b) <= 1e-13 * std::fabs(b); };
    auto nextw = [&](double w) { return w == 0. ? (lastw == 0. ? o.w0 : std::max(o.wmin, lastw * o.km)) : w * (lastw == 0. || 1e5 * lastw < w ? o.kpb : o.kp); };
    auto nextc = [&](double q) { return q == 0. ? (lastc == 0. ? std::max(cmin, o.cb * std::pow(mu, o.kc)) : std::max(cmin, lastc * o.km)) : q * (lastc == 0. || 1e5 * lastc < q ? o.kpb : kcp); };
    double w, q;
    auto look = [&] {
      check(A.check_consistency() && B.check_consistency(), "reg:inconsistent");
      w = uni(*A.get_curr_delta_wx(), *A.get_curr_delta_wd(), "primal", 0.); q = uni(*A.get_curr_delta_cc(), *A.get_curr_delta_cd(), "dual", 0.);
      within(*B.get_curr_delta_wx(), w, "wx"); within(*B.get_curr_delta_wd(), w, "wd"); within(*B.get_curr_delta_cc(), q, "cc"); within(*B.get_curr_delta_cd(), q, "cd");
      c << " -> delta_w=" << w << " delta_c=" << q << "\n";
    };
    check(A.compute_initial_deltas() && B.compute_initial_deltas(), "reg:initial-failed");
    look();
    check(w == 0. && q == 0., "reg:added-when-not-needed", "delta_w=" + pbt::str(w) + " delta_c=" + pbt::str(q));
    int tries = (int)c.range(0, 12); bool failed = false;
    for(int t = 0; t < tries; t++) {
      bool sing = c.flip();
      double pw = w, pq = q, nc = nextc(pq);
      bool ra = sing ? A.compute_perturb_singularity() : A.compute_perturb_wrong_inertia(), rb = sing ? B.compute_perturb_singularity() : B.compute_perturb_wrong_inertia();
      check(ra == rb, "reg:random-disagrees");
      if(!ra) { check(nc > o.wmax, "reg:gave-up-early"); failed = true; c.label("max-exceeded"); nt = true; if(pw == 0.) { if(nextw(0.) > o.wmax) lastw = 0; } break; }
      look();
      check(w <= o.wmax && q <= o.wmax, "reg:above-max");
      if(nc <= o.wmax) { check(eq(q, nc) && w == pw, "reg:next-dual", "delta_c " + pbt::str(pq) + " -> " + pbt::str(q) + " expected " + pbt::str(nc)); }
      else { check(pw == 0. && w > 0., "reg:gave-up-late"); check(eq(w, nextw(0.)), "reg:first-primal", pbt::str(w)); lastc = 0; check(eq(q, nextc(0.)), "reg:restart-dual", pbt::str(q)); c.label("primal-added"); nt = true; }
      if(t >= 2) nt = true;
    }
    if(failed) break;
    if(w > 0.) lastw = w;
    if(q > 0.) lastc = q;
  }
  c.nontrivial(nt);
}
// the same machinery on real matrices: what is accepted has the inertia of a descent system
PBT_TARGET(inertia)
{
  K k = c.pick<K>({XYCYD, XDYCYD, KMDS, KMDS});
  Kind kind = k == KMDS ? MDS : DENSE;
  Host H; make_host(c, H, kind);
  if(H.n == 0) { pbt::discard(); }
  auto& N = *H.N;
  bool def = c.flip(); Opts o{1e-20, 1e20, 1e-4, 1. / 3, 100., 8., 1e-8, 0.25};
  if(!def) o = gen_reg(c, N);
  N.runStats.initialize(); N.runStats.kkt.initialize();
  Mats M; make_mats(c, H, kind, M);
  std::unique_ptr<hiopPDPerturbation> reg;
  if(c.flip()) reg.reset(new hiopPDPerturbationPrimalFirstScalar()); else reg.reset(new hiopPDPerturbationPrimalFirstRand());
  check(reg->initialize(&N), "kkt:reg-init");
  hiopFactAcceptorIC ic(reg.get(), H.me + H.mi);
  auto kkt = make_kkt(k, &N);
  kkt->set_PD_perturb_calc(reg.get()); kkt->set_fact_acceptor(&ic);
  hiopIterate itA(&N), itB(&N), dir(&N); hiopResidual R(&N);
  int rounds = (int)c.range(1, 7); double mu = 1.; bool zero_ok = false, nt = false;
  int hs0 = (int)c.draw(2), js0 = c.chance(1, 3);
  for(int u = 0; u < rounds; u++) {
    hiopIterate& it = u % 2 ? itB : itA;
    if(c.flip()) mu *= c.pick<double>({0.2, 0.1});
    reg->set_mu(mu); kkt->set_logbar_mu(mu);
    gen_mats(c, H, kind, M, c.chance(2, 3) ? hs0 : (int)c.draw(2), c.chance(3, 4) ? js0 : 0, c.pick<double>({1., 1., 10., 0.1}));
    ItV v = gen_interior(c, H); put(it, v);
    Sys S; S.n = H.n; S.me = H.me; S.mi = H.mi; S.H = expand(*M.H); S.A = expand(*M.Jc); S.B = expand(*M.Jd);
    S.wx.assign(H.n, 0.); S.wd.assign(H.mi, 0.); S.cc.assign(H.me, 0.); S.cd.assign(H.mi, 0.);
    dvec Dx = ddiag(v.zl, v.sxl, H.ixl, v.zu, v.sxu, H.ixu), Dd = ddiag(v.vl, v.sdl, H.idl, v.vu, v.sdu, H.idu);
    c << ms(S) << its(v) << "mu " << mu << "\n";
    Inertia in0 = inertia(reduced(S, Dx, Dd)); double piv0 = mindiag(M, Dx, S.wx);
    bool right0 = in0.neg == H.me + H.mi && in0.clear(1e-7) && piv0 > 1e-6 * in0.hi;
    bool ok = kkt->update(&it, M.g.get(), M.Jc.get(), M.Jd.get(), M.H.get());
    S.wx = get(*reg->get_curr_delta_wx()); S.wd = get(*reg->get_curr_delta_wd()); S.cc = get(*reg->get_curr_delta_cc()); S.cd = get(*reg->get_curr_delta_cd());
    c << " -> " << ok << " " << pbt::str(S.wx) << pbt::str(S.wd) << pbt::str(S.cc) << pbt::str(S.cd) << "\n";
    double w = ninf(S.wx), q = std::max(ninf(S.cc), ninf(S.cd));
    if(def) check(ok, "kkt:gave-up", "delta_w=" + pbt::str(w) + " delta_c=" + pbt::str(q));
    if(right0 && u == 0) { check(ok && w == 0. && q == 0., "kkt:regularised-without-need", "delta_w=" + pbt::str(w) + " delta_c=" + pbt::str(q)); }
    if(zero_ok && right0) check(ok && w == 0. && q == 0., "kkt:regularised-without-need", "delta_w=" + pbt::str(w) + " delta_c=" + pbt::str(q));
    if(!ok) { c.label("gave-up"); continue; }
    Inertia in = inertia(reduced(S, Dx, Dd)); double piv = mindiag(M, Dx, S.wx);
    c.label(w == 0. && q == 0. ? "as-is" : w == 0. ? "dual" : q == 0. ? "primal" : "primal+dual");
    if(w == 0. && q == 0.) zero_ok = true;
    if(!in.clear(1e-10) || !(piv > 1e-9 * in.hi)) { c.label("unclear"); continue; }
    check(in.neg == H.me + H.mi, "kkt:accepted-inertia", std::to_string(in.neg) + " negative eigenvalues for " + std::to_string(H.me + H.mi) + " constraints");
    if(w > 0. && H.me + H.mi > 0) nt = true;
    // and the direction belongs to the regularised system
    double tol = 1e-13 * std::max(in.cond(), 1e3) * std::max(1., in.hi / piv);
    if(tol < 1e-4 && c.flip()) { Rhs r = gen_rhs(c, H, 0); put(R, r); check(kkt->computeDirections(&R, &dir), "kkt:solve-failed"); check_dir(H, S, v, r, dir_of(dir), tol, "kkt:dir"); }
  }
  c.nontrivial(nt);
}

// C26: what is dumped is the system that was solved (reduced by the sparse variables), the right-hand sides and the solutions, in order
PBT_TARGET(dump_kkt)
{
  Host H; make_host(c, H, MDS);
  if(H.n == 0) { pbt::discard(); }
  auto& N = *H.N;
  N.options->SetIntegerValue("ir_outer_maxit", 0);
  Capture cap;
  bool asked = !c.chance(1, 6);
  N.options->SetStringValue("write_kkt", asked ? "yes" : "no");
  N.runStats.initialize(); N.runStats.kkt.initialize();
  Mats M; make_mats(c, H, MDS, M);
  FixedReg reg; check(reg.initialize(&N), "kkt:reg-init");
  hiopFactAcceptorIC ic(&reg, H.me + H.mi);
  hiopKKTLinSysCompressedMDSXYcYd kkt(&N);
  kkt.set_PD_perturb_calc(&reg); kkt.set_fact_acceptor(&ic); kkt.set_logbar_mu(0.1);
  kkt.set_safe_mode(c.flip());
  hiopIterate it(&N), dir(&N); hiopResidual R(&N);
  int rounds = (int)c.range(1, 3), built = 0; bool nt = false;
  auto* hm = dynamic_cast<hiopMatrixSymBlockDiagMDS*>(M.H.get());
  int ns = (int)hm->n_sp(), nd = H.n - ns, me = H.me, mi = H.mi, n = nd + me + mi;
  for(int u = 0; u < rounds; u++) {
    gen_mats(c, H, MDS, M, (int)c.draw(2), false, c.pick<double>({1., 1., 10., 0.1, 1e-4}));
    ItV v = gen_interior(c, H); put(it, v);
    Sys S; S.n = H.n; S.me = me; S.mi = mi; S.H = expand(*M.H); S.A = expand(*M.Jc); S.B = expand(*M.Jd);
    auto delta = [&](int q) { dvec a(q, 0.); int st = (int)c.draw(3); double b = c.pick<double>({1., 1e-2, 10., 1e-4, 1e-11, 1e-20}); if(st) for(auto& e : a) e = st == 1 ? b : b * c.uni(0.9, 1.); return a; };
    S.wx = delta(H.n); S.wd = delta(mi); S.cc = delta(me); S.cd = delta(mi);
    reg.wx = S.wx; reg.wd = S.wd; reg.cc = S.cc; reg.cd = S.cd; reg.on_reject = false;
    c << ms(S) << its(v) << "deltas " << pbt::str(S.wx) << pbt::str(S.wd) << pbt::str(S.cc) << pbt::str(S.cd) << "\n";
    dvec Dx = ddiag(v.zl, v.sxl, H.ixl, v.zu, v.sxu, H.ixu), Dd = ddiag(v.vl, v.sdl, H.idl, v.vu, v.sdu, H.idu);
    double piv = mindiag(M, Dx, S.wx);
    if(!(piv > 1e-6)) { c.label("no-pivot"); continue; }
    bool dd0 = false; for(int i = 0; i < mi; i++) if(!(Dd[i] + S.wd[i] > 0)) dd0 = true;
    if(dd0) continue;
    // the reduced system
    RM W(n, n), T(n, n);
    auto J = [&](int r, int j) { return r < me ? S.A(r, j) : S.B(r - me, j); };
    auto ad = [&](int i, int j, double a) { W(i, j) += a; T(i, j) += std::fabs(a); };
    for(int i = 0; i < nd; i++) { for(int j = 0; j < nd; j++) ad(i, j, S.H(ns + i, ns + j)); ad(i, i, Dx[ns + i]); ad(i, i, S.wx[ns + i]); }
    for(int r = 0; r < me + mi; r++) {
      for(int j = 0; j < nd; j++) { ad(nd + r, j, J(r, ns + j)); ad(j, nd + r, J(r, ns + j)); }
      for(int q = 0; q < me + mi; q++) for(int i = 0; i < ns; i++) ad(nd + r, nd + q, -J(r, i) * J(q, i) / (S.H(i, i) + Dx[i] + S.wx[i]));
      if(r < me) ad(nd + r, nd + r, -S.cc[r]); else { ad(nd + r, nd + r, -1 / (Dd[r - me] + S.wd[r - me])); ad(nd + r, nd + r, -S.cd[r - me]); }
    }
    bool ok = kkt.update(&it, M.g.get(), M.Jc.get(), M.Jd.get(), M.H.get());
    built++;
    std::vector<Dir> sols; int q = ok ? (int)c.draw(2) : 0;
    for(int k = 0; k < q; k++) { Rhs r = gen_rhs(c, H, 0); put(R, r); c << rs(r); check(kkt.computeDirections(&R, &dir), "kkt:solve-failed"); sols.push_back(dir_of(dir)); }
    auto files = cap.files(); files.erase(std::remove(files.begin(), files.end(), "stdout"), files.end());
    if(!asked) { check(files.empty(), "dump:unrequested", files.empty() ? "" : files[0]); c.label("not-asked"); continue; }
    check((int)files.size() == built, "dump:numbering", std::to_string(files.size()) + " files for " + std::to_string(built) + " systems");
    std::string f = cap.dir + "/kkt_linsys_" + std::to_string(built - 1) + ".iajaaa";
    Dump D = read_dump(f);
    check(D.n == n && D.nx == H.n && D.me == me && D.mi == mi, "dump:sizes", std::to_string(D.n) + " " + std::to_string(D.nx) + " " + std::to_string(D.me) + " " + std::to_string(D.mi));
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) pbt::close_val(D.M(i, j), W(i, j), 1e-13 * T(i, j) + 1e-25, "dump:matrix");
    check((int)D.sol.size() == q, "dump:pairs", std::to_string(D.sol.size()) + " pairs for " + std::to_string(q) + " solves");
    for(int k = 0; k < q; k++) {
      dvec w; for(int j = 0; j < nd; j++) w.push_back(sols[k][0][ns + j]); w.insert(w.end(), sols[k][2].begin(), sols[k][2].end()); w.insert(w.end(), sols[k][3].begin(), sols[k][3].end());
      pbt::eq_arr(D.sol[k].data(), w, "dump:solution");
      double sn = 0; for(double e : w) sn = std::max(sn, std::fabs(e));
      for(int i = 0; i < n; i++) { double e = D.rhs[k][i], m = 0; for(int j = 0; j < n; j++) { e -= D.M(i, j) * w[j]; } for(double a : D.M.a) m = std::max(m, std::fabs(a)); if(m * sn < 1e100) check(std::fabs(e) <= 1e-10 * (m * sn * n + std::fabs(D.rhs[k][i])) + 1e-25, "dump:not-the-system-solved", "residual " + pbt::str(e) + " in row " + std::to_string(i)); }
      nt = true;
    }
    c.label(ok ? "accepted" : "refused");
  }
  c.nontrivial(nt && n > 1);
}
