// C12: the low-rank quasi-Newton Hessian against a dense recursive model
#include <deque>
#include "comp_host.hpp"
#include "hiopHessianLowRank.hpp"

namespace {
typedef long double ld;
template<class T> struct Mat { int n; std::vector<T> a; explicit Mat(int k = 0) : n(k), a((size_t)k * k) {} T& operator()(int i, int j) { return a[(size_t)i * n + j]; } T operator()(int i, int j) const { return a[(size_t)i * n + j]; } };
struct Pair { dvec s, y, ymag; };
// recursive BFGS from sigma*I; noise!=0 perturbs the gradient changes and the arithmetic
template<class T> Mat<T> bfgs(const std::deque<Pair>& P, int n, T sigma, Ctx* noise, double* big = nullptr)
{
  Mat<T> B(n);
  for(int i = 0; i < n; i++) B(i, i) = sigma;
  for(auto& p : P) {
    std::vector<T> s(p.s.begin(), p.s.end()), y(p.y.begin(), p.y.end()), bs(n);
    if(noise) for(int i = 0; i < n; i++) y[i] += (noise->flip() ? 1 : -1) * 4 * EPS * p.ymag[i];
    T sy = 0, sbs = 0;
    for(int i = 0; i < n; i++) { sy += s[i] * y[i]; for(int j = 0; j < n; j++) bs[i] += B(i, j) * s[j]; }
    for(int i = 0; i < n; i++) sbs += s[i] * bs[i];
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) { B(i, j) += y[i] * y[j] / sy - bs[i] * bs[j] / sbs; if(big) *big = std::max({*big, std::fabs((double)(y[i] * y[j] / sy)), std::fabs((double)(bs[i] * bs[j] / sbs))}); }
  }
  return B;
}
// x = (B+D)^{-1} r by Gaussian elimination with complete row pivoting; returns a growth estimate
template<class T> std::vector<T> solve(Mat<T> A, std::vector<T> r)
{
  int n = A.n;
  for(int k = 0; k < n; k++) {
    int p = k;
    for(int i = k; i < n; i++) if(std::fabs(A(i, k)) > std::fabs(A(p, k))) p = i;
    if(A(p, k) == 0) return std::vector<T>(n, NAN);
    for(int j = 0; j < n; j++) std::swap(A(k, j), A(p, j));
    std::swap(r[k], r[p]);
    for(int i = k + 1; i < n; i++) { T f = A(i, k) / A(k, k); for(int j = k; j < n; j++) A(i, j) -= f * A(k, j); r[i] -= f * r[k]; }
  }
  for(int k = n - 1; k >= 0; k--) { for(int j = k + 1; j < n; j++) r[k] -= A(k, j) * r[j]; r[k] /= A(k, k); }
  return r;
}
// the compact inverse in the given precision, as an estimate of what its rounding errors can do
template<class T> std::vector<T> compact(const std::deque<Pair>& P, int n, T sigma, const dvec& D, const dvec& r0, Ctx& nz, double* cond = nullptr)
{
  int l = (int)P.size();
  std::vector<T> dh(n), x(n);
  for(int i = 0; i < n; i++) dh[i] = T(1) / (sigma + T(D[i])), x[i] = dh[i] * T(r0[i]);
  if(!l) return x;
  Mat<T> V(2 * l);
  std::vector<T> w(2 * l);
  for(int a = 0; a < l; a++) for(int b = 0; b < l; b++) {
    T yy = 0, sy = 0, ss = 0, L = 0, dd = 0, sm = 0;
    for(int i = 0; i < n; i++) {
      yy += T(P[a].y[i]) * dh[i] * P[b].y[i]; sy += T(P[a].s[i]) * sigma * dh[i] * P[b].y[i]; sm += std::fabs(T(P[a].s[i]) * sigma * P[b].s[i]); ss += T(P[a].s[i]) * sigma * (dh[i] * sigma - 1) * P[b].s[i];
      if(a > b) L += T(P[a].s[i]) * P[b].y[i];
      if(a == b) dd += T(P[a].s[i]) * P[a].y[i];
    }
    auto e = [&] { return T((nz.flip() ? 1 : -1) * 3 * EPS); };
    yy *= 1 + e(); sy *= 1 + e(); ss += sm * e();  // dh*sigma-1 cancels
    L *= 1 + e(); dd *= 1 + e();
    V(l + a, l + b) = yy + dd; V(a, l + b) = sy - L; V(l + b, a) = sy - L; V(a, b) = ss;
  }
  for(int a = 0; a < l; a++) for(int i = 0; i < n; i++) { w[a] += T(P[a].s[i]) * sigma * x[i]; w[l + a] += T(P[a].y[i]) * x[i]; }
  T vm = 0;  // the factorisation is backward stable only with respect to the largest entry
  for(T e : V.a) vm = std::max<T>(vm, std::fabs(e));
  for(int a = 0; a < 2 * l; a++) for(int b = a; b < 2 * l; b++) { T e = V(a, b) + (nz.flip() ? 1 : -1) * EPS * vm; V(a, b) = V(b, a) = e; }
  if(cond) {
    *cond = 1; double im = 0;
    for(int k = 0; k < 2 * l; k++) { std::vector<T> e(2 * l); e[k] = 1; auto q = solve(V, e); for(T z : q) im = std::fabs((double)z) <= DBL_MAX ? std::max(im, std::fabs((double)z)) : INF; }
    *cond = 2 * l * (double)vm * im;
  }
  auto v = solve(V, w);
  for(int i = 0; i < n; i++) { T q = 0; for(int a = 0; a < l; a++) q += sigma * P[a].s[i] * v[a] + T(P[a].y[i]) * v[l + a]; x[i] -= dh[i] * q * (1 + (nz.flip() ? 1 : -1) * 3 * EPS); }
  return x;
}
}
PBT_TARGET(lowrank)
{
  Host H; make_host(c, H, DENSE);
  auto& N = *H.N;
  auto* nd = dynamic_cast<hiopNlpDenseConstraints*>(H.N);
  int n = H.n, me = H.me, mi = H.mi, m = me + mi;
  if(n == 0) { pbt::discard(); }
  int lmax = c.pick<int>({2, 3, 4, 5, 6, 1, 0, 8, 10});
  const char* names[] = {"sty", "sty_inv", "snrm_ynrm", "sty_srnm_ynrm", "sigma0"};
  int strat = (int)c.range(0, 4);
  double sig0 = c.pick<double>({1., 1e-2, 20., 1e4});
  N.options->SetStringValue("sigma_update_strategy", names[strat]);
  N.options->SetNumericValue("sigma0", sig0);
  c << "memory " << lmax << " sigma " << names[strat] << " " << sig0 << "\n";
  N.runStats.initialize();
  hiopHessianLowRank Q(nd, lmax);
  hiopIterate it(&N);
  VP g(N.alloc_primal_vec()), out(N.alloc_primal_vec()), in(N.alloc_primal_vec()), Dx(N.alloc_primal_vec()), xx(N.alloc_primal_vec());
  std::unique_ptr<hiopMatrix> Jc(N.alloc_Jac_c()), Jd(N.alloc_Jac_d());
  auto* jc = dynamic_cast<hiopMatrixDense*>(Jc.get()); auto* jd = dynamic_cast<hiopMatrixDense*>(Jd.get());
  int nup = (int)c.range(2, lmax + 5);
  std::deque<Pair> P;
  double sigma = sig0, sigrel = 1e-14;
  dvec px, pg; RM pA(me, n), pB(mi, n);
  bool have = false, nt = false; int kept = 0, skipped = 0;
  // curvature of the model: gradient changes follow a fixed positive matrix, sometimes not
  RM A0(n, n); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) A0(i, j) = c.uni(-1, 1);
  auto mulA = [&](const dvec& s) { dvec t(n), y(n); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) t[i] += A0(i, j) * s[j]; for(int i = 0; i < n; i++) { for(int j = 0; j < n; j++) y[i] += A0(j, i) * t[j]; y[i] += 0.3 * s[i]; } return y; };
  double hs = c.pick<double>({1., 1., 1e-3, 1e3});
  for(int u = 0; u < nup; u++) {
    ItV v = gen_it(c, H, 0);
    double step = c.pick<double>({1., 1., 1., 1., 1., 1., 1e-2, 1e-2, 1e-3, 1e-4, c.pick<double>({1e-6, 1e-8, 1e-10, 1e-15, 0.})});
    if(have) for(int i = 0; i < n; i++) v.x[i] = px[i] + step * c.moderate();
    int kind = (int)c.draw(9);
    dvec gc(n), s(n, 0.);
    if(have) for(int i = 0; i < n; i++) s[i] = v.x[i] - px[i];
    if(have && kind < 9) { dvec y = mulA(s); for(int i = 0; i < n; i++) gc[i] = pg[i] + hs * (kind == 8 ? -1 : 1) * y[i]; } else for(auto& e : gc) e = c.moderate();
    RM A(me, n), B(mi, n);
    bool lin = c.chance(1, 2) && have;
    for(auto* q : {&A, &B}) for(size_t k = 0; k < q->a.size(); k++) q->a[k] = lin ? (q == &A ? pA : pB).a[k] : (have ? (q == &A ? pA : pB).a[k] : 0.) + (have ? step * 0.1 : 1.) * c.moderate();
    put(it, v); set(*g, gc);
    for(size_t k = 0; k < A.a.size(); k++) jc->local_data()[k] = A.a[k];
    for(size_t k = 0; k < B.a.size(); k++) jd->local_data()[k] = B.a[k];
    c << "update x=" << pbt::str(v.x) << " g=" << pbt::str(gc) << " yc=" << pbt::str(v.yc) << " yd=" << pbt::str(v.yd) << " Jc=" << pbt::str(A.a) << " Jd=" << pbt::str(B.a) << "\n";
    check(Q.update(it, *g, *Jc, *Jd), "qn:update-return");
    if(have) {
      Pair p; p.s = s; p.y.resize(n); p.ymag.resize(n);
      ld sy = 0, syt = 0, ns = 0, ny = 0, symag = 0; double sinf = 0;
      for(int i = 0; i < n; i++) {
        ld y = (ld)gc[i] - pg[i]; double mag = std::fabs(gc[i]) + std::fabs(pg[i]);
        for(int j = 0; j < me; j++) { y += (ld)v.yc[j] * A(j, i) - (ld)v.yc[j] * pA(j, i); mag += std::fabs(v.yc[j]) * (std::fabs(A(j, i)) + std::fabs(pA(j, i))); }
        for(int j = 0; j < mi; j++) { y += (ld)v.yd[j] * B(j, i) - (ld)v.yd[j] * pB(j, i); mag += std::fabs(v.yd[j]) * (std::fabs(B(j, i)) + std::fabs(pB(j, i))); }
        p.y[i] = (double)y; p.ymag[i] = mag;
        sy += (ld)s[i] * y; symag += std::fabs(s[i]) * (std::fabs((double)y) + (m + 4) * mag); ns += (ld)s[i] * s[i]; ny += y * y; sinf = std::max(sinf, std::fabs(s[i]));
        syt += (ld)(m + 6) * EPS * mag;  // absolute uncertainty of |y|
      }
      ns = std::sqrt(ns); ny = std::sqrt(ny);
      ld thr = ns * ny * std::sqrt((ld)EPS), unc = 10 * EPS * symag + ns * std::sqrt((ld)EPS) * syt;
      bool take;
      if(std::fabs(sinf - 100 * EPS) < 1e-3 * EPS) { c.label("gray"); break; }
      if(sinf < 100 * EPS) take = false;
      else if(std::fabs(sy - thr) <= unc) { c.label("gray"); break; }  // the decision depends on round-off errors
      else take = sy > thr;
      if(take) {
        kept++;
        if(lmax > 0) { P.push_back(p); while((int)P.size() > lmax) P.pop_front(); }
        double a = (double)(sy / (ns * ns)), b = (double)(ny * ny / sy);
        sigma = strat == 0 ? a : strat == 1 ? b : strat == 2 ? (double)(ns / ny) : strat == 3 ? 0.5 * (a + b) : sig0;
        sigma = std::max(std::min(1e8, sigma), 1e-8);
        sigrel = 1e-14 + (double)(10 * EPS * symag / std::fabs(sy) + 2 * syt / ny);
        // relative uncertainty of sigma when the gradient change is mostly round-off: leave the case alone
        if(unc > 1e-6 * std::fabs(sy) || syt > 1e-6 * ny) { c.label("noisy"); break; }
      } else skipped++;
      c << (take ? "taken" : "skipped") << " sigma=" << sigma << "\n";
    }
    have = true; px = v.x; pg = gc; pA = A; pB = B;
    if(c.chance(1, 3)) continue;
    // model and its uncertainty
    double big = sigma;
    Mat<ld> Bm = bfgs<ld>(P, n, (ld)sigma, nullptr, &big);
    std::vector<Mat<double>> runs;
    for(int k = 0; k < 4; k++) runs.push_back(bfgs<double>(P, n, sigma * (1 + (k % 2 ? 1 : -1) * sigrel * (k + 1) / 2), &c));
    for(ld e : Bm.a) big = std::max(big, (double)std::fabs(e)); 
    double err = 0; for(auto& R : runs) for(size_t k = 0; k < R.a.size(); k++) err = std::max(err, std::fabs((double)(R.a[k] - Bm.a[k])));
    if(!(err < 1e-5 * big)) { c.label("ill-conditioned"); break; }
    double tol = 300 * err + 1e-11 * big;
    if(kept && skipped && lmax) c.label("skip+keep");
    // products
    auto product = [&](const dvec& x, double beta, double alpha, const dvec& y0, const std::string& key) {
      set(*in, x); set(*out, y0);
      Q.timesVec(beta, *out, alpha, *in);
      double nx = 0, ny0 = 0; for(double e : x) nx += std::fabs(e); for(double e : y0) ny0 = std::max(ny0, std::fabs(e));
      for(int i = 0; i < n; i++) { ld w = (ld)beta * y0[i]; for(int j = 0; j < n; j++) w += (ld)alpha * Bm(i, j) * x[j]; pbt::close_val(out->local_data_const()[i], (double)w, std::fabs(alpha) * tol * nx + 8 * EPS * std::fabs(beta) * ny0, key); }
      pbt::eq_arr(in->local_data_const(), x, "qn:x-modified");
    };
    dvec x = gen_moderate(c, n), y0 = gen_moderate(c, n);
    product(x, c.pick<double>({0., 1., -0.5}), c.pick<double>({1., -1., 2.}), y0, "qn:timesVec");
    if(!P.empty()) {
      const Pair& p = P.back();
      set(*in, p.s); out->setToZero(); Q.timesVec(0., *out, 1., *in);
      double nx = 0; for(double e : p.s) nx += std::fabs(e);
      for(int i = 0; i < n; i++) pbt::close_val(out->local_data_const()[i], p.y[i], tol * nx + 20 * (m + 2) * EPS * p.ymag[i], "qn:secant-equation");
    }
    { // positive definite
      set(*in, x); out->setToZero(); Q.timesVec(0., *out, 1., *in);
      ld q = 0, nx = 0; for(int i = 0; i < n; i++) q += (ld)x[i] * out->local_data_const()[i], nx += std::fabs(x[i]);
      ld w = 0; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) w += x[i] * Bm(i, j) * x[j];
      if(w > 10 * tol * nx * nx) check(q > 0, "qn:not-positive-definite");
    }
    // solves with the barrier diagonal
    dvec D(n); for(auto& e : D) e = c.chance(1, 4) ? 0. : c.pos() ; for(auto& e : D) if(!(e < 1e8)) e = 1.;
    set(*Dx, D); Q.updateLogBarrierDiagonal(*Dx);
    Mat<ld> Hm = Bm; for(int i = 0; i < n; i++) Hm(i, i) += D[i];
    auto refsolve = [&](const dvec& r, dvec& x0, double& tolx) {
      auto e = solve(Hm, std::vector<ld>(r.begin(), r.end()));
      // perturbed systems: uncertainty inherited from the pairs
      double er = 0, nx = 0;
      for(int i = 0; i < n; i++) nx = std::max(nx, std::fabs((double)e[i]));
      for(int q = 0; q < 4; q++) { double cond = 1; auto cd = compact<double>(P, n, sigma, D, r, c, &cond); if(!(cond < 1e8)) return false; for(int i = 0; i < n; i++) er = std::max(er, std::fabs((double)(e[i] - cd[i]))); }
      for(auto& R : runs) { Mat<double> G = R; for(int i = 0; i < n; i++) G(i, i) += D[i]; auto q = solve(G, std::vector<double>(r.begin(), r.end())); for(int i = 0; i < n; i++) er = std::max(er, std::fabs((double)(e[i] - q[i]))); }
      x0.assign(n, 0.); for(int i = 0; i < n; i++) x0[i] = (double)e[i];
      tolx = 1e3 * er + 1e-6 * nx;
      return er < 1e-9 * nx;  // otherwise the answer is dominated by round-off errors
    };
    dvec r = gen_moderate(c, n), xs; double tx;
    if(refsolve(r, xs, tx)) {
      set(*in, r); out->setToConstant(0.5);
      Q.solve(*in, *out);
      for(int i = 0; i < n; i++) pbt::close_val(out->local_data_const()[i], xs[i], tx, "qn:solve");
      pbt::eq_arr(in->local_data_const(), r, "qn:rhs-modified");
      if(kept > lmax && lmax >= 2) nt = true;
      if(kept >= 2 && lmax >= 2) nt = true;
      c.label("solved");
    } else c.label("solve-ill-conditioned");
    // W = beta W + alpha X H^{-1} X'
    if(m > 0) {
      std::unique_ptr<hiopMatrixDense> X(nd->alloc_multivector_primal(m)), W(LinearAlgebraFactory::create_matrix_dense("DEFAULT", m, m));
      RM x0(m, n), w0(m, m);
      for(auto& e : x0.a) e = c.chance(1, 4) ? 0. : c.moderate();
      for(int i = 0; i < m; i++) for(int j = i; j < m; j++) w0(i, j) = w0(j, i) = c.moderate();
      for(size_t k = 0; k < x0.a.size(); k++) X->local_data()[k] = x0.a[k];
      for(size_t k = 0; k < w0.a.size(); k++) W->local_data()[k] = w0.a[k];
      double beta = c.pick<double>({0., 1., 0.5}), alpha = c.pick<double>({1., -1., 2.});
      bool ok = true; std::vector<dvec> cols; dvec tcol;
      for(int j = 0; j < m; j++) { dvec r2(n), q; double t; for(int i = 0; i < n; i++) r2[i] = x0(j, i); ok &= ninf(r2) == 0. || refsolve(r2, q, t); if(ninf(r2) == 0.) { q.assign(n, 0.); t = 0; } cols.push_back(q); tcol.push_back(t); }
      if(ok) {
        Q.symMatTimesInverseTimesMatTrans(beta, *W, alpha, *X);
        for(int i = 0; i < m; i++) for(int j = 0; j < m; j++) {
          ld w = (ld)beta * w0(i, j); double nx = 0; for(int k = 0; k < n; k++) { w += (ld)alpha * x0(i, k) * cols[j][k]; nx += std::fabs(x0(i, k)); }
          double t = std::fabs(alpha) * (tcol[j] * nx);
          double nx2 = 0; for(int k = 0; k < n; k++) nx2 += std::fabs(x0(j, k));
          t = std::max(t, std::fabs(alpha) * tcol[i] * nx2) + 8 * EPS * std::fabs(beta * w0(i, j));
          pbt::close_val(W->local_data()[(size_t)i * m + j], (double)w, t, "qn:schur");
        }
        for(size_t k = 0; k < x0.a.size(); k++) check(X->local_data()[k] == x0.a[k], "qn:X-modified");
      }
    }
    product(x, 0., 1., y0, "qn:timesVec-after-solve");
  }
  c.nontrivial(nt);
}
