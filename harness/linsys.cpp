// C21: the dense symmetric direct solver and the Krylov solvers
#include "nlp.hpp"
#include "hiopLinSolverSymDenseLapack.hpp"
#include "hiopKrylovSolver.hpp"
#include "hiopLinearOperator.hpp"
using pbt::check;
using pbt::fail;

typedef std::vector<std::vector<long double>> LM;
// a formulation is only needed for the logger and the timers
struct Host {
  Prob P; std::unique_ptr<User> U; std::unique_ptr<DenseIf> I; std::unique_ptr<hiopNlpDenseConstraints> nlp;
  Host()
  {
    P.n = 1; P.Q = RM(1, 1); P.A = RM(0, 1); P.D = RM(0, 1); P.q = {0.}; P.p4 = {0.}; P.t4 = {0.}; P.xl = {-1.}; P.xu = {1.}; P.x0 = {0.};
    U.reset(new User(P)); I.reset(new DenseIf(*U)); nlp.reset(new hiopNlpDenseConstraints(*I));
    nlp->options->SetIntegerValue("verbosity_level", 0);
    nlp->finalizeInitialization();
  }
};
static dvec unit(Ctx& c, int n) { dvec v(n); double s = 0; for(auto& x : v) x = c.uni(-1, 1), s += x * x; if(s == 0) v[0] = s = 1; for(auto& x : v) x /= std::sqrt(s); return v; }
// Q diag(d) Q' with Q a product of reflections
static RM with_eigs(Ctx& c, const dvec& d, int nref)
{
  int n = (int)d.size();
  LM A(n, std::vector<long double>(n, 0.L));
  for(int i = 0; i < n; i++) A[i][i] = d[i];
  for(int r = 0; r < nref; r++) {
    dvec v = unit(c, n); long double s = 0; for(double x : v) s += (long double)x * x;
    for(int side = 0; side < 2; side++) for(int i = 0; i < n; i++) {
      long double t = 0; for(int k = 0; k < n; k++) t += (side ? A[i][k] : A[k][i]) * v[k];
      for(int k = 0; k < n; k++) (side ? A[i][k] : A[k][i]) -= 2 * t * v[k] / s;
    }
  }
  RM R(n, n);
  for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) R(i, j) = (double)((A[i][j] + A[j][i]) / 2);
  return R;
}
static RM gen_sym(Ctx& c, int n, int& neg, bool& sing)
{
  sing = false; neg = 0;
  RM A;
  int kind = (int)c.draw(5);
  c.label("kind" + std::to_string(kind));
  auto mag = [&] { double cond = c.pick<double>({1., 1e1, 1e3, 1e5}); return c.uni(1. / cond, 1.); };
  switch(kind) {
  case 0: case 1: {  // prescribed spectrum
    dvec d(n); int want = (int)c.draw(2);
    for(auto& v : d) { v = mag(); if(want == 1 || (want == 2 && c.flip())) v = -v, neg++; }
    double s = c.pick<double>({1., 1e3, 1e6, 1e-3}); for(auto& v : d) v *= s;
    A = with_eigs(c, d, kind == 0 ? 0 : 1 + (int)c.draw(1));
    break;
  }
  case 2: {  // saddle point [H J'; J -D]: inertia n1 positive, n2 negative
    int n2 = (int)c.range(0, n / 2), n1 = n - n2;
    dvec d(n1); for(auto& v : d) v = c.uni(0.5, 3.);
    RM H = with_eigs(c, d, 1);
    A = RM(n, n);
    for(int i = 0; i < n1; i++) for(int j = 0; j < n1; j++) A(i, j) = H(i, j);
    for(int i = 0; i < n2; i++) { for(int j = 0; j < n1; j++) A(n1 + i, j) = A(j, n1 + i) = (j == i ? 2. : 0.) + (j < n2 ? c.uni(-0.5, 0.5) / n2 : c.uni(-1, 1)); if(c.chance(1, 3)) A(n1 + i, n1 + i) = -c.uni(0, 2); }
    neg = n2; break;
  }
  case 3: {  // zero diagonal 2x2 pivots, permuted, and diagonal scaling by powers of two
    A = RM(n, n); ivec p = gen_perm(c, n); int i = 0;
    while(i < n) {
      if(i + 1 < n && c.flip()) { double v = c.uni(0.3, 3) * (c.flip() ? 1 : -1); A(p[i], p[i + 1]) = A(p[i + 1], p[i]) = v; if(c.flip()) A(p[i], p[i]) = c.uni(-1, 1); neg++; i += 2; }
      else { double v = c.uni(0.3, 3); if(c.flip()) v = -v, neg++; A(p[i], p[i]) = v; i++; }
    }
    dvec s(n, 1.); if(c.flip()) for(auto& v : s) v = std::ldexp(1., (int)c.range(-6, 10));
    for(int a = 0; a < n; a++) for(int b = 0; b < n; b++) A(a, b) *= s[a] * s[b];
    break;
  }
  case 4: {  // exactly singular: a zero row and column in an otherwise regular matrix
    dvec d(n); for(auto& v : d) { v = c.uni(0.3, 2.); if(c.flip()) v = -v; }
    A = with_eigs(c, d, 1);
    int k = (int)c.range(0, n - 1); for(int i = 0; i < n; i++) A(i, k) = A(k, i) = 0.;
    sing = true; break;
  }
  case 5: {  // exactly singular: direct sum with rank one blocks
    A = RM(n, n); ivec p = gen_perm(c, n); int i = 0; sing = true;
    double v = c.uni(0.3, 3) * (c.flip() ? 1 : -1);
    if(n >= 2) { A(p[0], p[0]) = A(p[1], p[1]) = v; A(p[0], p[1]) = A(p[1], p[0]) = c.flip() ? v : -v; i = 2; } else i = 1;
    for(; i < n; i++) A(p[i], p[i]) = c.uni(0.3, 3) * (c.flip() ? 1 : -1);
    break;
  }
  }
  return A;
}
PBT_TARGET(symdense)
{
  Host& h = *new Host; std::unique_ptr<Host> own(&h);
  int n = (int)c.size(1, 14);
  hiopLinSolverSymDenseLapack ls(n, h.nlp.get());
  int rounds = 1 + (int)c.range(0, 3);
  for(int r = 0; r < rounds; r++) {
    int neg; bool sing;
    RM A = gen_sym(c, n, neg, sing);
    c << "\nround " << r << " A=" << str(A) << " neg=" << neg << (sing ? " singular" : "");
    bool junk = c.flip();
    double** M = nullptr; (void)M;
    hiopMatrixDense& S = ls.sysMatrix();
    check(S.m() == n && S.n() == n, "symdense:size");
    // only the upper triangle is documented to matter
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) S.local_data()[(size_t)i * n + j] = j >= i ? A(i, j) : junk ? 1e3 * (i + 1) : A(i, j);
    int ret = ls.matrixChanged();
    c.nontrivial(n > 1);
    if(sing) { check(ret < 0, "symdense:singular-not-reported", "matrixChanged returned " + std::to_string(ret) + " for a singular matrix"); continue; }
    check(ret == neg, "symdense:inertia", "matrixChanged reported " + std::to_string(ret) + " negative eigenvalues, the matrix has " + std::to_string(neg));
    int nr = 1 + (int)c.range(0, 2);
    for(int k = 0; k < nr; k++) {
      dvec b(n); for(auto& v : b) v = c.moderate();
      c << " b=" << pbt::str(b);
      std::unique_ptr<hiopVector> x(LinearAlgebraFactory::create_vector("DEFAULT", n));
      for(int i = 0; i < n; i++) x->local_data()[i] = b[i];
      check(ls.solve(*x), "symdense:solve-failed");
      double nx = 0, na = 0, nb = 0;
      for(int i = 0; i < n; i++) { check(std::isfinite(x->local_data()[i]), "symdense:nonfinite"); nx = std::max(nx, std::fabs(x->local_data()[i])); nb = std::max(nb, std::fabs(b[i])); double s = 0; for(int j = 0; j < n; j++) s += std::fabs(A(i, j)); na = std::max(na, s); }
      for(int i = 0; i < n; i++) {
        long double s = -(long double)b[i]; for(int j = 0; j < n; j++) s += (long double)A(i, j) * x->local_data()[j];
        check(std::fabs((double)s) <= 1e-12 * n * (na * nx + nb), "symdense:residual", "residual " + pbt::str((double)s) + " in row " + std::to_string(i) + " (scale " + pbt::str(na * nx + nb) + ")");
      }
    }
  }
}
static double n2(const dvec& v) { long double s = 0; for(double x : v) s += (long double)x * x; return std::sqrt((double)s); }
static void krylov(Ctx& c, bool pcg)
{
  int n = (int)c.size(1, 12);
  int kind = (int)c.draw(3);  // 0,1 well conditioned definite, 2 general regular/indefinite, 3 singular
  c.label("kind" + std::to_string(kind));
  RM A;
  dvec d(n);
  if(kind <= 1) { double cond = c.pick<double>({1., 10., 1e2}); for(auto& v : d) v = c.uni(1. / cond, 1.) * (kind == 1 ? 50. : 1.); A = with_eigs(c, d, (int)c.draw(2)); }
  else if(kind == 2) {
    if(c.flip()) { for(auto& v : d) v = c.uni(0.1, 2) * (c.flip() ? 1 : -1); A = with_eigs(c, d, 1); }
    else { A = RM(n, n); for(auto& v : A.a) v = c.uni(-1, 1); for(int i = 0; i < n; i++) A(i, i) += c.uni(0, 3); }
  } else { for(auto& v : d) v = c.chance(1, 3) ? 0. : c.uni(0.1, 2); d[c.range(0, n - 1)] = 0.; A = with_eigs(c, d, (int)c.draw(1)); }
  auto mkd = [&](const RM& R) { std::unique_ptr<hiopMatrixDense> M(LinearAlgebraFactory::create_matrix_dense("DEFAULT", n, n)); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) M->local_data()[(size_t)i * n + j] = R(i, j); return M; };
  auto Am = mkd(A);
  hiopMatVecOpr op(Am.get());
  // preconditioners: positive definite, diagonal or close to the inverse
  int pre = (int)c.draw(3);
  auto diagp = [&] { RM R(n, n); for(int i = 0; i < n; i++) R(i, i) = kind <= 1 ? c.uni(0.7, 1.4) : c.uni(0.3, 2.); return R; };
  auto ML = mkd(diagp()), MR = mkd(diagp());
  hiopMatVecOpr opl(ML.get()), opr(MR.get());
  hiopLinearOperator* l = pre & 1 ? &opl : nullptr; hiopLinearOperator* r = pre & 2 ? &opr : nullptr;
  std::unique_ptr<hiopVector> x0(LinearAlgebraFactory::create_vector("DEFAULT", n));
  bool have0 = c.flip(); dvec x0v(n); for(auto& v : x0v) v = c.uni(-2, 2); for(int i = 0; i < n; i++) x0->local_data()[i] = x0v[i];
  c.label("pre" + std::to_string(pre));
  c << (pcg ? "PCG" : "BiCGStab") << " A=" << str(A) << " pre=" << pre << (have0 ? " x0=" + pbt::str(x0v) : "");
  std::unique_ptr<hiopKrylovSolver> ks;
  if(pcg) ks.reset(new hiopPCGSolver(n, &op, l, r, have0 ? x0.get() : nullptr));
  else ks.reset(new hiopBiCGStabSolver(n, &op, l, r, have0 ? x0.get() : nullptr));
  int rounds = 1 + (int)c.range(0, 2);
  dvec cur = have0 ? x0v : dvec(n, 0.);  // the iterate kept by the solver object
  bool exists = have0;
  for(int q = 0; q < rounds; q++) {
    double tol = c.pick<double>({1e-8, 1e-3, 1e-10, 1e-13, 1e-16});
    int maxit = c.flip() ? 200 : (int)c.range(1, 12);
    ks->set_tol(tol); ks->set_max_num_iter(maxit);
    if(c.flip()) { double v = c.pick<double>({0., 1.}); ks->set_x0(v); if(exists) cur.assign(n, v); c << " set_x0(" << v << ")"; }
    dvec b(n); bool zero = c.chance(1, 12); for(auto& v : b) v = zero ? 0. : c.moderate();
    c << "\n b=" << pbt::str(b) << " tol=" << tol << " maxit=" << maxit;
    std::unique_ptr<hiopVector> v(LinearAlgebraFactory::create_vector("DEFAULT", n));
    for(int i = 0; i < n; i++) v->local_data()[i] = b[i];
    bool ok = pcg ? ((hiopPCGSolver*)ks.get())->solve(v.get()) : ((hiopBiCGStabSolver*)ks.get())->solve(v.get());
    dvec x(v->local_data(), v->local_data() + n), res(n); double mag = 0, nb = n2(b);
    for(int i = 0; i < n; i++) { long double s = b[i]; double m = std::fabs(b[i]); for(int j = 0; j < n; j++) s -= (long double)A(i, j) * x[j], m += std::fabs(A(i, j) * x[j]); res[i] = (double)s; mag += m; }
    double nr = n2(res);
    std::string st = " flag=" + std::to_string(ks->get_convergence_flag()) + " iter=" + pbt::str(ks->get_sol_num_iter()) + " true residual " + pbt::str(nr) + " |b|=" + pbt::str(nb);
    check(ok == (ks->get_convergence_flag() == 0), "krylov:flag", "return value and flag disagree" + st);
    c.nontrivial(n > 1 && nb > 0);
    if(nb == 0) { check(ok && n2(x) == 0, "krylov:zero-rhs", "zero right-hand side" + st); continue; }
    c.label(ok ? "converged" : "failed");
    if(ok) {
      check(nr <= tol * nb * (1 + 1e-10) + 1e-14 * mag, "krylov:false-success", "convergence reported" + st);
      check(std::fabs(ks->get_sol_abs_resid() - nr) <= 1e-13 * mag + 1e-10 * nr, "krylov:abs-resid", "reported residual " + pbt::str(ks->get_sol_abs_resid()) + st);
      check(std::fabs(ks->get_sol_rel_resid() - nr / nb) <= (1e-13 * mag + 1e-10 * nr) / nb, "krylov:rel-resid", "reported relative residual " + pbt::str(ks->get_sol_rel_resid()) + st);
      check(ks->get_sol_num_iter() <= maxit, "krylov:iter");
    } else {
      dvec r0(n); for(int i = 0; i < n; i++) { double s = b[i]; for(int j = 0; j < n; j++) s -= A(i, j) * cur[j]; r0[i] = s; }
      double ini = n2(r0);
      check(nr <= 100 * ini + 1e-10 * mag, "krylov:diverged", "the point returned has a larger residual than the starting point " + pbt::str(ini) + st);
      check(!(nr <= tol * nb * 0.5) || tol < 1e-12, "krylov:false-failure", "failure reported although the returned point meets the tolerance" + st);
      if(kind <= 1 && maxit == 200 && tol >= 1e-10) fail("krylov:no-convergence", "no convergence on a well conditioned positive definite system" + st + " " + ks->get_convergence_info());
    }
    for(double t : x) check(std::isfinite(t), "krylov:nonfinite", "non-finite point returned" + st);
    cur = x; exists = true;  // the next solve starts from the returned point
  }
}
PBT_TARGET(krylov_pcg) { krylov(c, true); }
PBT_TARGET(krylov_bicgstab) { krylov(c, false); }
