// dense reference matrices and helpers shared by the matrix harnesses
#pragma once
#include "common.hpp"
#include "hiopMatrixDenseRowMajor.hpp"
// row-major reference
struct RM {
  int m = 0, n = 0;
  dvec a;
  RM() {}
  RM(int m_, int n_, double v = 0.) : m(m_), n(n_), a((size_t)m_ * n_, v) {}
  double& operator()(int i, int j) { return a[(size_t)i * n + j]; }
  double operator()(int i, int j) const { return a[(size_t)i * n + j]; }
};
inline std::string str(const RM& A)
{
  std::string s = std::to_string(A.m) + "x" + std::to_string(A.n) + "[";
  for(int i = 0; i < A.m && i < 8; i++) s += pbt::str(A.a.data() + (size_t)i * A.n, std::min(A.n, 8));
  return s + "]";
}
inline RM gen_rm(Ctx& c, int m, int n, bool wide = true)
{
  RM A(m, n);
  for(auto& x : A.a) x = wide ? c.num() : c.moderate();
  return A;
}
inline RM gen_sym(Ctx& c, int n)
{
  RM A(n, n);
  for(int i = 0; i < n; i++) for(int j = i; j < n; j++) A(i, j) = A(j, i) = c.moderate();
  return A;
}
inline RM trans(const RM& A) { RM B(A.n, A.m); for(int i = 0; i < A.m; i++) for(int j = 0; j < A.n; j++) B(j, i) = A(i, j); return B; }
// W = beta*W + alpha*A*B with error bound
inline void mm(double beta, RM& W, double alpha, const RM& A, const RM& B, RM& tol)
{
  tol = RM(W.m, W.n);
  for(int i = 0; i < W.m; i++)
    for(int j = 0; j < W.n; j++) {
      long double s = 0, ab = 0;
      for(int k = 0; k < A.n; k++) { long double t = (long double)A(i, k) * B(k, j); s += t; ab += fabsl(t); }
      double w0 = beta == 0. ? 0. : beta * W(i, j);
      tol(i, j) = 4 * EPS * (A.n + 3) * (std::fabs(w0) + std::fabs(alpha) * (double)ab);
      W(i, j) = w0 + alpha * (double)s;
    }
}
inline void mv(double beta, dvec& y, double alpha, const RM& A, const dvec& x, dvec& tol)
{
  tol.assign(y.size(), 0.);
  for(int i = 0; i < A.m; i++) {
    long double s = 0, ab = 0;
    for(int k = 0; k < A.n; k++) { long double t = (long double)A(i, k) * x[k]; s += t; ab += fabsl(t); }
    double w0 = beta == 0. ? 0. : beta * y[i];
    tol[i] = 4 * EPS * (A.n + 3) * (std::fabs(w0) + std::fabs(alpha) * (double)ab);
    y[i] = w0 + alpha * (double)s;
  }
}
inline double gcoef(Ctx& c) { return c.pick<double>({0., 1., -1., 0.5, c.moderate()}); }

// (possibly column-distributed) dense matrix with its global reference
struct DM {
  std::unique_ptr<hiop::hiopMatrixDenseRowMajor> M;
  RM g;
  std::vector<hiop::index_type> part;
  DM() {}
  DM(const RM& r, const std::vector<hiop::index_type>& p, int max_rows = -1) : g(r), part(p)
  {
    if(env().size == 1) M.reset(new hiop::hiopMatrixDenseRowMajor(r.m, r.n, nullptr, MPI_COMM_SELF, max_rows));
    else M.reset(new hiop::hiopMatrixDenseRowMajor(r.m, r.n, part.data(), env().comm, max_rows));
    put(*M, g, lo(), hi());
  }
  explicit DM(const RM& r) : g(r)  // local matrix, replicated on every rank
  {
    M.reset(new hiop::hiopMatrixDenseRowMajor(r.m, r.n));
    part.assign(env().size + 1, r.n);
    for(int i = 0; i <= env().rank; i++) part[i] = 0;
    put(*M, g, lo(), hi());
  }
  int lo() const { return part[env().rank]; }
  int hi() const { return part[env().rank + 1]; }
  static void put(hiop::hiopMatrixDense& M, const RM& g, int lo, int hi)
  {
    int nl = hi - lo;
    pbt::check(M.m() == g.m && M.n() == g.n && M.get_local_size_n() == nl, "dense:size");
    for(int i = 0; i < g.m; i++) for(int j = 0; j < nl; j++) M.local_data()[(size_t)i * nl + j] = g(i, lo + j);
  }
  hiop::hiopMatrixDenseRowMajor& operator*() { return *M; }
  void expect(const RM& w, const RM& tol, const std::string& key)
  {
    cmp(*M, w, tol, key);
    g = w;
    put(*M, g, lo(), hi());
  }
  void cmp(hiop::hiopMatrixDense& X, const RM& w, const RM& tol, const std::string& key)
  {
    int nl = hi() - lo();
    pbt::check(X.m() == w.m && X.n() == w.n && X.get_local_size_n() == nl, key + ":size");
    for(int i = 0; i < w.m; i++)
      for(int j = 0; j < nl; j++) {
        double got = X.local_data()[(size_t)i * nl + j], want = w(i, lo() + j), t = tol.a.empty() ? 0. : tol(i, lo() + j);
        if(!(pbt::same(got, want) || std::fabs(got - want) <= t))
          pbt::fail(key, key + ": entry (" + std::to_string(i) + "," + std::to_string(lo() + j) + ") is " + pbt::str(got) + ", expected " +
                             pbt::str(want) + " of " + str(w));
      }
  }
  void expect(const RM& w, const std::string& key) { expect(w, RM(), key); }
  void unchanged(const std::string& key) { cmp(*M, g, RM(), key + ":operand-modified"); }
};
