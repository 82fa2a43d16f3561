// sparse triplet reference data shared by the sparse harnesses
#pragma once
#include "dense.hpp"
#include "hiopMatrixSparseTriplet.hpp"
// reference triplet list (row-major sorted unless stated otherwise)
struct SM {
  int m = 0, n = 0;
  ivec i, j;
  dvec v;
  int nnz() const { return (int)i.size(); }
  void add(int r, int c, double x) { i.push_back(r); j.push_back(c); v.push_back(x); }
  RM dense() const { RM A(m, n); for(int k = 0; k < nnz(); k++) A(i[k], j[k]) += v[k]; return A; }
  RM sym() const { RM A(m, n); for(int k = 0; k < nnz(); k++) { A(i[k], j[k]) += v[k]; if(i[k] != j[k]) A(j[k], i[k]) += v[k]; } return A; }
};
inline std::string str(const SM& A)
{
  std::string s = std::to_string(A.m) + "x" + std::to_string(A.n) + "{";
  for(int k = 0; k < A.nnz() && k < 40; k++) s += "(" + std::to_string(A.i[k]) + "," + std::to_string(A.j[k]) + ")=" + pbt::str(A.v[k]) + " ";
  return s + "}";
}
// what: 0 any entry, 1 upper triangle (symmetric storage), 2 lower triangle
inline SM gen_sm(Ctx& c, int m, int n, int what = 0, bool moderate = false)
{
  SM A; A.m = m; A.n = n;
  int kind = (int)c.draw(5);
  // per-row: possibly empty rows
  for(int r = 0; r < m; r++) {
    bool empty = kind == 0 || (kind == 3 && c.flip());
    if(empty) continue;
    for(int k = 0; k < n; k++) {
      if(what == 1 && k < r) continue;
      if(what == 2 && k > r) continue;
      bool in = kind == 1 ? true : kind == 2 ? r == k : c.chance(1, kind == 4 ? 4 : 2);
      if(in) A.add(r, k, moderate ? c.moderate() : c.num());
    }
  }
  return A;
}
template<class T> void put(T& M, const SM& A)
{
  pbt::check(M.m() == A.m && M.n() == A.n && M.numberOfNonzeros() == A.nnz(), "sparse:size");
  for(int k = 0; k < A.nnz(); k++) M.i_row()[k] = A.i[k], M.j_col()[k] = A.j[k], M.M()[k] = A.v[k];
}
inline std::unique_ptr<hiop::hiopMatrixSparseTriplet> mkS(const SM& A)
{
  std::unique_ptr<hiop::hiopMatrixSparseTriplet> M(new hiop::hiopMatrixSparseTriplet(A.m, A.n, A.nnz()));
  put(*M, A);
  return M;
}
inline std::unique_ptr<hiop::hiopMatrixSymSparseTriplet> mkSym(const SM& A)
{
  std::unique_ptr<hiop::hiopMatrixSymSparseTriplet> M(new hiop::hiopMatrixSymSparseTriplet(A.m, A.nnz()));
  put(*M, A);
  return M;
}
template<class T> void same_sm(const T& M, const SM& A, const std::string& key)
{
  pbt::check(M.m() == A.m && M.n() == A.n && M.numberOfNonzeros() == A.nnz(), key + ":size");
  for(int k = 0; k < A.nnz(); k++)
    if(M.i_row()[k] != A.i[k] || M.j_col()[k] != A.j[k] || !pbt::same(M.M()[k], A.v[k]))
      pbt::fail(key, key + ": nonzero " + std::to_string(k) + " is (" + std::to_string(M.i_row()[k]) + "," + std::to_string(M.j_col()[k]) + ")=" + pbt::str(M.M()[k]) + ", expected (" + std::to_string(A.i[k]) + "," + std::to_string(A.j[k]) + ")=" + pbt::str(A.v[k]) + " of " + str(A));
}
