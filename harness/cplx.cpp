// C20: complex matrices, the sparse complex direct solver and Kron reduction against textbook complex arithmetic
#include "common.hpp"
#include <complex>
#include <set>
#include "hiopMatrixComplexDense.hpp"
#include "hiopMatrixComplexSparseTriplet.hpp"
#include "hiopLinSolverUMFPACKZ.hpp"
#include "hiopKronReduction.hpp"
using namespace hiop;
using pbt::check;
using pbt::fail;
typedef std::complex<double> Z;
typedef std::complex<long double> LZ;

struct CM {
  int m = 0, n = 0; std::vector<Z> a;
  CM() {}
  CM(int m_, int n_) : m(m_), n(n_), a((size_t)m_ * n_) {}
  Z& operator()(int i, int j) { return a[(size_t)i * n + j]; }
  Z operator()(int i, int j) const { return a[(size_t)i * n + j]; }
};
struct CS { int m = 0, n = 0; ivec i, j; std::vector<Z> v; int nnz() const { return (int)i.size(); } void add(int r, int c, Z x) { i.push_back(r); j.push_back(c); v.push_back(x); } CM dense() const { CM A(m, n); for(int k = 0; k < nnz(); k++) A(i[k], j[k]) += v[k]; return A; } };
static std::string zs(Z z) { return pbt::str(z.real()) + (z.imag() < 0 ? "" : "+") + pbt::str(z.imag()) + "i"; }
static std::string str(const CS& A) { std::string s = std::to_string(A.m) + "x" + std::to_string(A.n) + "{"; for(int k = 0; k < A.nnz() && k < 40; k++) s += "(" + std::to_string(A.i[k]) + "," + std::to_string(A.j[k]) + ")=" + zs(A.v[k]) + " "; return s + "}"; }
static std::string str(const CM& A) { std::string s = std::to_string(A.m) + "x" + std::to_string(A.n) + "["; for(size_t k = 0; k < A.a.size() && k < 40; k++) s += zs(A.a[k]) + " "; return s + "]"; }
static Z gz(Ctx& c) { switch(c.draw(3)) { case 0: return Z(c.moderate(), 0); case 1: return Z(0, c.moderate()); default: return Z(c.moderate(), c.moderate()); } }
static int dim(Ctx& c) { return (int)c.size(1, 9); }
static CM gen_cm(Ctx& c, int m, int n) { CM A(m, n); for(auto& v : A.a) v = gz(c); return A; }
static CS gen_cs(Ctx& c, int m, int n, bool upper = false)
{
  CS A; A.m = m; A.n = n;
  int kind = (int)c.draw(4);
  for(int r = 0; r < m; r++) { if(kind == 3 && c.flip()) continue; for(int k = upper ? r : 0; k < n; k++) if(kind == 1 || (kind != 0 && c.chance(1, kind == 4 ? 4 : 2))) A.add(r, k, gz(c)); }
  return A;
}
static std::unique_ptr<hiopMatrixComplexSparseTriplet> mk(const CS& A)
{
  std::unique_ptr<hiopMatrixComplexSparseTriplet> M(new hiopMatrixComplexSparseTriplet(A.m, A.n, A.nnz()));
  M->copyFrom(A.i.data(), A.j.data(), A.v.data());
  return M;
}
static std::unique_ptr<hiopMatrixComplexDense> mk(const CM& A)
{
  std::unique_ptr<hiopMatrixComplexDense> M(new hiopMatrixComplexDense(A.m, A.n));
  if(!A.a.empty()) M->copyFrom(A.a.data());
  return M;
}
static void cmp(const hiopMatrixComplexDense& M, const CM& w, const dvec& tol, const std::string& key)
{
  check(M.m() == w.m && M.n() == w.n, key + ":size");
  for(int i = 0; i < w.m; i++) for(int j = 0; j < w.n; j++) {
    Z g = M.local_data()[i][j]; double t = tol.empty() ? 0. : tol[(size_t)i * w.n + j];
    if(!(std::abs(g - w(i, j)) <= t)) fail(key, key + ": entry (" + std::to_string(i) + "," + std::to_string(j) + ") is " + zs(g) + ", expected " + zs(w(i, j)) + " (tol " + pbt::str(t) + ")");
  }
}
static void same(const hiopMatrixComplexSparseTriplet& M, const CS& A, const std::string& key)
{
  check(M.m() == A.m && M.n() == A.n && M.numberOfNonzeros() == A.nnz(), key + ":size", key + ": " + std::to_string(M.numberOfNonzeros()) + " nonzeros, expected " + std::to_string(A.nnz()));
  auto* s = M.storage();
  for(int k = 0; k < A.nnz(); k++) check(s->i_row()[k] == A.i[k] && s->j_col()[k] == A.j[k] && s->M()[k] == A.v[k], key, key + ": nonzero " + std::to_string(k) + " is (" + std::to_string(s->i_row()[k]) + "," + std::to_string(s->j_col()[k]) + ")=" + zs(s->M()[k]) + ", expected (" + std::to_string(A.i[k]) + "," + std::to_string(A.j[k]) + ")=" + zs(A.v[k]));
}
static ivec incr(Ctx& c, int n) { ivec r; for(int i = 0; i < n; i++) if(c.flip()) r.push_back(i); return r; }

PBT_TARGET(cdense_ops)
{
  int m = (int)c.size(0, 8), n = (int)c.size(0, 8), op = (int)c.draw(8);
  c.label("op" + std::to_string(op));
  if(op == 6 || op == 7) n = m = std::max(1, m);
  CM A = gen_cm(c, m, n);
  auto M = mk(A);
  c << "op " << op << " A=" << str(A);
  c.nontrivial(m > 1 && n > 1);
  CM W = A;
  switch(op) {
  case 0: {
    Z al = gz(c), be = c.flip() ? Z(0) : gz(c);
    if(c.flip()) al = 1;
    std::vector<Z> x(n), y(m), g;
    for(auto& v : x) v = gz(c);
    for(auto& v : y) v = gz(c);
    bool unini = be == Z(0) && c.flip();
    g = y; if(unini) for(auto& v : g) v = Z(NaN, NaN);
    c << " alpha=" << zs(al) << " beta=" << zs(be);
    M->timesVec(be, g.data(), al, x.data());
    for(int i = 0; i < m; i++) {
      Z s = be * y[i]; double ab = std::abs(s);
      for(int j = 0; j < n; j++) s += al * A(i, j) * x[j], ab += std::abs(al * A(i, j) * x[j]);
      check(std::abs(g[i] - s) <= 16 * EPS * (n + 3) * ab, "cdense:timesVec", "cdense:timesVec: element " + std::to_string(i) + " is " + zs(g[i]) + ", expected " + zs(s));
    }
    break;
  }
  case 1: { Z al = gz(c); CM B = gen_cm(c, m, n); auto N = mk(B); bool re = c.flip(); if(re) al = al.real(); c << " alpha=" << zs(al) << " X=" << str(B); if(re && c.flip()) M->addMatrix(al.real(), *N); else M->addMatrix(al, *N); dvec t; for(size_t k = 0; k < W.a.size(); k++) { t.push_back(8 * EPS * (std::abs(W.a[k]) + std::abs(al * B.a[k]))); W.a[k] += al * B.a[k]; } cmp(*M, W, t, "cdense:addMatrix"); cmp(*N, B, {}, "cdense:addMatrix:operand"); break; }
  case 2: { M->negate(); for(auto& v : W.a) v = -v; cmp(*M, W, {}, "cdense:negate"); break; }
  case 3: { Z v = gz(c); int k = (int)c.draw(2); if(k == 0) M->setToZero(), v = 0; else if(k == 1) v = v.real(), M->setToConstant(v.real()); else M->setToConstant(v); for(auto& q : W.a) q = v; cmp(*M, W, {}, "cdense:setToConstant"); break; }
  case 4: { double mx = 0; for(auto& v : A.a) mx = std::max(mx, std::abs(v)); if(!A.a.empty()) { double g = M->max_abs_value(); check(std::fabs(g - mx) <= 4 * EPS * mx, "cdense:max_abs_value", "cdense:max_abs_value is " + pbt::str(g) + ", expected " + pbt::str(mx)); } check(M->isfinite(), "cdense:isfinite"); if(!A.a.empty()) { size_t k = c.draw(A.a.size() - 1); bool im = c.flip(); double bad = c.pick<double>({NaN, INF, -INF}); M->local_buffer()[k] = im ? Z(1, bad) : Z(bad, 1); check(!M->isfinite(), "cdense:isfinite", "non-finite element not noticed"); } break; }
  case 5: {
    std::unique_ptr<hiopMatrixComplexDense> N(M->new_copy()), L(M->alloc_clone());
    cmp(*N, A, {}, "cdense:new_copy"); check(L->m() == m && L->n() == n, "cdense:alloc_clone");
    if(!A.a.empty()) { N->local_buffer()[0] += 1.; cmp(*M, A, {}, "cdense:new_copy:shares"); L->copyFrom(*M); cmp(*L, A, {}, "cdense:copyFrom"); }
    ivec r; int k = (int)c.range(0, m); for(int i = 0; i < k; i++) r.push_back((int)c.range(0, m - 1));
    hiopMatrixComplexDense R(k, n); std::vector<index_type> ix(r.begin(), r.end()); if(n) R.copyRowsFrom(*M, ix.data(), k);
    CM B(k, n); for(int i = 0; i < k; i++) for(int j = 0; j < n; j++) B(i, j) = A(r[i], j);
    cmp(R, B, {}, "cdense:copyRowsFrom"); break;
  }
  case 6: case 7: {
    CS X = gen_cs(c, m, m, op == 7); auto S = mk(X); Z al = c.chance(1, 4) ? Z(c.draw(1)) : gz(c); c << " alpha=" << zs(al) << " X=" << str(X);
    if(op == 6) M->addSparseMatrix(al, *S); else M->addSparseSymUpperTriangleToSymDenseMatrixUpperTriangle(al, *S);
    dvec t; CM D = X.dense(); for(size_t k = 0; k < W.a.size(); k++) { t.push_back(8 * EPS * (std::abs(W.a[k]) + std::abs(al * D.a[k]))); W.a[k] += al * D.a[k]; }
    cmp(*M, W, t, op == 6 ? "cdense:addSparseMatrix" : "cdense:addSparseSymUpper"); same(*S, X, "cdense:addSparse:operand"); c.nontrivial(X.nnz() > 0); break;
  }
  case 8: {
#ifdef HIOP_DEEPCHECKS
    if(m != n) { check(!M->assertSymmetry(1e-12), "cdense:assertSymmetry", "rectangular matrix reported symmetric"); break; }
    for(int i = 0; i < m; i++) for(int j = 0; j < i; j++) M->local_data()[i][j] = M->local_data()[j][i];
    check(M->assertSymmetry(1e-14), "cdense:assertSymmetry", "symmetric matrix reported unsymmetric");
    if(m > 1) { int i = (int)c.range(1, m - 1), j = (int)c.range(0, i - 1); M->local_data()[i][j] += c.flip() ? Z(0, 1e-3) : Z(1e-3, 0); check(!M->assertSymmetry(1e-14), "cdense:assertSymmetry", "unsymmetric matrix reported symmetric"); }
#endif
    break;
  }
  }
}
PBT_TARGET(csparse_ops)
{
  int m = dim(c), n = dim(c), op = (int)c.draw(7);
  c.label("op" + std::to_string(op));
  bool symm = op == 4 || op == 5; if(symm) n = m;
  CS A = gen_cs(c, m, n, symm);
  auto M = mk(A);
  CM D = A.dense();
  c << "op " << op << " A=" << str(A);
  c.nontrivial(A.nnz() > 1 && m > 1 && n > 1);
  double al = c.pick<double>({1., 0., -1., c.moderate()}), be = c.pick<double>({0., 1., c.moderate()});
  switch(op) {
  case 0: {
    std::vector<Z> x(n), y(m), g; for(auto& v : x) v = gz(c); for(auto& v : y) v = gz(c);
    g = y; if(be == 0. && c.flip()) for(auto& v : g) v = Z(NaN, NaN);
    M->timesVec(be, g.data(), al, x.data());
    for(int i = 0; i < m; i++) { Z s = be * y[i]; double ab = std::abs(s); for(int j = 0; j < n; j++) s += al * D(i, j) * x[j], ab += std::abs(al * D(i, j) * x[j]); check(std::abs(g[i] - s) <= 16 * EPS * (n + 3) * ab, "csparse:timesVec", "csparse:timesVec: element " + std::to_string(i) + " is " + zs(g[i]) + ", expected " + zs(s)); }
    break;
  }
  case 1: {
    int k = dim(c); CM X = gen_cm(c, m, k), W = gen_cm(c, n, k); auto x = mk(X), w = mk(W); dvec t; c << " X=" << str(X) << " alpha=" << al << " beta=" << be;
    if(be == 0. && c.flip()) w->setToConstant(NaN);
    M->transTimesMat(be, *w, al, *x);
    for(int i = 0; i < n; i++) for(int j = 0; j < k; j++) { Z s = be * W(i, j); double ab = std::abs(s); for(int q = 0; q < m; q++) s += al * D(q, i) * X(q, j), ab += std::abs(al * D(q, i) * X(q, j)); W(i, j) = s; t.push_back(16 * EPS * (m + 3) * ab); }
    cmp(*w, W, t, "csparse:transTimesMat"); cmp(*x, X, {}, "csparse:transTimesMat:operand"); break;
  }
  case 2: { double mx = 0; for(auto& v : A.v) mx = std::max(mx, std::abs(v)); if(A.nnz()) { double g = M->max_abs_value(); check(std::fabs(g - mx) <= 4 * EPS * mx, "csparse:max_abs_value", "csparse:max_abs_value is " + pbt::str(g) + ", expected " + pbt::str(mx)); } Z v = gz(c); int k = (int)c.draw(2); if(k == 0) M->setToZero(), v = 0; else if(k == 1) v = v.real(), M->setToConstant(v.real()); else M->setToConstant(v); CS B = A; for(auto& q : B.v) q = v; same(*M, B, "csparse:setToConstant"); break; }
  case 3: {
    ivec r = incr(c, m), k = incr(c, n); c << " rows " << pbt::stri(r) << " cols " << pbt::stri(k);
    std::unique_ptr<hiopMatrixComplexSparseTriplet> S(M->new_slice(r.data(), (int)r.size(), k.data(), (int)k.size()));
    CS B; B.m = (int)r.size(); B.n = (int)k.size();
    for(size_t a = 0; a < r.size(); a++) for(size_t b = 0; b < k.size(); b++) for(int q = 0; q < A.nnz(); q++) if(A.i[q] == r[a] && A.j[q] == k[b]) B.add((int)a, (int)b, A.v[q]);
    same(*S, B, "csparse:new_slice"); c.nontrivial(B.nnz() > 0); break;
  }
  case 4: {
    ivec r = incr(c, m), k = incr(c, m); c << " rows " << pbt::stri(r) << " cols " << pbt::stri(k);
    std::unique_ptr<hiopMatrixComplexSparseTriplet> S(M->new_sliceFromSym(r.data(), (int)r.size(), k.data(), (int)k.size()));
    CS B; B.m = (int)r.size(); B.n = (int)k.size();
    for(size_t a = 0; a < r.size(); a++) for(size_t b = 0; b < k.size(); b++) for(int q = 0; q < A.nnz(); q++) if((A.i[q] == r[a] && A.j[q] == k[b]) || (A.j[q] == r[a] && A.i[q] == k[b])) B.add((int)a, (int)b, A.v[q]);
    same(*S, B, "csparse:new_sliceFromSym"); c.nontrivial(B.nnz() > 0 && r != k); break;
  }
  case 5: {
    ivec r = incr(c, m); c << " idx " << pbt::stri(r);
    std::unique_ptr<hiopMatrixComplexSparseTriplet> S(M->new_sliceFromSymToSym(r.data(), (int)r.size()));
    CS B; B.m = B.n = (int)r.size();
    for(size_t a = 0; a < r.size(); a++) for(size_t b = a; b < r.size(); b++) for(int q = 0; q < A.nnz(); q++) if(A.i[q] == r[a] && A.j[q] == r[b]) B.add((int)a, (int)b, A.v[q]);
    same(*S, B, "csparse:new_sliceFromSymToSym"); c.nontrivial(B.nnz() > 0); break;
  }
  case 6: {  // shuffled input: sort and sum duplicates
    int d = (int)c.range(0, 4); CS B = A; for(int q = 0; q < d && A.nnz(); q++) { int k = (int)c.range(0, A.nnz() - 1); B.add(A.i[k], A.j[k], gz(c)); }
    ivec p = gen_perm(c, B.nnz()); CS C; C.m = m; C.n = n; for(int q : p) C.add(B.i[q], B.j[q], B.v[q]);
    c << " shuffled " << str(C);
    auto N = mk(C); N->storage()->sort_indexes();
    auto* s = N->storage();
    for(int q = 1; q < C.nnz(); q++) check(std::make_pair(s->i_row()[q - 1], s->j_col()[q - 1]) <= std::make_pair(s->i_row()[q], s->j_col()[q]), "csparse:sort_indexes", "indexes not sorted");
    s->sum_up_duplicates();
    CM W = B.dense(), g(m, n); std::set<std::pair<int, int>> seen; s = N->storage();
    check(N->numberOfNonzeros() == A.nnz(), "csparse:sum_up_duplicates", "wrong number of nonzeros after summing duplicates: " + std::to_string(N->numberOfNonzeros()) + " expected " + std::to_string(A.nnz()));
    for(int q = 0; q < N->numberOfNonzeros(); q++) { check(seen.insert({s->i_row()[q], s->j_col()[q]}).second, "csparse:sum_up_duplicates", "duplicate left"); g(s->i_row()[q], s->j_col()[q]) += s->M()[q]; }
    for(size_t q = 0; q < W.a.size(); q++) check(std::abs(g.a[q] - W.a[q]) <= 1e-14 * (1 + std::abs(W.a[q]) + 20), "csparse:sum_up_duplicates", "values lost while summing duplicates");
    c.nontrivial(d > 0 && A.nnz() > 1); break;
  }
  case 7: { std::unique_ptr<hiopMatrix> L(M->alloc_clone()); auto* q = dynamic_cast<hiopMatrixComplexSparseTriplet*>(L.get()); check(q && q->m() == m && q->n() == n && q->numberOfNonzeros() == A.nnz(), "csparse:alloc_clone"); q->copyFrom(A.i.data(), A.j.data(), A.v.data()); same(*q, A, "csparse:copyFrom"); break; }
  }
}
// a well conditioned sparse complex matrix (diagonally dominant after a row permutation)
static CS gen_good(Ctx& c, int n, bool permute)
{
  ivec p(n); for(int i = 0; i < n; i++) p[i] = i;
  if(permute) p = gen_perm(c, n);
  CS A; A.m = A.n = n;
  for(int i = 0; i < n; i++) {
    std::vector<Z> row(n); std::vector<char> in(n, 0); double s = 0;
    for(int j = 0; j < n; j++) if(j != p[i] && c.chance(1, 2)) row[j] = gz(c), in[j] = 1, s += std::abs(row[j]);
    double ph = c.uni(0, 6.28);
    row[p[i]] = (1.2 * s + 0.3) * Z(std::cos(ph), std::sin(ph)); in[p[i]] = 1;
    for(int j = 0; j < n; j++) if(in[j]) A.add(i, j, row[j]);
  }
  return A;
}
static void kill(Ctx& c, CS& A)  // make it singular for certain: a zero row or column
{
  bool col = c.flip(), drop = c.flip(); int k = (int)c.range(0, A.n - 1);
  CS B; B.m = A.m; B.n = A.n;
  for(int q = 0; q < A.nnz(); q++) { bool in = (col ? A.j[q] : A.i[q]) == k; if(in && drop) continue; B.add(A.i[q], A.j[q], in ? Z(0) : A.v[q]); }
  A = B;
}
static void resid(const CS& A, const std::vector<Z>& x, const std::vector<Z>& b, const std::string& key)
{
  double nx = 0; for(auto& v : x) { check(std::isfinite(v.real()) && std::isfinite(v.imag()), key, "non-finite solution"); nx = std::max(nx, std::abs(v)); }
  std::vector<LZ> r(A.m); dvec ab(A.m, 0.);
  for(int i = 0; i < A.m; i++) r[i] = -LZ(b[i]), ab[i] = std::abs(b[i]);
  double na = 0;
  for(int k = 0; k < A.nnz(); k++) r[A.i[k]] += LZ(A.v[k]) * LZ(x[A.j[k]]), ab[A.i[k]] += std::abs(A.v[k]) * nx, na = std::max(na, std::abs(A.v[k]));
  for(int i = 0; i < A.m; i++) check((double)std::abs(r[i]) <= 1e-11 * (ab[i] + 1e-300), key, key + ": residual " + pbt::str((double)std::abs(r[i])) + " in row " + std::to_string(i) + " (scale " + pbt::str(ab[i]) + ")");
}
PBT_TARGET(umfpackz)
{
  int n = dim(c);
  CS A = gen_good(c, n, c.flip());
  bool sing = c.chance(1, 4);
  if(sing) kill(c, A);
  c.label(sing ? "singular" : "regular");
  c << "A=" << str(A);
  auto M = mk(A);
  hiopLinSolverUMFPACKZ ls(*M);
  int rounds = 1 + (int)c.range(0, 2);
  for(int r = 0; r < rounds; r++) {
    int ret = ls.matrixChanged();
    if(sing) { check(ret < 0, "umfpackz:singular-not-reported", "matrixChanged returned " + std::to_string(ret) + " for a singular matrix"); c.nontrivial(n > 1); return; }
    check(ret >= 0, "umfpackz:regular-rejected", "matrixChanged failed on a well conditioned matrix");
    int nr = (int)c.range(0, 4);
    CS B = gen_cs(c, n, nr);
    c << "\n B=" << str(B);
    auto Bm = mk(B);
    hiopMatrixComplexDense X(n, nr);
    X.setToConstant(NaN);
    check(ls.solve(*Bm, X), "umfpackz:solve-failed");
    CM D = B.dense();
    for(int k = 0; k < nr; k++) { std::vector<Z> x(n), b(n); for(int i = 0; i < n; i++) x[i] = X.local_data()[i][k], b[i] = D(i, k); resid(A, x, b, "umfpackz:solve(matrix)"); }
    std::vector<Z> b(n), x(n, Z(NaN, NaN)); for(auto& v : b) v = gz(c);
    check(ls.solve(b.data(), x.data()), "umfpackz:solve-failed");
    resid(A, x, b, "umfpackz:solve(vector)");
    c.nontrivial(n > 1 && (nr > 0 || r > 0));
    // new values on the same pattern
    for(int k = 0; k < A.nnz(); k++) A.v[k] *= std::polar(c.uni(0.95, 1.05), c.uni(0, 6.28));
    M->copyFrom(A.i.data(), A.j.data(), A.v.data());
  }
}
PBT_TARGET(kron)
{
  hiopKronReduction K;
  int rounds = 1 + (int)c.range(0, 2);
  for(int r = 0; r < rounds; r++) {
    int n = (int)c.size(1, 10);
    CS Y; Y.m = Y.n = n;
    CM D(n, n);
    bool symm = c.flip();
    std::vector<char> in((size_t)n * n, 0);
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) if(i != j && c.chance(1, 2)) { if(symm && j < i) continue; D(i, j) = gz(c); in[(size_t)i * n + j] = 1; if(symm) D(j, i) = D(i, j), in[(size_t)j * n + i] = 1; }
    for(int i = 0; i < n; i++) { double s = 0.3; for(int j = 0; j < n; j++) s += 1.2 * std::abs(D(i, j)); double ph = c.uni(0, 6.28); D(i, i) = s * Z(std::cos(ph), std::sin(ph)); in[(size_t)i * n + i] = 1; }
    ivec na, au; for(int i = 0; i < n; i++) (c.flip() ? na : au).push_back(i);
    if(na.empty()) { na.push_back(au.back()); au.pop_back(); }
    bool sing = !au.empty() && c.chance(1, 5);
    if(sing) { int k = c.pick(au); bool col = c.flip(); for(int j : au) (col ? D(j, k) : D(k, j)) = 0; }
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) if(in[(size_t)i * n + j]) Y.add(i, j, D(i, j));
    c << "\nround " << r << (sing ? " singular" : "") << " Y=" << str(Y) << " nonaux=" << pbt::stri(na) << " aux=" << pbt::stri(au);
    c.label(sing ? "singular" : au.empty() ? "no-aux" : "regular");
    auto Ym = mk(Y);
    int p = (int)na.size(), q = (int)au.size();
    hiopMatrixComplexDense R(p, p);
    R.setToConstant(NaN);
    bool ok = K.go(na, au, *Ym, R);
    same(*Ym, Y, "kron:operand");
    if(sing) { check(!ok, "kron:singular-not-reported", "go() reported success although the auxiliary block is singular"); c.nontrivial(); return; }
    check(ok, "kron:failed", "go() failed on a well conditioned admittance matrix");
    c.nontrivial(p > 0 && q > 0);
    // oracle: Gaussian elimination in long double of [Ybb | Yba]
    std::vector<std::vector<LZ>> T(q, std::vector<LZ>(q + p));
    for(int i = 0; i < q; i++) { for(int j = 0; j < q; j++) T[i][j] = D(au[i], au[j]); for(int j = 0; j < p; j++) T[i][q + j] = D(au[i], na[j]); }
    for(int k = 0; k < q; k++) {
      int b = k; for(int i = k + 1; i < q; i++) if(std::abs(T[i][k]) > std::abs(T[b][k])) b = i;
      std::swap(T[k], T[b]);
      for(int i = 0; i < q; i++) if(i != k) { LZ f = T[i][k] / T[k][k]; for(int j = k; j < q + p; j++) T[i][j] -= f * T[k][j]; }
    }
    CM S(p, p), map(q, p); dvec t;
    for(int i = 0; i < q; i++) for(int j = 0; j < p; j++) map(i, j) = Z(-T[i][q + j] / T[i][i]);
    for(int i = 0; i < p; i++) for(int j = 0; j < p; j++) {
      LZ s = D(na[i], na[j]); double ab = std::abs(D(na[i], na[j]));
      // the Schur complement Yaa - Yab Ybb^-1 Yba
      for(int k = 0; k < q; k++) s += LZ(D(na[i], au[k])) * LZ(map(k, j)), ab += std::abs(D(na[i], au[k]) * map(k, j));
      S(i, j) = Z(s); t.push_back(1e-11 * (ab + 1));
    }
    if(symm) cmp(R, S, t, "kron:schur");
    else {
      // documented for symmetric matrices (Yab = Yba'): the reduction uses the transpose of Yba
      for(int i = 0; i < p; i++) for(int j = 0; j < p; j++) { LZ s = D(na[i], na[j]); for(int k = 0; k < q; k++) s += LZ(D(au[k], na[i])) * LZ(map(k, j)); S(i, j) = Z(s); t[(size_t)i * p + j] *= 10; }
      cmp(R, S, t, "kron:schur(unsymmetric)");
    }
    const auto& mp = K.map_nonaux_to_aux();
    cmp(mp, map, dvec(map.a.size(), 1e-11 * 20), "kron:map");
    std::vector<Z> v(p), w(q, Z(NaN, NaN)); for(auto& x : v) x = gz(c);
    check(K.apply_nonaux_to_aux(v, w), "kron:apply-failed");
    for(int i = 0; i < q; i++) {  // the eliminated equations: Yba v + Ybb w = 0
      Z s = 0; double ab = 1; for(int j = 0; j < p; j++) s += D(au[i], na[j]) * v[j], ab += std::abs(D(au[i], na[j]) * v[j]); for(int j = 0; j < q; j++) s += D(au[i], au[j]) * w[j], ab += std::abs(D(au[i], au[j]) * w[j]);
      check(std::abs(s) <= 1e-10 * ab, "kron:aux-equations", "auxiliary voltages leave residual " + zs(s) + " in equation " + std::to_string(au[i]));
    }
  }
}
