// C19: compressed-row sparse kernels against dense algebra
#include "sparse.hpp"
#include "hiopMatrixSparseCSRSeq.hpp"
using namespace hiop;
using pbt::check;
using pbt::close_arr;
using pbt::close_val;
using pbt::eq_arr;
using pbt::fail;

typedef std::unique_ptr<hiopMatrixSparseCSR> CP;
static CP blank() { return CP(LinearAlgebraFactory::create_matrix_sparse_csr("DEFAULT")); }
static int dim(Ctx& c) { return (int)c.size(c.chance(1, 12) ? 0 : 1, 9); }
static dvec arr(const RM& A) { return A.a; }
// structure: valid row pointers, sorted unique in-range columns, exactly the expected pattern (when given)
static void structure(hiopMatrixSparseCSR& M, int m, int n, const std::string& key, const std::vector<char>* pat = nullptr)
{
  check(M.m() == m && M.n() == n, key + ":size", key + ": sizes " + std::to_string(M.m()) + "x" + std::to_string(M.n()) + " expected " + std::to_string(m) + "x" + std::to_string(n));
  if(m == 0) return;
  const index_type *rp = M.i_row(), *jc = M.j_col();
  check(rp[0] == 0 && rp[m] == M.numberOfNonzeros(), key + ":rowptr", key + ": row pointers do not span the " + std::to_string(M.numberOfNonzeros()) + " nonzeros: " + std::to_string(rp[0]) + ".." + std::to_string(rp[m]));
  for(int i = 0; i < m; i++) {
    check(rp[i] <= rp[i + 1], key + ":rowptr", key + ": decreasing row pointers at row " + std::to_string(i));
    for(int p = rp[i]; p < rp[i + 1]; p++) {
      check(jc[p] >= 0 && jc[p] < n, key + ":col-range", key + ": column " + std::to_string(jc[p]) + " out of range in row " + std::to_string(i));
      check(p == rp[i] || jc[p - 1] < jc[p], key + ":col-order", key + ": columns of row " + std::to_string(i) + " not increasing");
    }
    if(pat) for(int j = 0; j < n; j++) {
      bool in = false;
      for(int p = rp[i]; p < rp[i + 1]; p++) in |= jc[p] == j;
      check(in == (bool)(*pat)[(size_t)i * n + j], key + ":pattern", key + ": entry (" + std::to_string(i) + "," + std::to_string(j) + ") " + (in ? "should not be" : "is not") + " in the pattern");
    }
  }
  check(M.check_csr_is_ordered(), key + ":check_csr_is_ordered");
}
static RM dense(const hiopMatrixSparseCSR& M)
{
  RM A(M.m(), M.n());
  if(A.m == 0) return A;
  for(int i = 0; i < A.m; i++) for(int p = M.i_row()[i]; p < M.i_row()[i + 1]; p++) A(i, M.j_col()[p]) += M.M()[p];
  return A;
}
static std::vector<char> patof(const SM& A) { std::vector<char> p((size_t)A.m * A.n, 0); for(int k = 0; k < A.nnz(); k++) p[(size_t)A.i[k] * A.n + A.j[k]] = 1; return p; }
static std::vector<char> ptrans(const std::vector<char>& p, int m, int n) { std::vector<char> q(p.size()); for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) q[(size_t)j * m + i] = p[(size_t)i * n + j]; return q; }
static void cmp(const hiopMatrixSparseCSR& M, const RM& w, const RM& tol, const std::string& key)
{
  RM g = dense(M);
  for(size_t k = 0; k < w.a.size(); k++) {
    double t = tol.a.empty() ? 0. : tol.a[k];
    if(!(pbt::same(g.a[k], w.a[k]) || std::fabs(g.a[k] - w.a[k]) <= t)) fail(key, key + ": entry (" + std::to_string(k / w.n) + "," + std::to_string(k % w.n) + ") is " + pbt::str(g.a[k]) + ", expected " + pbt::str(w.a[k]));
  }
}
// a CSR matrix with the content of A, built one of several ways
static CP build(Ctx& c, const SM& A)
{
  CP M = blank();
  if(c.flip()) { auto T = mkS(A); M->form_from_symbolic(*T); M->form_from_numeric(*T); }
  else {
    SM B; B.m = A.n; B.n = A.m;
    for(int j = 0; j < A.n; j++) for(int k = 0; k < A.nnz(); k++) if(A.j[k] == j) B.add(j, A.i[k], A.v[k]);
    auto T = mkS(B); M->form_transpose_from_symbolic(*T); M->form_transpose_from_numeric(*T);
  }
  auto p = patof(A);
  structure(*M, A.m, A.n, "csr:build", &p);
  cmp(*M, A.dense(), RM(), "csr:build");
  return M;
}
static SM newvals(Ctx& c, SM A) { for(auto& v : A.v) v = c.num(); return A; }
static void setvals(hiopMatrixSparseCSR& M, const SM& A) { for(int k = 0; k < A.nnz(); k++) M.M()[k] = A.v[k]; }  // A is row-sorted
static void smear(hiopMatrixSparseCSR& M) { for(int k = 0; k < M.numberOfNonzeros(); k++) M.M()[k] = NaN; }

PBT_TARGET(csr_convert)
{
  int op = (int)c.draw(3);
  c.label("op" + std::to_string(op));
  SM A = gen_sm(c, dim(c), dim(c));
  c << "op " << op << " A=" << str(A);
  CP M = blank();
  int rounds = 1 + (int)c.range(0, 2);
  c.nontrivial(A.nnz() > 1 && A.m > 1 && A.n > 1);
  for(int r = 0; r < rounds; r++) {
    if(r > 0 && c.chance(1, 3)) {  // another matrix into the same object (possibly of the same sizes)
      if(c.flip()) A = gen_sm(c, dim(c), dim(c));
      else if(A.nnz() > 0) { for(int t = 0; t < 3; t++) { SM B = gen_sm(c, A.m, A.n); if(B.nnz() == A.nnz()) { A = B; break; } } }
      c << "\n again A=" << str(A);
    }
    auto T = mkS(A);
    auto p = patof(A);
    if(op == 0) {
      M->form_from_symbolic(*T);
      structure(*M, A.m, A.n, "csr:form_from", &p);
      for(int q = 0; q < 2; q++) { smear(*M); M->form_from_numeric(*T); cmp(*M, A.dense(), RM(), "csr:form_from"); same_sm(*T, A, "csr:form_from:operand"); A = newvals(c, A); put(*T, A); }
    } else {
      bool tr = op == 1;
      CP S;
      if(!tr) { S = blank(); S->form_from_symbolic(*T); S->form_from_numeric(*T); }
      if(tr) M->form_transpose_from_symbolic(*T); else M->form_transpose_from_symbolic(*S);
      auto pt = ptrans(p, A.m, A.n);
      structure(*M, A.n, A.m, "csr:form_transpose_from", &pt);
      for(int q = 0; q < 2; q++) {
        smear(*M);
        if(tr) M->form_transpose_from_numeric(*T); else M->form_transpose_from_numeric(*S);
        cmp(*M, trans(A.dense()), RM(), tr ? "csr:form_transpose_from(triplet)" : "csr:form_transpose_from(csr)");
        structure(*M, A.n, A.m, "csr:form_transpose_from", &pt);
        if(!tr) cmp(*S, A.dense(), RM(), "csr:form_transpose_from:operand");
        A = newvals(c, A); put(*T, A); if(!tr) setvals(*S, A);
      }
      if(op == 3 && A.m && A.n) {  // transposing twice gives the matrix back
        CP B = blank(); setvals(*S, A); M->form_transpose_from_numeric(*S); B->form_transpose_from_symbolic(*M); B->form_transpose_from_numeric(*M);
        structure(*B, A.m, A.n, "csr:transpose-twice", &p); cmp(*B, A.dense(), RM(), "csr:transpose-twice");
      }
    }
  }
}
PBT_TARGET(csr_product)
{
  int m = dim(c), K = dim(c), n = dim(c);
  SM A = gen_sm(c, m, K), B = gen_sm(c, K, n);
  CP X = build(c, A), Y = build(c, B);
  c << "X=" << str(A) << " Y=" << str(B);
  CP M(X->times_mat_alloc(*Y));
  X->times_mat_symbolic(*M, *Y);
  auto pa = patof(A), pb = patof(B);
  std::vector<char> pm((size_t)m * n, 0);
  for(int i = 0; i < m; i++) for(int k = 0; k < K; k++) if(pa[(size_t)i * K + k]) for(int j = 0; j < n; j++) pm[(size_t)i * n + j] |= pb[(size_t)k * n + j];
  structure(*M, m, n, "csr:times_mat", &pm);
  RM W(m, n), t;
  int rounds = 1 + (int)c.range(0, 2);
  for(int r = 0; r < rounds; r++) {
    double be = r == 0 ? 0. : gcoef(c), al = gcoef(c);
    c << "\n beta=" << be << " alpha=" << al;
    if(be == 0.) smear(*M);
    X->times_mat_numeric(be, *M, al, *Y);
    mm(be, W, al, A.dense(), B.dense(), t);
    for(auto& v : t.a) v *= 2;
    cmp(*M, W, t, "csr:times_mat");
    structure(*M, m, n, "csr:times_mat", &pm);
    cmp(*X, A.dense(), RM(), "csr:times_mat:operand"); cmp(*Y, B.dense(), RM(), "csr:times_mat:operand");
    W = dense(*M);
    if(c.flip()) { A = newvals(c, A); setvals(*X, A); }
    if(c.flip()) { B = newvals(c, B); setvals(*Y, B); }
  }
  c.nontrivial(A.nnz() > 1 && B.nnz() > 1 && M->numberOfNonzeros() > 0);
}
PBT_TARGET(csr_sum)
{
  int m = dim(c), n = dim(c);
  SM A = gen_sm(c, m, n), B = gen_sm(c, m, n);
  CP X = build(c, A), Y = build(c, B);
  c << "X=" << str(A) << " Y=" << str(B);
  CP M(X->add_matrix_alloc(*Y));
  X->add_matrix_symbolic(*M, *Y);
  auto pm = patof(A), pb = patof(B);
  for(size_t k = 0; k < pm.size(); k++) pm[k] |= pb[k];
  structure(*M, m, n, "csr:add_matrix", &pm);
  int rounds = 1 + (int)c.range(0, 2);
  for(int r = 0; r < rounds; r++) {
    double al = gcoef(c), be = gcoef(c);
    c << "\n alpha=" << al << " beta=" << be;
    smear(*M);
    X->add_matrix_numeric(*M, al, *Y, be);
    RM a = A.dense(), b = B.dense(), W(m, n), t(m, n);
    for(size_t k = 0; k < W.a.size(); k++) W.a[k] = al * a.a[k] + be * b.a[k], t.a[k] = 4 * EPS * (std::fabs(al * a.a[k]) + std::fabs(be * b.a[k]));
    cmp(*M, W, t, "csr:add_matrix");
    structure(*M, m, n, "csr:add_matrix", &pm);
    cmp(*X, a, RM(), "csr:add_matrix:operand"); cmp(*Y, b, RM(), "csr:add_matrix:operand");
    if(c.flip()) { A = newvals(c, A); setvals(*X, A); }
    if(c.flip()) { B = newvals(c, B); setvals(*Y, B); }
  }
  c.nontrivial(A.nnz() > 1 && B.nnz() > 1 && mixed(dvec(pm.begin(), pm.end())));
}
PBT_TARGET(csr_inplace)
{
  bool sq = c.flip();
  int m = dim(c), n = sq ? m : dim(c);
  SM A = gen_sm(c, m, n);
  CP M = build(c, A);
  RM W = A.dense();
  auto p = patof(A);
  c << "A=" << str(A);
  int steps = 1 + (int)c.range(0, 5);
  c.nontrivial(steps > 1 && A.nnz() > 1);
  for(int s = 0; s < steps; s++) {
    int op = (int)c.draw(10);
    RM t(m, n);
    c.label("op" + std::to_string(op));
    c << "\n op " << op;
    std::string key;
    switch(op) {
    case 0: case 1: { bool r = op == 0; dvec d = gen_vec(c, r ? m : n); auto D = sv(d); if(r) M->scale_rows(*D); else M->scale_cols(*D); for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) W(i, j) *= p[(size_t)i * n + j] ? d[r ? i : j] : 1., t(i, j) = 2 * EPS * std::fabs(W(i, j)); c << " " << pbt::str(d); key = r ? "csr:scale_rows" : "csr:scale_cols"; eq_arr(D->local_data(), d, key + ":operand"); break; }
    case 2: { if(m != n) break; dvec d = gen_vec(c, m); double al = gcoef(c); auto D = sv(d); M->addDiagonal(al, *D); for(int i = 0; i < m; i++) if(p[(size_t)i * n + i]) { t(i, i) = 4 * EPS * (std::fabs(W(i, i)) + std::fabs(al * d[i])); W(i, i) += al * d[i]; } c << " " << al << pbt::str(d); key = "csr:addDiagonal(vec)"; break; }
    case 3: { if(m != n) break; double v = c.num(); M->addDiagonal(v); for(int i = 0; i < m; i++) if(p[(size_t)i * n + i]) { t(i, i) = 4 * EPS * (std::fabs(W(i, i)) + std::fabs(v)); W(i, i) += v; } c << " " << v; key = "csr:addDiagonal"; break; }
    case 4: { if(m != n) break; double v = c.num(); M->set_diagonal(v); for(int i = 0; i < m; i++) if(p[(size_t)i * n + i]) W(i, i) = v; c << " " << v; key = "csr:set_diagonal"; break; }
    case 5: { bool z = c.flip(); double v = z ? 0. : c.num(); if(z) M->setToZero(); else M->setToConstant(v); for(size_t k = 0; k < p.size(); k++) W.a[k] = p[k] ? v : 0.; key = "csr:setToConstant"; break; }
    case 6: { double mx = 0; RM g = dense(*M); for(double v : g.a) mx = std::max(mx, std::fabs(v)); if(M->numberOfNonzeros()) close_val(M->max_abs_value(), mx, 0, "csr:max_abs_value"); W = g; key = "csr:max_abs_value:modified"; break; }
    case 7: { check(M->isfinite(), "csr:isfinite", "finite matrix reported as not finite"); if(M->numberOfNonzeros()) { int k = (int)c.range(0, M->numberOfNonzeros() - 1); double old = M->M()[k]; M->M()[k] = c.pick<double>({NaN, INF, -INF}); check(!M->isfinite(), "csr:isfinite", "non-finite element not noticed"); M->M()[k] = old; } key = "csr:isfinite:modified"; break; }
    case 8: { std::unique_ptr<hiopMatrixSparse> N(M->new_copy()); auto* q = dynamic_cast<hiopMatrixSparseCSR*>(N.get()); check(q, "csr:new_copy:type"); if(m && n) { structure(*q, m, n, "csr:new_copy", &p); cmp(*q, dense(*M), RM(), "csr:new_copy"); if(q->numberOfNonzeros()) q->M()[0] += 1.; } key = "csr:new_copy:shares"; break; }
    case 9: { if(!m || !n) break; std::unique_ptr<hiopMatrixSparse> N(M->alloc_clone()); auto* q = dynamic_cast<hiopMatrixSparseCSR*>(N.get()); check(q && q->m() == m && q->n() == n && q->numberOfNonzeros() == M->numberOfNonzeros(), "csr:alloc_clone"); q->copyFrom(*M); structure(*q, m, n, "csr:copyFrom", &p); cmp(*q, dense(*M), RM(), "csr:copyFrom"); key = "csr:copyFrom:operand"; break; }
    case 10: { if(!m || !n) break; int nz = M->numberOfNonzeros(); std::vector<index_type> rp(m + 2, -7), jc(nz + 1, -7); dvec v(nz + 1, 777.); M->copy_to(rp.data(), jc.data(), v.data()); check(rp[m + 1] == -7 && jc[nz] == -7 && v[nz] == 777., "csr:copy_to:overrun"); for(int i = 0; i <= m; i++) check(rp[i] == M->i_row()[i], "csr:copy_to:rowptr"); for(int k = 0; k < nz; k++) check(jc[k] == M->j_col()[k] && pbt::same(v[k], M->M()[k]), "csr:copy_to"); key = "csr:copy_to:operand"; break; }
    }
    if(key.empty()) continue;
    cmp(*M, W, t, key);
    structure(*M, m, n, key, &p);
    W = dense(*M);
  }
}
// the pipeline of the condensed linear system: M = H + J'*D*J + delta*I, repeated with new values on the same pattern
PBT_TARGET(csr_condensed)
{
  int n = std::max(1, dim(c)), m = dim(c);
  SM H = gen_sm(c, n, n, 1, true), J = gen_sm(c, m, n, 0, true);
  auto JT = mkS(J), HT = mkS(H);
  CP Jc = blank(), JtD = blank(), Hc = blank(), I = blank(), Ht = blank();
  auto dI = sv(dvec(n, 1.));
  c << "H=" << str(H) << " J=" << str(J);
  CP P, Hs, S, R;
  int rounds = 2 + (int)c.range(0, 2);
  for(int r = 0; r < rounds; r++) {
    dvec d(m); for(auto& v : d) v = c.uni(0.1, 5);
    double delta = c.pick<double>({0., 1e-8, 1., -0.5});
    auto D = sv(d);
    if(r == 0) { Jc->form_from_symbolic(*JT); JtD->form_transpose_from_symbolic(*JT); Hc->form_from_symbolic(*HT); Ht->form_transpose_from_symbolic(*Hc); I->form_diag_from_symbolic(*dI); }
    Jc->form_from_numeric(*JT); JtD->form_transpose_from_numeric(*JT); Hc->form_from_numeric(*HT); Ht->form_transpose_from_numeric(*Hc); I->form_diag_from_numeric(*dI);
    JtD->scale_cols(*D);
    if(r == 0) { P.reset(JtD->times_mat_alloc(*Jc)); JtD->times_mat_symbolic(*P, *Jc); }
    JtD->times_mat_numeric(0., *P, 1., *Jc);
    // full symmetric Hessian = U + U' - diag
    Ht->set_diagonal(0.);
    if(r == 0) { Hs.reset(Hc->add_matrix_alloc(*Ht)); Hc->add_matrix_symbolic(*Hs, *Ht); }
    Hc->add_matrix_numeric(*Hs, 1., *Ht, 1.);
    if(r == 0) { S.reset(Hs->add_matrix_alloc(*P)); Hs->add_matrix_symbolic(*S, *P); }
    Hs->add_matrix_numeric(*S, 1., *P, 1.);
    if(r == 0) { R.reset(S->add_matrix_alloc(*I)); S->add_matrix_symbolic(*R, *I); }
    S->add_matrix_numeric(*R, 1., *I, delta);
    RM W = H.sym(), Jd = J.dense(), t(n, n);
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) {
      double s = W(i, j) + (i == j ? delta : 0.), ab = std::fabs(s) + 2;
      for(int k = 0; k < m; k++) s += Jd(k, i) * d[k] * Jd(k, j), ab += std::fabs(Jd(k, i) * d[k] * Jd(k, j));
      W(i, j) = s; t(i, j) = 8 * EPS * (m + 4) * ab;
    }
    structure(*R, n, n, "csr:condensed");
    cmp(*R, W, t, "csr:condensed");
    c.nontrivial(J.nnz() > 1 && H.nnz() > 1);
    for(auto& v : H.v) v = c.moderate();
    for(auto& v : J.v) v = c.moderate();
    put(*HT, H); put(*JT, J);
  }
}
