// C18: sparse triplet and mixed dense-sparse matrices against their dense expansion
#include "sparse.hpp"
#include "hiopMatrixMDS.hpp"
using namespace hiop;
using pbt::check;
using pbt::fail;
using pbt::eq_arr;
using pbt::close_arr;
using pbt::close_val;

static int dim(Ctx& c) { return (int)c.size(0, 12); }
static RM rows(const RM& A, const ivec& r) { RM B((int)r.size(), A.n); for(size_t i = 0; i < r.size(); i++) for(int j = 0; j < A.n; j++) B((int)i, j) = A(r[i], j); return B; }
static ivec incr(Ctx& c, int m) { ivec r; for(int i = 0; i < m; i++) if(c.flip()) r.push_back(i); return r; }
static std::vector<index_type> idx(const ivec& v) { return std::vector<index_type>(v.begin(), v.end()); }
static SM take(const SM& A, const ivec& r) { SM B; B.m = (int)r.size(); B.n = A.n; for(size_t q = 0; q < r.size(); q++) for(int k = 0; k < A.nnz(); k++) if(A.i[k] == r[q]) B.add((int)q, A.j[k], A.v[k]); return B; }
static RM axpy_tol(RM& W, double al, const RM& X, int r0, int c0)
{
  RM t(W.m, W.n);
  for(int i = 0; i < X.m; i++) for(int j = 0; j < X.n; j++) { double q = al * X(i, j); t(r0 + i, c0 + j) = 4 * EPS * (std::fabs(W(r0 + i, c0 + j)) + std::fabs(q)); W(r0 + i, c0 + j) += q; }
  return t;
}
// W(upper part only kept by the destination's lower) += al * A D^-1 B^T
static void mdn(RM& W, RM& t, int r0, int c0, double al, const RM& A, const dvec& D, const RM& B, bool upper)
{
  t = RM(W.m, W.n);
  for(int i = 0; i < A.m; i++) for(int j = upper ? i : 0; j < B.m; j++) {
    long double s = 0, ab = 0;
    for(int k = 0; k < A.n; k++) if(A(i, k) != 0 && B(j, k) != 0) { long double q = (long double)A(i, k) / D[k] * B(j, k); s += q; ab += fabsl(q); }
    double q = al * (double)s;
    t(r0 + i, c0 + j) = 8 * EPS * (A.n + 3) * (std::fabs(W(r0 + i, c0 + j)) + std::fabs(al) * (double)ab);
    W(r0 + i, c0 + j) += q;
  }
}

static void triplet(Ctx& c)
{
  int m = dim(c), n = dim(c);
  int op = (int)c.draw(17);
  c.label("op" + std::to_string(op));
  SM A = gen_sm(c, m, n);
  auto M = mkS(A);
  RM D = A.dense();
  double al = gcoef(c), be = gcoef(c);
  c << "op " << op << " A=" << str(A) << " alpha=" << al << " beta=" << be << "\n";
  c.nontrivial(m > 1 && n > 1 && A.nnz() > 1);
  switch(op) {
  case 0: case 1: {
    bool tr = op == 1;
    dvec x0 = gen_vec(c, tr ? m : n), y0 = gen_vec(c, tr ? n : m), tol; auto x = sv(x0), y = sv(y0);
    if(be == 0. && c.flip()) y->setToConstant(NaN);
    if(tr) { if(c.flip()) M->transTimesVec(be, *y, al, *x); else M->transTimesVec(be, y->local_data(), al, x->local_data_const()); }
    else { if(c.flip()) M->timesVec(be, *y, al, *x); else M->timesVec(be, y->local_data(), al, x->local_data_const()); }
    mv(be, y0, al, tr ? trans(D) : D, x0, tol); for(auto& t : tol) t *= 2;
    close_arr(y->local_data(), y0, tol, tr ? "triplet:transTimesVec" : "triplet:timesVec"); eq_arr(x->local_data(), x0, "triplet:timesVec:operand-modified"); break;
  }
  case 2: { int k = dim(c); SM B = gen_sm(c, k, n); auto N = mkS(B); DM W(gen_rm(c, m, k)); RM w = W.g, t; if(be == 0. && m * k && c.flip()) (*W).setToConstant(NaN); M->timesMatTrans(be, *W, al, *N); mm(be, w, al, D, trans(B.dense()), t); for(auto& q : t.a) q *= 2; W.expect(w, t, "triplet:timesMatTrans"); same_sm(*N, B, "triplet:timesMatTrans:operand"); break; }
  case 3: { int rs = (int)c.range(0, 3), cs = rs + std::max(n - 1, 0) + (int)c.range(0, 2), N = std::max(rs + n, cs + m) + (int)c.range(0, 2); DM W(gen_rm(c, N, N)); RM w = W.g; M->transAddToSymDenseMatrixUpperTriangle(rs, cs, al, *W); RM t = axpy_tol(w, al, trans(D), rs, cs); W.expect(w, t, "triplet:transAddToSymDenseMatrixUpperTriangle"); break; }
  case 4: { dvec d = gen_nz(c, n); auto dv = sv(d); int r = (int)c.range(0, 3), N = r + m + (int)c.range(0, 2); DM W(gen_rm(c, N, N)); RM w = W.g, t; M->addMDinvMtransToDiagBlockOfSymDeMatUTri(r, al, *dv, *W); mdn(w, t, r, r, al, D, d, D, true); W.expect(w, t, "triplet:addMDinvMtrans");
    // the same object with new values on the same pattern
    SM A2 = A; for(auto& v : A2.v) v = c.num(); put(*M, A2); w = W.g; M->addMDinvMtransToDiagBlockOfSymDeMatUTri(r, al, *dv, *W); mdn(w, t, r, r, al, A2.dense(), d, A2.dense(), true); W.expect(w, t, "triplet:addMDinvMtrans(new values)"); eq_arr(dv->local_data(), d, "triplet:addMDinvMtrans:operand"); break; }
  case 5: { int k = dim(c); SM B = gen_sm(c, k, n); auto Nn = mkS(B); dvec d = gen_nz(c, n); auto dv = sv(d); int r = (int)c.range(0, 2), cs = r + std::max(m - 1, 0) + (int)c.range(0, 2), N = std::max(r + m, cs + k) + (int)c.range(0, 1); DM W(gen_rm(c, N, N)); RM w = W.g, t; M->addMDinvNtransToSymDeMatUTri(r, cs, al, *dv, *Nn, *W); mdn(w, t, r, cs, al, D, d, B.dense(), false); W.expect(w, t, "triplet:addMDinvNtrans"); break; }
  case 6: { ivec r = incr(c, m); SM B = take(A, r); auto N = mkS(B); for(int k = 0; k < B.nnz(); k++) N->i_row()[k] = N->j_col()[k] = -7, N->M()[k] = NaN; auto ix = idx(r); N->copyRowsFrom(*M, ix.data(), (int)r.size()); same_sm(*N, B, "triplet:copyRowsFrom"); same_sm(*M, A, "triplet:copyRowsFrom:operand"); c.nontrivial(B.nnz() > 0 && (int)r.size() < m); break; }
  case 7: { int k = (int)c.range(0, m), s0 = (int)c.range(0, m - k), d0 = (int)c.range(0, 3), extra = (int)c.range(0, 3), st = (int)c.range(0, extra); ivec r; for(int i = 0; i < k; i++) r.push_back(s0 + i); SM B = take(A, r);
    SM Z; Z.m = d0 + k + (int)c.range(0, 2); Z.n = n + (int)c.range(0, 2); int nz = std::max(A.nnz(), st + B.nnz()) + extra; if(Z.m == 0 || Z.n == 0) break; for(int q = 0; q < nz; q++) Z.add((int)c.draw(Z.m - 1), (int)c.draw(Z.n - 1), c.num()); auto N = mkS(Z);
    N->copyRowsBlockFrom(*M, s0, k, d0, st); for(int q = 0; q < B.nnz(); q++) Z.i[st + q] = B.i[q] + d0, Z.j[st + q] = B.j[q], Z.v[st + q] = B.v[q]; same_sm(*N, Z, "triplet:copyRowsBlockFrom"); same_sm(*M, A, "triplet:copyRowsBlockFrom:operand"); break; }
  case 8: { bool tr = c.flip(), off = c.flip(); int r0 = (int)c.range(0, 3), c0 = (int)c.range(0, 3), st = (int)c.range(0, 3); SM Z; Z.m = r0 + (tr ? n : m) + (int)c.range(0, 2); Z.n = c0 + (tr ? m : n) + (int)c.range(0, 2); if(Z.m == 0 || Z.n == 0) break; for(int q = 0; q < st + A.nnz() + (int)c.range(0, 0) + 2; q++) Z.add((int)c.draw(Z.m - 1), (int)c.draw(Z.n - 1), c.num()); auto N = mkS(Z);
    if(tr) N->copySubmatrixFromTrans(*M, r0, c0, st, off); else N->copySubmatrixFrom(*M, r0, c0, st, off);
    int q = st; for(int k = 0; k < A.nnz(); k++) { if(off && A.i[k] == A.j[k]) continue; Z.i[q] = r0 + (tr ? A.j[k] : A.i[k]); Z.j[q] = c0 + (tr ? A.i[k] : A.j[k]); Z.v[q++] = A.v[k]; } same_sm(*N, Z, tr ? "triplet:copySubmatrixFromTrans" : "triplet:copySubmatrixFrom"); same_sm(*M, A, "triplet:copySubmatrix:operand"); c.nontrivial(A.nnz() > 0 && (r0 > 0 || c0 > 0 || st > 0)); break; }
  case 9: { bool row = c.flip(); dvec ix = gen_pat(c, m); int cnt = 0; for(double v : ix) cnt += v != 0; int r0 = (int)c.range(0, 3), c0 = (int)c.range(0, 3), st = (int)c.range(0, 3); SM Z; Z.m = r0 + (row ? cnt : m) + (int)c.range(0, 2); Z.n = c0 + (row ? m : cnt) + (int)c.range(0, 2); if(Z.m == 0 || Z.n == 0) break; int nz = st + cnt + (int)c.range(0, 2); for(int q = 0; q < nz; q++) Z.add((int)c.draw(Z.m - 1), (int)c.draw(Z.n - 1), c.num()); auto N = mkS(Z); auto p = sv(ix);
    if(row) N->setSubmatrixToConstantDiag_w_rowpattern(al, r0, c0, st, cnt, *p); else N->setSubmatrixToConstantDiag_w_colpattern(al, r0, c0, st, cnt, *p);
    int q = 0; for(int k = 0; k < m; k++) if(ix[k] != 0) { Z.i[st + q] = r0 + (row ? q : k); Z.j[st + q] = c0 + (row ? k : q); Z.v[st + q] = al; q++; } same_sm(*N, Z, row ? "triplet:setSubmatrix_w_rowpattern" : "triplet:setSubmatrix_w_colpattern"); c.nontrivial(mixed(ix)); break; }
  case 10: { bool pat = c.flip(); dvec ix = gen_pat(c, m), x = gen_vec(c, m); int cnt = 0; for(double v : ix) cnt += v != 0; if(!pat) cnt = m; int r0 = (int)c.range(0, 3), c0 = (int)c.range(0, 3), st = (int)c.range(0, 3); SM Z; Z.m = r0 + cnt + (int)c.range(0, 2); Z.n = c0 + cnt + (int)c.range(0, 2); if(Z.m == 0 || Z.n == 0) break; int nz = st + cnt + (int)c.range(0, 2); for(int q = 0; q < nz; q++) Z.add((int)c.draw(Z.m - 1), (int)c.draw(Z.n - 1), c.num()); auto N = mkS(Z); auto p = sv(ix), xv = sv(x);
    if(pat) N->copyDiagMatrixToSubblock_w_pattern(*xv, r0, c0, st, cnt, *p); else N->copyDiagMatrixToSubblock(al, r0, c0, st, cnt);
    int q = 0; for(int k = 0; k < m; k++) if(!pat || ix[k] != 0) { Z.i[st + q] = r0 + q; Z.j[st + q] = c0 + q; Z.v[st + q] = pat ? x[k] : al; q++; } same_sm(*N, Z, "triplet:copyDiagMatrixToSubblock"); c.nontrivial(cnt > 0 && (r0 > 0 || c0 > 0)); break; }
  case 11: { int cnt = (int)c.range(0, m), d0 = (int)c.range(0, 3), st = (int)c.range(0, 3); SM Z; Z.m = Z.n = d0 + cnt + (int)c.range(0, 2); if(Z.m == 0) break; int nz = st + cnt + (int)c.range(0, 2); for(int q = 0; q < nz; q++) Z.add((int)c.draw(Z.m - 1), (int)c.draw(Z.n - 1), c.num()); auto N = mkS(Z); dvec d = gen_vec(c, m); auto dv = sv(d); bool con = c.flip();
    if(con) N->setSubDiagonalTo(d0, cnt, al, st); else if(c.flip()) { al = 1.; N->copySubDiagonalFrom(d0, cnt, *dv, st); } else N->copySubDiagonalFrom(d0, cnt, *dv, st, al);
    for(int q = 0; q < cnt; q++) Z.i[st + q] = Z.j[st + q] = d0 + q, Z.v[st + q] = con ? al : al * d[q]; same_sm(*N, Z, con ? "triplet:setSubDiagonalTo" : "triplet:copySubDiagonalFrom"); break; }
  case 12: { double mx = 0; for(double v : A.v) mx = std::max(mx, std::fabs(v)); close_val(M->max_abs_value(), mx, 0, "triplet:max_abs_value"); auto v = sv(gen_vec(c, m)); M->row_max_abs_value(*v); dvec r(m, 0.); for(int k = 0; k < A.nnz(); k++) r[A.i[k]] = std::max(r[A.i[k]], std::fabs(A.v[k])); eq_arr(v->local_data(), r, "triplet:row_max_abs_value");
    dvec s = gen_nz(c, m); auto sc = sv(s); bool inv = c.flip(); M->scale_row(*sc, inv); for(int k = 0; k < A.nnz(); k++) { double w = inv ? A.v[k] / s[A.i[k]] : A.v[k] * s[A.i[k]]; close_val(M->M()[k], w, 4 * EPS * std::fabs(w), "triplet:scale_row"); check(M->i_row()[k] == A.i[k] && M->j_col()[k] == A.j[k], "triplet:scale_row:pattern"); } break; }
  case 13: { SM B = A; bool bad = false; if(B.nnz() && c.flip()) { double s = c.pick<double>({NaN, INF, -INF, DBL_MAX}); bad = !std::isfinite(s); B.v[c.draw(B.nnz() - 1)] = s; } auto N = mkS(B); check(N->isfinite() == !bad, "triplet:isfinite"); std::unique_ptr<hiopMatrixSparse> C(N->new_copy()), E(N->alloc_clone()); same_sm(*C, B, "triplet:new_copy"); check(E->m() == m && E->n() == n && E->numberOfNonzeros() == B.nnz(), "triplet:alloc_clone:size"); C->setToConstant(al); for(int k = 0; k < B.nnz(); k++) check(C->M()[k] == al, "triplet:setToConstant"); same_sm(*N, B, "triplet:copy-aliases"); C->setToZero(); for(int k = 0; k < B.nnz(); k++) check(C->M()[k] == 0., "triplet:setToZero");
    if(B.nnz()) { ivec i(B.nnz() + 1, -5), j(B.nnz() + 1, -5); dvec v(B.nnz() + 1, -5.); N->copy_to(i.data(), j.data(), v.data()); for(int k = 0; k < B.nnz(); k++) check(i[k] == B.i[k] && j[k] == B.j[k] && pbt::same(v[k], B.v[k]), "triplet:copy_to"); check(i.back() == -5 && v.back() == -5., "triplet:copy_to:overrun"); }
    DM W(gen_rm(c, m, n)); M->copy_to(*W); W.expect(D, "triplet:copy_to(dense)"); break; }
  case 14: { int md = (int)c.size(0, 6); SM B = gen_sm(c, md, n); auto N = mkS(B); SM Z; Z.m = m + md; Z.n = n + 2 * m + 2 * md; for(int r = 0; r < m + md; r++) { const SM& S = r < m ? A : B; int rr = r < m ? r : r - m; for(int k = 0; k < S.nnz(); k++) if(S.i[k] == rr) Z.add(r, S.j[k], S.v[k]); if(r < m) { Z.add(r, n + rr, -1); Z.add(r, n + m + rr, 1); } else { Z.add(r, n + 2 * m + rr, -1); Z.add(r, n + 2 * m + md + rr, 1); } }
    hiopMatrixSparseTriplet J(Z.m, Z.n, Z.nnz()); int nz = Z.nnz(); if(!nz) break; ivec i(nz, -1), j(nz, -1); dvec v(nz, NaN); if(c.flip()) J.set_Jac_FR(*M, *N, i.data(), j.data(), v.data()); else { J.set_Jac_FR(*M, *N, i.data(), j.data(), nullptr); J.set_Jac_FR(*M, *N, nullptr, nullptr, v.data()); } same_sm(J, Z, "triplet:set_Jac_FR"); check(i == Z.i && j == Z.j && v == Z.v, "triplet:set_Jac_FR:arrays");
    SM A2 = A; for(auto& q : A2.v) q = c.num(); put(*M, A2); J.set_Jac_FR(*M, *N, nullptr, nullptr, v.data()); for(int r = 0, k = 0, q = 0; k < A2.nnz() || r < m; r++) { if(r >= m) break; while(k < A2.nnz() && A2.i[k] == r) check(v[q++] == A2.v[k++], "triplet:set_Jac_FR(new values)"); q += 2; } c.nontrivial(m + md > 1 && n > 0); break; }
  case 15: { SM B = A; ivec p = gen_perm(c, A.nnz()); for(int k = 0; k < A.nnz(); k++) B.i[k] = A.i[p[k]], B.j[k] = A.j[p[k]], B.v[k] = A.v[p[k]]; auto N = mkS(B); N->sort(); same_sm(*N, A, "triplet:sort");
    SM Q = gen_sm(c, n, n); if(c.flip()) { SM T; T.m = T.n = n; for(int k = 0; k < Q.nnz(); k++) if(Q.i[k] == Q.j[k]) T.add(Q.i[k], Q.j[k], Q.v[k]); Q = T; } auto S = mkS(Q); bool dg = true; for(int k = 0; k < Q.nnz(); k++) dg &= Q.i[k] == Q.j[k]; check(S->is_diagonal() == dg, "triplet:is_diagonal"); if(m != n) check(!M->is_diagonal(), "triplet:is_diagonal(rectangular)"); auto d = sv(gen_vec(c, n)); S->extract_diagonal(*d); dvec w(n, 0.); for(int k = 0; k < Q.nnz(); k++) if(Q.i[k] == Q.j[k]) w[Q.i[k]] = Q.v[k]; eq_arr(d->local_data(), w, "triplet:extract_diagonal"); break; }
  case 16: { // conversion of a lower-triangular KKT triplet matrix with extra diagonal nonzeros appended
    SM L = gen_sm(c, n, n, 2); ivec p(L.nnz()); for(int k = 0; k < L.nnz(); k++) p[k] = k; if(c.flip()) p = gen_perm(c, L.nnz()); SM B; B.m = B.n = n; for(int k = 0; k < L.nnz(); k++) B.add(L.i[p[k]], L.j[p[k]], L.v[p[k]]); for(int r = 0; r < n; r++) if(c.chance(2, 3)) B.add(r, r, c.num()); if(n == 0) break;
    auto N = mkS(B); int nnz = -1, *rp = nullptr, *jc = nullptr, *mp = nullptr, *xd = nullptr; double* va = nullptr; std::unordered_map<int, int> ex; c << "KKT triplet " << str(B) << "\n";
    N->convert_to_csr_arrays(nnz, &rp, &jc, &va, &mp, &xd, ex);
    RM W = B.dense(); std::set<std::pair<int, int>> pos; for(int k = 0; k < B.nnz(); k++) pos.insert({B.i[k], B.j[k]});
    check(nnz == (int)pos.size(), "csr_arrays:nnz"); check(rp[0] == 0 && rp[n] == nnz, "csr_arrays:rowptr"); int k = 0;
    for(auto& q : pos) { int r = q.first; check(rp[r] <= k && k < rp[r + 1], "csr_arrays:rowptr"); check(jc[k] == q.second, "csr_arrays:col"); close_val(va[k], W(r, q.second), 2 * EPS * std::fabs(W(r, q.second)), "csr_arrays:value"); check(mp[k] >= 0 && mp[k] < B.nnz() && B.i[mp[k]] == r && B.j[mp[k]] == q.second, "csr_arrays:map");
      bool dup = q.first == q.second; int first = -1, second = -1; for(int t = 0; t < B.nnz() && dup; t++) if(B.i[t] == r && B.j[t] == r) { if(first < 0) first = t; else second = t; }
      if(dup && second >= 0) { check(mp[k] == first, "csr_arrays:map-diag"); check(xd[r] == k, "csr_arrays:extra-diag", "csr_arrays: extra diagonal of row " + std::to_string(r) + " mapped to csr entry " + std::to_string(xd[r]) + ", the diagonal is entry " + std::to_string(k)); auto f = ex.find(k); check(f != ex.end() && f->second == second, "csr_arrays:extra-diag-map"); }
      else if(dup) check(xd[r] == -1, "csr_arrays:extra-diag-none"); k++; }
    delete[] rp; delete[] jc; delete[] va; delete[] mp; delete[] xd; same_sm(*N, B, "csr_arrays:operand"); c.nontrivial(n > 1 && B.nnz() > 2); break; }
  default: { // assemble a KKT-like matrix from blocks and compare products
    SM H = gen_sm(c, n, n, 1, true); int N = n + m; int nz = H.nnz() + A.nnz() + n + m; hiopMatrixSparseTriplet K(N, N, nz); if(!N) break; int k = 0; auto Hm = mkSym(H); dvec dd = gen_vec(c, n); auto dv = sv(dd); for(auto& v : A.v) v = c.moderate(); put(*M, A);
    K.copySubmatrixFrom(*Hm, 0, 0, k); k += H.nnz(); K.copySubmatrixFrom(*M, n, 0, k); k += A.nnz(); K.copySubDiagonalFrom(0, n, *dv, k); k += n; K.setSubDiagonalTo(n, m, al, k); K.sort(); for(int q = 1; q < nz; q++) check(K.i_row()[q - 1] < K.i_row()[q] || (K.i_row()[q - 1] == K.i_row()[q] && K.j_col()[q - 1] <= K.j_col()[q]), "kkt-assembly:unsorted");
    RM W(N, N); for(int q = 0; q < H.nnz(); q++) W(H.i[q], H.j[q]) += H.v[q]; for(int q = 0; q < A.nnz(); q++) W(n + A.i[q], A.j[q]) += A.v[q]; for(int q = 0; q < n; q++) W(q, q) += dd[q]; for(int q = 0; q < m; q++) W(n + q, n + q) += al; dvec x = gen_moderate(c, N), y(N, 0.), tol; auto X = sv(x), Y = sv(dvec(N, 1.)); K.timesVec(0., *Y, 1., *X); mv(0., y, 1., W, x, tol); double sc = 0; for(double q : dd) sc = std::max(sc, std::fabs(q)); for(auto& q : tol) q = q * 4 + 1e-14 * (1 + sc); close_arr(Y->local_data(), y, tol, "kkt-assembly"); break; }
  }
  if(op != 4 && op != 12 && op != 14 && op != 17) same_sm(*M, A, "triplet:operand-modified");
}
PBT_TARGET(triplet_ops) { triplet(c); }

static void symtriplet(Ctx& c)
{
  int n = dim(c), op = (int)c.draw(5);
  c.label("op" + std::to_string(op));
  SM A = gen_sm(c, n, n, 1);
  auto M = mkSym(A);
  RM D = A.sym();
  double al = gcoef(c), be = gcoef(c);
  c << "op " << op << " A=" << str(A) << " alpha=" << al << " beta=" << be << "\n";
  c.nontrivial(n > 1 && A.nnz() > 1);
  switch(op) {
  case 0: { dvec x0 = gen_vec(c, n), y0 = gen_vec(c, n), tol; auto x = sv(x0), y = sv(y0); if(be == 0. && c.flip()) y->setToConstant(NaN); if(c.flip()) M->timesVec(be, *y, al, *x); else M->transTimesVec(be, y->local_data(), al, x->local_data_const()); mv(be, y0, al, D, x0, tol); for(auto& t : tol) t *= 2; close_arr(y->local_data(), y0, tol, "sym:timesVec"); eq_arr(x->local_data(), x0, "sym:timesVec:operand"); break; }
  case 1: { int s = (int)c.range(0, 3), N = s + n + (int)c.range(0, 2); DM W(gen_rm(c, N, N)); RM w = W.g, U(n, n); for(int k = 0; k < A.nnz(); k++) U(A.i[k], A.j[k]) = A.v[k]; M->addUpperTriangleToSymDenseMatrixUpperTriangle(s, al, *W); RM t = axpy_tol(w, al, U, s, s); W.expect(w, t, "sym:addUpperTriangle"); break; }
  case 2: { int ne = (int)c.range(0, n), s0 = (int)c.range(0, n - ne), d0 = (int)c.range(0, 3); bool all = c.flip(); dvec v = gen_vec(c, d0 + ne + (all ? 0 : (int)c.range(0, 2))); auto y = sv(v); dvec w = v, tol(v.size(), 0.); for(int k = 0; k < ne; k++) { double q = al * D(s0 + k, s0 + k); tol[d0 + k] = 4 * EPS * (std::fabs(q) + std::fabs(v[d0 + k])); w[d0 + k] += q; } c << "src " << s0 << " dest " << d0 << " num " << (all ? -1 : ne); M->startingAtAddSubDiagonalToStartingAt(s0, al, *y, d0, all ? -1 : ne); close_arr(y->local_data(), w, tol, "sym:startingAtAddSubDiagonal"); c.nontrivial(ne > 0 && (s0 > 0 || d0 > 0)); break; }
  case 3: { std::unique_ptr<hiopMatrixSparse> C(M->new_copy()), E(M->alloc_clone()); same_sm(*C, A, "sym:new_copy"); check(dynamic_cast<hiopMatrixSymSparseTriplet*>(C.get()) && dynamic_cast<hiopMatrixSymSparseTriplet*>(E.get()), "sym:copy-type"); check(E->m() == n && E->numberOfNonzeros() == A.nnz(), "sym:alloc_clone"); int od = 0; for(int k = 0; k < A.nnz(); k++) od += A.i[k] != A.j[k]; check(M->numberOfOffDiagNonzeros() == od, "sym:numberOfOffDiagNonzeros"); check(M->numberOfOffDiagNonzeros() == od, "sym:numberOfOffDiagNonzeros"); auto d = sv(gen_vec(c, n)); M->extract_diagonal(*d); for(int k = 0; k < n; k++) check(pbt::same(d->local_data()[k], D(k, k)), "sym:extract_diagonal"); C->setToConstant(al); same_sm(*M, A, "sym:copy-aliases"); break; }
  case 4: { // Hessian of the restoration problem: base Hessian plus a diagonal
    bool empty = c.chance(1, 5); SM B = A; int nx = n; if(empty) { B = SM(); nx = n; } auto H = mkSym(B); dvec d = gen_vec(c, nx); auto dv = sv(d); SM Z; Z.m = Z.n = nx + (int)c.range(0, 4); RM t(nx, nx); dvec tl; for(int r = 0; r < nx; r++) { double dg = 0; for(int k = 0; k < B.nnz(); k++) if(B.i[k] == r && B.j[k] == r) dg = B.v[k]; Z.add(r, r, d[r] + dg); for(int k = 0; k < B.nnz(); k++) if(B.i[k] == r && B.j[k] != r) Z.add(r, B.j[k], B.v[k]); }
    int nz = Z.nnz(); if(!nz) break; hiopMatrixSymSparseTriplet F(Z.m, nz); ivec i(nz, -1), j(nz, -1); dvec v(nz, NaN); if(c.flip()) F.set_Hess_FR(*H, i.data(), j.data(), v.data(), *dv); else { F.set_Hess_FR(*H, i.data(), j.data(), nullptr, *dv); F.set_Hess_FR(*H, nullptr, nullptr, v.data(), *dv); } same_sm(F, Z, "sym:set_Hess_FR"); check(i == Z.i && j == Z.j && v == Z.v, "sym:set_Hess_FR:arrays"); same_sm(*H, B, "sym:set_Hess_FR:operand"); break; }
  default: { dvec x = gen_moderate(c, n), z = gen_moderate(c, n); auto X = sv(x), Zv = sv(z), y1 = sv(dvec(n, 0.)), y2 = sv(dvec(n, 0.)); for(auto& v : A.v) v = c.moderate(); put(*M, A); M->timesVec(0., *y1, 1., *X); M->timesVec(0., *y2, 1., *Zv); double a = 0, b = 0; for(int k = 0; k < n; k++) a += z[k] * y1->local_data()[k], b += x[k] * y2->local_data()[k]; close_val(a, b, 1e-11 * (1 + n * n), "sym:symmetry-of-product"); break; }
  }
  if(op != 5) same_sm(*M, A, "sym:operand-modified");
}
PBT_TARGET(symtriplet_ops) { symtriplet(c); }

// ---- mixed dense-sparse ----
struct MD {
  SM s; RM d; std::unique_ptr<hiopMatrixMDS> M;
  MD(const SM& s_, const RM& d_) : s(s_), d(d_) { M.reset(new hiopMatrixMDS(s.m, s.n, d.n, s.nnz(), "DEFAULT")); fill(); }
  void fill() { for(int k = 0; k < s.nnz(); k++) M->sp_irow()[k] = s.i[k], M->sp_jcol()[k] = s.j[k], M->sp_M()[k] = s.v[k]; for(size_t k = 0; k < d.a.size(); k++) M->de_local_data()[k] = d.a[k]; }
  RM dense() const { RM A(s.m, s.n + d.n), S = s.dense(); for(int i = 0; i < s.m; i++) { for(int j = 0; j < s.n; j++) A(i, j) = S(i, j); for(int j = 0; j < d.n; j++) A(i, s.n + j) = d(i, j); } return A; }
};
static void same_mds(hiopMatrixMDS& X, const SM& s, const RM& d, const std::string& key)
{
  same_sm(*X.sp_mat(), s, key + ":sparse");
  check(X.de_mat()->m() == d.m && X.de_mat()->n() == d.n, key + ":dense-size");
  for(size_t k = 0; k < d.a.size(); k++) if(!pbt::same(X.de_local_data()[k], d.a[k])) fail(key + ":dense", key + ": dense entry " + std::to_string(k) + " is " + pbt::str(X.de_local_data()[k]) + " expected " + pbt::str(d.a[k]));
}
static void mds(Ctx& c)
{
  int m = dim(c), ns = dim(c), nd = (int)c.size(0, 6), op = (int)c.draw(8), n = ns + nd;
  c.label("op" + std::to_string(op));
  MD A(gen_sm(c, m, ns), gen_rm(c, m, nd));
  hiopMatrixMDS& M = *A.M;
  RM D = A.dense();
  double al = gcoef(c), be = gcoef(c);
  c << "op " << op << " S=" << str(A.s) << " D=" << str(A.d) << " alpha=" << al << " beta=" << be << "\n";
  c.nontrivial(m > 1 && ns > 0 && nd > 0);
  check(M.m() == m && M.n() == n && M.n_sp() == ns && M.n_de() == nd && M.sp_nnz() == A.s.nnz(), "mds:size");
  switch(op) {
  case 0: case 1: { bool tr = op == 1; dvec x0 = gen_vec(c, tr ? m : n), y0 = gen_vec(c, tr ? n : m), tol; auto x = sv(x0), y = sv(y0); if(be == 0. && c.flip()) y->setToConstant(NaN); if(tr) M.transTimesVec(be, *y, al, *x); else M.timesVec(be, *y, al, *x); mv(be, y0, al, tr ? trans(D) : D, x0, tol); for(auto& t : tol) t *= 4; close_arr(y->local_data(), y0, tol, tr ? "mds:transTimesVec" : "mds:timesVec"); eq_arr(x->local_data(), x0, "mds:timesVec:operand"); break; }
  case 2: { int k = dim(c); MD B(gen_sm(c, k, ns), gen_rm(c, k, nd)); DM W(gen_rm(c, m, k)); RM w = W.g, t; M.timesMatTrans(be, *W, al, *B.M); mm(be, w, al, D, trans(B.dense()), t); for(auto& q : t.a) q *= 4; W.expect(w, t, "mds:timesMatTrans"); break; }
  case 3: { int rs = (int)c.range(0, 3), cs = rs + std::max(n - 1, 0) + (int)c.range(0, 2), N = std::max(rs + n, cs + m) + (int)c.range(0, 2); DM W(gen_rm(c, N, N)); RM w = W.g; M.transAddToSymDenseMatrixUpperTriangle(rs, cs, al, *W); RM t = axpy_tol(w, al, trans(D), rs, cs); W.expect(w, t, "mds:transAddToSymDenseMatrixUpperTriangle"); break; }
  case 4: { double mx = 0; for(double q : D.a) mx = std::max(mx, std::fabs(q)); close_val(M.max_abs_value(), mx, 0, "mds:max_abs_value"); auto v = sv(gen_vec(c, m)); M.row_max_abs_value(*v); dvec r(m, 0.); for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) r[i] = std::max(r[i], std::fabs(D(i, j))); eq_arr(v->local_data(), r, "mds:row_max_abs_value"); break; }
  case 5: { dvec s = gen_nz(c, m); auto sc = sv(s); bool inv = c.flip(); M.scale_row(*sc, inv); auto f = [&](double v, int r) { return inv ? v / s[r] : v * s[r]; }; for(int k = 0; k < A.s.nnz(); k++) close_val(M.sp_M()[k], f(A.s.v[k], A.s.i[k]), 4 * EPS * std::fabs(f(A.s.v[k], A.s.i[k])), "mds:scale_row:sparse"); for(int i = 0; i < m; i++) for(int j = 0; j < nd; j++) close_val(M.de_local_data()[i * nd + j], f(A.d(i, j), i), 4 * EPS * std::fabs(f(A.d(i, j), i)), "mds:scale_row:dense"); A.fill(); break; }
  case 6: { ivec r = incr(c, m); SM B = take(A.s, r); RM Bd = rows(A.d, r); SM B0 = B; for(auto& v : B0.v) v = NaN; for(auto& v : B0.i) v = -3; for(auto& v : B0.j) v = -3; RM Bd0(Bd.m, Bd.n, NaN); MD X(B0, Bd0); auto ix = idx(r); X.M->copyRowsFrom(M, ix.data(), (int)r.size()); same_mds(*X.M, B, Bd, "mds:copyRowsFrom"); c.nontrivial((int)r.size() > 1 && (int)r.size() < m); break; }
  case 7: { std::unique_ptr<hiopMatrix> C(M.new_copy()), E(M.alloc_clone()); auto& Cm = dynamic_cast<hiopMatrixMDS&>(*C); same_mds(Cm, A.s, A.d, "mds:new_copy"); check(E->m() == m && E->n() == n, "mds:alloc_clone"); Cm.setToConstant(al); for(int k = 0; k < A.s.nnz(); k++) check(Cm.sp_M()[k] == al, "mds:setToConstant"); for(size_t k = 0; k < A.d.a.size(); k++) check(Cm.de_local_data()[k] == al, "mds:setToConstant"); Cm.setToZero(); for(size_t k = 0; k < A.d.a.size(); k++) check(Cm.de_local_data()[k] == 0., "mds:setToZero"); bool bad = false; SM s2 = A.s; RM d2 = A.d; if(c.flip() && (s2.nnz() || d2.a.size())) { double b = c.pick<double>({NaN, INF, -INF}); bad = true; if(s2.nnz() && (d2.a.empty() || c.flip())) s2.v[c.draw(s2.nnz() - 1)] = b; else d2.a[c.draw(d2.a.size() - 1)] = b; } MD F(s2, d2); check(F.M->isfinite() == !bad, "mds:isfinite"); break; }
  default: { // restoration Jacobian: sparse columns [x_sp p n (c) p n (d)], dense block unchanged
    int md = (int)c.size(0, 6); MD B(gen_sm(c, md, ns), gen_rm(c, md, nd)); SM Z; Z.m = m + md; Z.n = ns + 2 * m + 2 * md; for(int r = 0; r < m + md; r++) { const SM& S = r < m ? A.s : B.s; int rr = r < m ? r : r - m; for(int k = 0; k < S.nnz(); k++) if(S.i[k] == rr) Z.add(r, S.j[k], S.v[k]); if(r < m) { Z.add(r, ns + rr, -1); Z.add(r, ns + m + rr, 1); } else { Z.add(r, ns + 2 * m + rr, -1); Z.add(r, ns + 2 * m + md + rr, 1); } }
    RM Zd(m + md, nd); for(int r = 0; r < m + md; r++) for(int j = 0; j < nd; j++) Zd(r, j) = r < m ? A.d(r, j) : B.d(r - m, j); if(!Z.nnz()) break; hiopMatrixMDS J(Z.m, Z.n, nd, Z.nnz(), "DEFAULT"); ivec i(Z.nnz(), -1), j(Z.nnz(), -1); dvec v(Z.nnz(), NaN), jd(Zd.a.size() + 1, 9.); J.set_Jac_FR(M, *B.M, i.data(), j.data(), v.data(), jd.data()); same_mds(J, Z, Zd, "mds:set_Jac_FR"); check(i == Z.i && j == Z.j && v == Z.v, "mds:set_Jac_FR:arrays"); eq_arr(jd.data(), Zd.a, "mds:set_Jac_FR:dense-array"); check(jd.back() == 9., "mds:set_Jac_FR:overrun"); same_mds(*B.M, B.s, B.d, "mds:set_Jac_FR:operand"); break; }
  }
  same_mds(M, A.s, A.d, "mds:operand-modified");
}
PBT_TARGET(mds_ops) { mds(c); }

static void symmds(Ctx& c)
{
  int ns = dim(c), nd = (int)c.size(0, 6), n = ns + nd, op = (int)c.draw(4);
  c.label("op" + std::to_string(op));
  SM s = gen_sm(c, ns, ns, 1); RM d = gen_sym(c, nd);
  hiopMatrixSymBlockDiagMDS M(ns, nd, s.nnz(), "DEFAULT");
  auto fill = [](hiopMatrixSymBlockDiagMDS& X, const SM& s, const RM& d) { for(int k = 0; k < s.nnz(); k++) X.sp_irow()[k] = s.i[k], X.sp_jcol()[k] = s.j[k], X.sp_M()[k] = s.v[k]; for(size_t k = 0; k < d.a.size(); k++) X.de_local_data()[k] = d.a[k]; };
  fill(M, s, d);
  RM D(n, n), S = s.sym();
  for(int i = 0; i < ns; i++) for(int j = 0; j < ns; j++) D(i, j) = S(i, j);
  for(int i = 0; i < nd; i++) for(int j = 0; j < nd; j++) D(ns + i, ns + j) = d(i, j);
  double al = gcoef(c), be = gcoef(c);
  c << "op " << op << " S=" << str(s) << " D=" << str(d) << " alpha=" << al << " beta=" << be << "\n";
  c.nontrivial(ns > 0 && nd > 0 && n > 2);
  check(M.m() == n && M.n() == n && M.n_sp() == ns && M.n_de() == nd && M.sp_nnz() == s.nnz(), "symmds:size");
  switch(op) {
  case 0: { dvec x0 = gen_vec(c, n), y0 = gen_vec(c, n), tol; auto x = sv(x0), y = sv(y0); if(be == 0. && c.flip()) y->setToConstant(NaN); if(c.flip()) M.timesVec(be, *y, al, *x); else M.transTimesVec(be, *y, al, *x); mv(be, y0, al, D, x0, tol); for(auto& t : tol) t *= 4; close_arr(y->local_data(), y0, tol, "symmds:timesVec"); break; }
  case 1: { int st = (int)c.range(0, 3), N = st + n + (int)c.range(0, 2); DM W(gen_rm(c, N, N)); RM w = W.g, U(n, n); for(int i = 0; i < n; i++) for(int j = i; j < n; j++) U(i, j) = D(i, j); M.addUpperTriangleToSymDenseMatrixUpperTriangle(st, al, *W); RM t = axpy_tol(w, al, U, st, st); W.expect(w, t, "symmds:addUpperTriangle"); break; }
  case 2: { double mx = 0; for(double q : D.a) mx = std::max(mx, std::fabs(q)); close_val(M.max_abs_value(), mx, 0, "symmds:max_abs_value"); check(M.isfinite(), "symmds:isfinite"); check(M.assertSymmetry(1e-16), "symmds:assertSymmetry"); break; }
  case 3: { std::unique_ptr<hiopMatrix> C(M.new_copy()); auto& X = dynamic_cast<hiopMatrixSymBlockDiagMDS&>(*C); same_sm(*X.sp_mat(), s, "symmds:new_copy"); for(size_t k = 0; k < d.a.size(); k++) check(X.de_local_data()[k] == d.a[k], "symmds:new_copy:dense"); X.setToConstant(al); for(int k = 0; k < s.nnz(); k++) check(X.sp_M()[k] == al, "symmds:setToConstant"); for(size_t k = 0; k < d.a.size(); k++) check(X.de_local_data()[k] == al, "symmds:setToConstant"); break; }
  default: { dvec ds = gen_vec(c, ns), dd = gen_vec(c, nd); auto vs = sv(ds), vd = sv(dd); SM Z; Z.m = Z.n = ns + (int)c.range(0, 4); for(int r = 0; r < ns; r++) { double g = 0; for(int k = 0; k < s.nnz(); k++) if(s.i[k] == r && s.j[k] == r) g = s.v[k]; Z.add(r, r, ds[r] + g); for(int k = 0; k < s.nnz(); k++) if(s.i[k] == r && s.j[k] != r) Z.add(r, s.j[k], s.v[k]); }
    hiopMatrixSymBlockDiagMDS F(Z.m, nd, Z.nnz(), "DEFAULT"); ivec i(Z.nnz() + 1, -1), j(Z.nnz() + 1, -1); dvec v(Z.nnz() + 1, 9.), hd(d.a.size() + 1, 9.); F.set_Hess_FR(M, i.data(), j.data(), v.data(), hd.data(), *vs, *vd); same_sm(*F.sp_mat(), Z, "symmds:set_Hess_FR"); for(int k = 0; k < Z.nnz(); k++) check(i[k] == Z.i[k] && j[k] == Z.j[k] && v[k] == Z.v[k], "symmds:set_Hess_FR:arrays"); for(int r = 0; r < nd; r++) for(int q = 0; q < nd; q++) close_val(hd[r * nd + q], d(r, q) + (r == q ? dd[r] : 0.), r == q ? 4 * EPS * (std::fabs(d(r, r)) + std::fabs(dd[r])) : 0., "symmds:set_Hess_FR:dense"); check(hd.back() == 9. && v.back() == 9., "symmds:set_Hess_FR:overrun"); break; }
  }
  same_sm(*M.sp_mat(), s, "symmds:operand");
  for(size_t k = 0; k < d.a.size(); k++) check(M.de_local_data()[k] == d.a[k], "symmds:operand:dense");
}
PBT_TARGET(symmds_ops) { symmds(c); }
