// C17 / C07: dense row-major matrices against textbook results
#include "dense.hpp"
using namespace hiop;
using pbt::check;
using pbt::fail;

static int dim(Ctx& c) { return (int)c.size(0, 14); }

static void dense_op(Ctx& c)
{
  int m = dim(c), n = dim(c);
  auto P = gen_part(c, n);
  const bool serial = env().size == 1;
  int op = (int)c.draw(serial ? 29 : 15);
  c.label("op" + std::to_string(op));
  c << "op " << op << " m=" << m << " n=" << n << " ";
  c.nontrivial(m >= 2 && n >= 2);
  double al = gcoef(c), be = gcoef(c);
  switch(op) {
  // ---------- operations that are also defined on column-distributed matrices ----------
  case 0: {
    DM A(gen_rm(c, m, n), P); DV x(gen_vec(c, n), P); dvec y0 = gen_vec(c, m), tol; auto y = sv(y0);
    // with beta==0 the previous content of y does not matter
    if(be == 0. && m && n && serial && c.flip()) y->setToConstant(NaN);
    c << str(A.g) << " x=" << pbt::str(x.g) << " y=" << pbt::str(y0) << " a=" << al << " b=" << be;
    if(c.flip()) (*A).timesVec(be, *y, al, *x); else (*A).timesVec(be, y->local_data(), al, (*x).local_data_const());
    mv(be, y0, al, A.g, x.g, tol); for(auto& t : tol) t *= 2;
    pbt::close_arr(y->local_data(), y0, tol, "timesVec"); A.unchanged("timesVec"); x.unchanged("timesVec"); break;
  }
  case 1: {
    DM A(gen_rm(c, m, n), P); dvec x0 = gen_vec(c, m), tol; auto x = sv(x0); DV y(gen_vec(c, n), P); dvec w = y.g;
    c << str(A.g) << " x=" << pbt::str(x0) << " y=" << pbt::str(w) << " a=" << al << " b=" << be;
    if(c.flip()) (*A).transTimesVec(be, *y, al, *x); else (*A).transTimesVec(be, (*y).local_data(), al, x->local_data_const());
    mv(be, w, al, trans(A.g), x0, tol); y.expect(w, tol, "transTimesVec"); A.unchanged("transTimesVec"); pbt::eq_arr(x->local_data(), x0, "transTimesVec:operand-modified"); break;
  }
  case 2: { // W(n_this x k) = be W + al this^T X ; X, W distributed over columns, this local
    int k = n, mm_ = m, nn = dim(c); DM A(gen_rm(c, mm_, nn)), X(gen_rm(c, mm_, k), P), W(gen_rm(c, nn, k), P); RM w = W.g, t;
    (*A).transTimesMat(be, *W, al, *X); mm(be, w, al, trans(A.g), X.g, t); W.expect(w, t, "transTimesMat"); A.unchanged("transTimesMat"); X.unchanged("transTimesMat");
    break;
  }
  case 3: { // W = be W + al this X^T, distributed operands, replicated result
    int k = dim(c); DM A(gen_rm(c, m, n), P), X(gen_rm(c, k, n), P), W(gen_rm(c, m, k)); RM w = W.g, t;
    c << str(A.g) << str(X.g) << str(W.g) << " a=" << al << " b=" << be;
    if(serial && c.flip()) (*A).timesMatTrans_local(be, *W, al, *X); else (*A).timesMatTrans(be, *W, al, *X);
    mm(be, w, al, A.g, trans(X.g), t); for(auto& q : t.a) q *= 2; W.expect(w, t, "timesMatTrans"); A.unchanged("timesMatTrans"); X.unchanged("timesMatTrans"); break;
  }
  case 4: { DM A(gen_rm(c, m, n), P), X(gen_rm(c, m, n), P); RM w = A.g, t(m, n); (*A).addMatrix(al, *X); for(size_t i = 0; i < w.a.size(); i++) t.a[i] = 4 * EPS * (std::fabs(w.a[i]) + std::fabs(al * X.g.a[i])), w.a[i] += al * X.g.a[i]; A.expect(w, t, "addMatrix"); X.unchanged("addMatrix"); break; }
  case 5: { // append rows up to the reserved capacity
    int extra = (int)c.range(0, 3); DM A(gen_rm(c, m, n), P, m + extra); RM w = A.g;
    for(int k = 0; k < extra; k++) { DV r(gen_vec(c, n), P); (*A).appendRow(*r); w.m++; w.a.insert(w.a.end(), r.g.begin(), r.g.end()); r.unchanged("appendRow"); }
    A.g = w; A.expect(w, "appendRow");
    if(w.m >= 2 && c.flip()) { int s = c.flip() ? -1 : 1; (*A).shiftRows(s); RM q = w; if(w.m > 1) for(int i = 0; i < w.m; i++) { int k = i - s; if(k >= 0 && k < w.m) for(int j = 0; j < n; j++) q(i, j) = w(k, j); } A.expect(q, "appendRow+shiftRows"); }
    std::unique_ptr<hiopMatrixDense> B((*A).new_copy()); A.cmp(*B, A.g, RM(), "new_copy(after appendRow)");
    c.nontrivial(extra > 0 && n > 0); break;
  }
  case 6: { int k = (int)c.range(0, m); DM A(gen_rm(c, m, n), P), X(gen_rm(c, k + (int)c.range(0, 2), n), P); int d = (int)c.range(0, m - k); RM w = A.g; (*A).copyRowsFrom(*X, k, d); for(int i = 0; i < k; i++) for(int j = 0; j < n; j++) w(d + i, j) = X.g(i, j); A.expect(w, "copyRowsFrom(block)"); X.unchanged("copyRowsFrom"); break; }
  case 7: { DM A(gen_rm(c, m, n), P), X(gen_rm(c, m + (int)c.range(0, 3), n), P); ivec p = gen_perm(c, X.g.m); std::vector<index_type> ix(p.begin(), p.begin() + m); if(m && c.flip()) ix[c.range(0, m - 1)] = ix[0]; RM w = A.g; (*A).copyRowsFrom((const hiopMatrix&)*X, ix.data(), m); for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) w(i, j) = X.g(ix[i], j); A.expect(w, "copyRowsFrom(indexes)"); X.unchanged("copyRowsFrom"); break; }
  case 8: { DM A(gen_rm(c, m, n), P); int s = m ? (int)c.range(-(m - 1), m - 1) : 0; RM w = A.g; (*A).shiftRows(s); for(int i = 0; i < m; i++) { int k = i - s; if(k >= 0 && k < m) for(int j = 0; j < n; j++) w(i, j) = A.g(k, j); }
    // rows that receive nothing are unspecified only when vacated; HiOp leaves them unchanged
    A.expect(w, "shiftRows"); c.nontrivial(s != 0); break; }
  case 9: { if(m == 0) m = 1; DM A(gen_rm(c, m, n), P); DV r(gen_vec(c, n), P); int i = (int)c.range(0, m - 1); RM w = A.g; for(int j = 0; j < n; j++) w(i, j) = r.g[j]; (*A).replaceRow(i, *r); A.expect(w, "replaceRow"); r.unchanged("replaceRow"); DV r2(gen_vec(c, n), P); int i2 = (int)c.range(0, m - 1); (*A).getRow(i2, *r2); r2.expect(dvec(w.a.begin() + (size_t)i2 * n, w.a.begin() + (size_t)(i2 + 1) * n), "getRow"); A.unchanged("getRow"); break; }
  case 10: { DM A(gen_rm(c, m, n), P); double w = 0; for(double q : A.g.a) w = std::max(w, std::fabs(q)); pbt::close_val((*A).max_abs_value(), w, 0, "max_abs_value"); auto v = sv(gen_vec(c, m)); (*A).row_max_abs_value(*v); dvec r(m, 0.); for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) r[i] = std::max(r[i], std::fabs(A.g(i, j))); pbt::eq_arr(v->local_data(), r, "row_max_abs_value"); A.unchanged("row_max_abs_value"); break; }
  case 11: { DM A(gen_rm(c, m, n), P); dvec s = gen_nz(c, m); auto v = sv(s); bool inv = c.flip(); (*A).scale_row(*v, inv); RM w = A.g, t(m, n); for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) { w(i, j) = inv ? w(i, j) / s[i] : w(i, j) * s[i]; t(i, j) = 4 * EPS * std::fabs(w(i, j)); } A.expect(w, t, "scale_row"); pbt::eq_arr(v->local_data(), s, "scale_row:operand"); break; }
  case 12: { DM A(gen_rm(c, m, n), P); double a = c.num(); if(c.flip()) { (*A).setToConstant(a); A.expect(RM(m, n, a), "setToConstant"); } else { (*A).setToZero(); A.expect(RM(m, n, 0.), "setToZero"); } break; }
  case 13: { DM A(gen_rm(c, m, n), P), X(gen_rm(c, m, n), P); if(m * n > 0) { (*A).copyFrom(*X); A.expect(X.g, "copyFrom"); X.unchanged("copyFrom"); }
    std::unique_ptr<hiopMatrixDense> B((*X).new_copy()), C((*X).alloc_clone()); X.cmp(*B, X.g, RM(), "new_copy"); check(C->m() == m && C->n() == n && C->get_local_size_n() == (*X).get_local_size_n(), "alloc_clone:size"); B->setToConstant(c.num()); C->setToConstant(1.); X.unchanged("clone:aliases"); break; }
  case 14: { // restoration Jacobian [J_c | -I I 0 0 ; J_d | 0 0 -I I], the new columns live on the last rank
    int me = (int)c.size(0, 5), mi = (int)c.size(0, 5); auto P2 = P; P2.back() += 2 * me + 2 * mi; DM E(gen_rm(c, me, n), P), I(gen_rm(c, mi, n), P), J(gen_rm(c, me + mi, n + 2 * me + 2 * mi), P2); RM w(me + mi, n + 2 * me + 2 * mi);
    for(int i = 0; i < me + mi; i++) { for(int j = 0; j < n; j++) w(i, j) = i < me ? E.g(i, j) : I.g(i - me, j); if(i < me) { w(i, n + i) = -1; w(i, n + me + i) = 1; } else { w(i, n + 2 * me + i - me) = -1; w(i, n + 2 * me + mi + i - me) = 1; } }
    if(c.flip()) { std::unique_ptr<hiopMatrixDense> K((*J).alloc_clone()); K->setToConstant(3.); K->set_Jac_FR(*E, *I); J.cmp(*K, w, RM(), "set_Jac_FR(clone)"); }
    (*J).set_Jac_FR(*E, *I); J.expect(w, "set_Jac_FR"); E.unchanged("set_Jac_FR"); I.unchanged("set_Jac_FR"); c.nontrivial(me + mi > 0); break; }
  case 15: { RM a = gen_rm(c, m, n); bool fin = true; if(m * n && c.flip()) { a.a[c.range(0, m * n - 1)] = c.pick<double>({NaN, INF, -INF, DBL_MAX}); } DM A(a, P); for(int i = 0; i < m; i++) for(int j = A.lo(); j < A.hi(); j++) if(!std::isfinite(a(i, j))) fin = false; check((*A).isfinite() == fin, "isfinite", "isfinite expected " + std::to_string(fin)); break; }
  // ---------- local only ----------
  case 16: { int k = dim(c); DM A(gen_rm(c, m, n)), X(gen_rm(c, n, k)), W(gen_rm(c, m, k)); RM w = W.g, t; c << str(A.g) << str(X.g) << str(W.g) << " a=" << al << " b=" << be; if(c.flip() && n && k) (*A).timesMat_local(be, *W, al, *X); else (*A).timesMat(be, *W, al, *X); mm(be, w, al, A.g, X.g, t); W.expect(w, t, "timesMat"); A.unchanged("timesMat"); X.unchanged("timesMat"); break; }
  case 17: { DM A(gen_rm(c, n, n)); auto d = sv(gen_vec(c, n)); RM w = A.g, t(n, n); (*A).addDiagonal(al, *d); for(int i = 0; i < n; i++) t(i, i) = 4 * EPS * (std::fabs(w(i, i)) + std::fabs(al * d->local_data()[i])), w(i, i) += al * d->local_data()[i]; A.expect(w, t, "addDiagonal(vec)"); break; }
  case 18: { DM A(gen_rm(c, n, n)); RM w = A.g; (*A).addDiagonal(al); for(int i = 0; i < n; i++) w(i, i) += al; A.expect(w, "addDiagonal(c)"); break; }
  case 19: { DM A(gen_rm(c, n, n)); int k = (int)c.range(0, n), s = (int)c.range(0, n - k); auto d = sv(gen_vec(c, k)); RM w = A.g, t(n, n); (*A).addSubDiagonal(al, s, *d); for(int i = 0; i < k; i++) t(s + i, s + i) = 4 * EPS * (std::fabs(w(s + i, s + i)) + std::fabs(al * d->local_data()[i])), w(s + i, s + i) += al * d->local_data()[i]; A.expect(w, t, "addSubDiagonal(vec)"); c.nontrivial(s > 0 && k > 0); break; }
  case 20: { if(n == 0) break; DM A(gen_rm(c, n, n)); int s = (int)c.range(0, n - 1), ne = (int)c.range(0, n - s), ss = (int)c.range(0, 3); bool all = c.flip(); auto d = sv(gen_vec(c, ss + ne + (all ? 0 : (int)c.range(0, 2)))); RM w = A.g, t(n, n); if(all && c.flip()) (*A).addSubDiagonal(s, al, *d, ss); else (*A).addSubDiagonal(s, al, *d, ss, all ? -1 : ne); for(int i = 0; i < ne; i++) { double q = al * d->local_data()[ss + i]; t(s + i, s + i) = 4 * EPS * (std::fabs(w(s + i, s + i)) + std::fabs(q)); w(s + i, s + i) += q; } A.expect(w, t, "addSubDiagonal(src offset)"); c.nontrivial(ne > 0 && (s > 0 || ss > 0)); break; }
  case 21: { DM A(gen_rm(c, n, n)); int k = (int)c.range(0, n), s = (int)c.range(0, n - k); RM w = A.g; (*A).addSubDiagonal(s, k, al); for(int i = 0; i < k; i++) w(s + i, s + i) += al; A.expect(w, "addSubDiagonal(c)"); c.nontrivial(s > 0 && k > 0); break; }
  case 22: { // transpose of m x n block into the upper triangle of W at rows rs.., cols cs..
    int rs = (int)c.range(0, 3), cs = rs + std::max(n - 1, 0) + (int)c.range(0, 2), N = std::max(rs + n, cs + m) + (int)c.range(0, 2); DM A(gen_rm(c, m, n)), W(gen_rm(c, N, N)); RM w = W.g, t(N, N); (*A).transAddToSymDenseMatrixUpperTriangle(rs, cs, al, *W); for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) { double q = al * A.g(i, j); t(rs + j, cs + i) = 4 * EPS * (std::fabs(q) + std::fabs(w(rs + j, cs + i))); w(rs + j, cs + i) += q; } W.expect(w, t, "transAddToSymDenseMatrixUpperTriangle"); A.unchanged("transAdd"); break; }
  case 23: { int s = (int)c.range(0, 3), N = s + n + (int)c.range(0, 2); DM A(gen_rm(c, n, n)), W(gen_rm(c, N, N)); RM w = W.g, t(N, N); (*A).addUpperTriangleToSymDenseMatrixUpperTriangle(s, al, *W); for(int i = 0; i < n; i++) for(int j = i; j < n; j++) { double q = al * A.g(i, j); t(s + i, s + j) = 4 * EPS * (std::fabs(q) + std::fabs(w(s + i, s + j))); w(s + i, s + j) += q; } W.expect(w, t, "addUpperTriangleToSymDenseMatrixUpperTriangle"); A.unchanged("addUpper"); break; }
  case 24: { int i0 = (int)c.range(0, 3), j0 = (int)c.range(0, 3); DM X(gen_rm(c, m, n)), A(gen_rm(c, m + i0 + (int)c.range(0, 2), n + j0 + (int)c.range(0, 2))); RM w = A.g; (*A).copyBlockFromMatrix(i0, j0, *X); for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) w(i0 + i, j0 + j) = X.g(i, j); A.expect(w, "copyBlockFromMatrix"); X.unchanged("copyBlock"); break; }
  case 25: { int i0 = (int)c.range(0, 3), j0 = (int)c.range(0, 3); if(m == 0) m = 1; DM A(gen_rm(c, m, n)), X(gen_rm(c, m + i0 + (int)c.range(0, 2), n + j0 + (int)c.range(0, 2))); RM w = A.g; (*A).copyFromMatrixBlock(*X, i0, j0); for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) w(i, j) = X.g(i0 + i, j0 + j); A.expect(w, "copyFromMatrixBlock"); X.unchanged("copyFromBlock"); break; }
  case 26: { DM A(gen_rm(c, n, n)); RM w = A.g; int k = (int)c.draw(2); if(k == 0) { (*A).overwriteUpperTriangleWithLower(); for(int i = 0; i < n; i++) for(int j = i + 1; j < n; j++) w(i, j) = A.g(j, i); } else { if(k == 1) (*A).overwriteLowerTriangleWithUpper(); else check((*A).symmetrize(), "symmetrize:false"); for(int i = 0; i < n; i++) for(int j = 0; j < i; j++) w(i, j) = A.g(j, i); } A.expect(w, k == 0 ? "overwriteUpper" : k == 1 ? "overwriteLower" : "symmetrize"); check((*A).assertSymmetry(), "assertSymmetry:false-on-symmetric"); break; }
  case 27: { if(m * n == 0) break; DM A(gen_rm(c, m, n)); dvec b = gen_special(c, m * n), o(m * n + 2, 7.); (*A).copyFrom(b.data()); RM w(m, n); w.a = b; A.expect(w, "copyFrom(buffer)"); (*A).copy_to(o.data() + 1); check(o[0] == 7. && o.back() == 7., "copy_to:overrun"); pbt::eq_arr(o.data() + 1, b, "copy_to"); break; }
  case 28: { DM A(gen_rm(c, n, n)), H(gen_rm(c, n, n)); if(n == 0) break; auto d = sv(gen_vec(c, n)); RM w = H.g, t(n, n); (*A).set_Hess_FR(*H, *d); for(int i = 0; i < n; i++) t(i, i) = 4 * EPS * (std::fabs(w(i, i)) + std::fabs(d->local_data()[i])), w(i, i) += d->local_data()[i]; A.expect(w, t, "set_Hess_FR"); H.unchanged("set_Hess_FR"); break; }
  default: { // products are consistent with each other: (A B) x == A (B x)
    int k = dim(c); DM A(gen_rm(c, m, n, false)), B(gen_rm(c, n, k, false)), W(RM(m, k)); dvec x = gen_moderate(c, k); if(!m || !n || !k) break; auto X = sv(x), y1 = sv(dvec(m)), y2 = sv(dvec(m)), z = sv(dvec(n)); (*A).timesMat(0., *W, 1., *B); (*W).timesVec(0., *y1, 1., *X); (*B).timesVec(0., *z, 1., *X); (*A).timesVec(0., *y2, 1., *z); for(int i = 0; i < m; i++) pbt::close_val(y1->local_data()[i], y2->local_data()[i], 1e-11, "associativity"); break; }
  }
}
PBT_TARGET(dense_ops) { dense_op(c); }
