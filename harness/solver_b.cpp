// C02 (invariance), C03 (callback contract), C04 (status honesty), C05 (reported state), C06 (determinism, reuse)
#include "solver.hpp"

static bool okst(int s) { return s == Solve_Success; }
static void bad_user(const User& U) { if(!U.bad_key.empty()) fail(U.bad_key, U.bad_msg); }

// ---------------------------------------------------------------------------------------------- C02
struct Pose { std::vector<int> perm; dvec rs; double os = 1; dvec x0; bool mds = false, one = false; int start = 1; std::vector<Opt> o; };
static Prob repose(const Prob& P, const Pose& q)
{
  Prob R = P;
  for(auto& v : R.Q.a) v *= q.os;
  for(auto& v : R.q) v *= q.os;
  for(auto& v : R.p4) v *= q.os;
  R.c0 *= q.os;
  for(int k = 0; k < P.m; k++) {
    int j = q.perm[k]; double s = q.rs[k];
    for(int i = 0; i < P.n; i++) R.A(k, i) = s * P.A(j, i), R.D(k, i) = s * P.D(j, i);
    for(int i = 0; i < P.ns; i++) R.pat[(size_t)k * P.ns + i] = P.pat[(size_t)j * P.ns + i];
    R.e[k] = s * P.e[j]; R.bil[k] = s * P.bil[j];
    double l = P.cl[j] > -BIG ? s * P.cl[j] : P.cl[j], u = P.cu[j] < BIG ? s * P.cu[j] : P.cu[j];
    if(s < 0) { l = P.cu[j] < BIG ? s * P.cu[j] : -BIG; u = P.cl[j] > -BIG ? s * P.cl[j] : BIG; }
    R.cl[k] = l; R.cu[k] = u;
  }
  R.x0 = q.x0;
  return R;
}
static void invariance(Ctx& c, bool mds)
{
  GenOpt g; g.mds = mds; g.fixed = c.chance(1, 4);
  Prob P = gen_convex(c, g);
  for(int k = 0; k < 3; k++) {
    Pose q;
    q.mds = mds; q.x0 = P.x0;
    for(int j = 0; j < P.m; j++) q.perm.push_back(j), q.rs.push_back(1.);
    if(k > 0) {
      for(int j = P.m - 1; j > 0; j--) std::swap(q.perm[j], q.perm[c.draw(j)]);
      if(c.flip()) for(auto& s : q.rs) { s = c.pick<double>({1., 2., 0.5, 5.}); if(c.chance(1, 3)) s = -s; }
      if(c.flip()) q.os = c.pick<double>({1., 3., 0.3, 8.});
      if(c.flip()) for(auto& v : q.x0) v = c.uni(-4, 4);
      q.one = c.flip(); q.start = (int)c.range(0, 2);
      if(mds && k == 2 && c.flip()) q.mds = false;
    }
    OptGen og; og.tol = false;
    q.o = gen_opts(c, q.mds, og);
    q.o.push_back(od("tolerance", c.pick<double>({1e-8, 1e-7, 1e-6})));
    q.o.push_back(oi("max_iter", 1000));
    Prob R = repose(P, q);
    User U(R);
    U.one_call = q.one; U.start_mode = q.start; U.relax = getd(q.o, "bound_relax_perturb", 1e-8);
    if(k == 0) c << "reference " << str(P);
    c << "\npose " << k << (q.mds ? " mds" : " dense") << (q.one ? " one-call" : " two-call") << " start=" << q.start << " perm=" << pbt::stri(q.perm) << " rs=" << pbt::str(q.rs) << " os=" << q.os << " x0=" << pbt::str(q.x0) << " opts " << str(q.o);
    Result r = solve(U, q.mds, q.o);
    c.label(std::string(q.mds ? "m" : "d") + "status" + std::to_string(r.status));
    if(r.status != Solve_Success) continue;
    if(k > 0) c.nontrivial(P.n > 1);
    // tolerance: KKT error (scaled) times the conditioning of the generated instances
    Scal S = scaling(R, q.start == 0 ? dvec(P.n, 0.) : R.x0, q.o);
    double tol = getd(q.o, "tolerance", 1e-8), relax = getd(q.o, "bound_relax_perturb", 1e-8);
    double smin = S.f * std::min(1., q.os); for(int j = 0; j < P.m; j++) smin = std::min(smin, S.con[j] * std::min(1., std::fabs(q.rs[j])));
    double nmul = 0; for(double v : r.lam) nmul += std::fabs(v) * S.f; for(int i = 0; i < P.n; i++) nmul += (std::fabs(r.zl[i]) + std::fabs(r.zu[i])) * S.f;
    double sd = std::max(1., nmul / 100);
    double T = 1e3 * (tol * sd / smin + relax * 10);
    for(int i = 0; i < P.n; i++)
      check(std::fabs(r.x[i] - P.xs[i]) <= T * (1 + std::fabs(P.xs[i])), "invariance:x", "pose " + std::to_string(k) + ": x[" + std::to_string(i) + "]=" + pbt::str(r.x[i]) + " but the unique minimiser has " + pbt::str(P.xs[i]) + " (allowed " + pbt::str(T) + ")");
    double fs = q.os * P.f(P.xs.data());
    check(std::fabs(r.obj - fs) <= T * q.os * (10 + std::fabs(fs)), "invariance:objective", "objective " + pbt::str(r.obj) + " expected " + pbt::str(fs));
  }
}
PBT_TARGET(inv_dense) { invariance(c, false); }
PBT_TARGET(inv_mds) { invariance(c, true); }

// ---------------------------------------------------------------------------------------------- C03
static void callbacks(Ctx& c, bool mds)
{
  GenOpt g; g.mds = mds; g.allow_lp = true;
  Prob P = c.flip() ? gen_convex(c, g) : gen_nonconvex(c, g);
  if(sp_mode() == 3) drop_equalities(P);
  auto o = gen_opts(c, mds);
  o.push_back(oi("max_iter", (int)c.range(5, 150)));
  if(c.chance(1, 6)) o.push_back(oi("force_resto", 1)), o.pop_back();
  User U(P);
  U.one_call = c.flip();
  U.start_mode = (int)c.range(0, 2);
  U.relax = getd(o, "bound_relax_perturb", 1e-8);
  U.keep_events = true;
  c << itf_name(mds) << (U.one_call ? "one-call " : "two-call ") << "start_mode=" << U.start_mode << " opts: " << str(o) << "\n" << str(P);
  Result r = solve(U, mds, o);
  c.label("status" + std::to_string(r.status));
  c.nontrivial(U.its.size() > 3 && P.m > 0);
  bad_user(U);
  if(mds) {
    // Hessians evaluated at an iterate use the multipliers reported for that iterate and the objective scaling factor
    Scal S = scaling(P, U.start_mode == 0 ? dvec(P.n, 0.) : P.x0, o);
    size_t nchk = 0;
    for(size_t k = 0; k < U.its.size(); k++) {
      auto& I = U.its[k];
      if(I.last_hx != I.x || I.last_hlam.empty()) continue;
      if(I.last_of == 0) continue;
      nchk++;
      pbt::close_val(I.last_of, S.f, 1e-12 * S.f, "hess:objective-factor");
      for(int j = 0; j < P.m; j++)
        pbt::close_val(I.last_hlam[j], I.last_of * I.lam[j], 1e-12 * (1e-3 + std::fabs(I.last_hlam[j])), "hess:multipliers");
    }
    c.label(nchk ? "hesschk" : "nohess");
  }
}
PBT_TARGET(cb_dense) { callbacks(c, false); }
PBT_TARGET(cb_mds) { callbacks(c, true); }

// ---------------------------------------------------------------------------------------------- C04
static void faults(Ctx& c, bool mds)
{
  GenOpt g; g.mds = mds;
  Prob P = c.flip() ? gen_convex(c, g) : gen_nonconvex(c, g);
  auto o = gen_opts(c, mds);
  int mi = (int)c.range(5, 200);
  o.push_back(oi("max_iter", mi));
  User U(P);
  U.one_call = c.flip();
  U.start_mode = (int)c.range(1, 2);
  U.relax = getd(o, "bound_relax_perturb", 1e-8);
  U.fault_kind = c.pick<char>({'f', 'g', 'c', 'J', mds ? 'H' : 'f', 's'});
  // how often the function would be called at most
  U.fault_at = (int)(c.flip() ? c.range(1, 6) : c.range(1, 40));
  if(U.fault_kind == 's') U.fault_at--;
  if(mds && sp_mode() && U.fault_at == 1 && (U.fault_kind == 'J' || U.fault_kind == 'H') && c.flip()) U.fault_kind += 'a' - 'A';   // the query of the pattern
  c << itf_name(mds) << (U.one_call ? "one-call " : "two-call ") << "start_mode=" << U.start_mode << " fault " << U.fault_kind << " at call " << U.fault_at << " opts: " << str(o) << "\n" << str(P);
  Result r = solve(U, mds, o);
  c.label(std::string(U.fault_fired ? "fired" : "nofault") + (U.fault_fired ? std::string(1, U.fault_kind) : std::string()));
  c.label("status" + std::to_string(r.status));
  check(r.status == r.get_status, "status:getter", "run returned " + std::to_string(r.status) + " but getSolveStatus is " + std::to_string(r.get_status));
  check(U.nsol <= 1, "status:solution-callback-twice", "solution callback called " + std::to_string(U.nsol) + " times");
  if(U.nsol) check(U.sol_status == r.status, "status:callback", "solution callback got status " + std::to_string(U.sol_status) + ", run returned " + std::to_string(r.status));
  check(r.iters <= mi, "status:iterations", "more iterations than max_iter");
  for(auto& I : U.its) check(I.iter <= mi, "status:iterations", "iterate callback with iteration " + std::to_string(I.iter) + " beyond max_iter " + std::to_string(mi));
  if(U.fault_fired) {
    c.nontrivial();
    if(U.fault_kind == 's') {
      check(r.status == User_Stopped, "fault:stop-status", "iterate callback returned false but the status is " + std::to_string(r.status));
      check(U.evals_after_fault == 0, "fault:stop-continues", std::to_string(U.evals_after_fault) + " user evaluations after the iterate callback returned false");
      check((int)U.its.size() == U.fault_at + 1, "fault:stop-late", "iterate callbacks after the stop request");
      check(r.iters == U.fault_at, "fault:stop-iter", "stopped at iteration " + std::to_string(r.iters) + " instead of " + std::to_string(U.fault_at));
    } else {
      check(r.status == Error_In_User_Function, "fault:status", std::string("user function '") + U.fault_kind + "' reported failure but the status is " + std::to_string(r.status));
      check(U.its.size() == U.fault_iter, "fault:continues", "iterations continue after a user function reported failure");
    }
  } else {
    check(r.status != Error_In_User_Function, "status:spurious-user-error", "Error_In_User_Function although no user function failed");
    check(r.status != User_Stopped, "status:spurious-user-stop", "User_Stopped although the user did not stop the run");
  }
}
PBT_TARGET(fault_dense) { faults(c, false); }
PBT_TARGET(fault_mds) { faults(c, true); }

// provably infeasible problems
static void infeasible(Ctx& c, bool mds)
{
  GenOpt g; g.mds = mds; g.mmax = 4;
  Prob P = c.flip() ? gen_convex(c, g) : gen_nonconvex(c, g);
  int n = P.n, m0 = P.m;
  // append one or two contradictory rows
  int kind = (int)c.range(0, 3);
  int add = kind == 0 ? 2 : 1;
  auto grow = [&](int k) {
    RM A(P.m + k, n), D(P.m + k, n);
    for(int j = 0; j < P.m; j++) for(int i = 0; i < n; i++) A(j, i) = P.A(j, i), D(j, i) = P.D(j, i);
    P.A = A; P.D = D; P.m += k;
    P.e.resize(P.m, 0.); P.bil.resize(P.m, 0.); P.cl.resize(P.m, -BIG); P.cu.resize(P.m, BIG);
    P.pat.resize((size_t)P.m * P.ns, 1);
  };
  grow(add);
  double gap = c.uni(0.1, 3);
  int j = m0;
  for(int i = 0; i < n; i++) P.A(j, i) = c.uni(0.5, 2) * (c.flip() ? 1 : -1);
  if(kind == 0) {       // a'x <= b and a'x >= b+gap (or equalities)
    for(int i = 0; i < n; i++) P.A(j + 1, i) = P.A(j, i);
    double b = c.uni(-2, 2);
    if(c.flip()) { P.cu[j] = b; P.cl[j + 1] = b + gap; } else { P.cl[j] = P.cu[j] = b; if(c.flip()) P.cl[j + 1] = P.cu[j + 1] = b + gap; else P.cl[j + 1] = b + gap; }
  } else if(kind == 1) {  // sum of squares <= -gap
    for(int i = 0; i < n; i++) P.A(j, i) = 0, P.D(j, i) = c.uni(0.5, 2);
    P.cu[j] = -gap; if(c.flip()) P.cl[j] = -gap;
  } else if(kind == 2) {  // linear row beyond what the bounds allow
    double hi = 0;
    for(int i = 0; i < n; i++) {
      if(P.xl[i] <= -BIG) P.xl[i] = (P.xu[i] < BIG ? P.xu[i] : 2.) - c.uni(0.5, 2);
      if(P.xu[i] >= BIG) P.xu[i] = P.xl[i] + c.uni(0.5, 2);
      hi += std::max(P.A(j, i) * P.xl[i], P.A(j, i) * P.xu[i]);
    }
    P.cl[j] = hi + gap; if(c.flip()) P.cu[j] = P.cl[j];
  } else {                // x'Dx + a'x >= something although concave bounded above
    for(int i = 0; i < n; i++) P.D(j, i) = -c.uni(0.5, 2);
    double mx = 0; for(int i = 0; i < n; i++) mx += 0.5 * P.A(j, i) * P.A(j, i) / -P.D(j, i);
    P.cl[j] = mx + gap;
  }
  P.known = false;
  auto o = gen_opts(c, mds);
  int mi = (int)c.range(10, 120);
  o.push_back(oi("max_iter", mi));
  if(c.chance(1, 6)) o.push_back(od("rel_tolerance", 1e-6));
  User U(P);
  U.one_call = c.flip(); U.start_mode = (int)c.range(0, 2); U.relax = getd(o, "bound_relax_perturb", 1e-8);
  c << itf_name(mds) << "infeasible kind " << kind << " gap " << gap << " opts: " << str(o) << "\n" << str(P);
  Result r = solve(U, mds, o);
  c.label("status" + std::to_string(r.status)); c.label("kind" + std::to_string(kind));
  c.nontrivial(U.its.size() > 1);
  check(r.status == r.get_status, "status:getter", "getSolveStatus differs from the return value");
  check(r.iters <= mi, "status:iterations", "more iterations than max_iter");
  check(!(r.status == Solve_Success || r.status == Solve_Success_RelTol || r.status == Solve_Acceptable_Level), "infeasible:success", "an infeasible problem (gap " + pbt::str(gap) + ") ended with success status " + std::to_string(r.status) + " x=" + pbt::str(r.x));
  check(r.status != Error_In_User_Function && r.status != User_Stopped, "status:spurious", "status " + std::to_string(r.status) + " without cause");
}
PBT_TARGET(infeas_dense) { infeasible(c, false); }
PBT_TARGET(infeas_mds) { infeasible(c, true); }

static bool same_iter(const IterRec& a, const IterRec& b, bool all = true)
{
  auto eq = [](double u, double v) { return pbt::same(u, v); };
  return a.iter == b.iter && eq(a.obj, b.obj) && a.x == b.x && a.zl == b.zl && a.zu == b.zu && a.s == b.s && a.g == b.g && a.lam == b.lam && eq(a.inf_pr, b.inf_pr) && eq(a.inf_du, b.inf_du) && eq(a.mu, b.mu) && (!all || eq(a.logbar, b.logbar)) && eq(a.adu, b.adu) && eq(a.apr, b.apr) && a.ls == b.ls;
}
static std::string itstr(const IterRec& a)
{
  return "iter " + std::to_string(a.iter) + " obj " + pbt::str(a.obj) + " x " + pbt::str(a.x) + " zl " + pbt::str(a.zl) + " zu " + pbt::str(a.zu) + " s " + pbt::str(a.s) + " lam " + pbt::str(a.lam) + " inf_pr " + pbt::str(a.inf_pr) + " inf_du " + pbt::str(a.inf_du) + " mu " + pbt::str(a.mu) + " logbar " + pbt::str(a.logbar) + " apr " + pbt::str(a.apr) + " adu " + pbt::str(a.adu) + " ls " + std::to_string(a.ls);
}
static void same_traj(const std::vector<IterRec>& a, const std::vector<IterRec>& b, const std::string& key, const std::string& what)
{
  for(size_t k = 0; k < std::min(a.size(), b.size()); k++)
    check(same_iter(a[k], b[k]), key, what + ": iterates differ at callback " + std::to_string(k) + ":\n " + itstr(a[k]) + "\n " + itstr(b[k]));
  check(a.size() == b.size(), key, what + ": " + std::to_string(a.size()) + " iterate callbacks versus " + std::to_string(b.size()));
}
static void same_result(const Result& a, const Result& b, const std::string& key, const std::string& what)
{
  auto d = [&](const dvec& u, const dvec& v) { if(u.size() != v.size()) return false; for(size_t i = 0; i < u.size(); i++) if(!pbt::same(u[i], v[i])) return false; return true; };
  check(a.status == b.status, key, what + ": status " + std::to_string(a.status) + " versus " + std::to_string(b.status));
  check(a.get_status == b.get_status, key, what + ": getSolveStatus " + std::to_string(a.get_status) + " versus " + std::to_string(b.get_status));
  check(a.iters == b.iters, key, what + ": " + std::to_string(a.iters) + " iterations versus " + std::to_string(b.iters));
  check(d(a.x, b.x) && d(a.zl, b.zl) && d(a.zu, b.zu) && d(a.lam, b.lam) && pbt::same(a.obj, b.obj), key, what + ": solutions differ: x " + pbt::str(a.x) + " vs " + pbt::str(b.x) + " obj " + pbt::str(a.obj) + " vs " + pbt::str(b.obj) + " lam " + pbt::str(a.lam) + " vs " + pbt::str(b.lam));
}
// the iteration limit cuts the trajectory of the unlimited run at exactly that iteration
static void maxiter(Ctx& c, bool mds)
{
  GenOpt g; g.mds = mds;
  Prob P = c.flip() ? gen_convex(c, g) : gen_nonconvex(c, g);
  auto o = gen_opts(c, mds);
  auto base = o; base.push_back(oi("max_iter", 300));
  bool one = c.flip(); int sm = (int)c.range(1, 2);
  c << itf_name(mds) << (one ? "one-call " : "two-call ") << "start_mode=" << sm << " opts: " << str(o) << "\n" << str(P);
  User A(P); A.one_call = one; A.start_mode = sm;
  Result ra = solve(A, mds, base);
  c.label("status" + std::to_string(ra.status));
  if(ra.status == Max_Iter_Exceeded || A.its.empty()) return;
  int K = ra.iters;
  int k = (int)c.range(1, K + 1);
  c << "K=" << K << " max_iter=" << k << "\n";
  auto lim = o; lim.push_back(oi("max_iter", k));
  User B(P); B.one_call = one; B.start_mode = sm;
  Result rb = solve(B, mds, lim);
  bool fr = ra.status != Solve_Success;  // a restoration phase in between obeys the same limit: only the trajectory prefix is required
  c.nontrivial(k < K);
  check(rb.iters <= k, "maxiter:exceeded", "max_iter=" + std::to_string(k) + " but " + std::to_string(rb.iters) + " iterations");
  size_t np = std::min(A.its.size(), B.its.size());
  for(size_t t = 0; t < np; t++) if(A.its[t].iter <= k && !same_iter(A.its[t], B.its[t])) {
    // restoration sub-solves inherit max_iter; a trajectory that went through one may legitimately differ from there on
    fr = true; break;
  }
  if(!fr) {
    if(k < K) {
      check(rb.status == Max_Iter_Exceeded, "maxiter:status", "the run needs " + std::to_string(K) + " iterations, max_iter=" + std::to_string(k) + ", status " + std::to_string(rb.status));
      check(rb.iters == k, "maxiter:iterations", "stopped after " + std::to_string(rb.iters) + " iterations with max_iter=" + std::to_string(k));
      check(B.its.back().x == rb.x, "maxiter:point", "reported point is not the last iterate");
    } else same_result(ra, rb, "maxiter:not-binding", "a limit that is not reached changes the result");
  }
  check(rb.status == rb.get_status, "status:getter", "getSolveStatus differs from the return value");
  if(B.nsol) check(B.sol_status == rb.status, "status:callback", "solution callback got another status");
}
PBT_TARGET(maxiter_dense) { maxiter(c, false); }
PBT_TARGET(maxiter_mds) { maxiter(c, true); }

// ---------------------------------------------------------------------------------------------- C05
static void consistency(Ctx& c, bool mds)
{
  GenOpt g; g.mds = mds;
  Prob P = c.flip() ? gen_convex(c, g) : gen_nonconvex(c, g);
  if(c.flip()) {  // make gradient scaling act: large objective or rows
    double s = c.pick<double>({50., 300., 1e4});
    if(c.flip()) { for(auto& v : P.Q.a) v *= s; for(auto& v : P.q) v *= s; for(auto& v : P.p4) v *= s; }
    for(int j = 0; j < P.m; j++) if(c.flip()) { for(int i = 0; i < P.n; i++) P.A(j, i) *= s, P.D(j, i) *= s; P.e[j] *= s; P.bil[j] *= s; if(P.cl[j] > -BIG) P.cl[j] *= s; if(P.cu[j] < BIG) P.cu[j] *= s; }
  }
  P.c0 = c.chance(1, 3) ? c.uni(-5, 5) : 0.;
  auto o = gen_opts(c, mds);
  int mi = (int)c.range(1, 150);
  o.push_back(oi("max_iter", mi));
  User U(P);
  U.one_call = c.flip();
  U.start_mode = (int)c.range(0, 2);
  if(c.chance(1, 6)) U.fault_kind = 's', U.fault_at = (int)c.range(0, 8);
  c << itf_name(mds) << (U.one_call ? "one-call " : "two-call ") << "start_mode=" << U.start_mode << " opts: " << str(o) << "\n" << str(P);
  Result r = solve(U, mds, o);
  c.label("status" + std::to_string(r.status));
  Scal S = scaling(P, U.start_mode == 0 ? dvec(P.n, 0.) : P.x0, o);
  bool sc = S.f != 1; for(double v : S.con) sc |= v != 1;
  c.label(sc ? "scaled" : "unscaled");
  c.nontrivial(U.its.size() > 2 && (P.m > 0 || sc));
  auto mag = [&](const dvec& x) { double f = std::fabs(P.c0); for(int i = 0; i < P.n; i++) { f += std::fabs(P.q[i] * x[i]); for(int j = 0; j < P.n; j++) f += std::fabs(P.Q(i, j) * x[i] * x[j]); f += P.p4[i] * std::pow(x[i] - P.t4[i], 4); } return f; };
  auto cmag = [&](int j, const dvec& x) { double f = std::fabs(P.e[j]); for(int i = 0; i < P.n; i++) f += std::fabs(P.A(j, i) * x[i]) + std::fabs(P.D(j, i) * x[i] * x[i]); if(P.bil[j] != 0) f += std::fabs(P.bil[j] * x[P.ns] * x[P.ns + 1]); return f; };
  for(size_t k = 0; k < U.its.size(); k++) {
    auto& I = U.its[k];
    check(I.iter == (int)k, "iterate:number", "callback " + std::to_string(k) + " reports iteration " + std::to_string(I.iter));
    pbt::close_val(I.obj, P.f(I.x.data()), 1e-12 * (1e-6 + mag(I.x)), "iterate:objective");
    for(int j = 0; j < P.m; j++) pbt::close_val(I.g[j], P.c(j, I.x.data()), 1e-12 * (1e-6 + cmag(j, I.x)), "iterate:constraints");
    for(int i = 0; i < P.n; i++) {
      check(I.zl[i] >= 0 && I.zu[i] >= 0, "iterate:dual-sign", "negative bound multiplier in the iterate callback");
      if(P.xl[i] <= -BIG) check(I.zl[i] == 0, "iterate:dual-without-bound"); else check(I.zl[i] > 0, "iterate:dual-zero", "zero multiplier of an existing bound");
      if(P.xu[i] >= BIG) check(I.zu[i] == 0, "iterate:dual-without-bound"); else check(I.zu[i] > 0, "iterate:dual-zero", "zero multiplier of an existing bound");
    }
  }
  check(r.status == r.get_status, "final:status", "getSolveStatus differs from the return value");
  pbt::close_val(r.obj, P.f(r.x.data()), 1e-12 * (1e-6 + mag(r.x)), "final:objective");
  if(U.nsol) {
    check(U.nsol == 1, "final:callbacks", "solution callback called more than once");
    check(U.sol_status == r.status, "final:status", "solution callback status differs");
    check(U.sx == r.x, "final:x", "solution callback x " + pbt::str(U.sx) + " vs getSolution " + pbt::str(r.x));
    pbt::close_val(U.sobj, r.obj, 1e-15 * std::fabs(r.obj), "final:obj");
    for(int j = 0; j < P.m; j++) {
      pbt::close_val(U.sg[j], P.c(j, r.x.data()), 1e-12 * (1e-6 + cmag(j, r.x)), "final:constraints");
      pbt::close_val(U.slam[j], r.lam[j], 1e-14 * std::fabs(r.lam[j]), "final:lambda");
    }
    for(int i = 0; i < P.n; i++) { pbt::close_val(U.szl[i], r.zl[i], 1e-14 * std::fabs(r.zl[i]), "final:zl"); pbt::close_val(U.szu[i], r.zu[i], 1e-14 * std::fabs(r.zu[i]), "final:zu"); }
    // the last iterate reported is the solution
    if(!U.its.empty()) {
      auto& I = U.its.back();
      check(I.x == r.x, "final:last-iterate", "last iterate callback had x=" + pbt::str(I.x) + ", the solution is " + pbt::str(r.x));
      for(int j = 0; j < P.m; j++) pbt::close_val(I.lam[j], r.lam[j], 1e-14 * std::fabs(r.lam[j]), "final:last-lambda");
      for(int i = 0; i < P.n; i++) { pbt::close_val(I.zl[i], r.zl[i], 1e-14 * std::fabs(r.zl[i]), "final:last-zl"); pbt::close_val(I.zu[i], r.zu[i], 1e-14 * std::fabs(r.zu[i]), "final:last-zu"); }
      check(r.iters == I.iter, "final:iterations", "getNumIterations=" + std::to_string(r.iters) + " but the last iterate was " + std::to_string(I.iter));
    }
  }
}
PBT_TARGET(cons_dense) { consistency(c, false); }
PBT_TARGET(cons_mds) { consistency(c, true); }

// ---------------------------------------------------------------------------------------------- C06
static void reuse(Ctx& c, bool mds)
{
  GenOpt g; g.mds = mds;
  Prob P = c.flip() ? gen_convex(c, g) : gen_nonconvex(c, g);
  bool one = c.flip(); int sm = (int)c.range(1, 2);
  auto o = gen_opts(c, mds);
  // history of runs of one solver object; each must equal a fresh object's run
  int runs = (int)c.range(2, 4);
  struct Step { int maxit; int stop; double tol, mu0; std::string dinit; std::vector<Opt> set; };
  c << itf_name(mds) << (one ? "one-call " : "two-call ") << "start_mode=" << sm << " opts: " << str(o) << "\n" << str(P);
  User U(P); U.one_call = one; U.start_mode = sm;
  Session S(U, mds, o);
  std::vector<Opt> acc = o;
  for(int k = 0; k < runs; k++) {
    std::vector<Opt> ch;
    ch.push_back(oi("max_iter", c.flip() ? 200 : (int)c.range(1, 15)));
    if(c.chance(1, 3)) ch.push_back(od("tolerance", c.pick<double>({1e-8, 1e-6, 1e-4})));
    if(c.chance(1, 4)) ch.push_back(od("mu0", c.pick<double>({1., 0.1, 5.})));
    if(c.chance(1, 4)) ch.push_back(os("duals_init", c.flip() ? "zero" : "lsq"));
    if(c.chance(1, 5)) ch.push_back(od("kappa_mu", c.pick<double>({0.2, 0.3})));
    int stop = c.chance(1, 4) ? (int)c.range(0, 10) : -1;
    char fk = c.chance(1, 6) ? c.pick<char>({'f', 'g', 'c', 'J'}) : 0;
    int fat = (int)c.range(1, 12);
    c << "run " << k << " set " << str(ch) << " stop " << stop << " fault " << (fk ? std::string(1, fk) : "-") << "@" << fat << "\n";
    acc.insert(acc.end(), ch.begin(), ch.end());
    ::apply(*S.nlp->options, ch);
    auto prep = [&](User& u) { u.its.clear(); u.count.clear(); u.have_last = false; u.nsol = 0; u.fault_fired = false; u.fault_kind = stop >= 0 ? 's' : fk; u.fault_at = stop >= 0 ? stop : fat; };
    prep(U);
    Result r1 = S.run();
    User V(P); V.one_call = one; V.start_mode = sm;
    prep(V);
    Result r2 = solve(V, mds, acc);
    c.label("status" + std::to_string(r2.status));
    std::string what = "run " + std::to_string(k) + " of the same solver object versus a fresh one";
    same_traj(U.its, V.its, k ? "reuse:iterates" : "determinism:iterates", what);
    same_result(r1, r2, k ? "reuse:result" : "determinism:result", what);
    check(U.nsol == V.nsol, "reuse:callbacks", what + ": solution callback count differs");
    if(k && !V.its.empty()) c.nontrivial();
  }
}
PBT_TARGET(reuse_dense) { reuse(c, false); }
PBT_TARGET(reuse_mds) { reuse(c, true); }
#ifdef HIOP_SPARSE
PBT_TARGET(inv_sparse) { sp_mode() = 1; invariance(c, true); }
PBT_TARGET(cb_spineq) { sp_mode() = 3; callbacks(c, true); }
PBT_TARGET(cb_spdiag) { sp_mode() = 4; callbacks(c, true); }
PBT_TARGET(cb_sparse) { sp_mode() = 1; callbacks(c, true); }
PBT_TARGET(fault_spineq) { sp_mode() = 2; faults(c, true); }
PBT_TARGET(fault_sparse) { sp_mode() = 1; faults(c, true); }
PBT_TARGET(infeas_sparse) { sp_mode() = 1; infeasible(c, true); }
PBT_TARGET(maxiter_spineq) { sp_mode() = 2; maxiter(c, true); }
PBT_TARGET(maxiter_sparse) { sp_mode() = 1; maxiter(c, true); }
PBT_TARGET(cons_spineq) { sp_mode() = 2; consistency(c, true); }
PBT_TARGET(cons_sparse) { sp_mode() = 1; consistency(c, true); }
PBT_TARGET(reuse_spineq) { sp_mode() = 2; reuse(c, true); }
PBT_TARGET(reuse_spdiag) { sp_mode() = 4; reuse(c, true); }
PBT_TARGET(reuse_sparse) { sp_mode() = 1; reuse(c, true); }
#endif
