// C07: a solve distributed over several ranks follows the solve on one rank, and the ranks agree
#include "solver.hpp"

namespace {
// every rank holds the same bits
void agree(const dvec& v, const std::string& what)
{
  long n = (long)v.size(), mm[2] = {n, -n}, rr[2];
  MPI_Allreduce(mm, rr, 2, MPI_LONG, MPI_MAX, env().comm);
  check(rr[0] == -rr[1], "mpi:disagree:" + what, "the ranks hold " + std::to_string(-rr[1]) + " to " + std::to_string(rr[0]) + " values");
  std::vector<uint64_t> a(v.size()), lo(v.size()), hi(v.size());
  for(size_t i = 0; i < v.size(); i++) { double d = v[i] == 0. ? 0. : v[i]; memcpy(&a[i], &d, 8); }
  MPI_Allreduce(a.data(), lo.data(), (int)a.size(), MPI_UINT64_T, MPI_MIN, env().comm);
  MPI_Allreduce(a.data(), hi.data(), (int)a.size(), MPI_UINT64_T, MPI_MAX, env().comm);
  for(size_t i = 0; i < v.size(); i++) if(lo[i] != hi[i]) {
    double l, h; memcpy(&l, &lo[i], 8); memcpy(&h, &hi[i], 8);
    fail("mpi:disagree:" + what, what + ": entry " + std::to_string(i) + " is between " + pbt::str(l) + " and " + pbt::str(h) + " depending on the rank");
  }
}
dvec scalars(const IterRec& r)
{
  dvec v = {(double)r.iter, r.obj, r.logbar, r.inf_pr, r.inf_du, r.one_pr, r.mu, r.adu, r.apr, (double)r.ls};
  for(auto* p : {&r.s, &r.g, &r.lam}) v.insert(v.end(), p->begin(), p->end());
  return v;
}
// relative distance of two iterates
double dist(const IterRec& a, const IterRec& b)
{
  double d = 0;
  auto cmp = [&](const dvec& u, const dvec& v) {
    if(u.size() != v.size()) { d = INF; return; }
    double s = 1; for(double q : u) s = std::max(s, std::fabs(q));
    for(size_t i = 0; i < u.size(); i++) { double e = std::fabs(u[i] - v[i]) / s; if(!(e <= d)) d = e; }
  };
  cmp(a.x, b.x); cmp(a.zl, b.zl); cmp(a.zu, b.zu); cmp(a.s, b.s); cmp(a.g, b.g); cmp(a.lam, b.lam);
  cmp({a.obj}, {b.obj}); cmp({a.logbar}, {b.logbar}); cmp({a.inf_pr}, {b.inf_pr}); cmp({a.inf_du}, {b.inf_du}); cmp({a.mu}, {b.mu}); cmp({a.apr, a.adu}, {b.apr, b.adu});
  if(a.ls != b.ls || a.iter != b.iter) d = INF;
  return std::isnan(d) ? INF : d;
}
struct Conf { Prob P; std::vector<Opt> o; bool one; int sm; };
Conf gen_conf(Ctx& c)
{
  Conf q;
  GenOpt g; g.fixed = c.chance(1, 4);
  bool convex = c.flip();
  q.P = convex ? gen_convex(c, g) : gen_nonconvex(c, g);
  q.o = gen_opts(c, false);
  q.o.push_back(oi("max_iter", (int)c.range(5, 100)));
  if(c.chance(1, 8)) q.o.push_back(os("force_resto", "yes"));
  if(g.fixed && c.flip()) q.o.push_back(os("fixed_var", c.pick<std::string>({"relax", "remove", "none"})));
  if(c.chance(1, 6)) q.o.push_back(os("KKTLinsys", "auto"));
  q.one = c.flip(); q.sm = c.chance(1, 4) ? 2 : 1;
  return q;
}
}
PBT_TARGET(solve_dist)
{
  Conf q = gen_conf(c);
  const Prob& P = q.P;
  auto part = gen_part(c, P.n);
  c << "part"; for(auto p : part) c << " " << p;
  c << " start_mode=" << q.sm << " opts: " << str(q.o) << "\n" << str(P);
  auto conf = [&](User& u) { u.one_call = q.one; u.start_mode = q.sm; u.relax = getd(q.o, "bound_relax_perturb", 1e-8);
    u.x0_alt = u.x0; for(int i = 0; i < P.n; i++) if(P.xl[i] == P.xu[i]) u.x0_alt[i] = P.xl[i]; };
  // on one rank, and twice more with the data changed in the last digits: how far rounding alone carries the iterates
  User A(P); conf(A); Result ra = solve(A, false, q.o);
  std::vector<double> dev(A.its.size(), 1e-13); bool stable = true;
  for(int k = 0; k < 3; k++) {
    Prob Q = P; int t = 0;
    for(auto& v : Q.q) v *= 1 + ((k + t++) % 2 ? 2 : -2) * 2.2e-16;
    for(auto& v : Q.A.a) v *= 1 + ((k / 2 + t++) % 2 ? 2 : -2) * 2.2e-16;
    for(auto& v : Q.Q.a) v *= 1 + (k % 2 ? 2 : -2) * 2.2e-16;
    User B(Q); conf(B); Result rb = solve(B, false, q.o);
    for(size_t i = 0; i < dev.size(); i++) dev[i] = std::max(dev[i], i < B.its.size() ? dist(A.its[i], B.its[i]) : INF);
    if(rb.status != ra.status || rb.iters != ra.iters) stable = false;
  }
  User D(P); D.part = part; D.comm = env().comm; conf(D);
  Result rd = solve(D, false, q.o);
  check(D.bad_key.empty(), D.bad_key, D.bad_msg);
  agree({(double)rd.status, (double)rd.get_status, (double)rd.iters, rd.obj, (double)D.its.size(), (double)D.nsol, (double)D.sol_status, D.sobj}, "result");
  agree(rd.lam, "multipliers"); agree(D.slam, "solution callback"); agree(D.sg, "solution callback");
  for(size_t i = 0; i < D.its.size(); i++) agree(scalars(D.its[i]), "iterate " + std::string(i ? "" : "0"));
  for(auto& k : {'f', 'g', 'c', 'J'}) agree({(double)D.count[k]}, "number of evaluations");
  size_t compared = 0; double amp = 0; bool branched = false;
  for(size_t i = 0; i < A.its.size(); i++) {
    amp = std::max(amp, dev[i]);
    if(!(amp < 1e-9)) break;
    // a line search that fails by rounding sends the solver into a restoration where there is nothing to restore
    if(i >= D.its.size() && i > 0 && rd.status != Solve_Success && (A.its[i - 1].one_pr <= 1e-10 || std::fabs(A.its[i].logbar - A.its[i - 1].logbar) <= 1e-9 * (1 + std::fabs(A.its[i].logbar)))) { c.label("branched"); branched = true; break; }
    check(i < D.its.size(), "mpi:fewer-iterates", std::to_string(D.its.size()) + " iterates, " + std::to_string(A.its.size()) + " on one rank");
    if(i > 0 && A.its[i].ls != D.its[i].ls && A.its[i].iter == D.its[i].iter) {
      // a line search decided by rounding: the barrier objective does not change noticeably, or there is no infeasibility to reduce
      double p0 = A.its[i - 1].logbar, p1 = A.its[i].logbar, p2 = D.its[i].logbar, t = 1e-9 * (1 + std::fabs(p0));
      if(std::fabs(p1 - p0) <= t || std::fabs(p2 - p0) <= t || std::fabs(p1 - p2) <= t || A.its[i - 1].one_pr <= 1e-10) { c.label("branched"); branched = true; break; }
    }
    // a restoration forced where there is nothing to restore
    if(i > 0 && gets(q.o, "force_resto", "no") == "yes" && (A.its[i].one_pr <= 1e-8 || A.its[i - 1].one_pr <= 1e-8)) { c.label("forced-restoration"); branched = true; break; }
    double d = dist(A.its[i], D.its[i]);
    check(d <= std::max(1e4 * amp, 1e-4), "mpi:iterate", "iterate " + std::to_string(i) + " differs by " + pbt::str(d) + " from the one on a single rank; rounding accounts for " + pbt::str(amp) + "\n x " + pbt::str(A.its[i].x) + " vs " + pbt::str(D.its[i].x) +
      "\n zl " + pbt::str(A.its[i].zl) + " vs " + pbt::str(D.its[i].zl) + "\n lam " + pbt::str(A.its[i].lam) + " vs " + pbt::str(D.its[i].lam) + "\n obj " + pbt::str(A.its[i].obj) + " vs " + pbt::str(D.its[i].obj) + " alpha " + pbt::str(A.its[i].apr) + " " + pbt::str(A.its[i].adu) + " vs " + pbt::str(D.its[i].apr) + " " + pbt::str(D.its[i].adu) + " logbar " + pbt::str(A.its[i].logbar) + " vs " + pbt::str(D.its[i].logbar) + " inf " +
      pbt::str(A.its[i].inf_pr) + " " + pbt::str(A.its[i].inf_du) + " vs " + pbt::str(D.its[i].inf_pr) + " " + pbt::str(D.its[i].inf_du) + " ls " + std::to_string(A.its[i].ls) + " vs " + std::to_string(D.its[i].ls));
    // directions are solved for iteratively up to a tolerance, and whether one more step is made can depend on rounding
    if(d > std::max(1e-9, 1e2 * amp)) { c.label("refinement"); branched = true; break; }
    compared++;
  }
  bool all = stable && !branched && compared == A.its.size() && !A.its.empty();
  c.label(all ? "whole-trajectory" : "prefix"); c.label("status" + std::to_string(rd.status));
  // (a restoration forced at a feasible point has nothing to restore: rounding decides how it ends)
  if(all && gets(q.o, "force_resto", "no") == "no") {
    check(rd.status == ra.status, "mpi:status", "status " + std::to_string(rd.status) + ", on one rank " + std::to_string(ra.status));
    check(rd.iters == ra.iters, "mpi:iterations", std::to_string(rd.iters) + " iterations, on one rank " + std::to_string(ra.iters));
  }
  // a solution is a solution, wherever the variables live
  bool removed = false; for(int i = 0; i < P.n; i++) if(P.xl[i] == P.xu[i] && gets(q.o, "fixed_var", "none") == "remove") removed = true;
  if(rd.status == Solve_Success && !removed) check_kkt(P, rd, q.o, q.sm == 0 ? dvec(P.n, 0.) : D.x0);
  int owners = 0; for(size_t r = 0; r + 1 < part.size(); r++) owners += part[r + 1] > part[r];
  if(owners < (int)part.size() - 1) c.label("empty-rank");
  c.nontrivial(owners >= 2 && compared >= 4);
}
