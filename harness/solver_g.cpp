// C26: diagnostics report what happened and never change it
#include "solver.hpp"
#include "dump.hpp"
#include <sstream>

namespace {
struct Line { int it; double obj, pr, du, lmu, adu, apr; int ls; std::string kind; };
std::vector<Line> log_lines(const std::string& s)
{
  std::vector<Line> v; std::istringstream is(s); std::string l;
  while(std::getline(is, l)) {
    Line q; char k[16] = "", tail[4] = ""; int used = 0;
    if(sscanf(l.c_str(), "%d %lf %lf %lf %lf %lf %lf %n", &q.it, &q.obj, &q.pr, &q.du, &q.lmu, &q.adu, &q.apr, &used) != 7 || used <= 0) continue;
    const char* r = l.c_str() + used;
    if(sscanf(r, "-(%1[-]%1[)]", k, tail) == 2) q.ls = -1;
    else if(sscanf(r, "%d(%1[A-Za-z?]%1[)]", &q.ls, k, tail) != 3) continue;
    q.kind = k; v.push_back(q);
  }
  return v;
}
const char* message(int st)
{
  switch(st) {
    case Solve_Success: return "Successfull termination.\n";
    case Solve_Success_RelTol: return "within the relative tolerance";
    case Solve_Acceptable_Level: return "acceptable tolerance";
    case Max_Iter_Exceeded: return "Maximum number of iterations";
    case User_Stopped: return "Stopped by the user";
    case Error_In_FR: return "Feasibility restoration problem failed";
    case Infeasible_Problem: return "locally infeasible problem";
    case Error_In_User_Function: return "user provided function";
  }
  return "";
}
void diag(Ctx& c, bool mds)
{
  GenOpt g; g.mds = mds; g.fixed = c.chance(1, 6);
  Prob P = c.flip() ? gen_convex(c, g) : gen_nonconvex(c, g);
  auto o = gen_opts(c, mds);
  o.push_back(oi("max_iter", (int)c.range(3, 60)));
  if(c.chance(1, 8)) o.push_back(os("force_resto", "yes"));
  if(c.chance(1, 8)) o.push_back(od("min_step_size", c.pick<double>({1e-3, 0.3})));
  bool removed = false;
  if(!mds && g.fixed && c.flip()) { o.push_back(os("fixed_var", "remove")); removed = true; }
  bool one = c.flip(); int sm = c.chance(1, 4) ? 0 : 1;
  int runs = c.chance(1, 4) ? 2 : 1;
  int fault_at = c.chance(1, 8) ? (int)c.range(1, 12) : 0;
  char fk = fault_at ? c.pick<char>({'f', 'c', 'g', 'J', mds ? 'H' : 'f'}) : 0;
  // what is switched on
  int verb = c.chance(1, 2) ? (int)c.range(0, 12) : 3;
  bool wk = c.flip();
  std::vector<Opt> loud;
  if(c.flip()) loud.push_back(os("time_kkt", "on"));
  if(wk) loud.push_back(os("write_kkt", "yes"));
  if(c.chance(1, 3)) loud.push_back(os("print_options", c.flip() ? "yes" : "short"));
  loud.push_back(oi("verbosity_level", verb));
  c << itf_name(mds) << "start_mode=" << sm << " one_call=" << one << " runs=" << runs << " fault " << (fk ? fk : '-') << fault_at << " opts: " << str(o) << " diagnostics: " << str(loud) << "\n" << str(P);
  auto conf = [&](User& u) { u.one_call = one; u.start_mode = sm; u.relax = getd(o, "bound_relax_perturb", 1e-8); u.keep_events = true; if(removed) u.check_bounds = false; u.fault_kind = fk; u.fault_at = fault_at; };
  std::vector<Opt> quiet = o, lo = o; quiet.push_back(oi("verbosity_level", 0)); lo.insert(lo.end(), loud.begin(), loud.end());
  User A(P); conf(A); std::vector<Result> ra; { Session S(A, mds, quiet); for(int k = 0; k < runs; k++) ra.push_back(S.run()); }
  User B(P); conf(B);
  size_t lines_seen = 0, pairs = 0;
  {
    Capture cap;
    Session S(B, mds, lo);
    size_t text0 = cap.text().size();
    for(int k = 0; k < runs; k++) {
      auto c0 = B.count, e0 = B.count_eq, i0 = B.count_ineq, r0 = B.refused; size_t its0 = B.its.size();
      for(auto& f : cap.files()) if(f != "stdout") unlink((cap.dir + "/" + f).c_str());
      Result rb = S.run();
      std::string all = cap.text(), t = all.substr(std::min(text0, all.size())); text0 = all.size();
      std::string w = "run " + std::to_string(k) + ": ";
      // nothing is changed by looking
      auto eq = [](const dvec& u, const dvec& v) { if(u.size() != v.size()) return false; for(size_t i = 0; i < u.size(); i++) if(!pbt::same(u[i], v[i])) return false; return true; };
      check(ra[k].status == rb.status && ra[k].iters == rb.iters, "diag:changes-result", w + "status " + std::to_string(rb.status) + " after " + std::to_string(rb.iters) + " iterations instead of " + std::to_string(ra[k].status) + " after " + std::to_string(ra[k].iters));
      check(eq(ra[k].x, rb.x) && eq(ra[k].zl, rb.zl) && eq(ra[k].zu, rb.zu) && eq(ra[k].lam, rb.lam) && pbt::same(ra[k].obj, rb.obj), "diag:changes-result", w + "x " + pbt::str(rb.x) + " instead of " + pbt::str(ra[k].x));
      // counters
      auto& R = S.nlp->runStats;
      auto d = [&](char q) { return B.count[q] - c0[q]; };
      auto cnt = [&](int got, int want, const char* n) { check(got == want, std::string("counter:") + n, w + std::to_string(got) + " reported, " + std::to_string(want) + " made"); };
      cnt(R.nEvalObj, d('f'), "objective"); cnt(R.nEvalGrad_f, d('g'), "gradient"); cnt(R.nEvalHessL, d('H'), "Hessian"); cnt(R.nIter, rb.iters, "iterations");
      for(char q : {'c', 'J'}) {
        int re = q == 'c' ? R.nEvalCons_eq : R.nEvalJac_con_eq, ri = q == 'c' ? R.nEvalCons_ineq : R.nEvalJac_con_ineq;
        const char* n = q == 'c' ? "constraints" : "Jacobian";
        // a call for all constraints counts for both kinds; the attempts that find out which style the user implements count once each
        cnt(re + ri, (one ? 2 : 1) * d(q) + B.refused[q] - r0[q], n);
        if(one) cnt(re - ri, 0, n);
        else if(P.eqs() != P.ineqs()) { cnt(re, B.count_eq[q] - e0[q], n); cnt(ri, B.count_ineq[q] - i0[q], n); }
      }
      // the iteration log
      auto L = log_lines(t); size_t ni = B.its.size() - its0;
      if(verb < 3) check(L.empty(), "log:unrequested");
      else {
        check(L.size() == ni, "log:lines", w + std::to_string(L.size()) + " lines for " + std::to_string(ni) + " iterates");
        lines_seen += L.size();
        for(size_t i = 0; i < L.size(); i++) {
          auto& q = L[i]; auto& I = B.its[its0 + i]; std::string wi = w + "line " + std::to_string(i) + ": ";
          auto num = [&](double got, double want, double rel, double ab, const char* n) { check(pbt::same(got, want) || std::fabs(got - want) <= rel * std::fabs(want) + ab, std::string("log:") + n, wi + pbt::str(got) + ", the iterate has " + pbt::str(want)); };
          check(q.it == (int)i && I.iter == (int)i, "log:order", wi + "iteration " + std::to_string(q.it));
          num(q.obj, I.obj, 2e-7, 1e-300, "objective"); num(q.pr, I.inf_pr, 1e-3, 1e-300, "inf_pr"); num(q.du, I.inf_du, 1e-3, 1e-300, "inf_du");
          num(q.lmu, std::log10(I.mu), 0, 0.0051, "mu"); num(q.apr, I.apr, 1e-3, 1e-300, "alpha_pr"); num(q.adu, I.adu, 1e-3, 1e-300, "alpha_du");
          if(q.kind != "R" && i > 0) check(q.ls == I.ls, "log:linesearch", wi + std::to_string(q.ls) + ", the iterate has " + std::to_string(I.ls));
        }
        std::string m = message(rb.status);
        bool early = t.find("Fcn/deriv #") == std::string::npos;
        if(rb.status >= 0) check(!early, "log:no-summary", w);
        if(!early) {
          check(m.empty() || t.find(m) != std::string::npos, "log:message", w + "status " + std::to_string(rb.status) + " without its message");
          int v[6]; size_t p = t.find("Fcn/deriv #");
          check(sscanf(t.c_str() + p, "Fcn/deriv #: obj %d grad %d eq cons %d ineq cons %d eq Jac %d ineq Jac %d", v, v + 1, v + 2, v + 3, v + 4, v + 5) == 6, "log:summary");
          cnt(v[0], R.nEvalObj, "printed"); cnt(v[1], R.nEvalGrad_f, "printed"); cnt(v[2], R.nEvalCons_eq, "printed"); cnt(v[3], R.nEvalCons_ineq, "printed"); cnt(v[4], R.nEvalJac_con_eq, "printed"); cnt(v[5], R.nEvalJac_con_ineq, "printed");
        }
      }
      // the systems that were solved
      auto files = cap.files(); files.erase(std::remove(files.begin(), files.end(), "stdout"), files.end());
      if(!wk || !mds) check(files.empty(), "dump:unrequested", files.empty() ? "" : files[0]);
      else {
        for(size_t q = 0; q < files.size(); q++) check(std::find(files.begin(), files.end(), "kkt_linsys_" + std::to_string(q) + ".iajaaa") != files.end(), "dump:numbering", w + std::to_string(files.size()) + " files, none numbered " + std::to_string(q));
        check(!files.empty() || ni <= 1, "dump:missing", w);
        for(auto& f : files) {
          Dump D = read_dump(cap.dir + "/" + f);
          check(D.nx == P.n && D.me == (int)P.eqs().size() && D.mi == (int)P.ineqs().size() && (sp_mode() ? D.n == P.n + P.m || D.n == P.n + P.m + (int)P.ineqs().size() : D.n == P.n - P.ns + P.m), "dump:sizes", f + ": " + std::to_string(D.n) + " " + std::to_string(D.nx) + " " + std::to_string(D.me) + " " + std::to_string(D.mi));
          double M = 0; for(double v : D.M.a) M = std::max(M, std::fabs(v));
          for(size_t q = 0; q < D.rhs.size(); q++) {
            dvec r(D.n, 0.); for(int i = 0; i < D.n; i++) for(int j = 0; j < D.n; j++) r[i] += D.M(i, j) * D.sol[q][j];
            double e = 0;
            for(int i = 0; i < D.n; i++) e = std::max(e, std::fabs(r[i] - D.rhs[q][i]));
            if(!std::isfinite(e)) continue;
            pairs++;
            check(e <= 1e-7 * (M * ninf(D.sol[q]) * D.n + ninf(D.rhs[q])) + 1e-14, "dump:not-the-system-solved", f + ": pair " + std::to_string(q) + " leaves a residual of " + pbt::str(e) + "\n M " + pbt::str(D.M.a) + "\n rhs " + pbt::str(D.rhs[q]) + "\n sol " + pbt::str(D.sol[q]));
          }
        }
      }
    }
  }
  // every evaluation and every iterate was the same
  check(A.its.size() == B.its.size(), "diag:changes-iterates", std::to_string(B.its.size()) + " iterates instead of " + std::to_string(A.its.size()));
  for(size_t i = 0; i < A.its.size(); i++) { auto &a = A.its[i], &b = B.its[i]; check(a.iter == b.iter && pbt::same(a.obj, b.obj) && a.x == b.x && a.zl == b.zl && a.zu == b.zu && a.s == b.s && a.lam == b.lam && pbt::same(a.mu, b.mu) && pbt::same(a.apr, b.apr) && pbt::same(a.adu, b.adu) && a.ls == b.ls, "diag:changes-iterates", "iterate " + std::to_string(i)); }
  check(A.ev.size() == B.ev.size(), "diag:changes-evaluations", std::to_string(B.ev.size()) + " evaluations instead of " + std::to_string(A.ev.size()));
  for(size_t i = 0; i < A.ev.size(); i++) check(A.ev[i].kind == B.ev[i].kind && A.ev[i].x == B.ev[i].x && A.ev[i].new_x == B.ev[i].new_x, "diag:changes-evaluations", "evaluation " + std::to_string(i));
  check(B.bad_key.empty(), B.bad_key, B.bad_msg);
  if(fk) c.label("fault"); c.label("verbosity" + std::to_string(verb)); c.label("status" + std::to_string(ra[0].status));
  if(pairs) c.label("systems");
  c.nontrivial(lines_seen > 3 || pairs > 3);
}
}
PBT_TARGET(diag_dense) { diag(c, false); }
PBT_TARGET(diag_mds) { diag(c, true); }
#ifdef HIOP_SPARSE
PBT_TARGET(diag_sparse) { sp_mode() = 1; diag(c, true); }
#endif
