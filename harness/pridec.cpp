// C24: primal decomposition of two-stage problems, on one rank and on several with arbitrary evaluation times
#include "dump.hpp"
#include "comp.hpp"
#include "hiopAlgPrimalDecomp.hpp"
#include "hiopInterfacePrimalDecomp.hpp"
#include <unistd.h>

namespace {
using namespace hiop;
typedef hiopInterfacePriDecProblem::RecourseApproxEvaluator Eval;
// first stage: sum of 1/2 d x^2 + b x over a box; second stage: smooth convex terms of the coupled variables
struct Scen { double a = 0; dvec w, cc; int kind = 0; double v = 0; dvec u; double e = 0; };
struct Two {
  int n, nc, S; dvec d, b, lo, hi; ivec idx; std::vector<Scen> s;
  dvec coupled(const dvec& x) const { dvec y(nc); for(int k = 0; k < nc; k++) y[k] = x[idx[k]]; return y; }
  double base(const dvec& x) const { double f = 0; for(int i = 0; i < n; i++) f += 0.5 * d[i] * x[i] * x[i] + b[i] * x[i]; return f; }
  double term(int q, const double* y) const
  {
    auto& t = s[q]; double f = t.a, l = -t.e;
    for(int k = 0; k < nc; k++) { double r = y[k] - t.cc[k]; f += t.w[k] * (t.kind == 0 ? 0.5 * r * r : std::sqrt(1 + r * r) - 1); l += t.u[k] * y[k]; }
    return f + 0.5 * t.v * l * l;
  }
  dvec grad(int q, const double* y) const
  {
    auto& t = s[q]; dvec g(nc); double l = -t.e; for(int k = 0; k < nc; k++) l += t.u[k] * y[k];
    for(int k = 0; k < nc; k++) { double r = y[k] - t.cc[k]; g[k] = t.w[k] * (t.kind == 0 ? r : r / std::sqrt(1 + r * r)) + t.v * l * t.u[k]; }
    return g;
  }
  double F(const dvec& x) const { dvec y = coupled(x); double r = 0; for(int q = 0; q < S; q++) r += term(q, y.data()); return base(x) + r / S; }
  double L() const { double v = 0; dvec m(nc, 0.); for(auto& t : s) { double u2 = 0; for(int k = 0; k < nc; k++) { m[k] += t.w[k] / S; u2 += t.u[k] * t.u[k]; } v += t.v * u2 / S; } double mm = 0; for(double e : m) mm = std::max(mm, e); return mm + v; }
  // the optimum, by coordinate descent with bisection (strongly convex, box)
  dvec best() const
  {
    dvec x(n); for(int i = 0; i < n; i++) x[i] = std::min(hi[i], std::max(lo[i], -b[i] / d[i]));
    for(int sweep = 0; sweep < 3000; sweep++) {
      double ch = 0;
      for(int k = 0; k < nc; k++) {
        int i = idx[k]; dvec y = coupled(x);
        auto der = [&](double v) { y[k] = v; double g = d[i] * v + b[i]; for(int q = 0; q < S; q++) { auto& t = s[q]; double l = -t.e; for(int j = 0; j < nc; j++) l += t.u[j] * y[j]; double r = v - t.cc[k]; g += (t.w[k] * (t.kind == 0 ? r : r / std::sqrt(1 + r * r)) + t.v * l * t.u[k]) / S; } return g; };
        double l = lo[i], h = hi[i], v;
        if(der(l) >= 0) v = l; else if(der(h) <= 0) v = h; else { for(int z = 0; z < 200 && l < h; z++) { double m = 0.5 * (l + h); if(m <= l || m >= h) break; (der(m) < 0 ? l : h) = m; } v = 0.5 * (l + h); }
        ch = std::max(ch, std::fabs(v - x[i])); x[i] = v;
      }
      if(ch <= 1e-14) break;
    }
    return x;
  }
};
std::string str(const Two& T)
{
  std::ostringstream o; o << "n=" << T.n << " nc=" << T.nc << " S=" << T.S << " idx"; for(int i : T.idx) o << " " << i;
  o << "\n d=" << pbt::str(T.d) << " b=" << pbt::str(T.b) << " lo=" << pbt::str(T.lo) << " hi=" << pbt::str(T.hi) << "\n";
  for(auto& t : T.s) o << " term kind " << t.kind << " a=" << pbt::str(t.a) << " w=" << pbt::str(t.w) << " c=" << pbt::str(t.cc) << " v=" << pbt::str(t.v) << " u=" << pbt::str(t.u) << " e=" << pbt::str(t.e) << "\n";
  return o.str();
}
Two gen_two(Ctx& c, int smin)
{
  Two T; T.n = (int)c.range(1, 5); T.nc = (int)c.range(1, T.n); T.S = (int)c.range(std::max(1, smin), std::max(1, smin) + 6);
  bool perm = c.chance(1, 2);
  ivec all(T.n); for(int i = 0; i < T.n; i++) all[i] = i;
  for(int k = 0; k < T.nc; k++) { int j = perm ? (int)c.range(k, T.n - 1) : k; std::swap(all[k], all[j]); }
  T.idx.assign(all.begin(), all.begin() + T.nc);
  if(!perm || c.flip()) std::sort(T.idx.begin(), T.idx.end());
  T.d.resize(T.n); T.b.resize(T.n); T.lo.resize(T.n); T.hi.resize(T.n);
  for(int i = 0; i < T.n; i++) { T.d[i] = c.uni(0.2, 3.); T.b[i] = c.uni(-4, 4); double m = c.uni(-3, 3), w = c.chance(1, 6) ? 0. : c.uni(0.1, 6.); T.lo[i] = m - w; T.hi[i] = m + w; }
  bool same = c.chance(1, 4), coup = c.chance(1, 3); int kind = (int)c.draw(2);
  for(int q = 0; q < T.S; q++) {
    Scen t; t.kind = kind == 2 ? (int)c.draw(1) : kind; t.a = c.pick<double>({0., 0., 1., 5.});
    for(int k = 0; k < T.nc; k++) { t.w.push_back(c.chance(1, 5) ? 0. : c.uni(0.1, 4.)); t.cc.push_back(c.uni(-3, 3)); t.u.push_back(coup ? c.uni(-1, 1) : 0.); }
    if(coup) { t.v = c.uni(0, 2); t.e = c.uni(-2, 2); }
    if(same && q) { t = T.s[0]; }
    T.s.push_back(t);
  }
  return T;
}
struct Call { char kind; int idx; dvec y; };
struct Mast { bool inc; dvec x; double obj; double rval; dvec g, h, x0; };
class Prob2 : public hiopInterfacePriDecProblem
{
public:
  const Two& T; Eval* ev = nullptr; dvec sol; double obj = 0;
  std::vector<Call> calls; std::vector<Mast> masters;
  std::vector<unsigned> delay; size_t ndel = 0;   // microseconds of the next evaluations
  char fk = 0; int fat = 0; bool fired = false; size_t masters_at_fault = 0;
  std::string bad, badm;
  std::string optfile;
  Prob2(const Two& t) : T(t), sol(t.n, 0.) {}
  void nap() { if(ndel < delay.size()) { unsigned d = delay[ndel++]; if(d) usleep(d); } }
  void err(const std::string& k, const std::string& m) { if(bad.empty()) bad = k, badm = m; }
  bool hit(char k, int num) { if(fk == k && num == fat) { fired = true; masters_at_fault = masters.size(); return true; } return false; }
  int nf = 0, ng = 0, nr = 0;
  hiopSolveStatus solve_master(hiopVector& x, const bool& inc, const double& = 0, const double* = 0, const double* = 0, const char* of = nullptr) override
  {
    Mast m; m.inc = inc; m.rval = 0; optfile = of ? of : "(null)";
    if(hit('m', (int)masters.size() + 1)) { masters.push_back(m); return Infeasible_Problem < 0 ? Infeasible_Problem : Error_In_FR; }
    m.x.resize(T.n);
    dvec g(T.n, 0.), h(T.n, 0.), z(T.n, 0.);
    if(inc) {
      if(!ev) { err("pridec:no-model", ""); return Error_In_FR; }
      m.g = get(*ev->get_rgrad()); m.h = get(*ev->get_rhess()); m.x0 = get(*ev->get_x0()); m.rval = ev->get_rval();
      if((int)m.g.size() != T.nc || (int)m.h.size() != T.nc || (int)m.x0.size() != T.nc) { err("pridec:model-size", ""); return Error_In_FR; }
      for(int k = 0; k < T.nc; k++) { g[T.idx[k]] += m.g[k]; h[T.idx[k]] += m.h[k]; z[T.idx[k]] = m.x0[k]; }
    }
    for(int i = 0; i < T.n; i++) m.x[i] = std::min(T.hi[i], std::max(T.lo[i], (h[i] * z[i] - T.b[i] - g[i]) / (T.d[i] + h[i])));
    m.obj = T.base(m.x);
    if(inc) {
      double o = m.obj; size_type n = T.n;
      if(!ev->eval_f(n, m.x.data(), true, o)) err("pridec:model-eval", "");
      double w = m.rval, mag = std::fabs(m.obj) + std::fabs(m.rval); for(int k = 0; k < T.nc; k++) { double t = m.x[T.idx[k]] - m.x0[k]; w += m.g[k] * t + 0.5 * m.h[k] * t * t; mag += std::fabs(m.g[k] * t) + std::fabs(m.h[k] * t * t); }
      if(!(std::fabs(o - (m.obj + w)) <= 1e-13 * mag)) err("pridec:model-value", "the model is " + pbt::str(o - m.obj) + " instead of " + pbt::str(w));
      m.obj = o;
    }
    masters.push_back(m); sol = m.x; obj = m.obj;
    for(int i = 0; i < T.n; i++) x.local_data()[i] = m.x[i];
    return Solve_Success;
  }
  bool eval_f_rterm(size_type i, const int& n, const double* x, double& r) override
  {
    if(n != T.nc || (int)i < 0 || (int)i >= T.S) { err("pridec:args", "term " + std::to_string((int)i) + " of size " + std::to_string(n)); r = 0; return true; }
    nap(); calls.push_back({'f', (int)i, dvec(x, x + n)}); if(hit('f', ++nf)) return false; r = T.term((int)i, x); return true;
  }
  bool eval_grad_rterm(size_type i, const int& n, double* x, hiopVector& g) override
  {
    if(n != T.nc || (int)i < 0 || (int)i >= T.S || (int)g.get_size() != n) { err("pridec:args", "gradient of term " + std::to_string((int)i) + " of size " + std::to_string(n)); return true; }
    nap(); calls.push_back({'g', (int)i, dvec(x, x + n)}); if(hit('g', ++ng)) return false; dvec v = T.grad((int)i, x); for(int k = 0; k < n; k++) g.local_data()[k] = v[k]; return true;
  }
  size_type get_num_rterms() const override { return T.S; }
  size_type get_num_vars() const override { return T.n; }
  void get_solution(double* x) const override { for(int i = 0; i < T.n; i++) x[i] = sol[i]; }
  double get_objective() override { return obj; }
  bool set_recourse_approx_evaluator(const int n, Eval* e) override { if(n != T.nc) err("pridec:args", "recourse model of size " + std::to_string(n)); ev = e; return !hit('r', ++nr); }
};
struct PD { double tol = 1e-5, atol = 1e-3, amin = 1e-5, amax = 1e6, ratio = 1; int ait = 25, mit = 300; bool local = false, file = false, direct = false; };
PD gen_pd(Ctx& c)
{
  PD p;
  if(c.chance(2, 3)) p.tol = c.pick<double>({1e-5, 1e-8, 1e-3, 1e-2, 1e-10});
  if(c.chance(1, 3)) p.atol = c.pick<double>({1e-3, 1e-2, 1e-6, 1e-1});
  if(c.chance(1, 3)) p.ait = c.pick<int>({25, 1, 2, 5});
  if(c.chance(1, 4)) p.amin = c.pick<double>({1e-5, 0.1, 2., 50.});
  if(c.chance(1, 4)) p.amax = c.pick<double>({1e6, 100., 1e3});
  if(c.chance(1, 4)) p.ratio = c.pick<double>({1., 0.75, 1.3333333333333333, 3., 0.5});
  if(c.chance(1, 5)) p.mit = (int)c.range(1, 12);
  p.local = c.flip(); p.file = c.flip(); p.direct = c.flip();
  return p;
}
struct Out { hiopSolveStatus st, got; int it; dvec x; double obj; };
Out run(const Two& T, Prob2& B, const PD& p, MPI_Comm comm)
{
  Capture cap;
  if(p.file) {
    std::ofstream f("hiop_pridec.options"); f.precision(17);
    f << "tolerance " << p.tol << "\nacceptable_tolerance " << p.atol << "\nacceptable_iterations " << p.ait << "\nmax_iter " << p.mit << "\nalpha_min " << p.amin << "\nalpha_max " << p.amax << "\naccum_local " << (p.local ? "yes" : "no") << "\nverbosity_level 3\noptions_file_master_prob some_master.options\n";
  }
  bool all = T.nc == T.n; for(int k = 0; k < T.nc; k++) all = all && T.idx[k] == k;
  std::unique_ptr<hiopAlgPrimalDecomposition> A;
  if(all && p.direct) A.reset(new hiopAlgPrimalDecomposition(&B, comm)); else A.reset(new hiopAlgPrimalDecomposition(&B, T.nc, T.idx.data(), comm));
  if(!p.file) { A->set_tolerance(p.tol); A->set_acceptable_tolerance(p.atol); A->set_acceptable_count(p.ait); A->set_max_iteration(p.mit); A->set_alpha_min(p.amin); A->set_alpha_max(p.amax); A->set_local_accum(p.local ? "yes" : "no"); }
  A->set_initial_alpha_ratio(p.ratio);
  Out o; o.st = p.local && p.direct ? A->run_local() : A->run();
  o.got = A->getSolveStatus(); o.it = A->getNumIterations();
  hiopVectorPar v(T.n); A->getSolution(v); o.x = get(v); o.obj = A->getObjective();
  return o;
}
// what happened in a run, seen from its master rank; calls are those of all ranks
struct Stop { double bound = INF; bool vacuous = true; };
Stop judge(const Two& T, const PD& p, const Out& o, const Prob2& B, const std::vector<Call>& calls, bool fired, char fk, const std::string& w)
{
  check(B.bad.empty(), B.bad, w + B.badm);
  check(o.st == o.got, "pridec:status-getter", w + std::to_string(o.got) + " instead of " + std::to_string(o.st));
  auto& M = B.masters; int K = (int)M.size(); Stop s;
  check(K >= 1 && !M[0].inc, "pridec:first-solve", w);
  for(int k = 1; k < K; k++) check(M[k].inc, "pridec:solve-without-recourse", w + "solve " + std::to_string(k));
  if(fired) {
    if(fk == 'm') check(o.st == Error_In_FR, "pridec:master-failure", w + "the master problem failed but the status is " + std::to_string(o.st));
    else check(o.st == Error_In_User_Function, "pridec:evaluation-failure", w + std::string("user function '") + fk + "' failed but the status is " + std::to_string(o.st));
    return s;
  }
  check(o.it == K - 2, "pridec:iterations", w + std::to_string(o.it) + " reported, " + std::to_string(K) + " master solves");
  if(p.file) check(B.optfile == "some_master.options", "pridec:options-file", w + B.optfile);
  pbt::eq_arr(o.x.data(), M[K - 1].x, "pridec:solution"); pbt::close_val(o.obj, M[K - 1].obj, 0., "pridec:objective");
  // every term once at every master solution but the last
  std::vector<char> used(calls.size(), 0);
  std::map<dvec, int> want; for(int k = 0; k + 1 < K; k++) want[T.coupled(M[k].x)]++;
  std::map<std::pair<int, dvec>, int> F, G;
  for(auto& q : calls) { check(want.count(q.y), "pridec:evaluated-elsewhere", w + "term " + std::to_string(q.idx) + " at " + pbt::str(q.y) + ", which is no master solution"); (q.kind == 'f' ? F : G)[{q.idx, q.y}]++; }
  for(auto& v : want) for(int q = 0; q < T.S; q++) {
    auto m = [&](int got, const char* n) { check(got == v.second, std::string("pridec:") + n, w + "term " + std::to_string(q) + " evaluated " + std::to_string(got) + " times instead of " + std::to_string(v.second) + " at " + pbt::str(v.first)); };
    m(F[{q, v.first}], "terms-evaluated"); m(G[{q, v.first}], "gradients-evaluated");
  }
  // the model handed to the master is built from them
  std::vector<double> al(K, 0.);
  for(int k = 1; k < K; k++) {
    dvec y = T.coupled(M[k - 1].x); std::string wk = w + "model " + std::to_string(k) + ": ";
    pbt::eq_arr(M[k].x0.data(), y, "pridec:model-center");
    double f = 0, fm = 0; dvec g(T.nc, 0.), gm(T.nc, 0.);
    for(int q = 0; q < T.S; q++) { double t = T.term(q, y.data()); f += t; fm += std::fabs(t); dvec v = T.grad(q, y.data()); for(int j = 0; j < T.nc; j++) g[j] += v[j], gm[j] += std::fabs(v[j]); }
    check(std::fabs(M[k].rval - f / T.S) <= 1e-14 * (T.S + 2) * fm / T.S, "pridec:model-constant", wk + pbt::str(M[k].rval) + " instead of " + pbt::str(f / T.S));
    for(int j = 0; j < T.nc; j++) {
      check(std::fabs(M[k].g[j] - g[j] / T.S) <= 1e-14 * (T.S + 2) * gm[j] / T.S, "pridec:model-gradient", wk + pbt::str(M[k].g[j]) + " instead of " + pbt::str(g[j] / T.S));
      check(M[k].h[j] == M[k].h[0] && M[k].h[j] >= p.amin && M[k].h[j] <= p.amax, "pridec:model-curvature", wk + pbt::str(M[k].h));
    }
    al[k] = M[k].h[0];
  }
  check(K - 1 <= p.mit, "pridec:too-many-iterations", w + std::to_string(K - 1));
  check(o.st == Solve_Success || o.st == Solve_Acceptable_Level || o.st == Max_Iter_Exceeded, "pridec:status", w + std::to_string(o.st));
  if(o.st == Max_Iter_Exceeded) check(K - 1 == p.mit, "pridec:status", w + "iteration limit reported after " + std::to_string(K - 1) + " iterations");
  if(o.st == Max_Iter_Exceeded || K < 3) { if(o.st != Max_Iter_Exceeded) fail("pridec:early-success", w + "no step was judged"); return s; }
  // with exact master solves, the stopping rule bounds the distance of the objective to the optimum
  double tol = o.st == Solve_Success ? p.tol : std::max(p.atol, p.tol), L = T.L(), mu = INF; for(int i : T.idx) mu = std::min(mu, T.d[i]);
  double gn = 0; for(double e : M[K - 1].g) gn += e * e;
  double a0 = al[K - 2], a1 = al[K - 1];
  double E = std::max(tol * std::sqrt(gn), (L + a0) * std::sqrt(2 * tol / (a0 + mu)));
  double e = (L + a1) / (a1 + mu) * E;
  s.bound = e * e / (2 * mu);
  // the relative error of the step before last can be read off directly as well
  dvec x2 = M[K - 2].x, x1 = M[K - 3].x; double sn = 0, en = 0, lin = 0;
  for(int j = 0; j < T.nc; j++) { double d = x2[T.idx[j]] - x1[T.idx[j]], y = M[K - 1].g[j] - M[K - 2].g[j]; sn += d * d; en += (y - a0 * d) * (y - a0 * d); lin += M[K - 2].g[j] * d; }
  double cg = std::sqrt(en) / std::sqrt(gn), cf = std::fabs(lin + 0.5 * a0 * sn + T.base(x2) - T.base(x1));
  double sc = 1e-12 * (1 + std::fabs(T.base(x2)) + std::fabs(M[K - 1].rval) + std::fabs(lin) + a0 * sn);
  check(!(gn > 0) || !(cg > tol * (1 + 1e-9) + 1e-12 * (1 + std::sqrt(en) / std::sqrt(gn)) && cf > tol * (1 + 1e-9) + sc), "pridec:stopped-early", w + "status " + std::to_string(o.st) + " with measures " + pbt::str(cg) + " and " + pbt::str(cf) + ", tolerance " + pbt::str(tol));
  return s;
}
void pridec(Ctx& c, bool mpi)
{
  int size = mpi ? env().size : 1, rank = mpi ? env().rank : 0;
  Two T = gen_two(c, size - 1);
  PD p = gen_pd(c);
  char fk = 0; int fat = 0;
  if(c.chance(1, 6)) { fk = c.pick<char>({'f', 'g', 'm', 'r'}); fat = (int)c.range(1, fk == 'm' || fk == 'r' ? 4 : 3 * T.S); }
  int frank = mpi && size > 1 && (fk == 'f' || fk == 'g') ? (int)c.range(1, size - 1) : 0;
  int dk = mpi ? (int)c.draw(3) : 0; int slow = (int)c.range(0, std::max(0, size - 1));
  std::vector<std::vector<unsigned>> delays(size);
  if(dk) for(int r = 0; r < size; r++) for(int i = 0; i < 24; i++) { unsigned d = dk == 1 ? (r == slow ? 200 : 0) : dk == 2 ? (unsigned)c.pick<int>({0, 0, 50, 300}) : (unsigned)(r * 70); delays[r].push_back(d); }
  c << "tol " << p.tol << " acceptable " << p.atol << " x " << p.ait << " max_iter " << p.mit << " alpha " << p.amin << ".." << p.amax << " ratio " << p.ratio << " local " << p.local << " file " << p.file << " fault " << (fk ? fk : '-') << fat << " on rank " << frank << " delays " << dk << " slow " << slow << "\n" << str(T);
  // the model object on its own
  {
    dvec rg = gen_moderate(c, T.nc), rh = gen_moderate(c, T.nc), x0 = gen_moderate(c, T.nc); double rv = c.moderate();
    auto mk = [&](const dvec& v) { auto q = std::make_unique<hiopVectorPar>((int)v.size()); for(size_t i = 0; i < v.size(); i++) q->local_data()[i] = v[i]; return q; };
    auto vg = mk(rg), vh = mk(rh), v0 = mk(x0); std::unique_ptr<Eval> e;
    if(c.flip()) { e.reset(new Eval(T.nc, T.S, T.idx.data(), "default")); e->set_rval(rv); e->set_rgrad(T.nc, *vg); e->set_rhess(T.nc, *vh); e->set_x0(T.nc, *v0); }
    else e.reset(new Eval(T.nc, T.S, T.idx.data(), rv, *vg, *vh, *v0, "default"));
    for(int rep = 0; rep < 2; rep++) {
      dvec x = gen_moderate(c, T.n), g = gen_moderate(c, T.n), gin = g; double f = c.moderate(), fin = f; auto h = mk(gen_moderate(c, T.nc)); dvec hin = get(*h); size_type n = T.n;
      auto vx = mk(x);
      check(e->eval_f(n, x.data(), true, f) && e->eval_grad(n, x.data(), true, g.data()) && e->eval_hess(n, *vx, true, *h), "model:eval");
      double w = fin + rv, mag = std::fabs(fin) + std::fabs(rv); dvec wg = gin, mg(T.n, 0.);
      for(int k = 0; k < T.nc; k++) { double t = x[T.idx[k]] - x0[k]; w += rg[k] * t + 0.5 * rh[k] * t * t; mag += std::fabs(rg[k] * t) + std::fabs(rh[k]) * t * t; wg[T.idx[k]] += rg[k] + rh[k] * t; mg[T.idx[k]] += std::fabs(rg[k]) + std::fabs(rh[k] * t) + std::fabs(gin[T.idx[k]]); }
      pbt::close_val(f, w, 1e-13 * mag, "model:value");
      for(int i = 0; i < T.n; i++) pbt::close_val(g[i], wg[i], 1e-14 * mg[i], "model:gradient");
      for(int k = 0; k < T.nc; k++) pbt::close_val(h->local_data()[k], hin[k] + rh[k], 1e-15 * (std::fabs(hin[k]) + std::fabs(rh[k])), "model:hessian");
    }
    check(e->get_S() == T.S && e->get_rval() == rv, "model:getters"); pbt::eq_arr(e->get_rgrad()->local_data(), rg, "model:getters"); pbt::eq_arr(e->get_rhess()->local_data(), rh, "model:getters"); pbt::eq_arr(e->get_x0()->local_data(), x0, "model:getters");
  }
  dvec xs = T.best(); double Fs = T.F(xs);
  auto near_opt = [&](const Out& o, const Stop& s, const std::string& w) {
    if(o.st != Solve_Success && o.st != Solve_Acceptable_Level) return;
    double f = T.F(o.x);
    for(int i = 0; i < T.n; i++) check(o.x[i] >= T.lo[i] && o.x[i] <= T.hi[i], "pridec:bounds", w);
    check(f - Fs <= s.bound * (1 + 1e-6) + 1e-9 * (1 + std::fabs(Fs)), "pridec:not-optimal", w + "true objective " + pbt::str(f) + " at the reported solution, optimum " + pbt::str(Fs) + ", tolerance " + pbt::str(s.bound));
    check(f - Fs >= -1e-9 * (1 + std::fabs(Fs)), "harness:optimum", pbt::str(f) + " " + pbt::str(Fs));
  };
  // on one rank
  Prob2 A(T); if(!mpi) { A.fk = fk; A.fat = fat; }
  Out oa = run(T, A, p, MPI_COMM_SELF);
  Stop sa = judge(T, p, oa, A, A.calls, A.fired, fk, "one rank: ");
  if(!A.fired) near_opt(oa, sa, "one rank: ");
  int K = (int)A.masters.size();
  if(!mpi) {
    if(A.fired) { check(A.masters.size() == A.masters_at_fault + (fk == 'm' ? 1 : 0), "pridec:continues", "master problems are solved after a failure"); c.label(std::string("fault-") + fk); }
    c.label("status" + std::to_string(oa.st)); if(T.idx.size() == (size_t)T.n) c.label("all-coupled");
    double f0 = T.F(A.masters[0].x.empty() ? xs : A.masters[0].x);
    if(sa.bound < f0 - Fs) c.label("informative");
    c.nontrivial(A.fired || (K >= 4 && sa.bound < f0 - Fs));
    return;
  }
  // on several
  Prob2 D(T); if(rank == frank) D.fk = fk, D.fat = fat; D.delay = delays[rank];
  Out od = run(T, D, p, env().comm);
  int fired = D.fired; MPI_Allreduce(MPI_IN_PLACE, &fired, 1, MPI_INT, MPI_MAX, env().comm);
  // collect the evaluations of all ranks
  std::vector<double> mine; for(auto& q : D.calls) { mine.push_back(q.kind); mine.push_back(q.idx); mine.insert(mine.end(), q.y.begin(), q.y.end()); }
  int cnt = (int)mine.size(); std::vector<int> cs(size), off(size, 0); MPI_Allgather(&cnt, 1, MPI_INT, cs.data(), 1, MPI_INT, env().comm);
  int tot = 0; for(int r = 0; r < size; r++) { off[r] = tot; tot += cs[r]; }
  std::vector<double> allv(tot + 1); MPI_Allgatherv(mine.data(), cnt, MPI_DOUBLE, allv.data(), cs.data(), off.data(), MPI_DOUBLE, env().comm);
  std::vector<Call> calls; for(int i = 0; i < tot; i += 2 + T.nc) calls.push_back({(char)allv[i], (int)allv[i + 1], dvec(allv.begin() + i + 2, allv.begin() + i + 2 + T.nc)});
  int st[2] = {(int)od.st, -(int)od.st}, rr[2]; MPI_Allreduce(st, rr, 2, MPI_INT, MPI_MAX, env().comm);
  check(rr[0] == -rr[1], "pridec:ranks-disagree", "the ranks return different statuses: " + std::to_string(-rr[1]) + " to " + std::to_string(rr[0]));
  if(size > 1 && rank != 0) check(D.masters.empty(), "pridec:master-on-worker", "");
  if(size > 1 && rank == 0) check(D.calls.empty(), "pridec:terms-on-master", "");
  int informative = 0, nm = 0;
  if(rank == 0) {
    Stop sd = judge(T, p, od, D, calls, fired, fk, "several ranks: ");
    if(!fired) near_opt(od, sd, "several ranks: ");
    nm = (int)D.masters.size();
    if(!D.masters[0].x.empty()) informative = sd.bound < T.F(D.masters[0].x) - Fs;
    // without rounding in the sums the histories are the same; with it they stay together at first
    for(int k = 0; k < std::min(nm, std::min(K, 3)) && !fired; k++) for(int i = 0; i < T.n; i++) pbt::close_val(D.masters[k].x[i], A.masters[k].x[i], 1e-7 * (1 + std::fabs(A.masters[k].x[i])), "pridec:history");
  }
  check(D.bad.empty(), D.bad, D.badm);
  int v[2] = {informative, nm}; MPI_Bcast(v, 2, MPI_INT, 0, env().comm);
  if(fired) c.label(std::string("fault-") + fk); c.label("status" + std::to_string(od.st)); c.label("delays" + std::to_string(dk)); c.label(p.local ? "local" : "global");
  c.nontrivial(size >= 2 && (fired || v[1] >= 4));
}
}
PBT_TARGET(pridec_single) { pridec(c, false); }
PBT_TARGET(pridec_sched) { pridec(c, true); }
