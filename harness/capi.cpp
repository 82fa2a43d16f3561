// C23: the C and Fortran interfaces against the C++ interface
#include "solver.hpp"
#include "capi_c.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
extern "C" {
typedef void (*ff_f)(int*, double*, int*, double*);
typedef void (*ff_c)(int*, int*, double*, int*, double*);
void* hiopdenseprob_(int* n, int* m, double* xl, double* xu, double* cl, double* cu, double* x0, ff_f f, ff_c c, ff_f g, ff_c J);
void hiopdensesolve_(void** p, double* obj, double* sol);
void deletehiopdenseprob_(void** p);
}
static User& UU(void* u) { return *(User*)u; }
static void szchk(User& U, int n, int m) { if(n != U.P.n || m != U.P.m) U.bad("capi:sizes", "callback called with n=" + std::to_string(n) + " m=" + std::to_string(m)); }
extern "C" {
int cb_start(int n, double* x0, void* u) { szchk(UU(u), n, UU(u).P.m); UU(u).start1(x0); return 0; }
int cb_sizes(int* n, int* m, void* u) { *n = UU(u).P.n; *m = UU(u).P.m; return 0; }
int cb_vars(int n, double* l, double* h, void* u) { szchk(UU(u), n, UU(u).P.m); const Prob& P = UU(u).P; for(int i = 0; i < n; i++) l[i] = P.xl[i], h[i] = P.xu[i]; return 0; }
int cb_cons_info(int m, double* l, double* h, void* u) { szchk(UU(u), UU(u).P.n, m); const Prob& P = UU(u).P; for(int i = 0; i < m; i++) l[i] = P.cl[i], h[i] = P.cu[i]; return 0; }
int cb_f(int n, double* x, int nx, double* f, void* u) { szchk(UU(u), n, UU(u).P.m); UU(u).f(x, nx, *f); return 0; }
int cb_grad(int n, double* x, int nx, double* g, void* u) { szchk(UU(u), n, UU(u).P.m); UU(u).grad(x, nx, g); return 0; }
int cb_cons(int n, int m, double* x, int nx, double* c, void* u) { szchk(UU(u), n, m); UU(u).cons(nullptr, m, true, x, nx, c); return 0; }
int cb_jac(int n, int m, double* x, int nx, double* J, void* u) { szchk(UU(u), n, m); UU(u).jac_dense(nullptr, m, true, x, nx, J); return 0; }
int cb_blocks(int* ns, int* nd, int* neq, int* nin, int* hss, int* hsd, void* u) { MdsIf I(UU(u)); I.get_sparse_dense_blocks_info(*ns, *nd, *neq, *nin, *hss, *hsd); return 0; }
int cb_jac_mds(int n, int m, double* x, int nx, int ns, int nd, int nnz, int* i, int* j, double* v, double* J, void* u) { szchk(UU(u), n, m); UU(u).jac_mds(nullptr, m, true, x, nx, ns, nd, nnz, i, j, v, J); return 0; }
int cb_hess_mds(int n, int m, double* x, int nx, double of, double* lam, int nl, int ns, int nd, int nnz, int* i, int* j, double* v, double* H, int nsd, int* isd, int* jsd, double* vsd, void* u)
{
  szchk(UU(u), n, m);
  int k = 0; UU(u).hess_mds(x, nx, of, lam, ns, nd, nnz, i, j, v, H, k, isd, jsd);
  if(nsd != 0) UU(u).bad("capi:nnzHSD", "nnzHSD=" + std::to_string(nsd));
  return 0;
}
}
static User* FU;  // Fortran callbacks carry no user data
static void ff1(int* n, double* x, int* nx, double* f) { szchk(*FU, *n, FU->P.m); FU->f(x, *nx, *f); }
static void ff2(int* n, double* x, int* nx, double* g) { szchk(*FU, *n, FU->P.m); FU->grad(x, *nx, g); }
static void ff3(int* n, int* m, double* x, int* nx, double* c) { szchk(*FU, *n, *m); FU->cons(nullptr, *m, true, x, *nx, c); }
static void ff4(int* n, int* m, double* x, int* nx, double* J) { szchk(*FU, *n, *m); FU->jac_dense(nullptr, *m, true, x, *nx, J); }

struct Quiet {  // the Fortran layer prints on stdout
  int fd; Quiet() { fflush(stdout); fd = dup(1); int d = open("/dev/null", O_WRONLY); dup2(d, 1); close(d); }
  ~Quiet() { fflush(stdout); dup2(fd, 1); close(fd); }
};
// the settings the C interface documents, in C++
static std::vector<Opt> base(bool mds)
{
  if(mds) return {os("duals_update_type", "linear"), os("duals_init", "zero"), os("Hessian", "analytical_exact"), os("KKTLinsys", "xdycyd"), os("compute_mode", "cpu"), od("mu0", 1e-1)};
  return {os("Hessian", "quasinewton_approx"), os("duals_update_type", "linear"), os("duals_init", "zero"), os("compute_mode", "cpu"), os("KKTLinsys", "xdycyd"), os("fixed_var", "relax")};
}
struct Item {
  Prob P; std::unique_ptr<User> U; double* sol = nullptr; void* c = nullptr; bool mds = false, fortran = false; int solves = 0;
  Result ref; std::unique_ptr<User> V; bool stored = false;
  ~Item() { free(sol); }
};
static void capi(Ctx& c)
{
  static std::string dir;
  if(dir.empty()) { dir = std::string(getenv("PBT_TMP") ? getenv("PBT_TMP") : "/tmp") + "/capi." + std::to_string(getpid()); mkdir(dir.c_str(), 0700); check(chdir(dir.c_str()) == 0, "harness:chdir"); }
  // options can only be given through the options file
  std::vector<Opt> fo{oi("verbosity_level", 0)};
  if(c.flip()) fo.push_back(od("tolerance", c.pick<double>({1e-8, 1e-6, 1e-4})));
  fo.push_back(oi("max_iter", c.flip() ? 300 : (int)c.range(1, 12)));
  if(c.chance(1, 3)) fo.push_back(od("mu0", c.pick<double>({1., 0.01})));
  if(c.chance(1, 3)) fo.push_back(os("duals_init", "lsq"));
  if(c.chance(1, 3)) fo.push_back(os("scaling_type", "none"));
  if(c.chance(1, 4)) fo.push_back(os("duals_update_type", "lsq"));
  if(c.chance(1, 5)) fo.push_back(od("bound_relax_perturb", c.pick<double>({1e-8, 1e-6})));
  FILE* f = fopen("hiop.options", "w");
  for(auto& o : fo) { if(o.type == 0) fprintf(f, "%s %s\n", o.name.c_str(), o.s.c_str()); else if(o.type == 1) fprintf(f, "%s %.17g\n", o.name.c_str(), o.d); else fprintf(f, "%s %d\n", o.name.c_str(), o.i); }
  fclose(f);
  int k = (int)c.range(1, 3);
  std::vector<std::unique_ptr<Item>> it;
  auto relax = getd(fo, "bound_relax_perturb", 1e-8);
  for(int q = 0; q < k; q++) {
    it.emplace_back(new Item); Item& I = *it.back();
    int kind = (int)c.draw(4); I.mds = kind >= 3; I.fortran = kind == 2;
    GenOpt g; g.mds = I.mds; g.nmax = 6; g.mmax = 4;
    I.P = c.flip() ? gen_convex(c, g) : gen_nonconvex(c, g);
    c << "problem " << q << (I.mds ? " C mds " : I.fortran ? " Fortran dense " : " C dense ") << str(I.P);
    I.U.reset(new User(I.P)); I.V.reset(new User(I.P));
    for(User* u : {I.U.get(), I.V.get()}) { u->one_call = true; u->start_mode = 1; u->keep_events = true; u->relax = relax; u->check_bounds = false; }
    I.sol = (double*)malloc(sizeof(double) * std::max(1, I.P.n));
    I.ref = solve(*I.V, I.mds, base(I.mds));
    c.label(std::string(I.mds ? "mds" : I.fortran ? "fortran" : "dense"));
  }
  c << "file: " << str(fo) << "\n";
  auto compare = [&](Item& I, double obj, bool hs, int st, int ni) {
    User &U = *I.U, &V = *I.V;
    if(!U.bad_key.empty()) fail(U.bad_key, U.bad_msg);
    std::string w = std::string(I.mds ? "C mds" : I.fortran ? "Fortran dense" : "C dense") + " solve " + std::to_string(I.solves) + ": ";
    for(size_t t = 0; t < std::min(U.ev.size(), V.ev.size()); t++) {
      auto &a = U.ev[t], &b = V.ev[t];
      check(a.kind == b.kind && a.x == b.x, "capi:calls", w + "user call " + std::to_string(t) + " is " + a.kind + pbt::str(a.x) + ", through the C++ interface " + b.kind + pbt::str(b.x));
      check(a.new_x == b.new_x, "capi:new_x", w + "user call " + std::to_string(t) + " (" + a.kind + ") got new_x=" + std::to_string(a.new_x) + ", through the C++ interface " + std::to_string(b.new_x));
    }
    check(U.ev.size() == V.ev.size(), "capi:calls", w + std::to_string(U.ev.size()) + " user calls, through the C++ interface " + std::to_string(V.ev.size()));
    if(I.mds) check(U.last_of == V.last_of && U.last_hlam == V.last_hlam && U.last_hx == V.last_hx, "capi:hess-args", w + "Hessian arguments differ");
    check(pbt::same(obj, I.ref.obj), "capi:objective", w + "objective " + pbt::str(obj) + ", through the C++ interface " + pbt::str(I.ref.obj));
    dvec x(I.sol, I.sol + I.P.n);
    check(x == I.ref.x, "capi:solution", w + "solution " + pbt::str(x) + ", through the C++ interface " + pbt::str(I.ref.x));
    if(hs) check(st == I.ref.status, "capi:status", w + "status " + std::to_string(st) + ", through the C++ interface " + std::to_string(I.ref.status));
    if(hs) check(ni == I.ref.iters, "capi:iterations", w + "iterations " + std::to_string(ni) + ", through the C++ interface " + std::to_string(I.ref.iters));
    if(I.ref.iters >= 2) c.nontrivial();
    c.label("status" + std::to_string(I.ref.status));
  };
  int ops = k + (int)c.range(1, 4) + k;
  auto create = [&](Item& I) {
    Quiet qq; int rc = 0;
    if(I.fortran) {
      FU = I.U.get(); dvec xl = I.P.xl, xu = I.P.xu, cl = I.P.cl, cu = I.P.cu, x0 = I.P.x0; int n = I.P.n, m = I.P.m;
      I.c = hiopdenseprob_(&n, &m, xl.data(), xu.data(), cl.data(), cu.data(), x0.data(), ff1, ff3, ff2, ff4);  // the caller's arrays may go away
    } else I.c = capi_new(I.mds, I.U.get(), I.sol, &rc);
    check(I.c && rc == 0, "capi:create");
  };
  auto destroy = [&](Item& I) { Quiet qq; if(I.fortran) { deletehiopdenseprob_(&I.c); check(I.c == nullptr, "capi:fortran-destroy"); } else check(capi_free(I.mds, I.c) == 0, "capi:destroy"); I.c = nullptr; };
  for(auto& p : it) create(*p);
  for(int t = 0; t < ops; t++) {
    Item& I = *it[t < k ? t : c.draw(k - 1)];
    int op = t < k ? 0 : (int)c.draw(3);
    if(op == 3 && I.c) { c << "destroy/create "; destroy(I); create(I); continue; }
    User& U = *I.U;
    U.ev.clear(); U.its.clear(); U.count.clear(); U.have_last = false;
    for(int i = 0; i < I.P.n; i++) I.sol[i] = -12345.;
    if(I.fortran) { FU = &U; double o = NaN; { Quiet qq; hiopdensesolve_(&I.c, &o, I.sol); } compare(I, o, false, 0, 0); }
    else { capi_res r; { Quiet qq; capi_solve(I.mds, I.c, &r); } check(r.rc == 0, "capi:rc"); compare(I, r.obj, r.has_status, r.status, r.niters); }
    I.solves++;
  }
  for(auto& p : it) destroy(*p);
}
PBT_TARGET(capi_history) { capi(c); }
