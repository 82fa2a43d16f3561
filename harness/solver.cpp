// C01: reported successes are KKT points of the user's problem
#include "solver.hpp"

static void kkt_case(Ctx& c, bool mds)
{
  GenOpt g; g.mds = mds; g.allow_lp = true;
  bool convex = c.flip();
  Prob P = convex ? gen_convex(c, g) : gen_nonconvex(c, g);
  auto o = gen_opts(c, mds);
  o.push_back(oi("max_iter", 400));
  User U(P);
  U.one_call = c.flip();
  U.start_mode = (int)c.range(0, 2);
  U.relax = getd(o, "bound_relax_perturb", 1e-8);
  c << (convex ? "convex " : "nonconvex ") << itf_name(mds) << (U.one_call ? "one-call " : "two-call ") << "start_mode=" << U.start_mode << " opts: " << str(o) << "\n" << str(P);
  Result r = solve(U, mds, o);
  c.label("status" + std::to_string(r.status)); c.label((convex ? "A" : "B") + std::to_string(r.status)); c.label("declared" + std::to_string(P.kind()));
  c.nontrivial(r.status == Solve_Success && (P.m > 0 || P.n > 1));
  if(r.status != Solve_Success) return;
  check_kkt(P, r, o, U.start_mode == 0 ? dvec(P.n, 0.) : P.x0);
}
PBT_TARGET(kkt_dense) { kkt_case(c, false); }
PBT_TARGET(kkt_mds) { kkt_case(c, true); }
#ifdef HIOP_SPARSE
PBT_TARGET(kkt_sparse) { sp_mode() = 1; kkt_case(c, true); }
PBT_TARGET(kkt_spdiag) { sp_mode() = 4; kkt_case(c, true); }
PBT_TARGET(kkt_spineq) { sp_mode() = 2; kkt_case(c, true); }
#endif
