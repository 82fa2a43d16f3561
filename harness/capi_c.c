// a user of the C interface, compiled as C against the public C header
#include <stdlib.h>
#include <string.h>
#include "hiopInterface.h"
#include "capi_c.h"
void* capi_new(int mds, void* user, double* sol, int* rc)
{
  if(mds) {
    cHiopMDSProblem* p = malloc(sizeof(*p)); memset(p, 0xfe, sizeof(*p));
    p->user_data = user; p->solution = sol;
    p->get_starting_point = cb_start; p->get_prob_sizes = cb_sizes; p->get_vars_info = cb_vars; p->get_cons_info = cb_cons_info;
    p->eval_f = cb_f; p->eval_grad_f = cb_grad; p->eval_cons = cb_cons; p->get_sparse_dense_blocks_info = cb_blocks;
    p->eval_Jac_cons = cb_jac_mds; p->eval_Hess_Lagr = cb_hess_mds;
    *rc = hiop_mds_create_problem(p);
    return p;
  } else {
    cHiopDenseProblem* p = malloc(sizeof(*p)); memset(p, 0xfe, sizeof(*p));
    p->user_data = user; p->solution = sol;
    p->get_starting_point = cb_start; p->get_prob_sizes = cb_sizes; p->get_vars_info = cb_vars; p->get_cons_info = cb_cons_info;
    p->eval_f = cb_f; p->eval_grad_f = cb_grad; p->eval_cons = cb_cons; p->eval_Jac_cons = cb_jac;
    *rc = hiop_dense_create_problem(p);
    return p;
  }
}
void capi_moved(int mds, void* prob, void* user, double* sol)
{
  if(mds) { cHiopMDSProblem* p = prob; p->user_data = user; p->solution = sol; }
  else { cHiopDenseProblem* p = prob; p->user_data = user; p->solution = sol; }
}
void capi_solve(int mds, void* prob, struct capi_res* r)
{
  if(mds) { cHiopMDSProblem* p = prob; r->rc = hiop_mds_solve_problem(p); r->obj = p->obj_value; r->has_status = 0; r->status = r->niters = 0; }
  else { cHiopDenseProblem* p = prob; r->rc = hiop_dense_solve_problem(p); r->obj = p->obj_value; r->status = p->status; r->niters = p->niters; r->has_status = 1; }
}
int capi_free(int mds, void* prob)
{
  int rc = mds ? hiop_mds_destroy_problem(prob) : hiop_dense_destroy_problem(prob);
  free(prob);
  return rc;
}
