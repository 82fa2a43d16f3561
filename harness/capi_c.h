// what the C side (capi_c.c, compiled as C against hiopInterface.h) offers to the harness
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
struct capi_res { double obj; int status, niters, has_status, rc; };
void* capi_new(int mds, void* user, double* sol, int* rc);
void capi_solve(int mds, void* prob, struct capi_res* r);
int capi_free(int mds, void* prob);
void capi_moved(int mds, void* prob, void* user, double* sol);
// callbacks implemented by the harness
int cb_start(int n, double* x0, void* u);
int cb_sizes(int* n, int* m, void* u);
int cb_vars(int n, double* l, double* h, void* u);
int cb_cons_info(int m, double* l, double* h, void* u);
int cb_f(int n, double* x, int nx, double* f, void* u);
int cb_grad(int n, double* x, int nx, double* g, void* u);
int cb_cons(int n, int m, double* x, int nx, double* c, void* u);
int cb_jac(int n, int m, double* x, int nx, double* J, void* u);
int cb_blocks(int* ns, int* nd, int* neq, int* nin, int* hss, int* hsd, void* u);
int cb_jac_mds(int n, int m, double* x, int nx, int ns, int nd, int nnz, int* i, int* j, double* v, double* J, void* u);
int cb_hess_mds(int n, int m, double* x, int nx, double of, double* lam, int nl, int ns, int nd, int nnz, int* i, int* j, double* v, double* H, int nsd, int* isd, int* jsd, double* vsd, void* u);
#ifdef __cplusplus
}
#endif
