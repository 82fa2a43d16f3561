// Stand-in for the HSL MA57 library (not available offline): the same Fortran entry points, answered by a dense
// Bunch-Kaufman factorisation (LAPACK dsytrf). It lets HiOp's sparse code be built and solved with.
#include <cmath>
#include <cstring>
#include <vector>
extern "C" {
void dsytrf_(const char*, const int*, double*, const int*, int*, double*, const int*, int*);
void dsytrs_(const char*, const int*, const int*, const double*, const int*, const int*, double*, const int*, int*);

void ma57id_(double cntl[], int icntl[])
{
  for(int i = 0; i < 5; i++) cntl[i] = 0.;
  for(int i = 0; i < 20; i++) icntl[i] = 0;
  cntl[0] = 0.01; cntl[1] = 1e-20; cntl[2] = 0.5;
  icntl[0] = 6; icntl[1] = 6; icntl[2] = 6; icntl[3] = -1; icntl[4] = 2; icntl[5] = 5; icntl[6] = 1; icntl[8] = 10; icntl[10] = 16; icntl[11] = 16; icntl[12] = 10; icntl[13] = 100; icntl[14] = 1;
}
void ma57ad_(int* n, int* ne, int irn[], int jcn[], int* lkeep, int keep[], int[], int[], int info[], double[])
{
  for(int i = 0; i < 40; i++) info[i] = 0;
  if(*lkeep < 5 * *n + *ne + (*n > *ne ? *n : *ne) + 42) { info[0] = -2; return; }
  keep[0] = *n; keep[1] = *ne;
  for(int k = 0; k < *ne; k++) {
    keep[2 + 2 * k] = irn[k]; keep[3 + 2 * k] = jcn[k];
    if(irn[k] < 1 || irn[k] > *n || jcn[k] < 1 || jcn[k] > *n) info[0] = 1, info[2]++;   // out of range entries are ignored
  }
  info[8] = *n * *n + 1; info[9] = *n + 1;
}
void ma57bd_(int* n, int* ne, double a[], double fact[], int* lfact, int ifact[], int* lifact, int*, int keep[], int[], int*, double cntl[], int info[], double[])
{
  const int N = *n;
  for(int i = 0; i < 40; i++) info[i] = 0;
  if(keep[0] != N || keep[1] != *ne) { info[0] = -1; return; }
  if(*lfact < N * N) { info[0] = -3; info[16] = N * N; return; }
  if(*lifact < N) { info[0] = -4; info[17] = N; return; }
  for(int i = 0; i < N * N; i++) fact[i] = 0.;
  for(int k = 0; k < *ne; k++) {
    int i = keep[2 + 2 * k] - 1, j = keep[3 + 2 * k] - 1;
    if(i < 0 || j < 0 || i >= N || j >= N) continue;
    if(i < j) { int t = i; i = j; j = t; }
    fact[(size_t)j * N + i] += a[k];
  }
  int lw = 64 * N + 64, rc = 0; std::vector<double> w(lw);
  dsytrf_("L", n, fact, n, ifact, w.data(), &lw, &rc);
  int neg = 0, rank = N;
  for(int k = 0; k < N; k++) {
    double d = fact[(size_t)k * N + k];
    if(ifact[k] > 0) {
      if(!(std::fabs(d) > cntl[1])) rank--; else if(d < 0) neg++;
    } else {   // 2x2 block
      double e = fact[(size_t)k * N + k + 1], f = fact[(size_t)(k + 1) * N + k + 1], det = (d / std::fabs(e)) * (f / std::fabs(e)) - 1.;
      if(det < 0) neg++; else if(d < 0) neg += 2;
      if(!(std::fabs(det) > 0)) rank--;
      k++;
    }
  }
  info[23] = neg; info[24] = rank;
  if(rank < N) info[0] = 4;
}
void ma57cd_(int*, int* n, double fact[], int*, int ifact[], int*, int* nrhs, double rhs[], int* lrhs, double[], int*, int[], int[], int info[])
{
  int rc; info[0] = 0;
  dsytrs_("L", n, nrhs, fact, n, ifact, rhs, lrhs, &rc);
  if(rc) info[0] = -1;
}
void ma57dd_(int* job, int* n, int* ne, double a[], int irn[], int jcn[], double fact[], int*, int ifact[], int*, double rhs[], double x[], double resid[], double[], int[], int[], double[], int info[], double[])
{
  const int N = *n, one = 1; int rc;
  info[0] = 0;
  if(*job != 1) { info[0] = -1; return; }
  for(int i = 0; i < N; i++) x[i] = rhs[i];
  dsytrs_("L", n, &one, fact, n, ifact, x, n, &rc);
  for(int i = 0; i < N; i++) resid[i] = rhs[i];
  for(int k = 0; k < *ne; k++) {
    int i = irn[k] - 1, j = jcn[k] - 1;
    resid[i] -= a[k] * x[j];
    if(i != j) resid[j] -= a[k] * x[i];
  }
  if(rc) info[0] = -1;
}
void ma57ed_(int*, int*, int[], double[], int*, double*, int*, int[], int*, int[], int*, int* info) { info[0] = -99; }
}
