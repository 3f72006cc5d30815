#include "Rock4L.hpp"
#include "prob_other.hpp"
#include <new>
#ifndef AFFINE
#define AFFINE false
#endif
typedef odes::Rock4L<LinProblem, AFFINE> R;
extern "C" {
unsigned long h_size() { return sizeof(R); }
void h_prob(LinProblem *p, int n) { p->N = n; }
double *h_alloc(int n) { return odes::allocDoubleArray(n); }
void h_free(double *p) { odes::destroyDoubleArray(p); }
void h_ctor(R *p, LinProblem *f) { new(p) R(*f); }
void h_dtor(R *p) { p->~R(); }
void h_run(R *p, double *y, double t0, double tend, double h) { (*p)(y, t0, tend, h); }
void h_runb(R *p, double *y, double *b, double t0, double tend, double h) { (*p)(y, b, t0, tend, h); }
int h_stages(R *p) { return p->NbStages(); }
int h_nfcn(R *p) { return p->NbRhsComputed(); }
int h_nstep(R *p) { return p->NbSteps(); }
double h_time(R *p) { return p->Time(); }
}
