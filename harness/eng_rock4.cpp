#include "Rock4.hpp"
#include "prob_other.hpp"
#include <new>
typedef odes::Rock4<RockProblem> R;
extern "C" {
unsigned long h_size() { return sizeof(R); }
void h_prob(RockProblem *p, int n) { p->N = n; }
double *h_alloc(int n) { return odes::allocDoubleArray(n); }
void h_free(double *p) { odes::destroyDoubleArray(p); }
void h_ctor(R *p, RockProblem *f) { new(p) R(*f); }
void h_dtor(R *p) { p->~R(); }
void h_tol(R *p, double a, double r) { p->setTolerances(a, r); }
void h_run(R *p, double **y, double t0, double tend, double h) { (*p)(*y, t0, tend, h); }
int h_stages(R *p) { return p->NbStages(); }
int h_nfcn(R *p) { return p->NbRhsComputed(); }
int h_nstep(R *p) { return p->NbSteps(); }
int h_nacc(R *p) { return p->NbAccepted(); }
int h_nrej(R *p) { return p->NbRejected(); }
double h_last(R *p) { return p->LastAcceptedTimeStep(); }
}
