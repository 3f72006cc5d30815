#ifdef HESSSTUB
#include "hess_stub.hpp"
#endif
// C entry points around one instantiation of an implicit integrator (CLS, N, SUB, SUP, ... from the command line)
#ifdef RADAU
#include "Radau5cc.hpp"
#else
#include "Rodascc.hpp"
#endif
#include "prob_implicit.hpp"
#include <new>
#ifndef METHOD_
#define METHOD_ 1
#endif
#ifndef AUT_
#define AUT_ true
#endif
#ifndef DFT_
#define DFT_ false
#endif
typedef Problem<N_,SUB_,SUP_,HESS_,NUMJ_,METHOD_,AUT_,DFT_> Pb;
#ifdef RADAU
typedef odes::Radau5cc<Pb> R;
#else
typedef odes::Rodascc<Pb> R;
#endif
extern "C" {
unsigned long h_size() { return sizeof(R); }
void h_ctor(R *p, bool same, double *a, double *r) { new(p) R(same, a, r); }
void h_dtor(R *p) { p->~R(); }
void h_run(R *p, double h, double *x, double xend, double *y) { (*p)(h, *x, xend, y); }
void h_tol(R *p, bool same, double *a, double *r) { p->setTestPolicy(same, a, r); }
void h_one(R *p, bool v) { p->performOnlyOneStep(v); }
void h_safe(R *p, double v) { p->setSafe(v); }
void h_gus(R *p, bool v) { p->setGustafssonTest(v); }
void h_nmax(R *p, int v) { p->setNmax(v); }
int h_nstep(R *p) { return p->getNstep(); }
int h_naccpt(R *p) { return p->getNaccpt(); }
int h_nrejct(R *p) { return p->getNrejct(); }
int h_njac(R *p) { return p->getNJac(); }
int h_ndec(R *p) { return p->getNdec(); }
double h_first(R *p) { return p->getfirstAcceptedStep(); }
double h_last(R *p) { return p->getLastTimeStep(); }
#ifdef RADAU
void h_thet(R *p, double v) { p->setRecomputeJacobianTreshold(v); }
void h_nit(R *p, int v) { p->setMaxIterationsNewton(v); }
void h_fac(R *p, double a, double b) { p->setFacrFacl(a, b); }
void h_fnewt(R *p, double v) { p->setFnewt(v); }
int h_newt(R *p) { return p->getNewt(); }
int h_nfcn(R *p) { return p->getNfoncCalled(); }
#endif
}
