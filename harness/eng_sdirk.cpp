#include "Sdirkl.hpp"
#include "EulerImp.hpp"
#include "CrN.hpp"
#include "RKRS.hpp"
#include "RKMethod1.hpp"
#include "RKMethod2.hpp"
#include "prob_other.hpp"
#include <new>
#ifndef METHOD
#define METHOD CrN
#endif
typedef odes::Sdirkl<odes::METHOD, OpLin> R;
extern "C" {
unsigned long h_size() { return sizeof(R); }
int h_nstage() { return odes::METHOD::nstage; }
void h_ctor(R *p, int n, double dt, bool affine) { new(p) R(n, dt, affine); }
void h_dtor(R *p) { p->~R(); }
void h_step(R *p, double *y) { p->step(y); }
void h_stepb(R *p, double *y, double *phi) { p->step(y, phi); }
}
