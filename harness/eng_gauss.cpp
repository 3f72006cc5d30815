#include "SymplecticRK.hpp"
#include "prob_other.hpp"
#include <new>
#ifndef STAGES
#define STAGES 2
#endif
#ifndef DIM
#define DIM 2
#endif
#ifdef LONGD
typedef long double D;
typedef odes::SymplecticRK<GaussProblemL<DIM>, STAGES, D> R;
#else
typedef double D;
typedef odes::SymplecticRK<GaussProblem<DIM>, STAGES, D> R;
#endif
typedef odes::GaussianMethod<STAGES, D> G;
extern "C" {
unsigned long h_size() { return sizeof(R); }
unsigned long h_gsize() { return sizeof(G); }
void h_gctor(G *p) { new(p) G; }
void h_gchange(G *p, D h) { p->change_h(h); }
D h_ga(G *p, int i, int j) { return p->A(i, j); }
D h_gb(G *p, int i) { return p->b[i]; }
void h_ctor(R *p, int itermax) { new(p) R(itermax); }
void h_dtor(R *p) { p->~R(); }
bool h_step(R *p, D h, D *u, bool *first) { return p->step(h, u, *first); }
int h_iter(R *p) { return p->maxIter(); }
D h_diff(R *p) { return p->lastdiff(); }
}
