// User-side problem classes, all of whose code is external to the analysed
// program: what a user function computes is unknown to the analyser.
#ifndef VERIF_PROBLEMS_H
#define VERIF_PROBLEMS_H
#include <cstddef>
extern "C" {
void user_rhs(long n, double t, const double *y, double *r);
void user_jac_call(long n, double t, const double *y, const double *fy);
double user_jac(long i, long j, long n, double t, const double *y, const double *fy);
void user_dft(long n, double t, const double *y, double *d);
void user_rhs0(long n, const double *y, double *r);
void user_rhsl(long n, const long double *y, long double *r);
double user_rho(void *self);
int user_size(void *self);
void user_linop(long kind, long n, const double *in, const double *s, double a, double b, double c, const double *g, double *out);
void user_op_init(void *self, long n, double d);
void user_op_apply(void *self, long n, const double *in, double *out);
void probe(const char *tag, double v);
}
#endif
