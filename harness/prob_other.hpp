#include "problems.hpp"
struct RockProblem
{
  int N;
  RockProblem(int n): N(n) {}
  int size() { return N; }
  double rho() { return user_rho(this); }
  void operator()(double *x, double *y) const { user_rhs0(N, x, y); }
};
struct LinProblem
{
  int N;
  LinProblem(int n): N(n) {}
  int size() { return N; }
  double rho() { return user_rho(this); }
  void operator()(double *in, double *s, double a, double b, double *out) { user_linop(1, N, in, s, a, b, 0., 0, out); }
  void operator()(double *in, double *s, double a, double b, double *g, double *out) { user_linop(2, N, in, s, a, b, 0., g, out); }
  void operator()(double *in, double *s, double a, double b, double c, double *out) { user_linop(3, N, in, s, a, b, c, 0, out); }
  void operator()(double *in, double *s, double a, double b, double c, double *g, double *out) { user_linop(4, N, in, s, a, b, c, g, out); }
};
struct OpLin
{
  int N;
  void init(int n, double d) { N = n; user_op_init(this, n, d); }
  void apply(double in[], double out[]) { user_op_apply(this, N, in, out); }
};
template<int N> struct GaussProblem
{
  static const int n = N;
  void operator()(double *y, double *r) { user_rhs0(N, y, r); }
};
template<int N> struct GaussProblemL
{
  static const int n = N;
  void operator()(long double *y, long double *r) { user_rhsl(N, y, r); }
};
