// Stands in for common/include/Hessenberg.hpp in the analysis of the integrators: the routines become calls whose
// contract (the one checked for the real routines by C16) is known to the analysis.
#ifndef HESSENBERG__H
#define HESSENBERG__H
#include "fortranArray.hpp"
#include "fortranVector.hpp"
using namespace odes;
#define MIN(x,y) ((x)<(y)?(x):(y))
#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
extern "C" {
int user_dech(int n,double *A,int *ip);
void user_solh(int n,double *A,int *ip,double *B);
int user_dechc(int n,double *Ar,double *Ai,int *ip);
void user_solhc(int n,double *Ar,double *Ai,int *ip,double *Br,double *Bi);
void user_householder(int n,double *A,double *tau,double *X,double *Y,int direct);
}
namespace odes{
template<int n> int dech(fortranArray<n>& A,int ip[]) { return user_dech(n,&const_cast<fortranArray<n>&>(A),ip); }
template<int n> void solh(const fortranArray<n>& A,const int ip[],fortranVector& B) { user_solh(n,&const_cast<fortranArray<n>&>(A),(int*)ip,&B); }
template<int n> int dechc(fortranArray<n>& Ar,fortranArray<n>& Ai,int ip[]) { return user_dechc(n,&const_cast<fortranArray<n>&>(Ar),&const_cast<fortranArray<n>&>(Ai),ip); }
template<int n> void solhc(const fortranArray<n>& Ar,const fortranArray<n>& Ai,const int ip[],fortranVector& Br,fortranVector& Bi)
{ user_solhc(n,&const_cast<fortranArray<n>&>(Ar),&const_cast<fortranArray<n>&>(Ai),(int*)ip,&Br,&Bi); }
template<int n> void householder(const fortranArray<n>& A,const double tau[],const fortranVector& X,fortranVector& Y,bool direct)
{ user_householder(n,&const_cast<fortranArray<n>&>(A),(double*)tau,&X,&Y,direct); }
}
#endif
