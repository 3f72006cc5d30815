#include "problems.hpp"
#include "MatrixType.hpp"
// N unknowns, SUB/SUP bandwidths, HESS: Hessenberg option, NUMJ: numerical Jacobian
template<int N,int SUB,int SUP,bool HESS,bool NUMJ,int METHOD=1,bool AUT=true,bool DFT=false> struct Problem
{
  static const int n=N,nsub=SUB,nsup=SUP;
  static const bool Hessenberg=HESS,ComputeJacobianNumerically=NUMJ,autonomous=AUT,use_DF_t=DFT;
  static const int method=METHOD;
  typedef typename odes::Matrixtype<N,SUB,SUP>::Matrix Matrix;
  void operator()(double t,double y[],double res[]) const { user_rhs(N,t,y,res); }
  void Jacobian(double t,odes::fortranVector y,const odes::fortranVector Fy,Matrix& Jac)
  {
    user_jac_call(N,t,&y,&Fy);
    for(int j=1;j<=N;j++)
      for(int i=(j-SUP>1?j-SUP:1);i<=(j+SUB<N?j+SUB:N);i++)
        Jac(i,j)=user_jac(i,j,N,t,&y,&Fy);
  }
  void DF_t(double t,const odes::fortranVector y,odes::fortranVector& DFt) { user_dft(N,t,&y,&DFt); }
};
