From b5a2941cba32dd4e38680a359d4f560caa0f793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 01/29] fix: absolute value of an expression was wrong when
 negative

ABS(a) expanded to (-a) without parentheses, so ABS(xend-x) was -xend-x for
xend<x: backward integration used a wrong maximal step.
---
 Radau5-NG/include/Radau5cc.hpp        | 2 +-
 Rock4-NG/include/ToolOMP.hpp          | 2 +-
 Rodas-NG/include/Rodascc.hpp          | 2 +-
 SymplecticRK/include/SymplecticRK.hpp | 2 +-
 common/include/Hessenberg.hpp         | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 22d5e0c..0c202ca 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -14,7 +14,7 @@
 #endif
 #define MAX(x,y) ((x)>(y)?(x):(y))
 #define MIN(x,y) ((x)<(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 #define SIGN(a) (((a) >= (0.0)) ? (1.) : (-1.))
 namespace odes
 {
diff --git a/Rock4-NG/include/ToolOMP.hpp b/Rock4-NG/include/ToolOMP.hpp
index 55dfd29..576689b 100644
--- a/Rock4-NG/include/ToolOMP.hpp
+++ b/Rock4-NG/include/ToolOMP.hpp
@@ -3,7 +3,7 @@
 #include "Rock4Coeffs.hpp"
 #include "MacrosForCompilers.hpp"
 #include "OdesException.hpp"
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 using namespace std;
 namespace odes {
   ///////////////////////////////////////////////////////////////////////////
diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 13f62e4..e3780fc 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -13,7 +13,7 @@
 #endif
 #define MAX(x,y) ((x)>(y)?(x):(y))
 #define MIN(x,y) ((x)<(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 #define SIGN(a) (((a) >= (0.0)) ? (1.) : (-1.))
 namespace odes
 {
diff --git a/SymplecticRK/include/SymplecticRK.hpp b/SymplecticRK/include/SymplecticRK.hpp
index e3400ba..4929ba2 100644
--- a/SymplecticRK/include/SymplecticRK.hpp
+++ b/SymplecticRK/include/SymplecticRK.hpp
@@ -6,7 +6,7 @@
 #include "Extrap.hpp"
 #include <iostream>
 #define MAX(x,y) ((x)>(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 using namespace std;
 namespace odes{
 ///////////////////////////////////////////////////////////////////////////
diff --git a/common/include/Hessenberg.hpp b/common/include/Hessenberg.hpp
index 377a6db..72b5480 100644
--- a/common/include/Hessenberg.hpp
+++ b/common/include/Hessenberg.hpp
@@ -4,7 +4,7 @@
 #include "fortranVector.hpp"
 using namespace odes;
 #define MIN(x,y) ((x)<(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 /////////////////////////////////////////////////////////////////////////////
 /// All what is necessary to compute with Hessenberg matrices (but not
 /// the reduction of a full matrix to Hessenberg form (see Matrices.hpp).
-- 
2.43.0


From 643b572ca0e0dc3e59b99ae542f176aafe0274d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 02/29] fix: fortranVectorF::put copied the vector onto itself

Rodas never returned its solution in the caller's array.
---
 common/include/fortranVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/fortranVector.hpp b/common/include/fortranVector.hpp
index b361a26..71de7d2 100644
--- a/common/include/fortranVector.hpp
+++ b/common/include/fortranVector.hpp
@@ -410,7 +410,7 @@ public:
       ASSUME_ALIGNED(x);ASSUME_ALIGNED(_x);
 #include "Ivdep.hpp"
       for(int i=0;i<n;i++)
-	y[i]=x[i];
+	_x[i]=x[i];
     }
     //! print
     void print(string s="") const
-- 
2.43.0


From 7c19781067f7eb029eeffadc8b3f6b3e3b9281b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 03/29] fix: Rodas read vector tolerances one position too far

---
 Rodas-NG/include/Rodascc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index e3780fc..4a050e5 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -232,8 +232,8 @@ namespace odes
 #include "Ivdep.hpp"
 	  for(int i=1;i<=n;i++)
 	    {
-	      rtol(i)=_rtol[i];
-	      atol(i)=_atol[i];
+	      rtol(i)=_rtol[i-1];
+	      atol(i)=_atol[i-1];
 	    }
 	}
     }
-- 
2.43.0


From 569209c5dcfb9884048bdf0faf4c8f9d610e6e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 04/29] fix: Radau accepted non converged Newton iterations

Once a step had converged, reaching the maximum number of Newton iterations
went on to the error estimation with the non converged stages (and the
already halved step). Such a step is now rejected and redone; if it was the
last one, the shortened step is not the last one any more.
---
 Radau5-NG/include/Radau5cc.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 0c202ca..3facdb9 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -540,6 +540,9 @@ namespace odes
 	      redonewton=false;
 	    else
 	      {
+		// unexpected step rejection: try again with a smaller step, which
+		// is no more the last one.
+		redonewton=true; reject=true; last=false;
 		if(reason==didNotConverge)
 		  {
 		    //h/=2.; 
@@ -563,7 +566,6 @@ namespace odes
 		else if(reason==willNotConverge)
 		  {
 		    newt=0;
-		    redonewton=true;
 		    if(!caljac) 
 		      {
 			if(ComputeJacobianNumerically)
-- 
2.43.0


From 9528b119c39ccf7dfa1f8acf0b269bfaafeaa37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 05/29] fix: Radau setFacrFacl had no effect

The limits were reset at each integration. They are now kept, and the setter
stores the inverses, as documented: _facl<= h/hold<=_facr.
---
 Radau5-NG/include/Radau5cc.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 3facdb9..0e3ef18 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -402,7 +402,8 @@ namespace odes
     //! \param _facr
     //! \param _facl
     //! \note new step h is chose so that _facl<= h/hold<=facr
-    inline void setFacrFacl(double _facr,double _facl){facr=_facr;facl=_facl;}
+    inline void setFacrFacl(double _facr,double _facl)
+    {facr=1.0/_facr;facl=1.0/_facl;}
     //! perform Gustafsson test? (default yes).
     //! \param val boolean.
     inline void setGustafssonTest(bool val){gustafssonTest=val;}
@@ -456,7 +457,7 @@ namespace odes
       bool redonewton=true; 
       caljac=true;startn=false; first=true;
       reject=false,last=false;
-      cfac=safe*(1+2*nit); facr=1.e+0/8.e+0; facl=5.e+0;
+      cfac=safe*(1+2*nit);
       int reason=0;
       nstep=0; ndec=0;
       //h=_h;
-- 
2.43.0


From 40fbab381dc91f904677c0ce5e0bfc2f37e273bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 06/29] fix: Radau used an uninitialised step when the first
 step was the last

---
 Radau5-NG/include/Radau5cc.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 0e3ef18..d4155d2 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -477,7 +477,6 @@ namespace odes
 	  seth(x,xend-x);
 	  last=true;
 	}
-      else
       hopt=h;
       xold=x;
 
-- 
2.43.0


From f8d5d698a5a9b7e8ce3581580c89eddd9af348bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 07/29] fix: maximum number of steps did not bound repeated
 failures

The limit was only tested between accepted (Rodas) or tested (Radau) steps:
repeated Newton failures or rejections could loop forever.
---
 Radau5-NG/include/Radau5cc.hpp | 6 +++---
 Rodas-NG/include/Rodascc.hpp   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index d4155d2..7d75bb3 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -497,10 +497,10 @@ namespace odes
       for(;;)
 	{
 	  
-	  if(nstep>nmax)
-	    throw OdesException("Radau5cc() nstep=",nstep,"too large, nmax=",
-				  nmax);
 	  do{//20 in Hairer.
+	    if(nstep>nmax)
+	      throw OdesException("Radau5cc() nstep=",nstep,"too large, nmax=",
+				  nmax);
 	    ++nstep;
 	    // starting values for newton iteration:
 	    xph=x+h;
diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 4a050e5..8d7e077 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -364,6 +364,8 @@ namespace odes
 
 	  do
 	    {
+	      if(nstep>nmax)
+		throw OdesException("Rodas(): nstep too large:",nstep);
 	      fac=1./(h*GAMMA);
 	     
 	      decomr(fac,Jac);
@@ -467,8 +469,6 @@ namespace odes
 		}
 	    }
 	  while(reject);
-	  if(nstep>nmax)
-	    throw OdesException("Rodas(): nstep too large:",nstep);
 	  if(onlyOneStep) break;
 	}
       
-- 
2.43.0


From 975887600b271291dcda8b79d3a70dda4a30662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 08/29] fix: Radau in one-step mode advanced the solution but
 not the time

---
 Radau5-NG/include/Radau5cc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 7d75bb3..2ab70c2 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -591,7 +591,6 @@ namespace odes
 	  double hnew=h/quot;
 	  if(err<1.0)
 	    {
-	      if(onlyOneStep) {Y+=Z3;break;}
 	      //step accepted
 	      if(naccpt==0) firstAcceptedStep=h;
 	      first=false;++naccpt;
@@ -611,6 +610,7 @@ namespace odes
 	      xold=x,hold=h;
 	      x=xph;
 	      Y+=Z3;
+	      if(onlyOneStep) break;
 	      
 	      double uC2M1=1./C2M1,uC2=1./C2;
 #include "Ivdep.hpp"
-- 
2.43.0


From 164996c8574e3013791cff3f75a353bb1d6348e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 09/29] fix: counters missed or added calls

Radau did not count the right-hand side evaluation of the second error
estimate, Rock4L counted one more per step than made, Rodas did not count
rejections between the first and the second accepted step.
---
 Radau5-NG/include/Radau5cc.hpp |   1 +
 Rock4-L/include/Rock4L.hpp     | 752 ++++++++++++++++-----------------
 Rodas-NG/include/Rodascc.hpp   |   2 +-
 3 files changed, 378 insertions(+), 377 deletions(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 2ab70c2..9393c94 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -267,6 +267,7 @@ namespace odes
 	 {
 	   CONT1.sum(CONT1,y);
 	   F(t,&CONT1,&F1);
+	   ++nfonccalled;
 	   CONT1.sum(F1,F2);
 	   solvereal(CONT1,Jac);
 	   err=0.0;
diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index c663f4f..8064b38 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -1,376 +1,376 @@
-#ifndef Rock4__h
-#define Rock4__h
-#include "Rock4Coeffs.hpp"
-#include "MacrosForCompilers.hpp"
-#include "AllocateDestroyVector.hpp"
-#include "OdesException.hpp"
-#include "switchAdr.hpp"
-#include <cmath>
-#include <cstdlib>
-using namespace std;
-namespace odes{
-///////////////////////////////////////////////////////////////////////////
-/// A replacement for A. Abdulle rock4.f code for Rock4 method.
-///  *We treat here linear and affine case* ie RHS must be:
-///        x-> Ax
-///    or 
-///        x-> Ax+ B with B independent of time.
-///
-/// Template arguments:
-///      - Fonc: Object function which defines the problem.
-///      - Affine: true iff we treat the affine case.
-///              
-///  The class Fonc must define the following public methods:
-///      1) contructor:  
-///                Fonc(int n) n: size (number of unknowns).
-///      2) destructor.
-///      3)  double rho()
-///            return spectral radius of A: 
-///      4) int size()        
-///            return n, the size of vectors (see contructor).
-///      5) void operator()(double * in, double * s, 
-///                            double a, double b,double *out)
-///           compute out[]= A*a* in[] +b s[]
-///      6) void operator()(double * in, double * s, 
-///                             double a, double b, double *g,double *out)
-///           compute out[]=A*a*in[]+ b*s[] +g[]
-///      7) void operator()(double * in, double * s,
-///                              double a, double b,double c,double *out)
-///           compute out[]==A*a*in[]+ b*in[] + c*s[]
-///      8)  void operator()(double * in, double * s, 
-///                              double a, double b,double c,double *g,
-///                              double *out)
-///           compute out[]==A*a*in[]+ b*in[] + c*s[]+ g[]
-///
-///    where in[], s[], g[] and out[] are vectors of size n.        
-//////////////////////////////////////////////////////////////////////////
-  template<class Fonc,bool Affine=false> class Rock4L
-  {
-    Fonc* Fp;
-    const int size;
-    double atol,rtol;//tolerances for time steps adaptation.
-    double uround,told;
-    double t; 
-    double *fn,*k1,*k2,*temp,*g0,*g1,*g2;
-    double *BigArray;
-    int mp[3],mdeg,funccal,nrej,nsteps,nacc,nstagesmax,sizesplit;
-    Rock4Coeffs Coeffs;
-    double ac[5][4],bc[5],hc[5];
-
-    //! We want to compute polynomial for the 2nd formula in Horner form.
-    //! so we must compute the coefficients in this form.
-    void makeHornerCoeffs()
-    {
-      hc[4]=ac[2][1]*ac[3][2]*ac[4][3]*bc[4]; 
-      hc[3]=ac[2][1]*ac[3][2]*bc[3] + ac[2][1]*ac[4][2]*bc[4] + 
-	ac[3][1]*ac[4][3]*bc[4] + ac[3][2]*ac[4][3]*bc[4];
-      hc[2]= ac[2][1]*bc[2] + ac[3][1]*bc[3] + ac[3][2]*bc[3] + 
-	ac[4][1]*bc[4] + ac[4][2]*bc[4] + ac[4][3]*bc[4];
-      hc[1]= bc[1] + bc[2] + bc[3] + bc[4];
-      hc[0]=1.;
-    } 
-    //! make sub arrays.
-    inline void splitBigArray()
-    {
-      k1=BigArray; g0=k1+size; g1=g0+size; g2=g1+size;
-    }
-    //! permutate 3 adresses g0,g1,g2.
-    //! \param g0 
-    //! \param g1 
-    //! \param g2
-    inline void permut3(double *&g0,double *&g1,double *&g2)
-    {
-      double *temp=g0;
-      g0=g1; g1=g2;g2=temp;
-    }
-   
-    //! find degree of formula.
-    void mdegre(int& mdeg)
-    {
-      mp[2]=1;
-      //-------- Find the degree.--------      
-      for(int i=1;i<=50;i++)
-	{
-	  if ((Coeffs.ms(i)/mdeg)>=1)
-	    {
-	      mdeg=Coeffs.ms(i);
-	      mp[1]=i;
-	      break;
-	    }
-	  else
-	    mp[2]=mp[2]+Coeffs.ms(i)*2-1;
-	}
-    }
-    //! The heart of the computation; perform a dt step, in the linear
-    //! case.
-    //! \param y IN/OUT.
-    //! \param dt time step.
-    //! \note we solve dy/dt= Ay
-     void kernel1(double *y,double dt)
-    {
-      Fonc& F=*Fp;// told=0.;
-      double mz=mp[1],mr=mp[2];
-
-      splitBigArray();
-      //
-      //3 terms recurrence formula:
-      //
-      F(y,y,dt*Coeffs.recf(mr) ,1.0,g1);
- 
-      for(int i=2;i<=mdeg;i++)
-	{
-	  if(i==2)
-	    {
-	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
-	      double temp2=1.0-temp3;
-	      F(g1,y,temp1,temp2,temp3,g2);
-	      permut3(g0,g1,g2);
-
-	    }
-	  else
-	    {
-	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
-	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
-	      double temp2=1.0-temp3;
-	      F(g1,g0,temp1,temp2,temp3,g2);
-	      permut3(g0,g1,g2);
-	    }
-	}
-      switchAdr(g1,g0);
-      temp=g1;
-      funccal+=mdeg+1;
-      ++nsteps;
-      //
-      // result of the recurrence is always in g0.
-      //
-      // The second RK formula (4 steps).
-      //
-      //coefficients:
-      
-      ac[2][1]=dt*Coeffs.fpa(mz,1);
-      ac[3][1]=dt*Coeffs.fpa(mz,2);ac[3][2]=dt*Coeffs.fpa(mz,3);
-      ac[4][1]=dt*Coeffs.fpa(mz,4);ac[4][2]=dt*Coeffs.fpa(mz,5);
-      ac[4][3]=dt*Coeffs.fpa(mz,6);
-      bc[1]=dt*Coeffs.fpb(mz,1);bc[2]=dt*Coeffs.fpb(mz,2);
-      bc[3]=dt*Coeffs.fpb(mz,3);bc[4]=dt*Coeffs.fpb(mz,4);
-      makeHornerCoeffs();
-
-      //
- 
-      F(g0,g0,hc[4],hc[3],k1);
-      F(k1,g0,1.0,hc[2],temp);
-      F(temp,g0,1.0,hc[1],k1);
-      F(k1,g0,1.0,hc[0],y);
-      //
-      funccal+=4;
-
-    }
-    //! The heart of the computation; perform a dt step, in the affine
-    //! case.
-    //! \param y IN/OUT.
-    //! \param b the constant in time part of the RHS
-    //! \param dt time step.
-    //! \note we solve dy/dt= Ay + B, with a constant B.
-    void kernel2(double *y,double *b,double dt)
-    {
-   
-      //g1=temp;
-      Fonc& F=*Fp;// told=0.;
-      double mz=mp[1],mr=mp[2];
-
-      splitBigArray();
-      //
-      //3 terms recurrence formula:
-      //
-      F(y,y,dt*Coeffs.recf(mr) ,1.0,b,g1);
- 
-      for(int i=2;i<=mdeg;i++)
-	{
-	  if(i==2)
-	    {
-	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
-	      double temp2=1.0-temp3;
-	      F(g1,y,temp1,temp2,temp3,b,g2);
-	      permut3(g0,g1,g2);
-
-	    }
-	  else
-	    {
-	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
-	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
-	      double temp2=1.0-temp3;
-	      F(g1,g0,temp1,temp2,temp3,b,g2);
-	      permut3(g0,g1,g2);
-	    }
-	}
-      switchAdr(g1,g0);
-      temp=g1;
-      funccal+=mdeg+1;
-      ++nsteps;
-      //
-      // result of the recurrence is always in g0.
-      //
-      // The second RK formula (4 steps).
-      //
-      //coefficients:
-      
-      ac[2][1]=Coeffs.fpa(mz,1);
-      ac[3][1]=Coeffs.fpa(mz,2);ac[3][2]=Coeffs.fpa(mz,3);
-      ac[4][1]=Coeffs.fpa(mz,4);ac[4][2]=Coeffs.fpa(mz,5);
-      ac[4][3]=Coeffs.fpa(mz,6);
-      bc[1]=Coeffs.fpb(mz,1);bc[2]=Coeffs.fpb(mz,2);
-      bc[3]=Coeffs.fpb(mz,3);bc[4]=Coeffs.fpb(mz,4);
-      makeHornerCoeffs();
-      double dt2=dt*dt, dt3= dt2*dt;
-      //
-      F(g0,b,dt,dt,k1);// dt A g0+ dt b -> k1
-
-      // now we have a polynomial of degree 3 to evaluate: 
-      F(k1,k1,hc[4]*dt3,hc[3]*dt2,g1);
-      F(g1,k1,1.0,hc[2]*dt,g2);
-      F(g2,k1,1.0,hc[1],g1);
-      // finish:
-      ASSUME_ALIGNED(y);ASSUME_ALIGNED(g0);ASSUME_ALIGNED(g1);
-#include "Ivdep.hpp"
-      for(int i=0;i<size;i++)
-	y[i]=g0[i]+g1[i];
-      
-      funccal+=4;
-
-    }
-
-  public:
-    //! constructor
-    //! \param  F RHS.
-    Rock4L(Fonc& F): Fp(&F),size(Fp->size())
-    {
-      int bk=BLOCK_FACTOR/sizeof(double);
-      sizesplit=BLOCK_FACTOR*(size/bk+ size%bk==0? 0:1);
-      BigArray=allocDoubleArray(4*size);//Allocate(4*size);
-      splitBigArray();
-       // do not allocate Vtemp. 
-      uround=1.e-16;
-    }
-    //! destructor
-    ~Rock4L()
-    {
-      //Suppress(BigArray);
-      destroyDoubleArray(BigArray);
-    }
-    
-    //! number of stages used (we count both methods).
-    inline int NbStages() const {return nstagesmax;}
-    //! number of RHS computed
-    inline int NbRhsComputed() const {return funccal;}
-    //! number of steps performed.
-    inline int NbSteps() const {return nsteps;}
-    //! return a correctly aligned vector, for unknowns.
-    //inline double* alloc_vec() {return Allocate(size);} 
-    //! delete a vector allocated with alloc_vec()
-    //inline void delete_vec(double * v){Suppress(v);}
-    //! number of unknowns.
-    inline int nbUnkn() const {return size;}
-    //! value of "time":
-    inline double Time() const {return t;}
-    
-    //! operator() performs the step IN THE LINEAR CASE, delegating to kernel1.
-    //! \param  y IN/OUT. Initial values on input, final values on output.
-    //! \param t0 initial value of time
-    //! \param tend final time.
-    //! \param _h proposed time step.
-    //! \note We integrate from t0 to tend
-    //! \note  we solve dy/dt= Ay.
-    void operator()(double *y,double t0,double tend, double _h)
-    {
-      if(Affine)
-	throw OdesException("Rock4::operator() called as affine");
-      int mdego=0; nsteps=0;
-      nrej=0; nacc=0;nstagesmax=0;
-      Fonc& F=*Fp;
-      int pass=0;
-      funccal=0;
-      t=t0;
-      double h=_h;
-      told=0.0;
-      double eigmax=F.rho();
-      
-      while(t<tend)
-	{
-	  if(1.01e0*h>=abs(tend-t))
-	    h=abs(tend-t);
-
-	  if (h<10.0e0*uround)
-	    throw OdesException("Rock4: step too small h=",h,"limit:",
-				     10.0e0*uround);
-
-	  ++pass;
-	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
-	  if (mdeg>152)
-	    throw OdesException("Rock4: degree limited to 152."
-				   "Here you need:",mdeg,
-				   "You should decrease time step");
-	  mdeg=max(mdeg,5)-4;
-	  if(mdeg!=mdego)
-	    {
-	      mdegre(mdeg);
-	      mdego=mdeg;
-	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
-	    }
-	  kernel1(y,h);
-	  t+=h;
-	  if(t+h>tend) h=tend-t;
-	}
-    }
-    //! operator() performs the step IN THE AFFINE CASE, delegating to kernel1.
-    //! \param  y IN/OUT. Initial values on input, final values on output.
-    //! \param b RHS.
-    //! \param t0 initial value of time
-    //! \param tend final time.
-    //! \param _h proposed time step.
-    //! \note We integrate from t0 to tend
-    //! \note we solve dy/dt= Ay+b.
-    void operator()(double *y,double *b, double t0,double tend, double _h)
-    {
-      if(!Affine)
-	throw OdesException("Rock4::operator() called as not affine");
-      int mdego=0; nsteps=0;
-      nrej=0; nacc=0;nstagesmax=0;
-      Fonc& F=*Fp;
-      int pass=0;
-      funccal=0;
-      t=t0;
-      double h=_h;
-      told=0.0;
-      double eigmax=F.rho();
-      
-      while(t<tend)
-	{
-	  if(1.01e0*h>=abs(tend-t))
-	    h=abs(tend-t);
-
-	  if (h<10.0e0*uround)
-	    throw OdesException("Rock4: step too small h=",h,"limit:",
-				     10.0e0*uround);
-
-	  ++pass;
-	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
-	  if (mdeg>152)
-	    throw OdesException("Rock4: degree limited to 152."
-				   "Here you need:",mdeg,
-				   "You should decrease time step");
-	  mdeg=max(mdeg,5)-4;
-	  if(mdeg!=mdego)
-	    {
-	      mdegre(mdeg);
-	      mdego=mdeg;
-	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
-	    }
-	  kernel2(y,b,h);
-	  t+=h;
-	  if(t+h>tend) h=tend-t;
-	}
-    }
-  };
-};
-
-#endif
+#ifndef Rock4__h
+#define Rock4__h
+#include "Rock4Coeffs.hpp"
+#include "MacrosForCompilers.hpp"
+#include "AllocateDestroyVector.hpp"
+#include "OdesException.hpp"
+#include "switchAdr.hpp"
+#include <cmath>
+#include <cstdlib>
+using namespace std;
+namespace odes{
+///////////////////////////////////////////////////////////////////////////
+/// A replacement for A. Abdulle rock4.f code for Rock4 method.
+///  *We treat here linear and affine case* ie RHS must be:
+///        x-> Ax
+///    or 
+///        x-> Ax+ B with B independent of time.
+///
+/// Template arguments:
+///      - Fonc: Object function which defines the problem.
+///      - Affine: true iff we treat the affine case.
+///              
+///  The class Fonc must define the following public methods:
+///      1) contructor:  
+///                Fonc(int n) n: size (number of unknowns).
+///      2) destructor.
+///      3)  double rho()
+///            return spectral radius of A: 
+///      4) int size()        
+///            return n, the size of vectors (see contructor).
+///      5) void operator()(double * in, double * s, 
+///                            double a, double b,double *out)
+///           compute out[]= A*a* in[] +b s[]
+///      6) void operator()(double * in, double * s, 
+///                             double a, double b, double *g,double *out)
+///           compute out[]=A*a*in[]+ b*s[] +g[]
+///      7) void operator()(double * in, double * s,
+///                              double a, double b,double c,double *out)
+///           compute out[]==A*a*in[]+ b*in[] + c*s[]
+///      8)  void operator()(double * in, double * s, 
+///                              double a, double b,double c,double *g,
+///                              double *out)
+///           compute out[]==A*a*in[]+ b*in[] + c*s[]+ g[]
+///
+///    where in[], s[], g[] and out[] are vectors of size n.        
+//////////////////////////////////////////////////////////////////////////
+  template<class Fonc,bool Affine=false> class Rock4L
+  {
+    Fonc* Fp;
+    const int size;
+    double atol,rtol;//tolerances for time steps adaptation.
+    double uround,told;
+    double t; 
+    double *fn,*k1,*k2,*temp,*g0,*g1,*g2;
+    double *BigArray;
+    int mp[3],mdeg,funccal,nrej,nsteps,nacc,nstagesmax,sizesplit;
+    Rock4Coeffs Coeffs;
+    double ac[5][4],bc[5],hc[5];
+
+    //! We want to compute polynomial for the 2nd formula in Horner form.
+    //! so we must compute the coefficients in this form.
+    void makeHornerCoeffs()
+    {
+      hc[4]=ac[2][1]*ac[3][2]*ac[4][3]*bc[4]; 
+      hc[3]=ac[2][1]*ac[3][2]*bc[3] + ac[2][1]*ac[4][2]*bc[4] + 
+	ac[3][1]*ac[4][3]*bc[4] + ac[3][2]*ac[4][3]*bc[4];
+      hc[2]= ac[2][1]*bc[2] + ac[3][1]*bc[3] + ac[3][2]*bc[3] + 
+	ac[4][1]*bc[4] + ac[4][2]*bc[4] + ac[4][3]*bc[4];
+      hc[1]= bc[1] + bc[2] + bc[3] + bc[4];
+      hc[0]=1.;
+    } 
+    //! make sub arrays.
+    inline void splitBigArray()
+    {
+      k1=BigArray; g0=k1+size; g1=g0+size; g2=g1+size;
+    }
+    //! permutate 3 adresses g0,g1,g2.
+    //! \param g0 
+    //! \param g1 
+    //! \param g2
+    inline void permut3(double *&g0,double *&g1,double *&g2)
+    {
+      double *temp=g0;
+      g0=g1; g1=g2;g2=temp;
+    }
+   
+    //! find degree of formula.
+    void mdegre(int& mdeg)
+    {
+      mp[2]=1;
+      //-------- Find the degree.--------      
+      for(int i=1;i<=50;i++)
+	{
+	  if ((Coeffs.ms(i)/mdeg)>=1)
+	    {
+	      mdeg=Coeffs.ms(i);
+	      mp[1]=i;
+	      break;
+	    }
+	  else
+	    mp[2]=mp[2]+Coeffs.ms(i)*2-1;
+	}
+    }
+    //! The heart of the computation; perform a dt step, in the linear
+    //! case.
+    //! \param y IN/OUT.
+    //! \param dt time step.
+    //! \note we solve dy/dt= Ay
+     void kernel1(double *y,double dt)
+    {
+      Fonc& F=*Fp;// told=0.;
+      double mz=mp[1],mr=mp[2];
+
+      splitBigArray();
+      //
+      //3 terms recurrence formula:
+      //
+      F(y,y,dt*Coeffs.recf(mr) ,1.0,g1);
+ 
+      for(int i=2;i<=mdeg;i++)
+	{
+	  if(i==2)
+	    {
+	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
+	      double temp2=1.0-temp3;
+	      F(g1,y,temp1,temp2,temp3,g2);
+	      permut3(g0,g1,g2);
+
+	    }
+	  else
+	    {
+	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
+	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
+	      double temp2=1.0-temp3;
+	      F(g1,g0,temp1,temp2,temp3,g2);
+	      permut3(g0,g1,g2);
+	    }
+	}
+      switchAdr(g1,g0);
+      temp=g1;
+      funccal+=mdeg;
+      ++nsteps;
+      //
+      // result of the recurrence is always in g0.
+      //
+      // The second RK formula (4 steps).
+      //
+      //coefficients:
+      
+      ac[2][1]=dt*Coeffs.fpa(mz,1);
+      ac[3][1]=dt*Coeffs.fpa(mz,2);ac[3][2]=dt*Coeffs.fpa(mz,3);
+      ac[4][1]=dt*Coeffs.fpa(mz,4);ac[4][2]=dt*Coeffs.fpa(mz,5);
+      ac[4][3]=dt*Coeffs.fpa(mz,6);
+      bc[1]=dt*Coeffs.fpb(mz,1);bc[2]=dt*Coeffs.fpb(mz,2);
+      bc[3]=dt*Coeffs.fpb(mz,3);bc[4]=dt*Coeffs.fpb(mz,4);
+      makeHornerCoeffs();
+
+      //
+ 
+      F(g0,g0,hc[4],hc[3],k1);
+      F(k1,g0,1.0,hc[2],temp);
+      F(temp,g0,1.0,hc[1],k1);
+      F(k1,g0,1.0,hc[0],y);
+      //
+      funccal+=4;
+
+    }
+    //! The heart of the computation; perform a dt step, in the affine
+    //! case.
+    //! \param y IN/OUT.
+    //! \param b the constant in time part of the RHS
+    //! \param dt time step.
+    //! \note we solve dy/dt= Ay + B, with a constant B.
+    void kernel2(double *y,double *b,double dt)
+    {
+   
+      //g1=temp;
+      Fonc& F=*Fp;// told=0.;
+      double mz=mp[1],mr=mp[2];
+
+      splitBigArray();
+      //
+      //3 terms recurrence formula:
+      //
+      F(y,y,dt*Coeffs.recf(mr) ,1.0,b,g1);
+ 
+      for(int i=2;i<=mdeg;i++)
+	{
+	  if(i==2)
+	    {
+	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
+	      double temp2=1.0-temp3;
+	      F(g1,y,temp1,temp2,temp3,b,g2);
+	      permut3(g0,g1,g2);
+
+	    }
+	  else
+	    {
+	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
+	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
+	      double temp2=1.0-temp3;
+	      F(g1,g0,temp1,temp2,temp3,b,g2);
+	      permut3(g0,g1,g2);
+	    }
+	}
+      switchAdr(g1,g0);
+      temp=g1;
+      funccal+=mdeg;
+      ++nsteps;
+      //
+      // result of the recurrence is always in g0.
+      //
+      // The second RK formula (4 steps).
+      //
+      //coefficients:
+      
+      ac[2][1]=Coeffs.fpa(mz,1);
+      ac[3][1]=Coeffs.fpa(mz,2);ac[3][2]=Coeffs.fpa(mz,3);
+      ac[4][1]=Coeffs.fpa(mz,4);ac[4][2]=Coeffs.fpa(mz,5);
+      ac[4][3]=Coeffs.fpa(mz,6);
+      bc[1]=Coeffs.fpb(mz,1);bc[2]=Coeffs.fpb(mz,2);
+      bc[3]=Coeffs.fpb(mz,3);bc[4]=Coeffs.fpb(mz,4);
+      makeHornerCoeffs();
+      double dt2=dt*dt, dt3= dt2*dt;
+      //
+      F(g0,b,dt,dt,k1);// dt A g0+ dt b -> k1
+
+      // now we have a polynomial of degree 3 to evaluate: 
+      F(k1,k1,hc[4]*dt3,hc[3]*dt2,g1);
+      F(g1,k1,1.0,hc[2]*dt,g2);
+      F(g2,k1,1.0,hc[1],g1);
+      // finish:
+      ASSUME_ALIGNED(y);ASSUME_ALIGNED(g0);ASSUME_ALIGNED(g1);
+#include "Ivdep.hpp"
+      for(int i=0;i<size;i++)
+	y[i]=g0[i]+g1[i];
+      
+      funccal+=4;
+
+    }
+
+  public:
+    //! constructor
+    //! \param  F RHS.
+    Rock4L(Fonc& F): Fp(&F),size(Fp->size())
+    {
+      int bk=BLOCK_FACTOR/sizeof(double);
+      sizesplit=BLOCK_FACTOR*(size/bk+ size%bk==0? 0:1);
+      BigArray=allocDoubleArray(4*size);//Allocate(4*size);
+      splitBigArray();
+       // do not allocate Vtemp. 
+      uround=1.e-16;
+    }
+    //! destructor
+    ~Rock4L()
+    {
+      //Suppress(BigArray);
+      destroyDoubleArray(BigArray);
+    }
+    
+    //! number of stages used (we count both methods).
+    inline int NbStages() const {return nstagesmax;}
+    //! number of RHS computed
+    inline int NbRhsComputed() const {return funccal;}
+    //! number of steps performed.
+    inline int NbSteps() const {return nsteps;}
+    //! return a correctly aligned vector, for unknowns.
+    //inline double* alloc_vec() {return Allocate(size);} 
+    //! delete a vector allocated with alloc_vec()
+    //inline void delete_vec(double * v){Suppress(v);}
+    //! number of unknowns.
+    inline int nbUnkn() const {return size;}
+    //! value of "time":
+    inline double Time() const {return t;}
+    
+    //! operator() performs the step IN THE LINEAR CASE, delegating to kernel1.
+    //! \param  y IN/OUT. Initial values on input, final values on output.
+    //! \param t0 initial value of time
+    //! \param tend final time.
+    //! \param _h proposed time step.
+    //! \note We integrate from t0 to tend
+    //! \note  we solve dy/dt= Ay.
+    void operator()(double *y,double t0,double tend, double _h)
+    {
+      if(Affine)
+	throw OdesException("Rock4::operator() called as affine");
+      int mdego=0; nsteps=0;
+      nrej=0; nacc=0;nstagesmax=0;
+      Fonc& F=*Fp;
+      int pass=0;
+      funccal=0;
+      t=t0;
+      double h=_h;
+      told=0.0;
+      double eigmax=F.rho();
+      
+      while(t<tend)
+	{
+	  if(1.01e0*h>=abs(tend-t))
+	    h=abs(tend-t);
+
+	  if (h<10.0e0*uround)
+	    throw OdesException("Rock4: step too small h=",h,"limit:",
+				     10.0e0*uround);
+
+	  ++pass;
+	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
+	  if (mdeg>152)
+	    throw OdesException("Rock4: degree limited to 152."
+				   "Here you need:",mdeg,
+				   "You should decrease time step");
+	  mdeg=max(mdeg,5)-4;
+	  if(mdeg!=mdego)
+	    {
+	      mdegre(mdeg);
+	      mdego=mdeg;
+	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
+	    }
+	  kernel1(y,h);
+	  t+=h;
+	  if(t+h>tend) h=tend-t;
+	}
+    }
+    //! operator() performs the step IN THE AFFINE CASE, delegating to kernel1.
+    //! \param  y IN/OUT. Initial values on input, final values on output.
+    //! \param b RHS.
+    //! \param t0 initial value of time
+    //! \param tend final time.
+    //! \param _h proposed time step.
+    //! \note We integrate from t0 to tend
+    //! \note we solve dy/dt= Ay+b.
+    void operator()(double *y,double *b, double t0,double tend, double _h)
+    {
+      if(!Affine)
+	throw OdesException("Rock4::operator() called as not affine");
+      int mdego=0; nsteps=0;
+      nrej=0; nacc=0;nstagesmax=0;
+      Fonc& F=*Fp;
+      int pass=0;
+      funccal=0;
+      t=t0;
+      double h=_h;
+      told=0.0;
+      double eigmax=F.rho();
+      
+      while(t<tend)
+	{
+	  if(1.01e0*h>=abs(tend-t))
+	    h=abs(tend-t);
+
+	  if (h<10.0e0*uround)
+	    throw OdesException("Rock4: step too small h=",h,"limit:",
+				     10.0e0*uround);
+
+	  ++pass;
+	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
+	  if (mdeg>152)
+	    throw OdesException("Rock4: degree limited to 152."
+				   "Here you need:",mdeg,
+				   "You should decrease time step");
+	  mdeg=max(mdeg,5)-4;
+	  if(mdeg!=mdego)
+	    {
+	      mdegre(mdeg);
+	      mdego=mdeg;
+	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
+	    }
+	  kernel2(y,b,h);
+	  t+=h;
+	  if(t+h>tend) h=tend-t;
+	}
+    }
+  };
+};
+
+#endif
diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 8d7e077..68d1394 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -465,7 +465,7 @@ namespace odes
 		  reject=true;
 		  last=false;
 		  h=hnew;
-		  if(naccpt>1) ++nrejct;
+		  if(naccpt) ++nrejct;
 		}
 	    }
 	  while(reject);
-- 
2.43.0


From 2d56d470f3c28f99f330850c5cf1a34560e6a750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 10/29] fix: singular complex Hessenberg matrices went
 unnoticed

---
 common/include/Matrices.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/include/Matrices.hpp b/common/include/Matrices.hpp
index e08dea0..b4566e7 100644
--- a/common/include/Matrices.hpp
+++ b/common/include/Matrices.hpp
@@ -293,7 +293,10 @@ namespace odes
 	    }
 	  E2R(j,j)+=alpha; E2I(j,j)=beta;
 	}
-      dechc(E2R,E2I,ipi);
+      int info=dechc<n>(E2R,E2I,ipi);
+      if(info!=0)
+	throw OdesException("odes::Matrices::Matrices, decomc (dechc): ",
+			       info);
     }
     inline void solvecomplex(fortranVectorF<n>& Zr,fortranVectorF<n>& Zi,
 			     const fortranArray<n>& Jac)
-- 
2.43.0


From 801b8fbbe767b64a3b24c9bd1796522a5ec24aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 11/29] fix: LAPACK work array was released by the wrong
 routine

---
 common/include/Matrices.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/include/Matrices.hpp b/common/include/Matrices.hpp
index b4566e7..d4ef6c6 100644
--- a/common/include/Matrices.hpp
+++ b/common/include/Matrices.hpp
@@ -250,9 +250,10 @@ namespace odes
 	  k=work[0];
 	  if(lwork<k)
 	    {
-	      if(work!=0) delete[] work;
+	      destroyDoubleArray(work);
+	      work=0; lwork=0;
+	      work=allocDoubleArray(k);
 	      lwork=k;
-	      work=new double[lwork];
 	    }
 	  dgehrd_(&nn,&ilo,&ihi,&Jac,&lda,tau,work,&k,&info);
 	  if(info!=0)
-- 
2.43.0


From 27875ee64078627a460e518a50a046605588d240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 12/29] fix: Hessenberg option read out of bounds for a scalar
 problem

---
 common/include/Hessenberg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/Hessenberg.hpp b/common/include/Hessenberg.hpp
index 72b5480..d34b293 100644
--- a/common/include/Hessenberg.hpp
+++ b/common/include/Hessenberg.hpp
@@ -258,11 +258,11 @@ template<int n> void householder(const fortranArray<n>& A,const double tau[],
   int jbeg,jend,jinc;
   if(direct)
     {
-      jbeg=1;jend=n-1;jinc=1;
+      jbeg=1;jend=n>2? n-1:1;jinc=1;
     }
   else
     {
-      jbeg=n-2; jend=0;jinc=-1;
+      jbeg=n>2? n-2:0; jend=0;jinc=-1;
     }
   for(int j=jbeg;j!=jend;j+=jinc)
     {
-- 
2.43.0


From 72f81e119cd3126509d06c8b2c958dab3e9818d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 13/29] fix: data race in the error norm of the OpenMP Rock4

All threads added to the same variable without a reduction.
---
 Rock4-NG/include/ToolOMP.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rock4-NG/include/ToolOMP.hpp b/Rock4-NG/include/ToolOMP.hpp
index 576689b..789ffa8 100644
--- a/Rock4-NG/include/ToolOMP.hpp
+++ b/Rock4-NG/include/ToolOMP.hpp
@@ -143,7 +143,7 @@ namespace odes {
       ASSUME_ALIGNED(x3);  ASSUME_ALIGNED(x4); 
       ASSUME_ALIGNED(x5);  ASSUME_ALIGNED(y);
 #ifdef ROCK4_OMP
-#pragma omp parallel for
+#pragma omp parallel for reduction(+:ret)
 #endif       
       for(int i=0;i<size;i++)
 	{
-- 
2.43.0


From 23d8e9cbbf06b869887cf4367f9bba5dc0d0ddea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 14/29] fix: headers could not be used from two source files

Functions and full specialisations defined in headers were not inline.
---
 SymplecticRK/sage/generated_coeffs.hpp    | 60 +++++++++++------------
 SymplecticRK/sage/generated_coeffs_co.hpp | 60 +++++++++++------------
 common/include/AllocateDestroyVector.hpp  |  8 +--
 common/include/logger.hpp                 |  2 +-
 4 files changed, 65 insertions(+), 65 deletions(-)

diff --git a/SymplecticRK/sage/generated_coeffs.hpp b/SymplecticRK/sage/generated_coeffs.hpp
index be5e700..d2dfe7b 100644
--- a/SymplecticRK/sage/generated_coeffs.hpp
+++ b/SymplecticRK/sage/generated_coeffs.hpp
@@ -1,4 +1,4 @@
-template<> void icoeffs<2,double>(double* a,double* b)
+template<> inline void icoeffs<2,double>(double* a,double* b)
 {
 initializer_list<double> la={0.25,-0.0386751345948,
 0.538675134595,0.25};
@@ -9,7 +9,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<3,double>(double* a,double* b)
+template<> inline void icoeffs<3,double>(double* a,double* b)
 {
 initializer_list<double> la={0.138888888889,-0.0359766675249,0.00978944401531,
 0.300263194981,0.222222222222,-0.0224854172031,
@@ -21,7 +21,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<4,double>(double* a,double* b)
+template<> inline void icoeffs<4,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0869637112844,-0.026604180085,0.0126274626894,-0.0035551496858,
 0.1881181175,0.163036288716,-0.0278804286025,0.00673550059454,
@@ -34,7 +34,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<5,double>(double* a,double* b)
+template<> inline void icoeffs<5,double>(double* a,double* b)
 {
 initializer_list<double> la={0.059231721264,-0.0195703643591,0.0112544008186,0.00158811296787,-0.00559379366081,
 0.12815100567,0.119657167625,-0.0245921146196,-0.00276899439877,0.0103182806707,
@@ -48,7 +48,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<6,double>(double* a,double* b)
+template<> inline void icoeffs<6,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0428311230948,-0.0147637259972,0.00932505070648,-0.00566885804948,0.0028544333151,-0.000812780171265,
 0.0926734914304,0.090190393262,-0.0203001022932,0.0103631562402,-0.00488719292804,0.00135556105549,
@@ -63,7 +63,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<7,double>(double* a,double* b)
+template<> inline void icoeffs<7,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0323712415422,-0.0114510172832,0.00763320387242,-0.00513373356323,0.00317505877369,-0.00160681903705,0.000458109523749,
 0.0700435413787,0.0699263478723,-0.0165900065788,0.00934962278344,-0.0053970919319,0.00264584386673,-0.000743850190172,
@@ -79,7 +79,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<8,double>(double* a,double* b)
+template<> inline void icoeffs<8,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0253071340726,-0.00910594330597,0.00628083114703,-0.00448301561305,0.00307849136833,-0.00191767525464,0.000972757664059,-0.000277508327117,
 0.0547593217676,0.0555952586133,-0.0136397962358,0.00814970885836,-0.00521535208915,0.00313975298546,-0.00156493491095,0.000442802304342,
@@ -96,7 +96,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<9,double>(double* a,double* b)
+template<> inline void icoeffs<9,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0203185970904,-0.00739786856615,0.0052220035921,-0.00387345129174,0.00283136945007,0.00122660978881,-0.000622964091649,0.000177778462745,-0.00196219418839,
 0.0439655272265,0.0451620401737,-0.0113354640123,0.00703476680173,-0.00478827613102,-0.00196440573995,0.000987172103666,-0.000280274237641,0.00320336015198,
@@ -114,7 +114,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<10,double>(double* a,double* b)
+template<> inline void icoeffs<10,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0166678360772,-0.00612068029234,0.00439200373029,-0.00334535050883,0.00254756897028,-0.00188262038694,0.0013108146277,-0.000820986353138,0.000417243835668,-0.000119093958462,
 0.0360661525782,0.0373628372876,-0.00953137359189,0.00607228446174,-0.00430404581296,0.00306851861087,-0.00209411395745,0.0012962496555,-0.000654328115142,0.000186135539,
@@ -133,7 +133,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<11,double>(double* a,double* b)
+template<> inline void icoeffs<11,double>(double* a,double* b)
 {
 initializer_list<double> la={0.013917141779,-0.00514325562983,0.00373560374914,-0.00290037905138,0.00227274215265,-0.00175240116264,0.00130248911732,-0.000909279657712,0.000570136062283,-0.000289875324978,8.27488930846e-05,
 0.0301142391948,0.0313950923662,-0.00810562697908,0.00526282127354,-0.00383743668169,0.00285354676448,-0.00207783291715,0.00143267781288,-0.000891466711988,0.000451184930916,-0.000128498936997,
@@ -153,7 +153,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<12,double>(double* a,double* b)
+template<> inline void icoeffs<12,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0117938340966,-0.00437990215768,0.00321056964126,-0.00252868076292,0.00202324519895,0.00124774475193,-0.00093049983663,0.000650624788775,-0.000408237882558,0.00020761510848,-5.92710487057e-05,-0.00160735902089,
 0.0255198232326,0.0267348314988,-0.00696570366256,0.00458737722346,-0.00341487831326,-0.00198873604147,0.00146425936526,-0.00101552961889,0.000633880729667,-0.000321341337252,9.15875660364e-05,0.00261580117231,
@@ -174,7 +174,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<13,double>(double* a,double* b)
+template<> inline void icoeffs<13,double>(double* a,double* b)
 {
 initializer_list<double> la={0.0101210011913,-0.00377307158533,0.00278561575606,-0.00221827038405,0.00180306469115,-0.00146428618398,0.00117219434523,-0.000913582925477,0.000682707775015,-0.000477846825328,0.000299962625259,-0.000152576299212,4.35604600184e-05,
 0.0219001283175,0.0230303749594,-0.00604331982545,0.00402367675567,-0.00304249472623,0.00238203498777,-0.00186724640081,0.00143647464828,-0.00106442244601,0.000740852231417,-0.000463345539788,0.000235139088197,-6.70516615042e-05,
@@ -196,7 +196,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<14,double>(double* a,double* b)
+template<> inline void icoeffs<14,double>(double* a,double* b)
 {
 initializer_list<double> la={0.00877986508294,-0.00328311623043,0.00243769977191,-0.00195809929678,0.00161116775848,-0.0013305215627,0.00108963888466,-0.00087630200574,0.00068469369104,-0.000512348412843,0.000358848231298,-0.000225331048393,0.000114628208601,-3.27274204462e-05,
 0.0189981535902,0.0200395217899,-0.00528828692878,0.00355141173897,-0.00271822648689,0.00216386043522,-0.00173506996416,0.00137711257618,-0.00106673647746,0.000793568026139,-0.000553593219336,0.00034668128127,-0.000176059960672,5.02217676033e-05,
@@ -219,7 +219,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<15,double>(double* a,double* b)
+template<> inline void icoeffs<15,double>(double* a,double* b)
 {
 initializer_list<double> la={0.00768831049903,-0.00288207652296,0.00214977135689,-0.0017388496538,0.00144470413916,-0.00120875124594,-0.000829198279957,0.00066882097553,-0.000523450351173,0.000392046730692,-0.000274715621755,0.000172538127707,-8.77790602646e-05,2.50623437545e-05,0.00100730755285,
 0.016636222751,0.017591511872,-0.00466351386567,0.00315354205167,-0.00243709364542,0.00196545995212,0.00130260473646,-0.00104148556214,0.000810228194456,-0.000604288995042,0.000422194068522,-0.000264629686031,0.000134457272942,-3.83635400719e-05,-0.00160354180515,
@@ -243,7 +243,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<16,double>(double* a,double* b)
+template<> inline void icoeffs<16,double>(double* a,double* b)
 {
 initializer_list<double> la={0.00678811485294,-0.00254981560167,0.00190909917814,0.00130038636167,-0.0010994139781,0.000928810382461,-0.000778400292638,0.000642913073058,-0.000519591764617,0.00040712132102,-0.000305112838734,0.000213868739423,6.83510931381e-05,-0.00155293958635,-0.000134342751559,-1.95156840006e-05,
 0.0146883557391,0.0155633809847,-0.00414132717597,-0.00219345482568,0.00178743918154,-0.00147829989567,0.00122248349189,-0.00100078933566,0.00080388482228,-0.000627151628945,0.000468554602992,-0.000327706017463,-0.000104467756263,0.00281624066329,0.000205533641771,2.9811971512e-05,
@@ -268,7 +268,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<2,long double>(long double* a,long double* b)
+template<> inline void icoeffs<2,long double>(long double* a,long double* b)
 {
 initializer_list<double> la={0.250000000000000000000000000000000,-0.0386751345948128822545743902509787,
 0.538675134594812882254574390250979,0.250000000000000000000000000000000};
@@ -279,7 +279,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<3,long double>(long double* a,long double* b)
+template<> inline void icoeffs<3,long double>(long double* a,long double* b)
 {
 initializer_list<double> la={0.138888888888888888888888888888889,-0.0359766675249389034563954710966044,0.00978944401530832604958004222947557,
 0.300263194980864592438024947213156,0.222222222222222222222222222222222,-0.0224854172030868146602471694353778,
@@ -291,7 +291,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<4,long double>(long double* a,long double* b)
+template<> inline void icoeffs<4,long double>(long double* a,long double* b)
 {
 initializer_list<double> la={0.0869637112843634643432659873054999,-0.0266041800849987933133851304769531,0.0126274626894047245150568805746181,-0.00355514968579568315691098184956959,
 0.188118117499868071650685545087171,0.163036288715636535656734012694500,-0.0278804286024708952241511064189974,0.00673550059453815551539866908570376,
@@ -304,7 +304,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<5,long double>(long double* a,long double* b)
+template<> inline void icoeffs<5,long double>(long double* a,long double* b)
 {
 initializer_list<double> la={0.0592317212640472718785660101799793,-0.0195703643590760374926432140508841,0.0112544008186429555527162442150907,0.00158811296786599853936524247059342,-0.00559379366081218487681772196447593,
 0.128151005670045283496166848329514,0.119657167624841617010322878708910,-0.0245921146196422003893182516860040,-0.00276899439876960304428263075887960,0.0103182806706833574089539450563558,
@@ -318,7 +318,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<6,long double>(long double* a,long double* b)
+template<> inline void icoeffs<6,long double>(long double* a,long double* b)
 {
 initializer_list<double> la={0.0428311230947925862600740355431832,-0.0147637259971974124753725910605207,0.00932505070647775119143888450800315,-0.00566885804948351190092125641621651,0.00285443331509933513092928583011602,-0.000812780171264762112299135651562540,
 0.0926734914303788631865122917633203,0.0901903932620346518924583784594290,-0.0203001022932395859524940805242725,0.0103631562402464237307199458065600,-0.00488719292803767146341420376578964,0.00135556105548506177551787075080011,
@@ -333,7 +333,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<7,long double>(long double* a,long double* b)
+template<> inline void icoeffs<7,long double>(long double* a,long double* b)
 {
 initializer_list<double> la={0.0323712415422174233176528581697705,-0.0114510172831838702881645824731459,0.00763320387242354492584664422163565,-0.00513373356322534498195629758233913,0.00317505877368563763683431730199470,-0.00160681903704610585560610128347643,0.000458109523749452982298319621634935,
 0.0700435413787260762729814536065897,0.0699263478723191669753669428559449,-0.0165900065788477711644699061373328,0.00934962278344333207631107766792938,-0.00539709193189613785462120177242070,0.00264584386673003737983031295579446,-0.000743850190171923617331065816899149,
@@ -349,7 +349,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<8,long double>(long double* a,long double* b)
+template<> inline void icoeffs<8,long double>(long double* a,long double* b)
 {
 initializer_list<double> la={0.0253071340725940647881328385774905,-0.00910594330597007502136365210466435,0.00628083114703047398060942073780760,-0.00448301561305475144191331423530155,0.00307849136832677988985383064911711,-0.00191767525463695234092563511949444,0.000972757664059263526724523824088790,-0.000277508327116919222898446613780209,
 0.0547593217675543202831907973850023,0.0555952586133436176360889986065602,-0.0136397962357816692530306620699761,0.00814970885836055053604042748372916,-0.00521535208914715338024336977463765,0.00313975298546366894234500690115627,-0.00156493491094894237579511140443043,0.000442802304342237815626944634681052,
@@ -366,7 +366,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<9,long double>(long double* a,long double* b)
+template<> inline void icoeffs<9,long double>(long double* a,long double* b)
 {
 initializer_list<double> la={0.0203185970903936029929730395276309,-0.00739786856614878686542489503086324,0.00522200359210005389185584360564744,-0.00387345129174498055049537887338993,0.00283136945006983986354937012363709,0.00122660978881256074839466284462653,-0.000622964091648914481159571486571450,0.000177778462744798652780015293222430,-0.00196219418839121917026118745577622,
 0.0439655272265284041585412645645087,0.0451620401737143510146180078107282,-0.0113354640123350470465925464814319,0.00703476680173468143903695814226945,-0.00478827613101664029445945068615472,-0.00196440573995350861710011819853350,0.000987172103665947150853208009195396,-0.000280274237640940717284308546381075,0.00320336015198485576267209135093205,
@@ -384,7 +384,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<10,long double>(long double* a,long double* b)
+template<> inline void icoeffs<10,long double>(long double* a,long double* b)
 {
 initializer_list<double> la={0.0166678360771720343983922024733329,-0.00612068029233502987025308987906619,0.00439200373028852221698614553887794,-0.00334535050882549470870888176133072,0.00254756897027876354904962225738170,-0.00188262038693525661085207791056827,0.00131081462770308391842832788419797,-0.000820986353138291127367521983463229,0.000417243835667835720457601113273652,-0.000119093958462027525114333774861831,
 0.0360661525781943304506967868615967,0.0373628372876451482864440849144243,-0.00953137359188965945260757183913681,0.00607228446174392218489428998019616,-0.00430404581295939200907563270911149,0.00306851861086753558695384716440183,-0.00209411395745032284831574789258204,0.00129624965549819963331444499418201,-0.000654328115142468560893715735581344,0.000186135539000451362540870049864093,
@@ -403,7 +403,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<11,long double>(long double* a,long double* b)
+template<> inline void icoeffs<11,long double>(long double* a,long double* b)
 {
 initializer_list<double> la={0.0139171417790434166206884301106371,-0.00514325562983490553945482672729184,0.00373560374914085018725131470439065,-0.00290037905138315003781828070850379,0.00227274215264998537669600797675868,-0.00175240116264082742702346957094253,0.00130248911731822927183376576527350,-0.000909279657711640651057229985874300,0.000570136062283444316355989598062838,-0.000289875324978482038437992853765253,0.0000827488930845835189972911298261979,
 0.0301142391948244556850291647703452,0.0313950923662261561586735748059850,-0.00810562697907984411509038761874716,0.00526282127353501507194118571645874,-0.00383743668169242759363413819373032,0.00285354676447749860209788071218239,-0.00207783291714634649529155042045045,0.00143267781287657313277759445234306,-0.000891466711988145401994499020386626,0.000451184930916069171735273863699948,-0.000128498936996653753822983719663434,
@@ -423,7 +423,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<12,long double>(long double* a,long double* b)
+template<> inline void icoeffs<12,long double>(long double* a,long double* b)
 {
 initializer_list<double> la={0.0117938340966279567986539903712543,-0.00437990215767931650940188692918276,0.00321056964125654262004469232623711,-0.00252868076291527559325483047108311,0.00202324519894856845571760672436639,0.00124774475192659582311909076184889,-0.000930499836629974148333740147760258,0.000650624788775465133900270947845369,-0.000408237882558168112866492596697974,0.000207615108480287514624040502392411,-0.0000592710487056506905538129963004732,-0.00160735902088665663692347356756028,
 0.0255198232326244639441836509717834,0.0267348314988296077400636795484991,-0.00696570366255593528084233870896311,0.00458737722346434400703031480933751,-0.00341487831325726315216580833366991,-0.00198873604147400184383034336299982,0.00146425936525797332056119445694672,-0.00101552961889071285353932174117125,0.000633880729666708085426064346671315,-0.000321341337251878490974152992793925,0.0000915875660363567404988113849493164,0.00261580117231290944435531656186262,
@@ -444,7 +444,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<13,long double>(long double* a,long double* b)
+template<> inline void icoeffs<13,long double>(long double* a,long double* b)
 {
 initializer_list<double> la={0.0101210011913289698800053980502465,-0.00377307158532573117639653956478696,0.00278561575606280540506391769715011,-0.00221827038404612727470909369006428,0.00180306469115291924767648064980046,-0.00146428618397597206373219195398718,0.00117219434523376612789533432940761,-0.000913582925476946914279833786076516,0.000682707775014527070994806526617237,-0.000477846825328057044954904151545178,0.000299962625259445461030372797434857,-0.000152576299212045336495614490534017,0.0000435604600183718814871431827825288,
 0.0219001283175295116522258243792181,0.0230303749594321119786054439884493,-0.00604331982544823445948205359739159,0.00402367675567341024867616113409459,-0.00304249472622634548710370846496858,0.00238203498776763745077474812162596,-0.00186724640081131399249109864113950,0.00143647464828385926714290321692637,-0.00106442244601130699290888262870222,0.000740852231417186149520785772376544,-0.000463345539787940887382989363911043,0.000235139088196600369947814289646073,-0.0000670516615041579007988664565837295,
@@ -466,7 +466,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<14,long double>(long double* a,long double* b)
+template<> inline void icoeffs<14,long double>(long double* a,long double* b)
 {
 initializer_list<double> la={0.00877986508293796575795821903454795,-0.00328311623042934086798688316216252,0.00243769977190523648369753867532496,-0.00195809929677580446849837789111997,0.00161116775847946349648444265711885,-0.00133052156270291506772693351446155,0.00108963888466220974785039375877712,-0.000876302005740451815114376127002123,0.000684693691039925453930883284840597,-0.000512348412842921048968187481164774,0.000358848231298344463716262218571774,-0.000225331048392672084870452601877430,0.000114628208600992289517695941405055,-0.0000327274204462017607888581448243350,
 0.0189981535901935692032565753457345,0.0200395217899400524514083192657136,-0.00528828692877905772827154588731698,0.00355141173896972234311116783155499,-0.00271822648688944300089230331346735,0.00216386043522498030367910884029325,-0.00173506996416364108314035850590390,0.00137711257617749357667294331528682,-0.00106673647746380315042748249637517,0.000793568026138729677545338924362882,-0.000553593219336437327016306954809997,0.000346681281269539277437669257943583,-0.000176059960671760509587943072474205,0.0000502217676032972980292477605208439,
@@ -489,7 +489,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<15,long double>(long double* a,long double* b)
+template<> inline void icoeffs<15,long double>(long double* a,long double* b)
 {
 initializer_list<double> la={0.00768831049902931708865709839430110,-0.00288207652296439580063546956640496,0.00214977135688850644287947195441230,-0.00173884965380298083558788216578044,0.00144470413915726138708869767716335,-0.00120875124593688546658128485877837,-0.000829198279957270056165475383330968,0.000668820975529917187940369682561850,-0.000523450351172725058136595675165461,0.000392046730691602014114395777496628,-0.000274715621754918118582794977518628,0.000172538127706577039763717164693461,-0.0000877790602645868752966820187805339,0.0000250623437545120994878446872165364,0.00100730755285335470627173001460784,
 0.0166362227509783404984961450415114,0.0175915118720270311773168541126668,-0.00466351386567139920910945192640114,0.00315354205167060177481027904195496,-0.00243709364541861248927066133075671,0.00196545995211755642319833638016242,0.00130260473646139385678049832465133,-0.00104148556214203561932207449711480,0.000810228194455859749132304352513766,-0.000604288995041522705160129596905066,0.000422194068522064401364461722620928,-0.000264629686030523967638173133559916,0.000134457272941865614537600421636876,-0.0000383635400718623012778712595397459,-0.00160354180515170935773759150854591,
@@ -513,7 +513,7 @@ copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
 }
 
-template<> void icoeffs<16,long double>(long double* a,long double* b)
+template<> inline void icoeffs<16,long double>(long double* a,long double* b)
 {
 initializer_list<double> la={0.00678811485293852371294514311400453,-0.00254981560166642060794569067228638,0.00190909917813672352877801175229420,0.00130038636167335289131149058789750,-0.00109941397810467496743881733363378,0.000928810382461165787713007929583067,-0.000778400292638016970213471818843129,0.000642913073058191572480402310603516,-0.000519591764617300727073793902583398,0.000407121321020350344602879245931763,-0.000305112838734354656103913206664628,0.000213868739423092125277034461916634,0.0000683510931380568197932759579296331,-0.00155293958635445852534156874682570,-0.000134342751558613532849595377351067,-0.0000195156840005830940114810271390690,
 0.0146883557390946385758642521469263,0.0155633809846619732157109592485944,-0.00414132717596763996878861232853917,-0.00219345482567798016982323843681041,0.00178743918153624175343071841289058,-0.00147829989566992546596208722498436,0.00122248349189014866625509839220072,-0.00100078933565830982842652679008346,0.000803884822279940961686355000181995,-0.000627151628945023668023605338992174,0.000468554602991504934816921554325165,-0.000327706017463433279300993976240050,-0.000104467756262960729780516285484119,0.00281624066329179723974536344229666,0.000205533641770747263601026242237198,0.0000298119715119924600006781741765009,
diff --git a/SymplecticRK/sage/generated_coeffs_co.hpp b/SymplecticRK/sage/generated_coeffs_co.hpp
index 2685943..3361e1f 100644
--- a/SymplecticRK/sage/generated_coeffs_co.hpp
+++ b/SymplecticRK/sage/generated_coeffs_co.hpp
@@ -1,178 +1,178 @@
-template<> void extrapcoeffs<2,double>(double* c)
+template<> inline void extrapcoeffs<2,double>(double* c)
 {
 initializer_list<double> lc={-1.44337567297,2.65470053838,-1.76853598869,2.50218995347};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<3,double>(double* c)
+template<> inline void extrapcoeffs<3,double>(double* c)
 {
 initializer_list<double> lc={1.0,-3.32379000772,3.4364916731,1.64959666924,-4.78568501159,3.75514084041,2.94601792214,-7.74471701777,5.257912926};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<4,double>(double* c)
+template<> inline void extrapcoeffs<4,double>(double* c)
 {
 initializer_list<double> lc={-0.135307244905,1.36140068465,-3.97544968198,3.81878808643,-0.537612925376,3.00404135671,-6.49890590866,4.60431971203,-1.63717031842,6.84757575689,-11.9249796864,7.12227177835,-4.10029878722,14.775159637,-22.3365646865,11.9887073781};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<5,double>(double* c)
+template<> inline void extrapcoeffs<5,double>(double* c)
 {
 initializer_list<double> lc={-12.408089245,33.2494963344,-38.2237939377,-5.02873063466,23.45802756,-22.9802116869,61.1304952923,-69.7821321607,-11.6080506014,43.7879095114,-42.1725807055,111.473716235,-126.392162977,-22.5124628922,79.9859687145,-77.0853906901,202.751332845,-228.757413486,-42.1641229899,145.55590967,-140.652179469,368.574355006,-414.483182984,-78.0638446566,264.876374636};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<6,double>(double* c)
+template<> inline void extrapcoeffs<6,double>(double* c)
 {
 initializer_list<double> lc={1.49639906744,-4.95180935208,8.16737188579,-7.44012682161,1.31773061431,2.44419984905,3.46885805125,-10.9780747982,16.5595161236,-13.6754887605,2.9031131121,2.25641156057,7.11511835867,-21.6456349346,30.2555924942,-22.3416240113,3.47355841317,3.51124117949,13.5351598873,-39.6617231803,51.4704918804,-33.0427203787,0.857972597258,7.12633339479,24.2342876135,-68.298636147,81.5084716482,-42.1205642015,-11.0450057011,15.9575705137,40.9593172786,-110.308373491,117.679699401,-37.7198023313,-46.7864069848,36.3789798789};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<7,double>(double* c)
+template<> inline void extrapcoeffs<7,double>(double* c)
 {
 initializer_list<double> lc={-1.91120187841,6.65652759191,-12.7292168649,18.1176202649,-17.4616733791,7.96098671628,0.392403593092,-5.19865835727,17.7863259876,-32.5093393348,42.6183498714,-37.9642372565,18.1682283162,-2.37489943226,-12.6924582123,42.5222463482,-74.518286234,91.7241851084,-76.7869482599,36.4779223931,-6.36722877294,-28.8016213917,94.5845579493,-159.757941566,186.855037157,-148.584647226,69.0276582948,-13.0466093395,-61.8496467489,199.450073684,-326.127694831,365.115860088,-277.225297295,124.64287708,-23.7793975572,-127.150589514,403.254742675,-640.329586138,688.994905272,-500.006854823,214.902196978,-39.4710270061,-252.15521835,787.350624132,-1216.36742045,1259.72396109,-871.096011391,351.30665463,-58.5922594642};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<8,double>(double* c)
+template<> inline void extrapcoeffs<8,double>(double* c)
 {
 initializer_list<double> lc={1.89420696335,-6.74595407993,13.6174313879,-22.132553149,30.1354696018,-30.0535602846,16.7813564647,-2.47654183242,5.53044980217,-19.7123802551,39.4552306842,-61.8202807478,77.9162549778,-71.9170865716,40.5605506614,-9.49268636734,15.363658868,-54.123002333,105.511418086,-157.829742275,186.583239525,-162.508358369,90.6500150975,-23.2936433612,40.031262635,-138.963091718,263.310898325,-377.485157226,423.961919654,-353.32079978,194.472041372,-51.736618989,98.3082610019,-336.410045088,621.002616501,-858.38310495,925.006181743,-744.496924144,404.381959445,-109.188285178,229.68525606,-775.805079808,1399.49183211,-1875.32610048,1953.09767699,-1527.59865051,819.073480824,-222.430881405,515.019542668,-1719.44701492,3039.71234666,-3966.04428446,4012.90466143,-3062.61683487,1621.13250704,-440.496988745,1116.20019082,-3688.02824601,6404.57927459,-8163.93419172,8055.10446748,-6014.38469251,3141.79531687,-851.185828495};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<9,double>(double* c)
+template<> inline void extrapcoeffs<9,double>(double* c)
 {
 initializer_list<double> lc={-1122.37853338,3472.68754318,-5504.45857588,6520.15683125,-6431.97481547,-3953.50621673,2206.96334712,-660.40380391,5473.9301437,-1914.7778661,5932.53450524,-9428.91945106,11216.0748506,-11125.8798997,-6912.00810877,3871.70671922,-1162.48089934,9524.26619653,-3274.83030101,10163.8796249,-16207.6950809,19376.3029153,-19340.6549967,-12151.0136569,6829.03899734,-2055.08098275,16660.4029888,-5619.52492914,17477.6969539,-27980.8781112,33643.742089,-33812.4379163,-21491.7442429,12118.7108868,-3654.13234968,29318.8339236,-9683.02778742,30191.0984813,-48555.8620493,58758.7621201,-59488.5400632,-38262.862585,21645.719529,-6538.6887877,51933.6175771,-16768.2775095,52433.0530607,-84762.943622,103294.652424,-105386.284586,-68592.1313721,38924.8891361,-11778.2331295,92635.4588314,-29207.2223989,91624.2219839,-148960.586248,182886.590426,-188071.3573,-123838.09109,70484.0237189,-21360.8747191,166443.455185,-51210.2317156,161218.510225,-263703.274243,326284.408454,-338210.338807,-225193.491246,128522.371261,-39004.8633662,301297.051273,-90447.2628019,285824.206502,-470505.856564,586777.442858,-612990.305675,-412443.878277,235971.359585,-71703.7225379,549518.144994};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<10,double>(double* c)
+template<> inline void extrapcoeffs<10,double>(double* c)
 {
 initializer_list<double> lc={0.308663498962,-1.29519460574,3.36383134545,-7.46704170044,15.1437435757,-28.1149391888,44.7273120244,-51.5468873805,34.8175242682,-8.92396510146,-1.52106932316,4.14309699845,-3.67385821193,-5.25448732422,28.95742032,-69.7158024027,113.808925825,-125.650392502,84.3362434534,-24.9169449878,-5.26633494681,14.0368589575,-11.5048220161,-19.1837058143,92.6464892649,-203.805901382,304.096737469,-313.084697416,204.840965826,-62.4290389159,-8.46011269871,16.4702023862,13.9265076842,-123.39719457,335.075694205,-610.239318307,814.289832541,-782.039663126,497.22285009,-152.585493915,2.85784472551,-43.875369634,200.987582636,-554.782865358,1120.85134677,-1755.45047972,2129.77846411,-1928.32159817,1194.24411089,-366.07564461,77.7416181475,-350.00229101,940.823596306,-1977.78018208,3401.01353213,-4787.03644976,5394.40129008,-4658.8833649,2821.43834788,-861.535950371,360.492913314,-1423.928114,3299.03903313,-6112.1016414,9519.30549545,-12416.5342876,13224.3365873,-11003.2836784,6540.9944556,-1988.16433762,1235.84509505,-4630.7691585,9979.27495265,-17168.6773711,25013.4235245,-30849.4547948,31456.6605105,-25411.2563894,14876.2787364,-4501.18644685,3665.76412838,-13337.6168579,27506.1866443,-45044.5026383,62547.2188502,-73924.928646,72845.6222724,-57467.2199843,33218.1637381,-10008.5626471,9947.44870156,-35502.9301051,71045.7171228,-112274.005155,150333.185554,-171852.487297,164767.956597,-127498.319899,72920.0349228,-21886.4866025};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<11,double>(double* c)
+template<> inline void extrapcoeffs<11,double>(double* c)
 {
 initializer_list<double> lc={1.28345332953,-4.27998592189,7.59540310133,-9.98511988159,9.64315306443,-3.73259896712,-11.3877379351,35.3405245192,-51.382487296,38.8781588539,-10.9618771957,9.46855400714,-32.0195893685,58.5099602936,-81.5126344765,90.8904633697,-73.4833239415,20.1397550094,55.0922277423,-102.260776728,81.865351046,-26.1790420342,34.3884653395,-115.61589478,208.794768527,-285.272151779,309.624966821,-245.293015237,82.7160656156,117.368627412,-229.778103817,184.536351626,-61.1257417957,98.1642087045,-326.845019292,578.987007651,-765.920285624,789.287057295,-570.306499383,127.375115413,350.218080115,-578.398965785,446.040533667,-148.340168051,242.387267698,-797.053187627,1377.14428637,-1744.67226072,1664.14867572,-999.371664152,-109.975135997,1158.48291481,-1544.72402365,1123.75508259,-369.910829783,534.715125331,-1730.14242785,2891.43487108,-3443.3957796,2883.59356477,-1043.71434623,-1559.52460031,3697.85201817,-4167.0925246,2865.78391916,-929.331967018,1059.99977058,-3352.02194888,5329.35525135,-5715.85605147,3548.72722732,1197.39105197,-6993.6782225,11043.3416496,-11054.3183018,7255.0991605,-2317.88548182,1852.21199941,-5637.0019716,8173.34866549,-6841.49639921,12.1626382977,11586.7893354,-23934.1825885,30966.1760813,-28538.9966541,18053.7852301,-5692.66002711,2648.83579595,-7388.8148794,8206.57220819,-135.922725682,-19094.4939848,46264.469826,-71561.7634814,82345.1278496,-71555.6590942,43991.0849983,-13719.3140296,2170.0357791,-3628.4258944,-5845.91594461,34807.8356075,-85141.0796169,146658.654494,-196651.578541,209626.444936,-174478.586821,104902.908768,-32420.1813326,-3791.10948405,21198.8863786,-66862.4933941,153553.395661,-278611.852098,414080.236041,-509452.248331,514808.611701,-414803.483335,245049.163905,-75169.0046371};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<12,double>(double* c)
+template<> inline void extrapcoeffs<12,double>(double* c)
 {
 initializer_list<double> lc={15089.6077412,-53536.9962449,104840.018463,-159648.115779,206416.266093,240636.81228,-221694.604513,181871.372682,-128190.789961,70468.6334161,-20985.8179728,-235265.376985,28230.9710189,-98874.2923647,190492.731233,-285935.71315,365799.749635,421386.052189,-386996.777548,316827.27553,-223020.143639,122501.067276,-36468.3105543,-413942.100365,52292.9454372,-181404.117583,345209.211856,-512414.881608,650048.796101,741649.553947,-679389.050542,555284.598528,-390466.901886,214343.197882,-63790.395958,-731362.613537,96279.0595494,-331595.471002,625079.376283,-919779.734335,1159066.80911,1312188.60073,-1199583.55742,979182.34372,-687993.472264,377490.508124,-112318.934465,-1298015.26868,176667.47621,-605131.078376,1132403.17652,-1654919.02823,2074432.1324,2333997.90247,-2130302.02563,1737185.63371,-1219868.36032,669099.863655,-199053.374229,-2314512.10878,323688.526141,-1104048.61075,2054350.61393,-2986179.58277,3727484.02299,4173476.01998,-3804634.83665,3100351.73784,-2176245.98501,1193428.56128,-355005.196822,-4146665.09404,592937.913578,-2015837.79872,3734425.79298,-5405488.49317,6725129.6863,7501421.54126,-6832524.60415,5565197.04923,-3905565.35904,2141568.21151,-637023.57063,-7464240.21682,1086911.58953,-3685923.82924,6804923.17256,-9817611.77562,12183030.3656,13550953.2815,-12335656.7159,10045251.031,-7049193.24159,3865373.54895,-1149803.68732,-13498253.6049,1995031.30797,-6752372.60049,12433068.3466,-17891881.8747,22159120.9757,24597734.0808,-22385217.2645,18228364.7034,-12792755.6566,7015530.26226,-2087000.277,-24519621.8827,3668208.07126,-12396829.5393,22779583.7138,-32717660.7046,40461952.3742,44857067.5948,-40820536.7204,33245555.9164,-23336967.003,12800339.6087,-3808310.10819,-44732403.0942,6758064.27148,-22813101.8672,41855173.5986,-60029154.8365,74162325.3858,82165194.2035,-74785167.0328,60927318.2191,-42782718.0432,23472462.9113,-6984498.74558,-81945897.9639,12477486.577,-42084255.4702,77124300.3397,-110500370.395,136428323.356,151140394.156,-137618632.141,112171290.232,-78800536.8712,43247542.5636,-12871189.3215,-150714352.933};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<13,double>(double* c)
+template<> inline void extrapcoeffs<13,double>(double* c)
 {
 initializer_list<double> lc={6.18176128297,-21.4088030062,41.2032239688,-63.4925321578,86.3571897811,-107.37632351,122.748985605,-125.821025934,106.229079053,-57.7526517733,2.80796017296,18.1708135972,-6.83976860739,29.3715050623,-102.45868763,199.730079683,-313.287981524,435.283609025,-553.316659533,644.617014805,-671.512946001,592.414474957,-405.397306015,192.298188004,-57.7355397268,10.5021886374,109.796819223,-383.654439846,749.646798473,-1177.90902594,1634.98888026,-2065.08918374,2373.27152366,-2428.28240822,2125.01151597,-1509.14992576,827.974187706,-338.771145183,82.5077078987,364.401954969,-1271.80909826,2478.21640893,-3872.7161127,5323.59355928,-6621.91504359,7452.81646658,-7451.89638293,6417.05041467,-4587.76010388,2635.93729272,-1166.60756702,300.946214002,1110.79189233,-3866.30184334,7493.29352089,-11606.4586261,15745.0210292,-19234.1396905,21174.1547851,-20690.3178434,17506.3965183,-12473.8653003,7292.45935786,-3328.68586832,877.860102844,3161.02032178,-10964.3493825,21110.1464575,-32364.1647395,43278.2882637,-51901.9534222,55922.2707454,-53464.3405854,44445.0167831,-31415.5750375,18452.4160238,-8528.39532119,2269.79462605,8490.0076635,-29336.8868751,56085.2395004,-85072.1387735,112128.402232,-132074.219978,139424.996684,-130566.051911,106640.585243,-74553.3496964,43673.3110434,-20238.3420851,5398.59790906,21701.0715115,-74694.6450483,141774.993514,-212768.931787,276492.598491,-320079.347135,331357.217692,-304161.301075,243983.247241,-168255.31019,97756.3411377,-45106.1141708,12000.312948,53134.4532336,-182171.241919,343302.081579,-509820.80728,653408.89606,-743800.778543,755513.715009,-679849.17708,535020.381473,-362827.156967,207941.321012,-94917.9017131,25066.3344108,125260.221645,-427775.383558,800421.970058,-1176374.00052,1487289.40127,-1665182.927,1659589.03838,-1463019.3603,1127277.9417,-748623.139641,420421.710975,-188363.541185,49078.1763737,285435.621257,-970970.137533,1803904.90932,-2623774.17869,3272253.9117,-3602686.1396,3520781.83805,-3035720.68995,2282330.82018,-1475068.60792,803962.169861,-349385.312719,88935.8951921,630588.341479,-2136555.49975,3940754.33118,-5671472.01365,6974776.15211,-7545791.03787,7220033.32146,-6070708.01759,4428377.46844,-2757640.92178,1435328.02815,-591985.665722,144295.605122,1353394.5182,-4566738.44274,8360156.71941,-11899632.0457,14418794.5516,-15305946.4351,14300015.9164,-11665769.7633,8178866.87936,-4821525.68873,2321358.07934,-863429.147653,190454.944197};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<14,double>(double* c)
+template<> inline void extrapcoeffs<14,double>(double* c)
 {
 initializer_list<double> lc={-10.2910491202,35.664993216,-68.7690593391,106.433249186,-146.143486192,185.39642504,-221.090120197,248.301799929,-257.919153498,234.545421863,-165.851313177,75.7307225154,-17.8050930492,2.80352091872,-37.8146707035,132.338523122,-259.733684784,412.461025995,-585.586404894,772.931726436,-961.633253189,1122.4622396,-1199.57644092,1121.31552041,-861.4533029,512.670772996,-226.530722086,58.6555525289,-127.533527568,449.176493725,-891.308807027,1436.18387126,-2072.3812891,2776.08252332,-3485.35745561,4067.17411304,-4307.61478053,3993.98336655,-3110.01615948,1957.86729941,-943.914202008,257.998792589,-419.31281058,1480.64665275,-2949.65192304,4771.86604845,-6900.28250086,9223.2510543,-11480.005349,13188.4334419,-13696.0362204,12495.2164278,-9710.66891203,6230.48028131,-3097.47691771,863.797656097,-1339.00310264,4725.6243428,-9399.29190847,15151.2885643,-21758.1474422,28749.9844067,-35191.143242,39587.7822849,-40213.997217,36047.9663581,-27821.6303942,17963.3276836,-9049.83293363,2547.27955264,-4106.28213009,14457.1806258,-28619.9664553,45782.1593799,-65007.3010966,84584.1318258,-101556.379216,111783.50441,-111149.978578,97965.4592768,-74967.7840375,48442.8287715,-24548.5740093,6941.17487665,-12028.9475136,42212.8729025,-83056.6348642,131630.981158,-184528.26899,236213.661496,-278208.662784,299959.283374,-292452.132585,253777.860221,-192484.901619,124147.105817,-63045.1576478,17863.0908914,-33665.5384543,117722.830993,-230120.73267,361194.394176,-499866.140966,629804.977509,-728450.831141,770630.830483,-738097.963772,631449.719276,-474738.47382,305173.151355,-154973.169074,43937.0781309,-90284.1418115,314589.040108,-610987.121513,949996.932245,-1298610.47557,1611975.99679,-1833540.94495,1906496.54386,-1796860.40748,1517307.74721,-1130930.26467,723914.839573,-367116.504438,104048.878818,-232926.029018,808835.157758,-1561190.24342,2405771.30399,-3250717.00326,3979700.03138,-4457719.66993,4562642.28605,-4237515.17983,3535076.87501,-2612497.24602,1664083.26423,-841917.241591,238373.801712,-580415.196637,2008916.80998,-3854831.32903,5890316.55587,-7873356.14628,9516041.49745,-10509107.7567,10601507.5773,-9712769.2198,8009922.57767,-5869055.98806,3717797.52462,-1874977.57673,530010.768419,-1402031.63101,4837652.74515,-9231319.35935,13994104.4745,-18516456.6363,22113159.7378,-24100582.7092,23985043.7755,-21693008.0735,17690698.9955,-12849109.2346,8088955.74959,-4063156.88353,1146049.14001,-3293466.23197,11330507.7553,-21507332.866,32359369.2865,-42408243.6774,50076780.3535,-53901167.3016,52955252.6505,-47301693.3035,38146289.414,-27451671.9793,17160329.5062,-8577522.61382,2412569.09162,-7543805.68648,25879784.9901,-48877225.8174,73012921.2398,-94815134.5262,110757923.302,-117797404.982,114289160.557,-100833420.854,80389078.3602,-57275559.9376,35512893.781,-17644227.8997,4945017.55156};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<15,double>(double* c)
+template<> inline void extrapcoeffs<15,double>(double* c)
 {
 initializer_list<double> lc={-680785.069835,2387450.17514,-4652428.45103,7187728.24115,-9662262.49821,11746229.6406,13778989.9126,-13493401.4106,12352568.4346,-10484165.1035,8096991.68275,-5466034.88809,2920276.67638,-856461.606004,-13174694.7299,-1227189.81404,4275962.04942,-8258359.67922,12645634.4182,-16873430.5251,20397694.6972,23760656.7238,-23219070.4551,21223301.7647,-17992969.9449,13884876.3614,-9367986.91492,5003108.47036,-1467034.43283,-22785192.2129,-2208225.37578,7656535.01605,-14685770.1307,22331616.6407,-29622881.497,35649124.097,41291637.7298,-40280738.608,36771896.4805,-31146099.8433,24018851.5835,-16197714.5818,8648013.32397,-2535404.35929,-39690840.1363,-3974685.2227,13729577.6594,-26194161.2296,39615313.413,-52305888.7065,62720975.7324,72317181.4515,-70447471.5657,64244195.2514,-54373899.3333,41908228.948,-28250977.0903,15079536.9369,-4420399.85885,-69647526.1296,-7166881.09722,24684744.2018,-46901023.3458,70630869.0064,-92916342.6391,111100892.421,127630876.997,-124189133.786,113157710.656,-95712511.4822,73736092.4463,-49690862.0796,26518089.8214,-7772643.07564,-123109877.838,-12959106.1972,44535643.7203,-84347945.8028,126604525.893,-166073452.145,198129438.143,226942726.632,-220618328.877,200881957.479,-169824958.433,130782642.203,-88111599.6929,47013854.5755,-13778876.2615,-219176521.063,-23514726.8966,80673467.5731,-152414826.809,228184490.216,-298650369.871,355666306.844,406437746.753,-394812834.947,359287819.256,-303611009.0,233738977.67,-157441928.495,83994955.8184,-24615551.9313,-392922516.031,-42836394.8569,146769088.385,-276762234.482,413524854.971,-540279839.475,642528862.77,732871505.653,-711467346.772,647141950.449,-546662422.233,420746023.239,-283355339.18,151152293.65,-44294033.9333,-709076968.054,-78359535.112,268211540.267,-505028172.02,753427665.039,-983026768.826,1167777189.27,1329941657.38,-1290428395.17,1173285384.0,-990812476.593,762424670.031,-513384977.186,273832863.129,-80240723.7556,-1287619920.34,-143947470.71,492328971.348,-925987857.857,1379787775.9,-1798333189.53,2134429897.74,2427769119.74,-2354594152.29,2140105195.36,-1806796726.76,1390059429.39,-935889883.658,499152531.259,-146259878.073,-2351823761.77,-265535342.588,907646460.04,-1705646675.99,2539163463.24,-3306577034.2,3921745300.49,4455975702.53,-4319996367.94,3925274824.66,-3313179376.67,2548584064.21,-1715711120.93,915007828.738,-268103660.655,-4318648064.84,-491788906.001,1680251122.3,-3155382478.75,4693890412.1,-6108325053.72,7240432051.56,8219158540.24,-7965590141.11,7235798188.64,-6106237944.12,4696424393.49,-3161359944.0,1685901040.13,-493968256.597,-7969203024.07,-914272692.981,3122592944.78,-5860842341.56,8713298429.15,-11332471883.6,13425989716.0,15228342619.6,-14753905684.2,13398889445.4,-11305209229.4,8694018557.69,-5851883230.83,3120587431.93,-914313711.212,-14770820370.6,-1705673815.93,5823865068.47,-10926159840.9,16235912347.1,-21106124508.0,24994018456.0,28328109111.5,-27437638804.4,24912192125.3,-21016177887.2,16160415780.3,-10876848809.2,5800046117.47,-1699359011.83,-27486576328.6,-3192345609.94,10897420034.1,-20437305164.4,30356477409.3,-39445625982.2,46692922281.2,52884879792.8,-51208866819.0,46486140771.5,-39210900876.7,30148880966.3,-20291049287.5,10819963988.9,-3170132055.84,-51330459448.5};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<16,double>(double* c)
+template<> inline void extrapcoeffs<16,double>(double* c)
 {
 initializer_list<double> lc={135465586.136,-460681378.644,858568449.226,1629807732.71,-1913730754.59,2091186142.27,-2150058053.61,2091021969.56,-1925588535.54,1673523948.54,-1360201074.65,1014354364.81,349584899.424,-1265147722.21,-666637158.937,-101468413.497,213698102.776,-726651643.726,1354004975.98,2568840128.65,-3015293660.71,3293664297.33,-3385101998.96,3290932468.68,-3029510421.08,2632110049.83,-2138732812.72,1594575370.89,549388050.833,-1994694419.56,-1047777239.12,-159451248.582,346179119.633,-1177001850.17,2192730225.57,4157572485.56,-4878309665.8,5326537343.82,-5472175222.8,5317822030.7,-4893552448.91,4250190222.01,-3452493356.39,2573448851.37,886360944.216,-3229410478.52,-1690664736.38,-257233463.555,574550352.097,-1953229206.57,3638078528.92,6893730525.02,-8085638146.94,8824877076.88,-9062308063.2,8803021269.0,-8097519092.6,7030431561.11,-5709164909.31,4254460693.46,1464852581.12,-5356578874.15,-2794477718.41,-425086576.175,974350531.965,-3311986937.89,6167614970.62,11679485068.5,-13693417224.1,14939026732.0,-15334326360.2,14889281087.6,-13690544057.0,11882113518.7,-9646011752.45,7186322406.6,2473474106.6,-9078385000.87,-4719274302.8,-717722787.111,1683639220.15,-5722307309.11,10653943645.7,20162445976.2,-23629833119.6,25768448096.7,-26438923570.2,25660761394.1,-23585423854.6,20462556200.1,-16606478192.3,12368681886.0,4255741468.72,-15677567270.4,-8120902095.74,-1234782475.7,2956394630.17,-10046957023.2,18701931974.2,35371373580.1,-41438339848.2,45170081507.7,-46325822386.9,44943720659.9,-41292704800.6,35812554647.1,-29054849881.1,21634813844.8,7441461458.94,-27512784554.1,-14201937753.4,-2158936055.13,5262505960.88,-17882015706.9,33280060395.4,62905859082.3,-73668167129.7,80270297293.6,-82290439773.9,79803248558.8,-73292537064.8,63543572743.4,-51537593411.5,38366318949.2,13192044135.2,-48945867638.0,-25180265967.9,-3827020425.89,9475650364.31,-32194867184.9,59906431484.4,1.13170276042e+11,-1.324847178e+11,1.44302499394e+11,-1.47875817261e+11,1.43350721831e+11,-1.31607205015e+11,1.14063450821e+11,-92485254952.7,68832490356.0,23660117017.3,-88083374859.5,-45167088141.0,-6863312096.04,17227359025.1,-58526448357.6,1.08883438463e+11,2.05581338088e+11,-2.40584938695e+11,2.6194890402e+11,-2.68333992994e+11,2.60025938266e+11,-2.38640001381e+11,2.06761920804e+11,-1.67600285204e+11,1.24708077425e+11,42853318005.6,-1.60057445932e+11,-81817195768.2,-12429985765.3,31576068889.6,-1.07262890124e+11,1.99519643417e+11,3.76514298828e+11,-4.40478056515e+11,4.79423779431e+11,-4.90932241172e+11,4.75562479272e+11,-4.36302030665e+11,3.7790326443e+11,-3.06244199182e+11,2.27819298486e+11,78262193238.1,-2.93223157785e+11,-1.49439347908e+11,-22699102641.7,58274418286.6,-1.97938096312e+11,3.68125245178e+11,6.94346133517e+11,-8.12051159771e+11,8.83553153296e+11,-9.04449702225e+11,8.75834658132e+11,-8.03269018581e+11,6.95546285962e+11,-5.63509250312e+11,4.19112300517e+11,1.43935745018e+11,-5.40893277128e+11,-2.74873153282e+11,-41744282295.3,1.08174897022e+11,-3.67400605899e+11,6.83186806881e+11,1.2879961745e+12,-1.50588800347e+12,1.63795687159e+12,-1.67614079973e+12,1.62258031464e+12,-1.48768237169e+12,1.28781100997e+12,-1.04308452492e+12,7.75638475396e+11,2.66304976097e+11,-1.00360632572e+12,-5.08617894322e+11,-77229000359.7,2.01805253626e+11,-6.85345516814e+11,1.27422371708e+12,2.40118080284e+12,-2.80659308193e+12,3.05179823945e+12,-3.12195241811e+12,3.02124483788e+12,-2.76924006275e+12,2.39653853871e+12,-1.94065559347e+12,1.44278749072e+12,4.95231982313e+11,-1.8714653513e+12,-9.45949168472e+11,-1.43609669766e+11,3.78085907103e+11,-1.28390527786e+12,2.3867584707e+12,4.49573191723e+12,-5.25335570894e+12,5.71064800265e+12,-5.84014964178e+12,5.65006034048e+12,-5.17730348572e+12,4.47933981801e+12,-3.62642590597e+12,2.69556698933e+12,9.25011744461e+11,-3.50477943849e+12,-1.76706004393e+12,-2.68223687272e+11,7.10965349508e+11,-2.41411433735e+12,4.487199128e+12,8.44866336634e+12,-9.86986304382e+12,1.07259835049e+13,-1.09660216164e+13,1.06060289636e+13,-9.71592200995e+12,8.40398658134e+12,-6.80228297275e+12,5.05529595199e+12,1.73435763137e+12,-6.58790428097e+12,-3.31349220654e+12,-5.02880009315e+11};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<2,long double>(long double* c)
+template<> inline void extrapcoeffs<2,long double>(long double* c)
 {
 initializer_list<double> lc={-1.44337567297406441127287195125489,2.65470053837925152901829756100391,-1.76853598869462141624860782523333,2.50218995346906875953341290652353};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<3,long double>(long double* c)
+template<> inline void extrapcoeffs<3,long double>(long double* c)
 {
 initializer_list<double> lc={1.00000000000000000000000000000000,-3.32379000772445013110755923986944,3.43649167310370844258963269989120,1.64959666924148337703585307995648,-4.78568501158667519666133885980416,3.75514084041407928684859596988032,2.94601792213815217620118779490752,-7.74471701776623530154738625169971,5.25791292600037724175496741484224};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<4,long double>(long double* c)
+template<> inline void extrapcoeffs<4,long double>(long double* c)
 {
 initializer_list<double> lc={-0.135307244904688787411431296975496,1.36140068465488733668292376422488,-3.97544968197561526882229403937933,3.81878808642839043193882832768355,-0.537612925375784480135853564851234,3.00404135671062937217916717984556,-6.49890590866445442087731334533293,4.60431971202729624837725199101190,-1.63717031842245700354336803004939,6.84757575688715536726519348367821,-11.9249796863829679117446327133569,7.12227177834886743621767783385215,-4.10029878721799225771340611081784,14.7751596370192998341951206152680,-22.3365646864978729902361776703725,11.9887073780806096349127195892873};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<5,long double>(long double* c)
+template<> inline void extrapcoeffs<5,long double>(long double* c)
 {
 initializer_list<double> lc={-12.4080892450490375587308213492748,33.2494963343543122595047165192804,-38.2237939376551451088552478458438,-5.02873063465664557784727417127220,23.4580275600371839895298134079607,-22.9802116869279084515788861808107,61.1304952922655617531320397240784,-69.7821321606709158906772005941420,-11.6080506013676378348468198236619,43.7879095113950800304828916374698,-42.1725807054847527822486163824507,111.473716235233254622573504718593,-126.392162976933262911255515008908,-22.5124628922089691017572401806333,79.9859687144913883505789216338612,-77.0853906901439939750903731632864,202.751332845047950535923907231318,-228.757413485767381207785815917637,-42.1641229898811247987888566088867,145.555909669596589986031494575773,-140.652179469191843700916683271813,368.574355005736335933984903522633,-414.483182984262126760100116786341,-78.0638446566238302686280263411386,264.876374636341610152333990318813};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<6,long double>(long double* c)
+template<> inline void extrapcoeffs<6,long double>(long double* c)
 {
 initializer_list<double> lc={1.49639906743931150170865743165221,-4.95180935208180235143946990968911,8.16737188579422643880960262595151,-7.44012682160895177207402084354309,1.31773061430654815259391059778265,2.44419984904909201649516932059883,3.46885805124527998912589880976624,-10.9780747982168482045249387497191,16.5595161235581040943189567698421,-13.6754887605368487943822582992659,2.90311311209734720820431537689784,2.25641156056538447906452159834394,7.11511835867093589005360090792946,-21.6456349345666900729344518014013,30.2555924942497912188853069793345,-22.3416240113366871629470601435484,3.47355841317324175691484021542290,3.51124117949273710338609959959303,13.5351598873204907206130851821985,-39.6617231803398217698073670078747,51.4704918804032815556367028451887,-33.0427203786641164534802601768582,0.857972597257570309916028931380322,7.12633339478597956084901084518200,24.2342876134922468623845858854074,-68.2986361470160227079104024397649,81.5084716482095788888727615984547,-42.1205642015401486742305911687352,-11.0450057011243979267195579430256,15.9575705136612307359928024704931,40.9593172785713586917120193028690,-110.308373491478239521311464963708,117.679699400637902139903279302536,-37.7198023312642406115052298157596,-46.7864069848232444708783542820675,36.3789798788849947653870930332267};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<7,long double>(long double* c)
+template<> inline void extrapcoeffs<7,long double>(long double* c)
 {
 initializer_list<double> lc={-1.91120187840706148059343153339619,6.65652759190947097926182607655844,-12.7292168648694984662764731379728,18.1176202649195974587105791611953,-17.4616733790926634353730548203877,7.96098671627692504368896267036905,0.392403593091850638318496741609958,-5.19865835727433058441028937337961,17.7863259875997465506681553498387,-32.5093393347882978136644467302933,42.6183498714162914750919707447822,-37.9642372564774438754821752867909,18.1682283161856404297400910069268,-2.37489943225972140043994937826719,-12.6924582123093563087501515401057,42.5222463481699544055616587560432,-74.5182862339952554415153487918320,91.7241851083633573607985030566396,-76.7869482599494432441820403305810,36.4779223930853985430329998272872,-6.36722877294198861104454960548662,-28.8016213917061138053390452891089,94.5845579492985955875880487692287,-159.757941566257764882047123910280,186.855037156516665445560863605916,-148.584647226412484336661254556154,69.0276582947818295702864174410238,-13.0466093395153273856608853441942,-61.8496467489083919740734662853765,199.450073684103533001519499240391,-326.127694831069676842085164319705,365.115860088233912284775986636401,-277.225297295451381351587775194686,124.642877080461840288276012062188,-23.7793975571716263282331655745455,-127.150589513851883135544067747503,403.254742674680672031828264052813,-640.329586138398034934086416724497,688.994905272083876945019711555962,-500.006854822796777795114554277379,214.902196977754856228751627384792,-39.4710270061112237052768425440148,-252.155218350409524792213670733784,787.350624132017907905283699702557,-1216.36742044747276254645881198231,1259.72396109181852482064404550487,-871.096011390937797024743593539612,351.306654629544856924200356477215,-58.5922594641566066942375759823070};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<8,long double>(long double* c)
+template<> inline void extrapcoeffs<8,long double>(long double* c)
 {
 initializer_list<double> lc={1.89420696335189271657828654653861,-6.74595407993036488209951062870800,13.6174313879350418040936549908116,-22.1325531490283795436868444953001,30.1354696018019658502034889756472,-30.0535602846122435940536115165028,16.7813564646508372455003455249718,-2.47654183241751771237758983174295,5.53044980216853652419590406662562,-19.7123802550751263836487899296228,39.4552306841891380568621187216173,-61.8202807478371281601911743699649,77.9162549778229211076493331916534,-71.9170865716099859533199335243895,40.5605506613702209443694904285352,-9.49268636734022096857912912214024,15.3636588680378007070923695084634,-54.1230023330262407141346911644396,105.511418085609196011982509718827,-157.829742274905696136850531422093,186.583239525287085530367282552769,-162.508358369306670570515474868443,90.6500150975412720744334356732129,-23.2936433611634987137940144645674,40.0312626350487827169113069068526,-138.963091717749303955679340327395,263.310898325098970109714813246196,-377.485157225711351710788662668533,423.961919653899505365296310308562,-353.320799779991340818918670597229,194.472041372165191939031491810626,-51.7366189890014269411866892230046,98.3082610019279501589859959267112,-336.410045088019414880440286648268,621.002616500503204411870861288617,-858.383104949994456155016957800032,925.006181742545133267956989671112,-744.496924143510302187173151808743,404.381959444669130815027763903453,-109.188285177905293839097960112073,229.685256060390168995854989551005,-775.805079807910415691813090436842,1399.49183211132587677399424419371,-1875.32610048063117680663992102973,1953.09767698607603208624092346102,-1527.59865050750421049019808417344,819.073480823665014023919769799621,-222.430881404536315490773459538561,515.019542667772258585894866718456,-1719.44701491993249769633859315472,3039.71234666054242403153643714144,-3966.04428445512004427301545883963,4012.90466143223379746541841606209,-3062.61683487494962501114632454293,1621.13250704375359254959145124682,-440.496988744971312113260400252528,1116.20019081785447632171833140071,-3688.02824601219497787439701475620,6404.57927458974619584256433769973,-8163.93419172268862194770757436753,8055.10446748427746148256560561915,-6014.38469250793627714333948880182,3141.79531687395626580896621586568,-851.185828494625477369134849091671};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<9,long double>(long double* c)
+template<> inline void extrapcoeffs<9,long double>(long double* c)
 {
 initializer_list<double> lc={-1122.37853337868513288907107645526,3472.68754317920871035372398717132,-5504.45857587937396403055263349257,6520.15683125366459336103590739386,-6431.97481547377991062193825459155,-3953.50621672641479866707490786092,2206.96334711661149238613812925524,-660.403803910164190253513614032616,5473.93014369917938731633467451105,-1914.77786609897348069500567461242,5932.53450524017251620404172908804,-9428.91945106486055957473113593322,11216.0748505927621176994465520385,-11125.8798997027027580283018141203,-6912.00810877488854135449086463154,3871.70671922256012031694091415844,-1162.48089933961936452638348509672,9524.26619652708966338037876921974,-3274.83030100604689645901078300630,10163.8796248716098095955460530782,-16207.6950809326522794995892264033,19376.3029152507964379268457398588,-19340.6549967110950566737508912756,-12151.0136568717757634013558720536,6829.03899733875340451801297164452,-2055.08098274567793790800281634289,16660.4029888071800668455178466705,-5619.52492913534138380828473772158,17477.6969539292316746784233927286,-27980.8781111812526736951798623411,33643.7420889839618624080658745483,-33812.4379163001052065040276913372,-21491.7442429287831075796020230558,12118.7108868263514132987279902107,-3654.13234967576392736454480958414,29318.8339235766620363214791343809,-9683.02778741722783449462849303891,30191.0984813395516843831379764801,-48555.8620492776077813494786993552,58758.7621201311605941361365818662,-59488.5400631806917893939626024530,-38262.8625850438147421862613112536,21645.7195289864625526298524574780,-6538.68878769950693201587119162956,51933.6175770610834731735549177893,-16768.2775095437257779376737642712,52433.0530607269595290529903076262,-84762.9436219882766539763101371846,103294.652424145919875800996872518,-105386.284585534603977922480209642,-68592.1313721299725292170536960241,38924.8891361274873612267835585634,-11778.2331294643809532057729952861,92635.4588314248338888971540701060,-29207.2223989125978328169323534163,91624.2219838624851900101931442980,-148960.586247857636814125942941953,182886.590426046587476998603317927,-188071.357300443331412811009728509,-123838.091089782143371756533222059,70484.0237189235988262950232282445,-21360.8747190655853896722477930341,166443.455185077615785348597621765,-51210.2317156049329952437533915722,161218.510225010765418006721443706,-263703.274242517254966817271494801,326284.408454062978778420779941379,-338210.338806811977476895279565946,-225193.491246412638640223756123770,128522.371261141512706899001074278,-39004.8633662451587451551833800248,301297.051273118691583011497017185,-90447.2628019009693795394503462075,285824.206502260230485150510192373,-470505.856564211773755570665568190,586777.442858425078030572164964192,-612990.305674500963362393216828098,-412443.878277218098880475480310091,235971.359584509805484130827900914,-71703.7225379283423225298559933560,549518.144993898378325377833743447};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<10,long double>(long double* c)
+template<> inline void extrapcoeffs<10,long double>(long double* c)
 {
 initializer_list<double> lc={0.308663498961631026031881865242030,-1.29519460573904943059833301204681,3.36383134544788852438529409244359,-7.46704170044427746933960115448499,15.1437435756946248189634635449127,-28.1149391887591556339007816076186,44.7273120243530286916403110123634,-51.5468873805166148961187150677284,34.8175242682022478269417410442943,-8.92396510145890931804424272341933,-1.52106932316001656932644627222569,4.14309699845371759042237492965208,-3.67385821192568772370895218239498,-5.25448732421518124189362989691954,28.9574203199844939428757685333244,-69.7158024026765904996763945666390,113.808925824721959721824339102807,-125.650392502351261417690115156468,84.3362434533681409954913797456249,-24.9169449878014075117731344672385,-5.26633494681142659471648119129946,14.0368589575309157022481604922877,-11.5048220160715032307716640923302,-19.1837058142913483836687343384099,92.6464892649257350052048396786868,-203.805901381860080905538160396722,304.096737468838014740891355954222,-313.084697415744701649690745096602,204.840965825993155812373419194243,-62.4290389158604040865189955149818,-8.46011269871093486352194047763295,16.4702023861949795207766402014867,13.9265076841727536915765470666095,-123.397194570246125519243170882719,335.075694204977653061339312382972,-610.239318307469666369935085933951,814.289832541277426685848972431508,-782.039663125601240519034248168020,497.222850089700272049617700860058,-152.585493914559652773335371060707,2.85784472550783551917547849417534,-43.8753696339561295210592034975556,200.987582635969955580020905860345,-554.782865357743737530636623746483,1120.85134677455923251668003085761,-1755.45047972129367083603615962384,2129.77846410861009094504171277803,-1928.32159817453391748064265601582,1194.24411089397690238278884452828,-366.075644610117982120052424655885,77.7416181475056337752960580482337,-350.002291010293233944344670884804,940.823596305963446328250098587337,-1977.78018208407358392101455031970,3401.01353213078732973952488829011,-4787.03644976452766628704488351170,5394.40129008342807746359827290781,-4658.88336489919222727529221280239,2821.43834788203439830286633420178,-861.535950370525629430105676132539,360.492913314043511040813650075515,-1423.92811399765419831489307341748,3299.03903312874653623889348398743,-6112.10164140015418317892897524908,9519.30549545402670297476096790194,-12416.5342876240907789621454443256,13224.3365873405392224373807179247,-11003.2836784145556791440616748530,6540.99445560036367116052969209892,-1988.16433762081553280799483059560,1235.84509505230268338200809262116,-4630.76915849990167661402604148850,9979.27495264787796926807251645398,-17168.6773711309567708413919324494,25013.4235244642024188568402915594,-30849.4547947818774616981834599881,31456.6605104800963565067233180769,-25411.2563894491269343951676599564,14876.2787363621865328715632402732,-4501.18644684681692197554071357729,3665.76412838323097308358700204842,-13337.6168579216587115105569166796,27506.1866443475331078820192421684,-45044.5026382851341258526643183340,62547.2188502458861947875407496028,-73924.9286459727980822982497866117,72845.6222724125375283222912651760,-57467.2199843386587043422968211126,33218.1637380880397557633187350058,-10008.5626471046149353832741235895,9947.44870156147099682116899706432,-35502.9301050862728476065450171737,71045.7171227982398663692077122774,-112274.005155216469195745764552298,150333.185554406292572119478246475,-171852.487296796822008684905431833,164767.956596840185044710217266846,-127498.319898787130754741663939841,72920.0349227832179139832007069631,-21886.4866025216127598478375161925};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<11,long double>(long double* c)
+template<> inline void extrapcoeffs<11,long double>(long double* c)
 {
 initializer_list<double> lc={1.28345332952758638472288061054870,-4.27998592189246821868579703423822,7.59540310132982248202445534335490,-9.98511988158930735688704814103022,9.64315306442921509382222921834109,-3.73259896711843755102743414595024,-11.3877379351042301783325295897493,35.3405245192025745190283676696196,-51.3824872960459634688807488599685,38.8781588538839926989489633801774,-10.9618771956958129011353074516667,9.46855400714185898488325952178676,-32.0195893684608126926094452117956,58.5099602935733868374666854736711,-81.5126344764751339253072628503265,90.8904633696954667667601458004572,-73.4833239414790400405967856236068,20.1397550093682996091618900017761,55.0922277423269191366197018516891,-102.260776727703517546480457592070,81.8653510460428483581539615826271,-26.1790420341875388281364518924191,34.3884653395326647045295826763132,-115.615894779967058778804072514129,208.794768527332050442446429740071,-285.272151778686369266917924027362,309.624966820755386297855761414213,-245.293015237485983980680960011360,82.7160656156003978780546512910213,117.368627411720552656430239515185,-229.778103816755236050049277015067,184.536351625756306150145103173708,-61.1257417957347417038799491557245,98.1642087044809666153011777142133,-326.845019291852074844546988125066,578.987007651069395956124102015683,-765.920285624104942237323690568176,789.287057294551770149674884561639,-570.306499382819969209081268434451,127.375115412781210001811354097518,350.218080115231155203588280168738,-578.398965784749717693957375289188,446.040533667407034955589715059274,-148.340168050881728306592539339857,242.387267698402354685457149516223,-797.053187627089960370490093348008,1377.14428637131384619061017580381,-1744.67226072033933326779021593049,1664.14867571715485488836209363398,-999.371664152259082336553294386942,-109.975135997096613691374995900275,1158.48291481260314480300479308183,-1544.72402364900957359043058313676,1123.75508258960195699197431385103,-369.910829782762456155496950710708,534.715125331020604690216436688136,-1730.14242784561768581350336343365,2891.43487107758038662995214518402,-3443.39577960129826069157639209579,2883.59356477478899424394870243484,-1043.71434622715769798887599931306,-1559.52460031363836346566813882216,3697.85201817331709029131398747340,-4167.09252459750024422874650199143,2865.78391916326923340945844525493,-929.331967017572789898170185848028,1059.99977057688228527850175406768,-3352.02194887872848328960360255806,5329.35525135131998837772759463773,-5715.85605146951640499154079492212,3548.72722732407029681302069507190,1197.39105196781147592684027661500,-6993.67822250038438685361991863175,11043.3416496017877201971492641257,-11054.3183018267922725574060781839,7255.09916049836714746123437452386,-2317.88548181722775502590137011911,1852.21199940557377997990283674517,-5637.00197159849696870547564971453,8173.34866548751666571237586307839,-6841.49639920781736675770050122247,12.1626382976842242870652030827970,11586.7893354497751508898874865886,-23934.1825885079552404892451955567,30966.1760813318737265521894653051,-28538.9966541228482175531139894932,18053.7852301434253230723709446891,-5692.66002711195394365424810140268,2648.83579595469107522468053115144,-7388.81487939947103075880702225140,8206.57220819326676144272419076572,-135.922725682346782672537935672878,-19094.4939848027236223578348313847,46264.4698260124908354192614131596,-71561.7634813680661992011453304126,82345.1278495799800101519031708294,-71555.6590941751967093944774337891,43991.0849982812081634601762105666,-13719.3140295823967081982997874904,2170.03577909641615268507118864615,-3628.42589440264810496155405655121,-5845.91594461132273896165459115946,34807.8356074572550234074719325037,-85141.0796168832689768154707794604,146658.654494340123776337488942887,-196651.578540822095145685223960773,209626.444936447962791734361911676,-174478.586821245263019506660357624,104902.908767890774274461504876178,-32420.1813325788608478130673345233,-3791.10948404625746765730409545708,21198.8863785728157157296974666778,-66862.4933941434517056692975492409,153553.395660651827239907018023886,-278611.852098453149398535833869695,414080.236040913445592530257469735,-509452.248331011747473182990506778,514808.611701425689455612479338871,-414803.483334919804313513607250947,245049.163905091856060132231617549,-75169.0046370535616281162613019829};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<12,long double>(long double* c)
+template<> inline void extrapcoeffs<12,long double>(long double* c)
 {
 initializer_list<double> lc={15089.6077411712637269975142488895,-53536.9962448724198284308071615527,104840.018462781547348036721819706,-159648.115779110749515600044623695,206416.266092993910682466902354441,240636.812280141031376886408547024,-221694.604512852050523499542549964,181871.372682065601862679548023660,-128190.789961230705865007889834257,70468.6334160615646654576884379590,-20985.8179728091629386479821537013,-235265.376984656954350963862383055,28230.9710188627028076798864952847,-98874.2923646512853511486590311750,190492.731233182078104052256756147,-285935.713149721807389532238094851,365799.749635401750401805738605998,421386.052189298637802999433702304,-386996.777548152534200202392113113,316827.275529666095806793857583104,-223020.143638842234341065056512531,122501.067276339187117666580726675,-36468.3105542663351688543163561243,-413942.100364932102776912570109661,52292.9454372233683188543258498666,-181404.117583281461136661201335661,345209.211856214789343718256790637,-512414.881607542186743159657852767,650048.796101148521280028148578376,741649.553947451000720663956016747,-679389.050542365348376025075675632,555284.598527743555179896396350405,-390466.901885730330409861250193067,214343.197882029445452989319784134,-63790.3959580075569147367791212019,-731362.613536603802204071569135921,96279.0595493672265466667908700224,-331595.471001569431723774421192094,625079.376282918736400997238882680,-919779.734334581250944395153099911,1.15906680911111420578963056418508e6,1.31218860072695799894125014795477e6,-1.19958355742390954388163889863727e6,979182.343719706841341031417535276,-687993.472264430223281691457064647,377490.508124443768159328075669239,-112318.934465189244250238135987820,-1.29801526867685687500325814339232e6,176667.476210372237170210744928684,-605131.078376183526801240654979736,1.13240317651827413623386695659344e6,-1.65491902823324577640260773488461e6,2.07443213240388174917999268372081e6,2.33399790247409471920242322273323e6,-2.13030202563331732317437379723867e6,1.73718563370674578835155434140680e6,-1.21986836032178567581898579164192e6,669099.863654972011885512037890708,-199053.374229345164874164099371301,-2.31451210878320056171036774411408e6,323688.526141194669372628160700051,-1.10404861075333826556529136651965e6,2.05435061393382689365170679251001e6,-2.98617958277422843463166408598374e6,3.72748402298736546890103297975769e6,4.17347601997897283190062117969177e6,-3.80463483665179926265865788847026e6,3.10035173783738143590473150300052e6,-2.17624598501114329338920159290354e6,1.19342856127630604641924732802731e6,-355005.196821837363139233251313260,-4.14666509404121435036989172285978e6,592937.913577826219002901289714693,-2.01583779871611734980514594560753e6,3.73442579298146991753137569162797e6,-5.40548849317012111548344069274888e6,6.72512968630238708546681463168500e6,7.50142154125735209514337989671080e6,-6.83252460415096072238680978056538e6,5.56519704922937583420712137562504e6,-3.90556535903779412010753363085849e6,2.14156821151205508031582179978465e6,-637023.570630328985256742945870523,-7.46424021681935573729225193425737e6,1.08691158952958555078838992972864e6,-3.68592382923536253479715231233254e6,6.80492317255784111657666954242044e6,-9.81761177562096121801164839405927e6,1.21830303656060615066788679852713e7,1.35509532814989528483366014342238e7,-1.23356567159237114544016062401250e7,1.00452510309818774654357948295580e7,-7.04919324158584086195962097179524e6,3.86537354895069795573845615908684e6,-1.14980368731510075882795250347902e6,-1.34982536049212982386562992437886e7,1.99503130796916227362742953344889e6,-6.75237260049050487156858673215134e6,1.24330683465505689069926351582500e7,-1.78918818746786295571712155063310e7,2.21591209757328536627495098489617e7,2.45977340807546992095063027236574e7,-2.23852172645236225301885337663312e7,1.82283647034072501129245484467366e7,-1.27927556566330915026709524155804e7,7.01553026225615558725419530822330e6,-2.08700027699722278076129564275001e6,-2.45196218826693977177235201805281e7,3.66820807125670614428577271924756e6,-1.23968295392537683567812659004069e7,2.27795837138188649383712588249625e7,-3.27176607045688469710918700238267e7,4.04619523742295002719107271305204e7,4.48570675947578613566743085665823e7,-4.08205367204375772041106130430976e7,3.32455559164270620608099662348981e7,-2.33369670029808216249566460816808e7,1.28003396087192342794296941461207e7,-3.80831010819175456620149416980085e6,-4.47324030941647081814208342856777e7,6.75806427148100004564895806218890e6,-2.28131018672245712597686860432526e7,4.18551735986358172923218517609432e7,-6.00291548365117788746480576164039e7,7.41623253858293769372819976902042e7,8.21651942034578271131653018026574e7,-7.47851670328275326650352087627687e7,6.09273182190745587993423504536959e7,-4.27827180431680426865683684961523e7,2.34724629113263035968975641232769e7,-6.98449874558103115114829740774126e6,-8.19458979639261655645198582173746e7,1.24774865770276099141477113854943e7,-4.20842554701771512598430774577837e7,7.71243003396692450092868318410581e7,-1.10500370394579456660422390226123e8,1.36428323355684144407955941895708e8,1.51140394155561773061306624280383e8,-1.37618632140711930567817502465051e8,1.12171290232194631794338702852702e8,-7.88005368711531526217271002889828e7,4.32475425636328033835857959818826e7,-1.28711893214967941379531241294378e7,-1.50714352932616521810930426075388e8};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<13,long double>(long double* c)
+template<> inline void extrapcoeffs<13,long double>(long double* c)
 {
 initializer_list<double> lc={6.18176128296585651431497281229868,-21.4088030061599777549484032729396,41.2032239687845596694728666761738,-63.4925321577773207362388980947601,86.3571897810684871346136666507078,-107.376323509645066107188109699651,122.748985604790250260686850137561,-125.821025933731221721350641927848,106.229079052892702036295501226120,-57.7526517733357370831992229009417,2.80796017296110886466495492110461,18.1708135972188138509595955089030,-6.83976860739174900281954676113182,29.3715050623387684470027572718344,-102.458687630185083384937249125815,199.730079683471677440457023026257,-313.287981523747843967636071957559,435.283609024639885128291397773519,-553.316659533304449903135899854425,644.617014804846142554402250378795,-671.512946000560933525303240085486,592.414474957434794276964958785331,-405.397306014535834138580289873806,192.298188003645367255421230838895,-57.7355397268278415849095543304905,10.5021886373958117243017056266526,109.796819222652565509932956362379,-383.654439845620646074332141981135,749.646798473143407540220254254825,-1177.90902593643831084103945873768,1634.98888025749766493500806048144,-2065.08918373553772654497109080839,2373.27152365996178647401426575764,-2428.28240821921111495562837070537,2125.01151597490212799465359920317,-1509.14992575826129732744852569438,827.974187706390957432807178377929,-338.771145183342314667239495626082,82.5077078986521267258588636215613,364.401954968637154218231122282557,-1271.80909826366700920727229954761,2478.21640893483550305152313432620,-3872.71611269922261506000245035004,5323.59355927527735002487662283664,-6621.91504358561600654948777304339,7452.81646658216690870427715056826,-7451.89638293175478476430243125628,6417.05041467219184434157550676166,-4587.76010387560030270007882856004,2635.93729272135220925235299737903,-1166.60756701658194498885644215174,300.946214002136633333238429609403,1110.79189233423138258940385846226,-3866.30184334451451028218878622838,7493.29352088790168951633861250514,-11606.4586260758519358362946969648,15745.0210291829313373269832896067,-19234.1396904612381458065558061619,21174.1547851162015706846519838163,-20690.3178434443890340265256211797,17506.3965182655434541645882066747,-12473.8653002940024272424737056761,7292.45935786014518749560281023128,-3328.68586831762129404068217614148,877.860102844354449419191284854018,3161.02032177507813559289926500141,-10964.3493824537437963116181308778,21110.1464575028362714434945330750,-32364.1647395409989947397328442650,43278.2882637445567887630809913092,-51901.9534222176241992660239284948,55922.2707454204850212995964618209,-53464.3405854061391824806188529721,44445.0167831373896569395467731564,-31415.5750374773712997341616629642,18452.4160238141046915712281190431,-8528.39532118778753390726671880366,2269.79462604693770452027151439691,8490.00766350392082721256189847668,-29336.8868750642338453783871334953,56085.2395004147165809155544548837,-85072.1387734536792179399167913700,112128.402231602625940668427631900,-132074.219978286754622374215572421,139424.996683648068971573079965284,-130566.051910501593915892187690820,106640.585242934873437156592982030,-74553.3496963915032333254349411291,43673.3110434210987032902160202129,-20238.3420851491310454964644048446,5398.59790906169474154003242121813,21701.0715114788116311134877578281,-74694.6450482564853545203889477978,141774.993514310743072441109354167,-212768.931786630469289890740130292,276492.598490690282184619091392570,-320079.347134807841919887159267228,331357.217692461408619507753960314,-304161.301074597363070937350937284,243983.247241247347372713149815408,-168255.310189957191787398613371065,97756.3411377407112798610511957141,-45106.1141708361140432033726396208,12000.3129480294247063445069704261,53134.4532335960797141761792256160,-182171.241919160152494634331286410,343302.081579090130369562412205927,-509820.807280470630595635889101318,653408.896059735369290177128706426,-743800.778542937348719704076921395,755513.715009430706290807095803861,-679849.177079528331636172642835853,535020.381472694576630315623257823,-362827.156967477125520238050467350,207941.321011689110505169658521633,-94917.9017130505049146905651335487,25066.3344108193497365611609030378,125260.221645464650989303276511887,-427775.383558202621694128131288603,800421.970057918868148462675466045,-1.17637400052070059923049399661480e6,1.48728940126686937453626759788493e6,-1.66518292700380066818988699038920e6,1.65958903838150501805882031164568e6,-1.46301936029668083674363423236896e6,1.12727794170133096268629200010303e6,-748623.139641324528492550010613683,420421.710974803979726496073276615,-188363.541184953027412329491376818,49078.1763737082519043308250946432,285435.621256880168097672100240963,-970970.137533427296022496082986284,1.80390490931779843101413877277024e6,-2.62377417868842167164438242346562e6,3.27225391169729268493759393897235e6,-3.60268613960207330448571494256314e6,3.52078183805347001471628905531302e6,-3.03572068995387635182045046975868e6,2.28233082017965587679532530032986e6,-1.47506860792357783427356743267697e6,803962.169860904652893185302721120,-349385.312718931168465820607502546,88935.8951921271130894231838923503,630588.341479330296000378095066653,-2.13655549975080224050255855594220e6,3.94075433118392033309939261753250e6,-5.67147201365465580458931512697987e6,6.97477615211067395743818446305069e6,-7.54579103786820762601810551614704e6,7.22003332146390328825210208677094e6,-6.07070801759000314929402462067901e6,4.42837746844219411181447561886714e6,-2.75764092177604552736122791281093e6,1.43532802815457896529935265802916e6,-591985.665722056446007861319541722,144295.605122199065698044194312577,1.35339451820168590660471632236399e6,-4.56673844274125271219955966836727e6,8.36015671940810432420536505632625e6,-1.18996320457077296915500087428412e7,1.44187945516331407005332856284268e7,-1.53059464351299216546769646903615e7,1.43000159163783794479236190271853e7,-1.16657697633335144424944087919689e7,8.17886687936224856409502137761671e6,-4.82152568873485756279140058758120e6,2.32135807933757355274280830023582e6,-863429.147652855199807858655629008,190454.944196912004157059317778034};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<14,long double>(long double* c)
+template<> inline void extrapcoeffs<14,long double>(long double* c)
 {
 initializer_list<double> lc={-10.2910491201745120760288238798559,35.6649932160325766216087854954939,-68.7690593391070322239773060026256,106.433249186057306353358226526756,-146.143486192263888634426069128872,185.396425039936284368298552881784,-221.090120196881314572561012603924,248.301799929366066500321686931137,-257.919153498239416344068534306548,234.545421862513355709039423111380,-165.851313176512109847948190194499,75.7307225154488337566831859905406,-17.8050930492445916823977585640482,2.80352091872003590267703510993137,-37.8146707034560216471931849212323,132.338523121893426929513326063090,-259.733684784192489963103004338320,412.461025995191069984437986601516,-585.586404894057694504223037784489,772.931726435990663436364108569125,-961.633253188619398000330484798036,1122.46223959614404495430285323460,-1199.57644091701316877767462604961,1121.31552041206719751305812266943,-861.453302899804054280584787445832,512.670772995702358558819040712771,-226.530722086344361000602291277326,58.6555525288880038328989934589698,-127.533527567558068145717068367897,449.176493725425051126095582527733,-891.308807027209532727550733997805,1436.18387126051936278669882594828,-2072.38128909747376426390596998835,2776.08252331922462692295432742709,-3485.35745561204618618254409204422,4067.17411303625056526637777473430,-4307.61478053183418376256732189741,3993.98336654513992651988387713234,-3110.01615947563108468749394495589,1957.86729941395747808229622248384,-943.914202007712387367735753316161,257.998792588929115675522030097295,-419.312810579804814593111085030069,1480.64665274544785401063865373233,-2949.65192304157869315077529318076,4771.86604845340577858550851665759,-6900.28250086299159659038787191180,9223.25105430236863196001650975965,-11480.0053489859775580134649227593,13188.4334419175073154991183962936,-13696.0362204070361748938844096057,12495.2164277683483114963516278659,-9710.66891203171241983336541072945,6230.48028130710408760732835157589,-3097.47691771321460217772884973423,863.797656097112537509597933351987,-1339.00310263941210727628402515108,4725.62434280184697359962248989085,-9399.29190846967954289849770048559,15151.2885643264611953099209732721,-21758.1474421982417075196197877979,28749.9844066859916243382265333524,-35191.1432420428247004905999911883,39587.7822848725395283522510871240,-40213.9972170044055749449035953399,36047.9663581223029295847100275185,-27821.6303942169349063666030589004,17963.3276835691916776106000917608,-9049.83293363325887593168958371618,2547.27955263636234937883135119179,-4106.28213009044319256162406732297,14457.1806257640591708874009351260,-28619.9664553266956805445193727088,45782.1593799479931736257968893111,-65007.3010965651290659364181592041,84584.1318258387495427664530270083,-101556.379215595866583452704190150,111783.504409719790475528884473014,-111149.978578375267179977880240155,97965.4592767790556120829488690679,-74967.7840375493932424312521951136,48442.8287714816997597629279454646,-24548.5740092550839834425666630359,6941.17487665328518501342424208789,-12028.9475136183700422887105556397,42212.8729024573739880055814938479,-83056.6348642026850456229409460827,131630.981157696759461999979766330,-184528.268990152725810908148091643,236213.661496403938985015239723131,-278208.662783639132635278255608910,299959.283374362935664645007412836,-292452.132584528075465530561074740,253777.860221333380873926291944072,-192484.901618541117920224189078120,124147.105816814914938433067311885,-63045.1576478192448136476814294152,17863.0908913948911992358100505272,-33665.5384543048312158658979689882,117722.830992710433456361987775251,-230120.732669742193398882220205942,361194.394175960216709447862988387,-499866.140965830303157914143308898,629804.977509051486575684121132708,-728450.831141326344952439238089456,770630.830482684409308943600205497,-738097.963772351945331989238733563,631449.719276302856561767380285968,-474738.473819861987392021792985887,305173.151354712715846369603499371,-154973.169073915456573066453409347,43937.0781309011444354138558335579,-90284.1418115437981418277820443592,314589.040108267087769676009874315,-610987.121512695244439409013297854,949996.932244973229010097897966123,-1.29861047556820315466439475105577e6,1.61197599678716421893265444102803e6,-1.83354094495486125241324005652777e6,1.90649654385793121049897216844349e6,-1.79686040748350440382596650597093e6,1.51730774721391092423589130639468e6,-1.13093026467387249273443478671252e6,723914.839572900093906717352267418,-367116.504437970604592569191139868,104048.878817886597186834222827145,-232926.029018366388565809734235496,808835.157758221436160756691829774,-1.56119024341736888582559084358226e6,2.40577130399186894658932425730686e6,-3.25071700325562888918646476931183e6,3.97970003137809377640153646512347e6,-4.45771966992559199321102923855428e6,4.56264228605076153961492904275138e6,-4.23751517982801615962226426767256e6,3.53507687500670873037895259326751e6,-2.61249724601737300487201496509078e6,1.66408326422924393939065554025013e6,-841917.241591225623948437101112553,238373.801712336430673073747044597,-580415.196636564937306662284442039,2.00891680998371169713254683946748e6,-3.85483132903219786047409861218021e6,5.89031655586515519148797316502053e6,-7.87335614627836301906415308516156e6,9.51604149744950038420167367820956e6,-1.05091077567252059187221590618153e7,1.06015075772588193988559028080866e7,-9.71276921979597256650704795085019e6,8.00992257767088472442861387877500e6,-5.86905598806086503622814728861305e6,3.71779752462101482920853222180608e6,-1.87497757673199836693165961315188e6,530010.768419340827604867878397507,-1.40203163101291605392867474300610e6,4.83765274514607714980715759916191e6,-9.23131935935327764401527248252587e6,1.39941044744811408027984866208683e7,-1.85164566363311182088679778238971e7,2.21131597377726123494265718386738e7,-2.41005827092396702341742281030130e7,2.39850437755133928084379744537103e7,-2.16930080735466903871415172982895e7,1.76906989955309460357212804375212e7,-1.28491092345788721286190371644545e7,8.08895574959350190169803914191994e6,-4.06315688352746404051763763497436e6,1.14604914000845661398108164616212e6,-3.29346623196939398018625123624224e6,1.13305077553145677347716393847357e7,-2.15073328660107436862470006818288e7,3.23593692865303477700182478094103e7,-4.24082436774446028030330824742114e7,5.00767803534740523999923169338623e7,-5.39011673015979195508110748948686e7,5.29552526505326896461320029428955e7,-4.73016933034785293944500230069160e7,3.81462894139935775945088491313633e7,-2.74516719793150249090771918397724e7,1.71603295062375451121376322393359e7,-8.57752261381901325531203805034596e6,2.41256909162304025762132772966568e6,-7.54380568648201912072365117238206e6,2.58797849901037752176758863697480e7,-4.88772258174120580338129624538280e7,7.30129212398209138308048620758100e7,-9.48151345262370629077894301926843e7,1.10757923301769417971803390185646e8,-1.17797404982158366129217538237773e8,1.14289160557425782185515366808272e8,-1.00833420853638306926940199787296e8,8.03890783601721467158433650741888e7,-5.72755599376425278206288460340491e7,3.55128937809771679241185184440344e7,-1.76442278996533607623199248826080e7,4.94501755155542945215632697547358e6};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<15,long double>(long double* c)
+template<> inline void extrapcoeffs<15,long double>(long double* c)
 {
 initializer_list<double> lc={-680785.069834758720415639474411158,2.38745017514326997821156485019113e6,-4.65242845102783325191599249552755e6,7.18772824115353931241763434588054e6,-9.66226249821410824458253083175810e6,1.17462296405987632516973122991197e7,1.37789899126168106269697181462184e7,-1.34934014106405088952114122707755e7,1.23525684346135037690721109504686e7,-1.04841651035296343301874978543171e7,8.09699168274748848706416690423373e6,-5.46603488809294897645502880592397e6,2.92027667637585868975528360430087e6,-856461.606004360269012387093190528,-1.31746947299013404376500165192919e7,-1.22718981403933245715089982849120e6,4.27596204942486666535054372202260e6,-8.25835967922397073027526852596492e6,1.26456344181557269130226932879279e7,-1.68734305251226192933017134229468e7,2.03976946972231258538251173123933e7,2.37606567237999486999063094555656e7,-2.32190704551220823157248587308745e7,2.12233017647467535144555313817502e7,-1.79929699448666385154758595826655e7,1.38848763613619443944534584549430e7,-9.36798691491976520179348825327132e6,5.00310847035691450118563647942716e6,-1.46703443282799299851273296871457e6,-2.27851922129251155872711371292940e7,-2.20822537577858885746591192674016e6,7.65653501604682955348130648570056e6,-1.46857701306731479110850533658352e7,2.23316166407327496307055988092532e7,-2.96228814970117506055545468178798e7,3.56491240969829818148060474619749e7,4.12916377298028744429132055821708e7,-4.02807386079817808432187736501364e7,3.67718964804530498872558942596485e7,-3.11460998432956095633038805325138e7,2.40188515835349572884236696670138e7,-1.61977145818397950280456999866121e7,8.64801332397198536611214972369892e6,-2.53540435929255628649979439096504e6,-3.96908401362790075248018816968537e7,-3.97468522270383835376285711756371e6,1.37295776593579597478309018469417e7,-2.61941612296241967339794595049323e7,3.96153134130023850589737271507331e7,-5.23058887064547926249941927014087e7,6.27209757323754209256444316621020e7,7.23171814515327168477259866243440e7,-7.04474715657072835932427386172234e7,6.42441952513842622155014132252580e7,-5.43738993333094748707343041376327e7,4.19082289480392299146804519405050e7,-2.82509770902523654710545515199781e7,1.50795369368951004230778543672086e7,-4.42039985884800813428656347880730e6,-6.96475261296290902737270102419868e7,-7.16688109722111121050255829396986e6,2.46847442017865582130097090762103e7,-4.69010233458148165339409757566873e7,7.06308690063659824819999617115105e7,-9.29163426391210714730876980233316e7,1.11100892421312331071205416347470e8,1.27630876996854387000059043484699e8,-1.24189133786089696397270357348326e8,1.13157710655561305435949814131901e8,-9.57125114822049662479908807633777e7,7.37360924462833895651264583823883e7,-4.96908620795507845441410923323230e7,2.65180898213500196656557678134748e7,-7.77264307564290584493625131034868e6,-1.23109877837792356270281881636252e8,-1.29591061971905330596309120020440e7,4.45356437203252486057225148773231e7,-8.43479458028187792882790810157900e7,1.26604525893048729549081093965412e8,-1.66073452145038327117102407441377e8,1.98129438142640549942608287778503e8,2.26942726632100691293199612103459e8,-2.20618328876755881671010876290757e8,2.00881957478558658574691766561974e8,-1.69824958433226615377492987087627e8,1.30782642203381553665045637544399e8,-8.81115996928667444443768343901454e7,4.70138545754922394471266501202381e7,-1.37788762614802068238751277803663e7,-2.19176521063409338771110792319522e8,-2.35147268966403254388549242444240e7,8.06734675730673144655148223649928e7,-1.52414826809378248276023061870669e8,2.28184490215900973866004753357739e8,-2.98650369871108429028177226743636e8,3.55666306844077641400132185776309e8,4.06437746752981128146950255134935e8,-3.94812834946508555334528022186123e8,3.59287819255770731293055501452539e8,-3.03611008999867729375941301671829e8,2.33738977670215623234524198230525e8,-1.57441928495429209844426246429358e8,8.39949558184132631839177748389810e7,-2.46155519313138549936845201368383e7,-3.92922516031210216192929605290122e8,-4.28363948569095840821763502854111e7,1.46769088385298966313232915138583e8,-2.76762234481618911202302613954065e8,4.13524854970564392231615263869989e8,-5.40279839475180684417750210160146e8,6.42528862770479737731849493478848e8,7.32871505653103270583372071525007e8,-7.11467346772302772606417297242682e8,6.47141950448958685198052227758744e8,-5.46662422233305061804549461273077e8,4.20746023239141529334726628553226e8,-2.83355339180254541871496140977655e8,1.51152293650119756255141239884707e8,-4.42940339332636544709915517080676e7,-7.09076968053699702778970177668368e8,-7.83595351119870976628802263636458e7,2.68211540266987844693232014012035e8,-5.05028172019709042801577660868361e8,7.53427665039090517625267406168017e8,-9.83026768826167387466944469375027e8,1.16777718927268316334243529749965e9,1.32994165737877802793662044780206e9,-1.29042839517008679983453936736687e9,1.17328538400367024301077769534605e9,-9.90812476592693751699152883641692e8,7.62424670030519799556467947168414e8,-5.13384977185986242638499579106025e8,2.73832863129047337552916699321164e8,-8.02407237556163696924268149086025e7,-1.28761992034126917212513504636041e9,-1.43947470709756941524794385682573e8,4.92328971347832618213587510026268e8,-9.25987857856753248708644801561868e8,1.37978777590095130005621977651638e9,-1.79833318952830649433658806340676e9,2.13442989774296503623669650465527e9,2.42776911974335564535819798502547e9,-2.35459415228875240396965800582770e9,2.14010519536344110142844914969343e9,-1.80679672675823614568802756299126e9,1.39005942938840861659509161787158e9,-9.35889883658051646782125092206517e8,4.99152531258973034955249614860724e8,-1.46259878073335513246282776957868e8,-2.35182376176656639118834979116430e9,-2.65535342587568046226359459973842e8,9.07646460040234877575524074211406e8,-1.70564667598858223692042297838629e9,2.53916346324380667181469134914878e9,-3.30657703420111658340390044144226e9,3.92174530049047927775350172534451e9,4.45597570253239351808522194200609e9,-4.31999636794063341830478059902708e9,3.92527482465604246028361038005952e9,-3.31317937667139658544089226015657e9,2.54858406421151240942889285431077e9,-1.71571112093166815193507950176966e9,9.15007828737768311758547858392052e8,-2.68103660654951880076546043611482e8,-4.31864806483922428259297344968248e9,-4.91788906000710439528483280348470e8,1.68025112229538424047795691794863e9,-3.15538247875337117426849822674240e9,4.69389041210235490876870599947953e9,-6.10832505372102735862135419667281e9,7.24043205156329605237434787339999e9,8.21915854024029991810100948941526e9,-7.96559014111108944043157683768021e9,7.23579818864099724370833998520485e9,-6.10623794411926641185466845428263e9,4.69642439348761701865431869728092e9,-3.16135994399963850315123675174904e9,1.68590104013315455770762799950928e9,-4.93968256597486353215625018711004e8,-7.96920302407097491589180187734256e9,-9.14272692980798144180138885854272e8,3.12259294477746104131312535704761e9,-5.86084234156001860553806244827222e9,8.71329842914763072898369741435482e9,-1.13324718835685394941184586788469e10,1.34259897160001423302871270737259e10,1.52283426195774437898323844675542e10,-1.47539056842114639216953490410655e10,1.33988894453628994489082283393395e10,-1.13052092293983642567929463832473e10,8.69401855769279430580908791222406e9,-5.85188323083149226166909940256737e9,3.12058743193370639568322656589848e9,-9.14313711211743903425122984126065e8,-1.47708203706465095329191136844035e10,-1.70567381593365751816664357303396e9,5.82386506847402344154236329979597e9,-1.09261598409224067343280959649247e10,1.62359123471047713601060311250939e10,-2.11061245080149772841054030442193e10,2.49940184559617196825603107666041e10,2.83281091115463344790407637441763e10,-2.74376388043934298223465557916600e10,2.49121921253414162081659291782743e10,-2.10161778872189664520676134467800e10,1.61604157802914877720175387895460e10,-1.08768488092370725436985210493222e10,5.80004611747160661643881676509714e9,-1.69935901183106346138994622864673e9,-2.74865763285621134189303540120447e10,-3.19234560993505071744889627658065e9,1.08974200340731832037006320880666e10,-2.04373051643812628752868603796256e10,3.03564774093214910301827602583364e10,-3.94456259821766761713733878958985e10,4.66929222811893130067032089309275e10,5.28848797928288206491158327714146e10,-5.12088668190242420564329942449373e10,4.64861407715394628813370703710896e10,-3.92109008767107684574246628807433e10,3.01488809662550024533771873615455e10,-2.02910492875049441349803738701300e10,1.08199639889398063533074684482629e10,-3.17013205584385266813824024658297e9,-5.13304594484973530905703221031331e10};
 copy(lc.begin(),lc.end(),c);
 
 }
-template<> void extrapcoeffs<16,long double>(long double* c)
+template<> inline void extrapcoeffs<16,long double>(long double* c)
 {
 initializer_list<double> lc={1.35465586136337391900281724085720e8,-4.60681378644386487887601593772952e8,8.58568449225997832682178025409777e8,1.62980773270973641453271705140326e9,-1.91373075459200241155012678369982e9,2.09118614227476511733595116081119e9,-2.15005805360944102792070842260647e9,2.09102196956134013566894213456307e9,-1.92558853554248175112214812646667e9,1.67352394854122819317382764185891e9,-1.36020107464601806028832611356813e9,1.01435436480691009151354550549362e9,3.49584899423826116223953835347481e8,-1.26514772220659452690528051068934e9,-6.66637158937146244809428227231107e8,-1.01468413496771250043602267236614e8,2.13698102776088093102068660799828e8,-7.26651643725632218446143588957117e8,1.35400497598124126723163176832037e9,2.56884012864949079504936425309200e9,-3.01529366070543441468830308377036e9,3.29366429732966960126439914579969e9,-3.38510199896387421751648681176189e9,3.29093246868170466804924787798564e9,-3.02951042107920902295667436712553e9,2.63211004982918810348222158226231e9,-2.13873281272469159670876550910865e9,1.59457537089069805630466550391776e9,5.49388050833458226665432022937496e8,-1.99469441956459511222788101258213e9,-1.04777723912036782956698488667852e9,-1.59451248582420824011235117577176e8,3.46179119632867422180361892421379e8,-1.17700185017008697081301055775435e9,2.19273022556746252397254266645035e9,4.15757248555689025008358777852561e9,-4.87830966579960689466631515614827e9,5.32653734381584282987804801012083e9,-5.47217522280448760559629396267116e9,5.31782203070486394434035762705560e9,-4.89355244890849863842168778451261e9,4.25019022200676523612320885483864e9,-3.45249335639224360380912322534260e9,2.57344885137091979793774453797781e9,8.86360944215550505897410531842017e8,-3.22941047851843465008671486532367e9,-1.69066473638409420223747677415076e9,-2.57233463555048944287832531353201e8,5.74550352097123966490317496104936e8,-1.95322920656860278575451117520258e9,3.63807852891860964783365161250257e9,6.89373052502165243535062220123914e9,-8.08563814693808035476157014207225e9,8.82487707688357463693020080489212e9,-9.06230806320038789805912521008274e9,8.80302126900001059567728268232927e9,-8.09751909260216097761661351814071e9,7.03043156111107887506025238554071e9,-5.70916490931232484133173905374457e9,4.25446069345865902331058192014210e9,1.46485258112289369546657485307289e9,-5.35657887415311429504642910236961e9,-2.79447771840905246784522408141932e9,-4.25086576174537446598152390992177e8,9.74350531965399648673486895160017e8,-3.31198693789156486956133689529064e9,6.16761497062241239427037027146678e9,1.16794850684560995531332926186623e10,-1.36934172240668320329142423294719e10,1.49390267320388378279973984039555e10,-1.53343263602179146851662059439186e10,1.48892810876267542234066159031190e10,-1.36905440569801971249550807740509e10,1.18821135186836820226130106236059e10,-9.64601175244933638677916751161119e9,7.18632240660337806607026679908251e9,2.47347410659889856199754404325688e9,-9.07838500087137476824864565407325e9,-4.71927430280217558808508779772449e9,-7.17722787110710841393697038135016e8,1.68363922014979923355250012144451e9,-5.72230730910881338628620162021075e9,1.06539436457305440044304428759058e10,2.01624459762315877644928415037318e10,-2.36298331196368946463066509860859e10,2.57684480966715521912678004604370e10,-2.64389235702123098815177105870213e10,2.56607613941237459370375526806370e10,-2.35854238545739746079186248142472e10,2.04625562001404622897978310961085e10,-1.66064781922920821670660719103858e10,1.23686818860366106212148268851797e10,4.25574146871824866742651408982429e9,-1.56775672703677721966172668039817e10,-8.12090209574214146370064147860485e9,-1.23478247569652544992292596943630e9,2.95639463017022167804279124185411e9,-1.00469570232252270154846115651337e10,1.87019319741559276409937502125899e10,3.53713735800732417604294801682623e10,-4.14383398482399553659640868019392e10,4.51700815076961454669342550974257e10,-4.63258223869437976662935740888650e10,4.49437206598976949895417732939619e10,-4.12927048006168631631220764500189e10,3.58125546471211940486365444011457e10,-2.90548498810793334479105981735519e10,2.16348138448418583494311990487511e10,7.44146145894016621881345639152575e9,-2.75127845540867692898851482503563e10,-1.42019377534288192757231171850883e10,-2.15893605512744324979998181939147e9,5.26250596088382863972559969775324e9,-1.78820157069352342352547256350806e10,3.32800603954485044892262678778178e10,6.29058590822657732171314199065487e10,-7.36681671297085854353791765694255e10,8.02702972936204879978802472497388e10,-8.22904397739252557112708882974213e10,7.98032485587854402700157178692675e10,-7.32925370648378550505202258751760e10,6.35435727433751900219644818654459e10,-5.15375934115427657250097008484006e10,3.83663189492253977706619700051552e10,1.31920441352421336121270057662428e10,-4.89458676379515329967477445807620e10,-2.51802659679264751729285847065493e10,-3.82702042588865281266649200559407e9,9.47565036430903449640665785945322e9,-3.21948671848913610296358894484459e10,5.99064314843571740652132410237003e10,1.13170276042200029252856885256574e11,-1.32484717799703171531639852430712e11,1.44302499393943397971000718016006e11,-1.47875817260534326171352825233778e11,1.43350721830768467417306323818018e11,-1.31607205015484831587561504088862e11,1.14063450821080379111863443581742e11,-9.24852549527192292873645902077266e10,6.88324903560049336554445266216987e10,2.36601170172989736586014144059391e10,-8.80833748595017561920392325998345e10,-4.51670881409721173239982665410738e10,-6.86331209603907212105420324350209e9,1.72273590250514430799784071040663e10,-5.85264483575631486546433171245547e10,1.08883438463478578592329689603019e11,2.05581338087554129386881965253243e11,-2.40584938694816488729366701882097e11,2.61948904020391694197375057803596e11,-2.68333992994466946743589072609106e11,2.60025938266161633796276775969695e11,-2.38640001381177234205884008005390e11,2.06761920804096751298756009823921e11,-1.67600285203898629145930001818213e11,1.24708077425131338242926468690478e11,4.28533180055518198129945324690095e10,-1.60057445931818799762669078474389e11,-8.18171957682459101307551161794265e10,-1.24299857653248033167547417981923e10,3.15760688895882210232311092035000e10,-1.07262890123747067473050192246173e11,1.99519643417147285924522119350000e11,3.76514298828259568627938630150477e11,-4.40478056514774096893247323736062e11,4.79423779431057655464464639163514e11,-4.90932241172344318313226379903544e11,4.75562479272391469294284223711539e11,-4.36302030664672334673287212196292e11,3.77903264429747490970688017621934e11,-3.06244199181637611363413617880987e11,2.27819298485906332866534475739444e11,7.82621932380898963083888259899838e10,-2.93223157785053847250225304628886e11,-1.49439347908153424422177016959302e11,-2.26991026417088687863842085937837e10,5.82744182866121185237413753647345e10,-1.97938096311649591028306775784207e11,3.68125245178410352250250551137856e11,6.94346133516680423273414827373877e11,-8.12051159771349038486919924147219e11,8.83553153296300335165238777670035e11,-9.04449702225396765096183193685514e11,8.75834658131935830574279554145252e11,-8.03269018580641923822604919955700e11,6.95546285962339095525897011935226e11,-5.63509250312167449070680108206096e11,4.19112300516614172597797992326083e11,1.43935745017730938301449359870104e11,-5.40893277127645259415525823057143e11,-2.74873153282338733162107263965912e11,-4.17442822953457160346539119222824e10,1.08174897022043774913286819217461e11,-3.67400605899282814785510162318200e11,6.83186806881003286667446139847790e11,1.28799617450494569820119924796588e12,-1.50588800346528894251233324261117e12,1.63795687158529932084820192240820e12,-1.67614079972666936202694987964882e12,1.62258031463885973255229434671086e12,-1.48768237169146738063542139692607e12,1.28781100997480481543659027712950e12,-1.04308452491538952171934709223484e12,7.75638475396162988558284058656091e11,2.66304976097499642959649999835576e11,-1.00360632572114631043108723233254e12,-5.08617894321550326460552733481756e11,-7.72290003597422071278287698319203e10,2.01805253626465064381466294889615e11,-6.85345516813585467883937519823857e11,1.27422371708031566412290390870519e12,2.40118080284000218343044217113823e12,-2.80659308193092434626324973666100e12,3.05179823944878247369561231758514e12,-3.12195241811468291255503432087730e12,3.02124483787884063649787683687501e12,-2.76924006275222852695470862187051e12,2.39653853871372854702821295987993e12,-1.94065559347154342384697985197274e12,1.44278749072165805433202804535348e12,4.95231982313350082869824911346474e11,-1.87146535130246210704964047871247e12,-9.45949168472138123493071668835338e11,-1.43609669765500883728244171793124e11,3.78085907103031653818728155860857e11,-1.28390527785669622145796474457798e12,2.38675847070303124394510000933157e12,4.49573191722506532847975381049802e12,-5.25335570894090752107205676158958e12,5.71064800265115961080076962954542e12,-5.84014964178037905034669307091516e12,5.65006034047515201420659947896795e12,-5.17730348572118309323158345172440e12,4.47933981801193598842710187260520e12,-3.62642590597336915425893963137719e12,2.69556698932695389456710812495211e12,9.25011744460729384465661449729955e11,-3.50477943848595192894071681087866e12,-1.76706004392648546320388881630852e12,-2.68223687272014518817131952143896e11,7.10965349508295549690815343928992e11,-2.41411433735432732830550508129189e12,4.48719912799502667824377591195344e12,8.44866336634231526657628551693527e12,-9.86986304382097783357418124210916e12,1.07259835049051542222792229295468e13,-1.09660216164093621653132163886639e13,1.06060289636498706211628516006678e13,-9.71592200995287362219538694348032e12,8.40398658134252900492184533167933e12,-6.80228297274856186883108458943108e12,5.05529595199178494848567152044560e12,1.73435763137283681440950207903501e12,-6.58790428096974039978572929006612e12,-3.31349220653666687252507413684109e12,-5.02880009315234999769261500204813e11};
 copy(lc.begin(),lc.end(),c);
diff --git a/common/include/AllocateDestroyVector.hpp b/common/include/AllocateDestroyVector.hpp
index 4d78f90..36bdff5 100644
--- a/common/include/AllocateDestroyVector.hpp
+++ b/common/include/AllocateDestroyVector.hpp
@@ -12,14 +12,14 @@ namespace odes{
 #include "mm_malloc.h"
 #endif
 // Blocked alignment allocation.
-double *allocDoubleArray(int size)
+inline double *allocDoubleArray(int size)
 {return (double *) _mm_malloc(size*sizeof(double),BLOCK_FACTOR);}
-void destroyDoubleArray(double *x){_mm_free(x);}
+inline void destroyDoubleArray(double *x){_mm_free(x);}
 #define ASSUME_ALIGNED(lvalueptr) ASSUME_IS_ALIGNED(lvalueptr,BLOCK_FACTOR)
 #else
 // Classical {new,delete} allocation. We cannot assume aligment.
-double *allocDoubleArray(int size){return new double[size];}
-void destroyDoubleArray(double *x){delete[] x;}
+inline double *allocDoubleArray(int size){return new double[size];}
+inline void destroyDoubleArray(double *x){delete[] x;}
 #define ASSUME_ALIGNED(lvalueptr)
 #endif
 };
diff --git a/common/include/logger.hpp b/common/include/logger.hpp
index e2abac7..e82d206 100644
--- a/common/include/logger.hpp
+++ b/common/include/logger.hpp
@@ -73,7 +73,7 @@ namespace odes
     }
   };
   ///! overload <<
-  std::ostream& operator<<(std::ostream& os, const logger& obj)
+  inline std::ostream& operator<<(std::ostream& os, const logger& obj)
   {
     // write obj to stream
     os<<obj.tostring();
-- 
2.43.0


From 9537ced14537f77be5996a6528295b698bf2e979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 15/29] fix: Rock4 and Rock4L could not be used in one program

Both define a class of the same name, with different table layouts, in
namespace odes: the linker kept one of them for both integrators. The
headers also had the same include guards.
---
 Rock4-L/include/Rock4Coeffs.hpp | 16 ++++++++--------
 Rock4-L/include/Rock4L.hpp      |  6 +++---
 Rock4-L/include/coeffs-rock4    |  6 ++++--
 Rock4-L/include/rock4.hpp       |  6 +++---
 4 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/Rock4-L/include/Rock4Coeffs.hpp b/Rock4-L/include/Rock4Coeffs.hpp
index b5e02e7..1746dd4 100644
--- a/Rock4-L/include/Rock4Coeffs.hpp
+++ b/Rock4-L/include/Rock4Coeffs.hpp
@@ -1,5 +1,5 @@
-#ifndef Rock4Coeffs__h
-#define Rock4Coeffs__h
+#ifndef Rock4LCoeffs__h
+#define Rock4LCoeffs__h
 #include "coeffs-rock4"
 ////////////////////////////////////////////////////////////////////////
 /// 
@@ -9,24 +9,24 @@
 ///
 ////////////////////////////////////////////////////////////////////////
 namespace odes {
-struct Rock4Coeffs
+struct Rock4LCoeffs
 {
-  inline double recf(int i) const {return RECF[i-1];}//fortran starts at 1.
+  inline double recf(int i) const {return rock4L::RECF[i-1];}//fortran starts at 1.
   inline double fpa(int i,int j) const 
   {
-    return FPA[(i-1)*6+j-1];
+    return rock4L::FPA[(i-1)*6+j-1];
   }
   inline double fpb(int i,int j) const 
   {
-    return FPB[(i-1)*4+j-1];
+    return rock4L::FPB[(i-1)*4+j-1];
   }
   inline double fpbe(int i,int j) const
   {
-    return FPBE[(i-1)*5+j-1];
+    return rock4L::FPBE[(i-1)*5+j-1];
   }
   inline int ms(int i) const 
   {
-    return MS[i-1];
+    return rock4L::MS[i-1];
   }
 };
 };
diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index 8064b38..c9241c1 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -1,5 +1,5 @@
-#ifndef Rock4__h
-#define Rock4__h
+#ifndef Rock4L__h
+#define Rock4L__h
 #include "Rock4Coeffs.hpp"
 #include "MacrosForCompilers.hpp"
 #include "AllocateDestroyVector.hpp"
@@ -54,7 +54,7 @@ namespace odes{
     double *fn,*k1,*k2,*temp,*g0,*g1,*g2;
     double *BigArray;
     int mp[3],mdeg,funccal,nrej,nsteps,nacc,nstagesmax,sizesplit;
-    Rock4Coeffs Coeffs;
+    Rock4LCoeffs Coeffs;
     double ac[5][4],bc[5],hc[5];
 
     //! We want to compute polynomial for the 2nd formula in Horner form.
diff --git a/Rock4-L/include/coeffs-rock4 b/Rock4-L/include/coeffs-rock4
index e5691e5..11978d9 100644
--- a/Rock4-L/include/coeffs-rock4
+++ b/Rock4-L/include/coeffs-rock4
@@ -1,8 +1,10 @@
-#ifndef coeffs__rock4
-#define coeffs__rock4
+#ifndef coeffs__rock4L
+#define coeffs__rock4L
+namespace odes { namespace rock4L {
 static double FPA[300]={-.149352078672699e+00,0.629768962985252e+00,-.355201061573650e+00,0.146745996307541e-01,-.558517281602565e-01,0.590312931352706e+00,-.179313593132677e+00,0.522354978881996e+00,-.268020263243268e+00,0.410644459848542e-01,-.673692676033641e-01,0.534974252895965e+00,-.182428104178289e+00,0.488581974232839e+00,-.243999027372673e+00,0.403844469216897e-01,-.621100542563179e-01,0.510891501054959e+00,-.177747282156689e+00,0.475598890858970e+00,-.236544145857569e+00,0.357873367680739e-01,-.561802405454197e-01,0.498502393780149e+00,-.171097214294784e+00,0.471021380996139e+00,-.235432301175529e+00,0.305165148305403e-01,-.508758913107147e-01,0.491537536121394e+00,-.164446145110292e+00,0.470315341552133e+00,-.237054736024656e+00,0.253636332272387e-01,-.462365759807733e-01,0.487394153808489e+00,-.158427655171257e+00,0.471468878620055e+00,-.239853802450812e+00,0.205746749952032e-01,-.421744356707249e-01,0.484829913014008e+00,-.153293058075572e+00,0.473282079177035e+00,-.242910850765406e+00,0.163722321103915e-01,-.387108095861697e-01,0.483081034299037e+00,-.148972804305139e+00,0.475296959544537e+00,-.245899260153289e+00,0.127203010191100e-01,-.357508839759137e-01,0.481825981739298e+00,-.145179937599982e+00,0.477661231491125e+00,-.248988404183759e+00,0.930730703798092e-02,-.330359105371527e-01,0.481074258113903e+00,-.141803779162182e+00,0.480294472251598e+00,-.252149638985389e+00,0.605980548716020e-02,-.304878190339923e-01,0.480717680079251e+00,-.139121943562170e+00,0.482307569354585e+00,-.254656989245024e+00,0.349723479360248e-02,-.284636204606306e-01,0.480267545886151e+00,-.136626653539895e+00,0.484641896383759e+00,-.257332057712838e+00,0.915869293860006e-03,-.264509129364182e-01,0.480154720984400e+00,-.134486447576714e+00,0.486757723660692e+00,-.259733624852103e+00,-.135988997170157e-02,-.246765061257936e-01,0.480084593714673e+00,-.132780674018083e+00,0.488321952587049e+00,-.261588769418801e+00,-.313701049350723e-02,-.232786280695929e-01,0.479882004899598e+00,-.131117609799413e+00,0.490193639754613e+00,-.263646432339284e+00,-.502134729674226e-02,-.218133033112692e-01,0.479929065438669e+00,-.129737943206222e+00,0.491700319201409e+00,-.265337954300747e+00,-.657602712355092e-02,-.205977998576123e-01,0.479898556782486e+00,-.128546948141681e+00,0.493011323225514e+00,-.266816177922376e+00,-.793004771706004e-02,-.195369613099883e-01,0.479857299633325e+00,-.127460377104448e+00,0.494293149884316e+00,-.268231271325724e+00,-.920717061172173e-02,-.185386009080156e-01,0.479869528636923e+00,-.126496410155342e+00,0.495458691659965e+00,-.269513232370108e+00,-.103575442717928e-01,-.176387115527810e-01,0.479887174404288e+00,-.124868416118615e+00,0.497490597051425e+00,-.271737391165211e+00,-.123394260182449e-01,-.160868868427959e-01,0.479932724633469e+00,-.123564405510046e+00,0.499164732520327e+00,-.273565616640958e+00,-.139585436258901e-01,-.148169722656038e-01,0.479973747650230e+00,-.122505008329286e+00,0.500555383947992e+00,-.275081797679137e+00,-.152951780850662e-01,-.137670777523960e-01,0.480009428375171e+00,-.121640329449530e+00,0.501700402349954e+00,-.276333007672789e+00,-.163961730000813e-01,-.129007107727469e-01,0.480031673127157e+00,-.120917917691482e+00,0.502675119491259e+00,-.277395466055127e+00,-.173277807640047e-01,-.121670308408281e-01,0.480054118477096e+00,-.120710248396632e+00,0.502361065588637e+00,-.277299180400763e+00,-.173459597107178e-01,-.121268146405534e-01,0.479596544727020e+00,-.120151946726542e+00,0.503187463625006e+00,-.278173489088946e+00,-.180998664145073e-01,-.115355117518033e-01,0.479663327238431e+00,-.119650804512964e+00,0.503968844736113e+00,-.278987558251327e+00,-.187954561730573e-01,-.109907774512063e-01,0.479748806593835e+00,-.119231690274109e+00,0.504610327555198e+00,-.279662019452110e+00,-.193736976241804e-01,-.105368584242475e-01,0.479807172254604e+00,-.118685223311611e+00,0.505479309944796e+00,-.280566027535941e+00,-.201436607277488e-01,-.993291024114479e-02,0.479903135786603e+00,-.118231796286135e+00,0.506213890671776e+00,-.281327499307895e+00,-.207902381330527e-01,-.942553811892237e-02,0.479988558979737e+00,-.117860168810132e+00,0.506813986559461e+00,-.281951733666353e+00,-.213206692268858e-01,-.900871675159034e-02,0.480053891764692e+00,-.117541632407920e+00,0.507340547092223e+00,-.282496164808253e+00,-.217814864430309e-01,-.864670120809640e-02,0.480116952219068e+00,-.117280791290490e+00,0.507762024730383e+00,-.282936101835780e+00,-.221553810871189e-01,-.835235476491614e-02,0.480159581641243e+00,-.117020809344219e+00,0.508234853606851e+00,-.283411245544839e+00,-.225511383509412e-01,-.804255449961079e-02,0.480240908974576e+00,-.116840110106662e+00,0.508513931927332e+00,-.283708061860511e+00,-.228054436800931e-01,-.784157438541911e-02,0.480258758199155e+00,-.116999141776097e+00,0.507738965363869e+00,-.283085550597818e+00,-.223557928014705e-01,-.817646181729438e-02,0.479839084150866e+00,-.116787474223622e+00,0.508124510062097e+00,-.283473179991593e+00,-.226786360708563e-01,-.792370493215401e-02,0.479905001144018e+00,-.116543053242319e+00,0.508649023059358e+00,-.283975543942050e+00,-.230858609767789e-01,-.760742817737876e-02,0.480040247388773e+00,-.116369877848172e+00,0.508950670881779e+00,-.284284071372858e+00,-.233448484372084e-01,-.740387836067644e-02,0.480081925815726e+00,-.115981831952477e+00,0.509942937789055e+00,-.285192892337194e+00,-.240615204888854e-01,-.685134671736066e-02,0.480412958109969e+00,-.115934409239879e+00,0.509932625794726e+00,-.285214065725890e+00,-.240929036649298e-01,-.682325905888604e-02,0.480353282861487e+00,-.114543930853965e+00,0.514055666969259e+00,-.288877128663596e+00,-.269187182378037e-01,-.465261555222027e-02,0.481928410401348e+00,-.114338190892959e+00,0.514568129329710e+00,-.289354467784058e+00,-.272970253684862e-01,-.435838305221696e-02,0.482082731512007e+00,-.113900806706479e+00,0.515815247278763e+00,-.290479621681517e+00,-.281706242269155e-01,-.368286974902504e-02,0.482524745170433e+00,-.114241230745559e+00,0.514642605930859e+00,-.289464730587169e+00,-.274037778296787e-01,-.427016797791793e-02,0.482029696494976e+00,-.113830853818569e+00,0.515834254672657e+00,-.290535565769687e+00,-.282330735764243e-01,-.362939602828681e-02,0.482459847410651e+00,-.113105039346215e+00,0.518047629039909e+00,-.292508542364670e+00,-.297505373346793e-01,-.245703714012197e-02,0.483285747825278e+00,-.113373695071906e+00,0.517118156325443e+00,-.291701320745508e+00,-.291406743553601e-01,-.292560575875699e-02,0.482899951273987e+00,-.112938370080633e+00,0.518440212713205e+00,-.292882869228272e+00,-.300502325911247e-01,-.222188377341845e-02,0.483386803334408e+00};
 static double FPB[200]={0.934502625489809e+00,-.426556402801135e+00,-.428612609028723e+00,0.744370090574855e+00,0.727428506710284e+00,-.281882500610754e+00,-.366883181811475e+00,0.684341322628128e+00,0.671969568061243e+00,-.247327027296030e+00,-.348410422675722e+00,0.657516722491004e+00,0.655616700297981e+00,-.238808679740035e+00,-.342918097601918e+00,0.643274312048176e+00,0.653766630051757e+00,-.239717659625342e+00,-.342124625373560e+00,0.634842894408973e+00,0.657958401550080e+00,-.244504571310874e+00,-.343125007747822e+00,0.629452994091047e+00,0.664644828327504e+00,-.250836131475691e+00,-.344767760715637e+00,0.625804292371554e+00,0.671778926897883e+00,-.257341094888494e+00,-.346437936729090e+00,0.623113789954589e+00,0.678662206121957e+00,-.263538563990534e+00,-.347971227180309e+00,0.621040683222628e+00,0.685711960310753e+00,-.269724027269246e+00,-.349535907736682e+00,0.619566456617273e+00,0.692884607363355e+00,-.275886628173354e+00,-.351131980732774e+00,0.618568501341401e+00,0.698546656891454e+00,-.280881006247969e+00,-.352285102713857e+00,0.617571192399056e+00,0.704573921792281e+00,-.286045457291729e+00,-.353563979295968e+00,0.616965030808178e+00,0.709971428905986e+00,-.290682008221983e+00,-.354679184547433e+00,0.616462060289197e+00,0.714125178664410e+00,-.294349691347616e+00,-.355464510591820e+00,0.615888572779772e+00,0.718736274563484e+00,-.298288036358834e+00,-.356401512165052e+00,0.615594896206387e+00,0.722517387767685e+00,-.301568462204942e+00,-.357129478686764e+00,0.615267647826005e+00,0.725816343813274e+00,-.304448113195281e+00,-.357746756688570e+00,0.614963961979991e+00,0.728974076820863e+00,-.307182320589777e+00,-.358345483491417e+00,0.614739362936109e+00,0.731832397913825e+00,-.309659464712225e+00,-.358881456195461e+00,0.614544900863432e+00,0.736786729484850e+00,-.313957288328657e+00,-.359797924432667e+00,0.614228100935116e+00,0.740854099130286e+00,-.317495426161459e+00,-.360535121685962e+00,0.613973796355241e+00,0.744223896195403e+00,-.320433632193417e+00,-.361135560093482e+00,0.613766054898060e+00,0.747001832700433e+00,-.322865419691933e+00,-.361620350229670e+00,0.613586121252665e+00,0.749359431920161e+00,-.324930741701897e+00,-.362028107948934e+00,0.613438378039065e+00,0.749100998320598e+00,-.324985993239383e+00,-.361796607662197e+00,0.612867258144605e+00,0.751043873200700e+00,-.326661586308774e+00,-.362147816931696e+00,0.612807453647952e+00,0.752854624396087e+00,-.328210433831008e+00,-.362482431451812e+00,0.612782100341090e+00,0.754353169889782e+00,-.329501139703409e+00,-.362752509396770e+00,0.612745403519662e+00,0.756363017447499e+00,-.331222786188901e+00,-.363119850550614e+00,0.612719466518580e+00,0.758055963580132e+00,-.332671506824595e+00,-.363429198770158e+00,0.612703916106263e+00,0.759443004727975e+00,-.333862330033422e+00,-.363679324780792e+00,0.612685408765563e+00,0.760653160327002e+00,-.334898139570366e+00,-.363899175365336e+00,0.612677301460611e+00,0.761629956010211e+00,-.335739950284413e+00,-.364072376423153e+00,0.612660139381166e+00,0.762688789887627e+00,-.336630474589357e+00,-.364274785126092e+00,0.612687294013859e+00,0.763346400554849e+00,-.337204680067583e+00,-.364385896133756e+00,0.612661785846953e+00,0.761923304846226e+00,-.336206156720779e+00,-.363978603432088e+00,0.612221699604794e+00,0.762786806785331e+00,-.336933071907623e+00,-.364142956905108e+00,0.612243212238912e+00,0.763911644345184e+00,-.337848624997397e+00,-.364378249037553e+00,0.612335667041690e+00,0.764597562248984e+00,-.338433363367646e+00,-.364503441229143e+00,0.612339040874567e+00,0.766642781170500e+00,-.340044276021276e+00,-.364967251951014e+00,0.612618883157375e+00,0.766682555493412e+00,-.340118220148353e+00,-.364946973037536e+00,0.612538317898983e+00,0.774955438746513e+00,-.346489297090328e+00,-.366916081411072e+00,0.613985554671875e+00,0.776027351639685e+00,-.347348043660042e+00,-.367147411126057e+00,0.614109087783370e+00,0.778563137974742e+00,-.349330512988104e+00,-.367727843519890e+00,0.614502095324990e+00,0.776264664166250e+00,-.347594735539935e+00,-.367159451116240e+00,0.614023148520995e+00,0.778679038214519e+00,-.349476481579656e+00,-.367715953710640e+00,0.614409463784688e+00,0.783131247138323e+00,-.352927933064792e+00,-.368752741091226e+00,0.615166687043411e+00,0.781304104495501e+00,-.351541585232233e+00,-.368306700790280e+00,0.614794688266817e+00,0.783969323650751e+00,-.353613571196170e+00,-.368922535023076e+00,0.615238813023293e+00};
 static double FPBE[250]={0.113509972110540e+01,-.584333360989720e+00,-.319172911177732e+00,0.482853558185876e+00,0.109256697110981e+00,0.100479199674788e+01,-.436644602461537e+00,-.423443966877378e+00,0.538770645909717e+00,0.795300735974956e-01,0.984907410167693e+00,-.403297625005343e+00,-.485090625106059e+00,0.576309835350610e+00,0.609198451735942e-01,0.980171201303714e+00,-.394437889689979e+00,-.517381582925487e+00,0.601142288908999e+00,0.476702174069568e-01,0.974834695776200e+00,-.392308952799017e+00,-.530263724070033e+00,0.616510618632796e+00,0.379946019218839e-01,0.966668353329992e+00,-.391741144639394e+00,-.531455776704021e+00,0.625494551194751e+00,0.308158334011040e-01,0.956319747720222e+00,-.391138376736994e+00,-.526142643689543e+00,0.630404554467362e+00,0.254019467466823e-01,0.943587787064690e+00,-.389377300510789e+00,-.516876350192269e+00,0.632531861517858e+00,0.212476873553974e-01,0.929868441621807e+00,-.386750527439590e+00,-.505935645060380e+00,0.633001592986906e+00,0.180092360649997e-01,0.917878947092234e+00,-.384686528119553e+00,-.495511556683115e+00,0.632891756120139e+00,0.154458635123923e-01,0.907921031017813e+00,-.383354597608536e+00,-.486086276370317e+00,0.632568615019003e+00,0.133857277406643e-01,0.896388476009400e+00,-.380504535913835e+00,-.476131894672218e+00,0.631491892380436e+00,0.117078025249012e-01,0.887685870010584e+00,-.378944197433540e+00,-.467828653690999e+00,0.630692391160778e+00,0.103241059659401e-01,0.879470814062224e+00,-.377245094706344e+00,-.460102121012690e+00,0.629778007382364e+00,0.917069070021292e-02,0.870530751362587e+00,-.374648589005799e+00,-.452452352164561e+00,0.628569291738020e+00,0.820044757449899e-02,0.864018892596866e+00,-.373280954775127e+00,-.446202255714937e+00,0.627730565946685e+00,0.737537419249938e-02,0.857357924295629e+00,-.371485680656218e+00,-.440234425775788e+00,0.626780133051391e+00,0.666914378696866e-02,0.851096961215784e+00,-.369663988413454e+00,-.434754090977242e+00,0.625846657124080e+00,0.605989696024640e-02,0.845691163494378e+00,-.368162878390094e+00,-.429905486466339e+00,0.625032425385260e+00,0.553041165257352e-02,0.840754783321373e+00,-.366754374490097e+00,-.425504080282415e+00,0.624272520855683e+00,0.506752846502820e-02,0.832129732678031e+00,-.364215201885908e+00,-.417868687835329e+00,0.622912972095680e+00,0.430080260616755e-02,0.824841358445432e+00,-.361969316759517e+00,-.411506554101034e+00,0.621735648069777e+00,0.369621198344728e-02,0.818660702021942e+00,-.359997706140366e+00,-.406173910081373e+00,0.620720634622955e+00,0.321103838340649e-02,0.813343156361523e+00,-.358234931076463e+00,-.401657773073081e+00,0.619835953653306e+00,0.281577816620828e-02,0.808812551334635e+00,-.356709737514645e+00,-.397829666549206e+00,0.619076368359449e+00,0.248944467816156e-02,0.802058241484851e+00,-.353305127983149e+00,-.393665858753007e+00,0.617880189866334e+00,0.221821094859412e-02,0.799023019885202e+00,-.352371068280062e+00,-.390970958156562e+00,0.617372975124671e+00,0.198795503493263e-02,0.796533707522770e+00,-.351659214274525e+00,-.388680577600314e+00,0.616958145987822e+00,0.179179781860265e-02,0.794254415802991e+00,-.350955011234794e+00,-.386652430547127e+00,0.616574541234043e+00,0.162340905415174e-02,0.791451974069317e+00,-.350127723737597e+00,-.384099751306937e+00,0.616103218945433e+00,0.141212925634866e-02,0.789140296939903e+00,-.349447391105024e+00,-.381986708309451e+00,0.615713343205178e+00,0.123963336103694e-02,0.787155036742462e+00,-.348839107260454e+00,-.380202863720354e+00,0.615376708082511e+00,0.109698483515876e-02,0.785509443687073e+00,-.348347728366112e+00,-.378703894403193e+00,0.615097681507449e+00,0.977644426693831e-03,0.784038223206202e+00,-.347876842227869e+00,-.377407083344177e+00,0.614846655967241e+00,0.876815082414696e-03,0.783010378301710e+00,-.347648245486129e+00,-.376356876713355e+00,0.614674780335034e+00,0.790787748777402e-03,0.781833266343420e+00,-.347234482878725e+00,-.375370253527294e+00,0.614472179428255e+00,0.716900834807566e-03,0.778157258445688e+00,-.345006104027160e+00,-.373629716648469e+00,0.613804905745683e+00,0.633900782409020e-03,0.777300034873279e+00,-.344806720424309e+00,-.372764739426396e+00,0.613661241678936e+00,0.564173510000384e-03,0.776985336763925e+00,-.344948310351192e+00,-.372138199888685e+00,0.613616309802328e+00,0.505301025547597e-03,0.776123576908821e+00,-.344696744011525e+00,-.371340582024658e+00,0.613469644712914e+00,0.443902941209962e-03,0.776949282583553e+00,-.345654199916775e+00,-.371072531043118e+00,0.613634699306968e+00,0.392885424956897e-03,0.775876610212432e+00,-.345123309087147e+00,-.370392356339381e+00,0.613444359409516e+00,0.350376011087039e-03,0.783347589653809e+00,-.351086251339795e+00,-.371860974551612e+00,0.614828131953302e+00,0.307119201283797e-03,0.783496656673086e+00,-.351443051706240e+00,-.371545102252444e+00,0.614860564019234e+00,0.271917903319380e-03,0.785178130625954e+00,-.352964147655529e+00,-.371615967722576e+00,0.615170969674100e+00,0.237891869788885e-03,0.782045229930799e+00,-.350764936286095e+00,-.370561648626977e+00,0.614604810918108e+00,0.210170095234033e-03,0.783792445229447e+00,-.352285904984906e+00,-.370720709266521e+00,0.614926468923107e+00,0.183766807783551e-03,0.787664243592327e+00,-.355426631067992e+00,-.371408773264980e+00,0.615628921926696e+00,0.159498839664580e-03,0.785248632105467e+00,-.353713152595833e+00,-.370620439974436e+00,0.615195478568662e+00,0.139988635943928e-03,0.787452369208138e+00,-.355534844520464e+00,-.370962019539811e+00,0.615594462312992e+00,0.122062993942758e-03};
 static double RECF[4382]={.1762962957651941e+00,.1067131485543800e+00,.1296319693918818e+00,.6097984609869632e-02,.7296375286357569e-01,.8749824867149327e-01,.6126949805354446e-02,.1026802330400501e+00,.3026744779900850e-01,.5345766591735225e-01,.6421114488497465e-01,.6297251335072349e-02,.7361067001944596e-01,.2954244012876854e-01,.8450213007949955e-01,.6370198138618569e-01,.4102541073974864e-01,.4936734181284644e-01,.6437548414781547e-02,.5655964819916140e-01,.3008674068005620e-01,.6301337991392047e-01,.6092514503458917e-01,.7122116739390528e-01,.1014508394981259e+00,.3256098772501858e-01,.3923994550846150e-01,.6548791582739922e-02,.4499511886194148e-01,.3061034821432499e-01,.5000269311882022e-01,.6157339578289546e-01,.5465516336291797e-01,.9570538881974760e-01,.6104333020232396e-01,.1406290220864037e+00,.2651417777294218e-01,.3199100352247176e-01,.6637416338030012e-02,.3671473048471728e-01,.3104646653985547e-01,.4080808506561111e-01,.6240780397840483e-01,.4441697436286914e-01,.9608256539833336e-01,.4790790953491602e-01,.1314940925346221e+00,.5299225195731577e-01,.1795490141555294e+00,.2203688946407306e-01,.2661454798174795e-01,.6708509073973803e-02,.3056730958573840e-01,.3140468274131318e-01,.3399153986085689e-01,.6314347647488826e-01,.3698314358022203e-01,.9706950916624359e-01,.3966494820191785e-01,.1312524251550016e+00,.4237605842481057e-01,.1670258610104497e+00,.4651311259978263e-01,.2174924541420837e+00,.1862250741526137e-01,.2250861576538788e-01,.6766202022280821e-02,.2586805882924489e-01,.3170042346032810e-01,.2877953008086195e-01,.6376714023863055e-01,.3131867762450776e-01,.9801783524123061e-01,.3355864056201850e-01,.1322218594416999e+00,.3560688231225300e-01,.1658724905539629e+00,.3777371673577270e-01,.2016177039517425e+00,.4119698781191684e-01,.2539572842035754e+00,.1595000101933615e-01,.1929098080329146e-01,.6813771091892661e-02,.2218226060548395e-01,.3194763050768121e-01,.2468951849041972e-01,.6429708643843554e-01,.2687566748685502e-01,.9885398134767074e-01,.2879687047315825e-01,.1332911334324939e+00,.3051024265050759e-01,.1666672556601528e+00,.3211180339134084e-01,.1993212628717513e+00,.3387840798530223e-01,.2348117800966209e+00,.3672204698847085e-01,.2881723275817451e+00,.1381614369504127e-01,.1671925338932986e-01,.6853396714797705e-02,.1923405366588467e-01,.3215586472031486e-01,.2141625996563439e-01,.6474907548155117e-01,.2331937590115891e-01,.9958008772514044e-01,.2499024766114432e-01,.1342748583683893e+00,.2647050763871464e-01,.1677665086248348e+00,.2780637354179997e-01,.1998070962536277e+00,.2908398701850636e-01,.2312827828857880e+00,.3054428937166170e-01,.2663434084812225e+00,.3290759457513454e-01,.3198421010321994e+00,.1209208337462717e-01,.1463956211973881e-01,.6886319232429428e-02,.1684821591214353e-01,.3233043835607318e-01,.1876598514920064e-01,.6513176017688395e-01,.2043905166732186e-01,.1002021458157551e+00,.2190770330626050e-01,.1351369448238108e+00,.2320633429617816e-01,.1688220571485906e+00,.2436655982458731e-01,.2008416611727759e+00,.2542750723914090e-01,.2313613787046680e+00,.2646792773501215e-01,.2616749611549993e+00,.2769967463189309e-01,.2964076499426887e+00,.2970440766084731e-01,.3502117812643117e+00,.1067034715302655e-01,.1292329710584654e-01,.6914320860943588e-02,.1487812037525849e-01,.3248006428304434e-01,.1657652594868420e-01,.6546254336130322e-01,.1805880263820550e-01,.1007449363462607e+00,.1936010074490956e-01,.1358990057232774e+00,.2051007922030995e-01,.1697855056821405e+00,.2153416689781703e-01,.2019295372474008e+00,.2245709430196045e-01,.2322718220467692e+00,.2331275056513504e-01,.2612402870437151e+00,.2417201314765524e-01,.2904095866946978e+00,.2521646587374857e-01,.3246308095620147e+00,.2690764435467064e-01,.3778240223542354e+00,.9487431939295813e-02,.1149440138138981e-01,.6938125808908258e-02,.1323700105262745e-01,.3260808020167218e-01,.1475188210924817e-01,.6574755356940067e-01,.1607452560476730e-01,.1012162270929412e+00,.1723591531771676e-01,.1365667423922086e+00,.1826211676183441e-01,.1706429091716792e+00,.1917496536345655e-01,.2029443389633356e+00,.1999362278384748e-01,.2333350798953319e+00,.2073811037471499e-01,.2619641661449880e+00,.2143841440760416e-01,.2894413776906615e+00,.2215820736295387e-01,.3175489053704050e+00,.2305270619849904e-01,.3512439576972030e+00,.2449014264738941e-01,.4036179314586852e+00,.8494564197695063e-02,.1029439196351078e-01,.6958406921839354e-02,.1185809158880236e-01,.3271773184277712e-01,.1321815865055247e-01,.6599313162331371e-01,.1440610601409755e-01,.1016249390468336e+00,.1544947770682643e-01,.1371499803680846e+00,.1637143556780157e-01,.1713990070155131e+00,.1719123774995229e-01,.2038574724036485e+00,.1792514377153798e-01,.2343593316805466e+00,.1858798779956469e-01,.2629560717194659e+00,.1919659343371288e-01,.2899296316580346e+00,.1977810373828767e-01,.3160315643000932e+00,.2039024270914711e-01,.3432192271881122e+00,.2116722465269759e-01,.3765294846983478e+00,.2240833445471075e-01,.4283514372117345e+00,.7648100953017721e-02,.9270847111494889e-02,.6976054938079860e-02,.1068147039692487e-01,.3281359708712486e-01,.1190898600388846e-01,.6620896361366048e-01,.1298157114442065e-01,.1019862089328133e+00,.1392387354640439e-01,.1376687444923527e+00,.1475662479151471e-01,.1720764656800079e+00,.1549702171989481e-01,.2046849615229637e+00,.1615937354505817e-01,.2353135758405889e+00,.1675598207974404e-01,.2639750061864973e+00,.1729863164965770e-01,.2908276346191939e+00,.1780176282268598e-01,.3162404475076796e+00,.1828983612841132e-01,.3410641528662292e+00,.1881415834433531e-01,.3673520724841440e+00,.1948852933531380e-01,.4000529139809629e+00,.2055287002810484e-01,.4505930922691549e+00,.6923848173158734e-02,.8394702950361005e-02,.6991325631797234e-02,.9673911522111265e-02,.3289687833321025e-01,.1078755757084805e-01,.6639729788616958e-01,.1176100014874140e-01,.1023029830546846e+00,.1261643557454879e-01,.1381259991601194e+00,.1337254080889024e-01,.1726770746288135e+00,.1404479965650065e-01,.2054241214472704e+00,.1464602837670213e-01,.2361779701904081e+00,.1518698551280871e-01,.2649344026216049e+00,.1567717541900471e-01,.2918033340368942e+00,.1612624123496420e-01,.3170079069341164e+00,.1654688879900881e-01,.3409811920927984e+00,.1696136666824286e-01,.3646547307991162e+00,.1741546145080310e-01,.3901537483439419e+00,.1800636597179543e-01,.4223218228522266e+00,.1892881341268367e-01,.4717326233521751e+00,.6298588439596636e-02,.7638030626687965e-02,.7004655851265844e-02,.8803453943265294e-02,.3296982845467406e-01,.9818444950365933e-02,.6656291057106479e-01,.1070595626475817e-01,.1025827278785117e+00,.1148608766389635e-01,.1385316612194638e+00,.1217575810897931e-01,.1732125747484649e+00,.1278899412440368e-01,.2060869881923743e+00,.1333738432024735e-01,.2369597744170469e+00,.1383056388512692e-01,.2658180187652428e+00,.1427674437223498e-01,.2927507447256686e+00,.1468343958863289e-01,.3179214676099940e+00,.1505875998976432e-01,.3415951393087426e+00,.1541407984395701e-01,.3642544652079210e+00,.1576969712450036e-01,.3868951368176343e+00,.1616644053575092e-01,.4116861214445555e+00,.1668748198434585e-01,.4433331570075596e+00,.1749188724059570e-01,.4916033800451471e+00,.5754360678751824e-02,.6979206263458857e-02,.7016389205940601e-02,.8045335113843407e-02,.3303423464885706e-01,.8974185166510452e-02,.6670962735009836e-01,.9786634336394069e-02,.1028314890330009e+00,.1050097258572427e-01,.1388938643805943e+00,.1113260003649783e-01,.1736928024956524e+00,.1169428623074936e-01,.2066843246414360e+00,.1219657523409050e-01,.2376686083847098e+00,.1264820000840307e-01,.2666274169278879e+00,.1305648757877945e-01,.2936397261253015e+00,.1342781257742339e-01,.3188429723296673e+00,.1376825401666917e-01,.3424305607919373e+00,.1408478812041018e-01,.3646959159353649e+00,.1438768989133101e-01,.3861600014637602e+00,.1469542216481714e-01,.4078642344326945e+00,.1504419066763009e-01,.4319869811400004e+00,.1550494890247615e-01,.4630491704469774e+00,.1620775053166640e-01,.5100139240423402e+00,.5278040811520425e-02,.6402421198476983e-02,.7026749310824704e-02,.7381444032562888e-02,.3309125386700502e-01,.8234685519924101e-02,.6683990648107069e-01,.8981222939541469e-02,.1030531116670419e+00,.9637773923336657e-02,.1392177117208699e+00,.1021841796444464e-01,.1741238287384007e+00,.1073483180895483e-01,.2072226942408981e+00,.1119665624742548e-01,.2383105498941010e+00,.1161186412382382e-01,.2673653866792523e+00,.1198709958412187e-01,.2944607083863120e+00,.1232800940556657e-01,.3197217653056301e+00,.1263963481803662e-01,.3433101656487968e+00,.1292700918588335e-01,.3654364911202174e+00,.1319625157476125e-01,.3864151426812009e+00,.1345671217793918e-01,.4067976665874104e+00,.1372517143690529e-01,.4276578990766819e+00,.1403368592830970e-01,.4511616717492440e+00,.1444284729184994e-01,.4816264620225250e+00,.1505946839641039e-01,.5272614695163532e+00,.4487666665675140e-02,.5444990141910759e-02,.7044130283096086e-02,.6279049188091140e-02,.3318723192008640e-01,.7006368632847780e-02,.6706002621750721e-01,.7643068862200888e-02,.1034291291409337e+00,.8203282681027361e-02,.1397696656221023e+00,.8698916419500412e-02,.1748620369064401e+00,.9139847522019589e-02,.2081495587015637e+00,.9534232617493163e-02,.2394220617811718e+00,.9888812556097355e-02,.2686520584410767e+00,.1020918148777924e-01,.2959071488424056e+00,.1050001965367601e-01,.3213027967445414e+00,.1076530680194359e-01,.3449782554868110e+00,.1100855051222504e-01,.3670882760306343e+00,.1123309242673613e-01,.3878099745344409e+00,.1144260835071195e-01,.4073711108103572e+00,.1164201330179298e-01,.4261157327362403e+00,.1183914191832676e-01,.4446387149497601e+00,.1204780719832178e-01,.4640454326093743e+00,.1229306401377462e-01,.4864269389633110e+00,.1261927726417314e-01,.5156669165861498e+00,.1309943489239065e-01,.5586255185473764e+00,.3862975224403902e-02,.4687945053900655e-02,.7058035858061096e-02,.5407041834964283e-02,.3326430524210259e-01,.6034411186094848e-02,.6723753885455682e-01,.6583863333832890e-02,.1037337930420006e+00,.7067509494777436e-02,.1402191813726617e+00,.7495554804930935e-02,.1754665679972444e+00,.7876466939414612e-02,.2089130635289459e+00,.8217239718909702e-02,.2403434536707747e+00,.8523653399761676e-02,.2697261364777181e+00,.8800501778860810e-02,.2971251237465357e+00,.9051782217229110e-02,.3226519291781493e+00,.9280855010852164e-02,.3464394048134897e+00,.9490584189896422e-02,.3686285665457733e+00,.9683478271871005e-02,.3893644369335397e+00,.9861860805271805e-02,.4088004145802082e+00,.1002812139311295e-01,.4271141176574624e+00,.1018513471380169e-01,.4445422442202590e+00,.1033699621003472e-01,.4614490459910935e+00,.1049031549106710e-01,.4784539901229190e+00,.1065642152893932e-01,.4966599824214358e+00,.1085488420737215e-01,.5180410345089337e+00,.1111843432827249e-01,.5460483341177160e+00,.1149782035140485e-01,.5864065338958527e+00,.3360562419718235e-02,.4078879630499024e-02,.7069329073407106e-02,.4705262542208223e-02,.3332708647415080e-01,.5251963413756800e-02,.6738262760022461e-01,.5730951315737387e-02,.1039837553534775e+00,.6152725177551053e-02,.1405895253957461e+00,.6526132611753048e-02,.1759668677811218e+00,.6858515620324401e-02,.2095479655628776e+00,.7155939019582245e-02,.2411135586103733e+00,.7423415917481789e-02,.2706287495885053e+00,.7665103884932816e-02,.2981548371545775e+00,.7884467592308588e-02,.3238009173107087e+00,.8084411667986876e-02,.3476971265301733e+00,.8267390411961632e-02,.3699801584879876e+00,.8435502610509800e-02,.3907862310698117e+00,.8590582044778893e-02,.4102493117101150e+00,.8734298913651078e-02,.4285042785031379e+00,.8868296093454296e-02,.4456965009415761e+00,.8994399398069297e-02,.4620016328614911e+00,.9114966064926033e-02,.4776628155317611e+00,.9233473962579847e-02,.4930576673885005e+00,.9355505324217098e-02,.5088149715467647e+00,.9490326792694050e-02,.5260104590494338e+00,.9653243364999375e-02,.5464780715474396e+00,.9868600991484903e-02,.5732601989067468e+00,.1017225716053114e-01,.6111363239215825e+00,.2950437825487400e-02,.3581555112941687e-02,.7078620126622295e-02,.4132082643231012e-02,.3337886298886408e-01,.4612740002118506e-02,.6750261702445300e-01,.5034004128539568e-02,.1041911190752577e+00,.5405066674282486e-02,.1408978061674918e+00,.5733674167146439e-02,.1763848697593524e+00,.6026255228800488e-02,.2100805343046851e+00,.6288120524548417e-02,.2417622608971423e+00,.6523660186046708e-02,.2713924596018528e+00,.6736515451660314e-02,.2990302271326234e+00,.6929720582831246e-02,.3247828257866806e+00,.7105817882799941e-02,.3487787217481978e+00,.7266950671260499e-02,.3711526971215219e+00,.7414939513031372e-02,.3920379717842592e+00,.7551347241996011e-02,.4115626674210771e+00,.7677539108440712e-02,.4298493831220752e+00,.7794746313920410e-02,.4470176901244603e+00,.7904145004284749e-02,.4631903418970273e+00,.8006969465604538e-02,.4785052149162398e+00,.8104689159161024e-02,.4931367316839517e+00,.8199295885823026e-02,.5073330960096394e+00,.8293770604485683e-02,.5214794128662904e+00,.8392826136597125e-02,.5362017345344410e+00,.8504035938797334e-02,.5525322098044688e+00,.8639408222270374e-02,.5721561451757253e+00,.8817216208331321e-02,.5977434938944347e+00,.9063189668758037e-02,.6332939739614603e+00,.2611205692460249e-02,.3170101091465017e-02,.7086356419628467e-02,.3657766349841741e-02,.3342206181054271e-01,.4083661809252030e-02,.6760295824860309e-01,.4457037354538724e-02,.1043649740346678e+00,.4786009222605838e-02,.1411570048315963e+00,.5077417957619811e-02,.1767374059456163e+00,.5336940476209487e-02,.2105311844047106e+00,.5569266597573038e-02,.2423131187370251e+00,.5778273412183262e-02,.2720433970782992e+00,.5967176862421978e-02,.2997792878733318e+00,.6138656970674597e-02,.3256265499647623e+00,.6294959076405515e-02,.3497123813254361e+00,.6437975105563999e-02,.3721703830438909e+00,.6569309029799851e-02,.3931323996098995e+00,.6690330403814164e-02,.4127244218331418e+00,.6802219694622686e-02,.4310650456887266e+00,.6906009314473870e-02,.4482657882348953e+00,.7002625080460826e-02,.4644331547605672e+00,.7092934548851317e-02,.4796729107857300e+00,.7177811732959676e-02,.4940976831610963e+00,.7258232689273568e-02,.5078399409574430e+00,.7335424050171227e-02,.5210737517163408e+00,.7411097366633641e-02,.5340506436534539e+00,.7487815663348852e-02,.5471575324915496e+00,.7569550927915151e-02,.5610077596302204e+00,.7662488506257662e-02,.5765785117760304e+00,.7776079157718089e-02,.5954049494922431e+00,.7924148666854938e-02,.6198219542319461e+00,.8125409481841734e-02,.6531839888628567e+00,.2329161903934607e-02,.2827942346666575e-02,.7092767801324573e-02,.3263256653829519e-02,.3345792087848227e-01,.3643524065941897e-02,.6768640663901933e-01,.3976979208186409e-02,.1045098632090649e+00,.4270848280167040e-02,.1413735187729310e+00,.4531221910361700e-02,.1770326285691667e+00,.4763154723278143e-02,.2109095929304028e+00,.4970822485283018e-02,.2427770065864133e+00,.5157677387973698e-02,.2725932360325259e+00,.5326583047275474e-02,.3004140385861841e+00,.5479926007282439e-02,.3263439258620141e+00,.5619705807004115e-02,.3505090634425326e+00,.5747607114086801e-02,.3730421698484556e+00,.5865057476337201e-02,.3940742505245702e+00,.5973273864880296e-02,.4137303052977993e+00,.6073300781079440e-02,.4321274134643955e+00,.6166042448892977e-02,.4493743356584487e+00,.6252291618234036e-02,.4655722399143190e+00,.6332757862946729e-02,.4808165109947856e+00,.6408099103723341e-02,.4951999355274510e+00,.6478961616347051e-02,.5088179499753192e+00,.6546036269964925e-02,.5217771724376283e+00,.6610142518258857e-02,.5342092003559118e+00,.6672357066182766e-02,.5462927399000752e+00,.6734211186973384e-02,.5582886150793852e+00,.6797988292026415e-02,.5705940457094262e+00,.6867157346618580e-02,.5838243594874886e+00,.6946966207628190e-02,.5989305413025341e+00,.7045163972244657e-02,.6173557330297905e+00,.7172668498534273e-02,.6412138054673769e+00,.7343669551813224e-02,.6734212283950197e+00,.2088962222558656e-02,.2536501141538391e-02,.7098312096014856e-02,.2927174164471204e-02,.3348897507192802e-01,.3268517695916878e-02,.6775879346915350e-01,.3567904939390041e-02,.1046357814625728e+00,.3831806772332035e-02,.1415620734408565e+00,.4065677361393518e-02,.1772903102475344e+00,.4274043151934446e-02,.2112406912998520e+00,.4460643560808929e-02,.2431839618927255e+00,.4628570053481958e-02,.2730769378663360e+00,.4780387068478273e-02,.3009740811016449e+00,.4918231891978967e-02,.3269788261694700e+00,.5043895306797768e-02,.3512164460435231e+00,.5158886125836192e-02,.3738189139504120e+00,.5264482738771292e-02,.3949165867949340e+00,.5361774417899160e-02,.4146338301275897e+00,.5451694687903237e-02,.4330869551935628e+00,.5535048699155984e-02,.4503835468466499e+00,.5612536310885108e-02,.4666226835980815e+00,.5684772523136652e-02,.4818958265481784e+00,.5752307033652531e-02,.4962883637349025e+00,.5815645095778566e-02,.5098819947919942e+00,.5875272604331699e-02,.5227583713586083e+00,.5931689562795883e-02,.5350047139508995e+00,.5985457948104635e-02,.5467225528673463e+00,.6037272660724469e-02,.5580413411348073e+00,.6088067820748090e-02,.5691395094905580e+00,.6139174903693435e-02,.5802765872262356e+00,.6192552890264469e-02,.5918411775133858e+00,.6251110114702117e-02,.6044203697962170e+00,.6319123951993900e-02,.6188952404877303e+00,.6402719127039078e-02,.6365612063366765e+00,.6510255774185010e-02,.6592545134576846e+00,.6652267840556133e-02,.6894261807467007e+00,.1884070525273232e-02,.2287865166522269e-02,.7103061833161608e-02,.2640414555924009e-02,.3351561092037226e-01,.2948504867845529e-02,.6782096720073962e-01,.3218776897022670e-02,.1047441025101927e+00,.3457059211747976e-02,.1417245576749319e+00,.3668264712145178e-02,.1775127832127863e+00,.3856470649104565e-02,.2115271336150133e+00,.4025045325158119e-02,.2435368006995073e+00,.4176773382240289e-02,.2734972927884814e+00,.4313964750721690e-02,.3014619731636417e+00,.4438544635664399e-02,.3275333564649527e+00,.4552126174118954e-02,.3518359485899692e+00,.4656068554335920e-02,.3745010840861863e+00,.4751523397588311e-02,.3956585819539499e+00,.4839471843717534e-02,.4154323324012205e+00,.4920754357241174e-02,.4339381722015443e+00,.4996094895419632e-02,.4512831048238278e+00,.5066120791624743e-02,.4675653273310193e+00,.5131379519337958e-02,.4828747738428288e+00,.5192353422296487e-02,.4972940502928434e+00,.5249473538511721e-02,.5108997625078284e+00,.5303133835275671e-02,.5237643599692746e+00,.5353707549485549e-02,.5359587556465524e+00,.5401567951803124e-02,.5475561617516223e+00,.5447116802332092e-02,.5586378279840697e+00,.5490825128586838e-02,.5693017116602867e+00,.5533292803086976e-02,.5796755768842047e+00,.5575335692614607e-02,.5899366290511978e+00,.5618111542531525e-02,.6003405110877628e+00,.5663297103480300e-02,.6112631579002907e+00,.5713326390293707e-02,.6232591473997167e+00,.5771686951858539e-02,.6371386281547686e+00,.5843235308872718e-02,.6540591245646711e+00,.5934415308321717e-02,.6756138475691030e+00,.6053127455671619e-02,.7038679036965546e+00,.1708003175642380e-02,.2074181532622547e-02,.7107154835723396e-02,.2393937473496849e-02,.3353858755734360e-01,.2673414535955727e-02,.6787466315584890e-01,.2918625868457997e-02,.1048377783441727e+00,.3134849526067874e-02,.1418652820405583e+00,.3326534476511183e-02,.1777057753498972e+00,.3497372950002969e-02,.2117760550049606e+00,.3650415148383601e-02,.2438439995727389e+00,.3788182708532486e-02,.2738640090744446e+00,.3912767381261045e-02,.3018885114907114e+00,.4025912539016479e-02,.3280192335266340e+00,.4129078986309924e-02,.3523800195135267e+00,.4223497595500826e-02,.3751016505461964e+00,.4310211297602812e-02,.3963134824357808e+00,.4390108627214284e-02,.4161390116668366e+00,.4463950627129625e-02,.4346937216368967e+00,.4532392561972495e-02,.4520842562952224e+00,.4596001602217271e-02,.4684083677796514e+00,.4655271425546727e-02,.4837553218910148e+00,.4710634539896850e-02,.4982065930947042e+00,.4762473060977909e-02,.5118367810144925e+00,.4811128680431732e-02,.5247147588413267e+00,.4856912649796014e-02,.5369051384586530e+00,.4900116799220620e-02,.5484702216816450e+00,.4941026937249812e-02,.5594727154468603e+00,.4979940477837468e-02,.5699796357324364e+00,.5017190859382927e-02,.5800680268418966e+00,.5053182300865962e-02,.5898333966076153e+00,.5088439691236800e-02,.5994021272105722e+00,.5123679830879367e-02,.6089495614023648e+00,.5159911463507254e-02,.6187259309040364e+00,.5198571556852845e-02,.6290926122189227e+00,.5241701843449486e-02,.6405709220757223e+00,.5292158145073340e-02,.6539038212088008e+00,.5353817484714892e-02,.6701255576222123e+00,.5431693560278526e-02,.6906222214439113e+00,.5531783368314496e-02,.7171434625046844e+00,.1486821222610860e-02,.1805710570607849e-02,.7112315426865264e-02,.2084226678642758e-02,.3356758851849525e-01,.2327708403877407e-02,.6794252207314784e-01,.2541382628281658e-02,.1049563283476954e+00,.2729837665345000e-02,.1420436509870845e+00,.2896941194350830e-02,.1779508117794810e+00,.3045903028705765e-02,.2120926886975343e+00,.3179374802697815e-02,.2442355417695174e+00,.3299548613427395e-02,.2743324022628396e+00,.3408242823717034e-02,.3024345386679296e+00,.3506972940214846e-02,.3286426953033458e+00,.3597008842757047e-02,.3530798855126308e+00,.3679420554768286e-02,.3758761896368122e+00,.3755114750481509e-02,.3971603743636597e+00,.3824863905497256e-02,.4170554403005484e+00,.3889329651040080e-02,.4356764468047173e+00,.3949081575434511e-02,.4531296561693286e+00,.4004612453985609e-02,.4695124355979618e+00,.4056350682593341e-02,.4849135873526999e+00,.4104670535603563e-02,.4994139167345992e+00,.4149900758174290e-02,.5130869342770428e+00,.4192331932996859e-02,.5259996460201358e+00,.4232223028377952e-02,.5382134282701107e+00,.4269807540393116e-02,.5497850203277219e+00,.4305299690448572e-02,.5607677074343013e+00,.4338901239307418e-02,.5712128128876574e+00,.4370809641681970e-02,.5811716792241682e+00,.4401228508048884e-02,.5906984004679025e+00,.4430381681233268e-02,.5998536784140458e+00,.4458532691684085e-02,.6087103236556506e+00,.4486011931533010e-02,.6173611125584528e+00,.4513254549169507e-02,.6259299431307766e+00,.4540852685066905e-02,.6345874840856066e+00,.4569625913830092e-02,.6435727138959286e+00,.4600712887286172e-02,.6532217324580875e+00,.4635683708228730e-02,.6640046346388578e+00,.4676663849565939e-02,.6765693546213282e+00,.4726442410018883e-02,.6917869917669843e+00,.4788505706770704e-02,.7107844374668939e+00,.4866891449054713e-02,.7349355366345482e+00,.1306017463771605e-02,.1586222301823758e-02,.7116548254584538e-02,.1830990793066982e-02,.3359140173567671e-01,.2045006139498853e-02,.6799831246271334e-01,.2232854278235691e-02,.1050539332243899e+00,.2398561178839865e-02,.1421907384347976e+00,.2545520579058178e-02,.1781532257250431e+00,.2676548965485182e-02,.2123547392925449e+00,.2793973015829898e-02,.2445602455405584e+00,.2899716152387136e-02,.2747216803842120e+00,.2995373840546507e-02,.3028893817005614e+00,.3082275794427197e-02,.3291633014860622e+00,.3161536205810221e-02,.3536657782024154e+00,.3234093916059993e-02,.3765263180987164e+00,.3300744456546394e-02,.3978732008486888e+00,.3362165629048766e-02,.4178290151302299e+00,.3418937992980868e-02,.4365084718269216e+00,.3471561346521851e-02,.4540175351893392e+00,.3520468055585971e-02,.4704533078136206e+00,.3566033899133432e-02,.4859043358175601e+00,.3608586955892009e-02,.5004511375120722e+00,.3648414949109787e-02,.5141668418466542e+00,.3685771386301219e-02,.5271178746069831e+00,.3720880775408019e-02,.5393646641028532e+00,.3753943164375919e-02,.5509623620882760e+00,.3785138236518451e-02,.5619615952404358e+00,.3814629199517684e-02,.5724092815186362e+00,.3842566733485300e-02,.5823495672538734e+00,.3869093316887355e-02,.5918249678197956e+00,.3894348333795344e-02,.6008778302882713e+00,.3918474488962536e-02,.6095522840022940e+00,.3941626226723230e-02,.6178969082896937e+00,.3963981072925327e-02,.6259684294183701e+00,.3985755098069792e-02,.6338368642128979e+00,.4007224021775936e-02,.6415926549632834e+00,.4028751796394626e-02,.6493564801329609e+00,.4050828701392520e-02,.6572925493481835e+00,.4074120789204574e-02,.6656262309872097e+00,.4099531432075899e-02,.6746666723127143e+00,.4128272797582476e-02,.6848343774930394e+00,.4161938830162795e-02,.6966920189552035e+00,.4202559743668019e-02,.7109733150553114e+00,.4252599514137185e-02,.7285986885865631e+00,.4314833901724070e-02,.7506571441023483e+00,.1156343000755387e-02,.1404504257957441e-02,.7120061440091347e-02,.1621310545540372e-02,.3361118414788869e-01,.1810903712325119e-02,.6804470745318069e-01,.1977340288814310e-02,.1051351961493040e+00,.2124181703071103e-02,.1423133589772792e+00,.2254430165931555e-02,.1783222117476625e+00,.2370577235911165e-02,.2125738546054181e+00,.2474681149731246e-02,.2448322054772776e+00,.2568443387429520e-02,.2750483122588739e+00,.2653275289328116e-02,.3032717571879833e+00,.2730353093366796e-02,.3296018469202774e+00,.2800662377663822e-02,.3541603675689819e+00,.2865033605362301e-02,.3770763523850850e+00,.2924170474532069e-02,.3984776764701321e+00,.2978672551304409e-02,.4184865833334669e+00,.3029053394756756e-02,.4372174902153924e+00,.3075755134140899e-02,.4547761117084665e+00,.3119160251996799e-02,.4712593365381469e+00,.3159601161354295e-02,.4867555224942895e+00,.3197368036290039e-02,.5013450107382228e+00,.3232715256012342e-02,.5151007425806035e+00,.3265866747398978e-02,.5280889117936882e+00,.3297020454653708e-02,.5403696166527656e+00,.3326352123823280e-02,.5519974959907685e+00,.3354018561785408e-02,.5630223474016425e+00,.3380160512425799e-02,.5734897364461758e+00,.3404905286403203e-02,.5834416154573392e+00,.3428369285319778e-02,.5929169809805325e+00,.3450660577239604e-02,.6019526114875673e+00,.3471881710106394e-02,.6105839432336187e+00,.3492132995268978e-02,.6188461635645998e+00,.3511516558294448e-02,.6267756293962285e+00,.3530141542180836e-02,.6344117559126738e+00,.3548130962196775e-02,.6417995687010485e+00,.3565630852851213e-02,.6489931729721409e+00,.3582822510857449e-02,.6560604660107810e+00,.3599938804777734e-02,.6630894993854867e+00,.3617285646093928e-02,.6701969730666828e+00,.3635269699036237e-02,.6775393849143700e+00,.3654433055424882e-02,.6853273049469121e+00,.3675494570182433e-02,.6938429782822218e+00,.3699395273559710e-02,.7034607793792287e+00,.3727340922414418e-02,.7146686166221225e+00,.3760827388752240e-02,.7280857713064263e+00,.3801623782166765e-02,.7444684055765861e+00,.3851675608889073e-02,.7646881040691488e+00,.1031010001534118e-02,.1252325311246044e-02,.7123010369617354e-02,.1445699377070109e-02,.3362780174930066e-01,.1614821702453833e-02,.6808371387504373e-01,.1763306316297053e-02,.1052035845952689e+00,.1894326321527065e-02,.1424166653656900e+00,.2010556629704488e-02,.1784647514196653e+00,.2114217175592618e-02,.2127589198858749e+00,.2207141797804957e-02,.2450622274788554e+00,.2290846453223580e-02,.2753249929535957e+00,.2366588574329418e-02,.3035961777269406e+00,.2435416111636774e-02,.3299745572968218e+00,.2498207136828419e-02,.3545814616992661e+00,.2555701517785104e-02,.3775455317600242e+00,.2608526182258946e-02,.3989943047683779e+00,.2657215287010062e-02,.4190497337604562e+00,.2702226368977643e-02,.4378259868084232e+00,.2743953334055468e-02,.4554285653702798e+00,.2782736954335406e-02,.4719541760694932e+00,.2818873396984337e-02,.4874910203110806e+00,.2852621192436532e-02,.5021193021763500e+00,.2884206960364913e-02,.5159118365654818e+00,.2913830143454304e-02,.5289346889752990e+00,.2941666946802540e-02,.5412478085861132e+00,.2967873641281116e-02,.5529056351590590e+00,.2992589359741792e-02,.5639576722484762e+00,.3015938493650994e-02,.5744490272864715e+00,.3038032783280771e-02,.5844209250482745e+00,.3058973186216636e-02,.5939112061179864e+00,.3078851606347056e-02,.6029548271815797e+00,.3097752568780461e-02,.6115843860580712e+00,.3115754935792624e-02,.6198307020754208e+00,.3132933775825234e-02,.6277234924693847e+00,.3149362522988406e-02,.6352921987752219e+00,.3165115600029473e-02,.6425670346395947e+00,.3180271725033977e-02,.6495803491305275e+00,.3194918182718492e-02,.6563684284758635e+00,.3209156415539186e-02,.6629738949529550e+00,.3223109375845204e-02,.6694489043071365e+00,.3236931170179888e-02,.6758593906225592e+00,.3250819601641628e-02,.6822906541085610e+00,.3265032236292007e-02,.6888546193197504e+00,.3279906508904962e-02,.6956990815908923e+00,.3295884006098741e-02,.7030191567938097e+00,.3313538195666039e-02,.7110708644516797e+00,.3333603169205194e-02,.7201861618009667e+00,.3356997989054186e-02,.7307875953685270e+00,.3384836571738381e-02,.7433987921789071e+00,.3418406731492194e-02,.7586440923075351e+00,.3459095390889103e-02,.7772269308571649e+00,.9250365544833106e-03,.1123642957047639e-02,.7125507954787448e-02,.1297191729022396e-02,.3364188485222631e-01,.1448990578148682e-02,.6811679517715986e-01,.1582279947362813e-02,.1052616326176499e+00,.1699905063056458e-02,.1425044323407192e+00,.1804264479385807e-02,.1785859728026249e+00,.1897348784865108e-02,.2129164803933608e+00,.1980802350907045e-02,.2452582966079122e+00,.2055984495008354e-02,.2755611351402767e+00,.2124022707017878e-02,.3038734422531415e+00,.2185856628127736e-02,.3302935522984499e+00,.2242273566275012e-02,.3549424157624133e+00,.2293936902368478e-02,.3779483458160068e+00,.2341408747104221e-02,.3994385963604223e+00,.2385168029019629e-02,.4195348752453025e+00,.2425624979060079e-02,.4383511386477932e+00,.2463132778750725e-02,.4559927053277270e+00,.2497996973377256e-02,.4725561248235422e+00,.2530483119020393e-02,.4881294636884907e+00,.2560823028544199e-02,.5027928098555960e+00,.2589219901343181e-02,.5166188766435952e+00,.2615852559843530e-02,.5296736371549673e+00,.2640878968300298e-02,.5420169498193963e+00,.2664439173073012e-02,.5537031542330661e+00,.2686657775798838e-02,.5647816278134981e+00,.2707646029843779e-02,.5752973009271112e+00,.2727503634730079e-02,.5852911327970665e+00,.2746320291944519e-02,.5948005537838443e+00,.2764177077984035e-02,.6038598823048999e+00,.2781147686318178e-02,.6125007272671443e+00,.2797299589001256e-02,.6207523898606690e+00,.2812695171020565e-02,.6286422822922934e+00,.2827392896389240e-02,.6361963859104227e+00,.2841448574941446e-02,.6434397776056558e+00,.2854916813399088e-02,.6503972618317222e+00,.2867852754331386e-02,.6570941566018360e+00,.2880314232961717e-02,.6635572959395679e+00,.2892364515113282e-02,.6698163290468718e+00,.2904075820167642e-02,.6759054182903871e+00,.2915533879795195e-02,.6818654639717365e+00,.2926843832981620e-02,.6877470127613112e+00,.2938137802322835e-02,.6936140357564597e+00,.2949584518825127e-02,.6995487849121559e+00,.2961401330692262e-02,.7056579402322907e+00,.2973868789530239e-02,.7120802208967371e+00,.2987347661611534e-02,.7189955103325420e+00,.3002297518260188e-02,.7266352712733982e+00,.3019294818352010e-02,.7352935018498777e+00,.3039046378540213e-02,.7453365750657752e+00,.3062391179964571e-02,.7572088751614536e+00,.3090279763155639e-02,.7714291475982730e+00,.3123717004293759e-02,.7885701646946724e+00,.8345540180276686e-03,.1013764009388037e-02,.7127645881665573e-02,.1170376416196646e-02,.3365394644507796e-01,.1307373442880687e-02,.6814514556190448e-01,.1427676957022642e-02,.1053114143093287e+00,.1533852566639599e-02,.1425797600037836e+00,.1628063138328361e-02,.1786901034175123e+00,.1712103666468225e-02,.2130519545476170e+00,.1787456941371129e-02,.2454270534974888e+00,.1855348698944282e-02,.2757646057348834e+00,.1916795617374952e-02,.3041126250272165e+00,.1972644976800254e-02,.3305690752776119e+00,.2023606687518786e-02,.3552545878917464e+00,.2070278907560604e-02,.3782971999927905e+00,.2113168475544262e-02,.3998239259305988e+00,.2152707223367783e-02,.4199562653334393e+00,.2189265039122685e-02,.4388079933534241e+00,.2223160371923681e-02,.4564842715530542e+00,.2254668720923272e-02,.4730815132757386e+00,.2284029531207622e-02,.4886876674022503e+00,.2311451825653930e-02,.5033827203854437e+00,.2337118829323729e-02,.5172392978550550e+00,.2361191787080918e-02,.5303232962672809e+00,.2383813132113577e-02,.5426945049786824e+00,.2405109129935129e-02,.5544071973678512e+00,.2425192096951206e-02,.5655106807683926e+00,.2444162273064263e-02,.5760498017810869e+00,.2462109412745146e-02,.5860654077087350e+00,.2479114147565534e-02,.5955947674756841e+00,.2495249164658244e-02,.6046719571441241e+00,.2510580239462893e-02,.6133282164799120e+00,.2525167157099261e-02,.6215922842757839e+00,.2539064554606323e-02,.6294907215579771e+00,.2552322716028421e-02,.6370482335961646e+00,.2564988353967443e-02,.6442880040095037e+00,.2577105414898926e-02,.6512320574262512e+00,.2588715951514404e-02,.6579016713460415e+00,.2599861113932935e-02,.6643178633382018e+00,.2610582323220381e-02,.6705019867831056e+00,.2620922705689986e-02,.6764764773431096e+00,.2630928885293276e-02,.6822658035386095e+00,.2640653254172355e-02,.6878976884216645e+00,.2650156867702621e-02,.6934046853762110e+00,.2659513138546438e-02,.6988262090327137e+00,.2668812530675645e-02,.7042111407137301e+00,.2678168471535181e-02,.7096211435207562e+00,.2687724694622147e-02,.7151348288632315e+00,.2697664171457851e-02,.7208529025232651e+00,.2708219651065415e-02,.7269043646867752e+00,.2719685534125355e-02,.7334537129952923e+00,.2732430278157871e-02,.7407088522578688e+00,.2746907645451310e-02,.7489289818382320e+00,.2763663754705104e-02,.7584310317783358e+00,.2783335043530471e-02,.7695921849731747e+00,.2806630086397274e-02,.7828446706602086e+00,.2834286424739216e-02,.7986575762535248e+00,.7568003719318281e-03,.9193373558789463e-03,.7129483255703461e-02,.1061389190056637e-02,.3366431715745472e-01,.1185658720812506e-02,.6816953450862767e-01,.1294794350315917e-02,.1053542656584974e+00,.1391121645368222e-02,.1426446444034435e+00,.1476601139740284e-02,.1787798638427945e+00,.1552859914551620e-02,.2131688271751633e+00,.1621242048290884e-02,.2455727658693272e+00,.1682858604168091e-02,.2759404560655418e+00,.1738631136850422e-02,.3043195464558018e+00,.1789327643414803e-02,.3308076883028777e+00,.1835591597189766e-02,.3555252435875009e+00,.1877965170693660e-02,.3786000160301540e+00,.1916907758736738e-02,.4001588169674569e+00,.1952810766576543e-02,.4203229689645817e+00,.1986009452068925e-02,.4392060925299616e+00,.2016792448794289e-02,.4569132141578328e+00,.2045409461693157e-02,.4735406293653057e+00,.2072077518345742e-02,.4891761844801786e+00,.2096986074148179e-02,.5038997769424400e+00,.2120301203878496e-02,.5177839552843484e+00,.2142169061433792e-02,.5308945491240521e+00,.2162718750455528e-02,.5432912893815535e+00,.2182064718440740e-02,.5550283971155782e+00,.2200308763672422e-02,.5661551304354499e+00,.2217541726297687e-02,.5767162856210821e+00,.2233844920932215e-02,.5867526525797927e+00,.2249291357368938e-02,.5963014271336025e+00,.2263946787643312e-02,.6053965840290423e+00,.2277870611359356e-02,.6140692154201157e+00,.2291116666449641e-02,.6223478401763524e+00,.2303733929177061e-02,.6302586899076299e+00,.2315767145022433e-02,.6378259782215101e+00,.2327257411049353e-02,.6450721605572670e+00,.2338242730369626e-02,.6520181930839076e+00,.2348758560479908e-02,.6586838007193958e+00,.2358838379587591e-02,.6650877664469207e+00,.2368514298725632e-02,.6712482569089239e+00,.2377817752650840e-02,.6771832029067319e+00,.2386780309439892e-02,.6829107580966474e+00,.2395434647564189e-02,.6884498650357838e+00,.2403815760225585e-02,.6938209649667989e+00,.2411962459936224e-02,.6990468964641347e+00,.2419919271518965e-02,.7041540382931724e+00,.2427738818137931e-02,.7091737632918418e+00,.2435484820891955e-02,.7141442820039481e+00,.2443235844427740e-02,.7191129655073966e+00,.2451089922557623e-02,.7241392431779231e+00,.2459170177943326e-02,.7292981672564718e+00,.2467631490367586e-02,.7346847122783368e+00,.2476668140634181e-02,.7404188178940524e+00,.2486522120258960e-02,.7466510642206331e+00,.2497491395393781e-02,.7535686551625321e+00,.2509936783254573e-02,.7614010329283727e+00,.2524285190189721e-02,.7704239097236394e+00,.2541025785320841e-02,.7809597539113882e+00,.2560694413103588e-02,.7933718506147267e+00,.2583840650378180e-02,.8080481691101191e+00,.6694334606038313e-03,.8132301052210061e-03,.7131535707087396e-02,.9389134630471259e-03,.3367590696807291e-01,.1048872877008853e-02,.6819680438492585e-01,.1145449798724469e-02,.1054022066039507e+00,.1230700342275683e-02,.1427172823544694e+00,.1306357911890783e-02,.1788804222099017e+00,.1373861096813421e-02,.2132998613259399e+00,.1434398265869949e-02,.2457362721216975e+00,.1488951760223115e-02,.2761379595225904e+00,.1538336359526358e-02,.3045521719476219e+00,.1583231069003380e-02,.3310762180672609e+00,.1624204791259703e-02,.3558301646036297e+00,.1661736860472097e-02,.3789415592809941e+00,.1696233421123923e-02,.4005369903859170e+00,.1728040504318892e-02,.4207375854097784e+00,.1757454499192354e-02,.4396567938240963e+00,.1784730573761186e-02,.4573994919708219e+00,.1810089479804955e-02,.4740618435452991e+00,.1833723080526557e-02,.4897315792782505e+00,.1855798864682184e-02,.5044884954562696e+00,.1876463652712977e-02,.5184050523373731e+00,.1895846655550170e-02,.5315470026926565e+00,.1914062012192412e-02,.5439740105721099e+00,.1931210905475803e-02,.5557402385626821e+00,.1947383334819745e-02,.5668948928266588e+00,.1962659608717758e-02,.5774827218315940e+00,.1977111607276341e-02,.5875444685962498e+00,.1990803855373865e-02,.5971172785245406e+00,.2003794439402125e-02,.6062350661340985e+00,.2016135794604195e-02,.6149288446198813e+00,.2027875385387674e-02,.6232270224896007e+00,.2039056297414846e-02,.6311556716380911e+00,.2049717757561867e-02,.6387387713071162e+00,.2059895595863033e-02,.6459984324868040e+00,.2069622662222278e-02,.6529551075171532e+00,.2078929209927277e-02,.6596277899957604e+00,.2087843257818011e-02,.6660342106414446e+00,.2096390943345113e-02,.6721910355553485e+00,.2104596879732886e-02,.6781140744196829e+00,.2112484532090143e-02,.6838185076461196e+00,.2120076629662863e-02,.6893191434072465e+00,.2127395634587425e-02,.6946307179415828e+00,.2134464291583733e-02,.6997682556089891e+00,.2141306288121780e-02,.7047475089834524e+00,.2147947060772256e-02,.7095855038862377e+00,.2154414790705499e-02,.7143012197281974e+00,.2160741639474206e-02,.7189164418059094e+00,.2166965284859545e-02,.7234568290808686e+00,.2173130824735037e-02,.7279532479715103e+00,.2179293122829263e-02,.7324434288116620e+00,.2185519670818465e-02,.7369740050569291e+00,.2191894031123936e-02,.7416029929155098e+00,.2198519895768168e-02,.7464027556828451e+00,.2205525735899346e-02,.7514634645503588e+00,.2213069905688267e-02,.7568970038541067e+00,.2221345878507691e-02,.7628411564127120e+00,.2230587003169685e-02,.7694637214568848e+00,.2241069745958558e-02,.7769659387231029e+00,.2253113820886843e-02,.7855841979737009e+00,.2267076946734208e-02,.7955885073370143e+00,.2283341347108146e-02,.8072756369544127e+00,.2302288836034036e-02,.8209544135936097e+00,.5959608869219697e-03,.7239930216451945e-03,.7133279984105104e-02,.8359051841424598e-03,.3368576099913345e-01,.9338233700778646e-03,.6822000216330427e-01,.1019831142421348e-02,.1054430127732599e+00,.1095758216195270e-02,.1427791507549994e+00,.1163147152914922e-02,.1789661337538298e+00,.1223278163696114e-02,.2134116378937676e+00,.1277208785600386e-02,.2458758686973440e+00,.1325813205911649e-02,.2763067382696023e+00,.1369816492784942e-02,.3047511618662466e+00,.1409822883247175e-02,.3313061633300986e+00,.1446338629616970e-02,.3560915640558304e+00,.1479790274040400e-02,.3792346990474591e+00,.1510539225034315e-02,.4008619710852165e+00,.1538893395093506e-02,.4210943451273732e+00,.1565116520065816e-02,.4400451277298846e+00,.1589435653602577e-02,.4578190692609130e+00,.1612047223434259e-02,.4745122222302962e+00,.1633121950929719e-02,.4902122192180130e+00,.1652808868600187e-02,.5049987699443599e+00,.1671238618449212e-02,.5189442584592429e+00,.1688526174140261e-02,.5321143706133679e+00,.1704773099175760e-02,.5445687118458739e+00,.1720069429524861e-02,.5563613934916154e+00,.1734495250750528e-02,.5675415768232118e+00,.1748122025406067e-02,.5781539706502275e+00,.1761013715337100e-02,.5882392821853880e+00,.1773227734809691e-02,.5978346230971775e+00,.1784815763538346e-02,.6069738738486110e+00,.1795824443291854e-02,.6156880099806808e+00,.1806295977494385e-02,.6240053941930317e+00,.1816268649874427e-02,.6319520380671680e+00,.1825777275563891e-02,.6395518371737207e+00,.1834853595977716e-02,.6468267831733791e+00,.1843526627209035e-02,.6537971564070679e+00,.1851822970482422e-02,.6604817024077319e+00,.1859767092366030e-02,.6668977957794100e+00,.1867381581918830e-02,.6730615950017611e+00,.1874687391723729e-02,.6789881919521959e+00,.1881704069826390e-02,.6846917603173716e+00,.1888449989971118e-02,.6901857076183885e+00,.1894942588218185e-02,.6954828363313554e+00,.1901198615070921e-02,.7005955205839351e+00,.1907234413674205e-02,.7055359061912127e+00,.1913066236513566e-02,.7103161434075709e+00,.1918710615393293e-02,.7149486637645913e+00,.1924184802344570e-02,.7194465147858177e+00,.1929507302533566e-02,.7238237692546146e+00,.1934698524185406e-02,.7280960290730413e+00,.1939781574913619e-02,.7322810475484290e+00,.1944783238404899e-02,.7363994980480986e+00,.1949735169676031e-02,.7404759210790995e+00,.1954675350226750e-02,.7445398854214426e+00,.1959649844884542e-02,.7486274009877383e+00,.1964714897577384e-02,.7527826199581922e+00,.1969939389932244e-02,.7570598558183508e+00,.1975407658858821e-02,.7615259331570643e+00,.1981222619086292e-02,.7662628484770114e+00,.1987509053119538e-02,.7713706654164001e+00,.1994416800895364e-02,.7769704756416124e+00,.2002123390500117e-02,.7832071162571111e+00,.2010835389853712e-02,.7902511335384258e+00,.2020787431823991e-02,.7982992156041412e+00,.2032237508156190e-02,.8075719965967809e+00,.2045456833973120e-02,.8183078136932541e+00,.2060712530690398e-02,.8307507916355182e+00,.5338928457208802e-03,.6486041055927330e-03,.7134757145335637e-02,.7488783022520046e-03,.3369410911427631e-01,.8366191792139075e-03,.6823966328875076e-01,.9136926200367255e-03,.1054776147161770e+00,.9817372289705743e-03,.1428316413133060e+00,.1042134467481678e-02,.1790388973189992e+00,.1096030851195136e-02,.2135065916571426e+00,.1144373475917349e-02,.2459945403613866e+00,.1187945232547193e-02,.2764503284138904e+00,.1227395462237520e-02,.3049205940601908e+00,.1263265290388587e-02,.3315021246228428e+00,.1296008087702652e-02,.3563145379544189e+00,.1326005836926910e-02,.3794849926333959e+00,.1353582187798311e-02,.4011397375442878e+00,.1379012879924876e-02,.4213996026736057e+00,.1402534089465843e-02,.4403777756781442e+00,.1424349141395722e-02,.4581789018294929e+00,.1444633933714447e-02,.4748989405223802e+00,.1463541343583908e-02,.4906254417290438e+00,.1481204825549461e-02,.5054380418632013e+00,.1497741365648968e-02,.5194090599684319e+00,.1513253919449596e-02,.5326041243428160e+00,.1527833434485045e-02,.5450827895910497e+00,.1541560536285142e-02,.5568991222679660e+00,.1554506940716115e-02,.5681022442899654e+00,.1566736642551277e-02,.5787368298952323e+00,.1578306920207553e-02,.5888435558143096e+00,.1589269188760702e-02,.5984595065104622e+00,.1599669727196656e-02,.6076185375122531e+00,.1609550300992578e-02,.6163516003945891e+00,.1618948697263611e-02,.6246870331241742e+00,.1627899186642147e-02,.6326508194315294e+00,.1636432923609736e-02,.6402668207058439e+00,.1644578295050302e-02,.6475569836949800e+00,.1652361225240263e-02,.6545415270716049e+00,.1659805444262448e-02,.6612391097238539e+00,.1666932725870720e-02,.6676669834625878e+00,.1673763100099416e-02,.6738411327196651e+00,.1680315045376260e-02,.6797764037527307e+00,.1686605664538830e-02,.6854866258810527e+00,.1692650848960719e-02,.6909847273635962e+00,.1698465434958682e-02,.6962828487057689e+00,.1704063356777271e-02,.7013924564580136e+00,.1709457800739110e-02,.7063244609630222e+00,.1714661365618782e-02,.7110893420369401e+00,.1719686234962450e-02,.7156972872545727e+00,.1724544367953908e-02,.7201583483730915e+00,.1729247716543003e-02,.7244826224989144e+00,.1733808477926433e-02,.7286804659046311e+00,.1738239393121469e-02,.7327627499609472e+00,.1742554104306060e-02,.7367411704788124e+00,.1746767585796486e-02,.7406286238588718e+00,.1750896665936375e-02,.7444396657879347e+00,.1754960659646605e-02,.7481910707203003e+00,.1758982133685755e-02,.7519025128611727e+00,.1762987828362212e-02,.7555973915123057e+00,.1767009759806471e-02,.7593038249053531e+00,.1771086524820975e-02,.7630558361569231e+00,.1775264824037991e-02,.7668947513550588e+00,.1779601206067178e-02,.7708708209501843e+00,.1784164011861242e-02,.7750450585439046e+00,.1789035459753730e-02,.7794912616154927e+00,.1794313751342973e-02,.7842981311142257e+00,.1800114989664162e-02,.7895713343902400e+00,.1806574577713146e-02,.7954352514919308e+00,.1813847605191753e-02,.8020340030828954e+00,.1822107542131273e-02,.8095311799649906e+00,.1831542366827648e-02,.8181074940047334e+00,.1842347120393410e-02,.8279553875468303e+00,.1854711901010908e-02,.8392695503623823e+00,.4691372119147557e-03,.5699474625461372e-03,.7136296792849224e-02,.6580754336890405e-03,.3370281338535284e-01,.7351932064547252e-03,.6826017144205968e-01,.8029397345236971e-03,.1055137237879695e+00,.8627543786402343e-03,.1428864460309730e+00,.9158506408206921e-03,.1791149115084724e+00,.9632356479495138e-03,.2136058483079311e+00,.1005741352235223e-02,.2461186723532833e+00,.1044055462224991e-02,.2766006332016539e+00,.1078748370226813e-02,.3050980855476346e+00,.1110295406319466e-02,.3317075749743232e+00,.1139094812215725e-02,.3565485115490737e+00,.1165482118715345e-02,.3797478738863422e+00,.1189741614017051e-02,.4014317539275095e+00,.1212115499934443e-02,.4217208439626945e+00,.1232811224277848e-02,.4407282102151493e+00,.1252007377470389e-02,.4585583904118685e+00,.1269858457651580e-02,.4753072483903950e+00,.1286498741428814e-02,.4910622490186240e+00,.1302045444889013e-02,.5059029528099534e+00,.1316601318761973e-02,.5199016110853500e+00,.1330256790211312e-02,.5331237917441728e+00,.1343091739511245e-02,.5456289955944984e+00,.1355176981171679e-02,.5574712413729396e+00,.1366575504600436e-02,.5686996086005114e+00,.1377343518145096e-02,.5793587340271479e+00,.1387531331581560e-02,.5894892612975623e+00,.1397184105238413e-02,.5991282456659598e+00,.1406342488530390e-02,.6083095167442896e+00,.1415043166390284e-02,.6170640027934311e+00,.1423319328684793e-02,.6254200202131955e+00,.1431201074983781e-02,.6334035318149531e+00,.1438715764876940e-02,.6410383772701038e+00,.1445888322283529e-02,.6483464788808477e+00,.1452741500792328e-02,.6553480255553266e+00,.1459296115932730e-02,.6620616376107076e+00,.1465571249361709e-02,.6685045147893643e+00,.1471584429214883e-02,.6746925696634154e+00,.1477351790282003e-02,.6806405484266425e+00,.1482888217204235e-02,.6863621409335069e+00,.1488207473534721e-02,.6918700817451654e+00,.1493322319242184e-02,.6971762438844605e+00,.1498244619060822e-02,.7022917269886535e+00,.1502985443992799e-02,.7072269415837240e+00,.1507555168249840e-02,.7119916912919050e+00,.1511963563977790e-02,.7165952549304837e+00,.1516219896245011e-02,.7210464706718194e+00,.1520333020996940e-02,.7253538247205133e+00,.1524311488991586e-02,.7295255473336399e+00,.1528163659142506e-02,.7335697194752111e+00,.1531897825216204e-02,.7374943939689233e+00,.1535522360469415e-02,.7413077357064542e+00,.1539045885576599e-02,.7450181862940887e+00,.1542477466093639e-02,.7486346594874230e+00,.1545826846727079e-02,.7521667748753935e+00,.1549104730812699e-02,.7556251385226099e+00,.1552323114613247e-02,.7590216806350385e+00,.1555495687246740e-02,.7623700617184821e+00,.1558638308120671e-02,.7656861600411088e+00,.1561769574454004e-02,.7689886543012415e+00,.1564911491470015e-02,.7722997159327905e+00,.1568090256606748e-02,.7756458249739051e+00,.1571337165828147e-02,.7790587211550291e+00,.1574689643692269e-02,.7825764967678216e+00,.1578192387667105e-02,.7862448284470696e+00,.1581898599185298e-02,.7901183291700260e+00,.1585871246475873e-02,.7942619768635446e+00,.1590184264311382e-02,.7987525387422443e+00,.1594923540574454e-02,.8036798573342322e+00,.1600187467232215e-02,.8091477920349469e+00,.1606086745205357e-02,.8152745179862013e+00,.1612743036112452e-02,.8221917759509073e+00,.1620285966641179e-02,.8300425555166407e+00,.1628847946012576e-02,.8389766067695471e+00,.1638556304338204e-02,.8491431596995497e+00,.4152983993727092e-03,.5045486166497230e-03,.7137584516676377e-02,.5825747502812775e-03,.3371009582559231e-01,.6508564339714855e-03,.6827733616228911e-01,.7108440797559780e-03,.1055439591076286e+00,.7638115008710665e-03,.1429323580617065e+00,.8108326421179146e-03,.1791786256178479e+00,.8527988118498596e-03,.2136890926697665e+00,.8904462894848839e-03,.2462228452780043e+00,.9243836974156776e-03,.2767268570137912e+00,.9551158310881699e-03,.3052472497196298e+00,.9830633537396637e-03,.3318803708195339e+00,.1008578703487142e-02,.3567454603219721e+00,.1031958817701520e-02,.3799693497349148e+00,.1053455282818112e-02,.4016780028151404e+00,.1073282437929197e-02,.4219919994202545e+00,.1091623864253886e-02,.4410243065866673e+00,.1108637603920062e-02,.4588793741064279e+00,.1124460377322258e-02,.4756529875379346e+00,.1139211008944395e-02,.4914325418394411e+00,.1152993225032100e-02,.5062975349402129e+00,.1165897950461469e-02,.5203201620487163e+00,.1178005204347923e-02,.5335659407189512e+00,.1189385672505494e-02,.5460943265934672e+00,.1200102018320324e-02,.5579592979271204e+00,.1210209980791963e-02,.5692098980166754e+00,.1219759298541784e-02,.5798907312704116e+00,.1228794490820103e-02,.5900424125337194e+00,.1237355520454566e-02,.5997019714820298e+00,.1245478358886877e-02,.6089032150489527e+00,.1253195469650359e-02,.6176770513802826e+00,.1260536223624142e-02,.6260517789476357e+00,.1267527256990541e-02,.6340533443783142e+00,.1274192780889601e-02,.6417055723602077e+00,.1280554850208162e-02,.6490303707240170e+00,.1286633597682126e-02,.6560479135277237e+00,.1292447438469551e-02,.6627768046927827e+00,.1298013249521533e-02,.6692342244811717e+00,.1303346527400884e-02,.6754360608644642e+00,.1308461527646537e-02,.6813970276241349e+00,.1313371388331951e-02,.6871307708378881e+00,.1318088240100810e-02,.6926499652502783e+00,.1322623304669488e-02,.6979664018971263e+00,.1326986983552337e-02,.7030910682519399e+00,.1331188938584919e-02,.7080342220886105e+00,.1335238165685898e-02,.7128054602082953e+00,.1339143063206245e-02,.7174137831602817e+00,.1342911496162030e-02,.7218676570980016e+00,.1346550857633121e-02,.7261750739540748e+00,.1350068128634278e-02,.7303436111948426e+00,.1353469937828520e-02,.7343804925285762e+00,.1356762622556962e-02,.7382926510963945e+00,.1359952292807390e-02,.7420867968756576e+00,.1363044899939134e-02,.7457694902776256e+00,.1366046312228174e-02,.7493472242304510e+00,.1368962399598178e-02,.7528265174113487e+00,.1371799130263930e-02,.7562140217340938e+00,.1374562682436201e-02,.7595166477149035e+00,.1377259574721566e-02,.7627417119340626e+00,.1379896819392827e-02,.7658971114809663e+00,.1382482103293908e-02,.7689915310079312e+00,.1385024001753947e-02,.7720346888027838e+00,.1387532231477270e-02,.7750376290830836e+00,.1390017948880056e-02,.7780130684490018e+00,.1392494100651911e-02,.7809758049987551e+00,.1394975833264466e-02,.7839431988406547e+00,.1397480967482131e-02,.7869357323732872e+00,.1400030542294373e-02,.7899776573739077e+00,.1402649429581176e-02,.7930977330965135e+00,.1405367015557528e-02,.7963300544867956e+00,.1408217936717937e-02,.7997149612640727e+00,.1411242845492577e-02,.8033000057004371e+00,.1414489162825236e-02,.8071409378596117e+00,.1418011750045248e-02,.8113026400715047e+00,.1421873399672547e-02,.8158599058260445e+00,.1426145003995468e-02,.8208979110240450e+00,.1430905213100405e-02,.8265121682023010e+00,.1436239345537763e-02,.8328076907174900e+00,.1442237275146430e-02,.8398970330439564e+00,.1448990003811190e-02,.8478968323160648e+00,.1456584666833031e-02,.8569224819892680e+00,.3704312646343119e-03,.4500459652486567e-03,.7138650748115411e-02,.5196512293102546e-03,.3371612727399277e-01,.5805664280060180e-03,.6829155668533947e-01,.6340849446568049e-03,.1055690170651003e+00,.6813427081724704e-03,.1429704232383565e+00,.7232974239492588e-03,.1792314731911011e+00,.7607439326118729e-03,.2137581723047245e+00,.7943388257980795e-03,.2463093367632228e+00,.8246248539513288e-03,.2768317147355182e+00,.8520521766292996e-03,.3053712382217758e+00,.8769959255269664e-03,.3320240933589542e+00,.8997703900142133e-03,.3569093819512950e+00,.9206403645220593e-03,.3801538161111002e+00,.9398302000432457e-03,.4018832556603875e+00,.9575310308788060e-03,.4222181893493448e+00,.9739065619456522e-03,.4412715038513685e+00,.9890977229041295e-03,.4591475776827830e+00,.1003226429225417e-02,.4759421328870969e+00,.1016398637371945e-02,.4917425076000317e+00,.1028706839793818e-02,.5066281487544273e+00,.1040232113307033e-02,.5206712056814181e+00,.1051045809625145e-02,.5339371545956020e+00,.1061210957702222e-02,.5464854138565951e+00,.1070783432788909e-02,.5583699280903157e+00,.1079812935679248e-02,.5696397102784545e+00,.1088343816748556e-02,.5803393375366302e+00,.1096415772455089e-02,.5905094001856708e+00,.1104064436547561e-02,.6001869059172129e+00,.1111321883943327e-02,.6094056420120871e+00,.1118217061857135e-02,.6181964990928702e+00,.1124776160068879e-02,.6265877600346048e+00,.1131022930068676e-02,.6346053575793632e+00,.1136978961092068e-02,.6422731040006305e+00,.1142663919667303e-02,.6496128959041625e+00,.1148095758170784e-02,.6566448969707471e+00,.1153290896971796e-02,.6633877011656901e+00,.1158264384001310e-02,.6698584786727629e+00,.1163030034968892e-02,.6760731065636836e+00,.1167600556950560e-02,.6820462859911614e+00,.1171987657658222e-02,.6877916474950851e+00,.1176202142362038e-02,.6933218458373045e+00,.1180254000157654e-02,.6986486456296808e+00,.1184152481040773e-02,.7037829988914664e+00,.1187906165063826e-02,.7087351155643580e+00,.1191523024697338e-02,.7135145279256490e+00,.1195010481397003e-02,.7181301497708876e+00,.1198375457282797e-02,.7225903311867283e+00,.1201624422765785e-02,.7269029097019594e+00,.1204763440909706e-02,.7310752585900764e+00,.1207798209286642e-02,.7351143331006848e+00,.1210734100078424e-02,.7390267154202931e+00,.1213576199187821e-02,.7428186592069160e+00,.1216329345156313e-02,.7464961346090013e+00,.1218998168739366e-02,.7500648747695434e+00,.1221587134066625e-02,.7535304249333266e+00,.1224100582415115e-02,.7568981954218305e+00,.1226542779750137e-02,.7601735199195562e+00,.1228917969342930e-02,.7633617207306558e+00,.1231230430958390e-02,.7664681829190014e+00,.1233484548321435e-02,.7694984395410563e+00,.1235684886817594e-02,.7724582705209949e+00,.1237836283660978e-02,.7753538181016055e+00,.1239943953067019e-02,.7781917222296842e+00,.1242013609290138e-02,.7809792796931293e+00,.1244051610712973e-02,.7837246313034256e+00,.1246065128479356e-02,.7864369818849385e+00,.1248062343408890e-02,.7891268582478557e+00,.1250052675057249e-02,.7918064106168962e+00,.1252047046705140e-02,.7944897630608011e+00,.1254058189642781e-02,.7971934181681546e+00,.1256100989185991e-02,.7999367203284967e+00,.1258192873167162e-02,.8027423802037812e+00,.1260354240858018e-02,.8056370599049799e+00,.1262608925972372e-02,.8086520134810325e+00,.1264984681034516e-02,.8118237698928188e+00,.1267513661363494e-02,.8151948348470072e+00,.1270232874562430e-02,.8188143727609828e+00,.1273184545147458e-02,.8227388097836817e+00,.1276416323542609e-02,.8270322725064919e+00,.1279981244520295e-02,.8317667447053557e+00,.1283937313921567e-02,.8370217873957335e+00,.1288346577738765e-02,.8428836291187909e+00,.1293273510746542e-02,.8494434005718798e+00,.1298782562596834e-02,.8567942719004841e+00,.1304934730786103e-02,.8650272688993226e+00,.3247324487808653e-03,.3945315229438140e-03,.7139767532965116e-02,.4555578699667749e-03,.3372244637254624e-01,.5089677216150194e-03,.6830646000320411e-01,.5558945983563953e-03,.1055952873791690e+00,.5973340508520150e-03,.1430103457525390e+00,.6341254407194094e-03,.1792869234600663e+00,.6669653938797302e-03,.2138306885390802e+00,.6964293711881412e-03,.2464001780084456e+00,.7229930587138452e-03,.2769419073380583e+00,.7470509916283250e-03,.3055016129403092e+00,.7689319468807855e-03,.3321753151236530e+00,.7889113759410096e-03,.3570819738779806e+00,.8072213501811222e-03,.3803481790268297e+00,.8240584940970029e-03,.4020996841123463e+00,.8395903192560990e-03,.4224568848461668e+00,.8539602966613761e-03,.4415325859147346e+00,.8672919359416600e-03,.4594310931563854e+00,.8796920818161035e-03,.4762480638503880e+00,.8912535918781442e-03,.4920707781580621e+00,.9020575233992923e-03,.5069786309167420e+00,.9121749286872399e-03,.5210437244980383e+00,.9216683368023415e-03,.5343314926832955e+00,.9305929826843983e-03,.5469013154214589e+00,.9389978318087510e-03,.5588071025313237e+00,.9469264384779324e-03,.5700978354396460e+00,.9544176680744464e-03,.5808180626619678e+00,.9615063075283847e-03,.5910083486194518e+00,.9682235834936652e-03,.6007056775836025e+00,.9745976039775797e-03,.6099438156993251e+00,.9806537362012611e-03,.6187536345605122e+00,.9864149311092719e-03,.6271633999553797e+00,.9919020030614374e-03,.6351990293204530e+00,.9971338717269585e-03,.6428843212420017e+00,.1002127771980826e-02,.6502411600835498e+00,.1006899436614548e-02,.6572896985355157e+00,.1011463255869661e-02,.6640485206005014e+00,.1015832417146389e-02,.6705347872580487e+00,.1020019027701906e-02,.6767643668025705e+00,.1024034222710236e-02,.6827519516206730e+00,.1027888260690500e-02,.6885111629699746e+00,.1031590608007845e-02,.6940546451402459e+00,.1035150013900340e-02,.6993941502179868e+00,.1038574577276322e-02,.7045406145358273e+00,.1041871806352736e-02,.7095042277666803e+00,.1045048672060125e-02,.7142944955177615e+00,.1048111656019274e-02,.7189202961898697e+00,.1051066793794383e-02,.7233899327913630e+00,.1053919714044959e-02,.7277111803329067e+00,.1056675674131018e-02,.7318913293773558e+00,.1059339592671662e-02,.7359372262783432e+00,.1061916079514346e-02,.7398553106107196e+00,.1064409463539858e-02,.7436516502756216e+00,.1066823818705570e-02,.7473319747524817e+00,.1069162988716224e-02,.7509017069698120e+00,.1071430610707160e-02,.7543659942763458e+00,.1073630138329335e-02,.7577297390145481e+00,.1075764864638867e-02,.7609976292302569e+00,.1077837945216411e-02,.7641741700960905e+00,.1079852421973832e-02,.7672637166832609e+00,.1081811248148003e-02,.7702705087876981e+00,.1083717315034678e-02,.7731987086032039e+00,.1085573481080025e-02,.7760524421380459e+00,.1087382604024221e-02,.7788358453933391e+00,.1089147576881027e-02,.7815531164629429e+00,.1090871368639801e-02,.7842085748763442e+00,.1092557070691845e-02,.7868067296884163e+00,.1094207950110233e-02,.7893523580223542e+00,.1095827511049306e-02,.7918505959922322e+00,.1097419565672728e-02,.7943070441648366e+00,.1098988316160812e-02,.7967278899584393e+00,.1100538449478067e-02,.7991200496055508e+00,.1102075246684770e-02,.8014913325065773e+00,.1103604708628230e-02,.8038506309404848e+00,.1105133699816469e-02,.8062081381315597e+00,.1106670112111886e-02,.8085755975333251e+00,.1108223049519360e-02,.8109665857911905e+00,.1109803034693859e-02,.8133968310607946e+00,.1111422236740111e-02,.8158845670237690e+00,.1113094718271409e-02,.8184509208406880e+00,.1114836697350123e-02,.8211203301382262e+00,.1116666816628120e-02,.8239209796093340e+00,.1118606407495873e-02,.8268852415235039e+00,.1120679731089786e-02,.8300500959832002e+00,.1122914170403457e-02,.8334574957353697e+00,.1125340338439976e-02,.8371546264999228e+00,.1127992056534935e-02,.8411939971620041e+00,.1130906145334969e-02,.8456332754097852e+00,.1134121959793832e-02,.8505347650275864e+00,.1137680591275090e-02,.8559644039843292e+00,.1141623657948933e-02,.8619901524142233e+00,.1145991613898916e-02,.8686796434054859e+00,.2875557040695001e-03,.3493682107340224e-03,.7140652840633392e-02,.4034136512140228e-03,.3372745678580264e-01,.4507156263114678e-03,.6831827979235850e-01,.4922776751319498e-03,.1056161282055053e+00,.5289812044432154e-03,.1430420271934089e+00,.5615693465755460e-03,.1793309426893349e+00,.5906588650957148e-03,.2138882776015863e+00,.6167592500442515e-03,.2464723498787023e+00,.6402916548621664e-03,.2770294926804611e+00,.6616053847329528e-03,.3056052894425374e+00,.6809915244670573e-03,.3322956309926026e+00,.6986939459404484e-03,.3572193667731841e+00,.7149181133975426e-03,.3805029914283647e+00,.7298381072985964e-03,.4022721758944257e+00,.7436022322429452e-03,.4226472436509502e+00,.7563375079342728e-03,.4417409357850834e+00,.7681532808226864e-03,.4596575017826150e+00,.7791441427437137e-03,.4764925487070491e+00,.7893923017930954e-03,.4923333117464571e+00,.7989695184985524e-03,.5072591452826548e+00,.8079386954131118e-03,.5213421151585618e+00,.8163551890154100e-03,.5346476220690836e+00,.8242678979707145e-03,.5472350159192663e+00,.8317201703560293e-03,.5591581791948586e+00,.8387505635876626e-03,.5704660684234719e+00,.8453934839008121e-03,.5812032094226068e+00,.8516797268548300e-03,.5914101459193340e+00,.8576369361234619e-03,.6011238433265917e+00,.8632899945099273e-03,.6103780506208373e+00,.8686613584996434e-03,.6192036237904337e+00,.8737713455743161e-03,.6276288144678238e+00,.8786383818419734e-03,.6356795272806593e+00,.8832792161976796e-03,.6433795492571826e+00,.8877091061492647e-03,.6507507543610395e+00,.8919419795673447e-03,.6578132859480015e+00,.8959905759071083e-03,.6645857196542167e+00,.8998665698679513e-03,.6710852089553721e+00,.9035806799802425e-03,.6773276153852716e+00,.9071427642160033e-03,.6833276251737907e+00,.9105619043959713e-03,.6890988538586815e+00,.9138464808966333e-03,.6946539402426604e+00,.9170042389371524e-03,.7000046309052734e+00,.9200423475395102e-03,.7051618563365225e+00,.9229674520990890e-03,.7101357996343394e+00,.9257857213720340e-03,.7149359585989350e+00,.9285028895757936e-03,.7195712019621512e+00,.9311242942067709e-03,.7240498204076717e+00,.9336549101012279e-03,.7283795729669328e+00,.9360993802001778e-03,.7325677293146301e+00,.9384620434241330e-03,.7366211084358048e+00,.9407469600177421e-03,.7405461140927553e+00,.9429579346863432e-03,.7443487674837327e+00,.9450985378153066e-03,.7480347374559778e+00,.9471721250379737e-03,.7516093686126949e+00,.9491818553984218e-03,.7550777076367228e+00,.9511307083407467e-03,.7584445281427596e+00,.9530214997467334e-03,.7617143543649362e+00,.9548568972384669e-03,.7648914839873381e+00,.9566394349615138e-03,.7679800104318763e+00,.9583715280677518e-03,.7709838449309258e+00,.9600554871248025e-03,.7739067387317117e+00,.9616935326914640e-03,.7767523058059454e+00,.9632878103157287e-03,.7795240464721949e+00,.9648404062341729e-03,.7822253723804877e+00,.9663533640789765e-03,.7848596333593397e+00,.9678287029319074e-03,.7874301466854236e+00,.9692684371035443e-03,.7899402294061247e+00,.9706745980610887e-03,.7923932344258478e+00,.9720492589794330e-03,.7947925911586078e+00,.9733945624476692e-03,.7971418516523020e+00,.9747127519265526e-03,.7994447432038601e+00,.9760062076207416e-03,.8017052286081833e+00,.9772774875013603e-03,.8039275753153862e+00,.9785293742870215e-03,.8061164349067315e+00,.9797649292608988e-03,.8082769344340225e+00,.9809875538617746e-03,.8104147812911904e+00,.9822010600294816e-03,.8125363833872510e+00,.9834097502974072e-03,.8146489864477286e+00,.9846185085894264e-03,.8167608302603168e+00,.9858329025720856e-03,.8188813255629256e+00,.9870592982031829e-03,.8210212529979992e+00,.9883049867630125e-03,.8231929850588618e+00,.9895783241000432e-03,.8254107311438275e+00,.9908888810000608e-03,.8276908045991552e+00,.9922476024127977e-03,.8300519088320196e+00,.9936669716440181e-03,.8325154370399047e+00,.9951611734340783e-03,.8351057766377819e+00,.9967462469844777e-03,.8378506048585280e+00,.9984402163659223e-03,.8407811560526175e+00,.1000263181294734e-02,.8439324337673380e+00,.1002237346041166e-02,.8473433317092810e+00,.1004386958434913e-02,.8510566173745598e+00,.1006738125009853e-02,.8551187210241215e+00,.1009318463085570e-02,.8595792618934147e+00,.1012156547280817e-02,.8644902349222623e+00,.1015281108386375e-02,.8699047776816512e+00,.1018719948988823e-02,.8758754423894201e+00,.2516072353014572e-03,.3056959967091976e-03,.7141513331248321e-02,.3529898095786411e-03,.3373232773731790e-01,.3943840897337921e-03,.6832977329356830e-01,.4307567414106005e-03,.1056363991444212e+00,.4628788405472162e-03,.1430728515532258e+00,.4914005032824914e-03,.1793737852691615e+00,.5168612968898808e-03,.2139443476569179e+00,.5397069428251232e-03,.2465426458452338e+00,.5603058824394920e-03,.2771148378485354e+00,.5789637011504982e-03,.3057063604036936e+00,.5959350504603019e-03,.3324129804044311e+00,.6114332776489099e-03,.3573534416826857e+00,.6256381290223384e-03,.3806541481236008e+00,.6387018947049087e-03,.4024406920346254e+00,.6507543147370997e-03,.4228333282534617e+00,.6619065080162839e-03,.4419447375155043e+00,.6722541319677103e-03,.4598791158936434e+00,.6818799359437668e-03,.4767320228947860e+00,.6908558354114982e-03,.4925906511342484e+00,.6992446058387721e-03,.5075343166976332e+00,.7071012733743214e-03,.5216350508314642e+00,.7144742625858456e-03,.5349582228611499e+00,.7214063485450536e-03,.5475631541591855e+00,.7279354505312647e-03,.5595037011924066e+00,.7340952968696949e-03,.5708287967136168e+00,.7399159843938746e-03,.5815829447836500e+00,.7454244513185431e-03,.5918066692004921e+00,.7506448786223955e-03,.6015369171138536e+00,.7555990321360334e-03,.6108074207645846e+00,.7603065552321395e-03,.6196490208139152e+00,.7647852201872223e-03,.6280899548719071e+00,.7690511448239667e-03,.6361561147571614e+00,.7731189798710006e-03,.6438712758203572e+00,.7770020715316172e-03,.6512573014043507e+00,.7807126029873436e-03,.6583343252310160e+00,.7842617179394069e-03,.6651209142221997e+00,.7876596287823588e-03,.6716342139918672e+00,.7909157115868082e-03,.6778900789954702e+00,.7940385897245874e-03,.6839031890937339e+00,.7970362076856718e-03,.6896871540821554e+00,.7999158964005718e-03,.6952546075538913e+00,.8026844311858064e-03,.7006172913010297e+00,.8053480832662807e-03,.7057861313157792e+00,.8079126656911606e-03,.7107713063270146e+00,.8103835743445347e-03,.7155823096970855e+00,.8127658246549895e-03,.7202280054070732e+00,.8150640845261530e-03,.7247166787741906e+00,.8172827039407797e-03,.7290560824713176e+00,.8194257416320207e-03,.7332534783544617e+00,.8214969891654706e-03,.7373156755481164e+00,.8234999927330391e-03,.7412490651900622e+00,.8254380729235324e-03,.7450596521952805e+00,.8273143427041148e-03,.7487530843625872e+00,.8291317238207998e-03,.7523346791167432e+00,.8308929618041609e-03,.7558094481526250e+00,.8326006397480466e-03,.7591821202261264e+00,.8342571910138194e-03,.7624571623184618e+00,.8358649110001742e-03,.7656387993861767e+00,.8374259681086725e-03,.7687310328982383e+00,.8389424140275449e-03,.7717376583539388e+00,.8404161934509115e-03,.7746622819709052e+00,.8418491533472557e-03,.7775083367312447e+00,.8432430518896748e-03,.7802790979757885e+00,.8445995671611185e-03,.7829776987415892e+00,.8459203057504956e-03,.7856071450464104e+00,.8472068113602371e-03,.7881703313360623e+00,.8484605735526905e-03,.7906700563263103e+00,.8496830367716911e-03,.7931090394909276e+00,.8508756097868982e-03,.7954899384715712e+00,.8520396757221188e-03,.7978153677138051e+00,.8531766028449862e-03,.8000879186670883e+00,.8542877563141193e-03,.8023101819251651e+00,.8553745111013562e-03,.8044847717273021e+00,.8564382663308516e-03,.8066143532903718e+00,.8574804613037265e-03,.8087016734969329e+00,.8585025935063833e-03,.8107495955250247e+00,.8595062389322027e-03,.8127611380708978e+00,.8604930750795124e-03,.8147395198853895e+00,.8614649070224791e-03,.8166882104165335e+00,.8624236969844256e-03,.8186109874227465e+00,.8633715978728290e-03,.8205120024888089e+00,.8643109912587642e-03,.8223958554353771e+00,.8652445302964463e-03,.8242676786542088e+00,.8661751880747444e-03,.8261332324148928e+00,.8671063118639506e-03,.8279990121599971e+00,.8680416836568219e-03,.8298723687144858e+00,.8689855872887505e-03,.8317616421559534e+00,.8699428822395237e-03,.8336763097907850e+00,.8709190839453324e-03,.8356271482143981e+00,.8719204500557906e-03,.8376264087468918e+00,.8729540715222103e-03,.8396880045621392e+00,.8740279666600877e-03,.8418277064895145e+00,.8751511753462460e-03,.8440633426727417e+00,.8763338492436154e-03,.8464149949224021e+00,.8775873323529088e-03,.8489051816016571e+00,.8789242242430914e-03,.8515590131598368e+00,.8803584160127719e-03,.8544043019385164e+00,.8819050864333951e-03,.8574716026611897e+00,.8835806429514380e-03,.8607941542532526e+00,.8854025895229178e-03,.8644076876951290e+00,.8873893010135113e-03,.8683500591389794e+00,.8895596827024104e-03,.8726606635323475e+00,.8919326940631082e-03,.8773795829320804e+00,.8945267194288890e-03,.8825464274388153e+00,.2223192652822833e-03,.2701145057190040e-03,.7142201961578917e-02,.3119065510375409e-03,.3373622651253249e-01,.3484864321264339e-03,.6833897467046082e-01,.3806297364820721e-03,.1056526311462410e+00,.4090176838012951e-03,.1430975404471804e+00,.4342246342064952e-03,.1794081097583843e+00,.4567272828059632e-03,.2139892833907438e+00,.4769194148963887e-03,.2465990011834060e+00,.4951265406555741e-03,.2771832823761325e+00,.5116186382371054e-03,.3057874476558851e+00,.5266206864730374e-03,.3325071660393497e+00,.5403211724599088e-03,.3574610980955170e+00,.5528788972227103e-03,.3807755762784305e+00,.5644284045399661e-03,.4025761311147353e+00,.5750843154180597e-03,.4229829635932437e+00,.5849447992701323e-03,.4421087071714556e+00,.5940943654599883e-03,.4600575161312302e+00,.6026061192146514e-03,.4769249128064807e+00,.6105435941597527e-03,.4927980565571165e+00,.6179622488629170e-03,.5077562335628903e+00,.6249106954973403e-03,.5218714480507487e+00,.6314317138679972e-03,.5352090448328407e+00,.6375630925795459e-03,.5478283229614227e+00,.6433383302749551e-03,.5597831185164269e+00,.6487872230220317e-03,.5711223455807324e+00,.6539363586005573e-03,.5818904910810551e+00,.6588095342876049e-03,.5921280630645866e+00,.6634281114812186e-03,.6018719941845592e+00,.6678113179369536e-03,.6111560033299172e+00,.6719765063612168e-03,.6200109188606474e+00,.6759393764906060e-03,.6284649670553408e+00,.6797141664962577e-03,.6365440293006893e+00,.6833138185165486e-03,.6442718713535327e+00,.6867501222863375e-03,.6516703477465010e+00,.6900338401544602e-03,.6587595841259685e+00,.6931748162308895e-03,.6655581400283747e+00,.6961820719554190e-03,.6720831543307668e+00,.6990638900109890e-03,.6783504753604156e+00,.7018278882011304e-03,.6843747774195197e+00,.7044810846600041e-03,.6901696652750492e+00,.7070299555552817e-03,.6957477679800600e+00,.7094804862707378e-03,.7011208232299629e+00,.7118382169105868e-03,.7062997533135355e+00,.7141082828461975e-03,.7112947335920807e+00,.7162954509237486e-03,.7161152543292093e+00,.7184041518653100e-03,.7207701765965301e+00,.7204385093230375e-03,.7252677828954485e+00,.7224023659844375e-03,.7296158230608452e+00,.7242993070741803e-03,.7338215559473337e+00,.7261326815532289e-03,.7378917873419190e+00,.7279056212778734e-03,.7418329044971879e+00,.7296210583486120e-03,.7456509076357754e+00,.7312817408508591e-03,.7493514387389932e+00,.7328902471654914e-03,.7529398078995253e+00,.7344489990066897e-03,.7564210174894084e+00,.7359602733269230e-03,.7597997843696403e+00,.7374262132138434e-03,.7630805603462782e+00,.7388488378909974e-03,.7662675510594492e+00,.7402300519233290e-03,.7693647334760027e+00,.7415716537192339e-03,.7723758721433454e+00,.7428753434132293e-03,.7753045343511121e+00,.7441427302069922e-03,.7781541043385911e+00,.7453753392414597e-03,.7809277966791060e+00,.7465746180687906e-03,.7836286689677923e+00,.7477419427901918e-03,.7862596339363163e+00,.7488786239238555e-03,.7888234711170709e+00,.7499859120665148e-03,.7913228381802210e+00,.7510650034123837e-03,.7937602820697135e+00,.7521170451945067e-03,.7961382500690559e+00,.7531431411158165e-03,.7984591009343806e+00,.7541443568405107e-03,.8007251162411515e+00,.7551217256207493e-03,.8029385121019574e+00,.7560762541391865e-03,.8051014514262963e+00,.7570089286545360e-03,.8072160569092491e+00,.7579207215452834e-03,.8092844249546161e+00,.7588125983558522e-03,.8113086407595959e+00,.7596855254600513e-03,.8132907948125792e+00,.7605404784685073e-03,.8152330010832001e+00,.7613784515200193e-03,.8171374172145180e+00,.7622004676113267e-03,.8190062670610542e+00,.7630075901355534e-03,.8208418659532486e+00,.7638009358163845e-03,.8226466491084072e+00,.7645816892425407e-03,.8244232036498043e+00,.7653511192248359e-03,.8261743047383627e+00,.7661105972153171e-03,.8279029563638637e+00,.7668616180436525e-03,.8296124373828724e+00,.7676058232385866e-03,.8313063534256175e+00,.7683450272099249e-03,.8329886953198786e+00,.7690812465664271e-03,.8346639046910128e+00,.7698167328335732e-03,.8363369473861753e+00,.7705540088076615e-03,.8380133953277569e+00,.7712959087329680e-03,.8396995173132502e+00,.7720456224088709e-03,.8414023791296488e+00,.7728067432140554e-03,.8431299531191393e+00,.7735833198629735e-03,.8448912369930949e+00,.7743799114709090e-03,.8466963812112370e+00,.7752016451809944e-03,.8485568235840266e+00,.7760542751796868e-03,.8504854288745331e+00,.7769442413753351e-03,.8524966300217779e+00,.7778787253163293e-03,.8546065661289764e+00,.7788657000623884e-03,.8568332105076614e+00,.7799139696833306e-03,.8591964798032911e+00,.7810331928461635e-03,.8617183125335791e+00,.7822338835880836e-03,.8644227022726899e+00,.7835273809189877e-03,.8673356673041829e+00,.7849257774604757e-03,.8704851350330805e+00,.7864417960824488e-03,.8739007161188697e+00,.7880886026971684e-03,.8776133406687649e+00,.7898795433580249e-03,.8816547276255949e+00,.7918277950171212e-03,.8860566596308294e+00,.7939459222137213e-03,.8908500402679119e+00,.1944104808172863e-03,.2362079689279158e-03,.7142870645995927e-02,.2727565493010114e-03,.3374001298187475e-01,.3047478195749429e-03,.6834791269705135e-01,.3328598979745383e-03,.1056684019862271e+00,.3576884028469226e-03,.1431215337265024e+00,.3797355245930193e-03,.1794414760981541e+00,.3994180621642384e-03,.2140329776183974e+00,.4170803229573239e-03,.2466538170423533e+00,.4330069180398755e-03,.2772498801896881e+00,.4474339038008580e-03,.3058663763636773e+00,.4605579911155484e-03,.3325988808094674e+00,.4725439839337465e-03,.3575659744772789e+00,.4835307298323497e-03,.3808939216502081e+00,.4936358667461324e-03,.4027081940104168e+00,.5029596128586884e-03,.4231289413573305e+00,.5115878016710237e-03,.4422687522901076e+00,.5195943228286058e-03,.4602317415082190e+00,.5270430946153614e-03,.4771133961932997e+00,.5339896662637906e-03,.4930008443009192e+00,.5404825264865527e-03,.5079733438010129e+00,.5465641777837335e-03,.5221028734536996e+00,.5522720230787040e-03,.5354547549768437e+00,.5576391012124826e-03,.5480882663954187e+00,.5626947000884556e-03,.5600572245757691e+00,.5674648702683609e-03,.5714105259898375e+00,.5719728571649507e-03,.5821926413793687e+00,.5762394663436609e-03,.5924440638839293e+00,.5802833735974854e-03,.6022017124008726e+00,.5841213892159104e-03,.6114992931083616e+00,.5877686840933180e-03,.6203676226097062e+00,.5912389839103901e-03,.6288349163028890e+00,.5945447364939478e-03,.6369270455027728e+00,.5976972565551031e-03,.6446677666447656e+00,.6007068512753596e-03,.6520789256394533e+00,.6035829296188047e-03,.6591806401656133e+00,.6063340977673600e-03,.6659914624065441e+00,.6089682426829690e-03,.6725285244645835e+00,.6114926054781716e-03,.6788076684377859e+00,.6139138460109964e-03,.6848435629139552e+00,.6162380999006194e-03,.6906498074313085e+00,.6184710289781289e-03,.6962390262713238e+00,.6206178660351128e-03,.7016229527864589e+00,.6226834546060953e-03,.7068125053216800e+00,.6246722844146502e-03,.7118178556622645e+00,.6265885230237052e-03,.7166484908292960e+00,.6284360441552101e-03,.7213132689469173e+00,.6302184530805945e-03,.7258204698201126e+00,.6319391094293539e-03,.7301778407871102e+00,.6336011477170803e-03,.7343926383451021e+00,.6352074958549976e-03,.7384716659907177e+00,.6367608918694911e-03,.7424213086665331e+00,.6382638990313429e-03,.7462475641609494e+00,.6397189195696667e-03,.7499560717702578e+00,.6411282071242605e-03,.7535521384979339e+00,.6424938780717482e-03,.7570407630365846e+00,.6438179218450410e-03,.7604266577520003e+00,.6451022103519516e-03,.7637142688659893e+00,.6463485065869407e-03,.7669077950147200e+00,.6475584725197199e-03,.7700112043418378e+00,.6487336763355520e-03,.7730282502703713e+00,.6498755990944187e-03,.7759624860841656e+00,.6509856408696007e-03,.7788172784380622e+00,.6520651264205267e-03,.7815958199061201e+00,.6531153104498718e-03,.7843011406686931e+00,.6541373824907589e-03,.7869361194320170e+00,.6551324714664429e-03,.7895034936680300e+00,.6561016499619955e-03,.7920058692573547e+00,.6570459382452019e-03,.7944457296146663e+00,.6579663080720945e-03,.7968254443729997e+00,.6588636863112547e-03,.7991472777018847e+00,.6597389584201900e-03,.8014133963335314e+00,.6605929718067311e-03,.8036258773716017e+00,.6614265391084759e-03,.8057867159584249e+00,.6622404414238483e-03,.8078978328788472e+00,.6630354315293254e-03,.8099610821822974e+00,.6638122371188470e-03,.8119782589091303e+00,.6645715641033481e-03,.8139511070129370e+00,.6653141000107842e-03,.8158813275773382e+00,.6660405175299570e-03,.8177705874338766e+00,.6667514782449204e-03,.8196205282970527e+00,.6674476366107756e-03,.8214327765433879e+00,.6681296442262653e-03,.8232089537737035e+00,.6687981544637654e-03,.8249506883116352e+00,.6694538275230569e-03,.8266596278067956e+00,.6700973359816298e-03,.8283374531279623e+00,.6707293709212047e-03,.8299858937501699e+00,.6713506487175973e-03,.8316067448595304e+00,.6719619185889133e-03,.8332018864208099e+00,.6725639710052013e-03,.8347733044749573e+00,.6731576470708964e-03,.8363231149564427e+00,.6737438489993667e-03,.8378535903427503e+00,.6743235518061943e-03,.8393671894697208e+00,.6748978163539151e-03,.8408665908653167e+00,.6754678038850311e-03,.8423547299689948e+00,.6760347921811532e-03,.8438348406117731e+00,.6766001934827970e-03,.8453105011300979e+00,.6771655742948708e-03,.8467856854705638e+00,.6777326771850360e-03,.8482648196070496e+00,.6783034446530447e-03,.8497528435300649e+00,.6788800451053436e-03,.8512552789714525e+00,.6794649009063182e-03,.8527783028853924e+00,.6800607183903050e-03,.8543288265058851e+00,.6806705196006733e-03,.8559145795259218e+00,.6812976753667025e-03,.8575441985760543e+00,.6819459391275817e-03,.8592273186991227e+00,.6826194806570309e-03,.8609746659004745e+00,.6833229185231614e-03,.8627981480750792e+00,.6840613497285638e-03,.8647109406514445e+00,.6848403745099397e-03,.8667275621282101e+00,.6856661137341258e-03,.8688639333027147e+00,.6865452157148281e-03,.8711374124074637e+00,.6874848486099405e-03,.8735667966111717e+00,.6884926738773655e-03,.8761722784739423e+00,.6895767956239815e-03,.8789753440908044e+00,.6907456801615706e-03,.8819985980014631e+00,.6920080398012621e-03,.8852654987569412e+00,.6933726750250028e-03,.8887999886800295e+00,.6948482698509175e-03,.8926260022952612e+00,.6964431366613300e-03,.8967668406721245e+00,.1687522084062742e-03,.2050350430521891e-03,.7143489225104815e-02,.2367622652786059e-03,.3374351625166600e-01,.2645340906026387e-03,.6835618366232366e-01,.2889390544558335e-03,.1056829987008023e+00,.3104940979691790e-03,.1431437456375445e+00,.3296350786177901e-03,.1794723727318731e+00,.3467237429868135e-03,.2140734485464243e+00,.3620589217153205e-03,.2467046039766637e+00,.3758876341573480e-03,.2773116025546536e+00,.3884147581578293e-03,.3059395516583021e+00,.3998110227339366e-03,.3326839408735750e+00,.4102194641152033e-03,.3576632785546656e+00,.4197605903284232e-03,.3810037669469621e+00,.4285365009823915e-03,.4028308242884812e+00,.4366341766023805e-03,.4232645539797606e+00,.4441281128435874e-03,.4424175040394658e+00,.4510824389517647e-03,.4603937534270471e+00,.4575526297479205e-03,.4772887576403662e+00,.4635868963219365e-03,.4931896163747717e+00,.4692273217485011e-03,.5081755622500646e+00,.4745107935135632e-03,.5223185511672184e+00,.4794697730555439e-03,.5356838841319745e+00,.4841329341264508e-03,.5483308203204026e+00,.4885256949620448e-03,.5603131593778051e+00,.4926706640505523e-03,.5716797819868060e+00,.4965880152488166e-03,.5824751443673352e+00,.5002958048415423e-03,.5927397262665235e+00,.5038102406673260e-03,.6025104342019820e+00,.5071459114881099e-03,.6118209628858234e+00,.5103159832377398e-03,.6207021182846412e+00,.5133323675598979e-03,.6291821059168485e+00,.5162058670665758e-03,.6372867879128392e+00,.5189463009622880e-03,.6450399121650791e+00,.5215626140454308e-03,.6524633166362534e+00,.5240629715848113e-03,.6595771116117261e+00,.5264548421517410e-03,.6663998424002746e+00,.5287450701469129e-03,.6729486347171443e+00,.5309399394814304e-03,.6792393247326799e+00,.5330452296408964e-03,.6852865755411093e+00,.5350662651709710e-03,.6911039815981985e+00,.5370079594647384e-03,.6967041624928251e+00,.5388748536006167e-03,.7020988472546843e+00,.5406711508695714e-03,.7072989502566063e+00,.5424007475382063e-03,.7123146396434907e+00,.5440672603167729e-03,.7171553991088069e+00,.5456740509357201e-03,.7218300837422168e+00,.5472242481790601e-03,.7263469705865458e+00,.5487207676758462e-03,.7307138044675716e+00,.5501663297110800e-03,.7349378395946277e+00,.5515634752832511e-03,.7390258773726449e+00,.5529145806065207e-03,.7429843008159668e+00,.5542218702305272e-03,.7468191059101640e+00,.5554874289292619e-03,.7505359302293567e+00,.5567132124919160e-03,.7541400790825443e+00,.5579010575325747e-03,.7576365494325465e+00,.5590526904217706e-03,.7610300518048510e+00,.5601697354308826e-03,.7643250303805051e+00,.5612537221699207e-03,.7675256814467769e+00,.5623060923901496e-03,.7706359703613220e+00,.5633282062150818e-03,.7736596471697186e+00,.5643213478564601e-03,.7766002610022336e+00,.5652867308658178e-03,.7794611733633313e+00,.5662255029669265e-03,.7822455704165419e+00,.5671387505098367e-03,.7849564743577130e+00,.5680275025831865e-03,.7875967539612229e+00,.5688927348179374e-03,.7901691343763252e+00,.5697353729126355e-03,.7926762062443136e+00,.5705562959076292e-03,.7951204342015494e+00,.5713563392333756e-03,.7975041648285145e+00,.5721362975559819e-03,.7998296341008703e+00,.5728969274414421e-03,.8020989743949635e+00,.5736389498586027e-03,.8043142210972835e+00,.5743630525397174e-03,.8064773188650033e+00,.5750698922165000e-03,.8085901275829018e+00,.5757600967488519e-03,.8106544280606480e+00,.5764342671629149e-03,.8126719275136132e+00,.5770929796147660e-03,.8146442648700572e+00,.5777367872959363e-03,.8165730159477090e+00,.5783662222969873e-03,.8184596985434300e+00,.5789817974456180e-03,.8203057774808211e+00,.5795840081362118e-03,.8221126696623233e+00,.5801733341683536e-03,.8238817491745800e+00,.5807502416126773e-03,.8256143524986065e+00,.5813151847234263e-03,.8273117838796568e+00,.5818686079183535e-03,.8289753209156332e+00,.5824109478480398e-03,.8306062204274619e+00,.5829426355783928e-03,.8322057246800982e+00,.5834640989120021e-03,.8337750680287443e+00,.5839757648761716e-03,.8353154840714917e+00,.5844780624078450e-03,.8368282133969516e+00,.5849714252682631e-03,.8383145120235179e+00,.5854562952230521e-03,.8397756606357110e+00,.5859331255265216e-03,.8412129747325485e+00,.5864023847522156e-03,.8426278158130220e+00,.5868645610151844e-03,.8440216037344282e+00,.5873201666349592e-03,.8453958303903652e+00,.5877697432917324e-03,.8467520748664289e+00,.5882138677316644e-03,.8480920202427393e+00,.5886531580803781e-03,.8494174722229419e+00,.5890882808263732e-03,.8507303797787185e+00,.5895199585379871e-03,.8520328580063178e+00,.5899489783783064e-03,.8533272133961881e+00,.5903762014816018e-03,.8546159717171726e+00,.5908025732518324e-03,.8559019087112308e+00,.5912291346377758e-03,.8571880837811911e+00,.5916570344294526e-03,.8584778768299521e+00,.5920875426055483e-03,.8597750283715609e+00,.5925220647400795e-03,.8610836829786467e+00,.5929621574468788e-03,.8624084360518852e+00,.5934095448005555e-03,.8637543837896255e+00,.5938661356200435e-03,.8651271760926207e+00,.5943340414329835e-03,.8665330719519609e+00,.5948155948529893e-03,.8679789966288171e+00,.5953133679941353e-03,.8694725996326263e+00,.5958301904145430e-03,.8710223121296252e+00,.5963691659207649e-03,.8726374019561603e+00,.5969336873744813e-03,.8743280238622816e+00,.5975274484218217e-03,.8761052619650037e+00,.5981544508145503e-03,.8779811606467382e+00,.5988190057157910e-03,.8799687393004150e+00,.5995257270899495e-03,.8820819854186045e+00,.6002795149823573e-03,.8843358195863941e+00,.6010855262223838e-03,.8867460250263935e+00,.6019491298677465e-03,.8893291335470804e+00,.6028758445922773e-03,.8921022591848045e+00,.6038712552612013e-03,.8950828706648276e+00,.6049409062046725e-03,.8982884942350033e+00,.6060901692668508e-03,.9017363396754307e+00,.1481251565099711e-03,.1799742621307956e-03,.7143974934319647e-02,.2078249765617697e-03,.3374626735466673e-01,.2322040770469374e-03,.6836267972058510e-01,.2536281024389343e-03,.1056944648470500e+00,.2725507603509361e-03,.1431611968300346e+00,.2893545952483257e-03,.1794966519846322e+00,.3043571067937865e-03,.2141052583069300e+00,.3178205747305427e-03,.2467445313185863e+00,.3299618049127232e-03,.2773601392459256e+00,.3409606161517330e-03,.3059971101361032e+00,.3509668551995601e-03,.3327508670011682e+00,.3601060630945735e-03,.3577398618615326e+00,.3684840080409944e-03,.3810902489006329e+00,.3761903012944965e-03,.4029274050222500e+00,.3833012841788339e-03,.4233713978033811e+00,.3898823401138323e-03,.4425347439853034e+00,.3959897539743794e-03,.4605214950272289e+00,.4016722146902933e-03,.4774270820870889e+00,.4069720358522181e-03,.4933385831828130e+00,.4119261525257769e-03,.5083352115151812e+00,.4165669396400193e-03,.5224889054945915e+00,.4209228874124991e-03,.5358649502937634e+00,.4250191616382618e-03,.5485225906897057e+00,.4288780707755034e-03,.5605156131771370e+00,.4325194571969843e-03,.5718928863819531e+00,.4359610264298928e-03,.5826988554317172e+00,.4392186254392934e-03,.5929739898366225e+00,.4423064788406665e-03,.6027551866407443e+00,.4452373902181403e-03,.6120761317679944e+00,.4480229143725210e-03,.6209676230156103e+00,.4506735052476993e-03,.6294578582946426e+00,.4531986434246486e-03,.6375726926413187e+00,.4556069463824008e-03,.6453358673250855e+00,.4579062641690959e-03,.6527692141203824e+00,.4601037626756183e-03,.6598928375275065e+00,.4622059963377751e-03,.6667252774457851e+00,.4642189717935211e-03,.6732836545324753e+00,.4661482037761131e-03,.6795838002301146e+00,.4679987643218002e-03,.6856403732164480e+00,.4697753262034514e-03,.6914669638252581e+00,.4714822013627870e-03,.6970761878028088e+00,.4731233749983658e-03,.7024797706018147e+00,.4747025358699538e-03,.7076886232711463e+00,.4762231032989864e-03,.7127129108730295e+00,.4776882512767774e-03,.7175621142484538e+00,.4791009300347118e-03,.7222450858541227e+00,.4804638853820701e-03,.7267701003089459e+00,.4817796760758937e-03,.7311449002133155e+00,.4830506894522046e-03,.7353767377389203e+00,.4842791555179398e-03,.7394724124294618e+00,.4854671596773276e-03,.7434383056023196e+00,.4866166542444491e-03,.7472804116970708e+00,.4877294688748149e-03,.7510043668780048e+00,.4888073200324911e-03,.7546154751637144e+00,.4898518195952196e-03,.7581187323268813e+00,.4908644826877864e-03,.7615188477809879e+00,.4918467348233061e-03,.7648202646474365e+00,.4927999184228891e-03,.7680271781760355e+00,.4937252987761405e-03,.7711435526736958e+00,.4946240694979417e-03,.7741731370801548e+00,.4954973575308488e-03,.7771194793153748e+00,.4963462277370809e-03,.7799859395107068e+00,.4971716871193750e-03,.7827757022247849e+00,.4979746887058557e-03,.7854917877352522e+00,.4987561351304407e-03,.7881370624886681e+00,.4995168819371097e-03,.7907142487831792e+00,.5002577406335545e-03,.7932259337516524e+00,.5009794815172498e-03,.7956745777068556e+00,.5016828362948059e-03,.7980625219048639e+00,.5023685005135441e-03,.8003919957780823e+00,.5030371358225455e-03,.8026651236850512e+00,.5036893720789472e-03,.8048839312204863e+00,.5043258093139596e-03,.8070503511257529e+00,.5049470195719527e-03,.8091662288371395e+00,.5055535486349787e-03,.8112333277068590e+00,.5061459176442604e-03,.8132533339296184e+00,.5067246246294598e-03,.8152278612058557e+00,.5072901459559465e-03,.8171584551713140e+00,.5078429376997978e-03,.8190465976214947e+00,.5083834369598832e-03,.8208937105586977e+00,.5089120631160979e-03,.8227011600888023e+00,.5094292190426258e-03,.8244702601946616e+00,.5099352922850141e-03,.8262022764129838e+00,.5104306562098391e-03,.8278984294418413e+00,.5109156711358289e-03,.8295598987064962e+00,.5113906854554846e-03,.8311878259120602e+00,.5118560367565149e-03,.8327833186126263e+00,.5123120529527563e-03,.8343474538279233e+00,.5127590534347159e-03,.8358812817402723e+00,.5131973502504269e-03,.8373858295066677e+00,.5136272493279681e-03,.8388621052231878e+00,.5140490517517615e-03,.8403111020816669e+00,.5144630551056335e-03,.8417338027616508e+00,.5148695548966082e-03,.8431311841041218e+00,.5152688460744951e-03,.8445042221173288e+00,.5156612246635426e-03,.8458538973693004e+00,.5160469895237514e-03,.8471812008262565e+00,.5164264442608728e-03,.8484871402011642e+00,.5167998993056541e-03,.8497727468820885e+00,.5171676741845232e-03,.8510390835157447e+00,.5175301000056107e-03,.8522872523277160e+00,.5178875221857676e-03,.8535184042670900e+00,.5182403034460151e-03,.8547337490696901e+00,.5185888271046153e-03,.8559345663404898e+00,.5189335006986103e-03,.8571222177620127e+00,.5192747599661662e-03,.8582981605412726e+00,.5196130732232652e-03,.8594639622127785e+00,.5199489461690734e-03,.8606213169188581e+00,.5202829271545004e-03,.8617720632905069e+00,.5206156129478311e-03,.8629182040514101e+00,.5209476550295670e-03,.8640619274638366e+00,.5212797664454193e-03,.8652056307266341e+00,.5216127292413131e-03,.8663519454211874e+00,.5219474024967696e-03,.8675037650792340e+00,.5222847309624981e-03,.8686642749148173e+00,.5226257542936992e-03,.8698369837189167e+00,.5229716168515654e-03,.8710257578565097e+00,.5233235780207398e-03,.8722348572285707e+00,.5236830229588920e-03,.8734689729618574e+00,.5240514736547882e-03,.8747332664628638e+00,.5244306001218837e-03,.8760334093141518e+00,.5248222314940908e-03,.8773756232962860e+00,.5252283667175941e-03,.8787667195815746e+00,.5256511844461572e-03,.8802141358619505e+00,.5260930516464654e-03,.8817259698386895e+00,.5265565303044835e-03,.8833110071141399e+00,.5270443814944088e-03,.8849787410860012e+00,.5275595659308863e-03,.8867393819581020e+00,.5281052399771031e-03,.8886038514594998e+00,.5286847459332971e-03,.8905837593259870e+00,.5293015952926587e-03,.8926913570756628e+00,.5299594435392922e-03,.8949394641477838e+00,.5306620549953031e-03,.8973413611324083e+00,.5314132562256762e-03,.8999106446760794e+00,.5322168766096216e-03,.9026610388027025e+00,.5330766749183085e-03,.9056061579514983e+00,.5339962511354281e-03,.9087592181279729e+00,.1291672658807919e-03,.1569411415132314e-03,.7144429374444041e-02,.1812286696375032e-03,.3374884163870904e-01,.2024891487895646e-03,.6836875906346668e-01,.2211729609091939e-03,.1057051970576302e+00,.2376757078934563e-03,.1431775337300160e+00,.2523309440420044e-03,.1795193851821314e+00,.2654155096114621e-03,.2141350485529856e+00,.2771580968905830e-03,.2467819320733997e+00,.2877477478365611e-03,.2774056154477370e+00,.2973412539386665e-03,.3060510531385813e+00,.3060692727883761e-03,.3328136064982617e+00,.3140412687616450e-03,.3578116754563008e+00,.3213494654089220e-03,.3811713698313008e+00,.3280719982928522e-03,.4030180284424702e+00,.3342754323013638e-03,.4234716859228214e+00,.3400167776073826e-03,.4426448303068433e+00,.3453451109288780e-03,.4606414878637722e+00,.3503028857160415e-03,.4775570675004032e+00,.3549269964559184e-03,.4934786274558236e+00,.3592496478431822e-03,.5084853632454121e+00,.3632990683734921e-03,.5226491973781846e+00,.3671000992804959e-03,.5360354006553708e+00,.3706746830802694e-03,.5487032048025572e+00,.3740422708473267e-03,.5607063844089743e+00,.3772201633670793e-03,.5720937971957492e+00,.3802237982173855e-03,.5829098782647340e+00,.3830669924186714e-03,.5931950878770883e+00,.3857621484003172e-03,.6029863145180096e+00,.3883204295409269e-03,.6123172361692740e+00,.3907519103608007e-03,.6212186432401899e+00,.3930657055071256e-03,.6297187267546153e+00,.3952700809230814e-03,.6378433353164356e+00,.3973725499905643e-03,.6456162041780895e+00,.3993799569511753e-03,.6530591594781886e+00,.4012985495172340e-03,.6601923004327613e+00,.4031340422649590e-03,.6670341619826434e+00,.4048916721408514e-03,.6736018601298540e+00,.4065762471981460e-03,.6799112219451941e+00,.4081921895038212e-03,.6859769020007800e+00,.4097435730108617e-03,.6918124867754874e+00,.4112341570695012e-03,.6974305883977158e+00,.4126674161504436e-03,.7028429289271262e+00,.4140465662688992e-03,.7080604162333366e+00,.4153745885277149e-03,.7130932124031323e+00,.4166542501385347e-03,.7179507954967295e+00,.4178881232298605e-03,.7226420153762622e+00,.4190786017085115e-03,.7271751442443414e+00,.4202279164050269e-03,.7315579224557873e+00,.4213381487029441e-03,.7357976001001488e+00,.4224112428257702e-03,.7399009747952365e+00,.4234490169331078e-03,.7438744260815747e+00,.4244531731582231e-03,.7477239467635279e+00,.4254253067028491e-03,.7514551715040853e+00,.4263669140908001e-03,.7550734029462083e+00,.4272794006696848e-03,.7585836356036648e+00,.4281640874393643e-03,.7619905777378661e+00,.4290222172765655e-03,.7652986714139369e+00,.4298549606170237e-03,.7685121109086968e+00,.4306634206495281e-03,.7716348596250679e+00,.4314486380701255e-03,.7746706656513523e+00,.4322115954393903e-03,.7776230760895890e+00,.4329532211809737e-03,.7804954502645794e+00,.4336743932555310e-03,.7832909719139642e+00,.4343759425404994e-03,.7860126604497781e+00,.4350586559430094e-03,.7886633813730524e+00,.4357232792703970e-03,.7912458559151491e+00,.4363705198802944e-03,.7937626699724827e+00,.4370010491300795e-03,.7962162823950203e+00,.4376155046435118e-03,.7986090326833559e+00,.4382144924106579e-03,.8009431481441662e+00,.4387985887356742e-03,.8032207505493939e+00,.4393683420456565e-03,.8054438623405243e+00,.4399242745725549e-03,.8076144124157677e+00,.4404668839190812e-03,.8097342415347859e+00,.4409966445185832e-03,.8118051073727768e+00,.4415140089980146e-03,.8138286892532131e+00,.4420194094523807e-03,.8158065925862987e+00,.4425132586383796e-03,.8177403530382282e+00,.4429959510943727e-03,.8196314404545940e+00,.4434678641933102e-03,.8214812625597571e+00,.4439293591347870e-03,.8232911684526717e+00,.4443807818820194e-03,.8250624519185151e+00,.4448224640492010e-03,.8267963545745015e+00,.4452547237444166e-03,.8284940688674631e+00,.4456778663730607e-03,.8301567409401316e+00,.4460921854065215e-03,.8317854733825585e+00,.4464979631207512e-03,.8333813278847675e+00,.4468954713092401e-03,.8349453278065194e+00,.4472849719748584e-03,.8364784606800110e+00,.4476667180050050e-03,.8379816806613994e+00,.4480409538345297e-03,.8394559109472592e+00,.4484079161009533e-03,.8409020461724398e+00,.4487678342966111e-03,.8423209548062871e+00,.4491209314224874e-03,.8437134815648469e+00,.4494674246486925e-03,.8450804498574688e+00,.4498075259867541e-03,.8464226642871850e+00,.4501414429791688e-03,.8477409132253626e+00,.4504693794119635e-03,.8490359714824147e+00,.4507915360563808e-03,.8503086030978187e+00,.4511081114462013e-03,.8515595642743328e+00,.4514193026976681e-03,.8527896064831288e+00,.4517253063794774e-03,.8539994797685749e+00,.4520263194408489e-03,.8551899362836138e+00,.4523225402062811e-03,.8563617340890786e+00,.4526141694462433e-03,.8575156412528867e+00,.4529014115337412e-03,.8586524402878235e+00,.4531844756974208e-03,.8597729329695807e+00,.4534635773826384e-03,.8608779455798124e+00,.4537389397327130e-03,.8619683346221994e+00,.4540107952033793e-03,.8630449930628203e+00,.4542793873242631e-03,.8641088571494663e+00,.4545449726219747e-03,.8651609138678200e+00,.4548078227201481e-03,.8662022090955665e+00,.4550682266323894e-03,.8672338565183648e+00,.4553264932646083e-03,.8682570473740338e+00,.4555829541435220e-03,.8692730610930815e+00,.4558379663881761e-03,.8702832769045586e+00,.4560919159410250e-03,.8712891864758329e+00,.4563452210743556e-03,.8722924076528336e+00,.4565983361864682e-03,.8732946993631147e+00,.4568517558999058e-03,.8742979777371169e+00,.4571060194709263e-03,.8753043334925269e+00,.4573617155151244e-03,.8763160506117581e+00,.4576194870483323e-03,.8773356263222484e+00,.4578800368343567e-03,.8783657923622515e+00,.4581441330213403e-03,.8794095374796469e+00,.4584126150361641e-03,.8804701310663527e+00,.4586863996908342e-03,.8815511477743261e+00,.4589664874357118e-03,.8826564928888149e+00,.4592539686711794e-03,.8837904281482389e+00,.4595500300013319e-03,.8849575975954920e+00,.4598559602799827e-03,.8861630529202465e+00,.4601731562602071e-03,.8874122776038270e+00,.4605031276134677e-03,.8887112090056589e+00,.4608475010329713e-03,.8900662573321374e+00,.4612080230785231e-03,.8914843202051330e+00,.4615865613575363e-03,.8929727913000981e+00,.4619851035704269e-03,.8945395612571059e+00,.4624057538807515e-03,.8961930087896581e+00,.4628507260045860e-03,.8979419796374420e+00,.4633223323547168e-03,.8997957507473553e+00,.4638229685297288e-03,.9017639768452591e+00,.4643550924143431e-03,.9038566164094044e+00,.4649211971655587e-03,.9060838340132801e+00,.4655237774111018e-03,.9084558761162183e+00,.4661652880954744e-03,.9109829176962647e+00,.4668480955879464e-03,.9136748776971255e+00};
 static int MS[50]={1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,22,24,26,28,30,32,34,36,38,41,44,47,50,53,56,59,63,67,71,76,81,86,92,98,105,112,120,129,138,148};
+}}
 #endif
diff --git a/Rock4-L/include/rock4.hpp b/Rock4-L/include/rock4.hpp
index 84a6a98..03c4e7c 100644
--- a/Rock4-L/include/rock4.hpp
+++ b/Rock4-L/include/rock4.hpp
@@ -24,7 +24,7 @@ using namespace tbb;
 ///         double rho(const Vect& X): estimated Jacobian spectral
 ///                                                    radius at X. 
 ///////////////////////////////////////////////////////////////////////
-template<class Vect,class Fct> class rock4: private Rock4Coeffs 
+template<class Vect,class Fct> class rock4: private Rock4LCoeffs 
 {
   bool initialized;
   int n;
@@ -143,12 +143,12 @@ template<class Vect,class Fct> class rock4: private Rock4Coeffs
   }
 public:
   //! constructor
-  rock4(double _rtol,double _atol):Rock4Coeffs(),rtol(_rtol),atol(_atol)
+  rock4(double _rtol,double _atol):Rock4LCoeffs(),rtol(_rtol),atol(_atol)
   {
     initialized=false;
   }
   //! constructor
-  rock4(Vect& y,double& _t, double _rtol,double _atol):Rock4Coeffs(),
+  rock4(Vect& y,double& _t, double _rtol,double _atol):Rock4LCoeffs(),
 							      rtol(_rtol),
 							      atol(_atol)
   {
-- 
2.43.0


From 3e2e316d973da1dba0c8768d07f6a67271b67003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 16/29] fix: copying an object that owns arrays released them
 twice

Arrays and integrators were copied member by member, both copies owning the
same memory (and fortranArray's copy wrote through an unset pointer).
---
 Rock4-L/include/Rock4L.hpp                        | 3 +++
 Rock4-NG/include/Rock4.hpp                        | 3 +++
 SDIRKL/include/Sdirkl.hpp                         | 3 +++
 common/include/fortranArray.hpp                   | 3 +++
 common/include/fortranComplexArray.hpp            | 3 +++
 common/include/fortranRectangularArray.hpp        | 3 +++
 common/include/fortranRectangularComplexArray.hpp | 3 +++
 common/include/fortranVector.hpp                  | 5 +++++
 8 files changed, 26 insertions(+)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index c9241c1..fc745e5 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -251,6 +251,9 @@ namespace odes{
        // do not allocate Vtemp. 
       uround=1.e-16;
     }
+    //! no copy: work arrays have only one owner.
+    Rock4L(const Rock4L&)=delete;
+    Rock4L& operator=(const Rock4L&)=delete;
     //! destructor
     ~Rock4L()
     {
diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index 7351e97..d5a848f 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -148,6 +148,9 @@ namespace odes {
       uround=1.e-16; atol=1.e-5; rtol=1.e-5;
       
     }
+    //! no copy: work arrays have only one owner.
+    Rock4(const Rock4&)=delete;
+    Rock4& operator=(const Rock4&)=delete;
     //! destructor
     ~Rock4()
     {
diff --git a/SDIRKL/include/Sdirkl.hpp b/SDIRKL/include/Sdirkl.hpp
index 1e58917..9888c79 100644
--- a/SDIRKL/include/Sdirkl.hpp
+++ b/SDIRKL/include/Sdirkl.hpp
@@ -131,6 +131,9 @@ public:
 	AD[i][j]=RK.A[i][j]/diag;
     lused=doNew();
   }
+  //! no copy: work arrays have only one owner.
+  Sdirkl(const Sdirkl&)=delete;
+  Sdirkl& operator=(const Sdirkl&)=delete;
   //! destructor.
   ~Sdirkl()
   {
diff --git a/common/include/fortranArray.hpp b/common/include/fortranArray.hpp
index c988d23..7a0a647 100644
--- a/common/include/fortranArray.hpp
+++ b/common/include/fortranArray.hpp
@@ -26,11 +26,14 @@ public:
   //! constructor (copy).
   fortranArray(const fortranArray<n>& AA )
   {
+    x=allocDoubleArray(n2);
     ASSUME_ALIGNED(x);ASSUME_ALIGNED(AA.x);
 #include "Ivdep.hpp"
     for(int i=0;i<n*n;i++)
       x[i]=AA.x[i];
   }
+  //! an array has only one owner.
+  fortranArray<n>& operator=(const fortranArray<n>&)=delete;
   //! destructor
   ~fortranArray()
   {
diff --git a/common/include/fortranComplexArray.hpp b/common/include/fortranComplexArray.hpp
index c74a6be..ec3e36b 100644
--- a/common/include/fortranComplexArray.hpp
+++ b/common/include/fortranComplexArray.hpp
@@ -31,6 +31,9 @@ namespace odes{
 // #endif
       x=allocDoubleArray(size);
     }
+    //! an array has only one owner: no copy.
+    fortranComplexArray(const fortranComplexArray<n>&)=delete;
+    fortranComplexArray<n>& operator=(const fortranComplexArray<n>&)=delete;
     //! destructor
     ~fortranComplexArray()
     {
diff --git a/common/include/fortranRectangularArray.hpp b/common/include/fortranRectangularArray.hpp
index c31c02b..a20d804 100644
--- a/common/include/fortranRectangularArray.hpp
+++ b/common/include/fortranRectangularArray.hpp
@@ -38,6 +38,9 @@ public:
 //     x=new double[size];
 // #endif
   }
+  //! an array has only one owner: no copy.
+  fortranRectangularArray(const fortranRectangularArray<n,kl,ku>&)=delete;
+  fortranRectangularArray<n,kl,ku>& operator=(const fortranRectangularArray<n,kl,ku>&)=delete;
   //! destructor
   ~fortranRectangularArray()
   {
diff --git a/common/include/fortranRectangularComplexArray.hpp b/common/include/fortranRectangularComplexArray.hpp
index 6959aeb..c9376bf 100644
--- a/common/include/fortranRectangularComplexArray.hpp
+++ b/common/include/fortranRectangularComplexArray.hpp
@@ -39,6 +39,9 @@ namespace odes{
 // #endif
       x=allocDoubleArray(size);
     }
+    //! an array has only one owner: no copy.
+    fortranRectangularComplexArray(const fortranRectangularComplexArray<n,kl,ku>&)=delete;
+    fortranRectangularComplexArray<n,kl,ku>& operator=(const fortranRectangularComplexArray<n,kl,ku>&)=delete;
     //! destructor
     ~fortranRectangularComplexArray()
     {
diff --git a/common/include/fortranVector.hpp b/common/include/fortranVector.hpp
index 71de7d2..be85502 100644
--- a/common/include/fortranVector.hpp
+++ b/common/include/fortranVector.hpp
@@ -53,6 +53,9 @@ public:
     deletable=false;
     x=_x; size=_size;;
   }
+  //! copy constructor
+  //! \note the copy is an alias, which never owns the array.
+  fortranVector(const fortranVector& V): x(V.x),size(V.size),deletable(false){}
   //! destructor
   ~fortranVector()
   {
@@ -156,6 +159,8 @@ public:
       y=allocDoubleArray(n);
       x=&(y[0]); size=n;deletable=false;
     }
+    //! an array has only one owner: no copy.
+    fortranVectorF(const fortranVectorF<n>&)=delete;
     //! destructor
     ~fortranVectorF()
     {
-- 
2.43.0


From 0f66a672e35163d0ef92774667c340e877d1fe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 17/29] fix: Rock4L assumed alignment of sub arrays that were
 not aligned

---
 Rock4-L/include/Rock4L.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index fc745e5..b2777a2 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -72,7 +72,7 @@ namespace odes{
     //! make sub arrays.
     inline void splitBigArray()
     {
-      k1=BigArray; g0=k1+size; g1=g0+size; g2=g1+size;
+      k1=BigArray; g0=k1+sizesplit; g1=g0+sizesplit; g2=g1+sizesplit;
     }
     //! permutate 3 adresses g0,g1,g2.
     //! \param g0 
@@ -245,8 +245,9 @@ namespace odes{
     Rock4L(Fonc& F): Fp(&F),size(Fp->size())
     {
       int bk=BLOCK_FACTOR/sizeof(double);
-      sizesplit=BLOCK_FACTOR*(size/bk+ size%bk==0? 0:1);
-      BigArray=allocDoubleArray(4*size);//Allocate(4*size);
+      //all sub arrays must be aligned:
+      sizesplit=bk*((size+bk-1)/bk);
+      BigArray=allocDoubleArray(4*sizesplit);//Allocate(4*size);
       splitBigArray();
        // do not allocate Vtemp. 
       uround=1.e-16;
-- 
2.43.0


From 51d36064268424e03ca1e249404ad4a710c91062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 18/29] fix: extrapolated starting values were written out of
 bounds

Stages are n values apart, not nsteps.
---
 SymplecticRK/include/Extrap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SymplecticRK/include/Extrap.hpp b/SymplecticRK/include/Extrap.hpp
index ce8baa2..923107c 100644
--- a/SymplecticRK/include/Extrap.hpp
+++ b/SymplecticRK/include/Extrap.hpp
@@ -42,12 +42,12 @@ namespace odes{
       for(int i=0;i<nsteps;i++)
 	{
 	  for(int l=0;l<n;l++)
-	    Y[nsteps*i+l]=u[l];
+	    Y[n*i+l]=u[l];
 	  for(int j=0;j<nsteps;j++)
 	    {
 	      double beta=q[nsteps*i+j];
 	      for(int l=0;l<n;l++)
-		Y[nsteps*i+l]+=beta*F[nsteps*j+l];
+		Y[n*i+l]+=beta*F[n*j+l];
 	    }
 	}
 	    
-- 
2.43.0


From 80b2ccae7f9b53ea4c46903eec7fbadb53974889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 19/29] fix: long double step size and weights were rounded to
 double

---
 SymplecticRK/include/Extrap.hpp         | 4 ++--
 SymplecticRK/include/GaussianMethod.hpp | 2 +-
 SymplecticRK/include/SymplecticRK.hpp   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/SymplecticRK/include/Extrap.hpp b/SymplecticRK/include/Extrap.hpp
index 923107c..dcd3b15 100644
--- a/SymplecticRK/include/Extrap.hpp
+++ b/SymplecticRK/include/Extrap.hpp
@@ -25,7 +25,7 @@ namespace odes{
     ~Extrap(){}
     //! multiply coefficients by h.
     //! \param h
-    void change_h(double h)
+    void change_h(Double h)
     {
        // copy coefficients in q[].
       extrapcoeffs<nsteps,Double>(q);
@@ -45,7 +45,7 @@ namespace odes{
 	    Y[n*i+l]=u[l];
 	  for(int j=0;j<nsteps;j++)
 	    {
-	      double beta=q[nsteps*i+j];
+	      Double beta=q[nsteps*i+j];
 	      for(int l=0;l<n;l++)
 		Y[n*i+l]+=beta*F[n*j+l];
 	    }
diff --git a/SymplecticRK/include/GaussianMethod.hpp b/SymplecticRK/include/GaussianMethod.hpp
index 64afba4..4fc0334 100644
--- a/SymplecticRK/include/GaussianMethod.hpp
+++ b/SymplecticRK/include/GaussianMethod.hpp
@@ -76,7 +76,7 @@ namespace odes{
     }
     //! multiply coefficients by h.
     //! \param h
-    void change_h(double h)
+    void change_h(Double h)
     {
       //init();
       icoeffs<nsteps,long double>(a,b);
diff --git a/SymplecticRK/include/SymplecticRK.hpp b/SymplecticRK/include/SymplecticRK.hpp
index 4929ba2..454d95e 100644
--- a/SymplecticRK/include/SymplecticRK.hpp
+++ b/SymplecticRK/include/SymplecticRK.hpp
@@ -127,7 +127,7 @@ public:
 	
 	for(int i=0;i<nsteps;i++)
 	  {
-	    double bi=G.b[i];
+	    Double bi=G.b[i];
 #include "Ivdep.hpp"
 	    for(int j=0;j<n;j++)
 	      delta[j]+=bi*Y1[i*n+j];
-- 
2.43.0


From d6f553c3b5435f80040339aea6aefe68e85fb531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 20/29] fix: a band wider than the matrix was only refused on
 both sides

---
 common/include/Matrices.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/Matrices.hpp b/common/include/Matrices.hpp
index d4ef6c6..fab0e2e 100644
--- a/common/include/Matrices.hpp
+++ b/common/include/Matrices.hpp
@@ -139,7 +139,7 @@ namespace odes
     //! constructor.
     Matrices()
     {
-      if(nsub>=n && nsup>=n)
+      if(nsub>=n || nsup>=n)
 	throw OdesException("Matrices (banded): incorrect nsub or nsup", 
 			       "nsub=",nsub,"nsup=",nsup,"n=",n);
     }
-- 
2.43.0


From e5806eec6f3fb0fbad746b319a59ae0912bdb7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 21/29] fix: printing a banded matrix used an uninitialised
 index

---
 common/include/fortranRectangularArray.hpp        | 2 +-
 common/include/fortranRectangularComplexArray.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/fortranRectangularArray.hpp b/common/include/fortranRectangularArray.hpp
index a20d804..92666f2 100644
--- a/common/include/fortranRectangularArray.hpp
+++ b/common/include/fortranRectangularArray.hpp
@@ -111,7 +111,7 @@ public:
     cout<<s<<endl;
     for(int i=1;i<=n;i++)
       {
-  	for(int j=MAX(1,j-kl);j<=MIN(n,j+ku);j++)
+  	for(int j=MAX(1,i-kl);j<=MIN(n,i+ku);j++)
   	  cout<<operator()(i,j)<<" ";
   	cout<<endl;
       }
diff --git a/common/include/fortranRectangularComplexArray.hpp b/common/include/fortranRectangularComplexArray.hpp
index c9376bf..9d4e23f 100644
--- a/common/include/fortranRectangularComplexArray.hpp
+++ b/common/include/fortranRectangularComplexArray.hpp
@@ -109,14 +109,14 @@ namespace odes{
       cout<<s<<endl;
       for(int i=1;i<=n;i++)
     	{
-    	  for(int j=MAX(1,j-kl);j<=MIN(n,j+ku);j++)
+    	  for(int j=MAX(1,i-kl);j<=MIN(n,i+ku);j++)
     	    cout<<Re(i,j)<<" ";
     	  cout<<endl;
     	}
       cout<<"---"<<endl;
       for(int i=1;i<=n;i++)
     	{
-    	  for(int j=MAX(1,j-kl);j<=MIN(n,j+ku);j++)
+    	  for(int j=MAX(1,i-kl);j<=MIN(n,i+ku);j++)
     	    cout<<Im(i,j)<<" ";
     	  cout<<endl;
     	}    
-- 
2.43.0


From 4ec64f89f64b1b8ea702b0e052d1fa4b608171e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 22/29] fix: Sdirkl.hpp needed a header found in a test
 directory only

---
 SDIRKL/include/Sdirkl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SDIRKL/include/Sdirkl.hpp b/SDIRKL/include/Sdirkl.hpp
index 9888c79..a34971e 100644
--- a/SDIRKL/include/Sdirkl.hpp
+++ b/SDIRKL/include/Sdirkl.hpp
@@ -1,7 +1,7 @@
 #ifndef Sdirkl__h
 #define Sdirkl__h
 #include "AllocateDestroyVector.hpp"
-#include "GenericException.hpp"
+#include "OdesException.hpp"
 #include <iostream>
 using namespace std;
 namespace odes
@@ -144,7 +144,7 @@ public:
   void step(double inout[])
   {
     if(affine)
-      throw GenericException("Sdirkl step(inout) called in the affine case");
+      throw OdesException("Sdirkl step(inout) called in the affine case");
     Zcomb[0]=inout;
     for(int stage=0;stage<nstage;stage++)
       {
@@ -168,7 +168,7 @@ public:
   void step(double inout[], double phi[])
   {
    if(!affine)
-     throw GenericException("Sdirkl step(inout,phi) called",
+     throw OdesException("Sdirkl step(inout,phi) called",
 			    "in the linear case");
     Zcomb[0]=inout;
     for(int stage=0;stage<nstage;stage++)
-- 
2.43.0


From 4dbfc6404dcfaa958e530f75105c39915393a11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:23 +0000
Subject: [PATCH 23/29] fix: Rock4.hpp did not compile when included first

---
 Rock4-NG/include/ToolOMP.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Rock4-NG/include/ToolOMP.hpp b/Rock4-NG/include/ToolOMP.hpp
index 789ffa8..38ecfae 100644
--- a/Rock4-NG/include/ToolOMP.hpp
+++ b/Rock4-NG/include/ToolOMP.hpp
@@ -2,6 +2,7 @@
 #include <iostream>
 #include "Rock4Coeffs.hpp"
 #include "MacrosForCompilers.hpp"
+#include "AllocateDestroyVector.hpp"
 #include "OdesException.hpp"
 #define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 using namespace std;
-- 
2.43.0


From d4a8563dfeaaeba4aa68adbe155d6e38bc9e3b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 24/29] fix: a C library header was included inside a namespace

With ALIGN_BLOCKED, a program including Rock4L.hpp or Sdirkl.hpp first did not
compile.
---
 common/include/AllocateDestroyVector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/include/AllocateDestroyVector.hpp b/common/include/AllocateDestroyVector.hpp
index 36bdff5..545eea2 100644
--- a/common/include/AllocateDestroyVector.hpp
+++ b/common/include/AllocateDestroyVector.hpp
@@ -3,7 +3,6 @@
 //////////////////////////////////////////////////////////////////////
 /// Define different methods to allocate arrays.
 //////////////////////////////////////////////////////////////////////
-namespace odes{
 #include "MacrosForCompilers.hpp"
 #ifdef ALIGN_BLOCKED
 #ifdef ICC
@@ -11,6 +10,9 @@ namespace odes{
 #else 
 #include "mm_malloc.h"
 #endif
+#endif
+namespace odes{
+#ifdef ALIGN_BLOCKED
 // Blocked alignment allocation.
 inline double *allocDoubleArray(int size)
 {return (double *) _mm_malloc(size*sizeof(double),BLOCK_FACTOR);}
-- 
2.43.0


From 0387a2f3a27565c815fa72ff4af276a65a37dee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 25/29] fix: Rock4 could miss the end time by one rounding
 error and throw

---
 Rock4-L/include/Rock4L.hpp | 20 ++++++++++++++++----
 Rock4-NG/include/Rock4.hpp | 14 +++++++++-----
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index b2777a2..d3e34b4 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -300,7 +300,9 @@ namespace odes{
       
       while(t<tend)
 	{
-	  if(1.01e0*h>=abs(tend-t))
+	  // does this step end exactly at tend?
+	  bool last=1.01e0*h>=abs(tend-t);
+	  if(last)
 	    h=abs(tend-t);
 
 	  if (h<10.0e0*uround)
@@ -321,7 +323,11 @@ namespace odes{
 	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
 	    }
 	  kernel1(y,h);
-	  t+=h;
+	  // t+h can be different from tend, due to rounding.
+	  if(last)
+	    t=tend;
+	  else
+	    t+=h;
 	  if(t+h>tend) h=tend-t;
 	}
     }
@@ -349,7 +355,9 @@ namespace odes{
       
       while(t<tend)
 	{
-	  if(1.01e0*h>=abs(tend-t))
+	  // does this step end exactly at tend?
+	  bool last=1.01e0*h>=abs(tend-t);
+	  if(last)
 	    h=abs(tend-t);
 
 	  if (h<10.0e0*uround)
@@ -370,7 +378,11 @@ namespace odes{
 	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
 	    }
 	  kernel2(y,b,h);
-	  t+=h;
+	  // t+h can be different from tend, due to rounding.
+	  if(last)
+	    t=tend;
+	  else
+	    t+=h;
 	  if(t+h>tend) h=tend-t;
 	}
     }
diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index d5a848f..529a659 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -196,7 +196,6 @@ namespace odes {
       nrej=0; nacc=0;nstagesmax=0;
       double eigmax=0.0;
       double hnew; double facmax=5.0,hp=_h; 
-      //bool last=false; 
       int nrho=0; int nrejloc=0;
       Fonc& F=*Fp;
       int pass=0;
@@ -208,7 +207,9 @@ namespace odes {
  
       while(t<tend)
 	{
-	  if(1.01e0*h>=ABS(tend-t))
+	  // does this step end exactly at tend?
+	  bool last=1.01e0*h>=ABS(tend-t);
+	  if(last)
 	    h=ABS(tend-t);
 
 	  if (h<10.0e0*uround)
@@ -225,7 +226,7 @@ namespace odes {
 	    {
 	      h=0.8e0*(152.e0*152.e0*0.353e0-3.e0)/eigmax;
 	      mdeg=152;
-	      //last=false;
+	      last=false;
 	    }
 	  mdeg=max(mdeg,5)-4;
 	  if(mdeg!=mdego)
@@ -252,7 +253,11 @@ namespace odes {
 	    {
 	      //accepted step.
 	      ++nacc; facmax=2.0e0;
-	      t+=h;
+	      // t+h can be different from tend, due to rounding.
+	      if(last)
+		t=tend;
+	      else
+		t+=h;
 	      hlast=h;
 	      if (reject)
 		{
@@ -277,7 +282,6 @@ namespace odes {
 	      Logit.put(t,pass,rejectedStep,hnew);
 #endif
 	      reject= true;
-	      //last=false;
 	      h= 0.8e0*hnew;
 	      ++nrej;
 	      if(nsteps==0) h/=10.e0;
-- 
2.43.0


From 63f7953180a3b29940f130911c1e4a7ba612fc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 26/29] fix: Crank-Nicolson used the wrong final coefficient

D is B times the inverse of A, 1/(1/2)=2: with 1 every step advanced the
solution as an implicit Euler half step would.
---
 SDIRKL/include/CrN.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SDIRKL/include/CrN.hpp b/SDIRKL/include/CrN.hpp
index 531d5c7..c0603bc 100644
--- a/SDIRKL/include/CrN.hpp
+++ b/SDIRKL/include/CrN.hpp
@@ -15,7 +15,7 @@ struct CrN
   CrN()
   {
     A[0][0]=0.5;
-    D[0]=1.;
+    D[0]=2.;
     S[0]=0.5;
     name="CrN";
   }
-- 
2.43.0


From d3419097ed86fee5fd6bfb4414bfdaf99783ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 27/29] fix: Rock4L documented a right-hand side a*A*in+g where
 a*(A*in+g) is needed

---
 Rock4-L/include/Rock4L.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index d3e34b4..baa157f 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -33,14 +33,14 @@ namespace odes{
 ///           compute out[]= A*a* in[] +b s[]
 ///      6) void operator()(double * in, double * s, 
 ///                             double a, double b, double *g,double *out)
-///           compute out[]=A*a*in[]+ b*s[] +g[]
+///           compute out[]=a*(A*in[]+g[])+ b*s[]
 ///      7) void operator()(double * in, double * s,
 ///                              double a, double b,double c,double *out)
-///           compute out[]==A*a*in[]+ b*in[] + c*s[]
+///           compute out[]=A*a*in[]+ b*in[] + c*s[]
 ///      8)  void operator()(double * in, double * s, 
 ///                              double a, double b,double c,double *g,
 ///                              double *out)
-///           compute out[]==A*a*in[]+ b*in[] + c*s[]+ g[]
+///           compute out[]=a*(A*in[]+g[])+ b*in[] + c*s[]
 ///
 ///    where in[], s[], g[] and out[] are vectors of size n.        
 //////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 97b51c51f42b7d973f265b6f314d45ebd46a7e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 28/29] fix: long double Gauss coefficients were stored in
 double

---
 SymplecticRK/sage/comp1.sage              |  14 +-
 SymplecticRK/sage/compco.sage             |   6 +-
 SymplecticRK/sage/generated_coeffs.hpp    | 316 +++++++++++-----------
 SymplecticRK/sage/generated_coeffs_co.hpp |  30 +-
 4 files changed, 185 insertions(+), 181 deletions(-)

diff --git a/SymplecticRK/sage/comp1.sage b/SymplecticRK/sage/comp1.sage
index e42bd70..01d18ea 100644
--- a/SymplecticRK/sage/comp1.sage
+++ b/SymplecticRK/sage/comp1.sage
@@ -27,7 +27,7 @@ def Cooper(s,A,B):
     return sum([abs(B[i][0]*A[i,j]+B[j][0]*A[j,i]-B[i][0]*B[j][0]) \
                 for i in range(s) for j in range(s)])
  
-def lcoeffs(s,Rout,Rpivot):
+def lcoeffs(s,Rout,Rpivot,nm):
     p=x^s*(x-1)^s
     l=p.derivative(x,s) #the polynomial.
     theRoots=[Rpivot((l.roots()[i][0]).real()) for i in range(0,s)]
@@ -49,17 +49,19 @@ def lcoeffs(s,Rout,Rpivot):
     #print AA.parent(),BB.parent()
     #
     print "Cooper,Rout = ",Cooper(s,AA,BB)
-    la="initializer_list<double> la={"
+    # long double literals need a suffix.
+    suffix="L" if nm=="long double" else ""
+    la="initializer_list<"+nm+"> la={"
     for i in range(0,s):
         for j in range(0,s):
-            la+=str(Rout(A[i,j]))+","
+            la+=str(Rout(A[i,j]))+suffix+","
         la+="\n"
     la=la[:-2]+"};\n"
 
 
-    lb="initializer_list<double> lb={"
+    lb="initializer_list<"+nm+"> lb={"
     for i in range(0,s):
-        lb+=str(B[i][0])+","
+        lb+=str(B[i][0])+suffix+","
     lb=lb[:-1]+"};\n"
     d={}
     d['la']=la
@@ -82,7 +84,7 @@ for rng in rngs:
         a="template<> void icoeffs<"+str(i)+","+nm+">("+nm+"* a," \
             +nm+"* b)\n{\n"
         print "\n",nm,i
-        ll=lcoeffs(i,Rout,Rpivot)
+        ll=lcoeffs(i,Rout,Rpivot,nm)
         a+=ll["la"]+"\n"+ll["lb"]+"\n"
         #
         fout.write(a)
diff --git a/SymplecticRK/sage/compco.sage b/SymplecticRK/sage/compco.sage
index 96a84bc..30a99a2 100644
--- a/SymplecticRK/sage/compco.sage
+++ b/SymplecticRK/sage/compco.sage
@@ -48,9 +48,11 @@ for rng in rngs:
         print "\n",nm,i
         fout.write(a)
         ll=ccoeffs(i,Rout,Rpivot).list()
-        lc="initializer_list<double> lc={"
+        # long double literals need a suffix.
+        suffix="L" if nm=="long double" else ""
+        lc="initializer_list<"+nm+"> lc={"
         for l in ll:
-            lc+=str(l)+","
+            lc+=str(l)+suffix+","
         lc=lc[:-1]+"};\n"
         fout.write(lc)
         fout.write(cc+"\n}\n")
diff --git a/SymplecticRK/sage/generated_coeffs.hpp b/SymplecticRK/sage/generated_coeffs.hpp
index d2dfe7b..2bf7b33 100644
--- a/SymplecticRK/sage/generated_coeffs.hpp
+++ b/SymplecticRK/sage/generated_coeffs.hpp
@@ -270,10 +270,10 @@ copy(lb.begin(),lb.end(),b);
 
 template<> inline void icoeffs<2,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.250000000000000000000000000000000,-0.0386751345948128822545743902509787,
-0.538675134594812882254574390250979,0.250000000000000000000000000000000};
+initializer_list<long double> la={0.250000000000000000000000000000000L,-0.0386751345948128822545743902509787L,
+0.538675134594812882254574390250979L,0.250000000000000000000000000000000L};
 
-initializer_list<double> lb={0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000,0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000};
+initializer_list<long double> lb={0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000L,0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -281,11 +281,11 @@ copy(lb.begin(),lb.end(),b);
 
 template<> inline void icoeffs<3,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.138888888888888888888888888888889,-0.0359766675249389034563954710966044,0.00978944401530832604958004222947557,
-0.300263194980864592438024947213156,0.222222222222222222222222222222222,-0.0224854172030868146602471694353778,
-0.267988333762469451728197735548302,0.480421111969383347900839915541049,0.138888888888888888888888888888889};
+initializer_list<long double> la={0.138888888888888888888888888888889L,-0.0359766675249389034563954710966044L,0.00978944401530832604958004222947557L,
+0.300263194980864592438024947213156L,0.222222222222222222222222222222222L,-0.0224854172030868146602471694353778L,
+0.267988333762469451728197735548302L,0.480421111969383347900839915541049L,0.138888888888888888888888888888889L};
 
-initializer_list<double> lb={0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778,0.4444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444,0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778};
+initializer_list<long double> lb={0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778L,0.4444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444L,0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -293,12 +293,12 @@ copy(lb.begin(),lb.end(),b);
 
 template<> inline void icoeffs<4,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0869637112843634643432659873054999,-0.0266041800849987933133851304769531,0.0126274626894047245150568805746181,-0.00355514968579568315691098184956959,
-0.188118117499868071650685545087171,0.163036288715636535656734012694500,-0.0278804286024708952241511064189974,0.00673550059453815551539866908570376,
-0.167191921974188773171133305525296,0.353953006033743966537619131807998,0.163036288715636535656734012694500,-0.0141906949311411429641535704761715,
-0.177482572254522611843442956460569,0.313445114741868346798411144814382,0.352676757516271864626853155865953,0.0869637112843634643432659873054999};
+initializer_list<long double> la={0.0869637112843634643432659873054999L,-0.0266041800849987933133851304769531L,0.0126274626894047245150568805746181L,-0.00355514968579568315691098184956959L,
+0.188118117499868071650685545087171L,0.163036288715636535656734012694500L,-0.0278804286024708952241511064189974L,0.00673550059453815551539866908570376L,
+0.167191921974188773171133305525296L,0.353953006033743966537619131807998L,0.163036288715636535656734012694500L,-0.0141906949311411429641535704761715L,
+0.177482572254522611843442956460569L,0.313445114741868346798411144814382L,0.352676757516271864626853155865953L,0.0869637112843634643432659873054999L};
 
-initializer_list<double> lb={0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719588,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719589,0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411};
+initializer_list<long double> lb={0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411L,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719588L,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719589L,0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -306,13 +306,13 @@ copy(lb.begin(),lb.end(),b);
 
 template<> inline void icoeffs<5,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0592317212640472718785660101799793,-0.0195703643590760374926432140508841,0.0112544008186429555527162442150907,0.00158811296786599853936524247059342,-0.00559379366081218487681772196447593,
-0.128151005670045283496166848329514,0.119657167624841617010322878708910,-0.0245921146196422003893182516860040,-0.00276899439876960304428263075887960,0.0103182806706833574089539450563558,
-0.113776288004224602528741273815366,0.260004651680641518592405895187574,0.142222222222222222222222222222222,0.00468715452386994122839074654459310,-0.0206903164309582845717601377697549,
-0.116875329560228545217766777889365,0.244908128910495418897463479382295,0.273190043625801488891728200229354,0.0592317212640472718785660101799793,0.258884699608759271513288971468703,
-0.121232436926864146801414651118838,0.228996054578999876611691812361463,0.309036559064086644833762696130448,-0.00968756314195073973903482796955514,0.119657167624841617010322878708910};
+initializer_list<long double> la={0.0592317212640472718785660101799793L,-0.0195703643590760374926432140508841L,0.0112544008186429555527162442150907L,0.00158811296786599853936524247059342L,-0.00559379366081218487681772196447593L,
+0.128151005670045283496166848329514L,0.119657167624841617010322878708910L,-0.0245921146196422003893182516860040L,-0.00276899439876960304428263075887960L,0.0103182806706833574089539450563558L,
+0.113776288004224602528741273815366L,0.260004651680641518592405895187574L,0.142222222222222222222222222222222L,0.00468715452386994122839074654459310L,-0.0206903164309582845717601377697549L,
+0.116875329560228545217766777889365L,0.244908128910495418897463479382295L,0.273190043625801488891728200229354L,0.0592317212640472718785660101799793L,0.258884699608759271513288971468703L,
+0.121232436926864146801414651118838L,0.228996054578999876611691812361463L,0.309036559064086644833762696130448L,-0.00968756314195073973903482796955514L,0.119657167624841617010322878708910L};
 
-initializer_list<double> lb={0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290784,0.2844444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444446,0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290788};
+initializer_list<long double> lb={0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989L,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290784L,0.2844444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444446L,0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989L,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290788L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -320,14 +320,14 @@ copy(lb.begin(),lb.end(),b);
 
 template<> inline void icoeffs<6,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0428311230947925862600740355431832,-0.0147637259971974124753725910605207,0.00932505070647775119143888450800315,-0.00566885804948351190092125641621651,0.00285443331509933513092928583011602,-0.000812780171264762112299135651562540,
-0.0926734914303788631865122917633203,0.0901903932620346518924583784594290,-0.0203001022932395859524940805242725,0.0103631562402464237307199458065600,-0.00488719292803767146341420376578964,0.00135556105548506177551787075080011,
-0.0822479226128438738077716511411289,0.196032162333245006055759781563801,0.116978483643172761847467585997388,-0.0204825277456560976298590118654006,0.00798999189966233579720442148030827,-0.00207562578486633419359528915758165,
-0.0877378719744515067137433602439481,0.172390794624406967987712335438550,0.254439495032001621324794183860176,0.116978483643172761847467585997388,-0.0156513758091757022708430246449433,0.00341432357674129871237641994523753,
-0.0843066851341001107446302003355663,0.185267979452106975248330960684648,0.223593811046099099964215226188216,0.254257069579585109647429252519048,0.0901903932620346518924583784594290,-0.00701124524079369066636422067695387,
-0.0864750263608499346324472067379290,0.177526353208969968653987471088742,0.239625825335829035595856428410992,0.224631916579867772503496287486772,0.195144512521266716260289347979379,0.0428311230947925862600740355431832};
+initializer_list<long double> la={0.0428311230947925862600740355431832L,-0.0147637259971974124753725910605207L,0.00932505070647775119143888450800315L,-0.00566885804948351190092125641621651L,0.00285443331509933513092928583011602L,-0.000812780171264762112299135651562540L,
+0.0926734914303788631865122917633203L,0.0901903932620346518924583784594290L,-0.0203001022932395859524940805242725L,0.0103631562402464237307199458065600L,-0.00488719292803767146341420376578964L,0.00135556105548506177551787075080011L,
+0.0822479226128438738077716511411289L,0.196032162333245006055759781563801L,0.116978483643172761847467585997388L,-0.0204825277456560976298590118654006L,0.00798999189966233579720442148030827L,-0.00207562578486633419359528915758165L,
+0.0877378719744515067137433602439481L,0.172390794624406967987712335438550L,0.254439495032001621324794183860176L,0.116978483643172761847467585997388L,-0.0156513758091757022708430246449433L,0.00341432357674129871237641994523753L,
+0.0843066851341001107446302003355663L,0.185267979452106975248330960684648L,0.223593811046099099964215226188216L,0.254257069579585109647429252519048L,0.0901903932620346518924583784594290L,-0.00701124524079369066636422067695387L,
+0.0864750263608499346324472067379290L,0.177526353208969968653987471088742L,0.239625825335829035595856428410992L,0.224631916579867772503496287486772L,0.195144512521266716260289347979379L,0.0428311230947925862600740355431832L};
 
-initializer_list<double> lb={0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461046,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213883,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939998,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939993,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213892,0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461044};
+initializer_list<long double> lb={0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461046L,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213883L,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939998L,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939993L,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213892L,0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461044L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -335,15 +335,15 @@ copy(lb.begin(),lb.end(),b);
 
 template<> inline void icoeffs<7,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0323712415422174233176528581697705,-0.0114510172831838702881645824731459,0.00763320387242354492584664422163565,-0.00513373356322534498195629758233913,0.00317505877368563763683431730199470,-0.00160681903704610585560610128347643,0.000458109523749452982298319621634935,
-0.0700435413787260762729814536065897,0.0699263478723191669753669428559449,-0.0165900065788477711644699061373328,0.00934962278344333207631107766792938,-0.00539709193189613785462120177242070,0.00264584386673003737983031295579446,-0.000743850190171923617331065816899149,
-0.0621539357873498645358789291293530,0.152005522057830992561321708847833,0.0954575126262797362375924438722438,-0.0183752442154518373892046007271753,0.00871256259847518198378369475574952,-0.00395358015881043812088052856667313,0.00107671561562791673820514665018881,
-0.0663329286176847005521322620413143,0.133595769223882288417924053929659,0.207701880765970782089300497781520,0.104489795918367346938775510204082,-0.0167868555134113096141156100370328,0.00625692652075604553280983178223092,-0.00159044553324985391682654570177327,
-0.0636657674688069298971005696893522,0.143806275903448772071614414278563,0.182202462654084290491401192988738,0.227354836052186531266755621135339,0.0954575126262797362375924438722438,-0.0121528263131926586105878231359428,0.00258854729708498209942678721018804,
-0.0654863332746067702526367821564402,0.137206851877908296570903572756095,0.196312117184455610329806089516908,0.199629969053291361801239942740234,0.207505031831407243639654793881820,0.0699263478723191669753669428559449,-0.00530105829429122963767573726704867,
-0.0642843735606853936530073967179061,0.141459514781684439806339986995366,0.187739966478873834838350570442493,0.214113325399960038859507317990502,0.183281821380135927549338243522852,0.151303713027822204238898468185036,0.0323712415422174233176528581697705};
+initializer_list<long double> la={0.0323712415422174233176528581697705L,-0.0114510172831838702881645824731459L,0.00763320387242354492584664422163565L,-0.00513373356322534498195629758233913L,0.00317505877368563763683431730199470L,-0.00160681903704610585560610128347643L,0.000458109523749452982298319621634935L,
+0.0700435413787260762729814536065897L,0.0699263478723191669753669428559449L,-0.0165900065788477711644699061373328L,0.00934962278344333207631107766792938L,-0.00539709193189613785462120177242070L,0.00264584386673003737983031295579446L,-0.000743850190171923617331065816899149L,
+0.0621539357873498645358789291293530L,0.152005522057830992561321708847833L,0.0954575126262797362375924438722438L,-0.0183752442154518373892046007271753L,0.00871256259847518198378369475574952L,-0.00395358015881043812088052856667313L,0.00107671561562791673820514665018881L,
+0.0663329286176847005521322620413143L,0.133595769223882288417924053929659L,0.207701880765970782089300497781520L,0.104489795918367346938775510204082L,-0.0167868555134113096141156100370328L,0.00625692652075604553280983178223092L,-0.00159044553324985391682654570177327L,
+0.0636657674688069298971005696893522L,0.143806275903448772071614414278563L,0.182202462654084290491401192988738L,0.227354836052186531266755621135339L,0.0954575126262797362375924438722438L,-0.0121528263131926586105878231359428L,0.00258854729708498209942678721018804L,
+0.0654863332746067702526367821564402L,0.137206851877908296570903572756095L,0.196312117184455610329806089516908L,0.199629969053291361801239942740234L,0.207505031831407243639654793881820L,0.0699263478723191669753669428559449L,-0.00530105829429122963767573726704867L,
+0.0642843735606853936530073967179061L,0.141459514781684439806339986995366L,0.187739966478873834838350570442493L,0.214113325399960038859507317990502L,0.183281821380135927549338243522852L,0.151303713027822204238898468185036L,0.0323712415422174233176528581697705L};
 
-initializer_list<double> lb={0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590650,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132896,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048930,0.2089795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918361,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048914,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132877,0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590471};
+initializer_list<long double> lb={0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590650L,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132896L,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048930L,0.2089795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918361L,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048914L,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132877L,0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590471L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -351,16 +351,16 @@ copy(lb.begin(),lb.end(),b);
 
 template<> inline void icoeffs<8,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0253071340725940647881328385774905,-0.00910594330597007502136365210466435,0.00628083114703047398060942073780760,-0.00448301561305475144191331423530155,0.00307849136832677988985383064911711,-0.00191767525463695234092563511949444,0.000972757664059263526724523824088790,-0.000277508327116919222898446613780209,
-0.0547593217675543202831907973850023,0.0555952586133436176360889986065602,-0.0136397962357816692530306620699761,0.00814970885836055053604042748372916,-0.00521535208914715338024336977463765,0.00313975298546366894234500690115627,-0.00156493491094894237579511140443043,0.000442802304342237815626944634681052,
-0.0485875359989128809431601473474389,0.120859524997173167441653743003485,0.0784266614694718218344905504966503,-0.0159751033618784314756701138556965,0.00837173272022616378691032206439061,-0.00464346586210447979012617007024473,0.00222571477528489971831530140789318,-0.000618805695250515367603304988539769,
-0.0518655209705812345653120779649669,0.106193490148348406878869450082582,0.170671134274553621284710784603994,0.0906709458445904957412876123192989,-0.0160210413210250131687052177938008,0.00724120656122226986180306301493881,-0.00319781431036077032248274309542093,0.000859236584264852689466901723348634,
-0.0497550315609232768867987754316325,0.114388331537048005594660740308541,0.149612116377721373807178037978362,0.197362933010206004651280442432399,0.0906709458445904957412876123192989,-0.0138178113356099776157296836106934,0.00499702707833882839330854713053803,-0.00125125282539310498904640080998583,
-0.0512330738404386449438689821435209,0.108964802451402335553862695805227,0.161496788801048123459107271063545,0.172970158968954827695664902574207,0.197316995051059422958245338494294,0.0784266614694718218344905504966503,-0.00966900777048593216947574579036441,0.00202673214627524863310552980754224,
-0.0501714658408458917606387325203000,0.112755452137636177647973108617551,0.153713569953479974726636094092144,0.186557243778328144862818594413235,0.173192182830820440946534797154869,0.170493119174725312922011763063277,0.0555952586133436176360889986065602,-0.00414505362236619070692512023002115,
-0.0508917764723050487991641237687613,0.110217759562627971745453473389032,0.158770998193580596009906736112795,0.178263400320854211592721393989481,0.185824907302235742924488538873899,0.150572491791913169688371680255493,0.120296460532657310293541649317785,0.0253071340725940647881328385774905};
+initializer_list<long double> la={0.0253071340725940647881328385774905L,-0.00910594330597007502136365210466435L,0.00628083114703047398060942073780760L,-0.00448301561305475144191331423530155L,0.00307849136832677988985383064911711L,-0.00191767525463695234092563511949444L,0.000972757664059263526724523824088790L,-0.000277508327116919222898446613780209L,
+0.0547593217675543202831907973850023L,0.0555952586133436176360889986065602L,-0.0136397962357816692530306620699761L,0.00814970885836055053604042748372916L,-0.00521535208914715338024336977463765L,0.00313975298546366894234500690115627L,-0.00156493491094894237579511140443043L,0.000442802304342237815626944634681052L,
+0.0485875359989128809431601473474389L,0.120859524997173167441653743003485L,0.0784266614694718218344905504966503L,-0.0159751033618784314756701138556965L,0.00837173272022616378691032206439061L,-0.00464346586210447979012617007024473L,0.00222571477528489971831530140789318L,-0.000618805695250515367603304988539769L,
+0.0518655209705812345653120779649669L,0.106193490148348406878869450082582L,0.170671134274553621284710784603994L,0.0906709458445904957412876123192989L,-0.0160210413210250131687052177938008L,0.00724120656122226986180306301493881L,-0.00319781431036077032248274309542093L,0.000859236584264852689466901723348634L,
+0.0497550315609232768867987754316325L,0.114388331537048005594660740308541L,0.149612116377721373807178037978362L,0.197362933010206004651280442432399L,0.0906709458445904957412876123192989L,-0.0138178113356099776157296836106934L,0.00499702707833882839330854713053803L,-0.00125125282539310498904640080998583L,
+0.0512330738404386449438689821435209L,0.108964802451402335553862695805227L,0.161496788801048123459107271063545L,0.172970158968954827695664902574207L,0.197316995051059422958245338494294L,0.0784266614694718218344905504966503L,-0.00966900777048593216947574579036441L,0.00202673214627524863310552980754224L,
+0.0501714658408458917606387325203000L,0.112755452137636177647973108617551L,0.153713569953479974726636094092144L,0.186557243778328144862818594413235L,0.173192182830820440946534797154869L,0.170493119174725312922011763063277L,0.0555952586133436176360889986065602L,-0.00414505362236619070692512023002115L,
+0.0508917764723050487991641237687613L,0.110217759562627971745453473389032L,0.158770998193580596009906736112795L,0.178263400320854211592721393989481L,0.185824907302235742924488538873899L,0.150572491791913169688371680255493L,0.120296460532657310293541649317785L,0.0253071340725940647881328385774905L};
 
-initializer_list<double> lb={0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923686,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244513,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271998,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781091084,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781090983,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271946,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244531,0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923785};
+initializer_list<long double> lb={0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923686L,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244513L,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271998L,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781091084L,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781090983L,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271946L,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244531L,0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923785L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -368,17 +368,17 @@ copy(lb.begin(),lb.end(),b);
 
 template<> inline void icoeffs<9,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0203185970903936029929730395276309,-0.00739786856614878686542489503086324,0.00522200359210005389185584360564744,-0.00387345129174498055049537887338993,0.00283136945006983986354937012363709,0.00122660978881256074839466284462653,-0.000622964091648914481159571486571450,0.000177778462744798652780015293222430,-0.00196219418839121917026118745577622,
-0.0439655272265284041585412645645087,0.0451620401737143510146180078107282,-0.0113354640123350470465925464814319,0.00703476680173468143903695814226945,-0.00478827613101664029445945068615472,-0.00196440573995350861710011819853350,0.000987172103665947150853208009195396,-0.000280274237640940717284308546381075,0.00320336015198485576267209135093205,
-0.0390086533962843337053406260551850,0.0981815119598481585602972012795661,0.0651526741007338655796857173546582,-0.0137708339866085721988706377249966,0.00766417562464213864225207092504704,0.00277082889275901981606719881443306,-0.00136167198307300388077294236226989,0.000382532112918055676721205511905614,-0.00471358646779919455507145952426565,
-0.0416450870273228085684590957995216,0.0862554727725037766071341170647431,0.141795216041145464700711349265044,0.0780867692600007100171576016461109,-0.0146189578759125574286313738589815,-0.00393283991503873128187398305621736,0.00185268620082252394849783525333888,-0.000510573474928686025187960892672731,0.00730042826218022637446431145744470,
-0.0399403728698347433203974299378427,0.0929433722727170869747695620130788,0.124257110410775669930284959188188,0.170000445255253483576298037267459,0.0825598387503149407911312673217435,0.00604823779069206122908647552112829,-0.00261929192528838494553354639162238,0.000696821310952462665548649117419158,-0.0138269067352520635419828339752373,
-0.0402546620678691503092248735433562,0.0916857523305017059100089579837263,0.127534519308708711343304235894883,0.160887124987800614589386662816487,0.157455501875987742940010463718440,0.0651526741007338655796857173546582,-0.00785743161241945653106118565810966,0.00162854078450287228060545300007680,0.169944372506609992233185841017218,
-0.0409174684184281467032303876016429,0.0893369082437627548783828076122610,0.132269753941421239776471552907850,0.152970178368016564271643111941290,0.169907953631646521876721985329642,0.141640812213802778205963981190748,0.0451620401737143510146180078107282,-0.00332833304574119817259518550924687,0.149138771718266738595278245149952,
-0.0404594157180424073331660637620394,0.0909470444390776165103955871080279,0.129078738412655170410976771864690,0.158135732708392639204576390747998,0.162288308050560041718713164519850,0.125083344609367677267515591103669,0.0977219489135774888946609106523197,0.0203185970903936029929730395276309,0.160046989811746400584810582165612,
-0.0411477676557158920111340399479346,0.0884713941466061780807381803681175,0.134238188116506462441245417765534,0.148873110257821193659850891834777,0.179738635376542439010893908502469,-0.0114898678396777335413399145557277,0.00406860757492492542210189855671329,-0.00100789284653560258251301674425978,0.0780867692600007100171576016461109};
-
-initializer_list<double> lb={0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958263,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353767,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188599,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754460237,0.1651196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441912,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188832,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353150,0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958472,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754459123};
+initializer_list<long double> la={0.0203185970903936029929730395276309L,-0.00739786856614878686542489503086324L,0.00522200359210005389185584360564744L,-0.00387345129174498055049537887338993L,0.00283136945006983986354937012363709L,0.00122660978881256074839466284462653L,-0.000622964091648914481159571486571450L,0.000177778462744798652780015293222430L,-0.00196219418839121917026118745577622L,
+0.0439655272265284041585412645645087L,0.0451620401737143510146180078107282L,-0.0113354640123350470465925464814319L,0.00703476680173468143903695814226945L,-0.00478827613101664029445945068615472L,-0.00196440573995350861710011819853350L,0.000987172103665947150853208009195396L,-0.000280274237640940717284308546381075L,0.00320336015198485576267209135093205L,
+0.0390086533962843337053406260551850L,0.0981815119598481585602972012795661L,0.0651526741007338655796857173546582L,-0.0137708339866085721988706377249966L,0.00766417562464213864225207092504704L,0.00277082889275901981606719881443306L,-0.00136167198307300388077294236226989L,0.000382532112918055676721205511905614L,-0.00471358646779919455507145952426565L,
+0.0416450870273228085684590957995216L,0.0862554727725037766071341170647431L,0.141795216041145464700711349265044L,0.0780867692600007100171576016461109L,-0.0146189578759125574286313738589815L,-0.00393283991503873128187398305621736L,0.00185268620082252394849783525333888L,-0.000510573474928686025187960892672731L,0.00730042826218022637446431145744470L,
+0.0399403728698347433203974299378427L,0.0929433722727170869747695620130788L,0.124257110410775669930284959188188L,0.170000445255253483576298037267459L,0.0825598387503149407911312673217435L,0.00604823779069206122908647552112829L,-0.00261929192528838494553354639162238L,0.000696821310952462665548649117419158L,-0.0138269067352520635419828339752373L,
+0.0402546620678691503092248735433562L,0.0916857523305017059100089579837263L,0.127534519308708711343304235894883L,0.160887124987800614589386662816487L,0.157455501875987742940010463718440L,0.0651526741007338655796857173546582L,-0.00785743161241945653106118565810966L,0.00162854078450287228060545300007680L,0.169944372506609992233185841017218L,
+0.0409174684184281467032303876016429L,0.0893369082437627548783828076122610L,0.132269753941421239776471552907850L,0.152970178368016564271643111941290L,0.169907953631646521876721985329642L,0.141640812213802778205963981190748L,0.0451620401737143510146180078107282L,-0.00332833304574119817259518550924687L,0.149138771718266738595278245149952L,
+0.0404594157180424073331660637620394L,0.0909470444390776165103955871080279L,0.129078738412655170410976771864690L,0.158135732708392639204576390747998L,0.162288308050560041718713164519850L,0.125083344609367677267515591103669L,0.0977219489135774888946609106523197L,0.0203185970903936029929730395276309L,0.160046989811746400584810582165612L,
+0.0411477676557158920111340399479346L,0.0884713941466061780807381803681175L,0.134238188116506462441245417765534L,0.148873110257821193659850891834777L,0.179738635376542439010893908502469L,-0.0114898678396777335413399145557277L,0.00406860757492492542210189855671329L,-0.00100789284653560258251301674425978L,0.0780867692600007100171576016461109L};
+
+initializer_list<long double> lb={0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958263L,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353767L,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188599L,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754460237L,0.1651196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441912L,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188832L,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353150L,0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958472L,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754459123L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -386,18 +386,18 @@ copy(lb.begin(),lb.end(),b);
 
 template<> inline void icoeffs<10,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0166678360771720343983922024733329,-0.00612068029233502987025308987906619,0.00439200373028852221698614553887794,-0.00334535050882549470870888176133072,0.00254756897027876354904962225738170,-0.00188262038693525661085207791056827,0.00131081462770308391842832788419797,-0.000820986353138291127367521983463229,0.000417243835667835720457601113273652,-0.000119093958462027525114333774861831,
-0.0360661525781943304506967868615967,0.0373628372876451482864440849144243,-0.00953137359188965945260757183913681,0.00607228446174392218489428998019616,-0.00430404581295939200907563270911149,0.00306851861086753558695384716440183,-0.00209411395745032284831574789258204,0.00129624965549819963331444499418201,-0.000654328115142468560893715735581344,0.000186135539000451362540870049864093,
-0.0319991179775146101939898453822534,0.0812275701118607728515460679181319,0.0547715906289955109988837335570408,-0.0118776128915294264824282010922476,0.00687814639770714478385800606631069,-0.00450274329686185241607146970564758,0.00294087333141394952634963014459878,-0.00177613374657410074450312651393922,0.000884246091931209019529692891224078,-0.000249838753970020848317861205161996,
-0.0341639921791087090319388879631186,0.0713553690746355578848296638813347,0.119207290548758140477788951389364,0.0673166798274990887728067303923673,-0.0130965195471968997587876242976924,0.00694886598383539031062731500230080,-0.00414845352723169508779133417255612,0.00239281424177035654040595767259466,-0.00116229795133242643161918981684538,0.000324562105530182860167670403121262,
-0.0327609312912844373135061555894162,0.0769022997036484359436613608768349,0.104444079563094207185198585546974,0.146566245550415954620379616976850,0.0738810561786882175434732486628346,-0.0131122091695853752390419769315554,0.00633145505482068380026709671442490,-0.00333810079767527560194800163458398,0.00155179916885143634252135178552101,-0.000424726034358327350430438151576489,
-0.0337603981887023961472148430982424,0.0731738754064388602303668180433277,0.112881282055666297599715468748666,0.128301904600177493745346364070310,0.160874321526961810325988474257225,0.0738810561786882175434732486628346,-0.0119328858954177770747661561921157,0.00509910169489681481256888156710769,-0.00217662512835813937077319104798624,0.000574740863059631483278249357249694,
-0.0330111100488138859366167345435446,0.0758879725266227230045073596456940,0.107150367016220665457361509441487,0.138781813182229872633404794957291,0.140813246373541044776319182323368,0.160858631904573334845734121623362,0.0673166798274990887728067303923673,-0.00966410929076711848002148427528283,0.00337030550065473868805850594751399,-0.000828320024764640235154483016452740,
-0.0335855109083140896451022661518279,0.0738414284833590875533584769376246,0.111319315004565122742270593628021,0.131692486323584228019263830640136,0.152264855654238287503017967031317,0.140883965959669290303088491259358,0.146510972546527604028041661876982,0.0547715906289955109988837335570408,-0.00650189553657047627865789808928320,0.00133655417682945860279455956441249,
-0.0331495366153436174342435348968018,0.0753800026904327651337818855644300,0.108246931602492822364453022119900,0.136727473612448500393929208677317,0.144693593746508899499992650161267,0.152066158170335827096022130034781,0.128561075193254255360719170804539,0.119074554849880681450375038953218,0.0373628372876451482864440849144243,-0.00273048042385026165391238191493083,
-0.0334547661128060963218987387215277,0.0743084307396224608524305687155750,0.110364167611129313125134989097545,0.133322545027295093627185132900537,0.149644732744311691697798575236237,0.145214543387097671537896875068287,0.137978710163823672254322342546065,0.105151177527702499780781321575204,0.0808463548676253264431412597079149,0.0166678360771720343983922024733329};
-
-initializer_list<double> lb={0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689192214,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213795469,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104743126,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104384169,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500566581,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500571159,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104387458,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104745261,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213757273,0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689198219};
+initializer_list<long double> la={0.0166678360771720343983922024733329L,-0.00612068029233502987025308987906619L,0.00439200373028852221698614553887794L,-0.00334535050882549470870888176133072L,0.00254756897027876354904962225738170L,-0.00188262038693525661085207791056827L,0.00131081462770308391842832788419797L,-0.000820986353138291127367521983463229L,0.000417243835667835720457601113273652L,-0.000119093958462027525114333774861831L,
+0.0360661525781943304506967868615967L,0.0373628372876451482864440849144243L,-0.00953137359188965945260757183913681L,0.00607228446174392218489428998019616L,-0.00430404581295939200907563270911149L,0.00306851861086753558695384716440183L,-0.00209411395745032284831574789258204L,0.00129624965549819963331444499418201L,-0.000654328115142468560893715735581344L,0.000186135539000451362540870049864093L,
+0.0319991179775146101939898453822534L,0.0812275701118607728515460679181319L,0.0547715906289955109988837335570408L,-0.0118776128915294264824282010922476L,0.00687814639770714478385800606631069L,-0.00450274329686185241607146970564758L,0.00294087333141394952634963014459878L,-0.00177613374657410074450312651393922L,0.000884246091931209019529692891224078L,-0.000249838753970020848317861205161996L,
+0.0341639921791087090319388879631186L,0.0713553690746355578848296638813347L,0.119207290548758140477788951389364L,0.0673166798274990887728067303923673L,-0.0130965195471968997587876242976924L,0.00694886598383539031062731500230080L,-0.00414845352723169508779133417255612L,0.00239281424177035654040595767259466L,-0.00116229795133242643161918981684538L,0.000324562105530182860167670403121262L,
+0.0327609312912844373135061555894162L,0.0769022997036484359436613608768349L,0.104444079563094207185198585546974L,0.146566245550415954620379616976850L,0.0738810561786882175434732486628346L,-0.0131122091695853752390419769315554L,0.00633145505482068380026709671442490L,-0.00333810079767527560194800163458398L,0.00155179916885143634252135178552101L,-0.000424726034358327350430438151576489L,
+0.0337603981887023961472148430982424L,0.0731738754064388602303668180433277L,0.112881282055666297599715468748666L,0.128301904600177493745346364070310L,0.160874321526961810325988474257225L,0.0738810561786882175434732486628346L,-0.0119328858954177770747661561921157L,0.00509910169489681481256888156710769L,-0.00217662512835813937077319104798624L,0.000574740863059631483278249357249694L,
+0.0330111100488138859366167345435446L,0.0758879725266227230045073596456940L,0.107150367016220665457361509441487L,0.138781813182229872633404794957291L,0.140813246373541044776319182323368L,0.160858631904573334845734121623362L,0.0673166798274990887728067303923673L,-0.00966410929076711848002148427528283L,0.00337030550065473868805850594751399L,-0.000828320024764640235154483016452740L,
+0.0335855109083140896451022661518279L,0.0738414284833590875533584769376246L,0.111319315004565122742270593628021L,0.131692486323584228019263830640136L,0.152264855654238287503017967031317L,0.140883965959669290303088491259358L,0.146510972546527604028041661876982L,0.0547715906289955109988837335570408L,-0.00650189553657047627865789808928320L,0.00133655417682945860279455956441249L,
+0.0331495366153436174342435348968018L,0.0753800026904327651337818855644300L,0.108246931602492822364453022119900L,0.136727473612448500393929208677317L,0.144693593746508899499992650161267L,0.152066158170335827096022130034781L,0.128561075193254255360719170804539L,0.119074554849880681450375038953218L,0.0373628372876451482864440849144243L,-0.00273048042385026165391238191493083L,
+0.0334547661128060963218987387215277L,0.0743084307396224608524305687155750L,0.110364167611129313125134989097545L,0.133322545027295093627185132900537L,0.149644732744311691697798575236237L,0.145214543387097671537896875068287L,0.137978710163823672254322342546065L,0.105151177527702499780781321575204L,0.0808463548676253264431412597079149L,0.0166678360771720343983922024733329L};
+
+initializer_list<long double> lb={0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689192214L,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213795469L,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104743126L,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104384169L,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500566581L,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500571159L,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104387458L,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104745261L,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213757273L,0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689198219L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -405,19 +405,19 @@ copy(lb.begin(),lb.end(),b);
 
 template<> inline void icoeffs<11,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0139171417790434166206884301106371,-0.00514325562983490553945482672729184,0.00373560374914085018725131470439065,-0.00290037905138315003781828070850379,0.00227274215264998537669600797675868,-0.00175240116264082742702346957094253,0.00130248911731822927183376576527350,-0.000909279657711640651057229985874300,0.000570136062283444316355989598062838,-0.000289875324978482038437992853765253,0.0000827488930845835189972911298261979,
-0.0301142391948244556850291647703452,0.0313950923662261561586735748059850,-0.00810562697907984411509038761874716,0.00526282127353501507194118571645874,-0.00383743668169242759363413819373032,0.00285354676447749860209788071218239,-0.00207783291714634649529155042045045,0.00143267781287657313277759445234306,-0.000891466711988145401994499020386626,0.000451184930916069171735273863699948,-0.000128498936996653753822983719663434,
-0.0267179838502661811451222492270490,0.0682542809171542158094247997671962,0.0465725527319335628565244103579140,-0.0102895248152872145428450144855953,0.00612667324766953732872518254748621,-0.00418053753704864073577283170383163,0.00291066795410457775012630543616084,-0.00195573987509097941918238015793114,0.00119821656507352216046396088240308,-0.000600947942995045366467377875974433,0.000170372117195620967172569989546359,
-0.0285266689062404033539906138636098,0.0599560307356048885110634313934399,0.101365041153570591950231026008482,0.0582984411479976199796309262107938,-0.0116536925866713892045122531529432,0.00643838129780483330857548404618236,-0.00409164865278154504328097688232838,0.00262061890572086323919627935494752,-0.00156237108006700551652476566069921,0.000771530960015176748020373869400951,-0.000217065390840345289252973780190160,
-0.0273528599993796140716452683309802,0.0646238924302517439343240111126972,0.0888021849343891269062705363844844,0.126937527092484729329395593358849,0.0657011361275616655451722174726273,-0.0121240615804220011533673101424194,0.00621926257425001908979939369156868,-0.00363063338386324112523093675663918,0.00206324037554684363328318467300617,-0.000992886275645834511167361281996532,0.000275899729894848114109410456411519,
-0.0281917210618671959125369757792893,0.0614771890632044979378652513022305,0.0959986109028957617417890032486379,0.111095774316370167736965659831943,0.143076752307042779412913905065101,0.0682312716944751576786208820840855,-0.0116744800519194483225694701198462,0.00550110797962507222229619258964432,-0.00285350543902863602874018253281001,0.00131299566924781437948189830973959,-0.000357437503780362671160115558014999,
-0.0275583838281919851272674497648628,0.0637830710080981468285145108939666,0.0910818650883202820797656360428218,0.120227515679858481084492789178227,0.125183009680873312000545041253686,0.148586604969372316510609074310591,0.0657011361275616655451722174726273,-0.0103406447964894893701337409372614,0.00434292052947799880677828433134351,-0.00183370769779943161697686150072715,0.000481423558707219169731591890294133,
-0.0280513489489271785306298340014644,0.0620186537724371355693267757425691,0.0947074765439341312295735863765272,0.113976263390274376720065573066640,0.135493920907904876133625411827583,0.130024162091145482048666280121989,0.143055964841794720294856688098198,0.0582984411479976199796309262107938,-0.00821993568970346623718220529265396,0.00283415399684742380628371821853018,-0.000692385348153570112613753642335545,
-0.0276639114408912122742042902317279,0.0633911326754473576838145274879445,0.0919468888987936035525848598334249,0.118552622171086219378444232579519,0.128491604301018753340218129509094,0.140643080925998956093014595872003,0.125275599007453793761619252397768,0.126886407111282454502106866907183,0.0465725527319335628565244103579140,-0.00546409618470190349207765015522619,0.00111629970782065209625461099422524,
-0.0279627824950834869951998439409377,0.0623389998015362431456118757482701,0.0940365721758552711150433197362146,0.115164204483118666826484257969245,0.133480105172269677585635985365705,0.133608996624472816755143883455989,0.135239708936815758683978573138985,0.111334061022460224887320666705129,0.101250732442946969828139208334575,0.0313950923662261561586735748059850,-0.00227995563673762244365230454907090,
-0.0277515346650022497223795690914481,0.0630800600574307943557851424657353,0.0925749694015836813966928311177651,0.117506161953706880610319082407462,0.130099783137805101818510669179981,0.138214944551591142784265233739114,0.129129530102473345713648426968496,0.119497261347378389997080133130091,0.0894095017147262755257975060114373,0.0679334403622872178568019763392619,0.0139171417790434166206884301106371};
-
-initializer_list<double> lb={0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838649929,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402346001,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914408754,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325724799,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276299487,0.1364625433889503153572417641681710945780209849473918737988002057266126530195794265058334322403586472850542114611378680642749906819170888434957699026963096227165491234755304019373283442547511811581075650339719603788867858131927395996660065924135188204452273716342980412244481508550772620036689300758564834854,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276297309,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325736902,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914500390,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402413194,0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838632041};
+initializer_list<long double> la={0.0139171417790434166206884301106371L,-0.00514325562983490553945482672729184L,0.00373560374914085018725131470439065L,-0.00290037905138315003781828070850379L,0.00227274215264998537669600797675868L,-0.00175240116264082742702346957094253L,0.00130248911731822927183376576527350L,-0.000909279657711640651057229985874300L,0.000570136062283444316355989598062838L,-0.000289875324978482038437992853765253L,0.0000827488930845835189972911298261979L,
+0.0301142391948244556850291647703452L,0.0313950923662261561586735748059850L,-0.00810562697907984411509038761874716L,0.00526282127353501507194118571645874L,-0.00383743668169242759363413819373032L,0.00285354676447749860209788071218239L,-0.00207783291714634649529155042045045L,0.00143267781287657313277759445234306L,-0.000891466711988145401994499020386626L,0.000451184930916069171735273863699948L,-0.000128498936996653753822983719663434L,
+0.0267179838502661811451222492270490L,0.0682542809171542158094247997671962L,0.0465725527319335628565244103579140L,-0.0102895248152872145428450144855953L,0.00612667324766953732872518254748621L,-0.00418053753704864073577283170383163L,0.00291066795410457775012630543616084L,-0.00195573987509097941918238015793114L,0.00119821656507352216046396088240308L,-0.000600947942995045366467377875974433L,0.000170372117195620967172569989546359L,
+0.0285266689062404033539906138636098L,0.0599560307356048885110634313934399L,0.101365041153570591950231026008482L,0.0582984411479976199796309262107938L,-0.0116536925866713892045122531529432L,0.00643838129780483330857548404618236L,-0.00409164865278154504328097688232838L,0.00262061890572086323919627935494752L,-0.00156237108006700551652476566069921L,0.000771530960015176748020373869400951L,-0.000217065390840345289252973780190160L,
+0.0273528599993796140716452683309802L,0.0646238924302517439343240111126972L,0.0888021849343891269062705363844844L,0.126937527092484729329395593358849L,0.0657011361275616655451722174726273L,-0.0121240615804220011533673101424194L,0.00621926257425001908979939369156868L,-0.00363063338386324112523093675663918L,0.00206324037554684363328318467300617L,-0.000992886275645834511167361281996532L,0.000275899729894848114109410456411519L,
+0.0281917210618671959125369757792893L,0.0614771890632044979378652513022305L,0.0959986109028957617417890032486379L,0.111095774316370167736965659831943L,0.143076752307042779412913905065101L,0.0682312716944751576786208820840855L,-0.0116744800519194483225694701198462L,0.00550110797962507222229619258964432L,-0.00285350543902863602874018253281001L,0.00131299566924781437948189830973959L,-0.000357437503780362671160115558014999L,
+0.0275583838281919851272674497648628L,0.0637830710080981468285145108939666L,0.0910818650883202820797656360428218L,0.120227515679858481084492789178227L,0.125183009680873312000545041253686L,0.148586604969372316510609074310591L,0.0657011361275616655451722174726273L,-0.0103406447964894893701337409372614L,0.00434292052947799880677828433134351L,-0.00183370769779943161697686150072715L,0.000481423558707219169731591890294133L,
+0.0280513489489271785306298340014644L,0.0620186537724371355693267757425691L,0.0947074765439341312295735863765272L,0.113976263390274376720065573066640L,0.135493920907904876133625411827583L,0.130024162091145482048666280121989L,0.143055964841794720294856688098198L,0.0582984411479976199796309262107938L,-0.00821993568970346623718220529265396L,0.00283415399684742380628371821853018L,-0.000692385348153570112613753642335545L,
+0.0276639114408912122742042902317279L,0.0633911326754473576838145274879445L,0.0919468888987936035525848598334249L,0.118552622171086219378444232579519L,0.128491604301018753340218129509094L,0.140643080925998956093014595872003L,0.125275599007453793761619252397768L,0.126886407111282454502106866907183L,0.0465725527319335628565244103579140L,-0.00546409618470190349207765015522619L,0.00111629970782065209625461099422524L,
+0.0279627824950834869951998439409377L,0.0623389998015362431456118757482701L,0.0940365721758552711150433197362146L,0.115164204483118666826484257969245L,0.133480105172269677585635985365705L,0.133608996624472816755143883455989L,0.135239708936815758683978573138985L,0.111334061022460224887320666705129L,0.101250732442946969828139208334575L,0.0313950923662261561586735748059850L,-0.00227995563673762244365230454907090L,
+0.0277515346650022497223795690914481L,0.0630800600574307943557851424657353L,0.0925749694015836813966928311177651L,0.117506161953706880610319082407462L,0.130099783137805101818510669179981L,0.138214944551591142784265233739114L,0.129129530102473345713648426968496L,0.119497261347378389997080133130091L,0.0894095017147262755257975060114373L,0.0679334403622872178568019763392619L,0.0139171417790434166206884301106371L};
+
+initializer_list<long double> lb={0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838649929L,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402346001L,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914408754L,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325724799L,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276299487L,0.1364625433889503153572417641681710945780209849473918737988002057266126530195794265058334322403586472850542114611378680642749906819170888434957699026963096227165491234755304019373283442547511811581075650339719603788867858131927395996660065924135188204452273716342980412244481508550772620036689300758564834854L,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276297309L,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325736902L,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914500390L,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402413194L,0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838632041L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -425,20 +425,20 @@ copy(lb.begin(),lb.end(),b);
 
 template<> inline void icoeffs<12,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0117938340966279567986539903712543,-0.00437990215767931650940188692918276,0.00321056964125654262004469232623711,-0.00252868076291527559325483047108311,0.00202324519894856845571760672436639,0.00124774475192659582311909076184889,-0.000930499836629974148333740147760258,0.000650624788775465133900270947845369,-0.000408237882558168112866492596697974,0.000207615108480287514624040502392411,-0.0000592710487056506905538129963004732,-0.00160735902088665663692347356756028,
-0.0255198232326244639441836509717834,0.0267348314988296077400636795484991,-0.00696570366255593528084233870896311,0.00458737722346434400703031480933751,-0.00341487831325726315216580833366991,-0.00198873604147400184383034336299982,0.00146425936525797332056119445694672,-0.00101552961889071285353932174117125,0.000633880729666708085426064346671315,-0.000321341337251878490974152992793925,0.0000915875660363567404988113849493164,0.00261580117231290944435531656186262,
-0.0226415082464546978695105146203535,0.0581230577546837157157340098137834,0.0400195821358365565836631323858398,-0.00896632804601375189900412174147714,0.00544880489816575571543655014114527,0.00278156916561874812407426225463822,-0.00199435710192794323160270551931218,0.00136062625076553272030386945228062,-0.000840553839984532063258567090571879,0.000423460056141347174662230642939509,-0.000120308349110379280703786321047807,-0.00382839826778209094726230524498038,
-0.0241748261226971991223159086687208,0.0510550484293886763756662871780821,0.0871038538724015915546922006176071,0.0507918566807664804372661139524496,-0.0103577470216968143616942058302073,-0.00390204370620793343508578200225354,0.00266388699069817929130618710749775,-0.00176593366081374114507112195757116,0.00107205559231517493201514834145065,-0.000534534766345622524447744620771830,0.000151074627300977163206610358729114,0.00588867969618710894147918871599956,
-0.0231788873633936492342183449770824,0.0550336735248898118758263652719249,0.0763035605834845887509628990891626,0.110596236160954295848669502387033,0.0583731341345887021902124747312195,0.00591690882965931097780777409955512,-0.00367597498519267301626859146921164,0.00231791162580606885793696566969272,-0.00136729574370243207975475896064002,0.000670629185517022286304630351349835,-0.000188000196714650100120473944846696,-0.0110754199817737917021409005241805,
-0.0233514110134668871562570409586137,0.0543232717216298316487578493835701,0.0782519909929121000782088530511676,0.104765642234753235587278744603025,0.111201133079663467133798800192759,0.0622867614533506962501406090107378,-0.0103795246551256818945668362263593,0.00480193492467387405421263983863473,-0.00245976665588796403560160874505178,0.00112275870416866186970650353585504,-0.000304349193692679899622505931686133,0.135655440635822029787650595060661,
-0.0237756683899705636974284546873552,0.0527990338121421931938227287456483,0.0814064600153755452470810237323196,0.0992658017357268920165952622352065,0.120422243254370077396693540931651,0.135648942888475184202422118545656,0.0583731341345887021902124747312195,-0.00901252279942133497413727448213377,0.00373560368818852441636336568251690,-0.00156401052723059639569900617492683,0.000408780829862264363089635765426139,0.118656614077042081522473443921920,
-0.0234365935659549364341013703837794,0.0540041977640048380045751037177699,0.0789671086793579382353111164302289,0.103349647022346702019603349862470,0.114082381278479225089118762354941,0.118684843210514283558802029305476,0.127104015290874218742119155292646,0.0507918566807664804372661139524496,-0.00706468960072847838736593584592755,0.00241461456827053910446107191891601,-0.000587157929441285525007927926212295,0.128475566612909325935367000023729,
-0.0237079765423662928780117670635563,0.0530462029415178683054651284540586,0.0808797181116576452305848318622514,0.100223087110767428154228358452619,0.118740625371105347612027654981751,0.128401921174483483447543523266456,0.111297463371011648664988399321294,0.110550041407546712773536349646376,0.0400195821358365565836631323858398,-0.00465339475702450023560665071678529,0.000946159946801215727797466122154982,0.121791953741082644376206955766837,
-0.0234960806272195568568091693575592,0.0537910043349110939711015120897920,0.0794052835420064050819002004250082,0.102599242980423673728071549646070,0.115282008903919431059863755005492,0.121957721734388483055925901459613,0.120161146582434667532590757796109,0.0969963361380686168675019130955617,0.0870048679342290484481686034806426,0.0267348314988296077400636795484991,-0.00193215503936855034687567022927485,0.126562258948175394344111561384475,
-0.0236469392419615642878617937388090,0.0532620478891789279655033185946057,0.0804474021542312812801927573683775,0.100933088572757495740631956957054,0.117676768105807378528758689610199,0.126180881927588049137204691589036,0.114723023070228835924707342738073,0.104112394124448236467787058375982,0.0768285946304165705472815724454424,0.0578495651553385319895292460261809,0.0117938340966279567986539903712543,0.123325778154774796677162127259627,
-0.0238920173869485934969304866741947,0.0523469042934905536104208555611431,0.0824989309275610772029278735167313,0.0967817784368590868203195880662645,0.127125792924303086274991785688798,-0.0110819177291206372873693770391854,0.00554513518951393724662614926968001,-0.00318192887322027471274651669812568,0.00178717327876101308911741172051196,-0.000853608723970616168630490286571955,0.000236257179789026441050939783894818,0.0622867614533506962501406090107378};
-
-initializer_list<double> lb={0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952049363,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933437884,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485193300,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511860996273,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579509954,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622278147,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579580542,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511861010094,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485555961,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933242592,0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952155014,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622334800};
+initializer_list<long double> la={0.0117938340966279567986539903712543L,-0.00437990215767931650940188692918276L,0.00321056964125654262004469232623711L,-0.00252868076291527559325483047108311L,0.00202324519894856845571760672436639L,0.00124774475192659582311909076184889L,-0.000930499836629974148333740147760258L,0.000650624788775465133900270947845369L,-0.000408237882558168112866492596697974L,0.000207615108480287514624040502392411L,-0.0000592710487056506905538129963004732L,-0.00160735902088665663692347356756028L,
+0.0255198232326244639441836509717834L,0.0267348314988296077400636795484991L,-0.00696570366255593528084233870896311L,0.00458737722346434400703031480933751L,-0.00341487831325726315216580833366991L,-0.00198873604147400184383034336299982L,0.00146425936525797332056119445694672L,-0.00101552961889071285353932174117125L,0.000633880729666708085426064346671315L,-0.000321341337251878490974152992793925L,0.0000915875660363567404988113849493164L,0.00261580117231290944435531656186262L,
+0.0226415082464546978695105146203535L,0.0581230577546837157157340098137834L,0.0400195821358365565836631323858398L,-0.00896632804601375189900412174147714L,0.00544880489816575571543655014114527L,0.00278156916561874812407426225463822L,-0.00199435710192794323160270551931218L,0.00136062625076553272030386945228062L,-0.000840553839984532063258567090571879L,0.000423460056141347174662230642939509L,-0.000120308349110379280703786321047807L,-0.00382839826778209094726230524498038L,
+0.0241748261226971991223159086687208L,0.0510550484293886763756662871780821L,0.0871038538724015915546922006176071L,0.0507918566807664804372661139524496L,-0.0103577470216968143616942058302073L,-0.00390204370620793343508578200225354L,0.00266388699069817929130618710749775L,-0.00176593366081374114507112195757116L,0.00107205559231517493201514834145065L,-0.000534534766345622524447744620771830L,0.000151074627300977163206610358729114L,0.00588867969618710894147918871599956L,
+0.0231788873633936492342183449770824L,0.0550336735248898118758263652719249L,0.0763035605834845887509628990891626L,0.110596236160954295848669502387033L,0.0583731341345887021902124747312195L,0.00591690882965931097780777409955512L,-0.00367597498519267301626859146921164L,0.00231791162580606885793696566969272L,-0.00136729574370243207975475896064002L,0.000670629185517022286304630351349835L,-0.000188000196714650100120473944846696L,-0.0110754199817737917021409005241805L,
+0.0233514110134668871562570409586137L,0.0543232717216298316487578493835701L,0.0782519909929121000782088530511676L,0.104765642234753235587278744603025L,0.111201133079663467133798800192759L,0.0622867614533506962501406090107378L,-0.0103795246551256818945668362263593L,0.00480193492467387405421263983863473L,-0.00245976665588796403560160874505178L,0.00112275870416866186970650353585504L,-0.000304349193692679899622505931686133L,0.135655440635822029787650595060661L,
+0.0237756683899705636974284546873552L,0.0527990338121421931938227287456483L,0.0814064600153755452470810237323196L,0.0992658017357268920165952622352065L,0.120422243254370077396693540931651L,0.135648942888475184202422118545656L,0.0583731341345887021902124747312195L,-0.00901252279942133497413727448213377L,0.00373560368818852441636336568251690L,-0.00156401052723059639569900617492683L,0.000408780829862264363089635765426139L,0.118656614077042081522473443921920L,
+0.0234365935659549364341013703837794L,0.0540041977640048380045751037177699L,0.0789671086793579382353111164302289L,0.103349647022346702019603349862470L,0.114082381278479225089118762354941L,0.118684843210514283558802029305476L,0.127104015290874218742119155292646L,0.0507918566807664804372661139524496L,-0.00706468960072847838736593584592755L,0.00241461456827053910446107191891601L,-0.000587157929441285525007927926212295L,0.128475566612909325935367000023729L,
+0.0237079765423662928780117670635563L,0.0530462029415178683054651284540586L,0.0808797181116576452305848318622514L,0.100223087110767428154228358452619L,0.118740625371105347612027654981751L,0.128401921174483483447543523266456L,0.111297463371011648664988399321294L,0.110550041407546712773536349646376L,0.0400195821358365565836631323858398L,-0.00465339475702450023560665071678529L,0.000946159946801215727797466122154982L,0.121791953741082644376206955766837L,
+0.0234960806272195568568091693575592L,0.0537910043349110939711015120897920L,0.0794052835420064050819002004250082L,0.102599242980423673728071549646070L,0.115282008903919431059863755005492L,0.121957721734388483055925901459613L,0.120161146582434667532590757796109L,0.0969963361380686168675019130955617L,0.0870048679342290484481686034806426L,0.0267348314988296077400636795484991L,-0.00193215503936855034687567022927485L,0.126562258948175394344111561384475L,
+0.0236469392419615642878617937388090L,0.0532620478891789279655033185946057L,0.0804474021542312812801927573683775L,0.100933088572757495740631956957054L,0.117676768105807378528758689610199L,0.126180881927588049137204691589036L,0.114723023070228835924707342738073L,0.104112394124448236467787058375982L,0.0768285946304165705472815724454424L,0.0578495651553385319895292460261809L,0.0117938340966279567986539903712543L,0.123325778154774796677162127259627L,
+0.0238920173869485934969304866741947L,0.0523469042934905536104208555611431L,0.0824989309275610772029278735167313L,0.0967817784368590868203195880662645L,0.127125792924303086274991785688798L,-0.0110819177291206372873693770391854L,0.00554513518951393724662614926968001L,-0.00318192887322027471274651669812568L,0.00178717327876101308911741172051196L,-0.000853608723970616168630490286571955L,0.000236257179789026441050939783894818L,0.0622867614533506962501406090107378L};
+
+initializer_list<long double> lb={0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952049363L,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933437884L,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485193300L,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511860996273L,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579509954L,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622278147L,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579580542L,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511861010094L,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485555961L,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933242592L,0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952155014L,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622334800L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -446,21 +446,21 @@ copy(lb.begin(),lb.end(),b);
 
 template<> inline void icoeffs<13,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0101210011913289698800053980502465,-0.00377307158532573117639653956478696,0.00278561575606280540506391769715011,-0.00221827038404612727470909369006428,0.00180306469115291924767648064980046,-0.00146428618397597206373219195398718,0.00117219434523376612789533432940761,-0.000913582925476946914279833786076516,0.000682707775014527070994806526617237,-0.000477846825328057044954904151545178,0.000299962625259445461030372797434857,-0.000152576299212045336495614490534017,0.0000435604600183718814871431827825288,
-0.0219001283175295116522258243792181,0.0230303749594321119786054439884493,-0.00604331982544823445948205359739159,0.00402367675567341024867616113409459,-0.00304249472622634548710370846496858,0.00238203498776763745077474812162596,-0.00186724640081131399249109864113950,0.00143647464828385926714290321692637,-0.00106442244601130699290888262870222,0.000740852231417186149520785772376544,-0.000463345539787940887382989363911043,0.000235139088196600369947814289646073,-0.0000670516615041579007988664565837295,
-0.0194299477196462080138986265725847,0.0500695755432635923426235131209137,0.0347183775549468096159004442172179,-0.00786303206730868570634754109820751,0.00485274615855356234460137723834130,-0.00348400333660768447587493382716106,0.00260906242967983428705086502545689,-0.00195372076841097163727673691924709,0.00142329508753345627404375086579584,-0.000979733532987650877168571875648996,0.000608355059029741647181307412082681,-0.000307359452503456643979932083820092,0.0000874442385102884182445865602618302,
-0.0207461084445201329864662811434272,0.0439800566806027462386107262155192,0.0755663734121840834838611362790007,0.0445364951904864345700116729990245,-0.00922091684260183471157923038803508,0.00535465088568774835817836341051524,-0.00365522679985131663224119457647232,0.00260442900234894375524301082650519,-0.00184200989476170492739286362165069,0.00124460812210767416235581390797846,-0.000763750235756611259863351602996257,0.000383103892798337037853784379416009,-0.000108591577934743383496452469989929,
-0.0198907528982510605465179672081930,0.0474094387268283867543203296582884,0.0661938972977494572894970911918178,0.0969774293976857866965958632022815,0.0519540118842221255781308048265132,-0.0100633070332503760077136218506629,0.00553442491474951858506263543603369,-0.00358522008285720277410984531537971,0.00240894627535956901766224577323685,-0.00157902463820694369584986417058936,0.000951119931434866800772660663683767,-0.000471841291130799781952598265558731,0.000132996200941124552109905578322486,
-0.0205039757594727670060681545998433,0.0450910064519209141654412218524936,0.0715749421921594625399608006277203,0.0848574338709379334336662073674475,0.113150057093106559270427818381431,0.0565707950657243096030225465099442,-0.0103514560922495229752504808065757,0.00539400389969417161174279062738912,-0.00329262769907881380106091466035036,0.00205038906740336088057757139497844,-0.00119902884864579980320098025955255,0.000584799095209111448818836774843047,-0.000163447833221850412977632958606346,
-0.0200379395811026762773049698442838,0.0468004290851373722985012660116026,0.0678786934544959035977382705879556,0.0918730747240793403196288054251039,0.0989622717612276794983509717814398,0.123214025135056194245784393996810,0.0581378883077184775486473788172090,-0.0100724350036075750397393009769219,0.00494575200721657165791063787158657,-0.00280008434310647117960545942705492,0.00155806165539771563406261784648011,-0.000739679166273148341290378034704055,0.000204062801555263482705826256209194,
-0.0204054502158797901729884290590994,0.0454759508236551125083920512020555,0.0706357839585394190350018686939883,0.0870226013135695082594457746030706,0.107200651467523064957322524313377,0.107747586231754447594302302392499,0.126627232707686478072545238440994,0.0565707950657243096030225465099442,-0.00924203332466230811416620872840460,0.00421555651003493570635713863060150,-0.00213818708226584330815991219328461,0.000969743466943309791769666124404934,-0.000261973376814827246057358499350264,
-0.0201090061817168152079008905221705,0.0465325912099950237391634862424573,0.0684856351784587524310282277707520,0.0906520150191798128358732101686384,0.101499077493084682138599363879790,0.116726810214305821980154938335268,0.110741351700687436512232122198384,0.123204897164698995213758714870551,0.0519540118842221255781308048265132,-0.00790443901671291755657251720423246,0.00324285781214416194230379724261791,-0.00134868880796416279710944168138988,0.000351249484406879213492828892300010,
-0.0203505939605926831435072485704830,0.0456776460260658869193571035974826,0.0702005053456502304916642400374320,0.0878283822588651949776675320900705,0.105750033663205956083654473274677,0.110537161129099675450802082193383,0.119931003415288271729535952210890,0.107786939245760870847866729609373,0.113128940611046085867840840041061,0.0445364951904864345700116729990245,-0.00612961830229046425206024784456496,0.00208069323826147771860016176137939,-0.000504106061862193226455485042934161,
-0.0201545581441476513417662095402312,0.0463681093713676806011908200607187,0.0688284000508638775846195810223531,0.0900527239139605200171919178736980,0.102484728680910794882217858787231,0.115095310899859590843321829939135,0.113666714185757120810243892608961,0.116625593468056303681920026847049,0.0990552776098906888116602324146851,0.0969360224482815548463708870962565,0.0347183775549468096159004442172179,-0.00400882562439936838541262514401512,0.000812054663011731746112169527908313,
-0.0203090540441620976608096625570768,0.0458256108306676235872630736872525,0.0699001006496815601191838777983468,0.0883321381495556829905025602256725,0.104972446214455558149170492281729,0.111705115483164759938902189802962,0.118143023016248269089785856275557,0.110759555143680981755270344898262,0.106950518494670596643365318117995,0.0850493136252994588913471848639544,0.0754800749353418536912829420318273,0.0230303749594321119786054439884493,-0.00165812593487157189221502827872504,
-0.0201984419226395678785236529177105,0.0462133262180762692937065024674326,0.0691367924846341737707705156370009,0.0895508372063009261849782501495942,0.103225315993429724085266803126409,0.114055173056925566120324926805965,0.115103582270203188969399423305010,0.114605876315424591269777284973875,0.102104959077291331908585129003226,0.0912912607650189964147324396881133,0.0666511393538308138267369707372856,0.0498338215041899551336074275416855,0.0101210011913289698800053980502465};
-
-initializer_list<double> lb={0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123803064,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309061141179,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547440614369,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706180743704,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196847519,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765327175824,0.1162757766154369550972947576344179740783137386533989930593327196723800120403517006913610310213706817103420500023896627293230689834086437483040879644276247672851069454466057862661259264655868052471449074845678242281638885035488432091828695225298621902018505415108811712208315604919001522398125794729191249933,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765326548185,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196999882,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706179183318,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547443278613,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309060101292,0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123836934};
+initializer_list<long double> la={0.0101210011913289698800053980502465L,-0.00377307158532573117639653956478696L,0.00278561575606280540506391769715011L,-0.00221827038404612727470909369006428L,0.00180306469115291924767648064980046L,-0.00146428618397597206373219195398718L,0.00117219434523376612789533432940761L,-0.000913582925476946914279833786076516L,0.000682707775014527070994806526617237L,-0.000477846825328057044954904151545178L,0.000299962625259445461030372797434857L,-0.000152576299212045336495614490534017L,0.0000435604600183718814871431827825288L,
+0.0219001283175295116522258243792181L,0.0230303749594321119786054439884493L,-0.00604331982544823445948205359739159L,0.00402367675567341024867616113409459L,-0.00304249472622634548710370846496858L,0.00238203498776763745077474812162596L,-0.00186724640081131399249109864113950L,0.00143647464828385926714290321692637L,-0.00106442244601130699290888262870222L,0.000740852231417186149520785772376544L,-0.000463345539787940887382989363911043L,0.000235139088196600369947814289646073L,-0.0000670516615041579007988664565837295L,
+0.0194299477196462080138986265725847L,0.0500695755432635923426235131209137L,0.0347183775549468096159004442172179L,-0.00786303206730868570634754109820751L,0.00485274615855356234460137723834130L,-0.00348400333660768447587493382716106L,0.00260906242967983428705086502545689L,-0.00195372076841097163727673691924709L,0.00142329508753345627404375086579584L,-0.000979733532987650877168571875648996L,0.000608355059029741647181307412082681L,-0.000307359452503456643979932083820092L,0.0000874442385102884182445865602618302L,
+0.0207461084445201329864662811434272L,0.0439800566806027462386107262155192L,0.0755663734121840834838611362790007L,0.0445364951904864345700116729990245L,-0.00922091684260183471157923038803508L,0.00535465088568774835817836341051524L,-0.00365522679985131663224119457647232L,0.00260442900234894375524301082650519L,-0.00184200989476170492739286362165069L,0.00124460812210767416235581390797846L,-0.000763750235756611259863351602996257L,0.000383103892798337037853784379416009L,-0.000108591577934743383496452469989929L,
+0.0198907528982510605465179672081930L,0.0474094387268283867543203296582884L,0.0661938972977494572894970911918178L,0.0969774293976857866965958632022815L,0.0519540118842221255781308048265132L,-0.0100633070332503760077136218506629L,0.00553442491474951858506263543603369L,-0.00358522008285720277410984531537971L,0.00240894627535956901766224577323685L,-0.00157902463820694369584986417058936L,0.000951119931434866800772660663683767L,-0.000471841291130799781952598265558731L,0.000132996200941124552109905578322486L,
+0.0205039757594727670060681545998433L,0.0450910064519209141654412218524936L,0.0715749421921594625399608006277203L,0.0848574338709379334336662073674475L,0.113150057093106559270427818381431L,0.0565707950657243096030225465099442L,-0.0103514560922495229752504808065757L,0.00539400389969417161174279062738912L,-0.00329262769907881380106091466035036L,0.00205038906740336088057757139497844L,-0.00119902884864579980320098025955255L,0.000584799095209111448818836774843047L,-0.000163447833221850412977632958606346L,
+0.0200379395811026762773049698442838L,0.0468004290851373722985012660116026L,0.0678786934544959035977382705879556L,0.0918730747240793403196288054251039L,0.0989622717612276794983509717814398L,0.123214025135056194245784393996810L,0.0581378883077184775486473788172090L,-0.0100724350036075750397393009769219L,0.00494575200721657165791063787158657L,-0.00280008434310647117960545942705492L,0.00155806165539771563406261784648011L,-0.000739679166273148341290378034704055L,0.000204062801555263482705826256209194L,
+0.0204054502158797901729884290590994L,0.0454759508236551125083920512020555L,0.0706357839585394190350018686939883L,0.0870226013135695082594457746030706L,0.107200651467523064957322524313377L,0.107747586231754447594302302392499L,0.126627232707686478072545238440994L,0.0565707950657243096030225465099442L,-0.00924203332466230811416620872840460L,0.00421555651003493570635713863060150L,-0.00213818708226584330815991219328461L,0.000969743466943309791769666124404934L,-0.000261973376814827246057358499350264L,
+0.0201090061817168152079008905221705L,0.0465325912099950237391634862424573L,0.0684856351784587524310282277707520L,0.0906520150191798128358732101686384L,0.101499077493084682138599363879790L,0.116726810214305821980154938335268L,0.110741351700687436512232122198384L,0.123204897164698995213758714870551L,0.0519540118842221255781308048265132L,-0.00790443901671291755657251720423246L,0.00324285781214416194230379724261791L,-0.00134868880796416279710944168138988L,0.000351249484406879213492828892300010L,
+0.0203505939605926831435072485704830L,0.0456776460260658869193571035974826L,0.0702005053456502304916642400374320L,0.0878283822588651949776675320900705L,0.105750033663205956083654473274677L,0.110537161129099675450802082193383L,0.119931003415288271729535952210890L,0.107786939245760870847866729609373L,0.113128940611046085867840840041061L,0.0445364951904864345700116729990245L,-0.00612961830229046425206024784456496L,0.00208069323826147771860016176137939L,-0.000504106061862193226455485042934161L,
+0.0201545581441476513417662095402312L,0.0463681093713676806011908200607187L,0.0688284000508638775846195810223531L,0.0900527239139605200171919178736980L,0.102484728680910794882217858787231L,0.115095310899859590843321829939135L,0.113666714185757120810243892608961L,0.116625593468056303681920026847049L,0.0990552776098906888116602324146851L,0.0969360224482815548463708870962565L,0.0347183775549468096159004442172179L,-0.00400882562439936838541262514401512L,0.000812054663011731746112169527908313L,
+0.0203090540441620976608096625570768L,0.0458256108306676235872630736872525L,0.0699001006496815601191838777983468L,0.0883321381495556829905025602256725L,0.104972446214455558149170492281729L,0.111705115483164759938902189802962L,0.118143023016248269089785856275557L,0.110759555143680981755270344898262L,0.106950518494670596643365318117995L,0.0850493136252994588913471848639544L,0.0754800749353418536912829420318273L,0.0230303749594321119786054439884493L,-0.00165812593487157189221502827872504L,
+0.0201984419226395678785236529177105L,0.0462133262180762692937065024674326L,0.0691367924846341737707705156370009L,0.0895508372063009261849782501495942L,0.103225315993429724085266803126409L,0.114055173056925566120324926805965L,0.115103582270203188969399423305010L,0.114605876315424591269777284973875L,0.102104959077291331908585129003226L,0.0912912607650189964147324396881133L,0.0666511393538308138267369707372856L,0.0498338215041899551336074275416855L,0.0101210011913289698800053980502465L};
+
+initializer_list<long double> lb={0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123803064L,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309061141179L,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547440614369L,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706180743704L,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196847519L,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765327175824L,0.1162757766154369550972947576344179740783137386533989930593327196723800120403517006913610310213706817103420500023896627293230689834086437483040879644276247672851069454466057862661259264655868052471449074845678242281638885035488432091828695225298621902018505415108811712208315604919001522398125794729191249933L,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765326548185L,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196999882L,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706179183318L,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547443278613L,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309060101292L,0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123836934L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -468,22 +468,22 @@ copy(lb.begin(),lb.end(),b);
 
 template<> inline void icoeffs<14,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.00877986508293796575795821903454795,-0.00328311623042934086798688316216252,0.00243769977190523648369753867532496,-0.00195809929677580446849837789111997,0.00161116775847946349648444265711885,-0.00133052156270291506772693351446155,0.00108963888466220974785039375877712,-0.000876302005740451815114376127002123,0.000684693691039925453930883284840597,-0.000512348412842921048968187481164774,0.000358848231298344463716262218571774,-0.000225331048392672084870452601877430,0.000114628208600992289517695941405055,-0.0000327274204462017607888581448243350,
-0.0189981535901935692032565753457345,0.0200395217899400524514083192657136,-0.00528828692877905772827154588731698,0.00355141173896972234311116783155499,-0.00271822648688944300089230331346735,0.00216386043522498030367910884029325,-0.00173506996416364108314035850590390,0.00137711257617749357667294331528682,-0.00106673647746380315042748249637517,0.000793568026138729677545338924362882,-0.000553593219336437327016306954809997,0.000346681281269539277437669257943583,-0.000176059960671760509587943072474205,0.0000502217676032972980292477605208439,
-0.0168552230279503139456460219204252,0.0435673907696408731646233759168512,0.0303796426719757961723537022681192,-0.00693923175519035119345305019603769,0.00433440470550090540006755914465584,-0.00316351532295943580063171436089832,0.00242277289054359102627535965473214,-0.00187121355051888424772368728276770,0.00142453006383964222688942439349999,-0.00104760430312298289632470226583768,0.000725153252625853259256047396927371,-0.000451771845981418753779397766857358,0.000228683634142081114593321789361646,-0.0000651217733284800126896319373713546,
-0.0179971729465900660094843746827399,0.0382681743915636711701172340552138,0.0661233345536871905749021814089698,0.0393007917895483836424004846559605,-0.00823373536491335826742210350287508,0.00485948742725785845997735856907124,-0.00339128378072244485517029851665092,0.00249119959912946624822510381855310,-0.00184021037875169195812940290871736,0.00132745819947615736530485315118822,-0.000907277121182312713726071572431614,0.000560545874372256964826230090779137,-0.000282277859465565741926729500486366,0.0000801673175675880271268840590184610,
-0.0172547617984066298930832342738616,0.0412533979917853903899376777087094,0.0579204623738544047817452791920076,0.0855778714769197311989090537154116,0.0463845993694844534354291475312893,-0.00912812000306882147124445709482786,0.00512982390658682692428320009930379,-0.00342399508689323368479917773962021,0.00240100771220400841219767118394390,-0.00167859385926087166843659137677713,0.00112473016941185443769237507083812,-0.000686129552116775559003003408177509,0.000342844909038254845086894540875276,-0.0000969793854288979175266629724320737,
-0.0177874472666498987219915789897631,0.0392337598958662474135725228744003,0.0626327197421615393472331900914912,0.0748787154811760310330609299933730,0.101022753500743341641028589080367,0.0512996159303239009914810164153045,-0.00958636975953160870951134850919731,0.00514289425654003773414845707324228,-0.00327298200285945016047811109921003,0.00217096714651606515875789781947959,-0.00140979076807348690067732075971781,0.000843606984771863475085728612171211,-0.000416706606795931371592766062971839,0.000117184468566671408063723397267082,
-0.0173819598204594481529414082955742,0.0407251338880214787650397745445252,0.0593916061259882977498028646063490,0.0810781747135810532747494681898616,0.0883477443625841108910902653689403,0.111737358469799304747462009589509,0.0538159633657894475489691108290650,-0.00958944502746706154293216025288384,0.00490242083631428848742035750691602,-0.00295118084701215774738375533809831,0.00181927648653469995209335198496095,-0.00105631852469745200915360223396650,0.000512797239918080511166826616528849,-0.000142965263485369814388244817198644,
-0.0177026954293613013303046828862945,0.0395662463399620243916498119148983,0.0618156038686490443538610067702048,0.0767823070925620673327076173269601,0.0957203795859810646182420504006768,0.0976968110243335134955416753236930,0.117221371759045956640870381911014,0.0538159633657894475489691108290650,-0.00913812660915150276449997675889980,0.00442145437638479597976802969363824,-0.00247659113448428598994849887794055,0.00136767921796329459490453992988933,-0.000646090308141373862223136013098015,0.000177770345416483362975029773521681,
-0.0174425456973092601078527146718288,0.0404957501866760362744094045943990,0.0599156783591797288696216759240671,0.0800113743471702541854782900716389,0.0905982315924528417121003972430989,0.105872213863507252143440143929819,0.102489032475038857363789764584888,0.117218296491110503807449570167327,0.0512996159303239009914810164153045,-0.00825355476177443477017029401778844,0.00372286809792073625174003931854807,-0.00187343439820994700252578555525291,0.000845283684013857489244115657026879,-0.000227717100773967206075140920667221,
-0.0176567095513048294334431010415280,0.0397361986708418500577297439905519,0.0614454148960683679037104079444158,0.0774768534096849128471085942410829,0.0944477925982297785392948864393556,0.100198224148443793570764361646665,0.111055921818472128782737399397750,0.102502102824992068173655021558826,0.111727351863716623454206489925437,0.0463845993694844534354291475312893,-0.00697628789782296391410808440349049,0.00283882297009718756296212534423074,-0.00117435441190528548712103917728224,0.000304968367469301622833203795234327,
-0.0174795628483083434887895540100774,0.0403613214393456706447433680319135,0.0601987394695793353798811744454592,0.0795088607002790799985270408843527,0.0914417405394927495055534419113903,0.104439442239399493941091435739326,0.105140727132449428849713117839577,0.111023210512301339953108520174781,0.0977397444333899435229846742615378,0.101002934103882265138280398565454,0.0393007917895483836424004846559605,-0.00536404920973559823019477687273153,0.00181086918831643373269940447621332,-0.000437442780714134493567936613643993,
-0.0176248519392044115286060700064672,0.0398503599457380237882233167420655,0.0612110571899330110984868023030957,0.0778764303264709140255449219149937,0.0938168030420918897671829973284162,0.101174701796808159756072608437109,0.109503140282097779345661908940898,0.105209153841035304071662862003398,0.105762747183607237783593747191507,0.0884347940334680014707907359179227,0.0855408153342871184782540195079588,0.0303796426719757961723537022681192,-0.00348834718976076826180673738542408,0.000704507137925617570270416148670639,
-0.0175095083982726342178871903085750,0.0402551035405518654124045816039014,0.0604126040626820530672697352782947,0.0791551767984332046118172762667311,0.0919756307128301771933129561382156,0.103665968338111605133389515326984,0.106254814155401401521265278342843,0.109366996695742536181078580164034,0.100435371425422821679282923990316,0.0954874252258583498717505983760459,0.0750501718401270449416898014803661,0.0660475722727306500729789504235553,0.0200395217899400524514083192657136,-0.00143842342431763768734013727663862,
-0.0175924575863221332767052962139202,0.0399644153712791126132989425900221,0.0609846163923442644295778571381157,0.0782427353477984228210847070933493,0.0932815471518118279198264825437433,0.101914538169607876529031149545768,0.108508228737319346913052597785132,0.106542287846916685350087827899353,0.103929753423350717050688966345071,0.0911580309804894433743738524054597,0.0805596828758725717532993472030411,0.0583215855720463558610098658609134,0.0433621598103094457708035216935897,0.00877986508293796575795821903454795};
-
-initializer_list<double> lb={0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060882729124,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161732825403,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278127732180,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276041950345,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799226224416,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698742602854,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843661072667,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843659468872,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698741354404,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799221578134,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276015196586,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278148536558,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161726341104,0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060883202379};
+initializer_list<long double> la={0.00877986508293796575795821903454795L,-0.00328311623042934086798688316216252L,0.00243769977190523648369753867532496L,-0.00195809929677580446849837789111997L,0.00161116775847946349648444265711885L,-0.00133052156270291506772693351446155L,0.00108963888466220974785039375877712L,-0.000876302005740451815114376127002123L,0.000684693691039925453930883284840597L,-0.000512348412842921048968187481164774L,0.000358848231298344463716262218571774L,-0.000225331048392672084870452601877430L,0.000114628208600992289517695941405055L,-0.0000327274204462017607888581448243350L,
+0.0189981535901935692032565753457345L,0.0200395217899400524514083192657136L,-0.00528828692877905772827154588731698L,0.00355141173896972234311116783155499L,-0.00271822648688944300089230331346735L,0.00216386043522498030367910884029325L,-0.00173506996416364108314035850590390L,0.00137711257617749357667294331528682L,-0.00106673647746380315042748249637517L,0.000793568026138729677545338924362882L,-0.000553593219336437327016306954809997L,0.000346681281269539277437669257943583L,-0.000176059960671760509587943072474205L,0.0000502217676032972980292477605208439L,
+0.0168552230279503139456460219204252L,0.0435673907696408731646233759168512L,0.0303796426719757961723537022681192L,-0.00693923175519035119345305019603769L,0.00433440470550090540006755914465584L,-0.00316351532295943580063171436089832L,0.00242277289054359102627535965473214L,-0.00187121355051888424772368728276770L,0.00142453006383964222688942439349999L,-0.00104760430312298289632470226583768L,0.000725153252625853259256047396927371L,-0.000451771845981418753779397766857358L,0.000228683634142081114593321789361646L,-0.0000651217733284800126896319373713546L,
+0.0179971729465900660094843746827399L,0.0382681743915636711701172340552138L,0.0661233345536871905749021814089698L,0.0393007917895483836424004846559605L,-0.00823373536491335826742210350287508L,0.00485948742725785845997735856907124L,-0.00339128378072244485517029851665092L,0.00249119959912946624822510381855310L,-0.00184021037875169195812940290871736L,0.00132745819947615736530485315118822L,-0.000907277121182312713726071572431614L,0.000560545874372256964826230090779137L,-0.000282277859465565741926729500486366L,0.0000801673175675880271268840590184610L,
+0.0172547617984066298930832342738616L,0.0412533979917853903899376777087094L,0.0579204623738544047817452791920076L,0.0855778714769197311989090537154116L,0.0463845993694844534354291475312893L,-0.00912812000306882147124445709482786L,0.00512982390658682692428320009930379L,-0.00342399508689323368479917773962021L,0.00240100771220400841219767118394390L,-0.00167859385926087166843659137677713L,0.00112473016941185443769237507083812L,-0.000686129552116775559003003408177509L,0.000342844909038254845086894540875276L,-0.0000969793854288979175266629724320737L,
+0.0177874472666498987219915789897631L,0.0392337598958662474135725228744003L,0.0626327197421615393472331900914912L,0.0748787154811760310330609299933730L,0.101022753500743341641028589080367L,0.0512996159303239009914810164153045L,-0.00958636975953160870951134850919731L,0.00514289425654003773414845707324228L,-0.00327298200285945016047811109921003L,0.00217096714651606515875789781947959L,-0.00140979076807348690067732075971781L,0.000843606984771863475085728612171211L,-0.000416706606795931371592766062971839L,0.000117184468566671408063723397267082L,
+0.0173819598204594481529414082955742L,0.0407251338880214787650397745445252L,0.0593916061259882977498028646063490L,0.0810781747135810532747494681898616L,0.0883477443625841108910902653689403L,0.111737358469799304747462009589509L,0.0538159633657894475489691108290650L,-0.00958944502746706154293216025288384L,0.00490242083631428848742035750691602L,-0.00295118084701215774738375533809831L,0.00181927648653469995209335198496095L,-0.00105631852469745200915360223396650L,0.000512797239918080511166826616528849L,-0.000142965263485369814388244817198644L,
+0.0177026954293613013303046828862945L,0.0395662463399620243916498119148983L,0.0618156038686490443538610067702048L,0.0767823070925620673327076173269601L,0.0957203795859810646182420504006768L,0.0976968110243335134955416753236930L,0.117221371759045956640870381911014L,0.0538159633657894475489691108290650L,-0.00913812660915150276449997675889980L,0.00442145437638479597976802969363824L,-0.00247659113448428598994849887794055L,0.00136767921796329459490453992988933L,-0.000646090308141373862223136013098015L,0.000177770345416483362975029773521681L,
+0.0174425456973092601078527146718288L,0.0404957501866760362744094045943990L,0.0599156783591797288696216759240671L,0.0800113743471702541854782900716389L,0.0905982315924528417121003972430989L,0.105872213863507252143440143929819L,0.102489032475038857363789764584888L,0.117218296491110503807449570167327L,0.0512996159303239009914810164153045L,-0.00825355476177443477017029401778844L,0.00372286809792073625174003931854807L,-0.00187343439820994700252578555525291L,0.000845283684013857489244115657026879L,-0.000227717100773967206075140920667221L,
+0.0176567095513048294334431010415280L,0.0397361986708418500577297439905519L,0.0614454148960683679037104079444158L,0.0774768534096849128471085942410829L,0.0944477925982297785392948864393556L,0.100198224148443793570764361646665L,0.111055921818472128782737399397750L,0.102502102824992068173655021558826L,0.111727351863716623454206489925437L,0.0463845993694844534354291475312893L,-0.00697628789782296391410808440349049L,0.00283882297009718756296212534423074L,-0.00117435441190528548712103917728224L,0.000304968367469301622833203795234327L,
+0.0174795628483083434887895540100774L,0.0403613214393456706447433680319135L,0.0601987394695793353798811744454592L,0.0795088607002790799985270408843527L,0.0914417405394927495055534419113903L,0.104439442239399493941091435739326L,0.105140727132449428849713117839577L,0.111023210512301339953108520174781L,0.0977397444333899435229846742615378L,0.101002934103882265138280398565454L,0.0393007917895483836424004846559605L,-0.00536404920973559823019477687273153L,0.00181086918831643373269940447621332L,-0.000437442780714134493567936613643993L,
+0.0176248519392044115286060700064672L,0.0398503599457380237882233167420655L,0.0612110571899330110984868023030957L,0.0778764303264709140255449219149937L,0.0938168030420918897671829973284162L,0.101174701796808159756072608437109L,0.109503140282097779345661908940898L,0.105209153841035304071662862003398L,0.105762747183607237783593747191507L,0.0884347940334680014707907359179227L,0.0855408153342871184782540195079588L,0.0303796426719757961723537022681192L,-0.00348834718976076826180673738542408L,0.000704507137925617570270416148670639L,
+0.0175095083982726342178871903085750L,0.0402551035405518654124045816039014L,0.0604126040626820530672697352782947L,0.0791551767984332046118172762667311L,0.0919756307128301771933129561382156L,0.103665968338111605133389515326984L,0.106254814155401401521265278342843L,0.109366996695742536181078580164034L,0.100435371425422821679282923990316L,0.0954874252258583498717505983760459L,0.0750501718401270449416898014803661L,0.0660475722727306500729789504235553L,0.0200395217899400524514083192657136L,-0.00143842342431763768734013727663862L,
+0.0175924575863221332767052962139202L,0.0399644153712791126132989425900221L,0.0609846163923442644295778571381157L,0.0782427353477984228210847070933493L,0.0932815471518118279198264825437433L,0.101914538169607876529031149545768L,0.108508228737319346913052597785132L,0.106542287846916685350087827899353L,0.103929753423350717050688966345071L,0.0911580309804894433743738524054597L,0.0805596828758725717532993472030411L,0.0583215855720463558610098658609134L,0.0433621598103094457708035216935897L,0.00877986508293796575795821903454795L};
+
+initializer_list<long double> lb={0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060882729124L,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161732825403L,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278127732180L,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276041950345L,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799226224416L,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698742602854L,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843661072667L,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843659468872L,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698741354404L,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799221578134L,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276015196586L,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278148536558L,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161726341104L,0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060883202379L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -491,23 +491,23 @@ copy(lb.begin(),lb.end(),b);
 
 template<> inline void icoeffs<15,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.00768831049902931708865709839430110,-0.00288207652296439580063546956640496,0.00214977135688850644287947195441230,-0.00173884965380298083558788216578044,0.00144470413915726138708869767716335,-0.00120875124593688546658128485877837,-0.000829198279957270056165475383330968,0.000668820975529917187940369682561850,-0.000523450351172725058136595675165461,0.000392046730691602014114395777496628,-0.000274715621754918118582794977518628,0.000172538127706577039763717164693461,-0.0000877790602645868752966820187805339,0.0000250623437545120994878446872165364,0.00100730755285335470627173001460784,
-0.0166362227509783404984961450415114,0.0175915118720270311773168541126668,-0.00466351386567139920910945192640114,0.00315354205167060177481027904195496,-0.00243709364541861248927066133075671,0.00196545995211755642319833638016242,0.00130260473646139385678049832465133,-0.00104148556214203561932207449711480,0.000810228194455859749132304352513766,-0.000604288995041522705160129596905066,0.000422194068522064401364461722620928,-0.000264629686030523967638173133559916,0.000134457272941865614537600421636876,-0.0000383635400718623012778712595397459,-0.00160354180515170935773759150854591,
-0.0147596657935835599495579379109451,0.0382453177464055777555361371553767,0.0267898051167929837529673866714673,-0.00616125782189826452701945604676958,0.00388540778485748995650797025288780,-0.00287258727158500903381330889237036,-0.00176882660434387913394492107044070,0.00138957805663066645209914875567541,-0.00106833441025736725849353335977303,0.000790333943391873816513817513980545,-0.000549070190929407584415480432400551,0.000342837152366744899109634183981507,-0.000173768948419062931349295607481126,0.0000495161011043642971631230913928475,0.00223809184708612148925667948641971,
-0.0157597621061541406071917707671331,0.0335931318479854185736211582802462,0.0583100851091268661824035925215984,0.0348926694815385786119511986277571,-0.00737940946173976384827296895623885,0.00441096801812590706555516092206085,0.00235280924473860437078970068009314,-0.00179283158915975579588626926021054,0.00135144263633254211230345864810751,-0.000986609667339780165472251839726848,0.000679266000451239434163117754700047,-0.000421563716075716397819728976520931,0.000212853647458382933211580026679770,-0.0000605313101682632124896863746739518,-0.00313090802751342417934286012797411,
-0.0151094077411841340124542675513073,0.0362144152536475076570565761402277,0.0510754948901790939145299350867404,0.0759798064004408833045786853890249,0.0415673014542484833883002151203022,-0.00828277336540880503184844886533352,-0.00323039674394951171049944257284989,0.00233558196615176564298443910486194,-0.00170522856069432033507452748948227,0.00121948195415413587624329276381805,-0.000828185709088390761404758010888066,0.000509364129493923943341426134730871,-0.000255738444847295467362462157213771,0.0000725131747848474283504476134943536,0.00473286955543412436973698556430448,
-0.0155763030989084244329229244789970,0.0344401095551792856353578159705013,0.0552331478312634465959558708141656,0.0664782993761123615184061906266898,0.0905323400785462625916172751622854,0.0465402500038905527567001404666057,0.00484679298140696426300794637272217,-0.00317822423571163094902465918219191,0.00219973318684740140886793973388926,-0.00152302038826284084666941590870139,0.00101321847710032825541555137730759,-0.000614961686883209505797295930784541,0.000306254025292725873549587624150750,-0.0000864724368757241202958614665039038,-0.00883944340559603285861769562965557,
-0.0155025009302956829281881053093292,0.0347305608049307295822013036311998,0.0545152787351061594892301878123766,0.0681643199523595268233594122982296,0.0857860006893487479412995056538336,0.0886264983355843505212644083221176,0.0506445604813903182201550499918798,-0.00884395744970946354663335487841734,0.00445400167219675499213587261109381,-0.00265139778085178116469907541322919,0.00162101901071763040054298495728458,-0.000935668501520191983295414469441973,0.000452462939123332772432404594133889,-0.000125879932237048750873908520726956,0.108059700113265251774692518100337,
-0.0152729660096446532887154273776346,0.0355523462958812372687600312419467,0.0528291945367959129786560876927991,0.0710463622321110828606712156060207,0.0811775780039442352442256266787681,0.0960621911492772619098913177211643,0.110317896556901683222398533330108,0.0496078713317778941140295816109598,-0.00829283528898673480148119897698628,0.00396575402799720493942905295023015,-0.00220218558160831593772050076925001,0.00120863973412445964285627893313716,-0.000568634048293621479668241547644885,0.000156114201767673815646320252275934,0.0944637878373826340839046195961349,
-0.0154630934349343582976100582551061,0.0348767697187613364810841206011829,0.0541945719204691770117320692737192,0.0687721204859768289684868458782066,0.0846576232967598076232698461493058,0.0908807668209337041045323411993222,0.0964423279813736721773021536110375,0.108055186069151821086676858851575,0.0465402500038905527567001404666057,-0.00739773717004929581501684492168096,0.00330703958696479570549620662882437,-0.00165353759767747909002109747123093,0.000742914188874776719275892254832318,-0.000199682100849790255608727690394819,0.102393966899267419177083822404112,
-0.0153041078232737867489637491751079,0.0354387621889013578219961703825474,0.0530702461040920435625933472082038,0.0706135246721655479853071552664022,0.0819151209543428309003571374767864,0.0947857285684754258484748084226937,0.104519517706730148150809542556610,0.0944828731081216638583221776576152,0.101363273373189910545248729798545,0.0415673014542484833883002151203022,-0.00619446743736372608067628813351075,0.00250411534340687359140483825619426,-0.00103139150959344530242286791489404,0.000267213256874500164859929237294932,0.0968801606974040225850747241170577,
-0.0154371523082268973898038831632762,0.0349701700965956794214221281986539,0.0540011739496616839037545023194556,0.0691060729626259177897392795008141,0.0841212125758367469420726820803313,0.0917290573714485634010968222851039,0.0989363117180420320695203993036665,0.102346650691069212407402023349894,0.0886695319896551984478451200111506,0.0905140123702367306248733991968433,0.0348926694815385786119511986277571,-0.00473047487554089867646881917866378,0.00158989189606864378101254994508743,-0.000383141108095506429877573978530933,0.101008574252715544023945432482130,
-0.0153271048969542698801510736972094,0.0353567926924731252859830038328148,0.0532367730812192226068251391589531,0.0703344091540065648083178776879147,0.0823442689651050929600866127266239,0.0941488344180384727718938142929845,0.103057947567124515574255021054200,0.0969776508164696667388024837354999,0.0959530872793661145472135898255818,0.0792491951236394768200924599877166,0.0759465967849754217509218533022837,0.0267898051167929837529673866714673,-0.00306229400235151540090242893004299,0.000616955204475074227756258877657089,0.0978261646069251217759600144662443,
-0.0154149845381304964785920680481420,0.0350485664711121967400961078036968,0.0538442399196164914735729464764946,0.0693631448945550928225379355328932,0.0837388919035384894817605598375095,0.0922702718133252457642679765806976,0.0999865162263192425835296016591083,0.100819284468707497585796754730466,0.0911150400556635490902019445530490,0.0855716965539155792658710915713611,0.0666317969114065554490921182135592,0.0582431240992573667150442252693358,0.0175915118720270311773168541126668,-0.00125960175291970632118194825290922,0.100257228225697823847381237719034,
-0.0153515586543041220778263521013857,0.0352708028043186492299303902441142,0.0534070721058793904661710561782412,0.0700600545848320753424851922330328,0.0827425561778053647624860344631078,0.0936039503589538305715368766083769,0.102118319242737906496475575367091,0.0982084351107024335217874332073118,0.0942892512537179909799815657919898,0.0816898987693397053895117325634411,0.0715241886168801380594902794212946,0.0514298388766974610630553013885224,0.0380651002670184581552691777917386,0.00768831049902931708865709839430110,0.0985469216880258710401187935393578,
-0.0152205067962909603616678765363263,0.0357516577923476838343019497729786,0.0523709704994615078630784944097975,0.0719875245446854731616228980247642,0.0791688488804997618371713772903743,0.101373335296767840314881479910198,-0.00902877559412104678208843334634815,0.00475195482617315414415454362578481,-0.00298169114149615639649103678795289,0.00195702490455273153237480356183629,-0.00126102326903392563676881835050655,0.000750415696790054527278685650135590,-0.000369322551827174914126323016613038,0.000103654988413980888598769410967572,0.0496078713317778941140295816109598};
-
-initializer_list<double> lb={0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682830460390,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588209219898,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708189811013,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498954293869,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029809258764,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924637160946,0.1012891209627806364403100999837596574193310790047386783983520580257176993773730370466967203563940160676757413354149950886547623144359741096337832934569531306128042724779321515918252514989111725708462305198901935498672095408692145288881885618482355079091675828272564869301466038062774659511256247852975994681,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302649829266,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924593310703,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029790738017,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498847014021,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708140197696,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588143487435,0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682840107698,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302625108573};
+initializer_list<long double> la={0.00768831049902931708865709839430110L,-0.00288207652296439580063546956640496L,0.00214977135688850644287947195441230L,-0.00173884965380298083558788216578044L,0.00144470413915726138708869767716335L,-0.00120875124593688546658128485877837L,-0.000829198279957270056165475383330968L,0.000668820975529917187940369682561850L,-0.000523450351172725058136595675165461L,0.000392046730691602014114395777496628L,-0.000274715621754918118582794977518628L,0.000172538127706577039763717164693461L,-0.0000877790602645868752966820187805339L,0.0000250623437545120994878446872165364L,0.00100730755285335470627173001460784L,
+0.0166362227509783404984961450415114L,0.0175915118720270311773168541126668L,-0.00466351386567139920910945192640114L,0.00315354205167060177481027904195496L,-0.00243709364541861248927066133075671L,0.00196545995211755642319833638016242L,0.00130260473646139385678049832465133L,-0.00104148556214203561932207449711480L,0.000810228194455859749132304352513766L,-0.000604288995041522705160129596905066L,0.000422194068522064401364461722620928L,-0.000264629686030523967638173133559916L,0.000134457272941865614537600421636876L,-0.0000383635400718623012778712595397459L,-0.00160354180515170935773759150854591L,
+0.0147596657935835599495579379109451L,0.0382453177464055777555361371553767L,0.0267898051167929837529673866714673L,-0.00616125782189826452701945604676958L,0.00388540778485748995650797025288780L,-0.00287258727158500903381330889237036L,-0.00176882660434387913394492107044070L,0.00138957805663066645209914875567541L,-0.00106833441025736725849353335977303L,0.000790333943391873816513817513980545L,-0.000549070190929407584415480432400551L,0.000342837152366744899109634183981507L,-0.000173768948419062931349295607481126L,0.0000495161011043642971631230913928475L,0.00223809184708612148925667948641971L,
+0.0157597621061541406071917707671331L,0.0335931318479854185736211582802462L,0.0583100851091268661824035925215984L,0.0348926694815385786119511986277571L,-0.00737940946173976384827296895623885L,0.00441096801812590706555516092206085L,0.00235280924473860437078970068009314L,-0.00179283158915975579588626926021054L,0.00135144263633254211230345864810751L,-0.000986609667339780165472251839726848L,0.000679266000451239434163117754700047L,-0.000421563716075716397819728976520931L,0.000212853647458382933211580026679770L,-0.0000605313101682632124896863746739518L,-0.00313090802751342417934286012797411L,
+0.0151094077411841340124542675513073L,0.0362144152536475076570565761402277L,0.0510754948901790939145299350867404L,0.0759798064004408833045786853890249L,0.0415673014542484833883002151203022L,-0.00828277336540880503184844886533352L,-0.00323039674394951171049944257284989L,0.00233558196615176564298443910486194L,-0.00170522856069432033507452748948227L,0.00121948195415413587624329276381805L,-0.000828185709088390761404758010888066L,0.000509364129493923943341426134730871L,-0.000255738444847295467362462157213771L,0.0000725131747848474283504476134943536L,0.00473286955543412436973698556430448L,
+0.0155763030989084244329229244789970L,0.0344401095551792856353578159705013L,0.0552331478312634465959558708141656L,0.0664782993761123615184061906266898L,0.0905323400785462625916172751622854L,0.0465402500038905527567001404666057L,0.00484679298140696426300794637272217L,-0.00317822423571163094902465918219191L,0.00219973318684740140886793973388926L,-0.00152302038826284084666941590870139L,0.00101321847710032825541555137730759L,-0.000614961686883209505797295930784541L,0.000306254025292725873549587624150750L,-0.0000864724368757241202958614665039038L,-0.00883944340559603285861769562965557L,
+0.0155025009302956829281881053093292L,0.0347305608049307295822013036311998L,0.0545152787351061594892301878123766L,0.0681643199523595268233594122982296L,0.0857860006893487479412995056538336L,0.0886264983355843505212644083221176L,0.0506445604813903182201550499918798L,-0.00884395744970946354663335487841734L,0.00445400167219675499213587261109381L,-0.00265139778085178116469907541322919L,0.00162101901071763040054298495728458L,-0.000935668501520191983295414469441973L,0.000452462939123332772432404594133889L,-0.000125879932237048750873908520726956L,0.108059700113265251774692518100337L,
+0.0152729660096446532887154273776346L,0.0355523462958812372687600312419467L,0.0528291945367959129786560876927991L,0.0710463622321110828606712156060207L,0.0811775780039442352442256266787681L,0.0960621911492772619098913177211643L,0.110317896556901683222398533330108L,0.0496078713317778941140295816109598L,-0.00829283528898673480148119897698628L,0.00396575402799720493942905295023015L,-0.00220218558160831593772050076925001L,0.00120863973412445964285627893313716L,-0.000568634048293621479668241547644885L,0.000156114201767673815646320252275934L,0.0944637878373826340839046195961349L,
+0.0154630934349343582976100582551061L,0.0348767697187613364810841206011829L,0.0541945719204691770117320692737192L,0.0687721204859768289684868458782066L,0.0846576232967598076232698461493058L,0.0908807668209337041045323411993222L,0.0964423279813736721773021536110375L,0.108055186069151821086676858851575L,0.0465402500038905527567001404666057L,-0.00739773717004929581501684492168096L,0.00330703958696479570549620662882437L,-0.00165353759767747909002109747123093L,0.000742914188874776719275892254832318L,-0.000199682100849790255608727690394819L,0.102393966899267419177083822404112L,
+0.0153041078232737867489637491751079L,0.0354387621889013578219961703825474L,0.0530702461040920435625933472082038L,0.0706135246721655479853071552664022L,0.0819151209543428309003571374767864L,0.0947857285684754258484748084226937L,0.104519517706730148150809542556610L,0.0944828731081216638583221776576152L,0.101363273373189910545248729798545L,0.0415673014542484833883002151203022L,-0.00619446743736372608067628813351075L,0.00250411534340687359140483825619426L,-0.00103139150959344530242286791489404L,0.000267213256874500164859929237294932L,0.0968801606974040225850747241170577L,
+0.0154371523082268973898038831632762L,0.0349701700965956794214221281986539L,0.0540011739496616839037545023194556L,0.0691060729626259177897392795008141L,0.0841212125758367469420726820803313L,0.0917290573714485634010968222851039L,0.0989363117180420320695203993036665L,0.102346650691069212407402023349894L,0.0886695319896551984478451200111506L,0.0905140123702367306248733991968433L,0.0348926694815385786119511986277571L,-0.00473047487554089867646881917866378L,0.00158989189606864378101254994508743L,-0.000383141108095506429877573978530933L,0.101008574252715544023945432482130L,
+0.0153271048969542698801510736972094L,0.0353567926924731252859830038328148L,0.0532367730812192226068251391589531L,0.0703344091540065648083178776879147L,0.0823442689651050929600866127266239L,0.0941488344180384727718938142929845L,0.103057947567124515574255021054200L,0.0969776508164696667388024837354999L,0.0959530872793661145472135898255818L,0.0792491951236394768200924599877166L,0.0759465967849754217509218533022837L,0.0267898051167929837529673866714673L,-0.00306229400235151540090242893004299L,0.000616955204475074227756258877657089L,0.0978261646069251217759600144662443L,
+0.0154149845381304964785920680481420L,0.0350485664711121967400961078036968L,0.0538442399196164914735729464764946L,0.0693631448945550928225379355328932L,0.0837388919035384894817605598375095L,0.0922702718133252457642679765806976L,0.0999865162263192425835296016591083L,0.100819284468707497585796754730466L,0.0911150400556635490902019445530490L,0.0855716965539155792658710915713611L,0.0666317969114065554490921182135592L,0.0582431240992573667150442252693358L,0.0175915118720270311773168541126668L,-0.00125960175291970632118194825290922L,0.100257228225697823847381237719034L,
+0.0153515586543041220778263521013857L,0.0352708028043186492299303902441142L,0.0534070721058793904661710561782412L,0.0700600545848320753424851922330328L,0.0827425561778053647624860344631078L,0.0936039503589538305715368766083769L,0.102118319242737906496475575367091L,0.0982084351107024335217874332073118L,0.0942892512537179909799815657919898L,0.0816898987693397053895117325634411L,0.0715241886168801380594902794212946L,0.0514298388766974610630553013885224L,0.0380651002670184581552691777917386L,0.00768831049902931708865709839430110L,0.0985469216880258710401187935393578L,
+0.0152205067962909603616678765363263L,0.0357516577923476838343019497729786L,0.0523709704994615078630784944097975L,0.0719875245446854731616228980247642L,0.0791688488804997618371713772903743L,0.101373335296767840314881479910198L,-0.00902877559412104678208843334634815L,0.00475195482617315414415454362578481L,-0.00298169114149615639649103678795289L,0.00195702490455273153237480356183629L,-0.00126102326903392563676881835050655L,0.000750415696790054527278685650135590L,-0.000369322551827174914126323016613038L,0.000103654988413980888598769410967572L,0.0496078713317778941140295816109598L};
+
+initializer_list<long double> lb={0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682830460390L,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588209219898L,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708189811013L,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498954293869L,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029809258764L,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924637160946L,0.1012891209627806364403100999837596574193310790047386783983520580257176993773730370466967203563940160676757413354149950886547623144359741096337832934569531306128042724779321515918252514989111725708462305198901935498672095408692145288881885618482355079091675828272564869301466038062774659511256247852975994681L,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302649829266L,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924593310703L,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029790738017L,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498847014021L,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708140197696L,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588143487435L,0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682840107698L,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302625108573L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -515,24 +515,24 @@ copy(lb.begin(),lb.end(),b);
 
 template<> inline void icoeffs<16,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.00678811485293852371294514311400453,-0.00254981560166642060794569067228638,0.00190909917813672352877801175229420,0.00130038636167335289131149058789750,-0.00109941397810467496743881733363378,0.000928810382461165787713007929583067,-0.000778400292638016970213471818843129,0.000642913073058191572480402310603516,-0.000519591764617300727073793902583398,0.000407121321020350344602879245931763,-0.000305112838734354656103913206664628,0.000213868739423092125277034461916634,0.0000683510931380568197932759579296331,-0.00155293958635445852534156874682570,-0.000134342751558613532849595377351067,-0.0000195156840005830940114810271390690,
-0.0146883557390946385758642521469263,0.0155633809846619732157109592485944,-0.00414132717596763996878861232853917,-0.00219345482567798016982323843681041,0.00178743918153624175343071841289058,-0.00147829989566992546596208722498436,0.00122248349189014866625509839220072,-0.00100078933565830982842652679008346,0.000803884822279940961686355000181995,-0.000627151628945023668023605338992174,0.000468554602991504934816921554325165,-0.000327706017463433279300993976240050,-0.000104467756262960729780516285484119,0.00281624066329179723974536344229666,0.000205533641770747263601026242237198,0.0000298119715119924600006781741765009,
-0.0130314887570029239238070779942658,0.0338360541380276180593656116868798,0.0237896279206231962024812769005616,0.00349652217282333762047567566641019,-0.00261183969113449188384120696449657,0.00206262230133837007802008817731631,-0.00165927082379871426000051462803313,0.00133445175087720853587420167870525,-0.00105910023568189585536302557340930,0.000819360728618994732230322769157078,-0.000608529289730636770195138989976567,0.000423816016176219956789937505986881,0.000134461891657840509651754065444609,-0.00550189263400219470130649699861349,-0.000265040935248507636968787866946170,-0.0000383332614651404512547242794488369,
-0.0133402027362754284067900662363016,0.0320395557786961649790658295553046,0.0453551063258562077032403018991998,0.0373989972041441830203754326368696,-0.00752716211388616522865856954022408,0.00435798231923588344843112214714441,-0.00302623842372018278324271394385074,0.00223860976756049347672080923707275,-0.00168603154019661600337826224358255,0.00125982769450141872687683280008835,-0.000913650835738432921668043535352149,0.000625934326460294421810833241733622,0.000194986345721210110687336877989096,0.0678462253281563804520834767661078,-0.000387087528108609216096437675937933,-0.0000553795862795328163738964832596964,
-0.0137527040949456381585719692773963,0.0304689428780194995010284424119904,0.0490485387199112662446557436788485,0.0814547479489546900093434676951639,0.0422891298487506345473280197575900,-0.00813602844568463378031886725894453,0.00453707368665636325875087328546242,-0.00304264485970265102036782781614618,0.00217120095070617941088324752289254,-0.00156962068732266188109902536961831,0.00111414665170165347439732078861472,-0.000752443887085733211963936880960639,-0.000230806350741480777897190755212045,0.0593603918070741529829473498398750,0.000460929012640643666572498339346957,0.0000653498025627462459581939919122352,
-0.0134381190018423601612728088869929,0.0316307469463899425607317444310215,0.0465043796221450675754501548802689,0.0712277617588559187531155126205067,0.0921151518921634601747533085146769,0.0456508537612308972166909169923050,-0.00844642793523074838713993385383526,0.00454380119920973210288173064487636,-0.00293743652117923594369543773037534,0.00201131394852731722720980289781172,-0.00138126417498597858451122992075628,0.000913338905274806437438626010877776,0.000274062032275837566195147338256161,0.0642830051583429101538245285291243,-0.000551919591017902593455885724942517,-0.0000772613934738410359920452470569326,
-0.0136877916707669093796072977755514,0.0307250535496773673535467999086984,0.0484126854179133761310679478949778,0.0771876047046273585479673839730614,0.0805272007369102555810475990728894,0.0994428614738752770173381402428347,0.0473626526137671240713491808020708,-0.00844803342103768353509484825593283,0.00437957742267448243151600841104754,-0.00271671446709042054123135194433941,0.00176767465118347190532670583864947,-0.00113163758564593222063565130415360,-0.000328859657486953683278381006855350,0.0608634670250274359810760616176631,0.000670277294016365106867027648281658,0.0000921436520028463808704116130765519,
-0.0134840860538742010450198746149325,0.0314556216268109001147002995040442,0.0469089785472300272980955261528415,0.0730303197571048941354241594350898,0.0872949741645916896358873914595194,0.0869221300997873120018658255735624,0.103173338648571931677793209860074,0.0473626526137671240713491808020708,-0.00814115395141348258395630625822473,0.00405105896059101351360844044229058,-0.00238961029633899250721651869932213,0.00145101860273950004516207947834509,0.000401708419646579077875118588490492,0.0634461232134128682468737924001618,-0.000833429576666983726105394093854658,-0.000111561964889861953717011547542351,
-0.0136534910993508884618823314750660,0.0308526999370481088652267711589327,0.0481311754322642949984184395260656,0.0761792585832743446252620951944955,0.0825669457489739518674462366173683,0.0942391440436410303770772717149853,0.0901815040283245160398166309592652,0.103171733162764996529838295457977,0.0456508537612308972166909169923050,-0.00753689219466219108009726899949692,0.00357023264943244728763535265323259,-0.00196851953057597412758638743311610,-0.000503984977065996129309825933832687,0.0614011467224921295887995150851304,0.00107487621910132482951239892085417,0.000138110704034687264617477341016161,
-0.0135108799033143011799320922360968,0.0313575683200654272093191092524009,0.0471183268286057487383900554617762,0.0736838477565867125663535444851246,0.0861478803848239309757550648847983,0.0891305065717556150224985864617174,0.0977679500872368991630661894202877,0.0901882315408778848839474883186791,0.0994377359681464282137007012435545,0.0422891298487506345473280197575900,-0.00665675354066632396859260242142458,0.00295409382069278304329079125613317,0.000657819091304446930393476085198443,0.0630669295148526692382020779769688,-0.00146928287866487383969318987772537,-0.000176474389068590732681683049387217,
-0.0136316092921565802422641827112687,0.0309317756236027363207345816191998,0.0479663433693550016210589914770610,0.0757116452440267989624189088090914,0.0833184320029998503677792067150916,0.0929877390626584104367600962281925,0.0924866954599737546659775523670688,0.0977515436512544309259410755479923,0.0869437252032259109849507118374656,0.0921054218113874343233146090554041,0.0373989972041441830203754326368696,-0.00553173970038944442584533567009958,-0.000912793809372218547643911058115780,0.0616885513013066416044273078542746,0.00222414951539018470172225190192333,0.000236026969601619019100219991707471,
-0.0135296349036562863191162942201955,0.0312904546821617165141440676077688,0.0472556577169880921728028129867975,0.0740466661773180896227734476220056,0.0855995373963959978740743695689147,0.0899635050040873503460093591141703,0.0964455266917309385424293315073437,0.0925195872688501219803829673392555,0.0941859356858218591189075637583719,0.0805687246460556153515767050519785,0.0814379117727585345112376205942748,0.0311572428138834680131190705480041,0.00140674278045478759427331892975439,0.0628342944281682934073314379887084,-0.00420088450714280999606686330035426,-0.000338333283686824424560906113468200,
-0.0135464177343650549658896080538326,0.0312312297255869071612024347826730,0.0473737221994756451413615275588859,0.0743294398052968611059339437194141,0.0852054113264462927626796448541722,0.0904978227001818534716954789844280,0.0957260945631925579711248883942250,0.0935028217356440994764432632119408,0.0927800074181317198993439212095943,0.0827908205159650273412253211022894,0.0769914492339663462105741037105497,0.0594982449644751387864927776537115,0.0155633809846619732157109592485944,0.0626421916452303693055391350722483,0.0517205830172140323737511661296623,-0.00111212603321759114997396591891728,
-0.0139145629895638718504511923414773,0.0297200191888691588371485995674345,0.0517801403483892024010294171014774,-0.00663991736447016847048675532053550,0.00400953505144565374307933446320152,-0.00288422816336006468552572977376197,0.00220571795868412616231539426488608,-0.00172022146419669039973096990320212,0.00133820251837444408737247487043966,-0.00102127769889472877941833005373477,0.000751328230970276417977417651733669,-0.000519808800401357381093296892700162,-0.000163692712837770082722149110579910,0.0311572428138834680131190705480041,0.000323598124258300232159740814325638,0.0000465948022207611067739920078135380,
-0.0136145629673421878771450105074579,0.0309923000776661059217701644317442,0.0478442967764949000419313416680693,0.0754065236980190028109460042637158,0.0837588989688822743624257167460229,0.0923608077581436902887448595580193,0.0933908534766570396068241599254363,0.0963845760513329624026988762321747,0.0892390852211234243553617458072937,0.0871900993886357609784972464796766,0.0713014722354650284202751896073291,0.0678163782617691307275446380946217,-0.00270929216870367162794369318969099,0.0618906696115907160694482035900213,0.0237896279206231962024812769005616,0.000544740948874123502083208233743262,
-0.0135957453898776305199017672551481,0.0310584108761858896116286425392592,0.0477135985928050059378121491784742,0.0751031072470227206968547784804039,0.0841711383764809187500531602692482,0.0918212992870790951604556278871934,0.0940823921544760565702179592935380,0.0955037055201722651129118334229847,0.0903728971400006286456688260550269,0.0856776736756059440620948568488138,0.0734976080466150131494393746858418,0.0638674252141213945515797098428339,0.0336765775709903670393676091694752,0.0621006168883438439009611066340916,0.0456701566631096688761845420488289,0.00678811485293852371294514311400453};
-
-initializer_list<double> lb={0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003877547703,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461123720529,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935585656443,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692531883301132,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122526857723,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938028225420036,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403531555198,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403333344607,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938027679422200,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122127735933,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692532133026079,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513866744923,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461219664102,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513836001130,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935552934972,0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003895390404};
+initializer_list<long double> la={0.00678811485293852371294514311400453L,-0.00254981560166642060794569067228638L,0.00190909917813672352877801175229420L,0.00130038636167335289131149058789750L,-0.00109941397810467496743881733363378L,0.000928810382461165787713007929583067L,-0.000778400292638016970213471818843129L,0.000642913073058191572480402310603516L,-0.000519591764617300727073793902583398L,0.000407121321020350344602879245931763L,-0.000305112838734354656103913206664628L,0.000213868739423092125277034461916634L,0.0000683510931380568197932759579296331L,-0.00155293958635445852534156874682570L,-0.000134342751558613532849595377351067L,-0.0000195156840005830940114810271390690L,
+0.0146883557390946385758642521469263L,0.0155633809846619732157109592485944L,-0.00414132717596763996878861232853917L,-0.00219345482567798016982323843681041L,0.00178743918153624175343071841289058L,-0.00147829989566992546596208722498436L,0.00122248349189014866625509839220072L,-0.00100078933565830982842652679008346L,0.000803884822279940961686355000181995L,-0.000627151628945023668023605338992174L,0.000468554602991504934816921554325165L,-0.000327706017463433279300993976240050L,-0.000104467756262960729780516285484119L,0.00281624066329179723974536344229666L,0.000205533641770747263601026242237198L,0.0000298119715119924600006781741765009L,
+0.0130314887570029239238070779942658L,0.0338360541380276180593656116868798L,0.0237896279206231962024812769005616L,0.00349652217282333762047567566641019L,-0.00261183969113449188384120696449657L,0.00206262230133837007802008817731631L,-0.00165927082379871426000051462803313L,0.00133445175087720853587420167870525L,-0.00105910023568189585536302557340930L,0.000819360728618994732230322769157078L,-0.000608529289730636770195138989976567L,0.000423816016176219956789937505986881L,0.000134461891657840509651754065444609L,-0.00550189263400219470130649699861349L,-0.000265040935248507636968787866946170L,-0.0000383332614651404512547242794488369L,
+0.0133402027362754284067900662363016L,0.0320395557786961649790658295553046L,0.0453551063258562077032403018991998L,0.0373989972041441830203754326368696L,-0.00752716211388616522865856954022408L,0.00435798231923588344843112214714441L,-0.00302623842372018278324271394385074L,0.00223860976756049347672080923707275L,-0.00168603154019661600337826224358255L,0.00125982769450141872687683280008835L,-0.000913650835738432921668043535352149L,0.000625934326460294421810833241733622L,0.000194986345721210110687336877989096L,0.0678462253281563804520834767661078L,-0.000387087528108609216096437675937933L,-0.0000553795862795328163738964832596964L,
+0.0137527040949456381585719692773963L,0.0304689428780194995010284424119904L,0.0490485387199112662446557436788485L,0.0814547479489546900093434676951639L,0.0422891298487506345473280197575900L,-0.00813602844568463378031886725894453L,0.00453707368665636325875087328546242L,-0.00304264485970265102036782781614618L,0.00217120095070617941088324752289254L,-0.00156962068732266188109902536961831L,0.00111414665170165347439732078861472L,-0.000752443887085733211963936880960639L,-0.000230806350741480777897190755212045L,0.0593603918070741529829473498398750L,0.000460929012640643666572498339346957L,0.0000653498025627462459581939919122352L,
+0.0134381190018423601612728088869929L,0.0316307469463899425607317444310215L,0.0465043796221450675754501548802689L,0.0712277617588559187531155126205067L,0.0921151518921634601747533085146769L,0.0456508537612308972166909169923050L,-0.00844642793523074838713993385383526L,0.00454380119920973210288173064487636L,-0.00293743652117923594369543773037534L,0.00201131394852731722720980289781172L,-0.00138126417498597858451122992075628L,0.000913338905274806437438626010877776L,0.000274062032275837566195147338256161L,0.0642830051583429101538245285291243L,-0.000551919591017902593455885724942517L,-0.0000772613934738410359920452470569326L,
+0.0136877916707669093796072977755514L,0.0307250535496773673535467999086984L,0.0484126854179133761310679478949778L,0.0771876047046273585479673839730614L,0.0805272007369102555810475990728894L,0.0994428614738752770173381402428347L,0.0473626526137671240713491808020708L,-0.00844803342103768353509484825593283L,0.00437957742267448243151600841104754L,-0.00271671446709042054123135194433941L,0.00176767465118347190532670583864947L,-0.00113163758564593222063565130415360L,-0.000328859657486953683278381006855350L,0.0608634670250274359810760616176631L,0.000670277294016365106867027648281658L,0.0000921436520028463808704116130765519L,
+0.0134840860538742010450198746149325L,0.0314556216268109001147002995040442L,0.0469089785472300272980955261528415L,0.0730303197571048941354241594350898L,0.0872949741645916896358873914595194L,0.0869221300997873120018658255735624L,0.103173338648571931677793209860074L,0.0473626526137671240713491808020708L,-0.00814115395141348258395630625822473L,0.00405105896059101351360844044229058L,-0.00238961029633899250721651869932213L,0.00145101860273950004516207947834509L,0.000401708419646579077875118588490492L,0.0634461232134128682468737924001618L,-0.000833429576666983726105394093854658L,-0.000111561964889861953717011547542351L,
+0.0136534910993508884618823314750660L,0.0308526999370481088652267711589327L,0.0481311754322642949984184395260656L,0.0761792585832743446252620951944955L,0.0825669457489739518674462366173683L,0.0942391440436410303770772717149853L,0.0901815040283245160398166309592652L,0.103171733162764996529838295457977L,0.0456508537612308972166909169923050L,-0.00753689219466219108009726899949692L,0.00357023264943244728763535265323259L,-0.00196851953057597412758638743311610L,-0.000503984977065996129309825933832687L,0.0614011467224921295887995150851304L,0.00107487621910132482951239892085417L,0.000138110704034687264617477341016161L,
+0.0135108799033143011799320922360968L,0.0313575683200654272093191092524009L,0.0471183268286057487383900554617762L,0.0736838477565867125663535444851246L,0.0861478803848239309757550648847983L,0.0891305065717556150224985864617174L,0.0977679500872368991630661894202877L,0.0901882315408778848839474883186791L,0.0994377359681464282137007012435545L,0.0422891298487506345473280197575900L,-0.00665675354066632396859260242142458L,0.00295409382069278304329079125613317L,0.000657819091304446930393476085198443L,0.0630669295148526692382020779769688L,-0.00146928287866487383969318987772537L,-0.000176474389068590732681683049387217L,
+0.0136316092921565802422641827112687L,0.0309317756236027363207345816191998L,0.0479663433693550016210589914770610L,0.0757116452440267989624189088090914L,0.0833184320029998503677792067150916L,0.0929877390626584104367600962281925L,0.0924866954599737546659775523670688L,0.0977515436512544309259410755479923L,0.0869437252032259109849507118374656L,0.0921054218113874343233146090554041L,0.0373989972041441830203754326368696L,-0.00553173970038944442584533567009958L,-0.000912793809372218547643911058115780L,0.0616885513013066416044273078542746L,0.00222414951539018470172225190192333L,0.000236026969601619019100219991707471L,
+0.0135296349036562863191162942201955L,0.0312904546821617165141440676077688L,0.0472556577169880921728028129867975L,0.0740466661773180896227734476220056L,0.0855995373963959978740743695689147L,0.0899635050040873503460093591141703L,0.0964455266917309385424293315073437L,0.0925195872688501219803829673392555L,0.0941859356858218591189075637583719L,0.0805687246460556153515767050519785L,0.0814379117727585345112376205942748L,0.0311572428138834680131190705480041L,0.00140674278045478759427331892975439L,0.0628342944281682934073314379887084L,-0.00420088450714280999606686330035426L,-0.000338333283686824424560906113468200L,
+0.0135464177343650549658896080538326L,0.0312312297255869071612024347826730L,0.0473737221994756451413615275588859L,0.0743294398052968611059339437194141L,0.0852054113264462927626796448541722L,0.0904978227001818534716954789844280L,0.0957260945631925579711248883942250L,0.0935028217356440994764432632119408L,0.0927800074181317198993439212095943L,0.0827908205159650273412253211022894L,0.0769914492339663462105741037105497L,0.0594982449644751387864927776537115L,0.0155633809846619732157109592485944L,0.0626421916452303693055391350722483L,0.0517205830172140323737511661296623L,-0.00111212603321759114997396591891728L,
+0.0139145629895638718504511923414773L,0.0297200191888691588371485995674345L,0.0517801403483892024010294171014774L,-0.00663991736447016847048675532053550L,0.00400953505144565374307933446320152L,-0.00288422816336006468552572977376197L,0.00220571795868412616231539426488608L,-0.00172022146419669039973096990320212L,0.00133820251837444408737247487043966L,-0.00102127769889472877941833005373477L,0.000751328230970276417977417651733669L,-0.000519808800401357381093296892700162L,-0.000163692712837770082722149110579910L,0.0311572428138834680131190705480041L,0.000323598124258300232159740814325638L,0.0000465948022207611067739920078135380L,
+0.0136145629673421878771450105074579L,0.0309923000776661059217701644317442L,0.0478442967764949000419313416680693L,0.0754065236980190028109460042637158L,0.0837588989688822743624257167460229L,0.0923608077581436902887448595580193L,0.0933908534766570396068241599254363L,0.0963845760513329624026988762321747L,0.0892390852211234243553617458072937L,0.0871900993886357609784972464796766L,0.0713014722354650284202751896073291L,0.0678163782617691307275446380946217L,-0.00270929216870367162794369318969099L,0.0618906696115907160694482035900213L,0.0237896279206231962024812769005616L,0.000544740948874123502083208233743262L,
+0.0135957453898776305199017672551481L,0.0310584108761858896116286425392592L,0.0477135985928050059378121491784742L,0.0751031072470227206968547784804039L,0.0841711383764809187500531602692482L,0.0918212992870790951604556278871934L,0.0940823921544760565702179592935380L,0.0955037055201722651129118334229847L,0.0903728971400006286456688260550269L,0.0856776736756059440620948568488138L,0.0734976080466150131494393746858418L,0.0638674252141213945515797098428339L,0.0336765775709903670393676091694752L,0.0621006168883438439009611066340916L,0.0456701566631096688761845420488289L,0.00678811485293852371294514311400453L};
+
+initializer_list<long double> lb={0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003877547703L,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461123720529L,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935585656443L,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692531883301132L,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122526857723L,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938028225420036L,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403531555198L,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403333344607L,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938027679422200L,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122127735933L,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692532133026079L,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513866744923L,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461219664102L,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513836001130L,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935552934972L,0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003895390404L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
diff --git a/SymplecticRK/sage/generated_coeffs_co.hpp b/SymplecticRK/sage/generated_coeffs_co.hpp
index 3361e1f..d01df97 100644
--- a/SymplecticRK/sage/generated_coeffs_co.hpp
+++ b/SymplecticRK/sage/generated_coeffs_co.hpp
@@ -90,91 +90,91 @@ copy(lc.begin(),lc.end(),c);
 }
 template<> inline void extrapcoeffs<2,long double>(long double* c)
 {
-initializer_list<double> lc={-1.44337567297406441127287195125489,2.65470053837925152901829756100391,-1.76853598869462141624860782523333,2.50218995346906875953341290652353};
+initializer_list<long double> lc={-1.44337567297406441127287195125489L,2.65470053837925152901829756100391L,-1.76853598869462141624860782523333L,2.50218995346906875953341290652353L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> inline void extrapcoeffs<3,long double>(long double* c)
 {
-initializer_list<double> lc={1.00000000000000000000000000000000,-3.32379000772445013110755923986944,3.43649167310370844258963269989120,1.64959666924148337703585307995648,-4.78568501158667519666133885980416,3.75514084041407928684859596988032,2.94601792213815217620118779490752,-7.74471701776623530154738625169971,5.25791292600037724175496741484224};
+initializer_list<long double> lc={1.00000000000000000000000000000000L,-3.32379000772445013110755923986944L,3.43649167310370844258963269989120L,1.64959666924148337703585307995648L,-4.78568501158667519666133885980416L,3.75514084041407928684859596988032L,2.94601792213815217620118779490752L,-7.74471701776623530154738625169971L,5.25791292600037724175496741484224L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> inline void extrapcoeffs<4,long double>(long double* c)
 {
-initializer_list<double> lc={-0.135307244904688787411431296975496,1.36140068465488733668292376422488,-3.97544968197561526882229403937933,3.81878808642839043193882832768355,-0.537612925375784480135853564851234,3.00404135671062937217916717984556,-6.49890590866445442087731334533293,4.60431971202729624837725199101190,-1.63717031842245700354336803004939,6.84757575688715536726519348367821,-11.9249796863829679117446327133569,7.12227177834886743621767783385215,-4.10029878721799225771340611081784,14.7751596370192998341951206152680,-22.3365646864978729902361776703725,11.9887073780806096349127195892873};
+initializer_list<long double> lc={-0.135307244904688787411431296975496L,1.36140068465488733668292376422488L,-3.97544968197561526882229403937933L,3.81878808642839043193882832768355L,-0.537612925375784480135853564851234L,3.00404135671062937217916717984556L,-6.49890590866445442087731334533293L,4.60431971202729624837725199101190L,-1.63717031842245700354336803004939L,6.84757575688715536726519348367821L,-11.9249796863829679117446327133569L,7.12227177834886743621767783385215L,-4.10029878721799225771340611081784L,14.7751596370192998341951206152680L,-22.3365646864978729902361776703725L,11.9887073780806096349127195892873L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> inline void extrapcoeffs<5,long double>(long double* c)
 {
-initializer_list<double> lc={-12.4080892450490375587308213492748,33.2494963343543122595047165192804,-38.2237939376551451088552478458438,-5.02873063465664557784727417127220,23.4580275600371839895298134079607,-22.9802116869279084515788861808107,61.1304952922655617531320397240784,-69.7821321606709158906772005941420,-11.6080506013676378348468198236619,43.7879095113950800304828916374698,-42.1725807054847527822486163824507,111.473716235233254622573504718593,-126.392162976933262911255515008908,-22.5124628922089691017572401806333,79.9859687144913883505789216338612,-77.0853906901439939750903731632864,202.751332845047950535923907231318,-228.757413485767381207785815917637,-42.1641229898811247987888566088867,145.555909669596589986031494575773,-140.652179469191843700916683271813,368.574355005736335933984903522633,-414.483182984262126760100116786341,-78.0638446566238302686280263411386,264.876374636341610152333990318813};
+initializer_list<long double> lc={-12.4080892450490375587308213492748L,33.2494963343543122595047165192804L,-38.2237939376551451088552478458438L,-5.02873063465664557784727417127220L,23.4580275600371839895298134079607L,-22.9802116869279084515788861808107L,61.1304952922655617531320397240784L,-69.7821321606709158906772005941420L,-11.6080506013676378348468198236619L,43.7879095113950800304828916374698L,-42.1725807054847527822486163824507L,111.473716235233254622573504718593L,-126.392162976933262911255515008908L,-22.5124628922089691017572401806333L,79.9859687144913883505789216338612L,-77.0853906901439939750903731632864L,202.751332845047950535923907231318L,-228.757413485767381207785815917637L,-42.1641229898811247987888566088867L,145.555909669596589986031494575773L,-140.652179469191843700916683271813L,368.574355005736335933984903522633L,-414.483182984262126760100116786341L,-78.0638446566238302686280263411386L,264.876374636341610152333990318813L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> inline void extrapcoeffs<6,long double>(long double* c)
 {
-initializer_list<double> lc={1.49639906743931150170865743165221,-4.95180935208180235143946990968911,8.16737188579422643880960262595151,-7.44012682160895177207402084354309,1.31773061430654815259391059778265,2.44419984904909201649516932059883,3.46885805124527998912589880976624,-10.9780747982168482045249387497191,16.5595161235581040943189567698421,-13.6754887605368487943822582992659,2.90311311209734720820431537689784,2.25641156056538447906452159834394,7.11511835867093589005360090792946,-21.6456349345666900729344518014013,30.2555924942497912188853069793345,-22.3416240113366871629470601435484,3.47355841317324175691484021542290,3.51124117949273710338609959959303,13.5351598873204907206130851821985,-39.6617231803398217698073670078747,51.4704918804032815556367028451887,-33.0427203786641164534802601768582,0.857972597257570309916028931380322,7.12633339478597956084901084518200,24.2342876134922468623845858854074,-68.2986361470160227079104024397649,81.5084716482095788888727615984547,-42.1205642015401486742305911687352,-11.0450057011243979267195579430256,15.9575705136612307359928024704931,40.9593172785713586917120193028690,-110.308373491478239521311464963708,117.679699400637902139903279302536,-37.7198023312642406115052298157596,-46.7864069848232444708783542820675,36.3789798788849947653870930332267};
+initializer_list<long double> lc={1.49639906743931150170865743165221L,-4.95180935208180235143946990968911L,8.16737188579422643880960262595151L,-7.44012682160895177207402084354309L,1.31773061430654815259391059778265L,2.44419984904909201649516932059883L,3.46885805124527998912589880976624L,-10.9780747982168482045249387497191L,16.5595161235581040943189567698421L,-13.6754887605368487943822582992659L,2.90311311209734720820431537689784L,2.25641156056538447906452159834394L,7.11511835867093589005360090792946L,-21.6456349345666900729344518014013L,30.2555924942497912188853069793345L,-22.3416240113366871629470601435484L,3.47355841317324175691484021542290L,3.51124117949273710338609959959303L,13.5351598873204907206130851821985L,-39.6617231803398217698073670078747L,51.4704918804032815556367028451887L,-33.0427203786641164534802601768582L,0.857972597257570309916028931380322L,7.12633339478597956084901084518200L,24.2342876134922468623845858854074L,-68.2986361470160227079104024397649L,81.5084716482095788888727615984547L,-42.1205642015401486742305911687352L,-11.0450057011243979267195579430256L,15.9575705136612307359928024704931L,40.9593172785713586917120193028690L,-110.308373491478239521311464963708L,117.679699400637902139903279302536L,-37.7198023312642406115052298157596L,-46.7864069848232444708783542820675L,36.3789798788849947653870930332267L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> inline void extrapcoeffs<7,long double>(long double* c)
 {
-initializer_list<double> lc={-1.91120187840706148059343153339619,6.65652759190947097926182607655844,-12.7292168648694984662764731379728,18.1176202649195974587105791611953,-17.4616733790926634353730548203877,7.96098671627692504368896267036905,0.392403593091850638318496741609958,-5.19865835727433058441028937337961,17.7863259875997465506681553498387,-32.5093393347882978136644467302933,42.6183498714162914750919707447822,-37.9642372564774438754821752867909,18.1682283161856404297400910069268,-2.37489943225972140043994937826719,-12.6924582123093563087501515401057,42.5222463481699544055616587560432,-74.5182862339952554415153487918320,91.7241851083633573607985030566396,-76.7869482599494432441820403305810,36.4779223930853985430329998272872,-6.36722877294198861104454960548662,-28.8016213917061138053390452891089,94.5845579492985955875880487692287,-159.757941566257764882047123910280,186.855037156516665445560863605916,-148.584647226412484336661254556154,69.0276582947818295702864174410238,-13.0466093395153273856608853441942,-61.8496467489083919740734662853765,199.450073684103533001519499240391,-326.127694831069676842085164319705,365.115860088233912284775986636401,-277.225297295451381351587775194686,124.642877080461840288276012062188,-23.7793975571716263282331655745455,-127.150589513851883135544067747503,403.254742674680672031828264052813,-640.329586138398034934086416724497,688.994905272083876945019711555962,-500.006854822796777795114554277379,214.902196977754856228751627384792,-39.4710270061112237052768425440148,-252.155218350409524792213670733784,787.350624132017907905283699702557,-1216.36742044747276254645881198231,1259.72396109181852482064404550487,-871.096011390937797024743593539612,351.306654629544856924200356477215,-58.5922594641566066942375759823070};
+initializer_list<long double> lc={-1.91120187840706148059343153339619L,6.65652759190947097926182607655844L,-12.7292168648694984662764731379728L,18.1176202649195974587105791611953L,-17.4616733790926634353730548203877L,7.96098671627692504368896267036905L,0.392403593091850638318496741609958L,-5.19865835727433058441028937337961L,17.7863259875997465506681553498387L,-32.5093393347882978136644467302933L,42.6183498714162914750919707447822L,-37.9642372564774438754821752867909L,18.1682283161856404297400910069268L,-2.37489943225972140043994937826719L,-12.6924582123093563087501515401057L,42.5222463481699544055616587560432L,-74.5182862339952554415153487918320L,91.7241851083633573607985030566396L,-76.7869482599494432441820403305810L,36.4779223930853985430329998272872L,-6.36722877294198861104454960548662L,-28.8016213917061138053390452891089L,94.5845579492985955875880487692287L,-159.757941566257764882047123910280L,186.855037156516665445560863605916L,-148.584647226412484336661254556154L,69.0276582947818295702864174410238L,-13.0466093395153273856608853441942L,-61.8496467489083919740734662853765L,199.450073684103533001519499240391L,-326.127694831069676842085164319705L,365.115860088233912284775986636401L,-277.225297295451381351587775194686L,124.642877080461840288276012062188L,-23.7793975571716263282331655745455L,-127.150589513851883135544067747503L,403.254742674680672031828264052813L,-640.329586138398034934086416724497L,688.994905272083876945019711555962L,-500.006854822796777795114554277379L,214.902196977754856228751627384792L,-39.4710270061112237052768425440148L,-252.155218350409524792213670733784L,787.350624132017907905283699702557L,-1216.36742044747276254645881198231L,1259.72396109181852482064404550487L,-871.096011390937797024743593539612L,351.306654629544856924200356477215L,-58.5922594641566066942375759823070L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> inline void extrapcoeffs<8,long double>(long double* c)
 {
-initializer_list<double> lc={1.89420696335189271657828654653861,-6.74595407993036488209951062870800,13.6174313879350418040936549908116,-22.1325531490283795436868444953001,30.1354696018019658502034889756472,-30.0535602846122435940536115165028,16.7813564646508372455003455249718,-2.47654183241751771237758983174295,5.53044980216853652419590406662562,-19.7123802550751263836487899296228,39.4552306841891380568621187216173,-61.8202807478371281601911743699649,77.9162549778229211076493331916534,-71.9170865716099859533199335243895,40.5605506613702209443694904285352,-9.49268636734022096857912912214024,15.3636588680378007070923695084634,-54.1230023330262407141346911644396,105.511418085609196011982509718827,-157.829742274905696136850531422093,186.583239525287085530367282552769,-162.508358369306670570515474868443,90.6500150975412720744334356732129,-23.2936433611634987137940144645674,40.0312626350487827169113069068526,-138.963091717749303955679340327395,263.310898325098970109714813246196,-377.485157225711351710788662668533,423.961919653899505365296310308562,-353.320799779991340818918670597229,194.472041372165191939031491810626,-51.7366189890014269411866892230046,98.3082610019279501589859959267112,-336.410045088019414880440286648268,621.002616500503204411870861288617,-858.383104949994456155016957800032,925.006181742545133267956989671112,-744.496924143510302187173151808743,404.381959444669130815027763903453,-109.188285177905293839097960112073,229.685256060390168995854989551005,-775.805079807910415691813090436842,1399.49183211132587677399424419371,-1875.32610048063117680663992102973,1953.09767698607603208624092346102,-1527.59865050750421049019808417344,819.073480823665014023919769799621,-222.430881404536315490773459538561,515.019542667772258585894866718456,-1719.44701491993249769633859315472,3039.71234666054242403153643714144,-3966.04428445512004427301545883963,4012.90466143223379746541841606209,-3062.61683487494962501114632454293,1621.13250704375359254959145124682,-440.496988744971312113260400252528,1116.20019081785447632171833140071,-3688.02824601219497787439701475620,6404.57927458974619584256433769973,-8163.93419172268862194770757436753,8055.10446748427746148256560561915,-6014.38469250793627714333948880182,3141.79531687395626580896621586568,-851.185828494625477369134849091671};
+initializer_list<long double> lc={1.89420696335189271657828654653861L,-6.74595407993036488209951062870800L,13.6174313879350418040936549908116L,-22.1325531490283795436868444953001L,30.1354696018019658502034889756472L,-30.0535602846122435940536115165028L,16.7813564646508372455003455249718L,-2.47654183241751771237758983174295L,5.53044980216853652419590406662562L,-19.7123802550751263836487899296228L,39.4552306841891380568621187216173L,-61.8202807478371281601911743699649L,77.9162549778229211076493331916534L,-71.9170865716099859533199335243895L,40.5605506613702209443694904285352L,-9.49268636734022096857912912214024L,15.3636588680378007070923695084634L,-54.1230023330262407141346911644396L,105.511418085609196011982509718827L,-157.829742274905696136850531422093L,186.583239525287085530367282552769L,-162.508358369306670570515474868443L,90.6500150975412720744334356732129L,-23.2936433611634987137940144645674L,40.0312626350487827169113069068526L,-138.963091717749303955679340327395L,263.310898325098970109714813246196L,-377.485157225711351710788662668533L,423.961919653899505365296310308562L,-353.320799779991340818918670597229L,194.472041372165191939031491810626L,-51.7366189890014269411866892230046L,98.3082610019279501589859959267112L,-336.410045088019414880440286648268L,621.002616500503204411870861288617L,-858.383104949994456155016957800032L,925.006181742545133267956989671112L,-744.496924143510302187173151808743L,404.381959444669130815027763903453L,-109.188285177905293839097960112073L,229.685256060390168995854989551005L,-775.805079807910415691813090436842L,1399.49183211132587677399424419371L,-1875.32610048063117680663992102973L,1953.09767698607603208624092346102L,-1527.59865050750421049019808417344L,819.073480823665014023919769799621L,-222.430881404536315490773459538561L,515.019542667772258585894866718456L,-1719.44701491993249769633859315472L,3039.71234666054242403153643714144L,-3966.04428445512004427301545883963L,4012.90466143223379746541841606209L,-3062.61683487494962501114632454293L,1621.13250704375359254959145124682L,-440.496988744971312113260400252528L,1116.20019081785447632171833140071L,-3688.02824601219497787439701475620L,6404.57927458974619584256433769973L,-8163.93419172268862194770757436753L,8055.10446748427746148256560561915L,-6014.38469250793627714333948880182L,3141.79531687395626580896621586568L,-851.185828494625477369134849091671L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> inline void extrapcoeffs<9,long double>(long double* c)
 {
-initializer_list<double> lc={-1122.37853337868513288907107645526,3472.68754317920871035372398717132,-5504.45857587937396403055263349257,6520.15683125366459336103590739386,-6431.97481547377991062193825459155,-3953.50621672641479866707490786092,2206.96334711661149238613812925524,-660.403803910164190253513614032616,5473.93014369917938731633467451105,-1914.77786609897348069500567461242,5932.53450524017251620404172908804,-9428.91945106486055957473113593322,11216.0748505927621176994465520385,-11125.8798997027027580283018141203,-6912.00810877488854135449086463154,3871.70671922256012031694091415844,-1162.48089933961936452638348509672,9524.26619652708966338037876921974,-3274.83030100604689645901078300630,10163.8796248716098095955460530782,-16207.6950809326522794995892264033,19376.3029152507964379268457398588,-19340.6549967110950566737508912756,-12151.0136568717757634013558720536,6829.03899733875340451801297164452,-2055.08098274567793790800281634289,16660.4029888071800668455178466705,-5619.52492913534138380828473772158,17477.6969539292316746784233927286,-27980.8781111812526736951798623411,33643.7420889839618624080658745483,-33812.4379163001052065040276913372,-21491.7442429287831075796020230558,12118.7108868263514132987279902107,-3654.13234967576392736454480958414,29318.8339235766620363214791343809,-9683.02778741722783449462849303891,30191.0984813395516843831379764801,-48555.8620492776077813494786993552,58758.7621201311605941361365818662,-59488.5400631806917893939626024530,-38262.8625850438147421862613112536,21645.7195289864625526298524574780,-6538.68878769950693201587119162956,51933.6175770610834731735549177893,-16768.2775095437257779376737642712,52433.0530607269595290529903076262,-84762.9436219882766539763101371846,103294.652424145919875800996872518,-105386.284585534603977922480209642,-68592.1313721299725292170536960241,38924.8891361274873612267835585634,-11778.2331294643809532057729952861,92635.4588314248338888971540701060,-29207.2223989125978328169323534163,91624.2219838624851900101931442980,-148960.586247857636814125942941953,182886.590426046587476998603317927,-188071.357300443331412811009728509,-123838.091089782143371756533222059,70484.0237189235988262950232282445,-21360.8747190655853896722477930341,166443.455185077615785348597621765,-51210.2317156049329952437533915722,161218.510225010765418006721443706,-263703.274242517254966817271494801,326284.408454062978778420779941379,-338210.338806811977476895279565946,-225193.491246412638640223756123770,128522.371261141512706899001074278,-39004.8633662451587451551833800248,301297.051273118691583011497017185,-90447.2628019009693795394503462075,285824.206502260230485150510192373,-470505.856564211773755570665568190,586777.442858425078030572164964192,-612990.305674500963362393216828098,-412443.878277218098880475480310091,235971.359584509805484130827900914,-71703.7225379283423225298559933560,549518.144993898378325377833743447};
+initializer_list<long double> lc={-1122.37853337868513288907107645526L,3472.68754317920871035372398717132L,-5504.45857587937396403055263349257L,6520.15683125366459336103590739386L,-6431.97481547377991062193825459155L,-3953.50621672641479866707490786092L,2206.96334711661149238613812925524L,-660.403803910164190253513614032616L,5473.93014369917938731633467451105L,-1914.77786609897348069500567461242L,5932.53450524017251620404172908804L,-9428.91945106486055957473113593322L,11216.0748505927621176994465520385L,-11125.8798997027027580283018141203L,-6912.00810877488854135449086463154L,3871.70671922256012031694091415844L,-1162.48089933961936452638348509672L,9524.26619652708966338037876921974L,-3274.83030100604689645901078300630L,10163.8796248716098095955460530782L,-16207.6950809326522794995892264033L,19376.3029152507964379268457398588L,-19340.6549967110950566737508912756L,-12151.0136568717757634013558720536L,6829.03899733875340451801297164452L,-2055.08098274567793790800281634289L,16660.4029888071800668455178466705L,-5619.52492913534138380828473772158L,17477.6969539292316746784233927286L,-27980.8781111812526736951798623411L,33643.7420889839618624080658745483L,-33812.4379163001052065040276913372L,-21491.7442429287831075796020230558L,12118.7108868263514132987279902107L,-3654.13234967576392736454480958414L,29318.8339235766620363214791343809L,-9683.02778741722783449462849303891L,30191.0984813395516843831379764801L,-48555.8620492776077813494786993552L,58758.7621201311605941361365818662L,-59488.5400631806917893939626024530L,-38262.8625850438147421862613112536L,21645.7195289864625526298524574780L,-6538.68878769950693201587119162956L,51933.6175770610834731735549177893L,-16768.2775095437257779376737642712L,52433.0530607269595290529903076262L,-84762.9436219882766539763101371846L,103294.652424145919875800996872518L,-105386.284585534603977922480209642L,-68592.1313721299725292170536960241L,38924.8891361274873612267835585634L,-11778.2331294643809532057729952861L,92635.4588314248338888971540701060L,-29207.2223989125978328169323534163L,91624.2219838624851900101931442980L,-148960.586247857636814125942941953L,182886.590426046587476998603317927L,-188071.357300443331412811009728509L,-123838.091089782143371756533222059L,70484.0237189235988262950232282445L,-21360.8747190655853896722477930341L,166443.455185077615785348597621765L,-51210.2317156049329952437533915722L,161218.510225010765418006721443706L,-263703.274242517254966817271494801L,326284.408454062978778420779941379L,-338210.338806811977476895279565946L,-225193.491246412638640223756123770L,128522.371261141512706899001074278L,-39004.8633662451587451551833800248L,301297.051273118691583011497017185L,-90447.2628019009693795394503462075L,285824.206502260230485150510192373L,-470505.856564211773755570665568190L,586777.442858425078030572164964192L,-612990.305674500963362393216828098L,-412443.878277218098880475480310091L,235971.359584509805484130827900914L,-71703.7225379283423225298559933560L,549518.144993898378325377833743447L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> inline void extrapcoeffs<10,long double>(long double* c)
 {
-initializer_list<double> lc={0.308663498961631026031881865242030,-1.29519460573904943059833301204681,3.36383134544788852438529409244359,-7.46704170044427746933960115448499,15.1437435756946248189634635449127,-28.1149391887591556339007816076186,44.7273120243530286916403110123634,-51.5468873805166148961187150677284,34.8175242682022478269417410442943,-8.92396510145890931804424272341933,-1.52106932316001656932644627222569,4.14309699845371759042237492965208,-3.67385821192568772370895218239498,-5.25448732421518124189362989691954,28.9574203199844939428757685333244,-69.7158024026765904996763945666390,113.808925824721959721824339102807,-125.650392502351261417690115156468,84.3362434533681409954913797456249,-24.9169449878014075117731344672385,-5.26633494681142659471648119129946,14.0368589575309157022481604922877,-11.5048220160715032307716640923302,-19.1837058142913483836687343384099,92.6464892649257350052048396786868,-203.805901381860080905538160396722,304.096737468838014740891355954222,-313.084697415744701649690745096602,204.840965825993155812373419194243,-62.4290389158604040865189955149818,-8.46011269871093486352194047763295,16.4702023861949795207766402014867,13.9265076841727536915765470666095,-123.397194570246125519243170882719,335.075694204977653061339312382972,-610.239318307469666369935085933951,814.289832541277426685848972431508,-782.039663125601240519034248168020,497.222850089700272049617700860058,-152.585493914559652773335371060707,2.85784472550783551917547849417534,-43.8753696339561295210592034975556,200.987582635969955580020905860345,-554.782865357743737530636623746483,1120.85134677455923251668003085761,-1755.45047972129367083603615962384,2129.77846410861009094504171277803,-1928.32159817453391748064265601582,1194.24411089397690238278884452828,-366.075644610117982120052424655885,77.7416181475056337752960580482337,-350.002291010293233944344670884804,940.823596305963446328250098587337,-1977.78018208407358392101455031970,3401.01353213078732973952488829011,-4787.03644976452766628704488351170,5394.40129008342807746359827290781,-4658.88336489919222727529221280239,2821.43834788203439830286633420178,-861.535950370525629430105676132539,360.492913314043511040813650075515,-1423.92811399765419831489307341748,3299.03903312874653623889348398743,-6112.10164140015418317892897524908,9519.30549545402670297476096790194,-12416.5342876240907789621454443256,13224.3365873405392224373807179247,-11003.2836784145556791440616748530,6540.99445560036367116052969209892,-1988.16433762081553280799483059560,1235.84509505230268338200809262116,-4630.76915849990167661402604148850,9979.27495264787796926807251645398,-17168.6773711309567708413919324494,25013.4235244642024188568402915594,-30849.4547947818774616981834599881,31456.6605104800963565067233180769,-25411.2563894491269343951676599564,14876.2787363621865328715632402732,-4501.18644684681692197554071357729,3665.76412838323097308358700204842,-13337.6168579216587115105569166796,27506.1866443475331078820192421684,-45044.5026382851341258526643183340,62547.2188502458861947875407496028,-73924.9286459727980822982497866117,72845.6222724125375283222912651760,-57467.2199843386587043422968211126,33218.1637380880397557633187350058,-10008.5626471046149353832741235895,9947.44870156147099682116899706432,-35502.9301050862728476065450171737,71045.7171227982398663692077122774,-112274.005155216469195745764552298,150333.185554406292572119478246475,-171852.487296796822008684905431833,164767.956596840185044710217266846,-127498.319898787130754741663939841,72920.0349227832179139832007069631,-21886.4866025216127598478375161925};
+initializer_list<long double> lc={0.308663498961631026031881865242030L,-1.29519460573904943059833301204681L,3.36383134544788852438529409244359L,-7.46704170044427746933960115448499L,15.1437435756946248189634635449127L,-28.1149391887591556339007816076186L,44.7273120243530286916403110123634L,-51.5468873805166148961187150677284L,34.8175242682022478269417410442943L,-8.92396510145890931804424272341933L,-1.52106932316001656932644627222569L,4.14309699845371759042237492965208L,-3.67385821192568772370895218239498L,-5.25448732421518124189362989691954L,28.9574203199844939428757685333244L,-69.7158024026765904996763945666390L,113.808925824721959721824339102807L,-125.650392502351261417690115156468L,84.3362434533681409954913797456249L,-24.9169449878014075117731344672385L,-5.26633494681142659471648119129946L,14.0368589575309157022481604922877L,-11.5048220160715032307716640923302L,-19.1837058142913483836687343384099L,92.6464892649257350052048396786868L,-203.805901381860080905538160396722L,304.096737468838014740891355954222L,-313.084697415744701649690745096602L,204.840965825993155812373419194243L,-62.4290389158604040865189955149818L,-8.46011269871093486352194047763295L,16.4702023861949795207766402014867L,13.9265076841727536915765470666095L,-123.397194570246125519243170882719L,335.075694204977653061339312382972L,-610.239318307469666369935085933951L,814.289832541277426685848972431508L,-782.039663125601240519034248168020L,497.222850089700272049617700860058L,-152.585493914559652773335371060707L,2.85784472550783551917547849417534L,-43.8753696339561295210592034975556L,200.987582635969955580020905860345L,-554.782865357743737530636623746483L,1120.85134677455923251668003085761L,-1755.45047972129367083603615962384L,2129.77846410861009094504171277803L,-1928.32159817453391748064265601582L,1194.24411089397690238278884452828L,-366.075644610117982120052424655885L,77.7416181475056337752960580482337L,-350.002291010293233944344670884804L,940.823596305963446328250098587337L,-1977.78018208407358392101455031970L,3401.01353213078732973952488829011L,-4787.03644976452766628704488351170L,5394.40129008342807746359827290781L,-4658.88336489919222727529221280239L,2821.43834788203439830286633420178L,-861.535950370525629430105676132539L,360.492913314043511040813650075515L,-1423.92811399765419831489307341748L,3299.03903312874653623889348398743L,-6112.10164140015418317892897524908L,9519.30549545402670297476096790194L,-12416.5342876240907789621454443256L,13224.3365873405392224373807179247L,-11003.2836784145556791440616748530L,6540.99445560036367116052969209892L,-1988.16433762081553280799483059560L,1235.84509505230268338200809262116L,-4630.76915849990167661402604148850L,9979.27495264787796926807251645398L,-17168.6773711309567708413919324494L,25013.4235244642024188568402915594L,-30849.4547947818774616981834599881L,31456.6605104800963565067233180769L,-25411.2563894491269343951676599564L,14876.2787363621865328715632402732L,-4501.18644684681692197554071357729L,3665.76412838323097308358700204842L,-13337.6168579216587115105569166796L,27506.1866443475331078820192421684L,-45044.5026382851341258526643183340L,62547.2188502458861947875407496028L,-73924.9286459727980822982497866117L,72845.6222724125375283222912651760L,-57467.2199843386587043422968211126L,33218.1637380880397557633187350058L,-10008.5626471046149353832741235895L,9947.44870156147099682116899706432L,-35502.9301050862728476065450171737L,71045.7171227982398663692077122774L,-112274.005155216469195745764552298L,150333.185554406292572119478246475L,-171852.487296796822008684905431833L,164767.956596840185044710217266846L,-127498.319898787130754741663939841L,72920.0349227832179139832007069631L,-21886.4866025216127598478375161925L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> inline void extrapcoeffs<11,long double>(long double* c)
 {
-initializer_list<double> lc={1.28345332952758638472288061054870,-4.27998592189246821868579703423822,7.59540310132982248202445534335490,-9.98511988158930735688704814103022,9.64315306442921509382222921834109,-3.73259896711843755102743414595024,-11.3877379351042301783325295897493,35.3405245192025745190283676696196,-51.3824872960459634688807488599685,38.8781588538839926989489633801774,-10.9618771956958129011353074516667,9.46855400714185898488325952178676,-32.0195893684608126926094452117956,58.5099602935733868374666854736711,-81.5126344764751339253072628503265,90.8904633696954667667601458004572,-73.4833239414790400405967856236068,20.1397550093682996091618900017761,55.0922277423269191366197018516891,-102.260776727703517546480457592070,81.8653510460428483581539615826271,-26.1790420341875388281364518924191,34.3884653395326647045295826763132,-115.615894779967058778804072514129,208.794768527332050442446429740071,-285.272151778686369266917924027362,309.624966820755386297855761414213,-245.293015237485983980680960011360,82.7160656156003978780546512910213,117.368627411720552656430239515185,-229.778103816755236050049277015067,184.536351625756306150145103173708,-61.1257417957347417038799491557245,98.1642087044809666153011777142133,-326.845019291852074844546988125066,578.987007651069395956124102015683,-765.920285624104942237323690568176,789.287057294551770149674884561639,-570.306499382819969209081268434451,127.375115412781210001811354097518,350.218080115231155203588280168738,-578.398965784749717693957375289188,446.040533667407034955589715059274,-148.340168050881728306592539339857,242.387267698402354685457149516223,-797.053187627089960370490093348008,1377.14428637131384619061017580381,-1744.67226072033933326779021593049,1664.14867571715485488836209363398,-999.371664152259082336553294386942,-109.975135997096613691374995900275,1158.48291481260314480300479308183,-1544.72402364900957359043058313676,1123.75508258960195699197431385103,-369.910829782762456155496950710708,534.715125331020604690216436688136,-1730.14242784561768581350336343365,2891.43487107758038662995214518402,-3443.39577960129826069157639209579,2883.59356477478899424394870243484,-1043.71434622715769798887599931306,-1559.52460031363836346566813882216,3697.85201817331709029131398747340,-4167.09252459750024422874650199143,2865.78391916326923340945844525493,-929.331967017572789898170185848028,1059.99977057688228527850175406768,-3352.02194887872848328960360255806,5329.35525135131998837772759463773,-5715.85605146951640499154079492212,3548.72722732407029681302069507190,1197.39105196781147592684027661500,-6993.67822250038438685361991863175,11043.3416496017877201971492641257,-11054.3183018267922725574060781839,7255.09916049836714746123437452386,-2317.88548181722775502590137011911,1852.21199940557377997990283674517,-5637.00197159849696870547564971453,8173.34866548751666571237586307839,-6841.49639920781736675770050122247,12.1626382976842242870652030827970,11586.7893354497751508898874865886,-23934.1825885079552404892451955567,30966.1760813318737265521894653051,-28538.9966541228482175531139894932,18053.7852301434253230723709446891,-5692.66002711195394365424810140268,2648.83579595469107522468053115144,-7388.81487939947103075880702225140,8206.57220819326676144272419076572,-135.922725682346782672537935672878,-19094.4939848027236223578348313847,46264.4698260124908354192614131596,-71561.7634813680661992011453304126,82345.1278495799800101519031708294,-71555.6590941751967093944774337891,43991.0849982812081634601762105666,-13719.3140295823967081982997874904,2170.03577909641615268507118864615,-3628.42589440264810496155405655121,-5845.91594461132273896165459115946,34807.8356074572550234074719325037,-85141.0796168832689768154707794604,146658.654494340123776337488942887,-196651.578540822095145685223960773,209626.444936447962791734361911676,-174478.586821245263019506660357624,104902.908767890774274461504876178,-32420.1813325788608478130673345233,-3791.10948404625746765730409545708,21198.8863785728157157296974666778,-66862.4933941434517056692975492409,153553.395660651827239907018023886,-278611.852098453149398535833869695,414080.236040913445592530257469735,-509452.248331011747473182990506778,514808.611701425689455612479338871,-414803.483334919804313513607250947,245049.163905091856060132231617549,-75169.0046370535616281162613019829};
+initializer_list<long double> lc={1.28345332952758638472288061054870L,-4.27998592189246821868579703423822L,7.59540310132982248202445534335490L,-9.98511988158930735688704814103022L,9.64315306442921509382222921834109L,-3.73259896711843755102743414595024L,-11.3877379351042301783325295897493L,35.3405245192025745190283676696196L,-51.3824872960459634688807488599685L,38.8781588538839926989489633801774L,-10.9618771956958129011353074516667L,9.46855400714185898488325952178676L,-32.0195893684608126926094452117956L,58.5099602935733868374666854736711L,-81.5126344764751339253072628503265L,90.8904633696954667667601458004572L,-73.4833239414790400405967856236068L,20.1397550093682996091618900017761L,55.0922277423269191366197018516891L,-102.260776727703517546480457592070L,81.8653510460428483581539615826271L,-26.1790420341875388281364518924191L,34.3884653395326647045295826763132L,-115.615894779967058778804072514129L,208.794768527332050442446429740071L,-285.272151778686369266917924027362L,309.624966820755386297855761414213L,-245.293015237485983980680960011360L,82.7160656156003978780546512910213L,117.368627411720552656430239515185L,-229.778103816755236050049277015067L,184.536351625756306150145103173708L,-61.1257417957347417038799491557245L,98.1642087044809666153011777142133L,-326.845019291852074844546988125066L,578.987007651069395956124102015683L,-765.920285624104942237323690568176L,789.287057294551770149674884561639L,-570.306499382819969209081268434451L,127.375115412781210001811354097518L,350.218080115231155203588280168738L,-578.398965784749717693957375289188L,446.040533667407034955589715059274L,-148.340168050881728306592539339857L,242.387267698402354685457149516223L,-797.053187627089960370490093348008L,1377.14428637131384619061017580381L,-1744.67226072033933326779021593049L,1664.14867571715485488836209363398L,-999.371664152259082336553294386942L,-109.975135997096613691374995900275L,1158.48291481260314480300479308183L,-1544.72402364900957359043058313676L,1123.75508258960195699197431385103L,-369.910829782762456155496950710708L,534.715125331020604690216436688136L,-1730.14242784561768581350336343365L,2891.43487107758038662995214518402L,-3443.39577960129826069157639209579L,2883.59356477478899424394870243484L,-1043.71434622715769798887599931306L,-1559.52460031363836346566813882216L,3697.85201817331709029131398747340L,-4167.09252459750024422874650199143L,2865.78391916326923340945844525493L,-929.331967017572789898170185848028L,1059.99977057688228527850175406768L,-3352.02194887872848328960360255806L,5329.35525135131998837772759463773L,-5715.85605146951640499154079492212L,3548.72722732407029681302069507190L,1197.39105196781147592684027661500L,-6993.67822250038438685361991863175L,11043.3416496017877201971492641257L,-11054.3183018267922725574060781839L,7255.09916049836714746123437452386L,-2317.88548181722775502590137011911L,1852.21199940557377997990283674517L,-5637.00197159849696870547564971453L,8173.34866548751666571237586307839L,-6841.49639920781736675770050122247L,12.1626382976842242870652030827970L,11586.7893354497751508898874865886L,-23934.1825885079552404892451955567L,30966.1760813318737265521894653051L,-28538.9966541228482175531139894932L,18053.7852301434253230723709446891L,-5692.66002711195394365424810140268L,2648.83579595469107522468053115144L,-7388.81487939947103075880702225140L,8206.57220819326676144272419076572L,-135.922725682346782672537935672878L,-19094.4939848027236223578348313847L,46264.4698260124908354192614131596L,-71561.7634813680661992011453304126L,82345.1278495799800101519031708294L,-71555.6590941751967093944774337891L,43991.0849982812081634601762105666L,-13719.3140295823967081982997874904L,2170.03577909641615268507118864615L,-3628.42589440264810496155405655121L,-5845.91594461132273896165459115946L,34807.8356074572550234074719325037L,-85141.0796168832689768154707794604L,146658.654494340123776337488942887L,-196651.578540822095145685223960773L,209626.444936447962791734361911676L,-174478.586821245263019506660357624L,104902.908767890774274461504876178L,-32420.1813325788608478130673345233L,-3791.10948404625746765730409545708L,21198.8863785728157157296974666778L,-66862.4933941434517056692975492409L,153553.395660651827239907018023886L,-278611.852098453149398535833869695L,414080.236040913445592530257469735L,-509452.248331011747473182990506778L,514808.611701425689455612479338871L,-414803.483334919804313513607250947L,245049.163905091856060132231617549L,-75169.0046370535616281162613019829L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> inline void extrapcoeffs<12,long double>(long double* c)
 {
-initializer_list<double> lc={15089.6077411712637269975142488895,-53536.9962448724198284308071615527,104840.018462781547348036721819706,-159648.115779110749515600044623695,206416.266092993910682466902354441,240636.812280141031376886408547024,-221694.604512852050523499542549964,181871.372682065601862679548023660,-128190.789961230705865007889834257,70468.6334160615646654576884379590,-20985.8179728091629386479821537013,-235265.376984656954350963862383055,28230.9710188627028076798864952847,-98874.2923646512853511486590311750,190492.731233182078104052256756147,-285935.713149721807389532238094851,365799.749635401750401805738605998,421386.052189298637802999433702304,-386996.777548152534200202392113113,316827.275529666095806793857583104,-223020.143638842234341065056512531,122501.067276339187117666580726675,-36468.3105542663351688543163561243,-413942.100364932102776912570109661,52292.9454372233683188543258498666,-181404.117583281461136661201335661,345209.211856214789343718256790637,-512414.881607542186743159657852767,650048.796101148521280028148578376,741649.553947451000720663956016747,-679389.050542365348376025075675632,555284.598527743555179896396350405,-390466.901885730330409861250193067,214343.197882029445452989319784134,-63790.3959580075569147367791212019,-731362.613536603802204071569135921,96279.0595493672265466667908700224,-331595.471001569431723774421192094,625079.376282918736400997238882680,-919779.734334581250944395153099911,1.15906680911111420578963056418508e6,1.31218860072695799894125014795477e6,-1.19958355742390954388163889863727e6,979182.343719706841341031417535276,-687993.472264430223281691457064647,377490.508124443768159328075669239,-112318.934465189244250238135987820,-1.29801526867685687500325814339232e6,176667.476210372237170210744928684,-605131.078376183526801240654979736,1.13240317651827413623386695659344e6,-1.65491902823324577640260773488461e6,2.07443213240388174917999268372081e6,2.33399790247409471920242322273323e6,-2.13030202563331732317437379723867e6,1.73718563370674578835155434140680e6,-1.21986836032178567581898579164192e6,669099.863654972011885512037890708,-199053.374229345164874164099371301,-2.31451210878320056171036774411408e6,323688.526141194669372628160700051,-1.10404861075333826556529136651965e6,2.05435061393382689365170679251001e6,-2.98617958277422843463166408598374e6,3.72748402298736546890103297975769e6,4.17347601997897283190062117969177e6,-3.80463483665179926265865788847026e6,3.10035173783738143590473150300052e6,-2.17624598501114329338920159290354e6,1.19342856127630604641924732802731e6,-355005.196821837363139233251313260,-4.14666509404121435036989172285978e6,592937.913577826219002901289714693,-2.01583779871611734980514594560753e6,3.73442579298146991753137569162797e6,-5.40548849317012111548344069274888e6,6.72512968630238708546681463168500e6,7.50142154125735209514337989671080e6,-6.83252460415096072238680978056538e6,5.56519704922937583420712137562504e6,-3.90556535903779412010753363085849e6,2.14156821151205508031582179978465e6,-637023.570630328985256742945870523,-7.46424021681935573729225193425737e6,1.08691158952958555078838992972864e6,-3.68592382923536253479715231233254e6,6.80492317255784111657666954242044e6,-9.81761177562096121801164839405927e6,1.21830303656060615066788679852713e7,1.35509532814989528483366014342238e7,-1.23356567159237114544016062401250e7,1.00452510309818774654357948295580e7,-7.04919324158584086195962097179524e6,3.86537354895069795573845615908684e6,-1.14980368731510075882795250347902e6,-1.34982536049212982386562992437886e7,1.99503130796916227362742953344889e6,-6.75237260049050487156858673215134e6,1.24330683465505689069926351582500e7,-1.78918818746786295571712155063310e7,2.21591209757328536627495098489617e7,2.45977340807546992095063027236574e7,-2.23852172645236225301885337663312e7,1.82283647034072501129245484467366e7,-1.27927556566330915026709524155804e7,7.01553026225615558725419530822330e6,-2.08700027699722278076129564275001e6,-2.45196218826693977177235201805281e7,3.66820807125670614428577271924756e6,-1.23968295392537683567812659004069e7,2.27795837138188649383712588249625e7,-3.27176607045688469710918700238267e7,4.04619523742295002719107271305204e7,4.48570675947578613566743085665823e7,-4.08205367204375772041106130430976e7,3.32455559164270620608099662348981e7,-2.33369670029808216249566460816808e7,1.28003396087192342794296941461207e7,-3.80831010819175456620149416980085e6,-4.47324030941647081814208342856777e7,6.75806427148100004564895806218890e6,-2.28131018672245712597686860432526e7,4.18551735986358172923218517609432e7,-6.00291548365117788746480576164039e7,7.41623253858293769372819976902042e7,8.21651942034578271131653018026574e7,-7.47851670328275326650352087627687e7,6.09273182190745587993423504536959e7,-4.27827180431680426865683684961523e7,2.34724629113263035968975641232769e7,-6.98449874558103115114829740774126e6,-8.19458979639261655645198582173746e7,1.24774865770276099141477113854943e7,-4.20842554701771512598430774577837e7,7.71243003396692450092868318410581e7,-1.10500370394579456660422390226123e8,1.36428323355684144407955941895708e8,1.51140394155561773061306624280383e8,-1.37618632140711930567817502465051e8,1.12171290232194631794338702852702e8,-7.88005368711531526217271002889828e7,4.32475425636328033835857959818826e7,-1.28711893214967941379531241294378e7,-1.50714352932616521810930426075388e8};
+initializer_list<long double> lc={15089.6077411712637269975142488895L,-53536.9962448724198284308071615527L,104840.018462781547348036721819706L,-159648.115779110749515600044623695L,206416.266092993910682466902354441L,240636.812280141031376886408547024L,-221694.604512852050523499542549964L,181871.372682065601862679548023660L,-128190.789961230705865007889834257L,70468.6334160615646654576884379590L,-20985.8179728091629386479821537013L,-235265.376984656954350963862383055L,28230.9710188627028076798864952847L,-98874.2923646512853511486590311750L,190492.731233182078104052256756147L,-285935.713149721807389532238094851L,365799.749635401750401805738605998L,421386.052189298637802999433702304L,-386996.777548152534200202392113113L,316827.275529666095806793857583104L,-223020.143638842234341065056512531L,122501.067276339187117666580726675L,-36468.3105542663351688543163561243L,-413942.100364932102776912570109661L,52292.9454372233683188543258498666L,-181404.117583281461136661201335661L,345209.211856214789343718256790637L,-512414.881607542186743159657852767L,650048.796101148521280028148578376L,741649.553947451000720663956016747L,-679389.050542365348376025075675632L,555284.598527743555179896396350405L,-390466.901885730330409861250193067L,214343.197882029445452989319784134L,-63790.3959580075569147367791212019L,-731362.613536603802204071569135921L,96279.0595493672265466667908700224L,-331595.471001569431723774421192094L,625079.376282918736400997238882680L,-919779.734334581250944395153099911L,1.15906680911111420578963056418508e6L,1.31218860072695799894125014795477e6L,-1.19958355742390954388163889863727e6L,979182.343719706841341031417535276L,-687993.472264430223281691457064647L,377490.508124443768159328075669239L,-112318.934465189244250238135987820L,-1.29801526867685687500325814339232e6L,176667.476210372237170210744928684L,-605131.078376183526801240654979736L,1.13240317651827413623386695659344e6L,-1.65491902823324577640260773488461e6L,2.07443213240388174917999268372081e6L,2.33399790247409471920242322273323e6L,-2.13030202563331732317437379723867e6L,1.73718563370674578835155434140680e6L,-1.21986836032178567581898579164192e6L,669099.863654972011885512037890708L,-199053.374229345164874164099371301L,-2.31451210878320056171036774411408e6L,323688.526141194669372628160700051L,-1.10404861075333826556529136651965e6L,2.05435061393382689365170679251001e6L,-2.98617958277422843463166408598374e6L,3.72748402298736546890103297975769e6L,4.17347601997897283190062117969177e6L,-3.80463483665179926265865788847026e6L,3.10035173783738143590473150300052e6L,-2.17624598501114329338920159290354e6L,1.19342856127630604641924732802731e6L,-355005.196821837363139233251313260L,-4.14666509404121435036989172285978e6L,592937.913577826219002901289714693L,-2.01583779871611734980514594560753e6L,3.73442579298146991753137569162797e6L,-5.40548849317012111548344069274888e6L,6.72512968630238708546681463168500e6L,7.50142154125735209514337989671080e6L,-6.83252460415096072238680978056538e6L,5.56519704922937583420712137562504e6L,-3.90556535903779412010753363085849e6L,2.14156821151205508031582179978465e6L,-637023.570630328985256742945870523L,-7.46424021681935573729225193425737e6L,1.08691158952958555078838992972864e6L,-3.68592382923536253479715231233254e6L,6.80492317255784111657666954242044e6L,-9.81761177562096121801164839405927e6L,1.21830303656060615066788679852713e7L,1.35509532814989528483366014342238e7L,-1.23356567159237114544016062401250e7L,1.00452510309818774654357948295580e7L,-7.04919324158584086195962097179524e6L,3.86537354895069795573845615908684e6L,-1.14980368731510075882795250347902e6L,-1.34982536049212982386562992437886e7L,1.99503130796916227362742953344889e6L,-6.75237260049050487156858673215134e6L,1.24330683465505689069926351582500e7L,-1.78918818746786295571712155063310e7L,2.21591209757328536627495098489617e7L,2.45977340807546992095063027236574e7L,-2.23852172645236225301885337663312e7L,1.82283647034072501129245484467366e7L,-1.27927556566330915026709524155804e7L,7.01553026225615558725419530822330e6L,-2.08700027699722278076129564275001e6L,-2.45196218826693977177235201805281e7L,3.66820807125670614428577271924756e6L,-1.23968295392537683567812659004069e7L,2.27795837138188649383712588249625e7L,-3.27176607045688469710918700238267e7L,4.04619523742295002719107271305204e7L,4.48570675947578613566743085665823e7L,-4.08205367204375772041106130430976e7L,3.32455559164270620608099662348981e7L,-2.33369670029808216249566460816808e7L,1.28003396087192342794296941461207e7L,-3.80831010819175456620149416980085e6L,-4.47324030941647081814208342856777e7L,6.75806427148100004564895806218890e6L,-2.28131018672245712597686860432526e7L,4.18551735986358172923218517609432e7L,-6.00291548365117788746480576164039e7L,7.41623253858293769372819976902042e7L,8.21651942034578271131653018026574e7L,-7.47851670328275326650352087627687e7L,6.09273182190745587993423504536959e7L,-4.27827180431680426865683684961523e7L,2.34724629113263035968975641232769e7L,-6.98449874558103115114829740774126e6L,-8.19458979639261655645198582173746e7L,1.24774865770276099141477113854943e7L,-4.20842554701771512598430774577837e7L,7.71243003396692450092868318410581e7L,-1.10500370394579456660422390226123e8L,1.36428323355684144407955941895708e8L,1.51140394155561773061306624280383e8L,-1.37618632140711930567817502465051e8L,1.12171290232194631794338702852702e8L,-7.88005368711531526217271002889828e7L,4.32475425636328033835857959818826e7L,-1.28711893214967941379531241294378e7L,-1.50714352932616521810930426075388e8L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> inline void extrapcoeffs<13,long double>(long double* c)
 {
-initializer_list<double> lc={6.18176128296585651431497281229868,-21.4088030061599777549484032729396,41.2032239687845596694728666761738,-63.4925321577773207362388980947601,86.3571897810684871346136666507078,-107.376323509645066107188109699651,122.748985604790250260686850137561,-125.821025933731221721350641927848,106.229079052892702036295501226120,-57.7526517733357370831992229009417,2.80796017296110886466495492110461,18.1708135972188138509595955089030,-6.83976860739174900281954676113182,29.3715050623387684470027572718344,-102.458687630185083384937249125815,199.730079683471677440457023026257,-313.287981523747843967636071957559,435.283609024639885128291397773519,-553.316659533304449903135899854425,644.617014804846142554402250378795,-671.512946000560933525303240085486,592.414474957434794276964958785331,-405.397306014535834138580289873806,192.298188003645367255421230838895,-57.7355397268278415849095543304905,10.5021886373958117243017056266526,109.796819222652565509932956362379,-383.654439845620646074332141981135,749.646798473143407540220254254825,-1177.90902593643831084103945873768,1634.98888025749766493500806048144,-2065.08918373553772654497109080839,2373.27152365996178647401426575764,-2428.28240821921111495562837070537,2125.01151597490212799465359920317,-1509.14992575826129732744852569438,827.974187706390957432807178377929,-338.771145183342314667239495626082,82.5077078986521267258588636215613,364.401954968637154218231122282557,-1271.80909826366700920727229954761,2478.21640893483550305152313432620,-3872.71611269922261506000245035004,5323.59355927527735002487662283664,-6621.91504358561600654948777304339,7452.81646658216690870427715056826,-7451.89638293175478476430243125628,6417.05041467219184434157550676166,-4587.76010387560030270007882856004,2635.93729272135220925235299737903,-1166.60756701658194498885644215174,300.946214002136633333238429609403,1110.79189233423138258940385846226,-3866.30184334451451028218878622838,7493.29352088790168951633861250514,-11606.4586260758519358362946969648,15745.0210291829313373269832896067,-19234.1396904612381458065558061619,21174.1547851162015706846519838163,-20690.3178434443890340265256211797,17506.3965182655434541645882066747,-12473.8653002940024272424737056761,7292.45935786014518749560281023128,-3328.68586831762129404068217614148,877.860102844354449419191284854018,3161.02032177507813559289926500141,-10964.3493824537437963116181308778,21110.1464575028362714434945330750,-32364.1647395409989947397328442650,43278.2882637445567887630809913092,-51901.9534222176241992660239284948,55922.2707454204850212995964618209,-53464.3405854061391824806188529721,44445.0167831373896569395467731564,-31415.5750374773712997341616629642,18452.4160238141046915712281190431,-8528.39532118778753390726671880366,2269.79462604693770452027151439691,8490.00766350392082721256189847668,-29336.8868750642338453783871334953,56085.2395004147165809155544548837,-85072.1387734536792179399167913700,112128.402231602625940668427631900,-132074.219978286754622374215572421,139424.996683648068971573079965284,-130566.051910501593915892187690820,106640.585242934873437156592982030,-74553.3496963915032333254349411291,43673.3110434210987032902160202129,-20238.3420851491310454964644048446,5398.59790906169474154003242121813,21701.0715114788116311134877578281,-74694.6450482564853545203889477978,141774.993514310743072441109354167,-212768.931786630469289890740130292,276492.598490690282184619091392570,-320079.347134807841919887159267228,331357.217692461408619507753960314,-304161.301074597363070937350937284,243983.247241247347372713149815408,-168255.310189957191787398613371065,97756.3411377407112798610511957141,-45106.1141708361140432033726396208,12000.3129480294247063445069704261,53134.4532335960797141761792256160,-182171.241919160152494634331286410,343302.081579090130369562412205927,-509820.807280470630595635889101318,653408.896059735369290177128706426,-743800.778542937348719704076921395,755513.715009430706290807095803861,-679849.177079528331636172642835853,535020.381472694576630315623257823,-362827.156967477125520238050467350,207941.321011689110505169658521633,-94917.9017130505049146905651335487,25066.3344108193497365611609030378,125260.221645464650989303276511887,-427775.383558202621694128131288603,800421.970057918868148462675466045,-1.17637400052070059923049399661480e6,1.48728940126686937453626759788493e6,-1.66518292700380066818988699038920e6,1.65958903838150501805882031164568e6,-1.46301936029668083674363423236896e6,1.12727794170133096268629200010303e6,-748623.139641324528492550010613683,420421.710974803979726496073276615,-188363.541184953027412329491376818,49078.1763737082519043308250946432,285435.621256880168097672100240963,-970970.137533427296022496082986284,1.80390490931779843101413877277024e6,-2.62377417868842167164438242346562e6,3.27225391169729268493759393897235e6,-3.60268613960207330448571494256314e6,3.52078183805347001471628905531302e6,-3.03572068995387635182045046975868e6,2.28233082017965587679532530032986e6,-1.47506860792357783427356743267697e6,803962.169860904652893185302721120,-349385.312718931168465820607502546,88935.8951921271130894231838923503,630588.341479330296000378095066653,-2.13655549975080224050255855594220e6,3.94075433118392033309939261753250e6,-5.67147201365465580458931512697987e6,6.97477615211067395743818446305069e6,-7.54579103786820762601810551614704e6,7.22003332146390328825210208677094e6,-6.07070801759000314929402462067901e6,4.42837746844219411181447561886714e6,-2.75764092177604552736122791281093e6,1.43532802815457896529935265802916e6,-591985.665722056446007861319541722,144295.605122199065698044194312577,1.35339451820168590660471632236399e6,-4.56673844274125271219955966836727e6,8.36015671940810432420536505632625e6,-1.18996320457077296915500087428412e7,1.44187945516331407005332856284268e7,-1.53059464351299216546769646903615e7,1.43000159163783794479236190271853e7,-1.16657697633335144424944087919689e7,8.17886687936224856409502137761671e6,-4.82152568873485756279140058758120e6,2.32135807933757355274280830023582e6,-863429.147652855199807858655629008,190454.944196912004157059317778034};
+initializer_list<long double> lc={6.18176128296585651431497281229868L,-21.4088030061599777549484032729396L,41.2032239687845596694728666761738L,-63.4925321577773207362388980947601L,86.3571897810684871346136666507078L,-107.376323509645066107188109699651L,122.748985604790250260686850137561L,-125.821025933731221721350641927848L,106.229079052892702036295501226120L,-57.7526517733357370831992229009417L,2.80796017296110886466495492110461L,18.1708135972188138509595955089030L,-6.83976860739174900281954676113182L,29.3715050623387684470027572718344L,-102.458687630185083384937249125815L,199.730079683471677440457023026257L,-313.287981523747843967636071957559L,435.283609024639885128291397773519L,-553.316659533304449903135899854425L,644.617014804846142554402250378795L,-671.512946000560933525303240085486L,592.414474957434794276964958785331L,-405.397306014535834138580289873806L,192.298188003645367255421230838895L,-57.7355397268278415849095543304905L,10.5021886373958117243017056266526L,109.796819222652565509932956362379L,-383.654439845620646074332141981135L,749.646798473143407540220254254825L,-1177.90902593643831084103945873768L,1634.98888025749766493500806048144L,-2065.08918373553772654497109080839L,2373.27152365996178647401426575764L,-2428.28240821921111495562837070537L,2125.01151597490212799465359920317L,-1509.14992575826129732744852569438L,827.974187706390957432807178377929L,-338.771145183342314667239495626082L,82.5077078986521267258588636215613L,364.401954968637154218231122282557L,-1271.80909826366700920727229954761L,2478.21640893483550305152313432620L,-3872.71611269922261506000245035004L,5323.59355927527735002487662283664L,-6621.91504358561600654948777304339L,7452.81646658216690870427715056826L,-7451.89638293175478476430243125628L,6417.05041467219184434157550676166L,-4587.76010387560030270007882856004L,2635.93729272135220925235299737903L,-1166.60756701658194498885644215174L,300.946214002136633333238429609403L,1110.79189233423138258940385846226L,-3866.30184334451451028218878622838L,7493.29352088790168951633861250514L,-11606.4586260758519358362946969648L,15745.0210291829313373269832896067L,-19234.1396904612381458065558061619L,21174.1547851162015706846519838163L,-20690.3178434443890340265256211797L,17506.3965182655434541645882066747L,-12473.8653002940024272424737056761L,7292.45935786014518749560281023128L,-3328.68586831762129404068217614148L,877.860102844354449419191284854018L,3161.02032177507813559289926500141L,-10964.3493824537437963116181308778L,21110.1464575028362714434945330750L,-32364.1647395409989947397328442650L,43278.2882637445567887630809913092L,-51901.9534222176241992660239284948L,55922.2707454204850212995964618209L,-53464.3405854061391824806188529721L,44445.0167831373896569395467731564L,-31415.5750374773712997341616629642L,18452.4160238141046915712281190431L,-8528.39532118778753390726671880366L,2269.79462604693770452027151439691L,8490.00766350392082721256189847668L,-29336.8868750642338453783871334953L,56085.2395004147165809155544548837L,-85072.1387734536792179399167913700L,112128.402231602625940668427631900L,-132074.219978286754622374215572421L,139424.996683648068971573079965284L,-130566.051910501593915892187690820L,106640.585242934873437156592982030L,-74553.3496963915032333254349411291L,43673.3110434210987032902160202129L,-20238.3420851491310454964644048446L,5398.59790906169474154003242121813L,21701.0715114788116311134877578281L,-74694.6450482564853545203889477978L,141774.993514310743072441109354167L,-212768.931786630469289890740130292L,276492.598490690282184619091392570L,-320079.347134807841919887159267228L,331357.217692461408619507753960314L,-304161.301074597363070937350937284L,243983.247241247347372713149815408L,-168255.310189957191787398613371065L,97756.3411377407112798610511957141L,-45106.1141708361140432033726396208L,12000.3129480294247063445069704261L,53134.4532335960797141761792256160L,-182171.241919160152494634331286410L,343302.081579090130369562412205927L,-509820.807280470630595635889101318L,653408.896059735369290177128706426L,-743800.778542937348719704076921395L,755513.715009430706290807095803861L,-679849.177079528331636172642835853L,535020.381472694576630315623257823L,-362827.156967477125520238050467350L,207941.321011689110505169658521633L,-94917.9017130505049146905651335487L,25066.3344108193497365611609030378L,125260.221645464650989303276511887L,-427775.383558202621694128131288603L,800421.970057918868148462675466045L,-1.17637400052070059923049399661480e6L,1.48728940126686937453626759788493e6L,-1.66518292700380066818988699038920e6L,1.65958903838150501805882031164568e6L,-1.46301936029668083674363423236896e6L,1.12727794170133096268629200010303e6L,-748623.139641324528492550010613683L,420421.710974803979726496073276615L,-188363.541184953027412329491376818L,49078.1763737082519043308250946432L,285435.621256880168097672100240963L,-970970.137533427296022496082986284L,1.80390490931779843101413877277024e6L,-2.62377417868842167164438242346562e6L,3.27225391169729268493759393897235e6L,-3.60268613960207330448571494256314e6L,3.52078183805347001471628905531302e6L,-3.03572068995387635182045046975868e6L,2.28233082017965587679532530032986e6L,-1.47506860792357783427356743267697e6L,803962.169860904652893185302721120L,-349385.312718931168465820607502546L,88935.8951921271130894231838923503L,630588.341479330296000378095066653L,-2.13655549975080224050255855594220e6L,3.94075433118392033309939261753250e6L,-5.67147201365465580458931512697987e6L,6.97477615211067395743818446305069e6L,-7.54579103786820762601810551614704e6L,7.22003332146390328825210208677094e6L,-6.07070801759000314929402462067901e6L,4.42837746844219411181447561886714e6L,-2.75764092177604552736122791281093e6L,1.43532802815457896529935265802916e6L,-591985.665722056446007861319541722L,144295.605122199065698044194312577L,1.35339451820168590660471632236399e6L,-4.56673844274125271219955966836727e6L,8.36015671940810432420536505632625e6L,-1.18996320457077296915500087428412e7L,1.44187945516331407005332856284268e7L,-1.53059464351299216546769646903615e7L,1.43000159163783794479236190271853e7L,-1.16657697633335144424944087919689e7L,8.17886687936224856409502137761671e6L,-4.82152568873485756279140058758120e6L,2.32135807933757355274280830023582e6L,-863429.147652855199807858655629008L,190454.944196912004157059317778034L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> inline void extrapcoeffs<14,long double>(long double* c)
 {
-initializer_list<double> lc={-10.2910491201745120760288238798559,35.6649932160325766216087854954939,-68.7690593391070322239773060026256,106.433249186057306353358226526756,-146.143486192263888634426069128872,185.396425039936284368298552881784,-221.090120196881314572561012603924,248.301799929366066500321686931137,-257.919153498239416344068534306548,234.545421862513355709039423111380,-165.851313176512109847948190194499,75.7307225154488337566831859905406,-17.8050930492445916823977585640482,2.80352091872003590267703510993137,-37.8146707034560216471931849212323,132.338523121893426929513326063090,-259.733684784192489963103004338320,412.461025995191069984437986601516,-585.586404894057694504223037784489,772.931726435990663436364108569125,-961.633253188619398000330484798036,1122.46223959614404495430285323460,-1199.57644091701316877767462604961,1121.31552041206719751305812266943,-861.453302899804054280584787445832,512.670772995702358558819040712771,-226.530722086344361000602291277326,58.6555525288880038328989934589698,-127.533527567558068145717068367897,449.176493725425051126095582527733,-891.308807027209532727550733997805,1436.18387126051936278669882594828,-2072.38128909747376426390596998835,2776.08252331922462692295432742709,-3485.35745561204618618254409204422,4067.17411303625056526637777473430,-4307.61478053183418376256732189741,3993.98336654513992651988387713234,-3110.01615947563108468749394495589,1957.86729941395747808229622248384,-943.914202007712387367735753316161,257.998792588929115675522030097295,-419.312810579804814593111085030069,1480.64665274544785401063865373233,-2949.65192304157869315077529318076,4771.86604845340577858550851665759,-6900.28250086299159659038787191180,9223.25105430236863196001650975965,-11480.0053489859775580134649227593,13188.4334419175073154991183962936,-13696.0362204070361748938844096057,12495.2164277683483114963516278659,-9710.66891203171241983336541072945,6230.48028130710408760732835157589,-3097.47691771321460217772884973423,863.797656097112537509597933351987,-1339.00310263941210727628402515108,4725.62434280184697359962248989085,-9399.29190846967954289849770048559,15151.2885643264611953099209732721,-21758.1474421982417075196197877979,28749.9844066859916243382265333524,-35191.1432420428247004905999911883,39587.7822848725395283522510871240,-40213.9972170044055749449035953399,36047.9663581223029295847100275185,-27821.6303942169349063666030589004,17963.3276835691916776106000917608,-9049.83293363325887593168958371618,2547.27955263636234937883135119179,-4106.28213009044319256162406732297,14457.1806257640591708874009351260,-28619.9664553266956805445193727088,45782.1593799479931736257968893111,-65007.3010965651290659364181592041,84584.1318258387495427664530270083,-101556.379215595866583452704190150,111783.504409719790475528884473014,-111149.978578375267179977880240155,97965.4592767790556120829488690679,-74967.7840375493932424312521951136,48442.8287714816997597629279454646,-24548.5740092550839834425666630359,6941.17487665328518501342424208789,-12028.9475136183700422887105556397,42212.8729024573739880055814938479,-83056.6348642026850456229409460827,131630.981157696759461999979766330,-184528.268990152725810908148091643,236213.661496403938985015239723131,-278208.662783639132635278255608910,299959.283374362935664645007412836,-292452.132584528075465530561074740,253777.860221333380873926291944072,-192484.901618541117920224189078120,124147.105816814914938433067311885,-63045.1576478192448136476814294152,17863.0908913948911992358100505272,-33665.5384543048312158658979689882,117722.830992710433456361987775251,-230120.732669742193398882220205942,361194.394175960216709447862988387,-499866.140965830303157914143308898,629804.977509051486575684121132708,-728450.831141326344952439238089456,770630.830482684409308943600205497,-738097.963772351945331989238733563,631449.719276302856561767380285968,-474738.473819861987392021792985887,305173.151354712715846369603499371,-154973.169073915456573066453409347,43937.0781309011444354138558335579,-90284.1418115437981418277820443592,314589.040108267087769676009874315,-610987.121512695244439409013297854,949996.932244973229010097897966123,-1.29861047556820315466439475105577e6,1.61197599678716421893265444102803e6,-1.83354094495486125241324005652777e6,1.90649654385793121049897216844349e6,-1.79686040748350440382596650597093e6,1.51730774721391092423589130639468e6,-1.13093026467387249273443478671252e6,723914.839572900093906717352267418,-367116.504437970604592569191139868,104048.878817886597186834222827145,-232926.029018366388565809734235496,808835.157758221436160756691829774,-1.56119024341736888582559084358226e6,2.40577130399186894658932425730686e6,-3.25071700325562888918646476931183e6,3.97970003137809377640153646512347e6,-4.45771966992559199321102923855428e6,4.56264228605076153961492904275138e6,-4.23751517982801615962226426767256e6,3.53507687500670873037895259326751e6,-2.61249724601737300487201496509078e6,1.66408326422924393939065554025013e6,-841917.241591225623948437101112553,238373.801712336430673073747044597,-580415.196636564937306662284442039,2.00891680998371169713254683946748e6,-3.85483132903219786047409861218021e6,5.89031655586515519148797316502053e6,-7.87335614627836301906415308516156e6,9.51604149744950038420167367820956e6,-1.05091077567252059187221590618153e7,1.06015075772588193988559028080866e7,-9.71276921979597256650704795085019e6,8.00992257767088472442861387877500e6,-5.86905598806086503622814728861305e6,3.71779752462101482920853222180608e6,-1.87497757673199836693165961315188e6,530010.768419340827604867878397507,-1.40203163101291605392867474300610e6,4.83765274514607714980715759916191e6,-9.23131935935327764401527248252587e6,1.39941044744811408027984866208683e7,-1.85164566363311182088679778238971e7,2.21131597377726123494265718386738e7,-2.41005827092396702341742281030130e7,2.39850437755133928084379744537103e7,-2.16930080735466903871415172982895e7,1.76906989955309460357212804375212e7,-1.28491092345788721286190371644545e7,8.08895574959350190169803914191994e6,-4.06315688352746404051763763497436e6,1.14604914000845661398108164616212e6,-3.29346623196939398018625123624224e6,1.13305077553145677347716393847357e7,-2.15073328660107436862470006818288e7,3.23593692865303477700182478094103e7,-4.24082436774446028030330824742114e7,5.00767803534740523999923169338623e7,-5.39011673015979195508110748948686e7,5.29552526505326896461320029428955e7,-4.73016933034785293944500230069160e7,3.81462894139935775945088491313633e7,-2.74516719793150249090771918397724e7,1.71603295062375451121376322393359e7,-8.57752261381901325531203805034596e6,2.41256909162304025762132772966568e6,-7.54380568648201912072365117238206e6,2.58797849901037752176758863697480e7,-4.88772258174120580338129624538280e7,7.30129212398209138308048620758100e7,-9.48151345262370629077894301926843e7,1.10757923301769417971803390185646e8,-1.17797404982158366129217538237773e8,1.14289160557425782185515366808272e8,-1.00833420853638306926940199787296e8,8.03890783601721467158433650741888e7,-5.72755599376425278206288460340491e7,3.55128937809771679241185184440344e7,-1.76442278996533607623199248826080e7,4.94501755155542945215632697547358e6};
+initializer_list<long double> lc={-10.2910491201745120760288238798559L,35.6649932160325766216087854954939L,-68.7690593391070322239773060026256L,106.433249186057306353358226526756L,-146.143486192263888634426069128872L,185.396425039936284368298552881784L,-221.090120196881314572561012603924L,248.301799929366066500321686931137L,-257.919153498239416344068534306548L,234.545421862513355709039423111380L,-165.851313176512109847948190194499L,75.7307225154488337566831859905406L,-17.8050930492445916823977585640482L,2.80352091872003590267703510993137L,-37.8146707034560216471931849212323L,132.338523121893426929513326063090L,-259.733684784192489963103004338320L,412.461025995191069984437986601516L,-585.586404894057694504223037784489L,772.931726435990663436364108569125L,-961.633253188619398000330484798036L,1122.46223959614404495430285323460L,-1199.57644091701316877767462604961L,1121.31552041206719751305812266943L,-861.453302899804054280584787445832L,512.670772995702358558819040712771L,-226.530722086344361000602291277326L,58.6555525288880038328989934589698L,-127.533527567558068145717068367897L,449.176493725425051126095582527733L,-891.308807027209532727550733997805L,1436.18387126051936278669882594828L,-2072.38128909747376426390596998835L,2776.08252331922462692295432742709L,-3485.35745561204618618254409204422L,4067.17411303625056526637777473430L,-4307.61478053183418376256732189741L,3993.98336654513992651988387713234L,-3110.01615947563108468749394495589L,1957.86729941395747808229622248384L,-943.914202007712387367735753316161L,257.998792588929115675522030097295L,-419.312810579804814593111085030069L,1480.64665274544785401063865373233L,-2949.65192304157869315077529318076L,4771.86604845340577858550851665759L,-6900.28250086299159659038787191180L,9223.25105430236863196001650975965L,-11480.0053489859775580134649227593L,13188.4334419175073154991183962936L,-13696.0362204070361748938844096057L,12495.2164277683483114963516278659L,-9710.66891203171241983336541072945L,6230.48028130710408760732835157589L,-3097.47691771321460217772884973423L,863.797656097112537509597933351987L,-1339.00310263941210727628402515108L,4725.62434280184697359962248989085L,-9399.29190846967954289849770048559L,15151.2885643264611953099209732721L,-21758.1474421982417075196197877979L,28749.9844066859916243382265333524L,-35191.1432420428247004905999911883L,39587.7822848725395283522510871240L,-40213.9972170044055749449035953399L,36047.9663581223029295847100275185L,-27821.6303942169349063666030589004L,17963.3276835691916776106000917608L,-9049.83293363325887593168958371618L,2547.27955263636234937883135119179L,-4106.28213009044319256162406732297L,14457.1806257640591708874009351260L,-28619.9664553266956805445193727088L,45782.1593799479931736257968893111L,-65007.3010965651290659364181592041L,84584.1318258387495427664530270083L,-101556.379215595866583452704190150L,111783.504409719790475528884473014L,-111149.978578375267179977880240155L,97965.4592767790556120829488690679L,-74967.7840375493932424312521951136L,48442.8287714816997597629279454646L,-24548.5740092550839834425666630359L,6941.17487665328518501342424208789L,-12028.9475136183700422887105556397L,42212.8729024573739880055814938479L,-83056.6348642026850456229409460827L,131630.981157696759461999979766330L,-184528.268990152725810908148091643L,236213.661496403938985015239723131L,-278208.662783639132635278255608910L,299959.283374362935664645007412836L,-292452.132584528075465530561074740L,253777.860221333380873926291944072L,-192484.901618541117920224189078120L,124147.105816814914938433067311885L,-63045.1576478192448136476814294152L,17863.0908913948911992358100505272L,-33665.5384543048312158658979689882L,117722.830992710433456361987775251L,-230120.732669742193398882220205942L,361194.394175960216709447862988387L,-499866.140965830303157914143308898L,629804.977509051486575684121132708L,-728450.831141326344952439238089456L,770630.830482684409308943600205497L,-738097.963772351945331989238733563L,631449.719276302856561767380285968L,-474738.473819861987392021792985887L,305173.151354712715846369603499371L,-154973.169073915456573066453409347L,43937.0781309011444354138558335579L,-90284.1418115437981418277820443592L,314589.040108267087769676009874315L,-610987.121512695244439409013297854L,949996.932244973229010097897966123L,-1.29861047556820315466439475105577e6L,1.61197599678716421893265444102803e6L,-1.83354094495486125241324005652777e6L,1.90649654385793121049897216844349e6L,-1.79686040748350440382596650597093e6L,1.51730774721391092423589130639468e6L,-1.13093026467387249273443478671252e6L,723914.839572900093906717352267418L,-367116.504437970604592569191139868L,104048.878817886597186834222827145L,-232926.029018366388565809734235496L,808835.157758221436160756691829774L,-1.56119024341736888582559084358226e6L,2.40577130399186894658932425730686e6L,-3.25071700325562888918646476931183e6L,3.97970003137809377640153646512347e6L,-4.45771966992559199321102923855428e6L,4.56264228605076153961492904275138e6L,-4.23751517982801615962226426767256e6L,3.53507687500670873037895259326751e6L,-2.61249724601737300487201496509078e6L,1.66408326422924393939065554025013e6L,-841917.241591225623948437101112553L,238373.801712336430673073747044597L,-580415.196636564937306662284442039L,2.00891680998371169713254683946748e6L,-3.85483132903219786047409861218021e6L,5.89031655586515519148797316502053e6L,-7.87335614627836301906415308516156e6L,9.51604149744950038420167367820956e6L,-1.05091077567252059187221590618153e7L,1.06015075772588193988559028080866e7L,-9.71276921979597256650704795085019e6L,8.00992257767088472442861387877500e6L,-5.86905598806086503622814728861305e6L,3.71779752462101482920853222180608e6L,-1.87497757673199836693165961315188e6L,530010.768419340827604867878397507L,-1.40203163101291605392867474300610e6L,4.83765274514607714980715759916191e6L,-9.23131935935327764401527248252587e6L,1.39941044744811408027984866208683e7L,-1.85164566363311182088679778238971e7L,2.21131597377726123494265718386738e7L,-2.41005827092396702341742281030130e7L,2.39850437755133928084379744537103e7L,-2.16930080735466903871415172982895e7L,1.76906989955309460357212804375212e7L,-1.28491092345788721286190371644545e7L,8.08895574959350190169803914191994e6L,-4.06315688352746404051763763497436e6L,1.14604914000845661398108164616212e6L,-3.29346623196939398018625123624224e6L,1.13305077553145677347716393847357e7L,-2.15073328660107436862470006818288e7L,3.23593692865303477700182478094103e7L,-4.24082436774446028030330824742114e7L,5.00767803534740523999923169338623e7L,-5.39011673015979195508110748948686e7L,5.29552526505326896461320029428955e7L,-4.73016933034785293944500230069160e7L,3.81462894139935775945088491313633e7L,-2.74516719793150249090771918397724e7L,1.71603295062375451121376322393359e7L,-8.57752261381901325531203805034596e6L,2.41256909162304025762132772966568e6L,-7.54380568648201912072365117238206e6L,2.58797849901037752176758863697480e7L,-4.88772258174120580338129624538280e7L,7.30129212398209138308048620758100e7L,-9.48151345262370629077894301926843e7L,1.10757923301769417971803390185646e8L,-1.17797404982158366129217538237773e8L,1.14289160557425782185515366808272e8L,-1.00833420853638306926940199787296e8L,8.03890783601721467158433650741888e7L,-5.72755599376425278206288460340491e7L,3.55128937809771679241185184440344e7L,-1.76442278996533607623199248826080e7L,4.94501755155542945215632697547358e6L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> inline void extrapcoeffs<15,long double>(long double* c)
 {
-initializer_list<double> lc={-680785.069834758720415639474411158,2.38745017514326997821156485019113e6,-4.65242845102783325191599249552755e6,7.18772824115353931241763434588054e6,-9.66226249821410824458253083175810e6,1.17462296405987632516973122991197e7,1.37789899126168106269697181462184e7,-1.34934014106405088952114122707755e7,1.23525684346135037690721109504686e7,-1.04841651035296343301874978543171e7,8.09699168274748848706416690423373e6,-5.46603488809294897645502880592397e6,2.92027667637585868975528360430087e6,-856461.606004360269012387093190528,-1.31746947299013404376500165192919e7,-1.22718981403933245715089982849120e6,4.27596204942486666535054372202260e6,-8.25835967922397073027526852596492e6,1.26456344181557269130226932879279e7,-1.68734305251226192933017134229468e7,2.03976946972231258538251173123933e7,2.37606567237999486999063094555656e7,-2.32190704551220823157248587308745e7,2.12233017647467535144555313817502e7,-1.79929699448666385154758595826655e7,1.38848763613619443944534584549430e7,-9.36798691491976520179348825327132e6,5.00310847035691450118563647942716e6,-1.46703443282799299851273296871457e6,-2.27851922129251155872711371292940e7,-2.20822537577858885746591192674016e6,7.65653501604682955348130648570056e6,-1.46857701306731479110850533658352e7,2.23316166407327496307055988092532e7,-2.96228814970117506055545468178798e7,3.56491240969829818148060474619749e7,4.12916377298028744429132055821708e7,-4.02807386079817808432187736501364e7,3.67718964804530498872558942596485e7,-3.11460998432956095633038805325138e7,2.40188515835349572884236696670138e7,-1.61977145818397950280456999866121e7,8.64801332397198536611214972369892e6,-2.53540435929255628649979439096504e6,-3.96908401362790075248018816968537e7,-3.97468522270383835376285711756371e6,1.37295776593579597478309018469417e7,-2.61941612296241967339794595049323e7,3.96153134130023850589737271507331e7,-5.23058887064547926249941927014087e7,6.27209757323754209256444316621020e7,7.23171814515327168477259866243440e7,-7.04474715657072835932427386172234e7,6.42441952513842622155014132252580e7,-5.43738993333094748707343041376327e7,4.19082289480392299146804519405050e7,-2.82509770902523654710545515199781e7,1.50795369368951004230778543672086e7,-4.42039985884800813428656347880730e6,-6.96475261296290902737270102419868e7,-7.16688109722111121050255829396986e6,2.46847442017865582130097090762103e7,-4.69010233458148165339409757566873e7,7.06308690063659824819999617115105e7,-9.29163426391210714730876980233316e7,1.11100892421312331071205416347470e8,1.27630876996854387000059043484699e8,-1.24189133786089696397270357348326e8,1.13157710655561305435949814131901e8,-9.57125114822049662479908807633777e7,7.37360924462833895651264583823883e7,-4.96908620795507845441410923323230e7,2.65180898213500196656557678134748e7,-7.77264307564290584493625131034868e6,-1.23109877837792356270281881636252e8,-1.29591061971905330596309120020440e7,4.45356437203252486057225148773231e7,-8.43479458028187792882790810157900e7,1.26604525893048729549081093965412e8,-1.66073452145038327117102407441377e8,1.98129438142640549942608287778503e8,2.26942726632100691293199612103459e8,-2.20618328876755881671010876290757e8,2.00881957478558658574691766561974e8,-1.69824958433226615377492987087627e8,1.30782642203381553665045637544399e8,-8.81115996928667444443768343901454e7,4.70138545754922394471266501202381e7,-1.37788762614802068238751277803663e7,-2.19176521063409338771110792319522e8,-2.35147268966403254388549242444240e7,8.06734675730673144655148223649928e7,-1.52414826809378248276023061870669e8,2.28184490215900973866004753357739e8,-2.98650369871108429028177226743636e8,3.55666306844077641400132185776309e8,4.06437746752981128146950255134935e8,-3.94812834946508555334528022186123e8,3.59287819255770731293055501452539e8,-3.03611008999867729375941301671829e8,2.33738977670215623234524198230525e8,-1.57441928495429209844426246429358e8,8.39949558184132631839177748389810e7,-2.46155519313138549936845201368383e7,-3.92922516031210216192929605290122e8,-4.28363948569095840821763502854111e7,1.46769088385298966313232915138583e8,-2.76762234481618911202302613954065e8,4.13524854970564392231615263869989e8,-5.40279839475180684417750210160146e8,6.42528862770479737731849493478848e8,7.32871505653103270583372071525007e8,-7.11467346772302772606417297242682e8,6.47141950448958685198052227758744e8,-5.46662422233305061804549461273077e8,4.20746023239141529334726628553226e8,-2.83355339180254541871496140977655e8,1.51152293650119756255141239884707e8,-4.42940339332636544709915517080676e7,-7.09076968053699702778970177668368e8,-7.83595351119870976628802263636458e7,2.68211540266987844693232014012035e8,-5.05028172019709042801577660868361e8,7.53427665039090517625267406168017e8,-9.83026768826167387466944469375027e8,1.16777718927268316334243529749965e9,1.32994165737877802793662044780206e9,-1.29042839517008679983453936736687e9,1.17328538400367024301077769534605e9,-9.90812476592693751699152883641692e8,7.62424670030519799556467947168414e8,-5.13384977185986242638499579106025e8,2.73832863129047337552916699321164e8,-8.02407237556163696924268149086025e7,-1.28761992034126917212513504636041e9,-1.43947470709756941524794385682573e8,4.92328971347832618213587510026268e8,-9.25987857856753248708644801561868e8,1.37978777590095130005621977651638e9,-1.79833318952830649433658806340676e9,2.13442989774296503623669650465527e9,2.42776911974335564535819798502547e9,-2.35459415228875240396965800582770e9,2.14010519536344110142844914969343e9,-1.80679672675823614568802756299126e9,1.39005942938840861659509161787158e9,-9.35889883658051646782125092206517e8,4.99152531258973034955249614860724e8,-1.46259878073335513246282776957868e8,-2.35182376176656639118834979116430e9,-2.65535342587568046226359459973842e8,9.07646460040234877575524074211406e8,-1.70564667598858223692042297838629e9,2.53916346324380667181469134914878e9,-3.30657703420111658340390044144226e9,3.92174530049047927775350172534451e9,4.45597570253239351808522194200609e9,-4.31999636794063341830478059902708e9,3.92527482465604246028361038005952e9,-3.31317937667139658544089226015657e9,2.54858406421151240942889285431077e9,-1.71571112093166815193507950176966e9,9.15007828737768311758547858392052e8,-2.68103660654951880076546043611482e8,-4.31864806483922428259297344968248e9,-4.91788906000710439528483280348470e8,1.68025112229538424047795691794863e9,-3.15538247875337117426849822674240e9,4.69389041210235490876870599947953e9,-6.10832505372102735862135419667281e9,7.24043205156329605237434787339999e9,8.21915854024029991810100948941526e9,-7.96559014111108944043157683768021e9,7.23579818864099724370833998520485e9,-6.10623794411926641185466845428263e9,4.69642439348761701865431869728092e9,-3.16135994399963850315123675174904e9,1.68590104013315455770762799950928e9,-4.93968256597486353215625018711004e8,-7.96920302407097491589180187734256e9,-9.14272692980798144180138885854272e8,3.12259294477746104131312535704761e9,-5.86084234156001860553806244827222e9,8.71329842914763072898369741435482e9,-1.13324718835685394941184586788469e10,1.34259897160001423302871270737259e10,1.52283426195774437898323844675542e10,-1.47539056842114639216953490410655e10,1.33988894453628994489082283393395e10,-1.13052092293983642567929463832473e10,8.69401855769279430580908791222406e9,-5.85188323083149226166909940256737e9,3.12058743193370639568322656589848e9,-9.14313711211743903425122984126065e8,-1.47708203706465095329191136844035e10,-1.70567381593365751816664357303396e9,5.82386506847402344154236329979597e9,-1.09261598409224067343280959649247e10,1.62359123471047713601060311250939e10,-2.11061245080149772841054030442193e10,2.49940184559617196825603107666041e10,2.83281091115463344790407637441763e10,-2.74376388043934298223465557916600e10,2.49121921253414162081659291782743e10,-2.10161778872189664520676134467800e10,1.61604157802914877720175387895460e10,-1.08768488092370725436985210493222e10,5.80004611747160661643881676509714e9,-1.69935901183106346138994622864673e9,-2.74865763285621134189303540120447e10,-3.19234560993505071744889627658065e9,1.08974200340731832037006320880666e10,-2.04373051643812628752868603796256e10,3.03564774093214910301827602583364e10,-3.94456259821766761713733878958985e10,4.66929222811893130067032089309275e10,5.28848797928288206491158327714146e10,-5.12088668190242420564329942449373e10,4.64861407715394628813370703710896e10,-3.92109008767107684574246628807433e10,3.01488809662550024533771873615455e10,-2.02910492875049441349803738701300e10,1.08199639889398063533074684482629e10,-3.17013205584385266813824024658297e9,-5.13304594484973530905703221031331e10};
+initializer_list<long double> lc={-680785.069834758720415639474411158L,2.38745017514326997821156485019113e6L,-4.65242845102783325191599249552755e6L,7.18772824115353931241763434588054e6L,-9.66226249821410824458253083175810e6L,1.17462296405987632516973122991197e7L,1.37789899126168106269697181462184e7L,-1.34934014106405088952114122707755e7L,1.23525684346135037690721109504686e7L,-1.04841651035296343301874978543171e7L,8.09699168274748848706416690423373e6L,-5.46603488809294897645502880592397e6L,2.92027667637585868975528360430087e6L,-856461.606004360269012387093190528L,-1.31746947299013404376500165192919e7L,-1.22718981403933245715089982849120e6L,4.27596204942486666535054372202260e6L,-8.25835967922397073027526852596492e6L,1.26456344181557269130226932879279e7L,-1.68734305251226192933017134229468e7L,2.03976946972231258538251173123933e7L,2.37606567237999486999063094555656e7L,-2.32190704551220823157248587308745e7L,2.12233017647467535144555313817502e7L,-1.79929699448666385154758595826655e7L,1.38848763613619443944534584549430e7L,-9.36798691491976520179348825327132e6L,5.00310847035691450118563647942716e6L,-1.46703443282799299851273296871457e6L,-2.27851922129251155872711371292940e7L,-2.20822537577858885746591192674016e6L,7.65653501604682955348130648570056e6L,-1.46857701306731479110850533658352e7L,2.23316166407327496307055988092532e7L,-2.96228814970117506055545468178798e7L,3.56491240969829818148060474619749e7L,4.12916377298028744429132055821708e7L,-4.02807386079817808432187736501364e7L,3.67718964804530498872558942596485e7L,-3.11460998432956095633038805325138e7L,2.40188515835349572884236696670138e7L,-1.61977145818397950280456999866121e7L,8.64801332397198536611214972369892e6L,-2.53540435929255628649979439096504e6L,-3.96908401362790075248018816968537e7L,-3.97468522270383835376285711756371e6L,1.37295776593579597478309018469417e7L,-2.61941612296241967339794595049323e7L,3.96153134130023850589737271507331e7L,-5.23058887064547926249941927014087e7L,6.27209757323754209256444316621020e7L,7.23171814515327168477259866243440e7L,-7.04474715657072835932427386172234e7L,6.42441952513842622155014132252580e7L,-5.43738993333094748707343041376327e7L,4.19082289480392299146804519405050e7L,-2.82509770902523654710545515199781e7L,1.50795369368951004230778543672086e7L,-4.42039985884800813428656347880730e6L,-6.96475261296290902737270102419868e7L,-7.16688109722111121050255829396986e6L,2.46847442017865582130097090762103e7L,-4.69010233458148165339409757566873e7L,7.06308690063659824819999617115105e7L,-9.29163426391210714730876980233316e7L,1.11100892421312331071205416347470e8L,1.27630876996854387000059043484699e8L,-1.24189133786089696397270357348326e8L,1.13157710655561305435949814131901e8L,-9.57125114822049662479908807633777e7L,7.37360924462833895651264583823883e7L,-4.96908620795507845441410923323230e7L,2.65180898213500196656557678134748e7L,-7.77264307564290584493625131034868e6L,-1.23109877837792356270281881636252e8L,-1.29591061971905330596309120020440e7L,4.45356437203252486057225148773231e7L,-8.43479458028187792882790810157900e7L,1.26604525893048729549081093965412e8L,-1.66073452145038327117102407441377e8L,1.98129438142640549942608287778503e8L,2.26942726632100691293199612103459e8L,-2.20618328876755881671010876290757e8L,2.00881957478558658574691766561974e8L,-1.69824958433226615377492987087627e8L,1.30782642203381553665045637544399e8L,-8.81115996928667444443768343901454e7L,4.70138545754922394471266501202381e7L,-1.37788762614802068238751277803663e7L,-2.19176521063409338771110792319522e8L,-2.35147268966403254388549242444240e7L,8.06734675730673144655148223649928e7L,-1.52414826809378248276023061870669e8L,2.28184490215900973866004753357739e8L,-2.98650369871108429028177226743636e8L,3.55666306844077641400132185776309e8L,4.06437746752981128146950255134935e8L,-3.94812834946508555334528022186123e8L,3.59287819255770731293055501452539e8L,-3.03611008999867729375941301671829e8L,2.33738977670215623234524198230525e8L,-1.57441928495429209844426246429358e8L,8.39949558184132631839177748389810e7L,-2.46155519313138549936845201368383e7L,-3.92922516031210216192929605290122e8L,-4.28363948569095840821763502854111e7L,1.46769088385298966313232915138583e8L,-2.76762234481618911202302613954065e8L,4.13524854970564392231615263869989e8L,-5.40279839475180684417750210160146e8L,6.42528862770479737731849493478848e8L,7.32871505653103270583372071525007e8L,-7.11467346772302772606417297242682e8L,6.47141950448958685198052227758744e8L,-5.46662422233305061804549461273077e8L,4.20746023239141529334726628553226e8L,-2.83355339180254541871496140977655e8L,1.51152293650119756255141239884707e8L,-4.42940339332636544709915517080676e7L,-7.09076968053699702778970177668368e8L,-7.83595351119870976628802263636458e7L,2.68211540266987844693232014012035e8L,-5.05028172019709042801577660868361e8L,7.53427665039090517625267406168017e8L,-9.83026768826167387466944469375027e8L,1.16777718927268316334243529749965e9L,1.32994165737877802793662044780206e9L,-1.29042839517008679983453936736687e9L,1.17328538400367024301077769534605e9L,-9.90812476592693751699152883641692e8L,7.62424670030519799556467947168414e8L,-5.13384977185986242638499579106025e8L,2.73832863129047337552916699321164e8L,-8.02407237556163696924268149086025e7L,-1.28761992034126917212513504636041e9L,-1.43947470709756941524794385682573e8L,4.92328971347832618213587510026268e8L,-9.25987857856753248708644801561868e8L,1.37978777590095130005621977651638e9L,-1.79833318952830649433658806340676e9L,2.13442989774296503623669650465527e9L,2.42776911974335564535819798502547e9L,-2.35459415228875240396965800582770e9L,2.14010519536344110142844914969343e9L,-1.80679672675823614568802756299126e9L,1.39005942938840861659509161787158e9L,-9.35889883658051646782125092206517e8L,4.99152531258973034955249614860724e8L,-1.46259878073335513246282776957868e8L,-2.35182376176656639118834979116430e9L,-2.65535342587568046226359459973842e8L,9.07646460040234877575524074211406e8L,-1.70564667598858223692042297838629e9L,2.53916346324380667181469134914878e9L,-3.30657703420111658340390044144226e9L,3.92174530049047927775350172534451e9L,4.45597570253239351808522194200609e9L,-4.31999636794063341830478059902708e9L,3.92527482465604246028361038005952e9L,-3.31317937667139658544089226015657e9L,2.54858406421151240942889285431077e9L,-1.71571112093166815193507950176966e9L,9.15007828737768311758547858392052e8L,-2.68103660654951880076546043611482e8L,-4.31864806483922428259297344968248e9L,-4.91788906000710439528483280348470e8L,1.68025112229538424047795691794863e9L,-3.15538247875337117426849822674240e9L,4.69389041210235490876870599947953e9L,-6.10832505372102735862135419667281e9L,7.24043205156329605237434787339999e9L,8.21915854024029991810100948941526e9L,-7.96559014111108944043157683768021e9L,7.23579818864099724370833998520485e9L,-6.10623794411926641185466845428263e9L,4.69642439348761701865431869728092e9L,-3.16135994399963850315123675174904e9L,1.68590104013315455770762799950928e9L,-4.93968256597486353215625018711004e8L,-7.96920302407097491589180187734256e9L,-9.14272692980798144180138885854272e8L,3.12259294477746104131312535704761e9L,-5.86084234156001860553806244827222e9L,8.71329842914763072898369741435482e9L,-1.13324718835685394941184586788469e10L,1.34259897160001423302871270737259e10L,1.52283426195774437898323844675542e10L,-1.47539056842114639216953490410655e10L,1.33988894453628994489082283393395e10L,-1.13052092293983642567929463832473e10L,8.69401855769279430580908791222406e9L,-5.85188323083149226166909940256737e9L,3.12058743193370639568322656589848e9L,-9.14313711211743903425122984126065e8L,-1.47708203706465095329191136844035e10L,-1.70567381593365751816664357303396e9L,5.82386506847402344154236329979597e9L,-1.09261598409224067343280959649247e10L,1.62359123471047713601060311250939e10L,-2.11061245080149772841054030442193e10L,2.49940184559617196825603107666041e10L,2.83281091115463344790407637441763e10L,-2.74376388043934298223465557916600e10L,2.49121921253414162081659291782743e10L,-2.10161778872189664520676134467800e10L,1.61604157802914877720175387895460e10L,-1.08768488092370725436985210493222e10L,5.80004611747160661643881676509714e9L,-1.69935901183106346138994622864673e9L,-2.74865763285621134189303540120447e10L,-3.19234560993505071744889627658065e9L,1.08974200340731832037006320880666e10L,-2.04373051643812628752868603796256e10L,3.03564774093214910301827602583364e10L,-3.94456259821766761713733878958985e10L,4.66929222811893130067032089309275e10L,5.28848797928288206491158327714146e10L,-5.12088668190242420564329942449373e10L,4.64861407715394628813370703710896e10L,-3.92109008767107684574246628807433e10L,3.01488809662550024533771873615455e10L,-2.02910492875049441349803738701300e10L,1.08199639889398063533074684482629e10L,-3.17013205584385266813824024658297e9L,-5.13304594484973530905703221031331e10L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> inline void extrapcoeffs<16,long double>(long double* c)
 {
-initializer_list<double> lc={1.35465586136337391900281724085720e8,-4.60681378644386487887601593772952e8,8.58568449225997832682178025409777e8,1.62980773270973641453271705140326e9,-1.91373075459200241155012678369982e9,2.09118614227476511733595116081119e9,-2.15005805360944102792070842260647e9,2.09102196956134013566894213456307e9,-1.92558853554248175112214812646667e9,1.67352394854122819317382764185891e9,-1.36020107464601806028832611356813e9,1.01435436480691009151354550549362e9,3.49584899423826116223953835347481e8,-1.26514772220659452690528051068934e9,-6.66637158937146244809428227231107e8,-1.01468413496771250043602267236614e8,2.13698102776088093102068660799828e8,-7.26651643725632218446143588957117e8,1.35400497598124126723163176832037e9,2.56884012864949079504936425309200e9,-3.01529366070543441468830308377036e9,3.29366429732966960126439914579969e9,-3.38510199896387421751648681176189e9,3.29093246868170466804924787798564e9,-3.02951042107920902295667436712553e9,2.63211004982918810348222158226231e9,-2.13873281272469159670876550910865e9,1.59457537089069805630466550391776e9,5.49388050833458226665432022937496e8,-1.99469441956459511222788101258213e9,-1.04777723912036782956698488667852e9,-1.59451248582420824011235117577176e8,3.46179119632867422180361892421379e8,-1.17700185017008697081301055775435e9,2.19273022556746252397254266645035e9,4.15757248555689025008358777852561e9,-4.87830966579960689466631515614827e9,5.32653734381584282987804801012083e9,-5.47217522280448760559629396267116e9,5.31782203070486394434035762705560e9,-4.89355244890849863842168778451261e9,4.25019022200676523612320885483864e9,-3.45249335639224360380912322534260e9,2.57344885137091979793774453797781e9,8.86360944215550505897410531842017e8,-3.22941047851843465008671486532367e9,-1.69066473638409420223747677415076e9,-2.57233463555048944287832531353201e8,5.74550352097123966490317496104936e8,-1.95322920656860278575451117520258e9,3.63807852891860964783365161250257e9,6.89373052502165243535062220123914e9,-8.08563814693808035476157014207225e9,8.82487707688357463693020080489212e9,-9.06230806320038789805912521008274e9,8.80302126900001059567728268232927e9,-8.09751909260216097761661351814071e9,7.03043156111107887506025238554071e9,-5.70916490931232484133173905374457e9,4.25446069345865902331058192014210e9,1.46485258112289369546657485307289e9,-5.35657887415311429504642910236961e9,-2.79447771840905246784522408141932e9,-4.25086576174537446598152390992177e8,9.74350531965399648673486895160017e8,-3.31198693789156486956133689529064e9,6.16761497062241239427037027146678e9,1.16794850684560995531332926186623e10,-1.36934172240668320329142423294719e10,1.49390267320388378279973984039555e10,-1.53343263602179146851662059439186e10,1.48892810876267542234066159031190e10,-1.36905440569801971249550807740509e10,1.18821135186836820226130106236059e10,-9.64601175244933638677916751161119e9,7.18632240660337806607026679908251e9,2.47347410659889856199754404325688e9,-9.07838500087137476824864565407325e9,-4.71927430280217558808508779772449e9,-7.17722787110710841393697038135016e8,1.68363922014979923355250012144451e9,-5.72230730910881338628620162021075e9,1.06539436457305440044304428759058e10,2.01624459762315877644928415037318e10,-2.36298331196368946463066509860859e10,2.57684480966715521912678004604370e10,-2.64389235702123098815177105870213e10,2.56607613941237459370375526806370e10,-2.35854238545739746079186248142472e10,2.04625562001404622897978310961085e10,-1.66064781922920821670660719103858e10,1.23686818860366106212148268851797e10,4.25574146871824866742651408982429e9,-1.56775672703677721966172668039817e10,-8.12090209574214146370064147860485e9,-1.23478247569652544992292596943630e9,2.95639463017022167804279124185411e9,-1.00469570232252270154846115651337e10,1.87019319741559276409937502125899e10,3.53713735800732417604294801682623e10,-4.14383398482399553659640868019392e10,4.51700815076961454669342550974257e10,-4.63258223869437976662935740888650e10,4.49437206598976949895417732939619e10,-4.12927048006168631631220764500189e10,3.58125546471211940486365444011457e10,-2.90548498810793334479105981735519e10,2.16348138448418583494311990487511e10,7.44146145894016621881345639152575e9,-2.75127845540867692898851482503563e10,-1.42019377534288192757231171850883e10,-2.15893605512744324979998181939147e9,5.26250596088382863972559969775324e9,-1.78820157069352342352547256350806e10,3.32800603954485044892262678778178e10,6.29058590822657732171314199065487e10,-7.36681671297085854353791765694255e10,8.02702972936204879978802472497388e10,-8.22904397739252557112708882974213e10,7.98032485587854402700157178692675e10,-7.32925370648378550505202258751760e10,6.35435727433751900219644818654459e10,-5.15375934115427657250097008484006e10,3.83663189492253977706619700051552e10,1.31920441352421336121270057662428e10,-4.89458676379515329967477445807620e10,-2.51802659679264751729285847065493e10,-3.82702042588865281266649200559407e9,9.47565036430903449640665785945322e9,-3.21948671848913610296358894484459e10,5.99064314843571740652132410237003e10,1.13170276042200029252856885256574e11,-1.32484717799703171531639852430712e11,1.44302499393943397971000718016006e11,-1.47875817260534326171352825233778e11,1.43350721830768467417306323818018e11,-1.31607205015484831587561504088862e11,1.14063450821080379111863443581742e11,-9.24852549527192292873645902077266e10,6.88324903560049336554445266216987e10,2.36601170172989736586014144059391e10,-8.80833748595017561920392325998345e10,-4.51670881409721173239982665410738e10,-6.86331209603907212105420324350209e9,1.72273590250514430799784071040663e10,-5.85264483575631486546433171245547e10,1.08883438463478578592329689603019e11,2.05581338087554129386881965253243e11,-2.40584938694816488729366701882097e11,2.61948904020391694197375057803596e11,-2.68333992994466946743589072609106e11,2.60025938266161633796276775969695e11,-2.38640001381177234205884008005390e11,2.06761920804096751298756009823921e11,-1.67600285203898629145930001818213e11,1.24708077425131338242926468690478e11,4.28533180055518198129945324690095e10,-1.60057445931818799762669078474389e11,-8.18171957682459101307551161794265e10,-1.24299857653248033167547417981923e10,3.15760688895882210232311092035000e10,-1.07262890123747067473050192246173e11,1.99519643417147285924522119350000e11,3.76514298828259568627938630150477e11,-4.40478056514774096893247323736062e11,4.79423779431057655464464639163514e11,-4.90932241172344318313226379903544e11,4.75562479272391469294284223711539e11,-4.36302030664672334673287212196292e11,3.77903264429747490970688017621934e11,-3.06244199181637611363413617880987e11,2.27819298485906332866534475739444e11,7.82621932380898963083888259899838e10,-2.93223157785053847250225304628886e11,-1.49439347908153424422177016959302e11,-2.26991026417088687863842085937837e10,5.82744182866121185237413753647345e10,-1.97938096311649591028306775784207e11,3.68125245178410352250250551137856e11,6.94346133516680423273414827373877e11,-8.12051159771349038486919924147219e11,8.83553153296300335165238777670035e11,-9.04449702225396765096183193685514e11,8.75834658131935830574279554145252e11,-8.03269018580641923822604919955700e11,6.95546285962339095525897011935226e11,-5.63509250312167449070680108206096e11,4.19112300516614172597797992326083e11,1.43935745017730938301449359870104e11,-5.40893277127645259415525823057143e11,-2.74873153282338733162107263965912e11,-4.17442822953457160346539119222824e10,1.08174897022043774913286819217461e11,-3.67400605899282814785510162318200e11,6.83186806881003286667446139847790e11,1.28799617450494569820119924796588e12,-1.50588800346528894251233324261117e12,1.63795687158529932084820192240820e12,-1.67614079972666936202694987964882e12,1.62258031463885973255229434671086e12,-1.48768237169146738063542139692607e12,1.28781100997480481543659027712950e12,-1.04308452491538952171934709223484e12,7.75638475396162988558284058656091e11,2.66304976097499642959649999835576e11,-1.00360632572114631043108723233254e12,-5.08617894321550326460552733481756e11,-7.72290003597422071278287698319203e10,2.01805253626465064381466294889615e11,-6.85345516813585467883937519823857e11,1.27422371708031566412290390870519e12,2.40118080284000218343044217113823e12,-2.80659308193092434626324973666100e12,3.05179823944878247369561231758514e12,-3.12195241811468291255503432087730e12,3.02124483787884063649787683687501e12,-2.76924006275222852695470862187051e12,2.39653853871372854702821295987993e12,-1.94065559347154342384697985197274e12,1.44278749072165805433202804535348e12,4.95231982313350082869824911346474e11,-1.87146535130246210704964047871247e12,-9.45949168472138123493071668835338e11,-1.43609669765500883728244171793124e11,3.78085907103031653818728155860857e11,-1.28390527785669622145796474457798e12,2.38675847070303124394510000933157e12,4.49573191722506532847975381049802e12,-5.25335570894090752107205676158958e12,5.71064800265115961080076962954542e12,-5.84014964178037905034669307091516e12,5.65006034047515201420659947896795e12,-5.17730348572118309323158345172440e12,4.47933981801193598842710187260520e12,-3.62642590597336915425893963137719e12,2.69556698932695389456710812495211e12,9.25011744460729384465661449729955e11,-3.50477943848595192894071681087866e12,-1.76706004392648546320388881630852e12,-2.68223687272014518817131952143896e11,7.10965349508295549690815343928992e11,-2.41411433735432732830550508129189e12,4.48719912799502667824377591195344e12,8.44866336634231526657628551693527e12,-9.86986304382097783357418124210916e12,1.07259835049051542222792229295468e13,-1.09660216164093621653132163886639e13,1.06060289636498706211628516006678e13,-9.71592200995287362219538694348032e12,8.40398658134252900492184533167933e12,-6.80228297274856186883108458943108e12,5.05529595199178494848567152044560e12,1.73435763137283681440950207903501e12,-6.58790428096974039978572929006612e12,-3.31349220653666687252507413684109e12,-5.02880009315234999769261500204813e11};
+initializer_list<long double> lc={1.35465586136337391900281724085720e8L,-4.60681378644386487887601593772952e8L,8.58568449225997832682178025409777e8L,1.62980773270973641453271705140326e9L,-1.91373075459200241155012678369982e9L,2.09118614227476511733595116081119e9L,-2.15005805360944102792070842260647e9L,2.09102196956134013566894213456307e9L,-1.92558853554248175112214812646667e9L,1.67352394854122819317382764185891e9L,-1.36020107464601806028832611356813e9L,1.01435436480691009151354550549362e9L,3.49584899423826116223953835347481e8L,-1.26514772220659452690528051068934e9L,-6.66637158937146244809428227231107e8L,-1.01468413496771250043602267236614e8L,2.13698102776088093102068660799828e8L,-7.26651643725632218446143588957117e8L,1.35400497598124126723163176832037e9L,2.56884012864949079504936425309200e9L,-3.01529366070543441468830308377036e9L,3.29366429732966960126439914579969e9L,-3.38510199896387421751648681176189e9L,3.29093246868170466804924787798564e9L,-3.02951042107920902295667436712553e9L,2.63211004982918810348222158226231e9L,-2.13873281272469159670876550910865e9L,1.59457537089069805630466550391776e9L,5.49388050833458226665432022937496e8L,-1.99469441956459511222788101258213e9L,-1.04777723912036782956698488667852e9L,-1.59451248582420824011235117577176e8L,3.46179119632867422180361892421379e8L,-1.17700185017008697081301055775435e9L,2.19273022556746252397254266645035e9L,4.15757248555689025008358777852561e9L,-4.87830966579960689466631515614827e9L,5.32653734381584282987804801012083e9L,-5.47217522280448760559629396267116e9L,5.31782203070486394434035762705560e9L,-4.89355244890849863842168778451261e9L,4.25019022200676523612320885483864e9L,-3.45249335639224360380912322534260e9L,2.57344885137091979793774453797781e9L,8.86360944215550505897410531842017e8L,-3.22941047851843465008671486532367e9L,-1.69066473638409420223747677415076e9L,-2.57233463555048944287832531353201e8L,5.74550352097123966490317496104936e8L,-1.95322920656860278575451117520258e9L,3.63807852891860964783365161250257e9L,6.89373052502165243535062220123914e9L,-8.08563814693808035476157014207225e9L,8.82487707688357463693020080489212e9L,-9.06230806320038789805912521008274e9L,8.80302126900001059567728268232927e9L,-8.09751909260216097761661351814071e9L,7.03043156111107887506025238554071e9L,-5.70916490931232484133173905374457e9L,4.25446069345865902331058192014210e9L,1.46485258112289369546657485307289e9L,-5.35657887415311429504642910236961e9L,-2.79447771840905246784522408141932e9L,-4.25086576174537446598152390992177e8L,9.74350531965399648673486895160017e8L,-3.31198693789156486956133689529064e9L,6.16761497062241239427037027146678e9L,1.16794850684560995531332926186623e10L,-1.36934172240668320329142423294719e10L,1.49390267320388378279973984039555e10L,-1.53343263602179146851662059439186e10L,1.48892810876267542234066159031190e10L,-1.36905440569801971249550807740509e10L,1.18821135186836820226130106236059e10L,-9.64601175244933638677916751161119e9L,7.18632240660337806607026679908251e9L,2.47347410659889856199754404325688e9L,-9.07838500087137476824864565407325e9L,-4.71927430280217558808508779772449e9L,-7.17722787110710841393697038135016e8L,1.68363922014979923355250012144451e9L,-5.72230730910881338628620162021075e9L,1.06539436457305440044304428759058e10L,2.01624459762315877644928415037318e10L,-2.36298331196368946463066509860859e10L,2.57684480966715521912678004604370e10L,-2.64389235702123098815177105870213e10L,2.56607613941237459370375526806370e10L,-2.35854238545739746079186248142472e10L,2.04625562001404622897978310961085e10L,-1.66064781922920821670660719103858e10L,1.23686818860366106212148268851797e10L,4.25574146871824866742651408982429e9L,-1.56775672703677721966172668039817e10L,-8.12090209574214146370064147860485e9L,-1.23478247569652544992292596943630e9L,2.95639463017022167804279124185411e9L,-1.00469570232252270154846115651337e10L,1.87019319741559276409937502125899e10L,3.53713735800732417604294801682623e10L,-4.14383398482399553659640868019392e10L,4.51700815076961454669342550974257e10L,-4.63258223869437976662935740888650e10L,4.49437206598976949895417732939619e10L,-4.12927048006168631631220764500189e10L,3.58125546471211940486365444011457e10L,-2.90548498810793334479105981735519e10L,2.16348138448418583494311990487511e10L,7.44146145894016621881345639152575e9L,-2.75127845540867692898851482503563e10L,-1.42019377534288192757231171850883e10L,-2.15893605512744324979998181939147e9L,5.26250596088382863972559969775324e9L,-1.78820157069352342352547256350806e10L,3.32800603954485044892262678778178e10L,6.29058590822657732171314199065487e10L,-7.36681671297085854353791765694255e10L,8.02702972936204879978802472497388e10L,-8.22904397739252557112708882974213e10L,7.98032485587854402700157178692675e10L,-7.32925370648378550505202258751760e10L,6.35435727433751900219644818654459e10L,-5.15375934115427657250097008484006e10L,3.83663189492253977706619700051552e10L,1.31920441352421336121270057662428e10L,-4.89458676379515329967477445807620e10L,-2.51802659679264751729285847065493e10L,-3.82702042588865281266649200559407e9L,9.47565036430903449640665785945322e9L,-3.21948671848913610296358894484459e10L,5.99064314843571740652132410237003e10L,1.13170276042200029252856885256574e11L,-1.32484717799703171531639852430712e11L,1.44302499393943397971000718016006e11L,-1.47875817260534326171352825233778e11L,1.43350721830768467417306323818018e11L,-1.31607205015484831587561504088862e11L,1.14063450821080379111863443581742e11L,-9.24852549527192292873645902077266e10L,6.88324903560049336554445266216987e10L,2.36601170172989736586014144059391e10L,-8.80833748595017561920392325998345e10L,-4.51670881409721173239982665410738e10L,-6.86331209603907212105420324350209e9L,1.72273590250514430799784071040663e10L,-5.85264483575631486546433171245547e10L,1.08883438463478578592329689603019e11L,2.05581338087554129386881965253243e11L,-2.40584938694816488729366701882097e11L,2.61948904020391694197375057803596e11L,-2.68333992994466946743589072609106e11L,2.60025938266161633796276775969695e11L,-2.38640001381177234205884008005390e11L,2.06761920804096751298756009823921e11L,-1.67600285203898629145930001818213e11L,1.24708077425131338242926468690478e11L,4.28533180055518198129945324690095e10L,-1.60057445931818799762669078474389e11L,-8.18171957682459101307551161794265e10L,-1.24299857653248033167547417981923e10L,3.15760688895882210232311092035000e10L,-1.07262890123747067473050192246173e11L,1.99519643417147285924522119350000e11L,3.76514298828259568627938630150477e11L,-4.40478056514774096893247323736062e11L,4.79423779431057655464464639163514e11L,-4.90932241172344318313226379903544e11L,4.75562479272391469294284223711539e11L,-4.36302030664672334673287212196292e11L,3.77903264429747490970688017621934e11L,-3.06244199181637611363413617880987e11L,2.27819298485906332866534475739444e11L,7.82621932380898963083888259899838e10L,-2.93223157785053847250225304628886e11L,-1.49439347908153424422177016959302e11L,-2.26991026417088687863842085937837e10L,5.82744182866121185237413753647345e10L,-1.97938096311649591028306775784207e11L,3.68125245178410352250250551137856e11L,6.94346133516680423273414827373877e11L,-8.12051159771349038486919924147219e11L,8.83553153296300335165238777670035e11L,-9.04449702225396765096183193685514e11L,8.75834658131935830574279554145252e11L,-8.03269018580641923822604919955700e11L,6.95546285962339095525897011935226e11L,-5.63509250312167449070680108206096e11L,4.19112300516614172597797992326083e11L,1.43935745017730938301449359870104e11L,-5.40893277127645259415525823057143e11L,-2.74873153282338733162107263965912e11L,-4.17442822953457160346539119222824e10L,1.08174897022043774913286819217461e11L,-3.67400605899282814785510162318200e11L,6.83186806881003286667446139847790e11L,1.28799617450494569820119924796588e12L,-1.50588800346528894251233324261117e12L,1.63795687158529932084820192240820e12L,-1.67614079972666936202694987964882e12L,1.62258031463885973255229434671086e12L,-1.48768237169146738063542139692607e12L,1.28781100997480481543659027712950e12L,-1.04308452491538952171934709223484e12L,7.75638475396162988558284058656091e11L,2.66304976097499642959649999835576e11L,-1.00360632572114631043108723233254e12L,-5.08617894321550326460552733481756e11L,-7.72290003597422071278287698319203e10L,2.01805253626465064381466294889615e11L,-6.85345516813585467883937519823857e11L,1.27422371708031566412290390870519e12L,2.40118080284000218343044217113823e12L,-2.80659308193092434626324973666100e12L,3.05179823944878247369561231758514e12L,-3.12195241811468291255503432087730e12L,3.02124483787884063649787683687501e12L,-2.76924006275222852695470862187051e12L,2.39653853871372854702821295987993e12L,-1.94065559347154342384697985197274e12L,1.44278749072165805433202804535348e12L,4.95231982313350082869824911346474e11L,-1.87146535130246210704964047871247e12L,-9.45949168472138123493071668835338e11L,-1.43609669765500883728244171793124e11L,3.78085907103031653818728155860857e11L,-1.28390527785669622145796474457798e12L,2.38675847070303124394510000933157e12L,4.49573191722506532847975381049802e12L,-5.25335570894090752107205676158958e12L,5.71064800265115961080076962954542e12L,-5.84014964178037905034669307091516e12L,5.65006034047515201420659947896795e12L,-5.17730348572118309323158345172440e12L,4.47933981801193598842710187260520e12L,-3.62642590597336915425893963137719e12L,2.69556698932695389456710812495211e12L,9.25011744460729384465661449729955e11L,-3.50477943848595192894071681087866e12L,-1.76706004392648546320388881630852e12L,-2.68223687272014518817131952143896e11L,7.10965349508295549690815343928992e11L,-2.41411433735432732830550508129189e12L,4.48719912799502667824377591195344e12L,8.44866336634231526657628551693527e12L,-9.86986304382097783357418124210916e12L,1.07259835049051542222792229295468e13L,-1.09660216164093621653132163886639e13L,1.06060289636498706211628516006678e13L,-9.71592200995287362219538694348032e12L,8.40398658134252900492184533167933e12L,-6.80228297274856186883108458943108e12L,5.05529595199178494848567152044560e12L,1.73435763137283681440950207903501e12L,-6.58790428096974039978572929006612e12L,-3.31349220653666687252507413684109e12L,-5.02880009315234999769261500204813e11L};
 copy(lc.begin(),lc.end(),c);
 
 }
-- 
2.43.0


From 181488d08852dc6351cbb249fd00c5d9e0fca426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:20 +0000
Subject: [PATCH 29/29] fix: Rock4 must not enlarge the step after ten
 rejections at the same point

---
 Rock4-NG/include/Rock4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index 529a659..82a5541 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -288,7 +288,7 @@ namespace odes {
 	      if (told==t) 
 		{
 		  ++nrejloc;
-		  if (nrejloc==10) h=1.0e-5;
+		  if (nrejloc==10) h=min(h,1.0e-5);
 		}
 	      told=t;
 	     
-- 
2.43.0

