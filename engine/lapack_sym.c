/* Reference implementations of the LAPACK/BLAS entry points the library uses.
 * Compiled through the xsym pass, so they act on symbolic matrices.  They
 * stand in for the external OpenBLAS; their contracts are LAPACK's. */
#include <complex.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
typedef double _Complex dc;
#define IDX(a,ld,i,j) a[(size_t)(i)+(size_t)(j)*(ld)]

#define GEMM(NAME,T,CONJ) \
void NAME(char *ta, char *tb, int *m, int *n, int *k, T *al, T *a, int *lda, T *b, int *ldb, T *be, T *c, int *ldc) { \
  int nta=(*ta=='N'||*ta=='n'), ntb=(*tb=='N'||*tb=='n'); \
  for (int j=0;j<*n;j++) for (int i=0;i<*m;i++) { T s=0.; \
    for (int l=0;l<*k;l++) s += (nta?IDX(a,*lda,i,l):IDX(a,*lda,l,i))*(ntb?IDX(b,*ldb,l,j):IDX(b,*ldb,j,l)); \
    s *= *al; if (*be != 0.) s += *be*IDX(c,*ldc,i,j); IDX(c,*ldc,i,j)=s; } }
GEMM(xs_dgemm_,double,)
GEMM(xs_zgemm_,dc,)

#define GEMV(NAME,T) \
void NAME(char *t, int *m, int *n, T *al, T *a, int *lda, T *x, int *incx, T *be, T *y, int *incy) { \
  int nt=(*t=='N'||*t=='n'); int ly=nt?*m:*n, lx=nt?*n:*m; \
  for (int i=0;i<ly;i++) { T s=0.; for (int l=0;l<lx;l++) s += (nt?IDX(a,*lda,i,l):IDX(a,*lda,l,i))*x[l* *incx]; \
    s *= *al; if (*be != 0.) s += *be*y[i* *incy]; y[i* *incy]=s; } }
GEMV(xs_dgemv_,double)
GEMV(xs_zgemv_,dc)

#define GETRF(NAME,T,ABS) \
void NAME(int *m, int *n, T *a, int *lda, int *ipiv, int *info) { \
  *info=0; int mn=*m<*n?*m:*n; \
  for (int j=0;j<mn;j++) { int p=j; double best=ABS(IDX(a,*lda,j,j)); \
    for (int i=j+1;i<*m;i++) { double v=ABS(IDX(a,*lda,i,j)); if (v>best){best=v;p=i;} } \
    ipiv[j]=p+1; \
    if (best==0.) { if(!*info) *info=j+1; continue; } \
    if (p!=j) for (int l=0;l<*n;l++) { T t=IDX(a,*lda,j,l); IDX(a,*lda,j,l)=IDX(a,*lda,p,l); IDX(a,*lda,p,l)=t; } \
    T r=1./IDX(a,*lda,j,j); \
    for (int i=j+1;i<*m;i++) { IDX(a,*lda,i,j) *= r; T f=IDX(a,*lda,i,j); \
      for (int l=j+1;l<*n;l++) IDX(a,*lda,i,l) -= f*IDX(a,*lda,j,l); } } }
/* pivot choice: by base value (the result of a solve does not depend on it) */
extern double xs_conc(double);
static double absd(double x) { double v=xs_conc(x); return v<0?-v:v; }
static double absz(dc x) { double r=xs_conc(creal(x)), i=xs_conc(cimag(x)); return (r<0?-r:r)+(i<0?-i:i); }
GETRF(xs_dgetrf_,double,absd)
GETRF(xs_zgetrf_,dc,absz)

#define GETRS(NAME,T) \
void NAME(char *tr, int *n, int *nrhs, T *a, int *lda, int *ipiv, T *b, int *ldb, int *info) { \
  *info=0; int N=*n; \
  for (int k=0;k<*nrhs;k++) { T *x=b+(size_t)k* *ldb; \
    if (*tr=='N'||*tr=='n') { \
      for (int i=0;i<N;i++) { int p=ipiv[i]-1; if(p!=i){T t=x[i];x[i]=x[p];x[p]=t;} } \
      for (int i=0;i<N;i++) for (int j=0;j<i;j++) x[i]-=IDX(a,*lda,i,j)*x[j]; \
      for (int i=N-1;i>=0;i--) { for (int j=i+1;j<N;j++) x[i]-=IDX(a,*lda,i,j)*x[j]; x[i]/=IDX(a,*lda,i,i); } \
    } else { \
      for (int i=0;i<N;i++) { for (int j=0;j<i;j++) x[i]-=IDX(a,*lda,j,i)*x[j]; x[i]/=IDX(a,*lda,i,i); } \
      for (int i=N-1;i>=0;i--) for (int j=i+1;j<N;j++) x[i]-=IDX(a,*lda,j,i)*x[j]; \
      for (int i=N-1;i>=0;i--) { int p=ipiv[i]-1; if(p!=i){T t=x[i];x[i]=x[p];x[p]=t;} } \
    } } }
GETRS(xs_dgetrs_,double)
GETRS(xs_zgetrs_,dc)

#define GETRI(NAME,T,RS) \
void NAME(int *n, T *a, int *lda, int *ipiv, T *work, int *lwork, int *info) { \
  int N=*n, nn=N; *info=0; if (*lwork==-1) { work[0]=N; return; } \
  T *x=malloc(sizeof(T)*N*N); \
  for (int i=0;i<N*N;i++) x[i]=0.; \
  for (int i=0;i<N;i++) x[i+i*N]=1.; \
  RS("N",n,&nn,a,lda,ipiv,x,&nn,info); \
  for (int j=0;j<N;j++) for (int i=0;i<N;i++) IDX(a,*lda,i,j)=x[i+j*N]; \
  free(x); }
GETRI(xs_dgetri_,double,xs_dgetrs_)
GETRI(xs_zgetri_,dc,xs_zgetrs_)

/* banded LU, storage as LAPACK's gbtrf (kl extra rows on top) */
#define AB(i,j) IDX(ab,ld,(kl+ku)+(i)-(j),j)
#define GBTRF(NAME,T,ABS) \
void NAME(int *m_, int *n_, int *kl_, int *ku_, T *ab, int *ldab, int *ipiv, int *info) { \
  int m=*m_, n=*n_, kl=*kl_, ku=*ku_, ld=*ldab, kv=kl+ku; *info=0; \
  for (int j=ku+1;j<n&&j<kv;j++) for (int i=kv-j;i<kl;i++) IDX(ab,ld,i,j)=0.; \
  int ju=0, mn=m<n?m:n; \
  for (int j=0;j<mn;j++) { \
    if (j+kv<n) for (int i=0;i<kl;i++) IDX(ab,ld,i,j+kv)=0.; \
    int km=kl<m-j-1?kl:m-j-1; int p=0; double best=ABS(AB(j,j)); \
    for (int i=1;i<=km;i++) { double v=ABS(AB(j+i,j)); if (v>best){best=v;p=i;} } \
    ipiv[j]=j+p+1; \
    if (best==0.) { if(!*info)*info=j+1; continue; } \
    int e=j+ku+p<n-1?j+ku+p:n-1; if (e>ju) ju=e; \
    if (p) for (int l=j;l<=ju;l++) { T t=AB(j,l); AB(j,l)=AB(j+p,l); AB(j+p,l)=t; } \
    T r=1./AB(j,j); \
    for (int i=1;i<=km;i++) { AB(j+i,j)*=r; T f=AB(j+i,j); for (int l=j+1;l<=ju;l++) AB(j+i,l)-=f*AB(j,l); } } }
GBTRF(xs_dgbtrf_,double,absd)
GBTRF(xs_zgbtrf_,dc,absz)
#define GBTRS(NAME,T) \
void NAME(char *tr, int *n_, int *kl_, int *ku_, int *nrhs, T *ab, int *ldab, int *ipiv, T *b, int *ldb, int *info) { \
  int n=*n_, kl=*kl_, ku=*ku_, ld=*ldab, kv=kl+ku; *info=0; \
  for (int k=0;k<*nrhs;k++) { T *x=b+(size_t)k* *ldb; \
    if (*tr=='N'||*tr=='n') { \
      for (int j=0;j<n-1;j++) { int lm=kl<n-j-1?kl:n-j-1; int p=ipiv[j]-1; if(p!=j){T t=x[p];x[p]=x[j];x[j]=t;} \
        for (int i=1;i<=lm;i++) x[j+i]-=AB(j+i,j)*x[j]; } \
      for (int j=n-1;j>=0;j--) { x[j]/=AB(j,j); int lo=j-kv>0?j-kv:0; for (int i=lo;i<j;i++) x[i]-=AB(i,j)*x[j]; } \
    } else { \
      for (int j=0;j<n;j++) { int lo=j-kv>0?j-kv:0; for (int i=lo;i<j;i++) x[j]-=AB(i,j)*x[i]; x[j]/=AB(j,j); } \
      for (int j=n-2;j>=0;j--) { int lm=kl<n-j-1?kl:n-j-1; for (int i=1;i<=lm;i++) x[j]-=AB(j+i,j)*x[j+i]; \
        int p=ipiv[j]-1; if(p!=j){T t=x[p];x[p]=x[j];x[j]=t;} } \
    } } }
GBTRS(xs_dgbtrs_,double)
GBTRS(xs_zgbtrs_,dc)

#define GTTRF(NAME,T,ABS) \
void NAME(int *n_, T *dl, T *d, T *du, T *du2, int *ipiv, int *info) { \
  int n=*n_; *info=0; for (int i=0;i<n;i++) ipiv[i]=i+1; for (int i=0;i<n-2;i++) du2[i]=0.; \
  for (int i=0;i<n-1;i++) { \
    if (ABS(d[i])>=ABS(dl[i])) { if (ABS(d[i])!=0.) { T f=dl[i]/d[i]; dl[i]=f; d[i+1]-=f*du[i]; } } \
    else { T f=d[i]/dl[i]; d[i]=dl[i]; dl[i]=f; T t=du[i]; du[i]=d[i+1]; d[i+1]=t-f*d[i+1]; \
      if (i<n-2) { du2[i]=du[i+1]; du[i+1]=-f*du[i+1]; } ipiv[i]=i+2; } } \
  for (int i=0;i<n;i++) if (ABS(d[i])==0.) { *info=i+1; return; } }
GTTRF(xs_dgttrf_,double,absd)
GTTRF(xs_zgttrf_,dc,absz)
#define GTTRS(NAME,T) \
void NAME(char *tr, int *n_, int *nrhs, T *dl, T *d, T *du, T *du2, int *ipiv, T *b, int *ldb, int *info) { \
  int n=*n_; *info=0; \
  for (int k=0;k<*nrhs;k++) { T *x=b+(size_t)k* *ldb; \
    if (*tr=='N'||*tr=='n') { \
      for (int i=0;i<n-1;i++) { if (ipiv[i]==i+1) x[i+1]-=dl[i]*x[i]; else { T t=x[i]; x[i]=x[i+1]; x[i+1]=t-dl[i]*x[i]; } } \
      x[n-1]/=d[n-1]; if (n>1) x[n-2]=(x[n-2]-du[n-2]*x[n-1])/d[n-2]; \
      for (int i=n-3;i>=0;i--) x[i]=(x[i]-du[i]*x[i+1]-du2[i]*x[i+2])/d[i]; \
    } else { \
      x[0]/=d[0]; if (n>1) x[1]=(x[1]-du[0]*x[0])/d[1]; \
      for (int i=2;i<n;i++) x[i]=(x[i]-du[i-1]*x[i-1]-du2[i-2]*x[i-2])/d[i]; \
      for (int i=n-2;i>=0;i--) { if (ipiv[i]==i+1) x[i]-=dl[i]*x[i+1]; else { T t=x[i+1]; x[i+1]=x[i]-dl[i]*t; x[i]=t; } } \
    } } }
GTTRS(xs_dgttrs_,double)
GTTRS(xs_zgttrs_,dc)

static void unsup(const char *n) { fprintf(stderr, "xsym: unsupported external routine %s\n", n); abort(); }
#define UNSUP(n) void n(void) { unsup(#n); }
UNSUP(xs_dpotrf_) UNSUP(xs_dpotrs_) UNSUP(xs_dpotri_) UNSUP(xs_zpotrf_) UNSUP(xs_zpotrs_) UNSUP(xs_zpotri_)
UNSUP(xs_dgecon_) UNSUP(xs_zgecon_) UNSUP(xs_dpocon_) UNSUP(xs_zpocon_)

/* C translation of pentdag.f's contract: solve the pentadiagonal system.  The
 * real Fortran runs on the base values (see xs_pentdag_ in the runtime). */
void xs_pentdag_model(double *a, double *b, double *c, double *d, double *e, double *f, double *u, int *n_) {
  int n=*n_; double *p=malloc(sizeof(double)*(n+2)), *q=malloc(sizeof(double)*(n+2)), *g=malloc(sizeof(double)*(n+2));
  /* forward elimination without pivoting: row i: a x[i-2]+b x[i-1]+c x[i]+d x[i+1]+e x[i+2]=f */
  for (int i=0;i<n;i++) {
    double bi=b[i], ci=c[i], di=d[i], ei=e[i], fi=f[i];
    if (i>=2) { double ai=a[i]; bi -= ai*p[i-2]; ci -= ai*q[i-2]; fi -= ai*g[i-2]; }
    if (i>=1) { ci -= bi*p[i-1]; di -= bi*q[i-1]; fi -= bi*g[i-1]; }
    p[i]= i<n-1 ? di/ci : 0.; q[i]= i<n-2 ? ei/ci : 0.; g[i]=fi/ci;
  }
  for (int i=n-1;i>=0;i--) { double v=g[i]; if (i+1<n) v-=p[i]*u[i+1]; if (i+2<n) v-=q[i]*u[i+2]; u[i]=v; }
  free(p); free(q); free(g);
}

/* complex helpers */
#define CMPLX_(a,b) __builtin_complex((double)(a),(double)(b))
dc xs_cexp(dc z) { double e=exp(creal(z)); return CMPLX_(e*cos(cimag(z)), e*sin(cimag(z))); }
double xs_cabs(dc z) { return sqrt(creal(z)*creal(z)+cimag(z)*cimag(z)); }
dc xs_csqrt(dc z) {
  double x=creal(z), y=cimag(z), r=sqrt(x*x+y*y);
  if (r==0.) return CMPLX_(0.,0.);
  if (y==0.) { if (x>=0.) return CMPLX_(sqrt(x),0.); return CMPLX_(0.,sqrt(-x)); }
  if (x>=0.) { double t=sqrt((r+x)/2.); return CMPLX_(t, y/(2.*t)); }
  else { double t=sqrt((r-x)/2.); double s = y<0.?-1.:1.; return CMPLX_(s*y/(2.*t), s*t); }
}
dc xs___divdc3(double a, double b, double c, double d) {
  double m=c*c+d*d; return CMPLX_((a*c+b*d)/m, (b*c-a*d)/m); }
dc xs___muldc3(double a, double b, double c, double d) { return CMPLX_(a*c-b*d, a*d+b*c); }

double xs_carg(dc z) { return atan2(cimag(z), creal(z)); }
dc xs_clog(dc z) { double x=creal(z), y=cimag(z); return CMPLX_(.5*log(x*x+y*y), atan2(y,x)); }
dc xs_cpow(dc a, dc b) {
  double x=creal(a), y=cimag(a);
  if (x==0. && y==0.) return CMPLX_(0.,0.);
  if (cimag(b)==0.) { int k=(int) creal(b); if ((double)k==creal(b) && k>=0 && k<64) { dc r=CMPLX_(1.,0.); for (;k>0;k--) r=xs___muldc3(creal(r),cimag(r),x,y); return r; } 
    if (y==0. && x>0.) return CMPLX_(pow(x,creal(b)),0.); }
  dc l=xs_clog(a); dc t=xs___muldc3(creal(l),cimag(l),creal(b),cimag(b)); return xs_cexp(t); }
