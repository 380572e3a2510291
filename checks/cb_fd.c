/* P16: inputs of the finite difference interface: every index and value symbolic. */
#include "cb.h"
#include "xrtm_fd_interface.h"
#define IDX(i,n) IN_I(i); ASSUME(i>=-1&&i<=(n))
#define EACH(i,n,call) for (int k_=-1;k_<=(n);k_++) if ((i)==k_) { const int K=k_; call; }
#define MAKE(opts,nk,kk) static xrtm_data d; static xrtm_fd_data f; CHECK(mk(&d,opts,XRTM_SOLVER_EIG_BVP,2,1,1,0,2,nk,kk,1,0)==0,"create"); CHECK(xrtm_fd_create(&f,&d,2)==0,"fd create"); CHECK(xrtm_fd_get_n_derivs(&f)==2,"n_derivs")
#define LAYER_P(q) do { MAKE(BASE,0,0); IN_D(a00); IN_D(a01); IN_D(a10); IN_D(a11); IN_D(x0); IN_D(x1); IDX(i,2); IDX(j,2); IN_I(way); ASSUME(way>=0&&way<=2); FIN(a00); FIN(a01); FIN(a10); FIN(a11); FIN(x0); FIN(x1); \
  double r0[2]={a00,a01},r1[2]={a10,a11},*a[2]={r0,r1},w[2][2]={{a00,a01},{a10,a11}},x[2]={x0,x1}; CHECK(xrtm_fd_get_##q##_p(&f,1,1)==0.&&xrtm_fd_get_##q##_p(&f,0,0)==0.,#q "_p: nothing is perturbed at first"); \
  CHECK(xrtm_fd_set_##q##_p_nn(&f,a)==0,#q "_p_nn: accepted"); int r=0; \
  if (way==0) { for (int m=-1;m<=2;m++) for (int n=-1;n<=2;n++) if (i==m&&j==n) { const int M=m,N=n; r=xrtm_fd_set_##q##_p_11(&f,M,N,x0); if (r==0&&M>=0&&M<2&&N>=0&&N<2) w[M][N]=x0; } CHECK((r==0)==(i>=0&&i<2&&j>=0&&j<2),#q "_p_11: accepted exactly when the indexes are in range"); } \
  if (way==1) { EACH(j,2,r=xrtm_fd_set_##q##_p_n1(&f,K,x); if (r==0&&K>=0&&K<2) { w[0][K]=x0; w[1][K]=x1; }); CHECK((r==0)==(j>=0&&j<2),#q "_p_n1: accepted exactly when the index is in range"); } \
  if (way==2) { EACH(i,2,r=xrtm_fd_set_##q##_p_1n(&f,K,x); if (r==0&&K>=0&&K<2) { w[K][0]=x0; w[K][1]=x1; }); CHECK((r==0)==(i>=0&&i<2),#q "_p_1n: accepted exactly when the index is in range"); } \
  for (int m=-1;m<=2;m++) for (int n=-1;n<=2;n++) if (i==m&&j==n&&(m<0||m>1||n<0||n>1)) { const int M=m,N=n; CHECK(xrtm_fd_get_##q##_p(&f,M,N)==XRTM_DBL_ERROR,#q "_p: reading out of range is refused"); } \
  CHECK(xrtm_fd_get_##q##_p(&f,0,0)==w[0][0]&&xrtm_fd_get_##q##_p(&f,0,1)==w[0][1]&&xrtm_fd_get_##q##_p(&f,1,0)==w[1][0]&&xrtm_fd_get_##q##_p(&f,1,1)==w[1][1],#q "_p: read back as set, others and refused calls change nothing"); REACH(); } while (0)
#ifdef h_omega   /* [memory] */
void HARNESS(void) { LAYER_P(omega); }
#endif
#ifdef h_ltau   /* [memory] */
void HARNESS(void) { LAYER_P(ltau); }
#endif
#define SCALAR_P(q) do { IN_D(a0_##q); IN_D(a1_##q); IN_D(x_##q); IDX(i_##q,2); FIN(a0_##q); FIN(a1_##q); FIN(x_##q); int i=i_##q; double a[2]={a0_##q,a1_##q},w[2]={a[0],a[1]},x=x_##q; CHECK(xrtm_fd_set_##q##_p_n(&f,a)==0,#q "_p_n: accepted"); int r=0; EACH(i,2,r=xrtm_fd_set_##q##_p_1(&f,K,x); if (r==0&&K>=0&&K<2) w[K]=x); \
  CHECK((r==0)==(i>=0&&i<2),#q "_p_1: accepted exactly when the index is in range"); CHECK(xrtm_fd_get_##q##_p(&f,0)==w[0]&&xrtm_fd_get_##q##_p(&f,1)==w[1],#q "_p: read back as set, others and refused calls change nothing"); \
  double g=0; EACH(i,2,g=xrtm_fd_get_##q##_p(&f,K)); if (i<0||i>1) CHECK(g==XRTM_DBL_ERROR||g==-1.,#q "_p: reading out of range is refused"); } while (0)
#ifdef h_source   /* [memory] */
void HARNESS(void) { MAKE(BASE|OP(SOURCE_THERMAL),0,0); SCALAR_P(F_iso_top); SCALAR_P(F_iso_bot); SCALAR_P(surface_b);
  IN_D(de0); IN_D(de1); FIN(de0); FIN(de1); double de[2]={de0,de1}, dg[2]; CHECK(xrtm_fd_set_delta(&f,de)==0&&xrtm_fd_get_delta(&f,dg)==0&&dg[0]==de0&&dg[1]==de1,"delta: read back as set"); REACH(); }
#endif
#ifdef h_levels_b   /* [memory] */
void HARNESS(void) { MAKE(BASE|OP(SOURCE_THERMAL),0,0); IN_D(a0); IN_D(a1); IN_D(a2); IN_D(b0); IN_D(b1); IN_D(b2); IN_D(x0); IN_D(x1); IN_D(x2); IDX(i,2); FIN(a0); FIN(a1); FIN(a2); FIN(b0); FIN(b1); FIN(b2); FIN(x0); FIN(x1); FIN(x2);
  double r[3][2]={{a0,b0},{a1,b1},{a2,b2}}, *a[3]={r[0],r[1],r[2]}, x[3]={x0,x1,x2}, g[3]; CHECK(xrtm_fd_set_levels_b_p_n(&f,a)==0,"levels_b_p_n: accepted"); int q=0; EACH(i,2,q=xrtm_fd_set_levels_b_p_1(&f,K,x); if (q==0&&K>=0&&K<2) for (int l=0;l<3;l++) r[l][K]=x[l]);
  CHECK((q==0)==(i>=0&&i<2),"levels_b_p_1: accepted exactly when the index is in range"); for (int j=0;j<2;j++) { CHECK(xrtm_fd_get_levels_b_p(&f,j,g)==0,"levels_b_p: can be read"); CHECK(g[0]==r[0][j]&&g[1]==r[1][j]&&g[2]==r[2][j],"levels_b_p: read back as set, others and refused calls change nothing"); } REACH(); }
#endif
#ifdef h_coef   /* [memory] */
static double **m2(double *p, double **q) { q[0]=p; return q; }
void HARNESS(void) { static xrtm_data d; static xrtm_fd_data f; CHECK(mk(&d,BASE,XRTM_SOLVER_EIG_BVP,3,1,1,0,2,0,0,1,0)==0,"create"); CHECK(xrtm_fd_create(&f,&d,2)==0,"fd create"); double c0[3]={1,.5,.1}, *c1[1]={c0}; CHECK(xrtm_set_coef_1(&d,0,3,c1)==0&&xrtm_set_coef_1(&d,1,2,c1)==0,"coefficients"); IN_D(x0); IN_D(x1); IN_D(x2); FIN(x0); FIN(x1); FIN(x2); IDX(i,2); IDX(j,2); IN_I(way); ASSUME(way>=0&&way<=3); IN_I(e); ASSUME(e>=-1&&e<=1); IN_I(c); ASSUME(c>=-1&&c<=3);
  double x[3]={x0,x1,x2}, y[3]={x2,x1,x0}, *q0[1]={x}, *q1[1]={y}, **v[2]={q0,q1}, ***V[2]={v,v}, w[2][2][3]={{{0}}}; int r=0;
  if (way==0) { for (int m=-1;m<=2;m++) for (int n=-1;n<=2;n++) if (i==m&&j==n) { const int M=m,N=n; r=xrtm_fd_set_coef_p_11(&f,M,N,q0); if (r==0&&M>=0&&M<2&&N>=0&&N<2) for (int l=0;l<3-M;l++) w[M][N][l]=x[l]; } CHECK((r==0)==(i>=0&&i<2&&j>=0&&j<2),"coef_p_11: accepted exactly when the indexes are in range"); }
  if (way==1) { EACH(j,2,r=xrtm_fd_set_coef_p_n1(&f,K,v); if (r==0&&K>=0&&K<2) { for (int l=0;l<3;l++) w[0][K][l]=x[l]; for (int l=0;l<2;l++) w[1][K][l]=y[l]; }); CHECK((r==0)==(j>=0&&j<2),"coef_p_n1: accepted exactly when the index is in range"); }
  if (way==2) { EACH(i,2,r=xrtm_fd_set_coef_p_1n(&f,K,v); if (r==0&&K>=0&&K<2) for (int l=0;l<3-K;l++) { w[K][0][l]=x[l]; w[K][1][l]=y[l]; }); CHECK((r==0)==(i>=0&&i<2),"coef_p_1n: accepted exactly when the index is in range"); }
  if (way==3) { CHECK(xrtm_fd_set_coef_p_nn(&f,V)==0,"coef_p_nn: accepted"); for (int m=0;m<2;m++) for (int l=0;l<3-m;l++) { w[m][0][l]=x[l]; w[m][1][l]=y[l]; } }
  for (int m=0;m<2;m++) for (int n=0;n<2;n++) for (int l=0;l<3-m;l++) CHECK(xrtm_fd_get_coef_p(&f,m,n,0,l)==w[m][n][l],"coef_p: read back as set, others and refused calls change nothing");
  for (int m=-1;m<=1;m++) for (int n=-1;n<=3;n++) if (e==m&&c==n) { const int M=m,N=n; double g=xrtm_fd_get_coef_p(&f,1,0,M,N); if (M!=0||N<0||N>1) CHECK(g==XRTM_DBL_ERROR,"coef_p: reading out of range is refused"); } REACH(); }
#endif
#ifdef h_kernel   /* [memory] */
void HARNESS(void) { enum xrtm_kernel_type kk[2]={XRTM_KERNEL_LAMBERTIAN,XRTM_KERNEL_RAHMAN}; MAKE(BASE,2,kk); IN_D(a0); IN_D(a1); IN_D(x0); FIN(a0); FIN(a1); FIN(x0); IDX(i,2); IDX(j,2); IN_I(p); ASSUME(p>=-1&&p<=3); IN_I(way); ASSUME(way>=0&&way<=4);
  double a[2]={a0,a1}, am[2][2]={{0}}, w[2][3]={{0}}, z[3]={a0,a1,x0}, z2[3]={x0,a0,a1}, *zz[2]={z,z2}; int r=0;
  if (way==0) { for (int m=-1;m<=2;m++) for (int n=-1;n<=2;n++) if (i==m&&j==n) { const int M=m,N=n; r=xrtm_fd_set_kernel_ampfac_p_1(&f,M,N,x0); if (r==0&&M>=0&&M<2&&N>=0&&N<2) am[M][N]=x0; double g=xrtm_fd_get_kernel_ampfac_p(&f,M,N); if (M<0||M>1||N<0||N>1) CHECK(g==XRTM_DBL_ERROR,"ampfac_p: reading out of range is refused"); } CHECK((r==0)==(i>=0&&i<2&&j>=0&&j<2),"ampfac_p_1: accepted exactly when the indexes are in range"); }
  if (way==1) { EACH(i,2,r=xrtm_fd_set_kernel_ampfac_p_n(&f,K,a); if (r==0&&K>=0&&K<2) { am[K][0]=a0; am[K][1]=a1; }); CHECK((r==0)==(i>=0&&i<2),"ampfac_p_n: accepted exactly when the index is in range"); }
  if (way==2) { for (int n=-1;n<=2;n++) for (int l=-1;l<=3;l++) if (j==n&&p==l) { const int N=n,L=l; r=xrtm_fd_set_kernel_params_p_11(&f,1,N,L,x0); if (r==0&&N>=0&&N<2&&L>=0&&L<3) w[N][L]=x0; double g=xrtm_fd_get_kernel_params_p(&f,1,N,L); if (N<0||N>1||L<0||L>2) CHECK(g==XRTM_DBL_ERROR,"params_p: reading out of range is refused"); } CHECK((r==0)==(j>=0&&j<2&&p>=0&&p<3),"params_p_11: accepted exactly when the indexes are in range"); }
  if (way==3) { EACH(j,2,r=xrtm_fd_set_kernel_params_p_1n(&f,1,K,z); if (r==0&&K>=0&&K<2) for (int l=0;l<3;l++) w[K][l]=z[l]); CHECK((r==0)==(j>=0&&j<2),"params_p_1n: accepted exactly when the index is in range");
    EACH(p,3,r=xrtm_fd_set_kernel_params_p_n1(&f,1,K,a); if (r==0&&K>=0&&K<3) { w[0][K]=a0; w[1][K]=a1; }); CHECK((r==0)==(p>=0&&p<3),"params_p_n1: accepted exactly when the index is in range"); }
  if (way==4) { CHECK(xrtm_fd_set_kernel_params_p_nn(&f,1,zz)==0,"params_p_nn: accepted"); for (int n=0;n<2;n++) for (int l=0;l<3;l++) w[n][l]=zz[n][l]; CHECK(xrtm_fd_set_kernel_params_p_11(&f,0,0,0,x0)!=0,"params_p: a kernel without parameters has none"); }
  int ok=1; for (int m=0;m<2;m++) for (int n=0;n<2;n++) ok=ok&&xrtm_fd_get_kernel_ampfac_p(&f,m,n)==am[m][n]; CHECK(ok,"ampfac_p: read back as set, others and refused calls change nothing"); ok=1; for (int n=0;n<2;n++) for (int l=0;l<3;l++) ok=ok&&xrtm_fd_get_kernel_params_p(&f,1,n,l)==w[n][l]; CHECK(ok,"params_p: read back as set, others and refused calls change nothing"); REACH(); }
#endif
