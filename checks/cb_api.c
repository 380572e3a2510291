/* P13: inputs are accepted exactly within their range, read back as given, one at a time or
   together, and a refused call changes nothing. Every double and index is symbolic. */
#include "cb.h"
#define IDX(i,n) IN_I(i); ASSUME(i>=-1&&i<=(n))
/* call with a constant index for each value the symbolic index can take */
#define EACH(i,n,call) for (int k_=-1;k_<=(n);k_++) if ((i)==k_) { const int K=k_; call; }

#define SCALAR(q,opts,solvers,valid_a,valid_x) do { static xrtm_data d; IN_D(a_##q); IN_D(x_##q); FIN(a_##q); FIN(x_##q); double a=a_##q,x=x_##q; ASSUME(valid_a); \
  CHECK(mk(&d,opts,solvers,2,1,1,0,2,0,0,1,0)==0,"create"); int r=xrtm_set_##q(&d,a); CHECK(r==0,#q ": a value in range is accepted"); CHECK(xrtm_get_##q(&d)==a,#q ": reads back as set"); \
  r=xrtm_set_##q(&d,x); CHECK((r==0)==(valid_x),#q ": accepted exactly when in range"); CHECK(xrtm_get_##q(&d)==(r==0?x:a),#q ": a refused call changes nothing"); } while (0)

#ifdef h_source
void HARNESS(void) {
  SCALAR(F_0,BASE,XRTM_SOLVER_EIG_BVP,a>=0,x>=0);
  SCALAR(F_iso_top,BASE,XRTM_SOLVER_EIG_BVP,a>=0,x>=0);
  SCALAR(F_iso_bot,BASE,XRTM_SOLVER_EIG_BVP,a>=0,x>=0);
  SCALAR(surface_b,BASE|OP(SOURCE_THERMAL),XRTM_SOLVER_EIG_BVP,a>=0,x>=0);
  SCALAR(lambda,BASE|OP(SOURCE_THERMAL),XRTM_SOLVER_EIG_BVP,a>0,x>0);
  SCALAR(phi_0,BASE,XRTM_SOLVER_EIG_BVP,1,1);
  SCALAR(planet_r,BASE|OP(PSA),XRTM_SOLVER_EIG_BVP,a>0,x>0);
  REACH(); }
#endif
#ifdef h_params
void HARNESS(void) {
  SCALAR(doub_d_tau,BASE,XRTM_SOLVER_DOUB_ADD,a>0,x>0);
  SCALAR(fourier_tol,BASE,XRTM_SOLVER_EIG_BVP,a>=0,x>=0);
  { static xrtm_data d; IN_I(os); IN_I(os2); IN_D(tau); IN_D(tol); IN_D(tau2); IN_D(tol2); FIN(tau); FIN(tol); FIN(tau2); FIN(tol2); ASSUME(os>0&&tau>0&&tol>=0);
    CHECK(mk(&d,BASE,XRTM_SOLVER_SOS,2,1,1,0,2,0,0,1,0)==0,"create"); CHECK(xrtm_set_sos_params(&d,os,tau,tol)==0,"sos_params: values in range are accepted");
    int r=xrtm_set_sos_params(&d,os2,tau2,tol2); CHECK((r==0)==(os2>0&&tau2>0&&tol2>=0),"sos_params: accepted exactly when in range");
    int o=0; double t=0,l=0; CHECK(xrtm_get_sos_params(&d,&o,&t,&l)==0,"sos_params: can be read"); CHECK(o==(r?os:os2)&&t==(r?tau:tau2)&&l==(r?tol:tol2),"sos_params: read back as set"); }
  { static xrtm_data d; IN_I(ps); IN_I(pr); CHECK(mk(&d,BASE,XRTM_SOLVER_PADE_ADD,2,1,1,0,2,0,0,1,0)==0,"create"); CHECK(xrtm_set_pade_params(&d,ps,pr)==0,"pade_params: accepted"); int s=0,r=0; CHECK(xrtm_get_pade_params(&d,&s,&r)==0&&s==ps&&r==pr,"pade_params: read back as set"); }
  REACH(); }
#endif
#ifdef h_unavailable   /* inputs the instance was not made for are refused, whatever their value */
void HARNESS(void) { static xrtm_data d, e; IN_D(x); FIN(x); double v[3]={x,x,x}; int l[1]={0}; double *vv[3]={v,v,v};
  CHECK(mk(&d,OP(OUTPUT_AT_LEVELS)|OP(SOURCE_THERMAL),XRTM_SOLVER_EIG_BVP,2,1,1,0,2,0,0,1,0)==0,"create");
  CHECK(xrtm_set_F_0(&d,x)!=0,"F_0 without a solar source"); CHECK(xrtm_set_theta_0(&d,x)!=0,"theta_0 without a solar source");
  CHECK(xrtm_set_planet_r(&d,x)!=0&&xrtm_set_levels_z(&d,v)!=0,"planet_r and levels_z without psa"); CHECK(xrtm_set_out_thetas(&d,v)!=0,"out_thetas without output angles"); CHECK(xrtm_set_out_taus(&d,v)!=0,"out_taus with output at levels");
  CHECK(xrtm_set_omega_l_11(&d,0,0,x)!=0&&xrtm_set_ltau_l_1n(&d,0,v)!=0&&xrtm_set_F_iso_top_l_1(&d,0,x)!=0&&xrtm_set_levels_b_l_1(&d,0,v)!=0&&xrtm_set_surface_b_l_n(&d,v)!=0,"linearised inputs without derivatives");
  CHECK(xrtm_set_kernel_ampfac(&d,0,x)!=0&&xrtm_set_kernel_params_1(&d,0,0,x)!=0,"kernel inputs without kernels"); CHECK(xrtm_set_g_1(&d,0,x)!=0,"g without a solver that uses it");
  CHECK(mk(&e,OP(OUTPUT_AT_TAUS)|OP(SOURCE_SOLAR)|OP(CALC_DERIVS),XRTM_SOLVER_EIG_BVP,2,1,1,1,2,0,0,1,0)==0,"create");
  CHECK(xrtm_set_out_levels(&e,l)!=0,"out_levels with output at taus"); CHECK(xrtm_set_levels_b(&e,v)!=0&&xrtm_set_surface_b(&e,x)!=0&&xrtm_set_lambda(&e,x)!=0&&xrtm_set_levels_b_l_n(&e,vv)!=0&&xrtm_set_surface_b_l_1(&e,0,x)!=0,"thermal inputs without a thermal source");
  REACH(); }
#endif
#ifdef h_unset   /* [memory] */  /* an input cannot be read before it is set */
void HARNESS(void) { static xrtm_data d, e; enum xrtm_kernel_type k[1]={XRTM_KERNEL_LAMBERTIAN}; IDX(i,2); double v[3]; int l[2];
  CHECK(mk(&d,BASE|OP(SOURCE_THERMAL)|OP(PSA),XRTM_SOLVER_EIG_BVP,2,1,1,0,2,0,0,2,1)==0,"create");
  EACH(i,2,CHECK(xrtm_get_omega(&d,K)==XRTM_DBL_ERROR&&xrtm_get_ltau(&d,K)==XRTM_DBL_ERROR&&xrtm_get_coef(&d,K,0,0)==XRTM_DBL_ERROR&&xrtm_get_n_coef(&d,K)==XRTM_INT_ERROR,"unset layer inputs cannot be read"));
  CHECK(xrtm_get_F_0(&d)==XRTM_DBL_ERROR&&xrtm_get_theta_0(&d)==XRTM_DBL_ERROR&&xrtm_get_planet_r(&d)==XRTM_DBL_ERROR&&xrtm_get_surface_b(&d)==XRTM_DBL_ERROR&&xrtm_get_lambda(&d)==XRTM_DBL_ERROR,"unset scalars cannot be read");
  CHECK(xrtm_get_levels_z(&d,v)==XRTM_INT_ERROR&&xrtm_get_levels_b(&d,v)==XRTM_INT_ERROR&&xrtm_get_out_thetas(&d,v)==XRTM_INT_ERROR&&xrtm_get_out_levels(&d,l)==XRTM_INT_ERROR,"unset vectors cannot be read");
  REACH(); }
#endif
#define LAYER(q,opts,solvers,VALID,EQ) do { static xrtm_data d; IN_D(a0_##q); IN_D(a1_##q); IN_D(x_##q); IN_D(y_##q); IDX(i_##q,2); IDX(j_##q,2); FIN(a0_##q); FIN(a1_##q); FIN(x_##q); FIN(y_##q); ASSUME(VALID(a0_##q)&&VALID(a1_##q)); \
  double a[2]={a0_##q,a1_##q},b[2]={x_##q,y_##q},w[2]; int i=i_##q,j=j_##q; double x=x_##q; CHECK(mk(&d,opts,solvers,2,1,1,0,2,0,0,1,0)==0,"create"); \
  CHECK(xrtm_set_##q##_n(&d,a)==0,#q "_n: values in range are accepted"); w[0]=a[0]; w[1]=a[1]; \
  int r=0; EACH(i,2,r=xrtm_set_##q##_1(&d,K,x)); CHECK((r==0)==(i>=0&&i<2&&VALID(x)),#q "_1: accepted exactly when in range"); if (r==0) { if (i==0) w[0]=x; else w[1]=x; } \
  CHECK(EQ(xrtm_get_##q(&d,0),w[0])&&EQ(xrtm_get_##q(&d,1),w[1]),#q "_1: read back as set, others and refused calls change nothing"); \
  double g=0; EACH(j,2,g=xrtm_get_##q(&d,K)); if (j<0||j>1) CHECK(g==XRTM_DBL_ERROR,#q ": reading a layer out of range is refused"); \
  r=xrtm_set_##q##_n(&d,b); CHECK((r==0)==(VALID(b[0])&&VALID(b[1])),#q "_n: accepted exactly when all are in range"); if (r==0) { w[0]=b[0]; w[1]=b[1]; } \
  CHECK(EQ(xrtm_get_##q(&d,0),w[0])&&EQ(xrtm_get_##q(&d,1),w[1]),#q "_n: read back as set, refused calls change nothing"); } while (0)
#define V01(x) ((x)>=0&&(x)<=1)
#define VPOS(x) ((x)>0)
#define EXACT(g,x) ((g)==(x))
/* albedos closer to one than the documented threshold are moved to it */
#define THRESH(g,x) ((g)==(x)||((x)>1-1.0001e-5&&(g)<=(x)&&(g)>=1-1.0001e-5))
#ifdef h_omega   /* [memory] */
void HARNESS(void) { LAYER(omega,BASE,XRTM_SOLVER_EIG_BVP,V01,THRESH); REACH(); }
#endif
#ifdef h_ltau   /* [memory] */
void HARNESS(void) { LAYER(ltau,BASE,XRTM_SOLVER_EIG_BVP,VPOS,EXACT); REACH(); }
#endif
#define D2 (BASE|OP(CALC_DERIVS))
/* all four ways to set one linearised layer input; A is what is there before */
#define LAYER_L(q,opts,solvers) do { static xrtm_data d; IN_D(a00); IN_D(a01); IN_D(a10); IN_D(a11); IN_D(x0); IN_D(x1); IDX(i,2); IDX(j,2); IN_I(way); ASSUME(way>=0&&way<=2); FIN(a00); FIN(a01); FIN(a10); FIN(a11); FIN(x0); FIN(x1); \
  CHECK(mk(&d,opts,solvers,2,1,1,2,2,0,0,1,0)==0,"create"); double r0[2]={a00,a01},r1[2]={a10,a11},*a[2]={r0,r1},w[2][2]={{a00,a01},{a10,a11}},x[2]={x0,x1}; \
  CHECK(xrtm_set_##q##_l_nn(&d,a)==0,#q "_l_nn: accepted"); int r=0; \
  if (way==0) { for (int m=-1;m<=2;m++) for (int n=-1;n<=2;n++) if (i==m&&j==n) { const int M=m,N=n; r=xrtm_set_##q##_l_11(&d,M,N,x0); if (r==0&&M>=0&&M<2&&N>=0&&N<2) w[M][N]=x0; } CHECK((r==0)==(i>=0&&i<2&&j>=0&&j<2),#q "_l_11: accepted exactly when the indexes are in range"); } \
  if (way==1) { EACH(j,2,r=xrtm_set_##q##_l_n1(&d,K,x); if (r==0&&K>=0&&K<2) { w[0][K]=x0; w[1][K]=x1; }); CHECK((r==0)==(j>=0&&j<2),#q "_l_n1: accepted exactly when the index is in range"); } \
  if (way==2) { EACH(i,2,r=xrtm_set_##q##_l_1n(&d,K,x); if (r==0&&K>=0&&K<2) { w[K][0]=x0; w[K][1]=x1; }); CHECK((r==0)==(i>=0&&i<2),#q "_l_1n: accepted exactly when the index is in range"); } \
  CHECK(xrtm_get_##q##_l(&d,0,0)==w[0][0]&&xrtm_get_##q##_l(&d,0,1)==w[0][1]&&xrtm_get_##q##_l(&d,1,0)==w[1][0]&&xrtm_get_##q##_l(&d,1,1)==w[1][1],#q "_l: read back as set, others and refused calls change nothing"); REACH(); } while (0)
#ifdef h_omega_l
void HARNESS(void) { LAYER_L(omega,D2,XRTM_SOLVER_EIG_BVP); }
#endif
#ifdef h_ltau_l
void HARNESS(void) { LAYER_L(ltau,D2,XRTM_SOLVER_EIG_BVP); }
#endif
/* scalars with derivatives */
#define SCALAR_L(q,opts) do { static xrtm_data d; IN_D(a0_##q); IN_D(a1_##q); IN_D(x_##q); IDX(i_##q,2); IDX(j_##q,2); FIN(a0_##q); FIN(a1_##q); FIN(x_##q); int i=i_##q,j=j_##q; double a[2]={a0_##q,a1_##q},w[2]={a[0],a[1]},x=x_##q; \
  CHECK(mk(&d,opts,XRTM_SOLVER_EIG_BVP,2,1,1,2,2,0,0,1,0)==0,"create"); CHECK(xrtm_set_##q##_l_n(&d,a)==0,#q "_l_n: accepted"); int r=0; EACH(i,2,r=xrtm_set_##q##_l_1(&d,K,x); if (r==0&&K>=0&&K<2) w[K]=x); \
  CHECK((r==0)==(i>=0&&i<2),#q "_l_1: accepted exactly when the index is in range"); CHECK(xrtm_get_##q##_l(&d,0)==w[0]&&xrtm_get_##q##_l(&d,1)==w[1],#q "_l: read back as set, others and refused calls change nothing"); \
  double g=0; EACH(j,2,g=xrtm_get_##q##_l(&d,K)); if (j<0||j>1) CHECK(g==XRTM_DBL_ERROR,#q "_l: reading a derivative out of range is refused"); } while (0)
#ifdef h_source_l
void HARNESS(void) { SCALAR_L(F_iso_top,D2); SCALAR_L(F_iso_bot,D2); SCALAR_L(surface_b,D2|OP(SOURCE_THERMAL)); REACH(); }
#endif
#ifdef h_levels_b
void HARNESS(void) { static xrtm_data d; IN_D(a0); IN_D(a1); IN_D(a2); IN_D(x0); IN_D(x1); IN_D(x2); FIN(a0); FIN(a1); FIN(a2); FIN(x0); FIN(x1); FIN(x2); ASSUME(a0>=0&&a1>=0&&a2>=0); IDX(i,2);
  double a[3]={a0,a1,a2},x[3]={x0,x1,x2},g[3]; CHECK(mk(&d,D2|OP(SOURCE_THERMAL),XRTM_SOLVER_EIG_BVP,2,1,1,2,2,0,0,1,0)==0,"create"); CHECK(xrtm_set_levels_b(&d,a)==0,"levels_b: values in range are accepted");
  int r=xrtm_set_levels_b(&d,x); CHECK((r==0)==(x0>=0&&x1>=0&&x2>=0),"levels_b: accepted exactly when in range"); CHECK(xrtm_get_levels_b(&d,g)==0&&g[0]==(r?a0:x0)&&g[1]==(r?a1:x1)&&g[2]==(r?a2:x2),"levels_b: read back as set, refused calls change nothing");
  double p0[2]={a0,x0},p1[2]={a1,x1},p2[2]={a2,x2},*p[3]={p0,p1,p2},z[3]={1,2,3}; CHECK(xrtm_set_levels_b_l_n(&d,p)==0,"levels_b_l_n: accepted"); r=0; EACH(i,2,r=xrtm_set_levels_b_l_1(&d,K,z)); CHECK((r==0)==(i>=0&&i<2),"levels_b_l_1: accepted exactly when the index is in range");
  for (int j=0;j<2;j++) { CHECK(xrtm_get_levels_b_l(&d,j,g)==0,"levels_b_l: can be read"); for (int k=0;k<3;k++) CHECK(g[k]==(r==0&&i==j?z[k]:p[k][j]),"levels_b_l: read back as set"); }
  REACH(); }
#endif
#ifdef h_geometry
void HARNESS(void) {
  { static xrtm_data d; IN_D(a0); IN_D(a1); IN_D(a2); IN_D(x0); IN_D(x1); IN_D(x2); FIN(a0); FIN(a1); FIN(a2); FIN(x0); FIN(x1); FIN(x2); ASSUME(a0>a1&&a1>a2); ASSUME(x0!=x1&&x1!=x2); double a[3]={a0,a1,a2},x[3]={x0,x1,x2},g[3];
    CHECK(mk(&d,BASE|OP(PSA),XRTM_SOLVER_EIG_BVP,2,1,1,0,2,0,0,1,0)==0,"create"); CHECK(xrtm_set_levels_z(&d,a)==0,"levels_z: decreasing heights are accepted"); int r=xrtm_set_levels_z(&d,x); CHECK((r==0)==(x0>x1&&x1>x2),"levels_z: accepted exactly when decreasing");
    CHECK(xrtm_get_levels_z(&d,g)==0&&g[0]==(r?a0:x0)&&g[1]==(r?a1:x1)&&g[2]==(r?a2:x2),"levels_z: read back as set, refused calls change nothing"); }
  { static xrtm_data d; IN_D(t0); IN_D(t1); IN_D(u0); IN_D(u1); FIN(t0); FIN(t1); FIN(u0); FIN(u1); ASSUME(t0>=0&&t1>=0); double t[2]={t0,t1},u[2]={u0,u1},g[2];
    CHECK(mk(&d,OP(OUTPUT_AT_TAUS)|OP(SOURCE_SOLAR),XRTM_SOLVER_EIG_BVP,2,1,1,0,2,0,0,2,0)==0,"create"); CHECK(xrtm_set_out_taus(&d,t)==0,"out_taus: values in range are accepted"); int r=xrtm_set_out_taus(&d,u); CHECK((r==0)==(u0>=0&&u1>=0),"out_taus: accepted exactly when in range");
    CHECK(xrtm_get_out_taus(&d,g)==0&&g[0]==(r?t0:u0)&&g[1]==(r?t1:u1),"out_taus: read back as set, refused calls change nothing"); }
  { static xrtm_data d; IN_D(th); FIN(th); CHECK(mk(&d,BASE,XRTM_SOLVER_EIG_BVP,2,1,1,0,2,0,0,1,1)==0,"create"); double v[1]={th}; CHECK((xrtm_set_out_thetas(&d,v)==0)==(th>=0&&th<90),"out_thetas: accepted exactly when in range"); }
  { static xrtm_data d; IN_D(t_0); FIN(t_0); CHECK(mk(&d,BASE,XRTM_SOLVER_EIG_BVP,2,1,1,0,2,0,0,1,0)==0,"create"); CHECK((xrtm_set_theta_0(&d,t_0)==0)==(t_0>=0&&t_0<90),"theta_0: accepted exactly when in range"); }
  REACH(); }
#endif
#ifdef h_out_levels   /* [memory] */
void HARNESS(void) { IN_I(a0); IN_I(a1); IN_I(x0); IN_I(x1); int a[2]={a0,a1},x[2]={x0,x1},g[2]; ASSUME(a0>=0&&a1>a0&&a1<=2);
  { static xrtm_data d; CHECK(mk(&d,BASE,XRTM_SOLVER_EIG_BVP,2,1,1,0,2,0,0,2,0)==0,"create"); CHECK(xrtm_set_out_levels(&d,a)==0,"out_levels: increasing levels are accepted"); int r=xrtm_set_out_levels(&d,x); CHECK((r==0)==(x0>=0&&x1>x0&&x1<=2),"out_levels: accepted exactly when increasing and in range");
    CHECK(xrtm_get_out_levels(&d,g)==0&&g[0]==(r?a0:x0)&&g[1]==(r?a1:x1),"out_levels: read back as set, refused calls change nothing"); }
  { static xrtm_data d; CHECK(mk(&d,BASE,XRTM_SOLVER_EIG_ADD,2,1,1,0,2,0,0,2,0)==0,"create"); CHECK((xrtm_set_out_levels(&d,x)==0)==(x0==0&&x1==2),"out_levels: the adding solvers offer top and bottom only"); }
  { static xrtm_data d; CHECK(mk(&d,BASE|OP(TOP_DOWN_ADDING),XRTM_SOLVER_EIG_ADD,2,1,1,0,2,0,0,1,0)==0,"create"); CHECK((xrtm_set_out_levels(&d,x)==0)==(x0==2),"out_levels: top-down adding offers the bottom only"); }
  { static xrtm_data d; CHECK(mk(&d,BASE|OP(BOTTOM_UP_ADDING),XRTM_SOLVER_EIG_ADD,2,1,1,0,2,0,0,1,0)==0,"create"); CHECK((xrtm_set_out_levels(&d,x)==0)==(x0==0),"out_levels: bottom-up adding offers the top only"); }
  REACH(); }
#endif
#ifdef h_coef   /* [memory] */
void HARNESS(void) { static xrtm_data d; IN_D(a); IN_D(b); IN_D(x0); IN_D(x1); FIN(a); FIN(b); FIN(x0); FIN(x1); IDX(i,2); IN_I(n); ASSUME(n>=-1&&n<=4); IN_D(y0); IN_D(y1); IN_D(z0); IN_D(z1); FIN(y0); FIN(y1); FIN(z0); FIN(z1);
  double c0[3]={1,a},c1[3]={1,b},x[5]={x0,x1,0}; double *p0[1]={c0},*p1[1]={c1},*px[1]={x}; double **p[2]={p0,p1}; int nn[2]={2,2},w0=2,w1=2; double v0=a,v1=b;
  CHECK(mk(&d,BASE,XRTM_SOLVER_EIG_BVP,3,1,1,0,2,0,0,1,0)==0,"create"); CHECK(xrtm_set_coef_n(&d,nn,p)==0,"coef_n: normalised coefficients are accepted");
  int r=0; for (int m=-1;m<=2;m++) for (int k=-1;k<=4;k++) if (i==m&&n==k) { const int M=m,N=k; r=xrtm_set_coef_1(&d,M,N,px); }
  int one=fabs(1.-x0)<=DBL_EPSILON, ne=n<0?3:n; CHECK((r==0)==(i>=0&&i<2&&n<=3&&(ne<2||one)),"coef_1: accepted exactly when in range and normalised");
  if (r==0) { if (i==0) w0=ne; else w1=ne; }
  CHECK(xrtm_get_n_coef(&d,0)==w0&&xrtm_get_n_coef(&d,1)==w1,"coef_1: numbers of coefficients read back as set, others and refused calls change nothing");
  if (w0>1) CHECK(xrtm_get_coef(&d,0,0,1)==(r==0&&i==0?x1:a)&&xrtm_get_coef(&d,0,0,0)==(r==0&&i==0?x0:1.),"coef_1: read back as set (layer 0)"); else CHECK(xrtm_get_coef(&d,0,0,1)==XRTM_DBL_ERROR,"coef_1: a coefficient beyond the last cannot be read");
  if (w1>1) CHECK(xrtm_get_coef(&d,1,0,1)==(r==0&&i==1?x1:b)&&xrtm_get_coef(&d,1,0,0)==(r==0&&i==1?x0:1.),"coef_1: read back as set (layer 1)");
  REACH(); }
#endif
#ifdef h_coef_n
void HARNESS(void) { static xrtm_data d; IN_D(a); IN_D(b); FIN(a); FIN(b); IN_D(y0); IN_D(y1); IN_D(z0); IN_D(z1); FIN(y0); FIN(y1); FIN(z0); FIN(z1);
  double c0[2]={1,a},c1[2]={1,b}; double *p0[1]={c0},*p1[1]={c1}; double **p[2]={p0,p1}; int nn[2]={2,2};
  CHECK(mk(&d,BASE,XRTM_SOLVER_EIG_BVP,2,1,1,0,2,0,0,1,0)==0,"create"); CHECK(xrtm_set_coef_n(&d,nn,p)==0,"coef_n: normalised coefficients are accepted");
  double e0[2]={y0,y1},e1[2]={z0,z1}; double *q0[1]={e0},*q1[1]={e1}; double **q[2]={q0,q1}; int r=xrtm_set_coef_n(&d,0,q); int ok=fabs(1.-y0)<=DBL_EPSILON&&fabs(1.-z0)<=DBL_EPSILON;
  CHECK((r==0)==ok,"coef_n: accepted exactly when every layer is normalised");
  CHECK(xrtm_get_coef(&d,0,0,0)==(r?1.:y0)&&xrtm_get_coef(&d,0,0,1)==(r?a:y1)&&xrtm_get_coef(&d,1,0,0)==(r?1.:z0)&&xrtm_get_coef(&d,1,0,1)==(r?b:z1),"coef_n: read back as set, refused calls change nothing");
  REACH(); }
#endif
#ifdef h_coef_l
void HARNESS(void) { static xrtm_data d; IN_I(way); ASSUME(way>=0&&way<=2); IDX(i,2); IDX(j,2);
  IN_D(a0); IN_D(a1); IN_D(a2); IN_D(a3); IN_D(x0); IN_D(x1); FIN(a0); FIN(a1); FIN(a2); FIN(a3); FIN(x0); FIN(x1);
  double b[2][2][2]={{{0,a0},{0,a1}},{{0,a2},{0,a3}}}, w[2][2]={{a0,a1},{a2,a3}}, y[2][2]={{0,x0},{0,x1}}, one[2]={1,.5};
  double *e00[1]={b[0][0]},*e01[1]={b[0][1]},*e10[1]={b[1][0]},*e11[1]={b[1][1]}; double **f0[2]={e00,e01},**f1[2]={e10,e11}; double ***all[2]={f0,f1}; double *y0[1]={y[0]},*y1[1]={y[1]}; double **yy[2]={y0,y1}; double *o0[1]={one}; double **oo[2]={o0,o0}; int nn[2]={2,2};
  CHECK(mk(&d,D2,XRTM_SOLVER_EIG_BVP,2,1,1,2,2,0,0,1,0)==0,"create"); CHECK(xrtm_set_coef_n(&d,nn,oo)==0,"coef_n: accepted"); CHECK(xrtm_set_coef_l_nn(&d,all)==0,"coef_l_nn: accepted"); int r=0;
  if (way==0) { for (int m=-1;m<=2;m++) for (int n=-1;n<=2;n++) if (i==m&&j==n) { const int M=m,N=n; r=xrtm_set_coef_l_11(&d,M,N,y0); if (r==0&&M>=0&&M<2&&N>=0&&N<2) w[M][N]=x0; } CHECK((r==0)==(i>=0&&i<2&&j>=0&&j<2),"coef_l_11: accepted exactly when the indexes are in range"); }
  if (way==1) { EACH(j,2,r=xrtm_set_coef_l_n1(&d,K,yy); if (r==0&&K>=0&&K<2) { w[0][K]=x0; w[1][K]=x1; }); CHECK((r==0)==(j>=0&&j<2),"coef_l_n1: accepted exactly when the index is in range"); }
  if (way==2) { EACH(i,2,r=xrtm_set_coef_l_1n(&d,K,yy); if (r==0&&K>=0&&K<2) { w[K][0]=x0; w[K][1]=x1; }); CHECK((r==0)==(i>=0&&i<2),"coef_l_1n: accepted exactly when the index is in range"); }
  CHECK(xrtm_get_coef_l(&d,0,0,0,1)==w[0][0]&&xrtm_get_coef_l(&d,0,1,0,1)==w[0][1]&&xrtm_get_coef_l(&d,1,0,0,1)==w[1][0]&&xrtm_get_coef_l(&d,1,1,0,1)==w[1][1],"coef_l: read back as set, others and refused calls change nothing");
  REACH(); }
#endif
#ifdef h_kernel   /* [memory] */
void HARNESS(void) { static xrtm_data d; enum xrtm_kernel_type k[2]={XRTM_KERNEL_LAMBERTIAN,XRTM_KERNEL_RAHMAN}; IN_D(a); IN_D(x); IN_D(p0); IN_D(p1); IN_D(p2); IN_D(y); FIN(a); FIN(x); FIN(p0); FIN(p1); FIN(p2); FIN(y); ASSUME(V01(a)); IDX(i,2); IN_I(j); ASSUME(j>=-1&&j<=4);
  CHECK(mk(&d,BASE,XRTM_SOLVER_TWO_STREAM,2,1,1,0,2,2,k,1,0)==0,"create"); CHECK(xrtm_set_kernel_ampfac(&d,0,a)==0&&xrtm_set_kernel_ampfac(&d,1,a)==0,"kernel_ampfac: values in range are accepted");
  int r=0; EACH(i,2,r=xrtm_set_kernel_ampfac(&d,K,x)); CHECK((r==0)==(i>=0&&i<2&&V01(x)),"kernel_ampfac: accepted exactly when in range"); CHECK(xrtm_get_kernel_ampfac(&d,0)==(r==0&&i==0?x:a)&&xrtm_get_kernel_ampfac(&d,1)==(r==0&&i==1?x:a),"kernel_ampfac: read back as set, others and refused calls change nothing");
  double p[3]={p0,p1,p2}; CHECK(xrtm_set_kernel_params_n(&d,1,p)==0,"kernel_params_n: accepted"); EACH(i,2,r=xrtm_set_kernel_params_n(&d,K,p)); CHECK((r==0)==(i>=0&&i<2),"kernel_params_n: accepted exactly when the index is in range");
  EACH(j,4,r=xrtm_set_kernel_params_1(&d,1,K,y)); CHECK((r==0)==(j>=0&&j<3),"kernel_params_1: accepted exactly when the kernel has the parameter"); for (int m=0;m<3;m++) CHECK(xrtm_get_kernel_params(&d,1,m)==(j==m?y:p[m]),"kernel_params: read back as set, others and refused calls change nothing");
  CHECK(xrtm_set_kernel_params_1(&d,0,0,y)!=0,"kernel_params_1: a Lambertian surface has no parameters"); CHECK(xrtm_get_kernel_params(&d,1,3)==XRTM_DBL_ERROR&&xrtm_get_kernel_params(&d,0,0)==XRTM_DBL_ERROR,"kernel_params: what a kernel does not have cannot be read");
  CHECK(xrtm_get_kernel(&d,0)==XRTM_KERNEL_LAMBERTIAN&&xrtm_get_kernel(&d,1)==XRTM_KERNEL_RAHMAN,"kernel: as created");
  REACH(); }
#endif
#ifdef h_kernel_l
void HARNESS(void) { static xrtm_data d; enum xrtm_kernel_type k[1]={XRTM_KERNEL_RAHMAN}; IDX(i,2); IN_I(j); ASSUME(j>=-1&&j<=3); IN_I(way); ASSUME(way>=0&&way<=2); IN_D(a0); IN_D(a1); IN_D(x0); IN_D(x1); IN_D(x2); IN_D(b0); IN_D(b1); IN_D(b2); IN_D(b3); IN_D(b4); IN_D(b5);
  FIN(a0); FIN(a1); FIN(x0); FIN(x1); FIN(x2); FIN(b0); FIN(b1); FIN(b2); FIN(b3); FIN(b4); FIN(b5); double a[2]={a0,a1},x[3]={x0,x1,x2},w[2][3]={{b0,b1,b2},{b3,b4,b5}},q0[3]={b0,b1,b2},q1[3]={b3,b4,b5},*q[2]={q0,q1};
  CHECK(mk(&d,D2,XRTM_SOLVER_TWO_STREAM,2,1,1,2,2,1,k,1,0)==0,"create"); CHECK(xrtm_set_kernel_ampfac_l_n(&d,0,a)==0,"kernel_ampfac_l_n: accepted"); int r=0; EACH(i,2,r=xrtm_set_kernel_ampfac_l_1(&d,0,K,x0)); CHECK((r==0)==(i>=0&&i<2),"kernel_ampfac_l_1: accepted exactly when the index is in range");
  CHECK(xrtm_get_kernel_ampfac_l(&d,0,0)==(i==0?x0:a0)&&xrtm_get_kernel_ampfac_l(&d,0,1)==(i==1?x0:a1),"kernel_ampfac_l: read back as set, others and refused calls change nothing");
  CHECK(xrtm_set_kernel_params_l_nn(&d,0,q)==0,"kernel_params_l_nn: accepted"); r=0;
  if (way==0) { for (int m=-1;m<=2;m++) for (int n=-1;n<=3;n++) if (i==m&&j==n) { const int M=m,N=n; r=xrtm_set_kernel_params_l_11(&d,0,M,N,x0); if (r==0&&M>=0&&M<2&&N>=0&&N<3) w[M][N]=x0; } CHECK((r==0)==(i>=0&&i<2&&j>=0&&j<3),"kernel_params_l_11: accepted exactly when the indexes are in range"); }
  if (way==1) { EACH(j,3,r=xrtm_set_kernel_params_l_n1(&d,0,K,x); if (r==0&&K>=0&&K<3) { w[0][K]=x0; w[1][K]=x1; }); CHECK((r==0)==(j>=0&&j<3),"kernel_params_l_n1: accepted exactly when the index is in range"); }
  if (way==2) { EACH(i,2,r=xrtm_set_kernel_params_l_1n(&d,0,K,x); if (r==0&&K>=0&&K<2) { w[K][0]=x0; w[K][1]=x1; w[K][2]=x2; }); CHECK((r==0)==(i>=0&&i<2),"kernel_params_l_1n: accepted exactly when the index is in range"); }
  for (int m=0;m<2;m++) for (int n=0;n<3;n++) CHECK(xrtm_get_kernel_params_l(&d,0,m,n)==w[m][n],"kernel_params_l: read back as set, others and refused calls change nothing");
  REACH(); }
#endif
