/* P15: which combinations of options, sizes and solvers can be created, what creation
   fills in, and which requests an instance answers. Options, solver sets and sizes are symbolic. */
#include "cb.h"
static int bits(int m) { int n=0; for (int i=0;i<32;i++) n+=(m>>i)&1; return n; }
#define O(x) (((unsigned)m&(unsigned)XRTM_OPTION_##x)!=0)
#define N_OF2(a,b) (O(a)+O(b))
#define N_OF3(a,b,c) (O(a)+O(b)+O(c))
static int good_options(int m) {
  return N_OF2(FOUR_CONV_OLD,FOUR_CONV_NEW)==1&&N_OF2(OUTPUT_AT_LEVELS,OUTPUT_AT_TAUS)==1&&N_OF2(PART_SOL_CLASSICAL,PART_SOL_GREENS)==1&&N_OF3(PHASE_SCALAR,PHASE_MATRIX_GC,PHASE_MATRIX_LC)==1
       &&N_OF3(QUAD_NORM_GAUS_LEG,QUAD_DOUB_GAUS_LEG,QUAD_LOBATTO)==1&&N_OF2(UPWELLING_OUTPUT,DOWNWELLING_OUTPUT)>=1&&O(VECTOR)==!O(PHASE_SCALAR)
       &&!(O(N_T_TMS)&&O(NO_AZIMUTHAL))&&!(O(TOP_DOWN_ADDING)&&O(BOTTOM_UP_ADDING))&&(!O(STACK_REUSE_ADDING)||(O(CALC_DERIVS)&&!O(TOP_DOWN_ADDING)&&!O(SAVE_LAYER_R_T_S))); }
static int good_counts(int m, int max_coef, int n_quad, int n_stokes, int n_derivs, int n_levels, int n_thetas) {
  return (n_derivs>0)==O(CALC_DERIVS)&&!(O(DELTA_M)&&max_coef<2*n_quad+1)&&!(O(SFI)&&n_thetas==0)&&!((O(TOP_DOWN_ADDING)||O(BOTTOM_UP_ADDING))&&n_levels!=1)&&!(n_stokes>1&&!O(VECTOR)); }
/* one row per solver: what it cannot do */
enum { DERIVS=1, VEC=2, TMS=4, NOAZ=8, TAUS=16, SFI_=32, NOSUN=64, THERMAL=128, STACK=256, ONEWAY=512, LOBATTO=1024, INTERIOR=2048, ANGLES=4096, BARE_DELTA=8192, SUNS=16384 };
static const struct { int solver, cannot, n_quad; } can[11] = {
  { XRTM_SOLVER_DOUB_ADD, TAUS|SFI_|LOBATTO|INTERIOR, 0 },
  { XRTM_SOLVER_EIG_ADD, TAUS|SFI_|LOBATTO|INTERIOR|SUNS, 0 },
  { XRTM_SOLVER_EIG_BVP, STACK|ONEWAY|LOBATTO|SUNS, 0 },
  { XRTM_SOLVER_FOUR_STREAM, DERIVS|VEC|THERMAL|LOBATTO|ANGLES|SUNS, 2 },
  { XRTM_SOLVER_MEM_BVP, SFI_|NOSUN|THERMAL|STACK|ONEWAY|LOBATTO|SUNS, 0 },
  { XRTM_SOLVER_PADE_ADD, TAUS|SFI_|LOBATTO|INTERIOR|SUNS, 0 },
  { XRTM_SOLVER_SINGLE, NOAZ|NOSUN|THERMAL|STACK|ONEWAY|LOBATTO|BARE_DELTA|SUNS, 0 },
  { XRTM_SOLVER_SIX_STREAM, DERIVS|VEC|THERMAL|LOBATTO|ANGLES|SUNS, 3 },
  { XRTM_SOLVER_SOS, TAUS|SFI_|NOSUN|THERMAL|STACK|ONEWAY|LOBATTO|INTERIOR|SUNS, 0 },
  { XRTM_SOLVER_TWO_OS, TMS|NOSUN|THERMAL|STACK|ONEWAY|LOBATTO|INTERIOR|SUNS, 0 },
  { XRTM_SOLVER_TWO_STREAM, VEC|THERMAL|LOBATTO|ANGLES|SUNS, 1 } };
static int wants(int m, int n_stokes, int n_suns, int n_levels, int n_thetas) {
  return (O(CALC_DERIVS)?DERIVS:0)|(n_stokes!=1?VEC:0)|(O(N_T_TMS)?TMS:0)|(O(NO_AZIMUTHAL)?NOAZ:0)|(O(OUTPUT_AT_TAUS)?TAUS:0)|(O(SFI)?SFI_:0)|(O(SOURCE_SOLAR)?0:NOSUN)|(O(SOURCE_THERMAL)?THERMAL:0)|(O(STACK_REUSE_ADDING)?STACK:0)
        |(O(TOP_DOWN_ADDING)||O(BOTTOM_UP_ADDING)?ONEWAY:0)|(O(QUAD_LOBATTO)?LOBATTO:0)|(n_levels>2?INTERIOR:0)|(n_thetas>0&&!O(SFI)?ANGLES:0)|(O(DELTA_M)&&!O(N_T_TMS)?BARE_DELTA:0)|(n_suns!=1?SUNS:0); }
static int good_solvers(int m, int solvers, int n_quad, int n_stokes, int n_suns, int n_levels, int n_thetas) {
  int w=wants(m,n_stokes,n_suns,n_levels,n_thetas), ok=1; for (int i=0;i<11;i++) if (solvers&can[i].solver) if ((w&can[i].cannot)||(can[i].n_quad&&n_quad!=can[i].n_quad)) ok=0; return ok; }
static int defaults(int m, int n_stokes) {
  if (n_stokes>1) m|=XRTM_OPTION_VECTOR;
  if (O(N_T_TMS)) m|=XRTM_OPTION_DELTA_M;
  if (!N_OF2(FOUR_CONV_OLD,FOUR_CONV_NEW)) m|=XRTM_OPTION_FOUR_CONV_NEW;
  if (!N_OF2(PART_SOL_CLASSICAL,PART_SOL_GREENS)) m|=XRTM_OPTION_PART_SOL_CLASSICAL;
  if (!N_OF3(PHASE_SCALAR,PHASE_MATRIX_GC,PHASE_MATRIX_LC)) m|=O(VECTOR)?XRTM_OPTION_PHASE_MATRIX_GC:XRTM_OPTION_PHASE_SCALAR;
  if (!N_OF3(QUAD_NORM_GAUS_LEG,QUAD_DOUB_GAUS_LEG,QUAD_LOBATTO)) m|=XRTM_OPTION_QUAD_DOUB_GAUS_LEG;
  if (!N_OF2(UPWELLING_OUTPUT,DOWNWELLING_OUTPUT)) m|=XRTM_OPTION_UPWELLING_OUTPUT|XRTM_OPTION_DOWNWELLING_OUTPUT;
  if (O(PHASE_MATRIX_LC)) m|=XRTM_OPTION_SAVE_PHASE_MATS;
  return m; }

#ifdef h_sizes   /* sizes that make no sense are refused */
#define BAD(v,o,s,c,q,st,de,l,k,kq,lev,th) for (int k_=0;k_<3;k_++) if (i==k_) { const int X=k_==0?0:k_==1?-1:-2147483647; (void)X; CHECK(mkk(o,s,c,q,st,de,l,k,kq,lev,th)!=0,"sizes: " #v " out of range is refused"); }
static int mkk(int o,int s,int c,int q,int st,int de,int l,int k,int kq,int lev,int th) { static xrtm_data d; enum xrtm_kernel_type kk[2]={XRTM_KERNEL_LAMBERTIAN,XRTM_KERNEL_LAMBERTIAN}; return xrtm_create(&d,o,s,c,q,st,de,l,1,k,kq,kk,lev,th); }
void HARNESS(void) { IN_I(i); ASSUME(i>=0&&i<=2); const int E=XRTM_SOLVER_EIG_BVP;
  if (i>0) BAD(max_coef,BASE,E,X,1,1,0,1,0,0,1,0); BAD(n_quad,BASE,E,2,X,1,0,1,0,0,1,0); BAD(n_stokes,BASE,E,2,1,X,0,1,0,0,1,0); if (i>0) BAD(n_derivs,BASE,E,2,1,1,X,1,0,0,1,0); BAD(n_layers,BASE,E,2,1,1,0,X,0,0,1,0);
  if (i>0) BAD(n_kernels,BASE,E,2,1,1,0,1,X,1,1,0); BAD(n_kernel_quad,BASE,E,2,1,1,0,1,1,X,1,0); BAD(n_out_levels,BASE,E,2,1,1,0,1,0,0,X,0); if (i>0) BAD(n_out_thetas,BASE,E,2,1,1,0,1,0,0,1,X);
  CHECK(mkk(BASE|OP(VECTOR),E,2,1,5,0,1,0,0,1,0)!=0,"sizes: more than four Stokes parameters are refused");
  { static xrtm_data d; IN_I(k0); ASSUME(k0>=-2&&k0<=12); enum xrtm_kernel_type kk[1]; kk[0]=(enum xrtm_kernel_type)k0; if (k0<0||k0>=N_XRTM_KERNEL_TYPES) { int r=1; for (int j=-2;j<=12;j++) if (k0==j&&(j<0||j>=N_XRTM_KERNEL_TYPES)) { kk[0]=(enum xrtm_kernel_type)j; r=xrtm_create(&d,BASE,E,2,1,1,0,1,1,1,1,kk,1,0); } CHECK(r!=0,"kernels: an unknown kernel is refused"); } }
  REACH(); }
#endif
/* creation: the options G is symbolic over, the rest fixed */
#ifdef CBMC
extern int cb_stop, cb_reached;
#define MADE(r) (cb_reached)
#else
static int cb_stop, cb_reached;
#define MADE(r) ((r)==0)
#endif
#ifdef h_create   /* every option mask, solver set and size at once; creation is followed up to the allocations */
void HARNESS(void) { static xrtm_data d; IN_I(o); IN_I(solvers); IN_I(max_coef); IN_I(n_quad); IN_I(n_stokes); IN_I(n_derivs); IN_I(n_layers); IN_I(n_suns); IN_I(n_levels); IN_I(n_thetas);
  ASSUME(solvers>=0&&solvers<2048&&n_quad<=8&&max_coef<=40&&n_derivs<=4&&n_layers<=6&&n_suns<=3&&n_levels<=6&&n_thetas<=4); cb_stop=-1; cb_reached=0; int m=defaults(o,n_stokes);
  int ok=max_coef>=0&&n_quad>0&&n_stokes>0&&n_stokes<=4&&n_derivs>=0&&n_layers>0&&n_suns>0&&n_levels>0&&n_thetas>=0&&good_options(m)&&good_counts(m,max_coef,n_quad,n_stokes,n_derivs,n_levels,n_thetas)&&good_solvers(m,solvers,n_quad,n_stokes,n_suns,n_levels,n_thetas);
  int r=xrtm_create(&d,o,solvers,max_coef,n_quad,n_stokes,n_derivs,n_layers,n_suns,0,0,0,n_levels,n_thetas); CHECK(MADE(r)==ok,"create: succeeds exactly when options, sizes and solvers fit");
  if (MADE(r)) { CHECK(xrtm_get_options(&d)==m,"create: what is left open gets its default, nothing else changes"); CHECK(xrtm_get_solvers(&d)==solvers&&xrtm_get_max_coef(&d)==max_coef&&xrtm_get_n_quad(&d)==n_quad&&xrtm_get_n_stokes(&d)==n_stokes&&xrtm_get_n_derivs(&d)==n_derivs&&xrtm_get_n_layers(&d)==n_layers&&xrtm_get_n_kernels(&d)==0&&xrtm_get_n_out_levels(&d)==n_levels&&xrtm_get_n_out_thetas(&d)==n_thetas,"create: sizes read back as given"); } REACH(); }
#endif
/* requests */
#define ARR(n) static double n##0[4],n##1[4],n##2[4]; static double *n##a[3]={n##0,n##1,n##2}, **n##b[3]={n##a,n##a,n##a}, ***n[3]={n##b,n##b,n##b};
static double one_c[3]={1,.5,.1}, *one_p[1]={one_c}; static double **all_c[2]={one_p,one_p}; static int all_n[2]={2,2};
static double T01[2]={.1,.2}, Z[3]={2,1,0}, B[3]={1,2,3}, TH[1]={30}, TA[1]={.05}, W[2]={.5,.6}; static int L0[1]={0};
#ifdef h_required_sun   /* an instance with a solar source in spherical geometry, at user angles, over a surface */
void HARNESS(void) { static xrtm_data d; enum xrtm_kernel_type kk[1]={XRTM_KERNEL_LAMBERTIAN}; IN_I(sdt); IN_I(stol); IN_I(sr); IN_I(sz); IN_I(slev); IN_I(sft); IN_I(sfb); IN_I(sf0); IN_I(sp0); IN_I(sc0); IN_I(sc1); IN_I(sw0); IN_I(sw1); IN_I(st0); IN_I(st1); IN_I(sk);
  CHECK(mk(&d,BASE|OP(PSA),XRTM_SOLVER_EIG_BVP|XRTM_SOLVER_DOUB_ADD,2,1,1,0,2,1,kk,1,0)==0,"create"); xrtm_set_theta_0(&d,30.);
  if (sdt) xrtm_set_doub_d_tau(&d,1e-3); if (stol) xrtm_set_fourier_tol(&d,1e-3); if (sr) xrtm_set_planet_r(&d,6000.); if (sz) xrtm_set_levels_z(&d,Z); if (slev) xrtm_set_out_levels(&d,L0); if (sft) xrtm_set_F_iso_top(&d,0.); if (sfb) xrtm_set_F_iso_bot(&d,0.); if (sf0) xrtm_set_F_0(&d,1.); if (sp0) xrtm_set_phi_0(&d,0.);
  if (sc0) xrtm_set_coef_1(&d,0,2,one_p); if (sc1) xrtm_set_coef_1(&d,1,2,one_p); if (sw0) xrtm_set_omega_1(&d,0,.5); if (sw1) xrtm_set_omega_1(&d,1,.5); if (st0) xrtm_set_ltau_1(&d,0,.1); if (st1) xrtm_set_ltau_1(&d,1,.1); if (sk) xrtm_set_kernel_ampfac(&d,0,.1);
  ARR(ip); ARR(im); double ph[1]={0}, *pp[1]={ph}; int all=sdt&&stol&&sr&&sz&&slev&&sft&&sfb&&sf0&&sp0&&sc0&&sc1&&sw0&&sw1&&st0&&st1&&sk;
  int r=xrtm_radiance(&d,XRTM_SOLVER_EIG_BVP,1,pp,ip,im,0,0); CHECK((r==0)==all,"required inputs: a solution is given exactly when all of them are set (solar)"); REACH(); }
#endif
#ifdef h_required_hot
void HARNESS(void) { static xrtm_data d; IN_I(stol); IN_I(stau); IN_I(sft); IN_I(sfb); IN_I(slb); IN_I(ssb); IN_I(sc); IN_I(sw); IN_I(st); IN_I(sv);
  CHECK(mk(&d,OP(OUTPUT_AT_TAUS)|OP(SOURCE_THERMAL)|OP(CALC_DERIVS),XRTM_SOLVER_EIG_BVP,2,1,1,1,2,0,0,1,0)==0,"create");
  if (stol) xrtm_set_fourier_tol(&d,1e-3); if (st) xrtm_set_ltau_n(&d,T01); if (stau) xrtm_set_out_taus(&d,TA); if (sft) xrtm_set_F_iso_top(&d,0.); if (sfb) xrtm_set_F_iso_bot(&d,0.); if (slb) xrtm_set_levels_b(&d,B); if (ssb) xrtm_set_surface_b(&d,1.); if (sc) xrtm_set_coef_n(&d,all_n,all_c); if (sw) xrtm_set_omega_n(&d,W); if (sv) xrtm_set_omega_l_11(&d,0,0,1.), xrtm_update_varied_layers(&d);
  double mp[1],mm[1],mpl0[1],mml0[1],*mpl[1]={mpl0},*mml[1]={mml0}; int all=stol&&stau&&sft&&sfb&&slb&&ssb&&sc&&sw&&st&&sv;
  int r=xrtm_flux(&d,XRTM_SOLVER_EIG_BVP,mp,mm,mpl,mml); CHECK((r==0)==all,"required inputs: a solution is given exactly when all of them are set (thermal)"); REACH(); }
#endif
#ifdef h_request   /* solvers that were not asked for, unknown ones, and outputs a solver cannot give are refused */
void HARNESS(void) { static xrtm_data d; IN_I(s); IN_I(what); IN_I(n); CHECK(mk(&d,BASE,XRTM_SOLVER_EIG_BVP|XRTM_SOLVER_SINGLE|XRTM_SOLVER_TWO_STREAM,2,1,1,0,2,0,0,1,0)==0,"create");
  xrtm_set_fourier_tol(&d,1e-3); xrtm_set_out_levels(&d,L0); xrtm_set_F_iso_top(&d,0.); xrtm_set_F_iso_bot(&d,0.); xrtm_set_F_0(&d,1.); xrtm_set_theta_0(&d,30.); xrtm_set_phi_0(&d,0.); xrtm_set_coef_n(&d,all_n,all_c); xrtm_set_omega_n(&d,W); xrtm_set_ltau_n(&d,T01);
  ARR(ip); ARR(im); double ph[1]={0}, *pp[1]={ph}; double mp[1],mm[1],fp[1],fm[1],fd[1]; ASSUME(s>=0&&s<4096&&bits(s)<=1); ASSUME(what>=0&&what<16); ASSUME(n>=-1&&n<=1);
  int mine=s==XRTM_SOLVER_EIG_BVP||s==XRTM_SOLVER_SINGLE||s==XRTM_SOLVER_TWO_STREAM; int all=XRTM_OUTPUT_RADIANCE|XRTM_OUTPUT_RADIANCE_MEAN|XRTM_OUTPUT_FLUX;
  int ok=mine&&(what&all)&&!(what&~all)&&(!(what&XRTM_OUTPUT_RADIANCE)||n>0)&&!(s==XRTM_SOLVER_SINGLE&&(what&(XRTM_OUTPUT_RADIANCE_MEAN|XRTM_OUTPUT_FLUX)));
  int r=xrtm_solution(&d,(enum xrtm_solver_mask)s,what,n,pp,ip,im,0,0,mp,mm,0,0,fp,fm,0,0,fd,0); CHECK((r==0)==ok,"requests: answered exactly when the solver was asked for at creation and has the output"); REACH(); }
#endif
