// The configurations the drivers range over: every option family of the library
// at least once, small enough (2-3 layers, 2-4 quadrature angles) to keep the
// terms tractable.
#pragma once
#include "common.hpp"
static const int BASE = OPT(OUTPUT_AT_LEVELS)|OPT(SOURCE_SOLAR);
struct Cfg { Str name; Scene s; };
static Scene base2() {
  Scene s; s.options=BASE; s.max_coef=6; s.n_quad=3; s.kernels={XRTM_KERNEL_LAMBERTIAN}; s.ampfac={.3}; s.out_levels={0,2}; s.phis={20,110};
  s.theta_0=35; s.phi_0=10; s.ltau={.3,.8}; s.omega={.75,.93}; s.coef={hg(.3,6),hg(.55,6)}; s.pade_s=4; s.pade_r=6; s.sos_max_tau=.03; s.sos_tol=1e-12; s.sos_max_os=100; s.doub_d_tau=1e-6;
  return s; }
static Scene thermal_(Scene s) { s.options|=OPT(SOURCE_THERMAL); s.levels_b.clear(); for (int i=0;i<=s.nl();i++) s.levels_b.push_back(.2+.15*i+.03*i*i); s.surface_b=.62; return s; }
static V2 mix6(double g, int n, double w) { // Rayleigh/HG mixture with all six elements non-zero
  V2 c(6,V1(n,0.)); V2 h=hg(g,n), r=rayleigh(6); for (int k=0;k<n;k++) c[0][k]=(1-w)*h[0][k];
  for (int k=2;k<n;k++) { c[1][k]=(1-w)*.8*h[0][k]; c[2][k]=(1-w)*.7*h[0][k]; c[4][k]=(1-w)*.1*h[0][k]; c[5][k]=(1-w)*.05*h[0][k]; }
  for (int k=0;k<n;k++) c[3][k]=(1-w)*.6*h[0][k]; 
  for (int e=0;e<6;e++) for (int k=0;k<3&&k<n;k++) c[e][k]+=w*r[e][k]; return c; }
static Scene vector_(Scene s, int ns) { s.options|=OPT(VECTOR)|OPT(PHASE_MATRIX_GC); s.n_stokes=ns; s.coef={mix6(.3,s.max_coef-1,.8), mix6(.5,s.max_coef,.3)}; return s; }
static Scene tiny() { Scene s=base2(); s.n_quad=2; s.max_coef=4; s.coef={hg(.3,4),hg(.5,4)}; s.phis={40}; return s; }
// A pairwise covering array over the option families (engine/dev/pairs.py): any
// two settings that may occur together do so in at least one of these.
static const int PX[][16] = {
// 37 rows, 0 pairs not coverable; columns: nq ns nl src psa dm th sfi out az surf quad add save dir nc
  {3,1,3,2,1,1,2,1,3,0,4,1,0,1,2,0},
  {2,4,2,0,0,0,0,0,2,1,6,0,0,0,0,1},
  {1,3,1,0,1,2,1,0,0,0,1,1,2,0,0,0},
  {1,4,1,1,0,1,1,1,1,0,0,0,0,1,1,1},
  {2,3,3,2,0,0,2,0,0,1,2,1,1,1,0,1},
  {3,1,2,2,1,0,0,0,1,1,3,1,0,0,1,0},
  {2,3,2,1,0,1,0,0,3,0,5,0,0,0,2,0},
  {3,1,3,0,0,2,1,1,2,0,3,0,0,1,2,1},
  {1,1,2,1,0,0,0,0,0,0,4,0,2,1,0,1},
  {2,4,1,2,1,2,2,1,2,0,2,0,0,0,1,0},
  {1,4,2,2,0,0,1,1,3,1,1,1,0,1,2,1},
  {3,1,1,0,1,1,1,0,0,1,0,0,1,0,0,0},
  {1,3,3,0,1,2,2,1,1,0,6,1,0,1,1,1},
  {1,4,3,2,1,0,2,0,0,1,5,1,2,1,0,1},
  {3,1,3,1,0,1,2,0,2,0,1,1,0,0,1,0},
  {1,4,1,1,0,1,0,0,0,0,3,0,1,0,0,1},
  {2,1,1,2,1,1,1,1,0,0,6,0,0,1,2,0},
  {2,3,2,2,0,2,2,1,3,0,0,1,0,0,0,0},
  {2,3,1,0,1,0,1,1,2,1,4,1,0,0,1,1},
  {3,1,1,0,0,2,1,1,0,0,5,1,0,1,1,1},
  {3,1,2,0,0,1,1,0,0,1,2,0,2,1,0,1},
  {2,1,3,2,1,2,0,0,1,0,1,0,0,1,0,1},
  {2,3,3,0,0,2,2,0,3,0,3,0,0,0,1,0},
  {1,4,3,2,0,0,0,0,2,0,0,0,0,1,2,0},
  {1,3,1,1,0,1,0,0,1,0,2,1,0,0,2,0},
  {1,4,2,0,1,2,2,0,0,0,4,0,1,0,0,1},
  {2,1,3,1,0,1,2,0,0,0,6,1,2,0,0,0},
  {3,1,2,1,0,1,0,0,3,0,6,1,0,1,0,0},
  {1,4,2,1,0,0,0,0,0,0,1,0,1,1,0,1},
  {2,4,2,0,1,1,2,0,0,0,6,1,1,0,0,0},
  {2,4,3,1,0,1,2,0,2,0,5,0,0,1,1,1},
  {3,1,3,2,1,2,1,1,3,0,2,0,0,0,0,1},
  {3,1,1,2,1,2,1,0,0,0,0,0,2,0,0,0},
  {1,4,1,1,0,1,2,1,1,0,4,0,0,1,2,0},
  {2,4,3,2,1,0,2,0,0,1,5,1,1,0,0,1},
  {2,4,2,2,0,1,2,1,1,1,5,0,0,1,0,1},
  {1,1,2,2,0,1,0,0,0,1,3,0,2,1,0,1},
};
static Scene px_(const int *r) {
  int nq=r[0],ns=r[1],nl=r[2],src=r[3],psa=r[4],dm=r[5],th=r[6],sfi=r[7],out=r[8],az=r[9],surf=r[10],quad=r[11],add=r[12],save=r[13],dir=r[14],nc=r[15];
  static const double tau[]={.31,.74,.12}, om[]={.91,.72,.97}, g[]={.35,.62,.48}, w[]={.7,.25,.45};
  Scene s=base2(); s.n_quad=nq; s.max_coef = dm ? 2*nq+3 : nc ? 2*nq+1 : 2*nq; s.ltau.clear(); s.omega.clear(); s.coef.clear(); 
  for (int i=0;i<nl;i++) { s.ltau.push_back(tau[i]); s.omega.push_back(om[i]); int n=s.max_coef-(nc&&i==0&&nl>1&&!dm?1:0); if (ns==1) s.coef.push_back(hg(g[i],n)); else s.coef.push_back(mix6(g[i],n,w[i])); }
  if (ns>1) { s.options|=OPT(VECTOR)|OPT(PHASE_MATRIX_GC); s.n_stokes=ns; }
  if (psa) { s.options|=OPT(PSA); s.levels_z.clear(); for (int i=0;i<=nl;i++) s.levels_z.push_back(70-25*i+2*i*i); s.theta_0=68; }
  if (dm) s.options|=OPT(DELTA_M); if (dm==2) s.options|=OPT(N_T_TMS);
  if (th==1) s.out_thetas={33}; if (th==2) s.out_thetas={14,57};
  if (sfi) s.options|=OPT(SFI);
  double T=0; for (auto x: s.ltau) T+=x;
  s.out_levels = {0,nl}; if (out==1) { s.out_levels.clear(); for (int i=0;i<=nl;i++) s.out_levels.push_back(i); } if (out==3) s.out_levels={nl/2==0?1:nl/2};
  if (out==2) { s.options&=~OPT(OUTPUT_AT_LEVELS); s.options|=OPT(OUTPUT_AT_TAUS); s.out_taus={.4*s.ltau[0],T*.83}; }
  if (add==1) { s.options|=OPT(TOP_DOWN_ADDING); s.out_levels={nl}; } if (add==2) { s.options|=OPT(BOTTOM_UP_ADDING); s.out_levels={0}; }
  if (az) s.options|=OPT(NO_AZIMUTHAL);
  s.kernels.clear(); s.ampfac.clear();
  if (surf==1) { s.kernels={XRTM_KERNEL_LAMBERTIAN}; s.ampfac={.35}; }
  if (surf==2) { s.kernels={XRTM_KERNEL_LAMBERTIAN,XRTM_KERNEL_ROSS_THICK,XRTM_KERNEL_LI_SPARSE}; s.ampfac={.2,.1,.03}; s.params={{},{},{2.,1.}}; }
  if (surf==3) { s.kernels={XRTM_KERNEL_RAHMAN}; s.ampfac={1.}; s.params={{.1,-.1,.8}}; }
  if (surf==4) { s.kernels={XRTM_KERNEL_HAPKE}; s.ampfac={.5}; s.params={{.6,.06,.1}}; }
  if (surf==5) { s.kernels={XRTM_KERNEL_ROUJEAN,XRTM_KERNEL_COX_MUNK}; s.ampfac={.05,.4}; s.params={{},{4.,1.34}}; }
  if (surf==6) { s.kernels={XRTM_KERNEL_LAMBERTIAN,XRTM_KERNEL_ROSS_THIN,XRTM_KERNEL_LI_DENSE}; s.ampfac={.2,.1,.03}; s.params={{},{},{2.,1.}}; }
  if (quad==1) s.options|=OPT(QUAD_NORM_GAUS_LEG);
  if (save) s.options|=OPT(SAVE_LEG_POLYS)|OPT(SAVE_PHASE_MATS)|OPT(SAVE_LOCAL_R_T)|OPT(SAVE_LAYER_R_T_S)|OPT(SAVE_TOTAL_R_T_S);
  if (dir==1) s.options|=OPT(UPWELLING_OUTPUT); if (dir==2) s.options|=OPT(DOWNWELLING_OUTPUT);
  if (src>0) { s=thermal_(s); if (src==1) { s.options&=~OPT(SOURCE_SOLAR); s.F_0=0; } }
  s.phis = ns==1&&nq<3 ? V1{40} : V1{20,110}; 
  return s; }
static std::vector<Cfg> configs() {
  std::vector<Cfg> r; auto A=[&](const Str &n, Scene s){ r.push_back({n,s}); };
  A("solar2",base2());
  { Scene s=base2(); s.out_thetas={12,48}; A("thetas",s); }
  { Scene s=base2(); s.out_levels={0,1,2}; A("levels3",s); }
  { Scene s=base2(); s.ltau={.4}; s.omega={.9}; s.coef={hg(.4,6)}; s.out_levels={1}; A("one_layer_bottom",s); }
  { Scene s=base2(); s.ltau={.2,.5,.9}; s.omega={.6,.97,.85}; s.coef={hg(.2,6),hg(.5,6),hg(.35,4)}; s.out_levels={0,3}; A("three_layers",s); }
  A("thermal_solar",thermal_(base2()));
  { Scene s=thermal_(base2()); s.options&=~OPT(SOURCE_SOLAR); s.F_0=0; A("thermal_only",s); }
  { Scene s=thermal_(base2()); s.options&=~OPT(SOURCE_SOLAR); s.F_0=0; s.out_thetas={25}; s.out_levels={0,1,2}; A("thermal_thetas3",s); }
  { Scene s=base2(); s.options|=OPT(DELTA_M); s.max_coef=9; s.coef={hg(.4,9),hg(.7,9)}; A("delta_m",s); }
  { Scene s=base2(); s.options|=OPT(DELTA_M)|OPT(N_T_TMS); s.max_coef=9; s.out_thetas={30}; s.coef={hg(.4,9),hg(.7,9)}; A("tms",s); }
  { Scene s=tiny(); s.options|=OPT(N_T_TMS); s.max_coef=9; s.coef={hg(.4,9),hg(.7,9)}; s.fourier_tol=1e-2; s.kernels={}; s.ampfac={}; A("tms_tol",s); }
  { Scene s=base2(); s.options|=OPT(PSA); s.levels_z={60,20,0}; s.theta_0=65; A("psa",s); }
  { Scene s=base2(); s.options&=~OPT(OUTPUT_AT_LEVELS); s.options|=OPT(OUTPUT_AT_TAUS); s.out_taus={0,.15,.62,1.1}; A("taus",s); }
  { Scene s=thermal_(base2()); s.options&=~OPT(OUTPUT_AT_LEVELS); s.options|=OPT(OUTPUT_AT_TAUS); s.out_taus={.1,.7}; A("thermal_taus",s); }
  { Scene s=base2(); s.options|=OPT(TOP_DOWN_ADDING); s.out_levels={2}; A("top_down",s); }
  { Scene s=base2(); s.options|=OPT(BOTTOM_UP_ADDING); s.out_levels={0}; A("bottom_up",s); }
  { Scene s=base2(); s.options|=OPT(NO_AZIMUTHAL); A("no_azimuthal",s); }
  { Scene s=base2(); s.options|=OPT(SFI); s.out_thetas={12,48}; A("sfi",s); }
  { Scene s=thermal_(base2()); s.options|=OPT(SFI); s.out_thetas={33}; s.out_levels={0,1,2}; A("sfi_thermal",s); }
  { Scene s=base2(); s.options|=OPT(QUAD_NORM_GAUS_LEG); A("quad_norm",s); s.n_quad=2; s.max_coef=4; s.coef={hg(.3,4),hg(.5,4)}; A("nq2_norm",s); s.n_quad=1; s.max_coef=2; s.coef={hg(.3,2),hg(.5,2)}; A("nq1_norm",s); }
  { Scene s=base2(); s.options|=OPT(SAVE_LEG_POLYS)|OPT(SAVE_PHASE_MATS)|OPT(SAVE_LOCAL_R_T)|OPT(SAVE_LAYER_R_T_S)|OPT(SAVE_TOTAL_R_T_S); A("save_all",s); }
  { Scene s=base2(); s.options|=OPT(FOUR_CONV_OLD); s.fourier_tol=1e-4; A("four_conv_old",s); }
  { Scene s=base2(); s.kernels.clear(); s.ampfac.clear(); A("black",s); }
  { Scene s=base2(); s.kernels={XRTM_KERNEL_LAMBERTIAN,XRTM_KERNEL_ROSS_THICK,XRTM_KERNEL_LI_SPARSE}; s.ampfac={.2,.1,.03}; s.params={{},{},{2.,1.}}; A("brdf_rtls",s); }
  { Scene s=base2(); s.kernels={XRTM_KERNEL_RAHMAN}; s.ampfac={1.}; s.params={{.1,-.1,.8}}; A("brdf_rahman",s); }
  { Scene s=base2(); s.kernels={XRTM_KERNEL_HAPKE}; s.ampfac={.5}; s.params={{.6,.06,.1}}; A("brdf_hapke",s); }
  A("vector3",vector_(base2(),3));
  { Scene s=vector_(base2(),4); s.n_quad=2; s.phis={50}; A("vector4",s); }
  { Scene s=vector_(tiny(),4); s.out_thetas={27}; s.options|=OPT(DELTA_M)|OPT(N_T_TMS); s.max_coef=7; s.coef={mix6(.3,7,.6),mix6(.5,7,.2)}; A("vector4_tms",s); }
  { Scene s=thermal_(vector_(tiny(),3)); A("vector3_thermal",s); }
  { Scene s=base2(); s.n_quad=1; s.max_coef=2; s.coef={hg(.3,2),hg(.5,2)}; A("nq1",s); }
  { Scene s=base2(); s.n_quad=2; s.max_coef=4; s.coef={hg(.3,4),hg(.5,4)}; A("nq2",s); }
  { Scene s=base2(); s.n_quad=1; s.max_coef=2; s.coef={hg(.3,2),hg(.5,2)}; s.options|=OPT(SFI); s.out_thetas={20,55}; A("nq1_sfi",s); }
  { Scene s=base2(); s.n_quad=2; s.max_coef=4; s.coef={hg(.3,4),hg(.5,4)}; s.options|=OPT(SFI); s.out_thetas={20,55}; A("nq2_sfi",s); }
  { Scene s=base2(); s.n_quad=1; s.max_coef=2; s.coef={hg(.3,2),hg(.5,2)}; s.options|=OPT(PSA); s.levels_z={60,20,0}; s.theta_0=65; A("nq1_psa",s); s.n_quad=2; s.max_coef=4; s.coef={hg(.3,4),hg(.5,4)}; A("nq2_psa",s); }
  { Scene s=tiny(); s.options|=OPT(SFI)|OPT(PSA); s.levels_z={60,20,0}; s.theta_0=65; s.out_thetas={20,55}; A("sfi_psa",s); s.n_quad=1; s.max_coef=2; s.coef={hg(.3,2),hg(.5,2)}; A("nq1_sfi_psa",s); }
  { Scene s=thermal_(tiny()); s.kernels={XRTM_KERNEL_LAMBERTIAN,XRTM_KERNEL_ROSS_THIN,XRTM_KERNEL_LI_DENSE}; s.ampfac={.2,.1,.03}; s.params={{},{},{2.,1.}}; A("thermal_rtls",s); s.options|=OPT(SFI); s.out_thetas={18,52}; A("sfi_thermal_rtls",s); }
  { Scene s=tiny(); s.kernels={XRTM_KERNEL_ROUJEAN,XRTM_KERNEL_COX_MUNK}; s.ampfac={.1,.6}; s.params={{},{4.,1.34}}; A("brdf_cox",s); }
  { Scene s=tiny(); s.ltau={.2,.35,.1,.4,.15}; s.omega={.9,.7,.95,.8,.6}; s.coef={hg(.3,4),hg(.1,4),hg(.4,4),hg(.2,4),hg(-.1,4)}; s.out_levels={0,2,5}; A("layers5",s); }
  { Scene s=tiny(); s.kernels={XRTM_KERNEL_USER_DEFINED}; s.ampfac={.6}; s.params={{.2,.3,.1,.2}}; A("brdf_user",s); }
  { Scene s=tiny(); s.kernels={XRTM_KERNEL_DIRECT_AND_DIFFUSE}; s.ampfac={.7}; s.params={{.3,.35,.28,.33}}; s.out_thetas={31}; A("brdf_dd",s); }
  { Scene s=tiny(); s.options|=OPT(PART_SOL_GREENS); s.out_levels={0,1,2}; A("greens",s); }
  { Scene s=tiny(); s.options|=OPT(QUAD_LOBATTO); A("lobatto",s); }
  { Scene s=base2(); s.options|=OPT(UPWELLING_OUTPUT); A("up_only",s); }
  { Scene s=base2(); s.options|=OPT(DOWNWELLING_OUTPUT); A("down_only",s); }
  for (size_t i=0;i<sizeof(PX)/sizeof(PX[0]);i++) A(xs_label("px%02d",(int)i),px_(PX[i]));
  return r; }
static Scene cfg(const char *n) { for (auto &c: configs()) if (c.name==n) return c.s; fprintf(stderr,"no config %s\n",n); abort(); }
static bool in(const Str &x, std::initializer_list<const char*> l) { for (auto q: l) if (x==q) return true; return false; }
static bool starts(const Str &x, const char *p) { return x.compare(0,strlen(p),p)==0; }
static int what_of(int s) { return s==SOL(SINGLE) ? RAD : RAD|MEAN|FLUX; }
static bool adding(int s) { return s&(SOL(DOUB_ADD)|SOL(EIG_ADD)|SOL(PADE_ADD)); }
