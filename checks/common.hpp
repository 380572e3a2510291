// Scene description and helpers shared by the drivers. Everything goes through
// the public API of the library.
#pragma once
#include "xsym.h"
#include <xrtm_interface.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <string>
#include <vector>
typedef std::vector<double> V1; typedef std::vector<V1> V2; typedef std::vector<V2> V3; typedef std::vector<V3> V4;
typedef std::string Str;
#define OPT(x) ((int) XRTM_OPTION_##x)
#define SOL(x) ((int) XRTM_SOLVER_##x)

struct DerivIn {          // linearised inputs of one derivative
  double F_iso_top=0, F_iso_bot=0, surface_b=0; V1 levels_b, omega, ltau, ampfac; V2 params; V3 coef;
};
struct Scene {
  int options=0, solvers=0, max_coef=0, n_quad=4, n_stokes=1, n_kernel_quad=8; bool square=true;
  std::vector<xrtm_kernel_type> kernels; std::vector<int> out_levels; V1 out_taus, out_thetas, phis;
  double F_0=1, theta_0=35, phi_0=0, F_iso_top=0, F_iso_bot=0, lambda=1, planet_r=6371., surface_b=0;
  V1 levels_z, levels_b, omega, ltau, ampfac; V2 params; V3 coef;
  double doub_d_tau=1e-6; int pade_s=-1, pade_r=-1; int sos_max_os=200; double sos_max_tau=1e-2, sos_tol=1e-13; double fourier_tol=0;
  std::vector<DerivIn> l; int ukind=0; // which of the user defined kernels below
  int nl() const { return (int)ltau.size(); }
  bool has(int o) const { return (options & o) != 0; }
  bool thermal() const { return has(OPT(SOURCE_THERMAL)); }
  bool solar() const { return has(OPT(SOURCE_SOLAR)); }
  int n_out() const { return has(OPT(OUTPUT_AT_TAUS)) ? (int)out_taus.size() : (int)out_levels.size(); }
  int n_mus() const { return out_thetas.empty() ? n_quad : (int)out_thetas.size(); }
};
struct Out { Str name; double v; };
struct Result {
  int nlev=0, nmu=0, nphi=0, nst=0, nd=0;
  V1 Ip, Im, Ipl, Iml;                       // [lev][(d)][mu][phi][st]
  V1 mp, mm, fp, fm; V2 mpl, mml, fpl, fml;
  size_t ix(int l,int m,int p,int s) const { return ((size_t)(l*nmu+m)*nphi+p)*nst+s; }
  size_t ixl(int l,int d,int m,int p,int s) const { return (((size_t)(l*nd+d)*nmu+m)*nphi+p)*nst+s; }
};

enum { RAD=1, MEAN=2, FLUX=4 };
extern "C" void *calloc(size_t, size_t) throw();

// contiguous n-dimensional arrays, as the API wants them
template<class T> static T *raw_(size_t n) { return (T*)calloc(n ? n : 1, sizeof(T)); }
static double **arr2(int a,int b) { double **p=raw_<double*>(a); double *d=raw_<double>((size_t)a*b); for (int i=0;i<a;i++) p[i]=d+(size_t)i*b; return p; }
static double ***arr3(int a,int b,int c) { double ***p=raw_<double**>(a); double **q=arr2(a*b,c); for (int i=0;i<a;i++) p[i]=q+(size_t)i*b; return p; }
static double ****arr4(int a,int b,int c,int d) { double ****p=raw_<double***>(a); double ***q=arr3(a*b,c,d); for (int i=0;i<a;i++) p[i]=q+(size_t)i*b; return p; }
static double *****arr5(int a,int b,int c,int d,int e) { double *****p=raw_<double****>(a); double ****q=arr4(a*b,c,d,e); for (int i=0;i<a;i++) p[i]=q+(size_t)i*b; return p; }

// user defined surface kernels: a four parameter model with its derivatives, and copies of built-in ones
struct UAux { double a,b,c,d; };
static void user_aux(brdf_aux_data *x, void *v, int i, int j, int, uchar*, double*, double**) { UAux *u=(UAux*)v; u->a=x->cos_theta[i]*x->cos_theta[j]; u->b=x->sin_theta[i]*x->sin_theta[j]; u->c=x->cos_theta[i]+x->cos_theta[j]; }
static double user_poly(brdf_aux_data *x, void *v, enum xrtm_brdf_geometry, int, int, int k, double, int n, uchar *dv, double *p, double **pl, double *fl) {
  UAux *u=(UAux*)v; double g=u->b*x->cos_phi[k], b[4]={1,u->a,g,g*g+u->c*p[0]}; double f=0; for (int m=0;m<4;m++) f+=p[m]*b[m];
  for (int d=0;d<n;d++) if (dv[d]) { fl[d]=pl[d][0]*p[3]*u->c; for (int m=0;m<4;m++) fl[d]+=pl[d][m]*b[m]; }
  return f; }
static double user_lamb(brdf_aux_data*, void*, enum xrtm_brdf_geometry, int, int, int, double, int n, uchar *dv, double*, double**, double *fl) { for (int d=0;d<n;d++) if (dv[d]) fl[d]=0; return 1; }
static void user_hapke_aux(brdf_aux_data *x, void *v, int i, int j, int, uchar*, double *p, double**) { UAux *u=(UAux*)v; double ci=x->cos_theta[i], cj=x->cos_theta[j]; u->a=ci*cj; u->b=x->sin_theta[i]*x->sin_theta[j];
  u->c=p[0]/(4*(ci+cj)); double g=sqrt(1-p[0]); u->d=(1+2*ci)/(1+2*ci*g)*((1+2*cj)/(1+2*cj*g)); }
static double user_hapke(brdf_aux_data *x, void *v, enum xrtm_brdf_geometry, int, int, int k, double, int, uchar*, double *p, double**, double*) {
  UAux *u=(UAux*)v; double c=u->a+u->b*x->cos_phi[k]; return u->c*((1+p[1]*p[2]/(p[2]+tan(acos(c)/2)))*(1+.5*c)+u->d-1); }
static double user_ross(brdf_aux_data *x, void *v, enum xrtm_brdf_geometry, int, int, int k, double, int n, uchar *dv, double*, double**, double *fl) {
  UAux *u=(UAux*)v; double c=u->a+u->b*x->cos_phi[k], z=acos(c); for (int d=0;d<n;d++) if (dv[d]) fl[d]=0; return ((3.14159265358979323846/2-z)*c+sin(z))/u->c-3.14159265358979323846/4; }
typedef void (*uaux_t)(brdf_aux_data*, void*, int, int, int, uchar*, double*, double**);
typedef double (*ukern_t)(brdf_aux_data*, void*, enum xrtm_brdf_geometry, int, int, int, double, int, uchar*, double*, double**, double*);
static const struct { uaux_t a; ukern_t k; } USER[]={{user_aux,user_poly},{user_aux,user_lamb},{user_hapke_aux,user_hapke},{user_aux,user_ross}};

#define TRY(call) do { if ((call)) { err = #call; return false; } } while (0)
struct Model {
  xrtm_data *d = nullptr; Str err; bool created=false;
  ~Model() { if (created) xrtm_destroy(d); free(d); }
  Model() { d = (xrtm_data*)calloc(1,sizeof(xrtm_data)); }
  Model(const Model&) = delete;
  bool create(const Scene &s) {
    std::vector<xrtm_kernel_type> k = s.kernels; if (k.empty()) k.push_back(XRTM_KERNEL_LAMBERTIAN);
    if (xrtm_create(d, s.options, s.solvers, s.max_coef, s.n_quad, s.n_stokes, (int)s.l.size(), s.nl(), 1, (int)s.kernels.size(), s.n_kernel_quad,
                    k.data(), s.n_out(), (int)s.out_thetas.size())) { err="xrtm_create"; return false; }
    created=true; return true; }
  static double **c2(const V2 &c) { int a=c.size(), b=0; for (auto &r: c) b = (int)r.size()>b?(int)r.size():b; double **p=arr2(a,b); for (int i=0;i<a;i++) for (size_t j=0;j<c[i].size();j++) p[i][j]=c[i][j]; return p; }
  bool set_params(const Scene &s) {
    if (s.solvers & SOL(DOUB_ADD)) TRY(xrtm_set_doub_d_tau(d, s.doub_d_tau));
    if (s.solvers & SOL(PADE_ADD)) TRY(xrtm_set_pade_params(d, s.pade_s, s.pade_r));
    if (s.solvers & SOL(SOS)) TRY(xrtm_set_sos_params(d, s.sos_max_os, s.sos_max_tau, s.sos_tol));
    TRY(xrtm_set_fourier_tol(d, s.fourier_tol)); return true; }
  bool set_geom(const Scene &s) {
    if (s.has(OPT(PSA))) { V1 z=s.levels_z; TRY(xrtm_set_planet_r(d, s.planet_r)); TRY(xrtm_set_levels_z(d, z.data())); }
    if (s.solar()) { TRY(xrtm_set_theta_0(d, s.theta_0)); TRY(xrtm_set_phi_0(d, s.phi_0)); }
    if (!s.out_thetas.empty()) { V1 t=s.out_thetas; TRY(xrtm_set_out_thetas(d, t.data())); }
    return true; }
  bool set_out(const Scene &s) {
    if (s.has(OPT(OUTPUT_AT_TAUS))) { V1 t=s.out_taus; TRY(xrtm_set_out_taus(d, t.data())); }
    else { std::vector<int> o=s.out_levels; TRY(xrtm_set_out_levels(d, o.data())); }
    return true; }
  bool set_sources(const Scene &s) {
    TRY(xrtm_set_F_iso_top(d, s.F_iso_top)); TRY(xrtm_set_F_iso_bot(d, s.F_iso_bot));
    if (s.solar()) TRY(xrtm_set_F_0(d, s.F_0));
    if (s.thermal()) { V1 b=s.levels_b; TRY(xrtm_set_levels_b(d, b.data())); TRY(xrtm_set_surface_b(d, s.surface_b)); }
    return true; }
  bool set_coef(const Scene &s, int i) { double **c=c2(s.coef[i]); TRY(xrtm_set_coef_1(d, i, (int)s.coef[i][0].size(), c)); return true; }
  bool set_optical(const Scene &s) {
    for (int i=0;i<s.nl();i++) { if (!set_coef(s,i)) return false; TRY(xrtm_set_omega_1(d,i,s.omega[i])); TRY(xrtm_set_ltau_1(d,i,s.ltau[i])); }
    return true; }
  bool set_surface(const Scene &s) {
    for (size_t k=0;k<s.kernels.size();k++) { TRY(xrtm_set_kernel_ampfac(d,k,s.ampfac[k])); if (s.kernels[k]==XRTM_KERNEL_USER_DEFINED) TRY(xrtm_set_kernel_func(d,k,USER[s.ukind].a,USER[s.ukind].k));
      if (k<s.params.size()) for (size_t j=0;j<s.params[k].size();j++) TRY(xrtm_set_kernel_params_1(d,k,j,s.params[k][j])); }
    return true; }
  bool set_l(const Scene &s, bool varied=true) {
    if (!s.has(OPT(CALC_DERIVS))) return true;
    for (size_t j=0;j<s.l.size();j++) { const DerivIn &e=s.l[j];
      TRY(xrtm_set_F_iso_top_l_1(d,j,e.F_iso_top)); TRY(xrtm_set_F_iso_bot_l_1(d,j,e.F_iso_bot));
      if (s.thermal()) { V1 b=e.levels_b; b.resize(s.nl()+1,0.); TRY(xrtm_set_levels_b_l_1(d,j,b.data())); TRY(xrtm_set_surface_b_l_1(d,j,e.surface_b)); }
      for (int i=0;i<s.nl();i++) {
        if (i<(int)e.coef.size() && !e.coef[i].empty()) { double **c=c2(e.coef[i]); TRY(xrtm_set_coef_l_11(d,i,j,c)); }
        TRY(xrtm_set_omega_l_11(d,i,j, i<(int)e.omega.size()?e.omega[i]:0.)); TRY(xrtm_set_ltau_l_11(d,i,j, i<(int)e.ltau.size()?e.ltau[i]:0.)); }
      for (size_t k=0;k<s.kernels.size();k++) { TRY(xrtm_set_kernel_ampfac_l_1(d,k,j,k<e.ampfac.size()?e.ampfac[k]:0.));
        if (k<e.params.size()) for (size_t q=0;q<e.params[k].size();q++) TRY(xrtm_set_kernel_params_l_11(d,k,j,q,e.params[k][q])); } }
    if (varied) TRY(xrtm_update_varied_layers(d));
    return true; }
  bool set_all(const Scene &s) { return set_params(s) && set_geom(s) && set_sources(s) && set_optical(s) && set_surface(s) && set_out(s) && set_l(s); }
  bool solve(const Scene &s, int solver, Result &r, int what=RAD|MEAN|FLUX, bool adj=false) {
    int L=s.n_out(), M=s.n_mus(), P=(int)s.phis.size(), T=s.n_stokes, K=s.has(OPT(CALC_DERIVS))?(int)s.l.size():0;
    r.nlev=L; r.nmu=M; r.nphi=P; r.nst=T; r.nd=K;
    V1 ph=s.phis; std::vector<double*> op(M, ph.data());
    double ****Ip=arr4(L,M,P,T), ****Im=arr4(L,M,P,T), *****Kp=nullptr, *****Km=nullptr; double *mp=raw_<double>(L),*mm=raw_<double>(L),*fp=raw_<double>(L),*fm=raw_<double>(L),**mpl=0,**mml=0,**fpl=0,**fml=0;
    if (K) { Kp=arr5(L,K,M,P,T); Km=arr5(L,K,M,P,T); mpl=arr2(L,K); mml=arr2(L,K); fpl=arr2(L,K); fml=arr2(L,K); }
    int mask=0; if (what&RAD) mask|=XRTM_OUTPUT_RADIANCE; if (what&MEAN) mask|=XRTM_OUTPUT_RADIANCE_MEAN; if (what&FLUX) mask|=XRTM_OUTPUT_FLUX;
    int rc = adj ? xrtm_radiance_2(d,(xrtm_solver_mask)solver,P,op.data(),Ip,Im,Kp,Km)
                 : xrtm_solution(d,(xrtm_solver_mask)solver,mask,P,op.data(),Ip,Im,Kp,Km,mp,mm,mpl,mml,fp,fm,fpl,fml,nullptr,nullptr);
    if (rc) { err = adj ? "xrtm_radiance_2" : "xrtm_solution"; return false; }
    size_t n=(size_t)L*M*P*T; 
    if (what&RAD) { r.Ip.assign(Ip[0][0][0],Ip[0][0][0]+n); r.Im.assign(Im[0][0][0],Im[0][0][0]+n); if (K) { r.Ipl.assign(Kp[0][0][0][0],Kp[0][0][0][0]+n*K); r.Iml.assign(Km[0][0][0][0],Km[0][0][0][0]+n*K); } }
    auto cp=[&](double **x){ V2 o; for (int i=0;i<L;i++) o.push_back(V1(x[i],x[i]+K)); return o; };
    if (what&MEAN) { r.mp.assign(mp,mp+L); r.mm.assign(mm,mm+L); if (K) { r.mpl=cp(mpl); r.mml=cp(mml); } }
    if (what&FLUX) { r.fp.assign(fp,fp+L); r.fm.assign(fm,fm+L); if (K) { r.fpl=cp(fpl); r.fml=cp(fml); } }
    return true; }
};
// a fresh instance, all inputs, one solve
static bool run(const Scene &s, int solver, Result &r, Str &err, int what=RAD|MEAN|FLUX, bool adj=false) {
  if (solver==SOL(SINGLE)) what&=RAD;
  Scene t=s; if (!(t.solvers & solver)) t.solvers |= solver; Model m; bool ok = m.create(t) && m.set_all(t) && m.solve(t, solver, r, what, adj); if (!ok) err=m.err; return ok; }

static const struct { int m; const char *n; } SOLVERS[] = { {SOL(DOUB_ADD),"doub_add"},{SOL(EIG_ADD),"eig_add"},{SOL(EIG_BVP),"eig_bvp"},{SOL(FOUR_STREAM),"four_stream"},{SOL(MEM_BVP),"mem_bvp"},
  {SOL(PADE_ADD),"pade_add"},{SOL(SINGLE),"single"},{SOL(SIX_STREAM),"six_stream"},{SOL(SOS),"sos"},{SOL(TWO_OS),"two_os"},{SOL(TWO_STREAM),"two_stream"} };
static const char *sname(int m) { for (auto &s: SOLVERS) if (s.m==m) return s.n; return "?"; }
static int full_options(int o) {   // the defaults the library documents
  if (o&OPT(N_T_TMS)) o|=OPT(DELTA_M);
  if (!(o&(OPT(FOUR_CONV_OLD)|OPT(FOUR_CONV_NEW)))) o|=OPT(FOUR_CONV_NEW);
  if (!(o&(OPT(OUTPUT_AT_LEVELS)|OPT(OUTPUT_AT_TAUS)))) o|=OPT(OUTPUT_AT_LEVELS);
  if (!(o&(OPT(PART_SOL_CLASSICAL)|OPT(PART_SOL_GREENS)))) o|=OPT(PART_SOL_CLASSICAL);
  if (!(o&(OPT(PHASE_SCALAR)|OPT(PHASE_MATRIX_GC)|OPT(PHASE_MATRIX_LC)))) o|= (o&OPT(VECTOR))?OPT(PHASE_MATRIX_GC):OPT(PHASE_SCALAR);
  if (!(o&(OPT(QUAD_NORM_GAUS_LEG)|OPT(QUAD_DOUB_GAUS_LEG)|OPT(QUAD_LOBATTO)))) o|=OPT(QUAD_DOUB_GAUS_LEG);
  if (!(o&(OPT(UPWELLING_OUTPUT)|OPT(DOWNWELLING_OUTPUT)))) o|=OPT(UPWELLING_OUTPUT)|OPT(DOWNWELLING_OUTPUT);
  return o; }
static bool supported(const Scene &s0, int solver) {
  Scene s=s0; s.options=full_options(s.options);
  std::vector<xrtm_kernel_type> k=s.kernels; if (k.empty()) k.push_back(XRTM_KERNEL_LAMBERTIAN);
  if (xrtm_check_options(s.options,0)) return false;
  if (xrtm_check_counts(s.options,s.max_coef,s.n_quad,s.n_stokes,(int)s.l.size(),s.nl(),1,(int)s.kernels.size(),s.n_kernel_quad,k.data(),s.n_out(),(int)s.out_thetas.size(),0)) return false;
  if (s.has(OPT(OUTPUT_AT_LEVELS))) for (int l: s.out_levels) if (l>0&&l<s.nl()&&(solver&(SOL(DOUB_ADD)|SOL(EIG_ADD)|SOL(PADE_ADD)|SOL(SOS)|SOL(TWO_OS)))) return false;   // refused by xrtm_set_out_levels()
  return xrtm_check_solvers(s.options,solver,s.max_coef,s.n_quad,s.n_stokes,(int)s.l.size(),s.nl(),1,(int)s.kernels.size(),s.n_kernel_quad,k.data(),s.n_out(),(int)s.out_thetas.size(),0)==0; }

// every radiance/mean/flux output by name
static void each(const Result &r, const std::function<void(const char*, double)> &f, int what=RAD|MEAN|FLUX) {
  char b[96];
  if (r.mp.empty()) what&=~MEAN; if (r.fp.empty()) what&=~FLUX; if (r.Ip.empty()) what&=~RAD;
  if (what&RAD) for (int l=0;l<r.nlev;l++) for (int m=0;m<r.nmu;m++) for (int p=0;p<r.nphi;p++) for (int s=0;s<r.nst;s++) {
    snprintf(b,96,"Ip[%d][%d][%d][%d]",l,m,p,s); f(b,r.Ip[r.ix(l,m,p,s)]); snprintf(b,96,"Im[%d][%d][%d][%d]",l,m,p,s); f(b,r.Im[r.ix(l,m,p,s)]); }
  for (int l=0;l<r.nlev;l++) {
    if (what&MEAN) { snprintf(b,96,"mean_p[%d]",l); f(b,r.mp[l]); snprintf(b,96,"mean_m[%d]",l); f(b,r.mm[l]); }
    if (what&FLUX) { snprintf(b,96,"flux_p[%d]",l); f(b,r.fp[l]); snprintf(b,96,"flux_m[%d]",l); f(b,r.fm[l]); } } }
static void each_l(const Result &r, int d, const std::function<void(const char*, double)> &f, int what=RAD|MEAN|FLUX) {
  char b[96];
  if (r.mp.empty()) what&=~MEAN; if (r.fp.empty()) what&=~FLUX; if (r.Ip.empty()) what&=~RAD;
  if (r.mpl.empty()) what&=~MEAN; if (r.fpl.empty()) what&=~FLUX; if (r.Ipl.empty()) what&=~RAD;
  if (what&RAD) for (int l=0;l<r.nlev;l++) for (int m=0;m<r.nmu;m++) for (int p=0;p<r.nphi;p++) for (int s=0;s<r.nst;s++) {
    snprintf(b,96,"Ip[%d][%d][%d][%d]",l,m,p,s); f(b,r.Ipl[r.ixl(l,d,m,p,s)]); snprintf(b,96,"Im[%d][%d][%d][%d]",l,m,p,s); f(b,r.Iml[r.ixl(l,d,m,p,s)]); }
  for (int l=0;l<r.nlev;l++) {
    if (what&MEAN) { snprintf(b,96,"mean_p[%d]",l); f(b,r.mpl[l][d]); snprintf(b,96,"mean_m[%d]",l); f(b,r.mml[l][d]); }
    if (what&FLUX) { snprintf(b,96,"flux_p[%d]",l); f(b,r.fpl[l][d]); snprintf(b,96,"flux_m[%d]",l); f(b,r.fml[l][d]); } } }
static std::vector<Out> outs(const Result &r, int what=RAD|MEAN|FLUX) { std::vector<Out> o; each(r,[&](const char*n,double v){ o.push_back({n,v}); },what); return o; }
static std::vector<Out> outs_l(const Result &r, int d, int what=RAD|MEAN|FLUX) { std::vector<Out> o; each_l(r,d,[&](const char*n,double v){ o.push_back({n,v}); },what); return o; }

// phase-function expansion coefficients in the GC convention
static V2 hg(double g, int n, int ne=1) { V2 c(ne, V1(n,0.)); double x=1; for (int i=0;i<n;i++) { c[0][i]=(2*i+1)*x; x*=g; } return c; }
// Rayleigh (depolarisation-free) Greek coefficients, all six elements
static V2 rayleigh(int ne=1) { V2 c(ne, V1(3,0.)); c[0][0]=1; c[0][2]=.5; if (ne==6) { c[1][2]=3.; c[2][2]=0.; c[3][1]=1.5; c[4][2]=sqrt(1.5); } return c; }
static double S_(const Str &n, double v, double lo, double hi) { return xs_sym(n.c_str(), xs_conc(v), xs_conc(lo), xs_conc(hi)); }
// relative box around v
static double R_(const Str &n, double v, double rel=.3) { v=xs_conc(v); double a=v*(1-rel), b=v*(1+rel); return xs_sym(n.c_str(), v, a<b?a:b, a<b?b:a); }
