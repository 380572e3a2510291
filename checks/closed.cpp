// P10: where nothing is scattered more than once the answer has a closed form.
// The closed form here is written from the radiative transfer equation, not from
// the library: transmission, emission and one scattering in a stack of layers.
#include "dirs.hpp"
static const double PI_=3.14159265358979323846;
struct Closed {   // after delta-M scaling, beam geometry, quadrature
  Scene s; V1 T,B,as,om,ta; V1 mu,qx,qw; bool tms; double mu0,qf=1;
  bool setup(const Scene &x, int solver) {
    s=x; int n=s.nl(); tms=s.has(OPT(N_T_TMS)); om=s.omega; ta=s.ltau; mu0=cos(s.theta_0*PI_/180);
    if (s.has(OPT(DELTA_M))) for (int i=0;i<n;i++) { int N=2*s.n_quad; double f=s.coef[i][0].size()>(size_t)N?s.coef[i][0][N]/(2*N+1):0.; ta[i]=(1-f*s.omega[i])*s.ltau[i]; om[i]=(tms?1.:1-f)*s.omega[i]/(1-f*s.omega[i]); }
    T={0.}; for (int i=0;i<n;i++) T.push_back(T[i]+ta[i]);
    as.clear(); B={1.}; double q=0;
    for (int i=0;i<n;i++) { if (!s.solar()) { as.push_back(1.); B.push_back(0.); continue; } double p=0;
      if (!s.has(OPT(PSA))) p=T[i+1]/mu0; else { double r=s.planet_r+s.levels_z[i+1], b=r*sin(s.theta_0*PI_/180); for (int j=0;j<=i;j++) { double r0=s.planet_r+s.levels_z[j], r1=s.planet_r+s.levels_z[j+1]; p+=ta[j]*(sqrt(r0*r0-b*b)-sqrt(r1*r1-b*b))/(r0-r1); } }
      as.push_back((p-q)/ta[i]); q=p; B.push_back(exp(-p)); }
    Scene z=s; z.out_thetas.clear(); z.options&=~OPT(SFI); z.solvers=SOL(EIG_BVP); if (!supported(z,z.solvers)) { z.options&=~(OPT(TOP_DOWN_ADDING)|OPT(BOTTOM_UP_ADDING)|OPT(SAVE_LAYER_R_T_S)|OPT(SAVE_TOTAL_R_T_S)); } Model m; if (!m.create(z)) return false;
    qx.assign(s.n_quad,0); qw=qx; xrtm_qx(m.d,qx.data()); xrtm_qw(m.d,qw.data()); { double h=0; for (int q=0;q<s.n_quad;q++) h+=xs_conc(qx[q]*qw[q]); qf=.5/h; }
    mu=qx; if (!s.out_thetas.empty()) { mu.clear(); for (double t: s.out_thetas) mu.push_back(cos(t*PI_/180)); }
    return true; }
  double P(int i, double c, int ncut) const { const V1 &a=s.coef[i][0]; double p0=1,p1=c,r=a[0]; for (size_t k=1;k<a.size()&&(int)k<ncut;k++) { r+=a[k]*p1; double p2=((2*k+1)*c*p1-k*p0)/(k+1); p0=p1; p1=p2; } return r; }
  double cosang(double m, double phi, bool up) const { return (up?-1:1)*m*mu0+sqrt(1-m*m)*sqrt(1-mu0*mu0)*cos((phi-s.phi_0)*PI_/180); }
  // radiances at optical depth t of layer i (level i: t=0 of layer i; level n: t=ta of layer n-1)
  double down(double m, double phi, int i, double t, bool scat, bool emit) const { double I=s.F_iso_top;
    for (int j=0;j<=i;j++) { double d=j<i?ta[j]:t, e=exp(-d/m); I*=e;
      if (scat) I+=s.F_0*om[j]*P(j,cosang(m,phi,false),1000)/(4*PI_)*B[j]*(e-exp(-as[j]*d))/(as[j]*m-1);
      if (emit) { double b0=s.levels_b[j], b1=b0+(s.levels_b[j+1]-b0)*d/ta[j]; if (xs_conc(d)!=0.) I+=b1-b0*e-(b1-b0)*m/d*(1-e); } }
    return I; }
  double up(double m, double phi, int i, double t, double I, bool scat, bool emit) const {
    for (int j=s.nl()-1;j>=i;j--) { double u=j>i?0.:t, d=ta[j]-u, e=exp(-d/m); I*=e;
      if (scat) I+=s.F_0*om[j]*P(j,cosang(m,phi,true),1000)/(4*PI_)*B[j]*exp(-as[j]*u)*(1-exp(-d*(as[j]+1/m)))/(1+as[j]*m);
      if (emit) { double b1=s.levels_b[j+1], b0=s.levels_b[j]+(b1-s.levels_b[j])*u/ta[j]; if (xs_conc(d)!=0.) I+=b0-b1*e+(b1-b0)*m/d*(1-e); } }
    return I; }
  void where(int l, int &i, double &t) const { int n=s.nl(); if (!s.has(OPT(OUTPUT_AT_TAUS))) { i=s.out_levels[l]; t=0.; if (i==n) { i=n-1; t=ta[i]; } return; }
    double u=0; for (i=0;i<n-1&&xs_conc(s.out_taus[l])>=xs_conc(u)+xs_conc(s.ltau[i])-1e-12;i++) u=u+s.ltau[i]; t=(s.out_taus[l]-u)*ta[i]/s.ltau[i]; }
  double surface(double phi, bool direct, bool diffuse, bool emit) const { double a=0; for (double x: s.ampfac) a+=x; double E=0; int n=s.nl();
    if (direct&&s.solar()) E+=mu0*s.F_0*B[n]*qf;
    if (diffuse) for (int q=0;q<s.n_quad;q++) E+=2*PI_*qf*qw[q]*qx[q]*down(qx[q],phi,n-1,ta[n-1],false,emit);
    return a*E/PI_+s.F_iso_bot+(emit&&!s.kernels.empty()?(1-a)*s.surface_b:0.); }
};
void xs_main(void) {
  static const char *md[]={"single","thin","transmission"};
  for (auto &c: configs()) for (auto &so: SOLVERS) for (int v=0;v<3;v++) {
    Scene s=c.s; if (!supported(s,so.m)||s.fourier_tol>0||(c.name=="three_layers"&&so.m==SOL(SIX_STREAM))||s.n_stokes>1&&so.m==SOL(SOS)) continue;
    if (v==0&&(so.m!=SOL(SINGLE)||!s.solar())) continue;
    if (v==1&&(so.m==SOL(SINGLE)||so.m==SOL(TWO_OS)||!s.solar()||s.thermal()||s.has(OPT(NO_AZIMUTHAL))||(s.has(OPT(DELTA_M))&&!s.has(OPT(N_T_TMS))))) continue;
    if (v==2&&(so.m==SOL(SINGLE)||so.m==SOL(TWO_OS))) continue;
    for (auto k: s.kernels) if (k!=XRTM_KERNEL_LAMBERTIAN) { s.kernels={XRTM_KERNEL_LAMBERTIAN}; s.ampfac={.3}; s.params.clear(); }
    if (!xs_scenario(xs_label("%s/%s/%s",md[v],c.name.c_str(),so.n))) continue;
    bool sos=so.m==SOL(SOS); if (sos) { for (auto &x: s.ltau) x*=.1; for (auto &x: s.out_taus) x*=.1; s.sos_max_tau=v==1?.003:.001; s.sos_max_os=10; s.sos_tol=1e-13; }
    if (v==1&&!s.has(OPT(DELTA_M))) for (auto &x: s.coef) for (auto &y: x) if ((int)y.size()>2*s.n_quad) y.resize(2*s.n_quad);
    // the encoded quantities
    double w=v==0?1.:v==1?1e-6:1e-10;
    for (int i=0;i<s.nl();i++) { s.omega[i]=R_(xs_label("omega%d",i),s.omega[i]*w,.04); s.ltau[i]=R_(xs_label("ltau%d",i),s.ltau[i],.1); }
    if (s.solar()) { s.F_0=S_("F_0",1.,.01,10); s.theta_0=R_("theta_0",s.theta_0,.1); }
    if (v==0) for (int i=0;i<s.nl();i++) for (size_t k=1;k<s.coef[i][0].size();k++) s.coef[i][0][k]=R_(xs_label("c%d_%d",i,(int)k),s.coef[i][0][k],.05);
    if (!s.ampfac.empty()) s.ampfac[0]=R_("albedo",s.ampfac[0]*(v==2?1:v==1?1e-6:1),.2);
    bool thermal=s.thermal(), iso=v==2; if (v==2&&thermal) { for (size_t i=0;i<s.levels_b.size();i++) s.levels_b[i]=S_(xs_label("b%d",(int)i),s.levels_b[i],.05,3); s.surface_b=S_("sb",s.surface_b,0,3); }
    bool adding=in(so.n,{"doub_add","eig_add","pade_add"})&&(s.has(OPT(TOP_DOWN_ADDING))||s.has(OPT(BOTTOM_UP_ADDING)));
    if (iso) { if (!adding) s.F_iso_bot=S_("F_iso_bot",.3,0,4); if (!s.has(OPT(TOP_DOWN_ADDING))) s.F_iso_top=S_("F_iso_top",.2,0,4); }
    Result r; Str e; int wh=what_of(so.m); if (v==1) wh=RAD; if (!run(s,so.m,r,e,wh)) { xs_fail("%s",e.c_str()); return; }
    Closed C; if (!C.setup(s,so.m)) { xs_fail("quadrature"); return; }
    bool dn=!s.has(OPT(UPWELLING_OUTPUT))&&so.m!=SOL(TWO_OS), up=!s.has(OPT(DOWNWELLING_OUTPUT)); double rt=sos?2e-3:v==1?3e-5:so.m==SOL(DOUB_ADD)?1e-4:1e-7, at=(v==1?1e-6:1.)*1e-9;
    for (int l=0;l<r.nlev;l++) { int i; double t; C.where(l,i,t); if (so.m==SOL(TWO_OS)&&!(i==0&&xs_conc(t)==0.)) continue;
      for (int q=0;q<r.nmu;q++) for (int p=0;p<r.nphi;p++) { double ph=s.phis[p]; bool sc=v<2, em=v==2&&thermal;
        double I0=v==0?C.surface(ph,true,false,false):C.surface(ph,true,v==2,em);
        if (up) xs_check_eq(xs_label("Ip[%d][%d][%d][0]",l,q,p),r.Ip[r.ix(l,q,p,0)],C.up(C.mu[q],ph,i,t,I0,sc,em),rt,at);
        if (dn) xs_check_eq(xs_label("Im[%d][%d][%d][0]",l,q,p),r.Im[r.ix(l,q,p,0)],C.down(C.mu[q],ph,i,t,sc,em),rt,at); }
      if (v==2&&!r.mp.empty()) { double J[2]={0,0},F[2]={0,0}, dir=s.solar()?s.F_0*C.B[i]*exp(-C.as[i]*t):0., I0=C.surface(0,true,true,thermal);
        for (int q=0;q<s.n_quad;q++) { double m=C.qx[q], u=C.up(m,0,i,t,I0,false,thermal), d=C.down(m,0,i,t,false,thermal); J[0]+=C.qw[q]*u/2; J[1]+=C.qw[q]*d/2; F[0]+=2*PI_*C.qw[q]*m*u; F[1]+=2*PI_*C.qw[q]*m*d; }
        if (up) { xs_check_eq(xs_label("mean_p[%d]",l),r.mp[l],J[0],rt,at); xs_check_eq(xs_label("flux_p[%d]",l),r.fp[l],F[0],rt,at); }
        if (dn) { xs_check_eq(xs_label("mean_m[%d]",l),r.mm[l],J[1]+dir/(4*PI_),rt,at); xs_check_eq(xs_label("flux_m[%d]",l),r.fm[l],F[1]+C.mu0*dir,rt,at); } } }
    if (s.n_stokes>1&&v==1&&supported(s,SOL(SINGLE))) { Result b; if (!run(s,SOL(SINGLE),b,e,RAD)) { xs_fail("%s",e.c_str()); return; }
      for (int l=0;l<r.nlev;l++) { int i; double t; C.where(l,i,t); if (so.m==SOL(TWO_OS)&&!(i==0&&xs_conc(t)==0.)) continue; for (int q=0;q<r.nmu;q++) for (int p=0;p<r.nphi;p++) for (int k=1;k<r.nst;k++) { if (up) xs_check_eq(xs_label("Ip[%d][%d][%d][%d]",l,q,p,k),r.Ip[r.ix(l,q,p,k)],b.Ip[r.ix(l,q,p,k)],rt,at); if (dn) xs_check_eq(xs_label("Im[%d][%d][%d][%d]",l,q,p,k),r.Im[r.ix(l,q,p,k)],b.Im[r.ix(l,q,p,k)],rt,at); } } }
  } }
