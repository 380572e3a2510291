// P: radiances depend on the azimuth relative to the sun only, with period 360
// degrees and mirror symmetry; integrated quantities not at all.
#include "dirs.hpp"
void xs_main(void) {
  static const char *md[]={"shift","period","mirror","average"};
  for (auto &c: configs()) for (auto &so: SOLVERS) for (int v=0;v<4;v++) {
    Scene s=c.s; if (!supported(s,so.m)||s.fourier_tol>0||(c.name=="three_layers"&&so.m==SOL(SIX_STREAM))) continue; bool na=s.has(OPT(NO_AZIMUTHAL));
    if (so.m==SOL(SOS)) { if (s.n_stokes>1) continue; for (auto &x: s.ltau) x*=.1; for (auto &x: s.out_taus) x*=.1; s.sos_max_tau=.01; s.sos_max_os=20; }
    if (v==3&&(so.m==SOL(SINGLE)||so.m==SOL(TWO_OS)||s.has(OPT(N_T_TMS)))) continue;   // moments come from the quadrature angles
    if (v==3&&(s.has(OPT(UPWELLING_OUTPUT)|OPT(DOWNWELLING_OUTPUT))||!s.out_thetas.empty())) continue;
    if (!xs_thorough && s.n_stokes>1 && in(so.n,{"doub_add","pade_add","mem_bvp"})) continue;
    if (!xs_scenario(xs_label("%s/%s/%s",md[v],c.name.c_str(),so.n))) continue;
    int w=what_of(so.m); if (s.solar()) s.F_0=S_("F_0",1.,0,10.); if (so.m!=SOL(SINGLE)) s.F_iso_bot=S_("F_iso_bot",.3,0,4);
    if (s.n_stokes==1&&so.m!=SOL(SOS)) { for (int i=0;i<s.nl();i++) { s.omega[i]=R_(xs_label("omega%d",i),s.omega[i],.02); s.ltau[i]=R_(xs_label("ltau%d",i),s.ltau[i],.05); } s.theta_0=s.solar()?R_("theta_0",s.theta_0,.05):s.theta_0; }
    s.phi_0=10; s.phis={20,110,200,333}; Result a,b; Str e;
    if (v==3) { // eight azimuths integrate every harmonic below the eighth exactly
      s.phis.clear(); for (int k=0;k<8;k++) s.phis.push_back(3+45.*k); Scene z=s; z.solvers|=so.m; Model m; if (!m.create(z)||!m.set_all(z)||!m.solve(z,so.m,a,w)) { xs_fail("%s",m.err.c_str()); return; }
      V1 mu(s.n_quad),wt(s.n_quad); xrtm_qx(m.d,mu.data()); xrtm_qw(m.d,wt.data());
      for (int l=0;l<a.nlev;l++) { double I[2]={0,0},F[2]={0,0}; for (int q=0;q<a.nmu;q++) { double p=0,n=0; for (int k=0;k<8;k++) { p+=a.Ip[a.ix(l,q,k,0)]/8; n+=a.Im[a.ix(l,q,k,0)]/8; } I[0]+=wt[q]*p; I[1]+=wt[q]*n; F[0]+=wt[q]*mu[q]*p; F[1]+=wt[q]*mu[q]*n; }
        double P=3.14159265358979323846, dm=a.mm[l]-I[1]/2, df=a.fm[l]-2*P*F[1];   // the direct beam belongs to the downward moments
        xs_check_eq(xs_label("mean_p[%d]",l),a.mp[l],I[0]/2,1e-8,1e-11); xs_check_eq(xs_label("flux_p[%d]",l),a.fp[l],2*P*F[0],1e-8,1e-11);
        if (!s.solar()) { xs_check_eq(xs_label("mean_m[%d]",l),dm,0.,0,1e-11); xs_check_eq(xs_label("flux_m[%d]",l),df,0.,0,1e-11); continue; }
        double mu0=cos(s.theta_0*P/180); xs_check_eq(xs_label("beam[%d]",l),dm*4*P*mu0,df,1e-8,1e-11);
        if (s.has(OPT(PSA)|OPT(DELTA_M))) continue;
        double tau=0; if (s.has(OPT(OUTPUT_AT_TAUS))) tau=s.out_taus[l]; else for (int i=0;i<s.out_levels[l];i++) tau+=s.ltau[i];
        xs_check_eq(xs_label("flux_m[%d]",l),df,s.F_0*mu0*exp(-tau/mu0),1e-8,1e-11); }
      continue; }
    Scene t=s; if (v==0) { t.phi_0+=73; for (auto &p: t.phis) p+=73; } else if (v==1) { t.phis={380,470,-160,-27}; } else for (auto &p: t.phis) p=2*s.phi_0-p;
    if (v!=1) for (auto &p: t.phis) { if (p<0) p+=360; if (p>=360) p-=360; }
    if (!run(s,so.m,a,e,w)||!run(t,so.m,b,e,w)) { xs_fail("%s",e.c_str()); return; }
    for (int l=0;l<a.nlev;l++) { for (int q=0;q<a.nmu;q++) for (int p=0;p<a.nphi;p++) for (int k=0;k<a.nst;k++) { double g=v==2&&k>=2?-1:1;
        xs_check_eq(xs_label("Ip[%d][%d][%d][%d]",l,q,p,k),g*b.Ip[b.ix(l,q,p,k)],a.Ip[a.ix(l,q,p,k)],1e-7,1e-10); xs_check_eq(xs_label("Im[%d][%d][%d][%d]",l,q,p,k),g*b.Im[b.ix(l,q,p,k)],a.Im[a.ix(l,q,p,k)],1e-7,1e-10);
        if (na&&p) xs_check_eq(xs_label("flat Ip[%d][%d][%d][%d]",l,q,p,k),a.Ip[a.ix(l,q,p,k)],a.Ip[a.ix(l,q,0,k)],1e-9,1e-12); }
      if (!a.mp.empty()) { xs_check_eq(xs_label("mean_p[%d]",l),b.mp[l],a.mp[l],1e-9,1e-12); xs_check_eq(xs_label("mean_m[%d]",l),b.mm[l],a.mm[l],1e-9,1e-12); xs_check_eq(xs_label("flux_p[%d]",l),b.fp[l],a.fp[l],1e-9,1e-12); xs_check_eq(xs_label("flux_m[%d]",l),b.fm[l],a.fm[l],1e-9,1e-12); } }
  } }
