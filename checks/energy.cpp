// P11: energy. What goes in comes out or is absorbed; the boundaries do what was asked.
#include "dirs.hpp"
static const double PI_=3.14159265358979323846;
void xs_main(void) {
  static const char *md[]={"budget","conservative","boundary"};
  for (auto &c: configs()) for (auto &so: SOLVERS) for (int v=0;v<3;v++) {
    Scene s=c.s; int n=s.nl();
    if (s.fourier_tol>0||so.m==SOL(SINGLE)||so.m==SOL(TWO_OS)||so.m==SOL(SOS)||(c.name=="three_layers"&&so.m==SOL(SIX_STREAM))) continue;
    if (s.has(OPT(UPWELLING_OUTPUT))||s.has(OPT(DOWNWELLING_OUTPUT))||s.has(OPT(TOP_DOWN_ADDING))||s.has(OPT(BOTTOM_UP_ADDING))) continue;
    bool lamb=s.kernels.empty()||(s.kernels.size()==1&&s.kernels[0]==XRTM_KERNEL_LAMBERTIAN), quad=s.has(OPT(QUAD_NORM_GAUS_LEG));
    if (v<2&&(s.thermal()||!s.solar()||!lamb||s.has(OPT(PSA)))) continue;
    if (v==2&&so.m==SOL(DOUB_ADD)&&s.thermal()) continue;     // recorded under P05
    s.options&=~OPT(OUTPUT_AT_TAUS); s.options|=OPT(OUTPUT_AT_LEVELS); s.out_taus.clear(); s.out_levels.clear(); for (int i=0;i<=n;i++) s.out_levels.push_back(i);
    if (!supported(s,so.m)) { s.out_levels={0,n}; if (!supported(s,so.m)) continue; }
    if (!xs_scenario(xs_label("%s/%s/%s",md[v],c.name.c_str(),so.n))) continue;
    if (v==1) { for (int i=0;i<n;i++) s.omega[i]=1-S_(xs_label("coalbedo%d",i),3e-5,2e-5,5e-5); } else for (int i=0;i<n;i++) s.omega[i]=1-R_(xs_label("coalbedo%d",i),1-s.omega[i],.1);
    for (int i=0;i<n;i++) s.ltau[i]=R_(xs_label("ltau%d",i),s.ltau[i],.05);
    for (int i=0;i<n;i++) for (size_t k=1;k<s.coef[i][0].size();k++) s.coef[i][0][k]=R_(xs_label("c%d_%d",i,(int)k),s.coef[i][0][k],.05);
    if (s.solar()) { s.F_0=v<2?R_("F_0",1.,.1):S_("F_0",1.,.01,10); s.theta_0=R_("theta_0",s.theta_0,.05); }
    if (!s.ampfac.empty()) s.ampfac[0]=R_("albedo",s.ampfac[0],.2);
    if (v==2) { if (s.thermal()) { for (size_t i=0;i<s.levels_b.size();i++) s.levels_b[i]=S_(xs_label("b%d",(int)i),s.levels_b[i],.05,3); s.surface_b=S_("sb",s.surface_b,0,3); }
      { s.F_iso_bot=S_("F_iso_bot",.3,0,4); s.F_iso_top=S_("F_iso_top",.2,0,4); } }
    Result r; Str e; if (!run(s,so.m,r,e,what_of(so.m))) { xs_fail("%s",e.c_str()); return; }
    Result w; if (v==1) { Scene y=s; for (int i=0;i<n;i++) y.omega[i]=1-2*(1-s.omega[i]); if (!run(y,so.m,w,e,what_of(so.m))) { xs_fail("%s",e.c_str()); return; } }
    Model m; Scene z=s; z.out_thetas.clear(); z.options&=~OPT(SFI); if (!supported(z,z.solvers)) z.solvers=SOL(EIG_BVP); if (!m.create(z)) { xs_fail("create"); return; } V1 qx(s.n_quad),qw(s.n_quad); xrtm_qx(m.d,qx.data()); xrtm_qw(m.d,qw.data()); double h=0; for (int q=0;q<s.n_quad;q++) h+=qw[q]*qx[q]; h*=2*PI_;
    int L=r.nlev, b=L-1; double mu0=cos(s.theta_0*PI_/180), in0=s.solar()?mu0*s.F_0:0., A=s.ampfac.empty()?0.:s.ampfac[0]; bool da=so.m==SOL(DOUB_ADD);
    if (v<2) {
      for (int l=0;l+1<L;l++) { double dn=(r.fm[l]-r.fp[l])-(r.fm[l+1]-r.fp[l+1]);
        if (v==1) xs_check_eq(xs_label("net[%d]-net[%d]",l,l+1),2*dn-((w.fm[l]-w.fp[l])-(w.fm[l+1]-w.fp[l+1]))+in0,in0,quad?1e-3:da?1e-5:1e-6,1e-9); else xs_check_ge(xs_label("net[%d]>=net[%d]",l,l+1),dn,0.,1e-12); }
      for (int l=0;l<L;l++) { xs_check_ge(xs_label("flux_p[%d]>=0",l),r.fp[l],0.,1e-12); xs_check_ge(xs_label("flux_m[%d]>=0",l),r.fm[l],0.,1e-12); xs_check_ge(xs_label("mean_p[%d]>=0",l),r.mp[l],0.,1e-12); xs_check_ge(xs_label("mean_m[%d]>=0",l),r.mm[l],0.,1e-12);
        // flux is at most 4 pi times the mean intensity of the same half range
        xs_check_ge(xs_label("4pi mean_p>=flux_p[%d]",l),4*PI_*r.mp[l]-r.fp[l],0.,1e-12); xs_check_ge(xs_label("4pi mean_m>=flux_m[%d]",l),4*PI_*r.mm[l]-r.fm[l],0.,1e-12); }
      xs_check_ge("reflected<=incident",in0-r.fp[0],0.,1e-12); }
    else { double rt=da?1e-4:1e-7, at=1e-9, up;
      xs_check_eq("flux_m[top]",r.fm[0],in0+h*s.F_iso_top,rt,at);
      double j=0; for (int q=0;q<s.n_quad;q++) j+=qw[q]; xs_check_eq("mean_m[top]",r.mm[0],(s.solar()?s.F_0/(4*PI_):0.)+j*s.F_iso_top/2,rt,at);
      for (int q=0;q<r.nmu;q++) for (int p=0;p<r.nphi;p++) for (int k=0;k<r.nst;k++) xs_check_eq(xs_label("Im[top][%d][%d][%d]",q,p,k),r.Im[r.ix(0,q,p,k)],k==0?s.F_iso_top:0.,rt,at);
      if (lamb) { double qf=PI_/h, f=r.fm[b]; // Lambertian: the upward radiance is isotropic and carries the albedo's share
        up=A*qf*f/PI_+s.F_iso_bot+(s.thermal()&&!s.kernels.empty()?(1-A)*s.surface_b:0.);
        xs_check_eq("flux_p[bottom]",r.fp[b],h*up,rt,at); xs_check_eq("mean_p[bottom]",r.mp[b],j*up/2,rt,at);
        for (int q=0;q<r.nmu;q++) for (int p=0;p<r.nphi;p++) for (int k=0;k<r.nst;k++) xs_check_eq(xs_label("Ip[bottom][%d][%d][%d]",q,p,k),r.Ip[r.ix(b,q,p,k)],k==0?up:0.,rt,at); } }
  } }
