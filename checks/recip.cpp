// P12: reciprocity. Exchange the sun and the observer: reflection is unchanged, and
// transmission is that of the stack turned upside down.
#include "dirs.hpp"
#include <algorithm>
static const double PI_=3.14159265358979323846;
void xs_main(void) {
  static const char *md[]={"reflection","transmission"};
  // brdf_dd: that kernel is not reciprocal; greens: does not support the extra streams used here (a finding, P09)
  for (auto &c: configs()) for (auto &so: SOLVERS) for (int v=0;v<2;v++) {
    Scene s=c.s; int n=s.nl();
    if (s.fourier_tol>0||c.name=="brdf_dd"||c.name=="greens"||s.thermal()||!s.solar()||s.has(OPT(PSA))||(c.name=="three_layers"&&so.m==SOL(SIX_STREAM))) continue;
    if (s.has(v?OPT(UPWELLING_OUTPUT):OPT(DOWNWELLING_OUTPUT))||s.has(v?OPT(TOP_DOWN_ADDING):OPT(BOTTOM_UP_ADDING))||(v&&so.m==SOL(TWO_OS))) continue;
    if (v==0&&s.has(OPT(BOTTOM_UP_ADDING))) continue;
    s.options&=~(OPT(OUTPUT_AT_TAUS)|OPT(TOP_DOWN_ADDING)|OPT(BOTTOM_UP_ADDING)); s.options|=OPT(OUTPUT_AT_LEVELS); s.out_taus.clear();
    s.out_levels={v?n:0}; if (v) { s.kernels.clear(); s.ampfac.clear(); s.params.clear(); }
    s.out_thetas={50}; if (s.phis.size()>1) s.phis.resize(1);
    if (so.m==SOL(TWO_STREAM)) { s.kernels.clear(); s.ampfac.clear(); s.params.clear(); }
    bool li=false; for (auto k: s.kernels) li|=k==XRTM_KERNEL_LI_SPARSE||k==XRTM_KERNEL_LI_DENSE; if (li) continue;  // not reciprocal by definition
    if (!supported(s,so.m)) continue;
    if (!xs_scenario(xs_label("%s/%s/%s",md[v],c.name.c_str(),so.n))) continue;
        bool sos=so.m==SOL(SOS); if (sos) { for (auto &x: s.ltau) x*=.2; s.sos_max_tau=.003; s.sos_max_os=12; s.sos_tol=1e-13; }
    for (int i=0;i<n;i++) { s.omega[i]=R_(xs_label("omega%d",i),s.omega[i],.05); s.ltau[i]=R_(xs_label("ltau%d",i),s.ltau[i],.1); }
    for (int i=0;i<n;i++) for (size_t k=1;k<s.coef[i][0].size();k++) s.coef[i][0][k]=R_(xs_label("c%d_%d",i,(int)k),s.coef[i][0][k],.05);
    s.F_0=S_("F_0",1.,.01,10); for (size_t k=0;k<s.ampfac.size();k++) s.ampfac[k]=R_(xs_label("ampfac%d",(int)k),s.ampfac[k],.2);
    s.theta_0=R_("theta_0",s.theta_0,.1); s.out_thetas[0]=R_("theta",s.out_thetas[0],.1); s.phis[0]=R_("phi",s.phis[0],.1);
    Scene t=s; t.theta_0=s.out_thetas[0]; t.out_thetas[0]=s.theta_0;
    if (v) { std::reverse(t.omega.begin(),t.omega.end()); std::reverse(t.ltau.begin(),t.ltau.end()); std::reverse(t.coef.begin(),t.coef.end()); }
    Result a,b; Str e; if (!run(s,so.m,a,e,RAD)||!run(t,so.m,b,e,RAD)) { xs_fail("%s",e.c_str()); return; }
    double ca=cos(s.theta_0*PI_/180), cb=cos(s.out_thetas[0]*PI_/180);
    int q=a.nmu-1; auto &A=v?a.Im:a.Ip, &B=v?b.Im:b.Ip;
    xs_check_eq(xs_label("%s[0]",v?"Im":"Ip"),A[a.ix(0,q,0,0)]*cb,B[b.ix(0,q,0,0)]*ca,sos?1e-3:so.m==SOL(DOUB_ADD)?1e-4:1e-7,1e-10);
  } }
