// P: descriptions of the same problem give the same answer.
#include "dirs.hpp"
static double P_=3.14159265358979323846;
struct Pair { Scene a,b; int what; std::function<void(const Result&,const Result&,double)> cmp; bool ok; };
static void all(const Result &a, const Result &b, double rt) { auto A=outs(a),B=outs(b); for (size_t i=0;i<A.size();i++) xs_check_eq(A[i].name.c_str(),B[i].v,A[i].v,rt,1e-9); }
static void rads(const Result &a, const Result &b, double rt) { auto A=outs(a,RAD),B=outs(b,RAD); for (size_t i=0;i<A.size();i++) xs_check_eq(A[i].name.c_str(),B[i].v,A[i].v,rt,1e-9); }
static void first(const Result &a, const Result &b, double rt) { // leading Stokes elements of the smaller one
  int n=std::min(a.nst,b.nst); for (int l=0;l<a.nlev;l++) { for (int m=0;m<a.nmu;m++) for (int p=0;p<a.nphi;p++) for (int k=0;k<n;k++) {
    xs_check_eq(xs_label("Ip[%d][%d][%d][%d]",l,m,p,k),b.Ip[b.ix(l,m,p,k)],a.Ip[a.ix(l,m,p,k)],rt,1e-9); xs_check_eq(xs_label("Im[%d][%d][%d][%d]",l,m,p,k),b.Im[b.ix(l,m,p,k)],a.Im[a.ix(l,m,p,k)],rt,1e-9); }
    if (!a.mp.empty()) { xs_check_eq(xs_label("mean_p[%d]",l),b.mp[l],a.mp[l],rt,1e-9); xs_check_eq(xs_label("flux_m[%d]",l),b.fm[l],a.fm[l],rt,1e-9); } } }
static Scene sym(Scene s, int so, bool coefs=true) {
  if (s.solar()) s.F_0=S_("F_0",1.,0,10.); if (!in(sname(so),{"single","two_os"})) s.F_iso_bot=S_("F_iso_bot",.3,0,4);
  if (s.thermal()) { for (size_t i=0;i<s.levels_b.size();i++) s.levels_b[i]=S_(xs_label("b%d",(int)i),s.levels_b[i],.05,3.); s.surface_b=S_("sb",s.surface_b,0.,3.); }
  if (s.n_stokes>1||so==SOL(SOS)) return s;
  for (int i=0;i<s.nl();i++) { s.omega[i]=R_(xs_label("omega%d",i),s.omega[i],.02); s.ltau[i]=R_(xs_label("ltau%d",i),s.ltau[i],.05); if (coefs) for (size_t k=1;k<s.coef[i][0].size();k++) s.coef[i][0][k]=R_(xs_label("c%d_%d",i,(int)k),s.coef[i][0][k],.02); }
  return s; }
static bool node_thetas(Scene &s, bool lobatto) { Scene z=s; z.out_thetas.clear(); z.options&=~OPT(SFI); z.solvers=SOL(EIG_BVP); Model m; if (!m.create(z)) return false; V1 q(z.n_quad); if (xrtm_qx(m.d,q.data())) return false; s.out_thetas.clear(); for (double x: q) s.out_thetas.push_back(acos(x)*180/P_); return true; }
void xs_main(void) {
  static const char *md[]={"delta_m","flat_psa","scalar_in_vector","stokes3_in_4","nodes","sfi","more_coefs","kernel_sum","kernel_order","azimuth_mean","phi_0_thermal","user_kernel"};
  for (auto &c: configs()) for (auto &so: SOLVERS) for (int v=0;v<12;v++) {
    Scene s=c.s, t; bool sos=so.m==SOL(SOS); if (!supported(s,so.m)||s.fourier_tol>0||(c.name=="three_layers"&&so.m==SOL(SIX_STREAM))) continue;
    if (sos) { if (s.n_stokes>1) continue; for (auto &x: s.ltau) x*=.1; for (auto &x: s.out_taus) x*=.1; s.sos_max_tau=.003; s.sos_tol=1e-11; }
    auto cmp=all; bool coefs=true; int w=what_of(so.m);
    // which configurations a mode is for
    if (v==0) { if (!s.has(OPT(DELTA_M))||s.has(OPT(N_T_TMS))||s.n_stokes>1||so.m==SOL(SINGLE)) continue; }
    if (v==1) { if (!s.has(OPT(PSA))) continue; s.levels_z.assign(s.nl()+1,0); for (int i=0;i<=s.nl();i++) s.levels_z[i]=1e-7*(s.nl()-i); }
    if (v==2) { if (s.n_stokes>1||c.name=="greens"/* the Green's function solution was never written for polarised radiation: it uses memory it has not set, so its values are not reproducible */||s.has(OPT(N_T_TMS))&&so.m!=SOL(SINGLE)) continue; t=s; t.options|=OPT(VECTOR)|OPT(PHASE_MATRIX_GC); t.n_stokes=3; t.coef.resize(s.nl()); for (int i=0;i<s.nl();i++) { t.coef[i].assign(6,V1(s.coef[i][0].size(),0.)); t.coef[i][0]=s.coef[i][0]; for (size_t k=2;k<s.coef[i][0].size();k++) { t.coef[i][1][k]=.3; t.coef[i][2][k]=.2; } } cmp=first; if (!supported(t,so.m)) continue; coefs=false; }
    if (v==3) { if (s.n_stokes!=4) continue; for (auto &x: s.coef) for (size_t k=0;k<x[5].size();k++) x[5][k]=0; t=s; t.n_stokes=3; cmp=first; }
    if (v==4) { if (!s.out_thetas.empty()||s.has(OPT(N_T_TMS))) continue; t=s; if (!node_thetas(t,false)||!supported(t,so.m)) continue; }
    if (v==5) { if (!s.has(OPT(SFI))||(so.m==SOL(TWO_OS)&&starts(c.name,"px")/* recorded with the named ones */)) continue; t=s; t.options&=~OPT(SFI); if (!supported(t,so.m)) continue; }
    if (v==6) { if (s.has(OPT(DELTA_M))||so.m==SOL(SINGLE)||s.has(OPT(QUAD_NORM_GAUS_LEG))) continue; t=s; t.max_coef+=4; }
    if (v==7) { if (s.kernels.empty()) continue; t=s; t.kernels.push_back(s.kernels.back()); t.params.resize(s.kernels.size()); t.params.push_back(V1(t.params.back())); t.ampfac.push_back(0.); if (!supported(t,so.m)) continue; }
    if (v==8) { if (s.kernels.size()<2) continue; }
    if (v==9) { if (!s.has(OPT(NO_AZIMUTHAL))) continue; cmp=0; }
    if (v==10) { if (s.solar()||!s.thermal()) continue; }
    int uk=0; if (v==11) { uk=s.kernels.size()!=1?0:s.kernels[0]==XRTM_KERNEL_LAMBERTIAN?1:s.kernels[0]==XRTM_KERNEL_HAPKE?2:s.kernels[0]==XRTM_KERNEL_ROSS_THICK?3:0; if (!uk) continue; }
    if (!xs_thorough && s.n_stokes>1 && in(so.n,{"doub_add","pade_add","mem_bvp"})) continue;
    if (!xs_scenario(xs_label("%s/%s/%s",md[v],c.name.c_str(),so.n))) continue;
    Scene X=sym(s,so.m,coefs), Y=X; Result a,b; Str e; double rt=sos?1e-4:so.m==SOL(DOUB_ADD)?2e-5:v==1?1e-5:1e-6;
    if (v==0) { Y.options&=~OPT(DELTA_M); int N=2*s.n_quad; Y.max_coef=N; for (int i=0;i<s.nl();i++) { double f=X.coef[i][0][N]/(2*N+1); V1 k; for (int j=0;j<N;j++) k.push_back((X.coef[i][0][j]-(2*j+1)*f)/(1-f)); Y.coef[i][0]=k;
        Y.ltau[i]=(1-f*X.omega[i])*X.ltau[i]; Y.omega[i]=(1-f)*X.omega[i]/(1-f*X.omega[i]); }
      for (size_t o=0;o<X.out_taus.size();o++) { double u=X.out_taus[o], w=0; int i=0; while (i<s.nl()-1&&xs_conc(u)>xs_conc(X.ltau[i])) { u=u-X.ltau[i]; w=w+Y.ltau[i]; i++; } Y.out_taus[o]=w+u*Y.ltau[i]/X.ltau[i]; } }
    if (v==1) { Y.options&=~OPT(PSA); Y.levels_z.clear(); }
    if (v==2) { Y.options=t.options; Y.n_stokes=3; Y.coef=t.coef; for (int i=0;i<s.nl();i++) Y.coef[i][0]=X.coef[i][0]; }
    if (v==3) Y.n_stokes=3;
    if (v==4) Y.out_thetas=t.out_thetas;
    if (v==5) Y.options=t.options;
    if (v==6) { Y.max_coef=t.max_coef; for (auto &x: Y.coef) for (auto &r: x) { for (int k=0;k<2;k++) r.push_back(0.); if ((int)r.size()>2*s.n_quad) { r.back()=.05; r.push_back(.02); } } }
    if (v==7) { Y.kernels=t.kernels; Y.params=t.params; double x=xs_conc(s.ampfac.back()), A=R_("ampA",x*.6,.3),B=R_("ampB",x*.4,.3); Y.ampfac=X.ampfac; Y.ampfac.back()=A; Y.ampfac.push_back(B); X.ampfac.back()=A+B; }
    if (v==8) { std::reverse(Y.kernels.begin(),Y.kernels.end()); std::reverse(Y.ampfac.begin(),Y.ampfac.end()); Y.params.resize(Y.kernels.size()); std::reverse(Y.params.begin(),Y.params.end()); }
    if (v==9) { Y.options&=~OPT(NO_AZIMUTHAL); Y.phis.clear(); for (int k=0;k<8;k++) Y.phis.push_back(7+45.*k); }
    if (v==10) { X.phis={20,110}; Y.phis={250,90}; }
    if (v==11) { double x=xs_conc(s.ampfac[0]); X.ampfac[0]=Y.ampfac[0]=R_("amp",x,.3); for (size_t k=0;k<(X.params.empty()?0:X.params[0].size());k++) X.params[0][k]=R_(xs_label("p%d",(int)k),X.params[0][k],.05); Y.params=X.params; Y.params.resize(1); Y.params[0].resize(4); Y.kernels={XRTM_KERNEL_USER_DEFINED}; Y.ukind=uk; }
    if (!run(X,so.m,a,e,w)||!run(Y,so.m,b,e,w)) { xs_fail("%s",e.c_str()); return; }
    if (v==9) { for (int l=0;l<a.nlev;l++) { for (int m=0;m<a.nmu;m++) for (int p=0;p<a.nphi;p++) for (int k=0;k<a.nst;k++) { double u=0,d=0; for (int q=0;q<8;q++) { u+=b.Ip[b.ix(l,m,q,k)]/8; d+=b.Im[b.ix(l,m,q,k)]/8; }
        xs_check_eq(xs_label("Ip[%d][%d][%d][%d]",l,m,p,k),a.Ip[a.ix(l,m,p,k)],u,rt,1e-9); xs_check_eq(xs_label("Im[%d][%d][%d][%d]",l,m,p,k),a.Im[a.ix(l,m,p,k)],d,rt,1e-9); }
        if (!a.mp.empty()) { xs_check_eq(xs_label("mean_p[%d]",l),b.mp[l],a.mp[l],rt,1e-9); xs_check_eq(xs_label("flux_m[%d]",l),b.fm[l],a.fm[l],rt,1e-9); } } }
    else cmp(a,b,rt); } }
