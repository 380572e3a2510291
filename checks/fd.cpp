// P: the finite difference interface returns the difference of two ordinary
// solutions of the perturbed problems, divided by delta, and leaves the
// instance as it was.
#include "dirs.hpp"
#include <xrtm_fd_interface.h>
static Scene moved(Scene s, const DerivIn &p, double f) {
  s.F_iso_top+=f*p.F_iso_top; s.F_iso_bot+=f*p.F_iso_bot; s.surface_b+=f*p.surface_b; for (size_t i=0;i<p.levels_b.size();i++) s.levels_b[i]+=f*p.levels_b[i];
  for (int i=0;i<s.nl();i++) { s.omega[i]+=f*p.omega[i]; s.ltau[i]+=f*p.ltau[i]; for (size_t k=0;k<s.coef[i].size();k++) for (size_t j=0;j<s.coef[i][k].size();j++) s.coef[i][k][j]+=f*p.coef[i][k][j]; }
  for (size_t k=0;k<s.ampfac.size();k++) { s.ampfac[k]+=f*p.ampfac[k]; if (k<s.params.size()) for (size_t j=0;j<s.params[k].size();j++) s.params[k][j]+=f*p.params[k][j]; }
  return s; }
static DerivIn small(Scene s, const char *p, int bits, int layer) { DerivIn e; inputs(s,e,[&](const char *n,int g,int l,double &x,double &d){ double v=std::fabs(xs_conc(x)); Str q=Str(p)+n; if ((g&bits)&&(layer<0||l==layer||l==s.nl())) d=S_(q,.012*v*(unit_(q)<.5?-1:1)*(.4+.5*unit_(q)),-.012*v,.012*v); }); return e; }
#define T_(x) do { if (x) { xs_fail("%s",#x); return; } } while (0)
static void go(const Scene &s, int so, int w, int meth, bool alone=false) {
  DerivIn p[3]={small(s,"p0.",IN_ALL|IN_PAR,-1),small(s,"p1.",IN_SRC,-1),small(s,"p2.",IN_OMEGA|IN_TAU|IN_COEF,s.nl()-1)}; const int K=3; double delta[3]={.01,.02,.05}; int n=s.nl();
  Model m; Scene t=s; t.solvers=so; Str e; if (!m.create(t)||!m.set_all(t)) { xs_fail("%s",m.err.c_str()); return; }
  xrtm_fd_data *f=raw_<xrtm_fd_data>(1); T_(xrtm_fd_create(f,m.d,K)); T_(xrtm_fd_set_delta(f,delta));
  double **om=arr2(n,K), **ta=arr2(n,K);
  for (int j=0;j<K;j++) { for (int i=0;i<n;i++) { om[i][j]=p[j].omega[i]; ta[i][j]=p[j].ltau[i]; T_(xrtm_fd_set_coef_p_11(f,i,j,Model::c2(p[j].coef[i]))); }
    T_(xrtm_fd_set_F_iso_top_p_1(f,j,p[j].F_iso_top)); T_(xrtm_fd_set_F_iso_bot_p_1(f,j,p[j].F_iso_bot));
    if (s.thermal()) { V1 b=p[j].levels_b; T_(xrtm_fd_set_levels_b_p_1(f,j,b.data())); T_(xrtm_fd_set_surface_b_p_1(f,j,p[j].surface_b)); }
    for (size_t k=0;k<s.kernels.size();k++) { T_(xrtm_fd_set_kernel_ampfac_p_1(f,k,j,p[j].ampfac[k])); if (k<s.params.size()) for (size_t q=0;q<s.params[k].size();q++) T_(xrtm_fd_set_kernel_params_p_11(f,k,j,q,p[j].params[k][q])); } }
  T_(xrtm_fd_set_omega_p_nn(f,om)); T_(xrtm_fd_set_ltau_p_nn(f,ta));
  int L=s.n_out(), M=s.n_mus(), P=(int)s.phis.size(), T=s.n_stokes; V1 ph=s.phis; std::vector<double*> op(M,ph.data());
  double ****Ip=arr4(L,M,P,T),****Im=arr4(L,M,P,T),*****Kp=arr5(L,K,M,P,T),*****Km=arr5(L,K,M,P,T); V1 mp(L),mm(L),fp(L),fm(L); double **mpl=arr2(L,K),**mml=arr2(L,K),**fpl=arr2(L,K),**fml=arr2(L,K);
  int mask=XRTM_OUTPUT_RADIANCE|((w&MEAN)?XRTM_OUTPUT_RADIANCE_MEAN:0)|((w&FLUX)?XRTM_OUTPUT_FLUX:0);
  if (alone) { w=RAD; if (xrtm_fd_radiance(f,(xrtm_solver_mask)so,(xrtm_fd_method_type)meth,P,op.data(),Ip,Im,Kp,Km)) { xs_fail("xrtm_fd_radiance"); return; } } else if (xrtm_fd_solution(f,(xrtm_solver_mask)so,mask,(xrtm_fd_method_type)meth,P,op.data(),Ip,Im,Kp,Km,mp.data(),mm.data(),mpl,mml,fp.data(),fm.data(),fpl,fml,nullptr,nullptr)) { xs_fail("xrtm_fd_solution"); return; }
  auto pack=[&](int j) { Result r; r.nlev=L; r.nmu=M; r.nphi=P; r.nst=T; size_t N=(size_t)M*P*T; r.Ip.resize(L*N); r.Im.resize(L*N); for (int l=0;l<L;l++) for (size_t q=0;q<N;q++) { r.Ip[l*N+q]=j<0?Ip[l][0][0][q]:Kp[l][j][0][0][q]; r.Im[l*N+q]=j<0?Im[l][0][0][q]:Km[l][j][0][0][q]; }
    for (int l=0;l<L;l++) { if (w&MEAN) { r.mp.push_back(j<0?mp[l]:mpl[l][j]); r.mm.push_back(j<0?mm[l]:mml[l][j]); } if (w&FLUX) { r.fp.push_back(j<0?fp[l]:fpl[l][j]); r.fm.push_back(j<0?fm[l]:fml[l][j]); } } return r; };
  Result b; if (!run(s,so,b,e,w)) { xs_fail("%s",e.c_str()); return; } std::vector<Out> B=outs(b,w), G=outs(pack(-1),w); if (G.size()!=B.size()) { xs_fail("outputs"); return; }
  for (size_t i=0;i<B.size();i++) xs_check_eq(B[i].name.c_str(),G[i].v,B[i].v,1e-11,1e-13);
  for (int j=0;j<K;j++) { std::vector<Out> X=B, Y=B; Result r; if (meth!=XRTM_FD_METHOD_BACKWARD) { if (!run(moved(s,p[j],1),so,r,e,w)) { xs_fail("%s",e.c_str()); return; } X=outs(r,w); } Result q; if (meth!=XRTM_FD_METHOD_FORWARD) { if (!run(moved(s,p[j],-1),so,q,e,w)) { xs_fail("%s",e.c_str()); return; } Y=outs(q,w); }
    std::vector<Out> D=outs(pack(j),w); for (size_t i=0;i<B.size();i++) xs_check_eq(xs_label("d%d %s",j,B[i].name.c_str()),D[i].v,(X[i].v-Y[i].v)/delta[j],1e-8,1e-9); }
  // the instance is as it was
  for (int i=0;i<n;i++) { xs_check_eq(xs_label("omega%d after",i),xrtm_get_omega(m.d,i),s.omega[i],1e-12,1e-13); xs_check_eq(xs_label("ltau%d after",i),xrtm_get_ltau(m.d,i),s.ltau[i],1e-12,1e-13); for (size_t k=0;k<s.coef[i].size();k++) for (size_t j=0;j<s.coef[i][k].size();j++) xs_check_eq(xs_label("coef%d_%d_%d after",i,(int)k,(int)j),xrtm_get_coef(m.d,i,k,j),s.coef[i][k][j],1e-12,1e-13); }
  xs_check_eq("F_iso_top after",xrtm_get_F_iso_top(m.d),s.F_iso_top,1e-12,1e-13); xs_check_eq("F_iso_bot after",xrtm_get_F_iso_bot(m.d),s.F_iso_bot,1e-12,1e-13);
  Result a; if (!m.solve(t,so,a,w)) { xs_fail("%s",m.err.c_str()); return; } std::vector<Out> A=outs(a,w); for (size_t i=0;i<B.size();i++) xs_check_eq(xs_label("after %s",B[i].name.c_str()),A[i].v,B[i].v,1e-9,1e-11);
  xrtm_fd_destroy(f); }
void xs_main(void) {
  static const char *mn[]={"forward","backward","central"};
  for (auto &c: configs()) for (auto &so: SOLVERS) for (int meth=0;meth<3;meth++) { Scene s=c.s; if (!supported(s,so.m)) continue; if (s.fourier_tol>0) continue;
    if (!xs_thorough) { bool main=in(c.name,{"solar2","thermal_solar","thetas","taus","vector3_thermal","brdf_rahman","brdf_rtls","tms","psa","thermal_thetas3","nq1"}); if (!main) continue; if (meth!=2&&so.m!=SOL(EIG_BVP)&&!in(c.name,{"thermal_solar","brdf_rahman","nq1","taus"})) continue; }
    s.F_iso_top=.15; s.F_iso_bot=.25; for (auto &a: s.ampfac) if (a>.95) a=.9; for (auto &x: s.out_taus) x*=.9; if (so.m==SOL(SOS)) { for (auto &x: s.ltau) x*=.1; s.sos_max_tau=.01; s.sos_max_os=20; }
    if (!xs_scenario(xs_label("%s/%s/%s",mn[meth],c.name.c_str(),so.n))) continue;
    go(s,so.m,what_of(so.m),meth); }
  for (int meth=0;meth<3;meth++) if (xs_scenario(xs_label("radiance/%s",mn[meth]))) { Scene s=cfg("thermal_solar"); s.F_iso_top=.15; s.F_iso_bot=.25; go(s,SOL(EIG_BVP),RAD,meth,true); } }
