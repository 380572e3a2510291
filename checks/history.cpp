// P: results depend on the current inputs only, not on how the instance got
// there: after any sequence of changes and solves, a solve gives what a fresh
// instance with the current inputs gives.
#include "dirs.hpp"
typedef std::function<bool(Model&, Scene&, const char*)> Step;
struct Mut { const char *name; Step f; };
static double T_(const char *p, const char *n, int i, double v, double rel) { return R_(xs_label("%s.%s%d",p,n,i),v,rel); }
#define TR(x) do { if (x) { m.err=#x; return false; } } while (0)
static std::vector<Mut> mutations(const Scene &s0) {
  std::vector<Mut> r; auto A=[&](const char *n, Step f){ r.push_back({n,f}); }; int L=s0.nl()-1;
  A("repeat",[](Model&,Scene&,const char*){ return true; });
  A("omega_last",[L](Model &m, Scene &s, const char *p){ s.omega[L]=T_(p,"omega",L,s.omega[L]*.9,.05); TR(xrtm_set_omega_1(m.d,L,s.omega[L])); return true; });
  A("ltau_first",[](Model &m, Scene &s, const char *p){ s.ltau[0]=T_(p,"ltau",0,s.ltau[0]*1.2,.05); TR(xrtm_set_ltau_1(m.d,0,s.ltau[0])); return true; });
  A("coef_last",[L](Model &m, Scene &s, const char *p){ for (auto &e: s.coef[L]) for (size_t k=1;k<e.size();k++) e[k]*=.8; if (s.coef[L][0].size()>1) s.coef[L][0][1]=T_(p,"c1_",L,s.coef[L][0][1],.05); return m.set_coef(s,L); });
  A("amp",[](Model &m, Scene &s, const char *p){ for (size_t k=0;k<s.ampfac.size();k++) { s.ampfac[k]=T_(p,"amp",k,s.ampfac[k]*.7,.05); TR(xrtm_set_kernel_ampfac(m.d,k,s.ampfac[k])); } return true; });
  if (!s0.params.empty()) A("params",[](Model &m, Scene &s, const char *p){ for (size_t k=0;k<s.params.size();k++) for (size_t j=0;j<s.params[k].size();j++) { s.params[k][j]=T_(p,"par",k*8+j,s.params[k][j]*.9,.02); TR(xrtm_set_kernel_params_1(m.d,k,j,s.params[k][j])); } return true; });
  if (s0.solar()) {
    A("F_0",[](Model &m, Scene &s, const char *p){ s.F_0=T_(p,"F_0",0,s.F_0*1.5,.1); TR(xrtm_set_F_0(m.d,s.F_0)); return true; });
    A("theta_0",[](Model &m, Scene &s, const char *p){ s.theta_0=xs_symbolic&&s.n_stokes>1?s.theta_0-8.:T_(p,"theta_0",0,s.theta_0-8.,.01); TR(xrtm_set_theta_0(m.d,s.theta_0)); return true; });
    A("phi_0",[](Model &m, Scene &s, const char*){ s.phi_0+=17; TR(xrtm_set_phi_0(m.d,s.phi_0)); return true; }); }
  A("F_iso",[](Model &m, Scene &s, const char *p){ s.F_iso_top=T_(p,"F_iso_top",0,.2,.1); s.F_iso_bot=T_(p,"F_iso_bot",0,.3,.1); TR(xrtm_set_F_iso_top(m.d,s.F_iso_top)); TR(xrtm_set_F_iso_bot(m.d,s.F_iso_bot)); return true; });
  if (s0.thermal()) { A("levels_b",[](Model &m, Scene &s, const char *p){ for (size_t i=0;i<s.levels_b.size();i++) s.levels_b[i]=T_(p,"b",i,s.levels_b[i]*1.3,.05); V1 b=s.levels_b; TR(xrtm_set_levels_b(m.d,b.data())); return true; });
    A("surface_b",[](Model &m, Scene &s, const char *p){ s.surface_b=T_(p,"sb",0,s.surface_b*.8,.05); TR(xrtm_set_surface_b(m.d,s.surface_b)); return true; }); }
  if (s0.has(OPT(PSA))) { A("levels_z",[](Model &m, Scene &s, const char *p){ for (size_t i=0;i+1<s.levels_z.size();i++) s.levels_z[i]=T_(p,"z",i,s.levels_z[i]*1.1,.01); V1 z=s.levels_z; TR(xrtm_set_levels_z(m.d,z.data())); return true; });
    A("planet_r",[](Model &m, Scene &s, const char *p){ s.planet_r=T_(p,"planet_r",0,s.planet_r*.8,.01); TR(xrtm_set_planet_r(m.d,s.planet_r)); return true; }); }
  if (s0.has(OPT(OUTPUT_AT_TAUS))) A("out_taus",[](Model &m, Scene &s, const char*){ double t=0; for (double x: s.ltau) t+=xs_conc(x); for (size_t i=0;i<s.out_taus.size();i++) s.out_taus[i]=t*(.07+.8*i/s.out_taus.size()); return m.set_out(s); });
  else if (s0.out_levels.size()==1&&!s0.has(OPT(TOP_DOWN_ADDING))&&!s0.has(OPT(BOTTOM_UP_ADDING))) A("out_levels",[](Model &m, Scene &s, const char*){ s.out_levels[0]=s.out_levels[0]?0:s.nl(); return m.set_out(s); });
  if (!s0.out_thetas.empty()) A("out_thetas",[](Model &m, Scene &s, const char*){ for (auto &t: s.out_thetas) t+=6.; V1 t=s.out_thetas; TR(xrtm_set_out_thetas(m.d,t.data())); return true; });
  A("coef_first",[](Model &m, Scene &s, const char *p){ for (auto &e: s.coef[0]) for (size_t k=1;k<e.size();k++) e[k]*=1.1; return m.set_coef(s,0); });
  A("fewer_coefs",[L](Model &m, Scene &s, const char *p){ for (auto &e: s.coef[L]) e.pop_back(); return m.set_coef(s,L); });
  A("omega_all",[](Model &m, Scene &s, const char *p){ V1 o; for (int i=0;i<s.nl();i++) { s.omega[i]=T_(p,"omegaN",i,.8,.05); o.push_back(s.omega[i]); } TR(xrtm_set_omega_n(m.d,o.data())); return true; });
  A("ltau_all",[](Model &m, Scene &s, const char *p){ V1 o; for (int i=0;i<s.nl();i++) { s.ltau[i]=T_(p,"ltauN",i,s.ltau[i]*.9,.05); o.push_back(s.ltau[i]); } TR(xrtm_set_ltau_n(m.d,o.data())); return true; });
  return r; }
// changes of the linearised inputs
static std::vector<Mut> mutations_l(const Scene &s0) {
  std::vector<Mut> r; auto A=[&](const char *n, Step f){ r.push_back({n,f}); }; int L=s0.nl()-1;
  A("omega_l",[L](Model &m, Scene &s, const char *p){ s.l[1].omega[L]=S_(Str(p)+".omega_l",.4,-1,1); TR(xrtm_set_omega_l_11(m.d,L,1,s.l[1].omega[L])); return true; });
  A("ltau_l",[](Model &m, Scene &s, const char *p){ s.l[0].ltau[0]=S_(Str(p)+".ltau_l",-.3,-1,1); TR(xrtm_set_ltau_l_11(m.d,0,0,s.l[0].ltau[0])); return true; });
  A("coef_l",[L](Model &m, Scene &s, const char *p){ if (s.l[1].coef[L][0].size()>1) s.l[1].coef[L][0][1]=S_(Str(p)+".coef_l",.2,-1,1); double **c=Model::c2(s.l[1].coef[L]); TR(xrtm_set_coef_l_11(m.d,L,1,c)); return true; });
  if (!s0.kernels.empty()) A("amp_l",[](Model &m, Scene &s, const char *p){ s.l[2].ampfac[0]=S_(Str(p)+".amp_l",.5,-1,1); TR(xrtm_set_kernel_ampfac_l_1(m.d,0,2,s.l[2].ampfac[0])); return true; });
  A("F_iso_l",[](Model &m, Scene &s, const char *p){ s.l[3].F_iso_top=S_(Str(p)+".ft",.5,-1,1); s.l[3].F_iso_bot=S_(Str(p)+".fb",.25,-1,1); TR(xrtm_set_F_iso_top_l_1(m.d,3,s.l[3].F_iso_top)); TR(xrtm_set_F_iso_bot_l_1(m.d,3,s.l[3].F_iso_bot)); return true; });
  if (s0.thermal()) { A("levels_b_l",[](Model &m, Scene &s, const char *p){ s.l[3].levels_b[0]=S_(Str(p)+".b0_l",.5,-1,1); V1 b=s.l[3].levels_b; TR(xrtm_set_levels_b_l_1(m.d,3,b.data())); return true; });
    A("surface_b_l",[](Model &m, Scene &s, const char *p){ s.l[3].surface_b=S_(Str(p)+".sb_l",.5,-1,1); TR(xrtm_set_surface_b_l_1(m.d,3,s.l[3].surface_b)); return true; }); }
  A("vary_more",[](Model &m, Scene &s, const char *p){ s.l[1].omega[0]=S_(Str(p)+".om0_l",.3,-1,1); TR(xrtm_set_omega_l_11(m.d,0,1,s.l[1].omega[0])); TR(xrtm_update_varied_layers(m.d)); return true; });
  A("vary_less",[](Model &m, Scene &s, const char*){ s.l[1].omega[0]=0; TR(xrtm_set_omega_l_11(m.d,0,1,0.)); TR(xrtm_update_varied_layers(m.d)); return true; });
  return r; }
// the same chain with changes applied in reverse order two at a time, and one
// instance that serves several solvers in turn
static void others() {
  static const char *md[]={"pairs","solvers","instances"}; int SV=OPT(SAVE_LEG_POLYS)|OPT(SAVE_PHASE_MATS)|OPT(SAVE_LOCAL_R_T)|OPT(SAVE_LAYER_R_T_S); auto C=configs();
  for (size_t ci=0;ci<C.size();ci++) for (int mode=0;mode<3;mode++) for (int v=0;v<5;v++) { auto &c=C[ci];
    Scene s=c.s; if (v&1) s.options|=SV; if (v==4) s.options=(s.options&~SV)|OPT(STACK_REUSE_ADDING); bool D=v>=2; if (D&&mode!=1) continue; if (D) { s.options|=OPT(CALC_DERIVS); s.l.resize(4); }
    if (mode==2&&v) continue;
    std::vector<int> so; for (auto &x: SOLVERS) if (x.m!=SOL(SOS)&&supported(s,x.m)&&!(c.name=="greens"&&s.n_stokes>1)&&(xs_thorough||s.n_stokes==1||in(x.n,{"eig_add","eig_bvp","single","two_os"}))) so.push_back(x.m);
    if (v==4) { std::vector<int> t; for (int x: so) if (adding(x)) t.push_back(x); so=t; }
    if (so.empty()||(mode==1&&so.size()<2)) continue;
    if (mode==0) { int m=-1; for (int x: so) if (in(sname(x),{"eig_add","eig_bvp"})) { m=x; if (v==(x==SOL(EIG_ADD))) break; } if (m<0) continue; so={m}; }
    if (!xs_scenario(xs_label("%s/%s%s%s",md[mode],c.name.c_str(),v&1?"+save":v==4?"+stacks":"",D?"+derivs":""))) continue;
    if (D) { Scene b=s; b.options&=~OPT(CALC_DERIVS); b.l.clear(); s.l.clear(); Scene t=with_dirs(b); s.l=t.l; for (auto &e: s.l) { Scene q=b; inputs(q,e,[](const char*,int,int,double&,double &d){ d=xs_conc(d); }); } }
    auto same=[&](Str n_, const Result &x, const Result &y, int w){ const char *n=n_.c_str(); auto A=outs(x,w),B=outs(y,w); for (size_t i=0;i<A.size();i++) xs_check_same(xs_label("after %s: %s",n,A[i].name.c_str()),A[i].v,B[i].v,1e-9,1e-12);
      if (D) for (int j=0;j<4;j++) { auto E=outs_l(x,j,w),F=outs_l(y,j,w); for (size_t i=0;i<E.size();i++) xs_check_same(xs_label("after %s: d%d %s",n,j,E[i].name.c_str()),E[i].v,F[i].v,1e-8,1e-11); } };
    if (mode==2) { // two instances at once; the second is another configuration
      Result x,y,z; Str e; int a=so[0],wa=what_of(a); for (auto &l: s.ltau) l=R_(xs_label("l%g",xs_conc(l)),l,.02); if (!run(s,a,x,e,wa)) { xs_fail("%s",e.c_str()); return; }
      for (size_t q=1;q<C.size();q+=7) { Scene t=C[(ci+q)%C.size()].s; int b=0; for (auto &u: SOLVERS) if (u.m!=SOL(SOS)&&supported(t,u.m)) b=u.m; if (!b||t.n_stokes>1) continue; Scene s2=s; s2.solvers=a; t.solvers=b;
        Model A,B; if (!A.create(s2)||!B.create(t)||!A.set_all(s2)||!B.set_all(t)||!B.solve(t,b,z,what_of(b))||!A.solve(s2,a,y,wa)) { xs_fail("%s%s",A.err.c_str(),B.err.c_str()); return; }
        same(xs_label("with %s",C[(ci+q)%C.size()].name.c_str()),y,x,wa); }
      continue; }
    s.solvers=0; for (int x: so) s.solvers|=x; Model m; if (!m.create(s)||!m.set_all(s)) { xs_fail("%s",m.err.c_str()); return; }
    auto M=mutations(s); if (D) { auto N=mutations_l(s); M.insert(M.begin()+1,N.begin(),N.end()); } if (mode==0&&!s.has(OPT(OUTPUT_AT_TAUS))) std::reverse(M.begin(),M.end());
    int k=0; for (auto &mu: M) { const char *p=xs_label("s%d",k++); char pb[16]; snprintf(pb,16,"%s",p);
      bool lim=false; for (int x: so) lim=lim||in(sname(x),{"single","two_os","two_stream","four_stream","six_stream"}); if (lim&&(!strcmp(mu.name,"F_iso")||!strcmp(mu.name,"fewer_coefs"))) continue; if (!strcmp(mu.name,"fewer_coefs")&&(s.coef[s.nl()-1][0].size()<3||D||s.has(OPT(DELTA_M)))) continue;
      if (mode==1&&so.size()>4&&!xs_thorough&&k%3) continue;
      if (!mu.f(m,s,pb)) { xs_fail("%s: %s",mu.name,m.err.c_str()); return; } if (mode==0&&(k&1)) continue;
      for (size_t q=0;q<(mode==1?so.size()+1:1);q++) { int x=so[(q+k)%so.size()], w=what_of(x); Result a,b; Str e; Scene f=s; f.solvers=x; if (!m.solve(s,x,a,w)) { xs_fail("%s: %s",mu.name,m.err.c_str()); return; } if (!run(f,x,b,e,w)) { xs_fail("%s fresh: %s",mu.name,e.c_str()); return; }
        same(xs_label("%s %s",mu.name,sname(x)),a,b,w); } } } }
void xs_main(void) {
  others();
  static const char *vs[]={"","+save","+save_total","+derivs","+derivs_save","+stacks"};
  for (auto &c: configs()) for (auto &so: SOLVERS) for (int v=0;v<6;v++) {
    Scene s=c.s; bool D=v>=3; int SV=OPT(SAVE_LEG_POLYS)|OPT(SAVE_PHASE_MATS)|OPT(SAVE_LOCAL_R_T)|OPT(SAVE_LAYER_R_T_S);
    if (v==1||v==4) s.options|=SV; else if (v==2) s.options|=OPT(SAVE_TOTAL_R_T_S); if (v==5) s.options=(s.options&~SV)|OPT(STACK_REUSE_ADDING);
    if (D) { s.options|=OPT(CALC_DERIVS); s.l.resize(4); } if ((v==2||v==5)&&!adding(so.m)) continue; if (v==5&&!xs_thorough&&!in(c.name,{"solar2","three_layers","thermal_solar","psa","taus","bottom_up","vector3_thermal"})) continue;
    if (!supported(s,so.m)) continue; bool sos=so.m==SOL(SOS); if (sos&&(s.n_stokes>1||(!xs_thorough&&v))) continue;
    if (!xs_thorough && in(so.n,{"doub_add","pade_add","mem_bvp"}) && !in(c.name,{"solar2","thetas","thermal_solar","tms","psa","taus"})) continue;
    if (!xs_thorough && v && v<4 && !in(c.name,{"solar2","thetas","thermal_solar","tms","psa","taus","vector3_thermal","brdf_rtls","sfi_thermal","levels3","top_down","bottom_up"})) continue;
    if (!xs_scenario(xs_label("%s/%s%s",c.name.c_str(),so.n,vs[v]))) continue;
    if (sos) { for (auto &x: s.ltau) x*=.1; s.sos_max_tau=.01; s.sos_max_os=20; }
    if (D) { Scene b=s; b.options&=~OPT(CALC_DERIVS); b.l.clear(); s.l.clear(); Scene t=with_dirs(b); s.l=t.l; for (auto &e: s.l) { Scene q=b; inputs(q,e,[](const char*,int,int,double&,double &d){ d=xs_conc(d); }); } }
    s.solvers=so.m; Model m; int w=what_of(so.m); Result a; if (!m.create(s)||!m.set_all(s)||!m.solve(s,so.m,a,w)) { xs_fail("%s",m.err.c_str()); return; }
    auto M=mutations(s); if (D) { auto N=mutations_l(s); M.insert(M.begin()+1,N.begin(),N.end()); }
    int k=0; for (auto &mu: M) { const char *p=xs_label("s%d",k++); char pb[16]; snprintf(pb,16,"%s",p);
      Scene old=s; if (!strcmp(mu.name,"F_iso")&&in(so.n,{"single","two_os","two_stream"})) continue; if (!strcmp(mu.name,"fewer_coefs")&&(s.coef[s.nl()-1][0].size()<3||D||in(so.n,{"six_stream","four_stream"})||s.has(OPT(DELTA_M)))) continue;
      if (!mu.f(m,s,pb)) { xs_fail("%s: %s",mu.name,m.err.c_str()); return; }
      Result x,y; Str e; if (!m.solve(s,so.m,x,w)) { xs_fail("%s: %s",mu.name,m.err.c_str()); return; } if (!run(s,so.m,y,e,w)) { xs_fail("%s fresh: %s",mu.name,e.c_str()); return; }
      auto A=outs(x,w),B=outs(y,w); for (size_t i=0;i<A.size();i++) xs_check_same(xs_label("after %s: %s",mu.name,A[i].name.c_str()),A[i].v,B[i].v,1e-9,1e-12);
      if (D) for (int j=0;j<4;j++) { auto C=outs_l(x,j,w),E=outs_l(y,j,w); for (size_t i=0;i<C.size();i++) xs_check_same(xs_label("after %s: d%d %s",mu.name,j,C[i].name.c_str()),C[i].v,E[i].v,1e-8,1e-11); } } } }
